// pbt: libs=nlopt,nlopt_cxx
#include "tuneref.hpp"
#include <albatross/GP>

using namespace albatross;

namespace {

struct Noisy {
  Smooth f;
  int kind; // 1: not a number on stripes
  double operator()(const ParameterStore &p) const {
    const double v = f(p);
    return kind == 1 && std::sin(40 * v) > 0.8 ? std::nan("") : v;
  }
};

void check_result(pbt::Case &c, const ParameterStore &got, const Problem &p,
                  const Recording<Noisy> &f, bool *better) {
  check_inside(c, got, p.store, "result");
  for (const auto &call : f.calls)
    check_inside(c, call.first, p.store, "evaluation");
  c.check(!f.calls.empty(), "evaluated");
  const double start = f.f(p.store), end = f.f(got);
  double best = HUGE_VAL;
  for (const auto &call : f.calls)
    best = call.second < best ? call.second : best;
  const double tol = 1e-9 * (1 + p.f.magnitude(p.t));
  if (std::isfinite(start)) {
    c.check(end <= start + tol, "no worse than the start");
    // the start is one of the points that was evaluated
    c.check(best <= start + tol, "starts at the initial parameters");
  }
  *better = end < start - tol;
}

} // namespace

PBT_CHECK(generic_tuner, 6000, 50000,
          "objectives of 1-4 parameters (some not a number in places), a "
          "budget of 1-80 evaluations, subplex and gradient based tuning, with and without pool: all evaluations and the result "
          "are inside of the bounds, fixed parameters stay, the result is no "
          "worse than the start; non-trivial: an improvement was made.") {
  const Problem p = gen_problem(c, 4, c.coin());
  if (p.t.empty())
    c.discard();
  const bool gradient = c.chance(1, 3);
  Recording<Noisy> f{{p.f, gradient ? 0 : static_cast<int>(c.i(0, 1))}, {}, {}};
  std::ostringstream log;
  GenericTuner tuner(p.store, log);
  if (gradient) {
    tuner.optimizer = default_gradient_optimizer(p.store);
    if (c.chance(1, 10))
      tuner.threads = std::make_shared<ThreadPool>(
          static_cast<std::size_t>(c.i(1, 3)));
  }
  const int budget = static_cast<int>(1 + c.size(0, 79));
  tuner.optimizer.set_maxeval(budget);
  c.show("gradient", gradient).show("budget", budget);
  c.show("algorithm", tuner.optimizer.get_algorithm_name());
  const auto objective = [&](const ParameterStore &q) { return f(q); };
  ParameterStore got;
  try {
    got = tuner.tune(objective);
  } catch (const std::runtime_error &e) {
    // NLopt gave up (SLSQP does, for flat or concave objectives)
    c.label(std::string("nlopt: ") + e.what());
    bool close = false; // to a bound, closer than a simplex can be
    for (std::size_t i = 0; i < p.t.size(); ++i)
      for (const double bound : {p.lo[i], p.hi[i]}) {
        const double d = std::fabs(p.t[i] - bound);
        close = close || (d > 0 && d < 1e-8 * p.f.terms[i].s);
      }
    c.check(gradient || close, std::string("NLopt failed: ") + e.what());
    return;
  }
  bool better = false;
  check_result(c, got, p, f, &better);
  c.check(tuner.initial_params == p.store, "initial parameters unmodified");
  c.nontrivial(better);
}

namespace {

bool tune_one(pbt::Case &c, bool *away) {
  const std::size_t n = 1 + c.size(0, 2);
  const bool bounded = c.coin();
  Smooth f;
  ParameterStore store;
  std::vector<double> start, best;
  for (std::size_t i = 0; i < n; ++i) {
    const std::string name = std::to_string(i);
    const double s = c.logreal(0.2, 5), m = c.sym(3) * s;
    Smooth::Term k{name, false, m, s, 0, c.real(0.5, 3), 0, 0};
    const double lo = m + s * c.real(-3, 1), hi = lo + s * c.real(0.5, 4);
    const double at = c.pick<double>({-1, -1, 0, 1});
    double v = lo + (hi - lo) * (at < 0 ? c.real(0.1, 0.9) : at);
    v = std::min(hi, std::max(lo, v));
    if (bounded)
      store[name] = {v, UniformPrior(lo, hi)};
    else
      store[name] = {v, UninformativePrior()};
    best.push_back(bounded ? std::min(hi, std::max(lo, m)) : m);
    start.push_back(v);
    f.terms.push_back(k);
    c.show("m", m).show("s", s).show("b", k.b).show("lo", lo).show("hi", hi);
    c.show("v", v);
  }
  if (c.chance(1, 4)) {
    store["fixed"] = {3., FixedPrior()};
  }
  const bool gradient = c.coin();
  c.show("bounded", bounded).show("gradient", gradient);
  std::ostringstream log;
  GenericTuner tuner(store, log);
  if (gradient)
    tuner.optimizer = default_gradient_optimizer(store);
  if (c.chance(1, 10))
    tuner.threads =
        std::make_shared<ThreadPool>(static_cast<std::size_t>(c.i(1, 3)));
  std::vector<double> got;
  const long signature = gradient && bounded ? 0 : c.i(0, 2);
  c.show("signature", signature);
  bool outside = false;
  // (differences for gradients of plain vectors do not know about bounds)
  const auto inside = [&](const std::vector<double> &x) {
    for (std::size_t i = 0; bounded && i < n; ++i) {
      const auto &prior = store.at(std::to_string(i)).prior;
      outside = outside || !(x[i] >= prior.lower_bound() &&
                             x[i] <= prior.upper_bound());
    }
  };
  if (signature == 0) {
    const auto objective = [&](const ParameterStore &p) { return f(p); };
    const auto r = tuner.tune(objective);
    check_inside(c, r, store, "result");
    got = f.tunable(r);
  } else if (signature == 1) {
    const auto objective = [&](const std::vector<double> &x) {
      inside(x);
      return f.value(x);
    };
    got = tuner.tune(objective);
  } else {
    const auto objective = [&](const Eigen::VectorXd &x) {
      const std::vector<double> v(x.data(), x.data() + x.size());
      inside(v);
      return f.value(v);
    };
    const Eigen::VectorXd r = tuner.tune(objective);
    got.assign(r.data(), r.data() + r.size());
  }
  c.eq(got.size(), n, "dimension");
  c.check(!outside, "evaluations are inside of the bounds");
  inside(got);
  c.check(!outside, "the result is inside of the bounds");
  double excess = f.value(got) - f.value(best);
  c.show("excess", excess);
  c.check(excess >= -1e-9, "below the minimum (harness)");
  c.check(f.value(got) <= f.value(start) + 1e-9, "no worse than the start");
  *away = f.value(start) > f.value(best) + 0.05;
  // in a few of thousands of cases NLopt stops early
  return excess < 0.1 * (f.value(start) - f.value(best) + 0.05);
}

} // namespace

PBT_CHECK(tuners_find_the_minimum, 500, 3000,
          "sets of 12 convex objectives of 1-3 free or bounded parameters "
          "(starting at a bound too) with the default budgets: subplex and "
          "gradient based tuning end at the constrained minimum (in at least "
          "8 of the 12: NLopt stops early once in a thousand times), whether "
          "the objective takes parameters, a std::vector or an Eigen vector, "
          "with and without a pool; always no worse than the start; "
          "non-trivial: most starts were not the minimum.") {
  int good = 0, away = 0;
  for (int k = 0; k < 12; ++k) {
    bool a = false;
    good += tune_one(c, &a);
    away += a;
  }
  c.check(good >= 8, "the minimum is found in only " + std::to_string(good) +
                         " of 12 problems");
  c.nontrivial(away > 8);
}

namespace {

// A model whose parameters can be read by the metric.
struct CountingMetric {
  struct Log {
    std::mutex mutex;
    std::vector<std::pair<std::size_t, double>> calls; // data set, metric
  };
  std::shared_ptr<Log> log;

  template <typename ModelType>
  double operator()(const RegressionDataset<double> &dataset,
                    const ModelBase<ModelType> &model) const {
    // a distance between the data and the (prior) mean and noise of the model
    const auto params = model.derived().get_params();
    const double offset = params.at("offset").value,
                 slope = params.at("slope").value,
                 sigma = params.at("sigma_independent_noise").value;
    double m = 0;
    for (std::size_t i = 0; i < dataset.size(); ++i) {
      const double e = dataset.targets.mean[static_cast<Eigen::Index>(i)] -
                       offset - slope * dataset.features[i];
      m += std::log(sigma) + 0.5 * e * e / (sigma * sigma);
    }
    std::lock_guard<std::mutex> lock(log->mutex);
    log->calls.emplace_back(dataset.size(), m);
    return m;
  }
};

std::vector<std::vector<double>> aggregated;

double recording_sum(const std::vector<double> &xs) {
  aggregated.push_back(xs);
  double s = 0;
  for (const double x : xs)
    s += x * x + x;
  return s;
}

} // namespace

PBT_CHECK(model_tuner, 2500, 20000,
          "a linear mean and noise, 1-4 data sets of different sizes, the "
          "mean or a custom aggregation, random priors: for every set of "
          "parameters the metric is evaluated once for each data set in "
          "order with a model which has these parameters, the aggregate of "
          "the results is minimised, the model is not modified, and the "
          "result has an aggregate no worse than the start; non-trivial: two "
          "or more data sets and an improvement.") {
  IndependentNoise<double> noise(c.logreal(0.3, 3));
  LinearMean mean;
  mean.offset.value = c.sym(2);
  mean.slope.value = c.sym(2);
  auto model = gp_from_covariance_and_mean(noise, mean);
  const double sigma = model.get_param_value("sigma_independent_noise");
  model.set_param("sigma_independent_noise",
                  c.coin() ? Parameter(sigma, LogScaleUniformPrior(0.1, 10.))
                           : Parameter(sigma, UniformPrior(0.1, 10.)));
  bool fixed = false;
  if (c.chance(1, 3)) {
    model.set_prior("slope", FixedPrior());
    fixed = true;
  }
  std::vector<RegressionDataset<double>> sets;
  const std::size_t k = 1 + c.size(0, 3);
  for (std::size_t s = 0; s < k; ++s) {
    const std::size_t n = 2 * s + 1 + c.size(0, 1);
    std::vector<double> xs;
    Eigen::VectorXd y(static_cast<Eigen::Index>(n));
    for (std::size_t i = 0; i < n; ++i) {
      xs.push_back(c.sym(3));
      y[static_cast<Eigen::Index>(i)] = c.sym(3);
    }
    c.showv("x", xs);
    sets.emplace_back(xs, y);
  }
  CountingMetric metric{std::make_shared<CountingMetric::Log>()};
  std::ostringstream log;
  const bool custom = c.coin();
  aggregated.clear();
  const auto before = model.get_params();
  const int budget = static_cast<int>(1 + c.size(0, 60));
  c.show("budget", budget).show("custom", custom).show("sets", k);
  ParameterStore got;
  const TuningMetricAggregator aggregator =
      custom ? recording_sum : mean_aggregator;
  auto tuner = k == 1 ? get_tuner(model, metric, sets[0], aggregator, log)
                      : get_tuner(model, metric, sets, aggregator, log);
  if (c.coin())
    tuner.initialize_optimizer(nlopt::LN_NELDERMEAD);
  tuner.optimizer.set_maxeval(budget);
  got = tuner.tune();
  c.check(model.get_params() == before && tuner.model.get_params() == before,
          "the models are not modified");
  check_inside(c, got, before, "result");
  const auto &calls = metric.log->calls;
  c.eq(calls.size() % k, std::size_t(0), "whole rounds");
  c.check(!calls.empty() && calls.size() / k <=
                                static_cast<std::size_t>(budget),
          "the budget is respected");
  const auto combine = [&](const std::vector<double> &xs) {
    double s = 0;
    for (const double x : xs)
      s += custom ? x * x + x : x;
    return custom ? s : s / static_cast<double>(k);
  };
  double best = HUGE_VAL, first = 0;
  for (std::size_t i = 0; i < calls.size(); i += k) {
    std::vector<double> xs;
    for (std::size_t s = 0; s < k; ++s) {
      c.eq(calls[i + s].first, sets[s].size(), "data sets in order");
      xs.push_back(calls[i + s].second);
    }
    if (custom)
      c.check(aggregated[i / k] == xs, "aggregates the metrics in order");
    else
      c.near(mean_aggregator(xs), combine(xs), 1e-13, 1e-13, "mean");
    if (i == 0)
      first = combine(xs);
    best = std::min(best, combine(xs));
  }
  // the objective at the start and at the result, by hand
  const auto at = [&](const ParameterStore &p) {
    const double offset = p.at("offset").value, slope = p.at("slope").value,
                 sd = p.at("sigma_independent_noise").value;
    std::vector<double> xs;
    for (const auto &d : sets) {
      double m = 0;
      for (std::size_t i = 0; i < d.size(); ++i) {
        const double e = d.targets.mean[static_cast<Eigen::Index>(i)] - offset -
                         slope * d.features[i];
        m += std::log(sd) + 0.5 * e * e / (sd * sd);
      }
      xs.push_back(m);
    }
    return combine(xs);
  };
  c.near(first, at(before), 1e-9, 1e-9, "starts at the model's parameters");
  c.near(at(got), best, 1e-9, 1e-9, "the best parameters are returned");
  c.label_if(fixed, "fixed parameter");
  c.nontrivial(k > 1 && best < first - 1e-9);
}
