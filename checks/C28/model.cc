// pbt:
#include "density.hpp"
#include <albatross/GP>

using namespace albatross;

namespace {

template <typename Model>
void run_model(pbt::Case &c, Model model,
               const RegressionDataset<double> &dataset,
               std::size_t max_iterations) {
  // priors for the parameters, most of them with bounds
  for (const auto &kv : model.get_params()) {
    const double v = kv.second.value;
    switch (v > 0 ? c.i(0, 5) : c.pick<long>({1, 2, 3, 5})) {
    case 0:
      model.set_param(kv.first, Parameter(v, LogScaleUniformPrior(v / 3, v * 2)));
      break;
    case 1:
      model.set_param(kv.first, Parameter(v, UniformPrior(v - 0.1, v + 0.3)));
      break;
    case 2:
      model.set_param(kv.first, Parameter(v, FixedPrior()));
      break;
    case 3: // starts at a bound
      model.set_param(kv.first, Parameter(v, UniformPrior(v, v + 1)));
      break;
    case 4:
      model.set_param(kv.first, Parameter(v, PositivePrior()));
      break;
    default:
      model.set_param(kv.first, Parameter(v, GaussianPrior(v, 0.3)));
      break;
    }
  }
  const auto params = model.get_params();
  std::vector<std::string> names;
  for (const auto &kv : params) {
    c.show(kv.first, kv.second.value);
    c.show("prior", kv.second.prior.get_name());
    if (!kv.second.is_fixed())
      names.push_back(kv.first);
  }
  if (names.empty())
    c.discard();
  const std::size_t iterations = c.size(0, max_iterations);
  const std::size_t walkers = 1 + c.size(0, 20);
  c.show("iterations", iterations).show("walkers", walkers);
  auto e = gen_engine(c);
  const auto e0 = e;
  std::size_t called = 0;
  bool in_order = true;
  const auto states =
      ensemble_sampler(model, dataset, walkers, iterations, e,
                       [&](std::size_t i, const EnsembleSamplerState &) {
                         in_order = in_order && i == called;
                         ++called;
                       });
  c.check(in_order, "callbacks in order");
  c.eq(called, iterations + 1, "number of callbacks");
  c.eq(states.size(), iterations + 1, "number of states");
  c.check(model.get_params() == params, "the model is not modified");
  std::size_t moved = 0, evaluated = 0;
  const std::size_t n = std::max(walkers, 2 * params.size() + 1);
  for (std::size_t i = 0; i < states.size(); ++i) {
    c.eq(states[i].size(), n, "number of walkers");
    for (const auto &s : states[i]) {
      c.eq(s.params.size(), names.size(), "dimension");
      c.check(std::isfinite(s.log_prob), "finite log probability");
      moved += i > 0 && s.accepted;
      if (i > 0 && !s.accepted)
        continue;
      Model m(model);
      for (std::size_t k = 0; k < names.size(); ++k) {
        const auto &p = params.at(names[k]);
        const bool log_scale = p.prior.is_log_scale();
        double v = s.params[k], lo = p.prior.lower_bound(),
               hi = p.prior.upper_bound();
        if (log_scale)
          lo = std::log(lo), hi = std::log(hi);
        if (!(v >= lo && v <= hi)) {
          std::ostringstream o;
          o.precision(17);
          o << "iteration " << i << " has " << names[k] << " = " << v
            << " outside of its bounds [" << lo << ", " << hi << "]";
          c.fail(o.str());
        }
        if (log_scale) // rounding may push this over the bound
          v = std::min(p.prior.upper_bound(),
                       std::max(p.prior.lower_bound(), std::exp(v)));
        m.set_param_value(names[k], v);
      }
      if (++evaluated <= 60)
        c.near(s.log_prob, m.log_likelihood(dataset), 1e-9, 1e-9,
               "log probability of the walker is the log likelihood of a "
               "model with its parameters");
    }
  }
  // the same draws give the same chain
  auto e2 = e0;
  const auto again = ensemble_sampler(model, dataset, walkers, iterations, e2);
  for (std::size_t i = 0; i < states.size(); ++i)
    for (std::size_t k = 0; k < n; ++k)
      c.check(again[i][k].params == states[i][k].params, "reproducible");
  c.nontrivial(moved >= 5);
}

RegressionDataset<double> gen_data(pbt::Case &c, std::size_t max_n) {
  const std::size_t n = 1 + c.size(0, max_n - 1);
  std::vector<double> xs;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    // (distinct, the noise is independent for different features only)
    xs.push_back(0.6 * static_cast<double>(i) + c.real(0, 0.3));
    y[static_cast<Eigen::Index>(i)] = c.sym(2);
  }
  c.showv("x", xs);
  c.note() << "y=" << y.transpose() << " ";
  return RegressionDataset<double>(xs, y);
}

} // namespace

PBT_CHECK(model_samples_have_their_likelihood, 1500, 12000,
          "Gaussian processes (noise; squared exponential and noise; with a "
          "linear mean) whose parameters have random priors, some of them "
          "starting at a bound: every walker of every iteration is inside of "
          "the bounds and its log probability is the log likelihood of a "
          "model with these parameters; non-trivial: at least five accepted "
          "moves.") {
  const auto data = gen_data(c, 6);
  IndependentNoise<double> noise(c.logreal(0.2, 2));
  switch (c.i(0, 2)) {
  case 0:
    run_model(c, gp_from_covariance(noise), data, 30);
    break;
  case 1:
    run_model(c,
              gp_from_covariance(SquaredExponential<EuclideanDistance>(
                                     c.logreal(0.3, 3), c.logreal(0.3, 3)) +
                                 noise),
              data, 15);
    break;
  default: {
    LinearMean mean;
    mean.offset.value = c.sym(1);
    mean.slope.value = c.sym(1);
    run_model(c, gp_from_covariance_and_mean(noise, mean), data, 15);
    break;
  }
  }
}

PBT_CHECK(posterior_of_a_noise_model, 12, 120,
          "the standard deviation of independent noise with a uniform or log "
          "uniform prior, given 1-3 measurements: after burn in the chain "
          "follows the posterior obtained by quadrature over the tunable "
          "parameter (distance of the distribution functions below 0.06); "
          "non-trivial: the posterior reaches one of the bounds.") {
  const auto data = gen_data(c, 3);
  const double lo = c.logreal(0.2, 0.8), hi = lo * (1.5 + c.real(0, 6));
  const bool log_scale = c.coin();
  const double start = std::sqrt(lo * hi);
  IndependentNoise<double> noise(start);
  if (log_scale)
    noise.sigma_independent_noise.prior = LogScaleUniformPrior(lo, hi);
  else
    noise.sigma_independent_noise.prior = UniformPrior(lo, hi);
  const auto model = gp_from_covariance(noise);
  c.show("lo", lo).show("hi", hi).show("log scale", log_scale);
  // the distribution function on a grid
  const std::size_t grid = 4000;
  const double tl = log_scale ? std::log(lo) : lo,
               th = log_scale ? std::log(hi) : hi;
  std::vector<double> cdf(grid + 1, 0.);
  const double yy = data.targets.mean.squaredNorm();
  const double ny = static_cast<double>(data.targets.mean.size());
  std::vector<double> dens;
  double peak = -HUGE_VAL;
  for (std::size_t i = 0; i < grid; ++i) {
    const double t =
        tl + (th - tl) * (static_cast<double>(i) + 0.5) / grid;
    const double sd = log_scale ? std::exp(t) : t;
    dens.push_back(-0.5 * yy / (sd * sd) - ny * std::log(sd));
    peak = std::max(peak, dens.back());
  }
  for (std::size_t i = 0; i < grid; ++i)
    cdf[i + 1] = cdf[i] + std::exp(dens[i] - peak);
  auto e = gen_engine(c);
  const auto states = ensemble_sampler(model, data, 20, 1500, e);
  std::vector<double> us;
  for (std::size_t i = 100; i < states.size(); i += 2)
    for (const auto &s : states[i]) {
      const double at = (s.params[0] - tl) / (th - tl) * grid;
      c.check(at >= -1e-9 && at <= grid + 1e-9, "inside of the bounds");
      const std::size_t k = std::min<std::size_t>(
          grid - 1, static_cast<std::size_t>(std::max(0., at)));
      us.push_back((cdf[k] + (at - static_cast<double>(k)) *
                                 (cdf[k + 1] - cdf[k])) /
                   cdf[grid]);
    }
  std::sort(us.begin(), us.end());
  double ks = 0;
  for (std::size_t i = 0; i < us.size(); ++i)
    ks = std::max(ks, std::fabs(us[i] - (static_cast<double>(i) + 0.5) /
                                            static_cast<double>(us.size())));
  c.show("ks", ks);
  c.check(ks < 0.06, "the chain follows the posterior");
  c.nontrivial(std::exp(dens.front() - peak) > 0.1 ||
               std::exp(dens.back() - peak) > 0.1);
}
