// pbt:
#include "gpref.hpp"
#include <albatross/Ransac>
#include <albatross/src/models/conditional_gaussian.hpp>
using namespace gpref;

namespace {
std::string bucket(const double &x) { return std::to_string(static_cast<long>(std::floor(x / 1.5))); }

struct Data {
  std::vector<double> x;
  MarginalDistribution y;
  MatL prior; // of the measurements
  VecL mean;
};

template <typename Model> Data data(pbt::Case &c, Model *model, std::size_t least) {
  Data d;
  randomize(c, model);
  const std::size_t n = c.size(least, 9);
  d.x = features<double>(c, n, false);
  d.y = targets(c, n, 1e-2);
  for (Eigen::Index i = 0; i < d.y.mean.size(); ++i) {
    d.y.mean[i] *= 0.2;
    if (c.chance(1, 5))
      d.y.mean[i] += c.coin() ? 30 : -30;
  }
  show(c, "features", d.x);
  c.show("targets", d.y.mean.transpose()).show("noise", d.y.covariance.diagonal().transpose());
  const auto meas = as_measurements(d.x);
  d.prior = pairwise(model->get_covariance(), meas, meas);
  d.mean = means(model->get_mean(), meas);
  return d;
}

using Indices = std::vector<std::size_t>;
template <typename Key>
Indices indices(const std::map<Key, Indices> &groups, const std::vector<Key> &keys) {
  Indices out;
  for (const auto &k : keys)
    out.insert(out.end(), groups.at(k).begin(), groups.at(k).end());
  return out;
}
MatL block(const MatL &m, const Indices &a, const Indices &b) {
  MatL out(static_cast<Eigen::Index>(a.size()), static_cast<Eigen::Index>(b.size()));
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t j = 0; j < b.size(); ++j)
      out(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = m(static_cast<Eigen::Index>(a[i]), static_cast<Eigen::Index>(b[j]));
  return out;
}
VecL part(const VecL &v, const Indices &a) {
  VecL out(static_cast<Eigen::Index>(a.size()));
  for (std::size_t i = 0; i < a.size(); ++i)
    out[static_cast<Eigen::Index>(i)] = v[static_cast<Eigen::Index>(a[i])];
  return out;
}
Conditional given(const Data &d, const Indices &which) {
  MatL k = block(d.prior, which, which);
  k.diagonal() += part(diag(d.y), which);
  return Conditional(k, part(d.mean, which), part(d.y.mean.cast<LD>(), which));
}

template <typename F> std::vector<F> take(const std::vector<F> &x, const Indices &which) {
  std::vector<F> out;
  for (const auto i : which)
    out.push_back(x[i]);
  return out;
}

// minus the log density of measured values under a prediction
LD nll(const Answer &a, const Data &d, const Indices &which, double *tol) {
  MatL k = a.cov;
  k.diagonal() += part(diag(d.y), which);
  const Conditional density(k, a.mean, part(d.y.mean.cast<LD>(), which));
  const double amp = static_cast<double>(1 + density.info.squaredNorm()) * static_cast<double>(which.size());
  *tol = density.log_density_tol() + 10 * amp * (a.cov_tol + a.mean_tol) + 10 * a.cov_tol / 1e-2 * static_cast<double>(which.size());
  return -density.log_density();
}

enum How { COUNT, ENTROPY, CHI };

template <typename Key>
LD consensus_value(How how, const Data &d, const Indices &which, double *tol) {
  *tol = 0;
  if (how == COUNT)
    return -static_cast<LD>(which.size());
  const LD n = static_cast<LD>(which.size());
  if (how == ENTROPY) {
    // of the prior, without the noise of the targets
    const Conditional density(block(d.prior, which, which), VecL::Zero(static_cast<Eigen::Index>(which.size())), VecL::Zero(static_cast<Eigen::Index>(which.size())));
    if (density.cond > 1e9) {
      *tol = std::numeric_limits<double>::infinity();
      return 0;
    }
    *tol = 1e-9 + 1e-14 * static_cast<double>(density.cond) * static_cast<double>(n);
    return n / 2 - density.log_density();
  }
  const Conditional g = given(d, which);
  *tol = 3e-6;
  return chi_squared_cdf(static_cast<double>(g.resid.dot(g.info)), static_cast<double>(n));
}

template <typename Model, typename Key, typename Strategy>
void check_gp(pbt::Case &c, const Model &model, const Data &d, const std::map<Key, Indices> &groups, const Strategy &strategy, How how, double chi, bool generic) {
  const std::size_t g = groups.size();
  c.assume(g >= 3);
  const std::size_t sample = static_cast<std::size_t>(c.i(1, static_cast<long>(g) - 2));
  const std::size_t least = sample + static_cast<std::size_t>(c.i(0, static_cast<long>(g - 1 - sample)));
  const RansacConfig config(c.pick<double>({2., 1., 5., 0., 1000., -1000.}), sample, least, static_cast<std::size_t>(c.i(1, 4)), static_cast<std::size_t>(c.i(0, 3)));
  c.show("threshold", config.inlier_threshold).show("sample", sample).show("least", least).show("iterations", config.max_iterations).show("failures", config.max_failed_candidates);
  c.assume(given(d, [&]() { Indices all; for (std::size_t i = 0; i < d.x.size(); ++i) all.push_back(i); return all; }()).cond < 1e6);
  c.nontrivial(true);
  const RegressionDataset<double> dataset(d.x, d.y);
  const auto wrapped = model.ransac(strategy, config);
  const auto fit = wrapped.fit(dataset);
  const auto &out = fit.get_fit().ransac_output;
  for (const auto &it : out.iterations) {
    const auto candidates = indices(groups, it.candidates);
    const Conditional known = given(d, candidates);
    if (chi < 1) {
      const double p = chi_squared_cdf(static_cast<double>(known.resid.dot(known.info)), static_cast<double>(candidates.size()));
      c.assume(std::fabs(p - chi) > 1e-5);
      const bool ran = it.inliers.size() + it.outliers.size() > 0;
      c.check(ran == (p <= chi), "candidates are valid when they are consistent with the prior");
      if (!ran)
        continue;
    }
    c.eq(it.inliers.size() + it.outliers.size() + it.candidates.size(), g, "groups");
    for (const auto *side : {&it.inliers, &it.outliers})
      for (const auto &p : *side) {
        const auto which = groups.at(p.first);
        // a generic strategy predicts the features themselves
        const auto train = take(d.x, candidates), test = take(d.x, which);
        const Answer a = generic ? predict(model, known, train, test)
                                 : known.predict(block(d.prior, candidates, which), part(d.mean, which), block(d.prior, which, which));
        double tol;
        const LD want = nll(a, d, which, &tol);
        c.near(p.second, static_cast<double>(want), 1e-9, tol, "metric of a group given the candidates");
        c.check((p.second <= config.inlier_threshold) == (side == &it.inliers), "side of a group");
      }
    const auto agreed = indices(groups, it.consensus());
    c.check(std::isnan(it.consensus_metric_value) || it.consensus().size() >= least, "value of too small a consensus");
    if (it.consensus().size() >= least) {
      if (generic) {
        LD rmse = 0;
        double tol = 1e-9;
        for (const auto i : agreed) {
          Indices rest;
          for (const auto j : agreed)
            if (j != i)
              rest.push_back(j);
          const Answer a = rest.empty() ? Answer() : given(d, rest).predict(block(d.prior, rest, {i}), part(d.mean, {i}), block(d.prior, {i}, {i}));
          rmse += fabsl((rest.empty() ? d.mean[static_cast<Eigen::Index>(i)] : a.mean[0]) - d.y.mean[static_cast<Eigen::Index>(i)]) / static_cast<LD>(agreed.size());
          tol += a.mean_tol * 100;
        }
        c.near(it.consensus_metric_value, static_cast<double>(rmse), 1e-7, tol, "consensus metric");
      } else {
        double tol;
        const LD want = consensus_value<Key>(how, d, agreed, &tol);
        if (std::isinf(tol))
          continue; // the entropy of a singular prior
        c.near(it.consensus_metric_value, static_cast<double>(want), 1e-9, tol, "consensus metric");
      }
    }
  }
  c.label(to_string(out.return_code));
  c.check(fit.get_fit().has_fit_model() == ransac_success(out.return_code), "a successful fit holds a model");
  const auto at = features<double>(c, 3);
  if (ransac_success(out.return_code)) {
    const auto agreed = indices(groups, out.best.consensus());
    const Conditional known = given(d, agreed);
    check_prediction(c, fit.predict(at), predict(model, known, take(d.x, agreed), at), "prediction from the consensus");
  } else if (c.chance(1, 50)) {
    c.check(pbt::rejects([&]() { fit.predict(at).mean(); }), "predicting without a consensus is rejected");
  }
}

template <typename Model, typename Grouper, typename Key>
void choose(pbt::Case &c, Model model, Grouper grouper, const std::map<Key, Indices> &groups, const Data &d) {
  const NegativeLogLikelihood<JointDistribution> inlier;
  switch (c.i(0, 4)) {
  case 0:
    return check_gp(c, model, d, groups, gp_ransac_strategy(inlier, FeatureCountConsensusMetric(), grouper), COUNT, 1, false);
  case 1:
    return check_gp(c, model, d, groups, gp_ransac_strategy(inlier, DifferentialEntropyConsensusMetric(), grouper), ENTROPY, 1, false);
  case 2:
    return check_gp(c, model, d, groups, gp_ransac_strategy(inlier, ChiSquaredConsensusMetric(), grouper), CHI, 1, false);
  case 3: {
    const double chi = c.pick<double>({0.5, 0.9, 0.999});
    return check_gp(c, model, d, groups, gp_ransac_strategy(inlier, FeatureCountConsensusMetric(), ChiSquaredIsValidCandidateMetric(chi), grouper), COUNT, chi, false);
  }
  default:
    return check_gp(c, model, d, groups, get_generic_ransac_strategy(inlier, LeaveOneOutRMSE(), grouper), COUNT, 1, true);
  }
}
} // namespace

PBT_CHECK(gp_consensus, 80000, 300000,
          "RANSAC of a Gaussian process (mean function, measurement-only and "
          "target noise) on 3..9 data with outliers, in groups of one or by "
          "position, with every consensus and candidate metric and a generic "
          "strategy: the metric of each group given the candidates, the value "
          "of each consensus and the final prediction against conditioning in "
          "long double; non-trivial: valid arguments.") {
  auto model = smooth_model();
  const Data d = data(c, &model, 3);
  if (c.coin()) {
    std::map<std::size_t, Indices> groups;
    for (std::size_t i = 0; i < d.x.size(); ++i)
      groups[i] = {i};
    return choose(c, model, LeaveOneOutGrouper(), groups, d);
  }
  std::map<std::string, Indices> groups;
  for (std::size_t i = 0; i < d.x.size(); ++i)
    groups[bucket(d.x[i])].push_back(i);
  return choose(c, model, bucket, groups, d);
}

namespace {
// metrics which are of no use once destroyed
struct Payload {
  explicit Payload(double v) : value(v) {}
  Payload(const Payload &other) : value(other.value) {}
  ~Payload() { value = NAN; }
  volatile double value;
};
struct Scaled {
  explicit Scaled(double f) : factor(f) {}
  double operator()(const Eigen::VectorXd &p, const MarginalDistribution &truth) const {
    return factor.value * (p - truth.mean).cwiseAbs().sum();
  }
  template <typename M, typename F, typename T>
  double operator()(const Prediction<M, F, T> &p, const MarginalDistribution &truth) const {
    return (*this)(p.mean(), truth);
  }
  Payload factor;
};
struct ScaledVariance {
  explicit ScaledVariance(double f) : factor(f) {}
  double operator()(const MarginalDistribution &p, const MarginalDistribution &truth) const {
    return factor.value * (p.covariance.diagonal() + truth.covariance.diagonal()).sum() + p.mean.sum();
  }
  template <typename M, typename F, typename T>
  double operator()(const Prediction<M, F, T> &p, const MarginalDistribution &truth) const {
    return (*this)(p.marginal(), truth);
  }
  Payload factor;
};
struct Weighted {
  explicit Weighted(double f) : factor(f) {}
  double operator()(const JointDistribution &prior, const MarginalDistribution &truth) const {
    return -factor.value * static_cast<double>(truth.size()) + prior.covariance.sum();
  }
  Payload factor;
};
struct Limit {
  explicit Limit(double f) : factor(f) {}
  bool operator()(const JointDistribution &prior, const MarginalDistribution &truth) const {
    return (prior.mean - truth.mean).cwiseAbs().maxCoeff() <= factor.value;
  }
  Payload factor;
};

// nothing of the caller's is left alive
template <typename Inlier>
RansacFunctions<ConditionalFit, std::string> functions(const Data &d, const GroupIndexer<std::string> &groups, double a, double b, double limit) {
  const JointDistribution prior(d.mean.cast<double>(), d.prior.cast<double>());
  return get_gp_ransac_functions(prior, d.y, groups, Inlier(a), Weighted(b), Limit(limit));
}
__attribute__((noinline)) double overwrite_stack(double x) {
  volatile double a[512];
  for (int i = 0; i < 512; ++i)
    a[i] = x;
  return a[17];
}
} // namespace

PBT_CHECK(gp_functions, 30000, 100000,
          "the functions with which a Gaussian process of 3..9 data in named "
          "groups is run through RANSAC, made from a prior, data, groups and "
          "metrics (of the mean, the marginal or the prior) which are gone by "
          "the time they are called, against conditioning in long double; "
          "non-trivial: always.") {
  auto model = smooth_model();
  const Data d = data(c, &model, 3);
  std::map<std::string, Indices> all;
  GroupIndexer<std::string> groups;
  for (std::size_t i = 0; i < d.x.size(); ++i) {
    const auto key = c.coin() ? "a" : "b" + std::to_string(c.i(0, 4));
    all[key].push_back(i);
    groups[key].push_back(i);
  }
  c.assume(all.size() >= 2);
  const double a = c.real(0.5, 3), b = c.real(0.5, 3), limit = c.real(0, 3);
  const bool mean_only = c.coin();
  std::vector<std::string> keys;
  for (const auto &p : all)
    keys.push_back(p.first);
  c.shuffle(keys);
  const std::string left_out = keys.back();
  keys.pop_back();
  keys.resize(1 + c.src.draw(keys.size() - 1));
  c.showv("groups fitted", keys).show("group predicted", left_out).show("factors", a).show("", b).show("limit", limit);
  const auto fitted = indices(all, keys), other = all.at(left_out);
  const Conditional known = given(d, fitted);
  c.assume(known.cond < 1e6);
  c.nontrivial(true);
  const auto f = mean_only ? functions<Scaled>(d, groups, a, b, limit) : functions<ScaledVariance>(d, groups, a, b, limit);
  overwrite_stack(-7);
  const Answer want = known.predict(block(d.prior, fitted, other), part(d.mean, other), block(d.prior, other, other));
  const VecL y = part(d.y.mean.cast<LD>(), other);
  LD metric = mean_only ? a * (want.mean - y).cwiseAbs().sum() : a * (want.cov.diagonal().sum() + part(diag(d.y), other).sum()) + want.mean.sum();
  const double n = static_cast<double>(other.size());
  c.near(f.inlier_metric(left_out, f.fitter(keys)), static_cast<double>(metric), 1e-9, 5 * n * (want.mean_tol + want.cov_tol), "metric of a group");
  c.near(f.consensus_metric(keys), static_cast<double>(-b * static_cast<LD>(fitted.size()) + block(d.prior, fitted, fitted).sum()), 1e-9, 1e-9, "value of a consensus");
  const LD off = (part(d.mean, fitted) - part(d.y.mean.cast<LD>(), fitted)).cwiseAbs().maxCoeff();
  c.assume(std::fabs(static_cast<double>(off) - limit) > 1e-9);
  c.check(f.is_valid_candidate(keys) == (off <= limit), "candidates are valid by the prior");
}
