// pbt:
#include "gpref.hpp"
using namespace gpref;

namespace {
std::string bucket(const double &x) {
  return std::to_string(static_cast<int>(std::floor(x / 2)));
}

// what the data outside of `held` says about the held out measurements
template <typename Model>
Answer held_out(const Model &model, const RegressionDataset<double> &d,
                const std::vector<std::size_t> &held, bool measured) {
  const auto rest = indices_complement(held, d.size());
  const auto train = subset(d, rest), test = subset(d, held);
  const auto given = observe(model, train.features, train.targets);
  if (!measured)
    return predict(model, given, train.features, test.features);
  const auto cov = model.get_covariance();
  const auto a = as_measurements(train.features), b = as_measurements(test.features);
  return given.predict(pairwise(cov, a, b), means(model.get_mean(), b), pairwise(cov, b, b));
}

LD nll(const VecL &r, const MatL &k) {
  const Conditional x(k, VecL::Zero(r.size()), r);
  return -x.log_density();
}

template <typename Model>
double log_prior(const Model &m) {
  double sum = 0;
  for (const auto &p : m.get_params())
    sum += p.second.prior_log_likelihood();
  return sum;
}
} // namespace

PBT_CHECK(held_out_metrics, 8000, 300000,
          "leave one out likelihood (joint and marginal), leave one group out "
          "likelihood and leave one out RMSE of a Gaussian process on 3..9 "
          "observations against densities conditioned without the held out "
          "data in long double, with random parameter priors; non-trivial: "
          "> 1 group.") {
  auto model = smooth_model();
  randomize(c, &model);
  if (c.coin())
    for (const auto &p : model.get_params())
      if (c.coin())
        model.set_prior(p.first, GaussianPrior(c.sym(1), c.logreal(0.5, 2)));
  const std::size_t n = c.usually(3, 9, 60);
  const auto fs = features<double>(c, n, false);
  const bool noisy = c.coin();
  auto y = any_targets(c, n);
  if (!noisy)
    y = MarginalDistribution(y.mean);
  show(c, "features", fs);
  c.show("targets", y.mean.transpose()).show("noise", y.covariance.diagonal().transpose());
  const RegressionDataset<double> dataset(fs, y);
  std::map<std::string, std::vector<std::size_t>> groups;
  for (std::size_t i = 0; i < n; ++i)
    groups[bucket(fs[i])].push_back(i);
  c.assume(groups.size() > 1);
  const auto all = observe(model, fs, y);
  c.assume(all.cond < 1e6);
  const double prior = log_prior(model);

  // `twice`: with the noise of the truth counted twice (see known_findings.txt)
  LD loo = 0, loo_twice = 0, rmse = 0;
  for (std::size_t i = 0; i < n; ++i) {
    const auto a = held_out(model, dataset, {i}, true);
    const VecL r = a.mean - VecL::Constant(1, y.mean[static_cast<Eigen::Index>(i)]);
    MatL k = a.cov;
    k(0, 0) += y.get_diagonal(static_cast<Eigen::Index>(i));
    loo += nll(r, k);
    k(0, 0) += y.get_diagonal(static_cast<Eigen::Index>(i));
    loo_twice += nll(r, k);
    rmse += fabsl(r[0]) / static_cast<LD>(n);
  }
  LD logo[2] = {0, 0}, logo_twice[2] = {0, 0}; // joint, marginal
  for (const auto &g : groups) {
    const auto a = held_out(model, dataset, g.second, true);
    const auto t = subset(dataset.targets, g.second);
    const VecL r = a.mean - t.mean.cast<LD>();
    MatL k = a.cov;
    k.diagonal() += diag(t);
    logo[0] += nll(r, k);
    logo[1] += nll(r, MatL(k.diagonal().asDiagonal()));
    k.diagonal() += diag(t);
    logo_twice[0] += nll(r, k);
    logo_twice[1] += nll(r, MatL(k.diagonal().asDiagonal()));
  }
  const double tol = 1e-9 * (1 + static_cast<double>(all.cond) * 1e-3) *
                     (1 + static_cast<double>(fabsl(loo) + fabsl(logo[0]) + fabsl(logo[1])));
  bool known = false;
  auto compare = [&](double got, LD want, LD twice, const std::string &what) {
    const double right = static_cast<double>(want) - prior, listed = static_cast<double>(twice) - prior;
    if (noisy && std::fabs(got - right) > tol && std::fabs(got - listed) <= tol) {
      known = true;
      return;
    }
    c.near(got, right, 1e-10, tol, what);
  };
  compare(LeaveOneOutLikelihood<JointDistribution>()(dataset, model), loo, loo_twice, "leave one out");
  compare(LeaveOneOutLikelihood<MarginalDistribution>()(dataset, model), loo, loo_twice, "leave one out, marginal");
  compare(LeaveOneGroupOutLikelihood<double>(bucket)(dataset, model), logo[0], logo_twice[0], "leave one group out");
  compare(LeaveOneGroupOutLikelihood<double, MarginalDistribution>(bucket)(dataset, model), logo[1], logo_twice[1], "leave one group out, marginal");
  c.near(LeaveOneOutRMSE()(dataset, model), static_cast<double>(rmse), 1e-9, tol, "leave one out rmse");
  c.nontrivial(true);
  c.label_if(noisy, "noisy targets");
  if (known)
    throw pbt::Known{"held_out_noise_twice",
                     "leave one (group) out likelihoods of a Gaussian process count the noise of the targets twice"};
}
