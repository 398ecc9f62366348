// pbt:
#include "folds.hpp"
using namespace c04;

namespace {
void close_joint(pbt::Case &c, const JointDistribution &got, const Answer &want, const std::string &what) {
  close(c, got.mean, want.mean, want.mean_tol, what + " mean");
  close(c, got.covariance, want.cov, want.cov_tol, what + " covariance");
}
void close_marginal(pbt::Case &c, const MarginalDistribution &got, const Answer &want, const std::string &what) {
  close(c, got.mean, want.mean, want.mean_tol, what + " mean");
  close(c, Eigen::VectorXd(got.covariance.diagonal()), VecL(want.cov.diagonal()), want.cov_tol, what + " variance");
}

// The distribution of some of the values given all of the others.
Answer given_others(const MatL &k, const VecL &mu, const VecL &y, const GroupIndices &held, LD cond) {
  const auto rest = others(held, static_cast<std::size_t>(k.rows()));
  const Eigen::Index m = static_cast<Eigen::Index>(held.size()), r = static_cast<Eigen::Index>(rest.size());
  MatL kr(r, r), cross(r, m), prior(m, m);
  VecL mr(r), yr(r), mh(m);
  for (Eigen::Index i = 0; i < r; ++i) {
    const auto ii = static_cast<Eigen::Index>(rest[static_cast<std::size_t>(i)]);
    mr[i] = mu[ii];
    yr[i] = y[ii];
    for (Eigen::Index j = 0; j < r; ++j)
      kr(i, j) = k(ii, static_cast<Eigen::Index>(rest[static_cast<std::size_t>(j)]));
    for (Eigen::Index j = 0; j < m; ++j)
      cross(i, j) = k(ii, static_cast<Eigen::Index>(held[static_cast<std::size_t>(j)]));
  }
  for (Eigen::Index i = 0; i < m; ++i) {
    const auto ii = static_cast<Eigen::Index>(held[static_cast<std::size_t>(i)]);
    mh[i] = mu[ii];
    for (Eigen::Index j = 0; j < m; ++j)
      prior(i, j) = k(ii, static_cast<Eigen::Index>(held[static_cast<std::size_t>(j)]));
  }
  Answer a;
  if (r == 0) {
    a.mean = mh;
    a.cov = prior;
  } else {
    const Conditional given(kr, mr, yr);
    a = given.predict(cross, mh, prior);
  }
  // The shortcuts work with the inverse of everything: their errors scale
  // with the conditioning of all of it.
  const LD scale = k.cwiseAbs().maxCoeff();
  const double e = 2e-15 * static_cast<double>((k.rows() + 2) * cond);
  a.mean_tol += e * static_cast<double>((y - mu).norm() + a.mean.norm() + y.norm());
  a.cov_tol += e * static_cast<double>(scale);
  return a;
}

LD condition(const MatL &k) {
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eigs(k.cast<double>(), Eigen::EigenvaluesOnly);
  const double lo = eigs.eigenvalues().minCoeff();
  return lo > 0 ? eigs.eigenvalues().maxCoeff() / lo : 1e300;
}

template <typename Key> GroupIndexer<Key> as_indexer(const std::map<Key, GroupIndices> &groups) {
  GroupIndexer<Key> out;
  for (const auto &g : groups)
    out[g.first] = g.second;
  return out;
}

template <typename Model, typename F, typename Key>
void gaussian_case(pbt::Case &c, Model model) {
  randomize(c, &model);
  const std::size_t n = c.usually(2, 9, 60);
  const auto fs = features<F>(c, n);
  const auto y = any_targets(c, n);
  show(c, "features", fs);
  c.show("targets", y.mean.transpose()).show("noise", y.covariance.diagonal().transpose());
  const RegressionDataset<F> dataset(fs, y);
  const auto key_of = keys<Key>(c, n, 5);
  c.showv("groups", key_of);
  auto groups = indices_of(key_of);
  for (auto &g : groups)
    c.shuffle(g.second);
  const bool partial = groups.size() > 1 && c.chance(1, 4); // some groups only
  if (partial)
    groups.erase(groups.begin());
  c.label_if(partial, "not all data are held out");
  c.label_if(groups.size() == 1 && !partial, "one group");
  const auto indexer = as_indexer(groups);
  if (c.chance(1, 4))
    model.set_thread_pool(make_shared_thread_pool(static_cast<std::size_t>(c.i(1, 4))));

  // all measurements, their noise included
  const auto meas = as_measurements(fs);
  MatL k = pairwise(model.get_covariance(), meas, meas);
  k.diagonal() += diag(y);
  const LD cond = condition(k);
  c.assume(cond < 1e8);
  const VecL mu = means(model.get_mean(), meas), yl = y.mean.cast<LD>();
  c.nontrivial(groups.size() > 1);

  const auto cv = model.cross_validate();
  const auto prediction = cv.predict(dataset, indexer);
  const auto ms = prediction.means();
  const auto marginals = prediction.marginals();
  const auto joints = prediction.joints();
  c.eq(ms.size(), groups.size(), "number of means");
  c.eq(marginals.size(), groups.size(), "number of marginals");
  c.eq(joints.size(), groups.size(), "number of joints");
  VecL mean(static_cast<Eigen::Index>(n)), var(static_cast<Eigen::Index>(n));
  double mean_tol = 0, var_tol = 0;
  for (const auto &g : groups) {
    const Answer a = given_others(k, mu, yl, g.second, cond);
    const std::string what = "group " + text(g.second);
    close(c, ms.at(g.first), a.mean, a.mean_tol, what + "means");
    close_marginal(c, marginals.at(g.first), a, what + "marginal");
    close_joint(c, joints.at(g.first), a, what + "joint");
    for (std::size_t i = 0; i < g.second.size(); ++i) {
      mean[static_cast<Eigen::Index>(g.second[i])] = a.mean[static_cast<Eigen::Index>(i)];
      var[static_cast<Eigen::Index>(g.second[i])] = a.cov(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(i));
    }
    mean_tol = std::max(mean_tol, a.mean_tol);
    var_tol = std::max(var_tol, a.cov_tol);
  }
  if (!partial) {
    close(c, prediction.mean(), mean, mean_tol, "mean in the order of the dataset");
    const auto marginal = prediction.marginal();
    close(c, marginal.mean, mean, mean_tol, "marginal mean in the order of the dataset");
    close(c, Eigen::VectorXd(marginal.covariance.diagonal()), var, var_tol, "marginal variance in the order of the dataset");
  }

  // refitting for each group: predictions of the features themselves
  if (groups.size() > 1 || partial) {
    const auto lazily = prediction.predictions();
    const auto from_folds = cv.predictions(folds_from_group_indexer(dataset, indexer));
    for (const auto &g : groups) {
      const auto train = take(fs, others(g.second, n)), test = take(fs, g.second);
      const auto given = observe(model, train, take(y, others(g.second, n)));
      const Answer a = predict(model, given, train, test);
      check_prediction(c, lazily.at(g.first), a, "refit without group " + text(g.second));
      check_prediction(c, from_folds.at(g.first), a, "refit on fold " + text(g.second));
    }
  }

  // the same from the prior of the measurements
  const JointDistribution prior(mu.template cast<double>(), (k - MatL(diag(y).asDiagonal())).template cast<double>());
  const auto logo_means = leave_one_group_out_conditional_means(prior, y, indexer);
  const auto logo_marginals = leave_one_group_out_conditional_marginals(prior, y, indexer);
  const auto logo_joints = leave_one_group_out_conditional_joints(prior, y, indexer);
  for (const auto &g : groups) {
    const Answer a = given_others(k, mu, yl, g.second, cond);
    close(c, logo_means.at(g.first), a.mean, a.mean_tol, "conditional means");
    close_marginal(c, logo_marginals.at(g.first), a, "conditional marginal");
    close_joint(c, logo_joints.at(g.first), a, "conditional joint");
  }
}
} // namespace

PBT_CHECK(held_out_groups, 36000, 300000,
          "means, marginals and joints of each held out group of 2..9 noisy "
          "data (repeated features; contiguous, interleaved, partial and "
          "singleton groups; any order of members; any thread pool) of three "
          "Gaussian processes with mean functions, measurement-only noise and "
          "features of double and a second type, against conditioning on the "
          "other groups in long double, and against refitting; non-trivial: "
          "> 1 group.") {
  switch (c.i(0, 3)) {
  case 0:
    return gaussian_case<decltype(smooth_model()), double, int>(c, smooth_model());
  case 1:
    return gaussian_case<decltype(rough_model()), double, std::string>(c, rough_model());
  case 2:
    return gaussian_case<decltype(trend_model()), double, int>(c, trend_model());
  default:
    return gaussian_case<decltype(mixed_model()), Named, std::string>(c, mixed_model());
  }
}

PBT_CHECK(leave_one_out, 40000, 600000,
          "leave one out conditionals of a joint prior (1..10 values, "
          "condition < 1e8) and a noisy truth, and of a covariance alone, "
          "against conditioning on all of the others; leave one out cross "
          "validation of the same as a model; non-trivial: > 1 value.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.usually(1, 10, 60));
  const Eigen::MatrixXd cov = gen::spd(c, n);
  const JointDistribution prior(gen::vec(c, n), cov);
  const MarginalDistribution truth(gen::vec(c, n), gen::variances(c, n));
  c.show("covariance", cov).show("noise", truth.covariance.diagonal().transpose());
  MatL k = cov.cast<LD>();
  k.diagonal() += diag(truth);
  const LD cond = condition(k);
  c.assume(cond < 1e8);
  c.nontrivial(n > 1);
  const MarginalDistribution got = leave_one_out_conditional(prior, truth);
  const Eigen::VectorXd var = leave_one_out_conditional_variance(k.cast<double>());
  const Eigen::VectorXd var2 = leave_one_out_conditional_variance(Eigen::SerializableLDLT(k.cast<double>()));
  for (Eigen::Index i = 0; i < n; ++i) {
    const Answer a = given_others(k, prior.mean.cast<LD>(), truth.mean.cast<LD>(), {static_cast<std::size_t>(i)}, cond);
    c.near(got.mean[i], static_cast<double>(a.mean[0]), 0, a.mean_tol, "leave one out mean");
    c.near(got.covariance.diagonal()[i], static_cast<double>(a.cov(0, 0)), 0, a.cov_tol, "leave one out variance");
    c.near(var[i], static_cast<double>(a.cov(0, 0)), 0, a.cov_tol, "leave one out variance of a matrix");
    c.near(var2[i], static_cast<double>(a.cov(0, 0)), 0, a.cov_tol, "leave one out variance of a factorisation");
  }
}
