// pbt: libs=cholmod,spqr,suitesparseconfig
#include "history.hpp"

PBT_CHECK(dense_histories, 40000, 600000,
          "histories of 1..4 steps from a sparse fit (dense QR): updates with "
          "1..6 more data and rebases onto 1..6 new inducing points, shifts of the mean, mean "
          "functions, random parameters and nuggets; every prediction after "
          "every step against the same state kept densely in long double, "
          "and the fit before each update is unchanged; non-trivial: > 1 step "
          "and > 1 inducing point.") {
  if (c.coin())
    return choose(c, noisy_smooth(), Drift() + Offset(), DenseQRImplementation());
  return choose(c, rough(), ZeroMean(), DenseQRImplementation());
}

PBT_CHECK(one_fit_or_many, 6000, 100000,
          "a dataset of 3..9 data in 2..4 groups, fitted at once or fitted on "
          "one group and updated with the others in any order: the same "
          "predictions; non-trivial: > 2 groups.") {
  const auto u = spaced(c, c.size(1, 6));
  FixedPoints strategy{u};
  Bucket grouper{4};
  auto model = sparse_gp_from_covariance_and_mean(noisy_smooth(), Drift(), grouper, strategy, "sparse");
  randomize_sparse(c, &model);
  const std::size_t n = c.size(3, 9);
  const auto x = features<double>(c, n);
  const auto y = targets(c, n);
  const RegressionDataset<double> all(x, y);
  auto groups = groups_of(grouper, x);
  c.assume(groups.size() > 1);
  State<decltype(model)> state(model, u);
  c.assume(state.e < 1e-7);
  state.observe(x, y, groups);
  c.assume(state.e < 1e-7);
  c.nontrivial(groups.size() > 2);
  c.shuffle(groups);
  auto fit = model.fit(subset(all, groups[0]));
  for (std::size_t i = 1; i < groups.size(); ++i)
    fit = fit.update(subset(all, groups[i]));
  const auto at = features<double>(c, 4);
  const Answer want = state.predict(at);
  const auto one = model.fit(all).predict(at).joint(), many = fit.predict(at).joint();
  close(c, many.mean, one.mean.cast<LD>(), 2 * want.mean_tol, "updated mean");
  close(c, many.covariance, one.covariance.cast<LD>(), 2 * want.cov_tol, "updated covariance");
}

PBT_CHECK(exact_limits, 6000, 100000,
          "with inducing points at 1..7 distinct training points and nuggets "
          "of 1e-8 a sparse Gaussian process predicts what the exact one does; "
          "with all data in one group its likelihood is that of the exact one "
          "whatever the inducing points; non-trivial: > 2 data.") {
  const std::size_t n = c.size(1, 7);
  const auto x = spaced(c, n, -6, 0.7);
  const auto y = targets(c, n, 1e-2);
  c.showv("x", x).show("y", y.mean.transpose());
  FixedPoints strategy{x};
  auto sparse = sparse_gp_from_covariance_and_mean(noisy_smooth(), Drift() + Offset(), LeaveOneOutGrouper(), strategy, "sparse");
  randomize(c, &sparse);
  sparse.set_param_value("measurement_nugget", 1e-8);
  sparse.set_param_value("inducing_nugget", 1e-8);
  const auto k = pairwise(sparse.get_covariance(), x, x);
  c.assume(smallest(k) > 1e-3 * largest(k));
  c.nontrivial(n > 2);
  const RegressionDataset<double> dataset(x, y);
  auto at = features<double>(c, 3);
  at.push_back(c.pick(x));
  const auto given = observe(sparse, x, y);
  Answer want = predict(sparse, given, x, at);
  const double slip = 1e-8 * (1 / smallest(k) + 1 / static_cast<double>(diag(y).minCoeff())) * 50;
  want.mean_tol += slip * (static_cast<double>(given.info.norm()) * largest(k) + 1);
  want.cov_tol += slip * largest(k);
  check_sparse(c, sparse.fit(dataset).predict(at), want, "exact");

  const auto u = spaced(c, c.size(1, 5));
  FixedPoints others{u};
  auto together = sparse_gp_from_covariance_and_mean(noisy_smooth(), Drift() + Offset(), Together(), others, "together");
  for (const auto &p : sparse.get_params())
    together.set_param(p.first, p.second);
  const auto ku = pairwise(sparse.get_covariance(), u, u);
  c.assume(smallest(ku) > 1e-3 * largest(ku));
  const double loose = 1e-6 * (1 + static_cast<double>(n)) * (1 + given.info.squaredNorm());
  c.near(together.log_likelihood(dataset) - log_prior(together), static_cast<double>(given.log_density()), 1e-7, loose, "likelihood with one group");

  // the points in use can be replaced
  auto moved = sparse;
  moved.set_inducing_point_strategy(FixedPoints{u});
  c.check(moved.get_inducing_point_strategy().points == u, "strategy");
  c.check(moved.fit(dataset).get_fit().train_features == u, "inducing points of a new strategy");
  c.check(sparse.fit(dataset).get_fit().train_features == x, "inducing points of the original");
}
