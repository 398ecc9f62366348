// pbt: 
#include "exact.hpp"
using namespace c01;
using V = variant<double, Named>;

PBT_CHECK(vector_features_conditional, 20000, 1000000,
          "as the scalar checks, for three dimensional features.") {
  exact<Eigen::VectorXd>(c, vector_model());
}
PBT_CHECK(custom_features_conditional, 20000, 1000000,
          "as the scalar checks, for a user defined feature type.") {
  exact<Named>(c, mixed_model());
}
PBT_CHECK(variant_features_conditional, 20000, 1000000,
          "as the scalar checks, for variants of scalars and a user defined "
          "type with measurement-only terms.") {
  exact<V>(c, mixed_model());
}

PBT_CHECK(several_datasets, 20000, 1000000,
          "one dataset of scalars and one of a user defined type fit at once, "
          "predicting either type and variants of both, against conditioning "
          "on all of the data; non-trivial: neither dataset is tiny.") {
  auto model = mixed_model();
  randomize(c, &model);
  const std::size_t n = c.usually(1, 8, 50), k = c.usually(1, 8, 50);
  const RegressionDataset<double> xs(features<double>(c, n), any_targets(c, n));
  const RegressionDataset<Named> ys(features<Named>(c, k), any_targets(c, k));
  show(c, "xs", xs.features);
  show(c, "ys", ys.features);
  std::vector<V> all;
  for (const auto &x : xs.features)
    all.emplace_back(x);
  for (const auto &y : ys.features)
    all.emplace_back(y);
  Eigen::VectorXd mean(static_cast<Eigen::Index>(n + k)), var(static_cast<Eigen::Index>(n + k));
  mean << xs.targets.mean, ys.targets.mean;
  var << xs.targets.covariance.diagonal(), ys.targets.covariance.diagonal();
  const MarginalDistribution y(mean, var);
  const auto given = observe(model, all, y);
  c.assume(given.cond < 1e9);
  const auto fit = model.fit(xs, ys);
  const auto tx = features<double>(c, c.size(1, 4));
  const auto ty = features<Named>(c, c.size(1, 4));
  const auto tv = features<V>(c, c.size(1, 4));
  check_prediction(c, fit.predict(tx), predict(model, given, all, tx), "scalars");
  check_prediction(c, fit.predict(ty), predict(model, given, all, ty), "custom");
  check_prediction(c, fit.predict(tv), predict(model, given, all, tv), "variants");
  check_prediction(c, fit.predict(as_measurements(tx)),
                   predict(model, given, all, as_measurements(tx)), "measured scalars");
  check_prediction(c, fit.predict(as_measurements(tv)),
                   predict(model, given, all, as_measurements(tv)), "measured variants");
  // the order of the datasets does not matter, nor does the type of the container
  const auto swapped = model.fit(ys, xs);
  check_prediction(c, swapped.predict(tx), predict(model, given, all, tx), "swapped");
  const auto direct = model.fit(all, y);
  check_prediction(c, direct.predict(ty), predict(model, given, all, ty), "as variants");
  c.nontrivial(n > 1 && k > 1);
}

PBT_CHECK(combinations_conditional, 10000, 500000,
          "training on and predicting sums and differences of features; "
          "non-trivial: > 1 observation.") {
  auto model = trend_model();
  randomize(c, &model);
  using L = LinearCombination<double>;
  auto make = [&](std::size_t n) {
    std::vector<L> out;
    for (std::size_t i = 0; i < n; ++i) {
      const auto f = features<double>(c, 1 + c.size(0, 2));
      Eigen::VectorXd w(static_cast<Eigen::Index>(f.size()));
      for (Eigen::Index j = 0; j < w.size(); ++j)
        w[j] = c.pick<double>({1., -1., 0.5, 2.});
      out.emplace_back(f, w);
    }
    return out;
  };
  const std::size_t n = c.usually(1, 8, 50);
  const auto train = make(n), test = make(c.size(1, 4));
  const auto y = any_targets(c, n);
  const auto given = observe(model, train, y);
  c.assume(given.cond < 1e9);
  const auto fit = model.fit(train, y);
  const auto want = predict(model, given, train, test);
  check_prediction(c, fit.predict(test), want, "prediction");
  const auto scalars = features<double>(c, c.size(1, 4));
  check_prediction(c, fit.predict(scalars), predict(model, given, train, scalars), "scalars");
  c.nontrivial(n > 1);
}
