// pbt:
#include "updates.hpp"
using namespace c02;
using V = variant<double, Named>;

PBT_CHECK(variant_updates, 40000, 2000000,
          "as smooth_updates for variants of two feature types and "
          "measurement-only terms in covariance and mean.") {
  updates<V>(c, mixed_model());
}
PBT_CHECK(trend_updates, 40000, 2000000,
          "as smooth_updates with correlated measurement-only noise and a "
          "measurement-only mean.") {
  updates<double>(c, trend_model());
}
PBT_CHECK(update_with_another_type, 30000, 1000000,
          "a fit on scalars updated with a user defined type (and the other "
          "way around) against conditioning on both; non-trivial: > 2 data.") {
  auto model = mixed_model();
  randomize(c, &model);
  const std::size_t n = c.size(1, 6), k = c.size(1, 6);
  const RegressionDataset<double> xs(features<double>(c, n), any_targets(c, n));
  const RegressionDataset<Named> ys(features<Named>(c, k), any_targets(c, k));
  show(c, "xs", xs.features);
  show(c, "ys", ys.features);
  std::vector<V> all(xs.features.begin(), xs.features.end());
  all.insert(all.end(), ys.features.begin(), ys.features.end());
  const auto y = concatenate_marginals(xs.targets, ys.targets);
  const auto given = observe(model, all, y);
  c.assume(given.cond < 1e7);
  const auto tv = features<V>(c, c.size(1, 4));
  const auto tx = features<double>(c, c.size(1, 4));
  const auto want = predict(model, given, all, tv);
  const auto want_x = predict(model, given, all, tx);
  check_prediction(c, model.fit(xs).update(ys).predict(tv), want, "custom after scalars", 50);
  check_prediction(c, model.fit(ys).update(xs).predict(tv), want, "scalars after custom", 50);
  check_prediction(c, model.fit(ys).update(xs).predict(tx), want_x, "scalars", 50);
  check_prediction(c, model.fit(xs).update(ys).predict(as_measurements(tx)),
                   predict(model, given, all, as_measurements(tx)), "measurements", 50);
  c.nontrivial(n + k > 2);
}
