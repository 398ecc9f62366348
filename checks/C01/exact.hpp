#pragma once
#include "gpref.hpp"
using namespace gpref;

namespace c01 {
template <typename F, typename Model> void exact(pbt::Case &c, Model model) {
  randomize(c, &model);
  const std::size_t n = c.usually(1, 14, 90), m = c.usually(1, 6, 60);
  const auto train = features<F>(c, n);
  auto test = features<F>(c, m);
  // some of the test features are training features
  for (auto &t : test)
    if (c.chance(1, 3))
      t = c.pick(train);
  const auto y = any_targets(c, n);
  show(c, "train", train);
  show(c, "test", test);
  c.show("targets", y.mean.transpose()).show("noise", y.covariance.diagonal().transpose());

  const auto given = observe(model, train, y);
  c.assume(given.cond < 1e9);
  const RegressionDataset<F> dataset(train, y);
  const auto fit = c.coin() ? model.fit(dataset) : model.fit(train, y);

  const auto want = predict(model, given, train, test);
  const auto prediction = fit.predict(test);
  check_prediction(c, prediction, want, "prediction");
  const auto meas = as_measurements(test);
  const auto want_meas = predict(model, given, train, meas);
  check_prediction(c, fit.predict(meas), want_meas, "measurement prediction");
  check_prediction(c, model.fit(dataset).predict(test), want, "temporary fit");
  // predictions which outlive their fit
  const auto kept = model.fit(dataset).predict(test);
  check_prediction(c, kept, want, "kept prediction");
  if constexpr (!is_variant<F>::value) { // (rejected at compile time)
    check_prediction(c, fit.predict_with_measurement_noise(test), want_meas,
                     "prediction with measurement noise");
    const auto kept_meas = model.fit(dataset).predict_with_measurement_noise(test);
    check_prediction(c, kept_meas, want_meas, "kept measurement prediction");
  }

  // the prior is about measurements
  const auto prior = model.prior(test);
  const MatL k = pairwise(model.get_covariance(), meas, meas);
  const double scale = 1 + static_cast<double>(k.cwiseAbs().sum());
  close(c, prior.covariance, k, 1e-12 * scale, "prior covariance");
  const VecL mu = means(model.get_mean(), meas);
  close(c, prior.mean, mu, 1e-12 * (1 + static_cast<double>(mu.norm())), "prior mean");

  // neither predicting nor fitting again changed anything
  check_prediction(c, prediction, want, "prediction, asked again");

  double moved = 0;
  for (Eigen::Index i = 0; i < want.cov.rows(); ++i)
    moved = std::max(moved, static_cast<double>(k(i, i) - want.cov(i, i)));
  c.nontrivial(n > 1 && moved > 1e-3);
  c.label_if(given.cond > 1e4, "condition number > 1e4");
}
} // namespace c01
