// The cases shared by both QR backends.
#include "sparse.hpp"
using namespace c07;

namespace {

template <typename Model, typename Grouper>
void fit_case(pbt::Case &c, Model model, const Grouper &grouper, const std::vector<double> *fixed, std::size_t uniform) {
  randomize_sparse(c, &model);
  const std::size_t n = c.usually(1, 10, 80);
  const auto x = features<double>(c, n);
  const auto y = targets(c, n);
  show(c, "features", x);
  c.show("targets", y.mean.transpose()).show("noise", y.covariance.diagonal().transpose());
  const RegressionDataset<double> dataset(x, y);
  if (c.chance(1, 4))
    model.set_thread_pool(make_shared_thread_pool(static_cast<std::size_t>(c.i(1, 4))));
  std::vector<double> u;
  if (fixed != nullptr) {
    u = *fixed;
  } else {
    const double lo = *std::min_element(x.begin(), x.end()), hi = *std::max_element(x.begin(), x.end());
    for (std::size_t i = 0; i < uniform; ++i)
      u.push_back(lo + (hi - lo) * static_cast<double>(i) / static_cast<double>(uniform - 1));
  }
  c.assume(State<Model>(model, u).e < 1e-6);
  const auto fit = model.fit(dataset);
  const auto points = fit.get_fit().train_features;
  c.eq(points.size(), u.size(), "number of inducing points");
  for (std::size_t i = 0; i < u.size(); ++i)
    c.near(points[i], u[i], 1e-12, 1e-12, "inducing point");
  u = points; // kernels need not be continuous
  State<Model> state(model, u);
  const auto groups = groups_of(grouper, x);
  state.observe(x, y, groups);
  c.assume(state.e < 1e-6);
  c.nontrivial(groups.size() > 1 && u.size() > 1);
  auto at = features<double>(c, c.size(1, 6));
  at.push_back(c.pick(x));
  at.push_back(c.pick(u));
  check_sparse(c, fit.predict(at), state.predict(at), "prediction");
  check_sparse(c, fit.predict(u), state.predict(u), "prediction of the inducing points");
  check_sparse(c, fit.predict_with_measurement_noise(at), state.predict(as_measurements(at)), "prediction of measurements");
  c.near(model.log_likelihood(dataset), static_cast<double>(state.log_density()) + log_prior(model), 1e-10, state.log_density_tol(), "log likelihood");
}

template <typename Cov, typename Mean, typename Grouper, typename QR>
void choose_points(pbt::Case &c, const Cov &cov, const Mean &mean, const Grouper &grouper, QR qr) {
  if (c.coin()) {
    const auto u = spaced(c, c.size(1, 8));
    c.showv("inducing points", u);
    FixedPoints strategy{u};
    fit_case(c, sparse_gp_from_covariance_and_mean(cov, mean, grouper, strategy, "sparse", qr), grouper, &u, 0);
  } else {
    const std::size_t k = c.size(2, 7);
    c.show("inducing points", k);
    fit_case(c, sparse_gp_from_covariance_and_mean(cov, mean, grouper, UniformlySpacedInducingPoints(k), "sparse", qr), grouper, nullptr, k);
  }
}

template <typename Cov, typename Mean, typename QR>
void choose_grouper(pbt::Case &c, const Cov &cov, const Mean &mean, QR qr) {
  switch (c.i(0, 2)) {
  case 0:
    return choose_points(c, cov, mean, Bucket{c.real(0.5, 5)}, qr);
  case 1:
    return choose_points(c, cov, mean, LeaveOneOutGrouper(), qr);
  default:
    return choose_points(c, cov, mean, Together(), qr);
  }
}
} // namespace
