#include "sparse.hpp"
using namespace c07;

namespace {
template <typename Model, typename Grouper>
void history_case(pbt::Case &c, Model model, const Grouper &grouper, std::vector<double> u) {
  randomize_sparse(c, &model);
  State<Model> state(model, u);
  const std::size_t steps = c.size(1, 4);
  bool updated = false, rebased = false, shifted = false;
  std::vector<double> at = features<double>(c, c.size(1, 5));

  const auto batch = [&]() {
    const std::size_t n = c.usually(1, 6, 50);
    const auto x = features<double>(c, n);
    const auto y = targets(c, n);
    show(c, "features", x);
    c.show("targets", y.mean.transpose()).show("noise", y.covariance.diagonal().transpose());
    return RegressionDataset<double>(x, y);
  };
  const auto first = batch();
  c.assume(state.e < 1e-7);
  state.observe(first.features, first.targets, groups_of(grouper, first.features));
  c.assume(state.e < 1e-7);
  auto fit = model.fit(first);
  for (std::size_t s = 0; s < steps; ++s) {
    if (c.chance(1, 3)) {
      const auto z = spaced(c, c.size(1, 6));
      c.showv("rebase", z);
      const Answer now = state.predict(z);
      const auto old = state;
      state.rebase(z, now.mean, now.cov);
      c.assume(state.e < 1e-7);
      // what rounding did to the prediction, relative to its own size
      const double lo = smallest(now.cov) + 1e-8;
      state.e += 20 * (now.cov_tol + now.mean_tol) / lo;
      c.assume(state.e < 1e-7);
      const auto rebase = rebase_inducing_points(fit, z);
      const auto explicitly = model.fit_from_prediction(z, fit.predict(z).joint());
      fit = rebase;
      check_sparse(c, explicitly.predict(at), state.predict(at), "refit from a prediction");
      // what was known at the new points still is (but for a documented nugget)
      const Answer same = old.predict(z);
      Answer widened = same;
      widened.cov.diagonal().array() += 1e-8L;
      widened.mean_tol += state.predict(z).mean_tol;
      widened.cov_tol += state.predict(z).cov_tol;
      check_sparse(c, rebase.predict(z), widened, "rebased prediction of the new points");
      rebased = true;
    } else if (c.chance(1, 4)) {
      const VecL by = gen::vec(c, static_cast<Eigen::Index>(state.u.size()), 3).cast<LD>();
      c.show("shift", by.transpose());
      const double lo = smallest(state.kuu);
      state.e += lo > 0 ? 1e-15 * static_cast<double>(state.u.size() + 1) * largest(state.kuu) / lo : 1e300;
      c.assume(state.e < 1e-7);
      // the function becomes what it was plus the prior's expectation of
      // that change, given by how much it is at the inducing points
      state.v += state.kuu.llt().solve(by);
      state.b = state.m * state.v;
      const auto old = fit;
      const auto before = fit.predict(at).joint();
      auto next = fit;
      next.get_fit().shift_mean(by.cast<double>());
      c.check(old.predict(at).joint() == before && next.predict(at).joint().covariance == before.covariance,
              "shifting the mean changed something else");
      fit = next;
      shifted = true;
    } else {
      const auto more = batch();
      const auto before = fit.predict(at).joint();
      const auto old = fit;
      state.observe(more.features, more.targets, groups_of(grouper, more.features));
      c.assume(state.e < 1e-7);
      const auto next = fit.update(more);
      c.check(old.predict(at).joint() == before, "updating changed the original fit");
      fit = next;
      updated = true;
    }
    c.check(fit.get_fit().train_features == state.u, "inducing points after a step");
    check_sparse(c, fit.predict(at), state.predict(at), "step " + std::to_string(s));
    check_sparse(c, fit.predict_with_measurement_noise(at), state.predict(as_measurements(at)), "measurements, step " + std::to_string(s));
  }
  c.nontrivial(steps > 1 && u.size() > 1);
  c.label_if(updated && rebased, "updated and rebased");
  c.label_if(shifted, "shifted");
}

template <typename Cov, typename Mean, typename QR>
void choose(pbt::Case &c, const Cov &cov, const Mean &mean, QR qr) {
  const auto u = spaced(c, c.size(1, 7));
  c.showv("inducing points", u);
  FixedPoints strategy{u};
  if (c.coin()) {
    Bucket g{c.real(0.5, 5)};
    history_case(c, sparse_gp_from_covariance_and_mean(cov, mean, g, strategy, "sparse", qr), g, u);
  } else {
    LeaveOneOutGrouper g;
    history_case(c, sparse_gp_from_covariance_and_mean(cov, mean, g, strategy, "sparse", qr), g, u);
  }
}
} // namespace
