// pbt:
#include "same.hpp"

namespace {
template <typename Strategy> auto ransac_model(pbt::Case &c, const Strategy &strategy) {
  const RansacConfig config(c.pick<double>({5., 2., -10.}), 1, 2, 4, 2);
  return smooth_model().ransac(strategy, config);
}

template <typename M> void ransacs(pbt::Case &c, M model) {
  decorate(c, &model);
  const auto at = features<double>(c, 3);
  const auto wa = model.fit(data(c, 3)), wb = model.fit(data(c, 3)), wu = model.fit(data(c, 3));
  using W = std::decay_t<decltype(wa)>;
  roundtrip::check(c, wa, wb, wu,
                   [&](const W &a, const W &b) {
                     return a.get_fit() == b.get_fit() && same_params(a.get_model().get_params(), b.get_model().get_params()) && // its name and configuration are not kept
                            a.get_model().insights == b.get_model().insights &&
                            (!a.get_fit().has_fit_model() || SameFit<int>::predict(a.predict(at), b.predict(at)));
                   },
                   c.chance(1, 4));
  const auto fa = wa.get_fit(), fb = wb.get_fit(), fu = wu.get_fit();
  using F = std::decay_t<decltype(fa)>;
  c.label_if(fa.has_fit_model(), "with a consensus");
  roundtrip::check(c, fa, fb, fu,
                   [&](const F &a, const F &b) {
                     if (!(a == b) || a.has_fit_model() != b.has_fit_model())
                       return false;
                     return !a.has_fit_model() || SameFit<int>::predict(a.get_fit_model_or_assert().predict(at), b.get_fit_model_or_assert().predict(at));
                   },
                   c.chance(1, 4));
}
} // namespace

PBT_CHECK(ransac_fits, 500, 8000,
          "fits of Gaussian processes by RANSAC, with and without a "
          "consensus: as for models; non-trivial: always.") {
  c.nontrivial(true);
  return ransacs(c, ransac_model(c, DefaultGPRansacStrategy()));
}
