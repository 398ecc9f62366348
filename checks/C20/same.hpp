// Models and fits which are the same.
#ifndef VERIF_SAME_HPP
#define VERIF_SAME_HPP
#include "gpref.hpp"
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/SparseGP>
#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>
#include <albatross/serialize/Ransac>
using namespace gpref;
#include "roundtrip.hpp"
using roundtrip::same;

namespace {
RegressionDataset<double> data(pbt::Case &c, std::size_t least, bool equal = false) {
  const std::size_t n = c.size(least, 8);
  const auto x = features<double>(c, n);
  RegressionDataset<double> d(x, targets(c, n, 1e-2));
  if (equal)
    d.targets.covariance.diagonal().setConstant(0.25);
  d.metadata = roundtrip::metadata(c);
  return d;
}

bool same_params(const ParameterStore &a, const ParameterStore &b) {
  if (map_keys(a) != map_keys(b))
    return false;
  for (const auto &p : a)
    if (!same(p.second.value, b.at(p.first).value) || !(p.second.prior == b.at(p.first).prior))
      return false;
  return true;
}

template <typename M> struct SameModel {
  bool operator()(const M &a, const M &b) const {
    return a.get_name() == b.get_name() && same_params(a.get_params(), b.get_params()) && a.insights == b.insights;
  }
};

template <typename F, bool UPDATES = false> struct SameFit {
  std::vector<double> at;
  const RegressionDataset<double> *more ;
  template <typename X, typename Fe, typename Fi> static bool predict(const Prediction<X, Fe, Fi> &a, const Prediction<X, Fe, Fi> &b) {
    if constexpr (std::is_same<std::decay_t<X>, LinearRegression>::value) // only means
      return same(a.mean(), b.mean());
    else
      return same(a.joint(), b.joint()) && same(a.marginal(), b.marginal()) && same(a.mean(), b.mean());
  }
  bool operator()(const F &a, const F &b) const {
    using M = std::decay_t<decltype(a.get_model())>;
    return SameModel<M>()(a.get_model(), b.get_model()) && a.get_fit() == b.get_fit() && predict(a.predict(at), b.predict(at)) && updated(a, b);
  }
  bool updated(const F &a, const F &b) const {
    if constexpr (UPDATES)
      return predict(albatross::update(a, *more).predict(at), albatross::update(b, *more).predict(at));
    else
      return true;
  }
};

template <typename M> void decorate(pbt::Case &c, M *m) {
  randomize(c, m);
  m->insights = roundtrip::metadata(c);
  for (const auto &p : m->get_params())
    if (c.chance(1, 4))
      m->set_prior(p.first, c.coin() ? PriorContainer(LogScaleUniformPrior(1e-3, 1e3)) : PriorContainer(GaussianPrior(0.5, 2.)));
}
template <typename M> auto named(pbt::Case &c, M m) {
  if (c.coin())
    m.set_name(roundtrip::word(c) + "x");
  return m;
}

template <bool UPDATES, typename M> void models(pbt::Case &c, const M &model) {
  const auto make = [&]() {
    M m = model;
    decorate(c, &m);
    return m;
  };
  const M a = make(), b = make(), used = make();
  roundtrip::check(c, a, b, used, SameModel<M>(), c.chance(1, 4));
  const auto at = features<double>(c, 3);
  const auto further = data(c, 1);
  const bool equal = !UPDATES;
  const auto fa = a.fit(data(c, 3, equal)), fb = b.fit(data(c, 3, equal)), fu = used.fit(data(c, 3, equal));
  using F = std::decay_t<decltype(fa)>;
  roundtrip::check(c, fa, fb, fu, SameFit<F, UPDATES>{at, &further}, c.chance(1, 4));
}

} // namespace

#endif
