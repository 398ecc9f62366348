// pbt:
#include "common.hpp"
using namespace c09;

namespace {
template <typename S, typename C> void check_one(pbt::Case &c, const Both<C> &both) {
  const auto x = Gen<S>::make(c);
  const Sum2 ref = eval_mean(*both.e, x.second);
  constexpr bool ok = has_valid_caller<C, S>::value;
  if (!has_variant<S>::value)
    c.eq(ok, ref.all, "is defined for " + text(x.second));
  else
    c.check(ok || !ref.any, "is not defined for " + text(x.second));
  if constexpr (ok) {
    c.note().str("");
    c.note() << " feature " << text(x.second);
    c.sync();
    c.near(both.f(x.first), ref.value, tolerance(ref), "mean of " + text(x.second));
    std::vector<S> xs = {x.first};
    std::vector<Feature> fs = {x.second};
    const std::size_t n = c.size(0, 3);
    for (std::size_t i = 0; i < n; ++i) {
      auto p = Gen<S>::make(c);
      xs.push_back(p.first);
      fs.push_back(p.second);
    }
    const Eigen::VectorXd m = both.f(xs);
    c.eq(static_cast<std::size_t>(m.size()), xs.size(), "size of the mean vector");
    Eigen::VectorXd added = Eigen::VectorXd::Constant(m.size(), 3.), removed = added;
    both.f.add_to(xs, &added);
    both.f.remove_from(xs, &removed);
    for (std::size_t i = 0; i < xs.size(); ++i) {
      const Sum2 r = eval_mean(*both.e, fs[i]);
      const auto ii = static_cast<Eigen::Index>(i);
      c.near(m[ii], r.value, tolerance(r), "mean vector");
      c.near(added[ii], 3. + r.value, tolerance(r), "mean added");
      c.near(removed[ii], 3. - r.value, tolerance(r), "mean removed");
    }
    if (ref.any && ref.value != 0)
      c.nontrivial();
  }
}

template <typename C, typename... Ss>
void run_types(pbt::Case &c, const Both<C> &both, Types<Ss...>) {
  using Fn = void (*)(pbt::Case &, const Both<C> &);
  const std::vector<Fn> fns = {&check_one<Ss, C>...};
  const std::size_t n = 1 + c.size(0, 3);
  for (std::size_t i = 0; i < n; ++i)
    fns[c.src.draw(fns.size() - 1)](c, both);
}
template <typename C> void run_mean(pbt::Case &c, const Both<C> &both) {
  if (c.chance(1, 3))
    run_types(c, both, Plain{});
  else
    run_types(c, both, Wrapped{});
}
} // namespace

#define MEAN(NAME, E)                                                          \
  PBT_CHECK(NAME, 150000, 2000000, "a feature whose mean is not zero") { run_mean(c, E); }

MEAN(mean_single, mean_leaf<MeanXY>(c))
MEAN(mean_sum, mean_leaf<MeanX>(c) + mean_leaf<MeanXY>(c))
MEAN(mean_product, mean_leaf<MeanX>(c) * mean_leaf<MeanXY>(c))
MEAN(mean_partial_product, mean_leaf<MeanXY>(c) * mean_leaf<MeanW>(c))
MEAN(mean_nested, (mean_leaf<MeanX>(c) + mean_leaf<MeanW>(c)) * mean_leaf<MeanXY>(c))
MEAN(mean_nested_sum, mean_leaf<MeanX>(c) * mean_leaf<MeanXY>(c) + mean_leaf<MeanW>(c))
MEAN(mean_zero, zero_mean() + mean_leaf<MeanXY>(c))
