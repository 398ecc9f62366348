// pbt:
#include "common.hpp"
using namespace c09;

// matrices of features, and the helpers that build combinations
namespace {
template <typename T> std::vector<T> make_all(pbt::Case &c, std::size_t n) {
  std::vector<T> out;
  for (std::size_t i = 0; i < n; ++i)
    out.push_back(Gen<T>::make(c).first);
  return out;
}

Eigen::MatrixXd weights(pbt::Case &c, Eigen::Index r, Eigen::Index k) {
  Eigen::MatrixXd m(r, k);
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index j = 0; j < k; ++j)
      m(i, j) = c.coin() ? 0. : c.pick<double>({1., -1., 0.5, 3.});
  return m;
}

template <typename T, typename Cov, typename Mean>
void run(pbt::Case &c, const Cov &cov, const Mean &mean) {
  const std::size_t n = 1 + c.size(0, 4), m = 1 + c.size(0, 4);
  const auto xs = make_all<T>(c, n), ys = make_all<T>(c, m);
  const Eigen::Index p = c.i(1, 4), q = c.i(1, 4);
  const Eigen::MatrixXd a = weights(c, p, static_cast<Eigen::Index>(n)),
                        b = weights(c, q, static_cast<Eigen::Index>(m));
  c.show("A", a).show("B", b);
  const Eigen::MatrixXd k = cov(xs, ys);
  const double tol = 1e-10 * (1 + k.cwiseAbs().sum()) * 10;
  const auto ax = a * xs;
  const Eigen::SparseMatrix<double> sb = b.sparseView();
  const Eigen::SparseMatrix<double, Eigen::RowMajor> rb = b.sparseView();
  const auto by = sb * ys;
  const auto ry = rb * ys;
  c.eq(static_cast<Eigen::Index>(ax.size()), p, "combinations");
  c.near_mat(cov(ax, by), Eigen::MatrixXd(a * k * b.transpose()), tol, "A K B^T");
  c.near_mat(cov(ax, ry), Eigen::MatrixXd(a * k * b.transpose()), tol, "A K B^T row major");
  c.near_mat(cov(xs, by), Eigen::MatrixXd(k * b.transpose()), tol, "K B^T");
  c.near_mat(cov(ax, ys), Eigen::MatrixXd(a * k), tol, "A K");
  c.near_mat(cov(ax), Eigen::MatrixXd(a * cov(xs) * a.transpose()), 10 * tol + 1e-9 * cov(xs).cwiseAbs().sum(), "A K A^T");
  c.near_mat(mean(ax), Eigen::VectorXd(a * mean(xs)), 1e-10 * (1 + mean(xs).cwiseAbs().sum()), "A mean");
  // combinations of combinations
  const Eigen::MatrixXd d = weights(c, c.i(1, 3), p);
  c.near_mat(cov(d * ax, by), Eigen::MatrixXd(d * a * k * b.transpose()), 10 * tol, "D A K B^T");
  c.near_mat(mean(d * ax), Eigen::VectorXd(d * a * mean(xs)), 1e-9 * (1 + mean(xs).cwiseAbs().sum()), "D A mean");
  // measured ones stand for the same combinations
  c.near_mat(cov(as_measurements(ax), by), Eigen::MatrixXd(a * k * b.transpose()), tol, "measured A K B^T");
  // helpers
  using namespace linear_combination;
  const auto total = LinearCombination<T>(xs);
  c.near(mean(total), mean(xs).sum(), 1e-10 * (1 + mean(xs).cwiseAbs().sum()), "sum of all");
  c.near(mean(linear_combination::mean(xs)), mean(xs).sum() / static_cast<double>(n), 1e-10 * (1 + mean(xs).cwiseAbs().sum()), "mean of all");
  const double xy = cov(xs[0], ys[0]), xx = cov(xs[0], xs[0]), yy = cov(ys[0], ys[0]);
  c.near(cov(sum(xs[0], ys[0]), xs[0]), xx + xy, tol, "sum");
  c.near(cov(difference(xs[0], ys[0]), xs[0]), xx - cov(ys[0], xs[0]), 10 * tol + 1e-9 * std::fabs(xx), "difference");
  c.near(cov(difference(xs[0], ys[0]), difference(xs[0], ys[0])), xx + yy - 2 * xy,
         1e-9 * (1 + std::fabs(xx) + std::fabs(yy) + std::fabs(xy)), "difference twice");
  c.check(to_linear_combination(total) == total, "already a combination");
  c.near(cov(to_linear_combination(xs[0]), ys[0]), xy, tol, "combination of one");
  c.nontrivial(n > 1 && m > 1 && a.cwiseAbs().sum() > 0 && b.cwiseAbs().sum() > 0);
}
} // namespace

PBT_CHECK(combinations_of_one_type, 150000, 1500000, "several features, some weights") {
  run<X>(c, (leaf<AllXY>(c) + leaf<OnlyX>(c)).f, (mean_leaf<MeanX>(c) * mean_leaf<MeanXY>(c)).f);
}
PBT_CHECK(combinations_of_variants, 150000, 1500000, "several features, some weights") {
  run<VXY>(c, (constant(c) * leaf<AllXY>(c) + leaf<OnlyX>(c)).f, (mean_leaf<MeanX>(c) + mean_leaf<MeanXY>(c)).f);
}
PBT_CHECK(mixed_pairs, 150000, 1500000, "different values") {
  const auto cov = (leaf<AllXY>(c) * leaf<YAndW>(c) + leaf<OnlyX>(c)).f;
  const X x = Gen<X>::make(c).first;
  const Y y = Gen<Y>::make(c).first;
  using namespace linear_combination;
  const double xx = cov(x, x), xy = cov(x, y), yy = cov(y, y);
  const double tol = 1e-10 * (1 + std::fabs(xx) + std::fabs(xy) + std::fabs(yy));
  c.near(cov(sum(x, y), x), xx + xy, tol, "sum of two types");
  c.near(cov(y, difference(x, y)), xy - yy, tol, "difference of two types");
  c.near(cov(sum(x, y), difference(x, y)), xx - yy, tol, "sum times difference");
  c.near(cov(difference(x, y), difference(x, y)), xx + yy - 2 * xy, tol, "variance of a difference");
  std::vector<variant<X, Y>> vs = {x, y, x};
  const auto ms = as_measurements(vs);
  c.eq(ms.size(), vs.size(), "measurements");
  const Eigen::MatrixXd km = cov(ms), kv = cov(vs);
  c.check(km == kv, "measured variants");
  c.check(ms[0].template is<Measurement<X>>() && ms[1].template is<Measurement<Y>>(), "alternatives kept");
  c.nontrivial(x.v != y.v);
}
