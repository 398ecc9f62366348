// pbt:
#include <albatross/Dataset>
#include <albatross/Indexing>
#include "gen.hpp"

using namespace albatross;

namespace {

using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;

struct CaptureCout {
  std::ostringstream os;
  std::streambuf *old;
  CaptureCout() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~CaptureCout() { std::cout.rdbuf(old); }
};

M gen_cov(pbt::Case &c, Eigen::Index n) {
  switch (c.i(0, 3)) {
  case 0:
    return gen::spd(c, n);
  case 1:
    return gen::psd(c, n, c.i(0, n));
  case 2:
    return M(gen::variances(c, n).asDiagonal());
  default:
    return gen::spd(c, n, 1);
  }
}

std::vector<std::size_t> gen_indices(pbt::Case &c, std::size_t n) {
  std::vector<std::size_t> out;
  if (n == 0)
    return out;
  if (c.chance(1, 3))
    return c.permutation(n);
  for (std::size_t i = 0, k = c.size(0, 9); i < k; ++i)
    out.push_back(c.src.draw(n - 1));
  return out;
}

MarginalDistribution gen_marginal(pbt::Case &c, Eigen::Index n) {
  const V m = gen::vec(c, n);
  const V v = gen::variances(c, n);
  switch (c.i(0, 2)) {
  case 0:
    return MarginalDistribution(m, v);
  case 1: {
    DiagonalMatrixXd d(n);
    d.diagonal() = v;
    return MarginalDistribution(m, d);
  }
  default:
    if (n == 1 && c.coin())
      return MarginalDistribution(m[0], v[0]);
    return MarginalDistribution(m, v.asDiagonal());
  }
}

std::vector<double> numbers(const std::string &text) {
  std::istringstream is(text);
  std::vector<double> out;
  std::string w;
  while (is >> w)
    if (w != "+/-")
      out.push_back(std::stod(w));
  return out;
}

bool same(const JointDistribution &a, const JointDistribution &b) {
  return a.mean == b.mean && a.covariance == b.covariance;
}
bool same(const MarginalDistribution &a, const MarginalDistribution &b) {
  return a.mean == b.mean &&
         a.covariance.diagonal() == b.covariance.diagonal();
}

} // namespace

PBT_CHECK(marginal_algebra, 550000, 3000000,
          "marginal distributions of dimension 0-7, every constructor: +, -, "
          "scalar *, [], subset, set_subset, concatenation against plain "
          "vectors; operands unmodified; non-trivial: dimension >= 2.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.usually(0, 7, 60));
  const auto x = gen_marginal(c, n), y = gen_marginal(c, n);
  const auto x0 = x, y0 = y;
  const V mx = x.mean, my = y.mean, vx = x.covariance.diagonal(),
          vy = y.covariance.diagonal();
  const double s = c.chance(1, 4) ? c.pick<double>({0., 1., -1., 1e-5, 1e6}) : c.sym(4);
  c.show("x.mean", mx.transpose()).show("x.var", vx.transpose());
  c.show("s", s);
  c.eq(x.size(), static_cast<std::size_t>(n), "size");
  const auto sum = x + y, diff = x - y, scaled = x * s;
  c.near_mat(sum.mean, V(mx + my), 1e-14, "mean of sum");
  c.near_mat(V(sum.covariance.diagonal()), V(vx + vy), 1e-14, "variance of sum");
  c.near_mat(diff.mean, V(mx - my), 1e-14, "mean of difference");
  c.near_mat(V(diff.covariance.diagonal()), V(vx + vy), 1e-14,
             "variance of difference");
  c.near_mat(scaled.mean, V(s * mx), 1e-14, "mean of scaled");
  c.near_mat(V(scaled.covariance.diagonal()), V(s * s * vx), 1e-14,
             "variance of scaled");
  for (Eigen::Index i = 0; i < n; ++i) {
    const MarginalDistribution one = x[static_cast<std::size_t>(i)];
    c.check(one.size() == 1 && one.mean[0] == mx[i] &&
                one.get_diagonal(0) == vx[i] && x.get_diagonal(i) == vx[i],
            "element access");
  }
  const auto idx = gen_indices(c, static_cast<std::size_t>(n));
  c.showv("idx", idx);
  const auto sub = c.coin() ? x.subset(idx) : subset(x, idx);
  c.eq(sub.size(), idx.size(), "subset size");
  for (std::size_t k = 0; k < idx.size(); ++k) {
    const auto kk = static_cast<Eigen::Index>(k),
               ik = static_cast<Eigen::Index>(idx[k]);
    c.check(sub.mean[kk] == mx[ik] && sub.get_diagonal(kk) == vx[ik],
            "subset entry");
  }
  // set_subset on distinct indices
  auto p = c.permutation(static_cast<std::size_t>(n));
  p.resize(n ? static_cast<std::size_t>(c.i(0, n)) : 0);
  const auto from = gen_marginal(c, static_cast<Eigen::Index>(p.size()));
  MarginalDistribution to = y;
  if (c.coin())
    to.set_subset(from, p);
  else
    set_subset(from, p, &to);
  V em = my, ev = vy;
  for (std::size_t k = 0; k < p.size(); ++k) {
    em[static_cast<Eigen::Index>(p[k])] = from.mean[static_cast<Eigen::Index>(k)];
    ev[static_cast<Eigen::Index>(p[k])] =
        from.get_diagonal(static_cast<Eigen::Index>(k));
  }
  c.check(to.mean == em && V(to.covariance.diagonal()) == ev, "set_subset");
  // concatenation
  const auto z = gen_marginal(c, static_cast<Eigen::Index>(c.size(0, 4)));
  const auto xz = concatenate_marginals(x, z);
  c.check(xz.mean.head(n) == mx && xz.mean.tail(z.mean.size()) == z.mean &&
              V(xz.covariance.diagonal()).head(n) == vx &&
              V(xz.covariance.diagonal()).tail(z.mean.size()) ==
                  V(z.covariance.diagonal()) &&
              xz.size() == static_cast<std::size_t>(n) + z.size(),
          "concatenation of two");
  std::vector<MarginalDistribution> many;
  V am(0), av(0);
  for (std::size_t k = 0, m = c.size(0, 4); k < m; ++k) {
    many.push_back(gen_marginal(c, static_cast<Eigen::Index>(c.size(0, 3))));
    V nm(am.size() + many.back().mean.size()), nv(nm.size());
    nm << am, many.back().mean;
    nv << av, V(many.back().covariance.diagonal());
    am = nm;
    av = nv;
  }
  const auto cat = concatenate_marginals(many);
  c.check(cat.mean.size() == am.size() && cat.mean == am &&
              V(cat.covariance.diagonal()) == av,
          "concatenation of many");
  c.check(same(x, x0) && same(y, y0), "operands unmodified");
  c.check(x == x0, "equal to itself");
  if (n > 0) {
    auto w = x;
    const auto k = static_cast<Eigen::Index>(c.i(0, n - 1));
    if (c.coin())
      w.mean[k] += 0.25;
    else
      w.covariance.diagonal()[k] += 0.25;
    c.check(!(w == x) && !(x == w), "unequal after changing one entry");
    auto big = x;
    big.mean *= 1.1;
    if (x.mean.norm() > 0)
      c.check(!big.approximately_equal(x), "10% off is not approximately equal");
    auto bigv = x;
    bigv.covariance.diagonal() *= 1.1;
    if (vx.norm() > 0)
      c.check(!bigv.approximately_equal(x), "10% off is not approximately equal");
    auto tiny = x;
    tiny.mean *= 1 + 1e-6;
    tiny.covariance.diagonal() *= 1 + 1e-6;
    c.check(tiny.approximately_equal(x), "1e-6 off is approximately equal");
    c.check(!tiny.approximately_equal(x, 1e-9) || x.mean.norm() == 0 ||
                vx.norm() == 0,
            "epsilon respected");
    { // within epsilon, relative to the smaller of both
      const double eps = c.coin() ? 1e-3 : c.logreal(1e-9, 0.5);
      auto near = x;
      near.mean *= 1 + c.logreal(0.1, 10) * eps;
      near.covariance.diagonal() *= 1 - 0.5 * c.real(0, 1) * eps;
      const auto within = [&](const auto &a, const auto &b) {
        return (a - b).norm() / (eps * std::min(a.norm(), b.norm()));
      };
      const double m = near.mean.norm() > 0 ? within(near.mean, x.mean) : 0.;
      const double v = vx.norm() > 0 ? within(V(near.covariance.diagonal()), vx) : 0.;
      if (std::fabs(m - 1) > 1e-5 && std::fabs(v - 1) > 1e-5) {
        c.check(near.approximately_equal(x, eps) == (m <= 1 && v <= 1), "approximately equal");
        c.check(x.approximately_equal(near, eps) == (m <= 1 && v <= 1), "approximately equal, swapped");
        if (eps == 1e-3)
          c.check(x.approximately_equal(near) == (m <= 1 && v <= 1), "approximately equal by default");
      }
    }
  }
  c.nontrivial(n >= 2);
}

PBT_CHECK(joint_algebra, 330000, 2000000,
          "joint distributions of dimension 1-6 (definite, singular and "
          "diagonal covariances): +, - with joints and marginals, scalar *, "
          "subset, marginal, [] against dense formulas; non-trivial: "
          "dimension >= 2 with correlation.") {
  const Eigen::Index n = 1 + static_cast<Eigen::Index>(c.size(0, 5));
  const JointDistribution x(gen::vec(c, n), gen_cov(c, n));
  const JointDistribution y(gen::vec(c, n), gen_cov(c, n));
  const auto m = gen_marginal(c, n);
  if (n == 1) {
    const double mean = x.mean[0], variance = x.covariance(0, 0);
    const JointDistribution one(mean, variance);
    c.check(one.size() == 1 && one.mean[0] == mean &&
                one.covariance.rows() == 1 && one.covariance.cols() == 1 &&
                one.covariance(0, 0) == variance,
            "joint distribution of one mean and one variance");
    const MarginalDistribution lone(mean, variance);
    c.check(lone.size() == 1 && lone.mean[0] == mean &&
                lone.covariance.diagonal().size() == 1 &&
                lone.get_diagonal(0) == variance,
            "marginal distribution of one mean and one variance");
  }
  const auto x0 = x, y0 = y;
  const auto m0 = m;
  const double s = c.chance(1, 4) ? c.pick<double>({0., 1., -1., 1e-5, 1e6}) : c.sym(4);
  c.show("x.cov", x.covariance).show("s", s);
  const M mc = m.covariance.diagonal().asDiagonal();
  const auto j = [&](const JointDistribution &d, const V &mean, const M &cov,
                     const char *what) {
    c.near_mat(d.mean, mean, 1e-13, std::string("mean of ") + what);
    c.near_mat(d.covariance, cov, 1e-13, std::string("covariance of ") + what);
  };
  j(x + y, x.mean + y.mean, x.covariance + y.covariance, "sum");
  j(x - y, x.mean - y.mean, x.covariance + y.covariance, "difference");
  j(x + m, x.mean + m.mean, x.covariance + mc, "sum with marginal");
  j(x - m, x.mean - m.mean, x.covariance + mc, "difference with marginal");
  j(x * s, s * x.mean, s * s * x.covariance, "scaled");
  const auto marg = x.marginal();
  c.check(marg.mean == x.mean &&
              V(marg.covariance.diagonal()) == V(x.covariance.diagonal()),
          "marginal");
  const auto idx = gen_indices(c, static_cast<std::size_t>(n));
  c.showv("idx", idx);
  const auto sub = c.coin() ? x.subset(idx) : subset(x, idx);
  M ec(idx.size(), idx.size());
  V em(idx.size());
  for (std::size_t a = 0; a < idx.size(); ++a) {
    em[static_cast<Eigen::Index>(a)] = x.mean[static_cast<Eigen::Index>(idx[a])];
    for (std::size_t b = 0; b < idx.size(); ++b)
      ec(static_cast<Eigen::Index>(a), static_cast<Eigen::Index>(b)) =
          x.covariance(static_cast<Eigen::Index>(idx[a]),
                       static_cast<Eigen::Index>(idx[b]));
  }
  c.check(sub.mean == em && sub.covariance == ec, "subset");
  c.check(same(sub.marginal(), marg.subset(idx)),
          "marginal of subset is subset of marginal");
  for (Eigen::Index i = 0; i < n; ++i) {
    const MarginalDistribution one = x[static_cast<std::size_t>(i)];
    c.check(one.mean[0] == x.mean[i] &&
                one.get_diagonal(0) == x.covariance(i, i) &&
                x.get_diagonal(i) == x.covariance(i, i),
            "element access");
  }
  c.check(same(x, x0) && same(y, y0) && same(m, m0), "operands unmodified");
  c.check(x == x0, "equal to itself");
  auto w = x;
  const auto r = c.i(0, n - 1), k = c.i(0, n - 1);
  w.covariance(r, k) += 0.5;
  c.check(!(w == x), "unequal after changing one covariance entry");
  auto w2 = x;
  w2.mean[r] -= 0.5;
  c.check(!(w2 == x), "unequal after changing one mean entry");
  if (x.covariance.norm() > 0 && x.mean.norm() > 0) {
    auto big = x;
    big.covariance *= 1.1;
    c.check(!big.approximately_equal(x), "10% off is not approximately equal");
    auto bigm = x;
    bigm.mean *= 0.9;
    c.check(!bigm.approximately_equal(x), "10% off is not approximately equal");
    auto tiny = x;
    tiny.covariance *= 1 - 1e-6;
    tiny.mean *= 1 - 1e-6;
    c.check(tiny.approximately_equal(x), "1e-6 off is approximately equal");
    { // within epsilon, relative to the smaller of both
      const double eps = c.coin() ? 1e-3 : c.logreal(1e-9, 0.5);
      auto near = x;
      near.mean *= 1 + c.logreal(0.1, 10) * eps;
      near.covariance *= 1 - 2 * c.real(0, 1) * eps;
      const auto within = [&](const auto &a, const auto &b) {
        return (a - b).norm() / (eps * std::min(a.norm(), b.norm()));
      };
      const double m = near.mean.norm() > 0 ? within(near.mean, x.mean) : 0.;
      const double v = x.covariance.norm() > 0 ? within(near.covariance, x.covariance) : 0.;
      if (std::fabs(m - 1) > 1e-5 && std::fabs(v - 1) > 1e-5) {
        c.check(near.approximately_equal(x, eps) == (m <= 1 && v <= 1), "approximately equal");
        c.check(x.approximately_equal(near, eps) == (m <= 1 && v <= 1), "approximately equal, swapped");
        if (eps == 1e-3)
          c.check(x.approximately_equal(near) == (m <= 1 && v <= 1), "approximately equal by default");
      }
    }
  }
  c.nontrivial(n >= 2 && (x.covariance - M(V(x.covariance.diagonal())
                                                .asDiagonal()))
                                 .norm() > 0.1);
}

PBT_CHECK(matrix_products, 264000, 1500000,
          "dense, row-major, sparse (both orders) matrices of 1-6 rows times "
          "marginal and joint distributions of dimension 1-6, semi-definite "
          "covariances included: A m and A S A^T; non-trivial: at least 2x2.") {
  const Eigen::Index n = 1 + static_cast<Eigen::Index>(c.size(0, 5));
  const Eigen::Index p = 1 + static_cast<Eigen::Index>(c.size(0, 5));
  M a = gen::mat(c, p, n);
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (c.chance(1, 3))
      a(i) = 0;
  const JointDistribution x(gen::vec(c, n), gen_cov(c, n));
  const auto m = gen_marginal(c, n);
  const auto x0 = x;
  const auto m0 = m;
  c.show("A", a).show("S", x.covariance);
  const M mc = m.covariance.diagonal().asDiagonal();
  const V mean_x = a * x.mean, mean_m = a * m.mean;
  const M cov_x = a * x.covariance * a.transpose(),
          cov_m = a * mc * a.transpose();
  const auto verify = [&](const auto &mtx, const char *what) {
    const std::string w(what);
    const JointDistribution jx = (mtx * x).joint();
    c.near_mat(jx.mean, mean_x, 1e-12, w + " mean of joint");
    c.near_mat(jx.covariance, cov_x, 1e-9, w + " covariance of joint");
    const MarginalDistribution ax = (mtx * x).marginal();
    c.near_mat(ax.mean, mean_x, 1e-12, w + " mean of marginal");
    c.near_mat(V(ax.covariance.diagonal()), V(cov_x.diagonal()), 1e-9,
               w + " variance of marginal");
    const JointDistribution jm = (mtx * m).joint();
    c.near_mat(jm.mean, mean_m, 1e-12, w + " mean of joint from marginal");
    c.near_mat(jm.covariance, cov_m, 1e-9,
               w + " covariance of joint from marginal");
    const MarginalDistribution am = mtx * m;
    c.near_mat(am.mean, mean_m, 1e-12, w + " mean of marginal from marginal");
    c.near_mat(V(am.covariance.diagonal()), V(cov_m.diagonal()), 1e-9,
               w + " variance of marginal from marginal");
    const JointDistribution implicit = mtx * x;
    c.near_mat(implicit.covariance, cov_x, 1e-9, w + " implicit joint");
  };
  verify(a, "dense");
  const Eigen::SparseMatrix<double> sp = a.sparseView();
  verify(sp, "sparse");
  const Eigen::SparseMatrix<double, Eigen::RowMajor> spr = sp;
  verify(spr, "row major sparse");
  c.check(same(x, x0) && same(m, m0), "operands unmodified");
  c.nontrivial(n >= 2 && p >= 2 && cov_x.norm() > 0);
}

PBT_CHECK(indexing_of_vectors_and_matrices, 440000, 2500000,
          "subset, subset_rows, subset_cols, symmetric_subset, set_subset of "
          "std::vector, VectorXd, MatrixXd, DiagonalMatrix with repeated and "
          "permuted indices (size_t and int); non-trivial: indices are not "
          "ascending.") {
  const Eigen::Index n = 1 + static_cast<Eigen::Index>(c.size(0, 6));
  const Eigen::Index k = 1 + static_cast<Eigen::Index>(c.size(0, 6));
  const M m = gen::mat(c, n, k);
  const M sq = gen::mat(c, n, n);
  const V v = gen::vec(c, n);
  std::vector<std::string> sv;
  for (Eigen::Index i = 0; i < n; ++i)
    sv.push_back(c.str(3) + std::to_string(i));
  const auto ri = gen_indices(c, static_cast<std::size_t>(n)),
             ci = gen_indices(c, static_cast<std::size_t>(k));
  c.showv("rows", ri).showv("cols", ci);
  const auto R = [&](std::size_t i) { return static_cast<Eigen::Index>(ri[i]); };
  const auto C = [&](std::size_t i) { return static_cast<Eigen::Index>(ci[i]); };
  const auto I = [&](std::size_t i) { return static_cast<Eigen::Index>(i); };
  std::vector<int> ri_int(ri.begin(), ri.end());
  const V s1 = subset(v, ri), s1i = subset(v, ri_int);
  const auto ss = subset(sv, ri);
  const M rows = subset_rows(m, ri), cols = subset_cols(m, ci),
          both = subset(m, ri, ci), sym = symmetric_subset(sq, ri);
  DiagonalMatrixXd d(n);
  d.diagonal() = v;
  const DiagonalMatrixXd ds = symmetric_subset(d, ri);
  c.check(s1.size() == I(ri.size()) && s1i == s1 && ss.size() == ri.size() &&
              rows.rows() == I(ri.size()) && rows.cols() == k &&
              cols.cols() == I(ci.size()) && cols.rows() == n &&
              both.rows() == I(ri.size()) && both.cols() == I(ci.size()) &&
              sym.rows() == I(ri.size()) && sym.cols() == I(ri.size()) &&
              ds.rows() == I(ri.size()),
          "shapes");
  for (std::size_t a = 0; a < ri.size(); ++a) {
    c.check(s1[I(a)] == v[R(a)], "vector");
    c.check(ss[a] == sv[ri[a]], "std::vector");
    c.check(ds.diagonal()[I(a)] == v[R(a)], "diagonal matrix");
    for (Eigen::Index j = 0; j < k; ++j)
      c.check(rows(I(a), j) == m(R(a), j), "rows");
    for (std::size_t b = 0; b < ci.size(); ++b)
      c.check(both(I(a), I(b)) == m(R(a), C(b)), "rows and columns");
    for (std::size_t b = 0; b < ri.size(); ++b)
      c.check(sym(I(a), I(b)) == sq(R(a), R(b)), "symmetric");
  }
  for (std::size_t b = 0; b < ci.size(); ++b)
    for (Eigen::Index i = 0; i < n; ++i)
      c.check(cols(i, I(b)) == m(i, C(b)), "columns");
  auto p = c.permutation(static_cast<std::size_t>(n));
  p.resize(static_cast<std::size_t>(c.i(0, n)));
  const V from = gen::vec(c, I(p.size()));
  V to = v, expected = v;
  DiagonalMatrixXd dfrom(I(p.size())), dto(n);
  dfrom.diagonal() = from;
  dto.diagonal() = v;
  for (std::size_t a = 0; a < p.size(); ++a)
    expected[I(p[a])] = from[I(a)];
  set_subset(from, p, &to);
  set_subset(dfrom, p, &dto);
  c.check(to == expected, "set_subset");
  c.check(V(dto.diagonal()) == expected, "set_subset of a diagonal matrix");
  c.nontrivial(!std::is_sorted(ri.begin(), ri.end()));
}

PBT_CHECK(invalid_indices_and_sizes_rejected, 160, 2000,
          "out of range or negative indices and mismatched sizes are "
          "rejected (in a child process); always non-trivial.") {
  const Eigen::Index n = 1 + static_cast<Eigen::Index>(c.size(0, 5));
  const V v = gen::vec(c, n);
  const M m = gen::mat(c, n, n);
  const MarginalDistribution x(v, gen::variances(c, n));
  const JointDistribution y(v, m);
  const std::vector<int> sv(static_cast<std::size_t>(n), 1);
  std::vector<int> idx;
  for (std::size_t i = 0, k = c.size(0, 3); i < k; ++i)
    idx.push_back(static_cast<int>(c.i(0, n - 1)));
  const int bad = c.coin() ? static_cast<int>(n + c.i(0, 3))
                           : -1 - static_cast<int>(c.i(0, 3));
  idx.insert(idx.begin() + static_cast<long>(c.src.draw(idx.size())), bad);
  c.showv("idx", idx).show("n", n);
  const long kind = c.i(0, 7);
  c.show("kind", kind);
  const std::vector<int> ok{0};
  const std::function<void()> f = [&] {
    switch (kind) {
    case 0: subset(v, idx); break;
    case 1: subset_rows(m, idx); break;
    case 2: subset_cols(m, idx); break;
    case 3: subset(m, idx, ok); break;
    case 4: symmetric_subset(m, idx); break;
    case 5: x.subset(idx); break;
    case 6: y.subset(idx); break;
    default: {
      V to = v;
      set_subset(V(V::Ones(static_cast<Eigen::Index>(idx.size()))), idx, &to);
    }
    }
  };
  c.check(pbt::rejects(f), "an out of range index was accepted");
  c.check(pbt::rejects([&] {
    MarginalDistribution(v, V(V::Ones(n + 1)));
  }), "mismatched mean and variance accepted");
  c.check(pbt::rejects([&] {
    JointDistribution(v, M(M::Identity(n + 1, n + 1)));
  }), "mismatched mean and covariance accepted");
  c.check(pbt::rejects([&] {
    RegressionDataset<int>(sv, V(V::Ones(n + 1)));
  }), "mismatched features and targets accepted");
  c.nontrivial();
}

PBT_CHECK(printing, 88000, 400000,
          "distributions and datasets printed to a string stream: the "
          "numbers read back in order, nothing reaches std::cout, the object "
          "is unchanged; non-trivial: dimension >= 1.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.size(0, 6));
  const auto x = gen_marginal(c, n);
  const JointDistribution y(gen::vec(c, n), gen::mat(c, n, n));
  std::vector<int> f;
  for (Eigen::Index i = 0; i < n; ++i)
    f.push_back(static_cast<int>(c.i(-50, 50)));
  const RegressionDataset<int> d(f, x);
  c.show("mean", x.mean.transpose());
  std::ostringstream a, b, e;
  {
    CaptureCout cap;
    a << x;
    b << y;
    e << d;
    c.check(cap.os.str().empty(), "wrote to std::cout: " + cap.os.str());
  }
  const auto na = numbers(a.str()), nb = numbers(b.str()), ne = numbers(e.str());
  c.eq(na.size(), static_cast<std::size_t>(3 * n), "numbers printed (marginal)");
  c.eq(ne.size(), static_cast<std::size_t>(3 * n), "numbers printed (dataset)");
  c.eq(nb.size(), static_cast<std::size_t>(n * (n + 1)),
       "numbers printed (joint)");
  for (Eigen::Index i = 0; i < n; ++i) {
    const auto o = static_cast<std::size_t>(3 * i);
    c.near(na[o], static_cast<double>(i), 0, 0, "index");
    c.near(na[o + 1], x.mean[i], 1e-5, 1e-9, "mean");
    c.near(na[o + 2], std::sqrt(x.get_diagonal(i)), 1e-5, 1e-9, "sd");
    c.near(ne[o], f[static_cast<std::size_t>(i)], 0, 0, "feature");
    c.near(ne[o + 1], x.mean[i], 1e-5, 1e-9, "mean");
    c.near(ne[o + 2], std::sqrt(x.get_diagonal(i)), 1e-5, 1e-9, "sd");
    const auto q = static_cast<std::size_t>(i * (n + 1));
    c.near(nb[q], y.mean[i], 1e-5, 1e-9, "joint mean");
    for (Eigen::Index k = 0; k < n; ++k)
      c.near(nb[q + 1 + static_cast<std::size_t>(k)], y.covariance(i, k), 1e-5,
             1e-9, "joint covariance");
  }
  c.nontrivial(n >= 1);
}
