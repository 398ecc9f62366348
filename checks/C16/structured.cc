// pbt:
#include <albatross/Common>
#include <albatross/CovarianceFunctions>
#include <albatross/Indexing>
#include <albatross/linalg/Block>
#include <albatross/GP>
#include <albatross/src/utils/eigen_utils.hpp>
#include "gen.hpp"

using namespace albatross;

namespace {

using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;

double norm1(const Eigen::MatrixXd &a) {
  return a.size() == 0 ? 0. : a.cwiseAbs().colwise().sum().maxCoeff();
}

// inverse and log determinant in long double, from a factorisation that has
// nothing to do with LDLT
struct Dense {
  explicit Dense(const Eigen::MatrixXd &a_) : a(a_) {
    const LMat l = a.cast<long double>();
    const Eigen::FullPivLU<LMat> lu(l);
    const LMat li = lu.inverse();
    inv = li.cast<double>();
    cond = norm1(a) * norm1(inv);
    long double ld = 0;
    for (Eigen::Index i = 0; i < l.rows(); ++i)
      ld += std::log(std::fabs(lu.matrixLU()(i, i)));
    log_det = static_cast<double>(ld);
  }
  Eigen::MatrixXd solve(const Eigen::MatrixXd &b) const {
    return (a.cast<long double>().fullPivLu().solve(b.cast<long double>()))
        .cast<double>();
  }
  Eigen::MatrixXd a, inv;
  double cond, log_det;
};

// max |entry| relative comparison
void close(pbt::Case &c, const Eigen::MatrixXd &got, const Eigen::MatrixXd &ref,
           double rtol, const std::string &w) {
  c.eq(got.rows(), ref.rows(), w + " rows");
  c.eq(got.cols(), ref.cols(), w + " cols");
  const double scale = ref.size() ? ref.cwiseAbs().maxCoeff() : 0.;
  for (Eigen::Index i = 0; i < ref.rows(); ++i)
    for (Eigen::Index j = 0; j < ref.cols(); ++j)
      c.near(got(i, j), ref(i, j), rtol * scale + 1e-290, w);
}

Eigen::MatrixXd gen_spd(pbt::Case &c, Eigen::Index n) {
  const long kind = c.i(0, 4);
  if (kind == 0) // diagonal, in any order of magnitude
    {
      Eigen::VectorXd d(n);
      for (Eigen::Index i = 0; i < n; ++i)
        d[i] = c.logreal(1e-3, 1e3);
      return Eigen::MatrixXd(d.asDiagonal());
    }
  if (kind == 1) { // increasing diagonal: pivoting reverses the order
    Eigen::MatrixXd m = gen::spd(c, n, 2, 0.5);
    for (Eigen::Index i = 0; i < n; ++i) {
      const double s = 1 + static_cast<double>(i);
      m.row(i) *= s;
      m.col(i) *= s;
    }
    return m;
  }
  return gen::spd(c, n, c.pick<double>({30., 3., 1000.}));
}

Eigen::Index gen_n(pbt::Case &c, std::size_t max) {
  return static_cast<Eigen::Index>(c.usually(1, max, 8 * max, 400));
}

bool pivoted(const Eigen::SerializableLDLT &l) {
  for (Eigen::Index i = 0; i < l.transpositionsP().size(); ++i)
    if (l.transpositionsP().indices()[i] != i)
      return true;
  return false;
}

} // namespace

PBT_CHECK(ldlt_operations, 120000, 1200000,
          "at least two rows, reordered by pivoting") {
  const Eigen::Index n = gen_n(c, 9);
  const Eigen::MatrixXd a = gen_spd(c, n);
  c.show("matrix", Eigen::MatrixXd(a));
  const Eigen::SerializableLDLT ldlt =
      c.coin() ? Eigen::SerializableLDLT(a) : Eigen::SerializableLDLT(a.ldlt());
  const Dense d(a);
  c.assume(d.cond < 1e9);
  const double tol = 1e-13 * d.cond + 1e-12;
  const Eigen::Index k = gen_n(c, 4);
  const Eigen::MatrixXd b = gen::mat(c, n, k);
  const Eigen::VectorXd v = gen::vec(c, n);
  c.check(ldlt.is_positive_definite(), "positive definite");
  c.check(ldlt.is_initialized(), "initialised");
  close(c, ldlt.solve(b), d.solve(b), tol * (1 + norm1(d.inv) * norm1(b) / (1e-300 + d.solve(b).cwiseAbs().maxCoeff())), "solve");
  // square root: R R^T = A, in every form
  const Eigen::MatrixXd id = Eigen::MatrixXd::Identity(n, n);
  const Eigen::MatrixXd r = ldlt.sqrt_product(id);
  close(c, r * r.transpose(), a, 1e-12, "R R^T");
  close(c, ldlt.sqrt_product(b), r * b, 1e-12, "sqrt_product");
  close(c, ldlt.sqrt_transpose(), r.transpose(), 1e-13, "sqrt_transpose");
  const Eigen::MatrixXd ri = ldlt.sqrt_solve(id);
  close(c, ri * r, id, 1e-9 * std::sqrt(d.cond) + 1e-11, "R^-1 R");
  close(c, ri.transpose() * ri, d.inv, tol, "R^-T R^-1");
  close(c, ldlt.sqrt_solve(b), ri * b, tol * (1 + norm1(ri) * norm1(b) / (1e-300 + (ri * b).cwiseAbs().maxCoeff())), "sqrt_solve");
  close(c, ldlt.sqrt_solve(v), ri * v, tol * (1 + norm1(ri) * norm1(v) / (1e-300 + (ri * v).cwiseAbs().maxCoeff())), "sqrt_solve vector");
  const Eigen::MatrixXd rti = ldlt.sqrt_transpose_solve(id);
  close(c, rti, ri.transpose(), tol, "R^-T");
  close(c, ldlt.sqrt_transpose_solve(b), rti * b, tol * (1 + norm1(rti) * norm1(b) / (1e-300 + (rti * b).cwiseAbs().maxCoeff())), "sqrt_transpose_solve");
  const Eigen::VectorXd stv = ldlt.sqrt_transpose_solve(v);
  close(c, stv, rti * v, tol * (1 + norm1(rti) * norm1(v) / (1e-300 + (rti * v).cwiseAbs().maxCoeff())), "sqrt_transpose_solve vector");
  // determinant and parts of the inverse
  c.near(ldlt.log_determinant(), d.log_det,
         1e-11 * (1 + std::fabs(d.log_det)) + 1e-14 * d.cond, "log determinant");
  close(c, ldlt.inverse_diagonal(), d.inv.diagonal(), tol, "inverse_diagonal");
  std::vector<std::vector<std::size_t>> blocks;
  const std::size_t nb = c.usually(0, 4, 30);
  for (std::size_t i = 0; i < nb; ++i) {
    std::vector<std::size_t> idx = c.subset(static_cast<std::size_t>(n));
    if (idx.empty())
      idx.push_back(c.src.draw(static_cast<std::uint64_t>(n - 1)));
    c.shuffle(idx);
    if (c.chance(1, 6)) // a repeated index
      idx.push_back(idx[0]);
    blocks.push_back(idx);
  }
  const auto inv_blocks = ldlt.inverse_blocks(blocks);
  c.eq(inv_blocks.size(), blocks.size(), "number of inverse blocks");
  const double inv_scale = d.inv.cwiseAbs().maxCoeff();
  for (std::size_t i = 0; i < nb; ++i) {
    c.eq(inv_blocks[i].rows(), static_cast<Eigen::Index>(blocks[i].size()), "block rows");
    c.eq(inv_blocks[i].cols(), static_cast<Eigen::Index>(blocks[i].size()), "block cols");
    for (std::size_t x = 0; x < blocks[i].size(); ++x)
      for (std::size_t y = 0; y < blocks[i].size(); ++y)
        c.near(inv_blocks[i](static_cast<Eigen::Index>(x), static_cast<Eigen::Index>(y)),
               d.inv(static_cast<Eigen::Index>(blocks[i][x]),
                     static_cast<Eigen::Index>(blocks[i][y])),
               tol * inv_scale, "inverse block entry");
  }
  // D^{1/2} and its inverse
  const Eigen::VectorXd s = ldlt.diagonal_sqrt().diagonal(),
                        si = ldlt.diagonal_sqrt_inverse().diagonal();
  for (Eigen::Index i = 0; i < n; ++i) {
    c.near(s[i] * s[i], ldlt.vectorD()[i], 1e-14, 0, "diagonal_sqrt");
    c.near(s[i] * si[i], 1., 1e-14, 0, "diagonal_sqrt_inverse");
  }
  // equality and copies
  Eigen::SerializableLDLT copy(ldlt);
  c.check(copy == ldlt, "copies are equal");
  Eigen::MatrixXd a2 = a;
  a2(0, 0) *= 1.001;
  c.check(!(Eigen::SerializableLDLT(a2) == ldlt), "different matrices");
  c.nontrivial(n > 1 && pivoted(ldlt));
}

// a rank deficient matrix: the square root still squares to it
PBT_CHECK(ldlt_semi_definite, 120000, 1200000, "rank below size") {
  const Eigen::Index n = gen_n(c, 8);
  const Eigen::Index rank = c.i(0, n);
  const Eigen::MatrixXd a = gen::psd(c, n, rank);
  c.show("matrix", a);
  const Eigen::SerializableLDLT ldlt(a);
  const Eigen::MatrixXd id = Eigen::MatrixXd::Identity(n, n);
  const Eigen::MatrixXd r = ldlt.sqrt_product(id);
  c.check(!r.hasNaN(), "square root of a singular matrix");
  close(c, r * r.transpose(), a, 1e-6, "R R^T");
  close(c, ldlt.sqrt_transpose(), r.transpose(), 1e-12, "sqrt_transpose");
  c.check(!ldlt.sqrt_solve(id).hasNaN(), "sqrt_solve of a singular matrix");
  if (!(ldlt.vectorD().minCoeff() > 0))
    c.check(!ldlt.is_positive_definite(), "not positive definite");
  c.nontrivial(rank < n);
}

PBT_CHECK(block_diagonal_operations, 100000, 1000000,
          "at least two blocks of different sizes") {
  BlockDiagonal bd, other;
  const std::size_t k = c.usually(1, 5, 30);
  std::set<Eigen::Index> sizes;
  for (std::size_t i = 0; i < k; ++i) {
    const Eigen::Index n = gen_n(c, 4);
    sizes.insert(n);
    bd.blocks.push_back(gen_spd(c, n));
    other.blocks.push_back(gen::mat(c, n, n));
  }
  const auto dense_of = [](const BlockDiagonal &x) {
    Eigen::Index n = 0, at = 0;
    for (const auto &b : x.blocks)
      n += b.rows();
    Eigen::MatrixXd out = Eigen::MatrixXd::Zero(n, n);
    for (const auto &b : x.blocks) {
      for (Eigen::Index i = 0; i < b.rows(); ++i)
        for (Eigen::Index j = 0; j < b.cols(); ++j)
          out(at + i, at + j) = b(i, j);
      at += b.rows();
    }
    return out;
  };
  const Eigen::MatrixXd a = dense_of(bd);
  const Eigen::Index n = a.rows();
  c.show("matrix", a);
  c.eq(bd.rows(), n, "rows");
  c.eq(bd.cols(), n, "cols");
  c.check(bd.toDense() == a, "toDense");
  c.check(bd.diagonal() == Eigen::VectorXd(a.diagonal()), "diagonal");
  c.check((bd - other).toDense() == Eigen::MatrixXd(a - dense_of(other)), "difference");
  const Eigen::MatrixXd b = gen::mat(c, n, gen_n(c, 4));
  const Eigen::VectorXd v = gen::vec(c, n);
  const double pscale = 1e-14 * norm1(a) * (1 + norm1(b) + norm1(v));
  const Eigen::MatrixXd ab = a * b;
  const Eigen::MatrixXd got_ab = bd * b;
  const Eigen::VectorXd got_av = bd * v;
  c.near_mat(got_ab, ab, 1e-12 + pscale, "product");
  c.near_mat(got_av, Eigen::VectorXd(a * v), 1e-12 + pscale, "product with a vector");
  // factorised
  const auto ldlt = bd.ldlt();
  const Dense d(a);
  c.assume(d.cond < 1e9);
  double worst = 0; // conditioning is that of the blocks
  for (const auto &x : bd.blocks)
    worst = std::max(worst, Dense(x).cond);
  const double tol = 1e-13 * worst + 1e-12;
  c.eq(ldlt.rows(), n, "ldlt rows");
  c.eq(ldlt.cols(), n, "ldlt cols");
  Eigen::Index at = 0;
  Eigen::MatrixXd ri = Eigen::MatrixXd::Zero(n, n);
  for (std::size_t i = 0; i < k; ++i) {
    const Eigen::Index m = bd.blocks[i].rows();
    const Dense di(bd.blocks[i]);
    const Eigen::MatrixXd bi = b.middleRows(at, m);
    const auto near_block = [&](const Eigen::MatrixXd &got, const std::string &w) {
      close(c, got.middleRows(at, m), di.solve(bi),
            tol * (1 + norm1(di.inv) * norm1(bi) / (1e-300 + di.solve(bi).cwiseAbs().maxCoeff())), w);
    };
    near_block(ldlt.solve(b), "solve");
    near_block(ldlt.solve(b, static_cast<ThreadPool *>(nullptr)), "solve without a pool");
    Eigen::MatrixXd wide(n, b.cols() + 2);
    wide << v, b, v;
    near_block(ldlt.solve(wide.block(0, 1, n, b.cols())), "solve of a block");
    Eigen::SparseMatrix<double> sb = b.sparseView();
    near_block(ldlt.solve(sb), "solve of a sparse matrix");
    ri.block(at, at, m, m) =
        Eigen::SerializableLDLT(bd.blocks[i]).sqrt_solve(Eigen::MatrixXd::Identity(m, m));
    at += m;
  }
  const Eigen::VectorXd sv = ldlt.solve(v);
  close(c, a * sv, v, 1e-13 * (1 + norm1(a) * norm1(sv)) + 1e-11 * worst, "A (A^-1 v)");
  const double rtol = tol * (1 + norm1(ri) * (norm1(b) + norm1(v)));
  c.near_mat(ldlt.sqrt_solve(b), Eigen::MatrixXd(ri * b), rtol, "sqrt_solve");
  c.near_mat(ldlt.sqrt_solve(v), Eigen::VectorXd(ri * v), rtol, "sqrt_solve vector");
  c.near_mat(ldlt.sqrt_solve(b, static_cast<ThreadPool *>(nullptr)), Eigen::MatrixXd(ri * b), rtol, "sqrt_solve pool");
  c.near(ldlt.log_determinant(), d.log_det, 1e-11 * (1 + std::fabs(d.log_det)) + 1e-14 * worst, "log determinant");
  const auto rows = ldlt.block_to_row_map();
  Eigen::Index row = 0;
  for (std::size_t i = 0; i < k; ++i) {
    c.eq(rows.at(i), row, "block_to_row_map");
    row += bd.blocks[i].rows();
  }
  // the estimate of 1 / cond never is much off
  const double truth = 1 / (norm1(a) * norm1(d.inv)), est = ldlt.rcond();
  c.check(est >= truth * (1 - 1e-6) && est <= truth * 10 * static_cast<double>(n),
          "reciprocal condition number " + pbt::str(est) + " of " + pbt::str(truth));
  c.check(&ldlt.adjoint() == &ldlt, "adjoint");
  c.nontrivial(sizes.size() > 1);
}

PBT_CHECK(block_symmetric_solve, 120000, 1200000,
          "both blocks have at least two rows") {
  const Eigen::Index n = gen_n(c, 6), m = gen_n(c, 4);
  const Eigen::MatrixXd x = gen::spd(c, n + m, c.pick<double>({30., 3., 300.}));
  c.show("matrix", x);
  c.show("first block", n);
  const Dense d(x);
  c.assume(d.cond < 1e8);
  const Eigen::MatrixXd a = x.topLeftCorner(n, n), b = x.topRightCorner(n, m),
                        cc = x.bottomRightCorner(m, m);
  const Eigen::SerializableLDLT a_ldlt(a);
  const auto from_c = build_block_symmetric(a_ldlt, b, cc);
  const Eigen::SerializableLDLT s(
      Eigen::MatrixXd(cc - b.transpose() * Dense(a).inv * b));
  const auto from_s = build_block_symmetric(a_ldlt, b, s);
  const Eigen::MatrixXd rhs = gen::mat(c, n + m, gen_n(c, 3));
  const Eigen::VectorXd v = rhs.col(0);
  const double tol = 1e-12 * d.cond * (1 + norm1(d.inv) * norm1(rhs));
  c.eq(from_c.rows(), n + m, "rows");
  c.eq(from_c.cols(), n + m, "cols");
  c.near_mat(from_c.solve(rhs), d.solve(rhs), tol, "solve from C");
  c.near_mat(from_s.solve(rhs), d.solve(rhs), tol, "solve from S");
  c.near_mat(from_c.solve(v), d.solve(v), tol, "vector solve");
  c.check(from_c == build_block_symmetric(a_ldlt, b, cc), "equality");
  c.check(!(from_c == build_block_symmetric(a_ldlt, Eigen::MatrixXd(2 * b), cc)), "difference");
  // nested: the solver of the first block may itself be block symmetric
  const Eigen::Index e = gen_n(c, 3);
  const Eigen::MatrixXd big = gen::spd(c, n + m + e, 3, 0.5);
  const Dense dbig(big);
  const auto inner = build_block_symmetric(
      Eigen::SerializableLDLT(Eigen::MatrixXd(big.topLeftCorner(n, n))),
      Eigen::MatrixXd(big.block(0, n, n, m)), Eigen::MatrixXd(big.block(n, n, m, m)));
  const auto outer = build_block_symmetric(
      inner, Eigen::MatrixXd(big.topRightCorner(n + m, e)),
      Eigen::MatrixXd(big.bottomRightCorner(e, e)));
  const Eigen::MatrixXd r2 = gen::mat(c, n + m + e, 2);
  c.near_mat(outer.solve(r2), dbig.solve(r2),
             1e-12 * dbig.cond * (1 + norm1(dbig.inv) * norm1(r2)), "nested solve");
  c.nontrivial(n > 1 && m > 1);
}

PBT_CHECK(representations, 120000, 1200000, "at least two rows") {
  const Eigen::Index n = gen_n(c, 7);
  const Eigen::MatrixXd outer = gen::spd(c, n, c.pick<double>({3., 30.}), 0.2);
  const Eigen::MatrixXd inner = gen::psd(c, n, c.i(0, n));
  c.show("outer", outer);
  const Dense d(outer);
  c.assume(d.cond < 1e6);
  const Eigen::MatrixXd rhs = gen::mat(c, n, gen_n(c, 3));
  const Eigen::MatrixXd ref = d.inv * (inner * (d.inv * rhs));
  const double tol = 1e-12 * d.cond * (1 + norm1(d.inv) * norm1(inner) * norm1(d.inv) * norm1(rhs));
  const ExplainedCovariance e1(outer, inner),
      e2(Eigen::SerializableLDLT(outer), inner);
  c.near_mat(e1.solve(rhs), ref, tol, "explained covariance solve");
  c.near_mat(e2.solve(rhs), ref, tol, "explained covariance solve (ldlt)");
  c.check(e1 == e2, "equal representations");
  c.check(!(e1 == ExplainedCovariance(outer, Eigen::MatrixXd(inner + Eigen::MatrixXd::Identity(n, n)))), "different inner");
  c.eq(e1.rows(), n, "rows");
  c.eq(e1.cols(), n, "cols");
  const DirectInverse di(d.inv);
  c.near_mat(di.solve(rhs), Eigen::MatrixXd(d.inv * rhs), 1e-12 * (1 + norm1(d.inv) * norm1(rhs)), "direct inverse");
  c.eq(di.rows(), n, "rows");
  c.eq(di.cols(), n, "cols");
  c.check(di == DirectInverse(d.inv), "equal inverses");
  c.nontrivial(n > 1);
}

PBT_CHECK(block_products, 120000, 1200000, "at least two groups") {
  Grouped<long, Eigen::MatrixXd> lhs, rhs, square;
  Grouped<long, Eigen::SerializableLDLT> factors;
  Grouped<long, Eigen::MatrixXd> lhs_t;
  const std::size_t k = c.usually(1, 5, 30);
  const Eigen::Index p = gen_n(c, 3), q = gen_n(c, 3);
  Eigen::MatrixXd inner = Eigen::MatrixXd::Zero(p, q), outer = inner;
  double mag = 1;
  std::set<long> used;
  for (std::size_t i = 0; i < k; ++i) {
    const long key = c.i(-20, 20);
    if (used.count(key))
      continue;
    used.insert(key);
    const Eigen::Index n = gen_n(c, 4);
    const Eigen::MatrixXd x = gen::mat(c, n, p), y = gen::mat(c, n, q);
    lhs[key] = x;
    lhs_t[key] = x.transpose();
    rhs[key] = y;
    square[key] = gen::spd(c, n, 3, 0.3);
    factors[key] = Eigen::SerializableLDLT(square[key]);
    inner += x.transpose() * y;
    mag += norm1(x) * norm1(y);
  }
  c.near_mat(block_inner_product(lhs, rhs), inner, 1e-12 * mag, "inner product");
  c.near_mat(block_product(lhs_t, rhs), inner, 1e-12 * mag, "product");
  const auto solved = block_diag_solve(factors, rhs);
  c.eq(solved.size(), rhs.size(), "solved groups");
  for (const auto &kv : rhs) {
    const Dense d(square.at(kv.first));
    c.near_mat(solved.at(kv.first), d.solve(kv.second),
               1e-12 * d.cond * (1 + norm1(d.inv) * norm1(kv.second)), "block solve");
  }
  const auto diff = block_subtract(rhs, solved);
  for (const auto &kv : rhs)
    c.check(diff.at(kv.first) == Eigen::MatrixXd(kv.second - solved.at(kv.first)), "block difference");
  Grouped<long, Eigen::MatrixXd> same;
  Eigen::MatrixXd total = Eigen::MatrixXd::Zero(p, q);
  for (long key : used) {
    same[key] = gen::mat(c, p, q);
    total += same[key];
  }
  c.near_mat(block_sum(same), total, 1e-12, "block sum");
  const auto acc = block_accumulate(lhs, same, [](const Eigen::MatrixXd &x, const Eigen::MatrixXd &y) {
    return Eigen::MatrixXd(x.sum() * y);
  });
  Eigen::MatrixXd acc_ref = Eigen::MatrixXd::Zero(p, q);
  for (long key : used)
    acc_ref += lhs.at(key).sum() * same.at(key);
  c.near_mat(acc, acc_ref, 1e-11, "block accumulate");
  c.nontrivial(used.size() > 1);
}

// stacking, truncated solves, subsets of matrices
PBT_CHECK(eigen_helpers, 150000, 1500000, "at least two rows") {
  const Eigen::Index cols = gen_n(c, 4);
  std::vector<Eigen::MatrixXd> blocks;
  Eigen::Index rows = 0;
  const std::size_t k = c.usually(1, 5, 30);
  for (std::size_t i = 0; i < k; ++i) {
    blocks.push_back(gen::mat(c, c.i(0, 3), cols));
    rows += blocks.back().rows();
  }
  const Eigen::MatrixXd stacked = vertical_stack(blocks);
  c.eq(stacked.rows(), rows, "stacked rows");
  c.eq(stacked.cols(), cols, "stacked cols");
  Eigen::Index at = 0;
  for (const auto &b : blocks) {
    c.check(Eigen::MatrixXd(stacked.middleRows(at, b.rows())) == b, "stacked block");
    at += b.rows();
  }
  std::vector<Eigen::VectorXd> vs = {gen::vec(c, c.i(0, 3)), gen::vec(c, c.i(0, 3))};
  const Eigen::VectorXd sv = vertical_stack(vs);
  c.eq(sv.size(), vs[0].size() + vs[1].size(), "stacked vectors");
  for (Eigen::Index i = 0; i < sv.size(); ++i)
    c.eq(sv[i], i < vs[0].size() ? vs[0][i] : vs[1][i - vs[0].size()], "stacked vector");

  // a matrix with known eigen decomposition
  const Eigen::Index n = gen_n(c, 6);
  const Eigen::MatrixXd q = Eigen::HouseholderQR<Eigen::MatrixXd>(gen::mat(c, n, n)).householderQ();
  Eigen::VectorXd d(n);
  const double threshold = c.pick<double>({1e-8, 1e-3, 0.5});
  for (Eigen::Index i = 0; i < n; ++i)
    d[i] = c.chance(1, 3) ? threshold * c.real(0, 0.9)
                          : threshold * 1.1 + c.logreal(0.01, 100);
  const Eigen::MatrixXd a = q * d.asDiagonal() * q.transpose();
  const Eigen::MatrixXd sym = 0.5 * (a + a.transpose());
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> evd(sym);
  const Eigen::MatrixXd rhs = gen::mat(c, n, gen_n(c, 3));
  Eigen::MatrixXd ref = Eigen::MatrixXd::Zero(n, rhs.cols());
  bool ambiguous = false;
  for (Eigen::Index i = 0; i < n; ++i) {
    if (d[i] >= threshold)
      ref += q.col(i) * (q.col(i).transpose() * rhs) / d[i];
    ambiguous = ambiguous || std::fabs(d[i] - threshold) < 1e-10;
  }
  if (!ambiguous) {
    const Eigen::MatrixXd got = threshold == 1e-8 ? truncated_psd_solve(evd, rhs)
                                : truncated_psd_solve(evd, rhs, threshold);
    const double smallest = 0.01;
    c.near_mat(got, ref, 1e-10 / (smallest * smallest), "truncated solve");
  }
  c.nontrivial(n > 1 && rows > 1);
}
