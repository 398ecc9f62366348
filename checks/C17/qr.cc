// pbt: libs=cholmod,spqr,suitesparseconfig
#include <albatross/utils/AsyncUtils>
#include <albatross/linalg/Utils>
#include "gen.hpp"

using namespace albatross;

namespace {
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using Sparse = Eigen::SparseMatrix<double>;
using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using Index = Eigen::Index;
using DenseQR = Eigen::ColPivHouseholderQR<Mat>;

struct Problem {
  Mat a;
  Mat b;
  double condition = 1;
  double scale = 1;
};

// tall, full rank, with empty entries, equal columns norms or very different
// ones, and rows in any order
Problem draw_problem(pbt::Case &c, Index max_cols) {
  Problem p;
  const Index n = c.chance(1, 200) ? c.i(max_cols, 6 * max_cols) : c.i(1, static_cast<int>(max_cols));
  const Index m = n + (c.coin() ? c.i(0, 3) : c.i(0, static_cast<int>(2 * max_cols)));
  const int style = static_cast<int>(c.i(0, 3));
  p.a = Mat::Zero(m, n);
  for (Index j = 0; j < n; ++j)
    for (Index i = 0; i < m; ++i)
      if (style == 0 || c.chance(1, style == 1 ? 2 : 5))
        p.a(i, j) = style == 3 ? static_cast<double>(c.i(-2, 2)) : c.sym(2);
  // like the sparse Gaussian process: stacked on an upper triangle, or a
  // diagonal somewhere
  const auto rows = c.permutation(static_cast<std::size_t>(m));
  for (Index j = 0; j < n; ++j)
    p.a(static_cast<Index>(rows[static_cast<std::size_t>(j)]), j) += c.coin() ? 3 : -3;
  if (c.chance(1, 3)) {
    const double spread = c.logreal(1, 1e6);
    for (Index j = 0; j < n; ++j)
      p.a.col(j) *= c.logreal(1 / spread, spread);
  }
  if (c.chance(1, 4))
    p.a *= c.logreal(1e-6, 1e6);
  p.scale = p.a.norm();
  const Eigen::JacobiSVD<Mat> svd(p.a);
  const double smallest = svd.singularValues()(n - 1);
  c.assume(smallest > 0);
  p.condition = svd.singularValues()(0) / smallest;
  c.assume(p.condition < 1e8);
  p.b = gen::mat(c, m, c.i(1, 4), c.logreal(1e-2, 1e2));
  return p;
}

// (Eigen::SPQR itself does not handle the fixed and natural ones)
const int USED[] = {SPQR_ORDERING_COLAMD, SPQR_ORDERING_CHOLMOD, SPQR_ORDERING_AMD,
                    SPQR_ORDERING_DEFAULT, SPQR_ORDERING_BESTAMD};

// Eigen::SPQR only solves for vectors
template <typename QR> Mat solve_cols(const QR &qr, const Mat &b) {
  Mat x(qr.cols(), b.cols());
  for (Index j = 0; j < b.cols(); ++j) {
    const Vec col = b.col(j);
    const Vec solved = qr.solve(col);
    x.col(j) = solved;
  }
  return x;
}

double factor(const Problem &p) {
  return 1e-14 * static_cast<double>(p.a.rows() + 10) * 10;
}

bool upper_triangular(const Mat &r) {
  for (Index i = 0; i < r.rows(); ++i)
    for (Index j = 0; j < std::min(i, r.cols()); ++j)
      if (r(i, j) != 0.)
        return false;
  return true;
}

// relative to the size of each column
void near_cols(pbt::Case &c, const Mat &x, const Mat &y, const Vec &size, double tol,
               const std::string &what) {
  c.check(x.rows() == y.rows() && x.cols() == y.cols(), what + ": shape");
  for (Index j = 0; j < x.cols(); ++j)
    for (Index i = 0; i < x.rows(); ++i)
      c.near(x(i, j), y(i, j), 0., tol * size[j], what);
}

template <typename QR, typename QtB>
void check_factors(pbt::Case &c, const Problem &p, const QR &qr, const QtB &q_transpose_times,
                   const std::string &what) {
  const Index n = p.a.cols();
  const Mat R = get_R(qr);
  const Eigen::PermutationMatrixX P = get_P(qr);
  c.check(R.rows() == n && R.cols() == n, what + ": R should be square");
  c.check(upper_triangular(R), what + ": R isn't upper triangular");
  c.check(P.rows() == n, what + ": size of P");
  std::vector<bool> seen(static_cast<std::size_t>(n), false);
  for (Index i = 0; i < n; ++i) {
    const Index to = P.indices()[i];
    c.check(to >= 0 && to < n && !seen[static_cast<std::size_t>(to)], what + ": not a permutation");
    seen[static_cast<std::size_t>(to)] = true;
  }
  const double f = factor(p);
  const Mat ap = p.a * P;
  Vec norms(n);
  for (Index j = 0; j < n; ++j)
    norms[j] = ap.col(j).norm();

  // R^T R = P^T A^T A P
  const Mat gram = (ap.cast<long double>().transpose() * ap.cast<long double>()).cast<double>();
  const Mat rtr = (R.cast<long double>().transpose() * R.cast<long double>()).cast<double>();
  for (Index i = 0; i < n; ++i)
    for (Index j = 0; j < n; ++j)
      c.near(rtr(i, j), gram(i, j), 0., f * norms[i] * norms[j], what + ": RtR is not PtAtAP");

  // Q^T B
  const Mat qtb = q_transpose_times(p.b);
  c.check(qtb.cols() == p.b.cols() && qtb.rows() >= n && qtb.rows() <= p.b.rows(),
          what + ": shape of QtB");
  const Mat qta = q_transpose_times(p.a);
  const Mat qtap = qta * P;
  for (Index j = 0; j < n; ++j)
    for (Index i = 0; i < qtap.rows(); ++i)
      c.near(qtap(i, j), i < n ? R(i, j) : 0., 0., f * norms[j], what + ": QtA isn't R");
  const Mat top = qtb.topRows(n);
  const Mat lhs = R.transpose() * top, rhs = ap.transpose() * p.b;
  for (Index i = 0; i < n; ++i)
    for (Index j = 0; j < lhs.cols(); ++j)
      c.near(lhs(i, j), rhs(i, j), 0., f * norms[i] * p.b.col(j).norm(), what + ": Rt QtB");
  if (qtb.rows() == p.b.rows())
    for (Index j = 0; j < p.b.cols(); ++j)
      c.near(qtb.col(j).norm(), p.b.col(j).norm(), f, 0., what + ": Qt changes the norm");
}

template <typename QR>
Mat check_solves(pbt::Case &c, const Problem &p, const QR &qr, const std::string &what) {
  const Index n = p.a.cols();
  const double f = factor(p);
  // the normal equations
  const Mat x = solve_cols(qr, p.b);
  c.check(x.rows() == n && x.cols() == p.b.cols(), what + ": shape of the solution");
  c.check(x.allFinite(), what + ": solution isn't finite");
  // backwards stable: the residual is orthogonal to the columns, to rounding
  // of what goes into it
  for (Index j = 0; j < x.cols(); ++j) {
    const Vec residual = p.b.col(j) - p.a * x.col(j);
    const double size = p.b.col(j).norm() + (p.a.cwiseAbs() * x.col(j).cwiseAbs()).norm();
    for (Index i = 0; i < n; ++i)
      c.near(p.a.col(i).dot(residual), 0., 0., f * p.condition * p.a.col(i).norm() * size,
             what + ": not the least squares solution");
  }
  const Mat v = qr.solve(Vec(p.b.col(0)));
  near_cols(c, v, x.col(0), Vec::Constant(1, x.col(0).norm()), f * p.condition,
            what + ": solve of a vector");

  // square root solve, S = R^-T P^T rhs, so that S^T S = rhs^T (A^T A)^-1 rhs
  const Mat rhs = gen::mat(c, n, c.i(1, 3), 3);
  const Mat s = sqrt_solve(qr, rhs);
  c.check(s.rows() == n && s.cols() == rhs.cols(), what + ": shape of sqrt_solve");
  const Mat R = get_R(qr);
  const Eigen::PermutationMatrixX P = get_P(qr);
  const Mat back = R.transpose() * s, expected = P.transpose() * rhs;
  for (Index i = 0; i < n; ++i)
    for (Index j = 0; j < s.cols(); ++j)
      c.near(back(i, j), expected(i, j), 0.,
             f * (R.col(i).cwiseAbs().dot(s.col(j).cwiseAbs()) + std::fabs(expected(i, j))),
             what + ": Rt sqrt_solve(rhs) isn't Pt rhs");
  const LMat gram = p.a.cast<long double>().transpose() * p.a.cast<long double>();
  const LMat exact = gram.ldlt().solve(rhs.cast<long double>());
  const Mat quadratic = (rhs.cast<long double>().transpose() * exact).cast<double>();
  const Mat got = s.transpose() * s;
  if (p.condition < 1e5)
    for (Index i = 0; i < got.rows(); ++i)
      for (Index j = 0; j < got.cols(); ++j)
        c.near(got(i, j), quadratic(i, j), 0.,
               f * p.condition * s.col(i).norm() * s.col(j).norm(), what + ": StS");
  // other forms of it
  const Mat s2 = sqrt_solve(R, P, rhs);
  c.near_mat(s2, s, 1e-13 * s.norm(), what + ": sqrt_solve(R, P, rhs)");
  const Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic, int> p_int(
      P.indices().template cast<int>());
  c.near_mat(sqrt_solve(R, p_int, rhs), s, 1e-13 * s.norm(), what + ": int permutation");
  c.near_mat(sqrt_solve(qr, Vec(rhs.col(0))), s.col(0), 1e-13 * s.col(0).norm(),
             what + ": sqrt_solve of a vector");
  return x;
}

void describe(pbt::Case &c, const Problem &p) {
  c.show("A", p.a);
  c.show("B", p.b);
}
} // namespace

PBT_CHECK(dense_qr, 20000, 200000, "more than one column, of different sizes") {
  const Problem p = draw_problem(c, 8);
  describe(c, p);
  c.nontrivial(p.a.cols() > 1 && p.b.rows() > 1);
  c.label_if(p.condition > 1e4, "ill conditioned");
  c.label_if(p.a.rows() == p.a.cols(), "square");
  const DenseQR qr(p.a);
  check_factors(
      c, p, qr, [&](const Mat &b) { return Mat(qr.householderQ().transpose() * b); }, "dense");
  check_solves(c, p, qr, "dense");
}

PBT_CHECK(sparse_qr, 15000, 150000, "more than one column, some entries zero") {
  const Problem p = draw_problem(c, 8);
  describe(c, p);
  const Sparse a = p.a.sparseView();
  c.nontrivial(p.a.cols() > 1 && a.nonZeros() < p.a.size());
  c.label_if(p.condition > 1e4, "ill conditioned");
  c.label_if(p.a.rows() == p.a.cols(), "square");
  const auto qr = SPQR_create(a);
  c.check(qr->info() == Eigen::Success, "the decomposition failed");
  c.check(qr->rank() == p.a.cols(), "a full rank matrix is reported as rank deficient");
  check_factors(
      c, p, *qr, [&](const Mat &b) { return Mat(qr->matrixQ().transpose() * b); }, "sparse");
  const Mat x = check_solves(c, p, *qr, "sparse");

  // both agree
  const DenseQR dense(p.a);
  const Mat expected = dense.solve(p.b);
  const Mat residual = p.b - p.a * expected;
  for (Index j = 0; j < x.cols(); ++j) {
    const double smallest = p.a.norm() / p.condition;
    const double size = expected.col(j).norm() + residual.col(j).norm() / smallest;
    c.near_mat(x.col(j), expected.col(j), 10 * factor(p) * p.condition * size,
               "dense and sparse solutions differ");
  }
  const Mat rhs = gen::mat(c, p.a.cols(), 2, 3);
  const Mat d = sqrt_solve(dense, rhs), s = sqrt_solve(*qr, rhs);
  c.near_mat(s.transpose() * s, d.transpose() * d, 10 * factor(p) * p.condition * d.squaredNorm(),
             "quadratic forms of dense and sparse square root solves differ");
}

PBT_CHECK(ordering_and_threads, 12000, 120000, "more than two columns, some entries zero") {
  const Problem p = draw_problem(c, c.chance(1, 20) ? 40 : 8);
  describe(c, p);
  const Sparse a = p.a.sparseView();
  c.nontrivial(p.a.cols() > 2 && a.nonZeros() < p.a.size());
  const auto reference = SPQR_create(a);
  const Mat expected = solve_cols(*reference, p.b);
  const Mat residual = p.b - p.a * expected;
  const double smallest = p.a.norm() / p.condition;

  SPQR qr;
  const int ordering = USED[c.i(0, 4)];
  c.show("ordering", ordering);
  qr.setSPQROrdering(ordering);
  ThreadPool pool(static_cast<std::size_t>(c.i(1, 4)));
  switch (c.i(0, 2)) {
  case 0:
    SPQR_set_threads(&qr, static_cast<std::size_t>(c.i(0, 8)));
    break;
  case 1:
    SPQR_set_threads(&qr, &pool);
    c.check(qr.cholmodCommon()->SPQR_nthreads == static_cast<int>(pool.thread_count()),
            "threads of the pool");
    break;
  default: {
    const int before = qr.cholmodCommon()->SPQR_nthreads;
    SPQR_set_threads(&qr, nullptr);
    c.check(qr.cholmodCommon()->SPQR_nthreads == before, "no pool changes nothing");
  }
  }
  SPQR_set_pivot_threshold(&qr, a);
  qr.compute(a);
  c.check(qr.info() == Eigen::Success && qr.rank() == p.a.cols(), "failed or rank deficient");
  check_factors(
      c, p, qr, [&](const Mat &b) { return Mat(qr.matrixQ().transpose() * b); }, "ordered");
  const Mat x = check_solves(c, p, qr, "ordered");
  for (Index j = 0; j < x.cols(); ++j) {
    const double size = expected.col(j).norm() + residual.col(j).norm() / smallest;
    c.near_mat(x.col(j), expected.col(j), 10 * factor(p) * p.condition * size,
               "the ordering changes the solution");
  }
  const auto threaded = SPQR_create(a, &pool);
  c.check(threaded->cholmodCommon()->SPQR_nthreads == static_cast<int>(pool.thread_count()),
          "threads of a created decomposition");
  const Mat y = solve_cols(*threaded, p.b);
  for (Index j = 0; j < x.cols(); ++j) {
    const double size = expected.col(j).norm() + residual.col(j).norm() / smallest;
    c.near_mat(y.col(j), expected.col(j), 10 * factor(p) * p.condition * size,
               "the thread pool changes the solution");
  }
}

PBT_CHECK(graded_columns, 10000, 100000, "columns that differ by more than a factor of 1e6") {
  // columns of wildly different sizes, which no backend may drop
  const Index n = c.i(2, 6), m = n + c.i(0, 4);
  Mat a = gen::mat(c, m, n, 1);
  for (Index j = 0; j < n; ++j)
    a(j, j) += 4;
  Vec scale(n);
  for (Index j = 0; j < n; ++j)
    scale[j] = c.logreal(1e-9, 1e3);
  const Mat scaled = a * scale.asDiagonal();
  c.show("A", scaled);
  c.nontrivial(scale.maxCoeff() / scale.minCoeff() > 1e6);
  const Mat b = gen::mat(c, m, 1, 1);
  const Mat expected = a.colPivHouseholderQr().solve(b);
  const Sparse s = scaled.sparseView();
  const auto sparse = SPQR_create(s);
  c.check(sparse->rank() == n, "a full rank matrix is reported as rank deficient");
  const Mat x = solve_cols(*sparse, b), y = DenseQR(scaled).solve(b);
  const Eigen::JacobiSVD<Mat> svd(a);
  const double tol = 1e-11 * svd.singularValues()(0) / svd.singularValues()(n - 1) * 10;
  c.near_mat(scale.asDiagonal() * x, expected, tol * (1 + expected.norm()), "sparse");
  c.near_mat(scale.asDiagonal() * y, expected, tol * (1 + expected.norm()), "dense");
}

PBT_CHECK(pivot_threshold, 2000, 20000, "a matrix large enough for the scaled threshold") {
  // tiny for small problems, otherwise relative to the largest column
  const Index cut = c.i(2, 9);
  const Index m = c.i(1, 12), n = c.i(1, 12);
  const double coefficient = c.logreal(1e-3, 1e3);
  Mat a = gen::mat(c, m, n, c.logreal(1e-3, 1e3));
  for (Index j = 0; j < n; ++j)
    if (c.chance(1, 4))
      a.col(j).setZero();
  c.show("A", a);
  c.show("smallest size", cut);
  c.show("coefficient", coefficient);
  const Sparse s = a.sparseView();
  double expected = 1e-15;
  if (m >= cut && n >= cut) {
    double largest = 0;
    for (Index j = 0; j < n; ++j)
      largest = std::max(largest, a.col(j).norm());
    if (largest == 0)
      largest = 1;
    expected = coefficient * static_cast<double>(m + n) * largest * 2.220446049250313e-16;
    c.nontrivial();
  }
  c.near(SPQR_pivot_threshold(a, cut, coefficient), expected, 1e-13, 0., "dense");
  c.near(SPQR_pivot_threshold(s, cut, coefficient), expected, 1e-13, 0., "sparse");
}

PBT_CHECK(large_sparse, 8, 80, "more rows and columns than the small problem size") {
  const Index n = 300 + c.i(0, 60), m = n + c.i(0, 200);
  std::vector<Eigen::Triplet<double>> entries;
  const auto rows = c.permutation(static_cast<std::size_t>(m));
  for (Index j = 0; j < n; ++j) {
    entries.emplace_back(static_cast<int>(rows[static_cast<std::size_t>(j)]), static_cast<int>(j),
                         4 + c.real(0, 2));
    for (int k = 0; k < 3; ++k)
      entries.emplace_back(static_cast<int>(c.i(0, static_cast<int>(m) - 1)), static_cast<int>(j),
                           c.sym(1));
  }
  // still far above the threshold under which columns count as dependent
  Vec scale = Vec::Ones(n);
  for (int k = 0; k < 5; ++k)
    scale[c.i(0, static_cast<int>(n) - 1)] = c.logreal(1e-9, 1e-3);
  for (auto &e : entries)
    e = Eigen::Triplet<double>(e.row(), e.col(), e.value() * scale[e.col()]);
  Sparse a(m, n);
  a.setFromTriplets(entries.begin(), entries.end());
  c.nontrivial();
  Problem p;
  p.a = a;
  p.condition = 100;
  p.b = gen::mat(c, m, 2);
  ThreadPool pool(4);
  const auto qr = SPQR_create(a, c.coin() ? &pool : nullptr);
  c.check(qr->rank() == n, "rank");
  check_factors(
      c, p, *qr, [&](const Mat &b) { return Mat(qr->matrixQ().transpose() * b); }, "large");
  const Mat x = solve_cols(*qr, p.b);
  const Mat expected = DenseQR(p.a).solve(p.b);
  const Mat xs = scale.asDiagonal() * x, es = scale.asDiagonal() * expected;
  c.near_mat(xs, es, 1e-9 * es.norm(), "large: dense and sparse solutions differ");
}
