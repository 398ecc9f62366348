// pbt: san=1 libs=cholmod,spqr,suitesparseconfig
#include <albatross/serialize/GP>
#include <albatross/linalg/Block>
#include "gen.hpp"
using namespace albatross;
#include "roundtrip.hpp"
using namespace roundtrip;

namespace {
const auto usual = [](const auto &a, const auto &b) { return roundtrip::same(a, b); };

template <typename M> void dense(pbt::Case &c, bool truncate) {
  const auto make = [&]() {
    return matrix<M>(c, M::RowsAtCompileTime > 0 ? M::RowsAtCompileTime : c.size(0, 6), M::ColsAtCompileTime > 0 ? M::ColsAtCompileTime : c.size(0, 6));
  };
  const M a = make(), b = make(), used = make();
  check(c, a, b, used, usual, truncate);
}

Eigen::SerializableLDLT ldlt(pbt::Case &c, std::size_t n) {
  Eigen::MatrixXd m = n == 0 ? Eigen::MatrixXd(0, 0) : gen::spd(c, n);
  if (n > 0 && c.chance(1, 5)) // semi definite or negative
    m.row(0) = m.col(0) = Eigen::VectorXd::Zero(m.rows());
  if (c.chance(1, 6))
    m = -m;
  return Eigen::SerializableLDLT(Eigen::LDLT<Eigen::MatrixXd, Eigen::Lower>(m));
}

struct SameLDLT {
  bool operator()(const Eigen::SerializableLDLT &a, const Eigen::SerializableLDLT &b) const {
    if (!roundtrip::same(a, b))
      return false;
    if (a.rows() == 0)
      return true;
    const Eigen::MatrixXd rhs = Eigen::MatrixXd::Identity(a.rows(), a.rows());
    const Eigen::MatrixXd x = a.solve(rhs), y = b.solve(rhs);
    return roundtrip::same(x, y) && roundtrip::same(Eigen::MatrixXd(a.sqrt_solve(rhs)), Eigen::MatrixXd(b.sqrt_solve(rhs))) &&
           roundtrip::same(a.log_determinant(), b.log_determinant()) && a.is_positive_definite() == b.is_positive_definite() &&
           a.info() == b.info() && roundtrip::same(a.l1_norm(), b.l1_norm()) && roundtrip::same(a.rcond(), b.rcond()) &&
           a.isPositive() == b.isPositive() && a.isNegative() == b.isNegative() && a == b;
  }
};

BlockSymmetric<Eigen::SerializableLDLT> block(pbt::Case &c) {
  const std::size_t n = c.size(1, 4), m = c.size(1, 3);
  const Eigen::MatrixXd x = gen::spd(c, n + m);
  const auto i = static_cast<Eigen::Index>(n), j = static_cast<Eigen::Index>(m);
  return BlockSymmetric<Eigen::SerializableLDLT>(Eigen::SerializableLDLT(Eigen::MatrixXd(x.topLeftCorner(i, i))), x.topRightCorner(i, j), x.bottomRightCorner(j, j));
}
struct SameBlock {
  bool operator()(const BlockSymmetric<Eigen::SerializableLDLT> &a, const BlockSymmetric<Eigen::SerializableLDLT> &b) const {
    if (!SameLDLT()(a.A, b.A) || !SameLDLT()(a.S, b.S) || !roundtrip::same(a.Ai_B, b.Ai_B) || a.rows() != b.rows())
      return false;
    const Eigen::MatrixXd rhs = Eigen::MatrixXd::Identity(a.rows(), a.rows());
    return roundtrip::same(Eigen::MatrixXd(a.solve(rhs)), Eigen::MatrixXd(b.solve(rhs)));
  }
};

ExplainedCovariance explained(pbt::Case &c) {
  const std::size_t n = c.size(1, 5);
  return ExplainedCovariance(gen::spd(c, n), gen::spd(c, n));
}
struct SameExplained {
  bool operator()(const ExplainedCovariance &a, const ExplainedCovariance &b) const {
    if (a.rows() != b.rows())
      return false;
    const Eigen::MatrixXd rhs = Eigen::MatrixXd::Identity(a.rows(), a.rows());
    return SameLDLT()(a.outer_ldlt, b.outer_ldlt) && roundtrip::same(a.inner, b.inner) && roundtrip::same(Eigen::MatrixXd(a.solve(rhs)), Eigen::MatrixXd(b.solve(rhs)));
  }
};

Eigen::SparseMatrix<double> sparse(pbt::Case &c, std::size_t rows, std::size_t cols, bool usual_numbers = false) {
  Eigen::SparseMatrix<double> m(static_cast<Eigen::Index>(rows), static_cast<Eigen::Index>(cols));
  const long percent = c.pick<long>({0, 20, 60, 100});
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j)
      if (c.i(0, 99) < percent)
        m.insert(i, j) = usual_numbers ? c.gauss() : number(c);
  if (c.coin())
    m.makeCompressed();
  return m;
}
} // namespace

PBT_CHECK(dense, 6000, 100000,
          "dense matrices of every usual shape and element type, "
          "permutations, transpositions and diagonal matrices: two of them, "
          "another value between and after, in JSON, binary and portable "
          "archives, into new and used objects: the same content down to the "
          "last bit, the same bytes when written again, truncated archives "
          "rejected; numbers include extreme and non-finite ones; "
          "non-trivial: always.") {
  c.nontrivial(true);
  const bool truncate = c.chance(1, 4);
  switch (c.i(0, 12)) {
  case 0:
    return dense<Eigen::VectorXd>(c, truncate);
  case 1:
    return dense<Eigen::MatrixXd>(c, truncate);
  case 2:
    return dense<Eigen::Matrix3d>(c, truncate);
  case 3:
    return dense<Eigen::Matrix2i>(c, truncate);
  case 4:
    return dense<Eigen::MatrixXf>(c, truncate);
  case 5:
    return dense<Eigen::Matrix<std::int64_t, Eigen::Dynamic, 1>>(c, truncate);
  case 6:
    return dense<Eigen::Matrix<double, 2, Eigen::Dynamic>>(c, truncate);
  case 7:
    return dense<Eigen::Matrix<double, 4, 1>>(c, truncate);
  case 8:
    return dense<Eigen::MatrixXi>(c, truncate);
  case 9: {
    const auto make = [&]() {
      std::vector<int> p(c.size(0, 8));
      for (std::size_t i = 0; i < p.size(); ++i)
        p[i] = static_cast<int>(i);
      c.shuffle(p);
      Eigen::PermutationMatrix<Eigen::Dynamic> out(static_cast<Eigen::Index>(p.size()));
      for (std::size_t i = 0; i < p.size(); ++i)
        out.indices()[static_cast<Eigen::Index>(i)] = p[i];
      return out;
    };
    const auto a = make(), b = make(), used = make();
    return check(c, a, b, used, [](const auto &x, const auto &y) { return roundtrip::same(Eigen::VectorXi(x.indices()), Eigen::VectorXi(y.indices())); }, truncate);
  }
  case 10: {
    const auto make = [&]() {
      const Eigen::Index n = static_cast<Eigen::Index>(c.usually(0, 8, 70));
      Eigen::Transpositions<Eigen::Dynamic> out(n);
      for (Eigen::Index i = 0; i < n; ++i)
        out.indices()[i] = static_cast<int>(c.i(i, n - 1));
      return out;
    };
    const auto a = make(), b = make(), used = make();
    return check(c, a, b, used, [](const auto &x, const auto &y) { return roundtrip::same(Eigen::VectorXi(x.indices()), Eigen::VectorXi(y.indices())); }, truncate);
  }
  default: {
    const auto make = [&]() { return Eigen::DiagonalMatrix<double, Eigen::Dynamic>(roundtrip::vector(c, c.size(0, 6))); };
    const auto a = make(), b = make(), used = make();
    return check(c, a, b, used, [](const auto &x, const auto &y) { return roundtrip::same(Eigen::VectorXd(x.diagonal()), Eigen::VectorXd(y.diagonal())); }, truncate);
  }
  }
}

PBT_CHECK(sparse, 1500, 30000,
          "sparse matrices, empty and full, compressed or not, of any shape "
          "up to 6x6, as for dense matrices; non-trivial: always.") {
  c.nontrivial(true);
  const auto make = [&]() { return sparse(c, c.size(0, 6), c.size(0, 6)); };
  const auto a = make(), b = make(), used = make();
  check(c, a, b, used, usual, c.chance(1, 4));
}

PBT_CHECK(factorisations, 3000, 60000,
          "LDLT factorisations (definite, semidefinite, negative and of no rows), "
          "block symmetric matrices, explained covariances and direct "
          "inverses, as for dense matrices: the same factors, solutions, "
          "determinants, condition numbers and flags; non-trivial: always.") {
  c.nontrivial(true);
  const bool truncate = c.chance(1, 4);
  switch (c.i(0, 4)) {
  case 0:
    return check(c, block(c), block(c), block(c), SameBlock(), truncate);
  case 1:
    return check(c, explained(c), explained(c), explained(c), SameExplained(), truncate);
  case 2: {
    const auto make = [&]() {
      const std::size_t n = c.size(0, 5);
      return DirectInverse(matrix<Eigen::MatrixXd>(c, n, n));
    };
    return check(c, make(), make(), make(), [](const DirectInverse &a, const DirectInverse &b) { return roundtrip::same(a.inverse_, b.inverse_); }, truncate);
  }
  default:
    return check(c, ldlt(c, c.size(0, 5)), ldlt(c, c.size(0, 5)), ldlt(c, c.size(0, 5)), SameLDLT(), truncate);
  }
}

namespace {
using QR = Eigen::SerializableSPQR<Eigen::SparseMatrix<double>>;
template <typename In, typename Out> void qr(pbt::Case &c, const QR &a, const Eigen::MatrixXd &rhs, QR *used, const std::string &format, bool looked_at) {
  std::ostringstream os;
  {
    Out ar(os);
    a.save(ar, 0);
    const int after = 7;
    ar(after);
  }
  QR fresh;
  int after = 0;
  for (QR *b : {&fresh, used}) {
    std::istringstream is(os.str());
    {
      In ar(is);
      b->load(ar, 0);
      ar(after);
    }
    c.eq(after, 7, format + ": what follows");
    c.eq(b->rows(), a.rows(), format + ": rows");
    c.eq(b->cols(), a.cols(), format + ": columns");
    c.eq(b->rank(), a.rank(), format + ": rank");
    c.check(b->info() == a.info(), format + ": state");
    c.check(roundtrip::same(Eigen::VectorXi(b->colsPermutation().indices().template cast<int>()), Eigen::VectorXi(a.colsPermutation().indices().template cast<int>())), format + ": permutation");
    for (Eigen::Index i = 0; i < rhs.cols(); ++i)
      c.check(roundtrip::same(Eigen::VectorXd(b->solve(rhs.col(i))), Eigen::VectorXd(a.solve(rhs.col(i)))), format + ": solution");
    if (looked_at)
      c.check(roundtrip::same(Eigen::MatrixXd(b->matrixR()), Eigen::MatrixXd(a.matrixR())), format + ": R");
    const Eigen::MatrixXd qa = a.matrixQ().transpose() * rhs, qb = b->matrixQ().transpose() * rhs;
    c.check(roundtrip::same(qa, qb), format + ": product with Q");
  }
}
} // namespace

PBT_CHECK(sparse_qr, 2500, 30000,
          "sparse QR factorisations of matrices of up to 8x8, square, tall, "
          "wide and rank deficient, with each ordering, R having been looked "
          "at or not, in JSON, binary and portable archives, into new and "
          "used objects: the same rank, permutation, R, solutions and "
          "products with Q; non-trivial: always.") {
  c.nontrivial(true);
  const std::size_t rows = c.usually(1, 8, 60), cols = c.usually(1, 8, 60);
  const auto m = sparse(c, rows, cols, true);
  const auto other = sparse(c, c.size(1, 5), c.size(1, 5), true);
  c.show("matrix", Eigen::MatrixXd(m));
  QR a, used;
  a.setSPQROrdering(c.pick<int>({SPQR_ORDERING_COLAMD, SPQR_ORDERING_NATURAL, SPQR_ORDERING_DEFAULT, SPQR_ORDERING_AMD}));
  if (c.chance(1, 3))
    a.setPivotThreshold(0.);
  a.compute(Eigen::SparseMatrix<double>(m));
  if (c.coin())
    used.compute(Eigen::SparseMatrix<double>(other));
  c.check(a.info() == Eigen::Success, "factorisation");
  const bool looked_at = c.coin();
  if (looked_at)
    a.matrixR();
  const Eigen::MatrixXd rhs = Eigen::MatrixXd::Identity(m.rows(), m.rows());
  switch (c.i(0, 2)) {
  case 0:
    return qr<cereal::JSONInputArchive, cereal::JSONOutputArchive>(c, a, rhs, &used, "json", looked_at);
  case 1:
    return qr<cereal::BinaryInputArchive, cereal::BinaryOutputArchive>(c, a, rhs, &used, "binary", looked_at);
  default:
    return qr<cereal::PortableBinaryInputArchive, cereal::PortableBinaryOutputArchive>(c, a, rhs, &used, "portable", looked_at);
  }
}
