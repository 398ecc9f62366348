// Generators shared by the checks (Eigen types).
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include <Eigen/Dense>
#include "pbt.hpp"

namespace gen {

inline Eigen::VectorXd vec(pbt::Case &c, Eigen::Index n, double mag = 5) {
  Eigen::VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v[i] = c.sym(mag);
  return v;
}

inline Eigen::MatrixXd mat(pbt::Case &c, Eigen::Index r, Eigen::Index k,
                           double mag = 2) {
  Eigen::MatrixXd m(r, k);
  for (Eigen::Index j = 0; j < k; ++j)
    for (Eigen::Index i = 0; i < r; ++i)
      m(i, j) = c.sym(mag);
  return m;
}

// non-negative vector, some entries exactly 0
inline Eigen::VectorXd variances(pbt::Case &c, Eigen::Index n,
                                 bool zeros = true) {
  Eigen::VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v[i] = zeros && c.chance(1, 6) ? 0. : c.logreal(1e-2, 10);
  return v;
}

// symmetric positive definite with condition number around `spread`^2 at most,
// diagonals of varying size so that LDLT pivoting reorders rows
inline Eigen::MatrixXd spd(pbt::Case &c, Eigen::Index n, double spread = 30,
                           double jitter = 0.05) {
  const Eigen::MatrixXd a = mat(c, n, n, 1);
  Eigen::MatrixXd m = a * a.transpose();
  m.diagonal().array() += jitter;
  Eigen::VectorXd s(n);
  for (Eigen::Index i = 0; i < n; ++i)
    s[i] = c.logreal(1 / std::sqrt(spread), std::sqrt(spread));
  m = (s.asDiagonal() * m * s.asDiagonal()).eval();
  return (0.5 * (m + m.transpose())).eval();
}

// symmetric positive semi-definite: each component is a multiple of one of
// `rank` jointly definite ones, or constant (Eigen's LDLT can lose digits on
// arbitrary nearly singular matrices, which is not what the checks are about)
inline Eigen::MatrixXd psd(pbt::Case &c, Eigen::Index n, Eigen::Index rank) {
  if (rank == 0)
    return Eigen::MatrixXd::Zero(n, n);
  const Eigen::MatrixXd core = spd(c, rank, 10, 0.3);
  Eigen::MatrixXd b = Eigen::MatrixXd::Zero(n, rank);
  for (Eigen::Index i = 0; i < n; ++i)
    b(i, static_cast<Eigen::Index>(c.src.draw(
             static_cast<std::uint64_t>(rank - 1)))) =
        c.pick<double>({1., 1., -1., 2., 0.5, 0.});
  const Eigen::MatrixXd m = b * core * b.transpose();
  return (0.5 * (m + m.transpose())).eval();
}

} // namespace gen
#endif
