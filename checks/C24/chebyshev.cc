// pbt: san=1
#include <albatross/Common>
#include "pbt.hpp"

using namespace albatross;

namespace {

// points of [-1, 1]: generic, ends, Chebyshev nodes and extrema, tiny
Eigen::ArrayXd points(pbt::Case &c, long n) {
  const long m = static_cast<long>(c.size(0, 12));
  Eigen::ArrayXd x(m);
  for (long k = 0; k < m; ++k) {
    switch (c.i(0, 5)) {
    case 0:
      x[k] = c.pick<double>({0., 1., -1., 0.5, -0.5, -0.});
      break;
    case 1:
      x[k] = std::cos(M_PI * (static_cast<double>(c.i(0, n)) + 0.5) /
                      static_cast<double>(n + 1));
      break;
    case 2:
      x[k] = std::cos(M_PI * static_cast<double>(c.i(0, n + 1)) /
                      static_cast<double>(n + 1));
      break;
    case 3:
      x[k] = c.sym(1) * 1e-9;
      break;
    case 4:
      x[k] = (c.coin() ? 1 : -1) * (1 - c.real(0, 1e-9));
      break;
    default:
      x[k] = c.sym(1);
    }
  }
  for (long k = 0; k < m; ++k)
    c.note() << x[k] << " ";
  c.sync();
  return x;
}

// reference values in extended precision, from the trigonometric definition
long double t_ref(long n, double x) {
  return cosl(static_cast<long double>(n) * acosl(static_cast<long double>(x)));
}
long double u_ref(long n, double x) {
  const long double th = acosl(static_cast<long double>(x));
  const long double s = sinl(th);
  if (fabsl(s) < 0.1L) {
    // U_n = sum of T_k with the parity of n (twice each, T_0 once)
    long double sum = 0;
    for (long k = n; k >= 0; k -= 2)
      sum += (k == 0 ? 1.L : 2.L) * t_ref(k, x);
    return sum;
  }
  return sinl(static_cast<long double>(n + 1) * th) / s;
}

double tol(long n) {
  const double d = static_cast<double>(n + 1);
  return 4e-15 * d * d;
}

} // namespace

PBT_CHECK(first_kind, 160000, 1000000,
          "degree 0..60 (some up to 300) at 0..12 points of [-1, 1] including "
          "ends, nodes and extrema, against cos(n acos x) in extended "
          "precision; non-trivial: degree >= 2 and a point.") {
  const long n = c.chance(1, 20) ? c.i(0, 300) : c.i(0, 60);
  c.show("n", n);
  const Eigen::ArrayXd x = points(c, n);
  const Eigen::ArrayXd x0 = x;
  c.nontrivial(n >= 2 && x.size() > 0);
  const Eigen::ArrayXd t = chebyshev_t(n, x);
  c.eq(t.size(), x.size(), "size");
  for (long k = 0; k < x.size(); ++k) {
    c.near(t[k], static_cast<double>(t_ref(n, x[k])), 0, tol(n), "T_n(x)");
    if (x[k] == 1.)
      c.near(t[k], 1., 0, tol(n), "T_n(1)");
    if (x[k] == -1.)
      c.near(t[k], n % 2 ? -1. : 1., 0, tol(n), "T_n(-1)");
  }
  // parity, and each point is evaluated on its own
  const Eigen::ArrayXd tm = chebyshev_t(n, -x);
  for (long k = 0; k < x.size(); ++k) {
    c.near(tm[k], (n % 2 ? -1. : 1.) * t[k], 0, tol(n), "parity of T_n");
    Eigen::ArrayXd one(1);
    one[0] = x[k];
    c.near(chebyshev_t(n, one)[0], t[k], 0, 1e-15, "depends on other points");
  }
  // product rule 2 T_m T_n = T_{m+n} + T_{|m-n|}
  const long m = c.i(0, 20);
  const Eigen::ArrayXd tmm = chebyshev_t(m, x), sum = chebyshev_t(m + n, x),
                       dif = chebyshev_t(std::abs(m - n), x);
  for (long k = 0; k < x.size(); ++k)
    c.near(2 * tmm[k] * t[k], sum[k] + dif[k], 0, 6 * tol(n + m), "product rule");
  c.check((x == x0).all(), "argument modified");
}

PBT_CHECK(second_kind, 120000, 1000000,
          "the same for the second kind against sin((n+1) t) / sin t, with the "
          "limits at the ends; non-trivial: degree >= 2 and a point.") {
  const long n = c.chance(1, 20) ? c.i(0, 200) : c.i(0, 60);
  c.show("n", n);
  const Eigen::ArrayXd x = points(c, n);
  c.nontrivial(n >= 2 && x.size() > 0);
  const Eigen::ArrayXd u = chebyshev_u(n, x);
  c.eq(u.size(), x.size(), "size");
  const double d = static_cast<double>(n + 1);
  for (long k = 0; k < x.size(); ++k) {
    c.near(u[k], static_cast<double>(u_ref(n, x[k])), 0, tol(n) * d, "U_n(x)");
    if (x[k] == 1.)
      c.near(u[k], d, 1e-12, 0, "U_n(1)");
    if (x[k] == -1.)
      c.near(u[k], (n % 2 ? -1. : 1.) * d, 1e-12, 0, "U_n(-1)");
  }
  // T_n = (U_n - U_{n-2}) / 2, T_n = U_n - x U_{n-1}
  if (n >= 2) {
    const Eigen::ArrayXd um2 = chebyshev_u(n - 2, x), um1 = chebyshev_u(n - 1, x),
                         t = chebyshev_t(n, x);
    for (long k = 0; k < x.size(); ++k) {
      c.near(0.5 * (u[k] - um2[k]), t[k], 0, tol(n) * d, "T_n from U_n");
      c.near(u[k] - x[k] * um1[k], t[k], 0, tol(n) * d, "T_n = U_n - x U_n-1");
    }
  }
}

PBT_CHECK(basis_matrices, 70000, 500000,
          "basis matrices up to degree 0..40: column k equals the single "
          "degree evaluation and the trigonometric definition; a series from "
          "random coefficients equals its Clenshaw sum; non-trivial: degree >= "
          "3 and 2+ points.") {
  const long n = c.i(0, 40);
  c.show("n_max", n);
  const Eigen::ArrayXd x = points(c, n);
  c.nontrivial(n >= 3 && x.size() >= 2);
  const Eigen::ArrayXXd t = chebyshev_t_phi(n, x), u = chebyshev_u_phi(n, x);
  c.check(t.rows() == x.size() && t.cols() == n + 1, "shape of the T basis");
  c.check(u.rows() == x.size() && u.cols() == n + 1, "shape of the U basis");
  for (long k = 0; k <= n; ++k) {
    const Eigen::ArrayXd tk = chebyshev_t(k, x), uk = chebyshev_u(k, x);
    const double d = static_cast<double>(k + 1);
    for (long r = 0; r < x.size(); ++r) {
      c.near(t(r, k), tk[r], 0, tol(k), "T basis column");
      c.near(u(r, k), uk[r], 0, tol(k) * d, "U basis column");
      c.near(t(r, k), static_cast<double>(t_ref(k, x[r])), 0, tol(k),
             "T basis value");
      c.near(u(r, k), static_cast<double>(u_ref(k, x[r])), 0, tol(k) * d,
             "U basis value");
    }
  }
  Eigen::VectorXd coef(n + 1);
  for (long k = 0; k <= n; ++k)
    coef[k] = c.sym(2);
  const Eigen::VectorXd series = t.matrix() * coef;
  for (long r = 0; r < x.size(); ++r) {
    long double b1 = 0, b2 = 0;
    for (long k = n; k >= 1; --k) {
      const long double b0 = coef[k] + 2 * static_cast<long double>(x[r]) * b1 - b2;
      b2 = b1;
      b1 = b0;
    }
    const long double ref = coef[0] + static_cast<long double>(x[r]) * b1 - b2;
    c.near(series[r], static_cast<double>(ref), 0, 50 * tol(n), "series");
  }
}

PBT_CHECK(negative_degree_rejected, 200, 1000,
          "negative degrees must be refused; non-trivial: all.") {
  const long n = -c.i(1, 1000);
  c.show("n", n).nontrivial();
  Eigen::ArrayXd x = Eigen::ArrayXd::Constant(c.i(0, 2), 0.25);
  const int f = static_cast<int>(c.i(0, 3));
  c.check(pbt::rejects([&] {
            if (f == 0)
              (void)chebyshev_t(n, x);
            else if (f == 1)
              (void)chebyshev_u(n, x);
            else if (f == 2)
              (void)chebyshev_t_phi(n, x);
            else
              (void)chebyshev_u_phi(n, x);
          }),
          "a negative degree was accepted");
}
