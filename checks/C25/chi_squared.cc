// pbt:
#include <albatross/Common>
#include <albatross/Stats>
#include <boost/math/special_functions/gamma.hpp>
#include "pbt.hpp"

using namespace albatross;

namespace {

double ref_p(double a, double z) {
  if (z <= 0)
    return 0;
  if (std::isinf(z))
    return 1;
  return boost::math::gamma_p(a, z);
}

// documented (by the tests) to 1e-6 absolute; for a >= 10 a quadrature is used
// which is far better than that
double acc(double a) { return a < 10 ? 8e-7 : 1e-10 + 1e-13 * a; }

double gen_a(pbt::Case &c) {
  switch (c.i(0, 4)) {
  case 0:
    return 0.5 * static_cast<double>(c.i(1, 60)); // integer dof
  case 1:
    return c.real(0.001, 12);
  case 2:
    return c.real(9, 11); // where the method changes
  case 3:
    return c.logreal(1e-3, 1e6);
  default:
    return c.logreal(0.5, 2000);
  }
}

double gen_z(pbt::Case &c, double a) {
  switch (c.i(0, 3)) {
  case 0:
    return c.logreal(1e-14, 1e7);
  case 1: {
    const double z = a + c.sym(16) * std::sqrt(a);
    return z > 1e-14 ? z : c.logreal(1e-14, 1.);
  }
  case 2:
    return a * c.logreal(0.05, 20);
  default:
    return a + 13 * std::sqrt(a + 1) + c.sym(1) * std::sqrt(a);
  }
}

} // namespace

PBT_CHECK(incomplete_gamma_values, 4000000, 40000000,
          "shape 1e-3..1e6 and argument 1e-14..1e7 (around the shape, tails, "
          "method switch) against boost's gamma_p; non-trivial: the true value "
          "is within (1e-6, 1 - 1e-6).") {
  const double a = gen_a(c), z = gen_z(c, a);
  c.note().precision(17);
  c.show("a", a).show("z", z);
  const double got = incomplete_gamma(a, z), want = ref_p(a, z);
  c.nontrivial(want > 1e-6 && want < 1 - 1e-6);
  c.label_if(a < 10, "continued fraction");
  c.label_if(want < 1e-6, "lower tail");
  c.label_if(want > 1 - 1e-6, "upper tail");
  c.near(got, want, 0, acc(a), "incomplete_gamma");
  c.check(got >= -acc(a) && got <= 1 + acc(a), "outside of [0, 1]");
}

PBT_CHECK(monotone, 600000, 10000000,
          "chains of 2..12 increasing arguments (near each other and far "
          "apart) at fixed degrees of freedom, and increasing degrees of "
          "freedom at fixed argument; non-trivial: value changes by > 1e-5.") {
  const bool in_x = c.coin();
  const std::size_t n = c.usually(2, 12, 60);
  std::vector<double> xs;
  double fixed;
  if (in_x) {
    const double a = gen_a(c);
    fixed = 2 * a;
    for (std::size_t k = 0; k < n; ++k)
      xs.push_back(k && c.coin() ? xs.back() * (1 + c.real(0, 0.02))
                                 : 2 * gen_z(c, a));
  } else {
    double a = gen_a(c);
    fixed = 2 * gen_z(c, a);
    for (std::size_t k = 0; k < n; ++k)
      xs.push_back(2 * (c.coin() ? a * (1 + c.real(0, 0.2)) : gen_a(c)));
  }
  std::sort(xs.begin(), xs.end());
  c.show(in_x ? "dof" : "x", fixed).showv("chain", xs);
  double prev = in_x ? -1 : 2;
  double first = NAN;
  for (double x : xs) {
    const double v = in_x ? chi_squared_cdf(x, fixed) : chi_squared_cdf(fixed, x);
    const double slack = 2 * (in_x ? acc(fixed / 2) : acc(std::min(x / 2, 9.)));
    c.check(in_x ? v >= prev - slack : v <= prev + slack, "not monotone");
    prev = v;
    if (std::isnan(first))
      first = v;
  }
  c.nontrivial(std::fabs(prev - first) > 1e-5);
}

PBT_CHECK(chi_squared_forms, 600000, 10000000,
          "every overload (real and integer degrees of freedom of all widths, "
          "deviation / variance form) against boost; non-trivial: value within "
          "(1e-6, 1 - 1e-6).") {
  const double x = c.coin() ? c.real(0, 80) : c.logreal(1e-12, 1e5);
  const long dof = c.coin() ? c.i(1, 12) : c.i(1, 250);
  c.show("x", x).show("dof", dof);
  const double want = ref_p(0.5 * static_cast<double>(dof), 0.5 * x);
  const double t = acc(0.5 * static_cast<double>(dof));
  c.nontrivial(want > 1e-6 && want < 1 - 1e-6);
  c.near(chi_squared_cdf(x, static_cast<double>(dof)), want, 0, t, "double");
  c.near(chi_squared_cdf(x, static_cast<int>(dof)), want, 0, t, "int");
  c.near(chi_squared_cdf(x, dof), want, 0, t, "long");
  c.near(chi_squared_cdf(x, static_cast<std::size_t>(dof)), want, 0, t, "size_t");
  c.near(chi_squared_cdf(x, static_cast<unsigned char>(dof)), want, 0, t, "uchar");
  const double dev = c.sym(20), var = c.logreal(1e-3, 1e3);
  c.near(chi_squared_cdf(dev, var, static_cast<std::size_t>(dof)),
         ref_p(0.5 * static_cast<double>(dof), 0.5 * dev * dev / var), 0, t,
         "deviation and variance");
  const double fdof = c.real(1, 40);
  c.near(chi_squared_cdf(x, fdof), ref_p(0.5 * fdof, 0.5 * x), 0, acc(fdof / 2),
         "fractional degrees of freedom");
}

PBT_CHECK(limits, 100000, 1000000,
          "zero, infinite, NaN and negative arguments; non-trivial: all.") {
  c.nontrivial();
  const double dof = c.logreal(1, 1e5);
  const double inf = std::numeric_limits<double>::infinity();
  c.show("dof", dof);
  c.near(chi_squared_cdf(0., dof), 0, 0, 0, "cdf(0)");
  c.near(chi_squared_cdf(inf, dof), 1, 0, 0, "cdf(inf)");
  c.near(chi_squared_cdf(c.logreal(1e-300, 1e-17), dof), 0, 0, 1e-8, "cdf(tiny)");
  c.near(chi_squared_cdf(1e3 * dof + 1e4, dof), 1, 0, acc(dof / 2), "cdf(huge)");
  c.check(std::isnan(chi_squared_cdf(-c.logreal(1e-12, 1e6), dof)), "cdf(x < 0)");
  c.check(std::isnan(chi_squared_cdf(NAN, dof)), "cdf(NaN)");
  const double x = c.logreal(1e-6, 1e4);
  c.near(chi_squared_cdf(x, 0), 1, 0, 0, "no degrees of freedom");
  c.check(std::isnan(chi_squared_cdf(x, -c.logreal(1e-3, 100))),
          "negative degrees of freedom");
  c.check(std::isnan(chi_squared_cdf(x, NAN)), "NaN degrees of freedom");
  c.check(std::isnan(incomplete_gamma(NAN, x)) &&
              std::isnan(incomplete_gamma(x, NAN)) &&
              std::isnan(incomplete_gamma(-x, x)),
          "incomplete gamma of NaN or a negative shape");
  c.near(incomplete_gamma(x, 0.), 0, 0, 0, "incomplete gamma at 0");
  c.near(incomplete_gamma(0., x), 1, 0, 0, "incomplete gamma with shape 0");
}

PBT_CHECK(consistency_of_residuals, 300000, 5000000,
          "residual vectors (1..8) and random covariances: equals the cdf of "
          "the Mahalanobis norm computed in extended precision, invariant to "
          "reordering, rescaling and sign; non-trivial: value within (1e-6, 1 "
          "- 1e-6) and dimension >= 2.") {
  const long n = static_cast<long>(c.size(1, 8));
  Eigen::MatrixXd l = Eigen::MatrixXd::Zero(n, n);
  for (long i = 0; i < n; ++i) {
    for (long j = 0; j < i; ++j)
      l(i, j) = c.sym(0.7);
    l(i, i) = 1;
    l.row(i) *= c.logreal(0.1, 5);
  }
  Eigen::VectorXd w(n); // whitened residual
  for (long i = 0; i < n; ++i)
    w[i] = c.sym(3);
  const Eigen::MatrixXd cov = l * l.transpose();
  const Eigen::VectorXd dev = l * w;
  c.show("n", n).show("w", w.transpose());
  const double want = ref_p(0.5 * static_cast<double>(n), 0.5 * w.squaredNorm());
  c.nontrivial(want > 1e-6 && want < 1 - 1e-6 && n >= 2);
  c.near(chi_squared_cdf(dev, cov), want, 0, 1e-6, "residual form");
  // reorder
  auto p = c.permutation(static_cast<std::size_t>(n));
  Eigen::VectorXd dev2(n);
  Eigen::MatrixXd cov2(n, n);
  for (long i = 0; i < n; ++i) {
    dev2[i] = dev[static_cast<long>(p[static_cast<std::size_t>(i)])];
    for (long j = 0; j < n; ++j)
      cov2(i, j) = cov(static_cast<long>(p[static_cast<std::size_t>(i)]),
                       static_cast<long>(p[static_cast<std::size_t>(j)]));
  }
  c.near(chi_squared_cdf(dev2, cov2), want, 0, 1e-6, "reordered");
  const double s = c.logreal(1e-3, 1e3) * (c.coin() ? -1 : 1);
  c.near(chi_squared_cdf(Eigen::VectorXd(s * dev),
                         Eigen::MatrixXd(s * s * cov)),
         want, 0, 1e-6, "rescaled");
}
