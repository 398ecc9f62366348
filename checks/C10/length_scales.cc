// pbt: libs=cholmod,spqr,suitesparseconfig
#include <albatross/SparseGP>
#include "gen.hpp"

using namespace albatross;

namespace {
typedef long double LD;
using Vec = Eigen::VectorXd;

enum Kernel { SE, EXP, M32, M52 };
const char *NAMES[] = {"se", "exp", "m32", "m52"};

// log of the correlation at x = distance / length scale
LD log_correlation(int k, LD x) {
  if (k == SE)
    return -x * x;
  if (k == EXP)
    return -x;
  const LD s = (k == M32 ? sqrtl(3) : sqrtl(5)) * x;
  const LD u = k == M32 ? s : s + s * s / 3;
  if (s > 1e-3L)
    return log1pl(u) - s;
  // log1p(u) - s, without the cancellation
  LD out = (u - s), p = u;
  for (int n = 2; n < 12; ++n) {
    p *= u;
    out += (n % 2 ? 1 : -1) * p / n;
  }
  return out;
}

// increase in standard deviation as a fraction of the prior's
LD increase(int k, LD distance, LD length) {
  return sqrtl(-expm1l(2 * log_correlation(k, distance / length)));
}

double free_derive(int k, double d, double s, double t) {
  switch (k) {
  case SE:
    return derive_squared_exponential_length_scale(d, s, t);
  case EXP:
    return derive_exponential_length_scale(d, s, t);
  case M32:
    return derive_matern_32_length_scale(d, s, t);
  default:
    return derive_matern_52_length_scale(d, s, t);
  }
}

using Euclid = EuclideanDistance;
template <typename F> auto with_kernel(int k, double l, double s, F f) {
  switch (k) {
  case SE:
    return f(SquaredExponential<Euclid>(l, s));
  case EXP:
    return f(Exponential<Euclid>(l, s));
  case M32:
    return f(Matern32<Euclid>(l, s));
  default:
    return f(Matern52<Euclid>(l, s));
  }
}

double draw_ratio(pbt::Case &c, int k) {
  switch (c.i(0, 5)) {
  case 0:
    return 1. - c.logreal(1e-14, 0.5);
  case 1:
    return k <= EXP && c.coin() ? c.logreal(1e-100, 1e-4) : c.logreal(1e-6, 0.9);
  case 2:
    return c.logreal(1e-4, 0.9);
  default:
    return c.real(0.001, 0.999);
  }
}
} // namespace

PBT_CHECK(derive_then_measure, 400000, 1500000,
          "a target between 0.1% and 99.9% of the prior standard deviation") {
  const int k = static_cast<int>(c.i(0, 3));
  const double d = c.logreal(1e-6, 1e6), s = c.logreal(1e-6, 1e6);
  const double t = draw_ratio(c, k) * s;
  const LD r = static_cast<LD>(t) / s;
  c.assume(t > 0 && t < s);
  c.show("kernel", NAMES[k]);
  c.show("distance", d);
  c.show("sigma", s);
  c.show("target increase", t);
  const double l = free_derive(k, d, s, t);
  c.show("length scale", l);
  c.check(std::isfinite(l) && l > 0, "length scale isn't finite and positive");
  c.label(NAMES[k]);
  c.nontrivial(r > 1e-3 && r < 0.999);

  const double by_method = with_kernel(
      k, c.logreal(1e-3, 1e3), c.logreal(1e-3, 1e3),
      [&](const auto &kernel) { return kernel.derive_length_scale(d, s, t); });
  c.near(by_method, l, 1e-13, 0., "derive_length_scale of the kernel");

  const bool solved = k >= M32;
  // Matern length scales are looked for within these bounds
  if (solved)
    c.check(l >= 0.99e-7 * d && l <= 1.01e7 * d, "outside of the solver's bounds");
  const LD got = increase(k, d, l);
  // the solver works with the double precision correlation, which loses
  // 1e-16 / r^2
  const LD tol = solved ? 1e-11L + 2e-15L / (r * r) : 1e-13L;
  if (solved && r < 1e-6L) {
    c.label("below the Matern solver's resolution");
    c.check(got <= 1e-5L, "far larger increase than asked for");
  } else {
    c.check(fabsl(got - r) <= tol * r, "increase of the kernel, relative to sigma: " +
                                           pbt::str(static_cast<double>(got)) + " instead of " +
                                           pbt::str(static_cast<double>(r)));
  }

  // and measured with the library's own function, on a kernel set to that
  const double measured = with_kernel(k, l, s, [&](const auto &kernel) {
    return process_noise_equivalent([&](double x) { return kernel(0., x); }, d);
  });
  c.check(std::isfinite(measured) && measured >= 0 && measured <= s * (1 + 1e-15),
          "process noise is not in [0, sigma]");
  const LD m = static_cast<LD>(measured) / s;
  c.check(fabsl(m * m - r * r) <= 2e-11L * r * r + 1e-14L, "process_noise_equivalent");
}

PBT_CHECK(process_noise, 60000, 600000, "a correlation between 1e-3 and 0.999") {
  const int k = static_cast<int>(c.i(0, 3));
  const double d = c.logreal(1e-3, 1e3), s = c.logreal(1e-4, 1e4);
  const double l = d * (c.coin() ? c.logreal(1e-12, 1e12) : c.logreal(0.05, 50));
  c.show("kernel", NAMES[k]);
  c.show("distance", d);
  c.show("sigma", s);
  c.show("length scale", l);
  const double at = c.real(-100, 100);
  (void)at;
  const double measured = with_kernel(k, l, s, [&](const auto &kernel) {
    return process_noise_equivalent([&](double x) { return kernel(0., x); }, d);
  });
  const LD ref = increase(k, d, l);
  const LD rho = sqrtl(1 - ref * ref);
  c.nontrivial(rho > 1e-3L && rho < 0.999L);
  c.check(std::isfinite(measured) && measured >= 0, "process noise is not a number");
  const LD m = static_cast<LD>(measured) / s;
  c.check(fabsl(m * m - ref * ref) <= 1e-14L, "process noise: " + pbt::str(measured) +
                                                  " instead of " +
                                                  pbt::str(static_cast<double>(ref * s)));
}

PBT_CHECK(unachievable, 20000, 200000, "an increase of at least the prior's sigma") {
  const int k = static_cast<int>(c.i(0, 3));
  const double d = c.logreal(1e-6, 1e6);
  double s = c.logreal(1e-6, 1e6), t = 0;
  bool longest = true;
  switch (c.i(0, 4)) {
  case 0:
    t = s * (c.coin() ? 1. : 1. + c.logreal(1e-12, 1e6));
    longest = false;
    c.nontrivial();
    break;
  case 1:
    t = c.coin() ? 0. : -c.logreal(1e-6, 1e6);
    break;
  case 2:
    t = c.logreal(1e-6, 1e6);
    s = c.coin() ? 0. : -s;
    break;
  case 3:
    t = 0;
    s = 0;
    break;
  default: // achievable for the closed forms, limited for the others
    t = s * c.logreal(1e-12, 1e-8);
    longest = k >= M32;
    if (!longest) {
      const double l = free_derive(k, d, s, t);
      c.check(std::isfinite(l) && l > 1e7 * d, "length scale of a tiny increase");
      return;
    }
  }
  c.show("kernel", NAMES[k]);
  c.show("distance", d);
  c.show("sigma", s);
  c.show("target increase", t);
  const double l = free_derive(k, d, s, t);
  c.show("length scale", l);
  c.check(std::isfinite(l) && l > 0, "length scale isn't finite and positive");
  const double by_method = with_kernel(
      k, 1., 1., [&](const auto &kernel) { return kernel.derive_length_scale(d, s, t); });
  c.check(by_method == l, "derive_length_scale of the kernel");
  // no increase: (nearly) the longest length scale, too much: the shortest
  if (longest)
    c.check(l >= 1e6 * d, "not a long length scale");
  else
    c.check(l <= 1e-6 * d && increase(k, d, l) > 0.999999L, "not a short length scale");
}

PBT_CHECK(scaling_and_order, 120000, 300000, "both targets within 1% to 99% of sigma") {
  // the length scale scales with the distance, only depends on the ratio of
  // the increase to sigma, and decreases with it
  const int k = static_cast<int>(c.i(0, 3));
  const double d = c.logreal(1e-3, 1e3), s = c.logreal(1e-3, 1e3);
  double a = c.real(0.01, 0.99), b = c.real(0.01, 0.99);
  c.show("kernel", NAMES[k]);
  c.show("distance", d);
  c.show("sigma", s);
  c.show("ratio a", a);
  c.show("ratio b", b);
  c.nontrivial();
  const double la = free_derive(k, d, s, a * s), lb = free_derive(k, d, s, b * s);
  if (std::fabs(a - b) > 1e-9)
    c.check((a < b) == (la > lb), "smaller increases need longer length scales");
  const double f = std::ldexp(1., static_cast<int>(c.i(-20, 20)));
  c.near(free_derive(k, d * f, s, a * s), f * la, 1e-12, 0., "scaled distance");
  const double g = c.logreal(1e-6, 1e6);
  c.near(free_derive(k, d, s * g, a * s * g), la, 1e-9, 0., "scaled deviations");
  // cross check of two targets on one kernel: twice the distance never has
  // less process noise
  with_kernel(k, la, s, [&](const auto &kernel) {
    auto eval = [&](double x) { return kernel(0., x); };
    c.check(process_noise_equivalent(eval, 2 * d) >= process_noise_equivalent(eval, d) - 1e-12 * s,
            "process noise decreases with distance");
    return 0;
  });
}

namespace {
// Is it an even grid from the smallest to the largest feature which is as
// fine as (but not much finer than) documented: a tenth of the length scale
// for the squared exponential, a twentieth for the exponential.
void check_grid(pbt::Case &c, const std::vector<double> &grid, const std::vector<double> &xs,
                double length, double per_length, const std::string &what) {
  const double lo = *std::min_element(xs.begin(), xs.end());
  const double hi = *std::max_element(xs.begin(), xs.end());
  const double range = hi - lo, scale = std::fabs(lo) + std::fabs(hi);
  c.check(grid.size() >= 3, what + ": fewer than three points");
  c.near(grid.front(), lo, 0., 1e-12 * scale, what + ": starts at the smallest feature");
  c.near(grid.back(), hi, 0., 1e-12 * scale, what + ": ends at the largest feature");
  const double n = static_cast<double>(grid.size());
  const double wanted = std::max(3., per_length * range / length);
  c.check(n >= wanted * (1 - 1e-12), what + ": too coarse with " + pbt::str(n) + " points");
  c.check(n <= wanted + 2, what + ": too fine with " + pbt::str(n) + " points");
  const double step = range / (n - 1);
  for (std::size_t i = 0; i < grid.size(); ++i)
    c.near(grid[i], lo + static_cast<double>(i) * step, 0., 1e-12 * scale, what + ": even spacing");
  for (std::size_t i = 1; i < grid.size(); ++i)
    c.check(grid[i] >= grid[i - 1], what + ": not in order");
}

std::vector<double> draw_features(pbt::Case &c, double &length) {
  length = c.logreal(1e-2, 1e3);
  std::vector<double> xs(static_cast<std::size_t>(c.i(1, 12)));
  const double span = length * c.logreal(0.02, 30), at = c.coin() ? 0 : c.sym(10 * span);
  for (auto &x : xs)
    x = at + c.sym(span);
  if (c.chance(1, 10))
    std::fill(xs.begin(), xs.end(), xs[0]);
  return xs;
}
} // namespace

PBT_CHECK(state_space, 40000, 150000, "a grid of more than three points") {
  double l;
  const auto xs = draw_features(c, l);
  c.show("length scale", l);
  c.showv("features", xs);
  const double sigma = c.logreal(0.1, 10);
  SquaredExponential<Euclid> se(l, sigma);
  const double l2 = l * c.logreal(0.3, 3);
  Exponential<Euclid> ex(l2, sigma);

  const auto grid_se = se.state_space_representation(xs);
  check_grid(c, grid_se, xs, l, 10, "squared exponential");
  const auto grid_ex = ex.state_space_representation(xs);
  check_grid(c, grid_ex, xs, l2, 20, "exponential");
  c.nontrivial(grid_se.size() > 3 && grid_ex.size() > 3);
  // no coarser than the kernel's resolution
  for (std::size_t i = 1; i < grid_se.size() && grid_se.size() > 3; ++i) {
    const double n = static_cast<double>(grid_se.size());
    const double x = 0.1 * n / (n - 1);
    c.check(se(grid_se[i - 1], grid_se[i]) >= sigma * sigma * std::exp(-x * x) * (1 - 1e-9),
            "neighbouring points of the squared exponential are decorrelated");
  }
  for (std::size_t i = 1; i < grid_ex.size() && grid_ex.size() > 3; ++i) {
    const double n = static_cast<double>(grid_ex.size());
    const double x = 0.05 * n / (n - 1);
    c.check(ex(grid_ex[i - 1], grid_ex[i]) >= sigma * sigma * std::exp(-x) * (1 - 1e-9),
            "neighbouring points of the exponential are decorrelated");
  }

  // combinations hold the grids of the terms which have one, left to right
  std::vector<double> both = grid_se;
  both.insert(both.end(), grid_ex.begin(), grid_ex.end());
  std::vector<double> swapped = grid_ex;
  swapped.insert(swapped.end(), grid_se.begin(), grid_se.end());
  IndependentNoise<double> noise(0.3);
  Polynomial<1> poly(0.4);
  c.check((se + ex).state_space_representation(xs) == both, "sum");
  c.check((se * ex).state_space_representation(xs) == both, "product");
  c.check((ex + se).state_space_representation(xs) == swapped, "sum, swapped");
  c.check((ex * se).state_space_representation(xs) == swapped, "product, swapped");
  c.check((se + noise).state_space_representation(xs) == grid_se, "sum with noise");
  c.check((noise + se).state_space_representation(xs) == grid_se, "noise with sum");
  c.check((poly * ex).state_space_representation(xs) == grid_ex, "product, right");
  c.check((ex * poly).state_space_representation(xs) == grid_ex, "product, left");
  c.check((noise + poly * ex + se).state_space_representation(xs) == swapped, "nested");
  auto composed = poly * ex + (noise + se);
  c.check(composed.state_space_representation(xs) == swapped, "nested");

  // through a model, an inducing point strategy, and after a parameter change
  auto gp = gp_from_covariance(composed, "m");
  c.check(gp.state_space_representation(xs) == swapped, "of a Gaussian process");
  c.check(StateSpaceInducingPointStrategy()(composed, xs) == swapped, "inducing points");
  const double l3 = l * c.logreal(0.3, 3);
  gp.set_param_value("squared_exponential_length_scale", l3);
  const auto changed = gp.state_space_representation(xs);
  c.check(changed.size() > grid_ex.size(), "after a change");
  check_grid(c,
             std::vector<double>(changed.begin() + static_cast<std::ptrdiff_t>(grid_ex.size()),
                                 changed.end()),
             xs, l3, 10, "after a change");
}

PBT_CHECK(uniform_inducing_points, 8000, 80000, "more than two points over a range") {
  double l;
  const auto xs = draw_features(c, l);
  const auto n = static_cast<std::size_t>(c.i(2, 30));
  c.showv("features", xs);
  c.show("points", n);
  const double lo = *std::min_element(xs.begin(), xs.end());
  const double hi = *std::max_element(xs.begin(), xs.end());
  const double scale = std::fabs(lo) + std::fabs(hi);
  c.nontrivial(n > 2 && hi > lo);
  const auto grid = UniformlySpacedInducingPoints(n)(SquaredExponential<Euclid>(), xs);
  c.check(grid.size() == n, "number of inducing points");
  for (std::size_t i = 0; i < n; ++i)
    c.near(grid[i], lo + (hi - lo) * static_cast<double>(i) / static_cast<double>(n - 1), 0.,
           1e-12 * scale, "inducing point");
}
