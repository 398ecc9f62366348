// pbt:
#include <albatross/Common>
#include <albatross/Stats>
#include <albatross/utils/RandomUtils>
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/special_functions/legendre.hpp>
#include "pbt.hpp"

using namespace albatross;

namespace {

// P(chi squared with k degrees of freedom > x) is not absurdly small
void chi_ok(pbt::Case &c, double x, double k, const std::string &msg) {
  const double p =
      boost::math::cdf(boost::math::complement(boost::math::chi_squared(k), x));
  const double q = boost::math::cdf(boost::math::chi_squared(k), x);
  if (!(p > 1e-11) || !(q > 1e-11)) {
    std::ostringstream o;
    o << msg << ": chi squared " << x << " with " << k
      << " degrees of freedom, tail probability " << p;
    c.fail(o.str());
  }
}

std::default_random_engine gen_engine(pbt::Case &c) {
  const auto seed = static_cast<unsigned>(1 + c.i(0, 2147483000));
  std::default_random_engine e(seed);
  e.discard(5); // the first draws of this engine are proportional to the seed
  return e;
}

} // namespace

PBT_CHECK(gaussian_density, 3000000, 20000000,
          "deviation and variance over many magnitudes against the closed "
          "form in long double; non-trivial: the density is not 0.") {
  const double v = c.coin() ? c.logreal(1e-12, 1e12) : c.logreal(0.1, 10);
  const double d = c.coin() ? c.sym(8) * std::sqrt(v) : c.sym(30);
  c.note().precision(17);
  c.show("d", d).show("v", v);
  const long double lv = v, ld = d;
  const long double q = ld * ld / (2 * lv);
  const long double n = 0.5L * std::log(2 * static_cast<long double>(M_PI) * lv);
  const double log_ref = static_cast<double>(-q - n);
  c.near(gaussian::log_pdf(d, v), log_ref, 1e-14,
         1e-14 * (1 + static_cast<double>(q + std::fabs(n))), "log_pdf");
  const double ref = static_cast<double>(
      std::exp(-q) / std::sqrt(2 * static_cast<long double>(M_PI) * lv));
  c.near(gaussian::pdf(d, v), ref, 1e-13 * (1 + static_cast<double>(q)), 1e-300,
         "pdf");
  c.eq(gaussian::pdf(-d, v), gaussian::pdf(d, v), "pdf is even");
  c.nontrivial(ref > 0 && d != 0);
}

PBT_CHECK(ks_statistic, 500000, 3000000,
          "0-40 samples of [0,1] (ties, end points, sorted or not) against the "
          "supremum of |F_n - F| computed by counting; non-trivial: two or "
          "more distinct samples.") {
  const std::size_t n = c.usually(0, 40, 400);
  std::vector<double> xs;
  const long kind = c.i(0, 2);
  for (std::size_t i = 0; i < n; ++i)
    xs.push_back(kind == 0   ? c.real(0, 1)
                 : kind == 1 ? 0.125 * static_cast<double>(c.i(0, 8))
                             : c.logreal(1e-6, 1));
  c.showv("xs", xs);
  const auto before = xs;
  const double got = uniform_ks_test(xs);
  c.check(xs == before, "samples unmodified");
  double best = 0;
  for (const double x : xs) {
    double le = 0, lt = 0;
    for (const double y : xs) {
      le += y <= x;
      lt += y < x;
    }
    const double dn = static_cast<double>(n);
    best = std::max(best, std::max(std::fabs(le / dn - x),
                                   std::fabs(x - lt / dn)));
  }
  c.near(got, best, 1e-14, 1e-15, "statistic");
  auto p = c.permutation(n);
  std::vector<double> ys;
  for (auto i : p)
    ys.push_back(xs[i]);
  c.eq(uniform_ks_test(ys), got, "order does not matter");
  c.nontrivial(std::set<double>(xs.begin(), xs.end()).size() >= 2);
}

PBT_CHECK(quadrature, 150000, 600000,
          "the 50 point Gauss-Legendre table integrates random polynomials of "
          "degree at most 99 (in the Legendre basis) on a random interval "
          "exactly; non-trivial: degree above 10.") {
  const auto &x = details::gauss_legendre_50_points;
  const auto &w = details::gauss_legendre_50_weights;
  c.eq(x.size(), std::size_t(50), "points");
  c.eq(w.size(), std::size_t(50), "weights");
  const auto deg = static_cast<unsigned>(c.size(0, 99));
  c.show("degree", deg);
  double s = 0, s_power = 0, total = 0;
  for (std::size_t i = 0; i < 50; ++i) {
    c.check(w[i] > 0 && std::fabs(x[i]) < 1, "weights and points in range");
    s += w[i] * boost::math::legendre_p(static_cast<int>(deg), x[i]);
    s_power += w[i] * std::pow(x[i], static_cast<int>(deg));
    total += w[i];
  }
  c.near(total, 2, 1e-14, 0, "weights sum to the length of the interval");
  c.near(s, deg == 0 ? 2. : 0., 1e-13, 1e-13, "integral of Legendre polynomial");
  c.near(s_power, deg % 2 ? 0. : 2. / (deg + 1.), 1e-13, 1e-14,
         "integral of monomial");
  // a random smooth function
  const double a = c.sym(3), b = c.sym(3);
  double e = 0;
  for (std::size_t i = 0; i < 50; ++i)
    e += w[i] * std::exp(a * x[i]) * std::cos(b * x[i]);
  const double den = a * a + b * b;
  const auto prim = [&](double t) {
    return std::exp(a * t) * (a * std::cos(b * t) + b * std::sin(b * t)) / den;
  };
  if (den > 1e-4)
    c.near(e, prim(1) - prim(-1), 1e-10, 1e-11, "integral of exp(ax) cos(bx)");
  c.nontrivial(deg > 10);
}

PBT_CHECK(sampling_without_replacement_is_valid, 900000, 4000000,
          "n of [low, high] for every ratio n/size; distinct, ascending, in "
          "range, reproducible; and the same through a vector with repeats; "
          "non-trivial: 0 < n < population.") {
  const std::size_t m = 1 + c.size(0, 40);
  const std::size_t low =
      c.pick<std::size_t>({0, 0, 1, 3, 17, 1000000, (1ull << 40)});
  const std::size_t n = static_cast<std::size_t>(c.i(0, static_cast<long>(m)));
  auto e = gen_engine(c);
  const auto e0 = e;
  c.show("n", n).show("low", low).show("choices", m);
  const auto got = randint_without_replacement(n, low, low + m - 1, e);
  c.eq(got.size(), n, "number of samples");
  std::set<std::size_t> distinct(got.begin(), got.end());
  c.eq(distinct.size(), n, "distinct samples");
  for (auto g : got)
    c.check(g >= low && g <= low + m - 1, "in range");
  auto e1 = e0;
  c.check(randint_without_replacement(n, low, low + m - 1, e1) == got,
          "reproducible from the generator state");
  std::vector<long> xs;
  for (std::size_t i = 0; i < m; ++i)
    xs.push_back(c.i(0, 5));
  auto e2 = e0;
  const auto xs0 = xs;
  const auto sample = random_without_replacement(xs, n, e2);
  c.check(xs == xs0, "population unmodified");
  c.eq(sample.size(), n, "sample size");
  std::multiset<long> pool(xs.begin(), xs.end());
  for (auto v : sample) {
    auto it = pool.find(v);
    c.check(it != pool.end(), "sample is not drawn from what is left of the "
                              "population");
    pool.erase(it);
  }
  // with distinguishable elements, the elements come from distinct positions
  std::vector<std::size_t> ids(m);
  std::iota(ids.begin(), ids.end(), 100);
  auto e3 = e0;
  const auto s2 = random_without_replacement(ids, n, e3);
  c.eq(std::set<std::size_t>(s2.begin(), s2.end()).size(), n, "distinct");
  c.nontrivial(n > 0 && n < m);
}

PBT_CHECK(sampling_is_uniform, 1200, 8000,
          "n of m <= 6 drawn 1500 times from one generator: chi squared test "
          "of uniformity over all subsets; non-trivial: more than one "
          "subset.") {
  const std::size_t m = 2 + c.src.draw(4);
  const std::size_t n =
      1 + static_cast<std::size_t>(c.i(0, static_cast<long>(m) - 2));
  const std::size_t low = c.pick<std::size_t>({0, 5});
  auto e = gen_engine(c);
  c.show("n", n).show("m", m).show("low", low);
  std::map<std::set<std::size_t>, double> counts;
  const int draws = 1500;
  std::vector<std::size_t> xs(m);
  std::iota(xs.begin(), xs.end(), low);
  const bool through_vector = c.coin();
  for (int k = 0; k < draws; ++k) {
    const auto s = through_vector
                       ? random_without_replacement(xs, n, e)
                       : randint_without_replacement(n, low, low + m - 1, e);
    counts[std::set<std::size_t>(s.begin(), s.end())] += 1;
  }
  double subsets = 1;
  for (std::size_t k = 0; k < n; ++k)
    subsets = subsets * static_cast<double>(m - k) / static_cast<double>(k + 1);
  subsets = std::round(subsets);
  const double expected = draws / subsets;
  double chi = 0, seen = 0;
  for (const auto &p : counts) {
    chi += (p.second - expected) * (p.second - expected) / expected;
    seen += 1;
  }
  chi += (subsets - seen) * expected;
  const double p = boost::math::cdf(boost::math::complement(
      boost::math::chi_squared(subsets - 1), chi));
  std::ostringstream o;
  o << "subsets are not equally likely: chi squared " << chi << " over "
    << subsets << " subsets";
  c.check(p > 1e-11, o.str());
  c.nontrivial(subsets > 1);
}

PBT_CHECK(too_many_requested, 60, 600,
          "asking for more than the population is rejected; always "
          "non-trivial.") {
  const std::size_t m = 1 + c.size(0, 10), n = m + 1 + c.size(0, 5);
  auto e = gen_engine(c);
  c.show("n", n).show("m", m);
  c.check(pbt::rejects([&] { randint_without_replacement(n, 3, 3 + m - 1, e); }),
          "n larger than the population was accepted");
  c.nontrivial();
}

PBT_CHECK(gaussian_fills, 6000, 30000,
          "matrices and vectors of 200-900 entries filled with a given mean "
          "and standard deviation: chi squared test of sum and of squares, "
          "lag correlations; non-trivial: mean != 0 or sd != 1.") {
  const double mean = c.chance(1, 2) ? 0. : c.sym(100);
  const double sd = c.chance(1, 2) ? 1. : c.logreal(1e-3, 1e3);
  const Eigen::Index rows = 10 + c.i(0, 20), cols = 20 + c.i(0, 10);
  auto e = gen_engine(c);
  const auto e0 = e;
  c.show("mean", mean).show("sd", sd).show("rows", rows).show("cols", cols);
  Eigen::MatrixXd m(rows, cols);
  gaussian_fill(m, mean, sd, e);
  c.check(m.rows() == rows && m.cols() == cols, "shape kept");
  const Eigen::MatrixXd z = (m.array() - mean) / sd;
  const double n = static_cast<double>(z.size());
  const double s = z.sum() / std::sqrt(n);
  c.check(std::fabs(s) < 7.5, "mean of the filled matrix");
  chi_ok(c, z.array().square().sum(), n, "variance of the filled matrix");
  const double cov_rows =
      (z.topRows(rows - 1).array() * z.bottomRows(rows - 1).array()).sum() /
      std::sqrt(n);
  const double cov_cols =
      (z.leftCols(cols - 1).array() * z.rightCols(cols - 1).array()).sum() /
      std::sqrt(n);
  c.check(std::fabs(cov_rows) < 9 && std::fabs(cov_cols) < 9,
          "neighbouring entries are correlated");
  Eigen::MatrixXd again(rows, cols);
  auto e1 = e0;
  gaussian_fill(again, mean, sd, e1);
  c.check(again == m, "reproducible");
  Eigen::VectorXd v(300);
  gaussian_fill(v, e);
  chi_ok(c, v.squaredNorm(), 300, "standard normal fill variance");
  c.check(std::fabs(v.sum()) / std::sqrt(300.) < 7.5, "standard normal mean");
  c.nontrivial(mean != 0 || sd != 1);
}

PBT_CHECK(random_covariances, 150000, 600000,
          "random_covariance_matrix for sizes 1-12: symmetric, positive "
          "definite, eigen values from the given distribution's range, "
          "reproducible; non-trivial: size >= 2.") {
  const Eigen::Index k = 1 + static_cast<Eigen::Index>(c.size(0, 11));
  auto e = gen_engine(c);
  auto e1 = e, e2 = e;
  c.show("k", k);
  const Eigen::MatrixXd m = random_covariance_matrix(k, e);
  c.check(m.rows() == k && m.cols() == k, "shape");
  const double tr = m.trace();
  c.near_mat(m, Eigen::MatrixXd(m.transpose()), 1e-13, "symmetric");
  const Eigen::VectorXd ev =
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(m).eigenvalues();
  c.check(ev.minCoeff() >= -1e-12 * (1 + tr), "positive semi definite");
  c.check(tr > 0, "not zero");
  c.check(random_covariance_matrix(k, e1) == m, "reproducible");
  const double lo = c.logreal(1e-3, 10), hi = lo * (1 + c.real(0, 5));
  std::uniform_real_distribution<double> dist(lo, hi);
  const Eigen::MatrixXd b = random_covariance_matrix(k, dist, e2);
  const Eigen::VectorXd eb =
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(b).eigenvalues();
  c.check(eb.minCoeff() >= lo * (1 - 1e-10) - 1e-12 * hi &&
              eb.maxCoeff() <= hi * (1 + 1e-10),
          "eigen values follow the given distribution");
  c.nontrivial(k >= 2);
}

PBT_CHECK(multivariate_normal_samples, 3000, 15000,
          "400 samples of a random N(mean, covariance) of dimension 1-5, "
          "whitened: chi squared tests of means, variances and "
          "cross-correlations; non-trivial: dimension >= 2.") {
  const Eigen::Index k = 1 + c.i(0, 4);
  Eigen::MatrixXd a(k, k);
  for (Eigen::Index i = 0; i < k; ++i)
    for (Eigen::Index j = 0; j < k; ++j)
      a(i, j) = c.sym(2);
  const Eigen::MatrixXd cov =
      a * a.transpose() +
      Eigen::MatrixXd(Eigen::VectorXd::Constant(k, c.logreal(1e-2, 1))
                          .asDiagonal());
  Eigen::VectorXd mean(k);
  for (Eigen::Index i = 0; i < k; ++i)
    mean[i] = c.sym(20);
  auto e = gen_engine(c);
  const bool no_mean = c.chance(1, 4);
  if (no_mean)
    mean.setZero();
  c.show("cov", cov).show("mean", mean.transpose());
  auto e0 = e;
  const int n = 400;
  Eigen::MatrixXd z(k, n);
  const Eigen::LLT<Eigen::MatrixXd> llt(cov);
  for (int s = 0; s < n; ++s) {
    const Eigen::VectorXd x = no_mean
                                  ? random_multivariate_normal(cov, e)
                                  : random_multivariate_normal(mean, cov, e);
    c.eq(x.size(), k, "sample size");
    if (s == 0)
      c.check((no_mean ? random_multivariate_normal(cov, e0)
                       : random_multivariate_normal(mean, cov, e0)) == x,
              "reproducible");
    z.col(s) = llt.matrixL().solve(x - mean);
  }
  chi_ok(c, z.rowwise().sum().squaredNorm() / n, static_cast<double>(k),
         "sample mean");
  for (Eigen::Index i = 0; i < k; ++i) {
    chi_ok(c, z.row(i).squaredNorm(), n, "variance of a whitened component");
    for (Eigen::Index j = 0; j < i; ++j)
      c.check(std::fabs(z.row(i).dot(z.row(j))) / std::sqrt(double(n)) < 9,
              "whitened components are correlated");
  }
  c.nontrivial(k >= 2);
}

PBT_CHECK(linspace_grids, 600000, 3000000,
          "end points over many magnitudes, 1-200 points: size, first and "
          "last point, even spacing, order; non-trivial: 3 or more points.") {
  const std::size_t n = 1 + c.size(0, 199);
  const double a = c.coin() ? c.sym(10) : c.sym(1e8);
  const double b = c.chance(1, 8) ? a : (c.coin() ? c.sym(10) : c.sym(1e8));
  c.note().precision(17);
  c.show("a", a).show("b", b).show("n", n);
  const auto xs = linspace(a, b, n);
  c.eq(xs.size(), n, "size");
  c.eq(xs.front(), a, "first point");
  const double scale = 1 + std::fabs(a) + std::fabs(b);
  if (n >= 2) {
    c.near(xs.back(), b, 0, 1e-13 * scale * static_cast<double>(n), "last");
    for (std::size_t i = 0; i < n; ++i) {
      const double f = static_cast<double>(i) / static_cast<double>(n - 1);
      c.near(xs[i], a + (b - a) * f, 0, 1e-13 * scale * static_cast<double>(n),
             "evenly spaced");
    }
  }
  c.nontrivial(n >= 3 && a != b);
}

PBT_CHECK(sparse_samples, 150000, 500000,
          "random sparse matrices: shape, number of entries, range, "
          "reproducible, symmetric use of rows and columns; non-trivial: "
          "neither empty nor full.") {
  const Eigen::Index r = 1 + c.i(0, 9), k = 1 + c.i(0, 9);
  const double fill = c.real(0, 1);
  const double lo = c.sym(100), hi = lo + c.real(0, 100);
  auto e = gen_engine(c);
  auto e1 = e;
  c.show("rows", r).show("cols", k).show("fill", fill);
  const auto m = random_sparse_matrix<double>(r, k, fill, e, lo, hi);
  c.check(m.rows() == r && m.cols() == k, "shape");
  const double want =
      std::floor(static_cast<double>(r) * static_cast<double>(k) * fill);
  c.check(std::fabs(static_cast<double>(m.nonZeros()) - want) <= 1, "fill");
  Eigen::Index nnz = 0;
  for (Eigen::Index j = 0; j < m.outerSize(); ++j)
    for (Eigen::SparseMatrix<double>::InnerIterator it(m, j); it; ++it, ++nnz)
      c.check(it.value() >= lo && it.value() <= hi, "range");
  const auto m1 = random_sparse_matrix<double>(r, k, fill, e1, lo, hi);
  c.check(Eigen::MatrixXd(m) == Eigen::MatrixXd(m1), "reproducible");
  c.nontrivial(nnz > 0 && nnz < r * k);
}
