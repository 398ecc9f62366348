// pbt:
#include <albatross/CovarianceFunctions>
#include "gen.hpp"

using namespace albatross;

namespace {
using Vec = Eigen::VectorXd;
typedef long double LD;

// ------------------------------------------------------------- references
struct Distance {
  LD d;
  double err; // how far off a careful double computation may be
};

Distance euclid(double x, double y) {
  const LD d = fabsl(static_cast<LD>(x) - y);
  return {d, static_cast<double>(d) * 4e-16};
}
LD norm(const Vec &x) {
  LD s = 0;
  for (Eigen::Index i = 0; i < x.size(); ++i)
    s += static_cast<LD>(x[i]) * x[i];
  return sqrtl(s);
}
Distance euclid(const Vec &x, const Vec &y) {
  LD s = 0;
  for (Eigen::Index i = 0; i < x.size(); ++i) {
    const LD t = static_cast<LD>(x[i]) - y[i];
    s += t * t;
  }
  return {sqrtl(s), static_cast<double>(sqrtl(s)) * 2e-15};
}
Distance radial(const Vec &x, const Vec &y) {
  return {fabsl(norm(x) - norm(y)), static_cast<double>(norm(x) + norm(y)) * 2e-15};
}
Distance angular(const Vec &x, const Vec &y) {
  // 2 atan2(|u - v|, |u + v|) of the unit vectors
  const LD nx = norm(x), ny = norm(y);
  LD m = 0, p = 0;
  for (Eigen::Index i = 0; i < x.size(); ++i) {
    const LD u = x[i] / nx, v = y[i] / ny;
    m += (u - v) * (u - v);
    p += (u + v) * (u + v);
  }
  const LD d = 2 * atan2l(sqrtl(m), sqrtl(p));
  const double s = std::fabs(std::sin(static_cast<double>(d)));
  return {d, std::min(1e-7, 1e-14 / std::max(s, 1e-300))};
}

enum Form { SE, EXP, M32, M52 };
LD form(Form f, LD d, LD l, LD sigma) {
  if (l <= 0)
    return 0;
  const LD z = d / l;
  switch (f) {
  case SE:
    return sigma * sigma * expl(-z * z);
  case EXP:
    return sigma * sigma * expl(-z);
  case M32:
    return sigma * sigma * (1 + sqrtl(3) * z) * expl(-sqrtl(3) * z);
  case M52:
    return sigma * sigma * (1 + sqrtl(5) * z + 5 * z * z / 3) * expl(-sqrtl(5) * z);
  }
  return 0;
}
// tolerance of form(d) given an error of the distance
double slack(Form f, const Distance &d, double l, double sigma) {
  const double ref = static_cast<double>(form(f, d.d, l, sigma));
  const double z = static_cast<double>(d.d) / l;
  const double rel = 1e-14 + 4e-16 * (1 + z * z + 3 * z);
  const double slope = 3 * sigma * sigma / l * d.err;
  return ref * rel + slope + 1e-300;
}

double feature(pbt::Case &c) {
  switch (c.i(0, 4)) {
  case 0:
    return static_cast<double>(c.i(-3, 3));
  case 1:
    return c.sym(1e-6);
  case 2:
    return c.sym(1e6);
  default:
    return c.sym(5);
  }
}
template <typename T> T make(pbt::Case &c, Eigen::Index dim);
template <> double make<double>(pbt::Case &c, Eigen::Index) { return feature(c); }
template <> Vec make<Vec>(pbt::Case &c, Eigen::Index dim) {
  const double scale = c.pick<double>({1., 1., 1., 1e-3, 1e3});
  Vec v = gen::vec(c, dim, 2 * scale);
  if (v.norm() == 0)
    v[0] = scale;
  return v;
}
template <typename T> std::vector<T> make_set(pbt::Case &c, std::size_t n, Eigen::Index dim) {
  std::vector<T> xs;
  for (std::size_t i = 0; i < n; ++i) {
    if (!xs.empty() && c.chance(1, 5)) // duplicates
      xs.push_back(xs[c.src.draw(xs.size() - 1)]);
    else
      xs.push_back(make<T>(c, dim));
  }
  return xs;
}

// sets a parameter by name to a fresh value; the other ones stay as they were
template <typename Cov>
double set_by_name(pbt::Case &c, Cov *cov, const std::string &name, double v) {
  const auto before = cov->get_params();
  c.check(before.count(name) == 1, "has a parameter " + name);
  switch (c.i(0, 2)) {
  case 0:
    cov->set_param_value(name, v);
    break;
  case 1:
    cov->set_param(name, Parameter{v, before.at(name).prior});
    break;
  default: {
    ParameterStore all = before;
    all.at(name).value = v;
    cov->set_params(all);
  }
  }
  const auto after = cov->get_params();
  c.eq(after.size(), before.size(), "number of parameters");
  for (const auto &kv : after)
    c.eq(kv.second.value, kv.first == name ? v : before.at(kv.first).value, "value of " + kv.first);
  return v;
}

double min_eig(const Eigen::MatrixXd &k) {
  return k.rows() == 0 ? 0. : Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(k, Eigen::EigenvaluesOnly).eigenvalues()[0];
}

template <typename Cov, typename T, typename Ref>
void check_set(pbt::Case &c, const Cov &cov, const std::vector<T> &xs,
               const std::vector<T> &ys, Ref ref, double sigma2, double jitter = 0) {
  const auto n = static_cast<Eigen::Index>(xs.size()), m = static_cast<Eigen::Index>(ys.size());
  const Eigen::MatrixXd k = cov(xs), kc = cov(xs, ys), kct = cov(ys, xs);
  const Eigen::VectorXd d = cov.diagonal(xs);
  c.eq(k.rows(), n, "rows");
  c.eq(k.cols(), n, "cols");
  c.eq(kc.rows(), n, "cross rows");
  c.eq(kc.cols(), m, "cross cols");
  c.eq(d.size(), n, "diagonal size");
  for (Eigen::Index i = 0; i < n; ++i) {
    const auto si = static_cast<std::size_t>(i);
    for (Eigen::Index j = 0; j < n; ++j) {
      const auto sj = static_cast<std::size_t>(j);
      const auto r = ref(xs[si], xs[sj]);
      c.near(cov(xs[si], xs[sj]), static_cast<double>(r.first), r.second, "value of the pair");
      c.near(k(i, j), static_cast<double>(r.first), r.second, "entry of the matrix");
      c.eq(k(i, j), k(j, i), "symmetric matrix");
      c.near(cov(xs[sj], xs[si]), static_cast<double>(r.first), r.second, "value of the swapped pair");
    }
    c.eq(d[i], k(i, i), "diagonal");
    for (Eigen::Index j = 0; j < m; ++j) {
      const auto r = ref(xs[si], ys[static_cast<std::size_t>(j)]);
      c.near(kc(i, j), static_cast<double>(r.first), r.second, "entry of the cross matrix");
      c.near(kct(j, i), static_cast<double>(r.first), r.second, "entry of the swapped cross matrix");
    }
  }
  c.check(min_eig(k) >= -1e-12 * static_cast<double>(n + 1) * sigma2 - jitter,
          "smallest eigenvalue " + pbt::str(min_eig(k)) + " of a covariance with scale " + pbt::str(sigma2));
}

template <template <class> class Cov, class Metric, typename T, typename D>
void radial_kernel(pbt::Case &c, Form f, const std::string &length_name,
                   const std::string &sigma_name, D dist, bool vectors) {
  Cov<Metric> cov;
  const bool ctor = c.chance(1, 3);
  double l = c.chance(1, 12) ? 1. : c.logreal(1e-3, 1e4);
  double s = c.chance(1, 12) ? 0. : c.logreal(1e-2, 1e2);
  if (ctor)
    cov = Cov<Metric>(l, s);
  else {
    set_by_name(c, &cov, length_name, l);
    set_by_name(c, &cov, sigma_name, s);
  }
  if (c.chance(1, 20)) { // a collapsed length scale switches the term off
    l = c.pick<double>({0., -1.});
    cov.set_param_value(length_name, l);
  }
  c.show("length_scale", l).show("sigma", s);
  const Eigen::Index dim = vectors ? c.i(1, 4) : 1;
  const auto xs = make_set<T>(c, c.usually(0, 5, 40), dim), ys = make_set<T>(c, c.usually(0, 3, 40), dim);
  double jitter = 0;
  const auto ref = [&](const T &x, const T &y) {
    const Distance d = dist(x, y);
    const double tol = l > 0 ? slack(f, d, l, s) : 0.;
    return std::make_pair(form(f, d.d, l, s), tol);
  };
  for (const T &x : xs)
    for (const T &y : xs)
      jitter += 3 * ref(x, y).second;
  check_set(c, cov, xs, ys, ref, s * s, jitter);
  // values never exceed the variance
  for (const T &x : xs)
    for (const T &y : ys) {
      const double k = cov(x, y);
      c.check(k >= 0 && k <= s * s * (1 + 1e-15), "between zero and the variance");
    }
  c.nontrivial(xs.size() > 1 && s > 0 && l > 0);
}
} // namespace

#define RADIAL(NAME, COV, METRIC, T, FORM, L, S, DIST, V)                      \
  PBT_CHECK(NAME, 150000, 1500000, "at least two features") {                  \
    radial_kernel<COV, METRIC, T>(                                             \
        c, FORM, L, S, [](const T &x, const T &y) { return DIST(x, y); }, V);  \
  }
RADIAL(squared_exponential, SquaredExponential, EuclideanDistance, double, SE, "squared_exponential_length_scale", "sigma_squared_exponential", euclid, false)
RADIAL(exponential, Exponential, EuclideanDistance, double, EXP, "exponential_length_scale", "sigma_exponential", euclid, false)
RADIAL(matern_32, Matern32, EuclideanDistance, double, M32, "matern_32_length_scale", "sigma_matern_32", euclid, false)
RADIAL(matern_52, Matern52, EuclideanDistance, double, M52, "matern_52_length_scale", "sigma_matern_52", euclid, false)
RADIAL(squared_exponential_vectors, SquaredExponential, EuclideanDistance, Vec, SE, "squared_exponential_length_scale", "sigma_squared_exponential", euclid, true)
RADIAL(matern_32_vectors, Matern32, EuclideanDistance, Vec, M32, "matern_32_length_scale", "sigma_matern_32", euclid, true)
RADIAL(matern_52_vectors, Matern52, EuclideanDistance, Vec, M52, "matern_52_length_scale", "sigma_matern_52", euclid, true)
RADIAL(squared_exponential_radial, SquaredExponential, RadialDistance, Vec, SE, "squared_exponential_length_scale", "sigma_squared_exponential", radial, true)
RADIAL(matern_52_radial, Matern52, RadialDistance, Vec, M52, "matern_52_length_scale", "sigma_matern_52", radial, true)
RADIAL(exponential_angular, Exponential, AngularDistance, Vec, EXP, "exponential_length_scale", "sigma_exponential", angular, true)

PBT_CHECK(distances, 300000, 3000000, "different points") {
  const Eigen::Index dim = c.i(1, 4);
  const auto xs = make_set<Vec>(c, 1 + c.size(0, 4), dim);
  const Eigen::MatrixXd de = distance_matrix(EuclideanDistance(), xs),
                        dr = distance_matrix(RadialDistance(), xs),
                        da = distance_matrix(AngularDistance(), xs);
  for (std::size_t i = 0; i < xs.size(); ++i)
    for (std::size_t j = 0; j < xs.size(); ++j) {
      const auto ii = static_cast<Eigen::Index>(i), jj = static_cast<Eigen::Index>(j);
      const auto check = [&](const Eigen::MatrixXd &m, const Distance &d, const std::string &w) {
        c.near(m(ii, jj), static_cast<double>(d.d), d.err, w);
        c.check(m(ii, jj) >= 0, w + " is not negative");
      };
      check(de, euclid(xs[i], xs[j]), "euclidean");
      check(dr, radial(xs[i], xs[j]), "radial");
      check(da, angular(xs[i], xs[j]), "angular");
      c.check(da(ii, jj) <= M_PI, "angle of at most pi");
    }
  // an angle does not depend on the lengths, opposite points are pi apart
  const Vec flipped = -3. * xs[0];
  c.near(AngularDistance()(xs[0], flipped), M_PI, 1e-7, "opposite");
  c.near(AngularDistance()(xs[0], Vec(2. * xs[0])), 0., 1e-7, "parallel");
  const Eigen::Vector3d a3 = Eigen::Vector3d::Constant(1.), b3(c.sym(2), c.sym(2), 1.);
  c.near(EuclideanDistance()(a3, b3), static_cast<double>(euclid(Vec(a3), Vec(b3)).d), 1e-14, "fixed size vectors");
  c.near(AngularDistance()(a3, b3), static_cast<double>(angular(Vec(a3), Vec(b3)).d), angular(Vec(a3), Vec(b3)).err, "fixed size vectors");
  c.nontrivial(xs.size() > 1);
}

namespace {
template <int order> void polynomial(pbt::Case &c) {
  Polynomial<order> cov(c.pick<double>({1., 100.}));
  std::vector<double> sigma(order + 1, cov.get_params().begin()->second.value);
  for (int i = 0; i <= order; ++i)
    if (c.coin())
      sigma[static_cast<std::size_t>(i)] =
          set_by_name(c, &cov, "sigma_polynomial_" + std::to_string(i), c.chance(1, 6) ? 0. : c.logreal(1e-2, 10));
  c.eq(cov.get_params().size(), static_cast<std::size_t>(order + 1), "one parameter per degree");
  const auto xs = make_set<double>(c, c.size(0, 5), 1), ys = make_set<double>(c, c.size(0, 3), 1);
  c.showv("sigma", sigma).showv("xs", xs);
  double scale = 0;
  const auto ref = [&](double x, double y) {
    LD sum = 0, mag = 0;
    for (int i = 0; i <= order; ++i) {
      LD t = static_cast<LD>(sigma[static_cast<std::size_t>(i)]) * sigma[static_cast<std::size_t>(i)];
      for (int k = 0; k < i; ++k)
        t *= static_cast<LD>(x) * y;
      sum += t;
      mag += fabsl(t);
    }
    return std::make_pair(sum, static_cast<double>(mag) * 1e-14 + 1e-300);
  };
  for (double x : xs)
    scale = std::max(scale, static_cast<double>(ref(x, x).first));
  check_set(c, cov, xs, ys, ref, 100 * scale);
  c.nontrivial(xs.size() > 1);
}
} // namespace
PBT_CHECK(polynomials, 400000, 4000000, "at least two features") {
  switch (c.i(0, 4)) {
  case 0: polynomial<0>(c); break;
  case 1: polynomial<1>(c); break;
  case 2: polynomial<2>(c); break;
  case 3: polynomial<3>(c); break;
  default: polynomial<5>(c);
  }
}

PBT_CHECK(constant_noise_and_nugget, 400000, 4000000, "at least two features") {
  const double s = c.chance(1, 8) ? 0. : c.logreal(1e-5, 1e3);
  c.show("sigma", s);
  const auto xs = make_set<double>(c, c.size(0, 6), 1), ys = make_set<double>(c, c.size(0, 3), 1);
  const auto var = std::make_pair(static_cast<LD>(s) * s, s * s * 1e-15);
  const auto flat = [&](auto &&, auto &&) { return var; };
  const auto same = [&](const auto &x, const auto &y) { return x == y ? var : std::make_pair(LD(0), 0.); };
  switch (c.i(0, 4)) {
  case 0: {
    Constant cov(c.coin() ? s : 1.);
    set_by_name(c, &cov, "sigma_constant", s);
    check_set(c, cov, xs, ys, flat, s * s);
    break;
  }
  case 1: {
    IndependentNoise<double> cov(c.coin() ? s : 1.);
    set_by_name(c, &cov, "sigma_independent_noise", s);
    check_set(c, cov, xs, ys, same, s * s);
    break;
  }
  case 2: {
    Nugget cov;
    set_by_name(c, &cov, "nugget_sigma", s);
    check_set(c, cov, xs, ys, same, s * s);
    break;
  }
  case 3: { // any type with an equality
    std::vector<std::string> us, vs;
    const std::size_t n = c.size(0, 5), m = c.size(0, 3);
    for (std::size_t i = 0; i < n; ++i)
      us.push_back(c.str(2));
    for (std::size_t i = 0; i < m; ++i)
      vs.push_back(c.chance(1, 3) && n ? us[0] : c.str(2));
    IndependentNoise<std::string> cov(s);
    check_set(c, cov, us, vs, same, s * s);
    Constant flat_cov(s);
    check_set(c, flat_cov, us, vs, flat, s * s);
    break;
  }
  default: { // sums of them
    SquaredExponential<EuclideanDistance> se(1., 2.);
    Nugget nugget;
    nugget.set_param_value("nugget_sigma", s);
    const auto cov = se + nugget;
    check_set(c, cov, xs, ys,
              [&](double x, double y) {
                const Distance d = euclid(x, y);
                return std::make_pair(form(SE, d.d, 1, 2) + (x == y ? var.first : 0), slack(SE, d, 1, 2) + var.second * 4);
              },
              4 + s * s, 1e-10);
  }
  }
  c.nontrivial(xs.size() > 1);
}

// with a pool of any size, bit for bit
PBT_CHECK_N(pools, 6000, 60000, 30, "several features and threads") {
  ThreadPool pool(c.size(1, 7));
  Matern32<EuclideanDistance> m(c.logreal(0.1, 10), c.logreal(0.1, 10));
  Polynomial<2> p(1.);
  IndependentNoise<double> noise(0.3);
  const auto cov = m * p + noise;
  const auto xs = make_set<double>(c, c.usually(0, 30, 150), 1), ys = make_set<double>(c, c.usually(0, 30, 150), 1);
  c.show("threads", pool.thread_count()).show("n", xs.size()).show("m", ys.size());
  c.check(cov(xs, &pool) == cov(xs), "threaded covariance");
  c.check(cov(xs, ys, &pool) == cov(xs, ys), "threaded cross covariance");
  LinearMean mean;
  mean.set_param_value("slope", c.sym(3));
  mean.set_param_value("offset", c.sym(3));
  const Eigen::VectorXd mu = mean(xs);
  c.eq(static_cast<std::size_t>(mu.size()), xs.size(), "mean size");
  for (std::size_t i = 0; i < xs.size(); ++i)
    c.near(mu[static_cast<Eigen::Index>(i)], mean.get_param_value("slope") * xs[i] + mean.get_param_value("offset"),
           1e-14 * (1 + std::fabs(xs[i]) * 3), "linear mean");
  c.nontrivial(xs.size() > 1 && pool.thread_count() > 1);
}
