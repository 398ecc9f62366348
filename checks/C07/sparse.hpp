// Dense reference for sparse Gaussian processes in long double.
#ifndef VERIF_C07_SPARSE_HPP
#define VERIF_C07_SPARSE_HPP
#include "gpref.hpp"
#include <albatross/SparseGP>

namespace c07 {
using namespace gpref;

struct FixedPoints { // inducing points chosen by the check
  std::vector<double> points;
  template <typename Cov>
  std::vector<double> operator()(const Cov &, const std::vector<double> &) const { return points; }
};

struct Bucket { // by position
  double width = 2;
  long operator()(const double &x) const { return static_cast<long>(std::floor(x / width)); }
};
struct Together {
  int operator()(const double &) const { return 0; }
};

// the groups a grouper makes, as plain lists
inline std::vector<std::vector<std::size_t>> groups_of(const Bucket &g, const std::vector<double> &x) {
  std::map<long, std::vector<std::size_t>> out;
  for (std::size_t i = 0; i < x.size(); ++i)
    out[static_cast<long>(std::floor(x[i] / g.width))].push_back(i);
  std::vector<std::vector<std::size_t>> lists;
  for (const auto &p : out)
    lists.push_back(p.second);
  return lists;
}
inline std::vector<std::vector<std::size_t>> groups_of(const Together &, const std::vector<double> &x) {
  std::vector<std::size_t> all;
  for (std::size_t i = 0; i < x.size(); ++i)
    all.push_back(i);
  return {all};
}
inline std::vector<std::vector<std::size_t>> groups_of(const LeaveOneOutGrouper &, const std::vector<double> &x) {
  std::vector<std::vector<std::size_t>> out;
  for (std::size_t i = 0; i < x.size(); ++i)
    out.push_back({i});
  return out;
}

inline double largest(const MatL &m) {
  return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(m.cast<double>(), Eigen::EigenvaluesOnly).eigenvalues().maxCoeff();
}
inline double smallest(const MatL &m) {
  return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(m.cast<double>(), Eigen::EigenvaluesOnly).eigenvalues().minCoeff();
}

// What is known after a sequence of operations: the function at the inducing
// points is N(K v, K M^-1 K) and everything else is conditioned on it.
template <typename Model> struct State {
  const Model &model;
  std::vector<double> u;
  MatL kuu;  // explains the function elsewhere
  MatL m;    // K_uu + sum of K_uf A^-1 K_fu
  VecL b, v; // sum of K_uf A^-1 r, M^-1 b
  LD seen = 0;     // r^T A^-1 r
  double e = 0;    // relative rounding so far
  LD log_det_a = 0, count = 0;
  LD nugget, inducing_nugget;

  State(const Model &mod, const std::vector<double> &points) : model(mod), u(points) {
    const auto params = model.get_params();
    nugget = params.at("measurement_nugget").value;
    inducing_nugget = params.at("inducing_nugget").value;
    kuu = pairwise(model.get_covariance(), u, u);
    kuu.diagonal().array() += inducing_nugget;
    m = kuu;
    b = v = VecL::Zero(m.rows());
    const double lo = smallest(kuu);
    e = lo > 0 ? 1e-15 * static_cast<double>(m.rows() + 1) * largest(kuu) / lo : 1e300;
  }

  void observe(const std::vector<double> &x, const MarginalDistribution &y,
               const std::vector<std::vector<std::size_t>> &groups) {
    const auto cov = model.get_covariance();
    MatL k = pairwise(cov, u, u); // an update adds the nugget again
    k.diagonal().array() += inducing_nugget;
    const Eigen::LLT<MatL> kllt(k);
    const double klo = smallest(k), kcond = klo > 0 ? largest(k) / klo : 1e300;
    for (const auto &g : groups) {
      std::vector<double> f;
      for (const auto i : g)
        f.push_back(x[i]);
      const auto meas = as_measurements(f);
      MatL a = pairwise(cov, meas, meas);
      const double scale = static_cast<double>(a.diagonal().maxCoeff());
      VecL r = -means(model.get_mean(), meas);
      for (std::size_t i = 0; i < g.size(); ++i) {
        a(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(i)) += y.covariance.diagonal()[static_cast<Eigen::Index>(g[i])] + nugget;
        r[static_cast<Eigen::Index>(i)] += y.mean[static_cast<Eigen::Index>(g[i])];
      }
      const MatL kfu = pairwise(cov, meas, u);
      a -= kfu * kllt.solve(MatL(kfu.transpose()));
      const double lo = smallest(a);
      if (!(lo > 0)) {
        e = 1e300;
        return;
      }
      e += 1e-15 * static_cast<double>(g.size() + u.size()) * (scale * kcond + largest(a)) / lo;
      const Eigen::LLT<MatL> allt(a);
      m += kfu.transpose() * allt.solve(kfu);
      b += kfu.transpose() * allt.solve(r);
      seen += r.dot(allt.solve(r));
      const MatL l = allt.matrixL();
      for (Eigen::Index i = 0; i < l.rows(); ++i)
        log_det_a += 2 * std::log(l(i, i));
      count += static_cast<LD>(l.rows());
    }
    finish();
  }

  void finish() {
    const double lo = smallest(m);
    e += lo > 0 ? 1e-15 * static_cast<double>(m.rows()) * std::sqrt(largest(m) / lo) : 1e300;
    v = m.llt().solve(b);
  }

  // only what a joint prediction at these points says is kept
  void rebase(const std::vector<double> &z, const VecL &mean, MatL cov) {
    u = z;
    kuu = pairwise(model.get_covariance(), u, u);
    cov.diagonal().array() += 1e-8L;
    const Eigen::LLT<MatL> kllt(kuu);
    v = kllt.solve(mean - means(model.get_mean(), u));
    m = kuu * cov.llt().solve(kuu);
    b = m * v;
    seen = b.dot(v);
    const double klo = smallest(kuu), clo = smallest(cov), mlo = smallest(m);
    e = klo > 0 && clo > 0 && mlo > 0
            ? 4 * e + 1e-15 * static_cast<double>(m.rows() + 1) * (largest(kuu) / klo + largest(cov) / clo + std::sqrt(largest(m) / mlo))
            : 1e300;
  }

  template <typename T> Answer predict(const std::vector<T> &x) const {
    const auto cov = model.get_covariance();
    const MatL cross = pairwise(cov, u, x), prior = pairwise(cov, x, x);
    const Eigen::LLT<MatL> kllt(kuu), mllt(m);
    const MatL s = mllt.matrixL().solve(cross);
    Answer a;
    a.mean = means(model.get_mean(), x) + cross.transpose() * v;
    a.cov = prior - cross.transpose() * kllt.solve(cross) + s.transpose() * s;
    const double known = static_cast<double>(sqrtl(fabsl(seen))) + static_cast<double>(sqrtl(fabsl(v.dot(m * v))));
    a.mean_tol = 20 * e * (static_cast<double>(s.norm()) * known + static_cast<double>(cross.norm() * v.norm()) * 1e-1) +
                 1e-12 * (1e-2 + static_cast<double>(a.mean.norm() + cross.norm() * v.norm()));
    a.cov_tol = 20 * e * static_cast<double>(prior.norm() + s.squaredNorm()) + 1e-12 * (1e-2 + static_cast<double>(prior.norm()));
    return a;
  }

  // log density of everything observed under N(m, A + Q), K_uu being the prior
  LD log_density() const {
    const auto log_det = [](const MatL &x) {
      const MatL l = x.llt().matrixL();
      LD sum = 0;
      for (Eigen::Index i = 0; i < l.rows(); ++i)
        sum += 2 * std::log(l(i, i));
      return sum;
    };
    return -(log_det(m) - log_det(kuu) + log_det_a + seen - b.dot(v) + count * std::log(2 * acosl(-1.0L))) / 2;
  }
  double log_density_tol() const {
    return 1e-10 + 50 * e * static_cast<double>(count + static_cast<LD>(m.rows()) + 2 * seen);
  }
};

template <typename P>
void check_sparse(pbt::Case &c, const P &prediction, const Answer &want, const std::string &what) {
  check_prediction(c, prediction, want, what);
}

// distinct positions with some distance between them
inline std::vector<double> spaced(pbt::Case &c, std::size_t n, double lo = -8, double step = 1.) {
  std::vector<double> out;
  double at = lo + c.real(0, 4);
  for (std::size_t i = 0; i < n; ++i) {
    out.push_back(at);
    at += step * (1 + c.real(0, 2));
  }
  return out;
}

template <typename Model> void nuggets(pbt::Case &c, Model *model) {
  if (c.chance(3, 4)) {
    model->set_param_value("measurement_nugget", c.logreal(1e-8, 1e-1));
    model->set_param_value("inducing_nugget", c.logreal(1e-8, 1e-1));
  }
  for (const auto &p : model->get_params())
    c.show(p.first, p.second.value);
}

template <typename Model> double log_prior(const Model &m) {
  double sum = 0;
  for (const auto &p : m.get_params())
    sum += p.second.prior_log_likelihood();
  return sum;
}

// parameters other than the nuggets
template <typename Model> void randomize_sparse(pbt::Case &c, Model *m) {
  const auto before = m->get_params();
  randomize(c, m);
  m->set_param("measurement_nugget", before.at("measurement_nugget"));
  m->set_param("inducing_nugget", before.at("inducing_nugget"));
  nuggets(c, m);
}

inline auto noisy_smooth() {
  return SquaredExponential<EuclideanDistance>(2., 1.5) + measurement_only(IndependentNoise<double>(0.3));
}
inline auto rough() {
  return Matern52<EuclideanDistance>(3., 1.) + Exponential<EuclideanDistance>(1., 0.5) + IndependentNoise<double>(0.2);
}

} // namespace c07
#endif
