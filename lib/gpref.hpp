// Reference Gaussian process in long double arithmetic: dense conditioning on
// covariances and means which are evaluated one pair of features at a time.
#ifndef VERIF_GPREF_HPP
#define VERIF_GPREF_HPP
#include <albatross/Common>
#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <albatross/Distribution>
#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/Indexing>
#include "gen.hpp"

namespace gpref {
using namespace albatross;
using LD = long double;
using MatL = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using VecL = Eigen::Matrix<LD, Eigen::Dynamic, 1>;

template <typename Cov, typename A, typename B>
MatL pairwise(const Cov &cov, const std::vector<A> &a, const std::vector<B> &b) {
  MatL m(a.size(), b.size());
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t j = 0; j < b.size(); ++j)
      m(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) = cov(a[i], b[j]);
  return m;
}

template <typename Mean, typename A>
VecL means(const Mean &mean, const std::vector<A> &a) {
  VecL m(a.size());
  for (std::size_t i = 0; i < a.size(); ++i)
    m(static_cast<Eigen::Index>(i)) = mean(a[i]);
  return m;
}

inline VecL diag(const MarginalDistribution &d) {
  return Eigen::VectorXd(d.covariance.diagonal()).cast<LD>();
}

struct Answer {
  VecL mean;
  MatL cov;
  double mean_tol = 0, cov_tol = 0; // what rounding may explain
};

// prior N(mu, k) over the observed values (all noise included), observed y
struct Conditional {
  Eigen::LLT<MatL> llt;
  VecL resid, info;
  LD cond = 1;

  Conditional(const MatL &k, const VecL &mu, const VecL &y)
      : llt(k), resid(y - mu) {
    info = llt.solve(resid);
    if (k.rows() > 0) {
      const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eigs(
          k.cast<double>(), Eigen::EigenvaluesOnly);
      const double lo = eigs.eigenvalues().minCoeff();
      cond = lo > 0 ? eigs.eigenvalues().maxCoeff() / lo : 1e300;
    }
  }

  Answer predict(const MatL &cross, const VecL &mu, const MatL &prior) const {
    Answer a;
    const MatL w = llt.solve(cross);
    a.mean = mu + cross.transpose() * info;
    a.cov = prior - cross.transpose() * w;
    const double n = static_cast<double>(cross.rows()) + 1;
    const double e = 2e-16 * n * 8 * static_cast<double>(cond);
    a.mean_tol = e * static_cast<double>(cross.norm() * info.norm()) +
                 1e-12 * (1e-3 + static_cast<double>(mu.norm() + cross.norm() * info.norm()));
    a.cov_tol = e * static_cast<double>(cross.norm() * w.norm()) +
                1e-12 * (1e-3 + static_cast<double>(prior.norm()));
    return a;
  }

  LD log_density() const {
    const MatL l = llt.matrixL();
    LD log_det = 0;
    for (Eigen::Index i = 0; i < l.rows(); ++i)
      log_det += 2 * std::log(l(i, i));
    return -(log_det + resid.dot(info) +
             static_cast<LD>(l.rows()) * std::log(2 * acosl(-1.0L))) / 2;
  }
  double log_density_tol() const {
    return 1e-11 + 2e-16 * 20 * static_cast<double>(cond) *
                       (1 + static_cast<double>(info.norm() * resid.norm()));
  }
};

template <typename Model, typename F>
Conditional observe(const Model &model, const std::vector<F> &features,
                    const MarginalDistribution &targets) {
  const auto meas = as_measurements(features);
  MatL k = pairwise(model.get_covariance(), meas, meas);
  k.diagonal() += diag(targets);
  return Conditional(k, means(model.get_mean(), meas), targets.mean.cast<LD>());
}

template <typename Model, typename F, typename T>
Answer predict(const Model &model, const Conditional &given,
               const std::vector<F> &train, const std::vector<T> &test) {
  const auto cov = model.get_covariance();
  return given.predict(pairwise(cov, train, test), means(model.get_mean(), test),
                       pairwise(cov, test, test));
}

inline void close(pbt::Case &c, const Eigen::VectorXd &got, const VecL &want,
                  double tol, const std::string &what) {
  c.eq(got.size(), want.size(), what + " size");
  for (Eigen::Index i = 0; i < got.size(); ++i)
    c.near(got[i], static_cast<double>(want[i]), 0, tol,
           what + "[" + std::to_string(i) + "]");
}

inline void close(pbt::Case &c, const Eigen::MatrixXd &got, const MatL &want,
                  double tol, const std::string &what) {
  c.eq(got.rows(), want.rows(), what + " rows");
  c.eq(got.cols(), want.cols(), what + " columns");
  for (Eigen::Index i = 0; i < got.rows(); ++i)
    for (Eigen::Index j = 0; j < got.cols(); ++j)
      c.near(got(i, j), static_cast<double>(want(i, j)), 0, tol,
             what + "(" + std::to_string(i) + "," + std::to_string(j) + ")");
}

// every way of asking a prediction object
template <typename P>
void check_prediction(pbt::Case &c, const P &prediction, const Answer &want,
                      const std::string &what, double slack = 1) {
  const double mt = want.mean_tol * slack, ct = want.cov_tol * slack;
  const JointDistribution joint = prediction.joint();
  const MarginalDistribution marginal = prediction.marginal();
  close(c, prediction.mean(), want.mean, mt, what + " mean");
  close(c, joint.mean, want.mean, mt, what + " joint mean");
  close(c, joint.covariance, want.cov, ct, what + " covariance");
  close(c, marginal.mean, want.mean, mt, what + " marginal mean");
  close(c, Eigen::VectorXd(marginal.covariance.diagonal()),
        VecL(want.cov.diagonal()), ct, what + " variance");
  close(c, prediction.template get<Eigen::VectorXd>(), want.mean, mt, what + " get");
}

// ---- generation ----------------------------------------------------------

struct Named { // a second feature type
  int who = 0;
  double at = 0;
  bool operator==(const Named &o) const { return who == o.who && at == o.at; }
};

template <typename F> struct Feature;
template <> struct Feature<double> {
  static double make(pbt::Case &c) {
    return c.coin() ? 0.5 * static_cast<double>(c.i(-8, 8)) : c.sym(5);
  }
};
template <> struct Feature<Named> {
  static Named make(pbt::Case &c) {
    Named n;
    n.who = static_cast<int>(c.i(0, 2));
    n.at = Feature<double>::make(c);
    return n;
  }
};
template <> struct Feature<variant<double, Named>> {
  static variant<double, Named> make(pbt::Case &c) {
    if (c.coin())
      return Feature<Named>::make(c);
    return Feature<double>::make(c);
  }
};
template <> struct Feature<Eigen::VectorXd> {
  static Eigen::VectorXd make(pbt::Case &c) {
    Eigen::VectorXd v(3);
    for (Eigen::Index i = 0; i < 3; ++i)
      v[i] = Feature<double>::make(c);
    return v;
  }
};

template <typename F> std::vector<F> features(pbt::Case &c, std::size_t n, bool repeats = true) {
  std::vector<F> out;
  for (std::size_t i = 0; i < n; ++i)
    out.push_back(repeats && i > 0 && c.chance(1, 8) ? c.pick(out) : Feature<F>::make(c));
  return out;
}

inline std::string describe(double x) { return pbt::str(x); }
inline std::string describe(const Named &n) {
  return std::to_string(n.who) + "@" + pbt::str(n.at);
}
inline std::string describe(const Eigen::VectorXd &v) {
  std::ostringstream o;
  o << "(" << v.transpose() << ")";
  return o.str();
}
inline std::string describe(const variant<double, Named> &v) {
  return v.match([](const auto &x) { return describe(x); });
}
template <typename F> void show(pbt::Case &c, const std::string &name, const std::vector<F> &fs) {
  std::vector<std::string> out;
  for (const auto &f : fs)
    out.push_back(describe(f));
  c.showv(name, out);
}

inline MarginalDistribution targets(pbt::Case &c, std::size_t n, double least = 1e-3) {
  const Eigen::Index k = static_cast<Eigen::Index>(n);
  Eigen::VectorXd mean(k), var(k);
  const bool equal = c.chance(1, 4);
  const double v = c.logreal(least, 4);
  for (Eigen::Index i = 0; i < k; ++i) {
    mean[i] = c.sym(10);
    var[i] = equal ? v : c.logreal(least, 4);
  }
  return MarginalDistribution(mean, var);
}

// some of the observations may be free of noise (or nearly)
inline MarginalDistribution any_targets(pbt::Case &c, std::size_t n, double least = 1e-3) {
  auto y = targets(c, n, least);
  if (!c.chance(1, 5))
    return y;
  Eigen::VectorXd var = y.covariance.diagonal();
  const std::uint64_t kind = c.src.draw(2);
  for (Eigen::Index i = 0; i < var.size(); ++i)
    if (kind == 0 ? i == var.size() / 2 : c.chance(1, 3))
      var[i] = kind == 2 ? c.logreal(1e-14, 1e-6) : 0.;
  return MarginalDistribution(y.mean, var);
}

// covariance and mean functions of more than one feature type
struct Own : public CovarianceFunction<Own> {
  ALBATROSS_DECLARE_PARAMS(own_scale, own_length);
  Own() {
    own_scale = Parameter(1.);
    own_length = Parameter(2.);
  }
  std::string name() const { return "own"; }
  double _call_impl(const double &x, const double &y) const {
    return own_scale.value * own_scale.value *
           std::exp(-std::fabs(x - y) / own_length.value);
  }
  double _call_impl(const Named &x, const Named &y) const {
    return (x.who == y.who ? 1.5 : 0.25) * (*this)(x.at, y.at);
  }
  double _call_impl(const double &x, const Named &y) const {
    return 0.5 * (*this)(x, y.at);
  }
};

struct NamedNoise : public CovarianceFunction<NamedNoise> {
  ALBATROSS_DECLARE_PARAMS(named_noise);
  NamedNoise() { named_noise = Parameter(0.3); }
  std::string name() const { return "named_noise"; }
  double _call_impl(const Named &x, const Named &y) const {
    return x == y ? named_noise.value * named_noise.value * (1 + x.who) : 0.;
  }
};

struct Drift : public MeanFunction<Drift> {
  ALBATROSS_DECLARE_PARAMS(drift_rate, drift_offset);
  Drift() {
    drift_rate = Parameter(0.5);
    drift_offset = Parameter(1.);
  }
  std::string name() const { return "drift"; }
  double _call_impl(const double &x) const {
    return drift_offset.value + drift_rate.value * x;
  }
  double _call_impl(const Named &x) const {
    return drift_offset.value * (1 + x.who) - drift_rate.value * x.at;
  }
};

struct Offset : public MeanFunction<Offset> { // of measurements
  ALBATROSS_DECLARE_PARAMS(offset_size);
  Offset() { offset_size = Parameter(2.); }
  std::string name() const { return "offset"; }
  double _call_impl(const Measurement<double> &m) const { return offset_size.value + 0.1 * m.value * m.value; }
  double _call_impl(const Measurement<Named> &m) const { return offset_size.value * (0.5 + m.value.who); }
  // (a plain feature would be converted to a measurement)
  double _call_impl(const double &) const { return 0; }
  double _call_impl(const Named &) const { return 0; }
};

template <typename Model> void randomize(pbt::Case &c, Model *m) {
  for (const auto &p : m->get_params()) {
    const double v = p.second.value;
    double value;
    if (p.first.find("rate") != std::string::npos ||
        p.first.find("offset") != std::string::npos)
      value = c.sym(3);
    else if (p.first.find("length") != std::string::npos)
      value = c.logreal(0.3, 10);
    else if (p.first.find("noise") != std::string::npos)
      value = c.logreal(0.05, 2);
    else if (p.first.find("sigma") != std::string::npos ||
             p.first.find("scale") != std::string::npos)
      value = c.logreal(0.2, 4);
    else
      value = v;
    m->set_param_value(p.first, value);
    c.show(p.first, value);
  }
}

// models -----------------------------------------------------------------
inline auto smooth_model() { // measurement-only noise
  return gp_from_covariance_and_mean(
      SquaredExponential<EuclideanDistance>(2., 1.5) +
          measurement_only(IndependentNoise<double>(0.3)),
      Drift(), "smooth");
}
inline auto rough_model() { // noise which is part of the function
  return gp_from_covariance(
      Matern52<EuclideanDistance>(3., 1.) * Constant(0.7) +
          Exponential<EuclideanDistance>(1., 0.5) + IndependentNoise<double>(0.2),
      "rough");
}
inline auto trend_model() {
  return gp_from_covariance_and_mean(
      Polynomial<1>(0.5) + Matern32<EuclideanDistance>(2., 1.) +
          measurement_only(IndependentNoise<double>(0.1) +
                           SquaredExponential<EuclideanDistance>(0.5, 0.4)),
      Drift() + Offset(), "trend");
}
inline auto vector_model() {
  return gp_from_covariance(
      SquaredExponential<EuclideanDistance>(3., 2.) +
          measurement_only(IndependentNoise<Eigen::VectorXd>(0.3)),
      "vector");
}
inline auto mixed_model() { // doubles, Named and variants of them
  return gp_from_covariance_and_mean(
      Own() + measurement_only(NamedNoise() + IndependentNoise<double>(0.3)),
      Drift() + Offset(), "mixed");
}

} // namespace gpref
#endif
