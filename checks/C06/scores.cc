// pbt:
#include <albatross/Common>
#include <albatross/Distribution>
#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/Stats>
#include <boost/math/special_functions/gamma.hpp>
#include "gen.hpp"

using namespace albatross;
using namespace albatross::score;
using LD = long double;
using VecL = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using MatL = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;

namespace {

const LD kPi = acosl(-1.0L);

// E|N(mu, s^2)|
LD folded(LD mu, LD s) {
  mu = fabsl(mu);
  if (s <= 0)
    return mu;
  return s * sqrtl(2 / kPi) * expl(-mu * mu / (2 * s * s)) +
         mu * erfl(mu / (s * sqrtl(2)));
}

struct Data {
  JointDistribution prediction;
  MarginalDistribution truth; // with noise
  Eigen::Index n = 0;
  bool singular = false;
  JointDistribution measured() const {
    Eigen::MatrixXd k = prediction.covariance;
    k += truth.covariance;
    return JointDistribution(prediction.mean, k);
  }
  JointDistribution exact_truth() const { return prediction; }
};

Data make(pbt::Case &c, std::size_t lo, std::size_t hi, bool definite = false) {
  Data d;
  d.n = static_cast<Eigen::Index>(hi < 5 ? c.size(lo, hi) : c.usually(lo, hi, 4 * hi));
  d.singular = !definite && c.chance(1, 3);
  Eigen::MatrixXd k = d.singular ? gen::psd(c, d.n, c.i(0, d.n)) : gen::spd(c, d.n);
  if (!definite && !d.singular && c.chance(1, 6)) { // almost perfectly correlated
    Eigen::VectorXd s = gen::vec(c, d.n, 3);
    k = s * s.transpose();
    k.diagonal() += 1e-9 * Eigen::VectorXd::Ones(d.n);
  }
  const double scale = c.pick<double>({1., 1., 1e-3, 1e3});
  d.prediction = JointDistribution(scale * gen::vec(c, d.n), scale * scale * k);
  d.truth = MarginalDistribution(
      Eigen::VectorXd(scale * gen::vec(c, d.n)),
      Eigen::VectorXd(scale * scale * gen::variances(c, d.n)));
  c.note().precision(17);
  c.show("mean", d.prediction.mean.transpose()).show("cov", d.prediction.covariance);
  c.show("truth", d.truth.mean.transpose()).show("noise", d.truth.covariance.diagonal().transpose());
  return d;
}

} // namespace

PBT_CHECK(errors, 400000, 10000000,
          "RMSE and standard deviation of errors of size 0..20 (also with a "
          "common offset, or all equal) against long double definitions, for "
          "plain and measured truths and the metric objects; non-trivial: "
          "size > 2.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.usually(0, 20, 100));
  const double off = c.coin() ? 0. : c.sym(1e4);
  Eigen::VectorXd p = gen::vec(c, n), t = gen::vec(c, n);
  if (c.chance(1, 8))
    t = p.array() + c.sym(3);
  p.array() += off;
  c.show("prediction", p.transpose()).show("truth", t.transpose());
  const Eigen::VectorXd e = p - t;
  LD ss = 0, sum = 0;
  for (Eigen::Index i = 0; i < n; ++i) {
    ss += static_cast<LD>(e[i]) * e[i];
    sum += e[i];
  }
  LD dev = 0;
  for (Eigen::Index i = 0; i < n; ++i)
    dev += powl(static_cast<LD>(e[i]) - sum / n, 2);
  const double scale = 1 + e.cwiseAbs().sum();
  const MarginalDistribution measured(t, gen::variances(c, n));
  const RootMeanSquareError rmse;
  const StandardDeviation sd;
  if (n > 0) {
    const double want = static_cast<double>(sqrtl(ss / n));
    c.near(root_mean_square_error(p, t), want, 1e-12, 0, "rmse");
    c.near(root_mean_square_error(p, measured), want, 1e-12, 0, "rmse, measured truth");
    c.near(rmse(p, measured), want, 1e-12, 0, "rmse metric");
  }
  const double want_sd = n == 0 ? NAN : n == 1 ? 0. : static_cast<double>(sqrtl(dev / (n - 1)));
  c.near(standard_deviation(e), want_sd, 1e-10, 1e-13 * scale, "standard deviation");
  c.near(standard_deviation(p, t), want_sd, 1e-10, 1e-13 * scale, "standard deviation of the error");
  c.near(standard_deviation(p, measured), want_sd, 1e-10, 1e-13 * scale, "standard deviation, measured truth");
  c.near(sd(p, measured), want_sd, 1e-10, 1e-13 * scale, "standard deviation metric");
  c.nontrivial(n > 2);
}

PBT_CHECK(chi_squared_consistency, 60000, 2000000,
          "chi squared consistency of a joint prediction with a measured truth "
          "against boost's distribution function of the long double squared "
          "Mahalanobis norm, and invariance to shifting both, reordering and "
          "rescaling; non-trivial: value in (1e-4, 1 - 1e-4).") {
  Data d = make(c, 1, 8, true);
  const double closer = c.real(0.05, 1);
  d.prediction.mean = (d.truth.mean + closer * (d.prediction.mean - d.truth.mean)).eval();
  const JointDistribution both = d.measured();
  const VecL r = (d.prediction.mean - d.truth.mean).cast<LD>();
  const MatL k = both.covariance.cast<LD>();
  const double m = static_cast<double>(r.dot(k.llt().solve(r)));
  const double want = boost::math::gamma_p(0.5 * static_cast<double>(d.n), 0.5 * m);
  const double got = chi_squared_cdf(d.prediction, d.truth);
  c.near(got, want, 0, 2e-6, "chi squared");
  const ChiSquaredCdf metric;
  c.near(metric(d.prediction, d.truth), got, 0, 0, "metric");
  // invariances
  std::vector<std::size_t> order = c.permutation(static_cast<std::size_t>(d.n));
  const double s = c.logreal(1e-3, 1e3);
  JointDistribution p(d.prediction);
  MarginalDistribution t(d.truth);
  Eigen::VectorXd var(d.n);
  const double shift = c.sym(3);
  for (Eigen::Index i = 0; i < d.n; ++i) {
    const Eigen::Index a = static_cast<Eigen::Index>(order[static_cast<std::size_t>(i)]);
    p.mean[i] = s * (d.prediction.mean[a] + shift);
    t.mean[i] = s * (d.truth.mean[a] + shift);
    var[i] = s * s * d.truth.get_diagonal(a);
    for (Eigen::Index j = 0; j < d.n; ++j)
      p.covariance(i, j) = s * s * d.prediction.covariance(a, static_cast<Eigen::Index>(order[static_cast<std::size_t>(j)]));
  }
  t.covariance = var.asDiagonal();
  c.near(chi_squared_cdf(p, t), got, 0, 3e-6, "transformed");
  c.nontrivial(want > 1e-4 && want < 1 - 1e-4);
}

PBT_CHECK(crps, 60000, 3000000,
          "CRPS of a normal against numerical integration of (F(x) - [x >= "
          "y])^2 over 1600 Gauss-Legendre points, point masses, non-finite "
          "arguments, shift / scale / mirror invariance; non-trivial: the "
          "truth is within 6 deviations.") {
  const double mu = c.sym(5), sigma = c.chance(1, 10) ? 0. : c.coin() ? c.logreal(1e-3, 1e3) : c.logreal(1e-10, 1e6);
  const double y = c.coin() ? mu + sigma * c.sym(7) : c.sym(20);
  c.note().precision(17);
  c.show("mu", mu).show("sigma", sigma).show("y", y);
  const double got = crps_normal(mu, sigma, y);
  c.check(got >= 0 && std::isfinite(got), "negative or not finite");
  if (sigma == 0) {
    c.near(got, std::fabs(y - mu), 1e-15, 0, "point mass");
  } else {
    const LD z = (static_cast<LD>(y) - mu) / sigma;
    auto f = [](LD x) { return erfcl(-x / sqrtl(2)) / 2; };
    static const LD gx[4] = {0.1834346424956498L, 0.5255324099163290L, 0.7966664774136267L, 0.9602898564975363L};
    static const LD gw[4] = {0.3626837833783620L, 0.3137066458778873L, 0.2223810344533745L, 0.1012285362903763L};
    auto integrate = [&](LD lo, LD hi, bool above) {
      LD sum = 0;
      const int panels = 40;
      const LD h = (hi - lo) / panels;
      for (int k = 0; k < panels; ++k)
        for (int q = 0; q < 8; ++q) {
          const LD x = lo + h * (k + 0.5L + 0.5L * (q % 2 ? gx[q / 2] : -gx[q / 2]));
          const LD v = above ? f(-x) : f(x);
          sum += gw[q / 2] * v * v * h / 2;
        }
      return sum;
    };
    // F^2 below the truth and (1 - F)^2 above
    LD want = 0;
    const LD w = 12;
    if (z > -w)
      want += integrate(-w, std::min(z, w), false) + std::max<LD>(0, z - w);
    if (z < w)
      want += integrate(std::max(z, -w), w, true) + std::max<LD>(0, -w - z);
    if (z <= -w)
      want += 0;
    c.near(got, static_cast<double>(sigma * want), 1e-9, 1e-12 * sigma, "crps");
    c.nontrivial(fabsl(z) < 6);
  }
  const double shift = c.sym(4), s = c.logreal(0.01, 100);
  const double tol = 1e-12 * (std::fabs(mu) + std::fabs(y) + sigma + 4);
  c.near(crps_normal(mu + shift, sigma, y + shift), got, 1e-10, tol, "shifted");
  c.near(crps_normal(s * mu, s * sigma, s * y), s * got, 1e-10, s * tol, "scaled");
  c.near(crps_normal(-mu, sigma, -y), got, 1e-12, tol, "mirrored");
  const double bad = c.pick<double>({NAN, INFINITY, -INFINITY});
  c.check(std::isnan(crps_normal(bad, sigma, y)) && std::isnan(crps_normal(mu, sigma, bad)) &&
              std::isnan(crps_normal(mu, bad, y)),
          "non-finite argument");
}

PBT_CHECK(variogram, 60000, 3000000,
          "variogram score of orders 1 and 2, size 1..8, definite, singular and "
          "almost perfectly correlated covariances, with and without "
          "(asymmetric, partly zero) weights, plain and measured truth, against "
          "the weighted sum over pairs in long double; shift, scale and order "
          "invariance; non-trivial: >= 3 components, non-zero score.") {
  const Data d = make(c, 1, 8);
  const bool use_weights = c.coin(), measured = c.coin();
  Eigen::MatrixXd w(d.n, d.n);
  for (Eigen::Index i = 0; i < d.n; ++i)
    for (Eigen::Index j = 0; j < d.n; ++j)
      w(i, j) = c.chance(1, 5) ? 0. : c.logreal(0.05, 20);
  const bool symmetric = c.coin();
  if (symmetric)
    w = (0.5 * (w + w.transpose())).eval();
  const auto order = c.coin() ? VariogramScoreOrder::cMadogram : VariogramScoreOrder::cVariogram;
  const int p = order == VariogramScoreOrder::cMadogram ? 1 : 2;
  c.show("order", p).show("weighted", use_weights).show("measured", measured);
  const JointDistribution dist = measured ? d.measured() : d.prediction;

  auto evaluate = [&](const JointDistribution &pred, const MarginalDistribution &t,
                      const Eigen::MatrixXd *ws) {
    return measured ? variogram_score(pred, t, ws, order)
                    : variogram_score(pred, t.mean, ws, order);
  };
  const double got = evaluate(d.prediction, d.truth, use_weights ? &w : nullptr);

  LD want = 0, tol = 0;
  for (Eigen::Index i = 0; i < d.n; ++i)
    for (Eigen::Index j = i + 1; j < d.n; ++j) {
      const LD mu = static_cast<LD>(dist.mean[j]) - dist.mean[i];
      const LD size = static_cast<LD>(dist.covariance(i, i)) + dist.covariance(j, j);
      const LD var = std::max<LD>(0, size - 2 * static_cast<LD>(dist.covariance(i, j)));
      const LD dt = fabsl(static_cast<LD>(d.truth.mean[i]) - d.truth.mean[j]);
      const LD ex = p == 1 ? folded(mu, sqrtl(var)) : mu * mu + var;
      const LD diff = powl(dt, p) - ex;
      const LD weight = use_weights ? w(i, j) : 1.;
      want += weight * diff * diff;
      const LD dvar = 1e-15L * size;
      const LD dex = 1e-14L * (powl(dt, p) + ex) +
                     (p == 2 ? dvar : std::min(sqrtl(dvar), dvar / sqrtl(std::max(var, dvar))));
      tol += weight * (2 * fabsl(diff) * dex + dex * dex) * 4;
    }
  c.near(got, static_cast<double>(want), 1e-12, static_cast<double>(tol) + 1e-300, "variogram score");
  c.check(got >= 0, "negative");

  // a common offset of prediction or truth does not matter
  JointDistribution moved(d.prediction);
  const double offset = c.sym(8);
  moved.mean.array() += offset;
  const double round = 1e-11 * (static_cast<double>(want) + 1) *
                           (1 + std::fabs(offset) + d.prediction.mean.cwiseAbs().sum() +
                            d.truth.mean.cwiseAbs().sum()) +
                       2 * static_cast<double>(tol);
  c.near(evaluate(moved, d.truth, use_weights ? &w : nullptr), got, 1e-9, 100 * round, "offset");
  if (!use_weights || symmetric) {
    const auto perm = c.permutation(static_cast<std::size_t>(d.n));
    JointDistribution q(d.prediction);
    MarginalDistribution t(d.truth);
    Eigen::MatrixXd v(w);
    Eigen::VectorXd var(d.n);
    for (Eigen::Index i = 0; i < d.n; ++i) {
      const Eigen::Index a = static_cast<Eigen::Index>(perm[static_cast<std::size_t>(i)]);
      q.mean[i] = d.prediction.mean[a];
      t.mean[i] = d.truth.mean[a];
      var[i] = d.truth.get_diagonal(a);
      for (Eigen::Index j = 0; j < d.n; ++j) {
        const Eigen::Index b = static_cast<Eigen::Index>(perm[static_cast<std::size_t>(j)]);
        q.covariance(i, j) = d.prediction.covariance(a, b);
        v(i, j) = w(a, b);
      }
    }
    t.covariance = var.asDiagonal();
    c.near(evaluate(q, t, use_weights ? &v : nullptr), got, 1e-10,
           2 * static_cast<double>(tol) + 1e-300, "reordered");
  }
  if (order == VariogramScoreOrder::cMadogram && !use_weights) // the defaults
    c.near(measured ? variogram_score(d.prediction, d.truth)
                    : variogram_score(d.prediction, d.truth.mean),
           got, 0, 0, "default arguments");
  c.label_if(d.singular, "singular");
  c.nontrivial(d.n > 2 && got > 0);
}

PBT_CHECK(wasserstein, 40000, 2000000,
          "squared Wasserstein-2 distance of Gaussians of size 1..7 (definite, "
          "singular, almost equal): shared eigenvectors in closed form, general "
          "definite ones by the eigenvalues of the product in long double, "
          "symmetric, non-negative, zero for equal ones, triangle inequality, "
          "invariant to rotation; non-trivial: size > 1 and not equal.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.size(1, 7));
  const double unit = c.pick<double>({1., 1., 1e-3, 1e3});
  auto gaussian = [&](bool definite) {
    const Eigen::MatrixXd k = definite ? gen::spd(c, n) : gen::psd(c, n, c.i(0, n));
    return JointDistribution(unit * gen::vec(c, n), unit * unit * k);
  };
  const int kind = static_cast<int>(c.i(0, 3));
  JointDistribution a = gaussian(kind != 3), b = gaussian(kind != 3), e = gaussian(c.coin());
  if (kind == 2) { // shared eigenvectors, some directions without any spread
    const Eigen::MatrixXd q = gen::mat(c, n, n).householderQr().householderQ();
    const Eigen::VectorXd la = unit * unit * gen::variances(c, n), lb = unit * unit * gen::variances(c, n);
    a.covariance = q * la.asDiagonal() * q.transpose();
    b.covariance = q * lb.asDiagonal() * q.transpose();
    a.covariance = (0.5 * (a.covariance + a.covariance.transpose())).eval();
    b.covariance = (0.5 * (b.covariance + b.covariance.transpose())).eval();
    double want = (a.mean - b.mean).squaredNorm();
    for (Eigen::Index i = 0; i < n; ++i)
      want += std::pow(std::sqrt(la[i]) - std::sqrt(lb[i]), 2);
    const double scale = unit * unit + la.sum() + lb.sum();
    c.show("a", a.covariance).show("b", b.covariance);
    c.near(distance::wasserstein_2(a, b), want, 1e-9, 2e-6 * scale, "commuting covariances");
    if (la.minCoeff() > 0 && lb.minCoeff() > 0)
      c.near(distance::wasserstein_2(a, b), want, 1e-9, 1e-11 * scale, "commuting definite covariances");
  } else if (kind == 1) {
    b = a;
    if (c.coin())
      b.covariance *= 1 + 1e-12;
  }
  c.show("a", a.covariance).show("b", b.covariance).show("ma", a.mean.transpose()).show("mb", b.mean.transpose());
  const double size = unit * unit + a.covariance.trace() + b.covariance.trace() + (a.mean - b.mean).squaredNorm();
  const double got = distance::wasserstein_2(a, b);
  c.check(std::isfinite(got) && got >= 0, "negative or not finite: " + pbt::str(got));
  const double loose = kind >= 2 ? 2e-6 : 1e-10;
  c.near(distance::wasserstein_2(b, a), got, 1e-9, loose * size, "symmetry");
  c.near(distance::wasserstein_2(a, a), 0, 0, 1e-10 * size, "distance to itself");
  if (kind == 1)
    c.near(got, 0, 0, 1e-9 * size, "distance to an equal one");
  if (kind == 0) {
    const MatL ab = a.covariance.cast<LD>() * b.covariance.cast<LD>();
    const Eigen::EigenSolver<MatL> eigs(ab, false);
    LD cross = 0;
    for (Eigen::Index i = 0; i < n; ++i)
      cross += sqrtl(std::max<LD>(0, eigs.eigenvalues()[i].real()));
    const LD want = (a.mean - b.mean).cast<LD>().squaredNorm() + a.covariance.trace() +
                    b.covariance.trace() - 2 * cross;
    c.near(got, static_cast<double>(want), 1e-9, 1e-9 * size, "distance");
  }
  // a metric
  const double ae = distance::wasserstein_2(a, e), eb = distance::wasserstein_2(e, b);
  c.check(std::sqrt(got) <= std::sqrt(ae) + std::sqrt(eb) + 2e-5 * std::sqrt(size + e.covariance.trace()),
          "triangle inequality");
  const Eigen::MatrixXd q = gen::mat(c, n, n).householderQr().householderQ();
  auto rotate = [&](const JointDistribution &x) {
    const Eigen::MatrixXd k = q * x.covariance * q.transpose();
    return JointDistribution(q * x.mean, 0.5 * (k + k.transpose()));
  };
  c.near(distance::wasserstein_2(rotate(a), rotate(b)), got, 1e-9, loose * size, "rotated");
  c.nontrivial(n > 1 && kind != 1);
}

namespace {
// E||N(m, k)|| as an integral over t of (1 - E exp(-t ||x||^2)) t^(-3/2)
double expected_norm(const Eigen::VectorXd &m, const Eigen::MatrixXd &k) {
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eigs(k);
  const Eigen::VectorXd l = eigs.eigenvalues().cwiseMax(0.);
  const Eigen::VectorXd b = eigs.eigenvectors().transpose() * m;
  const double s = l.sum() + b.squaredNorm();
  if (s <= 0)
    return 0;
  // t = exp(u); trapezoidal in u converges geometrically
  double sum = 0;
  const double h = 0.1;
  for (double u = -std::log(s) - 75; u < -std::log(s) + 75; u += h) {
    const double t = std::exp(u);
    double log_e = 0;
    for (Eigen::Index i = 0; i < l.size(); ++i) {
      const double q = 1 + 2 * t * l[i];
      log_e += -0.5 * std::log1p(2 * t * l[i]) - t * b[i] * b[i] / q;
    }
    sum += h * -std::expm1(log_e) * std::exp(-0.5 * u);
  }
  return sum / (2 * std::sqrt(M_PI));
}
} // namespace

PBT_CHECK(energy, 1500, 60000,
          "energy score (size 1..6, anisotropic definite covariances, with and "
          "without weights, plain and measured truth, 20000..60000 samples) "
          "against its exact expectation by quadrature, within 7 bounds of the "
          "standard error; equal for equal seeds, exact shift / scaling "
          "relations at equal seeds; non-trivial: size > 2.") {
  const Data d = make(c, 1, 6, true);
  const bool use_weights = c.coin(), measured = c.coin();
  Eigen::VectorXd w(d.n);
  for (Eigen::Index i = 0; i < d.n; ++i)
    w[i] = c.chance(1, 6) ? 0. : c.logreal(0.1, 10);
  if (!use_weights)
    w.setOnes();
  const unsigned seed = static_cast<unsigned>(c.src.draw(1u << 30));
  const Eigen::Index samples = c.i(20000, 60000);
  c.show("weights", w.transpose()).show("seed", seed).show("samples", samples);
  const JointDistribution dist = measured ? d.measured() : d.prediction;
  auto evaluate = [&](const JointDistribution &p, const MarginalDistribution &t, unsigned s, Eigen::Index k) {
    return measured ? energy_score(p, t, use_weights ? &w : nullptr, s, k)
                    : energy_score(p, t.mean, use_weights ? &w : nullptr, s, k);
  };
  const double got = evaluate(d.prediction, d.truth, seed, samples);
  const Eigen::MatrixXd k = w.asDiagonal() * dist.covariance * w.asDiagonal();
  const Eigen::VectorXd m = w.asDiagonal() * (dist.mean - d.truth.mean);
  const double want = expected_norm(m, k) - 0.5 * expected_norm(Eigen::VectorXd::Zero(d.n), 2 * k);
  const double l = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(k).eigenvalues().maxCoeff();
  const double se = 1.5 * std::sqrt(std::max(l, 0.) / (0.5 * static_cast<double>(samples)));
  c.near(got, want, 1e-7, 7 * se, "energy score");
  c.check(got >= 0 && want >= -1e-9 * (1 + m.norm()), "negative");
  c.near(evaluate(d.prediction, d.truth, seed, samples), got, 0, 0, "same seed");

  const Eigen::Index few = c.i(2, 50);
  const double base = evaluate(d.prediction, d.truth, seed, few);
  c.check(base >= 0 && std::isfinite(base), "few samples");
  const Eigen::VectorXd offset = gen::vec(c, d.n);
  JointDistribution p(d.prediction);
  MarginalDistribution t(d.truth);
  p.mean += offset;
  t.mean += offset;
  const double size = dist.mean.norm() + d.truth.mean.norm() + std::sqrt(dist.covariance.trace());
  c.near(evaluate(p, t, seed, few), base, 1e-9, 1e-11 * w.maxCoeff() * (size + offset.norm()), "shifted");
  const double s = c.pick<double>({0.25, 0.5, 2., 16.});
  p.mean = s * d.prediction.mean;
  p.covariance = s * s * d.prediction.covariance;
  t.mean = s * d.truth.mean;
  t.covariance = Eigen::VectorXd(s * s * d.truth.covariance.diagonal()).asDiagonal();
  c.near(evaluate(p, t, seed, few), s * base, 1e-9, 1e-11 * s * w.maxCoeff() * size, "scaled");
  // defaults
  if (!use_weights)
    c.near(measured ? energy_score(d.prediction, d.truth) : energy_score(d.prediction, d.truth.mean),
           evaluate(d.prediction, d.truth, 22U, 1000), 0, 0, "default arguments");
  c.nontrivial(d.n > 2);
}

PBT_CHECK(energy_matches_crps, 2000, 60000,
          "one dimensional energy score against the CRPS, and a vanishing "
          "variance against the plain distance; non-trivial: all.") {
  c.nontrivial();
  const double mu = c.sym(5), sigma = c.logreal(1e-3, 10), y = c.sym(8);
  c.show("mu", mu).show("sigma", sigma).show("y", y);
  const JointDistribution p(Eigen::VectorXd::Constant(1, mu), Eigen::MatrixXd::Constant(1, 1, sigma * sigma));
  const double got = energy_score(p, Eigen::VectorXd(Eigen::VectorXd::Constant(1, y)), nullptr,
                                  static_cast<unsigned>(c.src.draw(1u << 30)), 20000);
  c.near(got, crps_normal(mu, sigma, y), 1e-9, 7 * 1.5 * sigma / std::sqrt(10000.), "crps");
  const Eigen::Index n = c.i(1, 6);
  const JointDistribution q(gen::vec(c, n), Eigen::MatrixXd(1e-16 * Eigen::MatrixXd::Identity(n, n)));
  const Eigen::VectorXd t = gen::vec(c, n);
  c.near(energy_score(q, t), (q.mean - t).norm(), 1e-9, 1e-6, "no spread");
}

PBT_CHECK(metrics_of_predictions, 4000, 200000,
          "the metric objects applied to a Gaussian process' prediction equal "
          "the metric of its mean / joint; non-trivial: > 1 test feature.") {
  const std::size_t n = c.size(1, 8), m = c.size(1, 6);
  std::vector<double> train, test;
  for (std::size_t i = 0; i < n; ++i)
    train.push_back(c.sym(5));
  for (std::size_t i = 0; i < m; ++i)
    test.push_back(c.sym(5));
  const Eigen::Index ni = static_cast<Eigen::Index>(n), mi = static_cast<Eigen::Index>(m);
  const auto model = gp_from_covariance(SquaredExponential<EuclideanDistance>(1., 1.) + IndependentNoise<double>(0.3));
  const auto fit = model.fit(train, MarginalDistribution(gen::vec(c, ni)));
  const auto p = fit.predict(test);
  const MarginalDistribution truth(gen::vec(c, mi), gen::variances(c, mi));
  c.showv("train", train).showv("test", test);
  c.near(RootMeanSquareError()(p, truth), root_mean_square_error(p.mean(), truth.mean), 1e-12, 0, "rmse");
  c.near(StandardDeviation()(p, truth), standard_deviation(p.mean(), truth.mean), 1e-12, 0, "sd");
  c.near(ChiSquaredCdf()(p, truth), chi_squared_cdf(p.joint(), truth), 1e-12, 0, "chi squared");
  c.near(NegativeLogLikelihood<JointDistribution>()(p, truth), negative_log_likelihood(p.joint(), truth), 1e-12, 0, "joint");
  c.near(NegativeLogLikelihood<MarginalDistribution>()(p, truth), negative_log_likelihood(p.marginal(), truth), 1e-12, 0, "marginal");
  c.nontrivial(m > 1);
}
