// pbt:
#include <albatross/Common>
#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/linalg/Utils>
#include "gpref.hpp"
using namespace gpref;

namespace {
const LD kPi = acosl(-1.0L);

LD density_nll(const VecL &r, const MatL &k) {
  const Eigen::LLT<MatL> llt(k);
  const MatL l = llt.matrixL();
  LD log_det = 0;
  for (Eigen::Index i = 0; i < l.rows(); ++i)
    log_det += 2 * logl(l(i, i));
  return (log_det + r.dot(llt.solve(r)) + static_cast<LD>(r.size()) * logl(2 * kPi)) / 2;
}

double tolerance(const VecL &r, const MatL &k) {
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eigs(k.cast<double>());
  const double cond = eigs.eigenvalues().maxCoeff() / eigs.eigenvalues().minCoeff();
  const double n = static_cast<double>(r.size());
  return 1e-12 * (1 + n) + 1e-15 * n * cond * (1 + static_cast<double>(r.dot(k.llt().solve(r))));
}
} // namespace

PBT_CHECK(residual_likelihood, 150000, 5000000,
          "negative log likelihood of residuals of size 1..9 under a scalar, "
          "dense (of any conditioning up to 1e6 and scale 1e-4..1e4), diagonal "
          "and already factorised covariance against the long double Gaussian "
          "density, and additivity over independent parts; non-trivial: size "
          "> 2.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.usually(1, 9, 60));
  const double s = c.logreal(1e-4, 1e4);
  const Eigen::MatrixXd k = s * s * gen::spd(c, n);
  const Eigen::VectorXd r = s * gen::vec(c, n);
  c.note().precision(17);
  c.show("residual", r.transpose()).show("covariance", k);
  const double want = static_cast<double>(density_nll(r.cast<LD>(), k.cast<LD>()));
  const double tol = tolerance(r.cast<LD>(), k.cast<LD>());
  c.near(negative_log_likelihood(r, k), want, 1e-12, tol, "dense");
  c.near(negative_log_likelihood(r, k.ldlt()), want, 1e-12, tol, "factorised");
  const Eigen::SerializableLDLT ldlt(k);
  c.near(negative_log_likelihood(r, ldlt), want, 1e-12, tol, "serializable factorisation");
  const Eigen::VectorXd var = k.diagonal();
  const Eigen::DiagonalMatrix<double, Eigen::Dynamic> d(var);
  const Eigen::MatrixXd dense = var.asDiagonal();
  const double want_d = static_cast<double>(density_nll(r.cast<LD>(), dense.cast<LD>()));
  const double tol_d = tolerance(r.cast<LD>(), dense.cast<LD>());
  c.near(negative_log_likelihood(r, d), want_d, 1e-12, tol_d, "diagonal");
  c.near(negative_log_likelihood(r, dense), want_d, 1e-12, tol_d, "dense diagonal");
  double sum = 0;
  for (Eigen::Index i = 0; i < n; ++i) {
    const double one = negative_log_likelihood(r[i], var[i]);
    c.near(one, static_cast<double>(0.5L * (logl(2 * kPi * var[i]) + static_cast<LD>(r[i]) * r[i] / var[i])),
           1e-12, 1e-12, "scalar");
    sum += one;
  }
  c.near(sum, want_d, 1e-11, tol_d, "sum of the parts");
  // entropy is the expected negative log density: nll(0) + n / 2
  const double entropy = static_cast<double>(density_nll(VecL::Zero(n), k.cast<LD>()) + 0.5L * static_cast<LD>(n));
  c.near(differential_entropy(k), entropy, 1e-11, tol, "differential entropy");
  c.near(differential_entropy(k.ldlt()), entropy, 1e-11, tol, "differential entropy of a factorisation");
  c.near(log_determinant_of_symmetric(k.ldlt()),
         static_cast<double>(2 * density_nll(VecL::Zero(n), k.cast<LD>()) - static_cast<LD>(n) * logl(2 * kPi)),
         1e-11, tol, "log determinant");
  c.nontrivial(n > 2);
}

PBT_CHECK(prediction_likelihood, 150000, 5000000,
          "negative log likelihood of joint and marginal predictions against a "
          "measured truth (its own variances added, some of them zero; also "
          "singular predictions of noisy truths) against the long double "
          "density; non-trivial: size > 1 and some noise.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.usually(1, 8, 60));
  const bool singular = c.chance(1, 3);
  const double s = c.coin() ? 1. : c.logreal(1e-5, 1e5);
  const Eigen::VectorXd noise = s * s * gen::variances(c, n, !singular);
  const Eigen::MatrixXd k = s * s * (singular ? gen::psd(c, n, c.i(0, n)) : gen::spd(c, n));
  const JointDistribution joint(s * gen::vec(c, n), k);
  const MarginalDistribution truth(s * gen::vec(c, n), noise);
  c.show("mean", joint.mean.transpose()).show("covariance", k);
  c.show("truth", truth.mean.transpose()).show("noise", noise.transpose());
  const VecL r = (joint.mean - truth.mean).cast<LD>();
  MatL full = k.cast<LD>();
  full.diagonal() += noise.cast<LD>();
  const double want = static_cast<double>(density_nll(r, full));
  const double tol = tolerance(r, full);
  c.near(negative_log_likelihood(joint, truth), want, 1e-12, tol, "joint");
  c.near(NegativeLogLikelihood<JointDistribution>()(joint, truth), want, 1e-12, tol, "joint metric");
  const MatL diagonal = full.diagonal().asDiagonal();
  const double want_m = static_cast<double>(density_nll(r, diagonal));
  const double tol_m = tolerance(r, diagonal);
  c.near(negative_log_likelihood(joint.marginal(), truth), want_m, 1e-12, tol_m, "marginal");
  c.near(NegativeLogLikelihood<MarginalDistribution>()(joint.marginal(), truth), want_m, 1e-12, tol_m, "marginal metric");
  c.nontrivial(n > 1 && noise.sum() > 0);
}

namespace {
// log prior density of the parameters, one by one
template <typename Model> double log_prior(const Model &m) {
  double sum = 0;
  for (const auto &p : m.get_params())
    sum += p.second.prior_log_likelihood();
  return sum;
}

template <typename Model> void with_priors(pbt::Case &c, Model *m) {
  randomize(c, m);
  if (c.coin())
    for (const auto &p : m->get_params())
      if (c.coin())
        m->set_prior(p.first, c.coin() ? ParameterPrior(GaussianPrior(c.sym(2), c.logreal(0.5, 5)))
                                       : ParameterPrior(LogNormalPrior(c.sym(1), c.logreal(0.5, 2))));
}

template <typename F, typename Model>
void model_likelihood(pbt::Case &c, Model model) {
  with_priors(c, &model);
  const std::size_t n = c.usually(1, 10, 60);
  const auto train = features<F>(c, n);
  auto y = any_targets(c, n);
  if (c.chance(1, 4)) // (repeated features need noise)
    y.mean.setZero();
  show(c, "features", train);
  c.show("targets", y.mean.transpose()).show("noise", y.covariance.diagonal().transpose());
  const RegressionDataset<F> dataset(train, y);
  const auto given = observe(model, train, y);
  c.assume(given.cond < 1e9);
  const double prior = log_prior(model);
  const double want = static_cast<double>(given.log_density()) + prior;
  const double tol = given.log_density_tol() + 1e-12 * (std::fabs(want) + std::fabs(prior));
  c.near(model.log_likelihood(dataset), want, 0, tol, "log likelihood");
  c.near(GaussianProcessNegativeLogLikelihood()(dataset, model), -want, 0, tol, "negative log likelihood");
  // the chain rule: log p(y) = log p(y1) + log p(y2 | y1)
  if (n > 1 && std::isfinite(prior)) {
    const std::size_t k = 1 + c.src.draw(n - 2);
    std::vector<std::size_t> first, rest;
    for (std::size_t i = 0; i < n; ++i)
      (i < k ? first : rest).push_back(i);
    const auto a = subset(dataset, first), b = subset(dataset, rest);
    const auto prior_joint = model.prior(train);
    const JointDistribution all(prior_joint);
    const auto given_a = observe(model, a.features, a.targets);
    const auto meas_a = as_measurements(a.features), meas_b = as_measurements(b.features);
    const auto cov = model.get_covariance();
    const Answer p = given_a.predict(pairwise(cov, meas_a, meas_b), means(model.get_mean(), meas_b),
                                   pairwise(cov, meas_b, meas_b));
    const JointDistribution predicted(p.mean.cast<double>(), p.cov.cast<double>());
    c.near(model.log_likelihood(a) - prior - negative_log_likelihood(predicted, b.targets) + prior, want, 1e-9,
           1e-8 * (1 + std::fabs(want)) + 1e3 * tol, "chain rule");
  }
  c.nontrivial(n > 2);
  c.label_if(prior != 0, "informative prior");
}
} // namespace

PBT_CHECK(gp_log_likelihood, 30000, 1000000,
          "log likelihood of 1..10 scalar observations (repeats included, "
          "heteroscedastic noise) under a Gaussian process with mean and "
          "measurement-only noise and random priors against the long double "
          "density + the prior densities of all parameters, and the chain "
          "rule; non-trivial: > 2 observations.") {
  model_likelihood<double>(c, smooth_model());
}
PBT_CHECK(gp_log_likelihood_of_types, 30000, 1000000,
          "as above for variants of two feature types with measurement-only "
          "terms in covariance and mean.") {
  model_likelihood<variant<double, Named>>(c, mixed_model());
}
