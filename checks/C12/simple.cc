// pbt:
#include "gpref.hpp"
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/src/models/conditional_gaussian.hpp>
using namespace gpref;

namespace {
class Plain : public LeastSquares<Plain> {};

// Gram-Schmidt (twice) in long double: the projection of y on the columns of a
VecL project(const MatL &a, const VecL &y) {
  std::vector<VecL> basis;
  for (Eigen::Index j = 0; j < std::min(a.cols(), a.rows()); ++j) {
    VecL v = a.col(j);
    for (int twice = 0; twice < 2; ++twice)
      for (const auto &b : basis)
        v -= b * b.dot(v);
    basis.push_back(v / v.norm());
  }
  if (a.rows() <= a.cols())
    return y;
  VecL out = VecL::Zero(y.size());
  for (int twice = 0; twice < 2; ++twice)
    for (const auto &b : basis)
      out += b * b.dot(y - out);
  return out;
}

MarginalDistribution equal_targets(pbt::Case &c, std::size_t n, double mag = 10) {
  const Eigen::VectorXd mean = gen::vec(c, static_cast<Eigen::Index>(n), mag);
  if (c.coin())
    return MarginalDistribution(mean);
  return MarginalDistribution(mean, Eigen::VectorXd::Constant(mean.size(), c.logreal(1e-3, 10)));
}
} // namespace

PBT_CHECK(least_squares, 160000, 2000000,
          "least squares fits of 1..12 rows with 1..5 columns and full rank "
          "(condition < 1e7, also fewer rows than columns), targets with or without an equal variance: "
          "predictions at the data are the orthogonal projection (long double "
          "Gram-Schmidt), predictions anywhere are those of the fitted "
          "coefficients, which do not depend on the order of the data when "
          "they are unique; non-trivial: > 1 column and > columns rows.") {
  const Eigen::Index m = static_cast<Eigen::Index>(c.usually(1, 12, 80, 50)), n = c.i(1, 5);
  Eigen::MatrixXd a = gen::mat(c, m, n);
  const double far = c.chance(1, 3) ? 3e3 : 10;
  const Eigen::VectorXd scale = Eigen::VectorXd::NullaryExpr(n, [&](Eigen::Index) { return c.logreal(1 / far, far); });
  if (n > 1 && c.chance(1, 4)) // columns which are almost the same
    a.col(1) = a.col(0) + c.logreal(1e-6, 1) * a.col(1);
  a = (a * scale.asDiagonal()).eval();
  const auto y = equal_targets(c, static_cast<std::size_t>(m));
  c.show("design", a).show("targets", y.mean.transpose());
  const Eigen::JacobiSVD<Eigen::MatrixXd> svd(a);
  const double worst = svd.singularValues().minCoeff(), cond = svd.singularValues().maxCoeff() / worst;
  c.assume(cond < 1e7); // Eigen's QR may return anything for deficient ranks
  const VecL want = project(a.cast<LD>(), y.mean.cast<LD>());
  c.nontrivial(n > 1 && m > n);
  c.label_if(m < n, "fewer rows than columns");
  std::vector<Eigen::VectorXd> features;
  for (Eigen::Index i = 0; i < m; ++i)
    features.push_back(a.row(i));
  const auto fit = Plain().fit(RegressionDataset<Eigen::VectorXd>(features, y));
  const Eigen::VectorXd coefs = fit.get_fit().coefs;
  c.eq(coefs.size(), n, "number of coefficients");
  const double tol = 1e-14 * (1 + y.mean.norm()) * (1 + cond);
  close(c, fit.predict(features).mean(), want, tol, "projection");
  const std::size_t k = c.size(1, 6);
  std::vector<Eigen::VectorXd> others;
  for (std::size_t i = 0; i < k; ++i)
    others.push_back(c.coin() ? c.pick(features) : gen::vec(c, n, 3));
  const Eigen::VectorXd got = fit.predict(others).mean();
  c.eq(got.size(), static_cast<Eigen::Index>(k), "number of predictions");
  for (std::size_t i = 0; i < k; ++i)
    c.near(got[static_cast<Eigen::Index>(i)], others[i].dot(coefs), 1e-12, 1e-12 * (1 + coefs.norm()) * (1 + others[i].norm()), "prediction in order");
  if (m >= n) {
    std::vector<std::size_t> order(static_cast<std::size_t>(m));
    for (std::size_t i = 0; i < order.size(); ++i)
      order[i] = i;
    c.shuffle(order);
    std::vector<Eigen::VectorXd> f2;
    Eigen::VectorXd y2(m);
    for (std::size_t i = 0; i < order.size(); ++i) {
      f2.push_back(features[order[i]]);
      y2[static_cast<Eigen::Index>(i)] = y.mean[static_cast<Eigen::Index>(order[i])];
    }
    const auto again = Plain().fit(f2, MarginalDistribution(y2));
    for (Eigen::Index j = 0; j < n; ++j)
      c.near(again.get_fit().coefs[j], coefs[j], 1e-12, 1e-14 * (1 + y.mean.norm()) * cond * (1 + cond) / worst, "coefficient of reordered data");
  }
}

PBT_CHECK(linear_regression, 160000, 2000000,
          "linear regression of 2..12 data with at least two distinct features "
          "against the closed form slope and offset in long double, and "
          "rejection of unequal variances; non-trivial: > 2 data.") {
  const std::size_t n = c.usually(2, 12, 80);
  std::vector<double> x;
  const double shift = c.chance(1, 4) ? c.sym(100) : 0;
  const double unit = c.chance(1, 3) ? c.logreal(1e-7, 1e7) : 1; // of the features
  for (std::size_t i = 0; i < n; ++i)
    x.push_back(i > 0 && c.chance(1, 5) ? c.pick(x) : unit * (shift + c.sym(10)));
  auto y = equal_targets(c, n);
  c.showv("x", x).show("y", y.mean.transpose());
  LD mx = 0, my = 0, sxx = 0, sxy = 0;
  for (std::size_t i = 0; i < n; ++i) {
    mx += static_cast<LD>(x[i]) / static_cast<LD>(n);
    my += static_cast<LD>(y.mean[static_cast<Eigen::Index>(i)]) / static_cast<LD>(n);
  }
  for (std::size_t i = 0; i < n; ++i) {
    sxx += (x[i] - mx) * (x[i] - mx);
    sxy += (x[i] - mx) * (y.mean[static_cast<Eigen::Index>(i)] - my);
  }
  c.assume(sxx > 1e-3L * unit * unit);
  const LD slope = sxy / sxx, offset = my - slope * mx;
  c.nontrivial(n > 2);
  const LinearRegression model;
  const auto fit = model.fit(RegressionDataset<double>(x, y));
  const double center = static_cast<double>(fabsl(mx)) / unit, width = static_cast<double>(sxx) / unit / unit;
  const double spread = (1 + center * center + width) / width;
  const double tol = 1e-12 * spread * (1 + y.mean.norm()) * (1 + center);
  c.near(fit.get_fit().coefs[0], static_cast<double>(offset), 1e-10, tol, "offset");
  c.near(fit.get_fit().coefs[1], static_cast<double>(slope), 1e-10, tol / unit, "slope");
  const std::vector<double> at = {unit * c.sym(20), x.back(), x.front()};
  const Eigen::VectorXd got = fit.predict(at).mean();
  for (std::size_t i = 0; i < at.size(); ++i)
    c.near(got[static_cast<Eigen::Index>(i)], static_cast<double>(offset + slope * at[i]), 1e-10, tol * 30, "prediction");
  if (y.covariance.diagonal()[0] > 0 && c.chance(1, 20)) {
    Eigen::VectorXd var = y.covariance.diagonal();
    var[c.i(0, static_cast<long>(n) - 1)] *= 2;
    const RegressionDataset<double> uneven(x, MarginalDistribution(y.mean, var));
    c.check(pbt::rejects([&]() { model.fit(uneven); }), "unequal variances are not supported but were accepted");
  }
}

PBT_CHECK(null_model, 40000, 300000,
          "the null model predicts mean 0 and independent variances of 1e4 for "
          "any number of features of two types, whatever it was fitted, "
          "rebuilt or serialised from; non-trivial: > 1 feature.") {
  const std::size_t n = c.usually(1, 8, 60), k = c.usually(1, 8, 60);
  const auto fs = features<double>(c, n);
  const auto at = features<Named>(c, k);
  const auto y = targets(c, n);
  c.nontrivial(n > 1 && k > 1);
  const NullModel model;
  const auto check = [&](const auto &p, Eigen::Index size, const std::string &what) {
    c.check(p.mean() == Eigen::VectorXd::Zero(size), what + " mean");
    const MarginalDistribution m = p.marginal();
    const JointDistribution j = p.joint();
    c.check(m.mean == Eigen::VectorXd::Zero(size) && j.mean == m.mean, what + " means");
    c.check(Eigen::VectorXd(m.covariance.diagonal()) == Eigen::VectorXd::Constant(size, 1e4), what + " variance");
    c.check(j.covariance == Eigen::MatrixXd(1e4 * Eigen::MatrixXd::Identity(size, size)), what + " covariance");
  };
  const auto fit = model.fit(RegressionDataset<double>(fs, y));
  check(fit.predict(fs), static_cast<Eigen::Index>(n), "at the data");
  check(fit.predict(at), static_cast<Eigen::Index>(k), "elsewhere");
  const auto rebuilt = model.fit_from_prediction(fs, JointDistribution(y.mean, gen::spd(c, static_cast<Eigen::Index>(n))));
  check(rebuilt.predict(at), static_cast<Eigen::Index>(k), "rebuilt");
}

PBT_CHECK(conditional_gaussian, 120000, 1000000,
          "a conditional Gaussian with 1..10 components, fitted on any subset "
          "of indices (in any order) with noise and predicting any list of "
          "indices (in any order, with repeats, also the fitted ones), against "
          "conditioning in long double; non-trivial: fitted and predicted "
          "indices differ and > 1 of each.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.usually(1, 10, 60));
  const JointDistribution prior(gen::vec(c, n), gen::spd(c, n));
  const MarginalDistribution truth(gen::vec(c, n), gen::variances(c, n));
  c.show("covariance", prior.covariance).show("noise", truth.covariance.diagonal().transpose());
  GroupIndices fitted, asked;
  const auto order = c.permutation(static_cast<std::size_t>(n));
  const std::size_t m = static_cast<std::size_t>(c.i(1, n));
  fitted.assign(order.begin(), order.begin() + static_cast<long>(m));
  const std::size_t k = c.size(1, 8);
  for (std::size_t i = 0; i < k; ++i)
    asked.push_back(static_cast<std::size_t>(c.i(0, n - 1)));
  c.showv("fitted", fitted).showv("asked", asked);
  c.nontrivial(fitted != asked && m > 1 && k > 1);
  const Eigen::Index mi = static_cast<Eigen::Index>(m), ki = static_cast<Eigen::Index>(k);
  MatL kf(mi, mi), cross(mi, ki), kp(ki, ki);
  VecL muf(mi), y(mi), mup(ki);
  const auto at = [](const GroupIndices &g, Eigen::Index i) { return static_cast<Eigen::Index>(g[static_cast<std::size_t>(i)]); };
  for (Eigen::Index i = 0; i < mi; ++i) {
    muf[i] = prior.mean[at(fitted, i)];
    y[i] = truth.mean[at(fitted, i)];
    for (Eigen::Index j = 0; j < mi; ++j)
      kf(i, j) = prior.covariance(at(fitted, i), at(fitted, j));
    kf(i, i) += truth.covariance.diagonal()[at(fitted, i)];
    for (Eigen::Index j = 0; j < ki; ++j)
      cross(i, j) = prior.covariance(at(fitted, i), at(asked, j));
  }
  for (Eigen::Index i = 0; i < ki; ++i) {
    mup[i] = prior.mean[at(asked, i)];
    for (Eigen::Index j = 0; j < ki; ++j)
      kp(i, j) = prior.covariance(at(asked, i), at(asked, j));
  }
  const Conditional given(kf, muf, y);
  c.assume(given.cond < 1e8);
  const Answer want = given.predict(cross, mup, kp);
  const ConditionalGaussian model(prior, truth);
  const auto fit = model.fit(fitted);
  check_prediction(c, fit.predict(asked), want, "conditional");
  const auto p = model.get_prior(asked);
  close(c, p.mean, mup, 0, "prior mean");
  close(c, p.covariance, kp, 0, "prior covariance");
  const auto t = model.get_truth(fitted);
  for (Eigen::Index i = 0; i < mi; ++i) {
    c.eq(t.mean[i], truth.mean[at(fitted, i)], "truth");
    c.eq(t.covariance.diagonal()[i], truth.covariance.diagonal()[at(fitted, i)], "noise of the truth");
  }
}
