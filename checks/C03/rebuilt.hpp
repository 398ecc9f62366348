#pragma once
#include "gpref.hpp"
using namespace gpref;

namespace c03 {
// features which are at least `gap` apart, so that their prior covariance can
// be solved with
template <typename F> double place(const F &);
template <> inline double place(const double &x) { return x; }
template <> inline double place(const Named &x) { return x.at + 100 * x.who; }

template <typename F> std::vector<F> apart(pbt::Case &c, std::size_t n, double gap) {
  std::vector<F> out;
  for (std::size_t tries = 0; tries < 50 + 2 * n && out.size() < n; ++tries) {
    const F f = Feature<F>::make(c);
    bool ok = true;
    for (const auto &o : out)
      ok = ok && std::fabs(place(f) - place(o)) >= gap;
    if (ok)
      out.push_back(f);
  }
  c.assume(!out.empty());
  return out;
}

struct Prior {
  Eigen::MatrixXd k;
  double cond;
};
template <typename Model, typename F> Prior prior_of(const Model &m, const std::vector<F> &u) {
  Prior p;
  p.k = pairwise(m.get_covariance(), u, u).template cast<double>();
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> e(p.k);
  p.cond = e.eigenvalues().minCoeff() > 0 ? e.eigenvalues().maxCoeff() / e.eigenvalues().minCoeff() : 1e300;
  return p;
}

template <typename F, typename Model> void arbitrary(pbt::Case &c, Model model) {
  randomize(c, &model);
  const auto u = apart<F>(c, c.usually(1, 8, 40), 0.2);
  const auto prior = prior_of(model, u);
  c.assume(prior.cond < 1e7);
  const Eigen::Index n = static_cast<Eigen::Index>(u.size());
  Eigen::MatrixXd p;
  const int kind = static_cast<int>(c.i(0, 3));
  if (kind == 0)
    p = gen::spd(c, n);
  else if (kind == 1)
    p = gen::psd(c, n, c.i(0, n)); // singular
  else if (kind == 2)
    p = prior.k * c.real(0, 1);
  else
    p = prior.k;
  const JointDistribution want(gen::vec(c, n), p);
  show(c, "features", u);
  c.show("mean", want.mean.transpose()).show("cov", p);
  const auto fit = model.fit_from_prediction(u, want);
  const auto got = fit.predict(u);
  Answer a;
  a.mean = want.mean.cast<LD>();
  a.cov = p.cast<LD>();
  a.mean_tol = 1e-14 * static_cast<double>(n) * prior.cond * (10 + means(model.get_mean(), u).template cast<double>().norm() + want.mean.norm()) + 1e-11;
  a.cov_tol = 1e-14 * static_cast<double>(n) * prior.cond * (prior.k.norm() + p.norm()) + 1e-11;
  check_prediction(c, got, a, "rebuilt");
  // any subset of them, in any order
  const auto perm = c.permutation(u.size());
  std::vector<F> some;
  std::vector<std::size_t> at;
  for (std::size_t i : perm)
    if (c.coin()) {
      some.push_back(u[i]);
      at.push_back(i);
    }
  if (!some.empty()) {
    Answer b = a;
    b.mean = VecL(static_cast<Eigen::Index>(at.size()));
    b.cov = MatL(static_cast<Eigen::Index>(at.size()), static_cast<Eigen::Index>(at.size()));
    for (std::size_t i = 0; i < at.size(); ++i) {
      b.mean[static_cast<Eigen::Index>(i)] = a.mean[static_cast<Eigen::Index>(at[i])];
      for (std::size_t j = 0; j < at.size(); ++j)
        b.cov(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)) =
            a.cov(static_cast<Eigen::Index>(at[i]), static_cast<Eigen::Index>(at[j]));
    }
    check_prediction(c, fit.predict(some), b, "rebuilt, some of the features");
  }
  c.label_if(kind == 1, "singular");
  c.nontrivial(n > 1);
}

// The prior with its belief about the values at `u` replaced by N(m, p), then
// noisy measurements (which may be of features in u) are added to it.
template <typename F, typename Model> void replaced(pbt::Case &c, Model model) {
  randomize(c, &model);
  const auto u = apart<F>(c, c.usually(1, 6, 30), 0.4);
  const auto prior = prior_of(model, u);
  c.assume(prior.cond < 1e4);
  const Eigen::Index n = static_cast<Eigen::Index>(u.size());
  // less certain than the prior about nothing
  Eigen::MatrixXd p = prior.k;
  if (c.coin()) {
    p *= c.real(0.01, 1);
  } else {
    const Eigen::MatrixXd noise = gen::spd(c, n);
    p = (prior.k - prior.k * (prior.k + noise).llt().solve(prior.k)).eval();
    p = (0.5 * (p + p.transpose())).eval();
  }
  const JointDistribution belief(gen::vec(c, n), p);
  auto more = features<F>(c, c.usually(1, 5, 30));
  for (auto &f : more)
    if (c.chance(1, 3))
      f = c.pick(u);
  const auto y = targets(c, more.size(), 1e-2);
  auto test = features<F>(c, c.size(1, 4));
  for (auto &t : test)
    if (c.chance(1, 3))
      t = c.coin() ? c.pick(u) : c.pick(more);
  show(c, "features", u);
  c.show("mean", belief.mean.transpose()).show("cov", p);
  show(c, "more", more);
  c.show("targets", y.mean.transpose()).show("noise", y.covariance.diagonal().transpose());
  show(c, "test", test);

  const auto cov = model.get_covariance();
  const auto mean = model.get_mean();
  const auto meas = as_measurements(more), tmeas = as_measurements(test);
  const MatL kuu = pairwise(cov, u, u);
  const Eigen::LLT<MatL> llt(kuu);
  const MatL w = llt.solve(kuu - p.template cast<LD>());
  const VecL shift = llt.solve(belief.mean.template cast<LD>() - means(mean, u));
  // a: u x A, b: u x B
  auto between = [&](const MatL &kab, const MatL &kua, const MatL &kub) {
    return MatL(kab - kua.transpose() * w * llt.solve(kub));
  };
  const MatL kum = pairwise(cov, u, meas);
  const VecL mu_m = means(mean, meas) + kum.transpose() * shift;
  MatL s = between(pairwise(cov, meas, meas), kum, kum);
  s.diagonal() += diag(y);
  const Conditional given(s, mu_m, y.mean.template cast<LD>());
  c.assume(given.cond < 1e5);
  const double loss = 1e-14 * prior.cond * prior.cond * static_cast<double>(n + 3) *
                      (10 + static_cast<double>(given.cond)) + 1e-9;
  auto want = [&](const auto &t) {
    const MatL kut = pairwise(cov, u, t);
    const MatL prior_tt = between(pairwise(cov, t, t), kut, kut);
    Answer a = given.predict(between(pairwise(cov, more, t), kum, kut), // new measurement noise
                             means(mean, t) + kut.transpose() * shift, prior_tt);
    const double scale = 1 + static_cast<double>(prior_tt.norm() + kut.norm() + s.norm());
    a.mean_tol += loss * scale * (10 + static_cast<double>(shift.norm() + given.resid.norm()));
    a.cov_tol += loss * scale * scale;
    return a;
  };
  const auto rebuilt = model.fit_from_prediction(u, belief);
  const auto want_test = want(test);
  c.assume(want_test.mean_tol < 0.05 && want_test.cov_tol < 0.05);
  check_prediction(c, rebuilt.update(more, y).predict(test), want_test, "replaced and updated");
  check_prediction(c, rebuilt.update(more, y).predict(tmeas), want(tmeas), "replaced and updated, measurements");
  if (more.size() > 1) {
    const std::size_t cut = 1 + c.src.draw(more.size() - 2);
    const RegressionDataset<F> rest(more, y);
    std::vector<std::size_t> one, two;
    for (std::size_t i = 0; i < more.size(); ++i)
      (i < cut ? one : two).push_back(i);
    const auto first = rebuilt.update(subset(rest, one));
    check_prediction(c, first.update(subset(rest, two)).predict(test), want_test, "replaced and updated twice");
    check_prediction(c, rebuilt.update(subset(rest, two)).update(subset(rest, one)).predict(test), want_test,
                     "replaced and updated twice, the other way");
  }
  c.nontrivial(n > 1 && more.size() > 1);
}

template <typename F, typename Model> void sufficient(pbt::Case &c, Model model) {
  randomize(c, &model);
  const auto u = apart<F>(c, c.usually(1, 10, 40), 0.3);
  const auto prior = prior_of(model, u);
  c.assume(prior.cond < 1e5);
  // the data is about the first few of them
  const std::size_t k = u.size() == 1 ? 1 : 1 + c.src.draw(u.size() - 2);
  std::vector<F> train(u.begin(), u.begin() + static_cast<long>(k));
  if (c.coin())
    train.push_back(train[0]); // measured twice
  const auto y = targets(c, train.size(), 1e-2);
  show(c, "rebuilt at", u);
  show(c, "train", train);
  c.show("targets", y.mean.transpose()).show("noise", y.covariance.diagonal().transpose());
  const auto given = observe(model, train, y);
  c.assume(given.cond < 1e6);
  const auto fit = model.fit(train, y);
  const auto joint = fit.predict(u).joint();
  const auto rebuilt = model.fit_from_prediction(u, joint);
  auto check = [&](const auto &f, const Answer &want, const std::string &what, const auto &test, double extra) {
    Answer a = want;
    a.mean_tol += 1e-9 + extra * 1e-14 * prior.cond * prior.cond * (10 + static_cast<double>(want.mean.norm()) + joint.mean.norm());
    a.cov_tol += 1e-9 + extra * 1e-14 * prior.cond * prior.cond * (prior.k.norm() + 1);
    check_prediction(c, f.predict(test), a, what, 10);
  };
  auto test = features<F>(c, c.size(1, 4));
  test.push_back(c.pick(u));
  show(c, "test", test);
  check(rebuilt, predict(model, given, train, test), "rebuilt", test, 1);
  const auto meas = as_measurements(test);
  check(rebuilt, predict(model, given, train, meas), "rebuilt, measurements", meas, 1);
  // and more data can be added to it
  auto more = features<F>(c, c.size(1, 4));
  if (k < u.size()) // measuring where only a prediction was known
    for (auto &f : more)
      if (c.chance(1, 3))
        f = u[k + c.src.draw(u.size() - k - 1)];
  const auto my = targets(c, more.size(), 1e-2);
  show(c, "more", more);
  std::vector<F> all = train;
  all.insert(all.end(), more.begin(), more.end());
  const auto ay = concatenate_marginals(y, my);
  // (the noise of repeated measurements would be shared)
  for (std::size_t i = 0; i < more.size(); ++i)
    for (const auto &t : train)
      c.assume(!(more[i] == t));
  const auto given_all = observe(model, all, ay);
  c.assume(given_all.cond < 1e6);
  const auto want_all = predict(model, given_all, all, test);
  check(rebuilt.update(more, my), want_all, "rebuilt and updated", test, 30);
  // in two steps
  if (more.size() > 1) {
    const std::size_t cut = 1 + c.src.draw(more.size() - 2);
    const RegressionDataset<F> rest(more, my);
    std::vector<std::size_t> one, two;
    for (std::size_t i = 0; i < more.size(); ++i)
      (i < cut ? one : two).push_back(i);
    const auto again = rebuilt.update(subset(rest, one)).update(subset(rest, two));
    check(again, want_all, "rebuilt and updated twice", test, 30);
  }
  c.nontrivial(u.size() > 2);
}
} // namespace c03
