#ifndef VERIF_C32_PARTIAL_HPP
#define VERIF_C32_PARTIAL_HPP
#include "gpref.hpp"
#include <albatross/NullModel>
#include <cstring>
using namespace gpref;

// Models of which only some kinds of predictions are defined (Kinds is a set of
// bits: 1 mean, 2 marginal, 4 joint).  The definitions are deliberately not
// consistent with each other, so that it shows which of them were used.
namespace albatross {
template <int Kinds> struct Partial;

struct Trace { // what a fit was made of, in order; unusable once destroyed
  double value = 1;
  std::size_t count = 0;
  Trace() = default;
  Trace(const Trace &) = default;
  Trace &operator=(const Trace &) = default;
  ~Trace() {
    volatile double *p = &value;
    *p = -1e300;
  }
  void add(double feature, bool measured, double mean, double variance) {
    value = std::fmod(value * 1.6180339887 + feature * 0.7390851332 + mean * 0.5671432904 + variance * 0.3036630029 +
                          (measured ? 0.25 : 0.),
                      1000.);
    ++count;
  }
  bool operator==(const Trace &o) const { return value == o.value && count == o.count; }
};

template <int Kinds> struct Fit<Partial<Kinds>> : Trace {};
// what a Fit<Partial> becomes when it is updated with something else
template <int Kinds> struct Grown {};
template <int Kinds> struct Fit<Grown<Kinds>> : Trace {};

struct Says {
  static double raw(double x) { return x; }
  static double raw(const Measurement<double> &x) { return x.value; }
  static double raw(const Named &x) { return 100. + x.who + 0.01 * x.at; }
  static bool measured(double) { return false; }
  static bool measured(const Named &) { return false; }
  static bool measured(const Measurement<double> &) { return true; }
  template <typename F> static double number(const F &f) { return raw(f) + (measured(f) ? 7. : 0.); }

  template <typename F> static Eigen::VectorXd mean(const std::vector<F> &xs, const Trace &t, double scale, double kind) {
    Eigen::VectorXd out(static_cast<Eigen::Index>(xs.size()));
    for (std::size_t i = 0; i < xs.size(); ++i)
      out[static_cast<Eigen::Index>(i)] = kind + scale * number(xs[i]) + t.value;
    return out;
  }
  template <typename F> static Eigen::MatrixXd cov(const std::vector<F> &xs, const Trace &t, double kind) {
    const auto n = static_cast<Eigen::Index>(xs.size());
    Eigen::MatrixXd out(n, n);
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index j = 0; j < n; ++j)
        out(i, j) = (i == j ? 2e4 : 0.) + kind +
                    1e-3 * number(xs[static_cast<std::size_t>(i)]) * number(xs[static_cast<std::size_t>(j)]) +
                    1e-3 * t.value * t.value;
    return out;
  }
};

template <int Kinds> struct Partial : public ModelBase<Partial<Kinds>> {
  ALBATROSS_DECLARE_PARAMS(scale);
  Partial() { scale = {2., PositivePrior()}; }
  std::string get_name() const { return "partial"; }

  // a model need not be able to predict nothing
  static void asked(std::size_t n) {
    if (n == 0)
      throw pbt::Fail{"a prediction of nothing was asked of the model"};
  }
  template <typename F> static Trace traced(Trace t, const std::vector<F> &xs, const MarginalDistribution &y) {
    for (std::size_t i = 0; i < xs.size(); ++i) {
      const auto k = static_cast<Eigen::Index>(i);
      t.add(Says::raw(xs[i]), Says::measured(xs[i]), y.mean[k], y.covariance.diagonal()[k]);
    }
    return t;
  }
  template <typename F> Fit<Partial> _fit_impl(const std::vector<F> &xs, const MarginalDistribution &y) const {
    Fit<Partial> f;
    static_cast<Trace &>(f) = traced(f, xs, y);
    return f;
  }
  Fit<Partial> _update_impl(const Fit<Partial> &old, const std::vector<double> &xs, const MarginalDistribution &y) const {
    Fit<Partial> f(old);
    static_cast<Trace &>(f) = traced(f, xs, y);
    return f;
  }
  Fit<Grown<Kinds>> _update_impl(const Fit<Partial> &old, const std::vector<Named> &xs,
                                 const MarginalDistribution &y) const {
    Fit<Grown<Kinds>> f;
    static_cast<Trace &>(f) = traced(old, xs, y);
    return f;
  }

  template <typename F, typename T, int K = Kinds, std::enable_if_t<(K & 1) != 0, int> = 0>
  Eigen::VectorXd _predict_impl(const std::vector<F> &xs, const Fit<T> &f, PredictTypeIdentity<Eigen::VectorXd> &&) const {
    asked(xs.size());
    return Says::mean(xs, f, scale.value, 0);
  }
  template <typename F, typename T, int K = Kinds, std::enable_if_t<(K & 2) != 0, int> = 0>
  MarginalDistribution _predict_impl(const std::vector<F> &xs, const Fit<T> &f,
                                     PredictTypeIdentity<MarginalDistribution> &&) const {
    asked(xs.size());
    return MarginalDistribution(Says::mean(xs, f, scale.value, 1000), Eigen::VectorXd(Says::cov(xs, f, 10).diagonal()));
  }
  template <typename F, typename T, int K = Kinds, std::enable_if_t<(K & 4) != 0, int> = 0>
  JointDistribution _predict_impl(const std::vector<F> &xs, const Fit<T> &f,
                                  PredictTypeIdentity<JointDistribution> &&) const {
    asked(xs.size());
    return JointDistribution(Says::mean(xs, f, scale.value, 2000), Says::cov(xs, f, 20));
  }
};
} // namespace albatross

namespace {
// overwrites what the stack held
__attribute__((noinline)) double scribble(int x) {
  volatile double there[2048];
  for (int i = 0; i < 2048; ++i)
    there[i] = -1e250 - x - i;
  return there[x & 2047];
}

template <int Kinds, typename P, typename F>
void check_prediction(pbt::Case &c, const P &p, const std::vector<F> &xs, const Trace &t, double scale, const std::string &how) {
  c.eq(p.size(), xs.size(), how + ": size");
  const bool none = xs.empty();
  const double mean_kind = (Kinds & 1) ? 0 : (Kinds & 2) ? 1000 : 2000;
  const Eigen::VectorXd want_mean = none ? Eigen::VectorXd(0) : Says::mean(xs, t, scale, mean_kind);
  c.check(p.mean() == want_mean, how + ": mean");
  c.check(p.template get<Eigen::VectorXd>() == want_mean, how + ": get mean");
  if constexpr ((Kinds & 6) != 0) {
    const double kind = (Kinds & 2) ? 1000 : 2000;
    const Eigen::VectorXd want = none ? Eigen::VectorXd(0) : Says::mean(xs, t, scale, kind);
    const Eigen::VectorXd want_var =
        none ? Eigen::VectorXd(0) : Eigen::VectorXd(Says::cov(xs, t, kind / 100).diagonal());
    const auto check = [&](const MarginalDistribution &m, const std::string &way) {
      c.check(m.mean.size() == want.size() && m.mean == want, how + way + " mean");
      c.check(m.covariance.diagonal().size() == want.size() && m.covariance.diagonal() == want_var, how + way + " variance");
    };
    check(p.marginal(), ": marginal");
    check(p.template get<MarginalDistribution>(), ": get marginal");
    check(static_cast<MarginalDistribution>(p), ": cast to marginal");
  }
  if constexpr ((Kinds & 4) != 0) {
    const Eigen::VectorXd want = none ? Eigen::VectorXd(0) : Says::mean(xs, t, scale, 2000);
    const Eigen::MatrixXd want_cov = none ? Eigen::MatrixXd(0, 0) : Says::cov(xs, t, 20);
    const auto check = [&](const JointDistribution &j, const std::string &way) {
      c.check(j.mean.size() == want.size() && j.mean == want, how + way + " mean");
      c.check(j.covariance.rows() == want_cov.rows() && j.covariance.cols() == want_cov.cols() && j.covariance == want_cov,
              how + way + " covariance");
    };
    check(p.joint(), ": joint");
    check(p.template get<JointDistribution>(), ": get joint");
    check(static_cast<JointDistribution>(p), ": cast to joint");
  }
}

template <int Kinds, typename Fitted, typename F>
void check_fit(pbt::Case &c, const Fitted &fit, const std::vector<F> &xs, const Trace &t, double scale, const std::string &how) {
  c.check(static_cast<const Trace &>(fit.get_fit()) == t, how + ": the fit is not of these data");
  check_prediction<Kinds>(c, fit.predict(xs), xs, t, scale, how);
  const auto kept = fit.predict(xs);
  scribble(1);
  check_prediction<Kinds>(c, kept, xs, t, scale, how + ", kept");
  check_prediction<Kinds>(c, Fitted(fit).predict(xs), xs, t, scale, how + ", of a temporary");
  const auto outlives = Fitted(fit).predict(xs);
  scribble(2);
  check_prediction<Kinds>(c, outlives, xs, t, scale, how + ", outliving its fit");
  const auto moved = [&] {
    Fitted local(fit);
    return std::move(local).predict(xs);
  }();
  scribble(3);
  check_prediction<Kinds>(c, moved, xs, t, scale, how + ", outliving a moved fit");
  const auto copied = moved;
  check_prediction<Kinds>(c, copied, xs, t, scale, how + ", copied");
  if constexpr (std::is_same<F, double>::value) {
    const auto ms = as_measurements(xs);
    check_prediction<Kinds>(c, fit.predict_with_measurement_noise(xs), ms, t, scale, how + ", measured");
    const auto noisy = Fitted(fit).predict_with_measurement_noise(xs);
    scribble(4);
    check_prediction<Kinds>(c, noisy, ms, t, scale, how + ", measured, of a temporary");
  }
  const Fitted copy(fit);
  c.check(copy == fit, how + ": a copy is equal");
  // and nothing of this changed it
  c.check(static_cast<const Trace &>(fit.get_fit()) == t, how + ": predicting changed the fit");
}

std::vector<double> numbers(pbt::Case &c, std::size_t n) {
  std::vector<double> out;
  for (std::size_t i = 0; i < n; ++i)
    out.push_back(c.sym(9));
  return out;
}

RegressionDataset<double> numbered(pbt::Case &c, std::size_t n) {
  const auto k = static_cast<Eigen::Index>(n);
  const auto xs = numbers(c, n);
  return RegressionDataset<double>(xs, MarginalDistribution(gen::vec(c, k), gen::variances(c, k)));
}

template <int Kinds> void history(pbt::Case &c) {
  Partial<Kinds> model;
  const double scale = c.coin() ? 2. : c.logreal(0.1, 10);
  model.set_param_value("scale", scale);
  const auto before = model.get_params();
  const auto d = numbered(c, c.usually(0, 5, 60));
  const std::vector<double> xs = numbers(c, c.usually(0, 5, 60));
  std::vector<Named> names;
  const std::size_t n_names = c.size(0, 4);
  for (std::size_t i = 0; i < n_names; ++i)
    names.push_back(Feature<Named>::make(c));
  c.show("data", d.size()).show("predicted", xs.size()).show("kinds", Kinds);
  if (c.coin())
    model.set_thread_pool(std::make_shared<ThreadPool>(c.size(1, 3)));

  Trace t = Partial<Kinds>::traced(Trace(), d.features, d.targets);
  auto fit = model.fit(d.features, d.targets);
  c.check(fit == model.fit(d), "fitting a dataset");
  check_fit<Kinds>(c, fit, xs, t, scale, "fit");
  check_fit<Kinds>(c, fit, names, t, scale, "fit, other features");
  const RegressionDataset<Measurement<double>> md(as_measurements(d.features), d.targets);
  check_fit<Kinds>(c, model.fit(md), xs, Partial<Kinds>::traced(Trace(), md.features, md.targets), scale,
                   "fit of measurements");
  check_fit<Kinds>(c, model.fit(d, d), xs, Partial<Kinds>::traced(t, d.features, d.targets), scale, "fit of two datasets");

  // a fit keeps the parameters which it was made with
  model.set_param_value("scale", scale + 1);
  check_fit<Kinds>(c, fit, xs, t, scale, "after changing the model");
  check_fit<Kinds>(c, model.fit(d), xs, t, scale + 1, "with other parameters");
  model.set_param_value("scale", scale);

  const std::size_t steps = c.size(0, 4);
  std::size_t all = 0;
  for (std::size_t s = 0; s < steps; ++s) {
    const auto more = numbered(c, c.size(0, 4));
    all += more.size();
    const Trace t_new = Partial<Kinds>::traced(t, more.features, more.targets);
    const int how = static_cast<int>(c.src.draw(5));
    c.show("step", how);
    const auto old = fit;
    const auto previous = fit.predict(xs).mean();
    if (how == 0)
      fit = fit.update(more);
    else if (how == 1)
      fit = fit.update(more.features, more.targets);
    else if (how == 2)
      fit = update(fit, more);
    else if (how == 3)
      fit.update_in_place(more);
    else if (how == 4)
      fit.update_in_place(more.features, more.targets);
    else { // not kept
      const auto other = fit.update(more);
      check_fit<Kinds>(c, other, xs, t_new, scale, "updated copy");
      c.check(fit == old, "updating changed the original");
    }
    c.check(old.predict(xs).mean() == previous, "updating changed a copy");
    if (how < 5)
      t = t_new;
    check_fit<Kinds>(c, fit, xs, t, scale, "updated");
  }
  // becomes another type of fit
  const auto k = static_cast<Eigen::Index>(names.size());
  const RegressionDataset<Named> nd(names, MarginalDistribution(gen::vec(c, k), gen::variances(c, k)));
  const auto grown = fit.update(nd);
  check_fit<Kinds>(c, grown, xs, Partial<Kinds>::traced(t, nd.features, nd.targets), scale, "grown");
  check_fit<Kinds>(c, update(fit, nd), names, Partial<Kinds>::traced(t, nd.features, nd.targets), scale, "grown, other features");
  check_fit<Kinds>(c, fit, xs, t, scale, "after growing a copy");
  c.check(model.get_params() == before, "the model changed");
  c.nontrivial(!xs.empty() && d.size() > 0 && all > 0);
}
} // namespace

#endif
