// pbt: opt=O0
#include "gpref.hpp"
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/SparseGP>
#include "equal.hpp"
using namespace gpref;

namespace {
template <typename P> std::string seen(const P &p) {
  std::ostringstream o;
  o << std::hexfloat << p.mean().transpose();
  return o.str();
}

template <typename Fit> struct Look {
  std::vector<double> at;
  std::string operator()(const Fit &f) const {
    std::ostringstream o;
    for (const auto &p : f.get_model().get_params())
      o << p.first << pbt::str(p.second.value) << p.second.prior.get_name();
    return o.str() + f.get_model().get_name() + seen(f.predict(at));
  }
};

template <typename M> M decorated(pbt::Case &c, M m) {
  randomize(c, &m);
  const std::size_t n = c.size(0, 2);
  for (std::size_t i = 0; i < n; ++i)
    m.insights["insight " + std::to_string(i)] = "yes";
  return m;
}

std::string any_param(pbt::Case &c, const ParameterStore &params) {
  return std::next(params.begin(), static_cast<long>(c.src.draw(params.size() - 1)))->first;
}

template <typename M> eq::Changes<M> model_changes(pbt::Case &c, const M &m) {
  eq::Changes<M> out = {{"new insight", [](M *x) { x->insights["new"] = "insight"; }}};
  if (!m.insights.empty())
    out.push_back({"insight", [](M *x) { x->insights.begin()->second = "no"; }});
  const auto params = m.get_params();
  if (!params.empty()) {
    const std::string name = any_param(c, params);
    const double v = params.at(name).value;
    const double w = c.chance(1, 4) ? std::nextafter(v, v + 1) : v + 0.25;
    out.push_back({"value of " + name, [=](M *x) { x->set_param_value(name, w); }});
    out.push_back({"prior of " + name, [=](M *x) { x->set_prior(name, LogNormalPrior(0.123, 0.77)); }});
  }
  return out;
}

template <typename M, typename Fitter> void fits(pbt::Case &c, M model, Fitter fitter, std::size_t least, bool noise_matters = true) {
  const auto m = decorated(c, model);
  const auto other = decorated(c, model);
  const std::size_t n = least + c.usually(0, 6, 30);
  RegressionDataset<double> d(features<double>(c, n, false), targets(c, n, 1e-2));
  if (!noise_matters)
    d.targets.covariance.diagonal().setConstant(0.25);
  show(c, "features", d.features);
  c.show("targets", d.targets.mean.transpose()).show("noise", d.targets.covariance.diagonal().transpose());
  const auto at = features<double>(c, c.size(1, 3));
  const auto changes = model_changes(c, m);
  eq::check(c, m, M(m), other.get_params() == m.get_params() ? [&] { M x(m); x.insights["other"] = "one"; return x; }() : other, changes,
            [](const M &x) {
              std::string o = x.get_name();
              for (const auto &p : x.get_params())
                o += p.first + pbt::str(p.second.value) + p.second.prior.get_name();
              return o;
            },
            "model");
  const auto fit = fitter(m, d);
  using F = std::decay_t<decltype(fit)>;
  using Inner = std::decay_t<decltype(fit.get_fit())>;
  auto d2 = d;
  const std::size_t i = c.src.draw(n - 1);
  d2.targets.mean[static_cast<Eigen::Index>(i)] += 0.5;
  const auto another_target = fitter(m, d2);
  eq::Changes<F> fc = {{"targets", [&](F *f) { *f = another_target; }},
                       {"model", [&](F *f) { f->get_model().insights["a"] = "b"; }}};
  for (const auto &mc : changes)
    fc.push_back({"model: " + mc.first, [mc](F *f) { mc.second(&f->get_model()); }});
  auto d3 = d;
  d3.features[i] += 0.3141;
  const auto another_feature = fitter(m, d3);
  auto d4 = d;
  d4.targets.covariance.diagonal()[static_cast<Eigen::Index>(i)] *= 1.5;
  if (noise_matters) {
    fc.push_back({"features", [&](F *f) { *f = another_feature; }});
    const auto another_noise = fitter(m, d4);
    fc.push_back({"noise", [=](F *f) { *f = another_noise; }});
  }
  eq::check(c, fit, fitter(m, d), another_target, fc, Look<F>{at}, "fit model");
  eq::check<Inner>(c, fit.get_fit(), fitter(m, d).get_fit(), another_target.get_fit(),
                   {{"targets", [&](Inner *f) { *f = another_target.get_fit(); }}}, "fit");
  c.nontrivial(n > 2);
}

struct Plain {
  template <typename M> auto operator()(const M &m, const RegressionDataset<double> &d) const { return m.fit(d); }
};
struct Updated { // with the last ones
  template <typename M> auto operator()(const M &m, const RegressionDataset<double> &d) const {
    std::vector<std::size_t> a, b;
    for (std::size_t i = 0; i < d.size(); ++i)
      (2 * i < d.size() ? a : b).push_back(i);
    return m.fit(subset(d, a)).update(subset(d, b));
  }
};
struct Rebuilt {
  template <typename M> auto operator()(const M &m, const RegressionDataset<double> &d) const {
    return m.fit_from_prediction(d.features, m.fit(d).predict(d.features).joint());
  }
};
inline auto name_model() {
  return gp_from_covariance_and_mean(Exponential<EuclideanDistance>(2., 1.5) + measurement_only(IndependentNoise<double>(0.3)), Drift(), "exponential");
}
} // namespace

PBT_CHECK(gp_fits, 3000, 100000,
          "Gaussian processes and fits of them on 1..7 scalar data: equal to "
          "copies and to fits of the same data, different after changing a "
          "target, a feature, a variance, a parameter's value (to the last "
          "bit) or prior, the insights; the originals keep their predictions "
          "when copies change; non-trivial: > 2 data.") {
  fits(c, name_model(), Plain(), 1);
}
PBT_CHECK(updated_gp_fits, 3000, 100000, "as above for fits which were updated.") { fits(c, name_model(), Updated(), 2); }
PBT_CHECK(rebuilt_gp_fits, 3000, 100000, "as above for fits made from predictions.") { fits(c, name_model(), Rebuilt(), 1); }
PBT_CHECK(sparse_gp_fits, 2000, 60000, "as above for sparse Gaussian processes.") {
  const LeaveOneOutGrouper loo;
  fits(c, sparse_gp_from_covariance(SquaredExponential<EuclideanDistance>(2., 1.5) + measurement_only(IndependentNoise<double>(0.3)),
                                    loo, UniformlySpacedInducingPoints(4), "sparse"),
       Plain(), 2);
}
PBT_CHECK(least_squares_fits, 3000, 100000, "as above for straight lines.") { fits(c, LinearRegression(), Plain(), 2, false); }

PBT_CHECK(names_and_ransac, 2000, 60000,
          "models whose names differ are different, as are fits of them; RANSAC "
          "fits equal copies and fits of the same data and differ after "
          "changing the data; non-trivial: always.") {
  const auto m = decorated(c, name_model());
  auto renamed = m;
  renamed.set_name("exponential2");
  c.check(eq::differ(m, renamed), "names");
  const std::size_t n = 3 + c.size(0, 5);
  const RegressionDataset<double> d(features<double>(c, n, false), targets(c, n, 1e-2));
  c.check(eq::differ(m.fit(d), renamed.fit(d)), "fits of models with different names");
  c.check(m.fit(d).get_fit() == renamed.fit(d).get_fit(), "the fit itself is the same");
  const RansacConfig config(c.pick<double>({5., 2., -10.}), 1, 2, 4, 2);
  const auto ransac = m.ransac(DefaultGPRansacStrategy(), config);
  const auto a = ransac.fit(d).get_fit(), b = ransac.fit(d).get_fit();
  c.check(eq::same(a, b), "RANSAC fits of the same data");
  using F = std::decay_t<decltype(a)>;
  c.check(eq::same(a, F(a)) && eq::same(b, F(a)), "copies");
  auto d2 = d;
  d2.targets.mean.array() += 0.01;
  const auto other = ransac.fit(d2).get_fit();
  c.label_if(a.has_fit_model(), "with a consensus");
  if (a.has_fit_model() || other.has_fit_model())
    c.check(eq::differ(a, other), "of other data");
  F changed(a);
  changed.ransac_output.return_code = RANSAC_RETURN_CODE_INVALID_ARGUMENTS;
  c.check(eq::differ(a, changed), "return code");
  F empty(a.ransac_output);
  c.eq(a == empty, !a.has_fit_model(), "without the model");
  c.nontrivial(true);
}
