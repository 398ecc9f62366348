// pbt:
#include "gpref.hpp"
#include <albatross/Graph>
#include <albatross/Ransac>
#include "equal.hpp"
using namespace gpref;

namespace {
double other_than(pbt::Case &c, double x) {
  const double y = c.coin() ? x + c.pick<double>({1., -1., 0.125}) : c.sym(5);
  // (or the next double)
  return y == x || c.chance(1, 6) ? std::nextafter(x, x > 0 ? 0. : 10.) : y;
}

using Priors = std::vector<PriorContainer>;
// the same every time, no two are equal
Priors all_priors(double a, double b, double a2, double b2) {
  return {UninformativePrior(),         FixedPrior(),
          NonNegativePrior(),           PositivePrior(),
          UniformPrior(a, a + b),       UniformPrior(a2, a2 + b2 + b + 1),
          LogScaleUniformPrior(b, 2 * b + 1), LogScaleUniformPrior(b2, 2 * b2 + b + 2),
          GaussianPrior(a, b),          GaussianPrior(a2, b),
          GaussianPrior(a, b2),         PositiveGaussianPrior(a, b),
          PositiveGaussianPrior(a2, b), PositiveGaussianPrior(a, b2),
          LogNormalPrior(a, b),         LogNormalPrior(a2, b),
          LogNormalPrior(a, b2)};
}

JointDistribution joint(pbt::Case &c, Eigen::Index n) {
  return JointDistribution(gen::vec(c, n), n == 0 ? Eigen::MatrixXd(0, 0) : gen::spd(c, n));
}
MarginalDistribution marginal(pbt::Case &c, Eigen::Index n) {
  return MarginalDistribution(gen::vec(c, n), gen::variances(c, n));
}
Eigen::Index at(pbt::Case &c, Eigen::Index n) {
  return static_cast<Eigen::Index>(c.src.draw(static_cast<std::uint64_t>(n - 1)));
}
Eigen::Index another_size(pbt::Case &c, Eigen::Index n) {
  const Eigen::Index m = c.i(0, 7);
  return m == n ? n + 1 : m;
}
std::string text(const Eigen::MatrixXd &m) {
  std::ostringstream o;
  o << m.rows() << "x" << m.cols() << ":";
  for (Eigen::Index i = 0; i < m.size(); ++i)
    o << std::hexfloat << m.data()[i] << " ";
  return o.str();
}
struct Text {
  std::string operator()(const MarginalDistribution &d) const { return text(d.mean) + text(d.covariance.diagonal()); }
  std::string operator()(const JointDistribution &d) const { return text(d.mean) + text(d.covariance); }
  std::string operator()(const RegressionDataset<double> &d) const {
    std::ostringstream o;
    for (const auto &f : d.features)
      o << std::hexfloat << f << " ";
    for (const auto &m : d.metadata)
      o << m.first << "=" << m.second << " ";
    return o.str() + (*this)(d.targets);
  }
};
} // namespace

PBT_CHECK(priors_and_parameters, 20000, 1000000,
          "priors of every kind with random arguments: each equals what was "
          "made with the same arguments and its copies and nothing else (other "
          "kinds, other arguments, down to the last bit), parameters and "
          "stores of them equal copies and differ after changing a value, a "
          "prior, or a name; non-trivial: always.") {
  const double a = c.sym(5), b = c.logreal(1e-3, 10);
  const double a2 = other_than(c, a);
  const double b2 = c.chance(1, 4) ? std::nextafter(b, 100.) : b + c.logreal(1e-3, 10);
  const Priors one = all_priors(a, b, a2, b2), two = all_priors(a, b, a2, b2);
  const bool distinct = a + b > a && a2 + b2 + b + 1 > a2;
  c.show("arguments", std::vector<double>{a, b, a2, b2}.size());
  c.check(distinct, "generator");
  for (std::size_t i = 0; i < one.size(); ++i)
    for (std::size_t j = 0; j < two.size(); ++j) {
      c.eq(one[i] == two[j], i == j, "prior " + std::to_string(i) + " == " + std::to_string(j));
      c.eq(one[i] != two[j], i != j, "prior " + std::to_string(i) + " != " + std::to_string(j));
    }
  const std::size_t i = c.src.draw(one.size() - 1), j = (i + 1 + c.src.draw(one.size() - 2)) % one.size();
  eq::check<PriorContainer>(c, one[i], two[i], one[j], {{"kind", [&](PriorContainer *p) { *p = one[j]; }}},
                            [](const PriorContainer &p) { return p.get_name() + pbt::str(p.lower_bound()) + pbt::str(p.upper_bound()); },
                            "prior");
  const double v = c.sym(5), w = other_than(c, v);
  eq::check<Parameter>(c, Parameter(v, one[i]), Parameter(v, two[i]), Parameter(w, one[j]),
                       {{"value", [&](Parameter *p) { p->value = w; }}, {"prior", [&](Parameter *p) { p->prior = one[j]; }}},
                       [](const Parameter &p) { return pbt::str(p.value) + p.prior.get_name(); }, "parameter");
  c.check(Parameter(v, one[i]) == v && !(Parameter(v, one[i]) == w), "parameter and value");
  c.check(!(Parameter(v, one[i]) != Parameter(v, two[i])) && Parameter(v, one[i]) != Parameter(w, one[i]) &&
              Parameter(v, one[i]) != Parameter(v, one[j]),
          "!=");
  c.nontrivial(true);
}

PBT_CHECK(distributions_and_datasets, 30000, 1000000,
          "marginal and joint distributions, datasets and linear combinations "
          "of 0..6 elements: equal to copies and to ones made of the same "
          "numbers, different after changing any one number (by a lot or by "
          "its last bit), a feature, an entry of the metadata, or the size, "
          "and unchanged when copies of them change; non-trivial: > 1 "
          "element.") {
  const Eigen::Index n = static_cast<Eigen::Index>(c.usually(0, 6, 40)), m = another_size(c, n);
  const auto jd = joint(c, n), jo = joint(c, m);
  const auto md = marginal(c, n), mo = marginal(c, m);
  eq::Changes<JointDistribution> jc = {{"size", [&](JointDistribution *d) { *d = jo; }}};
  eq::Changes<MarginalDistribution> mc = {{"size", [&](MarginalDistribution *d) { *d = mo; }}};
  if (n > 0) {
    const Eigen::Index i = at(c, n), j = at(c, n);
    const double v = other_than(c, jd.mean[i]), w = other_than(c, jd.covariance(i, j));
    jc.push_back({"mean", [=](JointDistribution *d) { d->mean[i] = v; }});
    jc.push_back({"covariance", [=](JointDistribution *d) { d->covariance(i, j) = w; }});
    const double x = other_than(c, md.mean[i]), y = other_than(c, md.covariance.diagonal()[j]);
    mc.push_back({"mean", [=](MarginalDistribution *d) { d->mean[i] = x; }});
    mc.push_back({"variance", [=](MarginalDistribution *d) { d->covariance.diagonal()[j] = y; }});
  }
  c.show("joint", jd.mean.transpose()).show("marginal", md.mean.transpose());
  eq::check(c, jd, JointDistribution(jd.mean, jd.covariance), jo, jc, Text(), "joint");
  eq::check(c, md, MarginalDistribution(md.mean, Eigen::VectorXd(md.covariance.diagonal())), mo, mc, Text(), "marginal");
  c.check(!jd.approximately_equal(jo) && !jo.approximately_equal(jd), "joint distributions of different sizes");
  c.check(!md.approximately_equal(mo) && !mo.approximately_equal(md), "marginal distributions of different sizes");
  c.check(jd.approximately_equal(jd) && md.approximately_equal(md), "approximately itself");

  const auto make = [&](Eigen::Index k, const MarginalDistribution &y) {
    RegressionDataset<double> d(features<double>(c, static_cast<std::size_t>(k)), y);
    if (c.coin())
      d.metadata["who"] = "me";
    return d;
  };
  const auto d = make(n, md), o = make(m, mo);
  auto again = RegressionDataset<double>(d.features, d.targets);
  again.metadata = d.metadata;
  eq::Changes<RegressionDataset<double>> dc = {
      {"new metadata", [](RegressionDataset<double> *x) { x->metadata["when"] = "now"; }},
      {"size", [&](RegressionDataset<double> *x) { *x = o; }}};
  if (!d.metadata.empty()) {
    dc.push_back({"metadata", [](RegressionDataset<double> *x) { x->metadata["who"] = "you"; }});
    dc.push_back({"less metadata", [](RegressionDataset<double> *x) { x->metadata.clear(); }});
  }
  if (n > 0) {
    const Eigen::Index i = at(c, n);
    const double f = other_than(c, d.features[static_cast<std::size_t>(i)]), v = other_than(c, md.mean[i]);
    const double y = other_than(c, md.covariance.diagonal()[i]);
    dc.push_back({"feature", [=](RegressionDataset<double> *x) { x->features[static_cast<std::size_t>(i)] = f; }});
    dc.push_back({"target", [=](RegressionDataset<double> *x) { x->targets.mean[i] = v; }});
    dc.push_back({"noise", [=](RegressionDataset<double> *x) { x->targets.covariance.diagonal()[i] = y; }});
  }
  eq::check(c, d, again, o, dc, Text(), "dataset");

  using L = LinearCombination<double>;
  const L l(d.features, md.mean), lo(o.features, mo.mean);
  eq::Changes<L> lc = {{"size", [&](L *x) { *x = lo; }}};
  if (n > 0) {
    const Eigen::Index i = at(c, n);
    const double f = other_than(c, d.features[static_cast<std::size_t>(i)]), v = other_than(c, md.mean[i]);
    lc.push_back({"value", [=](L *x) { x->values[static_cast<std::size_t>(i)] = f; }});
    lc.push_back({"coefficient", [=](L *x) { x->coefficients[i] = v; }});
  }
  eq::check(c, l, L(d.features, md.mean), lo, lc, "linear combination");
  c.nontrivial(n > 1);
}

PBT_CHECK(matrix_representations, 20000, 1000000,
          "factorisations, direct inverses, explained covariances and block "
          "symmetric matrices of 0..6 rows: equal to copies and to ones made "
          "of the same numbers, different from ones of a different matrix, of "
          "a different size, and from empty ones, with solutions which copies "
          "keep; non-trivial: > 1 row.") {
  using LDLT = Eigen::SerializableLDLT;
  const Eigen::Index n = static_cast<Eigen::Index>(c.usually(1, 6, 30)), m = std::max<Eigen::Index>(1, another_size(c, n));
  const Eigen::MatrixXd a = gen::spd(c, n), o = gen::spd(c, m == n ? n + 1 : m);
  Eigen::MatrixXd changed = a;
  const Eigen::Index i = at(c, n);
  changed(i, i) *= 1.5;
  c.show("matrix", a);
  const Eigen::VectorXd rhs = gen::vec(c, n);
  const auto solves = [&](const auto &x) { return x.rows() == rhs.size() ? text(x.solve(rhs)) : std::string(); };
  const auto ldlt_solves = [&](const LDLT &x) { return x.isPositive() && x.rows() == rhs.size() ? text(x.solve(rhs)) : std::string(); };
  const LDLT l(a), lo(o), lc(changed);
  eq::check<LDLT>(c, l, LDLT(a), lo,
                  {{"numbers", [&](LDLT *x) { *x = lc; }}, {"size", [&](LDLT *x) { *x = lo; }}, {"emptiness", [&](LDLT *x) { *x = LDLT(); }}},
                  [&](const LDLT &x) { return x.rows() == rhs.size() ? text(x.solve(rhs)) : std::string(); }, "factorisation");
  c.check(eq::same(LDLT(), LDLT()), "empty factorisations");
  DirectInverse di(a), dio(o), dic(changed);
  eq::check<DirectInverse>(c, di, DirectInverse(a), dio,
                           {{"numbers", [&](DirectInverse *x) { *x = dic; }}, {"size", [&](DirectInverse *x) { *x = dio; }}}, solves,
                           "direct inverse");
  const ExplainedCovariance e(l, changed), eo(lo, o);
  eq::check<ExplainedCovariance>(c, e, ExplainedCovariance(a, changed), eo,
                                 {{"outer", [&](ExplainedCovariance *x) { *x = ExplainedCovariance(lc, changed); }},
                                  {"inner", [&](ExplainedCovariance *x) { *x = ExplainedCovariance(l, a); }},
                                  {"size", [&](ExplainedCovariance *x) { *x = eo; }}},
                                 solves, "explained covariance");
  // the blocks of one definite matrix
  if (n > 1) {
    const Eigen::Index k = 1 + at(c, n - 1), r = n - k;
    const Eigen::MatrixXd top = a.topLeftCorner(k, k), b = a.topRightCorner(k, r), d = a.bottomRightCorner(r, r);
    using B = BlockSymmetric<LDLT>;
    const LDLT top_ldlt(top);
    const B block(top_ldlt, b, d);
    Eigen::MatrixXd b2 = b, d2 = d, top2 = top;
    b2(at(c, k), at(c, r)) *= 0.5;
    d2(at(c, r), at(c, r)) += 100.;
    top2(0, 0) += 100.;
    eq::Changes<B> bc = {{"A", [&](B *x) { *x = B(LDLT(top2), b, d); }}, {"D", [&](B *x) { *x = B(top_ldlt, b, (0.5 * (d2 + d2.transpose())).eval()); }}};
    if (b2 != b)
      bc.push_back({"B", [&](B *x) { *x = B(top_ldlt, b2, d); }});
    if (r > 1)
      bc.push_back({"size", [&](B *x) { *x = B(top_ldlt, Eigen::MatrixXd(b.leftCols(r - 1)), Eigen::MatrixXd(d.topLeftCorner(r - 1, r - 1))); }});
    eq::check<B>(c, block, B(LDLT(top), b, d), B(LDLT(top2), b, d), bc, solves, "block symmetric");
  }
  c.nontrivial(n > 1);
}

PBT_CHECK(groups_edges_and_reports, 20000, 1000000,
          "grouped values, group indices, edges and RANSAC reports: equal to "
          "copies, different after changing any member (an entry more or "
          "less, another key, another value, another return code, a NaN), "
          "with NaN metrics equal to each other; non-trivial: > 1 group.") {
  const std::size_t n = c.usually(1, 6, 40);
  std::map<std::string, double> values;
  GroupIndexer<std::string> indexer;
  std::size_t next = 0;
  for (std::size_t i = 0; i < n; ++i) {
    const std::string k(1 + i / 26, static_cast<char>('a' + i % 26));
    values[k] = c.sym(5);
    const std::size_t count = c.size(1, 3);
    for (std::size_t j = 0; j < count; ++j)
      indexer[k].push_back(next++);
  }
  const std::string some = std::next(values.begin(), static_cast<long>(c.src.draw(n - 1)))->first;
  using G = Grouped<std::string, double>;
  const G g(values);
  const double v = other_than(c, values.at(some));
  eq::check<G>(c, g, G(values), G(), {{"value", [&](G *x) { (*x)[some] = v; }},
                                 {"key", [&](G *x) { const double was = x->at(some); x->erase(some); (*x)[some + "!"] = was; }},
                                 {"less", [&](G *x) { x->erase(some); }},
                                 {"more", [&](G *x) { (*x)["!"] = 1; }}},
            [](const G &x) { return x.get_map(); }, "grouped");
  using I = GroupIndexer<std::string>;
  eq::check<I>(c, indexer, I(indexer.get_map()), I(), {{"index", [&](I *x) { (*x)[some][0] += 1000; }},
                                           {"more indices", [&](I *x) { (*x)[some].push_back(5000); }},
                                           {"less", [&](I *x) { x->erase(some); }},
                                           {"more", [&](I *x) { (*x)["!"]; }}},
            [](const I &x) { return x.get_map(); }, "indexer");

  using E = Edge<int>;
  const E e(static_cast<int>(c.i(0, 5)), static_cast<int>(c.i(0, 5)), c.sym(5));
  const double cost = other_than(c, e.cost);
  eq::check<E>(c, e, E(e.a, e.b, e.cost), E(e.a + 1, e.b, cost),
               {{"a", [](E *x) { x->a += 1; }}, {"b", [](E *x) { x->b += 1; }}, {"cost", [&](E *x) { x->cost = cost; }}}, "edge");

  using R = RansacIteration<std::string>;
  R r;
  for (const auto &kv : values) {
    const std::uint64_t where = c.src.draw(2);
    if (where == 0)
      r.candidates.push_back(kv.first);
    else
      (where == 1 ? r.inliers : r.outliers)[kv.first] = kv.second;
  }
  const bool with_nan = c.chance(1, 3);
  r.consensus_metric_value = with_nan ? NAN : c.sym(5);
  R again;
  again.candidates = r.candidates;
  again.inliers = r.inliers;
  again.outliers = r.outliers;
  again.consensus_metric_value = r.consensus_metric_value;
  eq::Changes<R> rc = {{"candidates", [](R *x) { x->candidates.push_back("!"); }},
                       {"inliers", [](R *x) { x->inliers["!"] = 0.5; }},
                       {"outliers", [](R *x) { x->outliers["!"] = 0.5; }},
                       {"metric", [&](R *x) { x->consensus_metric_value = with_nan ? 0. : x->consensus_metric_value + 1; }}};
  if (!with_nan)
    rc.push_back({"metric which is not a number", [](R *x) { x->consensus_metric_value = NAN; }});
  if (!r.candidates.empty())
    rc.push_back({"a candidate", [](R *x) { x->candidates.back() += "?"; }});
  if (!r.inliers.empty())
    rc.push_back({"an inlier", [](R *x) { x->inliers.begin()->second += 1; }});
  if (!r.outliers.empty())
    rc.push_back({"an outlier", [](R *x) { x->outliers.begin()->second += 1; }});
  eq::check<R>(c, r, again, R(), rc, "iteration");
  using O = RansacOutput<std::string>;
  O o;
  o.return_code = c.coin() ? RANSAC_RETURN_CODE_SUCCESS : RANSAC_RETURN_CODE_NO_CONSENSUS;
  o.best = r;
  const std::size_t k = c.size(0, 3);
  for (std::size_t i = 0; i < k; ++i)
    o.iterations.push_back(r);
  O o2;
  o2.return_code = o.return_code;
  o2.best = again;
  o2.iterations.assign(k, again);
  eq::Changes<O> oc = {{"return code", [](O *x) { x->return_code = RANSAC_RETURN_CODE_INVALID_ARGUMENTS; }},
                       {"number of iterations", [&](O *x) { x->iterations.push_back(r); }}};
  const std::size_t pick = c.src.draw(rc.size() - 1);
  oc.push_back({"best " + rc[pick].first, [&](O *x) { rc[pick].second(&x->best); }});
  if (k > 0)
    oc.push_back({"iteration " + rc[pick].first, [&](O *x) { rc[pick].second(&x->iterations.back()); }});
  eq::check<O>(c, o, o2, O(), oc, "output");
  c.nontrivial(n > 1);
}
