// pbt: libs=cholmod,spqr,suitesparseconfig
#include <albatross/Core>
#include <albatross/CovarianceFunctions>
#include <albatross/GP>
#include <albatross/LeastSquares>
#include <albatross/Ransac>
#include <albatross/SparseGP>
#include "gen.hpp"

using namespace albatross;

namespace {

PriorContainer gen_prior(pbt::Case &c) {
  switch (c.i(0, 8)) {
  case 0:
    return UninformativePrior();
  case 1:
    return FixedPrior();
  case 2:
    return PositivePrior();
  case 3:
    return NonNegativePrior();
  case 4: {
    const double a = c.sym(10);
    return UniformPrior(a, a + c.logreal(1e-2, 100));
  }
  case 5: {
    const double a = c.logreal(1e-6, 10);
    return LogScaleUniformPrior(a, a * c.logreal(1.5, 1e6));
  }
  case 6:
    return GaussianPrior(c.sym(5), c.logreal(0.1, 10));
  case 7:
    return LogNormalPrior(c.sym(2), c.logreal(0.1, 2));
  default:
    return PositiveGaussianPrior(0., c.logreal(0.1, 10));
  }
}

double gen_value(pbt::Case &c) {
  switch (c.i(0, 3)) {
  case 0:
    return static_cast<double>(c.i(-3, 3));
  case 1:
    return c.logreal(1e-9, 1e9);
  case 2:
    return -c.logreal(1e-9, 1e9);
  default:
    return c.real(0, 10);
  }
}

// a value the prior allows
double gen_valid(pbt::Case &c, const PriorContainer &p) {
  const double lo = p.lower_bound(), hi = p.upper_bound();
  if (std::isfinite(lo) && std::isfinite(hi))
    return std::min(hi, std::max(lo, c.pick<double>({lo, hi, c.real(lo, hi)})));
  if (std::isfinite(lo))
    return lo + c.logreal(1e-6, 1e6);
  return gen_value(c);
}

std::string describe(const ParameterStore &s) {
  std::ostringstream o;
  o.precision(17);
  for (const auto &kv : s)
    o << kv.first << "=" << kv.second.value << "~" << kv.second.prior.get_name()
      << " ";
  return o.str();
}

void same_store(pbt::Case &c, const ParameterStore &got,
                const ParameterStore &ref, const std::string &w) {
  bool ok = got.size() == ref.size();
  for (const auto &kv : ref) {
    const auto it = got.find(kv.first);
    ok = ok && it != got.end() && it->second.value == kv.second.value &&
         it->second.prior == kv.second.prior;
  }
  if (!ok)
    c.fail(w + ": got {" + describe(got) + "} expected {" + describe(ref) + "}");
}

const std::string UNKNOWN = "no_such_parameter";

double ref_log(double x) { return std::log(x); }

// Compares tunable parameters with their definition.
void verify_tunable(pbt::Case &c, const ParameterStore &ref,
                    const TunableParameters &t) {
  std::size_t k = 0;
  for (const auto &kv : ref) {
    if (kv.second.prior.is_fixed())
      continue;
    c.check(k < t.values.size(), "tunable parameter missing");
    double v = kv.second.value, lo = kv.second.prior.lower_bound(),
           hi = kv.second.prior.upper_bound();
    if (kv.second.prior.is_log_scale()) {
      v = ref_log(v);
      lo = ref_log(lo);
      hi = ref_log(hi);
    }
    c.eq(t.names[k], kv.first, "tunable name");
    c.near(t.values[k], v, 1e-14, 1e-14, "tunable value");
    c.near(t.lower_bounds[k], lo, 1e-14, 1e-14, "tunable lower bound");
    c.near(t.upper_bounds[k], hi, 1e-14, 1e-14, "tunable upper bound");
    ++k;
  }
  c.eq(t.values.size(), k, "number of tunable values");
  c.eq(t.names.size(), k, "number of tunable names");
  c.eq(t.lower_bounds.size(), k, "number of lower bounds");
  c.eq(t.upper_bounds.size(), k, "number of upper bounds");
}

bool all_valid(const ParameterStore &s) {
  for (const auto &kv : s)
    if (!(kv.second.value >= kv.second.prior.lower_bound() &&
          kv.second.value <= kv.second.prior.upper_bound()))
      return false;
  return true;
}

// A random history of operations on a handler, against a dictionary.
template <typename Handler>
void drive(pbt::Case &c, Handler *h, ParameterStore ref) {
  same_store(c, h->get_params(), ref, "initially");
  std::vector<std::string> names;
  for (const auto &kv : ref)
    names.push_back(kv.first);
  const auto pick_name = [&] { return c.pick(names); };
  const auto random_param = [&] {
    return Parameter(gen_value(c), gen_prior(c));
  };
  const auto random_subset = [&](bool unknown) {
    ParameterStore s;
    for (const auto &n : names)
      if (c.chance(1, 2))
        s[n] = random_param();
    if (unknown)
      s[UNKNOWN] = random_param();
    return s;
  };
  const std::size_t steps = c.usually(1, 11, 80);
  std::ostringstream hist;
  std::size_t writes = 0;
  for (std::size_t step = 0; step < steps; ++step) {
    const long op = names.empty() ? 20 : c.i(0, 16);
    hist << op << " ";
    const std::string before = describe(ref);
    switch (op) {
    case 0: {
      const auto n = pick_name();
      const auto p = random_param();
      h->set_param(n, p);
      ref[n] = p;
      break;
    }
    case 1: { // a plain number keeps the prior
      const auto n = pick_name();
      const double v = gen_value(c);
      static_cast<ParameterHandlingMixin *>(h)->set_param(n, v);
      ref[n].value = v;
      break;
    }
    case 2: {
      const auto n = pick_name();
      const double v = gen_value(c);
      h->set_param_value(n, v);
      ref[n].value = v;
      break;
    }
    case 3: {
      const auto n = pick_name();
      const auto p = gen_prior(c);
      h->set_prior(n, p);
      ref[n].prior = p;
      break;
    }
    case 4: {
      const auto s = random_subset(false);
      h->set_params(s);
      for (const auto &kv : s)
        ref[kv.first] = kv.second;
      break;
    }
    case 5: {
      const auto s = random_subset(c.coin());
      h->set_params_if_exists(s);
      for (const auto &kv : s)
        if (ref.count(kv.first))
          ref[kv.first] = kv.second;
      break;
    }
    case 6:
    case 7: {
      std::map<ParameterKey, ParameterValue> vs;
      const bool unknown = op == 7 && c.coin();
      for (const auto &kv : random_subset(unknown))
        vs[kv.first] = kv.second.value;
      if (op == 6)
        h->set_param_values(vs);
      else
        h->set_param_values_if_exists(vs);
      for (const auto &kv : vs)
        if (ref.count(kv.first))
          ref[kv.first].value = kv.second;
      break;
    }
    case 8: { // the free functions say whether everything existed
      const bool unknown = c.coin();
      const auto s = random_subset(unknown);
      const bool got = albatross::set_params_if_exists(s, h);
      c.eq(got, !s.empty() && !unknown, "set_params_if_exists result");
      for (const auto &kv : s)
        if (ref.count(kv.first))
          ref[kv.first] = kv.second;
      break;
    }
    case 9: {
      const bool unknown = c.coin();
      const auto n = unknown ? UNKNOWN : pick_name();
      const auto p = random_param();
      const bool got = c.coin()
                           ? albatross::set_param_if_exists(n, p, h)
                           : albatross::set_param_value_if_exists(n, p.value, h);
      c.eq(got, !unknown, "set_param_if_exists result");
      if (!unknown) {
        // either the whole parameter or only its value was written
        const auto now = h->get_params().at(n);
        c.check(now.value == p.value, "value set if it exists");
        c.check(now.prior == p.prior || now.prior == ref[n].prior, "prior");
        ref[n] = now;
      }
      break;
    }
    case 10: {
      const auto n = pick_name();
      const auto p = random_param();
      unchecked_set_param(n, p, h);
      ref[n] = p;
      break;
    }
    case 11: { // make everything valid, then go through the tunable vector
      ParameterStore s;
      for (const auto &n : names) {
        const auto p = c.coin() ? ref[n].prior : gen_prior(c);
        s[n] = Parameter(gen_valid(c, p), p);
      }
      h->set_params(s);
      ref = s;
      const auto t = h->get_tunable_parameters();
      verify_tunable(c, ref, t);
      h->set_tunable_params_values(t.values, c.coin());
      const auto now = h->get_params();
      c.eq(now.size(), ref.size(), "number of parameters");
      for (const auto &kv : ref) {
        const double v = now.at(kv.first).value;
        c.check(now.at(kv.first).prior == kv.second.prior, "prior kept");
        if (kv.second.prior.is_log_scale())
          c.near(v, kv.second.value, 1e-12, 0, "tunable round trip");
        else
          c.eq(v, kv.second.value, "tunable round trip");
        ref[kv.first].value = v;
      }
      c.label("tunable round trip");
      break;
    }
    case 12:
    case 13: { // any vector of values
      std::vector<double> x;
      for (const auto &kv : ref)
        if (!kv.second.prior.is_fixed())
          x.push_back(kv.second.prior.is_log_scale() ? c.sym(30)
                                                     : gen_value(c));
      const bool force = op == 12;
      if (force && c.coin())
        h->set_tunable_params_values(x);
      else
        h->set_tunable_params_values(x, force);
      std::size_t k = 0;
      const auto now = h->get_params();
      for (auto &kv : ref) {
        if (kv.second.prior.is_fixed())
          continue;
        double v = x[k++];
        if (kv.second.prior.is_log_scale())
          v = std::exp(v);
        if (force)
          v = std::min(kv.second.prior.upper_bound(),
                       std::max(kv.second.prior.lower_bound(), v));
        c.near(now.at(kv.first).value, v, 1e-14, 0, "tunable value set");
        if (force)
          c.check(now.at(kv.first).within_bounds() || v != v,
                  "forced into the bounds");
        kv.second.value = now.at(kv.first).value;
      }
      c.label("set tunable");
      break;
    }
    case 14: { // copies are independent
      Handler copy(*h);
      const auto n = pick_name();
      copy.set_param(n, random_param());
      break;
    }
    case 15: {
      if (!c.chance(1, 25)) // forks
        break;
      const auto p = random_param();
      const long how = c.i(0, 5);
      c.check(pbt::rejects([&] {
                if (how == 0)
                  h->set_param(UNKNOWN, p);
                else if (how == 1)
                  h->set_param_value(UNKNOWN, p.value);
                else if (how == 2)
                  h->set_prior(UNKNOWN, p.prior);
                else if (how == 3)
                  h->set_params({{UNKNOWN, p}});
                else if (how == 4)
                  h->set_param_values({{UNKNOWN, 1.}});
                else {
                  std::vector<double> x;
                  for (const auto &kv : ref)
                    if (!kv.second.prior.is_fixed())
                      x.push_back(1.);
                  x.push_back(1.);
                  h->set_tunable_params_values(x);
                }
              }),
              "an unknown parameter was accepted (" + std::to_string(how) + ")");
      c.label("unknown rejected");
      break;
    }
    case 16: { // tunable parameters of an invalid store are refused
      if (all_valid(ref) || !c.chance(1, 25))
        break;
      bool invalid_free = false;
      for (const auto &kv : ref)
        if (!kv.second.is_fixed() && !kv.second.is_valid())
          invalid_free = true;
      if (invalid_free)
        c.check(pbt::rejects([&] { h->get_tunable_parameters(); }),
                "tunable parameters out of bounds");
      break;
    }
    }
    if (describe(ref) != before)
      ++writes;
    const auto now = h->get_params();
    same_store(c, now, ref, "after operation " + std::to_string(op));
    c.eq(h->params_are_valid(), all_valid(ref), "params_are_valid");
    for (const auto &n : names)
      c.check(h->get_param_value(n) == ref.at(n).value, "get_param_value");
  }
  c.show("operations", hist.str());
  c.nontrivial(writes > 1 && names.size() > 1);
}

class Eight : public ParameterHandlingMixin {
public:
  ALBATROSS_DECLARE_PARAMS(alpha, beta, gamma, delta, epsilon, zeta, eta, theta)
};
class Three : public ParameterHandlingMixin {
public:
  ALBATROSS_DECLARE_PARAMS(one, two, three)
};
class One : public ParameterHandlingMixin {
public:
  ALBATROSS_DECLARE_PARAMS(one)
};

struct Ramp : public ScalingFunction {
  ALBATROSS_DECLARE_PARAMS(ramp_rate)
  Ramp() { ramp_rate = {0.5, UninformativePrior()}; }
  std::string get_name() const { return "ramp"; }
  double _call_impl(const double &x) const { return 1 + ramp_rate.value * x; }
};

struct GroupAll {
  int operator()(const double &) const { return 0; }
};

ParameterStore only(const ParameterHandlingMixin &h) { return h.get_params(); }

ParameterStore join(const std::vector<ParameterStore> &ss) {
  ParameterStore out;
  for (const auto &s : ss)
    out.insert(s.begin(), s.end());
  return out;
}

auto make_cov() {
  return SquaredExponential<EuclideanDistance>(2., 3.) *
             (Constant(1.5) + Exponential<EuclideanDistance>(4., .5)) +
         ScalingTerm<Ramp>() * Matern32<EuclideanDistance>(1., 2.) +
         measurement_only(IndependentNoise<double>(0.3)) + Polynomial<2>(0.7);
}

ParameterStore cov_params() {
  return join({only(SquaredExponential<EuclideanDistance>(2., 3.)),
               only(Constant(1.5)), only(Exponential<EuclideanDistance>(4., .5)),
               only(Ramp()), only(Matern32<EuclideanDistance>(1., 2.)),
               only(IndependentNoise<double>(0.3)), only(Polynomial<2>(0.7))});
}

} // namespace

// mixins: a plain store, and members declared by macro
PBT_CHECK(parameter_histories, 150000, 1500000,
          "at least two parameters and two operations that change something") {
  const long kind = c.i(0, 3);
  if (kind == 0) {
    ParameterStore s;
    const std::size_t n = c.size(0, 6);
    for (std::size_t k = 0; k < n; ++k)
      s[c.ident(4)] = Parameter(gen_value(c), gen_prior(c));
    c.show("store", describe(s));
    ParameterHandlingMixin h(s);
    drive(c, &h, s);
  } else if (kind == 1) {
    Eight h;
    ParameterStore s;
    for (const char *n : {"alpha", "beta", "gamma", "delta", "epsilon", "zeta",
                          "eta", "theta"})
      s[n] = Parameter(0.);
    // members and names are the same thing
    h.alpha.value = 1.;
    s["alpha"].value = 1.;
    h.theta.prior = FixedPrior();
    s["theta"].prior = FixedPrior();
    drive(c, &h, s);
    const auto p = h.get_params();
    c.check(p.at("alpha") == h.alpha && p.at("beta") == h.beta &&
                p.at("gamma") == h.gamma && p.at("delta") == h.delta &&
                p.at("epsilon") == h.epsilon && p.at("zeta") == h.zeta &&
                p.at("eta") == h.eta && p.at("theta") == h.theta,
            "members agree with names");
  } else if (kind == 2) {
    Three h;
    drive(c, &h,
          {{"one", Parameter(0.)}, {"two", Parameter(0.)}, {"three", Parameter(0.)}});
    c.check(h.get_params().at("two") == h.two, "member");
  } else {
    One h;
    drive(c, &h, {{"one", Parameter(0.)}});
    c.check(h.get_params().at("one") == h.one, "member");
  }
}

// parameters of a composed covariance function reach the term they belong to
PBT_CHECK(covariance_parameter_histories, 25000, 250000,
          "at least two operations that change something") {
  auto cov = make_cov();
  drive(c, &cov, cov_params());
  // evaluate with the parameters as read back
  const auto p = cov.get_params();
  const auto v = [&](const char *n) { return p.at(n).value; };
  const double x = c.sym(3), y = c.coin() ? x : c.sym(3);
  const double d = std::fabs(x - y);
  const auto se = [&](double l, double s) {
    return l <= 0 ? 0. : s * s * std::exp(-(d / l) * (d / l));
  };
  const auto ex = [&](double l, double s) {
    return l <= 0 ? 0. : s * s * std::exp(-d / l);
  };
  const auto m32 = [&](double l, double s) {
    const double z = std::sqrt(3.) * d / l;
    return l <= 0 ? 0. : s * s * (1 + z) * std::exp(-z);
  };
  double poly = 0;
  for (int k = 0; k <= 2; ++k) {
    const double s = v(("sigma_polynomial_" + std::to_string(k)).c_str());
    poly += s * s * std::pow(x, k) * std::pow(y, k);
  }
  const double t1 =
      se(v("squared_exponential_length_scale"), v("sigma_squared_exponential")) *
      (v("sigma_constant") * v("sigma_constant") +
       ex(v("exponential_length_scale"), v("sigma_exponential")));
  const double t2 = (1 + v("ramp_rate") * x) * (1 + v("ramp_rate") * y) *
                    m32(v("matern_32_length_scale"), v("sigma_matern_32"));
  const double noise =
      x == y ? v("sigma_independent_noise") * v("sigma_independent_noise") : 0.;
  const double mag = std::fabs(t1) + std::fabs(t2) + std::fabs(poly) + noise;
  c.assume(std::isfinite(mag) && mag < 1e60);
  c.near(cov(x, y), t1 + t2 + poly, 1e-9 * mag + 1e-300, "covariance");
  c.near(cov(Measurement<double>(x), Measurement<double>(y)),
         t1 + t2 + poly + noise, 1e-9 * mag + 1e-300, "measurement covariance");
}

PBT_CHECK(mean_parameter_histories, 50000, 500000,
          "at least two operations that change something") {
  LinearMean lin;
  drive(c, &lin, join({only(lin)}));
  const double x = c.sym(5);
  const auto p = lin.get_params();
  c.near(lin(x), p.at("slope").value * x + p.at("offset").value,
         1e-9 * (std::fabs(p.at("slope").value * x) + std::fabs(p.at("offset").value)) + 1e-300,
         "mean");
}

// models expose the parameters of their parts
PBT_CHECK(model_parameter_histories, 25000, 250000,
          "at least two operations that change something") {
  const long kind = c.i(0, 3);
  const auto extra = join({cov_params(), only(LinearMean())});
  auto gp = gp_from_covariance_and_mean(make_cov(), LinearMean());
  if (kind == 0) {
    c.show("model", "gp");
    drive(c, &gp, extra);
    // the model's covariance function sees the new values
    const auto k = gp.get_covariance().get_params();
    for (const auto &kv : k)
      c.check(gp.get_params().at(kv.first) == kv.second, "covariance parameter");
    const auto m = gp.get_mean().get_params();
    for (const auto &kv : m)
      c.check(gp.get_params().at(kv.first) == kv.second, "mean parameter");
  } else if (kind == 1) {
    c.show("model", "sparse gp");
    auto sparse = sparse_gp_from_covariance_and_mean(
        make_cov(), LinearMean(), GroupAll(), UniformlySpacedInducingPoints(3),
        "sparse");
    auto s = extra;
    const auto now = sparse.get_params();
    c.eq(now.size(), s.size() + 2, "two nuggets");
    for (const auto &kv : now)
      if (!s.count(kv.first)) {
        c.check(kv.second.is_valid(), "default nugget is valid");
        s[kv.first] = kv.second;
      }
    drive(c, &sparse, s);
  } else if (kind == 2) {
    c.show("model", "ransac");
    DefaultGPRansacStrategy strategy;
    auto ransac = gp.ransac(strategy, RansacConfig());
    drive(c, &ransac, extra);
  } else {
    c.show("model", "linear regression");
    LinearRegression lr;
    drive(c, &lr, only(lr));
  }
}

// the free functions on stores
PBT_CHECK(store_functions, 100000, 1000000, "at least two parameters") {
  ParameterStore ref;
  const std::size_t n = 1 + c.size(0, 6);
  for (std::size_t k = 0; k < n; ++k) {
    const auto p = gen_prior(c);
    ref[c.ident(4)] = Parameter(c.coin() ? gen_valid(c, p) : gen_value(c), p);
  }
  c.show("store", describe(ref));
  std::vector<std::string> names;
  for (const auto &kv : ref)
    names.push_back(kv.first);
  ParameterStore s = ref;
  const auto name = c.pick(names);
  const Parameter p(gen_value(c), gen_prior(c));
  const long op = c.i(0, 7);
  c.show("operation", op);
  if (op == 0) {
    set_param(name, p, &s);
    ref[name] = p;
  } else if (op == 1) {
    set_param_value(name, p.value, &s);
    ref[name].value = p.value;
  } else if (op == 2) {
    set_param_prior(name, p.prior, &s);
    ref[name].prior = p.prior;
  } else if (op == 3) {
    c.eq(set_param_if_exists(name, p, &s), true, "exists");
    c.eq(set_param_if_exists(UNKNOWN, p, &s), false, "does not exist");
    ref[name] = p;
  } else if (op == 4) {
    c.eq(set_param_prior_if_exists(name, p.prior, &s), true, "exists");
    c.eq(set_param_prior_if_exists(UNKNOWN, p.prior, &s), false, "unknown");
    ref[name].prior = p.prior;
  } else if (op == 5) {
    c.eq(set_param_value_if_exists(name, p.value, &s), true, "exists");
    c.eq(set_param_value_if_exists(UNKNOWN, p.value, &s), false, "unknown");
    ref[name].value = p.value;
  } else if (op == 6) {
    c.eq(set_params_if_exists({{name, p}, {UNKNOWN, p}}, &s), false, "partly");
    c.eq(set_params_if_exists({{name, p}}, &s), true, "all of one");
    c.eq(set_params_if_exists({}, &s), false, "none");
    c.eq(set_params_if_exists({{UNKNOWN, p}}, &s), false, "unknown only");
    c.eq(set_param_values_if_exists({{name, p.value}, {UNKNOWN, p.value}}, &s), false, "partly (values)");
    c.eq(set_param_values_if_exists({{name, p.value}}, &s), true, "all of one (values)");
    c.eq(set_param_values_if_exists({}, &s), false, "no values");
    const auto everything = s;
    std::map<ParameterKey, ParameterValue> all_values;
    for (const auto &kv : everything)
      all_values[kv.first] = kv.second.value;
    c.eq(set_params_if_exists(everything, &s), true, "all");
    c.eq(set_param_values_if_exists(all_values, &s), true, "all values");
    ref[name] = p;
  } else {
    Three a;
    One b;
    c.eq(set_param_if_exists_in_any("one", p, &a, &b), true, "in any");
    c.check(a.one == p && b.one == Parameter(0.), "the first one that has it");
    c.eq(set_param_if_exists_in_any("two", p, &b, &a), true, "in any");
    c.check(a.two == p, "found in the second");
    c.eq(set_param_if_exists_in_any(UNKNOWN, p, &a, &b), false, "in none");
  }
  same_store(c, s, ref, "store");
  if (op < 3 && c.chance(1, 100))
    c.check(pbt::rejects([&] {
              if (op == 0)
                set_param(UNKNOWN, p, &s);
              else if (op == 1)
                set_param_value(UNKNOWN, p.value, &s);
              else
                set_param_prior(UNKNOWN, p.prior, &s);
            }),
            "unknown name accepted");
  // tunable functions never touch their input
  bool ok = true;
  for (const auto &kv : s)
    ok = ok && (kv.second.is_fixed() || kv.second.is_valid());
  if (ok) {
    const auto t = get_tunable_parameters(s);
    verify_tunable(c, s, t);
    const auto back = set_tunable_params_values(s, t.values);
    for (const auto &kv : s) {
      c.check(back.at(kv.first).prior == kv.second.prior, "prior kept");
      c.near(back.at(kv.first).value, kv.second.value, 1e-12, 0, "round trip");
    }
    c.label("tunable");
  }
  same_store(c, s, ref, "input of tunable functions");
  // text: names and values are all there
  const std::string text = pretty_params(s), priors = pretty_priors(s),
                    details = pretty_param_details(s);
  for (const auto &kv : s) {
    const auto at = text.find("\"" + kv.first + "\", ");
    c.check(at != std::string::npos, "pretty_params name");
    c.near(std::strtod(text.c_str() + at + kv.first.size() + 4, nullptr),
           kv.second.value, 1e-11, 1e-300, "pretty_params value");
    c.check(priors.find("\"" + kv.first + "\": " + kv.second.prior.get_name()) !=
                std::string::npos,
            "pretty_priors");
    c.check(details.find(kv.first) != std::string::npos, "pretty_param_details");
  }
  c.nontrivial(s.size() > 1);
}
