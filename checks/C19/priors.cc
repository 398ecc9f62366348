// pbt:
#include <albatross/Core>
#include "gen.hpp"

using namespace albatross;

namespace {

constexpr double INF = std::numeric_limits<double>::infinity();

struct Spec {
  PriorContainer prior;
  std::string kind;
  double a = 0, b = 1;
};

long double log_phi_mass(long double mu, long double sigma) {
  return std::log(0.5L * std::erfc(-mu / (std::sqrt(2.0L) * sigma)));
}

// the density as a statistics book writes it
long double ref_log_pdf(const Spec &s, double x_) {
  const long double x = x_, a = s.a, b = s.b;
  const long double l2pi = std::log(2.0L * 3.141592653589793238462643383279503L);
  const long double ninf = -std::numeric_limits<long double>::infinity();
  if (s.kind == "uninformative" || s.kind == "fixed")
    return 0;
  if (s.kind == "positive")
    return x > 0 ? 0 : ninf;
  if (s.kind == "non_negative")
    return x >= 0 ? 0 : ninf;
  if (s.kind == "uniform" || s.kind == "log_scale_uniform")
    return (x >= a && x <= b) ? -std::log(b - a) : ninf;
  if (s.kind == "gaussian")
    return -0.5L * l2pi - std::log(b) - 0.5L * (x - a) * (x - a) / (b * b);
  if (s.kind == "positive_gaussian")
    return x < 0 ? ninf
                 : -0.5L * l2pi - std::log(b) -
                       0.5L * (x - a) * (x - a) / (b * b) - log_phi_mass(a, b);
  // log normal
  if (x <= 0)
    return ninf;
  const long double d = (std::log(x) - a) / b;
  return -0.5L * l2pi - std::log(b) - std::log(x) - 0.5L * d * d;
}

Spec gen_prior(pbt::Case &c) {
  Spec s;
  const long k = c.i(0, 8);
  if (k == 0) {
    s.prior = UninformativePrior();
    s.kind = "uninformative";
  } else if (k == 1) {
    s.prior = FixedPrior();
    s.kind = "fixed";
  } else if (k == 2) {
    s.prior = PositivePrior();
    s.kind = "positive";
  } else if (k == 3) {
    s.prior = NonNegativePrior();
    s.kind = "non_negative";
  } else if (k == 4) {
    s.kind = "uniform";
    s.a = c.sym(20);
    s.b = s.a + c.logreal(1e-3, 1e3);
    s.prior = UniformPrior(s.a, s.b);
  } else if (k == 5) {
    s.kind = "log_scale_uniform";
    s.a = c.logreal(1e-6, 1e3);
    s.b = s.a * (1 + c.logreal(1e-2, 1e6));
    s.prior = LogScaleUniformPrior(s.a, s.b);
  } else if (k == 6) {
    s.kind = "gaussian";
    s.a = c.coin() ? c.sym(20) : c.sym(1e6);
    s.b = c.coin() ? c.logreal(1e-3, 1e3) : c.logreal(1e-6, 1e6);
    s.prior = GaussianPrior(s.a, s.b);
  } else if (k == 7) {
    s.kind = "log_normal";
    s.a = c.sym(5);
    s.b = c.logreal(0.05, 4);
    s.prior = LogNormalPrior(s.a, s.b);
  } else {
    s.kind = "positive_gaussian";
    s.b = c.coin() ? c.logreal(1e-3, 1e3) : c.logreal(1e-6, 1e6);
    s.a = c.coin() ? 0. : s.b * c.sym(5);
    s.prior = PositiveGaussianPrior(s.a, s.b);
  }
  if (k > 3 && c.chance(1, 12)) { // what a prior means without arguments
    s.a = 0.;
    s.b = 1.;
    if (k == 4)
      s.prior = UniformPrior();
    if (k == 5) {
      s.prior = LogScaleUniformPrior();
      s.a = 1e-12;
      s.b = 1e12;
    }
    if (k == 6)
      s.prior = GaussianPrior();
    if (k == 7)
      s.prior = LogNormalPrior();
    if (k == 8)
      s.prior = PositiveGaussianPrior();
  }
  c.show("prior", s.kind);
  c.show("args", pbt::str(s.a) + " " + pbt::str(s.b));
  return s;
}

bool improper(const Spec &s) {
  return s.kind == "uninformative" || s.kind == "fixed" ||
         s.kind == "positive" || s.kind == "non_negative";
}

double gen_point(pbt::Case &c, const Spec &s) {
  const double base = improper(s) ? 0. : s.a;
  switch (c.i(0, 6)) {
  case 0:
    return c.pick<double>({0., -0., 1., -1., 1e-300, -1e-300, 1e-17, INF, -INF});
  case 1:
    return s.a;
  case 2:
    return s.b;
  case 3:
    return base + s.b * c.sym(6);
  case 4:
    return s.a + (s.b - s.a) * c.real(0, 1);
  case 5:
    return std::exp(c.sym(30));
  default:
    return c.sym(50);
  }
}

} // namespace

PBT_CHECK(prior_log_density, 4000000, 60000000,
          "a proper prior evaluated inside its support") {
  const Spec s = gen_prior(c);
  const double x = gen_point(c, s);
  c.show("x", x);
  const long double ref = ref_log_pdf(s, x);
  const double got = s.prior.log_pdf(x);
  if (std::isinf(x)) { // only the finiteness of a density at infinity matters
    if (!improper(s))
      c.check(!(got > 0), "log density at infinity");
    return;
  }
  if (ref == -std::numeric_limits<long double>::infinity()) {
    c.check(got == -INF, "log density outside the support is " + pbt::str(got));
    c.label("outside");
    return;
  }
  c.near(got, static_cast<double>(ref), 1e-9 * (1 + std::fabs(static_cast<double>(ref))),
         "log density");
  if (!improper(s))
    c.nontrivial();
}

// exp(log_pdf) integrates to one (substitution x = lower + spread * sinh-like
// grid is unnecessary: the mass is within the interval used here)
PBT_CHECK(prior_is_normalised, 40000, 600000, "a proper prior") {
  const Spec s = gen_prior(c);
  c.assume(!improper(s));
  double total = 0;
  const int n = 4000;
  if (s.kind == "log_normal") {
    // integrate over t = log(x): density * x dt
    const double lo = s.a - 9 * s.b, hi = s.a + 9 * s.b, h = (hi - lo) / n;
    for (int i = 0; i < n; ++i) {
      const double t = lo + (i + 0.5) * h;
      total += h * std::exp(s.prior.log_pdf(std::exp(t)) + t);
    }
  } else {
    double lo = s.a - 9 * s.b, hi = s.a + 9 * s.b;
    if (s.kind == "uniform" || s.kind == "log_scale_uniform") {
      lo = s.a;
      hi = s.b;
    } else if (s.kind == "positive_gaussian") {
      lo = 0;
      hi = std::max(0., s.a) + 9 * s.b;
    }
    const double h = (hi - lo) / n;
    for (int i = 0; i < n; ++i)
      total += h * std::exp(s.prior.log_pdf(lo + (i + 0.5) * h));
  }
  c.near(total, 1., 2e-5, s.kind + " integrates to");
  c.nontrivial();
}

// a value outside of the bounds has zero density (but for the epsilon that
// keeps positive parameters away from zero, and the far tail of a positive
// Gaussian); inside the bounds the density is positive
PBT_CHECK(prior_bounds, 800000, 10000000, "a point outside of the bounds") {
  const Spec s = gen_prior(c);
  const double x = gen_point(c, s);
  c.show("x", x);
  c.assume(std::isfinite(x));
  const double lo = s.prior.lower_bound(), hi = s.prior.upper_bound();
  c.check(lo < hi, "bounds are ordered");
  const double got = s.prior.log_pdf(x);
  const Parameter p(x, s.prior);
  const bool inside = x >= lo && x <= hi;
  c.eq(p.is_valid(), inside, "valid exactly within the bounds");
  c.eq(p.within_bounds(), inside, "within_bounds");
  c.check(p.prior_log_likelihood() == got, "parameter's log likelihood");
  c.eq(p.is_fixed(), s.kind == "fixed", "fixed flag");
  c.eq(s.prior.is_log_scale(), s.kind == "log_scale_uniform", "log scale flag");
  if (inside) {
    if (!(s.kind == "log_normal" && x == 0))
      c.check(got > -INF && !std::isnan(got), "zero density inside the bounds");
  } else {
    c.nontrivial();
    if (s.kind == "positive" && x > 0 && x < 1e-15)
      return;
    if (s.kind == "positive_gaussian" && x > std::max(0., s.a) + 9.99 * s.b)
      return;
    c.check(got == -INF, "positive density outside the bounds");
  }
  if (s.kind == "uniform" || s.kind == "log_scale_uniform") {
    c.eq(lo, s.a, "lower bound");
    c.eq(hi, s.b, "upper bound");
  }
  if (s.kind == "positive_gaussian")
    c.check(lo == 0 && hi >= std::max(0., s.a) + 5 * s.b,
            "bounds hold the mass of a positive Gaussian");
  if (s.kind == "gaussian" || improper(s))
    c.check(hi == INF, "unbounded above");
  if (s.kind == "gaussian" || s.kind == "uninformative" || s.kind == "fixed")
    c.check(lo == -INF, "unbounded below");
}

// equality holds exactly when the type and the arguments agree, and the names
// tell types apart
PBT_CHECK(prior_identity, 500000, 5000000, "two priors of the same type") {
  const Spec a = gen_prior(c);
  Spec b;
  const long mode = c.i(0, 3);
  if (mode == 0) {
    b = gen_prior(c);
  } else { // same type, perhaps almost the same arguments
    b = a;
    const double f = mode == 1 ? 1. : c.pick<double>({1 + 1e-9, 1.5, 1 + 1e-14});
    const bool first = c.coin();
    (first ? b.a : b.b) *= f;
    if (first && f != 1. && b.a == a.a) // a was zero (or too small)
      b.a += 1e-9;
    if (a.kind == "uniform" || a.kind == "log_scale_uniform")
      c.assume(b.b > b.a);
    if (a.kind == "uniform")
      b.prior = UniformPrior(b.a, b.b);
    else if (a.kind == "log_scale_uniform")
      b.prior = LogScaleUniformPrior(b.a, b.b);
    else if (a.kind == "gaussian")
      b.prior = GaussianPrior(b.a, b.b);
    else if (a.kind == "positive_gaussian")
      b.prior = PositiveGaussianPrior(b.a, b.b);
    else if (a.kind == "log_normal")
      b.prior = LogNormalPrior(b.a, b.b);
    c.nontrivial();
  }
  const bool same =
      a.kind == b.kind && (improper(a) || (a.a == b.a && a.b == b.b));
  c.eq(a.prior == b.prior, same, "equality of " + a.kind + " and " + b.kind);
  PriorContainer mutable_a = a.prior;
  c.eq(mutable_a != b.prior, !same, "inequality");
  c.check(a.prior == a.prior, "reflexive");
  c.eq(Parameter(1., a.prior) == Parameter(1., b.prior), same,
       "parameters with these priors");
  c.check(Parameter(1., a.prior) != Parameter(2., a.prior), "other value");
  c.eq(a.prior.get_name().substr(0, a.prior.get_name().find('[')), a.kind,
       "name");
  if (!improper(a)) {
    std::ostringstream o;
    o << a.kind << "[" << a.a << "," << a.b << "]";
    c.eq(a.prior.get_name(), o.str(), "name with arguments");
  }
  // assignment replaces the prior
  PriorContainer x = a.prior;
  x = b.prior.priors_;
  c.check(x == b.prior, "assignment");
}

// a store's log likelihood and validity are those of its parameters
PBT_CHECK(store_log_likelihood, 200000, 2000000, "at least two parameters") {
  ParameterStore store;
  long double sum = 0;
  bool valid = true;
  const std::size_t n = c.usually(0, 8, 60);
  for (std::size_t k = 0; k < n; ++k) {
    const Spec s = gen_prior(c);
    const double x = gen_point(c, s);
    c.assume(std::isfinite(x));
    const std::string name = c.ident(5);
    c.assume(store.count(name) == 0);
    store[name] = Parameter(x, s.prior);
    sum += ref_log_pdf(s, x);
    valid = valid && x >= s.prior.lower_bound() && x <= s.prior.upper_bound();
  }
  const double got = parameter_prior_log_likelihood(store);
  if (std::isinf(static_cast<double>(sum)))
    c.check(got == -INF, "log likelihood of an impossible parameter");
  else
    c.near(got, static_cast<double>(sum),
           1e-8 * (1 + std::fabs(static_cast<double>(sum))), "log likelihood");
  c.eq(params_are_valid(store), valid, "validity");
  const ParameterHandlingMixin handler(store);
  c.check(handler.prior_log_likelihood() == got, "handler log likelihood");
  c.eq(handler.params_are_valid(), valid, "handler validity");
  c.nontrivial(n > 1);
}
