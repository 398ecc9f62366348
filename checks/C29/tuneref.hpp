#ifndef VERIF_C29_TUNEREF_HPP
#define VERIF_C29_TUNEREF_HPP
#include <albatross/Core>
#include <albatross/Tune>
#include "pbt.hpp"
#include <mutex>

// An objective over named parameters.  In the coordinates which are tuned
// (the logarithm for log scaled parameters)
//   f(t) = sum_i g_i(u_i) + sum_i c_i u_i u_{i+1},   u_i = (t_i - m_i) / s_i
// where g_i(u) = a u + b u^2 + d sin(u).
struct Smooth {
  struct Term {
    std::string name;
    bool log_scale;
    double m, s, a, b, d, c;
  };
  std::vector<Term> terms; // of the parameters which are not fixed

  double u(std::size_t i, const std::vector<double> &t) const {
    return (t[i] - terms[i].m) / terms[i].s;
  }
  double value(const std::vector<double> &t) const {
    double f = 0;
    for (std::size_t i = 0; i < terms.size(); ++i) {
      const auto &k = terms[i];
      const double x = u(i, t);
      f += k.a * x + k.b * x * x + k.d * std::sin(x);
      if (i + 1 < terms.size())
        f += k.c * x * u(i + 1, t);
    }
    return f;
  }
  // a bound for everything that is added up in value()
  double magnitude(const std::vector<double> &t) const {
    double f = 0;
    for (std::size_t i = 0; i < terms.size(); ++i) {
      const auto &k = terms[i];
      const double x = std::fabs(u(i, t));
      f += std::fabs(k.a * x) + std::fabs(k.b) * x * x + std::fabs(k.d);
      if (i + 1 < terms.size())
        f += std::fabs(k.c * x * u(i + 1, t));
    }
    return f;
  }
  double derivative(std::size_t i, const std::vector<double> &t) const {
    const auto &k = terms[i];
    const double x = u(i, t);
    double g = k.a + 2 * k.b * x + k.d * std::cos(x);
    if (i + 1 < terms.size())
      g += k.c * u(i + 1, t);
    if (i > 0)
      g += terms[i - 1].c * u(i - 1, t);
    return g / k.s;
  }
  // bound of the magnitudes that make up the derivative
  double slope(std::size_t i, const std::vector<double> &t) const {
    const auto &k = terms[i];
    double g = std::fabs(k.a) + 2 * std::fabs(k.b * u(i, t)) + std::fabs(k.d);
    if (i + 1 < terms.size())
      g += std::fabs(k.c * u(i + 1, t));
    if (i > 0)
      g += std::fabs(terms[i - 1].c * u(i - 1, t));
    return g / k.s;
  }
  double curvature(std::size_t i) const {
    return (2 * std::fabs(terms[i].b) + std::fabs(terms[i].d)) /
           (terms[i].s * terms[i].s);
  }
  std::vector<double> tunable(const albatross::ParameterStore &p) const {
    std::vector<double> t;
    for (const auto &k : terms) {
      const double v = p.at(k.name).value;
      t.push_back(k.log_scale ? std::log(v) : v);
    }
    return t;
  }
  double operator()(const albatross::ParameterStore &p) const {
    return value(tunable(p));
  }
};

struct Problem {
  albatross::ParameterStore store;
  Smooth f;
  std::vector<double> t, lo, hi; // in tuned coordinates
};

inline Problem gen_problem(pbt::Case &c, std::size_t max_n, bool convex) {
  using namespace albatross;
  Problem p;
  const std::size_t n = 1 + c.size(0, max_n - 1);
  for (std::size_t i = 0; i < n; ++i) {
    std::string name = c.ident(5);
    while (p.store.count(name))
      name += "x";
    Parameter q;
    const double at =
        c.pick<double>({-1, -1, -1, 0., 1., 1e-12, 1 - 1e-12, 1e-9});
    const double where = at < 0 ? c.real(0.05, 0.95) : at;
    switch (c.i(0, 6)) {
    case 0:
      q = {c.sym(5), UninformativePrior()};
      break;
    case 1: {
      const double w = c.logreal(1e-3, 1e3), lo = c.sym(3) * w;
      double v = lo + w * where;
      v = std::min(lo + w, std::max(lo, v));
      q = {v, UniformPrior(lo, lo + w)};
      break;
    }
    case 2: {
      const double lo = c.logreal(1e-6, 1), hi = lo * c.logreal(2, 1e6);
      double v = where == 0.   ? lo
                 : where == 1. ? hi
                               : lo * std::pow(hi / lo, where);
      v = std::min(hi, std::max(lo, v));
      q = {v, LogScaleUniformPrior(lo, hi)};
      break;
    }
    case 3:
      q = {c.sym(5), FixedPrior()};
      break;
    case 4:
      q = {at == 0. ? std::numeric_limits<double>::epsilon()
                    : c.logreal(1e-3, 10),
           PositivePrior()};
      break;
    case 5:
      q = {at == 0. ? 0. : c.logreal(1e-3, 10), NonNegativePrior()};
      break;
    default:
      q = {c.sym(4), GaussianPrior(0, 3)};
      break;
    }
    p.store[name] = q;
  }
  c.note().precision(17);
  for (const auto &kv : p.store) {
    const auto &q = kv.second;
    c.note() << kv.first << "=" << q.value << " " << q.prior.get_name() << "; ";
    if (q.is_fixed())
      continue;
    Smooth::Term k;
    k.name = kv.first;
    k.log_scale = q.prior.is_log_scale();
    const auto tr = [&](double v) { return k.log_scale ? std::log(v) : v; };
    p.t.push_back(tr(q.value));
    p.lo.push_back(tr(q.prior.lower_bound()));
    p.hi.push_back(tr(q.prior.upper_bound()));
    const double range = p.hi.back() - p.lo.back();
    k.s = std::isfinite(range) ? range : c.logreal(0.3, 10);
    k.m = std::isfinite(range) ? p.lo.back() + range * c.real(-0.3, 1.3)
                               : c.sym(2);
    k.a = convex ? 0 : c.sym(3);
    k.b = convex ? c.real(0.5, 4) : c.sym(2);
    k.d = convex ? 0 : c.sym(2);
    k.c = c.coin() ? 0. : convex ? c.sym(0.4) : c.sym(1);
    p.f.terms.push_back(k);
    c.note() << "m=" << k.m << " s=" << k.s << " a=" << k.a << " b=" << k.b
             << " d=" << k.d << " c=" << k.c << "; ";
  }
  c.sync();
  return p;
}

// Whether all parameters of q are within the bounds of those in store, keep
// their priors, and the fixed ones their values.
inline void check_inside(pbt::Case &c, const albatross::ParameterStore &q,
                         const albatross::ParameterStore &store,
                         const std::string &what) {
  c.eq(q.size(), store.size(), what + ": number of parameters");
  for (const auto &kv : store) {
    c.check(q.count(kv.first) == 1, what + ": has " + kv.first);
    const auto &p = q.at(kv.first);
    c.check(p.prior == kv.second.prior, what + ": prior of " + kv.first);
    if (kv.second.is_fixed())
      c.eq(p.value, kv.second.value, what + ": fixed " + kv.first);
    const double lo = kv.second.prior.lower_bound(),
                 hi = kv.second.prior.upper_bound();
    if (!(p.value >= lo && p.value <= hi)) {
      std::ostringstream o;
      o.precision(17);
      o << what << ": " << kv.first << " = " << p.value
        << " is outside of its bounds [" << lo << ", " << hi << "]";
      c.fail(o.str());
    }
  }
}

// Remembers the parameters an objective was evaluated with.
template <typename F> struct Recording {
  F f;
  std::mutex mutex;
  std::vector<std::pair<albatross::ParameterStore, double>> calls;
  double operator()(const albatross::ParameterStore &p) {
    const double v = f(p);
    std::lock_guard<std::mutex> lock(mutex);
    calls.emplace_back(p, v);
    return v;
  }
};

#endif
