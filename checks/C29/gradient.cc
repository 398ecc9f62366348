// pbt: libs=nlopt,nlopt_cxx
#include "tuneref.hpp"

using namespace albatross;

PBT_CHECK(gradient_of_parameters, 120000, 900000,
          "smooth functions of 1-6 parameters (free, fixed, bounded, log "
          "scaled) at interior points, exactly at bounds and next to them, "
          "with and without a pool: the finite difference is the derivative "
          "in the tuned coordinate to truncation and rounding error, zero "
          "when it would push the parameter out of its bound, and every "
          "evaluation is inside of the bounds with one parameter changed; "
          "non-trivial: a parameter at one of its bounds.") {
  const Problem p = gen_problem(c, 6, false);
  std::unique_ptr<ThreadPool> pool;
  if (c.chance(1, 20))
    pool = std::make_unique<ThreadPool>(static_cast<std::size_t>(c.i(1, 4)));
  Recording<Smooth> f{p.f, {}, {}};
  const double f_val = p.f(p.store);
  const auto got = compute_gradient(std::ref(f), p.store, f_val, pool.get());
  c.eq(got.size(), p.t.size(), "dimension");
  bool at_bound = false;
  for (std::size_t i = 0; i < got.size(); ++i) {
    const double range = p.hi[i] - p.lo[i];
    const double eps = std::isfinite(range) ? 1e-8 * range : 1e-6;
    const double d = p.f.derivative(i, p.t);
    // rounding of the perturbed coordinate (and its exponential)
    double rounding = 4e-16 * (std::fabs(p.t[i]) + 1.);
    if (!p.f.terms[i].log_scale)
      rounding = 4e-16 * std::fabs(p.t[i]);
    const double tol = p.f.curvature(i) * eps +
                       (p.f.magnitude(p.t) * 4e-15 +
                        p.f.slope(i, p.t) * rounding) /
                           eps +
                       1e-12 * p.f.slope(i, p.t);
    // setting a log scaled parameter goes through exp(log(v))
    double others = 0;
    for (std::size_t j = 0; j < got.size(); ++j)
      if (p.f.terms[j].log_scale)
        others += p.f.slope(j, p.t) * 4e-16 * (1 + std::fabs(p.t[j]));
    const double allowed = tol + others / eps;
    const std::string name = p.f.terms[i].name;
    const bool low = p.t[i] <= p.lo[i], high = p.t[i] >= p.hi[i];
    at_bound = at_bound || low || high;
    if ((low && d > allowed) || (high && d < -allowed))
      c.eq(got[i], 0., "derivative towards the outside at the bound of " + name);
    else if ((low || high) && std::fabs(d) <= allowed)
      c.near(got[i], 0., 2 * allowed, "vanishing derivative by " + name);
    else
      c.near(got[i], d, allowed, "derivative by " + name);
  }
  for (const auto &call : f.calls) {
    check_inside(c, call.first, p.store, "evaluation");
    std::size_t changed = 0;
    for (const auto &kv : p.store)
      if (std::fabs(call.first.at(kv.first).value - kv.second.value) >
          1e-14 * std::fabs(kv.second.value) * 30)
        ++changed;
    c.check(changed <= 1, "one parameter is perturbed at a time");
  }
  c.eq(f.calls.size(), p.t.size(), "number of evaluations");
  if (pool) {
    const auto serial = compute_gradient(p.f, p.store, f_val);
    c.check(serial == got, "serial and parallel gradients");
  }
  c.nontrivial(at_bound);
}

PBT_CHECK(gradient_of_vectors, 200000, 1500000,
          "the same for functions of 1-8 numbers without bounds; non-trivial: "
          "two or more of them.") {
  const std::size_t n = 1 + c.size(0, 7);
  Smooth s;
  std::vector<double> x;
  for (std::size_t i = 0; i < n; ++i) {
    s.terms.push_back({"", false, c.sym(2), c.logreal(0.3, 10), c.sym(3),
                       c.sym(2), c.sym(2), c.sym(1)});
    x.push_back(c.sym(10));
  }
  c.showv("x", x);
  std::unique_ptr<ThreadPool> pool;
  if (c.chance(1, 20))
    pool = std::make_unique<ThreadPool>(static_cast<std::size_t>(c.i(1, 4)));
  std::mutex m;
  std::vector<std::vector<double>> calls;
  const auto f = [&](const std::vector<double> &v) {
    std::lock_guard<std::mutex> lock(m);
    calls.push_back(v);
    return s.value(v);
  };
  const auto before = x;
  const auto got = compute_gradient(f, x, s.value(x), pool.get());
  c.check(x == before, "arguments unmodified");
  c.eq(got.size(), n, "dimension");
  c.eq(calls.size(), n, "number of evaluations");
  for (std::size_t i = 0; i < n; ++i) {
    const double eps = 1e-6;
    const double tol = s.curvature(i) * eps + 1e-12 * s.slope(i, x) +
                       (s.magnitude(x) * 4e-15 +
                        s.slope(i, x) * 4e-16 * std::fabs(x[i])) /
                           eps;
    c.near(got[i], s.derivative(i, x), tol,
           "derivative " + std::to_string(i));
  }
  c.nontrivial(n > 1);
}
