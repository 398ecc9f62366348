// pbt: libs=nlopt,nlopt_cxx
#include "tuneref.hpp"

using namespace albatross;

namespace {

// an objective which is not defined everywhere
struct Holes {
  Smooth f;
  int kind; // 0: defined everywhere, 1: NaN on stripes, 2: inf on stripes,
            // 3: always NaN
  double operator()(const ParameterStore &p) const {
    const double v = f(p);
    if (kind == 3 || (kind == 1 && std::sin(40 * v) > 0.6))
      return std::nan("");
    if (kind == 2 && std::sin(40 * v) > 0.6)
      return HUGE_VAL;
    return v;
  }
};

bool same_values(const ParameterStore &a, const ParameterStore &b) {
  if (a.size() != b.size())
    return false;
  for (const auto &kv : a)
    if (!(b.count(kv.first) && b.at(kv.first).value == kv.second.value))
      return false;
  return true;
}

} // namespace

PBT_CHECK(greedy_tuning, 20000, 150000,
          "objectives (some undefined in places or everywhere) of 1-5 "
          "parameters, starting inside of or at the bounds, 1-6 queries in "
          "each direction, 0-5 iterations, with and without pool and log: "
          "every query is inside of the bounds and differs from the best "
          "parameters so far in one parameter; the result is the best of all "
          "that has been evaluated and the start is among it; non-trivial: "
          "something better than the start was found.") {
  const Problem p = gen_problem(c, 5, false);
  const Holes h{p.f, static_cast<int>(c.pick<long>({0, 0, 1, 2, 3}))};
  const std::size_t n = 1 + c.size(0, 5);
  const std::size_t iterations = c.size(0, 5);
  c.show("kind", h.kind).show("queries", n).show("iterations", iterations);
  std::unique_ptr<ThreadPool> pool;
  if (c.chance(1, 20))
    pool = std::make_unique<ThreadPool>(static_cast<std::size_t>(c.i(1, 4)));
  Recording<Holes> f{h, {}, {}};
  std::ostringstream log;
  std::ostream *os = c.chance(1, 5) ? &log : nullptr;
  const auto objective = [&](const ParameterStore &q) { return f(q); };
  const auto got =
      greedy_tune(objective, p.store, n, iterations, pool.get(), os);
  check_inside(c, got, p.store, "result");
  const std::size_t dim = p.t.size();
  c.eq(f.calls.size(), iterations * dim == 0 ? 0 : iterations * dim * 2 * n + 1,
       "number of evaluations");
  double best = HUGE_VAL;
  bool found = f.calls.empty(), start_seen = f.calls.empty();
  for (const auto &call : f.calls) {
    check_inside(c, call.first, p.store, "query");
    best = call.second < best ? call.second : best;
    bool start = true;
    for (const auto &kv : p.store)
      start = start && std::fabs(call.first.at(kv.first).value -
                                 kv.second.value) <=
                           1e-13 * std::fabs(kv.second.value);
    start_seen = start_seen || start;
  }
  c.check(start_seen, "the start is evaluated as well");
  for (const auto &call : f.calls)
    found = found || (call.second == best && same_values(call.first, got));
  if (best == HUGE_VAL)
    c.check(same_values(got, p.store),
            "nothing could be evaluated, the start is returned");
  else
    c.check(found, "the best of the evaluated parameters is returned");
  const double start = h(p.store), end = h(got);
  if (std::isfinite(start))
    c.check(end <= start + 1e-12 * (1 + std::fabs(start)),
            "no worse than the start");
  if (pool) {
    std::size_t calls = f.calls.size();
    const auto serial = greedy_tune(objective, p.store, n, iterations);
    c.check(same_values(serial, got), "serial and parallel results");
    c.eq(f.calls.size(), 2 * calls, "evaluations");
  }
  c.nontrivial(end < start);
}

PBT_CHECK(greedy_queries, 200000, 1500000,
          "for one parameter, the queries of the first round: inside of the "
          "range, at least one on each side that is not bounded, none at the "
          "start itself, in ascending order, and 2 n of them; non-trivial: "
          "the start is at a bound.") {
  const std::size_t n = 1 + c.size(0, 9);
  const double w = c.logreal(1e-3, 1e4), lo = c.sym(2) * w, hi = lo + w;
  double v = lo + w * c.real(0.01, 0.99);
  const long where = c.i(0, 3);
  if (where == 1)
    v = lo;
  if (where == 2)
    v = hi;
  c.show("n", n).show("lo", lo).show("hi", hi).show("v", v);
  const bool no_low = c.chance(1, 6) && where != 1,
             no_high = c.chance(1, 6) && where != 2;
  const auto q = details::get_queries(v, no_low ? -HUGE_VAL : lo,
                                      no_high ? HUGE_VAL : hi, n);
  c.eq(q.size(), 2 * n, "number of queries");
  bool below = false, above = false;
  for (std::size_t i = 0; i < q.size(); ++i) {
    c.check(std::isfinite(q[i]), "finite");
    c.check(no_low || q[i] >= lo, "query above the lower bound");
    c.check(no_high || q[i] <= hi, "query below the upper bound");
    c.check(q[i] != v, "a query is not where we are");
    below = below || q[i] < v;
    above = above || q[i] > v;
    if (i)
      c.check(q[i - 1] < q[i], "ascending");
  }
  c.eq(below, where != 1, "searches below");
  c.eq(above, where != 2, "searches above");
  c.nontrivial(where == 1 || where == 2);
}

PBT_CHECK(greedy_tuning_converges, 3000, 20000,
          "convex separable objectives of bounded parameters: 40 iterations "
          "with 8 queries end within 1% of the range of the constrained "
          "minimum; non-trivial: started more than 5% away from it.") {
  Problem p;
  const std::size_t n = 1 + c.size(0, 2);
  std::vector<double> best;
  bool away = false;
  for (std::size_t i = 0; i < n; ++i) {
    const std::string name(1, static_cast<char>('a' + i));
    const double w = c.logreal(1e-2, 1e2), lo = c.sym(2) * w;
    const double v = lo + w * c.real(0, 1);
    p.store[name] = {std::min(v, lo + w), UniformPrior(lo, lo + w)};
    Smooth::Term k{name, false, lo + w * c.real(-0.2, 1.2), w, 0,
                   c.real(0.5, 4), 0, 0};
    best.push_back(std::min(lo + w, std::max(lo, k.m)));
    away = away || std::fabs(best.back() - v) > 0.05 * w;
    p.f.terms.push_back(k);
    c.show("m", k.m).show("w", w).show("v", v).show("lo", lo);
  }
  const auto got = greedy_tune(p.f, p.store, 8, 40, nullptr, nullptr);
  for (std::size_t i = 0; i < n; ++i)
    c.near(got.at(p.f.terms[i].name).value, best[i],
           0.01 * p.f.terms[i].s + 1e-12, "minimum of " + p.f.terms[i].name);
  c.nontrivial(away);
}
