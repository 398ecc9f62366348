// pbt: tsan=1
#include <atomic>
#include <chrono>
#include <thread>
#include <albatross/Dataset>
#include <albatross/Indexing>
#include <albatross/utils/AsyncUtils>
#include "gen.hpp"

using namespace albatross;

namespace {

struct Boom : std::runtime_error {
  explicit Boom(std::size_t k) : std::runtime_error("boom"), which(k) {}
  std::size_t which;
};

// What every call did; delays are part of the generated case, so a schedule is
// provoked rather than waited for.
struct World {
  explicit World(std::size_t n)
      : calls(n), delay(n, 0), throws(n, false), on_caller(0), active(0),
        finished(0) {
    for (auto &x : calls)
      x = 0;
  }
  std::vector<std::atomic<int>> calls;
  std::vector<int> delay;
  std::vector<bool> throws;
  std::atomic<int> on_caller, active, finished;
  std::thread::id caller = std::this_thread::get_id();

  void enter(std::size_t k) {
    ++active;
    if (std::this_thread::get_id() == caller)
      ++on_caller;
    const int d = delay[k];
    if (d == 1) {
      std::this_thread::yield();
    } else if (d > 1) {
      const auto until =
          std::chrono::steady_clock::now() + std::chrono::microseconds(d);
      while (std::chrono::steady_clock::now() < until)
        std::this_thread::yield();
    }
    ++calls[k];
  }
  void leave(std::size_t k) {
    const bool t = throws[k];
    ++finished;
    --active;
    if (t)
      throw Boom(k);
  }
};

struct Setup {
  std::shared_ptr<ThreadPool> pool;
  std::size_t threads; // 0: no pool
};

Setup gen_pool(pbt::Case &c) {
  Setup s;
  s.threads = static_cast<std::size_t>(
      c.pick<long>({2, 3, 4, 8, 2, 5, 1, 0, 16}));
  if (s.threads == 1 && c.coin()) {
    s.pool = std::make_shared<ThreadPool>(1); // an actual one-thread pool
  } else if (s.threads >= 1) {
    s.pool = make_shared_thread_pool(s.threads);
  }
  c.show("threads", s.threads);
  return s;
}

void gen_schedule(pbt::Case &c, World *w, bool allow_throw) {
  const std::size_t n = w->delay.size();
  const long mode = c.i(0, 4);
  const int unit = static_cast<int>(c.pick<long>({20, 60, 150}));
  for (std::size_t k = 0; k < n; ++k) {
    if (mode == 1) // later elements finish first
      w->delay[k] = static_cast<int>((n - k) * static_cast<std::size_t>(unit) /
                                     std::max<std::size_t>(1, n));
    else if (mode == 2)
      w->delay[k] = c.chance(1, 3) ? unit : 0;
    else if (mode == 3)
      w->delay[k] = static_cast<int>(c.i(0, unit));
    else if (mode == 4)
      w->delay[k] = 1;
  }
  if (allow_throw && n > 0 && c.chance(1, 3)) {
    const std::size_t m = 1 + c.src.draw(2);
    for (std::size_t j = 0; j < m; ++j)
      w->throws[c.src.draw(n - 1)] = true;
    if (c.coin()) // something slow is still running when the exception appears
      w->delay[n - 1] = 150;
    c.label("throwing");
  }
  c.label(mode == 0 ? "no delays" : "delays");
  std::ostringstream o;
  for (std::size_t k = 0; k < n; ++k)
    o << w->delay[k] << (w->throws[k] ? "! " : " ");
  c.show("delays (us, ! throws)", o.str());
}

bool any_throws(const World &w) {
  for (bool b : w.throws)
    if (b)
      return true;
  return false;
}

// Runs f and checks what must hold about the calls whatever the schedule was.
template <typename F>
bool run(pbt::Case &c, World &w, const Setup &s, F f, const std::string &what) {
  bool threw = false;
  std::size_t which = 0;
  try {
    f();
  } catch (const Boom &b) {
    threw = true;
    which = b.which;
  }
  c.eq(w.active.load(), 0, what + ": calls still running after it returned");
  c.eq(threw, any_throws(w), what + ": an exception reached the caller");
  if (threw)
    c.check(w.throws[which], what + ": exception of a call that did not throw");
  const bool serial = s.threads <= 1;
  for (std::size_t k = 0; k < w.calls.size(); ++k) {
    const int n = w.calls[k].load();
    // a serial loop stops at the first exception
    if (!(serial && threw && k != which))
      c.eq(n, 1, what + ": number of calls for element " + std::to_string(k));
    c.check(n <= 1, what + ": called twice");
  }
  const int total = w.finished.load();
  if (serial)
    c.eq(w.on_caller.load(), total, what + ": serial calls on this thread");
  else
    c.eq(w.on_caller.load(), 0, what + ": pool calls on the calling thread");
  if (w.calls.size() > 2 && !serial)
    c.nontrivial();
  return threw;
}

struct Elem {
  std::size_t k = 0;
  double x = 0;
};
struct Result {
  std::size_t k = 0;
  double y = 0;
  std::string s;
};
bool operator==(const Result &a, const Result &b) {
  return a.k == b.k && a.y == b.y && a.s == b.s;
}
Result eval(const Elem &e) {
  return {e.k, std::sin(e.x) + static_cast<double>(e.k),
          std::string(e.k % 40, 'x')};
}

std::vector<Elem> gen_elems(pbt::Case &c, std::size_t n) {
  std::vector<Elem> xs(n);
  for (std::size_t k = 0; k < n; ++k) {
    xs[k].k = k;
    xs[k].x = c.real(0, 6);
  }
  return xs;
}

} // namespace

PBT_CHECK_N(parallel_vector_apply, 30000, 300000, 30,
            "more than two elements on a pool of at least two threads") {
  const Setup s = gen_pool(c);
  const std::size_t n = c.usually(0, 40, 600);
  const auto xs = gen_elems(c, n);
  World w(n);
  gen_schedule(c, &w, true);
  if (c.coin()) {
    std::vector<Result> out;
    const auto f = [&w](const Elem &e) {
      w.enter(e.k);
      Result r = eval(e);
      w.leave(e.k);
      return r;
    };
    const bool threw = run(
        c, w, s, [&] { out = albatross::apply(xs, f, s.pool.get()); },
        "vector apply");
    if (!threw) {
      c.eq(out.size(), n, "number of results");
      for (std::size_t k = 0; k < n; ++k)
        c.check(out[k] == eval(xs[k]), "result " + std::to_string(k));
    }
  } else {
    std::vector<double> out(n, -1);
    const auto f = [&w, &out](const Elem &e) {
      w.enter(e.k);
      out[e.k] = eval(e).y;
      w.leave(e.k);
    };
    const bool threw = run(
        c, w, s, [&] { albatross::apply(xs, f, s.pool.get()); }, "void apply");
    for (std::size_t k = 0; k < n && !threw; ++k)
      c.eq(out[k], eval(xs[k]).y, "value written by the call");
  }
}

PBT_CHECK_N(parallel_map_apply, 30000, 300000, 30,
            "more than two entries on a pool of at least two threads") {
  const Setup s = gen_pool(c);
  const std::size_t n = c.usually(0, 40, 600);
  const auto xs = gen_elems(c, n);
  World w(n);
  gen_schedule(c, &w, true);
  // keys in an order that differs from the order of insertion
  const auto perm = c.permutation(n);
  std::map<long, Elem> m;
  for (std::size_t k = 0; k < n; ++k)
    m[7 - 3 * static_cast<long>(perm[k])] = xs[k];
  const Grouped<long, Elem> g(m);
  const bool grouped = c.coin();
  const long kind = c.i(0, 3);
  c.show("kind", std::to_string(kind) + (grouped ? " grouped" : " map"));
  ThreadPool *pool = s.pool.get();
  const auto verify = [&](const auto &out, bool with_key) {
    c.eq(out.size(), n, "number of results");
    auto it = m.begin();
    for (const auto &kv : out) {
      c.eq(kv.first, it->first, "key order");
      Result r = eval(it->second);
      if (with_key)
        r.y += static_cast<double>(it->first);
      c.check(kv.second == r, "value at key " + std::to_string(kv.first));
      ++it;
    }
  };
  if (kind == 0) {
    const auto f = [&w](const Elem &e) {
      w.enter(e.k);
      Result r = eval(e);
      w.leave(e.k);
      return r;
    };
    Grouped<long, Result> out;
    if (!run(c, w, s,
             [&] {
               out = grouped ? g.apply(f, pool) : albatross::apply(m, f, pool);
             },
             "map apply"))
      verify(out, false);
  } else if (kind == 1) {
    const auto f = [&w](long key, const Elem &e) {
      w.enter(e.k);
      Result r = eval(e);
      r.y += static_cast<double>(key);
      w.leave(e.k);
      return r;
    };
    Grouped<long, Result> out;
    if (!run(c, w, s,
             [&] {
               out = grouped ? g.apply(f, pool) : albatross::apply(m, f, pool);
             },
             "key value apply"))
      verify(out, true);
  } else if (kind == 2) {
    std::vector<double> out(n, -1);
    const auto f = [&](const Elem &e) {
      w.enter(e.k);
      out[e.k] = eval(e).y;
      w.leave(e.k);
    };
    const bool threw = run(
        c, w, s,
        [&] {
          if (grouped)
            g.apply(f, pool);
          else
            albatross::apply(m, f, pool);
        },
        "void map apply");
    for (std::size_t k = 0; k < n && !threw; ++k)
      c.eq(out[k], eval(xs[k]).y, "value written");
  } else {
    std::vector<long> out(n, -1000);
    const auto f = [&](long key, const Elem &e) {
      w.enter(e.k);
      out[e.k] = key;
      w.leave(e.k);
    };
    const bool threw = run(
        c, w, s,
        [&] {
          if (grouped)
            g.apply(f, pool);
          else
            albatross::apply(m, f, pool);
        },
        "void key value apply");
    for (std::size_t k = 0; k < n && !threw; ++k)
      c.eq(out[k], 7 - 3 * static_cast<long>(perm[k]), "key passed");
  }
}

// a grouping (not just a map) with a pool
PBT_CHECK_N(parallel_group_by_apply, 15000, 150000, 30,
            "at least three groups on a pool of at least two threads") {
  const Setup s = gen_pool(c);
  const std::size_t n = c.size(0, 30);
  const auto xs = gen_elems(c, n);
  const std::size_t k_groups = static_cast<std::size_t>(c.i(1, 9));
  std::vector<std::size_t> group(n);
  std::map<std::size_t, std::vector<std::size_t>> ref;
  for (std::size_t k = 0; k < n; ++k) {
    group[k] = c.src.draw(k_groups - 1);
    ref[group[k]].push_back(k);
  }
  World w(k_groups);
  gen_schedule(c, &w, false);
  const auto grouper = [&](const Elem &e) { return group[e.k]; };
  const auto f = [&](std::size_t key, const std::vector<Elem> &es) {
    w.enter(key);
    std::vector<std::size_t> ks;
    for (const auto &e : es)
      ks.push_back(e.k);
    w.leave(key);
    return ks;
  };
  const auto out = group_by(xs, grouper).apply(f, s.pool.get());
  c.eq(w.active.load(), 0, "calls still running");
  c.eq(out.size(), ref.size(), "number of groups");
  for (const auto &kv : ref) {
    c.eq(w.calls[kv.first].load(), 1, "calls per group");
    c.check(out.at(kv.first) == kv.second, "group content");
  }
  c.nontrivial(ref.size() > 2 && s.threads > 1);
}

// make_shared_thread_pool / get_thread_count / should_serial_apply
PBT_CHECK(pool_construction, 300, 2000, "a pool of several threads") {
  const std::size_t n = static_cast<std::size_t>(c.i(0, 9));
  c.show("threads", n);
  const auto pool = make_shared_thread_pool(n);
  const std::size_t expect =
      n == 0 ? std::max<std::size_t>(1, std::thread::hardware_concurrency())
             : n;
  c.eq(get_default_thread_count(),
       std::max<std::size_t>(1, std::thread::hardware_concurrency()),
       "default thread count");
  c.eq(get_thread_count(pool), expect, "thread count");
  if (n == 1)
    c.check(pool == nullptr, "one thread means no pool");
  if (n > 1)
    c.check(pool != nullptr && pool->thread_count() == n, "pool size");
  c.eq(get_thread_count(nullptr), std::size_t(1), "no pool");
  c.eq(detail::should_serial_apply(pool.get()), expect <= 1, "serial fallback");
  c.eq(detail::should_serial_apply(nullptr), true, "serial without a pool");
  c.nontrivial(n > 1);
}

// several applies in flight on one pool from different threads
PBT_CHECK_N(shared_pool, 3000, 30000, 30,
            "two callers share a pool of at least two threads") {
  Setup s = gen_pool(c);
  c.assume(s.threads > 1);
  const std::size_t n = 1 + c.size(0, 20);
  const auto xs = gen_elems(c, n);
  const std::size_t callers = 2 + c.src.draw(1);
  std::vector<std::unique_ptr<World>> ws;
  for (std::size_t t = 0; t < callers; ++t) {
    ws.push_back(std::make_unique<World>(n));
    gen_schedule(c, ws.back().get(), false);
  }
  std::vector<std::vector<Result>> outs(callers);
  std::vector<std::thread> ts;
  for (std::size_t t = 0; t < callers; ++t)
    ts.emplace_back([&, t] {
      outs[t] = albatross::apply(
          xs,
          [&](const Elem &e) {
            ws[t]->enter(e.k);
            Result r = eval(e);
            r.y += static_cast<double>(t);
            ws[t]->leave(e.k);
            return r;
          },
          s.pool.get());
    });
  for (auto &t : ts)
    t.join();
  for (std::size_t t = 0; t < callers; ++t) {
    c.eq(outs[t].size(), n, "results per caller");
    for (std::size_t k = 0; k < n; ++k) {
      Result r = eval(xs[k]);
      r.y += static_cast<double>(t);
      c.check(outs[t][k] == r, "result of the right caller");
      c.eq(ws[t]->calls[k].load(), 1, "calls");
    }
  }
  c.nontrivial(n > 2);
}
