// pbt:
#include "density.hpp"

using namespace albatross;

namespace {

struct Recorded {
  std::vector<double> params;
  double value;
};

// A density which also remembers what it has been asked.
struct Recorder {
  Density d;
  std::vector<Recorded> *log;
  double operator()(const std::vector<double> &x) const {
    const double v = d(x);
    if (log)
      log->push_back({x, v});
    return v;
  }
};

EnsembleSamplerState draw_state(const Density &d, std::size_t n,
                                std::uint64_t seed) {
  std::mt19937_64 rng(seed);
  EnsembleSamplerState s;
  for (std::size_t i = 0; i < n; ++i) {
    const auto x = d.sample(rng);
    s.push_back({x, d(x), true});
  }
  return s;
}

bool same_state(const SamplerState &a, const SamplerState &b) {
  return a.params == b.params &&
         (a.log_prob == b.log_prob ||
          (std::isnan(a.log_prob) && std::isnan(b.log_prob)));
}

bool same_states(const std::vector<EnsembleSamplerState> &a,
                 const std::vector<EnsembleSamplerState> &b) {
  if (a.size() != b.size())
    return false;
  for (std::size_t i = 0; i < a.size(); ++i) {
    if (a[i].size() != b[i].size())
      return false;
    for (std::size_t k = 0; k < a[i].size(); ++k)
      if (!same_state(a[i][k], b[i][k]) || a[i][k].accepted != b[i][k].accepted)
        return false;
  }
  return true;
}

// is p on the line from x_j through x_k; returns the stretch
bool stretch_of(const std::vector<double> &p, const std::vector<double> &xk,
                const std::vector<double> &xj, double *z) {
  // the coordinate which gives the stretch most accurately
  std::size_t best = 0;
  double best_d = -1;
  for (std::size_t i = 0; i < p.size(); ++i) {
    const double m = 1 + std::fabs(xk[i]) + std::fabs(xj[i]);
    const double d = std::fabs(xk[i] - xj[i]) / m;
    if (d > best_d) {
      best_d = d;
      best = i;
    }
  }
  if (!(best_d > 1e-9))
    return false;
  *z = (p[best] - xj[best]) / (xk[best] - xj[best]);
  for (std::size_t i = 0; i < p.size(); ++i) {
    const double m = std::fabs(xk[i]) + std::fabs(xj[i]) + std::fabs(p[i]);
    const double e = p[i] - (xj[i] + *z * (xk[i] - xj[i]));
    if (!(std::fabs(e) <= 1e-12 * m * (1 + 1 / best_d)))
      return false;
  }
  return true;
}

} // namespace

PBT_CHECK(a_step_moves_walkers_along_lines, 60000, 500000,
          "4-16 walkers drawn exactly from a 1-5 dimensional density "
          "(Gaussian, correlated, box, exponential; -inf, NaN or inf outside of "
          "the support), n_splits 2-4 and stretch 1.1-8: each walker is "
          "proposed once, the proposal is on the line through another walker "
          "with a stretch in [1/a, a], is accepted whenever the ratio of "
          "Goodman and Weare is above 1 and never when it is below exp(-40) or "
          "not a number; states are updated accordingly; non-trivial: there "
          "are both accepted and rejected proposals.") {
  const Density d = gen_density(c, 5);
  const std::size_t n_splits = 2 + static_cast<std::size_t>(c.i(0, 2));
  const std::size_t n = n_splits + c.size(2, 12);
  const double a = c.pick<double>({2., 2., 1.1, 1.5, 3., 8.});
  const auto before = draw_state(d, n, c.u64());
  auto e = gen_engine(c);
  c.show("n", n).show("splits", n_splits).show("a", a);
  std::vector<Recorded> calls;
  const Recorder f{d, &calls};
  const auto after = stretch_move_step(before, f, e, n_splits, a);
  c.eq(after.size(), n, "number of walkers");
  c.eq(calls.size(), n, "one evaluation for each walker");

  // The walkers are visited split by split.
  const auto splits = split_indices(n, n_splits);
  std::vector<int> seen(n, 0);
  c.eq(splits.size(), n_splits, "number of splits");
  auto current = before;
  std::size_t call = 0;
  bool any_accept = false, any_reject = false;
  for (const auto &split : splits) {
    std::set<std::size_t> members(split.begin(), split.end());
    c.check(split.size() >= n / n_splits &&
                split.size() <= n / n_splits + 1,
            "splits have the same size");
    for (const auto k : split) {
      seen[k] += 1;
      const Recorded &p = calls[call++];
      c.eq(p.params.size(), d.dim, "dimension");
      // find the walker the proposal was made with
      bool found = false, must_accept = true, must_reject = true;
      for (std::size_t j = 0; j < n; ++j) {
        double z = 0;
        if (members.count(j))
          continue;
        if (!stretch_of(p.params, current[k].params, current[j].params, &z))
          continue;
        if (!(z >= 1 / a * (1 - 1e-6) && z <= a * (1 + 1e-6)))
          continue;
        found = true;
        const double ratio = (static_cast<double>(d.dim) - 1) * std::log(z) +
                             p.value - current[k].log_prob;
        must_accept = must_accept && ratio > 1e-5;
        must_reject = must_reject && !(ratio > -40);
      }
      c.check(found, "the proposal of walker " + std::to_string(k) +
                         " is a stretch along the line through a walker of "
                         "another split");
      const bool accepted = after[k].accepted;
      any_accept = any_accept || accepted;
      any_reject = any_reject || !accepted;
      if (!std::isfinite(p.value))
        must_accept = false, must_reject = true;
      if (must_accept)
        c.check(accepted, "a proposal with ratio above 1 is accepted");
      if (must_reject)
        c.check(!accepted, "an impossible proposal is rejected");
      if (accepted) {
        c.check(after[k].params == p.params, "accepted state has the proposal");
        c.eq(after[k].log_prob, p.value, "log probability of accepted state");
        current[k] = after[k];
      } else {
        c.check(same_state(after[k], before[k]),
                "a rejected proposal leaves the walker where it was");
      }
    }
  }
  for (const int s : seen)
    c.eq(s, 1, "every walker is in one split");
  c.label_if(d.kind >= Density::Box, "bounded support");
  c.nontrivial(any_accept && any_reject);
}

PBT_CHECK(step_statistics, 400, 4000,
          "600-1500 repetitions of one step from the same state: partners "
          "are uniform over the other splits, stretches have density "
          "proportional to 1/sqrt(z) on [1/a, a], and the number of accepted "
          "proposals agrees with the sum of the acceptance probabilities "
          "min(1, z^(dim-1) p'/p), all as a whole and for z < 1 and z > 1 "
          "(6.5 standard deviations); non-trivial: acceptance probabilities "
          "strictly between 0 and 1 dominate.") {
  Density d = gen_density(c, 5);
  if (d.dim < 2) { // the partner can not be told apart on a line
    d.dim = 2;
    d.loc.push_back(1);
    d.scale.push_back(2);
  }
  const std::size_t n = 4 + c.size(0, 6);
  const double a = c.pick<double>({2., 1.3, 4.});
  const auto before = draw_state(d, n, c.u64());
  auto e = gen_engine(c);
  c.show("n", n).show("a", a);
  const std::size_t reps = 600 + static_cast<std::size_t>(c.i(0, 900));
  const auto splits = split_indices(n, 2);
  const auto &split = splits.front(); // nothing has moved yet
  std::set<std::size_t> members(split.begin(), split.end());
  struct Tally {
    double n = 0, accepted = 0, expected = 0, var = 0;
  } low, high;
  std::vector<double> partners(n, 0.), us;
  double trials = 0, middling = 0;
  std::vector<Recorded> calls;
  for (std::size_t r = 0; r < reps; ++r) {
    calls.clear();
    const auto after = stretch_move_step(before, Recorder{d, &calls}, e, 2, a);
    for (std::size_t s = 0; s < split.size(); ++s) {
      const std::size_t k = split[s];
      std::size_t partner = n, candidates = 0;
      double z = 0;
      for (std::size_t j = 0; j < n; ++j) {
        double zj = 0;
        if (!members.count(j) && stretch_of(calls[s].params, before[k].params,
                                            before[j].params, &zj)) {
          ++candidates;
          partner = j;
          z = zj;
        }
      }
      c.check(partner < n, "partner found");
      if (candidates > 1)
        continue; // three walkers which happen to be on a line
      partners[partner] += 1;
      trials += 1;
      us.push_back((std::sqrt(std::max(0., a * z)) - 1) / (a - 1));
      const double ratio = (static_cast<double>(d.dim) - 1) * std::log(z) +
                           calls[s].value - before[k].log_prob;
      const double prob =
          !std::isfinite(calls[s].value) ? 0. : ratio > 0 ? 1. : std::exp(ratio);
      Tally &t = z < 1 ? low : high;
      t.n += 1;
      t.accepted += after[k].accepted;
      t.expected += prob;
      t.var += prob * (1 - prob);
      middling += prob > 0.01 && prob < 0.99;
    }
  }
  const auto close = [&](double x, double mean, double var,
                         const std::string &msg) {
    const double allowed = 6.5 * std::sqrt(var) + 15;
    if (!(std::fabs(x - mean) <= allowed)) {
      std::ostringstream o;
      o << msg << ": " << x << " expected " << mean << " +- " << allowed;
      c.fail(o.str());
    }
  };
  close(low.accepted, low.expected, low.var, "accepted with z < 1");
  close(high.accepted, high.expected, high.var, "accepted with z > 1");
  const double m = static_cast<double>(n - split.size());
  for (std::size_t j = 0; j < n; ++j) {
    if (members.count(j))
      c.eq(partners[j], 0., "no partner in the same split");
    else
      close(partners[j], trials / m, trials / m * (1 - 1 / m),
            "times walker " + std::to_string(j) + " was the partner");
  }
  std::sort(us.begin(), us.end());
  double ks = 0;
  for (std::size_t i = 0; i < us.size(); ++i) {
    const double dn = static_cast<double>(us.size());
    ks = std::max(ks, std::max(std::fabs(us[i] - static_cast<double>(i) / dn),
                               std::fabs(us[i] -
                                         static_cast<double>(i + 1) / dn)));
  }
  // P(sqrt(n) D > 3.6) is about 2 exp(-2 * 3.6^2) = 1e-11
  c.check(ks * std::sqrt(static_cast<double>(us.size())) < 3.6,
          "stretches have density proportional to 1 / sqrt(z)");
  c.nontrivial(middling > 0.2 * trials);
}

PBT_CHECK(exact_samples_stay_exact, 220, 3000,
          "200-500 independent ensembles of 4-10 walkers drawn exactly from a "
          "1-4 dimensional density; after 1-25 steps of the sampler every "
          "coordinate, difference and sum of neighbouring coordinates, and "
          "the minimum over each ensemble, still have the distribution they "
          "started with (Kolmogorov-Smirnov at 1e-11); non-trivial: more than "
          "5 steps and more than one dimension.") {
  const Density d = gen_density(c, 4);
  const std::size_t n = 4 + c.size(0, 6);
  const std::size_t reps = 200 + static_cast<std::size_t>(c.i(0, 300));
  const std::size_t steps = 1 + c.size(0, 24);
  c.show("walkers", n).show("ensembles", reps).show("steps", steps);
  const std::uint64_t seed = c.u64();
  auto e = gen_engine(c);
  std::vector<std::vector<double>> us(d.dim + 2);
  for (std::size_t r = 0; r < reps; ++r) {
    const auto history =
        ensemble_sampler(d, draw_state(d, n, seed + r), steps, e);
    c.eq(history.size(), steps + 1, "iterations");
    double lowest = 2;
    for (const auto &s : history.back()) {
      for (std::size_t i = 0; i < d.dim; ++i)
        us[i].push_back(d.cdf(s.params[i], i));
      lowest = std::min(lowest, us[0].back());
      if ((d.kind == Density::Gaussian || d.kind == Density::Correlated) &&
          d.dim > 1) {
        const double z0 = (s.params[0] - d.loc[0]) / d.scale[0];
        const double z1 = (s.params[1] - d.loc[1]) / d.scale[1];
        const double w = (z0 - z1) / std::sqrt(2 - 2 * d.rho);
        us[d.dim].push_back(0.5 * std::erfc(-w / std::sqrt(2.)));
      }
    }
    us[d.dim + 1].push_back(1 - std::pow(1 - lowest, static_cast<double>(n)));
  }
  for (std::size_t i = 0; i < us.size(); ++i) {
    auto &u = us[i];
    if (u.empty())
      continue;
    std::sort(u.begin(), u.end());
    double ks = 0;
    const double dn = static_cast<double>(u.size());
    for (std::size_t k = 0; k < u.size(); ++k)
      ks = std::max(ks,
                    std::max(std::fabs(u[k] - static_cast<double>(k) / dn),
                             std::fabs(u[k] - static_cast<double>(k + 1) / dn)));
    if (!(ks * std::sqrt(dn) < 3.6)) {
      std::ostringstream o;
      o << (i < d.dim ? "coordinate " + std::to_string(i)
            : i == d.dim ? "difference of coordinates"
                         : "minimum over the ensemble")
        << " no longer follows the density: sqrt(n) D = " << ks * std::sqrt(dn);
      c.fail(o.str());
    }
  }
  c.nontrivial(steps > 5 && d.dim > 1);
}

PBT_CHECK(initial_state_is_finite, 150000, 1000000,
          "3-15 walkers of which at least three are finite, the others with "
          "NaN or infinite log probabilities or parameters: the finite ones "
          "are kept in order, the rest is replaced by finite states between "
          "the finite ones, with matching log probabilities; nothing changes "
          "when all are finite; none or one finite state is refused; "
          "non-trivial: something had to be replaced.") {
  const Density d = gen_density(c, 3);
  const std::size_t n = 3 + c.size(0, 12);
  std::mt19937_64 rng(c.u64());
  EnsembleSamplerState start;
  std::vector<std::size_t> kept;
  const double bad[3] = {std::nan(""), HUGE_VAL, -HUGE_VAL};
  const bool refuse = c.chance(1, 300);
  for (std::size_t i = 0; i < n; ++i) {
    auto x = d.sample(rng);
    SamplerState s{x, d(x), c.coin()};
    const bool spoil = refuse ? kept.size() == 1 || c.coin()
                              : (n - i > 3 - std::min<std::size_t>(
                                                 3, kept.size())) &&
                                    c.chance(1, 3);
    if (!spoil)
      kept.push_back(i);
    else if (c.chance(1, 4))
      s.params[c.src.draw(d.dim - 1)] = bad[c.src.draw(2)];
    else
      s.log_prob = bad[c.src.draw(2)];
    start.push_back(s);
  }
  c.show("n", n).showv("finite", kept);
  auto e = gen_engine(c);
  if (refuse) {
    c.check(pbt::rejects([&] { ensure_finite_initial_state(d, start, e); }),
            "less than two finite states are refused");
    return;
  }
  std::vector<Recorded> calls;
  const auto got =
      ensure_finite_initial_state(Recorder{d, &calls}, start, e);
  c.eq(got.size(), n, "number of walkers");
  for (std::size_t i = 0; i < kept.size(); ++i)
    c.check(same_state(got[i], start[kept[i]]) &&
                got[i].accepted == start[kept[i]].accepted,
            "finite states are kept");
  for (std::size_t i = kept.size(); i < n; ++i) {
    c.eq(got[i].log_prob, d(got[i].params), "log probability");
    c.check(std::isfinite(got[i].log_prob), "finite log probability");
    for (std::size_t k = 0; k < d.dim; ++k) {
      double lo = HUGE_VAL, hi = -HUGE_VAL;
      for (const auto j : kept) {
        lo = std::min(lo, start[j].params[k]);
        hi = std::max(hi, start[j].params[k]);
      }
      const double tol = 1e-12 * (std::fabs(lo) + std::fabs(hi));
      c.check(got[i].params[k] >= lo - tol && got[i].params[k] <= hi + tol,
              "replacements are between finite states");
    }
  }
  // replacements are new points, different from each other
  for (std::size_t i = kept.size(); i < n; ++i)
    for (std::size_t j = 0; j < i; ++j)
      c.check(got[i].params != got[j].params, "replacements differ");
  c.check(calls.size() >= n - kept.size() &&
              (kept.size() < n || calls.empty()),
          "only replacements are evaluated");
  c.nontrivial(kept.size() < n);
}

namespace {

struct History {
  std::vector<std::size_t> iterations;
  std::vector<EnsembleSamplerState> states;
};

struct RememberingCallback {
  History *h;
  void operator()(std::size_t i, const EnsembleSamplerState &s) {
    h->iterations.push_back(i);
    h->states.push_back(s);
  }
};

} // namespace

PBT_CHECK(whole_runs, 20000, 150000,
          "runs of 0-30 iterations from good and bad starting points, through "
          "states or parameter vectors, as an lvalue, a temporary functor "
          "which owns its data or a std::function: every state is finite and "
          "carries its own log probability, a walker moves if and only if it "
          "is marked accepted, the callback sees iterations 0..n with the "
          "states that are returned, and all the ways of calling give the "
          "same history; non-trivial: three or more iterations.") {
  const Density d = gen_density(c, 4);
  const std::size_t n = 4 + c.size(0, 12);
  const std::size_t iterations = c.size(0, 30);
  c.show("walkers", n).show("iterations", iterations);
  std::mt19937_64 rng(c.u64());
  std::vector<std::vector<double>> params;
  for (std::size_t i = 0; i < n; ++i) {
    auto x = d.sample(rng);
    if (i >= 3 && c.chance(1, 5))
      x[0] = d.loc[0] - d.scale[0]; // outside of a bounded support
    params.push_back(x);
  }
  const auto e = gen_engine(c);
  auto e1 = e;
  History h;
  RememberingCallback cb{&h};
  std::vector<Recorded> calls;
  Recorder rec{d, &calls};
  const auto got = ensemble_sampler(rec, params, iterations, e1, cb);
  c.eq(got.size(), iterations + 1, "number of states");
  c.eq(h.states.size(), iterations + 1, "number of callbacks");
  c.check(same_states(got, h.states), "callbacks see the returned states");
  std::set<std::vector<double>> evaluated;
  for (const auto &r : calls)
    evaluated.insert(r.params);
  for (std::size_t i = 0; i < got.size(); ++i) {
    c.eq(h.iterations[i], i, "iterations in order");
    c.eq(got[i].size(), n, "number of walkers");
    for (std::size_t k = 0; k < n; ++k) {
      const auto &s = got[i][k];
      c.check(std::isfinite(s.log_prob), "finite log probability");
      c.eq(s.log_prob, d(s.params), "log probability of the walker");
      c.check(evaluated.count(s.params) == 1, "states have been evaluated");
      if (i > 0) {
        const auto &p = got[i - 1][k];
        c.check(s.accepted == (s.params != p.params),
                "a walker moves when it is accepted and only then");
      }
    }
  }
  // the same through other entry points
  EnsembleSamplerState start;
  for (const auto &p : params)
    start.push_back({p, d(p), true});
  auto e2 = e;
  c.check(same_states(ensemble_sampler(d, start, iterations, e2), got),
          "from states");
  auto e3 = e;
  std::function<double(const std::vector<double> &)> fn = d;
  const std::vector<double> loc = d.loc;
  if (c.coin()) {
    const auto r = ensemble_sampler(std::move(fn), params, iterations, e3);
    c.check(same_states(r, got), "from a temporary std::function");
  } else {
    const auto r = ensemble_sampler(
        [d](const std::vector<double> &x) { return d(x); }, start, iterations,
        e3);
    c.check(same_states(r, got), "from a temporary lambda");
  }
  c.nontrivial(iterations >= 3);
}

PBT_CHECK(helpers, 200000, 1000000,
          "split_indices partitions 0..n-1 into k groups of nearly the same "
          "size; random_complement is in range and never the excluded "
          "index, and reaches all of the others; split_string inverts a join; "
          "non-trivial: n above 2.") {
  const std::size_t n = 1 + c.size(0, 30);
  const std::size_t k = 1 + static_cast<std::size_t>(
                                c.i(0, static_cast<long>(n) - 1));
  c.show("n", n).show("k", k);
  const auto splits = split_indices(n, k);
  c.eq(splits.size(), k, "number of splits");
  std::vector<int> seen(n, 0);
  for (const auto &s : splits) {
    c.check(s.size() == n / k || s.size() == n / k + 1, "sizes");
    for (const auto i : s) {
      c.check(i < n, "in range");
      seen[i] += 1;
    }
  }
  for (const int s : seen)
    c.eq(s, 1, "in one split");
  if (n > 1) {
    auto e = gen_engine(c);
    const std::size_t ex = c.src.draw(n - 1);
    const std::size_t m = std::min<std::size_t>(n, 4);
    std::set<std::size_t> reached;
    for (int t = 0; t < 3; ++t) {
      const auto r = random_complement(n, ex, e);
      c.check(r < n && r != ex, "random_complement");
    }
    const std::size_t ex2 = ex % m;
    if (m > 1) {
      for (int t = 0; t < 80; ++t)
        reached.insert(random_complement(m, ex2, e));
      c.eq(reached.size(), m - 1, "random_complement reaches every index");
    }
  }
  std::vector<std::string> parts;
  std::string joined;
  const std::size_t np = 1 + c.size(0, 5);
  for (std::size_t i = 0; i < np; ++i) {
    parts.push_back(c.ident(4));
    if (i + 1 < np && c.chance(1, 5))
      parts.back().clear();
    joined += (i ? "," : "") + parts.back();
  }
  c.check(split_string(joined, ',') == parts, "split_string of " + joined);
  c.nontrivial(n > 2);
}
