// pbt:
#include <albatross/GP>
#include <albatross/Evaluation>
#include <albatross/Ransac>
#include "pbt.hpp"
using namespace albatross;

namespace {
template <typename Key> Key name_of(long i);
template <> int name_of<int>(long i) { return static_cast<int>(7 * i % 31); }
template <> std::string name_of<std::string>(long i) {
  return (i % 3 == 0 ? "g" : "") + std::to_string(i * 5 % 13) + (i % 2 ? "x" : "");
}

std::uint64_t mix(std::uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  x ^= x >> 33;
  return x;
}

// a metric for anything, from a generated seed
struct World {
  std::uint64_t seed;
  unsigned special; // how often a metric is not a usual number
  template <typename Key> std::uint64_t hash(const std::vector<Key> &keys) const {
    std::uint64_t h = seed;
    std::set<Key> sorted(keys.begin(), keys.end());
    for (const auto &k : sorted)
      h = mix(h + std::hash<Key>()(k) + 1);
    return h;
  }
  double number(std::uint64_t h) const {
    if (special > 0 && mix(h) % special == 0) {
      switch (mix(h + 1) % 4) {
      case 0:
        return NAN;
      case 1:
        return HUGE_VAL;
      case 2:
        return -HUGE_VAL;
      default:
        return 0.5; // the threshold
      }
    }
    return static_cast<double>(mix(h + 2) % 64) / 64.; // ties are likely
  }
  template <typename Key> double inlier(const Key &group, const std::vector<Key> &fit) const {
    return number(mix(hash(fit) + mix(std::hash<Key>()(group))));
  }
  template <typename Key> double consensus(const std::vector<Key> &keys) const {
    const std::uint64_t h = hash(keys);
    if (special > 0 && mix(h + 7) % special == 0) // not a usual number
      return mix(h + 8) % 3 ? NAN : mix(h + 8) % 2 ? HUGE_VAL : -HUGE_VAL;
    return static_cast<double>(h % 16) - 8;
  }
  template <typename Key> bool valid(const std::vector<Key> &keys, unsigned percent) const {
    return mix(hash(keys) + 99) % 100 < percent;
  }
};

bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

template <typename Key> void rules(pbt::Case &c) {
  std::vector<Key> groups;
  const std::size_t n = c.usually(1, 10, 80);
  for (std::size_t i = 0; i < n; ++i)
    groups.push_back(name_of<Key>(static_cast<long>(i)));
  c.assume(std::set<Key>(groups.begin(), groups.end()).size() == n);
  c.shuffle(groups);
  World world{c.u64(), c.chance(1, 3) ? static_cast<unsigned>(c.i(2, 8)) : 0};
  const unsigned percent = c.chance(1, 3) ? static_cast<unsigned>(c.i(0, 99)) : 100;
  const double threshold = c.pick<double>({0.5, 0.25, 0.75, 1., 0., -1., HUGE_VAL, -HUGE_VAL, NAN});
  const std::size_t sample = static_cast<std::size_t>(c.i(0, static_cast<long>(n) + 1));
  const std::size_t least = c.chance(1, 6) ? static_cast<std::size_t>(c.i(0, static_cast<long>(n) + 1))
                                           : sample + static_cast<std::size_t>(c.i(0, static_cast<long>(n / 2)));
  const std::size_t iterations = static_cast<std::size_t>(c.i(0, 12));
  const std::size_t failures = static_cast<std::size_t>(c.i(0, 8));
  c.showv("groups", groups).show("threshold", threshold).show("sample", sample).show("least", least);
  c.show("iterations", iterations).show("failures", failures).show("valid percent", percent).show("seed", world.seed);

  long fits = 0, metrics = 0, consensuses = 0, validities = 0;
  std::vector<std::vector<Key>> fitted, tried;
  RansacFunctions<std::vector<Key>, Key> functions(
      [&](const std::vector<Key> &keys) {
        ++fits;
        fitted.push_back(keys);
        return keys;
      },
      [&](const Key &group, const std::vector<Key> &fit) {
        ++metrics;
        return world.inlier(group, fit);
      },
      [&](const std::vector<Key> &keys) {
        ++consensuses;
        return world.consensus(keys);
      },
      [&](const std::vector<Key> &keys) {
        ++validities;
        tried.push_back(keys);
        return world.valid(keys, percent);
      });
  const auto out = ransac(functions, groups, threshold, sample, least, iterations, failures);

  const bool invalid = least >= n || least < sample || sample >= n || sample == 0 || iterations == 0;
  c.check((out.return_code == RANSAC_RETURN_CODE_INVALID_ARGUMENTS) == invalid, "invalid arguments reported as such");
  if (invalid) {
    c.eq(fits + metrics + consensuses + validities, 0L, "calls with invalid arguments");
    c.check(out.iterations.empty() && out.best.candidates.empty() && out.best.inliers.empty() && out.best.outliers.empty(), "results of invalid arguments");
    c.check(!ransac_success(out.return_code), "invalid arguments are not a success");
    return;
  }
  c.nontrivial(n > 2 && iterations > 1);

  std::size_t failed = 0, run = 0;
  const RansacIteration<Key> *best = nullptr;
  bool undefined = false;
  for (const auto &it : out.iterations) {
    c.check(failed < std::max<std::size_t>(failures, 1), "ran on after too many failed candidates");
    c.check(run < iterations, "too many iterations");
    std::set<Key> chosen(it.candidates.begin(), it.candidates.end());
    c.eq(it.candidates.size(), sample, "number of candidates");
    c.eq(chosen.size(), sample, "number of distinct candidates");
    for (const auto &k : chosen)
      c.check(vector_contains(groups, k), "candidate which is not a group");
    if (!world.valid(it.candidates, percent)) {
      ++failed;
      c.check(it.inliers.empty() && it.outliers.empty() && std::isnan(it.consensus_metric_value), "results of invalid candidates");
      continue;
    }
    ++run;
    for (const auto &g : groups) {
      const bool in = it.inliers.count(g) > 0, out_of = it.outliers.count(g) > 0;
      if (chosen.count(g)) {
        c.check(!in && !out_of, "candidate among the inliers or outliers");
        continue;
      }
      c.check(in != out_of, "a group is either an inlier or an outlier");
      const double metric = world.inlier(g, it.candidates);
      c.check(same(in ? it.inliers.at(g) : it.outliers.at(g), metric), "metric of a group");
      c.check(in == (metric <= threshold), "inliers are the groups at or below the threshold");
    }
    c.eq(it.inliers.size() + it.outliers.size() + sample, n, "number of groups");
    const auto consensus = it.consensus();
    std::set<Key> agreed = chosen;
    for (const auto &p : it.inliers)
      agreed.insert(p.first);
    c.check(std::set<Key>(consensus.begin(), consensus.end()) == agreed && consensus.size() == agreed.size(), "consensus");
    if (agreed.size() >= least) {
      c.check(same(it.consensus_metric_value, world.consensus(consensus)), "value of a consensus");
      if (best == nullptr || it.consensus_metric_value < best->consensus_metric_value)
        best = &it;
      if (std::isnan(best->consensus_metric_value))
        undefined = true; // the lowest is, when the first one is
    } else {
      c.check(std::isnan(it.consensus_metric_value), "value of too small a consensus");
    }
  }
  c.eq(static_cast<std::size_t>(fits), run, "number of fits");
  c.eq(static_cast<std::size_t>(validities), failed + run, "number of candidates looked at");
  c.check(out.return_code == RANSAC_RETURN_CODE_SUCCESS || out.return_code == RANSAC_RETURN_CODE_NO_CONSENSUS ||
              out.return_code == RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES,
          "return code " + to_string(out.return_code));
  if (failed >= std::max<std::size_t>(failures, 1)) {
    c.check(out.return_code == RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES, "too many failed candidates are reported");
  } else {
    c.eq(run, iterations, "iterations");
    c.check((out.return_code == RANSAC_RETURN_CODE_SUCCESS) == (best != nullptr), "success is having a consensus");
    c.check((out.return_code == RANSAC_RETURN_CODE_NO_CONSENSUS) == (best == nullptr), "lack of a consensus is reported");
  }
  c.check(ransac_success(out.return_code) == (out.return_code == RANSAC_RETURN_CODE_SUCCESS), "success");
  if (best != nullptr) {
    c.check(undefined || out.best.consensus_metric_value == best->consensus_metric_value, "best value");
    bool found = false;
    for (const auto &it : out.iterations)
      found = found || (it.candidates == out.best.candidates && it.consensus() == out.best.consensus() &&
                        map_keys(it.outliers) == map_keys(out.best.outliers) &&
                        same(it.consensus_metric_value, out.best.consensus_metric_value));
    c.check(found, "the best is one of the iterations");
  } else {
    c.check(out.best.consensus().empty(), "no best without a consensus");
  }
  c.label(to_string(out.return_code));

  // again, and through the overloads
  const auto again = ransac(functions, groups, threshold, sample, least, iterations, failures);
  c.check(std::isnan(threshold) || again.return_code == out.return_code, "return code of another run");
  c.check(again.iterations.size() == out.iterations.size(), "another run");
  for (std::size_t i = 0; i < out.iterations.size() && world.special == 0; ++i)
    c.check(again.iterations[i] == out.iterations[i], "iteration of another run");
  GroupIndexer<Key> indexer;
  for (std::size_t i = 0; i < n; ++i)
    indexer[groups[i]] = {i};
  const auto sorted = ransac(functions, map_keys(indexer), threshold, sample, least, iterations, failures);
  const auto by_config = ransac(functions, indexer, RansacConfig(threshold, sample, least, iterations, failures));
  c.check(by_config.return_code == sorted.return_code, "return code by configuration");
  c.check(world.special != 0 || by_config == sorted, "result by configuration");
  c.check(world.special != 0 || by_config.best == sorted.best, "best by configuration");
  const auto defaults = ransac(functions, indexer, threshold, sample, least, iterations);
  const auto as_many = ransac(functions, indexer, RansacConfig(threshold, sample, least, iterations, iterations));
  c.check(defaults.return_code == as_many.return_code, "return code with the default number of failures");

  // equality
  if (best != nullptr && world.special == 0) {
    auto other = out;
    c.check(other == out, "equality");
    other.best.consensus_metric_value += 1;
    c.check(!(other == out), "results with another best iteration are not equal");
    other = out;
    other.iterations.pop_back();
    c.check(!(other == out), "results with other iterations are not equal");
    other = out;
    other.return_code = RANSAC_RETURN_CODE_FAILURE;
    c.check(!(other == out), "results with another return code are not equal");
  }
  std::ostringstream text;
  text << out;
  c.check(text.str().find("RETURN CODE: " + to_string(out.return_code)) != std::string::npos, "printed return code");
}
} // namespace

PBT_CHECK(ransac_rules, 150000, 2000000,
          "ransac() on 1..10 groups with generated metrics (ties, NaN, "
          "infinities and the threshold itself included), validity rules, "
          "sample and consensus sizes, budgets (invalid ones too): every "
          "iteration, the best one, the return code and the calls made "
          "against the rules; repeated runs and overloads agree; non-trivial: "
          "valid arguments, > 2 groups and > 1 iteration.") {
  return c.coin() ? rules<int>(c) : rules<std::string>(c);
}

PBT_CHECK(ransac_explores, 600, 3000,
          "over 300 iterations on 3..10 groups every group is a candidate, "
          "more than one set of candidates is tried, and (as metrics are "
          "generated) the best consensus is the best of all sets of "
          "candidates which were tried; non-trivial: always.") {
  const std::size_t n = c.usually(3, 10, 60), sample = static_cast<std::size_t>(c.i(1, static_cast<long>(n) - 1));
  std::vector<int> groups;
  for (std::size_t i = 0; i < n; ++i)
    groups.push_back(static_cast<int>(i));
  World world{c.u64(), 0};
  RansacFunctions<std::vector<int>, int> functions(
      [&](const std::vector<int> &keys) { return keys; },
      [&](const int &group, const std::vector<int> &fit) { return world.inlier(group, fit); },
      [&](const std::vector<int> &keys) { return world.consensus(keys); });
  c.assume(sample < n);
  c.nontrivial(true);
  const auto out = ransac(functions, groups, 0.5, sample, sample, 300, 0);
  c.check(ransac_success(out.return_code), "success");
  std::set<int> seen;
  std::set<std::vector<int>> sets;
  double least = HUGE_VAL;
  for (const auto &it : out.iterations) {
    seen.insert(it.candidates.begin(), it.candidates.end());
    sets.insert(it.candidates);
    least = std::min(least, it.consensus_metric_value);
  }
  c.eq(seen.size(), n, "groups which were candidates");
  c.check(sets.size() > 1, "different candidates are tried");
  c.eq(out.best.consensus_metric_value, least, "best value");
}
