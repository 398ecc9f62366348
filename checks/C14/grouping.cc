// pbt:
#include <albatross/Dataset>
#include <albatross/Indexing>
#include "gen.hpp"

using namespace albatross;

namespace {

struct Item {
  int a, uid;
  std::string s;
};
bool operator==(const Item &x, const Item &y) { return x.uid == y.uid; }

int key_function(const Item &x) { return x.a % 3; }

std::vector<Item> gen_items(pbt::Case &c, std::size_t max) {
  std::vector<Item> xs;
  const std::size_t n = c.usually(0, max, 300);
  const int spread = static_cast<int>(c.pick<long>({1, 3, 40, 12}));
  for (std::size_t i = 0; i < n; ++i) {
    Item it;
    it.a = static_cast<int>(c.i(0, spread - 1));
    it.uid = static_cast<int>(i);
    it.s = std::string(1, static_cast<char>('z' - it.a % 7));
    xs.push_back(it);
  }
  std::ostringstream o;
  for (auto &x : xs)
    o << x.a << " ";
  c.show("items", o.str());
  return xs;
}

RegressionDataset<Item> as_dataset(const std::vector<Item> &xs) {
  const auto n = static_cast<Eigen::Index>(xs.size());
  Eigen::VectorXd m(n), v(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    m[i] = 0.5 + static_cast<double>(i);
    v[i] = 7. + static_cast<double>(i);
  }
  return RegressionDataset<Item>(xs, MarginalDistribution(m, v));
}

// what a group holds: uids in order, and that targets go along
std::vector<int> uids(const std::vector<Item> &xs) {
  std::vector<int> out;
  for (const auto &x : xs)
    out.push_back(x.uid);
  return out;
}
std::vector<int> uids(pbt::Case &c, const RegressionDataset<Item> &d) {
  c.eq(d.features.size(), d.targets.size(), "group targets");
  for (std::size_t i = 0; i < d.size(); ++i) {
    const auto k = static_cast<Eigen::Index>(i);
    c.eq(d.targets.mean[k], d.features[i].uid + 0.5, "group target mean");
    c.eq(d.targets.get_diagonal(k), d.features[i].uid + 7., "group variance");
  }
  return uids(d.features);
}
std::vector<int> uids(pbt::Case &, const std::vector<Item> &xs) {
  return uids(xs);
}

template <typename Parent, typename Grouper, typename KeyOf>
void verify_grouping(pbt::Case &c, const Parent &parent,
                     const std::vector<Item> &xs, const Grouper &grouper,
                     KeyOf key_of, const std::string &w) {
  using Key = decltype(key_of(std::size_t(0)));
  std::map<Key, std::vector<std::size_t>> ref;
  for (std::size_t i = 0; i < xs.size(); ++i)
    ref[key_of(i)].push_back(i);
  const auto gb = group_by(parent, grouper);
  const auto indexers = gb.indexers();
  const auto groups = gb.groups();
  const auto counts = gb.counts();
  c.eq(gb.size(), ref.size(), w + " number of groups");
  c.eq(groups.size(), ref.size(), w + " number of groups");
  c.eq(counts.size(), ref.size(), w + " number of counts");
  c.eq(indexers.size(), ref.size(), w + " number of indexers");
  std::vector<Key> keys;
  std::vector<int> combined;
  for (const auto &p : ref) {
    keys.push_back(p.first);
    c.check(indexers.at(p.first) == p.second, w + " indexer");
    c.eq(counts.at(p.first), p.second.size(), w + " count");
    std::vector<int> expect(p.second.begin(), p.second.end());
    c.check(uids(c, groups.at(p.first)) == expect, w + " group contents");
    c.check(uids(c, gb.get_group(p.first)) == expect, w + " get_group");
    combined.insert(combined.end(), expect.begin(), expect.end());
  }
  c.check(gb.keys() == keys, w + " keys");
  c.check(groups.keys() == keys, w + " keys of groups");
  c.check(uids(c, groups.combine()) == combined, w + " combined");
  if (!ref.empty()) {
    const auto fg = gb.first_group();
    c.check(fg.first == ref.begin()->first &&
                uids(c, fg.second) ==
                    std::vector<int>(ref.begin()->second.begin(),
                                     ref.begin()->second.end()),
            w + " first group");
  }
  // apply, index_apply, filter
  std::vector<Key> visited;
  gb.apply([&](const Key &k, const Parent &g) {
    visited.push_back(k);
    c.eq(g.size(), ref.at(k).size(), w + " group passed to apply");
  });
  c.check(visited == keys, w + " apply visits each group once");
  const auto sizes = gb.apply([](const Parent &g) { return g.size(); });
  const auto sums = gb.index_apply([](const Key &, const GroupIndices &inds) {
    std::size_t s = 0;
    for (auto i : inds)
      s += i + 1;
    return s;
  });
  visited.clear();
  gb.index_apply([&](const Key &k, const GroupIndices &inds) {
    visited.push_back(k);
    c.check(inds == ref.at(k), w + " indices passed to index_apply");
  });
  c.check(visited == keys, w + " index_apply visits each group once");
  const std::size_t min_size = 2;
  const auto big = gb.filter([&](const Parent &g) { return g.size() >= min_size; });
  const auto even_key = gb.filter([&](const Key &, const Parent &g) {
    return g.size() % 2 == 0;
  });
  for (const auto &p : ref) {
    std::size_t s = 0;
    for (auto i : p.second)
      s += i + 1;
    c.eq(sizes.at(p.first), p.second.size(), w + " apply result");
    c.eq(sums.at(p.first), s, w + " index_apply result");
    c.eq(map_contains(big.get_map(), p.first), p.second.size() >= min_size,
         w + " filter");
    c.eq(map_contains(even_key.get_map(), p.first), p.second.size() % 2 == 0,
         w + " filter by key and value");
  }
  c.eq(sizes.size(), ref.size(), w + " apply results");
  c.eq(sums.size(), ref.size(), w + " index_apply results");
  for (const auto &p : big)
    c.check(uids(c, p.second) == std::vector<int>(ref.at(p.first).begin(),
                                                  ref.at(p.first).end()),
            w + " filtered group contents");
  // with: another container of the same size, and an already grouped one
  std::vector<long> other;
  for (std::size_t i = 0; i < xs.size(); ++i)
    other.push_back(1000 + static_cast<long>(i));
  const auto with = gb.with(other);
  const auto with_grouped = gb.with(sizes);
  c.eq(with.size(), ref.size(), w + " with");
  for (const auto &p : ref) {
    std::vector<int> expect;
    std::vector<long> eo;
    for (auto i : p.second) {
      expect.push_back(static_cast<int>(i));
      eo.push_back(1000 + static_cast<long>(i));
    }
    c.check(uids(c, with.at(p.first).first) == expect &&
                with.at(p.first).second == eo,
            w + " with a container");
    c.check(uids(c, with_grouped.at(p.first).first) == expect &&
                with_grouped.at(p.first).second == p.second.size(),
            w + " with a grouped container");
  }
  // selecting whole groups by key
  std::vector<Key> chosen;
  std::vector<std::size_t> expect;
  for (const auto &k : keys)
    if (c.coin())
      chosen.push_back(k);
  c.shuffle(chosen);
  for (const auto &k : chosen)
    expect.insert(expect.end(), ref[k].begin(), ref[k].end());
  c.check(indices_from_groups(indexers, chosen) == expect,
          w + " indices from groups");
  c.check(uids(c, parent) == uids(xs), w + " parent unmodified");
  c.label_if(ref.size() > 2, "3+ groups");
  c.nontrivial(ref.size() >= 2 && ref.size() < xs.size());
}

} // namespace

PBT_CHECK(group_by_all_groupers, 250000, 600000,
          "vectors and datasets of 0-14 items grouped by function pointer, "
          "lambdas with int/bool/string/pair/double keys, leave-one-out and "
          "k-fold: groups, indexers, counts, keys, first group, apply, "
          "index_apply, filter, with, combine against a plain map; "
          "non-trivial: between 2 groups and all-distinct.") {
  const auto xs = gen_items(c, 14);
  const auto d = as_dataset(xs);
  const auto both = [&](const auto &grouper, auto key_of, const char *w) {
    if (c.coin())
      verify_grouping(c, xs, xs, grouper, key_of, w);
    else
      verify_grouping(c, d, xs, grouper, key_of, std::string("dataset ") + w);
  };
  switch (c.i(0, 7)) {
  case 0:
    both([](const Item &x) { return x.a; },
         [&](std::size_t i) { return xs[i].a; }, "int key");
    break;
  case 1:
    both(key_function, [&](std::size_t i) { return xs[i].a % 3; },
         "function pointer");
    break;
  case 2:
    both([](const Item &x) { return x.s; },
         [&](std::size_t i) { return xs[i].s; }, "string key");
    break;
  case 3:
    both([](const Item &x) { return x.a % 2 == 0; },
         [&](std::size_t i) { return xs[i].a % 2 == 0; }, "bool key");
    break;
  case 4:
    both([](const Item &x) { return std::make_pair(-x.a % 3, x.s); },
         [&](std::size_t i) { return std::make_pair(-xs[i].a % 3, xs[i].s); },
         "pair key");
    break;
  case 5:
    both([](const Item &x) { return 0.25 * x.a; },
         [&](std::size_t i) { return 0.25 * xs[i].a; }, "double key");
    break;
  case 6:
    both(LeaveOneOutGrouper(), [](std::size_t i) { return i; },
         "leave one out");
    break;
  default: {
    const auto k = c.usually(1, 6, 60);
    c.show("k", k);
    both(k == 2 ? KFoldGrouper() : KFoldGrouper(k), [k](std::size_t i) { return i % k; }, "k fold");
  }
  }
}

PBT_CHECK(grouped_container, 700000, 1500000,
          "sequences of emplace/erase/assign on Grouped containers against "
          "std::map; min/max/first/last/sum/mean/all/any/filter/apply; "
          "non-trivial: 2+ entries.") {
  Grouped<int, int> g;
  std::map<int, int> m;
  const std::size_t ops = 1 + c.usually(0, 11, 60);
  const long span = ops > 20 ? 40 : 4;
  std::ostringstream o;
  for (std::size_t i = 0; i < ops; ++i) {
    const int k = static_cast<int>(c.i(1 - span, span)), v = static_cast<int>(c.i(-9, 9));
    switch (c.i(0, 3)) {
    case 0:
      o << "emplace " << k << "," << v << " ";
      g.emplace(k, v);
      m.emplace(k, v);
      break;
    case 1:
      o << "set " << k << "," << v << " ";
      g[k] = v;
      m[k] = v;
      break;
    case 2:
      o << "erase " << k << " ";
      c.eq(g.erase(k), m.erase(k), "erased");
      break;
    default: {
      o << "moved emplace " << k << "," << v << " ";
      int tmp = v;
      g.emplace(k, std::move(tmp));
      m.emplace(k, v);
    }
    }
    c.show("op", "");
  }
  c.show("ops", o.str());
  c.eq(g.size(), m.size(), "size");
  c.check(g.get_map() == m, "contents");
  std::vector<int> ks, vs;
  for (auto &p : m) {
    ks.push_back(p.first);
    vs.push_back(p.second);
    c.eq(g.at(p.first), p.second, "at");
    c.check(g.find(p.first) != g.end() && g.find(p.first)->second == p.second,
            "find");
  }
  c.check(g.find(99) == g.end(), "find of a missing key");
  bool threw = false;
  try {
    g.at(99);
  } catch (const std::out_of_range &) {
    threw = true;
  }
  c.check(threw, "at of a missing key throws");
  c.check(g.keys() == ks && g.values() == vs, "keys and values in order");
  std::size_t visited = 0;
  for (const auto &p : g) {
    c.check(visited < ks.size() && p.first == ks[visited] &&
                p.second == vs[visited],
            "iteration");
    ++visited;
  }
  c.eq(visited, m.size(), "iteration visits everything");
  const Grouped<int, int> copy(m);
  c.check(copy == g, "equality");
  double sum = 0;
  for (auto v : vs)
    sum += v;
  c.near(g.sum(), sum, 0, 1e-12, "sum");
  if (!m.empty()) {
    const int lo = *std::min_element(vs.begin(), vs.end()),
              hi = *std::max_element(vs.begin(), vs.end());
    c.near(g.mean(), sum / static_cast<double>(m.size()), 1e-12, 1e-12,
           "mean of integers");
    c.eq(g.min_value(), lo, "min_value");
    c.eq(g.max_value(), hi, "max_value");
    c.check(m.at(g.min_key()) == lo, "min_key");
    c.check(m.at(g.max_key()) == hi, "max_key");
    c.check(g.min().second == lo && g.max().second == hi, "min and max");
    c.eq(g.first_value(), vs.front(), "first_value");
    c.eq(g.last_value(), vs.back(), "last_value");
    c.check(g.first_group() == std::make_pair(ks.front(), vs.front()),
            "first_group");
    Grouped<int, int> other = g;
    other[ks[c.src.draw(ks.size() - 1)]] += 1;
    c.check(!(other == g), "unequal");
    Grouped<int, double> gd;
    for (auto &p : m)
      gd.emplace(p.first, p.second + 0.5);
    c.near(gd.mean(), sum / static_cast<double>(m.size()) + 0.5, 1e-12, 1e-12,
           "mean");
    c.near(gd.sum(), sum + 0.5 * static_cast<double>(m.size()), 1e-12, 1e-12,
           "sum");
    Eigen::VectorXd cv = combine(gd);
    c.eq(static_cast<std::size_t>(cv.size()), m.size(), "combined doubles");
    for (std::size_t i = 0; i < vs.size(); ++i)
      c.eq(cv[static_cast<Eigen::Index>(i)], vs[i] + 0.5, "combined double");
  }
  // predicates
  const int cut = static_cast<int>(c.i(-9, 9));
  const auto flags = g.apply([&](const int &v) { return v > cut; });
  const auto f1 = g.filter([&](const int &v) { return v > cut; });
  const auto f2 =
      g.filter([&](const int &k, const int &v) { return v > cut && k >= 0; });
  const auto f3 = filter(m, [&](const int &v) { return v > cut; });
  std::map<int, int> e1, e2;
  bool all_ref = true, any_ref = false;
  for (auto &p : m) {
    const bool b = p.second > cut;
    all_ref = all_ref && b;
    any_ref = any_ref || b;
    if (b)
      e1.insert(p);
    if (b && p.first >= 0)
      e2.insert(p);
  }
  c.eq(flags.all(), all_ref, "all");
  c.eq(flags.any(), any_ref, "any");
  c.check(f1.get_map() == e1, "filter by value");
  c.check(f2.get_map() == e2, "filter by key and value");
  c.check(f3.get_map() == e1, "filter of a std::map");
  const auto a1 = g.apply([](const int &v) { return 2. * v; });
  const auto a2 = g.apply(
      [](const int &k, const int &v) { return std::to_string(k) + ":" + std::to_string(v); });
  const auto a3 = albatross::apply(m, [](const int &v) { return v - 1; });
  c.eq(a1.size(), m.size(), "apply size");
  c.eq(a2.size(), m.size(), "apply size");
  c.eq(a3.size(), m.size(), "apply size");
  for (auto &p : m) {
    c.eq(a1.at(p.first), 2. * p.second, "apply to values");
    c.eq(a2.at(p.first), std::to_string(p.first) + ":" + std::to_string(p.second),
         "apply to keys and values");
    c.eq(a3.at(p.first), p.second - 1, "apply to a std::map");
  }
  std::vector<int> seen, seen_v;
  g.apply([&](const int &v) { seen_v.push_back(v); });
  albatross::apply(m, [&](const int &k, const int &) { seen.push_back(k); });
  c.check(seen == ks && seen_v == vs, "void apply visits each once in order");
  // vectors and Eigen vectors per group
  Grouped<int, std::vector<int>> gv;
  Grouped<int, Eigen::VectorXd> ge;
  std::vector<int> flat;
  std::vector<double> eflat;
  for (auto &p : m) {
    std::vector<int> v(static_cast<std::size_t>(std::abs(p.second) % 4), p.first);
    gv.emplace(p.first, v);
    flat.insert(flat.end(), v.begin(), v.end());
    Eigen::VectorXd ev =
        Eigen::VectorXd::LinSpaced(std::abs(p.second) % 4, p.first, p.first + 1.);
    ge.emplace(p.first, ev);
    eflat.insert(eflat.end(), ev.data(), ev.data() + ev.size());
  }
  c.check(gv.combine() == flat, "combine vectors");
  if (!m.empty()) {
    const Eigen::VectorXd ec = ge.combine();
    c.check(std::vector<double>(ec.data(), ec.data() + ec.size()) == eflat,
            "combine Eigen vectors");
  }
  c.nontrivial(m.size() >= 2);
}

PBT_CHECK(filter_apply_unique, 1500000, 4000000,
          "vectors, sets and datasets with repeated values: filter, apply, "
          "unique_values, unique_value, set differences, index complements "
          "against plain loops; non-trivial: repeated values.") {
  std::vector<int> xs;
  for (std::size_t i = 0, n = c.usually(0, 12, 300); i < n; ++i)
    xs.push_back(static_cast<int>(c.i(-4, 5)));
  std::vector<int> ys;
  for (std::size_t i = 0, n = c.size(0, 8); i < n; ++i)
    ys.push_back(static_cast<int>(c.i(-4, 5)));
  const int cut = static_cast<int>(c.i(-5, 5));
  c.showv("xs", xs).showv("ys", ys).show("cut", cut);
  const auto xs0 = xs;
  std::vector<int> kept;
  std::set<int> sx(xs.begin(), xs.end()), kept_set, squares;
  std::vector<std::string> strs;
  for (int x : xs) {
    if (x > cut) {
      kept.push_back(x);
      kept_set.insert(x);
    }
    strs.push_back(std::to_string(x * 3));
    squares.insert(x * x);
  }
  c.check(filter(xs, [&](const int &x) { return x > cut; }) == kept, "filter");
  c.check(filter(sx, [&](const int &x) { return x > cut; }) == kept_set,
          "filter of a set");
  c.check(albatross::apply(xs, [](const int &x) { return std::to_string(x * 3); }) == strs,
          "apply");
  std::vector<int> visited;
  albatross::apply(xs, [&](const int &x) { visited.push_back(x); });
  c.check(visited == xs, "void apply visits each in order");
  c.check(unique_values(xs) == sx, "unique_values");
  c.check(unique_values(xs, [](const int &x) { return x * x; }) == squares,
          "unique_values of a function");
  c.check(unique_values(sx, [](const int &x) { return x * x; }) == squares,
          "unique_values of a function over a set");
  if (sx.size() == 1)
    c.eq(unique_value(xs), xs[0], "unique_value");
  if (squares.size() == 1)
    c.eq(unique_value(xs, [](const int &x) { return x * x; }), xs[0] * xs[0],
         "unique_value of a function");
  std::set<int> diff, sy(ys.begin(), ys.end());
  for (int x : xs)
    if (!sy.count(x))
      diff.insert(x);
  c.check(vector_set_difference(xs, ys) == diff, "vector_set_difference");
  c.check(set_difference(sx, sy) == diff, "set_difference");
  const std::size_t n = c.size(0, 12);
  std::vector<std::size_t> idx, comp;
  for (std::size_t i = 0, k = n ? c.size(0, 10) : 0; i < k; ++i)
    idx.push_back(c.src.draw(n - 1));
  for (std::size_t i = 0; i < n; ++i)
    if (std::find(idx.begin(), idx.end(), i) == idx.end())
      comp.push_back(i);
  c.check(indices_complement(idx, n) == comp, "indices_complement");
  c.check(xs == xs0, "input unmodified");
  const auto items = gen_items(c, 8);
  const auto d = filter(as_dataset(items), [&](const Item &x) { return x.a > cut; });
  std::vector<int> expect;
  for (const auto &x : items)
    if (x.a > cut)
      expect.push_back(x.uid);
  c.check(uids(c, d) == expect, "filter of a dataset");
  c.nontrivial(sx.size() < xs.size());
}

PBT_CHECK(unique_value_rejects_ambiguity, 200, 500,
          "unique_value of several distinct values or of none, and with() of "
          "a container of another size, are rejected; always non-trivial.") {
  std::vector<int> xs;
  const std::size_t n = c.chance(1, 4) ? 0 : 2 + c.size(0, 4);
  for (std::size_t i = 0; i < n; ++i)
    xs.push_back(static_cast<int>(i));
  c.showv("xs", xs);
  c.check(pbt::rejects([&] { unique_value(xs); }), "unique_value accepted");
  std::vector<long> other(n + 1, 0);
  c.check(pbt::rejects([&] {
    group_by(xs, [](const int &x) { return x; }).with(other);
  }), "with() of another size accepted");
  c.nontrivial();
}
