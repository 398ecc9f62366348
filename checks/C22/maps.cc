// pbt: san=1
#include <albatross/Common>
#include <albatross/utils/MapUtils>
#include "pbt.hpp"

#include <algorithm>
#include <deque>
#include <list>
#include <string_view>
#include <unordered_map>

using namespace albatross;

namespace {

// the model: an association list, independent of any map type
template <typename K, typename V> using Model = std::vector<std::pair<K, V>>;

template <typename K, typename V>
const V *find(const Model<K, V> &m, const K &k) {
  for (const auto &kv : m)
    if (kv.first == k)
      return &kv.second;
  return nullptr;
}

template <typename K> K make_key(pbt::Case &c);
template <> int make_key<int>(pbt::Case &c) {
  return static_cast<int>(c.i(0, 24)) - 12;
}
template <> std::string make_key<std::string>(pbt::Case &c) {
  static const std::vector<std::string> pool = {
      "", "a", "b", "ab", "ba", "aa", "c", "A", "B", "10", "9", " ", "z", "abc"};
  return c.pick(pool);
}
template <> double make_key<double>(pbt::Case &c) {
  return c.pick<double>({0., 1., -1., 0.5, 1e9, -1e9, 3., 4., 5., 6., 7.,
                         std::numeric_limits<double>::infinity()});
}

template <typename V> V make_value(pbt::Case &c, int tag);
template <> int make_value<int>(pbt::Case &c, int tag) {
  return tag * 1000 + static_cast<int>(c.i(0, 5));
}
template <> std::string make_value<std::string>(pbt::Case &c, int tag) {
  return std::to_string(tag) + c.ident(3);
}

template <typename K, typename V>
Model<K, V> gen_model(pbt::Case &c, int tag, std::size_t max_n = 14) {
  Model<K, V> m;
  const std::size_t n = c.usually(0, max_n, 300);
  for (std::size_t k = 0; k < n; ++k) {
    K key = make_key<K>(c);
    if (!find(m, key))
      m.emplace_back(key, make_value<V>(c, tag));
  }
  c.note() << "m" << tag << "={";
  for (auto &kv : m)
    c.note() << kv.first << ":" << kv.second << " ";
  c.note() << "} ";
  c.sync();
  return m;
}

template <typename M, typename K, typename V> M to_map(const Model<K, V> &m) {
  M out;
  for (const auto &kv : m)
    out.emplace(kv.first, kv.second);
  return out;
}

// equality as association lists, plus the order that the comparator demands
template <typename M, typename K, typename V>
void expect(pbt::Case &c, const M &got, const Model<K, V> &want,
            const std::string &what) {
  c.eq(got.size(), want.size(), what + ": size");
  for (const auto &kv : want) {
    auto it = got.find(kv.first);
    c.check(it != got.end(), what + ": a key is missing");
    c.check(it->second == kv.second, what + ": a value is wrong");
  }
  auto comp = got.key_comp();
  const typename M::key_type *prev = nullptr;
  for (const auto &kv : got) {
    c.check(!prev || comp(*prev, kv.first), what + ": not in key order");
    prev = &kv.first;
  }
}

template <typename K, typename Comp>
std::vector<K> sorted(std::vector<K> v, Comp comp) {
  std::sort(v.begin(), v.end(), comp);
  return v;
}

template <typename K, typename V, typename Comp> void ordered(pbt::Case &c) {
  using M = std::map<K, V, Comp>;
  const Model<K, V> ma = gen_model<K, V>(c, 1), mb = gen_model<K, V>(c, 2);
  const M a = to_map<M>(ma), b = to_map<M>(mb);
  const M a0 = a, b0 = b;
  Comp comp;

  Model<K, V> diff, sym, uni, uni_right, uni_key, inter_left, inter_right;
  std::vector<K> diff_keys, inter_keys;
  std::size_t shared = 0;
  for (const auto &kv : ma) {
    const V *bv = find(mb, kv.first);
    if (!bv) {
      diff.push_back(kv);
      sym.push_back(kv);
      diff_keys.push_back(kv.first);
      uni.push_back(kv);
      uni_right.push_back(kv);
    } else {
      ++shared;
      uni.push_back(kv);
      uni_right.emplace_back(kv.first, *bv);
      inter_left.push_back(kv);
      inter_right.emplace_back(kv.first, *bv);
      inter_keys.push_back(kv.first);
    }
  }
  for (const auto &kv : mb)
    if (!find(ma, kv.first)) {
      sym.push_back(kv);
      uni.push_back(kv);
      uni_right.push_back(kv);
    }
  c.nontrivial(shared > 0 && shared < ma.size() && shared < mb.size());
  c.label_if(shared > 0 && shared < ma.size() && shared < mb.size(),
             "partial overlap");
  c.label_if(ma.empty() || mb.empty(), "an empty map");

  expect(c, map_difference(a, b), diff, "map_difference");
  expect(c, map_symmetric_difference(a, b), sym, "map_symmetric_difference");
  expect(c, map_union(a, b), uni, "map_union");
  expect(c, map_union(a, b, ReturnRight{}), uni_right, "map_union right");
  expect(c, map_union(a, b, ReturnLeft{}), uni, "map_union left");
  expect(c, map_intersect(a, b, ReturnLeft{}), inter_left, "map_intersect left");
  expect(c, map_intersect(a, b, ReturnRight{}), inter_right,
         "map_intersect right");
  c.check(map_difference_keys(a, b) == sorted(diff_keys, comp),
          "map_difference_keys");
  c.check(map_intersect_keys(a, b) == sorted(inter_keys, comp),
          "map_intersect_keys");

  // default intersection pairs up the values, left first
  const auto pairs = map_intersect(a, b);
  c.eq(pairs.size(), shared, "map_intersect size");
  for (const auto &kv : pairs) {
    const V *av = find(ma, kv.first), *bv = find(mb, kv.first);
    c.check(av && bv && kv.second.first == *av && kv.second.second == *bv,
            "map_intersect pair");
  }
  // user merges: with and without the key; called once per shared key, in order
  std::vector<K> seen;
  const auto with_key = [&seen](const K &k, const V &l, const V &r) {
    seen.push_back(k);
    return l + r;
  };
  const M merged = map_union(a, b, with_key);
  c.check(seen == sorted(inter_keys, comp), "union merge calls");
  for (const auto &kv : merged) {
    const V *av = find(ma, kv.first), *bv = find(mb, kv.first);
    c.check(kv.second == (av && bv ? *av + *bv : (av ? *av : *bv)),
            "map_union with key merge");
  }
  c.eq(merged.size(), uni.size(), "map_union with key merge: size");
  const M merged2 =
      map_union(a, b, [](const V &l, const V &r) { return l + r + l; });
  for (const auto &kv : merged2) {
    const V *av = find(ma, kv.first), *bv = find(mb, kv.first);
    c.check(kv.second == (av && bv ? *av + *bv + *av : (av ? *av : *bv)),
            "map_union with value merge");
  }
  seen.clear();
  const auto crossed = map_intersect(
      a, b, [&seen](const K &k, const V &l, const V &r) -> std::vector<V> {
        seen.push_back(k);
        return {l, r};
      });
  c.check(seen == sorted(inter_keys, comp), "intersect merge calls");
  c.eq(crossed.size(), shared, "map_intersect with key merge: size");
  for (const auto &kv : crossed)
    c.check(kv.second.size() == 2 && kv.second[0] == *find(ma, kv.first) &&
                kv.second[1] == *find(mb, kv.first),
            "map_intersect with key merge");
  const auto lengths = map_intersect(
      a, b, [](const V &l, const V &r) { return std::make_pair(r, l); });
  for (const auto &kv : lengths)
    c.check(kv.second.first == *find(mb, kv.first) &&
                kv.second.second == *find(ma, kv.first),
            "map_intersect with value merge");

  // a map with another value type on the right
  std::map<K, double, Comp> other;
  for (const auto &kv : mb)
    other[kv.first] = static_cast<double>(other.size());
  expect(c, map_difference(a, other), diff, "map_difference other type");
  c.check(map_intersect_keys(a, other) == sorted(inter_keys, comp),
          "map_intersect_keys other type");
  expect(c, map_intersect(a, other, ReturnLeft{}), inter_left,
         "map_intersect other type");

  // subsets
  std::set<K, Comp> keys;
  for (const auto &kv : mb)
    keys.insert(kv.first);
  expect(c, map_subset(a, keys), inter_left, "map_subset");
  std::vector<K> key_list(keys.begin(), keys.end());
  if (c.coin() && !key_list.empty()) // repeated keys are harmless
    key_list.insert(key_list.begin(), key_list.front());
  expect(c, map_subset_sorted(a, key_list), inter_left, "map_subset_sorted");
  std::list<K> as_list(key_list.begin(), key_list.end());
  expect(c, map_subset_sorted(a, as_list), inter_left, "map_subset_sorted list");
  expect(c, map_subset_sorted(a, map_keys(b)), inter_left,
         "map_subset_sorted by map_keys");

  // joins: the second argument wins
  expect(c, map_join(a, b), uni_right, "map_join");
  if (shared == 0)
    expect(c, map_join_strict(a, b), uni, "map_join_strict");

  // laws
  c.check(map_union(map_difference(a, b), map_intersect(a, b, ReturnLeft{})) ==
              a,
          "difference and intersection do not partition the map");
  c.check(map_symmetric_difference(a, b) == map_symmetric_difference(b, a),
          "symmetric difference is not symmetric");
  c.check(map_union(a, b) == map_union(b, a, ReturnRight{}),
          "union with swapped arguments");
  c.check(map_difference(a, a).empty() && map_symmetric_difference(a, a).empty(),
          "difference with itself");

  // lookups
  for (int k = 0; k < 4; ++k) {
    const K key = make_key<K>(c);
    const V *av = find(ma, key);
    c.check(map_contains(a, key) == (av != nullptr), "map_contains");
    const V alt = make_value<V>(c, 7);
    c.check(map_at_or(a, key, alt) == (av ? *av : alt), "map_at_or");
    c.check(map_at_or(a, key) == (av ? *av : V()), "map_at_or default");
    c.check(map_contains(keys, key) == (keys.count(key) > 0),
            "map_contains of a set");
  }
  std::vector<K> ks;
  std::vector<V> vs;
  for (const auto &kv : a) {
    ks.push_back(kv.first);
    vs.push_back(kv.second);
  }
  c.check(map_keys(a) == ks, "map_keys");
  c.check(map_values(a) == vs, "map_values");
  c.check(a == a0 && b == b0, "an input was modified");
}

} // namespace

PBT_CHECK(int_less, 60000, 1500000,
          "pairs of std::map<int, int> (0..14 entries, keys from a small range "
          "so they overlap) against association lists; non-trivial: the maps "
          "overlap partially.") {
  ordered<int, int, std::less<int>>(c);
}
PBT_CHECK(int_greater, 40000, 800000,
          "the same with std::greater; non-trivial as above.") {
  ordered<int, std::string, std::greater<int>>(c);
}
PBT_CHECK(string_transparent, 40000, 800000,
          "string keys with std::less<>; non-trivial as above.") {
  ordered<std::string, int, std::less<>>(c);
}
PBT_CHECK(double_keys, 20000, 400000,
          "double keys; non-trivial as above.") {
  ordered<double, std::string, std::less<double>>(c);
}

PBT_CHECK(unordered_maps, 40000, 800000,
          "lookups, keys, values and joins of unordered_map; non-trivial: both "
          "maps are non-empty.") {
  using M = std::unordered_map<int, std::string>;
  const auto ma = gen_model<int, std::string>(c, 1),
             mb = gen_model<int, std::string>(c, 2);
  const M a = to_map<M>(ma), b = to_map<M>(mb);
  c.nontrivial(!ma.empty() && !mb.empty());
  std::map<int, std::string> want;
  bool disjoint = true;
  for (auto &kv : ma)
    want[kv.first] = kv.second;
  for (auto &kv : mb) {
    disjoint = disjoint && !want.count(kv.first);
    want[kv.first] = kv.second;
  }
  const M j = map_join(a, b);
  c.check(std::map<int, std::string>(j.begin(), j.end()) == want, "map_join");
  if (disjoint) {
    const M s = map_join_strict(a, b);
    c.check(std::map<int, std::string>(s.begin(), s.end()) == want,
            "map_join_strict");
  }
  const auto keys = map_keys(a);
  const auto values = map_values(a);
  c.check(keys.size() == a.size() && values.size() == a.size(),
          "number of keys and values");
  for (std::size_t k = 0; k < keys.size(); ++k)
    c.check(a.at(keys[k]) == values[k], "keys and values are not aligned");
  c.check(std::set<int>(keys.begin(), keys.end()).size() == a.size(),
          "repeated key");
  for (int k = -13; k <= 13; ++k) {
    const std::string *v = find(ma, k);
    c.check(map_contains(a, k) == (v != nullptr), "map_contains");
    c.check(map_at_or(a, k, std::string("?")) == (v ? *v : "?"), "map_at_or");
  }
}

PBT_CHECK(mixed_key_types, 40000, 800000,
          "maps with int and long keys under std::less<>: keys of the right "
          "map are converted; non-trivial: partial overlap.") {
  const auto ma = gen_model<int, int>(c, 1), mb = gen_model<int, int>(c, 2);
  std::map<long, int, std::less<>> a;
  std::map<int, int, std::less<>> b;
  for (auto &kv : ma)
    a[kv.first] = kv.second;
  for (auto &kv : mb)
    b[kv.first] = kv.second;
  std::map<long, int, std::less<>> uni, sym, diff, inter;
  for (auto &kv : b) {
    uni[kv.first] = kv.second;
    if (!a.count(kv.first))
      sym[kv.first] = kv.second;
  }
  for (auto &kv : a) {
    uni[kv.first] = kv.second;
    if (!find(mb, static_cast<int>(kv.first))) {
      sym[kv.first] = kv.second;
      diff[kv.first] = kv.second;
    } else {
      inter[kv.first] = kv.second;
    }
  }
  c.nontrivial(!inter.empty() && !diff.empty());
  c.check(map_union(a, b) == uni, "map_union");
  c.check(map_symmetric_difference(a, b) == sym, "map_symmetric_difference");
  c.check(map_difference(a, b) == diff, "map_difference");
  c.check(map_intersect(a, b, ReturnLeft{}) == inter, "map_intersect");
  std::set<int, std::less<>> keys;
  for (auto &kv : mb)
    keys.insert(kv.first);
  c.check(map_subset(a, keys) == inter, "map_subset");
  // transparent lookup
  std::map<std::string, int, std::less<>> s;
  for (auto &kv : ma)
    s[std::to_string(kv.first)] = kv.second;
  for (int k = -2; k <= 12; ++k) {
    const std::string name = std::to_string(k);
    const int *v = find(ma, k);
    c.check(map_contains(s, std::string_view(name)) == (v != nullptr),
            "transparent map_contains");
    c.check(map_at_or(s, std::string_view(name), -99) == (v ? *v : -99),
            "transparent map_at_or");
  }
}

PBT_CHECK(strict_and_sorted_rejections, 600, 6000,
          "strict joins of overlapping maps and subsets by unsorted key lists "
          "must be rejected (run in a forked process); non-trivial: all.") {
  auto ma = gen_model<int, int>(c, 1), mb = gen_model<int, int>(c, 2);
  auto a = to_map<std::map<int, int>>(ma), b = to_map<std::map<int, int>>(mb);
  c.nontrivial();
  if (c.coin()) {
    const int key = make_key<int>(c);
    a[key] = 1;
    b[key] = c.coin() ? 1 : 2;
    c.show("shared key", key);
    c.check(pbt::rejects([&] { (void)map_join_strict(a, b); }),
            "map_join_strict accepted a duplicate key");
  } else {
    std::vector<int> keys = map_keys(b);
    keys.push_back(5);
    keys.push_back(static_cast<int>(c.i(-20, 4)));
    c.showv("keys", keys);
    c.check(pbt::rejects([&] { (void)map_subset_sorted(a, keys); }),
            "map_subset_sorted accepted unsorted keys");
  }
}
