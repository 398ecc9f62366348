// pbt:
#include <albatross/Dataset>
#include <albatross/Indexing>
#include <albatross/utils/VariantUtils>
#include "pbt.hpp"

using namespace albatross;

namespace {

struct A {
  int v;
  bool operator==(const A &o) const { return v == o.v; }
};
struct B {
  std::string s;
  bool operator==(const B &o) const { return s == o.s; }
};
using V3 = variant<A, B, double>;
using VAB = variant<A, B>;
using VDB = variant<double, B>; // another order of the alternatives

// one independent description of an element: which alternative, and its value
struct Item {
  int which;
  int a;
  std::string s;
  double d;
};

Item gen_item(pbt::Case &c, int kinds) {
  Item it;
  it.which = static_cast<int>(c.i(0, kinds - 1));
  it.a = static_cast<int>(c.i(-3, 50));
  it.s = it.which == 1 ? c.str(4) : "";
  it.d = it.which == 2 ? c.sym(10) : 0;
  return it;
}

V3 make(const Item &it) {
  if (it.which == 0)
    return A{it.a};
  if (it.which == 1)
    return B{it.s};
  return it.d;
}

template <typename V> bool same(const V &v, const Item &it) {
  return v.match(
      [&](const A &a) { return it.which == 0 && a.v == it.a; },
      [&](const B &b) { return it.which == 1 && b.s == it.s; },
      [&](const double &d) { return it.which == 2 && d == it.d; });
}

std::vector<Item> gen_items(pbt::Case &c, std::size_t max, int kinds) {
  std::vector<Item> out;
  const std::size_t n = c.usually(0, max, 300);
  for (std::size_t i = 0; i < n; ++i)
    out.push_back(gen_item(c, kinds));
  std::ostringstream o;
  for (auto &i : out)
    o << i.which << ":"
      << (i.which == 0 ? std::to_string(i.a)
                       : i.which == 1 ? i.s : std::to_string(i.d))
      << " ";
  c.show("items", o.str());
  return out;
}

} // namespace

PBT_CHECK(extract_from_vectors, 900000, 3000000,
          "vectors of variant<A, B, double> of length 0-12: extraction of "
          "each alternative against a plain loop; non-trivial: an alternative "
          "is interleaved with another.") {
  const auto items = gen_items(c, 12, 3);
  std::vector<V3> xs;
  std::vector<A> as;
  std::vector<B> bs;
  std::vector<double> ds;
  for (const auto &i : items) {
    xs.push_back(make(i));
    if (i.which == 0)
      as.push_back(A{i.a});
    else if (i.which == 1)
      bs.push_back(B{i.s});
    else
      ds.push_back(i.d);
  }
  c.check(extract_from_variants<A>(xs) == as, "first alternative");
  c.check(extract_from_variants<B>(xs) == bs, "second alternative");
  c.check(extract_from_variants<double>(xs) == ds, "third alternative");
  for (std::size_t i = 0; i < items.size(); ++i)
    c.check(same(xs[i], items[i]), "input unmodified");
  c.nontrivial((as.size() > 0) + (bs.size() > 0) + (ds.size() > 0) >= 2);
}

PBT_CHECK(extract_from_datasets, 400000, 1500000,
          "datasets of variant features (with target covariance or without): "
          "each extracted feature keeps its own mean and variance; "
          "non-trivial: two alternatives are present.") {
  const auto items = gen_items(c, 10, 3);
  const auto n = static_cast<Eigen::Index>(items.size());
  std::vector<V3> xs;
  Eigen::VectorXd mean(n), var(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    xs.push_back(make(items[static_cast<std::size_t>(i)]));
    mean[i] = static_cast<double>(i) + 0.5;
    var[i] = 100. + static_cast<double>(i);
  }
  const bool with_cov = c.coin();
  RegressionDataset<V3> d(xs, with_cov ? MarginalDistribution(mean, var)
                                       : MarginalDistribution(mean));
  const auto da = extract_from_variants<A>(d);
  const auto db = extract_from_variants<B>(d);
  std::size_t ia = 0, ib = 0;
  for (std::size_t i = 0; i < items.size(); ++i) {
    const double v = with_cov ? 100. + static_cast<double>(i) : 0.;
    if (items[i].which == 0) {
      c.check(ia < da.size(), "an element is missing");
      const auto k = static_cast<Eigen::Index>(ia);
      c.check(da.features[ia].v == items[i].a, "feature");
      c.eq(da.targets.mean[k], static_cast<double>(i) + 0.5, "paired mean");
      c.eq(da.targets.get_diagonal(k), v, "paired variance");
      ++ia;
    } else if (items[i].which == 1) {
      c.check(ib < db.size(), "an element is missing");
      const auto k = static_cast<Eigen::Index>(ib);
      c.check(db.features[ib].s == items[i].s, "feature");
      c.eq(db.targets.mean[k], static_cast<double>(i) + 0.5, "paired mean");
      c.eq(db.targets.get_diagonal(k), v, "paired variance");
      ++ib;
    }
  }
  c.eq(da.size(), ia, "number of elements");
  c.eq(db.size(), ib, "number of elements");
  c.eq(static_cast<std::size_t>(da.targets.mean.size()), ia, "targets");
  c.nontrivial(ia > 0 && ib > 0);
}

PBT_CHECK(to_variants, 900000, 3000000,
          "vectors of plain alternatives and of smaller variants (also with "
          "the alternatives in another order) converted and assigned to "
          "vectors of the wider variant; non-trivial: at least 2 elements.") {
  const auto items = gen_items(c, 12, 3);
  std::vector<A> as;
  std::vector<B> bs;
  std::vector<VAB> abs;
  std::vector<VDB> dbs;
  std::vector<Item> ia, ib, iab, idb;
  for (const auto &i : items) {
    if (i.which == 0) {
      as.push_back(A{i.a});
      ia.push_back(i);
      abs.push_back(A{i.a});
      iab.push_back(i);
    } else if (i.which == 1) {
      bs.push_back(B{i.s});
      ib.push_back(i);
      abs.push_back(B{i.s});
      iab.push_back(i);
      dbs.push_back(B{i.s});
      idb.push_back(i);
    } else {
      dbs.push_back(i.d);
      idb.push_back(i);
    }
  }
  // what the destination held before must not matter
  std::vector<V3> old;
  for (std::size_t i = 0, n = c.size(0, 14); i < n; ++i)
    old.push_back(make(gen_item(c, 3)));
  const auto verify = [&](const std::vector<V3> &got,
                          const std::vector<Item> &want, const char *what) {
    c.eq(got.size(), want.size(), std::string(what) + " size");
    for (std::size_t i = 0; i < got.size(); ++i)
      c.check(same(got[i], want[i]), std::string(what) + " element");
  };
  verify(to_variant_vector<V3>(as), ia, "to_variant_vector(A)");
  verify(to_variant_vector<V3>(bs), ib, "to_variant_vector(B)");
  verify(to_variant_vector<V3>(abs), iab, "to_variant_vector(variant<A,B>)");
  verify(to_variant_vector<V3>(dbs), idb, "to_variant_vector(variant<double,B>)");
  const auto assign = [&](const auto &xs, const std::vector<Item> &want,
                          const char *what) {
    std::vector<V3> dst = old;
    set_variants(xs, &dst);
    verify(dst, want, what);
    for (std::size_t i = 0; i < xs.size(); ++i) {
      V3 one = old.empty() ? V3(A{0}) : old[i % old.size()];
      set_variant(xs[i], &one);
      c.check(same(one, want[i]), "set_variant");
    }
  };
  assign(as, ia, "set_variants(A)");
  assign(abs, iab, "set_variants(variant<A,B>)");
  assign(dbs, idb, "set_variants(variant<double,B>)");
  // and back
  c.check(extract_from_variants<A>(to_variant_vector<V3>(as)) == as,
          "round trip");
  c.check(extract_from_variants<B>(to_variant_vector<V3>(bs)) == bs,
          "round trip");
  c.nontrivial(items.size() >= 2);
}

PBT_CHECK(any_all_contains, 2000000, 6000000,
          "bool vectors of length 0-200 (mostly one-sided, the odd one "
          "anywhere) and int vectors against plain loops; non-trivial: a "
          "single odd one out.") {
  const std::size_t n = c.size(0, 130);
  const bool base = c.coin();
  std::vector<bool> xs(n, base);
  const std::size_t odd = n ? c.size(0, 2) : 0;
  for (std::size_t k = 0; k < odd; ++k)
    xs[static_cast<std::size_t>(c.i(0, static_cast<long>(n) - 1))] = !base;
  c.showv("xs", xs);
  bool any_ref = false, all_ref = true;
  std::size_t ones = 0;
  for (std::size_t i = 0; i < n; ++i) {
    any_ref = any_ref || xs[i];
    all_ref = all_ref && xs[i];
    ones += xs[i];
  }
  c.eq(any(xs), any_ref, "any");
  c.eq(all(xs), all_ref, "all");
  std::vector<long> v;
  for (std::size_t i = 0, m = c.size(0, 8); i < m; ++i)
    v.push_back(c.i(0, 9));
  const long x = c.i(0, 9);
  bool has = false;
  for (long y : v)
    has = has || y == x;
  c.eq(vector_contains(v, x), has, "vector_contains");
  std::vector<std::string> sv;
  for (long y : v)
    sv.push_back(std::to_string(y));
  c.eq(vector_contains(sv, std::to_string(x)), has, "vector_contains strings");
  c.nontrivial(ones == 1 || ones + 1 == n);
}

PBT_CHECK(casts_keep_values, 5000000, 20000000,
          "sizes and indices over the full range of bits (biased to powers of "
          "two +-2) through each cast; non-trivial: above 2^32 or negative.") {
  const auto bits = static_cast<unsigned>(c.i(0, 63));
  const std::uint64_t mask = bits == 63 ? ~0ull >> 1 : (1ull << (bits + 1)) - 1;
  std::uint64_t v = c.coin() ? (c.u64() & mask)
                             : ((1ull << bits) + static_cast<std::uint64_t>(
                                                     c.i(0, 4)) - 2) &
                                   (~0ull >> 1);
  c.show("v", v);
  const auto idx = static_cast<Eigen::Index>(v);
  c.check(cast::to_size(idx) == v, "to_size");
  c.check(cast::to_index(v) == idx, "to_index");
  const std::uint64_t lim = 1ull << 53;
  if (v <= lim) {
    c.check(cast::to_double(static_cast<std::size_t>(v)) ==
                    static_cast<double>(v) &&
                static_cast<std::uint64_t>(cast::to_double(
                    static_cast<std::size_t>(v))) == v,
            "to_double(size)");
    c.check(static_cast<Eigen::Index>(cast::to_double(idx)) == idx,
            "to_double(index)");
    c.check(static_cast<Eigen::Index>(cast::to_double(-idx)) == -idx,
            "to_double(negative index)");
    c.check(safe_cast_to_size_t(static_cast<double>(v)) == v,
            "safe_cast_to_size_t");
    if (v < (1ull << 50))
      c.check(safe_cast_to_size_t(static_cast<double>(v) + 0.25) == v,
              "safe_cast_to_size_t truncates");
  }
  c.nontrivial(v > (1ull << 32));
}

PBT_CHECK(casts_reject, 240, 1500,
          "values that cannot be represented are rejected (in a child "
          "process), the nearest representable one is not; always "
          "non-trivial.") {
  const std::uint64_t lim = 1ull << 53;
  const std::uint64_t d =
      c.coin() ? 1 : 1 + (c.u64() & ((1ull << c.i(0, 61)) - 1));
  volatile std::int64_t sink = 0;
  volatile double dsink = 0;
  const long kind = c.i(0, 5);
  c.show("kind", kind).show("d", d);
  const auto sd = static_cast<std::int64_t>(d);
  const auto refuse = [&](const std::function<void()> &f, const char *what) {
    c.check(pbt::rejects(f), std::string(what) + " accepted");
  };
  switch (kind) {
  case 0:
    refuse([&] { sink = static_cast<std::int64_t>(cast::to_size(-sd)); },
           "negative index to size");
    break;
  case 1:
    refuse([&] { sink = cast::to_index((1ull << 63) + d - 1); },
           "size above the largest index");
    break;
  case 2:
    refuse([&] { dsink = cast::to_double(static_cast<std::size_t>(lim + d)); },
           "size above 2^53 to double");
    break;
  case 3:
    refuse([&] {
      dsink = cast::to_double(static_cast<Eigen::Index>(lim) + sd);
    }, "index above 2^53 to double");
    break;
  case 4:
    refuse([&] {
      dsink = cast::to_double(-static_cast<Eigen::Index>(lim) - sd);
    }, "index below -2^53 to double");
    break;
  default:
    refuse([&] {
      sink = static_cast<std::int64_t>(
          safe_cast_to_size_t(18446744073709551616. * (1. + static_cast<double>(d))));
    }, "double above the largest size");
    break;
  }
  c.check(!pbt::rejects([&] {
    dsink = cast::to_double(static_cast<std::size_t>(lim));
    dsink = cast::to_double(static_cast<Eigen::Index>(lim));
    dsink = cast::to_double(-static_cast<Eigen::Index>(lim));
    sink = cast::to_index((1ull << 63) - 1);
    sink = static_cast<std::int64_t>(cast::to_size(Eigen::Index(0)));
  }), "a representable value was rejected");
  c.nontrivial();
}
