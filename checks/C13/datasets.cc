// pbt:
#include <albatross/Dataset>
#include <albatross/Indexing>
#include "gen.hpp"

using namespace albatross;

namespace {

struct F {
  int id;
  int tag;
  bool operator==(const F &o) const { return id == o.id && tag == o.tag; }
};
struct Row {
  int id, tag;
  double mean, var;
};
using Model = std::vector<Row>;
using DS = RegressionDataset<F>;

DS build(const Model &m) {
  std::vector<F> f;
  Eigen::VectorXd mean(m.size()), var(m.size());
  for (std::size_t i = 0; i < m.size(); ++i) {
    f.push_back(F{m[i].id, m[i].tag});
    mean[static_cast<Eigen::Index>(i)] = m[i].mean;
    var[static_cast<Eigen::Index>(i)] = m[i].var;
  }
  return DS(f, MarginalDistribution(mean, var));
}

template <typename Get>
void verify_with(pbt::Case &c, const Model &m, std::size_t n,
                 const MarginalDistribution &t, Get get, const std::string &w) {
  c.eq(n, m.size(), w + ": size");
  c.eq(static_cast<std::size_t>(t.mean.size()), m.size(), w + ": targets");
  c.eq(static_cast<std::size_t>(t.covariance.rows()), m.size(),
       w + ": variances");
  for (std::size_t i = 0; i < m.size(); ++i) {
    const auto k = static_cast<Eigen::Index>(i);
    c.check(get(i, m[i]), w + ": feature at position " + std::to_string(i));
    c.eq(t.mean[k], m[i].mean, w + ": target mean");
    c.eq(t.get_diagonal(k), m[i].var, w + ": target variance");
  }
}

void verify(pbt::Case &c, const Model &m, const DS &d, const std::string &w) {
  verify_with(c, m, d.size(), d.targets,
              [&](std::size_t i, const Row &r) {
                return d.features[i].id == r.id && d.features[i].tag == r.tag;
              },
              w);
}

Model gen_rows(pbt::Case &c, std::size_t max, bool unique, int *counter) {
  Model m;
  const std::size_t n = c.usually(0, max, 120);
  for (std::size_t i = 0; i < n; ++i) {
    Row r;
    r.id = unique ? static_cast<int>(i) : static_cast<int>(c.i(0, 5));
    r.tag = unique ? 0 : static_cast<int>(c.i(0, 1));
    // unique target values identify where a target came from
    r.mean = ++*counter + 0.5;
    r.var = 1000. + *counter;
    m.push_back(r);
  }
  if (unique)
    c.shuffle(m);
  return m;
}

void show(pbt::Case &c, const char *name, const Model &m) {
  std::ostringstream o;
  for (const auto &r : m)
    o << r.id << "/" << r.tag << " ";
  c.show(name, "{" + o.str() + "}");
}

std::vector<std::size_t> gen_indices(pbt::Case &c, std::size_t n) {
  std::vector<std::size_t> out;
  if (n == 0)
    return out;
  if (c.coin())
    return c.permutation(n);
  for (std::size_t i = 0, k = c.size(0, 10); i < k; ++i)
    out.push_back(c.src.draw(n - 1));
  return out;
}

} // namespace

PBT_CHECK(histories, 330000, 2000000,
          "sequences of 1-8 dataset operations (subset, concatenate two/many, "
          "deduplicate, align by equality or custom predicate, filter, group "
          "and recombine, shuffle) against a list of rows; every target value "
          "is unique so pairing is visible; non-trivial: 3+ operations on a "
          "dataset of 2+ rows.") {
  int counter = 0;
  Model m = gen_rows(c, 8, false, &counter);
  show(c, "start", m);
  DS d = build(m);
  const std::size_t ops = 1 + c.size(0, 7);
  bool big = false;
  for (std::size_t o = 0; o < ops; ++o) {
    const DS before = d;
    const Model model_before = m;
    big = big || m.size() >= 2;
    const long op = c.i(0, 7);
    std::string what;
    switch (op) {
    case 0: {
      const auto idx = gen_indices(c, m.size());
      Model out;
      for (auto i : idx)
        out.push_back(m[i]);
      c.showv("subset", idx);
      what = "subset";
      const DS r = c.coin() ? d.subset(idx) : subset(d, idx);
      verify(c, model_before, d, "input of subset");
      m = out;
      d = r;
      break;
    }
    case 1: {
      Model other = gen_rows(c, 4, false, &counter);
      show(c, "concat", other);
      what = "concatenation of two";
      const DS od = build(other);
      const bool front = c.coin();
      const DS r =
          front ? concatenate_datasets(od, d) : concatenate_datasets(d, od);
      verify(c, model_before, d, "input of concatenation");
      verify(c, other, od, "input of concatenation");
      if (front)
        m.insert(m.begin(), other.begin(), other.end());
      else
        m.insert(m.end(), other.begin(), other.end());
      d = r;
      break;
    }
    case 2: {
      what = "concatenation of many";
      std::vector<DS> many;
      Model out;
      const std::size_t k = c.size(0, 3), at = k ? c.src.draw(k) : 0;
      for (std::size_t i = 0; i <= k; ++i) {
        const Model part = i == at ? m : gen_rows(c, 3, false, &counter);
        many.push_back(build(part));
        out.insert(out.end(), part.begin(), part.end());
      }
      c.show("many", k);
      d = concatenate_datasets(many);
      m = out;
      break;
    }
    case 3: {
      what = "deduplication";
      c.show("dedupe", "");
      Model out;
      for (std::size_t i = 0; i < m.size(); ++i) {
        bool later = false;
        for (std::size_t j = i + 1; j < m.size(); ++j)
          later = later || (m[j].id == m[i].id && m[j].tag == m[i].tag);
        if (!later)
          out.push_back(m[i]);
      }
      const DS r = deduplicate(d);
      verify(c, model_before, d, "input of deduplication");
      m = out;
      d = r;
      break;
    }
    case 4: {
      what = "filter";
      const int keep = static_cast<int>(c.i(0, 5));
      c.show("filter id<=", keep);
      Model out;
      for (const auto &r : m)
        if (r.id <= keep)
          out.push_back(r);
      const DS r = filter(d, [&](const F &f) { return f.id <= keep; });
      verify(c, model_before, d, "input of filter");
      m = out;
      d = r;
      break;
    }
    case 5: {
      what = "group_by and combine";
      const int mod = 1 + static_cast<int>(c.i(0, 3));
      c.show("group id%", mod);
      Model out;
      for (int g = 0; g < mod; ++g)
        for (const auto &r : m)
          if (r.id % mod == g)
            out.push_back(r);
      const DS r =
          d.group_by([&](const F &f) { return f.id % mod; }).groups().combine();
      verify(c, model_before, d, "input of group_by");
      m = out;
      d = r;
      break;
    }
    case 6: {
      what = "alignment";
      // alignment is defined for features that match at most once
      Model a = gen_rows(c, 7, true, &counter), b = gen_rows(c, 7, true, &counter);
      Model aa, bb;
      const int shift = static_cast<int>(c.i(0, 2));
      for (auto &r : b)
        r.id += shift;
      const bool custom = c.coin();
      if (custom)
        for (auto &r : b)
          r.tag = 7;
      show(c, "align", a);
      show(c, "with", b);
      for (const auto &ra : a)
        for (const auto &rb : b)
          if (ra.id == rb.id) {
            aa.push_back(ra);
            bb.push_back(rb);
          }
      DS da = build(a), db = build(b);
      if (custom)
        align_datasets(&da, &db,
                       [](const F &x, const F &y) { return x.id == y.id; });
      else
        align_datasets(&da, &db);
      verify(c, aa, da, "first aligned dataset");
      verify(c, bb, db, "second aligned dataset");
      m = aa;
      d = da;
      break;
    }
    default: {
      what = "indexing by a random permutation";
      const auto p = c.permutation(m.size());
      Model out;
      for (auto i : p)
        out.push_back(m[i]);
      const DS shuffled = subset(d, p);
      m = out;
      d = shuffled;
    }
    }
    verify(c, m, d, what);
    c.check(d == d, "equal to itself");
    if (!m.empty()) {
      DS e = d;
      const auto k = c.src.draw(m.size() - 1);
      switch (c.i(0, 2)) {
      case 0:
        e.features[k].tag += 100;
        break;
      case 1:
        e.targets.mean[static_cast<Eigen::Index>(k)] += 1;
        break;
      default:
        e.targets.covariance.diagonal()[static_cast<Eigen::Index>(k)] += 1;
      }
      c.check(!(e == d), "unequal after changing one row");
    }
  }
  c.nontrivial(big && ops >= 3);
}

PBT_CHECK(mixed_type_concatenation, 330000, 1500000,
          "concatenating datasets and vectors of different feature types "
          "(X,Y; X,variant; variant,X; new type) keeps order, values and "
          "targets; non-trivial: both sides non-empty.") {
  const std::size_t n = c.usually(0, 5, 60), m = c.usually(0, 5, 60);
  std::vector<int> xi;
  std::vector<std::string> ys;
  for (std::size_t i = 0; i < n; ++i)
    xi.push_back(static_cast<int>(c.i(-9, 9)));
  for (std::size_t i = 0; i < m; ++i)
    ys.push_back(c.str(3));
  Eigen::VectorXd mx(n), vx(n), my(m), vy(m);
  for (Eigen::Index i = 0; i < mx.size(); ++i) {
    mx[i] = 1. + static_cast<double>(i);
    vx[i] = 100. + static_cast<double>(i);
  }
  for (Eigen::Index i = 0; i < my.size(); ++i) {
    my[i] = 51. + static_cast<double>(i);
    vy[i] = 500. + static_cast<double>(i);
  }
  const RegressionDataset<int> a(xi, MarginalDistribution(mx, vx));
  const RegressionDataset<std::string> b(ys, MarginalDistribution(my, vy));
  c.showv("ints", xi).show("strings", m);
  const auto ab = concatenate_datasets(a, b);
  const auto ba = concatenate_datasets(b, a);
  static_assert(std::is_same<decltype(ab)::Feature, variant<int, std::string>>::value, "");
  const auto is_int = [&](const auto &v, int x) {
    return v.match([&](const int &i) { return i == x; },
                   [](const auto &) { return false; });
  };
  const auto is_str = [&](const auto &v, const std::string &x) {
    return v.match([&](const std::string &i) { return i == x; },
                   [](const auto &) { return false; });
  };
  c.eq(ab.size(), n + m, "size");
  c.eq(ba.size(), n + m, "size");
  for (std::size_t i = 0; i < n + m; ++i) {
    const auto k = static_cast<Eigen::Index>(i), kn = static_cast<Eigen::Index>(n),
               km = static_cast<Eigen::Index>(m);
    c.check(i < n ? is_int(ab.features[i], xi[i])
                  : is_str(ab.features[i], ys[i - n]),
            "feature of a+b");
    c.eq(ab.targets.mean[k], i < n ? mx[k] : my[k - kn], "mean of a+b");
    c.eq(ab.targets.get_diagonal(k), i < n ? vx[k] : vy[k - kn],
         "variance of a+b");
    c.check(i < m ? is_str(ba.features[i], ys[i])
                  : is_int(ba.features[i], xi[i - m]),
            "feature of b+a");
    c.eq(ba.targets.mean[k], i < m ? my[k] : mx[k - km], "mean of b+a");
    c.eq(ba.targets.get_diagonal(k), i < m ? vy[k] : vx[k - km],
         "variance of b+a");
  }
  // a variant that already holds the type, in both orders, and a new type
  const auto vvec = ab.features;
  const auto v_then_x = concatenate(vvec, xi);
  const auto x_then_v = concatenate(xi, vvec);
  c.eq(v_then_x.size(), n + m + n, "variant + int size");
  c.eq(x_then_v.size(), n + m + n, "int + variant size");
  for (std::size_t i = 0; i < n; ++i) {
    c.check(is_int(v_then_x[n + m + i], xi[i]), "variant + int tail");
    c.check(is_int(v_then_x[i], xi[i]), "variant + int head");
    c.check(is_int(x_then_v[i], xi[i]), "int + variant head");
    c.check(is_int(x_then_v[n + i], xi[i]), "int + variant middle");
  }
  for (std::size_t i = 0; i < m; ++i) {
    c.check(is_str(v_then_x[n + i], ys[i]), "variant + int strings");
    c.check(is_str(x_then_v[2 * n + i], ys[i]), "int + variant strings");
  }
  std::vector<double> ds;
  for (std::size_t i = 0, k = c.size(0, 3); i < k; ++i)
    ds.push_back(c.sym(3));
  const auto v_then_d = concatenate(vvec, ds);
  const auto d_then_v = concatenate(ds, vvec);
  c.eq(v_then_d.size(), n + m + ds.size(), "variant + double size");
  c.eq(d_then_v.size(), n + m + ds.size(), "double + variant size");
  for (std::size_t i = 0; i < ds.size(); ++i) {
    const auto isd = [&](const auto &v) {
      return v.match([&](const double &x) { return x == ds[i]; },
                     [](const auto &) { return false; });
    };
    c.check(isd(v_then_d[n + m + i]) && isd(d_then_v[i]), "doubles");
  }
  for (std::size_t i = 0; i < n; ++i)
    c.check(is_int(v_then_d[i], xi[i]) && is_int(d_then_v[ds.size() + i], xi[i]),
            "ints next to doubles");
  // plain vectors
  std::vector<std::vector<int>> lists;
  std::vector<int> flat;
  for (std::size_t i = 0, k = c.size(0, 4); i < k; ++i) {
    std::vector<int> l;
    for (std::size_t j = 0, q = c.size(0, 3); j < q; ++j)
      l.push_back(static_cast<int>(c.i(0, 9)));
    lists.push_back(l);
    flat.insert(flat.end(), l.begin(), l.end());
  }
  c.check(concatenate(lists) == flat, "concatenating a list of vectors");
  Eigen::VectorXd cat(n + m);
  cat << mx, my;
  c.check(concatenate(mx, my) == cat, "concatenating Eigen vectors");
  c.nontrivial(n > 0 && m > 0);
}

PBT_CHECK(matrix_times_dataset, 220000, 1000000,
          "dense and sparse matrices (empty rows included) times datasets of "
          "plain and linear combination features: each output feature holds "
          "exactly the row's coefficients, targets are transformed; "
          "non-trivial: a row combines 2+ features.") {
  const std::size_t n = 1 + c.size(0, 4), p = 1 + c.size(0, 4);
  Eigen::MatrixXd a = gen::mat(c, static_cast<Eigen::Index>(p),
                               static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (c.chance(2, 5))
      a(i) = 0;
  std::vector<int> ids;
  for (std::size_t i = 0; i < n; ++i)
    ids.push_back(static_cast<int>(i) * 3);
  const MarginalDistribution t(gen::vec(c, static_cast<Eigen::Index>(n)),
                               gen::variances(c, static_cast<Eigen::Index>(n)));
  const RegressionDataset<int> d(ids, t);
  c.show("A", a);
  const auto coefs = [&](const LinearCombination<int> &f) {
    Eigen::VectorXd row = Eigen::VectorXd::Zero(static_cast<Eigen::Index>(n));
    c.eq(static_cast<std::size_t>(f.coefficients.size()), f.values.size(),
         "coefficients per value");
    for (std::size_t i = 0; i < f.values.size(); ++i) {
      c.check(f.values[i] % 3 == 0 && f.values[i] / 3 < static_cast<int>(n),
              "value comes from the dataset");
      row[f.values[i] / 3] += f.coefficients[static_cast<Eigen::Index>(i)];
    }
    return row;
  };
  const auto verify = [&](const auto &out, const Eigen::MatrixXd &expect,
                          const std::string &w) {
    c.eq(out.size(), static_cast<std::size_t>(expect.rows()), w + " size");
    for (Eigen::Index i = 0; i < expect.rows(); ++i)
      c.near_mat(coefs(out.features[static_cast<std::size_t>(i)]),
                 Eigen::VectorXd(expect.row(i).transpose()), 1e-13,
                 w + " coefficients");
    c.near_mat(out.targets.mean, Eigen::VectorXd(expect * t.mean), 1e-12,
               w + " mean");
  };
  const Eigen::SparseMatrix<double> sp = a.sparseView();
  const Eigen::SparseMatrix<double, Eigen::RowMajor> spr = sp;
  const auto once = a * d;
  verify(once, a, "dense");
  verify(sp * d, a, "sparse");
  verify(spr * d, a, "row major sparse");
  c.near_mat(Eigen::VectorXd(once.targets.covariance.diagonal()),
             Eigen::VectorXd((a * Eigen::MatrixXd(t.covariance.diagonal()
                                                     .asDiagonal()) *
                              a.transpose())
                                 .diagonal()),
             1e-12, "variance");
  const std::size_t q = 1 + c.size(0, 3);
  Eigen::MatrixXd b = gen::mat(c, static_cast<Eigen::Index>(q),
                               static_cast<Eigen::Index>(p));
  for (Eigen::Index i = 0; i < b.size(); ++i)
    if (c.chance(2, 5))
      b(i) = 0;
  const Eigen::SparseMatrix<double> spb = b.sparseView();
  verify(spb * once, b * a, "combination of combinations");
  // helpers
  const int x = ids[0], y = ids[n - 1];
  const auto s = linear_combination::sum(x, y);
  const auto df = linear_combination::difference(x, y);
  const auto mn = linear_combination::mean(ids);
  const auto id = linear_combination::to_linear_combination(x);
  Eigen::VectorXd e = Eigen::VectorXd::Zero(static_cast<Eigen::Index>(n));
  e[0] += 1;
  c.near_mat(coefs(id), e, 0, "identity combination");
  e[static_cast<Eigen::Index>(n) - 1] += 1;
  c.near_mat(coefs(s), e, 0, "sum");
  e[static_cast<Eigen::Index>(n) - 1] -= 2;
  c.near_mat(coefs(df), e, 0, "difference");
  e.setConstant(1. / static_cast<double>(n));
  c.near_mat(coefs(mn), e, 1e-15, "mean");
  c.check(linear_combination::to_linear_combination(df) == df,
          "combination stays as it is");
  const auto hs = linear_combination::sum(x, std::string("s"));
  const auto hd = linear_combination::difference(x, std::string("s"));
  c.check(hs.values.size() == 2 && hs.coefficients[0] == 1 &&
              hs.coefficients[1] == 1 && hd.coefficients[0] == 1 &&
              hd.coefficients[1] == -1 && hd.values[0].is<int>() &&
              hd.values[1].is<std::string>(),
          "combination of two types");
  bool two = false;
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    two = two || (a.row(i).array() != 0).count() >= 2;
  c.nontrivial(two);
}
