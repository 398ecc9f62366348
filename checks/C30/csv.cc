// pbt:
#include <albatross/Core>
#include <albatross/utils/CsvUtils>
#include "pbt.hpp"

#include <cereal/types/string.hpp>

namespace features {

// A feature that is written through its serialization, with nested parts,
// parts that are only there sometimes, and text.
struct Deep {
  std::vector<double> values; // each a field of its own
  template <typename Archive> void serialize(Archive &archive) {
    for (std::size_t i = 0; i < values.size(); ++i)
      archive(cereal::make_nvp(("f" + std::to_string(i)).c_str(), values[i]));
  }
};

struct Part {
  double one = 0;
  int two = 0;
  Deep deep;
  template <typename Archive> void serialize(Archive &archive) {
    archive(cereal::make_nvp("one", one));
    if (!deep.values.empty())
      archive(cereal::make_nvp("deep", deep));
    archive(cereal::make_nvp("two", two));
  }
};

struct Record {
  double x = 0;
  float y = 0;
  long k = 0;
  bool flag = false;
  std::string name;
  bool has_part = false;
  Part part;
  bool has_extra = false;
  double extra = 0;

  template <typename Archive> void save(Archive &archive) const {
    archive(cereal::make_nvp("x", x));
    archive(cereal::make_nvp("y", y));
    archive(cereal::make_nvp("k", k));
    archive(cereal::make_nvp("flag", flag));
    archive(cereal::make_nvp("name", name));
    if (has_part)
      archive(cereal::make_nvp("part", part));
    if (has_extra)
      archive(cereal::make_nvp("a_extra", extra));
  }
  template <typename Archive> void load(Archive &) {}
};

// A feature with its own columns.
struct Custom {
  std::map<std::string, std::string> columns;
};

inline std::map<std::string, std::string> to_map(const Custom &f) {
  return f.columns;
}

} // namespace features

using namespace albatross;

namespace {

// What a cell has to contain
struct Cell {
  bool is_number = false;
  double number = 0;
  std::string text;
};
using Row = std::map<std::string, Cell>;

Cell num(double x) { return {true, x, ""}; }
Cell txt(const std::string &s) { return {false, 0, s}; }

// A reader of comma separated values (RFC 4180).
std::vector<std::vector<std::string>> read_csv(const std::string &s) {
  std::vector<std::vector<std::string>> rows;
  std::vector<std::string> row(1);
  bool quoted = false, any = false;
  for (std::size_t i = 0; i < s.size(); ++i) {
    const char ch = s[i];
    if (quoted) {
      if (ch == '"' && i + 1 < s.size() && s[i + 1] == '"') {
        row.back().push_back('"');
        ++i;
      } else if (ch == '"') {
        quoted = false;
      } else {
        row.back().push_back(ch);
      }
      continue;
    }
    if (ch == '"' && row.back().empty()) {
      quoted = any = true;
    } else if (ch == ',') {
      row.emplace_back();
      any = true;
    } else if (ch == '\n') {
      rows.push_back(row);
      row.assign(1, "");
      any = false;
    } else {
      row.back().push_back(ch);
      any = true;
    }
  }
  if (any)
    rows.push_back(row);
  return rows;
}

double any_number(pbt::Case &c) {
  switch (c.i(0, 6)) {
  case 0:
    return static_cast<double>(c.i(0, 20));
  case 1:
    return c.sym(10);
  case 2:
    return (c.coin() ? -1 : 1) * c.logreal(1e-300, 1e-3);
  case 3:
    return (c.coin() ? -1 : 1) * c.logreal(1e3, 1e300);
  case 4:
    return c.pick<double>({HUGE_VAL, -HUGE_VAL, 5e-324,
                           std::numeric_limits<double>::max(), -0.});
  case 5:
    return std::nan("");
  default:
    return 0.1 * static_cast<double>(c.i(0, 50));
  }
}

// not only white space (which XML drops), without carriage returns
std::string any_text(pbt::Case &c) {
  std::string s = c.coin() ? c.ident(6) : c.str(8);
  for (char &ch : s)
    if (static_cast<unsigned char>(ch) < ' ' && ch != '\n' && ch != '\t')
      ch = '_';
  if (s.find_first_not_of(" \n\t") == std::string::npos)
    s.clear();
  return s;
}

// ---- features and the columns they should give
template <typename F> F make_feature(pbt::Case &c, Row *row);

template <> double make_feature<double>(pbt::Case &c, Row *row) {
  const double x = any_number(c);
  (*row)["feature"] = num(x);
  return x;
}

template <> int make_feature<int>(pbt::Case &c, Row *row) {
  const int x = static_cast<int>(c.i(-1000000, 1000000));
  (*row)["value0"] = num(x);
  return x;
}

template <>
features::Record make_feature<features::Record>(pbt::Case &c, Row *row) {
  features::Record r;
  r.x = any_number(c);
  r.y = static_cast<float>(c.sym(100));
  r.k = c.i(-1000000000000, 1000000000000);
  r.flag = c.coin();
  r.name = any_text(c);
  r.has_part = c.coin();
  r.part = {any_number(c), static_cast<int>(c.i(-5, 5)), {}};
  r.part.deep.values.resize(c.coin() ? 0 : c.usually(1, 3, 15));
  for (double &v : r.part.deep.values)
    v = any_number(c);
  r.has_extra = c.coin();
  r.extra = any_number(c);
  (*row)["x"] = num(r.x);
  (*row)["y"] = num(r.y);
  (*row)["k"] = num(static_cast<double>(r.k));
  (*row)["flag"] = txt(r.flag ? "true" : "false");
  if (!r.name.empty())
    (*row)["name"] = txt(r.name);
  if (r.has_part) {
    (*row)["part.one"] = num(r.part.one);
    (*row)["part.two"] = num(r.part.two);
    for (std::size_t i = 0; i < r.part.deep.values.size(); ++i)
      (*row)["part.deep.f" + std::to_string(i)] = num(r.part.deep.values[i]);
  }
  if (r.has_extra)
    (*row)["a_extra"] = num(r.extra);
  return r;
}

template <>
features::Custom make_feature<features::Custom>(pbt::Case &c, Row *row) {
  features::Custom f;
  const std::size_t n = c.size(0, 4);
  for (std::size_t i = 0; i < n; ++i) {
    const std::string key = c.pick<std::string>(
        {"alpha", "beta", "u", "zeta", "with space", "a,b", "q\"q"});
    const std::string text = any_text(c);
    f.columns[key] = text;
    (*row)[key] = txt(text);
  }
  return f;
}

// ---- datasets and predictions
template <typename F> struct Data {
  RegressionDataset<F> dataset;
  MarginalDistribution marginal;
  JointDistribution joint;
  std::vector<Row> rows;       // with predictions
  std::vector<Row> plain_rows; // predictions are zero
};

template <typename F> Data<F> make_data(pbt::Case &c, std::size_t max_n) {
  Data<F> d;
  const std::size_t n = c.usually(0, max_n, 150);
  std::vector<F> fs;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n)), v = y, p = y, q = y;
  for (std::size_t i = 0; i < n; ++i) {
    const auto e = static_cast<Eigen::Index>(i);
    Row row;
    fs.push_back(make_feature<F>(c, &row));
    y[e] = any_number(c);
    v[e] = std::fabs(any_number(c));
    p[e] = any_number(c);
    q[e] = std::fabs(any_number(c));
    row["target"] = num(y[e]);
    row["target_variance"] = num(v[e]);
    row["prediction"] = num(0);
    row["prediction_variance"] = num(0);
    d.plain_rows.push_back(row);
    row["prediction"] = num(p[e]);
    row["prediction_variance"] = num(q[e]);
    d.rows.push_back(row);
  }
  d.dataset = RegressionDataset<F>(fs, MarginalDistribution(y, v));
  d.marginal = MarginalDistribution(p, q);
  Eigen::MatrixXd cov = Eigen::MatrixXd::Constant(
      static_cast<Eigen::Index>(n), static_cast<Eigen::Index>(n), 0.25);
  cov.diagonal() = q;
  d.joint = JointDistribution(p, cov);
  // metadata is repeated on each row, that of the predictions wins
  for (int which = 0; which < 2; ++which) {
    const std::size_t m = c.size(0, 2);
    for (std::size_t i = 0; i < m; ++i) {
      const std::string key =
          c.pick<std::string>({"time", "source", "run", "m,n"});
      const std::string text = any_text(c);
      if (which == 0) {
        d.dataset.metadata[key] = text;
        for (auto &r : d.plain_rows)
          r[key] = txt(text);
      } else {
        d.marginal.metadata[key] = text;
        d.joint.metadata[key] = text;
      }
      for (auto &r : d.rows)
        r[key] = txt(text);
    }
  }
  return d;
}

void check_cell(pbt::Case &c, const std::string &got, const Row &row,
                const std::string &column, const std::string &where) {
  const auto it = row.find(column);
  if (it == row.end()) {
    c.eq(got, std::string(), where + " has no " + column);
    return;
  }
  if (!it->second.is_number) {
    c.eq(got, it->second.text, where + " " + column);
    return;
  }
  char *end = nullptr;
  const double v = std::strtod(got.c_str(), &end);
  c.check(!got.empty() && *end == 0, where + " " + column + " is a number: " + got);
  const double e = it->second.number;
  c.check((std::isnan(v) && std::isnan(e)) || v == e,
          where + " " + column + ": read " + got + " expected " + pbt::str(e));
}

// The rows start at `first`; returns the number of cells that were blank
std::size_t check_rows(pbt::Case &c,
                       const std::vector<std::vector<std::string>> &csv,
                       std::size_t first,
                       const std::vector<std::string> &columns,
                       const std::vector<Row> &rows) {
  std::size_t blank = 0;
  c.check(csv.size() >= first + rows.size(), "there is a row for each datum");
  for (std::size_t i = 0; i < rows.size(); ++i) {
    const std::string where = "row " + std::to_string(i);
    const auto &r = csv[first + i];
    c.eq(r.size(), columns.size(), where + ": number of cells");
    for (std::size_t k = 0; k < columns.size(); ++k) {
      check_cell(c, r[k], rows[i], columns[k], where);
      blank += r[k].empty();
    }
  }
  return blank;
}

void check_header(pbt::Case &c, const std::vector<std::string> &header,
                  const std::vector<Row> &rows) {
  std::set<std::string> expected;
  for (const auto &r : rows)
    for (const auto &kv : r)
      expected.insert(kv.first);
  const std::set<std::string> got(header.begin(), header.end());
  c.eq(got.size(), header.size(), "columns are distinct");
  if (got != expected) {
    std::string msg = "columns:";
    for (const auto &s : got)
      msg += expected.count(s) ? "" : " unexpected <" + s + ">";
    for (const auto &s : expected)
      msg += got.count(s) ? "" : " missing <" + s + ">";
    c.fail(msg);
  }
}

// A stream which can't go back (a pipe, a terminal).
struct OneWay : std::streambuf {
  std::string text;
  int overflow(int ch) override {
    if (ch != EOF)
      text.push_back(static_cast<char>(ch));
    return ch;
  }
};

template <typename Write>
std::string written(pbt::Case &c, const std::string &before, Write write) {
  if (c.coin()) {
    std::ostringstream o;
    o << before;
    write(o);
    c.check(o.good(), "the stream is still good");
    return o.str();
  }
  OneWay buf;
  std::ostream o(&buf);
  o << before;
  write(o);
  c.check(o.good(), "the stream is still good");
  return buf.text;
}

template <typename F> void one_dataset(pbt::Case &c) {
  const auto d = make_data<F>(c, 6);
  const std::string before = c.coin() ? "" : "# a comment\n";
  const bool header = !c.chance(1, 4);
  const long kind = c.i(0, 2);
  c.show("kind", kind).show("header", header).show("n", d.rows.size());
  const std::string text = written(c, before, [&](std::ostream &o) {
    if (kind == 0)
      write_to_csv(o, d.dataset, d.marginal, header);
    else if (kind == 1)
      write_to_csv(o, d.dataset, d.joint, header);
    else
      write_to_csv(o, d.dataset, header);
  });
  c.note() << "text: " << text << " ";
  c.sync();
  c.eq(text.substr(0, before.size()), before, "what was there before is kept");
  const auto csv = read_csv(text.substr(before.size()));
  const auto &rows = kind == 2 ? d.plain_rows : d.rows;
  if (rows.empty()) {
    // there is nothing the names of the columns could be taken from
    for (const auto &r : csv)
      for (const auto &cell : r)
        c.eq(cell, std::string(), "nothing to write");
    return;
  }
  c.check(text.back() == '\n', "the last row is terminated");
  c.eq(csv.size(), rows.size() + header, "number of rows");
  std::vector<std::string> columns;
  if (header) {
    columns = csv[0];
    check_header(c, columns, rows);
  } else {
    // the header of the same data
    std::ostringstream o;
    if (kind == 0)
      write_to_csv(o, d.dataset, d.marginal);
    else if (kind == 1)
      write_to_csv(o, d.dataset, d.joint);
    else
      write_to_csv(o, d.dataset);
    columns = read_csv(o.str())[0];
  }
  const std::size_t blank = check_rows(c, csv, header, columns, rows);
  c.label_if(blank > 0, "blank cells");
  c.nontrivial(rows.size() >= 2);

  // with columns of our own: some of them and some which do not exist
  std::vector<std::string> own = columns;
  own.push_back("nothing");
  c.shuffle(own);
  own.resize(1 + c.size(0, own.size() - 1));
  if (kind == 1) {
    const std::string part = written(c, "", [&](std::ostream &o) {
      write_to_csv(o, d.dataset, d.joint, own);
    });
    // (a blank line can't be told from a blank cell)
    const auto got = read_csv(part);
    c.eq(got.size(), rows.size(), "number of rows with given columns");
    check_rows(c, got, 0, own, rows);
  }
}

template <typename F> void several_datasets(pbt::Case &c) {
  const std::size_t n = 1 + c.size(0, 3);
  std::vector<RegressionDataset<F>> datasets;
  std::vector<MarginalDistribution> marginals;
  std::vector<JointDistribution> joints;
  std::vector<Row> rows;
  std::set<std::string> first;
  for (std::size_t i = 0; i < n; ++i) {
    const auto d = make_data<F>(c, 4);
    datasets.push_back(d.dataset);
    marginals.push_back(d.marginal);
    joints.push_back(d.joint);
    rows.insert(rows.end(), d.rows.begin(), d.rows.end());
  }
  const bool joint = c.coin();
  c.show("datasets", n).show("rows", rows.size());
  const std::string text = written(c, "", [&](std::ostream &o) {
    if (joint)
      write_to_csv(o, datasets, joints);
    else
      write_to_csv(o, datasets, marginals);
  });
  c.note() << "text: " << text << " ";
  c.sync();
  if (rows.empty())
    return;
  const auto csv = read_csv(text);
  c.eq(csv.size(), rows.size() + 1, "number of rows");
  check_header(c, csv[0], rows);
  const std::size_t blank = check_rows(c, csv, 1, csv[0], rows);
  c.label_if(blank > 0, "blank cells");
  c.label_if(datasets[0].size() == 0, "the first one is empty");
  c.nontrivial(n > 1 && rows.size() >= 2);
}

} // namespace

PBT_CHECK(dataset_rows, 60000, 500000,
          "0-6 data with numbers, integers, serialized records (nested and "
          "optional parts, text) or custom columns as features, extreme and "
          "non-finite numbers, text with separators, quotes and line breaks, "
          "metadata of dataset and predictions; with marginal, joint or no "
          "predictions, with and without header, given columns, to streams "
          "that can seek or not and are not empty: a reader gets one row per "
          "datum with the header's columns, blanks where a datum has no such "
          "column and the exact values everywhere else; non-trivial: two or "
          "more data.") {
  switch (c.i(0, 3)) {
  case 0:
    return one_dataset<double>(c);
  case 1:
    return one_dataset<features::Record>(c);
  case 2:
    return one_dataset<features::Custom>(c);
  default:
    return one_dataset<int>(c);
  }
}

PBT_CHECK(rows_of_several_datasets, 40000, 300000,
          "1-4 such datasets in one table, some of them empty or with columns "
          "or metadata others do not have: one header with the columns of "
          "all of them, then the rows in order; non-trivial: several datasets "
          "and two or more data.") {
  switch (c.i(0, 2)) {
  case 0:
    return several_datasets<double>(c);
  case 1:
    return several_datasets<features::Record>(c);
  default:
    return several_datasets<features::Custom>(c);
  }
}

PBT_CHECK(matrices, 100000, 500000,
          "matrices of up to 5 x 5 (at times 60 x 40) numbers or integers written with 17 digits "
          "to either kind of stream: one line for each row, the numbers of "
          "the row in order; non-trivial: two or more rows and columns.") {
  const auto r = static_cast<Eigen::Index>(c.usually(0, 5, 60)),
             k = static_cast<Eigen::Index>(c.usually(0, 5, 40));
  Eigen::MatrixXd x(r, k);
  Eigen::MatrixXi xi(r, k);
  const bool ints = c.coin();
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index j = 0; j < k; ++j) {
      x(i, j) = ints ? static_cast<double>(c.i(-100000, 100000)) : any_number(c);
      xi(i, j) = ints ? static_cast<int>(x(i, j)) : 0;
    }
  const std::string text = written(c, "", [&](std::ostream &o) {
    o.precision(17);
    if (ints)
      write_to_csv(o, xi);
    else
      write_to_csv(o, x);
  });
  c.note() << text;
  c.sync();
  if (r == 0 || k == 0)
    return;
  const auto csv = read_csv(text);
  c.eq(csv.size(), static_cast<std::size_t>(r), "lines");
  for (Eigen::Index i = 0; i < r; ++i) {
    const auto &row = csv[static_cast<std::size_t>(i)];
    c.eq(row.size(), static_cast<std::size_t>(k), "cells");
    for (Eigen::Index j = 0; j < k; ++j) {
      const double v = std::strtod(row[static_cast<std::size_t>(j)].c_str(),
                                   nullptr);
      c.check(v == x(i, j) || (std::isnan(v) && std::isnan(x(i, j))),
              "entry " + row[static_cast<std::size_t>(j)]);
    }
  }
  c.nontrivial(r > 1 && k > 1);
}

PBT_CHECK(rows_and_maps, 150000, 800000,
          "to_map, write_row and write_header for random dictionaries, "
          "orders of columns and missing ones, in sequence on one stream; "
          "non-trivial: a missing and a present column.") {
  const std::size_t n = 1 + c.size(0, 5);
  std::vector<std::string> columns;
  for (std::size_t i = 0; i < n; ++i) {
    std::string name = c.ident(4);
    while (std::count(columns.begin(), columns.end(), name))
      name += "x";
    columns.push_back(name);
  }
  std::vector<Row> rows;
  bool missing = false, present = false;
  const std::size_t m = c.size(0, 4);
  const std::string text = written(c, "", [&](std::ostream &o) {
    write_header(o, columns);
    for (std::size_t i = 0; i < m; ++i) {
      Row row;
      std::map<std::string, std::string> out;
      for (const auto &col : columns) {
        if (c.chance(1, 3)) {
          missing = true;
          continue;
        }
        out[col] = any_text(c);
        row[col] = txt(out[col]);
        present = true;
      }
      out["not a column"] = "x";
      write_row(o, out, columns);
      rows.push_back(row);
    }
  });
  c.note() << text;
  c.sync();
  const auto csv = read_csv(text);
  c.eq(csv.size(), m + 1, "lines");
  c.check(csv[0] == columns, "header");
  check_rows(c, csv, 1, columns, rows);

  const double f = any_number(c), y = any_number(c), v = any_number(c),
               p = any_number(c), q = any_number(c);
  const auto map = to_map(f, y, v, p, q);
  Row want;
  want["feature"] = num(f);
  want["target"] = num(y);
  want["target_variance"] = num(v);
  want["prediction"] = num(p);
  want["prediction_variance"] = num(q);
  c.eq(map.size(), want.size(), "columns of a number");
  for (const auto &kv : map)
    check_cell(c, kv.second, want, kv.first, "to_map");
  c.nontrivial(missing && present);
}
