// Writing objects to archives and reading them back.
#ifndef VERIF_ROUNDTRIP_HPP
#define VERIF_ROUNDTRIP_HPP
#include <cstring>
#include <sstream>

namespace roundtrip {

// what was read, or not, without the reason
enum class Read { OK, FAILED };

template <typename Out, typename... T> std::string write(const T &...x) {
  std::ostringstream os;
  {
    Out archive(os);
    archive(x...);
  }
  return os.str();
}

template <typename In, typename... T> Read read(const std::string &bytes, T &...x) {
  std::istringstream is(bytes);
  try {
    In archive(is);
    archive(x...);
  } catch (const std::exception &) {
    return Read::FAILED;
  }
  return Read::OK;
}

// Same writes two objects down to the last bit
template <typename In, typename Out, typename T, typename Same>
void check_archive(pbt::Case &c, const std::string &format, const T &a, const T &b, T used, const Same &same, bool truncate) {
  const int between = static_cast<int>(c.i(-1000, 1000));
  const double after = c.gauss();
  const T before = a;
  const std::string bytes = write<Out>(a, between, b, after);
  c.check(same(a, before), format + ": writing changes the object");
  c.check(write<Out>(a, between, b, after) == bytes, format + ": written differently the second time");
  T first, second = used;
  int between_read = 0;
  double after_read = 0;
  c.check(read<In>(bytes, first, between_read, second, after_read) == Read::OK, format + ": cannot be read");
  c.check(same(first, a), format + ": another object was read");
  c.check(same(second, b), format + ": another object was read into one in use");
  c.check(between_read == between && after_read == after, format + ": what follows an object");
  c.check(write<Out>(first, between, second, after) == bytes, format + ": the object read is written differently");
  if (truncate) {
    const std::string one = write<Out>(a);
    if (one.size() > 1) {
      const std::size_t n = c.src.draw(one.size() - 1);
      // closing characters of a text say nothing
      const bool text = one.find_last_not_of(" \n}]") < n;
      T part = used;
      c.check((text && format == "json") || read<In>(one.substr(0, n), part) == Read::FAILED,
              format + ": " + std::to_string(n) + " of " + std::to_string(one.size()) + " bytes are read");
    }
  }
}

template <typename T, typename Same>
void check(pbt::Case &c, const T &a, const T &b, const T &used, const Same &same, bool truncate = true) {
  const T x = a, y = b; // writing may change them
  std::string text = write<cereal::JSONOutputArchive>(x, y), shown;
  for (const char k : text)
    if (k != 10 && !(k == 32 && !shown.empty() && shown.back() == 32))
      shown += k;
  c.show("objects", shown.substr(0, 1500));
  check_archive<cereal::JSONInputArchive, cereal::JSONOutputArchive>(c, "json", a, b, used, same, truncate);
  check_archive<cereal::BinaryInputArchive, cereal::BinaryOutputArchive>(c, "binary", a, b, used, same, truncate);
  check_archive<cereal::PortableBinaryInputArchive, cereal::PortableBinaryOutputArchive>(c, "portable", a, b, used, same, truncate);
}

// ---- the same content ------------------------------------------------------
inline bool same(double a, double b) { return std::memcmp(&a, &b, sizeof(a)) == 0 || (std::isnan(a) && std::isnan(b)); }
inline bool same(const std::string &a, const std::string &b) { return a == b; }
inline bool same(int a, int b) { return a == b; }

template <typename S, int R, int C>
bool same(const Eigen::Matrix<S, R, C> &a, const Eigen::Matrix<S, R, C> &b) {
  return a.rows() == b.rows() && a.cols() == b.cols() &&
         (a.size() == 0 || std::memcmp(a.data(), b.data(), static_cast<std::size_t>(a.size()) * sizeof(S)) == 0);
}
template <typename S>
bool same(const Eigen::SparseMatrix<S> &a, const Eigen::SparseMatrix<S> &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols() || a.nonZeros() != b.nonZeros())
    return false;
  for (Eigen::Index k = 0; k < a.outerSize(); ++k) {
    typename Eigen::SparseMatrix<S>::InnerIterator x(a, k), y(b, k);
    for (; x && y; ++x, ++y)
      if (x.row() != y.row() || std::memcmp(&x.value(), &y.value(), sizeof(S)) != 0)
        return false;
    if (x || y)
      return false;
  }
  return true;
}
inline bool same(const albatross::MarginalDistribution &a, const albatross::MarginalDistribution &b) {
  return same(a.mean, b.mean) && same(Eigen::VectorXd(a.covariance.diagonal()), Eigen::VectorXd(b.covariance.diagonal())) && a.metadata == b.metadata;
}
inline bool same(const albatross::JointDistribution &a, const albatross::JointDistribution &b) {
  return same(a.mean, b.mean) && same(a.covariance, b.covariance) && a.metadata == b.metadata;
}
template <typename T> bool same(const std::vector<T> &a, const std::vector<T> &b) {
  if (a.size() != b.size())
    return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i]))
      return false;
  return true;
}
template <typename F>
bool same(const albatross::RegressionDataset<F> &a, const albatross::RegressionDataset<F> &b) {
  return same(a.features, b.features) && same(a.targets, b.targets) && a.metadata == b.metadata;
}
inline bool same(const Eigen::SerializableLDLT &a, const Eigen::SerializableLDLT &b) {
  if (a.rows() != b.rows() || a.is_initialized() != b.is_initialized())
    return false;
  const Eigen::MatrixXd l = a.matrixLDLT().triangularView<Eigen::Lower>(), m = b.matrixLDLT().triangularView<Eigen::Lower>();
  return same(l, m) && same(Eigen::VectorXi(a.transpositionsP().indices().cast<int>()), Eigen::VectorXi(b.transpositionsP().indices().cast<int>()));
}

// ---- content ---------------------------------------------------------------
inline double number(pbt::Case &c) {
  if (c.chance(1, 4))
    return c.pick<double>({0., -0., 1e308, -1e308, 5e-324, -2.2250738585072014e-308, HUGE_VAL, -HUGE_VAL, std::numeric_limits<double>::quiet_NaN(), 0.1, 1. / 3, 4503599627370497.5});
  return c.coin() ? c.gauss() : c.sym(1e6);
}
inline double finite(pbt::Case &c) {
  const double x = number(c);
  return std::isfinite(x) ? x : 1.5;
}
inline std::string word(pbt::Case &c) {
  std::string s;
  const std::size_t n = c.usually(0, 8, 100);
  static const std::vector<std::string> some = {"a", "B", "0", " ", "\"", "\\", "/", "{", "}", "\n", "\t", "\xc3\xa9", "\x01", "\x7f", ",", ":"};
  for (std::size_t i = 0; i < n; ++i)
    s += c.pick(some);
  return s;
}
inline std::map<std::string, std::string> metadata(pbt::Case &c) {
  std::map<std::string, std::string> m;
  const std::size_t n = c.size(0, 3);
  for (std::size_t i = 0; i < n; ++i)
    m[word(c)] = word(c);
  return m;
}
template <typename M> M matrix(pbt::Case &c, std::size_t rows, std::size_t cols) {
  M m(static_cast<Eigen::Index>(rows), static_cast<Eigen::Index>(cols));
  for (Eigen::Index j = 0; j < m.cols(); ++j)
    for (Eigen::Index i = 0; i < m.rows(); ++i)
      m(i, j) = static_cast<typename M::Scalar>(std::is_integral<typename M::Scalar>::value ? static_cast<double>(c.i(-1000000, 1000000)) : number(c));
  return m;
}
inline Eigen::VectorXd vector(pbt::Case &c, std::size_t n) {
  Eigen::VectorXd v(static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < v.size(); ++i)
    v[i] = number(c);
  return v;
}
} // namespace roundtrip
#endif
