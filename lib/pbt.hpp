// A small property-based testing engine.
//
// * Every random decision of a case is drawn through pbt::Src, which records
//   it as an integer choice (0 is always the simplest alternative).  A case is
//   therefore a pure function of its choice sequence; a replay file is that
//   sequence, and shrinking works on the sequence (delete chunks, lower
//   values), re-running the real code for each attempt.
// * Cases run in forked workers.  The sequence of the case in progress lives
//   in shared memory, so an abort, a segfault, a sanitizer report or a hang in
//   the code under test is attributed to its exact input, shrunk and replayed
//   like any other failure.
// * Case seeds depend only on (VERIF_SEED, check name, index): results do not
//   depend on the number of workers or on timing.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};
struct Discard {};
// A violation listed as a known finding: reported as such, never as a failure,
// if (and only if) the id is in known_findings.txt.
struct Known {
  std::string id;
  std::string msg;
};

inline std::string str(double x) {
  std::ostringstream o;
  o.precision(17);
  o << x;
  return o.str();
}

struct Shared; // see pbt.cc

class Src {
public:
  // random mode
  Src(std::uint64_t seed, Shared *shared) : rng_(seed), shared_(shared) {}
  // replay mode
  Src(std::vector<std::uint64_t> choices, Shared *shared)
      : replay_(true), in_(std::move(choices)), shared_(shared) {}

  // uniform in [0, bound], 0 is simplest
  std::uint64_t draw(std::uint64_t bound) {
    std::uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (v > bound)
        v = bound;
    } else {
      std::uint64_t r = next();
      v = (bound == std::numeric_limits<std::uint64_t>::max())
              ? r
              : static_cast<std::uint64_t>(
                    (static_cast<unsigned __int128>(r) * (bound + 1)) >> 64);
    }
    ++pos_;
    record(v);
    return v;
  }

  const std::vector<std::uint64_t> &choices() const { return out_; }

private:
  std::uint64_t next() { // splitmix64
    std::uint64_t z = (rng_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  void record(std::uint64_t v);

  bool replay_ = false;
  std::uint64_t rng_ = 0;
  std::vector<std::uint64_t> in_, out_;
  std::size_t pos_ = 0;
  Shared *shared_;
};

// set in replayed / shrunk executions, so that the description of a case that
// crashes is not lost
extern void (*note_hook)(const std::string &);

class Case {
public:
  Case(Src &s) : src(s) {}
  Src &src;

  // ---- generation -------------------------------------------------------
  // integer in [lo, hi]; lo is simplest
  long i(long lo, long hi) {
    return lo + static_cast<long>(
                    src.draw(static_cast<std::uint64_t>(hi) -
                             static_cast<std::uint64_t>(lo)));
  }
  // size in [lo, hi], biased towards small sizes
  std::size_t size(std::size_t lo, std::size_t hi) {
    if (hi <= lo + 3)
      return lo + src.draw(hi - lo);
    if (src.draw(3) == 0)
      return lo + src.draw(3);
    return lo + src.draw(hi - lo);
  }
  // size in [lo, hi], but now and then up to `big`
  std::size_t usually(std::size_t lo, std::size_t hi, std::size_t big,
                      unsigned once_in = 200) {
    return chance(1, once_in) ? hi + src.draw(big - hi) : size(lo, hi);
  }
  bool coin() { return src.draw(1) == 1; }
  // true with probability num/den (false is simplest)
  bool chance(unsigned num, unsigned den) {
    return src.draw(den - 1) >= den - num;
  }
  std::uint64_t u64() { return src.draw(~0ull); }
  // real in [lo, hi]; lo is simplest
  double real(double lo, double hi) {
    return lo + (hi - lo) * (static_cast<double>(src.draw(1ull << 30)) /
                             static_cast<double>(1ull << 30));
  }
  // real symmetric about 0, 0 is simplest
  double sym(double mag) {
    double v = real(0, mag);
    return coin() ? -v : v;
  }
  // log uniform in [lo, hi]
  double logreal(double lo, double hi) {
    return std::exp(real(std::log(lo), std::log(hi)));
  }
  // approximately standard normal (bounded at 6)
  double gauss() {
    double s = 0;
    for (int k = 0; k < 4; ++k)
      s += real(-1, 1);
    return s * std::sqrt(3.0 / 4.0);
  }
  template <typename T> const T &pick(const std::vector<T> &xs) {
    return xs[src.draw(xs.size() - 1)];
  }
  template <typename T> T pick(std::initializer_list<T> xs) {
    return *(xs.begin() + src.draw(xs.size() - 1));
  }
  template <typename T> void shuffle(std::vector<T> &xs) {
    for (std::size_t k = xs.size(); k > 1; --k) {
      std::size_t j = k - 1 - src.draw(k - 1);
      const T tmp = xs[k - 1];
      xs[k - 1] = static_cast<T>(xs[j]);
      xs[j] = tmp;
    }
  }
  std::vector<std::size_t> permutation(std::size_t n) {
    std::vector<std::size_t> p(n);
    for (std::size_t k = 0; k < n; ++k)
      p[k] = k;
    shuffle(p);
    return p;
  }
  // strictly increasing subset of [0, n)
  std::vector<std::size_t> subset(std::size_t n) {
    std::vector<std::size_t> out;
    for (std::size_t k = 0; k < n; ++k)
      if (coin())
        out.push_back(k);
    return out;
  }
  std::string str(std::size_t max_len) {
    static const std::string alphabet =
        "abzAZ09_ ,;\"'\\/\n\t.-+e{}[]:<>&\x01\x7f\xc3\xa9";
    std::string s;
    std::size_t n = size(0, max_len);
    for (std::size_t k = 0; k < n; ++k)
      s.push_back(alphabet[src.draw(alphabet.size() - 1)]);
    return s;
  }
  std::string ident(std::size_t max_len) {
    static const std::string alphabet = "abcdefgxyz_0129";
    std::string s;
    std::size_t n = 1 + size(0, max_len - 1);
    for (std::size_t k = 0; k < n; ++k)
      s.push_back(k == 0 ? "abcxyz"[src.draw(5)]
                         : alphabet[src.draw(alphabet.size() - 1)]);
    return s;
  }

  // ---- bookkeeping ------------------------------------------------------
  void discard() { throw Discard{}; }
  void assume(bool b) {
    if (!b)
      throw Discard{};
  }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const std::string &l) { labels.insert(l); }
  void label_if(bool b, const std::string &l) {
    if (b)
      labels.insert(l);
  }
  // free-form description of the case, shown in samples and replay files
  std::ostringstream &note() { return note_; }
  template <typename T> Case &show(const std::string &name, const T &v) {
    note_ << name << "=" << v << " ";
    sync();
    return *this;
  }
  template <typename T>
  Case &showv(const std::string &name, const std::vector<T> &v) {
    note_ << name << "=[";
    for (std::size_t k = 0; k < v.size() && k < 24; ++k)
      note_ << (k ? " " : "") << v[k];
    if (v.size() > 24)
      note_ << " ..";
    note_ << "] ";
    sync();
    return *this;
  }
  void sync() {
    if (note_hook)
      note_hook(note_.str());
  }

  // ---- oracles ----------------------------------------------------------
  void fail(const std::string &msg) { throw Fail{msg}; }
  void check(bool ok, const std::string &msg) {
    if (!ok)
      throw Fail{msg};
  }
  template <typename A, typename B>
  void eq(const A &a, const B &b, const std::string &msg) {
    if (!(a == b)) {
      std::ostringstream o;
      o.precision(17);
      o << msg << ": got " << a << " expected " << b;
      throw Fail{o.str()};
    }
  }
  // |a - b| <= atol + rtol * |b|; NaN equals NaN, inf equals inf
  void near(double a, double b, double rtol, double atol,
            const std::string &msg) {
    if (std::isnan(a) && std::isnan(b))
      return;
    if (a == b)
      return;
    if (!(std::fabs(a - b) <= atol + rtol * std::fabs(b))) {
      std::ostringstream o;
      o.precision(17);
      o << msg << ": got " << a << " expected " << b << " (difference "
        << a - b << ", allowed " << atol + rtol * std::fabs(b) << ")";
      throw Fail{o.str()};
    }
  }
  void near(double a, double b, double atol, const std::string &msg) {
    near(a, b, 0., atol, msg);
  }
  // entry-wise, with an absolute tolerance scaled by the larger of the two
  template <typename MA, typename MB>
  void near_mat(const MA &a, const MB &b, double tol, const std::string &msg) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) {
      std::ostringstream o;
      o << msg << ": shape " << a.rows() << "x" << a.cols() << " expected "
        << b.rows() << "x" << b.cols();
      throw Fail{o.str()};
    }
    double scale = 0;
    for (long r = 0; r < b.rows(); ++r)
      for (long k = 0; k < b.cols(); ++k)
        scale = std::max(scale, std::fabs(b(r, k)));
    for (long r = 0; r < b.rows(); ++r)
      for (long k = 0; k < b.cols(); ++k) {
        double d = std::fabs(a(r, k) - b(r, k));
        if (!(d <= tol * (1 + scale)) && !(a(r, k) == b(r, k))) {
          std::ostringstream o;
          o.precision(17);
          o << msg << ": entry (" << r << "," << k << ") got " << a(r, k)
            << " expected " << b(r, k) << " (allowed " << tol * (1 + scale)
            << ")";
          throw Fail{o.str()};
        }
      }
  }

  std::set<std::string> labels;
  bool is_nontrivial() const { return nontrivial_; }
  std::string notes() const { return note_.str(); }

private:
  bool nontrivial_ = false;
  std::ostringstream note_;
};

// Runs f in a forked child; true if the child was ended by a signal or exited
// abnormally (an assertion of the code under test, say).  An exception thrown
// by f counts as rejection too when exceptions_count.
bool rejects(const std::function<void()> &f, bool exceptions_count = true);

struct Check {
  std::string name;
  std::string rule; // what is generated and what makes a case non-trivial
  long quick;       // cases in the quick tier
  long thorough;    // cases in the thorough tier
  int attempts;     // >1 only for schedule dependent checks: a replay fails if
                    // any of this many executions fails
  void (*fn)(Case &);
};

std::vector<Check> &registry();

struct Register {
  Register(Check c) { registry().push_back(std::move(c)); }
};

} // namespace pbt

#define PBT_CHECK_N(NAME, QUICK, THOROUGH, ATTEMPTS, RULE)                     \
  static void pbt_case_##NAME(pbt::Case &c);                                   \
  static pbt::Register pbt_register_##NAME(pbt::Check{                         \
      #NAME, RULE, QUICK, THOROUGH, ATTEMPTS, &pbt_case_##NAME});              \
  static void pbt_case_##NAME(pbt::Case &c)

#define PBT_CHECK(NAME, QUICK, THOROUGH, RULE)                                 \
  PBT_CHECK_N(NAME, QUICK, THOROUGH, 1, RULE)

#endif
