// Features, leaf covariance/mean functions and the interpreted model they are
// compared to.
#ifndef C09_COMMON_HPP
#define C09_COMMON_HPP
#include <albatross/CovarianceFunctions>
#include <memory>
#include <optional>
#include "gen.hpp"

namespace c09 {
using namespace albatross;

// ---------------------------------------------------------------- features
template <int T> struct F {
  double v;
  bool operator==(const F &o) const { return v == o.v; }
};
using X = F<0>;
using Y = F<1>;
using W = F<2>;

struct Feature { // the model's view of any feature
  enum Kind { LEAF, MEAS, COMBO } kind;
  int type;
  double v;
  std::vector<std::pair<double, Feature>> parts; // MEAS has one
};

inline std::string text(const Feature &f) {
  if (f.kind == Feature::LEAF)
    return std::string(1, "XYW"[f.type]) + "(" + pbt::str(f.v) + ")";
  std::string s = f.kind == Feature::MEAS ? "meas[" : "sum[";
  for (const auto &p : f.parts)
    s += (f.kind == Feature::MEAS ? "" : " " + pbt::str(p.first) + "*") + text(p.second);
  return s + "]";
}

template <typename T> struct Gen;

template <int T> struct Gen<F<T>> {
  static std::pair<F<T>, Feature> make(pbt::Case &c) {
    const double v = c.chance(1, 8) ? 1e3 : 0.5 * static_cast<double>(c.i(-3, 3));
    return {F<T>{v}, Feature{Feature::LEAF, T, v, {}}};
  }
};

template <typename T> struct Gen<Measurement<T>> {
  static std::pair<Measurement<T>, Feature> make(pbt::Case &c) {
    auto p = Gen<T>::make(c);
    return {Measurement<T>(p.first), Feature{Feature::MEAS, 0, 0, {{1., p.second}}}};
  }
};

template <typename T> struct Gen<LinearCombination<T>> {
  static std::pair<LinearCombination<T>, Feature> make(pbt::Case &c) {
    const std::size_t n = 1 + c.size(0, 3);
    std::vector<T> values;
    Eigen::VectorXd coefs(static_cast<Eigen::Index>(n));
    Feature f{Feature::COMBO, 0, 0, {}};
    for (std::size_t i = 0; i < n; ++i) {
      auto p = Gen<T>::make(c);
      values.push_back(p.first);
      const double k = c.pick<double>({1., -1., 0.5, 2., 0.});
      coefs[static_cast<Eigen::Index>(i)] = k;
      f.parts.push_back({k, p.second});
    }
    return {LinearCombination<T>(values, coefs), f};
  }
};

template <typename... Ts> struct Gen<variant<Ts...>> {
  static std::pair<variant<Ts...>, Feature> make(pbt::Case &c) {
    using Out = std::pair<variant<Ts...>, Feature>;
    const std::vector<Out (*)(pbt::Case &)> makers = {&one<Ts>...};
    return makers[c.src.draw(makers.size() - 1)](c);
  }
  template <typename T> static std::pair<variant<Ts...>, Feature> one(pbt::Case &c) {
    auto p = Gen<T>::make(c);
    return {variant<Ts...>(p.first), p.second};
  }
};

// ------------------------------------------------------------ the model
// An expression is a tree; evaluating it gives nothing where it is undefined.
struct Expr;
using ExprPtr = std::shared_ptr<const Expr>;
struct Expr {
  enum Kind { LEAF, SUM, PRODUCT, MEAS_ONLY, SCALE } kind;
  ExprPtr a, b;
  std::function<std::optional<double>(int, double, int, double)> leaf;
  std::function<std::optional<double>(int, double)> scale; // also for means
};
using Maybe = std::optional<double>;

struct Leafish {
  int type;
  double v;
  bool measured;
};

inline Maybe eval(const Expr &e, const Leafish &f, const Leafish &g) {
  switch (e.kind) {
  case Expr::LEAF: {
    Maybe r = e.leaf(f.type, f.v, g.type, g.v);
    return r ? r : e.leaf(g.type, g.v, f.type, f.v);
  }
  case Expr::SUM: {
    const Maybe x = eval(*e.a, f, g), y = eval(*e.b, f, g);
    if (x && y)
      return *x + *y;
    return x ? x : y;
  }
  case Expr::PRODUCT: {
    const Maybe x = eval(*e.a, f, g), y = eval(*e.b, f, g);
    if (x && y)
      return *x * *y;
    // a scaling on its own does not define a covariance
    if (e.a->kind == Expr::SCALE)
      return y;
    if (e.b->kind == Expr::SCALE)
      return x;
    return x ? x : y;
  }
  case Expr::MEAS_ONLY: {
    const Maybe x = eval(*e.a, f, g);
    if (!x)
      return x;
    return f.measured && g.measured ? *x : 0.;
  }
  case Expr::SCALE: {
    const Maybe x = e.scale(f.type, f.v), y = e.scale(g.type, g.v);
    if (x && y)
      return *x * *y;
    return x ? x : y;
  }
  }
  return {};
}

// flattens a feature into coefficients and leaves; a measured combination is
// a combination (its parts are not measurements themselves)
inline std::vector<std::pair<double, Leafish>> flatten(const Feature &f) {
  if (f.kind == Feature::LEAF)
    return {{1., Leafish{f.type, f.v, false}}};
  if (f.kind == Feature::MEAS) {
    auto inner = flatten(f.parts[0].second);
    if (f.parts[0].second.kind == Feature::LEAF)
      inner[0].second.measured = true;
    return inner;
  }
  std::vector<std::pair<double, Leafish>> out;
  for (const auto &p : f.parts)
    for (const auto &q : flatten(p.second))
      out.push_back({p.first * q.first, q.second});
  return out;
}

struct Sum2 {
  double value = 0, mag = 0;
  bool any = false;
  bool all = true;
};

inline Sum2 eval(const Expr &e, const Feature &f, const Feature &g) {
  Sum2 s;
  for (const auto &x : flatten(f))
    for (const auto &y : flatten(g)) {
      const Maybe m = eval(e, x.second, y.second);
      s.any = s.any || m.has_value();
      s.all = s.all && m.has_value();
      const double t = x.first * y.first * m.value_or(0.);
      s.value += t;
      s.mag += std::fabs(t);
    }
  return s;
}

inline Maybe eval_mean(const Expr &e, const Leafish &f) {
  if (e.kind == Expr::LEAF)
    return e.scale(f.type, f.v);
  const Maybe x = eval_mean(*e.a, f), y = eval_mean(*e.b, f);
  if (x && y)
    return e.kind == Expr::SUM ? *x + *y : *x * *y;
  return x ? x : y;
}

inline Sum2 eval_mean(const Expr &e, const Feature &f) {
  Sum2 s;
  for (const auto &x : flatten(f)) {
    const Maybe m = eval_mean(e, x.second);
    s.any = s.any || m.has_value();
    s.all = s.all && m.has_value();
    const double t = x.first * m.value_or(0.);
    s.value += t;
    s.mag += std::fabs(t);
  }
  return s;
}

// ------------------------------------------------- functions under test
inline double kernel(double p, double x, double y) {
  return p * (0.3 + std::exp(-0.5 * std::fabs(x - y))) + 0.01 * x * y;
}

class AllXY : public CovarianceFunction<AllXY> { // XX, XY, YY
public:
  AllXY(double p_ = 1.) : p(p_) {}
  std::string name() const { return "all_xy"; }
  double _call_impl(const X &x, const X &y) const { return kernel(p, x.v, y.v); }
  double _call_impl(const X &x, const Y &y) const { return kernel(2 * p, x.v, y.v + 0.25); }
  double _call_impl(const Y &x, const Y &y) const { return kernel(3 * p, x.v, y.v); }
  static Maybe model(double p, int s, double x, int t, double y) {
    if (s == 0 && t == 0)
      return kernel(p, x, y);
    if (s == 0 && t == 1)
      return kernel(2 * p, x, y + 0.25);
    if (s == 1 && t == 1)
      return kernel(3 * p, x, y);
    return {};
  }
  double p;
};

class OnlyX : public CovarianceFunction<OnlyX> { // XX
public:
  OnlyX(double p_ = 1.) : p(p_) {}
  std::string name() const { return "only_x"; }
  double _call_impl(const X &x, const X &y) const { return kernel(-p, x.v, 2 * y.v) + kernel(-p, y.v, 2 * x.v); }
  static Maybe model(double p, int s, double x, int t, double y) {
    if (s == 0 && t == 0)
      return kernel(-p, x, 2 * y) + kernel(-p, y, 2 * x);
    return {};
  }
  double p;
};

class YAndW : public CovarianceFunction<YAndW> { // WY, WW, YY
public:
  YAndW(double p_ = 1.) : p(p_) {}
  std::string name() const { return "y_and_w"; }
  double _call_impl(const W &x, const Y &y) const { return kernel(p, x.v, -y.v); }
  double _call_impl(const W &x, const W &y) const { return kernel(p + 1, x.v, y.v); }
  double _call_impl(const Y &x, const Y &y) const { return kernel(p + 2, x.v, y.v); }
  static Maybe model(double p, int s, double x, int t, double y) {
    if (s == 2 && t == 1)
      return kernel(p, x, -y);
    if (s == 2 && t == 2)
      return kernel(p + 1, x, y);
    if (s == 1 && t == 1)
      return kernel(p + 2, x, y);
    return {};
  }
  double p;
};

class Sometimes : public CovarianceFunction<Sometimes> { // XX, XW; often 0
public:
  Sometimes(double p_ = 1.) : p(p_) {}
  std::string name() const { return "sometimes"; }
  double _call_impl(const X &x, const X &y) const { return x.v == y.v ? p : 0.; }
  double _call_impl(const X &x, const W &y) const { return x.v == y.v ? -p : 0.; }
  static Maybe model(double p, int s, double x, int t, double y) {
    if (s == 0 && t == 0)
      return x == y ? p : 0.;
    if (s == 0 && t == 2)
      return x == y ? -p : 0.;
    return {};
  }
  double p;
};

// scaling of X only, and of everything
class ScaleX : public ScalingFunction {
public:
  ScaleX(double p_ = 1.) : p(p_) {}
  std::string get_name() const override { return "scale_x"; }
  double _call_impl(const X &x) const { return p + 0.1 * x.v; }
  static Maybe model(double p, int s, double x) {
    return s == 0 ? Maybe(p + 0.1 * x) : Maybe();
  }
  double p;
};

class ScaleAll : public ScalingFunction {
public:
  ScaleAll(double p_ = 1.) : p(p_) {}
  std::string get_name() const override { return "scale_all"; }
  template <int T> double _call_impl(const F<T> &x) const { return p * T - 0.2 * x.v; }
  static Maybe model(double p, int s, double x) { return p * s - 0.2 * x; }
  double p;
};

// mean functions
class MeanX : public MeanFunction<MeanX> {
public:
  MeanX(double p_ = 1.) : p(p_) {}
  std::string name() const { return "mean_x"; }
  double _call_impl(const X &x) const { return p + x.v; }
  static Maybe model(double p, int s, double x) { return s == 0 ? Maybe(p + x) : Maybe(); }
  double p;
};
class MeanXY : public MeanFunction<MeanXY> {
public:
  MeanXY(double p_ = 1.) : p(p_) {}
  std::string name() const { return "mean_xy"; }
  double _call_impl(const X &x) const { return p * x.v; }
  double _call_impl(const Y &x) const { return p * x.v - 1; }
  static Maybe model(double p, int s, double x) {
    return s == 0 ? Maybe(p * x) : s == 1 ? Maybe(p * x - 1) : Maybe();
  }
  double p;
};
class MeanW : public MeanFunction<MeanW> {
public:
  MeanW(double p_ = 1.) : p(p_) {}
  std::string name() const { return "mean_w"; }
  double _call_impl(const W &x) const { return p - x.v; }
  static Maybe model(double p, int s, double x) { return s == 2 ? Maybe(p - x) : Maybe(); }
  double p;
};

// a function together with its model
template <typename T> struct Both {
  T f;
  ExprPtr e;
  // true where a measured combination means something else than a combination
  bool has_measurement_only = false;
};

template <typename T> Both<T> leaf(pbt::Case &c) {
  const double p = c.pick<double>({1., 2., 0.5, 3.});
  auto e = std::make_shared<Expr>();
  e->kind = Expr::LEAF;
  e->leaf = [p](int s, double x, int t, double y) { return T::model(p, s, x, t, y); };
  return {T(p), e};
}
template <typename T> Both<ScalingTerm<T>> scaling(pbt::Case &c) {
  const double p = c.pick<double>({1., 2., 0.5, 3., 0.});
  auto e = std::make_shared<Expr>();
  e->kind = Expr::SCALE;
  e->scale = [p](int s, double x) { return T::model(p, s, x); };
  return {ScalingTerm<T>(T(p)), e};
}
template <typename T> Both<T> mean_leaf(pbt::Case &c) {
  const double p = c.pick<double>({1., 2., -0.5, 3., 0.});
  auto e = std::make_shared<Expr>();
  e->kind = Expr::LEAF;
  e->scale = [p](int s, double x) { return T::model(p, s, x); };
  return {T(p), e};
}
inline Both<ZeroMean> zero_mean() {
  auto e = std::make_shared<Expr>();
  e->kind = Expr::LEAF;
  e->scale = [](int, double) { return 0.; };
  return {ZeroMean(), e};
}
inline Both<Constant> constant(pbt::Case &c) {
  const double p = c.pick<double>({1., 2., 0.5});
  auto e = std::make_shared<Expr>();
  e->kind = Expr::LEAF;
  e->leaf = [p](int, double, int, double) { return p * p; };
  return {Constant(p), e};
}
template <typename T> Both<IndependentNoise<T>> noise(pbt::Case &c, int type) {
  const double p = c.pick<double>({1., 2., 0.5});
  auto e = std::make_shared<Expr>();
  e->kind = Expr::LEAF;
  e->leaf = [p, type](int s, double x, int t, double y) -> Maybe {
    if (s != type || t != type)
      return {};
    return x == y ? p * p : 0.;
  };
  return {IndependentNoise<T>(p), e};
}
template <typename T, typename U> auto operator+(const Both<T> &a, const Both<U> &b) {
  auto e = std::make_shared<Expr>();
  e->kind = Expr::SUM;
  e->a = a.e;
  e->b = b.e;
  using R = std::decay_t<decltype(a.f + b.f)>;
  return Both<R>{a.f + b.f, e};
}
template <typename T, typename U> auto operator*(const Both<T> &a, const Both<U> &b) {
  auto e = std::make_shared<Expr>();
  e->kind = Expr::PRODUCT;
  e->a = a.e;
  e->b = b.e;
  using R = std::decay_t<decltype(a.f * b.f)>;
  return Both<R>{a.f * b.f, e};
}
template <typename T> auto only_measured(const Both<T> &a) {
  auto e = std::make_shared<Expr>();
  e->kind = Expr::MEAS_ONLY;
  e->a = a.e;
  using R = std::decay_t<decltype(measurement_only(a.f))>;
  return Both<R>{measurement_only(a.f), e};
}

// --------------------------------------------------------------- checks
template <typename... Ts> struct Types {};
using Plain = Types<X, Y, W, Measurement<X>, Measurement<Y>, Measurement<W>>;
using VXY = variant<X, Y>;
using Wrapped =
    Types<X, W, Measurement<Y>, LinearCombination<X>, LinearCombination<Y>,
          VXY, variant<X, Y, W>, variant<X, Measurement<Y>, Measurement<W>>,
          LinearCombination<VXY>, Measurement<LinearCombination<X>>,
          Measurement<LinearCombination<VXY>>,
          variant<X, LinearCombination<Y>, Measurement<X>,
                  Measurement<LinearCombination<X>>>>;

template <typename T> struct has_variant : std::false_type {};
template <typename... Ts> struct has_variant<variant<Ts...>> : std::true_type {};
template <typename T> struct has_variant<LinearCombination<T>> : has_variant<T> {};
template <typename T> struct has_variant<Measurement<T>> : has_variant<T> {};

template <typename T> const char *kind_name() {
  return has_variant<T>::value ? "variant" : "plain";
}

inline double tolerance(const Sum2 &s) { return 1e-12 * (1 + s.mag); }

// every type of the list with every other; what is defined where; symmetry
template <typename S, typename T, typename C>
void check_pair(pbt::Case &c, const Both<C> &both) {
  const auto x = Gen<S>::make(c);
  const auto y = Gen<T>::make(c);
  const Sum2 ref = eval(*both.e, x.second, y.second);
  constexpr bool ok = has_valid_caller<C, S, T>::value;
  constexpr bool mixed = has_variant<S>::value || has_variant<T>::value;
  const std::string what = text(x.second) + " , " + text(y.second);
  if (!mixed)
    c.eq(ok, ref.all, "is defined for " + what);
  else if (!has_variant<S>::value || !has_variant<T>::value)
    // (two variants need all of their alternatives to be defined)
    c.check(ok || !ref.any, "is not defined for " + what + " types " + __PRETTY_FUNCTION__);
  c.eq(ok, has_valid_caller<C, T, S>::value, "is defined for swapped " + what);
  if constexpr (ok) {
    c.note().str("");
    c.note() << " features " << what;
    c.sync();
    const double got = both.f(x.first, y.first);
    c.near(got, ref.value, tolerance(ref), "value at " + what);
    if constexpr (has_valid_caller<C, T, S>::value)
      c.near(both.f(y.first, x.first), ref.value, tolerance(ref), "value at swapped " + what);
    if (ref.any && ref.value != 0)
      c.nontrivial();
  }
}

template <typename S, typename T, typename C>
void check_matrix(pbt::Case &c, const Both<C> &both) {
  if constexpr (has_valid_caller<C, S, T>::value) {
    std::vector<S> xs;
    std::vector<T> ys;
    std::vector<Feature> fx, fy;
    const std::size_t n = c.usually(0, 3, 24, 100), m = c.usually(0, 3, 24, 100);
    // creating threads takes most of the time
    std::unique_ptr<ThreadPool> pool;
    if (c.chance(1, 300))
      pool = std::make_unique<ThreadPool>(c.size(2, 6));
    for (std::size_t i = 0; i < n; ++i) {
      auto p = Gen<S>::make(c);
      xs.push_back(p.first);
      fx.push_back(p.second);
    }
    for (std::size_t i = 0; i < m; ++i) {
      auto p = Gen<T>::make(c);
      ys.push_back(p.first);
      fy.push_back(p.second);
    }
    const Eigen::MatrixXd k = pool ? both.f(xs, ys, pool.get()) : both.f(xs, ys);
    c.eq(static_cast<std::size_t>(k.rows()), n, "rows");
    c.eq(static_cast<std::size_t>(k.cols()), m, "cols");
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < m; ++j) {
        const Sum2 ref = eval(*both.e, fx[i], fy[j]);
        c.near(k(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)),
               ref.value, tolerance(ref), "cross covariance entry " + text(fx[i]) + " , " + text(fy[j]));
      }
    if constexpr (std::is_same<S, T>::value) {
      const Eigen::MatrixXd q = pool ? both.f(xs, pool.get()) : both.f(xs);
      const Eigen::VectorXd d = both.f.diagonal(xs);
      c.check(q == Eigen::MatrixXd(q.transpose()), "covariance matrix is symmetric");
      for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
          const Sum2 ref = eval(*both.e, fx[i], fx[j]);
          const auto ii = static_cast<Eigen::Index>(i), jj = static_cast<Eigen::Index>(j);
          c.near(q(ii, jj), ref.value, tolerance(ref), "covariance entry");
          if (i == j)
            c.near(d[ii], ref.value, tolerance(ref), "diagonal entry");
        }
    }
  }
}

template <typename C, typename... Ss, typename... Ts>
void run_pairs(pbt::Case &c, const Both<C> &both, Types<Ss...>, Types<Ts...>) {
  using Fn = void (*)(pbt::Case &, const Both<C> &);
  std::vector<Fn> fns, mats;
  const auto row = [&](auto *tag) {
    using S = std::remove_pointer_t<decltype(tag)>;
    (fns.push_back(&check_pair<S, Ts, C>), ...);
  };
  (row(static_cast<Ss *>(nullptr)), ...);
  (mats.push_back(&check_matrix<Ss, Ss, C>), ...);
  mats.push_back(&check_matrix<X, VXY, C>);
  mats.push_back(&check_matrix<VXY, Measurement<Y>, C>);
  const std::size_t n = 1 + c.size(0, 3);
  for (std::size_t i = 0; i < n; ++i)
    fns[c.src.draw(fns.size() - 1)](c, both);
  if (c.chance(1, 3))
    mats[c.src.draw(mats.size() - 1)](c, both);
}

template <typename C> void run_cov(pbt::Case &c, const Both<C> &both) {
  c.label(both.f.get_name().size() > 40 ? "long expression" : "short expression");
  if (c.chance(1, 3))
    run_pairs(c, both, Plain{}, Plain{});
  else
    run_pairs(c, both, Wrapped{}, Wrapped{});
}

// the trace holds each part once, inset by its depth, with its own value
inline void collect(const Expr &e, std::vector<const Expr *> *out) {
  out->push_back(&e);
  if (e.kind == Expr::SUM || e.kind == Expr::PRODUCT) {
    collect(*e.a, out);
    collect(*e.b, out);
  }
}
template <typename S, typename T, typename C>
void check_trace(pbt::Case &c, const Both<C> &both) {
  const auto x = Gen<S>::make(c);
  const auto y = Gen<T>::make(c);
  const auto trace = both.f.call_trace().get_trace(x.first, y.first);
  std::vector<const Expr *> parts;
  collect(*both.e, &parts);
  c.eq(trace.size(), parts.size(), "number of parts in the call trace");
  for (std::size_t i = 0; i < parts.size(); ++i) {
    const Sum2 ref = eval(*parts[i], x.second, y.second);
    std::string v = trace[i].value;
    const auto at = v.find_last_of(' ');
    v = at == std::string::npos ? v : v.substr(at + 1);
    if (!ref.any)
      c.eq(v, std::string("UNDEFINED"), "undefined part in the trace");
    else
      c.near(std::atof(v.c_str()), ref.value, 1e-5 * (1 + std::fabs(ref.value)), "value of a part in the trace");
  }
  c.nontrivial(parts.size() > 1);
}

#define EXPRESSION(NAME, E)                                                    \
  PBT_CHECK(NAME, 150000, 2000000, "a pair of features where it is not zero") { \
    run_cov(c, E);                                                             \
    if (c.chance(1, 4)) {                                                      \
      check_trace<X, X>(c, E);                                                 \
      check_trace<Y, X>(c, E);                                                 \
      check_trace<W, Measurement<Y>>(c, E);                                    \
    }                                                                          \
  }
} // namespace c09
#endif
