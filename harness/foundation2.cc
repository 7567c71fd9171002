// F08..F18: scalar math, curves, control-flow graphs, initializers, small
// utilities, caches, cancellation, statuses, fingerprints, text forms.
#include <cfloat>
#include <cmath>
#include <deque>
#include <list>
#include <set>
#include <map>
#include <memory>
#include <any>
#include "boost/math/distributions/beta.hpp"
#include "boost/math/distributions/normal.hpp"
#include "boost/math/distributions/students_t.hpp"
#include "arolla/algorithm/control_flow_graph.h"
#include "arolla/pwlcurve/curves.h"
#include "arolla/qexpr/operators/bool/comparison.h"
#include "arolla/qexpr/operators/math/arithmetic.h"
#include "arolla/qexpr/operators/math/math.h"
#include "arolla/qexpr/operators/math_extra/cdf.h"
#include "arolla/util/cancellation.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/init_arolla_internal.h"
#include "arolla/util/lru_cache.h"
#include "arolla/util/map.h"
#include "arolla/util/operator_name.h"
#include "arolla/util/overflow.h"
#include "arolla/util/repr.h"
#include "arolla/util/status.h"
#include "arolla/util/string.h"
#include "arolla/util/switch_index.h"
#include "arolla/util/text.h"
#include "arolla/util/bytes.h"
#include "arolla/util/unit.h"
#include "pbt.h"

namespace ar = arolla;
using pbt::Src;

// ---------------------------------------------------------------- F08 ------
typedef __int128 i128;

template <class T>
static T Wrap(i128 v) { return static_cast<T>(static_cast<std::make_unsigned_t<T>>(v)); }

template <class T>
static void IntArith(Src& s) {
  T a = s.integer<T>(), b = s.integer<T>(), c = s.integer<T>();
  if (s.chance(1, 6)) b = a;
  if (s.chance(1, 6)) b = static_cast<T>(std::make_unsigned_t<T>(0) - static_cast<std::make_unsigned_t<T>>(a));
  s.note("a=", a, " b=", b, " c=", c);
  s.nontrivial();
  i128 A = a, B = b, C = c;
  PBT_ASSERT(ar::AddOp()(a, b) == Wrap<T>(A + B), "add");
  PBT_ASSERT(ar::AddOp()(a, b, c) == Wrap<T>(A + B + C), "add3");
  PBT_ASSERT(ar::AddOp()(a) == a, "add1");
  PBT_ASSERT(ar::SubtractOp()(a, b) == Wrap<T>(A - B), "subtract");
  PBT_ASSERT(ar::MultiplyOp()(a, b) == Wrap<T>(A * B), "multiply");
  PBT_ASSERT(ar::PosOp()(a) == a, "pos");
  PBT_ASSERT(ar::NegOp()(a) == Wrap<T>(-A), "neg");
  PBT_ASSERT(ar::AbsOp()(a) == Wrap<T>(A < 0 ? -A : A), "abs");
  auto d = ar::FloorDivOp()(a, b);
  auto m = ar::ModOp()(a, b);
  if (b == 0) {
    PBT_ASSERT(!d.ok() && d.status().code() == absl::StatusCode::kInvalidArgument, "floordiv by zero");
    PBT_ASSERT(!m.ok() && m.status().code() == absl::StatusCode::kInvalidArgument, "mod by zero");
  } else {
    i128 q = A / B;
    if ((A % B != 0) && ((A < 0) != (B < 0))) --q;
    PBT_ASSERT(d.ok() && *d == Wrap<T>(q), "floordiv got ", d.ok() ? *d : 0);
    PBT_ASSERT(m.ok() && *m == Wrap<T>(A - q * B), "mod got ", m.ok() ? *m : 0);
  }
}
PBT_TEST(F08_int_arith, 1600000, 60000000, "every case: two integers including the extreme values") {
  if (s.boolean()) IntArith<int32_t>(s); else IntArith<int64_t>(s);
}
PBT_TEST(F08_unsigned_arith, 400000, 12000000, "divisor not zero") {
  uint64_t a = s.integer<uint64_t>(), b = s.integer<uint64_t>();
  auto d = ar::FloorDivOp()(a, b);
  auto m = ar::ModOp()(a, b);
  if (b == 0) { PBT_ASSERT(!d.ok() && !m.ok()); return; }
  s.nontrivial();
  s.note(a, " ", b);
  PBT_ASSERT(d.ok() && *d == a / b && m.ok() && *m == a % b);
  PBT_ASSERT(ar::AddOp()(a, b) == a + b && ar::SubtractOp()(a, b) == a - b && ar::MultiplyOp()(a, b) == a * b);
  PBT_ASSERT(ar::NegOp()(a) == 0 - a && ar::AbsOp()(a) == a);
}

template <class T>
static bool Same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

template <class T> static T AnyF(Src& s) {
  if constexpr (std::is_same_v<T, float>) return s.flt(); else return s.dbl();
}

template <class T>
static void FloatArith(Src& s) {
  T a = AnyF<T>(s), b = AnyF<T>(s);
  if (s.chance(1, 8)) b = a;
  if (s.chance(1, 8)) b = -a;
  s.note("a=", pbt::cat(a), " b=", pbt::cat(b));
  bool fin = std::isfinite(a) && std::isfinite(b);
  if (fin) s.nontrivial();
  PBT_ASSERT(Same(ar::AddOp()(a, b), T(a + b)));
  PBT_ASSERT(Same(ar::SubtractOp()(a, b), T(a - b)));
  PBT_ASSERT(Same(ar::MultiplyOp()(a, b), T(a * b)));
  PBT_ASSERT(Same(ar::DivideOp()(a, b), T(a / b)));
  PBT_ASSERT(Same(ar::FmodOp()(a, b), T(std::fmod(a, b))));
  PBT_ASSERT(Same(ar::NegOp()(a), -a) && std::signbit(ar::NegOp()(a)) != std::signbit(a));
  PBT_ASSERT(Same(ar::AbsOp()(a), a < 0 ? -a : a) && (std::isnan(a) || !std::signbit(ar::AbsOp()(a))));
  PBT_ASSERT(Same(ar::PosOp()(a), a));
  PBT_ASSERT(Same(ar::SignOp()(a), std::isnan(a) ? a : T(a > 0 ? 1 : a < 0 ? -1 : 0)), "sign");
  T fl = ar::FloorOp()(a), ce = ar::CeilOp()(a), ro = ar::RoundOp()(a);
  if (std::isfinite(a)) {
    PBT_ASSERT(fl == std::trunc(fl) && (fl == a || (fl < a && fl + 1 > a)), "floor ", fl);
    PBT_ASSERT(ce == std::trunc(ce) && (ce == a || (ce > a && ce - 1 < a)), "ceil ", ce);
    PBT_ASSERT(ro == std::trunc(ro) && std::fabs((long double)ro - a) <= 0.5L, "round ", ro);
    if (std::fabs((long double)ro - a) == 0.5L) PBT_ASSERT(std::fabs(ro) > std::fabs(a), "round half away from zero");
  } else {
    PBT_ASSERT(Same(fl, a) && Same(ce, a) && Same(ro, a), "rounding of non-finite");
  }
  T mx = ar::MaxOp()(a, b), mn = ar::MinOp()(a, b);
  if (std::isnan(a) || std::isnan(b)) {
    PBT_ASSERT(std::isnan(mx) && std::isnan(mn), "max/min must propagate nan");
  } else {
    PBT_ASSERT(mx == (a < b ? b : a) && mn == (a < b ? a : b), "max/min");
  }
  PBT_ASSERT(ar::IsNanOp()(a).present == (a != a));
  PBT_ASSERT(ar::IsInfOp()(a).present == (a == a && std::fabs(a) > std::numeric_limits<T>::max()));
  PBT_ASSERT(ar::IsFiniteOp()(a).present == (a == a && std::fabs(a) <= std::numeric_limits<T>::max()));
  PBT_ASSERT(ar::EqualOp()(a, b) == (a == b) && ar::NotEqualOp()(a, b) == !(a == b));
  PBT_ASSERT(ar::LessOp()(a, b) == (a < b) && ar::LessEqualOp()(a, b) == (a < b || a == b));

  auto d = ar::FloorDivOp()(a, b);
  auto m = ar::ModOp()(a, b);
  if (b == 0) {
    PBT_ASSERT(!d.ok() && !m.ok(), "division by zero must be an error");
    PBT_ASSERT(d.status().code() == absl::StatusCode::kInvalidArgument);
    return;
  }
  PBT_ASSERT(d.ok() && m.ok());
  if (!std::isfinite(a) || std::isnan(b)) {
    PBT_ASSERT(std::isnan(*d) && std::isnan(*m), "undefined quotient must be nan");
    return;
  }
  if (std::isinf(b)) {
    // quotient is 0 or an infinitesimal negative number
    bool neg = a != 0 && (a < 0) != (b < 0);
    PBT_ASSERT(*d == (neg ? -1 : 0), "floordiv by infinity ", *d);
    if (neg) PBT_ASSERT(std::isinf(*m) && (*m > 0) == (b > 0), "mod by infinity ", *m);
    else PBT_ASSERT(*m == a, "mod by infinity ", *m);
    return;
  }
  T quot = a / b;
  if (std::isinf(quot)) return;
  // Exact floor of the quotient, compared with the floor of the rounded one.
  PBT_ASSERT(*d == std::trunc(*d), "floordiv is not integral: ", *d);
  T lo = std::floor(std::nextafter(quot, -std::numeric_limits<T>::infinity()));
  T hi = std::floor(quot);
  if (a != 0 && quot == 0) { hi = lo = ((a < 0) != (b < 0)) ? -1 : 0; }
  if (a == 0) lo = hi = 0;
  PBT_ASSERT(*d == lo || *d == hi, "floordiv ", *d, " not in {", lo, ",", hi, "}");
  if (a != 0 && std::fabs(quot) < (T)1e6 && quot != 0 && std::fabs(a) < std::numeric_limits<T>::max() / 4) {
    PBT_ASSERT(*m == 0 || std::signbit(*m) == std::signbit(b), "mod has the sign of the divisor: ", *m);
    long double want = (long double)a - (long double)*d * b;
    long double tol = ((long double)std::fabs(a) + std::fabs(b)) * 4 * std::numeric_limits<T>::epsilon() +
                      4 * std::numeric_limits<T>::denorm_min();
    long double diff = std::fabs(std::fabs(want) - std::fabs((long double)*m));
    PBT_ASSERT(diff <= tol, "mod ", *m, " vs ", (double)want);
  }
}
PBT_TEST(F08_float_arith, 1600000, 45000000, "both arguments finite") {
  if (s.boolean()) FloatArith<float>(s); else FloatArith<double>(s);
}
PBT_TEST(F08_compare, 480000, 9000000, "arguments differ in at most a neighbour") {
  auto chk = [&](auto a, auto b) {
    bool lt = a < b, gt = b < a;
    PBT_ASSERT(ar::EqualOp()(a, b) == (!lt && !gt) && ar::NotEqualOp()(a, b) == (lt || gt));
    PBT_ASSERT(ar::LessOp()(a, b) == lt && ar::LessEqualOp()(a, b) == !gt);
    PBT_ASSERT(ar::LessOp()(b, a) == gt && ar::LessEqualOp()(b, a) == !lt);
  };
  switch (s.draw(3)) {
    case 0: { int64_t a = s.integer<int64_t>(); int64_t b = s.boolean() ? s.integer<int64_t>() : a; if (a != b || s.boolean()) s.nontrivial(); s.note(a, " ", b); chk(a, b); break; }
    case 1: { std::string a = s.bytes(6), b = s.boolean() ? a + s.bytes(2) : s.bytes(6); s.nontrivial(); s.note(a, "|", b); chk(ar::Bytes(a), ar::Bytes(b)); chk(ar::Text(a), ar::Text(b));
      PBT_ASSERT(ar::LessOp()(ar::Bytes(a), ar::Bytes(b)) == (std::string_view(a).compare(b) < 0)); break; }
    case 2: { bool a = s.boolean(), b = s.boolean(); s.note(a, b); s.nontrivial(); PBT_ASSERT(ar::LessOp()(a, b) == (!a && b) && ar::LessEqualOp()(a, b) == (!a || b)); chk(a, b); break; }
    default: { uint64_t a = s.integer<uint64_t>(), b = s.boolean() ? a + 1 : s.integer<uint64_t>(); s.nontrivial(); s.note(a, " ", b); chk(a, b); }
  }
}

// ---------------------------------------------------------------- F09 ------
template <class T>
static void Close(const char* what, T got, long double want, long double tol) {
  if (std::isnan(want)) { PBT_ASSERT(std::isnan(got), what, ": got ", got, " want nan"); return; }
  if (std::fabs(want) > (long double)std::numeric_limits<T>::max()) {
    PBT_ASSERT(std::isinf(got) && (got > 0) == (want > 0), what, ": got ", got, " want ", (double)want); return;
  }
  long double diff = std::fabs((long double)got - want);
  if (std::isinf(got) && std::fabs(want) > 0.999L * std::numeric_limits<T>::max()) return;
  long double t = tol + std::fabs(want) * 8 * std::numeric_limits<T>::epsilon() + 8 * (long double)std::numeric_limits<T>::denorm_min();
  PBT_ASSERT(diff <= t, what, ": got ", got, " want ", (double)want, " diff ", (double)diff);
}
template <class T>
static T MathArg(Src& s) {
  switch (s.draw(4)) {
    case 0: return static_cast<T>(s.nice_dbl());
    case 1: return static_cast<T>(s.range(-4000, 4000)) / T(64);
    case 2: return std::ldexp(static_cast<T>(1 + s.draw(1000) / 1000.0), (int)s.range(-40, 40)) * (s.boolean() ? -1 : 1);
    case 3: return static_cast<T>(s.range(-200, 200));
    default: { T v = AnyF<T>(s); return std::isnan(v) ? std::numeric_limits<T>::quiet_NaN() : v; }
  }
}
template <class T>
static void MathFns(Src& s) {
  T x = MathArg<T>(s), y = MathArg<T>(s), z = MathArg<T>(s);
  if (s.chance(1, 8)) y = x;
  s.note("x=", pbt::cat(x), " y=", pbt::cat(y), " z=", pbt::cat(z));
  if (std::isfinite(x) && x != 0) s.nontrivial();
  long double X = x;
  const long double eps = std::numeric_limits<T>::epsilon();
  Close<T>("log", ar::LogOp()(x), std::log(X), 0);
  Close<T>("log2", ar::Log2Op()(x), std::log2(X), 0);
  Close<T>("log10", ar::Log10Op()(x), std::log10(X), 0);
  Close<T>("log1p", ar::Log1pOp()(x), std::log1p(X), 0);
  Close<T>("sqrt", ar::SqrtOp()(x), std::sqrt(X), 0);
  Close<T>("symlog1p", ar::Symlog1pOp()(x), std::copysign(std::log1p(std::fabs(X)), X), 0);
  Close<T>("exp", ar::ExpOp()(x), std::exp(X), 0);
  Close<T>("expm1", ar::Expm1Op()(x), std::expm1(X), 0);
  Close<T>("pow", ar::PowOp()(x, y), std::pow(X, (long double)y), 0);
  Close<T>("logit", ar::LogitOp()(x), std::log(X) - std::log1p(-X),
           (std::fabs(std::log(X)) + std::fabs(std::log1p(-X))) * 4 * eps);
  if (std::isfinite(x)) {
    Close<T>("log_sigmoid", ar::LogSigmoidOp()(x), X >= 0 ? -std::log1p(std::exp(-X)) : X - std::log1p(std::exp(X)), 0);
    if (std::fabs(x) < 1e6) {
      Close<T>("sin", ar::SinOp()(x), std::sin(X), 4 * eps);
      Close<T>("cos", ar::CosOp()(x), std::cos(X), 4 * eps);
    }
  }
  Close<T>("sinh", ar::SinhOp()(x), std::sinh(X), 0);
  Close<T>("atan", ar::AtanOp()(x), std::atan(X), 0);
  // sigmoid(value, half, slope)
  if (std::isfinite(x) && std::isfinite(y) && std::isfinite(z) && std::fabs(x) < 1e15 && std::fabs(y) < 1e15 && std::fabs(z) < 1e10) {
    long double arg = (long double)z * ((long double)y - X);
    long double want = 1 / (1 + std::exp(arg));
    long double darg = 4 * eps * (std::fabs(arg) + std::fabs((long double)z) * (std::fabs((long double)y) + std::fabs(X)));
    long double lo = 1 / (1 + std::exp(arg + darg)), hi = 1 / (1 + std::exp(arg - darg));
    T got = ar::SigmoidOp()(x, y, z);
    PBT_ASSERT(got >= lo - 8 * eps * want - 2 * (long double)std::numeric_limits<T>::min() && got <= hi + 8 * eps, "sigmoid got ", got, " want ", (double)want);
  }
}
PBT_TEST(F09_functions, 800000, 22500000, "finite non-zero argument") {
  if (s.boolean()) MathFns<float>(s); else MathFns<double>(s);
}

template <class T>
static void Cdf(Src& s) {
  const double tol = std::is_same_v<T, float> ? 2e-4 : 1e-8;
  auto invalid_p = [&]() -> T {
    switch (s.draw(3)) { case 0: return NAN; case 1: return T(-0.001) - s.draw(3); case 2: return T(1.001) + s.draw(3); default: return INFINITY; }
  };
  auto invalid_pos = [&]() -> T {
    switch (s.draw(4)) { case 0: return NAN; case 1: return 0; case 2: return -T(1 + s.draw(5)); case 3: return -INFINITY; default: return INFINITY; }
  };
  auto prob = [&]() -> T { return T(1 + s.draw(9998)) / T(10000); };
  auto pos = [&](double lo, double hi) -> T { return T(lo * std::pow(hi / lo, s.draw(1000) / 1000.0)); };
  bool bad = s.chance(1, 5);
  switch (s.draw(2)) {
    case 0: {
      T p = prob(), d = pos(0.7, 1000);
      if (bad) { if (s.boolean()) p = invalid_p(); else d = invalid_pos(); }
      s.note("t p=", p, " dof=", d);
      auto r = ar::TDistributionInverseCdfOp()(p, d);
      if (bad) { PBT_ASSERT(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument); return; }
      PBT_ASSERT(r.ok()); s.nontrivial();
      boost::math::students_t_distribution<double> dist((double)d);
      double back = boost::math::cdf(dist, (double)*r);
      PBT_ASSERT(std::fabs(back - p) <= tol * std::min<double>(1, std::max<double>(p, 0.01)) + 1e-7, "cdf(quantile) = ", back, " for ", p);
      auto r2 = ar::TDistributionInverseCdfOp()(T(1) - p, d);
      if (p > 0.01 && p < 0.99) PBT_ASSERT(std::fabs(*r2 + *r) <= 0.002 * (1 + std::fabs(*r)), "symmetry");
      break;
    }
    case 1: {
      T p = prob(), a = pos(0.5, 50), b = pos(0.5, 50);
      int which = s.draw(2);
      if (bad) { if (which == 0) p = invalid_p(); else if (which == 1) a = invalid_pos(); else b = invalid_pos(); }
      s.note("beta p=", p, " a=", a, " b=", b);
      auto r = ar::BetaDistributionInverseCdfOp()(p, a, b);
      if (bad) { PBT_ASSERT(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument); return; }
      PBT_ASSERT(r.ok()); s.nontrivial();
      PBT_ASSERT(*r >= 0 && *r <= 1);
      boost::math::beta_distribution<double> dist((double)a, (double)b);
      double back = boost::math::cdf(dist, (double)*r);
      double dens = (*r > 0 && *r < 1) ? boost::math::pdf(dist, (double)*r) : 0;
      double slack = dens * std::numeric_limits<T>::epsilon() * 64;
      PBT_ASSERT(*r == 0 || *r == 1 || std::fabs(back - p) <= 5 * tol + slack, "cdf(quantile) = ", back, " for ", p);
      break;
    }
    default: {
      T p = prob();
      if (bad) p = invalid_p();
      s.note("normal p=", p);
      auto r = ar::NormalDistributionInverseCdfOp()(p);
      if (bad) { PBT_ASSERT(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument); return; }
      PBT_ASSERT(r.ok()); s.nontrivial();
      double back = 0.5 * std::erfc(-(double)*r / std::sqrt(2.0));
      PBT_ASSERT(std::fabs(back - p) <= tol, "cdf(quantile) = ", back, " for ", p);
      T p2 = prob(); auto r2 = ar::NormalDistributionInverseCdfOp()(p2);
      if (p < p2) PBT_ASSERT(*r <= *r2, "not monotone");
    }
  }
}
PBT_TEST(F09_inverse_cdf, 120000, 2250000, "valid parameters (the rest check error reporting)") {
  if (s.boolean()) Cdf<float>(s); else Cdf<double>(s);
}

// ---------------------------------------------------------------- F10 ------
namespace pwl = arolla::pwlcurve;
static long double PwlIn(int type, long double x) {
  switch (type) { case 0: return x; case 1: return std::log(x); case 2: return std::log1p(x);
    default: return x >= 0 ? std::log1p(x) : -std::log1p(-x); }
}
static std::vector<pwl::Point<double>> PwlPoints(Src& s, int type) {
  size_t n = 1 + s.size(9);
  std::vector<pwl::Point<double>> p;
  double x = type == 0 || type == 3 ? s.range(-40, 10) / 2.0 : type == 1 ? (1 + s.draw(20)) / 4.0 : s.range(-3, 20) / 4.0;
  for (size_t i = 0; i < n; ++i) {
    double y = (i && s.chance(1, 3)) ? p.back().y : s.range(-40, 40) / 4.0;
    p.push_back({x, y});
    x += (1 + s.draw(12)) / 4.0;
  }
  return p;
}
PBT_TEST(F10_eval, 480000, 12000000, "at least two different y values and a query strictly inside") {
  int type = s.draw(3);
  auto p = PwlPoints(s, type);
  auto c = pwl::NewCurve((pwl::CurveType)type, absl::MakeConstSpan(p));
  std::string desc;
  for (auto& q : p) desc += pbt::cat("(", q.x, ",", q.y, ")");
  s.note("type ", type, " points ", desc);
  PBT_ASSERT(c.ok(), c.status().ToString());
  PBT_ASSERT((*c)->Type() == type && (*c)->ControlPoints().size() == p.size());
  std::vector<double> xs; std::vector<float> fx;
  size_t k = 1 + s.draw(5);
  for (size_t i = 0; i < k; ++i) {
    double x;
    switch (s.draw(4)) {
      case 0: x = s.pick(p).x; break;
      case 1: x = p[0].x - s.draw(100) / 8.0; break;
      case 2: x = p.back().x + s.draw(100) / 8.0; break;
      default: x = p[0].x + (p.back().x - p[0].x) * (s.draw(1000) / 1000.0);
    }
    xs.push_back(x); fx.push_back((float)x);
  }
  long double ymax = 1; for (auto& q : p) ymax = std::max(ymax, std::fabs((long double)q.y));
  auto ys = (*c)->Eval(absl::MakeConstSpan(xs)); auto fy = (*c)->Eval(absl::MakeConstSpan(fx));
  PBT_ASSERT(ys.size() == k && fy.size() == k);
  for (size_t i = 0; i < k; ++i) {
    auto want = [&](long double x) -> long double {
      if (x <= p[0].x) return p[0].y;
      if (x >= p.back().x) return p.back().y;
      size_t j = 1; while (p[j].x < x) ++j;
      long double a = PwlIn(type, p[j - 1].x), b = PwlIn(type, p[j].x), v = PwlIn(type, x);
      return p[j - 1].y + (p[j].y - (long double)p[j - 1].y) * ((v - a) / (b - a));
    };
    if (p.size() > 1 && xs[i] > p[0].x && xs[i] < p.back().x && p[0].y != p.back().y) s.nontrivial();
    s.note("x=", xs[i]);
    PBT_ASSERT(std::fabs(ys[i] - want(xs[i])) <= 1e-9L * ymax, "double eval at ", xs[i], ": ", ys[i], " want ", (double)want(xs[i]));
    // slope of a quarter wide step in transformed space amplifies float error
    PBT_ASSERT(std::fabs(fy[i] - want(fx[i])) <= 2e-3L * ymax, "float eval at ", fx[i], ": ", fy[i], " want ", (double)want(fx[i]));
    PBT_ASSERT((*c)->Eval(xs[i]) == ys[i] && (*c)->Eval(fx[i]) == fy[i], "scalar and span evaluation differ");
  }
  // linear extrapolation through infinite end points (plain curves)
}
PBT_TEST(F10_infinite_ends, 240000, 4500000, "extrapolated query") {
  auto p = PwlPoints(s, 0);
  if (p.size() < 2 || p[0].y == p[1].y || p[p.size() - 1].y == p[p.size() - 2].y) throw pbt::Discard{};
  auto q = p; const double inf = INFINITY;
  bool left = s.boolean(), right = !left || s.boolean();
  size_t n = p.size();
  if (left) q.insert(q.begin(), {-inf, p[0].y < p[1].y ? -inf : inf});
  if (right) q.push_back({inf, p[n - 1].y > p[n - 2].y ? inf : -inf});
  auto c = pwl::NewCurve(pwl::PWLCurve, absl::MakeConstSpan(q));
  PBT_ASSERT(c.ok(), c.status().ToString());
  double x = left && (!right || s.boolean()) ? p[0].x - s.draw(100) / 4.0 : p[n - 1].x + s.draw(100) / 4.0;
  s.nontrivial();
  size_t j = x <= p[0].x ? 1 : n - 1;
  double want = p[j].y + (x - p[j].x) * (p[j].y - p[j - 1].y) / (p[j].x - p[j - 1].x);
  if (!left && x <= p[0].x) want = p[0].y;
  if (!right && x >= p[n - 1].x) want = p[n - 1].y;
  PBT_ASSERT(std::fabs((*c)->Eval(x) - want) <= 1e-8 * (1 + std::fabs(want)), "at ", x, " got ", (*c)->Eval(x), " want ", want);
  // Swapping the sign of an infinite y makes the curve impossible.
  if (n >= 2) {
    auto bad = q; (left ? bad.front() : bad.back()).y *= -1;
    PBT_ASSERT(!pwl::NewCurve(pwl::PWLCurve, absl::MakeConstSpan(bad)).ok(), "unreachable infinity accepted");
  }
}
PBT_TEST(F10_text, 320000, 6000000, "a curve with several points, or a rejected specification") {
  int type = s.draw(3);
  auto p = PwlPoints(s, type);
  for (auto& q : p) if (s.chance(1, 4)) q.y = s.nice_dbl();
  auto c = pwl::NewCurve((pwl::CurveType)type, absl::MakeConstSpan(p));
  if (!c.ok()) throw pbt::Discard{};
  std::string t = (*c)->ToString();
  s.note(t);
  auto r = pwl::NewCurve(t);
  PBT_ASSERT(r.ok(), t, ": ", r.status().ToString());
  PBT_ASSERT((*r)->Type() == type && (*r)->ToString() == t);
  auto cp = (*r)->ControlPoints();
  PBT_ASSERT(cp.size() == p.size());
  for (size_t i = 0; i < p.size(); ++i) PBT_ASSERT(cp[i].x == p[i].x && cp[i].y == p[i].y, "point ", i);
  if (p.size() > 1) s.nontrivial();
  std::string bar = t; for (char& ch : bar) if (ch == ';') ch = '|';
  auto rb = pwl::NewCurveWithSeparator('|', bar);
  PBT_ASSERT(rb.ok() && (*rb)->ToString() == t);
  auto ra = pwl::NewCurveWithAllowedSeparators(";|", s.boolean() ? t : bar);
  PBT_ASSERT(ra.ok() && (*ra)->ToString() == t);
  PBT_ASSERT(!pwl::NewCurveWithSeparator('|', t).ok() && !pwl::NewCurve(bar).ok(), "wrong separator accepted");
  std::vector<double> X, Y; for (auto& q : p) { X.push_back(q.x); Y.push_back(q.y); }
  auto rs = pwl::NewCurve((pwl::CurveType)type, absl::MakeConstSpan(X), absl::MakeConstSpan(Y));
  PBT_ASSERT(rs.ok() && (*rs)->ToString() == t, "x/y constructor");
  X.push_back(1e9);
  PBT_ASSERT(!pwl::NewCurve((pwl::CurveType)type, absl::MakeConstSpan(X), absl::MakeConstSpan(Y)).ok(), "different lengths accepted");
  // rejected: truncated / trailing junk / unsorted
  std::string tr = t.substr(0, s.draw(t.size() - 1));
  PBT_ASSERT(!pwl::NewCurve(tr).ok(), "truncated spec accepted: ", tr);
  PBT_ASSERT(!pwl::NewCurve(t + ")").ok() && !pwl::NewCurve("X" + t).ok());
  if (p.size() > 1) {
    auto u = p; size_t i = s.draw(p.size() - 2);
    if (s.boolean()) std::swap(u[i].x, u[i + 1].x); else u[i + 1].x = u[i].x;
    PBT_ASSERT(!pwl::NewCurve((pwl::CurveType)type, absl::MakeConstSpan(u)).ok(), "x values not increasing accepted");
  }
}

// ---------------------------------------------------------------- F11 ------
PBT_TEST(F11_cfg, 480000, 12000000, "a graph with a join node (>= 5 nodes)") {
  size_t n = 1 + s.size(16);
  std::vector<std::vector<int64_t>> deps(n);
  bool joins = false;
  for (size_t v = 1; v < n; ++v) {
    int k = 1 + s.draw(2);
    if (k > 1) joins = true;
    for (int i = 0; i < k; ++i) {
      size_t u = s.boolean() ? v - 1 - s.draw(std::min<size_t>(v - 1, 3)) : s.draw(v - 1);
      deps[u].push_back(v);
    }
  }
  // optionally break it
  int broken = s.chance(1, 8) ? 1 + s.draw(2) : 0;
  if (broken == 1) { size_t v = s.draw(n - 1); deps[v].push_back(s.range(-1, v)); }
  if (broken == 2) { deps[s.draw(n - 1)].push_back(n + s.draw(2)); }
  if (broken == 3) {
    if (n < 2) broken = 0;
    else { int64_t v = 1 + s.draw(n - 2); for (auto& d : deps) d.erase(std::remove(d.begin(), d.end(), v), d.end()); }
  }
  for (size_t v = 0; v < n; ++v) { std::string l; for (auto d : deps[v]) l += pbt::cat(d, " "); s.note(v, ": ", l); }
  auto g = ar::AcyclicCFG::Create(deps);
  PBT_ASSERT(g.ok() == (broken == 0), "broken=", broken);
  if (broken) return;
  if (joins && n >= 5) s.nontrivial();
  auto& G = **g;
  PBT_ASSERT(G.num_nodes() == (int64_t)n);
  std::vector<std::vector<int64_t>> rev(n);
  for (size_t v = 0; v < n; ++v) for (auto d : deps[v]) rev[d].push_back(v);
  for (size_t v = 0; v < n; ++v) {
    PBT_ASSERT(std::vector<int64_t>(G.deps(v).begin(), G.deps(v).end()) == deps[v]);
    PBT_ASSERT(std::vector<int64_t>(G.reverse_deps(v).begin(), G.reverse_deps(v).end()) == rev[v]);
  }
  // naive dominators: d dominates v iff v unreachable once d is removed
  auto reach_without = [](const std::vector<std::vector<int64_t>>& e, int64_t rm) {
    std::vector<char> seen(e.size()); std::vector<int64_t> st;
    if (rm != 0) { seen[0] = 1; st.push_back(0); }
    while (!st.empty()) { auto u = st.back(); st.pop_back(); for (auto d : e[u]) if (d != rm && !seen[d]) { seen[d] = 1; st.push_back(d); } }
    return seen;
  };
  std::vector<std::vector<char>> dom(n, std::vector<char>(n));  // dom[d][v]
  for (size_t d = 0; d < n; ++d) { auto r = reach_without(deps, d); for (size_t v = 0; v < n; ++v) dom[d][v] = !r[v]; }
  ar::DominatorTree T(G);
  auto check_tree = [&](const ar::DominatorTree& T, const char* what) {
    PBT_ASSERT(T.num_nodes() == (int64_t)n);
    auto parents = T.parents();
    for (size_t v = 0; v < n; ++v) {
      int64_t depth = 0, idom = 0;
      for (size_t d = 0; d < v; ++d) if (dom[d][v]) { ++depth; idom = d; }  // larger ids are dominated by smaller
      PBT_ASSERT(T.depth(v) == depth, what, " depth of ", v);
      PBT_ASSERT(T.parent(v) == idom && parents[v] == idom, what, " parent of ", v, " is ", T.parent(v), " want ", idom);
      std::vector<int64_t> ch;
      for (size_t w = v + 1; w < n; ++w) if (T.parent(w) == (int64_t)v) ch.push_back(w);
      PBT_ASSERT(std::vector<int64_t>(T.children(v).begin(), T.children(v).end()) == ch, what, " children of ", v);
    }
  };
  check_tree(T, "tree");
  // dominance frontier
  auto ef = ar::FindVerticesWithEmptyDominanceFrontier(G, T);
  for (size_t d = 0; d < n; ++d) {
    bool empty = true;
    for (size_t p = 0; p < n; ++p) if (dom[d][p]) for (auto v : deps[p]) if (!(dom[d][v] && (int64_t)d != v)) empty = false;
    PBT_ASSERT(ef[d] == empty, "frontier of ", d);
  }
  // externalization keeps dominators and rewires only the globals
  absl::flat_hash_set<int64_t> glob;
  for (size_t v = 0; v < n; ++v) if (s.chance(1, 4)) glob.insert(v);
  auto e = ar::ExternalizeNodes(G, T, glob);
  PBT_ASSERT(e.ok(), e.status().ToString());
  for (size_t v = 0; v < n; ++v) {
    auto got = (*e)->reverse_deps(v);
    if (v && glob.contains(v)) PBT_ASSERT(got.size() == 1 && got[0] == T.parent(v), "global node ", v, " must hang from its dominator");
    else PBT_ASSERT(std::vector<int64_t>(got.begin(), got.end()) == rev[v], "local node ", v, " was rewired");
  }
  check_tree(ar::DominatorTree(**e), "externalized");
}

// ---------------------------------------------------------------- F12 ------
static std::initializer_list<absl::string_view> IL(const std::vector<absl::string_view>& v) {
  struct { const absl::string_view* p; size_t n; } raw{v.data(), v.size()};
  std::initializer_list<absl::string_view> r; static_assert(sizeof(r) == sizeof(raw));
  std::memcpy((void*)&r, &raw, sizeof(r)); return r;
}
PBT_TEST(F12_initializers, 240000, 6000000, ">= 4 initializers with >= 2 dependencies") {
  namespace ii = arolla::init_arolla_internal;
  std::vector<std::string> log;
  std::set<std::string> completed;
  static const std::vector<std::string> names = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"};
  static const std::vector<std::string> phony = {"@phony/x", "@phony/y"};
  int rounds = 1 + s.draw(1);
  // names must outlive the coordinator
  struct M { std::string name; std::set<std::string> deps, rdeps; int fails; int id; };
  std::deque<std::deque<std::vector<absl::string_view>>> dstores, rstores;
  std::deque<std::deque<ii::Initializer>> initss; std::deque<std::vector<M>> orders;
  ii::Coordinator coord;
  size_t used = 0;
  bool failed = false;
  for (int round = 0; round < rounds && !failed; ++round) {
    auto& dstore = dstores.emplace_back(); auto& rstore = rstores.emplace_back();
    auto& inits = initss.emplace_back();
    std::vector<M> ms;
    size_t n = s.size(8);
    std::vector<std::string> avail;
    for (size_t i = used; i < names.size() && i < used + n; ++i) avail.push_back(names[i]);
    std::vector<std::string> all(names.begin(), names.begin() + used);
    all.insert(all.end(), avail.begin(), avail.end());
    int anon = 0;
    bool maybe_cycle = s.chance(1, 4);
    int ndeps = 0;
    for (size_t i = 0; i < avail.size() + 1; ++i) {
      M m; m.id = i; m.fails = 0;
      bool is_anon = i == avail.size();
      if (is_anon && !s.boolean()) break;
      m.name = is_anon ? "" : avail[i];
      int k = s.draw(2);
      for (int j = 0; j < k; ++j) {
        // dependency: earlier one normally (acyclic), anything sometimes
        std::string d;
        if (s.chance(1, 6)) d = s.pick(phony);
        else if (s.chance(1, 25)) d = "missing";
        else if (maybe_cycle && !all.empty() && s.chance(1, 3)) d = s.pick(all);
        else { size_t lim = used + (is_anon ? avail.size() : i); if (!lim) continue; d = all[s.draw(lim - 1)]; }
        m.deps.insert(d); ++ndeps;
      }
      if (s.chance(1, 4)) {
        std::string d;
        if (s.chance(1, 3)) d = s.pick(phony);
        else if (used && s.chance(1, 8)) d = all[s.draw(used - 1)];
        else { size_t from = used + i + 1; if (is_anon || from >= all.size()) d = s.pick(phony); else d = all[from + s.draw(all.size() - from - 1)]; }
        m.rdeps.insert(d); ++ndeps;
      }
      if (s.chance(1, 20)) m.fails = 1;
      ms.push_back(m);
    }
    if (ms.size() >= 4 && ndeps >= 2) s.nontrivial();
    // duplicates
    bool dup = !ms.empty() && s.chance(1, 15);
    if (dup) { M m = ms[s.draw(ms.size() - 1)]; if (m.name.empty()) dup = false; else { m.deps.clear(); m.rdeps.clear(); ms.push_back(m); } }
    // shuffle registration order
    for (size_t i = ms.size(); i > 1; --i) std::swap(ms[i - 1], ms[s.draw(i - 1)]);
    static std::vector<std::string>* glog; static std::vector<int>* gfail;
    std::vector<const ii::Initializer*> ptrs;
    log.clear();
    // the init functions are plain pointers / std::function-like objects
    auto& order = orders.emplace_back(ms);
    for (auto& m : order) {
      dstore.emplace_back(); rstore.emplace_back();
      for (auto& d : m.deps) dstore.back().push_back(*m.deps.find(d));
      for (auto& d : m.rdeps) rstore.back().push_back(*m.rdeps.find(d));
    }
    struct Cell { std::vector<std::string>* log; std::string tag; int fails; };
    static std::vector<Cell> cells; cells.clear();
    for (auto& m : order) cells.push_back({&log, m.name.empty() ? "<anon>" : m.name, m.fails});
    using V = decltype(ii::Initializer::init_fn);
    static const auto table = []<size_t... I>(std::index_sequence<I...>) {
      return std::array<std::pair<V, V>, sizeof...(I)>{std::pair<V, V>{
          V(static_cast<ii::Initializer::VoidInitFn>([] { cells[I].log->push_back(cells[I].tag); })),
          V(static_cast<ii::Initializer::StatusInitFn>([]() -> absl::Status { cells[I].log->push_back(cells[I].tag); return cells[I].fails ? absl::InternalError("boom") : absl::OkStatus(); }))}...};
    }(std::make_index_sequence<12>());
    for (size_t i = 0; i < order.size(); ++i) {
      ii::Initializer in{.name = order[i].name, .deps = IL(dstore[i]), .reverse_deps = IL(rstore[i]),
                         .init_fn = order[i].fails || i % 2 ? table[i].second : table[i].first};
      inits.push_back(in);
    }
    for (auto& in : inits) ptrs.push_back(&in);
    for (auto& m : order) { std::string d, r; for (auto& x : m.deps) d += x + " "; for (auto& x : m.rdeps) r += x + " "; s.note("round ", round, " '", m.name, "' deps: ", d, " reverse: ", r, m.fails ? " FAILS" : ""); }
    auto st = coord.Run(absl::MakeConstSpan(ptrs));
    std::string ran; for (auto& l : log) ran += l + " ";
    s.note("status ", st.ToString(), " ran ", ran);
    // Model: edges dep -> node over names (anonymous ones by id)
    std::map<std::string, std::set<std::string>> need;  // node -> must run before
    auto key = [&](const M& m) { return m.name.empty() ? pbt::cat("<anon>") : m.name; };
    std::set<std::string> defined; bool expect_fail = false; std::string why;
    for (auto& m : order) { if (!defined.insert(key(m)).second || completed.count(m.name)) { expect_fail = true; why = "dup"; } }
    for (auto& m : order) {
      for (auto& d : m.deps) if (!completed.count(d)) need[key(m)].insert(d);
      for (auto& d : m.rdeps) { if (completed.count(d)) { expect_fail = true; why = "reverse dep on completed"; } need[d].insert(key(m)); }
      if (m.fails) { expect_fail = true; why = "init fails"; }
    }
    // reachable from real initializers (phony/missing nodes are only visited as deps)
    std::set<std::string> seen; std::vector<std::string> st2(defined.begin(), defined.end());
    while (!st2.empty()) { auto u = st2.back(); st2.pop_back(); if (!seen.insert(u).second) continue; for (auto& d : need[u]) st2.push_back(d); }
    for (auto& u : seen) if (!defined.count(u) && u.substr(0, 6) != "@phony") { expect_fail = true; why = "missing " + u; }
    // cycles among seen
    std::map<std::string, int> state;
    std::function<bool(const std::string&)> cyc = [&](const std::string& u) -> bool {
      if (state[u] == 1) return true; if (state[u] == 2) return false; state[u] = 1;
      for (auto& d : need[u]) if (cyc(d)) return true; state[u] = 2; return false; };
    for (auto& u : seen) if (cyc(u)) { expect_fail = true; why = "cycle"; }
    PBT_ASSERT(st.ok() == !expect_fail, "status ", st.ToString(), " expected failure: ", expect_fail, " ", why);
    // What did run, ran once and after all its (transitive) dependencies.
    std::set<std::string> done;
    for (auto& l : log) {
      PBT_ASSERT(done.insert(l).second, l, " ran twice");
      std::set<std::string> vis; std::vector<std::string> q{l};
      while (!q.empty()) { auto u = q.back(); q.pop_back(); for (auto& d : need[u]) if (vis.insert(d).second) { q.push_back(d);
        if (defined.count(d)) PBT_ASSERT(done.count(d) && d != l, l, " ran before ", d); } }
    }
    if (st.ok()) { PBT_ASSERT(done == defined, "not every initializer ran"); for (auto& m : order) if (!m.name.empty()) completed.insert(m.name); }
    else failed = true;
    used += avail.size();
  }
}

// ---------------------------------------------------------------- F13 ------
static bool NaiveIdent(std::string_view t) {
  static const std::string first = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_";
  if (t.empty() || first.find(t[0]) == std::string::npos) return false;
  return t.find_first_not_of(first + "0123456789") == std::string_view::npos;
}
PBT_TEST(F13_identifiers, 1200000, 22500000, "non-empty text mixing identifier characters, dots and others") {
  std::string t;
  size_t n = s.size(12);
  static const std::string alphabet = "ab_Zz09..-[@`{/:\x80\xff ";
  for (size_t i = 0; i < n; ++i) t += s.chance(1, 12) ? (char)s.draw(255) : alphabet[s.draw(s.boolean() ? 8 : alphabet.size() - 1)];
  s.note("'", t, "'");
  if (n >= 2) s.nontrivial();
  PBT_ASSERT(ar::IsIdentifier(t) == NaiveIdent(t));
  bool q = true; size_t i = 0;
  while (true) { size_t j = t.find('.', i); q = q && NaiveIdent(std::string_view(t).substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; }
  PBT_ASSERT(ar::IsQualifiedIdentifier(t) == q);
  PBT_ASSERT(ar::IsOperatorName(t) == q);
  std::string pre = s.boolean() ? t.substr(0, s.draw(t.size())) : s.ascii(3);
  PBT_ASSERT(ar::starts_with(t, pre) == (t.compare(0, pre.size(), pre) == 0));
  std::string acc = ar::ContainerAccessString(t);
  if (NaiveIdent(t)) PBT_ASSERT(acc == "." + t);
  else { PBT_ASSERT(acc.size() >= 4 && acc.substr(0, 2) == "['" && acc.substr(acc.size() - 2) == "']", acc);
    for (size_t k = 2; k + 2 < acc.size(); ++k) if (acc[k] == '\'') PBT_ASSERT(acc[k - 1] == '\\', "unescaped quote in ", acc); }
  bool first = true;
  PBT_ASSERT(ar::NonFirstComma(first, pre).empty() && !first && ar::NonFirstComma(first, pre) == pre && ar::NonFirstComma(first) == ", ");
}
PBT_TEST(F13_truncate, 480000, 7500000, "text longer than the limit") {
  std::string t = s.bytes(40); size_t lim = 4 + s.draw(40);
  s.note(t.size(), " ", lim);
  std::string r = ar::Truncate(t, lim);
  if (t.size() <= lim) PBT_ASSERT(r == t);
  else { s.nontrivial(); PBT_ASSERT(r.size() == lim && r.substr(0, lim - 3) == t.substr(0, lim - 3) && r.substr(lim - 3) == "..."); }
}
PBT_TEST(F13_typo, 1200000, 22500000, "strings at edit distance <= 2") {
  std::string a, b;
  size_t n = s.size(8);
  for (size_t i = 0; i < n; ++i) a += "abc"[s.draw(2)];
  b = a;
  int edits = s.draw(2);
  for (int e = 0; e < edits; ++e) switch (s.draw(3)) {
    case 0: b.insert(b.begin() + s.draw(b.size()), "abcd"[s.draw(3)]); break;
    case 1: if (!b.empty()) b.erase(b.begin() + s.draw(b.size() - 1)); break;
    case 2: if (!b.empty()) b[s.draw(b.size() - 1)] = "abcd"[s.draw(3)]; break;
    default: if (b.size() > 1) { size_t i = s.draw(b.size() - 2); std::swap(b[i], b[i + 1]); }
  }
  if (edits) s.nontrivial();
  s.note(a, " ", b);
  bool want = a == b;
  auto tr = [&](std::string x) { want |= x == b; };
  for (size_t i = 0; i <= a.size(); ++i) for (char c : std::string("abcd")) { auto x = a; x.insert(x.begin() + i, c); tr(x); }
  for (size_t i = 0; i < a.size(); ++i) { auto x = a; x.erase(i, 1); tr(x); for (char c : std::string("abcd")) { x = a; x[i] = c; tr(x); } if (i + 1 < a.size()) { x = a; std::swap(x[i], x[i + 1]); tr(x); } }
  PBT_ASSERT(ar::IsWithinOneTypo(a, b) == want, "want ", want);
  PBT_ASSERT(ar::IsWithinOneTypo(b, a) == want, "want ", want, " (swapped)");
}
PBT_TEST(F13_repr_numbers, 800000, 15000000, "a number that is not a small integer") {
  double d = s.dbl(); float f = s.flt(); int32_t i = s.integer<int32_t>(); int64_t l = s.integer<int64_t>(); uint64_t u = s.integer<uint64_t>();
  s.note(pbt::cat(d), " ", pbt::cat(f), " ", i, " ", l, " ", u);
  if (std::isfinite(d) && d != std::trunc(d)) s.nontrivial();
  PBT_ASSERT(ar::Repr(i) == std::to_string(i));
  PBT_ASSERT(ar::Repr(l) == "int64{" + std::to_string(l) + "}");
  PBT_ASSERT(ar::Repr(u) == "uint64{" + std::to_string(u) + "}");
  PBT_ASSERT(ar::Repr(i % 2 == 0) == (i % 2 == 0 ? "true" : "false"));
  std::string rd = ar::Repr(d);
  PBT_ASSERT(rd.substr(0, 8) == "float64{" && rd.back() == '}', rd);
  PBT_ASSERT(Same(std::strtod(rd.substr(8).c_str(), nullptr), d), rd);
  std::string rf = ar::Repr(f);
  PBT_ASSERT(Same(std::strtof(rf.c_str(), nullptr), f), rf);
  PBT_ASSERT(!std::isfinite(f) || rf.find_first_of(".e") != std::string::npos, "float must not look like an integer: ", rf);
  std::string rw = ar::GenReprTokenWeakFloat(d).str;
  PBT_ASSERT(rw.substr(0, 11) == "weak_float{" && Same(std::strtod(rw.substr(11).c_str(), nullptr), d), rw);
}
static std::string Unescape(std::string_view t) {  // C escapes
  std::string r;
  for (size_t i = 0; i < t.size(); ++i) {
    if (t[i] != '\\') { r += t[i]; continue; }
    ++i; PBT_ASSERT(i < t.size(), "dangling backslash");
    switch (t[i]) {
      case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
      case 'x': { int v = 0, k = 0; while (k < 2 && i + 1 < t.size() && isxdigit(t[i + 1])) { ++i; ++k; v = v * 16 + (isdigit(t[i]) ? t[i] - '0' : (t[i] | 32) - 'a' + 10); } PBT_ASSERT(k == 2); r += (char)v; break; }
      default: r += t[i];
    }
  }
  return r;
}
PBT_TEST(F13_repr_strings, 480000, 7500000, "contains a byte that needs escaping") {
  bool text = s.boolean();
  std::string v = text ? s.utf8(30) : s.bytes(30);
  if (s.boolean()) v += s.pick({std::string("'"), std::string("\\"), std::string("\n"), std::string("\\x41"), std::string(1, '\0')});
  std::string r = text ? ar::Repr(ar::Text(v)) : ar::Repr(ar::Bytes(v));
  s.note(r);
  for (unsigned char c : v) if (c < 32 || c >= 127 || c == '\'' || c == '\\') { s.nontrivial(); break; }
  std::string pre = text ? "'" : "b'";
  PBT_ASSERT(r.substr(0, pre.size()) == pre && r.size() > pre.size() && r.back() == '\'', r);
  std::string body = r.substr(pre.size(), r.size() - pre.size() - 1);
  // a quote inside is always escaped
  bool esc = false; for (char c : body) { if (!esc) PBT_ASSERT(c != '\'', "unescaped quote: ", r); esc = !esc && c == '\\'; }
  PBT_ASSERT(!esc, "the closing quote is escaped: ", r);
  if (v.size() <= 120) PBT_ASSERT(Unescape(body) == v, "representation does not denote the value: ", r);
}

// ---------------------------------------------------------------- F14 ------
template <class R, class A, class B>
static void Ovf(Src& s) {
  A a = s.integer<A>(); B b = s.integer<B>();
  s.note("a=", +a, " b=", +b);
  auto fits = [](i128 v) { return v >= (i128)std::numeric_limits<R>::min() && v <= (i128)std::numeric_limits<R>::max(); };
  i128 sum = (i128)a + (i128)b, ab = (i128)a < 0 ? -(i128)a : (i128)a;
  __int128 prod; bool po = __builtin_mul_overflow((i128)a, (i128)b, &prod);
  bool prod_fits = !po && fits(prod);
  for (bool pre : {false, true}) {
    bool o = pre; R r = ar::safe_add<R>(a, b, &o);
    PBT_ASSERT(o == (pre || !fits(sum)), "safe_add flag"); if (fits(sum)) PBT_ASSERT(r == (R)sum);
    o = pre; r = ar::safe_mul<R>(a, b, &o);
    PBT_ASSERT(o == (pre || !prod_fits), "safe_mul flag"); if (prod_fits) PBT_ASSERT(r == (R)prod);
    o = pre; r = ar::safe_abs<R>(a, &o);
    PBT_ASSERT(o == (pre || !fits(ab)), "safe_abs flag"); if (fits(ab)) PBT_ASSERT(r == (R)ab, "safe_abs value");
  }
  auto A1 = ar::SafeAdd<R>(a, b); auto M1 = ar::SafeMul<R>(a, b); auto B1 = ar::SafeAbs<R>(a);
  PBT_ASSERT(A1.ok() == fits(sum) && (!A1.ok() || *A1 == (R)sum), "SafeAdd");
  PBT_ASSERT(M1.ok() == prod_fits && (!M1.ok() || *M1 == (R)prod), "SafeMul");
  PBT_ASSERT(B1.ok() == fits(ab) && (!B1.ok() || *B1 == (R)ab), "SafeAbs");
  if (!fits(sum) || !prod_fits || !fits(ab)) s.nontrivial();
}
PBT_TEST(F14_overflow, 1200000, 30000000, "at least one operation overflows") {
  switch (s.draw(5)) {
    case 0: Ovf<int64_t, int64_t, int64_t>(s); break;
    case 1: Ovf<int32_t, int64_t, int32_t>(s); break;
    case 2: Ovf<uint64_t, int64_t, uint64_t>(s); break;
    case 3: Ovf<int64_t, uint64_t, int32_t>(s); break;
    case 4: Ovf<uint32_t, int32_t, int64_t>(s); break;
    default: Ovf<int32_t, uint32_t, uint32_t>(s);
  }
}
PBT_TEST(F14_switch_index, 24000, 300000, "every case") {
  int n = s.draw(63);
  s.nontrivial(); s.note(n);
  int calls = 0;
  auto cb = [&](auto I) { ++calls; static_assert(decltype(I)::value >= 0); return (int)I * 7 + 1; };
  PBT_ASSERT(ar::switch_index_64(n, cb) == n * 7 + 1 && calls == 1);
  PBT_ASSERT((ar::switch_index<64>(n, cb)) == n * 7 + 1 && calls == 2);
  if (n < 32) PBT_ASSERT(ar::switch_index_32(n, cb) == n * 7 + 1 && ar::switch_index<32>(n, cb) == n * 7 + 1 && calls == 4);
}
PBT_TEST(F14_sorted_keys, 160000, 3000000, ">= 3 keys") {
  std::map<std::string, int> m; absl::flat_hash_map<std::string, int> h;
  size_t n = s.size(20);
  for (size_t i = 0; i < n; ++i) { auto k = s.bytes(4); m[k] = h[k] = i; }
  if (m.size() >= 3) s.nontrivial();
  std::vector<std::string> want; for (auto& [k, v] : m) want.push_back(k);
  PBT_ASSERT(ar::SortedMapKeys(h) == want && ar::SortedMapKeys(m) == want);
}

// ---------------------------------------------------------------- F15 ------
struct HashMod { using is_transparent = void; template <class T> size_t operator()(const T& k) const { return std::hash<std::string_view>()(std::string_view(k)) % 3; } };
PBT_TEST(F15_lru_cache, 480000, 9000000, "an eviction happened and a lookup hit afterwards") {
  size_t cap = 1 + s.draw(6);
  ar::LruCache<std::string, std::shared_ptr<int>, HashMod> c(cap);
  std::list<std::tuple<std::string, std::shared_ptr<int>, size_t>> model;  // front: most recent
  bool evicted = false;
  std::vector<std::weak_ptr<int>> all;
  size_t n = s.size(60);
  for (size_t i = 0; i < n; ++i) {
    std::string k(1, 'a' + s.draw(7));
    auto it = std::find_if(model.begin(), model.end(), [&](auto& e) { return std::get<0>(e) == k; });
    int op = s.draw(19);
    if (op < 9) {
      auto v = std::make_shared<int>(i); all.push_back(v);
      size_t w = s.chance(1, 3) ? s.draw(cap + 2) : 1;
      s.note("put ", k, " w=", w);
      if (it != model.end()) model.erase(it);
      model.emplace_front(k, v, w);
      auto* p = c.Put(k, v, w);
      PBT_ASSERT(p && *p == v, "Put must return the stored value");
      auto total = [&] { size_t t = 0; for (auto& e : model) t += std::get<2>(e); return t; };
      while (total() > cap && model.size() > 1) { model.pop_back(); evicted = true; }
    } else if (op < 19) {
      s.note("get ", k);
      auto* p = c.LookupOrNull(std::string_view(k));
      PBT_ASSERT((p != nullptr) == (it != model.end()), "key ", k, it != model.end() ? " lost" : " must be absent");
      if (p) { PBT_ASSERT(*p == std::get<1>(*it), "stale value for ", k); if (evicted) s.nontrivial(); model.splice(model.begin(), model, it); }
    } else { s.note("clear"); c.Clear(); model.clear(); }
    // dropped values are released, kept ones alive
    size_t alive = 0; for (auto& w : all) alive += !w.expired();
    PBT_ASSERT(alive == model.size(), "alive values ", alive, " want ", model.size());
  }
}

// ---------------------------------------------------------------- F16 ------
PBT_TEST(F16_cancellation, 320000, 6000000, "a subscription fired and one was dropped before firing") {
  using CC = ar::CancellationContext;
  struct Sub { std::shared_ptr<int> count; int ctx; bool fired, active; };
  std::vector<ar::CancellationContextPtr> ctx;
  std::vector<std::string> cancelled;  // "" = no
  std::vector<Sub> subs; std::vector<std::unique_ptr<CC::Subscription>> handles;
  std::vector<std::unique_ptr<CC::ScopeGuard>> scopes; std::vector<int> scope_ctx;
  for (int i = 0; i < 3; ++i) { ctx.push_back(CC::Make()); cancelled.push_back(""); }
  bool fired_any = false, dropped_any = false;
  size_t n = s.size(40);
  for (size_t i = 0; i < n; ++i) {
    int c = s.draw(2);
    switch (s.draw(7)) {
      case 0: {
        std::string m = pbt::cat("e", i);
        s.note("cancel ", c, " ", m);
        ctx[c]->Cancel(absl::AbortedError(m));
        if (cancelled[c].empty()) { cancelled[c] = m; for (auto& x : subs) if (x.ctx == c && x.active) { x.fired = true; x.active = false; fired_any = true; } }
        break;
      }
      case 1: case 2: {
        s.note("subscribe ", c);
        auto cnt = std::make_shared<int>(0);
        auto h = ctx[c]->Subscribe([cnt] { ++*cnt; });
        subs.push_back({cnt, c, !cancelled[c].empty(), cancelled[c].empty()});
        handles.push_back(std::make_unique<CC::Subscription>(std::move(h)));
        break;
      }
      case 3: if (!handles.empty()) {  // drop the handle: unsubscribe
        size_t j = s.draw(handles.size() - 1); s.note("drop ", j);
        if (handles[j]) { handles[j].reset(); if (subs[j].active) { subs[j].active = false; dropped_any = true; } }
        break;
      } else break;
      case 4: if (!handles.empty()) {
        size_t j = s.draw(handles.size() - 1); s.note("detach ", j);
        if (handles[j]) { std::move(*handles[j]).Detach(); handles[j].reset(); }
      } break;
      case 5: if (handles.size() >= 2) {  // move handles around
        size_t j = s.draw(handles.size() - 1);
        s.note("move ", j);
        if (handles[j]) { CC::Subscription t(std::move(*handles[j])); *handles[j] = std::move(t); }
      } break;
      case 6: { bool none = s.chance(1, 4); s.note("scope ", none ? -1 : c);
        scopes.push_back(std::make_unique<CC::ScopeGuard>(none ? ar::CancellationContextPtr() : ctx[c])); scope_ctx.push_back(none ? -1 : c); break; }
      default: if (!scopes.empty()) { s.note("unscope"); scopes.pop_back(); scope_ctx.pop_back(); }
    }
    for (int k = 0; k < 3; ++k) {
      PBT_ASSERT(ctx[k]->Cancelled() == !cancelled[k].empty());
      auto st = ctx[k]->GetStatus();
      PBT_ASSERT(st.ok() == cancelled[k].empty() && st.message() == cancelled[k], "the first cancellation wins: ", st.ToString(), " want ", cancelled[k]);
    }
    for (size_t j = 0; j < subs.size(); ++j) PBT_ASSERT(*subs[j].count == (subs[j].fired ? 1 : 0), "subscription ", j, " ran ", *subs[j].count, " times");
    for (size_t j = 0; j < subs.size(); ++j) PBT_ASSERT((subs[j].count.use_count() == 2) == (subs[j].active), "callback of subscription ", j, " retained=", subs[j].count.use_count() == 2, " want ", subs[j].active);
    int cur = scope_ctx.empty() ? -1 : scope_ctx.back();
    PBT_ASSERT(CC::ScopeGuard::current_cancellation_context() == (cur < 0 ? nullptr : ctx[cur].get()), "current context");
    PBT_ASSERT(ar::CurrentCancellationContext().get() == (cur < 0 ? nullptr : ctx[cur].get()));
    PBT_ASSERT(ar::Cancelled() == (cur >= 0 && !cancelled[cur].empty()));
    auto st = ar::CheckCancellation();
    PBT_ASSERT(cur < 0 ? st.ok() : st.message() == cancelled[cur]);
  }
  while (!scopes.empty()) scopes.pop_back();
  PBT_ASSERT(CC::ScopeGuard::current_cancellation_context() == nullptr && !ar::Cancelled());
  handles.clear();
  ctx.clear();
  for (size_t j = 0; j < subs.size(); ++j) PBT_ASSERT(subs[j].count.use_count() == 1, "callback leaked after its context died");
  if (fired_any && dropped_any) s.nontrivial();
}

// ---------------------------------------------------------------- F17 ------
struct PayloadA { int v; };
struct PayloadB { std::string v; };
struct MStat { absl::StatusCode code; std::string msg; int kind = 0; std::string pv; std::shared_ptr<MStat> cause; };
static void CheckStat(const absl::Status& st, const MStat& m) {
  PBT_ASSERT(st.code() == m.code, "code");
  PBT_ASSERT(st.message() == m.msg, "message '", std::string(st.message()), "' want '", m.msg, "'");
  auto* any = ar::GetPayload(st);
  PBT_ASSERT((any != nullptr) == (m.kind != 0), "payload presence, kind ", m.kind);
  auto* pa = ar::GetPayload<PayloadA>(st); auto* pb = ar::GetPayload<PayloadB>(st);
  auto* pn = ar::GetPayload<ar::NotePayload>(st); auto* pl = ar::GetPayload<ar::SourceLocationPayload>(st);
  PBT_ASSERT((pa != nullptr) == (m.kind == 1) && (pb != nullptr) == (m.kind == 2) && (pn != nullptr) == (m.kind == 3) && (pl != nullptr) == (m.kind == 4), "payload type");
  if (pa) PBT_ASSERT(std::to_string(pa->v) == m.pv); if (pb) PBT_ASSERT(pb->v == m.pv); if (pn) PBT_ASSERT(pn->note == m.pv); if (pl) PBT_ASSERT(pl->function_name == m.pv);
  auto* c = ar::GetCause(st);
  PBT_ASSERT((c != nullptr) == (m.cause != nullptr), "cause presence");
  if (c) CheckStat(*c, *m.cause);
}
PBT_TEST(F17_structured_errors, 320000, 4500000, "a chain with at least two causes and a payload") {
  std::vector<std::pair<absl::Status, MStat>> pool;
  size_t n = 1 + s.size(12);
  int chain = 0, pays = 0;
  for (size_t i = 0; i < n; ++i) {
    if (pool.empty() || s.chance(1, 4)) {
      MStat m{s.pick({absl::StatusCode::kInvalidArgument, absl::StatusCode::kNotFound, absl::StatusCode::kInternal}), s.ascii(8)};
      pool.push_back({absl::Status(m.code, m.msg), m});
      s.note("new ", m.msg);
      continue;
    }
    auto [st, m] = pool[s.draw(pool.size() - 1)];
    auto& [cst, cm] = pool[s.draw(pool.size() - 1)];
    int op = s.draw(6);
    s.note("op ", op);
    auto payload = [&]() -> std::any { ++pays; if (s.boolean()) { int v = s.range(-5, 5); m.kind = 1; m.pv = std::to_string(v); return PayloadA{v}; } m.kind = 2; m.pv = s.ascii(4); return PayloadB{m.pv}; };
    switch (op) {
      case 0: { absl::Status r = ar::WithCause(st, cst); m.cause = std::make_shared<MStat>(cm); st = r; ++chain; break; }
      case 1: { auto p = payload(); st = ar::WithPayload(st, p); break; }
      case 2: { auto p = payload(); st = ar::WithPayloadAndCause(st, p, cst); m.cause = std::make_shared<MStat>(cm); ++chain; break; }
      case 3: { std::string nm = s.ascii(6); st = ar::WithUpdatedMessage(st, nm); m.msg = nm; break; }
      case 4: { std::string nt = s.ascii(5); auto om = std::make_shared<MStat>(m); st = ar::WithNote(st, nt); m.msg = om->msg + "\n" + nt; m.kind = 3; m.pv = nt; m.cause = om; ++chain; break; }
      case 5: {
        ar::SourceLocationPayload p; if (s.boolean()) p.function_name = s.ident(4); if (s.boolean()) p.file_name = s.ident(4); p.line = s.range(0, 3); p.column = s.range(0, 3); if (s.boolean()) p.line_text = s.ident(3);
        auto om = std::make_shared<MStat>(m); std::string loc;
        if (!p.file_name.empty()) { loc = p.file_name; if (p.line) { loc += ":" + std::to_string(p.line); if (p.column) loc += ":" + std::to_string(p.column); } }
        if (!p.function_name.empty()) loc += std::string(loc.empty() ? "" : ", ") + "in " + p.function_name;
        m.msg = om->msg; if (!loc.empty() || !p.line_text.empty()) m.msg += "\n"; if (!loc.empty()) m.msg += "\n" + loc; if (!p.line_text.empty()) m.msg += "\n" + p.line_text;
        m.kind = 4; m.pv = p.function_name; m.cause = om; st = ar::WithSourceLocation(st, p); ++chain; break; }
      default: { // a cause that is OK counts as no cause
        st = ar::WithCause(st, absl::OkStatus()); m.cause = nullptr; break; }
    }
    pool.push_back({st, m});
  }
  if (chain >= 2 && pays) s.nontrivial();
  for (auto& [st, m] : pool) CheckStat(st, m);
  // copies keep their own chains when others die
  auto keep = pool[s.draw(pool.size() - 1)]; pool.clear(); CheckStat(keep.first, keep.second);
  absl::Status ok;
  PBT_ASSERT(ar::WithCause(ok, absl::InternalError("x")).ok() && ar::GetCause(ok) == nullptr && ar::GetPayload(ok) == nullptr);
}
PBT_TEST(F17_status_lifting, 480000, 7500000, "at least one argument is an error") {
  size_t n = s.size(6);
  std::vector<absl::StatusOr<int>> v; int first_bad = -1; std::vector<int> vals;
  for (size_t i = 0; i < n; ++i) {
    if (s.chance(1, 5)) { v.push_back(absl::InternalError(std::to_string(i))); if (first_bad < 0) first_bad = i; }
    else { int x = s.range(0, 9); v.push_back(x); vals.push_back(x); }
  }
  if (first_bad >= 0) s.nontrivial();
  s.note("n=", n, " first bad=", first_bad);
  auto chk = [&](const absl::Status& st) { PBT_ASSERT(st.ok() == (first_bad < 0)); if (!st.ok()) PBT_ASSERT(st.message() == std::to_string(first_bad), "must be the first error"); };
  { auto r = ar::LiftStatusUp(absl::MakeConstSpan(v)); chk(r.status()); if (r.ok()) PBT_ASSERT(*r == vals); }
  { auto c = v; auto r = ar::LiftStatusUp(std::move(c)); chk(r.status()); if (r.ok()) PBT_ASSERT(*r == vals); }
  if (n >= 3) {
    first_bad = -1; for (int i = 2; i >= 0; --i) if (!v[i].ok()) first_bad = i;
    chk(ar::CheckInputStatus(v[0], v[1].status(), 5, v[2]));
    auto t = ar::LiftStatusUp(v[0], v[1], v[2]); chk(t.status());
    if (t.ok()) PBT_ASSERT(*t == std::make_tuple(*v[0], *v[1], *v[2]));
    int calls = 0;
    auto f = ar::MakeUnStatusCaller([&](int a, int b, int c) { ++calls; return a * 100 + b * 10 + c; });
    auto r = f(v[0], v[1], v[2]); chk(r.status());
    PBT_ASSERT(calls == (first_bad < 0)); if (r.ok()) PBT_ASSERT(*r == *v[0] * 100 + *v[1] * 10 + *v[2]);
    auto f2 = ar::MakeUnStatusCaller([&](int a, int b) -> absl::StatusOr<int> { if (a == b) return absl::AbortedError("eq"); return a - b; });
    auto r2 = f2(v[0], 7);
    PBT_ASSERT(r2.ok() == (v[0].ok() && *v[0] != 7)); if (r2.ok()) PBT_ASSERT(*r2 == *v[0] - 7);
    chk(ar::FirstErrorStatus({v[0].status(), v[1].status(), v[2].status()}));
  }
}

// ---------------------------------------------------------------- F18 ------
PBT_TEST(F18_fingerprint, 320000, 6000000, "values crossing the internal buffer, or near-identical sequences") {
  // A sequence of typed values is encoded canonically; equal encodings must
  // give equal fingerprints and different ones different fingerprints.
  struct V { int t; std::string str; int64_t i; };
  auto gen = [&] { std::vector<V> v; size_t n = s.size(8); for (size_t k = 0; k < n; ++k) { V x; x.t = s.draw(3); x.i = s.chance(1, 2) ? s.range(0, 3) : s.integer<int64_t>(); x.str = s.chance(1, 5) ? std::string(s.draw(600), 'a' + s.draw(1)) : s.bytes(5); v.push_back(x); } return v; };
  auto fp = [](const std::vector<V>& v, const std::string& salt, int style) {
    ar::FingerprintHasher h(salt);
    for (auto& x : v) switch (x.t) {
      case 0: if (style) h.Combine(absl::string_view(x.str)); else h.Combine(x.str); break;
      case 1: h.Combine(x.i); break;
      case 2: { std::vector<int64_t> sp(x.str.begin(), x.str.end()); if (style) { h.Combine(sp.size()); for (auto q : sp) h.Combine(q); } else h.CombineSpan(sp); break; }
      default: if (style) { for (char c : x.str) h.CombineRawBytes(&c, 1); h.Combine(x.i); } else { h.CombineRawBytes(x.str.data(), x.str.size()); h.Combine(x.i); }
    }
    return std::move(h).Finish();
  };
  auto enc = [](const std::vector<V>& v) { std::string r; auto num = [&](uint64_t q) { r.append((char*)&q, 8); };
    for (auto& x : v) switch (x.t) { case 0: num(x.str.size()); r += x.str; break; case 1: num(x.i); break; case 2: num(x.str.size()); for (char c : x.str) num((int64_t)c); break; default: r += x.str; num(x.i); } return r; };
  auto a = gen(); auto b = s.boolean() ? gen() : a;
  if (!b.empty() && s.boolean()) { auto& x = b[s.draw(b.size() - 1)]; switch (s.draw(3)) { case 0: x.i ^= int64_t{1} << s.draw(63); break; case 1: if (!x.str.empty()) x.str[s.draw(x.str.size() - 1)] ^= 1 << s.draw(7); break; case 2: x.str += 'a'; break; default: std::swap(b.front(), b.back()); } }
  std::string salt = s.boolean() ? "salt" : s.ascii(6);
  size_t total = enc(a).size();
  s.note("lengths ", total, " ", enc(b).size(), " salt ", salt);
  if (total > 256 || a.size() == b.size()) s.nontrivial();
  auto fa = fp(a, salt, 0), fb = fp(b, salt, 0);
  bool same = a.size() == b.size();
  for (size_t k = 0; same && k < a.size(); ++k) same = a[k].t == b[k].t && (a[k].t == 1 || a[k].str == b[k].str) && (a[k].t != 1 && a[k].t != 3 || a[k].i == b[k].i);
  PBT_ASSERT(!same || fa == fb, "equal values must have equal fingerprints");
  PBT_ASSERT(fa != fb || enc(a) == enc(b), "different values with the same fingerprint");
  auto copy = a; for (auto& x : copy) x.str = std::string(x.str.begin(), x.str.end());
  PBT_ASSERT(fp(copy, salt, 0) == fa, "fingerprint is not a function of the value");
  // Small values: how the bytes were split does not matter.
  if (total + salt.size() < 200) PBT_ASSERT(fp(a, salt, 1) == fa, "string_view/string or span/elements differ");
  PBT_ASSERT(fp(a, salt + "x", 0) != fa, "salt ignored");
  PBT_ASSERT((fa.AsString() == fb.AsString()) == (fa == fb));
  std::string sa = s.bytes(20), sb = s.boolean() ? sa : s.bytes(20);
  PBT_ASSERT((ar::FingerprintOfString(sa) == ar::FingerprintOfString(sb)) == (sa == sb));
  PBT_ASSERT((ar::FingerprintOfBytes(sa.data(), sa.size()) == ar::FingerprintOfBytes(sb.data(), sb.size())) == (sa == sb));
  PBT_ASSERT(ar::RandomFingerprint() != ar::RandomFingerprint());
}

// ---------------------------------------------------------------- F19 ------
#include "arolla/naming/policy.h"
#include "arolla/naming/protopath_id.h"
#include "arolla/naming/table.h"
#include "arolla/jagged_shape/util/repr.h"
namespace nm = arolla::naming;
struct MSeg { std::string f; bool idx; bool operator==(const MSeg&) const = default; auto operator<=>(const MSeg&) const = default; };
static std::string SegName(Src& s) {
  switch (s.draw(7)) {
    case 0: return nm::ProtoExtensionAccess(s.ident(3) + "." + (s.boolean() ? "Ext" : s.ident(3)));
    case 1: return nm::ArrayAccess(s.ident(3), s.draw(20));
    case 2: return nm::MapAccess(s.ident(3), s.ident(3));
    case 3: return "@key";
    case 4: return s.pick({std::string("a"), std::string("b")});
    default: return s.ident(5);
  }
}
static std::vector<MSeg> Segs(Src& s, size_t max) { std::vector<MSeg> r; size_t n = s.draw(max); for (size_t i = 0; i < n; ++i) { std::string f = SegName(s); r.push_back({f, s.chance(1, 3)}); } return r; }
static nm::TablePath MakeT(const std::vector<MSeg>& v) { nm::TablePath t; for (auto& q : v) t = t.Child(q.f, q.idx); return t; }
static std::string FullN(const std::vector<MSeg>& v, bool m) { std::string r; for (auto& q : v) { r += "/" + q.f; if (m && q.idx) r += "[:]"; } return r; }
template <class P> static std::vector<MSeg> SegsOf(const P& p) { std::vector<MSeg> r; for (auto& q : p.PathSegments()) r.push_back({q.FieldName(), q.IsIndex()}); return r; }
static std::string RefFormat(int pol, const std::vector<MSeg>& v) {
  std::string r;
  auto repl = [](std::string t, char a, std::string b) { std::string o; for (char c : t) { if (c == a) o += b; else o += c; } return o; };
  switch (pol) {
    case 0: return FullN(v, false);
    case 1: for (size_t i = 0; i < v.size(); ++i) { if (i) r += "__"; std::string f = v[i].f; if (f.substr(0, 5) == "Ext::") { f = f.substr(5); for (char& c : f) { c = tolower(c); if (c == '.') c = '_'; } } r += f; } return r;
    case 2: for (size_t i = 0; i < v.size(); ++i) { if (i) r += "_"; r += v[i].f; } return r;
    case 3: if (v.empty()) return ""; if (v.back().f == "@size") return FullN(v, false); return v.back().f;
    case 4: return FullN(v, true);
    default: for (size_t i = 0; i < v.size(); ++i) { if (i) r += "."; std::string f = v[i].f; if (f.substr(0, 5) == "Ext::") f = "(" + f.substr(5) + ")"; r += f; } return r;
  }
}
PBT_TEST(F19_paths, 200000, 2000000, "a path of >= 3 segments with an index segment") {
  auto v = Segs(s, 5), w = Segs(s, 3);
  s.note(FullN(v, true), "   ", FullN(w, true));
  bool any = false; for (auto& q : v) any |= q.idx;
  if (v.size() >= 3 && any) s.nontrivial();
  nm::TablePath t = MakeT(v), u = MakeT(w);
  auto vw = v; vw.insert(vw.end(), w.begin(), w.end());
  PBT_ASSERT(SegsOf(t) == v && SegsOf(t.Child(u)) == vw, "child");
  PBT_ASSERT(SegsOf(nm::TablePath(t).Child("x")) == SegsOf(t.Child(nm::PathSegment("x", false))), "move child");
  PBT_ASSERT(t.FullName() == FullN(v, false) && t.FullName(true) == FullN(v, true), "full name");
  std::string cn = SegName(s); bool ci = s.boolean();
  nm::ColumnPath c = t.Column(cn, ci);
  auto vc = v; vc.push_back({cn, ci});
  PBT_ASSERT(SegsOf(c) == vc && c.FullName() == FullN(vc, false) && c.FullName(true) == FullN(vc, true), "column");
  PBT_ASSERT(SegsOf(u.Column(c)) == [&] { auto x = w; x.insert(x.end(), vc.begin(), vc.end()); return x; }(), "column of column");
  { auto x = vw; x.push_back({"@size", false}); PBT_ASSERT(SegsOf(t.Size(u)) == x, "size"); }
  { auto x = v; x.push_back({cn, false}); x.push_back({"@size", false}); PBT_ASSERT(SegsOf(t.Size(cn)) == x); }
  { auto x = v; x.push_back({"@size", false}); PBT_ASSERT(SegsOf(t.Size("")) == x, "size of itself"); }
  { auto x = v; x.push_back({"@key", false}); PBT_ASSERT(SegsOf(t.MapKeys()) == x); x.back().f = "@value"; PBT_ASSERT(SegsOf(t.MapValues()) == x); }
  // parent: the longest proper prefix ending with an index (or the root)
  auto par = t.ParentIndexPath();
  PBT_ASSERT(par.has_value() == !v.empty());
  if (par) { size_t k = v.size() - 1; while (k > 0 && !v[k - 1].idx) --k; PBT_ASSERT(SegsOf(*par) == std::vector<MSeg>(v.begin(), v.begin() + k), "parent of ", FullN(v, true), " is ", par->FullName(true)); }
  { size_t k = vc.size(); while (k > 0 && !vc[k - 1].idx) --k; PBT_ASSERT(SegsOf(c.ParentIndexPath()) == std::vector<MSeg>(vc.begin(), vc.begin() + k), "column parent"); }
  // prefixes
  PBT_ASSERT(SegsOf(*t.Child(u).RemovePrefix(t)) == w && SegsOf(*t.Child(u).Column(cn).RemovePrefix(t)) == [&] { auto x = w; x.push_back({cn, false}); return x; }(), "RemovePrefix");
  bool is_prefix = w.size() <= v.size() && std::equal(w.begin(), w.end(), v.begin());
  PBT_ASSERT(t.RemovePrefix(u).ok() == is_prefix, "prefix check");
  if (!v.empty()) { auto x = v; x.pop_back(); auto y = x; y.push_back({v.back().f, !v.back().idx}); PBT_ASSERT(!t.RemovePrefix(MakeT(y)).ok() && t.RemovePrefix(MakeT(x)).ok(), "index marker ignored in prefix"); }
  // ordering, equality, hashing
  auto v2 = s.boolean() ? v : Segs(s, 4); nm::TablePath t2 = MakeT(v2);
  PBT_ASSERT((t == t2) == (v == v2) && (t != t2) == (v != v2) && (t < t2) == (v < v2), "comparison");
  if (v == v2) PBT_ASSERT(absl::HashOf(t) == absl::HashOf(t2));
  { auto ref_fn = [&] { auto a = v, b = v2; a.push_back({"x", false}); b.push_back({"x", false}); return a < b; }; PBT_ASSERT((t.Column("x") == t2.Column("x")) == (v == v2) && (t.Column("x") < t2.Column("x")) == ref_fn()); }
  // ids
  std::string id = nm::TablePathToProtopathId(t);
  PBT_ASSERT(id == FullN(v, true));
  auto back = nm::TablePathFromProtopathId(id);
  bool roundtrips = true; for (auto& q : v) roundtrips &= q.f.find('/') == std::string::npos;
  if (roundtrips) PBT_ASSERT(back.ok() && SegsOf(*back) == v, "protopath id round trip of ", id);
  auto backc = nm::ColumnPathFromProtopathId(nm::ColumnPathToProtopathId(c));
  PBT_ASSERT(backc.ok() && SegsOf(*backc) == vc);
  if (!id.empty()) PBT_ASSERT(!nm::TablePathFromProtopathId(id.substr(1)).ok() && !nm::ColumnPathFromProtopathId("x" + id).ok(), "ids must start with a slash");
  static const char* names[] = {"default", "double_underscore", "single_underscore", "leaf_only", "protopath_id", "googlesql"};
  static const nm::Policy pols[] = {nm::DefaultPolicy(), nm::DoubleUnderscorePolicy(), nm::SingleUnderscorePolicy(), nm::LeafOnlyPolicy(), nm::ProtopathIdPolicy(), nm::GoogleSQLPolicy()};
  int p = s.draw(5);
  auto pol = nm::GetPolicy(names[p]);
  PBT_ASSERT(pol.ok() && pol->Name() == names[p] && pols[p].Name() == names[p]);
  auto q = s.boolean() ? vc : [&] { auto x = v; x.push_back({"@size", false}); return x; }();
  nm::ColumnPath qc = q == vc ? c : t.Size("");
  PBT_ASSERT(pol->Format(qc) == RefFormat(p, q), names[p], " of ", FullN(q, true), " is ", pol->Format(qc), " want ", RefFormat(p, q));
  PBT_ASSERT(pols[p].Format(t) == RefFormat(p, v), names[p], " of table ", FullN(v, true), " is ", pols[p].Format(t), " want ", RefFormat(p, v));
  PBT_ASSERT(!nm::GetPolicy(s.ident(4) + "?").ok());
}
PBT_TEST(F19_split_points_repr, 60000, 600000, ">= 3 parts of different sizes") {
  size_t n = s.size(12); std::vector<int64_t> sp{0}, sizes; size_t mx = s.draw(5);
  bool uni = s.chance(1, 3); int64_t us = s.draw(3);
  for (size_t i = 0; i < n; ++i) { int64_t k = uni ? us : (int64_t)s.draw(3); sizes.push_back(k); sp.push_back(sp.back() + k); }
  std::string got = ar::CompactSplitPointsAsSizesRepr(sp, mx);
  s.note(n, " max ", mx, " -> ", got);
  bool same = true; for (auto k : sizes) same &= k == sizes[0];
  if (!same && n >= 3) s.nontrivial();
  std::string want;
  if (n == 0) want = "[]";
  else if (same) want = std::to_string(sizes[0]);
  else {
    std::vector<std::string> parts;
    if (n <= 2 * mx) for (auto k : sizes) parts.push_back(std::to_string(k));
    else { for (size_t i = 0; i < mx; ++i) parts.push_back(std::to_string(sizes[i])); parts.push_back("..."); for (size_t i = n - mx; i < n; ++i) parts.push_back(std::to_string(sizes[i])); }
    want = "["; for (size_t i = 0; i < parts.size(); ++i) want += (i ? ", " : "") + parts[i]; want += "]";
  }
  PBT_ASSERT(got == want, "got ", got, " want ", want);
}
