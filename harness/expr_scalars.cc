// E13 arithmetic, comparison, logic and casts against their documentation.
#include "ops.h"

namespace {
using namespace ops;  // NOLINT

Num GenNum(Src& s, NT t) {
  if (t == BOOL) return s.boolean();
  if (t == UNIT) return 1;
  long double small = s.range(-9, 9);
  if (t == U64) small = s.draw(9);
  auto near = [&](long double x) { return x + s.range(-2, 2); };
  switch (s.draw(7)) {
    case 0:
      if (t == I32) return s.boolean() ? INT32_MIN + s.range(0, 2) : INT32_MAX - s.range(0, 2);
      if (t == I64) return s.boolean() ? static_cast<long double>(INT64_MIN) + s.range(0, 2) : static_cast<long double>(INT64_MAX) - s.range(0, 2);
      if (t == U64) return static_cast<long double>(UINT64_MAX) - s.range(0, 2);
      switch (s.draw(5)) {
        case 0: return NAN;
        case 1: return INFINITY;
        case 2: return -INFINITY;
        case 3: return -0.0L;
        case 4: return 1e-30L * (s.boolean() ? 1 : -1);
        default: return 3e38L * (s.boolean() ? 1 : -1);
      }
    case 1: {  // around powers of two
      int e = s.range(1, t == I32 ? 29 : 61);
      long double x = std::ldexp(1.0L, e) * (t != U64 && s.boolean() ? -1 : 1);
      x = near(x);
      if (IsF(t)) x = t == F32 ? static_cast<long double>(std::nextafterf(x, s.boolean() ? INFINITY : -INFINITY)) : x;
      return x;
    }
    case 2:
      if (IsF(t)) return small + s.range(-8, 8) / 8.0L;
      return small * 7919;
    case 3:
      if (IsF(t)) {
        long double e = One<long double>(s, {2147483647.0L, 2147483648.0L, 9223372036854775808.0L, 18446744073709551616.0L, 4294967296.0L});
        e *= s.boolean() ? 1 : -1;
        if (s.boolean()) e = t == F32 ? static_cast<long double>(std::nextafterf(e, s.boolean() ? INFINITY : -INFINITY)) : static_cast<long double>(std::nextafter(static_cast<double>(e), s.boolean() ? INFINITY : -INFINITY));
        if (s.chance(1, 3)) e = near(e);
        return e;
      }
      return small;
    default: return small;
  }
}

// Rounds to the type.
long double Fit(NT t, long double x) {
  return ForNT(t, [&]<class T>(T) -> long double {
    if constexpr (std::is_floating_point_v<T>) return static_cast<T>(x);
    return x;
  });
}

struct R {
  Num v;              // missing or a value
  bool error = false;
  bool any = false;   // not specified
};
R Val(long double x) { return {x}; }
R Err() { R r; r.error = true; return r; }
R Any() { R r; r.any = true; return r; }
R Missing() { return {}; }
R Present(bool b) { return {b ? Num(1) : Num()}; }

template <class T>
long double WrapTo(__int128 x) {
  using U = std::make_unsigned_t<T>;
  return static_cast<T>(static_cast<U>(static_cast<unsigned __int128>(x)));
}

template <class T>
T SatMul(long double x) { return static_cast<T>(x); }

const std::set<std::string> kInexact = {"math.exp", "math.expm1", "math.log", "math.log10", "math.log1p", "math.log2", "math.log_sigmoid", "math.logit", "math.sigmoid", "math.symlog1p", "math.trig.atan", "math.trig.cos", "math.trig.sin", "math.trig.sinh", "math.pow"};

// a, b: present values of the type.
template <class T>
R Op(const std::string& op, long double la, long double lb) {
  T a = To<T>(la), b = To<T>(lb);
  auto is = [&](const char* x) { return op == x; };
  if constexpr (std::is_arithmetic_v<T>) {
    if (is("bool.equal")) return Val(a == b);
    if (is("bool.not_equal")) return Val(a != b);
    if (is("bool.less")) return Val(a < b);
    if (is("bool.less_equal")) return Val(a <= b);
    if (is("bool.greater")) return Val(a > b);
    if (is("bool.greater_equal")) return Val(a >= b);
    if (is("core.equal")) return Present(a == b);
    if (is("core.not_equal")) return Present(a != b);
    if (is("core.less")) return Present(a < b);
    if (is("core.less_equal")) return Present(a <= b);
    if (is("core.greater")) return Present(a > b);
    if (is("core.greater_equal")) return Present(a >= b);
  }
  if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) {
    __int128 x = a, y = b;
    if (is("math.add")) return Val(WrapTo<T>(x + y));
    if (is("math.subtract")) return Val(WrapTo<T>(x - y));
    if (is("math.multiply")) return Val(static_cast<long double>(static_cast<T>(static_cast<unsigned __int128>(x) * static_cast<unsigned __int128>(y))));
    if (is("math.floordiv")) {
      if (y == 0) return Err();
      __int128 q = x / y;
      if (x % y != 0 && (x < 0) != (y < 0)) --q;
      return Val(WrapTo<T>(q));
    }
    if (is("math.mod")) {
      if (y == 0) return Err();
      __int128 m = x % y;
      if (m != 0 && (m < 0) != (y < 0)) m += y;
      return Val(WrapTo<T>(m));
    }
    if (is("math.neg")) return Val(WrapTo<T>(-x));
    if (is("math.abs")) return Val(WrapTo<T>(x < 0 ? -x : x));
    if (is("math.pos")) return Val(a);
    if (is("math.sign")) return Val((x > 0) - (x < 0));
    if (is("math.maximum")) return Val(std::max(a, b));
    if (is("math.minimum")) return Val(std::min(a, b));
    if (is("bitwise.bitwise_and")) return Val(a & b);
    if (is("bitwise.bitwise_or")) return Val(a | b);
    if (is("bitwise.bitwise_xor")) return Val(a ^ b);
    if (is("bitwise.invert")) return Val(static_cast<T>(~a));
  }
  if constexpr (std::is_floating_point_v<T>) {
    if (is("math.add")) return Val(static_cast<T>(a + b));
    if (is("math.subtract")) return Val(static_cast<T>(a - b));
    if (is("math.multiply")) return Val(static_cast<T>(a * b));
    if (is("math.divide")) return Val(static_cast<T>(a / b));
    if (is("math.neg")) return Val(-a);
    if (is("math.pos")) return Val(a);
    if (is("math.abs")) return Val(std::fabs(a));
    if (is("math.sign")) return Val(std::isnan(a) ? NAN : (a > 0) - (a < 0));
    if (is("math.floor")) return Val(std::floor(a));
    if (is("math.ceil")) return Val(std::ceil(a));
    if (is("math.round")) return Val(std::round(a));
    if (is("math.maximum") || is("math.minimum")) {
      if (std::isnan(a) || std::isnan(b)) return Val(NAN);
      return Val(is("math.maximum") ? std::max(a, b) : std::min(a, b));
    }
    if (is("math.fmod")) return Val(std::fmod(a, b));
    if (is("math.is_nan")) return Present(std::isnan(a));
    if (is("math.is_inf")) return Present(std::isinf(a));
    if (is("math.is_finite")) return Present(std::isfinite(a));
    if (is("math.floordiv") || is("math.mod")) {
      if (b == 0) return Err();
      if (!std::isfinite(a) || std::isnan(b)) return Val(NAN);
      if (std::isinf(b)) return is("math.floordiv") ? Val(a != 0 && (a < 0) != (b < 0) ? -1 : 0) : (a == 0 || (a < 0) == (b < 0)) ? Val(a) : Val(b);
      if (!std::isfinite(a / b) || a / b == 0) return Any();
      // Exact where the quotient is.
      long double q = std::floor(la / lb), m = la - q * lb;
      if (std::fabs(q) > 1e6L || std::fabs(la) > 1e6L || std::fabs(lb) < 1e-3L) return Any();
      if (static_cast<T>(q * lb) != q * lb || static_cast<T>(m) != m || (m != 0 && (m / lb < 1e-3L || m / lb > 0.999L))) return Any();
      return Val(is("math.floordiv") ? q : m);
    }
    if (is("math.pow")) return Val(std::pow(a, b));
    if (is("math.exp")) return Val(std::exp(a));
    if (is("math.expm1")) return Val(std::expm1(a));
    if (is("math.log")) return Val(std::log(a));
    if (is("math.log10")) return Val(std::log10(a));
    if (is("math.log1p")) return Val(std::log1p(a));
    if (is("math.log2")) return Val(std::log2(a));
    if (is("math.log_sigmoid")) return std::isinf(a) && a < 0 ? Val(a) : Val(static_cast<T>(-(la > 0 ? std::log1p(std::exp(-la)) : -la + std::log1p(std::exp(la)))));
    if (is("math.logit")) return Val(static_cast<T>(std::log(la) - std::log1p(-la)));
    if (is("math.sigmoid")) return Val(static_cast<T>(1 / (1 + std::exp(-la))));
    if (is("math.symlog1p")) return Val(static_cast<T>(la >= 0 ? std::log1p(la) : -std::log1p(-la)));
    if (is("math.trig.atan")) return Val(std::atan(a));
    if (is("math.trig.cos")) return Val(std::cos(a));
    if (is("math.trig.sin")) return Val(std::sin(a));
    if (is("math.trig.sinh")) return Val(std::sinh(a));
  }
  return Any();
}

R Cast(NT from, NT to, long double x) {
  if (to == BOOL) return Val(x != 0);
  if (IsF(to)) {
    // Rounded once, from the type.
    if (from == I64 || from == U64 || from == F64 || from == I32 || from == F32 || from == BOOL) return Val(to == F32 ? static_cast<long double>(static_cast<float>(x)) : static_cast<long double>(static_cast<double>(x)));
  }
  if (std::isnan(x)) return Err();
  long double r = std::trunc(x);
  long double lo = to == I32 ? INT32_MIN : to == I64 ? static_cast<long double>(INT64_MIN) : 0;
  long double hi = to == I32 ? INT32_MAX : to == I64 ? static_cast<long double>(INT64_MAX) : static_cast<long double>(UINT64_MAX);
  if (r < lo || r > hi) return Err();
  if (x < lo || x > hi) return Any();  // rounds into the range
  return Val(r);
}

const std::vector<std::string> kBinary = {
    "math.add", "math.subtract", "math.multiply", "math.floordiv", "math.mod", "math.maximum", "math.minimum", "bool.equal", "bool.not_equal", "bool.less", "bool.less_equal", "bool.greater", "bool.greater_equal", "core.equal", "core.not_equal", "core.less", "core.less_equal", "core.greater", "core.greater_equal"};
const std::vector<std::string> kBinaryF = {"math.divide", "math.fmod", "math.pow"};
const std::vector<std::string> kBinaryI = {"bitwise.bitwise_and", "bitwise.bitwise_or", "bitwise.bitwise_xor"};
const std::vector<std::string> kUnary = {"math.neg", "math.abs", "math.pos", "math.sign"};
const std::vector<std::string> kUnaryF = {"math.floor", "math.ceil", "math.round", "math.is_nan", "math.is_inf", "math.is_finite", "math.exp", "math.expm1", "math.log", "math.log10", "math.log1p", "math.log2", "math.log_sigmoid", "math.logit", "math.sigmoid", "math.symlog1p", "math.trig.atan", "math.trig.cos", "math.trig.sin", "math.trig.sinh"};

// A column of one element as a scalar or an optional, or an array.
TypedValue Shape(Src& s, NT t, const Col& c, bool one, bool dense) {
  if (one) return c[0] && s.boolean() ? Scalar(t, *c[0]) : Opt(t, c[0]);
  return Make(t, c, dense ? aDense : static_cast<AK>(s.range(aFull, aDefault)));
}

Col GenCol(Src& s, NT t, int n) {
  Col c(n);
  int some = s.draw(2);
  for (auto& x : c) if (some == 0 || !s.chance(1, 4)) x = Fit(t, *GenNum(s, t));
  return c;
}

void Check(const std::string& what, const absl::StatusOr<TypedValue>& got, const std::vector<R>& want, double rel) {
  bool error = std::any_of(want.begin(), want.end(), [](auto& r) { return r.error; });
  bool any = std::any_of(want.begin(), want.end(), [](auto& r) { return r.any; });
  if (error) {
    PBT_ASSERT(!got.ok() && got.status().code() == absl::StatusCode::kInvalidArgument, what, " is ", got.ok() ? got->Repr() : got.status().ToString(), " instead of an error");
    return;
  }
  if (any && !got.ok()) return;
  PBT_ASSERT(got.ok(), got.status(), " for ", what);
  Col r = Read(got->AsRef());
  PBT_ASSERT(r.size() == want.size(), what, " has ", r.size(), " elements");
  for (size_t i = 0; i < r.size(); ++i) {
    if (want[i].any) continue;
    auto& w = want[i].v;
    PBT_ASSERT(r[i].has_value() == w.has_value() && (!w || Near(*r[i], *w, rel)), what, ": element ", i, " is ", r[i] ? absl::StrCat(static_cast<double>(*r[i])) : "missing", " instead of ", w ? absl::StrCat(static_cast<double>(*w)) : "missing");
  }
}

PBT_TEST(E13_arithmetic, 30000, 600000, "two present elements or more with results") {
  Init();
  NT t = One<NT>(s, {I32, I64, F32, F64, U64});
  std::string op;
  bool unary = false;
  switch (s.draw(4)) {
    case 0: op = IsF(t) ? s.pick(kBinaryF) : s.pick(kBinaryI); break;
    case 1: op = IsF(t) ? s.pick(kUnaryF) : s.boolean() ? "bitwise.invert" : s.pick(kUnary); unary = true; break;
    case 2: op = s.pick(kUnary); unary = true; break;
    default: op = s.pick(kBinary); break;
  }
  if (t == U64 && op != "core.equal" && op != "core.not_equal") t = I64;
  if (op.substr(0, 5) == "core." && s.chance(1, 6)) t = BOOL;
  bool one = s.chance(1, 4), dense = s.boolean();
  int n = one ? 1 : s.chance(1, 10) ? s.range(60, 70) : s.range(0, 9);
  Col a = GenCol(s, t, n), b = GenCol(s, t, n);
  if (op == "math.floordiv" || op == "math.mod") {
    if (s.chance(3, 4)) for (auto& y : b) if (y && *y == 0) y = 3;
  }
  if (!unary) for (int i = 0; i < n; ++i) if (s.chance(1, 6)) b[i] = a[i];
  std::vector<TypedValue> args = {Shape(s, t, a, one, dense)};
  if (!unary) {
    // A scalar for an array.
    if (!one && n > 0 && s.chance(1, 4)) {
      Num y = b[0];
      b.assign(n, y);
      args.push_back(y && s.boolean() ? Scalar(t, *y) : Opt(t, y));
    } else {
      args.push_back(Shape(s, t, b, one, dense));
    }
  }
  std::vector<R> want(n);
  int present = 0;
  for (int i = 0; i < n; ++i) {
    if (!a[i] || (!unary && !b[i])) continue;
    want[i] = ForNT(t, [&]<class T>(T) { return Op<T>(op, *a[i], unary ? 0 : *b[i]); });
    present += !want[i].any;
  }
  if (present >= 2) s.nontrivial();
  if (op == "math.sigmoid") { args.push_back(Scalar(t, 0)); args.push_back(Scalar(t, 1)); }
  // A floating literal is weak, which is as good.
  auto got = Call(op, args, s.chance(1, 4) ? s.draw(3) : 0);
  Check(absl::StrCat(op, " of ", Show(a), unary ? "" : " and " + Show(b), " type ", t), got, want, kInexact.count(op) ? (t == F32 ? 2e-6 : 1e-13) : (op == "math.mod" && IsF(t)) ? 1e-6 : 0);
}

PBT_TEST(E13_casts, 20000, 500000, "two elements or more that fit, or some that do not") {
  Init();
  NT from = One<NT>(s, {I32, I64, F32, F64, U64, BOOL});
  NT to = One<NT>(s, {I32, I64, F32, F64, U64, BOOL});
  static const std::map<NT, std::string> kOps = {{I32, "core.to_int32"}, {I64, "core.to_int64"}, {F32, "core.to_float32"}, {F64, "core.to_float64"}, {U64, "core.to_uint64"}, {BOOL, "core.to_bool"}};
  bool one = s.chance(1, 3), dense = s.boolean();
  int n = one ? 1 : s.range(0, 9);
  Col a = GenCol(s, from, n);
  bool safe = s.chance(2, 3);
  std::vector<R> want(n);
  for (int i = 0; i < n; ++i) {
    if (!a[i]) continue;
    want[i] = Cast(from, to, *a[i]);
    if (safe && (want[i].error || want[i].any)) a[i] = 1, want[i] = Val(1);
  }
  s.nontrivial();
  auto got = Call(kOps.at(to), {Shape(s, from, a, one, dense)}, s.draw(1));
  Check(absl::StrCat(kOps.at(to), " of ", Show(a), " type ", from), got, want, 0);
}

PBT_TEST(E13_logic, 20000, 400000, "both missing and present elements") {
  Init();
  static const std::vector<std::string> kOps = {"bool.logical_and", "bool.logical_or", "bool.logical_not", "bool.logical_if", "core.presence_and", "core.presence_or", "core.presence_not", "core.where", "core.has", "math.is_close", "core.const_like", "core.zeros_like", "core.ones_like", "core.empty_like", "math.searchsorted"};
  std::string op = s.pick(kOps);
  NT t = static_cast<NT>(s.draw(4));
  if (t == U64 && (op == "core.zeros_like" || op == "core.ones_like")) t = I32;
  bool one = s.chance(1, 4), dense = s.boolean();
  int n = one ? 1 : s.chance(1, 10) ? s.range(60, 70) : s.range(0, 9);
  std::vector<R> want(n);
  std::vector<TypedValue> args;
  std::string what = op;
  auto add = [&](NT tt, const Col& c) { args.push_back(Shape(s, tt, c, one, dense)); absl::StrAppend(&what, " ", Show(c)); };
  Col x = GenCol(s, t, n), y = GenCol(s, t, n), z = GenCol(s, t, n);
  Col bx = GenCol(s, BOOL, n), by = GenCol(s, BOOL, n), u = GenCol(s, UNIT, n);
  if (op == "bool.logical_and" || op == "bool.logical_or") {
    bool zero = op == "bool.logical_or";
    add(BOOL, bx); add(BOOL, by);
    for (int i = 0; i < n; ++i) {
      if ((bx[i] && *bx[i] == zero) || (by[i] && *by[i] == zero)) want[i] = Val(zero);
      else if (bx[i] && by[i]) want[i] = Val(!zero);
    }
  } else if (op == "bool.logical_not") {
    add(BOOL, bx);
    for (int i = 0; i < n; ++i) if (bx[i]) want[i] = Val(!*bx[i]);
  } else if (op == "bool.logical_if") {
    add(BOOL, bx); add(t, x); add(t, y); add(t, z);
    for (int i = 0; i < n; ++i) want[i].v = !bx[i] ? z[i] : *bx[i] ? x[i] : y[i];
  } else if (op == "core.presence_and") {
    add(t, x); add(UNIT, u);
    for (int i = 0; i < n; ++i) if (u[i]) want[i].v = x[i];
  } else if (op == "core.presence_or") {
    add(t, x); add(t, y);
    for (int i = 0; i < n; ++i) want[i].v = x[i] ? x[i] : y[i];
  } else if (op == "core.presence_not" || op == "core.has") {
    if (op == "core.presence_not" || s.boolean()) {
      args.push_back(one ? Opt(t, x[0]) : Shape(s, t, x, one, dense));
      absl::StrAppend(&what, " ", Show(x));
    } else {
      args.push_back(one ? Opt(UNIT, u[0]) : Shape(s, UNIT, u, one, dense));
      x = u;
      absl::StrAppend(&what, " ", Show(x));
    }
    for (int i = 0; i < n; ++i) want[i] = Present(x[i].has_value() == (op == "core.has"));
  } else if (op == "core.where") {
    args.push_back(one ? Opt(UNIT, u[0]) : Shape(s, UNIT, u, one, dense));
    add(t, x); add(t, y);
    for (int i = 0; i < n; ++i) want[i].v = u[i] ? x[i] : y[i];
  } else if (op == "math.is_close") {
    if (!IsF(t)) t = F32, x = GenCol(s, t, n), y = GenCol(s, t, n);
    double rtol = One<double>(s, {0, 0.125, 0.5}), atol = One<double>(s, {0, 0.25, 2});
    for (int i = 0; i < n; ++i) if (x[i] && s.boolean()) y[i] = Fit(t, *x[i] * (1 + s.range(-8, 8) / 8.0L));
    add(t, x); add(t, y);
    args.push_back(Scalar(t, rtol)); args.push_back(Scalar(t, atol));
    for (int i = 0; i < n; ++i) {
      if (!x[i] || !y[i]) continue;
      long double a = *x[i], b = *y[i];
      if (std::isnan(a) || std::isnan(b)) continue;
      if (a == b) { want[i] = Present(true); continue; }
      if (std::isinf(a) || std::isinf(b)) continue;
      long double tol = std::max(rtol * std::max(std::fabs(a), std::fabs(b)), static_cast<long double>(atol)), d = std::fabs(a - b);
      if (std::fabs(d - tol) <= 1e-5L * tol || tol > 1e30L) want[i] = Any();  // rounding
      else want[i] = Present(d <= tol);
    }
  } else if (op == "math.searchsorted") {
    if (t == U64) t = I64, y = GenCol(s, t, n);
    if (one) y[0] = y[0] ? y[0] : Num(0);
    int m = s.range(0, 9);
    Col h;
    for (int i = 0; i < m; ++i) {
      Num v = Fit(t, *GenNum(s, t));
      h.push_back(std::isnan(*v) ? Num(0) : v);
    }
    std::sort(h.begin(), h.end());
    for (auto& v : y) if (v && (std::isnan(*v) || s.boolean())) v = h.empty() ? Num(1) : h[s.draw(m - 1)];
    bool right = s.boolean();
    args.push_back(Make(t, h, dense ? aDense : aFull));
    absl::StrAppend(&what, Show(h));
    add(t, y);
    args.push_back(Scalar(BOOL, right));
    for (int i = 0; i < n; ++i) {
      if (!y[i]) continue;
      int k = 0;
      for (auto& v : h) k += right ? *v <= *y[i] : *v < *y[i];
      want[i] = Val(k);
    }
  } else {
    add(t, x);
    long double v = op == "core.zeros_like" ? 0 : op == "core.ones_like" ? 1 : Fit(t, *GenNum(s, t));
    if (op == "core.const_like") args.push_back(Scalar(t, v));
    if (op != "core.empty_like") for (int i = 0; i < n; ++i) want[i] = Val(v);
  }
  int have = 0;
  for (auto& w : want) have += w.v.has_value();
  if (have && have < n) s.nontrivial();
  auto got = Call(op, args, s.chance(1, 4) ? s.draw(15) : 0);
  if (op == "core.empty_like" && one) {
    PBT_ASSERT(got.ok(), got.status());
  }
  Check(absl::StrCat(what, " type ", t), got, want, 0);
}

}  // namespace
