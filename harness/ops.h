// What the checks of operators against their documentation share.
#ifndef VERIF_OPS_H_
#define VERIF_OPS_H_
#include <cmath>
#include "expr.h"
#include "arolla/qexpr/operators.h"
#include "absl/container/flat_hash_map.h"

namespace ops {
using namespace xp;  // NOLINT
using Num = std::optional<long double>;  // holds any number exactly
using Col = std::vector<Num>;
using Strs = std::vector<std::optional<std::string>>;
enum NT { I32, I64, F32, F64, U64, BOOL, UNIT };
enum AK { aDense, aFull, aSparse, aDefault };

template <class T>
T One(Src& s, std::vector<T> v) { return v[s.draw(v.size() - 1)]; }

inline bool IsF(NT t) { return t == F32 || t == F64; }

template <class F>
auto ForNT(NT t, F f) {
  switch (t) {
    case I32: return f(int32_t{});
    case I64: return f(int64_t{});
    case F32: return f(float{});
    case F64: return f(double{});
    case U64: return f(uint64_t{});
    case BOOL: return f(bool{});
    case UNIT: return f(Unit{});
  }
  abort();
}

// A call of an operator by name; the arguments are leaves or literals.
inline absl::StatusOr<TypedValue> Call(const std::string& op, const std::vector<TypedValue>& args, uint32_t lit = 0) {
  std::vector<absl::StatusOr<ExprNodePtr>> nodes;
  absl::flat_hash_map<std::string, TypedValue> m;
  for (size_t i = 0; i < args.size(); ++i) {
    if (lit >> i & 1) {
      nodes.push_back(Literal(args[i]));
    } else {
      auto n = MakeOpNode(QTypeAnnotation::Make(), {Leaf(absl::StrCat("x", i)), Literal(args[i].GetType())});
      if (!n.ok()) return n.status();
      nodes.push_back(*n);
      m.emplace(absl::StrCat("x", i), args[i]);
    }
  }
  auto e = CallOp(op, nodes);
  if (!e.ok()) return e.status();
  return Invoke(*e, m);
}

template <class T>
T To(long double x) {
  if constexpr (std::is_same_v<T, Unit>) return Unit{};
  else if constexpr (std::is_same_v<T, bool>) return x != 0;
  else return static_cast<T>(x);
}

template <class T>
TypedValue ArrayOf(const std::vector<OptionalValue<T>>& v, AK k, const T& d) {
  auto da = CreateDenseArray<T>(v);
  switch (k) {
    case aDense: return TypedValue::FromValue(da);
    case aFull: return TypedValue::FromValue(Array<T>(da));
    case aSparse: return TypedValue::FromValue(Array<T>(da).ToSparseForm());
    case aDefault: return TypedValue::FromValue(Array<T>(da).ToSparseForm(d));
  }
  abort();
}

// The default of a sparse array is its first element.
inline TypedValue Make(NT t, const Col& c, AK k) {
  return ForNT(t, [&]<class T>(T) {
    std::vector<OptionalValue<T>> v(c.size());
    T d{};
    for (size_t i = 0; i < c.size(); ++i) if (c[i]) v[i] = To<T>(*c[i]);
    for (auto& x : v) if (x.present) { d = x.value; break; }
    if constexpr (std::is_floating_point_v<T>) if (d == 0) d = 1;  // zeros that equal the default lose their signs
    return ArrayOf<T>(v, k, d);
  });
}
inline TypedValue MakeStrs(const Strs& c, AK k, bool bytes = false) {
  auto f = [&]<class T>(T) {
    std::vector<OptionalValue<T>> v(c.size());
    T d{};
    for (size_t i = 0; i < c.size(); ++i) if (c[i]) v[i] = T(*c[i]);
    for (auto& x : v) if (x.present) { d = x.value; break; }
    return ArrayOf<T>(v, k, d);
  };
  return bytes ? f(Bytes()) : f(Text());
}
inline TypedValue Scalar(NT t, long double x) {
  return ForNT(t, [&]<class T>(T) { return TypedValue::FromValue(To<T>(x)); });
}
inline TypedValue Opt(NT t, Num x) {
  return ForNT(t, [&]<class T>(T) { return TypedValue::FromValue(x ? OptionalValue<T>(To<T>(*x)) : OptionalValue<T>()); });
}

template <class T>
long double Ld(const T& x) {
  if constexpr (std::is_same_v<T, Unit>) return 1;
  else return x;
}

// The elements of a value: one of a scalar or an optional.
template <class T, class R, class F>
bool ReadAs(TypedRef v, std::vector<std::optional<R>>* out, F f) {
  if (v.GetType() == GetQType<T>()) {
    out->push_back(f(v.UnsafeAs<T>()));
  } else if (v.GetType() == GetOptionalQType<T>()) {
    auto& o = v.UnsafeAs<OptionalValue<T>>();
    out->push_back(o.present ? std::optional<R>(f(o.value)) : std::nullopt);
  } else if (v.GetType() == GetQType<DenseArray<T>>()) {
    auto& a = v.UnsafeAs<DenseArray<T>>();
    for (int64_t i = 0; i < a.size(); ++i) out->push_back(a[i].present ? std::optional<R>(f(T(a[i].value))) : std::nullopt);
  } else if (v.GetType() == GetQType<Array<T>>()) {
    auto& a = v.UnsafeAs<Array<T>>();
    for (int64_t i = 0; i < a.size(); ++i) {
      auto x = a[i];
      out->push_back(x.present ? std::optional<R>(f(T(x.value))) : std::nullopt);
    }
  } else {
    return false;
  }
  return true;
}
inline Col Read(TypedRef v0) {
  TypedRef v = v0;
  Col c;
  if (v.GetType() == GetWeakFloatQType()) return {Num(v.UnsafeAs<double>())};
  bool ok = false;
  for (NT t : {I32, I64, F32, F64, U64, BOOL, UNIT}) {
    ForNT(t, [&]<class T>(T) { ok = ok || ReadAs<T, long double>(v, &c, [](const T& x) { return Ld(x); }); return 0; });
    if (ok) return c;
  }
  PBT_FAIL("not numbers: ", v.Repr());
}
inline Strs ReadStrs(TypedRef v) {
  Strs c;
  if (ReadAs<Text, std::string>(v, &c, [](const Text& x) { return std::string(x.view()); })) return c;
  if (ReadAs<Bytes, std::string>(v, &c, [](const Bytes& x) { return std::string(absl::string_view(x)); })) return c;
  PBT_FAIL("not strings: ", v.Repr());
}

inline std::string Show(const Col& c) {
  std::string r;
  for (auto& x : c) absl::StrAppend(&r, r.empty() ? "" : " ", x ? absl::StrCat(static_cast<double>(*x)) : "-");
  return "[" + r + "]";
}
inline std::string Show(const Strs& c) {
  std::string r;
  for (auto& x : c) absl::StrAppend(&r, r.empty() ? "" : " ", x ? absl::StrCat("'", *x, "'") : "-");
  return "[" + r + "]";
}

inline bool Near(long double a, long double b, double rel) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= rel * std::max({std::fabs(a), std::fabs(b), rel == 0 ? 0.0L : 1.0L});
}

}  // namespace ops
#endif
