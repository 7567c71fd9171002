// E17: operators on types, against a model of types. E18: random operators.
#include "ops.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/qtype/dict/dict_types.h"
#include "arolla/qtype/named_field_qtype.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/sequence/mutable_sequence.h"
#include "arolla/sequence/sequence.h"
#include "arolla/util/cityhash.h"
#include "arolla/sequence/sequence_qtype.h"
using namespace ops;  // NOLINT

namespace {
enum K { qNothing, qQType, qUnspec, qScalar, qOpt, qArr, qDense, qTuple, qNamed, qSlice, qSeq, qDict, qRows, qArrEdge, qDenseEdge, qScalarEdge, qArrToScalar, qDenseToScalar, qScalarShape, qOptShape, qArrShape, qDenseShape };
struct Ty {
  K k;
  std::string s;                    // the scalar, in scalars, optionals and arrays
  std::vector<Ty> f = {};           // what it is made of
  std::vector<std::string> n = {};  // the names, in named tuples
};
const std::vector<std::string> kScalars = {"UNIT", "BOOLEAN", "BYTES", "TEXT", "INT32", "INT64", "UINT64", "FLOAT32", "FLOAT64", "WEAK_FLOAT"};
std::string Name(const Ty& t) {
  auto list = [&] {
    std::vector<std::string> p;
    for (size_t i = 0; i < t.f.size(); ++i) p.push_back(absl::StrCat(t.n.empty() ? "" : t.n[i] + "=", Name(t.f[i])));
    return absl::StrJoin(p, ",");
  };
  switch (t.k) {
    case qNothing: return "NOTHING";
    case qQType: return "QTYPE";
    case qUnspec: return "UNSPECIFIED";
    case qScalar: return t.s;
    case qOpt: return "OPTIONAL_" + t.s;
    case qArr: return "ARRAY_" + t.s;
    case qDense: return "DENSE_ARRAY_" + t.s;
    case qTuple: return "tuple<" + list() + ">";
    case qNamed: return "namedtuple<" + list() + ">";
    case qSlice: return "slice<" + list() + ">";
    case qSeq: return "SEQUENCE[" + list() + "]";
    case qDict: return "Dict<" + list() + ">";
    case qRows: return "DICT_" + t.f[0].s;
    case qArrEdge: return "ARRAY_EDGE";
    case qDenseEdge: return "DENSE_ARRAY_EDGE";
    case qScalarEdge: return "SCALAR_TO_SCALAR_EDGE";
    case qArrToScalar: return "ARRAY_TO_SCALAR_EDGE";
    case qDenseToScalar: return "DENSE_ARRAY_TO_SCALAR_EDGE";
    case qScalarShape: return "SCALAR_SHAPE";
    case qOptShape: return "OPTIONAL_SCALAR_SHAPE";
    case qArrShape: return "ARRAY_SHAPE";
    case qDenseShape: return "DENSE_ARRAY_SHAPE";
  }
  abort();
}
TypedValue TV(QTypePtr t) { return TypedValue::FromValue(t); }
absl::StatusOr<TypedValue> QOp(const std::string& op, const std::vector<TypedValue>& args, uint32_t lit = 0) { return Call("qtype." + op, args, lit); }
QTypePtr MustQ(const absl::StatusOr<TypedValue>& v, const std::string& what) {
  PBT_ASSERT(v.ok(), v.status(), " for ", what);
  auto q = v->As<QTypePtr>();
  PBT_ASSERT(q.ok(), what, " is ", v->Repr());
  return *q;
}
QTypePtr ScalarQ(const std::string& s) {
  if (s == "UNIT") return GetQType<Unit>();
  if (s == "BOOLEAN") return GetQType<bool>();
  if (s == "BYTES") return GetQType<Bytes>();
  if (s == "TEXT") return GetQType<Text>();
  if (s == "INT32") return GetQType<int>();
  if (s == "INT64") return GetQType<int64_t>();
  if (s == "UINT64") return GetQType<uint64_t>();
  if (s == "FLOAT32") return GetQType<float>();
  if (s == "FLOAT64") return GetQType<double>();
  return GetWeakFloatQType();
}
QTypePtr Q(const Ty& t) {
  auto fields = [&] {
    std::vector<QTypePtr> r;
    for (auto& x : t.f) r.push_back(Q(x));
    return r;
  };
  // Arrays are made with the operators, as asking for a type in C++ may be what registers it.
  auto array = [&](QTypePtr shape) { return MustQ(QOp("with_value_qtype", {TV(shape), TV(ScalarQ(t.s))}), Name(t)); };
  switch (t.k) {
    case qNothing: return GetNothingQType();
    case qQType: return GetQTypeQType();
    case qUnspec: return GetUnspecifiedQType();
    case qScalar: return ScalarQ(t.s);
    case qOpt: return *ToOptionalQType(ScalarQ(t.s));
    case qArr: return array(GetQType<ArrayShape>());
    case qDense: return array(GetQType<DenseArrayShape>());
    case qTuple: return MakeTupleQType(fields());
    case qNamed: return *MakeNamedTupleQType(t.n, MakeTupleQType(fields()));
    case qSlice: return MakeSliceQType(Q(t.f[0]), Q(t.f[1]), Q(t.f[2]));
    case qSeq: return GetSequenceQType(Q(t.f[0]));
    case qDict: return *GetDictQType(Q(t.f[0]), Q(t.f[1]));
    case qRows: return *GetKeyToRowDictQType(Q(t.f[0]));
    case qArrEdge: return GetQType<ArrayEdge>();
    case qDenseEdge: return GetQType<DenseArrayEdge>();
    case qScalarEdge: return GetQType<ScalarToScalarEdge>();
    case qArrToScalar: return GetQType<ArrayGroupScalarEdge>();
    case qDenseToScalar: return GetQType<DenseArrayGroupScalarEdge>();
    case qScalarShape: return GetQType<ScalarShape>();
    case qOptShape: return GetQType<OptionalScalarShape>();
    case qArrShape: return GetQType<ArrayShape>();
    case qDenseShape: return GetQType<DenseArrayShape>();
  }
  abort();
}
Ty S(const std::string& s) { return {qScalar, s}; }
bool IsKey(const std::string& s) { return !s.starts_with("FLOAT") && s != "WEAK_FLOAT" && s != "UNIT"; }
Ty GenTy(Src& s, int depth) {
  int k = s.draw(depth > 0 ? 21 : 11);
  if (k < 7) return {One<K>(s, {qScalar, qOpt, qArr, qDense}), s.pick(kScalars)};
  if (k < 10) return {One<K>(s, {qArrEdge, qDenseEdge, qScalarEdge, qArrToScalar, qDenseToScalar, qScalarShape, qOptShape, qArrShape, qDenseShape})};
  if (k == 10) return {One<K>(s, {qNothing, qQType, qUnspec})};
  if (k == 11) { std::string key = s.pick(kScalars); return IsKey(key) ? Ty{qRows, "", {S(key)}} : S(key); }
  if (k < 15) {
    Ty t{qTuple};
    for (int n = s.range(0, 3); n > 0; --n) t.f.push_back(GenTy(s, depth - 1));
    return t;
  }
  if (k < 17) {
    Ty t{qNamed};
    for (int n = s.range(0, 3); n > 0; --n) { t.f.push_back(GenTy(s, depth - 1)); t.n.push_back(absl::StrCat(s.pick<std::string>({"a", "b_", "Zz", "x y"}), n)); }
    return t;
  }
  if (k == 17) return {qSlice, "", {GenTy(s, depth - 1), GenTy(s, depth - 1), GenTy(s, depth - 1)}};
  if (k < 20) return {qSeq, "", {GenTy(s, depth - 1)}};
  std::string key = s.pick(kScalars);
  return {qDict, "", {S(IsKey(key) ? key : "TEXT"), S(s.pick(kScalars))}};
}
bool Valued(const Ty& t) { return t.k == qScalar || t.k == qOpt || t.k == qArr || t.k == qDense; }
Ty None() { return {qNothing}; }
Ty Derived(const Ty& t) {  // the base type
  if (Valued(t) && t.s == "WEAK_FLOAT") return {t.k, "FLOAT64"};
  if (t.k == qNamed || t.k == qSlice) return {qTuple, "", t.f};
  if (t.k == qDict) return {qTuple, "", {Ty{qRows, "", {t.f[0]}}, Ty{qDense, t.f[1].s}}};
  return t;
}
std::vector<Ty> Fields(const Ty& t) {
  if (t.k == qTuple || t.k == qNamed || t.k == qSlice) return t.f;
  if (t.k == qOpt && t.s == "UNIT") return {S("BOOLEAN")};
  if (t.k == qOpt) return {S("BOOLEAN"), S(t.s)};
  if (t.k == qDict) return Derived(t).f;
  return {};
}
// The scalar behind a type, of those that have one.
std::optional<std::string> Sc(const Ty& t) {
  if (Valued(t)) return t.s;
  if (t.k == qRows) return t.f[0].s;
  if (t.k == qSeq && t.f[0].k == qScalar) return t.f[0].s;
  return std::nullopt;
}
bool IsInt(const std::string& s) { return s == "INT32" || s == "INT64"; }
bool IsFloat(const std::string& s) { return s == "FLOAT32" || s == "FLOAT64" || s == "WEAK_FLOAT"; }
Ty ShapeOf(K k) { return {k == qScalar ? qScalarShape : k == qOpt ? qOptShape : k == qArr ? qArrShape : qDenseShape}; }
std::optional<std::string> CommonScalar(std::string a, std::string b) {
  if (a == b) return a;
  static const std::vector<std::string> order = {"INT32", "INT64", "WEAK_FLOAT", "FLOAT32", "FLOAT64"};
  int i = std::find(order.begin(), order.end(), a) - order.begin(), j = std::find(order.begin(), order.end(), b) - order.begin();
  if (i == 5 || j == 5) return std::nullopt;
  if (i > j) std::swap(i, j);
  if (i < 2 && j == 2) return "FLOAT32";  // a weak float does not widen, and integers need a float
  return order[j];
}
// The kind of the value after broadcasting.
std::optional<K> CommonKind(K a, K b) {
  if (a > b) std::swap(a, b);
  if (a == qArr && b == qDense) return std::nullopt;
  return b;
}
}  // namespace

PBT_TEST(E17_qtypes, 30000, 500000, "a type made of others, or two types with values") {
  Init();
  int depth = s.range(0, 3);
  Ty a = GenTy(s, depth);
  auto qa = TV(Q(a));
  uint32_t lit = s.draw(7);
  PBT_ASSERT(Q(a)->name() == Name(a), "a type named ", Q(a)->name(), " instead of ", Name(a));
  if (!a.f.empty()) s.nontrivial();
  auto type = [&](const std::string& what, const absl::StatusOr<TypedValue>& got, const Ty& want) {
    QTypePtr q = MustQ(got, what);
    PBT_ASSERT(q->name() == Name(want), what, " is ", q->name(), " instead of ", Name(want));
    PBT_ASSERT(q == Q(want), what, " is another type named ", Name(want));
  };
  auto mask = [&](const std::string& op, bool want) {
    auto got = QOp(op, {qa}, lit);
    PBT_ASSERT(got.ok(), got.status());
    PBT_ASSERT(got->GetType() == GetQType<OptionalUnit>(), op, " gives ", got->GetType()->name());
    PBT_ASSERT(got->UnsafeAs<OptionalUnit>().present == want, op, " of ", Name(a), " is ", got->Repr());
  };
  std::string na = Name(a);
  auto un = [&](const std::string& op, const Ty& want) { type(op + " of " + na, QOp(op, {qa}, lit), want); };
  auto sc = Sc(a);
  switch (s.draw(13)) {
    case 0: {  // what kind of type it is
      bool arr = a.k == qArr || a.k == qDense;
      mask("is_array_qtype", arr);
      mask("is_dense_array_qtype", a.k == qDense);
      mask("is_optional_qtype", a.k == qOpt);
      mask("is_scalar_qtype", a.k == qScalar);
      mask("is_tuple_qtype", a.k == qTuple);
      mask("is_namedtuple_qtype", a.k == qNamed);
      mask("is_slice_qtype", a.k == qSlice);
      mask("is_sequence_qtype", a.k == qSeq);
      mask("is_dict_qtype", a.k == qDict);
      mask("is_shape_qtype", a.k >= qScalarShape);
      mask("is_array_shape_qtype", a.k >= qArrShape);
      mask("is_edge_qtype", a.k >= qArrEdge && a.k <= qDenseToScalar);
      mask("is_edge_to_scalar_qtype", a.k >= qScalarEdge && a.k <= qDenseToScalar);
      mask("is_derived_qtype", Name(Derived(a)) != na);
      break;
    }
    case 1: {  // what its values are
      mask("is_integral_qtype", sc && IsInt(*sc));
      mask("is_floating_point_qtype", sc && IsFloat(*sc));
      mask("is_numeric_qtype", sc && (IsInt(*sc) || IsFloat(*sc)));
      mask("is_integral_scalar_qtype", a.k == qScalar && IsInt(a.s));
      mask("is_floating_point_scalar_qtype", a.k == qScalar && IsFloat(a.s));
      mask("is_numeric_scalar_qtype", a.k == qScalar && (IsInt(a.s) || IsFloat(a.s)));
      break;
    }
    case 2: {
      un("decay_derived_qtype", Derived(a));
      if (a.k != qSeq) un("get_scalar_qtype", sc ? S(*sc) : None());
      Ty v = a.k == qOpt || a.k == qArr || a.k == qDense ? S(a.s) : a.k == qSeq || a.k == qRows ? a.f[0] : None();
      un("get_value_qtype", v);
      break;
    }
    case 3: {
      bool v = Valued(a);
      un("get_shape_qtype", v ? ShapeOf(a.k) : None());
      un("get_presence_qtype", v ? Ty{a.k == qScalar ? qOpt : a.k, "UNIT"} : None());
      un("optional_like_qtype", v ? Ty{a.k == qScalar ? qOpt : a.k, a.s} : None());
      un("get_edge_qtype", a.k == qArr ? Ty{qArrEdge} : a.k == qDense ? Ty{qDenseEdge} : None());
      un("get_edge_to_scalar_qtype", a.k == qArr ? Ty{qArrToScalar} : a.k == qDense ? Ty{qDenseToScalar} : v ? Ty{qScalarEdge} : None());
      un("get_float_qtype", v && IsInt(a.s) ? Ty{a.k, "FLOAT32"} : v && IsFloat(a.s) ? a : None());
      break;
    }
    case 4: {
      bool dense = a.k == qDenseEdge || a.k == qDenseToScalar, arr = a.k == qArrEdge || a.k == qArrToScalar, sca = a.k == qScalarEdge;
      un("get_child_shape_qtype", dense ? Ty{qDenseShape} : arr ? Ty{qArrShape} : sca ? Ty{qOptShape} : None());
      un("get_parent_shape_qtype", a.k == qDenseEdge ? Ty{qDenseShape} : a.k == qArrEdge ? Ty{qArrShape} : dense || arr || sca ? Ty{qOptShape} : None());
      un("get_dict_key_qtype", a.k == qDict ? a.f[0] : None());
      un("get_dict_value_qtype", a.k == qDict ? a.f[1] : None());
      un("_get_key_to_row_dict_key_qtype", a.k == qRows ? a.f[0] : None());
      un("_get_key_to_row_dict_qtype", a.k == qScalar && IsKey(a.s) ? Ty{qRows, "", {a}} : None());
      break;
    }
    case 5: {  // fields
      auto f = Fields(a);
      auto got = QOp("get_field_count", {qa}, lit);
      PBT_ASSERT(got.ok() && got->GetType() == GetQType<int64_t>() && got->UnsafeAs<int64_t>() == static_cast<int64_t>(f.size()), "fields of ", na);
      auto all = QOp("get_field_qtypes", {qa}, lit);
      PBT_ASSERT(all.ok(), all.status());
      auto& seq = all->UnsafeAs<Sequence>();
      PBT_ASSERT(seq.value_qtype() == GetQTypeQType() && seq.size() == f.size(), na);
      for (size_t i = 0; i < f.size(); ++i) PBT_ASSERT(seq.GetRef(i).UnsafeAs<QTypePtr>() == Q(f[i]), "field ", i, " of ", na);
      int i = s.range(-1, f.size());
      NT it = s.boolean() ? I32 : I64;
      type(absl::StrCat("field ", i, " of ", na), QOp("get_field_qtype", {qa, Scalar(it, i)}, lit), i >= 0 && i < static_cast<int>(f.size()) ? f[i] : None());
      if (a.k != qOpt) {
        auto names = QOp("get_field_names", {qa}, lit);
        PBT_ASSERT(names.ok(), names.status());
        auto& ns = names->UnsafeAs<Sequence>();
        PBT_ASSERT(ns.value_qtype() == GetQType<Text>() && ns.size() == a.n.size(), na);
        for (size_t j = 0; j < a.n.size(); ++j) PBT_ASSERT(ns.GetRef(j).UnsafeAs<Text>() == Text(a.n[j]), "name ", j, " of ", na);
      }
      break;
    }
    case 6: {  // slices of fields
      auto f = Fields(a);
      int n = f.size(), off = s.range(-1, n + 1), size = s.range(-2, n + 1);
      int len = size == -1 ? n - off : size;
      Ty want = None();
      if (off >= 0 && off <= n && len >= 0 && off + len <= n) want = {qTuple, "", std::vector<Ty>(f.begin() + off, f.begin() + off + len)};
      type(absl::StrCat("slice ", off, " ", size, " of ", na), QOp("slice_tuple_qtype", {qa, Scalar(s.boolean() ? I32 : I64, off), Scalar(s.boolean() ? I32 : I64, size)}, lit), want);
      break;
    }
    case 7: {
      un("make_sequence_qtype", {qSeq, "", {a}});
      std::vector<TypedValue> args;
      Ty want{qTuple};
      for (int i = s.range(0, 3); i > 0; --i) { Ty t = GenTy(s, depth); want.f.push_back(t); args.push_back(TV(Q(t))); }
      type("make_tuple_qtype", QOp("make_tuple_qtype", args, lit), want);
      if (args.size() == 3) type("make_slice_qtype", QOp("make_slice_qtype", args, 7), {qSlice, "", want.f});
      break;
    }
    case 8: {
      Ty b = GenTy(s, depth);
      OptionalUnit c{s.boolean()};
      type("conditional_qtype", QOp("conditional_qtype", {TypedValue::FromValue(c), qa, TV(Q(b))}, lit), c.present ? a : b);
      break;
    }
    case 9: {  // dicts
      Ty b = s.chance(2, 3) ? Ty{One<K>(s, {qScalar, qOpt, qDense}), s.pick(kScalars)} : GenTy(s, 1);
      bool key = a.k == qScalar && IsKey(a.s);
      if (key && b.k == qScalar) s.nontrivial();
      Ty want = key && b.k == qScalar ? Ty{qDict, "", {a, b}} : None();
      if (key && b.k == qOpt) want = {qDict, "", {a, S(b.s)}};
      type("dict of " + na + " and " + Name(b), QOp("make_dict_qtype", {qa, TV(Q(b))}, lit), want);
      break;
    }
    case 10: {  // values in a shape
      Ty sh = s.chance(4, 5) ? Ty{One<K>(s, {qScalarShape, qOptShape, qArrShape, qDenseShape})} : GenTy(s, 1);
      Ty want = None();
      if (a.k == qScalar || a.k == qOpt) {
        if (sh.k == qScalarShape) want = a;
        if (sh.k == qOptShape) want = {qOpt, a.s};
        if (sh.k == qArrShape) want = {qArr, a.s};
        if (sh.k == qDenseShape) want = {qDense, a.s};
        s.nontrivial();
      }
      if (a.k == qOpt) return;  // values that are optional themselves are left to the shape
      type(Name(sh) + " with values " + na, QOp("with_value_qtype", {TV(Q(sh)), qa}, lit), want);
      break;
    }
    case 11:
    case 12: {  // common types
      Ty b = s.chance(1, 6) ? a : s.chance(1, 6) ? GenTy(s, depth) : Ty{One<K>(s, {qScalar, qOpt, qArr, qDense}), s.pick(kScalars)};
      std::string both = na + " and " + Name(b);
      Ty want = None();
      if (Name(b) == na) want = a;
      else if (Valued(a) && Valued(b)) {
        s.nontrivial();
        auto cs = CommonScalar(a.s, b.s);
        auto ck = CommonKind(a.k, b.k);
        if (cs && ck) want = {*ck, *cs};
      }
      type("common of " + both, QOp("common_qtype", {qa, TV(Q(b))}, lit), want);
      break;
    }
    case 13: {  // broadcasting
      Ty b = s.chance(1, 6) ? GenTy(s, depth) : Ty{One<K>(s, {qScalar, qOpt, qArr, qDense}), s.pick(kScalars)};
      Ty want = None();
      if (Valued(a) && Valued(b)) {
        s.nontrivial();
        auto ck = CommonKind(a.k, b.k);
        if (ck) want = {*ck, b.s};
      }
      type(Name(b) + " like " + na, QOp("broadcast_qtype_like", {qa, TV(Q(b))}, lit), want);
      break;
    }
  }
}

PBT_TEST(E17_namedtuples, 20000, 300000, "two named fields or more") {
  Init();
  static const std::vector<std::string> kNames = {"a", "b", "abc", "x y", "", "_", "\xd1\x8f", "a,b", "a=1", "len"};
  using F = std::vector<std::pair<std::string, TypedValue>>;
  int next = 0;
  auto gen = [&] {
    F f;
    for (int i = s.range(0, 4); i > 0; --i) {
      std::string n = s.pick(kNames);
      bool dup = false;
      for (auto& [k, _] : f) dup = dup || k == n;
      if (dup) continue;
      ++next;
      f.emplace_back(n, s.boolean() ? Scalar(I32, next) : s.boolean() ? TypedValue::FromValue(Text(absl::StrCat(next))) : Opt(F64, Num(next)));
    }
    return f;
  };
  auto build = [&](const F& f) {
    std::vector<std::string> n;
    std::vector<TypedValue> v;
    for (auto& [k, x] : f) { n.push_back(k); v.push_back(x); }
    auto r = MakeNamedTuple(n, v);
    PBT_ASSERT(r.ok(), r.status());
    return *r;
  };
  auto same = [&](const std::string& what, const absl::StatusOr<TypedValue>& got, const F& want) {
    PBT_ASSERT(got.ok(), got.status(), " for ", what);
    TypedValue w = build(want);
    PBT_ASSERT(got->GetType() == w.GetType() && got->GetFingerprint() == w.GetFingerprint(), what, " is ", got->Repr(), " instead of ", w.Repr());
  };
  F a = gen(), b = gen();
  auto va = build(a);
  if (a.size() >= 2) s.nontrivial();
  uint32_t lit = s.draw(3);
  switch (s.draw(2)) {
    case 0: {
      F want = a;
      for (auto& [k, v] : b) {
        bool had = false;
        for (auto& [k2, v2] : want) if (k2 == k) { v2 = v; had = true; }
        if (!had) want.emplace_back(k, v);
      }
      same(absl::StrCat("union of ", va.Repr(), " and ", build(b).Repr()), Call("namedtuple.union", {va, build(b)}, lit), want);
      break;
    }
    case 1: {
      std::string n = a.empty() || s.chance(1, 4) ? s.pick(kNames) : s.pick(a).first;
      auto got = Call("namedtuple.get_field", {va, TypedValue::FromValue(Text(n))}, lit | 2);
      const TypedValue* want = nullptr;
      for (auto& [k, v] : a) if (k == n) want = &v;
      if (!want) PBT_ASSERT(!got.ok(), va.Repr(), " has a field ", n);
      else PBT_ASSERT(got.ok() && got->GetType() == want->GetType() && got->GetFingerprint() == want->GetFingerprint(), "field ", n, " of ", va.Repr());
      break;
    }
    case 2: {
      std::vector<TypedValue> names, vals;
      F want = a;
      for (auto& [k, v] : a) { names.push_back(TypedValue::FromValue(Text(k))); vals.push_back(v); }
      bool bad = false;
      if (!names.empty() && s.chance(1, 8)) { names.push_back(names[0]); vals.push_back(vals[0]); bad = true; }
      else if (s.chance(1, 8)) { vals.push_back(Scalar(I32, 1)); bad = true; }
      auto seq = [&] {
        auto m = MutableSequence::Make(GetQType<Text>(), names.size());
        for (size_t i = 0; i < names.size(); ++i) m->UnsafeSetRef(i, names[i].AsRef());
        return TypedValue::FromValueWithQType(std::move(*m).Finish(), GetSequenceQType<Text>()).value();
      };
      auto nt = s.boolean() ? MakeTuple(names) : seq();
      auto got = Call("namedtuple._make", {nt, MakeTuple(vals)}, lit | 1);
      if (bad) PBT_ASSERT(!got.ok(), "made a bad named tuple ", got->Repr());
      else same("namedtuple._make " + va.Repr(), got, want);
      break;
    }
  }
}

namespace {
int64_t Hash(const std::string& x, int64_t seed) { return CityHash64WithSeed(x.data(), x.size(), seed) & 0x7fffffffffffffff; }
// Keys of every type that can be one, with their texts.
struct Keys {
  TypedValue v;
  Strs text;
};
Keys GenKeys(Src& s, int n, bool dense, bool scalar = false) {
  AK k = dense ? aDense : static_cast<AK>(s.range(aFull, aDefault));
  int kind = s.draw(4), spread = s.boolean() ? 3 : 1000;
  bool missing = !scalar && s.boolean();
  Col c;
  Strs t, raw;
  for (int i = 0; i < n; ++i) {
    if (missing && s.chance(1, 4)) { c.push_back(Num()); t.push_back(std::nullopt); raw.push_back(std::nullopt); continue; }
    int64_t x = kind == 2 ? s.range(0, 1) : s.range(-spread, spread);
    c.push_back(x);
    raw.push_back(absl::StrCat(x, kind == 3 && x % 2 ? "\xd1\x8f" : ""));
    t.push_back(kind == 2 ? (x ? "true" : "false") : kind >= 3 ? *raw.back() : absl::StrCat(x));
  }
  if (kind == 4) for (auto& x : t) if (x) x = absl::StrCat("b'", *x, "'");
  if (scalar) {
    TypedValue v = kind == 3 ? TypedValue::FromValue(Text(*raw[0])) : kind == 4 ? TypedValue::FromValue(Bytes(*raw[0])) : Scalar(kind == 0 ? I32 : kind == 1 ? I64 : BOOL, *c[0]);
    return {v, t};
  }
  return {kind >= 3 ? MakeStrs(raw, k, kind == 4) : Make(kind == 0 ? I32 : kind == 1 ? I64 : BOOL, c, k), t};
}
}  // namespace

PBT_TEST(E18_random, 25000, 400000, "four elements or more and an answer") {
  Init();
  bool dense = s.boolean();
  int n = s.chance(1, 8) ? s.range(60, 130) : s.range(0, 9);
  int64_t seed = s.chance(1, 4) ? static_cast<int64_t>(s.bits64()) : s.range(-3, 3);
  auto vseed = Scalar(I64, seed);
  TypedValue shape = dense ? TypedValue::FromValue(DenseArrayShape{n}) : TypedValue::FromValue(ArrayShape{n});
  uint32_t lit = s.chance(1, 4) ? s.draw(7) : 0;
  std::string what;
  AK k = dense ? aDense : static_cast<AK>(s.range(aFull, aDefault));
  auto expect = [&](const absl::StatusOr<TypedValue>& got, const Col& want) {
    PBT_ASSERT(got.ok(), got.status(), " for ", what);
    Col c = Read(got->AsRef());
    PBT_ASSERT(c == want, what, " is ", Show(c), " instead of ", Show(want));
PBT_ASSERT(got->GetType() == (dense ? GetQType<DenseArray<Unit>>() : GetQType<Array<Unit>>()), what, " is a ", got->GetType()->name());
  };
  Strs iota;
  for (int i = 0; i < n; ++i) iota.push_back(absl::StrCat(i));
  bool with_key = s.boolean();
  Keys key = GenKeys(s, n, dense);
  const Strs& text = with_key ? key.text : iota;
  auto vkey = with_key ? key.v : GetUnspecifiedQValue();
  int op = s.draw(4);
  if (n >= 4) s.nontrivial();
  if (op == 0) {
    what = absl::StrCat("random.cityhash ", Show(key.text), " seed ", seed);
    auto got = Call("random.cityhash", {key.v, vseed}, lit);
    PBT_ASSERT(got.ok(), got.status());
    Col want;
    for (auto& x : key.text) want.push_back(x ? Num(Hash(*x, seed)) : Num());
    Col c = Read(got->AsRef());
    PBT_ASSERT(c == want, what, " is ", Show(c), " instead of ", Show(want));
    Keys one = GenKeys(s, 1, dense, true);
    auto g1 = Call("random.cityhash", {one.v, vseed}, lit);
    PBT_ASSERT(g1.ok() && g1->GetType() == GetQType<int64_t>() && g1->UnsafeAs<int64_t>() == Hash(*one.text[0], seed), "hash of ", *one.text[0]);
  } else if (op == 1) {
    NT ft = s.boolean() ? F32 : F64;
    long double ratio = s.chance(1, 4) ? One<double>(s, {0, 1, 0.5, -0.5, 1.5, NAN, INFINITY, 1e-30}) : s.range(0, 1000) / 1000.0;
    double r = ft == F32 ? static_cast<float>(ratio) : static_cast<double>(ratio);
    what = absl::StrCat("random.sample of ", n, " ratio ", r, " seed ", seed, " keys ", Show(text));
    Col want(n);
    for (int i = 0; i < n; ++i) if (text[i] && static_cast<double>(Hash(*text[i], seed)) < (std::isnan(r) ? r : std::min(r, 1.0)) * 9223372036854775808.0) want[i] = 1;
    expect(Call("random.sample", {shape, Scalar(ft, ratio), vseed, vkey}, with_key ? lit & 7 : 8 | (lit & 7)), want);
  } else if (op == 2) {
    // At most so many of each group, those that hash lowest.
    bool over = s.boolean(), each = over;
    int parents = over ? s.range(n ? 1 : 0, 4) : 1;
    std::vector<std::optional<int64_t>> map(n);
    Col m;
    for (auto& x : map) { if (!over) x = 0; else if (!s.chance(1, 8)) x = s.draw(parents - 1); m.push_back(x ? Num(*x) : Num()); }
    NT it = s.boolean() ? I32 : I64;
    Col lim;
    int all = s.range(-1, 5);
    for (int p = 0; p < parents; ++p) lim.push_back(each ? (s.chance(1, 6) ? Num() : Num(s.range(-1, 5))) : Num(all));
    what = absl::StrCat("random.sample_n of ", n, " at most ", Show(lim), " seed ", seed, " keys ", Show(text), " groups ", Show(m));
    Col want(n);
    for (int p = 0; p < parents; ++p) {
      std::vector<std::pair<int64_t, int>> in;
      for (int i = 0; i < n; ++i) if (map[i] == p && text[i]) in.emplace_back(Hash(*text[i], seed), i);
      std::sort(in.begin(), in.end());
      for (size_t j = 0; lim[p] && static_cast<int64_t>(j) < static_cast<int64_t>(in.size()) && static_cast<long double>(j) < *lim[p]; ++j) want[in[j].second] = 1;
    }
    auto mapping = Make(I64, m, k);
    TypedValue edge = !over ? GetUnspecifiedQValue() : dense ? TypedValue::FromValue(*DenseArrayEdge::FromMapping(mapping.UnsafeAs<DenseArray<int64_t>>(), parents)) : TypedValue::FromValue(*ArrayEdge::FromMapping(mapping.UnsafeAs<Array<int64_t>>(), parents));
    auto vn = each ? Make(it, lim, k) : Scalar(it, all);
    expect(Call("random.sample_n", {shape, vn, vseed, vkey, edge}, (with_key ? 0 : 8) | (over ? 0 : 16) | (lit & 7)), want);
  } else {
    // Integers in their ranges, the same for the same seed.
    bool arrays = s.boolean();
    int64_t lo = s.chance(1, 6) ? One<int64_t>(s, {INT64_MIN, INT64_MAX - 1, -1}) : s.range(-5, 5);
    int64_t hi = s.chance(1, 6) ? One<int64_t>(s, {INT64_MIN + 1, INT64_MAX, 0}) : s.range(-4, 12);
    bool bad = false;
    Col cl(n), ch(n);
    for (int i = 0; i < n; ++i) {
      if (arrays) {
        if (!s.chance(1, 6)) cl[i] = s.range(-5, 5);
        if (!s.chance(1, 6)) ch[i] = cl[i] && !s.chance(1, 60) ? *cl[i] + s.range(1, 8) : s.range(-5, 9);
      } else { cl[i] = lo; ch[i] = hi; }
      if (cl[i] && ch[i] && *cl[i] >= *ch[i]) bad = true;
    }
    if (!arrays) bad = lo >= hi;
    int off = arrays && n && s.chance(1, 20) ? 1 : 0;  // of another size
    auto shape2 = dense ? TypedValue::FromValue(DenseArrayShape{n + off}) : TypedValue::FromValue(ArrayShape{n + off});
    auto vl = arrays ? Make(I64, cl, k) : Opt(I64, Num(lo)), vh = arrays ? Make(I64, ch, dense ? aDense : static_cast<AK>(s.range(aFull, aDefault))) : Opt(I64, Num(hi));
    what = absl::StrCat("array.randint ", n + off, " from ", arrays ? Show(cl) : absl::StrCat(lo), " to ", arrays ? Show(ch) : absl::StrCat(hi), " seed ", seed, dense ? " dense" : "");
    auto run = [&](const TypedValue& sd) { return InvokeOperator("array.randint_with_shape", {shape2, vl, vh, sd}, dense ? GetQType<DenseArray<int64_t>>() : GetQType<Array<int64_t>>()); };
    auto got = run(vseed);
    if (bad || off) { PBT_ASSERT(!got.ok(), what, " is ", got->Repr()); return; }
    PBT_ASSERT(got.ok(), got.status(), " for ", what);
    Col c = Read(got->AsRef());
    PBT_ASSERT(static_cast<int>(c.size()) == n, what, " is ", Show(c));
    for (int i = 0; i < n; ++i) {
      bool present = cl[i] && ch[i];
      PBT_ASSERT(present == c[i].has_value(), what, " is ", Show(c));
      if (present) PBT_ASSERT(*c[i] >= *cl[i] && *c[i] < *ch[i], what, " is ", Show(c));
    }
    auto again = run(vseed);
    PBT_ASSERT(again.ok() && Read(again->AsRef()) == c, what, " is another time something else");
    if (!arrays && n >= 9 && hi / 2 - lo / 2 >= 4) {
      auto other = run(Scalar(I64, static_cast<int64_t>(static_cast<uint64_t>(seed) + 1)));
      PBT_ASSERT(other.ok() && Read(other->AsRef()) != c, what, " is the same for the next seed");
      PBT_ASSERT(std::set<Num>(c.begin(), c.end()).size() > 1, what, " is ", Show(c));
    }
  }
}
