// Random values, random well-typed expressions over the standard operator
// library, comparison of values and a naive interpreter.
#ifndef VERIF_HARNESS_EXPR_H_
#define VERIF_HARNESS_EXPR_H_
#include <cmath>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/expr/annotation_expr_operators.h"
#include "arolla/expr/annotation_utils.h"
#include "arolla/expr/eval/eval.h"
#include "arolla/expr/eval/invoke.h"
#include "arolla/expr/eval/model_executor.h"
#include "arolla/expr/expr.h"
#include "arolla/expr/expr_debug_string.h"
#include "arolla/expr/expr_node.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/expr/expr_visitor.h"
#include "arolla/expr/lambda_expr_operator.h"
#include "arolla/expr/optimization/default/default_optimizer.h"
#include "arolla/expr/registered_expr_operator.h"
#include "arolla/expr/tuple_expr_operator.h"
#include "arolla/jagged_shape/dense_array/qtype/qtype.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/operators.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/shape_qtype.h"
#include "arolla/qtype/tuple_qtype.h"
#include "arolla/qtype/typed_value.h"
#include "arolla/qtype/unspecified_qtype.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/weak_qtype.h"
#include "arolla/sequence/mutable_sequence.h"
#include "arolla/sequence/sequence.h"
#include "arolla/sequence/sequence_qtype.h"
#include "arolla/util/bytes.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "pbt.h"

namespace xp {

using namespace arolla;        // NOLINT
using namespace arolla::expr;  // NOLINT
using pbt::Src;

inline void Init() {
  static const bool done = [] {
    arolla::InitArolla();
    return true;
  }();
  (void)done;
}

// ---------------------------------------------------------------- values

template <class F>
void ForScalarTypes(F f) {
  f(static_cast<bool*>(nullptr));
  f(static_cast<int32_t*>(nullptr));
  f(static_cast<int64_t*>(nullptr));
  f(static_cast<float*>(nullptr));
  f(static_cast<double*>(nullptr));
  f(static_cast<Text*>(nullptr));
  f(static_cast<Bytes*>(nullptr));
  f(static_cast<Unit*>(nullptr));
  f(static_cast<uint64_t*>(nullptr));
}

inline const std::vector<std::string>& Words() {
  static const auto* w = new std::vector<std::string>{
      "", "a", "ab", "abc", "b", " a ", "A", "1", "-7", "2.5", "x y", "\xc3\xa9", "a,b", "{x}", "aa"};
  return *w;
}

template <class T>
T GenScalar(Src& s) {
  if constexpr (std::is_same_v<T, bool>) {
    return s.boolean();
  } else if constexpr (std::is_same_v<T, Unit>) {
    return Unit{};
  } else if constexpr (std::is_same_v<T, Text>) {
    return Text(Words()[s.draw(Words().size() - 1)]);
  } else if constexpr (std::is_same_v<T, Bytes>) {
    return Bytes(Words()[s.draw(Words().size() - 1)]);
  } else if constexpr (std::is_floating_point_v<T>) {
    switch (s.draw(15)) {
      case 0: return std::numeric_limits<T>::quiet_NaN();
      case 1: return std::numeric_limits<T>::infinity();
      case 2: return -std::numeric_limits<T>::infinity();
      case 3: return -0.0;
      case 4: return std::numeric_limits<T>::max();
      default: return T(s.range(-8, 8)) / T(s.chance(1, 2) ? 1 : 4);
    }
  } else {
    if (s.chance(1, 14)) {
      return s.boolean() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    }
    if constexpr (std::is_unsigned_v<T>) return T(s.draw(6));
    return T(s.range(-3, 6));
  }
}

template <class T>
DenseArray<T> GenDense(Src& s, size_t n) {
  std::vector<OptionalValue<T>> v(n);
  int mode = s.draw(3);
  for (auto& x : v) {
    if (mode == 3 || (mode > 0 && s.chance(3, 4))) x = GenScalar<T>(s);
  }
  return CreateDenseArray<T>(v);
}

// Empty arrays in one representation only.
inline bool& CanonicalEmptyArrays() {
  static bool x = false;
  return x;
}

template <class T>
Array<T> GenArr(Src& s, size_t n) {
  if (n == 0 && CanonicalEmptyArrays()) return Array<T>(0, std::nullopt);
  DenseArray<T> d = GenDense<T>(s, n);
  switch (s.draw(3)) {
    case 0: return Array<T>(d);
    case 1: return Array<T>(d).ToSparseForm();
    case 2: {
      OptionalValue<T> m;
      if (s.boolean()) m = GenScalar<T>(s);
      return Array<T>(d).ToSparseForm(m);
    }
    default: {
      OptionalValue<T> m;
      if (s.boolean()) m = GenScalar<T>(s);
      return Array<T>(n, m);
    }
  }
}

// Kinds of container around a scalar.
enum Kind { kScalar, kOptional, kDense, kArray };

template <class T>
TypedValue GenOf(Src& s, Kind k, size_t n) {
  switch (k) {
    case kScalar: return TypedValue::FromValue(GenScalar<T>(s));
    case kOptional:
      return TypedValue::FromValue(
          s.chance(1, 3) ? OptionalValue<T>() : OptionalValue<T>(GenScalar<T>(s)));
    case kDense: return TypedValue::FromValue(GenDense<T>(s, n));
    default: return TypedValue::FromValue(GenArr<T>(s, n));
  }
}

template <class T>
QTypePtr QTypeOf(Kind k) {
  switch (k) {
    case kScalar: return GetQType<T>();
    case kOptional: return GetOptionalQType<T>();
    case kDense: return GetDenseArrayQType<T>();
    default: return GetArrayQType<T>();
  }
}

// Parent sizes and child sizes shared by the arrays and edges of a case, and
// its prevailing type of values.
struct Dims {
  size_t n, m;
  int type = -1;  // index in ForScalarTypes
  int kind = -1;
};

inline DenseArrayEdge GenDenseEdge(Src& s, Dims d) {
  if (s.boolean()) {
    std::vector<int64_t> sp(d.m + 1, 0);
    if (d.m) {
      for (size_t i = 1; i < d.m; ++i) sp[i] = s.draw(d.n);
      std::sort(sp.begin(), sp.end());
      sp[0] = 0;
      sp[d.m] = d.n;
    }
    return *DenseArrayEdge::FromSplitPoints(CreateFullDenseArray<int64_t>(sp));
  }
  std::vector<OptionalValue<int64_t>> mp(d.n);
  if (d.m) {
    for (auto& x : mp) {
      if (s.chance(4, 5)) x = int64_t(s.draw(d.m - 1));
    }
  }
  return *DenseArrayEdge::FromMapping(CreateDenseArray<int64_t>(mp), d.m);
}

inline ArrayEdge GenArrayEdge(Src& s, Dims d) {
  DenseArrayEdge e = GenDenseEdge(s, d);
  if (e.edge_type() == DenseArrayEdge::SPLIT_POINTS) {
    return *ArrayEdge::FromSplitPoints(Array<int64_t>(e.edge_values()));
  }
  Array<int64_t> mp(e.edge_values());
  if (s.boolean()) mp = mp.ToSparseForm();
  if (mp.empty() && CanonicalEmptyArrays()) mp = Array<int64_t>(0, std::nullopt);
  return *ArrayEdge::FromMapping(mp, d.m);
}

struct Typed {
  std::string name;
  TypedValue value;
};

// A value of one of the types that the standard operators work on.
inline TypedValue GenLeafValue(Src& s, Dims d) {
  int what = s.draw(23);
  std::optional<TypedValue> res;
  auto of = [&](int type, Kind k, size_t n) {
    int i = 0;
    ForScalarTypes([&](auto* p) {
      using T = std::remove_pointer_t<decltype(p)>;
      if (i++ == type) res = GenOf<T>(s, k, n);
    });
  };
  static constexpr int kTypes[] = {3, 1, 0, 2, 4, 5, 7, 6, 1, 3, 5, 3, 2, 7};
  if (what < 20) {
    int type = kTypes[s.draw(13)];
    if (s.chance(1, 60)) type = 8;
    Kind k = Kind(what < 6 ? 0 : what < 11 ? 1 : what < 18 ? 2 : 3);
    if (d.type >= 0 && s.chance(2, 3)) type = d.type;
    if (d.kind >= 0 && s.chance(1, 2)) k = Kind(d.kind);
    if (type == 8 && k > 1) k = kScalar;
    of(type, k, s.chance(1, 8) ? d.m : d.n);
    return *res;
  }
  switch (what) {
    case 20: return TypedValue::FromValue(GenDenseEdge(s, d));
    case 21: return TypedValue::FromValue(GenArrayEdge(s, d));
    case 22: {
      switch (s.draw(2)) {
        case 0: return TypedValue::FromValue(DenseArrayGroupScalarEdge(d.n));
        case 1: return TypedValue::FromValue(ArrayGroupScalarEdge(d.n));
        default: return TypedValue::FromValue(ScalarToScalarEdge());
      }
    }
    default: {
      switch (s.draw(3)) {
        case 0: return TypedValue::FromValue(DenseArrayShape{int64_t(d.n)});
        case 1: return TypedValue::FromValue(ArrayShape{int64_t(d.n)});
        case 2: return TypedValue::FromValue(ScalarShape{});
        default: return TypedValue::FromValue(OptionalScalarShape{});
      }
    }
  }
}

// ---------------------------------------------------------------- equality

template <class T>
bool SameElem(const T& a, const T& b) {
  if constexpr (std::is_floating_point_v<T>) {
    return a == b || (std::isnan(a) && std::isnan(b));
  } else {
    return a == b;
  }
}

inline DenseArrayEdge AsDenseEdge(const ArrayEdge& e) {
  auto vals = e.edge_values().ToDenseForm().dense_data();
  if (e.edge_type() == ArrayEdge::SPLIT_POINTS) return *DenseArrayEdge::FromSplitPoints(vals);
  return *DenseArrayEdge::FromMapping(vals, e.parent_size());
}

inline bool SameMapping(const DenseArrayEdge& a, const DenseArrayEdge& b) {
  if (a.parent_size() != b.parent_size() || a.child_size() != b.child_size()) return false;
  auto m1 = a.ToMappingEdge(), m2 = b.ToMappingEdge();
  for (int64_t i = 0; i < a.child_size(); ++i) {
    if (!(m1.edge_values()[i] == m2.edge_values()[i])) return false;
  }
  return true;
}

// Equality of values, regardless of their representation; NaN == NaN and
// 0 == -0 (which optimizations are free to replace).
inline bool Same(TypedRef a, TypedRef b) {
  if (a.GetType() != b.GetType()) return false;
  if (TypedValue(a).GetFingerprint() == TypedValue(b).GetFingerprint()) return true;
  if (std::string(a.GetType()->name()).ends_with("WEAK_FLOAT")) {  // weak floats and arrays of them
    a = DecayDerivedQValue(a);
    b = DecayDerivedQValue(b);
  }
  int known = 0;
  bool eq = false;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (known) return;
    if (a.GetType() == GetQType<T>()) {
      known = 1;
      eq = SameElem(a.UnsafeAs<T>(), b.UnsafeAs<T>());
    } else if (a.GetType() == GetOptionalQType<T>()) {
      known = 1;
      const auto &x = a.UnsafeAs<OptionalValue<T>>(), &y = b.UnsafeAs<OptionalValue<T>>();
      eq = x.present == y.present && (!x.present || SameElem(x.value, y.value));
    } else {
      if (a.GetType() == GetDenseArrayQType<T>()) {
        known = 1;
        const auto &x = a.UnsafeAs<DenseArray<T>>(), &y = b.UnsafeAs<DenseArray<T>>();
        eq = x.size() == y.size();
        for (int64_t i = 0; eq && i < x.size(); ++i) {
          eq = x[i].present == y[i].present && (!x[i].present || SameElem(x[i].value, y[i].value));
        }
      } else if (a.GetType() == GetArrayQType<T>()) {
        known = 1;
        const auto &x = a.UnsafeAs<Array<T>>(), &y = b.UnsafeAs<Array<T>>();
        eq = x.size() == y.size();
        for (int64_t i = 0; eq && i < x.size(); ++i) {
          eq = x[i].present == y[i].present && (!x[i].present || SameElem(x[i].value, y[i].value));
        }
      }
    }
  });
  if (known) return eq;
  if (a.GetType() == GetWeakFloatQType()) return SameElem(a.UnsafeAs<double>(), b.UnsafeAs<double>());
  if (a.GetType() == GetQType<DenseArrayEdge>()) {
    return SameMapping(a.UnsafeAs<DenseArrayEdge>(), b.UnsafeAs<DenseArrayEdge>());
  }
  if (a.GetType() == GetQType<ArrayEdge>()) {
    return SameMapping(AsDenseEdge(a.UnsafeAs<ArrayEdge>()), AsDenseEdge(b.UnsafeAs<ArrayEdge>()));
  }
  if (IsSequenceQType(a.GetType())) {
    const auto &x = a.UnsafeAs<Sequence>(), &y = b.UnsafeAs<Sequence>();
    if (x.size() != y.size() || x.value_qtype() != y.value_qtype()) return false;
    for (size_t i = 0; i < x.size(); ++i) {
      if (!Same(x.GetRef(i), y.GetRef(i))) return false;
    }
    return true;
  }
  if (a.GetFieldCount() > 0 && a.GetFieldCount() == b.GetFieldCount()) {
    for (int64_t i = 0; i < a.GetFieldCount(); ++i) {
      if (!Same(a.GetField(i), b.GetField(i))) return false;
    }
    return true;
  }
  return false;
}

inline std::string Show(const absl::StatusOr<TypedValue>& v) {
  if (!v.ok()) return std::string(v.status().ToString().substr(0, 300));
  return absl::StrCat(v->GetType()->name(), ":", v->Repr()).substr(0, 300);
}

// ---------------------------------------------------------------- expressions

// Operators that applied to unlimited numbers would take unlimited time or
// memory: numbers passed to them are small literals.
inline bool Sized(const std::string& name) {
  static const auto* set = new std::set<std::string>{
      "array.resize_array_shape", "array.make_dense_array_shape", "array.make_array_shape",
      "seq.range", "edge.from_sizes", "edge.from_sizes_or_shape", "edge.resize_groups_child_side",
      "edge.resize_groups_parent_side", "edge.from_mapping", "edge.from_split_points",
      "array.from_indices_and_values", "array._inverse_mapping", "array.inverse_mapping", "edge.mapping",
      "strings.replace", "array.randint_with_shape", "array.randint_like", "random.sample",
      "edge.from_keys", "edge.pair_left", "edge.pair_right", "strings.format", "strings._format_bytes", "random.sample_n"};
  return set->count(name) > 0;
}

struct OpInfo {
  std::string name;
  ExprOperatorPtr op;
  ExprOperatorSignature sig;
};

inline const std::vector<OpInfo>& Ops() {
  static const auto* ops = [] {
    Init();
    auto* res = new std::vector<OpInfo>();
    for (auto name : ExprOperatorRegistry::GetInstance()->ListRegisteredOperators()) {
      std::string n(name);
      if (n == "core.map" || n == "core.map_tuple" || n == "core.apply" || n == "core.apply_varargs" ||
          n == "core.reduce_tuple" || n == "seq.map" || n == "seq.reduce" ||
          n == "qtype._parse_input_qtype_sequence" || n == "core._short_circuit_where" || n == "core._identity_with_cancel" || n == "core._presence_and_or" || n.find("._error") != std::string::npos ||
          n.find("distribution_inverse") != std::string::npos) {  // slow for extreme arguments
        continue;
      }
      auto op = LookupOperator(n);
      if (!op.ok()) continue;
      auto sig = (*op)->GetSignature();
      if (!sig.ok()) continue;
      res->push_back({n, *op, **sig});
    }
    std::sort(res->begin(), res->end(), [](const OpInfo& a, const OpInfo& b) { return a.name < b.name; });
    return res;
  }();
  return *ops;
}

// The operators that the optimizations look for, and the most common ones.
inline const std::vector<size_t>& HotOps() {
  static const auto* res = [] {
    static const char* names[] = {
        "core.has", "core.presence_and", "core.presence_or", "core.presence_not", "core.where", "core.where",
        "core.where", "core.to_optional", "core.equal", "core.not_equal", "core.less", "core.less_equal",
        "core.greater", "core.shape_of", "core.const_with_shape", "core.const_like", "core.zeros_like",
        "core.ones_like", "core._presence_and_or", "core._all", "core._any", "core.all", "core.any",
        "core.coalesce_units", "core.get_optional_value", "core.default_if_unspecified", "core.to_float32",
        "core.to_float64", "core.to_int32", "core.to_int64", "core.to_bool", "core.identity", "core.make_tuple",
        "core.get_nth", "core.get_first", "core.get_second", "core.with_assertion", "bool.equal", "bool.not_equal",
        "bool.less", "bool.less_equal", "bool.greater", "bool.logical_and", "bool.logical_or", "bool.logical_not",
        "bool.logical_if", "bool.logical_if", "bool.logical_all", "bool.logical_any", "math.add", "math.subtract",
        "math.multiply", "math.divide", "math.floordiv", "math.mod", "math.pow", "math.neg", "math.pos", "math.abs",
        "math.sign", "math.maximum", "math.minimum", "math.max", "math.min", "math.sum", "math.mean", "math.add",
        "math.log", "math.exp", "math.floor", "math.round", "math.is_nan", "math.is_close", "math._add4",
        "array.count", "array.expand", "array.at", "array.size", "array.as_dense_array", "array.as_array",
        "array.take", "array.select", "array.concat", "array.slice", "array.agg_index", "array.collapse",
        "edge.from_shape", "edge.to_scalar", "edge.group_by", "edge.sizes", "edge.child_shape", "edge.compose",
        "strings.length", "strings.join", "strings.upper", "strings.substr", "strings.contains", "strings.find",
        "strings.strip", "strings.encode", "strings.decode", "strings.as_text", "bitwise.bitwise_and",
        "annotation.name", "seq.at", "seq.size", "qtype.qtype_of"};
    auto* res = new std::vector<size_t>();
    for (const char* n : names) {
      for (size_t i = 0; i < Ops().size(); ++i) {
        if (Ops()[i].name == n) res->push_back(i);
      }
    }
    return res;
  }();
  return *res;
}

struct GenOptions {
  int min_ops = 1, max_ops = 10;
  bool literals = true;    // literals among the leaves
  bool annotations = true; // names, export
  std::function<bool(const std::string&)> op_ok = [](const std::string&) { return true; };
};

struct Gen {
  Dims dims;
  std::map<std::string, TypedValue> leaves;
  std::vector<ExprNodePtr> pool;  // in the order of creation
  std::vector<bool> small;        // leaves and literals with small numbers only
  int ops = 0;
  std::set<std::string> op_names;

  ExprNodePtr Typed(const std::string& key, QTypePtr t) {
    return *MakeOpNode(QTypeAnnotation::Make(), {Leaf(key), Literal(t)});
  }
};

inline ExprNodePtr FreshLiteral(Src& s, Gen& g, bool small) {
  if (small) {
    switch (s.draw(5)) {
      case 0: return Literal(int64_t(s.range(-1, 9)));
      case 1: return Literal(int32_t(s.range(-1, 9)));
      case 2: return Literal(MakeOptionalValue(int64_t(s.range(0, 9))));
      case 3: {
        std::vector<OptionalValue<int64_t>> v(s.chance(1, 2) ? g.dims.n : g.dims.m);
        for (auto& x : v) {
          if (s.chance(7, 8)) x = int64_t(s.draw(3));
        }
        auto d = CreateDenseArray<int64_t>(v);
        if (s.boolean() && !(d.empty() && CanonicalEmptyArrays())) return Literal(Array<int64_t>(d));
        return Literal(d);
      }
      case 4: return Literal(GenScalar<Text>(s));
      default: return Literal(GenLeafValue(s, g.dims).GetType() == nullptr ? TypedValue::FromValue(kUnit)
                                                                            : TypedValue::FromValue(GenScalar<Text>(s)));
    }
  }
  switch (s.draw(9)) {
    case 0: case 1: case 2: return Literal(GenLeafValue(s, g.dims));
    case 3: return Literal(int64_t(s.range(-2, 4)));
    case 4: return Literal(GenLeafValue(s, g.dims).GetType());
    case 5: return Literal(GetUnspecifiedQValue());
    case 6: return Literal(s.boolean());
    case 7: return Literal(GenScalar<Text>(s));
    case 8: return Literal(GenScalar<float>(s));
    default: return Literal(*TypedValue::FromValueWithQType(double(s.range(-4, 4)) / 2, GetWeakFloatQType()));
  }
}

inline bool Numeric(const ExprNodePtr& n) {
  // Whether the numbers in a value could be large.
  auto q = n->qtype();
  if (q == nullptr) return true;
  std::string name(q->name());
  return name.find("INT") != std::string::npos || name.find("FLOAT") != std::string::npos ||
         name.find("TEXT") != std::string::npos || name.find("BYTES") != std::string::npos;
}

inline ExprOperatorPtr Reg(const std::string& name) { return std::make_shared<RegisteredOperator>(name); }

// A random operator of one or two arguments, as a value.
inline absl::StatusOr<ExprOperatorPtr> FunctionOp(Src& s, int arity) {
  static const char* unary[] = {"math.neg", "core.has", "core.to_optional", "core.presence_not", "math.abs",
                                "core.identity", "core.to_float32", "strings.upper", "bool.logical_not"};
  static const char* binary[] = {"math.add", "core.equal", "core.presence_or", "core.presence_and", "math.maximum",
                                 "math.multiply", "core.make_tuple", "math.subtract", "core.get_first",
                                 "core.get_second", "core.less", "bool.logical_or"};
  std::string name = arity == 1 ? unary[s.draw(8)] : binary[s.draw(11)];
  if (arity == 2 && (name == "core.get_first" || name == "core.get_second")) name = "math.add";
  if (s.chance(1, 2)) return Reg(name);
  // A lambda around it.
  if (arity == 1) {
    auto body = CallOp(name, {Placeholder("x")});
    if (!body.ok()) return body.status();
    if (s.boolean()) body = CallOp(binary[s.draw(7)], {body, Placeholder("x")});
    if (!body.ok()) return body.status();
    return LambdaOperator::Make("lam", ExprOperatorSignature{{"x"}}, *body);
  }
  auto body = s.boolean() ? CallOp(name, {Placeholder("x"), Placeholder("y")})
                          : CallOp(name, {Placeholder("y"), Placeholder("x")});
  if (!body.ok()) return body.status();
  return LambdaOperator::Make("lam", ExprOperatorSignature{{"x"}, {"y"}}, *body);
}

// Tuples, sequences, operators as arguments.
inline absl::StatusOr<ExprNodePtr> Structural(Src& s, Gen& g) {
  auto any = [&]() -> ExprNodePtr {
    if (s.chance(1, 6)) return Literal(GenLeafValue(s, g.dims));
    return g.pool[s.draw(g.pool.size() - 1)];
  };
  auto tuple = [&]() -> absl::StatusOr<ExprNodePtr> {
    std::vector<ExprNodePtr> t;
    for (auto& n : g.pool) {
      if (n->qtype() && IsTupleQType(n->qtype())) t.push_back(n);
    }
    if (!t.empty() && s.chance(2, 3)) return t[s.draw(t.size() - 1)];
    std::vector<ExprNodePtr> args(s.range(0, 4));
    ExprNodePtr same = any();
    bool all_same = s.boolean();
    for (auto& a : args) a = all_same && s.chance(2, 3) ? same : any();
    return BindOp("core.make_tuple", args, {});
  };
  auto fields = [&](const ExprNodePtr& t) { return int64_t(t->qtype()->type_fields().size()); };
  switch (s.draw(13)) {
    case 0: return tuple();
    case 1: {
      auto t = tuple();
      if (!t.ok() || fields(*t) == 0) return t;
      return CallOp(GetNthOperator::Make(s.draw(fields(*t) - 1)), {t});
    }
    case 2: {
      auto t = tuple();
      if (!t.ok() || fields(*t) == 0) return t;
      return CallOp(s.boolean() ? "core.getitem" : "core.get_nth", {t, Literal(int64_t(s.draw(fields(*t) - 1)))});
    }
    case 3: return CallOp("core.slice_tuple", {tuple(), Literal(int64_t(s.draw(2))), Literal(int64_t(s.range(-1, 3)))});
    case 4: {
      auto op = FunctionOp(s, 1);
      if (!op.ok()) return op.status();
      return CallOp("core.map_tuple", {Literal(*op), tuple()});
    }
    case 5: {
      auto op = FunctionOp(s, 2);
      if (!op.ok()) return op.status();
      return CallOp("core.reduce_tuple", {Literal(*op), tuple()});
    }
    case 6: return CallOp("core.concat_tuples", {tuple(), tuple()});
    case 7: {
      auto t = tuple();
      if (!t.ok() || fields(*t) == 0) return t;
      std::string names = "a";
      for (int64_t i = 1; i < fields(*t); ++i) names += absl::StrCat(",a", i);
      auto nt = CallOp("namedtuple._make", {Literal(Text(names)), t});
      if (s.boolean()) return nt;
      return CallOp(s.boolean() ? "namedtuple.get_field" : "core.getattr",
                    {nt, Literal(Text(s.boolean() ? "a" : absl::StrCat("a", s.draw(fields(*t)))))});
    }
    case 8: {
      int arity = s.range(1, 2);
      auto op = FunctionOp(s, arity);
      if (!op.ok()) return op.status();
      ExprNodePtr a = any();
      if (arity == 1) return CallOp("core.map", {Literal(*op), a});
      return CallOp("core.map", {Literal(*op), a, s.boolean() ? a : any()});
    }
    case 9: {
      int arity = s.range(1, 2);
      auto op = FunctionOp(s, arity);
      if (!op.ok()) return op.status();
      ExprNodePtr a = any();
      if (arity == 1) return CallOp(s.boolean() ? "core.apply" : "core.identity", {s.boolean() ? Literal(*op) : a, a});
      return CallOp("core.apply", {Literal(*op), a, s.boolean() ? a : any()});
    }
    case 10: case 11: {
      // Sequences.
      std::vector<ExprNodePtr> q;
      for (auto& n : g.pool) {
        if (n->qtype() && IsSequenceQType(n->qtype())) q.push_back(n);
      }
      ExprNodePtr seq;
      if (!q.empty() && s.boolean()) {
        seq = q[s.draw(q.size() - 1)];
      } else {
        auto v = GenLeafValue(s, g.dims);
        size_t n = s.draw(4);
        auto ms = MutableSequence::Make(v.GetType(), n);
        if (!ms.ok()) return ms.status();
        for (size_t i = 0; i < n; ++i) {
          auto w = v;
          for (int t = 0; t < 12; ++t) {
            auto c = GenLeafValue(s, g.dims);
            if (c.GetType() == v.GetType()) {
              w = c;
              break;
            }
          }
          ms->UnsafeSetRef(i, w.AsRef());
        }
        auto tv = TypedValue::FromValueWithQType(std::move(*ms).Finish(), GetSequenceQType(v.GetType()));
        if (!tv.ok()) return tv.status();
        if (s.boolean()) {
          std::string key = absl::StrCat("s", g.leaves.size());
          if (!g.leaves.emplace(key, *tv).second) return absl::InternalError("dup");
          seq = g.Typed(key, tv->GetType());
        } else {
          seq = Literal(*tv);
        }
      }
      int what = s.draw(4);
      if (what == 0) return seq;
      if (what == 1) return CallOp("seq.at", {seq, Literal(int64_t(s.draw(3)))});
      if (what == 2) {
        auto op = FunctionOp(s, 1);
        if (!op.ok()) return op.status();
        return CallOp("seq.map", {Literal(*op), seq});
      }
      if (what == 3) {
        auto op = FunctionOp(s, 2);
        if (!op.ok()) return op.status();
        return CallOp("seq.map", {Literal(*op), seq, seq});
      }
      auto op = FunctionOp(s, 2);
      if (!op.ok()) return op.status();
      return CallOp("seq.reduce", {Literal(*op), seq, s.boolean() ? any() : CallOp("seq.at", {seq, Literal(int64_t{0})})});
    }
    case 12: {
      // A dictionary.
      std::vector<ExprNodePtr> d;
      for (auto& n : g.pool) {
        if (n->qtype() && std::string(n->qtype()->name()).rfind("Dict<", 0) == 0) d.push_back(n);
      }
      if (d.empty()) return CallOp("dict.make", {any(), any()});
      auto dict = d[s.draw(d.size() - 1)];
      if (s.chance(1, 4)) return CallOp(s.boolean() ? "dict.keys" : "dict.values", {dict});
      return CallOp(s.boolean() ? "dict.get" : "core.getitem", {dict, any()});
    }
    default: {
      // A lambda with a body over several arguments.
      std::vector<ExprNodePtr> ps = {Placeholder("p"), Placeholder("q"), Literal(GenLeafValue(s, g.dims))};
      int n = s.range(1, 4);
      for (int i = 0; i < n; ++i) {
        auto op = FunctionOp(s, 2);
        if (!op.ok()) return op.status();
        auto node = CallOp(*op, {ps[s.draw(ps.size() - 1)], ps[s.draw(ps.size() - 1)]});
        if (node.ok()) ps.push_back(*node);
      }
      auto lam = LambdaOperator::Make("lam2", ExprOperatorSignature{{"p"}, {"q"}}, ps.back());
      if (!lam.ok()) return lam.status();
      ExprNodePtr a = any();
      return CallOp(*lam, {a, s.boolean() ? a : any()});
    }
  }
}

// Hash tables of floats: NaNs trip debug assertions of absl containers.
inline bool HashesFloats(const std::string& name, const std::vector<ExprNodePtr>& args) {
  if (name != "array.unique" && name.rfind("dict.", 0) != 0) return false;
  for (const auto& a : args) {
    if (a->qtype() && std::string(a->qtype()->name()).find("FLOAT") != std::string::npos) return true;
  }
  return false;
}

// Left hand sides of the optimization rules, and shapes close to them. Letters
// are holes filled with nodes of the pool or literals; T/F: true and false (of
// a random kind), 0/1: numbers, P/M: present and missing units.
inline const std::vector<const char*>& Idioms() {
  static const std::vector<const char*> res = {
      "core.has(a)",
      "core.has(core.to_optional(a))",
      "core.presence_not(core.has(a))",
      "core.presence_and(a,b)",
      "core.presence_and(a,P)",
      "core.presence_and(a,M)",
      "core.presence_and(P,b)",
      "core.presence_and(core.presence_and(a,b),b)",
      "core.presence_not(core.presence_and(a,b))",
      "core.presence_or(a,b)",
      "core.presence_or(a,0)",
      "core.presence_or(P,b)",
      "core.has(core.presence_or(a,b))",
      "core.has(core.presence_or(a,1))",
      "core.has(core.presence_and(a,b))",
      "core.has(core.presence_or(core.presence_and(a,c),b))",
      "core.has(core.presence_or(core.presence_and(a,c),1))",
      "core.to_optional(core.presence_or(a,b))",
      "core.to_optional(core.presence_or(a,1))",
      "core.to_optional(core.presence_or(core.presence_and(a,c),b))",
      "core.to_optional(core.presence_or(core.presence_and(1,c),b))",
      "core.presence_and(core.to_optional(a),c)",
      "core.presence_or(core.presence_and(c,a),core.presence_and(c,b))",
      "core.presence_or(core.presence_or(d,core.presence_and(c,a)),core.presence_and(c,b))",
      "core.presence_or(core.presence_and(a,c),core.presence_and(b,core.presence_not(c)))",
      "core.presence_or(core.presence_and(a,c),core.presence_and(b,core.presence_not(d)))",
      "core.presence_or(core.presence_and(a,c),b)",
      "core.presence_or(core.presence_and(a,P),b)",
      "core.presence_or(core.presence_and(P,c),b)",
      "core.where(c,a,b)",
      "core.where(P,a,b)",
      "core.where(M,a,b)",
      "core.where(core.presence_not(c),a,b)",
      "core.where(c,a,core.presence_and(b,M))",
      "core.where(core.const_with_shape(s,c),a,b)",
      "core.where(core.const_with_shape(s,P),a,b)",
      "core.where(core.const_like(s,c),a,b)",
      "core.where(core.equal(a,b),a,b)",
      "core.where(core.has(c),a,core.where(core.has(d),b,a))",
      "core.to_optional(core.where(c,1,b))",
      "core.to_optional(core.where(c,a,1))",
      "core.has(core.where(c,1,b))",
      "core.has(core.where(c,a,1))",
      "core.has(core.where(c,a,b))",
      "bool.logical_not(bool.logical_not(a))",
      "bool.logical_not(bool.equal(a,b))",
      "bool.logical_not(bool.not_equal(a,b))",
      "bool.logical_not(bool.less(a,b))",
      "bool.logical_not(bool.less_equal(a,b))",
      "bool.logical_not(bool.greater(a,b))",
      "core.equal(T,a)",
      "core.equal(T,F)",
      "core.equal(bool.equal(a,b),T)",
      "core.equal(T,bool.not_equal(a,b))",
      "core.equal(bool.less(a,b),T)",
      "core.equal(T,bool.less_equal(a,b))",
      "core.equal(bool.equal(a,b),F)",
      "core.equal(core.to_optional(bool.less(a,b)),T)",
      "core.equal(core.to_optional(bool.equal(a,b)),T)",
      "core.equal(bool.logical_and(bool.equal(a,b),c),T)",
      "core.equal(bool.logical_and(c,bool.less(a,b)),T)",
      "core.equal(bool.logical_or(bool.not_equal(a,b),c),T)",
      "core.equal(bool.logical_or(c,bool.less_equal(a,b)),T)",
      "core.equal(bool.logical_or(T,a),T)",
      "core.equal(bool.logical_and(a,F),T)",
      "core.equal(bool.logical_or(a,b),F)",
      "bool.logical_if(core.to_optional(c),a,b,d)",
      "bool.logical_if(core.presence_or(c,F),a,b,d)",
      "bool.logical_if(core.presence_or(c,T),a,b,d)",
      "bool.logical_if(c,a,b,b)",
      "bool.logical_if(c,a,b,a)",
      "bool.logical_if(c,a,a,b)",
      "bool.logical_if(T,a,b,d)",
      "bool.logical_if(bool.equal(a,b),a,b,d)",
      "bool.logical_if(c,T,F,d)",
      "bool.logical_if(c,T,F,F)",
      "bool.logical_if(c,F,T,F)",
      "math.add(a,0)",
      "math.add(0,a)",
      "math.multiply(a,1)",
      "math.multiply(1,a)",
      "math.subtract(a,0)",
      "math.add(a,1)",
      "math.multiply(a,0)",
      "math.add(math.add(a,b),math.add(c,d))",
      "math.add(math.add(math.add(a,b),c),d)",
      "math.add(a,math.add(b,math.add(c,d)))",
      "math.add(math.add(math.add(a,b),math.add(c,d)),math.add(a,c))",
      "bool.logical_or(bool.logical_or(bool.logical_or(a,b),c),d)",
      "bool.logical_and(a,bool.logical_and(b,bool.logical_and(c,d)))",
      "core.presence_or(core.presence_or(core.presence_or(a,b),c),d)",
      "core.presence_and(core.presence_and(core.presence_and(a,b),c),d)",
      "core.presence_or(a,core.presence_or(b,core.presence_or(c,d)))",
      "math.minimum(math.minimum(math.minimum(a,b),c),d)",
      "core.shape_of(core.const_with_shape(s,a))",
      "core.shape_of(core.has(core.const_with_shape(s,a)))",
      "array.size(core.const_with_shape(s,a))",
      "core.has(core.const_with_shape(s,a))",
      "core.to_optional(core.const_with_shape(s,a))",
      "math.neg(core.const_with_shape(s,a))",
      "math.sign(core.const_like(s,a))",
      "core.to_float32(core.const_with_shape(s,a))",
      "core.to_int64(core.const_with_shape(s,a))",
      "bool.logical_not(core.const_with_shape(s,a))",
      "core.presence_not(core.const_with_shape(s,a))",
      "math.add(core.const_with_shape(s,a),core.const_with_shape(s,b))",
      "math.subtract(core.const_with_shape(s,a),b)",
      "math.divide(a,core.const_with_shape(s,b))",
      "core.equal(core.const_with_shape(s,a),core.const_with_shape(s,b))",
      "core.equal(core.const_with_shape(s,a),b)",
      "core.less(a,core.const_with_shape(s,b))",
      "core.less_equal(core.const_with_shape(s,a),b)",
      "core.not_equal(core.const_like(s,a),b)",
      "bool.less(core.const_with_shape(s,a),b)",
      "bool.equal(a,core.const_with_shape(s,b))",
      "bool.logical_and(core.const_with_shape(s,a),b)",
      "bool.logical_or(core.const_with_shape(s,a),core.const_with_shape(s,b))",
      "core.presence_and(core.const_with_shape(s,a),b)",
      "core.presence_and(a,core.const_with_shape(s,b))",
      "core.presence_or(core.const_with_shape(s,a),b)",
      "core.presence_or(a,core.const_with_shape(s,b))",
      "math.maximum(core.const_with_shape(s,a),b)",
      "math.pow(core.const_with_shape(s,a),b)",
      "core.get_nth(core.make_tuple(a,b,c),0n)",
      "core.get_nth(core.make_tuple(a,b,c),2n)",
      "core.get_second(core.make_tuple(a,b))",
      "core.apply_varargs(core.make_tuple(a,b),c)",
  };
  return res;
}

inline absl::StatusOr<ExprNodePtr> FromIdiom(Src& s, Gen& g, const char*& t, std::map<char, ExprNodePtr>& holes) {
  const char* b = t;
  while (*t != 0 && *t != '(' && *t != ',' && *t != ')') ++t;
  std::string name(b, t);
  if (*t == '(') {
    std::vector<ExprNodePtr> args;
    while (*t != ')') {
      ++t;
      auto a = FromIdiom(s, g, t, holes);
      if (!a.ok()) return a;
      args.push_back(*a);
    }
    ++t;
    return BindOp(Reg(name), args, {});
  }
  if (name == "0n") return Literal(int64_t{0});
  if (name == "2n") return Literal(int64_t{2});
  if (name == "T" || name == "F") {
    return s.boolean() ? Literal(name == "T") : Literal(MakeOptionalValue(name == "T"));
  }
  if (name == "P") {
    return s.boolean() ? Literal(kUnit) : Literal(kPresent);
  }
  if (name == "M") {
    return s.chance(2, 3) ? Literal(kMissing) : Literal(OptionalValue<float>());
  }
  if (name == "0" || name == "1") {
    float v = name == "1";
    switch (s.draw(8)) {
      case 0: return Literal(v);
      case 1: return Literal(double(v));
      case 2: return Literal(int32_t(v));
      case 3: return Literal(int64_t(v));
      case 4: return Literal(MakeOptionalValue(v));
      case 5: return Literal(MakeOptionalValue(double(v)));
      case 6: return Literal(MakeOptionalValue(int32_t(v)));
      case 7: return Literal(MakeOptionalValue(int64_t(v)));
      default: return Literal(*TypedValue::FromValueWithQType(double(v), GetWeakFloatQType()));
    }
  }
  auto& h = holes[name[0]];
  if (h == nullptr) {
    if (s.chance(1, 5)) {
      h = FreshLiteral(s, g, false);
    } else {
      h = g.pool[s.draw(g.pool.size() - 1)];
    }
    if (name == "s" && s.chance(3, 4)) {
      auto shape = CallOp("core.shape_of", {h});
      if (shape.ok()) h = *shape;
    }
  }
  return h;
}

// Optional values have fields too, like tuples; the one with the value is not
// specified when it is missing.
inline bool TakesFieldOfOptional(const ExprNodePtr& node) {
  if (!node->is_op()) return false;
  std::string name(node->op()->display_name());
  for (const char* p : {"core.get_nth", "get_nth", "core.getitem", "core.get_first", "core.get_second", "core.slice_tuple",
                        "core.reduce_tuple", "core.map_tuple", "core.concat_tuples", "core.zip", "core.apply_varargs"}) {
    if (name.rfind(p, 0) != 0) continue;
    for (const auto& d : node->node_deps()) {
      if (IsOptionalQType(d->qtype())) return true;
    }
  }
  return false;
}

// Adds nodes to g.pool; returns the root (the last).
inline ExprNodePtr GenExpr(Src& s, Gen& g, const GenOptions& o) {
  g.dims = {size_t(s.draw(s.chance(1, 10) ? 70 : 6)), size_t(s.draw(3))};
  if (s.chance(3, 4)) {
    g.dims.type = s.draw(7);
    g.dims.kind = s.draw(3);
    if (g.dims.kind == kArray && s.chance(2, 3)) g.dims.kind = s.draw(2);
  }
  int nl = s.range(2, 6);
  for (int i = 0; i < nl; ++i) {
    auto v = GenLeafValue(s, g.dims);
    ExprNodePtr n;
    if (o.literals && s.chance(1, 4)) {
      n = Literal(v);
    } else {
      std::string key = absl::StrCat("x", i);
      n = g.Typed(key, v.GetType());
      g.leaves.emplace(key, v);
    }
    g.pool.push_back(n);
    g.small.push_back(false);
  }
  int want = s.range(o.min_ops, o.max_ops);
  const auto& ops = Ops();
  for (int tries = 0; g.ops < want && tries < 40 * want; ++tries) {
    if (s.chance(1, 6)) {
      auto node = Structural(s, g);
      if (node.ok() && (*node)->qtype() != nullptr && !TakesFieldOfOptional(*node)) {
        g.pool.push_back(*node);
        ++g.ops;
        s.label("structural");
      }
      continue;
    }
    if (s.chance(1, 5)) {
      const char* idiom = Idioms()[s.draw(Idioms().size() - 1)];
      for (int t = 0; t < 6; ++t) {
        std::map<char, ExprNodePtr> holes;
        const char* p = idiom;
        auto node = FromIdiom(s, g, p, holes);
        if (!node.ok() || (*node)->qtype() == nullptr || TakesFieldOfOptional(*node)) continue;
        g.pool.push_back(*node);
        g.ops += 2;
        s.label("idiom");
        break;
      }
      continue;
    }
    const OpInfo& op = ops[s.chance(1, 2) ? HotOps()[s.draw(HotOps().size() - 1)] : s.draw(ops.size() - 1)];
    if (!o.op_ok(op.name)) continue;
    bool sized = Sized(op.name);
    int lo = 0, hi = 0;
    for (const auto& p : op.sig.parameters) {
      if (p.kind == ExprOperatorSignature::Parameter::Kind::kVariadicPositional) {
        hi += s.draw(3);
      } else {
        ++hi;
        if (!p.default_value.has_value()) ++lo;
      }
    }
    int k = hi == lo ? lo : s.range(lo, hi);
    for (int t2 = 0; t2 < 4; ++t2) {
      std::vector<ExprNodePtr> args;
      for (int i = 0; i < k; ++i) {
        ExprNodePtr a;
        if (s.chance(1, 5)) {
          a = FreshLiteral(s, g, sized);
        } else {
          // Recent nodes are preferred, so that expressions get deep.
          size_t n = g.pool.size();
          size_t j = s.boolean() ? n - 1 - s.draw(std::min<size_t>(n, 3) - 1) : s.draw(n - 1);
          a = g.pool[j];
        }
        if (sized && Numeric(a)) a = FreshLiteral(s, g, true);
        args.push_back(a);
      }
      if (HashesFloats(op.name, args)) continue;
      auto node = BindOp(std::make_shared<RegisteredOperator>(op.name), args, {});
      if (!node.ok() || (*node)->qtype() == nullptr || TakesFieldOfOptional(*node)) continue;
      g.pool.push_back(*node);
      ++g.ops;
      g.op_names.insert(op.name);
      break;
    }
  }
  return g.pool.back();
}

// ---------------------------------------------------------------- evaluation


// Interprets an expression node by node. `depth` > 0: operators that can be
// expressed through others are expanded so many times.
inline absl::StatusOr<TypedValue> Naive(const ExprNodePtr& expr, const std::map<std::string, TypedValue>& leaves,
                                        int depth = 0, bool* empty = nullptr) {
  PostOrder po(expr);
  std::vector<TypedValue> vals;
  for (size_t i = 0; i < po.nodes_size(); ++i) {
    const auto& node = po.node(i);
    if (node->is_leaf()) {
      auto it = leaves.find(node->leaf_key());
      if (it == leaves.end()) return absl::NotFoundError("leaf " + node->leaf_key());
      vals.push_back(it->second);
    } else if (node->is_literal()) {
      vals.push_back(*node->qvalue());
    } else if (node->is_placeholder()) {
      return absl::FailedPreconditionError("placeholder");
    } else {
      std::vector<TypedValue> args;
      std::vector<ExprNodePtr> deps;
      std::map<std::string, TypedValue> lv;
      auto idx = po.dep_indices(i);
      for (size_t j = 0; j < idx.size(); ++j) {
        const auto& d = po.node(idx[j]);
        const auto& v = vals[idx[j]];
        if (d->qvalue().has_value()) {
          deps.push_back(Literal(*d->qvalue()));
        } else {
          std::string key = absl::StrCat("a", j);
          auto n = MakeOpNode(QTypeAnnotation::Make(), {Leaf(key), Literal(v.GetType())});
          if (!n.ok()) return n.status();
          deps.push_back(*n);
          lv.emplace(key, v);
        }
      }
      auto is_ann = IsQTypeAnnotation(node) || IsNameAnnotation(node) || IsExportAnnotation(node);
      if (is_ann) {
        vals.push_back(vals[idx[0]]);
        continue;
      }
      auto one = MakeOpNode(node->op(), deps);
      if (!one.ok()) return one.status();
      absl::StatusOr<TypedValue> r = absl::InternalError("?");
      bool done = false;
      if (depth > 0) {
        auto low = ToLowerNode(*one);
        if (!low.ok()) return low.status();
        if ((*low)->fingerprint() != (*one)->fingerprint()) {
          r = Naive(*low, lv, depth - 1, empty);
          done = true;
        }
      }
      if (!done) {
        absl::flat_hash_map<std::string, TypedValue> m(lv.begin(), lv.end());
        r = Invoke(*one, m);
      }
      if (!r.ok()) return r.status();
      vals.push_back(*r);
    }
    if (empty && IsArrayLikeQType(vals.back().GetType())) {
      auto size = GetArraySize(vals.back().AsRef());
      if (size.ok() && *size == 0) *empty = true;
    }
  }
  return vals.back();
}

}  // namespace xp

#endif  // VERIF_HARNESS_EXPR_H_
