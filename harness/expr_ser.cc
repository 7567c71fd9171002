// Serialization of values and expressions to containers.
#include "expr.h"
#include "forest.h"

#include "arolla/decision_forest/expr_operator/decision_forest_operator.h"
#include "arolla/derived_qtype/labeled_qtype.h"
#include "arolla/expr/operator_loader/backend_operator.h"
#include "arolla/expr/operator_loader/dispatch_operator.h"
#include "arolla/expr/operator_loader/dummy_operator.h"
#include "arolla/expr/operator_loader/generic_operator.h"
#include "arolla/expr/operator_loader/restricted_lambda_operator.h"
#include "arolla/expr/operators/while_loop/while_loop.h"
#include "arolla/expr/overloaded_expr_operator.h"
#include "arolla/expr/quote.h"
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/array/qtype/qtype.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/objects/object_qtype.h"
#include "arolla/qtype/derived_qtype.h"
#include "arolla/qtype/dict/dict_types.h"
#include "arolla/qtype/slice_qtype.h"
#include "arolla/serialization/decode.h"
#include "arolla/serialization/encode.h"
#include "arolla/serialization/utils.h"
#include "arolla/serialization_base/base.pb.h"
#include "arolla/serialization_codecs/dense_array/dense_array_codec.pb.h"
#include "arolla/serialization_codecs/generic/operator_codec.pb.h"
#include "arolla/serialization_codecs/generic/optional_codec.pb.h"
#include "arolla/serialization_codecs/generic/scalar_codec.pb.h"
#include "arolla/serialization_codecs/generic/tuple_codec.pb.h"

namespace {
using namespace xp;  // NOLINT
using arolla::serialization_base::ContainerProto;
using arolla::serialization_base::DecodingStepProto;
using arolla::serialization_base::ValueProto;
namespace ol = arolla::operator_loader;

// ---------------------------------------------------------------- values

ExprNodePtr SmallExpr(Src& s, int depth = 0);

std::string Name(Src& s) {
  static const char* names[] = {"f", "my.op", "a_b", "x1", "long.name.of.an.operator", "core.add"};
  return names[s.draw(5)];
}
std::string Doc(Src& s) {
  static const char* docs[] = {"", "doc", "Multi\nline \xc3\xa9 doc.", "  "};
  return docs[s.draw(3)];
}

TypedValue GenValue(Src& s, Dims d, int depth = 0);

// Signature with n or more parameters p0, p1, ...; returns the number of
// those that are not variadic.
ExprOperatorSignature GenSig(Src& s, int n, bool defaults = true, bool variadic = false) {
  ExprOperatorSignature sig;
  bool def = false;
  for (int i = 0; i < n; ++i) {
    sig.parameters.push_back({std::string("p") + std::to_string(i)});
    def |= defaults && s.chance(1, 4);
    if (def) sig.parameters.back().default_value = GenValue(s, Dims{3, 2}, 3);
  }
  if (variadic) {
    sig.parameters.push_back({"args", std::nullopt, ExprOperatorSignature::Parameter::Kind::kVariadicPositional});
  }
  if (s.chance(1, 3)) {
    sig.aux_policy_name = "policy";
    if (s.boolean()) sig.aux_policy_options = "opts, 2:|x";
  }
  return sig;
}

// A predicate over types, over the parameters p0..p(n-1).
ExprNodePtr Predicate(Src& s, int n, int depth = 0) {
  auto p = [&] { return Placeholder("p" + std::to_string(s.draw(n - 1))); };
  switch (s.draw(depth < 2 ? 4 : 2)) {
    case 0: return *CallOp("core.equal", {p(), Literal(GenLeafValue(s, Dims{2, 1}).GetType())});
    case 1: return *CallOp("qtype.is_numeric_qtype", {p()});
    case 2: return *CallOp("core.not_equal", {p(), p()});
    case 3: return *CallOp("core.presence_and", {Predicate(s, n, depth + 1), Predicate(s, n, depth + 1)});
    default: return *CallOp("core.presence_or", {Predicate(s, n, depth + 1), Predicate(s, n, depth + 1)});
  }
}

std::vector<ol::QTypeConstraint> Constraints(Src& s, int n) {
  std::vector<ol::QTypeConstraint> res(n ? s.draw(3) : 0);
  for (auto& c : res) {
    c.predicate_expr = Predicate(s, n);
    c.error_message = s.boolean() ? "expected {p0}" : "message \xc3\xa9";
  }
  return res;
}

absl::StatusOr<ExprOperatorPtr> GenOp(Src& s, int depth = 0);

// An expression over the placeholders p0..p(n-1).
ExprNodePtr Body(Src& s, int n) {
  auto p = [&]() -> ExprNodePtr {
    if (n == 0 || s.chance(1, 4)) return Literal(GenLeafValue(s, Dims{2, 1}));
    return Placeholder("p" + std::to_string(s.draw(n - 1)));
  };
  ExprNodePtr e = p();
  static const char* ops[] = {"math.add", "core.make_tuple", "core.presence_or", "math.neg", "core.has"};
  for (int k = s.draw(4); k > 0; --k) {
    int i = s.draw(4);
    auto r = i < 3 ? (s.boolean() ? CallOp(ops[i], {e, p()}) : CallOp(ops[i], {p(), e})) : CallOp(ops[i], {e});
    if (r.ok()) e = *r;
  }
  return e;
}

absl::StatusOr<std::shared_ptr<LambdaOperator>> GenLambda(Src& s, int n, bool variadic) {
  auto sig = GenSig(s, n, true, variadic);
  ExprNodePtr body = Body(s, n);
  if (variadic && s.boolean()) {
    auto b = CallOp("core.make_tuple", {body, Placeholder("args")});
    if (b.ok()) body = *b;
  }
  auto r = LambdaOperator::Make(Name(s), sig, body, Doc(s));
  if (!r.ok()) return r.status();
  return std::const_pointer_cast<LambdaOperator>(*r);
}

absl::StatusOr<ExprOperatorPtr> GenOp(Src& s, int depth) {
  auto sub = [&]() -> absl::StatusOr<ExprOperatorPtr> {
    if (depth >= 2 || s.boolean()) return Reg(Ops()[s.draw(Ops().size() - 1)].name);
    return GenOp(s, depth + 1);
  };
  int n = s.draw(3);
  switch (s.draw(13)) {
    case 0:
      if (s.boolean()) return Reg(Ops()[s.draw(Ops().size() - 1)].name);
      return std::make_shared<RegisteredOperator>("not.registered");
    case 1: {
      auto r = GenLambda(s, n, s.chance(1, 5));
      if (!r.ok()) return r.status();
      return *r;
    }
    case 2: return MakeTupleOperator::Make();
    case 3: {
      auto r = GetNthOperator::Make(s.draw(40));
      if (!r.ok()) return r.status();
      return *r;
    }
    case 4: {
      std::vector<ExprOperatorPtr> ops(s.range(1, 3));
      for (auto& o : ops) {
        auto r = sub();
        if (!r.ok()) return r.status();
        o = *r;
      }
      return std::make_shared<OverloadedOperator>(Name(s), ops);
    }
    case 5: {
      auto state = Placeholder("loop_state");
      auto sig = ExprOperatorSignature{{"loop_state"}};
      for (int i = 0; i < n; ++i) sig.parameters.push_back({std::string("p") + std::to_string(i)});
      auto cond_body = CallOp(s.boolean() ? "core.has" : "core.presence_not",
                              {s.boolean() ? state : Placeholder(sig.parameters.back().name)});
      if (!cond_body.ok()) return cond_body.status();
      auto cond = LambdaOperator::Make(sig, *cond_body);
      if (!cond.ok()) return cond.status();
      auto bb = s.boolean() ? state : *CallOp("math.add", {state, Literal(1)});
      auto body = LambdaOperator::Make(Name(s), sig, bb);
      if (!body.ok()) return body.status();
      auto r = expr_operators::WhileLoopOperator::Make(Name(s), sig, *cond, *body);
      if (!r.ok()) return r.status();
      return *r;
    }
    case 6: {
      int m = std::max(n, 1);
      ExprNodePtr inf = s.boolean() ? Literal(GenLeafValue(s, Dims{2, 1}).GetType())
                                    : *CallOp("qtype.common_qtype", {Placeholder("p0"), Placeholder("p0")});
      return ol::BackendOperator::Make(Name(s), GenSig(s, m), Doc(s), Constraints(s, m), inf);
    }
    case 7: {
      auto base = GenLambda(s, n, false);
      if (!base.ok()) return base.status();
      return ol::RestrictedLambdaOperator::Make(*base, Constraints(s, n));
    }
    case 8:
      return std::make_shared<ol::DummyOperator>(Name(s), GenSig(s, n, true, s.boolean()), Doc(s),
                                                 GenLeafValue(s, Dims{2, 1}).GetType());
    case 9: {
      int m = std::max(n, 1);
      std::vector<ol::DispatchOperator::Overload> ov(s.range(0, 3));
      for (size_t i = 0; i < ov.size(); ++i) {
        auto r = sub();
        if (!r.ok()) return r.status();
        ov[i] = {"case" + std::to_string(i), *r, Predicate(s, m)};
      }
      ExprOperatorPtr def;
      if (s.boolean()) {
        auto r = sub();
        if (!r.ok()) return r.status();
        def = *r;
      }
      auto r = ol::DispatchOperator::Make(Name(s), GenSig(s, m), Doc(s), ov, def);
      if (!r.ok()) return r.status();
      return std::static_pointer_cast<const ExprOperator>(*r);
    }
    case 10: {
      auto r = ol::GenericOperator::Make("my.generic.op" + std::to_string(s.draw(3)),
                                         GenSig(s, n, true, s.chance(1, 4)), Doc(s));
      if (!r.ok()) return r.status();
      return *r;
    }
    case 11: {
      int m = std::max(n, 1);
      auto r0 = sub();
      if (!r0.ok()) return r0.status();
      auto r = ol::GenericOperatorOverload::Make(Name(s), GenSig(s, m, false), Predicate(s, m), *r0);
      if (!r.ok()) return r.status();
      return *r;
    }
    case 12: {
      return Reg("core.make_tuple");
    }
    default: return FunctionOp(s, 1 + s.draw(1));
  }
}

QTypePtr GenQType(Src& s, int depth = 0) {
  switch (s.draw(depth < 2 ? 11 : 4)) {
    case 0: case 1: case 2: return GenLeafValue(s, Dims{2, 1}).GetType();
    case 3: {
      QTypePtr t[] = {GetQTypeQType(), GetNothingQType(), GetUnspecifiedQType(), GetWeakFloatQType(),
                      GetOptionalWeakFloatQType(), GetQType<ExprQuote>(), GetQType<ExprOperatorPtr>(),
                      GetQType<Object>(), GetQType<JaggedDenseArrayShape>(), GetQType<JaggedArrayShape>(),
                      GetQType<DenseArray<uint64_t>>(), GetQType<Array<uint64_t>>(), GetQType<uint64_t>(),
                      GetQType<ScalarToScalarEdge>(), GetQType<OptionalScalarShape>(), GetQType<ScalarShape>()};
      return t[s.draw(15)];
    }
    case 4: return GetQType<int>();
    case 5: case 6: {
      std::vector<QTypePtr> f(s.draw(3));
      for (auto& x : f) x = GenQType(s, depth + 1);
      auto t = MakeTupleQType(f);
      if (s.boolean()) return t;
      std::vector<std::string> names;
      for (size_t i = 0; i < f.size(); ++i) names.push_back((i % 2 ? "n" : "\xc3\xa9") + std::to_string(i));
      auto r = MakeNamedTupleQType(names, t);
      return r.ok() ? *r : t;
    }
    case 7: return MakeSliceQType(GenQType(s, depth + 1), GenQType(s, depth + 1), GenQType(s, depth + 1));
    case 8: return GetSequenceQType(GenQType(s, depth + 1));
    case 9: return GetLabeledQType(GenQType(s, depth + 1), s.boolean() ? "lab::el" : "\xc3\xa9");
    case 10: {
      switch (s.draw(4)) {
        case 0: return GetKeyToRowDictQType<int64_t>();
        case 1: return GetKeyToRowDictQType<Text>();
        case 2: return GetKeyToRowDictQType<Bytes>();
        case 3: return GetKeyToRowDictQType<bool>();
        default: return GetKeyToRowDictQType<int32_t>();
      }
    }
    default: {
      auto key = s.boolean() ? GetQType<int64_t>() : GetQType<Bytes>();
      auto r = GetDictQType(key, GenLeafValue(s, Dims{2, 1}).GetType());
      return r.ok() ? *r : GetQType<int>();
    }
  }
}

TypedValue GenValue(Src& s, Dims d, int depth) {
  switch (s.draw(depth < 3 ? 19 : 5)) {
    case 0: case 1: case 2: case 3: return GenLeafValue(s, d);
    case 4: {
      switch (s.draw(6)) {
        case 0: return GetUnspecifiedQValue();
        case 1: return *TypedValue::FromValueWithQType(GenScalar<double>(s), GetWeakFloatQType());
        case 2:
          return *TypedValue::FromValueWithQType(OptionalValue<double>(GenScalar<double>(s)),
                                                 GetOptionalWeakFloatQType());
        case 3: case 4: case 5: return TypedValue::FromValue(GenDense<uint64_t>(s, d.n));
        default: return TypedValue::FromValue(GenArr<uint64_t>(s, d.n));
      }
    }
    case 5:
      if (s.boolean()) return TypedValue::FromValue(GenScalar<int64_t>(s));
      {
        auto f = TypedValue::FromValue(DecisionForestPtr(vf::GenForest(s, 3).Make()));
        if (serialization::Encode({f}, {}).ok()) return f;  // not all conditions have an encoding
        return TypedValue::FromValue(kUnit);
      }
    case 6: {  // long arrays: several bitmap words
      Dims big{size_t(s.range(30, 200)), 5};
      return GenLeafValue(s, big);
    }
    case 7: {
      std::string c;
      for (int i = s.draw(6); i > 0; --i) c += char(s.draw(255));
      return TypedValue::FromValue(Bytes(c));
    }
    case 8: return TypedValue::FromValue(GenQType(s));
    case 9: case 10: {
      std::vector<TypedValue> f;
      for (int i = s.draw(4); i > 0; --i) f.push_back(GenValue(s, d, depth + 1));
      TypedValue t = MakeTuple(f);
      if (s.boolean()) return t;
      std::vector<std::string> names;
      for (size_t i = 0; i < f.size(); ++i) names.push_back("field" + std::to_string(f.size() - i));
      auto nt = MakeNamedTupleQType(names, t.GetType());
      return nt.ok() ? UnsafeDowncastDerivedQValue(*nt, t) : t;
    }
    case 11: {
      TypedValue a = GenValue(s, d, depth + 1), b = GenValue(s, d, depth + 1), c = GenValue(s, d, depth + 1);
      return UnsafeDowncastDerivedQValue(MakeSliceQType(a.GetType(), b.GetType(), c.GetType()), MakeTuple({a, b, c}));
    }
    case 12: {
      TypedValue v = GenValue(s, d, depth + 1);
      int n = s.draw(4);
      auto seq = MutableSequence::Make(v.GetType(), n);
      if (!seq.ok()) return v;
      for (int i = 0; i < n; ++i) {
        TypedValue x = v;
        for (int k = 0; k < 3; ++k) {
          TypedValue y = GenLeafValue(s, d);
          if (y.GetType() == v.GetType()) x = y;
        }
        seq->UnsafeSetRef(i, x.AsRef());
      }
      return TypedValue::FromValueWithQType(std::move(*seq).Finish(), GetSequenceQType(v.GetType())).value();
    }
    case 13: {
      TypedValue v = GenValue(s, d, depth + 1);
      auto q = GetLabeledQType(v.GetType(), s.boolean() ? "lab::el" : "x");
      return UnsafeDowncastDerivedQValue(q, TypedValue(DecayDerivedQValue(v.AsRef())));
    }
    case 14: {
      std::optional<Object> proto;
      for (int k = s.draw(2); k >= 0; --k) {
        Object::Attributes attrs;
        for (int i = s.draw(4); i > 0; --i) {
          attrs.emplace(Words()[s.draw(Words().size() - 1)], GenValue(s, d, depth + 1));
        }
        proto = Object(std::move(attrs), proto);
      }
      return TypedValue::FromValue(*proto);
    }
    case 15: {
      JaggedDenseArrayShape::EdgeVec edges;
      int64_t size = 1;
      for (int k = s.draw(3); k > 0; --k) {
        std::vector<int64_t> sp{0};
        for (int64_t i = 0; i < size; ++i) sp.push_back(sp.back() + s.draw(3));
        size = sp.back();
        edges.push_back(*DenseArrayEdge::FromSplitPoints(CreateFullDenseArray<int64_t>(sp)));
      }
      if (s.boolean()) return TypedValue::FromValue(*JaggedDenseArrayShape::FromEdges(std::move(edges)));
      JaggedArrayShape::EdgeVec aedges;
      for (auto& e : edges) aedges.push_back(*ArrayEdge::FromSplitPoints(Array<int64_t>(e.edge_values())));
      return TypedValue::FromValue(*JaggedArrayShape::FromEdges(std::move(aedges)));
    }
    case 16: return TypedValue::FromValue(ExprQuote(SmallExpr(s)));
    default: {
      auto op = GenOp(s);
      if (!op.ok()) return TypedValue::FromValue(int64_t(1));
      return TypedValue::FromValue(*op);
    }
  }
}

// An expression of a few nodes, possibly shared, without attributes that could
// be inferred from leaves.
ExprNodePtr SmallExpr(Src& s, int depth) {
  std::vector<ExprNodePtr> pool{Leaf("x"), Leaf(Words()[s.draw(Words().size() - 1)]), Placeholder("p"),
                                Literal(GenValue(s, Dims{3, 2}, 2))};
  for (int k = s.draw(6); k > 0; --k) {
    auto any = [&] { return pool[s.draw(pool.size() - 1)]; };
    std::vector<ExprNodePtr> args;
    absl::StatusOr<ExprOperatorPtr> op = Reg(Ops()[s.draw(Ops().size() - 1)].name);
    if (depth == 0 && s.chance(1, 3)) op = GenOp(s, 1);
    if (!op.ok()) continue;
    auto sig = (*op)->GetSignature();
    if (!sig.ok()) continue;
    size_t n = (*sig)->parameters.size();
    if (!(*sig)->parameters.empty() &&
        (*sig)->parameters.back().kind == ExprOperatorSignature::Parameter::Kind::kVariadicPositional) {
      n += int(s.draw(3)) - 1;
    }
    for (size_t i = 0; i < n; ++i) args.push_back(any());
    auto r = MakeOpNode(*op, args);
    if (r.ok()) pool.push_back(*r);
  }
  return pool.back();
}

// ---------------------------------------------------------------- equality

std::string SigKey(const ExprOperatorPtr& op) {
  auto sig = op->GetSignature();
  if (!sig.ok()) return "error";
  std::string r = GetExprOperatorSignatureSpec(**sig);
  for (const auto& p : (*sig)->parameters) {
    absl::StrAppend(&r, "|", p.name, int(p.kind),
                    p.default_value ? p.default_value->GetFingerprint().AsString() : std::string("-"));
  }
  return r;
}

// Equality in everything that can be observed.
void SameOp(const ExprOperatorPtr& a, const ExprOperatorPtr& b) {
  PBT_ASSERT(a->fingerprint() == b->fingerprint(), "operators differ: ", a->display_name(), " ", b->display_name());
  PBT_ASSERT(a->display_name() == b->display_name(), "names: ", a->display_name(), " ", b->display_name());
  PBT_ASSERT(SigKey(a) == SigKey(b), "signatures: ", SigKey(a), " / ", SigKey(b));
  auto d1 = a->GetDoc(), d2 = b->GetDoc();
  PBT_ASSERT(d1.ok() == d2.ok() && (!d1.ok() || *d1 == *d2), "docs: ", d1.value_or("err"), " / ", d2.value_or("err"));
  PBT_ASSERT(a->py_qvalue_specialization_key() == b->py_qvalue_specialization_key(), "kinds: ",
             a->py_qvalue_specialization_key(), " / ", b->py_qvalue_specialization_key());
  auto cons = [](auto& x, auto& y) {
    PBT_ASSERT(x.size() == y.size(), "number of constraints");
    for (size_t i = 0; i < x.size(); ++i) {
      PBT_ASSERT(x[i].error_message == y[i].error_message, "messages: ", x[i].error_message, " / ",
                 y[i].error_message);
      PBT_ASSERT(x[i].predicate_expr->fingerprint() == y[i].predicate_expr->fingerprint(), "predicates");
    }
  };
  if (auto* x = dynamic_cast<const LambdaOperator*>(a.get())) {
    auto* y = dynamic_cast<const LambdaOperator*>(b.get());
    PBT_ASSERT(y && x->lambda_body()->fingerprint() == y->lambda_body()->fingerprint(), "lambda body");
  } else if (auto* x = dynamic_cast<const ol::BackendOperator*>(a.get())) {
    auto* y = dynamic_cast<const ol::BackendOperator*>(b.get());
    cons(x->qtype_constraints(), y->qtype_constraints());
    PBT_ASSERT(x->qtype_inference_expr()->fingerprint() == y->qtype_inference_expr()->fingerprint(), "inference");
  } else if (auto* x = dynamic_cast<const ol::RestrictedLambdaOperator*>(a.get())) {
    auto* y = dynamic_cast<const ol::RestrictedLambdaOperator*>(b.get());
    cons(x->qtype_constraints(), y->qtype_constraints());
    SameOp(std::const_pointer_cast<LambdaOperator>(x->base_lambda_operator()),
           std::const_pointer_cast<LambdaOperator>(y->base_lambda_operator()));
  } else if (auto* x = dynamic_cast<const ol::DispatchOperator*>(a.get())) {
    auto* y = dynamic_cast<const ol::DispatchOperator*>(b.get());
    PBT_ASSERT(x->overloads().size() == y->overloads().size(), "overloads");
    for (size_t i = 0; i < x->overloads().size(); ++i) {
      auto &p = x->overloads()[i], &q = y->overloads()[i];
      PBT_ASSERT(p.name == q.name && p.condition_expr->fingerprint() == q.condition_expr->fingerprint(), "overload ",
                 p.name, " / ", q.name);
      SameOp(p.op, q.op);
    }
    PBT_ASSERT((x->default_op() != nullptr) == (y->default_op() != nullptr), "default op");
    if (x->default_op()) SameOp(x->default_op(), y->default_op());
  } else if (auto* x = dynamic_cast<const ol::GenericOperatorOverload*>(a.get())) {
    auto* y = dynamic_cast<const ol::GenericOperatorOverload*>(b.get());
    PBT_ASSERT(x->condition_expr()->fingerprint() == y->condition_expr()->fingerprint(), "condition");
    SameOp(x->base_operator(), y->base_operator());
  } else if (auto* x = dynamic_cast<const OverloadedOperator*>(a.get())) {
    auto* y = dynamic_cast<const OverloadedOperator*>(b.get());
    PBT_ASSERT(x->base_ops().size() == y->base_ops().size(), "base ops");
    for (size_t i = 0; i < x->base_ops().size(); ++i) SameOp(x->base_ops()[i], y->base_ops()[i]);
  } else if (auto* x = dynamic_cast<const expr_operators::WhileLoopOperator*>(a.get())) {
    auto* y = dynamic_cast<const expr_operators::WhileLoopOperator*>(b.get());
    SameOp(x->condition(), y->condition());
    SameOp(x->body(), y->body());
  } else if (auto* x = dynamic_cast<const ol::DummyOperator*>(a.get())) {
    auto* y = dynamic_cast<const ol::DummyOperator*>(b.get());
    PBT_ASSERT(x->GetOutputQType() == y->GetOutputQType(), "output type");
  }
}

// Every element with its bits.
template <class T>
std::string Bits(const T& x) {
  if constexpr (std::is_same_v<T, Unit>) {
    return "u";
  } else if constexpr (std::is_same_v<T, Text> || std::is_same_v<T, Bytes>) {
    return absl::StrCat(absl::string_view(x).size(), ":", absl::string_view(x));
  } else if constexpr (std::is_same_v<T, absl::string_view>) {
    return absl::StrCat(x.size(), ":", x);
  } else if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(x)) return "nan";
    return absl::StrCat(std::signbit(x) ? "-" : "+", std::to_string(x), "/", x);
  } else {
    return absl::StrCat(x);
  }
}

std::string Deep(TypedRef v);

// What can be read out of a value, in full (reprs are shortened).
std::string DeepData(TypedRef v) {
  std::string r;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (v.GetType() == GetQType<T>()) r = Bits(v.UnsafeAs<T>());
    if (v.GetType() == GetOptionalQType<T>()) {
      auto& o = v.UnsafeAs<OptionalValue<T>>();
      r = o.present ? Bits(o.value) : "_";
    }
    auto dense = [&](const auto& a) {
      r = absl::StrCat(a.size(), "[");
      for (int64_t i = 0; i < a.size(); ++i) {
        auto o = a[i];
        r += o.present ? Bits(o.value) : std::string("_");
        r += ",";
      }
    };
    if (v.GetType() == GetDenseArrayQType<T>()) dense(v.UnsafeAs<DenseArray<T>>());
    if (v.GetType() == GetArrayQType<T>()) {
      auto& a = v.UnsafeAs<Array<T>>();
      dense(a);
      if (a.empty()) return;
      // The representation as well.
      absl::StrAppend(&r, "|", a.IsDenseForm(), a.IsSparseForm(), a.IsConstForm(), a.dense_data().size());
      if (a.IsSparseForm()) {
        for (auto id : a.id_filter().ids()) absl::StrAppend(&r, " ", id);
      }
      absl::StrAppend(&r, a.missing_id_value().present ? Bits(T(a.missing_id_value().value)) : "_");
    }
  });
  if (v.GetType() == GetQType<DenseArrayEdge>()) {
    auto& e = v.UnsafeAs<DenseArrayEdge>();
    return absl::StrCat(int(e.edge_type()), " ", e.parent_size(), " ", e.child_size(),
                        Deep(TypedValue::FromValue(e.edge_values()).AsRef()));
  }
  if (v.GetType() == GetQType<ArrayEdge>()) {
    auto& e = v.UnsafeAs<ArrayEdge>();
    return absl::StrCat(int(e.edge_type()), " ", e.parent_size(), " ", e.child_size(),
                        Deep(TypedValue::FromValue(e.edge_values()).AsRef()));
  }
  return r;
}

std::string Deep(TypedRef v) {
  std::string repr = v.Repr();
  // Reprs of forests have addresses.
  for (size_t at = repr.find(" at 0x"); at != std::string::npos; at = repr.find(" at 0x")) {
    repr = repr.substr(0, at) + repr.substr(repr.find('>', at));
  }
  std::string r = absl::StrCat(v.GetType()->name(), "{", repr, "}", DeepData(v));
  if (v.GetType() == GetQType<ExprOperatorPtr>()) return r;
  if (v.GetType() == GetQType<Object>()) {
    std::optional<Object> o = v.UnsafeAs<Object>();
    while (o.has_value()) {
      r += "obj";
      for (const auto* p : o->GetSortedAttributes()) absl::StrAppend(&r, p->first, "=", Deep(p->second.AsRef()), ";");
      auto pr = o->prototype();
      o = pr;
    }
  }
  if (IsSequenceQType(v.GetType())) {
    const auto& q = v.UnsafeAs<Sequence>();
    for (size_t i = 0; i < q.size(); ++i) r += Deep(q.GetRef(i)) + ";";
  }
  for (int64_t i = 0; i < v.GetFieldCount(); ++i) r += Deep(v.GetField(i)) + ";";
  return r;
}

void Equal(const TypedValue& a, const TypedValue& b) {
  PBT_ASSERT(a.GetType() == b.GetType(), "types: ", a.GetType()->name(), " ", b.GetType()->name());
  if (a.GetType() == GetQType<ExprOperatorPtr>()) SameOp(a.UnsafeAs<ExprOperatorPtr>(), b.UnsafeAs<ExprOperatorPtr>());
  std::string x = Deep(a.AsRef()), y = Deep(b.AsRef());
  PBT_ASSERT(x == y, "values: ", x.substr(0, 300), " / ", y.substr(0, 300));
  PBT_ASSERT(a.GetFingerprint() == b.GetFingerprint(), "fingerprints of ", a.GetType()->name(), " ", a.Repr(), " / ",
             b.Repr());
}

void EqualExpr(const ExprNodePtr& a, const ExprNodePtr& b) {
  auto p1 = PostOrder(a), p2 = PostOrder(b);
  PBT_ASSERT(p1.nodes_size() == p2.nodes_size(), "sizes of expressions");
  for (size_t i = 0; i < p1.nodes_size(); ++i) {
    auto &x = p1.node(i), &y = p2.node(i);
    PBT_ASSERT(x->type() == y->type() && x->leaf_key() == y->leaf_key() && x->placeholder_key() == y->placeholder_key(),
               "nodes: ", ToDebugString(x), " / ", ToDebugString(y));
    PBT_ASSERT(x->qtype() == y->qtype(), "type of ", ToDebugString(x));
    PBT_ASSERT(x->qvalue().has_value() == y->qvalue().has_value(), "value of ", ToDebugString(x));
    if (x->qvalue()) {
      PBT_ASSERT(x->qvalue()->GetFingerprint() == y->qvalue()->GetFingerprint(), "value of ", ToDebugString(x));
      if (x->is_literal()) Equal(*x->qvalue(), *y->qvalue());
    }
    if (x->is_op()) SameOp(x->op(), y->op());
    PBT_ASSERT(x->fingerprint() == y->fingerprint(), "fingerprint of ", ToDebugString(x));
  }
}

// The expression with operators of the C++ library given by their names.
ExprNodePtr Registered(const ExprNodePtr& e) {
  return *Transform(e, [](ExprNodePtr n) -> absl::StatusOr<ExprNodePtr> {
    if (!n->is_op() || !n->op()->py_qvalue_specialization_key().empty()) return n;
    auto op = ExprOperatorRegistry::GetInstance()->LookupOperatorOrNull(n->op()->display_name());
    if (op == nullptr) return n;
    return MakeOpNode(op, n->node_deps());
  });
}

struct Input {
  std::vector<TypedValue> values;
  std::vector<ExprNodePtr> exprs;
  bool rich = false;
};

Input GenInput(Src& s, bool big_exprs) {
  Init();
  CanonicalEmptyArrays() = true;
  Input in;
  for (int k = s.draw(3); k > 0; --k) {
    if (!in.values.empty() && s.chance(1, 6)) {
      in.values.push_back(in.values[s.draw(in.values.size() - 1)]);
    } else {
      in.values.push_back(GenValue(s, Dims{size_t(s.draw(6)), size_t(s.draw(3))}));
      s.label(std::string(in.values.back().GetType()->name().substr(0, 5)));
    }
    s.note("value", Show(in.values.back()));
  }
  for (int k = s.draw(2); k > 0; --k) {
    if (big_exprs && s.boolean()) {
      Gen g;
      GenOptions o;
      in.exprs.push_back(Registered(GenExpr(s, g, o)));
    } else {
      in.exprs.push_back(SmallExpr(s));
    }
    s.note("expr", ToDebugString(in.exprs.back()).substr(0, 300));
  }
  for (auto& v : in.values) in.rich |= v.GetFieldCount() > 1 || v.GetType() == GetQType<ExprOperatorPtr>();
  for (auto& e : in.exprs) in.rich |= PostOrder(e).nodes_size() >= 4;
  return in;
}

void SameResult(const Input& in, const absl::StatusOr<serialization::DecodeResult>& d, const char* what) {
  PBT_ASSERT(d.ok(), what, ": decoding failed: ", d.status().ToString().substr(0, 300));
  PBT_ASSERT(d->values.size() == in.values.size() && d->exprs.size() == in.exprs.size(), what, ": ", d->values.size(),
             " values and ", d->exprs.size(), " expressions");
  for (size_t i = 0; i < in.values.size(); ++i) Equal(in.values[i], d->values[i]);
  for (size_t i = 0; i < in.exprs.size(); ++i) EqualExpr(in.exprs[i], d->exprs[i]);
}

bool Unserializable(const absl::Status& st) { return st.code() == absl::StatusCode::kUnimplemented; }

std::string Bytes_(const ContainerProto& c) { return c.SerializeAsString(); }

PBT_TEST(E04_roundtrip, 16000, 400000, "a composite value, an operator or an expression of four or more nodes") {
  Input in = GenInput(s, true);
  auto c = serialization::Encode(in.values, in.exprs);
  PBT_ASSERT(c.ok(), "encoding failed: ", c.status().ToString());
  std::string bytes = Bytes_(*c);
  ContainerProto parsed;
  PBT_ASSERT(parsed.ParseFromString(bytes), "cannot parse");
  auto d = serialization::Decode(parsed);
  SameResult(in, d, "round trip");
  // The same container for the same input, and for what was decoded.
  auto c2 = serialization::Encode(d->values, d->exprs);
  PBT_ASSERT(c2.ok() && Bytes_(*c2) == bytes, "the container of the decoded differs");
  // Each value and expression is stored once.
  std::set<std::string> seen;
  for (const auto& st : c->decoding_steps()) {
    if (st.has_output_value_index() || st.has_output_expr_index()) continue;
    PBT_ASSERT(seen.insert(st.SerializeAsString()).second, "a repeated step: ", st.ShortDebugString().substr(0, 200));
  }
  // Codecs not named by the value steps are found.
  if (s.chance(1, 4)) {
    ContainerProto nc = *c;
    for (auto& st : *nc.mutable_decoding_steps()) {
      if (st.has_value() && s.boolean()) st.mutable_value()->clear_codec_index();
    }
    SameResult(in, serialization::Decode(nc), "without codec index");
  }
  // Without inference of attributes: the same nodes with none.
  if (s.chance(1, 4) && !in.exprs.empty()) {
    serialization::DecodingOptions opt;
    opt.infer_attributes_for_operator_nodes = false;
    auto d2 = serialization::Decode(*c, opt);
    if (d2.ok()) {
      for (size_t i = 0; i < in.exprs.size(); ++i) {
        auto p1 = PostOrder(in.exprs[i]), p2 = PostOrder(d2->exprs[i]);
        PBT_ASSERT(p1.nodes_size() == p2.nodes_size(), "nodes without attributes");
        for (size_t k = 0; k < p1.nodes_size(); ++k) {
          auto &x = p1.node(k), &y = p2.node(k);
          PBT_ASSERT(x->type() == y->type() && x->node_deps().size() == y->node_deps().size() &&
                         (x->is_op() ? x->op()->display_name() == y->op()->display_name()
                                     : x->is_literal() || x->fingerprint() == y->fingerprint()),
                     "node without attributes");
          PBT_ASSERT(!p2.node(k)->is_op() || (p2.node(k)->qtype() == nullptr && !p2.node(k)->qvalue()),
                     "attributes of ", ToDebugString(p2.node(k)));
        }
      }
    } else {
      s.label("inference needed");
    }
  }
  if (in.values.size() == 1 && in.exprs.empty()) {
    auto v = serialization::DecodeValue(*c);
    PBT_ASSERT(v.ok(), "DecodeValue");
    Equal(in.values[0], *v);
  } else {
    PBT_ASSERT(!serialization::DecodeValue(*c).ok(), "DecodeValue of several");
  }
  if (in.exprs.size() == 1 && in.values.empty()) {
    auto v = serialization::DecodeExpr(*c);
    PBT_ASSERT(v.ok(), "DecodeExpr");
    EqualExpr(in.exprs[0], *v);
  } else {
    PBT_ASSERT(!serialization::DecodeExpr(*c).ok(), "DecodeExpr of several");
  }
  if (in.rich) s.nontrivial();
}

PBT_TEST(E04_expr_set, 3000, 60000, "two or more expressions") {
  Init();
  CanonicalEmptyArrays() = true;
  absl::flat_hash_map<std::string, ExprNodePtr> set;
  for (int k = s.draw(5); k > 0; --k) {
    std::string name = s.boolean() ? Words()[s.draw(Words().size() - 1)] : "n" + std::to_string(s.draw(9));
    set[name] = SmallExpr(s);
    s.note(name.c_str(), ToDebugString(set[name]).substr(0, 200));
  }
  auto c = serialization::EncodeExprSet(set);
  PBT_ASSERT(c.ok(), "encoding failed: ", c.status().ToString());
  auto c2 = serialization::EncodeExprSet(absl::flat_hash_map<std::string, ExprNodePtr>(set.begin(), set.end()));
  PBT_ASSERT(c2.ok() && Bytes_(*c) == Bytes_(*c2), "the encoding depends on the order in the map");
  auto d = serialization::DecodeExprSet(*c);
  PBT_ASSERT(d.ok(), "decoding failed: ", d.status().ToString());
  PBT_ASSERT(d->size() == set.size(), "size");
  for (auto& [n, e] : set) {
    PBT_ASSERT(d->contains(n), "lost ", n);
    EqualExpr(e, d->at(n));
  }
  // Containers that are not such sets.
  std::vector<TypedValue> names;
  std::vector<ExprNodePtr> es;
  for (auto& [n, e] : set) {
    names.push_back(TypedValue::FromValue(Text(n)));
    es.push_back(e);
  }
  if (!set.empty()) {
    auto bad_names = names;
    bad_names.push_back(names[s.draw(names.size() - 1)]);
    auto bad_es = es;
    bad_es.push_back(SmallExpr(s));
    PBT_ASSERT(!serialization::DecodeExprSet(*serialization::Encode(bad_names, bad_es)).ok(), "a repeated name");
    bad_names = names;
    bad_names[s.draw(names.size() - 1)] = TypedValue::FromValue(Bytes("b"));
    PBT_ASSERT(!serialization::DecodeExprSet(*serialization::Encode(bad_names, es)).ok(), "a name of another type");
    names.pop_back();
    PBT_ASSERT(!serialization::DecodeExprSet(*serialization::Encode(names, es)).ok(), "a missing name");
  }
  if (set.size() >= 2) s.nontrivial();
}

// ---------------------------------------------------------------- layout

template <class F>
void ForIndices(DecodingStepProto& st, F f) {  // f(uint64*, kind) kind: v e c
  auto rep = [&](auto* r, char k) {
    for (int i = 0; i < r->size(); ++i) {
      uint64_t x = r->Get(i);
      f(x, k);
      r->Set(i, x);
    }
  };
  uint64_t x;
  switch (st.type_case()) {
    case DecodingStepProto::kLiteralNode:
      x = st.literal_node().literal_value_index();
      f(x, 'v');
      st.mutable_literal_node()->set_literal_value_index(x);
      break;
    case DecodingStepProto::kOperatorNode:
      x = st.operator_node().operator_value_index();
      f(x, 'v');
      st.mutable_operator_node()->set_operator_value_index(x);
      rep(st.mutable_operator_node()->mutable_input_expr_indices(), 'e');
      break;
    case DecodingStepProto::kValue:
      rep(st.mutable_value()->mutable_input_value_indices(), 'v');
      rep(st.mutable_value()->mutable_input_expr_indices(), 'e');
      if (st.value().has_codec_index()) {
        x = st.value().codec_index();
        f(x, 'c');
        st.mutable_value()->set_codec_index(x);
      }
      break;
    case DecodingStepProto::kOutputValueIndex:
      x = st.output_value_index();
      f(x, 'o');
      st.set_output_value_index(x);
      break;
    case DecodingStepProto::kOutputExprIndex:
      x = st.output_expr_index();
      f(x, 'O');
      st.set_output_expr_index(x);
      break;
    default: break;
  }
}

// Containers laid out in other ways, with the same meaning.
PBT_TEST(E04_layout, 6000, 120000, "ten or more steps") {
  Input in = GenInput(s, false);
  auto c = serialization::Encode(in.values, in.exprs);
  PBT_ASSERT(c.ok(), "encoding failed: ", c.status().ToString());
  if (c->decoding_steps_size() >= 10) s.nontrivial();
  const int n = c->decoding_steps_size();
  if (n == 0) return;
  // 1: codecs and outputs in lists of their own.
  {
    ContainerProto v1;
    v1.set_version(1);
    std::map<uint64_t, uint64_t> codec, step;
    for (int i = 0; i < n; ++i) {
      DecodingStepProto st = c->decoding_steps(i);
      ForIndices(st, [&](uint64_t& x, char k) { x = k == 'c' ? codec.at(x) : step.at(x); });
      if (st.has_codec()) {
        codec[i] = v1.codecs_size();
        *v1.add_codecs() = st.codec();
      } else if (st.has_output_value_index()) {
        v1.add_output_value_indices(st.output_value_index());
      } else if (st.has_output_expr_index()) {
        v1.add_output_expr_indices(st.output_expr_index());
      } else {
        step[i] = v1.decoding_steps_size();
        *v1.add_decoding_steps() = st;
      }
    }
    SameResult(in, serialization::Decode(v1), "version 1");
  }
  // 2: steps in another order that respects the references; metadata steps;
  // repeated steps.
  {
    std::vector<std::set<int>> deps(n);
    std::vector<int> outs;
    for (int i = 0; i < n; ++i) {
      DecodingStepProto st = c->decoding_steps(i);
      ForIndices(st, [&](uint64_t& x, char k) { deps[i].insert(x); });
      if (st.has_output_value_index() || st.has_output_expr_index()) outs.push_back(i);
    }
    for (size_t i = 1; i < outs.size(); ++i) deps[outs[i]].insert(outs[i - 1]);
    std::vector<int> pos(n, -1);
    ContainerProto nc;
    nc.set_version(2);
    for (int done = 0; done < n; ++done) {
      std::vector<int> ready;
      for (int i = 0; i < n; ++i) {
        if (pos[i] >= 0) continue;
        bool ok = true;
        for (int x : deps[i]) ok &= pos[x] >= 0;
        if (ok) ready.push_back(i);
      }
      int i = ready[s.draw(ready.size() - 1)];
      if (s.chance(1, 8)) nc.add_decoding_steps();
      DecodingStepProto st = c->decoding_steps(i);
      ForIndices(st, [&](uint64_t& x, char) { x = pos[x]; });
      bool out = st.has_output_value_index() || st.has_output_expr_index();
      if (!out && s.chance(1, 10)) *nc.add_decoding_steps() = st;
      pos[i] = nc.decoding_steps_size();
      *nc.add_decoding_steps() = st;
    }
    // 3: usage counts.
    std::vector<int> used(nc.decoding_steps_size());
    std::vector<bool> stored(nc.decoding_steps_size());
    for (int i = 0; i < nc.decoding_steps_size(); ++i) {
      DecodingStepProto st = nc.decoding_steps(i);
      auto t = st.type_case();
      stored[i] = t >= DecodingStepProto::kLiteralNode && t <= DecodingStepProto::kValue;
      ForIndices(st, [&](uint64_t& x, char k) {
        if (k != 'c') ++used[x];
      });
    }
    SameResult(in, serialization::Decode(nc), "reordered");
    bool unused = false;
    for (size_t i = 0; i < used.size(); ++i) unused |= stored[i] && used[i] == 0;
    if (!unused) {
      int at = s.draw(nc.decoding_steps_size() - 1);
      if (s.boolean()) at = 0;
      auto put = [&](ContainerProto& p, int victim, int delta) {
        auto* h = p.mutable_decoding_steps(at)->mutable_decoder_hints();
        size_t len = used.size();
        if (victim < 0 && s.chance(1, 4)) len = s.draw(used.size());
        for (size_t i = 0; i < len; ++i) {
          h->add_decoding_step_result_usage_counts(used[i] + (int(i) == victim ? delta : 0));
        }
      };
      ContainerProto h = nc;
      put(h, -1, 0);
      SameResult(in, serialization::Decode(h), "with usage counts");
      std::vector<int> cand;
      for (size_t i = 0; i < used.size(); ++i) {
        if (stored[i] && used[i] > 0) cand.push_back(i);
      }
      if (!cand.empty()) {
        int victim = cand[s.draw(cand.size() - 1)];
        ContainerProto low = nc;
        put(low, victim, -1);
        PBT_ASSERT(!serialization::Decode(low).ok(), "usage of a step above the stated count");
        ContainerProto high = nc;
        put(high, victim, 3);
        SameResult(in, serialization::Decode(high), "with usage counts that are too large");
      }
      if (nc.decoding_steps_size() >= 2) {
        ContainerProto twice = h;
        int other = at == 0 ? 1 : 0;
        twice.mutable_decoding_steps(other)->mutable_decoder_hints()->add_decoding_step_result_usage_counts(1000);
        PBT_ASSERT(h.decoding_steps(at).decoder_hints().decoding_step_result_usage_counts_size() == 0 ||
                       !serialization::Decode(twice).ok(),
                   "two sets of usage counts");
      }
    }
  }
}

// ---------------------------------------------------------------- format

// Writes containers by the description of the format.
struct Writer {
  ContainerProto c;
  std::map<std::string, uint64_t> codecs;
  Writer() { c.set_version(2); }
  uint64_t Codec(const std::string& name) {
    auto it = codecs.find(name);
    if (it != codecs.end()) return it->second;
    c.add_decoding_steps()->mutable_codec()->set_name(name);
    return codecs[name] = c.decoding_steps_size() - 1;
  }
  ValueProto* Value(const std::string& codec) {
    auto k = Codec(codec);
    auto* v = c.add_decoding_steps()->mutable_value();
    v->set_codec_index(k);
    return v;
  }
  uint64_t Last() const { return c.decoding_steps_size() - 1; }
};

using serialization_codecs::DenseArrayV1Proto;
using serialization_codecs::OptionalV1Proto;
using serialization_codecs::ScalarV1Proto;
using serialization_codecs::TupleV1Proto;
const char* kScalarCodec = "arolla.serialization_codecs.ScalarV1Proto.extension";
const char* kOptionalCodec = "arolla.serialization_codecs.OptionalV1Proto.extension";
const char* kDenseCodec = "arolla.serialization_codecs.DenseArrayV1Proto.extension";
const char* kTupleCodec = "arolla.serialization_codecs.TupleV1Proto.extension";

template <class T>
void PutScalar(Writer& w, const T& x) {
  auto* p = w.Value(kScalarCodec)->MutableExtension(ScalarV1Proto::extension);
  if constexpr (std::is_same_v<T, bool>) p->set_boolean_value(x);
  if constexpr (std::is_same_v<T, Unit>) p->set_unit_value(true);
  if constexpr (std::is_same_v<T, int32_t>) p->set_int32_value(x);
  if constexpr (std::is_same_v<T, int64_t>) p->set_int64_value(x);
  if constexpr (std::is_same_v<T, uint64_t>) p->set_uint64_value(x);
  if constexpr (std::is_same_v<T, float>) p->set_float32_value(x);
  if constexpr (std::is_same_v<T, double>) p->set_float64_value(x);
  if constexpr (std::is_same_v<T, Text>) p->set_text_value(std::string(absl::string_view(x)));
  if constexpr (std::is_same_v<T, Bytes>) p->set_bytes_value(std::string(absl::string_view(x)));
}

template <class T>
void PutOptional(Writer& w, const OptionalValue<T>& x) {
  auto* p = w.Value(kOptionalCodec)->MutableExtension(OptionalV1Proto::extension);
  auto put = [&](auto* q) {
    if constexpr (std::is_same_v<T, Text> || std::is_same_v<T, Bytes>) {
      if (x.present) q->set_value(std::string(absl::string_view(x.value)));
    } else if constexpr (!std::is_same_v<T, Unit>) {
      if (x.present) q->set_value(x.value);
    }
  };
  if constexpr (std::is_same_v<T, Unit>) p->set_optional_unit_value(x.present);
  if constexpr (std::is_same_v<T, bool>) put(p->mutable_optional_boolean_value());
  if constexpr (std::is_same_v<T, int32_t>) put(p->mutable_optional_int32_value());
  if constexpr (std::is_same_v<T, int64_t>) put(p->mutable_optional_int64_value());
  if constexpr (std::is_same_v<T, uint64_t>) put(p->mutable_optional_uint64_value());
  if constexpr (std::is_same_v<T, float>) put(p->mutable_optional_float32_value());
  if constexpr (std::is_same_v<T, double>) put(p->mutable_optional_float64_value());
  if constexpr (std::is_same_v<T, Text>) put(p->mutable_optional_text_value());
  if constexpr (std::is_same_v<T, Bytes>) put(p->mutable_optional_bytes_value());
}

template <class T>
void PutDense(Src& s, Writer& w, const std::vector<OptionalValue<T>>& a) {
  auto* p = w.Value(kDenseCodec)->MutableExtension(DenseArrayV1Proto::extension);
  bool full = true;
  for (auto& x : a) full &= x.present;
  auto common = [&](auto* q) {
    q->set_size(a.size());
    if (!full || s.chance(1, 4)) {
      std::vector<uint32_t> words((a.size() + 31) / 32);
      for (size_t i = 0; i < a.size(); ++i) words[i / 32] |= uint32_t(a[i].present) << (i % 32);
      for (auto x : words) q->add_bitmap(x);
    }
  };
  auto plain = [&](auto* q) {
    common(q);
    if constexpr (std::is_arithmetic_v<T>) {
      for (auto& x : a) {
        if (x.present) q->add_values(x.value);
      }
    }
  };
  if constexpr (std::is_same_v<T, bool>) plain(p->mutable_dense_array_boolean_value());
  if constexpr (std::is_same_v<T, Unit>) common(p->mutable_dense_array_unit_value());
  if constexpr (std::is_same_v<T, int32_t>) plain(p->mutable_dense_array_int32_value());
  if constexpr (std::is_same_v<T, int64_t>) plain(p->mutable_dense_array_int64_value());
  if constexpr (std::is_same_v<T, uint64_t>) plain(p->mutable_dense_array_uint64_value());
  if constexpr (std::is_same_v<T, float>) plain(p->mutable_dense_array_float32_value());
  if constexpr (std::is_same_v<T, double>) plain(p->mutable_dense_array_float64_value());
  auto strings = [&](auto* q) {
    common(q);
    std::string chars;
    for (auto& x : a) {
      if constexpr (std::is_same_v<T, Text> || std::is_same_v<T, Bytes>) {
        if (!x.present) continue;
        absl::string_view v(x.value);
        size_t at = s.boolean() ? chars.find(v) : std::string::npos;
        if (at == std::string::npos) {
          if (s.chance(1, 5)) chars += "#";
          at = chars.size();
          chars += v;
        }
        q->add_value_offset_starts(at);
        q->add_value_offset_ends(at + v.size());
      }
    }
    q->set_characters(chars);
  };
  if constexpr (std::is_same_v<T, Text>) strings(p->mutable_dense_array_text_value());
  if constexpr (std::is_same_v<T, Bytes>) strings(p->mutable_dense_array_bytes_value());
}

TypedValue PutAny(Src& s, Writer& w, int depth) {
  std::optional<TypedValue> res;
  if (depth < 2 && s.chance(1, 3)) {
    std::vector<TypedValue> f;
    std::vector<uint64_t> at;
    for (int i = s.draw(3); i > 0; --i) {
      f.push_back(PutAny(s, w, depth + 1));
      at.push_back(w.Last());
    }
    auto* v = w.Value(kTupleCodec);
    v->MutableExtension(TupleV1Proto::extension)->set_tuple_value(true);
    for (auto x : at) v->add_input_value_indices(x);
    return MakeTuple(f);
  }
  int type = s.draw(8), i = 0;
  int kind = s.draw(2);
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (i++ != type) return;
    if (kind == 0) {
      T x = GenScalar<T>(s);
      PutScalar<T>(w, x);
      res = TypedValue::FromValue(x);
    } else if (kind == 1) {
      OptionalValue<T> x;
      if (s.boolean()) x = GenScalar<T>(s);
      PutOptional<T>(w, x);
      res = TypedValue::FromValue(x);
    } else {
      std::vector<OptionalValue<T>> a(s.chance(1, 4) ? s.range(28, 100) : s.draw(6));
      bool all = s.chance(1, 3);
      for (auto& x : a) {
        if (all || s.chance(2, 3)) x = GenScalar<T>(s);
      }
      PutDense<T>(s, w, a);
      res = TypedValue::FromValue(CreateDenseArray<T>(a));
    }
  });
  return *res;
}

PBT_TEST(E04_format, 6000, 120000, "six or more steps") {
  Init();
  Writer w;
  Input in;
  for (int k = s.range(1, 3); k > 0; --k) {
    in.values.push_back(PutAny(s, w, 0));
    uint64_t at = w.Last();
    if (s.chance(1, 3)) {
      w.c.add_decoding_steps()->mutable_literal_node()->set_literal_value_index(at);
      uint64_t lit = w.Last();
      w.c.add_decoding_steps()->mutable_leaf_node()->set_leaf_key("a");
      w.c.add_decoding_steps()->mutable_placeholder_node()->set_placeholder_key("a");
      uint64_t ph = w.Last();
      w.Value("arolla.serialization_codecs.OperatorV1Proto.extension")
          ->MutableExtension(serialization_codecs::OperatorV1Proto::extension)
          ->set_registered_operator_name("core.make_tuple");
      auto* op = w.c.add_decoding_steps()->mutable_operator_node();
      uint64_t node = w.Last();
      op->set_operator_value_index(node - 1);
      op->add_input_expr_indices(ph);
      op->add_input_expr_indices(lit);
      op->add_input_expr_indices(ph - 1);
      op->add_input_expr_indices(lit);
      w.c.add_decoding_steps()->set_output_expr_index(node);
      auto l = Literal(in.values.back());
      in.exprs.push_back(*MakeOpNode(Reg("core.make_tuple"), {Placeholder("a"), l, Leaf("a"), l}));
    }
    w.c.add_decoding_steps()->set_output_value_index(at);
  }
  s.note("container", w.c.ShortDebugString().substr(0, 600));
  SameResult(in, serialization::Decode(w.c), "by hand");
  if (w.c.decoding_steps_size() >= 6) s.nontrivial();
}

// ---------------------------------------------------------------- corruption

PBT_TEST(E04_corrupt, 16000, 500000, "the corrupted container was rejected by a decoder, or decoded") {
  Input in = GenInput(s, false);
  auto c = serialization::Encode(in.values, in.exprs);
  PBT_ASSERT(c.ok(), "encoding failed: ", c.status().ToString());
  ContainerProto x = *c;
  for (int k = s.draw(2); k >= 0; --k) {
    int n = x.decoding_steps_size();
    if (n == 0) break;
    int i = s.draw(n - 1), j = s.draw(n - 1);
    switch (s.draw(7)) {
      case 0: x.mutable_decoding_steps()->DeleteSubrange(i, 1); break;
      case 1: x.mutable_decoding_steps()->SwapElements(i, j); break;
      case 2: {
        int which = s.draw(6);
        uint64_t to = s.chance(1, 10) ? uint64_t(s.draw(~uint64_t{0} - 1)) : s.draw(n);
        ForIndices(*x.mutable_decoding_steps(i), [&](uint64_t& v, char) {
          if (which-- == 0) v = to;
        });
        break;
      }
      case 3: {
        auto* st = x.mutable_decoding_steps(i);
        if (st->has_value()) {
          auto* v = st->mutable_value();
          switch (s.draw(3)) {
            case 0: v->add_input_value_indices(j); break;
            case 1: if (v->input_value_indices_size()) v->mutable_input_value_indices()->RemoveLast(); break;
            case 2: v->add_input_expr_indices(j); break;
            default: if (v->input_expr_indices_size()) v->mutable_input_expr_indices()->RemoveLast();
          }
        } else if (st->has_operator_node()) {
          if (s.boolean()) {
            st->mutable_operator_node()->add_input_expr_indices(j);
          } else if (st->operator_node().input_expr_indices_size()) {
            st->mutable_operator_node()->mutable_input_expr_indices()->RemoveLast();
          }
        }
        break;
      }
      case 4: {
        // Another value of the same kind, in its place.
        auto *a = x.mutable_decoding_steps(i), *b = x.mutable_decoding_steps(j);
        if (a->has_value() && b->has_value()) {
          ValueProto v = b->value();
          if (s.boolean()) *v.mutable_input_value_indices() = a->value().input_value_indices();
          if (s.boolean()) *v.mutable_input_expr_indices() = a->value().input_expr_indices();
          *a->mutable_value() = v;
        }
        break;
      }
      default: {
        // Bytes of a step.
        std::string b = x.decoding_steps(i).SerializeAsString();
        for (int m = s.draw(2); m >= 0 && !b.empty(); --m) {
          size_t at = s.draw(b.size() - 1);
          switch (s.draw(4)) {
            case 0: b[at] = char(s.draw(255)); break;
            case 1: b[at] ^= char(1 << s.draw(7)); break;
            case 2: b.erase(at, 1); break;
            case 3: b.insert(at, 1, char(s.draw(3))); break;
            default: b.resize(at);
          }
        }
        DecodingStepProto st;
        if (st.ParseFromString(b)) *x.mutable_decoding_steps(i) = st;
      }
    }
  }
  s.note("container", x.ShortDebugString().substr(0, 1500));
  auto d = serialization::Decode(x);
  if (!d.ok()) {
    s.label("rejected");
    std::string m(d.status().message().substr(0, 60));
    s.nontrivial();
    return;
  }
  s.label("accepted");
  // What was accepted is sound: it can be shown and encoded again.
  Input in2{d->values, d->exprs};
  for (auto& v : in2.values) (void)v.Repr();
  auto c2 = serialization::Encode(in2.values, in2.exprs);
  PBT_ASSERT(c2.ok(), "encoding of the decoded: ", c2.status().ToString());
  SameResult(in2, serialization::Decode(*c2), "second round");
  s.nontrivial();
}

}  // namespace
