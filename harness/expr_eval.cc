// E03: evaluation of expressions.
#include "expr.h"

#include "arolla/expr/visitors/substitution.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/qexpr/evaluation_engine.h"
#include "arolla/qtype/typed_slot.h"

namespace {
using namespace xp;  // NOLINT

// The optimizer may change the order of additions, which is not exact unless
// the numbers are.
bool Extreme(const TypedValue& v) {
  std::string r = Show(v);
  for (size_t i = 0; i + 1 < r.size(); ++i) {
    if (r[i] == 'e' && (r[i + 1] == '+' || r[i + 1] == '-' || isdigit(r[i + 1]))) return true;
    if (r.compare(i, 3, "inf") == 0) return true;
  }
  return false;
}

bool Reassociated(const ExprNodePtr& e, const Gen& g) {
  int adds = 0;
  bool inexact = false;
  for (const auto& [key, value] : g.leaves) inexact |= Extreme(value);
  auto post = PostOrder(e);
  for (const auto& n : post.nodes()) {
    if (n->qvalue().has_value()) inexact |= Extreme(*n->qvalue());
    if (!n->is_op()) continue;
    std::string name(n->op()->display_name());
    adds += (name == "math.add" || name == "math.sum" || name == "math._add4" || name == "lam") +
            (name == "math._add4") * 2;
    for (const char* p : {"math.exp", "math.log", "math.pow", "math.div", "math.mean", "math.sig", "math.logit",
                          "math.softmax", "math.sqrt", "random", "math.std", "math.var", "math.trig", "math.symlog",
                          "math.floordiv", "math.mod", "math.cdf", "math.inverse", "math.median", "math.correlation",
                          "math.covariance", "math.atan", "math.fmod", "math.sin", "math.cos"}) {
      inexact |= name.rfind(p, 0) == 0;
    }
    inexact |= n->qtype() != nullptr && std::string(n->qtype()->name()).find("UINT64") != std::string::npos;
  }
  return inexact && adds >= 3;
}

PBT_TEST(E03_optimized, 24000, 480000, "four or more operators applied and the naive evaluation succeeded") {
  Init();
  Gen g;
  GenOptions o;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  bool empty = false;
  auto want = Naive(e, g.leaves, 0, &empty);
  static const Optimizer opt = *DefaultOptimizer();
  static const Optimizer cg_opt = *CodegenOptimizer();
  DynamicEvaluationEngineOptions eo;
  if (s.chance(3, 4)) eo.optimizer = s.chance(1, 3) ? cg_opt : opt;
  absl::flat_hash_map<std::string, TypedValue> m(g.leaves.begin(), g.leaves.end());
  auto got = Invoke(e, m, eo);
  for (auto& n : g.op_names) s.label(n.substr(0, n.find('.')));
  if (!want.ok()) {
    s.label("naive failed");
    return;
  }
  s.note("want", Show(want));
  s.note("got", Show(got));
  if (!got.ok() && eo.optimizer.has_value() && empty && Invoke(e, m).ok() &&
      (got.status().message().find("division by zero") != std::string::npos ||
       got.status().message().find("cannot cast") != std::string::npos)) {
    s.label("known: error of an operation on constants with an empty shape");
    return;
  }
  PBT_ASSERT(got.ok(), "evaluation failed: ", Show(got), " expected ", Show(want));
  if (got.ok() && !Same(want->AsRef(), got->AsRef()) && Reassociated(e, g)) {
    s.label("sums of inexact numbers may be reassociated");
    return;
  }
  PBT_ASSERT(Same(want->AsRef(), got->AsRef()), "got ", Show(got), " expected ", Show(want));
  if (g.ops >= 4) s.nontrivial();
}

// Replacing leaves with literals of the same values.
PBT_TEST(E03_literals, 20000, 400000, "four or more operators and a leaf replaced, the evaluation succeeded") {
  Init();
  Gen g;
  GenOptions o;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  absl::flat_hash_map<Fingerprint, ExprNodePtr> subs;
  absl::flat_hash_map<std::string, TypedValue> m(g.leaves.begin(), g.leaves.end());
  for (const auto& [key, value] : g.leaves) {
    if (s.chance(2, 3)) subs.emplace(g.Typed(key, value.GetType())->fingerprint(), Literal(value));
  }
  auto e2 = SubstituteByFingerprint(e, subs);
  if (!e2.ok()) {
    // Attribute inference of a node might have evaluated it, with an error.
    PBT_ASSERT(!Naive(e, g.leaves).ok(), "substitution failed: ", e2.status().ToString());
    s.label("error in substitution");
    return;
  }
  if ((*e2)->qtype() != nullptr) {
    PBT_ASSERT((*e2)->qtype() == e->qtype(), "types differ: ", (*e2)->qtype()->name(), " ", e->qtype()->name());
  }
  static const Optimizer opt = *DefaultOptimizer();
  DynamicEvaluationEngineOptions eo;
  if (s.boolean()) eo.optimizer = opt;
  auto want = Naive(e, g.leaves);
  auto got = Invoke(*e2, m, eo);
  s.note("want", Show(want));
  s.note("got", Show(got));
  if (!want.ok()) {
    s.label("error");
    return;
  }
  if (got.ok() && !Same(want->AsRef(), got->AsRef()) && eo.optimizer.has_value() && Reassociated(e, g)) {
    s.label("sums of inexact numbers may be reassociated");
    return;
  }
  if (!got.ok() && eo.optimizer.has_value() &&
      (got.status().message().find("division by zero") != std::string::npos ||
       got.status().message().find("cannot cast") != std::string::npos)) {
    s.label("known: error of an operation on constants with an empty shape");
    return;
  }
  PBT_ASSERT(got.ok() && Same(want->AsRef(), got->AsRef()), "with ", subs.size(), " literals ", Show(got),
             " instead of ", Show(want));
  if (g.ops >= 4 && !subs.empty()) s.nontrivial();
}

// Operators which are expressed through others.
PBT_TEST(E03_lowered, 12000, 240000, "three or more operators, the evaluation succeeded") {
  Init();
  Gen g;
  GenOptions o;
  o.max_ops = 6;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  auto got = Invoke(e, {g.leaves.begin(), g.leaves.end()});
  auto want = Naive(e, g.leaves, s.range(1, 12));
  s.note("want", Show(want));
  s.note("got", Show(got));
  if (!want.ok()) {
    // Unused arguments of lambdas are not evaluated.
    s.label("error");
    return;
  }
  PBT_ASSERT(got.ok() && Same(want->AsRef(), got->AsRef()), "got ", Show(got), " expected ", Show(want));
  if (g.ops >= 3) s.nontrivial();
}

// Binding to slots: own and given output slots, input slots in any order, a
// compiled expression bound several times, dirty frames.
PBT_TEST(E03_slots, 12000, 240000, "three or more operators, the evaluation succeeded twice") {
  Init();
  Gen g;
  GenOptions o;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  static const Optimizer opt = *DefaultOptimizer();
  DynamicEvaluationEngineOptions eo;
  if (s.boolean()) eo.optimizer = opt;
  eo.allow_overriding_input_slots = s.boolean();
  eo.enable_expr_stack_trace = s.boolean();
  auto want = Invoke(e, {g.leaves.begin(), g.leaves.end()}, eo);
  absl::flat_hash_map<std::string, QTypePtr> types;
  for (const auto& [key, value] : g.leaves) types.emplace(key, value.GetType());
  absl::flat_hash_map<std::string, ExprNodePtr> named;
  if (s.chance(2, 3)) {
    int n = s.range(1, 3);
    auto post = PostOrder(e);
    for (int i = 0; i < n; ++i) {
      auto node = post.node(s.draw(post.nodes_size() - 1));
      if (node->qtype() != nullptr) named.emplace(absl::StrCat("side", i), node);
    }
  }
  if (!want.ok()) {
    s.label("error");
    return;
  }
  for (const auto& [_, node] : named) {
    if (!Naive(node, g.leaves).ok()) {
      s.label("error of a named output");
      return;
    }
  }
  auto compiled = CompileForDynamicEvaluation(eo, e, types, named);
  if (!compiled.ok()) {
    PBT_ASSERT(!want.ok(), "does not compile: ", compiled.status().ToString());
    s.label("error");
    return;
  }
  PBT_ASSERT((*compiled)->output_type() == e->qtype(), "output type ", (*compiled)->output_type()->name());
  PBT_ASSERT((*compiled)->named_output_types().size() == named.size(), "named outputs");
  int frames = s.range(1, 2);
  for (int f = 0; f < frames; ++f) {
    FrameLayout::Builder b;
    std::vector<std::string> keys;
    for (const auto& [key, _] : (*compiled)->input_types()) keys.push_back(key);
    for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[s.draw(i - 1)]);
    absl::flat_hash_map<std::string, TypedSlot> in;
    std::optional<TypedSlot> out;
    if (s.chance(1, 4)) out = AddSlot((*compiled)->output_type(), &b);
    for (const auto& key : keys) in.emplace(key, AddSlot((*compiled)->input_types().at(key), &b));
    if (!out && s.boolean()) out = AddSlot((*compiled)->output_type(), &b);
    auto bound = (*compiled)->Bind(&b, in, out);
    PBT_ASSERT(bound.ok(), "Bind: ", bound.status().ToString());
    if (out) PBT_ASSERT((*bound)->output_slot() == *out, "another output slot");
    auto layout = std::move(b).Build();
    MemoryAllocation alloc(&layout);
    EvaluationContext ctx;
    (*bound)->InitializeLiterals(&ctx, alloc.frame());
    PBT_ASSERT(ctx.status().ok(), "literals: ", ctx.status().ToString());
    int times = s.range(1, 3);
    for (int t = 0; t < times; ++t) {
      for (const auto& [key, slot] : in) {
        PBT_ASSERT(g.leaves.at(key).CopyToSlot(slot, alloc.frame()).ok(), "input");
      }
      EvaluationContext ctx2;
      (*bound)->Execute(&ctx2, alloc.frame());
      PBT_ASSERT(ctx2.status().ok(), "evaluation failed: ", ctx2.status().ToString());
      auto got = TypedValue::FromSlot((*bound)->output_slot(), alloc.frame());
      PBT_ASSERT(want.ok() && Same(want->AsRef(), got.AsRef()), "got ", Show(got), " expected ", Show(want));
      for (const auto& [name, slot] : (*bound)->named_output_slots()) {
        auto w = Invoke(named.at(name), {g.leaves.begin(), g.leaves.end()});
        auto side = TypedValue::FromSlot(slot, alloc.frame());
        s.note("named", ToDebugString(named.at(name)));
        if (w.ok() && eo.optimizer.has_value() && !Same(w->AsRef(), side.AsRef()) &&
            Reassociated(named.at(name), g)) {
          continue;
        }
        PBT_ASSERT(w.ok() && Same(w->AsRef(), side.AsRef()), "named output ", Show(side), " expected ", Show(w));
      }
      if (!eo.allow_overriding_input_slots) {
        for (const auto& [key, slot] : in) {
          PBT_ASSERT(Same(g.leaves.at(key).AsRef(), TypedRef::FromSlot(slot, alloc.frame())), "input ", key,
                     " was overwritten");
        }
      }
      if (g.ops >= 3 && t > 0) s.nontrivial();
    }
  }
}

// A fallible operation on constants expanded to an empty shape: the optimizer
// applies it to the constants, so it fails, though the result has no elements.
PBT_TEST(E03_known_lifted_error, 20, 200, "the operation fails on the constants and the shape is empty") {
  Init();
  static const Optimizer opt = *DefaultOptimizer();
  static const char* ops[] = {"math.mod", "math.floordiv"};
  const char* op = ops[s.draw(1)];
  int64_t n = s.draw(2);
  auto x = TypedValue::FromValue(CreateEmptyDenseArray<int64_t>(n));
  auto leaf = *CallOp("annotation.qtype", {Leaf("x"), Literal(x.GetType())});
  auto e = *CallOp(op, {CallOp("core.const_like", {leaf, Literal(int64_t{1})}), Literal(int64_t{0})});
  s.note("expr", ToDebugString(e));
  absl::flat_hash_map<std::string, TypedValue> m = {{"x", x}};
  DynamicEvaluationEngineOptions eo;
  auto want = Invoke(e, m, eo);
  eo.optimizer = opt;
  auto got = Invoke(e, m, eo);
  PBT_ASSERT(want.ok() == (n == 0), "not optimized: ", Show(want));
  if (n == 0) s.nontrivial();
  PBT_ASSERT(want.ok() == got.ok(), "an operation on constants with an empty shape: ", Show(got));
}

}  // namespace
