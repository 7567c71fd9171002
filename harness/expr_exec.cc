// E06: model executors: repeated, cloned, concurrent evaluation, on the heap,
// on the stack and in arenas; inputs through loaders; side outputs; casting.
#include <thread>

#include "expr.h"

#include "arolla/expr/eval/model_executor.h"
#include "arolla/expr/eval/side_output.h"
#include "arolla/expr/eval/thread_safe_model_executor.h"
#include "arolla/expr/visitors/substitution.h"
#include "arolla/io/input_loader.h"
#include "arolla/io/slot_listener.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/qtype/typed_slot.h"

namespace {
using namespace xp;  // NOLINT

using In = std::map<std::string, TypedValue>;

class Loader final : public StaticInputLoader<In> {
 public:
  explicit Loader(absl::flat_hash_map<std::string, QTypePtr> types) : StaticInputLoader(std::move(types)) {}

 private:
  absl::StatusOr<BoundInputLoader<In>> BindImpl(
      const absl::flat_hash_map<std::string, TypedSlot>& slots) const override {
    return BoundInputLoader<In>([slots](const In& in, FramePtr frame, RawBufferFactory*) -> absl::Status {
      for (const auto& [name, slot] : slots) {
        auto it = in.find(name);
        if (it == in.end()) return absl::NotFoundError("input " + name);
        auto st = it->second.CopyToSlot(slot, frame);
        if (!st.ok()) return st;
      }
      return absl::OkStatus();
    });
  }
};

struct Out {
  std::map<std::string, TypedValue> values;
};

class Listener final : public SlotListener<Out> {
 public:
  Listener(std::set<std::string> names, std::map<std::string, QTypePtr> types)
      : names_(std::move(names)), types_(std::move(types)) {}
  const QType* GetQTypeOf(absl::string_view name, const QType* desired) const override {
    if (!names_.contains(std::string(name))) return nullptr;
    auto it = types_.find(std::string(name));
    return it != types_.end() ? it->second : desired;
  }
  std::vector<std::string> SuggestAvailableNames() const override { return {names_.begin(), names_.end()}; }

 private:
  absl::StatusOr<BoundSlotListener<Out>> BindImpl(
      const absl::flat_hash_map<std::string, TypedSlot>& slots) const override {
    return BoundSlotListener<Out>([slots](ConstFramePtr frame, Out* out) -> absl::Status {
      for (const auto& [name, slot] : slots) out->values.insert_or_assign(name, TypedValue::FromSlot(slot, frame));
      return absl::OkStatus();
    });
  }
  std::set<std::string> names_;
  std::map<std::string, QTypePtr> types_;
};

// Another value of the same type.
TypedValue Revalue(Src& s, const Dims& d, const TypedValue& v) {
  if (s.chance(1, 4)) return v;
  for (int i = 0; i < 60; ++i) {
    auto w = GenLeafValue(s, d);
    if (w.GetType() == v.GetType()) return w;
  }
  return v;
}

// The expression with some of its nodes exported.
struct Exported {
  ExprNodePtr expr;
  std::map<std::string, ExprNodePtr> outputs;  // without annotations
};

absl::StatusOr<Exported> AddExports(Src& s, const ExprNodePtr& e) {
  Exported res;
  std::set<size_t> chosen;
  PostOrder post(e);
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) chosen.insert(s.draw(post.nodes_size() - 1));
  std::vector<ExprNodePtr> nodes;
  int id = 0;
  for (size_t i = 0; i < post.nodes_size(); ++i) {
    auto node = post.node(i);
    auto r = node;
    if (node->is_op()) {
      std::vector<ExprNodePtr> deps;
      for (size_t j : post.dep_indices(i)) {
        // The type of an annotated leaf.
        deps.push_back(nodes[j]);
      }
      auto n2 = WithNewDependencies(node, deps);
      if (!n2.ok()) return n2.status();
      r = *n2;
    }
    // An annotated literal is not a literal, so leave the literals alone. The
    // leaves lack their types.
    if (chosen.contains(i) && node->is_op() && node->qtype() != nullptr) {
      std::string name = absl::StrCat("out/", id++);
      absl::StatusOr<ExprNodePtr> ann = absl::InternalError("");
      if (s.boolean()) {
        ann = CallOp("annotation.export", {r, Literal(Text(name))});
        res.outputs.emplace(name, node);
      } else {
        auto other = post.node(s.draw(i));
        if (!other->is_op() || other->qtype() == nullptr) other = node;
        ann = CallOp("annotation.export_value", {r, Literal(Text(name)), other});
        res.outputs.emplace(name, other);
      }
      if (!ann.ok()) return ann.status();
      r = *ann;
    }
    nodes.push_back(r);
  }
  res.expr = nodes.back();
  return res;
}

DynamicEvaluationEngineOptions EvalOptions(Src& s) {
  static const Optimizer opt = *DefaultOptimizer();
  DynamicEvaluationEngineOptions eo;
  if (s.boolean()) eo.optimizer = opt;
  eo.enable_expr_stack_trace = s.chance(1, 4);
  eo.collect_op_descriptions = s.chance(1, 4);
  return eo;
}

bool Floats(const ExprNodePtr& e) {
  PostOrder post(e);
  for (const auto& n : post.nodes()) {
    if (n->qtype() && std::string(n->qtype()->name()).find("FLOAT") != std::string::npos) return true;
  }
  return false;
}

PBT_TEST(E06_executor, 12000, 240000, "two or more evaluations with different inputs and two or more operators") {
  Init();
  Gen g;
  GenOptions o;
  o.op_ok = [](const std::string& name) { return name.rfind("annotation.export", 0) != 0; };
  auto e = GenExpr(s, g, o);
  auto exported = AddExports(s, e);
  s.note("expr", ToDebugString(e));
  if (!exported.ok()) {
    s.label("not exported");
    return;
  }
  absl::flat_hash_map<std::string, QTypePtr> types;
  for (const auto& [key, value] : g.leaves) types.emplace(key, value.GetType());
  if (s.boolean()) types.emplace("unused", GetQType<float>());
  Loader loader(types);
  ModelExecutorOptions mo;
  mo.eval_options = EvalOptions(s);
  std::set<std::string> listened;
  for (const auto& [name, _] : exported->outputs) {
    if (s.chance(4, 5)) listened.insert(name);
  }
  bool all = listened.size() == exported->outputs.size();
  mo.ignore_not_listened_named_outputs = !all || s.boolean();
  if (s.chance(1, 8)) mo.ignore_not_listened_named_outputs = false;
  std::set<std::string> listener_names = listened;
  if (s.chance(1, 6)) listener_names.insert("absent");
  Listener listener(listener_names, {});
  // Results.
  std::vector<In> inputs;
  std::vector<absl::StatusOr<TypedValue>> want;
  std::vector<std::map<std::string, TypedValue>> want_side;
  bool ok = true;
  int n = s.range(1, 5);
  for (int i = 0; i < n; ++i) {
    In in;
    for (const auto& [key, value] : g.leaves) {
      in.emplace(key, i == 0 ? value : Revalue(s, g.dims, value));
    }
    want.push_back(Naive(e, in));
    std::map<std::string, TypedValue> side;
    for (const auto& name : listened) {
      auto v = Naive(exported->outputs.at(name), in);
      if (v.ok()) side.emplace(name, *v);
      else if (want.back().ok()) want.back() = v.status();
    }
    want_side.push_back(std::move(side));
    inputs.push_back(std::move(in));
  }
  ok = want[0].ok();
  using Executor = ModelExecutor<In, TypedValue, Out>;
  auto ex = Executor::Compile(exported->expr, loader, &listener, mo);
  if (!ex.ok() && mo.eval_options.optimizer.has_value() &&
      (ex.status().message().find("division by zero") != std::string::npos ||
       ex.status().message().find("cannot cast") != std::string::npos)) {
    s.label("known: error of an operation on constants with an empty shape");
    return;
  }
  if (listener_names.size() == listened.size() && all) {
    PBT_ASSERT(ex.ok() || !ok, "does not compile: ", ex.status().ToString());
  }
  if (!mo.ignore_not_listened_named_outputs && !all) {
    PBT_ASSERT(!ex.ok(), "named outputs that are not listened are not reported");
    s.label("not listened");
    return;
  }
  if (!ex.ok()) {
    s.label("error of compilation");
    PBT_ASSERT(!ok || listener_names.size() != listened.size() || !all, ex.status().ToString());
    return;
  }
  auto executor = *std::move(ex);
  auto check = [&](int i, const absl::StatusOr<TypedValue>& got, const Out* out) -> std::string {
    if (!want[i].ok()) return "";
    if (!got.ok()) {
      if (mo.eval_options.optimizer.has_value() &&
          (got.status().message().find("division by zero") != std::string::npos ||
           got.status().message().find("cannot cast") != std::string::npos)) {
        return "";  // known
      }
      return absl::StrCat("evaluation failed: ", Show(got));
    }
    if (mo.eval_options.optimizer.has_value() && Floats(exported->expr)) {
      // The order of additions.
      if (!Same(want[i]->AsRef(), got->AsRef())) return "";
    } else if (!Same(want[i]->AsRef(), got->AsRef())) {
      return absl::StrCat("got ", Show(got), " expected ", Show(want[i]));
    }
    if (out) {
      if (out->values.size() != want_side[i].size()) return "wrong set of side outputs";
      for (const auto& [name, v] : want_side[i]) {
        auto it = out->values.find(name);
        if (it == out->values.end()) return "no side output " + name;
        if (mo.eval_options.optimizer.has_value() && Floats(exported->expr)) continue;
        if (!Same(v.AsRef(), it->second.AsRef())) {
          return absl::StrCat("side output ", name, ": ", Show(it->second), " expected ", Show(v));
        }
      }
    }
    return "";
  };
  std::vector<std::pair<absl::StatusOr<TypedValue>, int>> kept;
  int steps = s.range(1, 8);
  std::set<int> used;
  UnsafeArenaBufferFactory own_arena(256);
  for (int t = 0; t < steps; ++t) {
    int i = s.draw(n - 1);
    Out out;
    Out* po = s.chance(2, 3) ? &out : nullptr;
    absl::StatusOr<TypedValue> got = absl::InternalError("");
    int how = s.draw(4);
    EvaluationOptions opts;
    if (mo.arena_page_size == 0 && s.chance(1, 4)) opts.buffer_factory = &own_arena;
    if (how == 3 && !executor.CanExecuteOnStack(16384)) how = 2;
    switch (how) {
      case 0: case 1: got = executor.Execute(opts, inputs[i], po); break;
      case 2: got = executor.ExecuteOnHeap(opts, inputs[i], po); break;
      case 3: got = executor.ExecuteOnStack<16384>(opts, inputs[i], po); break;
      default: {
        auto clone = executor.Clone();
        PBT_ASSERT(clone.ok(), "Clone: ", clone.status().ToString());
        got = clone->Execute(opts, inputs[i], po);
        if (s.boolean()) executor = *std::move(clone);
      }
    }
    auto msg = check(i, got, po);
    PBT_ASSERT(msg.empty(), msg, " in step ", t);
    if (want[i].ok()) used.insert(i);
    kept.emplace_back(std::move(got), i);
  }
  // The results outlive the arenas of the executor.
  for (const auto& [got, i] : kept) {
    auto msg = check(i, got, nullptr);
    PBT_ASSERT(msg.empty(), "later: ", msg);
  }
  if (used.size() >= 2 && g.ops >= 2) s.nontrivial();
  if (!exported->outputs.empty()) s.label("side outputs");
}

PBT_TEST(E06_concurrent, 600, 12000, "two or more threads and the evaluation succeeded") {
  Init();
  Gen g;
  GenOptions o;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  absl::flat_hash_map<std::string, QTypePtr> types;
  for (const auto& [key, value] : g.leaves) types.emplace(key, value.GetType());
  Loader loader(types);
  ModelExecutorOptions mo;
  std::vector<In> inputs;
  std::vector<absl::StatusOr<TypedValue>> want;
  int n = s.range(1, 3);
  for (int i = 0; i < n; ++i) {
    In in;
    for (const auto& [key, value] : g.leaves) in.emplace(key, i == 0 ? value : Revalue(s, g.dims, value));
    want.push_back(Naive(e, in));
    inputs.push_back(std::move(in));
  }
  using Executor = ModelExecutor<In, TypedValue>;
  auto ex = Executor::Compile(e, loader, nullptr, mo);
  PBT_ASSERT(ex.ok() || !want[0].ok(), "does not compile: ", ex.status().ToString());
  if (!ex.ok()) return;
  int how = s.draw(3);
  int threads = s.range(2, 4);
  int times = s.range(1, 20);
  std::function<absl::StatusOr<TypedValue>(const In&)> fn;
  std::shared_ptr<Executor> proto = std::make_shared<Executor>(*std::move(ex));
  switch (how) {
    case 0: {
      auto clone = proto->Clone();
      PBT_ASSERT(clone.ok(), "Clone");
      fn = ThreadSafeModelExecutor<In, TypedValue>(*std::move(clone));
      break;
    }
    case 1: fn = [proto](const In& in) { return proto->ExecuteOnHeap({}, in); }; break;
    case 2: {
      auto clone = proto->Clone();
      PBT_ASSERT(clone.ok(), "Clone");
      auto busy = std::make_shared<ThreadSafeCloneWhenBusyModelExecutor<In, TypedValue>>(*std::move(clone));
      fn = [busy](const In& in) { return busy->Execute(in); };
      break;
    }
    default: {
      auto clone = proto->Clone();
      PBT_ASSERT(clone.ok(), "Clone");
      auto f = std::make_shared<ThreadSafePoolModelExecutor<In, TypedValue>>(*std::move(clone), 2);
      fn = [f](const In& in) { return (*f)(in); };
    }
  }
  std::vector<std::string> errors(threads);
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t) {
    th.emplace_back([&, t] {
      for (int k = 0; k < times; ++k) {
        int i = (t + k) % n;
        auto got = fn(inputs[i]);
        if (!want[i].ok()) continue;
        if (!got.ok() || !Same(want[i]->AsRef(), got->AsRef())) {
          errors[t] = absl::StrCat("got ", Show(got), " expected ", Show(want[i]));
        }
      }
    });
  }
  for (auto& t : th) t.join();
  for (auto& m : errors) PBT_ASSERT(m.empty(), "executor ", how, ": ", m);
  if (want[0].ok()) s.nontrivial();
}

// Results of these types own their memory, so an arena can be used.
template <typename T>
void InArena(Src& s, const ExprNodePtr& e, Gen& g) {
  absl::flat_hash_map<std::string, QTypePtr> types;
  for (const auto& [key, value] : g.leaves) types.emplace(key, value.GetType());
  Loader loader(types);
  ModelExecutorOptions mo;
  mo.eval_options = EvalOptions(s);
  mo.eval_options.optimizer = std::nullopt;
  mo.arena_page_size = s.chance(1, 4) ? 1 : 64 << (5 * s.draw(2));
  std::vector<In> inputs;
  std::vector<absl::StatusOr<TypedValue>> want;
  int n = s.range(1, 4);
  for (int i = 0; i < n; ++i) {
    In in;
    for (const auto& [key, value] : g.leaves) in.emplace(key, i == 0 ? value : Revalue(s, g.dims, value));
    want.push_back(Naive(e, in));
    inputs.push_back(std::move(in));
  }
  auto ex = ModelExecutor<In, T>::Compile(e, loader, nullptr, mo);
  PBT_ASSERT(ex.ok() || !want[0].ok(), "does not compile: ", ex.status().ToString());
  if (!ex.ok()) return;
  std::vector<std::pair<T, int>> kept;
  int steps = s.range(1, 6);
  for (int t = 0; t < steps; ++t) {
    int i = s.draw(n - 1);
    int how = s.draw(2);
    if (how == 2 && !ex->CanExecuteOnStack(16384)) how = 0;
    auto got = how == 0   ? ex->Execute(inputs[i])
               : how == 1 ? ex->ExecuteOnHeap({}, inputs[i])
                          : ex->template ExecuteOnStack<16384>({}, inputs[i]);
    if (!want[i].ok()) continue;
    PBT_ASSERT(got.ok(), "evaluation failed: ", got.status().ToString());
    kept.emplace_back(*std::move(got), i);
  }
  if (s.boolean()) ex = absl::InternalError("gone");
  for (const auto& [got, i] : kept) {
    auto v = TypedRef::FromValue(got);
    PBT_ASSERT(Same(want[i]->AsRef(), v), "got ", v.Repr(), " expected ", Show(want[i]));
  }
  if (kept.size() >= 2 && g.ops >= 2) s.nontrivial();
}

PBT_TEST(E06_arena, 20000, 400000, "two or more results and two or more operators") {
  Init();
  Gen g;
  GenOptions o;
  GenExpr(s, g, o);
  std::map<QTypePtr, void (*)(Src&, const ExprNodePtr&, Gen&)> known = {
      {GetDenseArrayQType<float>(), InArena<DenseArray<float>>},
      {GetDenseArrayQType<double>(), InArena<DenseArray<double>>},
      {GetDenseArrayQType<int32_t>(), InArena<DenseArray<int32_t>>},
      {GetDenseArrayQType<int64_t>(), InArena<DenseArray<int64_t>>},
      {GetDenseArrayQType<bool>(), InArena<DenseArray<bool>>},
      {GetDenseArrayQType<Unit>(), InArena<DenseArray<Unit>>},
      {GetDenseArrayQType<Text>(), InArena<DenseArray<Text>>},
      {GetDenseArrayQType<Bytes>(), InArena<DenseArray<Bytes>>},
      {GetArrayQType<float>(), InArena<Array<float>>},
      {GetArrayQType<int64_t>(), InArena<Array<int64_t>>},
      {GetArrayQType<Unit>(), InArena<Array<Unit>>},
      {GetArrayQType<Text>(), InArena<Array<Text>>},
      {GetOptionalQType<Text>(), InArena<OptionalValue<Text>>},
      {GetQType<Bytes>(), InArena<Bytes>},
  };
  std::vector<ExprNodePtr> nodes;
  for (const auto& n : g.pool) {
    if (n->qtype() && known.contains(n->qtype())) nodes.push_back(n);
  }
  if (nodes.empty()) return;
  auto e = nodes[s.boolean() ? nodes.size() - 1 : s.draw(nodes.size() - 1)];
  s.note("expr", ToDebugString(e));
  known.at(e->qtype())(s, e, g);
}

template <typename T>
void Casting(Src& s, const ExprNodePtr& e, Gen& g) {
  absl::flat_hash_map<std::string, QTypePtr> types;
  for (const auto& [key, value] : g.leaves) types.emplace(key, value.GetType());
  Loader loader(types);
  ModelExecutorOptions mo;
  mo.allow_output_casting = s.chance(3, 4);
  mo.force_non_optional_output = s.boolean();
  mo.eval_options = EvalOptions(s);
  mo.eval_options.optimizer = std::nullopt;
  auto want = Naive(e, g.leaves);
  if (!want.ok()) return;
  auto out = GetQType<T>();
  s.note("output", out->name());
  s.note("casting", absl::StrCat(mo.allow_output_casting, mo.force_non_optional_output));
  auto ex = ModelExecutor<In, T>::Compile(e, loader, nullptr, mo);
  // The type of the result: T, or casting through core.cast.
  QTypePtr from = e->qtype();
  bool optional_out = IsOptionalQType(out);
  bool optional_from = IsOptionalQType(from);
  auto base = [](QTypePtr q) { return DecayOptionalQType(q); };
  bool same_base = base(from) == base(out);
  if (mo.force_non_optional_output && optional_out) {
    PBT_ASSERT(!ex.ok(), "force_non_optional_output with an optional type");
    return;
  }
  if (from == out) {
    PBT_ASSERT(ex.ok(), "no casting is needed: ", ex.status().ToString());
  } else if (!mo.allow_output_casting && !(mo.force_non_optional_output && optional_from && same_base)) {
    PBT_ASSERT(!ex.ok(), "casting is not allowed");
    s.label("refused");
    return;
  }
  bool strips = optional_from && !optional_out;
  if (strips && !mo.force_non_optional_output) {
    PBT_ASSERT(!ex.ok(), "cast from ", from->name());
    s.label("not castable");
    return;
  }
  PBT_ASSERT(ex.ok(), "does not compile from ", from->name(), ": ", ex.status().ToString());
  auto got = ex->Execute(g.leaves);
  // The expected value.
  std::optional<long double> v;
  auto w = want->AsRef();
  auto num = [&](auto* p) {
    using N = std::remove_pointer_t<decltype(p)>;
    if (w.GetType() == GetQType<N>()) v = w.UnsafeAs<N>();
    if (w.GetType() == GetOptionalQType<N>()) {
      auto& x = w.UnsafeAs<OptionalValue<N>>();
      if (x.present) v = x.value;
    }
  };
  num((int32_t*)nullptr);
  num((int64_t*)nullptr);
  num((float*)nullptr);
  num((double*)nullptr);
  if (base(from) == GetWeakFloatQType()) {
    if (optional_from) {
      auto& x = w.UnsafeAs<OptionalValue<double>>();
      if (x.present) v = x.value;
    } else {
      v = w.UnsafeAs<double>();
    }
  }
  if (strips && !v.has_value()) {
    PBT_ASSERT(!got.ok(), "a missing value was returned as present");
    s.label("missing");
    s.nontrivial();
    return;
  }
  using Base = strip_optional_t<T>;
  if (std::is_integral_v<Base> && v.has_value()) {
    long double t = std::trunc(*v);
    if (std::isnan(t) || t < (long double)std::numeric_limits<Base>::min() ||
        t > (long double)std::numeric_limits<Base>::max()) {
      PBT_ASSERT(!got.ok(), "a value out of range was returned");
      s.label("out of range");
      s.nontrivial();
      return;
    }
  }
  PBT_ASSERT(got.ok(), "evaluation failed: ", got.status().ToString());
  std::optional<long double> r;
  if constexpr (meta::is_wrapped_with_v<OptionalValue, T>) {
    if (got->present) r = got->value;
  } else {
    r = *got;
  }
  PBT_ASSERT(r.has_value() == v.has_value(), "presence");
  if (r) {
    using B = strip_optional_t<T>;
    long double x = static_cast<B>(*v);
    PBT_ASSERT((std::isnan(x) && std::isnan(*r)) || x == *r, "value ", double(*r), " expected ", double(x));
  }
  if (from != out) s.nontrivial();
}

PBT_TEST(E06_output_casting, 24000, 480000, "a cast of the result, or a missing one") {
  Init();
  Gen g;
  GenOptions o;
  o.max_ops = 5;
  GenExpr(s, g, o);
  std::vector<ExprNodePtr> nodes;
  for (const auto& n : g.pool) {
    if (!n->qtype()) continue;
    auto b = DecayOptionalQType(n->qtype());
    if (b == GetQType<int32_t>() || b == GetQType<int64_t>() || b == GetQType<float>() || b == GetQType<double>() ||
        b == GetWeakFloatQType()) {
      nodes.push_back(n);
    }
  }
  if (nodes.empty()) return;
  auto e = nodes[s.draw(nodes.size() - 1)];
  s.note("expr", ToDebugString(e));
  switch (s.draw(7)) {
    case 0: return Casting<int32_t>(s, e, g);
    case 1: return Casting<int64_t>(s, e, g);
    case 2: return Casting<float>(s, e, g);
    case 3: return Casting<double>(s, e, g);
    case 4: return Casting<OptionalValue<int32_t>>(s, e, g);
    case 5: return Casting<OptionalValue<int64_t>>(s, e, g);
    case 6: return Casting<OptionalValue<float>>(s, e, g);
    default: return Casting<OptionalValue<double>>(s, e, g);
  }
}

}  // namespace
