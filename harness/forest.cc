// D01-D03: decision forests.
#include "forest.h"

#include "absl/hash/hash.h"
#include "arolla/decision_forest/batched_evaluation/batched_forest_evaluator.h"
#include "arolla/decision_forest/pointwise_evaluation/forest_evaluator.h"
#include "arolla/decision_forest/pointwise_evaluation/oblivious.h"
#include "arolla/array/qtype/types.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/util/fingerprint.h"

using namespace vf;

namespace {

void Describe(Src& s, const Forest& f) {
  for (auto& t : f.trees) s.note("tree w=", t.weight, " step=", t.step, " submodel=", t.submodel, ": ", t.Show());
}
bool HasSplits(const Forest& f) {
  for (auto& t : f.trees) if (t.nodes.size() > 1) return true;
  return false;
}

std::vector<ForestEvaluator::CompilationParams> AllParams() {
  std::vector<ForestEvaluator::CompilationParams> r;
  for (int m = 0; m < 8; ++m) r.push_back({.enable_regular_eval = !(m & 1), .enable_bitmask_eval = !(m & 2), .enable_single_input_eval = !(m & 4)});
  return r;
}

PBT_TEST(D01_pointwise, 12000, 200000, "a forest with at least one split, compiled with the bitmask or the single-input evaluator as well as the regular one") {
  Forest f = GenForest(s);
  Describe(s, f);
  if (HasSplits(f)) s.nontrivial();
  auto forest = f.Make();
  FrameLayout::Builder b;
  std::vector<TypedSlot> slots;
  for (auto k : f.kinds) {
    if (s.chance(1, 4)) b.AddSlot<bool>();
    slots.push_back(AddInput(b, k));
  }
  auto out = b.AddSlot<float>();
  auto layout = std::move(b).Build();
  MemoryAllocation alloc(&layout);
  auto frame = alloc.frame();
  TreeFilter filter = GenFilter(s);
  struct E { std::string name; SimpleForestEvaluator e; };
  std::vector<E> evals;
  for (auto p : AllParams()) {
    auto e = SimpleForestEvaluator::Compile(*forest, slots, p);
    if (!e.ok()) {
      PBT_ASSERT(!p.enable_regular_eval, "regular evaluation refused: ", e.status().ToString());
      continue;
    }
    evals.push_back({pbt::cat(p.enable_regular_eval, p.enable_bitmask_eval, p.enable_single_input_eval), *std::move(e)});
  }
  PBT_ASSERT(evals.size() >= 4);
  s.label(pbt::cat("evaluators_", evals.size()));
  auto filtered = ForestEvaluator::Compile(*forest, slots, {{filter, out}});
  PBT_ASSERT(filtered.ok());
  size_t rows = s.range(1, 12);
  for (size_t r = 0; r < rows; ++r) {
    auto row = GenRow(s, f);
    std::string shown;
    for (size_t i = 0; i < row.size(); ++i) shown += ShowVal(row[i], f.kinds[i]) + " ";
    s.note("row ", shown);
    SetRow(frame, slots, f, row);
    double all = 0, some = 0;
    for (auto& t : f.trees) {
      all += t.Eval(row);
      if (Selected(filter, t)) some += t.Eval(row);
    }
    for (auto& e : evals) {
      float got = e.e.Eval(frame);
      PBT_ASSERT(got == float(all), "evaluator (regular/bitmask/single-input ", e.name, ") gives ", got, ", the trees sum to ", all, " on ", shown);
    }
    float n = DecisionForestNaiveEvaluation(*forest, frame, slots);
    PBT_ASSERT(n == float(all), "naive evaluation ", n, " vs ", all);
    n = DecisionForestNaiveEvaluation(*forest, frame, slots, filter);
    PBT_ASSERT(n == float(some), "naive evaluation with ", ShowFilter(filter), ": ", n, " vs ", some);
    frame.Set(out, float(s.range(-3, 3)));
    filtered->Eval(frame, frame);
    PBT_ASSERT(frame.Get(out) == float(some), "with ", ShowFilter(filter), ": ", frame.Get(out), " vs ", some, " on ", shown);
  }
}

// Returns whether some tree is in two groups.
bool Intersect(const Forest& f, const std::vector<TreeFilter>& g) {
  for (auto& t : f.trees) {
    int n = 0;
    for (auto& x : g) n += Selected(x, t);
    if (n > 1) return true;
  }
  return false;
}
double GroupSum(const Forest& f, const TreeFilter& g, const std::vector<Val>& row) {
  double r = 0;
  for (auto& t : f.trees) if (Selected(g, t)) r += t.Eval(row);
  return r;
}

PBT_TEST(D01_groups, 12000, 200000, "at least two groups of trees, none of them empty") {
  Forest f = GenForest(s);
  Describe(s, f);
  auto groups = GenGroups(s);
  size_t nonempty = 0;
  for (auto& g : groups) {
    s.note("group ", ShowFilter(g));
    for (auto& t : f.trees) if (Selected(g, t)) { ++nonempty; break; }
  }
  if (nonempty > 1) s.nontrivial();
  auto forest = f.Make();
  FrameLayout::Builder b;
  std::vector<TypedSlot> slots;
  for (auto k : f.kinds) slots.push_back(AddInput(b, k));
  std::vector<ForestEvaluator::Output> outs;
  for (auto& g : groups) outs.push_back({g, b.AddSlot<float>()});
  auto layout = std::move(b).Build();
  MemoryAllocation alloc(&layout);
  auto frame = alloc.frame();
  ForestEvaluator::CompilationParams p;
  if (s.boolean()) p = {.enable_regular_eval = true, .enable_bitmask_eval = s.boolean(), .enable_single_input_eval = s.boolean()};
  PBT_ASSERT(!ForestEvaluator::Compile(*forest, slots, {}, p).ok(), "no outputs are accepted");
  auto e = ForestEvaluator::Compile(*forest, slots, outs, p);
  if (Intersect(f, groups)) {
    s.label("intersecting");
    PBT_ASSERT(!e.ok(), "intersecting groups are accepted");
    return;
  }
  PBT_ASSERT(e.ok(), e.status().ToString());
  size_t rows = s.range(1, 8);
  for (size_t r = 0; r < rows; ++r) {
    auto row = GenRow(s, f);
    SetRow(frame, slots, f, row);
    for (auto& o : outs) frame.Set(o.slot, 1234.f);
    e->Eval(frame, frame);
    for (size_t i = 0; i < outs.size(); ++i) {
      double want = GroupSum(f, groups[i], row);
      PBT_ASSERT(frame.Get(outs[i].slot) == float(want), "group ", i, " ", ShowFilter(groups[i]), " gives ", frame.Get(outs[i].slot), ", its trees sum to ", want);
    }
  }
}

template <class T>
struct Col {
  static std::optional<own_t<T>> Get(const Val& v) {
    if (!v.present) return std::nullopt;
    if constexpr (std::is_same_v<T, float>) return v.f;
    else if constexpr (std::is_same_v<T, Bytes>) return v.b;
    else return T(v.i);
  }
};

template <class T>
void FillArray(Src& s, Keep& k, MemoryAllocation& alloc, TypedSlot slot, bool dense, const std::vector<std::vector<Val>>& rows, int col) {
  Model<T> m;
  for (auto& r : rows) m.push_back(Col<T>::Get(r[col]));
  if (dense) alloc.frame().Set(*slot.ToSlot<DenseArray<T>>(), MakeDense<T>(s, k, m));
  else alloc.frame().Set(*slot.ToSlot<Array<T>>(), MakeArray<T>(s, k, m));
}
template <class T>
TypedSlot AddArray(FrameLayout::Builder& b, bool dense) {
  return dense ? TypedSlot::FromSlot(b.AddSlot<DenseArray<T>>()) : TypedSlot::FromSlot(b.AddSlot<Array<T>>());
}

PBT_TEST(D02_batched, 8000, 200000, "more than one row, or several pointwise evaluators for parts of the forest") {
  Keep keep;
  Forest f = GenForest(s);
  Describe(s, f);
  auto groups = GenGroups(s);
  for (auto& g : groups) s.note("group ", ShowFilter(g));
  auto forest = f.Make();
  BatchedForestEvaluator::CompilationParams p;
  if (s.boolean()) p.optimal_splits_per_evaluator = s.range(1, 30);
  auto e = BatchedForestEvaluator::Compile(*forest, groups, p);
  if (Intersect(f, groups)) {
    // Trees of one pair may still be in different parts of the forest.
    s.label("intersecting");
    if (p.optimal_splits_per_evaluator > 1000) PBT_ASSERT(!e.ok(), "intersecting groups are accepted");
    return;
  }
  PBT_ASSERT(e.ok(), e.status().ToString());
  size_t n = s.chance(1, 3) ? s.draw(3) : s.draw(200);
  if (n > 1 || p.optimal_splits_per_evaluator < 1000) s.nontrivial();
  std::vector<std::vector<Val>> rows;
  for (size_t i = 0; i < n; ++i) rows.push_back(i && s.chance(1, 3) ? rows[s.draw(i - 1)] : GenRow(s, f));
  FrameLayout::Builder b;
  std::vector<TypedSlot> slots, outs;
  bool dense_in = s.boolean(), dense_out = s.boolean();
  for (auto k : f.kinds) {
    switch (k) {
      case kFloat: slots.push_back(AddArray<float>(b, dense_in)); break;
      case kInt64: slots.push_back(AddArray<int64_t>(b, dense_in)); break;
      case kInt32: slots.push_back(AddArray<int>(b, dense_in)); break;
      default: slots.push_back(AddArray<Bytes>(b, dense_in));
    }
  }
  for (size_t i = 0; i < groups.size(); ++i) outs.push_back(AddArray<float>(b, dense_out));
  auto layout = std::move(b).Build();
  MemoryAllocation alloc(&layout);
  for (size_t i = 0; i < slots.size(); ++i) {
    switch (f.kinds[i]) {
      case kFloat: FillArray<float>(s, keep, alloc, slots[i], dense_in, rows, i); break;
      case kInt64: FillArray<int64_t>(s, keep, alloc, slots[i], dense_in, rows, i); break;
      case kInt32: FillArray<int>(s, keep, alloc, slots[i], dense_in, rows, i); break;
      default: FillArray<Bytes>(s, keep, alloc, slots[i], dense_in, rows, i);
    }
  }
  s.label(pbt::cat(dense_in ? "dense" : "array", "_to_", dense_out ? "dense" : "array"));
  std::optional<int64_t> count;
  if (s.boolean()) count = n;
  UnsafeArenaBufferFactory arena(s.range(64, 4096));
  for (int rep = 0; rep < (s.chance(1, 4) ? 2 : 1); ++rep) {
    auto st = (*e)->EvalBatch(slots, outs, alloc.frame(), s.chance(1, 3) ? static_cast<RawBufferFactory*>(&arena) : GetHeapBufferFactory(), count);
    PBT_ASSERT(st.ok(), st.ToString());
    for (size_t g = 0; g < groups.size(); ++g) {
      Model<float> got = dense_out ? Read<float>(alloc.frame().Get(*outs[g].ToSlot<DenseArray<float>>()))
                                   : Read<float>(alloc.frame().Get(*outs[g].ToSlot<Array<float>>()));
      PBT_ASSERT(got.size() == n, "result has ", got.size(), " rows of ", n);
      for (size_t i = 0; i < n; ++i) {
        double want = GroupSum(f, groups[g], rows[i]);
        PBT_ASSERT(got[i] && *got[i] == float(want), "row ", i, " of group ", g, ": ", got[i] ? pbt::cat(*got[i]) : "missing", ", the trees sum to ", want);
      }
    }
  }
}

PBT_TEST(D02_threads_free_rows, 3000, 200000, "row_count differs from 0 with no usable inputs, or inputs are insufficient") {
  // Forests without splits need no inputs: row_count decides.
  Forest f = GenForest(s, 6);
  bool no_splits = s.boolean();
  if (no_splits) for (auto& t : f.trees) { t.nodes.resize(1); t.nodes[0].cond = -1; t.conds.clear(); t.leaf_id = {0}; t.split_id = {-1}; }
  auto forest = f.Make();
  auto e = BatchedForestEvaluator::Compile(*forest);
  PBT_ASSERT(e.ok());
  FrameLayout::Builder b;
  auto out = b.AddSlot<DenseArray<float>>();
  auto layout = std::move(b).Build();
  MemoryAllocation alloc(&layout);
  int64_t n = s.draw(150);
  auto st = (*e)->EvalBatch({}, {TypedSlot::FromSlot(out)}, alloc.frame(), GetHeapBufferFactory(), n);
  bool needs = !forest->GetRequiredQTypes().empty();
  if (n > 0 || needs) s.nontrivial();
  if (needs) {
    PBT_ASSERT(!st.ok(), "missing inputs are accepted");
    return;
  }
  PBT_ASSERT(st.ok(), st.ToString());
  auto& r = alloc.frame().Get(out);
  PBT_ASSERT(r.size() == n);
  double want = 0;
  for (auto& t : f.trees) want += double(t.nodes[0].leaf) * t.weight;
  for (int64_t i = 0; i < n; ++i) PBT_ASSERT(r.present(i) && r.values[i] == float(want));
}

Fingerprint CondFp(const SplitCondition& c) {
  FingerprintHasher h("salt");
  c.CombineToFingerprintHasher(&h);
  return std::move(h).Finish();
}

PBT_TEST(D03_conditions, 20000, 300000, "two conditions on the same kind of input") {
  Forest f = GenForest(s, 0);
  Cond a = GenCond(s, f, s.draw(f.kinds.size() - 1));
  Cond b = s.boolean() ? a : GenCond(s, f, s.draw(f.kinds.size() - 1));
  if (s.chance(1, 4)) b.if_missed = !b.if_missed;
  if (s.chance(1, 4)) b.input = s.draw(f.kinds.size() - 1), b.kind = f.kinds[b.input];
  if (b.kind != a.kind && b.input != a.input) {
  } else s.nontrivial();
  auto norm = [](Cond& c) {  // members that don't match the kind are not looked at
    if (c.kind != kFloat) { c.interval = false; c.fs.clear(); }
    if (c.kind != kBytes) c.bs.clear();
    if (c.kind == kFloat || c.kind == kBytes) c.is.clear();
    if (c.interval) c.if_missed = false;
  };
  norm(a);
  norm(b);
  s.note(a.Show(), " vs ", b.Show());
  auto ca = a.Make(), cb = b.Make();
  bool same = a.Same(b);
  PBT_ASSERT((*ca == *cb) == same, "equality of ", a.Show(), " and ", b.Show());
  PBT_ASSERT((*ca != *cb) == !same);
  if (same) {
    PBT_ASSERT(ca->StableHash() == cb->StableHash());
    PBT_ASSERT(absl::HashOf(*ca) == absl::HashOf(*cb));
    // 0.f and -0.f are equal, but are printed and fingerprinted apart.
    bool zeros = (a.interval && (a.l == 0 || a.r == 0)) || a.fs.count(0.f);
    if (!zeros) {
      PBT_ASSERT(CondFp(*ca) == CondFp(*cb));
      PBT_ASSERT(ca->ToString() == cb->ToString());
    }
  } else {
    PBT_ASSERT(CondFp(*ca) != CondFp(*cb), "one fingerprint for ", a.Show(), " and ", b.Show());
    PBT_ASSERT(ca->StableHash() != cb->StableHash(), "one stable hash for ", a.Show(), " and ", b.Show());
  }
  // Signature and remapping.
  auto sig = ca->GetInputSignatures();
  PBT_ASSERT(sig.size() == 1 && sig[0].id == a.input);
  QTypePtr t = a.kind == kFloat ? GetOptionalQType<float>() : a.kind == kInt64 ? GetOptionalQType<int64_t>() : a.kind == kInt32 ? GetOptionalQType<int>() : GetOptionalQType<Bytes>();
  PBT_ASSERT(sig[0].type == t);
  absl::flat_hash_map<int, int> remap;
  size_t n = s.draw(3);
  for (size_t i = 0; i < n; ++i) remap[int(s.draw(4))] = int(s.draw(9));
  auto rm = ca->RemapInputs(remap);
  Cond ra = a;
  if (remap.contains(a.input)) ra.input = remap[a.input];
  PBT_ASSERT(*rm == *ra.Make(), "remapped condition is ", rm->ToString());
  PBT_ASSERT(rm->GetInputSignatures()[0].id == ra.input);
  PBT_ASSERT(*ca == *a.Make(), "remapping changes its argument");
  // Evaluation.
  FrameLayout::Builder fb;
  std::vector<TypedSlot> slots;
  for (auto k : f.kinds) slots.push_back(AddInput(fb, k));
  auto layout = std::move(fb).Build();
  MemoryAllocation alloc(&layout);
  for (int i = 0; i < 4; ++i) {
    auto row = GenRow(s, f);
    SetRow(alloc.frame(), slots, f, row);
    PBT_ASSERT(ca->EvaluateCondition(alloc.frame(), slots) == a.Eval(row[a.input]), a.Show(), " on ", ShowVal(row[a.input], a.kind));
  }
}

PBT_TEST(D03_oblivious, 20000, 300000, "a tree with at least two layers") {
  Forest f = GenForest(s, 0);
  Tree t = GenTree(s, f);
  t.weight = s.pick({1.f, 0.5f, 2.f, -1.f});
  s.note(t.Show());
  // Reference: full, balanced, with one condition per layer.
  std::vector<int> layer = {0};
  std::vector<Cond> conds;
  bool ob = true;
  while (ob) {
    size_t leaves = 0;
    for (int n : layer) leaves += t.nodes[n].cond < 0;
    if (leaves == layer.size()) break;
    if (leaves) { ob = false; break; }
    Cond c = t.conds[t.nodes[layer[0]].cond];
    std::vector<int> next;
    for (int n : layer) {
      if (!c.Same(t.conds[t.nodes[n].cond])) ob = false;
      next.push_back(t.nodes[n].no);
      next.push_back(t.nodes[n].yes);
    }
    conds.push_back(c);
    layer = next;
  }
  if (t.nodes.size() >= 7) s.nontrivial();
  s.label(ob ? "oblivious" : "other");
  auto r = ToObliviousTree(t.Make());
  PBT_ASSERT(r.has_value() == ob, "ToObliviousTree accepts: ", r.has_value(), " on ", t.Show());
  if (!ob) return;
  PBT_ASSERT(r->tag.step == t.step && r->tag.submodel_id == t.submodel);
  PBT_ASSERT(r->layer_splits.size() == conds.size());
  for (size_t i = 0; i < conds.size(); ++i) PBT_ASSERT(*r->layer_splits[i] == *conds[i].Make(), "layer ", i);
  PBT_ASSERT(r->adjustments.size() == layer.size());
  for (size_t i = 0; i < layer.size(); ++i)
    PBT_ASSERT(r->adjustments[i] == t.nodes[layer[i]].leaf * t.weight, "leaf ", i, ": ", r->adjustments[i], " in place of ", t.nodes[layer[i]].leaf * t.weight);
}

PBT_TEST(D03_forest, 20000, 300000, "at least one tree, possibly damaged in one way") {
  Forest f = GenForest(s, 5);
  std::vector<DecisionTree> ts;
  for (auto& t : f.trees) ts.push_back(t.Make());
  int damage = ts.empty() ? 0 : int(s.draw(7));
  if (!ts.empty()) s.nontrivial();
  bool bad = false;
  if (damage) {
    auto& t = ts[s.draw(ts.size() - 1)];
    DecisionTreeNodeId* child = nullptr;
    if (!t.split_nodes.empty()) {
      auto& n = t.split_nodes[s.draw(t.split_nodes.size() - 1)];
      child = s.boolean() ? &n.child_if_false : &n.child_if_true;
    }
    switch (damage) {
      case 1: t.tag.step = -1 - int(s.draw(3)); bad = true; break;
      case 2: t.tag.submodel_id = -1 - int(s.draw(3)); bad = true; break;
      case 3: t.adjustments.push_back(0); bad = true; break;
      case 4: t.adjustments.pop_back(); bad = true; break;
      case 5: if (child) { *child = DecisionTreeNodeId::SplitNodeId(t.split_nodes.size() + s.draw(2)); bad = true; } break;
      case 6: if (child) { *child = DecisionTreeNodeId::AdjustmentId(t.adjustments.size() + s.draw(2)); bad = true; } break;
      default: {  // the type of an input differs between trees
        DecisionTree x;
        x.adjustments = {1, 2};
        int in = s.draw(f.kinds.size() - 1);
        x.split_nodes = {{DecisionTreeNodeId::AdjustmentId(0), DecisionTreeNodeId::AdjustmentId(1), SetOfValuesSplit<double>(in, {1.}, false)}};
        for (auto& q : f.trees) for (auto& nd : q.nodes) if (nd.cond >= 0 && q.conds[nd.cond].input == in) bad = true;
        ts.insert(ts.begin() + s.draw(ts.size()), x);
        if (!bad) return;
      }
    }
  }
  s.label(pbt::cat("damage_", bad ? damage : 0));
  auto copy = ts;
  auto r = DecisionForest::FromTrees(std::move(copy));
  PBT_ASSERT(r.ok() == !bad, "damage ", damage, ": ", r.status().ToString());
  if (bad) return;
  auto& forest = **r;
  int steps = 0, subs = 0;
  std::map<int, Kind> req;
  for (auto& t : f.trees) {
    steps = std::max(steps, t.step + 1);
    subs = std::max(subs, t.submodel + 1);
    for (auto& n : t.nodes) if (n.cond >= 0) req[t.conds[n.cond].input] = t.conds[n.cond].kind;
  }
  PBT_ASSERT(forest.step_count() == steps && forest.submodel_count() == subs);
  PBT_ASSERT(forest.GetRequiredQTypes().size() == req.size(), "required inputs: ", forest.GetRequiredQTypes().size(), " in place of ", req.size());
  for (auto& [i, k] : req) {
    PBT_ASSERT(forest.GetRequiredQTypes().contains(i), "input ", i);
    QTypePtr t = k == kFloat ? GetOptionalQType<float>() : k == kInt64 ? GetOptionalQType<int64_t>() : k == kInt32 ? GetOptionalQType<int>() : GetOptionalQType<Bytes>();
    PBT_ASSERT(forest.GetRequiredQTypes().at(i) == t);
  }
  PBT_ASSERT(forest.GetTrees().size() == ts.size() && forest.TreesCopy().size() == ts.size());
  // Slots.
  FrameLayout::Builder fb;
  std::vector<TypedSlot> slots;
  bool ok = true;
  for (size_t i = 0; i < f.kinds.size(); ++i) {
    if (s.chance(1, 10)) {
      slots.push_back(TypedSlot::FromSlot(fb.AddSlot<float>()));
      if (req.count(i)) ok = false;
    } else slots.push_back(AddInput(fb, f.kinds[i]));
  }
  if (s.chance(1, 6)) {
    slots.pop_back();
    if (req.count(slots.size())) ok = false;
  }
  PBT_ASSERT(forest.ValidateInputSlots(slots).ok() == ok);
  // The fingerprint depends on the trees and on nothing else.
  std::vector<DecisionTree> again;
  for (auto& t : f.trees) again.push_back(t.Make());
  auto fp = [](std::vector<DecisionTree> v) {
    auto r = DecisionForest::FromTrees(std::move(v));
    PBT_ASSERT(r.ok(), r.status().ToString());
    return (*r)->fingerprint();
  };
  PBT_ASSERT(fp(again) == forest.fingerprint(), "fingerprint differs between equal forests");
  if (again.empty()) return;
  auto changed = again;
  auto& t = changed[s.draw(changed.size() - 1)];
  switch (s.draw(5)) {
    case 0: t.weight += 1; break;
    case 1: t.tag.step += 1; break;
    case 2: t.tag.submodel_id += 1; break;
    case 3: t.adjustments[s.draw(t.adjustments.size() - 1)] += 0.25f; break;
    case 4: changed.pop_back(); break;
    default:
      if (t.split_nodes.empty()) return;
      auto& n = t.split_nodes[s.draw(t.split_nodes.size() - 1)];
      std::swap(n.child_if_false, n.child_if_true);
  }
  PBT_ASSERT(fp(changed) != forest.fingerprint(), "one fingerprint for different forests");
}

// Filters: equal exactly when they have one fingerprint.
PBT_TEST(D03_filters, 10000, 300000, "two filters that may differ in any part") {
  auto a = GenFilter(s), b = s.boolean() ? a : GenFilter(s);
  s.nontrivial();
  auto fp = [](const TreeFilter& f) {
    FingerprintHasher h("salt");
    h.Combine(f);
    return std::move(h).Finish();
  };
  bool same = a.step_range_from == b.step_range_from && a.step_range_to == b.step_range_to && a.submodels == b.submodels;
  PBT_ASSERT((fp(a) == fp(b)) == same, ShowFilter(a), " vs ", ShowFilter(b));
  for (int i = 0; i < 10; ++i) {
    Tree t;
    t.step = s.draw(6);
    t.submodel = s.draw(4);
    PBT_ASSERT(a(DecisionTree::Tag{t.step, t.submodel}) == Selected(a, t), ShowFilter(a), " on step ", t.step, " submodel ", t.submodel);
  }
}
}  // namespace

