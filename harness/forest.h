// Decision forests: own model, generator and reference evaluation.
#ifndef VERIF_HARNESS_FOREST_H_
#define VERIF_HARNESS_FOREST_H_
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "arrays.h"

#include "arolla/decision_forest/decision_forest.h"
#include "arolla/decision_forest/split_condition.h"
#include "arolla/decision_forest/split_conditions/interval_split_condition.h"
#include "arolla/decision_forest/split_conditions/set_of_values_split_condition.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/typed_slot.h"

namespace vf {
using namespace va;

enum Kind { kFloat, kInt64, kBytes, kInt32, kKinds };

struct Val {  // value of one input in one row
  bool present = false;
  float f = 0;
  int64_t i = 0;
  std::string b;
};

struct Cond {
  int input = 0;
  Kind kind = kFloat;
  bool interval = false;
  float l = 0, r = 0;
  std::set<float> fs;
  std::set<int64_t> is;
  std::set<std::string> bs;
  bool if_missed = false;

  bool Eval(const Val& v) const {
    if (interval) return v.present && v.f >= l && v.f <= r;
    if (!v.present) return if_missed;
    switch (kind) {
      case kFloat: for (float x : fs) if (x == v.f) return true; return false;
      case kBytes: for (auto& x : bs) if (x == v.b) return true; return false;
      default: for (auto x : is) if (x == v.i) return true; return false;
    }
  }
  bool Same(const Cond& o) const {
    return input == o.input && kind == o.kind && interval == o.interval &&
           (interval ? l == o.l && r == o.r
                     : fs == o.fs && is == o.is && bs == o.bs && if_missed == o.if_missed);
  }
  std::shared_ptr<const SplitCondition> Make() const {
    if (interval) return IntervalSplit(input, l, r);
    switch (kind) {
      case kFloat: {
        absl::flat_hash_set<float> v(fs.begin(), fs.end());
        return SetOfValuesSplit<float>(input, v, if_missed);
      }
      case kInt64: {
        absl::flat_hash_set<int64_t> v(is.begin(), is.end());
        return SetOfValuesSplit<int64_t>(input, v, if_missed);
      }
      case kInt32: {
        absl::flat_hash_set<int> v;
        for (auto x : is) v.insert(int(x));
        return SetOfValuesSplit<int>(input, v, if_missed);
      }
      default: {
        absl::flat_hash_set<Bytes> v;
        for (auto& x : bs) v.insert(ToValue<Bytes>(x));
        return SetOfValuesSplit<Bytes>(input, v, if_missed);
      }
    }
  }
  std::string Show() const {
    std::string res = cat("#", input);
    if (interval) return cat(res, " in [", l, ",", r, "]");
    res += " in {";
    for (auto x : fs) res += cat(x, " ");
    for (auto x : is) res += cat(x, " ");
    for (auto& x : bs) res += Show1(x) + " ";
    return res + (if_missed ? "} or missed" : "}");
  }
  using S = std::string;
  template <class... A> static S cat(const A&... a) { return pbt::cat(a...); }
};

struct Node {
  int cond = -1;  // -1: leaf
  int yes = -1, no = -1;
  float leaf = 0;
};
struct Tree {
  std::vector<Cond> conds;
  std::vector<Node> nodes;  // nodes[0] is the root
  float weight = 1;
  int step = 0, submodel = 0;
  // physical numbering
  std::vector<int> split_id, leaf_id;  // per node

  double Eval(const std::vector<Val>& row) const {
    int n = 0;
    while (nodes[n].cond >= 0) n = conds[nodes[n].cond].Eval(row[conds[nodes[n].cond].input]) ? nodes[n].yes : nodes[n].no;
    return double(nodes[n].leaf) * weight;
  }
  DecisionTreeNodeId Id(int n) const {
    return nodes[n].cond >= 0 ? DecisionTreeNodeId::SplitNodeId(split_id[n]) : DecisionTreeNodeId::AdjustmentId(leaf_id[n]);
  }
  DecisionTree Make() const {
    DecisionTree t;
    size_t splits = (nodes.size() - 1) / 2;
    t.split_nodes.resize(splits);
    t.adjustments.resize(splits + 1);
    for (size_t n = 0; n < nodes.size(); ++n) {
      if (nodes[n].cond < 0) t.adjustments[leaf_id[n]] = nodes[n].leaf;
      else t.split_nodes[split_id[n]] = {Id(nodes[n].no), Id(nodes[n].yes), conds[nodes[n].cond].Make()};
    }
    t.weight = weight;
    t.tag = {step, submodel};
    return t;
  }
  std::string Show(int n = 0) const {
    if (nodes[n].cond < 0) return pbt::cat(nodes[n].leaf);
    return "(" + conds[nodes[n].cond].Show() + " ? " + Show(nodes[n].yes) + " : " + Show(nodes[n].no) + ")";
  }
};

struct Forest {
  std::vector<Kind> kinds;  // per input
  std::vector<std::vector<float>> fpool;
  std::vector<std::vector<int64_t>> ipool;
  std::vector<std::vector<std::string>> bpool;
  std::vector<Tree> trees;

  std::unique_ptr<DecisionForest> Make() const {
    std::vector<DecisionTree> ts;
    for (auto& t : trees) ts.push_back(t.Make());
    auto r = DecisionForest::FromTrees(std::move(ts));
    PBT_ASSERT(r.ok(), r.status().ToString());
    return *std::move(r);
  }
};

inline float GenLeaf(Src& s) { return float(s.range(-40, 40)) / 4; }

inline Cond GenCond(Src& s, const Forest& f, int input) {
  Cond c;
  c.input = input;
  c.kind = f.kinds[input];
  if (c.kind == kFloat && !s.chance(1, 8)) {
    c.interval = true;
    constexpr float inf = INFINITY;
    float a = f.fpool[input][s.draw(f.fpool[input].size() - 1)], b = f.fpool[input][s.draw(f.fpool[input].size() - 1)];
    switch (s.draw(9)) {
      case 0: case 1: case 2: c.l = a, c.r = inf; break;
      case 3: case 4: case 5: c.l = -inf, c.r = a; break;
      case 6: c.l = a, c.r = a; break;
      case 7: c.l = -inf, c.r = inf; break;
      default: c.l = std::min(a, b), c.r = std::max(a, b);
    }
    return c;
  }
  size_t n = s.size(6);
  for (size_t i = 0; i < n; ++i) {
    switch (c.kind) {
      case kFloat: c.fs.insert(f.fpool[input][s.draw(f.fpool[input].size() - 1)]); break;
      case kBytes: c.bs.insert(f.bpool[input][s.draw(f.bpool[input].size() - 1)]); break;
      default: c.is.insert(f.ipool[input][s.draw(f.ipool[input].size() - 1)]);
    }
  }
  c.if_missed = s.boolean();
  return c;
}

template <class T>
void Shuffle(Src& s, std::vector<T>& v, size_t from = 0) {
  for (size_t i = v.size(); i > from + 1; --i) std::swap(v[i - 1], v[from + s.draw(i - 1 - from)]);
}

inline Tree GenTree(Src& s, const Forest& f) {
  Tree t;
  int inputs = f.kinds.size();
  int shape = s.draw(6);
  int only = s.chance(1, 3) ? int(s.draw(inputs - 1)) : -1;
  bool shared = s.boolean();  // conditions repeated inside the tree
  auto cond = [&] {
    if (shared && !t.conds.empty() && s.boolean()) {
      t.conds.push_back(t.conds[s.draw(t.conds.size() - 1)]);
    } else {
      t.conds.push_back(GenCond(s, f, only >= 0 ? only : int(s.draw(inputs - 1))));
    }
    return int(t.conds.size()) - 1;
  };
  t.nodes.push_back({-1, -1, -1, GenLeaf(s)});
  auto split = [&](int n, int c) {
    t.nodes[n].cond = c;
    t.nodes[n].yes = t.nodes.size();
    t.nodes.push_back({-1, -1, -1, GenLeaf(s)});
    t.nodes[n].no = t.nodes.size();
    t.nodes.push_back({-1, -1, -1, GenLeaf(s)});
  };
  switch (shape) {
    case 0: break;  // a constant
    case 1: case 2: {  // oblivious
      int depth = s.chance(1, 6) ? s.range(5, 7) : s.range(1, 4);
      std::vector<int> layer = {0};
      for (int d = 0; d < depth; ++d) {
        int c = cond();
        std::vector<int> next;
        for (int n : layer) {
          split(n, c);
          next.push_back(t.nodes[n].yes);
          next.push_back(t.nodes[n].no);
        }
        layer = next;
      }
      if (s.chance(1, 8)) {  // almost oblivious
        int n = s.draw(t.nodes.size() - 1);
        if (t.nodes[n].cond >= 0) t.nodes[n].cond = cond();
      }
      break;
    }
    case 3: {  // chain
      int n = 0, len = s.chance(1, 6) ? s.range(60, 70) : s.range(1, 8);
      for (int i = 0; i < len; ++i) {
        split(n, cond());
        n = s.boolean() ? t.nodes[n].yes : t.nodes[n].no;
      }
      break;
    }
    default: {
      int splits = s.chance(1, 6) ? s.range(10, 140) : s.range(1, 9);
      std::vector<int> leaves = {0};
      for (int i = 0; i < splits; ++i) {
        size_t j = s.draw(leaves.size() - 1);
        int n = leaves[j];
        split(n, cond());
        leaves[j] = t.nodes[n].yes;
        leaves.push_back(t.nodes[n].no);
      }
    }
  }
  std::vector<int> ids, lids;
  for (size_t n = 0; n < t.nodes.size(); ++n) {
    if (t.nodes[n].cond >= 0) ids.push_back(ids.size());
    else lids.push_back(lids.size());
  }
  if (s.boolean()) { if (!ids.empty()) Shuffle(s, ids, 1); Shuffle(s, lids); }
  size_t a = 0, b = 0;
  for (size_t n = 0; n < t.nodes.size(); ++n) {
    bool sp = t.nodes[n].cond >= 0;
    t.split_id.push_back(sp ? ids[a++] : -1);
    t.leaf_id.push_back(sp ? -1 : lids[b++]);
  }
  t.weight = s.pick({1.f, 1.f, 0.5f, 2.f, -1.f, 0.f, 0.25f});
  if (s.boolean()) {
    t.step = s.draw(4);
    t.submodel = s.draw(3);
  }
  return t;
}

inline Forest GenForest(Src& s, int max_trees = 25) {
  Forest f;
  int inputs = s.range(1, 5);
  bool floats_only = s.chance(1, 3);
  for (int i = 0; i < inputs; ++i) {
    f.kinds.push_back(floats_only ? kFloat : s.pick({kFloat, kFloat, kFloat, kInt64, kInt64, kBytes, kInt32}));
    std::vector<float> fp;
    std::vector<int64_t> ip;
    std::vector<std::string> bp;
    size_t n = s.range(1, 8);
    for (size_t j = 0; j < n; ++j) {
      fp.push_back(s.chance(1, 8) ? s.pick({0.f, -0.f, INFINITY, -INFINITY, 1e38f, 1e-40f}) : float(s.range(-20, 20)) / 2);
      ip.push_back(s.chance(1, 6) ? s.integer<int32_t>() : s.range(-5, 10));
      bp.push_back(s.chance(1, 3) ? s.bytes(5) : std::string(1, char('a' + s.draw(4))));
    }
    f.fpool.push_back(fp);
    f.ipool.push_back(ip);
    f.bpool.push_back(bp);
  }
  size_t n = s.draw(3) ? s.draw(6) : s.draw(max_trees);
  for (size_t i = 0; i < n; ++i) {
    if (i && s.chance(1, 6)) f.trees.push_back(f.trees[s.draw(i - 1)]);
    else f.trees.push_back(GenTree(s, f));
  }
  return f;
}

inline Val GenVal(Src& s, const Forest& f, int i) {
  Val v;
  v.present = !s.chance(1, 5);
  if (!v.present && s.boolean()) return v;  // otherwise junk below the missing
  float x = f.fpool[i][s.draw(f.fpool[i].size() - 1)];
  switch (s.draw(8)) {
    case 0: v.f = std::nextafterf(x, INFINITY); break;
    case 1: v.f = std::nextafterf(x, -INFINITY); break;
    case 2: v.f = s.flt(); break;
    case 3: v.f = float(s.range(-24, 24)) / 2; break;
    case 4: v.f = s.pick({NAN, INFINITY, -INFINITY, 0.f, -0.f}); break;
    default: v.f = x;
  }
  v.i = f.ipool[i][s.draw(f.ipool[i].size() - 1)];
  if (s.chance(1, 4)) v.i = s.chance(1, 2) ? s.range(-6, 11) : s.integer<int32_t>();
  v.b = s.chance(1, 4) ? s.bytes(5) : f.bpool[i][s.draw(f.bpool[i].size() - 1)];
  return v;
}
inline std::vector<Val> GenRow(Src& s, const Forest& f) {
  std::vector<Val> r;
  for (size_t i = 0; i < f.kinds.size(); ++i) r.push_back(GenVal(s, f, i));
  return r;
}
inline std::string ShowVal(const Val& v, Kind k) {
  if (!v.present) return "-";
  return k == kFloat ? pbt::cat(v.f) : k == kBytes ? Show1(v.b) : pbt::cat(v.i);
}

// ---- input slots ----------------------------------------------------------
inline TypedSlot AddInput(FrameLayout::Builder& b, Kind k) {
  switch (k) {
    case kFloat: return TypedSlot::FromSlot(b.AddSlot<OptionalValue<float>>());
    case kInt64: return TypedSlot::FromSlot(b.AddSlot<OptionalValue<int64_t>>());
    case kInt32: return TypedSlot::FromSlot(b.AddSlot<OptionalValue<int>>());
    default: return TypedSlot::FromSlot(b.AddSlot<OptionalValue<Bytes>>());
  }
}
template <class T>
void Put(FramePtr f, TypedSlot slot, bool present, T v) {
  auto sl = slot.ToSlot<OptionalValue<T>>();
  PBT_ASSERT(sl.ok());
  OptionalValue<T> o = v;
  o.present = present;
  f.Set(*sl, o);
}
inline void SetRow(FramePtr frame, const std::vector<TypedSlot>& slots, const Forest& f, const std::vector<Val>& row) {
  for (size_t i = 0; i < slots.size(); ++i) {
    auto& v = row[i];
    switch (f.kinds[i]) {
      case kFloat: Put<float>(frame, slots[i], v.present, v.f); break;
      case kInt64: Put<int64_t>(frame, slots[i], v.present, v.i); break;
      case kInt32: Put<int>(frame, slots[i], v.present, int(v.i)); break;
      default: Put<Bytes>(frame, slots[i], v.present, ToValue<Bytes>(v.b));
    }
  }
}

// ---- filters ---------------------------------------------------------------
inline TreeFilter GenFilter(Src& s) {
  TreeFilter f;
  f.step_range_from = s.boolean() ? 0 : int(s.draw(4));
  f.step_range_to = s.boolean() ? -1 : int(s.draw(5));
  if (s.boolean()) {
    size_t n = s.range(1, 2);
    for (size_t i = 0; i < n; ++i) f.submodels.insert(int(s.draw(3)));
  }
  return f;
}
inline bool Selected(const TreeFilter& f, const Tree& t) {
  if (t.step < f.step_range_from) return false;
  if (f.step_range_to != -1 && t.step >= f.step_range_to) return false;
  return f.submodels.empty() || f.submodels.count(t.submodel) > 0;
}
inline std::string ShowFilter(const TreeFilter& f) {
  std::set<int> m(f.submodels.begin(), f.submodels.end());
  std::string r = pbt::cat("steps [", f.step_range_from, ",", f.step_range_to, ") submodels {");
  for (int x : m) r += pbt::cat(x, " ");
  return r + "}";
}
// Groups that usually do not intersect.
inline std::vector<TreeFilter> GenGroups(Src& s) {
  std::vector<TreeFilter> g;
  switch (s.draw(4)) {
    case 0: g.push_back({}); break;
    case 1: {  // by submodel
      size_t n = s.range(1, 4);
      for (size_t i = 0; i < n; ++i) g.push_back({.submodels = {int(i)}});
      break;
    }
    case 2: {  // by step
      int a = s.draw(4), b = a + s.draw(3);
      g.push_back({.step_range_from = 0, .step_range_to = a});
      g.push_back({.step_range_from = a, .step_range_to = b});
      g.push_back({.step_range_from = b, .step_range_to = -1});
      break;
    }
    case 3: g.push_back(GenFilter(s)); break;
    default: {
      size_t n = s.range(2, 3);
      for (size_t i = 0; i < n; ++i) g.push_back(GenFilter(s));
    }
  }
  if (g.size() > 1 && s.boolean()) Shuffle(s, g);
  return g;
}
}  // namespace vf
#endif
