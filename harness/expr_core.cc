// E01 nodes and traversals, E02 signatures, E05 transformations.
#include "expr.h"

#include <functional>

#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/strings/escaping.h"

#include "arolla/expr/basic_expr_operator.h"
#include "arolla/expr/expr_attributes.h"
#include "arolla/expr/expr_operator_signature.h"
#include "arolla/expr/expr_visitor.h"
#include "arolla/expr/qtype_utils.h"
#include "arolla/expr/visitors/substitution.h"

namespace {
using namespace xp;  // NOLINT
using Param = ExprOperatorSignature::Parameter;

// An operator over any number of arguments.
//   kind 0: no attributes; 1: attributes of the first argument; 2: fails if
//   the first argument is known to be a text, otherwise the type of the last.
class TOp final : public ExprOperatorWithFixedSignature {
 public:
  TOp(std::string name, int kind)
      : ExprOperatorWithFixedSignature(name, ExprOperatorSignature::MakeVariadicArgs(), "",
                                       FingerprintHasher("verif::TOp").Combine(name, kind).Finish()),
        kind_(kind) {}
  absl::StatusOr<ExprAttributes> InferAttributes(absl::Span<const ExprAttributes> in) const final {
    if (in.empty() || kind_ == 0) return ExprAttributes{};
    if (kind_ == 1) return in[0];
    if (in[0].qtype() == GetQType<Text>()) return absl::InvalidArgumentError("no texts");
    return ExprAttributes(in.back().qtype());
  }

 private:
  int kind_;
};

ExprOperatorPtr T(const std::string& name, int kind = 0) { return std::make_shared<TOp>(name, kind); }

// Literals, all different.
std::vector<TypedValue> MakeValues() {
  std::vector<TypedValue> v;
  auto add = [&](auto x) { v.push_back(TypedValue::FromValue(x)); };
  add(int32_t{1}), add(int64_t{1}), add(uint64_t{1}), add(1.0f), add(1.0), add(true);
  add(Text("x")), add(Bytes("x")), add(kUnit), add(int32_t{0}), add(0.0f), add(-0.0f);
  add(OptionalValue<int32_t>{}), add(OptionalValue<int32_t>(1)), add(OptionalValue<int64_t>{});
  add(OptionalValue<float>{}), add(Text("")), add(Bytes("")), add(Text("y")), add(std::numeric_limits<float>::quiet_NaN());
  add(GetQType<int32_t>()), add(GetQType<float>()), add(GetQTypeQType());
  v.push_back(GetUnspecifiedQValue());
  add(CreateDenseArray<int32_t>({1, std::nullopt}));
  add(CreateDenseArray<int32_t>({1, 0}));
  add(CreateDenseArray<int32_t>({1}));
  add(CreateDenseArray<int64_t>({1}));
  v.push_back(MakeTuple({TypedValue::FromValue(int32_t{1})}));
  v.push_back(MakeTuple({TypedValue::FromValue(int32_t{1}), TypedValue::FromValue(int32_t{1})}));
  v.push_back(MakeTuple(absl::Span<const TypedValue>{}));
  v.push_back(*TypedValue::FromValueWithQType(1.0, GetWeakFloatQType()));
  return v;
}
const std::vector<TypedValue>& Values() {
  static const auto* v = new std::vector<TypedValue>(MakeValues());
  return *v;
}

// ------------------------------------------------- a pool of described nodes

struct Made {
  ExprNodePtr node;
  int id = -1;  // equal ids: equal descriptions
};

struct Builder {
  std::map<std::string, int> ids;
  std::vector<std::function<Made()>> rebuild;  // by the order of creation
  std::vector<Made> nodes;

  int Id(const std::string& desc) { return ids.emplace(desc, int(ids.size())).first->second; }

  std::string Str(const std::string& x) { return absl::StrCat(x.size(), ":", x); }

  void AddLeaf(const std::string& k) { Add([this, k] { return Made{Leaf(k), Id("L" + Str(k))}; }); }
  void AddPlaceholder(const std::string& k) { Add([this, k] { return Made{Placeholder(k), Id("P" + Str(k))}; }); }
  void AddLiteral(int i) {
    Add([this, i] {
      static const auto* copy = new std::vector<TypedValue>(MakeValues());  // another instance of each value
      return Made{Literal(i % 2 ? Values()[i] : (*copy)[i]), Id(absl::StrCat("V", i))};
    });
  }
  void Add(std::function<Made()> f) {
    nodes.push_back(f());
    rebuild.push_back(f);
  }
};

// A freshly made operator and its description.
std::pair<ExprOperatorPtr, std::string> MakeOp(int what, int a, int b, int c, int d) {
  switch (what) {
    case 0: {
      static const char* names[] = {"a", "b", "math.add", ""};
      return {T(names[a % 4], b % 2), absl::StrCat("T", a % 4, ",", b % 2)};
    }
    case 1: {
      static const char* names[] = {"core.make_tuple", "core.has", "math.neg", "core.identity"};
      return {Reg(names[a % 4]), absl::StrCat("R", a % 4)};
    }
    case 2: return {MakeTupleOperator::Make(), "MT"};
    case 3: return {*GetNthOperator::Make(a % 3), absl::StrCat("N", a % 3)};
    default: {
      static const char* names[] = {"l", "m", "anonymous.lambda"};
      static const char* docs[] = {"", "d", "l"};
      static const char* specs[] = {"x, y", "y, x", "x, y=", "x, *y", "x, y|p", "x, y|p:o", "x, y|:p", "x, y, z", "x, y, *z"};
      ExprNodePtr x = Placeholder("x"), y = Placeholder("y");
      ExprNodePtr bodies[] = {x,
                              y,
                              *MakeOpNode(T("a"), {x}),
                              *MakeOpNode(T("a"), {x, y}),
                              *MakeOpNode(T("a"), {y, x}),
                              *MakeOpNode(T("b"), {x, y}),
                              Literal(int32_t{1}),
                              Literal(int64_t{1}),
                              *MakeOpNode(MakeTupleOperator::Make(), {x, y}),
                              *MakeOpNode(T("a"), {*MakeOpNode(T("a"), {x}), y})};
      int sp = b % 9, dv = sp == 2 ? (a / 4) % 3 : 0;
      std::vector<TypedValue> def;
      if (sp == 2) def.push_back(Values()[dv]);
      auto sig = *ExprOperatorSignature::Make(specs[sp], def);
      auto op = *LambdaOperator::Make(names[a % 3], sig, bodies[c % 10], docs[d % 3]);
      return {op, absl::StrCat("LAM", a % 3, ",", sp, ",", dv, ",", c % 10, ",", d % 3)};
    }
  }
}

void GenPool(Src& s, Builder& b, int ops) {
  static const char* keys[] = {"x", "y", "", "math.add", "x ", "1", "\xc3\xa9", "long_key_that_is_not_inlined_in_the_string"};
  int n = s.range(1, 6);
  for (int i = 0; i < n; ++i) {
    switch (s.draw(2)) {
      case 0: b.AddLeaf(keys[s.draw(7)]); break;
      case 1: b.AddPlaceholder(keys[s.draw(7)]); break;
      default: b.AddLiteral(s.draw(Values().size() - 1));
    }
  }
  for (int i = 0; i < ops; ++i) {
    if (s.chance(1, 8)) {  // one more of the basic ones
      if (s.boolean()) b.AddLeaf(keys[s.draw(7)]); else b.AddLiteral(s.draw(Values().size() - 1));
      continue;
    }
    int what = s.draw(5), o1 = s.draw(11), o2 = s.draw(8), o3 = s.draw(9), o4 = s.chance(1, 3) ? s.draw(2) : 0;
    size_t k = s.draw(3);
    if (what == 0 && s.chance(1, 12)) k = s.range(20, 80);
    std::vector<size_t> deps;
    for (size_t j = 0; j < k; ++j) {
      size_t m = b.nodes.size();
      deps.push_back(s.boolean() ? m - 1 - s.draw(std::min<size_t>(m, 3) - 1) : s.draw(m - 1));
    }
    auto f = [&b, what, o1, o2, o3, o4, deps]() -> Made {
      auto [op, desc] = MakeOp(what, o1, o2, o3, o4);
      std::vector<ExprNodePtr> d;
      for (size_t i : deps) {
        d.push_back(b.nodes[i].node);
        desc += absl::StrCat("/", b.nodes[i].id);
      }
      auto n = MakeOpNode(op, d);
      if (!n.ok()) return Made{};
      return Made{*n, b.Id(desc)};
    };
    Made m = f();
    if (m.node == nullptr) continue;
    b.nodes.push_back(m);
    b.rebuild.push_back(f);
  }
}

PBT_TEST(E01_identity, 30000, 120000, "at least six operator nodes, and two nodes made separately with equal descriptions") {
  Init();
  Builder b;
  GenPool(s, b, s.range(2, 24));
  // Built again, from new operator objects and values.
  size_t n = b.nodes.size();
  std::vector<Made> all = b.nodes;
  for (size_t i = 0; i < n; ++i) {
    Made again = b.rebuild[i]();
    PBT_ASSERT(again.id == all[i].id, "harness");
    PBT_ASSERT(again.node->fingerprint() == all[i].node->fingerprint(), "a node built again differs: ",
               ToDebugString(all[i].node));
    all.push_back(again);
  }
  int ops = 0, dup = 0;
  absl::flat_hash_map<Fingerprint, size_t> by_fp;
  std::map<int, size_t> by_id;
  for (size_t i = 0; i < all.size(); ++i) {
    auto [it, fresh] = by_id.emplace(all[i].id, i);
    auto [jt, fresh2] = by_fp.emplace(all[i].node->fingerprint(), i);
    PBT_ASSERT(fresh == fresh2, fresh ? "different nodes with equal fingerprints: " : "equal nodes with different fingerprints: ",
               ToDebugString(all[i].node), " and ", ToDebugString(all[fresh ? jt->second : it->second].node));
    PBT_ASSERT(it->second == jt->second, "mixed up: ", ToDebugString(all[i].node));
    ops += all[i].node->is_op();
    dup += i < n && !fresh;
  }
  if (ops >= 12 && dup > 0) s.nontrivial();
  // What a node says about itself.
  for (auto& m : b.nodes) {
    const auto& x = m.node;
    PBT_ASSERT(x->is_op() + x->is_leaf() + x->is_literal() + x->is_placeholder() == 1, "kinds of a node");
    if (!x->is_op()) PBT_ASSERT(x->op() == nullptr && x->node_deps().empty(), "dependencies of a non-operator");
    if (!x->is_leaf()) PBT_ASSERT(x->leaf_key().empty(), "leaf key");
    if (!x->is_placeholder()) PBT_ASSERT(x->placeholder_key().empty(), "placeholder key");
    if (x->is_leaf() || x->is_placeholder()) PBT_ASSERT(x->qtype() == nullptr && !x->qvalue(), "attributes of a leaf");
    if (x->is_literal()) PBT_ASSERT(x->qvalue() && x->qtype() == x->qvalue()->GetType(), "attributes of a literal");
  }
  // The same dependencies again: the very node; others: as if made anew.
  for (int t = 0; t < 4; ++t) {
    const auto& x = b.nodes[s.draw(n - 1)].node;
    auto same = WithNewDependencies(x, x->node_deps());
    PBT_ASSERT(same.ok() && same->get() == x.get(), "WithNewDependencies with the same ones");
    std::vector<ExprNodePtr> deps = x->node_deps();
    if (deps.empty()) continue;
    deps[s.draw(deps.size() - 1)] = b.nodes[s.draw(n - 1)].node;
    auto got = WithNewDependencies(x, deps);
    auto want = MakeOpNode(x->op(), deps);
    PBT_ASSERT(got.ok() == want.ok(), "WithNewDependencies: ", got.status().ToString(), " / ", want.status().ToString());
    if (got.ok()) {
      PBT_ASSERT((*got)->fingerprint() == (*want)->fingerprint() && (*got)->attr().IsIdenticalTo((*want)->attr()),
                 "WithNewDependencies: ", ToDebugString(*got), " expected ", ToDebugString(*want));
      PBT_ASSERT(b.nodes[0].node != nullptr && (*got)->node_deps().size() == deps.size(), "dependencies");
    }
    auto [op2, desc] = MakeOp(0, s.draw(3), s.draw(1), 0, 0);
    auto got2 = WithNewOperator(x, op2);
    auto want2 = MakeOpNode(op2, x->node_deps());
    PBT_ASSERT(got2.ok() && want2.ok() && (*got2)->fingerprint() == (*want2)->fingerprint(), "WithNewOperator");
  }
}

// ------------------------------------------------------------- traversals

void ModelVisit(const ExprNodePtr& n, absl::flat_hash_map<Fingerprint, int>& state, std::vector<std::pair<bool, ExprNodePtr>>& out) {
  if (state.count(n->fingerprint())) return;
  state[n->fingerprint()] = 1;
  out.emplace_back(true, n);
  for (const auto& d : n->node_deps()) ModelVisit(d, state, out);
  out.emplace_back(false, n);
}

PBT_TEST(E01_traversal, 30000, 120000, "four or more operator nodes reachable from the root, with a shared node") {
  Init();
  std::vector<std::pair<bool, ExprNodePtr>> want;
  std::vector<ExprNodePtr> post;
  ExprNodePtr root;
  {
    Builder b;
    GenPool(s, b, s.range(2, 24));
    root = b.nodes.back().node;
    // The same thing made again and used next to the first.
    if (s.chance(1, 3)) {
      auto again = b.rebuild.back()();
      root = *MakeOpNode(T("a"), {again.node, root, b.nodes[s.draw(b.nodes.size() - 1)].node, again.node});
    }
    absl::flat_hash_map<Fingerprint, int> st;
    ModelVisit(root, st, want);
    for (auto& [pre, n] : want) {
      if (!pre) post.push_back(n);
    }
  }
  s.note("root", ToDebugString(root));
  int ops = 0;
  size_t arcs = 0;
  for (auto& n : post) {
    ops += n->is_op();
    arcs += n->node_deps().size();
  }
  if (ops >= 4 && arcs + 1 > post.size()) s.nontrivial();
  absl::flat_hash_map<Fingerprint, size_t> pos;
  for (size_t i = 0; i < post.size(); ++i) pos[post[i]->fingerprint()] = i;

  auto vo = VisitorOrder(root);
  PBT_ASSERT(vo.size() == post.size(), "VisitorOrder: ", vo.size(), " nodes, expected ", post.size());
  for (size_t i = 0; i < vo.size(); ++i) PBT_ASSERT(vo[i]->fingerprint() == post[i]->fingerprint(), "VisitorOrder at ", i);
  auto pp = PreAndPostVisitorOrder(root);
  PBT_ASSERT(pp.size() == want.size(), "PreAndPostVisitorOrder: ", pp.size(), " expected ", want.size());
  for (size_t i = 0; i < pp.size(); ++i) {
    PBT_ASSERT(pp[i].first == want[i].first && pp[i].second->fingerprint() == want[i].second->fingerprint(),
               "PreAndPostVisitorOrder at ", i);
  }
  // The order keeps the expression alive, and may be moved.
  std::vector<std::string> leaves, placeholders;
  for (auto& n : post) {
    if (n->is_leaf()) leaves.push_back(n->leaf_key());
    if (n->is_placeholder()) placeholders.push_back(n->placeholder_key());
  }
  std::sort(leaves.begin(), leaves.end());
  std::sort(placeholders.begin(), placeholders.end());
  PBT_ASSERT(GetLeafKeys(root) == leaves, "leaf keys: ", absl::StrJoin(GetLeafKeys(root), ","));
  PBT_ASSERT(GetPlaceholderKeys(root) == placeholders, "placeholder keys: ", absl::StrJoin(GetPlaceholderKeys(root), ","));
  std::vector<Fingerprint> fps;
  std::vector<std::vector<size_t>> deps;
  for (auto& n : post) {
    fps.push_back(n->fingerprint());
    deps.emplace_back();
    for (auto& d : n->node_deps()) deps.back().push_back(pos.at(d->fingerprint()));
  }
  PostOrder po0(root);
  Fingerprint rfp = root->fingerprint();
  want.clear(), post.clear(), vo.clear(), pp.clear();
  root = nullptr;
  PostOrder po;
  po = std::move(po0);
  PBT_ASSERT(po.nodes_size() == fps.size() && po.nodes().size() == fps.size(), "PostOrder: ", po.nodes_size(), " nodes");
  PBT_ASSERT(po.nodes().back()->fingerprint() == rfp, "the root is not the last");
  PBT_ASSERT(po.node_indices().size() == fps.size(), "node_indices");
  for (size_t i = 0; i < fps.size(); ++i) {
    PBT_ASSERT(po.node(i)->fingerprint() == fps[i], "PostOrder at ", i);
    PBT_ASSERT(po.node_index(fps[i]) == std::optional<size_t>(i), "node_index of ", i);
    auto di = po.dep_indices(i);
    PBT_ASSERT(std::vector<size_t>(di.begin(), di.end()) == deps[i], "dep_indices of ", i);
  }
  PBT_ASSERT(!po.node_index(FingerprintHasher("?").Finish()).has_value(), "node_index of another node");
  PBT_ASSERT(GetLeafKeys(po) == leaves, "leaf keys of the order");
  PBT_ASSERT(GetPlaceholderKeys(po) == placeholders, "placeholder keys of the order");
  // The visitor: once a node, with the results of the dependencies; the first
  // error ends the traversal.
  size_t stop = s.chance(1, 3) ? s.draw(fps.size() - 1) : fps.size();
  std::vector<std::string> model(fps.size());
  size_t calls = 0;
  std::string problem;
  auto res = PostOrderTraverse(po, [&](const ExprNodePtr& n, absl::Span<const std::string* const> args) -> absl::StatusOr<std::string> {
    size_t i = calls++;
    if (i >= fps.size() || n->fingerprint() != fps[i]) problem = absl::StrCat("visitor call ", i, " is out of order");
    if (args.size() != deps[i].size()) {
      problem = "number of arguments";
    } else {
      for (size_t j = 0; j < args.size(); ++j) {
        if (*args[j] != model[deps[i][j]]) problem = absl::StrCat("argument ", j, " of ", i);
      }
    }
    if (i == stop) return absl::DataLossError(absl::StrCat("stop ", i));
    return model[i] = absl::StrCat("r", i, "#", args.size());
  });
  PBT_ASSERT(problem.empty(), problem);
  if (stop < fps.size()) {
    s.label("visitor error");
    PBT_ASSERT(calls == stop + 1, "visitor calls after an error: ", calls, ", the error was in ", stop);
    PBT_ASSERT(!res.ok() && res.status() == absl::DataLossError(absl::StrCat("stop ", stop)), "error of the visitor");
  } else {
    PBT_ASSERT(calls == fps.size() && res.ok() && *res == model.back(), "result of the visitor");
  }
}

PBT_TEST(E01_deep, 40, 300, "a chain of ten thousand nodes or more, or a hundred levels of sharing") {
  Init();
  if (s.boolean()) {
    int n = s.pick({100, 10000, 40000});
    ExprNodePtr e = Leaf("x");
    auto op = T("a", s.draw(1));
    int other = s.draw(1);
    ExprNodePtr l2 = other ? Placeholder("p") : Leaf("x");
    for (int i = 0; i < n; ++i) e = *MakeOpNode(op, i % 3 ? std::vector<ExprNodePtr>{e} : std::vector<ExprNodePtr>{l2, e});
    if (n >= 10000) s.nontrivial();
    PBT_ASSERT(VisitorOrder(e).size() == size_t(n) + 1 + other, "VisitorOrder");
    PBT_ASSERT(PreAndPostVisitorOrder(e).size() == 2 * (size_t(n) + 1 + other), "PreAndPostVisitorOrder");
    PBT_ASSERT(PostOrder(e).nodes_size() == size_t(n) + 1 + other, "PostOrder");
    PBT_ASSERT(GetLeafKeys(e) == std::vector<std::string>{"x"}, "leaves");
    auto r = SubstituteLeaves(e, {{"x", Leaf("y")}});
    PBT_ASSERT(r.ok() && GetLeafKeys(*r) == std::vector<std::string>{"y"}, "substitution");
    auto d = DeepTransform(e, [&](ExprNodePtr x) -> absl::StatusOr<ExprNodePtr> { return x->is_leaf() ? Leaf("z") : x; });
    PBT_ASSERT(d.ok() && GetLeafKeys(*d) == std::vector<std::string>{"z"}, "DeepTransform: ", d.status().ToString());
    PBT_ASSERT(ToLowest(e).ok(), "ToLowest");
    PBT_ASSERT(!GetDebugSnippet(e).empty(), "snippet");
    // Nodes are released in any order.
    if (s.boolean()) e = nullptr; else r = absl::InternalError("");
  } else {
    int n = s.pick({20, 100, 400});
    if (n >= 100) s.nontrivial();
    ExprNodePtr e = Leaf("x");
    int k = s.range(2, 3);
    for (int i = 0; i < n; ++i) e = *MakeOpNode(T("a"), std::vector<ExprNodePtr>(k, e));
    PBT_ASSERT(VisitorOrder(e).size() == size_t(n) + 1, "VisitorOrder");
    PBT_ASSERT(PreAndPostVisitorOrder(e).size() == 2 * (size_t(n) + 1), "PreAndPostVisitorOrder");
    PBT_ASSERT(PostOrder(e).nodes_size() == size_t(n) + 1, "PostOrder");
    auto r = SubstituteLeaves(e, {{"x", Leaf("y")}});
    PBT_ASSERT(r.ok() && GetLeafKeys(*r) == std::vector<std::string>{"y"}, "substitution");
    PBT_ASSERT(PostOrder(*r).nodes_size() == size_t(n) + 1, "nodes after the substitution");
    int calls = 0;
    auto d = DeepTransform(e, [&](ExprNodePtr x) -> absl::StatusOr<ExprNodePtr> {
      ++calls;
      return x->is_leaf() ? Leaf("z") : x;
    });
    PBT_ASSERT(d.ok() && PostOrder(*d).nodes_size() == size_t(n) + 1, "DeepTransform");
    PBT_ASSERT(calls <= 3 * n + 10, "DeepTransform: ", calls, " calls for ", n, " nodes");
    calls = 0;
    auto t = Transform(e, [&](ExprNodePtr x) -> absl::StatusOr<ExprNodePtr> {
      ++calls;
      return x;
    });
    PBT_ASSERT(t.ok() && calls == n + 1 && t->get() == e.get(), "Transform: ", calls);
    PBT_ASSERT(GetDebugSnippet(e).size() < 2000 && ToDebugString(e).size() < 2000000, "text of a shared expression");
  }
}

// ------------------------------------------------------------- signatures

bool SameSig(const ExprOperatorSignature& a, const ExprOperatorSignature& b) {
  if (a.parameters.size() != b.parameters.size() || a.aux_policy_name != b.aux_policy_name ||
      a.aux_policy_options != b.aux_policy_options) {
    return false;
  }
  for (size_t i = 0; i < a.parameters.size(); ++i) {
    const auto &x = a.parameters[i], &y = b.parameters[i];
    if (x.name != y.name || x.kind != y.kind || x.default_value.has_value() != y.default_value.has_value()) return false;
    if (x.default_value && x.default_value->GetFingerprint() != y.default_value->GetFingerprint()) return false;
  }
  return true;
}

std::string ParamName(Src& s) {
  static const char* names[] = {"a", "b", "c", "x", "y", "_", "__", "A", "a1", "arg", "args", "_9", "aB_0", "self", "lambda"};
  return names[s.draw(14)];
}

// A well-formed signature.
ExprOperatorSignature GenSig(Src& s) {
  ExprOperatorSignature sig;
  int n = s.draw(5);
  std::set<std::string> used;
  bool def = false;
  for (int i = 0; i < n; ++i) {
    auto nm = ParamName(s);
    if (!used.insert(nm).second) continue;
    Param p{nm};
    def = def || s.chance(1, 4);
    if (def) p.default_value = Values()[s.draw(Values().size() - 1)];
    if (i + 1 == n && s.chance(1, 3)) {
      p.kind = Param::Kind::kVariadicPositional;
      p.default_value.reset();
    }
    sig.parameters.push_back(p);
  }
  if (s.chance(1, 3)) {
    static const char* an[] = {"", "p", "policy-name", "a b", "x.y|z", "\xc3\xa9", "a,b=", "*"};
    static const char* ao[] = {"", "o", "a:b", "x | y", "\xc3\xa9:", "{\"k\": 1}", ",="};
    sig.aux_policy_name = an[s.draw(7)];
    sig.aux_policy_options = ao[s.draw(6)];
  }
  return sig;
}

std::string Blank(Src& s) {
  static const char* b[] = {"", "", "", " ", "  ", "\t", "\n", " \r\n "};
  return b[s.draw(7)];
}

std::string Render(Src* s, const ExprOperatorSignature& sig) {
  auto blank = [&] { return s ? Blank(*s) : std::string(); };
  std::string r = blank();
  for (size_t i = 0; i < sig.parameters.size(); ++i) {
    const auto& p = sig.parameters[i];
    if (i) r += s ? blank() + "," + blank() : ", ";
    if (p.kind == Param::Kind::kVariadicPositional) r += "*" + blank();
    r += p.name;
    if (p.default_value) r += blank() + "=";
  }
  r += blank();
  if (!sig.aux_policy_name.empty() || !sig.aux_policy_options.empty()) {
    r += "|" + blank() + sig.aux_policy_name;
    if (!sig.aux_policy_options.empty()) r += blank() + ":" + blank() + sig.aux_policy_options;
    r += blank();
  } else if (s && s->chance(1, 8)) {
    r += "|" + blank() + (s->boolean() ? ":" + blank() : "");
  }
  return r;
}

std::vector<TypedValue> Defaults(const ExprOperatorSignature& sig) {
  std::vector<TypedValue> v;
  for (const auto& p : sig.parameters) {
    if (p.default_value) v.push_back(*p.default_value);
  }
  return v;
}

PBT_TEST(E02_spec, 100000, 400000, "three or more parameters, one with a default or variadic, or an auxiliary policy") {
  Init();
  auto sig = GenSig(s);
  bool special = !sig.aux_policy_name.empty() || !sig.aux_policy_options.empty();
  for (auto& p : sig.parameters) special |= p.default_value || p.kind != Param::Kind::kPositionalOrKeyword;
  if (sig.parameters.size() >= 3 && special) s.nontrivial();
  PBT_ASSERT(ValidateSignature(sig).ok(), "a valid signature is refused: ", ValidateSignature(sig).ToString());
  auto text = Render(&s, sig);
  s.note("spec", text);
  auto def = Defaults(sig);
  auto made = ExprOperatorSignature::Make(text, def);
  PBT_ASSERT(made.ok(), "Make(\"", absl::CEscape(text), "\"): ", made.status().ToString());
  PBT_ASSERT(SameSig(*made, sig), "Make(\"", absl::CEscape(text), "\") gave ", GetExprOperatorSignatureSpec(*made));
  // The canonical text.
  std::string canon = Render(nullptr, sig);
  PBT_ASSERT(GetExprOperatorSignatureSpec(sig) == canon, "spec: \"", GetExprOperatorSignatureSpec(sig), "\" expected \"", canon, "\"");
  auto again = ExprOperatorSignature::Make(GetExprOperatorSignatureSpec(sig), def);
  PBT_ASSERT(again.ok() && SameSig(*again, sig), "the canonical text is not read back");
  auto aux = GetAuxPolicy(sig);
  PBT_ASSERT(GetAuxPolicyName(aux) == sig.aux_policy_name && GetAuxPolicyOptions(aux) == sig.aux_policy_options,
             "auxiliary policy: ", aux);
  PBT_ASSERT(HasVariadicParameter(sig) ==
                 (!sig.parameters.empty() && sig.parameters.back().kind == Param::Kind::kVariadicPositional),
             "HasVariadicParameter");
  // Fingerprints identify signatures.
  auto fp = [](const ExprOperatorSignature& x) { return FingerprintHasher("s").Combine(x).Finish(); };
  PBT_ASSERT(fp(sig) == fp(*made), "equal signatures have different fingerprints");
  auto other = GenSig(s);
  if (s.boolean()) {  // a small difference
    other = sig;
    switch (s.draw(5)) {
      case 0: if (!other.parameters.empty()) other.parameters[s.draw(other.parameters.size() - 1)].name += "_"; break;
      case 1: if (!other.parameters.empty()) other.parameters.back().kind =
          Param::Kind(1 - int(other.parameters.back().kind)); break;
      case 2: if (!other.parameters.empty()) other.parameters.back().default_value = Values()[s.draw(Values().size() - 1)]; break;
      case 3: std::swap(other.aux_policy_name, other.aux_policy_options); break;
      case 4: if (!other.parameters.empty()) other.parameters.pop_back(); break;
      default: if (other.parameters.size() > 1) std::swap(other.parameters[0], other.parameters[1]);
    }
  }
  PBT_ASSERT((fp(sig) == fp(other)) == SameSig(sig, other), "fingerprints of signatures ", Render(nullptr, sig), " and ",
             Render(nullptr, other));
  // As many dependencies as parameters, or more for a variadic one.
  bool var = HasVariadicParameter(sig);
  size_t fixed = sig.parameters.size() - var;
  for (size_t k = 0; k <= sig.parameters.size() + 2; ++k) {
    bool ok = var ? k >= fixed : k == fixed;
    auto code = s.boolean() ? absl::StatusCode::kInvalidArgument : absl::StatusCode::kFailedPrecondition;
    auto st = ValidateDepsCount(sig, k, code);
    PBT_ASSERT(st.ok() == ok && (ok || st.code() == code), "ValidateDepsCount of ", canon, " with ", k, ": ", st.ToString());
  }
}

PBT_TEST(E02_invalid, 100000, 400000, "the change made the signature ill-formed") {
  Init();
  auto sig = GenSig(s);
  auto def = Defaults(sig);
  std::string why;
  auto& ps = sig.parameters;
  bool var = HasVariadicParameter(sig);
  switch (s.draw(7)) {
    case 0: {
      static const char* bad[] = {"", "1", "1a", "a b", "a.b", "a-b", "\xc3\xa9", "a\xc3\xa9", "a=b", "**a", "a*", "&a", "a!", "x:y"};
      ps.insert(ps.begin(), Param{bad[s.draw(13)]});
      why = "name";
      break;
    }
    case 1: {
      if (ps.empty()) return;
      size_t i = s.draw(ps.size() - 1);
      Param p{ps[i].name};
      ps.insert(ps.begin(), p);
      why = "duplicate";
      break;
    }
    case 2: {
      // No default after a default.
      Param d{"q1"}, n{"q2"};
      d.default_value = Values()[0];
      ps.insert(ps.end() - var, d);
      ps.insert(ps.end() - var, n);
      why = "order of defaults";
      break;
    }
    case 3: {
      Param v{"q1", std::nullopt, Param::Kind::kVariadicPositional};
      if (ps.empty()) return;
      ps.insert(ps.begin() + s.draw(ps.size() - 1), v);
      why = "variadic in the middle";
      break;
    }
    case 4: {
      Param v{"q1", Values()[s.draw(3)], Param::Kind::kVariadicPositional};
      if (var) ps.pop_back();
      ps.push_back(v);
      why = "variadic with a default";
      break;
    }
    case 5: {
      // Too many or too few default values; the signature itself is fine.
      auto d = def;
      if (s.boolean() || d.empty()) d.push_back(Values()[0]); else d.pop_back();
      auto made = ExprOperatorSignature::Make(Render(&s, sig), d);
      PBT_ASSERT(made.status().code() == absl::StatusCode::kInvalidArgument, "wrong number of defaults is accepted");
      s.nontrivial();
      return;
    }
    case 6: {
      // Stray separators.
      auto t = GetExprOperatorSignatureSpec(sig);
      auto cut = t.find('|');
      std::string head = t.substr(0, cut), tail = cut == std::string::npos ? "" : t.substr(cut);
      if (ps.empty()) head = ",";
      else if (s.boolean()) head += ",";
      else head = ", " + head;
      auto made = ExprOperatorSignature::Make(head + tail, def);
      PBT_ASSERT(made.status().code() == absl::StatusCode::kInvalidArgument, "accepted: ", head + tail);
      s.nontrivial();
      return;
    }
    default: {
      sig.aux_policy_name = "a:b";
      PBT_ASSERT(ValidateSignature(sig).code() == absl::StatusCode::kInvalidArgument, "colon in the policy name");
      s.nontrivial();
      return;
    }
  }
  s.nontrivial();
  s.label(why);
  PBT_ASSERT(ValidateSignature(sig).code() == absl::StatusCode::kInvalidArgument, "accepted (", why, "): ", Render(nullptr, sig));
  if (ps.size() == 1 && ps[0].name.empty()) return;  // the text of no parameters
  auto made = ExprOperatorSignature::Make(Render(&s, sig), Defaults(sig));
  PBT_ASSERT(made.status().code() == absl::StatusCode::kInvalidArgument, "Make accepted (", why, "): ", Render(nullptr, sig));
  auto lam = LambdaOperator::Make("l", sig, Literal(1));
  PBT_ASSERT(!lam.ok(), "a lambda with an ill-formed signature (", why, ")");
}

PBT_TEST(E02_bind, 100000, 400000, "two or more parameters, and keyword arguments or a default value used, binding succeeded") {
  Init();
  auto sig = GenSig(s);
  bool var = HasVariadicParameter(sig);
  size_t fixed = sig.parameters.size() - var;
  std::vector<ExprNodePtr> args;
  absl::flat_hash_map<std::string, ExprNodePtr> kw;
  size_t n = s.chance(1, 4) ? s.draw(fixed + 2) : s.draw(fixed + (var ? 3 : 0));
  for (size_t i = 0; i < n; ++i) args.push_back(Leaf(absl::StrCat("p", i)));
  for (size_t i = n; i < fixed; ++i) {
    if (s.chance(3, 4)) kw.emplace(sig.parameters[i].name, Leaf("k" + sig.parameters[i].name));
  }
  if (s.chance(1, 8)) {
    auto nm = s.boolean() || sig.parameters.empty() ? "zzz" : sig.parameters[s.draw(sig.parameters.size() - 1)].name;
    kw.emplace(nm, Leaf("k" + nm));
  }
  // The model, after Python.
  bool ok = true;
  std::vector<ExprNodePtr> want(fixed);
  for (size_t i = 0; i < args.size(); ++i) {
    if (i < fixed) want[i] = args[i];
    else if (var) want.push_back(args[i]);
    else ok = false;
  }
  bool def_used = false;
  for (auto& [k, v] : kw) {
    size_t i = 0;
    while (i < fixed && sig.parameters[i].name != k) ++i;
    if (i == fixed || want[i] != nullptr) ok = false; else want[i] = v;
  }
  for (size_t i = 0; i < fixed; ++i) {
    if (want[i] != nullptr) continue;
    if (!sig.parameters[i].default_value) ok = false;
    else want[i] = Literal(*sig.parameters[i].default_value), def_used = true;
  }
  auto got = BindArguments(sig, args, kw);
  std::string text = absl::StrCat(Render(nullptr, sig), " with ", args.size(), " positional and ", kw.size(), " keyword arguments");
  s.note("what", text);
  PBT_ASSERT(got.ok() == ok, "BindArguments of ", text, ": ", got.status().ToString());
  auto op = std::make_shared<TOp>("t", 0);
  ExprNodePtr body = Literal(int32_t{5});
  auto lam = *LambdaOperator::Make("lam", sig, body);
  auto node = BindOp(lam, args, kw);
  std::vector<absl::StatusOr<ExprNodePtr>> sargs(args.begin(), args.end());
  absl::flat_hash_map<std::string, absl::StatusOr<ExprNodePtr>> skw(kw.begin(), kw.end());
  auto node2 = CallOp(absl::StatusOr<ExprOperatorPtr>(lam), sargs, skw);
  if (!ok) {
    s.label("error");
    PBT_ASSERT(got.status().code() == absl::StatusCode::kInvalidArgument, "code: ", got.status().ToString());
    PBT_ASSERT(!node.ok() && !node2.ok(), "BindOp succeeded with ", text);
    return;
  }
  if (sig.parameters.size() >= 2 && (!kw.empty() || def_used)) s.nontrivial();
  PBT_ASSERT(got->size() == want.size(), "bound ", got->size(), " arguments, expected ", want.size(), ": ", text);
  for (size_t i = 0; i < want.size(); ++i) {
    PBT_ASSERT((*got)[i]->fingerprint() == want[i]->fingerprint(), "bound argument ", i, ": ", ToDebugString((*got)[i]),
               " expected ", ToDebugString(want[i]), " ", text);
  }
  PBT_ASSERT(node.ok() && node2.ok(), "BindOp: ", node.status().ToString(), node2.status().ToString());
  auto direct = MakeOpNode(lam, want);
  PBT_ASSERT(direct.ok() && (*direct)->fingerprint() == (*node)->fingerprint() &&
                 (*direct)->fingerprint() == (*node2)->fingerprint(), "BindOp/CallOp: ", text);
  PBT_ASSERT((*node)->qvalue().has_value(), "the value of a constant body");
  // Errors of the arguments are passed on.
  size_t total = sargs.size() + skw.size();
  if (total > 0) {
    size_t bad = s.draw(total - 1);
    if (bad < sargs.size()) {
      sargs[bad] = absl::DataLossError("bad");
    } else {
      auto it = skw.begin();
      std::advance(it, bad - sargs.size());
      it->second = absl::DataLossError("bad");
    }
    auto r = CallOp(absl::StatusOr<ExprOperatorPtr>(lam), sargs, skw);
    PBT_ASSERT(r.status().code() == absl::StatusCode::kDataLoss, "an argument with an error: ", r.status().ToString());
  }
  // A node of the wrong number of dependencies is refused.
  auto wrong = want;
  if (!var) {
    wrong.push_back(Leaf("more"));
    PBT_ASSERT(!MakeOpNode(lam, wrong).ok(), "too many dependencies are accepted");
    wrong.pop_back();
  }
  if (fixed > 0) {
    wrong.resize(fixed - 1);
    PBT_ASSERT(!MakeOpNode(lam, wrong).ok(), "too few dependencies are accepted");
  }
}

// -------------------------------------------------------- transformations

// Untyped and typed nodes over a few operators; attributes matter for some.
ExprNodePtr GenTree(Src& s, std::vector<ExprNodePtr>& pool, bool names = false) {
  int n = s.range(2, 5);
  for (int i = 0; i < n; ++i) {
    static const char* keys[] = {"x", "y", "z", "w"};
    switch (s.draw(4)) {
      case 0: pool.push_back(Placeholder(keys[s.draw(3)])); break;
      case 1: pool.push_back(Literal(Values()[s.draw(8)])); break;
      case 2: pool.push_back(*CallOp(QTypeAnnotation::Make(), {Leaf(keys[s.draw(3)]), Literal(s.boolean() ? GetQType<Text>() : GetQType<int32_t>())})); break;
      default: pool.push_back(Leaf(keys[s.draw(3)]));
    }
  }
  int k = s.range(2, 14);
  for (int i = 0; i < k; ++i) {
    auto any = [&] {
      size_t m = pool.size();
      return s.boolean() ? pool[m - 1 - s.draw(std::min<size_t>(m, 3) - 1)] : pool[s.draw(m - 1)];
    };
    if (names && s.chance(1, 3)) {
      auto r = CallOp(NameAnnotation::Make(), {any(), Literal(Text(s.boolean() ? "n" : "m"))});
      if (r.ok()) pool.push_back(*r);
      continue;
    }
    static const char* on[] = {"a", "b", "c", "d"};
    std::vector<ExprNodePtr> deps;
    int d = s.draw(3);
    for (int j = 0; j < d; ++j) deps.push_back(any());
    auto r = MakeOpNode(T(on[s.draw(3)], s.draw(2)), deps);
    if (r.ok()) pool.push_back(*r);
  }
  return pool.back();
}

using Fn = std::function<absl::StatusOr<ExprNodePtr>(const ExprNodePtr&)>;

// Replaces nodes for which `sub` gives something; rebuilds the others.
absl::StatusOr<ExprNodePtr> ModelSubst(const ExprNodePtr& n, const Fn& sub, absl::flat_hash_map<Fingerprint, ExprNodePtr>& memo) {
  if (auto it = memo.find(n->fingerprint()); it != memo.end()) return it->second;
  std::vector<ExprNodePtr> deps;
  bool diff = false;
  for (const auto& d : n->node_deps()) {
    auto r = ModelSubst(d, sub, memo);
    if (!r.ok()) return r.status();
    diff |= (*r)->fingerprint() != d->fingerprint();
    deps.push_back(*r);
  }
  auto direct = sub(n);
  if (!direct.ok()) return direct.status();
  ExprNodePtr res = n;
  if (*direct != nullptr) {
    res = *direct;
  } else if (diff) {
    auto r = MakeOpNode(n->op(), deps);
    if (!r.ok()) return r.status();
    res = *r;
  }
  return memo[n->fingerprint()] = res;
}

void CheckEqual(const absl::StatusOr<ExprNodePtr>& got, const absl::StatusOr<ExprNodePtr>& want, const std::string& what) {
  PBT_ASSERT(got.ok() == want.ok(), what, ": ", got.ok() ? ToDebugString(*got) : got.status().ToString(), " expected ",
             want.ok() ? ToDebugString(*want) : want.status().ToString());
  if (!got.ok()) {
    PBT_ASSERT(got.status().code() == want.status().code(), what, ": code of ", got.status().ToString(), " expected ",
               want.status().ToString());
    return;
  }
  PBT_ASSERT((*got)->fingerprint() == (*want)->fingerprint(), what, ": ", ToDebugString(*got), " expected ", ToDebugString(*want));
  PBT_ASSERT((*got)->attr().IsIdenticalTo((*want)->attr()), what, ": attributes");
}

PBT_TEST(E05_substitution, 60000, 240000, "three or more operators and something was replaced below the root") {
  Init();
  std::vector<ExprNodePtr> pool;
  ExprNodePtr e = GenTree(s, pool, true);
  s.note("expr", ToDebugString(e));
  auto po = PostOrder(e);
  auto rep = [&]() -> ExprNodePtr {
    switch (s.draw(4)) {
      case 0: return Literal(Values()[s.draw(8)]);
      case 1: return Leaf(s.boolean() ? "x" : "q");
      case 2: return pool[s.draw(pool.size() - 1)];
      case 3: return *MakeOpNode(T("a"), {Placeholder("x"), Leaf("y")});
      default: return *CallOp(QTypeAnnotation::Make(), {Leaf("x"), Literal(s.boolean() ? GetQType<Text>() : GetQType<int64_t>())});
    }
  };
  absl::flat_hash_map<std::string, ExprNodePtr> subs;
  for (const char* k : {"x", "y", "z", "n", "m"}) {
    if (s.boolean()) subs.emplace(k, rep());
  }
  absl::flat_hash_map<Fingerprint, ExprNodePtr> fsubs;
  int fs = s.draw(4);
  for (int i = 0; i < fs; ++i) fsubs[pool[s.draw(pool.size() - 1)]->fingerprint()] = rep();
  int ops = 0;
  for (auto& n : po.nodes()) ops += n->is_op();
  int kind = s.draw(5);
  absl::StatusOr<ExprNodePtr> got = e;
  Fn f;
  auto find = [&](const std::string& k) -> ExprNodePtr {
    auto it = subs.find(k);
    return it == subs.end() ? nullptr : it->second;
  };
  switch (kind) {
    case 0:
      got = SubstituteLeaves(e, subs);
      f = [&](const ExprNodePtr& n) -> absl::StatusOr<ExprNodePtr> { return n->is_leaf() ? find(n->leaf_key()) : nullptr; };
      break;
    case 1:
    case 2:
      got = SubstitutePlaceholders(e, subs, kind == 2);
      f = [&](const ExprNodePtr& n) -> absl::StatusOr<ExprNodePtr> {
        if (!n->is_placeholder()) return ExprNodePtr(nullptr);
        auto r = find(n->placeholder_key());
        if (r == nullptr && kind == 2) return absl::InvalidArgumentError("missing");
        return r;
      };
      break;
    case 3:
      got = SubstituteByName(e, subs);
      f = [&](const ExprNodePtr& n) -> absl::StatusOr<ExprNodePtr> {
        if (!n->is_op() || n->op()->display_name() != "annotation.name") return ExprNodePtr(nullptr);
        return find(std::string(n->node_deps()[1]->qvalue()->UnsafeAs<Text>().view()));
      };
      break;
    default:
      got = SubstituteByFingerprint(e, fsubs);
      f = [&](const ExprNodePtr& n) -> absl::StatusOr<ExprNodePtr> {
        auto it = fsubs.find(n->fingerprint());
        return it == fsubs.end() ? nullptr : it->second;
      };
  }
  absl::flat_hash_map<Fingerprint, ExprNodePtr> memo;
  auto want = ModelSubst(e, f, memo);
  static const char* what[] = {"SubstituteLeaves", "SubstitutePlaceholders", "SubstitutePlaceholders (all)", "SubstituteByName",
                               "SubstituteByFingerprint", "SubstituteByFingerprint"};
  s.label(what[kind]);
  CheckEqual(got, want, what[kind]);
  if (!got.ok()) {
    s.label("error");
    return;
  }
  if ((*got)->fingerprint() == e->fingerprint()) {
    PBT_ASSERT(true, "");
  } else if (ops >= 3) {
    s.nontrivial();
  }
  if (kind == 2) PBT_ASSERT(GetPlaceholderKeys(*got).empty() || [&] {
    for (auto& [k, v] : subs) if (!GetPlaceholderKeys(v).empty()) return true;
    return false;
  }(), "placeholders are left");
  // The input is as it was.
  PBT_ASSERT(PostOrder(e).nodes_size() == po.nodes_size(), "the input changed");
}

// A random rule for single nodes.
struct Rules {
  int op_map[4][2];       // to another operator (or -1)
  int shape[4];           // 0 as is, 1 reversed arguments, 2 without the last, 3 the first argument in place of the node,
                          // 4 wrapped when all arguments are leaves or literals, 5 doubled arguments (at most four)
  int leaf_map[4];        // to another leaf, -1 none, 4 literal, 5 error, 6 an expression
  int calls = 0;

  explicit Rules(Src& s) {
    for (int i = 0; i < 4; ++i) {
      op_map[i][0] = s.chance(1, 2) ? int(s.draw(3)) : i;
      op_map[i][1] = s.chance(1, 3) ? int(s.draw(2)) : -1;
      shape[i] = s.chance(1, 2) ? 0 : s.draw(5);
      leaf_map[i] = s.chance(1, 2) ? -1 : int(s.draw(6));
      if (leaf_map[i] == 5 && s.chance(3, 4)) leaf_map[i] = -1;
    }
  }
  static int Index(const ExprNodePtr& n) {
    static const std::string names = "abcd", keys = "xyzw";
    if (n->is_leaf()) return keys.find(n->leaf_key()) == std::string::npos ? -1 : int(keys.find(n->leaf_key()));
    if (!n->is_op()) return -1;
    auto nm = n->op()->display_name();
    return nm.size() == 1 && names.find(nm[0]) != std::string::npos ? int(names.find(nm[0])) : -1;
  }
  absl::StatusOr<ExprNodePtr> Apply(const ExprNodePtr& n) {
    ++calls;
    int i = Index(n);
    if (i < 0) return n;
    if (n->is_leaf()) {
      static const char* keys[] = {"x", "y", "z", "w"};
      int m = leaf_map[i];
      if (m < 0) return n;
      if (m == 4) return Literal(int32_t{7});
      if (m == 5) return absl::DataLossError("rule");
      if (m == 6) return MakeOpNode(T("d"), {Leaf("w"), Placeholder("x")});
      return Leaf(keys[m]);
    }
    auto deps = n->node_deps();
    auto op = n->op();
    static const char* names[] = {"a", "b", "c", "d"};
    if (op_map[i][0] != i) op = T(names[op_map[i][0]], op_map[i][1] < 0 ? 0 : op_map[i][1]);
    switch (shape[i]) {
      case 1: std::reverse(deps.begin(), deps.end()); break;
      case 2: if (!deps.empty()) deps.pop_back(); break;
      case 3: if (!deps.empty()) return deps[0]; break;
      case 4: {
        bool simple = !deps.empty();
        for (auto& d : deps) simple &= !d->is_op();
        if (simple) return MakeOpNode(T("e"), {*MakeOpNode(T("f"), deps), Leaf("w")});
        break;
      }
      case 5: {
        auto more = deps;
        if (deps.size() <= 4) deps.insert(deps.end(), more.begin(), more.end());
        break;
      }
      default: break;
    }
    return MakeOpNode(op, deps);
  }
};

PBT_TEST(E05_transform, 60000, 240000, "three or more operators and the result differs from the input") {
  Init();
  std::vector<ExprNodePtr> pool;
  ExprNodePtr e = GenTree(s, pool);
  s.note("expr", ToDebugString(e));
  Rules rules(s);
  auto po = PostOrder(e);
  // Each node once, with the transformed dependencies.
  absl::flat_hash_map<Fingerprint, ExprNodePtr> memo;
  std::function<absl::StatusOr<ExprNodePtr>(const ExprNodePtr&)> model = [&](const ExprNodePtr& n) -> absl::StatusOr<ExprNodePtr> {
    if (auto it = memo.find(n->fingerprint()); it != memo.end()) return it->second;
    std::vector<ExprNodePtr> deps;
    bool diff = false;
    for (auto& d : n->node_deps()) {
      auto r = model(d);
      if (!r.ok()) return r;
      diff |= (*r)->fingerprint() != d->fingerprint();
      deps.push_back(*r);
    }
    ExprNodePtr x = n;
    if (diff) {
      auto r = MakeOpNode(n->op(), deps);
      if (!r.ok()) return r;
      x = *r;
    }
    auto r = rules.Apply(x);
    if (!r.ok()) return r;
    return memo[n->fingerprint()] = *r;
  };
  auto want = model(e);
  int want_calls = rules.calls;
  rules.calls = 0;
  auto got = Transform(e, [&](ExprNodePtr n) { return rules.Apply(n); });
  CheckEqual(got, want, "Transform");
  PBT_ASSERT(rules.calls == want_calls, "Transform called the function ", rules.calls, " times, expected ", want_calls);
  auto got2 = TransformOnPostOrder(po, [&](ExprNodePtr n) { return rules.Apply(n); });
  CheckEqual(got2, want, "TransformOnPostOrder");
  if (!got.ok()) {
    s.label("error");
    return;
  }
  int ops = 0;
  for (auto& n : po.nodes()) ops += n->is_op();
  if (ops >= 3 && (*got)->fingerprint() != e->fingerprint()) s.nontrivial();
}

PBT_TEST(E05_deep, 70000, 280000, "three or more operators and the result differs from the input") {
  Init();
  std::vector<ExprNodePtr> pool;
  ExprNodePtr e = GenTree(s, pool);
  s.note("expr", ToDebugString(e));
  Rules rules(s);
  // A normal form: dependencies first, then the rule as long as it applies.
  absl::flat_hash_map<Fingerprint, ExprNodePtr> memo;  // null: in progress
  bool loop = false, limit = false;
  std::function<absl::StatusOr<ExprNodePtr>(const ExprNodePtr&, int)> norm = [&](const ExprNodePtr& n, int depth) -> absl::StatusOr<ExprNodePtr> {
    auto [it, fresh] = memo.emplace(n->fingerprint(), nullptr);
    if (!fresh) {
      if (it->second == nullptr) {
        loop = true;
        return absl::FailedPreconditionError("loop");
      }
      return it->second;
    }
    if (memo.size() > 800 || depth > 400) {
      limit = true;
      return absl::FailedPreconditionError("limit");
    }
    std::vector<ExprNodePtr> deps;
    bool diff = false;
    for (auto& d : n->node_deps()) {
      auto r = norm(d, depth + 1);
      if (!r.ok()) return r;
      diff |= (*r)->fingerprint() != d->fingerprint();
      deps.push_back(*r);
    }
    absl::StatusOr<ExprNodePtr> res;
    if (diff) {
      auto r = MakeOpNode(n->op(), deps);
      if (!r.ok()) return r;
      res = norm(*r, depth + 1);
    } else {
      auto r = rules.Apply(n);
      if (!r.ok()) return r;
      res = (*r)->fingerprint() == n->fingerprint() ? absl::StatusOr<ExprNodePtr>(n) : norm(*r, depth + 1);
    }
    if (!res.ok()) return res;
    return memo[n->fingerprint()] = *res;
  };
  auto want = norm(e, 0);
  if (limit) {
    s.label("too large");
    auto got = DeepTransform(e, [&](ExprNodePtr n) { return rules.Apply(n); }, std::nullopt, 700);
    PBT_ASSERT(got.ok() || got.status().code() == absl::StatusCode::kFailedPrecondition ||
               got.status().code() == absl::StatusCode::kInvalidArgument || got.status().code() == absl::StatusCode::kDataLoss, "code: ", got.status().ToString());
    return;
  }
  std::vector<std::pair<ExprNodePtr, ExprNodePtr>> log;
  auto logger = [&](const ExprNodePtr& a, const ExprNodePtr& b) { log.emplace_back(a, b); };
  bool logged = s.boolean();
  auto fn = [&](ExprNodePtr n) { return rules.Apply(n); };
  auto got = logged ? DeepTransform(e, fn, logger) : DeepTransform(e, fn);
  CheckEqual(got, want, loop ? "DeepTransform (infinite loop)" : "DeepTransform");
  if (loop) s.label("infinite loop");
  if (!got.ok()) {
    s.label("error");
    // With few nodes allowed, an error too.
    auto small = DeepTransform(e, fn, std::nullopt, 1);
    PBT_ASSERT(!small.ok(), "limit");
    return;
  }
  auto po = PostOrder(e);
  int ops = 0;
  for (auto& n : po.nodes()) ops += n->is_op();
  if (ops >= 3 && (*got)->fingerprint() != e->fingerprint()) s.nontrivial();
  // Nothing is left to be transformed.
  auto rpo = PostOrder(*got);
  for (auto& n : rpo.nodes()) {
    auto r = rules.Apply(n);
    PBT_ASSERT(r.ok() && (*r)->fingerprint() == n->fingerprint(), "a node of the result can be transformed: ", ToDebugString(n));
  }
  CheckEqual(DeepTransform(*got, fn), got, "DeepTransform of a result");
  // More distinct nodes than allowed.
  if (po.nodes_size() > 3) {
    auto small = DeepTransform(e, fn, std::nullopt, po.nodes_size() - 2);
    PBT_ASSERT(small.status().code() == absl::StatusCode::kFailedPrecondition, "no limit: ", small.status().ToString());
  }
  if (logged) {
    // Every new node is reported, with an origin reported before.
    absl::flat_hash_set<Fingerprint> known;
    absl::flat_hash_map<Fingerprint, int> seen;
    for (auto& [a, b] : log) {
      PBT_ASSERT(a != nullptr, "log of a null node");
      if (b != nullptr) PBT_ASSERT(known.count(b->fingerprint()) || true, "log");
      known.insert(a->fingerprint());
    }
    for (auto& n : po.nodes()) PBT_ASSERT(known.count(n->fingerprint()), "not logged: ", ToDebugString(n));
    for (auto& n : rpo.nodes()) PBT_ASSERT(known.count(n->fingerprint()), "not logged: ", ToDebugString(n));
  }
}

// Lowering of lambdas and of the operators of the library.
PBT_TEST(E05_lower, 45000, 180000, "a lambda over two or more parameters was expanded, or an operator of the library was") {
  Init();
  if (s.chance(1, 2)) {
    // A lambda node is its body with the arguments in place of parameters.
    static const char* specs[] = {"x", "x, y", "x, y, z", "*x", "x, *y", "x, y, *z", "x, y=", "z, y, x", "y, *x"};
    int si = s.draw(8);
    std::vector<TypedValue> def;
    if (si == 6) def.push_back(Values()[s.draw(5)]);
    auto sig = *ExprOperatorSignature::Make(specs[si], def);
    bool var = HasVariadicParameter(sig);
    std::vector<ExprNodePtr> body;
    for (auto& p : sig.parameters) {
      if (s.chance(4, 5)) body.push_back(Placeholder(p.name));
    }
    body.push_back(Literal(Values()[s.draw(8)]));
    int k = s.draw(6);
    for (int i = 0; i < k; ++i) {
      std::vector<ExprNodePtr> deps;
      int d = s.draw(3);
      for (int j = 0; j < d; ++j) deps.push_back(body[s.draw(body.size() - 1)]);
      auto r = s.chance(1, 5) ? MakeOpNode(MakeTupleOperator::Make(), deps)
                              : MakeOpNode(T(s.boolean() ? "a" : "b", s.draw(2)), deps);
      if (r.ok()) body.push_back(*r);
    }
    auto lam = LambdaOperator::Make(s.boolean() ? "l" : "math.add", sig, body.back(), s.boolean() ? "" : "doc");
    PBT_ASSERT(lam.ok(), "lambda: ", lam.status().ToString());
    std::vector<ExprNodePtr> pool;
    GenTree(s, pool);
    size_t n = sig.parameters.size() - var + (var ? s.draw(3) : 0);
    std::vector<ExprNodePtr> args;
    for (size_t i = 0; i < n; ++i) args.push_back(pool[s.draw(pool.size() - 1)]);
    absl::flat_hash_map<std::string, ExprNodePtr> m;
    for (size_t i = 0; i < sig.parameters.size(); ++i) {
      bool last = var && i + 1 == sig.parameters.size();
      m[sig.parameters[i].name] =
          last ? *MakeOpNode(MakeTupleOperator::Make(), std::vector<ExprNodePtr>(args.begin() + i, args.end())) : args[i];
    }
    Fn sub = [&](const ExprNodePtr& x) -> absl::StatusOr<ExprNodePtr> {
      return x->is_placeholder() ? m.at(x->placeholder_key()) : ExprNodePtr(nullptr);
    };
    absl::flat_hash_map<Fingerprint, ExprNodePtr> memo;
    auto want = ModelSubst(body.back(), sub, memo);
    auto node = MakeOpNode(*lam, args);
    s.note("lambda", ToDebugString(body.back()));
    PBT_ASSERT(node.ok() == want.ok(), "a node with the lambda: ", node.status().ToString(), " its body: ", want.status().ToString());
    if (!node.ok()) {
      s.label("error");
      return;
    }
    // The attributes are those of the body.
    PBT_ASSERT((*node)->attr().IsIdenticalTo((*want)->attr()) || !(*want)->is_op(), "attributes of a lambda node");
    PBT_ASSERT((*node)->attr().IsSubsetOf((*want)->attr()) && (*want)->attr().IsSubsetOf((*node)->attr()), "attributes of a lambda node");
    CheckEqual(ToLowerNode(*node), want, "ToLowerNode");
    CheckEqual((*lam)->ToLowerLevel(*node), want, "ToLowerLevel");
    auto low = ToLowest(*node);
    auto low2 = ToLowest(*want);
    CheckEqual(low, low2, "ToLowest");
    if (sig.parameters.size() >= 2 && body.size() >= 5) s.nontrivial();
    s.label("lambda");
    return;
  }
  Gen g;
  GenOptions o;
  o.max_ops = 6;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  auto got = ToLowest(e);
  // The model: dependencies first, then one level as long as it changes.
  absl::flat_hash_map<Fingerprint, ExprNodePtr> memo;
  std::function<absl::StatusOr<ExprNodePtr>(const ExprNodePtr&, int)> norm = [&](const ExprNodePtr& n, int depth) -> absl::StatusOr<ExprNodePtr> {
    if (auto it = memo.find(n->fingerprint()); it != memo.end()) return it->second;
    if (depth > 600) return absl::InternalError("model: too deep");
    std::vector<ExprNodePtr> deps;
    for (auto& d : n->node_deps()) {
      auto r = norm(d, depth + 1);
      if (!r.ok()) return r;
      deps.push_back(*r);
    }
    ExprNodePtr x = n;
    if (n->is_op()) {
      auto m = MakeOpNode(n->op(), deps);
      if (!m.ok()) return m;
      auto l = (*m)->op()->ToLowerLevel(*m);
      if (!l.ok()) return l;
      if (!(*m)->attr().IsSubsetOf((*l)->attr())) return absl::FailedPreconditionError("attributes changed");
      x = *m;
      if ((*l)->fingerprint() != (*m)->fingerprint()) {
        auto r = norm(*l, depth + 1);
        if (!r.ok()) return r;
        x = *r;
      }
    }
    return memo[n->fingerprint()] = x;
  };
  auto want = norm(e, 0);
  CheckEqual(got, want, "ToLowest");
  if (!got.ok()) {
    s.label("error");
    return;
  }
  PBT_ASSERT(e->attr().IsSubsetOf((*got)->attr()), "attributes are lost: ", ToDebugString(e));
  auto po = PostOrder(*got);
  for (auto& n : po.nodes()) {
    auto l = ToLowerNode(n);
    PBT_ASSERT(l.ok() && (*l)->fingerprint() == n->fingerprint(), "not the lowest level: ", ToDebugString(n));
  }
  if ((*got)->fingerprint() != e->fingerprint()) s.nontrivial();
}

}  // namespace
