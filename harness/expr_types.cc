// E07 implicit casts, E08 inference of attributes, E09 independence of the
// representation of values.
#include "arrays.h"
#include "expr.h"

#include "absl/container/flat_hash_map.h"
#include "arolla/expr/expr_attributes.h"
#include "arolla/expr/operators/casting_registry.h"
#include "arolla/expr/qtype_utils.h"
#include "arolla/expr/visitors/substitution.h"
#include "arolla/memory/frame.h"
#include "arolla/qtype/dict/dict_types.h"
#include "arolla/qtype/standard_type_properties/common_qtype.h"
#include "arolla/qtype/standard_type_properties/properties.h"

namespace {
using namespace xp;  // NOLINT

// ------------------------------------------------------------ E07: the types

enum Sc { kBool, kI32, kI64, kU64, kF32, kF64, kWeak, kText, kBytes, kUnitT, kScCount };
enum Sh { kNone, kOpt, kDA, kAr, kShCount };

QTypePtr TypeOf(int sc, int sh) {
  static const auto* table = [] {
    auto* t = new std::vector<std::vector<QTypePtr>>;
    auto add = [&](auto* p) {
      using T = std::remove_pointer_t<decltype(p)>;
      t->push_back({GetQType<T>(), GetOptionalQType<T>(), GetDenseArrayQType<T>(), GetArrayQType<T>()});
    };
    add((bool*)nullptr), add((int32_t*)nullptr), add((int64_t*)nullptr), add((uint64_t*)nullptr);
    add((float*)nullptr), add((double*)nullptr);
    t->push_back({GetWeakFloatQType(), GetOptionalWeakFloatQType(), GetDenseArrayWeakFloatQType(), GetArrayWeakFloatQType()});
    add((Text*)nullptr), add((Bytes*)nullptr), add((Unit*)nullptr);
    return t;
  }();
  return (*table)[sc][sh];
}

// Types that take no part in casting.
const std::vector<QTypePtr>& OtherTypes() {
  static const auto* v = new std::vector<QTypePtr>{
      GetQTypeQType(), GetUnspecifiedQType(), MakeTupleQType({}), MakeTupleQType({GetQType<int32_t>()}),
      GetQType<DenseArrayEdge>(), GetQType<ScalarShape>(), GetQType<DenseArrayShape>(), GetSequenceQType<int32_t>(),
      GetKeyToRowDictQType<int64_t>(), *GetDictQType(GetQType<int64_t>(), GetQType<float>()), GetQType<ExprOperatorPtr>()};
  return *v;
}

struct Ty {
  int sc = -1, sh = -1;  // -1: not a standard type
  QTypePtr q = nullptr;
};

Ty GenTy(Src& s) {
  if (s.chance(1, 10)) {
    size_t i = s.draw(OtherTypes().size());
    return {-1, -1, i == OtherTypes().size() ? nullptr : OtherTypes()[i]};
  }
  int sc = s.chance(2, 3) ? s.pick({int(kI32), int(kI64), int(kF32), int(kF64), int(kWeak)}) : int(s.draw(kScCount - 1));
  int sh = s.draw(kShCount - 1);
  return {sc, sh, TypeOf(sc, sh)};
}

// The least type both are cast to; -1 if none.
int JoinSc(int a, int b) {
  if (a == b) return a;
  auto rank = [](int x) { return x == kI32 ? 0 : x == kI64 ? 1 : (x == kF32 || x == kWeak) ? 2 : x == kF64 ? 3 : -1; };
  int r = std::max(rank(a), rank(b));
  if (rank(a) < 0 || rank(b) < 0) return -1;
  return r == 3 ? kF64 : r == 2 ? kF32 : kI64;
}
int JoinSh(int a, int b, bool broadcast) {
  if (a == b) return a;
  if (!broadcast && (a >= kDA || b >= kDA)) return -1;
  if (a >= kDA && b >= kDA) return -1;
  return std::max(a, b);
}
QTypePtr Join(const Ty& a, const Ty& b, bool broadcast, Ty* out = nullptr) {
  Ty r;
  if (a.q == nullptr || b.q == nullptr) {
  } else if (a.q == b.q) {
    r = a;
  } else if (a.sc >= 0 && b.sc >= 0) {
    int sc = JoinSc(a.sc, b.sc), sh = JoinSh(a.sh, b.sh, broadcast);
    if (sc >= 0 && sh >= 0) r = {sc, sh, TypeOf(sc, sh)};
  }
  if (out) *out = r;
  return r.q;
}

std::string Nm(QTypePtr q) { return q ? std::string(q->name()) : "null"; }

PBT_TEST(E07_common, 120000, 600000, "three or more different castable types with a common one") {
  Init();
  int n = s.range(1, 5);
  std::vector<Ty> ts;
  std::vector<QTypePtr> qs;
  std::string text;
  Ty first = GenTy(s);
  for (int i = 0; i < n; ++i) {
    Ty t = i == 0 ? first : GenTy(s);
    if (i && s.boolean() && first.sh >= 0 && t.sh >= 0) t = {t.sc, first.sh, TypeOf(t.sc, first.sh)};
    ts.push_back(t);
    qs.push_back(t.q);
    text += Nm(t.q) + " ";
  }
  bool bc = s.boolean();
  Ty want = ts[0];
  for (int i = 1; i < n; ++i) {
    Ty r;
    Join(want, ts[i], bc, &r);
    want = r;
  }
  s.note("types", text);
  PBT_ASSERT(CommonQType(qs, bc) == want.q, "common type of ", text, "(broadcasting ", bc, "): ", Nm(CommonQType(qs, bc)),
             " expected ", Nm(want.q));
  std::set<QTypePtr> dist(qs.begin(), qs.end());
  if (want.sc >= 0 && dist.size() >= 3) s.nontrivial();
  if (want.q == nullptr) s.label("none");
  // The order of the types does not matter.
  auto rev = qs;
  for (size_t i = rev.size(); i > 1; --i) std::swap(rev[i - 1], rev[s.draw(i - 1)]);
  PBT_ASSERT(CommonQType(rev, bc) == want.q, "common type of permuted ", text, ": ", Nm(CommonQType(rev, bc)));
  // Everything is cast to the common type, and it is the least such type.
  for (auto q : qs) PBT_ASSERT(CanCastImplicitly(q, want.q, bc) == (want.q != nullptr), "cast of ", Nm(q), " to the common type");
  Ty other = GenTy(s);
  bool all = other.q != nullptr;
  for (auto& t : ts) {
    bool can = Join(t, other, bc) == other.q && other.q != nullptr;
    PBT_ASSERT(CanCastImplicitly(t.q, other.q, bc) == can, "implicit cast of ", Nm(t.q), " to ", Nm(other.q), " ", bc);
    all = all && can;
  }
  if (all) PBT_ASSERT(want.q != nullptr && CanCastImplicitly(want.q, other.q, bc), "the common type is not the least: ", text);
  PBT_ASSERT(CommonQType(absl::Span<const QTypePtr>{}, bc) == nullptr, "common type of nothing");
  bool has_null = false;
  for (auto q : qs) has_null |= q == nullptr;
  if (!has_null) {
    auto ct = expr_operators::CastingRegistry::GetInstance()->CommonType(qs, bc);
    PBT_ASSERT(ct.ok() == (want.q != nullptr) && (!ct.ok() || *ct == want.q), "CommonType of ", text, ": ", ct.status().ToString());
  }
  // Broadcasting to the shapes of others.
  Ty src = GenTy(s);
  int sh = src.sh;
  for (auto& t : ts) sh = sh < 0 || t.sh < 0 ? -1 : JoinSh(sh, t.sh, true);
  QTypePtr bq = sh < 0 || src.sc < 0 ? nullptr : TypeOf(src.sc, sh);
  PBT_ASSERT(BroadcastQType(qs, src.q) == bq, "BroadcastQType of ", Nm(src.q), " to ", text, ": ", Nm(BroadcastQType(qs, src.q)),
             " expected ", Nm(bq));
}

PBT_TEST(E07_properties, 16000, 40000, "a castable type") {
  Init();
  Ty t = GenTy(s), u = GenTy(s);
  if (t.q == nullptr) {
    PBT_ASSERT(GetScalarQTypeOrNull(nullptr) == nullptr && GetShapeQTypeOrNull(nullptr) == nullptr && !IsOptionalLikeQType(nullptr), "null");
    return;
  }
  static const QTypePtr shapes[] = {GetQType<ScalarShape>(), GetQType<OptionalScalarShape>(), GetQType<DenseArrayShape>(), GetQType<ArrayShape>()};
  static const QTypePtr presence[] = {GetQType<Unit>(), GetOptionalQType<Unit>(), GetDenseArrayQType<Unit>(), GetArrayQType<Unit>()};
  if (t.sc < 0) {
    PBT_ASSERT(!IsOptionalLikeQType(t.q) && !ToOptionalLikeQType(t.q).ok() && !GetPresenceQType(t.q).ok() && !GetShapeQType(t.q).ok(),
               "properties of ", Nm(t.q));
    if (u.q) PBT_ASSERT(!WithScalarQType(t.q, u.q).ok(), "WithScalarQType of ", Nm(t.q));
    return;
  }
  s.nontrivial();
  PBT_ASSERT(GetScalarQTypeOrNull(t.q) == TypeOf(t.sc, kNone), "scalar of ", Nm(t.q));
  auto sc = GetScalarQType(t.q);
  PBT_ASSERT(sc.ok() && *sc == TypeOf(t.sc, kNone), "scalar of ", Nm(t.q));
  PBT_ASSERT(GetShapeQTypeOrNull(t.q) == shapes[t.sh], "shape of ", Nm(t.q));
  PBT_ASSERT(DecayContainerQType(t.q) == TypeOf(t.sc, kNone), "decay of ", Nm(t.q));
  auto pr = GetPresenceQType(t.q);
  PBT_ASSERT(pr.ok() && *pr == presence[t.sh], "presence of ", Nm(t.q), pr.ok() ? Nm(*pr) : "");
  PBT_ASSERT(IsOptionalLikeQType(t.q) == (t.sh != kNone), "optional-like ", Nm(t.q));
  auto ol = ToOptionalLikeQType(t.q);
  PBT_ASSERT(ol.ok() && *ol == TypeOf(t.sc, t.sh == kNone ? int(kOpt) : t.sh), "optional-like type of ", Nm(t.q));
  PBT_ASSERT(IsOptionalQType(t.q) == (t.sh == kOpt) && IsArrayLikeQType(t.q) == (t.sh >= kDA) && IsScalarQType(t.q) == (t.sh == kNone) &&
                 IsDenseArrayQType(t.q) == (t.sh == kDA) && IsArrayQType(t.q) == (t.sh == kAr), "predicates of ", Nm(t.q));
  if (u.q) {
    auto w = WithScalarQType(t.q, u.q);
    bool ok = u.sc >= 0 ? u.sh == kNone : IsScalarQType(u.q);
    if (u.sc >= 0) {
      PBT_ASSERT(w.ok() == ok && (!ok || *w == TypeOf(u.sc, t.sh)), "WithScalarQType of ", Nm(t.q), " and ", Nm(u.q));
    }
  }
}

// A value of the type with the given numbers (nullopt: missing).
TypedValue MakeNums(int sc, int sh, const std::vector<std::optional<double>>& v) {
  std::optional<TypedValue> r;
  auto go = [&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    std::vector<OptionalValue<T>> o;
    for (auto& x : v) o.push_back(x ? OptionalValue<T>(static_cast<T>(*x)) : OptionalValue<T>());
    QTypePtr q = TypeOf(sc, sh);
    if (sh == kNone) r = *TypedValue::FromValueWithQType(o[0].value, q);
    if (sh == kOpt) r = *TypedValue::FromValueWithQType(o[0], q);
    if (sh == kDA) r = *TypedValue::FromValueWithQType(CreateDenseArray<T>(o), q);
    if (sh == kAr) r = *TypedValue::FromValueWithQType(CreateArray<T>(o), q);
  };
  switch (sc) {
    case kBool: go((bool*)nullptr); break;
    case kI32: go((int32_t*)nullptr); break;
    case kI64: go((int64_t*)nullptr); break;
    case kU64: go((uint64_t*)nullptr); break;
    case kF32: go((float*)nullptr); break;
    default: go((double*)nullptr);
  }
  return *r;
}

PBT_TEST(E07_cast, 48000, 240000, "the cast changed the type of the elements or the container") {
  Init();
  int from_sc = s.draw(kWeak), from_sh = s.draw(kShCount - 1);
  int to_sc = s.draw(kWeak), to_sh = s.boolean() ? from_sh : int(s.draw(kShCount - 1));
  QTypePtr from = TypeOf(from_sc, from_sh), to = TypeOf(to_sc, to_sh);
  bool implicit = s.boolean(), shaped = s.chance(1, 2);
  size_t n = from_sh >= kDA ? s.draw(5) : 1;
  size_t out_n = from_sh >= kDA ? n : to_sh >= kDA ? s.draw(4) : 1;
  std::vector<std::optional<double>> v(n);
  for (auto& x : v) {
    if (from_sh != kNone && s.chance(1, 4)) continue;
    int hi = from_sc == kBool ? 1 : 100;
    x = double(s.range(from_sc == kBool || from_sc == kU64 || to_sc == kU64 ? 0 : -hi, hi));
  }
  TypedValue val = MakeNums(from_sc, from_sh, v);
  bool lit = s.boolean();
  ExprNodePtr node = lit ? Literal(val) : *CallOp(QTypeAnnotation::Make(), {Leaf("x"), Literal(from)});
  std::optional<ExprNodePtr> shape;
  if (shaped) {
    auto sv = to_sh == kAr ? TypedValue::FromValue(ArrayShape{int64_t(out_n)}) : TypedValue::FromValue(DenseArrayShape{int64_t(out_n)});
    shape = Literal(sv);
  }
  auto got = expr_operators::CastingRegistry::GetInstance()->GetCast(node, to, implicit, shape);
  std::string text = absl::StrCat(from->name(), " to ", to->name(), implicit ? " implicitly" : "", shaped ? " with a shape" : "");
  s.note("cast", text, " of ", val.Repr());
  bool can_implicit = Join({from_sc, from_sh, from}, {to_sc, to_sh, to}, shaped) == to;
  if (implicit) {
    PBT_ASSERT(got.ok() == can_implicit, "cast of ", text, ": ", got.status().ToString());
  } else if (can_implicit) {
    PBT_ASSERT(got.ok(), "explicit cast of ", text, ": ", got.status().ToString());
  }
  if (!got.ok()) {
    s.label("error");
    return;
  }
  PBT_ASSERT((*got)->qtype() == to, "cast of ", text, " has the type ", Nm((*got)->qtype()));
  auto r = Invoke(*got, {{"x", val}});
  PBT_ASSERT(r.ok(), "evaluation of the cast of ", text, " ", val.Repr(), ": ", r.status().ToString());
  std::vector<std::optional<double>> want = v;
  if (from_sh < kDA && to_sh >= kDA) want.assign(out_n, v[0]);
  for (auto& x : want) {
    if (x && to_sc == kBool) x = *x != 0;
  }
  auto wv = MakeNums(to_sc, to_sh, want);
  PBT_ASSERT(r->GetType() == to, "type of the result of the cast of ", text);
  // weak floats are compared as arrays of doubles
  PBT_ASSERT(Same(r->AsRef(), wv.AsRef()) || r->Repr() == wv.Repr(), "cast of ", text, ": ", r->Repr(), " expected ", wv.Repr());
  if (from != to) s.nontrivial();
  s.label(implicit ? "implicit" : "explicit");
}

// ------------------------------------------------------- E08: attributes

// Types inferred with a part of the information agree with those inferred
// with all of it.
PBT_TEST(E08_partial, 40000, 200000, "three or more operators, a leaf lost its type and a node has a smaller attribute than before") {
  Init();
  Gen g;
  GenOptions o;
  o.max_ops = 8;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  absl::flat_hash_map<Fingerprint, ExprNodePtr> subs;
  absl::flat_hash_map<std::string, QTypePtr> lost;
  for (const auto& [key, value] : g.leaves) {
    if (!s.chance(2, 3)) continue;
    subs.emplace(g.Typed(key, value.GetType())->fingerprint(), Leaf(key));
    lost.emplace(key, value.GetType());
  }
  // Also, values that become types only.
  auto po0 = PostOrder(e);
  int lit = 0;
  for (auto& n : po0.nodes()) {
    if (n->is_literal() && n->qtype() != GetQType<Text>() && n->qtype() != GetQTypeQType() && s.chance(1, 12) && lit < 1 && lost.empty()) {
      std::string key = absl::StrCat("lit", lit++);
      auto typed = *CallOp(QTypeAnnotation::Make(), {Leaf(key), Literal(n->qtype())});
      subs.emplace(n->fingerprint(), typed);
    }
  }
  auto e2 = SubstituteByFingerprint(e, subs);
  if (lit > 0) {
    // Some operators need values, not only types.
    s.label("value to type");
    if (e2.ok()) PBT_ASSERT((*e2)->attr().IsSubsetOf(e->attr()), "without a value: ", ToDebugString(*e2), " has ", absl::StrCat((*e2)->attr()), " with it ", absl::StrCat(e->attr()));
    return;
  }
  PBT_ASSERT(e2.ok(), "inference fails without the types of some leaves: ", e2.status().ToString());
  PBT_ASSERT((*e2)->attr().IsSubsetOf(e->attr()), "attributes without the types of some leaves: ", absl::StrCat((*e2)->attr()),
             ", with them ", absl::StrCat(e->attr()), " in ", ToDebugString(e));
  bool smaller = !(*e2)->attr().IsIdenticalTo(e->attr());
  if (!lost.empty() && g.ops >= 3 && smaller) s.nontrivial();
  // Populated again.
  auto back = PopulateQTypes(*e2, lost);
  PBT_ASSERT(back.ok(), "PopulateQTypes: ", back.status().ToString());
  if (back.ok()) {
    PBT_ASSERT((*back)->attr().IsIdenticalTo(e->attr()), "attributes after PopulateQTypes: ", absl::StrCat((*back)->attr()), " expected ", absl::StrCat(e->attr()));
  }
}

// The value of an attribute is what evaluation gives.
PBT_TEST(E08_values, 40000, 200000, "an operator node with a known value or a type that is not that of an argument was evaluated") {
  Init();
  Gen g;
  GenOptions o;
  o.max_ops = 6;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  absl::flat_hash_map<std::string, TypedValue> m(g.leaves.begin(), g.leaves.end());
  auto po = PostOrder(e);
  for (auto& n : po.nodes()) {
    if (!n->is_op() || n->qtype() == nullptr) continue;
    if (n->qvalue().has_value()) {
      PBT_ASSERT(n->qvalue()->GetType() == n->qtype(), "type of the value of ", ToDebugString(n));
    }
    if (n != e && s.chance(1, 2)) continue;
    auto r = Invoke(n, m);
    if (!r.ok()) {
      s.label("error");
      continue;
    }
    PBT_ASSERT(r->GetType() == n->qtype(), "type of ", ToDebugString(n), ": ", r->GetType()->name(), ", inferred ", n->qtype()->name());
    bool same_as_arg = false;
    for (auto& d : n->node_deps()) same_as_arg |= d->qtype() == n->qtype();
    if (!same_as_arg) s.nontrivial();
    if (n->qvalue().has_value()) {
      s.nontrivial();
      s.label("value");
      // Evaluated node by node, without the known values.
      PBT_ASSERT(Same(r->AsRef(), n->qvalue()->AsRef()), "value of ", ToDebugString(n), ": ", Show(r), ", inferred ", n->qvalue()->Repr());
      auto args = n->node_deps();
      std::map<std::string, TypedValue> lv;
      for (size_t i = 0; i < args.size(); ++i) {
        auto a = Invoke(args[i], m);
        if (!a.ok()) return;
        std::string key = absl::StrCat("a", i);
        lv.emplace(key, *a);
        if (s.boolean()) args[i] = *CallOp(QTypeAnnotation::Make(), {Leaf(key), Literal(a->GetType())});
      }
      auto blind = MakeOpNode(n->op(), args);
      if (!blind.ok() || (*blind)->qtype() == nullptr) continue;
      for (auto& [k, v] : m) lv.emplace(k, v);
      auto b = Invoke(*blind, absl::flat_hash_map<std::string, TypedValue>(lv.begin(), lv.end()));
      if (b.ok()) PBT_ASSERT(Same(b->AsRef(), n->qvalue()->AsRef()), "value of ", ToDebugString(n), " from ", Show(b), ", inferred ", n->qvalue()->Repr());
    }
  }
}

// Types of leaves.
PBT_TEST(E08_populate, 48000, 240000, "a leaf with a type from outside, another with an annotation, no error") {
  Init();
  static const char* keys[] = {"x", "y", "z", "long leaf name of a feature", "\xc3\xa9"};
  static const QTypePtr types[] = {GetQType<int32_t>(), GetQType<float>(), GetDenseArrayQType<int32_t>(), GetQType<Text>()};
  std::vector<ExprNodePtr> pool;
  int nl = s.range(1, 5);
  for (int i = 0; i < nl; ++i) pool.push_back(Leaf(keys[s.draw(4)]));
  pool.push_back(Literal(int32_t{1}));
  int k = s.range(1, 12);
  auto any = [&] { return pool[s.boolean() ? pool.size() - 1 - s.draw(std::min<size_t>(pool.size(), 3) - 1) : s.draw(pool.size() - 1)]; };
  for (int i = 0; i < k; ++i) {
    absl::StatusOr<ExprNodePtr> n;
    switch (s.draw(5)) {
      case 0: case 1: n = CallOp(QTypeAnnotation::Make(), {any(), Literal(types[s.chance(3, 4) ? 0 : s.draw(3)])}); break;
      case 2: n = CallOp(NameAnnotation::Make(), {any(), Literal(Text("n"))}); break;
      case 3: n = CallOp("core.make_tuple", {any(), any()}); break;
      case 4: n = CallOp("core.identity", {any()}); break;
      default: n = CallOp("math.add", {any(), any()});
    }
    if (n.ok()) pool.push_back(*n);
  }
  ExprNodePtr e = pool.back();
  s.note("expr", ToDebugString(e));
  auto po = PostOrder(e);
  // The model: a type annotation above nothing but annotations of a leaf
  // is a type of the leaf.
  std::map<std::string, std::set<QTypePtr>> ann;
  std::set<std::string> leaves;
  for (auto& n : po.nodes()) {
    if (n->is_leaf()) leaves.insert(n->leaf_key());
    if (!n->is_op() || n->op()->display_name() != "annotation.qtype") continue;
    ExprNodePtr c = n->node_deps()[0];
    while (c->is_op() && (c->op()->display_name() == "annotation.qtype" || c->op()->display_name() == "annotation.name")) c = c->node_deps()[0];
    if (c->is_leaf()) ann[c->leaf_key()].insert(n->node_deps()[1]->qvalue()->UnsafeAs<QTypePtr>());
  }
  bool conflict = false;
  for (auto& [key, ts] : ann) conflict |= ts.size() > 1;
  auto coll = CollectLeafQTypes(e);
  PBT_ASSERT(coll.ok() == !conflict, "CollectLeafQTypes: ", coll.status().ToString());
  if (coll.ok()) {
    PBT_ASSERT(coll->size() == ann.size(), "CollectLeafQTypes: ", coll->size(), " leaves, expected ", ann.size());
    for (auto& [key, ts] : ann) {
      PBT_ASSERT(coll->count(key) && coll->at(key) == *ts.begin(), "type of the leaf ", key);
    }
  }
  absl::flat_hash_map<std::string, QTypePtr> given;
  bool outside = false;
  for (const char* key : keys) {
    if (s.chance(1, 2)) given[key] = s.chance(1, 8) ? nullptr : ann.count(key) && s.chance(7, 8) ? *ann[key].begin() : types[s.chance(3, 4) ? 0 : s.draw(3)];
  }
  bool partial = s.boolean();
  auto got = PopulateQTypes(e, given, partial);
  if (conflict) {
    PBT_ASSERT(!got.ok(), "conflicting annotations are accepted");
    s.label("conflict");
    return;
  }
  std::set<std::string> missing;
  absl::flat_hash_map<Fingerprint, ExprNodePtr> memo;
  std::function<absl::StatusOr<ExprNodePtr>(const ExprNodePtr&)> model = [&](const ExprNodePtr& n) -> absl::StatusOr<ExprNodePtr> {
    if (auto it = memo.find(n->fingerprint()); it != memo.end()) return it->second;
    ExprNodePtr r = n;
    if (n->is_leaf()) {
      QTypePtr t = nullptr;
      if (auto it = given.find(n->leaf_key()); it != given.end() && it->second) t = it->second, outside = true;
      else if (ann.count(n->leaf_key())) t = *ann[n->leaf_key()].begin();
      if (t) r = *MakeOpNode(QTypeAnnotation::Make(), {n, Literal(t)});
      else missing.insert(n->leaf_key());
    } else if (n->is_op()) {
      std::vector<ExprNodePtr> deps;
      for (auto& d : n->node_deps()) {
        auto x = model(d);
        if (!x.ok()) return x;
        deps.push_back(*x);
      }
      auto x = MakeOpNode(n->op(), deps);
      if (!x.ok()) return x;
      r = *x;
      if (n->op()->display_name() == "annotation.qtype" && deps[0]->qtype() != nullptr) r = deps[0];
    }
    return memo[n->fingerprint()] = r;
  };
  auto want = model(e);
  bool ok = want.ok() && (partial || missing.empty());
  PBT_ASSERT(got.ok() == ok, "PopulateQTypes: ", got.status().ToString(), " expected ", want.status().ToString(), " missing ",
             absl::StrJoin(missing, ","));
  if (!ok) {
    s.label("error");
    if (want.ok()) {
      std::string list = "{" + absl::StrJoin(missing, ", ") + "}";
      PBT_ASSERT(got.status().message().find(list) != std::string::npos, "missing leaves: ", got.status().ToString(), " expected ", list);
    }
    return;
  }
  if (outside && !ann.empty()) s.nontrivial();
  PBT_ASSERT((*got)->fingerprint() == (*want)->fingerprint(), "PopulateQTypes: ", ToDebugString(*got), " expected ", ToDebugString(*want));
  auto again = PopulateQTypes(*got, given, partial);
  PBT_ASSERT(again.ok() && (*again)->fingerprint() == (*got)->fingerprint(), "PopulateQTypes twice");
}

// ----------------------------------------- E09: representations of values

template <class T>
va::Model<T> ModelOf(const DenseArray<T>& a) { return va::Read<T>(a); }

template <class T>
T Junk(Src& s) {
  // Also values that operators refuse.
  if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) {
    switch (s.draw(4)) {
      case 0: return std::numeric_limits<T>::max();
      case 1: return std::numeric_limits<T>::min();
      case 2: return T(-1);
      case 3: return T(0);
      default: return T(1000003);
    }
  } else if constexpr (std::is_floating_point_v<T>) {
    switch (s.draw(4)) {
      case 0: return std::numeric_limits<T>::quiet_NaN();
      case 1: return std::numeric_limits<T>::infinity();
      case 2: return std::numeric_limits<T>::lowest();
      case 3: return T(-0.5);
      default: return T(1e30);
    }
  } else if constexpr (std::is_same_v<T, Text> || std::is_same_v<T, Bytes>) {
    return T(s.boolean() ? "junk" : "{");
  } else {
    return GenScalar<T>(s);
  }
}

// The same value, represented in another way.
std::optional<TypedValue> Rerep(Src& s, va::Keep& keep, const TypedValue& v) {
  std::optional<TypedValue> r;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (r) return;
    if (v.GetType() == GetOptionalQType<T>()) {
      if constexpr (!std::is_same_v<T, Unit>) {
        const auto& x = v.UnsafeAs<OptionalValue<T>>();
        if (!x.present) r = TypedValue::FromValue(OptionalValue<T>{false, Junk<T>(s)});
      }
    } else if constexpr (!std::is_same_v<T, uint64_t>) {
      auto fill = [&](DenseArray<T> d) {
        // Junk in place of missing values.
        if constexpr (!std::is_same_v<T, Unit>) {
          if (d.empty() || d.bitmap.empty() || s.boolean()) return d;
          typename Buffer<T>::Builder b(d.size());
          for (int64_t i = 0; i < d.size(); ++i) {
            T j = d.present(i) ? T(d.values[i]) : Junk<T>(s);
            b.Set(i, j);
          }
          d.values = std::move(b).Build();
        }
        return d;
      };
      if (v.GetType() == GetDenseArrayQType<T>()) {
        r = TypedValue::FromValue(fill(va::MakeDense<T>(s, keep, va::Read<T>(v.UnsafeAs<DenseArray<T>>()), 0)));
      } else if (v.GetType() == GetArrayQType<T>()) {
        auto a = va::MakeArray<T>(s, keep, va::Read<T>(v.UnsafeAs<Array<T>>()), va::kOffset);
        auto ids = a.id_filter();
        auto mv = a.missing_id_value();
        if (ids.type() == IdFilter::kFull) mv = std::nullopt;
        r = TypedValue::FromValue(Array<T>(a.size(), ids, fill(a.dense_data()), mv));
      }
    }
  });
  if (r) return r;
  if (v.GetType() == GetQType<DenseArrayEdge>()) {
    const auto& e = v.UnsafeAs<DenseArrayEdge>();
    if (e.edge_type() == DenseArrayEdge::SPLIT_POINTS) {
      return TypedValue::FromValue(*DenseArrayEdge::FromSplitPoints(va::MakeDense<int64_t>(s, keep, va::Read<int64_t>(e.edge_values()), 0)));
    }
    return TypedValue::FromValue(*DenseArrayEdge::FromMapping(
        va::MakeDense<int64_t>(s, keep, va::Read<int64_t>(e.edge_values()), 0), e.parent_size()));
  }
  if (v.GetType() == GetQType<ArrayEdge>()) {
    const auto& e = v.UnsafeAs<ArrayEdge>();
    auto vals = va::MakeArray<int64_t>(s, keep, va::Read<int64_t>(e.edge_values()), va::kOffset);
    if (e.edge_type() == ArrayEdge::SPLIT_POINTS) {
      return TypedValue::FromValue(*ArrayEdge::FromSplitPoints(vals));
    }
    return TypedValue::FromValue(*ArrayEdge::FromMapping(vals, e.parent_size()));
  }
  return std::nullopt;
}

PBT_TEST(E09_representation, 96000, 480000, "three or more operators, a value represented anew, the evaluation succeeded") {
  Init();
  Gen g;
  GenOptions o;
  o.max_ops = 8;
  auto e = GenExpr(s, g, o);
  s.note("expr", ToDebugString(e));
  va::Keep keep;
  absl::flat_hash_map<std::string, TypedValue> m(g.leaves.begin(), g.leaves.end()), m2 = m;
  int changed = 0;
  for (auto& [key, value] : g.leaves) {
    if (s.chance(1, 8)) continue;
    auto r = Rerep(s, keep, value);
    if (!r) continue;
    PBT_ASSERT(Same(r->AsRef(), value.AsRef()), "harness: ", Show(*r), " ", Show(value));
    m2.at(key) = *r;
    ++changed;
  }
  if (changed == 0) return;
  static const Optimizer opt = *DefaultOptimizer();
  DynamicEvaluationEngineOptions eo;
  if (s.chance(1, 3)) eo.optimizer = opt;
  auto want = Invoke(e, m, eo);
  auto got = Invoke(e, m2, eo);
  s.note("want", Show(want));
  s.note("got", Show(got));
  PBT_ASSERT(got.ok() == want.ok(), "another representation of an argument gives ", Show(got), ", not ", Show(want));
  if (!want.ok()) {
    s.label("error");
    return;
  }
  PBT_ASSERT(Same(got->AsRef(), want->AsRef()), "another representation of an argument gives ", Show(got), ", not ", Show(want));
  if (g.ops >= 3) s.nontrivial();
}

}  // namespace
