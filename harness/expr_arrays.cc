// E10 operators act on arrays element by element and alike on all kinds of
// arrays, E11 operators over groups.
#include "expr.h"

#include "absl/container/flat_hash_map.h"

namespace {
using namespace xp;  // NOLINT

// An operator applied to values; those marked are literals.
absl::StatusOr<ExprNodePtr> MakeCall(const ExprOperatorPtr& op, const std::vector<TypedValue>& args, const std::vector<bool>& lit) {
  std::vector<absl::StatusOr<ExprNodePtr>> nodes;
  for (size_t i = 0; i < args.size(); ++i) {
    if (lit[i]) {
      nodes.push_back(Literal(args[i]));
    } else {
      nodes.push_back(MakeOpNode(QTypeAnnotation::Make(), {Leaf(absl::StrCat("x", i)), Literal(args[i].GetType())}));
    }
  }
  return BindOp(op, [&] {
    std::vector<ExprNodePtr> v;
    for (auto& n : nodes) v.push_back(*n);
    return v;
  }(), {});
}

absl::StatusOr<TypedValue> Eval(const ExprOperatorPtr& op, const std::vector<TypedValue>& args, const std::vector<bool>& lit) {
  auto e = MakeCall(op, args, lit);
  if (!e.ok()) return e.status();
  absl::flat_hash_map<std::string, TypedValue> m;
  for (size_t i = 0; i < args.size(); ++i) {
    if (!lit[i]) m.emplace(absl::StrCat("x", i), args[i]);
  }
  return Invoke(*e, m);
}

bool IsDense(QTypePtr t) { return IsDenseArrayQType(t); }
bool IsArr(QTypePtr t) { return IsArrayQType(t); }
bool IsAnyArray(QTypePtr t) { return t && (IsDense(t) || IsArr(t)); }

// The optional element of an array.
std::optional<TypedValue> Elem(const TypedValue& a, int64_t i) {
  std::optional<TypedValue> r;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (r) return;
    auto set = [&](const auto& x) {
      auto e = x[i];
      r = TypedValue::FromValue(e.present ? OptionalValue<T>(T(e.value)) : OptionalValue<T>());
    };
    if (a.GetType() == GetDenseArrayQType<T>()) set(a.UnsafeAs<DenseArray<T>>());
    if (a.GetType() == GetArrayQType<T>()) set(a.UnsafeAs<Array<T>>());
  });
  return r;
}

int64_t SizeOf(const TypedValue& a) {
  int64_t r = -1;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (a.GetType() == GetDenseArrayQType<T>()) r = a.UnsafeAs<DenseArray<T>>().size();
    if (a.GetType() == GetArrayQType<T>()) r = a.UnsafeAs<Array<T>>().size();
  });
  return r;
}

// An array of the same kind with elements of `a` chosen by `ids`.
std::optional<TypedValue> Pick(const TypedValue& a, const std::vector<int64_t>& ids) {
  std::optional<TypedValue> r;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (r) return;
    auto get = [&](const auto& x) {
      std::vector<OptionalValue<T>> v;
      for (int64_t i : ids) {
        auto e = x[i];
        v.push_back(e.present ? OptionalValue<T>(T(e.value)) : OptionalValue<T>());
      }
      return CreateDenseArray<T>(v);
    };
    if (a.GetType() == GetDenseArrayQType<T>()) r = TypedValue::FromValue(get(a.UnsafeAs<DenseArray<T>>()));
    if (a.GetType() == GetArrayQType<T>()) r = TypedValue::FromValue(Array<T>(get(a.UnsafeAs<Array<T>>())));
  });
  return r;
}

TypedValue GenTyped(Src& s, int type, Kind k, size_t n) {
  std::optional<TypedValue> res;
  int i = 0;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (i++ == type) res = GenOf<T>(s, k, n);
  });
  return *res;
}

size_t GenSize(Src& s) {
  switch (s.draw(6)) {
    case 0: return s.draw(1);
    case 1: return 30 + s.draw(5);
    case 2: return 60 + s.draw(10);
    default: return 1 + s.draw(7);
  }
}

// Present and equal, or both missing; scalars count as present.
bool SameElement(const TypedValue& a, const TypedValue& b, bool* types) {
  bool eq = false, known = false;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    auto as = [&](const TypedValue& v, OptionalValue<T>* o) {
      if (v.GetType() == GetOptionalQType<T>()) {
        *o = v.UnsafeAs<OptionalValue<T>>();
        return true;
      }
      if (v.GetType() == GetQType<T>()) {
        *o = v.UnsafeAs<T>();
        return true;
      }
      return false;
    };
    OptionalValue<T> x, y;
    if (as(a, &x) && as(b, &y)) {
      known = true;
      eq = x.present == y.present && (!x.present || SameElem(x.value, y.value));
    }
  });
  *types = known;
  return eq;
}

const std::vector<size_t>& PointwiseOps() {
  static const auto* r = [] {
    auto* v = new std::vector<size_t>();
    const auto& ops = Ops();
    static const std::set<std::string> no{
        // Work on arrays as a whole.
        "core.shape_of", "math.cum_sum", "math.cum_min", "math.cum_max", "math.cdf", "math._weighted_cdf", "math.softmax",
        "array.cum_count", "math.argsort"};
    for (size_t i = 0; i < ops.size(); ++i) {
      const auto& n = ops[i].name;
      if (no.count(n) || n.find("._") != std::string::npos) continue;
      bool group = false;
      for (const auto& p : ops[i].sig.parameters) group = group || p.name == "into" || p.name == "over";
      if (group) continue;
      if (n.rfind("core.", 0) == 0 || n.rfind("math.", 0) == 0 || n.rfind("bool.", 0) == 0 || n.rfind("strings.", 0) == 0) v->push_back(i);
    }
    return v;
  }();
  return *r;
}

PBT_TEST(E10_pointwise, 20000, 400000, "an array of two or more elements, present and missing ones in the result, or two arrays among the arguments") {
  Init();
  const auto& po = PointwiseOps();
  const auto& info = Ops()[po[s.draw(po.size() - 1)]];
  size_t n = GenSize(s);
  Kind kind = s.boolean() ? kDense : kArray;
  int main_type = s.draw(8);
  std::vector<TypedValue> args;
  std::vector<bool> lit;
  absl::StatusOr<ExprNodePtr> e = absl::UnknownError("");
  for (int attempt = 0; attempt < 25; ++attempt) {
    args.clear();
    lit.clear();
    if (s.chance(1, 3)) main_type = s.draw(8);
    int arrays = 0;
    size_t np = info.sig.parameters.size();
    bool variadic = np && info.sig.parameters.back().kind == ExprOperatorSignature::Parameter::Kind::kVariadicPositional;
    if (variadic) np += s.draw(3) - 1;
    for (size_t i = 0; i < np; ++i) {
      if (i < info.sig.parameters.size() && info.sig.parameters[i].default_value.has_value() && s.boolean()) {
        args.push_back(*info.sig.parameters[i].default_value);
        lit.push_back(true);
        continue;
      }
      int type = s.chance(3, 4) ? main_type : int(s.draw(8));
      int k = s.draw(9);
      if (type == 8 && k >= 2) type = 0;
      if (k >= 4 || (i == 0 && k >= 2)) {
        args.push_back(GenTyped(s, type, kind, n));
        ++arrays;
        lit.push_back(s.chance(1, 12));
      } else {
        if (s.chance(1, 12)) {
          args.push_back(*TypedValue::FromValueWithQType(double(s.range(-4, 4)) / 2, GetWeakFloatQType()));
        } else {
          args.push_back(GenTyped(s, type, k < 2 ? kScalar : kOptional, n));
        }
        lit.push_back(s.chance(1, 2));
      }
    }
    if (arrays == 0) continue;
    e = MakeCall(info.op, args, lit);
    if (e.ok() && (*e)->qtype() && IsAnyArray((*e)->qtype())) break;
    e = absl::UnknownError("");
  }
  if (!e.ok()) {
    s.label("ill-typed");
    return;
  }
  s.note("op", info.name);
  for (size_t i = 0; i < args.size(); ++i) s.note(absl::StrCat("x", i), absl::StrCat(lit[i] ? "literal " : "", Show(args[i])));
  auto got = Eval(info.op, args, lit);
  s.note("got", Show(got));
  absl::flat_hash_map<std::string, absl::StatusOr<TypedValue>> memo;
  int errors = 0;
  std::string first_error;
  if (got.ok()) PBT_ASSERT(SizeOf(*got) < 0 || SizeOf(*got) == int64_t(n), info.name, " gives ", SizeOf(*got), " elements");
  if (got.ok() && SizeOf(*got) < 0) {
    s.label("unusual type");
    return;
  }
  for (size_t i = 0; i < n; ++i) {
    std::vector<TypedValue> el;
    std::string key;
    for (auto& a : args) {
      auto x = Elem(a, i);
      el.push_back(x ? *x : a);
      key += el.back().GetFingerprint().AsString();
    }
    if (i == 0) {
      auto t = MakeCall(info.op, el, lit);
      if (!t.ok() || (*t)->qtype() == nullptr) {
        s.label("arrays only: " + info.name);
        return;
      }
    }
    auto it = memo.find(key);
    if (it == memo.end()) it = memo.emplace(key, Eval(info.op, el, lit)).first;
    const auto& want = it->second;
    if (!want.ok()) {
      ++errors;
      first_error = Show(want);
      continue;
    }
    if (!got.ok()) continue;
    auto g = Elem(*got, i);
    bool types;
    bool same = SameElement(*g, *want, &types);
    if (!types) {
      s.label("not pointwise: " + info.name);
      return;
    }
    PBT_ASSERT(same, info.name, " at ", i, " gives ", Show(*g), ", the elements alone give ", Show(*want));
  }
  if (!got.ok()) {
    s.label("error");
    PBT_ASSERT(errors > 0 || n == 0, info.name, " fails: ", Show(got), "; no element does");
    return;
  }
  PBT_ASSERT(errors == 0, info.name, " gives ", Show(got), " though elements alone give ", first_error);
  if (n >= 2) s.nontrivial();
}

// The value, with dense arrays instead of arrays.
std::optional<TypedValue> Densify(const TypedValue& v) {
  std::optional<TypedValue> r;
  ForScalarTypes([&](auto* p) {
    using T = std::remove_pointer_t<decltype(p)>;
    if (r) return;
    if (v.GetType() == GetArrayQType<T>()) {
      r = TypedValue::FromValue(v.UnsafeAs<Array<T>>().ToDenseForm().dense_data().ForceNoBitmapBitOffset());
    }
  });
  if (r) return r;
  QTypePtr t = v.GetType();
  if (t == GetQType<ArrayEdge>()) return TypedValue::FromValue(AsDenseEdge(v.UnsafeAs<ArrayEdge>()));
  if (t == GetQType<ArrayGroupScalarEdge>()) {
    return TypedValue::FromValue(DenseArrayGroupScalarEdge(v.UnsafeAs<ArrayGroupScalarEdge>().child_size()));
  }
  if (t == GetQType<ArrayShape>()) return TypedValue::FromValue(DenseArrayShape{v.UnsafeAs<ArrayShape>().size});
  if (t == GetQTypeQType()) {
    QTypePtr q = v.UnsafeAs<QTypePtr>();
    if (IsArr(q)) {
      auto d = GetDenseArrayQTypeByValueQType(q->value_qtype());
      if (!d.ok()) return std::nullopt;
      return TypedValue::FromValue(static_cast<QTypePtr>(*d));
    }
    if (q == GetQType<ArrayEdge>()) return TypedValue::FromValue(GetQType<DenseArrayEdge>());
    if (q == GetQType<ArrayGroupScalarEdge>()) return TypedValue::FromValue(GetQType<DenseArrayGroupScalarEdge>());
    if (q == GetQType<ArrayShape>()) return TypedValue::FromValue(GetQType<DenseArrayShape>());
  }
  if (IsTupleQType(t)) {
    std::vector<TypedValue> f;
    for (int64_t i = 0; i < v.GetFieldCount(); ++i) {
      auto x = Densify(TypedValue(v.GetField(i)));
      if (!x) return std::nullopt;
      f.push_back(*x);
    }
    return MakeTuple(f);
  }
  if (!t->type_fields().empty() && !IsOptionalQType(t)) return std::nullopt;
  std::string name(t->name());
  if (name.find("ARRAY") != std::string::npos && !IsDense(t) && name.find("DENSE_ARRAY") == std::string::npos) return std::nullopt;
  return v;
}

PBT_TEST(E10_kinds, 24000, 480000, "three or more operators, a sparse array among the inputs, the evaluation succeeded") {
  Init();
  Gen g;
  GenOptions o;
  o.max_ops = 7;
  o.op_ok = [](const std::string& n) { return n.find("dense_array") == std::string::npos && n.find("as_array") == std::string::npos &&
                                              n.find("_array_shape") == std::string::npos && n.find("qtype") != 0; };
  auto e = GenExpr(s, g, o);
  int converted = 0;
  absl::flat_hash_map<std::string, TypedValue> m(g.leaves.begin(), g.leaves.end()), m2;
  for (auto& [k, v] : m) {
    auto d = Densify(v);
    if (!d) return;
    if (d->GetType() != v.GetType()) ++converted;
    m2.emplace(k, *d);
  }
  bool odd = false;
  auto e2 = Transform(e, [&](ExprNodePtr node) -> absl::StatusOr<ExprNodePtr> {
    if (node->is_op()) {
      std::string n(node->op()->display_name());
      if (n.find("dense_array") != std::string::npos || n.find("as_array") != std::string::npos || n.find("_array_shape") != std::string::npos ||
          n.find("qtype.") == 0) odd = true;
    }
    if (!node->is_literal()) return node;
    auto d = Densify(*node->qvalue());
    if (!d) return absl::UnimplementedError("literal");
    return Literal(*d);
  });
  if (converted == 0 || odd) return;
  s.note("expr", ToDebugString(e));
  for (auto& [k, v] : m) s.note(k, Show(v));
  if (!e2.ok() || e->qtype() == nullptr || (*e2)->qtype() == nullptr) {
    s.label("one kind only");
    return;
  }
  auto want = Invoke(e, m);
  auto got = Invoke(*e2, m2);
  s.note("sparse", Show(want));
  s.note("dense", Show(got));
  if (!want.ok()) {
    // Not every operator takes arrays of different kinds.
    for (const auto& node : VisitorOrder(e)) {
      if (node->qtype() && std::string(node->qtype()->name()).find("DENSE_ARRAY") != std::string::npos) {
        s.label("mixed");
        return;
      }
    }
  }
  if (!want.ok() && !got.ok()) {
    s.label("error");
    return;
  }
  PBT_ASSERT(want.ok() == got.ok(), "with arrays ", Show(want), ", with dense arrays ", Show(got));
  auto w = Densify(*want);
  auto g2 = Densify(*got);  // bodies of lambdas keep their arrays
  if (!w || !g2) return;
  PBT_ASSERT(Same(w->AsRef(), g2->AsRef()), "with arrays ", Show(want), ", with dense arrays ", Show(got));
  if (g.ops >= 3) s.nontrivial();
}

// ---------------------------------------------------------------- groups

const std::vector<size_t>& GroupOps() {
  static const auto* r = [] {
    auto* v = new std::vector<size_t>();
    const auto& ops = Ops();
    for (size_t i = 0; i < ops.size(); ++i) {
      bool edge = false;
      for (const auto& p : ops[i].sig.parameters) {
        if (p.name == "into" || p.name == "over") edge = true;
      }
      const auto& n = ops[i].name;
      if (n.rfind("random.", 0) == 0 || n.rfind("edge.", 0) == 0 || n == "array.expand" || n == "array._expand") continue;
      if (edge) v->push_back(i);
    }
    return v;
  }();
  return *r;
}

bool CloseElem(const TypedValue& a, const TypedValue& b) {
  auto f = [](const TypedValue& v) -> std::optional<std::optional<double>> {
    if (v.GetType() == GetOptionalQType<float>()) {
      auto& x = v.UnsafeAs<OptionalValue<float>>();
      return x.present ? std::optional<double>(x.value) : std::optional<double>();
    }
    if (v.GetType() == GetOptionalQType<double>()) {
      auto& x = v.UnsafeAs<OptionalValue<double>>();
      return x.present ? std::optional<double>(x.value) : std::optional<double>();
    }
    if (v.GetType() == GetQType<float>()) return std::optional<double>(v.UnsafeAs<float>());
    if (v.GetType() == GetQType<double>()) return std::optional<double>(v.UnsafeAs<double>());
    return std::nullopt;
  };
  auto x = f(a), y = f(b);
  bool types;
  if (!x || !y) return SameElement(a, b, &types);
  if (x->has_value() != y->has_value()) return false;
  if (!x->has_value()) return true;
  double p = **x, q = **y;
  if (SameElem(p, q)) return true;
  return std::abs(p - q) <= 1e-5 * std::max(std::abs(p), std::abs(q)) + 1e-6;
}

PBT_TEST(E11_groups, 20000, 400000, "two or more groups of two or more elements") {
  Init();
  const auto& go = GroupOps();
  const auto& info = Ops()[go[s.draw(go.size() - 1)]];
  Dims d{GenSize(s), 1 + size_t(s.draw(5))};
  bool dense = s.boolean();
  Kind kind = dense ? kDense : kArray;
  std::vector<std::vector<int64_t>> children(d.m);
  TypedValue edge = TypedValue::FromValue(kUnit);
  {
    auto de = GenDenseEdge(s, d);
    auto mp = de.ToMappingEdge();
    for (size_t i = 0; i < d.n; ++i) {
      auto x = mp.edge_values()[i];
      if (x.present) children[x.value].push_back(i);
    }
    if (dense) {
      edge = TypedValue::FromValue(de);
    } else if (de.edge_type() == DenseArrayEdge::SPLIT_POINTS) {
      edge = TypedValue::FromValue(*ArrayEdge::FromSplitPoints(Array<int64_t>(de.edge_values())));
    } else {
      Array<int64_t> a(de.edge_values());
      if (s.boolean()) a = a.ToSparseForm();
      edge = TypedValue::FromValue(*ArrayEdge::FromMapping(a, d.m));
    }
  }
  std::vector<TypedValue> args;
  std::vector<bool> lit, is_edge;
  bool into = false;
  absl::StatusOr<ExprNodePtr> e = absl::UnknownError("");
  int main_type = s.draw(8);
  for (int attempt = 0; attempt < 25; ++attempt) {
    args.clear(), lit.clear(), is_edge.clear();
    if (s.chance(1, 3)) main_type = s.draw(8);
    for (const auto& p : info.sig.parameters) {
      if (p.name == "into" || p.name == "over" || p.name == "ids_over") {
        into = p.name == "into";
        args.push_back(edge);
        lit.push_back(false);
        is_edge.push_back(true);
        continue;
      }
      is_edge.push_back(false);
      if (p.default_value.has_value() && s.boolean()) {
        args.push_back(*p.default_value);
        lit.push_back(true);
        continue;
      }
      int type = s.chance(3, 4) ? main_type : int(s.draw(8));
      int k = s.draw(9);
      if (type == 8 && k >= 2) type = 1;
      if (k >= 3 || (&p == &info.sig.parameters[0])) {
        args.push_back(GenTyped(s, type == 8 ? 2 : type, kind, d.n));
        lit.push_back(false);
      } else {
        args.push_back(GenTyped(s, type, k < 2 ? kScalar : kOptional, d.n));
        lit.push_back(s.boolean());
      }
    }
    e = MakeCall(info.op, args, lit);
    if (e.ok() && (*e)->qtype() && IsAnyArray((*e)->qtype())) break;
    e = absl::UnknownError("");
  }
  if (!e.ok()) {
    s.label("ill-typed");
    return;
  }
  s.note("op", info.name);
  for (size_t i = 0; i < args.size(); ++i) s.note(absl::StrCat("x", i), absl::StrCat(lit[i] ? "literal " : "", Show(args[i])));
  auto got = Eval(info.op, args, lit);
  s.note("got", Show(got));
  if (got.ok() && SizeOf(*got) < 0) return;
  if (got.ok()) PBT_ASSERT(SizeOf(*got) == int64_t(into ? d.m : d.n), info.name, " gives ", SizeOf(*got), " elements");
  int errors = 0;
  std::vector<bool> seen(d.n);
  for (size_t p = 0; p < d.m; ++p) {
    std::vector<TypedValue> sub;
    for (size_t i = 0; i < args.size(); ++i) {
      if (is_edge[i]) {
        sub.push_back(dense ? TypedValue::FromValue(DenseArrayGroupScalarEdge(children[p].size()))
                            : TypedValue::FromValue(ArrayGroupScalarEdge(children[p].size())));
      } else if (IsAnyArray(args[i].GetType())) {
        sub.push_back(*Pick(args[i], children[p]));
      } else {
        sub.push_back(args[i]);
      }
    }
    auto want = Eval(info.op, sub, lit);
    if (!want.ok()) {
      ++errors;
      s.note("group error", Show(want));
      continue;
    }
    if (!got.ok()) continue;
    if (into) {
      PBT_ASSERT(CloseElem(*Elem(*got, p), *want), info.name, " of group ", p, ": ", Show(*Elem(*got, p)), ", of its elements alone: ", Show(*want));
    } else {
      PBT_ASSERT(SizeOf(*want) == int64_t(children[p].size()), Show(*want));
      for (size_t j = 0; j < children[p].size(); ++j) {
        auto a = Elem(*got, children[p][j]), b = Elem(*want, j);
        PBT_ASSERT(CloseElem(*a, *b), info.name, " at ", children[p][j], " in group ", p, ": ", Show(*a), ", in its elements alone: ", Show(*b));
        seen[children[p][j]] = true;
      }
    }
  }
  if (got.ok() && !into) {
    for (size_t i = 0; i < d.n; ++i) {
      auto v = Elem(*got, i);
      if (!seen[i]) PBT_ASSERT(v->Repr().find("NA") != std::string::npos || v->Repr() == "missing", info.name, " at ", i, " outside all groups: ", Show(*v));
    }
  }
  if (!got.ok()) {
    s.label("error");
    PBT_ASSERT(errors > 0, info.name, " fails: ", Show(got), "; no group does");
    return;
  }
  PBT_ASSERT(errors == 0, info.name, " gives ", Show(got), " though a group alone fails");
  int big = 0;
  for (auto& c : children) big += c.size() >= 2;
  if (big >= 2) s.nontrivial();
}

}  // namespace
