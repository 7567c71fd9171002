// E15 operators on arrays, edges, dicts, E16 sequences and tuples against
// their documentation.
#include "ops.h"

#include "absl/strings/str_join.h"
#include "arolla/qtype/standard_type_properties/properties.h"

namespace {
using namespace ops;  // NOLINT
using Map = std::vector<std::optional<int64_t>>;

// ---------------------------------------------------------------- elements

// Values are small numbers, as such or as strings.
enum ET { eI32, eI64, eF64, eText, eBytes };
std::string Str(long double x) { return x == 0 ? "" : absl::StrCat("s", static_cast<int>(x)); }
long double UnStr(const std::string& x) { return x.empty() ? 0 : std::stoi(x.substr(1)); }
NT NumOf(ET e) { return e == eI32 ? I32 : e == eI64 ? I64 : F64; }
QTypePtr TypeOf(ET e) {
  switch (e) {
    case eI32: return GetQType<int32_t>();
    case eI64: return GetQType<int64_t>();
    case eF64: return GetQType<double>();
    case eText: return GetQType<Text>();
    default: return GetQType<Bytes>();
  }
}
TypedValue MakeT(ET e, const Col& c, AK k) {
  if (e < eText) return Make(NumOf(e), c, k);
  Strs v;
  for (auto& x : c) v.push_back(x ? std::optional<std::string>(Str(*x)) : std::nullopt);
  return MakeStrs(v, k, e == eBytes);
}
TypedValue ScalarT(ET e, long double x) {
  if (e < eText) return Scalar(NumOf(e), x);
  return e == eText ? TypedValue::FromValue(Text(Str(x))) : TypedValue::FromValue(Bytes(Str(x)));
}
Col ReadT(ET e, TypedRef v) {
  if (e < eText) return Read(v);
  Col c;
  for (auto& x : ReadStrs(v)) c.push_back(x ? Num(UnStr(*x)) : Num());
  return c;
}
Col GenC(Src& s, int n, int spread = 9) {
  Col c(n);
  int mode = s.draw(3);
  for (auto& x : c) if (mode == 3 || (mode > 0 && s.chance(3, 4))) x = s.range(0, spread);
  return c;
}
AK GenAK(Src& s, bool dense) { return dense ? aDense : static_cast<AK>(s.range(aFull, aDefault)); }
int GenN(Src& s) { return s.chance(1, 9) ? s.range(60, 135) : s.range(0, 9); }

// ---------------------------------------------------------------- edges

struct E {
  Map map;
  int64_t parents = 0;
};
std::string Show(const E& e) {
  std::string r = absl::StrCat(e.parents, ":");
  for (auto& m : e.map) absl::StrAppend(&r, " ", m ? absl::StrCat(*m) : "-");
  return r;
}
bool Sorted(const E& e) {
  for (size_t i = 0; i < e.map.size(); ++i) if (!e.map[i] || (i && *e.map[i] < *e.map[i - 1])) return false;
  return true;
}
E GenE(Src& s, int n, int max_parents = 6, bool sorted = false) {
  E e;
  e.parents = s.range(n ? 1 : 0, max_parents);
  int mode = sorted ? 0 : s.draw(2);
  for (int i = 0; i < n; ++i) {
    if (mode == 2 && s.chance(1, 5)) e.map.push_back(std::nullopt);
    else e.map.push_back(s.draw(e.parents - 1));
  }
  if (mode == 0) std::sort(e.map.begin(), e.map.end());
  return e;
}
Col AsCol(const Map& m) {
  Col c;
  for (auto& x : m) c.push_back(x ? Num(*x) : Num());
  return c;
}
std::vector<int64_t> Sizes(const E& e) {
  std::vector<int64_t> r(e.parents);
  for (auto& m : e.map) if (m) ++r[*m];
  return r;
}
Col AsCol(const std::vector<int64_t>& v) {
  Col c;
  for (auto x : v) c.push_back(x);
  return c;
}
TypedValue MakeE(Src& s, const E& e, bool dense) {
  if (Sorted(e) && s.chance(2, 3)) {
    Col sp = {Num(0)};
    for (auto z : Sizes(e)) sp.push_back(*sp.back() + z);
    auto v = Make(I64, sp, dense ? aDense : aFull);
    return dense ? TypedValue::FromValue(*DenseArrayEdge::FromSplitPoints(v.UnsafeAs<DenseArray<int64_t>>())) : TypedValue::FromValue(*ArrayEdge::FromSplitPoints(v.UnsafeAs<Array<int64_t>>()));
  }
  auto v = Make(I64, AsCol(e.map), GenAK(s, dense));
  return dense ? TypedValue::FromValue(*DenseArrayEdge::FromMapping(v.UnsafeAs<DenseArray<int64_t>>(), e.parents)) : TypedValue::FromValue(*ArrayEdge::FromMapping(v.UnsafeAs<Array<int64_t>>(), e.parents));
}
E ReadE(TypedRef v, const std::string& what) {
  E e;
  DenseArrayEdge d;
  if (v.GetType() == GetQType<DenseArrayEdge>()) d = v.UnsafeAs<DenseArrayEdge>();
  else if (v.GetType() == GetQType<ArrayEdge>()) d = AsDenseEdge(v.UnsafeAs<ArrayEdge>());
  else PBT_FAIL("not an edge: ", v.Repr(), " for ", what);
  auto m = d.ToMappingEdge();
  e.parents = d.parent_size();
  for (int64_t i = 0; i < m.edge_values().size(); ++i) e.map.push_back(m.edge_values()[i].present ? std::optional<int64_t>(m.edge_values()[i].value) : std::nullopt);
  PBT_ASSERT(static_cast<int64_t>(e.map.size()) == d.child_size(), what);
  return e;
}
void ExpectE(const std::string& what, const absl::StatusOr<TypedValue>& got, const E& want) {
  PBT_ASSERT(got.ok(), got.status(), " for ", what);
  E e = ReadE(got->AsRef(), what);
  PBT_ASSERT(e.map == want.map && e.parents == want.parents, what, " is ", Show(e), " instead of ", Show(want));
}
void ExpectC(const std::string& what, ET t, const absl::StatusOr<TypedValue>& got, const Col& want) {
  PBT_ASSERT(got.ok(), got.status(), " for ", what);
  Col c = ReadT(t, got->AsRef());
  PBT_ASSERT(c == want, what, " is ", ops::Show(c), " instead of ", ops::Show(want));
}
void ExpectError(const std::string& what, const absl::StatusOr<TypedValue>& got) {
  PBT_ASSERT(!got.ok(), what, " is ", got->Repr(), " instead of an error");
}
Num At(const Col& c, int64_t i) { return c[i]; }

PBT_TEST(E15_arrays, 30000, 600000, "an array of three elements or more, some missing") {
  Init();
  static const std::vector<std::string> kOps = {"at", "at_array", "slice", "concat", "select", "iota", "present_indices", "present_values", "from_indices_and_values", "unique", "size", "count", "as_dense_array", "as_array", "make_dense_array", "take", "expand", "interleave", "resize", "const"};
  std::string op = s.pick(kOps);
  ET t = static_cast<ET>(s.draw(4));
  bool dense = s.boolean();
  int n = GenN(s);
  Col x = GenC(s, n);
  AK k = GenAK(s, dense);
  auto ax = MakeT(t, x, k);
  NT it = s.boolean() ? I32 : I64;
  uint32_t lit = s.chance(1, 4) ? s.draw(7) : 0;
  std::string what = absl::StrCat("array.", op, " of ", ops::Show(x), " type ", t, " kind ", k);
  int missing = std::count(x.begin(), x.end(), std::nullopt);
  if (n >= 3 && missing) s.nontrivial();
  if (op == "at") {
    int64_t i = s.range(-2, n + 1);
    absl::StrAppend(&what, " at ", i);
    Num oi = s.chance(1, 8) ? Num() : Num(i);
    auto got = Call("array.at", {ax, oi && s.boolean() ? Scalar(it, i) : Opt(it, oi)}, lit & 2);
    if (!oi) ExpectC(what, t, got, {Num()});
    else if (i < 0 || i >= n) ExpectError(what, got);
    else ExpectC(what, t, got, {x[i]});
  } else if (op == "at_array" || op == "take") {
    int m = GenN(s);
    Col ids(m);
    Col want(m);
    bool bad = false;
    if (op == "at_array") {
      for (int j = 0; j < m; ++j) {
        if (s.chance(1, 5)) continue;
        int64_t i = n && !s.chance(1, 40) ? s.draw(n - 1) : s.boolean() ? -1 - static_cast<int>(s.draw(2)) : n + static_cast<int>(s.draw(2));
        ids[j] = i;
        if (i < 0 || i >= n) bad = true;
        else want[j] = x[i];
      }
      absl::StrAppend(&what, " at ", ops::Show(ids));
      auto got = Call("array.at", {ax, Make(it, ids, GenAK(s, dense))}, lit & 1);
      if (bad) ExpectError(what, got);
      else ExpectC(what, t, got, want);
      return;
    }
    E over = GenE(s, n, 4), io;
    io.parents = over.parents;
    bool same = m > 0 && s.chance(1, 3);
    if (same) { m = n; io = over; ids.assign(m, {}); want.assign(m, {}); }
    else for (int j = 0; j < m; ++j) io.map.push_back(io.parents && !s.chance(1, 9) ? std::optional<int64_t>(s.draw(io.parents - 1)) : std::nullopt);
    if (!same && s.boolean()) { std::sort(io.map.begin(), io.map.end()); }
    std::vector<std::vector<int>> groups(over.parents);
    for (int i = 0; i < n; ++i) if (over.map[i]) groups[*over.map[i]].push_back(i);
    for (int j = 0; j < m; ++j) {
      if (s.chance(1, 5)) continue;
      int64_t size = io.map[j] ? groups[*io.map[j]].size() : 0;
      int64_t i = size && !s.chance(1, 40) ? static_cast<int64_t>(s.draw(size - 1)) : s.boolean() ? -1 : size;
      if (size == 0 && !s.chance(1, 10)) continue;
      ids[j] = i;
      if (!io.map[j]) continue;
      if (i < 0 || i >= size) bad = true;
      else want[j] = x[groups[*io.map[j]][i]];
    }
    absl::StrAppend(&what, " at ", ops::Show(ids), " over ", Show(over), same ? "" : " and " + Show(io));
    std::vector<TypedValue> args = {ax, Make(I64, ids, GenAK(s, dense)), MakeE(s, over, dense)};
    args.push_back(same ? args[2] : MakeE(s, io, dense));
    auto got = Call("array.take", args, 0);
    if (bad) ExpectError(what, got);
    else ExpectC(what, t, got, want);
  } else if (op == "slice") {
    int64_t off = s.range(-1, n + 1), size = s.chance(1, 3) ? -1 : s.range(-2, n + 1);
    if (off >= 0 && off <= n && s.chance(2, 3)) size = s.range(0, n - off);
    absl::StrAppend(&what, " from ", off, " size ", size);
    auto got = Call("array.slice", {ax, Scalar(it, off), Scalar(it, size)}, lit);
    if (size == -1) size = n - off;
    if (off < 0 || size < 0 || off + size > n) { ExpectError(what, got); return; }
    ExpectC(what, t, got, Col(x.begin() + off, x.begin() + off + size));
    PBT_ASSERT(got->GetType() == ax.GetType());
    // A slice of the slice.
    if (size > 0) {
      int64_t o2 = s.draw(size), n2 = s.range(0, size - o2);
      auto again = Call("array.slice", {*got, Scalar(I64, o2), Scalar(I64, n2)});
      ExpectC(absl::StrCat(what, " from ", o2, " size ", n2), t, again, Col(x.begin() + off + o2, x.begin() + off + o2 + n2));
      ExpectC(absl::StrCat(what, " counted"), eI64, Call("array.count", {*again, GetUnspecifiedQValue()}, 2), {Num(std::count_if(x.begin() + off + o2, x.begin() + off + o2 + n2, [](auto& z) { return z.has_value(); }))});
    }
  } else if (op == "concat") {
    Col y = GenC(s, GenN(s));
    absl::StrAppend(&what, " and ", ops::Show(y));
    Col want = x;
    want.insert(want.end(), y.begin(), y.end());
    ExpectC(what, t, Call("array.concat", {ax, MakeT(t, y, GenAK(s, dense))}, lit), want);
  } else if (op == "select") {
    Col f(n), want;
    for (int i = 0; i < n; ++i) if (s.boolean()) { f[i] = 1; want.push_back(x[i]); }
    absl::StrAppend(&what, " by ", ops::Show(f));
    ExpectC(what, t, Call("array.select", {ax, Make(UNIT, f, GenAK(s, dense))}, lit), want);
  } else if (op == "iota") {
    Col want;
    for (int i = 0; i < n; ++i) want.push_back(i);
    auto sh = Call("core.shape_of", {ax});
    PBT_ASSERT(sh.ok());
    ExpectC(what, eI64, Call("array.iota", {*sh}), want);
  } else if (op == "present_indices" || op == "present_values") {
    Col want;
    for (int i = 0; i < n; ++i) if (x[i]) want.push_back(op == "present_indices" ? Num(i) : x[i]);
    ExpectC(what, op == "present_indices" ? eI64 : t, Call("array." + op, {ax}, lit), want);
  } else if (op == "from_indices_and_values") {
    Col idx, vals, want(n);
    bool bad = false;
    for (int i = 0; i < n; ++i) if (s.boolean()) { idx.push_back(i); vals.push_back(GenC(s, 1)[0]); want[i] = vals.back(); }
    if (s.chance(1, 8) && !idx.empty()) {
      bad = true;
      int j = s.draw(idx.size() - 1);
      switch (s.draw(3)) {
        case 0: idx[j] = -1; break;
        case 1: idx.back() = n; break;
        case 2: if (j) idx[j] = idx[j - 1]; else idx[0] = -1; break;
        default: idx[j] = std::nullopt; break;
      }
    }
    absl::StrAppend(&what, ": ", ops::Show(idx), " ", ops::Show(vals), " size ", n);
    auto got = Call("array.from_indices_and_values", {Make(it, idx, GenAK(s, dense)), MakeT(t, vals, GenAK(s, dense)), Scalar(I64, n)}, 0);
    if (bad) ExpectError(what, got);
    else ExpectC(what, t, got, want);
  } else if (op == "unique") {
    Col want;
    for (auto& z : x) if (z && std::find(want.begin(), want.end(), z) == want.end()) want.push_back(z);
    ExpectC(what, t, Call("array.unique", {ax}, lit), want);
  } else if (op == "size") {
    ExpectC(what, eI64, Call("array.size", {ax}, lit), {Num(n)});
  } else if (op == "count") {
    ExpectC(what, eI64, Call("array.count", {ax, GetUnspecifiedQValue()}, lit | 2), {Num(n - missing)});
  } else if (op == "as_dense_array" || op == "as_array") {
    auto got = Call("array." + op, {ax}, lit);
    ExpectC(what, t, got, x);
    PBT_ASSERT(op == "as_array" ? IsArrayQType(got->GetType()) : IsDenseArrayQType(got->GetType()));
  } else if (op == "make_dense_array") {
    if (n == 0 || n > 20) return;
    std::vector<TypedValue> args;
    for (auto& z : x) args.push_back(z && s.boolean() ? ScalarT(t, *z) : t < eText ? Opt(NumOf(t), z) : t == eText ? TypedValue::FromValue(z ? OptionalValue<Text>(Text(Str(*z))) : OptionalValue<Text>()) : TypedValue::FromValue(z ? OptionalValue<Bytes>(Bytes(Str(*z))) : OptionalValue<Bytes>()));
    auto got = Call("array.make_dense_array", args, lit);
    ExpectC(what, t, got, x);
  } else if (op == "expand") {
    E e;
    e.parents = n;
    int m = GenN(s);
    Col want(m);
    for (int j = 0; j < m; ++j) e.map.push_back(n && !s.chance(1, 6) ? std::optional<int64_t>(s.draw(n - 1)) : std::nullopt);
    if (s.boolean()) { e.map.erase(std::remove(e.map.begin(), e.map.end(), std::nullopt), e.map.end()); std::sort(e.map.begin(), e.map.end()); want.resize(e.map.size()); }
    for (size_t j = 0; j < e.map.size(); ++j) if (e.map[j]) want[j] = x[*e.map[j]];
    absl::StrAppend(&what, " over ", Show(e));
    ExpectC(what, t, Call("array.expand", {ax, MakeE(s, e, dense)}, 0), want);
  } else if (op == "interleave") {
    int m = s.range(1, 4);
    if (n > 20) n = 20, x.resize(20);
    std::vector<Col> cols = {x};
    std::vector<TypedValue> args = {MakeT(t, x, aDense)};
    for (int j = 1; j < m; ++j) { cols.push_back(GenC(s, n)); args.push_back(MakeT(t, cols.back(), aDense)); absl::StrAppend(&what, " ", ops::Show(cols.back())); }
    Col want;
    E e;
    e.parents = n;
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { want.push_back(cols[j][i]); e.map.push_back(i); }
    auto got = Call("array.interleave", args, 0);
    PBT_ASSERT(got.ok(), got.status(), " for ", what);
    ExpectC(what, t, TypedValue(got->GetField(0)), want);
    ExpectE(what, TypedValue(got->GetField(1)), e);
  } else if (op == "resize" || op == "const") {
    auto sh = Call("core.shape_of", {ax});
    PBT_ASSERT(sh.ok());
    int64_t m = op == "resize" ? GenN(s) : n;
    if (op == "resize") sh = Call("array.resize_array_shape", {*sh, Scalar(I64, m)});
    PBT_ASSERT(sh.ok(), sh.status());
    bool opt = s.boolean() && t < eText;
    auto v = opt ? Opt(NumOf(t), Num()) : ScalarT(t, 5);
    auto got = Call("core.const_with_shape", {*sh, v}, lit & 2);
    ExpectC(what, t, got, Col(m, opt ? Num() : Num(5)));
    PBT_ASSERT(got->GetType() == ax.GetType());
  }
}

PBT_TEST(E15_edges, 30000, 600000, "an edge of three children or more and two parents or more") {
  Init();
  static const std::vector<std::string> kOps = {"from_sizes", "from_split_points", "from_mapping", "from_keys", "from_keys_tuple", "group_by", "group_by2", "compose", "mapping", "sizes", "indices", "pair_left", "pair_right", "shape", "resize_groups_child_side", "resize_groups_parent_side", "as_dense_array_edge", "to_single"};
  std::string op = s.pick(kOps);
  bool dense = s.boolean();
  int n = s.chance(1, 12) ? s.range(40, 90) : s.range(0, 9);
  E e = GenE(s, n, 6, op.starts_with("resize") && !s.chance(1, 10));
  std::string what = absl::StrCat("edge.", op, " ", Show(e), dense ? " dense" : "");
  if (n >= 3 && e.parents >= 2) s.nontrivial();
  auto edge = MakeE(s, e, dense);
  NT it = s.boolean() ? I32 : I64;
  uint32_t lit = s.chance(1, 4) ? s.draw(3) : 0;
  if (op == "mapping") {
    ExpectC(what, eI64, Call("edge.mapping", {edge}, lit), AsCol(e.map));
  } else if (op == "sizes") {
    ExpectC(what, eI64, Call("edge.sizes", {edge}, lit), AsCol(Sizes(e)));
  } else if (op == "indices") {
    Col want(n);
    std::vector<int> k(e.parents);
    for (int i = 0; i < n; ++i) if (e.map[i]) want[i] = k[*e.map[i]]++;
    ExpectC(what, eI64, Call("edge.indices", {edge}, lit), want);
  } else if (op == "shape") {
    ExpectC(what, eI64, Call("edge.child_size", {edge}, lit), {Num(n)});
    ExpectC(what, eI64, Call("edge.parent_size", {edge}, lit), {Num(e.parents)});
    auto cs = Call("edge.child_shape", {edge}), ps = Call("edge.parent_shape", {edge});
    PBT_ASSERT(cs.ok() && ps.ok());
    ExpectC(what, eI64, Call("array.array_shape_size", {*cs}), {Num(n)});
    ExpectC(what, eI64, Call("array.array_shape_size", {*ps}), {Num(e.parents)});
  } else if (op == "from_mapping") {
    Col m = AsCol(e.map);
    bool bad = false;
    if (n && s.chance(1, 8)) { bad = true; m[s.draw(n - 1)] = s.boolean() ? e.parents : -1; absl::StrAppend(&what, " bad ", ops::Show(m)); }
    auto got = Call("edge.from_mapping", {Make(it, m, GenAK(s, dense)), Scalar(s.boolean() ? I32 : I64, e.parents)}, lit);
    if (bad) ExpectError(what, got);
    else ExpectE(what, got, e);
  } else if (op == "from_sizes" || op == "from_split_points") {
    e = GenE(s, n, 6, true);
    if (!Sorted(e)) return;
    Col c;
    if (op == "from_sizes") c = AsCol(Sizes(e));
    else { c = {Num(0)}; for (auto z : Sizes(e)) c.push_back(*c.back() + z); }
    bool bad = false;
    if (!c.empty() && s.chance(1, 8)) {
      bad = true;
      int j = s.draw(c.size() - 1);
      if (s.boolean()) c[j] = std::nullopt;
      else if (op == "from_sizes") c[j] = -1;
      else c[j] = j ? *c[j - 1] - 1 : 1;
    }
    what = absl::StrCat("edge.", op, " ", ops::Show(c));
    auto got = Call("edge." + op, {Make(it, c, GenAK(s, dense))}, lit);
    if (bad) ExpectError(what, got);
    else ExpectE(what, got, e);
  } else if (op == "from_keys" || op == "from_keys_tuple") {
    int w = op == "from_keys" ? 1 : s.range(1, 3);
    int p = s.range(0, 7);
    std::vector<ET> ts;
    std::vector<Col> ck(w), pk(w);
    for (int j = 0; j < w; ++j) { int k = s.draw(3); ts.push_back(static_cast<ET>(k >= eF64 ? k + 1 : k)); }
    std::set<std::vector<int>> seen;
    bool dup = false;
    for (int i = 0; i < p; ++i) {
      std::vector<int> key;
      for (int j = 0; j < w; ++j) key.push_back(s.range(0, w == 1 ? 9 : 2));
      if (!seen.insert(key).second) { if (s.chance(1, 15)) dup = true; else continue; }
      for (int j = 0; j < w; ++j) pk[j].push_back(key[j]);
    }
    p = pk[0].size();
    E want;
    want.parents = p;
    for (int i = 0; i < n; ++i) {
      bool all = true;
      for (int j = 0; j < w; ++j) { Num z = s.chance(1, 8) ? Num() : Num(s.range(0, w == 1 ? 9 : 2)); ck[j].push_back(z); all = all && z; }
      std::optional<int64_t> at;
      for (int q = 0; all && q < p && !at; ++q) {
        bool eq = true;
        for (int j = 0; j < w; ++j) eq = eq && *ck[j][i] == *pk[j][q];
        if (eq) at = q;
      }
      want.map.push_back(at);
    }
    what = absl::StrCat("edge.", op, dense ? " dense" : "");
    std::vector<TypedValue> cv, pv;
    for (int j = 0; j < w; ++j) { absl::StrAppend(&what, " ", ops::Show(ck[j]), " in ", ops::Show(pk[j])); cv.push_back(MakeT(ts[j], ck[j], GenAK(s, dense))); pv.push_back(MakeT(ts[j], pk[j], GenAK(s, dense))); }
    auto got = op == "from_keys" ? Call("edge.from_keys", {cv[0], pv[0]}, lit) : Call("edge.from_keys", {MakeTuple(cv), MakeTuple(pv)}, lit);
    if (dup) ExpectError(what, got);
    else ExpectE(what, got, want);
  } else if (op == "group_by" || op == "group_by2") {
    int w = s.range(1, 3);
    bool with = s.chance(2, 3);
    std::vector<TypedValue> cv;
    std::vector<Col> c(w);
    for (int j = 0; j < w; ++j) { c[j] = GenC(s, n, w == 1 ? 5 : 2); cv.push_back(MakeT(static_cast<ET>(s.draw(4)), c[j], GenAK(s, dense))); absl::StrAppend(&what, " ", ops::Show(c[j])); }
    E want, up;
    std::map<std::vector<int64_t>, int64_t> ids;
    up.parents = with ? e.parents : 1;
    for (int i = 0; i < n; ++i) {
      std::vector<int64_t> key = {with ? e.map[i].value_or(-1) : 0};
      bool all = key[0] >= 0;
      for (int j = 0; j < w; ++j) { all = all && c[j][i]; key.push_back(c[j][i].value_or(0)); }
      if (!all) { want.map.push_back(std::nullopt); continue; }
      auto [it2, fresh] = ids.emplace(key, ids.size());
      if (fresh) up.map.push_back(key[0]);
      want.map.push_back(it2->second);
    }
    want.parents = ids.size();
    std::vector<TypedValue> args = {w == 1 && s.boolean() ? cv[0] : MakeTuple(cv)};
    args.push_back(with ? edge : GetUnspecifiedQValue());
    auto got = Call("edge." + op, args, with ? 0 : 2);
    PBT_ASSERT(got.ok(), got.status(), " for ", what);
    if (op == "group_by") { ExpectE(what, got, want); return; }
    ExpectE(what, TypedValue(got->GetField(0)), want);
    if (with) ExpectE(what + " second", TypedValue(got->GetField(1)), up);
  } else if (op == "compose") {
    int m = s.range(1, 4);
    std::vector<E> es = {e};
    std::vector<TypedValue> args = {edge};
    for (int j = 1; j < m; ++j) {
      E f;
      f.parents = es.back().map.size();
      int kids = f.parents ? s.range(0, 9) : 0;
      bool mis = s.boolean();
      for (int i = 0; i < kids; ++i) f.map.push_back(mis && s.chance(1, 6) ? std::nullopt : std::optional<int64_t>(s.draw(f.parents - 1)));
      if (s.boolean()) std::sort(f.map.begin(), f.map.end());
      absl::StrAppend(&what, " / ", Show(f));
      args.push_back(MakeE(s, f, dense));
      es.push_back(f);
    }
    E want;
    want.parents = e.parents;
    for (size_t i = 0; i < es.back().map.size(); ++i) {
      std::optional<int64_t> at = i;
      for (int j = m - 1; j >= 0 && at; --j) at = es[j].map[*at];
      want.map.push_back(at);
    }
    ExpectE(what, Call("edge.compose", args, 0), want);
  } else if (op == "pair_left" || op == "pair_right") {
    if (n > 12) return;
    e = GenE(s, n, 4, true);
    E want;
    want.parents = n;
    int base = 0;
    for (auto z : Sizes(e)) {
      for (int a = 0; a < z; ++a) for (int b = 0; b < z; ++b) want.map.push_back(base + (op == "pair_left" ? a : b));
      base += z;
    }
    what = absl::StrCat("edge.", op, " ", Show(e));
    ExpectE(what, Call("edge." + op, {Make(I64, AsCol(Sizes(e)), GenAK(s, dense))}, lit), want);
  } else if (op == "resize_groups_child_side" || op == "resize_groups_parent_side") {
    int64_t size = s.chance(1, 12) ? -1 : s.range(0, 5);
    absl::StrAppend(&what, " size ", size);
    bool split = dense ? edge.UnsafeAs<DenseArrayEdge>().edge_type() == DenseArrayEdge::SPLIT_POINTS : edge.UnsafeAs<ArrayEdge>().edge_type() == ArrayEdge::SPLIT_POINTS;
    if (!split) {  // not supported, and said so
      ExpectError(what, op == "resize_groups_parent_side" ? Call("edge." + op, {edge, Scalar(it, size)}) : Call("edge." + op, {edge, Scalar(it, size), GetUnspecifiedQValue()}, 4));
      return;
    }
    // One size for all the groups, or one each.
    bool each = s.chance(1, 3), bad = false;
    std::vector<int64_t> sizes(e.parents, size);
    auto size_arg = Scalar(it, size);
    bad = size < 0;
    if (each) {
      Col c;
      bad = false;
      for (auto& z : sizes) { z = s.chance(1, 30) ? -s.range(1, 4) : s.range(0, 5); bad = bad || z < 0; c.push_back(z); }
      if (s.chance(1, 20)) { bad = true; c.push_back(1); }
      else if (!c.empty() && s.chance(1, 20)) { bad = true; c[s.draw(c.size() - 1)] = Num(); }
      size_arg = Make(I64, c, op == "resize_groups_child_side" && !dense ? aFull : GenAK(s, dense));  // only the full form is taken
      absl::StrAppend(&what, " each ", ops::Show(c));
    }
    if (op == "resize_groups_parent_side") {
      auto got = Call("edge." + op, {edge, size_arg}, lit & 2);
      if (bad) { ExpectError(what, got); return; }
      E want;
      want.parents = e.parents;
      for (int p = 0; p < e.parents; ++p) want.map.insert(want.map.end(), sizes[p], p);
      ExpectE(what, got, want);
      return;
    }
    if (!each && e.parents == 0) bad = false;  // no group to be resized
    E want;
    want.parents = n;
    bool with = s.boolean();
    Col off(n);
    std::vector<int> k(e.parents);
    std::vector<std::set<int>> used(e.parents);
    std::vector<int64_t> base;
    if (!bad) for (auto z : sizes) { base.push_back(want.map.size()); want.map.resize(want.map.size() + std::max<int64_t>(z, 0)); }
    for (int i = 0; i < n; ++i) {
      int p = *e.map[i];
      int o = k[p]++;
      if (with) {
        if (s.chance(1, 6)) continue;
        o = s.range(0, 6);
        while (used[p].count(o) && !s.chance(1, 100)) o++;
        if (!used[p].insert(o).second && o < sizes[p]) bad = true;  // those beyond the size are dropped
        if (s.chance(1, 100)) { o = -1; bad = true; }
        off[i] = o;
      }
      if (!bad && o < sizes[p]) want.map[base[p] + o] = i;
    }
    std::vector<TypedValue> args = {edge, size_arg, with ? Make(I64, off, GenAK(s, dense)) : GetUnspecifiedQValue()};
    if (with) absl::StrAppend(&what, " at ", ops::Show(off));
    auto got = Call("edge." + op, args, with ? 0 : 4);
    if (bad) ExpectError(what, got);
    else ExpectE(what, got, want);
  } else if (op == "as_dense_array_edge") {
    auto got = Call("edge.as_dense_array_edge", {edge}, lit);
    ExpectE(what, got, e);
    PBT_ASSERT(got->GetType() == GetQType<DenseArrayEdge>());
  } else if (op == "to_single") {
    E want;
    want.parents = 1;
    want.map.assign(n, 0);
    ExpectE(what, Call("edge.to_single", {MakeT(eI32, GenC(s, n), GenAK(s, dense))}, lit), want);
  }
}

PBT_TEST(E15_dicts, 12000, 200000, "keys found and keys not found") {
  Init();
  ET kt = One<ET>(s, {eI32, eI64, eText, eBytes}), vt = static_cast<ET>(s.draw(4));
  int n = s.range(0, 8);
  Col keys, vals;
  bool dup = false;
  for (int i = 0; i < n; ++i) {
    long double k = s.range(0, 14);
    if (std::find(keys.begin(), keys.end(), Num(k)) != keys.end()) { if (s.chance(1, 15)) dup = true; else continue; }
    keys.push_back(k);
  }
  n = keys.size();
  vals = GenC(s, n);
  std::string what = absl::StrCat("dict of ", ops::Show(keys), " ", ops::Show(vals), " types ", kt, vt);
  auto d = Call("dict.make", {MakeT(kt, keys, aDense), MakeT(vt, vals, aDense)});
  if (dup) { ExpectError(what, d); return; }
  PBT_ASSERT(d.ok(), d.status());
  ExpectC(what + " keys", kt, Call("dict.keys", {*d}), keys);
  ExpectC(what + " values", vt, Call("dict.values", {*d}), vals);
  int m = s.range(0, 9);
  bool one = s.boolean(), dense = s.boolean();
  if (one) m = 1;
  Col q = one ? Col{Num(s.range(0, 14))} : GenC(s, m, 14), want(m), has(m);
  int found = 0, lost = 0;
  for (int j = 0; j < m; ++j) {
    if (!q[j]) continue;
    auto p = std::find(keys.begin(), keys.end(), q[j]);
    if (p == keys.end()) { ++lost; continue; }
    ++found;
    has[j] = 1;
    want[j] = vals[p - keys.begin()];
  }
  if (found && lost) s.nontrivial();
  auto qa = one ? ScalarT(kt, *q[0]) : MakeT(kt, q, GenAK(s, dense));
  absl::StrAppend(&what, " at ", ops::Show(q));
  ExpectC(what, vt, Call("dict.get", {*d, qa}), want);
  if (s.boolean()) {
    auto kd = Call("dict._make_key_to_row_dict", {MakeT(kt, keys, aDense)});
    PBT_ASSERT(kd.ok(), kd.status());
    ExpectC(what + " contains", eI64, Call("dict._contains", {*kd, qa}), has);
    Col row(m);
    for (int j = 0; j < m; ++j) if (has[j]) row[j] = std::find(keys.begin(), keys.end(), q[j]) - keys.begin();
    ExpectC(what + " row", eI64, Call("dict._get_row", {*kd, qa}), row);
    ExpectC(what + " keys", kt, Call("dict._keys", {*kd}), keys);
  }
}

TypedValue SeqOf(ET t, const std::vector<long double>& v) {
  auto m = MutableSequence::Make(TypeOf(t), v.size());
  for (size_t i = 0; i < v.size(); ++i) m->UnsafeSetRef(i, ScalarT(t, v[i]).AsRef());
  return TypedValue::FromValueWithQType(std::move(*m).Finish(), GetSequenceQType(TypeOf(t))).value();
}
std::vector<long double> ReadSeq(ET t, TypedRef v, const std::string& what) {
  PBT_ASSERT(v.GetType() == GetSequenceQType(TypeOf(t)), what, " is of type ", v.GetType()->name());
  auto& q = v.UnsafeAs<Sequence>();
  std::vector<long double> r;
  for (size_t i = 0; i < q.size(); ++i) r.push_back(*ReadT(t, q.GetRef(i))[0]);
  return r;
}

PBT_TEST(E16_sequences, 15000, 300000, "three elements or more") {
  Init();
  ET t = static_cast<ET>(s.draw(4));
  int n = s.range(0, 8);
  std::vector<long double> v(n);
  int spread = s.boolean() ? 1 : 9;
  for (auto& x : v) x = s.range(0, spread);
  auto q = SeqOf(t, v);
  std::string what = absl::StrCat("sequence of ", n, " ", absl::StrJoin(std::vector<int>(v.begin(), v.end()), " "), " type ", t);
  if (n >= 3) s.nontrivial();
  uint32_t lit = s.chance(1, 4) ? s.draw(7) : 0;
  NT it = s.boolean() ? I32 : I64;
  auto seq = [&](const std::string& w, const absl::StatusOr<TypedValue>& got, ET tt, const std::vector<long double>& want) {
    PBT_ASSERT(got.ok(), got.status(), " for ", w);
    auto r = ReadSeq(tt, got->AsRef(), w);
    PBT_ASSERT(r == want, w, " is ", got->Repr());
  };
  switch (s.draw(6)) {
    case 0: ExpectC(what + " size", eI64, Call("seq.size", {q}, lit), {Num(n)}); break;
    case 1: {
      int64_t i = s.range(-2, n + 1);
      auto got = Call("seq.at", {q, Scalar(it, i)}, lit);
      absl::StrAppend(&what, " at ", i);
      if (i < 0 || i >= n) ExpectError(what, got);
      else ExpectC(what, t, got, {Num(v[i])});
      break;
    }
    case 2: {
      // As in Python.
      int64_t a = s.range(-10, 10), b = s.range(-10, 10);
      absl::StrAppend(&what, " from ", a, " to ", b);
      auto clamp = [&](int64_t x) { return std::clamp<int64_t>(x < 0 ? x + n : x, 0, n); };
      int64_t x = clamp(a), y = clamp(b);
      seq(what, Call("seq.slice", {q, Scalar(it, a), Scalar(it, b)}, lit), t, x < y ? std::vector<long double>(v.begin() + x, v.begin() + y) : std::vector<long double>());
      break;
    }
    case 3: {
      int64_t a = s.range(-6, 6), b = s.range(-6, 6), st = s.range(-4, 4);
      bool two = s.boolean();
      absl::StrAppend(&what, " range ", a, " ", two ? absl::StrCat(b) : "-", " ", st);
      auto got = Call("seq.range", {Scalar(it, a), two ? Opt(it, Num(b)) : Opt(I64, Num()), Scalar(it, st)}, lit);
      if (st == 0) { ExpectError(what, got); break; }
      std::vector<long double> want;
      int64_t from = two ? a : 0, to = two ? b : a;
      for (int64_t x = from; st > 0 ? x < to : x > to; x += st) want.push_back(x);
      seq(what, got, eI64, want);
      break;
    }
    case 4: {
      bool eq = true;
      for (auto x : v) eq = eq && x == v[0];
      ExpectC(what + " all_equal", eI64, Call("seq.all_equal", {q}, lit), {eq ? Num(1) : Num()});
      break;
    }
    case 5: {
      Col u = GenC(s, n, 0);
      auto m = MutableSequence::Make(GetOptionalQType<Unit>(), n);
      for (int i = 0; i < n; ++i) m->UnsafeSetRef(i, Opt(UNIT, u[i]).AsRef());
      auto uq = TypedValue::FromValueWithQType(std::move(*m).Finish(), GetSequenceQType(GetOptionalQType<Unit>())).value();
      int have = n - std::count(u.begin(), u.end(), std::nullopt);
      ExpectC("seq.all of " + ops::Show(u), eI64, Call("seq.all", {uq}), {have == n ? Num(1) : Num()});
      ExpectC("seq.any of " + ops::Show(u), eI64, Call("seq.any", {uq}), {have ? Num(1) : Num()});
      break;
    }
    default: {
      int m = s.range(1, 3);
      std::vector<TypedValue> args = {q};
      std::vector<ET> ts = {t};
      std::vector<std::vector<long double>> cols = {v};
      bool bad = false;
      for (int j = 1; j < m; ++j) {
        int k = s.chance(1, 8) ? s.range(0, 9) : n;
        bad = bad || k != n;
        std::vector<long double> c(k);
        for (auto& x : c) x = s.range(0, 9);
        ts.push_back(static_cast<ET>(s.draw(4)));
        args.push_back(SeqOf(ts.back(), c));
        cols.push_back(c);
      }
      auto got = Call("seq.zip", args);
      what = "seq.zip from " + what;
      if (bad) { ExpectError(what, got); break; }
      PBT_ASSERT(got.ok(), got.status());
      auto& z = got->UnsafeAs<Sequence>();
      PBT_ASSERT(static_cast<int>(z.size()) == n, what);
      for (int i = 0; i < n; ++i) {
        auto tup = z.GetRef(i);
        PBT_ASSERT(tup.GetFieldCount() == m);
        for (int j = 0; j < m; ++j) ExpectC(what, ts[j], TypedValue(tup.GetField(j)), {Num(cols[j][i])});
      }
    }
  }
}

PBT_TEST(E16_tuples, 15000, 300000, "two fields or more") {
  Init();
  auto gen = [&](int n) {
    std::vector<TypedValue> v;
    for (int i = 0; i < n; ++i) v.push_back(ScalarT(static_cast<ET>(s.draw(4)), s.range(0, 9)));
    return v;
  };
  auto expect = [&](const std::string& what, const absl::StatusOr<TypedValue>& got, const std::vector<TypedValue>& want) {
    PBT_ASSERT(got.ok(), got.status(), " for ", what);
    PBT_ASSERT(got->GetType() == MakeTuple(want).GetType(), what, " is ", got->Repr(), " instead of ", MakeTuple(want).Repr());
    for (size_t i = 0; i < want.size(); ++i) PBT_ASSERT(TypedValue(got->GetField(i)).GetFingerprint() == want[i].GetFingerprint(), what, " is ", got->Repr(), " instead of ", MakeTuple(want).Repr());
  };
  int n = s.range(0, 5);
  auto v = gen(n);
  auto t = MakeTuple(v);
  std::string what = t.Repr();
  if (n >= 2) s.nontrivial();
  switch (s.draw(6)) {
    case 0: expect("make_tuple " + what, Call("core.make_tuple", v, s.draw(7)), v); break;
    case 1: {
      int i = s.range(-1, n);
      auto got = Call("core.get_nth", {t, Scalar(I64, i)}, 2 | s.draw(1));
      if (i < 0 || i >= n) ExpectError(absl::StrCat(what, " field ", i), got);
      else PBT_ASSERT(got.ok() && got->GetFingerprint() == v[i].GetFingerprint(), what, " field ", i, " ", got.status());
      break;
    }
    case 2: {
      int off = s.range(-1, n + 1), size = s.chance(1, 3) ? -1 : s.range(-2, n + 1);
      absl::StrAppend(&what, " from ", off, " size ", size);
      auto got = Call("core.slice_tuple", {t, Scalar(I64, off), Scalar(I64, size)}, 6);
      if (size == -1) size = n - off;
      if (off < 0 || size < 0 || off + size > n) ExpectError(what, got);
      else expect(what, got, std::vector<TypedValue>(v.begin() + off, v.begin() + off + size));
      break;
    }
    case 3: {
      std::vector<TypedValue> args = {t};
      auto want = v;
      int m = s.range(0, 3);
      for (int j = 0; j < m; ++j) {
        auto w = gen(s.range(0, 3));
        args.push_back(MakeTuple(w));
        want.insert(want.end(), w.begin(), w.end());
      }
      expect("concat " + what, Call("core.concat_tuples", args, s.draw(7)), want);
      break;
    }
    case 4: {
      int m = s.range(1, 3);
      std::vector<std::vector<TypedValue>> cols = {v};
      std::vector<TypedValue> args = {t};
      bool bad = false;
      for (int j = 1; j < m; ++j) {
        int k = s.chance(1, 8) ? s.range(0, 5) : n;
        bad = bad || k != n;
        cols.push_back(gen(k));
        args.push_back(MakeTuple(cols.back()));
      }
      auto got = Call("core.zip", args);
      if (bad) { ExpectError("zip " + what, got); break; }
      std::vector<TypedValue> want;
      for (int i = 0; i < n; ++i) {
        std::vector<TypedValue> row;
        for (auto& c : cols) row.push_back(c[i]);
        want.push_back(MakeTuple(row));
      }
      expect("zip " + what, got, want);
      break;
    }
    default: {
      static const std::vector<std::string> kNames = {"a", "b", "c", "dd", "e f"};
      auto named = [&](std::vector<std::string>* names, std::vector<TypedValue>* vals) {
        for (auto& nm : kNames) if (s.boolean()) names->push_back(nm);
        for (size_t i = names->size(); i > 1; --i) std::swap((*names)[i - 1], (*names)[s.draw(i - 1)]);
        *vals = gen(names->size());
        return *MakeNamedTuple(*names, *vals);
      };
      std::vector<std::string> na, nb;
      std::vector<TypedValue> va, vb;
      auto a = named(&na, &va), b = named(&nb, &vb);
      if (s.boolean()) {
        std::string nm = s.pick(kNames);
        auto got = Call("namedtuple.get_field", {a, TypedValue::FromValue(Text(nm))}, 2);
        auto p = std::find(na.begin(), na.end(), nm);
        if (p == na.end()) ExpectError(a.Repr() + " field " + nm, got);
        else PBT_ASSERT(got.ok() && got->GetFingerprint() == va[p - na.begin()].GetFingerprint(), a.Repr(), " field ", nm, " ", got.status());
        auto mk = Call("namedtuple._make", {TypedValue::FromValue(Text(absl::StrJoin(na, ","))), MakeTuple(va)}, 1);
        (void)mk;
        break;
      }
      auto got = Call("namedtuple.union", {a, b}, s.draw(3));
      auto wn = na;
      auto wv = va;
      for (size_t i = 0; i < nb.size(); ++i) {
        auto p = std::find(wn.begin(), wn.end(), nb[i]);
        if (p == wn.end()) { wn.push_back(nb[i]); wv.push_back(vb[i]); }
        else wv[p - wn.begin()] = vb[i];
      }
      auto want = *MakeNamedTuple(wn, wv);
      PBT_ASSERT(got.ok() && got->GetType() == want.GetType() && got->GetFingerprint() == want.GetFingerprint(), "the union of ", a.Repr(), " and ", b.Repr(), " is ", got.ok() ? got->Repr() : got.status().ToString(), " instead of ", want.Repr());
    }
  }
}

}  // namespace
