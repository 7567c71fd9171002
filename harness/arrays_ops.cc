// A06: pointwise operations and iteration over dense and sparse arrays.
#include <functional>
#include <tuple>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/array/ops_util.h"
#include "arolla/array/pointwise_op.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/util/meta.h"
#include "arrays.h"

using namespace va;

namespace {
using OptI = OptionalValue<int64_t>;
using OI = std::optional<int64_t>;
using OS = std::optional<std::string>;
using OU = std::optional<Unit>;

template <class R>
const R& Value(const R& r) { return r; }
template <class R>
const R& Value(const absl::StatusOr<R>& r) { return *r; }
template <class R>
absl::Status StatusOf(const R&) { return absl::OkStatus(); }
template <class R>
absl::Status StatusOf(const absl::StatusOr<R>& r) { return r.status(); }

// Models of the arguments, of one size or (when allowed) of different sizes.
template <class... Ts>
struct Args {
  size_t n = 0;
  bool same = true;
  std::tuple<Model<Ts>...> m;
  Args(Src& s, bool may_differ) {
    n = GenSize(s, 100);
    size_t odd = may_differ && s.chance(1, 12) ? 1 + s.draw(sizeof...(Ts) - 1) : 0;
    size_t i = 0;
    std::apply([&](auto&... x) { ((x = Gen<Ts>(s, ++i == odd ? n + 1 + s.draw(1) : n)), ...); }, m);
    same = odd == 0 || sizeof...(Ts) == 1;
  }
  template <class T>
  static Model<T> Gen(Src& s, size_t n) { return GenModel<T>(s, n); }
};

struct Error {};  // what a reference gives for a row that must fail

// `ref` gives the expected optional value of a row, or throws Error.
template <int flags, class Res, class... Ts, class Fn, class Ref>
void PointOp(Src& s, const char* name, Fn fn, Ref ref) {
  constexpr bool no_offset = flags & DenseOpFlags::kNoBitmapOffset;
  constexpr bool no_size = flags & DenseOpFlags::kNoSizeValidation;
  Keep k;
  Args<Ts...> a(s, !no_size && sizeof...(Ts) > 1);
  const int allow = no_offset ? kUnowned : kUnowned | kOffset;
  Model<Res> want;
  bool fails = false;
  if (a.same) {
    for (size_t i = 0; i < a.n; ++i) {
      try {
        want.push_back(std::apply([&](const auto&... m) { return ref(m[i]...); }, a.m));
      } catch (const Error&) {
        fails = true;
      }
    }
  }
  s.note(name, " flags ", flags, a.same ? "" : " sizes differ");
  std::apply([&](const auto&... m) { (s.note("  ", Show(m)), ...); }, a.m);
  if (s.boolean()) {
    auto op = CreateDenseOp<flags, Fn, Res>(fn);
    auto r = std::apply([&](const auto&... m) { return op(MakeDense<Ts>(s, k, m, allow)...); }, a.m);
    auto st = StatusOf(r);
    PBT_ASSERT(st.ok() == (a.same && !fails), name, " on dense arrays: ", st.ToString());
    if (st.ok()) {
      const DenseArray<Res>& v = Value(r);
      PBT_ASSERT(v.CheckBitmapMatchesValues(), "bitmap");
      PBT_ASSERT(!no_offset || v.bitmap_bit_offset == 0, "a bit offset appeared");
      PBT_ASSERT(Read(v) == want, name, " gives ", Show(Read(v)), " not ", Show(want));
      bool all = true, none = true;
      for (auto& x : want) { all = all && x; none = none && !x; }
      if (!all && !none && a.n > 32) s.nontrivial();
    }
  } else {
    auto op = CreateArrayOp<flags & ~DenseOpFlags::kNoSizeValidation, Fn, Res>(fn);
    int sparse = 0;
    auto mk = [&]<class T>(const Model<T>& m) {
      auto r = MakeArray<T>(s, k, m, allow);
      if (r.IsSparseForm()) sparse++;
      return r;
    };
    auto r = std::apply([&](const auto&... m) {
      std::tuple<Array<Ts>...> t{mk.template operator()<Ts>(m)...};
      return std::apply([&](const auto&... x) { return op(x...); }, t);
    }, a.m);
    auto st = StatusOf(r);
    PBT_ASSERT(st.ok() == (a.same && !fails), name, " on arrays: ", st.ToString());
    if (st.ok()) {
      auto got = Read(Value(r));
      PBT_ASSERT(got == want, name, " on arrays gives ", Show(got), " not ", Show(want));
      if (sparse > 1) s.nontrivial();
      if (sparse == 1) s.label("one sparse");
    }
  }
}

int64_t W(uint64_t x) { return int64_t(x); }
}  // namespace

PBT_TEST(A06_numbers, 60000, 1500000, "a mixed result above 32 rows, or several sparse arguments") {
  auto un = [](int64_t x) { return W(uint64_t(x) * 3 - 1); };
  auto add = [](int64_t x, int64_t y) { return W(uint64_t(x) * 7 + uint64_t(y)); };
  auto tri = [](int64_t x, int64_t y, int64_t z) { return W((uint64_t(x) ^ uint64_t(y)) + 5 * uint64_t(z)); };
  auto run = [](OI x) -> OI { return x ? OI(W(uint64_t(*x) * 3 - 1)) : OI(); };
  auto radd = [](OI x, OI y) -> OI { return x && y ? OI(W(uint64_t(*x) * 7 + uint64_t(*y))) : OI(); };
  auto rtri = [](OI x, OI y, OI z) -> OI { return x && y && z ? OI(W((uint64_t(*x) ^ uint64_t(*y)) + 5 * uint64_t(*z))) : OI(); };
  auto lt = [](int64_t x, int64_t y) { return x < y; };
  auto rlt = [](OI x, OI y) -> std::optional<bool> { return x && y ? std::optional<bool>(*x < *y) : std::optional<bool>(); };
  switch (s.draw(9)) {
    case 0: return PointOp<0, int64_t, int64_t>(s, "unary", un, run);
    case 1: return PointOp<1, int64_t, int64_t>(s, "unary", un, run);
    case 2: return PointOp<0, int64_t, int64_t, int64_t>(s, "binary", add, radd);
    case 3: return PointOp<1, int64_t, int64_t, int64_t>(s, "binary", add, radd);
    case 4: return PointOp<3, int64_t, int64_t, int64_t>(s, "binary", add, radd);
    case 5: return PointOp<7, int64_t, int64_t, int64_t, int64_t>(s, "ternary", tri, rtri);
    case 6: return PointOp<3, int64_t, int64_t, int64_t, int64_t>(s, "ternary", tri, rtri);
    case 7: return PointOp<0, int64_t, int64_t, int64_t, int64_t>(s, "ternary", tri, rtri);
    case 8: return PointOp<1, bool, int64_t, int64_t>(s, "less", lt, rlt);
    default: return PointOp<2, int64_t, int64_t, int64_t>(s, "binary", add, radd);
  }
}

PBT_TEST(A06_others, 60000, 1500000, "a mixed result above 32 rows, or several sparse arguments") {
  auto oi = [](OptI x, int64_t y) -> OptI { return x.present ? ((x.value ^ y) & 1 ? OptI(x.value) : OptI()) : OptI(y); };
  auto roi = [](OI x, OI y) -> OI { return !y ? OI() : x ? ((*x ^ *y) & 1 ? x : OI()) : y; };
  auto oo = [](OptI x, OptI y) -> int64_t { return (x.present ? 1 : 0) + (y.present ? 2 : 0); };
  auto roo = [](OI x, OI y) -> OI { return (x ? 1 : 0) + (y ? 2 : 0); };
  auto mask = [](int64_t x, int64_t y) -> OptionalUnit { return OptionalUnit(x <= y); };
  auto rmask = [](OI x, OI y) -> OU { return x && y && *x <= *y ? OU(Unit{}) : OU(); };
  auto tx = [](absl::string_view t, int64_t k) -> Text { return Text(pbt::cat(t, "/", k)); };
  auto rtx = [](OS t, OI k) -> OS { return t && k ? OS(pbt::cat(*t, "/", *k)) : OS(); };
  auto cut = [](absl::string_view t, OptI k) -> OptionalValue<Text> {
    if (t.empty()) return {};
    return Text(k.present ? t.substr(1) : t);
  };
  auto rcut = [](OS t, OI k) -> OS { return !t || t->empty() ? OS() : k ? OS(t->substr(1)) : t; };
  auto un = [](Unit, int64_t x) { return x; };
  auto run = [](OU u, OI x) -> OI { return u ? x : OI(); };
  auto inv = [](OptionalUnit u) { return OptionalUnit(!u.present); };
  auto rinv = [](OU u) -> OU { return u ? OU() : OU(Unit{}); };
  auto pick = [](OptionalUnit c, OptI a, OptI b) -> OptI { return c.present ? a : b; };
  auto rpick = [](OU c, OI a, OI b) -> OI { return c ? a : b; };
  auto len = [](absl::string_view t) -> int64_t { return t.size(); };
  auto rlen = [](OS t) -> OI { return t ? OI(t->size()) : OI(); };
  switch (s.draw(12)) {
    case 0: return PointOp<0, int64_t, int64_t, int64_t>(s, "optional and value", oi, roi);
    case 1: return PointOp<3, int64_t, int64_t, int64_t>(s, "optional and value", oi, roi);
    case 2: return PointOp<0, int64_t, int64_t, int64_t>(s, "presence", oo, roo);
    case 3: return PointOp<0, Unit, int64_t, int64_t>(s, "mask", mask, rmask);
    case 4: return PointOp<1, Unit, int64_t, int64_t>(s, "mask", mask, rmask);
    case 5: return PointOp<0, Text, Text, int64_t>(s, "text", tx, rtx);
    case 6: return PointOp<2, Text, Text, int64_t>(s, "cut", cut, rcut);
    case 7: return PointOp<0, int64_t, Unit, int64_t>(s, "unit and value", un, run);
    case 8: return PointOp<0, Unit, Unit>(s, "not", inv, rinv);
    case 9: return PointOp<0, int64_t, Unit, int64_t, int64_t>(s, "where", pick, rpick);
    case 10: return PointOp<2, int64_t, Unit, int64_t, int64_t>(s, "where", pick, rpick);
    case 11: return PointOp<0, int64_t, Bytes>(s, "length", len, rlen);
    default: return PointOp<1, int64_t, Text>(s, "length", len, rlen);
  }
}

PBT_TEST(A06_errors, 40000, 800000, "a mixed result above 32 rows, or several sparse arguments") {
  using R = absl::StatusOr<int64_t>;
  auto bad = [](int64_t y) { return (y & 7) == 3; };
  auto f2 = [bad](int64_t x, int64_t y) -> R { if (bad(y)) return absl::InvalidArgumentError("bad"); return W(uint64_t(x) - y); };
  auto r2 = [bad](OI x, OI y) -> OI { if (!x || !y) return {}; if (bad(*y)) throw Error(); return W(uint64_t(*x) - *y); };
  auto fo = [](OptI x, OptI y) -> absl::StatusOr<OptI> { if (!x.present && !y.present) return absl::InvalidArgumentError("bad"); return y; };
  auto ro = [](OI x, OI y) -> OI { if (!x && !y) throw Error(); return y; };
  auto f1 = [bad](int64_t y) -> R { if (bad(y)) return absl::InvalidArgumentError("bad"); return y; };
  auto r1 = [bad](OI y) -> OI { if (y && bad(*y)) throw Error(); return y; };
  switch (s.draw(3)) {
    case 0: return PointOp<0, int64_t, int64_t, int64_t>(s, "status", f2, r2);
    case 1: return PointOp<2, int64_t, int64_t, int64_t>(s, "status", f2, r2);
    case 2: return PointOp<0, int64_t, int64_t, int64_t>(s, "status of optionals", fo, ro);
    default: return PointOp<0, int64_t, int64_t>(s, "status of one", f1, r1);
  }
}

PBT_TEST(A06_spans, 20000, 400000, "both arguments have missing values and more than 32 rows") {
  Keep k;
  Args<int64_t, int64_t> a(s, true);
  auto& [m1, m2] = a.m;
  Model<int64_t> w1, w2;
  for (auto& x : m1) w1.push_back(x ? OI(W(-uint64_t(*x))) : OI());
  auto neg = CreateDenseUnaryOpFromSpanOp<int64_t>([](RawSpan<int64_t> r, RawSpan<const int64_t> x) {
    for (size_t i = 0; i < r.size(); ++i) r[i] = W(-uint64_t(x[i]));
  });
  auto got = neg(MakeDense<int64_t>(s, k, m1));
  PBT_ASSERT(Read(got) == w1, "unary span op gives ", Show(Read(got)));
  auto f = [](RawSpan<int64_t> r, RawSpan<const int64_t> x, RawSpan<const int64_t> y) {
    for (size_t i = 0; i < r.size(); ++i) r[i] = W(uint64_t(x[i]) * 3 + y[i]);
  };
  auto check = [&](auto r, const char* what) {
    PBT_ASSERT(StatusOf(r).ok() == a.same, what, StatusOf(r).ToString());
    if (!a.same) return;
    for (size_t i = 0; i < m1.size(); ++i) w2.push_back(m1[i] && m2[i] ? OI(W(uint64_t(*m1[i]) * 3 + *m2[i])) : OI());
    PBT_ASSERT(Read(Value(r)) == w2, what, " gives ", Show(Read(Value(r))));
    if (a.n > 32) s.nontrivial();
  };
  switch (s.draw(2)) {
    case 0: return check(CreateDenseBinaryOpFromSpanOp<int64_t>(f)(MakeDense<int64_t>(s, k, m1), MakeDense<int64_t>(s, k, m2)), "binary span op");
    case 1: return check(CreateDenseBinaryOpFromSpanOp<int64_t, DenseOpFlags::kNoBitmapOffset>(f)(MakeDense<int64_t>(s, k, m1, kUnowned), MakeDense<int64_t>(s, k, m2, kUnowned)), "binary span op without offsets");
    default:
      if (!a.same) return;
      return check(CreateDenseBinaryOpFromSpanOp<int64_t, DenseOpFlags::kNoSizeValidation>(f)(MakeDense<int64_t>(s, k, m1), MakeDense<int64_t>(s, k, m2)), "binary span op without validation");
  }
}

// Iteration over several arrays at once.
namespace {
template <class T>
OI Opt(const OptI& v) { return v.present ? OI(v.value) : OI(); }

void IterDense(Src& s) {
  Keep k;
  Args<int64_t, Text, Unit> a(s, true);
  auto& [mi, mt, mu] = a.m;
  auto di = MakeDense<int64_t>(s, k, mi);
  auto dt = MakeDense<Text>(s, k, mt);
  auto du = MakeDense<Unit>(s, k, mu);
  int64_t next = 0;
  auto st = DenseArraysForEach([&](int64_t id, bool valid, OptI x, absl::string_view t, OptionalUnit u) {
    PBT_ASSERT(id == next++, "row ", id);
    PBT_ASSERT(valid == mt[id].has_value(), "validity of row ", id);
    PBT_ASSERT(FromOpt<int64_t>(x) == mi[id] && u.present == mu[id].has_value(), "optional values of row ", id);
    if (valid) PBT_ASSERT(t == *mt[id], "value of row ", id);
  }, di, dt, du);
  PBT_ASSERT(st.ok() == a.same, st.ToString());
  PBT_ASSERT(next == (a.same ? int64_t(a.n) : 0), "rows seen ", next);
  size_t at = 0;
  st = DenseArraysForEachPresent([&](int64_t id, int64_t x, absl::string_view t, OptionalUnit u) {
    while (at < a.n && !(mi[at] && mt[at])) ++at;
    PBT_ASSERT(int64_t(at) == id, "row ", id, " not ", at);
    PBT_ASSERT(x == *mi[at] && t == *mt[at] && u.present == mu[at].has_value(), "values of row ", id);
    ++at;
  }, di, dt, du);
  PBT_ASSERT(st.ok() == a.same, st.ToString());
  while (at < a.n && !(mi[at] && mt[at])) ++at;
  if (a.same) PBT_ASSERT(at == a.n, "rows after ", at, " were not seen");
  if (a.same && a.n > 32) s.nontrivial();
}

void IterArrays(Src& s) {
  Keep k;
  Args<int64_t, Text, Unit> a(s, false);
  auto& [mi, mt, mu] = a.m;
  auto di = MakeArray<int64_t>(s, k, mi);
  auto dt = MakeArray<Text>(s, k, mt);
  auto du = MakeArray<Unit>(s, k, mu);
  if (di.IsSparseForm() + dt.IsSparseForm() + du.IsSparseForm() > 1) s.nontrivial();
  s.note(Show(mi), " ", Show(mt), " ", Show(mu));
  std::vector<int64_t> want, got;
  for (size_t i = 0; i < a.n; ++i) if (mi[i] && mt[i]) want.push_back(i);
  auto reset = [&] { got.clear(); };
  auto all = [&](int64_t id, int64_t x, absl::string_view t, OptionalUnit u) {
    PBT_ASSERT(id >= 0 && id < int64_t(a.n) && mi[id] && mt[id], "row ", id, " is not valid");
    PBT_ASSERT(x == *mi[id] && t == *mt[id] && u.present == mu[id].has_value(), "values of row ", id);
    got.push_back(id);
  };
  ArraysIterate(all, di, dt, du);
  PBT_ASSERT(got == want, "iteration over arrays saw ", Show(got), " not ", Show(want));
  reset();
  ArraysIterateDense(all, di, dt, du);
  PBT_ASSERT(got == want, "dense iteration over arrays saw ", Show(got), " not ", Show(want));
  want.clear(); reset();
  for (size_t i = 0; i < a.n; ++i) if (mu[i]) want.push_back(i);
  auto one = [&](int64_t id, OptI x, OptionalValue<absl::string_view> t, Unit) {
    PBT_ASSERT(FromOpt<int64_t>(x) == mi[id] && FromOpt<Text>(t) == mt[id], "values of row ", id);
    got.push_back(id);
  };
  ArraysIterate(one, di, dt, du);
  PBT_ASSERT(got == want, "iteration over arrays saw ", Show(got), " not ", Show(want));
  want.clear(); reset();
  for (size_t i = 0; i < a.n; ++i) want.push_back(i);
  auto opt = [&](int64_t id, OptI x, OptionalValue<absl::string_view> t, OptionalUnit u) {
    PBT_ASSERT(FromOpt<int64_t>(x) == mi[id] && FromOpt<Text>(t) == mt[id] && u.present == mu[id].has_value(), "values of row ", id);
    got.push_back(id);
  };
  ArraysIterate(opt, di, dt, du);
  PBT_ASSERT(got == want, "iteration over optional rows saw ", Show(got));
}

template <bool dense, class A, class B>
void IterRanges(Src& s) {
  constexpr bool opta = is_optional_v<A>, optb = is_optional_v<B>;
  Keep k;
  Args<int64_t, Text> a(s, false);
  auto& [mi, mt] = a.m;
  auto di = MakeArray<int64_t>(s, k, mi);
  auto dt = MakeArray<Text>(s, k, mt);
  s.note(Show(mi), " ", Show(mt), di.IsSparseForm() ? " sparse" : "", dt.IsSparseForm() ? " sparse" : "");
  array_ops_internal::ArrayOpsUtil<dense, meta::type_list<A, B>> util(a.n, di, dt);
  PBT_ASSERT(util.size() == int64_t(a.n), "size");
  auto valid = [&](size_t i) { return (opta || mi[i]) && (optb || mt[i]); };
  int64_t count = 0;
  for (size_t i = 0; i < a.n; ++i) count += valid(i);
  int64_t est = util.PresentCountUpperEstimate();
  PBT_ASSERT(est >= count && est <= int64_t(a.n), "estimate ", est, " of ", count);
  auto same = [&](int64_t id, const view_type_t<A>& x, const view_type_t<B>& t) {
    if constexpr (opta) PBT_ASSERT(FromOpt<int64_t>(x) == mi[id], "row ", id); else PBT_ASSERT(x == *mi[id], "row ", id);
    if constexpr (optb) PBT_ASSERT(FromOpt<Text>(t) == mt[id], "row ", id); else PBT_ASSERT(t == *mt[id], "row ", id);
  };
  // ranges one after another, as group operations ask for them
  size_t from = s.draw(a.n);
  int rounds = 1 + s.draw(3);
  for (int r = 0; r < rounds; ++r) {
    size_t to = from + s.draw(a.n - from);
    if (to > from + 1 && di.IsSparseForm()) s.nontrivial();
    int64_t next = from;
    int mode = s.draw(2);
    auto fn = [&](int64_t id, view_type_t<A> x, view_type_t<B> t) {
      if (mode == 2) while (next < id) { PBT_ASSERT(!valid(next), "row ", next, " left out"); ++next; }
      PBT_ASSERT(id == next && id < int64_t(to), "row ", id, " not ", next);
      PBT_ASSERT(valid(id), "row ", id, " is not valid");
      same(id, x, t);
      ++next;
    };
    auto miss = [&](int64_t id, int64_t c) {
      PBT_ASSERT(id == next && c >= 0 && id + c <= int64_t(to), "missing rows ", id, "+", c);
      for (int64_t i = 0; i < c; ++i) PBT_ASSERT(!valid(id + i), "row ", id + i, " called missing");
      next += c;
    };
    auto rep = [&](int64_t id, int64_t c, view_type_t<A> x, view_type_t<B> t) {
      PBT_ASSERT(c > 0, "an empty repetition");
      for (int64_t i = 0; i < c; ++i) fn(id + i, x, t);
    };
    if (mode == 0) util.Iterate(from, to, fn, miss, rep);
    else if (mode == 1) util.Iterate(from, to, fn, miss);
    else util.Iterate(from, to, fn);
    if (mode == 2) while (next < int64_t(to)) { PBT_ASSERT(!valid(next), "row ", next, " left out"); ++next; }
    PBT_ASSERT(next == int64_t(to), "iteration ended at ", next, " not ", to);
    from = to;
  }
}
}  // namespace

PBT_TEST(A06_iterate, 60000, 1500000, "several sparse arrays, or more than 32 rows") {
  using OT = OptionalValue<Text>;
  switch (s.draw(6)) {
    case 0: return IterDense(s);
    case 1: return IterArrays(s);
    case 2: return IterRanges<false, int64_t, Text>(s);
    case 3: return IterRanges<false, OptI, Text>(s);
    case 4: return IterRanges<false, OptI, OT>(s);
    case 5: return IterRanges<false, int64_t, OT>(s);
    default: return IterRanges<true, int64_t, OT>(s);
  }
}
