// A03: id filters and arrays.
#include <cstring>
#include <map>
#include <set>

#include "absl/hash/hash.h"
#include "google/protobuf/arena.h"
#include "arolla/array/array_util.h"
#include "arolla/array/id_filter.h"
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/jagged_shape.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/memory.h"
#include "arolla/util/struct_field.h"
#include "arrays.h"

using namespace va;
// ---------------------------------------------------------------- A03 ------
namespace {
template <class T>
void ArrayProps(Src& s) {
  Keep k;
  size_t n = GenSize(s, 120);
  auto m = GenModel<T>(s, n);
  auto a = MakeArray<T>(s, k, m);
  auto form = [](const Array<T>& x) { return x.IsDenseForm() ? "dense" : x.IsConstForm() ? "const" : "sparse"; };
  s.note("model ", Show(m), " as ", form(a), a.HasMissingIdValue() ? " with missing_id_value" : "");
  s.label(form(a));
  if (a.IsSparseForm()) s.nontrivial();
  PBT_ASSERT(Read(a) == m, "elements are ", Show(Read(a)));
  PBT_ASSERT(a.size() == int64_t(n) && a.empty() == (n == 0));
  int64_t cnt = 0;
  for (auto& x : m) cnt += x.has_value();
  PBT_ASSERT(a.PresentCount() == cnt, "PresentCount ", a.PresentCount(), " not ", cnt);
  // iteration
  {
    Model<T> got(n), g2(n), g3(n);
    int64_t next = 0;
    auto one = [&](int64_t id, bool p, view_type_t<T> v) {
      PBT_ASSERT(id == next, "ForEach id ", id, " instead of ", next); next++;
      if (p) got[id] = ToOwn<T>(v);
    };
    a.ForEach(one);
    PBT_ASSERT(next == int64_t(n) && got == m, "ForEach");
    got.assign(n, std::nullopt); next = 0;
    a.ForEach(one, [&](int64_t id, int64_t c, bool p, view_type_t<T> v) {
      for (int64_t i = 0; i < c; ++i) one(id + i, p, v);
    });
    PBT_ASSERT(next == int64_t(n) && got == m, "ForEach with ranges");
    int64_t last = -1;
    auto pres = [&](int64_t id, view_type_t<T> v) {
      PBT_ASSERT(id > last, "order"); last = id; g2[id] = ToOwn<T>(v);
    };
    a.ForEachPresent(pres);
    PBT_ASSERT(g2 == m, "ForEachPresent");
    last = -1; g2.assign(n, std::nullopt);
    a.ForEachPresent(pres, [&](int64_t id, int64_t c, view_type_t<T> v) { for (int64_t i = 0; i < c; ++i) pres(id + i, v); });
    PBT_ASSERT(g2 == m, "ForEachPresent with ranges");
    Model<T> g4;
    for (auto v : a) g4.push_back(FromOpt<T>(v));
    PBT_ASSERT(g4 == m, "iterator");
  }
  // change of form
  auto d = a.ToDenseForm();
  PBT_ASSERT((d.IsDenseForm() || n == 0) && Read(d) == m, "ToDenseForm gives ", Show(Read(d)));
  PBT_ASSERT(Read(ToDenseArray(a)) == m, "ToDenseArray");
  {
    std::optional<own_t<T>> miss;
    if (s.boolean() && n > 0) miss = s.boolean() ? m[s.draw(n - 1)] : std::optional<own_t<T>>(GenVal<T>(s));
    auto sp = a.ToSparseForm(ToOptVal<T>(miss));
    PBT_ASSERT(Read(sp) == m, "ToSparseForm from ", form(a), " with missing ", miss ? Show1(*miss) : "none", " gives ", Show(Read(sp)));
    if (!sp.IsDenseForm()) PBT_ASSERT(FromOpt<T>(sp.missing_id_value()) == miss || n == 0, "missing_id_value");
    if (!miss && !sp.IsDenseForm()) {
      // every listed id is present
      PBT_ASSERT(sp.dense_data().PresentCount() == sp.dense_data().size(), "sparse form keeps missing values");
    }
    // other filters: values outside the filter are lost on purpose
    std::vector<int64_t> ids;
    int den = 1 + s.draw(5);
    for (size_t i = 0; i < n; ++i) if (s.chance(1, den)) ids.push_back(i);
    auto filter = MakeFilter(s, n, ids);
    std::optional<own_t<T>> mv;
    if (s.boolean() && n > 0) mv = s.boolean() ? m[s.draw(n - 1)] : std::optional<own_t<T>>(GenVal<T>(s));
    auto w = a.WithIds(filter, ToOptVal<T>(mv));
    Model<T> e = m;
    std::set<int64_t> in(ids.begin(), ids.end());
    for (size_t i = 0; i < n; ++i) if (!in.count(i)) e[i] = mv;
    if (ids.size() == n) e = m;
    PBT_ASSERT(Read(w) == e, "WithIds from ", form(a), " ids ", Show(ids), " missing ", mv ? Show1(*mv) : "none", " gives ", Show(Read(w)), " not ", Show(e));
    // filters and offsets
    for (size_t i = 0; i < n; ++i) {
      auto o = filter.IdToOffset(i);
      PBT_ASSERT(o.present == (in.count(i) > 0), "IdToOffset ", i);
      if (o.present && filter.type() == IdFilter::kPartial) PBT_ASSERT(filter.IdsOffsetToId(o.value) == int64_t(i), "IdsOffsetToId");
    }
  }
  size_t from = s.draw(n), c = s.draw(n - from);
  auto sl = a.Slice(from, c);
  Model<T> ms(m.begin() + from, m.begin() + from + c);
  PBT_ASSERT(Read(sl) == ms, "slice [", from, "+", c, ") of ", form(a), " is ", Show(Read(sl)));
  PBT_ASSERT(Read(sl.ToDenseForm()) == ms, "dense form of slice");
  PBT_ASSERT(Read(sl.ToSparseForm()) == ms, "sparse form of slice");
  auto own = a.MakeUnowned().MakeOwned();
  PBT_ASSERT(Read(own) == m && own.is_owned(), "MakeOwned");
  auto mask = ToArrayMask(a);
  for (size_t i = 0; i < n; ++i) PBT_ASSERT(mask[i].present == m[i].has_value(), "mask ", i);
  {
    int64_t mx = s.boolean() ? s.draw(6) : n + s.draw(2);
    if (s.chance(1, 10)) mx = -1;
    auto f1 = ArrayFirstPresentIds(mask, mx), l1 = ArrayLastPresentIds(mask, mx);
    std::vector<int64_t> all;
    for (size_t i = 0; i < n; ++i) if (m[i]) all.push_back(i);
    auto rev = all;
    std::reverse(rev.begin(), rev.end());
    int64_t lim = std::max<int64_t>(0, std::min<int64_t>(mx, all.size()));
    all.resize(lim); rev.resize(lim);
    PBT_ASSERT(f1 == all, "first ids ", Show(f1), " not ", Show(all));
    PBT_ASSERT(l1 == rev, "last ids ", Show(l1), " not ", Show(rev));
  }
  {
    auto b = ToBuffer(a);
    PBT_ASSERT(b.ok() == (cnt == int64_t(n)), "ToBuffer");
    if (b.ok()) for (size_t i = 0; i < n; ++i) PBT_ASSERT(ToOwn<T>((*b)[i]) == *m[i], "ToBuffer ", i);
  }
  {
    int64_t off = s.boolean() ? 0 : s.range(-5, 30);
    std::vector<int> sub;
    for (size_t i = 0; i < n; ++i) if (s.chance(1, 3)) sub.push_back(i + off);
    size_t at = 0;
    ArrayForEachInSubset<T, int>(a, sub, off, [&](int64_t id, bool p, view_type_t<T> v) {
      PBT_ASSERT(at < sub.size() && id == sub[at] - off, "subset id"); at++;
      PBT_ASSERT(p == m[id].has_value() && (!p || ToOwn<T>(v) == *m[id]), "subset value at ", id);
    });
    PBT_ASSERT(at == sub.size(), "subset count");
  }
  // Equivalence.
  auto m2 = m;
  if (n > 0 && s.boolean()) {
    size_t at = s.draw(n - 1);
    if (s.boolean()) m2[at] = std::nullopt; else m2[at] = GenVal<T>(s);
  }
  if (s.chance(1, 8)) m2.push_back(std::nullopt);
  auto a2 = MakeArray<T>(s, k, m2);
  PBT_ASSERT(ArraysAreEquivalent(a, a2) == (m == m2), "equivalence of ", Show(m), " (", form(a), ") and ", Show(m2), " (", form(a2), ")");
  if (m != m2) PBT_ASSERT(FingerprintHasher("").Combine(a).Finish() != FingerprintHasher("").Combine(a2).Finish(),
                          "equal fingerprints of different arrays ", Show(m), " (", form(a), ") and ", Show(m2), " (", form(a2), ")");
  {  // a slice and its source as well
    auto x = a.Slice(from, c);
    auto f2 = s.draw(n - c);
    auto y = a.Slice(f2, c);
    if (Read(x) != Read(y)) PBT_ASSERT(FingerprintHasher("").Combine(x).Finish() != FingerprintHasher("").Combine(y).Finish(),
        "equal fingerprints of different slices ", Show(Read(x)), " ", Show(Read(y)));
  }
  // Builders.
  {
    std::vector<int64_t> ids;
    std::vector<OptionalValue<T>> vals;
    Model<T> e(n);
    SparseArrayBuilder<T> b(n, n);
    int den = 1 + s.draw(6);
    for (size_t i = 0; i < n; ++i) {
      if (!s.chance(1, den)) continue;
      if (s.chance(1, 5)) {
        int64_t o = b.NextOffset();
        b.AddId(i);
        if (s.boolean()) { auto v = GenVal<T>(s); b.SetByOffset(o, ToView<T>(v)); e[i] = v; }
      } else {
        auto v = GenVal<T>(s);
        b.Add(i, ToView<T>(v));
        e[i] = v;
      }
      ids.push_back(i);
      vals.push_back(ToOptVal<T>(e[i]));
    }
    auto r = std::move(b).Build();
    PBT_ASSERT(Read(r) == e, "sparse builder gives ", Show(Read(r)), " not ", Show(e));
    PBT_ASSERT(Read(CreateArray<T, OptionalValue<T>>(n, ids, vals)) == e, "CreateArray(ids, values)");
    std::vector<OptionalValue<T>> ov;
    for (auto& x : m) ov.push_back(ToOptVal<T>(x));
    PBT_ASSERT(Read(CreateArray<T>(ov)) == m, "CreateArray(values)");
  }
}
}  // namespace
PBT_TEST(A03_arrays, 96000, 2000000, "the array is in sparse form") {
  switch (s.draw(4)) {
    case 0: ArrayProps<int64_t>(s); break;
    case 1: ArrayProps<float>(s); break;
    case 2: ArrayProps<Bytes>(s); break;
    case 3: ArrayProps<bool>(s); break;
    default: ArrayProps<Unit>(s); break;
  }
}

PBT_TEST(A03_filters, 60000, 1200000, "two partial filters with common ids") {
  size_t n = 1 + GenSize(s, 120);
  auto gen = [&](int den) { std::vector<int64_t> r; for (size_t i = 0; i < n; ++i) if (s.chance(1, den)) r.push_back(i); return r; };
  auto A = gen(1 + s.draw(9)), B = gen(1 + s.draw(9)), C = gen(1 + s.draw(9));
  if (s.chance(1, 8)) B = A;
  auto fa = MakeFilter(s, n, A), fb = MakeFilter(s, n, B), fc = MakeFilter(s, n, C);
  s.note(Show(A), " ", Show(B), " ", Show(C));
  std::vector<int64_t> common;
  std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(common));
  if (fa.type() == IdFilter::kPartial && fb.type() == IdFilter::kPartial) {
    if (!common.empty()) s.nontrivial();
    std::vector<int64_t> got;
    IdFilter::IntersectPartial_ForEach(fa, fb, [&](int64_t id, int64_t o1, int64_t o2) {
      got.push_back(id);
      PBT_ASSERT(A[o1] == id && B[o2] == id, "offsets of ", id, ": ", o1, " ", o2);
    });
    PBT_ASSERT(got == common, "common ids ", Show(got), " not ", Show(common));
  }
  auto holds = [&](const IdFilter& f, const std::vector<int64_t>& ids) {
    for (auto i : ids) PBT_ASSERT(f.IdToOffset(i).present, "merged filter lost ", i);
    if (f.type() == IdFilter::kPartial)
      for (int64_t i = 1; i < f.ids().size(); ++i) PBT_ASSERT(f.ids()[i - 1] < f.ids()[i], "ids are not sorted");
  };
  auto mab = IdFilter::UpperBoundMerge(n, GetHeapBufferFactory(), fa, fb, fc);
  holds(mab, A); holds(mab, B); holds(mab, C);
  const IdFilter& iab = IdFilter::UpperBoundIntersect(fa, fb, fc);
  std::vector<int64_t> abc;
  std::set_intersection(common.begin(), common.end(), C.begin(), C.end(), std::back_inserter(abc));
  holds(iab, abc);
  if (fa.IsSame(fb)) PBT_ASSERT(A == B, "IsSame");
  PBT_ASSERT(fa.IsSame(fa));
  if (A != B) PBT_ASSERT(FingerprintHasher("").Combine(fa).Finish() != FingerprintHasher("").Combine(fb).Finish(), "equal fingerprints of different filters ", Show(A), " ", Show(B));
}

