// A10: the library's own accumulators against naive references.
#include <map>
#include <set>

#include "arrays_agg.h"

#include "arolla/array/multi_edge_util.h"
#include "arolla/dense_array/ops/multi_edge_util.h"
#include "arolla/qexpr/eval_context.h"
#include "arolla/qexpr/operators/aggregation/group_op_accumulators.h"

using namespace va;

namespace {
using OI = std::optional<int64_t>;
using OU = std::optional<Unit>;
using OB = std::optional<bool>;
constexpr auto kA = AccumulatorType::kAggregator;
constexpr auto kP = AccumulatorType::kPartial;
using Ids = std::vector<int64_t>;
template <class... C> using Rows = std::vector<Row<C...>>;

template <class T> using MT = Model<T>;
template <class T> bool IsNan(const T& x) {
  if constexpr (std::is_floating_point_v<T>) return std::isnan(x);
  else return false;
}
template <class V> std::vector<std::optional<V>> One(std::optional<V> v) { return {v}; }

template <class T>
OptionalValue<T> GenInitial(Src& s) {
  if (s.boolean()) return std::nullopt;
  return OptionalValue<T>(T(s.range(-4, 4)));
}
template <class T, class V>
std::optional<V> ToStd(const OptionalValue<T>& v) { return v.present ? std::optional<V>(V(v.value)) : std::nullopt; }

template <class T>
void Sums(Src& s) {
  auto init = GenInitial<T>(s);
  auto step = [&](std::optional<T> acc, T x) { return std::optional<T>(T((acc ? *acc : T(0)) + x)); };
  std::optional<T> i0 = ToStd<T, T>(init);
  if (s.boolean()) {
    Group(s, "sum", SumAggregator<T>(init), [&](const Row<>&, const Rows<T>& rows, const Ids&) {
      auto a = i0;
      for (auto& r : rows) a = step(a, *std::get<0>(r));
      return One(a);
    }, {.nan = true, .small = true});
  } else {
    Group(s, "cum_sum", SumPartialAccumulator<T>(init), [&](const Row<>&, const Rows<T>& rows, const Ids&) {
      auto a = i0;
      MT<T> res;
      for (auto& r : rows) res.push_back(a = step(a, *std::get<0>(r)));
      return res;
    }, {.nan = true, .small = true});
  }
}

template <class T>
void MinMax(Src& s) {
  bool mx = s.boolean(), part = s.boolean();
  auto init = GenInitial<T>(s);
  std::optional<T> i0 = ToStd<T, T>(init);
  auto step = [&](std::optional<T> acc, T x) -> std::optional<T> {
    if (!acc) return x;
    if (IsNan(*acc)) return acc;
    if (IsNan(x)) return x;
    return mx ? std::max(*acc, x) : std::min(*acc, x);
  };
  auto ref = [&](const Row<>&, const Rows<T>& rows, const Ids&) {
    auto a = i0;
    MT<T> res;
    for (auto& r : rows) { a = step(a, *std::get<0>(r)); if (part) res.push_back(a); }
    if (!part) res.push_back(a);
    return res;
  };
  GroupOpts o{.nan = true};
  if (mx && part) Group(s, "cum_max", MaxPartialAccumulator<T>(init), ref, o);
  else if (mx) Group(s, "max", MaxAggregator<T>(init), ref, o);
  else if (part) Group(s, "cum_min", MinPartialAccumulator<T>(init), ref, o);
  else Group(s, "min", MinAggregator<T>(init), ref, o);
}

template <class T>
void Prod(Src& s) {
  auto init = GenInitial<T>(s);
  std::optional<T> i0 = ToStd<T, T>(init);
  Group(s, "prod", ProdAggregator<T>(init), [&](const Row<>&, const Rows<T>& rows, const Ids&) {
    auto a = i0;
    for (auto& r : rows) a = a ? T(*a * *std::get<0>(r)) : *std::get<0>(r);
    return One(a);
  }, {.nan = true, .unit = true});
}
template <class T>
void Mean(Src& s) {
  Group(s, "mean", MeanAggregator<T>(), [&](const Row<>&, const Rows<T>& rows, const Ids&) {
    double sum = 0;
    for (auto& r : rows) sum += *std::get<0>(r);
    return rows.empty() ? MT<T>(1) : One(std::optional<T>(T(sum) / T(rows.size())));
  }, {.nan = true});
}
template <class T>
std::vector<T> Sorted(const Rows<T>& rows, std::optional<T>& nan) {
  std::vector<T> v;
  for (auto& r : rows) { v.push_back(*std::get<0>(r)); if (!nan && IsNan(v.back())) nan = v.back(); }
  if (!nan) std::sort(v.begin(), v.end());
  return v;
}
template <class T>
void Median(Src& s) {
  Group(s, "median", MedianAggregator<T>(), [&](const Row<>&, const Rows<T>& rows, const Ids&) {
    std::optional<T> nan;
    auto v = Sorted<T>(rows, nan);
    if (nan) return One(nan);
    return v.empty() ? MT<T>(1) : One(std::optional<T>(v[(v.size() - 1) / 2]));
  }, {.nan = true});
}
template <class T>
void InvCdf(Src& s) {
  float cdf = s.chance(1, 12) ? (s.boolean() ? NAN : s.boolean() ? -0.25f : 1.5f)
              : s.boolean() ? float(s.draw(8)) / 8 : float(s.draw(1000)) / 1000;
  Group(s, "inverse_cdf", InverseCdfAccumulator<T>(cdf), [&](const Row<>&, const Rows<T>& rows, const Ids&) {
    if (!(cdf >= 0 && cdf <= 1)) throw Error();
    std::optional<T> nan;
    auto v = Sorted<T>(rows, nan);
    if (nan) return One(nan);
    if (v.empty()) return MT<T>(1);
    // the smallest value such that at least cdf of all values are not above it
    int64_t at = int64_t(std::ceil(cdf * float(v.size()))) - 1;
    at = std::max<int64_t>(0, std::min<int64_t>(at, v.size() - 1));
    return One(std::optional<T>(v[at]));
  }, {.nan = true, .lax_empty = !(cdf >= 0 && cdf <= 1)});
}
template <class T>
void Collapse(Src& s) {
  using V = own_t<T>;
  Group(s, "collapse", CollapseAccumulator<T>(), [&](const Row<>&, const Rows<T>& rows, const Ids&) {
    std::optional<V> v;
    for (auto& r : rows) {
      if (!v) v = *std::get<0>(r);
      else if (!SameVal(*v, *std::get<0>(r))) return MT<T>(1);
    }
    return One(v);
  }, {.nan = true, .unit = s.boolean()});
}
template <class T>
void ArgExt(Src& s) {
  bool mx = s.boolean();
  using O = OptionalValue<T>;
  auto ref = [&](const Row<>&, const Rows<O>& rows, const Ids&) {
    OI best;
    for (size_t i = 0; i < rows.size(); ++i) {
      auto& x = std::get<0>(rows[i]);
      if (!x) continue;
      if (best) {
        auto b = *std::get<0>(rows[*best]);
        if (IsNan(b)) continue;
        if (!IsNan(*x) && !(mx ? *x > b : *x < b)) continue;
      }
      best = i;
    }
    return One(best);
  };
  if (mx) Group(s, "argmax", ArgMaxAggregator<T>(), ref, {.nan = true});
  else Group(s, "argmin", ArgMinAggregator<T>(), ref, {.nan = true});
}

// Ranks of NaNs are only known as a set: sort them by row.
template <class T>
struct NanPost {
  template <class G, class CM>
  void operator()(Model<int64_t>& got, const G& groups, const CM& cm) const {
    const auto& v = std::get<0>(cm);
    for (auto& g : groups) {
      std::vector<int64_t> at;
      std::vector<OI> r;
      for (auto c : g) if (v[c] && IsNan(*v[c])) { at.push_back(c); r.push_back(got[c]); }
      std::sort(r.begin(), r.end());
      for (size_t i = 0; i < at.size(); ++i) got[at[i]] = r[i];
    }
  }
};
template <class T, class B>
void OrdinalRank(Src& s) {
  bool desc = s.boolean();
  Group(s, "ordinal_rank", OrdinalRankAccumulator<T, B>(desc), [&](const Row<>&, const Rows<T, B>& rows, const Ids&) {
    Model<int64_t> res;
    for (size_t i = 0; i < rows.size(); ++i) {
      int64_t before = 0;
      auto& [x, tx] = rows[i];
      for (size_t j = 0; j < rows.size(); ++j) {
        auto& [y, ty] = rows[j];
        bool nx = IsNan(*x), ny = IsNan(*y);
        bool less;
        if (nx || ny) less = nx && (!ny || j < i);
        else if (*x != *y) less = desc ? *y > *x : *y < *x;
        else if (*tx != *ty) less = *ty < *tx;
        else less = j < i;
        before += less;
      }
      res.push_back(before);
    }
    return res;
  }, {.nan = true}, NanPost<T>());
}
template <class T>
void DenseRank(Src& s) {
  bool desc = s.boolean();
  Group(s, "dense_rank", DenseRankAccumulator<T>(desc), [&](const Row<>&, const Rows<T>& rows, const Ids&) {
    Model<int64_t> res;
    std::set<own_t<T>> all;
    for (auto& r : rows) if (!IsNan(*std::get<0>(r))) all.insert(*std::get<0>(r));
    int64_t nans = 0;
    for (auto& r : rows) {
      auto& x = *std::get<0>(r);
      if (IsNan(x)) { res.push_back(all.size() + nans++); continue; }
      int64_t below = std::distance(all.begin(), all.find(x));
      res.push_back(desc ? all.size() - 1 - below : below);
    }
    return res;
  }, {.nan = true}, NanPost<T>());
}
template <class T, class W, class R>
void WeightedCdf(Src& s) {
  Group(s, "weighted_cdf", WeightedCDFAccumulator<T, W>(), [&](const Row<>&, const Rows<T, W>& rows, const Ids&) {
    MT<R> res;
    double total = 0;
    std::optional<T> nan;
    for (auto& [v, w] : rows) { total += *w; if (!nan && IsNan(*v)) nan = *v; }
    for (auto& [v, w] : rows) {
      if (nan) { res.push_back(R(*nan)); continue; }
      double sum = 0;
      for (auto& [v2, w2] : rows) if (*v2 <= *v) sum += *w2;
      res.push_back(R(R(sum) / total));
    }
    return res;
  }, {.nan = s.boolean(), .small = true});
}
template <class T>
void WeightedAvg(Src& s) {
  Group(s, "weighted_average", WeightedAverageAccumulator<T>(), [&](const Row<>&, const Rows<T, T>& rows, const Ids&) {
    double a = 0, b = 0;
    for (auto& [v, w] : rows) { a += double(*v) * *w; b += *w; }
    return One(std::optional<T>(T(a / b)));
  }, {.nan = s.boolean()});
}
void InverseMapping(Src& s) {
  using O = OptionalValue<int64_t>;
  Group(s, "inverse_mapping", InverseMappingAccumulator(), [&](const Row<>&, const Rows<O>& rows, const Ids&) {
    Model<int64_t> res(rows.size());
    for (size_t i = 0; i < rows.size(); ++i) {
      auto& x = std::get<0>(rows[i]);
      if (!x) continue;
      if (*x < 0 || *x >= int64_t(rows.size()) || res[*x]) throw Error();
      res[*x] = i;
    }
    return res;
  }, {.unit = s.boolean()});
}
// Real permutations: run on one group per parent with valid values.
template <class Edge>
void Permutations(Src& s) {
  Keep k;
  int64_t parents = GenSize(s, 12);
  auto e = GenEdge(s, parents, 50);
  std::vector<std::vector<int64_t>> g(parents);
  for (size_t i = 0; i < e.map.size(); ++i) if (e.map[i]) g[*e.map[i]].push_back(i);
  Model<int64_t> in(e.map.size()), want(e.map.size());
  for (auto& c : g) {
    std::vector<int64_t> perm(c.size());
    for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
    for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[s.draw(i - 1)]);
    for (size_t i = 0; i < perm.size(); ++i) {
      if (s.chance(1, 6)) continue;
      in[c[i]] = perm[i];
      want[c[perm[i]]] = i;
    }
    if (c.size() > 2) s.nontrivial();
  }
  s.note(Show(e), " values ", Show(in));
  if constexpr (std::is_same_v<Edge, DenseArrayEdge>) {
    auto r = DenseGroupOps<InverseMappingAccumulator>(GetHeapBufferFactory()).Apply(MakeDenseEdge(s, k, e), MakeDense<int64_t>(s, k, in));
    PBT_ASSERT(r.ok(), r.status().ToString());
    PBT_ASSERT(Read(*r) == want, "inverse is ", Show(Read(*r)), " not ", Show(want));
  } else {
    auto r = ArrayGroupOp<InverseMappingAccumulator>(GetHeapBufferFactory()).Apply(MakeArrayEdge(s, k, e), MakeArray<int64_t>(s, k, in));
    PBT_ASSERT(r.ok(), r.status().ToString());
    PBT_ASSERT(Read(*r) == want, "inverse is ", Show(Read(*r)), " not ", Show(want));
  }
}
template <class T>
void Take(Src& s) {
  using O = OptionalValue<T>;
  using OO = OptionalValue<int64_t>;
  Group(s, "take_over", ArrayTakeOverAccumulator<T>(), [&](const Row<>&, const Rows<O, OO>& rows, const Ids&) {
    Model<T> res;
    for (auto& [v, at] : rows) {
      if (!at) { res.push_back(std::nullopt); continue; }
      if (*at < 0 || *at >= int64_t(rows.size())) throw Error();
      res.push_back(std::get<0>(rows[*at]));
    }
    return res;
  }, {.unit = true});
}
struct GroupByPost {
  template <class G, class CM>
  void operator()(Model<int64_t>& got, const G&, const CM&) const {
    std::map<int64_t, int64_t> ids;
    for (auto& x : got) if (x) { auto n = ids.size(); x = ids.emplace(*x, n).first->second; }
    // the new groups are numbered without gaps
    if (!ids.empty()) PBT_ASSERT(ids.begin()->first == 0 && ids.rbegin()->first == int64_t(ids.size()) - 1, "group numbers");
  }
};
// Keys that differ, or parents that differ, give different groups.
template <class T, class Edge>
void GroupBy(Src& s) {
  Keep k;
  int64_t parents = GenSize(s, 20);
  auto e = GenEdge(s, parents, 60);
  auto keys = GenArg<T>(s, e.map.size(), {.nan = s.chance(1, 6)});
  s.note(Show(e), " keys ", Show(keys));
  bool fails = false;
  Model<int64_t> want(e.map.size());
  std::map<std::pair<int64_t, own_t<T>>, int64_t> ids;
  for (size_t i = 0; i < e.map.size(); ++i) {
    if (!e.map[i] || !keys[i]) continue;
    if (IsNan(*keys[i])) { fails = true; continue; }
    auto n = ids.size();
    want[i] = ids.emplace(std::make_pair(*e.map[i], *keys[i]), n).first->second;
  }
  if (ids.size() > 2) s.nontrivial();
  int64_t counter = 0;
  Model<int64_t> got;
  absl::Status st;
  if constexpr (std::is_same_v<Edge, DenseArrayEdge>) {
    auto r = DenseGroupOps<GroupByAccumulator<T>>(GetHeapBufferFactory(), GroupByAccumulator<T>(&counter)).Apply(MakeDenseEdge(s, k, e), MakeDense<T>(s, k, keys));
    st = r.status();
    if (st.ok()) got = Read(*r);
  } else {
    auto r = ArrayGroupOp<GroupByAccumulator<T>>(GetHeapBufferFactory(), GroupByAccumulator<T>(&counter)).Apply(MakeArrayEdge(s, k, e), MakeArray<T>(s, k, keys));
    st = r.status();
    if (st.ok()) got = Read(*r);
  }
  PBT_ASSERT(st.ok() == !fails, st.ToString());
  if (fails) return;
  PBT_ASSERT(counter == int64_t(ids.size()), "counted ", counter, " groups, not ", ids.size());
  GroupByPost()(got, 0, 0);
  PBT_ASSERT(got == want, "groups ", Show(got), " not ", Show(want));
}

struct DK {
  using Util = DenseArrayMultiEdgeUtil;
  template <class T> static DenseArray<T> make(Src& s, Keep& k, const Model<T>& m) { return MakeDense<T>(s, k, m); }
  static DenseArrayEdge edge(Src& s, Keep& k, const EdgeModel& e) { return MakeDenseEdge(s, k, e); }
};
struct AK {
  using Util = ArrayMultiEdgeUtil;
  template <class T> static Array<T> make(Src& s, Keep& k, const Model<T>& m) { return MakeArray<T>(s, k, m); }
  static ArrayEdge edge(Src& s, Keep& k, const EdgeModel& e) { return MakeArrayEdge(s, k, e); }
};
template <class Kit, class T>
void TakeOverOver(Src& s) {
  Keep k;
  int64_t parents = GenSize(s, 10);
  auto ve = GenEdge(s, parents, 60), oe = GenEdge(s, parents, 60);
  auto vals = GenModel<T>(s, ve.map.size());
  Model<int64_t> offs(oe.map.size());
  std::vector<Model<T>> g(parents);
  for (size_t i = 0; i < ve.map.size(); ++i) if (ve.map[i]) g[*ve.map[i]].push_back(vals[i]);
  bool bad = s.chance(1, 5);
  Model<T> want(oe.map.size());
  bool fails = false;
  for (size_t i = 0; i < offs.size(); ++i) {
    if (s.chance(1, 6)) continue;
    int64_t n = oe.map[i] ? g[*oe.map[i]].size() : 3;
    if (bad && s.chance(1, 10)) offs[i] = s.boolean() ? n : -1;
    else if (n) offs[i] = s.draw(n - 1);
    if (!offs[i] || !oe.map[i]) continue;
    if (*offs[i] < 0 || *offs[i] >= n) fails = true;
    else want[i] = g[*oe.map[i]][*offs[i]];
  }
  for (auto& w : want) if (w) s.nontrivial();
  s.note(Show(ve), Show(vals), " ", Show(oe), Show(offs));
  EvaluationContext ctx;
  auto r = ArrayTakeOverOverOp<typename Kit::Util>()(&ctx, Kit::template make<T>(s, k, vals), Kit::template make<int64_t>(s, k, offs),
                                                     Kit::edge(s, k, ve), Kit::edge(s, k, oe));
  PBT_ASSERT(r.ok() == !fails, r.status().ToString());
  if (r.ok()) PBT_ASSERT(Read(*r) == want, "take gives ", Show(Read(*r)), " not ", Show(want));
}
}  // namespace

#if PART == 1
PBT_TEST(A10_sums, 20000, 500000, "several valid parents and a group of several valid rows") {
  switch (s.draw(4)) {
    case 0: return Sums<int>(s);
    case 1: return Sums<int64_t>(s);
    case 2: return Sums<float>(s);
    case 3: return Sums<double>(s);
    default: return Prod<int>(s);
  }
}
#elif PART == 2
PBT_TEST(A10_means, 20000, 500000, "several valid parents and a group of several valid rows") {
  switch (s.draw(4)) {
    case 0: return Prod<float>(s);
    case 1: return Mean<float>(s);
    case 2: return Mean<double>(s);
    case 3: return WeightedAvg<float>(s);
    default: return WeightedAvg<double>(s);
  }
}
#elif PART == 3
PBT_TEST(A10_extrema, 20000, 500000, "several valid parents and a group of several valid rows") {
  switch (s.draw(3)) {
    case 0: return MinMax<int>(s);
    case 1: return MinMax<int64_t>(s);
    case 2: return MinMax<float>(s);
    default: return MinMax<double>(s);
  }
}
#elif PART == 4
PBT_TEST(A10_selected, 25000, 600000, "several valid parents and a group of several valid rows") {
  switch (s.draw(5)) {
    case 0: return ArgExt<float>(s);
    case 1: return ArgExt<int64_t>(s);
    case 2: return Median<float>(s);
    case 3: return Median<int>(s);
    case 4: return InvCdf<float>(s);
    default: return InvCdf<int64_t>(s);
  }
}
#elif PART == 5
PBT_TEST(A10_logic, 40000, 1000000, "several valid parents and a group of several valid rows") {
  using OBv = OptionalValue<bool>;
  switch (s.draw(8)) {
    case 0: return Group(s, "count", SimpleCountAggregator(), [](const Row<>&, const Rows<Unit>& r, const Ids&) { return One(OI(r.size())); });
    case 1: return Group(s, "cum_count", CountPartialAccumulator(), [](const Row<>&, const Rows<Unit>& r, const Ids&) {
      Model<int64_t> m;
      for (size_t i = 0; i < r.size(); ++i) m.push_back(i + 1);
      return m;
    });
    case 2: return Group(s, "any", AnyAggregator(), [](const Row<>&, const Rows<Unit>& r, const Ids&) { return One(r.empty() ? OU() : OU(Unit{})); });
    case 3: return Group(s, "all", AllAggregator(), [](const Row<>&, const Rows<OptionalUnit>& r, const Ids&) {
      for (auto& [x] : r) if (!x) return One(OU());
      return One(OU(Unit{}));
    });
    case 4: return Group(s, "logical all", LogicalAllAggregator(), [](const Row<>&, const Rows<OBv>& r, const Ids&) {
      bool f = false, m = false;
      for (auto& [x] : r) { f = f || (x && !*x); m = m || !x; }
      return One(f ? OB(false) : m ? OB() : OB(true));
    });
    case 5: return Group(s, "logical any", LogicalAnyAggregator(), [](const Row<>&, const Rows<OBv>& r, const Ids&) {
      bool t = false, m = false;
      for (auto& [x] : r) { t = t || (x && *x); m = m || !x; }
      return One(t ? OB(true) : m ? OB() : OB(false));
    });
    case 6: return Collapse<Text>(s);
    case 7: return Collapse<float>(s);
    default: {
      std::string sep = s.boolean() ? ", " : s.boolean() ? "" : "ab";
      return Group(s, "join", StringJoinAggregator<Text>(sep), [&](const Row<>&, const Rows<Text>& r, const Ids&) {
        std::optional<std::string> res;
        for (auto& [x] : r) res = res ? *res + sep + *x : *x;
        return One(res);
      });
    }
  }
}
#elif PART == 6
PBT_TEST(A10_ranks, 30000, 800000, "several valid parents and a group of several valid rows") {
  switch (s.draw(7)) {
    case 0: return OrdinalRank<int64_t, int64_t>(s);
    case 1: return OrdinalRank<float, int64_t>(s);
    case 2: return OrdinalRank<Text, int>(s);
    case 3: return DenseRank<int64_t>(s);
    case 4: return DenseRank<float>(s);
    case 5: return DenseRank<Text>(s);
    case 6: return WeightedCdf<float, float, float>(s);
    default: return WeightedCdf<double, int64_t, double>(s);
  }
}
#elif PART == 7
PBT_TEST(A10_indices, 40000, 1000000, "several groups, or taken values") {
  switch (s.draw(9)) {
    case 0: return InverseMapping(s);
    case 1: return Permutations<DenseArrayEdge>(s);
    case 2: return Permutations<ArrayEdge>(s);
    case 3: return Take<int64_t>(s);
    case 4: return Take<Text>(s);
    case 5: return GroupBy<int64_t, DenseArrayEdge>(s);
    case 6: return GroupBy<float, ArrayEdge>(s);
    case 7: return GroupBy<Text, ArrayEdge>(s);
    case 8: return TakeOverOver<DK, Text>(s);
    default: return TakeOverOver<AK, Text>(s);
  }
}
#endif
