// E12 operators over groups against their documentation.
#include "ops.h"

#include "absl/strings/str_join.h"

namespace {
using namespace ops;  // NOLINT

struct Edge {
  std::vector<std::optional<int>> map;
  int parents = 0;
  bool scalar = false;  // everything is one group
  std::vector<std::vector<int>> groups() const {
    std::vector<std::vector<int>> g(parents);
    for (size_t i = 0; i < map.size(); ++i) if (map[i]) g[*map[i]].push_back(i);
    return g;
  }
};

Edge GenEdge(Src& s, int n) {
  Edge e;
  if (s.chance(1, 4)) {
    e.scalar = true;
    e.parents = 1;
    e.map.assign(n, 0);
    return e;
  }
  e.parents = s.range(n ? 1 : 0, 6);
  int mode = s.draw(2);  // sorted, any, any with some in no group
  for (int i = 0; i < n; ++i) {
    if (mode == 2 && s.chance(1, 5)) e.map.push_back(std::nullopt);
    else e.map.push_back(s.draw(e.parents - 1));
  }
  if (mode == 0) std::sort(e.map.begin(), e.map.end());
  return e;
}

TypedValue MakeEdge(const Edge& e, bool dense, bool try_split) {
  int n = e.map.size();
  if (e.scalar) {
    return dense ? TypedValue::FromValue(DenseArrayGroupScalarEdge(n)) : TypedValue::FromValue(ArrayGroupScalarEdge(n));
  }
  bool sorted = std::is_sorted(e.map.begin(), e.map.end()) && (n == 0 || e.map[0].has_value());
  if (sorted && try_split) {
    std::vector<OptionalValue<int64_t>> sp(e.parents + 1, int64_t{0});
    for (int p = 0; p < e.parents; ++p) sp[p + 1] = sp[p].value + std::count(e.map.begin(), e.map.end(), std::optional<int>(p));
    auto a = CreateDenseArray<int64_t>(sp);
    return dense ? TypedValue::FromValue(*DenseArrayEdge::FromSplitPoints(a)) : TypedValue::FromValue(*ArrayEdge::FromSplitPoints(Array<int64_t>(a)));
  }
  std::vector<OptionalValue<int64_t>> m(n);
  for (int i = 0; i < n; ++i) if (e.map[i]) m[i] = *e.map[i];
  auto a = CreateDenseArray<int64_t>(m);
  if (dense) return TypedValue::FromValue(*DenseArrayEdge::FromMapping(a, e.parents));
  return TypedValue::FromValue(*ArrayEdge::FromMapping(try_split ? Array<int64_t>(a) : Array<int64_t>(a).ToSparseForm(), e.parents));
}

std::string ShowEdge(const Edge& e) {
  std::string r = e.scalar ? "scalar:" : absl::StrCat(e.parents, ":");
  for (auto& m : e.map) absl::StrAppend(&r, " ", m ? absl::StrCat(*m) : "-");
  return r;
}

// small: no extreme values
Col GenCol(Src& s, NT t, int n, bool small, bool nan = true) {
  Col c(n);
  int mode = s.draw(3);
  int spread = s.boolean() ? 3 : 12;
  for (auto& x : c) {
    if (!(mode == 3 || (mode > 0 && s.chance(3, 4)))) continue;
    if (t == BOOL) { x = s.boolean(); continue; }
    if (t == UNIT) { x = 1; continue; }
    if (IsF(t)) {
      if (!small && s.chance(1, 12)) {
        switch (s.draw(4)) {
          case 0: x = INFINITY; break;
          case 1: x = -INFINITY; break;
          case 2: x = nan ? NAN : 0; break;
          default: x = -0.0; break;
        }
        continue;
      }
      x = s.range(-spread, spread) / (s.boolean() ? 1.0L : 4.0L);
    } else {
      x = s.range(-spread, spread);
      if (!small && s.chance(1, 15)) {
        if (t == I32) x = s.boolean() ? INT32_MIN : INT32_MAX;
        else x = s.boolean() ? static_cast<long double>(INT64_MIN) : static_cast<long double>(INT64_MAX);
      }
    }
  }
  return c;
}

// One group: its elements in order. Results of aggregation have one element,
// others as many as the group. No value: not specified.
using Group = std::vector<const Num*>;
using Out = std::vector<std::optional<Num>>;

std::vector<long double> Present(const Col& g) {
  std::vector<long double> r;
  for (auto& x : g) if (x) r.push_back(*x);
  return r;
}

struct Case {
  std::string op;
  NT t;
  Col x, y;          // y: weights, tie breakers
  bool has_y = false;
  bool flag = false;  // descending, unbiased
  double p = 0;       // quantile, beta
  Edge e;
};

long double Eps(NT t) { return t == F32 || t == I32 || t == I64 ? 3e-5L : 1e-10L; }

// Of one group; sub(x), sub(y) are given.
Out Model(const Case& c, const Col& x, const Col& y) {
  auto v = Present(x);
  int n = x.size();
  bool nan = std::any_of(v.begin(), v.end(), [](auto z) { return std::isnan(z); });
  auto one = [](Num z) { return Out{z}; };
  const std::string& op = c.op;
  if (op == "array.count") return one(v.size());
  if (op == "core.any") return one(v.empty() ? Num() : Num(1));
  if (op == "core.all") return one(v.size() == x.size() ? Num(1) : Num());
  if (op == "bool.logical_all" || op == "bool.logical_any") {
    bool zero = op == "bool.logical_any";
    if (std::any_of(v.begin(), v.end(), [&](auto z) { return z == zero; })) return one(zero);
    return one(v.size() < x.size() ? Num() : Num(!zero));
  }
  if (op == "math.sum" || op == "math._sum_sparse") {
    long double r = 0;
    for (auto z : v) r += z;
    if (v.empty() && op != "math.sum") return one(std::nullopt);
    return one(r);
  }
  if (op == "array.collapse") {
    if (v.empty()) return one(std::nullopt);
    if (nan && v.size() > 1 && !std::all_of(v.begin(), v.end(), [](auto z) { return std::isnan(z); })) return one(std::nullopt);
    for (auto z : v) if (!nan && z != v[0]) return one(std::nullopt);
    return one(v[0]);
  }
  if (op == "math.prod" || op == "math.mean" || op == "math.min" || op == "math.max" || op == "math.median" || op == "math.inverse_cdf" || op == "math.std" || op == "math.var" || op == "math.skew" || op == "math.kurtosis") {
    if (v.empty()) return one(std::nullopt);
    if (op == "math.prod") {
      long double r = 1;
      for (auto z : v) r *= z;
      if (std::fabs(r) > (c.t == I32 ? 1e9L : c.t == I64 ? 9e18L : 1e30L)) return {std::nullopt};
      return one(r);
    }
    long double sum = 0;
    for (auto z : v) sum += z;
    long double mean = sum / v.size();
    if (op == "math.mean") return one(mean);
    if (op == "math.std" || op == "math.var" || op == "math.skew" || op == "math.kurtosis") {
      long double m2 = 0, m3 = 0, m4 = 0;
      bool equal = true;
      for (auto z : v) {
        auto d = z - mean;
        m2 += d * d; m3 += d * d * d; m4 += d * d * d * d;
        equal = equal && z == v[0];
      }
      long double k = v.size();
      if (op == "math.skew" || op == "math.kurtosis") {
        if (equal) return {std::nullopt};
        return one(op == "math.skew" ? std::sqrt(k) * m3 / std::pow(m2, 1.5L) : k * m4 / (m2 * m2) - 3);
      }
      if (k == 1) return {std::nullopt};
      long double var = m2 / (c.flag ? k - 1 : k);
      if (op == "math.var") return one(var);
      if (equal) return {std::nullopt};  // the root of a rounding error
      return one(std::sqrt(var));
    }
    if (nan) return one(NAN);
    std::sort(v.begin(), v.end());
    if (op == "math.min") return one(v[0]);
    if (op == "math.max") return one(v.back());
    if (op == "math.median") return one(v[(v.size() - 1) / 2]);
    int64_t at = std::ceil(c.p * v.size()) - 1;
    return one(v[std::clamp<int64_t>(at, 0, v.size() - 1)]);
  }
  if (op == "math.covariance" || op == "math.correlation" || op == "math.weighted_average") {
    long double sx = 0, sy = 0, k = 0, sxy = 0;
    for (int i = 0; i < n; ++i) if (x[i] && y[i]) { sx += *x[i]; sy += *y[i]; sxy += *x[i] * *y[i]; k++; }
    if (k == 0) return op == "math.weighted_average" ? Out{std::nullopt} : one(std::nullopt);
    if (op == "math.weighted_average") {
      if (sy == 0) return {std::nullopt};
      return one(sxy / sy);
    }
    if (k == 1) return {std::nullopt};
    long double cov = 0, vx = 0, vy = 0;
    for (int i = 0; i < n; ++i) {
      if (!x[i] || !y[i]) continue;
      auto dx = *x[i] - sx / k, dy = *y[i] - sy / k;
      cov += dx * dy; vx += dx * dx; vy += dy * dy;
    }
    if (op == "math.covariance") return one(cov / (c.flag ? k - 1 : k));
    if (vx < 1e-6 || vy < 1e-6) return {std::nullopt};
    return one(cov / std::sqrt(vx * vy));
  }
  // One for each element.
  Out r(n, Num());
  if (op == "array.agg_index") {
    for (int i = 0; i < n; ++i) r[i] = x[i] ? Num(i) : Num();
  } else if (op == "array.cum_count") {
    int k = 0;
    for (int i = 0; i < n; ++i) if (x[i]) r[i] = Num(++k);
  } else if (op == "math._cum_sum" || op == "math._cum_min" || op == "math._cum_max") {
    Num a;
    for (int i = 0; i < n; ++i) {
      if (!x[i]) continue;
      if (!a) a = *x[i];
      else if (op == "math._cum_sum") a = *a + *x[i];
      else if (std::isnan(*a) || std::isnan(*x[i])) a = NAN;
      else a = op == "math._cum_min" ? std::min(*a, *x[i]) : std::max(*a, *x[i]);
      r[i] = a;
    }
  } else if (op == "math.softmax") {
    long double sum = 0;
    for (auto z : v) sum += std::exp(c.p * z);
    for (int i = 0; i < n; ++i) if (x[i]) r[i] = Num(std::exp(c.p * *x[i]) / sum);
  } else if (op == "math.cdf") {
    long double total = 0;
    for (int i = 0; i < n; ++i) {
      if (!x[i] || (c.has_y && !y[i])) continue;
      total += c.has_y ? *y[i] : 1;
    }
    nan = false;
    for (int i = 0; i < n; ++i) if (x[i] && (!c.has_y || y[i]) && std::isnan(*x[i])) nan = true;
    for (int i = 0; i < n; ++i) {
      if (!x[i] || (c.has_y && !y[i])) continue;
      long double below = 0;
      for (int j = 0; j < n; ++j) if (x[j] && (!c.has_y || y[j]) && *x[j] <= *x[i]) below += c.has_y ? *y[j] : 1;
      r[i] = Num(nan ? NAN : below / total);
      if (total == 0) r[i] = std::nullopt;
    }
  } else if (op == "array.dense_rank") {
    std::set<long double> d;
    for (auto z : v) if (!std::isnan(z)) d.insert(z);
    int nans = std::count_if(v.begin(), v.end(), [](auto z) { return std::isnan(z); });
    for (int i = 0; i < n; ++i) {
      if (!x[i]) continue;
      if (std::isnan(*x[i])) {
        if (nans > 1) r[i] = std::nullopt;  // in any order
        else r[i] = Num(d.size());
        continue;
      }
      int k = 0;
      for (auto z : d) k += c.flag ? z > *x[i] : z < *x[i];
      r[i] = Num(k);
    }
  } else if (op == "array.ordinal_rank") {
    std::vector<int> ids;
    for (int i = 0; i < n; ++i) if (x[i] && (!c.has_y || y[i])) ids.push_back(i);
    auto nanv = [&](int i) { return std::isnan(*x[i]); };
    std::stable_sort(ids.begin(), ids.end(), [&](int a, int b) {
      if (nanv(a) != nanv(b)) return nanv(b);
      if (!nanv(a) && *x[a] != *x[b]) return c.flag ? *x[a] > *x[b] : *x[a] < *x[b];
      if (c.has_y && *y[a] != *y[b]) return *y[a] < *y[b];
      return false;
    });
    // NaNs are not equal, so that ties of theirs are not specified.
    int nans = std::count_if(ids.begin(), ids.end(), nanv);
    for (size_t k = 0; k < ids.size(); ++k) {
      if (nans > 1 && c.has_y && nanv(ids[k])) r[ids[k]] = std::nullopt;
      else r[ids[k]] = Num(k);
    }
  } else if (op == "array.inverse_mapping") {
    for (int i = 0; i < n; ++i) if (x[i]) r[static_cast<int>(*x[i])] = Num(i);
  } else {
    PBT_FAIL("no model of ", op);
  }
  return r;
}

AK GenKind(Src& s, bool dense) { return dense ? aDense : static_cast<AK>(s.range(aFull, aDefault)); }

bool PerChild(const std::string& op) {
  static const std::set<std::string> k = {"array.agg_index", "array.cum_count", "math._cum_sum", "math._cum_min", "math._cum_max", "math.softmax", "math.cdf", "array.dense_rank", "array.ordinal_rank", "array.inverse_mapping"};
  return k.count(op);
}

PBT_TEST(E12_groups, 25000, 600000, "at least two groups of two elements or more, some elements missing") {
  Init();
  static const std::vector<std::string> kOps = {
      "array.count", "core.any", "core.all", "bool.logical_all", "bool.logical_any", "math.sum", "math._sum_sparse", "array.collapse", "math.prod", "math.mean", "math.min", "math.max", "math.median", "math.inverse_cdf", "math.std", "math.var", "math.skew", "math.kurtosis", "math.covariance", "math.correlation", "math.weighted_average",
      "array.agg_index", "array.cum_count", "math._cum_sum", "math._cum_min", "math._cum_max", "math.softmax", "math.cdf", "array.dense_rank", "array.ordinal_rank", "array.inverse_mapping"};
  Case c;
  c.op = s.pick(kOps);
  auto is = [&](std::initializer_list<const char*> l) { return std::any_of(l.begin(), l.end(), [&](auto z) { return c.op == z; }); };
  int n = s.chance(1, 12) ? s.range(30, 140) : s.range(0, 14);
  c.e = GenEdge(s, n);
  c.t = static_cast<NT>(s.draw(3));
  bool small = true;
  if (is({"core.any", "core.all"})) c.t = UNIT;
  else if (is({"bool.logical_all", "bool.logical_any"})) c.t = BOOL;
  else if (is({"array.collapse", "math.min", "math.max", "math.median", "math.inverse_cdf", "math._cum_min", "math._cum_max", "array.dense_rank", "array.ordinal_rank", "array.count", "array.cum_count", "array.agg_index", "math.cdf"})) small = false;
  else if (is({"math.sum", "math.mean", "math._sum_sparse", "math._cum_sum"}) && IsF(c.t)) small = false;
  c.x = GenCol(s, c.t, n, small);
  NT ty = c.t;
  c.flag = s.boolean();
  std::vector<TypedValue> args;
  bool dense = s.boolean();
  if (is({"math.covariance", "math.correlation"})) {
    c.has_y = true;
    c.y = GenCol(s, ty, n, true);
  } else if (is({"math.weighted_average"})) {
    c.has_y = true;
    if (!IsF(c.t)) c.t = ty = F32, c.x = GenCol(s, c.t, n, true);
    c.y = GenCol(s, ty, n, true);
  } else if (is({"math.cdf"})) {
    c.has_y = s.boolean();
    if (c.has_y) {
      ty = c.t;
      c.y = GenCol(s, ty, n, true);
      for (auto& w : c.y) if (w) w = std::fabs(*w);
    }
  } else if (is({"array.ordinal_rank"})) {
    c.has_y = s.boolean();
    if (c.has_y) {
      ty = s.boolean() ? I32 : I64;
      c.y = GenCol(s, ty, n, true);
    }
  } else if (is({"math.inverse_cdf"})) {
    c.p = s.boolean() ? s.range(0, 8) / 8.0 : s.range(0, 4) * 0.25;
  } else if (is({"math.softmax"})) {
    if (!IsF(c.t)) c.t = F32, c.x = GenCol(s, c.t, n, true);
    c.p = s.range(1, 4) / 2.0;
  }
  if (is({"array.inverse_mapping"})) {
    c.t = s.boolean() ? I32 : I64;
    c.x.assign(n, std::nullopt);
    for (auto& g : c.e.groups()) {
      std::vector<int> perm(g.size());
      for (size_t i = 0; i < g.size(); ++i) perm[i] = i;
      for (size_t i = g.size(); i > 1; --i) std::swap(perm[i - 1], perm[s.draw(i - 1)]);
      for (size_t i = 0; i < g.size(); ++i) if (!s.chance(1, 4)) c.x[g[i]] = perm[i];
    }
    for (int i = 0; i < n; ++i) if (!c.e.map[i] && s.boolean()) c.x[i] = s.range(-2, 99);
  }
  if (c.t == UNIT || c.t == BOOL) ty = c.t;
  TypedValue x = Make(c.t, c.x, GenKind(s, dense));
  // Without an edge all is one group.
  bool no_edge = c.e.scalar && !is({"math._cum_sum", "math._cum_min", "math._cum_max", "array.agg_index", "math.softmax"}) && s.boolean();
  auto edge = no_edge ? GetUnspecifiedQValue() : MakeEdge(c.e, dense, s.boolean());
  args.push_back(x);
  uint32_t lit = 0;
  if (is({"math.covariance", "math.correlation", "math.weighted_average"})) args.push_back(Make(ty, c.y, GenKind(s, dense)));
  if (is({"math.softmax"})) args.push_back(Scalar(c.t, c.p));
  if (is({"math.cdf", "array.ordinal_rank"})) args.push_back(c.has_y ? Make(ty, c.y, GenKind(s, dense)) : GetUnspecifiedQValue());
  if (is({"math.inverse_cdf"})) args.push_back(Scalar(F32, c.p));
  args.push_back(edge);
  if (is({"math.std", "math.var", "math.covariance", "array.dense_rank", "array.ordinal_rank"})) { lit |= 1u << args.size(); args.push_back(Scalar(BOOL, c.flag)); }
  if (no_edge) lit |= ~0u;
  if (s.chance(1, 5)) lit |= s.draw(31);
  auto what = [&] { return absl::StrCat(c.op, " of ", Show(c.x), " type ", c.t, c.has_y ? " and " + Show(c.y) : "", " over ", ShowEdge(c.e), " flag ", c.flag, " p ", c.p); };
  // Operators of the Python library are called as it calls the backend.
  auto got = is({"math._cum_sum", "math._cum_min", "math._cum_max"}) ? InvokeOperator(c.op, args, x.GetType()) : Call(c.op, args, lit);
  PBT_ASSERT(got.ok(), got.status(), " for ", what());
  Col r = Read(got->AsRef());

  auto groups = c.e.groups();
  int big = 0;
  for (auto& g : groups) big += g.size() >= 2;
  if (big >= 2 && std::count(c.x.begin(), c.x.end(), std::nullopt)) s.nontrivial();
  auto check = [&](Num g, std::optional<Num> w, const std::string& where) {
    if (!w) return;
    PBT_ASSERT(g.has_value() == w->has_value() && (!g || Near(*g, **w, is({"math.prod", "math.mean", "math.sum", "math._sum_sparse", "math._cum_sum", "math.std", "math.var", "math.skew", "math.kurtosis", "math.covariance", "math.correlation", "math.weighted_average", "math.softmax", "math.cdf"}) && (IsF(c.t) || !is({"math.prod", "math.sum", "math._sum_sparse", "math._cum_sum"})) ? Eps(c.t) * (is({"math.skew", "math.kurtosis"}) ? 30 : 1) : 0)),
               what(), ": ", where, " is ", g ? absl::StrCat(static_cast<double>(*g)) : "missing", " instead of ", *w ? absl::StrCat(static_cast<double>(**w)) : "missing");
  };
  auto sub = [](const Col& c, const std::vector<int>& ids) {
    Col r;
    for (int i : ids) if (i < static_cast<int>(c.size())) r.push_back(c[i]);
    return r;
  };
  if (PerChild(c.op)) {
    PBT_ASSERT(r.size() == c.x.size(), what());
    std::vector<bool> done(n);
    for (size_t g = 0; g < groups.size(); ++g) {
      auto want = Model(c, sub(c.x, groups[g]), sub(c.y, groups[g]));
      for (size_t i = 0; i < groups[g].size(); ++i) {
        check(r[groups[g][i]], want[i], absl::StrCat("element ", groups[g][i]));
        done[groups[g][i]] = true;
      }
    }
    for (int i = 0; i < n; ++i) if (!done[i]) check(r[i], Num(), absl::StrCat("element ", i, " of no group"));
  } else {
    PBT_ASSERT(r.size() == groups.size(), what(), " has ", r.size(), " elements");
    for (size_t g = 0; g < groups.size(); ++g) check(r[g], Model(c, sub(c.x, groups[g]), sub(c.y, groups[g]))[0], absl::StrCat("group ", g));
  }
}

}  // namespace

