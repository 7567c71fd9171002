// Group operations against a per-group reference.
#ifndef VERIF_HARNESS_ARRAYS_AGG_H_
#define VERIF_HARNESS_ARRAYS_AGG_H_
#include <cmath>
#include <tuple>
#include <type_traits>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/array/group_op.h"
#include "arolla/dense_array/ops/dense_group_ops.h"
#include "arolla/qexpr/aggregation_ops_interface.h"
#include "arolla/util/meta.h"
#include "arrays.h"

namespace va {

template <class X>
using base_t = strip_optional_t<X>;
template <class X>
using opt_own = std::optional<own_t<base_t<X>>>;
template <class... X>
using Row = std::tuple<opt_own<X>...>;

struct Error {};  // thrown by a reference when the whole operation must fail

// The argument of type X (T or OptionalValue<T>) for a row; the model value
// must outlive it.
template <class X>
view_type_t<X> Arg(const opt_own<X>& v) {
  if constexpr (is_optional_v<X>) {
    if (!v) return std::nullopt;
    return OptionalValue<view_type_t<base_t<X>>>(ToView<base_t<X>>(*v));
  } else {
    return ToView<X>(*v);
  }
}
template <class X>
bool RowHas(const opt_own<X>& v) { return is_optional_v<X> || v.has_value(); }

template <class V>
bool SameVal(const V& a, const V& b) {
  if constexpr (std::is_floating_point_v<V>) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  }
  return a == b;
}
template <class V>
bool SameModel(const std::vector<std::optional<V>>& a, const std::vector<std::optional<V>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].has_value() != b[i].has_value()) return false;
    if (a[i] && !SameVal(*a[i], *b[i])) return false;
  }
  return true;
}

struct GroupOpts {
  bool nan = false;    // some float values are NaN
  bool small = false;  // integers stay small
  bool unit = false;   // numbers out of -1, 0, 1
  bool lax_empty = false;  // without groups it may or may not fail
};

template <class X>
Model<base_t<X>> GenArg(Src& s, size_t n, const GroupOpts& o) {
  using T = base_t<X>;
  auto m = GenModel<T>(s, n);
  if constexpr (std::is_floating_point_v<T>) {
    bool some = o.nan && s.boolean();
    for (auto& x : m) {
      if (!x) continue;
      if (o.unit) *x = *x > 1 ? 1 : *x < -1 ? -1 : *x == 0 ? 0 : 2;
      if (some && s.chance(1, 12)) *x = std::numeric_limits<T>::quiet_NaN();
    }
  } else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) {
    for (auto& x : m) {
      if (!x) continue;
      if (o.unit) *x = *x > 2 ? 1 : *x < 2 ? -1 : 0;
      else if (o.small) *x = *x % 1000;
    }
  }
  return m;
}

inline void NoPost(...) {}

// Acc: accumulator; P, C: argument types (C without the leading child id when
// WithId). ref(parent row, child rows, child ids) gives one optional result
// (aggregators) or one per row; post(result, groups) canonicalises a result
// where several answers are right.
template <class Acc, bool WithId, class P, class C>
struct GroupRunner;
template <class Acc, bool WithId, class... P, class... C>
struct GroupRunner<Acc, WithId, meta::type_list<P...>, meta::type_list<C...>> {
  using Res = strip_optional_t<typename Acc::result_type>;
  using M = Model<Res>;
  using Groups = std::vector<std::vector<int64_t>>;
  static constexpr bool kAgg = Acc::IsAggregator();

  template <class Ref, class Post>
  static void Run(Src& s, const char* name, const Acc& acc, Ref ref, Post post, GroupOpts o = {}) {
    Keep k;
    using Dense = dense_ops_internal::DenseGroupOpsImpl<Acc, meta::type_list<P...>, meta::type_list<C...>, WithId>;
    using Sparse = array_ops_internal::ArrayGroupOpImpl<Acc, meta::type_list<P...>, meta::type_list<C...>, WithId, true>;
    using SparseRaw = array_ops_internal::ArrayGroupOpImpl<Acc, meta::type_list<P...>, meta::type_list<C...>, WithId, false>;
    int how = s.draw(7);
    bool scalar = how >= 5;
    EdgeModel e;
    if (scalar) {
      e.parents = 1;
      e.map.assign(GenSize(s, 60), 0);
    } else {
      int64_t parents = s.chance(1, 6) ? s.draw(300) : GenSize(s, 40);
      e = GenEdge(s, parents, 70);
    }
    std::tuple<Model<base_t<P>>...> pm{GenArg<P>(s, e.parents, o)...};
    std::tuple<Model<base_t<C>>...> cm{GenArg<C>(s, e.map.size(), o)...};
    if (scalar) {  // required scalars are always there
      std::apply([&](auto&... m) {
        (([&] { if (!is_optional_v<P> && !m[0]) m[0] = own_t<base_t<P>>{}; }()), ...);
      }, pm);
    }
    // what is right
    Groups groups(e.parents), used(e.parents);
    for (size_t i = 0; i < e.map.size(); ++i) if (e.map[i]) groups[*e.map[i]].push_back(i);
    M want(kAgg ? e.parents : e.map.size());
    bool fails = false;
    size_t big = 0, valid_parents = 0;
    for (int64_t p = 0; p < e.parents; ++p) {
      Row<P...> prow = std::apply([&](const auto&... m) { return Row<P...>(m[p]...); }, pm);
      bool ok = std::apply([&](const auto&... v) { return (RowHas<P>(v) && ... && true); }, prow);
      if (!ok) continue;
      valid_parents++;
      std::vector<Row<C...>> rows;
      for (auto c : groups[p]) {
        Row<C...> crow = std::apply([&](const auto&... m) { return Row<C...>(m[c]...); }, cm);
        if (!std::apply([&](const auto&... v) { return (RowHas<C>(v) && ... && true); }, crow)) continue;
        rows.push_back(std::move(crow));
        used[p].push_back(c);
      }
      if (rows.size() > 1) big++;
      try {
        M r = ref(prow, rows, used[p]);
        PBT_ASSERT(r.size() == (kAgg ? 1 : rows.size()), "reference");
        if (kAgg) want[p] = r[0];
        else for (size_t i = 0; i < rows.size(); ++i) want[used[p][i]] = r[i];
      } catch (const Error&) {
        fails = true;
      }
    }
    if (big > 0 && valid_parents > 1) s.nontrivial();
    s.note(name, " how ", how, " ", Show(e));
    std::apply([&](const auto&... m) { (s.note("  parent ", Show(m)), ...); }, pm);
    std::apply([&](const auto&... m) { (s.note("  child ", Show(m)), ...); }, cm);
    auto check = [&](absl::Status st, auto read) {
      if (o.lax_empty && valid_parents == 0) return;
      PBT_ASSERT(st.ok() == !fails, name, ": ", st.ToString());
      if (!st.ok()) return;
      M got = read();
      if constexpr (!std::is_same_v<Post, decltype(&NoPost)>) post(got, used, cm);
      PBT_ASSERT(SameModel(got, want), name, " gives ", Show(got), " not ", Show(want));
    };
    auto check_array = [&](const auto& r) { check(r.status(), [&] { return Read(*r); }); };
    auto check_scalar = [&](const auto& r) {
      if constexpr (kAgg) {
        check(r.status(), [&] {
          M m(1);
          if constexpr (is_optional_v<typename Acc::result_type>) {
            if (r->present) m[0] = ToOwn<Res>(r->value);
          } else {
            m[0] = ToOwn<Res>(*r);
          }
          return m;
        });
      } else {
        check_array(r);
      }
    };
    // sometimes an argument of another size
    int bad = !scalar && sizeof...(P) + sizeof...(C) > 0 && s.chance(1, 30)
                  ? 1 + s.draw(sizeof...(P) + sizeof...(C) - 1) : 0;
    auto dense = [&]<class X>(const Model<base_t<X>>& m) { return MakeDense<base_t<X>>(s, k, m); };
    auto sparse = [&]<class X>(const Model<base_t<X>>& m) { return MakeArray<base_t<X>>(s, k, m); };
    if (bad) {
      int i = 0;
      std::apply([&](auto&... m) { (([&] { if (++i == bad) m.push_back(std::nullopt); }()), ...); }, pm);
      std::apply([&](auto&... m) { (([&] { if (++i == bad) m.push_back(std::nullopt); }()), ...); }, cm);
    }
    auto all = [&](auto& mk, auto f) {
      return std::apply([&](const auto&... p) {
        return std::apply([&](const auto&... c) { return f(mk.template operator()<P>(p)..., mk.template operator()<C>(c)...); }, cm);
      }, pm);
    };
    auto children = [&](auto& mk, auto f) {
      return std::apply([&](const auto&... p) {
        return std::apply([&](const auto&... c) { return f(Arg<P>(p[0])..., mk.template operator()<C>(c)...); }, cm);
      }, pm);
    };
    RawBufferFactory* bf = GetHeapBufferFactory();
    if (how <= 1) {
      auto edge = MakeDenseEdge(s, k, e);
      auto r = all(dense, [&](const auto&... a) { return Dense(bf, acc).Apply(edge, a...); });
      if (bad) { PBT_ASSERT(!r.ok(), "sizes differ"); return; }
      check_array(r);
      s.label("dense");
    } else if (how <= 4) {
      auto edge = MakeArrayEdge(s, k, e);
      if (how == 4) {
        auto r = all(sparse, [&](const auto&... a) { return SparseRaw(bf, acc).Apply(edge, a...); });
        if (bad) { PBT_ASSERT(!r.ok(), "sizes differ"); return; }
        check_array(r);
      } else {
        auto r = all(sparse, [&](const auto&... a) { return Sparse(bf, acc).Apply(edge, a...); });
        if (bad) { PBT_ASSERT(!r.ok(), "sizes differ"); return; }
        check_array(r);
      }
    } else if (how == 5) {
      DenseArrayGroupScalarEdge edge(e.map.size());
      check_scalar(children(dense, [&](const auto&... a) { return Dense(bf, acc).Apply(edge, a...); }));
    } else {
      ArrayGroupScalarEdge edge(e.map.size());
      if (how == 6) check_scalar(children(sparse, [&](const auto&... a) { return Sparse(bf, acc).Apply(edge, a...); }));
      else check_scalar(children(sparse, [&](const auto&... a) { return SparseRaw(bf, acc).Apply(edge, a...); }));
    }
  }
};

// Runs an accumulator with its own argument types.
template <class Acc, class Ref, class Post = decltype(&NoPost)>
void Group(Src& s, const char* name, const Acc& acc, Ref ref, GroupOpts o = {}, Post post = &NoPost) {
  GroupRunner<Acc, false, typename Acc::parent_types, typename Acc::child_types>::Run(s, name, acc, ref, post, o);
}
template <class Acc, class Ref, class Post = decltype(&NoPost)>
void GroupWithId(Src& s, const char* name, const Acc& acc, Ref ref, GroupOpts o = {}, Post post = &NoPost) {
  GroupRunner<Acc, true, typename Acc::parent_types, meta::tail_t<typename Acc::child_types>>::Run(s, name, acc, ref, post, o);
}

}  // namespace va
#endif
