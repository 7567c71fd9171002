// A07: group operations over dense and sparse arrays, with order-sensitive
// accumulators, and operations over several edges.
#include "arrays_agg.h"

#include "arolla/array/multi_edge_util.h"
#include "arolla/dense_array/ops/multi_edge_util.h"

using namespace va;

namespace {
using OI = std::optional<int64_t>;

inline void Mix(uint64_t& h, uint64_t x) { h = (h ^ (x + 0x9e3779b97f4a7c15ull)) * 0xff51afd7ed558ccdull; h ^= h >> 29; }
inline void MixV(uint64_t& h, int64_t v) { Mix(h, v); }
inline void MixV(uint64_t& h, bool v) { Mix(h, v ? 5 : 6); }
inline void MixV(uint64_t& h, float v) { Mix(h, int64_t(v * 2)); }
inline void MixV(uint64_t& h, Unit) { Mix(h, 77); }
inline void MixV(uint64_t& h, absl::string_view v) { Mix(h, v.size()); for (char c : v) Mix(h, c); }
inline void MixV(uint64_t& h, const std::string& v) { MixV(h, absl::string_view(v)); }
template <class T>
void MixV(uint64_t& h, const OptionalValue<T>& v) {
  Mix(h, v.present ? 1 : 2);
  if (v.present) MixV(h, v.value);
}
// the same of a model value
template <class X>
void MixM(uint64_t& h, const opt_own<X>& v) {
  if constexpr (is_optional_v<X>) {
    Mix(h, v ? 1 : 2);
    if (v) MixV(h, *v);
  } else {
    MixV(h, *v);
  }
}
OI Out(uint64_t h) { return h % 5 == 0 ? OI() : OI(int64_t(h)); }

template <AccumulatorType K, class PL, class CL>
struct HashAcc;
template <AccumulatorType K, class... P, class... C>
struct HashAcc<K, meta::type_list<P...>, meta::type_list<C...>>
    : Accumulator<K, OptionalValue<int64_t>, meta::type_list<P...>, meta::type_list<C...>> {
  uint64_t h = 0;
  std::vector<uint64_t> rows;
  size_t i = 0;
  bool fails = false, failed = false;
  void Reset(view_type_t<P>... p) final {
    h = 1;
    (MixV(h, p), ...);
    rows.clear();
    i = 0;
  }
  void Add(view_type_t<C>... c) final {
    (MixV(h, c), ...);
    Mix(h, 3);
    if (K == AccumulatorType::kFull) rows.push_back(h);
    if (fails && h % 64 == 0) failed = true;
  }
  void FinalizeFullGroup() final {
    for (auto& r : rows) Mix(r, h);
  }
  OptionalValue<int64_t> GetResult() final {
    auto r = Out(K == AccumulatorType::kFull ? rows.at(i++) : h);
    return r ? OptionalValue<int64_t>(*r) : OptionalValue<int64_t>();
  }
  absl::Status GetStatus() final { return failed ? absl::InvalidArgumentError("no") : absl::OkStatus(); }
};

template <AccumulatorType K, bool WithId, class PL, class CL>
struct Hash;
template <AccumulatorType K, bool WithId, class... P, class... C>
struct Hash<K, WithId, meta::type_list<P...>, meta::type_list<C...>> {
  static void Run(Src& s, const char* name) {
    using CL = std::conditional_t<WithId, meta::type_list<int64_t, C...>, meta::type_list<C...>>;
    HashAcc<K, meta::type_list<P...>, CL> acc;
    acc.fails = s.chance(1, 8);
    auto ref = [&](const Row<P...>& p, const std::vector<Row<C...>>& rows, const std::vector<int64_t>& ids) {
      uint64_t h = 1;
      std::apply([&](const auto&... v) { (MixM<P>(h, v), ...); }, p);
      std::vector<uint64_t> hs;
      for (size_t i = 0; i < rows.size(); ++i) {
        if (WithId) MixV(h, ids[i]);
        std::apply([&](const auto&... v) { (MixM<C>(h, v), ...); }, rows[i]);
        Mix(h, 3);
        if (acc.fails && h % 64 == 0) throw Error();
        hs.push_back(h);
      }
      Model<int64_t> r;
      if (K == AccumulatorType::kAggregator) r.push_back(Out(h));
      else for (auto x : hs) {
        if (K == AccumulatorType::kFull) Mix(x, h);
        r.push_back(Out(x));
      }
      return r;
    };
    if constexpr (WithId) GroupWithId(s, name, acc, ref);
    else Group(s, name, acc, ref);
  }
};
constexpr auto kA = AccumulatorType::kAggregator;
constexpr auto kP = AccumulatorType::kPartial;
constexpr auto kF = AccumulatorType::kFull;
template <class... T> using L = meta::type_list<T...>;
using I = int64_t;
using OptI = OptionalValue<int64_t>;
using OptT = OptionalValue<Text>;
}  // namespace

PBT_TEST(A07_aggregate, 40000, 1200000, "several valid parents and a group of several valid rows") {
  switch (s.draw(6)) {
    case 0: return Hash<kA, false, L<>, L<I>>::Run(s, "I");
    case 1: return Hash<kA, false, L<I>, L<I>>::Run(s, "I,I");
    case 2: return Hash<kA, false, L<>, L<OptI, I>>::Run(s, "oI I");
    case 3: return Hash<kA, false, L<OptI, Text>, L<Text, OptI>>::Run(s, "oI T, T oI");
    case 4: return Hash<kA, false, L<>, L<OptI>>::Run(s, "oI");
    case 5: return Hash<kA, true, L<>, L<I>>::Run(s, "id I");
    default: return Hash<kA, false, L<>, L<Unit>>::Run(s, "U");
  }
}
PBT_TEST(A07_partial, 40000, 1200000, "several valid parents and a group of several valid rows") {
  switch (s.draw(5)) {
    case 0: return Hash<kP, false, L<>, L<I>>::Run(s, "I");
    case 1: return Hash<kP, false, L<I>, L<I>>::Run(s, "I,I");
    case 2: return Hash<kP, false, L<OptT>, L<I, OptI>>::Run(s, "oT, I oI");
    case 3: return Hash<kP, false, L<>, L<OptI>>::Run(s, "oI");
    case 4: return Hash<kP, true, L<I>, L<OptI>>::Run(s, "I, id oI");
    default: return Hash<kP, false, L<>, L<Text, bool>>::Run(s, "T b");
  }
}
PBT_TEST(A07_full, 40000, 1200000, "several valid parents and a group of several valid rows") {
  switch (s.draw(5)) {
    case 0: return Hash<kF, false, L<>, L<I>>::Run(s, "I");
    case 1: return Hash<kF, false, L<I>, L<I>>::Run(s, "I,I");
    case 2: return Hash<kF, false, L<OptT>, L<I, OptI>>::Run(s, "oT, I oI");
    case 3: return Hash<kF, false, L<>, L<OptI>>::Run(s, "oI");
    case 4: return Hash<kF, true, L<I>, L<I>>::Run(s, "I, id I");
    default: return Hash<kF, false, L<float>, L<OptI, Text, bool>>::Run(s, "f, oI T b");
  }
}

// ------------------------------------------------------- several edges -----
namespace {
struct DenseKit {
  using Util = DenseArrayMultiEdgeUtil;
  template <class T> static DenseArray<T> make(Src& s, Keep& k, const Model<T>& m) { return MakeDense<T>(s, k, m); }
  static DenseArrayEdge edge(Src& s, Keep& k, const EdgeModel& e) { return MakeDenseEdge(s, k, e); }
};
struct SparseKit {
  using Util = ArrayMultiEdgeUtil;
  template <class T> static Array<T> make(Src& s, Keep& k, const Model<T>& m) { return MakeArray<T>(s, k, m); }
  static ArrayEdge edge(Src& s, Keep& k, const EdgeModel& e) { return MakeArrayEdge(s, k, e); }
};
template <class Kit>
void MultiEdge(Src& s) {
  Keep k;
  typename Kit::Util util;
  int64_t parents = GenSize(s, 20);
  struct State { uint64_t h = 7; };
  std::vector<State> st(parents), ms(parents);
  auto span = absl::Span<State>(st.data(), st.size());
  Model<int64_t> pi = GenModel<int64_t>(s, parents);
  Model<Text> pt = GenModel<Text>(s, parents);
  s.note("parent args ", Show(pi), Show(pt));
  {
    auto a = Kit::template make<int64_t>(s, k, pi);
    auto b = Kit::template make<Text>(s, k, pt);
    auto r = util.ApplyParentArgs([](State& x, int64_t i, OptionalValue<absl::string_view> t) { MixV(x.h, i); MixV(x.h, t); },
                                  span, L<int64_t, OptionalValue<Text>>{}, a, b);
    PBT_ASSERT(r.ok(), r.ToString());
    for (int64_t p = 0; p < parents; ++p)
      if (pi[p]) { MixM<I>(ms[p].h, pi[p]); MixM<OptT>(ms[p].h, pt[p]); }
    auto more = Kit::template make<int64_t>(s, k, Model<int64_t>(parents + 1));
    PBT_ASSERT(!util.ApplyParentArgs([](State&, int64_t) {}, span, L<int64_t>{}, more).ok(), "sizes");
  }
  auto same = [&](const char* when) {
    for (int64_t p = 0; p < parents; ++p) PBT_ASSERT(st[p].h == ms[p].h, "state ", p, " after ", when);
  };
  same("parent args");
  int steps = 1 + s.draw(2);
  size_t rows = 0;
  for (int step = 0; step < steps; ++step) {
    auto e = GenEdge(s, parents, 40);
    auto edge = Kit::edge(s, k, e);
    size_t n = e.map.size();
    Model<int64_t> ci = GenModel<int64_t>(s, n);
    Model<Text> ct = GenModel<Text>(s, n);
    s.note(Show(e), " args ", Show(ci), Show(ct));
    auto a = Kit::template make<int64_t>(s, k, ci);
    auto b = Kit::template make<Text>(s, k, ct);
    if (s.boolean()) {
      auto r = util.ApplyChildArgs(
          [](State& x, int64_t id, int64_t i, OptionalValue<absl::string_view> t) { MixV(x.h, id); MixV(x.h, i); MixV(x.h, t); },
          span, edge, L<int64_t, OptionalValue<Text>>{}, a, b);
      PBT_ASSERT(r.ok(), r.ToString());
      for (size_t c = 0; c < n; ++c)
        if (e.map[c] && ci[c]) {
          auto& h = ms[*e.map[c]].h;
          MixV(h, int64_t(c)); MixM<I>(h, ci[c]); MixM<OptT>(h, ct[c]);
          rows++;
        }
      same("child args");
    } else {
      auto r = util.template ProduceResult<Text>(
          GetHeapBufferFactory(),
          [](State& x, int64_t id, OptionalValue<int64_t> i, absl::string_view t) -> OptionalValue<absl::string_view> {
            MixV(x.h, id); MixV(x.h, i); MixV(x.h, t);
            if (x.h % 3 == 0) return std::nullopt;
            return t;
          },
          span, edge, L<OptI, Text>{}, a, b);
      PBT_ASSERT(r.ok(), r.status().ToString());
      Model<Text> want(n);
      for (size_t c = 0; c < n; ++c)
        if (e.map[c] && ct[c]) {
          auto& h = ms[*e.map[c]].h;
          MixV(h, int64_t(c)); MixM<OptI>(h, ci[c]); MixM<Text>(h, ct[c]);
          if (h % 3 != 0) want[c] = ct[c];
          rows++;
        }
      same("result");
      PBT_ASSERT(Read(*r) == want, "result ", Show(Read(*r)), " not ", Show(want));
    }
    auto more = Kit::template make<int64_t>(s, k, Model<int64_t>(n + 1));
    PBT_ASSERT(!util.ApplyChildArgs([](State&, int64_t, int64_t) {}, span, edge, L<int64_t>{}, more).ok(), "sizes");
    auto other = Kit::edge(s, k, GenEdge(s, parents + 1, 3));
    auto x = Kit::template make<int64_t>(s, k, Model<int64_t>(other.child_size()));
    PBT_ASSERT(!util.ApplyChildArgs([](State&, int64_t, int64_t) {}, span, other, L<int64_t>{}, x).ok(), "parent sizes");
    PBT_ASSERT(!util.template ProduceResult<int64_t>(GetHeapBufferFactory(), [](State&, int64_t, int64_t v) { return v; }, span, other,
                                                     L<int64_t>{}, x).ok(), "parent sizes");
  }
  if (rows > 2) s.nontrivial();
}
}  // namespace
PBT_TEST(A07_edges_dense, 15000, 600000, "more than two rows applied") { MultiEdge<DenseKit>(s); }
PBT_TEST(A07_edges_sparse, 12000, 600000, "more than two rows applied") { MultiEdge<SparseKit>(s); }
