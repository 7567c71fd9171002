// A05, A08, A09: edges, jagged shapes, frames.
#include <cstring>
#include <map>
#include <set>

#include "absl/hash/hash.h"
#include "google/protobuf/arena.h"
#include "arolla/array/array_util.h"
#include "arolla/array/id_filter.h"
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/jagged_shape.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/memory.h"
#include "arolla/util/struct_field.h"
#include "arrays.h"

using namespace va;
// ---------------------------------------------------------------- A05 ------
namespace {
template <class Edge> struct EdgeKit;
template <> struct EdgeKit<DenseArrayEdge> {
  static DenseArrayEdge make(Src& s, Keep& k, const EdgeModel& e) { return MakeDenseEdge(s, k, e); }
  static DenseArray<int64_t> values(Src& s, Keep& k, const Model<int64_t>& m) { return MakeDense<int64_t>(s, k, m); }
};
template <> struct EdgeKit<ArrayEdge> {
  static ArrayEdge make(Src& s, Keep& k, const EdgeModel& e) { return MakeArrayEdge(s, k, e); }
  static Array<int64_t> values(Src& s, Keep& k, const Model<int64_t>& m) { return MakeArray<int64_t>(s, k, m); }
};

template <class Edge>
void EdgeProps(Src& s) {
  Keep k;
  using K = EdgeKit<Edge>;
  auto e = GenEdge(s, GenSize(s, 30));
  auto edge = K::make(s, k, e);
  s.note(Show(e), edge.edge_type() == Edge::MAPPING ? " as mapping" : " as split points");
  PBT_ASSERT(edge.parent_size() == e.parents && edge.child_size() == int64_t(e.map.size()), "sizes");
  PBT_ASSERT(ReadEdge(edge) == e, "edge is ", Show(ReadEdge(edge)));
  auto me = edge.ToMappingEdge();
  PBT_ASSERT(me.edge_type() == Edge::MAPPING && ReadEdge(me) == e, "mapping edge ", Show(ReadEdge(me)));
  auto se = edge.ToSplitPointsEdge();
  PBT_ASSERT(se.ok() == e.sorted_full(), "ToSplitPointsEdge ", se.status().ToString());
  if (se.ok()) {
    PBT_ASSERT(se->edge_type() == Edge::SPLIT_POINTS && ReadEdge(*se) == e, "split points edge ", Show(ReadEdge(*se)));
    auto sp = e.splits();
    for (int64_t i = 0; i < e.parents; ++i) PBT_ASSERT(se->split_size(i) == sp[i + 1] - sp[i], "split_size");
    if (e.map.size() > 1) s.nontrivial();
  }
  auto e2 = e;
  if (!e2.map.empty() && s.boolean()) {
    size_t at = s.draw(e2.map.size() - 1);
    if (s.boolean() || e2.parents == 0) e2.map[at] = std::nullopt; else e2.map[at] = s.draw(e2.parents - 1);
  } else if (s.boolean()) {
    e2.parents += s.draw(1);
  }
  auto edge2 = K::make(s, k, e2);
  PBT_ASSERT(edge.IsEquivalentTo(edge2) == (e == e2) && edge2.IsEquivalentTo(edge) == (e == e2),
             "IsEquivalentTo ", Show(e2));
  if (!(e == e2)) PBT_ASSERT(FingerprintHasher("").Combine(edge).Finish() != FingerprintHasher("").Combine(edge2).Finish(), "fingerprints");
  // composition
  {
    std::vector<Edge> chain{edge};
    EdgeModel acc = e;
    int len = s.chance(1, 4) ? s.draw(7) : s.draw(3);
    int kind = s.draw(3);
    for (int i = 0; i < len; ++i) {
      auto x = GenEdge(s, acc.map.size(), 40, kind == 3 ? -1 : kind == 1 ? 0 : kind);
      chain.push_back(K::make(s, k, x));
      EdgeModel y;
      y.parents = acc.parents;
      for (auto& c : x.map) y.map.push_back(c ? acc.map[*c] : std::nullopt);
      acc = y;
    }
    bool mapping = false;
    for (auto& c : chain) mapping = mapping || c.edge_type() == Edge::MAPPING;
    auto r = Edge::ComposeEdges(chain);
    PBT_ASSERT(r.ok(), r.status().ToString());
    PBT_ASSERT(ReadEdge(*r) == acc, "composition of ", chain.size(), " edges is ", Show(ReadEdge(*r)), " not ", Show(acc));
    PBT_ASSERT((r->edge_type() == Edge::MAPPING) == mapping, "type of a composition");
    if (chain.size() > 1) {
      // one that does not fit is refused
      auto bad = GenEdge(s, chain.back().child_size() + 1, 5);
      chain.push_back(K::make(s, k, bad));
      PBT_ASSERT(!Edge::ComposeEdges(chain).ok(), "incompatible edges composed");
    }
    PBT_ASSERT(!Edge::ComposeEdges({}).ok());
  }
  {
    int64_t p = s.draw(20), g = s.draw(6);
    auto u = Edge::FromUniformGroups(p, g);
    PBT_ASSERT(u.ok());
    EdgeModel um;
    um.parents = p;
    for (int64_t i = 0; i < p * g; ++i) um.map.push_back(i / g);
    PBT_ASSERT(ReadEdge(*u) == um && u->edge_type() == Edge::SPLIT_POINTS, "uniform groups ", p, " x ", g);
    PBT_ASSERT(!Edge::FromUniformGroups(-1 - p, g).ok() && !Edge::FromUniformGroups(p, -1 - g).ok(), "negative sizes");
    PBT_ASSERT(!Edge::FromUniformGroups(int64_t{1} << (2 + s.draw(60)), int64_t{1} << 62).ok(), "overflow");
  }
  // validation
  {
    Model<int64_t> sp;
    size_t n = s.draw(6);
    for (size_t i = 0; i < n; ++i) {
      sp.push_back(s.chance(1, 8) ? std::nullopt : std::optional<int64_t>(s.chance(1, 4) ? s.range(-1, 4) : int64_t(i)));
    }
    bool good = !sp.empty() && sp[0] && *sp[0] == 0;
    for (size_t i = 0; i < n; ++i) good = good && sp[i] && (i == 0 || (sp[i - 1] && *sp[i] >= *sp[i - 1]));
    auto r = Edge::FromSplitPoints(K::values(s, k, sp));
    PBT_ASSERT(r.ok() == good, "split points ", Show(sp), ": ", r.status().ToString());
    Model<int64_t> mp;
    int64_t par = s.range(-1, 5);
    size_t c = s.draw(8);
    bool ok = par >= 0;
    for (size_t i = 0; i < c; ++i) {
      if (s.chance(1, 5)) { mp.push_back(std::nullopt); continue; }
      int64_t v = s.chance(1, 6) ? s.range(-2, 6) : s.range(0, std::max<int64_t>(0, par - 1));
      ok = ok && v >= 0 && v < par;
      mp.push_back(v);
    }
    auto q = Edge::FromMapping(K::values(s, k, mp), par);
    PBT_ASSERT(q.ok() == ok, "mapping ", Show(mp), " of ", par, ": ", q.status().ToString());
  }
}
}  // namespace
PBT_TEST(A05_edges, 96000, 2000000, "an edge with at least two children that has split points") {
  if (s.boolean()) EdgeProps<DenseArrayEdge>(s); else EdgeProps<ArrayEdge>(s);
}
PBT_TEST(A05_convert, 24000, 400000, "a non-empty edge") {
  Keep k;
  auto e = GenEdge(s, GenSize(s, 30));
  if (!e.map.empty()) s.nontrivial();
  auto a = MakeArrayEdge(s, k, e);
  PBT_ASSERT(ReadEdge(a.ToDenseArrayEdge()) == e, "ToDenseArrayEdge");
  auto d = MakeDenseEdge(s, k, e);
  PBT_ASSERT(ReadEdge(ArrayEdge::FromDenseArrayEdge(d)) == e, "FromDenseArrayEdge");
}

// ---------------------------------------------------------------- A08 ------
namespace {
using ShapeModel = std::vector<EdgeModel>;
EdgeModel Compose(const ShapeModel& v, size_t from, size_t to, int64_t parents) {
  EdgeModel r;
  r.parents = parents;
  for (int64_t i = 0; i < parents; ++i) r.map.push_back(i);
  for (size_t i = from; i < to; ++i) {
    EdgeModel y;
    y.parents = parents;
    for (auto& c : v[i].map) y.map.push_back(r.map[*c]);
    r = y;
  }
  return r;
}
std::string Show(const ShapeModel& m) {
  std::string r;
  for (auto& e : m) r += va::Show(e) + " ";
  return r;
}
template <class Edge>
void ShapeProps(Src& s) {
  Keep k;
  using K = EdgeKit<Edge>;
  using Shape = JaggedShape<Edge>;
  ShapeModel m;
  int rank = s.draw(4);
  int64_t parents = 1;
  for (int i = 0; i < rank; ++i) { m.push_back(GenEdge(s, parents, 20, 0)); parents = m.back().map.size(); }
  auto mk = [&](const ShapeModel& x) {
    std::vector<Edge> v;
    for (auto& e : x) v.push_back(K::make(s, k, e));
    auto r = Shape::FromEdges(v);
    PBT_ASSERT(r.ok(), r.status().ToString());
    return *r;
  };
  auto read = [&](const Shape& x) {
    ShapeModel r;
    for (auto& e : x.edges()) {
      PBT_ASSERT(e.edge_type() == Edge::SPLIT_POINTS, "edges of a shape are split points");
      r.push_back(ReadEdge(e));
    }
    return r;
  };
  auto size = [](const ShapeModel& x) -> int64_t { return x.empty() ? 1 : x.back().map.size(); };
  s.note("shape ", Show(m));
  auto sh = mk(m);
  if (rank >= 2 && size(m) > 1) s.nontrivial();
  PBT_ASSERT(read(sh) == m && sh.rank() == m.size() && sh.size() == size(m), "shape");
  // dimensions
  {
    auto extra = GenEdge(s, size(m), 10, 0);
    auto r = sh.AddDims({K::make(s, k, extra)});
    auto m2 = m;
    m2.push_back(extra);
    PBT_ASSERT(r.ok() && read(*r) == m2, "AddDims");
    PBT_ASSERT(!sh.AddDims({K::make(s, k, GenEdge(s, size(m) + 1, 5, 0))}).ok(), "AddDims with a wrong parent size");
    size_t from = s.draw(rank);
    PBT_ASSERT(read(sh.RemoveDims(from)) == ShapeModel(m.begin(), m.begin() + from), "RemoveDims ", from);
    size_t to = from + s.draw(rank - from);
    auto fl = sh.FlattenDims(from, to);
    ShapeModel mf(m.begin(), m.begin() + from);
    int64_t par = from == 0 ? 1 : m[from - 1].map.size();
    mf.push_back(Compose(m, from, to, par));
    mf.insert(mf.end(), m.begin() + to, m.end());
    PBT_ASSERT(read(fl) == mf, "FlattenDims(", from, ", ", to, ") is ", Show(read(fl)));
    int64_t n = s.draw(20);
    auto flat = Shape::FlatFromSize(n);
    PBT_ASSERT(flat.rank() == 1 && flat.size() == n, "FlatFromSize");
    if (rank > 0) {
      PBT_ASSERT(sh.FlattenDims(0, rank).IsEquivalentTo(Shape::FlatFromSize(size(m))), "flat");
    }
    if (par == 1 && to > from && from == 0) {
      std::vector<Edge> bad{K::make(s, k, GenEdge(s, 2, 4, 0))};
      PBT_ASSERT(!Shape::FromEdges(bad).ok(), "first edge with two parents");
    }
    if (rank > 0) {
      EdgeModel un;  // unsorted edges cannot make a shape
      un.parents = size(m);
      if (un.parents >= 2) {
        un.map = {1, 0};
        PBT_ASSERT(!sh.AddDims({K::make(s, k, un)}).ok(), "unsorted edge in a shape");
      }
    }
  }
  // relations
  ShapeModel o = m;
  switch (s.draw(4)) {
    case 0: break;
    case 1: if (!o.empty()) o.resize(s.draw(o.size() - 1)); break;
    case 2: o.push_back(GenEdge(s, size(o), 12, 0)); if (s.boolean()) o.push_back(GenEdge(s, size(o), 12, 0)); break;
    default:
      if (!o.empty()) {  // same sizes, one boundary moved
        size_t i = s.draw(o.size() - 1);
        if (!o[i].map.empty() && o[i].parents > 0) {
          o[i].map[s.draw(o[i].map.size() - 1)] = s.draw(o[i].parents - 1);
          std::sort(o[i].map.begin(), o[i].map.end());
        }
      }
  }
  auto so = s.chance(1, 6) && o == m ? sh : mk(o);
  bool eq = o == m;
  PBT_ASSERT(sh.IsEquivalentTo(so) == eq && so.IsEquivalentTo(sh) == eq, "IsEquivalentTo ", Show(o));
  auto fe = sh.FastEquivalenceCheck(so);
  PBT_ASSERT(!(fe.IsGuaranteedEq() && !eq) && !(fe.IsGuaranteedNotEq() && eq), "FastEquivalenceCheck ", Show(o));
  bool sizes = o.size() == m.size();
  for (size_t i = 0; sizes && i < o.size(); ++i) sizes = o[i].map.size() == m[i].map.size();
  PBT_ASSERT(fe.AreAllSizesEqual() == sizes, "AreAllSizesEqual ", Show(o));
  bool prefix = o.size() >= m.size() && std::equal(m.begin(), m.end(), o.begin());
  PBT_ASSERT(sh.IsBroadcastableTo(so) == prefix, "IsBroadcastableTo ", Show(o));
  if (prefix) {
    auto be = sh.GetBroadcastEdge(so);
    PBT_ASSERT(ReadEdge(be) == Compose(o, m.size(), o.size(), size(m)), "GetBroadcastEdge");
  }
  if (!eq) PBT_ASSERT(FingerprintHasher("").Combine(sh).Finish() != FingerprintHasher("").Combine(so).Finish(), "fingerprint");
}
}  // namespace
PBT_TEST(A08_shapes, 72000, 1600000, "rank of at least two with more than one element") {
  if (s.boolean()) ShapeProps<DenseArrayEdge>(s); else ShapeProps<ArrayEdge>(s);
}

// ---------------------------------------------------------------- A09 ------
namespace {
// Counts objects by address.
struct Tracker {
  static std::map<const void*, int>& live() { static std::map<const void*, int> m; return m; }
  static void born(const void* p) { PBT_ASSERT(live()[p]++ == 0, "constructed twice at the same place"); }
  static void gone(const void* p) { PBT_ASSERT(live()[p]-- == 1, "destroyed but not alive"); live().erase(p); }
};
template <int N, int Align>
struct alignas(Align) Obj {
  Obj() { Tracker::born(this); for (auto& c : pad) c = char(N); }
  Obj(const Obj& o) { Tracker::born(this); std::memcpy(pad, o.pad, sizeof(pad)); }
  Obj& operator=(const Obj&) = default;
  ~Obj() { Tracker::gone(this); }
  char pad[N];
};
template <int N>
struct Plain { char pad[N]; };
struct Init { int64_t a = 7; int32_t b = -3; };  // not zero constructible, trivially destructible
}  // namespace

PBT_TEST(A09_frames, 72000, 1600000, "at least two sub-frames or three kinds of fields") {
  struct Field { size_t off, size, align; int kind; };
  struct L { FrameLayout layout; std::vector<Field> fields; };
  std::vector<L> layouts;
  int nl = 1 + s.draw(3);
  std::set<int> kinds;
  int subs = 0;
  for (int li = 0; li < nl; ++li) {
    FrameLayout::Builder b;
    std::vector<Field> fs;
    int nf = s.draw(7);
    for (int i = 0; i < nf; ++i) {
      int kind = s.draw(layouts.empty() ? 8 : 10);
      kinds.insert(kind);
      auto add = [&](auto tag) {
        using T = typename decltype(tag)::type;
        auto slot = b.AddSlot<T>();
        fs.push_back({slot.byte_offset(), sizeof(T), alignof(T), kind});
      };
      switch (kind) {
        case 0: add(meta::type<int32_t>()); break;
        case 1: add(meta::type<Obj<1, 1>>()); break;
        case 2: add(meta::type<Obj<24, 8>>()); break;
        case 3: add(meta::type<OptionalValue<float>>()); break;
        case 4: add(meta::type<char>()); break;
        case 5: add(meta::type<Plain<7>>()); break;
        case 6: add(meta::type<Init>()); break;
        case 7: add(meta::type<std::string>()); break;
        case 8: add(meta::type<Obj<16, 16>>()); break;
        default: {
          auto& sub = layouts[s.draw(layouts.size() - 1)];
          auto slot = b.AddSubFrame(sub.layout);
          subs++;
          PBT_ASSERT(slot.byte_offset() % sub.layout.AllocAlignment() == 0, "sub-frame misaligned");
          for (auto f : sub.fields) { f.off += slot.byte_offset(); fs.push_back(f); }
        }
      }
    }
    layouts.push_back({std::move(b).Build(), fs});
  }
  if (subs >= 2 || kinds.size() >= 3) s.nontrivial();
  for (auto& l : layouts) {
    s.note("layout of ", l.fields.size(), " fields, ", l.layout.AllocSize(), " bytes");
    size_t al = l.layout.AllocAlignment();
    PBT_ASSERT(al >= 1 && l.layout.AllocSize() % al == 0, "size is not a multiple of the alignment");
    auto sorted = l.fields;
    std::sort(sorted.begin(), sorted.end(), [](auto& a, auto& b) { return a.off < b.off; });
    for (size_t i = 0; i < sorted.size(); ++i) {
      PBT_ASSERT(sorted[i].off % sorted[i].align == 0 && al % sorted[i].align == 0, "misaligned field");
      PBT_ASSERT(sorted[i].off + sorted[i].size <= l.layout.AllocSize(), "field outside of the frame");
      if (i) PBT_ASSERT(sorted[i - 1].off + sorted[i - 1].size <= sorted[i].off, "fields overlap");
    }
    auto checkfresh = [&](char* base) {
      for (auto& f : l.fields) {
        char* p = base + f.off;
        switch (f.kind) {
          case 0: PBT_ASSERT(*reinterpret_cast<int32_t*>(p) == 0); break;
          case 1: case 2: case 8: PBT_ASSERT(Tracker::live().count(p), "object was not constructed"); break;
          case 3: PBT_ASSERT(!reinterpret_cast<OptionalValue<float>*>(p)->present); break;
          case 4: PBT_ASSERT(*p == 0); break;
          case 5: for (int i = 0; i < 7; ++i) PBT_ASSERT(p[i] == 0, "not zeroed"); break;
          case 6: PBT_ASSERT(reinterpret_cast<Init*>(p)->a == 7 && reinterpret_cast<Init*>(p)->b == -3, "default member initialisers"); break;
          case 7: PBT_ASSERT(reinterpret_cast<std::string*>(p)->empty()); *reinterpret_cast<std::string*>(p) = std::string(40, 'x'); break;
        }
      }
    };
    size_t want = 0;
    for (auto& f : l.fields) want += f.kind == 1 || f.kind == 2 || f.kind == 8;
    {
      MemoryAllocation mem(&l.layout);
      PBT_ASSERT(Tracker::live().size() == want, "objects alive: ", Tracker::live().size(), " not ", want);
      checkfresh(static_cast<char*>(mem.frame().GetRawPointer(0)));
      if (s.boolean()) { MemoryAllocation other = std::move(mem); PBT_ASSERT(Tracker::live().size() == want); MemoryAllocation third(&l.layout); third = std::move(other); PBT_ASSERT(Tracker::live().size() == want, "after move"); }
    }
    PBT_ASSERT(Tracker::live().empty(), "objects leaked");
    size_t n = s.draw(4);
    auto mem = AlignedAlloc(std::align_val_t{al}, std::max<size_t>(al, (l.layout.AllocSize() * n + al - 1) / al * al));
    std::memset(mem.get(), 0x5a, l.layout.AllocSize() * n);
    l.layout.InitializeAlignedAllocN(mem.get(), n);
    PBT_ASSERT(Tracker::live().size() == want * n, "objects alive in ", n, " frames");
    for (size_t i = 0; i < n; ++i) checkfresh(static_cast<char*>(mem.get()) + i * l.layout.AllocSize());
    l.layout.DestroyAllocN(mem.get(), n);
    PBT_ASSERT(Tracker::live().empty(), "objects leaked by DestroyAllocN");
  }
}

