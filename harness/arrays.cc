// A01, A04, A02: buffers, bitmaps, dense arrays.
#include <cstring>
#include <map>
#include <set>

#include "absl/hash/hash.h"
#include "google/protobuf/arena.h"
#include "arolla/array/array_util.h"
#include "arolla/array/id_filter.h"
#include "arolla/jagged_shape/array/jagged_shape.h"
#include "arolla/jagged_shape/dense_array/jagged_shape.h"
#include "arolla/jagged_shape/jagged_shape.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/memory.h"
#include "arolla/util/struct_field.h"
#include "arrays.h"

using namespace va;
// ---------------------------------------------------------------- A01 ------
namespace {
// Any of the factories; the objects stay alive while the case runs.
struct Factories {
  explicit Factories(Src& s) : arena(s.pick<int64_t>({64, 200, 1024, 4096, 1, 16})) {}
  google::protobuf::Arena pb;
  ProtobufArenaBufferFactory pba{pb};
  UnsafeArenaBufferFactory arena;
  RawBufferFactory* get(Src& s) {
    switch (s.draw(2)) {
      case 0: return GetHeapBufferFactory();
      case 1: return &pba;
      default: return &arena;
    }
  }
};

template <class T>
void CheckBuf(const Buffer<T>& b, const std::vector<own_t<T>>& m, const char* what) {
  PBT_ASSERT(b.size() == int64_t(m.size()), what, ": size ", b.size(), " not ", m.size());
  PBT_ASSERT(b.empty() == m.empty(), what);
  int64_t i = 0;
  for (; i < b.size(); ++i)
    PBT_ASSERT(ToOwn<T>(b[i]) == m[i], what, ": element ", i, " is ", Show1(ToOwn<T>(b[i])), " not ", Show1(m[i]));
  i = 0;
  for (const auto& v : b) { PBT_ASSERT(ToOwn<T>(v) == m[i], what, ": iterator at ", i); ++i; }
  if (!m.empty()) PBT_ASSERT(ToOwn<T>(b.front()) == m.front() && ToOwn<T>(b.back()) == m.back(), what);
}

// History of buffers built, sliced, copied and reshuffled; each one keeps the
// contents it had when it was made, whatever happens afterwards.
template <class T>
void BufferHistory(Src& s) {
  Factories f(s);
  struct Live { Buffer<T> b; std::vector<own_t<T>> m; bool unowned; int src; };
  std::vector<Live> live;
  int ops = 1 + s.draw(7);
  for (int o = 0; o < ops; ++o) {
    int op = live.empty() ? 0 : s.draw(5);
    if (op <= 1) {
      size_t cap = s.chance(1, 6) ? 1000 + s.draw(2000) : GenSize(s, 200);
      auto* fac = f.get(s);
      std::vector<own_t<T>> m(cap);
      std::vector<bool> set(cap, std::is_same_v<own_t<T>, std::string> || std::is_same_v<T, bool>);
      typename Buffer<T>::Builder b = [&] {
        if constexpr (std::is_same_v<own_t<T>, std::string>) {
          if (s.boolean()) return typename Buffer<T>::Builder(cap, s.draw(40), fac);
        }
        return typename Buffer<T>::Builder(cap, fac);
      }();
      int steps = s.draw(8);
      std::optional<typename Buffer<T>::Inserter> ins;
      size_t pos = 0;
      for (int k = 0; k < steps && cap > 0; ++k) {
        size_t at = s.draw(cap - 1);
        size_t cnt = std::min<size_t>(s.draw(40), cap - at);
        switch (s.draw(4)) {
          case 0: m[at] = GenVal<T>(s); b.Set(at, ToView<T>(m[at])); set[at] = true; break;
          case 1: {
            auto v = GenVal<T>(s);
            b.SetNConst(at, cnt, ToView<T>(v));
            for (size_t i = 0; i < cnt; ++i) { m[at + i] = v; set[at + i] = true; }
            break;
          }
          case 2: {
            size_t i = at;
            b.SetN(at, cnt, [&] { m[i] = GenVal<T>(s); set[i] = true; return ToView<T>(m[i++]); });
            break;
          }
          case 3: {
            size_t to = s.draw(cap - 1);
            if (!set[at]) break;
            b.Copy(at, to); m[to] = m[at]; set[to] = true;
            break;
          }
          default: {
            if (pos >= cap) break;
            if (!ins) ins = b.GetInserter(0);
            if (s.boolean()) { m[pos] = GenVal<T>(s); ins->Add(ToView<T>(m[pos])); set[pos] = true; pos++; }
            else { size_t n = std::min<size_t>(s.draw(3), cap - pos); ins->SkipN(n); pos += n; }
          }
        }
      }
      for (size_t i = 0; i < cap; ++i) if (!set[i]) { m[i] = own_t<T>{}; b.Set(i, ToView<T>(m[i])); }
      Buffer<T> r;
      switch (ins ? s.draw(2) : s.draw(1)) {
        case 0: r = std::move(b).Build(); break;
        case 1: {
          size_t n = s.boolean() ? s.draw(cap) : std::min<size_t>(cap, s.draw(8));
          if (n < cap) s.label("shrunk");
          if (n + 1024 < cap) s.nontrivial();
          m.resize(n); r = std::move(b).Build(n); break;
        }
        default: m.resize(pos); r = std::move(b).Build(*ins);
      }
      s.note("build capacity ", cap, " -> ", Show(m));
      CheckBuf<T>(r, m, "built");
      live.push_back({r, m, !r.is_owner(), -1});
      continue;
    }
    int from = s.draw(live.size() - 1);
    Live x = live[from];
    x.src = from;
    size_t n = x.m.size();
    if (op == 2) {
      size_t a = s.draw(n), c = s.draw(n - a);
      s.note("slice ", from, " at ", a, " count ", c);
      if (s.boolean()) x.b = x.b.Slice(a, c); else { Buffer<T> t = x.b; x.b = std::move(t).Slice(a, c); }
      x.m.assign(live[from].m.begin() + a, live[from].m.begin() + a + c);
      if (a > 0 && c > 0) s.nontrivial();
    } else if (op == 3) {
      s.note("shallow ", from);
      x.b = x.b.ShallowCopy();
      x.unowned = true;
    } else if (op == 4) {
      s.note("deep ", from);
      x.b = x.b.DeepCopy(GetHeapBufferFactory());
      PBT_ASSERT(x.b.is_owner(), "deep copy is not an owner");
      x.unowned = false;
    } else {
      size_t cap = GenSize(s, 100);
      std::optional<own_t<T>> dflt;
      if (s.boolean()) dflt = GenVal<T>(s);
      typename Buffer<T>::ReshuffleBuilder b(cap, x.b, [&]() -> OptionalValue<view_type_t<T>> {
        if (!dflt) return std::nullopt;
        return ToView<T>(*dflt);
      }(), GetHeapBufferFactory());
      std::vector<own_t<T>> m(cap, dflt ? *dflt : own_t<T>{});
      std::vector<bool> set(cap, dflt.has_value() || std::is_same_v<own_t<T>, std::string> || std::is_same_v<T, bool>);
      for (size_t i = 0; i < cap && n > 0; ++i) {
        if (dflt && s.chance(1, 3)) continue;
        if (s.chance(1, 5)) {
          size_t e = std::min<size_t>(cap, i + s.draw(5)), o2 = s.draw(n - 1);
          b.CopyValueToRange(i, e, o2);
          for (size_t j = i; j < e; ++j) { m[j] = x.m[o2]; set[j] = true; }
        }
        size_t o2 = s.draw(n - 1);
        b.CopyValue(i, o2); m[i] = x.m[o2]; set[i] = true;
      }
      s.note("reshuffle ", from, " default ", dflt ? Show1(*dflt) : "none", " -> ", Show(m));
      bool all = true;
      for (bool q : set) all = all && q;
      auto r = std::move(b).Build();
      PBT_ASSERT(r.size() == int64_t(cap), "reshuffled size");
      if (!all) {
        for (size_t i = 0; i < cap; ++i)
          if (set[i]) PBT_ASSERT(ToOwn<T>(r[i]) == m[i], "reshuffled element ", i);
        continue;
      }
      if (cap > 0 && n > 0 && dflt) s.nontrivial();
      CheckBuf<T>(r, m, "reshuffled");
      x.b = r; x.m = m;
      x.unowned = x.unowned && std::is_same_v<own_t<T>, std::string>;
    }
    if (live[from].src >= -1) CheckBuf<T>(x.b, x.m, "derived");
    live.push_back(x);
  }
  for (size_t i = 0; i < live.size(); ++i) {
    CheckBuf<T>(live[i].b, live[i].m, "at the end");
    for (size_t j = 0; j < live.size(); ++j) {
      bool eq = live[i].m == live[j].m;
      PBT_ASSERT((live[i].b == live[j].b) == eq, "== of ", Show(live[i].m), " and ", Show(live[j].m));
      PBT_ASSERT((live[i].b != live[j].b) == !eq, "!=");
      if (eq) PBT_ASSERT(absl::HashOf(live[i].b) == absl::HashOf(live[j].b), "hash of equal buffers ", Show(live[i].m));
      if constexpr (std::is_same_v<own_t<T>, std::string>) {
        if (!eq) PBT_ASSERT(FingerprintHasher("x").Combine(live[i].b).Finish() != FingerprintHasher("x").Combine(live[j].b).Finish(),
                            "fingerprints of different buffers ", Show(live[i].m), " ", Show(live[j].m));
      }
    }
  }
  // Buffers that own their data outlive everything else.
  std::vector<Live> owned;
  for (auto& l : live) if (l.b.is_owner()) owned.push_back(l);
  live.clear();
  for (auto& l : owned) if (!l.unowned) CheckBuf<T>(l.b, l.m, "owned, after the others are gone");
}
}  // namespace

PBT_TEST(A01_buffers, 72000, 1600000, "a shrink beyond 1024 bytes, an inner slice, or a reshuffle with a default value") {
  switch (s.draw(5)) {
    case 0: BufferHistory<int64_t>(s); break;
    case 1: BufferHistory<float>(s); break;
    case 2: BufferHistory<bool>(s); break;
    default: BufferHistory<Bytes>(s); break;
  }
}

// Raw buffers of the factories: live blocks never overlap, stay aligned and
// keep their bytes through any sequence of allocations and reallocations.
PBT_TEST(A01_raw, 48000, 1200000, "a reallocation that grows a block while others are alive") {
  std::unique_ptr<google::protobuf::Arena> pb;
  std::unique_ptr<RawBufferFactory> own;
  RawBufferFactory* f;
  UnsafeArenaBufferFactory* ua = nullptr;
  int64_t page = 0;
  switch (s.draw(3)) {
    case 0: f = GetHeapBufferFactory(); break;
    case 1: pb = std::make_unique<google::protobuf::Arena>(); own = std::make_unique<ProtobufArenaBufferFactory>(*pb); f = own.get(); break;
    default:
      page = s.pick<int64_t>({128, 64, 1000, 4096, 24, 8});
      own = std::make_unique<UnsafeArenaBufferFactory>(page);
      f = own.get();
      ua = static_cast<UnsafeArenaBufferFactory*>(f);
  }
  struct Block { RawBufferPtr h; char* p; size_t n; unsigned char tag; };
  std::vector<Block> live;
  unsigned char tag = 1;
  auto fill = [&](Block& b, size_t from) { for (size_t i = from; i < b.n; ++i) b.p[i] = char(b.tag + i * 7); };
  auto check = [&] {
    for (auto& b : live) {
      for (size_t i = 0; i < b.n; ++i)
        PBT_ASSERT(b.p[i] == char(b.tag + i * 7), "byte ", i, " of a block of ", b.n, " changed");
    }
    std::vector<std::pair<char*, char*>> r;
    for (auto& b : live) if (b.n) r.push_back({b.p, b.p + b.n});
    std::sort(r.begin(), r.end());
    for (size_t i = 1; i < r.size(); ++i) PBT_ASSERT(r[i - 1].second <= r[i].first, "blocks overlap");
  };
  auto gen = [&]() -> size_t {
    if (page && s.chance(1, 3)) return s.draw(page + page / 2);
    return s.draw(s.boolean() ? 20 : 100);
  };
  int ops = 2 + s.draw(16);
  for (int i = 0; i < ops; ++i) {
    int op = live.empty() ? 0 : s.draw(5);
    if (op <= 2) {
      Block b;
      b.n = gen(); b.tag = tag += 3;
      auto [h, p] = f->CreateRawBuffer(b.n);
      b.h = std::move(h); b.p = static_cast<char*>(p);
      s.note("create ", b.n);
      if (b.n) {
        PBT_ASSERT(p != nullptr, "no memory");
        PBT_ASSERT(reinterpret_cast<uintptr_t>(p) % 8 == 0, "misaligned");
      }
      fill(b, 0);
      live.push_back(std::move(b));
    } else if (op <= 4) {
      size_t at = s.boolean() ? live.size() - 1 : s.draw(live.size() - 1);
      Block& b = live[at];
      size_t n = gen();
      if (n > b.n && live.size() > 1) s.nontrivial();
      s.note("realloc #", at, " ", b.n, " -> ", n);
      auto [h, p] = f->ReallocRawBuffer(std::move(b.h), b.p, b.n, n);
      size_t old = b.n;
      b.h = std::move(h); b.p = static_cast<char*>(p); b.n = n;
      for (size_t k = 0; k < std::min(old, n); ++k) PBT_ASSERT(b.p[k] == char(b.tag + k * 7), "byte ", k, " lost by realloc ", old, " -> ", n);
      fill(b, std::min(old, n));
    } else if (ua && s.chance(1, 3)) {
      s.note("reset");
      live.clear();
      ua->Reset();
    } else {
      size_t at = s.draw(live.size() - 1);
      s.note("drop #", at);
      live.erase(live.begin() + at);
    }
    check();
  }
}

PBT_TEST(A01_misc, 18000, 240000, "size above the shared zero buffer, or non-empty") {
  // Uninitialised buffers are readable and of the right size.
  size_t n = s.chance(1, 4) ? 16380 + s.draw(10) : s.draw(3000);
  Factories f(s);
  auto* fac = f.get(s);
  if (n > 0) s.nontrivial();
  auto a = Buffer<int64_t>::CreateUninitialized(n, fac);
  PBT_ASSERT(a.size() == int64_t(n));
  int64_t sum = 0;
  for (auto v : a) sum ^= v;
  auto b = Buffer<Bytes>::CreateUninitialized(n, fac);
  PBT_ASSERT(b.size() == int64_t(n));
  for (auto v : b) PBT_ASSERT(v.empty(), "uninitialised string is not empty");
  VoidBuffer vb = VoidBuffer::CreateUninitialized(n);
  PBT_ASSERT(vb.size() == int64_t(n) && vb == VoidBuffer(n) && vb != VoidBuffer(n + 1));
  size_t x = s.draw(n), c = s.draw(n - x);
  PBT_ASSERT(vb.Slice(x, c).size() == int64_t(c));
  VoidBuffer::Builder vbb(n);
  auto ins = vbb.GetInserter();
  for (size_t i = 0; i < c; ++i) ins.Add({});
  PBT_ASSERT(std::move(vbb).Build(ins).size() == int64_t(c));
  // Buffers made from containers.
  std::vector<int64_t> v;
  for (size_t i = 0; i < std::min<size_t>(n, 40); ++i) v.push_back(s.range(0, 9));
  auto m = v;
  auto e1 = Buffer<int64_t>::Create(v.begin(), v.end(), fac);
  auto e2 = Buffer<int64_t>::Create(std::move(v));
  CheckBuf<int64_t>(e1, m, "from range");
  CheckBuf<int64_t>(e2, m, "from vector");
  PBT_ASSERT(e1 == e2 && e1 == absl::MakeConstSpan(m));
  std::vector<std::string> vs;
  for (size_t i = 0; i < std::min<size_t>(n, 20); ++i) vs.push_back(GenVal<Bytes>(s));
  std::vector<absl::string_view> vv;
  for (auto& q : vs) vv.push_back(q);
  CheckBuf<Bytes>(Buffer<Bytes>::Create(vv.begin(), vv.end(), fac), vs, "strings from range");
}

// ---------------------------------------------------------------- A04 ------
PBT_TEST(A04_bitmaps, 90000, 1600000, "more than 32 bits with a non-zero bit offset") {
  size_t n = GenSize(s, 200);
  std::vector<bool> p(n), q(n);
  for (size_t i = 0; i < n; ++i) { p[i] = s.boolean(); q[i] = !s.chance(1, 4); }
  if (s.chance(1, 3)) {  // all alike, but for at most one
    p.assign(n, s.boolean());
    if (n && s.boolean()) { size_t at = s.boolean() ? n - 1 : s.draw(n - 1); p[at] = !p[at]; }
  }
  int off = s.draw(31), off2 = s.draw(31);
  auto bm = MakeBitmap(s, p, off);
  if (n > 32 && off > 0) s.nontrivial();
  s.note("bits ", n, " offset ", off);
  PBT_ASSERT(bitmap::BitmapSize(n) == int64_t((n + 31) / 32));
  int64_t ones = 0;
  for (size_t i = 0; i < n; ++i) {
    ones += p[i];
    PBT_ASSERT(bitmap::GetBit(bm, i + off) == p[i], "GetBit ", i);
    PBT_ASSERT(bitmap::GetBit(bm.begin(), i + off) == p[i], "GetBit ", i);
  }
  PBT_ASSERT(bitmap::CountBits(bm, off, n) == ones, "CountBits");
  {  // any subrange; absent bits count as present
    size_t a = s.draw(n), c = s.draw(n - a);
    int64_t w = 0;
    for (size_t i = a; i < a + c; ++i) w += p[i];
    PBT_ASSERT(bitmap::CountBits(bm, off + a, c) == w, "CountBits of a range");
    PBT_ASSERT(bitmap::CountBits(bitmap::Bitmap(), off + a, c) == int64_t(c), "CountBits of no bitmap");
    std::vector<bool> got;
    bitmap::Iterate(bm, off + a, c, [&](bool b) { got.push_back(b); });
    PBT_ASSERT(got == std::vector<bool>(p.begin() + a, p.begin() + a + c), "Iterate");
    got.clear();
    int64_t groups_end = 0;
    bitmap::IterateByGroups(bm.begin(), off + a, c, [&](int64_t g) {
      PBT_ASSERT(g == groups_end, "group starts at ", g, " not ", groups_end);
      return [&, g](int i, bool b) {
        PBT_ASSERT(g + i == groups_end, "index");
        groups_end++;
        got.push_back(b);
      };
    });
    PBT_ASSERT(got == std::vector<bool>(p.begin() + a, p.begin() + a + c), "IterateByGroups");
  }
  for (int64_t w = 0; w < bitmap::BitmapSize(n); ++w) {
    auto word = bitmap::GetWordWithOffset(bm, w, off);
    for (int i = 0; i < 32 && w * 32 + i < int64_t(n); ++i)
      PBT_ASSERT(bitmap::GetBit(word, i) == p[w * 32 + i], "GetWordWithOffset word ", w, " bit ", i);
  }
  auto b0 = MakeBitmap(s, p, 0);
  PBT_ASSERT(bitmap::AreAllBitsSet(b0.begin(), n) == (ones == int64_t(n)), "AreAllBitsSet");
  PBT_ASSERT(bitmap::AreAllBitsUnset(b0.begin(), n) == (ones == 0), "AreAllBitsUnset");
  {  // intersection; result starts at the smaller offset
    auto bq = MakeBitmap(s, q, off2);
    std::vector<bitmap::Word> res(std::min(bm.size(), bq.size()));
    bitmap::Intersect(bm, bq, off, off2, absl::MakeSpan(res));
    int ro = std::min(off, off2);
    PBT_ASSERT(int64_t(res.size()) >= bitmap::BitmapSize(n + ro) || n == 0, "intersection size");
    for (size_t i = 0; i < n; ++i)
      PBT_ASSERT(bitmap::GetBit(res.data(), i + ro) == (p[i] && q[i]), "Intersect bit ", i, " offsets ", off, " ", off2);
  }
  {  // builder, in random portions
    bitmap::Builder b(n);
    size_t at = 0;
    while (at < n) {
      size_t c = 1 + s.draw(std::min<size_t>(n - at, 70) - 1);
      std::vector<char> part(p.begin() + at, p.begin() + at + c);
      b.AddForEach(part, [](char x) { return bool(x); });
      at += c;
    }
    auto r = std::move(b).Build();
    if (r.empty()) PBT_ASSERT(ones == int64_t(n), "builder says all present");
    else for (size_t i = 0; i < n; ++i) PBT_ASSERT(bitmap::GetBit(r, i) == p[i], "builder bit ", i);
  }
  {
    bitmap::AlmostFullBuilder b(n);
    for (size_t i = 0; i < n; ++i) if (!p[i]) b.AddMissed(i);
    size_t sz = s.boolean() ? n : s.draw(n);
    auto r = sz == n ? std::move(b).Build() : std::move(b).Build(sz);
    if (r.empty()) PBT_ASSERT(ones == int64_t(n) || sz == 0, "almost full builder says all present");
    else for (size_t i = 0; i < sz; ++i) PBT_ASSERT(bitmap::GetBit(r, i) == p[i], "almost full builder bit ", i);
  }
  auto e = bitmap::CreateEmptyBitmap(n);
  PBT_ASSERT(bitmap::AreAllBitsUnset(e.begin(), n) && bitmap::CountBits(e, 0, n) == 0, "empty bitmap");
}

// ---------------------------------------------------------------- A02 ------
namespace {
template <class T>
void DenseProps(Src& s) {
  Keep k;
  size_t n = GenSize(s);
  auto m = GenModel<T>(s, n);
  auto a = MakeDense<T>(s, k, m);
  s.note("model ", Show(m), " bit offset ", a.bitmap_bit_offset);
  if (n > 32 && !a.bitmap.empty() && a.bitmap_bit_offset) s.nontrivial();
  PBT_ASSERT(Read(a) == m, "elements");
  int64_t cnt = 0;
  for (auto& x : m) cnt += x.has_value();
  PBT_ASSERT(a.PresentCount() == cnt && a.IsFull() == (cnt == int64_t(n)) &&
             a.IsAllPresent() == (cnt == int64_t(n)) && a.IsAllMissing() == (cnt == 0), "counts");
  PBT_ASSERT(a.CheckBitmapMatchesValues());
  {
    Model<T> got(n);
    int64_t next = 0;
    a.ForEach([&](int64_t id, bool present, view_type_t<T> v) {
      PBT_ASSERT(id == next, "ForEach id ", id, " instead of ", next);
      next++;
      if (present) got[id] = ToOwn<T>(v);
    });
    PBT_ASSERT(next == int64_t(n) && got == m, "ForEach");
    Model<T> g2(n);
    a.ForEachPresent([&](int64_t id, view_type_t<T> v) { PBT_ASSERT(!g2[id]); g2[id] = ToOwn<T>(v); });
    PBT_ASSERT(g2 == m, "ForEachPresent");
    Model<T> g3(n);
    int64_t nx = 0;
    a.ForEachByGroups([&](int64_t off) {
      PBT_ASSERT(off == nx || off == 0, "group offset");
      return [&](int64_t id, bool present, view_type_t<T> v) {
        PBT_ASSERT(id == nx); nx++;
        if (present) g3[id] = ToOwn<T>(v);
      };
    });
    PBT_ASSERT(nx == int64_t(n) && g3 == m, "ForEachByGroups");
    Model<T> g4;
    for (auto v : a) g4.push_back(FromOpt<T>(v));
    PBT_ASSERT(g4 == m, "iterator");
  }
  size_t from = s.draw(n), c = s.draw(n - from);
  auto sl = a.Slice(from, c);
  Model<T> ms(m.begin() + from, m.begin() + from + c);
  PBT_ASSERT(Read(sl) == ms && sl.CheckBitmapMatchesValues(), "slice [", from, "+", c, ") is ", Show(Read(sl)));
  {
    size_t f2 = s.draw(c), c2 = s.draw(c - f2);
    auto s2 = sl.Slice(f2, c2);
    PBT_ASSERT(Read(s2) == Model<T>(ms.begin() + f2, ms.begin() + f2 + c2), "slice of slice");
    auto z = sl.ForceNoBitmapBitOffset();
    PBT_ASSERT(z.bitmap_bit_offset == 0 && Read(z) == ms && z.CheckBitmapMatchesValues(), "ForceNoBitmapBitOffset");
    PBT_ASSERT(ArraysAreEquivalent(z, sl) && ArraysAreEquivalent(sl, z));
    PBT_ASSERT(sl.PresentCount() == int64_t(std::count_if(ms.begin(), ms.end(), [](auto& x) { return x.has_value(); })), "slice count");
  }
  auto own = a.MakeUnowned().MakeOwned();
  PBT_ASSERT(Read(own) == m && own.is_owned(), "MakeOwned");
  PBT_ASSERT(ArraysAreEquivalent(own, a));
  auto mask = a.ToMask();
  for (size_t i = 0; i < n; ++i) PBT_ASSERT(mask[i].present == m[i].has_value(), "ToMask ", i);
  // Equivalence is equality of models, whatever the representation.
  auto m2 = m;
  if (n > 0 && s.boolean()) {
    size_t at = s.draw(n - 1);
    if (s.boolean()) m2[at] = std::nullopt; else m2[at] = GenVal<T>(s);
  }
  if (s.chance(1, 8)) m2.push_back(std::nullopt);
  auto a2 = MakeDense<T>(s, k, m2);
  PBT_ASSERT(ArraysAreEquivalent(a, a2) == (m == m2), "equivalence of ", Show(m), " and ", Show(m2));
  PBT_ASSERT((FingerprintHasher("").Combine(a).Finish() == FingerprintHasher("").Combine(a2).Finish()) == (m == m2), "fingerprint");
  // Builders.
  {
    DenseArrayBuilder<T> b(n);
    Model<T> bm(n);
    int steps = s.draw(10);
    for (int i = 0; i < steps && n > 0; ++i) {
      size_t at = s.draw(n - 1), ct = std::min<size_t>(n - at, s.draw(40));
      auto v = GenVal<T>(s);
      bool present = !s.chance(1, 4);
      // present bits are only ever added
      switch (s.draw(4)) {
        case 0: b.Set(at, ToView<T>(v)); bm[at] = v; break;
        case 1: b.Set(at, std::nullopt); break;
        case 2: {
          OptionalValue<view_type_t<T>> o;
          if (present) { o = OptionalValue<view_type_t<T>>(ToView<T>(v)); bm[at] = v; }
          b.Set(at, o);
          break;
        }
        case 3: b.SetNConst(at, ct, ToView<T>(v)); for (size_t j = 0; j < ct; ++j) bm[at + j] = v; break;
        default: {
          std::optional<view_type_t<T>> o;
          if (present) { o = ToView<T>(v); bm[at] = v; }
          b.Set(at, o);
        }
      }
    }
    size_t keep = s.boolean() ? n : s.draw(n);
    auto r = keep == n ? std::move(b).Build() : std::move(b).Build(keep);
    bm.resize(keep);
    PBT_ASSERT(Read(r) == bm && r.CheckBitmapMatchesValues(), "builder gives ", Show(Read(r)), " not ", Show(bm));
  }
  {
    std::vector<OptionalValue<T>> ov;
    std::vector<std::optional<T>> so;
    for (auto& x : m) { ov.push_back(ToOptVal<T>(x)); so.push_back(x ? std::optional<T>(ToValue<T>(*x)) : std::nullopt); }
    PBT_ASSERT(Read(CreateDenseArray<T>(ov)) == m, "CreateDenseArray(span)");
    PBT_ASSERT(Read(CreateDenseArray<T>(so.begin(), so.end())) == m, "CreateDenseArray(iterators)");
    auto v = GenVal<T>(s);
    PBT_ASSERT(Read(CreateConstDenseArray<T>(n, ToView<T>(v))) == Model<T>(n, v), "const");
    PBT_ASSERT(Read(CreateEmptyDenseArray<T>(n)) == Model<T>(n), "empty");
  }
}
}  // namespace
PBT_TEST(A02_dense, 96000, 2000000, "more than 32 elements, a presence bitmap with a non-zero bit offset") {
  switch (s.draw(4)) {
    case 0: DenseProps<int64_t>(s); break;
    case 1: DenseProps<float>(s); break;
    case 2: DenseProps<Bytes>(s); break;
    case 3: DenseProps<bool>(s); break;
    default: DenseProps<Unit>(s); break;
  }
}

