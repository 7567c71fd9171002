// Models and generators of arrays in arbitrary physical representations.
#ifndef VERIF_HARNESS_ARRAYS_H_
#define VERIF_HARNESS_ARRAYS_H_
#include <algorithm>
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "absl/strings/string_view.h"
#include "arolla/array/array.h"
#include "arolla/array/edge.h"
#include "arolla/dense_array/bitmap.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/util/bytes.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "pbt.h"

namespace va {
using namespace arolla;
using pbt::Src;

// Owned value type used by models: std::string for string-like types.
template <class T> struct Own { using type = T; };
template <> struct Own<Bytes> { using type = std::string; };
template <> struct Own<Text> { using type = std::string; };
template <class T> using own_t = typename Own<T>::type;

template <class T>
using Model = std::vector<std::optional<own_t<T>>>;

template <class T, class V>
own_t<T> ToOwn(const V& v) {
  if constexpr (std::is_same_v<own_t<T>, std::string>) { absl::string_view w(v); return std::string(w.data(), w.size()); }
  else return v;
}
template <class T>
auto ToView(const own_t<T>& v) {
  if constexpr (std::is_same_v<own_t<T>, std::string>) return absl::string_view(v.data(), v.size());
  else return v;
}
template <class T>
T ToValue(const own_t<T>& v) {
  if constexpr (std::is_same_v<own_t<T>, std::string>) return T(absl::string_view(v.data(), v.size()));
  else return v;
}
template <class T>
OptionalValue<T> ToOptVal(const std::optional<own_t<T>>& v) {
  if (!v) return std::nullopt;
  return ToValue<T>(*v);
}
template <class T>
std::optional<own_t<T>> FromOpt(const OptionalValue<view_type_t<T>>& v) {
  if (!v.present) return std::nullopt;
  return ToOwn<T>(v.value);
}

template <class T>
std::string Show1(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) {
    std::string r = "'";
    for (char c : v) r += (c >= 32 && c < 127) ? std::string(1, c) : pbt::cat("\\", int(static_cast<unsigned char>(c)));
    return r + "'";
  } else if constexpr (std::is_same_v<T, Unit>) return "unit";
  else return pbt::cat(v);
}
template <class V>
std::string Show(const std::vector<std::optional<V>>& m) {
  std::string r = "[";
  for (size_t i = 0; i < m.size(); ++i) {
    if (i > 80) { r += "..."; break; }
    r += (i ? " " : "") + (m[i] ? Show1(*m[i]) : std::string("-"));
  }
  return r + "]" + pbt::cat("#", m.size());
}
template <class V>
std::string Show(const std::vector<V>& m) {
  std::string r = "[";
  for (size_t i = 0; i < m.size(); ++i) {
    if (i > 80) { r += "..."; break; }
    r += (i ? " " : "") + Show1(m[i]);
  }
  return r + "]" + pbt::cat("#", m.size());
}

// Sizes: mostly small, word boundaries, sometimes a few hundred.
inline size_t GenSize(Src& s, size_t max = 150) {
  switch (s.draw(5)) {
    case 0: return s.draw(4);
    case 1: return s.draw(12);
    case 2: return std::min<size_t>(max, 31 + s.draw(2));
    case 3: return std::min<size_t>(max, 63 + s.draw(3));
    case 4: return std::min<size_t>(max, s.draw(40));
    default: return s.draw(max);
  }
}

template <class T>
own_t<T> GenVal(Src& s) {
  if constexpr (std::is_same_v<T, Unit>) { return Unit{}; }
  else if constexpr (std::is_same_v<T, bool>) { return s.boolean(); }
  else if constexpr (std::is_same_v<own_t<T>, std::string>) {
    size_t n = s.draw(7);
    if (n == 7) n = s.draw(40);
    else if (n > 4) n = 0;
    std::string r;
    char c = 'a' + s.draw(7);
    for (size_t i = 0; i < n; ++i) r += char('a' + (c - 'a' + i * 3) % 26);
    return r;
  } else if constexpr (std::is_floating_point_v<T>) {
    return static_cast<T>(s.range(-6, 6)) / 2;
  } else {
    if (s.chance(1, 8)) return s.integer<T>();
    return static_cast<T>(s.range(0, 5));
  }
}

// Model values: density chosen per array.
template <class T>
Model<T> GenModel(Src& s, size_t n) {
  Model<T> m(n);
  int mode = s.draw(5);
  std::optional<own_t<T>> dflt;
  if (mode == 5) dflt = GenVal<T>(s);
  for (size_t i = 0; i < n; ++i) {
    bool p;
    switch (mode) {
      case 0: p = true; break;
      case 1: p = s.boolean(); break;
      case 2: p = s.chance(1, 8); break;
      case 3: p = !s.chance(1, 16); break;
      case 4: p = false; break;
      default:
        if (!s.chance(1, 6)) { m[i] = dflt; continue; }
        p = s.boolean();
    }
    if (p) m[i] = GenVal<T>(s);
  }
  return m;
}

// Keeps memory of unowned arrays alive during a case.
struct Keep {
  std::vector<std::shared_ptr<void>> v;
  template <class X> const X& hold(X x) {
    auto p = std::make_shared<X>(std::move(x));
    v.push_back(p);
    return *p;
  }
};

// Bitmap words for `present` starting at bit offset, other bits random.
inline Buffer<bitmap::Word> MakeBitmap(Src& s, const std::vector<bool>& present, int off) {
  bool junk = s.boolean();
  Buffer<bitmap::Word>::Builder b(bitmap::BitmapSize(present.size() + off));
  auto span = b.GetMutableSpan();
  for (auto& w : span) w = junk ? static_cast<bitmap::Word>(s.bits64()) : 0;
  for (size_t i = 0; i < present.size(); ++i) {
    auto& w = span[(i + off) / 32];
    uint32_t bit = 1u << ((i + off) % 32);
    w = present[i] ? (w | bit) : (w & ~bit);
  }
  return std::move(b).Build();
}

// Buffer of values, with junk at the places of missing ones.
template <class T>
Buffer<T> MakeValues(Src& s, const Model<T>& m) {
  if constexpr (std::is_same_v<T, Unit>) {
    return VoidBuffer(m.size());
  } else {
    bool junk = s.boolean();
    size_t lead = s.chance(1, 3) ? s.draw(3) : 0, tail = s.chance(1, 4) ? s.draw(3) : 0;
    typename Buffer<T>::Builder b(m.size() + lead + tail);
    for (size_t i = 0; i < lead; ++i) { auto x = GenVal<T>(s); b.Set(i, ToView<T>(x)); }
    for (size_t i = 0; i < tail; ++i) { auto x = GenVal<T>(s); b.Set(lead + m.size() + i, ToView<T>(x)); }
    if (s.chance(1, 3)) {  // written in the reverse order
      for (size_t j = m.size(); j > 0; --j) {
        size_t i = j - 1;
        auto x = m[i] ? *m[i] : junk ? GenVal<T>(s) : own_t<T>{};
        b.Set(lead + i, ToView<T>(x));
      }
    } else {
      for (size_t i = 0; i < m.size(); ++i) {
        auto x = m[i] ? *m[i] : junk ? GenVal<T>(s) : own_t<T>{};
        b.Set(lead + i, ToView<T>(x));
      }
    }
    auto r = std::move(b).Build();
    if (lead || tail) r = r.Slice(lead, m.size());
    return r;
  }
}

enum Allow { kOffset = 1, kUnowned = 2 };

template <class T>
DenseArray<T> MakeDense(Src& s, Keep& k, const Model<T>& m, int allow = 3) {
  bool full = true;
  std::vector<bool> p(m.size());
  for (size_t i = 0; i < m.size(); ++i) { p[i] = m[i].has_value(); full = full && p[i]; }
  DenseArray<T> r;
  switch (s.draw(3)) {
    case 0: {  // the ordinary builder
      DenseArrayBuilder<T> b(m.size());
      for (size_t i = 0; i < m.size(); ++i) if (m[i]) b.Set(i, ToView<T>(*m[i]));
      r = std::move(b).Build();
      break;
    }
    default: {
      r.values = MakeValues<T>(s, m);
      if (full && s.boolean()) break;
      int off = (allow & kOffset) && s.boolean() ? s.draw(31) : 0;
      r.bitmap = MakeBitmap(s, p, off);
      r.bitmap_bit_offset = off;
      if (r.bitmap.empty()) r.bitmap_bit_offset = 0;
    }
  }
  if ((allow & kUnowned) && s.chance(1, 4)) {
    const auto& held = k.hold(r);
    r = held.MakeUnowned();
    if (s.boolean()) r = r.MakeOwned();
  }
  if (s.chance(1, 8) && !m.empty()) {  // compacted slice
    size_t lead = s.draw(2) + 1;
    Model<T> big(lead);
    for (auto& x : big) if (s.boolean()) x = GenVal<T>(s);
    big.insert(big.end(), m.begin(), m.end());
    DenseArrayBuilder<T> b(big.size());
    for (size_t i = 0; i < big.size(); ++i) if (big[i]) b.Set(i, ToView<T>(*big[i]));
    const auto& held = k.hold(std::move(b).Build());
    r = held.MakeUnowned().Slice(lead, m.size()).MakeOwned();
    if (!(allow & kOffset)) r = std::move(r).ForceNoBitmapBitOffset();
  }
  return r;
}

template <class T>
Model<T> Read(const DenseArray<T>& a) {
  Model<T> m(a.size());
  for (int64_t i = 0; i < a.size(); ++i) m[i] = FromOpt<T>(a[i]);
  return m;
}
template <class T>
Model<T> Read(const Array<T>& a) {
  Model<T> m(a.size());
  for (int64_t i = 0; i < a.size(); ++i) m[i] = FromOpt<T>(a[i]);
  return m;
}

// A filter with exactly these (sorted) ids, in one of its representations.
inline IdFilter MakeFilter(Src& s, int64_t size, const std::vector<int64_t>& ids) {
  int64_t off = s.chance(1, 2) ? s.range(0, 40) : 0;
  std::vector<int64_t> sh;
  for (auto i : ids) sh.push_back(i + off);
  auto buf = Buffer<int64_t>::Create(sh.begin(), sh.end());
  return IdFilter(size, std::move(buf), off);
}

// Physical form of an array with these values: const, dense or sparse with
// any missing id value that is right.
template <class T>
Array<T> MakeArray(Src& s, Keep& k, const Model<T>& m, int allow = 3) {
  int64_t n = m.size();
  int form = s.draw(3);
  if (form == 0) return Array<T>(MakeDense<T>(s, k, m, allow));
  if (form == 3 && n < 100 && (allow & kOffset)) {  // slice of a larger one
    size_t lead = s.draw(5), tail = s.draw(5);
    Model<T> big(lead);
    for (auto& x : big) if (s.boolean()) x = GenVal<T>(s);
    big.insert(big.end(), m.begin(), m.end());
    for (size_t i = 0; i < tail; ++i) {
      big.push_back(std::nullopt);
      if (s.boolean()) big.back() = GenVal<T>(s);
    }
    return MakeArray<T>(s, k, big, allow).Slice(lead, n);
  }
  std::optional<own_t<T>> missing;
  if (n > 0 && s.boolean()) missing = m[s.draw(n - 1)];
  std::vector<int64_t> ids;
  int extra = s.draw(2);
  for (int64_t i = 0; i < n; ++i) {
    bool diff = m[i].has_value() != missing.has_value() ||
                (missing && !(*m[i] == *missing));
    if (diff || (extra && s.chance(1, extra == 1 ? 6 : 2))) ids.push_back(i);
  }
  if (ids.empty()) return Array<T>(n, ToOptVal<T>(missing));
  Model<T> sub;
  for (auto i : ids) sub.push_back(m[i]);
  auto dense = MakeDense<T>(s, k, sub, allow);
  return Array<T>(n, MakeFilter(s, n, ids), std::move(dense), ToOptVal<T>(missing));
}

// --- edges -----------------------------------------------------------------
struct EdgeModel {
  int64_t parents = 0;
  std::vector<std::optional<int64_t>> map;  // child -> parent
  bool sorted_full() const {
    int64_t last = 0;
    for (auto& p : map) { if (!p || *p < last) return false; last = *p; }
    return true;
  }
  std::vector<int64_t> splits() const {
    std::vector<int64_t> r(parents + 1, 0);
    for (auto& p : map) r[*p + 1]++;
    for (int64_t i = 0; i < parents; ++i) r[i + 1] += r[i];
    return r;
  }
  bool operator==(const EdgeModel& o) const { return parents == o.parents && map == o.map; }
};
inline EdgeModel GenEdge(Src& s, int64_t parents, size_t max_children = 60, int kind = -1) {
  EdgeModel e;
  e.parents = parents;
  if (kind < 0) kind = s.draw(2);
  if (parents == 0) {
    if (kind == 2) e.map.resize(s.draw(5));  // all unmapped
    return e;
  }
  size_t n = GenSize(s, max_children);
  for (size_t i = 0; i < n; ++i) {
    if (kind == 2 && s.chance(1, 4)) e.map.push_back(std::nullopt);
    else e.map.push_back(s.draw(parents - 1));
  }
  if (kind == 0) std::sort(e.map.begin(), e.map.end());
  return e;
}
inline Model<int64_t> SplitsModel(const EdgeModel& e) {
  Model<int64_t> m;
  for (auto x : e.splits()) m.push_back(x);
  return m;
}
inline DenseArrayEdge MakeDenseEdge(Src& s, Keep& k, const EdgeModel& e, int allow = 3) {
  if (e.sorted_full() && s.boolean()) {
    auto r = DenseArrayEdge::FromSplitPoints(MakeDense<int64_t>(s, k, SplitsModel(e), allow));
    PBT_ASSERT(r.ok(), "split points refused: ", r.status().ToString());
    return *r;
  }
  auto r = DenseArrayEdge::FromMapping(MakeDense<int64_t>(s, k, e.map, allow), e.parents);
  PBT_ASSERT(r.ok(), "mapping refused: ", r.status().ToString());
  return *r;
}
inline ArrayEdge MakeArrayEdge(Src& s, Keep& k, const EdgeModel& e, int allow = 3) {
  if (e.sorted_full() && s.boolean()) {
    auto r = ArrayEdge::FromSplitPoints(MakeArray<int64_t>(s, k, SplitsModel(e), allow));
    PBT_ASSERT(r.ok(), "split points refused: ", r.status().ToString());
    return *r;
  }
  auto r = ArrayEdge::FromMapping(MakeArray<int64_t>(s, k, e.map, allow), e.parents);
  PBT_ASSERT(r.ok(), "mapping refused: ", r.status().ToString());
  return *r;
}
template <class Edge>
EdgeModel ReadEdge(const Edge& e) {
  EdgeModel m;
  m.parents = e.parent_size();
  auto v = Read(e.edge_values());
  if (e.edge_type() == DenseArrayEdge::MAPPING) {
    m.map = v;
    return m;
  }
  PBT_ASSERT(v.size() == size_t(m.parents + 1), "split points size");
  for (int64_t p = 0; p < m.parents; ++p)
    for (int64_t c = *v[p]; c < *v[p + 1]; ++c) {
      PBT_ASSERT(c == int64_t(m.map.size()), "split points are not a partition");
      m.map.push_back(p);
    }
  return m;
}
inline std::string Show(const EdgeModel& e) {
  return pbt::cat("edge(parents=", e.parents, ", map=", Show(e.map), ")");
}

}  // namespace va
#endif
