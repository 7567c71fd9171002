// F01..F06: foundations - shared ownership, index iterators, bitmaps, searching,
// task execution, accessor packs, zero memory.
#include <algorithm>
#include <atomic>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>

#include "pbt.h"
#include "arolla/io/accessor_helpers.h"
#include "arolla/util/algorithms.h"
#include "arolla/util/binary_search.h"
#include "arolla/util/bits.h"
#include "arolla/util/demangle.h"
#include "arolla/util/iterator.h"
#include "arolla/util/map.h"
#include "arolla/util/preallocated_buffers.h"
#include "arolla/util/refcount.h"
#include "arolla/util/refcount_ptr.h"
#include "arolla/util/thread_safe_shared_ptr.h"
#include "arolla/util/threading.h"

using pbt::Src;
namespace ar = arolla;

// ---------------------------------------------------------------- F01 ------

PBT_TEST(F01_counter_model, 90000, 1000000,
         "at least 4 operations and the last reference is released") {
  int init = s.chance(1, 3) ? 1 : (s.chance(1, 4) ? (int)s.range(1, 2000000000) : (int)s.range(1, 6));
  auto rc = init == 1 ? std::make_unique<ar::Refcount>()
                      : std::make_unique<ar::Refcount>(ar::Refcount::TestOnly{}, init);
  int64_t model = init;
  int ops = 0;
  s.note("initial count ", init);
  size_t n = s.size(60);
  for (size_t i = 0; i < n && model > 0; ++i) {
    ops++;
    switch (s.draw(2)) {
      case 0:
        if (model < 2000000000) { rc->increment(); ++model; s.note("inc -> ", model); }
        break;
      case 1: {
        bool alive = rc->decrement();
        --model;
        s.note("dec -> ", model);
        PBT_ASSERT(alive == (model > 0), "decrement returned ", alive, " with ", model, " references left");
        break;
      }
      default: {
        bool alive = rc->skewed_decrement();
        --model;
        s.note("skewed_dec -> ", model);
        PBT_ASSERT(alive == (model > 0), "skewed_decrement returned ", alive, " with ", model, " references left");
      }
    }
  }
  if (model < 1000)
    while (model > 0) {
      bool sk = s.boolean();
      bool alive = sk ? rc->skewed_decrement() : rc->decrement();
      --model;
      PBT_ASSERT(alive == (model > 0), "draining: got ", alive, " with ", model, " left");
      ops++;
    }
  if (ops >= 4 && model == 0) s.nontrivial();
}

namespace {
struct Counters { int live = 0; int destroyed = 0; std::set<int> dead; };
Counters* g_c;
struct Obj : ar::RefcountedBase {
  explicit Obj(int id) : id(id) { g_c->live++; }
  virtual ~Obj() {
    g_c->live--;
    g_c->destroyed++;
    if (!g_c->dead.insert(id).second) g_c->destroyed += 1000000;
    magic = 0xdead;
  }
  int id;
  uint32_t magic = 0xa11fe;
};
struct Derived : Obj {
  using Obj::Obj;
  std::string payload = "some heap payload that is long enough to allocate";
};
}  // namespace

PBT_TEST(F01_handle_model, 75000, 750000,
         "history in which some object has >= 2 owners and is then released") {
  Counters c;
  g_c = &c;
  using P = ar::RefcountPtr<Obj>;
  constexpr int kSlots = 5;
  int next_id = 0;
  bool shared_release = false;
  {
    std::vector<P> slots(kSlots);
    std::vector<int> model(kSlots, -1);
    auto owners = [&](int id) { return std::count(model.begin(), model.end(), id); };
    auto check = [&] {
      std::set<int> alive;
      for (int i = 0; i < kSlots; ++i) {
        PBT_ASSERT((slots[i] == nullptr) == (model[i] == -1), "slot ", i);
        PBT_ASSERT((slots[i].get() == nullptr) == (model[i] == -1), "slot ", i);
        if (model[i] >= 0) {
          PBT_ASSERT(c.dead.count(model[i]) == 0, "object ", model[i], " destroyed while slot ", i, " owns it");
          PBT_ASSERT(slots[i]->id == model[i] && (*slots[i]).magic == 0xa11fe, "slot ", i);
          alive.insert(model[i]);
        }
        for (int j = 0; j < kSlots; ++j)
          PBT_ASSERT((slots[i] == slots[j]) == (model[i] == model[j]), "equality of slots ", i, ",", j);
      }
      PBT_ASSERT(c.live == (int)alive.size(), "live objects ", c.live, " expected ", alive.size());
      PBT_ASSERT(c.destroyed == next_id - (int)alive.size(), "destroyed ", c.destroyed);
    };
    size_t n = 1 + s.size(50);
    for (size_t k = 0; k < n; ++k) {
      int i = s.draw(kSlots - 1), j = s.draw(kSlots - 1);
      switch (s.draw(9)) {
        case 0:
          s.note("slot", i, " = Make(", next_id, ")");
          slots[i] = P::Make(next_id);
          model[i] = next_id++;
          break;
        case 1:
          s.note("slot", i, " = Make<Derived>(", next_id, ")");
          slots[i] = P::Make<Derived>(next_id);
          model[i] = next_id++;
          break;
        case 2:
          s.note("slot", i, " = Own(", next_id, ")");
          slots[i] = P::Own(std::make_unique<Derived>(next_id));
          model[i] = next_id++;
          break;
        case 3:
          s.note("slot", i, " = copy slot", j);
          slots[i] = static_cast<const P&>(slots[j]);
          model[i] = model[j];
          break;
        case 4: {
          s.note("slot", i, " = P(move slot", j, ")");
          P t(std::move(slots[j]));
          PBT_ASSERT(slots[j] == nullptr, "moved-from handle must be empty");
          int m = model[j];
          model[j] = -1;
          slots[i] = t;
          model[i] = m;
          break;
        }
        case 5:
          s.note("reset slot", i);
          if (model[i] >= 0 && owners(model[i]) >= 2) shared_release = true;
          slots[i].reset();
          model[i] = -1;
          break;
        case 6: {
          s.note("swap slot", i, " slot", j);
          swap(slots[i], slots[j]);
          std::swap(model[i], model[j]);
          break;
        }
        case 7:
          s.note("slot", i, " = NewRef(slot", j, ")");
          slots[i] = P::NewRef(slots[j].get());
          model[i] = model[j];
          break;
        case 8: {
          s.note("slot", i, " = move slot", j, "; drop moved-from");
          if (i == j) break;
          slots[i] = std::move(slots[j]);
          model[i] = model[j];
          slots[j] = nullptr;
          model[j] = -1;
          break;
        }
        default: {
          s.note("temp copies of slot", i);
          std::vector<P> tmp(s.size(20), slots[i]);
          std::vector<P> tmp2 = tmp;
          tmp.clear();
          break;
        }
      }
      check();
    }
  }
  PBT_ASSERT(c.live == 0, "leaked objects: ", c.live);
  PBT_ASSERT(c.destroyed == next_id, "destroyed ", c.destroyed, " of ", next_id);
  if (shared_release) s.nontrivial();
}

PBT_TEST(F05_shared_ptr_cell, 22500, 150000, "a stored value is replaced while another owner holds it") {
  ar::ThreadSafeSharedPtr<int> cell;
  std::shared_ptr<int> model;
  std::vector<std::shared_ptr<int>> held;
  PBT_ASSERT(cell == nullptr);
  if (s.boolean()) {
    // construct with a value
    auto p = std::make_shared<int>(5);
    ar::ThreadSafeSharedPtr<int> c2(p);
    {
      auto got = c2.load();
      PBT_ASSERT(got == p && c2 != nullptr);
    }
    PBT_ASSERT(p.use_count() == 2, "owners: ", p.use_count());
  }
  size_t n = s.size(30);
  for (size_t i = 0; i < n; ++i) {
    switch (s.draw(2)) {
      case 0: {
        auto p = s.chance(1, 5) ? nullptr : std::make_shared<int>((int)i);
        if (model && model.use_count() > 2) s.nontrivial();
        cell.store(p);
        model = p;
        break;
      }
      case 1: held.push_back(cell.load()); PBT_ASSERT(held.back() == model); break;
      default: held.clear();
    }
    PBT_ASSERT(cell.load() == model);
    PBT_ASSERT((cell == nullptr) == (model == nullptr));
    PBT_ASSERT((cell != nullptr) == (model != nullptr));
    if (model) {
      long expect = 2 + std::count(held.begin(), held.end(), model);
      PBT_ASSERT(model.use_count() == expect, "use_count ", model.use_count(), " expected ", expect);
    }
  }
}

// ---------------------------------------------------------------- F02 ------

namespace {
template <class T>
struct RefArray {
  using value_type = T;
  using size_type = int64_t;
  using difference_type = int64_t;
  std::vector<T> v;
  const T& operator[](size_type i) const { return v.at(i); }
};
struct ValArray {
  using value_type = int64_t;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  std::vector<int64_t> v;
  int64_t operator[](size_type i) const { return v.at(i) * 3 + 1; }
};
template <class A, class Expect>
void IterLaws(Src& s, const A& arr, int64_t n, Expect expect) {
  using It = ar::ConstArrayIterator<A>;
  using SZ = typename A::size_type;
  auto at = [&](int64_t p) { return It(&arr, static_cast<SZ>(p)); };
  It begin = at(0), end = at(n);
  PBT_ASSERT(end - begin == n);
  // A history of moves tracked by a plain index.
  It it = begin;
  int64_t pos = 0;
  size_t steps = 1 + s.size(25);
  for (size_t k = 0; k < steps; ++k) {
    int64_t target = s.range(0, n);
    int64_t d = target - pos;
    int op = s.draw(9);
    switch (op) {
      case 0: { It& r = (it += d); PBT_ASSERT(&r == &it); pos = target; break; }
      case 1: { It& r = (it -= -d); PBT_ASSERT(&r == &it); pos = target; break; }
      case 2: it = it + d; pos = target; break;
      case 3: it = d + it; pos = target; break;
      case 4: it = it - (-d); pos = target; break;
      case 5: if (pos < n) { It& r = ++it; PBT_ASSERT(&r == &it); ++pos; } break;
      case 6: if (pos > 0) { It& r = --it; PBT_ASSERT(&r == &it); --pos; } break;
      case 7: if (pos < n) { It old = it++; PBT_ASSERT(old == at(pos)); ++pos; } break;
      case 8: if (pos > 0) { It old = it--; PBT_ASSERT(old == at(pos)); --pos; } break;
      default: std::advance(it, d); pos = target; break;
    }
    s.note("op ", op, " d=", d, " -> ", pos);
    PBT_ASSERT(it == at(pos), "position after op ", op, " should be ", pos, " is ", it - begin);
    PBT_ASSERT(it - begin == pos && end - it == n - pos && begin - it == -pos);
    PBT_ASSERT(std::distance(begin, it) == pos);
    if (pos < n) {
      PBT_ASSERT(*it == expect(pos), "dereference at ", pos);
      int64_t o = s.range(0, n - 1);
      if (o >= pos) PBT_ASSERT(it[static_cast<SZ>(o - pos)] == expect(o), "subscript");
      else PBT_ASSERT((at(o))[static_cast<SZ>(pos - o)] == expect(pos), "subscript2");
    }
    int64_t q = s.range(0, n);
    It other = at(q);
    PBT_ASSERT((it == other) == (pos == q));
    PBT_ASSERT((it != other) == (pos != q));
    PBT_ASSERT((it < other) == (pos < q), pos, " < ", q);
    PBT_ASSERT((it > other) == (pos > q), pos, " > ", q);
    PBT_ASSERT((it <= other) == (pos <= q), pos, " <= ", q);
    PBT_ASSERT((it >= other) == (pos >= q), pos, " >= ", q);
    PBT_ASSERT(other - it == q - pos);
    if (n >= 3 && pos != q) s.nontrivial();
  }
  // Whole-range algorithms see exactly the elements.
  int64_t i = 0;
  for (It x = begin; x != end; ++x, ++i) PBT_ASSERT(*x == expect(i));
  PBT_ASSERT(i == n);
}
}  // namespace

PBT_TEST(F02_by_reference, 45000, 400000, "array of >= 3 elements, two different positions compared") {
  RefArray<std::string> a;
  a.v = s.vec(30, [&] { return s.bytes(3); });
  int64_t n = a.v.size();
  IterLaws(s, a, n, [&](int64_t i) { return a.v[i]; });
  using It = ar::ConstArrayIterator<RefArray<std::string>>;
  It b(&a, 0), e(&a, n);
  for (int64_t i = 0; i < n; ++i) {
    PBT_ASSERT((b + i)->size() == a.v[i].size());
    PBT_ASSERT(&*(b + i) == &a.v[i], "reference identity");
    PBT_ASSERT((b + i).operator->() == &a.v[i]);
  }
  PBT_ASSERT(std::vector<std::string>(b, e) == a.v);
  std::vector<std::string> rev(std::make_reverse_iterator(e), std::make_reverse_iterator(b));
  std::vector<std::string> want(a.v.rbegin(), a.v.rend());
  PBT_ASSERT(rev == want, "reverse iteration");
  std::vector<std::string> sorted = a.v;
  std::sort(sorted.begin(), sorted.end());
  RefArray<std::string> b2{sorted};
  It sb(&b2, 0), se(&b2, n);
  auto key = s.bytes(3);
  PBT_ASSERT(std::lower_bound(sb, se, key) - sb ==
             std::lower_bound(sorted.begin(), sorted.end(), key) - sorted.begin());
  PBT_ASSERT(std::is_sorted(sb, se));
}
PBT_TEST(F02_by_value, 45000, 400000, "array of >= 3 elements, two different positions compared") {
  ValArray a;
  a.v = s.vec(40, [&] { return s.range(-100, 100); });
  IterLaws(s, a, a.v.size(), [&](int64_t i) { return a.v[i] * 3 + 1; });
}

// ---------------------------------------------------------------- F03 ------

namespace {
template <class W>
struct Map {  // exact-size heap storage: out of bounds access is a sanitizer report
  std::unique_ptr<W[]> p;
  size_t words;
  explicit Map(size_t bits) : words((bits + sizeof(W) * 8 - 1) / (sizeof(W) * 8)) {
    p = std::make_unique<W[]>(words);
  }
  size_t bits() const { return words * sizeof(W) * 8; }
  bool get(size_t i) const { return (p[i / (sizeof(W) * 8)] >> (i % (sizeof(W) * 8))) & 1; }
  std::vector<bool> model() const {
    std::vector<bool> m(bits());
    for (size_t i = 0; i < bits(); ++i) m[i] = get(i);
    return m;
  }
};
template <class W>
Map<W> GenMap(Src& s, size_t bits) {
  Map<W> m(bits);
  int mode = s.draw(4);
  for (size_t i = 0; i < m.words; ++i) {
    switch (mode) {
      case 0: m.p[i] = static_cast<W>(s.bits64()); break;
      case 1: m.p[i] = 0; break;
      case 2: m.p[i] = ~W{0}; break;
      case 3: m.p[i] = static_cast<W>(s.bits64() & s.bits64() & s.bits64()); break;
      default: m.p[i] = W{1} << s.draw(sizeof(W) * 8 - 1);
    }
  }
  return m;
}
std::string Str(const std::vector<bool>& b) {
  std::string r;
  for (bool x : b) r += x ? '1' : '0';
  return r;
}
template <class W>
void BitQueries(Src& s) {
  constexpr size_t B = sizeof(W) * 8;
  size_t bits = 1 + s.size(B * 6);
  if (s.chance(1, 4)) bits = B * (1 + s.draw(5));
  auto m = GenMap<W>(s, bits);
  auto model = m.model();
  bits = m.bits();
  size_t a = s.draw(bits), b = s.draw(bits);
  if (a > b) std::swap(a, b);
  s.note("word ", B, " bits=", bits, " range=[", a, ",", b, ") ", Str(model));
  if (a < b && a / B != (b - 1) / B) s.nontrivial();
  size_t ones = std::count(model.begin() + a, model.begin() + b, true);
  PBT_ASSERT(ar::GetOnesCountInRange(m.p.get(), a, b) == ones, "ones in [", a, ",", b, ")");
  size_t next = std::find(model.begin() + a, model.begin() + b, true) - model.begin();
  PBT_ASSERT(ar::FindNextSetBitInVector(m.p.get(), a, b) == next, "next set bit from ", a, " limit ", b);
  PBT_ASSERT(ar::FindNextSetBitInVector(m.p.get(), b, a) == a, "start beyond the limit");
  for (size_t i = 0; i < bits; ++i) PBT_ASSERT(ar::GetBit(m.p.get(), i) == model[i], "bit ", i);
  for (size_t w = 0; w < m.words; ++w) {
    size_t c = 0;
    for (size_t k = 0; k < B; ++k) c += model[w * B + k];
    PBT_ASSERT(ar::CountOnes(m.p[w]) == c);
    if (m.p[w] != 0) {
      int lo = 0, hi = B - 1;
      while (!model[w * B + lo]) ++lo;
      while (!model[w * B + hi]) --hi;
      PBT_ASSERT(ar::FindLSBSetNonZero(m.p[w]) == lo);
      PBT_ASSERT(ar::BitScanReverse(m.p[w]) == hi);
      PBT_ASSERT(ar::CountLeadingZeros(m.p[w]) == (int)B - 1 - hi);
    }
  }
}
template <class W>
void BitUpdates(Src& s) {
  constexpr size_t B = sizeof(W) * 8;
  size_t bits = B * (1 + s.draw(5));
  auto m = GenMap<W>(s, bits);
  auto model = m.model();
  size_t n = 1 + s.size(12);
  for (size_t k = 0; k < n; ++k) {
    if (s.boolean()) {
      size_t i = s.draw(bits - 1);
      ar::SetBit(m.p.get(), i);
      model[i] = true;
      s.note("set ", i);
    } else {
      size_t a = s.draw(bits), b = s.draw(bits);
      if (s.chance(1, 3)) a = a / B * B;
      if (s.chance(1, 3)) b = (b + B - 1) / B * B;
      if (a > b) std::swap(a, b);
      if (b - a > B) s.nontrivial();
      ar::SetBitsInRange(m.p.get(), a, b);
      std::fill(model.begin() + a, model.begin() + b, true);
      s.note("set [", a, ",", b, ")");
    }
    PBT_ASSERT(m.model() == model, "got ", Str(m.model()), " want ", Str(model));
  }
}
template <class W>
void BitCombine(Src& s) {
  constexpr size_t B = sizeof(W) * 8;
  size_t n = 1 + s.size(B * 5);
  if (s.chance(1, 4)) n = B * (1 + s.draw(4));
  int ls = s.chance(1, 3) ? 0 : s.draw(B - 1), rs = s.chance(1, 3) ? 0 : s.draw(B - 1);
  if (s.chance(1, 6)) rs = ls;
  auto l = GenMap<W>(s, n + ls);
  auto r = GenMap<W>(s, n + rs);
  auto lm = l.model(), rm = r.model();
  s.note("word ", B, " n=", n, " lhs_skip=", ls, " rhs_skip=", rs, " lhs=", Str(lm), " rhs=", Str(rm));
  if (ls != rs && n > B) s.nontrivial();
  if (s.boolean()) {
    ar::CopyBits<W>(n, r.p.get(), rs, l.p.get(), ls);
    for (size_t i = 0; i < n; ++i) lm[ls + i] = rm[rs + i];
    PBT_ASSERT(l.model() == lm, "CopyBits: got ", Str(l.model()), " want ", Str(lm));
  } else {
    ar::InplaceLogicalAndWithOffsets<W>(n, r.p.get(), rs, l.p.get(), ls);
    auto got = l.model();
    for (size_t i = 0; i < n; ++i)
      PBT_ASSERT(got[ls + i] == (lm[ls + i] && rm[rs + i]), "And bit ", i, ": got ", Str(got));
  }
  PBT_ASSERT(r.model() == rm, "source operand modified");
}
template <class W>
void WordAnd(Src& s) {
  size_t n = s.size(40);
  std::vector<W> a(n), b(n), c(n), d;
  for (auto& x : a) x = s.chance(1, 4) ? ~W{0} : static_cast<W>(s.bits64());
  for (auto& x : b) x = static_cast<W>(s.bits64());
  d = b;
  if (n >= 9) s.nontrivial();
  auto a0 = a, b0 = b;
  c.assign(n, W{0xAB});
  ar::LogicalAnd(a.data(), b.data(), c.data(), n);
  ar::InPlaceLogicalAnd(a.data(), d.data(), n);
  s.note("words=", n);
  for (size_t i = 0; i < n; ++i) {
    PBT_ASSERT(c[i] == (a0[i] & b0[i]), "word ", i, " of ", n);
    PBT_ASSERT(d[i] == (a0[i] & b0[i]), "in place word ", i, " of ", n);
  }
  PBT_ASSERT(a == a0 && b == b0, "operand modified");
}
}  // namespace
PBT_TEST(F03_queries, 120000, 1500000, "range spanning at least two words") {
  if (s.boolean()) BitQueries<uint32_t>(s); else BitQueries<uint64_t>(s);
}
PBT_TEST(F03_updates, 90000, 1000000, "a set range longer than a word") {
  if (s.boolean()) BitUpdates<uint32_t>(s); else BitUpdates<uint64_t>(s);
}
PBT_TEST(F03_combine, 180000, 2500000, "different bit offsets and more than one word") {
  if (s.boolean()) BitCombine<uint32_t>(s); else BitCombine<uint64_t>(s);
}
PBT_TEST(F03_word_and, 60000, 500000, "at least 9 words (crosses the unrolled block)") {
  if (s.boolean()) WordAnd<uint32_t>(s); else WordAnd<uint64_t>(s);
}

// ---------------------------------------------------------------- F04 ------
// (threads: see foundation_tsan.cc for the data-race variant)

PBT_TEST(F04_tasks_once, 6000, 100000, ">= 3 tasks on >= 2 threads") {
  int par = 1 + s.draw(9);
  size_t n = s.chance(1, 4) ? s.range(0, 1200) : s.size(80);
  std::vector<std::atomic<int>> runs(n);
  std::atomic<int> cur{0}, peak{0};
  std::vector<std::function<void()>> tasks;
  std::vector<int> work(n);
  for (auto& w : work) w = s.chance(1, 5) ? s.draw(3000) : s.draw(20);
  std::vector<int> result(n, -1);
  for (size_t i = 0; i < n; ++i) {
    tasks.push_back([&, i] {
      int c = ++cur;
      int p = peak.load();
      while (c > p && !peak.compare_exchange_weak(p, c)) {}
      volatile int x = 0;
      for (int k = 0; k < work[i]; ++k) x = x + k;
      result[i] = static_cast<int>(i);
      runs[i]++;
      --cur;
    });
  }
  s.note("tasks=", n, " parallelism=", par);
  if (n >= 3 && par >= 2) s.nontrivial();
  ar::ExecuteTasksInParallel(par, tasks);
  PBT_ASSERT(cur.load() == 0, "a task is still running after return");
  for (size_t i = 0; i < n; ++i) {
    PBT_ASSERT(runs[i].load() == 1, "task ", i, " ran ", runs[i].load(), " times");
    PBT_ASSERT(result[i] == (int)i);
  }
  PBT_ASSERT(peak.load() <= par, "ran ", peak.load(), " tasks at once with parallelism ", par);
}

PBT_TEST(F04_tasks_parallel, 60, 600, "always") {
  // With parallelism k and k tasks that wait for each other, all must start.
  int k = 1 + s.draw(7);
  int extra = s.draw(5);
  std::atomic<int> started{0};
  std::vector<std::function<void()>> tasks;
  for (int i = 0; i < k; ++i)
    tasks.push_back([&] {
      ++started;
      while (started.load() < k) std::this_thread::yield();
    });
  std::atomic<int> tail{0};
  for (int i = 0; i < extra; ++i) tasks.push_back([&] { ++tail; });
  s.note("k=", k, " extra=", extra);
  s.nontrivial();
  ar::ExecuteTasksInParallel(k, tasks);
  PBT_ASSERT(started.load() == k && tail.load() == extra);
}

PBT_TEST(F04_std_threading, 300, 3000, ">= 2 started threads") {
  int hint = s.range(-3, 9);
  ar::StdThreading t(hint);
  PBT_ASSERT(t.GetRecommendedThreadCount() == std::max(1, hint));
  PBT_ASSERT(ar::StdThreading().GetRecommendedThreadCount() >= 1);
  int n = s.draw(6);
  std::vector<std::atomic<int>> ran(n);
  int root = 0;
  ar::ThreadingInterface& ti = t;
  ti.WithThreading([&] {
    root++;
    std::vector<ar::ThreadingInterface::JoinFn> joins;
    for (int i = 0; i < n; ++i) joins.push_back(ti.StartThread([&ran, i] { std::this_thread::yield(); ran[i]++; }));
    // Join in a generated order; each join must wait for its own thread.
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(order[i], order[s.draw(i)]);
    for (int i : order) {
      joins[i]();
      PBT_ASSERT(ran[i].load() == 1, "joined thread ", i, " has not run exactly once");
    }
  });
  PBT_ASSERT(root == 1);
  if (n >= 2) s.nontrivial();
}

// ---------------------------------------------------------------- F06 ------

PBT_TEST(F06_lower_bound, 90000, 1000000, "sorted sequence with duplicates, >= 5 elements") {
  auto v = s.vec(200, [&] { return (int)s.range(0, 40); });
  bool desc = s.boolean();
  auto cmp = [&](int a, int b) { return desc ? a > b : a < b; };
  std::sort(v.begin(), v.end(), cmp);
  int key = s.range(-2, 42);
  s.note("n=", v.size(), " key=", key, " desc=", desc);
  if (v.size() >= 5 && std::set<int>(v.begin(), v.end()).size() < v.size()) s.nontrivial();
  size_t want = std::lower_bound(v.begin(), v.end(), key, cmp) - v.begin();
  auto got = ar::exp_lower_bound(v.begin(), v.end(), key, cmp) - v.begin();
  PBT_ASSERT(got == (long)want, "got ", got, " want ", want);
  if (!desc) {
    auto g2 = ar::exp_lower_bound(v.begin(), v.end(), key) - v.begin();
    PBT_ASSERT(g2 == (long)want);
    std::vector<long> lv(v.begin(), v.end());
    PBT_ASSERT(ar::exp_lower_bound(lv.data(), lv.data() + lv.size(), (long)key) - lv.data() == (long)want);
  }
  // Resuming from a known position, as merge loops do.
  size_t from = s.draw(v.size());
  PBT_ASSERT(ar::exp_lower_bound(v.begin() + from, v.end(), key, cmp) ==
             std::lower_bound(v.begin() + from, v.end(), key, cmp));
}
namespace {
template <class T, class G>
void BinSearch(Src& s, G gen) {
  std::vector<T> v = s.vec(120, gen);
  for (auto& x : v)
    if (x != x) x = T{};  // no NaN in the haystack
  std::sort(v.begin(), v.end());
  T key = (!v.empty() && s.boolean()) ? v[s.draw(v.size() - 1)] : gen();
  if (s.chance(1, 4) && key < T(1000000)) key = static_cast<T>(key + 1);
  s.note("n=", v.size(), " key=", key);
  if (v.size() > 4) s.nontrivial();
  absl::Span<const T> sp(v);
  int64_t lo, up;
  if (key != key) return;
  lo = std::lower_bound(v.begin(), v.end(), key) - v.begin();
  up = std::upper_bound(v.begin(), v.end(), key) - v.begin();
  PBT_ASSERT((int64_t)ar::LowerBound(key, sp) == lo, "LowerBound");
  PBT_ASSERT((int64_t)ar::UpperBound(key, sp) == up, "UpperBound");
  size_t from = s.draw(v.size());
  auto it = ar::GallopingLowerBound(v.begin() + from, v.end(), key);
  PBT_ASSERT(it == std::lower_bound(v.begin() + from, v.end(), key), "GallopingLowerBound");
}
}  // namespace
PBT_TEST(F06_numeric_search, 120000, 1500000, "haystack of more than 4 elements") {
  switch (s.draw(3)) {
    case 0: BinSearch<int32_t>(s, [&] { return s.chance(1, 3) ? s.integer<int32_t>() : (int32_t)s.range(-30, 30); }); break;
    case 1: BinSearch<int64_t>(s, [&] { return s.chance(1, 3) ? s.integer<int64_t>() : s.range(-30, 30); }); break;
    case 2: BinSearch<float>(s, [&] { return s.chance(1, 3) ? s.flt() : (float)s.range(-30, 30) / 2; }); break;
    default: BinSearch<double>(s, [&] { return s.chance(1, 3) ? s.dbl() : s.range(-30, 30) / 2.0; });
  }
}
PBT_TEST(F06_sorted_keys, 45000, 300000, "unordered map with >= 3 keys") {
  auto keys = s.vec(30, [&] { return s.bytes(4); });
  std::unordered_map<std::string, int> um;
  std::map<std::string, int> om;
  std::unordered_map<int64_t, int> im;
  for (auto& k : keys) { um[k] = 1; om[k] = 1; im[(int64_t)std::hash<std::string>()(k)] = 2; }
  std::vector<std::string> want(keys.begin(), keys.end());
  std::sort(want.begin(), want.end());
  want.erase(std::unique(want.begin(), want.end()), want.end());
  if (want.size() >= 3) s.nontrivial();
  s.note("keys=", want.size());
  PBT_ASSERT(ar::SortedMapKeys(um) == want);
  PBT_ASSERT(ar::SortedMapKeys(om) == want);
  auto ik = ar::SortedMapKeys(im);
  PBT_ASSERT(ik.size() == im.size() && std::is_sorted(ik.begin(), ik.end()));
  for (auto k : ik) PBT_ASSERT(im.count(k) == 1);
  // Reverse ordered container: still ascending keys.
  std::map<std::string, int, std::greater<>> gm(om.begin(), om.end());
  PBT_ASSERT(ar::SortedMapKeys(gm) == want, "reverse ordered map");
}
PBT_TEST(F06_round_up, 45000, 300000, "value not a multiple of the divisor") {
  int64_t d = s.range(1, 1000), v = s.range(0, 1000000);
  int64_t r = ar::RoundUp<int64_t>(v, d);
  s.note(v, " by ", d);
  if (v % d) s.nontrivial();
  PBT_ASSERT(r % d == 0 && r >= v && r - v < d, "RoundUp(", v, ",", d, ")=", r);
}

// ---------------------------------------------------------------- F07 ------

namespace {
struct Tag {
  int v;
  bool operator==(const Tag& o) const { return v == o.v; }
};
}  // namespace
PBT_TEST(F07_pack, 22500, 112500, "at least two accessors with different names") {
  std::string n1 = s.bytes(8), n2 = s.bytes(8), n3 = s.bytes(8);
  int a = s.range(0, 100), b = s.range(0, 100);
  std::string c = s.bytes(30);
  s.note(n1, "|", n2, "|", n3);
  if (n1 != n2) s.nontrivial();
  using ar::accessor_helpers_impl::ConvertNameAccessorsPackToNestedTuple;
  PBT_ASSERT(ConvertNameAccessorsPackToNestedTuple() == std::tuple<>());
  auto t1 = ConvertNameAccessorsPackToNestedTuple(n1, Tag{a});
  static_assert(std::is_same_v<decltype(t1), std::tuple<std::pair<std::string, Tag>>>);
  PBT_ASSERT(std::get<0>(t1).first == n1 && std::get<0>(t1).second.v == a);
  auto f = [b](int x) { return x * 1000 + b; };
  const char* cs = n2.c_str();
  auto t3 = ConvertNameAccessorsPackToNestedTuple(n1, Tag{a}, std::string(cs), f, absl::string_view(n3), c);
  static_assert(std::tuple_size_v<decltype(t3)> == 3);
  PBT_ASSERT(std::get<0>(t3).first == n1 && std::get<0>(t3).second.v == a, "pair 0");
  PBT_ASSERT(std::get<1>(t3).first == std::string(cs) && std::get<1>(t3).second(7) == 7000 + b, "pair 1");
  PBT_ASSERT(std::get<2>(t3).first == n3 && std::get<2>(t3).second == c, "pair 2");
  auto t5 = ConvertNameAccessorsPackToNestedTuple("x", a, n1, b, "y", n2, n3, 1.5, "z", c);
  PBT_ASSERT(std::get<0>(t5) == std::make_pair(std::string("x"), a));
  PBT_ASSERT(std::get<1>(t5) == std::make_pair(n1, b));
  PBT_ASSERT(std::get<2>(t5) == std::make_pair(std::string("y"), n2));
  PBT_ASSERT(std::get<3>(t5) == std::make_pair(n3, 1.5));
  PBT_ASSERT(std::get<4>(t5) == std::make_pair(std::string("z"), c));
}
PBT_TEST(F07_zero_memory, 4500, 22500, "non-empty window") {
  const char* p = static_cast<const char*>(ar::GetZeroInitializedBuffer());
  PBT_ASSERT(p == ar::GetZeroInitializedBuffer(), "address must be stable");
  PBT_ASSERT(reinterpret_cast<uintptr_t>(p) % ar::kZeroInitializedBufferAlignment == 0, "alignment");
  PBT_ASSERT(ar::kZeroInitializedBufferSize >= 1024 && ar::kZeroInitializedBufferAlignment >= alignof(std::max_align_t));
  size_t a = s.draw(ar::kZeroInitializedBufferSize), b = s.draw(ar::kZeroInitializedBufferSize);
  if (a > b) std::swap(a, b);
  if (a < b) s.nontrivial();
  for (size_t i = a; i < b; ++i) PBT_ASSERT(p[i] == 0, "byte ", i);
  PBT_ASSERT(p[ar::kZeroInitializedBufferSize - 1] == 0);
}
namespace outer {
template <class T> struct Tmpl {};
struct Plain {};
}
PBT_TEST(F07_type_names, 50, 200, "always") {
  s.nontrivial();
  PBT_ASSERT(ar::TypeName<int>() == "int");
  PBT_ASSERT(ar::TypeName<outer::Plain>() == "outer::Plain");
  PBT_ASSERT(ar::TypeName<outer::Tmpl<double>>() == "outer::Tmpl<double>");
  PBT_ASSERT(ar::TypeName(typeid(unsigned long)) == "unsigned long");
  PBT_ASSERT(ar::TypeName<std::vector<int>>().find("vector<int") != std::string::npos);
}
