// F01/F04 under ThreadSanitizer: schedules of real threads over shared handles.
#include <atomic>
#include <thread>
#include "pbt.h"
#include "absl/time/clock.h"
#include "arolla/util/refcount.h"
#include "arolla/util/refcount_ptr.h"
#include "arolla/util/thread_safe_shared_ptr.h"
#include "arolla/util/threading.h"
#include "arolla/util/threadlocal.h"
#include "arolla/util/permanent_event.h"

using pbt::Src;
namespace ar = arolla;

namespace {
struct Gate {
  std::atomic<int> ready{0};
  void wait(int n) {
    ready.fetch_add(1);
    while (ready.load() < n) {}
  }
};
struct Shared {
  ar::Refcount rc;
  int payload[8] = {0};
};
struct Obj : ar::RefcountedBase {
  explicit Obj(std::atomic<int>* d) : d(d) {}
  ~Obj() {
    int sum = 0;
    for (int x : payload) sum += x;  // must see every owner's writes
    last_sum = sum;
    d->fetch_add(1);
  }
  std::atomic<int>* d;
  int payload[8] = {0};
  static inline int last_sum = 0;
};
}  // namespace

PBT_TEST(F01_race_counter, 250, 4000, ">= 2 threads with interleaved increments and decrements") {
  int threads = 2 + s.draw(4);
  bool skewed = s.boolean();
  std::vector<std::vector<int>> plan(threads);
  for (auto& p : plan) { size_t n = s.size(12); for (size_t i = 0; i < n; ++i) p.push_back(s.draw(2)); }
  s.note("threads=", threads, " skewed=", skewed);
  s.nontrivial();
  auto* sh = new Shared;
  for (int i = 1; i < threads; ++i) sh->rc.increment();
  std::atomic<int> last{0};
  std::vector<int> sums(threads, -1);
  Gate g;
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) {
    ts.emplace_back([&, t] {
      g.wait(threads);
      for (int op : plan[t]) {
        sh->rc.increment();
        sh->payload[t]++;
        bool alive = (op == 1) ? sh->rc.skewed_decrement() : sh->rc.decrement();
        if (!alive) last.fetch_add(1000);
      }
      sh->payload[t] = t + 1;
      bool alive = (skewed || (t & 1)) ? sh->rc.skewed_decrement() : sh->rc.decrement();
      if (!alive) {
        last.fetch_add(1);
        int sum = 0;
        for (int i = 0; i < 8; ++i) sum += sh->payload[i];
        sums[t] = sum;
        delete sh;
      }
    });
  }
  for (auto& t : ts) t.join();
  PBT_ASSERT(last.load() == 1, "last-owner events: ", last.load());
  for (int x : sums)
    if (x >= 0) PBT_ASSERT(x == threads * (threads + 1) / 2, "last owner saw stale data");
}

PBT_TEST(F01_race_handles, 200, 3000, ">= 2 threads copying and releasing handles") {
  int threads = 2 + s.draw(4);
  std::vector<std::vector<int>> plan(threads);
  for (auto& p : plan) { size_t n = s.size(10); for (size_t i = 0; i < n; ++i) p.push_back(s.draw(3)); }
  s.nontrivial();
  std::atomic<int> destroyed{0};
  {
    auto root = ar::RefcountPtr<Obj>::Make(&destroyed);
    Gate g;
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) {
      ts.emplace_back([&, t, mine = root]() mutable {
        g.wait(threads);
        for (int op : plan[t]) {
          ar::RefcountPtr<Obj> c = mine;
          ar::RefcountPtr<Obj> m = std::move(c);
          if (op == 1) mine = m;
          if (op == 2) mine = std::move(m);
          if (op == 3) { auto r = ar::RefcountPtr<Obj>::NewRef(mine.get()); m.reset(); }
        }
        mine->payload[t] = t + 1;
        mine.reset();
      });
    }
    root.reset();
    for (auto& t : ts) t.join();
  }
  PBT_ASSERT(destroyed.load() == 1, "destroyed ", destroyed.load());
  PBT_ASSERT(Obj::last_sum == threads * (threads + 1) / 2, "destructor saw stale data");
}

PBT_TEST(F05_race_cell, 120, 1500, "concurrent loads and stores") {
  ar::ThreadSafeSharedPtr<std::vector<int>> cell(std::make_shared<std::vector<int>>(3, 0));
  int threads = 2 + s.draw(3), ops = 5 + s.draw(30);
  s.nontrivial();
  std::atomic<int> bad{0};
  Gate g;
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      g.wait(threads);
      for (int i = 0; i < ops; ++i) {
        if ((i + t) % 2) cell.store(std::make_shared<std::vector<int>>(3, t * 100 + i));
        else {
          auto p = cell.load();
          if (!p || (*p)[0] != (*p)[2]) bad++;
          if (cell == nullptr) bad++;
        }
      }
    });
  for (auto& t : ts) t.join();
  PBT_ASSERT(bad.load() == 0);
}

PBT_TEST(F04_race_tasks, 200, 2500, ">= 2 tasks") {
  int par = 1 + s.draw(6);
  size_t n = s.chance(1, 5) ? s.range(0, 400) : s.size(40);
  std::vector<int> out(n, 0);
  std::vector<std::function<void()>> tasks;
  for (size_t i = 0; i < n; ++i) tasks.push_back([&out, i] { out[i] += 1; });
  if (n >= 2) s.nontrivial();
  ar::ExecuteTasksInParallel(par, tasks);
  for (size_t i = 0; i < n; ++i) PBT_ASSERT(out[i] == 1, "task ", i, " effects: ", out[i]);
}
PBT_TEST(F04_race_threading, 150, 1500, ">= 2 threads") {
  ar::StdThreading t(4);
  int n = 1 + s.draw(5);
  if (n >= 2) s.nontrivial();
  std::vector<int> out(n, 0);
  t.WithThreading([&] {
    std::vector<ar::ThreadingInterface::JoinFn> joins;
    for (int i = 0; i < n; ++i) joins.push_back(t.StartThread([&out, i] { out[i] += i + 1; }));
    for (auto& j : joins) j();
    for (int i = 0; i < n; ++i) PBT_ASSERT(out[i] == i + 1, "thread ", i);
  });
}

PBT_TEST(F05_thread_local, 400, 4000, ">= 2 threads reading and writing their own value") {
  // Every thread sees the initial value until it writes, then its own writes.
  int init = s.range(-5, 5);
  ar::ThreadLocal<std::vector<int>> tl(std::vector<int>(2, init));
  int threads = 1 + s.draw(5);
  std::vector<std::vector<int>> plan(threads);
  for (auto& p : plan) { size_t n = s.size(12); for (size_t i = 0; i < n; ++i) p.push_back(s.draw(3)); }
  s.note("threads=", threads, " init=", init);
  if (threads >= 2) s.nontrivial();
  std::atomic<int> bad{0};
  // A reference obtained by one thread stays valid while others insert.
  auto run = [&](int t) {
    std::vector<int> model(2, init);
    for (size_t i = 0; i < plan[t].size(); ++i) {
      int v = t * 1000 + (int)i + 10;
      switch (plan[t][i]) {
        case 0: tl.set(std::vector<int>(2, v)); model.assign(2, v); break;
        case 1: (*tl.pointer())[0] = v; model[0] = v; break;
        case 2: if (tl.get() != model) bad++; break;
        default: {
          const auto& ctl = tl;
          const auto* p = ctl.pointer();
          std::this_thread::yield();
          if (*p != model || p != tl.pointer()) bad++;
        }
      }
      if (tl.get() != model) bad++;
    }
  };
  Gate g;
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { g.wait(threads); run(t); });
  for (auto& t : ts) t.join();
  PBT_ASSERT(bad.load() == 0, "a thread observed a value it did not write: ", bad.load());
  // The main thread never wrote: still sees the initial value.
  PBT_ASSERT(tl.get() == std::vector<int>(2, init), "main thread value changed");
}

namespace {
struct NoCopy {
  NoCopy() = default;
  NoCopy(const NoCopy&) = delete;
  int v = 7;
};
}  // namespace
PBT_TEST(F05_thread_local_single, 1500, 20000, ">= 3 operations") {
  ar::ThreadLocal<std::string> tl(std::string("init"));
  std::string model = "init";
  size_t n = s.size(20);
  if (n >= 3) s.nontrivial();
  for (size_t i = 0; i < n; ++i) {
    switch (s.draw(2)) {
      case 0: model = s.bytes(30); tl.set(model); break;
      case 1: tl.pointer()->append("x"); model += "x"; break;
      default: break;
    }
    PBT_ASSERT(tl.get() == model, "got ", tl.get(), " want ", model);
    PBT_ASSERT(*tl.pointer() == model);
  }
  ar::ThreadLocal<std::string> d;
  PBT_ASSERT(d.get().empty());
  std::string other = "?";
  std::thread([&] { other = tl.get(); }).join();
  PBT_ASSERT(other == "init", "other thread sees ", other);
}

PBT_TEST(F05_permanent_event, 150, 2000, ">= 1 waiter and >= 2 notifiers") {
  auto ev = ar::PermanentEvent::Make();
  int waiters = s.draw(3), notifiers = 1 + s.draw(3), repeat = 1 + s.draw(2);
  if (waiters >= 1 && notifiers >= 2) s.nontrivial();
  s.note("waiters=", waiters, " notifiers=", notifiers);
  PBT_ASSERT(!ev->HasBeenNotified());
  PBT_ASSERT(!ev->WaitWithDeadline(absl::InfinitePast()), "unset event reported as set");
  int payload = 0;
  std::atomic<int> bad{0};
  std::vector<std::thread> ts;
  payload = 42;
  for (int i = 0; i < waiters; ++i)
    ts.emplace_back([&, ev, i] {
      if (i % 2) ev->Wait();
      else if (!ev->WaitWithDeadline(absl::Now() + absl::Hours(1))) bad++;
      if (payload != 42 || !ev->HasBeenNotified()) bad++;
    });
  for (int i = 0; i < notifiers; ++i)
    ts.emplace_back([&, ev] { for (int k = 0; k < repeat; ++k) ev->Notify(); });
  for (auto& t : ts) t.join();
  PBT_ASSERT(bad.load() == 0);
  PBT_ASSERT(ev->HasBeenNotified());
  ev->Wait();
  PBT_ASSERT(ev->WaitWithDeadline(absl::InfinitePast()), "set event reported as unset");
}
