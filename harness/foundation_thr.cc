// Real-thread schedules of code that uses absl's own synchronisation (which the
// tsan variant cannot instrument): plain build, invariants over outcomes.
#include <atomic>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "pbt.h"
#include "absl/status/status.h"
#include "arolla/util/cancellation.h"

using pbt::Src;
namespace ar = arolla;

namespace {
struct Gate {
  std::atomic<int> ready{0};
  void wait(int n) {
    ready.fetch_add(1);
    while (ready.load() < n) {}
  }
};
}  // namespace

PBT_TEST(F16_race_cancel, 300, 4000, ">= 2 threads subscribing while another cancels") {
  using CC = ar::CancellationContext;
  auto ctx = CC::Make();
  int nt = 1 + s.draw(3), per = 1 + s.draw(4), cancels = 1 + s.draw(1);
  std::vector<int> delays; for (int i = 0; i < nt + cancels; ++i) delays.push_back(s.draw(200));
  std::vector<char> drop; for (int i = 0; i < nt * per; ++i) drop.push_back(s.chance(1, 3));
  s.note("threads ", nt, " subscriptions each ", per, " cancels ", cancels);
  if (nt >= 2) s.nontrivial();
  std::vector<std::shared_ptr<std::atomic<int>>> cnt; for (int i = 0; i < nt * per; ++i) cnt.push_back(std::make_shared<std::atomic<int>>(0));
  Gate g; std::vector<std::thread> ts;
  auto spin = [](int d) { volatile int x = 0; for (int i = 0; i < d * 20; ++i) x = x + 1; };
  std::atomic<int> saw_ok{0};
  for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
    g.wait(nt + cancels); spin(delays[t]);
    CC::ScopeGuard scope(ctx);
    for (int k = 0; k < per; ++k) {
      int id = t * per + k;
      auto sub = ctx->Subscribe([c = cnt[id]] { c->fetch_add(1); });
      if (!drop[id]) std::move(sub).Detach();
      if (ar::Cancelled() && ar::CheckCancellation().ok()) saw_ok++;
    }
  });
  for (int t = 0; t < cancels; ++t) ts.emplace_back([&, t] { g.wait(nt + cancels); spin(delays[nt + t]); ctx->Cancel(absl::AbortedError("c" + std::to_string(t))); });
  for (auto& t : ts) t.join();
  PBT_ASSERT(ctx->Cancelled() && !ctx->GetStatus().ok() && saw_ok == 0);
  for (int i = 0; i < nt * per; ++i) {
    int c = cnt[i]->load();
    PBT_ASSERT(drop[i] ? c <= 1 : c == 1, "callback ", i, " ran ", c, " times, dropped=", (int)drop[i]);
  }
}
