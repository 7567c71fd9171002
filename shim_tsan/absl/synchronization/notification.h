// ThreadSanitizer variant only, see mutex.h.
#ifndef ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#define ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#include <condition_variable>
#include <cstdlib>
#include <mutex>
#include "absl/time/time.h"
namespace absl {
class Notification {
 public:
  bool HasBeenNotified() const { std::lock_guard<std::mutex> l(m_); return set_; }
  void Notify() {
    std::lock_guard<std::mutex> l(m_);
    if (set_) abort();  // documented misuse
    set_ = true;
    c_.notify_all();
  }
  void WaitForNotification() const {
    std::unique_lock<std::mutex> l(m_);
    c_.wait(l, [&] { return set_; });
  }
  bool WaitForNotificationWithDeadline(absl::Time t) const {
    std::unique_lock<std::mutex> l(m_);
    auto d = absl::ToChronoTime(t);
    return c_.wait_until(l, d, [&] { return set_; });
  }
 private:
  mutable std::mutex m_;
  mutable std::condition_variable c_;
  bool set_ = false;
};
}  // namespace absl
#endif
