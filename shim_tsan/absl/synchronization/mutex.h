// ThreadSanitizer variant only: the system absl::Mutex is compiled without
// instrumentation, so its happens-before edges would be invisible. This stand-in
// has the same semantics on top of pthread locks, which TSan understands.
#ifndef ABSL_SYNCHRONIZATION_MUTEX_H_
#define ABSL_SYNCHRONIZATION_MUTEX_H_
#include <shared_mutex>
#include "absl/base/thread_annotations.h"
#include "absl/base/const_init.h"
#include "absl/time/time.h"
namespace absl {
class Mutex {
 public:
  Mutex() = default;
  explicit Mutex(absl::ConstInitType) {}
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { m_.lock_shared(); }
  void ReaderUnlock() { m_.unlock_shared(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void lock_shared() { ReaderLock(); }
  void unlock_shared() { ReaderUnlock(); }
 private:
  std::shared_mutex m_;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex& m) : m_(m) { m_.Lock(); }
  explicit MutexLock(Mutex* m) : m_(*m) { m_.Lock(); }
  ~MutexLock() { m_.Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  Mutex& m_;
};
using WriterMutexLock = MutexLock;
class ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex& m) : m_(m) { m_.ReaderLock(); }
  explicit ReaderMutexLock(Mutex* m) : m_(*m) { m_.ReaderLock(); }
  ~ReaderMutexLock() { m_.ReaderUnlock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
 private:
  Mutex& m_;
};
}  // namespace absl
#endif
