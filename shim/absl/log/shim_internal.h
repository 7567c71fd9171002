#ifndef SHIM_ABSL_LOG_INTERNAL_H_
#define SHIM_ABSL_LOG_INTERNAL_H_
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl::shim_log {
enum Severity { INFO, WARNING, ERROR, FATAL, QFATAL, DFATAL };
class Message {
 public:
  Message(const char* file, int line, Severity s) : s_(s) {
    os_ << file << ":" << line << "] ";
  }
  ~Message() {
    if (s_ == FATAL || s_ == QFATAL || s_ == DFATAL) {
      std::cerr << os_.str() << std::endl;
      std::abort();
    }
    if (s_ == ERROR) std::cerr << os_.str() << std::endl;
  }
  std::ostream& stream() { return os_; }

 private:
  Severity s_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&&(std::ostream&) {}
};
inline const ::absl::Status& AsStatus(const ::absl::Status& s) { return s; }
template <typename T>
const ::absl::Status& AsStatus(const ::absl::StatusOr<T>& s) {
  return s.status();
}
template <typename T>
concept Streamable = requires(std::ostream& os, const T& t) { os << t; };
template <typename T>
void Print(std::ostream& os, const T& t) {
  if constexpr (std::is_same_v<T, std::nullptr_t>) {
    os << "nullptr";
  } else if constexpr (Streamable<T>) {
    os << t;
  } else {
    os << "?";
  }
}
struct Failure {
  std::string text;
  explicit operator bool() const { return !text.empty(); }
};
#define SHIM_LOG_OP(name, op)                                          \
  template <typename A, typename B>                                    \
  Failure name(const A& a, const B& b, const char* text) {             \
    if (a op b) [[likely]]                                             \
      return {};                                                       \
    std::ostringstream os;                                             \
    os << "Check failed: " << text << " (";                            \
    Print(os, a);                                                      \
    os << " vs. ";                                                     \
    Print(os, b);                                                      \
    os << ") ";                                                        \
    return {os.str()};                                                 \
  }
SHIM_LOG_OP(OpEQ, ==)
SHIM_LOG_OP(OpNE, !=)
SHIM_LOG_OP(OpLT, <)
SHIM_LOG_OP(OpLE, <=)
SHIM_LOG_OP(OpGT, >)
SHIM_LOG_OP(OpGE, >=)
#undef SHIM_LOG_OP
inline Failure OkFailure(const ::absl::Status& s, const char* text) {
  if (s.ok()) return {};
  return {std::string("Check failed: ") + text + " is OK: " + s.ToString()};
}
}  // namespace absl::shim_log
#define SHIM_LOG_STREAM(sev)                                                 \
  ::absl::shim_log::Voidify() && ::absl::shim_log::Message(__FILE__, __LINE__, \
                                                          sev)                \
                                     .stream()
#define LOG(sev) SHIM_LOG_STREAM(::absl::shim_log::sev)
#define LOG_IF(sev, c) !(c) ? (void)0 : LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
#define LOG_EVERY_N_SEC(sev, n) LOG(sev)
#define VLOG(n) true ? (void)0 : LOG(INFO)
#define DLOG(sev) LOG(sev)
#define PLOG(sev) LOG(sev) << std::strerror(errno) << " "
#define CHECK(c)                          \
  (c) ? (void)0                           \
      : SHIM_LOG_STREAM(::absl::shim_log::FATAL) << "Check failed: " #c " "
#define PCHECK(c) CHECK(c) << std::strerror(errno)
#define QCHECK(c) CHECK(c)
#define SHIM_CHECK_FAIL(init)                                      \
  while (auto shim_failure = (init))                               \
  SHIM_LOG_STREAM(::absl::shim_log::FATAL) << shim_failure.text
#define CHECK_EQ(a, b) \
  SHIM_CHECK_FAIL(::absl::shim_log::OpEQ((a), (b), #a " == " #b))
#define CHECK_NE(a, b) \
  SHIM_CHECK_FAIL(::absl::shim_log::OpNE((a), (b), #a " != " #b))
#define CHECK_LT(a, b) \
  SHIM_CHECK_FAIL(::absl::shim_log::OpLT((a), (b), #a " < " #b))
#define CHECK_LE(a, b) \
  SHIM_CHECK_FAIL(::absl::shim_log::OpLE((a), (b), #a " <= " #b))
#define CHECK_GT(a, b) \
  SHIM_CHECK_FAIL(::absl::shim_log::OpGT((a), (b), #a " > " #b))
#define CHECK_GE(a, b) \
  SHIM_CHECK_FAIL(::absl::shim_log::OpGE((a), (b), #a " >= " #b))
#define CHECK_OK(s)                                                       \
  SHIM_CHECK_FAIL(                                                        \
      ::absl::shim_log::OkFailure(::absl::shim_log::AsStatus((s)), #s))
#define QCHECK_OK(s) CHECK_OK(s)
#define QCHECK_EQ(a, b) CHECK_EQ(a, b)
#ifdef NDEBUG
#define SHIM_DCHECK_OFF while (false)
#define DCHECK(c) SHIM_DCHECK_OFF CHECK(c)
#define DCHECK_EQ(a, b) SHIM_DCHECK_OFF CHECK_EQ(a, b)
#define DCHECK_NE(a, b) SHIM_DCHECK_OFF CHECK_NE(a, b)
#define DCHECK_LT(a, b) SHIM_DCHECK_OFF CHECK_LT(a, b)
#define DCHECK_LE(a, b) SHIM_DCHECK_OFF CHECK_LE(a, b)
#define DCHECK_GT(a, b) SHIM_DCHECK_OFF CHECK_GT(a, b)
#define DCHECK_GE(a, b) SHIM_DCHECK_OFF CHECK_GE(a, b)
#define DCHECK_OK(s) SHIM_DCHECK_OFF CHECK_OK(s)
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(s) CHECK_OK(s)
#endif
#define ABSL_CHECK CHECK
#define ABSL_CHECK_EQ CHECK_EQ
#define ABSL_CHECK_NE CHECK_NE
#define ABSL_CHECK_LT CHECK_LT
#define ABSL_CHECK_LE CHECK_LE
#define ABSL_CHECK_GT CHECK_GT
#define ABSL_CHECK_GE CHECK_GE
#define ABSL_CHECK_OK CHECK_OK
#define ABSL_DCHECK DCHECK
#define ABSL_DCHECK_EQ DCHECK_EQ
#define ABSL_LOG LOG
#endif
