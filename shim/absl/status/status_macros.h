#ifndef SHIM_ABSL_STATUS_STATUS_MACROS_H_
#define SHIM_ABSL_STATUS_STATUS_MACROS_H_
#include <sstream>
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/types/source_location.h"
namespace absl {
class StatusBuilder {
 public:
  explicit StatusBuilder(
      Status s, SourceLocation loc = SourceLocation::current())
      : s_(std::move(s)), loc_(loc) {}
  explicit StatusBuilder(
      StatusCode c, SourceLocation loc = SourceLocation::current())
      : s_(c, ""), loc_(loc) {}
  StatusBuilder(const StatusBuilder& o) : s_(o.s_), loc_(o.loc_), mode_(o.mode_) {
    os_ << o.os_.str();
  }
  StatusBuilder(StatusBuilder&&) = default;
  StatusBuilder& operator=(StatusBuilder&&) = default;
  template <typename T>
  StatusBuilder& operator<<(const T& t) & {
    if (!s_.ok()) os_ << t;
    return *this;
  }
  template <typename T>
  StatusBuilder&& operator<<(const T& t) && {
    if (!s_.ok()) os_ << t;
    return std::move(*this);
  }
  StatusBuilder& SetAppend() & { mode_ = 1; return *this; }
  StatusBuilder&& SetAppend() && { mode_ = 1; return std::move(*this); }
  StatusBuilder& SetPrepend() & { mode_ = 2; return *this; }
  StatusBuilder&& SetPrepend() && { mode_ = 2; return std::move(*this); }
  template <typename F>
  auto With(F&& f) & -> decltype(std::forward<F>(f)(*this)) {
    return std::forward<F>(f)(*this);
  }
  template <typename F>
  auto With(F&& f) && -> decltype(std::forward<F>(f)(std::move(*this))) {
    return std::forward<F>(f)(std::move(*this));
  }
  bool ok() const { return s_.ok(); }
  StatusCode code() const { return s_.code(); }
  SourceLocation source_location() const { return loc_; }
  operator Status() const& { return Make(s_); }
  operator Status() && { return Make(std::move(s_)); }
  template <typename T>
  operator StatusOr<T>() const& { return Make(s_); }
  template <typename T>
  operator StatusOr<T>() && { return Make(std::move(s_)); }

 private:
  Status Make(Status s) const {
    std::string extra = os_.str();
    if (s.ok() || extra.empty()) return s;
    std::string msg;
    if (s.message().empty()) {
      msg = extra;
    } else if (mode_ == 1) {
      msg = StrCat(s.message(), extra);
    } else if (mode_ == 2) {
      msg = StrCat(extra, s.message());
    } else {
      msg = StrCat(s.message(), "; ", extra);
    }
    Status r(s.code(), msg);
    s.ForEachPayload([&](string_view url, const Cord& c) { r.SetPayload(url, c); });
    return r;
  }
  Status s_;
  SourceLocation loc_;
  int mode_ = 0;
  std::ostringstream os_;
};
namespace shim_status {
class ReturnIf {
 public:
  explicit ReturnIf(Status s) : s_(std::move(s)) {}
  explicit ReturnIf(StatusBuilder b) : s_(std::move(b)) {}
  explicit operator bool() const { return s_.ok(); }
  Status&& Take() { return std::move(s_); }

 private:
  Status s_;
};
}  // namespace shim_status
}  // namespace absl
#define SHIM_SM_CAT_(a, b) a##b
#define SHIM_SM_CAT(a, b) SHIM_SM_CAT_(a, b)
#define ABSL_RETURN_IF_ERROR(expr)                               \
  switch (0)                                                     \
  case 0:                                                        \
  default:                                                       \
    if (auto shim_status_adaptor = ::absl::shim_status::ReturnIf(expr)) \
      [[likely]] {                                               \
    } else                                                       \
      return ::absl::StatusBuilder(shim_status_adaptor.Take())
#define SHIM_SM_REM(...) __VA_ARGS__
#define SHIM_SM_CHECK_N(x, n, ...) n
#define SHIM_SM_CHECK(...) SHIM_SM_CHECK_N(__VA_ARGS__, 0, )
#define SHIM_SM_PROBE(...) ~, 1,
#define SHIM_SM_IS_PAREN(x) SHIM_SM_CHECK(SHIM_SM_PROBE x)
#define SHIM_SM_UNPAREN_1(x) SHIM_SM_REM x
#define SHIM_SM_UNPAREN_0(x) x
#define SHIM_SM_UNPAREN(x) \
  SHIM_SM_CAT(SHIM_SM_UNPAREN_, SHIM_SM_IS_PAREN(x))(x)
#define SHIM_SM_AOR_IMPL(var, lhs, rexpr, err) \
  auto var = (rexpr);                          \
  if (!var.ok()) [[unlikely]] {                \
    ::absl::StatusBuilder _(std::move(var).status()); \
    (void)_;                                   \
    return (err);                              \
  }                                            \
  SHIM_SM_UNPAREN(lhs) = *std::move(var)
#define SHIM_SM_AOR_2(lhs, rexpr) \
  SHIM_SM_AOR_IMPL(SHIM_SM_CAT(shim_statusor_, __COUNTER__), lhs, rexpr, std::move(_))
#define SHIM_SM_AOR_3(lhs, rexpr, err) \
  SHIM_SM_AOR_IMPL(SHIM_SM_CAT(shim_statusor_, __COUNTER__), lhs, rexpr, err)
#define SHIM_SM_PICK(a, b, c, name, ...) name
#define ABSL_ASSIGN_OR_RETURN(...) \
  SHIM_SM_PICK(__VA_ARGS__, SHIM_SM_AOR_3, SHIM_SM_AOR_2, 0)(__VA_ARGS__)
#define RETURN_IF_ERROR(expr) ABSL_RETURN_IF_ERROR(expr)
#define ASSIGN_OR_RETURN(...) ABSL_ASSIGN_OR_RETURN(__VA_ARGS__)
#endif
