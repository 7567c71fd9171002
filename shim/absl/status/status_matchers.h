// Minimal stand-in for absl/status/status_matchers.h (missing in the system
// Abseil); only needed to run arolla's own gtests against the shims.
#ifndef SHIM_ABSL_STATUS_STATUS_MATCHERS_H_
#define SHIM_ABSL_STATUS_STATUS_MATCHERS_H_
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
#include "gmock/gmock.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl_testing {
namespace shim_internal {
inline absl::Status GetStatus(const absl::Status& s) { return s; }
template <class T>
absl::Status GetStatus(const absl::StatusOr<T>& s) { return s.status(); }

class IsOkMatcher {
 public:
  using is_gtest_matcher = void;
  template <class T>
  bool MatchAndExplain(const T& v, std::ostream* os) const {
    absl::Status s = GetStatus(v);
    if (os && !s.ok()) *os << s.ToString();
    return s.ok();
  }
  void DescribeTo(std::ostream* os) const { *os << "is OK"; }
  void DescribeNegationTo(std::ostream* os) const { *os << "is not OK"; }
};

template <class Inner>
class IsOkAndHoldsMatcher {
 public:
  using is_gtest_matcher = void;
  explicit IsOkAndHoldsMatcher(Inner m) : m_(std::move(m)) {}
  template <class S>
  bool MatchAndExplain(const S& v, std::ostream* os) const {
    using V = typename S::value_type;
    if (!v.ok()) {
      if (os) *os << "status " << v.status().ToString();
      return false;
    }
    ::testing::StringMatchResultListener l;
    bool r = ::testing::SafeMatcherCast<const V&>(m_).MatchAndExplain(*v, &l);
    if (os) *os << l.str();
    return r;
  }
  void DescribeTo(std::ostream* os) const { *os << "is OK and holds"; }
  void DescribeNegationTo(std::ostream* os) const { *os << "not (is OK and holds)"; }
  Inner m_;
};

template <class CM, class MM>
class StatusIsMatcher {
 public:
  using is_gtest_matcher = void;
  StatusIsMatcher(CM c, MM m) : c_(std::move(c)), m_(std::move(m)) {}
  template <class S>
  bool MatchAndExplain(const S& v, std::ostream* os) const {
    absl::Status s = GetStatus(v);
    if (os) *os << s.ToString();
    std::string msg(s.message().data(), s.message().size());
    return ::testing::SafeMatcherCast<absl::StatusCode>(c_).Matches(s.code()) &&
           ::testing::SafeMatcherCast<const std::string&>(m_).Matches(msg);
  }
  void DescribeTo(std::ostream* os) const { *os << "status is"; }
  void DescribeNegationTo(std::ostream* os) const { *os << "status is not"; }
  CM c_;
  MM m_;
};
}  // namespace shim_internal
inline shim_internal::IsOkMatcher IsOk() { return {}; }
template <class M>
shim_internal::IsOkAndHoldsMatcher<std::decay_t<M>> IsOkAndHolds(M&& m) {
  return shim_internal::IsOkAndHoldsMatcher<std::decay_t<M>>(std::forward<M>(m));
}
template <class C, class M>
auto StatusIs(C c, M m) {
  return shim_internal::StatusIsMatcher<C, M>(std::move(c), std::move(m));
}
template <class C>
auto StatusIs(C c) {
  return StatusIs(std::move(c), ::testing::_);
}
}  // namespace absl_testing
#define ASSERT_OK(e) ASSERT_THAT(e, ::absl_testing::IsOk())
#define EXPECT_OK(e) EXPECT_THAT(e, ::absl_testing::IsOk())
#define SHIM_MCAT2(a, b) a##b
#define SHIM_MCAT(a, b) SHIM_MCAT2(a, b)
#define ASSERT_OK_AND_ASSIGN(lhs, rexpr) SHIM_AOAA(SHIM_MCAT(shim_so_, __COUNTER__), lhs, rexpr)
#define SHIM_AOAA(v, lhs, rexpr)                 \
  auto v = (rexpr);                              \
  ASSERT_TRUE(v.ok()) << v.status().ToString();  \
  SHIM_STRIP(lhs) = *std::move(v)
#define SHIM_STRIP(X) X
#endif
