#ifndef SHIM_ABSL_STRINGIFY_H_
#define SHIM_ABSL_STRINGIFY_H_
#include <cstdio>
#include <string>
#include <type_traits>
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace strings_internal {
class ShimStringifySink {
 public:
  void Append(size_t n, char c) { s_.append(n, c); }
  void Append(string_view v) { s_.append(v.data(), v.size()); }
  friend void AbslFormatFlush(ShimStringifySink* sink, string_view v) {
    sink->Append(v);
  }
  template <typename T>
  string_view Run(const T& v) {
    AbslStringify(*this, v);
    return s_;
  }

 private:
  std::string s_;
};
template <typename T>
inline constexpr bool kShimHasStringify =
    !std::is_arithmetic_v<T> &&
    requires(ShimStringifySink& sink, const T& v) { AbslStringify(sink, v); };
}  // namespace strings_internal
ABSL_NAMESPACE_END
template <typename T>
struct HasAbslStringify
    : std::bool_constant<strings_internal::kShimHasStringify<T>> {};
}  // namespace absl
#endif
