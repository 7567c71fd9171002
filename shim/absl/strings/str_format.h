#ifndef SHIM_ABSL_STRINGS_STR_FORMAT_H_
#define SHIM_ABSL_STRINGS_STR_FORMAT_H_
#include_next "absl/strings/str_format.h"
#include <array>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/shim_stringify.h"
#include "absl/strings/str_cat.h"
// Shim: the installed abseil has no %v and no AbslStringify().  A format given
// as a string literal goes through here, checked at run time.
namespace absl {
namespace shim_format {
template <typename T>
constexpr char VConv() {
  if constexpr (std::is_same_v<T, bool>) return 'd';
  else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) return 'd';
  else if constexpr (std::is_floating_point_v<T>) return 'g';
  else return 's';
}
template <typename T>
struct Holder {
  static constexpr bool kStr = strings_internal::kShimHasStringify<T>;
  std::conditional_t<kStr, std::string, const T&> v;
  explicit Holder(const T& t) : v(Make(t)) {}
  static decltype(auto) Make(const T& t) {
    if constexpr (kStr) {
      strings_internal::ShimStringifySink sink;
      return std::string(sink.Run(t));
    } else {
      return static_cast<const T&>(t);
    }
  }
};
template <typename... Args>
void Run(std::string* out, string_view fmt, const Args&... args) {
  std::string tmp;
  if (fmt.find("%v") != string_view::npos) {
    constexpr char conv[] = {VConv<std::decay_t<Args>>()..., 0};
    size_t arg = 0;
    for (size_t i = 0; i < fmt.size(); ++i) {
      if (fmt[i] != '%') {
        tmp += fmt[i];
        continue;
      }
      tmp += '%';
      if (i + 1 < fmt.size() && fmt[i + 1] == '%') {
        tmp += '%';
        ++i;
        continue;
      }
      for (++i; i < fmt.size(); ++i) {
        if (fmt[i] == '*') ++arg;
        if ((fmt[i] >= 'a' && fmt[i] <= 'z' && fmt[i] != 'l' && fmt[i] != 'h' &&
             fmt[i] != 'z' && fmt[i] != 'j' && fmt[i] != 't' && fmt[i] != 'q') ||
            (fmt[i] >= 'A' && fmt[i] <= 'Z' && fmt[i] != 'L')) {
          tmp += fmt[i] == 'v' && arg < sizeof...(Args) ? conv[arg] : fmt[i];
          ++arg;
          break;
        }
        tmp += fmt[i];
      }
    }
    fmt = tmp;
  }
  [&](const auto&... h) {
    std::array<FormatArg, sizeof...(Args) + 1> a{FormatArg(h.v)..., FormatArg(0)};
    FormatUntyped(out, UntypedFormatSpec(fmt),
                  absl::Span<const FormatArg>(a.data(), sizeof...(Args)));
  }(Holder<Args>(args)...);
}
}  // namespace shim_format
template <size_t N, typename... Args>
std::string StrFormat(const char (&fmt)[N], const Args&... args) {
  std::string out;
  shim_format::Run(&out, string_view(fmt, N - 1), args...);
  return out;
}
template <size_t N, typename... Args>
std::string& StrAppendFormat(std::string* dst, const char (&fmt)[N],
                             const Args&... args) {
  shim_format::Run(dst, string_view(fmt, N - 1), args...);
  return *dst;
}
}  // namespace absl
#endif
