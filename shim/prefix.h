// Force-included into every translation unit.
#include <cstddef>
#include <string>
#include <type_traits>
using std::nullptr_t;
// The project's protobuf takes absl::string_view in string setters; the
// installed one does not.  The generated headers are run through PbStr().
#include "absl/strings/string_view.h"
namespace shim_pb {
template <typename T>
decltype(auto) PbStr(T&& t) {
  if constexpr (std::is_same_v<std::decay_t<T>, absl::string_view>) {
    return std::string(t);
  } else {
    return static_cast<T&&>(t);
  }
}
}  // namespace shim_pb
