#ifndef SHIM_ABSL_ALGORITHM_CONTAINER_H_
#define SHIM_ABSL_ALGORITHM_CONTAINER_H_
#include_next "absl/algorithm/container.h"
namespace absl {
template <typename C, typename T>
bool c_contains(const C& c, T&& value) {
  return absl::c_find(c, std::forward<T>(value)) != std::end(c);
}
}  // namespace absl
#endif
