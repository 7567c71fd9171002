#ifndef SHIM_ABSL_LOG_DIE_IF_NULL_H_
#define SHIM_ABSL_LOG_DIE_IF_NULL_H_
#include "absl/log/shim_internal.h"
namespace absl::shim_log {
template <typename T>
T DieIfNull(const char* file, int line, const char* expr, T&& t) {
  if (t == nullptr) Message(file, line, FATAL).stream() << expr << " is null";
  return std::forward<T>(t);
}
}  // namespace absl::shim_log
#define ABSL_DIE_IF_NULL(val) \
  ::absl::shim_log::DieIfNull(__FILE__, __LINE__, #val, (val))
#endif
