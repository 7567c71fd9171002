#ifndef SHIM_ABSL_LOG_LOG_H_
#define SHIM_ABSL_LOG_LOG_H_
#include "absl/log/shim_internal.h"
#endif
