#ifndef SHIM_ABSL_BASE_ATTRIBUTES_H_
#define SHIM_ABSL_BASE_ATTRIBUTES_H_
#include_next "absl/base/attributes.h"
#ifndef ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_VIEW
#endif
#ifndef ABSL_ATTRIBUTE_OWNER
#define ABSL_ATTRIBUTE_OWNER
#endif
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#ifndef ABSL_REQUIRE_EXPLICIT_INIT
#define ABSL_REQUIRE_EXPLICIT_INIT
#endif
#ifndef ABSL_ATTRIBUTE_WARN_UNUSED
#define ABSL_ATTRIBUTE_WARN_UNUSED
#endif
#ifndef ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#endif
#ifndef ABSL_REFACTOR_INLINE
#define ABSL_REFACTOR_INLINE
#endif
#ifndef ABSL_DEPRECATE_AND_INLINE
#define ABSL_DEPRECATE_AND_INLINE()
#endif
#ifndef ABSL_INTERNAL_UNIQUE_SMALL_NAME
#define ABSL_INTERNAL_UNIQUE_SMALL_NAME()
#endif
#endif
