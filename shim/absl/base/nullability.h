#ifndef SHIM_ABSL_BASE_NULLABILITY_H_
#define SHIM_ABSL_BASE_NULLABILITY_H_
// Stand-in for a header that the installed abseil does not have.
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_NULLABILITY_COMPATIBLE
#define ABSL_POINTERS_DEFAULT_NONNULL
#endif
