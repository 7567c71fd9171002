From 0b3c1c7c80bc4a56e06c7521d13744b7ba0364f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 01/26] fix: size type of map loops in array accessors
 generated for nullable parents

The lambda counting the elements returned both `0` and `map.size()`, which
have different types, so the generated code did not compile.
---
 arolla/codegen/io/protopath.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 69813ee..3a4e669 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -1206,8 +1206,13 @@ class _SingleMultiElemPath:
       )  # we are inside of lambda returning size
 
     size_path = self._multi_elem.access_for_size
+    # `return 0` must agree with the type of `size()`, which is not int for
+    # containers other than repeated fields (e.g. for map fields).
+    result_type = (
+        '' if isinstance(self._multi_elem, _RangeSliceElement) else '-> size_t '
+    )
     return (
-        f'size_t {size_var} = [&]() {{ '
+        f'size_t {size_var} = [&]() {result_type}{{ '
         f'{body}\nreturn {last_value}{size_path}; }}();'
     )
 
-- 
2.43.0


From 14a49bb74b509d2ebeb45c477af5cb787fac7c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 02/26] fix: getter names of proto fields called do and extern

---
 arolla/codegen/io/protopath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 3a4e669..87fd005 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -71,13 +71,14 @@ _CPP_KEYWORDS = frozenset([
     'decltype',
     'default',
     'delete',
+    'do',
     'double',
     'dynamic_cast',
     'else',
     'enum',
     'explicit',
     'export',
-    'extern ',
+    'extern',
     'false',
     'float',
     'for',
-- 
2.43.0


From 57d89264d64171e689fa958b58bd06d134f58ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 03/26] fix: accessors of one protopath with different types
 are different

Two accessors with the same name and protopath but a different C++ type or
default value compared equal, so AccessorsList merged them silently and kept
whichever came first, instead of reporting the duplicate name.
---
 arolla/codegen/io/protopath.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 87fd005..5e76f89 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -1394,8 +1394,12 @@ class ProtopathAccessor(accessors.Accessor):
     self.default_value_cpp = default_value_cpp
 
   def __eq__(self, other) -> bool:
-    return isinstance(other, ProtopathAccessor) and (
-        other.protopath == self.protopath
+    return (
+        isinstance(other, ProtopathAccessor)
+        and super().__eq__(other)
+        and other.protopath == self.protopath
+        and other.cpp_type == self.cpp_type
+        and other.default_value_cpp == self.default_value_cpp
     )
 
 
-- 
2.43.0


From 6b149fce00284ed5aa3a22d76424c42d2691e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 04/26] fix: StringsBuffer::ReshuffleBuilder: take base_offset
 into account

---
 arolla/memory/strings_buffer.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index e2a93e5..eb167f9 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -63,8 +63,10 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
     // Due to default_value characters buffer can not be reused. So we copy the
     // buffer and add default_value at the end.
     int64_t def_value_size = default_value.value.size();
+    // Offsets are relative to base_offset_.
+    offset_type def_value_start = base_offset_ + characters_.size();
     offsets_bldr_.SetNConst(
-        0, max_size, {characters_.size(), def_value_size + characters_.size()});
+        0, max_size, {def_value_start, def_value_start + def_value_size});
     SimpleBuffer<char>::Builder chars_bldr(characters_.size() + def_value_size,
                                            buf_factory);
     char* data = chars_bldr.GetMutableSpan().data();
@@ -73,8 +75,7 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
                 def_value_size);
     characters_ = std::move(chars_bldr).Build();
   } else {
-    std::memset(offsets_bldr_.GetMutableSpan().begin(), 0,
-                max_size * sizeof(Offsets));
+    offsets_bldr_.SetNConst(0, max_size, {base_offset_, base_offset_});
   }
 }
 
-- 
2.43.0


From 6730a181dbb8bfc319903cb3afab05d4a221e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 05/26] fix: include base_offset in StringsBuffer fingerprint

---
 arolla/memory/strings_buffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index eb167f9..a16a9d3 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -208,6 +208,7 @@ void FingerprintHasherTraits<StringsBuffer>::operator()(
   // This is fine for now, but may be worth reconsidering in the future.
   hasher->Combine(value.size());
   if (!value.empty()) {
+    hasher->Combine(value.base_offset());
     auto offsets_span = value.offsets().span();
     hasher->CombineRawBytes(offsets_span.data(),
                             offsets_span.size() * sizeof(offsets_span[0]));
-- 
2.43.0


From 8a83b9de9da10afbe2ac860ac1066c690322f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 06/26] fix: StringsBuffer: equal buffers must have equal
 hashes

---
 arolla/memory/strings_buffer.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/arolla/memory/strings_buffer.h b/arolla/memory/strings_buffer.h
index b531213..18d6d01 100644
--- a/arolla/memory/strings_buffer.h
+++ b/arolla/memory/strings_buffer.h
@@ -53,7 +53,6 @@ class StringsBuffer {
   using offset_type = int64_t;
 
   struct Offsets {
-    // If you modify this struct, update StringsBuffer::AbslHashValue.
     offset_type start;  // inclusive
     offset_type end;    // exclusive
   };
@@ -291,15 +290,11 @@ class StringsBuffer {
 
   template <typename H>
   friend H AbslHashValue(H h, const StringsBuffer& buffer) {
-    // Here we hash the complete underlying character buffer even if this
-    // StringsBuffer may skip over large sections of it.
-    // This is fine for now, but may be worth reconsidering in the future.
+    // Hash values rather than offsets and characters, because equal buffers can
+    // have different layouts.
     h = H::combine(std::move(h), buffer.size());
-    if (!buffer.empty()) {
-      auto* start = reinterpret_cast<const char*>(&*buffer.offsets().begin());
-      const size_t size = buffer.size() * sizeof(Offsets);
-      h = H::combine_contiguous(std::move(h), start, size);
-      h = H::combine(std::move(h), buffer.characters());
+    for (absl::string_view value : buffer) {
+      h = H::combine(std::move(h), value);
     }
     return h;
   }
-- 
2.43.0


From 9145128e35003ca0dfab3c0335500a0198be1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 07/26] fix: include ids_offset in IdFilter fingerprint

---
 arolla/array/id_filter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/array/id_filter.cc b/arolla/array/id_filter.cc
index df40da7..b1e9745 100644
--- a/arolla/array/id_filter.cc
+++ b/arolla/array/id_filter.cc
@@ -60,7 +60,7 @@ void FingerprintHasherTraits<IdFilter>::operator()(
     FingerprintHasher* hasher, const IdFilter& value) const {
   hasher->Combine(value.type());
   if (value.type() != IdFilter::Type::kFull) {
-    hasher->Combine(value.ids());
+    hasher->Combine(value.ids(), value.ids_offset());
   }
 }
 
-- 
2.43.0


From 0bb31d83172bcb4c7a99737fcb97ea2070537bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 08/26] fix: AlmostFullBuilder::Build(size) with no missing ids

---
 arolla/dense_array/bitmap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/dense_array/bitmap.h b/arolla/dense_array/bitmap.h
index 54fada1..dacd807 100644
--- a/arolla/dense_array/bitmap.h
+++ b/arolla/dense_array/bitmap.h
@@ -250,6 +250,7 @@ class AlmostFullBuilder {
 
   Bitmap Build() && { return std::move(bitmap_buffer_); }
   Bitmap Build(int64_t size) && {
+    if (!bitmap_) return Bitmap();  // no missing ids
     return std::move(bitmap_buffer_).Slice(0, BitmapSize(size));
   }
 
-- 
2.43.0


From 0733f09149bfa7be180aa61912dea399ce9f6dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 09/26] fix: ArraysAreEquivalent: empty arrays represent the
 same data

---
 arolla/array/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/array/array.h b/arolla/array/array.h
index 370efab..e5fd3dc 100644
--- a/arolla/array/array.h
+++ b/arolla/array/array.h
@@ -396,6 +396,7 @@ class AROLLA_API Array {
 template <typename T>
 bool ArraysAreEquivalent(const Array<T>& lhs, const Array<T>& rhs) {
   if (lhs.size() != rhs.size()) return false;
+  if (lhs.empty()) return true;  // missing_id_value is not used
   if (lhs.IsDenseForm() && rhs.IsDenseForm()) {
     return ArraysAreEquivalent(lhs.dense_data(), rhs.dense_data());
   }
-- 
2.43.0


From 86cf844bba9ec10877bb659d40b0caa3c7fe139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 10/26] fix: array pointwise operations: no call for missing
 ids when there are none

---
 arolla/array/pointwise_op.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arolla/array/pointwise_op.h b/arolla/array/pointwise_op.h
index 7e0cadf..154a48c 100644
--- a/arolla/array/pointwise_op.h
+++ b/arolla/array/pointwise_op.h
@@ -76,6 +76,12 @@ class ArrayPointwiseOp<ResT, DenseArrayOp, PointwiseFn,
                                  id_filter, args.missing_id_value())...));
     }
 
+    if (size == 0 || id_filter.type() == IdFilter::kFull) {
+      // There are no missing ids, so fn shouldn't be called for them (and can't
+      // cause an error).
+      return Array<ResT>(size, std::move(id_filter), std::move(data));
+    }
+
     auto missing_id_value = pointwise_fn_(args.missing_id_value()...);
     RETURN_IF_ERROR(GetStatusOrOk(missing_id_value));
     return Array<ResT>(
-- 
2.43.0


From 38f9aafec9dbd61c15e901b747d7a508aba8d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 11/26] fix: ArrayEdge::FromSplitPoints: drop a bitmap of
 present split points

Every user of a split points edge expects its values in the full form, and
debug builds check it.
---
 arolla/array/edge.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arolla/array/edge.cc b/arolla/array/edge.cc
index c833f16..a35d43a 100644
--- a/arolla/array/edge.cc
+++ b/arolla/array/edge.cc
@@ -47,6 +47,11 @@ absl::StatusOr<ArrayEdge> ArrayEdge::FromSplitPoints(
     return absl::InvalidArgumentError(
         "split points array should have first element equal to 0");
   }
+  if (!split_points.IsFullForm()) {
+    // All split points are present, so the bitmap is not needed.
+    split_points = Array<int64_t>(
+        DenseArray<int64_t>{split_points.dense_data().values});
+  }
   int64_t parent_size = split_points.size() - 1;
   int64_t child_size = split_points.dense_data().values.back();
   if (!std::is_sorted(split_points.dense_data().values.begin(),
-- 
2.43.0


From ca47ba9645a10484f291d8cbf7cec6533edbf72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 12/26] fix: single input decision forest evaluation between
 infinite and huge split points

PiecewiseConstantCompiler evaluated the forest in (left + right) / 2, which
overflows for big values and is not between the points if one of them is
infinite; values outside of the finite range were evaluated in lowest()/max(),
and NaN was treated as a missed value, so the result differed from the other
evaluation algorithms.
---
 .../pointwise_evaluation/single_input_eval.cc | 50 +++++++++++++++----
 .../pointwise_evaluation/single_input_eval.h  |  4 +-
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
index ad671e2..2044739 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
@@ -14,6 +14,7 @@
 //
 #include "arolla/decision_forest/pointwise_evaluation/single_input_eval.h"
 
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <memory>
@@ -64,8 +65,7 @@ absl::Status AddSplitPoints(const SplitCondition* cond,
       if (interval_cond->left() != -inf) {
         split_points->push_back(interval_cond->left());
       }
-      if (interval_cond->right() != inf &&
-          interval_cond->right() != interval_cond->left()) {
+      if (interval_cond->right() != inf) {
         split_points->push_back(interval_cond->right());
       }
       return absl::OkStatus();
@@ -90,6 +90,17 @@ absl::StatusOr<std::vector<T>> GetSplitPoints(
   return split_points;
 }
 
+// Returns the smallest value that is greater than `v`. Should not be called for
+// the greatest value of the type.
+template <typename T>
+T NextValue(T v) {
+  if constexpr (std::is_floating_point_v<T>) {
+    return std::nextafter(v, std::numeric_limits<T>::infinity());
+  } else {
+    return v + 1;
+  }
+}
+
 template <typename T>
 bool is_nan(T v ABSL_ATTRIBUTE_UNUSED) {
   if constexpr (std::numeric_limits<T>::has_quiet_NaN) {
@@ -164,37 +175,54 @@ PiecewiseConstantCompiler<T>::Build(
   if (split_points.empty()) {
     middle_values.push_back(evaluator.Eval(static_cast<T>(0)));
   } else {
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::lowest()));
+    using Limits = std::numeric_limits<T>;
+    constexpr T kMin = Limits::has_infinity ? -Limits::infinity()
+                                            : Limits::lowest();
+    constexpr T kMax = Limits::has_infinity ? Limits::infinity()
+                                            : Limits::max();
+    middle_values.push_back(evaluator.Eval(kMin));
     for (int i = 1; i < split_points.size(); ++i) {
-      T left = split_points[i - 1];
-      T right = split_points[i];
-      middle_values.push_back(evaluator.Eval((left + right) / 2));
+      // Note that (left + right) / 2 is not suitable: it may overflow and it is
+      // not between left and right if one of them is infinite.
+      middle_values.push_back(evaluator.Eval(NextValue(split_points[i - 1])));
     }
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::max()));
+    middle_values.push_back(evaluator.Eval(kMax));
+  }
+
+  float result_if_value_is_missed = evaluator.Eval(std::nullopt);
+  float result_if_value_is_nan = result_if_value_is_missed;
+  if constexpr (std::numeric_limits<T>::has_quiet_NaN) {
+    result_if_value_is_nan =
+        evaluator.Eval(std::numeric_limits<T>::quiet_NaN());
   }
 
   return PiecewiseConstantEvaluator<T>(
       input_slot, std::move(split_points), std::move(point_values),
-      std::move(middle_values), evaluator.Eval(std::nullopt));
+      std::move(middle_values), result_if_value_is_missed,
+      result_if_value_is_nan);
 }
 
 template <typename T>
 PiecewiseConstantEvaluator<T>::PiecewiseConstantEvaluator(
     FrameLayout::Slot<OptionalValue<T>> slot, std::vector<T> split_points,
     std::vector<float> point_values, std::vector<float> middle_values,
-    float result_if_value_is_missed)
+    float result_if_value_is_missed, float result_if_value_is_nan)
     : input_slot_(slot),
       split_points_(std::move(split_points)),
       point_values_(std::move(point_values)),
       middle_values_(std::move(middle_values)),
-      result_if_value_is_missed_(result_if_value_is_missed) {}
+      result_if_value_is_missed_(result_if_value_is_missed),
+      result_if_value_is_nan_(result_if_value_is_nan) {}
 
 template <typename T>
 float PiecewiseConstantEvaluator<T>::Eval(const ConstFramePtr ctx) const {
   OptionalValue<T> opt_value = ctx.Get(input_slot_);
-  if (!opt_value.present || is_nan(opt_value.value)) {
+  if (!opt_value.present) {
     return result_if_value_is_missed_;
   }
+  if (is_nan(opt_value.value)) {
+    return result_if_value_is_nan_;
+  }
   T value = opt_value.value;
 
   int split_point_id =
diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.h b/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
index cdcb89a..6b281c9 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
@@ -49,7 +49,8 @@ class PiecewiseConstantEvaluator {
                                       std::vector<T> split_points,
                                       std::vector<float> point_values,
                                       std::vector<float> middle_values,
-                                      float result_if_value_is_missed);
+                                      float result_if_value_is_missed,
+                                      float result_if_value_is_nan);
 
   float Eval(ConstFramePtr ctx) const;
 
@@ -59,6 +60,7 @@ class PiecewiseConstantEvaluator {
   std::vector<float> point_values_;
   std::vector<float> middle_values_;
   float result_if_value_is_missed_;
+  float result_if_value_is_nan_;
 };
 
 // Constructs PiecewiseConstantEvaluator from set of decision trees. All trees
-- 
2.43.0


From 82659520df0e7801c7bee7edbc202e41005fabc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 13/26] fix: strings.lstrip and rstrip of bytes handle all the
 byte values

---
 arolla/qexpr/operators/strings/strings.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/arolla/qexpr/operators/strings/strings.h b/arolla/qexpr/operators/strings/strings.h
index fc98bff..a58432f 100644
--- a/arolla/qexpr/operators/strings/strings.h
+++ b/arolla/qexpr/operators/strings/strings.h
@@ -126,11 +126,12 @@ struct LStripOp {
       return absl::string_view(b, e - b + 1);
     };
     if (chars.present) {
-      std::bitset<256> char_set(256);
-      for (char c : absl::string_view(chars.value)) {
-        char_set.set(static_cast<int>(c));
+      std::bitset<256> char_set;
+      for (unsigned char c : absl::string_view(chars.value)) {
+        char_set.set(c);
       }
-      return Bytes(do_lstrip(bytes, [&](char c) { return char_set.test(c); }));
+      return Bytes(do_lstrip(
+          bytes, [&](unsigned char c) { return char_set.test(c); }));
     } else {
       return Bytes(
           do_lstrip(bytes, [&](char c) { return absl::ascii_isspace(c); }));
@@ -181,11 +182,12 @@ struct RStripOp {
       return absl::string_view(b, e - b + 1);
     };
     if (chars.present) {
-      std::bitset<256> char_set(256);
-      for (char c : absl::string_view(chars.value)) {
-        char_set.set(static_cast<int>(c));
+      std::bitset<256> char_set;
+      for (unsigned char c : absl::string_view(chars.value)) {
+        char_set.set(c);
       }
-      return Bytes(do_rstrip(bytes, [&](char c) { return char_set.test(c); }));
+      return Bytes(do_rstrip(
+          bytes, [&](unsigned char c) { return char_set.test(c); }));
     } else {
       return Bytes(
           do_rstrip(bytes, [&](char c) { return absl::ascii_isspace(c); }));
-- 
2.43.0


From 32901b9872b4bc57c296c68fbee6646255543491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 14/26] fix: edge.resize_groups_child_side: check the kind of
 the edge before assuming it

The debug check that split points are full failed on mapping edges, for which
the operator is supposed to return an Unimplemented error.
---
 arolla/qexpr/operators/array/edge_ops.h       | 2 +-
 arolla/qexpr/operators/dense_array/edge_ops.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index 1fc8cf6..020b9c2 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -596,12 +596,12 @@ struct ArrayEdgeResizeGroupsChildSide {
   }
 
   absl::Status CheckEdge(const ArrayEdge& edge) const {
-    DCHECK(edge.edge_values().dense_data().IsFull());
     if (edge.edge_type() != ArrayEdge::SPLIT_POINTS) {
       return absl::UnimplementedError(
           "operator edge.resize_groups_child_side is only supported for "
           "SPLIT_POINTS edges");
     }
+    DCHECK(edge.edge_values().dense_data().IsFull());
     return absl::OkStatus();
   }
 
diff --git a/arolla/qexpr/operators/dense_array/edge_ops.h b/arolla/qexpr/operators/dense_array/edge_ops.h
index c437203..ee03da3 100644
--- a/arolla/qexpr/operators/dense_array/edge_ops.h
+++ b/arolla/qexpr/operators/dense_array/edge_ops.h
@@ -418,12 +418,12 @@ struct DenseArrayEdgeResizeGroupsChildSide {
   }
 
   absl::Status CheckEdge(const DenseArrayEdge& edge) const {
-    DCHECK(edge.edge_values().IsFull());
     if (edge.edge_type() != DenseArrayEdge::SPLIT_POINTS) {
       return absl::UnimplementedError(
           "operator edge.resize_groups_child_side is only supported for "
           "SPLIT_POINTS edges");
     }
+    DCHECK(edge.edge_values().IsFull());
     return absl::OkStatus();
   }
 
-- 
2.43.0


From 632b877e3d39bff146a5c407bb94aedd78bcf83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 15/26] fix: do not replace a negated float comparison with the
 opposite one (NaN)

---
 .../peephole_optimizations/bool.cc            | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/arolla/expr/optimization/peephole_optimizations/bool.cc b/arolla/expr/optimization/peephole_optimizations/bool.cc
index 1acc255..82584b3 100644
--- a/arolla/expr/optimization/peephole_optimizations/bool.cc
+++ b/arolla/expr/optimization/peephole_optimizations/bool.cc
@@ -32,7 +32,9 @@
 #include "arolla/expr/optimization/peephole_optimizer.h"
 #include "arolla/expr/registered_expr_operator.h"
 #include "arolla/memory/optional_value.h"
+#include "arolla/qtype/base_types.h"
 #include "arolla/qtype/qtype_traits.h"
+#include "arolla/qtype/standard_type_properties/properties.h"
 #include "arolla/util/fingerprint.h"
 
 namespace arolla::expr {
@@ -54,9 +56,18 @@ std::vector<ExprNodePtr> BoolLiterals(bool value) {
   return {Literal(value), Literal(MakeOptionalValue(value))};
 }
 
-constexpr std::array kComparisonOppositeOps = {
+// Returns true if the node is known to have a floating point type, i.e. its
+// values may be NaN.
+bool IsFloatingPoint(const ExprNode& node) {
+  return IsFloatingPointScalarQType(GetScalarQTypeOrNull(node.qtype()));
+}
+
+constexpr std::array kEqualityOppositeOps = {
     std::pair{"bool.equal", "bool.not_equal"},
-    std::pair{"bool.not_equal", "bool.equal"},
+    std::pair{"bool.not_equal", "bool.equal"}};
+
+// NOTE: These pairs are not opposite when one of the arguments is NaN.
+constexpr std::array kInequalityOppositeOps = {
     // bool.greater and bool.greater_equal are not backend operators,
     // so we don't transform from them.
     std::pair{"bool.less", "bool.greater_equal"},
@@ -77,7 +88,7 @@ absl::Status LogicalNotComparisonOptimizations(
     ASSIGN_OR_RETURN(optimizations.emplace_back(),
                      CreatePatternBasedOptimization(from, a));
   }
-  for (auto [cmp1, cmp2] : kComparisonOppositeOps) {
+  for (auto [cmp1, cmp2] : kEqualityOppositeOps) {
     ASSIGN_OR_RETURN(
         ExprNodePtr from,
         CallOpReference("bool.logical_not", {CallOpReference(cmp1, {a, b})}));
@@ -85,6 +96,17 @@ absl::Status LogicalNotComparisonOptimizations(
     ASSIGN_OR_RETURN(optimizations.emplace_back(),
                      CreatePatternBasedOptimization(from, to));
   }
+  for (auto [cmp1, cmp2] : kInequalityOppositeOps) {
+    ASSIGN_OR_RETURN(
+        ExprNodePtr from,
+        CallOpReference("bool.logical_not", {CallOpReference(cmp1, {a, b})}));
+    ASSIGN_OR_RETURN(ExprNodePtr to, CallOpReference(cmp2, {a, b}));
+    ASSIGN_OR_RETURN(
+        optimizations.emplace_back(),
+        CreatePatternBasedOptimization(from, to,
+                                       {{"a", std::not_fn(IsFloatingPoint)},
+                                        {"b", std::not_fn(IsFloatingPoint)}}));
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 445884ee0c292282d19be7cbb7bd007d4ec14b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 16/26] fix: do not turn bool.less of UNIT or UINT64 into
 core.less, which does not support it

---
 .../peephole_optimizations/bool.cc            | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/arolla/expr/optimization/peephole_optimizations/bool.cc b/arolla/expr/optimization/peephole_optimizations/bool.cc
index 82584b3..c5a6b36 100644
--- a/arolla/expr/optimization/peephole_optimizations/bool.cc
+++ b/arolla/expr/optimization/peephole_optimizations/bool.cc
@@ -15,11 +15,13 @@
 #include "arolla/expr/optimization/peephole_optimizations/bool.h"
 
 #include <array>
+#include <cstdint>
 #include <functional>
 #include <string>
 #include <utility>
 #include <vector>
 
+#include "absl/container/flat_hash_map.h"
 #include "absl/container/flat_hash_set.h"
 #include "absl/status/status.h"
 #include "arolla/util/status_macros_backport.h"
@@ -36,6 +38,7 @@
 #include "arolla/qtype/qtype_traits.h"
 #include "arolla/qtype/standard_type_properties/properties.h"
 #include "arolla/util/fingerprint.h"
+#include "arolla/util/unit.h"
 
 namespace arolla::expr {
 
@@ -62,6 +65,14 @@ bool IsFloatingPoint(const ExprNode& node) {
   return IsFloatingPointScalarQType(GetScalarQTypeOrNull(node.qtype()));
 }
 
+// Returns true if the node is known to have a type that is supported by
+// bool.less and bool.less_equal, but not by core.less and core.less_equal.
+bool IsUnitOrUInt64(const ExprNode& node) {
+  const auto* scalar_qtype = GetScalarQTypeOrNull(node.qtype());
+  return scalar_qtype != nullptr && (scalar_qtype == GetQType<Unit>() ||
+                                     scalar_qtype == GetQType<uint64_t>());
+}
+
 constexpr std::array kEqualityOppositeOps = {
     std::pair{"bool.equal", "bool.not_equal"},
     std::pair{"bool.not_equal", "bool.equal"}};
@@ -149,6 +160,11 @@ absl::Status CoreBoolComparisonOptimizations(
             from, to, {{"true", is_true}, {"a", std::not_fn(is_true)}}));
   }
   for (absl::string_view comparison_op : kComparisonOps) {
+    absl::flat_hash_map<std::string, PeepholeOptimization::NodeMatcher>
+        matchers = {{"true", is_true}};
+    if (comparison_op == "less" || comparison_op == "less_equal") {
+      matchers["a"] = std::not_fn(IsUnitOrUInt64);
+    }
     ASSIGN_OR_RETURN(
         ExprNodePtr bool_cmp,
         CallOpReference(absl::StrCat("bool.", comparison_op), {a, b}));
@@ -160,7 +176,7 @@ absl::Status CoreBoolComparisonOptimizations(
                        CallOpReference("core.equal", {bool_cmp, true_}));
       ASSIGN_OR_RETURN(
           optimizations.emplace_back(),
-          CreatePatternBasedOptimization(from, core_cmp, {{"true", is_true}}));
+          CreatePatternBasedOptimization(from, core_cmp, matchers));
     }
     {
       ASSIGN_OR_RETURN(
@@ -171,7 +187,7 @@ absl::Status CoreBoolComparisonOptimizations(
                true_}));
       ASSIGN_OR_RETURN(
           optimizations.emplace_back(),
-          CreatePatternBasedOptimization(from, core_cmp, {{"true", is_true}}));
+          CreatePatternBasedOptimization(from, core_cmp, matchers));
     }
   }
 
-- 
2.43.0


From 29b3784349ebb847830d67e654a21337acb7a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 17/26] fix: presence optimizations keep the type of a
 WEAK_FLOAT combined with FLOAT32/64

---
 .../peephole_optimizations/presence.cc        | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/arolla/expr/optimization/peephole_optimizations/presence.cc b/arolla/expr/optimization/peephole_optimizations/presence.cc
index f9c033b..f6896c5 100644
--- a/arolla/expr/optimization/peephole_optimizations/presence.cc
+++ b/arolla/expr/optimization/peephole_optimizations/presence.cc
@@ -30,6 +30,7 @@
 #include "arolla/qtype/optional_qtype.h"
 #include "arolla/qtype/qtype.h"
 #include "arolla/qtype/standard_type_properties/properties.h"
+#include "arolla/qtype/weak_qtype.h"
 
 namespace arolla::expr {
 
@@ -78,6 +79,17 @@ bool IsOptionalLikeNode(const ExprNode& node) {
   return qtype != nullptr && IsOptionalLikeQType(qtype);
 }
 
+bool IsWeakFloatType(const ExprNode& node) {
+  return DecayOptionalQType(node.qtype()) == GetWeakFloatQType();
+}
+
+// NOTE: A backend operator with a WEAK_FLOAT and a FLOAT64 argument returns
+// FLOAT64, so a WEAK_FLOAT argument cannot replace the result, unless the others
+// are also WEAK_FLOAT.
+bool IsAlwaysPresentNonWeakType(const ExprNode& node) {
+  return IsAlwaysPresentType(node) && !IsWeakFloatType(node);
+}
+
 bool IsBaseQType(const ExprNode& node) {
   return IsScalarQType(DecayOptionalQType(node.qtype()));
 }
@@ -176,9 +188,13 @@ absl::Status PresenceOrRemovalOptimizations(
   ExprNodePtr b = Placeholder("b");
   ASSIGN_OR_RETURN(ExprNodePtr from,
                    CallOpReference("core.presence_or", {a, b}));
+  ASSIGN_OR_RETURN(optimizations.emplace_back(),
+                   CreatePatternBasedOptimization(
+                       from, a, {{"a", IsAlwaysPresentNonWeakType}}));
   ASSIGN_OR_RETURN(
       optimizations.emplace_back(),
-      CreatePatternBasedOptimization(from, a, {{"a", IsAlwaysPresentType}}));
+      CreatePatternBasedOptimization(
+          from, a, {{"a", IsAlwaysPresentType}, {"b", IsWeakFloatType}}));
   return absl::OkStatus();
 }
 
@@ -389,8 +405,17 @@ absl::Status WhereOptimizations(PeepholeOptimizationPack& optimizations) {
         optimizations.emplace_back(),
         CreatePatternBasedOptimization(from, a,
                                        {{"c", IsAlwaysPresent},
-                                        {"a", IsAlwaysPresentType},
+                                        {"a", IsAlwaysPresentNonWeakType},
                                         {"b", IsAlwaysPresentType}}));
+    ASSIGN_OR_RETURN(
+        optimizations.emplace_back(),
+        CreatePatternBasedOptimization(
+            from, a,
+            {{"c", IsAlwaysPresent},
+             {"a", IsAlwaysPresentType},
+             {"b", [](const ExprNode& expr) {
+                return IsAlwaysPresentType(expr) && IsWeakFloatType(expr);
+              }}}));
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From 590496f376df29f88f3b4664551dd3370e20640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 18/26] fix: leave core.where of FLOAT64 and WEAK_FLOAT
 branches to the plain operator

---
 .../short_circuit_where.cc                    | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/arolla/expr/optimization/peephole_optimizations/short_circuit_where.cc b/arolla/expr/optimization/peephole_optimizations/short_circuit_where.cc
index 3e472a2..c46b910 100644
--- a/arolla/expr/optimization/peephole_optimizations/short_circuit_where.cc
+++ b/arolla/expr/optimization/peephole_optimizations/short_circuit_where.cc
@@ -28,6 +28,10 @@
 #include "arolla/expr/optimization/pattern_based_optimization.h"
 #include "arolla/expr/optimization/peephole_optimizer.h"
 #include "arolla/memory/optional_value.h"
+#include "arolla/qtype/optional_qtype.h"
+#include "arolla/qtype/qtype.h"
+#include "arolla/qtype/qtype_traits.h"
+#include "arolla/qtype/weak_qtype.h"
 
 namespace arolla::expr {
 namespace {
@@ -41,6 +45,28 @@ PeepholeOptimization::NodeMatcher TypeMatches(
   };
 }
 
+// Adds a `from` -> `to` optimization for the cases supported by
+// core._short_circuit_where.
+//
+// NOTE: core._short_circuit_where requires the branches to have exactly the same
+// type, but no casting operator is inserted for a WEAK_FLOAT branch when the
+// other one is FLOAT64. So we leave such combination to core.where.
+absl::Status AddOptimizations(const ExprNodePtr& from, const ExprNodePtr& to,
+                              PeepholeOptimizationPack& optimizations) {
+  for (QTypePtr excluded_qtype : {GetWeakFloatQType(), GetQType<double>()}) {
+    auto is_not_excluded = [excluded_qtype](const ExprNode& node) {
+      return DecayOptionalQType(node.qtype()) != excluded_qtype;
+    };
+    ASSIGN_OR_RETURN(
+        optimizations.emplace_back(),
+        CreatePatternBasedOptimization(from, to,
+                                       {{"cond", TypeMatches(Is<OptionalUnit>)},
+                                        {"x", is_not_excluded},
+                                        {"y", is_not_excluded}}));
+  }
+  return absl::OkStatus();
+}
+
 absl::Status AddCoreWhereOptimizations(
     PeepholeOptimizationPack& optimizations) {
   ExprNodePtr cond = Placeholder("cond");
@@ -53,9 +79,7 @@ absl::Status AddCoreWhereOptimizations(
     ASSIGN_OR_RETURN(
         ExprNodePtr to,
         CallOpReference("core._short_circuit_where", {cond, x, y}));
-    ASSIGN_OR_RETURN(optimizations.emplace_back(),
-                     CreatePatternBasedOptimization(
-                         from, to, {{"cond", TypeMatches(Is<OptionalUnit>)}}));
+    RETURN_IF_ERROR(AddOptimizations(from, to, optimizations));
   }
   {
     ExprNodePtr shape = Placeholder("shape");
@@ -68,9 +92,7 @@ absl::Status AddCoreWhereOptimizations(
     ASSIGN_OR_RETURN(
         ExprNodePtr to,
         CallOpReference("core._short_circuit_where", {cond, x, y}));
-    ASSIGN_OR_RETURN(optimizations.emplace_back(),
-                     CreatePatternBasedOptimization(
-                         from, to, {{"cond", TypeMatches(Is<OptionalUnit>)}}));
+    RETURN_IF_ERROR(AddOptimizations(from, to, optimizations));
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From def75caeb9b717e70c2c28f3f21d13922607b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:22 +0000
Subject: [PATCH 19/26] fix: make GetDictQType(K, OPTIONAL_V) the type
 Dict<K,V>

It was a distinct type with the value type V, which serialization turned
into Dict<K,V>.
---
 arolla/qtype/dict/dict_types.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arolla/qtype/dict/dict_types.cc b/arolla/qtype/dict/dict_types.cc
index b6bf492..0f89d6f 100644
--- a/arolla/qtype/dict/dict_types.cc
+++ b/arolla/qtype/dict/dict_types.cc
@@ -108,6 +108,10 @@ class DictQTypeRegistry {
     ASSIGN_OR_RETURN(QTypePtr dict_type, GetKeyToRowDictQType(key_type));
     ASSIGN_OR_RETURN(QTypePtr values_array_type,
                      GetDenseArrayQTypeByValueQType(value_type));
+    if (values_array_type->value_qtype() != value_type) {
+      // An optional value type denotes the same dict as its base type.
+      return GetQType(key_type, values_array_type->value_qtype());
+    }
     auto kv_dict_type = std::make_unique<DictQType>(
         absl::StrFormat("Dict<%s,%s>", key_type->name(), value_type->name()),
         dict_type, values_array_type);
-- 
2.43.0


From 928aaeeabc2e41bb0fc587bb143687fbe01bb41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 20/26] fix: size the bitmap in DenseArrayPresenceAndOp for bit
 offsets

---
 arolla/qexpr/operators/dense_array/logic_ops.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arolla/qexpr/operators/dense_array/logic_ops.h b/arolla/qexpr/operators/dense_array/logic_ops.h
index db7767f..1f230ce 100644
--- a/arolla/qexpr/operators/dense_array/logic_ops.h
+++ b/arolla/qexpr/operators/dense_array/logic_ops.h
@@ -15,6 +15,7 @@
 #ifndef AROLLA_QEXPR_OPERATORS_DENSE_ARRAY_LOGIC_OPS_H_
 #define AROLLA_QEXPR_OPERATORS_DENSE_ARRAY_LOGIC_OPS_H_
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <utility>
@@ -58,7 +59,8 @@ struct DenseArrayPresenceAndOp {
     } else if (lhs.bitmap.empty()) {
       return DenseArray<T>{lhs.values, rhs.bitmap, rhs.bitmap_bit_offset};
     } else {
-      int64_t bitmap_size = bitmap::BitmapSize(lhs.size());
+      // Note: the bitmaps also cover the bits before bitmap_bit_offset.
+      int64_t bitmap_size = std::min(lhs.bitmap.size(), rhs.bitmap.size());
       bitmap::RawBuilder bldr(bitmap_size, &ctx->buffer_factory());
       bitmap::Intersect(lhs.bitmap, rhs.bitmap, lhs.bitmap_bit_offset,
                         rhs.bitmap_bit_offset, bldr.GetMutableSpan());
-- 
2.43.0


From e8320d4886d252e11a5069fe3eb2a065f2cd215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 21/26] fix: searchsorted over an Array with a bitmap offset

---
 arolla/qexpr/operators/math/binary_search.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arolla/qexpr/operators/math/binary_search.h b/arolla/qexpr/operators/math/binary_search.h
index 0a6ace0..971396a 100644
--- a/arolla/qexpr/operators/math/binary_search.h
+++ b/arolla/qexpr/operators/math/binary_search.h
@@ -91,7 +91,9 @@ struct SearchSortedOp {
                                             const Array<T>& needle,
                                             OptionalValue<bool> right) const {
     RETURN_IF_ERROR(VerifyHaystack(haystack));
-    auto op = CreateArrayOp<DenseOpFlags::kNoBitmapOffset>(
+    // Note: unlike DenseArray, Array can have a bitmap offset (see
+    // Array::Slice), so kNoBitmapOffset can't be used here.
+    auto op = CreateArrayOp(
         [&](view_type_t<T> needle) -> int64_t {
           return SearchFull(haystack, needle, right);
         },
-- 
2.43.0


From 9b62bafb2735a261c63207031be243c45ac4ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 22/26] fix: array.concat places the second sparse array after
 the first

---
 arolla/qexpr/operators/array/array_ops.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arolla/qexpr/operators/array/array_ops.h b/arolla/qexpr/operators/array/array_ops.h
index 2b0c96b..6f36bf8 100644
--- a/arolla/qexpr/operators/array/array_ops.h
+++ b/arolla/qexpr/operators/array/array_ops.h
@@ -203,17 +203,17 @@ struct ArrayConcatOp {
           auto insert_one = [&](int64_t id, bool present,
                                 view_type_t<T> value) {
             if (present || best_missing_id_value.present) {
-              ids_inserter.Add(id);
+              ids_inserter.Add(start_id + id);
               if (present) {
                 values_bldr.Set(offset, value);
               }
               offset++;
             }
           };
-          auto insert_many = [&](int64_t start_id, int64_t count, bool present,
+          auto insert_many = [&](int64_t first_id, int64_t count, bool present,
                                  view_type_t<T> value) {
             for (int64_t i = 0; i < count; ++i) {
-              ids_inserter.Add(start_id + i);
+              ids_inserter.Add(start_id + first_id + i);
               if (present) {
                 values_bldr.Set(offset + i, value);
               }
-- 
2.43.0


From 16eae15d85ca6efe9a292119741462c27e12139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 23/26] fix: reject each negative size in
 edge.resize_groups_child_side

Only the sum of the new sizes was checked, so sizes like [5, -4] passed and
made the operator write outside of the array it builds.
---
 arolla/qexpr/operators/array/edge_ops.h       | 5 +++++
 arolla/qexpr/operators/dense_array/edge_ops.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index 020b9c2..2011f9c 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -661,6 +661,11 @@ struct ArrayEdgeResizeGroupsChildSide {
     const auto& new_sizes_buffer = new_sizes.dense_data().values;
     int64_t total_size = 0;
     for (int64_t i = 0; i < new_sizes_buffer.size(); ++i) {
+      if (new_sizes_buffer[i] < 0) {
+        return absl::InvalidArgumentError(
+            "got a negative size value in operator "
+            "edge.resize_groups_child_side");
+      }
       total_size += new_sizes_buffer[i];
     }
 
diff --git a/arolla/qexpr/operators/dense_array/edge_ops.h b/arolla/qexpr/operators/dense_array/edge_ops.h
index ee03da3..ef92941 100644
--- a/arolla/qexpr/operators/dense_array/edge_ops.h
+++ b/arolla/qexpr/operators/dense_array/edge_ops.h
@@ -485,6 +485,11 @@ struct DenseArrayEdgeResizeGroupsChildSide {
     const auto& new_sizes_buffer = new_sizes.values;
     int64_t total_size = 0;
     for (int64_t i = 0; i < new_sizes_buffer.size(); ++i) {
+      if (new_sizes_buffer[i] < 0) {
+        return absl::InvalidArgumentError(
+            "got a negative size value in operator "
+            "edge.resize_groups_child_side");
+      }
       total_size += new_sizes_buffer[i];
     }
 
-- 
2.43.0


From 8a24ffdf9e8db2da837214448365520c9faf6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 24/26] fix: register ARRAY_WEAK_FLOAT and
 DENSE_ARRAY_WEAK_FLOAT at start

The array types of weak floats were registered by the first call of
GetArrayWeakFloatQType(), so that operators on types (qtype.with_value_qtype,
qtype.broadcast_qtype_like) gave NOTHING or a type depending on what had run
before.
---
 arolla/array/qtype/types.cc       | 7 +++++++
 arolla/dense_array/qtype/types.cc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/arolla/array/qtype/types.cc b/arolla/array/qtype/types.cc
index 1849524..af87f68 100644
--- a/arolla/array/qtype/types.cc
+++ b/arolla/array/qtype/types.cc
@@ -31,6 +31,7 @@
 #include "arolla/qtype/qtype_traits.h"
 #include "arolla/qtype/shape_qtype.h"
 #include "arolla/qtype/weak_qtype.h"
+#include "arolla/util/init_arolla.h"
 #include "arolla/util/meta.h"
 #include "arolla/util/repr.h"
 #include "arolla/util/unit.h"
@@ -170,6 +171,12 @@ QTypePtr GetArrayWeakFloatQType() {
   return result.get();
 }
 
+AROLLA_INITIALIZER(
+        .reverse_deps = {arolla::initializer_dep::kQTypes}, .init_fn = [] {
+          // Trigger the ARRAY_WEAK_FLOAT registration.
+          GetArrayWeakFloatQType();
+        });
+
 ReprToken ReprTraits<ArrayEdge>::operator()(const ArrayEdge& value) const {
   ReprToken result;
   if (value.edge_type() == ArrayEdge::SPLIT_POINTS) {
diff --git a/arolla/dense_array/qtype/types.cc b/arolla/dense_array/qtype/types.cc
index b6ac85b..6bbf9ff 100644
--- a/arolla/dense_array/qtype/types.cc
+++ b/arolla/dense_array/qtype/types.cc
@@ -31,6 +31,7 @@
 #include "arolla/qtype/qtype_traits.h"
 #include "arolla/qtype/shape_qtype.h"
 #include "arolla/qtype/weak_qtype.h"
+#include "arolla/util/init_arolla.h"
 #include "arolla/util/meta.h"
 #include "arolla/util/repr.h"
 #include "arolla/util/unit.h"
@@ -176,6 +177,12 @@ QTypePtr GetDenseArrayWeakFloatQType() {
   return result.get();
 }
 
+AROLLA_INITIALIZER(
+        .reverse_deps = {arolla::initializer_dep::kQTypes}, .init_fn = [] {
+          // Trigger the DENSE_ARRAY_WEAK_FLOAT registration.
+          GetDenseArrayWeakFloatQType();
+        });
+
 ReprToken ReprTraits<DenseArrayEdge>::operator()(
     const DenseArrayEdge& value) const {
   ReprToken result;
-- 
2.43.0


From 6ae8655452e65537b9e0f286a62be633f5d1d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 25/26] fix: array.randint_with_shape checks bounds against the
 shape

With arrays of bounds of another size than the shape, the result was of the
size of the bounds.
---
 arolla/qexpr/operators/array/random.h       | 5 +++++
 arolla/qexpr/operators/dense_array/random.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/arolla/qexpr/operators/array/random.h b/arolla/qexpr/operators/array/random.h
index 95d398e..752ff05 100644
--- a/arolla/qexpr/operators/array/random.h
+++ b/arolla/qexpr/operators/array/random.h
@@ -29,6 +29,7 @@
 #include "arolla/dense_array/dense_array.h"
 #include "arolla/memory/buffer.h"
 #include "arolla/memory/optional_value.h"
+#include "arolla/util/status.h"
 
 namespace arolla {
 
@@ -77,6 +78,10 @@ class RandIntWithArrayShape {
           absl::StrFormat("size=%d is negative", size));
     }
 
+    if (low.size() != size || high.size() != size) {
+      return SizeMismatchError({size, low.size(), high.size()});
+    }
+
     std::seed_seq seed_seq({int64_t{4242}, shape.size, seed});
     std::mt19937_64 generator(seed_seq);
 
diff --git a/arolla/qexpr/operators/dense_array/random.h b/arolla/qexpr/operators/dense_array/random.h
index dbf8da1..44178c2 100644
--- a/arolla/qexpr/operators/dense_array/random.h
+++ b/arolla/qexpr/operators/dense_array/random.h
@@ -28,6 +28,7 @@
 #include "arolla/dense_array/qtype/types.h"
 #include "arolla/memory/buffer.h"
 #include "arolla/memory/optional_value.h"
+#include "arolla/util/status.h"
 
 namespace arolla {
 
@@ -72,6 +73,10 @@ class RandIntWithDenseArrayShape {
           absl::StrFormat("size=%d is negative", size));
     }
 
+    if (low.size() != size || high.size() != size) {
+      return SizeMismatchError({size, low.size(), high.size()});
+    }
+
     std::seed_seq seed_seq({int64_t{4242}, shape.size, seed});
     std::mt19937_64 generator(seed_seq);
 
-- 
2.43.0


From 80a8bb9ece6113980e8d363b61eebdd4f4475a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 26/26] fix: array.randint_with_shape checks a range before
 making its distribution

std::uniform_int_distribution must not be made of an empty range, and high - 1
overflows for the lowest int64.
---
 arolla/qexpr/operators/array/random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/qexpr/operators/array/random.h b/arolla/qexpr/operators/array/random.h
index 752ff05..2330db3 100644
--- a/arolla/qexpr/operators/array/random.h
+++ b/arolla/qexpr/operators/array/random.h
@@ -88,11 +88,11 @@ class RandIntWithArrayShape {
     auto op =
         CreateArrayOp([&generator](int64_t low,
                                     int64_t high) -> absl::StatusOr<int64_t> {
-          std::uniform_int_distribution<int64_t> dist(low, high - 1);
           if (low >= high) {
             return absl::InvalidArgumentError(
                 absl::StrFormat("low=%d must be less than high=%d", low, high));
           }
+          std::uniform_int_distribution<int64_t> dist(low, high - 1);
           return dist(generator);
         });
     return op(low, high);
-- 
2.43.0

