From c5d4908f4153e6600699c98cfcdd4a8aa170c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 01/67] fix: look up dimension label again under the write lock

Two threads creating the same new label could both find it missing and then
both insert it, with different ids. The ids were then also reused for the next
new label, so that two different labels compared equal.
---
 lib/units/dim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 83563a2..08a1db5 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -58,6 +58,11 @@ Dim::Dim(const std::string &label) {
   }
   read_lock.unlock();
   const std::unique_lock write_lock(mutex);
+  // Another thread may have added the label since the read lock was released.
+  if (const auto it = custom_ids().find(label); it != custom_ids().end()) {
+    m_id = it->second;
+    return;
+  }
   const auto id = scipp::size(custom_ids()) + 1000;
   if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())
     throw std::runtime_error(
-- 
2.43.0


From 57f556d88ba416302b0a6c580b15c71bf53e9979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 02/67] fix: give names to all built-in dimension labels

The labels InternalBinCoarse, InternalBinFine, and InternalSubbin all reported
the name 'unreachable', which is also the name of a possible custom label.
---
 lib/units/dim.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 08a1db5..387cb75 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -24,6 +24,9 @@ const auto &builtin_ids() {
       {"<internal_histogram>", Dim::InternalHistogram},
       {"<internal_sort>", Dim::InternalSort},
       {"<internal_accumulate>", Dim::InternalAccumulate},
+      {"<internal_bin_coarse>", Dim::InternalBinCoarse},
+      {"<internal_bin_fine>", Dim::InternalBinFine},
+      {"<internal_subbin>", Dim::InternalSubbin},
       {"energy", Dim::Energy},
       {"event", Dim::Event},
       {"group", Dim::Group},
-- 
2.43.0


From 466c383f457a6eb467ca38862ce8f3bcb956a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 03/67] fix: keep unset element buffers unset when assigning

---
 lib/core/include/scipp/core/element_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element_array.h b/lib/core/include/scipp/core/element_array.h
index 7b16df9..c409828 100644
--- a/lib/core/include/scipp/core/element_array.h
+++ b/lib/core/include/scipp/core/element_array.h
@@ -104,7 +104,7 @@ public:
   }
 
   element_array &operator=(const element_array &other) {
-    return *this = element_array(other.begin(), other.end());
+    return *this = from_other(other);
   }
 
   explicit operator bool() const noexcept { return m_size != -1; }
-- 
2.43.0


From 480ca445bd4ced0b9ca48644208d72c447c6899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 04/67] fix: reject views with more dimensions than supported
 instead of writing out of bounds

---
 lib/core/view_index.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/core/view_index.cpp b/lib/core/view_index.cpp
index 57493cf..183bf93 100644
--- a/lib/core/view_index.cpp
+++ b/lib/core/view_index.cpp
@@ -19,6 +19,10 @@ ViewIndex::ViewIndex(const Dimensions &target_dimensions,
     const auto size = target_dimensions.size(dim_read);
     rewind = size * stride;
     if (delta != 0 || stride == 0) {
+      if (dim_write >= NDIM_OP_MAX)
+        throw std::runtime_error("Operations with more than " +
+                                 std::to_string(NDIM_OP_MAX) +
+                                 " dimensions are not supported.");
       m_shape[dim_write] = size;
       m_delta[dim_write] = delta;
       m_strides[dim_write] = stride;
-- 
2.43.0


From e8ac30769c33bbd7fd8871b5caa3b374e0c23b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 05/67] fix: do not flatten a broadcast dimension into the
 innermost one

---
 lib/core/multi_index.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index a6b37c1..73259ce 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -106,9 +106,11 @@ flatten_dims(const scipp::span<std::array<scipp::index, sizeof...(StridesArgs)>>
                                "dimensions count");
     const auto size = dims.size(dim_read);
     if (dim_read > non_flattenable_dim &&
-        dim_write > 0 && // need to write at least one inner dim
+        // Call this also for the innermost dim, to init strides_for_contiguous.
         can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
-                         strides_for_contiguous, strides...)) {
+                         strides_for_contiguous, strides...) &&
+        dim_write > 0 // need to write at least one inner dim
+    ) {
       out_shape[dim_write - 1] *= size;
     } else {
       out_shape[dim_write] = size;
-- 
2.43.0


From 22f835a4cc7fcf1960b0e3c293d9c9d0c4dbfb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 06/67] fix: iterate no elements of bins if another buffer
 dimension is empty

---
 lib/core/multi_index.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index 73259ce..b5ebe2a 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -137,7 +137,9 @@ template <scipp::index N>
 template <class... Params>
 MultiIndex<N>::MultiIndex(binned_tag, const Dimensions &inner_dims,
                           const Dimensions &bin_dims, const Params &...params)
-    : m_bin{BinIterator(params.bucketParams(), bin_dims.volume())...} {
+    // Bins are also empty if any other dim of the buffer has size 0.
+    : m_bin{BinIterator(params.bucketParams(),
+                        inner_dims.volume() == 0 ? 0 : bin_dims.volume())...} {
   validate_bin_indices(params...);
 
   const Dim slice_dim = get_slice_dim(params.bucketParams()...);
-- 
2.43.0


From f047c78ffb8795424de411e1e2c212b27017179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 07/67] fix: do not take sequences that go back and forth for
 regular ones

---
 lib/common/include/scipp/common/numeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index eb51afb..f178bb2 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -34,7 +34,7 @@ template <class Range> bool islinspace(const Range &range) {
     const auto delta = range[1] - range[0];
     return std::adjacent_find(range.begin(), range.end(),
                               [delta](const auto &a, const auto &b) {
-                                return std::abs(b - a) != delta;
+                                return b - a != delta;
                               }) == range.end();
   }
 }
@@ -47,7 +47,7 @@ template <class Range> bool isarange(const Range &range) {
     return false;
   return std::adjacent_find(range.begin(), range.end(),
                             [](const auto &a, const auto &b) {
-                              return std::abs(b - a) != 1;
+                              return b - a != 1;
                             }) == range.end();
 }
 
-- 
2.43.0


From f81e8358f1a9f8f4583df820dda261aa5608dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 08/67] fix: floor-divide integers exactly

---
 lib/common/include/scipp/common/numeric.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index f178bb2..63f6ee0 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -63,9 +63,21 @@ template <class T, class U> auto true_divide(const T &a, const U &b) {
 template <class T, class U>
 std::common_type_t<T, U> floor_divide(const T &a, const U &b) {
   using std::floor;
-  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>)
-    return b == 0 ? 0 : floor(static_cast<double>(a) / static_cast<double>(b));
-  else
+  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
+    using C = std::common_type_t<T, U>;
+    if (b == 0)
+      return 0;
+    if constexpr (std::is_signed_v<C>) {
+      if (b == -1) // wraps instead of overflowing for the lowest integer
+        return static_cast<C>(C{0} - static_cast<std::make_unsigned_t<C>>(a));
+      const C x = a;
+      const C y = b;
+      const bool round_down = (x % y != 0) && ((x < 0) != (y < 0));
+      return x / y - (round_down ? 1 : 0);
+    } else {
+      return a / b;
+    }
+  } else
     return floor(a / b);
 }
 
-- 
2.43.0


From 2019918d6120b2ca907abfc43c397b7ee7ea5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 09/67] fix: compose an affine transform with a linear one
 instead of applying it to the columns

Eigen's operator for an affine transform and a 3x3 matrix applies the transform to each column of the matrix, i.e., the result
was a linear transform with the translation added to its entries.
---
 lib/core/include/scipp/core/spatial_transforms.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/core/include/scipp/core/spatial_transforms.h b/lib/core/include/scipp/core/spatial_transforms.h
index 40dfdf0..b18f3e3 100644
--- a/lib/core/include/scipp/core/spatial_transforms.h
+++ b/lib/core/include/scipp/core/spatial_transforms.h
@@ -127,6 +127,12 @@ operator*(const T_LHS &lhs, const T_RHS &rhs) {
   return Eigen::Affine3d(asEigenType(lhs) * asEigenType(rhs));
 }
 
+// Eigen would apply lhs to each of the columns of rhs instead of composing.
+[[nodiscard]] inline Eigen::Affine3d operator*(const Eigen::Affine3d &lhs,
+                                               const Eigen::Matrix3d &rhs) {
+  return lhs * Eigen::Affine3d(rhs);
+}
+
 [[nodiscard]] inline Eigen::Vector3d operator*(const Quaternion &lhs,
                                                const Eigen::Vector3d &rhs) {
   return asEigenType(lhs) * rhs;
-- 
2.43.0


From 443c0060257d4381ae8602515f8a19d8af48693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 10/67] fix: value of a power with variances for zero and
 infinite bases

---
 lib/core/include/scipp/core/value_and_variance.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/core/include/scipp/core/value_and_variance.h b/lib/core/include/scipp/core/value_and_variance.h
index 77d8fd8..76010b7 100644
--- a/lib/core/include/scipp/core/value_and_variance.h
+++ b/lib/core/include/scipp/core/value_and_variance.h
@@ -71,9 +71,11 @@ template <class B, class E>
 constexpr auto pow(const ValueAndVariance<B> base, const E exponent) noexcept {
   const auto pow_1 = numeric::pow(base.value, exponent - 1);
   const auto var_factor = std::abs(exponent) * pow_1;
-  const auto pow_0 = (base.value == 0 && exponent == 0  ? 1
-                      : base.value == 0 && exponent > 0 ? 0
-                                                        : pow_1 * base.value);
+  // The product does not give the power if one of the factors is infinite.
+  const auto pow_0 =
+      base.value == 0 || (exponent != 0 && numeric::isinf(base.value))
+          ? numeric::pow(base.value, exponent)
+          : pow_1 * base.value;
   return ValueAndVariance{pow_0, var_factor * var_factor * base.variance};
 }
 
-- 
2.43.0


From a85ebc0f5d488709d7d5c5be75c71ac34f916c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 11/67] fix: multiply and divide data with variances and
 without unit by itself

---
 lib/variable/arithmetic.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/variable/arithmetic.cpp b/lib/variable/arithmetic.cpp
index d42dee8..fc69935 100644
--- a/lib/variable/arithmetic.cpp
+++ b/lib/variable/arithmetic.cpp
@@ -27,6 +27,12 @@ auto make_factor(const Variable &prototype, const double value) {
                 variableFactory().elem_dtype(prototype));
 }
 
+/// Exponents have no unit, even if the base has unit none.
+auto make_exponent(const Variable &prototype, const double value) {
+  return astype(makeVariable<double>(Values{value}, units::one),
+                variableFactory().elem_dtype(prototype));
+}
+
 /// True if a and b are correlated, currently only if referencing same.
 bool correlated(const Variable &a, const Variable &b) {
   return variableFactory().has_variances(a) &&
@@ -55,7 +61,7 @@ Variable operator*(const Variable &a, const Variable &b) {
                      std::string_view("apply_spatial_transformation"));
   } else {
     if (correlated(a, b))
-      return pow(a, make_factor(a, 2.0));
+      return pow(a, make_exponent(a, 2.0));
     return transform(a, b, core::element::multiply,
                      std::string_view("multiply"));
   }
@@ -63,7 +69,7 @@ Variable operator*(const Variable &a, const Variable &b) {
 
 Variable operator/(const Variable &a, const Variable &b) {
   if (correlated(a, b))
-    return pow(a, make_factor(a, 0.0));
+    return pow(a, make_exponent(a, 0.0));
   return transform(a, b, core::element::divide, "divide");
 }
 
@@ -110,7 +116,7 @@ Variable operator-=(Variable &&a, const Variable &b) {
 
 Variable operator*=(Variable &&a, const Variable &b) {
   if (correlated(a, b))
-    return pow(a, make_factor(a, 2.0), a);
+    return pow(a, make_exponent(a, 2.0), a);
   transform_in_place(a, b, core::element::multiply_equals,
                      std::string_view("multiply_equals"));
   return std::move(a);
@@ -118,7 +124,7 @@ Variable operator*=(Variable &&a, const Variable &b) {
 
 Variable operator/=(Variable &&a, const Variable &b) {
   if (correlated(a, b))
-    return pow(a, make_factor(a, 0.0), a);
+    return pow(a, make_exponent(a, 0.0), a);
   transform_in_place(a, b, core::element::divide_equals,
                      std::string_view("divide_equals"));
   return std::move(a);
-- 
2.43.0


From d7791f8320d4e4fd096b093cce7e5c9975ff62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:20 +0000
Subject: [PATCH 12/67] fix: write powers of binned data into an output

---
 lib/variable/pow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 38ee422..79d9226 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -111,7 +111,8 @@ Variable pow(const Variable &base, const Variable &exponent) {
 Variable &pow(const Variable &base, const Variable &exponent, Variable &out) {
   const auto target_dims = merge(base.dims(), exponent.dims());
   core::expect::equals(target_dims, out.dims());
-  copy(astype(base, out.dtype(), CopyPolicy::TryAvoid), out);
+  copy(astype(base, variableFactory().elem_dtype(out), CopyPolicy::TryAvoid),
+       out);
   pow_handle_dtype(out, exponent, true);
   return out;
 }
-- 
2.43.0


From d6a309363f51e42fdc82af2894842d3e31ba4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:12 +0000
Subject: [PATCH 13/67] fix: reject powers of units that do not fit the
 exponent's type

---
 lib/units/unit.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/units/unit.cpp b/lib/units/unit.cpp
index 3b18cb6..5f624aa 100644
--- a/lib/units/unit.cpp
+++ b/lib/units/unit.cpp
@@ -3,6 +3,7 @@
 /// @file
 /// @author Simon Heybrock
 /// @author Neil Vaytet
+#include <limits>
 #include <regex>
 #include <stdexcept>
 
@@ -157,7 +158,9 @@ Unit sqrt(const Unit &a) {
 Unit pow(const Unit &a, const int64_t power) {
   if (a == none)
     return a;
-  if (llnl::units::pow_overflows(a.underlying(), static_cast<int>(power)))
+  if (power < std::numeric_limits<int>::min() ||
+      power > std::numeric_limits<int>::max() ||
+      llnl::units::pow_overflows(a.underlying(), static_cast<int>(power)))
     throw except::UnitError("Unsupported unit as result of pow: pow(" +
                             a.name() + ", " + std::to_string(power) + ").");
   return Unit{a.underlying().pow(static_cast<int>(power))};
-- 
2.43.0


From 255e0746891e03510d97531aaa678a7981c99201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 14/67] fix: exclusive cumulative sums with infinities and
 rounding

---
 lib/core/include/scipp/core/element/cumulative.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/cumulative.h b/lib/core/include/scipp/core/element/cumulative.h
index dbb3cfa..14c27a2 100644
--- a/lib/core/include/scipp/core/element/cumulative.h
+++ b/lib/core/include/scipp/core/element/cumulative.h
@@ -17,8 +17,10 @@ constexpr auto exclusive_scan = overloaded{
     arg_list<double, std::tuple<double, float>, int64_t, int32_t>,
     transform_flags::expect_no_variance_arg<0>,
     transform_flags::expect_no_variance_arg<1>, [](auto &sum, auto &x) {
+      // Not `sum - x`, which is inexact and NaN if `x` is infinite or NaN.
+      const auto preceding = sum;
       sum += x;
-      x = sum - x;
+      x = preceding;
     }};
 
 constexpr auto inclusive_scan = overloaded{
-- 
2.43.0


From 4da7870ebebfba91d69018d899e387aa077b4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 15/67] fix: reject keys of another length when sorting a
 dataset

---
 lib/dataset/sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/sort.cpp b/lib/dataset/sort.cpp
index 82b269f..934ff49 100644
--- a/lib/dataset/sort.cpp
+++ b/lib/dataset/sort.cpp
@@ -59,7 +59,7 @@ Variable indices_for_sorting(const Variable &key, const SortOrder order) {
       core::time_point>::apply<IndicesForSorting>(key.dtype(), key, order);
 }
 
-void require_same_shape(const Dimensions &var_dims, const Dimensions &key_dims,
+void require_same_shape(const Sizes &var_dims, const Sizes &key_dims,
                         const Dim dim) {
   if (var_dims[dim] != key_dims[dim])
     throw except::DimensionError(
@@ -91,6 +91,7 @@ DataArray sort(const DataArray &array, const Dim &key, const SortOrder order) {
 /// Return a Dataset sorted based on key.
 Dataset sort(const Dataset &dataset, const Variable &key,
              const SortOrder order) {
+  require_same_shape(dataset.sizes(), key.dims(), key.dim());
   return extract_ranges(indices_for_sorting(key, order), dataset, key.dim());
 }
 
-- 
2.43.0


From 6ff284ba728f30eb99675893ccb0d34217be6f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:40 +0000
Subject: [PATCH 16/67] fix: order NaN last when sorting values

---
 lib/core/include/scipp/core/element/sort.h | 26 +++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/core/include/scipp/core/element/sort.h b/lib/core/include/scipp/core/element/sort.h
index 51e72e3..b9f1148 100644
--- a/lib/core/include/scipp/core/element/sort.h
+++ b/lib/core/include/scipp/core/element/sort.h
@@ -4,9 +4,10 @@
 /// @author Thibault Chatel
 #pragma once
 
+#include <cmath>
+
 #include "scipp/common/overloaded.h"
 #include "scipp/core/element/arg_list.h"
-#include "scipp/core/element/comparison.h"
 #include "scipp/core/time_point.h"
 #include "scipp/core/transform_common.h"
 #include "scipp/core/value_and_variance.h"
@@ -43,7 +44,26 @@ template <class Compare> constexpr auto make_sort(Compare compare) {
 }
 } // namespace
 
-auto sort_nonascending = make_sort(greater);
-auto sort_nondescending = make_sort(less);
+namespace {
+/// Comparison with NaN ordered after all other values. `<` by itself is no
+/// strict weak ordering if there are NaNs.
+constexpr auto nan_sensitive_less = [](const auto &a, const auto &b) {
+  using T = std::decay_t<decltype(a)>;
+  if constexpr (is_ValueAndVariance_v<T>) {
+    if (std::isnan(b.value))
+      return !std::isnan(a.value);
+  } else if constexpr (std::is_floating_point_v<T>) {
+    if (std::isnan(b))
+      return !std::isnan(a);
+  }
+  return a < b;
+};
+constexpr auto nan_sensitive_greater = [](const auto &a, const auto &b) {
+  return nan_sensitive_less(b, a);
+};
+} // namespace
+
+auto sort_nonascending = make_sort(nan_sensitive_greater);
+auto sort_nondescending = make_sort(nan_sensitive_less);
 
 } // namespace scipp::core::element
-- 
2.43.0


From cc9c763999fc10f53a4f683c7b42800dd5b01095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 17/67] fix: rebinning along datetime edges truncated the
 overlap to whole bins

---
 lib/core/include/scipp/core/element/rebin.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/rebin.h b/lib/core/include/scipp/core/element/rebin.h
index d7f61bc..9a6d283 100644
--- a/lib/core/include/scipp/core/element/rebin.h
+++ b/lib/core/include/scipp/core/element/rebin.h
@@ -46,7 +46,13 @@ static constexpr auto rebin = overloaded{
           const auto delta =
               std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low, less));
           const auto owidth = std::abs(xo_high - xo_low);
-          const auto scale = delta / owidth;
+          // Floating-point division also if the differences are integers, i.e.,
+          // for datetime edges.
+          using Scale = std::conditional_t<std::is_integral_v<
+                                               std::decay_t<decltype(owidth)>>,
+                                           double,
+                                           std::decay_t<decltype(owidth)>>;
+          const auto scale = static_cast<Scale>(delta) / owidth;
           if constexpr (is_ValueAndVariance_v<
                             std::decay_t<decltype(data_old)>>) {
             data_new.value[inew] += data_old.value[iold] * scale;
-- 
2.43.0


From 502e63c448c363fb0a0a588b293783de3b460eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 18/67] fix: reject bin edges of another unit also when
 rebinning non-contiguous data

---
 lib/variable/rebin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index 794efb8..55ff4fe 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -128,6 +128,9 @@ Variable rebin(const Variable &var, const Dim dim, const Variable &oldCoord,
                       allsorted(newCoord, dim, SortOrder::Descending)))
     throw except::BinEdgeError(
         "Rebin: The old or new bin edges are not sorted.");
+  if (oldCoord.unit() != newCoord.unit())
+    throw except::UnitError(
+        "Input and output bin edges must have the same unit.");
   const auto out_type = (is_int(var.dtype()) || var.dtype() == dtype<bool>)
                             ? dtype<double>
                             : var.dtype();
-- 
2.43.0


From 3bf7293cb5e990df2c329ef7e99e1a5d03d8307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 19/67] fix: scale variances like values when rebinning
 non-contiguous data

---
 lib/variable/rebin.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index 55ff4fe..e109210 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -17,6 +17,20 @@ using namespace scipp::core::element;
 
 namespace scipp::variable {
 
+namespace {
+/// Scale values and variances, as for a part of the counts.
+Variable scaled(const Variable &var, const double scale) {
+  const auto factor = scale * units::one;
+  if (!var.has_variances())
+    return var * factor;
+  auto out = values(var) * factor;
+  auto out_variances = variances(var) * factor;
+  out_variances.setUnit(out.unit());
+  out.setVariances(out_variances);
+  return out;
+}
+} // namespace
+
 template <typename T, class Less>
 void rebin_non_inner(const Dim dim, const Variable &oldT,
                      // cppcheck-suppress constParameter # bug in cppcheck
@@ -39,8 +53,7 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
     const auto delta = std::abs(std::min<double>(xn_high, xo_high, Less{}) -
                                 std::max<double>(xn_low, xo_low, Less{}));
     const auto owidth = std::abs(xo_high - xo_low);
-    slice += oldT.slice({dim, iold}) *
-             ((delta / owidth) * (slice.unit() / oldT.unit()));
+    slice += scaled(oldT.slice({dim, iold}), delta / owidth);
   };
   auto accumulate_bin = [&](auto &&slice, const auto xn_low,
                             const auto xn_high) {
-- 
2.43.0


From e361b2238ed4533228b0b345090dc94180ade7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:27 +0000
Subject: [PATCH 20/67] fix: do not truncate coordinates when grouping by
 labels of a smaller type

---
 lib/core/include/scipp/core/element/bin.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/bin.h b/lib/core/include/scipp/core/element/bin.h
index ac0bdc4..79faaf8 100644
--- a/lib/core/include/scipp/core/element/bin.h
+++ b/lib/core/include/scipp/core/element/bin.h
@@ -138,7 +138,9 @@ static constexpr auto update_indices_by_grouping = overloaded{
         return;
       const auto it = groups.find(x);
       index *= scipp::size(groups);
-      index = (it == groups.end()) ? -1 : (index + it->second);
+      // `x` may not fit the type of the groups.
+      index = (it == groups.end() || it->first != x) ? -1
+                                                     : (index + it->second);
     }};
 
 template <class Index, class Coord, class Edges = Coord>
-- 
2.43.0


From d49ef576d73c7e6e98536ec3fb16af6e67fc2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 21/67] fix: binning along binned dimensions with edges that
 are not contiguous

---
 lib/dataset/bin.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 384557f..3447dda 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -344,12 +344,13 @@ public:
             bin_coords.at(dim).dims().contains(dim) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
+          const auto con_key = as_contiguous(key, dim);
           const bool histogram =
               bin_coord.dims()[dim] ==
               (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
           auto begin =
-              begin_edge(histogram ? left_edge(bin_coord) : bin_coord, key);
-          auto end = histogram ? end_edge(right_edge(bin_coord), key)
+              begin_edge(histogram ? left_edge(bin_coord) : bin_coord, con_key);
+          auto end = histogram ? end_edge(right_edge(bin_coord), con_key)
                                : begin + 2 * units::none;
           // When we have bin edges (of length 2) for a dimension that is not
           // a dimension of the input it needs to be squeezed to avoid problems
@@ -364,7 +365,7 @@ public:
           m_offsets = begin * inner_volume;
           // Mask out any output bin edges that need not be considered since
           // there is no overlap between given input and output bin.
-          const auto masked_key = make_bins_no_validate(indices_, dim, key);
+          const auto masked_key = make_bins_no_validate(indices_, dim, con_key);
           update_indices_by_binning(indices, get_coord(dim), masked_key,
                                     linspace);
         } else {
-- 
2.43.0


From d4c7810d5883a806f7df473a5964b7c97f94ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 22/67] fix: binning along inner binned dimensions put events
 in wrong bins

---
 lib/dataset/bin.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 3447dda..7eec066 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -341,6 +341,8 @@ public:
         // depending on parameters of the input.
         if (key.ndim() == 1 && // index setup not implemented for this case
             bin_coords.count(dim) && m_offsets.dims().empty() &&
+            // the offset is relative to the outermost target dim
+            is_outermost(dim) &&
             bin_coords.at(dim).dims().contains(dim) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
@@ -439,6 +441,17 @@ public:
   void erase(const Dim dim) { m_dims.addInner(dim, 1); }
 
 private:
+  /// True if all target dims outside of `dim` have size 1.
+  [[nodiscard]] bool is_outermost(const Dim dim) const {
+    for (const auto &label : m_dims.labels()) {
+      if (label == dim)
+        return true;
+      if (m_dims[label] != 1)
+        return false;
+    }
+    return true;
+  }
+
   Dimensions m_dims;
   Variable m_offsets;
   Variable m_nbin;
-- 
2.43.0


From 0964e0105b63a6f6cce0057123c81f5d47e3a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 23/67] fix: keep rebinning of non-contiguous data without unit
 working

---
 lib/variable/rebin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index e109210..e0fc68e 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -20,7 +20,7 @@ namespace scipp::variable {
 namespace {
 /// Scale values and variances, as for a part of the counts.
 Variable scaled(const Variable &var, const double scale) {
-  const auto factor = scale * units::one;
+  const auto factor = scale * (var.unit() / var.unit());
   if (!var.has_variances())
     return var * factor;
   auto out = values(var) * factor;
-- 
2.43.0


From 21b04067ae8034d2c67a9513927b13cfcd4955b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 24/67] fix: bins of nearly linear edges could be off by more
 than one

---
 lib/core/include/scipp/core/histogram.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/core/include/scipp/core/histogram.h b/lib/core/include/scipp/core/histogram.h
index 16e7c34..3b1b411 100644
--- a/lib/core/include/scipp/core/histogram.h
+++ b/lib/core/include/scipp/core/histogram.h
@@ -40,13 +40,13 @@ Index get_bin(const T &x, const Edges &edges, const Params &params) {
   const auto [offset, nbin, scale] = params;
   Index bin = (x - offset) * scale;
   bin = std::clamp(bin, Index(0), Index(nbin - 1));
-  if (x < edges[bin]) {
-    return bin - 1;
-  } else if (x >= edges[bin + 1]) {
-    return bin + 1;
-  } else {
-    return bin;
-  }
+  // The edges are linear only up to rounding, so the bin may be off. If edges
+  // are spaced as closely as rounding errors this may be by more than one.
+  while (x < edges[bin])
+    --bin;
+  while (x >= edges[bin + 1])
+    ++bin;
+  return bin;
 }
 
 } // namespace scipp::core
-- 
2.43.0


From abc09499b850d2a13053943e9e16fca43b01d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:49 +0000
Subject: [PATCH 25/67] fix: keep the alignment flag when inserting a
 coordinate's own buffer

---
 lib/dataset/sized_dict.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index bc1e31a..2ec098f 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -219,7 +219,8 @@ void expect_valid_coord_dims(const Key &key, const Dimensions &coord_dims,
 
 template <class Key, class Value>
 void SizedDict<Key, Value>::set(const key_type &key, mapped_type coord) {
-  if (contains(key) && at(key).is_same(coord))
+  if (contains(key) && at(key).is_same(coord) &&
+      at(key).is_aligned() == coord.is_aligned())
     return;
   expect_writable(*this);
   using core::to_string;
-- 
2.43.0


From 59c5761440f41b55e683e507e696317e8f21e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:25 +0000
Subject: [PATCH 26/67] fix: allow attributes in copies made without attributes

---
 lib/dataset/data_array.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index 5403ed1..93fb5a3 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -25,8 +25,11 @@ DataArray::DataArray(const DataArray &other, const AttrPolicy attrPolicy)
     : m_name(other.m_name), m_data(copy_shared(other.m_data)),
       m_coords(copy_shared(other.m_coords)),
       m_masks(copy_shared(other.m_masks)),
-      m_attrs(attrPolicy == AttrPolicy::Keep ? copy_shared(other.m_attrs)
-                                             : std::make_shared<Attrs>()),
+      m_attrs(attrPolicy == AttrPolicy::Keep
+                  ? copy_shared(other.m_attrs)
+                  : std::make_shared<Attrs>(
+                        other.m_attrs ? other.m_attrs->sizes() : Sizes{},
+                        typename Attrs::holder_type{})),
       m_readonly(false) {}
 
 DataArray::DataArray(const DataArray &other)
-- 
2.43.0


From 2762555a2014818731095c75a8b7c45b824de968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:25 +0000
Subject: [PATCH 27/67] fix: reject coordinates of more dimensions than those
 of a dataset's items

---
 lib/dataset/dataset.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index bdc19b0..cf46fee 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -80,6 +80,9 @@ void Dataset::clear() {
 void Dataset::setCoords(Coords other) {
   expect_valid(*this);
   scipp::expect::includes(other.sizes(), m_coords.sizes());
+  // More dimensions than those of the items would be inconsistent.
+  if (!empty())
+    scipp::expect::includes(m_coords.sizes(), other.sizes());
   m_coords = std::move(other);
 }
 /// Return a const view to all coordinates of the dataset.
-- 
2.43.0


From e9d3bce65c5d3b9d15192959255a2c3cc3ba6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:25 +0000
Subject: [PATCH 28/67] fix: let aligned coordinates of an inserted item
 replace unaligned ones

---
 lib/dataset/dataset.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index cf46fee..dbde0b8 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -201,7 +201,9 @@ void Dataset::setData(const std::string &name, const DataArray &data) {
   setData(name, data.data());
   auto &item = m_data[name];
   for (auto &&[dim, coord] : data.coords())
-    if (m_coords.find(dim) == m_coords.end() &&
+    if (const auto it = m_coords.find(dim);
+        (it == m_coords.end() ||
+         (!it->second.is_aligned() && coord.is_aligned())) &&
         std::find(to_skip.begin(), to_skip.end(), dim) == to_skip.end())
       setCoord(dim, coord);
   // Attrs might be shadowed by a coord, but this cannot be prevented in
-- 
2.43.0


From 4268aa8e90e39ac4074c02aa3a6d83ea33f536f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 29/67] fix: treat NaN as equal when comparing coords in
 in-place operations

Binary operations, and everything else that compares coordinates, treat
NaN in coordinates as equal; in-place operations did not, i.e., a += b
failed for operands for which a = a + b works.
---
 lib/dataset/except.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/except.cpp b/lib/dataset/except.cpp
index 98affdd..3d1cd7f 100644
--- a/lib/dataset/except.cpp
+++ b/lib/dataset/except.cpp
@@ -68,8 +68,8 @@ void coords_are_superset(const Coords &a_coords, const Coords &b_coords,
         continue;
     }
     const auto &a_coord = a_coords[key];
-    if (a_coord.is_aligned() && b_coord.is_aligned() && a_coord != b_coord)
-      throw except::CoordMismatchError(key, a_coord, b_coord, opname);
+    if (a_coord.is_aligned() && b_coord.is_aligned())
+      matching_coord(key, a_coord, b_coord, opname);
   }
 }
 
-- 
2.43.0


From 29b118c6e532620c048cddd9b8e78f9f22e575d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 30/67] fix: support masks in groupby reductions of binned data

The replacement for masked elements was binned if the data was binned,
such that reducing binned data with a mask raised an error. The same
happened if the dimensions of mask and data were in different order.
Furthermore, masked bool data could not be summed since the replacement
had dtype int64.
---
 lib/dataset/groupby.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 579e701..1518ae1 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -72,9 +72,13 @@ template <class Op, class Groups>
 void reduce_(Op op, const Dim reductionDim, const Variable &out_data,
              const DataArray &data, const Dim dim, const Groups &groups,
              const FillValue fill) {
-  const auto mask_replacement =
-      special_like(Variable(data.data(), Dimensions{}), fill);
+  // Must be dense even if data is binned, and must have the dtype of data.
+  const auto mask_replacement = dense_special_like(
+      data.data(), Dimensions{},
+      fill == FillValue::ZeroNotBool ? FillValue::Default : fill);
   auto mask = irreducible_mask(data.masks(), reductionDim);
+  if (mask.is_valid())
+    mask = transpose(mask, intersection(data.dims(), mask.dims()).labels());
   const auto process = [&](const auto &range) {
     // Apply to each group, storing result in output slice
     for (scipp::index group = range.begin(); group != range.end(); ++group) {
-- 
2.43.0


From 17e3949221a90fc7f00170ad91aca610acc272a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:38 +0000
Subject: [PATCH 31/67] fix: keep the order of dimensions in mean and nanmean
 with masks

---
 lib/dataset/variable_reduction.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/dataset/variable_reduction.cpp b/lib/dataset/variable_reduction.cpp
index 9a1428b..2a76f54 100644
--- a/lib/dataset/variable_reduction.cpp
+++ b/lib/dataset/variable_reduction.cpp
@@ -17,12 +17,20 @@
 namespace scipp::dataset {
 
 namespace {
+/// Irreducible mask with dimensions in the same order as in `var`.
+Variable irreducible_mask_like(const Variable &var, const Masks &masks,
+                               const Dim dim) {
+  auto mask = irreducible_mask(masks, dim);
+  return mask.is_valid()
+             ? transpose(mask, intersection(var.dims(), mask.dims()).labels())
+             : mask;
+}
+
 template <class Op>
 Variable reduce_impl(const Variable &var, const Dim dim, const Masks &masks,
                      const FillValue fill, const Op &op) {
-  if (auto mask_union = irreducible_mask(masks, dim); mask_union.is_valid()) {
-    mask_union = transpose(
-        mask_union, intersection(var.dims(), mask_union.dims()).labels());
+  if (const auto mask_union = irreducible_mask_like(var, masks, dim);
+      mask_union.is_valid()) {
     return op(
         where(mask_union, dense_special_like(var, Dimensions{}, fill), var),
         dim);
@@ -72,7 +80,7 @@ Variable any(const Variable &var, const Dim dim, const Masks &masks) {
 }
 
 Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = irreducible_mask_like(var, masks, dim);
       mask_union.is_valid()) {
     const auto count = sum(~mask_union, dim);
     return mean_impl(where(mask_union, zero_like(var), var), dim, count);
@@ -81,7 +89,7 @@ Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
 }
 
 Variable nanmean(const Variable &var, const Dim dim, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = irreducible_mask_like(var, masks, dim);
       mask_union.is_valid()) {
     const auto count = sum(
         where(mask_union, makeVariable<bool>(Values{false}), ~isnan(var)), dim);
-- 
2.43.0


From 9e29e7f8f58d7a7f77fef76c54702bb2f2681d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:47 +0000
Subject: [PATCH 32/67] fix: keep the order of dimensions in rebin and
 histogram with masks

---
 lib/dataset/operations.cpp | 4 +++-
 lib/dataset/rebin.cpp      | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/dataset/operations.cpp b/lib/dataset/operations.cpp
index be94246..d5a5910 100644
--- a/lib/dataset/operations.cpp
+++ b/lib/dataset/operations.cpp
@@ -8,6 +8,7 @@
 #include "scipp/variable/creation.h"
 #include "scipp/variable/misc_operations.h"
 #include "scipp/variable/reduction.h"
+#include "scipp/variable/shape.h"
 #include "scipp/variable/util.h"
 
 #include "scipp/dataset/dataset.h"
@@ -117,9 +118,10 @@ Dataset copy(const Dataset &dataset, Dataset &&out,
 /// fill_value. If not provided, values are replaced by zero.
 Variable masked_data(const DataArray &array, const Dim dim,
                      const std::optional<Variable> &fill_value) {
-  const auto mask = irreducible_mask(array.masks(), dim);
+  auto mask = irreducible_mask(array.masks(), dim);
   if (mask.is_valid()) {
     const auto &data = array.data();
+    mask = transpose(mask, intersection(data.dims(), mask.dims()).labels());
     const auto fill = fill_value.value_or(zero_like(array.data()));
     return where(mask, fill, data);
   } else
diff --git a/lib/dataset/rebin.cpp b/lib/dataset/rebin.cpp
index a18fddf..0a3d4df 100644
--- a/lib/dataset/rebin.cpp
+++ b/lib/dataset/rebin.cpp
@@ -5,6 +5,7 @@
 #include "scipp/dataset/rebin.h"
 #include "scipp/variable/creation.h"
 #include "scipp/variable/rebin.h"
+#include "scipp/variable/shape.h"
 #include "scipp/variable/util.h"
 
 #include "dataset_operations_common.h"
@@ -13,8 +14,9 @@ namespace scipp::dataset {
 
 Variable rebin(const Variable &var, const Dim dim, const Variable &oldCoord,
                const Variable &newCoord, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
-      mask_union.is_valid()) {
+  if (auto mask_union = irreducible_mask(masks, dim); mask_union.is_valid()) {
+    mask_union = transpose(
+        mask_union, intersection(var.dims(), mask_union.dims()).labels());
     return rebin(where(mask_union, zero_like(var), var), dim, oldCoord,
                  newCoord);
   }
-- 
2.43.0


From 8c7fcf323c56c196ed400b7bcd9efcf14369dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 33/67] fix: ignore bins without overlap when rebinning
 non-contiguous data

---
 lib/variable/rebin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index e0fc68e..1d8edc8 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -52,6 +52,8 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
     // delta is the overlap of the bins on the x axis
     const auto delta = std::abs(std::min<double>(xn_high, xo_high, Less{}) -
                                 std::max<double>(xn_low, xo_low, Less{}));
+    if (delta == 0.0)
+      return; // old and new bins do not overlap
     const auto owidth = std::abs(xo_high - xo_low);
     slice += scaled(oldT.slice({dim, iold}), delta / owidth);
   };
-- 
2.43.0


From 20091c1a7330522c41fb265b764c1ff39be99da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 34/67] fix: put all NaN keys in one group, whatever their sign

---
 lib/dataset/groupby.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 1518ae1..c4ee55c 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -2,6 +2,8 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <cmath>
+#include <limits>
 #include <numeric>
 
 #include "scipp/core/bucket.h"
@@ -238,6 +240,16 @@ template <class T> struct nan_sensitive_equal {
       return a == b;
   }
 };
+
+/// Hash that is the same for all representations of NaN, including its sign.
+template <class T> struct nan_sensitive_hash {
+  std::size_t operator()(const T &x) const {
+    if constexpr (std::is_floating_point_v<T>)
+      if (std::isnan(x))
+        return std::hash<T>{}(std::numeric_limits<T>::quiet_NaN());
+    return std::hash<T>{}(x);
+  }
+};
 } // namespace
 
 template <class T> struct MakeGroups {
@@ -246,7 +258,7 @@ template <class T> struct MakeGroups {
     const auto &values = key.values<T>();
 
     const auto dim = key.dim();
-    std::unordered_map<T, GroupByGrouping::group, std::hash<T>,
+    std::unordered_map<T, GroupByGrouping::group, nan_sensitive_hash<T>,
                        nan_sensitive_equal<T>>
         indices;
     const auto end = values.end();
-- 
2.43.0


From 367e0e4437f6c4f83509921bd10770b921d31f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:57 +0000
Subject: [PATCH 35/67] fix: reject copying bins between buffers with different
 units

---
 lib/variable/bins.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/variable/bins.cpp b/lib/variable/bins.cpp
index a79bafa..fd6b126 100644
--- a/lib/variable/bins.cpp
+++ b/lib/variable/bins.cpp
@@ -41,6 +41,8 @@ Variable bin_sizes(const Variable &var) {
 
 void copy_slices(const Variable &src, Variable dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
+  // The copy would otherwise overwrite the unit of the entire buffer.
+  core::expect::equals(src.unit(), dst.unit());
   auto src_ = make_bins_no_validate(srcIndices, dim, src);
   auto dst_ = make_bins_no_validate(dstIndices, dim, dst);
   copy(src_, dst_);
-- 
2.43.0


From 1ff24e730eec0137444ea50506ae162b2cb3c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:13 +0000
Subject: [PATCH 36/67] fix: do not add masks along the scaled dimension in
 bins.scale

---
 lib/dataset/bins.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 7dc350f..4aa9be9 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -390,7 +390,11 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   // Coords along dim are ignored since "binning" is dynamic for buckets.
   expect::coords_are_superset(array, histogram.slice({dim, 0}), "bins.scale");
   // scale applies masks along dim but others are kept
-  union_or_in_place(array.masks(), histogram.slice({dim, 0}).masks());
+  Masks masks(array.dims(), {});
+  for (const auto &[name, mask] : histogram.masks())
+    if (!mask.dims().contains(dim))
+      masks.set(name, mask);
+  union_or_in_place(array.masks(), masks);
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
   const auto &edges = histogram.meta()[dim];
-- 
2.43.0


From ebe60efbac2ac2fdae91a268bf0b76aeda884230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:31 +0000
Subject: [PATCH 37/67] fix: handle transposed and sliced operands when
 appending to bins

---
 lib/dataset/bins.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 4aa9be9..9bb29ee 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -301,12 +301,13 @@ DataArray concatenate(const DataArray &array, const Dim dim) {
 }
 
 void append(Variable &var0, const Variable &var1) {
-  if (var0.dtype() == dtype<bucket<Variable>>)
-    var0.setDataHandle(combine<Variable>(var0, var1).data_handle());
-  else if (var0.dtype() == dtype<bucket<DataArray>>)
-    var0.setDataHandle(combine<DataArray>(var0, var1).data_handle());
-  else
-    var0.setDataHandle(combine<Dataset>(var0, var1).data_handle());
+  if (var0.is_slice())
+    throw except::DimensionError("Cannot append to bins of a slice.");
+  auto combined = concatenate(var0, var1);
+  core::expect::equals(combined.dims(), var0.dims());
+  // The result is contiguous, whereas `var0` could be, e.g., transposed.
+  combined.set_aligned(var0.is_aligned());
+  var0 = std::move(combined);
 }
 
 void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
-- 
2.43.0


From 20ea6ba748409b5342321b50c4efd59157709a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:01 +0000
Subject: [PATCH 38/67] fix: reject copying bins without variances into bins
 with variances

---
 lib/variable/bins.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/variable/bins.cpp b/lib/variable/bins.cpp
index fd6b126..ce38890 100644
--- a/lib/variable/bins.cpp
+++ b/lib/variable/bins.cpp
@@ -27,7 +27,10 @@ void copy_data(const Variable &src, Variable &dst) {
                      core::time_point, scipp::index_pair, Eigen::Vector3d,
                      Eigen::Matrix3d, Eigen::Affine3d, core::Translation,
                      core::Quaternion>(
-      dst, src, [](auto &a, const auto &b) { a = b; }, "copy");
+      dst, src,
+      overloaded{core::transform_flags::expect_in_variance_if_out_variance,
+                 [](auto &a, const auto &b) { a = b; }},
+      "copy");
 }
 
 /// Computes the size of each bin, i.e. the number of elements inside each bin.
-- 
2.43.0


From a793a47c0e05c5b6b0ff10fb0bc7b35977c06e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:43 +0000
Subject: [PATCH 39/67] fix: reject concatenating an empty variable with a
 variable of other unit

---
 lib/variable/shape.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/variable/shape.cpp b/lib/variable/shape.cpp
index aaa675a..d93ccdb 100644
--- a/lib/variable/shape.cpp
+++ b/lib/variable/shape.cpp
@@ -67,6 +67,8 @@ Variable concat(const scipp::span<const Variable> vars, const Dim dim) {
   }
   scipp::index offset = 0;
   for (const auto &var : tmp) {
+    // Not detected when copying, if `var` makes up all of the output.
+    core::expect::equals(out.unit(), var.unit());
     const auto extent = var.dims()[dim];
     out.data().copy(var, out.slice({dim, offset, offset + extent}));
     offset += extent;
-- 
2.43.0


From 9d6a355d041863a0de84f6f63fff9aa2bbf51434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:43 +0000
Subject: [PATCH 40/67] fix: check all joined edges when flattening bin edges

---
 lib/dataset/shape.cpp | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index b2f0d79..3d9e4e2 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -213,28 +213,18 @@ Variable fold_bin_edge(const Variable &var, const Dim from_dim,
 Variable flatten_bin_edge(const Variable &var,
                           const scipp::span<const Dim> &from_labels,
                           const Dim to_dim, const Dim bin_edge_dim) {
-  const auto data_shape = var.dims()[bin_edge_dim] - 1;
-
+  const auto size = var.dims()[bin_edge_dim] - 1;
+  const auto left =
+      flatten(var.slice({bin_edge_dim, 0, size}), from_labels, to_dim);
+  const auto right =
+      flatten(var.slice({bin_edge_dim, 1, size + 1}), from_labels, to_dim);
+  const auto nbin = left.dims()[to_dim];
   // Make sure that the bin edges can be joined together
-  const auto front = var.slice({bin_edge_dim, 0});
-  const auto back = var.slice({bin_edge_dim, data_shape});
-  const auto front_flat = flatten(front, front.dims().labels(), to_dim);
-  const auto back_flat = flatten(back, back.dims().labels(), to_dim);
-  if (front_flat.slice({to_dim, 1, front.dims().volume()}) !=
-      back_flat.slice({to_dim, 0, back.dims().volume() - 1}))
+  if (nbin == 0 ||
+      left.slice({to_dim, 1, nbin}) != right.slice({to_dim, 0, nbin - 1}))
     return {};
-
-  // Make the bulk slice of the coord, leaving out the last bin edge
-  const auto bulk =
-      flatten(var.slice({bin_edge_dim, 0, data_shape}), from_labels, to_dim);
-  auto out_dims = bulk.dims();
-  // To make the container of the right size, we increase to_dim by 1
-  out_dims.resize(to_dim, out_dims[to_dim] + 1);
-  auto out = empty(out_dims, var.unit(), var.dtype(), var.has_variances());
-  copy(bulk, out.slice({to_dim, 0, out_dims[to_dim] - 1}));
-  copy(back_flat.slice({to_dim, back.dims().volume() - 1}),
-       out.slice({to_dim, out_dims[to_dim] - 1}));
-  return out;
+  return concat(std::vector{left, right.slice({to_dim, nbin - 1, nbin})},
+                to_dim);
 }
 
 /// Check if one of the from_labels is a bin edge
-- 
2.43.0


From ca552f5f3d1d4ebd9043bffade1ff44a05f2abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:43 +0000
Subject: [PATCH 41/67] fix: check sizes in fold also if another dimension has
 size zero

---
 lib/core/dimensions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/dimensions.cpp b/lib/core/dimensions.cpp
index 07f5c1e..f8d0c1a 100644
--- a/lib/core/dimensions.cpp
+++ b/lib/core/dimensions.cpp
@@ -154,7 +154,7 @@ Dimensions fold(const Dimensions &old_dims, const Dim from_dim,
     else
       for (const auto &lab : to_dims.labels())
         new_dims.addInner(lab, to_dims[lab]);
-  if (old_dims.volume() != new_dims.volume())
+  if (old_dims[from_dim] != to_dims.volume())
     throw except::DimensionError(
         "Sizes " + to_string(to_dims) +
         " provided to `fold` not compatible with length '" +
-- 
2.43.0


From 21e61d365831c40e186b8314a80fd836e722ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:03 +0000
Subject: [PATCH 42/67] fix: keep alignment of bin edges in flatten

---
 lib/dataset/shape.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 3d9e4e2..6eded90 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -223,8 +223,10 @@ Variable flatten_bin_edge(const Variable &var,
   if (nbin == 0 ||
       left.slice({to_dim, 1, nbin}) != right.slice({to_dim, 0, nbin - 1}))
     return {};
-  return concat(std::vector{left, right.slice({to_dim, nbin - 1, nbin})},
-                to_dim);
+  auto out =
+      concat(std::vector{left, right.slice({to_dim, nbin - 1, nbin})}, to_dim);
+  out.set_aligned(var.is_aligned());
+  return out;
 }
 
 /// Check if one of the from_labels is a bin edge
-- 
2.43.0


From 063669bc03916eddcef1eaaf370dd7455d8fab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 43/67] fix: concat coords that depend on the dimension only in
 some inputs

---
 lib/dataset/shape.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 6eded90..86d6bd3 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -85,6 +85,12 @@ template <class Maps> auto concat_maps(const Maps &maps, const Dim dim) {
         throw except::BinEdgeError(
             "Either all or none of the inputs must have bin edge coordinates.");
       } else if (!all_is_edges(maps, key, dim)) {
+        // Inputs where the key does not depend on dim must be broadcast to
+        // ensure new coord shape matches new data shape.
+        const auto broadcasted = broadcast_along_dim(maps, key, dim);
+        for (size_t i = 0; i < vars.size(); ++i)
+          if (!vars[i].dims().contains(dim))
+            vars[i] = broadcasted[i];
         out.insert_or_assign(key, concat(vars, dim));
       } else {
         out.insert_or_assign(key, join_edges(vars, dim));
-- 
2.43.0


From f9f7e060d013bd4179015db5de62faf18915c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:41 +0000
Subject: [PATCH 44/67] fix: concat of bin edges if one of the inputs has no
 bins

---
 lib/dataset/shape.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index 86d6bd3..ff44d75 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -33,14 +33,16 @@ template <class T, class Op> auto map(const T &items, Op op) {
 Variable join_edges(const scipp::span<const Variable> vars, const Dim dim) {
   std::vector<Variable> tmp;
   tmp.reserve(vars.size());
+  // Inputs with a single edge contribute no edges, but must match.
+  Variable last;
   for (const auto &var : vars) {
     if (tmp.empty()) {
       tmp.emplace_back(var);
     } else {
-      core::expect::equals(tmp.back().slice({dim, tmp.back().dims()[dim] - 1}),
-                           var.slice({dim, 0}));
+      core::expect::equals(last, var.slice({dim, 0}));
       tmp.emplace_back(var.slice({dim, 1, var.dims()[dim]}));
     }
+    last = var.slice({dim, var.dims()[dim] - 1});
   }
   return concat(tmp, dim);
 }
-- 
2.43.0


From 94df23de207cd7ccc144b5f533e470dd3c1ad12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:41 +0000
Subject: [PATCH 45/67] fix: keep bin edges when flattening data without bins

---
 lib/dataset/shape.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index ff44d75..94a0eb7 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -222,6 +222,13 @@ Variable flatten_bin_edge(const Variable &var,
                           const scipp::span<const Dim> &from_labels,
                           const Dim to_dim, const Dim bin_edge_dim) {
   const auto size = var.dims()[bin_edge_dim] - 1;
+  if (size == 0) { // no bins, but each row has an edge
+    const auto edges = flatten(var, from_labels, to_dim);
+    const auto n = edges.dims()[to_dim];
+    if (n == 0 || edges.slice({to_dim, 1, n}) != edges.slice({to_dim, 0, n - 1}))
+      return {};
+    return edges.slice({to_dim, 0, 1});
+  }
   const auto left =
       flatten(var.slice({bin_edge_dim, 0, size}), from_labels, to_dim);
   const auto right =
-- 
2.43.0


From 69612a182c43a307449859eafcb254b282f8f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:20 +0000
Subject: [PATCH 46/67] fix: reject scaling bins with data that is not a
 histogram

---
 lib/dataset/bins.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 9bb29ee..89d57d6 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -388,6 +388,9 @@ Variable map(const DataArray &function, const Variable &x, Dim dim,
 void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   if (dim == Dim::Invalid)
     dim = edge_dimension(histogram);
+  if (!is_edges(histogram.dims(), histogram.meta()[dim].dims(), dim))
+    throw except::BinEdgeError(
+        "Function used for scaling bins must be a histogram");
   // Coords along dim are ignored since "binning" is dynamic for buckets.
   expect::coords_are_superset(array, histogram.slice({dim, 0}), "bins.scale");
   // scale applies masks along dim but others are kept
-- 
2.43.0


From 3ef22387fac668866ceeddb74a3a6d926f0dd920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:59 +0000
Subject: [PATCH 47/67] fix: detect overlap of in-place operations with
 broadcast operands

---
 lib/common/include/scipp/common/index_composition.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/common/include/scipp/common/index_composition.h b/lib/common/include/scipp/common/index_composition.h
index 54c043a..4ad6337 100644
--- a/lib/common/include/scipp/common/index_composition.h
+++ b/lib/common/include/scipp/common/index_composition.h
@@ -4,6 +4,7 @@
 /// @author Jan-Lukas Wynen
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cstddef>
@@ -55,7 +56,9 @@ constexpr auto memory_bounds(ForwardIt1 shape_it, const ForwardIt1 shape_end,
     else
       end += *shape_it * *strides_it;
   }
-  return std::pair{begin, end};
+  // The element at offset 0 is always reachable, but not accounted for if all
+  // strides are zero or negative.
+  return std::pair{begin, std::max(end, scipp::index{1})};
 }
 
 /// Extract individual indices from a flat index.
-- 
2.43.0


From 8700015a7e12a2be7936318bc710de9ff25335e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:59 +0000
Subject: [PATCH 48/67] fix: support non-contiguous conditions for boolean
 indexing

---
 lib/dataset/extract.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/extract.cpp b/lib/dataset/extract.cpp
index c3ee1c8..ff49d71 100644
--- a/lib/dataset/extract.cpp
+++ b/lib/dataset/extract.cpp
@@ -101,7 +101,8 @@ template <class T> T extract_impl(const T &obj, const Variable &condition) {
         " must be be included in the dimensions of the sliced object " +
         to_string(obj.dims()) + '.');
 
-  auto values = condition.values<bool>().as_span();
+  const auto contiguous = copy(condition);
+  const auto values = contiguous.values<bool>().as_span();
   std::vector<scipp::index_pair> indices;
   for (scipp::index i = 0; i < scipp::size(values); ++i) {
     if (i > 0 && values[i - 1] == values[i])
-- 
2.43.0


From db552e506d86374f27a2b853de994f6e91b438fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 49/67] fix: support pow with an exponent that shares memory
 with the out argument

---
 lib/variable/pow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 79d9226..c4fe50e 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -109,6 +109,9 @@ Variable pow(const Variable &base, const Variable &exponent) {
 }
 
 Variable &pow(const Variable &base, const Variable &exponent, Variable &out) {
+  // `out` is overwritten before the exponent is used.
+  if (exponent.data_handle() == out.data_handle())
+    return pow(base, copy(exponent), out);
   const auto target_dims = merge(base.dims(), exponent.dims());
   core::expect::equals(target_dims, out.dims());
   copy(astype(base, variableFactory().elem_dtype(out), CopyPolicy::TryAvoid),
-- 
2.43.0


From 25a7ccb9a342c1f07e843658b1804ce694a58042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:32 +0000
Subject: [PATCH 50/67] fix: detect overlap of in-place operations with
 components of vectors

---
 lib/variable/include/scipp/variable/transform.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/transform.h b/lib/variable/include/scipp/variable/transform.h
index 8a41ee0..ff34354 100644
--- a/lib/variable/include/scipp/variable/transform.h
+++ b/lib/variable/include/scipp/variable/transform.h
@@ -476,7 +476,11 @@ constexpr auto overlaps = [](const auto &a, const auto &b) {
                                typename std::decay_t<decltype(b)>::value_type>)
     return a.values().overlaps(b.values());
   else
-    return false;
+    // The views may share a buffer despite different types, e.g., for a vector
+    // and one of its components. In that case, always assume that they overlap.
+    return a.values().buffer() &&
+           static_cast<const void *>(a.values().buffer()) ==
+               static_cast<const void *>(b.values().buffer());
 };
 
 /// Helper class wrapping functions for in-place transform.
-- 
2.43.0


From bae8300528180cb893eff427dc95ba4d1cfdc1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:04 +0000
Subject: [PATCH 51/67] fix: detect overlap of in-place operations with bins of
 a common buffer

---
 lib/core/element_array_view.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/core/element_array_view.cpp b/lib/core/element_array_view.cpp
index e0b2b35..82cb59a 100644
--- a/lib/core/element_array_view.cpp
+++ b/lib/core/element_array_view.cpp
@@ -64,11 +64,18 @@ void ElementArrayViewParams::requireContiguous() const {
 [[nodiscard]] bool
 ElementArrayViewParams::overlaps(const ElementArrayViewParams &other) const {
   if (m_offset == other.m_offset && m_iterDims == other.m_iterDims &&
-      m_strides == other.m_strides) {
+      m_strides == other.m_strides &&
+      m_bucketParams.dim == other.m_bucketParams.dim &&
+      m_bucketParams.dims == other.m_bucketParams.dims &&
+      m_bucketParams.strides == other.m_bucketParams.strides &&
+      m_bucketParams.indices == other.m_bucketParams.indices) {
     // When both views are exactly the same, we should be fine without
     // making extra copies.
     return false;
   }
+  // Bins may refer to arbitrary ranges of the buffer.
+  if (m_bucketParams || other.m_bucketParams)
+    return true;
   // Otherwise check for partial overlap.
   const auto [this_begin, this_end] = memory_bounds(
       m_iterDims.shape().begin(), m_iterDims.shape().end(), m_strides.begin());
-- 
2.43.0


From b74915c147965140281ed1837b12b7b213b5c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 52/67] fix: handle several dataset items sharing data with the
 operand of an in-place operation

---
 lib/dataset/arithmetic.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/lib/dataset/arithmetic.cpp b/lib/dataset/arithmetic.cpp
index 929e6f6..522d3d5 100644
--- a/lib/dataset/arithmetic.cpp
+++ b/lib/dataset/arithmetic.cpp
@@ -2,6 +2,9 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <algorithm>
+#include <vector>
+
 #include "scipp/core/element/arithmetic.h"
 #include "scipp/dataset/dataset.h"
 #include "scipp/dataset/except.h"
@@ -30,15 +33,6 @@ template <class T, class Op> void dry_run_op(T &&a, const DataArray &b, Op op) {
   dry_run_op(a, b.data(), op);
 }
 
-template <class Op, class A, class B>
-auto &apply(const Op &op, A &a, const B &b) {
-  for (const auto &item : b)
-    dry_run_op(a[item.name()], item, op);
-  for (const auto &item : b)
-    op(a[item.name()], item);
-  return a;
-}
-
 template <typename T> bool are_same(const T &a, const T &b) {
   return a.get() == b.get();
 }
@@ -61,9 +55,33 @@ bool have_common_underlying<DataArray, DataArray>(const DataArray &a,
 }
 
 template <class Op, class A, class B>
-decltype(auto) apply_with_delay(const Op &op, A &&a, const B &b) {
+auto &apply(const Op &op, A &a, const B &b) {
+  for (const auto &item : b)
+    dry_run_op(a[item.name()], item, op);
+  // Items of `b` referencing data of other items of `a` must be copied before
+  // modifying any of the items.
+  std::vector<DataArray> operands;
+  for (const auto &item : b) {
+    const bool shared =
+        std::any_of(a.begin(), a.end(), [&item](const auto &target) {
+          return target.name() != item.name() &&
+                 have_common_underlying(DataArray(target), DataArray(item));
+        });
+    operands.emplace_back(shared ? copy(item) : item);
+  }
+  for (const auto &item : operands)
+    op(a[item.name()], item);
+  return a;
+}
+
+template <class Op, class A, class B>
+A &&apply_with_delay(const Op &op, A &&a, const B &b) {
   for (auto &&item : a)
     dry_run_op(item, b, op);
+  if (std::count_if(a.begin(), a.end(), [&b](const auto &item) {
+        return have_common_underlying(DataArray(item), b);
+      }) > 1)
+    return apply_with_delay(op, std::forward<A>(a), copy(b));
   // For `b` referencing data in `a` we delay operation. The alternative would
   // be to make a deep copy of `other` before starting the iteration over items.
   DataArray delayed;
-- 
2.43.0


From 5c0056908b0f03d0d1e6d43d3227c194ef4426b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 53/67] fix: handle dataset items sharing data with the operand
 of setSlice

---
 lib/dataset/dataset.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index dbde0b8..afb74ca 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -2,6 +2,8 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <algorithm>
+#include <optional>
 #include <sstream>
 
 #include "scipp/core/except.h"
@@ -239,14 +241,32 @@ Dataset Dataset::slice(const Slice &s) const {
   return out;
 }
 
+namespace {
+/// Return true if `data` is shared with any of the items (except `name`), i.e.,
+/// if modifying the items one by one may modify `data` before it is used.
+template <class Items>
+bool is_shared(const Items &items, const Variable &data,
+               const std::optional<std::string> &name = std::nullopt) {
+  return std::any_of(items.begin(), items.end(), [&](const auto &item) {
+    return item.first != name &&
+           item.second.data().data_handle() == data.data_handle();
+  });
+}
+} // namespace
+
 Dataset &Dataset::setSlice(const Slice &s, const Dataset &data) {
   // Validate slice on all items as a dry-run
   expect::coords_are_superset(slice(s).coords(), data.coords(), "");
   for (const auto &[name, item] : m_data)
     item.validateSlice(s, data.m_data.at(name));
   // Only if all items checked for dry-run does modification go-ahead
+  const bool shared =
+      std::any_of(m_data.begin(), m_data.end(), [&](const auto &item) {
+        return is_shared(m_data, data.m_data.at(item.first).data(), item.first);
+      });
+  const auto source = shared ? copy(data) : data;
   for (auto &&[name, item] : m_data)
-    item.setSlice(s, data.m_data.at(name));
+    item.setSlice(s, source.m_data.at(name));
   return *this;
 }
 
@@ -256,14 +276,16 @@ Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
   for (const auto &item : m_data)
     item.second.validateSlice(s, data);
   // Only if all items checked for dry-run does modification go-ahead
+  const auto source = is_shared(m_data, data.data()) ? copy(data) : data;
   for (auto &&[_, val] : m_data)
-    val.setSlice(s, data);
+    val.setSlice(s, source);
   return *this;
 }
 
 Dataset &Dataset::setSlice(const Slice &s, const Variable &data) {
+  const auto source = is_shared(m_data, data) ? copy(data) : data;
   for (auto &&item : *this)
-    item.setSlice(s, data);
+    item.setSlice(s, source);
   return *this;
 }
 
-- 
2.43.0


From 29cddbddab7e683d6bc7e904810e0fba9cd9da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:30 +0000
Subject: [PATCH 54/67] fix: keep exact values when converting units of
 integers and datetimes by an integer factor

---
 lib/core/include/scipp/core/element/to_unit.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/to_unit.h b/lib/core/include/scipp/core/element/to_unit.h
index 81e3a29..bb02501 100644
--- a/lib/core/include/scipp/core/element/to_unit.h
+++ b/lib/core/include/scipp/core/element/to_unit.h
@@ -31,7 +31,9 @@ template <class T, class U> T safe_cast(const U x) {
 
 template <class T>
 constexpr auto round = [](const auto x) {
-  if constexpr (std::is_integral_v<T>)
+  if constexpr (std::is_integral_v<std::decay_t<decltype(x)>>)
+    return static_cast<T>(x); // float64 cannot represent all integers
+  else if constexpr (std::is_integral_v<T>)
     return safe_cast<T>(x < 0 ? x - 0.5 : x + 0.5);
   else
     return static_cast<T>(x);
-- 
2.43.0


From 03cfcf700f5af4e027b03f29db0079b69e5b1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:13 +0000
Subject: [PATCH 55/67] fix: apply rules for integers and datetimes when
 converting units of binned data

---
 lib/variable/to_unit.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/variable/to_unit.cpp b/lib/variable/to_unit.cpp
index dc6b59e..aa1fe0a 100644
--- a/lib/variable/to_unit.cpp
+++ b/lib/variable/to_unit.cpp
@@ -34,14 +34,14 @@ Variable to_unit(const Variable &var, const units::Unit &unit,
     return copy == CopyPolicy::Always ? variable::copy(var) : var;
   if ((var_unit == units::none) || (unit == units::none))
     throw except::UnitError("Unit conversion to / from None is not permitted.");
+  const auto elem_dtype = variableFactory().elem_dtype(var);
   const auto scale =
       llnl::units::quick_convert(var_unit.underlying(), unit.underlying());
   if (std::isnan(scale))
     throw except::UnitError("Conversion from `" + to_string(var_unit) +
                             "` to `" + to_string(unit) + "` is not valid.");
-  if (var.dtype() == dtype<core::time_point> &&
-      (greater_than_days(variableFactory().elem_unit(var)) ||
-       greater_than_days(unit))) {
+  if (elem_dtype == dtype<core::time_point> &&
+      (greater_than_days(var_unit) || greater_than_days(unit))) {
     throw except::UnitError(
         "Unit conversions for datetimes with a unit of days or greater "
         "are not supported. Attempted conversion from `" +
@@ -55,7 +55,7 @@ Variable to_unit(const Variable &var, const units::Unit &unit,
   const auto base_scale = scale > 1e6 ? scale * 1e-6 : scale;
   if (const auto iscale = std::round(base_scale);
       (std::abs(base_scale - iscale) < 1e-12 * std::abs(base_scale))) {
-    if (var.dtype() == dtype<int64_t> || var.dtype() == dtype<core::time_point>)
+    if (elem_dtype == dtype<int64_t> || elem_dtype == dtype<core::time_point>)
       scalevar = int64_t{scale > 1e6 ? 1000000 : 1} *
                  static_cast<int64_t>(iscale) * unit;
     else
-- 
2.43.0


From 835a273839db4cf58dd039ec53b20c5246247842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 56/67] fix: respect memory layout when setting variances of
 transposed variables

---
 lib/variable/variable.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index a8e8368..cbc3d51 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -2,6 +2,9 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <algorithm>
+#include <vector>
+
 #include <units/units.hpp>
 
 #include "scipp/variable/variable.h"
@@ -307,8 +310,16 @@ void Variable::setVariances(const Variable &v) {
   if (v.is_valid()) {
     core::expect::equals(unit(), v.unit());
     core::expect::equals(dims(), v.dims());
+    // The buffer of `v` is used as-is, so its memory layout must match ours.
+    // Neither `*this` nor `v` are necessarily contiguous in order of `dims()`.
+    std::vector<Dim> labels(dims().labels().begin(), dims().labels().end());
+    std::stable_sort(
+        labels.begin(), labels.end(),
+        [&](const Dim a, const Dim b) { return stride(a) > stride(b); });
+    data().setVariances(copy(v.transpose(labels)));
+  } else {
+    data().setVariances(v);
   }
-  data().setVariances(v);
 }
 
 namespace detail {
-- 
2.43.0


From d7ac714c5b592568a6124654b43c2acbf7e5602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 57/67] fix: pow with out argument must not modify out when it
 fails

---
 lib/variable/pow.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index c4fe50e..57e32e2 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -109,14 +109,15 @@ Variable pow(const Variable &base, const Variable &exponent) {
 }
 
 Variable &pow(const Variable &base, const Variable &exponent, Variable &out) {
-  // `out` is overwritten before the exponent is used.
-  if (exponent.data_handle() == out.data_handle())
-    return pow(base, copy(exponent), out);
   const auto target_dims = merge(base.dims(), exponent.dims());
   core::expect::equals(target_dims, out.dims());
-  copy(astype(base, variableFactory().elem_dtype(out), CopyPolicy::TryAvoid),
-       out);
-  pow_handle_dtype(out, exponent, true);
+  // Using a temporary ensures that `out` is not modified if the operation fails
+  // and that `out` may share data with the inputs.
+  auto result =
+      copy(astype(base, variableFactory().elem_dtype(out), CopyPolicy::TryAvoid)
+               .broadcast(target_dims));
+  result = pow_handle_dtype(result, exponent, true);
+  copy(result, out);
   return out;
 }
 } // namespace scipp::variable
-- 
2.43.0


From 254f19f476fc4acd9cc8c03ba9e36d2a59a3acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 58/67] fix: validate masks before modifying data in in-place
 operations

---
 lib/dataset/arithmetic.cpp                 |  1 +
 lib/dataset/bins.cpp                       |  8 +++++---
 lib/dataset/dataset.cpp                    | 19 ++++++++++++++++---
 lib/dataset/include/scipp/dataset/except.h |  3 +++
 lib/templates/dataset_inplace.cpp.in       |  7 +++++--
 5 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/lib/dataset/arithmetic.cpp b/lib/dataset/arithmetic.cpp
index 522d3d5..a234208 100644
--- a/lib/dataset/arithmetic.cpp
+++ b/lib/dataset/arithmetic.cpp
@@ -30,6 +30,7 @@ template <class T, class Op> void dry_run_op(T &&a, const Variable &b, Op op) {
 
 template <class T, class Op> void dry_run_op(T &&a, const DataArray &b, Op op) {
   expect::coords_are_superset(a, b, "");
+  expect::can_union_or_in_place(a.masks(), b.masks());
   dry_run_op(a, b.data(), op);
 }
 
diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 89d57d6..dfc4aa1 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -81,9 +81,9 @@ auto make_fill(const DataArray &function,
 
 void copy_slices(const DataArray &src, DataArray dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
-  copy_slices(src.data(), dst.data(), dim, srcIndices, dstIndices);
   expect_matching_keys(src.meta(), dst.meta());
   expect_matching_keys(src.masks(), dst.masks());
+  copy_slices(src.data(), dst.data(), dim, srcIndices, dstIndices);
   for (const auto &[name, coord] : src.meta())
     copy_or_match(coord, dst.meta()[name], dim, srcIndices, dstIndices);
   for (const auto &[name, mask] : src.masks())
@@ -314,10 +314,11 @@ void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
 
 void append(DataArray &a, const DataArray &b) {
   expect::coords_are_superset(a, b, "bins.append");
-  union_or_in_place(a.masks(), b.masks());
+  expect::can_union_or_in_place(a.masks(), b.masks());
   auto data = a.data();
   append(data, b.data());
   a.setData(data);
+  union_or_in_place(a.masks(), b.masks());
 }
 
 Variable histogram(const Variable &data, const Variable &binEdges) {
@@ -398,7 +399,7 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   for (const auto &[name, mask] : histogram.masks())
     if (!mask.dims().contains(dim))
       masks.set(name, mask);
-  union_or_in_place(array.masks(), masks);
+  expect::can_union_or_in_place(array.masks(), masks);
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
   const auto &edges = histogram.meta()[dim];
@@ -415,5 +416,6 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
                        core::element::event::map_and_mul_sorted_edges,
                        "bins.scale");
   }
+  union_or_in_place(array.masks(), masks);
 }
 } // namespace scipp::dataset::buckets
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index afb74ca..834170f 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -283,6 +283,10 @@ Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
 }
 
 Dataset &Dataset::setSlice(const Slice &s, const Variable &data) {
+  // Validate slice on all items as a dry-run
+  for (const auto &item : m_data)
+    item.second.data().validateSlice(s, data);
+  // Only if all items checked for dry-run does modification go-ahead
   const auto source = is_shared(m_data, data) ? copy(data) : data;
   for (auto &&item : *this)
     item.setSlice(s, source);
@@ -364,7 +368,9 @@ typename Masks::holder_type union_or(const Masks &currentMasks,
   return out;
 }
 
-void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+/// Raise if union_or_in_place would fail, without modifying anything.
+void expect::can_union_or_in_place(const Masks &currentMasks,
+                                   const Masks &otherMasks) {
   using core::to_string;
   using units::to_string;
 
@@ -380,17 +386,24 @@ void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
                                    "broadcast along the slice dimension.");
     } else if (it != currentMasks.end() &&
                (item.dtype() != core::dtype<bool> ||
-                currentMasks[key].dtype() != core::dtype<bool>)) {
+                it->second.dtype() != core::dtype<bool>)) {
       throw except::TypeError(" Cannot combine non-boolean mask '" + key +
                               "' in operation");
     } else if (it != currentMasks.end() &&
                (item.unit() != scipp::units::none ||
-                currentMasks[key].unit() != scipp::units::none)) {
+                it->second.unit() != scipp::units::none)) {
       throw except::UnitError(" Cannot combine a unit-specified mask '" + key +
                               "' in operation");
+    } else if (it == currentMasks.end()) {
+      Masks(currentMasks.sizes(), {}).set(key, item);
+    } else {
+      scipp::expect::includes(it->second.dims(), item.dims());
     }
   }
+}
 
+void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+  expect::can_union_or_in_place(currentMasks, otherMasks);
   for (const auto &[key, item] : otherMasks) {
     const auto it = currentMasks.find(key);
     if (it == currentMasks.end()) {
diff --git a/lib/dataset/include/scipp/dataset/except.h b/lib/dataset/include/scipp/dataset/except.h
index 2178fc0..cefc28f 100644
--- a/lib/dataset/include/scipp/dataset/except.h
+++ b/lib/dataset/include/scipp/dataset/except.h
@@ -75,6 +75,9 @@ SCIPP_DATASET_EXPORT void matching_coord(const Dim dim, const Variable &a,
                                          const Variable &b,
                                          std::string_view opname);
 
+SCIPP_DATASET_EXPORT void can_union_or_in_place(const Masks &masks,
+                                                const Masks &otherMasks);
+
 SCIPP_DATASET_EXPORT void is_key(const Variable &key);
 
 } // namespace scipp::dataset::expect
diff --git a/lib/templates/dataset_inplace.cpp.in b/lib/templates/dataset_inplace.cpp.in
index c91e946..16ba97f 100644
--- a/lib/templates/dataset_inplace.cpp.in
+++ b/lib/templates/dataset_inplace.cpp.in
@@ -15,8 +15,9 @@ DataArray &@NAME@(DataArray &lhs, const Variable &rhs) {
 }
 DataArray &@NAME@(DataArray &lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
-  union_or_in_place(lhs.masks(), rhs.masks());
+  expect::can_union_or_in_place(lhs.masks(), rhs.masks());
   @NAME@(lhs.data(), rhs.data());
+  union_or_in_place(lhs.masks(), rhs.masks());
   return lhs;
 }
 DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
@@ -25,8 +26,10 @@ DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
 }
 DataArray @NAME@(DataArray &&lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
+  expect::can_union_or_in_place(lhs.masks(), rhs.masks());
+  @NAME@(lhs.data(), rhs.data());
   union_or_in_place(lhs.masks(), rhs.masks());
-  return @NAME@(std::move(lhs), rhs.data());
+  return std::move(lhs);
 }
 
 } // namespace scipp::dataset
-- 
2.43.0


From b74a6a45df37e79ddf22b0ff656de4062e2a8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 59/67] fix: validate slice assignment completely before
 modifying anything

---
 lib/dataset/data_array.cpp |  7 +++----
 lib/dataset/sized_dict.cpp |  2 ++
 lib/variable/variable.cpp  | 13 +++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index 93fb5a3..0d55080 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -143,12 +143,11 @@ void DataArray::validateSlice(const Slice &s, const DataArray &array) const {
 }
 
 DataArray &DataArray::setSlice(const Slice &s, const DataArray &array) {
-  // validateSlice, but not masks as otherwise repeated
-  expect::coords_are_superset(slice(s), array, "");
-  data().validateSlice(s, array.data());
+  validateSlice(s, array);
   // Apply changes
+  setSlice(s, array.data());
   masks().setSlice(s, array.masks());
-  return setSlice(s, array.data());
+  return *this;
 }
 
 DataArray &DataArray::setSlice(const Slice &s, const Variable &var) {
diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index 2ec098f..692ebba 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -317,6 +317,8 @@ void SizedDict<Key, Value>::validateSlice(const Slice &s,
                                    "' via slice since it is implicitly "
                                    "broadcast along the slice dimension '" +
                                    to_string(s.dim()) + "'.");
+    } else if (!var.is_readonly() && var.dims().contains(s.dim())) {
+      var.validateSlice(s, item);
     }
   }
 }
diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index cbc3d51..40922f1 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -12,6 +12,7 @@
 #include "scipp/core/dtype.h"
 #include "scipp/core/eigen.h"
 #include "scipp/variable/arithmetic.h"
+#include "scipp/variable/bins.h"
 #include "scipp/variable/except.h"
 #include "scipp/variable/variable_concept.h"
 #include "scipp/variable/variable_factory.h"
@@ -230,6 +231,18 @@ void Variable::validateSlice(const Slice &s, const Variable &data) const {
                             to_string(variableFactory().elem_dtype(data)) +
                             ". Variable has dtype " +
                             to_string(variableFactory().elem_dtype(*this)));
+  const auto target = slice(s);
+  target.expect_writable();
+  scipp::expect::includes(target.dims(), data.dims());
+  if (is_bins(data)) {
+    if (dtype() != data.dtype())
+      throw except::TypeError("Invalid slice operation. Slice has dtype " +
+                              to_string(data.dtype()) +
+                              ". Variable has dtype " + to_string(dtype()));
+    if (bin_sizes(data).broadcast(target.dims()) != bin_sizes(target))
+      throw except::BinnedDataError(
+          "Invalid slice operation. Bin sizes of slice and variable differ.");
+  }
 }
 
 Variable &Variable::setSlice(const Slice params, const Variable &data) {
-- 
2.43.0


From 1cf33e6cfd965d95b005413172e00a58592ab1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:55 +0000
Subject: [PATCH 60/67] fix: do not write the unit of slices (data race in
 reductions of binned data)

Variable::setUnit wrote the unit even for slices, whose unit cannot change.
Functions processing slices of the same output in parallel (bins.sum,
bins.mean, bins.min, bins.max, rebin) thus wrote the same object from several
threads.
---
 lib/variable/variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index 40922f1..5d1692e 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -120,7 +120,10 @@ const units::Unit &Variable::unit() const { return m_object->unit(); }
 void Variable::setUnit(const units::Unit &unit) {
   expect_writable();
   expect_can_set_unit(unit);
-  m_object->setUnit(unit);
+  // The unit of a slice cannot change. Not writing it avoids data races when
+  // threads operate on different slices of the same variable.
+  if (!is_slice())
+    m_object->setUnit(unit);
 }
 
 Dim Variable::dim() const {
-- 
2.43.0


From 0c7d83499c0e379d23ec81715a87dcd8bce141ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 61/67] fix: bin with bin coord depending on several target
 dims

The offsets into the target bins deduced from bin coords may decrease along
other target dims if the bin coord depends on these. SubbinSizes then accessed
elements out of bounds.
---
 lib/dataset/bin.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 7eec066..5c36e68 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -344,6 +344,8 @@ public:
             // the offset is relative to the outermost target dim
             is_outermost(dim) &&
             bin_coords.at(dim).dims().contains(dim) &&
+            // offsets must not decrease along other dims of the target
+            is_independent_of_other_targets(bin_coords.at(dim), dim) &&
             allsorted(bin_coords.at(dim), dim)) {
           const auto &bin_coord = bin_coords.at(dim);
           const auto con_key = as_contiguous(key, dim);
@@ -452,6 +454,15 @@ private:
     return true;
   }
 
+  /// True if `coord` depends on none of the target dims apart from `dim`.
+  [[nodiscard]] bool is_independent_of_other_targets(const Variable &coord,
+                                                     const Dim dim) const {
+    return std::none_of(coord.dims().begin(), coord.dims().end(),
+                        [&](const Dim label) {
+                          return label != dim && m_dims.contains(label);
+                        });
+  }
+
   Dimensions m_dims;
   Variable m_offsets;
   Variable m_nbin;
-- 
2.43.0


From 62d1ec9f91a454ca6ae9d8764984b98ccfdad910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:44 +0000
Subject: [PATCH 62/67] fix: bin with 2-D bin coord whose inner dim is not the
 binned one

left_edge and right_edge slice along the inner dim of the edges.
---
 lib/dataset/bin.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 5c36e68..74667a8 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -292,6 +292,14 @@ DataArray add_metadata(const Variable &data, std::unique_ptr<Mapper> mapper,
                    std::move(out_attrs)};
 }
 
+/// Transpose such that `dim` is the inner dim, as required by left_edge, etc.
+Variable make_inner(const Variable &var, const Dim dim) {
+  auto dims = var.dims();
+  dims.erase(dim);
+  dims.addInner(dim, var.dims()[dim]);
+  return transpose(var, dims.labels());
+}
+
 class TargetBinBuilder {
   enum class AxisAction { Group, Bin, Existing, Join };
 
@@ -347,7 +355,7 @@ public:
             // offsets must not decrease along other dims of the target
             is_independent_of_other_targets(bin_coords.at(dim), dim) &&
             allsorted(bin_coords.at(dim), dim)) {
-          const auto &bin_coord = bin_coords.at(dim);
+          const auto bin_coord = make_inner(bin_coords.at(dim), dim);
           const auto con_key = as_contiguous(key, dim);
           const bool histogram =
               bin_coord.dims()[dim] ==
-- 
2.43.0


From 3d4747a1f81ef84f323c331cf3f476a07c5d2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:44 +0000
Subject: [PATCH 63/67] fix: conversion from and to density must not modify the
 input dataset

---
 lib/dataset/counts.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/counts.cpp b/lib/dataset/counts.cpp
index b8eccf4..f5f14a4 100644
--- a/lib/dataset/counts.cpp
+++ b/lib/dataset/counts.cpp
@@ -51,9 +51,10 @@ Dataset toDensity(const Dataset &d, const Dim dim) {
 
 Dataset toDensity(const Dataset &d, const std::vector<Dim> &dims) {
   const auto binWidths = getBinWidths(d.coords(), dims);
-  for (auto &&data : d)
+  auto out = copy(d);
+  for (auto &&data : out)
     toDensity(data, binWidths);
-  return d;
+  return out;
 }
 
 DataArray toDensity(const DataArray &a, const Dim dim) {
@@ -82,9 +83,10 @@ Dataset fromDensity(const Dataset &d, const Dim dim) {
 
 Dataset fromDensity(const Dataset &d, const std::vector<Dim> &dims) {
   const auto binWidths = getBinWidths(d.coords(), dims);
-  for (auto &&data : d)
+  auto out = copy(d);
+  for (auto &&data : out)
     fromDensity(data, binWidths);
-  return d;
+  return out;
 }
 
 DataArray fromDensity(const DataArray &a, const Dim dim) {
-- 
2.43.0


From 57baeabc1537f837312204e7570501ff5cfdee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:52 +0000
Subject: [PATCH 64/67] fix: islinspace is false for values that include NaN

---
 lib/common/include/scipp/common/numeric.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index 63f6ee0..937ab61 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -27,8 +27,9 @@ template <class Range> bool islinspace(const Range &range) {
                       (std::abs(range.front()) + std::abs(range.back())) * ulp;
     return std::adjacent_find(range.begin(), range.end(),
                               [epsilon, delta](const auto &a, const auto &b) {
-                                return std::abs(std::abs(b - a) - delta) >
-                                       epsilon;
+                                // negated so NaN is not considered equidistant
+                                return !(std::abs(std::abs(b - a) - delta) <=
+                                         epsilon);
                               }) == range.end();
   } else {
     const auto delta = range[1] - range[0];
-- 
2.43.0


From 358a62f9b9faf0d7bc239e0538c9c633432e12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:47 +0000
Subject: [PATCH 65/67] fix: formatting of datetimes before 1970 and outside
 the range of the system clock

---
 lib/core/string.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/lib/core/string.cpp b/lib/core/string.cpp
index 4c59faf..a9dd38d 100644
--- a/lib/core/string.cpp
+++ b/lib/core/string.cpp
@@ -4,6 +4,7 @@
 /// @author Simon Heybrock
 #include <chrono>
 #include <iomanip>
+#include <limits>
 #include <mutex>
 #include <sstream>
 
@@ -97,11 +98,15 @@ template <class Ratio> constexpr int64_t num_digits() {
 // For synchronizing access to gmtime because its return value is shared.
 std::mutex gmtime_mutex;
 
+constexpr auto out_of_range = "(datetime out of range, cannot format)";
+
 void put_time(std::ostream &os, const std::time_t time_point,
               const bool include_time) {
   std::lock_guard guard_{gmtime_mutex};
   const std::tm *tm = std::gmtime(&time_point);
-  if (include_time)
+  if (!tm)
+    os << out_of_range;
+  else if (include_time)
     os << std::put_time(tm, "%FT%T");
   else
     os << std::put_time(tm, "%F");
@@ -109,8 +114,6 @@ void put_time(std::ostream &os, const std::time_t time_point,
 
 template <class Rep, class Period>
 std::string to_string(const std::chrono::duration<Rep, Period> &duration) {
-  using Clock = std::chrono::system_clock;
-
   std::ostringstream oss;
 
 #ifdef _WIN32
@@ -120,15 +123,24 @@ std::string to_string(const std::chrono::duration<Rep, Period> &duration) {
   }
 #endif
 
-  // Cast to seconds to be independent of clock precision.
+  if constexpr (std::ratio_greater_v<Period, std::ratio<1, 1>>) {
+    constexpr auto max = std::numeric_limits<int64_t>::max() / Period::num;
+    if (duration.count() > max || duration.count() < -max)
+      return out_of_range;
+  }
+
+  // Round to seconds to be independent of clock precision. Must round down,
+  // not towards zero, to support datetimes before 1970. The range of the system
+  // clock is insufficient for datetimes with a precision of seconds or less, so
+  // it cannot be used for the conversion to time_t.
   // Sub-second digits are formatted manually.
-  put_time(oss,
-           Clock::to_time_t(Clock::time_point{
-               std::chrono::duration_cast<std::chrono::seconds>(duration)}),
-           true);
+  const auto seconds = std::chrono::floor<std::chrono::seconds>(duration);
+  put_time(oss, static_cast<std::time_t>(seconds.count()), true);
   if constexpr (std::ratio_less_v<Period, std::ratio<1, 1>>) {
+    constexpr auto per_second = Period::den / Period::num;
+    const auto remainder = duration.count() % per_second;
     oss << '.' << std::setw(num_digits<Period>()) << std::setfill('0')
-        << (duration.count() % (Period::den / Period::num));
+        << (remainder < 0 ? remainder + per_second : remainder);
   }
   return oss.str();
 }
-- 
2.43.0


From 98e87e1f0a4b790f715bf28ea1cb0738b1a8fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:47 +0000
Subject: [PATCH 66/67] fix: bin edges of histogram and groupby that include
 NaN are rejected

---
 lib/core/include/scipp/core/histogram.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/histogram.h b/lib/core/include/scipp/core/histogram.h
index 3b1b411..3405df4 100644
--- a/lib/core/include/scipp/core/histogram.h
+++ b/lib/core/include/scipp/core/histogram.h
@@ -22,7 +22,11 @@ constexpr static auto linear_edge_params = [](const auto &edges) {
 
 namespace expect::histogram {
 template <class T> void sorted_edges(const T &edges) {
-  if (!std::is_sorted(edges.begin(), edges.end()))
+  // Not std::is_sorted, which accepts NaN.
+  if (std::adjacent_find(edges.begin(), edges.end(),
+                         [](const auto &a, const auto &b) {
+                           return !(a <= b);
+                         }) != edges.end())
     throw except::BinEdgeError("Bin edges of histogram must be sorted.");
 }
 } // namespace expect::histogram
-- 
2.43.0


From 0f728e801069780f7d7fac40362f1a5766dc01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:10 +0000
Subject: [PATCH 67/67] fix: concat of datasets without items where the first
 has extent 0 raised

---
 lib/core/sizes.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/sizes.cpp b/lib/core/sizes.cpp
index 17c1716..4d7ca71 100644
--- a/lib/core/sizes.cpp
+++ b/lib/core/sizes.cpp
@@ -173,7 +173,9 @@ Sizes Sizes::rename_dims(const std::vector<std::pair<Dim, Dim>> &names,
 
 namespace {
 Sizes concat2(const Sizes &a, const Sizes &b, const Dim dim) {
-  Sizes out = a.contains(dim) ? a.slice({dim, 0}) : a;
+  Sizes out(a);
+  if (out.contains(dim)) // not by slicing, which requires a non-zero extent
+    out.erase(dim);
   out.set(dim, (a.contains(dim) ? a[dim] : 1) + (b.contains(dim) ? b[dim] : 1));
   return out;
 }
-- 
2.43.0

