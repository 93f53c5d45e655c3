From 61061e29194327abe6c3aa21720b839abaedca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 01/34] fix: prefer_aligned prologue must not process elements
 outside the range

If the range ends before the next aligned address, the prologue used to
process elements past the end and underflowed the remaining count.
---
 vir/simd_execution.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 383307b..1c8fc60 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -596,7 +596,19 @@ case0:
               const auto misaligned_by_elements = misaligned_by_bytes / sizeof(T);
               const auto to_process = max_misalignment - misaligned_by_elements;
               if constexpr (use_aligned_loadstore)
-                do_prologue(max_misalignment, to_process);
+                {
+                  if (to_process > remaining)
+                    {
+                      // the range ends before the next aligned address
+                      for (; remaining > 0; --remaining)
+                        {
+                          do_prologue(max_misalignment, std::size_t(1));
+                          (++iterators_to_advance, ...);
+                        }
+                      return;
+                    }
+                  do_prologue(max_misalignment, to_process);
+                }
               else if (remaining * sizeof(T) > 4000
                          or (to_process & remaining) == to_process) // prologue replaces epilogue
                 do_prologue(max_misalignment, to_process);
-- 
2.43.0


From 115777517f6ac3a5f75b9e9201db9f52aec51437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 02/34] fix: transform_reduce after a prologue that consumed
 the whole range

The epilogue must not be entered with no elements left (unreachable).
---
 vir/simd_execution.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 1c8fc60..23e4d8d 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1090,7 +1090,8 @@ case0:
               }
             else if constexpr (lo_size > 0)
               {
-                // leftover > 0 by construction
+                if (leftover == 0) // the prologue processed the complete range
+                  return acc1[0];
                 return simd_transform_reduce_epilogue<lo_size>(
                          acc1, first1, leftover, reduce_op, transform_op, flags, first2...);
               }
-- 
2.43.0


From 1e8236794b5d991cc9629fc03e1d02674b61a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 03/34] fix: constant evaluated for_each processed the last
 element twice

The epilogue was entered without leftover elements; with simd width 2 it
assumes there is exactly one.
---
 vir/simd_execution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 23e4d8d..3b7089f 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1148,8 +1148,9 @@ case0:
                                                         stdx::element_aligned, detail::no_unroll);
 
           if constexpr (size > 1)
-            detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
-                                                          stdx::element_aligned);
+            if (distance % size != 0)
+              detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
+                                                            stdx::element_aligned);
         }
       else
         {
-- 
2.43.0


From 4a776a7b72c7b340020615d81aa547cb1c63f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 04/34] fix: default precondition handling is to trap

The default of VIR_CHECK_PRECONDITIONS was defined after its first use,
thus failed preconditions invoked UB unless the macro was defined.
---
 vir/simd.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5f2d6a8..3f65f30 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -37,6 +37,19 @@
 #endif
 #endif
 
+/* VIR_CHECK_PRECONDITIONS:
+ * 0: Compile-time warning, invoke UB on run-time failure.
+ * 1: Compile-time   error, invoke UB on run-time failure.
+ * 2: Compile-time warning, trap on run-time failure.
+ * 3: Compile-time   error, trap on run-time failure.
+ * 4: Compile-time warning, print error and abort on run-time failure.
+ * 5: Compile-time   error, print error and abort on run-time failure.
+ */
+
+#ifndef VIR_CHECK_PRECONDITIONS
+#define VIR_CHECK_PRECONDITIONS 3
+#endif
+
 namespace vir::detail
 {
   [[noreturn]] VIR_GNU_COLD VIR_ALWAYS_INLINE void
@@ -83,19 +96,6 @@ namespace vir::detail
 #define VIR_SIMD_TOSTRING(x) VIR_SIMD_TOSTRING_IMPL(x)
 #define VIR_SIMD_LOC __FILE__ ":" VIR_SIMD_TOSTRING(__LINE__) ": "
 
-/* VIR_CHECK_PRECONDITIONS:
- * 0: Compile-time warning, invoke UB on run-time failure.
- * 1: Compile-time   error, invoke UB on run-time failure.
- * 2: Compile-time warning, trap on run-time failure.
- * 3: Compile-time   error, trap on run-time failure.
- * 4: Compile-time warning, print error and abort on run-time failure.
- * 5: Compile-time   error, print error and abort on run-time failure.
- */
-
-#ifndef VIR_CHECK_PRECONDITIONS
-#define VIR_CHECK_PRECONDITIONS 3
-#endif
-
 #if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
 #warning "Invalid value for VIR_CHECK_PRECONDITIONS."
 #endif
-- 
2.43.0


From 725fc695cd88baf75f731dcb937ef533f3e54500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 05/34] fix: VIR_CHECK_PRECONDITIONS levels 4 and 5 need
 <cstdio>

---
 vir/simd.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd.h b/vir/simd.h
index 3f65f30..2cbaf37 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -18,6 +18,7 @@
 
 #include "simd_version.h"
 
+#include <cstdio> // std::fprintf
 #include <cstdlib> // std::abort
 
 #if __has_include (<experimental/simd>) && !defined VIR_DISABLE_STDX_SIMD \
-- 
2.43.0


From cc56772f1dc4a301f6b32e8df0092f59883ec5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 06/34] fix: make headers independent of inclusion order

* simd_permute.h uses detail::bit_cast and VIR_HAVE_WORKING_SHUFFLEVECTOR.
* In struct_reflect.h the name 'detail' was ambiguous in vir::detail after
  detail.h (fallback implementation).
---
 vir/simd_permute.h   | 1 +
 vir/struct_reflect.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 5502830..643264a 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -18,6 +18,7 @@
 #define VIR_HAVE_SIMD_PERMUTE 1
 
 #include "simd.h"
+#include "detail.h"
 #include "constexpr_wrapper.h"
 #include <bit>
 
diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index 9e46179..b3882ff 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -378,7 +378,7 @@ namespace vir
     template <typename T>
       concept aggregate_without_tuple_size
 	= std::is_aggregate_v<T> and not has_tuple_size<T>
-	    and requires (const T& x) { detail::struct_size<T>(); };
+	    and requires (const T& x) { vir::detail::struct_size<T>(); };
 
     // traits
     template <typename From, typename To>
-- 
2.43.0


From bee47051b31afb3ef6fb1caef335312eb08b7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 07/34] fix: rotate with negative or large offsets

* The index was computed in unsigned arithmetic, which is wrong for negative
  offsets if the width is not a power of two.
* The AVX2 code path did not reduce the offset modulo the width.
---
 vir/simd_permute.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 643264a..24c95a6 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -145,7 +145,11 @@ namespace vir
 
 	VIR_CONSTEVAL int
 	operator()(int i, auto size) const
-	{ return (i + Offset) % size.value; }
+	{
+	  const int n = size.value;
+	  const int j = (i + Offset) % n;
+	  return j < 0 ? j + n : j;
+	}
       };
 
     /// Rotate the elements by \p Offset.
@@ -190,7 +194,7 @@ namespace vir
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
 	    if constexpr (std::same_as<T, float> and std::is_trivially_copyable_v<V>
-			    and sizeof(v4df) == sizeof(V)
+			    and sizeof(v4df) == sizeof(V) and sizeof(v4df) == sizeof(R)
 			    and requires {
 			      F::is_even_rotation;
 			      F::Offset;
@@ -199,10 +203,11 @@ namespace vir
 			    })
 	      {
 		const v4df intrin = detail::bit_cast<v4df>(v);
-		constexpr int control = ((F::Offset / 2) << 0)
-					  | (((F::Offset / 2 + 1) % 4) << 2)
-					  | (((F::Offset / 2 + 2) % 4) << 4)
-					  | (((F::Offset / 2 + 3) % 4) << 6);
+		constexpr int o = (F::Offset / 2 % 4 + 4) % 4;
+		constexpr int control = (o << 0)
+					  | (((o + 1) % 4) << 2)
+					  | (((o + 2) % 4) << 4)
+					  | (((o + 3) % 4) << 6);
 		return detail::bit_cast<R>(__builtin_ia32_permdf256(intrin, control));
 	      }
 #endif
-- 
2.43.0


From b6987f24f208b41241b770b53c11d6e437e7798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 08/34] fix: masked hmin/hmax of infinities

GCC and Clang always define __FINITE_MATH_ONLY__ (to 0 or 1). Consequently,
hmax of a selection of only -inf returned lowest() and hmin of only inf
returned max().
---
 vir/simd.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 2cbaf37..7d7da7f 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2375,12 +2375,11 @@ namespace vir::stdx
     hmin(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::max();
-#else
-        std::numeric_limits<T>::infinity();
-#endif
+      if (none_of(get_mask(x)))
+        return std::numeric_limits<T>::max();
+      constexpr T id_elem = std::numeric_limits<T>::has_infinity
+                              ? std::numeric_limits<T>::infinity()
+                              : std::numeric_limits<T>::max();
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::min;
                return min(l, r);
@@ -2393,12 +2392,11 @@ namespace vir::stdx
     hmax(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::lowest();
-#else
-        -std::numeric_limits<T>::infinity();
-#endif
+      if (none_of(get_mask(x)))
+        return std::numeric_limits<T>::lowest();
+      constexpr T id_elem = std::numeric_limits<T>::has_infinity
+                              ? T(-std::numeric_limits<T>::infinity())
+                              : std::numeric_limits<T>::lowest();
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::max;
                return max(l, r);
-- 
2.43.0


From 764b89caf7a0c13eb1c100e0f346a9835fed8722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 09/34] fix: is_simd_flag_type is true for the flag types

---
 vir/simd.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vir/simd.h b/vir/simd.h
index 7d7da7f..f960455 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -547,6 +547,18 @@ namespace vir::stdx
     struct is_simd_flag_type : std::false_type
     {};
 
+  template <>
+    struct is_simd_flag_type<element_aligned_tag> : std::true_type
+    {};
+
+  template <>
+    struct is_simd_flag_type<vector_aligned_tag> : std::true_type
+    {};
+
+  template <size_t N>
+    struct is_simd_flag_type<overaligned_tag<N>> : std::true_type
+    {};
+
   template <class T>
     inline constexpr bool is_simd_flag_type_v = is_simd_flag_type<T>::value;
 
-- 
2.43.0


From 971010cd408f45d45d1d8639834a17eb1ad09af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 10/34] fix: width of native_simd with AVX but without AVX2

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index f960455..ffa4bc4 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -434,7 +434,7 @@ namespace vir::stdx
 #elif defined __AVX2__
                              32
 #elif defined __AVX__
-                             std::is_floating_point_v<T> ? 32 : 16
+                             (std::is_floating_point_v<T> ? 32 : 16)
 #else
                              16
 #endif
-- 
2.43.0


From 044acc3d4efbd4a8dc42caa683081e6cbd15420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:47 +0000
Subject: [PATCH 11/34] fix: static_simd_cast must not change the number of
 elements

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index ffa4bc4..4f9c759 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1786,7 +1786,7 @@ namespace vir::stdx
     { return simd<T, A>([&x](size_t i) { return static_cast<T>(x[i]); }); }
 
   template <typename V, typename U, typename A,
-            typename = std::enable_if_t<is_simd_v<V>>>
+            typename = std::enable_if_t<is_simd_v<V> && V::size() == simd_size_v<U, A>>>
     constexpr V
     static_simd_cast(const simd<U, A>& x)
     { return V([&x](size_t i) { return static_cast<typename V::value_type>(x[i]); }); }
-- 
2.43.0


From 6c6c67a3836154d2f44eeb097089a58073b95745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 12/34] fix: to_fixed_size, to_native, and to_compatible for
 all widths

to_native and to_compatible only accepted a single element (and broadcast
it); to_fixed_size did not accept the scalar ABI.
---
 vir/simd.h | 58 ++++++++++++++++++++++--------------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 4f9c759..70dc5ba 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1812,47 +1812,37 @@ namespace vir::stdx
     { return static_simd_cast<T>(x); }
 
   // to_fixed_size
-  template <typename T, int N>
-    constexpr fixed_size_simd<T, N>
-    to_fixed_size(const fixed_size_simd<T, N>& x)
-    { return x; }
-
-  template <typename T, int N>
-    constexpr fixed_size_simd_mask<T, N>
-    to_fixed_size(const fixed_size_simd_mask<T, N>& x)
-    { return x; }
-
-  template <typename T>
-    constexpr fixed_size_simd<T, 1>
-    to_fixed_size(const simd<T> x)
-    { return x[0]; }
+  template <typename T, typename A>
+    constexpr fixed_size_simd<T, simd_size_v<T, A>>
+    to_fixed_size(const simd<T, A>& x)
+    { return fixed_size_simd<T, simd_size_v<T, A>>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr fixed_size_simd_mask<T, 1>
-    to_fixed_size(const simd_mask<T> x)
-    { return fixed_size_simd_mask<T, 1>(x[0]); }
+  template <typename T, typename A>
+    constexpr fixed_size_simd_mask<T, simd_size_v<T, A>>
+    to_fixed_size(const simd_mask<T, A>& x)
+    { return fixed_size_simd_mask<T, simd_size_v<T, A>>([&x](size_t i) { return x[i]; }); }
 
   // to_native
-  template <typename T>
-    constexpr simd<T>
-    to_native(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<native_simd<T>::size() == N, native_simd<T>>
+    to_native(const fixed_size_simd<T, N>& x)
+    { return native_simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_native(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<native_simd<T>::size() == N, native_simd_mask<T>>
+    to_native(const fixed_size_simd_mask<T, N>& x)
+    { return native_simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // to_compatible
-  template <typename T>
-    constexpr simd<T>
-    to_compatible(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<simd<T>::size() == N, simd<T>>
+    to_compatible(const fixed_size_simd<T, N>& x)
+    { return simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_compatible(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<simd<T>::size() == N, simd_mask<T>>
+    to_compatible(const fixed_size_simd_mask<T, N>& x)
+    { return simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // split(simd)
   template <typename V, int N, size_t Parts = N / V::size()>
-- 
2.43.0


From 8246a3675016fb724da6679380af19296acaeeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 13/34] fix: loading a simdized struct of three floats must
 preserve the element order

Loads of eight {float, float, float} with AVX returned the elements in the
order 0 3 6 1 4 7 2 5, whereas subscripting and stores assume memory order. A
load followed by a store thus permuted the array.
---
 vir/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index a3b7ecd..3187ac8 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -667,7 +667,7 @@ namespace vir
 		      // c = [b5 c5 a6 b6 c6 a7 b7 c7] 233 = 121+112
 
 		      using v8sf [[gnu::vector_size(32)]] = float;
-		      if constexpr (true) // allow_unordered
+		      if constexpr (false) // allow_unordered
 			{
 			  v8sf x0, x1, x2, a0, b0, c0;
 			  std::memcpy(&x0, byte_ptr +  0, 32);
-- 
2.43.0


From 9d58e401baa756772e450684207d5c2b5c19c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:34 +0000
Subject: [PATCH 14/34] fix: simd_permute from or to a number of elements that
 is not a power of two

---
 vir/simd_permute.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 24c95a6..af6c6c8 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -212,7 +212,10 @@ namespace vir
 	      }
 #endif
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
-	    if constexpr (std::has_single_bit(sizeof(V)) and std::has_single_bit(sizeof(R)))
+	    // without padding: it cannot be the source of a zero, and the number of elements of a
+	    // builtin vector is a power of two
+	    if constexpr (std::has_single_bit(V::size()) and std::has_single_bit(R::size())
+			    and std::has_single_bit(sizeof(V)) and std::has_single_bit(sizeof(R)))
 	      {
 		using VBuiltin [[gnu::vector_size(sizeof(V))]] = T;
 		using RBuiltin [[gnu::vector_size(sizeof(R))]] = T;
-- 
2.43.0


From 15108ed5bcb74b46624666e5b22612cb34e47936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:35 +0000
Subject: [PATCH 15/34] fix: simdize_size is 0 for types that are neither simd
 nor tuples thereof

---
 vir/simdize.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 3187ac8..e6e5f3d 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -38,12 +38,19 @@ namespace vir
 #ifndef DOXYGEN
 	if constexpr (stdx::is_simd_v<T>)
 	  return T::size();
-	else if constexpr (reflectable_struct<T> and []<std::size_t... Is>(
-			     std::index_sequence<Is...>) {
-			     return ((simdize_size<vir::struct_element_t<0, T>>::value
-					== simdize_size<vir::struct_element_t<Is, T>>::value) and ...);
-			   }(std::make_index_sequence<vir::struct_size_v<T>>()))
-	  return simdize_size<vir::struct_element_t<0, T>>::value;
+	else if constexpr (reflectable_struct<T>)
+	  {
+	    if constexpr (vir::struct_size_v<T> == 0)
+	      return 0;
+	    else if constexpr ([]<std::size_t... Is>(std::index_sequence<Is...>) {
+				 return ((simdize_size<vir::struct_element_t<0, T>>::value
+					    == simdize_size<vir::struct_element_t<Is, T>>::value)
+					   and ...);
+			       }(std::make_index_sequence<vir::struct_size_v<T>>()))
+	      return simdize_size<vir::struct_element_t<0, T>>::value;
+	    else
+	      return 0;
+	  }
 	else
 	  return 0;
 #endif
-- 
2.43.0


From 3d9e7f4a096434a86a49635d6407980942d87b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 16/34] fix: simdized loads and stores of std::tuple must not
 assume the members in index order

---
 vir/simdize.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index e6e5f3d..864dd72 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -589,8 +589,10 @@ namespace vir
       {
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
 	if (not std::is_constant_evaluated())
+	  // the permutations require the members in memory in order of their index, which isn't the
+	  // case for e.g. std::tuple
 	  if constexpr (N > 1 and sizeof(T) * N == sizeof(base_type) and _flat_member_count >= 2
-			  and std::has_single_bit(unsigned(N)))
+			  and std::has_single_bit(unsigned(N)) and std::is_standard_layout_v<T>)
 	    {
 	      const std::byte* byte_ptr = reinterpret_cast<const std::byte*>(addr);
 	      // struct_size_v == 2 doesn't need anything, the fallback works fine, unless
@@ -826,7 +828,7 @@ namespace vir
 	  if (not std::is_constant_evaluated())
 	    if constexpr (N > 2 and _flat_member_count >= 2
 			    and sizeof(T) * N == sizeof(base_type)
-			    and std::has_single_bit(unsigned(N)))
+			    and std::has_single_bit(unsigned(N)) and std::is_standard_layout_v<T>)
 	      {
 		using V0 = detail::flat_element_t<0, tuple_type>;
 		//using V1 = detail::flat_element_t<1, tuple_type>;
-- 
2.43.0


From 9006fcd30f3ed11383c7a34561c29b908b3f7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:22 +0000
Subject: [PATCH 17/34] fix: struct_size of types whose data members are all in
 a base class

struct_reflect.h documents destructuring of types that have no non-static data members themselves but
a single base class with non-static data members. struct_size_v was 1 for all of those.
---
 vir/struct_reflect.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index b3882ff..557ef64 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -46,9 +46,24 @@ namespace vir
 	  operator T();
       };
 
+    template <typename Struct>
+      struct any_nonempty_base_of
+      {
+	template <typename T>
+	  requires (std::is_base_of_v<T, Struct> and not std::is_same_v<T, Struct>
+		      and not std::is_empty_v<T>)
+	  operator T();
+      };
+
+    // all data members are members of the (only) base class => rely on brace elision
+    template <typename T>
+      concept members_in_base = requires { T{any_nonempty_base_of<T>()}; };
+
     template <typename T, size_t... Indexes>
       concept brace_constructible_impl
-	= requires { T{{((void)Indexes, anything_but_base_of<T>())}...}; }
+	= (members_in_base<T> and requires { T{((void)Indexes, anything_but_base_of<T>())...}; })
+	    or (not members_in_base<T>
+		  and requires { T{{((void)Indexes, anything_but_base_of<T>())}...}; })
 	    or requires
 	  {
 	    T{any_empty_base_of<T>(), {((void)Indexes, anything_but_base_of<T>())}...};
-- 
2.43.0


From 2aa40fdc09d25d533bf957ccec086592885455e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:45 +0000
Subject: [PATCH 18/34] fix: simd_resize of simd_mask with libstdc++

libstdc++'s simd_mask has no generator constructor, so that the documented overload never compiled.
---
 vir/simd_resize.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vir/simd_resize.h b/vir/simd_resize.h
index af5dee6..936eb35 100644
--- a/vir/simd_resize.h
+++ b/vir/simd_resize.h
@@ -28,6 +28,10 @@ namespace vir
     constexpr vir::detail::deduced_simd_mask<T, N>
     simd_resize(const stdx::simd_mask<T, A>& x)
     {
+#if VIR_GLIBCXX_STDX_SIMD
+      using M = vir::detail::deduced_simd_mask<T, N>;
+      return std::experimental::parallelism_v2::__proposed::resizing_simd_cast<M>(x);
+#else
       constexpr int xn = stdx::simd_size_v<T, A>;
       return vir::detail::deduced_simd_mask<T, N>([&x](auto i) {
                if constexpr (i < xn)
@@ -35,6 +39,7 @@ namespace vir
                else
                  return false;
              });
+#endif
     }
 
   template <typename V, typename A>
-- 
2.43.0


From 9bcc6a3590691218bb609f6c8619b70cc8a0080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:41 +0000
Subject: [PATCH 19/34] fix: simd_float_ops for fixed_size simds of libstdc++

They are not trivially copyable, so that the bit_cast did not compile. Use the element-wise
implementation instead.
---
 vir/simd_float_ops.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vir/simd_float_ops.h b/vir/simd_float_ops.h
index f1c06ac..49c57b8 100644
--- a/vir/simd_float_ops.h
+++ b/vir/simd_float_ops.h
@@ -18,7 +18,8 @@ namespace vir
       operator&(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -36,7 +37,8 @@ namespace vir
       operator|(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -54,7 +56,8 @@ namespace vir
       operator^(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
-- 
2.43.0


From 6fc3d20fdad59b3b9e5e799be7ceacdadd782e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:54 +0000
Subject: [PATCH 20/34] fix: _cw literals for zero in other bases and for the
 0B prefix

0x0_cw, 0b0_cw, 00_cw, and 0B1_cw are integer literals but were rejected.
---
 vir/constexpr_wrapper.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vir/constexpr_wrapper.h b/vir/constexpr_wrapper.h
index 2f1cfae..b617099 100644
--- a/vir/constexpr_wrapper.h
+++ b/vir/constexpr_wrapper.h
@@ -396,8 +396,8 @@ namespace vir
       {
         constexpr std::array arr = cw_prepare_array<Chars...>();
         constexpr int base = arr[0] == '0' and 2 < arr.size()
-                               ? arr[1] == 'x' or arr[1] == 'X' ? 16
-                                                                : arr[1] == 'b' ? 2 : 8
+                               ? arr[1] == 'x' or arr[1] == 'X'
+                                   ? 16 : arr[1] == 'b' or arr[1] == 'B' ? 2 : 8
                                : 10;
         constexpr int offset = base == 10 ? 0 : base == 8 ? 1 : 2;
         constexpr bool valid_chars = std::all_of(arr.begin() + offset, arr.end(), [=](char c) {
@@ -441,7 +441,9 @@ namespace vir
                 }
               return x;
             }();
-            static_assert(x != 0, "constexpr_wrapper literal value out of range");
+            constexpr bool is_zero = std::all_of(arr.begin() + offset, arr.end(),
+                                                 [](char c) { return c == '0'; });
+            static_assert(x != 0 or is_zero, "constexpr_wrapper literal value out of range");
             if constexpr (x <= std::numeric_limits<signed char>::max())
               return static_cast<signed char>(x);
             else if constexpr (x <= std::numeric_limits<signed short>::max())
-- 
2.43.0


From f09e104d3036a41e28493e2c992df717bb9f1661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:23 +0000
Subject: [PATCH 21/34] fix: simd_float_ops with AVX but without AVX2

The unsigned integer simd with the same number of elements is a fixed_size simd there, which is not
trivially copyable.
---
 vir/simd_float_ops.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vir/simd_float_ops.h b/vir/simd_float_ops.h
index 49c57b8..401c6d5 100644
--- a/vir/simd_float_ops.h
+++ b/vir/simd_float_ops.h
@@ -11,6 +11,18 @@
 
 namespace vir
 {
+  namespace detail
+  {
+    template <typename V, bool = sizeof(typename V::value_type) <= sizeof(long long)>
+      inline constexpr bool can_bit_cast_to_unsigned_v = false;
+
+    // fixed_size simds of libstdc++ are not trivially copyable
+    template <typename V>
+      inline constexpr bool can_bit_cast_to_unsigned_v<V, true>
+        = std::is_trivially_copyable_v<V> and std::is_trivially_copyable_v<
+            stdx::rebind_simd_t<meta::as_unsigned_t<typename V::value_type>, V>>;
+  }
+
   namespace simd_float_ops
   {
     template <typename T, typename A>
@@ -18,8 +30,7 @@ namespace vir
       operator&(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long)
-                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
+        if constexpr (detail::can_bit_cast_to_unsigned_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -37,8 +48,7 @@ namespace vir
       operator|(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long)
-                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
+        if constexpr (detail::can_bit_cast_to_unsigned_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -56,8 +66,7 @@ namespace vir
       operator^(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long)
-                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
+        if constexpr (detail::can_bit_cast_to_unsigned_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
-- 
2.43.0


From f2532d8e1f55a4808d21d0e4744641fcce3dc248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:21 +0000
Subject: [PATCH 22/34] fix: struct_size of types with array members in a base
 class

Initialize the members of the base class with one pair of braces each instead of relying on brace
elision.
---
 vir/struct_reflect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index 557ef64..de28220 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -55,13 +55,13 @@ namespace vir
 	  operator T();
       };
 
-    // all data members are members of the (only) base class => rely on brace elision
+    // all data members are members of the (only) base class
     template <typename T>
       concept members_in_base = requires { T{any_nonempty_base_of<T>()}; };
 
     template <typename T, size_t... Indexes>
       concept brace_constructible_impl
-	= (members_in_base<T> and requires { T{((void)Indexes, anything_but_base_of<T>())...}; })
+	= (members_in_base<T> and requires { T{{{((void)Indexes, anything_but_base_of<T>())}...}}; })
 	    or (not members_in_base<T>
 		  and requires { T{{((void)Indexes, anything_but_base_of<T>())}...}; })
 	    or requires
-- 
2.43.0


From cc424ff7348642818f137e216be7477bdc85461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:39 +0000
Subject: [PATCH 23/34] fix: masked load constructor of the scalar simd_mask

simd_mask is not convertible to bool, thus the constructor did not compile.
---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index 70dc5ba..1c5eb89 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -678,7 +678,7 @@ namespace vir::stdx
       template <typename Flags>
         constexpr
         simd_mask(const value_type* mem, simd_mask k, Flags)
-        : data(k ? mem[0] : false)
+        : data(k[0] ? mem[0] : false)
         {}
 
       // loads [simd_mask.load]
-- 
2.43.0


From 33827bc11410b66febca64eb53ddb1072ce27bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:24 +0000
Subject: [PATCH 24/34] fix: three-argument math functions with two simd
 arguments and one broadcast

fma(v, s, v) and hypot(v, s, v) were ambiguous.
---
 vir/simd.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/vir/simd.h b/vir/simd.h
index 1c5eb89..21a7c5b 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2466,6 +2466,27 @@ namespace vir::stdx
          const simd<T, A>& y, const simd<T, A> &z) noexcept                                        \
     { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }           \
                                                                                                    \
+  template <typename T, typename A>                                                                \
+    constexpr return_temp<T, A>                                                                    \
+    name(const simd<detail::FloatingPoint<T>, A>& x,                                               \
+         const simd<T, A>& y,                                                                      \
+         const detail::type_identity_t<simd<T, A>> &z) noexcept                                    \
+    { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }           \
+                                                                                                   \
+  template <typename T, typename A>                                                                \
+    constexpr return_temp<T, A>                                                                    \
+    name(const simd<detail::FloatingPoint<T>, A>& x,                                               \
+         const detail::type_identity_t<simd<T, A>>& y,                                             \
+         const simd<T, A> &z) noexcept                                                             \
+    { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }           \
+                                                                                                   \
+  template <typename T, typename A>                                                                \
+    constexpr return_temp<T, A>                                                                    \
+    name(const detail::type_identity_t<simd<T, A>>& x,                                             \
+         const simd<detail::FloatingPoint<T>, A>& y,                                               \
+         const simd<T, A> &z) noexcept                                                             \
+    { return return_temp<T, A>([&](size_t i) { return std::name(x[i], y[i], z[i]); }); }           \
+                                                                                                   \
   template <typename T, typename A>                                                                \
     constexpr return_temp<T, A>                                                                    \
     name(const simd<detail::FloatingPoint<T>, A>& x,                                               \
-- 
2.43.0


From cd0dd0e64de14db8bfe1e981d76624e4db3e4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:55 +0000
Subject: [PATCH 25/34] fix: fake_modify and fake_read of fallback simds of any
 size, and with Clang

The inline asm constraints for the array-based implementation were only valid
for GCC and for objects that fit a register class (e.g. not for
fixed_size_simd<float, 3>).
---
 vir/simd_benchmarking.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index 2f66795..70274c5 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -38,11 +38,8 @@ namespace vir
 	  else
 	    fake_modify_one(d);
 #else
-	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
-	    asm volatile("" : "+g"(x));
-	  else
-	    asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	  // assuming vir::stdx::simd implementation, which stores an array of arbitrary size
+	  asm volatile("" : "+m"(x));
 #endif
 	}
       else if constexpr (sizeof(x) >= 16)
@@ -75,11 +72,8 @@ namespace vir
 	  else
 	    fake_read_one(d);
 #else
-	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
-	    asm volatile("" ::"g"(x));
-	  else
-	    asm volatile("" ::VIR_SIMD_REG "g,m"(x));
+	  // assuming vir::stdx::simd implementation, which stores an array of arbitrary size
+	  asm volatile("" ::"m"(x));
 #endif
 	}
       else if constexpr (sizeof(x) >= 16)
-- 
2.43.0


From e2927cc615f2dbd12d26a2a4ec1a88c51d3a545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:09 +0000
Subject: [PATCH 26/34] fix: operator<=> of simd_version_t independent of
 include order

Whether operator<=> (and VIR_HAVE_SPACESHIP) existed depended on whether another
header had defined __cpp_lib_three_way_comparison before simd_version.h.
---
 vir/simd_version.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vir/simd_version.h b/vir/simd_version.h
index e6e4e7b..19262d5 100644
--- a/vir/simd_version.h
+++ b/vir/simd_version.h
@@ -10,6 +10,10 @@
  * \brief Version macros and version constant.
  */
 
+#if __has_include(<version>)
+#include <version> // for __cpp_lib_three_way_comparison
+#endif
+
 #if __cpp_impl_three_way_comparison >= 201907L and __cpp_lib_three_way_comparison >= 201907L
 #define VIR_HAVE_SPACESHIP 1
 #include <compare>
-- 
2.43.0


From d18f3556a77dacf68eb31ba6af63d7b523953c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:42 +0000
Subject: [PATCH 27/34] fix: count_if over simds with more elements than
 simd<int> can have

With AVX-512 simd<char> has 64 elements, but there is no simd<int> of that
size: count_if over char, signed char and unsigned char did not compile.
---
 vir/simd_execution.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 3b7089f..ea31815 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1511,7 +1511,9 @@ case0:
     {
       using T = std::iter_value_t<It>;
       using TV = vir::simdize<T, ExecutionPolicy::_size>;
-      using IV = detail::deduced_simd<int, TV::size()>;
+      // there is no simd<int> of the size of e.g. simd<char> with AVX-512
+      using IV = detail::deduced_simd<int, TV::size() <= stdx::simd_abi::max_fixed_size<int>
+                                             ? TV::size() : 1>;
       int count = 0;
       IV countv = 0;
       vir::for_each(pol, first, last, [&](auto... x) VIR_LAMBDA_ALWAYS_INLINE {
@@ -1520,17 +1522,10 @@ case0:
           count += (popcount(pred(x)) + ...);
         else
 #endif
-          if constexpr (sizeof...(x) == 1)
-          {
-            if constexpr ((x.size(), ...) == countv.size())
-              ++where(vir::cvt(pred(x...)), countv);
-            else
-              count += popcount(pred(x...));
-          }
-        else
-          {
+          if constexpr (((x.size() == countv.size()) and ...))
             ((++where(vir::cvt(pred(x)), countv)), ...);
-          }
+          else
+            count += (popcount(pred(x)) + ...);
       });
       return count + reduce(countv);
     }
-- 
2.43.0


From 8209946d2fb2255e55d24ee56c5a41fd78cd14b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:02 +0000
Subject: [PATCH 28/34] fix: load of simdized structs whose two values are
 members of a nested struct

---
 vir/simdize.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 864dd72..e5f2d9c 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -604,8 +604,8 @@ namespace vir
 		  static_assert(N == V0::size());
 		  constexpr int N2 = N / 2;
 		  using U = typename V0::value_type;
-		  if constexpr (sizeof(U) == sizeof(vir::struct_element_t<0, T>)
-				  and sizeof(U) == sizeof(vir::struct_element_t<1, T>)
+		  if constexpr (sizeof(U) == sizeof(detail::flat_element_t<0, T>)
+				  and sizeof(U) == sizeof(detail::flat_element_t<1, T>)
 				  and std::has_single_bit(V0::size())
 				  and V0::size() <= stdx::native_simd<U>::size())
 		    {
@@ -613,9 +613,9 @@ namespace vir
 
 		      V x0, x1;
 		      // [a0 b0 a1 b1 a2 b2 a3 b3]
-		      std::memcpy(&x0, std::addressof(vir::struct_get<0>(addr[0])), sizeof(V));
+		      std::memcpy(&x0, byte_ptr, sizeof(V));
 		      // [a4 b4 a5 b5 a6 b6 a7 b7]
-		      std::memcpy(&x1, std::addressof(vir::struct_get<0>(addr[N2])), sizeof(V));
+		      std::memcpy(&x1, byte_ptr + sizeof(V), sizeof(V));
 
 		      return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
 			return base_type {
-- 
2.43.0


From 6cd3d157e80e82c1b37ee286adc2efbb38d956a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 29/34] fix: load simd_tuples of structs that contain structs

---
 vir/simdize.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index e5f2d9c..3f84492 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -17,6 +17,7 @@
   and (defined DOXYGEN or not defined __clang_major__ or __clang_major__ > 14)
 #define VIR_HAVE_SIMDIZE 1
 
+#include <array>
 #include <tuple>
 #include <iterator>
 #include "simd.h"
@@ -381,6 +382,24 @@ namespace vir
 
       static constexpr auto tuple_size_idx_seq = std::make_index_sequence<vir::struct_size_v<T>>();
 
+      /** \internal
+       * Returns the I-th member of the N objects starting at it. A member that is a struct itself is
+       * loaded like an array of such structs.
+       */
+      template <std::size_t I, typename It>
+	static constexpr std::tuple_element_t<I, tuple_type>
+	_load_member(const It& it)
+	{
+	  using V = std::tuple_element_t<I, tuple_type>;
+	  if constexpr (stdx::is_simd_v<V>)
+	    return V([&](size_t i) { return struct_get<I>(it[i]); });
+	  else
+	    return [&]<std::size_t... Js>(std::index_sequence<Js...>) {
+	      const std::array<struct_element_t<I, T>, N> members {struct_get<I>(it[Js])...};
+	      return V(members.begin());
+	    }(std::make_index_sequence<N>());
+	}
+
     public:
       /// The element type of this `simd`-like type.
       using value_type = T;
@@ -467,9 +486,7 @@ namespace vir
 	constexpr
 	simd_tuple(It it, Flags = {})
 	: elements([&]<std::size_t... Is>(std::index_sequence<Is...>) {
-	    return tuple_type {std::tuple_element_t<Is, tuple_type>([&](size_t i) {
-				 return struct_get<Is>(it[i]);
-			       })...};
+	    return tuple_type {_load_member<Is>(it)...};
 	  }(tuple_size_idx_seq))
 	{}
 
@@ -479,9 +496,7 @@ namespace vir
 	copy_from(It it, Flags = {})
 	{
 	  [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-	    ((std::get<Is>(elements) = std::tuple_element_t<Is, tuple_type>([&](size_t i) {
-					 return struct_get<Is>(it[i]);
-				       })), ...);
+	    ((std::get<Is>(elements) = _load_member<Is>(it)), ...);
 	  }(tuple_size_idx_seq);
 	}
 
-- 
2.43.0


From 58db66c255909778ecb6ca48610ef1c0e6e2cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:00 +0000
Subject: [PATCH 30/34] fix: algorithms: do not form iterators outside of the
 given range

For ranges shorter than a simd (or an unrolled step) the loop conditions computed
last - size (or first + size), which is undefined behaviour: libstdc++'s debug mode
aborts, and clang++ rejects the algorithms in constant expressions.
---
 vir/simd_execution.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index ea31815..ce20237 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -751,7 +751,7 @@ case0:
         if (std::is_constant_evaluated())
           {
             // needs element_aligned because of GCC PR111302
-            for (; first1 + (size - 1) < last1; advance(size, first1, d_first, first2...))
+            for (; last1 - first1 >= size; advance(size, first1, d_first, first2...))
               {
                 const OutV& result = simdized_load_and_invoke(op, size, first1, first2...);
                 result.copy_to(std::to_address(d_first), stdx::element_aligned);
@@ -783,8 +783,7 @@ case0:
             if constexpr (ExecutionPolicy::_unroll_by > 1)
               {
                 constexpr auto step = size * ExecutionPolicy::_unroll_by;
-                const auto unrolled_last = last1 - step;
-                for (; first1 <= unrolled_last; advance(step, first1, d_first, first2...))
+                for (; last1 - first1 >= step; advance(step, first1, d_first, first2...))
                   {
                     unroll2<ExecutionPolicy::_unroll_by>([&,size](auto i) {
                       return simdized_load_and_invoke(op, size, first1 + i * size,
@@ -795,8 +794,7 @@ case0:
                   }
               }
 
-            const auto simd_last = last1 - size;
-            for (; assume_matching_size ? first1 != last1 : first1 <= simd_last;
+            for (; assume_matching_size ? first1 != last1 : last1 - first1 >= size;
                  advance(size, first1, d_first, first2...))
               {
                 const OutV& result = simdized_load_and_invoke(op, size, first1, first2...);
@@ -1003,18 +1001,16 @@ case0:
             constexpr int lo_size = std::bit_ceil(unsigned(size)) / 2;
             constexpr int hi_size = size - lo_size;
 
-            const auto simd_last = last1 - size;
             // 'assume_matching_size' implies size is 0 or at least one simd width, and 0 has an
             // early return above
-            if (assume_matching_size or first1 <= simd_last)
+            if (assume_matching_size or last1 - first1 >= size)
               {
                 A acc = [&]() VIR_LAMBDA_ALWAYS_INLINE {
                   if constexpr (ExecutionPolicy::_unroll_by > 1)
                     {
                       constexpr std::make_index_sequence<ExecutionPolicy::_unroll_by> unroll_idx_seq;
                       constexpr auto step = size * ExecutionPolicy::_unroll_by;
-                      const auto unrolled_last = last1 - step;
-                      if (first1 + step <= unrolled_last)
+                      if (last1 - first1 >= 2 * step)
                         {
                           auto acc = [&]<std::size_t... Is>(std::index_sequence<Is...>)
                                        -> std::array<A, ExecutionPolicy::_unroll_by>
@@ -1045,7 +1041,7 @@ case0:
                               first1 += step;
                               ((first2 += step), ...);
                             }
-                          while (first1 <= unrolled_last);
+                          while (last1 - first1 >= step);
                             // tree reduction of acc into acc[0]
                             unroll<std::bit_width(unsigned(ExecutionPolicy::_unroll_by - 1))>(
                               [&](auto outer) {
@@ -1065,7 +1061,7 @@ case0:
                   ((first2 += size), ...);
                   return ret;
                 }();
-                for (; assume_matching_size ? first1 != last1 : first1 <= simd_last;
+                for (; assume_matching_size ? first1 != last1 : last1 - first1 >= size;
                      ((first1 += size), ..., (first2 += size)))
                   {
                     acc = std::invoke(reduce_op, acc,
@@ -1143,7 +1139,7 @@ case0:
       if (std::is_constant_evaluated())
         {
           // needs element_aligned because of GCC PR111302
-          for (; first + (size - 1) < last; first += size)
+          for (; last - first >= size; first += size)
             detail::simd_load_and_invoke<V, write_back>(fun, std::to_address(first),
                                                         stdx::element_aligned, detail::no_unroll);
 
@@ -1165,8 +1161,7 @@ case0:
           if constexpr (ExecutionPolicy::_unroll_by > 1)
             {
               constexpr auto step = size * ExecutionPolicy::_unroll_by;
-              const auto unrolled_last = last - step;
-              for (; first <= unrolled_last; first += step)
+              for (; last - first >= step; first += step)
                 {
                   detail::simd_load_and_invoke<V, write_back>(
                     fun, std::to_address(first), flags,
@@ -1174,8 +1169,7 @@ case0:
                 }
             }
 
-          const auto simd_last = last - size;
-          for (; assume_matching_size ? first != last : first <= simd_last; first += size)
+          for (; assume_matching_size ? first != last : last - first >= size; first += size)
             detail::simd_load_and_invoke<V, write_back>(fun, std::to_address(first), flags,
                                                         detail::no_unroll);
 
-- 
2.43.0


From 6d02f02ad0e30a232cf7476abeca49cadeb5a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:21 +0000
Subject: [PATCH 31/34] fix: transform of a zip_view: do not dereference the
 iterator of an empty range

---
 vir/simd_execution.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index ce20237..bdd8821 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1262,6 +1262,8 @@ case0:
               detail::simd_execution_range auto&& d_rg, auto op)
     {
       const auto size = std::ranges::size(rs);
+      if (size == 0) // *it is invalid
+        return std::ranges::begin(d_rg);
       const auto it = std::ranges::begin(rs);
       const auto first0 = std::addressof(std::get<0>(*it));
       return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-- 
2.43.0


From 792de193280b12aa7835195374ebe3cf8212c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:20 +0000
Subject: [PATCH 32/34] fix: simd.h: place the cold attribute of a lambda where
 clang accepts it

With VIR_CHECK_PRECONDITIONS at 4 or 5 the header failed to compile with
clang: a GNU attribute between the capture list and the parameter list is
a syntax error there.
---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index 21a7c5b..b7c51cb 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -85,7 +85,7 @@ namespace vir::detail
 #elif defined __GNUC__ and VIR_CHECK_PRECONDITIONS < 4
       __builtin_trap();
 #else
-      [&] VIR_GNU_ATTR_COLD () {
+      [&] () VIR_GNU_ATTR_COLD {
         std::fprintf(stderr, msg, args...);
       }();
       std::abort();
-- 
2.43.0


From d79ac8ffcefc66e286a215c49574b91081cc5d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:04 +0000
Subject: [PATCH 33/34] fix: precondition messages: do not use the checked
 expression as format string

The text of the expression (and of __FILE__) was part of the format string
passed to fprintf. For the precondition 'distance % size == 0' of the
algorithms this resulted in a '% s' conversion without a matching argument.
---
 vir/simd.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index b7c51cb..9aa2ed5 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -135,8 +135,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        "%sprecondition failure in '%s': " msg " ('%s' does not hold)\n",                   \
+        VIR_SIMD_LOC, VIR_PRETTY_FUNCTION_, #expr);                                         \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -149,8 +149,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        "%sprecondition failure in '%s': " msg " ('%s' does not hold)\n",                   \
+        VIR_SIMD_LOC, VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                            \
   } while(false)
 
 #else
@@ -159,8 +159,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        "%sprecondition failure in '%s': " msg " ('%s' does not hold)\n",                   \
+        VIR_SIMD_LOC, VIR_PRETTY_FUNCTION_, #expr);                                         \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -168,8 +168,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        "%sprecondition failure in '%s': " msg " ('%s' does not hold)\n",                   \
+        VIR_SIMD_LOC, VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                            \
   } while(false)
 
 #endif
-- 
2.43.0


From 4a402f5ac65a91cea11614facdbb887db0029a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:32 +0000
Subject: [PATCH 34/34] fix: simdize: structs nested three deep

struct E { P2<P2<T>> a; } was rejected with an error about the incomplete type
flat_element: the specialization for nested first members was selected also
if the first member does not have the requested element.
---
 vir/simdize.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simdize.h b/vir/simdize.h
index 3f84492..088ae9f 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -277,6 +277,7 @@ namespace vir
     template <int I, vir::reflectable_struct T>
       requires (flat_member_count_v<T> > struct_size_v<T>
 		  and I < flat_member_count_v<struct_element_t<0, T>>)
+		and requires { typename flat_element_t<I, struct_element_t<0, T>>; }
       struct flat_element<I, T>
       { using type = flat_element_t<I, struct_element_t<0, T>>; };
 
-- 
2.43.0

