From cd01b80e2d1f004c1815f4ad27f32c75d1172a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 01/22] fix: line * line swapped the e23 and e12 components of
 the product

---
 public/klein/detail/x86/x86_geometric_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/detail/x86/x86_geometric_product.hpp b/public/klein/detail/x86/x86_geometric_product.hpp
index e7de92e..67f235e 100644
--- a/public/klein/detail/x86/x86_geometric_product.hpp
+++ b/public/klein/detail/x86/x86_geometric_product.hpp
@@ -280,11 +280,11 @@ namespace detail
         __m128& p1 = *out;
         __m128& p2 = *(out + 1);
 
-        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 3, 1, 2, 1), KLN_SWIZZLE(b, 2, 3, 1, 1));
+        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 2, 1, 3, 1), KLN_SWIZZLE(b, 1, 3, 2, 1));
         p1 = _mm_xor_ps(p1, flip);
         p1 = _mm_sub_ps(
             p1,
-            _mm_mul_ps(KLN_SWIZZLE(a, 2, 3, 1, 3), KLN_SWIZZLE(b, 3, 1, 2, 3)));
+            _mm_mul_ps(KLN_SWIZZLE(a, 1, 3, 2, 3), KLN_SWIZZLE(b, 2, 1, 3, 3)));
         __m128 a2 = _mm_unpackhi_ps(a, a);
         __m128 b2 = _mm_unpackhi_ps(b, b);
         p1        = _mm_sub_ss(p1, _mm_mul_ss(a2, b2));
-- 
2.43.0


From df4728d077fa4a53db42ef5607f9ad5557dcfe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 02/22] fix: applying a rotor or motor to an array in place
 read overwritten input

---
 public/klein/detail/x86/x86_sandwich.hpp      | 30 ++++---
 .../klein/detail/x86/x86_sandwich_cxx11.inl   | 86 ++++++++++---------
 2 files changed, 64 insertions(+), 52 deletions(-)

diff --git a/public/klein/detail/x86/x86_sandwich.hpp b/public/klein/detail/x86/x86_sandwich.hpp
index 0475525..ad1b0a7 100644
--- a/public/klein/detail/x86/x86_sandwich.hpp
+++ b/public/klein/detail/x86/x86_sandwich.hpp
@@ -252,7 +252,7 @@ namespace detail
     //
     // Note: in and out are permitted to alias iff a == out.
     template <bool Variadic, bool Translate, bool InputP2>
-    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                       __m128 const& KLN_RESTRICT b,
                                       [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                       __m128* out,
@@ -364,7 +364,7 @@ namespace detail
         constexpr size_t stride = InputP2 ? 2 : 1;
         for (size_t i = 0; i != limit; ++i)
         {
-            __m128 const& p1_in = in[stride * i]; // a
+            __m128 const p1_in = in[stride * i]; // a
             __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
             __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -376,7 +376,7 @@ namespace detail
 
             if constexpr (InputP2)
             {
-                __m128 const& p2_in = in[2 * i + 1]; // d
+                __m128 const p2_in = in[2 * i + 1]; // d
                 __m128& p2_out      = out[2 * i + 1];
                 p2_out              = _mm_mul_ps(tmp, p2_in);
                 p2_out              = _mm_add_ps(
@@ -405,7 +405,7 @@ namespace detail
     // If Variadic is true, a and out must point to a contiguous block of memory
     // equivalent to __m128[count]
     template <bool Variadic = false, bool Translate = true>
-    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -497,14 +497,16 @@ namespace detail
         for (size_t i = 0; i != limit; ++i)
         {
             // Compute the lower block for components e1, e2, and e3
+            // Read before writing, a and out may be the same array
+            __m128 const ai = a[i];
             __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(ai, 1, 3, 2, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(ai, 2, 1, 3, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, ai));
 
             if constexpr (Translate)
             {
-                __m128 tmp5 = hi_dp(tmp4, a[i]);
+                __m128 tmp5 = hi_dp(tmp4, ai);
                 p           = _mm_add_ps(p, tmp5);
             }
         }
@@ -512,7 +514,7 @@ namespace detail
 
     // Apply a motor to a point
     template <bool Variadic, bool Translate>
-    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -584,15 +586,17 @@ namespace detail
         size_t limit = Variadic ? count : 1;
         for (size_t i = 0; i != limit; ++i)
         {
+            // Read before writing, a and out may be the same array
+            __m128 const ai = a[i];
             __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(ai, 2, 1, 3, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(ai, 1, 3, 2, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, ai));
 
             if constexpr (Translate)
             {
                 p = _mm_add_ps(
-                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(ai, 0, 0, 0, 0)));
             }
         }
     }
diff --git a/public/klein/detail/x86/x86_sandwich_cxx11.inl b/public/klein/detail/x86/x86_sandwich_cxx11.inl
index 48231e9..504ad2e 100644
--- a/public/klein/detail/x86/x86_sandwich_cxx11.inl
+++ b/public/klein/detail/x86/x86_sandwich_cxx11.inl
@@ -1,14 +1,14 @@
 // Implementation file for C++11 compatibility
 
 template <bool Variadic, bool Translate, bool InputP2>
-KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                   __m128 const& KLN_RESTRICT b,
                                   __m128 const* KLN_RESTRICT c,
                                   __m128* out,
                                   size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* in,
                                                     __m128 const& KLN_RESTRICT b,
                                                     __m128 const* KLN_RESTRICT c,
                                                     __m128* out,
@@ -65,7 +65,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 const p1_in = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -75,7 +75,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 const p2_in = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -90,7 +90,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -147,7 +147,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 const p1_in = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -165,7 +165,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -196,7 +196,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 const p1_in = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -206,7 +206,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 const p2_in = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -218,7 +218,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<true, false, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -249,7 +249,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 const p1_in = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -262,7 +262,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -340,7 +340,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
+swMM<false, true, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -413,7 +413,7 @@ swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
+swMM<false, false, true>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -461,7 +461,7 @@ swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<false, false, false>(__m128 const* in,
                           __m128 const& KLN_RESTRICT b,
                           __m128 const* KLN_RESTRICT c,
                           __m128* out,
@@ -502,14 +502,14 @@ swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -548,18 +548,20 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
+        // Read before writing, a and out may be the same array
+        __m128 const ai = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(ai, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(ai, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, ai));
 
-        __m128 tmp5 = hi_dp(tmp4, a[i]);
+        __m128 tmp5 = hi_dp(tmp4, ai);
         p           = _mm_add_ps(p, tmp5);
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -592,15 +594,17 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
+        // Read before writing, a and out may be the same array
+        __m128 const ai = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(ai, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(ai, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, ai));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -647,7 +651,7 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* KLN_RESTRICT a,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* a,
                                                  __m128 b,
                                                  __m128 const* KLN_RESTRICT c,
                                                  __m128* out,
@@ -685,14 +689,14 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -728,17 +732,19 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
+        // Read before writing, a and out may be the same array
+        __m128 const ai = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(ai, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(ai, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, ai));
 
-        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(ai, 0, 0, 0, 0)));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -768,15 +774,17 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
+        // Read before writing, a and out may be the same array
+        __m128 const ai = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(ai, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(ai, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, ai));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -820,7 +828,7 @@ KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* KLN_RESTRICT a,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<false, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<false, false>(__m128 const* a,
                                                  __m128 b,
                                                  __m128 const* KLN_RESTRICT c,
                                                  __m128* out,
-- 
2.43.0


From fd236304645777ef5d78b39d706a7735758ddd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 03/22] fix: assigning a translator to a motor dropped the
 scalar part

---
 public/klein/motor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/motor.hpp b/public/klein/motor.hpp
index e4a60f4..4d9c4fb 100644
--- a/public/klein/motor.hpp
+++ b/public/klein/motor.hpp
@@ -127,7 +127,7 @@ public:
 
     motor& KLN_VEC_CALL operator=(translator t) noexcept
     {
-        p1_ = _mm_setzero_ps();
+        p1_ = _mm_set_ss(1.f);
         p2_ = t.p2_;
         return *this;
     }
-- 
2.43.0


From cdfc22c551469569d64e497f65248a160087e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 04/22] fix: inverse of a rotor ignored its scalar part

---
 public/klein/rotor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 1ec3559..c8abf84 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -139,7 +139,7 @@ public:
 
     void invert() noexcept
     {
-        __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p1_, p1_));
+        __m128 inv_norm = detail::rsqrt_nr1(detail::dp_bc(p1_, p1_));
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_xor_ps(_mm_set_ps(-0.f, -0.f, -0.f, 0.f), p1_);
-- 
2.43.0


From ba80f63f17abeecd95e00243af68f05c7eb1e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 05/22] fix: normalizing a plane did not scale its e0 component
 with the normal

---
 public/klein/plane.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/public/klein/plane.hpp b/public/klein/plane.hpp
index 83271e2..2576875 100644
--- a/public/klein/plane.hpp
+++ b/public/klein/plane.hpp
@@ -65,12 +65,7 @@ public:
     void normalize() noexcept
     {
         __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p0_, p0_));
-#ifdef KLEIN_SSE_4_1
-        inv_norm = _mm_blend_ps(inv_norm, _mm_set_ss(1.f), 1);
-#else
-        inv_norm = _mm_add_ps(inv_norm, _mm_set_ss(1.f));
-#endif
-        p0_ = _mm_mul_ps(inv_norm, p0_);
+        p0_             = _mm_mul_ps(inv_norm, p0_);
     }
 
     /// Return a normalized copy of this plane.
-- 
2.43.0


From 0ded5beef60b06da0116e0c0fc3bef6d172e0b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 06/22] fix: norm of a plane, line or branch without extent was
 nan

---
 public/klein/detail/x86/x86_sse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/public/klein/detail/x86/x86_sse.hpp b/public/klein/detail/x86/x86_sse.hpp
index ea29a13..286fbae 100644
--- a/public/klein/detail/x86/x86_sse.hpp
+++ b/public/klein/detail/x86/x86_sse.hpp
@@ -113,7 +113,9 @@ namespace detail
     // Sqrt Newton-Raphson is evaluated in terms of rsqrt_nr1
     KLN_INLINE __m128 KLN_VEC_CALL sqrt_nr1(__m128 a) noexcept
     {
-        return _mm_mul_ps(a, rsqrt_nr1(a));
+        // The reciprocal square root of zero is infinite, mask it out
+        return _mm_and_ps(_mm_cmpneq_ps(a, _mm_setzero_ps()),
+                          _mm_mul_ps(a, rsqrt_nr1(a)));
     }
 
 #ifdef KLEIN_SSE_4_1
-- 
2.43.0


From 5b260861e3f1b4cd9884379b95e39e9449372b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 07/22] fix: exponential of the zero branch was nan

---
 public/klein/exp_log.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/exp_log.hpp b/public/klein/exp_log.hpp
index 44e6a1d..736a0d6 100644
--- a/public/klein/exp_log.hpp
+++ b/public/klein/exp_log.hpp
@@ -111,7 +111,7 @@ namespace kln
     float ang;
     _mm_store_ss(&ang, detail::sqrt_nr1(detail::hi_dp(b.p1_, b.p1_)));
     float cos_ang = std::cos(ang);
-    float sin_ang = std::sin(ang) / ang;
+    float sin_ang = ang == 0.f ? 1.f : std::sin(ang) / ang;
 
     rotor out;
     out.p1_ = _mm_mul_ps(_mm_set1_ps(sin_ang), b.p1_);
-- 
2.43.0


From d7c7c00c029643d5f16ac334f6c3a08620df4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 08/22] fix: logarithm of the identity rotor was nan

---
 public/klein/exp_log.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/public/klein/exp_log.hpp b/public/klein/exp_log.hpp
index 736a0d6..09c8346 100644
--- a/public/klein/exp_log.hpp
+++ b/public/klein/exp_log.hpp
@@ -90,10 +90,18 @@ namespace kln
 {
     float cos_ang;
     _mm_store_ss(&cos_ang, r.p1_);
-    float ang     = std::acos(cos_ang);
-    float sin_ang = std::sin(ang);
+    float sin_ang;
+    _mm_store_ss(&sin_ang, detail::sqrt_nr1(detail::hi_dp(r.p1_, r.p1_)));
 
     branch out;
+    if (sin_ang == 0.f)
+    {
+        // No rotation
+        out.p1_ = _mm_setzero_ps();
+        return out;
+    }
+    float ang = std::atan2(sin_ang, cos_ang);
+
     out.p1_ = _mm_mul_ps(r.p1_, detail::rcp_nr1(_mm_set1_ps(sin_ang)));
     out.p1_ = _mm_mul_ps(out.p1_, _mm_set1_ps(ang));
 #ifdef KLEIN_SSE_4_1
-- 
2.43.0


From e771ad7402948d2740419497546c24e9beb5d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 09/22] fix: logarithm of half turns and of negated
 translations was wrong

---
 public/klein/detail/x86/x86_exp_log.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index 4775933..c654778 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -161,8 +161,9 @@ namespace detail
 
         if (mask == 0xf)
         {
+            // The scalar part of the motor is 1 or -1
             p1_out = _mm_setzero_ps();
-            p2_out = p2;
+            p2_out = _mm_mul_ps(p2, KLN_SWIZZLE(p1, 0, 0, 0, 0));
             return;
         }
 
@@ -194,9 +195,10 @@ namespace detail
         // s_scalar = sinu
         // t_scalar = v cosu
 
-        bool p_zero = std::abs(p) < 1e-6;
-        float u = p_zero ? std::atan2(-q, t_scalar) : std::atan2(s_scalar, p);
-        float v = p_zero ? -q / s_scalar : t_scalar / p;
+        // Of the two expressions for v, use the one dividing by the larger
+        // of sinu and cosu
+        float u = std::atan2(s_scalar, p);
+        float v = std::abs(p) < s_scalar ? -q / s_scalar : t_scalar / p;
 
         // Now, (u + v e0123) * n when exponentiated will give us the motor, so
         // (u + v e0123) * n is the logarithm. To proceed, we need to compute
-- 
2.43.0


From af871d676e02e96a1187f199f8a989d154f43f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 10/22] fix: store of points, rotors and branches required an
 aligned buffer

---
 public/klein/line.hpp  | 2 +-
 public/klein/point.hpp | 2 +-
 public/klein/rotor.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/klein/line.hpp b/public/klein/line.hpp
index 55f24f1..6dc9ee9 100644
--- a/public/klein/line.hpp
+++ b/public/klein/line.hpp
@@ -342,7 +342,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float e12() const noexcept
diff --git a/public/klein/point.hpp b/public/klein/point.hpp
index 4542a98..5b93630 100644
--- a/public/klein/point.hpp
+++ b/public/klein/point.hpp
@@ -51,7 +51,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* data) const noexcept
     {
-        _mm_store_ps(data, p3_);
+        _mm_storeu_ps(data, p3_);
     }
 
     /// Normalize this point (division is done via rcpps with an additional
diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index c8abf84..e15a09a 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -393,7 +393,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float scalar() const noexcept
-- 
2.43.0


From a3076392bbbe144cadbdb3433360984a0215f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 11/22] fix: last column of rotor matrices was uninitialized

---
 public/klein/detail/x86/x86_matrix.hpp       | 1 +
 public/klein/detail/x86/x86_matrix_cxx11.inl | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/public/klein/detail/x86/x86_matrix.hpp b/public/klein/detail/x86/x86_matrix.hpp
index d68fdd5..c5364b5 100644
--- a/public/klein/detail/x86/x86_matrix.hpp
+++ b/public/klein/detail/x86/x86_matrix.hpp
@@ -106,6 +106,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12(__m128 b,
     // 2(b1 c2 - b2 c1 - b0 c3 - b3 c0)
     // b0^2 + b1^2 + b2^2 + b3^2
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
     if constexpr (Translate)
     {
         c3 = _mm_mul_ps(b, KLN_SWIZZLE(*c, 0, 1, 3, 1));
diff --git a/public/klein/detail/x86/x86_matrix_cxx11.inl b/public/klein/detail/x86/x86_matrix_cxx11.inl
index 0f1e1f8..173e259 100644
--- a/public/klein/detail/x86/x86_matrix_cxx11.inl
+++ b/public/klein/detail/x86/x86_matrix_cxx11.inl
@@ -144,6 +144,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, true>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(c3, _mm_set_ps(1.f, 0.f, 0.f, 0.f), 0b1000);
 #else
@@ -187,6 +188,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, false>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(
         c3, _mm_set_ps(b0_2 + b1_2 + b2_2 + b3_2, 0.f, 0.f, 0.f), 0b1000);
-- 
2.43.0


From cd52cbb7ec260420d118637a0dbd5860140e40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 12/22] fix: euler angles of a rotor tested for the poles of
 another convention

---
 public/klein/rotor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index e15a09a..c610d4c 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -203,7 +203,7 @@ public:
         euler_angles ea;
         float buf[4];
         store(buf);
-        float test = buf[1] * buf[2] + buf[3] * buf[0];
+        float test = buf[0] * buf[2] - buf[1] * buf[3];
 
         if (test > 0.4999f)
         {
@@ -214,7 +214,7 @@ public:
         }
         else if (test < -0.4999f)
         {
-            ea.roll  = -2.f * std::atan2(buf[1], buf[0]);
+            ea.roll  = 2.f * std::atan2(buf[1], buf[0]);
             ea.pitch = -pi_2;
             ea.yaw   = 0.f;
             return ea;
-- 
2.43.0


From d0ed41bf2ea6c6d463e45d4d3cc27ce4d6d9a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 13/22] fix: symbolic terms with a zero coefficient are dropped
 when pushed

---
 sym/ga.cpp   | 5 +++++
 sym/poly.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 4700893..e095a37 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -214,6 +214,11 @@ mv::mv(algebra const& a) noexcept
 
 mv& mv::push(uint32_t e, poly const& p) noexcept
 {
+    if (p.terms.empty())
+    {
+        return *this;
+    }
+
     auto it = terms.find(e);
     if (it == terms.end())
     {
diff --git a/sym/poly.cpp b/sym/poly.cpp
index 9a1a606..3b9600f 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -150,6 +150,11 @@ mon operator*(mon const& lhs, mon const& rhs) noexcept
 
 poly& poly::push(mon const& m, float f) noexcept
 {
+    if (f == 0.f)
+    {
+        return *this;
+    }
+
     auto it = terms.find(m);
     if (it == terms.end())
     {
-- 
2.43.0


From 102b3228cf36c891d0cd5aaea0a75672274a3010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 14/22] fix: print the constants one and minus one

---
 sym/poly.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sym/poly.cpp b/sym/poly.cpp
index 3b9600f..3d5e09a 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -276,6 +276,12 @@ operator<<(std::ostream& os,
 std::ostream& operator<<(std::ostream& os,
                          std::map<mon, float>::const_iterator const& it) noexcept
 {
+    if (it->first.factors.empty())
+    {
+        os << it->second;
+        return os;
+    }
+
     if (it->second == -1.f)
     {
         os << '-';
@@ -285,11 +291,6 @@ std::ostream& operator<<(std::ostream& os,
         os << it->second;
     }
 
-    if (it->first.factors.empty())
-    {
-        return os;
-    }
-
     auto factor = it->first.factors.cbegin();
     os << factor;
     ++factor;
-- 
2.43.0


From af9158071f03e69b579b645d427f2007bc6a46fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 15/22] fix: tokenizing ends on unknown characters and on an
 identifier of one character

---
 sym/parser.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 56b2b64..793f68a 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -135,18 +135,17 @@ static element tokenize_element(std::string::const_iterator& it,
 static identifier tokenize_identifier(std::string::const_iterator& it,
                                       std::string::const_iterator const& end)
 {
-    char const* start = &*it;
+    std::string::const_iterator start = it;
 
     for (; it != end; ++it)
     {
-        if (!std::isalnum(*it))
+        if (!std::isalnum(static_cast<unsigned char>(*it)))
         {
             break;
         }
     }
 
-    size_t size = &*it - start;
-    return {start, size};
+    return {&*start, static_cast<size_t>(it - start)};
 }
 
 std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
@@ -199,18 +198,19 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
             t.type = token_type::number;
             t.num  = tokenize_number(it, input.end());
         }
-        else if (it != input.end() - 1)
+        else if (c == 'e' && it + 1 != input.end() && std::isdigit(*(it + 1)))
         {
-            if (c == 'e' && std::isdigit(*(it + 1)))
-            {
-                t.type = token_type::element;
-                t.e    = tokenize_element(it, input.end(), algebra_);
-            }
-            else
-            {
-                t.type = token_type::identifier;
-                t.id   = tokenize_identifier(it, input.end());
-            }
+            t.type = token_type::element;
+            t.e    = tokenize_element(it, input.end(), algebra_);
+        }
+        else if (std::isalpha(static_cast<unsigned char>(c)))
+        {
+            t.type = token_type::identifier;
+            t.id   = tokenize_identifier(it, input.end());
+        }
+        else
+        {
+            throw std::runtime_error("Unexpected character encountered");
         }
         out.emplace_back(t);
     }
-- 
2.43.0


From 5b64bd80187d4c0a6e659df11ada8a3674d32ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 16/22] fix: numbers of 32 or more digits overflowed the token
 buffer

---
 sym/parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 793f68a..bd2f29e 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -62,19 +62,19 @@ std::ostream& operator<<(std::ostream& os, std::vector<token> const& tokens)
 static float tokenize_number(std::string::const_iterator& it,
                              std::string::const_iterator const& end)
 {
-    char buf[32];
+    char buf[33];
     size_t buf_size = 0;
 
     for (auto tmp = it; tmp != end; ++tmp)
     {
-        if (buf_size > 32)
-        {
-            throw std::runtime_error(
-                "Number with greater than 32 digits encountered");
-        }
-
         if (std::isdigit(*tmp) || *tmp == '.')
         {
+            if (buf_size == 32)
+            {
+                throw std::runtime_error(
+                    "Number with greater than 32 digits encountered");
+            }
+
             buf[buf_size++] = *tmp;
         }
         else
-- 
2.43.0


From d7f8abe37c9c162ecb8e851d01b7ef2ccefe576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 17/22] fix: reject basis indices that the algebra does not
 have, keep all those it has

---
 sym/parser.cpp | 6 ++++++
 sym/parser.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index bd2f29e..f695594 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -110,6 +110,12 @@ static element tokenize_element(std::string::const_iterator& it,
         {
             uint8_t bit = *it - '0';
 
+            if (((1u << bit) & algebra_.pss()) == 0)
+            {
+                throw std::runtime_error(
+                    "Basis index exceeds the dimension of the algebra");
+            }
+
             if ((out.value & (1 << bit)) > 0)
             {
                 throw std::runtime_error("Duplicate basis index");
diff --git a/sym/parser.hpp b/sym/parser.hpp
index e437112..a57a6fc 100644
--- a/sym/parser.hpp
+++ b/sym/parser.hpp
@@ -23,7 +23,7 @@ struct identifier
 
 struct element
 {
-    uint8_t value;
+    uint16_t value;
     bool negative;
 };
 
-- 
2.43.0


From 0aeb26965ae67f71b1bc03e08de5d8c589c83e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 18/22] fix: reject input that continues after an expression

---
 sym/parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index f695594..1d2b20e 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -444,6 +444,11 @@ mv parse(std::string const& input, algebra const& algebra_)
 {
     std::vector<token> tokens = tokenize(input, algebra_);
 
-    auto it = tokens.cbegin();
-    return parse_expr(it, tokens.cend(), algebra_);
+    auto it   = tokens.cbegin();
+    mv result = parse_expr(it, tokens.cend(), algebra_);
+    if (it->type != token_type::eof)
+    {
+        throw std::runtime_error("Unexpected token after expression");
+    }
+    return result;
 }
\ No newline at end of file
-- 
2.43.0


From 73f72b029ff552d1e56c5adf5b0ddceabec968c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 19/22] fix: geometric product of elements beyond the eighth
 dimension

---
 sym/ga.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index e095a37..805a59c 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -42,8 +42,8 @@ int32_t algebra::mul(uint32_t lhs, uint32_t rhs) const noexcept
 
     for (uint32_t i = 0; i != dim_; ++i)
     {
-        uint8_t index = dim_ - i - 1;
-        uint8_t bit   = 1 << index;
+        uint32_t index = dim_ - i - 1;
+        uint32_t bit   = 1u << index;
         bool lhs_e    = (lhs & bit) > 0;
         bool rhs_e    = (rhs & bit) > 0;
 
-- 
2.43.0


From 2a3e8b962794c6f9804efb2c88034de59cba4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 20/22] fix: subtracting a symbolic multivector from itself in
 place

---
 sym/ga.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 805a59c..0c2337b 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -293,6 +293,13 @@ mv& mv::operator+=(mv const& other) noexcept
 
 mv& mv::operator-=(mv const& other) noexcept
 {
+    if (this == &other)
+    {
+        // Every term cancels, including the one being visited
+        terms.clear();
+        return *this;
+    }
+
     for (auto&& [e, p] : other.terms)
     {
         push(e, -p);
-- 
2.43.0


From f6e94e2d53d511785a3e92278a60926485300245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 21/22] fix: only a leading dot or number sign makes a line a
 command or comment

---
 sym/repl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sym/repl.cpp b/sym/repl.cpp
index 8415174..76eabe0 100644
--- a/sym/repl.cpp
+++ b/sym/repl.cpp
@@ -48,6 +48,7 @@ void repl::run()
             else
             {
                 should_parse = true;
+                break;
             }
         }
 
-- 
2.43.0


From 3717c17504415ab0eebb87b089d796bf72dc8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 22/22] fix: deeply nested parentheses exhausted the stack

---
 sym/parser.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 1d2b20e..736024c 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -444,6 +444,23 @@ mv parse(std::string const& input, algebra const& algebra_)
 {
     std::vector<token> tokens = tokenize(input, algebra_);
 
+    // Parentheses are parsed recursively, keep clear of the end of the stack
+    size_t depth = 0;
+    for (auto&& t : tokens)
+    {
+        if (t.type == token_type::delimiter)
+        {
+            if (t.delimiter == '(' && ++depth > 1000)
+            {
+                throw std::runtime_error("Expression nested too deeply");
+            }
+            else if (t.delimiter == ')' && depth > 0)
+            {
+                --depth;
+            }
+        }
+    }
+
     auto it   = tokens.cbegin();
     mv result = parse_expr(it, tokens.cend(), algebra_);
     if (it->type != token_type::eof)
-- 
2.43.0

