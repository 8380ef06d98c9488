From 49cd93f71c94a8f7692905afe5da551d2b4d50c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 01/22] fix: in-place array application of rotors and motors
 reads inputs already overwritten

---
 public/klein/detail/x86/x86_sandwich.hpp      | 30 +++++----
 .../klein/detail/x86/x86_sandwich_cxx11.inl   | 64 +++++++++++--------
 2 files changed, 53 insertions(+), 41 deletions(-)

diff --git a/public/klein/detail/x86/x86_sandwich.hpp b/public/klein/detail/x86/x86_sandwich.hpp
index 0475525..94b939a 100644
--- a/public/klein/detail/x86/x86_sandwich.hpp
+++ b/public/klein/detail/x86/x86_sandwich.hpp
@@ -252,7 +252,7 @@ namespace detail
     //
     // Note: in and out are permitted to alias iff a == out.
     template <bool Variadic, bool Translate, bool InputP2>
-    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                       __m128 const& KLN_RESTRICT b,
                                       [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                       __m128* out,
@@ -364,7 +364,7 @@ namespace detail
         constexpr size_t stride = InputP2 ? 2 : 1;
         for (size_t i = 0; i != limit; ++i)
         {
-            __m128 const& p1_in = in[stride * i]; // a
+            __m128 const p1_in  = in[stride * i]; // a
             __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
             __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -376,7 +376,7 @@ namespace detail
 
             if constexpr (InputP2)
             {
-                __m128 const& p2_in = in[2 * i + 1]; // d
+                __m128 const p2_in  = in[2 * i + 1]; // d
                 __m128& p2_out      = out[2 * i + 1];
                 p2_out              = _mm_mul_ps(tmp, p2_in);
                 p2_out              = _mm_add_ps(
@@ -405,7 +405,7 @@ namespace detail
     // If Variadic is true, a and out must point to a contiguous block of memory
     // equivalent to __m128[count]
     template <bool Variadic = false, bool Translate = true>
-    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -497,14 +497,16 @@ namespace detail
         for (size_t i = 0; i != limit; ++i)
         {
             // Compute the lower block for components e1, e2, and e3
+            // Copied because in-place application permits a == out
+            __m128 const a_in = a[i];
             __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 1, 3, 2, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 2, 1, 3, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
 
             if constexpr (Translate)
             {
-                __m128 tmp5 = hi_dp(tmp4, a[i]);
+                __m128 tmp5 = hi_dp(tmp4, a_in);
                 p           = _mm_add_ps(p, tmp5);
             }
         }
@@ -512,7 +514,7 @@ namespace detail
 
     // Apply a motor to a point
     template <bool Variadic, bool Translate>
-    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -584,15 +586,17 @@ namespace detail
         size_t limit = Variadic ? count : 1;
         for (size_t i = 0; i != limit; ++i)
         {
+            // Copied because in-place application permits a == out
+            __m128 const a_in = a[i];
             __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 2, 1, 3, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 1, 3, 2, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
 
             if constexpr (Translate)
             {
                 p = _mm_add_ps(
-                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a_in, 0, 0, 0, 0)));
             }
         }
     }
diff --git a/public/klein/detail/x86/x86_sandwich_cxx11.inl b/public/klein/detail/x86/x86_sandwich_cxx11.inl
index 48231e9..bcc17e9 100644
--- a/public/klein/detail/x86/x86_sandwich_cxx11.inl
+++ b/public/klein/detail/x86/x86_sandwich_cxx11.inl
@@ -8,7 +8,7 @@ KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
                                   size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* in,
                                                     __m128 const& KLN_RESTRICT b,
                                                     __m128 const* KLN_RESTRICT c,
                                                     __m128* out,
@@ -65,7 +65,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 const p1_in  = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -75,7 +75,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 const p2_in  = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -90,7 +90,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -147,7 +147,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 const p1_in  = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -165,7 +165,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -196,7 +196,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 const p1_in  = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -206,7 +206,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 const p2_in  = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -218,7 +218,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<true, false, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -249,7 +249,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 const p1_in  = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -509,7 +509,7 @@ KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -548,18 +548,20 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
+        // Copied because in-place application permits a == out
+        __m128 const a_in = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
 
-        __m128 tmp5 = hi_dp(tmp4, a[i]);
+        __m128 tmp5 = hi_dp(tmp4, a_in);
         p           = _mm_add_ps(p, tmp5);
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -592,10 +594,12 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
+        // Copied because in-place application permits a == out
+        __m128 const a_in = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
     }
 }
 
@@ -692,7 +696,7 @@ KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -728,17 +732,19 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
+        // Copied because in-place application permits a == out
+        __m128 const a_in = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
 
-        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a_in, 0, 0, 0, 0)));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -768,10 +774,12 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
+        // Copied because in-place application permits a == out
+        __m128 const a_in = a[i];
         __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_in, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_in, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_in));
     }
 }
 
-- 
2.43.0


From 71a9ff0efd571f95a7c62985cd50e1414271fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 02/22] fix: assigning a translator to a motor drops the unit
 scalar part

---
 public/klein/motor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/motor.hpp b/public/klein/motor.hpp
index e4a60f4..4d9c4fb 100644
--- a/public/klein/motor.hpp
+++ b/public/klein/motor.hpp
@@ -127,7 +127,7 @@ public:
 
     motor& KLN_VEC_CALL operator=(translator t) noexcept
     {
-        p1_ = _mm_setzero_ps();
+        p1_ = _mm_set_ss(1.f);
         p2_ = t.p2_;
         return *this;
     }
-- 
2.43.0


From 6008bc5d5a2c1c5770878e5bfe508f7e0d755c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 03/22] fix: rotor::invert ignores the scalar part in the
 squared norm

---
 public/klein/rotor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 1ec3559..c8abf84 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -139,7 +139,7 @@ public:
 
     void invert() noexcept
     {
-        __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p1_, p1_));
+        __m128 inv_norm = detail::rsqrt_nr1(detail::dp_bc(p1_, p1_));
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_xor_ps(_mm_set_ps(-0.f, -0.f, -0.f, 0.f), p1_);
-- 
2.43.0


From f70f256b74239d1a38667384a4eaacbf8433d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 04/22] fix: plane::normalize rescales e0 when SSE4.1 is not
 available

---
 public/klein/plane.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/klein/plane.hpp b/public/klein/plane.hpp
index 83271e2..9ea46e0 100644
--- a/public/klein/plane.hpp
+++ b/public/klein/plane.hpp
@@ -68,6 +68,8 @@ public:
 #ifdef KLEIN_SSE_4_1
         inv_norm = _mm_blend_ps(inv_norm, _mm_set_ss(1.f), 1);
 #else
+        inv_norm = _mm_and_ps(
+            inv_norm, _mm_castsi128_ps(_mm_set_epi32(-1, -1, -1, 0)));
         inv_norm = _mm_add_ps(inv_norm, _mm_set_ss(1.f));
 #endif
         p0_ = _mm_mul_ps(inv_norm, p0_);
-- 
2.43.0


From dd6469812502cfa1702f11d05281c9da71a8e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 05/22] fix: line * line swaps the e23 and e12 components of
 the commutator

---
 public/klein/detail/x86/x86_geometric_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/detail/x86/x86_geometric_product.hpp b/public/klein/detail/x86/x86_geometric_product.hpp
index e7de92e..67f235e 100644
--- a/public/klein/detail/x86/x86_geometric_product.hpp
+++ b/public/klein/detail/x86/x86_geometric_product.hpp
@@ -280,11 +280,11 @@ namespace detail
         __m128& p1 = *out;
         __m128& p2 = *(out + 1);
 
-        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 3, 1, 2, 1), KLN_SWIZZLE(b, 2, 3, 1, 1));
+        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 2, 1, 3, 1), KLN_SWIZZLE(b, 1, 3, 2, 1));
         p1 = _mm_xor_ps(p1, flip);
         p1 = _mm_sub_ps(
             p1,
-            _mm_mul_ps(KLN_SWIZZLE(a, 2, 3, 1, 3), KLN_SWIZZLE(b, 3, 1, 2, 3)));
+            _mm_mul_ps(KLN_SWIZZLE(a, 1, 3, 2, 3), KLN_SWIZZLE(b, 2, 1, 3, 3)));
         __m128 a2 = _mm_unpackhi_ps(a, a);
         __m128 b2 = _mm_unpackhi_ps(b, b);
         p1        = _mm_sub_ss(p1, _mm_mul_ss(a2, b2));
-- 
2.43.0


From 563f99fa60ea12e5bf436cc2f32cf0cfcfdadc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/22] fix: store(float*) faults on caller arrays that are not
 16-byte aligned

---
 public/klein/line.hpp  | 2 +-
 public/klein/point.hpp | 2 +-
 public/klein/rotor.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/klein/line.hpp b/public/klein/line.hpp
index 55f24f1..6dc9ee9 100644
--- a/public/klein/line.hpp
+++ b/public/klein/line.hpp
@@ -342,7 +342,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float e12() const noexcept
diff --git a/public/klein/point.hpp b/public/klein/point.hpp
index 4542a98..5b93630 100644
--- a/public/klein/point.hpp
+++ b/public/klein/point.hpp
@@ -51,7 +51,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* data) const noexcept
     {
-        _mm_store_ps(data, p3_);
+        _mm_storeu_ps(data, p3_);
     }
 
     /// Normalize this point (division is done via rcpps with an additional
diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index c8abf84..e15a09a 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -393,7 +393,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float scalar() const noexcept
-- 
2.43.0


From 7b4da08fa0d74ecf7caff76385c1a447601e9c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 07/22] fix: rotor::as_mat3x4/as_mat4x4 leave the translation
 column uninitialised

---
 public/klein/detail/x86/x86_matrix.hpp       | 4 ++++
 public/klein/detail/x86/x86_matrix_cxx11.inl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/public/klein/detail/x86/x86_matrix.hpp b/public/klein/detail/x86/x86_matrix.hpp
index d68fdd5..9c0c4e5 100644
--- a/public/klein/detail/x86/x86_matrix.hpp
+++ b/public/klein/detail/x86/x86_matrix.hpp
@@ -118,6 +118,10 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12(__m128 b,
         tmp = _mm_mul_ps(KLN_SWIZZLE(b, 0, 1, 3, 2), KLN_SWIZZLE(*c, 0, 2, 1, 3));
         c3 = _mm_mul_ps(_mm_set_ps(0.f, 2.f, 2.f, 2.f), _mm_sub_ps(tmp, c3));
     }
+    else
+    {
+        c3 = _mm_setzero_ps();
+    }
     if constexpr (Normalized)
     {
 #    ifdef KLEIN_SSE_4_1
diff --git a/public/klein/detail/x86/x86_matrix_cxx11.inl b/public/klein/detail/x86/x86_matrix_cxx11.inl
index 0f1e1f8..173e259 100644
--- a/public/klein/detail/x86/x86_matrix_cxx11.inl
+++ b/public/klein/detail/x86/x86_matrix_cxx11.inl
@@ -144,6 +144,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, true>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(c3, _mm_set_ps(1.f, 0.f, 0.f, 0.f), 0b1000);
 #else
@@ -187,6 +188,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, false>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(
         c3, _mm_set_ps(b0_2 + b1_2 + b2_2 + b3_2, 0.f, 0.f, 0.f), 0b1000);
-- 
2.43.0


From 745324ce9d5b2416a03ef3cbe9d12d4a62beb7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 08/22] fix: log of a motor rotating by pi loses the rotation
 angle

---
 public/klein/detail/x86/x86_exp_log.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index 4775933..592119b 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -195,7 +195,7 @@ namespace detail
         // t_scalar = v cosu
 
         bool p_zero = std::abs(p) < 1e-6;
-        float u = p_zero ? std::atan2(-q, t_scalar) : std::atan2(s_scalar, p);
+        float u = std::atan2(s_scalar, p);
         float v = p_zero ? -q / s_scalar : t_scalar / p;
 
         // Now, (u + v e0123) * n when exponentiated will give us the motor, so
-- 
2.43.0


From f52e99762e4de2b28c6d6f74615e3e34748c4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 09/22] fix: sqrt_nr1(0) is NaN, so the norm of a vanishing
 plane is NaN

---
 public/klein/detail/x86/x86_sse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public/klein/detail/x86/x86_sse.hpp b/public/klein/detail/x86/x86_sse.hpp
index ea29a13..3e4017a 100644
--- a/public/klein/detail/x86/x86_sse.hpp
+++ b/public/klein/detail/x86/x86_sse.hpp
@@ -113,7 +113,10 @@ namespace detail
     // Sqrt Newton-Raphson is evaluated in terms of rsqrt_nr1
     KLN_INLINE __m128 KLN_VEC_CALL sqrt_nr1(__m128 a) noexcept
     {
-        return _mm_mul_ps(a, rsqrt_nr1(a));
+        // The reciprocal square root of zero is infinite, so zero lanes are
+        // masked to avoid producing a NaN
+        return _mm_and_ps(_mm_cmpneq_ps(a, _mm_setzero_ps()),
+                          _mm_mul_ps(a, rsqrt_nr1(a)));
     }
 
 #ifdef KLEIN_SSE_4_1
-- 
2.43.0


From 44c2891d0c4c0b6c9e7f2771d6fc6852cbb8d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 10/22] fix: exp of the zero branch and log of the identity
 rotor are NaN

---
 public/klein/exp_log.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/public/klein/exp_log.hpp b/public/klein/exp_log.hpp
index 44e6a1d..46da905 100644
--- a/public/klein/exp_log.hpp
+++ b/public/klein/exp_log.hpp
@@ -94,6 +94,12 @@ namespace kln
     float sin_ang = std::sin(ang);
 
     branch out;
+    if (sin_ang == 0.f)
+    {
+        // The logarithm of the identity rotor is the zero branch
+        out.p1_ = _mm_setzero_ps();
+        return out;
+    }
     out.p1_ = _mm_mul_ps(r.p1_, detail::rcp_nr1(_mm_set1_ps(sin_ang)));
     out.p1_ = _mm_mul_ps(out.p1_, _mm_set1_ps(ang));
 #ifdef KLEIN_SSE_4_1
@@ -111,7 +117,7 @@ namespace kln
     float ang;
     _mm_store_ss(&ang, detail::sqrt_nr1(detail::hi_dp(b.p1_, b.p1_)));
     float cos_ang = std::cos(ang);
-    float sin_ang = std::sin(ang) / ang;
+    float sin_ang = ang == 0.f ? 1.f : std::sin(ang) / ang;
 
     rotor out;
     out.p1_ = _mm_mul_ps(_mm_set1_ps(sin_ang), b.p1_);
-- 
2.43.0


From 211d8d3a4e61808c5d7f4034b26be164e93a9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 11/22] fix: rotor::as_euler_angles tests the wrong axis for
 gimbal lock

---
 public/klein/rotor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index e15a09a..c610d4c 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -203,7 +203,7 @@ public:
         euler_angles ea;
         float buf[4];
         store(buf);
-        float test = buf[1] * buf[2] + buf[3] * buf[0];
+        float test = buf[0] * buf[2] - buf[1] * buf[3];
 
         if (test > 0.4999f)
         {
@@ -214,7 +214,7 @@ public:
         }
         else if (test < -0.4999f)
         {
-            ea.roll  = -2.f * std::atan2(buf[1], buf[0]);
+            ea.roll  = 2.f * std::atan2(buf[1], buf[0]);
             ea.pitch = -pi_2;
             ea.yaw   = 0.f;
             return ea;
-- 
2.43.0


From 45bed49f60ec7703ed03f5df4a30ed017b8d5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 12/22] fix: rotor.hpp, inner_product.hpp and util.hpp cannot
 be included on their own

---
 public/klein/rotor.hpp | 1 +
 public/klein/util.hpp  | 1 -
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index c610d4c..8d906d8 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -3,6 +3,7 @@
 #include "detail/matrix.hpp"
 #include "direction.hpp"
 #include "line.hpp"
+#include "mat3x4.hpp"
 #include "mat4x4.hpp"
 #include "plane.hpp"
 #include "point.hpp"
diff --git a/public/klein/util.hpp b/public/klein/util.hpp
index 801d172..d646e77 100644
--- a/public/klein/util.hpp
+++ b/public/klein/util.hpp
@@ -7,7 +7,6 @@
 #include <cstdint>
 
 #include "detail/sse.hpp"
-#include "projection.hpp"
 
 namespace kln
 {
-- 
2.43.0


From e2931a64ff9712ac2dcff96c9df47cf454e6eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 13/22] fix: tokenizing a 32 digit number writes past the end
 of the buffer

---
 sym/parser.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 56b2b64..422368e 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -67,14 +67,15 @@ static float tokenize_number(std::string::const_iterator& it,
 
     for (auto tmp = it; tmp != end; ++tmp)
     {
-        if (buf_size > 32)
-        {
-            throw std::runtime_error(
-                "Number with greater than 32 digits encountered");
-        }
-
         if (std::isdigit(*tmp) || *tmp == '.')
         {
+            // Reserve the last character for the terminating null
+            if (buf_size == sizeof(buf) - 1)
+            {
+                throw std::runtime_error(
+                    "Number with greater than 31 digits encountered");
+            }
+
             buf[buf_size++] = *tmp;
         }
         else
-- 
2.43.0


From c815bf83e24c565454db8aa1447f02b3b2883331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 14/22] fix: the tokenizer does not terminate on a trailing one
 letter name or an unknown character

---
 sym/parser.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 422368e..eec0a88 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -137,6 +137,7 @@ static identifier tokenize_identifier(std::string::const_iterator& it,
                                       std::string::const_iterator const& end)
 {
     char const* start = &*it;
+    size_t size       = 0;
 
     for (; it != end; ++it)
     {
@@ -144,9 +145,9 @@ static identifier tokenize_identifier(std::string::const_iterator& it,
         {
             break;
         }
+        ++size;
     }
 
-    size_t size = &*it - start;
     return {start, size};
 }
 
@@ -200,18 +201,19 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
             t.type = token_type::number;
             t.num  = tokenize_number(it, input.end());
         }
-        else if (it != input.end() - 1)
+        else if (c == 'e' && it + 1 != input.end() && std::isdigit(*(it + 1)))
         {
-            if (c == 'e' && std::isdigit(*(it + 1)))
-            {
-                t.type = token_type::element;
-                t.e    = tokenize_element(it, input.end(), algebra_);
-            }
-            else
-            {
-                t.type = token_type::identifier;
-                t.id   = tokenize_identifier(it, input.end());
-            }
+            t.type = token_type::element;
+            t.e    = tokenize_element(it, input.end(), algebra_);
+        }
+        else if (std::isalnum(c))
+        {
+            t.type = token_type::identifier;
+            t.id   = tokenize_identifier(it, input.end());
+        }
+        else
+        {
+            throw std::runtime_error("Unexpected character encountered");
         }
         out.emplace_back(t);
     }
-- 
2.43.0


From f7a036f5c484558f170d89a1c9223b9c5bf4a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 15/22] fix: basis indices outside the algebra are silently
 dropped or misread

---
 sym/parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index eec0a88..bd50a8f 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -111,6 +111,11 @@ static element tokenize_element(std::string::const_iterator& it,
         {
             uint8_t bit = *it - '0';
 
+            if (((algebra_.pss() >> bit) & 1) == 0)
+            {
+                throw std::runtime_error("Basis index exceeds the dimension");
+            }
+
             if ((out.value & (1 << bit)) > 0)
             {
                 throw std::runtime_error("Duplicate basis index");
-- 
2.43.0


From 1df33c9fb0c67f0a9c66420b38fc9cdd85bb1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 16/22] fix: input after an unmatched delimiter is silently
 ignored

---
 sym/parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index bd50a8f..ec67e1f 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -446,6 +446,11 @@ mv parse(std::string const& input, algebra const& algebra_)
 {
     std::vector<token> tokens = tokenize(input, algebra_);
 
-    auto it = tokens.cbegin();
-    return parse_expr(it, tokens.cend(), algebra_);
+    auto it   = tokens.cbegin();
+    mv result = parse_expr(it, tokens.cend(), algebra_);
+    if (it->type != token_type::eof)
+    {
+        throw std::runtime_error("Unexpected delimiter after expression");
+    }
+    return result;
 }
\ No newline at end of file
-- 
2.43.0


From a07a402f1d873b5eae181f70182f63288a78081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 17/22] fix: the geometric product ignores basis vectors with
 an index above 7

---
 sym/ga.cpp     | 4 ++--
 sym/parser.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 4700893..f64a895 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -42,8 +42,8 @@ int32_t algebra::mul(uint32_t lhs, uint32_t rhs) const noexcept
 
     for (uint32_t i = 0; i != dim_; ++i)
     {
-        uint8_t index = dim_ - i - 1;
-        uint8_t bit   = 1 << index;
+        uint32_t index = dim_ - i - 1;
+        uint32_t bit   = 1u << index;
         bool lhs_e    = (lhs & bit) > 0;
         bool rhs_e    = (rhs & bit) > 0;
 
diff --git a/sym/parser.hpp b/sym/parser.hpp
index e437112..2009fc5 100644
--- a/sym/parser.hpp
+++ b/sym/parser.hpp
@@ -23,7 +23,7 @@ struct identifier
 
 struct element
 {
-    uint8_t value;
+    uint32_t value;
     bool negative;
 };
 
-- 
2.43.0


From 19ec8bae9afc16273ad5bfafd42b023db665f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 18/22] fix: deeply nested parentheses overflow the stack of
 the parser

---
 sym/parser.cpp | 56 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index ec67e1f..b635027 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -242,13 +242,18 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
 //                     | number (element)
 //                     | "(" expression ")" .
 
+// Greatest number of parentheses that may be open at the same time
+static constexpr unsigned max_depth = 1000;
+
 static mv parse_expr(std::vector<token>::const_iterator& it,
                      std::vector<token>::const_iterator end,
-                     algebra const& a);
+                     algebra const& a,
+                     unsigned depth);
 
 static mv parse_factor(std::vector<token>::const_iterator& it,
                        std::vector<token>::const_iterator end,
-                       algebra const& a)
+                       algebra const& a,
+                       unsigned depth)
 {
     bool negate  = false;
     bool reverse = false;
@@ -323,8 +328,14 @@ static mv parse_factor(std::vector<token>::const_iterator& it,
     }
     else if (it->type == token_type::delimiter && it->delimiter == '(')
     {
+        // Expressions are parsed recursively, so bound the use of the stack
+        if (depth == max_depth)
+        {
+            throw std::runtime_error("Expression nested too deeply");
+        }
+
         ++it;
-        mv result = parse_expr(it, end, a);
+        mv result = parse_expr(it, end, a, depth + 1);
         if (it->type == token_type::delimiter && it->delimiter == ')')
         {
             ++it;
@@ -353,61 +364,66 @@ static mv parse_factor(std::vector<token>::const_iterator& it,
 
 static mv parse_dot_factor(std::vector<token>::const_iterator& it,
                            std::vector<token>::const_iterator end,
-                           algebra const& a)
+                           algebra const& a,
+                           unsigned depth)
 {
-    mv out = parse_factor(it, end, a);
+    mv out = parse_factor(it, end, a, depth);
     while (it != end && it->type == token_type::op && it->op == '|')
     {
         ++it;
-        out |= parse_factor(it, end, a);
+        out |= parse_factor(it, end, a, depth);
     }
     return out;
 }
 
 static mv parse_reg_factor(std::vector<token>::const_iterator& it,
                            std::vector<token>::const_iterator end,
-                           algebra const& a)
+                           algebra const& a,
+                           unsigned depth)
 {
-    mv out = parse_dot_factor(it, end, a);
+    mv out = parse_dot_factor(it, end, a, depth);
     while (it != end && it->type == token_type::op && it->op == '&')
     {
         ++it;
-        out &= parse_dot_factor(it, end, a);
+        out &= parse_dot_factor(it, end, a, depth);
     }
     return out;
 }
 
 static mv parse_ext_factor(std::vector<token>::const_iterator& it,
                            std::vector<token>::const_iterator end,
-                           algebra const& a)
+                           algebra const& a,
+                           unsigned depth)
 {
-    mv out = parse_reg_factor(it, end, a);
+    mv out = parse_reg_factor(it, end, a, depth);
     while (it != end && it->type == token_type::op && it->op == '^')
     {
         ++it;
-        out ^= parse_reg_factor(it, end, a);
+        out ^= parse_reg_factor(it, end, a, depth);
     }
     return out;
 }
 
 static mv parse_term(std::vector<token>::const_iterator& it,
                      std::vector<token>::const_iterator end,
-                     algebra const& a)
+                     algebra const& a,
+                     unsigned depth)
 {
-    mv out = parse_ext_factor(it, end, a);
+    mv out = parse_ext_factor(it, end, a, depth);
     while (it != end && it->type == token_type::op && it->op == '*')
     {
         ++it;
-        out *= parse_ext_factor(it, end, a);
+        out *= parse_ext_factor(it, end, a, depth);
     }
     return out;
 }
 
 static mv parse_expr(std::vector<token>::const_iterator& it,
                      std::vector<token>::const_iterator end,
-                     algebra const& a)
+                     algebra const& a,
+                     unsigned depth)
 {
-    mv out = parse_term(it, end, a);
+    mv out = parse_term(it, end, a, depth);
 
     while (it != end && it->type != token_type::eof)
     {
@@ -416,12 +432,12 @@ static mv parse_expr(std::vector<token>::const_iterator& it,
             if (it->op == '+')
             {
                 ++it;
-                out += parse_term(it, end, a);
+                out += parse_term(it, end, a, depth);
             }
             else if (it->op == '-')
             {
                 ++it;
-                out -= parse_term(it, end, a);
+                out -= parse_term(it, end, a, depth);
             }
             else
             {
@@ -447,7 +463,7 @@ mv parse(std::string const& input, algebra const& algebra_)
     std::vector<token> tokens = tokenize(input, algebra_);
 
     auto it   = tokens.cbegin();
-    mv result = parse_expr(it, tokens.cend(), algebra_);
+    mv result = parse_expr(it, tokens.cend(), algebra_, 0);
     if (it->type != token_type::eof)
     {
         throw std::runtime_error("Unexpected delimiter after expression");
-- 
2.43.0


From 9831b1b2021e152098d03c3ee5602b189778c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 19/22] fix: the calculator ignores every line that contains a
 decimal point

---
 sym/repl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sym/repl.cpp b/sym/repl.cpp
index 8415174..10fecba 100644
--- a/sym/repl.cpp
+++ b/sym/repl.cpp
@@ -39,7 +39,7 @@ void repl::run()
                 std::cout << line;
                 break;
             }
-            else if (c == '.')
+            else if (c == '.' && !should_parse)
             {
                 // Lines that start with a . are commands
                 issue_command = true;
-- 
2.43.0


From 8ebb6ca614507d0fe751ccc5b77cab84fc44fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:18 +0000
Subject: [PATCH 20/22] fix: subtracting a multivector from itself reads a
 freed node

---
 sym/ga.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index f64a895..12c29c4 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -288,6 +288,13 @@ mv& mv::operator+=(mv const& other) noexcept
 
 mv& mv::operator-=(mv const& other) noexcept
 {
+    if (this == &other)
+    {
+        // Erasing terms below would invalidate the iteration over other
+        terms.clear();
+        return *this;
+    }
+
     for (auto&& [e, p] : other.terms)
     {
         push(e, -p);
-- 
2.43.0


From b5f209962f46095242c5c11b2a36fa40a15ec73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:07 +0000
Subject: [PATCH 21/22] fix: the printer of a multivector leaves out the basis
 vector e9

---
 sym/ga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 12c29c4..c3f5a17 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -511,7 +511,7 @@ std::ostream& operator<<(std::ostream& os,
 
     os << " e";
 
-    for (size_t i = 0; i != 9; ++i)
+    for (size_t i = 0; i != 10; ++i)
     {
         if ((it->first & (1 << i)) > 0)
         {
-- 
2.43.0


From 5091c867f7544f624220873b688b80224098fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:07 +0000
Subject: [PATCH 22/22] fix: the printer of a polynomial leaves out a constant
 term of plus or minus one

---
 sym/poly.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sym/poly.cpp b/sym/poly.cpp
index 9a1a606..fe7c5de 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -271,6 +271,12 @@ operator<<(std::ostream& os,
 std::ostream& operator<<(std::ostream& os,
                          std::map<mon, float>::const_iterator const& it) noexcept
 {
+    if (it->first.factors.empty())
+    {
+        os << it->second;
+        return os;
+    }
+
     if (it->second == -1.f)
     {
         os << '-';
@@ -280,11 +286,6 @@ std::ostream& operator<<(std::ostream& os,
         os << it->second;
     }
 
-    if (it->first.factors.empty())
-    {
-        return os;
-    }
-
     auto factor = it->first.factors.cbegin();
     os << factor;
     ++factor;
-- 
2.43.0

