From 85b4adcd455390522583b262e4609b3fae83fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 01/45] fix: SSE operator>= must be false for unordered
 floating-point operands

The comparison was implemented as not-less-than, which is true if either
operand is NaN. Use the ordered greater-or-equal comparison, like the AVX
and Scalar implementations.
---
 Vc/sse/vector.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 2e2fe5d..d857ca1 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -91,8 +91,8 @@ Vc_INTRINSIC SSE::ushort_m operator< (SSE::ushort_v a, SSE::ushort_v b) {
 #endif
 }
 
-Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpnlt_pd(a.data(), b.data()); }
-Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpnlt_ps(a.data(), b.data()); }
+Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpge_pd(a.data(), b.data()); }
+Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpge_ps(a.data(), b.data()); }
 Vc_INTRINSIC SSE::   int_m operator>=(SSE::   int_v a, SSE::   int_v b) { return !(a < b); }
 Vc_INTRINSIC SSE::  uint_m operator>=(SSE::  uint_v a, SSE::  uint_v b) { return !(a < b); }
 Vc_INTRINSIC SSE:: short_m operator>=(SSE:: short_v a, SSE:: short_v b) { return !(a < b); }
-- 
2.43.0


From 3ca6fb6cf88bf1d384222a6de9e0b8be2a9a75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 02/45] fix: AVX > and >= must be false for NaN also without
 builtin vector operators

The intrinsics based implementation (used e.g. with clang) compared with
NLE/NLT, which are true for unordered operands, unlike the GCC code path.
---
 Vc/avx/intrinsics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/intrinsics.h b/Vc/avx/intrinsics.h
index 492e6b0..2122929 100644
--- a/Vc/avx/intrinsics.h
+++ b/Vc/avx/intrinsics.h
@@ -180,16 +180,16 @@ namespace AvxIntrinsics
     Vc_INTRINSIC __m256d cmpeq_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256d cmpneq_pd  (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256d cmplt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256d cmple_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GT_OS); }
 
     Vc_INTRINSIC __m256  cmpeq_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256  cmpneq_ps  (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256  cmplt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256  cmple_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GT_OS); }
 #endif
     Vc_INTRINSIC __m256d cmpnlt_pd  (__m256d a, __m256d b) { return cmpge_pd(a, b); }
     Vc_INTRINSIC __m256d cmpnle_pd  (__m256d a, __m256d b) { return cmpgt_pd(a, b); }
-- 
2.43.0


From 35ee3a2b0ff7b9a751e9573e5244e8ff240c80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 03/45] fix: masked increment/decrement must not modify
 unselected lanes

Adding zero to the unselected lanes turned -0.0 into +0.0 (and quietens
signaling NaNs). Assign the incremented value through the mask instead.
---
 Vc/common/writemaskedvector.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Vc/common/writemaskedvector.h b/Vc/common/writemaskedvector.h
index 09541fc..2731cec 100644
--- a/Vc/common/writemaskedvector.h
+++ b/Vc/common/writemaskedvector.h
@@ -56,15 +56,13 @@ public:
     // prefix
     Vc_INTRINSIC V &operator++()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec += one;
+        vec.assign(vec + V::One(), mask);
+        return vec;
     }
     Vc_INTRINSIC V &operator--()
     {
-        V one = V::One();
-        one.setZeroInverted(mask);
-        return vec -= one;
+        vec.assign(vec - V::One(), mask);
+        return vec;
     }
 
     // postfix
-- 
2.43.0


From 8b500fcd0eddfe0fdcf1d46606a7f08ce655d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 04/45] fix: AVX double_v loads from 8- and 16-bit integers
 read int data

double_v(const short *) and friends loaded 16 bytes and converted them as
four ints: wrong values and reads beyond the four source elements.
---
 Vc/avx/detail.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 5802755..9263019 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -373,24 +373,28 @@ Vc_INTRINSIC __m256d load(const int *mem, Flags f, LoadTag<__m256d, double>)
     return AVX::convert<int, double>(load16(mem, f));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const ushort *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const ushort *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<ushort, double>(
+        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const short *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const short *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<short, double>(
+        _mm_loadl_epi64(reinterpret_cast<const __m128i *>(mem)));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const uchar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const uchar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepu8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 template <typename Flags>
-Vc_INTRINSIC __m256d load(const schar *mem, Flags f, LoadTag<__m256d, double>)
+Vc_INTRINSIC __m256d load(const schar *mem, Flags, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(
+        SSE::cvtepi8_epi32(_mm_cvtsi32_si128(*aliasing_cast<int>(mem))));
 }
 
 // float {{{2
-- 
2.43.0


From edcb05d988ef9373933b3f56257bc9306790cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 05/45] fix: AVX float_v load from uint rounds correctly for
 values >= 2^31

Use the correctly rounding AVX::convert<uint, float> as the SSE load does.
---
 Vc/avx/detail.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 9263019..3db2460 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -407,12 +407,7 @@ Vc_INTRINSIC __m256 load(const double *mem, Flags f, LoadTag<__m256, float>)
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const uint *mem, Flags f, LoadTag<__m256, float>)
 {
-    const auto v = load32(mem, f);
-    return _mm256_blendv_ps(
-        _mm256_cvtepi32_ps(v),
-        _mm256_add_ps(_mm256_cvtepi32_ps(AVX::sub_epi32(v, AVX::set2power31_epu32())),
-                      AVX::set2power31_ps()),
-        _mm256_castsi256_ps(AVX::cmplt_epi32(v, _mm256_setzero_si256())));
+    return AVX::convert<uint, float>(load32(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const int *mem, Flags f, LoadTag<__m256, float>)
-- 
2.43.0


From 588cb30279e92186398d9d41a3abde4260155f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 06/45] fix: gathers from structs of 16- or 8-bit members
 compile with AVX2

The gather instructions only take scale factors 1, 2, 4, and 8. Apply other
scale factors (e.g. 6 for struct { short x, y, z; }) to the index vector.
---
 Vc/common/subscript.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/subscript.h b/Vc/common/subscript.h
index 1ccf1b4..1b250a5 100644
--- a/Vc/common/subscript.h
+++ b/Vc/common/subscript.h
@@ -283,8 +283,10 @@ public:
     {
     }
 
+    // AVX2 gather instructions support scale factors of 1, 2, 4, and 8 Bytes
     static constexpr bool need_explicit_scaling =
-        Scale::num % Scale::den != 0 || Scale::num / Scale::den * sizeof(T) > 8;
+        Scale::num % Scale::den != 0 || Scale::num / Scale::den * sizeof(T) > 8 ||
+        (Scale::num / Scale::den * sizeof(T) & (Scale::num / Scale::den * sizeof(T) - 1)) != 0;
 
     Vc_ALWAYS_INLINE
         GatherArguments<typename std::remove_cv<T>::type, IndexVectorScaled,
-- 
2.43.0


From d35a1bb443e796a96a30109d64d9a5450c2cbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 07/45] fix: Vector<double, Avx>::broadcast<Index>() did not
 compile

---
 Vc/avx/vector.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 63d867d..1a82960 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -930,8 +930,10 @@ template <> template <int Index> Vc_INTRINSIC AVX2::float_v AVX2::float_v::broad
 template <> template <int Index> Vc_INTRINSIC AVX2::double_v AVX2::double_v::broadcast() const
 {
     constexpr VecPos Inner = static_cast<VecPos>(Index & 0x1);
+    constexpr VecPos InnerHi = static_cast<VecPos>(Inner + X2);
     constexpr VecPos Outer = static_cast<VecPos>((Index & 0x2) / 2);
-    return Mem::permute<Inner, Inner>(Mem::permute128<Outer, Outer>(d.v()));
+    return Mem::permute<Inner, Inner, InnerHi, InnerHi>(
+        Mem::permute128<Outer, Outer>(d.v()));
 }
 // }}}1
 }  // namespace Vc
-- 
2.43.0


From 4966729fcdfe262e7f1078aef1cde3e5f556ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 08/45] fix: AVX float_v::minIndex() returned the bit pattern
 of the index as float

---
 Vc/avx/vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 1a82960..78af32e 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -557,7 +557,7 @@ template <> Vc_INTRINSIC std::pair<AVX2::float_v, int> AVX2::float_v::minIndex()
 
     idx = _mm256_blendv_ps(idy, idx, less);
 
-    const auto index = _mm_cvtsi128_si32(AVX::avx_cast<__m128i>(idx));
+    const int index = _mm_cvttss_si32(AVX::lo128(idx));
 #ifdef Vc_GNU_ASM
     __asm__ __volatile__(""); // help GCC to order the instructions better
 #endif
-- 
2.43.0


From 827a61de7a706e1aef9131d94097d7f452d50694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 09/45] fix: masked min/max reductions of SSE and AVX float
 vectors used wrong neutral elements

---
 Vc/avx/vector.tcc | 6 ++++--
 Vc/sse/vector.tcc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 78af32e..ee020e7 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -600,13 +600,15 @@ template<typename T> template<typename BinaryOperation> Vc_ALWAYS_INLINE AVX2::V
 
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::min(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::max();
+    AVX2::Vector<T> tmp = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity()
+        : std::numeric_limits<T>::max();
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::max(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::min();
+    AVX2::Vector<T> tmp = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity()
+        : std::numeric_limits<T>::lowest();
     tmp(m) = *this;
     return tmp.max();
 }
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index d857ca1..d89369e 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -425,13 +425,15 @@ template<> Vc_INTRINSIC Vc_PURE unsigned int SSE::uint_v::product() const
 #endif
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::min(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::max();
+    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity()
+        : std::numeric_limits<T>::max();
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::max(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::min();
+    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity()
+        : std::numeric_limits<T>::lowest();
     tmp(m) = *this;
     return tmp.max();
 }
-- 
2.43.0


From e6ad0993cb36158e203aa5a5132eb13fe6eab59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 10/45] fix: Mem::permute<Dst0, Dst1>(__m128d) ignored Dst1, so
 SSE double_v::broadcast<1>() was wrong

---
 Vc/sse/shuffle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/sse/shuffle.h b/Vc/sse/shuffle.h
index 6652766..6318a97 100644
--- a/Vc/sse/shuffle.h
+++ b/Vc/sse/shuffle.h
@@ -106,7 +106,7 @@ namespace Mem
         template<VecPos Dst0, VecPos Dst1> static Vc_ALWAYS_INLINE Vc_CONST __m128d permute(__m128d x) {
             static_assert(Dst0 >= X0 && Dst1 >= X0, "Incorrect_Range");
             static_assert(Dst0 <= X1 && Dst1 <= X1, "Incorrect_Range");
-            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 4);
+            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 2);
         }
 
         template<VecPos Dst0, VecPos Dst1, VecPos Dst2, VecPos Dst3> static Vc_ALWAYS_INLINE __m128i Vc_CONST permute(__m128i x) {
-- 
2.43.0


From 851e3667dbe1f21a47b9e0fda644463f52ab431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 11/45] fix: SSE2 double_v to uint_v conversion of values >=
 2^31 used a mask of the wrong lane width

---
 Vc/sse/casts.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index 8df29df..d794a92 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -98,7 +98,8 @@ Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, uint  >) {
     return blendv_epi8(_mm_cvttpd_epi32(v),
                        _mm_xor_si128(_mm_cvttpd_epi32(_mm_sub_pd(v, _mm_set1_pd(0x80000000u))),
                                      _mm_cvtsi64_si128(0x8000000080000000ull)),
-                       _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))));
+                       _mm_shuffle_epi32(_mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))),
+                                         _MM_SHUFFLE(0, 0, 2, 0)));
 #endif
 }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , uint  >) { return v; }
-- 
2.43.0


From 62f6804b48f9d9deb79a6e15b30c53c3a4752502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 12/45] fix: SimdMaskArray::Zero()/One() of non-atomic sizes
 did not compile

---
 Vc/common/simdmaskarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index c2b6899..1666cfb 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -437,12 +437,12 @@ public:
     ///\copydoc Mask::Zero()
     Vc_INTRINSIC static fixed_size_simd_mask<T, N> Zero()
     {
-        return {storage_type0::Zero(), storage_type1::Zero()};
+        return SimdMaskArray(Vc::Zero);
     }
     ///\copydoc Mask::One()
     Vc_INTRINSIC static fixed_size_simd_mask<T, N> One()
     {
-        return {storage_type0::One(), storage_type1::One()};
+        return SimdMaskArray(Vc::One);
     }
 
     ///\name Loads & Stores
-- 
2.43.0


From 5981189405a4abb0f9fe2ffa5ee9b7ddb72dda15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 13/45] fix: SimdArray::shifted(int) for unevenly split arrays
 took lanes from the wrong position

---
 Vc/common/simdarray.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 0434560..c6d84ec 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1132,6 +1132,14 @@ public:
         if (amount == 0) {
             return *this;
         }
+        if (SSize0 != SSize1) {
+            // the shifts below move lanes between data0 and data1 only if both have
+            // the same number of entries
+            return fixed_size_simd<T, N>([&](int i) -> value_type {
+                i += amount;
+                return i >= 0 && i < SSize ? get(*this, i) : value_type(0);
+            });
+        }
         if (amount < 0) {
             if (amount > -SSize0) {
                 return {data0.shifted(amount), data1.shifted(amount, data0)};
-- 
2.43.0


From 295bb33aea694eddae77e839c33cf6147b2e1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 14/45] fix: scalar round() was off by one for values whose sum
 with 0.5 is inexact

---
 Vc/scalar/math.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/Vc/scalar/math.h b/Vc/scalar/math.h
index 469a35f..a9afb40 100644
--- a/Vc/scalar/math.h
+++ b/Vc/scalar/math.h
@@ -184,23 +184,14 @@ template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> round(const Scala
     return x;
 }
 
-namespace
-{
-    template<typename T> bool _realIsEvenHalf(T x) {
-        const T two = 2;
-        const T half = 0.5;
-        const T f = std::floor(x * half) * two;
-        return (x - f) == half;
-    }
-} // namespace
 template<> Vc_ALWAYS_INLINE Scalar::Vector<float>  round(const Scalar::Vector<float>  &x)
 {
-    return Scalar::float_v(std::floor(x.data() + 0.5f) - (_realIsEvenHalf(x.data()) ? 1.f : 0.f));
+    return Scalar::float_v(std::nearbyint(x.data()));
 }
 
 template<> Vc_ALWAYS_INLINE Scalar::Vector<double> round(const Scalar::Vector<double> &x)
 {
-    return Scalar::double_v(std::floor(x.data() + 0.5 ) - (_realIsEvenHalf(x.data()) ? 1.  : 0. ));
+    return Scalar::double_v(std::nearbyint(x.data()));
 }
 
 template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> reciprocal(const Scalar::Vector<T> &x)
-- 
2.43.0


From ac66d4240e076c9345269a1c549dec26ecfcef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 15/45] fix: SSE2 round() returned INT_MIN for values that do
 not fit into an int

---
 Vc/sse/vectorhelper.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index 1b51646..83a04b8 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -211,7 +211,15 @@ namespace SSE
                 return _mm_round_pd(a, _MM_FROUND_NINT);
 #else
                 //XXX: slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_pd(_mm_cvtpd_epi32(a));
+                // |a| + 2^52 - 2^52 rounds to nearest; values >= 2^52 (and inf/NaN) have no
+                // fractional bits and must not be touched
+                const __m128d signMask = _mm_set1_pd(-0.);
+                const __m128d magic = _mm_set1_pd(4503599627370496.);
+                const __m128d abs_a = _mm_andnot_pd(signMask, a);
+                const __m128d small = _mm_cmplt_pd(abs_a, magic);
+                const __m128d rounded = _mm_or_pd(_mm_and_pd(signMask, a),
+                                                  _mm_sub_pd(_mm_add_pd(abs_a, magic), magic));
+                return _mm_or_pd(_mm_and_pd(small, rounded), _mm_andnot_pd(small, a));
 #endif
             }
         };
@@ -293,7 +301,15 @@ namespace SSE
                 return _mm_round_ps(a, _MM_FROUND_NINT);
 #else
                 //XXX slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_ps(_mm_cvtps_epi32(a));
+                // |a| + 2^23 - 2^23 rounds to nearest; values >= 2^23 (and inf/NaN) have no
+                // fractional bits and must not be touched
+                const __m128 signMask = _mm_set1_ps(-0.f);
+                const __m128 magic = _mm_set1_ps(8388608.f);
+                const __m128 abs_a = _mm_andnot_ps(signMask, a);
+                const __m128 small = _mm_cmplt_ps(abs_a, magic);
+                const __m128 rounded = _mm_or_ps(_mm_and_ps(signMask, a),
+                                                 _mm_sub_ps(_mm_add_ps(abs_a, magic), magic));
+                return _mm_or_ps(_mm_and_ps(small, rounded), _mm_andnot_ps(small, a));
 #endif
             }
         };
-- 
2.43.0


From 99e3c75daee194c9676c460bcceb1f3db7eb65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 16/45] fix: SSE2 trunc(double_v) (and floor/ceil) modified
 values >= 2^52

---
 Vc/sse/math.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index ed399ce..7c11741 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -138,10 +138,15 @@ inline SSE::Vector<double> trunc(SSE::Vector<double> x)
     // abs(x)` holds, so subtract 1 to truncated if `abs(x) < truncated`
     truncated = _mm_sub_pd(truncated,
                            _mm_and_pd(_mm_cmplt_pd(abs_x, truncated), _mm_set1_pd(1.)));
-    // finally, fix the sign bit:
-    return _mm_or_pd(
+    // fix the sign bit:
+    truncated = _mm_or_pd(
         _mm_and_pd(_mm_castsi128_pd(_mm_set1_epi64x(0x8000000000000000ull)), x.data()),
         truncated);
+    // finally, keep the values that have no fractional bits (and thus also inf and NaN),
+    // because the addition above is not exact for them
+    const auto has_fractional_bits = _mm_cmplt_pd(abs_x, min_no_fractional_bits);
+    return _mm_or_pd(_mm_and_pd(has_fractional_bits, truncated),
+                     _mm_andnot_pd(has_fractional_bits, x.data()));
 }
 
 template <typename T> inline SSE::Vector<T> floor(SSE::Vector<T> x)
-- 
2.43.0


From c4510d0e90773a011e802c7eb2a9f9e7e08dd94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 17/45] fix: ldexp() of infinity and NaN modified the exponent
 bits

---
 Vc/avx/math.h | 4 ++--
 Vc/sse/math.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index d5f8491..b92626d 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -248,7 +248,7 @@ inline AVX2::float_v frexp(AVX2::float_v::AsArg v, SimdArray<int, 8> *e)
 inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero() || !isfinite(v)));
     const __m256i exponentBits =
         AVX::concat(_mm_slli_epi64(_mm_unpacklo_epi32(e.data(), e.data()), 52),
                     _mm_slli_epi64(_mm_unpackhi_epi32(e.data(), e.data()), 52));
@@ -257,7 +257,7 @@ inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e
 }
 inline AVX2::float_v ldexp(AVX2::float_v::AsArg v, SimdArray<int, 8> e)
 {
-    e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero()));
+    e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero() || !isfinite(v)));
     e <<= 23;
 #ifdef Vc_IMPL_AVX2
     return {AVX::avx_cast<__m256>(
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index 7c11741..4147577 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -93,7 +93,7 @@ inline SSE::double_v ldexp(SSE::double_v::AsArg v,
                            const SimdArray<int, 2, Scalar::int_v, 1> &_e)
 {
     SSE::int_v e = _mm_setr_epi32(_e[0], 0, _e[1], 0);
-    e.setZero((v == SSE::double_v::Zero()).dataI());
+    e.setZero((v == SSE::double_v::Zero() || !isfinite(v)).dataI());
     const __m128i exponentBits = _mm_slli_epi64(e.data(), 52);
     return _mm_castsi128_pd(_mm_add_epi64(_mm_castpd_si128(v.data()), exponentBits));
 }
@@ -101,7 +101,7 @@ inline SSE::float_v ldexp(SSE::float_v::AsArg v,
                           const SimdArray<int, 4, SSE::int_v, 4> &_e)
 {
     SSE::int_v e = internal_data(_e);
-    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero()));
+    e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero() || !isfinite(v)));
     return reinterpret_components_cast<SSE::float_v>(
         reinterpret_components_cast<SSE::int_v>(v) + (e << 23));
 }
-- 
2.43.0


From c49db491d64c2ac7b623002d7d7cd823bf28e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 18/45] fix: log, log2, and log10 of +infinity and NaN returned
 a finite value

---
 Vc/common/logarithm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Vc/common/logarithm.h b/Vc/common/logarithm.h
index a4a7bf9..61de245 100644
--- a/Vc/common/logarithm.h
+++ b/Vc/common/logarithm.h
@@ -221,7 +221,7 @@ static inline Vector<T, Abi> calc(V _x)
 
         V x(_x);
 
-        const M invalidMask = x < V::Zero();
+        const M invalidMask = !(x >= V::Zero());
         const M infinityMask = x == V::Zero();
         const M denormal = x <= C::min();
 
@@ -246,8 +246,10 @@ static inline Vector<T, Abi> calc(V _x)
 
         log_series(x, exponent); // A: (ˣ⁄₂ᵉ - 1, e)  B: (ˣ⁄₂ᵉ⁺¹ - 1, e + 1)
 
-        x.setQnan(invalidMask);        // x < 0 → NaN
+        x.setQnan(invalidMask);        // x < 0 or x = NaN → NaN
         x(infinityMask) = C::neginf(); // x = 0 → -∞
+        x(_x == std::numeric_limits<T>::infinity()) =
+            std::numeric_limits<T>::infinity();  // x = ∞ → ∞
 
         return x;
     }
-- 
2.43.0


From 67f33797e1b4ec808f312f5fefdca84d682f08ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 19/45] fix: exp(double_v) returned infinity for arguments in
 ]708.4, 709.78]

---
 Vc/common/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/math.h b/Vc/common/math.h
index b2e529b..a9ce705 100644
--- a/Vc/common/math.h
+++ b/Vc/common/math.h
@@ -61,7 +61,7 @@ inline AVX::double_v exp(AVX::double_v _x)
         typedef V::Mask M;
     typedef AVX::Const<double> C;
 
-        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x0006232bdd7abcd2ull, 9>(); // max log
+        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x00062e42fefa39efull, 9>(); // max log
         const M underflow = x < Vc::Detail::doubleConstant<-1, 0x0006232bdd7abcd2ull, 9>(); // min log
 
         V px = floor(C::log2_e() * x + 0.5);
@@ -101,7 +101,7 @@ inline SSE::double_v exp(SSE::double_v::AsArg _x) {
         typedef V::Mask M;
     typedef SSE::Const<double> C;
 
-        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x0006232bdd7abcd2ull, 9>(); // max log
+        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x00062e42fefa39efull, 9>(); // max log
         const M underflow = x < Vc::Detail::doubleConstant<-1, 0x0006232bdd7abcd2ull, 9>(); // min log
 
         V px = floor(C::log2_e() * x + 0.5);
-- 
2.43.0


From b0b53849f51aa4a9036223ce93d38ce05f746462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:05 +0000
Subject: [PATCH 20/45] fix: interleaved gathers with duplicate indexes
 asserted unless NDEBUG was defined

---
 Vc/common/interleavedmemory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/common/interleavedmemory.h b/Vc/common/interleavedmemory.h
index f2f6ec4..4bd9b6f 100644
--- a/Vc/common/interleavedmemory.h
+++ b/Vc/common/interleavedmemory.h
@@ -146,19 +146,20 @@ struct InterleavedMemoryAccess : public InterleavedMemoryReadAccess<StructSize,
     Vc_ALWAYS_INLINE InterleavedMemoryAccess(Ta *data, typename I::AsArg indexes)
         : InterleavedMemoryReadAccess<StructSize, V, I, false>(data, indexes)
     {
-        CheckIndexesUnique<I>::test(indexes);
     }
 
     template <int N> Vc_ALWAYS_INLINE void operator=(VectorReferenceArray<N, V> &&rhs)
     {
         static_assert(N <= StructSize,
                       "You_are_trying_to_scatter_more_data_into_the_struct_than_it_has");
+        CheckIndexesUnique<I>::test(this->m_indexes);
         this->callInterleave(std::move(rhs), make_index_sequence<N>());
     }
     template <int N> Vc_ALWAYS_INLINE void operator=(VectorReferenceArray<N, const V> &&rhs)
     {
         static_assert(N <= StructSize,
                       "You_are_trying_to_scatter_more_data_into_the_struct_than_it_has");
+        CheckIndexesUnique<I>::test(this->m_indexes);
         this->callInterleave(std::move(rhs), make_index_sequence<N>());
     }
 };
-- 
2.43.0


From f65e477ddb73ac40c65c980ff0e51cebf4bcae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 21/45] fix: Vc::transpose returned a proxy with dangling
 references

---
 Vc/common/transpose.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/transpose.h b/Vc/common/transpose.h
index f8928f9..1b825a8 100644
--- a/Vc/common/transpose.h
+++ b/Vc/common/transpose.h
@@ -39,7 +39,9 @@ template <typename... Inputs> struct TransposeProxy
 {
     TransposeProxy(const Inputs &... inputs) : in{inputs...} {}
 
-    std::tuple<const Inputs &...> in;
+    // The inputs must be stored by value: the parameters of Vc::transpose are gone when the
+    // proxy is evaluated.
+    std::tuple<Inputs...> in;
 };
 
 template <int LhsLength, size_t RhsLength> struct TransposeTag {
-- 
2.43.0


From 4c9e9a719552b5763761cfd480ac19f7eba89495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 22/45] fix: AVX2 deinterleave of ushort memory to uint_v
 sign-extended the values

---
 Vc/avx/deinterleave.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/deinterleave.tcc b/Vc/avx/deinterleave.tcc
index 2f36825..0880ce1 100644
--- a/Vc/avx/deinterleave.tcc
+++ b/Vc/avx/deinterleave.tcc
@@ -249,11 +249,11 @@ inline void deinterleave(AVX2::uint_v &a, AVX2::uint_v &b, const unsigned short
     const AVX2::ushort_v tmp0(m, f);
     const m256i tmp = tmp0.data();
     a.data() = concat(
-                _mm_srai_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
-                _mm_srai_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
+                _mm_srli_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
+                _mm_srli_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
     b.data() = concat(
-                _mm_srai_epi32(lo128(tmp), 16),
-                _mm_srai_epi32(hi128(tmp), 16));
+                _mm_srli_epi32(lo128(tmp), 16),
+                _mm_srli_epi32(hi128(tmp), 16));
 }
 
 template <typename Flags>
-- 
2.43.0


From e8904b781db62911a7bbb57ececfb93b6aa6ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 23/45] fix: Memory<V>(0) wrote a vector in front of its
 allocation

---
 Vc/common/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 8275dfd..1f78619 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -397,7 +397,9 @@ class Memory<V, Size, 0u, InitPadding> :
             m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount))
         {
             m_vectorsCount /= V::Size;
-            Base::lastVector() = V::Zero();
+            if (m_vectorsCount > 0) {  // an empty array has no last vector
+                Base::lastVector() = V::Zero();
+            }
         }
 
         /**
-- 
2.43.0


From 1bf6977e76bf819ca54e3a37f3090a44dd930bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 24/45] fix: operator new of SimdArray and SimdMaskArray
 ignored their alignas

---
 Vc/common/simdarray.h     | 4 ++--
 Vc/common/simdmaskarray.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index c6d84ec..99b8966 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -500,7 +500,7 @@ public:
     /// \internal
     Vc_INTRINSIC SimdArray(private_init_t, VectorType &&x) : data(std::move(x)) {}
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private:
     // The alignas attribute attached to the class declaration above is ignored by ICC
@@ -1469,7 +1469,7 @@ public:
     {
     }
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type0));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private: //{{{2
     // The alignas attribute attached to the class declaration above is ignored by ICC
diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index 1666cfb..6c1eb79 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -76,7 +76,7 @@ public:
     using reference = EntryReference;
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     SimdMaskArray() = default;
@@ -368,7 +368,7 @@ public:
     /// An alias for the corresponding SimdArray type.
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     ///\copydoc Mask::Mask()
-- 
2.43.0


From 68a5e501e1e8919b1cddc380e01e1a0e0a593770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 25/45] fix: Vc::Allocator::allocate wrapped around for sizes
 near max_size()

---
 Vc/Allocator | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/Allocator b/Vc/Allocator
index 60febff..3c3a19d 100644
--- a/Vc/Allocator
+++ b/Vc/Allocator
@@ -207,7 +207,7 @@ namespace Vc_VERSIONED_NAMESPACE
             ::operator delete(p);
         }
 
-        size_type max_size() const throw() { return size_t(-1) / sizeof(T); }
+        size_type max_size() const throw() { return (size_t(-1) - ExtraBytes) / sizeof(T); }
 
 #ifdef Vc_MSVC
         // MSVC brokenness: the following function is optional - just doesn't compile without it
-- 
2.43.0


From 2e27ad85373176259ef9f97a6176caea16b248cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 26/45] fix: Vc::array::swap did not compile (noexcept without
 noexcept operator)

---
 Vc/array | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/array b/Vc/array
index 0ba1e2c..3821f1a 100644
--- a/Vc/array
+++ b/Vc/array
@@ -102,7 +102,7 @@ template <class T, size_t Size> struct array {
 
     // No explicit construct/copy/destroy for aggregate type
     void fill(const value_type& u_) { std::fill_n(elems_, Size, u_); }
-    void swap(array& a_) noexcept(std::swap(std::declval<T &>(), std::declval<T &>()))
+    void swap(array& a_) noexcept(noexcept(std::swap(std::declval<T &>(), std::declval<T &>())))
     {
         std::swap_ranges(elems_, elems_ + Size, a_.elems_);
     }
-- 
2.43.0


From 9efa888bbc0be0e4bfb44ffd831c7ec01768d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 27/45] fix: makeContainer from an empty initializer list read
 out of bounds

---
 Vc/common/makeContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Vc/common/makeContainer.h b/Vc/common/makeContainer.h
index 4065985..d5286a4 100644
--- a/Vc/common/makeContainer.h
+++ b/Vc/common/makeContainer.h
@@ -51,6 +51,9 @@ namespace Vc_VERSIONED_NAMESPACE
             static inline C help(std::initializer_list<T> list) {
                 const std::size_t size = (list.size() + (V::Size - 1)) / V::Size;
                 C v(size);
+                if (size == 0) {
+                    return v;
+                }
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-- 
2.43.0


From 2f24de59577acd684c86f1e3f49dd012067f5ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 28/45] fix: iterating over where(mask) visited wrong entries
 for masks of 32 or more entries

SimdMaskArray::toInt() cannot hold more than 32 entries, and with exactly 32
the conversion of a negative int to size_t set all the upper bits.
---
 Vc/common/iterators.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index 071482a..02f01a7 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -236,7 +236,15 @@ cend(const T &v)
 
 template<typename M> Vc_ALWAYS_INLINE BitmaskIterator begin(const WhereImpl::WhereMask<M> &w)
 {
-    return w.mask.toInt();
+    if (w.mask.size() < 8 * sizeof(int)) {
+        return w.mask.toInt();
+    }
+    // toInt() cannot represent this many entries (or sign-extends the last one)
+    size_t bits = 0;
+    for (size_t i = 0; i < w.mask.size(); ++i) {
+        bits |= size_t(w.mask[i]) << i;
+    }
+    return bits;
 }
 
 template<typename M> Vc_ALWAYS_INLINE BitmaskIterator end(const WhereImpl::WhereMask<M> &)
-- 
2.43.0


From 39a57aea5317eaa9e4257f12a932abd5cbf4c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 29/45] fix: load and store of a decorated simdize object did
 not compile

---
 Vc/common/simdize.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 5fa34d0..0fbbe04 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1205,8 +1205,8 @@ public:
         return shifted_impl(a, amount, IndexSeq());
     }
 
-    void load(const typename A::scalar_type *mem) { load_interleaved(*this, mem); }
-    void store(typename A::scalar_type *mem) { store_interleaved(*this, mem); }
+    void load(const typename A::scalar_type *mem) { load_interleaved(a, mem); }
+    void store(typename A::scalar_type *mem) { store_interleaved(a, mem); }
 
 private:
     reference a;
-- 
2.43.0


From 3fe93021de15c530be2cd43c9cc246195428e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 30/45] fix: load_interleaved/store_interleaved swapped the
 members of std::tuple

They assumed that the members lie in memory in the order of get<I>, which is not
true for the std::tuple of libstdc++ (nor for a Vc_SIMDIZE_INTERFACE that lists
the members in a different order). simd_for_each passed swapped members to the
functor.
---
 Vc/common/simdize.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 0fbbe04..fe5a6ff 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1162,6 +1162,26 @@ template <typename A> inline void swap(Scalar<A> &&a, Scalar<A> &&b)
     swap_impl(a.a, a.i, b.a, b.i, typename Scalar<A>::IndexSeq());
 }
 // }}}
+// members_in_memory_order {{{
+/**\internal
+ * Returns whether the members get<0>(x), get<1>(x), ... lie one after another at the start of
+ * \p x. This is e.g. not the case for the std::tuple of libstdc++.
+ */
+template <class S, size_t... I>
+inline bool members_in_memory_order(const S &x, Vc::index_sequence<I...>)
+{
+    const auto address = [](const void *p) { return static_cast<const char *>(p); };
+    const bool inOrder[] = {
+        address(std::addressof(get_dispatcher<I>(x))) ==
+        address(std::addressof(x)) + I * sizeof(decay_workaround(get_dispatcher<0>(x)))...};
+    for (const bool ok : inOrder) {
+        if (!ok) {
+            return false;
+        }
+    }
+    return true;
+}
+// }}}
 // load_interleaved_impl {{{
 template <class S, class T, size_t N, size_t... I>
 inline void load_interleaved_impl(Vc::index_sequence<I...>, Adapter<S, T, N> &a,
@@ -1256,7 +1276,9 @@ Vc_INTRINSIC typename V::EntryType extract(const V &v, size_t i)
 template <class S, class T, size_t N>
 inline void load_interleaved(SimdizeDetail::Adapter<S, T, N> &a, const S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::members_in_memory_order(
+            *mem, Vc::make_index_sequence<SimdizeDetail::determine_tuple_size_<S>::value>())) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { assign(a, i, mem[i]); });
     } else {
@@ -1277,7 +1299,9 @@ Vc_INTRINSIC void load_interleaved(V &a, const T *mem)
 template <class S, class T, size_t N>
 inline void store_interleaved(const SimdizeDetail::Adapter<S, T, N> &a, S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::members_in_memory_order(
+            *mem, Vc::make_index_sequence<SimdizeDetail::determine_tuple_size_<S>::value>())) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { mem[i] = extract(a, i); });
     } else {
-- 
2.43.0


From 218e41c438864fe5f0d0827478692e53c309d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 31/45] fix: load_interleaved/store_interleaved of structs with
 different member types did not compile

The member-wise code path for such types was selected by a run-time condition,
so that the interleaved one was instantiated, too. Likewise for SimdArray
members and more than 8 members.
---
 Vc/common/simdize.h | 81 +++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index fe5a6ff..8e0dcf8 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1182,11 +1182,44 @@ inline bool members_in_memory_order(const S &x, Vc::index_sequence<I...>)
     return true;
 }
 // }}}
+// has_interleaved_access {{{
+/**\internal
+ * The InterleavedMemoryWrapper can be used for 2 to 8 members, all of the same Vector type.
+ */
+template <class A, class Seq> struct has_interleaved_access_impl;
+template <class A, size_t... I>
+struct has_interleaved_access_impl<A, Vc::index_sequence<I...>> {
+    template <size_t J>
+    using Member = typename std::decay<decltype(
+        get_dispatcher<J>(std::declval<A &>()))>::type;
+    static constexpr bool value =
+        (sizeof...(I) >= 2 && sizeof...(I) <= 8) &&
+        Traits::is_simd_vector_internal<Member<0>>::value &&
+        !Traits::isSimdArray<Member<0>>::value &&
+        is_same<Typelist<Member<I>...>, Typelist<Member<I * 0>...>>::value;
+};
+template <class A>
+using has_interleaved_access = std::integral_constant<
+    bool, has_interleaved_access_impl<A, Vc::make_index_sequence<determine_tuple_size_<
+                                             typename A::scalar_type>::value>>::value>;
+// }}}
 // load_interleaved_impl {{{
 template <class S, class T, size_t N, size_t... I>
-inline void load_interleaved_impl(Vc::index_sequence<I...>, Adapter<S, T, N> &a,
-                                  const S *mem)
+inline void load_interleaved_impl(false_type, Vc::index_sequence<I...>,
+                                  Adapter<S, T, N> &a, const S *mem)
+{
+    Common::unrolled_loop<std::size_t, 0, N>([&](std::size_t i) {
+        assign_impl(a, i, mem[i], Vc::index_sequence<I...>());
+    });
+}
+template <class S, class T, size_t N, size_t... I>
+inline void load_interleaved_impl(true_type, Vc::index_sequence<I...> seq,
+                                  Adapter<S, T, N> &a, const S *mem)
 {
+    if (!members_in_memory_order(*mem, seq)) {
+        load_interleaved_impl(false_type(), seq, a, mem);
+        return;
+    }
     const InterleavedMemoryWrapper<S, decltype(decay_workaround(get_dispatcher<0>(a)))>
     wrapper(const_cast<S *>(mem));
     Vc::tie(get_dispatcher<I>(a)...) = wrapper[0];
@@ -1194,9 +1227,21 @@ inline void load_interleaved_impl(Vc::index_sequence<I...>, Adapter<S, T, N> &a,
 // }}}
 // store_interleaved_impl {{{
 template <class S, class T, size_t N, size_t... I>
-inline void store_interleaved_impl(Vc::index_sequence<I...>, const Adapter<S, T, N> &a,
-                                   S *mem)
+inline void store_interleaved_impl(false_type, Vc::index_sequence<I...>,
+                                   const Adapter<S, T, N> &a, S *mem)
+{
+    Common::unrolled_loop<std::size_t, 0, N>([&](std::size_t i) {
+        mem[i] = extract_impl(a, i, Vc::index_sequence<I...>());
+    });
+}
+template <class S, class T, size_t N, size_t... I>
+inline void store_interleaved_impl(true_type, Vc::index_sequence<I...> seq,
+                                   const Adapter<S, T, N> &a, S *mem)
 {
+    if (!members_in_memory_order(*mem, seq)) {
+        store_interleaved_impl(false_type(), seq, a, mem);
+        return;
+    }
     InterleavedMemoryWrapper<S, decltype(decay_workaround(get_dispatcher<0>(a)))> wrapper(
         mem);
     wrapper[0] = Vc::tie(get_dispatcher<I>(a)...);
@@ -1276,16 +1321,10 @@ Vc_INTRINSIC typename V::EntryType extract(const V &v, size_t i)
 template <class S, class T, size_t N>
 inline void load_interleaved(SimdizeDetail::Adapter<S, T, N> &a, const S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
-        !SimdizeDetail::members_in_memory_order(
-            *mem, Vc::make_index_sequence<SimdizeDetail::determine_tuple_size_<S>::value>())) {
-        Common::unrolled_loop<std::size_t, 0, N>(
-            [&](std::size_t i) { assign(a, i, mem[i]); });
-    } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
-        SimdizeDetail::load_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
-                                             mem);
-    }
+    using A = SimdizeDetail::Adapter<S, T, N>;
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    SimdizeDetail::load_interleaved_impl(SimdizeDetail::has_interleaved_access<A>(),
+                                         Vc::make_index_sequence<TupleSize>(), a, mem);
 }
 template <
     class V, class T,
@@ -1299,16 +1338,10 @@ Vc_INTRINSIC void load_interleaved(V &a, const T *mem)
 template <class S, class T, size_t N>
 inline void store_interleaved(const SimdizeDetail::Adapter<S, T, N> &a, S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
-        !SimdizeDetail::members_in_memory_order(
-            *mem, Vc::make_index_sequence<SimdizeDetail::determine_tuple_size_<S>::value>())) {
-        Common::unrolled_loop<std::size_t, 0, N>(
-            [&](std::size_t i) { mem[i] = extract(a, i); });
-    } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
-        SimdizeDetail::store_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
-                                              mem);
-    }
+    using A = SimdizeDetail::Adapter<S, T, N>;
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    SimdizeDetail::store_interleaved_impl(SimdizeDetail::has_interleaved_access<A>(),
+                                         Vc::make_index_sequence<TupleSize>(), a, mem);
 }
 template <
     class V, class T,
-- 
2.43.0


From 2eed018b14a3e9bdd824c0edc53a23c0f3d1f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 32/45] fix: broadcasting to simdized aggregates of SimdArray
 called the initializer_list constructor

---
 Vc/common/simdize.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 8e0dcf8..19c168c 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -693,11 +693,12 @@ template <typename T> T create();
 template <class Type, class... Init, class = decltype(Type(create<Init>()...))>
 constexpr std::integral_constant<int, 0> test(int);
 // 1: 1-brace init
-template <class Type, class... Init, class = decltype(Type{create<Init>()...})>
-constexpr std::integral_constant<int, 1> test(float);
-// 2: 2-brace init
-template <class Type, class... Init, class T, class = decltype(Type{{create<Init>()...}})>
-constexpr std::integral_constant<int, 2> test(T);
+template <class Type, class... Init, class T, class = decltype(Type{create<Init>()...})>
+constexpr std::integral_constant<int, 1> test(T);
+// 2: 2-brace init (note that if the first member has an initializer_list constructor this
+//    compiles also for aggregates that need 1-brace init; therefore it is tried last)
+template <class Type, class... Init, class = decltype(Type{{create<Init>()...}})>
+constexpr std::integral_constant<int, 2> test(float);
 // 3: no init at all
 template <class Type, class... Init> constexpr std::integral_constant<int, 3> test(...);
 }  // namespace preferred_construction_impl
-- 
2.43.0


From 33853e194805847f034aafbff8eebb6db81914c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 33/45] fix: simd_for_each over an empty std::vector accessed
 memory at address zero

---
 Vc/common/algorithms.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Vc/common/algorithms.h b/Vc/common/algorithms.h
index 3ad27c6..dcfe640 100644
--- a/Vc/common/algorithms.h
+++ b/Vc/common/algorithms.h
@@ -72,8 +72,7 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
 {
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    const auto lastV = last - V::Size + 1;
-    for (; first < lastV; first += V::Size) {
+    for (; last - first >= int(V::Size); first += V::Size) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
@@ -95,8 +94,7 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
 {
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    const auto lastV = last - V::size() + 1;
-    for (; first < lastV; first += V::size()) {
+    for (; last - first >= int(V::size()); first += V::size()) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
-- 
2.43.0


From 7abab72fd09479658e397b2d1a460dbbae45a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 34/45] fix: simdized random access iterator: operator[] const
 did not compile

---
 Vc/common/simdize.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 19c168c..3532b29 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1868,7 +1868,11 @@ public:
     }
 
     reference operator[](difference_type i) { return *(*this + i); }
-    const_reference operator[](difference_type i) const { return *(*this + i); }
+    const_reference operator[](difference_type i) const
+    {
+        const Iterator tmp = *this + i;
+        return *tmp;
+    }
 };
 
 template <typename T, size_t N, IteratorDetails::Mutable M, typename V, size_t Size>
-- 
2.43.0


From c1cfbc0e43b0d4d334fa0ae9e045c0367f4c67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 35/45] fix: dereferencing simdized iterators over
 Vc_SIMDIZE_INTERFACE structs did not compile

---
 Vc/common/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 3532b29..bdb7055 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1407,7 +1407,7 @@ Vc_INTRINSIC V fromIteratorImpl(enable_if<(I < End), It> it)
 template <typename It, typename V>
 Vc_INTRINSIC V fromIterator(enable_if<!Traits::is_simd_vector<V>::value, const It &> it)
 {
-    return fromIteratorImpl<It, V, 0, determine_tuple_size<V>()>(it);
+    return fromIteratorImpl<It, V, 0, determine_tuple_size<typename V::scalar_type>()>(it);
 }
 
 template <typename It, typename V>
-- 
2.43.0


From f11a56ccf08047338b297aaa38c99b231191dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 36/45] fix: assignment to it[n] of a simdized iterator wrote
 through a dangling reference

---
 Vc/common/simdize.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index bdb7055..2708e88 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1537,13 +1537,13 @@ class Reference<T, value_vector, Mutable::Yes> : public value_vector
 {
     static constexpr auto Size = value_vector::size();
 
-    using reference = typename std::add_lvalue_reference<T>::type;
-    reference scalar_it;
+    T scalar_it;
 
 public:
-    /// Construct the reference from the given iterator \p first_it and store a reference
-    /// to the iterator for write back in the assignment operator.
-    Reference(reference first_it)
+    /// Construct the reference from the given iterator \p first_it and store a copy of
+    /// the iterator for write back in the assignment operator. (A reference to the
+    /// iterator would dangle after, e.g., `it[1]`.)
+    Reference(const T &first_it)
         : value_vector(fromIterator<T, value_vector>(first_it)), scalar_it(first_it)
     {
     }
-- 
2.43.0


From 7bf9061eca7efec3a3508fa56511191f8df8f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 37/45] fix: simdized iterators over std::deque and
 std::reverse_iterator read wrong elements

---
 Vc/common/simdize.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 2708e88..9a4a1e8 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1416,12 +1416,17 @@ Vc_INTRINSIC V fromIterator(
         Traits::is_simd_vector<V>::value && Traits::has_contiguous_storage<It>::value, It>
         it)
 {
-#ifndef _MSC_VER
-    // this check potentially moves it past the end of a container, which is UB. Some STL
-    // implementations, like MS STL, trap this.
-    Vc_ASSERT(&*it + 1 == &*(it + 1));
-#endif
-    return V(&*it, Vc::Unaligned);
+    // has_contiguous_storage is only a heuristic: random access iterators do not always
+    // iterate over contiguous storage (e.g. std::deque and std::reverse_iterator).
+    constexpr auto last = V::size() - 1;
+    if (Vc_IS_LIKELY(&*it + last == &*(it + last))) {
+        return V(&*it, Vc::Unaligned);
+    }
+    V r;
+    for (size_t j = 0; j < V::size(); ++j, ++it) {
+        r[j] = *it;
+    }
+    return r;
 }
 
 template <typename It, typename V>
-- 
2.43.0


From ef034c768605f4f8baf04bc59fc26b079bf1b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 38/45] fix: CpuId::processorFamily multiplied the extended
 family by 16

---
 src/cpuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index e93a1cb..2b7ba6d 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -147,13 +147,13 @@ void CpuId::init()
     s_processorFamily = (eax & 0x00000f00) >> 8;
     if (isAmd()) {
         if (s_processorFamily >= 0xf) {
-            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
             s_processorFamily += processorFamilyExt;
             const uchar processorModelExt = (eax & 0x000f0000) >> 12;
             s_processorModel += processorModelExt;
         }
     } else if (s_processorFamily == 0xf) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
@@ -161,7 +161,7 @@ void CpuId::init()
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
     } else if (s_processorFamily == 0xB) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
-- 
2.43.0


From 32d82345eccf9a41c9d0654fb929ce86f9e4c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 39/45] fix: CpuId reported the L2 associativity of AMD CPUs as
 L3 associativity

---
 src/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 2b7ba6d..f477fed 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -198,7 +198,7 @@ void CpuId::init()
         s_L2Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
         s_L3DataLineSize = edx & 0xff;
         s_L3Data = (edx >> 18) * 512 * 1024;
-        s_L3Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
+        s_L3Associativity = CpuIdAmdAssociativityTable((edx >> 12) & 0xf);
         return;
     }
 
-- 
2.43.0


From df82e895b45e39ff04bc70c37a9db98708015cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 40/45] fix: CpuId reported the L1 instruction cache of
 descriptor 0x30 as data cache

---
 src/cpuid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index f477fed..dd226ec 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -380,8 +380,8 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L1Associativity = 8;
         break;
     case 0x30:
-        s_L1Data = 32 * 1024;
-        s_L1DataLineSize = 64;
+        s_L1Instruction = 32 * 1024;
+        s_L1InstructionLineSize = 64;
         s_L1Associativity = 8;
         break;
     case 0x40:
-- 
2.43.0


From 64b5d43429cbcf9a3ca610917ae59c137e2674da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 41/45] fix: CpuId interpreted unsupported cpuid leaves as
 feature bits

---
 src/cpuid.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index dd226ec..21f5ac8 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -139,6 +139,8 @@ void CpuId::init()
 
     Vc_CPUID(0);
     s_ecx0 = ecx;
+    // leaves larger than the maximum return no or unrelated information
+    const uint maxLeaf = eax;
 
     Vc_CPUID(1);
     s_processorFeaturesC = ecx;
@@ -174,13 +176,18 @@ void CpuId::init()
     ebx >>= 8;
     s_logicalProcessors = ebx & 0xff;
 
-    Vc_CPUID_C(7, 0);
-    s_processorFeatures7B = ebx;
-    s_processorFeatures7C = ecx;
+    if (maxLeaf >= 7) {
+        Vc_CPUID_C(7, 0);
+        s_processorFeatures7B = ebx;
+        s_processorFeatures7C = ecx;
+    }
 
-    Vc_CPUID(0x80000001);
-    s_processorFeatures8C = ecx;
-    s_processorFeatures8D = edx;
+    Vc_CPUID(0x80000000);
+    if (eax >= 0x80000001 && eax < 0x80010000) {
+        Vc_CPUID(0x80000001);
+        s_processorFeatures8C = ecx;
+        s_processorFeatures8D = edx;
+    }
 
     if (isAmd()) {
         s_prefetch = cacheLineSize();
-- 
2.43.0


From be834d497133b54fd765f08173ae9b7ca8981d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 42/45] fix: numeric_limits of vector types with a non-native
 ABI were not specialized

std::numeric_limits<Vc::Scalar::int_v>::max() (and with AVX those of the SSE
types) returned a vector of zeros from the unspecialized primary template.
---
 Vc/limits | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Vc/limits b/Vc/limits
index e6fe2db..a7cb297 100644
--- a/Vc/limits
+++ b/Vc/limits
@@ -35,20 +35,20 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 namespace std
 {
-template<typename T> struct numeric_limits<Vc::Vector<T> > : public numeric_limits<typename Vc::Vector<T>::EntryType>
+template<typename T, typename Abi> struct numeric_limits<Vc::Vector<T, Abi> > : public numeric_limits<typename Vc::Vector<T, Abi>::EntryType>
 {
 private:
-    typedef numeric_limits<typename Vc::Vector<T>::EntryType> _Base;
+    typedef numeric_limits<typename Vc::Vector<T, Abi>::EntryType> _Base;
 public:
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> max()           { return Vc::Vector<T>(_Base::max()); }
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> min()           { return Vc::Vector<T>(_Base::min()); }
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> lowest()        { return Vc::Vector<T>(_Base::lowest()); }
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> epsilon()       { return Vc::Vector<T>(_Base::epsilon()); }
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> round_error()   { return Vc::Vector<T>(_Base::round_error()); }
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> infinity()      { return Vc::Vector<T>(_Base::infinity()); }
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> quiet_NaN()     { return Vc::Vector<T>(_Base::quiet_NaN()); }
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> signaling_NaN() { return Vc::Vector<T>(_Base::signaling_NaN()); }
-    static Vc_INTRINSIC Vc_CONST Vc::Vector<T> denorm_min()    { return Vc::Vector<T>(_Base::denorm_min()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> max()           { return Vc::Vector<T, Abi>(_Base::max()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> min()           { return Vc::Vector<T, Abi>(_Base::min()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> lowest()        { return Vc::Vector<T, Abi>(_Base::lowest()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> epsilon()       { return Vc::Vector<T, Abi>(_Base::epsilon()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> round_error()   { return Vc::Vector<T, Abi>(_Base::round_error()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> infinity()      { return Vc::Vector<T, Abi>(_Base::infinity()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> quiet_NaN()     { return Vc::Vector<T, Abi>(_Base::quiet_NaN()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> signaling_NaN() { return Vc::Vector<T, Abi>(_Base::signaling_NaN()); }
+    static Vc_INTRINSIC Vc_CONST Vc::Vector<T, Abi> denorm_min()    { return Vc::Vector<T, Abi>(_Base::denorm_min()); }
 };
 } // namespace std
 
-- 
2.43.0


From c97a7daf6220254dc72297e96324851ca5d36106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 43/45] fix: Scalar::double_v::Random cleared the high bits of
 the shared state

SSE::double_v::Random uses the upper 52 bits of the same state. Therefore the
first entry of e.g. SimdArray<double, 3>::Random() was always below 2^-12.
---
 Vc/scalar/vector.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/scalar/vector.tcc b/Vc/scalar/vector.tcc
index 5acbd2a..b1129ce 100644
--- a/Vc/scalar/vector.tcc
+++ b/Vc/scalar/vector.tcc
@@ -166,10 +166,10 @@ template<> Vc_INTRINSIC Scalar::double_v Scalar::double_v::Random()
 {
     typedef unsigned long long uint64 Vc_MAY_ALIAS;
     uint64 state0 = *reinterpret_cast<const uint64 *>(&Common::RandomState[8]);
-    state0 = (state0 * 0x5deece66dull + 11) & 0x000fffffffffffffull;
+    state0 = state0 * 0x5deece66dull + 11;
     *reinterpret_cast<uint64 *>(&Common::RandomState[8]) = state0;
     union { unsigned long long i; double f; } x;
-    x.i = state0 | 0x3ff0000000000000ull;
+    x.i = (state0 & 0x000fffffffffffffull) | 0x3ff0000000000000ull;
     return Scalar::double_v(x.f - 1.);
 }
 // isnegative {{{1
-- 
2.43.0


From e6481d6843e3d76b4ede056a468b6800cf90d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 44/45] fix: operator[] of vector and mask iterators ignored
 the iterator's position

---
 Vc/common/iterators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index 02f01a7..eb1c92a 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -55,7 +55,7 @@ public:
     using difference_type = int;
     using reference = value_type;
     Vc_ALWAYS_INLINE reference operator*() const { return v()[i()]; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i2]; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i() + i2]; }
 
 private:
     Vc_INTRINSIC V &v() const { return *static_cast<const Iterator<V> *>(this)->v; }
@@ -73,7 +73,7 @@ public:
     using difference_type = int;
     using reference = Vc::Detail::ElementReference<V, IteratorBase>;
     Vc_ALWAYS_INLINE reference operator*() const { return {*v(), i()}; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i2}; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i() + i2}; }
 
 private:
     Vc_INTRINSIC V *v() const { return static_cast<const Iterator<V> *>(this)->v; }
-- 
2.43.0


From c9b34ac66073ce71f67a2510241eb31c21a5c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 45/45] fix: comparing simdized list iterators asserted when
 traversing backwards

The debug assertion in Iterator::operator== incremented the left hand side
beyond the end of the container.
---
 Vc/common/simdize.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 9a4a1e8..2c01ebb 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1698,10 +1698,7 @@ public:
         if (scalar_it == rhs.scalar_it) {
             return true;
         } else {
-            T it(scalar_it);
-            for (size_t i = 1; i < Size; ++i) {
-                Vc_ASSERT((++it != rhs.scalar_it));
-            }
+            Vc_ASSERT((!passes(rhs.scalar_it, typename Traits::iterator_category())));
             return false;
         }
 #else
@@ -1759,6 +1756,20 @@ public:
 
 protected:
     T scalar_it;
+
+private:
+    using Traits = std::iterator_traits<T>;
+
+    ///\internal Whether the next step moves this iterator past \p end without ever
+    /// comparing equal to it. This can only be determined with random access iterators:
+    /// incrementing any other iterator to look for \p end is undefined if *this is the end
+    /// of the container (e.g. on traversing it backwards).
+    bool passes(const T &end, std::random_access_iterator_tag) const
+    {
+        const auto distance = end - scalar_it;
+        return distance > 0 && distance < typename Traits::difference_type(Size);
+    }
+    bool passes(const T &, std::forward_iterator_tag) const { return false; }
 };
 
 /**
-- 
2.43.0

