From 63839bd75044d9288ef9c2fea346f370cab0ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:13 +0000
Subject: [PATCH 01/22] fix: tanh output stage no longer overflows just below
 its upper cutoff

The product of the centered input and the normalized inverse amplitude is
rounded, so inputs within half a unit of the upper cutoff became 8.0 in a
format with 3 integer bits. On SIMD back ends, where ShiftLeft wraps, the
stage then returned -amplitude instead of +amplitude.
---
 internal/output.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output.h b/internal/output.h
index 92bf7b9..6df3542 100644
--- a/internal/output.h
+++ b/internal/output.h
@@ -405,6 +405,12 @@ struct OutputStageEvalBufferImpl<OutputStageTanh,
           Sub(input.reg[i], Dup<DataType>(real_zero_as_int32));
       F3 fixedpoint_input =
           F3::FromRaw(input_centered) * inverse_amplitude_normalized;
+      // The multiplication rounds, so an input just below the upper cutoff
+      // could become the unrepresentable value 8: the left shift must not
+      // overflow.
+      fixedpoint_input.raw() =
+          Min(fixedpoint_input.raw(),
+              Dup<DataType>((8 << inverse_amplitude_neg_exponent) - 1));
       // left shift
       fixedpoint_input.raw() = ShiftLeft(fixedpoint_input.raw(),
                                          28 - inverse_amplitude_neg_exponent);
-- 
2.43.0


From 439be3b76c78b9ac6bb8910d1f61dbd4a6a2af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:01 +0000
Subject: [PATCH 02/22] fix: scalar RoundingHalfSum rounds like VRHADD, as
 documented

It rounded odd negative sums away from zero while VRHADD and all the SIMD
implementations round them upwards.
---
 fixedpoint/fixedpoint.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixedpoint/fixedpoint.h b/fixedpoint/fixedpoint.h
index 56e95c0..27b2ace 100644
--- a/fixedpoint/fixedpoint.h
+++ b/fixedpoint/fixedpoint.h
@@ -238,8 +238,7 @@ inline std::int32_t RoundingHalfSum(std::int32_t a, std::int32_t b) {
   std::int64_t a64 = a;
   std::int64_t b64 = b;
   std::int64_t sum = a64 + b64;
-  std::int64_t sign = sum >= 0 ? 1 : -1;
-  return static_cast<std::int32_t>((sum + sign) / 2);
+  return static_cast<std::int32_t>((sum + 1) >> 1);
 }
 
 template <>
@@ -247,8 +246,7 @@ inline std::int16_t RoundingHalfSum(std::int16_t a, std::int16_t b) {
   std::int32_t a32 = a;
   std::int32_t b32 = b;
   std::int32_t sum = a32 + b32;
-  std::int32_t sign = sum >= 0 ? 1 : -1;
-  return static_cast<std::int16_t>((sum + sign) / 2);
+  return static_cast<std::int16_t>((sum + 1) >> 1);
 }
 
 template <typename IntegerType>
-- 
2.43.0


From 1ced44dc2156be0279a652400a98a17fe8424f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:36 +0000
Subject: [PATCH 03/22] fix: scalar ShiftLeft by 31 bits

The multiplier 1 << 31 overflowed int, so ShiftLeft(-1, 31) returned the
largest instead of the smallest int32.
---
 fixedpoint/fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedpoint/fixedpoint.h b/fixedpoint/fixedpoint.h
index 27b2ace..ea4659d 100644
--- a/fixedpoint/fixedpoint.h
+++ b/fixedpoint/fixedpoint.h
@@ -125,7 +125,7 @@ tIntegerType Neg(tIntegerType a) {
 template <typename tIntegerType, typename OffsetType>
 tIntegerType ShiftLeft(tIntegerType a, OffsetType offset) {
   const std::int64_t wide_a = static_cast<std::int64_t>(a);
-  const std::int64_t wide_shifted = wide_a * (1 << offset);
+  const std::int64_t wide_shifted = wide_a * (1ll << offset);
   const auto min = std::numeric_limits<tIntegerType>::min();
   const auto max = std::numeric_limits<tIntegerType>::max();
   return wide_shifted < min
-- 
2.43.0


From fc7e343f07efb5599eb07cc4a50a6e17575122dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:28 +0000
Subject: [PATCH 04/22] fix: All and Any of SSE4 and AVX2 masks look at the
 mask

testc(a, a) is true for every a, so All() was always true and comparing
vectors always found them equal; BitNot of the int 0 or 1 is never zero, so
the AVX2 Any() was always true.
---
 fixedpoint/fixedpoint_avx.h | 8 ++++----
 fixedpoint/fixedpoint_sse.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index f3fe732..d5e0a98 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -257,22 +257,22 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m256i a) {
-  return _mm256_testc_si256(a, a);
+  return _mm256_testc_si256(a, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x16_m256i a) {
-  return _mm256_testc_si256(a.v, a.v);
+  return _mm256_testc_si256(a.v, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool Any(__m256i a) {
-  return BitNot(_mm256_testz_si256(a, a));
+  return !_mm256_testz_si256(a, a);
 }
 
 template <>
 inline bool Any(int16x16_m256i a) {
-  return BitNot(_mm256_testz_si256(a.v, a.v));
+  return !_mm256_testz_si256(a.v, a.v);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index fbaa26a..c5843a7 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -260,12 +260,12 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m128i a) {
-  return _mm_testc_si128(a, a);
+  return _mm_testc_si128(a, _mm_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x8_m128i a) {
-  return _mm_testc_si128(a.v, a.v);
+  return _mm_testc_si128(a.v, _mm_set1_epi32(-1));
 }
 
 template <>
-- 
2.43.0


From 7ea6d26df84635f393256902e30ac55160a8fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:28 +0000
Subject: [PATCH 05/22] fix: int32 SaturatingRoundingDoublingHighMul saturates
 on SSE4 and AVX2

INT_MIN * INT_MIN returned INT_MIN instead of INT_MAX.
---
 fixedpoint/fixedpoint_avx.h | 5 +++--
 fixedpoint/fixedpoint_sse.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index d5e0a98..2f4ca98 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -315,13 +315,14 @@ inline int16x16_m256i RoundingHalfSum(int16x16_m256i a, int16x16_m256i b) {
 
 template <>
 inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
-  __m256i min, saturation_mask, a0_a2, a1_a3, b0_b2, b1_b3;
+  __m256i min, max, saturation_mask, a0_a2, a1_a3, b0_b2, b1_b3;
   __m256i a0b0_a2b2, a1b1_a3b3, a0b0_a2b2_rounded, a1b1_a3b3_rounded;
   __m256i a0b0_a2b2_rounded_2x, a1b1_a3b3_rounded_2x, result;
   __m256i nudge;
 
   // saturation only happen if a == b == INT_MIN
   min = _mm256_set1_epi32(std::numeric_limits<std::int32_t>::min());
+  max = _mm256_set1_epi32(std::numeric_limits<std::int32_t>::max());
   saturation_mask = BitAnd(MaskIfEqual(a, b), MaskIfEqual(a, min));
 
   // a = a0 | a1 | a2 | a3
@@ -348,7 +349,7 @@ inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
                               a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(saturation_mask, max, result);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index c5843a7..e315c26 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -319,13 +319,14 @@ inline int16x8_m128i RoundingHalfSum(int16x8_m128i a, int16x8_m128i b) {
 
 template <>
 inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
-  __m128i min, saturation_mask, a0_a2, a1_a3, b0_b2, b1_b3;
+  __m128i min, max, saturation_mask, a0_a2, a1_a3, b0_b2, b1_b3;
   __m128i a0b0_a2b2, a1b1_a3b3, a0b0_a2b2_rounded, a1b1_a3b3_rounded;
   __m128i a0b0_a2b2_rounded_2x, a1b1_a3b3_rounded_2x, result;
   __m128i nudge;
 
   // saturation only happen if a == b == INT_MIN
   min = _mm_set1_epi32(std::numeric_limits<std::int32_t>::min());
+  max = _mm_set1_epi32(std::numeric_limits<std::int32_t>::max());
   saturation_mask = BitAnd(MaskIfEqual(a, b), MaskIfEqual(a, min));
 
   // a = a0 | a1 | a2 | a3
@@ -352,7 +353,7 @@ inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
                            a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(saturation_mask, max, result);
 }
 
 template <>
-- 
2.43.0


From c7af4fff8732024ec91ce1ef485843c4a7dd1884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:29 +0000
Subject: [PATCH 06/22] fix: an AVX2 vector of int32 has 8 lanes

Every operation on __m256i processes 8 lanes; code that sized its buffers
from kLanes, like test_fixedpoint, wrote past their end.
---
 fixedpoint/fixedpoint_avx.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index 2f4ca98..3da365b 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -38,9 +38,7 @@ inline int16x16_m256i to_int16x16_m256i(__m256i w) {
 template <>
 struct FixedPointRawTypeTraits<__m256i> {
   typedef std::int32_t ScalarRawType;
-  // TODO: This can actually support up to 8 lanes, so we should either
-  // change to 8 or create int32x8_m256i struct to handle that case.
-  static const int kLanes = 4;
+  static const int kLanes = 8;
 };
 
 template <>
-- 
2.43.0


From e89f6c025e2ff2a9b41ff71ca9c9c4e2ef983759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:18 +0000
Subject: [PATCH 07/22] fix: tanh and logistic no longer negate the most
 negative value

---
 fixedpoint/fixedpoint.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fixedpoint/fixedpoint.h b/fixedpoint/fixedpoint.h
index ea4659d..3166079 100644
--- a/fixedpoint/fixedpoint.h
+++ b/fixedpoint/fixedpoint.h
@@ -839,7 +839,10 @@ FixedPoint<tRawType, 0> tanh(FixedPoint<tRawType, tIntegerBits> a) {
   typedef FixedPoint<tRawType, 0> ResultF;
   tRawType mask_if_negative = MaskIfLessThan(a, InputF::Zero());
   tRawType mask_if_zero = MaskIfZero(a);
-  InputF n = SelectUsingMask(mask_if_negative, a, -a);
+  // Only nonnegative values are negated, as -a overflows for the most negative.
+  InputF n = SelectUsingMask(
+      mask_if_negative, a,
+      -SelectUsingMask(mask_if_negative, InputF::Zero(), a));
   ResultF t = neg_tanh_on_negative_values(n);
   return SelectUsingMask(mask_if_zero, ResultF::Zero(),
                          SelectUsingMask(mask_if_negative, -t, t));
@@ -885,8 +888,12 @@ FixedPoint<tRawType, 0> logistic(FixedPoint<tRawType, tIntegerBits> a) {
   typedef FixedPoint<tRawType, 0> ResultF;
   tRawType mask_if_positive = MaskIfGreaterThan(a, InputF::Zero());
   tRawType mask_if_zero = MaskIfZero(a);
-  InputF abs_input = SelectUsingMask(mask_if_positive, a, -a);
-  ResultF result_if_positive = logistic_on_positive_values(abs_input);
+  // Only positive values are negated, as -a overflows for the most negative.
+  InputF neg_abs_input = SelectUsingMask(
+      mask_if_positive,
+      -SelectUsingMask(mask_if_positive, a, InputF::Zero()), a);
+  ResultF result_if_positive =
+      one_over_one_plus_x_for_x_in_0_1(exp_on_negative_values(neg_abs_input));
   ResultF result_if_negative = ResultF::One() - result_if_positive;
   const ResultF one_half =
       GEMMLOWP_CHECKED_FIXEDPOINT_CONSTANT(ResultF, 1 << 30, 0.5);
-- 
2.43.0


From a084e0fe5791d9a63615bbffce2de4030b7b4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:34 +0000
Subject: [PATCH 08/22] fix: splitting very many rows between threads no longer
 overflows int

---
 internal/multi_thread_gemm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/multi_thread_gemm.h b/internal/multi_thread_gemm.h
index 97183e7..2de6dde 100644
--- a/internal/multi_thread_gemm.h
+++ b/internal/multi_thread_gemm.h
@@ -695,7 +695,8 @@ void MultiThreadGemm(GemmContextType* context, const KernelBase& kernel,
     for (int n = 0; n < task_count; ++n) {
       int start_row = next_start_row;
       next_start_row = std::min(
-          rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));
+          rows, RoundUp<KernelFormat::kRows>(static_cast<int>(
+                    static_cast<std::int64_t>(rows) * (n + 1) / task_count)));
 
       int block_rows = next_start_row - start_row;
       auto lhs_block = lhs.block(start_row, 0, block_rows, depth);
-- 
2.43.0


From 0e4c87885089454a8a49eae28bb3ab338c0c052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:49 +0000
Subject: [PATCH 09/22] fix: element offsets in matrices of 2^31 or more
 elements no longer overflow int

---
 internal/pack.h | 3 ++-
 public/map.h    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/pack.h b/internal/pack.h
index a9eb396..5407567 100644
--- a/internal/pack.h
+++ b/internal/pack.h
@@ -167,7 +167,8 @@ class SideMap {
   }
   Scalar* data() const { return data_; }
   Scalar* data(int w, int d) const {
-    return data_ + w * width_stride() + d * depth_stride();
+    return data_ + static_cast<std::ptrdiff_t>(w) * width_stride() +
+           static_cast<std::ptrdiff_t>(d) * depth_stride();
   }
   Scalar operator()(int w, int d) const { return *data(w, d); }
   Scalar& operator()(int w, int d) { return *data(w, d); }
diff --git a/public/map.h b/public/map.h
index 6810b2b..54780f9 100644
--- a/public/map.h
+++ b/public/map.h
@@ -60,7 +60,8 @@ class MatrixMap {
   int cols_stride() const { return kOrder == MapOrder::RowMajor ? 1 : stride_; }
   Scalar* data() const { return data_; }
   Scalar* data(int row, int col) const {
-    return data_ + row * rows_stride() + col * cols_stride();
+    return data_ + static_cast<std::ptrdiff_t>(row) * rows_stride() +
+           static_cast<std::ptrdiff_t>(col) * cols_stride();
   }
   Scalar& operator()(int row, int col) const { return *data(row, col); }
 
-- 
2.43.0


From 89d78952552f909f3cd346aec4862c3c48b7d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:04 +0000
Subject: [PATCH 10/22] fix: float EightBitIntGemm with zero depth no longer
 outputs uninitialised scratch

---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index a8d9b43..1237257 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -341,6 +341,12 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
                      const std::uint8_t* b, std::int32_t b_offset,
                      std::int32_t ldb, float* c, float c_offset,
                      std::int32_t ldc, BitDepthSetting bit_depth) {
+  // Vacuous products leave the result alone, as they do in the 8-bit overload:
+  // the Gemm below would leave the scratch buffer uninitialized.
+  if (m == 0 || n == 0 || k == 0) {
+    return;
+  }
+
   ScopedLock sl(GlobalMutexes::EightBitIntGemm());
   GemmContext* context = GetOrCreateGlobalContext();
 
-- 
2.43.0


From 18c2be17b45c74855baa5141a167440811b866d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:17 +0000
Subject: [PATCH 11/22] fix: cache friendly meta executors stay within their
 scratch memory

---
 meta/single_thread_gemm.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/meta/single_thread_gemm.h b/meta/single_thread_gemm.h
index 258de69..50a1230 100644
--- a/meta/single_thread_gemm.h
+++ b/meta/single_thread_gemm.h
@@ -413,6 +413,14 @@ inline int CalculateCacheFriendlyTasksCount(int cache_size, int constant_memory,
   return (chunks_count + available_chunks - 1) / available_chunks;
 }
 
+// Size of every task but the last one, in whole chunks, so that no task
+// (including the last one, which gets what is left) has more chunks than fit.
+inline int CalculateCacheFriendlyTaskDim(int tasks_count, int total_dim,
+                                         int chunk_dim) {
+  const int chunks_count = (total_dim + chunk_dim - 1) / chunk_dim;
+  return chunk_dim * ((chunks_count + tasks_count - 1) / tasks_count);
+}
+
 template <typename Params>
 inline void UpdateCacheFriendlyTask(int m_offset, int m, int n_offset, int n,
                                     const Params& params, Params* task_params) {
@@ -467,7 +475,8 @@ class GemmExecutorPackRHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.n / cache_friendly_tasks_count;
+    const int cache_friendly_dim = internal::CalculateCacheFriendlyTaskDim(
+        cache_friendly_tasks_count, params.n, n);
 
     P task_params = params;
     for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
@@ -516,7 +525,8 @@ class GemmExecutorPackLHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.m / cache_friendly_tasks_count;
+    const int cache_friendly_dim = internal::CalculateCacheFriendlyTaskDim(
+        cache_friendly_tasks_count, params.m, m);
 
     P task_params = params;
     for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
-- 
2.43.0


From b8545605477b3bc9f15af54347059b1413584d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:17 +0000
Subject: [PATCH 12/22] fix: legacy meta gemm asks for enough scratch memory
 for shallow products

---
 meta/legacy_multi_thread_gemm.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/meta/legacy_multi_thread_gemm.h b/meta/legacy_multi_thread_gemm.h
index a1e48c3..2afd8d0 100644
--- a/meta/legacy_multi_thread_gemm.h
+++ b/meta/legacy_multi_thread_gemm.h
@@ -30,6 +30,22 @@ namespace internal {
 
 const std::int32_t kMaxCacheFriendlySize = 256 * 1024;
 
+// Number of right hand side columns multiplied at a time, for a right hand side
+// bigger than kMaxCacheFriendlySize. The last batch can be up to twice as big.
+inline std::int32_t CacheFriendlyColumns(std::int32_t k) {
+  return std::max(1, 4 * (kMaxCacheFriendlySize / (k * 4)));
+}
+
+// Memory needed to pack two rows and one batch of columns, see gemm_*_strided.
+inline std::int32_t CacheFriendlyScratch(std::int32_t n, std::int32_t k) {
+  const std::int32_t max_n = std::min(n, 2 * CacheFriendlyColumns(k));
+  const std::int32_t lhs_scratch = 32 + AlignTo<32>(2 * AlignTo<8>(k));
+  const std::int32_t rhs_scratch = 32 + AlignTo<32>(4 * AlignTo<8>(k));
+  return std::max(
+      4 * kMaxCacheFriendlySize,
+      AlignTo<64 * 1024>(lhs_scratch + (max_n + 3) / 4 * rhs_scratch));
+}
+
 template <typename IN_TYPE, typename OUT_TYPE, typename F>
 void CacheFriendlyMatrixMatrix(std::uint8_t* scratch, const IN_TYPE* lhs,
                                const IN_TYPE* rhs, std::int32_t m,
@@ -37,8 +53,7 @@ void CacheFriendlyMatrixMatrix(std::uint8_t* scratch, const IN_TYPE* lhs,
                                std::int32_t result_stride, const F& operation) {
   const std::int32_t rhs_size = n * k * sizeof(IN_TYPE);
   if (rhs_size > kMaxCacheFriendlySize) {
-    const std::int32_t optimal_n =
-        std::max(1, 4 * (kMaxCacheFriendlySize / (k * 4)));
+    const std::int32_t optimal_n = CacheFriendlyColumns(k);
     const std::int32_t chunks_count_less_one = n / optimal_n - 1;
     const std::int32_t chunk_size = optimal_n * k;
     for (int i = 0; i < chunks_count_less_one; ++i) {
@@ -84,7 +99,7 @@ class GemmQuantized8BitOperation : public Quantized8BitOperation {
 
   static std::int32_t ScratchPerThread(std::int32_t m, std::int32_t n,
                                        std::int32_t k) {
-    return 4 * kMaxCacheFriendlySize;
+    return CacheFriendlyScratch(n, k);
   }
 };
 
@@ -114,7 +129,7 @@ class GemmFloatOperation : public FloatOperation {
 
   static std::int32_t ScratchPerThread(std::int32_t m, std::int32_t n,
                                        std::int32_t k) {
-    return 4 * kMaxCacheFriendlySize;
+    return CacheFriendlyScratch(n, k);
   }
 };
 
@@ -143,7 +158,7 @@ class GemmInt32Operation : public Int32Operation {
 
   static std::int32_t ScratchPerThread(std::int32_t m, std::int32_t n,
                                        std::int32_t k) {
-    return 4 * kMaxCacheFriendlySize;
+    return CacheFriendlyScratch(n, k);
   }
 };
 
-- 
2.43.0


From 96a869c03690eb23ad606e7d977110a66d5c1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:17 +0000
Subject: [PATCH 13/22] fix: legacy meta tasks no longer refer to a dead copy
 of the operation

---
 meta/legacy_multi_thread_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/legacy_multi_thread_common.h b/meta/legacy_multi_thread_common.h
index d4cec6f..65a2003 100644
--- a/meta/legacy_multi_thread_common.h
+++ b/meta/legacy_multi_thread_common.h
@@ -135,7 +135,7 @@ void MultiThreadedMatrixMatrix(gemmlowp::WorkersPool* pool,
   std::vector<Task*> tasks;
   std::for_each(
       task_rects.begin(), task_rects.end(),
-      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, operation,
+      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, &operation,
        scratch_per_thread](internal::TaskRect& rect) {
         tasks.push_back(new internal::MetaTask<IN_TYPE, OUT_TYPE, F>(
             task_scratch, lhs, rhs, rect, k, result, result_stride, operation));
-- 
2.43.0


From 5906393a042823c57c28902f6fc08ff5b47ebc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:17 +0000
Subject: [PATCH 14/22] fix: meta quantized products with a shift of zero do
 not round

---
 meta/legacy_single_thread_gemm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/legacy_single_thread_gemm.h b/meta/legacy_single_thread_gemm.h
index d662e47..1a79099 100644
--- a/meta/legacy_single_thread_gemm.h
+++ b/meta/legacy_single_thread_gemm.h
@@ -63,7 +63,8 @@ void gemm_q8_strided(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      shift > 0 ? (1 << (shift - 1)) : 0;
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = result_stride;
@@ -107,7 +108,8 @@ void gemv_q8(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      shift > 0 ? (1 << (shift - 1)) : 0;
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = n;
-- 
2.43.0


From 5a5f375d8f37445023d666694cc976e2f2543329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:17 +0000
Subject: [PATCH 15/22] fix: meta fast path no longer mistakes strided vectors
 for packed ones

---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index 1237257..efa4f5c 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -192,8 +192,8 @@ bool IsRowMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one row vector? (a vector is both row and column major)
-  if (rows == 1) {
+  // Is it a one row vector? (a packed vector is both row and column major)
+  if (rows == 1 && (transpose || stride == 1)) {
     return true;
   }
 
@@ -206,8 +206,8 @@ bool IsColumnMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one column vector? (a vector is both row and column major)
-  if (cols == 1) {
+  // Is it a one column vector? (a packed vector is both row and column major)
+  if (cols == 1 && (!transpose || stride == 1)) {
     return true;
   }
 
-- 
2.43.0


From f39de997e31ea62f747fd7f8f7c60fad9114f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:58 +0000
Subject: [PATCH 16/22] fix: profiler forgets a finishing thread before freeing
 its state

ThreadInfo was deleted by one thread-specific key's destructor while a second,
per-thread key unregistered it afterwards, so that the profiler thread could
sample freed memory. The per-thread keys were also never deleted and ran out
after PTHREAD_KEYS_MAX threads.
---
 profiling/instrumentation.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/profiling/instrumentation.h b/profiling/instrumentation.h
index c1f852e..4bc42b2 100644
--- a/profiling/instrumentation.h
+++ b/profiling/instrumentation.h
@@ -159,19 +159,15 @@ inline std::set<ThreadInfo*>& ThreadsUnderProfiling() {
 }
 
 struct ThreadInfo {
-  pthread_key_t key;  // used only to get a callback at thread exit.
   ProfilingStack stack;
 
-  ThreadInfo() {
-    pthread_key_create(&key, ThreadExitCallback);
-    pthread_setspecific(key, this);
-    stack.lock = new Mutex();
-  }
+  ThreadInfo() { stack.lock = new Mutex(); }
 
-  static void ThreadExitCallback(void* ptr) {
+  // Runs at thread exit, see ThreadLocalThreadInfo. The profiler thread must
+  // no longer be able to find this object once its members are destroyed.
+  ~ThreadInfo() {
     ScopedLock sl(GlobalMutexes::Profiler());
-    ThreadInfo* self = static_cast<ThreadInfo*>(ptr);
-    ThreadsUnderProfiling().erase(self);
+    ThreadsUnderProfiling().erase(this);
   }
 };
 
-- 
2.43.0


From 5700f3b64b859f5697136a9d83929423aa3db161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:20 +0000
Subject: [PATCH 17/22] fix: profiler reads its finish flag and thread count
 under the lock

The flag telling the profiler thread to finish was written under the profiler
mutex but polled without it, and the number of registered threads was printed
while threads could still register or finish.
---
 profiling/profiler.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/profiling/profiler.h b/profiling/profiler.h
index 018da57..f2cab35 100644
--- a/profiling/profiler.h
+++ b/profiling/profiler.h
@@ -247,9 +247,13 @@ class ProfileTreeView {
   }
 
   void Print() const {
+    int threads_count = 0;
+    {
+      ScopedLock sl(GlobalMutexes::Profiler());
+      threads_count = static_cast<int>(ThreadsUnderProfiling().size());
+    }
     printf("\n");
-    printf("gemmlowp profile (%d threads, %d samples)\n",
-           static_cast<int>(ThreadsUnderProfiling().size()),
+    printf("gemmlowp profile (%d threads, %d samples)\n", threads_count,
            static_cast<int>(root_.weight));
     PrintNode(&root_, 0);
     printf("\n");
@@ -327,10 +331,12 @@ inline void* ProfilerThreadFunc(void*) {
   // profile data (the array of recorded stacks) can be a local variable here.
   std::vector<ProfilingStack> stacks;
 
-  while (!ProfilerThreadShouldFinish()) {
+  bool should_finish = false;
+  while (!should_finish) {
     WaitOneProfilerTick();
     {
       ScopedLock sl(GlobalMutexes::Profiler());
+      should_finish = ProfilerThreadShouldFinish();
       for (auto t : ThreadsUnderProfiling()) {
         ProfilingStack s;
         RecordStack(t, &s);
@@ -359,13 +365,11 @@ inline void FinishProfiling() {
   {
     ScopedLock sl(GlobalMutexes::Profiler());
     ReleaseBuildAssertion(IsProfiling(), "We weren't profiling!");
-    // The ProfilerThreadShouldFinish() mechanism here is really naive and bad,
-    // as the scary comments below should make clear.
-    // Should we use a condition variable?
     ProfilerThreadShouldFinish() = true;
   }  // must release the lock here to avoid deadlock with profiler thread.
   pthread_join(ProfilerThread(), nullptr);
-  IsProfiling() = false;  // yikes, this should be guarded by the lock!
+  ScopedLock sl(GlobalMutexes::Profiler());
+  IsProfiling() = false;
 }
 
 }  // namespace gemmlowp
-- 
2.43.0


From dcac20c77dfa0cefe6a812fb738254903b8c3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:39 +0000
Subject: [PATCH 18/22] fix: packed blocks of 2^31 or more elements

PackedSideBlock and PackedResult computed sizes and positions in int, so e.g.
a single-threaded 140000000 x 1 x 1 or 70000 x 1 x 32000 product on x86 (where
the LHS is not blocked) overflowed and crashed. Compute them in size_t and
ptrdiff_t.
---
 internal/pack.h   | 9 +++++----
 internal/unpack.h | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/pack.h b/internal/pack.h
index 5407567..909b209 100644
--- a/internal/pack.h
+++ b/internal/pack.h
@@ -52,8 +52,8 @@ class PackedSideBlock {
                   const BlockParams& block_params)
       : allocator_(allocator), pos_(0) {
     GetSideBlockParams(side, &params_, block_params);
-    data_handle_ =
-        allocator_->Reserve<std::uint8_t>(params_.l2_width * params_.l2_depth);
+    data_handle_ = allocator_->Reserve<std::uint8_t>(
+        static_cast<std::size_t>(params_.l2_width) * params_.l2_depth);
     sums_of_each_slice_handle_ =
         allocator_->Reserve<std::int32_t>(params_.l2_width);
   }
@@ -63,7 +63,8 @@ class PackedSideBlock {
   void seek_run(int start_width, int start_depth) const {
     int kernel_run_depth =
         std::min<int>(params_.l1_depth, params_.l2_depth - start_depth);
-    pos_ = params_.l2_width * start_depth + start_width * kernel_run_depth;
+    pos_ = static_cast<std::ptrdiff_t>(params_.l2_width) * start_depth +
+           static_cast<std::ptrdiff_t>(start_width) * kernel_run_depth;
   }
 
   void seek_next_cell() const { pos_ += KernelSideFormat::Cell::kSize; }
@@ -124,7 +125,7 @@ class PackedSideBlock {
   //
   // pos_ is mutable because during the computation we will want to
   // be able to iterate on the data in a const PackedSideBlock.
-  mutable int pos_;
+  mutable std::ptrdiff_t pos_;
 };
 
 // WidthMajor and DepthMajor are custom phrases modelled after the
diff --git a/internal/unpack.h b/internal/unpack.h
index 021f4aa..0105c71 100644
--- a/internal/unpack.h
+++ b/internal/unpack.h
@@ -31,8 +31,9 @@ class PackedResult {
  public:
   PackedResult(Allocator* _allocator, const BlockParams& _block_params)
       : allocator_(_allocator), block_params_(_block_params) {
-    matrix_handle_ = allocator_->Reserve<std::int32_t>(block_params_.l2_rows *
-                                                       block_params_.l2_cols);
+    matrix_handle_ = allocator_->Reserve<std::int32_t>(
+        static_cast<std::size_t>(block_params_.l2_rows) *
+        block_params_.l2_cols);
   }
 
   ~PackedResult() {}
@@ -74,7 +75,7 @@ void PrefetchResultBlock(const SrcMapType& src,
                              lhs_sums_of_each_slice,
                          int src_row, int src_col) {
   const std::int32_t* src_data = src.data(src_row, src_col);
-  const int src_stride = src.stride();
+  const std::ptrdiff_t src_stride = src.stride();
   const std::int32_t* lhs_sums_data = lhs_sums_of_each_slice.data(src_row);
   for (int r = 0; r < Rows; r += 4) {
     Prefetch(lhs_sums_data + r);
-- 
2.43.0


From 4030b098fcb73aab9710b0758ee987db59fefe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:39 +0000
Subject: [PATCH 19/22] fix: strides of 2^31/8 or more in vectorized packing
 and storing

The SSE4, AVX2 and NEON code multiplied the stride by up to 15 in int; with a
stride of e.g. 10^9 the products overflowed and the matrices were accessed out
of bounds (seen as crashes depending on the optimization level). Use
ptrdiff_t.
---
 internal/output_neon.h | 40 ++++++++++++++++++++--------------------
 internal/pack_avx.h    |  4 ++--
 internal/pack_neon.h   |  8 ++++----
 internal/pack_sse.h    |  2 +-
 4 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/internal/output_neon.h b/internal/output_neon.h
index 52ea1bc..d31a0df 100644
--- a/internal/output_neon.h
+++ b/internal/output_neon.h
@@ -346,7 +346,7 @@ struct StoreFinalOutputImpl<RegBlockInt32<4, 4>, DstType> {
     const auto& block =
         DstType::kOrder == MapOrder::ColMajor ? src : Transpose(src);
     std::int32_t* dst_ptr = dst->data(row, col);
-    int stride = dst->stride();
+    std::ptrdiff_t stride = dst->stride();
     for (int i = 0; i < 4; i++) {
       vst1q_s32(dst_ptr + i * stride, block.buf.reg[i]);
     }
@@ -388,13 +388,13 @@ struct StoreFinalOutputImpl<RegBlockInt32<8, 4>, DstType> {
                   int col) {
     std::int32_t* dst_ptr = dst->data(row, col);
     if (DstType::kOrder == MapOrder::ColMajor) {
-      int col_stride = dst->cols_stride();
+      std::ptrdiff_t col_stride = dst->cols_stride();
       for (int i = 0; i < 4; i++) {
         vst1q_s32(dst_ptr + i * col_stride + 0, src.buf.reg[2 * i + 0]);
         vst1q_s32(dst_ptr + i * col_stride + 4, src.buf.reg[2 * i + 1]);
       }
     } else {
-      int row_stride = dst->rows_stride();
+      std::ptrdiff_t row_stride = dst->rows_stride();
       RegBlockInt32<4, 4> top;
       top.buf.reg[0] = src.buf.reg[0];
       top.buf.reg[1] = src.buf.reg[2];
@@ -459,13 +459,13 @@ struct StoreFinalOutputImpl<RegBlockInt32<8, 8>, DstType> {
                   int col) {
     std::int32_t* dst_ptr = dst->data(row, col);
     if (DstType::kOrder == MapOrder::ColMajor) {
-      int col_stride = dst->cols_stride();
+      std::ptrdiff_t col_stride = dst->cols_stride();
       for (int i = 0; i < 8; i++) {
         vst1q_s32(dst_ptr + i * col_stride, src.buf.reg[2 * i]);
         vst1q_s32(dst_ptr + i * col_stride + 4, src.buf.reg[2 * i + 1]);
       }
     } else {
-      int row_stride = dst->rows_stride();
+      std::ptrdiff_t row_stride = dst->rows_stride();
       RegBlockInt32<4, 4> top_left;
       top_left.buf.reg[0] = src.buf.reg[0];
       top_left.buf.reg[1] = src.buf.reg[2];
@@ -516,7 +516,7 @@ struct StoreFinalOutputImpl<RegBlockInt32<4, 1>, DstType> {
     if (DstType::kOrder == MapOrder::ColMajor) {
       vst1q_s32(dst_ptr, src.buf.reg[0]);
     } else {
-      int row_stride = dst->rows_stride();
+      std::ptrdiff_t row_stride = dst->rows_stride();
       vst1q_lane_s32(dst_ptr + 0 * row_stride, src.buf.reg[0], 0);
       vst1q_lane_s32(dst_ptr + 1 * row_stride, src.buf.reg[0], 1);
       vst1q_lane_s32(dst_ptr + 2 * row_stride, src.buf.reg[0], 2);
@@ -533,7 +533,7 @@ struct StoreFinalOutputImpl<RegBlockInt32<1, 4>, DstType> {
     if (DstType::kOrder == MapOrder::RowMajor) {
       vst1q_s32(dst_ptr, src.buf.reg[0]);
     } else {
-      int col_stride = dst->cols_stride();
+      std::ptrdiff_t col_stride = dst->cols_stride();
       vst1q_lane_s32(dst_ptr + 0 * col_stride, src.buf.reg[0], 0);
       vst1q_lane_s32(dst_ptr + 1 * col_stride, src.buf.reg[0], 1);
       vst1q_lane_s32(dst_ptr + 2 * col_stride, src.buf.reg[0], 2);
@@ -550,7 +550,7 @@ struct StoreFinalOutputImpl<RegBlockInt16<1, 4>, DstType> {
     if (DstType::kOrder == MapOrder::RowMajor) {
       vst1_s16(dst_ptr, src.buf.reg[0]);
     } else {
-      int col_stride = dst->cols_stride();
+      std::ptrdiff_t col_stride = dst->cols_stride();
       vst1_lane_s16(dst_ptr + 0 * col_stride, src.buf.reg[0], 0);
       vst1_lane_s16(dst_ptr + 1 * col_stride, src.buf.reg[0], 1);
       vst1_lane_s16(dst_ptr + 2 * col_stride, src.buf.reg[0], 2);
@@ -588,7 +588,7 @@ struct StoreFinalOutputImpl<RegBlockUint8<8, 1>, DstType> {
     if (DstType::kOrder == MapOrder::ColMajor) {
       vst1_u8(dst_ptr, src.buf.reg[0]);
     } else {
-      const int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       vst1_lane_u8(dst_ptr + 0 * row_stride, src.buf.reg[0], 0);
       vst1_lane_u8(dst_ptr + 1 * row_stride, src.buf.reg[0], 1);
       vst1_lane_u8(dst_ptr + 2 * row_stride, src.buf.reg[0], 2);
@@ -606,8 +606,8 @@ struct StoreFinalOutputImpl<RegBlockUint8<4, 4>, DstType> {
   static void Run(const RegBlockUint8<4, 4>& src, DstType* dst, int row,
                   int col) {
     std::uint8_t* dst_ptr = dst->data(row, col);
-    const int row_stride = dst->rows_stride();
-    const int col_stride = dst->cols_stride();
+    const std::ptrdiff_t row_stride = dst->rows_stride();
+    const std::ptrdiff_t col_stride = dst->cols_stride();
     for (int i = 0; i < 2; i++) {
       vst1_lane_u8(dst_ptr + 0 * row_stride + (2 * i + 0) * col_stride,
                    src.buf.reg[i], 0);
@@ -635,12 +635,12 @@ struct StoreFinalOutputImpl<RegBlockUint8<8, 4>, DstType> {
                   int col) {
     std::uint8_t* dst_ptr = dst->data(row, col);
     if (DstType::kOrder == MapOrder::ColMajor) {
-      int col_stride = dst->cols_stride();
+      std::ptrdiff_t col_stride = dst->cols_stride();
       for (int i = 0; i < 4; i++) {
         vst1_u8(dst_ptr + i * col_stride, src.buf.reg[i]);
       }
     } else {
-      int row_stride = dst->rows_stride();
+      std::ptrdiff_t row_stride = dst->rows_stride();
       for (int i = 0; i < 4; i++) {
         std::uint8_t* col_ptr = dst_ptr + i;
         vst1_lane_u8(col_ptr + 0 * row_stride, src.buf.reg[i], 0);
@@ -699,7 +699,7 @@ struct StoreFinalOutputImpl<RegBlockUint8<8, 8>, DstType> {
     const auto& block =
         DstType::kOrder == MapOrder::ColMajor ? src : Transpose(src);
     std::uint8_t* dst_ptr = dst->data(row, col);
-    int stride = dst->stride();
+    std::ptrdiff_t stride = dst->stride();
     for (int i = 0; i < 8; i++) {
       vst1_u8(dst_ptr + i * stride, block.buf.reg[i]);
     }
@@ -735,7 +735,7 @@ struct StoreFinalOutputImpl<RegBlockInt8<8, 1>, DstType> {
     if (DstType::kOrder == MapOrder::ColMajor) {
       vst1_s8(dst_ptr, src.buf.reg[0]);
     } else {
-      const int row_stride = dst->rows_stride();
+      const std::ptrdiff_t row_stride = dst->rows_stride();
       vst1_lane_s8(dst_ptr + 0 * row_stride, src.buf.reg[0], 0);
       vst1_lane_s8(dst_ptr + 1 * row_stride, src.buf.reg[0], 1);
       vst1_lane_s8(dst_ptr + 2 * row_stride, src.buf.reg[0], 2);
@@ -753,8 +753,8 @@ struct StoreFinalOutputImpl<RegBlockInt8<4, 4>, DstType> {
   static void Run(const RegBlockInt8<4, 4>& src, DstType* dst, int row,
                   int col) {
     std::int8_t* dst_ptr = dst->data(row, col);
-    const int row_stride = dst->rows_stride();
-    const int col_stride = dst->cols_stride();
+    const std::ptrdiff_t row_stride = dst->rows_stride();
+    const std::ptrdiff_t col_stride = dst->cols_stride();
     for (int i = 0; i < 2; i++) {
       vst1_lane_s8(dst_ptr + 0 * row_stride + (2 * i + 0) * col_stride,
                    src.buf.reg[i], 0);
@@ -782,12 +782,12 @@ struct StoreFinalOutputImpl<RegBlockInt8<8, 4>, DstType> {
                   int col) {
     std::int8_t* dst_ptr = dst->data(row, col);
     if (DstType::kOrder == MapOrder::ColMajor) {
-      int col_stride = dst->cols_stride();
+      std::ptrdiff_t col_stride = dst->cols_stride();
       for (int i = 0; i < 4; i++) {
         vst1_s8(dst_ptr + i * col_stride, src.buf.reg[i]);
       }
     } else {
-      int row_stride = dst->rows_stride();
+      std::ptrdiff_t row_stride = dst->rows_stride();
       for (int i = 0; i < 4; i++) {
         std::int8_t* col_ptr = dst_ptr + i;
         vst1_lane_s8(col_ptr + 0 * row_stride, src.buf.reg[i], 0);
@@ -846,7 +846,7 @@ struct StoreFinalOutputImpl<RegBlockInt8<8, 8>, DstType> {
     const auto& block =
         DstType::kOrder == MapOrder::ColMajor ? src : Transpose(src);
     std::int8_t* dst_ptr = dst->data(row, col);
-    int stride = dst->stride();
+    std::ptrdiff_t stride = dst->stride();
     for (int i = 0; i < 8; i++) {
       vst1_s8(dst_ptr + i * stride, block.buf.reg[i]);
     }
diff --git a/internal/pack_avx.h b/internal/pack_avx.h
index 1ef5ce1..8816be5 100644
--- a/internal/pack_avx.h
+++ b/internal/pack_avx.h
@@ -49,7 +49,7 @@ class PackingRegisterBlock<
 
   void Pack(PackedSideBlock<KernelSideFormat> *dst, int start_width) {
     std::uint8_t *dst_ptr = dst->current_data();
-    const int width_stride = this->complete_src_.width_stride();
+    const std::ptrdiff_t width_stride = this->complete_src_.width_stride();
     int depth_step = 16;
 
     __m256i one = _mm256_set1_epi16(1);
@@ -203,7 +203,7 @@ class PackingRegisterBlock<
 
   void Pack(PackedSideBlock<KernelSideFormat> *dst, int start_width) {
     std::uint8_t *dst_ptr = dst->current_data();
-    const int width_stride = this->complete_src_.width_stride();
+    const std::ptrdiff_t width_stride = this->complete_src_.width_stride();
     int depth_step = 8;
 
     __m128i one = _mm_set1_epi16(1);
diff --git a/internal/pack_neon.h b/internal/pack_neon.h
index f113d9e..4cd0391 100644
--- a/internal/pack_neon.h
+++ b/internal/pack_neon.h
@@ -51,7 +51,7 @@ class PackingRegisterBlock<
   void Pack(PackedSideBlock<KernelSideFormat>* dst, int start_width) {
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* const src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     uint8x16_t src_lines[4 * kCells];
     for (int i = 0; i < 4 * kCells; i++) {
@@ -152,7 +152,7 @@ class PackingRegisterBlock<
   void Pack(PackedSideBlock<KernelSideFormat>* dst, int start_width) {
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     uint16x8_t src_lines[kCells * 4];
     for (int i = 0; i < kCells; i++) {
@@ -278,7 +278,7 @@ class PackingRegisterBlock<WidthMajorUint8SideMap,
     std::int32_t* sums_ptr = dst->sums_of_each_slice() + start_width;
     std::uint8_t* dst_ptr = dst->current_data();
     const std::uint8_t* const src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     uint8x16_t src_lines[Width];
     for (int i = 0; i < Width; i++) {
@@ -343,7 +343,7 @@ class PackingRegisterBlock<WidthMajorInt8SideMap,
     std::int32_t* sums_ptr = dst->sums_of_each_slice() + start_width;
     std::int8_t* dst_ptr = reinterpret_cast<std::int8_t*>(dst->current_data());
     const std::int8_t* const src_ptr = this->complete_src_.data();
-    const int stride = this->complete_src_.stride();
+    const std::ptrdiff_t stride = this->complete_src_.stride();
     // Load source WidthMajor data
     int8x16_t src_lines[Width];
     for (int i = 0; i < Width; i++) {
diff --git a/internal/pack_sse.h b/internal/pack_sse.h
index b729014..9735cf6 100644
--- a/internal/pack_sse.h
+++ b/internal/pack_sse.h
@@ -49,7 +49,7 @@ class PackingRegisterBlock<
 
   void Pack(PackedSideBlock<KernelSideFormat>* dst, int start_width) {
     std::uint8_t* dst_ptr = dst->current_data();
-    const int width_stride = this->complete_src_.width_stride();
+    const std::ptrdiff_t width_stride = this->complete_src_.width_stride();
     int depth_step = 8;
 
     __m128i one = _mm_set1_epi16(1);
-- 
2.43.0


From 5bc0777a05749869fba50e36e4636198920a7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:39 +0000
Subject: [PATCH 20/22] fix: int overflow when choosing L2 block sizes for very
 deep products

l2_depth * l2_cols overflowed int from a depth of 2^31/kCols on when
l2_rhs_factor is not 1 (e.g. 1 x 1 x 600000000). Compute in 64 bits.
---
 internal/block_params.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/block_params.h b/internal/block_params.h
index aedd261..5dfa3a4 100644
--- a/internal/block_params.h
+++ b/internal/block_params.h
@@ -86,9 +86,12 @@ struct BlockParams {
     if (l2_rhs_factor == 1.0f) {
       l2_rows = RoundUp<KernelFormat::kRows>(per_thread_rows);
     } else {
-      int max_cache_friendly_l2_rows =
-          std::max(1, (l2_bytes_to_use - l2_depth * l2_cols) /
-                          (num_threads * (l2_depth + 4 * l2_cols)));
+      const std::int64_t l2_rhs_bytes =
+          static_cast<std::int64_t>(l2_depth) * l2_cols;
+      const std::int64_t l2_bytes_per_row =
+          num_threads * (l2_depth + static_cast<std::int64_t>(4) * l2_cols);
+      int max_cache_friendly_l2_rows = static_cast<int>(std::max<std::int64_t>(
+          1, (l2_bytes_to_use - l2_rhs_bytes) / l2_bytes_per_row));
       int min_l2_rows_blocks = std::max(
           1, CeilQuotient(per_thread_rows, max_cache_friendly_l2_rows));
       l2_rows = RoundUp<KernelFormat::kRows>(
-- 
2.43.0


From b1ece6046c449e714f3ae5a29494939eea5977fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:15 +0000
Subject: [PATCH 21/22] fix: 32-bit scratch size in the float EightBitIntGemm

The size of the int32 scratch result and offsets into it and into the float
result were computed in int; with e.g. n = 9 and ldc = 96406545 the size
wrapped, no scratch was allocated and the product crashed.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index efa4f5c..8119a92 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -144,7 +144,7 @@ class Scratch {
  public:
   Scratch() : buffer_(), buffer_32_(nullptr), size_(0) {}
 
-  void AssureSize(std::int32_t required_size) {
+  void AssureSize(std::size_t required_size) {
     if (size_ >= required_size) {
       return;
     }
@@ -167,7 +167,7 @@ class Scratch {
  private:
   std::unique_ptr<std::uint8_t[]> buffer_;
   std::uint8_t* buffer_32_;
-  std::int32_t size_;
+  std::size_t size_;
 };
 
 Scratch* global_scratch = nullptr;
@@ -362,9 +362,9 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   // TODO(maciekc): implement a float output stage, get rid of scratch memory.
   Scratch* scratch = GetOrCreateGlobalScratch();
   if (transpose_c) {
-    scratch->AssureSize(m * ldc * sizeof(std::int32_t));
+    scratch->AssureSize(sizeof(std::int32_t) * m * ldc);
   } else {
-    scratch->AssureSize(n * ldc * sizeof(std::int32_t));
+    scratch->AssureSize(sizeof(std::int32_t) * n * ldc);
   }
   std::int32_t* temp_c = reinterpret_cast<std::int32_t*>(scratch->buffer());
 
@@ -389,8 +389,8 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   if (transpose_c) {
     // Row major.
     for (int i = 0; i < m; ++i) {
-      float* dest_row = c + i * ldc;
-      std::int32_t* src_row = temp_c + i * ldc;
+      float* dest_row = c + static_cast<std::ptrdiff_t>(i) * ldc;
+      std::int32_t* src_row = temp_c + static_cast<std::ptrdiff_t>(i) * ldc;
       for (int j = 0; j < n; ++j) {
         dest_row[j] = static_cast<float>(src_row[j]) * c_offset;
       }
@@ -398,8 +398,8 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   } else {
     // Column major.
     for (int i = 0; i < n; ++i) {
-      float* dest_column = c + i * ldc;
-      std::int32_t* src_column = temp_c + i * ldc;
+      float* dest_column = c + static_cast<std::ptrdiff_t>(i) * ldc;
+      std::int32_t* src_column = temp_c + static_cast<std::ptrdiff_t>(i) * ldc;
       for (int j = 0; j < m; ++j) {
         dest_column[j] = static_cast<float>(src_column[j]) * c_offset;
       }
-- 
2.43.0


From c4b34d4e479b88c45b33a3716a7a310969936667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:02 +0000
Subject: [PATCH 22/22] fix: do not treat an unsigned LHS range containing 0 as
 never zero

DefaultKernel considered any LHS range with maximum <= 127 and minimum > -128
as suitable for the kernels that require a nonzero (after conversion to int8,
not -128) LHS. That reasoning only holds for signed operands: an unsigned range
such as [0,127] contains 0, which those kernels see as -128, so their 16-bit
intermediate sums overflow.
---
 internal/kernel_default.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/kernel_default.h b/internal/kernel_default.h
index 29b0991..39a7e9f 100644
--- a/internal/kernel_default.h
+++ b/internal/kernel_default.h
@@ -50,7 +50,8 @@ struct DefaultKernel
                          4096),
                         (BitDepthParams::LhsRange::kMinValue >= 0),
                         (BitDepthParams::LhsRange::kMinValue > 0 ||
-                         (BitDepthParams::LhsRange::kMaxValue <= 127 &&
+                         (BitDepthParams::LhsRange::kMinValue < 0 &&
+                          BitDepthParams::LhsRange::kMaxValue <= 127 &&
                           BitDepthParams::LhsRange::kMinValue > -128))> {};
 
 }  // end namespace gemmlowp
-- 
2.43.0

