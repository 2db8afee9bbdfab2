From d5c3df1c3d9d9fbd8202dda46f9a2642bc295ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:19 +0000
Subject: [PATCH 01/26] fix: use arithmetic shifts in the fixed-point SIMD
 multiply kernels

Products are signed. The logical shift turned every negative product into
a large positive one, which the following pack saturated to the maximum.
---
 src/neo/fixed_point/simd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index c04a7b4..ed5299c 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -44,12 +44,12 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
     auto const lowLeft    = _mm_cvtepi8_epi16(lhs);
     auto const lowRight   = _mm_cvtepi8_epi16(rhs);
     auto const lowProduct = _mm_mullo_epi16(lowLeft, lowRight);
-    auto const lowShifted = _mm_srli_epi16(lowProduct, FractionalBits);
+    auto const lowShifted = _mm_srai_epi16(lowProduct, FractionalBits);
 
     auto const highLeft    = _mm_cvtepi8_epi16(_mm_srli_si128(lhs, 8));
     auto const highRight   = _mm_cvtepi8_epi16(_mm_srli_si128(rhs, 8));
     auto const highProduct = _mm_mullo_epi16(highLeft, highRight);
-    auto const highShifted = _mm_srli_epi16(highProduct, FractionalBits);
+    auto const highShifted = _mm_srai_epi16(highProduct, FractionalBits);
 
     return _mm_packs_epi16(lowShifted, highShifted);
 };
@@ -62,12 +62,12 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
         auto const low_product = _mm_mullo_epi32(low_left, low_right);
-        auto const low_shifted = _mm_srli_epi32(low_product, FractionalBits);
+        auto const low_shifted = _mm_srai_epi32(low_product, FractionalBits);
 
         auto const high_left    = _mm_cvtepi16_epi32(_mm_srli_si128(lhs, 8));
         auto const high_right   = _mm_cvtepi16_epi32(_mm_srli_si128(rhs, 8));
         auto const high_product = _mm_mullo_epi32(high_left, high_right);
-        auto const high_shifted = _mm_srli_epi32(high_product, FractionalBits);
+        auto const high_shifted = _mm_srai_epi32(high_product, FractionalBits);
 
         return _mm_packs_epi32(low_shifted, high_shifted);
     }
-- 
2.43.0


From d8b5743b43f298b5f478552dd163c93ea337942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:47 +0000
Subject: [PATCH 02/26] fix: make the Q15 SIMD multiply agree with the scalar
 operator

mulhrs rounds instead of truncating and wraps -1 * -1 to -1. The same
product therefore depended on its position in the block; compute
saturate((lhs * rhs) >> 15) exactly, as documented.
---
 src/neo/fixed_point/simd.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index ed5299c..120f312 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -57,7 +57,10 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm_mulhrs_epi16(lhs, rhs);
+        // saturate((lhs * rhs) >> 15)
+        auto const high = _mm_mulhi_epi16(lhs, rhs);
+        auto const low  = _mm_mullo_epi16(lhs, rhs);
+        return _mm_or_si128(_mm_adds_epi16(high, high), _mm_srli_epi16(low, 15));
     } else {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
@@ -79,7 +82,10 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm256_mulhrs_epi16(lhs, rhs);
+        // saturate((lhs * rhs) >> 15)
+        auto const high = _mm256_mulhi_epi16(lhs, rhs);
+        auto const low  = _mm256_mullo_epi16(lhs, rhs);
+        return _mm256_or_si256(_mm256_adds_epi16(high, high), _mm256_srli_epi16(low, 15));
     } else {
         assert(false);
     }
@@ -92,7 +98,10 @@ inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx512_s16 = [](__m512i lhs, __m512i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm512_mulhrs_epi16(lhs, rhs);
+        // saturate((lhs * rhs) >> 15)
+        auto const high = _mm512_mulhi_epi16(lhs, rhs);
+        auto const low  = _mm512_mullo_epi16(lhs, rhs);
+        return _mm512_or_si512(_mm512_adds_epi16(high, high), _mm512_srli_epi16(low, 15));
     } else {
         assert(false);
     }
-- 
2.43.0


From abb45e80fc473488530847105b69e6eb77895af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:47 +0000
Subject: [PATCH 03/26] fix: saturate in floating point before converting to
 fixed point

A value outside the range of int32 made the conversion undefined; on x86
a large positive input became the most negative fixed-point number.
---
 src/neo/fixed_point/fixed_point.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/neo/fixed_point/fixed_point.hpp b/src/neo/fixed_point/fixed_point.hpp
index 8103073..6b53ab0 100644
--- a/src/neo/fixed_point/fixed_point.hpp
+++ b/src/neo/fixed_point/fixed_point.hpp
@@ -20,6 +20,14 @@ constexpr auto saturate(std::int32_t x) -> IntType
     return static_cast<IntType>(std::clamp(x, min_v, max_v));
 }
 
+template<typename IntType>
+constexpr auto saturate_cast(float x) -> IntType
+{
+    auto const min_v = static_cast<float>(std::numeric_limits<IntType>::min());
+    auto const max_v = static_cast<float>(std::numeric_limits<IntType>::max());
+    return static_cast<IntType>(std::clamp(x, min_v, max_v));
+}
+
 }  // namespace detail
 
 struct underlying_value_t
@@ -44,7 +52,7 @@ struct fixed_point
 
     template<std::floating_point Float>
     explicit constexpr fixed_point(Float val) noexcept
-        : _value{detail::saturate<storage_type>(static_cast<std::int32_t>(static_cast<float>(val) * scale))}
+        : _value{detail::saturate_cast<storage_type>(static_cast<float>(val) * scale)}
     {}
 
     constexpr fixed_point([[maybe_unused]] underlying_value_t tag, storage_type val) noexcept : _value{val} {}
-- 
2.43.0


From 65b687ded3f47833e0ad864faaca2e8719d16aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:28 +0000
Subject: [PATCH 04/26] fix: make copy from split to interleaved complex
 compile

split_complex has no extent() of its own, so the overload could never be
instantiated; use the extent of the real part, as the assertion does.
---
 src/neo/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/algorithm/copy.hpp b/src/neo/algorithm/copy.hpp
index b431dc1..64f6d0c 100644
--- a/src/neo/algorithm/copy.hpp
+++ b/src/neo/algorithm/copy.hpp
@@ -54,7 +54,7 @@ constexpr auto copy(split_complex<InVec> in, OutVec out) noexcept -> void
 
     using Complex = value_type_t<OutVec>;
 
-    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.extent(0)); ++i) {
+    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.real.extent(0)); ++i) {
         out[i] = Complex{in.real[i], in.imag[i]};
     }
 }
-- 
2.43.0


From 72521ffc22912df09c3bd381ec1167a5799511f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:28 +0000
Subject: [PATCH 05/26] fix: overwrite an existing entry in csr_matrix::insert

Inserting twice at one position stored two entries for it: lookup saw
only the newest while multiply_add accumulated both.
---
 src/neo/container/csr_matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neo/container/csr_matrix.hpp b/src/neo/container/csr_matrix.hpp
index c267467..09ebd76 100644
--- a/src/neo/container/csr_matrix.hpp
+++ b/src/neo/container/csr_matrix.hpp
@@ -147,6 +147,11 @@ auto csr_matrix<T, IndexType, ValueContainer, IndexContainer>::insert(index_type
         idx++;
     }
 
+    if (idx < _row_indices[row + 1] && _colum_indices[idx] == col) {
+        _values[idx] = value;
+        return;
+    }
+
     auto const pidx = static_cast<std::ptrdiff_t>(idx);
     _values.insert(std::next(_values.begin(), pidx), value);
     _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
-- 
2.43.0


From 20285f68e41ac65398a90d0bc7bfb8565f2efc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:59 +0000
Subject: [PATCH 06/26] fix: saturate spectral coefficients in compressed_fdl

Coefficients of magnitude above one wrapped around on conversion to the
integer storage and changed sign.
---
 src/neo/convolution/compressed_fdl.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/neo/convolution/compressed_fdl.hpp b/src/neo/convolution/compressed_fdl.hpp
index e43391a..10a9892 100644
--- a/src/neo/convolution/compressed_fdl.hpp
+++ b/src/neo/convolution/compressed_fdl.hpp
@@ -7,6 +7,7 @@
 #include <neo/container/compressed_accessor.hpp>
 #include <neo/container/mdspan.hpp>
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -37,8 +38,10 @@ struct compressed_fdl
     {
         auto const compress = [](auto val) {
             using int_type         = typename IntComplex::value_type;
-            constexpr auto max_val = std::numeric_limits<int_type>::max();
-            return static_cast<int_type>(std::lround(val * static_cast<float>(max_val)));
+            constexpr auto min_val = static_cast<float>(std::numeric_limits<int_type>::min());
+            constexpr auto max_val = static_cast<float>(std::numeric_limits<int_type>::max());
+            using scaled_type      = decltype(val * max_val);
+            return static_cast<int_type>(std::lround(std::clamp<scaled_type>(val * max_val, min_val, max_val)));
         };
 
         auto const fdl = stdex::submdspan(_fdl.to_mdspan(), index, stdex::full_extent);
-- 
2.43.0


From 239a96c27753937612ecd053e039e07bdaf9703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:59 +0000
Subject: [PATCH 07/26] fix: restart the stream when overlap_add_convolver gets
 a new filter

The position in the block and the current segment survived filter(), so
a filter with fewer segments or a smaller block indexed out of range.
---
 src/neo/convolution/overlap_add_convolver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a15fced..431c4ed 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -54,8 +54,10 @@ private:
 template<complex Complex, typename Fdl, typename Filter>
 auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> auto f) -> void
 {
-    _block_size   = f.extent(1) - 1;
-    _num_segments = f.extent(0);
+    _block_size      = f.extent(1) - 1;
+    _num_segments    = f.extent(0);
+    _input_pos       = 0;
+    _current_segment = 0;
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
-- 
2.43.0


From 76a781043e8298b6c11fddfb7b184526f4594e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:59 +0000
Subject: [PATCH 08/26] fix: swap the directions of the radix-2 Stockham plans

forward computed the inverse transform and backward the forward one.
---
 src/neo/fft/reference/c2c_stockham_dif2_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
index 041fa2b..8e5b800 100644
--- a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
@@ -107,7 +107,7 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 1>>(n / 2);
         for (std::size_t i = 0; i < w.size(); i++) {
-            w(i) = twiddle<Complex>(n, i, fft::direction::backward);
+            w(i) = twiddle<Complex>(n, i, fft::direction::forward);
         }
         return w;
     }
@@ -194,8 +194,8 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n / 2};
         for (std::size_t i = 0; i < w.extent(1); i++) {
-            w(0, i) = twiddle<Complex>(n, i, fft::direction::backward);
-            w(1, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(0, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(1, i) = twiddle<Complex>(n, i, fft::direction::backward);
         }
         return w;
     }
-- 
2.43.0


From f39ed530c3a8f0be5d27fcc685da26f2466694e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:59 +0000
Subject: [PATCH 09/26] fix: rotate the radix-4 butterflies in the direction of
 the twiddles

The butterfly used the conjugate root of unity, so neither direction was
a Fourier transform of more than four points.
---
 src/neo/fft/reference/c2c_dit4_plan.hpp          | 16 ++++++++--------
 src/neo/fft/reference/c2c_stockham_dit4_plan.hpp |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 3a9f7d1..d8c562d 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -88,9 +88,9 @@ private:
                     auto const d3 = (c1 - c3) * z;
 
                     x[i0] = d0 + d2;
-                    x[i1] = d1 - d3;
+                    x[i1] = d1 + d3;
                     x[i2] = -d2 + d0;
-                    x[i3] = d3 + d1;
+                    x[i3] = d1 - d3;
                 }
 
                 for (auto k{1ULL}; k < krange; ++k) {
@@ -114,9 +114,9 @@ private:
                     auto const d3 = (c1 - c3) * z;
 
                     x[i0] = d0 + d2;
-                    x[i1] = d1 - d3;
+                    x[i1] = d1 + d3;
                     x[i2] = -d2 + d0;
-                    x[i3] = d3 + d1;
+                    x[i3] = d1 - d3;
                 }
 
                 base = base + (4UL * krange);
@@ -163,16 +163,16 @@ private:
                     x[i0]         = d0 + d2;
 
                     if (k == 0) {
-                        x[i1] = d1 - (z * d3);
+                        x[i1] = d1 + (z * d3);
                         x[i2] = d0 - d2;
-                        x[i3] = d1 + (z * d3);
+                        x[i3] = d1 - (z * d3);
                     } else {
                         auto w1 = twiddle[1 * k * w_stride];
                         auto w2 = twiddle[2 * k * w_stride];
                         auto w3 = twiddle[3 * k * w_stride];
-                        x[i1]   = (d1 - (z * d3)) * w1;
+                        x[i1]   = (d1 + (z * d3)) * w1;
                         x[i2]   = (d0 - d2) * w2;
-                        x[i3]   = (d1 + (z * d3)) * w3;
+                        x[i3]   = (d1 - (z * d3)) * w3;
                     }
                 }
 
diff --git a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
index 96af1f8..364acea 100644
--- a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
@@ -81,9 +81,9 @@ struct c2c_stockham_dit4_plan
                     auto const t3 = b - d;
 
                     x[(j + lstar * 0) * r + k] = t0 + t2;
-                    x[(j + lstar * 1) * r + k] = t1 - t3 * i;
+                    x[(j + lstar * 1) * r + k] = t1 + t3 * i;
                     x[(j + lstar * 2) * r + k] = t0 - t2;
-                    x[(j + lstar * 3) * r + k] = t1 + t3 * i;
+                    x[(j + lstar * 3) * r + k] = t1 - t3 * i;
                 }
             }
         }
-- 
2.43.0


From b1a3af8bfe8910fe56e061427e07f4070ae88c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:22 +0000
Subject: [PATCH 10/26] fix: transforms of one and two points in the radix-2
 kernels

An order-0 plan combined x[0] with the element past the end, and
c2c_dit2_v4 applied the only stage of an order-1 transform twice.
---
 src/neo/fft/fallback/fallback_split_fft_plan.hpp |  2 +-
 src/neo/fft/reference/kernel/c2c_dit2.hpp        | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/neo/fft/fallback/fallback_split_fft_plan.hpp b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
index 65c5074..1c83b10 100644
--- a/src/neo/fft/fallback/fallback_split_fft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
@@ -56,7 +56,7 @@ private:
         static constexpr auto const stage_length = 1;  // ipow<2>(0)
         static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-        for (auto k{0}; k < static_cast<int>(size()); k += stride) {
+        for (auto k{0}; k + stage_length < static_cast<int>(size()); k += stride) {
             auto const i1 = k;
             auto const i2 = k + stage_length;
 
diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index 1ed0ba7..3c90edb 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -30,7 +30,7 @@ struct c2c_dit2_v1
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -81,7 +81,7 @@ struct c2c_dit2_v2
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -135,7 +135,7 @@ struct c2c_dit2_v3
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -184,7 +184,7 @@ struct c2c_dit2_v4
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -194,7 +194,7 @@ struct c2c_dit2_v4
             }
         }
 
-        for (auto stage{1ULL}; stage < order - 1; ++stage) {
+        for (auto stage{1ULL}; stage + 1 < order; ++stage) {
 
             auto const stage_length = ipow<2ULL>(stage);
             auto const stride       = ipow<2ULL>(stage + 1);
@@ -214,7 +214,7 @@ struct c2c_dit2_v4
             }
         }
 
-        {
+        if (order > 1) {
             // stage = order - 1
             auto const stage_length = size / 2UL;
 
-- 
2.43.0


From 8545644ccbbb2b24ec4b552937059fc173a6414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:45 +0000
Subject: [PATCH 11/26] fix: one-point plans of the radix-4 transforms

The size of the twiddle table wrapped around for order 0 and the
constructor wrote past the end of the table.
---
 src/neo/fft/reference/c2c_dit4_plan.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index d8c562d..aa7dd18 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -189,11 +189,10 @@ private:
 
     [[nodiscard]] static auto make_twiddle_lut(size_type n)
     {
-        auto kmax  = 3UL * (n / 4UL - 1UL);
         auto w     = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n};
         auto w_fwd = stdex::submdspan(w.to_mdspan(), 0, stdex::full_extent);
         auto w_bwd = stdex::submdspan(w.to_mdspan(), 1, stdex::full_extent);
-        for (auto i{0U}; i < kmax + 1; ++i) {
+        for (auto i{0U}; i < n; ++i) {
             w_fwd[i] = twiddle<Complex>(n, i, direction::forward);
             w_bwd[i] = twiddle<Complex>(n, i, direction::backward);
         }
-- 
2.43.0


From 3fdd911b52e1bc1d22c85a3d677c3669ca48a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:33 +0000
Subject: [PATCH 12/26] fix: one-point DCT leaves its only sample unread

---
 src/neo/fft/dct.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neo/fft/dct.hpp b/src/neo/fft/dct.hpp
index 728ca98..65a723a 100644
--- a/src/neo/fft/dct.hpp
+++ b/src/neo/fft/dct.hpp
@@ -5,6 +5,7 @@
 #include <neo/algorithm/copy.hpp>
 #include <neo/container/mdspan.hpp>
 #include <neo/fft/fft.hpp>
+#include <neo/math/is_odd.hpp>
 
 #if defined(NEO_HAS_INTEL_IPP)
     #include <neo/fft/backend/ipp.hpp>
@@ -47,6 +48,9 @@ struct fallback_dct2_plan
             buf[i]   = x[src];
             buf[top] = x[src + 1];
         }
+        if (is_odd(len)) {
+            buf[len / 2U] = x[len - 1U];
+        }
 
         _fft(buf, direction::forward);
 
-- 
2.43.0


From 7b6981a14eb2c6df2ae5e105d34a42c627443dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:58 +0000
Subject: [PATCH 13/26] fix: twiddle direction of the experimental packed real
 transform

---
 src/neo/fft/experimental/rfft.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index bb556bb..3082273 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -156,7 +156,7 @@ struct rfft_plan
         auto const c2    = dir == direction::forward ? Float(-0.5) : Float(0.5);
         auto const theta = [=] {
             auto const t = static_cast<Float>(std::numbers::pi) / static_cast<Float>(n >> 1);
-            return dir == direction::forward ? t : -t;
+            return dir == direction::forward ? -t : t;
         }();
 
         if (dir == direction::forward) {
@@ -190,6 +190,11 @@ struct rfft_plan
             wi             = wi * wpr + tmp * wpi + wi;
         }
 
+        if (n > 2U) {
+            // bin n/4 is its own partner: only its imaginary part changes sign
+            x[n / 2U + 1U] = -x[n / 2U + 1U];
+        }
+
         auto const h1r = x[0];
         if (dir == direction::forward) {
             x[0] = h1r + x[1];
-- 
2.43.0


From 0044da19d5ecef56ce6b534c07db2088436ae21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:56 +0000
Subject: [PATCH 14/26] fix: keep the partial input block in
 overlap_add_convolver

---
 src/neo/convolution/overlap_add_convolver.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index 431c4ed..6904b43 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -40,6 +40,7 @@ private:
 
     fft::rfft_plan<real_type> _rfft{fft::from_order, fft::next_order(size_type(4))};
 
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _input_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _complex_window{_rfft.size() / 2 + 1};
@@ -61,6 +62,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
+    _input_window   = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
 
@@ -78,6 +80,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
     auto const num_samples = inout.extent(0);
     auto num_processed     = size_type(0);
 
+    auto input_window    = _input_window.to_mdspan();
     auto real_window     = _real_window.to_mdspan();
     auto complex_window  = _complex_window.to_mdspan();
     auto overlap         = _overlap.to_mdspan();
@@ -89,9 +92,10 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
         auto const num_to_process  = std::min(num_samples - num_processed, _block_size - _input_pos);
 
         auto const sub_inout  = stdex::submdspan(inout, std::tuple{num_processed, num_processed + num_to_process});
+        auto const sub_input  = stdex::submdspan(input_window, std::tuple{_input_pos, _input_pos + num_to_process});
         auto const sub_window = stdex::submdspan(real_window, std::tuple{_input_pos, _input_pos + num_to_process});
-        copy(sub_inout, sub_window);
-        rfft(_rfft, real_window, complex_window);
+        copy(sub_inout, sub_input);
+        rfft(_rfft, input_window, complex_window);
 
         _fdl.insert(complex_window, _current_segment);
 
@@ -128,7 +132,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
                 stdex::submdspan(real_window, std::tuple{_block_size, _block_size * 2}),
                 stdex::submdspan(overlap, std::tuple{0, _block_size})
             );
-            fill(real_window, real_type{});
+            fill(input_window, real_type{});
 
             _current_segment = (_current_segment > 0) ? (_current_segment - 1) : (_num_segments - 1);
         }
-- 
2.43.0


From 118593a15fd83391e25230787da15ec0d8915a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:44 +0000
Subject: [PATCH 15/26] fix: slide the whole overlap_save window by one block

Only whole blocks were moved, so with a block size that does not divide the
transform size the samples right before the new block were stale.
---
 src/neo/convolution/overlap_save.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/neo/convolution/overlap_save.hpp b/src/neo/convolution/overlap_save.hpp
index fb2ff9e..b55a1a5 100644
--- a/src/neo/convolution/overlap_save.hpp
+++ b/src/neo/convolution/overlap_save.hpp
@@ -36,15 +36,9 @@ struct overlap_save
 private:
     auto slide_window_left(auto window) -> void
     {
-        auto const step      = static_cast<int>(block_size());
-        auto const num_steps = static_cast<int>(window.extent(0)) / step;
-        for (auto i{0}; i < num_steps - 1; ++i) {
-            auto const dest_idx = i * step;
-            auto const src_idx  = dest_idx + step;
-
-            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + step});
-            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, src_idx});
-            copy(src_block, dest_block);
+        auto const step = block_size();
+        for (size_type i{0}; i + step < window.extent(0); ++i) {
+            window[i] = window[i + step];
         }
     }
 
-- 
2.43.0


From ef67f91c7a21e9e8b863a00e2ca6794749499211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:44 +0000
Subject: [PATCH 16/26] fix: keep the whole tail in overlap_add

The overlap buffer held one block only: the tail of a filter longer than the
block was dropped, and with a transform shorter than two blocks the padding
view reached past the end of the window.
---
 src/neo/convolution/overlap_add.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neo/convolution/overlap_add.hpp b/src/neo/convolution/overlap_add.hpp
index 0472aeb..3e1dd91 100644
--- a/src/neo/convolution/overlap_add.hpp
+++ b/src/neo/convolution/overlap_add.hpp
@@ -47,7 +47,7 @@ private:
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _window{_rfft.size()};
     stdex::mdarray<complex_type, stdex::dextents<size_t, 1>> _spectrum{_rfft.size() / 2 + 1};
-    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_block_size};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
 };
 
 template<complex Complex>
@@ -81,7 +81,7 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
 
     auto const window   = _window.to_mdspan();
     auto const signal   = stdex::submdspan(window, std::tuple{0, block_size()});
-    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
+    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), transform_size()});
     auto const spectrum = _spectrum.to_mdspan();
     auto const overlap  = _overlap.to_mdspan();
 
@@ -100,10 +100,13 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
     scale(1.0F / static_cast<real_type>(_rfft.size()), window);
 
     // Copy to output
-    add(signal, overlap, block);
+    add(signal, stdex::submdspan(overlap, std::tuple{0, block_size()}), block);
 
     // Save overlap for next iteration
-    copy(padding, overlap);
+    for (size_type i{0}; i < padding.extent(0); ++i) {
+        auto const pending = i + block_size() < padding.extent(0) ? overlap[i + block_size()] : real_type(0);
+        overlap[i]         = padding[i] + pending;
+    }
 }
 
 }  // namespace neo::convolution
-- 
2.43.0


From 57ce7f774595566ea053b59018b972b7aea55a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 17/26] fix: python convolve checks the dimension of both
 inputs

---
 extra/python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 77cebc0..224aa9e 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -170,7 +170,7 @@ template<neo::convolution::method Method, std::floating_point Float>
 [[nodiscard]] auto
 convolve(py::array_t<Float> in1, py::array_t<Float> in2, neo::convolution::mode mode) -> py::array_t<Float>
 {
-    if (in1.ndim() != 1 or in1.ndim() != 1) {
+    if (in1.ndim() != 1 or in2.ndim() != 1) {
         throw std::runtime_error{"unsupported dimension: in1 and in2 must be 1-D"};
     }
 
-- 
2.43.0


From b7e350ca37b5be227981831c602eca3d68474d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:00 +0000
Subject: [PATCH 18/26] fix: python fft crops or pads the input to n instead of
 reading past it

---
 extra/python/src/main.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 224aa9e..1d7361e 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -13,11 +13,13 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
 #include <bit>
 #include <complex>
 #include <cstdio>
 #include <iostream>
 #include <optional>
+#include <tuple>
 #include <typeindex>
 
 namespace py = pybind11;
@@ -144,14 +146,22 @@ auto fft(py::array_t<Complex> array, std::optional<std::size_t> n, neo::fft::nor
         {
             auto no_gil = py::gil_scoped_release{};
 
+            // crop or zero-pad the input to the requested size
+            auto const num_copy = std::min<std::size_t>(size, input.extent(0));
+            neo::fill(out, Complex{});
+            neo::copy(
+                stdex::submdspan(input, std::tuple{std::size_t(0), num_copy}),
+                stdex::submdspan(out, std::tuple{std::size_t(0), num_copy})
+            );
+
             auto plan = neo::fft::fft_plan<Complex>{neo::fft::from_order, order};
             if constexpr (Dir == neo::fft::direction::forward) {
-                neo::fft::fft(plan, input, out);
+                neo::fft::fft(plan, out);
                 if (norm == neo::fft::norm::forward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
             } else {
-                neo::fft::ifft(plan, input, out);
+                neo::fft::ifft(plan, out);
                 if (norm == neo::fft::norm::backward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
-- 
2.43.0


From dc865cf9ed20cbf32e201230ecf6f73f56baec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:31 +0000
Subject: [PATCH 19/26] fix: load_wav_file<double> compiles

---
 extra/cli/src/wav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/cli/src/wav.hpp b/extra/cli/src/wav.hpp
index 1a85a89..1f2ab50 100644
--- a/extra/cli/src/wav.hpp
+++ b/extra/cli/src/wav.hpp
@@ -76,7 +76,7 @@ template<std::floating_point Float>
             wav_file.channels,
             wav_file.totalPCMFrameCount,
         };
-        copy(interleaved, converted);
+        copy(interleaved.to_mdspan(), converted.to_mdspan());
 
         return {
             std::move(converted),
-- 
2.43.0


From 08f5c2ea82b4734c8aaec31c757cc7e5a5639f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:04 +0000
Subject: [PATCH 20/26] fix: convolver fails when neither input file can be
 read

---
 extra/cli/src/convolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index 95579e9..9381931 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -72,6 +72,9 @@ auto main(int argc, char** argv) -> int
     auto const output_length_seconds = static_cast<double>(output_length) / signal_sr;
     auto const block_size            = 8192 * 4;
 
+    if (signal.extent(0) == 0 or filter.extent(0) == 0) {
+        return EXIT_FAILURE;
+    }
     if (signal.extent(0) != filter.extent(0)) {
         fmt::println("Channel mismatch: signal = {} filter = {}", int(signal.extent(0)), int(filter.extent(0)));
         return EXIT_FAILURE;
-- 
2.43.0


From 874226b20aaf1bb3ac449367498209a658188dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 21/26] fix: ConstantOverlapAdd starts from silence after
 prepare

---
 extra/plugin/src/dsp/ConstantOverlapAdd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
index a771fe6..d3b71b4 100644
--- a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
+++ b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
@@ -65,6 +65,7 @@ void ConstantOverlapAdd<Float>::prepare(juce::dsp::ProcessSpec const& spec)
     int const m  = k * _hopSize + (_frameSize - _hopSize);
 
     _output.setSize((int)spec.numChannels, m + bufferSize - 1);
+    _output.clear();
     _outputOffset     = _frameSize - 1;
     _unusedInputCount = 0;
 
-- 
2.43.0


From ef7c2a2c4fac450d44a6c7f997db1e49c7dba663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:39 +0000
Subject: [PATCH 22/26] fix: vendor real and split transforms accept const
 input and library complex numbers

The IPP inverse real transform cast away const and used an unqualified real()/imag()
that is not found for neo::scalar_complex; the vDSP out-of-place split transform could
not take const input.
---
 src/neo/fft/backend/ipp.hpp  | 6 +++---
 src/neo/fft/backend/vdsp.hpp | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index 1d77245..8cb2b08 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -443,13 +443,13 @@ struct intel_ipp_rfft_plan
     {
         if constexpr (always_vectorizable<InVec> and always_vectorizable<OutVec>
                       and (sizeof(complex_type) == sizeof(Float) * 2)) {
-            auto* const in_ptr = reinterpret_cast<Float*>(in.data_handle());
+            auto const* const in_ptr = reinterpret_cast<Float const*>(in.data_handle());
             setup::backward_copy(in_ptr, out.data_handle(), _handle, _work_buf.get());
         } else {
             auto buf = _buffer.to_mdspan();
             for (auto i{0U}; i < in.size(); ++i) {
-                buf[i * 2]     = real(in[i]);
-                buf[i * 2 + 1] = imag(in[i]);
+                buf[i * 2]     = in[i].real();
+                buf[i * 2 + 1] = in[i].imag();
             }
 
             setup::backward_inplace(_buffer.data(), _handle, _work_buf.get());
diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index 217c4e1..9e5ebff 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -282,7 +282,10 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(
     auto const sign = dir == direction::forward ? kFFTDirection_Forward : kFFTDirection_Inverse;
 
     if constexpr (always_vectorizable<InVec, OutVec>) {
-        auto const split_in  = split_complex{.realp = in.real.data_handle(), .imagp = in.imag.data_handle()};
+        auto const split_in = split_complex{
+            .realp = const_cast<Float*>(in.real.data_handle()),
+            .imagp = const_cast<Float*>(in.imag.data_handle()),
+        };
         auto const split_out = split_complex{.realp = out.real.data_handle(), .imagp = out.imag.data_handle()};
 
         if constexpr (std::same_as<Float, float>) {
-- 
2.43.0


From 82e84dad30a4fdb0b091fb5c026af088cdf63a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:49 +0000
Subject: [PATCH 23/26] fix: vendor split transforms of strided views were
 silently skipped

The branch for views that are not contiguous named always_false<> in an expression
statement, which does nothing: the data was left untransformed. Transform a contiguous copy.
---
 src/neo/fft/backend/ipp.hpp  | 26 ++++++++++++++++++++++----
 src/neo/fft/backend/vdsp.hpp | 16 ++++++++++++++--
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index 8cb2b08..bd69d77 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -334,7 +334,12 @@ struct intel_ipp_split_fft_plan
         if constexpr (always_vectorizable<InOutVec>) {
             transform(x.real.data_handle(), x.imag.data_handle(), _handle, _work_buf.get());
         } else {
-            always_false<InOutVec>;
+            auto const buf = split_buffer();
+            copy(x.real, buf.real);
+            copy(x.imag, buf.imag);
+            transform(buf.real.data_handle(), buf.imag.data_handle(), _handle, _work_buf.get());
+            copy(buf.real, x.real);
+            copy(buf.imag, x.imag);
         }
     }
 
@@ -344,9 +349,8 @@ struct intel_ipp_split_fft_plan
         assert(std::cmp_equal(in.real.extent(0), size()));
         assert(neo::detail::extents_equal(in.real, in.imag, out.real, out.imag));
 
-        auto transform = dir == direction::forward ? setup::forward_copy : setup::backward_copy;
-
         if constexpr (always_vectorizable<InVec> and always_vectorizable<OutVec>) {
+            auto transform = dir == direction::forward ? setup::forward_copy : setup::backward_copy;
             transform(
                 in.real.data_handle(),
                 in.imag.data_handle(),
@@ -356,11 +360,25 @@ struct intel_ipp_split_fft_plan
                 _work_buf.get()
             );
         } else {
-            always_false<InVec>;
+            auto const buf = split_buffer();
+            copy(in.real, buf.real);
+            copy(in.imag, buf.imag);
+            (*this)(buf, dir);
+            copy(buf.real, out.real);
+            copy(buf.imag, out.imag);
         }
     }
 
 private:
+    [[nodiscard]] auto split_buffer() noexcept
+    {
+        auto const buf = _buffer.to_mdspan();
+        return split_complex{
+            stdex::submdspan(buf, 0, stdex::full_extent),
+            stdex::submdspan(buf, 1, stdex::full_extent),
+        };
+    }
+
     struct setup_f32
     {
         using handle_type                      = ::IppsFFTSpec_C_32f;
diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index 9e5ebff..9e4ec76 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -261,7 +261,13 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(split_complex<InOutVec> x, dir
             vDSP_fft_zipD(_plan, &split_x, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
-        always_false<InOutVec>;
+        auto const buf_real = stdex::submdspan(_input.to_mdspan(), 0, stdex::full_extent);
+        auto const buf_imag = stdex::submdspan(_input.to_mdspan(), 1, stdex::full_extent);
+        copy(x.real, buf_real);
+        copy(x.imag, buf_imag);
+        (*this)(neo::split_complex{buf_real, buf_imag}, dir);
+        copy(buf_real, x.real);
+        copy(buf_imag, x.imag);
     }
 }
 
@@ -294,7 +300,13 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(
             vDSP_fft_zopD(_plan, &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
-        always_false<InVec>;
+        auto const buf_real = stdex::submdspan(_input.to_mdspan(), 0, stdex::full_extent);
+        auto const buf_imag = stdex::submdspan(_input.to_mdspan(), 1, stdex::full_extent);
+        copy(in.real, buf_real);
+        copy(in.imag, buf_imag);
+        (*this)(neo::split_complex{buf_real, buf_imag}, dir);
+        copy(buf_real, out.real);
+        copy(buf_imag, out.imag);
     }
 }
 
-- 
2.43.0


From 3c75241a05fe58b3d252fc1e5f46c868735e072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:14 +0000
Subject: [PATCH 24/26] fix: move assignment of vDSP and MKL plans leaked the
 plan that was replaced

Every convolver assigns its plan when a filter is set, so each call of filter() lost
the vendor handle of the previous plan.
---
 src/neo/fft/backend/mkl.hpp  | 24 ++++++++++++++----------
 src/neo/fft/backend/vdsp.hpp | 20 ++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/neo/fft/backend/mkl.hpp b/src/neo/fft/backend/mkl.hpp
index ad4536f..393d2dd 100644
--- a/src/neo/fft/backend/mkl.hpp
+++ b/src/neo/fft/backend/mkl.hpp
@@ -24,13 +24,6 @@ struct intel_mkl_fft_plan
 
     intel_mkl_fft_plan(from_order_tag /*tag*/, size_type order) : _order{order}, _handle{make(order)} {}
 
-    ~intel_mkl_fft_plan() noexcept
-    {
-        if (_handle) {
-            DftiFreeDescriptor(&_handle->ptr);
-        }
-    }
-
     intel_mkl_fft_plan(intel_mkl_fft_plan const& other)                    = delete;
     auto operator=(intel_mkl_fft_plan const& other) -> intel_mkl_fft_plan& = delete;
 
@@ -74,7 +67,18 @@ private:
         DFTI_DESCRIPTOR_HANDLE ptr;
     };
 
-    [[nodiscard]] static auto make(size_type order)
+    struct handle_deleter
+    {
+        auto operator()(handle_t* handle) const noexcept -> void
+        {
+            DftiFreeDescriptor(&handle->ptr);
+            delete handle;
+        }
+    };
+
+    using handle_ptr = std::unique_ptr<handle_t, handle_deleter>;
+
+    [[nodiscard]] static auto make(size_type order) -> handle_ptr
     {
         if (order > max_order()) {
             throw std::runtime_error{"mkl: unsupported order '" + std::to_string(int(order)) + "'"};
@@ -91,11 +95,11 @@ private:
         DftiSetValue(handle, DFTI_PLACEMENT, DFTI_INPLACE);
         DftiCommitDescriptor(handle);
 
-        return std::make_unique<handle_t>(handle_t{.ptr = handle});
+        return handle_ptr{new handle_t{.ptr = handle}};
     }
 
     size_type _order;
-    std::unique_ptr<handle_t> _handle;
+    handle_ptr _handle;
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _buffer{size()};
 };
 
diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index 9e4ec76..ce5b830 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -44,11 +44,11 @@ struct apple_vdsp_fft_plan
 
     auto operator=(apple_vdsp_fft_plan&& other) noexcept -> apple_vdsp_fft_plan&
     {
-        _order  = std::exchange(other._order, size_type{0});
-        _size   = std::exchange(other._size, 0);
-        _plan   = std::exchange(other._plan, nullptr);
-        _input  = std::move(other._input);
-        _output = std::move(other._output);
+        std::swap(_order, other._order);
+        std::swap(_size, other._size);
+        std::swap(_plan, other._plan);
+        std::swap(_input, other._input);
+        std::swap(_output, other._output);
         return *this;
     }
 
@@ -170,11 +170,11 @@ struct apple_vdsp_split_fft_plan
 
     auto operator=(apple_vdsp_split_fft_plan&& other) noexcept -> apple_vdsp_split_fft_plan&
     {
-        _order  = std::exchange(other._order, size_type{0});
-        _size   = std::exchange(other._size, 0);
-        _plan   = std::exchange(other._plan, nullptr);
-        _input  = std::move(other._input);
-        _output = std::move(other._output);
+        std::swap(_order, other._order);
+        std::swap(_size, other._size);
+        std::swap(_plan, other._plan);
+        std::swap(_input, other._input);
+        std::swap(_output, other._output);
         return *this;
     }
 
-- 
2.43.0


From e2e321991f556ebf845f8613f91aa1333dd57777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:14 +0000
Subject: [PATCH 25/26] fix: intel_ipp_fft_plan rejects orders that wrap when
 narrowed to int

---
 src/neo/fft/backend/ipp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index bd69d77..767daf5 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -124,6 +124,10 @@ struct intel_ipp_fft_plan
 
     intel_ipp_fft_plan(from_order_tag /*tag*/, size_type order) : _order{order}
     {
+        if (order > max_order()) {
+            throw std::runtime_error{"ipp: unsupported order '" + std::to_string(order) + "'"};
+        }
+
         std::tie(_handle, _spec_buf, _work_buf) = detail::make_ipp_fft_handle<setup>(order);
         _buffer                                 = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{size()};
     }
-- 
2.43.0


From 81881881c7e976601c3e05c887abd673506d6a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:18 +0000
Subject: [PATCH 26/26] fix: fixed_point conversion from double rounds toward
 zero instead of through float

---
 src/neo/fixed_point/fixed_point.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/neo/fixed_point/fixed_point.hpp b/src/neo/fixed_point/fixed_point.hpp
index 6b53ab0..cde5e5d 100644
--- a/src/neo/fixed_point/fixed_point.hpp
+++ b/src/neo/fixed_point/fixed_point.hpp
@@ -20,11 +20,11 @@ constexpr auto saturate(std::int32_t x) -> IntType
     return static_cast<IntType>(std::clamp(x, min_v, max_v));
 }
 
-template<typename IntType>
-constexpr auto saturate_cast(float x) -> IntType
+template<typename IntType, std::floating_point Float>
+constexpr auto saturate_cast(Float x) -> IntType
 {
-    auto const min_v = static_cast<float>(std::numeric_limits<IntType>::min());
-    auto const max_v = static_cast<float>(std::numeric_limits<IntType>::max());
+    auto const min_v = static_cast<Float>(std::numeric_limits<IntType>::min());
+    auto const max_v = static_cast<Float>(std::numeric_limits<IntType>::max());
     return static_cast<IntType>(std::clamp(x, min_v, max_v));
 }
 
@@ -52,7 +52,7 @@ struct fixed_point
 
     template<std::floating_point Float>
     explicit constexpr fixed_point(Float val) noexcept
-        : _value{detail::saturate_cast<storage_type>(static_cast<float>(val) * scale)}
+        : _value{detail::saturate_cast<storage_type>(val * static_cast<Float>(scale))}
     {}
 
     constexpr fixed_point([[maybe_unused]] underlying_value_t tag, storage_type val) noexcept : _value{val} {}
-- 
2.43.0

