From e648eba33d7d3dc90b6e03441f4c90dca5c67811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 01/58] fix: compare u32x4 lanes as unsigned integers

---
 include/math/simd/vector/uint.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 9468203..2dcecc6 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -555,7 +555,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmplt_epi32(data, v.data);
+		auto bias = _mm_set1_epi32(INT32_MIN); // Unsigned compare using signed instruction
+		return _mm_cmplt_epi32(_mm_xor_si128(data, bias), _mm_xor_si128(v.data, bias));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcltq_u32(data, v.data);
 		#else
@@ -565,7 +566,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmpgt_epi32(data, v.data);
+		auto bias = _mm_set1_epi32(INT32_MIN); // Unsigned compare using signed instruction
+		return _mm_cmpgt_epi32(_mm_xor_si128(data, bias), _mm_xor_si128(v.data, bias));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgtq_u32(data, v.data);
 		#else
@@ -575,7 +577,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmplt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		return _mm_or_si128((*this < v).data, _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcleq_u32(data, v.data);
 		#else
@@ -585,7 +587,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmpgt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		return _mm_or_si128((*this > v).data, _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgeq_u32(data, v.data);
 		#else
-- 
2.43.0


From 6a98255ccd9a6a03325832b656a95b3a537915c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 02/58] fix: take u32x4 min and max as unsigned integers

---
 include/math/simd/vector/uint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 2dcecc6..d453a7d 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -797,7 +797,7 @@ static u32x4 select(u32x4 c, u32x4 t, u32x4 f) noexcept
 static u32x4 min(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_min_epi32(a.data, b.data);
+	return _mm_min_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminq_u32(a.data, b.data);
 	#else
@@ -813,7 +813,7 @@ static u32x4 min(u32x4 a, u32x4 b) noexcept
 static u32x4 max(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_max_epi32(a.data, b.data);
+	return _mm_max_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxq_u32(a.data, b.data);
 	#else
-- 
2.43.0


From 13ea0f7b298dd3a6838993676dfc8ba82c8c26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 03/58] fix: SSE2 areAllFalse and areAnyTrue missed bits that
 are not the top bit of a byte

---
 include/math/simd/vector/uint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index d453a7d..c923679 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -670,7 +670,7 @@ static bool areAllFalse(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return _mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return !_mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return !vmaxvq_u32(v.data);
 	#else
@@ -685,7 +685,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return !_mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxvq_u32(v.data);
 	#else
-- 
2.43.0


From d619647adab420c7bfb0fa8e5ee3693dad8c8a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 04/58] fix: SSE areAllTrue and areAnyFalse only looked at the
 top bit of each byte

---
 include/math/simd/vector/uint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index c923679..eb5946a 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -655,7 +655,7 @@ static int getTrues(u32x4 v) noexcept
 static bool areAllTrue(u32x4 v) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) == 0xFFFF;
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(0xFFFFFFFF))) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) == 0xFFFFFFFFu;
 	#else
@@ -698,7 +698,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 static bool areAnyFalse(u32x4 v) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) != 0xFFFF;
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(0xFFFFFFFF))) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) != 0xFFFFFFFFu;
 	#else
-- 
2.43.0


From 102f23ec55b0cdd69cb786f61980c410c33a71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 05/58] fix: equal and notEqual of float2 took a float4

---
 include/math/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/vector/float.hpp b/include/math/vector/float.hpp
index 413ca3d..cdec884 100644
--- a/include/math/vector/float.hpp
+++ b/include/math/vector/float.hpp
@@ -562,7 +562,7 @@ static string toString(float2 v) { return to_string(v.x) + " " + to_string(v.y);
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 equal(float2 a, float4 b) noexcept
+static uint2 equal(float2 a, float2 b) noexcept
 {
 	return uint2(a.x == b.x ? UINT32_MAX : 0, a.y == b.y ? UINT32_MAX : 0);
 }
@@ -572,7 +572,7 @@ static uint2 equal(float2 a, float4 b) noexcept
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 notEqual(float2 a, float4 b) noexcept
+static uint2 notEqual(float2 a, float2 b) noexcept
 {
 	return uint2(a.x != b.x ? UINT32_MAX : 0, a.y != b.y ? UINT32_MAX : 0);
 }
-- 
2.43.0


From 95b22e6715eb858792506903e7e2e8c5b1abda5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 06/58] fix: u32x4 to f32x4 conversion read values from 2^31 as
 negative

---
 include/math/simd/vector/float.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ec18d7f..ffa3e8c 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -146,8 +146,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	 */
 	explicit f32x4(u32x4 v)
 	{
-		#if defined(MATH_SIMD_SUPPORT_SSE)
-		data = _mm_cvtepi32_ps(v.data);
+		#if defined(MATH_SIMD_SUPPORT_SSE) // Note: both 16bit halves and the scaled high half are exact in float.
+		auto high = _mm_cvtepi32_ps(_mm_srli_epi32(v.data, 16));
+		auto low = _mm_cvtepi32_ps(_mm_and_si128(v.data, _mm_set1_epi32(0xFFFF)));
+		data = _mm_add_ps(_mm_mul_ps(high, _mm_set1_ps(65536.0f)), low);
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
@@ -1208,7 +1210,7 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)e);
+		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
 		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
 		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
-- 
2.43.0


From 7042d6eeda3b018940254cc5bb7870e706f4cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 07/58] fix: f32x4 to u32x4 conversion lost values from 2^31

---
 include/math/simd/vector/float.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ffa3e8c..2d4717a 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -394,8 +394,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	 */
 	explicit operator u32x4() const noexcept
 	{
-		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cvttps_epi32(data);
+		#if defined(MATH_SIMD_SUPPORT_SSE) // Note: SSE converts only to signed, so moving upper half down by 2^31.
+		auto isUpper = _mm_cmpge_ps(data, _mm_set1_ps(2147483648.0f));
+		auto value = _mm_cvttps_epi32(_mm_sub_ps(data, _mm_and_ps(isUpper, _mm_set1_ps(2147483648.0f))));
+		return _mm_xor_si128(value, _mm_slli_epi32(_mm_castps_si128(isUpper), 31));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_u32_f32(data);
 		#else
-- 
2.43.0


From 783a2a7e3b746ad6ed9c8fa937fa5dddc0e4d59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 08/58] fix: int3(int2, z) constructor ignored its z argument

---
 include/math/vector/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/vector/int.hpp b/include/math/vector/int.hpp
index 5f60ace..415e5ce 100644
--- a/include/math/vector/int.hpp
+++ b/include/math/vector/int.hpp
@@ -193,7 +193,7 @@ struct [[nodiscard]] int3
 	 * @param xy first and second vector components value
 	 * @param z third vector component value
 	 */
-	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(x) { }
+	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(z) { }
 	/**
 	 * @brief Creates a new signed integer 3 component vector structure.
 	 *
-- 
2.43.0


From 77bc61cbbdfb08e5ab6c4c60301203b6a818f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 09/58] fix: log of f32x4 evaluated a duplicated polynomial
 coefficient

---
 include/math/simd/vector/float.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 2d4717a..d5f904c 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1208,7 +1208,6 @@ static f32x4 log(f32x4 v) noexcept
 		auto t = f32x4(0.2392828464508056640625f);
 		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.400005877017974853515625f));
-		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-- 
2.43.0


From 903baab7d093ccc5c1b1c9a61ee50bf8898e4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 10/58] fix: log of f32x4 returned -inf for +inf and a number
 for NaN

---
 include/math/simd/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index d5f904c..04677ce 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1212,8 +1212,8 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(2.0f));
 
 		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
-		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
-		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
+		x = select(equal(v, f32x4::inf), f32x4::inf, x);
+		x = select((v < f32x4::zero) | notEqual(v, v), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
 		return x;
 	}
-- 
2.43.0


From 2e0f1a1ea018b193d6d194422423be0058e46b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 11/58] fix: exp of f32x4 returned 0 for NaN

---
 include/math/simd/vector/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 04677ce..8d96214 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1249,7 +1249,7 @@ static f32x4 exp(f32x4 v) noexcept
 		u = u * intAsFloat(((q >> 1) + 0x7f) << 23) * 
 			intAsFloat(((q - (q >> 1)) + 0x7f) << 23);
 
-		u = uintAsFloat(floatAsUint(u) & (v >= -104.0f));
+		u = uintAsFloat(bic(floatAsUint(u), v < -104.0f));
 		u = select(v > 104.0f, f32x4::inf, u);
 		return u;
 	}
-- 
2.43.0


From 09c95c1fa4f5945b492e42dc5497cd63f25a1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 12/58] fix: row vector times matrix products mixed rows and
 columns

---
 include/math/matrix/float.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 95a2233..dc4e2b1 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -575,8 +575,8 @@ static constexpr float2x2 operator/(float n, const float2x2& m) noexcept { retur
 static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 {
 	return float2(
-		m.c0.x * v.x + m.c1.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y);
+		m.c0.x * v.x + m.c0.y * v.y,
+		m.c1.x * v.x + m.c1.y * v.y);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -587,9 +587,9 @@ static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 {
 	return float3(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -600,10 +600,10 @@ static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 static constexpr float4 operator*(float4 v, const float4x4& m) noexcept
 {
 	return float4(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x + m.c3.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y + m.c3.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z + m.c3.z * v.z,
-		m.c0.w * v.w + m.c1.w * v.w + m.c2.w * v.w + m.c3.w * v.w);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z + m.c0.w * v.w,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z + m.c1.w * v.w,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z + m.c2.w * v.w,
+		m.c3.x * v.x + m.c3.y * v.y + m.c3.z * v.z + m.c3.w * v.w);
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 9ad82547ac68a7d2a3a97b1e4d7d36ba87b6eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 13/58] fix: inverse of float2x2 was transposed

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index dc4e2b1..a426f0e 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -647,8 +647,8 @@ static constexpr float4x4 transpose(float4x4 m) noexcept
 static constexpr float2x2 inverse(float2x2 m) noexcept
 {
 	auto oneOverDeterminant = 1.0f / (m.c0.x * m.c1.y - m.c1.x * m.c0.y);
-	return float2x2(m.c1.y * oneOverDeterminant, -m.c0.y * oneOverDeterminant,
-		-m.c1.x * oneOverDeterminant, m.c0.x * oneOverDeterminant);
+	return float2x2(m.c1.y * oneOverDeterminant, -m.c1.x * oneOverDeterminant,
+		-m.c0.y * oneOverDeterminant, m.c0.x * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From c5245c27f4ee6fc96853c62f2def88cbbf610763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 14/58] fix: inverse of float3x3 was transposed and used wrong
 cofactors

---
 include/math/matrix/float.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index a426f0e..8fad1c2 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -662,14 +662,14 @@ static constexpr float3x3 inverse(float3x3 m) noexcept
 		m.c2.x * (m.c0.y * m.c1.z - m.c1.y * m.c0.z));
 	return float3x3(
 		(m.c1.y * m.c2.z - m.c2.y * m.c1.z) * oneOverDeterminant,
-		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
-		(m.c0.y * m.c2.z - m.c1.y * m.c0.z) * oneOverDeterminant,
 		-(m.c1.x * m.c2.z - m.c2.x * m.c1.z) * oneOverDeterminant,
-		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
-		-(m.c0.x * m.c2.z - m.c1.x * m.c0.z) * oneOverDeterminant,
 		(m.c1.x * m.c2.y - m.c2.x * m.c1.y) * oneOverDeterminant,
+		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
 		-(m.c0.x * m.c2.y - m.c2.x * m.c0.y) * oneOverDeterminant,
-		(m.c0.x * m.c2.y - m.c1.x * m.c0.y) * oneOverDeterminant);
+		(m.c0.y * m.c1.z - m.c1.y * m.c0.z) * oneOverDeterminant,
+		-(m.c0.x * m.c1.z - m.c1.x * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c1.y - m.c1.x * m.c0.y) * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From 21df5dbc67de1478623f224fad1b162f376fba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 15/58] fix: float4x3 index assertion rejected its fourth
 column

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 8fad1c2..143124a 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -306,7 +306,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3& operator[](psize i) noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 	/**
@@ -315,7 +315,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3 operator[](psize i) const noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 
-- 
2.43.0


From 41f1b604999e4f26057a9759922196e5b2bf4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 16/58] fix: f32x4x4(float4x4) read an unaligned matrix as
 aligned SIMD data

---
 include/math/simd/matrix/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index c93990a..eb77f86 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -77,7 +77,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * @param[in] m target 4x4 matrix value
 	 */
-	explicit f32x4x4(const float4x4& m) noexcept { *this = *((const f32x4x4*)&m); }
+	explicit f32x4x4(const float4x4& m) noexcept : c0(m.c0), c1(m.c1), c2(m.c2), c3(m.c3) { }
 	/**
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * 
-- 
2.43.0


From a8a066cea47b328bd225743bdde01f793b1de23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 17/58] fix: extractScale and extractScale2 returned squared
 scales

---
 include/math/matrix/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 6f51f71..ed00aa7 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -110,7 +110,7 @@ static f32x4x4 scale(f32x4 s, const f32x4x4& m) noexcept
  */
 static f32x4 extractScale(const f32x4x4& m) noexcept
 {
-	return f32x4(lengthSq3(m.c0), lengthSq3(m.c1), lengthSq3(m.c2));
+	return f32x4(length3(m.c0), length3(m.c1), length3(m.c2));
 }
 /**
  * @brief Extracts total SIMD matrix 2D scale transformation of an object in 3D space.
@@ -118,7 +118,7 @@ static f32x4 extractScale(const f32x4x4& m) noexcept
  */
 static float2 extractScale2(const f32x4x4& m) noexcept
 {
-	return float2(lengthSq3(m.c0), length3(m.c1));
+	return float2(length3(m.c0), length3(m.c1));
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 5ef3ed6ee44b41b66de5b52653fb6246d1ee515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 18/58] fix: inverseTransRot left the translation in the bottom
 row

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index ed00aa7..efa2f95 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -319,7 +319,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
  */
 static f32x4x4 inverseTransRot(const f32x4x4& m)
 {
-	auto t = transpose4x4(m);
+	auto t = transpose4x4(extractRotationOnly(m));
 	setTranslation(t, -multiply3x3(t, getTranslation(m)));
 	return t;
 }
-- 
2.43.0


From 73391894e41b0f25ed2f77fb6a4ba6d4612bb798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 19/58] fix: rotate(front, up) was ambiguous with
 rotate(lookFrom, lookTo) and could not be called

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index efa2f95..d275316 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -145,7 +145,7 @@ static f32x4x4 rotate(quat q) noexcept
  * @param lookTo object position in 3D space
  * @param up space up direction vector
  */
-static f32x4x4 rotate(f32x4 lookFrom, f32x4 lookTo, f32x4 up = f32x4::top) noexcept
+static f32x4x4 rotate(f32x4 lookFrom, f32x4 lookTo, f32x4 up) noexcept
 {
 	auto f = normalize3(lookTo - lookFrom);
 	auto s = normalize3(cross3(up, f));
-- 
2.43.0


From 39aa77f92564d0e48484b190affd0d3d5eda633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 20/58] fix: lookAtQuat built its up column from two parallel
 vectors

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index d275316..1270e8f 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -307,7 +307,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
 {
 	auto right = cross3(up, direction);
 	auto c0 = right * (1.0f / std::sqrt(std::max(0.00001f, dot3(right, right))));
-	auto c1 = cross3(right, c0);
+	auto c1 = cross3(direction, c0);
 	auto m = f32x4x4(c0, c1, direction);
 	return extractQuat(m);
 }
-- 
2.43.0


From a0a9bfcd4c217e18df974d11a555436446e2091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 21/58] fix: extractPitch took angles of 0, 90 and 180 degrees
 for the atan2(0, 0) singularity

---
 include/math/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index e881444..d8cc435 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -112,7 +112,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON || std::abs(yy) <= FLT_EPSILON)
+		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
-- 
2.43.0


From dd94dd61eaec2549626cfbf34fabb26d0c096590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 22/58] fix: extractRoll returned noise when pitch already held
 the rotation (gimbal lock)

---
 include/math/quaternion.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index d8cc435..bab5036 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -129,7 +129,13 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 	float extractRoll() const noexcept
 	{
 		auto x = getX(), y = getY(), z = getZ(), w = getW();
-		return std::atan2(2.0f * (x * y + w * z), w * w + x * x - y * y - z * z);
+		auto yy = 2.0f * (x * y + w * z);
+		auto xx = w * w + x * x - y * y - z * z;
+
+		// Avoid atan2(0, 0) - pitch holds the whole rotation at the singularity
+		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
+			return 0.0f;
+		return std::atan2(yy, xx);
 	}
 	/**
 	 * @brief Calculates SIMD quaternion euler angles. (In radians)
-- 
2.43.0


From 0bdbeb652b6371874375493ecf71a9af548e3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 23/58] fix: extractPitch and extractRoll missed gimbal lock
 hidden by rounding errors

---
 include/math/quaternion.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index bab5036..1f0ea99 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -102,6 +102,14 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 	 */
 	quat& operator*=(quat v) noexcept { return *this = *this * v; }
 
+	/**
+	 * @brief Returns true if yaw is so close to 90 degrees that pitch and roll rotate around the same axis.
+	 */
+	bool isGimbalLocked() const noexcept
+	{
+		return std::abs(2.0f * (getX() * getZ() - getW() * getY())) > 0.999999f;
+	}
+
 	/**
 	 * @brief Extracts SIMD quaternion rotation around X axis. (In radians)
 	 */
@@ -112,7 +120,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
+		if (isGimbalLocked())
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
@@ -133,7 +141,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w + x * x - y * y - z * z;
 
 		// Avoid atan2(0, 0) - pitch holds the whole rotation at the singularity
-		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
+		if (isGimbalLocked())
 			return 0.0f;
 		return std::atan2(yy, xx);
 	}
-- 
2.43.0


From e7b0c3b4a6e563fd618fe6e45b95fb95344ebeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 24/58] fix: Aabb trySet accepted inverted bounds

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 11b56a4..b3f8193 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -107,7 +107,7 @@ public:
 	 */
 	bool trySet(f32x4 min, f32x4 max) noexcept
 	{
-		if (areAllTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
+		if (areAnyTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
 			return false;
 		this->min = min; this->max = max;
 		return true;
-- 
2.43.0


From 068eaa6c68cdcb6b3574c6a8148d24f68d332914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 25/58] fix: Aabb::full held only positive coordinates

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index b3f8193..4aa1bf7 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -265,7 +265,7 @@ inline const Aabb Aabb::zero = Aabb(f32x4::zero, f32x4::zero);
 inline const Aabb Aabb::one = Aabb(f32x4(-0.5f), f32x4(0.5f));
 inline const Aabb Aabb::two = Aabb(f32x4::minusOne, f32x4::one);
 inline const Aabb Aabb::half = Aabb(f32x4(-0.25f), f32x4(0.25f));
-inline const Aabb Aabb::full = Aabb(f32x4::min, f32x4::max);
+inline const Aabb Aabb::full = Aabb(f32x4::minusMax, f32x4::max);
 inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
 
 /**
-- 
2.43.0


From b10f02062658d0a21d94f978275f944a45e8ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 26/58] fix: AABB overlap test compared minimum and maximum of
 the wrong boxes

---
 include/math/aabb.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 4aa1bf7..4402d48 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -424,7 +424,8 @@ static bool raycastI(const Aabb& aabb, const Ray& ray) noexcept
  */
 static bool isIntersected(const Aabb& a, const Aabb& b) noexcept
 {
-	return areAllTrue(a.getMin() <= b.getMax() & a.getMin() >= b.getMax());
+	return areAllTrue(f32x4(a.getMin(), 0.0f) <= f32x4(b.getMax(), 0.0f) & 
+		f32x4(a.getMax(), 0.0f) >= f32x4(b.getMin(), 0.0f));
 }
 
 /**
-- 
2.43.0


From 2569c0dbc8daccbd92766739bd763a3fff1b796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 27/58] fix: AABB containment tests depended on the unused
 fourth component

---
 include/math/aabb.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 4402d48..fcc2981 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -284,7 +284,8 @@ static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(
  */
 static bool isInside(const Aabb& aabb, f32x4 point) noexcept
 {
-	return areAllTrue(aabb.getMin() <= point & aabb.getMax() >= point);
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(point, 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(point, 0.0f));
 }
 /**
  * @brief Returns true if other AABB is inside this AABB in 3D space.
@@ -294,7 +295,8 @@ static bool isInside(const Aabb& aabb, f32x4 point) noexcept
  */
 static bool isInside(const Aabb& aabb, const Aabb& other) noexcept
 {
-	return areAllTrue(aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax());
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(other.getMin(), 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(other.getMax(), 0.0f));
 }
 
 /**
-- 
2.43.0


From cf91f652066336e7133296a0796fdd7e7671214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 28/58] fix: parallel axes of a ray were not set by its
 constructor and not detected for inversed rays

---
 include/math/ray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index ef832bc..d7c5f06 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -47,7 +47,7 @@ public:
 	 * @param normalize is direction vector should be normalized
 	 */
 	Ray(f32x4 origin, f32x4 direction, bool normalize = true) noexcept : 
-		direction(normalize ? normalize3(direction) : direction), origin(origin) { }
+		origin(origin) { setDirection(direction, normalize); }
 	/**
 	 * @brief Creates a new empty ray structure.
 	 */
@@ -66,7 +66,9 @@ public:
 	void setDirection(f32x4 direction, bool normalize = true) noexcept
 	{
 		this->direction = normalize ? normalize3(direction) : direction;
-		isParallel = abs(direction) <= f32x4(1.0e-20f);
+		auto absDirection = abs(this->direction);
+		// Axes of an inversed ray are parallel when the division has overflowed.
+		isParallel = (absDirection <= f32x4(1.0e-20f)) | (absDirection >= f32x4(1.0e20f));
 	}
 
 	/**
-- 
2.43.0


From ef3ec5c48309224fcf7fae010968640016af9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 29/58] fix: AABB raycast normalized the inversed ray direction

---
 include/math/aabb.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index fcc2981..7d598cb 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -346,7 +346,7 @@ static float2 raycast2I(Aabb aabb, Ray ray) noexcept
  */
 static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast2I(aabb, ray);
 }
 
@@ -383,7 +383,7 @@ static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
  */
 static float raycast1(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast1I(aabb, ray);
 }
 
-- 
2.43.0


From 6fd1298e27d06adb1a237dbdc7dcae30699142e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 30/58] fix: plane of a triangle lay on the opposite side of
 the origin

---
 include/math/plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index 174b988..0204986 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -64,7 +64,7 @@ public:
 		auto normal = cross3(triangle.p1 - triangle.p0, triangle.p2 - triangle.p0);
 		if (length3(normal) > 0.0f)
 			normal = normalize3(normal);
-		auto distance = dot3(normal, triangle.p0);
+		auto distance = -dot3(normal, triangle.p0);
 		normDist = f32x4(normal, distance);
 	}
 
-- 
2.43.0


From de31069d5eb06e6e8242ab1a82fd5589c402960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 31/58] fix: triangle held points on the extension of its p1 p2
 edge

---
 include/math/triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index cb81804..d5e1fc6 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -74,7 +74,7 @@ static bool isInside(const Triangle& triangle, f32x4 point) noexcept
 {
 	auto p0 = triangle.p0 - point, p1 = triangle.p1 - point, p2 = triangle.p2 - point;
 	auto u = cross3(p1, p2), v = cross3(p2, p0), w = cross3(p0, p1);
-	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f)
+	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f || dot3(v, w) < 0.0f)
 		return false;
 	return true;
 }
-- 
2.43.0


From d4d394f7c1e0fc97abd495fa505f4f4e06c3661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 32/58] fix: BVH partition ran below the first primitive when
 all of them went right

---
 source/bvh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 9b8a83c..44788a8 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -326,13 +326,13 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitives[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitives[i], primitives[j--]);
+				std::swap(primitives[i], primitives[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
@@ -459,13 +459,13 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitiveData[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitiveData[i], primitiveData[j--]);
+				std::swap(primitiveData[i], primitiveData[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
-- 
2.43.0


From d0732729fdaf64d7bf31d253ff3b76698bfdccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 33/58] fix: BVH bin index was out of bounds for denormal and
 overflowing extents

---
 source/bvh.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 44788a8..d880455 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -80,6 +80,11 @@ static float calcArea(f32x4 min, f32x4 max) // Faster than native Aabb calcArea.
 	return dot3(extentXXY, extentYZZ);
 }
 
+static int32 calcBinIndex(float offset, float scale) // Note: NaN if bounds extent is denormal or overflows.
+{
+	return (int32)std::min(std::max(0.0f, offset * scale), (float)(BIN_COUNT - 1));
+}
+
 static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint32 vertexSize, uint32 indexSize,
 	const uint8* vertices, const uint8* indices, const uint32* primitives, const f32x4* centroids,
 	const function<uint32(const uint8*)>& getIndex, int32& axis, float& split, float& cost)
@@ -114,8 +119,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));
 			auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));
 
-			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
-				centroids[index][a] - boundsMin) * scale));
+			auto binIndex = calcBinIndex(centroids[index][a] - boundsMin, scale);
 			auto& bin = bins[binIndex];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
@@ -188,8 +192,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 		{
 			auto index = primitives[i];
 			auto aabb = aabbs[index];
-			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
-				centroids[index][a] - boundsMin) * scale));
+			auto binIndex = calcBinIndex(centroids[index][a] - boundsMin, scale);
 			auto& bin = bins[binIndex];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-- 
2.43.0


From 47843fb0f7c4162d392a23d97803dddd52d91603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 34/58] fix: BVH bin primitive counts were mixed up with the W
 component of the bounds

---
 source/bvh.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index d880455..e1ec74d 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -67,8 +67,7 @@ namespace math
 	{
 		f32x4 min = f32x4::max;
 		f32x4 max = f32x4::minusMax;
-
-		int32& primitiveCount() noexcept { return max.ints.w; }
+		int32 primitiveCount = 0;
 	};
 }
 
@@ -123,7 +122,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto& bin = bins[binIndex];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		float leftArea[BIN_COUNT - 1], rightArea[BIN_COUNT - 1];
@@ -134,12 +133,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
@@ -196,7 +195,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 			auto& bin = bins[binIndex];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		// TODO: share this function part with a previous one?
@@ -208,12 +207,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
-- 
2.43.0


From 490f2563bd4509e111fe147cecd6d535f98be642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 35/58] fix: toHex repeated digits when asked for more than the
 value has

---
 include/math/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index 807e764..17f4a4c 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -34,7 +34,7 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
 	constexpr const char* digits = "0123456789ABCDEF";
 	string hex(length, '0');
 	for (psize i = 0, j = (length - 1) * 4; i < length; i++, j -= 4)
-		hex[i] = digits[(value >> j) & 0x0f];
+		hex[i] = j < 64 ? digits[((uint64)value >> j) & 0x0f] : '0';
 	return hex;
 }
 
-- 
2.43.0


From b0b249f67f00e016ed20f5cca833f93480daaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 36/58] fix: Color::setNorm functions truncated instead of
 rounding

---
 include/math/color.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 1ce9c58..842c8c5 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -147,19 +147,19 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Sets sRGB color normalizer R channel. (Red)
 	 */
-	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer G channel. (Green)
 	 */
-	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer B channel. (Blue)
 	 */
-	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer A channel. (Alpha)
 	 */
-	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f + 0.5f; }
 
 	/*******************************************************************************************************************
 	 * @brief Converts sRGB color to the string. (Space separated)
-- 
2.43.0


From f7d599415612cb07627e9ab39e0d0c3f27cb07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 37/58] fix: Color binary data accessors broke strict aliasing
 and returned garbage in optimized builds

---
 include/math/color.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 842c8c5..24ce57f 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -53,7 +53,8 @@ struct [[nodiscard]] Color
 	 * @brief Creates a new sRGB color structure from the binary data.
 	 * @param data target binary color data
 	 */
-	constexpr explicit Color(uint32 data) { *(uint32*)this = data; }
+	constexpr explicit Color(uint32 data) noexcept :
+		r((uint8)data), g((uint8)(data >> 8u)), b((uint8)(data >> 16u)), a((uint8)(data >> 24u)) { }
 	/**
 	 * @brief Creates a new sRGB color structure from the hexadecimal string.
 	 * @param[in] hex target hexadecimal color string
@@ -125,7 +126,10 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Returns color binary data.
 	 */
-	constexpr explicit operator uint32() const noexcept { return *(const uint32*)this; }
+	constexpr explicit operator uint32() const noexcept
+	{
+		return (uint32)r | ((uint32)g << 8u) | ((uint32)b << 16u) | ((uint32)a << 24u);
+	}
 
 	/*******************************************************************************************************************
 	 * @brief Returns sRGB color normalizer R channel. (Red)
@@ -254,7 +258,7 @@ static constexpr bool operator>=(uint8 n, Color c) noexcept { return Color(n) >=
  * @param a first color to binary compare
  * @param b second color to binary compare
  */
-static bool isBinaryLess(Color a, Color b) noexcept { return  *((const uint32*)&a) < *((const uint32*)&b); }
+static bool isBinaryLess(Color a, Color b) noexcept { return (uint32)a < (uint32)b; }
 
 // TODO: color conversion functions.
 
-- 
2.43.0


From 45f1905b8466b307d092f4582895c55e5fcfd161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 38/58] fix: Aabb isBinaryLess ignored the Z component of the
 maximum

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 7d598cb..41bf32a 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -274,7 +274,7 @@ inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
  * @param[in] a first AABB to binary compare
  * @param[in] b second AABB to binary compare
  */
-static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(float3) * 2) < 0; }
+static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(Aabb)) < 0; }
 
 /***********************************************************************************************************************
  * @brief Returns true if point is inside the AABB in 3D space.
-- 
2.43.0


From 9fb86fd3c914aa2afe7c5d158001a6384c10dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 39/58] fix: PackedVector set did not compile

---
 include/math/packed-vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 335ecd5..bcdd25b 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -19,6 +19,8 @@
 
 #pragma once
 #include "math/types.hpp"
+#include <cassert>
+#include <cstdlib>
 #include <vector>
 
 namespace math
@@ -85,7 +87,7 @@ public:
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
-	uint8 set(psize i, uint8 value) noexcept
+	void set(psize i, uint8 value) noexcept
 	{
 		if constexpr (Bits == 1)
 			assert(i / 8 < size());
@@ -93,7 +95,7 @@ public:
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
 			assert(i / 8 < size());
-		return unsafeSet(i, value);
+		unsafeSet(i, value);
 	}
 
 	void resize(psize elementCount)
-- 
2.43.0


From 6ae469774d79d3b941c66effe9686e6910262725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 40/58] fix: PackedVector bounds assertion let 4 bit elements
 past the end

---
 include/math/packed-vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index bcdd25b..45b7bf8 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -65,7 +65,7 @@ public:
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
+			assert(i / 2 < size());
 		return unsafeGet(i);
 	}
 
@@ -94,7 +94,7 @@ public:
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
+			assert(i / 2 < size());
 		unsafeSet(i, value);
 	}
 
-- 
2.43.0


From 0c6ed77b251f6396898a449e2e6030fc9c089fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 41/58] fix: PackedVector copies wrote through to the original
 and kept dangling pointers

---
 include/math/packed-vector.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 45b7bf8..4423a5b 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -29,8 +29,6 @@ namespace math
 template<int Bits = 1>
 class PackedVector final : public std::vector<uint8>
 {
-private:
-	uint8* ptr = nullptr;
 public:
 	PackedVector()
 	{
@@ -46,15 +44,15 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			return (ptr[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
+			return (data()[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
 		}
 		else if constexpr (Bits == 2)
 		{
-			return (ptr[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
+			return (data()[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
 		}
 		else if constexpr (Bits == 4)
 		{
-			return (ptr[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
+			return (data()[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
 		}
 		abort();
 	}
@@ -73,17 +71,17 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			auto& byte = ptr[i / 8]; auto shift = (uint8)(i % 8);
+			auto& byte = data()[i / 8]; auto shift = (uint8)(i % 8);
 			byte = (byte & ~((uint8)0x01 << shift)) | ((value & (uint8)0x01) << shift);
 		}
 		else if constexpr (Bits == 2)
 		{
-			auto& byte = ptr[i / 4]; auto shift = (uint8)((i % 4) * 2);
+			auto& byte = data()[i / 4]; auto shift = (uint8)((i % 4) * 2);
 			byte = (byte & ~((uint8)0x03 << shift)) | ((value & (uint8)0x03) << shift);
 		}
 		else if constexpr (Bits == 4)
 		{
-			auto& byte = ptr[i / 2]; auto shift = (uint8)((i % 2) * 4);
+			auto& byte = data()[i / 2]; auto shift = (uint8)((i % 2) * 4);
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
@@ -106,7 +104,6 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
-		ptr = data();
 	}
 };
 
-- 
2.43.0


From 4395af24f46056c6d2e9c7b95a3abc3143d52846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 42/58] fix: mip count of sizes just below a power of two was
 one too high

---
 include/math/simd/vector/uint.hpp | 2 +-
 include/math/vector/uint.hpp      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index eb5946a..06928e5 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -899,7 +899,7 @@ static u32x4 clamp(u32x4 v, u32x4 min, u32x4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount3(u32x4 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)max3(size)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)max3(size)))) + 1u;
 }
 static u32x4 calcSizeAtMip3(u32x4 sizeAt0, uint8 mip) noexcept
 {
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index cba2dbf..a07773a 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -903,15 +903,15 @@ static constexpr uint4 clamp(uint4 v, uint4 min, uint4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount(uint32 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)size))) + 1u;
+	return (uint8)(std::floor(std::log2((double)size))) + 1u;
 }
 static uint8 calcMipCount(uint2 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(size.x, size.y)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)std::max(size.x, size.y)))) + 1u;
 }
 static uint8 calcMipCount(uint3 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(std::max(size.x, size.y), size.z)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)std::max(std::max(size.x, size.y), size.z)))) + 1u;
 }
 
 static uint32 calcSizeAtMip(uint32 sizeAt0, uint8 mip) noexcept
-- 
2.43.0


From 28185d7966c1210f076c8332767c6c37d2aa021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 43/58] fix: RGB and XYZ conversion matrices were transposed

---
 include/math/color-space.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/math/color-space.hpp b/include/math/color-space.hpp
index 3086789..b8e57f7 100644
--- a/include/math/color-space.hpp
+++ b/include/math/color-space.hpp
@@ -58,9 +58,9 @@ static f32x4 rgbToXyz(f32x4 rgb) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		0.4124564f, 0.2126729f, 0.0193339f, 0.0f,
-		0.3575761f, 0.7151522f, 0.1191920f, 0.0f,
-		0.1804375f, 0.0721750f, 0.9503041f, 0.0f,
+		0.4124564f, 0.3575761f, 0.1804375f, 0.0f,
+		0.2126729f, 0.7151522f, 0.0721750f, 0.0f,
+		0.0193339f, 0.1191920f, 0.9503041f, 0.0f,
 		0.0f      , 0.0f      , 0.0f      , 0.0f
 	);
 	return multiply3x3(m, rgb);
@@ -73,9 +73,9 @@ static f32x4 xyzToRgb(f32x4 xyz) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		 3.2404542f, -0.9692660f,  0.0556434f, 0.0f,
-		-1.5371385f,  1.8760108f, -0.2040259f, 0.0f,
-		-0.4985314f,  0.0415560f,  1.0572252f, 0.0f,
+		 3.2404542f, -1.5371385f, -0.4985314f, 0.0f,
+		-0.9692660f,  1.8760108f,  0.0415560f, 0.0f,
+		 0.0556434f, -0.2040259f,  1.0572252f, 0.0f,
 		 0.0f      ,  0.0f      ,  0.0f      , 0.0f
 	);
 	return multiply3x3(m, xyz);
-- 
2.43.0


From 07e403d91242bf19dc2db2a49c9016919702f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 44/58] fix: spherical harmonics band 1 rotation used
 transposed matrices

---
 include/math/sh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 1e5a41b..33498c0 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -140,9 +140,9 @@ static void multiply(const float m[25], const float v[5], float r[5]) noexcept
 //**********************************************************************************************************************
 static float3 rotateSphericalHarmonicBand1(float3 band1, const float3x3& m) noexcept
 {
-	constexpr auto invA1TimesK = float3x3(0.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, -1.0f, 0.0f, 0.0f);
+	constexpr auto invA1TimesK = float3x3(0.0f, 0.0f, -1.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, 0.0f);
     auto mn0 = m[0], mn1 = m[1], mn2 = m[2];
-	auto r1OverK = float3x3(-mn0.y, mn0.z, -mn0.x, -mn1.y, mn1.z, -mn1.x, -mn2.y, mn2.z, -mn2.x);
+	auto r1OverK = float3x3(-mn0.y, -mn1.y, -mn2.y, mn0.z, mn1.z, mn2.z, -mn0.x, -mn1.x, -mn2.x);
 	return r1OverK * (invA1TimesK * band1);
 }
 static void rotateSphericalHarmonicBand2(const float band2[5], const float3x3& m, float r[5]) noexcept
-- 
2.43.0


From f9731ea5b328fcc68d8e3ac5ca010f88011e1171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 45/58] fix: deringing search windowed and rotated the same
 coefficients again on each step

---
 include/math/sh.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 33498c0..dd74bca 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -284,13 +284,15 @@ static void deringingSH(f32x4 sh[shCoeffCount]) noexcept
 		for (uint32 i = 0; i < 16 && l + 0.1f < r; i++)
 		{
 			float m = 0.5f * (l + r);
-			windowing(shw, m);
-			if (shmin(shw) < 0.0f)
+			float shm[shCoeffCount];
+			std::copy(shw, shw + shCoeffCount, shm);
+			windowing(shm, m);
+			if (shmin(shm) < 0.0f)
 				r = m;
 			else
 				l = m;
-			cutoff = std::min(cutoff, l);
 		}
+		cutoff = std::min(cutoff, l);
 	}
 
 	for (int32 l = 0; l < shBandCount; l++)
-- 
2.43.0


From 9ee0da739770a3af95f56dc4a23432afd9fe9b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 46/58] fix: shmin returned NaN for a vertical or missing
 dominant direction

---
 include/math/sh.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index dd74bca..ff6f71a 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -228,9 +228,12 @@ static float shmin(float shw[shCoeffCount]) noexcept
 		(float)( M_SQRT15 / (4.0 * M_SQRT_PI))
 	};
 
-	auto dir = normalize(float3(-shw[3], -shw[1], shw[2]));
+	auto dir = float3(-shw[3], -shw[1], shw[2]);
+	auto dirLength = length(dir);
+	dir = dirLength > 0.0f ? dir * (1.0f / dirLength) : float3(0.0f, 0.0f, 1.0f);
+	auto up = std::abs(dir.y) < 0.999f ? float3(0.0f, 1.0f, 0.0f) : float3(1.0f, 0.0f, 0.0f);
 	auto zAxis = -dir;
-	auto xAxis = normalize(cross(zAxis, float3(0.0f, 1.0f, 0.0f)));
+	auto xAxis = normalize(cross(zAxis, up));
 	auto yAxis = cross(xAxis, zAxis);
 	auto m = transpose(float3x3(xAxis, yAxis, -zAxis));
 	rotateSh3Bands(shw, m, shw);
-- 
2.43.0


From b8536604e254f8b95856b772f798b36a4acf23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 47/58] fix: shmin Newton iteration left the range or converged
 to a maximum, missing negative values

---
 include/math/sh.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index ff6f71a..9a23dc5 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -252,19 +252,17 @@ static float shmin(float shw[shCoeffCount]) noexcept
 	auto minimum = m0min - 0.5f * d;
 	if (minimum < 0.0f)
 	{
-		auto dz = 0.0f;
-		auto z = (float)-M_SQRT1_2;
-
-		do
+		// Single minimum on the hemisphere opposite to the dominant direction.
+		auto z0 = -1.0f, z1 = 0.0f;
+		for (uint32 i = 0; i < 20; i++)
 		{
-			minimum = (a * z * z + b * z + c) + (d * z * std::sqrt(1.0f - z * z));
-			dz = (z * z - 1.0f) * (d - 2.0f * d * z * z + (b + 2.0f * a * z) * std::sqrt(1.0f - z * z)) / 
-				(3.0f * d * z - 2.0f * d * z * z * z - 2.0f * a * std::pow(1.0f - z * z, 1.5f));
-			z = z - dz;
-		} while (std::abs(z) <= 1.0 && std::abs(dz) > 1e-5f);
-
-		if (std::abs(z) > 1.0f)
-			minimum = std::min(a + b + c, a - b + c);
+			auto z = 0.5f * (z0 + z1), s = std::sqrt(1.0f - z * z);
+			minimum = (a * z * z + b * z + c) + (d * z * s);
+			if ((2.0f * a * z + b) * s + d * (1.0f - 2.0f * z * z) < 0.0f)
+				z0 = z;
+			else
+				z1 = z;
+		}
 	}
 
 	return minimum;
-- 
2.43.0


From c5d4d506378ffe48eda6c3560910aa4375405f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 48/58] fix: ggx of smooth surfaces cancelled to infinity or
 noise around its peak

---
 include/math/brdf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/brdf.hpp b/include/math/brdf.hpp
index 4559f92..73b7eb1 100644
--- a/include/math/brdf.hpp
+++ b/include/math/brdf.hpp
@@ -42,7 +42,8 @@ namespace math::brdf
  */
 static constexpr float ggx(float noh, float roughness) noexcept
 {
-    auto f = (roughness - 1.0f) * ((roughness + 1.0f) * (noh * noh)) + 1.0f;
+    auto b = noh * roughness;
+    auto f = (1.0f - noh) * (1.0f + noh) + b * b;
     return (roughness * roughness) / ((float)M_PI * f * f);
 }
 
-- 
2.43.0


From 471d3fc46cd07fd111a30a9561141efca249280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 49/58] fix: importance sampling of smooth surfaces returned
 NaN when rounding took the cosine over 1

---
 include/math/brdf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/math/brdf.hpp b/include/math/brdf.hpp
index 73b7eb1..e4ec61f 100644
--- a/include/math/brdf.hpp
+++ b/include/math/brdf.hpp
@@ -84,6 +84,7 @@ static f32x4 importanceSamplingNdfDggx(float2 u, float a) noexcept
 {
     auto phi = 2.0f * (float)M_PI * u.x;
     auto cosTheta2 = (1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y));
+    cosTheta2 = std::min(cosTheta2, 1.0f);
     auto cosTheta = std::sqrt(cosTheta2);
     auto sinTheta = std::sqrt(1.0f - cosTheta2);
     return f32x4(sinTheta * std::cos(phi), sinTheta * std::sin(phi), cosTheta);
-- 
2.43.0


From b1172533bf97bb7f4c12044e56a4d8f8df283846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 50/58] fix: rays kept the parallel axes of their old direction
 after compound operators and normalize

---
 include/math/ray.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index d7c5f06..4e41eae 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -79,16 +79,16 @@ public:
 	/**
 	 * @brief Normalizes ray direction vector.
 	 */
-	void normalize() noexcept { direction /= length3(direction);  }
+	void normalize() noexcept { setDirection(direction / length3(direction), false); }
 
 	Ray operator*(f32x4 v) const noexcept { return Ray(origin * v, direction * v); }
 	Ray operator/(f32x4 v) const noexcept { return Ray(origin / v, direction / v); }
 	Ray operator+(f32x4 v) const noexcept { return Ray(origin + v, direction + v); }
 	Ray operator-(f32x4 v) const noexcept { return Ray(origin - v, direction - v); }
-	Ray& operator*=(f32x4 v) noexcept { direction *= v; origin *= v; return *this; }
-	Ray& operator/=(f32x4 v) noexcept { direction /= v; origin /= v; return *this; }
-	Ray& operator+=(f32x4 v) noexcept { direction += v; origin += v; return *this; }
-	Ray& operator-=(f32x4 v) noexcept { direction -= v; origin -= v; return *this; }
+	Ray& operator*=(f32x4 v) noexcept { setDirection(direction * v, false); origin *= v; return *this; }
+	Ray& operator/=(f32x4 v) noexcept { setDirection(direction / v, false); origin /= v; return *this; }
+	Ray& operator+=(f32x4 v) noexcept { setDirection(direction + v, false); origin += v; return *this; }
+	Ray& operator-=(f32x4 v) noexcept { setDirection(direction - v, false); origin -= v; return *this; }
 	bool operator==(const Ray& v) const noexcept { return !memcmp(this, &v, sizeof(Ray)); }
 	bool operator!=(const Ray& v) const noexcept { return memcmp(this, &v, sizeof(Ray)); }
 	
-- 
2.43.0


From 1bcae020afd6699264c50adddb85bf8731bd9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 51/58] fix: SIMD select did not compile without SIMD
 instructions

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 8d96214..0db21e7 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -739,7 +739,7 @@ static f32x4 select(u32x4 c, f32x4 t, f32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_f32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return f32x4(select(c.floats, t.floats, f.floats));
+	return f32x4(select(c.uints, t.floats, f.floats));
 	#endif
 }
 
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index b5a369d..d0c5433 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -759,7 +759,7 @@ static i32x4 select(u32x4 c, i32x4 t, i32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_s32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return i32x4(select(c.ints, t.ints, f.ints));
+	return i32x4(select(c.uints, t.ints, f.ints));
 	#endif
 }
 
-- 
2.43.0


From 0db739a7a3b61ecc2c025fcca1bfa707f299d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 52/58] fix: SIMD vector array constructors loaded the first
 element into every lane without SIMD instructions

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 include/math/simd/vector/uint.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 0db21e7..0b25c2e 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -224,7 +224,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_f32(v);
 		#else
-		floats = *v;
+		floats = *((const float4*)v);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index d0c5433..6586ad0 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -199,7 +199,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_s32(v);
 		#else
-		ints = *v;
+		ints = *((const int4*)v);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 06928e5..4108efc 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -190,7 +190,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_u32(v);
 		#else
-		uints = *v;
+		uints = *((const uint4*)v);
 		#endif
 	}
 	
-- 
2.43.0


From 01c1b5ed35b88e9815bcddfff41ef20679c5e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 53/58] fix: integer to float SIMD vector conversions copied
 the bits without SIMD instructions

---
 include/math/simd/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 0b25c2e..2a14e84 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -153,7 +153,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
-		floats = v.floats;
+		floats = (float4)v.uints;
 		#endif
 	}
 	/**
@@ -167,7 +167,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_s32(v.data);
 		#else
-		floats = v.floats;
+		floats = (float4)v.ints;
 		#endif
 	}
 
-- 
2.43.0


From 5284ab58518ca6c222d98feb7e8d5766383fa2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 54/58] fix: SIMD matrices read their columns through an
 unrelated type, losing the values under optimization

---
 include/math/simd/matrix/float.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index eb77f86..f6c4966 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -121,7 +121,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 */
 	explicit operator float4x4() const noexcept
 	{
-		return *((const float4x4*)this);
+		return float4x4((float4)c0, (float4)c1, (float4)c2, (float4)c3);
 	}
 	/**
 	 * @brief Returns SIMD matrix as 4x3 floating point matrix.
@@ -207,7 +207,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 			result[i].data = r;
 		}
 		#else
-		result = f32x4x4((*((const float4x4*)this) * (*((const float4x4*)&m))));
+		result = f32x4x4((float4x4)*this * (float4x4)m);
 		#endif
 		return result;
 	}
@@ -230,7 +230,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 		r = vmlaq_f32(r, c3.data, vdupq_laneq_f32(v.data, 3));
 		return r;
 		#else
-		return f32x4((*((const float4x4*)this) * (*((const float4*)&v))));
+		return f32x4((float4x4)*this * v.floats);
 		#endif
 	}
 
@@ -361,7 +361,7 @@ static f32x4x4 transpose4x4(const f32x4x4& m) noexcept
 	auto t4 = vzipq_f32(t1.val[1], t2.val[1]);
 	return f32x4x4(t3.val[0], t3.val[1], t4.val[0], t4.val[1]);
 	#else
-	return f32x4x4(transpose(*((const float4x4*)&m)));
+	return f32x4x4(transpose((float4x4)m));
 	#endif
 }
 /**
@@ -542,7 +542,7 @@ static f32x4x4 inverse4x4(const f32x4x4& m) noexcept
 	return f32x4x4(vmulq_f32(d, m0), vmulq_f32(d, m1), 
 		vmulq_f32(d, m2), vmulq_f32(d, m3));
 	#else
-	return f32x4x4(inverse(*((const float4x4*)&m)));
+	return f32x4x4(inverse((float4x4)m));
 	#endif
 }
 
-- 
2.43.0


From 4b60a64115dce791d5852de7e07a85a61c357f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 55/58] fix: SIMD float to int conversion went through unsigned
 without SIMD instructions, undefined for negative values

---
 include/math/simd/vector/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 2a14e84..db529f1 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -414,7 +414,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_s32_f32(data);
 		#else
-		return i32x4((uint4)floats);
+		return i32x4((int4)floats);
 		#endif
 	}
 
-- 
2.43.0


From d23d2572562c7828229d0bfd0dcd00e61967e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 56/58] fix: importance sampling of smooth surfaces lost the
 angle to cancellation, NaN at the last sample

---
 include/math/brdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/brdf.hpp b/include/math/brdf.hpp
index e4ec61f..5066efc 100644
--- a/include/math/brdf.hpp
+++ b/include/math/brdf.hpp
@@ -83,7 +83,7 @@ static constexpr float2 hammersley(uint32 index, float invSampleCount) noexcept
 static f32x4 importanceSamplingNdfDggx(float2 u, float a) noexcept
 {
     auto phi = 2.0f * (float)M_PI * u.x;
-    auto cosTheta2 = (1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y));
+    auto cosTheta2 = (1.0f - u.y) / ((1.0f - u.y) + (a * a) * u.y);
     cosTheta2 = std::min(cosTheta2, 1.0f);
     auto cosTheta = std::sqrt(cosTheta2);
     auto sinTheta = std::sqrt(1.0f - cosTheta2);
-- 
2.43.0


From b50dbfaf58ec93c53ed1a33ea885c915dd3f949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 57/58] fix: nearest point on a ray lost its direction to
 rounding far from the origin

---
 include/math/ray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index 4e41eae..c5c1643 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -110,9 +110,9 @@ inline const Ray Ray::front = Ray(f32x4::zero, f32x4(0.0f, 0.0f, 1.0f, 0.0f), fa
  */
 static f32x4 closestPoint(const Ray& ray, f32x4 point) noexcept
 {
-	auto a = ray.origin, b = ray.origin + ray.getDirection();
-	auto v = b - a; auto t = dot3(point - a, v) / dot3(v, v);
-	return fma(ray.getDirection(), f32x4(std::max(t, 0.0f)), a);
+	auto a = ray.origin, v = ray.getDirection();
+	auto t = dot3(point - a, v) / dot3(v, v);
+	return fma(v, f32x4(std::max(t, 0.0f)), a);
 }
 
 } // namespace math
\ No newline at end of file
-- 
2.43.0


From 382d47ba3a7fb7a50c8703fad3d765db0a82d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:36 +0000
Subject: [PATCH 58/58] fix: leave the BVH node stack empty when a callback or
 an allocation throws

---
 include/math/bvh.hpp | 10 ++++++++++
 source/bvh.cpp       |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/include/math/bvh.hpp b/include/math/bvh.hpp
index 48a2994..9e70364 100644
--- a/include/math/bvh.hpp
+++ b/include/math/bvh.hpp
@@ -104,6 +104,15 @@ protected:
 	vector<uint32> primitives;
 	vector<f32x4> centroids;
 	stack<Node*> nodeStack;
+
+	/**
+	 * @brief Empties node stack on scope exit, also when a callback or an allocation has thrown.
+	 */
+	struct NodeStackGuard final
+	{
+		stack<Node*>& nodeStack;
+		~NodeStackGuard() { while (!nodeStack.empty()) nodeStack.pop(); }
+	};
 public:
 	/*******************************************************************************************************************
 	 * @brief Creates a new BVH from the triangle array.
@@ -201,6 +210,7 @@ public:
 
 		auto nodeData = nodes.data();
 		auto node = &nodeData[0];
+		NodeStackGuard stackGuard = { nodeStack };
 
 		while (true)
 		{
diff --git a/source/bvh.cpp b/source/bvh.cpp
index e1ec74d..7767426 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -258,6 +258,7 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 	assert(vertexSize > 0);
 	assert(indexSize > 0);
 	assert(nodeStack.empty());
+	NodeStackGuard stackGuard = { nodeStack };
 
 	auto primitiveCount = indexCount / Triangle::pointCount;
 	nodes.resize(primitiveCount * 2 - 1);
@@ -406,6 +407,7 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 	assert(aabbs);
 	assert(aabbCount > 0);
 	assert(nodeStack.empty());
+	NodeStackGuard stackGuard = { nodeStack };
 
 	nodes.resize(aabbCount * 2 - 1);
 	primitives.resize(aabbCount);
@@ -542,6 +544,7 @@ uint32 Bvh::collectInFrustum(const Plane* planes, uint8 planeCount, uint32* prim
 
 	auto nodeStack = _nodeStack ? _nodeStack : &this->nodeStack;
 	assert(nodeStack->empty());
+	NodeStackGuard stackGuard = { *nodeStack };
 
 	auto nodeData = nodes.data();
 	auto thisPrimitiveData = this->primitives.data();
-- 
2.43.0

