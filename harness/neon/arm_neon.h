// Stand-in for the AArch64 NEON intrinsics the library uses, written from the Arm C Language Extensions, so that the
// library's NEON code runs on this machine. Lane by lane, no fusing; conversions saturate, NaN converts to 0, min and max
// return NaN when an operand is NaN, shifts by a vector take the signed low byte of each lane.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
typedef float float32x4_t __attribute__((vector_size(16))); typedef int32_t int32x4_t __attribute__((vector_size(16))); typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
struct float32x4x2_t { float32x4_t val[2]; };
#define NEON_F static inline __attribute__((always_inline))
#define NEON_MAP(expr) for (int i = 0; i < 4; i++) r[i] = expr; return r;
#define NEON_BIN(name, T, R, expr) NEON_F R name(T a, T b) { R r; NEON_MAP(expr) }
#define NEON_UN(name, T, R, expr) NEON_F R name(T a) { R r; NEON_MAP(expr) }
#define NEON_ALL(s, T, U) \
	NEON_BIN(vaddq_##s, T, T, a[i] + b[i]) NEON_BIN(vsubq_##s, T, T, a[i] - b[i]) NEON_BIN(vmulq_##s, T, T, a[i] * b[i]) \
	NEON_BIN(vceqq_##s, T, uint32x4_t, a[i] == b[i] ? 0xFFFFFFFFu : 0u) NEON_BIN(vcltq_##s, T, uint32x4_t, a[i] < b[i] ? 0xFFFFFFFFu : 0u) NEON_BIN(vcleq_##s, T, uint32x4_t, a[i] <= b[i] ? 0xFFFFFFFFu : 0u) \
	NEON_BIN(vcgtq_##s, T, uint32x4_t, a[i] > b[i] ? 0xFFFFFFFFu : 0u) NEON_BIN(vcgeq_##s, T, uint32x4_t, a[i] >= b[i] ? 0xFFFFFFFFu : 0u) \
	NEON_F T vdupq_n_##s(U a) { return T{ a, a, a, a }; } NEON_F T vld1q_##s(const U* p) { T r; memcpy(&r, p, 16); return r; } NEON_F void vst1q_##s(U* p, T a) { memcpy(p, &a, 16); } \
	NEON_F T vmulq_n_##s(T a, U n) { T r; NEON_MAP(a[i] * n) } NEON_F T vbslq_##s(uint32x4_t m, T a, T b) { uint32x4_t x, y; memcpy(&x, &a, 16); memcpy(&y, &b, 16); x = (x & m) | (y & ~m); T r; memcpy(&r, &x, 16); return r; } \
	NEON_F T vmlaq_##s(T a, T b, T c) { T r; NEON_MAP(a[i] + b[i] * c[i]) } NEON_F T vsetq_lane_##s(U v, T a, int l) { a[l] = v; return a; } NEON_F U vgetq_lane_##s(T a, int l) { return a[l]; } NEON_F U vaddvq_##s(T a) { return (a[0] + a[1]) + (a[2] + a[3]); } \
	NEON_F T vdupq_laneq_##s(T a, int l) { return T{ a[l], a[l], a[l], a[l] }; }
#define NEON_INT(s, T, U) NEON_BIN(vminq_##s, T, T, a[i] < b[i] ? a[i] : b[i]) NEON_BIN(vmaxq_##s, T, T, a[i] > b[i] ? a[i] : b[i]) NEON_BIN(vandq_##s, T, T, a[i] & b[i]) NEON_BIN(vorrq_##s, T, T, a[i] | b[i]) NEON_BIN(veorq_##s, T, T, a[i] ^ b[i]) NEON_BIN(vbicq_##s, T, T, a[i] & ~b[i]) NEON_UN(vmvnq_##s, T, T, ~a[i]) \
	NEON_F U vminvq_##s(T a) { U r = a[0]; for (int i = 1; i < 4; i++) if (a[i] < r) r = a[i]; return r; } NEON_F U vmaxvq_##s(T a) { U r = a[0]; for (int i = 1; i < 4; i++) if (a[i] > r) r = a[i]; return r; }
NEON_ALL(f32, float32x4_t, float) 
NEON_ALL(s32, int32x4_t, int32_t) NEON_ALL(u32, uint32x4_t, uint32_t) NEON_INT(s32, int32x4_t, int32_t) NEON_INT(u32, uint32x4_t, uint32_t)
NEON_BIN(vdivq_f32, float32x4_t, float32x4_t, a[i] / b[i])
NEON_BIN(vminq_f32, float32x4_t, float32x4_t, a[i] != a[i] || b[i] != b[i] ? NAN : a[i] < b[i] ? a[i] : b[i] < a[i] ? b[i] : std::signbit(a[i]) ? a[i] : b[i])
NEON_BIN(vmaxq_f32, float32x4_t, float32x4_t, a[i] != a[i] || b[i] != b[i] ? NAN : a[i] > b[i] ? a[i] : b[i] > a[i] ? b[i] : std::signbit(a[i]) ? b[i] : a[i])
NEON_UN(vnegq_f32, float32x4_t, float32x4_t, -a[i]) NEON_UN(vnegq_s32, int32x4_t, int32x4_t, (int32_t)(0u - (uint32_t)a[i])) NEON_UN(vabsq_f32, float32x4_t, float32x4_t, std::fabs(a[i])) NEON_UN(vsqrtq_f32, float32x4_t, float32x4_t, std::sqrt(a[i]))
NEON_UN(vrndnq_f32, float32x4_t, float32x4_t, std::nearbyint(a[i])) NEON_UN(vrndmq_f32, float32x4_t, float32x4_t, std::floor(a[i])) NEON_UN(vrndpq_f32, float32x4_t, float32x4_t, std::ceil(a[i])) NEON_UN(vrndq_f32, float32x4_t, float32x4_t, std::trunc(a[i]))
NEON_UN(vcvtq_f32_s32, int32x4_t, float32x4_t, (float)a[i]) NEON_UN(vcvtq_f32_u32, uint32x4_t, float32x4_t, (float)a[i])
NEON_UN(vcvtq_s32_f32, float32x4_t, int32x4_t, a[i] != a[i] ? 0 : a[i] >= 2147483648.0f ? INT32_MAX : a[i] < -2147483648.0f ? INT32_MIN : (int32_t)a[i])
NEON_UN(vcvtq_u32_f32, float32x4_t, uint32x4_t, a[i] != a[i] || a[i] <= 0.0f ? 0u : a[i] >= 4294967296.0f ? UINT32_MAX : (uint32_t)a[i])
#define NEON_CAST(name, A, R) NEON_F R name(A a) { R r; memcpy(&r, &a, 16); return r; }
NEON_CAST(vreinterpretq_s32_u32, uint32x4_t, int32x4_t) NEON_CAST(vreinterpretq_u32_s32, int32x4_t, uint32x4_t) NEON_CAST(vreinterpretq_u32_f32, float32x4_t, uint32x4_t) NEON_CAST(vreinterpretq_s32_f32, float32x4_t, int32x4_t) NEON_CAST(vreinterpretq_f32_u32, uint32x4_t, float32x4_t) NEON_CAST(vreinterpretq_f32_s32, int32x4_t, float32x4_t)
NEON_F int32_t neon_shl(int32_t a, int32_t s) { int n = (int8_t)s; return n >= 32 ? 0 : n >= 0 ? (int32_t)((uint32_t)a << n) : n <= -32 ? a >> 31 : a >> -n; }
NEON_F uint32_t neon_shl(uint32_t a, int32_t s) { int n = (int8_t)s; return n >= 32 || n <= -32 ? 0 : n >= 0 ? a << n : a >> -n; }
NEON_F int32x4_t vshlq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_MAP(neon_shl((int32_t)a[i], b[i])) } NEON_F uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t b) { uint32x4_t r; NEON_MAP(neon_shl((uint32_t)a[i], b[i])) }
#define vshlq_n_s32(a, n) vshlq_s32(a, vdupq_n_s32(n))
#define vshlq_n_u32(a, n) vshlq_u32(a, vdupq_n_s32(n))
#define vshrq_n_s32(a, n) vshlq_s32(a, vdupq_n_s32(-(n)))
#define vshrq_n_u32(a, n) vshlq_u32(a, vdupq_n_s32(-(n)))
NEON_F float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { return float32x4x2_t{ { float32x4_t{ a[0], b[0], a[1], b[1] }, float32x4_t{ a[2], b[2], a[3], b[3] } } }; }
NEON_F float32x2_t vdup_n_f32(float a) { return float32x2_t{ a, a }; } NEON_F float32x2_t vsqrt_f32(float32x2_t a) { return float32x2_t{ std::sqrt(a[0]), std::sqrt(a[1]) }; } NEON_F float vget_lane_f32(float32x2_t a, int l) { return a[l]; }
