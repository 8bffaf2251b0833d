// @configs sse2 avx2 mem
// @thorough_configs sse2 sse41 avx2 port neon mem
// @sources aabb.cpp bvh.cpp
// @flags_mem -DVX_MEM -O0
// @shards 8
// @technique exhaustive exploration of call histories on the real code (every ordered pair of operand variants of every operation as A B A B in a process of its own; every ordered pair of operations), and of concurrent calls (every pair of operation variants at memory-access granularity with partial-order reduction: calls without a conflicting access commute, conflicting ones run under every schedule within the bound)
// @note Complete over the listed operations and operand variants; each operation's operands take their base values, one component changed at a time, all changed, and operands of another call. A cache that holds more than two entries and only goes wrong when full is out of reach. Values printed through the C library depend on the process locale, which is left alone.
// C12: the library keeps no hidden state. What a call yields depends on its operands only: not on the calls made before it, nor on calls running at the same time.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/vector.hpp"
#include "math/matrix.hpp"
#include "math/quaternion.hpp"
#include "math/angles.hpp"
#include "math/color-space.hpp"
#include "math/color.hpp"
#include "math/hex.hpp"
#include "math/version.hpp"
#include "math/tone-mapping.hpp"
#include "math/brdf.hpp"
#include "math/ibl.hpp"
#include "math/sh.hpp"
#include "math/packed-vector.hpp"
#include "math/sphere.hpp"
#include "math/line.hpp"
#include "math/matrix/projection.hpp"
#include "math/matrix/transform.hpp"
#include "bvhx.hpp"
#include "sched.hpp"
#include <cfenv>
#include <clocale>
using namespace math;
namespace vx
{
struct Out
{
	Res r;
	void u(u64 x) { r.push_back(x); } void f(float x) { u(x != x ? 0x7fc00000u : fbits(x)); }
	void operator()(float x) { f(x); } void operator()(bool x) { u(x); } void operator()(u32 x) { u(x); } void operator()(int x) { u((u32)x); } void operator()(u64 x) { u(x); } void operator()(unsigned char x) { u(x); }
	void operator()(f32x4 v) { f(v.getX()); f(v.getY()); f(v.getZ()); f(v.getW()); } void operator()(u32x4 v) { u(v.getX()); u(v.getY()); u(v.getZ()); u(v.getW()); } void operator()(i32x4 v) { (*this)(floatAsUint(intAsFloat(v))); }
	void x(f32x4 v) { f(v.getX()); f(v.getY()); f(v.getZ()); } void operator()(const f32x4x4& m) { (*this)(m.c0); (*this)(m.c1); (*this)(m.c2); (*this)(m.c3); } void x(const f32x4x4& m) { x(m.c0); x(m.c1); x(m.c2); }
	void operator()(float2 v) { f(v.x); f(v.y); } void operator()(float3 v) { f(v.x); f(v.y); f(v.z); } void operator()(float4 v) { f(v.x); f(v.y); f(v.z); f(v.w); }
	void operator()(uint2 v) { u(v.x); u(v.y); } void operator()(uint3 v) { u(v.x); u(v.y); u(v.z); } void operator()(uint4 v) { u(v.x); u(v.y); u(v.z); u(v.w); } void operator()(int2 v) { u(v.x); u(v.y); } void operator()(int3 v) { u(v.x); u(v.y); u(v.z); } void operator()(int4 v) { u(v.x); u(v.y); u(v.z); u(v.w); }
	void operator()(const std::string& s) { u(s.size()); for (unsigned char c : s) u(c); } void operator()(Color c) { u(c.r | c.g << 8 | c.b << 16 | u64(c.a) << 24); } void operator()(const float4x4& m) { (*this)(m.c0); (*this)(m.c1); (*this)(m.c2); (*this)(m.c3); } void operator()(const float3x3& m) { (*this)(m.c0); (*this)(m.c1); (*this)(m.c2); } void operator()(float2x2 m) { (*this)(m.c0); (*this)(m.c1); }
};
typedef std::vector<float> Args;
struct Op { const char* n; std::vector<Args> var; void (*f)(const float*, Out&); };
static std::vector<Op> ops;
// Operand variants: the base, every component changed alone, all changed slightly, all changed, all changed otherwise.
static void op(const char* n, Args b, void (*f)(const float*, Out&))
{
	Op o{ n, { b }, f }; for (size_t i = 0; i < b.size(); i++) { Args v = b; v[i] = v[i] == floorf(v[i]) ? v[i] + 1 : v[i] * 0.75f; o.var.push_back(v); }
	Args v = b, w = b; for (size_t i = 0; i < b.size(); i++) { v[i] = v[i] == floorf(v[i]) ? v[i] + 1 : v[i] * 0.625f; w[i] = v[i] == floorf(v[i]) ? v[i] + 1 + i % 2 : v[i] * (i % 2 ? 0.5f : 0.875f); } Args z = b; for (auto& x : z) if (x != floorf(x)) x *= 1.001f; o.var.push_back(z); if (b.size() > 1) o.var.push_back(v); o.var.push_back(w); ops.push_back(o);
}
static f32x4 V(const float* a) { return f32x4(a[0], a[1], a[2], a[3]); } static f32x4 P3(const float* a) { return f32x4(a[0], a[1], a[2], 0); } static u32x4 U(const float* a) { return u32x4((u32)a[0], (u32)a[1], (u32)a[2], (u32)a[3]); } static i32x4 I(const float* a) { return i32x4((int)a[0], (int)a[1], (int)a[2], (int)a[3]); }
static quat Qn(const float* a) { return quat(normalize4(V(a))); } static f32x4x4 M(const float* a) { return f32x4x4(V(a), V(a + 4), V(a + 8), V(a + 12)); } static f32x4x4 TRS(const float* a) { return calcModel(P3(a), Qn(a + 3), P3(a + 7)); } // 10 operands
static const Args trs = { 1.5f, -2.25f, 3.5f, 0.3f, -0.4f, 0.5f, 0.7f, 1.25f, 2.5f, 0.75f };
static Args cat(std::initializer_list<Args> l) { Args r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
template<class F> static void scalarVec(const float* a, Out& o, F mk)
{
	auto x = mk(a), y = mk(a + 4), z = mk(a + 8); o(x + y); o(x - y); o(x * y); o(x / y); o(-x); o(x + a[0]); o(a[1] / x); o(min(x, y)); o(max(x, y, z)); o(clamp(x, y, z)); o(fma(x, y, z)); o(abs(x)); o(sqrt(y)); o(sign(x)); o(signBits(x)); o(round(x)); o(floor(x)); o(ceil(x)); o(trunc(x)); o(dot(x, y)); o(length(x)); o(distance(x, y)); o(distanceSq(x, y)); o(isClose(x, y)); o(normalize(x)); o(isNormalized(x)); o(repeat(x)); o(lerp(x, y, a[2])); o(lerpDelta(x, y, 0.25f, a[3])); o(pow(abs(x), y)); o(gain(repeat(x), abs(y))); o(equal(x, y)); o(notEqual(x, y)); o(select(x < y, x, y)); o(isBinaryLess(x, y)); o(toString(x)); o(x == y); o(x < y); o(x >= y);
	o(mod(x, y)); o(exp(x)); o(exp2(x)); o(expm1(x)); o(log(y)); o(log10(y)); o(log2(y)); o(log1p(y)); o(cbrt(x)); o(sin(x)); o(cos(x)); o(tan(x)); o(asin(x)); o(acos(x)); o(atan(x)); o(atan(x, y)); o(sinh(x)); o(cosh(x)); o(tanh(x)); o(asinh(x)); o(acosh(y)); o(atanh(x)); o(radians(x)); o(degrees(x)); x += y; x *= z; x -= a[0]; x /= y; o(x);
}
template<class F> static void intVec(const float* a, Out& o, F mk) { auto x = mk(a), y = mk(a + 4), z = mk(a + 8); o(x + y); o(x - y); o(x * y); o(x / y); o(x % y); o(x & y); o(x | y); o(x ^ y); o(x >> y); o(x << y); o(~x); o(min(x, y)); o(max(x, y)); o(clamp(x, y, z)); o(equal(x, y)); o(notEqual(x, y)); o(select(x < y, x, y)); o(isBinaryLess(x, y)); o(toString(x)); o(x == y); o(x != y); x += y; x %= z; x ^= y; o(x); }
static void fill()
{
	const Args a4 = { 0.6f, -1.3f, 2.7f, 0.9f }, b4 = { 1.9f, 0.45f, -0.8f, 3.3f }, c4 = { 5.5f, 2.6f, 1.7f, -4.4f }, p4 = { 0.7f, 1.3f, 2.7f, 0.9f }, i4 = { 13, 7, 22, 5 }, j4 = { 3, 2, 5, 4 }, k4 = { 9, 8, 11, 6 };
	op("common", { 0.6f, 0.7f, 0.3f }, [](const float* a, Out& o) { o(math::min(a[0], a[1], a[2])); o(math::max(a[0], a[1], a[2])); o(math::sign(a[0] - a[1])); o(math::repeat(a[0] * 9)); o(math::lerp(a[0], a[1], a[2])); o(math::lerpDelta(a[0], a[1], a[2], a[0])); o(math::gain(a[0], a[1] * 3)); o(math::radians(a[0] * 100)); o(math::degrees(a[1])); });
	op("float2", cat({ a4, p4, c4 }), [](const float* a, Out& o) { scalarVec(a, o, [](const float* p) { return float2(p[0], p[1]); }); });
	op("float3", cat({ a4, p4, c4 }), [](const float* a, Out& o) { scalarVec(a, o, [](const float* p) { return float3(p[0], p[1], p[2]); }); o(cross(float3(a[0], a[1], a[2]), float3(a[4], a[5], a[6]))); });
	op("float4", cat({ a4, p4, c4 }), [](const float* a, Out& o) { scalarVec(a, o, [](const float* p) { return float4(p[0], p[1], p[2], p[3]); }); });
	op("int2", cat({ i4, j4, k4 }), [](const float* a, Out& o) { intVec(a, o, [](const float* p) { return int2(p[0], p[1]); }); }); op("int3", cat({ i4, j4, k4 }), [](const float* a, Out& o) { intVec(a, o, [](const float* p) { return int3(p[0], p[1], p[2]); }); }); op("int4", cat({ i4, j4, k4 }), [](const float* a, Out& o) { intVec(a, o, [](const float* p) { return int4(p[0], p[1], p[2], p[3]); }); });
	op("uint2", cat({ i4, j4, k4 }), [](const float* a, Out& o) { intVec(a, o, [](const float* p) { return uint2(p[0], p[1]); }); o(calcMipCount(uint2(a[0], a[1]))); o(calcSizeAtMip(uint2(a[0], a[1]), 2)); }); op("uint3", cat({ i4, j4, k4 }), [](const float* a, Out& o) { intVec(a, o, [](const float* p) { return uint3(p[0], p[1], p[2]); }); o(calcMipCount(uint3(a[0], a[1], a[2]))); o(calcSizeAtMip(uint3(a[0], a[1], a[2]), 1)); }); op("uint4", cat({ i4, j4, k4 }), [](const float* a, Out& o) { intVec(a, o, [](const float* p) { return uint4(p[0], p[1], p[2], p[3]); }); o(calcMipCount((u32)a[0])); o(calcSizeAtMip((u32)a[0], 1)); });
	op("f32x4 arithmetic", cat({ a4, b4, c4 }), [](const float* a, Out& o) { auto x = V(a), y = V(a + 4), z = V(a + 8); o(x + y); o(x - y); o(x * y); o(x / y); o(-x); o(x + a[0]); o(a[1] - x); o(a[2] * x); o(a[3] / y); x += y; x *= z; x -= y; x /= z; o(x); o(fma(V(a), y, z)); o(lerp(x, y, a[4])); o(lerpDelta(x, y, 0.3f, a[5])); o(mod(x, y)); o(repeat(x)); });
	op("f32x4 comparison", cat({ a4, b4, c4 }), [](const float* a, Out& o) { auto x = V(a), y = V(a + 4), z = V(a + 8); o(x < y); o(x <= y); o(x > y); o(x >= y); o(x == y); o(x != y); o(equal(x, y)); o(notEqual(x, y)); o(select(x < y, y, z)); o(min(x, y)); o(max(x, y)); o(min4(x)); o(max4(x)); o(min3(x)); o(max3(x)); o(clamp(x, min(y, z), max(y, z))); o(isBinaryLess(x, y)); o(signBits(x)); o(sign(x)); o(abs(x)); });
	op("f32x4 rounding", a4, [](const float* a, Out& o) { auto x = V(a); o(round(x)); o(floor(x)); o(ceil(x)); o(trunc(x)); o(sqrt(abs(x))); o(floatAsUint(x)); o(floatAsInt(x)); o(toString(x)); o(x[1]); o(x.swizzle<SwZ, SwX, SwW, SwY>()); o((u32x4)abs(x)); o((i32x4)x); });
	op("f32x4 geometry", cat({ a4, b4 }), [](const float* a, Out& o) { auto x = V(a), y = V(a + 4); o(dot4(x, y)); o(dot3(x, y)); o(dotV4(x, y)); o.x(dotV3(x, y)); o.x(cross3(x, y)); o(length4(x)); o(length3(x)); o(lengthSq4(x)); o(lengthSq3(x)); o(distance4(x, y)); o(distance3(x, y)); o(distanceSq4(x, y)); o(normalize4(x)); o.x(normalize3(x)); o(isNormalized4(x)); o(isNormalized3(x)); });
	op("f32x4 log", p4, [](const float* a, Out& o) { o(log(V(a))); }); op("f32x4 exp", a4, [](const float* a, Out& o) { o(exp(V(a))); }); op("f32x4 pow", cat({ p4, b4 }), [](const float* a, Out& o) { o(pow(V(a), V(a + 4))); }); op("f32x4 fastPow", cat({ p4, { 2.2f, 0.45f, 1.5f, 3.3f } }), [](const float* a, Out& o) { o(fastPow(V(a), V(a + 4))); }); op("f32x4 sinCos", c4, [](const float* a, Out& o) { f32x4 s, c; sinCos(V(a), s, c); o(s); o(c); });
	op("u32x4", cat({ i4, j4, k4 }), [](const float* a, Out& o) { auto x = U(a), y = U(a + 4), z = U(a + 8); o(x + y); o(x - y); o(x * y); o(x / y); o(x % y); o(x & y); o(x | y); o(x ^ y); o(x >> y); o(x << y); o(~x); o(x < y); o(x >= y); o(min(x, y)); o(max(x, y)); o(min4(x)); o(max3(x)); o(clamp(x, y, z)); o(equal(x, y)); o(bic(x, y)); o(select(x < y, y, z)); o(getTrues(x < y)); o(areAllTrue(x > y)); o(areAnyTrue(x < y)); o(isBinaryLess(x, y)); o(toString(x)); o(calcMipCount3(x)); o.u(calcSizeAtMip3(x, 1).getX()); x += y; x *= z; o(x); });
	op("i32x4", cat({ i4, j4, k4 }), [](const float* a, Out& o) { auto x = I(a), y = I(a + 4), z = I(a + 8); o(x + y); o(x - y); o(x * y); o(x / y); o(x % y); o(x & y); o(x | y); o(x ^ y); o(x >> y); o(x << y); o(-x); o(x < y); o(x >= y); o(min(x, y)); o(max(x, y)); o(min4(x)); o(max3(x)); o(clamp(x, y, z)); o(equal(x, y)); o(bic(x, y)); o(select(x < y, y, z)); o(isBinaryLess(x, y)); o(toString(x)); x -= y; x *= z; o(x); });
	const Args m16 = { 1.5f, 0.3f, -0.7f, 0.2f, 0.4f, 2.25f, 0.6f, -0.3f, -0.2f, 0.8f, 1.75f, 0.1f, 3.5f, -2.25f, 0.9f, 1.1f }, n16 = { 0.7f, 0.2f, 0.4f, -0.6f, 0.1f, 1.3f, -0.9f, 0.3f, 0.8f, -0.4f, 2.1f, 0.6f, -1.5f, 0.7f, 1.9f, 0.8f };
	op("f32x4x4 product", cat({ m16, n16 }), [](const float* a, Out& o) { auto x = M(a), y = M(a + 16); o(x * y); o(x * V(a + 16)); o.x(multiply3x3(x, y)); o.x(multiply3x3(x, V(a + 16))); o(x + a[3]); o(x * a[5]); x *= y; o(x); o(x == y); o(isBinaryLess(x, y)); });
	op("f32x4x4 inverse", m16, [](const float* a, Out& o) { o(inverse4x4(M(a))); o(transpose4x4(M(a))); o.x(transpose3x3(M(a))); });
	op("float4x4", cat({ m16, n16 }), [](const float* a, Out& o) { auto mk = [](const float* p) { return float4x4(float4(p[0], p[1], p[2], p[3]), float4(p[4], p[5], p[6], p[7]), float4(p[8], p[9], p[10], p[11]), float4(p[12], p[13], p[14], p[15])); }; auto x = mk(a), y = mk(a + 16); o(x * y); o(x * float4(a[16], a[17], a[18], a[19])); o(float4(a[16], a[17], a[18], a[19]) * x); o(transpose(x)); o(inverse(x)); o(x == y); o(x + a[1]); auto p = (float3x3)x, q = (float3x3)y; o(p * q); o(inverse(p)); o(transpose(p)); auto s = (float2x2)x, t = (float2x2)y; o(s * t); o(inverse(s)); o(transpose(s)); });
	op("translate and scale", cat({ m16, a4 }), [](const float* a, Out& o) { auto m = M(a); o(translate(P3(a + 16))); o(translate(m, P3(a + 16))); o(translate(P3(a + 16), m)); o(scale(P3(a + 16))); o(scale(m, P3(a + 16))); o(scale(P3(a + 16), m)); o.x(getTranslation(m)); setTranslation(m, P3(a + 16)); o.x(m.c3); o.x(extractScale(m)); o(extractScale2(m)); });
	op("calcModel", trs, [](const float* a, Out& o) { auto m = TRS(a); o(m); o(extractQuat(extractRotation(m))); o.x(extractRotation(m)); f32x4 p, s; quat q; extractTransform(m, p, q, s); o.x(p); o(q); o.x(s); });
	op("rotation matrix", { 0.3f, -0.4f, 0.5f, 0.7f }, [](const float* a, Out& o) { auto q = Qn(a); auto m = rotate(q); o.x(m); o(extractQuat(m)); auto t = translate(f32x4(a[3], a[2], a[1], 0)) * m; o(inverseTransRot(t)); });
	op("lookAt", { 1.5f, 0.3f, -0.7f, 4.2f, -1.4f, 2.25f, 0.1f, 1.2f, 0.2f }, [](const float* a, Out& o) { o(lookAt(P3(a), P3(a + 3), normalize3(P3(a + 6)))); o(lookAtQuat(normalize3(P3(a + 3) - P3(a)), normalize3(P3(a + 6)))); o.x(rotate(P3(a), P3(a + 3), normalize3(P3(a + 6)))); o.x(rotate(normalize3(P3(a + 3) - P3(a)))); });
	op("quat product", { 0.3f, -0.4f, 0.5f, 0.7f, 0.6f, 0.2f, -0.1f, 0.9f }, [](const float* a, Out& o) { auto x = Qn(a), y = Qn(a + 4); o(x * y); o.x(x * P3(a + 4)); o.x(P3(a + 4) * x); o(conjugate(x)); o(inverse(quat(V(a)))); o(normalize(quat(V(a)))); x *= y; o(x); });
	op("quat euler", { 0.3f, -0.4f, 0.5f }, [](const float* a, Out& o) { auto q = fromEulerAngles(P3(a)); o(q); o.x(q.extractEulerAngles()); o(q.isGimbalLocked()); o(q.extractPitch()); o(q.extractYaw()); o(q.extractRoll()); o(quat(a[0], normalize3(P3(a)))); });
	op("slerp", { 0.3f, -0.4f, 0.5f, 0.7f, 0.6f, 0.2f, -0.1f, 0.9f, 0.35f }, [](const float* a, Out& o) { o(slerp(Qn(a), Qn(a + 4), a[8])); });
	op("projections", { 1.1f, 1.7f, 0.25f, 90.5f, -7.5f }, [](const float* a, Out& o) { o(calcPerspProjInfRevZ(a[0], a[1], a[2])); o(calcPerspProjRevZ(a[0], a[1], a[2], a[3])); o(calcPerspProj(a[0], a[1], a[2], a[3])); o(calcOrthoProjRevZ(float2(a[4], a[3]), float2(a[4], a[1]), float2(a[2], a[3]))); o(calcOrthoProj(float2(a[4], a[3]), float2(a[4], a[1]), float2(a[2], a[3]))); });
	const Args box = { -1.5f, -2.5f, -0.5f, 3.5f, 1.25f, 2.75f };
	op("aabb", cat({ box, { 0.5f, 4.5f, 1.5f, 6.5f, 9.5f, 8.5f } }), [](const float* a, Out& o) { Aabb x(P3(a), P3(a) + abs(P3(a + 3))), y(P3(a + 6), P3(a + 6) + abs(P3(a + 9))); o(isInside(x, P3(a + 6))); o(isInside(x, y)); o.x(closestPoint(x, P3(a + 6))); o(isIntersected(x, y)); o.x(x.getMin()); o.x(x.getMax()); o.x(x.getSize()); o.x(x.getExtent()); o.x(x.getPosition()); x.extend(P3(a + 9)); o.x(x.getMax()); x.extend(y); o.x(x.getMin()); x.setExtent(P3(a + 9), P3(a + 6)); o.x(x.getMin()); });
	op("aabb raycast", cat({ box, { -9.5f, 0.3f, 0.7f, 4.5f, 0.3f, 0.25f } }), [](const float* a, Out& o) { Aabb x(P3(a), P3(a) + abs(P3(a + 3))); Ray r(P3(a + 6), P3(a + 9)); o(raycast2I(x, r)); o(raycast2(x, r)); o(raycast1I(x, r)); o(raycast1(x, r)); o(raycast(x, r)); o(raycastI(x, r)); o.x(closestPoint(r, P3(a))); o.x(r.getDirection()); r.setDirection(P3(a + 3)); o.x(r.getDirection()); });
	op("triangle", { 0.5f, 0.25f, 0.75f, 5.5f, 1.25f, 0.5f, 1.5f, 6.5f, 1.25f, 2.5f, 2.25f, 0.9f }, [](const float* a, Out& o) { Triangle t(P3(a), P3(a + 3), P3(a + 6)); o(isInside(t, P3(a + 9))); o.x(calcBarycentric(t, P3(a + 9))); Plane p(t); o.x(p.getNormal()); o(p.getDistance()); o.x(closestPoint(t, P3(a + 9))); });
	op("plane", { 0.6f, -1.3f, 2.7f, 1.5f, 3.5f, 0.25f, -4.5f }, [](const float* a, Out& o) { Plane p(P3(a), a[3]); o(distance3(p, P3(a + 4))); o.x(closestPoint(p, P3(a + 4))); o.x(p.getNormal()); o(p.getDistance()); Plane q[2] = { Plane(P3(a), a[3], false), Plane(P3(a + 4), a[3], false) }; normalizePlanes(q, 2); o.x(q[0].getNormal()); o(q[1].getDistance()); });
	op("frustum planes", m16, [](const float* a, Out& o) { Plane p[6]; extractFrustumPlanes(M(a), p); for (auto& q : p) { o.x(q.getNormal()); o(q.getDistance()); } });
	op("behind frustum", cat({ box, { 1.1f, 1.7f, 0.25f, 90.5f }, { 2.5f, 0.25f, 30.5f } }), [](const float* a, Out& o) { Aabb x(P3(a), P3(a) + abs(P3(a + 3))); Plane p[6]; extractFrustumPlanes((f32x4x4)calcPerspProjRevZ(a[6], a[7], a[8], a[9]), p); for (int i = -2; i < 3; i++) { Aabb y(x.getMin() + P3(a + 10) * float(i), x.getMax() + P3(a + 10) * float(i)); o(isBehindFrustum(p, 6, y)); o(isBehindFrustum(p, 6, x, translate(P3(a + 10) * float(i)))); } });
	op("behind frustum model", cat({ { 0.75f, 0.5f, 0.25f, 1.5f }, box, trs }), [](const float* a, Out& o) { Aabb x(P3(a + 4), P3(a + 4) + abs(P3(a + 7))); for (int i = -6; i < 7; i++) { Plane p(P3(a), a[3] + i); o(isBehindFrustum(&p, 1, x, TRS(a + 10))); o(isBehindFrustum(&p, 1, x)); } });
	op("sphere", cat({ { 2.5f, 0.5f, 1.5f, -0.75f, 1.25f, 3.5f, 0.25f, -1.25f }, box }), [](const float* a, Out& o) { Sphere s(a[0], P3(a + 1)), t(a[4], P3(a + 5)); o(isInside(s, P3(a + 5))); o.x(closestPoint(s, P3(a + 5))); o(isIntersected(s, t)); o(isIntersected(s, Aabb(P3(a + 8), P3(a + 8) + abs(P3(a + 11))))); o(s.getRadius()); });
	op("line", { 0.5f, 1.5f, -0.75f, 6.5f, 3.5f, 0.25f, 2.25f, 0.9f, 1.1f }, [](const float* a, Out& o) { Line l(P3(a), P3(a + 3)); o.x(closestPoint(l, P3(a + 6))); float t = 9; o.x(closestPoint(l, P3(a + 6), t)); o(t); });
	op("bvh", { 5, 2, 3, 1, 0.5f }, [](const float* a, Out& o) { std::vector<Aabb> b; Aabb all; for (int i = 0; i < (int)a[0]; i++) { f32x4 m(i * a[1], i * 5 % 7, i * a[2], 0); b.push_back(Aabb(m, m + f32x4(a[3], 1, 2, 0))); if (i) all.extend(b.back()); else all = b.back(); } Bvh t(b.data(), all, b.size()); o.u(ident(t)); Plane p(f32x4(1, 0, 0, 0), -a[4] * 3, false); std::vector<u32> x(b.size()); u32 n = t.collectInFrustum(&p, 1, x.data()); o(n); for (u32 i = 0; i < n; i++) o(x[i]); t.traverse([&](const Bvh::Node&) { return true; }, [&](u32 f, u32 c) { o(f); o(c); }); });
	op("bvh mesh", { 5, 3, 4 }, [](const float* a, Out& o) { std::vector<float> v; std::vector<u32> ix; Aabb all; for (int i = 0; i < (int)a[0]; i++) { const float t[9] = { i * a[1], 0, 0, i * a[1] + 1, a[2], 1, i * a[1], 1, 1 }; for (int k = 0; k < 3; k++) { ix.push_back(v.size() / 3); v.insert(v.end(), t + 3 * k, t + 3 * k + 3); Aabb q(P3(t + 3 * k), P3(t + 3 * k)); if (i || k) all.extend(q); else all = q; } } Bvh t((const uint8*)v.data(), (const uint8*)ix.data(), all, ix.size(), 12, 4); o.u(ident(t)); });
	op("color space", { 0.2f, 0.5f, 0.7f, 0.9f }, [](const float* a, Out& o) { auto c = V(a); o.x(rgbToSrgb(c)); o.x(srgbToRgb(c)); o.x(rgbToXyz(c)); o.x(xyzToRgb(c)); o.x(xyzToYxy(c)); o.x(yxyToXyz(c)); o.x(rgbToYxy(c)); o.x(yxyToRgb(c)); });
	op("gamma", { 0.2f, 0.5f, 0.7f, 0.9f, 2.2f }, [](const float* a, Out& o) { o(fastGammaCorrection(V(a), 1 / a[4])); o(fastGammaCorrection(V(a))); });
	op("color", { 12, 130, 201, 77 }, [](const float* a, Out& o) { Color c((uint8)a[0], (uint8)a[1], (uint8)a[2], (uint8)a[3]); o((f32x4)c); o((float4)c); o((u32)c); o(c.toString4()); o(c.toHex4()); o(c.toHex3()); o(Color(c.toHex4())); o(c.toLinear()); o(Color::fromLinear(c.toLinear())); c.setNormG(c.getNormB()); o(c); o(c == Color::red); o(isBinaryLess(c, Color::blue)); });
	op("hex", { 77, 130, 201 }, [](const float* a, Out& o) { u32 x = (u32)a[0] << 16 | (u32)a[1] << 8 | (u32)a[2]; o(toHex(x)); o(toHex((u64)x << 20)); o(toInt32(toHex(x))); o.u(toInt64(toHex((u64)x << 20))); });
	op("version", { 1, 2, 3, 4 }, [](const float* a, Out& o) { Version v((uint8)a[0], (uint8)a[1], (uint8)a[2], (uint8)a[3]); o((u32)v); o(v.toString4()); o(v.toString3()); o(v < Version(1, 2, 3, 4)); o(v[2]); v[1] = 9; o((u32)v); });
	op("brdf", { 0.8f, 0.3f, 0.6f, 1.5f, 5 }, [](const float* a, Out& o) { o(brdf::ggx(a[0], a[1])); o(brdf::hammersley((u32)a[4], 1.0f / 16)); o.x(brdf::importanceSamplingNdfDggx(float2(a[0], a[2]), a[1])); o(brdf::iorToReflectance(a[3])); });
	op("ibl", { 3, 5, 2 }, [](const float* a, Out& o) { auto s = ibl::coordsToST(uint2(a[0], a[1]), 1.0f / 16); o(s); o(ibl::stToDir(s, (u32)a[2] % 6)); o(ibl::coordsToDir(uint3(a[0], a[1], (u32)a[2] % 6), 1.0f / 16)); });
	const Args sh9 = { 1.5f, 0.3f, -0.7f, 0.2f, 0.4f, 0.25f, 0.6f, -0.3f, -0.2f };
	op("sh", cat({ sh9, { 0.3f, -0.4f, 0.5f, 0.7f } }), [](const float* a, Out& o) { float b[9], r[9]; sh::computeShBasis(float3(a[0], a[1], a[2]), b); for (float x : b) o(x); auto m = rotate(Qn(a + 9)); float3x3 m3(float3(m.c0.getX(), m.c0.getY(), m.c0.getZ()), float3(m.c1.getX(), m.c1.getY(), m.c1.getZ()), float3(m.c2.getX(), m.c2.getY(), m.c2.getZ())); sh::rotateSh3Bands(a, m3, r); for (float x : r) o(x); for (int i = 0; i < 9; i++) r[i] = a[i]; o(sh::shmin(r)); sh::windowing(r, 3.5f + a[1]); for (float x : r) o(x); o(sh::sincWindow(1, 2 + a[0])); o(sh::calcSolidAngle(float2(a[1], a[2]), 0.125f)); });
	op("sh colours", cat({ sh9, { 0.3f, 0.4f, 0.5f } }), [](const float* a, Out& o) { f32x4 s[9]; for (int i = 0; i < 9; i++) s[i] = f32x4(a[i], a[i] * a[9], a[i] + a[10] * 0.1f, a[i] * a[11]); sh::deringingSH(s); for (auto& x : s) o.x(x); sh::shaderPreprocessSH(s); for (auto& x : s) o.x(x); });
	op("packed vector", { 5, 1, 3, 2 }, [](const float* a, Out& o) { PackedVector<2> p; p.resize((size_t)a[0] + 4); p.set((size_t)a[1], (uint8)a[2] & 3); p.set((size_t)a[3], 2); p.unsafeSet(0, 1); for (size_t i = 0; i < p.size() && i < 16; i++) o(p.get(i)); PackedVector<4> q((size_t)a[0] + 3); q.set((size_t)a[1], (uint8)a[2] & 15); for (int i = 0; i < 5; i++) o(q.unsafeGet(i)); });
	// Single calls, so that no other call comes between two of the same.
#define ONE(n, args, ...) op(n, args, [](const float* a, Out& o) { (void)a; __VA_ARGS__; });
	const Args q8 = { 0.3f, -0.4f, 0.5f, 0.7f, 0.6f, 0.2f, -0.1f, 0.9f }, q4 = { 0.3f, -0.4f, 0.5f, 0.7f }, prj = { 1.1f, 1.7f, 0.25f, 90.5f }, ort = { -7.5f, 3.5f, -2.5f, 4.5f, 0.25f, 90.5f }, look = { 1.5f, 0.3f, -0.7f, 4.2f, -1.4f, 2.25f, 0.1f, 1.2f, 0.2f }, rc = cat({ box, { -9.5f, 0.3f, 0.7f, 4.5f, 0.3f, 0.25f } }), tp = { 0.5f, 0.25f, 0.75f, 5.5f, 1.25f, 0.5f, 1.5f, 6.5f, 1.25f, 2.5f, 2.25f, 0.9f }, pp = { 0.6f, -1.3f, 2.7f, 1.5f, 3.5f, 0.25f, -4.5f }, s2 = { 2.5f, 0.5f, 1.5f, -0.75f, 1.25f, 3.5f, 0.25f, -1.25f }, ln = { 0.5f, 1.5f, -0.75f, 6.5f, 3.5f, 0.25f, 2.25f, 0.9f, 1.1f }, col = { 0.2f, 0.5f, 0.7f, 0.9f };
	ONE("sincWindow", (Args{ 1, 2.5f }), o(sh::sincWindow((int)a[0], a[1]))) ONE("windowing", (cat({ sh9, { 3.5f } })), float r[9]; for (int i = 0; i < 9; i++) r[i] = a[i]; sh::windowing(r, a[9]); for (float x : r) o(x)) ONE("shmin", sh9, float r[9]; for (int i = 0; i < 9; i++) r[i] = a[i]; o(sh::shmin(r))) ONE("computeShBasis", (Args{ 0.6f, -0.3f, 0.7f }), float b[9]; sh::computeShBasis(float3(a[0], a[1], a[2]), b); for (float x : b) o(x)) ONE("calcSolidAngle", (Args{ 0.3f, -0.6f, 0.125f }), o(sh::calcSolidAngle(float2(a[0], a[1]), a[2])))
	ONE("rotateSh3Bands", (cat({ sh9, q4 })), auto m = rotate(Qn(a + 9)); float r[9]; sh::rotateSh3Bands(a, float3x3((float3)m.c0, (float3)m.c1, (float3)m.c2), r); for (float x : r) o(x)) ONE("deringingSH", (cat({ sh9, { 0.3f, 0.4f, 0.5f } })), f32x4 s[9]; for (int i = 0; i < 9; i++) s[i] = f32x4(a[i], a[i] * a[9], a[i] + a[10] * 0.1f, a[i] * a[11]); sh::deringingSH(s); for (auto& x : s) o.x(x)) ONE("shaderPreprocessSH", sh9, f32x4 s[9]; for (int i = 0; i < 9; i++) s[i] = f32x4(a[i], a[8 - i], a[0], 0); sh::shaderPreprocessSH(s); for (auto& x : s) o.x(x))
	ONE("ggx", (Args{ 0.8f, 0.3f }), o(brdf::ggx(a[0], a[1]))) ONE("hammersley", (Args{ 5, 0.0625f }), o(brdf::hammersley((u32)a[0], a[1]))) ONE("importance sample", (Args{ 0.8f, 0.6f, 0.3f }), o.x(brdf::importanceSamplingNdfDggx(float2(a[0], a[1]), a[2]))) ONE("iorToReflectance", (Args{ 1.5f }), o(brdf::iorToReflectance(a[0]))) ONE("coordsToST", (Args{ 3, 5, 0.0625f }), o(ibl::coordsToST(uint2(a[0], a[1]), a[2]))) ONE("stToDir", (Args{ 0.3f, -0.6f, 2 }), o(ibl::stToDir(float2(a[0], a[1]), (u32)a[2] % 6))) ONE("coordsToDir", (Args{ 3, 5, 2, 0.0625f }), o(ibl::coordsToDir(uint3(a[0], a[1], (u32)a[2] % 6), a[3])))
	ONE("quat * quat", q8, o(Qn(a) * Qn(a + 4))) ONE("quat * vector", q8, o.x(Qn(a) * P3(a + 4))) ONE("vector * quat", q8, o.x(P3(a + 4) * Qn(a))) ONE("inverse of a quat", q4, o(inverse(quat(V(a))))) ONE("axis and angle", q4, o(quat(a[3], normalize3(P3(a))))) ONE("fromEulerAngles", (Args{ 0.3f, -0.4f, 0.5f }), o(fromEulerAngles(P3(a)))) ONE("extractEulerAngles", q4, o.x(Qn(a).extractEulerAngles())) ONE("extractPitch", q4, o(Qn(a).extractPitch())) ONE("extractYaw", q4, o(Qn(a).extractYaw())) ONE("extractRoll", q4, o(Qn(a).extractRoll())) ONE("isGimbalLocked", q4, o(Qn(a).isGimbalLocked()))
	ONE("rotate by quat", q4, o.x(rotate(Qn(a)))) ONE("extractQuat", q4, o(extractQuat(rotate(Qn(a))))) ONE("calcModel alone", trs, o(TRS(a))) ONE("extractTransform", trs, auto m = TRS(a); f32x4 p, s; quat q; extractTransform(m, p, q, s); o.x(p); o(q); o.x(s)) ONE("extractScale", m16, o.x(extractScale(M(a)))) ONE("extractRotation", trs, o.x(extractRotation(TRS(a)))) ONE("lookAt alone", look, o(lookAt(P3(a), P3(a + 3), normalize3(P3(a + 6))))) ONE("lookAtQuat", look, o(lookAtQuat(normalize3(P3(a + 3) - P3(a)), normalize3(P3(a + 6))))) ONE("rotate by look vectors", look, o.x(rotate(P3(a), P3(a + 3), normalize3(P3(a + 6))))) ONE("rotate by front", look, o.x(rotate(normalize3(P3(a)), normalize3(P3(a + 6))))) ONE("inverseTransRot", (cat({ q4, { 1.5f, 0.3f, -0.7f } })), o(inverseTransRot(translate(P3(a + 4)) * rotate(Qn(a)))))
	ONE("m * m", (cat({ m16, n16 })), o(M(a) * M(a + 16))) ONE("m * v", (cat({ m16, a4 })), o(M(a) * V(a + 16))) ONE("multiply3x3", (cat({ m16, n16 })), o.x(multiply3x3(M(a), M(a + 16)))) ONE("inverse4x4", m16, o(inverse4x4(M(a)))) ONE("transpose4x4", m16, o(transpose4x4(M(a)))) ONE("translate m", (cat({ m16, a4 })), o(translate(M(a), P3(a + 16)))) ONE("scale m", (cat({ m16, a4 })), o(scale(M(a), P3(a + 16))))
	ONE("infinite projection", prj, o(calcPerspProjInfRevZ(a[0], a[1], a[2]))) ONE("reversed projection", prj, o(calcPerspProjRevZ(a[0], a[1], a[2], a[3]))) ONE("projection", prj, o(calcPerspProj(a[0], a[1], a[2], a[3]))) ONE("ortho", ort, o(calcOrthoProj(float2(a[0], a[1]), float2(a[2], a[3]), float2(a[4], a[5])))) ONE("reversed ortho", ort, o(calcOrthoProjRevZ(float2(a[0], a[1]), float2(a[2], a[3]), float2(a[4], a[5]))))
	ONE("raycast2", rc, o(raycast2(Aabb(P3(a), P3(a) + abs(P3(a + 3))), Ray(P3(a + 6), P3(a + 9))))) ONE("raycast2I", rc, o(raycast2I(Aabb(P3(a), P3(a) + abs(P3(a + 3))), Ray(P3(a + 6), P3(a + 9))))) ONE("raycast1", rc, o(raycast1(Aabb(P3(a), P3(a) + abs(P3(a + 3))), Ray(P3(a + 6), P3(a + 9))))) ONE("raycast1I", rc, o(raycast1I(Aabb(P3(a), P3(a) + abs(P3(a + 3))), Ray(P3(a + 6), P3(a + 9))))) ONE("closest on box", rc, o.x(closestPoint(Aabb(P3(a), P3(a) + abs(P3(a + 3))), P3(a + 6)))) ONE("closest on ray", (cat({ a4, b4, c4 })), o.x(closestPoint(Ray(P3(a), P3(a + 3)), P3(a + 6)))) ONE("closest on line", ln, o.x(closestPoint(Line(P3(a), P3(a + 3)), P3(a + 6))))
	ONE("barycentric", tp, o.x(calcBarycentric(Triangle(P3(a), P3(a + 3), P3(a + 6)), P3(a + 9)))) ONE("inside triangle", tp, o(isInside(Triangle(P3(a), P3(a + 3), P3(a + 6)), P3(a + 9)))) ONE("closest on triangle", tp, o.x(closestPoint(Triangle(P3(a), P3(a + 3), P3(a + 6)), P3(a + 9)))) ONE("plane of a triangle", tp, Plane p(Triangle(P3(a), P3(a + 3), P3(a + 6))); o.x(p.getNormal()); o(p.getDistance())) ONE("closest on plane", pp, o.x(closestPoint(Plane(P3(a), a[3]), P3(a + 4)))) ONE("distance to plane", pp, o(distance3(Plane(P3(a), a[3]), P3(a + 4)))) ONE("closest on sphere", s2, o.x(closestPoint(Sphere(a[0], P3(a + 1)), P3(a + 5)))) ONE("frustum planes alone", m16, Plane p[6]; extractFrustumPlanes(M(a), p); for (auto& q : p) { o.x(q.getNormal()); o(q.getDistance()); })
	ONE("rgbToSrgb", col, o.x(rgbToSrgb(V(a)))) ONE("srgbToRgb", col, o.x(srgbToRgb(V(a)))) ONE("rgbToXyz", col, o.x(rgbToXyz(V(a)))) ONE("xyzToRgb", col, o.x(xyzToRgb(V(a)))) ONE("xyzToYxy", col, o.x(xyzToYxy(V(a)))) ONE("yxyToXyz", col, o.x(yxyToXyz(V(a)))) ONE("gamma alone", (cat({ col, { 0.4f } })), o(fastGammaCorrection(V(a), a[4]))) ONE("colour to hex", (Args{ 12, 130, 201, 77 }), o(Color((uint8)a[0], (uint8)a[1], (uint8)a[2], (uint8)a[3]).toHex4())) ONE("toHex", (Args{ 77, 130 }), o(toHex((u32)a[0] << 16 | (u32)a[1]))) ONE("toInt32", (Args{ 77, 130 }), o(toInt32(std::to_string((int)a[0]) + std::to_string((int)a[1]))))
	ONE("float3 normalize", a4, o(normalize(float3(a[0], a[1], a[2])))) ONE("normalize3", a4, o.x(normalize3(P3(a)))) ONE("float4x4 inverse", m16, o(inverse(float4x4(float4(a[0], a[1], a[2], a[3]), float4(a[4], a[5], a[6], a[7]), float4(a[8], a[9], a[10], a[11]), float4(a[12], a[13], a[14], a[15]))))) ONE("lerpDelta", (Args{ 0.6f, 0.7f, 0.3f, 0.25f }), o(math::lerpDelta(a[0], a[1], a[2], a[3]))) ONE("float3 gain", (Args{ 0.6f, 0.7f, 0.3f, 2.5f }), o(gain(float3(a[0], a[1], a[2]), float3(a[3])))) ONE("mod", (cat({ a4, b4 })), o(mod(V(a), V(a + 4))))
#undef ONE
}
#if defined(__SSE2__)
static u32 fenv() { u32 c; asm volatile("stmxcsr %0" : "=m"(c)); unsigned short k; asm volatile("fnstcw %0" : "=m"(k)); return (c & 0xffc0) | (u32)k << 16; }
#else
static u32 fenv() { return fegetround(); }
#endif
static Res call(size_t i, size_t v) { Out o; o.r.reserve(512); ops[i].f(ops[i].var[v].data(), o); return o.r; }
static std::string show(size_t i, size_t v) { std::string s = ops[i].n; s += "("; char b[32]; for (size_t k = 0; k < ops[i].var[v].size(); k++) { snprintf(b, 32, "%s%g", k ? " " : "", ops[i].var[v][k]); s += b; } return s + ")"; }
static u64* share = nullptr; enum { CAP = 1 << 16 };
// Runs f in a process of its own, in which the library has not been called before; f leaves numbers in share.
template<class F> static void child(F f) { if (!share) share = (u64*)mmap(nullptr, CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); share[0] = 0; fflush(stdout); int pid = fork(); if (pid < 0) abort(); if (!pid) { struct itimerval tv{}; tv.it_interval.tv_sec = 5; tv.it_value.tv_sec = 5; setitimer(ITIMER_PROF, &tv, 0); f(); fflush(stdout); _exit(0); } int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { snprintf(what + strlen(what), sizeof what - strlen(what), " (process ended with status %d)", st); dead("CRASH"); } }
static void told(u64 n) { S().fails += n; if (n) S().failCount[std::string(gname) + "\thistory"] += n; } // what a child process reported
static u64 hashOf(const Res& r) { u64 h = r.size(); for (u64 x : r) h = mix(h, x); return h; }
static std::vector<std::vector<u64>> alone; // the hash of every operation variant in a process of its own
static void references()
{
	alone.resize(ops.size()); for (size_t i = 0; i < ops.size(); i++) for (size_t v = 0; v < ops[i].var.size(); v++) { snprintf(what, sizeof what, "%s", show(i, v).substr(0, 300).c_str()); child([&] { u32 e = fenv(); u64 h = hashOf(call(i, v)); share[1] = fenv() != e; share[0] = h; }); alone[i].push_back(share[0]); if (share[1]) { next(); fail("floating-point environment", "%s leaves other rounding, exception or flush modes behind", show(i, v).c_str()); } }
}
#ifdef VX_MEM
typedef std::vector<std::pair<u64, int>> Acc;
// The bytes a call accesses outside its own stack and its own pool.
static Acc accesses(int s, size_t i, size_t v) { solo(s, [=] { return call(i, v); }); Acc r; Tab* t = recs[s]; for (u64 e = 0; e < t->n; e++) if (u64 q = t->used[e]; (t->a[q] < (u64)poolBase[s] || t->a[q] >= (u64)poolBase[s] + POOL)) r.push_back({ t->a[q], t->f[q] }); std::sort(r.begin(), r.end()); return r; }
// The conflicting bytes, hashed; 0 if there are none.
static u64 conflict(const Acc& x, const Acc& y) { u64 h = 0; size_t a = 0, b = 0; while (a < x.size() && b < y.size()) if (x[a].first < y[b].first) a++; else if (x[a].first > y[b].first) b++; else { if ((x[a].second | y[b].second) & 2) h = mix(h + 1, x[a].first * 16 + x[a].second * 4 + y[b].second); a++; b++; } return h; }
// Read-only operations on objects both callers hold.
struct Held { f32x4x4 m; quat q; Aabb b, b2; Ray r; Line l; Plane p[6]; Sphere s; Triangle t; PackedVector<2> v; PackedVector<4> v4; Color c; Version ver; float3x3 m3; float4x4 m4; Held() : ver(1, 2, 3, 4) { } f32x4 tp(int k) const { return k ? t.p1 : t.p0; } };
static Held* held = nullptr;
struct Look { const char* n; void (*f)(const Held&, Out&, int); };
static const Look looks[] = {
	{ "box", [](const Held& h, Out& o, int k) { o.x(h.b.getMin()); o.x(h.b.getMax()); o.x(h.b.getSize()); o.x(h.b.getExtent()); o.x(h.b.getPosition()); o(isInside(h.b, h.b2)); o(isIntersected(h.b, h.b2)); o(isInside(h.b, h.tp(k))); o.x(closestPoint(h.b, h.tp(k))); o(isBinaryLess(h.b, h.b2)); o(h.b == h.b2); } },
	{ "ray", [](const Held& h, Out& o, int k) { o.x(h.r.getDirection()); o(raycast2(h.b, h.r)); o(raycast1(h.b, h.r)); o(raycast(h.b, h.r)); o(raycastI(k ? h.b : h.b2, h.r)); o.x(closestPoint(h.r, h.tp(k))); } },
	{ "line", [](const Held& h, Out& o, int k) { float t; o.x(closestPoint(h.l, h.tp(k))); o.x(closestPoint(h.l, h.tp(k), t)); o(t); } },
	{ "planes", [](const Held& h, Out& o, int k) { o(isBehindFrustum(h.p, 6, k ? h.b : h.b2)); o(isBehindFrustum(h.p, 6, h.b, h.m)); o(distance3(h.p[k], h.tp(k))); o.x(closestPoint(h.p[k], h.tp(1))); o.x(h.p[k].getNormal()); } },
	{ "sphere", [](const Held& h, Out& o, int k) { o(isInside(h.s, h.tp(k))); o.x(closestPoint(h.s, h.tp(k))); o(isIntersected(h.s, h.b)); o(isIntersected(h.s, h.s)); o(h.s.getRadius()); o.x(h.s.getPosition()); } },
	{ "triangle", [](const Held& h, Out& o, int k) { o(isInside(h.t, h.b.getPosition())); o.x(calcBarycentric(h.t, h.tp(k))); o.x(closestPoint(h.t, h.b.getMin())); Plane p(h.t); o.x(p.getNormal()); } },
	{ "matrix", [](const Held& h, Out& o, int k) { o(h.m * h.m); o(h.m * f32x4(1, 2, 3, k)); o(inverse4x4(h.m)); o(transpose4x4(h.m)); o.x(extractScale(h.m)); o.x(getTranslation(h.m)); o(extractQuat(h.m)); o.x(extractRotation(h.m)); o(translate(h.m, f32x4(1, 2, k, 0))); o(scale(h.m, f32x4(1, 2, k, 0))); o(h.m == h.m); o(inverse(h.m3)); o(h.m3 * h.m3); o(transpose(h.m3)); o(inverse(h.m4)); o(h.m4 * h.m4); o(transpose(h.m4)); o(h.m4[k]); } },
	{ "quaternion", [](const Held& h, Out& o, int k) { o(h.q * h.q); o.x(h.q * f32x4(1, 2, k, 0)); o.x(f32x4(1, 2, k, 0) * h.q); o(conjugate(h.q)); o(inverse(h.q)); o(normalize(h.q)); o.x(h.q.extractEulerAngles()); o(slerp(h.q, quat::identity, 0.25f * k)); o.x(rotate(h.q)); o(calcModel(f32x4(1, 2, 3, 0), h.q)); } },
	{ "packed vector", [](const Held& h, Out& o, int) { for (size_t i = 0; i < 9; i++) { o(h.v.get(i)); o(h.v.unsafeGet(i)); o(h.v4.get(i)); o(h.v4.unsafeGet(i)); } o.u(h.v.size()); } },
	{ "colour and version", [](const Held& h, Out& o, int) { o((f32x4)h.c); o(h.c.toHex4()); o(h.c.toString4()); o(h.c.toLinear()); o(h.ver.toString4()); o(h.ver[2]); o((u32)h.ver); o(h.ver < h.ver); } } };
static void hold() { if (held) return; held = new (mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) Held(); Held& h = *held; for (int i = 0; i < 4; i++) { (i == 0 ? h.m.c0 : i == 1 ? h.m.c1 : i == 2 ? h.m.c2 : h.m.c3) = f32x4(1 + i, 0.25f * i, i == 2 ? 2 : 0.5f, i == 3); } h.q = quat(0.5f, -0.5f, 0.5f, 0.5f); h.b = Aabb(f32x4(-1, -2, -3, 0), f32x4(4, 3, 2, 0)); h.b2 = Aabb(f32x4(0, -1, -1, 0), f32x4(1, 1, 1, 0)); h.r = Ray(f32x4(-9, 0.5f, 0.25f, 0), f32x4(1, 0, 0, 0), false); h.l = Line(f32x4(0, 1, 2, 0), f32x4(4, 3, 5, 0)); for (int i = 0; i < 6; i++) h.p[i] = Plane(f32x4(i % 3 == 0, i % 3 == 1, i % 3 == 2, 0) * (i < 3 ? 2.0f : -2.0f), 3 + i, false); h.s = Sphere(2, f32x4(1, 1, 1, 0)); h.t = Triangle(f32x4(0, 0, 1, 0), f32x4(4, 0, 1, 0), f32x4(0, 4, 1, 0)); h.v.resize(9); h.v4.resize(9); for (int i = 0; i < 9; i++) { h.v.set(i, i & 3); h.v4.set(i, i); } h.c = Color(1, 20, 200, 255); h.m3 = float3x3(float3(2, 1, 0), float3(0, 3, 1), float3(1, 0, 4)); h.m4 = float4x4(float4(2, 1, 0, 1), float4(0, 3, 1, 0), float4(1, 0, 4, 0), float4(0, 1, 0, 5)); }
#endif
static void body()
{
	initTls(); fill(); bool T = thorough(); u64 c = 0; size_t nv = 0; for (auto& o : ops) nv += o.var.size();
#ifndef VX_MEM
	// Same operation with other operands: a value kept from an earlier call would show in one of the later ones.
	if (begin("same operation", true)) { references(); u64 seqs = 0; for (size_t i = 0; i < ops.size(); i++) { size_t n = ops[i].var.size(); for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { if (a == b) continue; if (!mine(c++)) continue; seqs++; next(); trace(); states(4); trans(4); snprintf(what, sizeof what, "%s after %s", ops[i].n, show(i, a).substr(0, 200).c_str());
		u64 old = S().fails; child([&] { const size_t w[6] = { a, b, a, b, b, a }; u32 e = fenv(); u64 h = 0; for (int k = 0; k < 6; k++) { u64 x = hashOf(call(i, w[k])); h = mix(h, x); if (x != alone[i][w[k]]) { fail("history", "call %d of the history A B A B B A: %s gives another result than in a fresh process; A is %s, B is %s", k + 1, ops[i].n, show(i, a).c_str(), show(i, b).c_str()); break; } } if (fenv() != e) fail("floating-point environment", "%s leaves other rounding, exception or flush modes behind", ops[i].n); share[0] = h; share[1] = S().fails - old; }); vx::out(share[0]); told(share[1]); } }
		if (T) for (size_t i = 0; i < ops.size(); i++) { size_t n = ops[i].var.size(); for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (size_t d = 0; d < n; d++) { if (a == b || b == d || a == d || !mine(c++)) continue; next(); trace(); states(4); trans(4); snprintf(what, sizeof what, "%s, three variants, %s", ops[i].n, show(i, a).substr(0, 200).c_str()); u64 old = S().fails; child([&] { const size_t w[4] = { a, b, d, a }; u64 h = 0; for (int k = 0; k < 4; k++) { u64 x = hashOf(call(i, w[k])); h = mix(h, x); if (x != alone[i][w[k]]) { fail("history", "call %d of the history A B C A: %s gives another result than in a fresh process; A is %s, B is %s, C is %s", k + 1, ops[i].n, show(i, a).c_str(), show(i, b).c_str(), show(i, d).c_str()); break; } } share[0] = h; share[1] = S().fails - old; }); vx::out(share[0]); told(share[1]); } }
		sample("quat product: A B A B B A with A the base operands and B the first component of the first quaternion changed"); bound("same operation: %zu operations with %zu operand variants, histories A B A B B A over all ordered pairs of variants, each in a process that has not called the library before%s", ops.size(), nv, T ? "; A B C A over all ordered triples" : ""); }
	// Other operations before: every ordered pair of operations, as one walk through all of them per variant choice.
	if (begin("other operations before", true)) { references(); size_t n = ops.size(); int R = T ? 24 : 8; for (int w = 0; w < R; w++) { if (!mine(c++)) continue; next(); trace(n); snprintf(what, sizeof what, "walk %d over all pairs of operations", w); u64 old = S().fails; child([&] { u64 h = 0, steps = 0; std::string last = "nothing"; auto step = [&](size_t i, size_t v) { v %= ops[i].var.size(); u64 x = hashOf(call(i, v)); steps++; h = mix(h, x); if (x != alone[i][v]) fail("history", "walk %d: %s gives another result than in a fresh process, directly after %s", w, show(i, v).c_str(), last.c_str()); last = ops[i].n; }; for (size_t d = 0; d < n; d++) for (size_t i = 0; i < n; i++) { size_t p = w % 2 ? n - 1 - i : i; step(p, w ? d * w + i : 0); step((p + d) % n, w ? d + i * w : 0); } share[0] = h; share[1] = steps; share[2] = S().fails - old; }); vx::out(share[0]); trans(share[1]); states(share[1]); told(share[2]); } bound("other operations before: %d walks, each through every ordered pair of the %zu operations, forwards and backwards, with the base operands and with others", R, n); }
#else
	Res r[MAXF], want[MAXF]; static std::string cd; auto judge = [&](const std::string& s) { u64 h = 0; for (int i = 0; i < 2; i++) { if (r[i] != want[i]) { fail("concurrent", "%s: the %s gives another result than alone under %s", cd.c_str(), i ? "second" : "first", s.c_str()); break; } h = mix(h, hashOf(r[i])); } return h; };
	fewer = !T; if (begin("concurrent calls", true))
	{
		std::vector<std::vector<Acc>> A[2]; std::vector<std::pair<size_t, size_t>> all; for (int s = 0; s < 2; s++) { A[s].resize(ops.size()); for (size_t i = 0; i < ops.size(); i++) for (size_t v = 0; v < ops[i].var.size(); v++) { snprintf(what, sizeof what, "%s", show(i, v).substr(0, 300).c_str()); A[s][i].push_back(accesses(s, i, v)); if (!s) all.push_back({ i, v }); } }
		std::map<std::pair<u64, u64>, int> seen; for (auto& x : all) for (auto& y : all) { if (!T && x.first != y.first && x.second && y.second) continue; if (!mine(c++)) continue; next(); trace(); trans(A[0][x.first][x.second].size() + A[1][y.first][y.second].size()); u64 cf = conflict(A[0][x.first][x.second], A[1][y.first][y.second]); if (!cf) { states(); continue; }
			if (x.first == y.first && x.second == y.second) continue; if (seen[{ T ? x.first * 1000 + y.first : 0, cf }]++ >= 3) continue; cd = show(x.first, x.second) + " while " + show(y.first, y.second); snprintf(what, sizeof what, "%s", cd.substr(0, 500).c_str()); want[0] = solo(0, [&] { return call(x.first, x.second); }); want[1] = solo(1, [&] { return call(y.first, y.second); }); explore(1, [&] { return std::vector<std::function<void()>>{ [&] { r[0] = call(x.first, x.second); }, [&] { r[1] = call(y.first, y.second); } }; }, judge); }
		sample("colour-space conversions of two colours, both at their first call: the constants behind the guards are written by one and read by both"); bound("concurrent calls: %zu operations with %zu operand variants; %s pairs; pairs with conflicting accesses (per worker%s and set of conflicting bytes 3 pairs of calls) under every schedule with up to %s switches at such accesses", ops.size(), nv, T ? "all" : "all same-operation pairs and all pairs of operations with one at its base operands", T ? ", pair of operations" : "", T ? "3 (16 accesses or fewer), 2 (50 or fewer) or 1" : "2 (16 accesses or fewer) or 1");
	}
	if (begin("shared operands", true)) { hold(); size_t n = sizeof looks / sizeof *looks; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (int k = 0; k < 2; k++) { if (!mine(c++)) continue; auto go = [](size_t i, int k) { Out o; looks[i].f(*held, o, k); return o.r; }; snprintf(what, sizeof what, "reading the same %s and %s", looks[i].n, looks[j].n); cd = what; std::vector<unsigned char> before((unsigned char*)held, (unsigned char*)held + sizeof(Held)); want[0] = solo(0, [&] { return go(i, k); }); want[1] = solo(1, [&] { return go(j, 1 - k); }); Tab* t = recs[0]; for (u64 e = 0; e < t->n; e++) if (u64 q = t->used[e]; t->a[q] >= (u64)held && t->a[q] < (u64)(held + 1) && (t->f[q] & 2)) { next(); fail("operand written", "reading operations on a shared %s write byte %llu of it", looks[i].n, (unsigned long long)(t->a[q] - (u64)held)); break; } explore(1, [&] { return std::vector<std::function<void()>>{ [&] { r[0] = go(i, k); }, [&] { r[1] = go(j, 1 - k); } }; }, judge); } bound("shared operands: all pairs of %zu groups of read-only operations on the same box, ray, line, planes, sphere, triangle, matrices, quaternion, packed vectors, colour and version", n); }
#endif
}
}
VX_MAIN(vx::body)
