// @mustbuild port
// @configs sse2 sse41 avx2 port portub neon
// @shards 8
// @technique exhaustive enumeration of all 2^32 bit patterns through the real SIMD and scalar conversions, against the C++ conversion of each component
// @note Complete: every 32-bit pattern (thorough: in every lane position) for the SIMD conversions and bit casts, all letter tuples of the component alphabets for widening/narrowing. Conversions that C++ leaves undefined (float out of range of the integer type, NaN) are not judged.
// V03: conversions between float, int, uint and mask vectors.
#include "vx.hpp"
#include <cassert>
#include <cfloat>
#include "math/simd/vector/float.hpp"
using namespace math;
namespace vx
{
template<class V, class T> static void rd(const V& v, T* t) { static_assert(sizeof(V) == 16, ""); memcpy(t, &v, 16); }
static u32x4 mkU(const u32* p) { return u32x4(p[0], p[1], p[2], p[3]); }
static i32x4 mkI(const u32* p) { return i32x4((i32)p[0], (i32)p[1], (i32)p[2], (i32)p[3]); }
static f32x4 mkF(const u32* p) { return f32x4(bitsf(p[0]), bitsf(p[1]), bitsf(p[2]), bitsf(p[3])); }
static bool inI(float f) { return f >= -2147483648.f && f < 2147483648.f; }
static bool inU(float f) { return f > -1.f && f < 4294967296.f; }

// one block = 2^16 consecutive patterns; the lanes hold four patterns far apart so that no lane sees only one range
static void all32()
{
	if (!begin("all 2^32 patterns", true)) return;
	const u32 lanex[4] = { 0, 0x80000000u, 0x40000000u, 0xC0000000u }; const u32 blocks = thorough() ? 65536 : 16384;
	for (u32 blk = 0; blk < blocks; blk++)
	{
		if (!mine(blk)) continue; next(); states(262144); trace(65536 * 4); trans(65536 * 10);
		for (u32 lo = 0; lo < 65536; lo++)
		{
			u32 x = blk << 16 | lo; alignas(16) u32 p[4], g[4]; alignas(16) float gf[4]; for (int k = 0; k < 4; k++) p[k] = x ^ lanex[(k + blk) & 3];
			u32x4 u = mkU(p); i32x4 i = mkI(p); f32x4 f = mkF(p);
			rd((f32x4)u, gf); for (int k = 0; k < 4; k++) if (gf[k] != (float)p[k]) fail("uint->float", "f32x4(u32x4) lane %d of %u: got %.9g want %.9g", k, p[k], gf[k], (float)p[k]);
			rd((f32x4)i, gf); for (int k = 0; k < 4; k++) if (gf[k] != (float)(i32)p[k]) fail("int->float", "f32x4(i32x4) lane %d of %d: got %.9g want %.9g", k, (i32)p[k], gf[k], (float)(i32)p[k]);
			rd((i32x4)f, g); for (int k = 0; k < 4; k++) { float s = bitsf(p[k]); if (inI(s) && (i32)g[k] != (i32)s) fail("float->int", "i32x4(f32x4) lane %d of %.9g: got %d want %d", k, s, (i32)g[k], (i32)s); }
			rd((u32x4)f, g); for (int k = 0; k < 4; k++) { float s = bitsf(p[k]); if (inU(s) && g[k] != (u32)s) fail("float->uint", "u32x4(f32x4) lane %d of %.9g: got %u want %u", k, s, g[k], (u32)s); }
			#define BITS(n, e) rd(e, g); if (memcmp(g, p, 16)) fail(n, n " %08x %08x %08x %08x: got %08x %08x %08x %08x", p[0], p[1], p[2], p[3], g[0], g[1], g[2], g[3]);
			BITS("uintAsFloat", uintAsFloat(u)) BITS("intAsFloat", intAsFloat(i)) BITS("floatAsUint", floatAsUint(f)) BITS("floatAsInt", floatAsInt(f)) BITS("uintAsInt", uintAsInt(u)) BITS("i32x4(u32x4)", (i32x4)u) BITS("u32x4(i32x4)", (u32x4)i)
		}
		if (blk == 0x0F00) sample("block 0x0F00....: patterns x, x+2^30, x+2^31, x+2^31+2^30 and their integer conversions, all lanes");
	}
	bound("SIMD conversions and bit casts: all 2^32 patterns, each seen in %s", thorough() ? "all four lanes" : "one lane, the lane rotating with the pattern");
}
static void scalars32()
{
	if (!begin("scalar conversions of a full sweep", true)) return; const u32 step = thorough() ? 1 : 61;
	for (u32 blk = 0; blk < 65536; blk++)
	{
		if (!mine(blk)) continue; next();
		for (u32 lo = blk % step; lo < 65536; lo += step)
		{
			u32 x = blk << 16 | lo, y = x ^ 0x80000000u, z = x * 5 + 1, w = ~x; states(); trace(); trans(6); float a[4] = { bitsf(x), bitsf(y), bitsf(z), bitsf(w) }; u32 b[4] = { x, y, z, w };
			float4 f(a[0], a[1], a[2], a[3]); uint4 u(x, y, z, w); int4 i((i32)x, (i32)y, (i32)z, (i32)w); int4 fi; uint4 fu;
			bool di = true, du = true; for (float s : a) { di &= inI(s); du &= inU(s); }
			float4 q = float4(u), r = float4(i); int4 iu = int4(u); uint4 ui = (uint4)i;
			for (int k = 0; k < 4; k++)
			{
				if (q[k] != (float)b[k]) fail("float4(uint4)", "component %d of %u: %.9g", k, b[k], q[k]); if (r[k] != (float)(i32)b[k]) fail("float4(int4)", "component %d of %d: %.9g", k, (i32)b[k], r[k]);
				if ((u32)iu[k] != b[k]) fail("int4(uint4)", "component %d of %u: %d", k, b[k], iu[k]); if (ui[k] != b[k]) fail("uint4(int4)", "component %d of %d: %u", k, (i32)b[k], ui[k]);
			}
			if (di) { fi = (int4)f; for (int k = 0; k < 4; k++) if (fi[k] != (i32)a[k]) fail("int4(float4)", "component %d of %.9g: %d", k, a[k], fi[k]); }
			if (du) { fu = (uint4)f; for (int k = 0; k < 4; k++) if (fu[k] != (u32)a[k]) fail("uint4(float4)", "component %d of %.9g: %u", k, a[k], fu[k]); }
		}
	}
	bound("int4/uint4/float4 conversions: %s of the 2^32 patterns", step == 1 ? "all" : "every 61st");
}

// with the sanitizer for conversions outside the target's range: in-range lanes must not pass through another integer type
static void inrange()
{
	if (!begin("no undefined conversion inside the range", true)) return; const u32 step = thorough() ? 1 : 61;
	for (u32 blk = 0; blk < 65536; blk++)
	{
		if (!mine(blk)) continue; next();
		for (u32 lo = blk % step; lo < 65536; lo += step)
		{
			u32 x = blk << 16 | lo, p[4] = { x, x ^ 0x80000000u, x - 0x00800000u, x ^ 0x80012345u }; float s[4]; bool di = true, du = true; for (int k = 0; k < 4; k++) { s[k] = bitsf(p[k]); di &= inI(s[k]); du &= inU(s[k]); } if (!di && !du) { float t = bitsf(x); if (inU(t)) { for (float& v : s) v = t; du = true; } else continue; }
			states(); trace(); trans(2); u32 g[4]; f32x4 f(s[0], s[1], s[2], s[3]); snprintf(what, sizeof what, "%.9g %.9g %.9g %.9g", s[0], s[1], s[2], s[3]);
			if (di) { rd((i32x4)f, g); for (int k = 0; k < 4; k++) if ((i32)g[k] != (i32)s[k]) fail("float->int", "i32x4(f32x4) lane %d of %.9g: got %d", k, s[k], (i32)g[k]); }
			if (du) { rd((u32x4)f, g); for (int k = 0; k < 4; k++) if (g[k] != (u32)s[k]) fail("float->uint", "u32x4(f32x4) lane %d of %.9g: got %u", k, s[k], g[k]); }
		}
	}
	bound("in-range conversions under the float-cast-overflow sanitizer: %s of the 2^32 patterns", step == 1 ? "all" : "every 61st");
}

// widening / narrowing: every tuple of letters
template<class V, int N> static void same(const char* n, const V& v, std::initializer_list<double> w) { trans(); int k = 0; for (double d : w) { if ((double)v[k] != d) fail(n, "%s: component %d is %.9g, want %.9g (%s)", n, k, (double)v[k], d, what); k++; } (void)N; }
template<class T, class V2, class V3, class V4> static void widen(const char* tn, const std::vector<T>& al)
{
	int K = (int)al.size();
	for (int n = 0; n < K * K * K * K; n++)
	{
		next(); states(); trace(); T a = al[n % K], b = al[n / K % K], c = al[n / K / K % K], d = al[n / K / K / K]; snprintf(what, sizeof what, "%s letters %.9g %.9g %.9g %.9g", tn, (double)a, (double)b, (double)c, (double)d);
		double A = (double)a, B = (double)b, C = (double)c, D = (double)d;
		#define S(V, N, e, ...) same<V, N>(#e, e, { __VA_ARGS__ })
		S(V2, 2, V2(a, b), A, B); S(V2, 2, V2(a), A, A); S(V2, 2, V2(), 0, 0); S(V3, 3, V3(a, b, c), A, B, C); S(V3, 3, V3(a), A, A, A); S(V3, 3, V3(), 0, 0, 0); S(V3, 3, V3(V2(a, b), c), A, B, C); S(V3, 3, V3(a, V2(b, c)), A, B, C);
		S(V4, 4, V4(a, b, c, d), A, B, C, D); S(V4, 4, V4(a), A, A, A, A); S(V4, 4, V4(), 0, 0, 0, 0); S(V4, 4, V4(V2(a, b), c, d), A, B, C, D); S(V4, 4, V4(a, V2(b, c), d), A, B, C, D); S(V4, 4, V4(a, b, V2(c, d)), A, B, C, D); S(V4, 4, V4(V2(a, b), V2(c, d)), A, B, C, D); S(V4, 4, V4(V3(a, b, c), d), A, B, C, D); S(V4, 4, V4(a, V3(b, c, d)), A, B, C, D);
		S(V3, 3, (V3)V4(a, b, c, d), A, B, C); S(V2, 2, (V2)V4(a, b, c, d), A, B); S(V2, 2, (V2)V3(a, b, c), A, B); V2 t2(a, b); V3 t3(a, b, c); V4 t4(a, b, c, d);
		if ((T)t2 != a || (T)t3 != a || (T)t4 != a) fail("scalar cast", "%s: %.9g %.9g %.9g", what, (double)(T)t2, (double)(T)t3, (double)(T)t4); trans(3);
	}
}
static void widening()
{
	if (begin("widen float")) widen<float, float2, float3, float4>("float", { 0.f, 1.5f, -2.f, 1e30f, -FLT_MAX, 16777217.f, 0.1f });
	if (begin("widen int")) widen<i32, int2, int3, int4>("int", { 0, 1, -2, INT32_MAX, INT32_MIN, 77, -100000 });
	if (begin("widen uint")) widen<u32, uint2, uint3, uint4>("uint", { 0, 1, 2, 0x80000000u, 0xFFFFFFFFu, 77, 0x7FFFFFFFu });
	bound("every constructor and narrowing conversion on all 7^4 letter tuples per type");
}
static void cross()
{
	if (!begin("cross-type small vectors")) return;
	std::vector<u32> U = { 0, 1, 2, 255, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFFu, 16777217u, 0x12345678u }; std::vector<float> F = { 0, -0.f, 0.99f, 1.5f, 2.999f, 255.5f, 16777216.f, 2147483520.f, 100.25f, -0.5f }; int K = 10;
	for (int n = 0; n < K * K * K * K; n++)
	{
		next(); states(); trace(); u32 a = U[n % K], b = U[n / K % K], c = U[n / K / K % K], d = U[n / K / K / K]; float p = F[n % K], q = F[n / K % K], r = F[n / K / K % K], s = F[n / K / K / K]; snprintf(what, sizeof what, "uints %u %u %u %u floats %.9g %.9g %.9g %.9g", a, b, c, d, p, q, r, s);
		i32 ia = (i32)a, ib = (i32)b, ic = (i32)c, id = (i32)d; double fa = (float)a, fb = (float)b, fc = (float)c, ga = (float)ia, gb = (float)ib, gc = (float)ic;
		S(float2, 2, float2(uint2(a, b)), fa, fb); S(float3, 3, float3(uint3(a, b, c)), fa, fb, fc); S(float2, 2, float2(int2(ia, ib)), ga, gb); S(float3, 3, float3(int3(ia, ib, ic)), ga, gb, gc);
		double Ia = ia, Ib = ib, Ic = ic; double Ua = a, Ub = b, Uc = c;
		S(int2, 2, int2(uint2(a, b)), Ia, Ib); S(int3, 3, int3(uint3(a, b, c)), Ia, Ib, Ic); S(uint2, 2, (uint2)int2(ia, ib), Ua, Ub); S(uint3, 3, (uint3)int3(ia, ib, ic), Ua, Ub, Uc); S(uint2, 2, (uint2)int3(ia, ib, ic), Ua, Ub); S(uint3, 3, (uint3)int4(ia, ib, ic, id), Ua, Ub, Uc); S(uint2, 2, (uint2)int4(ia, ib, ic, id), Ua, Ub);
		int2 i2(ia, ib); int3 i3(ia, ib, ic); int4 i4(ia, ib, ic, id); if ((u32)i2 != a || (u32)i3 != a || (u32)i4 != a) fail("uint32(intN)", "%s", what); trans(3);
		double tp = (double)(i32)p, tq = (double)(i32)q, tr = (double)(i32)r;
		S(int2, 2, (int2)float2(p, q), tp, tq); S(uint2, 2, (uint2)float2(p, q), tp, tq); S(int3, 3, (int3)float3(p, q, r), tp, tq, tr); S(uint3, 3, (uint3)float3(p, q, r), tp, tq, tr); S(int2, 2, (int2)float3(p, q, r), tp, tq); S(uint2, 2, (uint2)float3(p, q, r), tp, tq);
		float4 f4(p, q, r, s); S(int3, 3, (int3)f4, tp, tq, tr); S(uint3, 3, (uint3)f4, tp, tq, tr); S(int2, 2, (int2)f4, tp, tq); S(uint2, 2, (uint2)f4, tp, tq); float3 f3(p, q, r); float2 f2(p, q);
		if ((i32)f4 != (i32)p || (i32)f3 != (i32)p || (i32)f2 != (i32)p || (u32)f4 != (u32)p || (u32)f3 != (u32)p || (u32)f2 != (u32)p) fail("scalar(floatN)", "%s", what); trans(6);
		// SIMD <-> scalar vectors
		alignas(16) u32 g[4]; u32 w4[4] = { a, b, c, d };
		#define G(n, e, L) rd(e, g); trans(); if (memcmp(g, w4, 4 * L)) fail(n, "%s: %s got %x %x %x %x", n, what, g[0], g[1], g[2], g[3]);
		G("u32x4(uint4)", u32x4(uint4(a, b, c, d)), 4) G("u32x4(uint3)", u32x4(uint3(a, b, c)), 3) G("u32x4(uint2)", u32x4(uint2(a, b)), 2) G("u32x4(ptr)", u32x4((const u32*)w4), 4) G("i32x4(int4)", i32x4(i4), 4) G("i32x4(int3)", i32x4(i3), 3) G("i32x4(int2)", i32x4(i2), 2) G("i32x4(ptr)", i32x4((const i32*)w4), 4) G("u32x4(splat)", u32x4(a), 1) G("i32x4(splat)", i32x4(ia), 1)
		S(uint4, 4, (uint4)u32x4(a, b, c, d), Ua, Ub, Uc, (double)d); S(uint3, 3, (uint3)u32x4(a, b, c, d), Ua, Ub, Uc); S(uint2, 2, (uint2)u32x4(a, b, c, d), Ua, Ub); S(int4, 4, (int4)i32x4(ia, ib, ic, id), Ia, Ib, Ic, (double)id); S(int3, 3, (int3)i32x4(ia, ib, ic, id), Ia, Ib, Ic); S(int2, 2, (int2)i32x4(ia, ib, ic, id), Ia, Ib);
		if ((u32)u32x4(a, b, c, d) != a || (i32)i32x4(ia, ib, ic, id) != ia) fail("scalar(SIMD)", "%s", what); trans(2);
		S(float4, 4, (float4)f32x4(f4), p, q, r, s); S(float3, 3, (float3)f32x4(f4), p, q, r); S(float2, 2, (float2)f32x4(f4), p, q); S(float3, 3, (float3)f32x4(f3), p, q, r); S(float2, 2, (float2)f32x4(f2), p, q);
		S(uint4, 4, (uint4)u32x4(u32x4(a, b, c, 0), d), Ua, Ub, Uc, (double)d); S(int4, 4, (int4)i32x4(i32x4(ia, ib, ic, 0), id), Ia, Ib, Ic, (double)id);
	}
	bound("every cross-type conversion of 2/3/4 component vectors and to/from SIMD on all 10^4 letter tuples");
}
static void body() { if (!strcmp(VX_CONFIG, "portub")) { inrange(); return; } all32(); scalars32(); widening(); cross(); }
}
VX_MAIN(vx::body)
