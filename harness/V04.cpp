// @configs sse2 sse41 avx2 port neon
// @shards 8
// @technique exhaustive enumeration of float bit patterns (thorough: all 2^32) and exact operand lattices through the real rounding/mod/repeat/sign/lerp/gain code, against integer-arithmetic definitions
// @note Quick covers every sign/exponent/top-mantissa prefix with boundary tails and every half-integer neighbourhood up to 2^20; thorough every float. Ties of round() may go either way (SSE4.1 rounds to even, the scalar path away from zero), signed zeros are not distinguished, mod is judged on exact lattices only.
// V04: rounding, modulo, repeat, sign, clamp, lerp, gain, angle units.
#include "vx.hpp"
#include <cassert>
#include <cfloat>
#include "math/simd/vector/float.hpp"
#include "math/angles.hpp"
using namespace math;
namespace vx
{
struct R { float fl, ce, tr; };
static R ref(float f)
{
	if (!(std::fabs(f) < 8388608.f)) return R{ f, f, f };
	i32 t = (i32)f; float T = (float)t; return R{ T > f ? T - 1 : T, T < f ? T + 1 : T, T };
}
static bool isRound(float f, float r) { if (!(std::fabs(f) < 8388608.f)) return vx::same(f, r); return std::fabs((double)r - (double)f) <= 0.5 && r == (float)(i32)r; }
static bool isRepeat(float f, float r)
{
	if (!(r >= 0.f && r <= 1.f)) return false; double fl = ref(f).fl, frac = (double)f - fl; // exact
	double d = std::fabs(r - frac); return f >= 0 ? d == 0 : std::min(d, std::fabs(d - 1)) <= 6e-8;
}
static void one(const float* a)
{
	f32x4 v(a[0], a[1], a[2], a[3]); float4 s4(a[0], a[1], a[2], a[3]);
	f32x4 fl = floor(v), ce = ceil(v), tr = trunc(v), ro = round(v), sg = sign(v), ab = abs(v), re = repeat(v); float4 ro4 = round(s4), re4 = repeat(s4);
	float4 fl4 = floor(s4), ce4 = ceil(s4), tr4 = trunc(s4), sg4 = sign(s4), ab4 = abs(s4);
	for (int k = 0; k < 4; k++)
	{
		float x = a[k]; R r = ref(x); float si = (fbits(x) >> 31) ? -1.f : 1.f;
		#define C(n, g, w) if (!vx::same(g, w)) fail(n, "%s lane %d of %.9g (%08x): got %.9g want %.9g", n, k, x, fbits(x), (float)(g), (float)(w));
		C("floor", fl[k], r.fl) C("ceil", ce[k], r.ce) C("trunc", tr[k], r.tr) C("sign", sg[k], si) C("abs", ab[k], x < 0 ? -x : x) C("floor4", fl4[k], r.fl) C("ceil4", ce4[k], r.ce) C("trunc4", tr4[k], r.tr) C("sign4", sg4[k], si) C("abs4", ab4[k], x < 0 ? -x : x) C("sign scalar", math::sign(x), si)
		if (!isRound(x, ro[k])) fail("round", "round lane %d of %.9g: got %.9g", k, x, ro[k]); if (!isRound(x, ro4[k])) fail("round4", "round component %d of %.9g: got %.9g", k, x, ro4[k]);
		if (std::isfinite(x)) { if (!isRepeat(x, re[k])) fail("repeat", "repeat lane %d of %.9g: got %.9g", k, x, re[k]); if (!isRepeat(x, re4[k])) fail("repeat4", "repeat component %d of %.9g: got %.9g", k, x, re4[k]); float q = math::repeat(x); if (!isRepeat(x, q)) fail("repeat scalar", "repeat(%.9g): got %.9g", x, q); if (re[k] != q || re4[k] != q) fail("repeat widths", "repeat of %.9g: %.9g in f32x4, %.9g in float4, %.9g in float", x, re[k], re4[k], q); }
	}
}
static void patterns()
{
	if (!begin("float patterns", true)) return;
	if (thorough())
	{
		for (u32 b = 0; b < 16384; b++) { if (!mine(b)) continue; next(); states(262144); trace(262144); trans(262144 * 14); for (u32 l = 0; l < 65536; l++) { u32 x = b << 16 | l; float a[4]; for (int k = 0; k < 4; k++) a[k] = bitsf(x | (u32)((k + b) & 3) << 30); one(a); } }
		bound("all 2^32 float patterns");
	}
	else
	{
		std::set<u32> tl; for (int i = 0; i < 16; i++) for (int d = -1; d <= 1; d++) { tl.insert(((1u << i) + d) & 0xFFFF); tl.insert((0xFFFF - (1u << i) + d) & 0xFFFF); } std::vector<u32> t(tl.begin(), tl.end());
		for (u32 b = 0; b < 16384; b++) { if (!mine(b)) continue; next(); states(t.size() * 4); trace(t.size() * 4); trans(t.size() * 56); for (u32 l : t) { u32 x = b << 16 | l; float a[4]; for (int k = 0; k < 4; k++) a[k] = bitsf(x | (u32)((k + b) & 3) << 30); one(a); } }
		bound("all 2^16 sign/exponent/mantissa prefixes with %zu boundary tails", t.size());
	}
	sample("floor/ceil/trunc/round/sign/abs/repeat of every pattern in all widths");
}
static void halves()
{
	if (!begin("half-integer neighbourhoods", true)) return; const int N = thorough() ? 1 << 24 : 1 << 21;
	for (int n = 0; n < N; n++)
	{
		if (!mine(n >> 8)) continue; if (!(n & 255)) next(); states(4); trace(); trans(56); float h = n * 0.5f; float a[4] = { h, -std::nextafter(h, INFINITY), std::nextafter(h, -INFINITY), -h }; if (n & 1) std::swap(a[0], a[3]); if (n & 2) std::swap(a[1], a[2]); one(a);
	}
	bound("every k/2 for k < %d with both float neighbours and signs", N);
}
static void widths()
{
	if (!begin("2 and 3 component forms")) return; float al[] = { -2.5f, -2.f, -1.75f, -1.5f, -1.f, -0.5f, -0.25f, -0.f, 0.f, 0.25f, 0.5f, 1.f, 1.5f, 2.25f, 3.f, 8388609.f, -1e20f, 0.49999997f, -0.49999997f, 4194304.5f, -4194303.5f, 2147483648.f, -3e9f, 1e-40f, -1e-20f, 0.99999994f, -1.0000001f }; const int K = 27;
	for (int n = 0; n < K * K * K; n++)
	{
		next(); states(); trace(); trans(14); float a[3] = { al[n % K], al[n / K % K], al[n / K / K] }; float3 v(a[0], a[1], a[2]); float2 w(a[0], a[1]);
		for (int k = 0; k < 3; k++)
		{
			float x = a[k]; R r = ref(x); float si = (fbits(x) >> 31) ? -1.f : 1.f;
			C("floor3", floor(v)[k], r.fl) C("ceil3", ceil(v)[k], r.ce) C("trunc3", trunc(v)[k], r.tr) C("sign3", sign(v)[k], si) C("abs3", abs(v)[k], std::fabs(x)) if (!isRound(x, round(v)[k])) fail("round3", "round3 of %.9g: %.9g", x, round(v)[k]); if (!isRepeat(x, repeat(v)[k])) fail("repeat3", "repeat3 of %.9g: %.9g", x, repeat(v)[k]);
			if (k < 2) { C("floor2", floor(w)[k], r.fl) C("ceil2", ceil(w)[k], r.ce) C("trunc2", trunc(w)[k], r.tr) C("sign2", sign(w)[k], si) C("abs2", abs(w)[k], std::fabs(x)) if (!isRound(x, round(w)[k])) fail("round2", "round2 of %.9g: %.9g", x, round(w)[k]); if (!isRepeat(x, repeat(w)[k])) fail("repeat2", "repeat2 of %.9g: %.9g", x, repeat(w)[k]); }
		}
	}
	bound("2/3 component forms on all 27^3 letter tuples");
}
// every combination of value classes, equal ones included, in the four lanes
static void combos()
{
	if (!begin("lane combinations", true)) return; std::vector<float> L{ 0, -0.0f, 1e-40f, -1e-20f, 0.3f, -0.49999997f, 0.5f, -0.5f, 0.99999994f, 1, -1, 1.5f, -2.5f, 7.25f, -50.7f, 1000.5f, -70000.25f, 8388607.5f, -8388609.0f, 3e9f, -1e30f }; if (thorough()) for (float v : { INFINITY, -INFINITY, 2.0f, -3.0f, 1e-5f, -1e-3f, 4194304.5f, 1e10f }) L.push_back(v); u64 n = 0; float a[4];
	for (float w : L) for (float x : L) { if (!mine(n++)) continue; for (float y : L) for (float z : L) { next(); states(); trans(14); a[0] = w; a[1] = x; a[2] = y; a[3] = z; one(a); } trace(); }
	bound("lane combinations: all %zu^4 vectors for every rounding function, sign, abs and repeat", L.size());
}
static void mods()
{
	if (!begin("mod lattice", true)) return; const int N = thorough() ? 2000 : 260, D = thorough() ? 60 : 24; float sc[] = { 1.f, 1.f / 1024, 4096.f };
	for (int n = -N; n <= N; n++) { if (!mine(n + N)) continue; next(); for (int d = -D; d <= D; d++) for (float s : sc)
	{
		if (!d) continue; states(); trace(); trans(5); float x = n * s, y = d * s; int tr = n % d, flr = tr && ((tr < 0) != (d < 0)) ? tr + d : tr;
		// every lane sees (n, d) with different neighbours
		f32x4 A(x, 7 * s, -5 * s, x), B(y, 3 * s, 3 * s, y), g = mod(A, B), g2 = mod(f32x4(5 * s, x, x, -3 * s), f32x4(3 * s, y, y, 2 * s));
		auto q = [&](const char* nm, float got, float want) { if (got != want) fail(nm, "%s(%.9g, %.9g): got %.9g want %.9g", nm, x, y, got, want); };
		q("SIMD mod", g[0], flr * s); q("SIMD mod", g[3], flr * s); q("SIMD mod", g2[1], flr * s); q("SIMD mod", g2[2], flr * s); q("SIMD mod other lane", g[1], s); q("SIMD mod other lane", g[2], s);
		float4 h = mod(float4(x, 7 * s, x, -7 * s), float4(y, 3 * s, y, 3 * s)); float3 h3 = mod(float3(7 * s, x, x), float3(3 * s, y, y)); float2 h2 = mod(float2(x, x + y), float2(y, y));
		q("mod4", h[0], tr * s); q("mod4", h[2], tr * s); q("mod4", h[1], s); q("mod4", h[3], -s); q("mod3", h3[0], s); q("mod3", h3[1], tr * s); q("mod3", h3[2], tr * s); q("mod2", h2[0], tr * s); q("mod2", h2[1], ((n + d) % d) * s);
		{ float4 h = mod(float4(7 * s, x, -7 * s, x), float4(3 * s, y, 5 * s, y)); float3 a = mod(float3(x, 7 * s, -7 * s), float3(y, 4 * s, 3 * s)), b = mod(float3(-9 * s, x, 11 * s), float3(5 * s, y, 7 * s)), c = mod(float3(7 * s, -9 * s, x), float3(4 * s, 5 * s, y)); float2 e = mod(float2(x, 7 * s), float2(y, 4 * s)), f = mod(float2(-9 * s, x), float2(5 * s, y)); f32x4 g = mod(f32x4(5 * s, 7 * s, x, x), f32x4(3 * s, 4 * s, y, y)), i = mod(f32x4(x, x, 9 * s, 11 * s), f32x4(y, y, 5 * s, 7 * s)); trans(7);
			q("mod4", h[0], s); q("mod4", h[1], tr * s); q("mod4", h[2], -2 * s); q("mod4", h[3], tr * s); q("mod3", a[0], tr * s); q("mod3", a[1], 3 * s); q("mod3", a[2], -s); q("mod3", b[0], -4 * s); q("mod3", b[1], tr * s); q("mod3", b[2], 4 * s); q("mod3", c[0], 3 * s); q("mod3", c[1], -4 * s); q("mod3", c[2], tr * s); q("mod2", e[0], tr * s); q("mod2", e[1], 3 * s); q("mod2", f[0], -4 * s); q("mod2", f[1], tr * s);
			q("SIMD mod", g[0], 2 * s); q("SIMD mod", g[1], 3 * s); q("SIMD mod", g[2], flr * s); q("SIMD mod", g[3], flr * s); q("SIMD mod", i[0], flr * s); q("SIMD mod", i[1], flr * s); q("SIMD mod", i[2], 4 * s); q("SIMD mod", i[3], 4 * s); }
		if (n == 7 && d == -3) sample("mod(%g, %g): SIMD %g, scalar %g", x, y, g[0], h[0]);
	} }
	bound("mod: all integer pairs |n| <= %d, 0 < |d| <= %d at three power-of-two scales", N, D);
}
template<class V, int N> static void lerps(const char* nm)
{
	float al[] = { -8, -3, -0.5f, 0, 1, 2.5f, 64 }; const int K = 7;
	for (int n = 0; n < K * K * K; n++) for (int t = -4; t <= 12; t++)
	{
		next(); states(); trace(); trans(2); V a, b; float x[4], y[4]; for (int k = 0; k < N; k++) { x[k] = al[(n + 2 * k) % K]; y[k] = al[(n / K + k * (1 + n / K / K)) % K]; a[k] = x[k]; b[k] = y[k]; } float T = t / 8.f; V r = lerp(a, b, T);
		for (int k = 0; k < N; k++) if (r[k] != x[k] + T * (y[k] - x[k])) fail("lerp", "%s lerp component %d of %g..%g at %g: got %.9g", nm, k, x[k], y[k], T, r[k]);
		float fs[] = { 0.f, 0.25f, 0.5f, 1.f, 2.f }; for (float f : fs) for (int e = 0; e <= 3; e++) { V d = lerpDelta(a, b, f, (float)e); float p = 1; for (int i = 0; i < e; i++) p *= f; trans(); for (int k = 0; k < N; k++) if (d[k] != x[k] + (1 - p) * (y[k] - x[k])) fail("lerpDelta", "%s lerpDelta component %d of %g..%g f=%g dt=%d: got %.9g", nm, k, x[k], y[k], f, e, d[k]); }
	}
}
struct F1 { float v; float& operator[](int) { return v; } };
static F1 lerp(F1 a, F1 b, float t) { return F1{ math::lerp(a.v, b.v, t) }; }
static F1 lerpDelta(F1 a, F1 b, float f, float d) { return F1{ math::lerpDelta(a.v, b.v, f, d) }; }
static void interp()
{
	if (begin("lerp SIMD")) lerps<f32x4, 4>("f32x4"); if (begin("lerp 4")) lerps<float4, 4>("float4"); if (begin("lerp 3")) lerps<float3, 3>("float3"); if (begin("lerp 2")) lerps<float2, 2>("float2"); if (begin("lerp 1")) lerps<F1, 1>("float");
	bound("lerp/lerpDelta: all dyadic end-point letter tuples x 17 parameters; f in {0,1/4,1/2,1,2}, dt 0..3 (exact)");
	if (!begin("gain and small helpers")) return;
	const int N = thorough() ? 65536 : 4096;
	for (int i = 0; i <= N; i++)
	{
		next(); states(); trace(); float x = i / (float)N, g1[4]; int ks[] = { 1, 2, 3, 0 };
		for (int k : ks)
		{
			double h = x < 0.5f ? x : 1 - x, a = 0.5 * std::pow(2 * h, k), w = x < 0.5f ? a : 1 - a; trans(4); float K = (float)k;
			auto q = [&](const char* nm, float got) { if (!(std::fabs(got - w) <= 3e-7)) fail(nm, "%s(%.9g, %d): got %.9g want %.9g", nm, x, k, got, w); };
			q("gain", gain(x, K)); float2 r2 = gain(float2(x, 0.25f), float2(K, 1)); q("gain2", r2.x); float3 r3 = gain(float3(0.25f, x, 0.75f), float3(1, K, 1)); q("gain3", r3.y); float4 r4 = gain(float4(0.25f, 0.75f, 1, x), float4(1, 1, 1, K)); q("gain4", r4.w);
			if (r2.y != 0.25f || r3.x != 0.25f || r3.z != 0.75f || r4.x != 0.25f || r4.y != 0.75f || r4.z != 1) fail("gain lanes", "gain with k=1 is not the identity next to x=%g", x);
		}
		float deg = (i - N / 2) * (1440.f / N); double rad = deg * (M_PI / 180), tol = std::fabs(rad) * 4e-7 + 1e-12; trans(10);
		auto q = [&](const char* nm, double got, double want, double t) { if (!(std::fabs(got - want) <= t)) fail(nm, "%s near %g deg: got %.9g want %.9g", nm, deg, got, want); };
		q("radians", radians(deg), rad, tol); q("radians2", radians(float2(0, deg)).y, rad, tol); q("radians3", radians(float3(0, 0, deg)).z, rad, tol); q("radians4", radians(float4(0, 0, 0, deg)).w, rad, tol); for (int k = 0; k < 4; k++) { f32x4 v; v[k] = deg; f32x4 r = radians(v); for (int m = 0; m < 4; m++) q("radians SIMD", r[m], m == k ? rad : 0, tol); f32x4 u; u[k] = (float)rad; f32x4 d = degrees(u); for (int m = 0; m < 4; m++) q("degrees SIMD", d[m], m == k ? deg : 0, std::fabs(deg) * 4e-7 + 1e-9); }
		float rf = (float)rad; double dt = std::fabs(deg) * 4e-7 + 1e-9; q("degrees", degrees(rf), deg, dt); q("degrees2", degrees(float2(rf, 0)).x, deg, dt); q("degrees3", degrees(float3(0, rf, 0)).y, deg, dt); q("degrees4", degrees(float4(0, 0, rf, 0)).z, deg, dt);
	}
	float al[] = { -3, -1, 0, 0.5f, 2, 7 }; for (float a : al) for (float b : al) for (float c : al) { next(); states(); trace(); trans(4); float s[3] = { a, b, c }; std::sort(s, s + 3); if (math::min(a, b, c) != s[0] || math::max(a, b, c) != s[2]) fail("min/max of three", "%g %g %g", a, b, c); if (math::min((i32)a * 2, (i32)b * 2, (i32)c * 2) != std::min({ (i32)a * 2, (i32)b * 2, (i32)c * 2 }) || math::max((i32)a * 2, (i32)b * 2, (i32)c * 2) != std::max({ (i32)a * 2, (i32)b * 2, (i32)c * 2 })) fail("int min/max of three", "%g %g %g", a, b, c); }
	bound("gain on %d parameters x exponents 0..3; radians/degrees on %d angles in [-720, 720]", N + 1, N + 1);
}
// arguments no lattice holds: real time steps, real exponents, end points that nearly coincide or lie far apart
static void general()
{
	if (!begin("time steps and exponents", true)) return; static const float F[] = { 0, 1e-30f, 1e-6f, 1e-3f, 0.1f, 0.25f, 0.5f, 0.9f, 0.999f, 0.999999f, 1, 1.5f, 2 }, DT[] = { 0, 1e-8f, 1e-6f, 1e-5f, 1e-4f, 0.00099f, 0.001f, 0.002f, 0.00694f, 0.016666f, 0.0333f, 0.1f, 0.5f, 0.8f, 0.99f, 0.995f, 0.9999f, 1, 1.01f, 2, 3.7f, 10, 60, 100 }, E[] = { 0, 1, -1, 1e-6f, 1.000001f, 0.3f, 1000, -3e5f, 1e-20f, 1e20f }, X[] = { 0, 1e-6f, 0.001f, 0.01f, 0.1f, 0.25f, 0.3333333f, 0.49f, 0.4999999f, 0.5f, 0.5000001f, 0.51f, 0.6f, 0.75f, 0.9f, 0.999f, 0.999999f, 1 }, K[] = { 0, 0.0005f, 0.01f, 0.1f, 0.5f, 0.9f, 0.99f, 1, 1.01f, 1.1f, 1.5f, 2, 2.2f, 2.7f, 3, 5, 10, 33 }, T[] = { 0, 1e-7f, 1e-4f, 0.001f, 0.1f, 0.3f, 0.5f, 0.7f, 0.999f, 0.999999f, 1, 1.5f, -0.5f };
	u64 c = 0; auto chk = [&](const char* nm, double got, double want, double tol, double a, double b, double x, double y) { trans(); if (!(std::fabs(got - want) <= tol)) fail(nm, "%s of %.9g..%.9g with %.9g, %.9g: got %.9g want %.9g", nm, a, b, x, y, got, want); };
	for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j++)
	{
		if (!mine(c++)) continue; float a = E[i], b = E[j], a2 = E[(i + 3) % 10], b2 = E[(j + 1) % 10]; double m = std::fabs((double)a) + std::fabs((double)b), m2 = std::fabs((double)a2) + std::fabs((double)b2);
		for (float f : F) for (float dt : DT)
		{
			if (f > 1 && dt > 10) continue; next(); states(); trace(); double p = 1 - std::pow((double)f, (double)dt), w = a + p * ((double)b - a), w2 = a2 + p * ((double)b2 - a2), tol = 4e-7 * (1 + 2 * std::fabs(p)) * m + 1e-40, tol2 = 4e-7 * (1 + 2 * std::fabs(p)) * m2 + 1e-40;
			chk("lerpDelta", math::lerpDelta(a, b, f, dt), w, tol, a, b, f, dt); float2 r2 = lerpDelta(float2(a, a2), float2(b, b2), f, dt); chk("lerpDelta2", r2.x, w, tol, a, b, f, dt); chk("lerpDelta2", r2.y, w2, tol2, a2, b2, f, dt);
			float3 r3 = lerpDelta(float3(a2, a, a2), float3(b2, b, b2), f, dt); chk("lerpDelta3", r3.y, w, tol, a, b, f, dt); chk("lerpDelta3", r3.x, w2, tol2, a2, b2, f, dt); chk("lerpDelta3", r3.z, w2, tol2, a2, b2, f, dt); float4 r4 = lerpDelta(float4(a2, a2, a, a), float4(b2, b2, b, b), f, dt); f32x4 rs = lerpDelta(f32x4(a, a2, a2, a), f32x4(b, b2, b2, b), f, dt);
			for (int k = 0; k < 4; k++) { bool s = k < 2; chk("lerpDelta4", r4[k], s ? w2 : w, s ? tol2 : tol, s ? a2 : a, s ? b2 : b, f, dt); s = k == 1 || k == 2; chk("lerpDelta SIMD", rs[k], s ? w2 : w, s ? tol2 : tol, s ? a2 : a, s ? b2 : b, f, dt); }
		}
		for (float t : T)
		{
			next(); states(); trace(); double w = a + t * ((double)b - a), w2 = a2 + t * ((double)b2 - a2), k_ = 1 + 2 * std::fabs(t), tol = 2.5e-7 * k_ * m + 1e-40, tol2 = 2.5e-7 * k_ * m2 + 1e-40; chk("lerp", math::lerp(a, b, t), w, tol, a, b, t, 0); float2 r2 = lerp(float2(a, a2), float2(b, b2), t); float3 r3 = lerp(float3(a2, a, a2), float3(b2, b, b2), t); float4 r4 = lerp(float4(a2, a2, a, a), float4(b2, b2, b, b), t); f32x4 rs = lerp(f32x4(a, a2, a2, a), f32x4(b, b2, b2, b), t);
			chk("lerp2", r2.x, w, tol, a, b, t, 0); chk("lerp2", r2.y, w2, tol2, a2, b2, t, 0); for (int k = 0; k < 4; k++) { if (k < 3) chk("lerp3", r3[k], k == 1 ? w : w2, k == 1 ? tol : tol2, k == 1 ? a : a2, k == 1 ? b : b2, t, 0); chk("lerp4", r4[k], k < 2 ? w2 : w, k < 2 ? tol2 : tol, k < 2 ? a2 : a, k < 2 ? b2 : b, t, 0); bool s = k == 1 || k == 2; chk("lerp SIMD", rs[k], s ? w2 : w, s ? tol2 : tol, s ? a2 : a, s ? b2 : b, t, 0); }
		}
	}
	for (int i = 0; i < 18; i++) for (int j = 0; j < 18; j++)
	{
		if (!mine(c++)) continue; for (int i2 = 0; i2 < 18; i2++) { next(); states(); trace(); float x[4] = { X[i], X[i2], X[(i + i2) % 18], X[(i * 5 + 3 * i2 + 1) % 18] }, k[4] = { K[j], K[(j + i2) % 18], K[j], K[(j + 2 * i2 + 1) % 18] }; double w[4]; for (int z = 0; z < 4; z++) { double h = x[z] < 0.5f ? x[z] : 1.0 - x[z], a = 0.5 * std::pow(2 * h, (double)k[z]); w[z] = x[z] < 0.5f ? a : 1 - a; }
			chk("gain", math::gain(x[0], k[0]), w[0], 3e-6, 0, 1, x[0], k[0]); float2 r2 = gain(float2(x[0], x[1]), float2(k[0], k[1])); float3 r3 = gain(float3(x[0], x[1], x[2]), float3(k[0], k[1], k[2])); float4 r4 = gain(float4(x[0], x[1], x[2], x[3]), float4(k[0], k[1], k[2], k[3])); for (int z = 0; z < 4; z++) { if (z < 2) chk("gain2", r2[z], w[z], 3e-6, 0, 1, x[z], k[z]); if (z < 3) chk("gain3", r3[z], w[z], 3e-6, 0, 1, x[z], k[z]); chk("gain4", r4[z], w[z], 3e-6, 0, 1, x[z], k[z]); } }
	}
	bound("time steps and exponents: 10^2 end-point pairs x 13 factors x 20 time steps, 13 parameters; gain on 18^2 x 18 inputs and exponents");
}
static void sizes()
{
	if (begin("angles of any size"))
	{
		static const float L[] = { 0, 1e-30f, 1e-7f, 0.001f, 0.1f, 1, 3.1415927f, 45, 90, 179.9f, 180, 270, 359.9f, 360, 361, 720.5f, 1000, 4321.75f, 123456, 3.0e6f, 1e9f, 1e20f, 6.2831855f, 57.29578f, 0.995f, 1.004f, 0.0005f, 0.01f, 14.9f, 59.99f }; const int K = 60; auto at = [&](int i) { i %= K; return i & 1 ? -L[i / 2] : L[i / 2]; };
		auto q = [&](const char* nm, float in, double got, double want) { trans(); if (!(std::fabs(got - want) <= std::fabs(want) * 4e-7)) fail(nm, "%s of %.9g: got %.9g want %.9g", nm, in, got, want); };
		for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { next(); states(); trace(); float a[4] = { at(i), at(j), at(i + (j % 3 == 0 ? 0 : j * 5)), at(j % 2 ? i : j * 7 + i) }; for (int dir = 0; dir < 2; dir++) { double f = dir ? 180 / M_PI : M_PI / 180; float2 a2(a[0], a[1]); float3 a3(a[0], a[1], a[2]); float4 a4(a[0], a[1], a[2], a[3]); f32x4 v(a[0], a[1], a[2], a[3]); float2 r2 = dir ? degrees(a2) : radians(a2); float3 r3 = dir ? degrees(a3) : radians(a3); float4 r4 = dir ? degrees(a4) : radians(a4); f32x4 r = dir ? degrees(v) : radians(v); q(dir ? "degrees" : "radians", a[0], dir ? degrees(a[0]) : radians(a[0]), a[0] * f); for (int k = 0; k < 4; k++) { if (k < 2) q(dir ? "degrees2" : "radians2", a[k], r2[k], a[k] * f); if (k < 3) q(dir ? "degrees3" : "radians3", a[k], r3[k], a[k] * f); q(dir ? "degrees4" : "radians4", a[k], r4[k], a[k] * f); q(dir ? "degrees SIMD" : "radians SIMD", a[k], r[k], a[k] * f); } } }
		bound("angles of any size: all pairs of 60 angles up to 1e20 in every component, the others mixed or equal");
	}
	if (begin("min and max of three"))
	{
		static const float F[] = { 0, 1, -1, 0.999f, 1.001f, 1e-20f, -1e-20f, 1e-40f, 0.25f, -0.25f, 255, 256, -32768, 65536, 1000.5f, -1000.5f, 16777215, 16777216, -16777217.f, 2147483648.f, -3e9f, 1e20f, -1e20f, 3e38f, -3e38f, 7, 7.000001f, INFINITY, -INFINITY }; static const i32 I[] = { 0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 16777216, 16777217, -16777217, 33554433, 1000000007, -1000000007, 2147483646, 2147483647, -2147483647, (i32)0x80000000 };
		for (float a : F) for (float b : F) for (float c : F) { next(); states(); trace(); trans(2); float s[3] = { a, b, c }; std::sort(s, s + 3); float x = math::min(a, b, c), y = math::max(a, b, c); if (x != s[0] || y != s[2]) fail("min/max of three", "%g %g %g: %g, %g", a, b, c, x, y); }
		for (i32 a : I) for (i32 b : I) for (i32 c : I) { next(); states(); trace(); trans(2); i32 s[3] = { a, b, c }; std::sort(s, s + 3); i32 x = math::min(a, b, c), y = math::max(a, b, c); if (x != s[0] || y != s[2]) fail("int min/max of three", "%d %d %d: %d, %d", a, b, c, x, y); }
		bound("min and max of three: all triples of 29 floats and of 27 integers up to the ends of their ranges");
	}
}
static void body() { patterns(); sizes(); halves(); widths(); combos(); mods(); interp(); general(); }
}
VX_MAIN(vx::body)
