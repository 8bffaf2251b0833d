// @configs sse2 sse41 avx2 port neon
// @shards 4
// @technique exhaustive enumeration of operand pairs per lane and BFS over op sequences on the real SIMD code, against scalar IEEE arithmetic
// @note Complete over all ordered pairs of the special-value alphabet in each lane and over full integer lattices for dot/cross/length (exact there), in three x86 builds, the portable code and the NEON code over a stand-in for its intrinsics. NaN payloads, min/max with NaN operands are outside. Trusts g++ scalar float arithmetic.
// V01: f32x4 against four scalar floats.
#include "vx.hpp"
#include "unit.hpp"
#include "alias.hpp"
#include <cassert>
#include <cfloat>
#include "math/simd/vector/float.hpp"
using math::f32x4; using math::u32x4; using math::i32x4; using math::float2; using math::float3; using math::float4;
namespace vx
{
struct M { float v[4]; };
static std::string str(const M& m) { char b[120]; snprintf(b, 120, "(%.9g,%.9g,%.9g,%.9g)", m.v[0], m.v[1], m.v[2], m.v[3]); return b; }
static M get(f32x4 v) { M m; alignas(16) float t[4]; memcpy(t, &v, 16); memcpy(m.v, t, 16); return m; }
static f32x4 put(const M& m) { return f32x4(m.v[0], m.v[1], m.v[2], m.v[3]); }
struct MU { u32 v[4]; };
static MU getu(u32x4 v) { MU m; alignas(16) u32 t[4]; memcpy(t, &v, 16); memcpy(m.v, t, 16); return m; }
static std::vector<float> alphabet()
{
	std::vector<float> a = { 0.f, -0.f, 1.f, -1.f, 0.5f, -0.5f, 1.5f, 2.f, -2.5f, 3.f, 0.1f, -0.7f, 10.f, -100.25f, FLT_MIN, -FLT_MIN, bitsf(1), bitsf(0x80000005), FLT_EPSILON, 1e-20f, -1e-20f, 1e20f, 8388608.f, -8388609.f, 4321.75f, -65000.5f, 16777215.f, 2147483648.f, FLT_MAX, -FLT_MAX, INFINITY, -INFINITY, NAN };
	if (thorough()) { for (int e = -120; e <= 120; e += 4) { a.push_back(std::ldexp(1.2345f, e)); a.push_back(std::ldexp(-1.6789f, e)); a.push_back(std::nextafter(std::ldexp(1.f, e), 0.f)); } }
	return a;
}
static void eq(const char* op, const M& got, const M& want, const M& a, const M& b, bool bits = true, int lanes = 4)
{
	trans(); bool ok = true; u64 h = 0; for (int k = 0; k < lanes; k++) { ok &= bits ? sameBits(got.v[k], want.v[k]) : same(got.v[k], want.v[k]); h = mix(h, fbits(got.v[k])); } out(h);
	if (!ok) fail(op, "%s a=%s b=%s: got %s, scalar lanes %s", op, str(a).c_str(), str(b).c_str(), str(got).c_str(), str(want).c_str());
}
static void equ(const char* op, const MU& got, const MU& want, const M& a, const M& b)
{
	trans(); out(mix(mix(got.v[0], got.v[1]), mix(got.v[2], got.v[3])));
	if (memcmp(&got, &want, 16)) fail(op, "%s a=%s b=%s: got mask %x %x %x %x, want %x %x %x %x", op, str(a).c_str(), str(b).c_str(), got.v[0], got.v[1], got.v[2], got.v[3], want.v[0], want.v[1], want.v[2], want.v[3]);
}
static void eqb(const char* op, i64 got, i64 want, const M& a, const M& b) { trans(); out(got * 3 + 1); if (got != want) fail(op, "%s a=%s b=%s: got %lld want %lld", op, str(a).c_str(), str(b).c_str(), (long long)got, (long long)want); }
static void eqf(const char* op, double got, double want, double tol, const M& a, const M& b) { trans(); out(fbits((float)got)); if (!(std::fabs(got - want) <= tol)) fail(op, "%s a=%s b=%s: got %.9g want %.9g", op, str(a).c_str(), str(b).c_str(), got, want); }

static float add_(float x, float y) { volatile float r = x + y; return r; } static float sub_(float x, float y) { volatile float r = x - y; return r; }
static float mul_(float x, float y) { volatile float r = x * y; return r; } static float div_(float x, float y) { volatile float r = x / y; return r; }

static void ops(const M& a, const M& b)
{
	f32x4 A = put(a), B = put(b); float n = b.v[0], m = a.v[0];
	#define L(expr) [&] { M r_; for (int k = 0; k < 4; k++) { float x = a.v[k], y = b.v[k]; (void)x; (void)y; r_.v[k] = (expr); } return r_; }()
	#define LS(expr) [&] { M r_; for (int k = 0; k < 4; k++) { float x = a.v[k], y = n; r_.v[k] = (expr); } return r_; }()
	#define SL(expr) [&] { M r_; for (int k = 0; k < 4; k++) { float x = m, y = b.v[k]; r_.v[k] = (expr); } return r_; }()
	#define FAM(o, f) eq(#o " vv", get(A o B), L(f(x, y)), a, b); { f32x4 C = A; f32x4& R = (C o##= B); eq(#o "= vv", get(C), L(f(x, y)), a, b); eqb(#o "= ref", &R == &C, 1, a, b); } \
		eq(#o " vs", get(A o n), LS(f(x, y)), a, b); { f32x4 C = A; C o##= n; eq(#o "= vs", get(C), LS(f(x, y)), a, b); } eq(#o " sv", get(m o B), SL(f(x, y)), a, b);
	FAM(+, add_) FAM(-, sub_) FAM(*, mul_) FAM(/, div_)
	eq("unary -", get(-A), L(-x), a, b); eq("abs", get(abs(A)), L(std::fabs(x)), a, b); eq("sqrt", get(sqrt(A)), L(std::sqrt(x)), a, b);
	#define MK(expr) [&] { MU r_; for (int k = 0; k < 4; k++) { float x = a.v[k], y = b.v[k]; (void)x; (void)y; r_.v[k] = (expr) ? ~0u : 0u; } return r_; }()
	#define CMP(o) equ(#o " vv", getu(A o B), MK(x o y), a, b); equ(#o " vs", getu(A o n), MK((x o n)), a, b); equ(#o " sv", getu(m o B), MK((m o y)), a, b);
	CMP(<) CMP(>) CMP(<=) CMP(>=)
	equ("equal", getu(equal(A, B)), MK(x == y), a, b); equ("notEqual", getu(notEqual(A, B)), MK(x != y), a, b);
	bool e = true, es = true, nan = false; for (int k = 0; k < 4; k++) { e &= a.v[k] == b.v[k]; es &= a.v[k] == n; nan |= a.v[k] != a.v[k] || b.v[k] != b.v[k]; }
	eqb("==", A == B, e, a, b); eqb("!=", A != B, !e, a, b); eqb("== vs", A == n, es, a, b); eqb("!= vs", A != n, !es, a, b); eqb("== sv", n == A, es, a, b); eqb("!= sv", n != A, !es, a, b); eqb("self ==", A == A, [&] { bool r = true; for (float x : a.v) r &= x == x; return r; }(), a, b);
	eqb("isBinaryLess", isBinaryLess(A, B), memcmp(&a, &b, 16) < 0, a, b);
	for (int c = 0; c < 16; c++)
	{
		u32 cm[4]; M w; for (int k = 0; k < 4; k++) { cm[k] = (c >> k & 1) ? ((c & 5) ? ~0u : 0x80000000u) : ((c & 6) ? 0 : 0x7FFFFFFFu); w.v[k] = (c >> k & 1) ? a.v[k] : b.v[k]; }
		eq("select", get(select(u32x4(cm[0], cm[1], cm[2], cm[3]), A, B)), w, a, b);
	}
	if (!nan)
	{
		eq("min", get(min(A, B)), L(x < y ? x : y), a, b, false); eq("max", get(max(A, B)), L(x > y ? x : y), a, b, false);
		M lo, hi; for (int k = 0; k < 4; k++) { float p = b.v[k], q = b.v[(k + 1) & 3]; lo.v[k] = p < q ? p : q; hi.v[k] = p < q ? q : p; }
		eq("clamp", get(clamp(A, put(lo), put(hi))), L(x < lo.v[k] ? lo.v[k] : x > hi.v[k] ? hi.v[k] : x), a, b, false);
		float mi = std::min(std::min(a.v[0], a.v[1]), a.v[2]), ma = std::max(std::max(a.v[0], a.v[1]), a.v[2]);
		auto r1 = [&](const char* n_, float g_, float w_) { trans(); if (!same(g_, w_)) fail(n_, "%s%s: got %.9g want %.9g", n_, str(a).c_str(), g_, w_); };
		r1("min3", min3(A), mi); r1("max3", max3(A), ma); mi = std::min(mi, a.v[3]); ma = std::max(ma, a.v[3]); r1("min4", min4(A), mi); r1("max4", max4(A), ma);
		// the three-lane reductions never see the fourth lane
		f32x4 W = A; W.setW(b.v[3]); r1("min3 w", min3(W), std::min(std::min(a.v[0], a.v[1]), a.v[2])); r1("max3 w", max3(W), std::max(std::max(a.v[0], a.v[1]), a.v[2]));
	}
	{ int s = 0; for (int k = 0; k < 4; k++) s |= (std::signbit(a.v[k]) ? 1 : 0) << k; eqb("signBits", signBits(A), s, a, b); }
	// access, construction, stores
	for (int k = 0; k < 4; k++) { M w = a; w.v[k] = n; f32x4 C = A; C[k] = n; eq("[] ref", get(C), w, a, b); trans(); if (!sameBits(((const f32x4&)A)[k], a.v[k])) fail("[]", "[%d] of %s", k, str(a).c_str()); }
	{ M g = { { A.getX(), A.getY(), A.getZ(), A.getW() } }; eq("getX..W", g, a, a, b); }
	{ f32x4 C = A; C.setX(n); M w = a; w.v[0] = n; eq("setX", get(C), w, a, b); } { f32x4 C = A; C.setY(n); M w = a; w.v[1] = n; eq("setY", get(C), w, a, b); } { f32x4 C = A; C.setZ(n); M w = a; w.v[2] = n; eq("setZ", get(C), w, a, b); } { f32x4 C = A; C.setW(n); M w = a; w.v[3] = n; eq("setW", get(C), w, a, b); }
	{ f32x4 C = A; C.fixW(); M w = a; w.v[3] = a.v[2]; eq("fixW", get(C), w, a, b); }
	{ M w = a; w.v[3] = n; eq("ctor(xyz,w)", get(f32x4(A, n)), w, a, b); } { M w = { { n, n, n, n } }; eq("ctor splat", get(f32x4(n)), w, a, b); f32x4 C; C = n; eq("= n", get(C), w, a, b); }
	eq("ctor(x,y,z)", get(f32x4(a.v[0], a.v[1], a.v[2])), a, a, b, true, 3); eq("ctor(float4)", get(f32x4(float4(a.v[0], a.v[1], a.v[2], a.v[3]))), a, a, b); eq("ctor(float3)", get(f32x4(float3(a.v[0], a.v[1], a.v[2]))), a, a, b, true, 3); eq("ctor(float2)", get(f32x4(float2(a.v[0], a.v[1]))), a, a, b, true, 2);
	{ float4 f = (float4)A; M g = { { f.x, f.y, f.z, f.w } }; eq("(float4)", g, a, a, b); float3 f3 = (float3)A; g = M{ { f3.x, f3.y, f3.z, 0 } }; eq("(float3)", g, a, a, b, true, 3); float2 f2 = (float2)A; g = M{ { f2.x, f2.y, 0, 0 } }; eq("(float2)", g, a, a, b, true, 2); g = M{ { (float)A, 0, 0, 0 } }; eq("(float)", g, a, a, b, true, 1); }
	eq("splatX", get(A.splatX()), M{ { a.v[0], a.v[0], a.v[0], a.v[0] } }, a, b); eq("splatY", get(A.splatY()), M{ { a.v[1], a.v[1], a.v[1], a.v[1] } }, a, b); eq("splatZ", get(A.splatZ()), M{ { a.v[2], a.v[2], a.v[2], a.v[2] } }, a, b); eq("splatW", get(A.splatW()), M{ { a.v[3], a.v[3], a.v[3], a.v[3] } }, a, b);
	{ alignas(16) float buf[12]; for (int o = 0; o < 4; o++) { for (auto& z : buf) z = 77.f; A.store(buf + 4 + o); bool ok = true; for (int i = 0; i < 12; i++) ok &= sameBits(buf[i], (i >= 4 + o && i < 8 + o) ? a.v[i - 4 - o] : 77.f); eqb("store", ok, 1, a, b); eq("ctor(ptr)", get(f32x4(buf + 4 + o)), a, a, b); }
	  for (auto& z : buf) z = 77.f; A.storeAligned(buf + 4); bool ok = true; for (int i = 0; i < 12; i++) ok &= sameBits(buf[i], (i >= 4 && i < 8) ? a.v[i - 4] : 77.f); eqb("storeAligned", ok, 1, a, b); f32x4 Lq; Lq.loadAligned(buf + 4); eq("loadAligned", get(Lq), a, a, b); }
	eqb("toString", toString(A) == std::to_string(a.v[0]) + " " + std::to_string(a.v[1]) + " " + std::to_string(a.v[2]) + " " + std::to_string(a.v[3]), 1, a, b);
}
static void pairs()
{
	if (!begin("pairs", true)) return; auto al = alphabet(); u32 N = (u32)al.size(); std::unordered_set<u64> seen;
	for (u32 i = 0; i < N; i++) for (u32 j = 0; j < N; j++)
	{
		if (!mine(i * N + j)) continue;
		for (int l = 0; l < 4; l++)
		{
			next(); M a, b; for (int k = 0; k < 4; k++) { a.v[k] = al[(i + 5 * k + 7 * l) % N]; b.v[k] = al[(j + 3 * k + 11 * l) % N]; } a.v[l] = al[i]; b.v[l] = al[j];
			u64 h = 0; for (int k = 0; k < 4; k++) h = mix(mix(h, fbits(a.v[k])), fbits(b.v[k])); if (seen.insert(h).second) states();
			ops(a, b); trace(); if (i == 3 && j == 9) sample("all operators on a=%s b=%s", str(a).c_str(), str(b).c_str());
		}
	}
	bound("every ordered pair of %u special values in each lane, every operator form", N);
}
// no NaN letters, so that min/max/clamp/reductions see every arrangement
static void patterns()
{
	if (!begin("lane patterns", true)) return; float al[] = { 0.f, 1.f, -1.f, 2.5f, -INFINITY, INFINITY, FLT_MAX, -0.f }; const int K = 8;
	for (int i = 0; i < K * K * K * K; i++)
	{
		if (!mine(i)) continue; next(); states(); trace(); M a{ { al[i % K], al[i / K % K], al[i / K / K % K], al[i / K / K / K] } }, b{ { a.v[2], a.v[0], 1.25f, a.v[1] } }; ops(a, b);
		for (int l = 0; l < 4; l++) { M c = a; c.v[l] = 3.f; eqb("== one lane differs", put(a) == put(c), 0, a, c); eqb("!= one lane differs", put(a) != put(c), 1, a, c); }
	}
	bound("all %d^4 lane arrangements of 8 values", K);
}
static void lattice()
{
	if (!begin("dot/cross/length lattice", true)) return; std::vector<int> al = thorough() ? std::vector<int>{ -4, -3, -1, 0, 1, 2, 5 } : std::vector<int>{ -3, -1, 0, 1, 2 }; int K = (int)al.size(), P = K * K * K * K, P3 = K * K * K;
	float junk[] = { 0.f, 5.f, NAN, INFINITY, -1e30f };
	for (int i = 0; i < P; i++) { if (!mine(i)) continue; for (int j = 0; j < P; j++)
	{
		next(); states(); trace(); M a, b; int x = i, y = j; i64 d4 = 0, l4 = 0, s4 = 0, d3 = 0, l3 = 0, s3 = 0; float sc = (i + j) % 3 == 0 ? 1.f : (i + j) % 3 == 1 ? 1048576.f : 1.f / 65536; double q = (double)sc * sc;
		for (int k = 0; k < 4; k++) { int p = al[x % K], r = al[y % K]; x /= K; y /= K; a.v[k] = p * sc; b.v[k] = r * sc; d4 += p * r; l4 += p * p; s4 += (p - r) * (p - r); if (k < 3) { d3 += p * r; l3 += p * p; s3 += (p - r) * (p - r); } }
		f32x4 A = put(a), B = put(b);
		eqf("dot4", dot4(A, B), d4 * q, 0, a, b); { M g = get(dotV4(A, B)); float w = (float)(d4 * q); eq("dotV4", g, M{ { w, w, w, w } }, a, b, false); }
		eqf("lengthSq4", lengthSq4(A), l4 * q, 0, a, b); eqf("distanceSq4", distanceSq4(A, B), s4 * q, 0, a, b);
		eqf("length4", length4(A), std::sqrt((double)l4) * sc, 2e-7 * sc * std::sqrt((double)l4), a, b); eqf("distance4", distance4(A, B), std::sqrt((double)s4) * sc, 2e-7 * sc * std::sqrt((double)s4), a, b);
		if (l4) { M g = get(normalize4(A)); double len = std::sqrt((double)l4) * sc; for (int k = 0; k < 4; k++) eqf("normalize4", g.v[k], a.v[k] / len, 4e-7, a, b); eqb("isNormalized4(normalize4)", isNormalized4(normalize4(A), 1e-6f), 1, a, b); }
		eqb("isNormalized4", isNormalized4(A), std::fabs(l4 * q - 1) <= 1e-6, a, b);
		if (j >= P3) continue; // three-component functions: the fourth lanes carry junk that must not matter
		a.v[3] = junk[(i + j) % 5]; b.v[3] = junk[(i / 5 + 2 * j + 1) % 5]; A = put(a); B = put(b);
		eqf("dot3", dot3(A, B), d3 * q, 0, a, b); { M g = get(dotV3(A, B)); float w = (float)(d3 * q); eq("dotV3", g, M{ { w, w, w, w } }, a, b, false); }
		eqf("lengthSq3", lengthSq3(A), l3 * q, 0, a, b); eqf("distanceSq3", distanceSq3(A, B), s3 * q, 0, a, b); eqf("length3", length3(A), std::sqrt((double)l3) * sc, 2e-7 * sc * std::sqrt((double)l3), a, b); eqf("distance3", distance3(A, B), std::sqrt((double)s3) * sc, 2e-7 * sc * std::sqrt((double)s3), a, b);
		{ M c = get(cross3(A, B)); double w[3] = { (double)a.v[1] * b.v[2] - (double)a.v[2] * b.v[1], (double)a.v[2] * b.v[0] - (double)a.v[0] * b.v[2], (double)a.v[0] * b.v[1] - (double)a.v[1] * b.v[0] }; for (int k = 0; k < 3; k++) eqf("cross3", c.v[k], w[k], 0, a, b); }
		if (l3) { M g = get(normalize3(A)); double len = std::sqrt((double)l3) * sc; for (int k = 0; k < 3; k++) eqf("normalize3", g.v[k], a.v[k] / len, 4e-7, a, b); eqb("isNormalized3(normalize3)", isNormalized3(normalize3(A), 1e-6f), 1, a, b); }
		eqb("isNormalized3", isNormalized3(A), std::fabs(l3 * q - 1) <= 1e-6, a, b);
		if (i == 77 && j == 5) sample("dot3/cross3/length3 of %s and %s", str(a).c_str(), str(b).c_str());
	} }
	bound("all pairs of the %d lattice vectors at three power-of-two scales; junk (NaN, inf, finite) in the fourth lane for three-component functions", P);
}
static void units()
{
	if (!begin("near unit length")) return; static const float W[] = { 0, 1, -0.5f, 1e-3f, 1e20f, NAN, INFINITY };
	auto mk = [](const float* v) { return f32x4(v[0], v[1], v[2], v[3]); }; UnitFns f4{ [=](const float* v) { return (double)length4(mk(v)); }, [=](const float* v) { return (double)lengthSq4(mk(v)); }, [=](const float* v, float* n) { M g = get(normalize4(mk(v))); memcpy(n, g.v, 16); }, [=](const float* v, float t) { return isNormalized4(mk(v), t); }, [=](const float* v) { return isNormalized4(mk(v)); } }, f3{ [=](const float* v) { return (double)length3(mk(v)); }, [=](const float* v) { return (double)lengthSq3(mk(v)); }, [=](const float* v, float* n) { M g = get(normalize3(mk(v))); memcpy(n, g.v, 16); }, [=](const float* v, float t) { return isNormalized3(mk(v), t); }, [=](const float* v) { return isNormalized3(mk(v)); } };
	unitLadder("f32x4 four", 4, f4, 0); for (float w : W) unitLadder("f32x4 three", 3, f3, w);
}
static void fmas()
{
	if (!begin("fma")) return; float al[] = { 0, 1, -1, 2, 3, -5, 0.5f, 1024, -2048, 0.0009765625f, -0.0078125f }; const int K = 11;
	for (int i = 0; i < K * K * K; i++) for (int l = 0; l < 4; l++)
	{
		next(); states(); trace(); M a, b, c, w; for (int k = 0; k < 4; k++) { a.v[k] = al[(i + 3 * k) % K]; b.v[k] = al[(i / K + 5 * k) % K]; c.v[k] = al[(i / K / K + k) % K]; } a.v[l] = al[i % K]; b.v[l] = al[i / K % K]; c.v[l] = al[i / K / K];
		for (int k = 0; k < 4; k++) w.v[k] = a.v[k] * b.v[k] + c.v[k]; eq("fma", get(fma(put(a), put(b), put(c))), w, a, b, false);
	}
	bound("fma: all triples of 11 exact values in each lane");
}
template<u32 C> static void sw1() { M a{ { 1.5f, -2.f, INFINITY, 4.f } }; eq("swizzle", get(put(a).swizzle<(C & 3), (C >> 2 & 3), (C >> 4 & 3), (C >> 6 & 3)>()), M{ { a.v[C & 3], a.v[C >> 2 & 3], a.v[C >> 4 & 3], a.v[C >> 6 & 3] } }, a, a); M g = get(put(a).swizzle<(C & 3), (C >> 2 & 3), (C >> 4 & 3)>()); eq("swizzle3", g, M{ { a.v[C & 3], a.v[C >> 2 & 3], a.v[C >> 4 & 3], 0 } }, a, a, true, 3); }
template<u32... Cs> static void swAll(std::integer_sequence<u32, Cs...>) { ((next(), states(), trace(), sw1<Cs>()), ...); }
static void swizzles() { if (!begin("swizzles")) return; swAll(std::make_integer_sequence<u32, 256>()); bound("all 256 swizzles"); }
static void consts()
{
	if (!begin("constants")) return; M z{};
	auto c = [&](const char* n, f32x4 v, float x, float y, float zz, float w) { next(); states(); trace(); eq(n, get(v), M{ { x, y, zz, w } }, z, z); };
	c("()", f32x4(), 0, 0, 0, 0); c("zero", f32x4::zero, 0, 0, 0, 0); c("one", f32x4::one, 1, 1, 1, 1); c("minusOne", f32x4::minusOne, -1, -1, -1, -1); c("min", f32x4::min, FLT_MIN, FLT_MIN, FLT_MIN, FLT_MIN); c("minusMin", f32x4::minusMin, -FLT_MIN, -FLT_MIN, -FLT_MIN, -FLT_MIN);
	c("max", f32x4::max, FLT_MAX, FLT_MAX, FLT_MAX, FLT_MAX); c("minusMax", f32x4::minusMax, -FLT_MAX, -FLT_MAX, -FLT_MAX, -FLT_MAX); c("epsilon", f32x4::epsilon, FLT_EPSILON, FLT_EPSILON, FLT_EPSILON, FLT_EPSILON);
	c("inf", f32x4::inf, INFINITY, INFINITY, INFINITY, INFINITY); c("minusInf", f32x4::minusInf, -INFINITY, -INFINITY, -INFINITY, -INFINITY); c("nan", f32x4::nan, NAN, NAN, NAN, NAN);
	c("left", f32x4::left, -1, 0, 0, 0); c("right", f32x4::right, 1, 0, 0, 0); c("bottom", f32x4::bottom, 0, -1, 0, 0); c("top", f32x4::top, 0, 1, 0, 0); c("back", f32x4::back, 0, 0, -1, 0); c("front", f32x4::front, 0, 0, 1, 0);
}
static void machine()
{
	if (!begin("op sequences")) return; std::vector<M> front = { { { 1, 2, -3, 4 } }, { { 0, -0.5f, 8, 0.25f } } }, args = { { { 1, -2, 0.5f, 4 } }, { { -1, 3, 2, -0.25f } } }; std::unordered_set<u64> seen; int depth = thorough() ? 7 : 5;
	for (int d = 0; d < depth; d++)
	{
		std::vector<M> nf;
		for (auto& a : front) for (auto& b : args) for (int op = 0; op < 10; op++)
		{
			next(); M w; f32x4 A = put(a), B = put(b); bool ok = true;
			switch (op)
			{
			case 0: A += B; w = L(add_(x, y)); break; case 1: A -= B; w = L(sub_(x, y)); break; case 2: A *= B; w = L(mul_(x, y)); break; case 3: A /= B; w = L(div_(x, y)); break;
			case 4: A = min(A, B); w = L(x < y ? x : y); break; case 5: A = max(A, B); w = L(x > y ? x : y); break; case 6: A = select(A <= B, -A, B); w = L(x <= y ? -x : y); break;
			case 7: A = A.swizzle<1, 2, 3, 0>(); w = M{ { a.v[1], a.v[2], a.v[3], a.v[0] } }; break; case 8: A = sqrt(abs(A)); w = L(std::sqrt(std::fabs(x))); break; default: A = 1.0f - A; w = L(sub_(1.0f, x)); break;
			}
			M g = get(A); eq("sequence step", g, w, a, b, false); trace(); for (float f : w.v) ok &= std::isfinite(f);
			u64 h = 0; for (int k = 0; k < 4; k++) h = mix(h, fbits(w.v[k])); if (ok && seen.insert(h).second) { states(); nf.push_back(w); }
		}
		front.swap(nf); if (front.size() > 100000) front.resize(100000);
	}
	bound("BFS over 20 op instances to depth %d (frontier cap 100000)", depth);
}
template<class V> static void own(const char* name)
{
	if (!begin(name, false)) return; const int L[] = { 1, 2, 3, 4, 6 };
	for (int i = 0; i < 625; i++)
	{
		V s(L[i % 5], L[i / 5 % 5], L[i / 25 % 5], L[i / 125]); next(); states(); trace(); snprintf(what, sizeof what, "(%d,%d,%d,%d)", L[i % 5], L[i / 5 % 5], L[i / 25 % 5], L[i / 125]); out(i);
		for (int e = 0; e < 5; e++) { auto go = [&](auto part) { INSIDE(+=) INSIDE(-=) INSIDE(*=) INSIDE(/=) INSIDE(=) }; if (e == 4) go([](V& v) -> V& { return v; }); else go([e](V& v) -> auto& { return v[e]; }); }
	}
	bound("%s: 625 vectors x every operator with each of their lanes, and with themselves, as the operand", name);
}
// every way the lanes of two operands can coincide: all 256 arrangements of two letters over both
static void coincide()
{
	if (!begin("coinciding lanes", true)) return; auto al = alphabet(); int K = (int)al.size(), R = thorough() ? 12 : 4; u64 no = 0;
	for (int i = 0; i < K; i++) for (int t = 0; t <= R; t++)
	{
		if (!mine(no++)) continue; float p = al[i], q = t == R ? std::nextafterf(p, p > 1 ? 0 : 2) : al[(i * 7 + t * 5 + 3) % K];
		for (int m = 0; m < 256; m++) { next(); states(); trace(); M a, b; for (int k = 0; k < 4; k++) { a.v[k] = m >> k & 1 ? q : p; b.v[k] = m >> (4 + k) & 1 ? q : p; } ops(a, b); }
	}
	bound("all 256 arrangements of two letters over both operands x %d letter pairs (neighbouring floats included), every operator form", K * (R + 1));
}
// lanes of different sizes: all signed permutations
static void uneven()
{
	if (!begin("lanes of different sizes", true)) return; static const double S[][4] = { { 3000.7, 41.3, 1.7, 0.013 }, { 0.0007, 0.02, 0.9997, 5.1 }, { 150.25, 70000.3, 2.5e-5, 1.01 }, { 0.6, 0.8, 0.5, 120 } }; u64 no = 0; std::vector<M> v;
	for (auto& q : S) { int p[4] = { 0, 1, 2, 3 }; do for (int g = 0; g < 16; g += thorough() ? 1 : 1 + (p[0] + p[2]) % 3) { M m; for (int k = 0; k < 4; k++) m.v[k] = (float)(g >> k & 1 ? -q[p[k]] : q[p[k]]); v.push_back(m); } while (std::next_permutation(p, p + 4)); }
	size_t st = thorough() ? 1 : 23; float junk[] = { 0.f, 5.f, NAN, INFINITY, -1e30f };
	for (size_t i = 0; i < v.size(); i++)
	{
		if (!mine(no++)) continue;
		for (size_t j = i % st; j < v.size(); j += st)
		{
			next(); states(); trace(); M a = v[i], b = v[j], c = v[(i * 5 + j * 3) % v.size()]; double d[2] = {}, dm[2] = {}, l[2] = {}, s[2] = {}, dx[4];
			for (int k = 0; k < 4; k++) for (int w = k == 3; w < 2; w++) { double x = a.v[k], y = b.v[k]; dx[k] = x - y; d[w] += x * y; dm[w] += std::fabs(x * y); l[w] += x * x; s[w] += dx[k] * dx[k]; }
			f32x4 A = put(a), B = put(b); M w; eqf("dot4", dot4(A, B), d[1], 4e-7 * dm[1], a, b); eqf("dotV4", dotV4(A, B).getZ(), d[1], 4e-7 * dm[1], a, b); eqf("lengthSq4", lengthSq4(A), l[1], 5e-7 * l[1], a, b); eqf("length4", length4(A), std::sqrt(l[1]), 4e-7 * std::sqrt(l[1]), a, b); eqf("distanceSq4", distanceSq4(A, B), s[1], 1e-6 * s[1], a, b); eqf("distance4", distance4(A, B), std::sqrt(s[1]), 1e-6 * std::sqrt(s[1]), a, b);
			w = get(normalize4(A)); for (int k = 0; k < 4; k++) eqf("normalize4", w.v[k], a.v[k] / std::sqrt(l[1]), 6e-7, a, b); w = get(fma(A, B, put(c))); for (int k = 0; k < 4; k++) eqf("fma", w.v[k], (double)a.v[k] * b.v[k] + c.v[k], 3e-7 * (std::fabs((double)a.v[k] * b.v[k]) + std::fabs(c.v[k])), a, b);
			a.v[3] = junk[(i + j) % 5]; b.v[3] = junk[(i / 5 + 2 * j + 1) % 5]; A = put(a); B = put(b);
			eqf("dot3", dot3(A, B), d[0], 4e-7 * dm[0], a, b); eqf("dotV3", dotV3(A, B).getY(), d[0], 4e-7 * dm[0], a, b); eqf("lengthSq3", lengthSq3(A), l[0], 5e-7 * l[0], a, b); eqf("length3", length3(A), std::sqrt(l[0]), 4e-7 * std::sqrt(l[0]), a, b); eqf("distanceSq3", distanceSq3(A, B), s[0], 1e-6 * s[0], a, b); eqf("distance3", distance3(A, B), std::sqrt(s[0]), 1e-6 * std::sqrt(s[0]), a, b);
			w = get(normalize3(A)); for (int k = 0; k < 3; k++) eqf("normalize3", w.v[k], a.v[k] / std::sqrt(l[0]), 6e-7, a, b); w = get(cross3(A, B)); for (int k = 0; k < 3; k++) { int p = (k + 1) % 3, q = (k + 2) % 3; double x = (double)a.v[p] * b.v[q], y = (double)a.v[q] * b.v[p]; eqf("cross3", w.v[k], x - y, 4e-7 * (std::fabs(x) + std::fabs(y)), a, b); }
		}
	}
	bound("%zu vectors whose lanes differ in size (all permutations, signs in turn) x every %zu-th as the other operand: dot, cross, lengths, distances, normalise, fma", v.size(), st);
}
static void body() { own<f32x4>("f32x4 own lanes"); coincide(); uneven(); pairs(); patterns(); lattice(); units(); fmas(); swizzles(); consts(); machine(); }
}
VX_MAIN(vx::body)
