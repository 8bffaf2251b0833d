// @configs sse2 avx2
// @thorough_configs sse2 avx2 port neon
// @shards 4
// @technique exhaustive enumeration of operand pairs and BFS over op sequences on the real code, against an array-of-scalars model
// @note Complete over all ordered pairs of the boundary alphabet in every component of all nine types; values outside the alphabet and signed-overflow/zero-division inputs (undefined in C++) are excluded.
// V06: scalar vectors float2/3/4, int2/3/4, uint2/3/4 against arrays of C++ scalars.
#include "vx.hpp"
#include "unit.hpp"
#include "alias.hpp"
#include <cassert>
#include <cfloat>
#include <type_traits>
#include <utility>
#include "math/vector/float.hpp"
using namespace math;
namespace vx
{
template<class V> struct T;
#define DEF(V_, s_, N_, U_) template<> struct T<V_> { typedef s_ s; static constexpr int N = N_; typedef U_ U; static constexpr const char* n = #V_; };
DEF(float2, float, 2, uint2) DEF(float3, float, 3, uint3) DEF(float4, float, 4, uint4)
DEF(int2, i32, 2, uint2) DEF(int3, i32, 3, uint3) DEF(int4, i32, 4, uint4)
DEF(uint2, u32, 2, uint2) DEF(uint3, u32, 3, uint3) DEF(uint4, u32, 4, uint4)

static bool sm(float a, float b) { return same(a, b); }
static bool sm(u32 a, u32 b) { return a == b; }
static bool sm(i32 a, i32 b) { return a == b; }
static u64 hsh(float a) { return fbits(a); } static u64 hsh(u32 a) { return a; } static u64 hsh(i32 a) { return (u32)a; }
static std::string st(float a) { char b[40]; snprintf(b, 40, "%.9g", a); return b; } static std::string st(u32 a) { return std::to_string(a); } static std::string st(i32 a) { return std::to_string(a); }
template<class s, int N> struct A { s v[N]; };
template<class s, int N> static std::string str(const A<s, N>& a) { std::string r = "("; for (int k = 0; k < N; k++) r += (k ? "," : "") + st(a.v[k]); return r + ")"; }
template<class V> using AV = A<typename T<V>::s, T<V>::N>;
template<class V> static AV<V> get(const V& v)
{
	AV<V> a; typedef typename T<V>::s s; s* p = a.v; p[0] = v.x; p[1] = v.y;
	if constexpr (T<V>::N > 2) p[2] = v.z;
	if constexpr (T<V>::N > 3) p[3] = v.w;
	return a;
}
template<class V> static V put(const AV<V>& a)
{
	if constexpr (T<V>::N == 2) return V(a.v[0], a.v[1]);
	else if constexpr (T<V>::N == 3) return V(a.v[0], a.v[1], a.v[2]);
	else return V(a.v[0], a.v[1], a.v[2], a.v[3]);
}
template<class s> static std::vector<s> alphabet();
template<> std::vector<float> alphabet<float>()
{
	std::vector<float> a = { 0.f, -0.f, 1.f, -1.f, 0.5f, -0.5f, 2.f, -2.5f, 3.f, 0.1f, 10.f, -100.25f, FLT_MIN, -FLT_MIN, bitsf(1), FLT_EPSILON, 1e-20f, 1e20f, 4321.75f, -65000.5f, 8388609.f, 16777216.f, FLT_MAX, -FLT_MAX, INFINITY, -INFINITY, NAN };
	if (thorough()) for (int e = -30; e <= 30; e += 3) { a.push_back(std::ldexp(1.25f, e)); a.push_back(std::ldexp(-1.75f, e)); a.push_back(std::nextafter(std::ldexp(1.f, e), 0.f)); }
	return a;
}
template<> std::vector<u32> alphabet<u32>()
{
	std::vector<u32> a = { 0, 1, 2, 3, 5, 7, 10, 31, 100, 255, 0x7FFF, 4321, 0x8000, 0xFFFF, 0x10000, 123457, 16777217, 0x12345678, 1000000007, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xAAAAAAAA, 0xFFFE1DC0, 0xFFFF0000, 0xFFFFEF1F, 0xFFFFFF9C, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF };
	if (thorough()) for (int i = 4; i < 32; i++) for (int d = -1; d <= 1; d++) a.push_back((1u << i) + d + 17u * (d + 1));
	return a;
}
template<> std::vector<i32> alphabet<i32>() { std::vector<i32> r; for (u32 v : alphabet<u32>()) r.push_back((i32)v); return r; }

template<class s, int N> static void eq(const char* op, const A<s, N>& got, const A<s, N>& want, const std::string& ctx)
{
	trans(); bool ok = true; u64 h = 0; for (int k = 0; k < N; k++) { ok &= sm(got.v[k], want.v[k]); h = mix(h, hsh(got.v[k])); } out(h);
	if (!ok) fail(op, "%s %s: got %s, want %s", op, ctx.c_str(), str(got).c_str(), str(want).c_str());
}
static void eqb(const char* op, i64 got, i64 want, const std::string& ctx) { trans(); out((u64)got * 31 + 7); if (got != want) fail(op, "%s %s: got %lld, want %lld", op, ctx.c_str(), (long long)got, (long long)want); }
static bool okDiv(float, float) { return true; } static bool okDiv(u32, u32 y) { return y; } static bool okDiv(i32 x, i32 y) { return y && !(x == INT32_MIN && y == -1); }
static bool okOp(char o, i64 x, i64 y) { i64 r = o == '+' ? x + y : o == '-' ? x - y : x * y; return r >= INT32_MIN && r <= INT32_MAX; }
static bool ok3(char, float, float) { return true; } static bool ok3(char, u32, u32) { return true; } static bool ok3(char o, i32 x, i32 y) { return okOp(o, x, y); }

template<class V> static constexpr auto hasEqual(int) -> decltype(equal(std::declval<V>(), std::declval<V>()), notEqual(std::declval<V>(), std::declval<V>()), true) { return true; }
template<class V> static constexpr bool hasEqual(long) { return false; }
template<class U, class V> static auto callEqual(V a, V b) { return get<U>(equal(a, b)); }
template<class U, class V> static auto callNotEqual(V a, V b) { return get<U>(notEqual(a, b)); }
template<class V> static void ops(const AV<V>& a, const AV<V>& b)
{
	typedef typename T<V>::s s; constexpr int N = T<V>::N; typedef typename T<V>::U U; typedef A<s, N> M; typedef A<u32, N> MU;
	std::string ctx = std::string(T<V>::n); if (true) ctx += " a=" + str(a) + " b=" + str(b);
	const V Va = put<V>(a), Vb = put<V>(b); const s n = b.v[0], m = a.v[0];
	#define L(W, expr) [&] { W r_; for (int k = 0; k < N; k++) { s x = a.v[k], y = b.v[k]; (void)x; (void)y; r_.v[k] = (expr); } return r_; }()
	#define LS(W, expr) [&] { W r_; for (int k = 0; k < N; k++) { s x = a.v[k], y = n; (void)x; (void)y; r_.v[k] = (expr); } return r_; }()
	#define SL(W, expr) [&] { W r_; for (int k = 0; k < N; k++) { s x = m, y = b.v[k]; (void)x; (void)y; r_.v[k] = (expr); } return r_; }()
	#define FAM(o, c, expr) { bool vv = true, vs = true, sv = true; for (int k = 0; k < N; k++) { vv &= c(a.v[k], b.v[k]); vs &= c(a.v[k], n); sv &= c(m, b.v[k]); } \
		if (vv) { eq(#o " vv", get(V(Va o Vb)), L(M, expr), ctx); V C = Va; C o##= Vb; eq(#o "= vv", get(C), L(M, expr), ctx); V D = Va; V& R = (D o##= Vb); eqb(#o "= returns *this", &R == &D, 1, ctx); } \
		if (vs) { eq(#o " vs", get(V(Va o n)), LS(M, expr), ctx); V C = Va; C o##= n; eq(#o "= vs", get(C), LS(M, expr), ctx); } \
		if (sv) eq(#o " sv", get(V(m o Vb)), SL(M, expr), ctx); }
	#define OKA(x, y) ok3('+', x, y)
	#define OKS(x, y) ok3('-', x, y)
	#define OKM(x, y) ok3('*', x, y)
	#define OKT(x, y) true
	#define OKH(x, y) ((u32)(y) < 32)
	FAM(+, OKA, x + y) FAM(-, OKS, x - y) FAM(*, OKM, x * y) FAM(/, okDiv, x / y)
	if constexpr (std::is_integral<s>::value)
	{
		FAM(%, okDiv, x % y) FAM(&, OKT, x & y) FAM(|, OKT, x | y) FAM(^, OKT, x ^ y) FAM(>>, OKH, x >> y) FAM(<<, OKH, (s)((u32)x << y))
		eq("~", get(V(~Va)), L(M, ~x), ctx); eq("!", get(V(!Va)), L(M, (s)!x), ctx);
	}
	bool neg = true; for (int k = 0; k < N; k++) neg &= !(std::is_same<s, i32>::value && a.v[k] == (s)INT32_MIN);
	if (neg) eq("unary -", get(V(-Va)), L(M, -x), ctx);
	#define CMP(o) eq(#o " mask vv", get(U(Va o Vb)), L(MU, x o y ? UINT32_MAX : 0), ctx); eq(#o " mask vs", get(U(Va o n)), LS(MU, x o y ? UINT32_MAX : 0), ctx); eq(#o " mask sv", get(U(m o Vb)), SL(MU, x o y ? UINT32_MAX : 0), ctx);
	CMP(<) CMP(>) CMP(<=) CMP(>=)
	bool e = true, es = true; for (int k = 0; k < N; k++) { e &= a.v[k] == b.v[k]; es &= a.v[k] == n; }
	eqb("==", Va == Vb, e, ctx); eqb("!=", Va != Vb, !e, ctx); eqb("== vs", Va == n, es, ctx); eqb("!= vs", Va != n, !es, ctx); eqb("== sv", n == Va, es, ctx); eqb("!= sv", n != Va, !es, ctx);
	if constexpr (hasEqual<V>(0)) { eq("equal", callEqual<U>(Va, Vb), L(MU, x == y ? UINT32_MAX : 0), ctx); eq("notEqual", callNotEqual<U>(Va, Vb), L(MU, x != y ? UINT32_MAX : 0), ctx); }
	else fail("equal(V,V) missing", "%s: equal/notEqual do not accept two vectors of this type", T<V>::n);
	for (int c = 0; c < (1 << N); c++)
	{
		A<u32, N> cm; M w; for (int k = 0; k < N; k++) { cm.v[k] = (c >> k & 1) ? UINT32_MAX : 0; w.v[k] = (c >> k & 1) ? a.v[k] : b.v[k]; }
		eq("select", get(select(put<U>(cm), Va, Vb)), w, ctx);
	}
	bool nan = false; for (int k = 0; k < N; k++) nan |= a.v[k] != a.v[k] || b.v[k] != b.v[k];
	if (!nan)
	{
		eq("min", get(min(Va, Vb)), L(M, x < y ? x : y), ctx); eq("max", get(max(Va, Vb)), L(M, x > y ? x : y), ctx);
		M c; for (int k = 0; k < N; k++) c.v[k] = a.v[(k + 1) % N]; V Vc = put<V>(c);
		eq("min3", get(min(Va, Vb, Vc)), L(M, std::min(std::min(x, y), c.v[k])), ctx); eq("max3", get(max(Va, Vb, Vc)), L(M, std::max(std::max(x, y), c.v[k])), ctx);
		M lo, hi; for (int k = 0; k < N; k++) { s p = b.v[k], q = c.v[k]; lo.v[k] = p < q ? p : q; hi.v[k] = p < q ? q : p; }
		eq("clamp", get(clamp(Va, put<V>(lo), put<V>(hi))), L(M, x < lo.v[k] ? lo.v[k] : x > hi.v[k] ? hi.v[k] : x), ctx);
	}
	if constexpr (std::is_same<s, float>::value) { int sb = 0; bool f = true; for (int k = 0; k < N; k++) { sb |= (std::signbit(a.v[k]) ? 1 : 0) << k; f &= a.v[k] == a.v[k]; } if (f) eqb("signBits", signBits(Va), sb, ctx); }
	// access
	for (int k = 0; k < N; k++) { trans(); if (!sm(Va[k], a.v[k])) fail("[] const", "%s [%d]", ctx.c_str(), k); V C = Va; C[k] = b.v[k]; M w = a; w.v[k] = b.v[k]; eq("[] ref", get(C), w, ctx); }
	{ V C; C = Va; C = n; M w; for (auto& z : w.v) z = n; eq("= n", get(C), w, ctx); eq("splat ctor", get(V(n)), w, ctx); }
	{ std::string t; for (int k = 0; k < N; k++) t += (k ? " " : "") + std::to_string(a.v[k]); eqb("toString", toString(Va) == t, 1, ctx); }
	// isBinaryLess: usable as a strict total order on representations
	{ bool ab = isBinaryLess(Va, Vb), ba = isBinaryLess(Vb, Va), eqr = !memcmp(&Va, &Vb, sizeof(V)); eqb("isBinaryLess total", ab + ba, eqr ? 0 : 1, ctx); eqb("isBinaryLess irreflexive", isBinaryLess(Va, Va), 0, ctx); }
}
template<class V> static void maskq(const AV<V>& a)
{
	constexpr int N = T<V>::N; std::string ctx = std::string(T<V>::n) + " " + str(a); V v = put<V>(a); u32 an = ~0u, o = 0; int t = 0;
	for (int k = 0; k < N; k++) { an &= a.v[k]; o |= a.v[k]; t |= int(a.v[k] >> 31) << k; }
	eqb("getTrues", getTrues(v), t, ctx); eqb("areAllTrue", areAllTrue(v), an == ~0u, ctx); eqb("areAllFalse", areAllFalse(v), o == 0, ctx); eqb("areAnyTrue", areAnyTrue(v), o != 0, ctx); eqb("areAnyFalse", areAnyFalse(v), an != ~0u, ctx);
	for (int c = 0; c < N; c++) { AV<V> f, tt, w; for (int k = 0; k < N; k++) { tt.v[k] = 100 + k; f.v[k] = 200 + k; w.v[k] = a.v[k] >> 31 ? tt.v[k] : f.v[k]; } eq("select(top bit)", get(select(v, put<V>(tt), put<V>(f))), w, ctx); }
}
template<class V> static void pairs()
{
	typedef typename T<V>::s s; constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s pairs", T<V>::n); if (!begin(nm, true)) return;
	auto al = alphabet<s>(); u64 K = al.size(); std::unordered_set<u64> seen;
	for (u64 i = 0; i < K; i++) for (u64 j = 0; j < K; j++)
	{
		if (!mine(i * K + j)) continue;
		for (int l = 0; l <= N; l++)
		{
			next(); AV<V> a, b;
			for (int k = 0; k < N; k++) { a.v[k] = l == N ? al[(i + k) % K] : al[(i * (k + 2) + 5 * k + 7 * l + 2) % K]; b.v[k] = al[(j + 3 * k + 11 * l) % K]; }
			if (l < N) { a.v[l] = al[i]; b.v[l] = al[j]; } else if (std::is_integral<s>::value) for (int k = 0; k < N; k++) b.v[k] = (s)((j * 7 + k * 9) % 31 + 1);
			u64 h = 0; for (int k = 0; k < N; k++) h = mix(mix(h, hsh(a.v[k])), hsh(b.v[k])); if (seen.insert(h).second) states();
			ops<V>(a, b); if constexpr (std::is_same<s, u32>::value) maskq<V>(a); trace();
			if (i == 2 && j == 5) sample("a=%s b=%s, every operator form", str(a).c_str(), str(b).c_str());
		}
	}
	bound("%s: all ordered pairs of %d letters in each component", T<V>::n, (int)K);
}
// integer / dyadic lattice where every operation below is exact
template<class V> static void lattice()
{
	constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s lattice", T<V>::n); if (!begin(nm, true)) return;
	std::vector<int> al = N == 4 && !thorough() ? std::vector<int>{ -3, -1, 0, 2 } : std::vector<int>{ -3, -2, -1, 0, 1, 2, 5 }; int K = (int)al.size(), P = 1; for (int k = 0; k < N; k++) P *= K;
	for (int i = 0; i < P; i++) { if (!mine(i)) continue; for (int j = 0; j < P; j++)
	{
		next(); states(); trace(); A<float, N> a, b, b2; const double SC[] = { 1, 4096, 1 / 16384., 1048576, 1 / 8388608. }; const double sc = (i + j) & 1 ? 1 : SC[(i / 2 + j) % 5], q = sc * sc, s2 = SC[(i + j / 3 + 1) % 5]; int ia = i, ib = j; i64 dot_ = 0, la = 0, ds = 0;
		for (int k = 0; k < N; k++) { int x = al[ia % K], y = al[ib % K]; ia /= K; ib /= K; a.v[k] = (float)(x * sc); b.v[k] = (float)(y * sc); b2.v[k] = (float)(y * s2); dot_ += x * y; la += x * x; ds += (x - y) * (x - y); }
		V Va = put<V>(a), Vb = put<V>(b); trans(6);
		auto chk = [&](const char* n, double got, double want, double tol) { out(fbits((float)got)); if (!(std::fabs(got - want) <= tol)) fail(n, "%s %s a=%s b=%s: got %.9g want %.9g", T<V>::n, n, str(a).c_str(), str(b).c_str(), got, want); };
		const V Vb2 = put<V>(b2); chk("dot", dot(Va, Vb), dot_ * q, 0); chk("dot of sizes", dot(Va, Vb2), dot_ * sc * s2, 0); chk("lengthSq", lengthSq(Va), la * q, 0); chk("distanceSq", distanceSq(Va, Vb), ds * q, 0);
		chk("length", length(Va), std::sqrt((double)la) * sc, 1e-6 * (1 + la) * sc); chk("distance", distance(Va, Vb), std::sqrt((double)ds) * sc, 1e-6 * (1 + ds) * sc);
		chk("isClose default", isClose(Va, Vb), ds * q <= 1e-12, 0); chk("isClose(d)", isClose(Va, Vb, (float)(9 * q)), ds <= 9, 0); chk("isClose(4)", isClose(Va, Vb, 4.0f), ds * q <= 4, 0);
		if (la) { V n = normalize(Va); auto g = get(n); for (int k = 0; k < N; k++) chk("normalize", g.v[k], a.v[k] / (sc * std::sqrt((double)la)), 5e-7); chk("isNormalized(normalize)", isNormalized(n, 2e-6f), 1, 0); }
		chk("isNormalized", isNormalized(Va), la * q == 1, 0);
		if constexpr (N == 3)
		{
			auto c = get(cross(Va, Vb)); double w[3] = { (double)a.v[1] * b.v[2] - (double)a.v[2] * b.v[1], (double)a.v[2] * b.v[0] - (double)a.v[0] * b.v[2], (double)a.v[0] * b.v[1] - (double)a.v[1] * b.v[0] };
			for (int k = 0; k < 3; k++) chk("cross", c.v[k], w[k], 0);
			auto c2 = get(cross(Va, Vb2)); for (int k = 0; k < 3; k++) chk("cross of sizes", c2.v[k], w[k] / sc * s2, 0);
		}
		A<float, N> add; for (int k = 0; k < N; k++) add.v[k] = (float)(a.v[(k + 1) % N] * sc + 0.5 * q); auto f = get(fma(Va, Vb, put<V>(add))); for (int k = 0; k < N; k++) chk("fma", f.v[k], (double)a.v[k] * b.v[k] + add.v[k], 0);
		int sb = 0; for (int k = 0; k < N; k++) sb |= (std::signbit(a.v[k]) ? 1 : 0) << k; chk("signBits", signBits(Va), sb, 0);
		if (j == 0 && i == 5) sample("dot/cross/length of %s and %s", str(a).c_str(), str(b).c_str());
	} }
	bound("%s: all %d^2 pairs of lattice vectors for dot, cross, lengths, normalise, half of them scaled by 2^-23 .. 2^20", T<V>::n, P);
}
// unary elementary functions act per component
template<class V> static void elementary()
{
	constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s elementary", T<V>::n); if (!begin(nm)) return;
	auto al = alphabet<float>(); for (float f : { 0.3f, -0.7f, 0.99f, 4.7f, 1.5f, -20.f, 80.f }) al.push_back(f); int K = (int)al.size();
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++)
	{
		next(); states(); trace(); A<float, N> a, b; for (int k = 0; k < N; k++) { a.v[k] = al[(i + 3 * k) % K]; b.v[k] = al[(j + 5 * k) % K]; } V v = put<V>(a), vb = put<V>(b);
		#define U1(f, ref) { auto g = get(f(v)); for (int k = 0; k < N; k++) { float x = a.v[k], w = (ref); trans(); out(fbits(g.v[k])); if (!(same(g.v[k], w) || std::fabs(g.v[k] - w) <= 1e-6f * std::fabs(w))) fail(#f, "%s %s(%.9g) component %d: got %.9g want %.9g", T<V>::n, #f, x, k, g.v[k], w); } }
		if (j == 0)
		{
			U1(abs, std::fabs(x)) U1(sqrt, std::sqrt(x)) U1(floor, std::floor(x)) U1(ceil, std::ceil(x)) U1(trunc, std::trunc(x)) U1(round, std::round(x))
			U1(exp, std::exp(x)) U1(exp2, std::exp2(x)) U1(expm1, std::expm1(x)) U1(log, std::log(x)) U1(log10, std::log10(x)) U1(log2, std::log2(x)) U1(log1p, std::log1p(x)) U1(cbrt, std::cbrt(x))
			U1(sin, std::sin(x)) U1(cos, std::cos(x)) U1(tan, std::tan(x)) U1(asin, std::asin(x)) U1(acos, std::acos(x)) U1(atan, std::atan(x)) U1(sinh, std::sinh(x)) U1(cosh, std::cosh(x)) U1(tanh, std::tanh(x))
			U1(asinh, std::asinh(x)) U1(acosh, std::acosh(x)) U1(atanh, std::atanh(x))
		}
		{ auto g = get(pow(v, vb)); for (int k = 0; k < N; k++) { float w = std::pow(a.v[k], b.v[k]); trans(); if (!(same(g.v[k], w) || std::fabs(g.v[k] - w) <= 1e-6f * std::fabs(w))) fail("pow", "%s pow(%.9g,%.9g): got %.9g want %.9g", T<V>::n, a.v[k], b.v[k], g.v[k], w); } }
		{ auto g = get(atan(v, vb)); for (int k = 0; k < N; k++) { float w = std::atan2(a.v[k], b.v[k]); trans(); if (!(same(g.v[k], w) || std::fabs(g.v[k] - w) <= 1e-6f * std::fabs(w))) fail("atan2", "%s atan(%.9g,%.9g): got %.9g want %.9g", T<V>::n, a.v[k], b.v[k], g.v[k], w); } }
	}
	bound("%s: componentwise elementary functions on %d letters (pairs for pow, atan2)", T<V>::n, K);
}
template<class V> static void consts()
{
	typedef typename T<V>::s s; constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s constants", T<V>::n); if (!begin(nm)) return;
	auto sp = [&](const char* n, const V& v, s w) { next(); states(); trace(); A<s, N> m; for (auto& z : m.v) z = w; eq(n, get(v), m, T<V>::n); };
	auto ax = [&](const char* n, const V& v, int k, s w) { next(); states(); trace(); A<s, N> m; for (auto& z : m.v) z = 0; m.v[k] = w; eq(n, get(v), m, T<V>::n); };
	sp("zero", V::zero, 0); sp("one", V::one, 1); sp("default ctor", V(), 0);
	if constexpr (std::is_signed<s>::value)
	{
		sp("minusOne", V::minusOne, -1);
		if constexpr (N <= 3) { ax("left", V::left, 0, -1); ax("right", V::right, 0, 1); ax("bottom", V::bottom, 1, -1); ax("top", V::top, 1, 1); }
		if constexpr (N == 3) { ax("back", V::back, 2, -1); ax("front", V::front, 2, 1); }
	}
	if constexpr (std::is_same<s, float>::value)
	{
		sp("min", V::min, FLT_MIN); sp("minusMin", V::minusMin, -FLT_MIN); sp("max", V::max, FLT_MAX); sp("minusMax", V::minusMax, -FLT_MAX); sp("epsilon", V::epsilon, FLT_EPSILON); sp("inf", V::inf, INFINITY); sp("minusInf", V::minusInf, -INFINITY); sp("nan", V::nan, NAN);
	}
}
// all mask arrangements
template<class U> static void masks()
{
	constexpr int N = T<U>::N; char nm[64]; snprintf(nm, 64, "%s masks", T<U>::n); if (!begin(nm)) return;
	u32 al[] = { 0, 1, ~0u, 0x80000000u, 0x7FFFFFFFu, 0x80808080u }; int P = 1; for (int k = 0; k < N; k++) P *= 6;
	for (int i = 0; i < P; i++) { next(); states(); trace(); AV<U> a; int x = i; for (int k = 0; k < N; k++) { a.v[k] = al[x % 6]; x /= 6; } maskq<U>(a); }
	bound("%s: all %d arrangements of mask letters", T<U>::n, P);
}
// transitivity of isBinaryLess over all triples of a value set
template<class V> static void order()
{
	typedef typename T<V>::s s; constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s binary order", T<V>::n); if (!begin(nm)) return;
	std::vector<V> vs; s al[] = { (s)0, (s)1, (s)-1, (s)256 }; int P = 1; for (int k = 0; k < N; k++) P *= 4; for (int i = 0; i < P; i += (N == 4 ? 5 : 1)) { AV<V> a; int x = i; for (int k = 0; k < N; k++) { a.v[k] = al[x % 4]; x /= 4; } vs.push_back(put<V>(a)); }
	int K = (int)vs.size(); std::vector<char> lt(K * K); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { lt[i * K + j] = isBinaryLess(vs[i], vs[j]); trans(); }
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (int k = 0; k < K; k++) { next(); trace(); if (lt[i * K + j] && lt[j * K + k] && !lt[i * K + k]) fail("isBinaryLess transitive", "%s elements %d %d %d", T<V>::n, i, j, k); }
	states(K);
}
// op sequences: compound operators chained from several seeds, model stepped alongside
template<class V> static void machine()
{
	typedef typename T<V>::s s; constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s op sequences", T<V>::n); if (!begin(nm)) return;
	typedef A<s, N> M; M seed, arg[2]; for (int k = 0; k < N; k++) { seed.v[k] = (s)(k + 1); arg[0].v[k] = (s)(k * 2 + 1); arg[1].v[k] = (s)(7 - k); }
	std::unordered_set<u64> seen; std::vector<M> front{ seed }; int depth = thorough() ? 7 : 5;
	for (int d = 0; d < depth; d++)
	{
		std::vector<M> nf;
		for (auto& a : front) for (auto& b : arg) for (int op = 0; op < 9; op++)
		{
			next(); M w; V C = put<V>(a), Vb = put<V>(b); bool ok = true; s n = b.v[N - 1];
			switch (op)
			{
			#define STEP(c, stmt, expr, cond) case c: for (int k = 0; k < N; k++) { s x = a.v[k], y = b.v[k]; (void)y; ok &= (cond); if (ok) w.v[k] = (expr); } if (ok) { stmt; } break;
			STEP(0, C += Vb, x + y, OKA(x, y)) STEP(1, C -= Vb, x - y, OKS(x, y)) STEP(2, C *= Vb, x * y, OKM(x, y)) STEP(3, C /= Vb, x / y, okDiv(x, y))
			STEP(4, C += n, x + n, OKA(x, n)) STEP(5, C -= n, x - n, OKS(x, n)) STEP(6, C *= n, x * n, OKM(x, n)) STEP(7, C /= n, x / n, okDiv(x, n)) STEP(8, C = max(C, Vb) - min(C, Vb), (x < y ? y : x) - (x < y ? x : y), OKS(x < y ? y : x, x < y ? x : y))
			}
			if (!ok) continue;
			eq("sequence step", get(C), w, std::string(T<V>::n) + " from " + str(a)); trace();
			u64 h = 0; for (int k = 0; k < N; k++) h = mix(h, hsh(w.v[k])); if (seen.insert(h).second) { states(); nf.push_back(w); }
		}
		front.swap(nf); if (front.size() > 60000) front.resize(60000);
	}
	bound("%s: BFS of 18 compound operations to depth %d (frontier capped at 60000)", T<V>::n, depth);
}
// every way the components of two operands can coincide: all 2^(2N) arrangements of two letters over both
template<class V> static void coincide()
{
	typedef typename T<V>::s s; constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s coinciding components", T<V>::n); if (!begin(nm, true)) return; auto al = alphabet<s>(); int K = (int)al.size(), R = thorough() ? 12 : N == 4 ? 3 : 6; u64 no = 0;
	for (int i = 0; i < K; i++) for (int t = 0; t <= R; t++)
	{
		if (!mine(no++)) continue; s p = al[i], q = al[(i * 7 + t * 5 + 3) % K]; if (t == R) { if constexpr (std::is_same<s, float>::value) q = std::nextafterf(p, p > 1 ? 0 : 2); else q = (s)((u32)p ^ 1u << (i * 5 + N) % 32); }
		for (int m = 0; m < 1 << 2 * N; m++) { next(); states(); trace(); AV<V> a, b; for (int k = 0; k < N; k++) { a.v[k] = m >> k & 1 ? q : p; b.v[k] = m >> (N + k) & 1 ? q : p; } ops<V>(a, b); }
	}
	bound("%s coinciding components: all %d arrangements of two letters over both operands x %d letter pairs (neighbouring values and single flipped bits included), every operator form", T<V>::n, 1 << 2 * N, K * (R + 1));
}
template<class V> static void all() { pairs<V>(); consts<V>(); order<V>(); machine<V>(); coincide<V>(); }
template<class V> static void unit()
{
	constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s near unit length", T<V>::n); if (!begin(nm)) return; auto mk = [](const float* v) { AV<V> a; for (int k = 0; k < N; k++) a.v[k] = v[k]; return put<V>(a); };
	UnitFns f; f.length = [&](const float* v) { return (double)length(mk(v)); }; f.lengthSq = [&](const float* v) { return (double)lengthSq(mk(v)); }; f.normalize = [&](const float* v, float* o) { AV<V> r = get(normalize(mk(v))); for (int k = 0; k < N; k++) o[k] = r.v[k]; };
	f.isUnit = [&](const float* v, float t) { return isNormalized(mk(v), t); }; f.isUnitDefault = [&](const float* v) { return isNormalized(mk(v)); }; unitLadder(T<V>::n, N, f, 0);
}
// divisions next to their exact quotients, where a division done through a reciprocal or a float goes wrong
template<class V> static void quotients()
{
	typedef typename T<V>::s s; constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s quotients", T<V>::n); if (!begin(nm, true)) return; u64 no = 0; const bool sg = std::is_signed<s>::value; const i64 top = sg ? INT32_MAX : (i64)UINT32_MAX;
	std::vector<i64> D; for (i64 d = 1; d <= (thorough() ? 4096 : 300); d++) D.push_back(d); for (i64 d : { 1000, 1023, 4095, 4096, 4097, 10007, 44100, 65535, 65536, 65537, 1000003, 16777215, 16777217, 715827883, 1431655765, 2147483647 }) D.push_back(d); if (!sg) for (i64 d : { 2147483648ll, 2863311531ll, 4294967295ll }) D.push_back(d);
	for (i64 d : D) { if (!mine(no++)) continue; for (i64 q : { (i64)0, (i64)1, (i64)2, (i64)3, (i64)5, (i64)7, (i64)10, (i64)41, (i64)47, (i64)55, (i64)61, (i64)100, (i64)255, (i64)1000, (i64)4097, (i64)65535, (i64)1000000, (i64)16777217, top / d, top / d - 1 }) for (int g = 0; g < (sg ? 4 : 1); g++)
	{
		AV<V> a, b; bool ok = true; next(); for (int k = 0; k < N; k++) { i64 x = q * d + (k == 0 ? -1 : k == 1 ? 0 : k == 2 ? 1 : d / 2); if (x < 0 || x > top) x = q * d; ok &= x >= 0 && x <= top; a.v[k] = (s)(g & 1 ? -x : x); b.v[k] = (s)(g & 2 ? -d : d); } if (!ok) continue; states(); trace();
		const V A = put<V>(a), B = put<V>(b); s n = b.v[0]; std::string ctx = str(a) + " by " + str(b); AV<V> wq, wr, sq, sr; for (int k = 0; k < N; k++) { wq.v[k] = a.v[k] / b.v[k]; wr.v[k] = a.v[k] % b.v[k]; sq.v[k] = a.v[1] / b.v[k]; sr.v[k] = a.v[1] % b.v[k]; }
		auto c = [&](const char* op, const V& v, const AV<V>& w) { eq(op, get(v), w, ctx); }; c("/", A / B, wq); c("%", A % B, wr); c("/ n", A / n, wq); c("% n", A % n, wr); c("n /", a.v[1] / B, sq); c("n %", a.v[1] % B, sr); V C = A; C /= B; c("/=", C, wq); C = A; C %= B; c("%=", C, wr); C = A; C /= n; c("/= n", C, wq); C = A; C %= n; c("%= n", C, wr);
	} }
	bound("%s quotients: %zu divisors x 20 quotients, just below, at and just above the exact multiple and half a divisor on, all signs", T<V>::n, D.size());
}
template<class V> static void own()
{
	constexpr int N = T<V>::N; typedef typename T<V>::s s_; static std::string gn = std::string(T<V>::n) + " own parts"; if (!begin(gn.c_str(), false)) return; const int L[] = { 1, 2, 3, 4, 6 }; u64 c = 1; for (int k = 0; k < N; k++) c *= 5;
	for (u64 i = 0; i < c; i++)
	{
		AV<V> a; u64 r = i; for (int k = 0; k < N; k++, r /= 5) a.v[k] = (s_)L[r % 5]; V s = put<V>(a); next(); states(); trace(); snprintf(what, sizeof what, "%s %s", T<V>::n, str(a).c_str()); u64 h = 1; for (auto q : a.v) h = mix(h, hsh(q)); out(h);
		for (int e = 0; e <= N; e++)
		{
			auto go = [&](auto part) { INSIDE(+=) INSIDE(-=) INSIDE(*=) INSIDE(/=) INSIDE(=) if constexpr (!std::is_same<s_, float>::value) { INSIDE(%=) INSIDE(&=) INSIDE(|=) INSIDE(^=) if constexpr (std::is_same<s_, u32>::value || N) { INSIDE(<<=) INSIDE(>>=) } } };
			if (e == N) go([](V& v) -> V& { return v; }); else go([e](V& v) -> s_& { return v[e]; });
		}
	}
	bound("%s own parts: %llu vectors x every operator with each of its elements, and with itself, as the operand", T<V>::n, (unsigned long long)c);
}
// components of different sizes: all signed permutations
template<class V> static void uneven()
{
	constexpr int N = T<V>::N; char nm[64]; snprintf(nm, 64, "%s components of different sizes", T<V>::n); if (!begin(nm, true)) return; static const double S[][4] = { { 3000.7, 41.3, 1.7, 0.013 }, { 0.0007, 0.02, 0.9997, 5.1 }, { 150.25, 70000.3, 2.5e-5, 1.01 }, { 0.6, 0.8, 0.5, 120 } }; u64 no = 0; std::vector<AV<V>> v;
	for (auto& q : S) { int p[4] = { 0, 1, 2, 3 }; do for (int g = 0; g < 1 << N; g++) { AV<V> m; for (int k = 0; k < N; k++) m.v[k] = (float)(g >> k & 1 ? -q[p[k]] : q[p[k]]); v.push_back(m); } while (std::next_permutation(p, p + 4)); }
	size_t st = thorough() ? 3 : 37;
	for (size_t i = 0; i < v.size(); i++)
	{
		if (!mine(no++)) continue;
		for (size_t j = i % st; j < v.size(); j += st)
		{
			next(); states(); trace(); trans(8); auto a = v[i], b = v[j], c = v[(i * 5 + j * 3) % v.size()]; double d = 0, dm = 0, l = 0, s = 0; V A = put<V>(a), B = put<V>(b);
			for (int k = 0; k < N; k++) { double x = a.v[k], y = b.v[k]; d += x * y; dm += std::fabs(x * y); l += x * x; s += (x - y) * (x - y); }
			auto chk = [&](const char* n, double got, double want, double tol) { out(fbits((float)got)); if (!(std::fabs(got - want) <= tol)) fail(n, "%s %s a=%s b=%s: got %.9g want %.9g", T<V>::n, n, str(a).c_str(), str(b).c_str(), got, want); };
			chk("dot", dot(A, B), d, 4e-7 * dm); chk("lengthSq", lengthSq(A), l, 5e-7 * l); chk("length", length(A), std::sqrt(l), 4e-7 * std::sqrt(l)); chk("distanceSq", distanceSq(A, B), s, 1e-6 * s); chk("distance", distance(A, B), std::sqrt(s), 1e-6 * std::sqrt(s));
			auto w = get(normalize(A)); for (int k = 0; k < N; k++) chk("normalize", w.v[k], a.v[k] / std::sqrt(l), 6e-7); w = get(fma(A, B, put<V>(c))); for (int k = 0; k < N; k++) chk("fma", w.v[k], (double)a.v[k] * b.v[k] + c.v[k], 3e-7 * (std::fabs((double)a.v[k] * b.v[k]) + std::fabs(c.v[k])));
			if constexpr (N == 3) { w = get(cross(A, B)); for (int k = 0; k < 3; k++) { int p = (k + 1) % 3, q = (k + 2) % 3; double x = (double)a.v[p] * b.v[q], y = (double)a.v[q] * b.v[p]; chk("cross", w.v[k], x - y, 4e-7 * (std::fabs(x) + std::fabs(y))); } }
		}
	}
	bound("%s: %zu vectors whose components differ in size x every %zu-th as the other operand: dot, cross, lengths, distances, normalise, fma", T<V>::n, v.size(), st);
}
static void body()
{
	uneven<float2>(); uneven<float3>(); uneven<float4>();
	own<float2>(); own<float3>(); own<float4>(); own<int2>(); own<int3>(); own<int4>(); own<uint2>(); own<uint3>(); own<uint4>();
	quotients<int2>(); quotients<int3>(); quotients<int4>(); quotients<uint2>(); quotients<uint3>(); quotients<uint4>();
	unit<float2>(); unit<float3>(); unit<float4>();
	all<float2>(); all<float3>(); all<float4>(); all<int2>(); all<int3>(); all<int4>(); all<uint2>(); all<uint3>(); all<uint4>();
	lattice<float2>(); lattice<float3>(); lattice<float4>(); elementary<float2>(); elementary<float3>(); elementary<float4>(); masks<uint2>(); masks<uint3>(); masks<uint4>();
}
}
VX_MAIN(vx::body)
