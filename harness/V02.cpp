// @configs sse2 sse41 avx2 port neon
// @technique explicit-state exploration of op sequences and exhaustive operand enumeration on the real code, against an exact lane model
// @note Complete within the listed operand alphabets (all ordered pairs per lane) and BFS depth, in three x86 builds, the portable code and the NEON code over a stand-in for its intrinsics; says nothing about operand values outside the alphabet. Trusts g++ and the lane model.
// @shards 2
// V02: four-lane integer vectors against a reference machine of four exact 32-bit integers.
#include "vx.hpp"
#include "alias.hpp"
#include <cassert>
#include "math/simd/vector/float.hpp"
using math::u32x4; using math::i32x4; using math::uint4; using math::int4;

namespace vx
{
static std::vector<u32> alphabet()
{
	std::vector<u32> a = { 0, 1, 2, 3, 5, 7, 10, 31, 32, 100, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 4321, 65000, 123457, 0xFF00FF, 16777217, 0x12345678, 1000000007, 0x55555555, 0x80808080, 0xFFFE1DC0, 0xFFFFEF1F, 0xFFFFFF80,
		0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xAAAAAAAA, 0xDEADBEEF, 0xFFFF0000, 0xFFFFFF9C, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF };
	if (thorough()) for (int i = 0; i < 32; i++) for (int d = -1; d <= 1; d++) { a.push_back((1u << i) + d); a.push_back(~(1u << i) + d); }
	std::set<u32> s; std::vector<u32> r; for (u32 v : a) if (s.insert(v).second) r.push_back(v);
	return r;
}
struct M { u32 v[4]; };
static std::string str(const M& m) { char b[80]; snprintf(b, 80, "(%u,%u,%u,%u)", m.v[0], m.v[1], m.v[2], m.v[3]); return b; }
template<class V> static M get(V v) { M m; alignas(16) u32 t[4]; memcpy(t, &v, 16); memcpy(m.v, t, 16); return m; }
template<class V> static V put(const M& m);
template<> u32x4 put<u32x4>(const M& m) { return u32x4(m.v[0], m.v[1], m.v[2], m.v[3]); }
template<> i32x4 put<i32x4>(const M& m) { return i32x4((i32)m.v[0], (i32)m.v[1], (i32)m.v[2], (i32)m.v[3]); }

template<class V> struct T;
template<> struct T<u32x4> { typedef u32 s; typedef i64 w; static constexpr const char* n = "u32x4"; };
template<> struct T<i32x4> { typedef i32 s; typedef i64 w; static constexpr const char* n = "i32x4"; };

static void eq(const char* op, const M& got, const M& want, const M& a, const M& b)
{
	trans(); out(mix(mix(got.v[0], got.v[1]), mix(got.v[2], got.v[3])));
	if (memcmp(&got, &want, 16)) fail(op, "%s a=%s b=%s: got %s, exact lanes %s", op, str(a).c_str(), str(b).c_str(), str(got).c_str(), str(want).c_str());
}
static void eqs(const char* op, i64 got, i64 want, const M& a, const M& b)
{
	trans(); out((u64)got);
	if (got != want) fail(op, "%s a=%s b=%s: got %lld, want %lld", op, str(a).c_str(), str(b).c_str(), (long long)got, (long long)want);
}
#define LANES(expr) [&] { M r_; for (int k = 0; k < 4; k++) { s x = (s)a.v[k], y = (s)b.v[k]; (void)x; (void)y; r_.v[k] = (u32)(expr); } return r_; }()
#define BIN(name, impl, expr) { snprintf(what, sizeof what, "%s", name); V A = put<V>(a), Bv = put<V>(b); (void)Bv; eq(name, get(impl), LANES(expr), a, b); }
// op, compound op, scalar op, op scalar, compound scalar
#define FAM(o, expr) \
	BIN(#o " vv", A o Bv, expr) { V A = put<V>(a); A o##= put<V>(b); eq(#o "= vv", get(A), LANES(expr), a, b); }
#define FAMS(o, expr) \
	{ s n = (s)b.v[0]; V A = put<V>(a); eq(#o " vs", get(A o n), [&]{ M r; for (int k=0;k<4;k++){ s x=(s)a.v[k], y=n; r.v[k]=(u32)(expr);} return r; }(), a, b); } \
	{ s n = (s)b.v[0]; V A = put<V>(a); A o##= n; eq(#o "= vs", get(A), [&]{ M r; for (int k=0;k<4;k++){ s x=(s)a.v[k], y=n; r.v[k]=(u32)(expr);} return r; }(), a, b); } \
	{ s n = (s)a.v[0]; V B = put<V>(b); eq(#o " sv", get(n o B), [&]{ M r; for (int k=0;k<4;k++){ s x=n, y=(s)b.v[k]; r.v[k]=(u32)(expr);} return r; }(), a, b); }

template<class s> static bool divOk(s x, s y) { return y != 0 && !(std::is_signed<s>::value && x == (s)0x80000000u && y == (s)-1); }
template<class s> static bool mulOk(s x, s y) { i64 p = (i64)x * (i64)y; return !std::is_signed<s>::value || (p >= INT32_MIN && p <= INT32_MAX); }

template<class V> static void ops(const M& a, const M& b)
{
	typedef typename T<V>::s s;
	FAM(+, (u32)x + (u32)y) FAMS(+, (u32)x + (u32)y)
	FAM(-, (u32)x - (u32)y) FAMS(-, (u32)x - (u32)y)
	FAM(&, (u32)x & (u32)y) FAMS(&, (u32)x & (u32)y)
	FAM(|, (u32)x | (u32)y) FAMS(|, (u32)x | (u32)y)
	FAM(^, (u32)x ^ (u32)y) FAMS(^, (u32)x ^ (u32)y)
	bool dv = true, ds = true, dn = true, mv = true, ms = true, mn = true, sv = true;
	for (int k = 0; k < 4; k++)
	{
		dv &= divOk((s)a.v[k], (s)b.v[k]); ds &= divOk((s)a.v[k], (s)b.v[0]); dn &= divOk((s)a.v[0], (s)b.v[k]);
		mv &= mulOk((s)a.v[k], (s)b.v[k]); ms &= mulOk((s)a.v[k], (s)b.v[0]); mn &= mulOk((s)a.v[0], (s)b.v[k]);
		sv &= b.v[k] < 32;
	}
	if (mv) { FAM(*, (u32)x * (u32)y) }
	if (ms && mn) { FAMS(*, (u32)x * (u32)y) }
	if (dv) { FAM(/, x / y) FAM(%, x % y) }
	if (ds && dn) { FAMS(/, x / y) FAMS(%, x % y) }
	if (sv) { FAM(<<, (u32)x << y) FAM(>>, x >> y) { FAMS(<<, (u32)x << y) FAMS(>>, x >> y) } }
	// comparisons: masks and whole-vector equality
	#define CMP(o) { V A = put<V>(a), B = put<V>(b); eq(#o " mask vv", get(A o B), LANES(x o y ? UINT32_MAX : 0), a, b); \
		s n = (s)b.v[0]; eq(#o " mask vs", get(A o n), [&]{ M r; for (int k=0;k<4;k++) r.v[k] = ((s)a.v[k] o n) ? UINT32_MAX : 0; return r; }(), a, b); \
		s m = (s)a.v[0]; eq(#o " mask sv", get(m o B), [&]{ M r; for (int k=0;k<4;k++) r.v[k] = (m o (s)b.v[k]) ? UINT32_MAX : 0; return r; }(), a, b); }
	CMP(<) CMP(>) CMP(<=) CMP(>=)
	{
		V A = put<V>(a), B = put<V>(b); bool e = !memcmp(&a, &b, 16); s n = (s)b.v[0]; M nb = { { (u32)n, (u32)n, (u32)n, (u32)n } }; bool en = !memcmp(&a, &nb, 16);
		eqs("==", A == B, e, a, b); eqs("!=", A != B, !e, a, b); eqs("== vs", A == n, en, a, b); eqs("!= vs", A != n, !en, a, b);
		eqs("== sv", n == A, en, a, b); eqs("!= sv", n != A, !en, a, b);
		eq("equal", get(equal(A, B)), LANES(x == y ? UINT32_MAX : 0), a, b); eq("notEqual", get(notEqual(A, B)), LANES(x != y ? UINT32_MAX : 0), a, b);
		eqs("isBinaryLess", isBinaryLess(A, B), memcmp(&a, &b, 16) < 0, a, b);
	}
	BIN("min", min(A, Bv), x < y ? x : y) BIN("max", max(A, Bv), x > y ? x : y) BIN("bic", bic(A, Bv), x & ~y)
	BIN("not", ~A, ~x) BIN("lnot", !A, !x)
	// select: control lane's top bit decides; a as true, b as false, all 16 masks, non-canonical control bits as well
	for (int m = 0; m < 16; m++)
	{
		M c, w; for (int k = 0; k < 4; k++) { c.v[k] = (m >> k & 1) ? (0x80000000u | a.v[k]) : (b.v[k] & 0x7FFFFFFFu); w.v[k] = (m >> k & 1) ? a.v[k] : b.v[k]; }
		eq("select", get(select(put<u32x4>(c), put<V>(a), put<V>(b))), w, a, b);
	}
	// lane reductions
	{
		V A = put<V>(a); s mi = (s)a.v[0], ma = mi;
		for (int k = 1; k < 3; k++) { s x = (s)a.v[k]; if (x < mi) mi = x; if (x > ma) ma = x; }
		eqs("min3", min3(A), mi, a, b); eqs("max3", max3(A), ma, a, b);
		s x = (s)a.v[3]; if (x < mi) mi = x; if (x > ma) ma = x;
		eqs("min4", min4(A), mi, a, b); eqs("max4", max4(A), ma, a, b); eqs("min(v)", min(A), mi, a, b); eqs("max(v)", max(A), ma, a, b);
	}
	// clamp of a between sorted (b rotated, b)
	{
		M lo, hi; for (int k = 0; k < 4; k++) { s p = (s)b.v[k], q = (s)b.v[(k + 1) & 3]; lo.v[k] = (u32)(p < q ? p : q); hi.v[k] = (u32)(p < q ? q : p); }
		M w; for (int k = 0; k < 4; k++) { s v = (s)a.v[k], l = (s)lo.v[k], h = (s)hi.v[k]; w.v[k] = (u32)(v < l ? l : v > h ? h : v); }
		eq("clamp", get(clamp(put<V>(a), put<V>(lo), put<V>(hi))), w, a, b);
	}
	// construction, access, stores
	{
		V A = put<V>(a); s n = (s)b.v[0];
		for (int k = 0; k < 4; k++) { eqs("[] const", ((const V&)A)[k], (s)a.v[k], a, b); V C = A; C[k] = n; M w = a; w.v[k] = (u32)n; eq("[] ref", get(C), w, a, b); }
		eqs("getX", A.getX(), (s)a.v[0], a, b); eqs("getY", A.getY(), (s)a.v[1], a, b); eqs("getZ", A.getZ(), (s)a.v[2], a, b); eqs("getW", A.getW(), (s)a.v[3], a, b);
		{ V C = A; C.setX(n); M w = a; w.v[0] = (u32)n; eq("setX", get(C), w, a, b); } { V C = A; C.setY(n); M w = a; w.v[1] = (u32)n; eq("setY", get(C), w, a, b); }
		{ V C = A; C.setZ(n); M w = a; w.v[2] = (u32)n; eq("setZ", get(C), w, a, b); } { V C = A; C.setW(n); M w = a; w.v[3] = (u32)n; eq("setW", get(C), w, a, b); }
		{ V C = A; C.fixW(); M w = a; w.v[3] = a.v[2]; eq("fixW", get(C), w, a, b); }
		{ M w = a; w.v[3] = (u32)n; eq("ctor(xyz,w)", get(V(A, n)), w, a, b); }
		{ M w = { { (u32)n, (u32)n, (u32)n, (u32)n } }; eq("ctor(splat)", get(V(n)), w, a, b); V C; C = n; eq("=n", get(C), w, a, b); }
		eq("splatX", get(A.splatX()), M{ { a.v[0], a.v[0], a.v[0], a.v[0] } }, a, b); eq("splatY", get(A.splatY()), M{ { a.v[1], a.v[1], a.v[1], a.v[1] } }, a, b);
		eq("splatZ", get(A.splatZ()), M{ { a.v[2], a.v[2], a.v[2], a.v[2] } }, a, b); eq("splatW", get(A.splatW()), M{ { a.v[3], a.v[3], a.v[3], a.v[3] } }, a, b);
		alignas(16) s buf[12]; for (int o = 0; o < 4; o++) { for (auto& z : buf) z = (s)0x5A5A5A5A; A.store(buf + 4 + (o & 3)); bool ok = true;
			for (int i = 0; i < 12; i++) { s w = (i >= 4 + o && i < 8 + o) ? (s)a.v[i - 4 - o] : (s)0x5A5A5A5A; ok &= buf[i] == w; } eqs("store", ok, 1, a, b);
			eq("ctor(ptr)", get(V(buf + 4 + o)), a, a, b); }
		for (auto& z : buf) z = (s)0x5A5A5A5A; A.storeAligned(buf + 4); bool ok = true; for (int i = 0; i < 12; i++) ok &= buf[i] == ((i >= 4 && i < 8) ? (s)a.v[i - 4] : (s)0x5A5A5A5A); eqs("storeAligned", ok, 1, a, b);
		V L; L.loadAligned(buf + 4); eq("loadAligned", get(L), a, a, b);
		eqs("toString", toString(A) == std::to_string((s)a.v[0]) + " " + std::to_string((s)a.v[1]) + " " + std::to_string((s)a.v[2]) + " " + std::to_string((s)a.v[3]), 1, a, b);
	}
}
static void maskQueries(const M& a)
{
	u32x4 A = put<u32x4>(a); M z{};
	u32 an = a.v[0] & a.v[1] & a.v[2] & a.v[3], o = a.v[0] | a.v[1] | a.v[2] | a.v[3];
	int t = 0; for (int k = 0; k < 4; k++) t |= int(a.v[k] >> 31) << k;
	eqs("getTrues", getTrues(A), t, a, z); eqs("areAllTrue", areAllTrue(A), an == UINT32_MAX, a, z); eqs("areAllFalse", areAllFalse(A), o == 0, a, z);
	eqs("areAnyTrue", areAnyTrue(A), o != 0, a, z); eqs("areAnyFalse", areAnyFalse(A), an != UINT32_MAX, a, z);
}
static void negate(const M& a)
{
	M w, z{}; for (int k = 0; k < 4; k++) w.v[k] = 0u - a.v[k];
	eq("unary -", get(-put<i32x4>(a)), w, a, z);
}
template<class V> static void conv(const M& a);
template<> void conv<u32x4>(const M& a)
{
	M z{}; u32x4 A = put<u32x4>(a);
	eq("i32x4(u32x4)", get(i32x4(A)), a, a, z); eq("uintAsInt", get(uintAsInt(A)), a, a, z);
	eqs("(uint4)", (uint4)A == uint4(a.v[0], a.v[1], a.v[2], a.v[3]), 1, a, z); eqs("(uint3)", (math::uint3)A == math::uint3(a.v[0], a.v[1], a.v[2]), 1, a, z);
	eqs("(uint2)", (math::uint2)A == math::uint2(a.v[0], a.v[1]), 1, a, z); eqs("(uint32)", (u32)A, a.v[0], a, z);
	eq("u32x4(uint4)", get(u32x4(uint4(a.v[0], a.v[1], a.v[2], a.v[3]))), a, a, z);
	M g3 = get(u32x4(math::uint3(a.v[0], a.v[1], a.v[2]))); g3.v[3] = a.v[3]; eq("u32x4(uint3).xyz", g3, a, a, z);
	M c3 = get(u32x4(a.v[0], a.v[1], a.v[2])); c3.v[3] = a.v[3]; eq("u32x4(x,y,z).xyz", c3, a, a, z);
	M g2 = get(u32x4(math::uint2(a.v[0], a.v[1]))); g2.v[2] = a.v[2]; g2.v[3] = a.v[3]; eq("u32x4(uint2).xy", g2, a, a, z);
	eq("u32x4()", get(u32x4()), z, a, z); eq("zero", get(u32x4::zero), z, a, z); eq("one", get(u32x4::one), M{ { 1, 1, 1, 1 } }, a, z); eq("max", get(u32x4::max), M{ { ~0u, ~0u, ~0u, ~0u } }, a, z);
}
template<> void conv<i32x4>(const M& a)
{
	M z{}; i32x4 A = put<i32x4>(a); int4 s((i32)a.v[0], (i32)a.v[1], (i32)a.v[2], (i32)a.v[3]);
	eq("(u32x4)i32x4", get((u32x4)A), a, a, z);
	eqs("(int4)", (int4)A == s, 1, a, z); eqs("(int3)", (math::int3)A == math::int3(s.x, s.y, s.z), 1, a, z); eqs("(int2)", (math::int2)A == math::int2(s.x, s.y), 1, a, z); eqs("(int32)", (i32)A, s.x, a, z);
	eq("i32x4(int4)", get(i32x4(s)), a, a, z);
	M g3 = get(i32x4(math::int3(s.x, s.y, s.z))); g3.v[3] = a.v[3]; eq("i32x4(int3).xyz", g3, a, a, z);
	M c3 = get(i32x4(s.x, s.y, s.z)); c3.v[3] = a.v[3]; eq("i32x4(x,y,z).xyz", c3, a, a, z);
	M g2 = get(i32x4(math::int2(s.x, s.y))); g2.v[2] = a.v[2]; g2.v[3] = a.v[3]; eq("i32x4(int2).xy", g2, a, a, z);
	eq("i32x4()", get(i32x4()), z, a, z); eq("zero", get(i32x4::zero), z, a, z); eq("one", get(i32x4::one), M{ { 1, 1, 1, 1 } }, a, z); eq("minusOne", get(i32x4::minusOne), M{ { ~0u, ~0u, ~0u, ~0u } }, a, z);
	eq("max", get(i32x4::max), M{ { 0x7FFFFFFFu, 0x7FFFFFFFu, 0x7FFFFFFFu, 0x7FFFFFFFu } }, a, z); eq("min", get(i32x4::min), M{ { 0x80000000u, 0x80000000u, 0x80000000u, 0x80000000u } }, a, z);
}
// every ordered pair in every lane, the other lanes filled with other (deterministic) letters
template<class V> static void pairs()
{
	char n[64]; snprintf(n, 64, "%s pairs", T<V>::n); if (!begin(n, true)) return;
	auto al = alphabet(); u32 N = (u32)al.size(); std::unordered_set<u64> st;
	for (u32 i = 0; i < N; i++) for (u32 j = 0; j < N; j++)
	{
		if (!mine(i * N + j)) continue;
		for (int l = 0; l < 4; l++)
		{
			next(); M a, b;
			for (int k = 0; k < 4; k++) { a.v[k] = al[(i + 5 * k + 7 * l) % N]; b.v[k] = al[(j + 3 * k + 11 * l) % N]; }
			a.v[l] = al[i]; b.v[l] = al[j];
			if (st.insert(mix(mix(mix(a.v[0], a.v[1]), mix(a.v[2], a.v[3])), mix(mix(b.v[0], b.v[1]), mix(b.v[2], b.v[3])))).second) states();
			ops<V>(a, b); conv<V>(a); maskQueries(a); if (T<V>::n[0] == 'i') negate(a); trace();
			if (i == 3 && j == 20) sample("a=%s b=%s all operators", str(a).c_str(), str(b).c_str());
		}
		// all lanes from small nonzero letters and in-range shift counts so that division and shifts are reached for every i
		next(); M a, b; for (int k = 0; k < 4; k++) { a.v[k] = al[(i + k) % N]; b.v[k] = (j * 7 + k * 9 + 1) % 31 + 1; } ops<V>(a, b); trace(); states();
	}
	bound("%s: every ordered pair of %u boundary letters in each of 4 lanes, every operator form", T<V>::n, N);
}
// all 4^k lane patterns from a tiny alphabet: mask queries, reductions and equality with every arrangement
template<class V> static void patterns()
{
	char n[64]; snprintf(n, 64, "%s lane patterns", T<V>::n); if (!begin(n)) return;
	u32 al[] = { 0, 1, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 0x80808080u, 2 }; const int K = 7;
	for (int i = 0; i < K * K * K * K; i++)
	{
		next(); states(); trace(); M a{ { al[i % K], al[i / K % K], al[i / K / K % K], al[i / K / K / K] } }; maskQueries(a); M b{ { a.v[3], a.v[0], 1, a.v[1] } };
		ops<V>(a, b); conv<V>(a); if (i == 77) sample("a=%s b=%s", str(a).c_str(), str(b).c_str());
		for (int l = 0; l < 4; l++) { M c = a; c.v[l] ^= 1u << (i % 32); eqs("== one lane differs", put<V>(a) == put<V>(c), 0, a, c); eqs("!= one lane differs", put<V>(a) != put<V>(c), 1, a, c); }
	}
	bound("%s: all %d^4 lane arrangements of {0,1,2,-1,min,max}", T<V>::n, K);
}
template<class V, u32 C> static void sw1()
{
	M a{ { 10, 0x80000001u, 30, 0xFFFFFFFFu } }, z{}; V A = put<V>(a);
	eq("swizzle", get(A.template swizzle<(C & 3), (C >> 2 & 3), (C >> 4 & 3), (C >> 6 & 3)>()), M{ { a.v[C & 3], a.v[C >> 2 & 3], a.v[C >> 4 & 3], a.v[C >> 6 & 3] } }, a, z);
}
template<class V, u32... Cs> static void swAll(std::integer_sequence<u32, Cs...>) { ((next(), states(), trace(), sw1<V, Cs>()), ...); }
template<class V> static void swizzles()
{
	char n[64]; snprintf(n, 64, "%s swizzles", T<V>::n); if (!begin(n)) return;
	swAll<V>(std::make_integer_sequence<u32, 256>()); bound("%s: all 256 swizzles", T<V>::n);
}
// Operation sequences: reachable states of the (SIMD vector, exact model) product machine.
template<class V> static void machine()
{
	typedef typename T<V>::s s; char n[64]; snprintf(n, 64, "%s op sequences", T<V>::n); if (!begin(n)) return;
	std::vector<M> seeds = { { { 1, 2, 3, 4 } }, { { 0x80000000u, 0xFFFFFFFFu, 0, 0x7FFFFFFFu } } };
	std::vector<M> args = { { { 1, 0xFFFFFFFFu, 3, 31 } }, { { 0x80000000u, 2, 0x7FFFFFFFu, 5 } } };
	std::unordered_set<u64> seen; std::vector<M> front = seeds; int depth = thorough() ? 7 : 5; 
	for (int d = 0; d < depth; d++)
	{
		std::vector<M> nf;
		for (auto& a : front) for (auto& b : args) for (int op = 0; op < 11; op++)
		{
			next(); M w; V A = put<V>(a), B = put<V>(b);
			switch (op)
			{
			case 0: A += B; w = LANES((u32)x + (u32)y); break; case 1: A -= B; w = LANES((u32)x - (u32)y); break;
			case 2: A &= B; w = LANES(x & y); break; case 3: A |= B; w = LANES(x | y); break; case 4: A ^= B; w = LANES(x ^ y); break;
			case 5: A = min(A, B); w = LANES(x < y ? x : y); break; case 6: A = max(A, B); w = LANES(x > y ? x : y); break;
			case 7: A = A.template swizzle<1, 2, 3, 0>(); w = M{ { a.v[1], a.v[2], a.v[3], a.v[0] } }; break;
			case 8: A = select(A < B, B, A); w = LANES(x < y ? y : x); break;
			case 9: A >>= (s)1; w = LANES(x >> 1); break;
			default: A = ~A; w = LANES(~x); break;
			}
			M got = get(A); eq("sequence step", got, w, a, b); trace();
			if (seen.insert(mix(mix(w.v[0], w.v[1]), mix(w.v[2], w.v[3]))).second) { states(); nf.push_back(w); }
		}
		front.swap(nf); if (front.size() > 400000) front.resize(400000);
	}
	bound("%s: breadth-first op sequences to depth %d from 2 seeds, 11 ops x 2 operands (frontier capped at 400000 per level)", T<V>::n, depth);
}
// divisions next to their exact quotients, where a division done through a reciprocal or a float goes wrong
template<class V> static void quotients()
{
	typedef typename T<V>::s s; char nm[64]; snprintf(nm, 64, "%s quotients", T<V>::n); if (!begin(nm, true)) return; u64 no = 0; const bool sg = std::is_signed<s>::value; const i64 top = sg ? INT32_MAX : (i64)UINT32_MAX;
	std::vector<i64> D; for (i64 d = 1; d <= (thorough() ? 4096 : 300); d++) D.push_back(d); for (i64 d : { 1000, 1023, 4095, 4096, 4097, 10007, 44100, 65535, 65536, 65537, 1000003, 16777215, 16777217, 715827883, 1431655765, 2147483647 }) D.push_back(d); if (!sg) for (i64 d : { 2147483648ll, 2863311531ll, 4294967295ll }) D.push_back(d);
	for (i64 d : D) { if (!mine(no++)) continue; for (i64 q : { (i64)0, (i64)1, (i64)2, (i64)3, (i64)5, (i64)7, (i64)10, (i64)41, (i64)47, (i64)55, (i64)61, (i64)100, (i64)255, (i64)1000, (i64)4097, (i64)65535, (i64)1000000, (i64)16777217, top / d, top / d - 1 }) for (int g = 0; g < (sg ? 4 : 1); g++)
	{
		M a, b; bool ok = true; next(); for (int k = 0; k < 4; k++) { i64 x = q * d + (k == 0 ? -1 : k == 1 ? 0 : k == 2 ? 1 : d / 2); if (x < 0 || x > top) x = q * d; ok &= x >= 0 && x <= top; a.v[k] = (u32)(g & 1 ? -x : x); b.v[k] = (u32)(g & 2 ? -d : d); } if (!ok) continue; states(); trace();
		const V A = put<V>(a), B = put<V>(b); s n = (s)b.v[0], m = (s)a.v[1]; M wq, wr, sq, sr; for (int k = 0; k < 4; k++) { s x = (s)a.v[k], y = (s)b.v[k]; wq.v[k] = (u32)(x / y); wr.v[k] = (u32)(x % y); sq.v[k] = (u32)(m / y); sr.v[k] = (u32)(m % y); }
		auto c = [&](const char* op, const V& v, const M& w) { eq(op, get(v), w, a, b); }; c("/", A / B, wq); c("%", A % B, wr); c("/ n", A / n, wq); c("% n", A % n, wr); c("n /", m / B, sq); c("n %", m % B, sr); V C = A; C /= B; c("/=", C, wq); C = A; C %= B; c("%=", C, wr); C = A; C /= n; c("/= n", C, wq); C = A; C %= n; c("%= n", C, wr);
	} }
	bound("%s quotients: %zu divisors x 20 quotients, just below, at and just above the exact multiple and half a divisor on, all signs", T<V>::n, D.size());
}
template<class V> static void own(const char* name)
{
	if (!begin(name, false)) return; const int L[] = { 1, 2, 3, 4, 6 };
	for (int i = 0; i < 625; i++)
	{
		V s(L[i % 5], L[i / 5 % 5], L[i / 25 % 5], L[i / 125]); next(); states(); trace(); snprintf(what, sizeof what, "(%d,%d,%d,%d)", L[i % 5], L[i / 5 % 5], L[i / 25 % 5], L[i / 125]); out(i);
		for (int e = 0; e < 5; e++) { auto go = [&](auto part) { INSIDE(+=) INSIDE(-=) INSIDE(*=) INSIDE(/=) INSIDE(=) INSIDE(%=) INSIDE(&=) INSIDE(|=) INSIDE(^=) INSIDE(<<=) INSIDE(>>=) }; if (e == 4) go([](V& v) -> V& { return v; }); else go([e](V& v) -> auto& { return v[e]; }); }
	}
	bound("%s: 625 vectors x every operator with each of their lanes, and with themselves, as the operand", name);
}
// every way the lanes of two operands can coincide: all 256 arrangements of two letters over both
template<class V> static void coincide()
{
	char nm[64]; snprintf(nm, 64, "%s coinciding lanes", T<V>::n); if (!begin(nm, true)) return; auto al = alphabet(); int K = (int)al.size(), R = thorough() ? 12 : 4; u64 no = 0;
	for (int i = 0; i < K; i++) for (int t = 0; t <= R; t++)
	{
		if (!mine(no++)) continue; u32 p = al[i], q = t == R ? p ^ 1u << (i * 5 + 2) % 32 : al[(i * 7 + t * 5 + 3) % K];
		for (int m = 0; m < 256; m++) { next(); states(); trace(); M a, b; for (int k = 0; k < 4; k++) { a.v[k] = m >> k & 1 ? q : p; b.v[k] = m >> (4 + k) & 1 ? q : p; } ops<V>(a, b); }
	}
	bound("%s coinciding lanes: all 256 arrangements of two letters over both operands x %d letter pairs (single flipped bits included), every operator form", T<V>::n, K * (R + 1));
}
static void body() { coincide<u32x4>(); coincide<i32x4>(); own<u32x4>("u32x4 own lanes"); own<i32x4>("i32x4 own lanes"); quotients<u32x4>(); quotients<i32x4>(); pairs<u32x4>(); pairs<i32x4>(); patterns<u32x4>(); patterns<i32x4>(); swizzles<u32x4>(); swizzles<i32x4>(); machine<u32x4>(); machine<i32x4>(); }
}
VX_MAIN(vx::body)
