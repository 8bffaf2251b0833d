// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg asan2 port neon
// @shards 8
// @technique exhaustive enumeration of integer matrices and basis-matrix pairs, and BFS over products/transposes/inverses of unimodular matrices, on the real code against exact integer linear algebra
// @note Complete for products on all basis pairs (products are bilinear), for inverses over all 0/1 4x4 matrices (thorough: -1/0/1), all -1/0/1 3x3 and all |e|<=4 2x2 matrices with non-zero determinant, against the exact adjugate. Singular matrices, negative zeros in ==, and the unused fourth lanes of the 3x3 SIMD functions are not judged.
// M01: matrix algebra of all sizes, scalar and SIMD.
#include "vx.hpp"
#include "alias.hpp"
#include <cassert>
#include <functional>
#include <cfloat>
#include "math/simd/matrix/float.hpp"
using namespace math;
namespace vx
{
// exact integer matrices, row/column indexed
template<int N> struct IM { i64 e[N][N]; };
template<int N> static std::string str(const IM<N>& m) { std::string s = "["; for (int r = 0; r < N; r++) { for (int c = 0; c < N; c++) s += std::to_string(m.e[r][c]) + (c < N - 1 ? " " : ""); s += r < N - 1 ? "; " : "]"; } return s; }
template<int N> static IM<N> mul(const IM<N>& a, const IM<N>& b) { IM<N> o; for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) { o.e[r][c] = 0; for (int k = 0; k < N; k++) o.e[r][c] += a.e[r][k] * b.e[k][c]; } return o; }
template<int N> static IM<N> tr(const IM<N>& a) { IM<N> o; for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) o.e[r][c] = a.e[c][r]; return o; }
static i64 det_(const i64* m, int n, int stride) // Laplace on a dense copy
{
	if (n == 1) return m[0]; i64 d = 0; for (int c = 0; c < n; c++) { i64 s[9]; int q = 0; for (int r = 1; r < n; r++) for (int k = 0; k < n; k++) if (k != c) s[q++] = m[r * stride + k]; d += (c & 1 ? -1 : 1) * m[c] * det_(s, n - 1, n - 1); } return d;
}
template<int N> static i64 det(const IM<N>& m) { return det_(&m.e[0][0], N, N); }
template<int N> static IM<N> adj(const IM<N>& m) { IM<N> o; for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) { i64 s[9]; int q = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != r && j != c) s[q++] = m.e[i][j]; o.e[c][r] = ((r + c) & 1 ? -1 : 1) * det_(s, N - 1, N - 1); } return o; }

template<int N> struct T;
template<> struct T<2> { typedef float2x2 M; typedef float2 V; static M mk(const IM<2>& a) { return M(a.e[0][0], a.e[0][1], a.e[1][0], a.e[1][1]); } };
template<> struct T<3> { typedef float3x3 M; typedef float3 V; static M mk(const IM<3>& a) { return M(a.e[0][0], a.e[0][1], a.e[0][2], a.e[1][0], a.e[1][1], a.e[1][2], a.e[2][0], a.e[2][1], a.e[2][2]); } };
template<> struct T<4> { typedef float4x4 M; typedef float4 V; static M mk(const IM<4>& a) { return M(a.e[0][0], a.e[0][1], a.e[0][2], a.e[0][3], a.e[1][0], a.e[1][1], a.e[1][2], a.e[1][3], a.e[2][0], a.e[2][1], a.e[2][2], a.e[2][3], a.e[3][0], a.e[3][1], a.e[3][2], a.e[3][3]); } };
static f32x4x4 simd(const IM<4>& a) { return f32x4x4(a.e[0][0], a.e[0][1], a.e[0][2], a.e[0][3], a.e[1][0], a.e[1][1], a.e[1][2], a.e[1][3], a.e[2][0], a.e[2][1], a.e[2][2], a.e[2][3], a.e[3][0], a.e[3][1], a.e[3][2], a.e[3][3]); }
template<int N, class M, class F> static void expect(const char* op, const M& g, F want, const IM<N>& a, const IM<N>& b, double tol = 0, int R = N, int C = N)
{
	trans(); u64 h = 0; for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) { double x = g[c][r], w = want(r, c); h = mix(h, fbits((float)x)); if (!(std::fabs(x - w) <= tol)) { fail(op, "%s: row %d column %d is %.9g, want %.9g; a=%s b=%s", op, r, c, x, w, str(a).c_str(), str(b).c_str()); return; } } out(h);
}
#define EX(n, g, m) expect<N>(n, g, [&](int r, int c) { return (double)(m).e[r][c]; }, a, b)

template<int N> static void products(const IM<N>& a, const IM<N>& b)
{
	next(); states(); trace(); typename T<N>::M A = T<N>::mk(a), B = T<N>::mk(b); IM<N> p = mul(a, b);
	EX("A*B", A * B, p); { auto C = A; auto& R = (C *= B); EX("A*=B", C, p); if ((void*)&R != (void*)&C) fail("*= ref", "reference"); } EX("transpose", transpose(A), tr(a)); EX("ctor", A, a);
	for (int k = 0; k < N; k++) // matrix * column k of b, row k of b * matrix
	{
		typename T<N>::V v, w; for (int r = 0; r < N; r++) { v[r] = (float)b.e[r][k]; w[r] = (float)b.e[k][r]; } auto x = A * v, y = w * A; trans(2);
		for (int r = 0; r < N; r++) { i64 wx = 0, wy = 0; for (int j = 0; j < N; j++) { wx += a.e[r][j] * b.e[j][k]; wy += b.e[k][j] * a.e[j][r]; } if (x[r] != wx) fail("A*v", "component %d is %g want %lld; a=%s b=%s column %d", r, x[r], (long long)wx, str(a).c_str(), str(b).c_str(), k); if (y[r] != wy) fail("v*A", "component %d is %g want %lld; a=%s b=%s row %d", r, y[r], (long long)wy, str(a).c_str(), str(b).c_str(), k); }
	}
	bool eq = !memcmp(&a, &b, sizeof a); trans(2); if ((A == B) != eq || (A != B) == eq) fail("==", "a=%s b=%s", str(a).c_str(), str(b).c_str());
	float s = (float)((a.e[0][N - 1] + 3 * b.e[N - 1][0]) | 1);
	#define SC(o) EX2(#o, A o s, (float)a.e[r][c] o s) EX2("s " #o, s o A, s o (float)a.e[r][c]) { auto C = A; C o##= s; EX2(#o "=", C, (float)a.e[r][c] o s) }
	#define EX2(n, g, e) expect<N>(n, g, [&](int r, int c) { volatile float f = e; return (double)f; }, a, b);
	SC(+) SC(-) SC(*)
	bool nz = true; for (auto& row : a.e) for (i64 x : row) nz &= x != 0; { auto C = A / s; EX2("/", C, (float)a.e[r][c] / s) auto D = A; D /= s; EX2("/=", D, (float)a.e[r][c] / s) if (nz) { auto E = s / A; EX2("s /", E, s / (float)a.e[r][c]) } }
}
static void simd4(const IM<4>& a, const IM<4>& b)
{
	const int N = 4; trace(); f32x4x4 A = simd(a), B = simd(b); IM<4> p = mul(a, b); EX("SIMD A*B", A * B, p); { auto C = A; C *= B; EX("SIMD A*=B", C, p); } EX("SIMD ctor", A, a); EX("transpose4x4", transpose4x4(A), tr(a));
	{ IM<4> q = p; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) q.e[r][c] = p.e[r][c] - a.e[r][3] * b.e[3][c]; expect<4>("multiply3x3", multiply3x3(A, B), [&](int r, int c) { return (double)q.e[r][c]; }, a, b, 0, 3, 3); }
	{ f32x4x4 t = transpose3x3(A); expect<4>("transpose3x3", t, [&](int r, int c) { return (double)a.e[c][r]; }, a, b, 0, 3, 3); bool ok = true; for (int r = 0; r < 4; r++) ok &= t.c3[r] == a.e[r][3]; if (!ok) fail("transpose3x3 c3", "last column changed: a=%s", str(a).c_str()); trans(); }
	for (int k = 0; k < 4; k++)
	{
		f32x4 v(b.e[0][k], b.e[1][k], b.e[2][k], b.e[3][k]), x = A * v, y = multiply3x3(A, v); trans(2);
		for (int r = 0; r < 4; r++) { if (x[r] != p.e[r][k]) fail("SIMD A*v", "component %d is %g want %lld; a=%s b=%s column %d", r, x[r], (long long)p.e[r][k], str(a).c_str(), str(b).c_str(), k); i64 w = p.e[r][k] - a.e[r][3] * b.e[3][k]; if (r < 3 && y[r] != w) fail("multiply3x3 v", "component %d is %g want %lld; a=%s b=%s column %d", r, y[r], (long long)w, str(a).c_str(), str(b).c_str(), k); }
	}
	bool eq = !memcmp(&a, &b, sizeof a); trans(3); if ((A == B) != eq || (A != B) == eq) fail("SIMD ==", "a=%s b=%s", str(a).c_str(), str(b).c_str()); if (isBinaryLess(A, B) && isBinaryLess(B, A)) fail("isBinaryLess", "not antisymmetric"); if (!eq && !isBinaryLess(A, B) && !isBinaryLess(B, A)) fail("isBinaryLess", "different matrices unordered");
	float s = (float)((a.e[0][3] + 3 * b.e[3][0]) | 1);
	#define SS(o) { EX2("SIMD " #o, A o s, (float)a.e[r][c] o s) auto C = A; C o##= s; EX2("SIMD " #o "=", C, (float)a.e[r][c] o s) }
	SS(+) SS(-) SS(*) SS(/)
	EX("(float4x4)SIMD", (float4x4)A, a); EX("SIMD(float4x4)", f32x4x4(T<4>::mk(a)), a); expect<4>("(float4x3)SIMD", (float4x3)A, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 3, 4); expect<4>("(float3x3)SIMD", (float3x3)A, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 3, 3); expect<4>("(float2x2)SIMD", (float2x2)A, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 2, 2);
}
// 4x3 and size conversions
static void mixed(const IM<4>& a, const IM<4>& b)
{
	const int N = 4; float4x4 A = T<4>::mk(a); float4x3 H = (float4x3)A; expect<4>("(float4x3)", H, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 3, 4);
	{ float4x3 K(a.e[0][0], a.e[0][1], a.e[0][2], a.e[0][3], a.e[1][0], a.e[1][1], a.e[1][2], a.e[1][3], a.e[2][0], a.e[2][1], a.e[2][2], a.e[2][3]); expect<4>("float4x3 ctor", K, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 3, 4); if (!(K == H) || K != H) fail("float4x3 ==", "a=%s", str(a).c_str()); float4x3 K2 = K; K2.c3.z += 1; if (K == K2 || !(K != K2)) fail("float4x3 ==", "last element ignored"); }
	expect<4>("(float3x3)", (float3x3)A, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 3, 3); expect<4>("(float2x2)", (float2x2)A, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 2, 2); expect<4>("(float3x3)4x3", (float3x3)H, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 3, 3); expect<4>("(float2x2)4x3", (float2x2)H, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 2, 2); expect<4>("(float2x2)3x3", (float2x2)(float3x3)A, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 2, 2);
	float4 r3(a.e[3][0], a.e[3][1], a.e[3][2], a.e[3][3]), c3(a.e[0][3], a.e[1][3], a.e[2][3], a.e[3][3]); f32x4 R3(r3), C3(c3);
	EX("float4x4(4x3,r3)", float4x4(H, r3), a); EX("float4x4(3x3,c3,r3)", float4x4((float3x3)A, c3, r3), a); EX("f32x4x4(4x3,r3)", f32x4x4(H, R3), a); EX("f32x4x4(3x3,c3,r3)", f32x4x4((float3x3)A, C3, R3), a);
	IM<4> z = a; for (int c = 0; c < 4; c++) z.e[3][c] = 0; EX("float4x4(4x3)", float4x4(H), z); EX("f32x4x4(4x3)", f32x4x4(H), z); for (int r = 0; r < 4; r++) z.e[r][3] = 0; EX("float4x4(3x3)", float4x4((float3x3)A), z); EX("f32x4x4(3x3)", f32x4x4((float3x3)A), z);
	{ f32x4x4 B(f32x4(A.c0), f32x4(A.c1), f32x4(A.c2), f32x4(A.c3)); EX("f32x4x4(columns)", B, a); float4x4 C(A.c0, A.c1, A.c2, A.c3); EX("float4x4(columns)", C, a); f32x4x4 D(f32x4(A.c0), f32x4(A.c1), f32x4(A.c2)); expect<4>("f32x4x4(3 columns)", D, [&](int r, int c) { return (double)a.e[r][c]; }, a, b, 0, 3, 3); }
	for (int k = 0; k < 4; k++) { float4 v(b.e[0][k], b.e[1][k], b.e[2][k], b.e[3][k]); float3 x = H * v; trans(); for (int r = 0; r < 3; r++) { i64 w = 0; for (int j = 0; j < 4; j++) w += a.e[r][j] * b.e[j][k]; if (x[r] != w) fail("4x3*v", "component %d is %g want %lld; a=%s b=%s", r, x[r], (long long)w, str(a).c_str(), str(b).c_str()); } }
	float s = 3; { float4x3 C; auto q = [&](const char* n, const float4x3& g, double (*f)(double)) { expect<4>(n, g, [&](int r, int c) { return (double)(float)f((double)a.e[r][c]); }, a, b, 0, 3, 4); };
	q("4x3 +", H + s, [](double x) { return x + 3; }); q("4x3 -", H - s, [](double x) { return x - 3; }); q("4x3 *", H * s, [](double x) { return x * 3; }); q("4x3 /", H / s, [](double x) { return x / 3; }); q("s+4x3", s + H, [](double x) { return x + 3; }); q("s-4x3", s - H, [](double x) { return 3 - x; }); q("s*4x3", s * H, [](double x) { return 3 * x; });
	C = H; C += s; q("4x3 +=", C, [](double x) { return x + 3; }); C = H; C -= s; q("4x3 -=", C, [](double x) { return x - 3; }); C = H; C *= s; q("4x3 *=", C, [](double x) { return x * 3; }); C = H; C /= s; q("4x3 /=", C, [](double x) { return x / 3; }); C = H + 7.f; q("s/4x3", s / C, [](double x) { return 3 / (x + 7); }); }
	// column access, writable
	for (int c = 0; c < 4; c++) { float4x4 C = A; C[c] = float4(9, 8, 7, 6); IM<4> w = a; for (int r = 0; r < 4; r++) w.e[r][c] = 9 - r; EX("float4x4 []", C, w); f32x4x4 D = simd(a); D[c] = f32x4(9, 8, 7, 6); EX("f32x4x4 []", D, w); float4x3 F = H; F[c] = float3(9, 8, 7); expect<4>("float4x3 []", F, [&](int r, int cc) { return (double)w.e[r][cc]; }, a, b, 0, 3, 4); }
	// a float4x4 needs no 16-byte alignment
	alignas(16) static char buf[96]; for (int o = 0; o < 16; o += 4) { memcpy(buf + o, &A, sizeof A); const float4x4& M = *(const float4x4*)(buf + o); EX("SIMD(float4x4) unaligned", f32x4x4(M), a); }
}
template<int N> static IM<N> basis(int k, i64 s = 1) { IM<N> m{}; m.e[k / N][k % N] = s; return m; }
template<int N> static IM<N> dense(int k) { IM<N> m; for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) m.e[r][c] = ((r * 5 + c * 3 + k * 7 + r * c * (k % 5)) % 13) - 6; for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) if (!m.e[r][c]) m.e[r][c] = 7 - r - c; return m; }
template<int N> static void pairs(const char* n)
{
	if (!begin(n)) return; const int K = N * N; int D = thorough() ? 60 : 16;
	auto both = [&](const IM<N>& a, const IM<N>& b) { snprintf(what, sizeof what, "a=%s b=%s", str(a).c_str(), str(b).c_str()); products<N>(a, b); if constexpr (N == 4) { simd4(a, b); mixed(a, b); } };
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) both(basis<N>(i), basis<N>(j, -3));
	for (int i = 0; i < D; i++) { for (int j = 0; j < D; j++) both(dense<N>(i), dense<N>(j)); for (int j = 0; j < K; j++) { both(dense<N>(i), basis<N>(j, 2)); both(basis<N>(j), dense<N>(i)); } IM<N> a = dense<N>(i); for (int j = 0; j < K; j++) { IM<N> b = a; b.e[j / N][j % N] += 1; both(a, b); } }
	sample("products of %s and %s", str(dense<N>(1)).c_str(), str(dense<N>(2)).c_str()); bound("%dx%d: all pairs of basis matrices, %d^2 dense pairs, dense x basis both ways, one-element differences for ==", N, N, D);
}
template<int N> static void inv1(const IM<N>& a)
{
	i64 d = det(a); if (!d) return; next(); states(); trace(); IM<N> j = adj(a), b = j; auto w = [&](int r, int c) { return (double)j.e[r][c] / d; }; double mx = 1; for (auto& row : j.e) for (i64 x : row) mx = std::max(mx, std::fabs((double)x / d));
	double tol = 3e-6 * mx; expect<N>("inverse", inverse(T<N>::mk(a)), w, a, b, tol); if constexpr (N == 4) expect<4>("inverse4x4", inverse4x4(simd(a)), w, a, b, tol);
}
static void inverses()
{
	if (begin("inverse 2x2", true)) { const int K = 9; for (int n = 0; n < K * K * K * K; n++) { if (!mine(n)) continue; IM<2> a{ { { n % K - 4, n / K % K - 4 }, { n / K / K % K - 4, n / K / K / K - 4 } } }; inv1<2>(a); } bound("2x2 inverse: all matrices with |e| <= 4 and non-zero determinant"); }
	if (begin("inverse 3x3", true)) { for (int n = 0; n < 19683; n++) { if (!mine(n)) continue; IM<3> a; int x = n; for (auto& r : a.e) for (i64& e : r) { e = x % 3 - 1; x /= 3; } inv1<3>(a); } int D = thorough() ? 4000 : 500; for (int k = 0; k < D; k++) { if (!mine(k)) continue; inv1<3>(dense<3>(k)); } bound("3x3 inverse: all -1/0/1 matrices with non-zero determinant and %d dense ones", D); }
	if (begin("inverse 4x4", true))
	{
		for (int n = 0; n < 65536; n++) { if (!mine(n)) continue; IM<4> a; for (int k = 0; k < 16; k++) a.e[k / 4][k % 4] = n >> k & 1; inv1<4>(a); for (int k = 0; k < 16; k++) if ((k * 7 + n) % 5 < 2) a.e[k / 4][k % 4] *= -2; inv1<4>(a); }
		int D = thorough() ? 200000 : 2000; for (int k = 0; k < D; k++) { if (!mine(k)) continue; IM<4> a = dense<4>(k); a.e[k & 3][k >> 2 & 3] += k % 17; inv1<4>(a); }
		if (thorough()) { for (u32 n = 0; n < 43046721u; n++) { if (!mine(n)) continue; IM<4> a; u32 x = n; for (int k = 0; k < 16; k++) { a.e[k / 4][k % 4] = (i64)(x % 3) - 1; x /= 3; } inv1<4>(a); } bound("4x4 inverse: all 3^16 matrices over -1/0/1 with non-zero determinant"); }
		sample("inverse of %s", str(dense<4>(3)).c_str()); bound("4x4 inverse: all 0/1 matrices and a signed/doubled variant of each, with non-zero determinant, and %d dense ones", D);
	}
}
// breadth-first exploration of a subgroup of GL(4,Z): every product, transpose and inverse is exact in floats
static void machine()
{
	if (!begin("unimodular machine")) return; const int N = 4; std::vector<IM<4>> gens; IM<4> I{}; for (int i = 0; i < 4; i++) I.e[i][i] = 1;
	for (int i = 0; i < 4; i++) { IM<4> g = I; g.e[i][(i + 1) & 3] = i & 1 ? -1 : 1; gens.push_back(g); } { IM<4> p{}; p.e[0][1] = p.e[1][2] = p.e[2][3] = 1; p.e[3][0] = -1; gens.push_back(p); }
	std::vector<IM<4>> front = { I }; std::set<std::vector<i64>> seen; size_t cap = thorough() ? 200000 : 6000; int depth = thorough() ? 9 : 6;
	for (int d = 0; d < depth && !front.empty(); d++)
	{
		std::vector<IM<4>> nf;
		for (auto& a : front) for (size_t op = 0; op < gens.size() * 2 + 2; op++)
		{
			next(); trace(); IM<4> w, b = op < gens.size() * 2 ? gens[op / 2] : I; f32x4x4 A = simd(a); float4x4 F = T<4>::mk(a); f32x4x4 G; float4x4 H;
			if (op < gens.size() * 2) { if (op & 1) { w = mul(b, a); G = simd(b) * A; H = T<4>::mk(b) * F; } else { w = mul(a, b); G = A; G *= simd(b); H = F; H *= T<4>::mk(b); } }
			else if (op & 1) { w = tr(a); G = transpose4x4(A); H = transpose(F); } else { w = adj(a); i64 dt = det(a); for (auto& r : w.e) for (i64& e : r) e *= dt; G = inverse4x4(A); H = inverse(F); }
			EX("SIMD step", G, w); EX("scalar step", H, w);
			std::vector<i64> key(&w.e[0][0], &w.e[0][0] + 16); i64 mx = 0; for (i64 x : key) mx = std::max(mx, (i64)std::llabs(x)); if (mx <= 12 && seen.size() < cap && seen.insert(key).second) { states(); nf.push_back(w); }
		}
		front.swap(nf);
	}
	bound("BFS over products with 5 unimodular generators (both sides), transpose and inverse: depth %d, %zu states cap, |e| <= 12", depth, cap);
}
// Matrices of any size: elements are scaled by powers of two, which is exact, so every result is the scaled exact one.
static const float ANY[] = { 0, -0.0f, 1, -1, 0.1f, -3.7f, 1e-3f, 12345.678f, -9.5e6f, 3e38f, -1e-38f, 1e-45f, 16777217.f, -FLT_MAX, FLT_MIN, INFINITY };
template<int N> static IM<N> pattern(int k) { IM<N> m; for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) m.e[r][c] = (i64)(((r * N + c) * (1 + 2 * (k % 8)) + k / 8) & 15); return m; }
template<class M> static M fill(M m, int R, int C, std::function<double(int, int)> f) { for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) m[c][r] = (float)f(r, c); return m; }
template<int N, class M> static void bits(const char* op, const M& g, std::function<float(int, int)> w, int k, int R = N, int C = N) { trans(); for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) { float x = g[c][r], y = w(r, c); if (fbits(x) != fbits(y)) { fail(op, "%s: row %d column %d is %.9g, want %.9g; pattern %d", op, r, c, x, y, k); return; } } }
static void anyValues()
{
	if (!begin("values of any size")) return;
	for (int k = 0; k < 128; k++)
	{
		next(); states(); trace(); IM<4> p = pattern<4>(k); auto v = [&](int r, int c) { return r < 4 ? ANY[p.e[r][c]] : 0.0f; }; auto d = [&](int r, int c) { return (double)v(r, c); }; snprintf(what, sizeof what, "pattern %d", k);
		float4x4 A = fill(float4x4(), 4, 4, d); float3x3 B = fill(float3x3(), 3, 3, d); float2x2 C = fill(float2x2(), 2, 2, d); float4x3 D = fill(float4x3(), 3, 4, d); f32x4x4 S(A.c0.x, A.c1.x, A.c2.x, A.c3.x, A.c0.y, A.c1.y, A.c2.y, A.c3.y, A.c0.z, A.c1.z, A.c2.z, A.c3.z, A.c0.w, A.c1.w, A.c2.w, A.c3.w);
		bits<4>("4x4 []", A, v, k); bits<4>("SIMD []", S, v, k); bits<4>("SIMD(float4x4)", f32x4x4(A), v, k); bits<4>("(float4x4)SIMD", (float4x4)S, v, k); bits<4>("(float4x3)SIMD", (float4x3)S, v, k, 3, 4); bits<4>("(float3x3)SIMD", (float3x3)S, v, k, 3, 3); bits<4>("(float2x2)SIMD", (float2x2)S, v, k, 2, 2);
		bits<4>("(float4x3)4x4", (float4x3)A, v, k, 3, 4); bits<4>("(float3x3)4x4", (float3x3)A, v, k, 3, 3); bits<4>("(float2x2)4x4", (float2x2)A, v, k, 2, 2); bits<4>("(float3x3)4x3", (float3x3)D, v, k, 3, 3); bits<4>("(float2x2)4x3", (float2x2)D, v, k, 2, 2); bits<4>("(float2x2)3x3", (float2x2)B, v, k, 2, 2);
		auto t = [&](int r, int c) { return v(c, r); }; bits<4>("transpose 4x4", transpose(A), t, k); bits<4>("transpose 3x3", transpose(B), t, k, 3, 3); bits<4>("transpose 2x2", transpose(C), t, k, 2, 2); bits<4>("transpose4x4", transpose4x4(S), t, k); bits<4>("transpose3x3", transpose3x3(S), t, k, 3, 3);
		float4 r3(v(3, 0), v(3, 1), v(3, 2), v(3, 3)), c3(v(0, 3), v(1, 3), v(2, 3), v(3, 3)); bits<4>("float4x4(4x3,r3)", float4x4(D, r3), v, k); bits<4>("float4x4(3x3,c3,r3)", float4x4(B, c3, r3), v, k); bits<4>("f32x4x4(4x3,r3)", f32x4x4(D, f32x4(r3)), v, k); bits<4>("f32x4x4(3x3,c3,r3)", f32x4x4(B, f32x4(c3), f32x4(r3)), v, k);
		bits<4>("float4x4(16)", float4x4(v(0, 0), v(0, 1), v(0, 2), v(0, 3), v(1, 0), v(1, 1), v(1, 2), v(1, 3), v(2, 0), v(2, 1), v(2, 2), v(2, 3), v(3, 0), v(3, 1), v(3, 2), v(3, 3)), v, k); bits<4>("float4x3(12)", float4x3(v(0, 0), v(0, 1), v(0, 2), v(0, 3), v(1, 0), v(1, 1), v(1, 2), v(1, 3), v(2, 0), v(2, 1), v(2, 2), v(2, 3)), v, k, 3, 4); bits<4>("float3x3(9)", float3x3(v(0, 0), v(0, 1), v(0, 2), v(1, 0), v(1, 1), v(1, 2), v(2, 0), v(2, 1), v(2, 2)), v, k, 3, 3); bits<4>("float2x2(4)", float2x2(v(0, 0), v(0, 1), v(1, 0), v(1, 1)), v, k, 2, 2);
		bits<4>("float4x4(columns)", float4x4(A.c0, A.c1, A.c2, A.c3), v, k); bits<4>("float4x3(columns)", float4x3(D.c0, D.c1, D.c2, D.c3), v, k, 3, 4); bits<4>("float3x3(columns)", float3x3(B.c0, B.c1, B.c2), v, k, 3, 3); bits<4>("float2x2(columns)", float2x2(C.c0, C.c1), v, k, 2, 2); bits<4>("SIMD(columns)", f32x4x4(S.c0, S.c1, S.c2, S.c3), v, k); for (float x : ANY) { auto q = [&](int, int) { return x; }; bits<4>("float4x4(n)", float4x4(x), q, k); bits<4>("float4x3(n)", float4x3(x), q, k, 3, 4); bits<4>("float3x3(n)", float3x3(x), q, k, 3, 3); bits<4>("float2x2(n)", float2x2(x), q, k, 2, 2); bits<4>("SIMD(n)", f32x4x4(x), q, k); }
		trans(10); auto eq = [&](const char* n, bool e, bool ne, bool w) { if (e != w || ne == w) fail(n, "%s is %d, %d for pattern %d, want %d", n, e, ne, k, w); }; eq("4x4 ==", A == A, A != A, true); eq("3x3 ==", B == B, B != B, true); eq("2x2 ==", C == C, C != C, true); eq("4x3 ==", D == D, D != D, true); eq("SIMD ==", S == S, S != S, true);
		{ float4x4 a2 = A; eq("4x4 == copy", A == a2, A != a2, true); f32x4x4 s2 = S; eq("SIMD == copy", S == s2, S != s2, true); if (isBinaryLess(S, S)) fail("isBinaryLess", "a matrix is less than itself, pattern %d", k); }
		for (int e = 0; e < 16; e++) for (int dir = 0; dir < 2; dir++) // one element, one step away: not equal
		{
			int r = e / 4, c = e % 4; float x = v(r, c), y = std::nextafterf(x, dir ? INFINITY : -INFINITY); if (x == y || (!std::isinf(x) && std::isinf(y))) continue; if (std::fpclassify(x) == FP_SUBNORMAL || std::fpclassify(y) == FP_SUBNORMAL) continue;
			trans(5); next(); float4x4 a2 = A; a2[c][r] = y; eq("4x4 == ulp", A == a2, A != a2, false); f32x4x4 s2 = S; f32x4 cc = s2[c]; cc[r] = y; s2[c] = cc; eq("SIMD == ulp", S == s2, S != s2, false); if (isBinaryLess(S, s2) == isBinaryLess(s2, S)) fail("isBinaryLess ulp", "pattern %d element %d", k, e);
			if (r < 3) { float4x3 d2 = D; d2[c][r] = y; eq("4x3 == ulp", D == d2, D != d2, false); if (c < 3) { float3x3 b2 = B; b2[c][r] = y; eq("3x3 == ulp", B == b2, B != b2, false); } if (r < 2 && c < 2) { float2x2 c2 = C; c2[c][r] = y; eq("2x2 == ulp", C == c2, C != c2, false); } }
		}
	}
	bound("values of any size: 128 arrangements of 16 floats (zeros, fractions, thousands, huge, tiny, infinite) in every constructor, conversion, transpose and comparison, each element also one step away");
}
template<int N> static void scaled(const char* n)
{
	if (!begin(n, true)) return; u64 no = 0; const int E[] = { -40, -20, -3, 12, 22, 41 };
	for (int pa : E) for (int pb : E) for (int k = 0; k < 12; k++)
	{
		if (!mine(no++)) continue; next(); states(); trace(); IM<N> a = dense<N>(k), b = dense<N>(k * 5 + 2); if (k & 1) for (auto& r : b.e) for (i64& e : r) if ((e & 3) == 3) e = 0; snprintf(what, sizeof what, "2^%d %s and 2^%d %s", pa, str(a).c_str(), pb, str(b).c_str()); double sa = std::ldexp(1.0, pa), sb = std::ldexp(1.0, pb), sp = sa * sb;
		typedef typename T<N>::M M; M A = fill(M(), N, N, [&](int r, int c) { return a.e[r][c] * sa; }), B = fill(M(), N, N, [&](int r, int c) { return b.e[r][c] * sb; }); IM<N> p = mul(a, b), q2 = mul(a, a);
		auto chk = [&](const char* op, auto g, const IM<N>& w, double f, int R = N) { expect<N>(op, g, [&](int r, int c) { return w.e[r][c] * f; }, a, b, 0, R, R); };
		chk("scaled A*B", A * B, p, sp); { M C = A; C *= B; chk("scaled A*=B", C, p, sp); C = A; C *= C; chk("A*=A", C, q2, sa * sa); } chk("A*A", A * A, q2, sa * sa); { M C = A; C = transpose(C); chk("A=transpose(A)", C, tr(a), sa); }
		for (int j = 0; j < N; j++) { typename T<N>::V v, w; for (int r = 0; r < N; r++) { v[r] = (float)(b.e[r][j] * sb); w[r] = (float)(b.e[j][r] * sb); } auto x = A * v, y = w * A; trans(2); for (int r = 0; r < N; r++) { i64 wy = 0; for (int i = 0; i < N; i++) wy += b.e[j][i] * a.e[i][r]; if (x[r] != p.e[r][j] * sp) fail("scaled A*v", "component %d is %g want %g; %s", r, x[r], p.e[r][j] * sp, what); if (y[r] != wy * sp) fail("scaled v*A", "component %d is %g want %g; %s", r, y[r], wy * sp, what); } }
		for (int m : { 1, 3, -2, 5 }) { float s = (float)(m * sb); auto e1 = [&](const char* op, const M& g, auto f) { expect<N>(op, g, [&](int r, int c) { volatile float x = f((float)(a.e[r][c] * sa)); return (double)x; }, a, b); }; e1("scaled A+s", A + s, [&](float x) { return x + s; }); e1("scaled A-s", A - s, [&](float x) { return x - s; }); e1("scaled A*s", A * s, [&](float x) { return x * s; }); e1("scaled A/s", A / s, [&](float x) { return x / s; }); e1("scaled s-A", s - A, [&](float x) { return s - x; }); e1("scaled s/A", s / A, [&](float x) { return s / x; }); M C = A; C += s; e1("scaled A+=s", C, [&](float x) { return x + s; }); C = A; C -= s; e1("scaled A-=s", C, [&](float x) { return x - s; }); C = A; C *= s; e1("scaled A*=s", C, [&](float x) { return x * s; }); C = A; C /= s; e1("scaled A/=s", C, [&](float x) { return x / s; }); }
		if constexpr (N == 4)
		{
			auto S = [&](const M& m) { return f32x4x4(m); }; chk("scaled SIMD A*B", S(A) * S(B), p, sp); f32x4x4 C = S(A); C *= C; chk("SIMD A*=A", C, q2, sa * sa); C = S(A); C *= S(B); chk("scaled SIMD A*=B", C, p, sp); C = S(A); C = transpose4x4(C); chk("A=transpose4x4(A)", C, tr(a), sa); IM<4> q = p; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) q.e[r][c] -= a.e[r][3] * b.e[3][c]; chk("scaled multiply3x3", multiply3x3(S(A), S(B)), q, sp, 3);
			for (int j = 0; j < 4; j++) { f32x4 v(S(B)[j]), x = S(A) * v, y = multiply3x3(S(A), v); trans(2); for (int r = 0; r < 4; r++) { if (x[r] != p.e[r][j] * sp) fail("scaled SIMD A*v", "component %d is %g want %g; %s", r, x[r], p.e[r][j] * sp, what); if (r < 3 && y[r] != (p.e[r][j] - a.e[r][3] * b.e[3][j]) * sp) fail("scaled multiply3x3 v", "component %d is %g; %s", r, y[r], what); } }
			for (int m : { 1, 3, -2, 5 }) { float s = (float)(m * sb); auto e1 = [&](const char* op, const f32x4x4& g, auto f) { expect<N>(op, g, [&](int r, int c) { volatile float x = f((float)(a.e[r][c] * sa)); return (double)x; }, a, b); }; e1("scaled SIMD A+s", S(A) + s, [&](float x) { return x + s; }); e1("scaled SIMD A-s", S(A) - s, [&](float x) { return x - s; }); e1("scaled SIMD A*s", S(A) * s, [&](float x) { return x * s; }); e1("scaled SIMD A/s", S(A) / s, [&](float x) { return x / s; }); f32x4x4 D = S(A); D += s; e1("scaled SIMD A+=s", D, [&](float x) { return x + s; }); D = S(A); D -= s; e1("scaled SIMD A-=s", D, [&](float x) { return x - s; }); D = S(A); D *= s; e1("scaled SIMD A*=s", D, [&](float x) { return x * s; }); D = S(A); D /= s; e1("scaled SIMD A/=s", D, [&](float x) { return x / s; }); }
		}
		// inverse of rows scaled by 2^(..), columns by 2^(..)
		for (int uneven = 0; uneven < 2; uneven++)
		{
			i64 dt = det(a); if (!dt) break; int lim = 24, u = std::max(-lim, std::min(lim, pa)); auto rs = [&](int r) { return u / 2 + (uneven ? (r * 5 + k) % 7 - 3 : 0); }; auto cs = [&](int c) { return u - u / 2 + (uneven ? (c * 3 + pb + 60) % 9 - 4 : 0); }; IM<N> j = adj(a); double mx = 1e-9; for (auto& row : j.e) for (i64 x : row) mx = std::max(mx, std::fabs((double)x / dt));
			M C = fill(M(), N, N, [&](int r, int c) { return std::ldexp((double)a.e[r][c], rs(r) + cs(c)); }); auto back = [&](const char* op, auto g) { M h = fill(M(), N, N, [&](int r, int c) { return std::ldexp((double)g[c][r], cs(r) + rs(c)); }); expect<N>(op, h, [&](int r, int c) { return (double)j.e[r][c] / dt; }, a, b, 1e-5 * mx * (1 + 30.0 / std::fabs((double)dt))); };
			back("scaled inverse", inverse(C)); { M D = C; D = inverse(D); back("A=inverse(A)", D); } if constexpr (N == 4) { back("scaled inverse4x4", inverse4x4(f32x4x4(C))); f32x4x4 D(C); D = inverse4x4(D); back("A=inverse4x4(A)", D); }
		}
	}
	bound("%dx%d: 6 x 6 power-of-two sizes from 2^-40 to 2^41 of 12 dense pairs, own operands, and inverses with rows and columns of different sizes", N, N);
}
// Any mixture of numbers: fractions, one-signed, equal, sparse, far apart. Element operations are single float operations, products are within rounding of the sum of their terms.
static double gen(int kind, int k, int r, int c)
{
	static const float L[] = { 0.1f, 3.7f, 1234.567f, 0.001f, 87654.3f, 2.5f, 1e-5f, 33.33f, 3.1e6f, 0.75f, 1.0f, 7.0f / 3, 19.0f };
	int h = (r * 5 + c * 3 + k * 7 + r * c * (k % 3 + 1)) % 13; float v = L[h], w = L[(r + 2 * c + k) % 6 + 1] + 0.1f * h; bool sg = (r * 3 + c * 5 + k + (r * c >> 1)) & 1;
	switch (kind) { case 0: return sg ? -v : v; case 1: return v; case 2: return -v; case 3: return L[k % 13]; case 4: return r * 4 + c == k % 16 ? v : 0; case 5: return (r + c + k) % 3 ? 0 : sg ? -w : w; case 6: return r == c ? v : 0; case 7: return sg ? -w * 0.01f : w * 0.01f; case 8: return std::fmod((double)h * 0.37 + r, 1.0) - 0.5; default: return -L[(k + 4) % 13]; }
}
template<int N, int R, class M, class V> static void general1(const M& A, const M& B, std::function<double(int, int)> a, std::function<double(int, int)> b, float s, const char* size)
{
	char nm[40]; auto n = [&](const char* o) { snprintf(nm, sizeof nm, "%s %s", size, o); return nm; }; IM<4> z{};
	#define GE(o, g, ee) expect<4>(n(o), g, [&](int r, int c) { float x = (float)a(r, c); volatile float f = ee; return std::isnan((float)f) ? 0.0 : (double)f; }, z, z, 0, R, N);
	GE("+", A + s, x + s) GE("-", A - s, x - s) GE("*", A * s, x * s) GE("/", A / s, x / s) { M C = A; C += s; GE("+=", C, x + s) C = A; C -= s; GE("-=", C, x - s) C = A; C *= s; GE("*=", C, x * s) C = A; C /= s; GE("/=", C, x / s) }
	#undef GE
	trans(2); bool e = true; for (int r = 0; r < R; r++) for (int c = 0; c < N; c++) e &= (float)a(r, c) == (float)b(r, c); if ((A == B) != e || (A != B) == e) fail("general ==", "%s: %d, want %d", size, A == B, e);
	for (int k = 0; k < N; k++) { V v; for (int r = 0; r < N; r++) v[r] = (float)b(r % R, k); auto x = A * v; trans(); for (int r = 0; r < R; r++) { double w = 0, m = 0; for (int j = 0; j < N; j++) { double t = (double)(float)a(r, j) * (double)v[j]; w += t; m += std::fabs(t); } if (!(std::fabs(x[r] - w) <= 4e-7 * m)) fail("general A*v", "%s: component %d is %.9g, want %.9g; %s", size, r, x[r], w, what); } }
}
template<int N, class M> static void general2(const M& A, const M& B, std::function<double(int, int)> a, std::function<double(int, int)> b, float s, const char* size)
{
	char nm[40]; snprintf(nm, sizeof nm, "%s general A*B", size); IM<4> z{}; auto prod = [&](const M& G, std::function<double(int, int)> p, std::function<double(int, int)> q) { trans(); for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) { double w = 0, m = 0; for (int k = 0; k < N; k++) { double t = (double)(float)p(r, k) * (double)(float)q(k, c); w += t; m += std::fabs(t); } if (!(std::fabs(G[c][r] - w) <= 4e-7 * m)) { fail(nm, "row %d column %d is %.9g, want %.9g; %s", r, c, G[c][r], w, what); return; } } }; (void)z; (void)s;
	prod(A * B, a, b); { M C = A; C *= B; prod(C, a, b); }
}
static void generalNumbers()
{
	if (!begin("general numbers", true)) return; u64 no = 0; const int K = thorough() ? 26 : 13; static const float S[] = { 0.1f, -3.7f, 1234.5f, 1e-4f, -1, 98765.4f, -7654.3f, 250.5f, -0.002f, 61.7f, -321.5f, 0.9995f, 0 };
	for (int ka = 0; ka < 10; ka++) for (int kb = 0; kb < 10; kb++) for (int k = 0; k < K; k++)
	{
		if (!mine(no++)) continue; next(); states(); trace(); int k2 = kb == ka && k % 4 == 0 ? k : k * 3 + 1; float s = S[(k + ka + kb) % 12]; snprintf(what, sizeof what, "kinds %d %d number %d scalar %g", ka, kb, k, s); auto a = [&](int r, int c) { return gen(ka, k, r, c); }; auto b = [&](int r, int c) { return gen(kb, k2, r, c); };
		float4x4 A4 = fill(float4x4(), 4, 4, a), B4 = fill(float4x4(), 4, 4, b); float3x3 A3 = fill(float3x3(), 3, 3, a), B3 = fill(float3x3(), 3, 3, b); float2x2 A2 = fill(float2x2(), 2, 2, a), B2 = fill(float2x2(), 2, 2, b); float4x3 AH = fill(float4x3(), 3, 4, a), BH = fill(float4x3(), 3, 4, b); f32x4x4 AS(A4), BS(B4);
		general1<4, 4, float4x4, float4>(A4, B4, a, b, s, "4x4"); general1<3, 3, float3x3, float3>(A3, B3, a, b, s, "3x3"); general1<2, 2, float2x2, float2>(A2, B2, a, b, s, "2x2"); general1<4, 3, float4x3, float4>(AH, BH, a, b, s, "4x3"); general1<4, 4, f32x4x4, f32x4>(AS, BS, a, b, s, "SIMD"); general2<4>(A4, B4, a, b, s, "4x4"); general2<3>(A3, B3, a, b, s, "3x3"); general2<2>(A2, B2, a, b, s, "2x2"); general2<4>(AS, BS, a, b, s, "SIMD");
		IM<4> z{}; 
		#define GS(o, N, R, g, ee) expect<4>("s " o, g, [&](int r, int c) { float x = (float)a(r, c); volatile float f = ee; return (double)f; }, z, z, 0, R, N);
		#define GSA(M_, N, R) GS("+", N, R, s + M_, s + x) GS("-", N, R, s - M_, s - x) GS("*", N, R, s * M_, s * x)
		GSA(A4, 4, 4) GSA(A3, 3, 3) GSA(A2, 2, 2) GSA(AH, 4, 3) if (ka < 4 || ka > 6) { GS("/", 4, 4, s / A4, s / x) GS("/", 3, 3, s / A3, s / x) GS("/", 2, 2, s / A2, s / x) GS("/", 4, 3, s / AH, s / x) }
		{ float4 v; for (int r = 0; r < 4; r++) v[r] = (float)b(r, 1); float3 v3(v[0], v[1], v[2]); float2 v2(v[0], v[1]); float4 x4 = v * A4; float3 x3 = v3 * A3; float2 x2 = v2 * A2; trans(3); for (int c = 0; c < 4; c++) for (int n = 2; n <= 4; n++) { if (c >= n) continue; double w = 0, m = 0; for (int j = 0; j < n; j++) { double t = (double)v[j] * (double)(float)a(j, c); w += t; m += std::fabs(t); } double g = n == 4 ? x4[c] : n == 3 ? x3[c] : x2[c]; if (!(std::fabs(g - w) <= 4e-7 * m)) fail("general v*A", "size %d component %d is %.9g, want %.9g; %s", n, c, g, w, what); } }
		{ f32x4x4 G = multiply3x3(AS, BS); trans(2); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { double w = 0, m = 0; for (int j = 0; j < 3; j++) { double t = (double)(float)a(r, j) * (double)(float)b(j, c); w += t; m += std::fabs(t); } if (!(std::fabs(G[c][r] - w) <= 4e-7 * m)) fail("general multiply3x3", "row %d column %d is %.9g, want %.9g; %s", r, c, G[c][r], w, what); f32x4 x = multiply3x3(AS, BS[c]); if (!(std::fabs(x[r] - w) <= 4e-7 * m)) fail("general multiply3x3 v", "component %d is %.9g, want %.9g; %s", r, x[r], w, what); } }
		{ bool e = AS == BS, l = isBinaryLess(AS, BS), g = isBinaryLess(BS, AS); trans(); if (l && g) fail("isBinaryLess", "not antisymmetric: %s", what); if (!e && !l && !g) fail("isBinaryLess", "different matrices unordered: %s", what); }
	}
	bound("general numbers: 10 x 10 kinds of matrices (mixed, one-signed, equal, sparse, diagonal, fractional; elements from 1e-5 to 3e6) x %d, every operator", K);
}
template<class M, int C, int R> static void ownElements(const char* name)
{
	if (!begin(name, false)) return; const int n = 24;
	for (int i = 0; i < n; i++)
	{
		M s; for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) s[c][r] = (float)((c * (i % 5 + 1) + r * (i / 5 + 2) + i) % 7 - 3 ? (c * (i % 5 + 1) + r * (i / 5 + 2) + i) % 7 - 3 : 4); next(); states(); trace(); out(i); snprintf(what, sizeof what, "%s number %d", name, i);
		for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) { auto part = [c, r](M& m) -> float& { return m[c][r]; }; INSIDE(+=) INSIDE(-=) INSIDE(*=) INSIDE(/=) }
		if constexpr (C == R) { auto part = [](M& m) -> M& { return m; }; INSIDE(*=) INSIDE(=) }
	}
	bound("%s: %d matrices x += -= *= /= with each of their elements, and with themselves, as the operand", name, n);
}
static void consts()
{
	if (!begin("constants")) return; next(); states(); trace();
	auto q = [&](const char* n, auto m, double dg, double off, int R, int C) { trans(); for (int c = 0; c < C; c++) for (int r = 0; r < R; r++) { double w = r == c ? dg : off; if (!(m[c][r] == w || (w != w && m[c][r] != m[c][r]))) fail(n, "%s[%d][%d] = %g want %g", n, c, r, (double)m[c][r], w); } };
	q("2x2 identity", float2x2::identity, 1, 0, 2, 2); q("2x2 zero", float2x2::zero, 0, 0, 2, 2); q("2x2 one", float2x2::one, 1, 1, 2, 2); q("2x2 minusOne", float2x2::minusOne, -1, -1, 2, 2); q("3x3 identity", float3x3::identity, 1, 0, 3, 3); q("3x3 zero", float3x3::zero, 0, 0, 3, 3); q("3x3 one", float3x3::one, 1, 1, 3, 3); q("3x3 minusOne", float3x3::minusOne, -1, -1, 3, 3);
	q("4x3 identity", float4x3::identity, 1, 0, 3, 4); q("4x3 zero", float4x3::zero, 0, 0, 3, 4); q("4x3 one", float4x3::one, 1, 1, 3, 4); q("4x3 minusOne", float4x3::minusOne, -1, -1, 3, 4); q("4x4 identity", float4x4::identity, 1, 0, 4, 4); q("4x4 zero", float4x4::zero, 0, 0, 4, 4); q("4x4 one", float4x4::one, 1, 1, 4, 4); q("4x4 minusOne", float4x4::minusOne, -1, -1, 4, 4);
	q("SIMD identity", f32x4x4::identity, 1, 0, 4, 4); q("SIMD zero", f32x4x4::zero, 0, 0, 4, 4); q("SIMD one", f32x4x4::one, 1, 1, 4, 4); q("SIMD minusOne", f32x4x4::minusOne, -1, -1, 4, 4); q("SIMD min", f32x4x4::min, FLT_MIN, FLT_MIN, 4, 4); q("SIMD max", f32x4x4::max, FLT_MAX, FLT_MAX, 4, 4); q("SIMD minusMin", f32x4x4::minusMin, -FLT_MIN, -FLT_MIN, 4, 4); q("SIMD minusMax", f32x4x4::minusMax, -FLT_MAX, -FLT_MAX, 4, 4); q("SIMD epsilon", f32x4x4::epsilon, FLT_EPSILON, FLT_EPSILON, 4, 4); q("SIMD inf", f32x4x4::inf, INFINITY, INFINITY, 4, 4); q("SIMD minusInf", f32x4x4::minusInf, -INFINITY, -INFINITY, 4, 4); q("SIMD nan", f32x4x4::nan, NAN, NAN, 4, 4); q("SIMD splat", f32x4x4(2.5f), 2.5, 2.5, 4, 4); q("4x4 splat", float4x4(2.5f), 2.5, 2.5, 4, 4);
}
static void body() { ownElements<float2x2, 2, 2>("own elements 2x2"); ownElements<float3x3, 3, 3>("own elements 3x3"); ownElements<float4x3, 4, 3>("own elements 4x3"); ownElements<float4x4, 4, 4>("own elements 4x4"); ownElements<f32x4x4, 4, 4>("own elements SIMD"); pairs<2>("products 2x2"); pairs<3>("products 3x3"); pairs<4>("products 4x4"); inverses(); machine(); consts(); anyValues(); scaled<2>("sizes 2x2"); scaled<3>("sizes 3x3"); scaled<4>("sizes 4x4"); generalNumbers(); }
}
VX_MAIN(vx::body)
