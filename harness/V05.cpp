// @configs sse2 avx2 port neon
// @thorough_configs sse2 sse41 avx2 port neon
// @shards 8
// @technique exhaustive enumeration of float bit patterns (thorough: all 2^32) through the real exp/log/sinCos code, and of operand grids through pow/fastPow and the scalar wrappers, against the libm double function
// @note Quick covers every sign/exponent/top-mantissa prefix with boundary tails; thorough every float. The error bounds are twice what the reference algorithms achieve. sinCos is judged for |x| <= 65536 (its three-part reduction), fastPow for positive bases and negative bases with integer exponents. Trusts libm's double functions.
// V05: exp, log, pow, fastPow, sinCos and the scalar transcendental wrappers.
#include "vx.hpp"
#include "alias.hpp"
#include <cassert>
#include <cfloat>
#include "math/simd/vector/float.hpp"
using namespace math;
namespace vx
{
static bool okLog(float x, float g)
{
	if (x != x || x < 0) return g != g; if (x == 0) return g == -INFINITY; if (std::isinf(x)) return g == INFINITY;
	double r = std::log((double)x); return std::fabs(g - r) <= 5e-7 * std::fabs(r) + 1e-30;
}
static bool okExp(float x, float g)
{
	if (x != x) return g != g; double r = std::exp((double)x);
	if (r > FLT_MAX * (1 + 2e-7)) return g == INFINITY; if (r > FLT_MAX * (1 - 2e-7)) return g > FLT_MAX * 0.999f; if (r < FLT_MIN) return g >= 0 && std::fabs(g - r) <= 3e-45 + 2e-7 * r; return std::fabs(g - r) <= 2e-7 * r;
}
static void one(const float* a)
{
	f32x4 v(a[0], a[1], a[2], a[3]), l = math::log(v), e = math::exp(v), s, c; sinCos(v, s, c);
	for (int k = 0; k < 4; k++)
	{
		if (!okLog(a[k], l[k])) fail("log", "log lane %d of %.9g (%08x): got %.9g want %.9g", k, a[k], fbits(a[k]), l[k], std::log((double)a[k]));
		if (!okExp(a[k], e[k])) fail("exp", "exp lane %d of %.9g (%08x): got %.9g want %.9g", k, a[k], fbits(a[k]), e[k], std::exp((double)a[k]));
		if (std::fabs(a[k]) <= 65536) { double x = a[k], tol = std::fabs(x) <= 8192 ? 2e-7 : 2e-6; if (!(std::fabs(s[k] - std::sin(x)) <= tol)) fail("sin", "sin lane %d of %.9g: got %.9g want %.9g", k, x, s[k], std::sin(x)); if (!(std::fabs(c[k] - std::cos(x)) <= tol)) fail("cos", "cos lane %d of %.9g: got %.9g want %.9g", k, x, c[k], std::cos(x)); }
	}
}
// lanes hold four patterns of different sign/exponent, so that special values sit next to ordinary ones
static void patterns()
{
	if (!begin("float patterns", true)) return; std::vector<u32> t;
	if (thorough()) bound("all 2^32 float patterns for log, exp, sinCos");
	else { std::set<u32> tl; for (int i = 0; i < 16; i += 3) for (int d = -1; d <= 1; d += 2) { tl.insert(((1u << i) + d) & 0xFFFF); tl.insert((0xFFFF - (1u << i) + d) & 0xFFFF); } tl.insert(0); t.assign(tl.begin(), tl.end()); bound("all 2^16 sign/exponent/mantissa prefixes with %zu boundary tails for log, exp, sinCos", t.size()); }
	for (u32 b = 0; b < 16384; b++)
	{
		if (!mine(b)) continue; next(); u32 n = t.empty() ? 65536 : (u32)t.size(); states(n * 4); trace(n * 4); trans(n * 16);
		for (u32 i = 0; i < n; i++) { u32 x = b << 16 | (t.empty() ? i : t[i]); float a[4]; for (int k = 0; k < 4; k++) a[k] = bitsf(x | (u32)((k + b) & 3) << 30); one(a); if (i == 3 && b == 0x3000) sample("log/exp/sinCos of %g %g %g %g", a[0], a[1], a[2], a[3]); }
	}
}
// every quadrant boundary and every power-of-e / power-of-two rounding boundary
static void edges()
{
	if (!begin("boundaries", true)) return; const float sp[] = { 0.f, -0.f, INFINITY, -INFINITY, NAN, 1.f, -1.f, FLT_MAX, -FLT_MAX, FLT_MIN, bitsf(1), 88.722839f, -87.336545f, -103.97208f, 104.f, -104.f, 0.75f, 1.5f }; const int S_ = 18;
	for (int q = -5300; q <= 5300; q++)
	{
		if (!mine(q + 5300)) continue; next(); double cs[3] = { q * (M_PI / 4), q * (M_LN2 / 2) / 16, std::exp2(q / 44.0) };
		for (double c : cs) for (int d = -4; d <= 4; d++) { float x = (float)c; for (int i = 0; i < std::abs(d); i++) x = std::nextafter(x, d > 0 ? INFINITY : -INFINITY); float a[4] = { x, sp[(q + 5300) % S_], -x, sp[(q + 5300 + d + 4) % S_] }; if (d & 1) std::swap(a[0], a[1]); if (d & 2) std::swap(a[2], a[3]); states(4); trace(4); trans(16); one(a); }
	}
	for (int i = 0; i < S_; i++) for (int j = 0; j < S_; j++) { if (!mine(i)) continue; next(); states(4); trace(4); trans(16); float a[4] = { sp[i], sp[j], sp[(i + j) % S_], 0.5f }; one(a); float b[4] = { 0.5f, sp[(i * 5 + j) % S_], sp[j], sp[i] }; one(b); }
	bound("+-4 floats around every multiple of pi/4 up to 4160, every ln2/32 and 2^(k/44) step; all special-value pairs");
}
static void pows()
{
	if (!begin("pow", true)) return; const int N = thorough() ? 400 : 120;
	for (int i = 0; i < N; i++)
	{
		if (!mine(i)) continue;
		for (int j = 0; j < N; j++)
		{
			next(); states(); trace(); trans(4); float b = (float)std::exp2((i - N / 2) * (24.0 / N)), e = (j - N / 2) * (16.f / N), b2 = 1 + i * 0.03125f, e2 = (j % 17) - 8.f;
			f32x4 B(b, b2, -b2, b), E(e, e2, e2, -e), p = math::pow(B, E), f = fastPow(B, E); float4 q = math::pow(float4(b, b2, -b2, b), float4(e, e2, e2, -e));
			for (int k = 0; k < 4; k++)
			{
				double r = std::pow((double)B[k], (double)E[k]), tol = std::fabs(r) * (5e-7 + 2.5e-7 * std::fabs(E[k] * std::log(std::fabs((double)B[k])))); if (!(std::fabs(p[k] - r) <= std::fabs(r) * 2e-7)) fail("pow", "pow lane %d (%.9g, %.9g): got %.9g want %.9g", k, B[k], E[k], p[k], r); if (!(std::fabs(q[k] - r) <= std::fabs(r) * 2e-7)) fail("pow4", "pow component %d (%.9g, %.9g): got %.9g want %.9g", k, B[k], E[k], q[k], r);
				if (!(std::fabs(f[k] - r) <= tol)) fail("fastPow", "fastPow lane %d (%.9g, %.9g): got %.9g want %.9g", k, B[k], E[k], f[k], r);
			}
		}
	}
	for (int j = 0; j < 40; j++) { if (!mine(j)) continue; next(); states(); trace(); trans(2); float e = j * 0.25f, b = j % 2 ? 2.5f : -3.f; f32x4 f = fastPow(f32x4(0.f, b, 0.f, 1.f), f32x4(e, 0.f, 0.f, e)); if (f[0] != (e == 0 ? 1.f : 0.f) || f[1] != 1 || f[2] != 1 || f[3] != 1) fail("fastPow special", "0^%g, %g^0, 0^0, 1^%g: %g %g %g %g", e, b, e, f[0], f[1], f[2], f[3]); }
	for (int k = 1; k <= 24; k++) for (int d = -2; d <= 1; d++) for (int sg = -1; sg <= 1; sg += 2) { if (!mine(k)) continue; float e = (float)sg * (float)((1 << k) + d); if (e == 0) continue; next(); states(); trace(); trans(2); float want = (int)e & 1 ? -1.f : 1.f; f32x4 f = fastPow(f32x4(-1, 1, -1, -1), f32x4(e, e, -e, 3)); if (f[0] != want || f[1] != 1 || f[2] != want || f[3] != -1) fail("fastPow parity", "(-1)^%.9g, 1^%.9g, (-1)^%.9g, (-1)^3: %g %g %g %g", e, e, -e, f[0], f[1], f[2], f[3]); }
	bound("pow/fastPow: %d x %d grid of bases 2^-12..2^12 and exponents -8..8, integer exponents with negative bases (up to 2^24 for -1), zero and one", N, N);
}
// every combination of value classes in the four lanes: a shortcut taken for all lanes at once must be right in each
static void combos()
{
	if (begin("lane combinations", true))
	{
		std::vector<float> L{ 0, -0.0f, 1e-40f, 1e-10f, -1e-5f, 1e-3f, -0.2f, 0.3f, 0.7072f, 0.7853982f, 0.999999f, 1, 1.0001f, 1.48f, -1.5f, 2, 3.1415927f, 10, -40, 87, -88, 100, -101, 1000, -4000, 1e30f, INFINITY, -INFINITY, NAN }; if (!thorough()) for (float v : { 1e-3f, 1.0001f, -88.0f, 1000.0f, 100.0f, 0.7853982f }) L.erase(std::find(L.begin(), L.end(), v)); u64 n = 0; float a[4];
		for (float w : L) for (float x : L) { if (!mine(n++)) continue; for (float y : L) for (float z : L) { next(); states(); trans(4); a[0] = w; a[1] = x; a[2] = y; a[3] = z; one(a); } trace(); }
		bound("lane combinations: log, exp, sinCos of all %zu^4 vectors", L.size());
	}
	if (begin("pow combinations", true))
	{
		static const float Bs[] = { 0, 1e-40f, 1e-30f, 1e-5f, 0.3f, 0.999f, 0.9999999f, 1, 1.0000001f, 1.001f, 2, 10, 1e5f, 1e30f, -2, -1, -0.37f, -3e6f }, Es[] = { 0, 1, 2, 3, -1, -2, 0.5f, 0.4166667f, 2.4f, 2.2f, 1.0001f, 0.9999f, 1e-6f, -0.5f, 5, -0.33f }; const int NB = 18, NE = 16; u64 n = 0; int st = thorough() ? 1 : 5;
		auto chk = [&](const float* b, const float* e)
		{
			next(); states(); trans(3); f32x4 B(b[0], b[1], b[2], b[3]), E(e[0], e[1], e[2], e[3]), p = math::pow(B, E), f = fastPow(B, E); float4 q = math::pow(float4(b[0], b[1], b[2], b[3]), float4(e[0], e[1], e[2], e[3]));
			for (int k = 0; k < 4; k++)
			{
				double r = std::pow((double)b[k], (double)e[k]); auto tiny = [&](double v, double tol) { if (r != r) return v != v; if (r > 3.402e38) return v > 3.4e38; if (r < -3.402e38) return v < -3.4e38; return std::fabs(v - r) <= std::fabs(r) * tol + 2e-45; };
				if (!tiny(p[k], 2e-7)) { fail("pow", "pow lane %d (%.9g, %.9g): got %.9g want %.9g", k, b[k], e[k], p[k], r); break; } if (!tiny(q[k], 2e-7)) { fail("pow4", "pow component %d (%.9g, %.9g): got %.9g want %.9g", k, b[k], e[k], q[k], r); break; }
				bool ig = e[k] == std::floor(e[k]); if (b[k] < 0 && !ig) continue; if (std::fabs(r) > 3e38) continue; double l = b[k] == 0 ? 0 : std::fabs(e[k] * std::log(std::fabs((double)b[k]))); if (!(std::fabs(f[k] - r) <= std::fabs(r) * (5e-7 + 2.5e-7 * l) + (std::fabs(r) < 1e-37 ? 1e-42 : 0))) { fail("fastPow", "fastPow lane %d (%.9g, %.9g): got %.9g want %.9g", k, b[k], e[k], f[k], r); break; }
			}
		};
		for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { if (!mine(n++)) continue; trace(); for (int k = 0; k < NB; k++) for (int l = (i + j + k) % st; l < NB; l += st) for (int m = 0; m < NE; m++) { float b[4] = { Bs[i], Bs[j], Bs[k], Bs[l] }, e[4] = { Es[m], Es[m], Es[m], Es[m] }; chk(b, e); for (int z = 1; z < 4; z++) e[z] = Es[(m + z * (i + 1) + k) % NE]; chk(b, e); } }
		for (int i = 0; i < NE; i++) for (int j = 0; j < NE; j++) { if (!mine(n++)) continue; trace(); for (int k = 0; k < NE; k++) for (int l = (i + j + k) % st; l < NE; l += st) for (int m = 0; m < NB; m++) { float e[4] = { Es[i], Es[j], Es[k], Es[l] }, b[4] = { Bs[m], Bs[m], Bs[m], Bs[m] }; chk(b, e); } }
		bound("pow combinations: %d^3 x %d vectors of bases with one and with mixed exponents (16 values), 16^3 x %d vectors of exponents with one base", NB, (NB + st - 1) / st, (NE + st - 1) / st);
	}
}
// scalar wrappers: every component is the standard function of that component
template<class V, int N, class F, class G> static void wrap(const char* nm, F f, G g, const std::vector<float>& al)
{
	int K = (int)al.size();
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (int d = 0; d < 3; d++)
	{
		next(); states(); trace(); trans(); V v; float x[4]; for (int k = 0; k < N; k++) { x[k] = al[(i + (k ? j + k * (d + 1) : 0)) % K]; v[k] = x[k]; } V r = f(v);
		for (int k = 0; k < N; k++) { float w = g(x[k]); if (!(vx::same(r[k], w) || std::fabs((double)r[k] - w) <= 2.5e-7 * std::fabs((double)w))) fail(nm, "%s (%d components) component %d of %.9g: got %.9g want %.9g", nm, N, k, x[k], r[k], w); }
	}
}
static void wrappers()
{
	if (!begin("scalar wrappers")) return; std::vector<float> al = { 0.f, 0.25f, 0.5f, 1.f, 1.5f, 2.f, 3.7f, -0.3f, -1.f, -2.25f, 10.f, 0.99f, -0.001f };
	#define W1(n) { auto g = [](float x) { return (float)std::n(x); }; wrap<float2, 2>(#n, [](float2 v) { return math::n(v); }, g, al); wrap<float3, 3>(#n, [](float3 v) { return math::n(v); }, g, al); wrap<float4, 4>(#n, [](float4 v) { return math::n(v); }, g, al); }
	W1(exp) W1(exp2) W1(expm1) W1(log) W1(log10) W1(log2) W1(log1p) W1(cbrt) W1(sin) W1(cos) W1(tan) W1(asin) W1(acos) W1(atan) W1(sinh) W1(cosh) W1(tanh) W1(asinh) W1(acosh) W1(atanh) W1(sqrt)
	int K = (int)al.size();
	for (int i = 0; i < K * K; i++) for (int d = 0; d < K; d++)
	{
		next(); states(); trace(); trans(6); float a[4], b[4]; for (int k = 0; k < 4; k++) { a[k] = al[(i + k * (d + 1)) % K]; b[k] = al[(i / K + k * d) % K]; }
		float4 t4 = math::atan(float4(a[0], a[1], a[2], a[3]), float4(b[0], b[1], b[2], b[3])), p4 = math::pow(float4(a[0], a[1], a[2], a[3]), float4(b[0], b[1], b[2], b[3])); float3 t3 = math::atan(float3(a[0], a[1], a[2]), float3(b[0], b[1], b[2])), p3 = math::pow(float3(a[0], a[1], a[2]), float3(b[0], b[1], b[2])); float2 t2 = math::atan(float2(a[0], a[1]), float2(b[0], b[1])), p2 = math::pow(float2(a[0], a[1]), float2(b[0], b[1]));
		for (int k = 0; k < 4; k++) { float w = std::atan2(a[k], b[k]), p = std::pow(a[k], b[k]); auto cmp = [&](const char* n, float g, float want) { if (!(vx::same(g, want) || std::fabs((double)g - want) <= 2.5e-7 * std::fabs((double)want))) fail(n, "%s component %d of (%.9g, %.9g): got %.9g want %.9g", n, k, a[k], b[k], g, want); }; cmp("atan2 4", t4[k], w); cmp("pow 4", p4[k], p); if (k < 3) { cmp("atan2 3", t3[k], w); cmp("pow 3", p3[k], p); } if (k < 2) { cmp("atan2 2", t2[k], w); cmp("pow 2", p2[k], p); } }
	}
	bound("21 unary wrappers and atan/pow pairs on all letter pairs of 13 values in each component, widths 2-4");
}
static void sinCosOwn() // the angles in one of the results' places
{
	if (!begin("sinCos in place", false)) return;
	for (int i = -400; i <= 400; i++) { float x = i * 0.37f; f32x4 v(x, x * 0.5f, -x, x + 1), s, c, a = v, b = v, t; next(); states(); trace(); trans(3); out(fbits(x)); sinCos(v, s, c); sinCos(a, a, t); auto same = [&](f32x4 p, f32x4 q) { for (int k = 0; k < 4; k++) if (!(p[k] == q[k])) return false; return true; }; if (!same(a, s) || !same(t, c)) fail("sinCos", "sinCos(x, x, c) differs from sinCos(x, s, c) near %.9g", x); sinCos(b, t, b); if (!same(t, s) || !same(b, c)) fail("sinCos", "sinCos(x, s, x) differs from sinCos(x, s, c) near %.9g", x); }
	bound("sinCos in place: 801 angle vectors, the angles stored where either result goes");
}
static void body() { sinCosOwn(); patterns(); edges(); pows(); combos(); wrappers(); }
}
VX_MAIN(vx::body)
