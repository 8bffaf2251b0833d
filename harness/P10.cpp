// @configs sse2 avx2
// @thorough_configs sse2 avx2 port neon
// @shards 8
// @technique exhaustive enumeration of all index pairs over exact quadrature, of all rotations of a finite set, and of all combinations of up to three lights of 2^-24 to 2^20 intensity over 26 directions, against the textbook basis in double
// @note Rotations are applied to every basis function, so by linearity to every coefficient vector; deringing is judged for irradiance (cosine-convolved) coefficients, on a sampled-sphere minimum that can only under-report.
// @assume sincWindow is sinc^4, the window the library documents by name
// P10: spherical harmonics.
#include <array>
#include <cassert>
#include "math/sh.hpp"
#include "math/simd/vector/float.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
typedef std::array<double, 9> C9;
static const double A[9] = { M_PI, 2 * M_PI / 3, 2 * M_PI / 3, 2 * M_PI / 3, M_PI / 4, M_PI / 4, M_PI / 4, M_PI / 4, M_PI / 4 };
static int band(int i) { return i == 0 ? 0 : i < 4 ? 1 : 2; }
// real spherical harmonics with the Condon-Shortley phase, textbook constants
static C9 Y(V3 s)
{
	double p = std::sqrt(M_PI), k1 = std::sqrt(3.0) / (2 * p), k2 = std::sqrt(15.0) / (2 * p), k3 = std::sqrt(5.0) / (4 * p);
	return { 1 / (2 * p), -k1 * s.y, k1 * s.z, -k1 * s.x, k2 * s.x * s.y, -k2 * s.y * s.z, k3 * (3 * s.z * s.z - 1), -k2 * s.x * s.z, k2 / 2 * (s.x * s.x - s.y * s.y) };
}
static double dot9(const C9& a, const C9& b) { double s = 0; for (int i = 0; i < 9; i++) s += a[i] * b[i]; return s; }
static std::string str(const C9& a) { std::string s = "["; char b[32]; for (double x : a) { snprintf(b, sizeof b, "%.6g ", x); s += b; } return s + "]"; }
static C9 get(const float* f) { C9 c; for (int i = 0; i < 9; i++) c[i] = f[i]; return c; }
static bool near9(const char* key, const C9& g, const C9& w, double tol, const std::string& in)
{
	trans(); u64 h = 0; bool ok = true; for (int i = 0; i < 9; i++) { h = mix(h, fbits((float)g[i])); ok = ok && std::fabs(g[i] - w[i]) <= tol; } out(h);
	if (!ok) fail(key, "%s, want %s (tolerance %g); %s", str(g).c_str(), str(w).c_str(), tol, in.c_str()); return ok;
}
// the library's basis, normalised by its own constants: ki includes the cosine lobe A_l
static C9 libY(V3 s) { float b[9]; for (auto& x : b) x = 1e9f; math::sh::computeShBasis(float3((float)s.x, (float)s.y, (float)s.z), b); C9 c; for (int i = 0; i < 9; i++) c[i] = (double)b[i] * math::sh::ki[i] / A[i]; return c; }

static void basis()
{
	if (begin("index"))
	{
		bool seen[9] = {}; int n = 0; for (int l = 0; l < math::ibl::shBandCount; l++) for (int m = -l; m <= l; m++)
		{
			next(); states(); trace(); trans(); int i = math::sh::shIndex(m, l); out(i);
			if (i < 0 || i >= math::ibl::shCoeffCount || seen[i] || i != n) fail("index", "shIndex(m=%d, l=%d) = %d, want %d", m, l, i, n); else seen[i] = true; n++;
		}
		if (n != math::ibl::shCoeffCount) fail("index", "%d bands have %d coefficients, not %d", math::ibl::shBandCount, n, math::ibl::shCoeffCount);
		bound("all (band, order) pairs of 3 bands");
	}
	if (begin("values", true))
	{
		auto ds = directions(thorough() ? 9 : 4); u64 n = 0;
		for (auto d : ds) { next(); if (!mine(n++)) continue; states(); trace(); V3 s = unit(d); near9("values", libY(s), Y(s), 2e-6, "basis at " + vx::str(s)); }
		bound("basis values at %zu directions", ds.size());
	}
	if (begin("orthonormal"))
	{
		// Gauss-Legendre with 4 nodes in z and 8 equal angles is exact for products of two degree 2 polynomials
		double z[4] = { 0.3399810435848563, -0.3399810435848563, 0.8611363115940526, -0.8611363115940526 }, w[4] = { 0.6521451548625461, 0.6521451548625461, 0.3478548451374538, 0.3478548451374538 };
		double G[9][9] = {}; for (int a = 0; a < 4; a++) for (int b = 0; b < 8; b++) { double s = std::sqrt(1 - z[a] * z[a]), p = (b + 0.25) * M_PI / 4; C9 y = libY({ s * std::cos(p), s * std::sin(p), z[a] }); trans(); for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) G[i][j] += w[a] * M_PI / 4 * y[i] * y[j]; }
		for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) { next(); states(); trace(); char in[60]; snprintf(in, sizeof in, "integral of basis %d times basis %d", i, j); near1("orthonormal", G[i][j], i == j, 3e-6, in); }
		sample("81 inner products of basis functions, e.g. <0,0> = %.8g, <4,8> = %.3g", G[0][0], G[4][8]); bound("all 81 pairs");
	}
}
static void rotate()
{
	if (!begin("rotation", true)) return;
	auto rs = rotations(thorough() ? 3 : 2); for (auto& q : nearRotations()) rs.push_back(q); auto ds = directions(1); u64 n = 0;
	for (auto q : rs)
	{
		M4 m = rotation(q); float3x3 f; for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) f[c][r] = (float)m[r][c];
		for (int k = 0; k < 9 + (int)ds.size(); k++)
		{
			next(); if (!mine(n++)) continue; states(); trace(); C9 c{}; C9 w{}; char in[200];
			if (k >= 9) { V3 s = unit(ds[k - 9]); c = Y(s); w = Y(apply(m, s)); snprintf(in, sizeof in, "light at %s turned by %s", vx::str(s).c_str(), vx::str(q).c_str()); }
			else
			{
				// basis function k, turned: project g(s) = Y_k(M^-1 s) with exact quadrature
				c[k] = 1; double z[4] = { 0.3399810435848563, -0.3399810435848563, 0.8611363115940526, -0.8611363115940526 }, gw[4] = { 0.6521451548625461, 0.6521451548625461, 0.3478548451374538, 0.3478548451374538 }; M4 inv = transp(m);
				for (int a = 0; a < 4; a++) for (int b = 0; b < 8; b++) { double s = std::sqrt(1 - z[a] * z[a]), p = (b + 0.25) * M_PI / 4; V3 d{ s * std::cos(p), s * std::sin(p), z[a] }; C9 y = Y(d); double v = Y(apply(inv, d))[k]; for (int i = 0; i < 9; i++) w[i] += gw[a] * M_PI / 4 * v * y[i]; }
				snprintf(in, sizeof in, "basis function %d turned by %s", k, vx::str(q).c_str());
			}
			float fc[9], r[9]; for (int i = 0; i < 9; i++) fc[i] = (float)c[i];
			math::sh::rotateSh3Bands(fc, f, r); if (near9("rotation", get(r), w, 2e-6, in)) sample("%s: %s", in, str(get(r)).c_str());
			for (int i = 0; i < 9; i++) if (fc[i] != (float)c[i]) fail("rotation", "rotation changed its input; %s", in);
			math::sh::rotateSh3Bands(fc, f, fc); near9("in-place", get(fc), w, 2e-6, in);
			{ int a = int(n * 7 % 47) - 24, b = int(n * 13 % 47) - 24, e = int(n * 29 % 47) - 24; auto sc = [&](int i) { return std::ldexp(1.0, band(i) == 0 ? a : band(i) == 1 ? b : e); }; for (int i = 0; i < 9; i++) fc[i] = (float)(float(c[i]) * sc(i)); math::sh::rotateSh3Bands(fc, f, r); C9 g = get(r); for (int i = 0; i < 9; i++) g[i] /= sc(i); near9("rotation of any size", g, w, 2e-6, in); }
		}
	}
	bound("%zu rotations (angles 1e-6..0.17 around 0, 90, 120, 180 and 360 degrees included) x (9 basis functions + %zu lights)", rs.size(), ds.size());
}
// intensities: powers of two, so exact and without effect on anything but the size of the result
static const int SIZES[4][3] = { { 0, 0, 0 }, { -16, 0, 10 }, { 20, 20, 20 }, { -24, -24, -24 } };
static double win(int l, double c) { if (l == 0) return 1; if (l >= c) return 0; double x = M_PI * l / c, s = std::sin(x) / x; return s * s * s * s; }
static void window()
{
	if (!begin("window", true)) return;
	u64 n = 0; int N = thorough() ? 4000 : 400;
	for (int k = 1; k <= N; k++)
	{
		next(); if (!mine(n++)) continue; states(); trace(); float cut = k * 16.0f / N; char in[60]; snprintf(in, sizeof in, "cutoff %g", cut);
		for (int l = 0; l < 5; l++) near1("window", math::sh::sincWindow(l, cut), win(l, cut), 2e-6, in);
		for (int i = 0; i < 9; i++) { float f[9] = {}; f[i] = 1 + i; C9 w{}; w[i] = (1 + i) * win(band(i), cut); math::sh::windowing(f, cut); near9("window", get(f), w, 2e-5, in); for (int e : { -30, 14, 30 }) { float h[9]; for (int j = 0; j < 9; j++) h[j] = (float)std::ldexp(j == i ? -1.0 - i : 0.5, e); math::sh::windowing(h, cut); C9 g = get(h), v; for (int j = 0; j < 9; j++) { g[j] = std::ldexp(g[j], -e); v[j] = (j == i ? -1.0 - i : 0.5) * win(band(j), cut); } near9("window of any size", g, v, 2e-5, in); } }
	}
	bound("%d cutoffs in (0,16] x 9 coefficients", N);
}

static std::vector<C9> grid; static std::vector<V3> dirs;
static void mkGrid()
{
	int N = thorough() ? 60 : 30;
	for (int i = 0; i < N; i++) for (int j = 0; j < 2 * N; j++) { double t = (i + .5) * M_PI / N, p = j * M_PI / N; grid.push_back(Y({ std::sin(t) * std::cos(p), std::sin(t) * std::sin(p), std::cos(t) })); }
	for (auto d : directions(1)) { dirs.push_back(unit(d)); grid.push_back(Y(unit(d))); }
}
static double lowest(const C9& c) { double m = 1e300; for (auto& y : grid) m = std::min(m, dot9(c, y)); return m; }
static C9 light(V3 d, bool conv) { C9 y = Y(d); if (conv) for (int i = 0; i < 9; i++) y[i] *= A[i]; return y; }
static C9 add(C9 a, const C9& b, double w) { for (int i = 0; i < 9; i++) a[i] += w * b[i]; return a; }

static void lights()
{
	// every combination of one to three lights
	if (begin("minimum", true))
	{
		u64 n = 0;
		for (int conv = 0; conv < 2; conv++) for (size_t a = 0; a < dirs.size(); a++) for (size_t b = 0; b < dirs.size(); b++) for (double w : { 0.0, 0.5, 1.0 }) for (size_t e = b; e < dirs.size(); e++) for (double v : { 0.0, 0.3, 1.0 })
		{
			if ((w == 0 && (b || v)) || (v == 0 && e != b)) continue; next(); if (!mine(n++)) continue; states(); trace(); trans();
			C9 c = add(add(light(dirs[a], conv), light(dirs[b], conv), w), light(dirs[e], conv), v); double lo = lowest(c) / c[0]; int sz = SIZES[n / 7 % 4][n % 3]; float f[9]; for (int i = 0; i < 9; i++) f[i] = (float)std::ldexp(c[i], sz);
			double s = std::ldexp(math::sh::shmin(f), -sz) / c[0]; out(fbits((float)s)); char in[300]; snprintf(in, sizeof in, "lights %s + %g %s + %g %s, %s, times 2^%d", vx::str(dirs[a]).c_str(), w, vx::str(dirs[b]).c_str(), v, vx::str(dirs[e]).c_str(), conv ? "irradiance" : "radiance", sz);
			if (!(s <= lo + 1e-5)) fail("minimum", "minimum %g (of mean), but the function reaches %g; %s", s, lo, in);
			// symmetric about the dominant direction: the bound is the minimum itself
			if (w == 0 || (a == b && (v == 0 || e == a))) { if (!(s >= lo - 1e-2)) fail("minimum", "minimum %g (of mean), but the function does not go below %g; %s", s, lo, in); }
			sample("%s: library minimum %g, sampled minimum %g", in, s, lo);
		}
		bound("1 to 3 lights over 26 directions, weights 1 / {0,.5,1} / {0,.3,1}, radiance and irradiance; sphere sampled at %zu points", grid.size());
	}
	// constant and zero functions
	if (begin("flat"))
	{
		for (double k : { 0.0, 1.0, -1.0, 0.25 }) { next(); states(); trace(); trans(); float f[9] = { (float)k }; char in[40]; snprintf(in, sizeof in, "constant %g", k); near1("flat", math::sh::shmin(f), k / (2 * std::sqrt(M_PI)), 1e-6, in); }
		bound("4 constants");
	}
	if (begin("deringing", true))
	{
		u64 n = 0; int step = thorough() ? 1 : 2;
		for (size_t a = 0; a < dirs.size(); a++) for (size_t b = 0; b < dirs.size(); b += 1) for (double w : { 0.0, 0.5, 1.0 }) for (size_t e = b; e < dirs.size(); e += step) for (double amb : { 0.0, 0.05, 2.0 }) for (int place = 0; place < 3; place++)
		{
			if (w == 0 && (b || e > 2)) continue; next(); if (!mine(n++)) continue; states(); trace(); trans();
			// the three lights in three channels, in every rotation; one channel may be flat or doubled
			C9 ch[3]; ch[place] = light(dirs[a], true); ch[(place + 1) % 3] = add(light(dirs[a], true), light(dirs[b], true), w); ch[(place + 2) % 3] = add(add(light(dirs[a], true), light(dirs[b], true), w), light(dirs[e], true), 1);
			for (auto& c : ch) c[0] += amb; if (w == 0 && e == 1) ch[(place + 1) % 3] = C9{ 3.0 }; if (w == 0 && e == 2) ch[(place + 2) % 3] = C9{};
			const int* sz = SIZES[n / 7 % 4]; f32x4 s[9]; for (int i = 0; i < 9; i++) s[i] = f32x4((float)std::ldexp(ch[0][i], sz[0]), (float)std::ldexp(ch[1][i], sz[1]), (float)std::ldexp(ch[2][i], sz[2]), 0); char in[330]; snprintf(in, sizeof in, "channels times 2^(%d, %d, %d); channel %d: light %s; then + %g %s; then + %s; ambient %g", sz[0], sz[1], sz[2], place, vx::str(dirs[a]).c_str(), w, vx::str(dirs[b]).c_str(), vx::str(dirs[e]).c_str(), amb);
			math::sh::deringingSH(s); C9 r[3]; for (int i = 0; i < 9; i++) { r[0][i] = std::ldexp(s[i].getX(), -sz[0]); r[1][i] = std::ldexp(s[i].getY(), -sz[1]); r[2][i] = std::ldexp(s[i].getZ(), -sz[2]); }
			u64 h = 0; for (auto& c : r) for (double x : c) h = mix(h, fbits((float)x)); out(h);
			// the window: one factor per band, common to all channels, of the sinc family
			double num[3] = {}, den[3] = {}; for (int k = 0; k < 3; k++) for (int i = 0; i < 9; i++) { num[band(i)] += r[k][i] * ch[k][i]; den[band(i)] += ch[k][i] * ch[k][i]; }
			double f1 = num[1] / den[1], f2 = num[2] / den[2]; bool ok = true; for (int k = 0; k < 3; k++) for (int i = 0; i < 9; i++) { double f = band(i) == 0 ? 1 : band(i) == 1 ? f1 : f2; if (!(std::fabs(r[k][i] - f * ch[k][i]) <= 5e-6 * (1 + std::fabs(ch[k][i])))) ok = false; }
			if (!ok) { fail("band-factors", "the result is not the input scaled by one factor per band (%g, %g): %s %s %s; %s", f1, f2, str(r[0]).c_str(), str(r[1]).c_str(), str(r[2]).c_str(), in); continue; }
			double lo = 2, hi = 14; for (int k = 0; k < 60; k++) { double m = (lo + hi) / 2; (win(1, m) < f1 ? lo : hi) = m; } double cut = lo;
			if (std::fabs(win(2, cut) - f2) > 2e-4 || cut < 2.9 || cut > 13.1) { fail("band-factors", "factors %g, %g do not belong to a window with cutoff in 3..13 (%g); %s", f1, f2, cut, in); continue; }
			double room = 1e300; for (int k = 0; k < 3; k++) { if (ch[k][0] == 0) continue; double l = lowest(r[k]) / ch[k][0]; if (!(l >= -2e-6)) fail("negative", "channel %d still reaches %g of its mean after deringing with cutoff %g; %s", k, l, cut, in); room = std::min(room, l); }
			// no blurring beyond need: judged where the minimum is exact (every channel symmetric about its own light)
			if (w == 0 && e && cut < 12.6) { bool neg = false; for (int k = 0; k < 3; k++) { C9 t = ch[k]; for (int i = 0; i < 9; i++) t[i] *= win(band(i), cut + 0.4); neg = neg || lowest(t) < 0; } if (e == 2 && !neg) fail("too-soft", "cutoff %g, but no channel is negative with cutoff %g; %s", cut, cut + 0.4, in); }
			sample("%s: cutoff %.3f, lowest value %.4g of the mean", in, cut, room);
		}
		bound("26 x 26 x 26 light combinations (every %d. third light) x 3 strengths x 3 ambients x 3 channel orders", step);
	}
	if (begin("shader-form", true))
	{
		// the form shaders evaluate: a polynomial in the direction with the basis constants folded in
		u64 n = 0; auto ds = directions(2);
		for (int i = 0; i < 9; i++) for (auto d : ds) { next(); if (!mine(n++)) continue; states(); trace(); V3 s = unit(d); f32x4 c[9]; for (auto& x : c) x = f32x4(0.0f); c[i] = f32x4(1, 2, -4, 8); math::sh::shaderPreprocessSH(c); double p[9] = { 1, s.y, s.z, s.x, s.x * s.y, s.y * s.z, 3 * s.z * s.z - 1, s.x * s.z, s.x * s.x - s.y * s.y }; double q[4] = { 1, 2, -4, 8 }; for (int k = 0; k < 4; k++) { double g = 0; for (int j = 0; j < 9; j++) g += p[j] * c[j][k]; { int e = int(n % 5) * 12 - 24; f32x4 c2[9]; for (auto& x : c2) x = f32x4(0.0f); c2[i] = f32x4(1, 2, -4, 8) * std::ldexp(1.f, e); math::sh::shaderPreprocessSH(c2); for (int j = 0; j < 9; j++) if (!(std::fabs(std::ldexp(c2[j][k], -e) - c[j][k]) <= 1e-6)) fail("shader-form of any size", "coefficient %d times 2^%d, lane %d: %.9g, times one %.9g", j, e, k, std::ldexp(c2[j][k], -e), (double)c[j][k]); } char in[100]; snprintf(in, sizeof in, "coefficient %d, lane %d, direction %s", i, k, vx::str(s).c_str()); near1("shader-form", g, q[k] * Y(s)[i] / M_PI, 4e-6, in); } }
		bound("9 coefficients x %zu directions x 4 lanes", ds.size());
	}
}
static void body() { mkGrid(); basis(); rotate(); window(); lights(); }
}
VX_MAIN(vx::body)
