// @configs sse2 avx2 dbg
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of all channel values, of dense float sets around every rounding boundary (thorough: every float of [0,1]) and of all setter sequences to a depth, on the real code against integer arithmetic
// @note A colour from six hex digits or from fewer components has zero in the channels that were not given. Inputs within 2e-5 of a half-way point between two codes may round either way. NaN is not judged.
// P01: 8-bit colours.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/color.hpp"
#include "vx.hpp"
using namespace math;
namespace vx
{
static int ch(const Color& c, int i) { return i == 0 ? c.r : i == 1 ? c.g : i == 2 ? c.b : c.a; }
static void set(Color& c, int i, float v) { if (i == 0) c.setNormR(v); else if (i == 1) c.setNormG(v); else if (i == 2) c.setNormB(v); else c.setNormA(v); }
static float get(const Color& c, int i) { return i == 0 ? c.getNormR() : i == 1 ? c.getNormG() : i == 2 ? c.getNormB() : c.getNormA(); }
static bool eq(Color a, Color b) { return a.r == b.r && a.g == b.g && a.b == b.b && a.a == b.a; }
static bool accept(double v, int got) { double x = v < 0 ? 0 : v > 1 ? 255 : v * 255; double lo = std::floor(x + 0.5 - 2e-5 * 1), hi = std::floor(x + 0.5 + 2e-5); return got >= lo && got <= hi; }
static std::string hex(std::initializer_list<int> v) { std::string r; char b[4]; for (int x : v) { snprintf(b, 4, "%02X", x); r += b; } return r; }
static void colour(int r, int g, int b, int a)
{
	next(); states(); trace(); trans(10); Color c(r, g, b, a); char d[64]; snprintf(d, sizeof d, "(%d,%d,%d,%d)", r, g, b, a);
	if (c.r != r || c.g != g || c.b != b || c.a != a) fail("constructor", "%s", d);
	u32 u = (uint32)c; if (u != ((u32)r | g << 8 | b << 16 | (u32)a << 24) || !eq(Color((uint32)u), c)) fail("integer", "%s packs to %08x", d, u);
	float4 f = (float4)c; f32x4 s = (f32x4)c; float3 f3 = (float3)c; float2 f2 = (float2)c; float q[4] = { f.x, f.y, f.z, f.w }; int w[4] = { r, g, b, a };
	for (int i = 0; i < 4; i++) { double e = w[i] / 255.0; if (std::fabs(q[i] - e) > 1e-7 || std::fabs(s[i] - e) > 1e-7 || std::fabs(get(c, i) - e) > 1e-7) { fail("to float", "%s channel %d: %.9g, SIMD %.9g, getNorm %.9g, want %.9g", d, i, q[i], s[i], get(c, i), e); break; } Color t(9, 8, 7, 6); set(t, i, get(c, i)); if (ch(t, i) != w[i]) fail("set(get)", "channel %d of %s becomes %d", i, d, ch(t, i)); }
	if (f3.x != f.x || f3.y != f.y || f3.z != f.z || f2.x != f.x || f2.y != f.y) fail("to float", "%s: float2/3/4 differ", d);
	if (!eq(Color(f), c) || !eq(Color(s), c)) fail("float round trip", "%s via float4 or f32x4", d); if (!eq(Color(f3), Color(r, g, b, 0)) || !eq(Color(f2), Color(r, g, 0, 0))) fail("float round trip", "%s via float3 or float2", d);
	std::string h4 = c.toHex4(), h3 = c.toHex3(); if (h4 != hex({ r, g, b, a }) || h3 != hex({ r, g, b })) fail("hex", "%s gives %s and %s", d, h4.c_str(), h3.c_str()); if (!eq(Color(h4), c) || !eq(Color(h3), Color(r, g, b, 0))) fail("hex round trip", "%s", d); for (auto& x : h4) x = tolower(x); if (!eq(Color(h4), c)) fail("hex round trip", "%s lower case", d);
	char t[64]; snprintf(t, 64, "%d %d %d %d", r, g, b, a); bool ok = c.toString4() == t; snprintf(t, 64, "%d %d %d", r, g, b); ok &= c.toString3() == t; snprintf(t, 64, "%d %d", r, g); ok &= c.toString2() == t; snprintf(t, 64, "%d", r); ok &= c.toString1() == t; if (!ok) fail("text", "%s", d);
	Color l = Color::fromLinear(c.toLinear()); if (!eq(l, c)) fail("linear round trip", "%s becomes (%d,%d,%d,%d)", d, l.r, l.g, l.b, l.a);
	if (r == g && g == b && b == a && !eq(Color((uint8)r), c)) fail("constructor", "from one value %d", r); out(u);
}
static void norm(u32 bits)
{
	next(); trans(8); float v = bitsf(bits); if (!(bits & 1023)) states();
	for (int i = 0; i < 4; i++)
	{
		Color c(11, 22, 33, 44); set(c, i, v); for (int k = 0; k < 4; k++) if (k == i ? !accept(v, ch(c, k)) : ch(c, k) != 11 * (k + 1)) { fail("setNorm", "channel %d to %.9g gives (%d,%d,%d,%d)", i, v, c.r, c.g, c.b, c.a); return; }
		float q[4] = { 0.25f, 0.5f, 0.75f, 1 }; q[i] = v; Color e(float4(q[0], q[1], q[2], q[3])), s(f32x4(q[0], q[1], q[2], q[3])); Color t(float3(q[0], q[1], q[2])), w(float2(q[0], q[1]));
		for (int k = 0; k < 4; k++) if (!accept(q[k], ch(e, k)) || !accept(q[k], ch(s, k)) || (k < 3 && !accept(q[k], ch(t, k))) || (k < 2 && !accept(q[k], ch(w, k)))) { fail("from float", "(%.9g,%.9g,%.9g,%.9g): float4 %d SIMD %d float3 %d float2 %d in channel %d", q[0], q[1], q[2], q[3], ch(e, k), ch(s, k), ch(t, k), ch(w, k), k); return; } if (t.a || w.a || w.b) fail("from float", "missing components are not zero");
	}
}
static void body()
{
	bool T = thorough(); static const int O[][3] = { { 0, 0, 0 }, { 255, 255, 255 }, { 1, 127, 254 } };
	if (begin("all colours of a lattice", true)) { u64 c = 0; for (int i = 0; i < 4; i++) for (int v = 0; v < 256; v++) for (auto& o : O) { if (!mine(c++)) continue; int q[4]; for (int k = 0, z = 0; k < 4; k++) q[k] = k == i ? v : o[z++]; colour(q[0], q[1], q[2], q[3]); } std::vector<int> L; for (int v = 0; v < 256; v += T ? 15 : 51) { L.push_back(v); if (T && v) L.push_back(v - 7); } for (int r : L) for (int g : L) for (int b : L) for (int a : L) if (mine(c++)) colour(r, g, b, a); sample("colour (1,127,254,200): float, hex, integer and linear round trips"); bound("all colours of a lattice: every value of every channel beside three fills, and %zu^4 colours", L.size()); }
	if (begin("normalised values", true)) { u64 c = 0; for (int k = 0; k <= 255; k++) for (int h = 0; h < 2; h++) { u32 m = fbits((k + h * 0.5f) / 255.0f); for (int d = -300; d <= 300; d++) { if (d < 0 && m < (u32)-d) continue; if (mine(c++)) norm(m + d); } } static const float X[] = { -0.0f, -1e-30f, -0.5f, -1, -1e30f, 1, 1.0000001f, 1.5f, 255, 256, 1e10f, 3e38f, 1e-40f, HUGE_VALF, -HUGE_VALF }; for (float x : X) if (mine(c++)) norm(fbits(x)); u32 step = T ? 97 : 9973; for (u32 b = 0; b <= 0x3f800000u; b += step) if (mine(c++)) norm(b); sample("setNormG(0.50196081)"); bound("normalised values: 601 floats around every code and every half-way point, every %u-th float of [0,1], values outside", step); }
	if (T && strcmp(VX_CONFIG, "dbg") && begin("every float of the unit interval", true)) { u64 n = 0; for (u32 b = S().shard; b <= 0x3f800000u; b += S().nshards) { float v = bitsf(b); Color c(11, 22, 33, 44); c.setNormR(v); Color s{ f32x4(v) }; if (!(b & 0xfffff) || !accept(v, c.r) || !accept(v, s.g)) { idx = b; if (!accept(v, c.r)) fail("setNorm", "%.9g gives %d", v, c.r); if (!accept(v, s.g)) fail("from float", "SIMD %.9g gives %d", v, s.g); beat = beat + 1; } n++; } g->cases += n; trans(2 * n); bound("every float of the unit interval: all 2^30 bit patterns through setNormR and Color(f32x4)"); }
	if (begin("comparisons", true)) { static const int V[] = { 0, 1, 127, 128, 255 }; std::vector<Color> cs; for (int r : V) for (int g : V) for (int b : V) for (int a : V) cs.push_back(Color(r, g, b, a)); u64 c = 0; for (auto& x : cs) { if (!mine(c++)) continue; for (auto& y : cs) { next(); trans(7); int lt = 1, gt = 1, le = 1, ge = 1, e = 1; for (int i = 0; i < 4; i++) { int p = ch(x, i), q = ch(y, i); lt &= p < q; gt &= p > q; le &= p <= q; ge &= p >= q; e &= p == q; } if ((x == y) != e || (x != y) == e || (x < y) != lt || (x > y) != gt || (x <= y) != le || (x >= y) != ge) fail("comparison", "(%d,%d,%d,%d) with (%d,%d,%d,%d)", x.r, x.g, x.b, x.a, y.r, y.g, y.b, y.a); if (isBinaryLess(x, y) != ((uint32)x < (uint32)y)) fail("isBinaryLess", "%08x %08x", (uint32)x, (uint32)y); } for (int v : V) { next(); trans(12); Color y((uint8)v); uint8 n = v; states(); if ((x == n) != (x == y) || (x != n) != (x != y) || (x < n) != (x < y) || (x > n) != (x > y) || (x <= n) != (x <= y) || (x >= n) != (x >= y) || (n == x) != (y == x) || (n != x) != (y != x) || (n < x) != (y < x) || (n > x) != (y > x) || (n <= x) != (y <= x) || (n >= x) != (y >= x)) fail("comparison", "(%d,%d,%d,%d) with the number %d", x.r, x.g, x.b, x.a, v); } } bound("comparisons: all pairs of %zu colours, and each with 5 numbers", cs.size()); }
	if (begin("setter sequences", true)) { static const float V[] = { 0, 1.0f / 255, 0.3f, 1, 2, -1 }; static const int W[] = { 0, 1, 77, 255, 255, 0 }; int D = T ? 4 : 3; u64 c = 0; for (int len = 1; len <= D; len++) { std::vector<int> d(len, 0); while (true) { if (mine(c++)) { next(); states(); trace(); Color x(3, 5, 7, 9); int m[4] = { 3, 5, 7, 9 }; for (int o : d) { trans(); int i = o / 6, k = o % 6; set(x, i, V[k]); m[i] = W[k]; } for (int i = 0; i < 4; i++) if (ch(x, i) != m[i]) { std::string t; for (int o : d) { char b[32]; snprintf(b, 32, "set%c(%g) ", "RGBA"[o / 6], V[o % 6]); t += b; } fail("setter sequence", "%s: channel %d is %d, want %d", t.c_str(), i, ch(x, i), m[i]); break; } } int i = len - 1; while (i >= 0 && ++d[i] == 24) d[i--] = 0; if (i < 0) break; } } bound("setter sequences: all sequences of up to %d setters from 24", D); }
	if (begin("constants")) { next(); states(); trace(); struct { Color c; u32 v; } K[] = { { Color::white, 0xffffffff }, { Color::black, 0xff000000 }, { Color::transparent, 0 }, { Color::red, 0xff0000ff }, { Color::green, 0xff00ff00 }, { Color::blue, 0xffff0000 }, { Color::cyan, 0xffffff00 }, { Color::magenta, 0xffff00ff }, { Color::yellow, 0xff00ffff } }; for (auto& k : K) if ((uint32)k.c != k.v) fail("constant", "%08x is %08x", k.v, (uint32)k.c); if (Color::grey.r != Color::grey.g || Color::grey.g != Color::grey.b || Color::grey.a != 255) fail("constant", "grey"); if ((uint32)Color() != 0) fail("constant", "default colour"); }
}
}
VX_MAIN(vx::body)
