// @configs sse2 sse41 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of complete grids of the unit cube and of every 8-bit code value, round trips and pairwise order on the real code, against the standard's formulas in double
// @note Black has no chromaticity: the Yxy form of black is not judged. Accuracy bounds: transfer functions 3e-6, XYZ 2e-6, Yxy round trip 1e-4 relative to Y + 1e-3.
// P02: colour spaces.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/color-space.hpp"
#include "math/color.hpp"
#include "vx.hpp"
using namespace math;
namespace vx
{
static double enc(double v) { return v <= 0.0031308 ? v * 12.92 : 1.055 * std::pow(v, 1 / 2.4) - 0.055; }
static double dec(double v) { return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); }
// linear sRGB primaries with D65 white, derived from the chromaticities
static double M[3][3];
static void derive()
{
	// published sRGB matrix to seven digits
	double m[3][3] = { { 0.4124564, 0.3575761, 0.1804375 }, { 0.2126729, 0.7151522, 0.0721750 }, { 0.0193339, 0.1191920, 0.9503041 } }; memcpy(M, m, sizeof m);
}
static void transfer(u32 k, u32 N)
{
	next(); states(); trace(); trans(4); float v = (float)((double)k / N), w = (float)((double)(k + 1) / N); static const float A[] = { 0, 1, 0.5f, -3, 77 }; float al = A[k % 5]; float o1 = (float)((k * 7919ull % N) / (double)N), o2 = (float)((k * 104729ull % N) / (double)N);
	for (int i = 0; i < 3; i++)
	{
		float q[3] = { o1, o2, o1 }; q[i] = v; f32x4 in(q[0], q[1], q[2], al), e = rgbToSrgb(in), d = srgbToRgb(in); for (int c = 0; c < 3; c++) { if (std::fabs(e[c] - enc(q[c])) > 3e-6) { fail("rgbToSrgb", "channel %d of (%.9g,%.9g,%.9g) is %.9g, want %.9g", c, q[0], q[1], q[2], e[c], enc(q[c])); return; } if (std::fabs(d[c] - dec(q[c])) > 3e-6) { fail("srgbToRgb", "channel %d of (%.9g,%.9g,%.9g) is %.9g, want %.9g", c, q[0], q[1], q[2], d[c], dec(q[c])); return; } }
		if (e[3] != al || d[3] != al) { fail("alpha", "%g becomes %g and %g", al, e[3], d[3]); return; }
		f32x4 b = srgbToRgb(e), b2 = rgbToSrgb(d); for (int c = 0; c < 3; c++) if (std::fabs(b[c] - q[c]) > 5e-6 || std::fabs(b2[c] - q[c]) > 2e-5) { fail("round trip", "%.9g becomes %.9g and %.9g", q[c], b[c], b2[c]); return; }
		float q2[3] = { o1, o2, o1 }; q2[i] = w; f32x4 e2 = rgbToSrgb(f32x4(q2[0], q2[1], q2[2], 0)), d2 = srgbToRgb(f32x4(q2[0], q2[1], q2[2], 0)); if (k < N && (e2[i] < e[i] - (N > 100000 ? 5e-7f : 0) || d2[i] < d[i] - (N > 100000 ? 5e-7f : 0))) { fail("monotonic", "between %.9g and %.9g", v, w); return; }
	}
	out(fbits(rgbToSrgb(f32x4(v))[0]));
}
static void xyz(double r, double g, double b, bool rel = false) // rel: accuracy relative to the largest channel, whatever its size
{
	next(); states(); trace(); trans(6); double in[3] = { r, g, b }, w[3]; for (int i = 0; i < 3; i++) w[i] = M[i][0] * r + M[i][1] * g + M[i][2] * b; f32x4 c(r, g, b, 9), x = rgbToXyz(c); double s = std::max(rel ? 0.0 : 1.0, std::max(r, std::max(g, b))), sc = rel ? 1 : s;
	for (int i = 0; i < 3; i++) if (std::fabs(x[i] - w[i]) > 2e-6 * s) { fail("rgbToXyz", "(%g,%g,%g) component %d is %.9g, want %.9g", r, g, b, i, x[i], w[i]); return; }
	f32x4 back = xyzToRgb(x); for (int i = 0; i < 3; i++) if (std::fabs(back[i] - in[i]) > 5e-6 * s) { fail("XYZ round trip", "(%g,%g,%g) component %d becomes %.9g", r, g, b, i, back[i]); return; }
	if (r + g + b == 0) return; double sum = w[0] + w[1] + w[2], yw[3] = { w[1], w[0] / sum, w[1] / sum }; f32x4 y = rgbToYxy(c), y2 = xyzToYxy(f32x4(w[0], w[1], w[2], -5)); for (int i = 0; i < 3; i++) if (double t = 1e-5 * (i ? sc : s); std::fabs(y[i] - yw[i]) > t || std::fabs(y2[i] - yw[i]) > t) { fail("Yxy", "(%g,%g,%g) component %d is %.9g and %.9g, want %.9g", r, g, b, i, y[i], y2[i], yw[i]); return; }
	f32x4 b2 = yxyToRgb(y), x2 = yxyToXyz(y2); for (int i = 0; i < 3; i++) if (std::fabs(b2[i] - in[i]) > 3e-5 * s || std::fabs(x2[i] - w[i]) > 1e-5 * s) { fail("Yxy round trip", "(%g,%g,%g) component %d: rgb %.9g, xyz %.9g want %.9g", r, g, b, i, b2[i], x2[i], w[i]); return; }
	if (r == g && g == b && (std::fabs(y[1] - 0.3127) > 2e-4 || std::fabs(y[2] - 0.3290) > 2e-4)) fail("grey", "%g has chromaticity %g, %g", r, y[1], y[2]); out(mix(fbits(x[0]), fbits(x[2])));
}
static void body()
{
	bool T = thorough(); derive();
	if (begin("transfer functions", true)) { u32 N = T ? 1 << 20 : 1 << 14; for (u32 k = 0; k <= N; k++) if (mine(k)) transfer(k, N); for (u32 k = 0; k <= 255; k++) if (mine(k)) { next(); Color c(k, 255 - k, k ^ 0x55, 3); f32x4 l = c.toLinear(); for (int i = 0; i < 3; i++) { double q = i == 0 ? c.r : i == 1 ? c.g : c.b; if (std::fabs(l[i] - dec(q / 255)) > 3e-6) fail("toLinear", "code %g is %.9g, want %.9g", q, l[i], dec(q / 255)); } if (std::fabs(l[3] - 3 / 255.0) > 1e-7) fail("alpha", "code 3 becomes %g", l[3]); } sample("0.5 on the red channel"); bound("transfer functions: %u steps of the unit interval on each channel, all 8-bit codes; alpha 0, 1, 0.5, -3, 77", N); }
	if (begin("around the thresholds", true)) { u64 c = 0; for (double t : { 0.0031308, 0.04045, 0.0, 1.0 }) for (int d = -2000; d <= 2000; d++) { if (!mine(c++)) continue; double b = t + d * 1e-7; if (b < 0 || b > 1) continue; next(); states(); trace(); trans(2); float v = (float)b; f32x4 e = rgbToSrgb(f32x4(v, v, v, 1)), q = srgbToRgb(f32x4(v, v, v, 1)); for (int i = 0; i < 3; i++) if (std::fabs(e[i] - enc(v)) > 3e-6 || std::fabs(q[i] - dec(v)) > 3e-6) { fail("threshold", "%.9g gives %.9g and %.9g", v, e[i], q[i]); break; } } bound("around the thresholds: 4001 values at steps of 1e-7 around 0.0031308, 0.04045, 0 and 1"); }
	if (begin("channel combinations", true)) { std::vector<float> L{ 0, 1e-40f, 1e-7f, 0.001f, 0.0031307f, 0.0031309f, 0.01f, 0.0404f, 0.0406f, 0.2f, 0.5f, 0.9f, 0.9999999f, 1 }; if (T) for (float v : { 1e-20f, 1e-5f, 0.003f, 0.0032f, 0.02f, 0.04f, 0.041f, 0.1f, 0.3f, 0.7f, 0.99f, 0.99999f }) L.push_back(v); static const float A[] = { 0, -0.0f, 1, 0.5f, 0.002f, 0.03f, -3, 77, 1e-40f, 3e38f }; u64 c = 0; for (float r : L) for (float g : L) for (float b : L) { if (!mine(c++)) continue; next(); states(); trace(); for (float al : A) { trans(2); float q[3] = { r, g, b }; f32x4 in(r, g, b, al), e = rgbToSrgb(in), d = srgbToRgb(in); for (int i = 0; i < 3; i++) if (std::fabs(e[i] - enc(q[i])) > 3e-6 || std::fabs(d[i] - dec(q[i])) > 3e-6 || e[i] < 0 || d[i] < 0 || e[i] > 1.000001f || d[i] > 1.000001f) { fail("channels", "(%.9g,%.9g,%.9g,%g) channel %d gives %.9g and %.9g", r, g, b, al, i, e[i], d[i]); break; } if (fbits(e[3]) != fbits(al) || fbits(d[3]) != fbits(al)) { fail("alpha", "%g of (%.9g,%.9g,%.9g) becomes %g and %g", al, r, g, b, e[3], d[3]); break; } } out(mix(fbits(r), mix(fbits(g), fbits(b)))); } bound("channel combinations: %zu^3 colours of small, threshold and large channels x 10 alphas", L.size()); }
	if (begin("dark and bright", true)) { u64 c = 0; static const double L[] = { 0, 0.001, 0.1, 0.3, 0.8, 1 }; for (double r : L) for (double g : L) for (double b : L) for (int e = -40; e <= 20; e++) { if (r + g + b == 0 || !mine(c++)) continue; double k = std::ldexp(e & 1 ? 1.37 : 1.0, e); xyz((float)(r * k), (float)(g * k), (float)(b * k), true); } bound("dark and bright: 215 chromaticities at 61 brightness levels 2^-40..2^20, accuracy relative to the brightest channel"); }
	if (begin("XYZ and Yxy", true)) { int n = T ? 64 : 20; u64 c = 0; for (int r = 0; r <= n; r++) for (int g = 0; g <= n; g++) for (int b = 0; b <= n; b++) { if (!mine(c++)) continue; xyz((double)r / n, (double)g / n, (double)b / n); if (c % 5 == 0) xyz(r * 3.0, g * 0.5, b * 2.0); } const double H[] = { 0, 5e-4, 1.0 / 512, 0.01, 0.99, 0.9995, 1, 1.2, -0.05 }; for (double y : { 0.0, 5e-4, 0.25, 0.9995, 1.0, 3.0, 2000.0, 1e-6, 1.3e5 }) for (int x = -6; x < 23; x++) for (int z = -6; z < 23; z++) { if (!mine(c++)) continue; next(); states(); trace(); trans(); float fy = (float)y, fx = (float)(x <= 0 ? H[x + 6] : x >= 20 ? H[x - 14] : x / 20.0), fz = (float)(z <= 0 ? H[z + 6] : z >= 20 ? H[z - 14] : z / 20.0); if (fz <= 0) continue; double cx = fx, cy = fz, w[3] = { cx * fy / cy, fy, fy * (1 - cx - cy) / cy }; f32x4 r = yxyToXyz(f32x4(fy, fx, fz, 1)); for (int i = 0; i < 3; i++) if (std::fabs(r[i] - w[i]) > 1e-6 * (std::fabs(w[i]) + fy / cy) + 1e-12) { fail("yxyToXyz", "(%g,%g,%g) component %d is %g, want %g", y, cx, cy, i, r[i], w[i]); break; } } sample("rgb (0.25, 1, 0.05)"); bound("XYZ and Yxy: %d^3 grid of the unit cube and scaled values, 9 luminances x 29^2 chromaticities, tiny and outside the triangle included", n + 1); }
}
}
VX_MAIN(vx::body)
