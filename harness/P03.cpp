// @configs sse2 sse41 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of dense luminance grids over many decades per channel, and of all ordered pairs of neighbours, on the real code against pow in double
// @note The accuracy demanded of this "fast approximation" is 1e-5 relative, the monotonicity slack 1e-5 relative.
// P03: gamma correction.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/tone-mapping.hpp"
#include "vx.hpp"
using namespace math;
namespace vx
{
static void body()
{
	bool T = thorough(); static const float G[] = { 1, 1.8f, 2, 2.2f, 2.4f, 3, 0.5f };
	if (begin("curve", true)) { u64 c = 0; int per = T ? 4096 : 256; for (int e = -30; e <= 20; e++) for (int k = 0; k < per; k++) { if (!mine(c++)) continue; float v = std::ldexp(1.0f + (float)k / per, e), w = std::ldexp(1.0f + (float)(k + 1) / per, e); for (int g = -1; g < 7; g++) { double p = g < 0 ? 1 / 2.2 : (double)(1.0f / G[g]); next(); states(); trace(); trans(2); static const float A[] = { 0, 1, 0.5f, -3, 77 }; float al = A[c % 5]; float q[3] = { 0.25f, 0.5f, 2 }; int ch = c % 3; q[ch] = v; f32x4 r = g < 0 ? fastGammaCorrection(f32x4(q[0], q[1], q[2], al)) : fastGammaCorrection(f32x4(q[0], q[1], q[2], al), 1.0f / G[g]); for (int i = 0; i < 3; i++) { double x = std::pow((double)q[i], p); if (!(std::fabs(r[i] - x) <= 1e-5 * x)) { fail("gamma", "%.9g to the power %.6g is %.9g, want %.9g", q[i], p, r[i], x); break; } } if (r[3] != al) fail("alpha", "%g becomes %g", al, r[3]); float q2[3] = { q[0], q[1], q[2] }; q2[ch] = w; f32x4 s = g < 0 ? fastGammaCorrection(f32x4(q2[0], q2[1], q2[2], al)) : fastGammaCorrection(f32x4(q2[0], q2[1], q2[2], al), 1.0f / G[g]); if (!(s[ch] >= r[ch] * (1 - 1e-5f))) fail("monotonic", "between %.9g and %.9g", v, w); out(fbits(r[ch])); } } sample("0.18 with gamma 2.2"); bound("curve: %d values in each of 51 octaves, on each channel, 7 gammas and the default", per); }
	if (begin("whole range", true))
	{
		u64 c = 0; int per = T ? 512 : 16; static const float O[] = { 0, 1e-40f, 1e-20f, 1, 3, 1e20f, 3e38f }, A[] = { 0, -0.0f, 1, -1, 1e-40f, 255, 3e38f, -1e30f };
		auto ok = [](float r, double x) { if (std::isnan(r)) return false; if (x > 3.39e38) return r > 3.3e38f; if (x < 2e-38) return std::fabs(r - x) <= 2e-38 && r >= 0; return std::fabs(r - x) <= 2e-5 * x; };
		for (int e = -150; e <= 127; e++) for (int k = 0; k < per; k++) for (int g = 0; g < 7; g++)
		{
			if (!mine(c++)) continue; next(); states(); trace(); trans(2); float v = std::ldexp(1.0f + (float)k / per, e), w = std::ldexp(1.0f + (float)(k + 1) / per, e); if (w > 3.4e38f) w = v; double p = 1.0f / G[g];
			for (int ch = 0; ch < 3; ch++)
			{
				float q[3] = { O[(c + k) % 7], O[(c / 7 + e + 200) % 7], O[(c * 3 + 1) % 7] }, al = A[(c + ch) % 8]; q[ch] = v; f32x4 r = fastGammaCorrection(f32x4(q[0], q[1], q[2], al), 1.0f / G[g]);
				for (int i = 0; i < 3; i++) { double x = std::pow((double)q[i], p); if (!ok(r[i], x) || (q[i] <= 1 && r[i] > 1)) { fail("gamma", "channel %d: %.9g to the power %.6g is %.9g, want %.9g (channel %d is %.9g)", i, q[i], p, r[i], x, ch, v); break; } }
				if (fbits(r[3]) != fbits(al)) fail("alpha", "%g becomes %g", al, r[3]);
				q[ch] = w; f32x4 t = fastGammaCorrection(f32x4(q[0], q[1], q[2], al), 1.0f / G[g]); if (!(t[ch] >= r[ch] * (1 - 1e-5f))) fail("monotonic", "between %.9g and %.9g", v, w);
			}
			out(fbits(v));
		}
		sample("1e-40 beside 3e38"); bound("whole range: %d values in each octave from the smallest denormal to the largest float, on each channel beside 7 extreme values of the other channels, 7 gammas, 8 alphas", per);
	}
	if (begin("unit interval", true)) { u64 c = 0; u32 step = T ? 7 : 701; for (u32 b = 0; b <= 0x3f800000u; b += step) { if (!mine(c++)) continue; next(); trans(); float v = bitsf(b); int g = c % 7; f32x4 r = fastGammaCorrection(f32x4(v, bitsf(0x3f800000u - c % 3000), bitsf(b ^ 0x155 & 0x7fffff), v), 1.0f / G[g]); for (int i = 0; i < 2; i++) if (!(r[i] >= 0 && r[i] <= 1)) { fail("unit interval", "channel %d of (%.9g,%.9g) with gamma %g is %.9g", i, v, bitsf(0x3f800000u - c % 3000), G[g], r[i]); break; } } states(c / S().nshards); bound("unit interval: every %u-th float of [0,1] on one channel and the 3000 floats below 1 on another stay within [0,1]", step); }
	if (begin("channel combinations", true))
	{
		std::vector<float> L{ 0, 1e-6f, 0.0005f, 0.0031308f, 0.02f, 0.18f, 0.2140412f, 0.5f, 0.73f, 0.9995f, 1, 1.7f, 3.9f, 12.5f, 80, 1300, 70000 }, N{ -1e-3f, -0.5f, -1, -60, -2000, 0.3f, 40 }; u64 c = 0;
		for (float r : L) for (float g : L) { if (!mine(c++)) continue; trace(); for (float b : L) for (int k = -1; k < 7; k++) { next(); states(); trans(); double p = k < 0 ? 1 / 2.2 : (double)(1.0f / G[k]); float q[3] = { r, g, b }, al = L[(c + k + 1) % L.size()]; f32x4 v(r, g, b, al), o = k < 0 ? fastGammaCorrection(v) : fastGammaCorrection(v, 1.0f / G[k]); for (int i = 0; i < 3; i++) if (double x = std::pow((double)q[i], p); !(std::fabs(o[i] - x) <= 1e-5 * x)) { fail("gamma", "channel %d of (%g,%g,%g): %.9g to the power %.6g is %.9g, want %.9g", i, r, g, b, q[i], p, o[i], x); break; } if (o[3] != al) fail("alpha", "(%g,%g,%g): alpha %g becomes %g", r, g, b, al, o[3]); } }
		for (float r : N) for (float g : N) { if (!mine(c++)) continue; trace(); for (float b : N) for (float al : { 0.0f, 0.25f, 1.0f, -4.0f }) { next(); states(); trans(2); f32x4 v(r, g, b, al), o = fastGammaCorrection(v), t = fastGammaCorrection(v, 0.4f); if (o[3] != al || t[3] != al) fail("alpha", "(%g,%g,%g): alpha %g becomes %g, %g", r, g, b, al, o[3], t[3]); } }
		bound("channel combinations: all %zu^3 colours x 7 gammas and the default one; alpha also for negative channels", L.size());
	}
	if (begin("fixed points")) { for (int g = -1; g < 7; g++) { next(); states(); trace(); trans(); f32x4 r = g < 0 ? fastGammaCorrection(f32x4(0, 1, 0, 0.5f)) : fastGammaCorrection(f32x4(0, 1, 0, 0.5f), 1.0f / G[g]); if (r[0] != 0 || r[2] != 0 || std::fabs(r[1] - 1) > 1e-6 || r[3] != 0.5f) fail("fixed points", "black and white become %g, %g, alpha %g", r[0], r[1], r[3]); } if (defaultGamma != 2.2f) fail("default gamma", "%g", defaultGamma); }
}
}
VX_MAIN(vx::body)
