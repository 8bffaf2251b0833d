// @configs sse2 avx2
// @thorough_configs sse2 avx2 port neon
// @shards 8
// @technique exhaustive enumeration of complete grids of roughness, angle, sample and index of refraction (and of every roughness a float can hold, strided), against closed forms and exact integrals in double
// @note The library has the GGX distribution, its sampler and the reflectance of an index of refraction; roughness 0 (a delta distribution) is judged for sampling only.
// P11: reflectance terms.
#include <cassert>
#include "math/brdf.hpp"
#include "math/simd/vector/float.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
static double D(double c, double a) { double f = c * c * (a * a - 1) + 1; return a * a / (M_PI * f * f); }
static std::string args(const char* n, double a, double b) { char s[100]; snprintf(s, sizeof s, "%s %.9g, roughness %.9g", n, a, b); return s; }
static void body()
{
	if (begin("distribution", true))
	{
		u64 n = 0; int N = thorough() ? 1000 : 200;
		for (int j = 1; j <= N; j++)
		{
			next(); if (!mine(n++)) continue; states(); trace(); float a = (float)j / N, prev = -1;
			for (int i = 0; i <= 1000; i++)
			{
				float c = i / 1000.0f, g = math::brdf::ggx(c, a); trans(); out(fbits(g)); double w = D(c, a), f = c * (double)c * (a * (double)a - 1) + 1;
				if (!(g >= 0) || std::isinf(g)) fail("finite", "ggx = %g; %s", g, args("cos", c, a).c_str());
				double tol = w * 1e-5; if (!(std::fabs(g - w) <= tol)) fail("distribution", "ggx = %.9g, want %.9g; %s", g, w, args("cos", c, a).c_str());
				if (a < 0.9f && g < prev * (1 - 1e-6f)) fail("distribution", "ggx falls from %.9g to %.9g towards the normal; %s", prev, g, args("cos", c, a).c_str()); prev = g;
			}
			// energy: the projected distribution integrates to one (midpoints, substituted so that the peak is resolved)
			double sum = 0; int M = 4000; for (int i = 0; i < M; i++) { double u = (i + 0.5) / M, c2 = (1 - u) / (1 + (a * (double)a - 1) * u), c = std::sqrt(c2); double pdf = D(c, a); sum += math::brdf::ggx((float)c, a) / pdf / M; trans(); }
			if (!(std::fabs(sum - 1) < (a < 0.05 ? 3e-2 : 2e-3))) fail("energy", "the projected distribution integrates to %.6g; %s", sum, args("-", 0, a).c_str()); else sample("roughness %g: integral of ggx * cos over the hemisphere %.7g", a, sum);
		}
		bound("%d roughness values x 1001 cosines; integral by 4000 equal-probability strips", N);
	}
	if (begin("range", true))
	{
		// every order of magnitude of roughness; a smooth surface is the numerically hard one
		u64 n = 0; u32 step = thorough() ? 499 : 9973;
		for (u32 b = fbits(1e-12f); b <= fbits(1.0f); b += step)
		{
			next(); if (!mine(n++)) continue; states(); trace(); float a = bitsf(b); if (a >= 1e-8f) for (float c : { 0.0f, 0.5f, 0.9f, 0.999f, 0.9999f, 0.999999f, 0.99999976f, 0.99999994f, 1.0f }) { float g = math::brdf::ggx(c, a); trans(); double w = D(c, a); if (!(g >= 0) || std::isinf(g)) fail("finite", "ggx = %g; %s", g, args("cos", c, a).c_str()); else if (c != 1 ? w > 1e-20 && std::fabs(g - w) > 1e-5 * w : std::fabs(g - 1 / (M_PI * a * a)) > 1e-5 * g) fail("distribution", "ggx = %.9g, want %.9g; %s", g, c != 1 ? w : 1 / (M_PI * a * a), args("cos", c, a).c_str()); }
			for (int k = 0; k < 64; k++) { float u = k / 64.0f; f32x4 h = math::brdf::importanceSamplingNdfDggx(float2(0.25f, u), a); trans(); float x = h.getX(), y = h.getY(), z = h.getZ(); if (!(std::fabs(x * x + y * y + z * z - 1) < 1e-5) || !(z >= 0)) fail("unit", "sample (%g, %g, %g) is not a unit vector above the surface; %s", x, y, z, args("u", u, a).c_str()); }
		}
		bound("roughness 1e-12..1 (distribution: from 1e-8) at every %u. float; 9 cosines, 64 samples each", step);
	}
	if (begin("sampling", true))
	{
		u64 n = 0; int K = thorough() ? 64 : 16, N = thorough() ? 200 : 50;
		for (int j = 0; j <= N; j++) for (int i = 0; i < K; i++)
		{
			next(); if (!mine(n++)) continue; states(); trace(); float a = (float)j / N; double last = -1;
			for (int k = 0; k < 256; k++)
			{
				float2 u((float)i / K, k / 256.0f); f32x4 h = math::brdf::importanceSamplingNdfDggx(u, a); trans(); double x = h.getX(), y = h.getY(), z = h.getZ(); out(mix(fbits(h.getX()), fbits(h.getZ())));
				char in[120]; snprintf(in, sizeof in, "u (%g, %g), roughness %g: (%g, %g, %g)", u.x, u.y, a, x, y, z);
				if (!(std::fabs(x * x + y * y + z * z - 1) < 1e-6) || !(z >= 0)) { fail("unit", "not a unit vector above the surface; %s", in); continue; }
				// azimuth: a full turn in u.x
				double s = std::sqrt(x * x + y * y); if (s > 1e-3) { double p = 2 * M_PI * u.x; if (std::fabs(x / s - std::cos(p)) > 2e-6 || std::fabs(y / s - std::sin(p)) > 2e-6) fail("azimuth", "azimuth is not %g of a turn; %s", u.x, in); }
				// elevation: the fraction of the distribution below it is u.y
				if (a == 0) { if (s != 0) fail("elevation", "a smooth surface scatters; %s", in); continue; }
				if (k == 0 && s != 0) fail("elevation", "u.y = 0 is not the normal; %s", in);
				double s2 = 1 - z * z, cdf = s2 / (a * (double)a + (1 - a * (double)a) * s2); if (!(std::fabs(cdf - u.y) <= 1e-6 + 4e-7 / (a * (double)a))) fail("elevation", "%g of the distribution lies within, want %g; %s", cdf, u.y, in);
				if (!(s >= last)) fail("elevation", "elevation is not increasing with u.y; %s", in); last = s - 1e-6;
			}
		}
		bound("%d roughness values x %d azimuths x 256 elevations", N + 1, K);
	}
	if (begin("sample points", true))
	{
		// the ends of the unit square and values that no grid hits, with roughness over many decades
		static const float U[] = { 0, 1e-20f, 1e-10f, 1e-7f, 1e-6f, 1e-5f, 1e-4f, 1e-3f, 0.1234567f, 0.3333333f, 0.4999999f, 0.5f, 0.5000001f, 0.7071068f, 0.9f, 0.99f, 0.999f, 0.9999f, 0.99999f, 0.999999f, 0.9999999f, 0.99999994f, 1.0f };
		u64 n = 0; std::vector<float> A{ 0 }; for (int e = -24; e <= 0; e++) for (int k = 0; k < (thorough() ? 16 : 2); k++) { float a = std::ldexp(1 + k / (thorough() ? 16.0f : 2.0f), e); if (a <= 1) A.push_back(a); }
		for (float a : A) for (float x : U)
		{
			next(); if (!mine(n++)) continue; states(); trace(); double last = -1;
			for (float y : U)
			{
				f32x4 h = math::brdf::importanceSamplingNdfDggx(float2(x, y), a); trans(); char in[120]; snprintf(in, sizeof in, "u (%.9g, %.9g), roughness %g: (%g, %g, %g)", x, y, a, h[0], h[1], h[2]); double l = (double)h[0] * h[0] + (double)h[1] * h[1] + (double)h[2] * h[2]; out(mix(fbits(h[0]), fbits(h[2])));
				if (a == 0 && y == 1) continue; // 0 / 0: a smooth surface has no direction of that fraction
				if (!(std::fabs(l - 1) < 1e-5) || !(h[2] >= 0)) { fail("unit", "not a unit vector above the surface; %s", in); continue; }
				double s = std::sqrt((double)h[0] * h[0] + (double)h[1] * h[1]), p = 2 * M_PI * x; if (s > 1e-3 && (std::fabs(h[0] / s - std::cos(p)) > 3e-6 || std::fabs(h[1] / s - std::sin(p)) > 3e-6)) fail("azimuth", "azimuth is not %.9g of a turn; %s", x, in);
				double a2 = (double)a * a, c2 = (1 - (double)y) / (1 + (a2 - 1) * y), tol = 2e-6 + (a > 0 ? 4e-7 / a2 : 0); if (a > 0.01 && std::fabs(s * s - (1 - c2)) > tol) fail("elevation", "sine squared %.9g, want %.9g; %s", s * s, 1 - c2, in);
				if (!(s * s >= last - 2.5e-7)) fail("elevation", "elevation falls with u.y; %s", in); last = s * s;
			}
		}
		bound("sample points: %zu roughness values over 24 octaves x 23 x 23 coordinates at and near 0, 1/3, 1/2 and 1", A.size());
	}
	if (begin("ior", true))
	{
		// remapped reflectance r with f0 = 0.16 r^2
		u64 n = 0; int N = thorough() ? 100000 : 10000; 
		for (int i = 0; i < N; i++)
		{
			next(); if (!mine(n++)) continue; states(); trace(); trans(2); double ior = 1 + i * 4.0 / N; float v = (float)ior; double f0 = (v - 1.0) / (v + 1.0); f0 *= f0; float g = math::brdf::iorToReflectance(v), r = math::brdf::iorToReflectance(1 / v); out(fbits(g));
			if (!(std::fabs(g - std::sqrt(f0 / 0.16)) <= 1e-6)) fail("ior", "iorToReflectance(%.9g) = %.9g, want %.9g", v, g, std::sqrt(f0 / 0.16));
			if (!(std::fabs(g - r) <= 1e-6)) fail("ior", "the reflectance differs by side: %.9g for %.9g, %.9g for the inverse", g, v, r);
			if (i == 1250) sample("ior 1.5 -> reflectance %.7g", g);
		}
		std::vector<float> V; for (int e = -23; e < 24; e++) for (int k = 0; k < 8; k++) { V.push_back(1 + std::ldexp(1 + k / 8.0f, e)); if (e < 0) V.push_back(1 - std::ldexp(1 + k / 8.0f, e - 1)); V.push_back(std::ldexp(1 + k / 8.0f, e)); } V.push_back(0);
		for (float v : V) { next(); if (!mine(n++)) continue; states(); trace(); trans(); double f0 = (v - 1.0) / (v + 1.0); float g = math::brdf::iorToReflectance(v); if (!(std::fabs(g - std::sqrt(f0 * f0 / 0.16)) <= 1e-6)) fail("ior", "iorToReflectance(%.9g) = %.9g, want %.9g", v, g, std::sqrt(f0 * f0 / 0.16)); }
		bound("%d indices of refraction 1..5 and their inverses, %zu at powers of two away from 1 and from 0 to 2^24", N, V.size());
	}
}
}
VX_MAIN(vx::body)
