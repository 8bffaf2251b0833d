// @configs sse2 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of camera parameters x a lattice of view-space points (corners, faces, inside, outside) on the real code, against the projection computed in double precision from the definition
// @note Vulkan clip space: x right, y down, z in 0..1 (reversed: near 1, far 0). Parameters are those of a valid camera: 0 < fov < pi, near > 0, far > near, non-empty ortho ranges.
// M03: projection matrices map their view volume onto the clip volume.
#include <cassert>
#include "math/simd/matrix/float.hpp"
#include "math/matrix/projection.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
static void clip(const float4x4& m, V3 p, double o[4]) { for (int r = 0; r < 4; r++) { o[r] = (double)m.c0[r] * p.x + (double)m.c1[r] * p.y + (double)m.c2[r] * p.z + m.c3[r]; } }
static const double U[] = { -2, -1.5, -1, -0.75, -0.25, 0, 0.5, 1, 1.25, 3 };

// kind 0: infinite reversed, 1: reversed, 2: forward
static void persp(int kind, double fov, double aspect, double n, double f)
{
	next(); states(); trace(); char in[200]; snprintf(in, sizeof in, "kind %d fov %.9g aspect %.9g near %.9g far %.9g", kind, fov, aspect, n, f); snprintf(what, sizeof what, "%s", in);
	float4x4 m = kind == 0 ? calcPerspProjInfRevZ(fov, aspect, n) : kind == 1 ? calcPerspProjRevZ(fov, aspect, n, f) : calcPerspProj(fov, aspect, n, f);
	fov = (float)fov; aspect = (float)aspect; n = (float)n; f = (float)f; double t = std::tan(fov / 2); u64 h = 0;
	// depth samples: near, far, geometric in between, and in front of / behind the range
	for (int k = -2; k <= 8; k++)
	{
		double far_ = kind ? f : n * 1e6; double z = n * std::pow(far_ / n, k / 6.0); double prevw = 0; (void)prevw;
		double wz = kind == 0 ? n / z : kind == 1 ? n * (f - z) / (z * (f - n)) : f * (z - n) / (z * (f - n)), tz = kind == 0 ? 1e-6 : 4e-7 * (f / (f - n)) * (1 + n / z * 2 + std::fabs(wz));
		for (double u : U) for (double v : U)
		{
			V3 p = { u * t * aspect * z, v * t * z, z }; double c[4]; clip(m, p, c); trans(); double g[3] = { c[0] / c[3], c[1] / c[3], c[2] / c[3] }, w[3] = { u, -v, wz }; double tol[3] = { 2e-6 * (1 + std::fabs(u)), 2e-6 * (1 + std::fabs(v)), tz };
			for (int i = 0; i < 3; i++) { h = mix(h, fbits(g[i])); if (!(std::fabs(g[i] - w[i]) <= tol[i])) { static const char* nm[] = { "x", "y", "depth" }; fail(nm[i], "%s: view point %s -> NDC %.9g, want %.9g (tolerance %.3g)", in, str(p).c_str(), g[i], w[i], tol[i]); } }
			if (!(c[3] > 0)) fail("w", "%s: w is %.9g in front of the camera", in, c[3]);
			// a point is inside the clip volume exactly when it is inside the view volume (away from the faces)
			bool in1 = std::fabs(u) <= 1 && std::fabs(v) <= 1 && k >= 0 && (kind == 0 || k <= 6), edge = std::fabs(std::fabs(u) - 1) < 1e-5 || std::fabs(std::fabs(v) - 1) < 1e-5 || k == 0 || (k == 6 && kind) || std::fabs(wz - 1) < 4 * tz || std::fabs(wz) < 4 * tz;
			bool in2 = std::fabs(c[0]) <= c[3] && std::fabs(c[1]) <= c[3] && c[2] >= 0 && c[2] <= c[3]; if (!edge && in1 != in2) fail("clip volume", "%s: view point %s is %s the view volume but %s the clip volume", in, str(p).c_str(), in1 ? "inside" : "outside", in2 ? "inside" : "outside");
		}
	}
	out(h);
	double c[4]; clip(m, { 0, 0, -1 }, c); trans(); if (!(c[3] < 0)) fail("w behind", "%s: a point behind the camera has w %.9g", in, c[3]);
}
static void ortho(bool rev, float2 wd, float2 ht, float2 dp)
{
	next(); states(); trace(); char in[200]; snprintf(in, sizeof in, "%s width (%g, %g) height (%g, %g) depth (%g, %g)", rev ? "reversed" : "forward", wd.x, wd.y, ht.x, ht.y, dp.x, dp.y); snprintf(what, sizeof what, "%s", in);
	float4x4 m = rev ? calcOrthoProjRevZ(wd, ht, dp) : calcOrthoProj(wd, ht, dp); u64 h = 0;
	for (double u : U) for (double v : U) for (double q : U) // u,v,q: where the point lies in its range, -1..1
	{
		auto at = [](float2 r, double k) { return ((double)r.x + r.y) / 2 + k * ((double)r.y - r.x) / 2; }; V3 p = { at(wd, u), at(ht, v), at(dp, q) }; double c[4]; clip(m, p, c); trans();
		double w[3] = { u, -v, rev ? (1 - q) / 2 : (1 + q) / 2 }; auto cond = [](float2 r, double k) { return 4e-7 * (1 + std::fabs(k)) * (1 + (std::fabs(r.x) + std::fabs(r.y)) / std::fabs(r.y - r.x)); }; double tol[3] = { cond(wd, u), cond(ht, v), cond(dp, q) };
		for (int i = 0; i < 3; i++) { h = mix(h, fbits(c[i])); if (!(std::fabs(c[i] - w[i]) <= tol[i])) { static const char* nm[] = { "ortho x", "ortho y", "ortho depth" }; fail(nm[i], "%s: view point %s -> %.9g, want %.9g (tolerance %.3g)", in, str(p).c_str(), c[i], w[i], tol[i]); } }
		if (c[3] != 1) fail("ortho w", "%s: w is %.9g", in, c[3]);
	}
	out(h);
}
static void body()
{
	std::vector<double> fovs, asp = { 0.01, 0.25, 0.5625, 0.99, 1, 1.0001, 4.0 / 3, 16.0 / 9, 3.5, 64 }, nears = { 1e-5, 0.001, 0.0137, 0.125, 0.995, 1, 7.3, 10, 3000 }, ratio = { 1.01, 1.125, 2, 10, 1000, 100000, 3e6 }; int st = thorough() ? 1 : 4; for (int d = thorough() ? 1 : 5; d < 180; d += st) fovs.push_back(d * M_PI / 180); for (double r : { 0.995, 1.0, 1.0001, 0.9999999, 2.0, 3.0, 0.1, 1.5 }) fovs.push_back(r); for (double d : { 0.05, 0.5, 1.0, 2.0, 3.0, 90.0, 175.0, 177.0, 178.0, 179.0, 179.5 }) fovs.push_back(d * M_PI / 180);
	if (begin("perspective", true)) { u64 n = 0; for (int kind = 0; kind < 3; kind++) for (double fv : fovs) for (double a : asp) for (double ne : nears) for (double r : ratio) { if (kind == 0 && r != 2) continue; if (mine(n++) && (thorough() || n % 3 == 0)) persp(kind, fv, a, ne, ne * r); } sample("infinite/reversed/forward, fov 1.05, aspect 16/9, near 0.01, far 10"); bound("perspective: 3 kinds x %zu fields of view x 10 aspects x 9 near planes x 7 far planes x 11 depths x 10^2 screen positions", fovs.size()); }
	if (begin("orthographic", true)) { u64 n = 0; std::vector<float2> rg = { { -1, 1 }, { 0, 1 }, { 0, 1920 }, { -37.5f, 12 }, { 100, 101 }, { 1, -1 }, { -5, -4.5f }, { 0.25f, 0.75f }, { -1e-4f, 1e-4f }, { -3e5f, 2e5f }, { 0, 1e-3f } }, dr = { { 0, 1 }, { 0.1f, 100 }, { -50, 50 }, { -2, -1 }, { 5, 9 }, { 1e-3f, 1e5f }, { 0.5f, 0.501f }, { -1e-3f, 0 } }; for (int rev = 0; rev < 2; rev++) for (auto& a : rg) for (auto& b : rg) for (auto& c : dr) if (mine(n++)) ortho(rev, a, b, c); sample("orthographic width (0,1920) height (-37.5,12) depth (0.1,100)"); bound("orthographic: 2 kinds x 11 widths x 11 heights x 8 depths x 10^3 points"); }
}
}
VX_MAIN(vx::body)
