// @configs sse2 avx2 dbg
// @thorough_configs sse2 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of all texels of all faces for every small cube size and of all sample indices of every small sample count, against the graphics API face table in double
// @note Faces follow the OpenGL / Vulkan cube map convention (+X -X +Y -Y +Z -Z, texel rows downwards).
// P09: cube-map directions and sampling sequences.
#include <cassert>
#include "math/ibl.hpp"
#include "math/matrix.hpp"
#include "math/sh.hpp"
#include "math/brdf.hpp"
#include "vx.hpp"
using namespace math;
namespace vx
{
// the lookup side of the convention: direction -> face, (s, t) in [0,1]
static void lookup(double x, double y, double z, int& f, double& s, double& t)
{
	double ax = std::fabs(x), ay = std::fabs(y), az = std::fabs(z), sc, tc, ma;
	if (ax >= ay && ax >= az) { f = x > 0 ? 0 : 1; sc = x > 0 ? -z : z; tc = -y; ma = ax; } else if (ay >= az) { f = y > 0 ? 2 : 3; sc = x; tc = y > 0 ? z : -z; ma = ay; } else { f = z > 0 ? 4 : 5; sc = z > 0 ? x : -x; tc = -y; ma = az; }
	s = (sc / ma + 1) / 2; t = (tc / ma + 1) / 2;
}
static double quad(double x, double y) { return std::atan2(x * y, std::sqrt(x * x + y * y + 1)); }
static void cube(int n)
{
	float inv = 1.0f / n; double sum = 0;
	for (u32 f = 0; f < 6; f++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++)
	{
		next(); states(); trace(); trans(4); float2 st = math::ibl::coordsToST(uint2(x, y), inv); float3 d = math::ibl::coordsToDir(uint3(x, y, f), inv), d2 = math::ibl::stToDir(st, f); double len = std::sqrt((double)d.x * d.x + (double)d.y * d.y + (double)d.z * d.z);
		if (std::fabs(len - 1) > 1e-6 || d.x != d2.x || d.y != d2.y || d.z != d2.z) fail("direction", "face %u texel %d,%d of %d: (%g,%g,%g), from st (%g,%g,%g)", f, x, y, n, d.x, d.y, d.z, d2.x, d2.y, d2.z);
		int g; double s, t; lookup(d.x, d.y, d.z, g, s, t); if (g != (int)f || std::fabs(s * n - (x + 0.5)) > 2e-6 * n + 1e-6 || std::fabs(t * n - (y + 0.5)) > 2e-6 * n + 1e-6) fail("direction", "face %u texel %d,%d of %d has direction (%g,%g,%g), which looks up face %d at %g,%g", f, x, y, n, d.x, d.y, d.z, g, s * n - 0.5, t * n - 0.5);
		double a = math::sh::calcSolidAngle(st, inv), u0 = 2.0 * x / n - 1, u1 = 2.0 * (x + 1) / n - 1, v0 = 2.0 * y / n - 1, v1 = 2.0 * (y + 1) / n - 1, w = quad(u1, v1) - quad(u0, v1) - quad(u1, v0) + quad(u0, v0); sum += a; if (!(std::fabs(a - w) < 1.5e-6)) fail("solid angle", "texel %d,%d of %d: %.9g, want %.9g", x, y, n, a, w); out(mix(f, x * n + y));
	}
	if (std::fabs(sum - 4 * M_PI) > 2e-5 + n * n * 6 * 3e-8) fail("solid angle", "of all texels of %d^2 faces adds up to %.9g", n, sum);
}
static u32 rev(u32 v) { u32 r = 0; for (int i = 0; i < 32; i++) if (v >> i & 1) r |= 1u << (31 - i); return r; }
static void body()
{
	bool T = thorough();
	if (begin("cube texels", true)) { int N = T ? 128 : 40; for (int n = 1; n <= N; n++) if (mine(n)) cube(n); sample("face 3 texel 2,5 of 8^2"); bound("cube texels: all texels of all six faces for every size up to %d", N); }
	if (begin("large faces", true)) { u64 c = 0; for (int n : { 41, 64, 100, 127, 128, 129, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 20000, 32768, 65536 }) { std::vector<int> L; for (int i = 0; i < 4; i++) { L.push_back(i); L.push_back(n - 1 - i); L.push_back(n / 2 - 2 + i); L.push_back(n / 3 + i); } float inv = 1.0f / n; for (u32 f = 0; f < 6; f++) for (int y : L) for (int x : L) { if (!mine(c++)) continue; next(); states(); trace(); trans(3); float2 st = math::ibl::coordsToST(uint2(x, y), inv); float3 d = math::ibl::coordsToDir(uint3(x, y, f), inv); double len = std::sqrt((double)d.x * d.x + (double)d.y * d.y + (double)d.z * d.z), s, t; int g; lookup(d.x, d.y, d.z, g, s, t); if (std::fabs(len - 1) > 1e-6 || g != (int)f || std::fabs(s - (x + 0.5) / n) > 1e-6 || std::fabs(t - (y + 0.5) / n) > 1e-6) fail("direction", "face %u texel %d,%d of %d has direction (%g,%g,%g), which looks up face %d at %g,%g", f, x, y, n, d.x, d.y, d.z, g, s * n - 0.5, t * n - 0.5); double a = math::sh::calcSolidAngle(st, inv), u0 = 2.0 * x / n - 1, u1 = 2.0 * (x + 1) / n - 1, v0 = 2.0 * y / n - 1, v1 = 2.0 * (y + 1) / n - 1, w = quad(u1, v1) - quad(u0, v1) - quad(u1, v0) + quad(u0, v0); if (!(std::fabs(a - w) < 1.5e-6)) fail("solid angle", "texel %d,%d of %d: %.9g, want %.9g", x, y, n, a, w); } } bound("large faces: 256 texels (corners, centre, thirds) of each face for 18 sizes from 41 to 65536"); }
	if (begin("face coordinates", true)) { u64 c = 0; static const float E[] = { -1, -0.9999999f, -0.5f, -1e-7f, -0.0f, 0, 1e-30f, 1e-7f, 0.5f, 0.70710678f, 0.9999999f, 1 }; int N = T ? 200 : 40; std::vector<float> L(E, E + 12); for (int i = -N + 1; i < N; i++) L.push_back((float)i / N); for (u32 f = 0; f < 6; f++) for (float y : L) { if (!mine(c++)) continue; for (float x : L) { next(); states(); trace(); trans(); float3 d = math::ibl::stToDir(float2(x, y), f); double len = std::sqrt((double)d.x * d.x + (double)d.y * d.y + (double)d.z * d.z), m = std::sqrt(1 + (double)x * x + (double)y * y), w[6][3] = { { 1, y, x }, { -1, y, -x }, { -x, 1, -y }, { -x, -1, y }, { -x, y, 1 }, { x, y, -1 } }; for (int i = 0; i < 3; i++) if (std::fabs(d[i] - w[f][i] / m) > 3e-7 || std::fabs(len - 1) > 3e-7) { fail("direction", "face %u at (%.9g,%.9g) is (%.9g,%.9g,%.9g)", f, x, y, d.x, d.y, d.z); break; } } } bound("face coordinates: %zu^2 positions on each face, edges and corners included", L.size()); }
	if (begin("hammersley anywhere", true)) { u64 c = 0; std::vector<u32> ix; for (int b = 0; b < 32; b++) for (int d = -2; d <= 2; d++) ix.push_back((1u << b) + d); for (u32 v : { 0x12345678u, 0xDEADBEEFu, 0x55555555u, 0xAAAAAAAAu, 0xFFFFFFFFu, 0x80000001u, 0x00FF00FFu, 1000000007u }) ix.push_back(v); if (T) for (u32 k = 0; k < 200000; k++) ix.push_back(k * 21474u + k % 7); for (u32 i : ix) for (float inv : { 1.0f, 0.5f, 1e-3f, 1.0f / 4096, 1.0f / 70000, 1e-6f, 1.0f / 4294967296.0f }) { if (!mine(c++)) continue; next(); states(); trace(); trans(); float2 p = brdf::hammersley(i, inv); double w = (double)i * inv, y = rev(i) * std::ldexp(1.0, -32); out(mix(fbits(p.x), fbits(p.y))); if (!(std::fabs(p.x - w) <= 2.5e-7 * w)) fail("hammersley", "%u x %g: x is %.9g, want %.9g", i, inv, p.x, w); if (!(std::fabs(p.y - y) <= 1e-7)) fail("hammersley", "%u: y is %.9g, want %.9g", i, p.y, y); } bound("hammersley anywhere: %zu indices of every magnitude x 7 sample counts", ix.size()); }
	if (begin("hammersley", true)) { u64 c = 0; int N = T ? 4096 : 600; for (int n = 1; n <= N; n++) { if (!mine(c++)) continue; std::vector<int> strat(n, 0); bool pow2 = !(n & (n - 1)); for (int i = 0; i < n; i++) { next(); states(); trace(); trans(); float2 p = brdf::hammersley(i, 1.0f / n); double w = rev(i) * std::ldexp(1.0, -32); if (std::fabs(p.x - (double)i / n) > 1e-6 || p.x < 0 || p.x >= 1 || std::fabs(p.y - w) > 1e-7 || p.y < 0 || p.y >= 1) { fail("hammersley", "%d of %d is (%.9g,%.9g), want %.9g,%.9g", i, n, p.x, p.y, (double)i / n, w); break; } if (pow2) strat[(int)(p.y * n)]++; } if (pow2) for (int s : strat) if (s != 1) { fail("stratification", "of %d samples", n); break; } } for (int b = 0; b < 32; b++) for (u32 m : { 1u, 3u, 5u, 0x81u }) for (int s = 0; s < 2; s++) { if (!mine(c++)) continue; next(); states(); u32 i = s ? m << b : (1u << b) - m; if (i >> 24 == 0xff || i > 0xfe000000u) continue; float2 p = brdf::hammersley(i, 1.0f / 4294967296.0f); double w = rev(i) * std::ldexp(1.0, -32); if (std::fabs(p.y - w) > 1e-7) fail("hammersley", "index %u has radical inverse %.9g, want %.9g", i, p.y, w); } sample("sample 5 of 16"); bound("hammersley: every index of every sample count up to %d, single-bit and mask indices up to 2^32", N); }
	if (begin("constants")) { next(); states(); trace(); using namespace math::ibl; if (shBandCount * shBandCount != shCoeffCount || shBandCount != 3) fail("constants", "bands %d coefficients %d", shBandCount, shCoeffCount); }
}
}
VX_MAIN(vx::body)
