// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @sources aabb.cpp
// @shards 8
// @technique exhaustive enumeration of integer view-projection matrices x lattice points, and of plane sets x boxes x model transforms, on the real code against exact integer arithmetic; cameras x boxes against clip-space membership in double precision
// @note The order in which the six planes are returned is not judged. Vulkan clip volume: -w<=x<=w, -w<=y<=w, 0<=z<=w. A box is culled exactly when all its corners are strictly behind one and the same plane.
// C04: frustum culling keeps visible boxes and drops those wholly behind a plane.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
#include "math/matrix/projection.hpp"
#include "math/matrix/transform.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
LIN_GLUE LIN_GLUE_M
static double rowdot(const M4& m, int r, V3 p) { return m[r][0] * p.x + m[r][1] * p.y + m[r][2] * p.z + m[r][3]; }
static std::vector<double> clipDistances(const M4& m, V3 p) { double x = rowdot(m, 0, p), y = rowdot(m, 1, p), z = rowdot(m, 2, p), w = rowdot(m, 3, p); return { w + x, w - x, w + y, w - y, z, w - z }; }
static M4 imat(int k) { M4 m; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) m[r][c] = ((r * 5 + c * 3 + k * 7 + r * c * (k % 5) + k / 13) % 9) - 4; return m; }
static M4 basis(int k) { M4 m; m[k / 4][k % 4] = 1; return m; }
static void planes1(const M4& base, int s = 0, int t = 0) // the numbers scaled by powers of two: 2^s the matrix, 2^t the space
{
	M4 m = base; double S = std::ldexp(1.0, s), T = std::ldexp(1.0, t); for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) m[r][c] *= c == 3 ? S * T : S;
	states(); Plane pl[8]; extractFrustumPlanes(fm(m), pl); Plane np[8]; for (int i = 0; i < 6; i++) np[i] = pl[i]; normalizePlanes(np, 6); std::string ms = str(m);
	for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) for (int z = -2; z <= 2; z++) for (float w : { 0.f, 1.f, -9.f })
	{
		next(); trace(); trans(6); V3 p{ x * T, y * T, z * T }; auto want = clipDistances(m, p); std::vector<double> got; for (int i = 0; i < 6; i++) got.push_back(distance3(pl[i], f4(p, w))); auto s = want; std::sort(s.begin(), s.end()); auto g = got; std::sort(g.begin(), g.end()); out(mix(fbits(g[0]), fbits(g[5])));
		if (g != s) { fail("extractFrustumPlanes", "point %s: distances %g %g %g %g %g %g, want the set %g %g %g %g %g %g; matrix %s", str(p).c_str(), got[0], got[1], got[2], got[3], got[4], got[5], want[0], want[1], want[2], want[3], want[4], want[5], ms.c_str()); continue; }
		for (int i = 0; i < 6; i++) { double n = len(d3(pl[i].getNormal())); if (n == 0) continue; double d = distance3(np[i], f4(p, w)); if (!(std::fabs(d - got[i] / n) <= 2e-6 * (T + std::fabs(got[i] / n)))) fail("normalizePlanes", "plane %d: distance %.9g want %.9g; matrix %s", i, d, got[i] / n, ms.c_str()); }
	}
	for (int i = 0; i < 6; i++) { double n = len(d3(pl[i].getNormal())); if (n > 0 && !(std::fabs(len(d3(np[i].getNormal())) - 1) <= 1e-6)) fail("normalizePlanes length", "plane %d", i); }
	Plane part[6]; for (int i = 0; i < 6; i++) part[i] = pl[i]; normalizePlanes(part, 2); if (memcmp(part + 2, pl + 2, 4 * sizeof(Plane))) fail("normalizePlanes count", "changed planes beyond the count"); trans();
}
// exact culling: integer planes, boxes and models
struct IB { int lo[3], hi[3]; };
static bool behind(const std::vector<std::array<int, 4>>& pl, const IB& b, const M4& m)
{
	for (auto& p : pl) { bool all = true; for (int k = 0; k < 8 && all; k++) { V3 c{ (double)(k & 1 ? b.hi : b.lo)[0], (double)(k & 2 ? b.hi : b.lo)[1], (double)(k & 4 ? b.hi : b.lo)[2] }; c = apply(m, c); all = p[0] * c.x + p[1] * c.y + p[2] * c.z + p[3] < 0; } if (all) return true; } return false;
}
static std::string str(const IB& b) { char s[100]; snprintf(s, sizeof s, "[(%d,%d,%d)..(%d,%d,%d)]", b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]); return s; }
static std::string str(const std::vector<std::array<int, 4>>& pl) { std::string s; char c[60]; for (auto& p : pl) { snprintf(c, sizeof c, " {%d %d %d | %d}", p[0], p[1], p[2], p[3]); s += c; } return s; }
static void cull(const std::vector<std::array<int, 4>>& pl, const IB& b, const M4& m, bool id);
// the same scene with planes scaled by 2^s, space by 2^t, or moved away from the origin: every number stays exact
static void cullSized(const std::vector<std::array<int, 4>>& pl, const IB& b, const M4& m, bool id, int s, int t, const int* off)
{
	next(); states(); trace(); double S = std::ldexp(1.0, s), T = std::ldexp(1.0, t); bool want = behind(pl, b, m), g; Plane P[8]; M4 f = m; V3 o{ (double)off[0], (double)off[1], (double)off[2] };
	for (size_t i = 0; i < pl.size(); i++) { auto& p = pl[i]; double d = p[3] - (id ? p[0] * o.x + p[1] * o.y + p[2] * o.z : 0); P[i] = Plane(f32x4((float)(p[0] * S), (float)(p[1] * S), (float)(p[2] * S), 5), (float)(d * S * T), false); }
	V3 lo{ (b.lo[0] + o.x) * T, (b.lo[1] + o.y) * T, (b.lo[2] + o.z) * T }, hi{ (b.hi[0] + o.x) * T, (b.hi[1] + o.y) * T, (b.hi[2] + o.z) * T }; Aabb B(f4(lo, -1), f4(hi, 1)); for (int r = 0; r < 3; r++) { f[r][3] *= T; if (!id) f[r][3] -= (m[r][0] * o.x + m[r][1] * o.y + m[r][2] * o.z) * T; }
	trans(); out(want); if ((g = isBehindFrustum(P, (uint8)pl.size(), B, fm(f))) != want) fail("isBehindFrustum(model)", "%d for box %s..%s, model %s, planes%s x 2^%d", g, str(lo).c_str(), str(hi).c_str(), str(f).c_str(), str(pl).c_str(), s); if (id) { trans(); if ((g = isBehindFrustum(P, (uint8)pl.size(), B)) != want) fail("isBehindFrustum", "%d for box %s..%s, planes%s x 2^%d", g, str(lo).c_str(), str(hi).c_str(), str(pl).c_str(), s); }
}
static void cull(const std::vector<std::array<int, 4>>& pl, const IB& b, const M4& m, bool id)
{
	next(); states(); trace(); Plane P[256]; for (size_t i = 0; i < pl.size(); i++) P[i] = Plane(f32x4(pl[i][0], pl[i][1], pl[i][2], 5), pl[i][3], false); float w1 = (idx % 3) * 7.f, w2 = (idx % 5) * -3.f - 1; if (w1 > w2) w2 = w1; Aabb B(f32x4(b.lo[0], b.lo[1], b.lo[2], w1), f32x4(b.hi[0], b.hi[1], b.hi[2], w2)); bool want = behind(pl, b, m), g; trans(); out(want);
	if ((g = isBehindFrustum(P, (uint8)pl.size(), B, fm(m))) != want) fail("isBehindFrustum(model)", "%d for box %s, model %s, planes%s", g, str(b).c_str(), str(m).c_str(), str(pl).c_str());
	if (id) { trans(); if ((g = isBehindFrustum(P, (uint8)pl.size(), B)) != want) fail("isBehindFrustum", "%d for box %s, planes%s", g, str(b).c_str(), str(pl).c_str()); }
}
static void camera(const M4& vp, const f32x4x4& fvp, V3 c, V3 e, const M4& model, bool id)
{
	next(); states(); trace(); Plane P[6]; extractFrustumPlanes(fvp, P); Aabb B; B.setExtent(f4(e), f4(c)); bool anyIn = false; double slack = 1e9; std::vector<double> best(6, -1e30);
	for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) { V3 p = apply(model, { c.x + x * e.x, c.y + y * e.y, c.z + z * e.z }); auto d = clipDistances(vp, p); double mn = *std::min_element(d.begin(), d.end()); if (mn > 1e-4) anyIn = true; if (x && y && z) for (int i = 0; i < 6; i++) best[i] = std::max(best[i], d[i]); }
	bool out1 = false; for (int i = 0; i < 6; i++) { out1 |= best[i] < 0; slack = std::min(slack, std::fabs(best[i])); } bool g = isBehindFrustum(P, 6, B, fm(model)); trans(); out(g);
	if (g && anyIn) fail("visible box culled", "box centre %s extent %s model %s", str(c).c_str(), str(e).c_str(), str(model).c_str());
	if (slack > 1e-4 && g != out1) fail("camera culling", "%d, want %d: box centre %s extent %s model %s", g, out1, str(c).c_str(), str(e).c_str(), str(model).c_str());
	if (id) { Plane Q[6]; for (int i = 0; i < 6; i++) Q[i] = P[i]; normalizePlanes(Q, 6); bool h = isBehindFrustum(Q, 6, B); trans(); if (slack > 1e-3 && h != out1) fail("camera culling, normalised planes", "%d, want %d: box centre %s extent %s", h, out1, str(c).c_str(), str(e).c_str()); }
}
static void body()
{
	if (begin("plane extraction", true)) { u64 c = 0; for (int k = 0; k < 16; k++) if (mine(c++)) planes1(basis(k)); int D = thorough() ? 2000 : 200; for (int k = 0; k < D; k++) if (mine(c++)) planes1(imat(k)); sample("matrix %s", str(imat(5)).c_str()); bound("plane extraction: all 16 basis matrices (the planes are linear in the matrix) and %d dense ones x 5^3 points x 3 fourth components", D); }
	std::vector<M4> models = { ident(), translation({ 1, -2, 3 }), scaling({ 2, 1, 3 }) }; for (int a = 0; a < 3; a++) { M4 q = ident(); int b = (a + 1) % 3, c = (a + 2) % 3; q[b][b] = q[c][c] = 0; q[b][c] = -1; q[c][b] = 1; models.push_back(translation({ -1, 1, 0 }) * q * scaling({ 1, 2, 1 })); } { M4 s = ident(); s[0][1] = 1; s[2][0] = -1; models.push_back(s); }
	static const int SZ[][2] = { { -20, 0 }, { 13, 0 }, { 30, -12 }, { 0, 11 }, { 0, 20 }, { 0, -14 }, { -9, 21 }, { 3, -25 }, { 12, 12 } };
	if (begin("plane extraction of other sizes", true)) { u64 c = 0; int D = thorough() ? 300 : 40; for (auto& z : SZ) { for (int k = 0; k < 16; k++) if (mine(c++)) planes1(basis(k), z[0], z[1]); for (int k = 0; k < D; k++) if (mine(c++)) { M4 n = imat(k * 7 + 1); if (k % 4 == 3) for (auto& r : n.e) for (auto& x : r) x = -std::fabs(x); planes1(n, z[0], z[1]); } } bound("plane extraction of other sizes: 16 basis and %d dense matrices (a quarter all negative) x 9 powers of two for the matrix and the space", D); }
	if (begin("single planes", true))
	{
		u64 c = 0; std::vector<IB> bs; for (int k = 0; k < 729; k++) { IB b; int m = k; for (int i = 0; i < 3; i++, m /= 9) { b.lo[i] = m % 9 / 3 - 1; b.hi[i] = b.lo[i] + m % 3; } bs.push_back(b); }
		for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) for (int d = -3; d <= 3; d++) { bool m = mine(c++); if (!m) continue; for (auto& b : bs) for (size_t k = 0; k < models.size(); k++) cull({ { x * 2, y, z, d } }, b, models[k], k == 0); }
		sample("plane {2 -1 1 | -2} box [(-1,0,1)..(1,1,1)]"); bound("single planes: all 27 directions x 7 distances x all 729 boxes (degenerate ones included) x %zu models", models.size());
	}
	if (begin("plane sets", true))
	{
		u64 c = 0; std::vector<IB> bs; for (int k = 0; k < 27; k++) { IB b{ { k % 3 * 2 - 2, k / 3 % 3 * 2 - 2, k / 9 * 2 - 2 }, {} }; for (int i = 0; i < 3; i++) b.hi[i] = b.lo[i] + (k + i) % 3; bs.push_back(b); } std::vector<std::array<int, 4>> cube = { { 1, 0, 0, 1 }, { -1, 0, 0, 1 }, { 0, 1, 0, 1 }, { 0, -1, 0, 1 }, { 0, 0, 1, 0 }, { 0, 0, -1, 1 } }, fr = { { 1, 0, 1, 0 }, { -1, 0, 1, 0 }, { 0, 1, 1, 0 }, { 0, -1, 1, 0 }, { 0, 0, 1, -1 }, { 0, 0, -1, 3 } };
		for (auto* set : { &cube, &fr }) for (int mask = 0; mask < 64; mask++) for (int rot = 0; rot < 6; rot++) { if (!mine(c++)) continue; std::vector<std::array<int, 4>> pl; for (int i = 0; i < 6; i++) if (mask >> (i + rot) % 6 & 1) pl.push_back((*set)[(i + rot) % 6]); for (auto& b : bs) for (size_t k = 0; k < models.size(); k++) cull(pl, b, models[k], k == 0); }
		bound("plane sets: every subset of the planes of a cube and of a pyramid in 6 orders (0 to 6 planes) x 27 boxes x %zu models", models.size());
	}
	if (begin("scenes of other sizes", true))
	{
		u64 c = 0; std::vector<IB> bs; for (int k = 0; k < 27; k++) { IB b{ { k % 3 * 2 - 2, k / 3 % 3 * 2 - 2, k / 9 * 2 - 2 }, {} }; for (int i = 0; i < 3; i++) b.hi[i] = b.lo[i] + (k + i) % 3; bs.push_back(b); } static const int OFF[][3] = { { 0, 0, 0 }, { 1000, -2000, 3000 }, { -70000, 65000, 131071 }, { 4096, 4096, 4096 }, { 0, 500000, 0 }, { -8191, -12345, -54321 } };
		for (auto& z : SZ) for (auto& off : OFF) for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int zz = -1; zz <= 1; zz++) for (int d = -3; d <= 3; d++) { if (!mine(c++)) continue; for (size_t i = (c + d + 3) % 3; i < bs.size(); i += thorough() ? 1 : 3) { size_t k = (i + c) % models.size(); cullSized({ { x * 2, y, zz, d } }, bs[i], models[0], true, z[0], z[1], off); cullSized({ { x * 2, y, zz, d }, { 1, 1, 1, 7 } }, bs[i], models[k], false, z[0], z[1], off); } }
		sample("plane {2 -1 1 | -2} x 2^-9, box [(-1,0,1)..(1,1,1)] moved to (-70000,65000,131071), all x 2^21"); bound("scenes of other sizes: 27 directions x 7 distances x 9 powers of two for planes and space x 6 distances from the origin x 27 boxes");
	}
	if (begin("many planes", true))
	{
		u64 c = 0; for (int m : { 7, 8, 9, 12, 15, 16, 17, 32, 33, 64, 127, 128, 129, 254, 255 }) for (int pos : { 0, 4, 5, 6, 7, m / 2, m - 2, m - 1 }) { if (!mine(c++)) continue; if (pos >= m) continue; for (int f = 0; f < 6; f++) for (int d = -2; d <= 2; d++) { std::vector<std::array<int, 4>> pl; for (int i = 0; i < m; i++) pl.push_back({ i % 3 - 1, i / 3 % 3 - 1, i / 9 % 3 - 1, 60 + i }); pl[pos] = { 0, 0, 0, d }; pl[pos][f / 2] = f % 2 ? 1 : -1; for (int k = 0; k < 27; k++) { IB b{ { k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1 }, {} }; for (int i = 0; i < 3; i++) b.hi[i] = b.lo[i] + (k + i) % 3; cull(pl, b, models[(k + pos) % models.size()], (k + pos) % models.size() == 0); } } for (int f = 0; f < 3; f++) { std::vector<Plane> P(m + 1); for (int i = 0; i <= m; i++) P[i] = Plane(f32x4(f == 0 ? i + 2 : 0, f == 1 ? -i - 2 : 0, f == 2 ? i + 2 : 0, 0), 2 * i + 4, false); next(); trace(); trans(); normalizePlanes(P.data(), m); for (int i = 0; i <= m; i++) { double n = i < m ? 1 : i + 2, d = i < m ? 2 : 2 * i + 4; float w = P[i].getNormal()[f]; if (!(std::fabs(std::fabs(w) - n) <= 1e-6 && std::fabs(P[i].getDistance() - d) <= 1e-6 * d)) { fail("normalizePlanes count", "%d planes: plane %d has normal length %g, distance %g, want %g, %g", m, i, std::fabs(w), P[i].getDistance(), n, d); break; } } } }
		sample("129 planes, plane 128 {1 0 0 | -2}, box [(0,0,0)..(1,1,1)]"); bound("many planes: 15 counts from 7 to 255 x 8 positions of the deciding plane x 6 directions x 5 distances x 27 boxes; normalizePlanes on the same counts");
	}
	if (begin("cameras", true))
	{
		u64 c = 0; struct Cam { M4 d; f32x4x4 f; }; std::vector<Cam> cams; std::vector<float4x4> proj = { calcPerspProjInfRevZ(1.2f, 1.5f, 0.25f), calcPerspProjRevZ(0.9f, 1.0f, 0.5f, 8), calcPerspProj(1.6f, 2.0f, 0.5f, 6), calcOrthoProjRevZ(float2(-3, 3), float2(-2, 2), float2(0, 7)), calcOrthoProj(float2(-1, 4), float2(-3, 1), float2(-2, 5)) };
		for (auto& p : proj) for (V3 eye : { V3{ 0, 0, 0 }, V3{ 2, 1, -3 } }) for (V3 to : { V3{ 0, 0, 1 }, V3{ 1, 0.5, -1 }, V3{ -2, -1, 0.25 } }) { f32x4x4 v = lookAt(f4(eye), f4(eye + to)); f32x4x4 vp = f32x4x4(p) * v; cams.push_back({ dm(vp), vp }); }
		std::vector<M4> ms = { ident(), rotation(axisAngle(unit(V3{ 1, 2, 3 }), 1)) * scaling({ 1.5, 0.5, 1 }) }; int R = thorough() ? 4 : 2; for (auto& cam : cams) for (int x = -R; x <= R; x++) { if (!mine(c++)) continue; for (int y = -R; y <= R; y++) for (int z = -R; z <= R; z++) for (V3 e : { V3{ 0.25, 0.25, 0.25 }, V3{ 2, 0.5, 1 }, V3{ 6, 6, 0.5 }, V3{ 0, 3, 0 } }) for (size_t k = 0; k < ms.size(); k++) camera(cam.d, cam.f, { x * 1.5, y * 1.5, z * 1.5 }, e, ms[k], k == 0); }
		sample("reversed-Z perspective looking along (1,0.5,-1) from (2,1,-3), box centre (1.5,0,-3)"); bound("cameras: 5 projections x 6 views x %d^3 positions x 4 sizes x 2 models", 2 * R + 1);
	}
}
}
VX_MAIN(vx::body)
