// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @sources aabb.cpp
// @shards 8
// @technique exhaustive enumeration of ray origins x directions x boxes of a dyadic lattice on the real code (plain, inverted and normalised rays, every way of giving the ray its direction) against exact slab-interval arithmetic
// @note Directions are non-zero. With normalised directions, which are rounded, grazing cases are judged only on the distances of clear hits and on clear misses; with unnormalised dyadic directions every case is exact and judged, grazing ones included.
// C07: a ray hits a box exactly where the slab intervals say it does.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
static f32x4 f4(V3 v, float w = 0) { return f32x4((float)v.x, (float)v.y, (float)v.z, w); }
struct Hit { bool hit; double t0, t1, slack; };
static Hit slab(V3 lo, V3 hi, V3 o, V3 d)
{
	double a = -INFINITY, b = INFINITY, slack = INFINITY; bool out = false;
	for (int i = 0; i < 3; i++) { if (d[i] == 0) { out |= o[i] < lo[i] || o[i] > hi[i]; slack = std::min(slack, std::min(std::fabs(o[i] - lo[i]), std::fabs(o[i] - hi[i]))); continue; } double t = (lo[i] - o[i]) / d[i], u = (hi[i] - o[i]) / d[i]; a = std::max(a, std::min(t, u)); b = std::min(b, std::max(t, u)); }
	slack = std::min(slack, std::min(std::fabs(b - a), std::fabs(b))); return { !out && a <= b && b >= 0, a, b, slack };
}
static void check2(const char* key, float2 g, const Hit& h, double scale, double tol, const std::string& in)
{
	trans(); out(mix(fbits(g.x), fbits(g.y))); if (h.hit) { if (!(std::fabs(g.x - h.t0 * scale) <= tol && std::fabs(g.y - h.t1 * scale) <= tol)) fail(key, "(%.9g, %.9g), want (%.9g, %.9g); %s", g.x, g.y, h.t0 * scale, h.t1 * scale, in.c_str()); if (!isAabbIntersected(g)) fail("isAabbIntersected", "says no for (%.9g, %.9g); %s", g.x, g.y, in.c_str()); }
	else { if (g.x != FLT_MAX || g.y != -FLT_MAX) fail(key, "(%.9g, %.9g) for a miss, want (FLT_MAX, -FLT_MAX); %s", g.x, g.y, in.c_str()); if (isAabbIntersected(g)) fail("isAabbIntersected", "says yes for a miss; %s", in.c_str()); }
}
static void check1(const char* key, float g, const Hit& h, double scale, double tol, const std::string& in) { trans(); if (h.hit ? !(std::fabs(g - h.t0 * scale) <= tol) : g != FLT_MAX) fail(key, "%.9g, want %.9g; %s", g, h.hit ? h.t0 * scale : (double)FLT_MAX, in.c_str()); }
// the scene of a case: every axis scaled by a power of two and moved, the direction scaled by a power of two; all of it exact
struct Scene { V3 scale{ 1, 1, 1 }, move{ 0, 0, 0 }; double speed = 1; };
static void one(V3 lo, V3 hi, V3 o, V3 d, int variant, const Scene* sc = nullptr)
{
	double slack0 = 0; if (sc) { slack0 = slab(lo, hi, o, d).slack; for (int i = 0; i < 3; i++) { lo[i] = lo[i] * sc->scale[i] + sc->move[i]; hi[i] = hi[i] * sc->scale[i] + sc->move[i]; o[i] = o[i] * sc->scale[i] + sc->move[i]; d[i] *= sc->scale[i] * sc->speed; } }
	next(); states(); trace(); std::string in = "box [" + str(lo) + " .. " + str(hi) + "] origin " + str(o) + " direction " + str(d); snprintf(what, sizeof what, "%s", in.c_str()); Hit h = slab(lo, hi, o, d); static const float W[] = { 0, 3, -3, 1e30f, -1e30f }; auto w = [&](int k) { return W[(variant + k) % 5]; };
	Aabb box(f4(lo, w(0)), f4(hi, w(1))); f32x4 D = f4(d, w(2)), O = f4(o, w(3)); if (variant & 1) for (int i = 0; i < 3; i++) if (d[i] == 0) D[i] = -0.0f; f32x4 I = f32x4(1.0f) / D;
	{ Ray r(O, D, false); check2("raycast2", raycast2(box, r), h, 1, 0, in); check1("raycast1", raycast1(box, r), h, 1, 0, in); if (raycast(box, r) != h.hit) fail("raycast", "want %d; %s", h.hit, in.c_str()); trans(); }
	{ Ray r; r.origin = O; r.setDirection(D, false); check2("setDirection raycast2", raycast2(box, r), h, 1, 0, in); }
	// inverted rays: the caller divides once and reuses the ray
	{ Ray r(O, I, false); check2("raycast2I", raycast2I(box, r), h, 1, 0, in); check1("raycast1I", raycast1I(box, r), h, 1, 0, in); if (raycastI(box, r) != h.hit) fail("raycastI", "want %d; %s", h.hit, in.c_str()); trans(); Ray q; q.origin = O; q.setDirection(I, false); check2("setDirection raycast2I", raycast2I(box, q), h, 1, 0, in); }
	double l = len(d); if (sc) h.slack = slack0; if (h.hit ? h.slack > 1e-3 : (h.slack > 1e-3 || l == 1)) // normalised: distances along the ray
	{
		Hit n = h; Ray r(O, D); double tol = 4e-6 * (!sc + (h.hit ? (std::fabs(h.t0) + std::fabs(h.t1)) * l : 0)); check2("raycast2 normalised", raycast2(box, r), n, l, tol, in); check1("raycast1 normalised", raycast1(box, r), n, l, tol, in); if (raycast(box, r) != h.hit) fail("raycast normalised", "want %d; %s", h.hit, in.c_str());
		Ray q; q.origin = O; q.setDirection(D); check2("setDirection normalised", raycast2(box, q), n, l, tol, in); Ray p(O, D, false); p.normalize(); check2("normalize()", raycast2(box, p), n, l, tol, in);
	}
}
static void body()
{
	std::vector<double> dc = { 0, 1, -1, 2, -2, 0.5, -0.5 }; std::vector<V3> ds, os, unitDirs; for (double x : dc) for (double y : dc) for (double z : dc) if (x || y || z) ds.push_back({ x, y, z });
	double R = thorough() ? 4 : 3; for (double x = -R; x <= R; x++) for (double y = -R; y <= R; y++) for (double z = -R; z <= R; z++) os.push_back({ x, y, z });
	std::vector<std::pair<V3, V3>> bs = { { { -1, -1, -1 }, { 1, 1, 1 } }, { { -2, 0, -1 }, { 1, 1, 2 } }, { { 0, 0, 0 }, { 0, 2, 2 } }, { { 1, -2, -2 }, { 2, 2, -1 } } }; if (thorough()) for (auto& b : { std::pair<V3, V3>{ { 0, 0, 0 }, { 0, 0, 0 } }, { { -1, 2, -2 }, { 2, 2, 2 } }, { { -0.5, -0.25, -2 }, { 0.5, 0.75, 3 } }, { { 2, 2, 2 }, { 3, 3, 3 } } }) bs.push_back(b);
	if (begin("origins x directions x boxes", true)) { u64 c = 0; for (auto& b : bs) for (auto& o : os) { if (!mine(c++)) continue; for (auto& d : ds) one(b.first, b.second, o, d, (int)idx); } sample("box [(-2,0,-1)..(1,1,2)] origin (3,-1,0) direction (-2,1,0.5)"); bound("origins x directions x boxes: all %zu dyadic directions x all %zu lattice origins x %zu boxes (thin ones included), W lanes and signs of zero varied", ds.size(), os.size(), bs.size()); }
	if (begin("aimed rays", true)) { u64 c = 0; for (auto& b : bs) for (auto& o : os) { if (!mine(c++)) continue; for (int k = 0; k < 27; k++) { V3 t; for (int i = 0, m = k; i < 3; i++, m /= 3) t[i] = m % 3 == 0 ? b.first[i] : m % 3 == 1 ? b.second[i] : (b.first[i] + b.second[i]) / 2; V3 d = t - o; bool p2 = len(d) > 0; for (int i = 0; i < 3; i++) { int e; if (d[i] && std::fabs(std::frexp(d[i], &e)) != 0.5) p2 = false; } if (p2) one(b.first, b.second, o, d, (int)idx); } } bound("aimed rays: from every lattice origin at every corner, edge and face centre and the centre (directions whose components are powers of two)"); }
	if (begin("scenes of other sizes", true))
	{
		std::vector<Scene> sc; auto P = [](int e) { return std::ldexp(1.0, e); }; for (int e : { -30, -13, -7, 7, 13, 24, 30 }) { Scene a; a.scale = { P(e), P(e), P(e) }; sc.push_back(a); a.speed = P(-e); sc.push_back(a); a.speed = P(-e / 2); sc.push_back(a); } for (int e : { -14, -6, 6, 14 }) { Scene a; a.speed = P(e); sc.push_back(a); }
		for (auto& m : { V3{ 1000, -2000, 3000 }, V3{ -5, -5, -5 }, V3{ 7, 7, 7 }, V3{ 262144, 262144, -262144 }, V3{ 0, 0, 4096 } }) { Scene a; a.move = m; sc.push_back(a); } for (int e : { 10, 14 }) for (int k = 0; k < 6; k++) { int x[3] = { k % 3 == 0 ? e : k % 3 == 1 ? 0 : -e, 0, 0 }; x[1] = k < 3 ? x[0] - e : -x[0]; x[2] = k < 3 ? 0 : e / 2; Scene a; a.scale = { P(x[0]), P(x[1]), P(x[2]) }; sc.push_back(a); }
		std::vector<V3> o2; for (double x : { -3.0, 0.0, 1.0, 2.0 }) for (double y : { -2.0, -1.0, 1.0, 3.0 }) for (double z : { -3.0, -1.0, 0.0, 2.0 }) o2.push_back({ x, y, z });
		u64 c = 0; for (auto& S : sc) for (auto& b : bs) for (auto& o : o2) { if (!mine(c++)) continue; for (size_t k = c % 3; k < ds.size(); k += thorough() ? 1 : 3) one(b.first, b.second, o, ds[k], (int)idx, &S); }
		bound("scenes of other sizes: %zu scenes scaled by 2^-30 .. 2^30 (also unevenly over the axes), moved by up to 262144 or with directions scaled by 2^-30 .. 2^30, x %zu boxes x 64 origins x %s of the directions", sc.size(), bs.size(), thorough() ? "all" : "a third");
	}
	if (begin("hit test of two distances")) { const float L[] = { -FLT_MAX, -1e20f, -3, -1e-30f, -0.0f, 0, 1e-40f, 1e-7f, 0.3f, 0.30000001f, 1, 1000, 16777217.0f, 1e20f, FLT_MAX, INFINITY, -INFINITY }; for (float a : L) for (float b : L) { next(); states(); trace(); trans(); bool g = isAabbIntersected(float2(a, b)), w = a <= b && b >= 0; out(g * 2 + w); if (g != w) fail("isAabbIntersected", "(%.9g, %.9g): %d", a, b, g); } bound("hit test of two distances: all pairs of 17 values"); }
}
}
VX_MAIN(vx::body)
