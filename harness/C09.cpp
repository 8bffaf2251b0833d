// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @sources aabb.cpp
// @shards 8
// @technique exhaustive enumeration of planes, segments, rays, spheres and triangles x query points of integer lattices on the real code, against exact integer predicates and double-precision nearest points
// @note Degenerate shapes (zero-length lines and rays, collinear triangles), a query at a sphere's centre, and exact touching of spheres are not judged. isInside(triangle, point) is judged for points in the triangle's plane.
// C09: planes, lines, rays, spheres and triangles agree on distance and nearest point.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/sphere.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
static V3 d3(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static const float W[] = { 0, 1, -7, 1e30f, 3 }; static f32x4 f4(V3 v, int k = 0) { return f32x4((float)v.x, (float)v.y, (float)v.z, W[(idx + k) % 5]); }
static std::vector<V3> cube(int r) { std::vector<V3> o; for (int x = -r; x <= r; x++) for (int y = -r; y <= r; y++) for (int z = -r; z <= r; z++) o.push_back({ (double)x, (double)y, (double)z }); return o; }

// the scene: every point p of a lattice becomes p * SC + MV (exact); K is the size that absolute tolerances are relative to
static V3 SC{ 1, 1, 1 }, MV{ 0, 0, 0 }; static double K = 1, LS = 1; static void scene(V3 s, V3 m = { 0, 0, 0 }) { SC = s; MV = m; LS = std::max(s.x, std::max(s.y, s.z)); K = LS + len(m); }
static V3 at(V3 p) { for (int i = 0; i < 3; i++) p[i] = p[i] * SC[i] + MV[i]; return p; }
static void plane(V3 n, double d)
{
	d *= LS; states(); V3 u = unit(n); Plane raw(f4(n), (float)d, false), nrm(f4(n, 1), (float)d), whole(f4(n), (float)d, false), st(f4({ 9, 9, 9 }), 7, false); whole.normalize(); st.setNormal(f4(n, 2)); st.setDistance((float)d); Plane su; su.setNormal(f4(n), false); su.setDistance((float)d); double l = len(n);
	for (V3 p : cube(2))
	{
		p = at(p); next(); trace(); std::string in = "plane " + str(n) + " | " + std::to_string(d) + " point " + str(p); double w = dot(n, p) + d, wn = dot(u, p) + d; near1("distance3", distance3(raw, f4(p)), w, 0, in); near1("setNormal(false)", distance3(su, f4(p, 1)), w, 0, in); near1("distance3 unit normal", distance3(nrm, f4(p, 2)), wn, 3e-6 * K, in); near1("setNormal, setDistance", distance3(st, f4(p, 1)), wn, 3e-6 * K, in); near1("normalize()", distance3(whole, f4(p)), w / l, 3e-6 * K, in);
		near3("closestPoint(plane)", d3(closestPoint(nrm, f4(p, 3))), p - u * wn, 6e-6 * K, in); near1("closest point on the plane", distance3(nrm, closestPoint(nrm, f4(p))), 0, 1e-5 * K, in); if (raw.getDistance() != (float)d) fail("getDistance", "%s", in.c_str());
	}
	near3("getNormal", d3(nrm.getNormal()), u, 1e-6, str(n)); near3("getNormal raw", d3(raw.getNormal()), n, 0, str(n)); Plane cp = raw; trans(); if (!(cp == raw) || cp != raw) fail("==", "copy differs");
}
static void segment(V3 a, V3 b, V3 p)
{
	a = at(a); b = at(b); p = at(p); 	next(); states(); trace(); std::string in = "from " + str(a) + " through " + str(b) + " point " + str(p); V3 v = b - a; double t = dot(p - a, v) / dot(v, v), c = std::max(0.0, std::min(1.0, t)); Line l(f4(a), f4(b, 1)); near3("closestPoint(line)", d3(closestPoint(l, f4(p, 2))), a + v * c, 4e-6 * K, in);
	float ft = -99; near3("closestPoint(line, t)", d3(closestPoint(l, f4(p, 1), ft)), a + v * c, 4e-6 * K, in); if (t >= 0 && t <= 1) near1("closestPoint t", ft, t, 1e-6, in); near3("Line::getDirection", d3(l.getDirection()), unit(v), 1e-6, in); near3("Line::getDirection(false)", d3(l.getDirection(false)), v, 0, in);
	Ray r(f4(a), f4(v, 3), false), rn(f4(a, 1), f4(v)); V3 w = a + v * std::max(0.0, t); near3("closestPoint(ray)", d3(closestPoint(r, f4(p))), w, 1e-5 * K, in); near3("closestPoint(unit ray)", d3(closestPoint(rn, f4(p, 2))), w, 2e-5 * K, in);
}
static void ball(V3 c, double r, V3 p, V3 c2, double r2)
{
	c = at(c); p = at(p); c2 = at(c2); r *= LS; r2 *= LS; 	next(); states(); trace(); Sphere s((float)r, f4(c)), q; q.setPosition(f4(c2, 1)); q.setRadius((float)r2); std::string in = "sphere " + str(c) + " r " + std::to_string(r) + " point/centre " + str(p) + " / " + str(c2) + " r2 " + std::to_string(r2); double d = len(p - c);
	trans(); if (s.getRadius() != (float)r || q.getRadius() != (float)r2) fail("getRadius", "%s", in.c_str()); near3("getPosition", d3(s.getPosition()), c, 0, in); near3("setPosition", d3(q.getPosition()), c2, 0, in);
	if (dot(p - c, p - c) != r * r && isInside(s, f4(p, 1)) != (d < r)) fail("isInside(sphere)", "should be %d; %s", d < r, in.c_str()); if (d > 0) near3("closestPoint(sphere)", d3(closestPoint(s, f4(p, 2))), c + (p - c) * (r / d), 1e-5 * K, in);
	double dd = dot(c2 - c, c2 - c), sum = (r + r2) * (r + r2); trans(2); if (dd != sum) { if (isIntersected(s, q) != (dd < sum)) fail("isIntersected(sphere, sphere)", "should be %d; %s", dd < sum, in.c_str()); if (isIntersected(q, s) != (dd < sum)) fail("isIntersected symmetry", "%s", in.c_str()); }
}
static void ballBox(V3 c, double r, V3 lo, V3 hi)
{
	c = at(c); lo = at(lo); hi = at(hi); r *= LS; 	next(); states(); trace(); double d2 = 0; for (int i = 0; i < 3; i++) { double x = std::max(lo[i] - c[i], std::max(0.0, c[i] - hi[i])); d2 += x * x; } if (d2 == r * r) return; trans(); out(d2 < r * r); float w1 = W[idx % 5], w2 = W[(idx / 5) % 5]; if (w1 > w2) std::swap(w1, w2); bool g = isIntersected(Sphere((float)r, f4(c)), Aabb(f32x4(lo.x, lo.y, lo.z, w1), f32x4(hi.x, hi.y, hi.z, w2)));
	if (g != (d2 < r * r)) fail("isIntersected(sphere, box)", "%d: sphere %s r %g box [%s .. %s]", g, str(c).c_str(), r, str(lo).c_str(), str(hi).c_str());
}
static V3 nearest(V3 a, V3 b, V3 c, V3 p) // plane projection if it falls inside, else the nearest of the three edges
{
	V3 n = cross(b - a, c - a); double nn = dot(n, n); V3 q = p - n * (dot(n, p - a) / nn); double u = dot(cross(c - b, q - b), n), v = dot(cross(a - c, q - c), n), w = dot(cross(b - a, q - a), n); if (u >= 0 && v >= 0 && w >= 0) return q; V3 best; double bd = 1e300; V3 e[4] = { a, b, c, a };
	for (int i = 0; i < 3; i++) { V3 d = e[i + 1] - e[i]; double t = std::max(0.0, std::min(1.0, dot(p - e[i], d) / dot(d, d))); V3 x = e[i] + d * t; double l = dot(p - x, p - x); if (l < bd) { bd = l; best = x; } } return best;
}
static bool flat(V3 a, V3 b, V3 c) { V3 n = cross(b - a, c - a); return dot(n, n) == 0; }
static void tri(V3 a, V3 b, V3 c, const std::vector<V3>& pts)
{
	a = at(a); b = at(b); c = at(c); if (flat(a, b, c)) return; states(); V3 n = cross(b - a, c - a), u = unit(n); std::string ts = "triangle " + str(a) + " " + str(b) + " " + str(c); Triangle t(f4(a), f4(b, 1), f4(c, 2)); Plane pl(t); snprintf(what, sizeof what, "%s", ts.c_str());
	near3("Plane(triangle) normal", d3(pl.getNormal()), u, 1e-6, ts); for (V3 v : { a, b, c }) near1("Plane(triangle) vertex distance", distance3(pl, f4(v)), 0, 3e-6 * K, ts);
	for (V3 p : pts)
	{
		p = at(p); next(); trace(); std::string in = ts + " point " + str(p); double h = dot(n, p - a); near1("Plane(triangle) distance", distance3(pl, f4(p)), h / len(n), 6e-6 * K, in); V3 w = nearest(a, b, c, p), g = d3(closestPoint(t, f4(p, 1))); near3("closestPoint(triangle)", g, w, 3e-5 * K, in);
		V3 o = p - u * (dot(u, p - a)); double bu = dot(cross(b - o, c - o), n) / dot(n, n), bv = dot(cross(c - o, a - o), n) / dot(n, n); f32x4 bc = calcBarycentric(t, f4(p, 3)); near3("calcBarycentric", d3(bc), { bu, bv, 1 - bu - bv }, 2e-5, in);
		if (h == 0) { double x = dot(cross(c - b, p - b), n), y = dot(cross(a - c, p - c), n), z = dot(cross(b - a, p - a), n); bool inside = x >= 0 && y >= 0 && z >= 0; trans(); out(inside); if (isInside(t, f4(p, 2)) != inside) fail("isInside(triangle)", "should be %d; %s", inside, in.c_str()); }
	}
}
static void body()
{
	auto P1 = cube(1), P2 = cube(2), P3 = cube(3);
	if (begin("planes", true)) { u64 n = 0; for (auto& d : directions(thorough() ? 3 : 2)) for (double k : { -2.0, 0.0, 1.5 }) if (mine(n++)) plane(d, k); sample("plane (1,-2,2) | 1.5"); bound("planes: all lattice normals x 3 distances x 5^3 points"); }
	if (begin("segments and rays", true)) { u64 n = 0; for (auto& a : P1) for (auto& b : P2) { if (!mine(n++) || len(b - a) == 0) continue; for (auto& p : thorough() ? P3 : P2) segment(a, b, p); } sample("from (-1,0,1) to (2,-2,1)"); bound("segments and rays: 27 starts x 125 ends x all lattice points"); }
	if (begin("spheres", true)) { u64 n = 0; for (auto& c : P1) for (double r : { 0.5, 1.0, 2.5 }) for (double r2 : { 0.0, 0.25, 2.0 }) { if (!mine(n++)) continue; size_t k = 0; for (auto& p : P3) ball(c, r, p, P3[(k++ * 59) % P3.size()], r2); } bound("spheres: 27 centres x 3 x 3 radii x 7^3 points and second centres"); }
	if (begin("sphere and box", true)) { u64 n = 0; for (auto& c : P3) { if (!mine(n++)) continue; for (auto& lo : P1) for (auto& s : cube(1)) { V3 e{ s.x + 1, s.y + 1, s.z + 1 }; for (double r : { 0.0, 0.75, 1.5, 2.25, 3.5 }) ballBox(c, r, lo, lo + e); } } sample("sphere (3,-2,0) r 2.25 with box [(-1,-1,0)..(1,0,0)]"); bound("sphere and box: 7^3 centres x 27 x 27 boxes (thin ones included) x 5 radii"); }
	if (begin("triangles", true)) { u64 n = 0; std::vector<V3> L; for (auto& p : P1) L.push_back(p); for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < L.size(); j++) { if (!mine(n++)) continue; for (size_t k = 0; k < L.size(); k++) { if (!thorough() && (i + 2 * j + 5 * k) % 4) continue; tri(L[i], L[j], L[k], P2); } } sample("triangle (-1,0,1) (1,1,0) (0,-1,1) and all points of -2..2^3"); bound("triangles: all ordered vertex triples of the 27-point lattice (quick: every fourth) x 5^3 points; isInside on every lattice point of the triangle's plane"); }
	if (begin("flat triangles", true)) { u64 n = 0; auto sq = [](int r, int ax) { std::vector<V3> o; for (int x = -r; x <= r; x++) for (int y = -r; y <= r; y++) { V3 p; p[(ax + 1) % 3] = x; p[(ax + 2) % 3] = y; p[ax] = ax; o.push_back(p); } return o; }; for (int ax = 0; ax < 3; ax++) { auto L = sq(2, ax), Q = sq(4, ax); for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < L.size(); j++) { if (!mine(n++)) continue; for (size_t k = 0; k < L.size(); k++) { if (!thorough() && (i + 3 * j + k) % 5) continue; tri(L[i], L[j], L[k], Q); } } } bound("flat triangles: triples of the 5x5 grid in each coordinate plane (quick: every fifth) x the 9x9 grid in the same plane"); }
	if (begin("scenes of other sizes", true))
	{
		struct S { V3 s, m; }; std::vector<S> sc; auto P = [](int e) { return std::ldexp(1.0, e); }; for (int e : { -24, -12, -5, 5, 12, 24 }) sc.push_back({ { P(e), P(e), P(e) }, { 0, 0, 0 } }); for (auto& m : { V3{ 1000, -2000, 3000 }, V3{ -5, -6, -7 }, V3{ 8, 7, 6 }, V3{ 0, 0, 65536 }, V3{ -20000, 0, 0 } }) sc.push_back({ { 1, 1, 1 }, m }); sc.push_back({ { P(10), P(10), P(10) }, { -65536, 1e6, 0 } }); sc.push_back({ { P(-8), P(-8), P(-8) }, { 16, -16, 4 } }); size_t even = sc.size(); for (int k = 0; k < 3; k++) { V3 a{ 1, 1, 1 }, b{ 4, 4, 4 }; a[k] = 8; b[k] = 0.25; sc.push_back({ a, { 0, 0, 0 } }); sc.push_back({ b, { 0, 0, 0 } }); }
		u64 n = 0; std::vector<V3> Q; for (double x : { -2.0, 0.0, 1.0, 2.0 }) for (double y : { -2.0, -1.0, 0.0, 2.0 }) for (double z : { -1.0, 0.0, 1.0, 2.0 }) Q.push_back({ x, y, z });
		for (size_t i = 0; i < sc.size(); i++)
		{
			scene(sc[i].s, sc[i].m); for (auto& d : directions(1)) for (double k : { -2.0, 0.0, 1.5 }) if (mine(n++)) plane(d, k); for (auto& a : P1) for (auto& b : P1) if (mine(n++) && len(b - a) > 0) for (auto& p : Q) segment(a, b, p);
			for (auto& c : P1) for (double r : { 0.5, 2.5 }) for (double r2 : { 0.0, 0.25, 2.0 }) { if (!mine(n++)) continue; size_t k = 0; for (auto& p : Q) ball(c, r, p, P3[(k++ * 59 + n) % P3.size()], r2); } for (auto& c : P2) { if (!mine(n++)) continue; for (auto& lo : P1) for (double r : { 0.0, 0.75, 2.25 }) { ballBox(c, r, lo, lo + V3{ 1, 0, 2 }); ballBox(c, r, lo, lo + V3{ 0.5, 1, 1 }); } }
			for (size_t a = 0; a < P1.size(); a++) for (size_t b = 0; b < P1.size(); b++) { if (!mine(n++)) continue; for (size_t c = 0; c < P1.size(); c++) { if ((a + 2 * b + 5 * c + i) % (thorough() ? 3 : 23)) continue; tri(P1[a], P1[b], P1[c], Q); } }
		}
		scene({ 1, 1, 1 }); bound("scenes of other sizes: %zu scenes scaled by 2^-24 .. 2^24 or moved by up to 1e6 and %zu scaled unevenly over the axes x planes, segments, rays, spheres, boxes and triangles over 64 points", even, sc.size() - even);
	}
	if (begin("uneven coordinates", true)) // the three coordinates of every point differ in size: all 48 signed permutations
	{
		u64 n = 0; auto perms = [](V3 v) { std::vector<V3> o; int p[3] = { 0, 1, 2 }; do for (int s = 0; s < 8; s++) o.push_back({ s & 1 ? -v[p[0]] : v[p[0]], s & 2 ? -v[p[1]] : v[p[1]], s & 4 ? -v[p[2]] : v[p[2]] }); while (std::next_permutation(p, p + 3)); return o; };
		auto U = perms({ 9, 4, 1 }), L = perms({ 40, 3, 0.25 }), Z = U; for (auto& v : perms({ 20, 8, 2.5 })) Z.push_back(v); for (auto& v : L) Z.push_back(v); for (auto& v : perms({ 0.5, 0.125, 0.03125 })) Z.push_back(v);
		auto skinny = [](V3 a, V3 b, V3 c) { V3 n = cross(b - a, c - a); double e = std::max(dot(b - a, b - a), std::max(dot(c - b, c - b), dot(a - c, a - c))); return dot(n, n) < 0.1 * e * e; };
		for (int big = 0; big < 2; big++)
		{
			auto& A = big ? L : U; K = big ? 40 : 9;
			for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A.size(); j++)
			{
				if (!mine(n++)) continue; if (i != j) for (size_t k = (i + j) % 3; k < Z.size(); k += thorough() ? 1 : 3) segment(A[i], A[j], Z[k]);
				if (i != j) for (size_t k = 0; k < A.size(); k++) { if (k == i || k == j || (i + 7 * j + 3 * k) % (thorough() ? 5 : 41) || skinny(A[i], A[j], A[k])) continue; tri(A[i], A[j], A[k], Z); }
				size_t k = i * 5 + j; for (double r : { 3.0, 12.5 }) { ball(A[i], r, Z[(k += 7) % Z.size()], Z[(k += 11) % Z.size()], 2.25); V3 lo, hi; for (int x = 0; x < 3; x++) lo[x] = std::min(A[i][x], A[j][x]), hi[x] = std::max(A[i][x], A[j][x]); for (int m = 0; m < 6; m++) ballBox(Z[(k += 13) % Z.size()], r, lo, hi); }
			}
		}
		scene({ 1, 1, 1 }); bound("uneven coordinates: signed permutations of (9,4,1) and (40,3,0.25) as ends, vertices, centres and corners x 192 signed permutations as points");
	}
}
}
VX_MAIN(vx::body)
