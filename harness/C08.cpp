// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @sources aabb.cpp
// @shards 8
// @technique exhaustive enumeration of all triangles of an integer lattice x boxes on the real code, against exact polygon clipping in homogeneous integer coordinates
// @note Touching counts as intersecting (closed sets). Degenerate triangles (collinear or coincident vertices) are not judged. Every configuration is also checked in four (thorough: all 16) of 16 other scenes (scaled per axis by 2^-24 .. 2^23, or moved) in turn. All coordinates are dyadic numbers of few bits, so the float computation is exact.
// C08: the box/triangle overlap test agrees with exact geometry.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
typedef __int128 I; struct HP { I c[4]; }; // homogeneous point, weight c[3] > 0
static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static void reduce(HP& p) { I g = 0; for (I x : p.c) g = gcd(g, x); if (g > 1) for (I& x : p.c) x /= g; }
// keeps the part of the polygon with s * p[axis] <= lim
static std::vector<HP> clip(const std::vector<HP>& p, int axis, int s, I lim)
{
	std::vector<HP> o; auto d = [&](const HP& a) { return s * a.c[axis] - lim * a.c[3]; };
	for (size_t i = 0; i < p.size(); i++) { const HP &a = p[i], &b = p[(i + 1) % p.size()]; I da = d(a), db = d(b); if (da <= 0) o.push_back(a); if ((da < 0 && db > 0) || (da > 0 && db < 0)) { HP q; for (int k = 0; k < 4; k++) q.c[k] = da > 0 ? a.c[k] * -db + b.c[k] * da : a.c[k] * db + b.c[k] * -da; reduce(q); o.push_back(q); } }
	return o;
}
struct P3 { int v[3]; };
static bool exact(const P3* t, const int* c, const int* e) // everything in units of 1/4
{
	std::vector<HP> p; for (int i = 0; i < 3; i++) p.push_back({ { t[i].v[0], t[i].v[1], t[i].v[2], 1 } }); for (int a = 0; a < 3 && !p.empty(); a++) { p = clip(p, a, 1, c[a] + e[a]); if (!p.empty()) p = clip(p, a, -1, e[a] - c[a]); } return !p.empty();
}
static bool degenerate(const P3* t) { int a[3], b[3]; for (int i = 0; i < 3; i++) { a[i] = t[1].v[i] - t[0].v[i]; b[i] = t[2].v[i] - t[0].v[i]; } return a[1] * b[2] == a[2] * b[1] && a[2] * b[0] == a[0] * b[2] && a[0] * b[1] == a[1] * b[0]; }
static u64 sepSeen = 0;
// scenes: the same configuration scaled per axis by powers of two and moved; every number stays exact
struct Scene { float s[3]; int m[3]; };
static const Scene SC[] = { { { 1, 1, 1 }, { 0, 0, 0 } }, { { 1.0f / 4096, 1.0f / 4096, 1.0f / 4096 }, { 0, 0, 0 } }, { { 1, 1, 1 }, { -240, 101, 400 } }, { { 16, 1, 0.125f }, { 0, 0, 0 } }, { { 4096, 4096, 4096 }, { 7, -3, 2 } }, { { 0.0625f, 8, 2 }, { 0, 0, 0 } }, { { 1, 1, 1 }, { 398, -281, -221 } }, { { 1.0f / 16777216, 1.0f / 16777216, 1.0f / 16777216 }, { 1, 1, 1 } }, { { 1, 0.0078125f, 32 }, { -9, 12, -30 } }, { { 8388608, 8388608, 8388608 }, { 0, 0, 0 } }, { { 1, 1, 1 }, { 0, 0, -256 } }, { { 1, 1, 1 }, { -40, -60, -90 } }, { { 1, 1, 1 }, { 400, 150, 40 } }, { { 0.5f, 1, 1 }, { 7, 80, 300 } }, { { 1, 4, 1 }, { 900, -200, -33 } }, { { 2, 1, 1 }, { -500, 0, 0 } }, { { 1, 1, 1 }, { 0, 333, 0 } } };
static void one(const P3* t, const int* c, const int* e, bool all)
{
	next(); states(); trace(); bool want = exact(t, c, e); out(want); static const float W[] = { 0, 5, -7, 1e20f }; static const int PM[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 0, 2, 1 }, { 2, 1, 0 }, { 1, 0, 2 } }; const int NS = sizeof SC / sizeof *SC;
	for (int scene = 0; scene < (thorough() ? 17 : 5); scene++)
	{
		const Scene& z = SC[scene ? 1 + (idx * 7 + idx / 16 + (scene - 1) * 5) % (NS - 1) : 0]; auto at = [&](const int* v, float w, bool mv = true) { float r[3]; for (int i = 0; i < 3; i++) r[i] = (v[i] + (mv ? z.m[i] : 0)) * 0.25f * z.s[i]; return f32x4(r[0], r[1], r[2], w); };
		f32x4 p[3]; for (int i = 0; i < 3; i++) p[i] = at(t[i].v, W[(idx + i) % 4]); f32x4 C = at(c, W[(idx / 4) % 4]), E = at(e, W[(idx / 16) % 4], false);
		for (int k = 0; k < (scene ? 1 : all ? 6 : 2); k++) { auto& q = PM[all && !scene ? k : (idx + 3 * k + scene * 5) % 6]; trans(); bool g = isAabbIntersected(C, E, Triangle(p[q[0]], p[q[1]], p[q[2]])); if (g != want) { fail("isAabbIntersected", "%d want %d: triangle (%g %g %g) (%g %g %g) (%g %g %g) box centre (%g %g %g) extent (%g %g %g)", g, want, p[q[0]][0], p[q[0]][1], p[q[0]][2], p[q[1]][0], p[q[1]][1], p[q[1]][2], p[q[2]][0], p[q[2]][1], p[q[2]][2], C[0], C[1], C[2], E[0], E[1], E[2]); return; } }
	}
}
static void body()
{
	struct Bx { int c[3], e[3]; }; std::vector<Bx> bs = { { { 0, 0, 0 }, { 4, 4, 4 } }, { { 2, -1, 1 }, { 2, 4, 3 } }, { { 1, 2, -2 }, { 1, 1, 6 } }, { { 0, 1, 3 }, { 0, 2, 1 } } }; if (thorough()) for (Bx b : { Bx{ { 4, 4, 4 }, { 2, 2, 2 } }, Bx{ { -3, 2, 1 }, { 5, 1, 2 } }, Bx{ { 0, 0, 0 }, { 0, 0, 0 } }, Bx{ { -1, -1, 2 }, { 7, 3, 0 } } }) bs.push_back(b);
	auto lattice = [](std::vector<int> v) { std::vector<P3> o; for (int x : v) for (int y : v) for (int z : v) o.push_back({ { x, y, z } }); return o; };
	auto run = [&](const char* name, const std::vector<P3>& L, bool all) { if (!begin(name, true)) return; u64 n = 0, c = 0; int K = L.size(); for (int i = 0; i < K; i++) for (int j = i + 1; j < K; j++) { if (!mine(c++)) continue; for (int k = j + 1; k < K; k++) { P3 t[3] = { L[i], L[j], L[k] }; if (degenerate(t)) continue; n++; for (auto& b : bs) one(t, b.c, b.e, all); } } sample("triangle (%d,%d,%d)/4 .. with box centre (2,-1,1)/4 extent (2,4,3)/4", L[1].v[0], L[1].v[1], L[1].v[2]); bound("%s: all non-degenerate triangles of the lattice (%d^3-type, %d points) x %zu boxes, vertex orders varied", name, (int)std::lround(std::cbrt(K)), K, bs.size()); };
	run("27-point lattice", lattice({ -8, 0, 8 }), true); run("27-point skew lattice", lattice({ -7, 1, 5 }), true); run("27-point far lattice", lattice({ -3, 6, 20 }), true); run("64-point lattice", lattice({ -8, -3, 2, 7 }), false);
	if (thorough()) run("125-point lattice", lattice({ -12, -5, 0, 3, 9 }), false);
	// needles pointing at a face: no edge direction separates them, only the face normal does
	if (begin("needles at faces", true)) { u64 c = 0; for (auto& b : bs) for (int ax = 0; ax < 3; ax++) for (int s = -1; s <= 1; s += 2) for (int off = -3; off <= 6; off++) { if (!mine(c++)) continue; int u = (ax + 1) % 3, v = (ax + 2) % 3; for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int m = 0; m < 81; m++) { P3 t[3]; int q[4] = { m % 3, m / 3 % 3, m / 9 % 3, m / 27 }; auto put = [&](P3& p, int a, int du, int dv) { p.v[ax] = b.c[ax] + s * (b.e[ax] + a); p.v[u] = b.c[u] + x * b.e[u] / 2 + du; p.v[v] = b.c[v] + y * b.e[v] / 2 + dv; }; put(t[0], off, 0, 0); put(t[1], off + 90, q[0] - 1, q[1] - 1); put(t[2], off + 40 + 3 * q[2], q[2] - 1, 2 * q[3] - 2); if (!degenerate(t)) one(t, b.c, b.e, false); } } sample("triangle with one corner %d quarter units in front of a face, the others 40 and 90 further out", 3); bound("needles at faces: each face of %zu boxes, corner distances -3..6, 9 foot points, 81 bends", bs.size()); }
	// one thin triangle family per box edge direction: sliding past the edges at every distance (touching included)
	if (begin("sliding past edges", true)) { u64 c = 0; int R = thorough() ? 14 : 10; for (auto& b : bs) for (int ax = 0; ax < 3; ax++) for (int su = -1; su <= 1; su += 2) for (int sv = -1; sv <= 1; sv += 2) for (int off = -R; off <= R; off++) { if (!mine(c++)) continue; int u = (ax + 1) % 3, v = (ax + 2) % 3; for (int tilt = -6; tilt <= 6; tilt++) for (int sh = -6; sh <= 6; sh += 2) for (int slope = 1; slope <= 3; slope++) { P3 t[3]; int cu = b.c[u] + su * b.e[u], cv = b.c[v] + sv * b.e[v]; auto put = [&](P3& p, int a, int x, int y) { p.v[ax] = b.c[ax] + a; p.v[u] = cu + x; p.v[v] = cv + y; }; put(t[0], sh - tilt, su * (off + 6 * slope), -sv * 6); put(t[1], sh + tilt, su * (off - 6), sv * 6 * slope); put(t[2], sh + 3, su * (off + 9), sv * 11); if (!degenerate(t)) one(t, b.c, b.e, false); } } bound("sliding past edges: triangles tilted along each of the 12 box edges at offsets -%d..%d quarter units, 13 tilts, 7 shifts, 3 slopes", R, R); }
}
}
VX_MAIN(vx::body)
