// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @sources aabb.cpp
// @shards 8
// @technique exhaustive enumeration of all pairs of boxes and all box/point pairs of a lattice, with adversarial fourth components, on the real code against exact interval arithmetic
// @note Every lattice case runs with 14 order-preserving images of the lattice: small dyadic numbers, numbers whose sums and differences round, thousands, millions, tiny, huge and negative numbers, zeros of both signs, and mixtures over the axes. Boundaries are closed. Boxes are non-empty (min <= max), degenerate ones (points, faces) included.
// C06: box containment, overlap and nearest-point queries.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
static const float W[] = { 0, 1, -1, 7, -1e30f, 1e30f };
struct Box { int lo[3], hi[3]; };
// order-preserving images of the lattice -4..4: small dyadic numbers, numbers whose sums and differences round, thousands, a box far away, everything negative, everything tiny, huge, zeros of both signs, and these mixed over the axes
enum { MODES = 14 };
static float val(int i, int mode, int ax, int zs)
{
	static const float R[9] = { -3e38f, -16777216.0f, -16777215.0f, -0.1f, 0, 1e-40f, 0.3f, 0.30000004f, 3e38f }; static const int X[4][3] = { { 4, 7, 5 }, { 6, 2, 7 }, { 7, 5, 4 }, { 9, 6, 3 } };
	if (mode >= 10) mode = X[mode - 10][ax];
	switch (mode) { case 2: return i * 0.25f; case 3: return R[i + 4]; case 4: return i * 5000.125f; case 5: return 3000000.0f + i; case 6: return i - 9.7f; case 7: return i * 1.7e-9f; case 8: return i ? (float)i : zs ? -0.0f : 0.0f; case 9: return i * 1.0e12f; } return (float)i;
}
static f32x4 v4(const int* p, float w, int s, int z = 0) { return f32x4(val(p[0], s, 0, z), val(p[1], s, 1, z), val(p[2], s, 2, z), w); }
static std::string str(const Box& b) { char c[120]; snprintf(c, sizeof c, "[(%d,%d,%d)..(%d,%d,%d)]", b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]); return c; }
static void pair(const Box& a, const Box& b, u64 n)
{
	next(); states(); trace(); snprintf(what, sizeof what, "%s %s", str(a).c_str(), str(b).c_str()); bool in = true, ov = true; for (int i = 0; i < 3; i++) { in &= a.lo[i] <= b.lo[i] && b.hi[i] <= a.hi[i]; ov &= a.lo[i] <= b.hi[i] && b.lo[i] <= a.hi[i]; }
	for (int k = 0; k < MODES; k++)
	{
		u64 m = n * MODES + k; float w[4]; for (int i = 0; i < 4; i++) { w[i] = k ? W[m % 6] : 0; m /= 6; m += k; } int s = k; Aabb A(v4(a.lo, w[0], s), v4(a.hi, w[1], s)), B(v4(b.lo, w[2], s, 1), v4(b.hi, w[3], s, n & 1)); trans(3); bool g;
		if ((g = isInside(A, B)) != in) fail("isInside(box, box)", "%s in %s: %d; scale %d, W lanes %g %g %g %g", str(b).c_str(), str(a).c_str(), g, k, w[0], w[1], w[2], w[3]);
		if ((g = isIntersected(A, B)) != ov) fail("isIntersected(box, box)", "%s with %s: %d; scale %d, W lanes %g %g %g %g", str(a).c_str(), str(b).c_str(), g, k, w[0], w[1], w[2], w[3]); if (isIntersected(B, A) != ov) fail("isIntersected symmetry", "%s with %s", str(b).c_str(), str(a).c_str());
	}
	if (n % 4 == 0) { Aabb A(v4(a.lo, -1, 4), v4(a.hi, 1, 4)); trans(2); if (!isInside(A, A) || !isIntersected(A, A)) fail("a box with itself", "%s", str(a).c_str()); if (!isInside(A, A.getMin()) || !isInside(A, A.getMax())) fail("own corner", "%s", str(a).c_str()); }
	out(in * 2 + ov);
}
static void point(const Box& a, const int* p, u64 n)
{
	next(); states(); trace(); bool in = true; int c[3]; for (int i = 0; i < 3; i++) { in &= a.lo[i] <= p[i] && p[i] <= a.hi[i]; c[i] = std::max(a.lo[i], std::min(a.hi[i], p[i])); }
	for (int k = 0; k < MODES; k++)
	{
		u64 m = n * MODES + k; float w[3]; for (int i = 0; i < 3; i++) { w[i] = k ? W[m % 6] : 0; m /= 6; m += k; } int s = k; Aabb A(v4(a.lo, w[0], s), v4(a.hi, w[1], s)); f32x4 P = v4(p, w[2], s, 1); trans(2); snprintf(what, sizeof what, "%s point (%d,%d,%d)", str(a).c_str(), p[0], p[1], p[2]);
		if (isInside(A, P) != in) fail("isInside(box, point)", "(%d,%d,%d) in %s should be %d; scale %d, W lanes %g %g %g", p[0], p[1], p[2], str(a).c_str(), in, k, w[0], w[1], w[2]); f32x4 q = closestPoint(A, P); for (int i = 0; i < 3; i++) if (q[i] != val(c[i], s, i, 0)) { fail("closestPoint", "of (%d,%d,%d) in %s: axis %d is %g want %g; scale %d, W lanes %g %g %g", p[0], p[1], p[2], str(a).c_str(), i, q[i], val(c[i], s, i, 0), k, w[0], w[1], w[2]); break; }
	}
	out(in + 2 * c[0] + 16 * c[1] + 128 * c[2]);
}
static void body()
{
	int n = thorough() ? 3 : 2; std::vector<std::pair<int, int>> iv; for (int l = -n; l <= n; l++) for (int h = l; h <= n; h++) iv.push_back({ l, h }); int K = iv.size();
	// all interval pairs on one axis x a 9-element set of placements on each of the others (which covers every relation: before, touching, overlapping, inside, equal, around, after)
	std::vector<std::array<int, 4>> rel = { { 0, 1, 0, 1 }, { 0, 1, 2, 3 }, { 2, 3, 0, 1 }, { 0, 1, 1, 2 }, { 1, 2, 0, 1 }, { 0, 3, 1, 2 }, { 1, 2, 0, 3 }, { 0, 2, 1, 3 }, { 1, 3, 0, 2 }, { 0, 2, 0, 1 }, { 0, 2, 1, 2 }, { 0, 1, 0, 2 }, { 1, 2, 0, 2 }, { 1, 1, 1, 1 }, { 1, 1, 0, 2 }, { 0, 0, 1, 1 } };
	if (begin("box pairs by relation", true)) { u64 c = 0; for (int ax = 0; ax < 3; ax++) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (auto& r : rel) for (auto& s : rel) { u64 no = c++; if (!mine(no)) continue; Box a, b; a.lo[ax] = iv[i].first; a.hi[ax] = iv[i].second; b.lo[ax] = iv[j].first; b.hi[ax] = iv[j].second; int p = (ax + 1) % 3, q = (ax + 2) % 3; a.lo[p] = r[0]; a.hi[p] = r[1]; b.lo[p] = r[2]; b.hi[p] = r[3]; a.lo[q] = s[0]; a.hi[q] = s[1]; b.lo[q] = s[2]; b.hi[q] = s[3]; pair(a, b, no / 8); } sample("boxes [(0,0,0)..(1,1,1)] and [(1,1,0)..(2,3,2)]"); bound("box pairs by relation: every pair of lattice intervals on one axis x all 16^2 interval relations on the other two, each axis in turn, x 14 images with junk fourth components"); }
	if (begin("box pairs", true)) { u64 c = 0; std::vector<Box> bs; int m = thorough() ? 3 : 2; std::vector<std::pair<int, int>> w; for (int l = 0; l <= m; l++) for (int h = l; h <= m; h++) w.push_back({ l, h }); for (auto& x : w) for (auto& y : w) for (auto& z : w) bs.push_back({ { x.first, y.first, z.first }, { x.second, y.second, z.second } }); for (auto& a : bs) for (auto& b : bs) { u64 no = c++; if (mine(no)) pair(a, b, no / 8); } bound("box pairs: all pairs of the %zu boxes of the lattice 0..%d^3", bs.size(), m); }
	if (begin("box and point", true)) { u64 c = 0; for (auto& x : iv) for (auto& y : iv) for (auto& z : iv) { if (!mine(c++)) continue; Box a{ { x.first, y.first, z.first }, { x.second, y.second, z.second } }; u64 k = c; int R = thorough() ? n + 1 : n; int p[3]; for (p[0] = -R; p[0] <= R; p[0]++) for (p[1] = -R; p[1] <= R; p[1]++) for (p[2] = -R; p[2] <= R; p[2]++) point(a, p, k++); } sample("point (2,-1,0) and box [(-1,-1,0)..(1,2,0)]"); bound("box and point: all %d^3 boxes x all lattice points", K); }
}
}
VX_MAIN(vx::body)
