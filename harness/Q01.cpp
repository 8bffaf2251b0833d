// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of all pairs and triples over the integer quaternion lattice, all rotations x vectors, and closure of the 48-element binary octahedral group by BFS, on the real code against the Hamilton product and the rotation v -> q v q^-1 in double precision
// @note Integer-quaternion products are compared exactly. Rotating a vector uses unit quaternions; the W lane of rotated vectors is not judged.
// Q01: quaternions act as rotations: products, inverses, vectors and matrices agree.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
LIN_GLUE LIN_GLUE_M
static void pair(Q4 a, Q4 b, bool exact)
{
	next(); states(); trace(2); std::string in = "a=" + str(a) + " b=" + str(b); snprintf(what, sizeof what, "%s", in.c_str()); quat A = fq(a), B = fq(b); Q4 w = a * b, g = dq(A * B); trans();
	double tol = exact ? 0 : 5e-7; if (!(std::fabs(g.x - w.x) <= tol && std::fabs(g.y - w.y) <= tol && std::fabs(g.z - w.z) <= tol && std::fabs(g.w - w.w) <= tol)) fail("a*b", "%s want %s; %s", str(g).c_str(), str(w).c_str(), in.c_str()); out(mix(fbits(g.x), fbits(g.w)));
	quat C = A; quat& r = (C *= B); trans(); Q4 c = dq(C); if (memcmp(&c, &g, sizeof c) || &r != &C) fail("a*=b", "%s, a*b is %s; %s", str(c).c_str(), str(g).c_str(), in.c_str());
}
static void single(Q4 q) // any non-zero quaternion
{
	next(); states(); trace(); std::string in = "q=" + str(q); snprintf(what, sizeof what, "%s", in.c_str()); quat Q = fq(q); Q4 u = unit(q); double n = dot(q, q);
	{ Q4 g = dq(conjugate(Q)), w = conj(dq(Q)); trans(); if (g.x != w.x || g.y != w.y || g.z != w.z || g.w != w.w) fail("conjugate", "%s want %s", str(g).c_str(), str(w).c_str()); }
	{ Q4 g = dq(inverse(Q)), w = conj(q), p = dq(inverse(Q) * Q), p2 = dq(Q * inverse(Q)); trans(3); double t = 5e-7 / std::sqrt(n); for (int i = 0; i < 4; i++) { double gi = (&g.x)[i], wi = (&w.x)[i] / n; if (!(std::fabs(gi - wi) <= t)) fail("inverse", "%s, part %d should be %.9g; %s", str(g).c_str(), i, wi, in.c_str()); if (!(std::fabs((&p.x)[i] - (i == 3)) <= 1e-6 && std::fabs((&p2.x)[i] - (i == 3)) <= 1e-6)) fail("inverse*q", "%s; %s", str(p).c_str(), in.c_str()); } }
	{ Q4 g = dq(normalize(Q)); nearq("normalize", g, u, 5e-7, in); if (dot(g, u) < 0) fail("normalize sign", "%s", in.c_str()); }
	{ quat I = quat::identity; Q4 g = dq(Q * I), h = dq(I * Q), w = dq(Q); trans(2); if (memcmp(&g, &w, sizeof g) && !(g.x == w.x && g.y == w.y && g.z == w.z && g.w == w.w)) fail("q*identity", "%s", in.c_str()); if (!(h.x == w.x && h.y == w.y && h.z == w.z && h.w == w.w)) fail("identity*q", "%s", in.c_str()); }
}
static void turns(Q4 u, V3 v, Q4 u2)
{
	next(); states(); trace(); std::string in = "q=" + str(u) + " v=" + str(v); snprintf(what, sizeof what, "%s", in.c_str()); quat Q = fq(u), P = fq(u2); V3 w = turn(u, v), wi = turn(conj(u), v); double tol = 1e-6 * std::max(1.0, maxabs(v)) * 1.5;
	for (float pad : { 0.f, 1.f, -7.f }) { near3("q*v", d3(Q * f4(v, pad)), w, tol, in); near3("v*q", d3(f4(v, pad) * Q), wi, tol, in); near3("rotate(q)*v", d3(multiply3x3(rotate(Q), f4(v, pad))), w, tol, in); }
	near3("inverse(q)*(q*v)", d3(inverse(Q) * (Q * f4(v))), v, 2 * tol, in); near3("conjugate = inverse", d3(conjugate(Q) * f4(v)), wi, tol, in);
	near3("(q*p)*v", d3((Q * P) * f4(v)), turn(u, turn(u2, v)), 2 * tol, in); near4("rotate(q*p)", dm(rotate(Q * P)), rotation(u) * rotation(u2), 2e-6, in);
	double l = len(v), g = len(d3(Q * f4(v))); trans(); if (!(std::fabs(g - l) <= 2 * tol)) fail("length", "|q*v| is %.9g want %.9g; %s", g, l, in.c_str());
}
static void turns2(Q4 u, V3 v, double m) // vectors of size m, any size
{
	next(); states(); trace(); std::string in = "q=" + str(u) + " v=" + str(v); snprintf(what, sizeof what, "%s", in.c_str()); quat Q = fq(u); V3 w = turn(u, v), wi = turn(conj(u), v); double tol = 1e-6 * m * 1.5;
	for (float pad : { 0.f, -7e6f }) { near3("q*v of any size", d3(Q * f4(v, pad)), w, tol, in); near3("v*q of any size", d3(f4(v, pad) * Q), wi, tol, in); near3("rotate(q)*v of any size", d3(multiply3x3(rotate(Q), f4(v, pad))), w, tol, in); }
}
static void convert(Q4 u) // quaternion -> matrix -> quaternion, unit and (as matrices) from every sign of the quaternion
{
	next(); states(); trace(); std::string in = "q=" + str(u); snprintf(what, sizeof what, "%s", in.c_str()); M4 R = rotation(u); f32x4x4 m = rotate(fq(u)); near4("rotate(q)", dm(m), R, 1e-6, in);
	quat e = extractQuat(m); nearq("extractQuat(rotate(q))", dq(e), u, 2e-6, in); near4("rotate(extractQuat(m))", dm(rotate(e)), R, 6e-6, in); double l = std::sqrt(dot(dq(e), dq(e))); trans(); if (!(std::fabs(l - 1) <= 2e-6)) fail("extractQuat length", "%.9g; %s", l, in.c_str());
	for (V3 v : { V3{ 1, 2, 3 }, V3{ -2, 1, 0.5 } }) near3("extractQuat(m)*v", d3(e * f4(v)), turn(u, v), 1e-5, in);
}
static void angleAxis(V3 axis, double ang)
{
	next(); states(); trace(); V3 a = unit(axis); float fa = (float)ang; std::string in = "axis " + str(a) + " angle " + std::to_string(ang); Q4 w = axisAngle(a, fa); double tol = 5e-7;
	for (float pad : { 0.f, 9.f }) { Q4 g = dq(quat(fa, f4(a, pad))); trans(); out(mix(fbits(g.x), fbits(g.w))); if (!(std::fabs(g.x - w.x) <= tol && std::fabs(g.y - w.y) <= tol && std::fabs(g.z - w.z) <= tol && std::fabs(g.w - w.w) <= tol)) fail("quat(angle,axis)", "%s want %s; %s", str(g).c_str(), str(w).c_str(), in.c_str()); }
	// right-handed: a vector across the axis turns by +angle
	V3 p = unit(cross(a, std::fabs(a.x) < 0.9 ? V3{ 1, 0, 0 } : V3{ 0, 1, 0 })), want = p * std::cos((double)fa) + cross(a, p) * std::sin((double)fa); near3("angle direction", d3(quat(fa, f4(a)) * f4(p)), want, 2e-6, in); near3("axis fixed", d3(quat(fa, f4(a)) * f4(a)), a, 2e-6, in);
}
static void group() // the 48 unit quaternions of the cube's rotations: the library's product table must be the group's
{
	if (!begin("binary octahedral group")) return; const double h = std::sqrt(0.5); std::vector<Q4> gens = { { h, 0, 0, h }, { 0, h, 0, h }, { 0, 0, h, h } }, el = { { 0, 0, 0, 1 } }; std::vector<quat> real = { quat::identity };
	auto find = [&](Q4 q) { for (size_t i = 0; i < el.size(); i++) if (dot(el[i], q) > 1 - 1e-6) return (int)i; return -1; };
	for (size_t i = 0; i < el.size() && i < 100; i++) for (auto& gq : gens) { next(); quat r = real[i] * fq(gq); Q4 want = el[i] * gq; trans(); trace(); if (dot(unit(dq(r)), want) < 1 - 1e-6) fail("product", "step from %s by %s gives %s", str(el[i]).c_str(), str(gq).c_str(), str(dq(r)).c_str()); int k = find(unit(dq(r))); if (k < 0) { states(); el.push_back(unit(dq(r))); real.push_back(r); } }
	next(); if (el.size() != 48) fail("closure", "%zu elements instead of 48", el.size()); if (el.size() > 48) return;
	for (size_t i = 0; i < el.size(); i++) for (size_t j = 0; j < el.size(); j++) for (size_t k = 0; k < el.size(); k++) { if (k % 5 != (i + j) % 5 && !thorough()) continue; next(); trans(2); trace(); Q4 l = dq((real[i] * real[j]) * real[k]), r = dq(real[i] * (real[j] * real[k])), w = el[i] * el[j] * el[k]; if (dot(l, w) < 1 - 3e-6 || dot(r, w) < 1 - 3e-6) fail("associativity", "%zu %zu %zu", i, j, k); }
	bound("binary octahedral group: closure of the real products by BFS (48 elements), all pairs with a third of every residue class (thorough: all triples)");
}
static void body()
{
	int n = thorough() ? 3 : 2; std::vector<Q4> lat; for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) for (int z = -n; z <= n; z++) for (int w = -n; w <= n; w++) lat.push_back({ (double)x, (double)y, (double)z, (double)w });
	auto rots = rotations(2), few = rotations(1); auto dirs = directions(2);
	if (begin("integer products", true)) { u64 c = 0; for (auto& a : lat) for (auto& b : lat) { if (mine(c++)) pair(a, b, true); } sample("(1,-2,0,2)*(2,1,-1,0)"); bound("integer products: all pairs of the %zu quaternions with components -%d..%d, exact", lat.size(), n, n); }
	if (begin("unit products", true)) { u64 c = 0; for (auto& a : rots) for (auto& b : few) { if (mine(c++)) { pair(a, b, false); pair(b, a, false); } } bound("unit products: %zu x %zu rotations both ways", rots.size(), few.size()); }
	if (begin("single", true)) { u64 c = 0; for (auto& q : lat) for (double s : { 1.0, 0.125, 37.0, 0.25, 0.3, 0.4, 0.45, 0.55, 0.6, 0.7, 0.9, 0.97, 0.999, 0.99996, 1.00002, 1.0001, 1.003, 1.05, 1.2 }) if (dot(q, q) > 0) { if (mine(c++)) single({ q.x * s, q.y * s, q.z * s, q.w * s }); } for (auto& q : rots) if (mine(c++)) single(q); bound("single: conjugate, inverse, normalize, identity over all non-zero lattice quaternions at 17 scales"); }
	if (begin("rotating vectors", true)) { u64 c = 0; for (auto& q : rots) for (auto& d : dirs) for (double s : { 0.5, 20.0 }) { bool m = mine(c++); if (m) turns(q, d * s, few[c / 8 % few.size()]); } sample("rotate (0.5,-1,0.5) by %s", str(rots[9]).c_str()); bound("rotating vectors: %zu rotations x %zu lattice directions x 2 lengths, each with a second rotation", rots.size(), dirs.size()); }
	if (begin("nearly special rotations", true)) { u64 c = 0; auto nr = nearRotations(thorough() ? 3 : 1); std::vector<V3> vs = { { 1, 0, 0 }, { 0, -20, 0 }, { 0, 0, 300 }, { 1, 2, -3 }, { 0.01, -0.02, 0.005 } }; for (auto& q : nr) { bool m = mine(c++); if (m) for (auto& v : vs) turns(q, v, nr[(c * 37) % nr.size()]); if (m) for (auto& p : few) { pair(q, p, false); pair(p, q, false); } } bound("nearly special rotations: %zu rotations 1e-6..0.17 away from 0, 90, 120, 180 and 360 degrees, each turning 5 vectors and multiplied by 40 rotations both ways", nr.size()); }
	if (begin("conversions", true))
	{
		u64 c = 0; for (auto& q : rotations(thorough() ? 4 : 3)) if (mine(c++)) { convert(q); convert({ -q.x, -q.y, -q.z, -q.w }); } const double sm[] = { 0, 1e-7, 1e-4, 0.003, 0.05 };
		for (int big = 0; big < 4; big++) for (double a : sm) for (double b : sm) for (double d : sm) for (int sg = 0; sg < 8; sg++) { if (!mine(c++)) continue; double v[4] = { 1, 1, 1, 1 }, t[3] = { sg & 1 ? -a : a, sg & 2 ? -b : b, sg & 4 ? -d : d }; for (int i = 0, j = 0; i < 4; i++) if (i != big) v[i] = t[j++]; convert(unit(Q4{ v[0], v[1], v[2], v[3] })); }
		for (auto& ax : directions(2)) for (int e = -7; e <= 0; e++) for (int s = -1; s <= 1; s += 2) for (double base : { 0., M_PI / 2, M_PI, 2 * M_PI / 3 }) if (mine(c++)) convert(axisAngle(unit(ax), base + s * std::pow(10., e)));
		bound("conversions: all lattice rotations in both signs, all quaternions with one large and three small or zero parts, and angles 10^-7..1 around 0, 90, 120 and 180 degrees");
	}
	if (begin("angle and axis", true)) { u64 c = 0; auto ax = directions(thorough() ? 5 : 3); int st = thorough() ? 1 : 5; for (auto& a : ax) for (int d = -720; d <= 720; d += st) { if (mine(c++)) angleAxis(a, d * M_PI / 180); } for (auto& a : directions(1)) for (double b : { 0.0, M_PI / 2, M_PI, 2 * M_PI }) for (int e = -8; e <= -1; e++) for (double s : { -1.0, 1.0, 3.0 }) if (mine(c++)) angleAxis(a, b + s * std::pow(10.0, e)); bound("angle and axis: %zu axes x angles -720..720 degrees in steps of %d; angles 1e-8..0.3 away from 0, 90, 180, 360 degrees", ax.size(), st); }
	if (begin("other sizes", true))
	{
		u64 c = 0; const int E[] = { -60, -24, -10, 13, 24, 60 }; std::vector<V3> vs = { { 12345.5, -0.25, 7 }, { -4e6, 3e6, -1e6 }, { 1e-6, 2e-6, -5e-6 }, { 1e-3, 2000, -1e6 }, { 0, 0, 1e9 } }; for (auto& v : vs) v = { (float)v.x, (float)v.y, (float)v.z };
		for (size_t i = 0; i < lat.size(); i++) for (int ea : E) for (int eb : E) { if (!mine(c++)) continue; double sa = std::ldexp(1.0, ea / 2), sb = std::ldexp(1.0, eb / 2); Q4 a = lat[i], b = lat[(i * 7 + 3 + ea + eb + 200) % lat.size()]; Q4 p{ a.x * sa, a.y * sa, a.z * sa, a.w * sa }, q{ b.x * sb, b.y * sb, b.z * sb, b.w * sb }; pair(p, q, true); pair(p, p, true); { quat s = fq(p); s *= s; Q4 g = dq(s), w = p * p; trans(); if (g.x != w.x || g.y != w.y || g.z != w.z || g.w != w.w) fail("a*=a", "%s want %s", str(g).c_str(), str(w).c_str()); } }
		for (auto& a : lat) for (int e : E) if (dot(a, a) > 0 && mine(c++)) { double s = std::ldexp(1.0, e / 2); Q4 p{ a.x * s, a.y * s, a.z * s, a.w * s }; next(); states(); trace(); std::string in = "q=" + str(p); snprintf(what, sizeof what, "%s", in.c_str()); Q4 g = dq(normalize(fq(p))), u = unit(a); nearq("normalize of any size", g, u, 5e-7, in); if (dot(g, u) < 0) fail("normalize sign", "%s", in.c_str()); Q4 h = dq(inverse(fq(p))), k = dq(conjugate(fq(p))); double n = dot(a, a); for (int i = 0; i < 4; i++) { double hi = (&h.x)[i] * s, w = (i < 3 ? -1 : 1) * (&a.x)[i]; trans(2); if (!(std::fabs(hi - w / n) <= 5e-7)) fail("inverse of any size", "%s times %g, part %d should be %.9g; %s", str(h).c_str(), s, i, w / n, in.c_str()); if ((&k.x)[i] != w * s) fail("conjugate of any size", "%s", in.c_str()); } }
		for (auto& q : rots) for (auto& v : vs) { if (!mine(c++)) continue; double m = maxabs(v); turns2(q, v, m); }
		for (auto& q : few) for (auto& d : dirs) for (int e : E) { if (!mine(c++)) continue; V3 v = d * std::ldexp(1.0, e); turns2(q, v, maxabs(v)); }
		bound("other sizes: products and squares of quaternions 2^-30 .. 2^30 long (exact), normalize and inverse of them, rotations of vectors 1e-18 .. 1e18 long");
	}
	group();
}
}
VX_MAIN(vx::body)
