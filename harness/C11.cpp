// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @sources aabb.cpp
// @shards 8
// @technique exhaustive exploration of all sequences of move/scale operators up to a depth on the real shapes, against an exact model of their points; all pairs of a shape alphabet for equality
// @note Operands and coordinates are dyadic, so every step is exact. Whether an operator keeps a ray's direction normalised is not judged, only that it points where the operator sent it; the fourth components are not judged.
// C11: shapes as values.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
#include "math/sphere.hpp"
#include "lin.hpp"
#include "alias.hpp"
using namespace math;
namespace vx
{
static V3 d3(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; }
static const float W[] = { 1, 2, 0.5f, -4, 8 }; static int wno = 0; static f32x4 f4(V3 v) { return f32x4((float)v.x, (float)v.y, (float)v.z, W[wno++ % 5]); }
static V3 op(int k, V3 a, V3 b) { V3 r; for (int i = 0; i < 3; i++) r[i] = k == 0 ? a[i] * b[i] : k == 1 ? a[i] / b[i] : k == 2 ? a[i] + b[i] : a[i] - b[i]; return r; }
static const char* OPN[] = { "*", "/", "+", "-", "*=", "/=", "+=", "-=" };
template<class S> static void use(S& s, int k, f32x4 v) { switch (k) { case 0: s = s * v; break; case 1: s = s / v; break; case 2: s = s + v; break; case 3: s = s - v; break; default: { S* r = k == 4 ? &(s *= v) : k == 5 ? &(s /= v) : k == 6 ? &(s += v) : &(s -= v); if (r != &s) fail("returns itself", "operator%s", OPN[k]); } } }
static bool exact(const char* key, V3 g, V3 w, const std::string& d) { trans(); for (int i = 0; i < 3; i++) if (g[i] != w[i]) { fail(key, "%s, want %s after %s", str(g).c_str(), str(w).c_str(), d.c_str()); return false; } return true; }
static void rayState(const Ray& r, const std::string& d)
{
	Ray f(r.origin, r.getDirection(), false); trans(); u32x4 a = r.getParallel(), b = f.getParallel(); for (int i = 0; i < 3; i++) if ((a[i] != 0) != (b[i] != 0)) { fail("parallel axes", "axis %d parallel %d, but the direction is %s, after %s", i, a[i] != 0, str(d3(r.getDirection())).c_str(), d.c_str()); return; }
	for (auto& box : { Aabb(f32x4(-1.0f), f32x4(1.0f)), Aabb(f32x4(0.0f, -2.0f, 1.0f, 0.0f), f32x4(4.0f, 0.0f, 2.0f, 0.0f)) }) { trans(); float2 x = raycast2I(box, r), y = raycast2I(box, f); if (memcmp(&x, &y, 8)) { fail("raycast after operators", "(%g, %g) instead of (%g, %g) after %s", x.x, x.y, y.x, y.y, d.c_str()); return; } }
}
static std::vector<V3> operands() { return { { 1, 1, 1 }, { 2, 4, 0.5 }, { -1, 2, -8 }, { 0.25, -0.5, 16 }, { 3, -5, 7 } }; }
struct Step { int op, v; };
static void lines(const std::vector<Step>& st, const V3* p0)
{
	next(); states(); trace(); auto O = operands(); V3 p[3] = { p0[0], p0[1], p0[2] }; Line l(f4(p[0]), f4(p[1])); Triangle t(f4(p[0]), f4(p[1]), f4(p[2])); std::string d = "points " + str(p[0]) + str(p[1]) + str(p[2]);
	for (auto& s : st) { d += std::string(" ") + OPN[s.op] + str(O[s.v]); Line lo = l; Triangle to = t; use(l, s.op, f4(O[s.v])); use(t, s.op, f4(O[s.v])); for (auto& q : p) { V3 w = op(s.op % 4, q, O[s.v]); for (int i = 0; i < 3; i++) w[i] = (float)w[i]; q = w; }
		if (!exact("Line start", d3(l.start), p[0], d) || !exact("Line end", d3(l.end), p[1], d) || !exact("Triangle p0", d3(t.p0), p[0], d) || !exact("Triangle p1", d3(t.p1), p[1], d) || !exact("Triangle p2", d3(t.p2), p[2], d)) return; }
	u64 h = 0; for (auto& q : p) for (int i = 0; i < 3; i++) h = mix(h, fbits((float)q[i])); out(h);
}
static void rays(const std::vector<Step>& st, V3 o, V3 dir, bool norm)
{
	next(); states(); trace(); auto O = operands(); O[4] = { 2, -2, 2 }; O[0] = { 1, 1, -1 }; O[2] = { -1, 0, 4 }; Ray r(f4(o), f4(dir), norm); std::string d = "ray " + str(o) + " to " + str(dir) + (norm ? " normalised" : "");
	for (auto& s : st)
	{
		V3 v = s.op < 8 ? O[s.v] : V3{}; d += std::string(" ") + (s.op < 8 ? OPN[s.op] : "normalize") + (s.op < 8 ? str(v) : ""); V3 before = d3(r.getDirection()); if (s.op % 4 == 1 && s.op < 8) { if (v.y == 0) return; }
		if (s.op == 8) { if (len(before) == 0) return; r.normalize(); } else { V3 w = op(s.op % 4, before, v); if (s.op < 4 && len(w) == 0) return; use(r, s.op, f4(v)); o = op(s.op % 4, o, v); for (int i = 0; i < 3; i++) o[i] = (float)o[i]; before = w; }
		if (!exact("Ray origin", d3(r.origin), o, d)) return; V3 g = d3(r.getDirection()); trans(); double l = len(g) * len(before); V3 c = cross(g, before); if ((l > 0) != (len(before) > 0) || (l > 0 && (dot(g, before) <= 0 || len(c) > 4e-6 * l))) { fail("Ray direction", "%s, want along %s after %s", str(g).c_str(), str(before).c_str(), d.c_str()); return; }
		if (s.op == 8 && std::fabs(len(g) - 1) > 1e-6) { fail("Ray normalize", "length %g after %s", len(g), d.c_str()); return; } rayState(r, d);
	}
	V3 g = d3(r.getDirection()); u64 h = 0; for (int i = 0; i < 3; i++) h = mix(mix(h, fbits((float)g[i])), fbits((float)o[i])); out(h);
}
template<class S, class M> static void equality(const char* name, const std::vector<M>& alphabet, S (*make)(const M&))
{
	for (auto& a : alphabet) for (auto& b : alphabet) { next(); trace(); states(); trans(3); bool same = true; for (size_t i = 0; i < a.size(); i++) same &= a[i] == b[i]; S x = make(a), y = make(b), z = x; if ((x == y) != same || (x != y) == same || !(z == x) || z != x) { std::string s; for (float f : a) s += " " + std::to_string(f); s += " and"; for (float f : b) s += " " + std::to_string(f); fail("equality", "%s: %d %d for%s", name, x == y, x != y, s.c_str()); } out(same); }
}
template<size_t N> static std::vector<std::array<float, N>> tuples(const std::vector<float>& v) { std::vector<std::array<float, N>> r; size_t n = 1; for (size_t i = 0; i < N; i++) n *= v.size(); for (size_t k = 0; k < n; k++) { std::array<float, N> a; size_t q = k; for (auto& x : a) { x = v[q % v.size()]; q /= v.size(); } r.push_back(a); } return r; }
// letters of every size, in every arrangement
static std::vector<V3> wild() { std::vector<V3> r; const float L[] = { 1, 0.375f, 3.5f, 4321.75f, 65000.5f, 3.0e7f, 1e-6f, 7e-9f, 2.5e9f, 0.1f, 0.9995f, 1.0005f }; int n = 12; for (float v : L) for (int k = 0; k < 8; k++) { r.push_back({ k & 1 ? -v : v, k & 2 ? -v : v, k & 4 ? -v : v }); if (k < 6) { V3 a; a[k / 2] = k & 1 ? -v : v; r.push_back(a); } } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int sg = (i * 3 + j) % 8; r.push_back({ sg & 1 ? -L[i] : L[i], sg & 2 ? -L[j] : L[j], sg & 4 ? -L[(i + 3 * j + 1) % n] : L[(i + 3 * j + 1) % n] }); } r.push_back({}); return r; }
static void sized(const V3* p0, int k, V3 v)
{
	next(); states(); trace(); V3 p[3]; std::string d = "points " + str(p0[0]) + str(p0[1]) + str(p0[2]) + " " + OPN[k] + str(v); Line l(f4(p0[0]), f4(p0[1])); Triangle t(f4(p0[0]), f4(p0[1]), f4(p0[2])); use(l, k, f4(v)); use(t, k, f4(v)); u64 h = 0; for (int i = 0; i < 3; i++) { p[i] = op(k % 4, p0[i], v); for (int j = 0; j < 3; j++) { p[i][j] = (float)p[i][j]; h = mix(h, fbits((float)p[i][j])); } } out(h);
	if (!exact("Line start", d3(l.start), p[0], d) || !exact("Line end", d3(l.end), p[1], d) || !exact("Triangle p0", d3(t.p0), p[0], d) || !exact("Triangle p1", d3(t.p1), p[1], d) || !exact("Triangle p2", d3(t.p2), p[2], d)) return;
	V3 b = p0[1]; Ray r(f4(p0[0]), f4(b), false); use(r, k, f4(v)); if (k < 4 && !(len(p[1]) > 1e-15 && len(p[1]) < 1e15)) return; if (!exact("Ray origin", d3(r.origin), p[0], d)) return;
	V3 g = d3(r.getDirection()); trans(); double m = len(g) * len(p[1]); V3 c = cross(g, p[1]); if ((m > 0) != (len(p[1]) > 0) || (m > 0 && (dot(g, p[1]) <= 0 || len(c) > 4e-6 * m))) { fail("Ray direction", "%s, want along %s: ray from the first point along the second, %s", str(g).c_str(), str(p[1]).c_str(), d.c_str()); return; } rayState(r, d);
}
// two shapes that differ in one coordinate by one step of a float
template<class S> static void differ(const char* name, const std::vector<float>& a, S (*make)(const std::vector<float>&)) { next(); trace(); states(); S x = make(a), z = make(a); trans(2); if (!(x == z) || x != z) fail("equality", "a %s made twice of the same numbers (first %g) differs", name, a[0]); for (size_t i = 0; i < a.size(); i++) for (int k = 0; k < 3; k++) { auto b = a; b[i] = k == 0 ? std::nextafter(a[i], INFINITY) : k == 1 ? std::nextafter(a[i], -INFINITY) : a[i] + 1; if (b[i] == a[i] || (b[i] == 0 && a[i] == 0)) continue; S y = make(b); trans(4); bool e = x == y; out(e); if (e || !(x != y) || y == x || !(y != x)) fail("equality", "%s: number %zu %.9g equals %.9g", name, i, a[i], b[i]); } }
static void body()
{
	bool T = thorough(); std::vector<V3> pts = { { 0, 0, 0 }, { 1, -2, 3 }, { -4, 0.5, 8 }, { 16, 0, -1 } }; int NV = operands().size();
	auto seqs = [&](int maxLen, int ops, auto f) { for (int n = 1; n <= maxLen; n++) { std::vector<Step> s(n); std::vector<int> d(n, 0); while (true) { for (int i = 0; i < n; i++) s[i] = { d[i] / NV, d[i] % NV }; f(s); int i = n - 1; while (i >= 0 && ++d[i] == ops * NV) d[i--] = 0; if (i < 0) break; } } };
	if (begin("lines and triangles", true)) { u64 c = 0; int L = T ? 3 : 2; for (int k = 0; k < 4; k++) seqs(L, 8, [&](const std::vector<Step>& s) { if (!mine(c++)) return; for (auto& x : s) if (x.op % 4 == 1 && x.v == 4) return; V3 p[3] = { pts[k], pts[(k + 1) % 4], pts[(k + 2) % 4] }; lines(s, p); }); sample("points (0,0,0) (1,-2,3) (-4,.5,8) * (2,4,.5) then -= (3,-5,7)"); bound("lines and triangles: 4 starts, all sequences of up to %d of the 8 operators with 5 operands (division by powers of two only)", L); }
	if (begin("rays", true)) { u64 c = 0; int L = T ? 3 : 2; std::vector<V3> dirs = { { 1, 0, 0 }, { 1, 1, 1 }, { 0, -2, 0.5 }, { -1, 2, -8 }, { 1, 1, 0 }, { -2, -4, -0.5 } }; for (auto& d : dirs) for (int nm = 0; nm < 2; nm++) for (int k = 0; k < 2; k++) seqs(L, 9, [&](const std::vector<Step>& s) { if (!mine(c++)) return; for (auto& x : s) if (x.op == 8 && x.v) return; rays(s, pts[k + 1], d, nm); }); sample("ray from (1,-2,3) along (1,1,1), *= (-1,0,4), normalize()"); bound("rays: 6 directions x normalised or not x 2 origins, all sequences of up to %d of 8 operators and normalize() with 5 operands", L); }
	if (begin("setters", true))
	{
		int L = T ? 6 : 5; u64 c = 0; std::vector<V3> N = { { 0, 0, 4 }, { 2, -1, 2 }, { -3, 0, 4 } }; float D[3] = { 0, 2.5f, -8 };
		for (int len_ = 1; len_ <= L; len_++) { std::vector<int> d(len_, 0); while (true) { if (mine(c++))
		{
			next(); trace(); states(); Sphere s(7.0f, f4({ 5, 6, 7 })); Plane p(f4({ 0, 8, 0 }), 3.0f, false); V3 sp{ 5, 6, 7 }, pn{ 0, 8, 0 }; double sr = 7, pd = 3; std::string t;
			for (int o : d) { t += " " + std::to_string(o); if (o < 3) { s.setPosition(f4(N[o])); sp = N[o]; p.setNormal(f4(N[o]), o & 1); pn = o & 1 ? unit(N[o]) : N[o]; } else if (o < 6) { s.setRadius(D[o - 3]); sr = D[o - 3]; p.setDistance(D[o - 3]); pd = D[o - 3]; } else { p.normalize(); double l = len(pn); pn = pn * (1 / l); pd /= l; }
				trans(); if (s.getRadius() != sr || maxabs(d3(s.getPosition()) - sp) != 0) { fail("sphere setters", "radius %g at %s, want %g at %s, after%s", s.getRadius(), str(d3(s.getPosition())).c_str(), sr, str(sp).c_str(), t.c_str()); break; } if (std::fabs(p.getDistance() - pd) > 1e-6 * (1 + std::fabs(pd)) || maxabs(d3(p.getNormal()) - pn) > 1e-6 * (1 + len(pn))) { fail("plane setters", "distance %g normal %s, want %g, %s, after%s", p.getDistance(), str(d3(p.getNormal())).c_str(), pd, str(pn).c_str(), t.c_str()); break; } }
			out(mix(fbits(s.getRadius()), fbits(p.getDistance())));
		} int i = len_ - 1; while (i >= 0 && ++d[i] == 7) d[i--] = 0; if (i < 0) break; } }
		bound("setters: all sequences of up to %d of setPosition / setRadius on a sphere and setNormal / setDistance / normalize on a plane, 3 values each", L);
	}
	if (begin("equality", false))
	{
		equality<Line, std::array<float, 6>>("Line", tuples<6>({ 0, 1 }), [](const std::array<float, 6>& a) { return Line(f32x4(a[0], a[1], a[2], 0), f32x4(a[3], a[4], a[5], 0)); });
		equality<Ray, std::array<float, 6>>("Ray", tuples<6>({ 0, 1 }), [](const std::array<float, 6>& a) { return Ray(f32x4(a[0], a[1], a[2], 0), f32x4(a[3], a[4], a[5], 0), false); });
		equality<Triangle, std::array<float, 9>>("Triangle", tuples<9>({ 0, 1 }), [](const std::array<float, 9>& a) { return Triangle(f32x4(a[0], a[1], a[2], 0), f32x4(a[3], a[4], a[5], 0), f32x4(a[6], a[7], a[8], 0)); });
		equality<Plane, std::array<float, 4>>("Plane", tuples<4>({ 0, 1, -1, 0.5f }), [](const std::array<float, 4>& a) { return Plane(f32x4(a[0], a[1], a[2], 9), a[3], false); });
		equality<Sphere, std::array<float, 4>>("Sphere", tuples<4>({ 0, 1, 2, 0.5f }), [](const std::array<float, 4>& a) { return Sphere(a[3], f32x4(a[0], a[1], a[2], 9)); });
		bound("equality: all pairs of the 2-letter lines and rays (64 each), triangles (512), 4-letter planes and spheres (256 each)");
	}
	if (begin("shapes of other sizes", true))
	{
		u64 c = 0; auto Wd = wild(); size_t n = Wd.size(); size_t S = T ? 1 : 5; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j += 1 + (i + j) % S) { if (!mine(c++)) continue; for (int k = 0; k < 8; k++) { V3 v = Wd[j]; if (k % 4 == 1) { bool z = false; for (int q = 0; q < 3; q++) z |= v[q] == 0; if (z) continue; } V3 p[3] = { Wd[i], Wd[(i * 7 + j + k) % n], Wd[(i + j * 5 + 3 * k) % n] }; sized(p, k, v); } }
		sample("points (4321.75,-4321.75,1e-06) ... -= (65000.5,0,0)"); bound("shapes of other sizes: %zu vectors of 12 sizes from 7e-9 to 2.5e9 (equal, mixed, on an axis, all negative, zero) as points and as operands, each of the 8 operators once", n);
	}
	if (begin("equality of other sizes", true))
	{
		u64 c = 0; auto Wd = wild(); size_t n = Wd.size(); for (size_t i = 0; i < n; i++) { if (!mine(c++)) continue; std::vector<float> a; for (int q = 0; q < 3; q++) for (int j = 0; j < 3; j++) a.push_back((float)Wd[(i + q * 37) % n][j]);
			differ<Triangle>("triangle", a, [](const std::vector<float>& a) { return Triangle(f32x4(a[0], a[1], a[2], 0), f32x4(a[3], a[4], a[5], 0), f32x4(a[6], a[7], a[8], 0)); }); a.resize(6); differ<Line>("line", a, [](const std::vector<float>& a) { return Line(f32x4(a[0], a[1], a[2], 0), f32x4(a[3], a[4], a[5], 0)); }); differ<Ray>("ray", a, [](const std::vector<float>& a) { return Ray(f32x4(a[0], a[1], a[2], 0), f32x4(a[3], a[4], a[5], 0), false); });
			a.resize(4); differ<Plane>("plane", a, [](const std::vector<float>& a) { return Plane(f32x4(a[0], a[1], a[2], 9), a[3], false); }); differ<Sphere>("sphere", a, [](const std::vector<float>& a) { return Sphere(a[3], f32x4(a[0], a[1], a[2], 9)); });
			V3 v = Wd[i], u = Wd[(i * 11 + 5) % n]; float d = (float)Wd[(i * 5 + 3) % n].x; double l = len(v); next(); trace(); trans(3); Plane p(f4(u), 1.0f, false); p.setDistance(d); p.setNormal(f4(v), false); if (maxabs(d3(p.getNormal()) - v) != 0 || p.getDistance() != d) fail("plane setters", "normal %s distance %g, want %s, %g", str(d3(p.getNormal())).c_str(), p.getDistance(), str(v).c_str(), d); Sphere s(1.0f, f4(u)); s.setPosition(f4(v)); s.setRadius(std::fabs(d)); if (maxabs(d3(s.getPosition()) - v) != 0 || s.getRadius() != std::fabs(d)) fail("sphere setters", "radius %g at %s, want %g at %s", s.getRadius(), str(d3(s.getPosition())).c_str(), std::fabs(d), str(v).c_str());
			if (l > 1e-12 && l < 1e12) { V3 w = v * (1 / l); p.normalize(); if (maxabs(d3(p.getNormal()) - w) > 1e-6 || std::fabs(p.getDistance() - d / l) > 1e-6 * std::fabs(d / l)) fail("plane normalize", "normal %s distance %g, want %s, %g", str(d3(p.getNormal())).c_str(), p.getDistance(), str(w).c_str(), d / l); p.setNormal(f4(v), true); if (maxabs(d3(p.getNormal()) - w) > 1e-6) fail("plane setters", "normal %s, want %s", str(d3(p.getNormal())).c_str(), str(w).c_str()); }
		}
		bound("equality of other sizes: shapes of %zu vectors of 12 sizes, each number moved by one float step either way and by 1; the setters and normalize() on the same", n);
	}
	if (begin("own points", false))
	{
		const float L[] = { 1, 2, -4, 0.5f, 8 }; int n = 0;
		for (int i = 0; i < 625; i++)
		{
			f32x4 a(L[i % 5], L[i / 5 % 5], L[i / 25 % 5], 1), b(L[i / 5 % 5], L[i / 125], L[(i + 2) % 5], 1), c(L[i / 125], L[(i / 25 + 1) % 5], L[i % 5], 1); next(); states(); trace(); out(i); snprintf(what, sizeof what, "points %s, %s, %s", str(d3(a)).c_str(), str(d3(b)).c_str(), str(d3(c)).c_str()); n++;
			#define OWN4 INSIDE(*=) INSIDE(/=) INSIDE(+=) INSIDE(-=)
			{ Line s(a, b); auto go = [&](auto part) { OWN4 }; go([](Line& l) -> f32x4& { return l.start; }); go([](Line& l) -> f32x4& { return l.end; }); }
			{ Triangle s(a, b, c); auto go = [&](auto part) { OWN4 }; go([](Triangle& l) -> f32x4& { return l.p0; }); go([](Triangle& l) -> f32x4& { return l.p1; }); go([](Triangle& l) -> f32x4& { return l.p2; }); }
			{ Ray s(a, b, false); auto part = [](Ray& l) -> f32x4& { return l.origin; }; OWN4 inside("setDirection", s, part, [](auto& o, const auto& v) { o.setDirection(v, false); }); Ray x = s, y = s; V3 d = d3(y.getDirection()); auto q = f4(d); trans(4); x *= x.getDirection(); y *= q; exact("ray *= own direction", d3(x.origin), d3(y.origin), what); exact("ray *= own direction", d3(x.getDirection()), d3(y.getDirection()), what); }
			#undef OWN4
		}
		bound("own points: %d lines, triangles and rays x every operator with each of their own points as the operand", n);
	}
	if (begin("named shapes", false))
	{
		next(); trace(); states(); V3 D[6] = { { -1, 0, 0 }, { 1, 0, 0 }, { 0, -1, 0 }, { 0, 1, 0 }, { 0, 0, -1 }, { 0, 0, 1 } }; const Plane* P[6] = { &Plane::left, &Plane::right, &Plane::bottom, &Plane::top, &Plane::back, &Plane::front }; const Ray* R[6] = { &Ray::left, &Ray::right, &Ray::bottom, &Ray::top, &Ray::back, &Ray::front };
		for (int i = 0; i < 6; i++) { next(); std::string n = "direction " + std::to_string(i); exact("named plane", d3(P[i]->getNormal()), D[i], n); exact("named ray", d3(R[i]->getDirection()), D[i], n); exact("named ray origin", d3(R[i]->origin), {}, n); if (P[i]->getDistance() != 0) fail("named plane", "distance"); rayState(*R[i], n); }
		if (Sphere::one.getRadius() * 2 != 1 || Sphere::two.getRadius() * 2 != 2 || Sphere::half.getRadius() * 2 != 0.5f) fail("named sphere", "radius"); for (auto* s : { &Sphere::one, &Sphere::two, &Sphere::half }) exact("named sphere", d3(s->getPosition()), {}, "");
		Line l; Triangle t; Sphere s; exact("default line", d3(l.start), {}, ""); exact("default line", d3(l.end), {}, ""); exact("default triangle", d3(t.p0), {}, ""); exact("default triangle", d3(t.p1), {}, ""); exact("default triangle", d3(t.p2), {}, ""); exact("default sphere", d3(s.getPosition()), {}, ""); if (s.getRadius() != 0) fail("default sphere", "radius");
	}
}
}
VX_MAIN(vx::body)
