// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @sources aabb.cpp
// @shards 8
// @technique explicit-state BFS over all sequences of box operations on the real Aabb, every transition compared with a model of three closed intervals
// @note Scale factors are positive and operators that build a new box are applied to non-empty boxes (documented precondition: min <= max). After shrinking, a box may be empty (min > max); it still follows the interval rules. The W lane carries junk everywhere and is never judged.
// C05: a box always equals the interval triple its operations describe.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/aabb.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
struct Box { std::array<double, 3> lo, hi; bool operator<(const Box& o) const { return std::tie(lo, hi) < std::tie(o.lo, o.hi); } bool valid() const { for (int i = 0; i < 3; i++) if (lo[i] > hi[i]) return false; return true; } };
typedef std::array<double, 3> A3;
static std::string str(const Box& b) { return "[" + str(V3{ b.lo[0], b.lo[1], b.lo[2] }) + " .. " + str(V3{ b.hi[0], b.hi[1], b.hi[2] }) + "]"; }
static f32x4 f4(const A3& v, float w) { return f32x4((float)v[0], (float)v[1], (float)v[2], w); }
static const float W[] = { 0, 1, -5, 1e30f, -1e30f };
static int wi = 0; static float junk() { return W[wi++ % 5]; }
static Aabb real(const Box& b) // any model state, also empty ones, through the public operations only
{
	Aabb a; float w1 = junk(), w2 = junk(); if (b.valid()) { a.set(f4(b.lo, w1), f4(b.hi, w2)); return a; }
	// an empty interval [lo, hi] with lo > hi: start from everything and limit both sides
	A3 l, h; for (int i = 0; i < 3; i++) { l[i] = std::min(b.lo[i], b.hi[i]); h[i] = std::max(b.lo[i], b.hi[i]); } a.set(f4(l, w1), f4(h, w2)); // then raise lo / lower hi by shrinking with boxes
	Box u{ b.lo, b.lo }, v{ b.hi, b.hi }; for (int i = 0; i < 3; i++) { u.hi[i] = std::max(b.hi[i], b.lo[i]); v.lo[i] = std::min(b.hi[i], b.lo[i]); } Aabb x(f4(u.lo, w2), f4(u.hi, w1 > w2 ? w1 : w2)), y(f4(v.lo, w1), f4(v.hi, w1 > w2 ? w1 : w2)); a.shrink(x); a.shrink(y); return a;
}
static void expect(const char* op, const Aabb& a, const Box& b, const std::string& in)
{
	trans(); f32x4 mn = a.getMin(), mx = a.getMax(), sz = a.getSize(), ps = a.getPosition(), ex = a.getExtent(), e2, p2; a.getExtent(e2, p2); bool ok = true; double d[3];
	for (int i = 0; i < 3; i++) { d[i] = b.hi[i] - b.lo[i]; double c = (b.hi[i] + b.lo[i]) / 2; if (mn[i] != b.lo[i] || mx[i] != b.hi[i]) ok = false; else { if (sz[i] != d[i]) fail("getSize", "axis %d: %.9g want %.9g of %s", i, sz[i], d[i], str(b).c_str()); if (ps[i] != c || p2[i] != c) fail("getPosition", "axis %d: %.9g / %.9g want %.9g of %s", i, ps[i], p2[i], c, str(b).c_str()); if (ex[i] != d[i] / 2 || e2[i] != d[i] / 2) fail("getExtent", "axis %d: %.9g / %.9g want %.9g of %s", i, ex[i], e2[i], d[i] / 2, str(b).c_str()); } }
	out(mix(mix(fbits(mn[0] + 3 * mx[0]), fbits(mn[1] + 3 * mx[1])), fbits(mn[2] + 3 * mx[2])));
	if (!ok) { char g[200]; snprintf(g, sizeof g, "[(%g, %g, %g) .. (%g, %g, %g)]", mn[0], mn[1], mn[2], mx[0], mx[1], mx[2]); fail(op, "%s, want %s; %s", g, str(b).c_str(), in.c_str()); return; }
	double area = 2 * (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]), vol = d[0] * d[1] * d[2]; if (a.calcArea() != area) fail("calcArea", "%.9g want %.9g of %s", a.calcArea(), area, str(b).c_str()); if (a.calcVolume() != vol) fail("calcVolume", "%.9g want %.9g of %s", a.calcVolume(), vol, str(b).c_str());
}
#ifdef NDEBUG // the operators that build a new box assert that it is not inverted: with assertions on no operator is asked for one
static const bool asserts = false;
#else
static const bool asserts = true;
#endif
static std::vector<A3> letters, sizes; static std::vector<Box> boxes;
// applies operation `op` to the model and, when asked, to the real box; false = not applicable here. Operations are numbered over (kind, operand).
static bool apply(int op, const Box& b, Box& w, bool run, const std::string& path)
{
	w = b; int L = (int)letters.size(), Z = (int)sizes.size(), B = (int)boxes.size(); const char* name = ""; Aabb a; std::string in;
	auto go = [&](auto f) { if (run) { a = real(b); next(); trace(); in = std::string(name) + " on " + str(b) + " reached by" + path; snprintf(what, sizeof what, "%s", in.c_str()); f(); expect(name, a, w, in); } return true; };
	if (op < L) { auto& p = letters[op]; name = "extend(point)"; for (int i = 0; i < 3; i++) { w.lo[i] = std::min(w.lo[i], p[i]); w.hi[i] = std::max(w.hi[i], p[i]); } return go([&] { a.extend(f4(p, junk())); }); } op -= L;
	if (op < L) { auto& p = letters[op]; name = "shrink(point)"; for (int i = 0; i < 3; i++) { w.lo[i] = std::max(w.lo[i], p[i]); w.hi[i] = std::min(w.hi[i], p[i]); } return go([&] { a.shrink(f4(p, junk())); }); } op -= L;
	if (op < B) { auto& p = boxes[op]; name = "extend(box)"; for (int i = 0; i < 3; i++) { w.lo[i] = std::min(w.lo[i], p.lo[i]); w.hi[i] = std::max(w.hi[i], p.hi[i]); } return go([&] { a.extend(real(p)); }); } op -= B;
	if (op < B) { auto& p = boxes[op]; name = "shrink(box)"; for (int i = 0; i < 3; i++) { w.lo[i] = std::max(w.lo[i], p.lo[i]); w.hi[i] = std::min(w.hi[i], p.hi[i]); } return go([&] { a.shrink(real(p)); }); } op -= B;
	if (op < L) { auto& p = letters[op]; name = "translate / + / -"; for (int i = 0; i < 3; i++) { w.lo[i] += p[i]; w.hi[i] += p[i]; } return go([&] { a.translate(f4(p, junk())); expect("translate", a, w, in); if (!b.valid() && asserts) return; A3 n{ -p[0], -p[1], -p[2] }; a = real(b); a += f4(p, junk()); expect("+=", a, w, in); a = real(b); a -= f4(n, junk()); expect("-=", a, w, in); if (b.valid()) { a = real(b) + f4(p, junk()); expect("+", a, w, in); a = real(b) - f4(n, junk()); } }); } op -= L;
	if (op < Z) { auto& p = sizes[op]; for (double x : p) if (x == 0) return false; name = "scale / * / /"; for (int i = 0; i < 3; i++) { w.lo[i] *= p[i]; w.hi[i] *= p[i]; } return go([&] { a.scale(f4(p, junk())); expect("scale", a, w, in); if (!b.valid() && asserts) return; A3 n{ 1 / p[0], 1 / p[1], 1 / p[2] }; a = real(b); a *= f4(p, junk()); expect("*=", a, w, in); a = real(b); a /= f4(n, 1); expect("/=", a, w, in); if (b.valid()) { a = real(b) * f4(p, 1); expect("*", a, w, in); a = real(b) / f4(n, 1); } }); } op -= Z;
	if (op < Z) { auto& p = sizes[op]; name = "setSize(size)"; for (int i = 0; i < 3; i++) { w.lo[i] = -p[i] / 2; w.hi[i] = p[i] / 2; } return go([&] { a.setSize(f4(p, junk())); expect("setSize", a, w, in); a = real(b); A3 h{ p[0] / 2, p[1] / 2, p[2] / 2 }; a.setExtent(f4(h, junk())); }); } op -= Z;
	if (op < Z * L) { auto& p = sizes[op % Z]; auto& c = letters[op / Z]; name = "setSize(size, position)"; for (int i = 0; i < 3; i++) { w.lo[i] = c[i] - p[i] / 2; w.hi[i] = c[i] + p[i] / 2; } return go([&] { a.setSize(f4(p, junk()), f4(c, junk())); expect("setSize(size, position)", a, w, in); a = real(b); A3 h{ p[0] / 2, p[1] / 2, p[2] / 2 }; a.setExtent(f4(h, junk()), f4(c, junk())); }); } op -= Z * L;
	if (op < L * L) // try to set any pair of corners: refused exactly when some axis is inverted
	{
		auto& l = letters[op % L]; auto& h = letters[op / L]; Box t{ l, h }; name = "trySet"; bool want = t.valid(); if (want) w = t; bool did = false; go([&] { did = a.trySet(f4(l, junk()), f4(h, junk())); }); if (run && did != want) fail("trySet answer", "%s for %s", did ? "accepted" : "refused", str(t).c_str());
		if (run && want) { a = Aabb(f4(l, junk()), f4(h, junk())); expect("Aabb(min, max)", a, t, in); a = real(b); a.set(f4(l, junk()), f4(h, junk())); expect("set", a, t, in); }
		return true;
	} op -= L * L;
	if (op < L) { auto& l = letters[op]; name = "setMin"; w.lo = l; if (!w.valid()) return false; return go([&] { a.setMin(f4(l, junk())); }); } op -= L;
	if (op < L) { auto& l = letters[op]; name = "setMax"; w.hi = l; if (!w.valid()) return false; return go([&] { a.setMax(f4(l, junk())); }); }
	return false;
}
static void machine()
{
	if (!begin("operation sequences", true)) return; int L = letters.size(), Z = sizes.size(), B = boxes.size(), OPS = L * 2 + B * 2 + L + Z + Z + Z * L + L * L + L * 2; size_t cap = thorough() ? 60000 : 4000; int depth = thorough() ? 5 : 3, full = 0; size_t done = 0;
	struct N { Box b; std::string path; }; std::vector<N> cur = { { Box{ { 0, 0, 0 }, { 0, 0, 0 } }, "" } }; std::set<Box> seen = { cur[0].b };
	for (int d = 0; d < depth; d++)
	{
		std::vector<N> nx; bool cut = false; for (auto& n : cur) { bool m = mine(done++); if (m) states(); for (int op = 0; op < OPS; op++) { Box w; if (!apply(op, n.b, w, m, n.path)) continue; for (int i = 0; i < 3; i++) if (std::fabs(w.lo[i]) > 1024 || std::fabs(w.hi[i]) > 1024) goto skip; if (seen.size() < cap) { if (seen.insert(w).second) nx.push_back({ w, n.path + " " + std::to_string(op) }); } else if (!seen.count(w)) cut = true; skip:; } }
		if (!cut) full = d + 1; cur.swap(nx);
	}
	sample("from %s apply extend(point), shrink(box), setSize, trySet, ...", str(boxes[2]).c_str()); bound("operation sequences: BFS from the zero box over %d operation/operand pairs, all reachable boxes complete to depth %d, %zu distinct boxes expanded with every operation", OPS, full, done);
}
static void equality()
{
	if (!begin("equality and constants")) return; for (auto& p : boxes) for (auto& q : boxes) { next(); states(); trace(); trans(2); Aabb a(f4(p.lo, 0), f4(p.hi, 0)), b(f4(q.lo, 0), f4(q.hi, 0)); bool eq = p.lo == q.lo && p.hi == q.hi; if ((a == b) != eq || (a != b) == eq) fail("==", "%s %s", str(p).c_str(), str(q).c_str()); bool l = isBinaryLess(a, b), g = isBinaryLess(b, a); if (l + g != (eq ? 0 : 1)) fail("isBinaryLess", "%s %s: %d and %d", str(p).c_str(), str(q).c_str(), l, g); }
	std::vector<Box> ub; for (int m = 0; m < 216; m++) { Box b; int k = m; for (int i = 0; i < 3; i++) { int e = k % 6; k /= 6; b.lo[i] = e < 3 ? -1 : e < 5 ? 0 : 1; b.hi[i] = e < 3 ? e - 1 : e < 5 ? e - 3 : 1; } ub.push_back(b); }
	for (auto& p : ub) for (auto& q : ub) { next(); states(); trans(2); Aabb a(f4(p.lo, 0), f4(p.hi, 0)), b(f4(q.lo, 0), f4(q.hi, 0)); bool eq = p.lo == q.lo && p.hi == q.hi; if ((a == b) != eq || (a != b) == eq) fail("==", "%s %s", str(p).c_str(), str(q).c_str()); int l = isBinaryLess(a, b), g = isBinaryLess(b, a); if (l + g != (eq ? 0 : 1)) fail("isBinaryLess", "%s %s: %d and %d", str(p).c_str(), str(q).c_str(), l, g); for (size_t k = 0; k < ub.size(); k += 5) { trans(); Aabb c(f4(ub[k].lo, 0), f4(ub[k].hi, 0)); if (l && isBinaryLess(b, c) && !isBinaryLess(a, c)) { fail("isBinaryLess transitivity", "%s %s %s", str(p).c_str(), str(q).c_str(), str(ub[k]).c_str()); break; } } }
	bound("equality and constants: all pairs of the boxes with bounds in -1..1 (equality and binary order; transitivity against every fifth box)");
	auto cst = [&](const char* n, const Aabb& a, double h) { next(); expect(n, a, Box{ { -h, -h, -h }, { h, h, h } }, n); }; cst("zero", Aabb::zero, 0); cst("one", Aabb::one, 0.5); cst("two", Aabb::two, 1); cst("half", Aabb::half, 0.25); next(); for (int i = 0; i < 3; i++) { if (!(Aabb::full.getMin()[i] == -FLT_MAX && Aabb::full.getMax()[i] == FLT_MAX)) fail("full", "axis %d", i); if (!(std::isinf(Aabb::inf.getMin()[i]) && Aabb::inf.getMin()[i] < 0 && std::isinf(Aabb::inf.getMax()[i]) && Aabb::inf.getMax()[i] > 0)) fail("inf", "axis %d", i); } next(); expect("Aabb()", Aabb(), Box{ { 0, 0, 0 }, { 0, 0, 0 } }, "");
}
// bounds of very different magnitude: one operation on every box over a wide alphabet, each bound within one rounding of the interval rule
static void magnitudes()
{
	if (!begin("bounds of any magnitude", true)) return; static const float L[] = { 0, 1e-30f, 1e-6f, 0.1f, 0.3f, 1, 3.7f, 1000.1f, 1e6f, 16777217.0f, 1e12f, 1e18f }, S[] = { 1e-9f, 0.1f, 0.3333333f, 0.999999f, 1, 1.000001f, 3, 1e6f };
	std::vector<float> v; for (float x : L) { v.push_back(x); if (x) v.push_back(-x); } std::sort(v.begin(), v.end()); int K = v.size(); u64 c = 0;
	auto near = [](float g, double w, double ulps = 1) { return std::fabs(g - w) <= 1.2e-7 * ulps * std::fabs(w) + 1e-40; };
	for (int i = 0; i < K; i++) for (int j = i; j < K; j++) for (int o = 1; o < 4; o++)
	{
		if (!mine(c++)) continue; // axis 0 has [v_i, v_j], the other axes other intervals
		int a[3] = { i, (i * 5 + o) % K, (j * 7 + o) % K }, b[3] = { j, (i + j * 3 + o) % K, (i * 3 + o * o) % K }; float lo[3], hi[3]; for (int k = 0; k < 3; k++) { lo[k] = v[std::min(a[k], b[k])]; hi[k] = v[std::max(a[k], b[k])]; }
		auto mk = [&] { return Aabb(f32x4(lo[0], lo[1], lo[2], -1), f32x4(hi[0], hi[1], hi[2], 1)); }; char in[300]; snprintf(in, sizeof in, "[(%.9g, %.9g, %.9g) .. (%.9g, %.9g, %.9g)]", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); snprintf(what, sizeof what, "%s", in);
		auto is = [&](const char* op, const Aabb& g, const double* l, const double* h, const char* arg, double ulps) { trans(); for (int k = 0; k < 3; k++) if (!near(g.getMin()[k], l[k], ulps) || !near(g.getMax()[k], h[k], ulps)) { fail(op, "%s of %s%s: axis %d is %.9g .. %.9g, want %.9g .. %.9g", op, in, arg, k, g.getMin()[k], g.getMax()[k], l[k], h[k]); return; } };
		next(); states(); trace(); Aabb x = mk(); double d[3], vol = 1; for (int k = 0; k < 3; k++) { d[k] = (double)hi[k] - lo[k]; vol *= d[k]; double m = ((double)hi[k] + lo[k]) / 2, t = 1.2e-7 * std::max(std::fabs(lo[k]), std::fabs(hi[k])) + 1e-40; if (!near(x.getSize()[k], d[k])) fail("getSize", "axis %d of %s is %.9g", k, in, x.getSize()[k]); if (!near(x.getExtent()[k], d[k] / 2)) fail("getExtent", "axis %d of %s is %.9g", k, in, x.getExtent()[k]); if (!(std::fabs(x.getPosition()[k] - m) <= t)) fail("getPosition", "axis %d of %s is %.9g", k, in, x.getPosition()[k]); f32x4 e, p; x.getExtent(e, p); if (!near(e[k], d[k] / 2) || !(std::fabs(p[k] - m) <= t)) fail("getExtent(extent, position)", "axis %d of %s: %.9g at %.9g", k, in, e[k], p[k]); }
		double area = 2 * (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]); trans(2); if (area < 1e38 && !(std::fabs(x.calcArea() - area) <= 6e-7 * area + 1e-37)) fail("calcArea", "%s: %.9g want %.9g", in, x.calcArea(), area); double d01 = d[0] * d[1], d12 = d[1] * d[2], d02 = d[0] * d[2], big = std::max(std::max(d01, d12), d02), sml = std::min(std::min(d01, d12), d02); if (vol < 1e38 && big < 1e38 && (sml > 1e-30 || sml == 0) && (vol > 1e-30 || vol == 0) && !(std::fabs(x.calcVolume() - vol) <= 6e-7 * vol)) fail("calcVolume", "%s: %.9g want %.9g", in, x.calcVolume(), vol); out(mix(fbits(x.calcArea()), fbits(x.calcVolume())));
		double l[3], h[3]; char arg[200]; for (int q = 0; q < K; q++)
		{
			float t[3] = { v[q], v[(q * 3 + i) % K], v[(q * 5 + j) % K] }; f32x4 T(t[0], t[1], t[2], 5); next(); trace(); snprintf(arg, sizeof arg, " with (%.9g, %.9g, %.9g)", t[0], t[1], t[2]);
			for (int k = 0; k < 3; k++) { l[k] = std::min(lo[k], t[k]); h[k] = std::max(hi[k], t[k]); } x = mk(); x.extend(T); is("extend(point)", x, l, h, arg, 0);
			for (int k = 0; k < 3; k++) { l[k] = std::max(lo[k], t[k]); h[k] = std::min(hi[k], t[k]); } x = mk(); x.shrink(T); is("shrink(point)", x, l, h, arg, 0);
			for (int k = 0; k < 3; k++) { l[k] = (double)lo[k] + t[k]; h[k] = (double)hi[k] + t[k]; } x = mk(); x.translate(T); is("translate", x, l, h, arg, 1); x = mk(); x += T; is("+=", x, l, h, arg, 1); is("+", mk() + T, l, h, arg, 1); f32x4 N(-t[0], -t[1], -t[2], 1); x = mk(); x -= N; is("-=", x, l, h, arg, 1); is("-", mk() - N, l, h, arg, 1);
			int q2 = (q * 7 + 3) % K; float u[3] = { v[q2], v[(q2 + j) % K], v[(q2 * 3 + 1) % K] }, m0[3], m1[3]; for (int k = 0; k < 3; k++) { m0[k] = std::min(t[k], u[k]); m1[k] = std::max(t[k], u[k]); } Aabb o2(f32x4(m0[0], m0[1], m0[2], 9), f32x4(m1[0], m1[1], m1[2], 10));
			for (int k = 0; k < 3; k++) { l[k] = std::min(lo[k], m0[k]); h[k] = std::max(hi[k], m1[k]); } x = mk(); x.extend(o2); is("extend(box)", x, l, h, arg, 0);
			for (int k = 0; k < 3; k++) { l[k] = std::max(lo[k], m0[k]); h[k] = std::min(hi[k], m1[k]); } x = mk(); x.shrink(o2); is("shrink(box)", x, l, h, arg, 0);
			for (int k = 0; k < 3; k++) { l[k] = t[k] - std::fabs((double)u[k]) / 2; h[k] = t[k] + std::fabs((double)u[k]) / 2; } x = mk(); f32x4 U(std::fabs(u[0]), std::fabs(u[1]), std::fabs(u[2]), 3); x.setSize(U, T); is("setSize(size, position)", x, l, h, arg, 1); x = mk(); x.setExtent(U * 0.5f, T); is("setExtent(extent, position)", x, l, h, arg, 1);
			for (int k = 0; k < 3; k++) { h[k] = std::fabs((double)u[k]) / 2; l[k] = -h[k]; } x = mk(); x.setSize(U); is("setSize(size)", x, l, h, arg, 1); x = mk(); x.setExtent(U * 0.5f); is("setExtent(extent)", x, l, h, arg, 1);
			for (int k = 0; k < 3; k++) { l[k] = m0[k]; h[k] = m1[k]; } x = mk(); x.set(o2.getMin(), o2.getMax()); is("set", x, l, h, arg, 0); x = Aabb(f32x4(-FLT_MAX), o2.getMax()); x.setMin(o2.getMin()); is("setMin", x, l, h, arg, 0); x = Aabb(o2.getMin(), f32x4(FLT_MAX)); x.setMax(o2.getMax()); is("setMax", x, l, h, arg, 0);
			{ // a box extended, shrunk or set by itself stays itself; its own corners as operands
				x = mk(); x.extend(x); for (int k = 0; k < 3; k++) { l[k] = lo[k]; h[k] = hi[k]; } is("extend(itself)", x, l, h, "", 0); x.shrink(x); is("shrink(itself)", x, l, h, "", 0); x.set(x.getMin(), x.getMax()); is("set(own corners)", x, l, h, "", 0); x.extend(x.getMin()); x.extend(x.getMax()); is("extend(own corner)", x, l, h, "", 0);
				for (int k = 0; k < 3; k++) { l[k] = 2.0 * lo[k]; h[k] = (double)hi[k] + lo[k]; } x = mk(); x += x.getMin(); is("+= own corner", x, l, h, "", 1); x = mk(); x.translate(x.getMin()); is("translate(own corner)", x, l, h, "", 1);
				for (int k = 0; k < 3; k++) { l[k] = 0; h[k] = (double)hi[k] - lo[k]; } x = mk(); x -= x.getMin(); is("-= own corner", x, l, h, "", 1);
				bool pos = lo[0] > 0 && lo[1] > 0 && lo[2] > 0; for (int k = 0; k < 3; k++) pos &= hi[k] < 1e15f && lo[k] > 1e-15f; if (pos) { for (int k = 0; k < 3; k++) { l[k] = (double)lo[k] * lo[k]; h[k] = (double)hi[k] * lo[k]; } x = mk(); x *= x.getMin(); is("*= own corner", x, l, h, "", 1); for (int k = 0; k < 3; k++) { l[k] = 1; h[k] = (double)hi[k] / lo[k]; } x = mk(); x /= x.getMin(); is("/= own corner", x, l, h, "", 1); }
				for (int k = 0; k < 3; k++) { l[k] = h[k] = t[k]; } x = mk(); x.set(T, T); is("set to a point", x, l, h, arg, 0); bool did = x.trySet(T, T); trans(); if (!did) fail("trySet answer", "a point box%s refused", arg); is("trySet to a point", x, l, h, arg, 0);
			}
			{ // equality and order see every bit of every bound
				f32x4 A0(m0[0], m0[1], m0[2], 1), A1(m1[0], m1[1], m1[2], 2); Aabb e(A0, A1); trans(3); if (!(e == Aabb(A0, A1)) || e != Aabb(A0, A1) || isBinaryLess(e, Aabb(A0, A1))) fail("==", "a box%s differs from itself", arg);
				for (int k = 0; k < 6; k++) for (int dir = 0; dir < 2; dir++) { f32x4 B0 = A0, B1 = A1; if (k < 3) B0[k] = std::nextafterf(B0[k], dir ? -FLT_MAX : B1[k]); else B1[k - 3] = std::nextafterf(B1[k - 3], dir ? FLT_MAX : B0[k - 3]); bool eq = k < 3 ? B0[k] == A0[k] : B1[k - 3] == A1[k - 3]; if (eq) continue; Aabb f(B0, B1); trans(4); if (e == f || !(e != f)) fail("==", "boxes%s one step apart in bound %d are equal", arg, k); if (isBinaryLess(e, f) + isBinaryLess(f, e) != 1) fail("isBinaryLess", "boxes%s one step apart in bound %d", arg, k); }
			}
			bool ok = true; for (int k = 0; k < 3; k++) ok &= t[k] <= u[k]; x = mk(); trans(); bool did = x.trySet(T, f32x4(u[0], u[1], u[2], 4)); if (did != ok) fail("trySet answer", "(%.9g, %.9g, %.9g) .. (%.9g, %.9g, %.9g): %d", t[0], t[1], t[2], u[0], u[1], u[2], did); for (int k = 0; k < 3; k++) { l[k] = ok ? t[k] : lo[k]; h[k] = ok ? u[k] : hi[k]; } is("trySet", x, l, h, arg, 0);
		}
		for (float f : S) for (float g : S)
		{
			float t[3] = { f, g, f * 2 }; f32x4 T(t[0], t[1], t[2], 5); next(); trace(); snprintf(arg, sizeof arg, " with (%.9g, %.9g, %.9g)", t[0], t[1], t[2]); for (int k = 0; k < 3; k++) { l[k] = (double)lo[k] * t[k]; h[k] = (double)hi[k] * t[k]; } x = mk(); x.scale(T); is("scale", x, l, h, arg, 1); x = mk(); x *= T; is("*=", x, l, h, arg, 1); is("*", mk() * T, l, h, arg, 1);
			for (int k = 0; k < 3; k++) { l[k] = (double)lo[k] / t[k]; h[k] = (double)hi[k] / t[k]; } x = mk(); x /= T; is("/=", x, l, h, arg, 3); is("/", mk() / T, l, h, arg, 3);
		}
	}
	sample("box [(1e-06, ..) .. (1e6, ..)] scaled by (3, 0.1, 6)"); bound("bounds of any magnitude: every interval over %d values (0, 1e-30 .. 1e18 of either sign) on one axis x 3 choices of the other axes, %d operands per operation, 64 scale pairs", K, K);
}
static void body()
{
	letters = { { 0, 0, 0 }, { 1, 2, 3 }, { -1, -2, -3 }, { 2, -1, 0 }, { -3, 1, 2 }, { 0, 3, -2 }, { 1, 1, 1 }, { 3, 0, -1 }, { -2, -2, 1 } }; if (thorough()) for (A3 p : { A3{ 5, 5, 5 }, A3{ -5, -5, -5 }, A3{ 0.5, -0.5, 4 }, A3{ 1, 0, 0 }, A3{ 0, 0, -1 } }) letters.push_back(p);
	sizes = { { 0, 0, 0 }, { 1, 1, 1 }, { 2, 0.5, 4 }, { 0.5, 2, 1 }, { 4, 0, 2 } };
	for (auto& l : letters) for (auto& h : letters) { Box b{ l, h }; if (b.valid()) boxes.push_back(b); }
	equality(); magnitudes(); machine();
}
}
VX_MAIN(vx::body)
