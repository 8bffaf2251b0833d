// @configs sse2 avx2 dbg asan
// @thorough_configs sse2 sse41 avx2 dbg asan asan2 port neon
// @sources aabb.cpp bvh.cpp
// @shards 8
// @technique exhaustive exploration of the traversal state machine: every accept/reject decision sequence of the node test on every tree of the enumeration, plus all lattice queries and frusta against brute force over the primitives
// @note A primitive touching a frustum plane exactly may or may not be reported.
// C02: traversal and frustum collection.
#include "bvhx.hpp"
#include <stack>
namespace vx
{
struct Built { std::vector<Bx> p; std::vector<f32x4> cen; Bvh b; std::string d; std::vector<int> parent, leafAt; };
static void make(Built& t)
{
	std::vector<Aabb> a; for (auto& x : t.p) a.push_back(toAabb(x)); t.b.recreate(a.data(), toAabb(unionOf(t.p)), a.size(), t.cen.empty() ? nullptr : t.cen.data()); auto& n = t.b.getNodes(); t.parent.assign(n.size(), -1); t.leafAt.assign(t.p.size(), -1); for (size_t i = 0; i < n.size(); i++) if (n[i].isLeaf()) { if (n[i].getFirstPrimitive() < t.p.size()) t.leafAt[n[i].getFirstPrimitive()] = i; } else { u64 l = n[i].getLeftNode(); if (l + 1 < n.size()) t.parent[l] = t.parent[l + 1] = i; }
}
// Runs one traversal with the given node predicate; checks the set of visited nodes and leaves. Returns primitives reported, per primitive count.
template<class F> static bool travel(Built& t, F accept, std::vector<int>& seen, const char* kind)
{
	auto& n = t.b.getNodes(); auto& pr = t.b.getPrimitives(); u32 M = n.size(); std::vector<int> asked(M, 0), leaf(M, 0); std::vector<char> ok(M, 0); seen.assign(t.p.size(), 0); bool bad = false; trans(); int budget = 64 * M + 64;
	t.b.traverse([&](const Bvh::Node& nd) { size_t i = &nd - n.data(); if (i >= M || --budget < 0) { bad = true; return false; } asked[i]++; trans(); return (bool)(ok[i] = accept(i)); },
		[&](uint32 f, uint32 c) { int l = f < t.p.size() ? t.leafAt[f] : -1; if (l < 0 || n[l].getPrimitiveCount() != c) bad = true; else { leaf[l]++; }; if (!bad) for (u32 k = f; k < f + c; k++) seen[pr[k]]++; });
	if (bad) { fail("traverse", "%s, %s: visits something that is not a node or a leaf range of the tree, or does not stop", t.d.c_str(), kind); return false; }
	for (u32 i = 0; i < M; i++)
	{
		bool reach = true; for (int q = t.parent[i]; q >= 0; q = t.parent[q]) reach &= ok[q] != 0; // ok is only set for asked nodes
		int wantAsk = reach, wantLeaf = reach && ok[i] && n[i].isLeaf();
		if (asked[i] != wantAsk) { fail("traverse", "%s, %s: node %u tested %d times instead of %d", t.d.c_str(), kind, i, asked[i], wantAsk); return false; }
		if (leaf[i] != wantLeaf) { fail("traverse", "%s, %s: leaf %u reported %d times instead of %d", t.d.c_str(), kind, i, leaf[i], wantLeaf); return false; }
	}
	if (!t.b.getNodeStack().empty()) { fail("traverse", "%s, %s: node stack left with %zu entries", t.d.c_str(), kind, t.b.getNodeStack().size()); while (!t.b.getNodeStack().empty()) t.b.getNodeStack().pop(); }
	return true;
}
struct Pl { int n[3]; float d; };
static std::vector<Pl> planes() { std::vector<Pl> r; int N[][3] = { { 1, 0, 0 }, { -1, 0, 0 }, { 0, 1, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 0, 0, -1 }, { 1, 1, 0 }, { -1, 2, 1 } }; float D[] = { -1.5f, 0.5f, 4.25f }; for (auto& n : N) for (float d : D) r.push_back({ { n[0], n[1], n[2] }, d }); return r; }
// -1 wholly behind, 0 touching from behind, 1 reaches in front
static int side(const Pl& p, const Bx& b) { double m = p.d; for (int i = 0; i < 3; i++) m += p.n[i] * (double)(p.n[i] > 0 ? b.hi[i] : b.lo[i]); return m < 0 ? -1 : m == 0 ? 0 : 1; }
static void collect(Built& t, const std::vector<Pl>& ps, int mode)
{
	auto& n = t.b.getNodes(); auto& pr = t.b.getPrimitives(); u32 M = n.size(), N = t.p.size(); std::vector<Plane> pl; for (auto& p : ps) pl.push_back(Plane(f32x4(p.n[0], p.n[1], p.n[2], 0), p.d, false));
	std::vector<int> must(N, 0), may(N, 0); std::vector<int> st(M, 1); // worst case over planes
	for (u32 i = 0; i < M; i++) { Bx b; for (int k = 0; k < 3; k++) { b.lo[k] = n[i].aabb.getMin()[k]; b.hi[k] = n[i].aabb.getMax()[k]; } for (auto& p : ps) st[i] = std::min(st[i], side(p, b)); }
	for (u32 i = 0; i < M; i++) if (n[i].isLeaf()) { int s = st[i]; for (int q = t.parent[i]; q >= 0; q = t.parent[q]) s = std::min(s, st[q]); for (u32 k = n[i].getFirstPrimitive(); k < n[i].getFirstPrimitive() + n[i].getPrimitiveCount(); k++) { if (s > -1) may[pr[k]] = 1; } }
	for (u32 i = 0; i < N; i++) { must[i] = 1; for (auto& p : ps) if (side(p, t.p[i]) < 1) must[i] = 0; }
	u32* out = (u32*)malloc(N * 4 + 4); out[N] = 0xabcd1234; for (u32 i = 0; i < N; i++) out[i] = 0xffffffff; std::stack<Bvh::Node*> own; trans(); trace(); u32 c = t.b.collectInFrustum(pl.data(), pl.size(), out, mode ? &own : nullptr); u64 h = c;
	std::vector<int> got(N, 0); std::string pd; for (auto& p : std::vector<Pl>(ps.begin(), ps.begin() + std::min<size_t>(ps.size(), 6))) { char q[80]; snprintf(q, sizeof q, "(%d,%d,%d;%g)", p.n[0], p.n[1], p.n[2], p.d); pd += q; }
	if (c > N || out[N] != 0xabcd1234) fail("collect", "%s planes %s: %u of %u primitives", t.d.c_str(), pd.c_str(), c, N);
	else
	{
		for (u32 i = 0; i < c; i++) { if (out[i] >= N) { fail("collect", "%s planes %s: primitive %u", t.d.c_str(), pd.c_str(), out[i]); free(out); return; } got[out[i]]++; h = mix(h, out[i]); }
		for (u32 i = 0; i < N; i++) { if (got[i] > 1) { fail("collect", "%s planes %s: primitive %u reported %d times", t.d.c_str(), pd.c_str(), i, got[i]); break; } if (must[i] && !got[i]) { fail("collect", "%s planes %s: visible primitive %u missing", t.d.c_str(), pd.c_str(), i); break; } if (got[i] && !may[i]) { fail("collect", "%s planes %s: primitive %u of a node behind a plane reported", t.d.c_str(), pd.c_str(), i); break; } }
	}
	if (!own.empty() || !t.b.getNodeStack().empty()) { fail("collect", "%s planes %s: node stack left non-empty", t.d.c_str(), pd.c_str()); while (!t.b.getNodeStack().empty()) t.b.getNodeStack().pop(); }
	vx::out(h); free(out);
}
static std::string dstr(const char* n, const std::vector<int>& d) { std::string r = std::string(n) + ":"; for (int x : d) r += " " + std::to_string(x); return r; }
template<class F> static void sets(F f)
{
	bool san = strstr(VX_CONFIG, "asan") != nullptr; auto A = alphabets(); int L = thorough() && !san ? 5 : 4; std::vector<int> d; u64 c = 0;
	for (int a = 0; a < 2; a++) for (int n = 1; n <= L; n++) { int K = n >= 4 ? 4 : 8; if (thorough() && n == 4) K = 8; d.assign(n, 0); while (true) { if (mine(c++)) { Built t; for (int x : d) t.p.push_back(A[a].b[x]); t.d = dstr(A[a].name, d); f(t); } int i = n - 1; while (i >= 0 && ++d[i] == K) d[i--] = 0; if (i < 0) break; } }
	for (int n = 5; n <= (thorough() ? 24 : 14); n++) for (int s = 0; s < 6; s++) { if (!mine(c++)) continue; Built t; for (int i = 0; i < n; i++) { int k = i * (2 * s + 1) % (s % 2 ? n : n / 2 + 1); t.p.push_back(s < 3 ? cube(k * 2 - 6, 0, s * (i % 3), 1) : cube(k - 4, (i * i) % 7 - 3, i % 4 - 2, 1 + i % 2)); } char q[64]; snprintf(q, sizeof q, "%d boxes, layout %d", n, s); t.d = q; f(t); }
}
static void body()
{
	bool T = thorough(); auto P = planes();
	if (begin("all accept decisions", true)) { sets([&](Built& t) { snprintf(what, sizeof what, "%s", t.d.c_str()); make(t); u32 M = t.b.getNodes().size(); std::vector<int> seen; if (M <= 11) for (u32 m = 0; m < 1u << M; m++) { next(); states(); trace(); travel(t, [&](size_t i) { return m >> i & 1; }, seen, ("decisions " + std::to_string(m)).c_str()); u64 h = m; for (int s : seen) h = h * 3 + s; out(h); } else { u32 D = T ? 4 : 2; for (u32 m = 0; m < (1u << 11); m++) { next(); states(); trace(); travel(t, [&](size_t i) { return (m >> i % 11 & 1) || i < D; }, seen, ("periodic decisions " + std::to_string(m)).c_str()); } next(); travel(t, [](size_t) { return true; }, seen, "accept all"); for (u32 i = 0; i < M; i++) { next(); states(); trace(); travel(t, [&](size_t k) { return k != i; }, seen, "reject one"); } } }); sample("boxes 'near' 0 3 1 with reject at node 2"); bound("all accept decisions: all box lists of up to %d boxes from two 8-box alphabets, every accept/reject assignment to the nodes (trees of up to 11 nodes; periodic and single-reject assignments on the longer ones up to %d boxes)", T ? 5 : 4, T ? 24 : 14); }
	if (begin("point and box queries", true)) { sets([&](Built& t) { snprintf(what, sizeof what, "%s", t.d.c_str()); make(t); auto& n = t.b.getNodes(); std::vector<int> seen; for (int x = -5; x <= 9; x += 2) for (int y = -3; y <= 9; y += 2) for (int z = -3; z <= 9; z += 3) for (int s = 0; s < 3; s++) { next(); states(); trace(); Bx q = { { (float)x, (float)y, (float)z }, { (float)x + s * 2, (float)y + s, (float)z + s } }; auto hit = [&](const Bx& b) { for (int i = 0; i < 3; i++) if (b.lo[i] > q.hi[i] || q.lo[i] > b.hi[i]) return false; return true; }; u64 h = 0; if (travel(t, [&](size_t i) { auto l = n[i].aabb.getMin(), m = n[i].aabb.getMax(); Bx b = { { l[0], l[1], l[2] }, { m[0], m[1], m[2] } }; return hit(b); }, seen, "box query")) for (size_t i = 0; i < t.p.size(); i++) { h = h * 2 + (seen[i] != 0); if (seen[i] > 1 || (hit(t.p[i]) && !seen[i])) { fail("query", "%s: query %s reports primitive %zu %d times", t.d.c_str(), str(q).c_str(), i, seen[i]); break; } } out(h); } }); bound("point and box queries: the same trees x all queries of a 8x7x5 lattice of points and two box sizes"); }
	if (begin("frustum collection", true)) { sets([&](Built& t) { snprintf(what, sizeof what, "%s", t.d.c_str()); make(t); next(); states(); for (size_t i = 0; i < P.size(); i++) { collect(t, { P[i] }, i & 1); for (size_t j = i + 1; j < P.size(); j++) { if (t.p.size() < 4 || (i + j) % 3 == 0) collect(t, { P[i], P[j] }, j & 1); if (T) for (size_t k = j + 1; k < P.size(); k += 2) collect(t, { P[i], P[j], P[k] }, k & 1); } } std::vector<Pl> six; for (int d = 0; d < 27; d++) { six.clear(); int e = d; for (int a = 0; a < 6; a++) { six.push_back(P[a * 3 + (a < 3 ? e % 3 : (a + d) % 3)]); if (a < 3) e /= 3; } collect(t, six, d & 1); } }); sample("planes (1,0,0;-1.5) (0,-1,0;4.25)"); bound("frustum collection: the same trees x all single planes and pairs%s of %zu planes and 27 six-plane frusta, own and caller-given stack", T ? " and every second triple" : "", P.size()); }
	if (begin("large and deep trees", true))
	{
		u64 c = 0; bool san = strstr(VX_CONFIG, "asan") != nullptr; auto run = [&](Built& t, float far)
		{
			snprintf(what, sizeof what, "%s", t.d.c_str()); make(t); u32 M = t.b.getNodes().size(); std::vector<int> seen; auto& n = t.b.getNodes();
			next(); states(); trace(); if (travel(t, [](size_t) { return true; }, seen, "accept all")) for (size_t i = 0; i < seen.size(); i++) if (seen[i] != 1) { fail("traverse", "%s, accept all: primitive %zu reported %d times", t.d.c_str(), i, seen[i]); break; }
			u32 step = std::max(1u, M / (T ? 400 : 60)); for (u32 i = 0; i < M; i += step) { next(); trace(); travel(t, [&](size_t k) { return k != i; }, seen, "reject one"); next(); trace(); travel(t, [&](size_t k) { return k % step != i % step; }, seen, "reject a class"); }
			for (int k = 0; k < 3; k++) for (float lo : { 0.f, 1.f, far / 4, far / 2, far }) for (float hi : { lo, lo + 3, far }) { if (hi < lo) continue; next(); trace(); auto hit = [&](const Bx& b) { return b.lo[k] <= hi && b.hi[k] >= lo; }; if (!travel(t, [&](size_t i) { return n[i].aabb.getMin()[k] <= hi && n[i].aabb.getMax()[k] >= lo; }, seen, "slab query")) continue; for (size_t i = 0; i < t.p.size(); i++) if (seen[i] > 1 || (hit(t.p[i]) && !seen[i])) { fail("query", "%s: slab %g..%g on axis %d reports primitive %zu %d times", t.d.c_str(), lo, hi, k, i, seen[i]); break; } }
			for (int mode = 0; mode < 2; mode++) for (float d : { -1.5f, 0.5f, far, far / 2, -far / 2 + 0.25f, -far * 2 }) for (int k = 0; k < 3; k++) for (int sg = -1; sg <= 1; sg += 2) { Pl p = { { 0, 0, 0 }, d }; p.n[k] = sg; next(); collect(t, { p }, mode); p.n[(k + 1) % 3] = 1; collect(t, { { { 0, 0, 1 }, far * 4 }, p }, mode); }
		};
		for (int side = 1; side <= 4; side++) for (int k : { 8, 20, 31, 32, 33, 40, 60, 63, 64, 65, 66, 80, 88 }) for (int ax = 0; ax < 3; ax++) { if (!mine(c++)) continue; Built t; t.p = chain(side, k, ax); char d[100]; snprintf(d, sizeof d, "%d groups of %d boxes at doubling distances on axis %d", k, side, ax); t.d = d; run(t, std::ldexp(1.0f, std::min(k - 27, 20))); }
		for (int side = 1; side <= 3; side++) for (int k : { 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 150, 200 }) for (int sg = -1; sg <= 1; sg += 2) { if (!mine(c++) || (san && k > 70)) continue; Built t; deep(side, k, k % 3, sg, t.p, t.cen); char d[100]; snprintf(d, sizeof d, "%d groups of %d boxes, centroids growing ninefold%s, axis %d", k, side, sg < 0 ? " downwards" : "", k % 3); t.d = d; run(t, (k + 2) / 3); }
		for (int n : { 100, 127, 128, 129, 255, 256, 257, 300, 1025, 4097, 65536, 70000 }) for (int l = 0; l < 4; l++) { if (!mine(c++) || (san && n > 300) || (n > 5000 && !T && l && l != 3)) continue; Built t; int side = 1; while (side * side < n) side++; for (int i = 0; i < n; i++) t.p.push_back(l == 0 ? cube(i * 2, 0, 0, 1) : l == 1 ? cube(i % side * 2, i / side * 2, i % 3, 1) : cube(3, 3, l == 3 ? 0 : i / (n / 2 + 1) * 9, 1)); static const char* N[] = { "in a row", "on a grid", "in two places", "in one place" }; t.d = std::to_string(n) + " boxes " + N[l]; run(t, l == 0 ? n * 2 : l == 1 ? side * 2 : 9); }
		sample("88 groups of 3 boxes at doubling distances on axis 0, reject node 40"); bound("large and deep trees: 4 x 13 x 3 chains of up to 88 groups, 78 trees of up to 200 levels and 12 counts from 100 to 70000 boxes in 4 layouts; accept all, reject one or every n-th node, slab queries, 1- and 2-plane frusta");
	}
	if (begin("many planes", true)) sets([&](Built& t) { if (t.p.size() < 3) return; snprintf(what, sizeof what, "%s", t.d.c_str()); make(t); next(); states(); for (int m : { 7, 8, 9, 16, 17, 128, 129, 255 }) { if (m > 16 && t.p.size() == 4 && !T) continue; for (int pos : { 0, 5, 6, 7, m / 2, m - 2, m - 1 }) { std::vector<Pl> ps(m, Pl{ { 0, 0, 1 }, 60 }); ps[pos % m] = P[(m + pos + t.p.size()) % P.size()]; collect(t, ps, m & 1); } } bound("many planes: the same trees x 7 to 255 planes with one deciding plane at seven positions"); });
	if (begin("empty tree", false)) { next(); trace(); Bvh b; int calls = 0; b.traverse([&](const Bvh::Node&) { calls++; return true; }, [&](uint32, uint32) { calls++; }); Plane p(f32x4(1, 0, 0, 0), 0); u32 o = 77; u32 c = b.collectInFrustum(&p, 1, &o); if (calls || c || o != 77) fail("empty", "an empty tree reports something"); }
}
}
VX_MAIN(vx::body)
