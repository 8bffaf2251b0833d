// @configs sse2 avx2 dbg asan
// @thorough_configs sse2 sse41 avx2 dbg asan asan2 port neon
// @sources aabb.cpp bvh.cpp
// @shards 8
// @technique exhaustive exploration of all operation histories up to a depth over two BVH objects (builds from boxes and meshes, copies, moves, swaps, queries), and of every point at which a callback can throw or an allocation fail inside an operation, every reached state compared with a freshly built tree and its query answers
// @note Not judged: a moved-from object, or one whose rebuild or assignment failed, until it is rebuilt, and getCentroids() after a build with caller-given centroids.
// C03: history independence.
#include "bvhx.hpp"
#include <stack>
#include <new>
#include <functional>
static long failAfter = -1; static bool failed = false; // the allocation to fail, counted from the next one; -1: none
static void* take(size_t n) { if (failAfter >= 0 && failAfter-- == 0) { failed = true; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new(size_t n) { return take(n); } void* operator new[](size_t n) { return take(n); } void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
namespace vx
{
static std::vector<std::vector<Bx>> sets; // 0..: box lists; the mesh inputs are handled below
static std::vector<uint8> vb, ib16; static std::vector<uint32> ib32; static std::vector<Bx> meshBoxes[2]; static std::vector<f32x4> centroids5;
enum { INPUTS = 7 };
static u32 count(int in) { return in < 4 ? sets[in].size() : in == 4 ? 5 : in == 5 ? 3 : sets[3].size(); }
static const std::vector<Bx>& prims(int in) { return in < 4 ? sets[in] : in == 4 ? meshBoxes[0] : in == 5 ? meshBoxes[1] : sets[3]; }
static void build(Bvh& b, int in)
{
	if (in < 4) { std::vector<Aabb> a; for (auto& x : sets[in]) a.push_back(toAabb(x)); b.recreate(a.data(), toAabb(unionOf(sets[in])), a.size()); }
	else if (in == 4) b.recreate(vb.data(), (const uint8*)ib16.data(), toAabb(unionOf(meshBoxes[0])), 15, 16, 2);
	else if (in == 5) b.recreate(vb.data(), (const uint8*)ib32.data(), toAabb(unionOf(meshBoxes[1])), 9, 16, 4);
	else { std::vector<Aabb> a; for (auto& x : sets[3]) a.push_back(toAabb(x)); b.recreate(a.data(), toAabb(unionOf(sets[3])), a.size(), centroids5.data()); }
}
static Bvh create(int in)
{
	if (in < 4) { std::vector<Aabb> a; for (auto& x : sets[in]) a.push_back(toAabb(x)); return Bvh(a.data(), toAabb(unionOf(sets[in])), a.size()); }
	if (in == 4) return Bvh(vb.data(), (const uint8*)ib16.data(), toAabb(unionOf(meshBoxes[0])), 15, 16, 2);
	if (in == 5) return Bvh(vb.data(), (const uint8*)ib32.data(), toAabb(unionOf(meshBoxes[1])), 9, 16, 4);
	std::vector<Aabb> a; for (auto& x : sets[3]) a.push_back(toAabb(x)); return Bvh(a.data(), toAabb(unionOf(sets[3])), a.size(), centroids5.data());
}
struct Expect { u64 id, q[6]; }; static Expect want[INPUTS + 1]; // last: empty
static u64 query(Bvh& b, int k, std::stack<Bvh::Node*>* own)
{
	u64 h = 3;
	if (k < 3) { std::vector<u32> o(64, 0xdeadbeef); Plane p[2] = { Plane(f32x4(1, 0, 0, 0), k * 3 - 1.5f, false), Plane(f32x4(0, -1, 0, 0), 4.5f - k, false) }; u32 c = b.collectInFrustum(p, 2, o.data(), own); for (u32 i = 0; i <= c && i < 64; i++) h = mix(h, o[i]); return mix(h, c); }
	auto& n = b.getNodes(); b.traverse([&](const Bvh::Node& nd) { size_t i = &nd - n.data(); h = mix(h, i); return k == 3 || k == 4 ? (k == 3 || i % 3 != 2) : nd.aabb.getMin()[0] <= 1; }, [&](uint32 f, uint32 c) { h = mix(h, f * 64 + c); }); return h;
}
static u64 idOf(const Bvh& b) { u64 h = ident(b); return h; }
static u64 cenOf(const Bvh& b) { u64 h = 5; for (auto& c : b.getCentroids()) for (int i = 0; i < 3; i++) h = mix(h, fbits(c[i] + 0.0f)); return mix(h, b.getCentroids().size()); }
static u64 cenWant[INPUTS + 1];
enum Op { BX, BY = BX + INPUTS, CXY, CYX, MXY, MYX, SWAP, SELF, QX0, QX1, QY0, QY1, CTOR, OPS };
static std::string name(int o) { char c[40]; if (o < BY) snprintf(c, 40, "X.recreate(%d)", o); else if (o < CXY) snprintf(c, 40, "Y.recreate(%d)", o - BY); else { static const char* N[] = { "X=Y", "Y=X", "X=move(Y)", "Y=move(X)", "swap", "X=X", "query X (collect)", "query X (traverse)", "query Y (collect, own stack)", "query Y (traverse)", "X=Bvh(copy of Y)" }; return N[o - CXY]; } return c; }
static void history(const std::vector<int>& ops)
{
	next(); trace(); Bvh X, Y; int ex = INPUTS, ey = INPUTS; std::string d; for (int o : ops) d += name(o) + "; "; snprintf(what, sizeof what, "%.500s", d.c_str()); std::stack<Bvh::Node*> own;
	auto q = [&](Bvh& b, int e, int from, int to, std::stack<Bvh::Node*>* s, const char* n) { for (int k = from; k < to; k++) { trans(); if (e >= 0 && query(b, k, s) != want[e].q[k]) fail("query", "%s query %d of %s differs from a fresh tree of input %d", d.c_str(), k, n, e); if (e >= 0 && (!b.getNodeStack().empty() || !own.empty())) { fail("node stack", "%s left non-empty after query %d", d.c_str(), k); return; } } };
	for (int o : ops)
	{
		trans();
		if (o < BY) { build(X, o); ex = o; } else if (o < CXY) { build(Y, o - BY); ey = o - BY; }
		else switch (o) { case CXY: X = Y; ex = ey; break; case CYX: Y = X; ey = ex; break; case MXY: X = std::move(Y); ex = ey; ey = -1; break; case MYX: Y = std::move(X); ey = ex; ex = -1; break; case SWAP: std::swap(X, Y); std::swap(ex, ey); break; case SELF: { auto& r = X; X = r; break; } case QX0: q(X, ex, 0, 3, nullptr, "X"); break; case QX1: q(X, ex, 3, 6, nullptr, "X"); break; case QY0: q(Y, ey, 0, 3, &own, "Y"); break; case QY1: q(Y, ey, 3, 6, nullptr, "Y"); break; case CTOR: { Bvh Z(Y); X = std::move(Z); ex = ey; break; } }
		auto chk = [&](Bvh& b, int e, const char* n) { if (e < 0) return; if (idOf(b) != want[e].id) fail("tree", "%s: %s differs from a fresh tree of input %d", d.c_str(), n, e); if (e != 6 && cenOf(b) != cenWant[e]) fail("centroids", "%s: %s differ from a fresh tree of input %d", d.c_str(), n, e); }; chk(X, ex, "X"); chk(Y, ey, "Y");
	}
	q(X, ex, 0, 6, nullptr, "X"); q(Y, ey, 0, 6, nullptr, "Y"); states(); out(mix(ex + 2, ey + 2));
}
// --- failures in the middle of an operation: every callback that can throw, every allocation that can fail ---------------
static std::vector<Bx> deepBoxes; static std::vector<Aabb> deepAabbs; static std::vector<f32x4> deepCentroids; static Aabb deepRoot; enum { DEEP = INPUTS, ALL };
static void rebuild(Bvh& b, int in) { if (in == DEEP) b.recreate(deepAabbs.data(), deepRoot, deepAabbs.size(), deepCentroids.data()); else build(b, in); }
static u64 idWant[ALL], qWant[ALL][6];
static u64 ask(Bvh& b, int k, std::stack<Bvh::Node*>* own)
{
	u64 h = 3; if (k < 3) { static std::vector<u32> o(4096); Plane p[2] = { Plane(f32x4(1, 0, 0, 0), k * 3 - 1.5f, false), Plane(f32x4(0, -1, 0, 0), 4.5f - k, false) }; if (k == 2) p[0] = p[1] = Plane(f32x4(0, 0, 0, 0), 1, false); u32 c = b.collectInFrustum(p, 2, o.data(), own); for (u32 i = 0; i < c; i++) h = mix(h, o[i]); return mix(h, c); }
	auto n = b.getNodes().data(); b.traverse([&h, n, k](const Bvh::Node& nd) { size_t i = &nd - n; h = mix(h, i); return k == 3 || (k == 4 ? i % 3 != 2 : nd.aabb.getMin()[0] <= 1); }, [&h](uint32 f, uint32 c) { h = mix(h, f * 64 + c); }); return h;
}
static void sound(Bvh& b, int in, const char* d) // answers and tree of a fresh build of input in
{
	std::stack<Bvh::Node*> own; trans(8); states(); if (!b.getNodeStack().empty()) { fail("node stack", "%s: %zu entries left", d, b.getNodeStack().size()); return; }
	if (ident(b) != idWant[in]) { fail("tree", "%s: the tree differs from a fresh one of input %d", d, in); return; }
	for (int k = 0; k < 6; k++) { u64 h = ask(b, k, k == 1 ? &own : nullptr); if (h != qWant[in][k]) fail("query", "%s: query %d differs from a fresh tree of input %d", d, k, in); if (!own.empty() || !b.getNodeStack().empty()) { fail("node stack", "%s: left non-empty by query %d", d, k); return; } }
}
struct Thrown { int i; };
static void failures()
{
	deep(3, 88, 0, 1, deepBoxes, deepCentroids); for (auto& b : deepBoxes) deepAabbs.push_back(toAabb(b)); deepRoot = toAabb(unionOf(deepBoxes));
	u32 depth = 0; for (int i = 0; i < ALL; i++) { Bvh b; rebuild(b, i); idWant[i] = ident(b); if (i == DEEP) depth = depthOf(b); for (int k = 0; k < 6; k++) { Bvh c; rebuild(c, i); qWant[i][k] = ask(c, k, nullptr); } }
	char d[200]; u64 no = 0; int deepest = 0;
	if (begin("callbacks that throw", true))
	{
		for (int in = 0; in < ALL; in++) for (int style = 0; style < 3; style++) for (int at = 0;; at++)
		{
			bool run = mine(no++); Bvh X, Y; int n = 0; bool out = false; std::stack<Bvh::Node*> own; rebuild(X, in); Y = X; snprintf(d, sizeof d, "input %d, test style %d, callback %d throws", in, style, at); if (run) { next(); trace(); snprintf(what, sizeof what, "%s", d); }
			auto node = X.getNodes().data(); auto step = [&n, at] { if (n++ == at) throw Thrown{ at }; };
			try { X.traverse([&](const Bvh::Node& nd) { step(); return style == 0 || (style == 1 ? (&nd - node) % 3 != 2 : (&nd - node) % 2 == 0 || &nd == node); }, [&](uint32, uint32) { step(); }); }
			catch (const Thrown& t) { out = true; if (run && t.i != at) fail("exception", "%s: another exception came out", d); }
			if (!run) { if (n <= at) break; continue; } trans(n);
			if (n > at && !out) fail("exception", "%s: the exception was lost", d); sound(X, in, d); sound(Y, in, d); if (at % 3 == 0) { for (int t : { 1, 4, (int)DEEP }) { if (t == DEEP && at % 12) continue; rebuild(X, t); sound(X, t, (std::string(d) + ", then rebuilt").c_str()); } }
			if (n <= at) break; if (at > deepest) deepest = at;
		}
		sample("input 1, every node accepted, callback 5 throws; then all queries and a rebuild"); bound("callbacks that throw: 8 inputs (one tree %u levels deep) x 3 node tests x every callback of the traversal, then 6 queries of the object and of a copy, and rebuilds from other inputs", depth);
	}
	no = 0;
	if (begin("failed allocations", true))
	{
		static const char* N[] = { "recreate of an empty tree", "recreate of another tree", "constructor", "copy", "assignment", "self-made copy then rebuild", "traverse", "collect", "collect with own stack" }; u64 most = 0;
		for (int op = 0; op < 9; op++) for (int in = 0; in < ALL; in++) for (int other = 0; other < (op == 1 || op == 4 ? ALL : 1); other++) for (long at = 0;; at++)
		{
			bool run = mine(no++); Bvh X, Y, Z; rebuild(Y, in); int ex = -1; std::stack<Bvh::Node*> own; if (op == 1 || op == 4) rebuild(X, other); else if (op >= 5) { rebuild(X, in); ex = in; } snprintf(d, sizeof d, "%s, inputs %d and %d, allocation %ld fails", N[op], in, other, at); if (run) { next(); trace(); snprintf(what, sizeof what, "%s", d); }
			std::vector<Aabb> src; if (in < 4 || in == 6) for (auto& b : prims(in)) src.push_back(toAabb(b)); bool out = false; static std::vector<u32> o(4096); Plane pl[2] = { Plane(f32x4(0, 0, 0, 0), 1, false), Plane(f32x4(1, 0, 0, 0), 1e20f, false) };
			std::function<bool(const Bvh::Node&)> yes = [](const Bvh::Node&) { return true; }; std::function<void(uint32, uint32)> leaf = [](uint32, uint32) { };
			failed = false; failAfter = at;
			try
			{
				if (op < 3) { if (in < 4 || in == 6) { auto u = prims(in)[0]; for (auto& b : prims(in)) u = uni(u, b); if (op == 2) { Bvh t(src.data(), toAabb(u), src.size(), in == 6 ? centroids5.data() : nullptr); } else X.recreate(src.data(), toAabb(u), src.size(), in == 6 ? centroids5.data() : nullptr); } else if (op == 2 && in == DEEP) { Bvh t(deepAabbs.data(), deepRoot, deepAabbs.size(), deepCentroids.data()); } else if (op == 2) { Bvh t = create(in); } else rebuild(X, in); }
				else if (op == 3) { Bvh t(Y); } else if (op == 4) X = Y; else if (op == 5) { Bvh t(Y); rebuild(t, (in + 1) % INPUTS); } else if (op == 6) X.traverse(yes, leaf); else if (op == 7) X.collectInFrustum(pl, 2, o.data()); else X.collectInFrustum(pl, 2, o.data(), &own);
			}
			catch (const std::bad_alloc&) { out = true; }
			failAfter = -1; bool hit = failed; failed = false; if ((u64)at > most) most = at;
			if (run)
			{
				if (hit && !out) fail("exception", "%s: the failure was lost", d); if (!hit) { if (op < 2 || op == 4) ex = in; } trans();
				sound(Y, in, d); if (ex >= 0) sound(X, ex, d); if (!own.empty()) fail("node stack", "%s: the caller's stack was left non-empty", d); if (!X.getNodeStack().empty()) fail("node stack", "%s: left non-empty", d); else for (int t : { 1, 5, in }) { rebuild(X, t); sound(X, t, (std::string(d) + ", then rebuilt").c_str()); }
			}
			if (!hit) break;
		}
		sample("recreate of input 7 over input 2, third allocation fails; then rebuilt"); bound("failed allocations: 9 operations (builds, copies, assignment, queries) x 8 inputs, each with every single allocation it makes failing (at most %llu), then rebuilt from three inputs", (unsigned long long)most);
	}
}
// rebuilds of large trees: the same count with other primitives, growing and shrinking, every kind of input
struct Large { int n, kind, lay; std::vector<Aabb> a; std::vector<f32x4> cen; std::vector<float> v; std::vector<uint16> i16; std::vector<uint32> i32_; Aabb root; u64 id, c, q; bool own; };
static void makeLarge(Large& l)
{
	auto pos = [&](int i, int ax) { u64 k = l.lay == 0 ? (ax ? 0 : i * 2) : l.lay == 1 ? (ax == 1 ? (l.n - i) * 3 : 0) : (u64)i * (ax == 0 ? 7919 : ax == 1 ? 104729 : 31) % l.n; return (float)k; }; f32x4 lo(1e30f), hi(-1e30f);
	for (int i = 0; i < l.n; i++)
	{
		f32x4 p(pos(i, 0), pos(i, 1), pos(i, 2), 0), q = p + f32x4(1, 1, 1, 0); lo = min(lo, p); hi = max(hi, q); l.a.push_back(Aabb(p, q)); l.cen.push_back(f32x4(pos((i * 5 + 1) % l.n, 0), pos((i * 5 + 1) % l.n, 1), 0, 0));
		for (int k = 0; k < 3; k++) { l.v.push_back(p.getX() + (k == 1)); l.v.push_back(p.getY() + (k == 2)); l.v.push_back(p.getZ() + (k != 0)); l.i16.push_back(i * 3 + k); l.i32_.push_back(i * 3 + k); }
	}
	l.root = Aabb(lo, hi);
}
static void buildLarge(Bvh& b, const Large& l) { if (l.kind < 2) b.recreate(l.a.data(), l.root, l.n, l.kind ? l.cen.data() : nullptr); else b.recreate((const uint8*)l.v.data(), l.kind & 1 ? (const uint8*)l.i32_.data() : (const uint8*)l.i16.data(), l.root, l.n * 3, 12, l.kind & 1 ? 4 : 2, l.kind > 3 ? l.cen.data() : nullptr); }
static u64 askLarge(Bvh& b, int n) { std::vector<u32> o(n + 1); u64 h = 7; for (int k = 0; k < 2; k++) { Plane p(k ? f32x4(0, -1, 0, 0) : f32x4(1, 0, 0, 0), k ? 30.5f : -20.5f, false); u32 c = b.collectInFrustum(&p, 1, o.data()); for (u32 i = 0; i < c; i++) h = mix(h, o[i]); h = mix(h, c); } return h; }
static void largeHistories()
{
	if (!begin("large histories", true)) return; bool san = strstr(VX_CONFIG, "asan") != nullptr; std::vector<Large> L; for (int n : { 2, 41, 64, 300 }) for (int kind = 0; kind < 6; kind++) for (int lay = 0; lay < 3; lay++) { if (n != 64 && lay != (kind + n) % 3 && (n != 300 || san || kind % 3)) continue; Large l; l.n = n; l.kind = kind; l.lay = lay; makeLarge(l); L.push_back(l); }
	for (auto& l : L) { Bvh b; buildLarge(b, l); l.own = l.kind == 1 || l.kind > 3; l.id = idOf(b); l.c = l.own ? 0 : cenOf(b); l.q = askLarge(b, l.n); }
	u64 c = 0; int K = L.size(); auto chk = [&](Bvh& b, const Large& l, const char* n) { trans(); if (idOf(b) != l.id) fail("tree", "%s: %s differs from a fresh tree", what, n); else if (!l.own && cenOf(b) != l.c) fail("centroids", "%s: %s", what, n); else if (u64 h = askLarge(b, l.n); h != l.q) fail("query", "%s: %s answers otherwise than a fresh tree", what, n); };
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { if (!mine(c++)) continue; for (int k = 0; k < K; k += thorough() && !san ? 1 : san ? K : 4) { int m = (k + i + j) % K; next(); states(); trace(); snprintf(what, sizeof what, "inputs %d (%d primitives, kind %d), %d (%d, %d), %d (%d, %d)", i, L[i].n, L[i].kind, j, L[j].n, L[j].kind, m, L[m].n, L[m].kind); Bvh b; buildLarge(b, L[i]); if (k & 4) askLarge(b, L[i].n); Bvh o = b; buildLarge(b, L[j]); chk(b, L[j], "the rebuilt tree"); buildLarge(b, L[m]); chk(b, L[m], "the twice rebuilt tree"); if (k == 0) { chk(o, L[i], "the copy"); o = b; chk(o, L[m], "the assigned copy"); buildLarge(o, L[i]); chk(o, L[i], "the rebuilt copy"); chk(b, L[m], "the original of a rebuilt copy"); } out(mix(L[i].id, mix(L[j].id, L[m].id))); } }
	sample("300 boxes, then 64 triangles, then 64 others"); bound("large histories: all pairs of %d inputs of 2 to 300 primitives (boxes, 16- and 32-bit meshes, with and without caller centroids, several of the same count), each followed by %s of the others", K, thorough() && !san ? "each" : san ? "one" : "a quarter");
}
static void body()
{
	auto A = alphabets(); auto& n = A[0].b; sets = { { n[0] }, { n[0], n[1], n[4], n[5], n[2], n[3], cube(20, 0, 0, 1) }, { n[1], n[1], n[1] }, { n[0], n[4], n[5], n[2], cube(-9, 0, 0, 1) } };
	float V[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 5, 5, 5 }, { 6, 5, 5 }, { 5, 6, 5 }, { -4, 0, 9 }, { -5, 0, 9 }, { -4, 1, 9 } }; vb.assign(9 * 16, 0); for (int i = 0; i < 9; i++) memcpy(&vb[i * 16], V[i], 12);
	int I0[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 0, 1, 2, 2, 5, 8 }, I1[] = { 6, 7, 8, 3, 4, 5, 0, 1, 2 }; for (int i : I0) { ib16.push_back(i); ib16.push_back(0); } for (int i : I1) ib32.push_back(i);
	auto bx = [&](int* I, int c) { std::vector<Bx> r; for (int i = 0; i < c; i++) { Tri t; for (int k = 0; k < 3; k++) for (int z = 0; z < 3; z++) t.v[k][z] = V[I[i * 3 + k]][z]; r.push_back(boxOf(t)); } return r; }; meshBoxes[0] = bx(I0, 5); meshBoxes[1] = bx(I1, 3);
	for (int i = 0; i < 5; i++) centroids5.push_back(f32x4((i * 3) % 5, (i * 2) % 5, 0, 0));
	if (begin("fresh trees", false)) for (int i = 0; i <= INPUTS; i++) { next(); states(); trace(); Bvh b; if (i < INPUTS) { b = create(i); validate(b, prims(i), unionOf(prims(i)), "fresh tree", "input " + std::to_string(i)); Bvh c; build(c, i); if (idOf(b) != idOf(c)) fail("fresh tree", "constructor and recreate differ for input %d", i); } }
	for (int i = 0; i <= INPUTS; i++) { Bvh b; if (i < INPUTS) { Bvh c = create(i); b = std::move(c); } want[i].id = idOf(b); cenWant[i] = cenOf(b); for (int k = 0; k < 6; k++) { Bvh c; if (i < INPUTS) c = create(i); want[i].q[k] = query(c, k, nullptr); } }
	bool san = strstr(VX_CONFIG, "asan") != nullptr; int D = thorough() && !san ? 5 : san && !thorough() ? 3 : 4;
	if (begin("histories", true)) { u64 c = 0; for (int len = 1; len <= D; len++) { std::vector<int> d(len, 0); while (true) { if (mine(c++)) history(d); int i = len - 1; while (i >= 0 && ++d[i] == OPS) d[i--] = 0; if (i < 0) break; } } sample("X.recreate(1); Y=X; X.recreate(4); query Y"); bound("histories: all sequences of up to %d operations from %d (7 inputs for each of two objects, copies, moves, swap, self-assignment, queries)", D, (int)OPS); }
	failures(); largeHistories();
}
}
VX_MAIN(vx::body)
