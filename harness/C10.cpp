// @configs sse2 avx2 dbg mem
// @thorough_configs sse2 sse41 avx2 dbg port neon mem
// @sources aabb.cpp bvh.cpp
// @flags -finstrument-functions -finstrument-functions-exclude-file-list=harness/,simd/,math/vector,bits/stl_deque,alloc,bits/stl_construct,bits/stl_iter,bits/move,bits/stl_vector,bits/stl_pair,ptr_traits,intrin.h,type_traits,std_function,invoke.h,bits/stl_uninit,bits/stl_algobase,exception,ext/,bits/std_abs,cmath,bits/refwrap
// @flags_mem -DVX_MEM
// @shards 8
// @technique stateless exploration of the real code under a controlled scheduler: every interleaving of two or three BVH operations up to a preemption bound, switching at every function entry of the compiled BVH, box and stack code; a second build reports every memory access, where operations that have no conflicting access commute (partial-order reduction) and conflicting ones are switched at every such access, in cold and warm processes
// @note Scheduling points are function entries (also of inlined functions) and, in the mem build, single memory accesses of the code compiled here (not those inside libc or libstdc++ binaries). Operations documented to share state (two queries using the object's own node stack, a query during a rebuild of the same object) are not run against each other.
// A switch to the operation that already runs, or to one that has ended, is no preemption and is left out.
// C10: independent BVH operations do not see each other.
#include "bvhx.hpp"
#include "sched.hpp"
namespace vx
{
static Res collect(Bvh& b, const std::vector<Plane>& p, std::stack<Bvh::Node*>* own) { std::vector<u32> o(b.getPrimitives().size() + 1, 0xdeadbeef); u32 c = b.collectInFrustum(p.data(), p.size(), o.data(), own); Res r{ c }; for (u32 i = 0; i < o.size(); i++) r.push_back(i < c ? o[i] : o[i] == 0xdeadbeef ? 1 : 2); if (own) r.push_back(own->size()); return r; }
static Res walk(Bvh& b, int k) { Res r; b.traverse([&](const Bvh::Node& n) { size_t i = &n - b.getNodes().data(); r.push_back(i); return i % 3 != (size_t)k; }, [&](uint32 f, uint32 c) { r.push_back(1000 + f * 64 + c); }); return r; }
static u64 hashOf(const Res& r) { u64 h = 9; for (u64 x : r) h = mix(h, x); return h; }
static Bvh make(const std::vector<Bx>& p) { std::vector<Aabb> a; for (auto& x : p) a.push_back(toAabb(x)); Bvh b(a.data(), toAabb(unionOf(p)), a.size()); return b; }
static Bvh makeMesh(int n) { std::vector<float> v; std::vector<u32> ix; std::vector<Bx> p; for (int i = 0; i < n; i++) { Tri t = { { { i * 3.f, 0, 0 }, { i * 3.f + 1, i % 2 * 4.f, 1 }, { i * 3.f, 1, 1 } } }; for (int q = 0; q < 3; q++) { ix.push_back(v.size() / 3); v.insert(v.end(), t.v[q], t.v[q] + 3); } p.push_back(boxOf(t)); } return Bvh((const uint8*)v.data(), (const uint8*)ix.data(), toAabb(unionOf(p)), ix.size(), 12, 4); }
static void body()
{
	initTls(); bool T = thorough(); std::vector<std::vector<Bx>> sets; auto A = alphabets(); auto& n = A[0].b; sets = { { n[0], n[4] }, { n[0], n[1], n[4], n[5] }, { n[0], n[1], n[4], n[5], n[2], n[3], cube(20, 0, 0, 1) }, { n[0] } };
#ifdef VX_MEM
	for (int n : { 12, 33, 120 }) { sets.push_back({}); for (int i = 0; i < n; i++) sets.back().push_back(cube(i * 7 % 13 * 2 - 6, i * 5 % 11 - 3, i % 4 - 2, 1 + i % 2)); } sets.push_back(chain(2, 40, 0));
#endif
	auto pl = [](float x, float y, float z, float d) { return Plane(f32x4(x, y, z, 0), d, false); };
	std::vector<std::vector<Plane>> fr = { { pl(1, 0, 0, 0.5f) }, { pl(-1, 0, 0, 1.5f) }, { pl(0, 1, 0, -1.5f), pl(1, 0, 0, 9) }, { pl(-1, 0, 0, 4.5f), pl(0, 0, 1, 0.5f) } };
	int P = T ? 3 : 2; u64 c = 0; Res r[MAXF], want[MAXF];
	auto judge = [&](int N, const char* key, const std::string& d) { return [&, N, key, d](const std::string& s) { u64 h = 0; for (int i = 0; i < N; i++) { if (r[i] != want[i]) { fail(key, "%s: operation %d gives another result than alone under %s", d.c_str(), i, s.c_str()); break; } h = mix(h, hashOf(r[i])); } return h; }; };
	if (begin("builds of different objects", true)) { for (int k = 0; k < 6; k++) { if (!mine(c++)) continue; auto op = [&](int w) { Bvh b; if (w == 0) b = make(sets[2]); else if (w == 1) b = make(sets[1]); else if (w == 2) b = makeMesh(5); else { Bvh q = make(sets[1]); std::stack<Bvh::Node*> s; return collect(q, fr[1], &s); } Res r{ ident(b) }; for (auto& e : b.getCentroids()) for (int i = 0; i < 3; i++) r.push_back(fbits(e[i])); return r; }; static const int W[6][2] = { { 0, 1 }, { 0, 2 }, { 1, 1 }, { 2, 2 }, { 0, 3 }, { 2, 3 } }; want[0] = solo(0, [&] { return op(W[k][0]); }); want[1] = solo(1, [&] { return op(W[k][1]); }); snprintf(what, sizeof what, "pair %d", k); explore(1, [&] { return std::vector<std::function<void()>>{ [&] { r[0] = op(W[k][0]); }, [&] { r[1] = op(W[k][1]); } }; }, judge(2, "concurrent builds", "pair " + std::to_string(k))); } bound("two builds (boxes, meshes) or a build and a query of different objects: every single switch"); }
	if (begin("two collections, own stacks", true)) { for (size_t s = 0; s < sets.size(); s++) for (size_t a = 0; a < fr.size(); a++) for (size_t b = a; b < fr.size(); b++) { if (!mine(c++)) continue; Bvh t = make(sets[s]); std::stack<Bvh::Node*> s1, s2; want[0] = solo(0, [&] { return collect(t, fr[a], &s1); }); want[1] = solo(1, [&] { return collect(t, fr[b], &s2); }); u64 id = ident(t); std::string d = "tree " + std::to_string(s) + " frusta " + std::to_string(a) + " " + std::to_string(b); snprintf(what, sizeof what, "%s", d.c_str()); auto j = judge(2, "concurrent collections", d); explore(s == 2 ? P - 1 : P, [&] { return std::vector<std::function<void()>>{ [&] { r[0] = collect(t, fr[a], &s1); }, [&] { r[1] = collect(t, fr[b], &s2); } }; }, [&](const std::string& x) { if (ident(t) != id || !t.getNodeStack().empty()) fail("tree changed", "%s %s", d.c_str(), x.c_str()); return j(x); }); } sample("7-box tree, collections of x > -0.5 and of x < 1.5, switched at points 31 and 77"); bound("two collections with own stacks on one tree: %zu trees x pairs of 4 frusta, all schedules with up to %d preemptions (largest tree one less; mem build: see @technique)", sets.size(), P); }
	if (begin("collection and traversal", true)) { for (size_t s = 0; s < sets.size() - (sets.size() == 4); s++) for (size_t a = 0; a < fr.size(); a++) for (int k = 0; k < 4; k++) { if (!mine(c++)) continue; Bvh t = make(sets[s]); std::stack<Bvh::Node*> s1; want[0] = solo(0, [&] { return collect(t, fr[a], &s1); }); want[1] = solo(1, [&] { return walk(t, k); }); std::string d = "tree " + std::to_string(s) + " frustum " + std::to_string(a) + " traversal " + std::to_string(k); snprintf(what, sizeof what, "%s", d.c_str()); explore(s == 2 ? P - 1 : P, [&] { return std::vector<std::function<void()>>{ [&] { r[0] = collect(t, fr[a], &s1); }, [&] { r[1] = walk(t, k); } }; }, judge(2, "collection during traversal", d)); } bound("collection with its own stack against a traversal of the same tree: 3 trees x 4 frusta x 4 decision patterns, up to %d preemptions (largest tree one less)", P); }
	if (begin("own stack and object stack", true)) { for (size_t s = 1; s < 3; s++) for (size_t a = 0; a < fr.size(); a++) { if (!mine(c++)) continue; size_t b = (a + 1) % fr.size(); Bvh t = make(sets[s]); std::stack<Bvh::Node*> s1; want[0] = solo(0, [&] { return collect(t, fr[a], &s1); }); want[1] = solo(1, [&] { return collect(t, fr[b], nullptr); }); std::string d = "tree " + std::to_string(s) + " frusta " + std::to_string(a) + " " + std::to_string(b); explore(s == 2 ? P - 1 : 2, [&] { return std::vector<std::function<void()>>{ [&] { r[0] = collect(t, fr[a], &s1); }, [&] { r[1] = collect(t, fr[b], nullptr); } }; }, judge(2, "own stack against object stack", d)); } bound("a collection with its own stack against one using the object's: 2 trees x 4 frusta, up to 2 preemptions (larger tree, quick: 1)"); }
	if (begin("two objects", true)) { for (size_t s = 1; s < 3; s++) for (size_t a = 0; a < fr.size(); a++) { if (!mine(c++)) continue; size_t b = (a + 2) % fr.size(); Bvh x = make(sets[s]), y = x; want[0] = solo(0, [&] { return collect(x, fr[a], nullptr); }); want[1] = solo(1, [&] { return a % 2 ? walk(y, 1) : collect(y, fr[b], nullptr); }); std::string d = "tree " + std::to_string(s) + " and its copy, frusta " + std::to_string(a) + " " + std::to_string(b); explore(s == 2 ? P - 1 : 2, [&] { return std::vector<std::function<void()>>{ [&] { r[0] = collect(x, fr[a], nullptr); }, [&] { r[1] = a % 2 ? walk(y, 1) : collect(y, fr[b], nullptr); } }; }, judge(2, "two objects", d)); } bound("queries on a tree and on its copy, each using its object's stack: up to 2 preemptions (larger tree, quick: 1)"); }
	if (begin("three collections", true)) { for (size_t a = 0; a < fr.size(); a++) { if (!mine(c++)) continue; Bvh t = make(sets[1]); std::stack<Bvh::Node*> s1, s2; size_t b = (a + 1) % fr.size(); want[0] = solo(0, [&] { return collect(t, fr[a], &s1); }); want[1] = solo(1, [&] { return collect(t, fr[b], &s2); }); want[2] = solo(2, [&] { return collect(t, fr[a], nullptr); }); explore(T ? 2 : 1, [&] { return std::vector<std::function<void()>>{ [&] { r[0] = collect(t, fr[a], &s1); }, [&] { r[1] = collect(t, fr[b], &s2); }, [&] { r[2] = collect(t, fr[a], nullptr); } }; }, judge(3, "three collections", "frusta " + std::to_string(a))); } bound("three collections on one tree (two own stacks, one object stack): up to %d preemptions", T ? 2 : 1); }
	// At instruction granularity: a query with its own stack that writes nothing shared cannot be disturbed or disturb, so the tree is put on read-only pages.
#ifndef VX_MEM
	if (begin("no writes to the shared tree", true)) { arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int n = 1; n <= (T ? 40 : 20); n++) for (int lay = 0; lay < 4; lay++) { if (!mine(c++)) continue; used = 0; std::vector<Bx> p; for (int i = 0; i < n; i++) { int k = i * (2 * lay + 1) % (lay % 2 ? n : n / 2 + 1); p.push_back(lay < 2 ? cube(k * 2 - 6, 0, lay * (i % 3), 1) : cube(k - 4, (i * i) % 7 - 3, i % 4 - 2, 1 + i % 2)); } Bvh* t; std::vector<Aabb> a; for (auto& x : p) a.push_back(toAabb(x)); inArena = true; t = new Bvh(a.data(), toAabb(unionOf(p)), a.size()); inArena = false; std::vector<Res> w; std::vector<std::vector<Plane>> q; for (auto& f : fr) q.push_back(f); for (int x = -4; x < 12; x += 3) { q.push_back({ pl(1, 0, 0, -x) }); q.push_back({ pl(-1, 0, 0, x), pl(0, 1, 0, 1.5f) }); } for (auto& f : q) w.push_back(collect(*t, f, nullptr));
		if (mprotect(arena, ARENA, PROT_READ)) abort(); std::stack<Bvh::Node*> own; for (size_t i = 0; i < q.size(); i++) { next(); trace(); states(); trans(t->getNodes().size()); snprintf(what, sizeof what, "a collection with its own stack wrote to the shared tree of %d boxes, layout %d, frustum %zu", n, lay, i); Res g = collect(*t, q[i], &own); Res x = w[i]; x.push_back(0); if (g != x) fail("own stack", "other result than with the object's stack: tree of %d boxes, layout %d, frustum %zu", n, lay, i); vx::out(hashOf(g)); } mprotect(arena, ARENA, PROT_READ | PROT_WRITE); t->~Bvh(); } bound("no writes to the shared tree: 1..%d boxes in 4 layouts x 16 frusta", T ? 40 : 20); }
#endif
}
}
VX_MAIN(vx::body)
