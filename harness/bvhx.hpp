// Shared by C01-C03: primitive layouts, an independent tree validator and brute-force query oracles.
#pragma once
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/bvh.hpp"
#include "vx.hpp"
#include <array>
#include <memory>
#include <algorithm>
using namespace math;
namespace vx
{
struct Bx { float lo[3], hi[3]; };
inline Bx uni(const Bx& a, const Bx& b) { Bx r; for (int i = 0; i < 3; i++) { r.lo[i] = std::min(a.lo[i], b.lo[i]); r.hi[i] = std::max(a.hi[i], b.hi[i]); } return r; }
inline Bx unionOf(const std::vector<Bx>& p) { Bx r = p[0]; for (auto& b : p) r = uni(r, b); return r; }
inline Aabb toAabb(const Bx& b, float w0 = 0, float w1 = 0) { return Aabb(f32x4(b.lo[0], b.lo[1], b.lo[2], w0), f32x4(b.hi[0], b.hi[1], b.hi[2], w1)); }
inline std::string str(const Bx& b) { char c[160]; snprintf(c, sizeof c, "[(%g,%g,%g)..(%g,%g,%g)]", b.lo[0], b.lo[1], b.lo[2], b.hi[0], b.hi[1], b.hi[2]); return c; }
inline std::string str(const std::vector<Bx>& p) { std::string r; for (auto& b : p) r += str(b) + " "; return r; }
inline bool eqBox(const Aabb& a, const Bx& b) { for (int i = 0; i < 3; i++) if (a.getMin()[i] != b.lo[i] || a.getMax()[i] != b.hi[i]) return false; return true; }
struct Tri { float v[3][3]; };
inline Bx boxOf(const Tri& t) { Bx r; for (int i = 0; i < 3; i++) { r.lo[i] = std::min(t.v[0][i], std::min(t.v[1][i], t.v[2][i])); r.hi[i] = std::max(t.v[0][i], std::max(t.v[1][i], t.v[2][i])); } return r; }
// Exact-size heap copies, so that a sanitizer build sees any access beyond the given arrays.
template<class T> struct Exact { T* p; size_t n; explicit Exact(size_t n) : p((T*)aligned_alloc(16, (n * sizeof(T) + 15) / 16 * 16)), n(n) { } Exact(const Exact&) = delete; ~Exact() { free(p); } };

// The expected shape of a tree over the given primitive boxes; the root box is the caller's. Returns a hash of the tree
// structure, reports the first deviation. leafMax: largest allowed leaf, 0 = any.
inline u64 validate(const Bvh& bvh, const std::vector<Bx>& prims, const Bx& root, const char* key, const std::string& desc, uint32 leafMax = 0)
{
	auto& nodes = bvh.getNodes(); auto& pr = bvh.getPrimitives(); u32 N = prims.size(), M = nodes.size(); u64 h = 1; trans();
	if (pr.size() != N) { fail(key, "%s: %zu primitive slots for %u primitives", desc.c_str(), (size_t)pr.size(), N); return 0; }
	if (!M || M > 2 * N - 1) { fail(key, "%s: %u nodes for %u primitives", desc.c_str(), M, N); return 0; }
	std::vector<int> seenNode(M, 0), seenPrim(N, 0); std::vector<u32> order, st{ 0 }; std::vector<int> parent(M, -1);
	while (!st.empty())
	{
		u32 n = st.back(); st.pop_back(); if (seenNode[n]++) { fail(key, "%s: node %u reached twice", desc.c_str(), n); return 0; }
		order.push_back(n); auto& nd = nodes[n];
		if (nd.isLeaf())
		{
			u64 f = nd.getFirstPrimitive(), c = nd.getPrimitiveCount(); if (f + c > N) { fail(key, "%s: leaf %u covers primitive slots %llu..%llu of %u", desc.c_str(), n, (unsigned long long)f, (unsigned long long)(f + c), N); return 0; }
			if (leafMax && c > leafMax) { fail("separated primitives share a leaf", "%s: leaf %u holds %llu primitives", desc.c_str(), n, (unsigned long long)c); }
			for (u64 i = f; i < f + c; i++) { if (pr[i] >= N) { fail(key, "%s: unknown primitive %u", desc.c_str(), pr[i]); return 0; } if (seenPrim[pr[i]]++) { fail(key, "%s: primitive %u held twice", desc.c_str(), pr[i]); return 0; } h = mix(h, pr[i]); }
			h = mix(h, 0x1000 + c);
		}
		else
		{
			u64 l = nd.getLeftNode(); if (l + 1 >= M || l == 0) { fail(key, "%s: node %u has children %llu, %llu of %u nodes", desc.c_str(), n, (unsigned long long)l, (unsigned long long)l + 1, M); return 0; }
			parent[l] = parent[l + 1] = n; st.push_back(l + 1); st.push_back(l); h = mix(h, 0x2000);
		}
	}
	if (order.size() != M) { fail(key, "%s: %zu of %u nodes reachable", desc.c_str(), order.size(), M); return 0; }
	for (u32 i = 0; i < N; i++) if (!seenPrim[i]) { fail(key, "%s: primitive %u is in no leaf", desc.c_str(), i); return 0; }
	std::vector<Bx> box(M);
	for (size_t k = order.size(); k--;)
	{
		u32 n = order[k]; auto& nd = nodes[n]; Bx b;
		if (nd.isLeaf()) { u32 f = nd.getFirstPrimitive(), c = nd.getPrimitiveCount(); b = prims[pr[f]]; for (u32 i = f; i < f + c; i++) b = uni(b, prims[pr[i]]); }
		else b = uni(box[nd.getLeftNode()], box[nd.getLeftNode() + 1]);
		box[n] = b; const Bx& want = n ? b : root;
		if (!eqBox(nd.aabb, want)) { fail("node box", "%s: node %u has box (%g,%g,%g)..(%g,%g,%g), want %s", desc.c_str(), n, nd.aabb.getMin()[0], nd.aabb.getMin()[1], nd.aabb.getMin()[2], nd.aabb.getMax()[0], nd.aabb.getMax()[1], nd.aabb.getMax()[2], str(want).c_str()); return 0; }
	}
	return h;
}
// Identity of a tree for comparisons between builds of the same input.
inline u64 ident(const Bvh& b)
{
	u64 h = 7; for (auto& n : b.getNodes()) { for (int i = 0; i < 3; i++) { h = mix(h, fbits(n.aabb.getMin()[i] + 0.0f)); h = mix(h, fbits(n.aabb.getMax()[i] + 0.0f)); } h = mix(h, n.getPrimitiveCount()); h = mix(h, n.getLeftNode()); }
	for (auto p : b.getPrimitives()) h = mix(h, p); return mix(h, b.getNodes().size());
}
// --- layouts -------------------------------------------------------------------------------------------------------
inline Bx cube(float x, float y, float z, float s) { return { { x, y, z }, { x + s, y + s, z + s } }; }
inline Bx flat(float x, float y, float z, float sx, float sy, float sz) { return { { x, y, z }, { x + sx, y + sy, z + sz } }; }
struct Alphabet { const char* name; std::vector<Bx> b; };
inline std::vector<Alphabet> alphabets()
{
	const float d = 1e-39f, e = 1.5e-38f, T = 16777216.0f;
	return {
		{ "near", { cube(0, 0, 0, 1), cube(1, 0, 0, 1), cube(0, 2, 0, 1), cube(0, 0, 4, 1), cube(8, 8, 8, 2), cube(-3, 1, 0, 0.5f), flat(-4, -4, -4, 16, 16, 16), flat(0, 0, 0, 8, 1, 1) } },
		{ "degenerate", { cube(0, 0, 0, 0), cube(1, 0, 0, 0), cube(0, 1, 0, 0), flat(0, 0, 0, 2, 0, 0), flat(0, 0, 0, 2, 2, 0), flat(0, 0, -1, 0, 0, 2), cube(0, 0, 0, 1), cube(-0.0f, -0.0f, 0, 0) } },
		{ "far from the origin", { cube(T, T, T, 0), cube(T + 2, T, T, 0), cube(T, T + 2, T, 2), cube(T + 4, T + 2, T, 2), cube(-T, T, 0, 2), cube(-T - 2, T, 0, 2), cube(T * 1024, 0, 0, 4096), cube(T * 1024 + 2048, 0, 0, 4096) } },
		{ "uneven", { cube(0, 0, 0, 1), cube(1e18f, 0, 0, 1e12f), cube(0, -1e18f, 0, 1e12f), cube(1e-18f, 0, 0, 1e-19f), cube(2e-18f, 0, 0, 1e-19f), cube(1e9f, 1e9f, 1e9f, 1), cube(1000, 0, 0, 1), cube(1001, 0, 0, 1) } },
		{ "tiny", { cube(0, 0, 0, 0), cube(d, 0, 0, 0), cube(2 * d, d, 0, d), cube(e, 0, 0, 0), cube(0, e, e, d), cube(-e, 0, 0, e), cube(-d, -d, -d, d), cube(1e-45f, 0, 0, 0) } },
		{ "huge", { cube(-3e38f, 0, 0, 1e37f), cube(3e38f, 0, 0, 1e37f), cube(0, -3e38f, 0, 1e37f), cube(0, 0, 0, 1), cube(1e37f, 1e37f, 0, 1e37f), cube(1.7e38f, 0, 1, 1), cube(0, 0, 2e38f, 1e38f), flat(-3e38f, 0, 0, 1e38f, 1, 1) } },
	};
}
// groups of boxes, each group twice as far away and as large as the one before: the tree is a long chain
inline std::vector<Bx> chain(int side, int clusters, int ax) { std::vector<Bx> p; for (int k = 0; k < clusters; k++) for (int i = 0; i < side; i++) { float q[3] = { 0, 0, 0 }, s = std::ldexp(1.0f, k - 30); q[ax] = s * (i + 1) * 8; p.push_back(flat(q[0], q[1], q[2], s, s, s)); } return p; }
// groups of boxes whose centroids grow ninefold along one axis after another: every split can only take one group off, so the tree is as deep as there are groups
inline void deep(int side, int groups, int ax, int sign, std::vector<Bx>& p, std::vector<f32x4>& c) { int m = (groups + 2) / 3; for (int j = 0; j < groups; j++) { int a = (j / m + ax) % 3, l = j % m; for (int i = 0; i < side; i++) { float q[3] = { 0, 0, 0 }, e[3] = { 1, 1, 1 }; q[a] = sign * std::pow(9.0f, (float)(l - m / 2)); e[a] = 2 + l; Bx b = flat(0, 0, 0, e[0], e[1], e[2]); if (sign < 0) { b.lo[a] = -b.hi[a]; b.hi[a] = 0; } b.lo[(a + 1) % 3] += i * 0.25f; p.push_back(b); c.push_back(f32x4(q[0], q[1], q[2], i)); } } }
inline u32 depthOf(const Bvh& b) { auto& n = b.getNodes(); std::vector<u32> d(n.size(), 0); u32 m = 0; for (size_t i = 0; i < n.size(); i++) { m = std::max(m, d[i]); if (!n[i].isLeaf() && n[i].getLeftNode() > i && n[i].getLeftNode() + 1 < n.size()) d[n[i].getLeftNode()] = d[n[i].getLeftNode() + 1] = d[i] + 1; } return m; }
}
