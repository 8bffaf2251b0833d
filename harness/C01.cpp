// @configs sse2 avx2 dbg asan
// @thorough_configs sse2 sse41 avx2 dbg asan asan2 port neon
// @sources aabb.cpp bvh.cpp
// @shards 8
// @technique exhaustive enumeration of all short primitive lists over several position alphabets (both build overloads, index widths, strides, caller centroids), the real builder run on each and the whole tree checked by an independent walker; sanitizer builds see out-of-bounds accesses
// @note The root box is the caller's. Boxes are finite and non-empty. Which split is chosen is not judged, except that primitives apart along an axis do not stay together in leaves of more than two.
// C01: structure of a built BVH.
#include "bvhx.hpp"
namespace vx
{
static const float WL[] = { 0, 1, -1, 1e30f, -1e30f, 3e-45f };
static u64 boxes(const std::vector<Bx>& p, u64 no, const std::string& desc, uint32 leafMax = 0, const std::vector<f32x4>* cen = nullptr)
{
	next(); states(); trace(); trans(); Bx root = unionOf(p); snprintf(what, sizeof what, "%.400s", desc.c_str());
	Exact<Aabb> in(p.size()); for (size_t i = 0; i < p.size(); i++) in.p[i] = toAabb(p[i]);
	std::unique_ptr<Exact<f32x4>> ce; if (cen) { ce.reset(new Exact<f32x4>(p.size())); for (size_t i = 0; i < p.size(); i++) ce->p[i] = (*cen)[i]; }
	Bvh b(in.p, toAabb(root), p.size(), cen ? ce->p : nullptr); u64 h = validate(b, p, root, "tree", desc, leafMax);
	if (!cen) { auto& c = b.getCentroids(); if (c.size() != p.size()) fail("centroids", "%s: %zu centroids", desc.c_str(), (size_t)c.size()); else for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < 3; k++) { double w = ((double)p[i].lo[k] + p[i].hi[k]) / 2; if (std::fabs(c[i][k] - w) > 1e-6 * std::max(std::fabs((double)p[i].lo[k]), std::fabs((double)p[i].hi[k])) + 1e-44 && std::fabs(w) < 1e38) { fail("centroids", "%s: centroid %zu axis %d is %g, want %g", desc.c_str(), i, k, c[i][k], w); i = p.size() - 1; break; } } }
	// the padding lanes of the boxes must not matter
	u64 id = ident(b); for (int k = 0; k < 2; k++) { u64 m = no * 2 + k; for (size_t i = 0; i < p.size(); i++) { m = m * 6364136223846793005ull + 1442695040888963407ull; in.p[i] = toAabb(p[i], WL[(m >> 33) % 6], WL[(m >> 40) % 6]); } trans(); Bvh c(in.p, toAabb(root, WL[(m >> 20) % 6], WL[(m >> 25) % 6]), p.size(), cen ? ce->p : nullptr); validate(c, p, root, "tree with padding lanes", desc, leafMax); if (ident(c) != id) fail("padding lanes change the tree", "%s", desc.c_str()); }
	out(h); return h;
}
static void mesh(const std::vector<Tri>& t, const std::vector<std::array<int, 3>>& ind, const std::vector<std::array<float, 3>>& verts, uint32 stride, uint32 isz, const std::string& desc, uint32 leafMax = 0, const std::vector<f32x4>* cen = nullptr)
{
	next(); states(); trace(); trans(); snprintf(what, sizeof what, "%.400s", desc.c_str()); std::vector<Bx> p; for (auto& x : t) p.push_back(boxOf(x)); Bx root = unionOf(p);
	Exact<uint8> vb((verts.size() - 1) * stride + 12), ib(ind.size() * 3 * isz); for (size_t i = 0; i < verts.size(); i++) { if (i + 1 < verts.size()) memset(vb.p + i * stride, 0x7f, stride); memcpy(vb.p + i * stride, verts[i].data(), 12); }
	for (size_t i = 0; i < ind.size(); i++) for (int k = 0; k < 3; k++) { if (isz == 2) { uint16_t v = ind[i][k]; memcpy(ib.p + (i * 3 + k) * 2, &v, 2); } else { u32 v = ind[i][k]; memcpy(ib.p + (i * 3 + k) * 4, &v, 4); } }
	std::unique_ptr<Exact<f32x4>> ce; if (cen) { ce.reset(new Exact<f32x4>(t.size())); for (size_t i = 0; i < t.size(); i++) ce->p[i] = (*cen)[i]; }
	Bvh b(vb.p, ib.p, toAabb(root), ind.size() * 3, stride, isz, cen ? ce->p : nullptr); out(validate(b, p, root, "tree", desc, leafMax)); if (cen) return;
	auto& c = b.getCentroids(); if (c.size() != t.size()) fail("centroids", "%s: %zu centroids", desc.c_str(), (size_t)c.size()); else for (size_t i = 0; i < t.size(); i++) for (int k = 0; k < 3; k++) { double w = ((double)t[i].v[0][k] + t[i].v[1][k] + t[i].v[2][k]) / 3, m = std::max(std::fabs(t[i].v[0][k]), std::max(std::fabs(t[i].v[1][k]), std::fabs(t[i].v[2][k]))); if (std::fabs(c[i][k] - w) > 1e-6 * m + 1e-44 && m < 1e38) { fail("centroids", "%s: centroid %zu axis %d is %g, want %g", desc.c_str(), i, k, c[i][k], w); i = t.size() - 1; break; } }
}
template<class F> static void tuples(int K, int n, F f) { std::vector<int> d(n, 0); u64 c = 0; while (true) { if (mine(c)) f(d, c); c++; int i = n - 1; while (i >= 0 && ++d[i] == K) d[i--] = 0; if (i < 0) return; } }
static std::string dstr(const char* n, const std::vector<int>& d) { std::string r = std::string("boxes '") + n + "' of"; for (int x : d) r += " " + std::to_string(x); return r; }
// large inputs: counts and indices beyond 8, 15 and 16 bits; layouts whose tree is a long chain
static const int BIG[] = { 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
static int bigCount(bool san) { return thorough() ? (san ? 21 : 24) : san ? 15 : 24; }
static void many()
{
	bool T = thorough(), san = strstr(VX_CONFIG, "asan") != nullptr || !strcmp(VX_CONFIG, "dbg"); int nb = bigCount(san);
	if (begin("many boxes", true))
	{
		u64 c = 0; for (int b = 0; b < nb; b++) for (int l = 0; l < 6; l++) for (int ax = 0; ax < 3; ax++)
		{
			u64 no = c++; if (!mine(no) || (!T && BIG[b] > 5000 && ax != b % 3)) continue; int n = BIG[b]; std::vector<Bx> p; u32 lm = 0; int side = 1; while (side * side < n) side++;
			for (int i = 0; i < n; i++) { float q[3] = { 0, 0, 0 }, s = 1; if (l == 0) { q[ax] = i * 2; lm = 2; } else if (l == 1) { q[ax] = (n - 1 - i) * 2; lm = 2; } else if (l == 2) { q[ax] = i % side * 2; q[(ax + 1) % 3] = i / side * 3; } else if (l == 3) q[ax] = 5; else if (l == 5) { q[ax] = i % 2 * 9; lm = (n + 1) / 2; } else { q[ax] = (u64)i * 7919 % n; q[(ax + 2) % 3] = (u64)i * 104729 % n; s = 0.5f; } p.push_back(cube(q[0], q[1], q[2], s)); }
			static const char* N[] = { "in a row", "in a row, last first", "on a grid", "in one place", "scattered", "in two places" }; boxes(p, no, std::to_string(n) + " boxes " + N[l] + ", axis " + std::to_string(ax), lm);
		}
		sample("65536 boxes on a grid, axis 1"); bound("many boxes: %d counts from 100 to %d x 6 layouts x axes", nb, BIG[nb - 1]);
	}
	if (begin("chains", true)) { u64 c = 0; for (int side = 1; side <= 4; side++) for (int k = 2; k <= 88; k += T || k < 8 ? 1 : 5) for (int ax = 0; ax < 3; ax++) { u64 no = c++; if (!mine(no)) continue; auto p = chain(side, k, ax); char d[100]; snprintf(d, sizeof d, "%d groups of %d boxes at doubling distances on axis %d", k, side, ax); boxes(p, no, d); std::reverse(p.begin(), p.end()); boxes(p, no, std::string(d) + ", reversed"); } sample("88 groups of 3 boxes at doubling distances on axis 0"); bound("chains: up to 88 groups of up to 4 boxes, each group twice as far and as large as the one before (very deep trees)"); }
	if (begin("deep trees", true)) { u64 c = 0; for (int side = 1; side <= 4; side++) for (int k : { 8, 30, 64, 65, 66, 96, 128, 129, 150, 200 }) for (int sg = -1; sg <= 1; sg += 2) for (int ax = 0; ax < 3; ax++) { u64 no = c++; if (!mine(no)) continue; std::vector<Bx> p; std::vector<f32x4> ce; deep(side, k, ax, sg, p, ce); char d[100]; snprintf(d, sizeof d, "%d groups of %d boxes, centroids growing ninefold%s, axis %d", k, side, sg < 0 ? " downwards" : "", ax); boxes(p, no, d, 0, &ce); std::reverse(p.begin(), p.end()); std::reverse(ce.begin(), ce.end()); boxes(p, no, std::string(d) + ", reversed", 0, &ce); } bound("deep trees: up to 200 groups of up to 4 boxes, caller centroids such that every split takes one group off"); }
	if (!san && begin("past 2^17 primitives", true))
	{
		u64 c = 0; for (int l = 0; l < 4; l++) for (int ax = 0; ax < 3; ax++) for (int k = 0; k < 2; k++)
		{
			u64 no = c++; if (!mine(no) || (!T && ax != l % 3)) continue; int n = 140001 + 20000 * k; auto at = [&](int i) { return (float)(l == 0 ? i * 2 : l == 1 ? (n - 1 - i) * 2 : (u64)i * 7919 % n * 2); }; std::string d = std::to_string(n) + (l == 1 ? " in a row, last first" : l > 1 ? " in a row, mixed" : " in a row") + ", axis " + std::to_string(ax);
			if (!k && l < 3) { std::vector<Bx> p; for (int i = 0; i < n; i++) { float q[3] = { 0, 0, 0 }; q[ax] = at(i); p.push_back(cube(q[0], q[1], q[2], 1)); } boxes(p, no, "boxes " + d, 2); }
			else { std::vector<std::array<float, 3>> v; std::vector<std::array<int, 3>> ind; std::vector<Tri> t; for (int i = 0; i < n; i++) { Tri r; for (int q = 0; q < 3; q++) { float z[3] = { (float)(q == 1), (float)(q == 2), (float)(q == 1) }; z[ax] += at(i); v.push_back({ z[0], z[1], z[2] }); for (int w = 0; w < 3; w++) r.v[q][w] = z[w]; } t.push_back(r); ind.push_back({ 3 * i, 3 * i + 1, 3 * i + 2 }); } mesh(t, ind, v, 12, 4, "triangles " + d); }
		}
		bound("past 2^17 primitives: 140001 boxes and triangles, 160001 triangles, in a row in 3 orders (the halves hold more than 2^16)");
	}
	if (begin("large meshes", true))
	{
		u64 c = 0; for (int b = 0; b < nb; b++) for (int l = 0; l < 4; l++) for (int w = 2; w <= 4; w += 2)
		{
			u64 no = c++; int n = BIG[b]; if (!mine(no) || (!T && n > 5000 && l == 3)) continue; int side = 1; while (side * side < n) side++; std::vector<std::array<float, 3>> v; std::vector<std::array<int, 3>> ind; std::vector<Tri> t;
			// l=0: n vertices in a row, triangles of the last ones; l=1: grid of shared vertices; l=2: every triangle its own corner vertices, counted down; l=3: one triangle repeated over far apart indices
			int nv = l == 1 ? (side + 1) * (side + 1) : l == 2 ? 3 * n : n; if (w == 2 && nv > 65536) { nv = 65536; } if (nv < 3) nv = 3;
			for (int i = 0; i < nv; i++) { if (l == 1) v.push_back({ (float)(i % (side + 1)), (float)(i / (side + 1)), (float)(i * 7 % 5) }); else v.push_back({ (float)(i * 2), (float)(i % 3), (float)(i % 2) }); }
			int nt = l == 0 ? std::min(n, 40) : l == 3 ? 9 : n; if (!T && nt > 30000) nt = l == 1 ? 22000 : 30000;
			for (int i = 0; i < nt; i++) { std::array<int, 3> k; if (l == 0) k = { nv - 1 - i % (nv - 2), nv - 2 - i % (nv - 2), std::max(0, nv - 3 - i) }; else if (l == 1) { int x = i % side, y = i / side % side; k = { y * (side + 1) + x, y * (side + 1) + x + 1, (y + 1) * (side + 1) + x }; for (int& q : k) q %= nv; } else if (l == 2) { int q = (int)((u64)i * 3 % nv); k = { nv - 1 - q, std::max(0, nv - 2 - q), std::max(0, nv - 3 - q) }; } else k = { i % 3 * (nv - 1) / 2, (i + 1) % 3 * (nv - 1) / 2, i / 3 % 3 * (nv - 1) / 2 }; ind.push_back(k); }
			for (auto& k : ind) { Tri r; for (int q = 0; q < 3; q++) for (int z = 0; z < 3; z++) r.v[q][z] = v[k[q]][z]; t.push_back(r); } static const uint32 SZ[] = { 12, 16, 20, 32, 24, 256, 300 };
			static const char* N[] = { "triangles of the last vertices", "triangles over a grid", "separate triangles, last vertex first", "triangles over the first, middle and last vertex" }; mesh(t, ind, v, SZ[no % 7], w, std::to_string(nt) + " " + N[l] + " of " + std::to_string(nv) + " vertices, " + std::to_string(w * 8) + "-bit indices");
		}
		sample("40 triangles of the last vertices of 65536 vertices, 16-bit indices"); bound("large meshes: %d sizes from 100 to %d x 4 layouts x both index widths", nb, BIG[nb - 1]);
	}
}
static void body()
{
	bool T = thorough(); auto A = alphabets(); bool san = strstr(VX_CONFIG, "asan") != nullptr;
	for (auto& a : A) { std::string g = std::string("box lists: ") + a.name; if (!begin(g.c_str(), true)) continue; int K = a.b.size(), L = T ? (san ? 5 : 6) : (san ? 4 : 5), Lw = L + 2, Kw = 3;
		for (int n = 1; n <= L; n++) tuples(K, n, [&](const std::vector<int>& d, u64 c) { std::vector<Bx> p; for (int x : d) p.push_back(a.b[x]); boxes(p, c, dstr(a.name, d)); });
		for (int o = 0; o + Kw <= K; o += Kw) for (int n = L + 1; n <= Lw; n++) tuples(Kw, n, [&](const std::vector<int>& d0, u64 c) { std::vector<Bx> p; std::vector<int> d; for (int x : d0) { d.push_back(x + o); p.push_back(a.b[x + o]); } boxes(p, c, dstr(a.name, d)); });
		sample("%s", dstr(a.name, { 0, 1, 2, 1 }).c_str()); bound("%s: all lists of up to %d boxes from %d, all lists of up to %d boxes from 3 at a time, each with three fills of the padding lanes", g.c_str(), L, K, Lw); }
	if (begin("long box lists", true)) { u64 c = 0; int M = T ? 64 : san ? 16 : 32; for (int n = 1; n <= M; n++) for (int m = 1; m <= n; m++) for (int s = 0; s < (T ? 8 : 4); s++) for (int ax = 0; ax < 3; ax++) { u64 no = c++; if (!mine(no)) continue; std::vector<Bx> p; int step = 2 * s + 1; for (int i = 0; i < n; i++) { int k = (i * step) % m; float q[3] = { 0, 0, 0 }; q[ax] = k * 2; if (s % 2) q[(ax + 1) % 3] = (i * 7 % m) * 3; p.push_back(cube(q[0], q[1], q[2], 1)); } char d[160]; snprintf(d, sizeof d, "%d unit boxes at (i*%d mod %d)*2 on axis %d%s", n, step, m, ax, s % 2 ? ", second axis (i*7 mod m)*3" : ""); bool sep = m == n && !(s % 2) && std::__gcd(step, n) == 1; boxes(p, no, d, sep ? 2 : 0); } sample("17 unit boxes at (i*3 mod 17)*2 on axis 1"); bound("long box lists: 1..%d boxes, every modulus, %d strides, each axis", M, T ? 8 : 4); }
	if (begin("separated along an axis", true)) { u64 c = 0; int M = san ? 6 : T ? 8 : 7; static const float P[] = { 0, 2, 4, 8, 16, 100, 1000, 65536 }; for (int n = 1; n <= M; n++) { std::vector<int> d(n); for (int i = 0; i < n; i++) d[i] = i; do { for (int ax = 0; ax < 3; ax++) { u64 no = c++; if (!mine(no)) continue; std::vector<Bx> p; for (int x : d) { float q[3] = { 0, 0, 0 }; q[ax] = P[x]; p.push_back(cube(q[0], q[1], q[2], 1)); } boxes(p, no, dstr("separated", d) + " axis " + std::to_string(ax), 2); } } while (std::next_permutation(d.begin(), d.end())); } sample("unit boxes at 8 0 100 2 on axis 2"); bound("separated along an axis: all orders of up to %d boxes, each axis; no leaf may hold more than two", M); }
	if (begin("caller centroids", true)) { static const float C[] = { 0, 1, -5, 3e38f, -3e38f, 16777216.0f, 16777218.0f, 1e-40f }; int n = T ? 5 : 4; if (san) n = T ? 4 : 3; for (int k = 1; k <= n; k++) tuples(8, k, [&](const std::vector<int>& d, u64 no) { for (int ax = 0; ax < 3; ax++) { std::vector<Bx> p; std::vector<f32x4> ce; for (int i = 0; i < k; i++) { p.push_back(A[0].b[(i * 3 + d[i]) % 8]); float q[4] = { 0, 0, 0, 0 }; q[ax] = C[d[i]]; if (d[i] & 1) q[(ax + 1) % 3] = C[d[(i + 1) % k]]; ce.push_back(f32x4(q[0], q[1], q[2], q[3])); } boxes(p, no * 3 + ax, dstr("near, with centroids", d), 0, &ce); } }); sample("4 boxes with caller-given centroids 0, -3e38, 2^24, 2^24+2 on one axis"); bound("caller centroids: all assignments of 8 values (also unrelated to the boxes) to up to %d primitives, each axis", n); }
	// all meshes over 4 vertices
	std::vector<std::vector<std::array<float, 3>>> VS = { { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 2, 0 }, { 0, 0, 4 } }, { { 0, 0, 0 }, { 0, 0, 0 }, { 8, 8, 8 }, { -1, 5, 2 } }, { { 16777216, 0, 0 }, { 16777218, 0, 0 }, { 0, 1e-39f, 0 }, { 0, 0, 1e18f } }, { { 100, 101, 102 }, { -7, -8, -9 }, { 0.5f, 0.25f, 0.125f }, { 3, -3, 3 } } };
	if (begin("meshes over 4 vertices", true)) { int n = T && !san ? 3 : 2; u64 c = 0; for (size_t v = 0; v < VS.size(); v++) for (int k = 1; k <= n; k++) tuples(k == 3 ? 64 : 64, k, [&](const std::vector<int>& d, u64 no) { std::vector<std::array<int, 3>> ind; std::vector<Tri> t; for (int x : d) { std::array<int, 3> i{ x & 3, x >> 2 & 3, x >> 4 }; ind.push_back(i); Tri r; for (int q = 0; q < 3; q++) for (int z = 0; z < 3; z++) r.v[q][z] = VS[v][i[q]][z]; t.push_back(r); } static const uint32 SZ[] = { 12, 16, 20, 32, 24, 256, 300 }; mesh(t, ind, VS[v], SZ[no % 7], no & 1 ? 4 : 2, dstr("mesh, vertex set ", d) + " set " + std::to_string(v)); }); sample("mesh of triangles 0x1b and 0x39 over vertex set 1"); bound("meshes over 4 vertices: all lists of up to %d of the 64 index triples x %zu vertex sets, strides 12..32, 16/32-bit indices", n, VS.size()); }
	if (begin("triangle lists", true)) { std::vector<std::array<float, 3>> v; std::vector<std::array<int, 3>> tr; static const float O[6][3] = { { 0, 0, 0 }, { 4, 0, 0 }, { 0, 4, 0 }, { 9, 9, 9 }, { 16777216, 16777216, 0 }, { 16777220, 16777216, 0 } }; for (int i = 0; i < 6; i++) { int k = v.size(); v.push_back({ O[i][0], O[i][1], O[i][2] }); v.push_back({ O[i][0] + 2, O[i][1], O[i][2] }); v.push_back({ O[i][0], O[i][1] + 2, O[i][2] + 2 }); tr.push_back({ k, k + 1, k + 2 }); } tr.push_back({ 0, 0, 0 }); tr.push_back({ 0, 4, 8 }); int n = san ? 4 : T ? 6 : 5; for (int k = 1; k <= n; k++) tuples(8, k, [&](const std::vector<int>& d, u64 no) { std::vector<std::array<int, 3>> ind; std::vector<Tri> t; for (int x : d) { ind.push_back(tr[x]); Tri r; for (int q = 0; q < 3; q++) for (int z = 0; z < 3; z++) r.v[q][z] = v[tr[x][q]][z]; t.push_back(r); } static const uint32 SZ[] = { 12, 16, 20, 32, 24, 256, 300 }; mesh(t, ind, v, SZ[no % 7], no & 1 ? 4 : 2, dstr("triangles", d)); }); sample("triangle list 0 0 3 7"); bound("triangle lists: all lists of up to %d triangles from 8 (separate, coincident, degenerate, far from the origin)", n); }
	auto tri = [](float x, float y, float z) { Tri r = { { { x, y, z }, { x + 1, y, z + 1 }, { x, y + 1, z + 1 } } }; return r; };
	auto meshOf = [&](const std::vector<Tri>& t, u64 no, const std::string& d, uint32 leafMax, const std::vector<f32x4>* cen) { std::vector<std::array<float, 3>> v; std::vector<std::array<int, 3>> ind; for (auto& r : t) { int k = v.size(); for (int q = 0; q < 3; q++) v.push_back({ r.v[q][0], r.v[q][1], r.v[q][2] }); ind.push_back({ k + (int)(no % 3), k + (int)((no + 1) % 3), k + (int)((no + 2) % 3) }); } std::vector<Tri> w(t); for (auto& r : w) { Tri o = r; for (int q = 0; q < 3; q++) memcpy(r.v[q], o.v[(no + q) % 3], 12); } static const uint32 SZ[] = { 12, 16, 20, 32, 24, 256, 300 }; mesh(w, ind, v, SZ[no % 7], no & 1 ? 4 : 2, d, leafMax, cen); };
	if (begin("long triangle lists", true)) { u64 c = 0; int M = T ? 48 : san ? 14 : 24; for (int n = 1; n <= M; n++) for (int m = 1; m <= n; m++) for (int s = 0; s < 4; s++) for (int ax = 0; ax < 3; ax++) { u64 no = c++; if (!mine(no)) continue; std::vector<Tri> t; int step = 2 * s + 1; for (int i = 0; i < n; i++) { int k = (i * step) % m; float q[3] = { 0, 0, 0 }; q[ax] = k * 3; if (s % 2) q[(ax + 1) % 3] = (i * 7 % m) * 3; t.push_back(tri(q[0], q[1], q[2])); } char d[160]; snprintf(d, sizeof d, "%d triangles at (i*%d mod %d)*3 on axis %d%s", n, step, m, ax, s % 2 ? ", second axis (i*7 mod m)*3" : ""); bool sep = m == n && !(s % 2) && std::__gcd(step, n) == 1; meshOf(t, no, d, sep ? 2 : 0, nullptr); } sample("17 triangles at (i*3 mod 17)*3 on axis 1"); bound("long triangle lists: 1..%d triangles, every modulus, 4 strides, each axis", M); }
	if (begin("caller centroids of meshes", true)) { static const float C[] = { 0, 1, -5, 3e38f, 16777216.0f, 1e-40f }; int n = T ? 6 : san ? 4 : 5; for (int k = 1; k <= n; k++) tuples(6, k, [&](const std::vector<int>& d, u64 no) { for (int ax = 0; ax < 3; ax++) { std::vector<Tri> t; std::vector<f32x4> ce; for (int i = 0; i < k; i++) { t.push_back(tri((i * 3 + d[i]) % 4 * 2, i % 2 * 5, d[i])); float q[4] = { 0, 0, 0, 0 }; q[ax] = C[d[i]]; if (d[i] & 1) q[(ax + 1) % 3] = C[d[(i + 1) % k]]; ce.push_back(f32x4(q[0], q[1], q[2], q[3])); } meshOf(t, no * 3 + ax, dstr("triangles, with centroids", d), 0, &ce); } }); for (int len = 6; len <= (T ? 24 : 12); len++) for (int s = 0; s < 4; s++) for (int ax = 0; ax < 3; ax++) { u64 no = len * 12 + s * 3 + ax; if (!mine(no)) continue; std::vector<Tri> t; std::vector<f32x4> ce; for (int i = 0; i < len; i++) { float q[3] = { 0, 0, 0 }, e[3] = { 7, 7, 7 }; q[ax] = (i * (s + 1)) % len * 3; e[(ax + s) % 3] = (i * (2 * s + 1)) % len; t.push_back(tri(q[0], q[1], q[2])); ce.push_back(f32x4(e[0], e[1], e[2], i)); } meshOf(t, no, "long triangle list with centroids " + std::to_string(len) + " " + std::to_string(s) + " " + std::to_string(ax), 0, &ce); } bound("caller centroids of meshes: all assignments of 6 values to up to %d triangles, each axis, and lists of up to %d", n, T ? 24 : 12); }
	if (begin("triangles separated along an axis", true)) { int M = san ? 5 : 7; static const float P[] = { 0, 3, 6, 12, 24, 100, 1000 }; u64 c = 0; for (int n = 1; n <= M; n++) { std::vector<int> d(n); for (int i = 0; i < n; i++) d[i] = i; do { for (int ax = 0; ax < 3; ax++) { u64 no = c++; if (!mine(no)) continue; std::vector<std::array<float, 3>> v; std::vector<std::array<int, 3>> ind; std::vector<Tri> t; for (int x : d) { Tri r = { { { 0, 0, 0 }, { 1, 0, 1 }, { 0, 1, 1 } } }; int k = v.size(); for (int q = 0; q < 3; q++) { r.v[q][ax] += P[x]; v.push_back({ r.v[q][0], r.v[q][1], r.v[q][2] }); } ind.push_back({ k, k + 1, k + 2 }); t.push_back(r); } mesh(t, ind, v, no & 2 ? 12 : 28, no & 1 ? 4 : 2, dstr("separated triangles", d), 2); } } while (std::next_permutation(d.begin(), d.end())); } bound("triangles separated along an axis: all orders of up to %d", M); }
	many();
}
}
VX_MAIN(vx::body)
