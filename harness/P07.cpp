// @configs sse2 dbg asan
// @thorough_configs sse2 avx2 dbg asan port neon
// @shards 8
// @technique exhaustive exploration of all operation histories up to a depth over two packed vectors for each element width, against an array model, plus all (index, value, neighbour) writes; sanitizer builds see stale or out-of-bounds storage
// @note Elements exposed again by growing inside the last byte after a shrink are not judged, nor is a moved-from vector until it is assigned or resized. size() counts bytes.
// P07: packed vector.
#include <algorithm>
#include <cassert>
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include "math/packed-vector.hpp"
#include "vx.hpp"
using namespace math;
namespace vx
{
static sigjmp_buf jump;
template<int B> struct Run
{
	typedef PackedVector<B> PV; enum { PER = 8 / B, MASK = (1 << B) - 1 };
	struct Mod { std::vector<int> v; bool valid = true; };
	static bool agree(const PV& p, const Mod& m, const std::string& d, const char* n)
	{
		if (!m.valid) return true; trans(); size_t bytes = (m.v.size() + PER - 1) / PER; if (p.size() != bytes) { fail("size", "%d bit, %s: %s has %zu bytes for %zu elements", B, d.c_str(), n, p.size(), m.v.size()); return false; }
		for (size_t i = 0; i < m.v.size(); i++) if (m.v[i] >= 0 && (p.get(i) != m.v[i] || p.unsafeGet(i) != m.v[i])) { fail("element", "%d bit, %s: %s[%zu] is %d, want %d", B, d.c_str(), n, i, p.get(i), m.v[i]); return false; } return true;
	}
	static void resize(PV& p, Mod& m, size_t n) { if (!m.valid) { p.clear(); m.v.clear(); } size_t old = m.v.size(), keep = (old + PER - 1) / PER * PER; p.resize(n); m.valid = true; m.v.resize(n, -1); for (size_t i = old; i < n; i++) m.v[i] = i < keep ? -1 : 0; }
	// operations: 0-5 X resize, 6.. writes to X / Y, copies, moves
	enum { SIZES = 5, WR = 6, OPS = 2 * SIZES + 2 * WR + 9 };
	static bool apply(int o, PV& X, Mod& mx, PV& Y, Mod& my, std::string& d)
	{
		static const int SZ[SIZES] = { 0, 1, PER, PER + 1, 2 * PER + 1 }; char c[64];
		if (o < 2 * SIZES) { bool y = o >= SIZES; int n = SZ[o % SIZES]; snprintf(c, 64, "%c.resize(%d); ", "XY"[y], n); d += c; if (y) resize(Y, my, n); else resize(X, mx, n); return true; } o -= 2 * SIZES;
		if (o < 2 * WR) { bool y = o >= WR; PV& p = y ? Y : X; Mod& m = y ? my : mx; o %= WR; if (!m.valid || m.v.empty()) return false; size_t i = o < 2 ? 0 : o < 4 ? m.v.size() - 1 : m.v.size() / 2; int v = o == 0 ? 0xff : o == 1 ? 0 : o == 2 ? 1 : o == 3 ? MASK : o == 4 ? 0xAA : 0x0; snprintf(c, 64, "%c.%s(%zu, %d); ", "XY"[y], o & 1 ? "unsafeSet" : "set", i, v); d += c; if (o & 1) p.unsafeSet(i, v); else p.set(i, v); m.v[i] = v & MASK; return true; } o -= 2 * WR;
		switch (o) { case 0: d += "X=Y; "; X = Y; mx = my; return my.valid; case 1: d += "Y=X; "; Y = X; my = mx; return mx.valid; case 2: d += "X=move(Y); "; if (!my.valid) return false; X = std::move(Y); mx = my; my.valid = false; return true; case 3: d += "Y=move(X); "; if (!mx.valid) return false; Y = std::move(X); my = mx; mx.valid = false; return true; case 4: d += "swap; "; std::swap(X, Y); std::swap(mx, my); return true; case 5: { d += "X=X; "; PV& r = X; X = r; return true; }
		case 6: { if (!my.valid) return false; d += "X=PV(copy of Y); "; PV Z(Y); X = std::move(Z); mx = my; return true; } case 7: { if (!mx.valid) return false; d += "Y=PV(copy of X), X written; "; PV Z(X); if (!mx.v.empty()) { X.set(0, MASK); } Y = Z; my = mx; if (!mx.v.empty()) mx.v[0] = MASK; return true; } case 8: { d += "X=PV(3); "; X = PV(3); mx.valid = true; mx.v.assign(3, 0); return true; } } return false;
	}
	static void histories(int D)
	{
		char gn[64]; snprintf(gn, 64, "histories, %d bit", B); if (!begin(gn, true)) return; u64 c = 0;
		for (int len = 1; len <= D; len++) { std::vector<int> ops(len, 0); while (true) { if (mine(c++)) { next(); trace(); PV X, Y; Mod mx, my; std::string d; bool ok = true; for (int o : ops) { trans(); if (!apply(o, X, mx, Y, my, d)) { ok = false; break; } snprintf(what, sizeof what, "%d bit: %.400s", B, d.c_str()); if (!agree(X, mx, d, "X") || !agree(Y, my, d, "Y")) break; } if (ok) { states(); u64 h = B; for (int v : mx.v) h = mix(h, v + 3); for (int v : my.v) h = mix(h, v + 9); out(h); } } int i = len - 1; while (i >= 0 && ++ops[i] == OPS) ops[i--] = 0; if (i < 0) break; } }
		sample("X.resize(9); X.set(8, 1); Y=X; Y.unsafeSet(0, 0);"); bound("%s: all sequences of up to %d operations from %d on two vectors", gn, D, (int)OPS);
	}
	static void writes(int N)
	{
		char gn[64]; snprintf(gn, 64, "writes, %d bit", B); if (!begin(gn, true)) return; u64 c = 0;
		for (int n = 1; n <= N; n++) for (int bg = 0; bg <= MASK; bg++) for (int i = 0; i < n; i++) { if (!mine(c++)) continue; for (int v = 0; v < 256; v += (v < 32 ? 1 : 13)) { next(); states(); trace(); PV p(n); Mod m; m.v.assign(n, 0); for (int k = 0; k < n; k++) { p.set(k, bg); m.v[k] = bg; } if (v & 1) p.unsafeSet(i, v); else p.set(i, v); m.v[i] = v & MASK; char d[80]; snprintf(d, 80, "%d elements of %d, [%d] = %d", n, bg, i, v); if (!agree(p, m, d, "vector")) break; out(v & MASK); } }
		bound("%s: every index of every length up to %d, every background and a complete set of values", gn, N);
	}
	// with assertions on, an access beyond the storage ends the program instead of reading or writing foreign memory
	static bool stopped(PV& p, size_t i, bool write)
	{
		struct sigaction a = {}, old; a.sa_handler = [](int) { siglongjmp(jump, 1); }; sigaction(SIGABRT, &a, &old); bool r = sigsetjmp(jump, 1) != 0;
		if (!r) { if (write) p.set(i, 0); else { volatile auto v = p.get(i); (void)v; } } sigaction(SIGABRT, &old, nullptr); return r;
	}
	static void beyond(int N)
	{
		if (strcmp(VX_CONFIG, "dbg")) return; char gn[64]; snprintf(gn, 64, "beyond the end, %d bit", B); if (!begin(gn)) return; int err = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
		for (int n = 1; n <= N; n++) for (int k = 0; k < 3 * PER; k++) for (int w = 0; w < 2; w++) { next(); states(); trace(); trans(); PV p; p.reserve(64); p.resize(n); size_t bytes = (n + PER - 1) / PER; for (size_t i = bytes * PER - 1; i + 1; i--) if (!i || i == bytes * PER - 1) { if (stopped(p, i, w)) { fail("stopped", "%d bit, %d elements: %s of index %zu ended the program", B, n, w ? "set" : "get", i); break; } } if (!stopped(p, bytes * PER + k, w)) fail("beyond", "%d bit, %d elements in %zu bytes: %s of index %zu was let through", B, n, bytes, w ? "set" : "get", bytes * PER + k); }
		dup2(err, 2); close(err); bound("%s: every length up to %d, every index of the next three bytes, get and set", gn, N);
	}
	static void large()
	{
		char gn[64]; snprintf(gn, 64, "large vectors, %d bit", B); if (!begin(gn, true)) return; u64 c = 0; static const size_t NS[] = { 255, 256, 257, 1023, 2047, 2049, 32767, 65535, 65536, 65537, 131073, 262147, 524289, 1048579 };
		for (size_t n : NS) for (int g = 0; g < 3; g++)
		{
			if (!mine(c++)) continue; next(); states(); trace(); PV p; if (g == 0) p.resize(n); else if (g == 1) { p = PV(n); } else { p.resize(3); p.set(1, MASK); p.resize(n); } Mod m; m.v.assign(n, 0); if (g == 2) { m.v[1] = MASK; for (size_t i = 3; i < PER; i++) m.v[i] = -1; }
			static const size_t AT[] = { 0, 1, 127, 128, 254, 255, 256, 511, 512, 2046, 2048, 4095, 32766, 32767, 32768, 65534, 65535, 65536, 131071, 131072, 262144, 524287, 524288, 1048576 }; u64 k = 1; char d[80]; snprintf(d, 80, "%zu elements", n); snprintf(what, sizeof what, "%d bit: %s", B, d);
			auto put = [&](size_t i) { if (i >= n) return; k = k * 5 + 3; int v = 1 + k % MASK; if (MASK == 1) v = 1; if (k & 16) p.set(i, v); else p.unsafeSet(i, v); m.v[i] = v; trans(); };
			for (size_t i : AT) { put(i); put(n - 1 - i); } agree(p, m, d, "vector"); PV q(p); Mod mq = m; for (size_t i = 0; i < n; i += 97) put(i); agree(q, mq, d, "copy"); agree(p, m, d, "vector"); p.resize(n / 2 + 1); m.v.resize(n / 2 + 1); agree(p, m, d, "shrunk vector"); out(n);
		}
		bound("%s: 14 lengths up to 1048579, writes at and around powers of two and every 97th element, every element read back, copies, shrinking", gn);
	}
	// indices that do not fit 24, 31 or 32 bits: only touched pages of the zero-filled vector cost time
	static void giant(size_t n)
	{
		char gn[64]; snprintf(gn, 64, "giant vector, %d bit", B); if (!begin(gn)) return; next(); states(); trace(); PV p; p.resize(n); if (p.size() != (n + PER - 1) / PER) fail("size", "%zu elements take %zu bytes", n, p.size());
		std::vector<size_t> at; for (int e = 8; e <= 33; e++) for (long d = -9; d <= 9; d++) { size_t i = (size_t(1) << e) + d; if (i < n) at.push_back(i); } for (size_t d = 1; d <= 20; d++) { at.push_back(n - d); at.push_back(d - 1); } // the first elements: the twins of indices cut short
		std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end()); auto val = [](size_t i) { return int((i * 0x9E3779B97F4A7C15ull) >> 40) & MASK; };
		for (size_t i : at) { snprintf(what, sizeof what, "%d bit: element %zu of %zu", B, i, n); p.set(i, val(i)); trans(); } for (size_t i : at) { int g = p.get(i); trans(); out(mix(i, g)); if (g != val(i) || p.unsafeGet(i) != g) fail("giant", "%d bit: element %zu of %zu is %d, want %d", B, i, n, g, val(i)); }
		for (size_t i : at) { for (size_t j : { i - 10, i + 10 }) if (j < n && !std::binary_search(at.begin(), at.end(), j) && p.get(j)) fail("giant", "%d bit: element %zu of %zu was never written but is %d", B, j, n, p.get(j)); trans(); }
		bound("%s: %zu elements, written and read within 9 of every power of two and at the end", gn, n);
	}
	static void zero() { char gn[64]; snprintf(gn, 64, "fresh, %d bit", B); if (!begin(gn)) return; for (int n = 0; n <= 300; n++) { next(); states(); trace(); PV p(n); Mod m; m.v.assign(n, 0); agree(p, m, "fresh", "vector"); PV q; q.resize(n); agree(q, m, "fresh", "vector"); } }
};
static void body() { bool san = strstr(VX_CONFIG, "asan") != nullptr; int D = thorough() && !san ? 5 : san && !thorough() ? 3 : 4, N = thorough() ? 40 : 20; Run<1>::zero(); Run<2>::zero(); Run<4>::zero(); Run<1>::large(); Run<2>::large(); Run<4>::large(); if (!san && !strcmp(VX_CONFIG, "sse2")) { Run<1>::giant((size_t(1) << 32) + 77); Run<2>::giant((size_t(1) << 32) + 77); Run<4>::giant((size_t(1) << 32) + 77); } Run<1>::beyond(N / 2); Run<2>::beyond(N / 2); Run<4>::beyond(N / 2); Run<1>::writes(N); Run<2>::writes(N); Run<4>::writes(N); Run<1>::histories(D); Run<2>::histories(D); Run<4>::histories(D); }
}
VX_MAIN(vx::body)
