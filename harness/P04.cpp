// @configs sse2 dbg
// @thorough_configs sse2 dbg port neon
// @shards 8
// @note No text parsing exists; the four parts are judged as numbers, their order and the text form.
// @technique exhaustive enumeration of all component tuples of a boundary alphabet, all pairs for ordering, and all index write sequences to a depth
// P04: version numbers.
#include <cassert>
#include <string>
#include "math/version.hpp"
#include "vx.hpp"
#include <array>
using namespace math;
namespace vx
{
static void one(int a, int b, int c, int d)
{
	next(); states(); trace(); trans(6); Version v(a, b, c, d); char t[80]; snprintf(t, 80, "%d.%d.%d.%d", a, b, c, d); u32 want = (u32)a << 24 | b << 16 | c << 8 | d, u = (uint32)v;
	if (v.major != a || v.minor != b || v.patch != c || v.build != d) fail("constructor", "%s", t); if (u != want) fail("pack", "%s is %08x", t, u); Version w((uint32)want); if (w.major != a || w.minor != b || w.patch != c || w.build != d) fail("unpack", "%08x is %d.%d.%d.%d", want, w.major, w.minor, w.patch, w.build);
	const Version& k = v; if (k[0] != a || k[1] != b || k[2] != c || k[3] != d || v[0] != a || v[1] != b || v[2] != c || v[3] != d) fail("index", "%s", t);
	bool ok = v.toString4() == t; snprintf(t, 80, "%d.%d.%d", a, b, c); ok &= v.toString3() == t; snprintf(t, 80, "%d.%d", a, b); ok &= v.toString2() == t; snprintf(t, 80, "%d", a); ok &= v.toString1() == t; if (!ok) fail("text", "%s", v.toString4().c_str()); out(u);
}
static void body()
{
	bool T = thorough();
	if (begin("all tuples", true)) { std::vector<int> L; for (int i = 0; i < 256; i += (i < 10 || i > 245 ? 1 : T ? 7 : 29)) L.push_back(i); u64 c = 0; for (int a : L) for (int b : L) for (int x : L) for (int y : L) if (mine(c++)) one(a, b, x, y); for (int p = 0; p < 4; p++) for (int v = 0; v < 256; v++) for (int o : { 0, 255, 100 }) if (mine(c++)) { int q[4] = { o, o, o, o }; q[p] = v; one(q[0], q[1], q[2], q[3]); } Version z; if ((uint32)z) fail("default", "is not 0.0.0.0"); Version s(3, 4); if ((uint32)s != 0x03040000) fail("default", "3.4 is %08x", (uint32)s); sample("1.255.0.128"); bound("all tuples: %zu^4 component tuples and every value of every component beside three fills", L.size()); }
	if (begin("ordering", true)) { static const int V[] = { 0, 1, 2, 127, 128, 254, 255 }; int n = T ? 7 : 5; std::vector<std::array<int, 4>> L; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) for (int d = 0; d < n; d++) L.push_back({ V[7 - n + a], V[b], V[7 - n + c], V[d] }); u64 k = 0; for (auto& x : L) { if (!mine(k++)) continue; Version v(x[0], x[1], x[2], x[3]); for (auto& y : L) { next(); trans(6); Version w(y[0], y[1], y[2], y[3]); if ((v < w) != (x < y) || (v > w) != (x > y) || (v <= w) != (x <= y) || (v >= w) != (x >= y) || (v == w) != (x == y) || (v != w) != (x != y)) fail("ordering", "%s with %s", v.toString4().c_str(), w.toString4().c_str()); } states(); trace(); } bound("ordering: all pairs of %zu versions against the lexicographic order of the tuples", L.size()); }
	if (begin("index writes", true)) { int D = T ? 5 : 4; u64 c = 0; static const int V[] = { 0, 1, 128, 255 }; for (int len = 1; len <= D; len++) { std::vector<int> d(len, 0); while (true) { if (mine(c++)) { next(); states(); trace(); Version v(9, 8, 7, 6); int m[4] = { 9, 8, 7, 6 }; for (int o : d) { trans(); v[o / 4] = V[o % 4]; m[o / 4] = V[o % 4]; } if (v.major != m[0] || v.minor != m[1] || v.patch != m[2] || v.build != m[3]) fail("index write", "sequence %llu", (unsigned long long)idx); } int i = len - 1; while (i >= 0 && ++d[i] == 16) d[i--] = 0; if (i < 0) break; } } bound("index writes: all sequences of up to %d writes", D); }
}
}
VX_MAIN(vx::body)
