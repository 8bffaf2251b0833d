// @configs sse2 sse41 avx2 dbg
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of all small sizes, all sizes around every power of two and all levels, on the real code against integer shifts
// @note Size 0 and levels from 32 on are not judged.
// P08: mip levels.
#include <cassert>
#include "math/vector.hpp"
#include "vx.hpp"
using namespace math;
namespace vx
{
static int levels(u32 s) { int n = 0; while (s) { n++; s >>= 1; } return n; }
static u32 at(u32 s, int m) { u32 r = s >> m; return r ? r : 1; }
static void one(u32 s)
{
	next(); states(); trace(); trans(2); int n = levels(s), g = calcMipCount(s); if (g != n) fail("calcMipCount", "of %u is %d, want %d", s, g, n); out(n);
	for (int m = 0; m < 32; m++) { if (m > n + 1 && m < 30) continue; trans(); u32 r = calcSizeAtMip(s, (uint8)m); if (r != at(s, m)) { fail("calcSizeAtMip", "of %u at %d is %u, want %u", s, m, r, at(s, m)); break; } }
}
static void tri(u32 a, u32 b, u32 c)
{
	next(); states(); trace(); trans(3); u32 m2 = std::max(a, b), m3 = std::max(m2, c); if (calcMipCount(uint2(a, b)) != levels(m2)) fail("calcMipCount(uint2)", "of %u, %u is %d, want %d", a, b, calcMipCount(uint2(a, b)), levels(m2)); if (calcMipCount(uint3(a, b, c)) != levels(m3)) fail("calcMipCount(uint3)", "of %u, %u, %u is %d, want %d", a, b, c, calcMipCount(uint3(a, b, c)), levels(m3)); static const u32 W[] = { 0, 1, 0xffffffffu, 0x80000000u, 12345 }; u32 w = W[(a + b * 3 + c) % 5];
	if (calcMipCount3(u32x4(a, b, c, w)) != levels(m3)) fail("calcMipCount3", "of %u, %u, %u (fourth %u) is %d, want %d", a, b, c, w, calcMipCount3(u32x4(a, b, c, w)), levels(m3));
	for (int m = 0; m < 32; m++) { if (m > levels(m3) && m < 31) continue; trans(3); uint2 p = calcSizeAtMip(uint2(a, b), (uint8)m); uint3 q = calcSizeAtMip(uint3(a, b, c), (uint8)m); u32x4 s = calcSizeAtMip3(u32x4(a, b, c, w), (uint8)m); if (p.x != at(a, m) || p.y != at(b, m)) { fail("calcSizeAtMip(uint2)", "of %u, %u at %d is %u, %u", a, b, m, p.x, p.y); break; } if (q.x != at(a, m) || q.y != at(b, m) || q.z != at(c, m)) { fail("calcSizeAtMip(uint3)", "of %u, %u, %u at %d is %u, %u, %u", a, b, c, m, q.x, q.y, q.z); break; } if (s[0] != at(a, m) || s[1] != at(b, m) || s[2] != at(c, m)) { fail("calcSizeAtMip3", "of %u, %u, %u at %d is %u, %u, %u", a, b, c, m, s[0], s[1], s[2]); break; } }
	out(mix(levels(a), mix(levels(b), levels(c))));
}
static void body()
{
	bool T = thorough();
	if (begin("small sizes", true)) { u32 N = T ? 1 << 20 : 1 << 16; for (u32 s = 1; s <= N; s++) if (mine(s)) one(s); sample("size 4096"); bound("small sizes: every size up to %u, all its levels", N); }
	if (begin("around powers of two", true)) { u64 c = 0; u32 R = T ? 70000 : 3000; for (int k = 16; k <= 32; k++) for (u32 d = 0; d <= 2 * R; d++) { i64 s = (1ll << k) + (i64)d - R; if (s < 1 || s > 0xffffffffll) continue; if (mine(c++)) one((u32)s); } bound("around powers of two: every size within %u of 2^16..2^32", R); }
	if (begin("triples", true)) { std::vector<u32> L; for (int i = 1; i <= 9; i++) L.push_back(i); for (int k = 4; k < 32; k += T ? 1 : 3) { L.push_back((1u << k) - 1); L.push_back(1u << k); L.push_back((1u << k) + 1); } L.push_back(0xffffffffu); L.push_back(0xfffffffeu); L.push_back((1u << 25) - 1); u64 c = 0; for (u32 a : L) for (u32 b : L) for (u32 x : L) if (mine(c++)) tri(a, b, x); sample("(1024, 3, 33554431)"); bound("triples: all triples of %zu sizes, scalar and SIMD", L.size()); }
}
}
VX_MAIN(vx::body)
