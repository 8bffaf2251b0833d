// @configs sse2 dbg
// @thorough_configs sse2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of all pairs of 8-bit flag sets and of boundary patterns for wider types, plus all operation sequences to a depth, against bitwise arithmetic
// @note hasOneFlag is judged where its name leaves one reading: a value equal to the flag has it, a value with any bit outside the flag has not (it holds more or something else); the empty set and proper parts of a multi-bit flag are left open. Logical not is judged as empty / not empty.
// P06: flag enums.
#include <cassert>
#include <cstdint>
#include "math/flags.hpp"
#include "vx.hpp"
namespace vx
{
enum class F8 : uint8_t { none }; enum class F16 : uint16_t { none }; enum class F32 : uint32_t { none }; enum class F64 : uint64_t { none }; enum class S8 : int8_t { none }; enum class S32 : int32_t { none };
using namespace math;
DECLARE_ENUM_CLASS_FLAG_OPERATORS(F8) DECLARE_ENUM_CLASS_FLAG_OPERATORS(F16) DECLARE_ENUM_CLASS_FLAG_OPERATORS(F32) DECLARE_ENUM_CLASS_FLAG_OPERATORS(F64) DECLARE_ENUM_CLASS_FLAG_OPERATORS(S8) DECLARE_ENUM_CLASS_FLAG_OPERATORS(S32)
template<class E> static void pair(u64 x, u64 y)
{
	typedef typename std::underlying_type<E>::type U; typedef typename std::make_unsigned<U>::type V; next(); states(); trace(); trans(11); V a = (V)x, b = (V)y; E p = (E)(U)a, q = (E)(U)b; auto v = [](E e) { return (V)(U)e; }; int bits = sizeof(E) * 8;
	if (v(p | q) != (V)(a | b) || v(p & q) != (V)(a & b) || v(p ^ q) != (V)(a ^ b) || v(~p) != (V)~a) fail("operator", "%d-bit %llx, %llx: or %llx and %llx xor %llx not %llx", bits, (unsigned long long)a, (unsigned long long)b, (unsigned long long)v(p | q), (unsigned long long)v(p & q), (unsigned long long)v(p ^ q), (unsigned long long)v(~p));
	if ((v(!p) != 0) != (a == 0)) fail("operator !", "%d-bit %llx", bits, (unsigned long long)a);
	E r = p; E* ref = &(r |= q); bool ok = ref == &r && v(r) == (V)(a | b); r = p; ref = &(r &= q); ok &= ref == &r && v(r) == (V)(a & b); r = p; ref = &(r ^= q); ok &= ref == &r && v(r) == (V)(a ^ b); if (!ok) fail("compound", "%d-bit %llx, %llx", bits, (unsigned long long)a, (unsigned long long)b);
	if (hasAnyFlag(p, q) != ((a & b) != 0)) fail("hasAnyFlag", "%d-bit %llx, %llx", bits, (unsigned long long)a, (unsigned long long)b);
	if (a && a == b && !hasOneFlag(p, q)) fail("hasOneFlag", "%d-bit %llx has not itself", bits, (unsigned long long)a); if (b && (a & ~b) && hasOneFlag(p, q)) fail("hasOneFlag", "%d-bit %llx is said to be just %llx", bits, (unsigned long long)a, (unsigned long long)b);
	out(mix(a, b));
}
template<class E> static void seq(const std::vector<int>& d)
{
	typedef typename std::underlying_type<E>::type U; typedef typename std::make_unsigned<U>::type V; next(); states(); trace(); E e = E::none; V m = 0; int top = sizeof(E) * 8 - 1; V bit[3] = { 1, (V)((V)1 << top), (V)((V)3 << (top / 2)) };
	for (int o : d) { trans(); V b = bit[o / 3]; E f = (E)(U)b; if (o % 3 == 0) { e |= f; m |= b; } else if (o % 3 == 1) { e &= ~f; m &= ~b; } else { e ^= f; m ^= b; } if ((V)(U)e != m) { fail("sequence", "%d-bit set is %llx, want %llx", top + 1, (unsigned long long)(V)(U)e, (unsigned long long)m); return; } for (V q : bit) if (hasAnyFlag(e, (E)(U)q) != ((m & q) != 0)) fail("sequence", "hasAnyFlag(%llx, %llx)", (unsigned long long)m, (unsigned long long)q); }
}
static std::vector<u64> pats(int bits) { std::vector<u64> r{ 0, ~0ull, 1, 3, 5, 0xaaaaaaaaaaaaaaaaull, 0x5555555555555555ull }; for (int i = 0; i < bits; i += bits > 16 ? 3 : 1) { r.push_back(1ull << i); r.push_back(~(1ull << i)); r.push_back((1ull << i) - 1); } for (int i : { 7, 8, 15, 16, 31, 32, 63 }) if (i < bits) { r.push_back(1ull << i); r.push_back(3ull << i); } return r; }
static void body()
{
	if (begin("8 bit", true)) { for (int a = 0; a < 256; a++) { if (!mine(a)) continue; for (int b = 0; b < 256; b++) { pair<F8>(a, b); pair<S8>(a, b); } } sample("0x81 with 0x80"); bound("8 bit: all pairs, signed and unsigned"); }
	if (begin("wider", true)) { u64 c = 0; for (int w = 0; w < 4; w++) { auto P = pats(w == 0 ? 16 : w == 2 ? 64 : 32); for (u64 a : P) { if (!mine(c++)) continue; for (u64 b : P) { if (w == 0) pair<F16>(a, b); else if (w == 1) pair<F32>(a, b); else if (w == 2) pair<F64>(a, b); else pair<S32>(a, b); } } } bound("wider: all pairs of single-bit, mask and complement patterns of 16, 32 and 64 bits"); }
	if (begin("sequences", true)) { int D = thorough() ? 6 : 5; u64 c = 0; for (int len = 1; len <= D; len++) { std::vector<int> d(len, 0); while (true) { if (mine(c++)) { seq<F8>(d); seq<F16>(d); seq<F32>(d); seq<F64>(d); seq<S8>(d); } int i = len - 1; while (i >= 0 && ++d[i] == 9) d[i--] = 0; if (i < 0) break; } } bound("sequences: all sequences of up to %d add / remove / toggle operations", D); }
}
}
VX_MAIN(vx::body)
