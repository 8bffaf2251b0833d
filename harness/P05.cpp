// @configs sse2 dbg
// @thorough_configs sse2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of all 8- and 16-bit values and of all digit strings over an alphabet for wider ones, against an independent formatter
// @note Parsing of malformed or too long text is not judged. Text longer than the value's own width is judged for unsigned values only.
// P05: hexadecimal text.
#include <cassert>
#include "math/hex.hpp"
#include "vx.hpp"
using namespace math;
namespace vx
{
static std::string ref(u64 v, size_t len) { std::string r(len, '0'); for (size_t i = 0; i < len && i < 16; i++) r[len - 1 - i] = "0123456789ABCDEF"[v >> (4 * i) & 15]; return r; }
template<class T> static void val(T v, bool lengths)
{
	next(); states(); trace(); size_t n = sizeof(T) * 2; u64 u = sizeof(T) == 8 ? (u64)v : (u64)v & ((1ull << (sizeof(T) * 8)) - 1); auto h = toHex(v); trans(4); if (h != ref(u, n)) fail("toHex", "%zu-bit %llx gives %s", sizeof(T) * 8, (unsigned long long)u, h.c_str());
	auto back = [&](std::string s, const char* k) { if (sizeof(T) <= 4) { uint32 r = toInt32(s); if (r != (u & 0xffffffff)) fail("parse", "toInt32(%s) is %x (%s)", s.c_str(), r, k); } uint64 r = toInt64(s); if (r != u) fail("parse", "toInt64(%s) is %llx (%s)", s.c_str(), (unsigned long long)r, k); }; back(ref(u, n), "upper case"); std::string l = ref(u, n); for (auto& c : l) c = tolower(c); back(l, "lower case"); size_t z = l.find_first_not_of('0'); back(z == std::string::npos ? "0" : l.substr(z), "no leading zeros");
	if (lengths) for (size_t len = 1; len <= 20; len++) { if (std::is_signed<T>::value && len > n) break; trans(); auto s = toHex(v, len); if (s != ref(u, len)) { fail("toHex length", "%zu-bit %llx with %zu digits gives %s", sizeof(T) * 8, (unsigned long long)u, len, s.c_str()); break; } }
	out(u);
}
static void body()
{
	bool T = thorough();
	if (begin("8 and 16 bit", true)) { for (int v = 0; v < 65536; v++) { if (!mine(v)) continue; if (v < 256) { val((uint8)v, true); val((int8)v, true); } val((uint16)v, v % 16 == 0 || v > 65280); val((int16)v, v % 16 == 1); } sample("0x0a, 0xff00"); bound("8 and 16 bit: all values, signed and unsigned"); }
	if (begin("32 and 64 bit patterns", true)) { static const u64 D[] = { 0, 1, 7, 8, 9, 10, 15 }; u64 c = 0; int n = T ? 6 : 5; u64 tot = 1; for (int i = 0; i < n; i++) tot *= 7; for (u64 k = 0; k < tot; k++) for (int sh = 0; sh <= 16 - n; sh += (sh < 8 - n ? 1 : 2)) { if (!mine(c++)) continue; u64 v = 0, m = k; for (int i = 0; i < n; i++) { v |= D[m % 7] << (4 * i); m /= 7; } v <<= 4 * sh; if (!(v >> 32)) { val((uint32)v, k % 8 == 0); val((int32)v, k % 8 == 1); } val((uint64)v, k % 16 == 0); val((uint64)~v, k % 16 == 1); val((int64)~v, false); } sample("0xf0180a00000"); bound("32 and 64 bit patterns: all strings of %d digits from 0 1 7 8 9 A F at every second position, and their complements; every length of text from 1 to 20", n); }
}
}
VX_MAIN(vx::body)
