// The operand of an operation lies inside the object the operation changes (v *= v.y, m *= m, box += box.getMin()): the
// result is that of the same operation with a copy of the operand. Values are chosen so that every result is exact.
#pragma once
#include "vx.hpp"
namespace vx
{
template<class S, class P, class F> inline void inside(const char* n, const S& s, P part, F op)
{
	trans(); S a = s, b = s; auto v = part(b); op(b, v); auto& r = part(a); op(a, r); unsigned char x[sizeof(S)], y[sizeof(S)]; memcpy(x, &a, sizeof(S)); memcpy(y, &b, sizeof(S));
	if (memcmp(x, y, sizeof(S))) { size_t i = 0; while (x[i] == y[i]) i++; fail(n, "%s with an operand inside the object differs from the same with a copy (%s; byte %zu of the result)", n, what, i); }
}
// every operator of a list with every part of an object
#define INSIDE(op) inside(#op, s, part, [](auto& o, const auto& v) { o op v; });
}
