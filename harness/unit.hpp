// Length, normalisation and unit test of vectors of every magnitude and of every closeness to unit length.
#pragma once
#include "vx.hpp"
#include <functional>
namespace vx
{
// F: make(const float*) -> vector; fns: length, lengthSq, normalize (writes N floats), isNormalized(tol), default isNormalized
struct UnitFns { std::function<double(const float*)> length, lengthSq; std::function<void(const float*, float*)> normalize; std::function<bool(const float*, float)> isUnit; std::function<bool(const float*)> isUnitDefault; };
static void unitLadder(const char* nm, int N, const UnitFns& f, float w)
{
	static const float D[][4] = { { 1, 0, 0, 0 }, { 0, -1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 }, { 0.6f, 0.8f, 0, 0 }, { -0.8f, 0, 0.6f, 0 }, { 0.5f, 0.5f, -0.5f, 0.5f }, { 0.26726124f, 0.53452248f, 0.80178373f, 0 }, { 0.7071068f, 0.7071068f, 0, 0 }, { 0.01f, -0.99995f, 0.001f, 0 }, { 0.3f, 0.1f, -0.2f, 0.927362f } };
	std::vector<float> sc; for (int e = -26; e <= 0; e++) for (float m : { 1.0f, 1.5f }) { sc.push_back(1 + std::ldexp(m, e)); sc.push_back(1 - std::ldexp(m, e) * 0.5f); } sc.push_back(1); for (int e = -60; e <= 60; e += 1) { sc.push_back(std::ldexp(1.0f, e)); sc.push_back(std::ldexp(1.3f, e)); }
	static const float tol[] = { 0, 1e-7f, 1e-6f, 1e-5f, 1e-4f, 1e-3f, 0.01f, 0.1f, 0.5f, 1, 3 };
	for (auto& d : D) for (float s : sc)
	{
		next(); states(); trace(); trans(5); float v[4] = { d[0] * s, d[1] * s, d[2] * s, d[3] * s }; double q = 0; for (int k = 0; k < N; k++) q += (double)v[k] * v[k]; if (N == 3) v[3] = w; if (q < 1e-37) continue; double l = std::sqrt(q); float n[4] = { 0 };
		auto in = [&] { static char b[200]; snprintf(b, 200, "%s (%.9g,%.9g,%.9g,%.9g)", nm, v[0], v[1], N > 2 ? v[2] : 0, N > 2 ? v[3] : 0); return b; };
		double g = f.length(v), g2 = f.lengthSq(v); if (!(std::fabs(g - l) <= 4e-7 * l)) fail("length", "%s: got %.9g want %.9g", in(), g, l); if (!(std::fabs(g2 - q) <= 5e-7 * q)) fail("lengthSq", "%s: got %.9g want %.9g", in(), g2, q);
		f.normalize(v, n); for (int k = 0; k < N; k++) if (!(std::fabs(n[k] - v[k] / l) <= 4e-7)) { fail("normalize", "%s component %d: got %.9g want %.9g", in(), k, n[k], v[k] / l); break; } out(mix(fbits(n[0]), fbits(n[1])));
		double dev = std::fabs(q - 1), slack = 3e-7 * q; for (float t : tol) { if (std::fabs(dev - t) <= slack) continue; trans(); if (f.isUnit(v, t) != (dev <= t)) { fail("isNormalized", "%s, squared length %.9g, tolerance %g: got %d", in(), q, t, (int)f.isUnit(v, t)); break; } }
		if (std::fabs(dev - 1e-6) > slack && f.isUnitDefault(v) != (dev <= 1e-6)) fail("isNormalized", "%s, squared length %.9g: got %d", in(), q, (int)f.isUnitDefault(v));
	}
	bound("%s: %zu lengths (1 +- 2^-26..1, 2^-60..2^60) in 11 directions, 11 tolerances", nm, sc.size());
}
}
