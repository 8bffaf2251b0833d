// @configs sse2 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of eye x target x up lattices on the real code against the orthonormal frame computed in double precision, plus checks of the defining relations (eye to origin, target to +Z, up without X component, rigid, right-handed)
// @note The view direction is never parallel to up (no orientation is defined there) and lookAtQuat and rotate(front) get unit directions, as documented.
// M04: look-at and view orientations are rigid and point where asked.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
LIN_GLUE LIN_GLUE_M
static M4 frame(V3 f, V3 up) { V3 s = unit(cross(up, f)), u = cross(f, s); M4 m = ident(); for (int i = 0; i < 3; i++) { m[i][0] = s[i]; m[i][1] = u[i]; m[i][2] = f[i]; } return m; }
static bool usable(V3 d, V3 up) { return len(d) > 0 && len(cross(d, up)) > 0.0005 * len(d) * len(up); }
template<class V> static auto rotate2(V f, V u, int) -> decltype(rotate(f, u)) { return rotate(f, u); } // two-argument form: front, up
struct Any { template<class A> Any(const A&) { } }; static f32x4x4 rotate2(Any, Any, long) { fail("rotate(front,up)", "does not compile"); return f32x4x4(0); }

static void one(V3 from, V3 dir, V3 up)
{
	if (!usable(dir, up)) return; next(); states(); trace(); V3 to = from + dir; std::string in = "from " + str(from) + " to " + str(to) + " up " + str(up); snprintf(what, sizeof what, "%s", in.c_str());
	V3 f = unit(dir); M4 R = frame(f, up), view = transp(R) * translation(from * -1); double k = 1 / (len(cross(f, up)) / len(up)), scale = 1 + maxabs(from) + maxabs(to), tol = 6e-7 * k * scale / std::min(1.0, len(dir)), tolR = 3e-6 * k, tolE = 1e-6 * maxabs(from) + 2e-6 * len(dir); // s is as ill-conditioned as the angle between f and up is small
	for (int pad = 0; pad < 2; pad++)
	{
		f32x4 F = f4(from, pad * 3), T = f4(to, pad * 7), U = f4(up, pad * -2);
		f32x4x4 m = lookAt(F, T, U); M4 g = dm(m); near4("lookAt", g, view, tol, in); near4("lookAt rotation", [&] { M4 q = g; q[0][3] = q[1][3] = q[2][3] = 0; return q; }(), transp(R), tolR, in); near3("lookAt eye", apply(g, from), { 0, 0, 0 }, tolE, in); near3("lookAt target", apply(g, to), { 0, 0, len(dir) }, 2 * tol, in);
		V3 gu = apply(g, unit(up), 0); if (!(std::fabs(gu.x) <= 2e-6 * k && gu.y > 0)) fail("lookAt up", "up becomes %s; %s", str(gu).c_str(), in.c_str());
		M4 r = dm(rotate(F, T, U)); near4("rotate(from,to,up)", r, R, tolR, in); near4("rotate is orthonormal", transp(r) * r, ident(), tolR, in);
		near4("rotate = transposed view rotation", transp(r), [&] { M4 q = g; q[0][3] = q[1][3] = q[2][3] = 0; return q; }(), 2 * tolR, in);
		if (up.x == 0 && up.y == 1 && up.z == 0) { near4("lookAt default up", dm(lookAt(F, T)), g, 0, in); }
	}
}
static void dir1(V3 d, V3 up)
{
	if (!usable(d, up)) return; next(); states(); trace(); V3 f = unit(d); std::string in = "direction " + str(f) + " up " + str(up); snprintf(what, sizeof what, "%s", in.c_str()); M4 R = frame(f, up); double k = 1 / (len(cross(f, up)) / len(up)), tol = 3e-6 * k;
	quat q = lookAtQuat(f4(f), f4(up)); near3("lookAtQuat forward", d3(q * f32x4(0, 0, 1, 0)), f, tol, in); near1("lookAtQuat length", std::sqrt(dot(dq(q), dq(q))), 1, tol, in); near4("lookAtQuat", dm(rotate(normalize(q))), R, tol, in);
	{ quat p = lookAtQuat(f4(f, 4), f4(up, -3)); near4("lookAtQuat w", dm(rotate(normalize(p))), R, tol, in); }
	near4("rotate(front,up)", dm(rotate2(f4(f), f4(up), 0)), R, tol, in);
	if (up.x == 0 && up.y == 1 && up.z == 0) { near4("lookAtQuat default up", dm(rotate(lookAtQuat(f4(f)))), R, tol, in); near4("rotate(front)", dm(rotate(f4(f))), R, tol, in); }
}
static void body()
{
	std::vector<V3> ups = { { 0, 1, 0 }, { 1, 0, 0 }, { 0, 0, 1 }, { 0, -1, 0 }, { 0, 3, 0 }, { 0.5, 0.5, -0.25 }, { -1, 2, 5 } }, froms = { { 0, 0, 0 }, { 1, 2, 3 }, { -10, 0.5, 4 }, { 100, -50, 25 }, { 0, 7, -2 }, { -5, 0, 1.5 }, { 3, -8, 0 } };
	auto dirs = directions(thorough() ? 6 : 3);
	if (begin("eye x target x up", true)) { u64 n = 0; for (auto& d : dirs) for (double L : { 0.25, 1.0, 10.0 }) for (auto& f : froms) for (auto& u : ups) if (mine(n++)) one(f, d * L, u); sample("from (1,2,3) direction (-1,2,1) up (0,1,0)"); bound("eye x target x up: all %zu lattice directions x 3 distances x %zu eyes x %zu ups", dirs.size(), froms.size(), ups.size()); }
	auto fine = directions(thorough() ? 20 : 8); if (begin("direction x up", true)) { u64 n = 0; for (auto& d : fine) for (auto& u : ups) if (mine(n++)) dir1(d, u); sample("direction (3,-2,1) up (0,1,0)"); bound("direction x up: all %zu lattice directions x %zu ups", fine.size(), ups.size()); }
	if (begin("direction x direction", true)) { u64 n = 0; auto ds = directions(thorough() ? 4 : 2); for (auto& d : ds) for (auto& u : ds) if (mine(n++)) dir1(d, u); bound("direction x direction: all pairs of %zu lattice directions as front and up", ds.size()); }
	if (begin("scenes of other sizes", true))
	{
		u64 n = 0; const V3 far_[] = { { 0, 0, 0 }, { 4096, -8192, 2048 }, { -65536, 3, 0.5 }, { 0.0078125, -0.015625, 0.00390625 } };
		for (auto& d : dirs) for (int e : { -9, -4, 8, 14 }) for (int ue : { -30, -12, 0, 10, 30 }) for (auto& f : far_) for (auto& u : ups) { if (maxabs(f) > 1000 && e < -4) continue; if (mine(n++)) one(f, d * std::ldexp(1.0, e), u * std::ldexp(1.0, ue)); } // exactly representable targets
		for (auto& d : dirs) for (int ue : { -30, -12, 10, 30 }) for (auto& u : ups) { if (ue < 0 && len(cross(unit(d), u)) * std::ldexp(1.0, ue) < 0.0064) { if (mine(n++)) { V3 f = unit(d); if (usable(f, u)) near4("rotate(front,tiny up)", dm(rotate2(f4(f), f4(u * std::ldexp(1.0, ue)), 0)), frame(f, u), 3e-6 / (len(cross(f, u)) / len(u)), str(f) + str(u)); } continue; } if (mine(n++)) dir1(d, u * std::ldexp(1.0, ue)); } // lookAtQuat does not normalize shorter ones
		bound("scenes of other sizes: distances scaled by 2^-9..2^14, ups by 2^-30..2^30, eyes up to 65536 away");
	}
	if (begin("far targets", true))
	{
		u64 n = 0; auto fl = [](V3 v) { return V3{ (float)v.x, (float)v.y, (float)v.z }; };
		for (auto& d : dirs) for (int e : { 10, 18, 26, 40 }) for (auto& f : froms) for (auto& u : ups) if (mine(n++)) { V3 to = fl(f + unit(d) * std::ldexp(1.0, e)); one(f, to - f, u); }
		bound("far targets: every direction at distances 2^10 .. 2^40 from %zu eyes", froms.size());
	}
	if (begin("near the up direction", true))
	{
		u64 n = 0; int az = thorough() ? 48 : 12; for (auto& up : ups) for (double side : { 1.0, -1.0 }) for (double s : { 0.001, 0.003, 0.006, 0.008, 0.012, 0.02, 0.03, 0.05, 0.08, 0.1, 0.2, 0.99999, 0.9999999, 1.0 }) for (int a = 0; a < az; a++)
		{
			if (!mine(n++)) continue; V3 u = unit(up), x = unit(cross(u, std::fabs(u.x) < 0.7 ? V3{ 1, 0, 0 } : V3{ 0, 0, 1 })), y = cross(u, x); double t = 2 * M_PI * a / az; V3 d = x * (s * std::cos(t)) + y * (s * std::sin(t)) + u * (side * std::sqrt(1 - s * s));
			auto fl = [](V3 v) { return V3{ (float)v.x, (float)v.y, (float)v.z }; }; d = fl(d); if (s >= 0.006) dir1(d, up); for (auto& f : froms) if (maxabs(f) < 11) for (double L : { 0.5, 4.0 }) { V3 to = fl(f + d * L); one(f, to - f, up); } // the target is exactly representable
		}
		bound("near the up direction: 14 angles (sine 0.001 .. 1) x %d azimuths on either side of %zu ups", az, ups.size());
	}
}
}
VX_MAIN(vx::body)
