// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of Euler angle grids (including every axis-aligned and gimbal-lock combination) on the real code against the product of the three axis rotations in double precision
// @note Tolerance grows as 1/cos(yaw); within 0.12 degrees of gimbal lock (yaw = +-90) the rotation is judged to 4e-3 (float32 asin) and the single angles are not unique, so not judged.
// Q02: Euler angles and quaternions convert back and forth to the same rotation.
#include <cassert>
#include <cfloat>
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
LIN_GLUE
static Q4 ref(V3 e) { return axisAngle({ 0, 0, 1 }, e.z) * axisAngle({ 0, 1, 0 }, e.y) * axisAngle({ 1, 0, 0 }, e.x); }
static double wrap(double a) { while (a > M_PI) a -= 2 * M_PI; while (a <= -M_PI) a += 2 * M_PI; return a; }
static void euler(V3 e0)
{
	V3 e{ (double)(float)e0.x, (double)(float)e0.y, (double)(float)e0.z }; double cy = std::fabs(std::cos(e.y)); bool lock = cy < 2e-3;
	next(); states(); trace(); std::string in = "pitch " + std::to_string(e.x) + " yaw " + std::to_string(e.y) + " roll " + std::to_string(e.z); snprintf(what, sizeof what, "%s", in.c_str());
	Q4 w = ref(e); quat q = fromEulerAngles(f4(e, 3)); Q4 g = dq(q); trans(); double d = std::max(std::max(std::fabs(g.x - w.x), std::fabs(g.y - w.y)), std::max(std::fabs(g.z - w.z), std::fabs(g.w - w.w))); out(mix(mix(fbits(g.x), fbits(g.y)), mix(fbits(g.z), fbits(g.w)))); if (!(d <= 6e-7)) fail("fromEulerAngles", "%s want %s; %s", str(g).c_str(), str(w).c_str(), in.c_str());
	f32x4 x = q.extractEulerAngles(); if (x.getX() != q.extractPitch() || x.getY() != q.extractYaw() || x.getZ() != q.extractRoll()) fail("extractEulerAngles", "differs from the single extractions; %s", in.c_str());
	double tol = lock ? 4e-3 : 1e-6 + 1e-6 / cy; Q4 back = ref({ x.getX(), x.getY(), x.getZ() }); nearq(lock ? "round trip at gimbal lock" : "round trip", back, w, tol, in);
	if (!(std::fabs(x.getY()) <= (float)M_PI_2 + 1e-6f)) fail("yaw range", "%.9g; %s", x.getY(), in.c_str());
	if (!lock && std::fabs(e.y) < M_PI_2) // principal yaw: the three angles themselves come back
	{
		double a[3] = { e.x, e.y, e.z }; for (int i = 0; i < 3; i++) { double dlt = std::fabs(wrap((double)x[i] - a[i])); trans(); if (!(dlt <= 2 * tol)) fail(i == 0 ? "extractPitch" : i == 1 ? "extractYaw" : "extractRoll", "%.9g want %.9g; %s", x[i], a[i], in.c_str()); }
		quat nq = -(f32x4)q; f32x4 y = nq.extractEulerAngles(); trans(); for (int i = 0; i < 3; i++) if (!(std::fabs(wrap((double)y[i] - a[i])) <= 2 * tol)) fail("-q", "angle %d is %.9g want %.9g; %s", i, y[i], a[i], in.c_str());
	}
}
static void rotationToAngles(Q4 r)
{
	quat q = fq(r); Q4 w = dq(q); double sy = -2 * (w.x * w.z - w.w * w.y); double cy = std::sqrt(std::max(0.0, 1 - sy * sy)); bool lock = cy < 2e-3; next(); states(); trace(); std::string in = "rotation " + str(w); snprintf(what, sizeof what, "%s", in.c_str());
	f32x4 x = q.extractEulerAngles(); trans(); double tol = lock ? 4e-3 : 1e-6 + 1e-6 / cy; out(mix(mix(fbits(x.getX()), fbits(x.getY())), fbits(x.getZ()))); nearq(lock ? "angles of a rotation at gimbal lock" : "angles of a rotation", ref({ x.getX(), x.getY(), x.getZ() }), w, tol, in);
	nearq(lock ? "there and back at gimbal lock" : "there and back", dq(fromEulerAngles(x)), w, tol + 6e-7, in);
	if (!(std::fabs(x.getY()) <= (float)M_PI_2 + 1e-6f)) fail("yaw range", "%.9g; %s", x.getY(), in.c_str());
	if (!(std::fabs(x.getX()) <= (float)M_PI * (lock ? 2 : 1) + 1e-5f) || !(std::fabs(x.getZ()) <= (float)M_PI + 1e-5f)) fail("angle range", "%.9g %.9g; %s", x.getX(), x.getZ(), in.c_str());
}
static void body()
{
	if (begin("angles of rotations", true)) { u64 n = 0; auto rs = rotations(thorough() ? 5 : 3); for (auto& q : nearRotations(thorough() ? 3 : 1)) rs.push_back(q); for (auto& q : unevenRotations()) rs.push_back(q); for (auto& q : rs) if (mine(n++)) { rotationToAngles(q); rotationToAngles({ -q.x, -q.y, -q.z, -q.w }); } bound("angles of rotations: %zu integer, nearly special and uneven rotations in both signs", rs.size()); }
	int st = thorough() ? 5 : 15;
	if (begin("grid", true)) { u64 n = 0; for (int x = -180; x <= 180; x += st) for (int y = -180; y <= 180; y += st) for (int z = -180; z <= 180; z += st) if (mine(n++)) euler({ x * M_PI / 180, y * M_PI / 180, z * M_PI / 180 }); sample("pitch 30 yaw -45 roll 150 degrees"); bound("grid: pitch, yaw, roll over -180..180 degrees in steps of %d", st); }
	if (begin("fine yaw", true)) { u64 n = 0; for (int y = -900; y <= 900; y += thorough() ? 1 : 7) for (int x = -180; x <= 180; x += 45) for (int z = -180; z <= 180; z += 45) if (mine(n++)) euler({ x * M_PI / 180, y * M_PI / 1800, z * M_PI / 180 }); bound("fine yaw: yaw -90..90 degrees in steps of 0.7 (thorough 0.1) with all multiples of 45 for the others"); }
	if (begin("small and odd angles", true)) { u64 n = 0; std::vector<double> v = { 0 }; for (double s : { 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.4, 1.0, 1.3, 1.5, M_PI_2 - 1e-4, M_PI_2 + 1e-6, 2.0, 3.0, 3.14159 }) { v.push_back(s); v.push_back(-s); } for (double x : v) for (double y : v) for (double z : v) if (mine(n++)) euler({ x, y, z }); sample("pitch 1e-7 yaw 0.4 roll -1.3"); bound("small and odd angles: all triples of %zu magnitudes from 1e-7 to pi", v.size()); }
	if (begin("single axis", true)) { u64 n = 0; for (int d = -720; d <= 720; d += thorough() ? 1 : 3) for (int a = 0; a < 3; a++) { V3 e; e[a] = d * M_PI / 720; if (mine(n++)) { euler(e); float f = (float)e[a]; f32x4 ax(a == 0, a == 1, a == 2, 0); nearq("single axis", dq(fromEulerAngles(f4(e))), dq(quat(f, ax)), 3e-7, std::to_string(f)); } } bound("single axis: each Euler angle alone equals quat(angle, axis)"); }
}
}
VX_MAIN(vx::body)
