// Double-precision reference linear algebra shared by the geometry harnesses. No repository code in here:
// written from the textbook definitions (column-vector convention, right-handed rotations).
#pragma once
#include "vx.hpp"
#include <array>
#include <algorithm>
#include <string>

namespace vx
{
struct V3 { double x = 0, y = 0, z = 0; double& operator[](int i) { return (&x)[i]; } double operator[](int i) const { return (&x)[i]; } };
inline V3 operator+(V3 a, V3 b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
inline V3 operator-(V3 a, V3 b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
inline V3 operator*(V3 a, double s) { return { a.x * s, a.y * s, a.z * s }; }
inline V3 mulc(V3 a, V3 b) { return { a.x * b.x, a.y * b.y, a.z * b.z }; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
inline double len(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { double l = len(a); return { a.x / l, a.y / l, a.z / l }; }
inline double maxabs(V3 a) { return std::max(std::fabs(a.x), std::max(std::fabs(a.y), std::fabs(a.z))); }
inline std::string str(V3 a) { char b[120]; snprintf(b, sizeof b, "(%.9g, %.9g, %.9g)", a.x, a.y, a.z); return b; }

struct Q4 { double x = 0, y = 0, z = 0, w = 1; };
inline Q4 operator*(Q4 a, Q4 b) { return { a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z, a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z }; }
inline double dot(Q4 a, Q4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
inline Q4 unit(Q4 q) { double l = std::sqrt(dot(q, q)); return { q.x / l, q.y / l, q.z / l, q.w / l }; }
inline Q4 conj(Q4 q) { return { -q.x, -q.y, -q.z, q.w }; }
inline Q4 axisAngle(V3 a, double t) { double s = std::sin(t / 2); return { a.x * s, a.y * s, a.z * s, std::cos(t / 2) }; }
inline std::string str(Q4 q) { char b[160]; snprintf(b, sizeof b, "(%.9g, %.9g, %.9g, %.9g)", q.x, q.y, q.z, q.w); return b; }

// m[r][c], acting on column vectors
struct M4 { double e[4][4] = {}; double* operator[](int r) { return e[r]; } const double* operator[](int r) const { return e[r]; } };
inline M4 ident() { M4 m; for (int i = 0; i < 4; i++) m[i][i] = 1; return m; }
inline M4 operator*(const M4& a, const M4& b) { M4 o; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) o[r][c] += a[r][k] * b[k][c]; return o; }
inline M4 transp(const M4& a) { M4 o; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) o[r][c] = a[c][r]; return o; }
inline M4 translation(V3 t) { M4 m = ident(); for (int i = 0; i < 3; i++) m[i][3] = t[i]; return m; }
inline M4 scaling(V3 s) { M4 m = ident(); for (int i = 0; i < 3; i++) m[i][i] = s[i]; return m; }
// rotation by q (any non-zero length): v -> q v q^-1
inline V3 turn(Q4 q, V3 v) { Q4 r = q * Q4{ v.x, v.y, v.z, 0 } * conj(q); double n = dot(q, q); return { r.x / n, r.y / n, r.z / n }; }
inline M4 rotation(Q4 q) { M4 m = ident(); for (int c = 0; c < 3; c++) { V3 e; e[c] = 1; V3 r = turn(q, e); for (int i = 0; i < 3; i++) m[i][c] = r[i]; } return m; }
inline V3 apply(const M4& m, V3 v, double w = 1) { V3 o; for (int r = 0; r < 3; r++) o[r] = m[r][0] * v.x + m[r][1] * v.y + m[r][2] * v.z + m[r][3] * w; return o; }
inline double maxabs(const M4& m) { double d = 0; for (auto& r : m.e) for (double x : r) d = std::max(d, std::fabs(x)); return d; }
inline std::string str(const M4& m) { std::string s = "["; char b[32]; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) { snprintf(b, sizeof b, "%.7g%s", m[r][c], c < 3 ? " " : r < 3 ? "; " : "]"); s += b; } return s; }
inline V3 upper(const M4& m, int c) { return { m[0][c], m[1][c], m[2][c] }; }

#define LIN_GLUE /* conversions to and from the library's types; needs the library's headers before */ \
	static V3 d3(f32x4 v) { return { v.getX(), v.getY(), v.getZ() }; } \
	static f32x4 f4(V3 v, float w = 0) { return f32x4((float)v.x, (float)v.y, (float)v.z, w); } \
	static Q4 dq(f32x4 v) { return { v.getX(), v.getY(), v.getZ(), v.getW() }; } \
	static quat fq(Q4 q) { return quat((float)q.x, (float)q.y, (float)q.z, (float)q.w); }
#define LIN_GLUE_M \
	static M4 dm(const f32x4x4& m) { M4 o; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) o[r][c] = m[c][r]; return o; } \
	static f32x4x4 fm(const M4& m) { f32x4x4 o; for (int c = 0; c < 4; c++) o[c] = f32x4((float)m[0][c], (float)m[1][c], (float)m[2][c], (float)m[3][c]); return o; } \
	static bool near4(const char* key, const M4& g, const M4& w, double tol, const std::string& in, int R = 4, int C = 4) \
	{ trans(); u64 h = 0; bool ok = true; for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) { h = mix(h, fbits((float)g[r][c])); if (!(std::fabs(g[r][c] - w[r][c]) <= tol)) ok = false; } out(h); \
	  if (!ok) fail(key, "%s, want %s (tolerance %g); input %s", str(g).c_str(), str(w).c_str(), tol, in.c_str()); return ok; }
inline bool near3(const char* key, V3 g, V3 w, double tol, const std::string& in)
{ trans(); out(mix(mix(fbits((float)g.x), fbits((float)g.y)), fbits((float)g.z))); for (int i = 0; i < 3; i++) if (!(std::fabs(g[i] - w[i]) <= tol)) { fail(key, "%s, want %s (tolerance %g); input %s", str(g).c_str(), str(w).c_str(), tol, in.c_str()); return false; } return true; }
inline bool nearq(const char* key, Q4 g, Q4 w, double tol, const std::string& in) // same rotation: equal up to a common sign
{ trans(); out(mix(mix(fbits((float)g.x), fbits((float)g.y)), mix(fbits((float)g.z), fbits((float)g.w)))); double s = dot(g, w) < 0 ? -1 : 1; if (std::fabs(g.x * s - w.x) <= tol && std::fabs(g.y * s - w.y) <= tol && std::fabs(g.z * s - w.z) <= tol && std::fabs(g.w * s - w.w) <= tol) return true; fail(key, "%s, want +-%s (tolerance %g); input %s", str(g).c_str(), str(w).c_str(), tol, in.c_str()); return false; }
inline bool near1(const char* key, double g, double w, double tol, const std::string& in)
{ trans(); out(fbits((float)g)); if (std::fabs(g - w) <= tol) return true; fail(key, "%.9g, want %.9g (tolerance %g); input %s", g, w, tol, in.c_str()); return false; }

// every primitive integer quaternion direction with components in -n..n, one of each +- pair: n=1 gives 40 rotations, all 24 of the cube among them
inline std::vector<Q4> rotations(int n)
{
	std::vector<Q4> o;
	for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) for (int z = -n; z <= n; z++) for (int w = -n; w <= n; w++)
	{
		int first = x ? x : y ? y : z ? z : w; if (first <= 0) continue; int gcd = 0; for (int k : { x, y, z, w }) { int a = std::abs(k); while (a) { int t = gcd % a; gcd = a; a = t; } } if (gcd != 1) continue;
		o.push_back(unit(Q4{ (double)x, (double)y, (double)z, (double)w }));
	}
	return o;
}
// rotations close to special ones: angles 10^-6..0.3 away from 0, 90, 120, 180 and 360 degrees about every lattice axis of -1..1^3
inline std::vector<Q4> nearRotations(int n = 1)
{
	std::vector<Q4> o;
	for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) for (double base : { 0.0, M_PI / 2, M_PI * 2 / 3, M_PI, 2 * M_PI }) for (int e = -6; e <= -1; e++) for (int k = 1; k <= n; k++) for (int s = -1; s <= 1; s += 2) o.push_back(axisAngle(unit(V3{ (double)x, (double)y, (double)z }), base + s * std::pow(10.0, e) * (1 + 9.0 * (k - 1) / n) * (e == -1 ? 1.7 : 1)));
	return o;
}
// all unit quaternions whose components differ by orders of magnitude
inline std::vector<Q4> unevenRotations()
{
	std::vector<Q4> o; const double L[] = { -1, -0.05, -0.003, -1e-4, 0, 1e-4, 0.003, 0.05, 1 };
	for (double x : L) for (double y : L) for (double z : L) for (double w : L) if (std::max(std::max(std::fabs(x), std::fabs(y)), std::max(std::fabs(z), std::fabs(w))) == 1) o.push_back(unit(Q4{ x, y, z, w }));
	return o;
}
// all non-zero directions of the lattice -n..n^3 with coprime components
inline std::vector<V3> directions(int n)
{
	std::vector<V3> o;
	for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) for (int z = -n; z <= n; z++) { int gcd = 0; for (int k : { x, y, z }) { int a = std::abs(k); while (a) { int t = gcd % a; gcd = a; a = t; } } if (gcd == 1) o.push_back({ (double)x, (double)y, (double)z }); }
	return o;
}
}
