// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of all pairs of lattice rotations (equal, nearly equal, opposite, antipodal representatives) x interpolation parameters on the real code against the great-arc formula in double precision; all component pairs for linear interpolation
// @note Unit quaternions only. Rotations exactly a half turn apart have two shortest arcs; either is accepted.
// Q03: interpolation stays on the path between its end points.
#include <cassert>
#include <cfloat>
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
LIN_GLUE
static Q4 lin(Q4 a, double s, Q4 b, double t) { return { a.x * s + b.x * t, a.y * s + b.y * t, a.z * s + b.z * t, a.w * s + b.w * t }; }
// k/T and parameters between them, next to both ends among them, in order
static std::vector<double> params(int T) { std::vector<double> r { 1e-30, 1e-7, 1e-4, 0.00075, 0.003, 0.01, 0.1, 1.0 / 3, 0.45, 0.499, 0.501, 0.7, 0.9, 0.985, 0.9985, 0.9996, 0.99999, 1 - 1e-7 }; for (int k = 0; k <= T; k++) r.push_back((double)k / T); std::sort(r.begin(), r.end()); return r; }
static void pair(Q4 a, Q4 b, int T)
{
	next(); states(); trace(); std::string in = "a=" + str(a) + " b=" + str(b); snprintf(what, sizeof what, "%s", in.c_str()); quat A = fq(a), B = fq(b); a = dq(A); b = dq(B); double c = dot(a, b); bool tie = std::fabs(c) < 1e-6; if (c < 0) { b = lin(b, -1, b, 0); c = -c; } Q4 ua = unit(a), ub = unit(b); double th = std::atan2(std::sqrt(std::max(0.0, dot(lin(ub, 1, ua, -dot(ua, ub)), lin(ub, 1, ua, -dot(ua, ub))))), dot(ua, ub));
	double prev = -1; static const std::vector<double> P8 = params(8), P16 = params(16), P32 = params(32);
	for (double t : T == 8 ? P8 : T == 16 ? P16 : P32)
	{
		Q4 g = dq(slerp(A, B, (float)t)); trans(); t = (float)t; out(mix(mix(fbits(g.x), fbits(g.y)), mix(fbits(g.z), fbits(g.w)))); std::string at = in + " t=" + std::to_string(t);
		double s1 = th < 1e-9 ? 1 - t : std::sin((1 - t) * th) / std::sin(th), s2 = th < 1e-9 ? t : std::sin(t * th) / std::sin(th); Q4 w = lin(a, s1, b, s2), w2 = lin(a, s1, b, -s2); double tol = 2e-6;
		auto dist = [&](Q4 p) { Q4 d = lin(g, 1, p, -1); return std::sqrt(dot(d, d)); }; double d = dist(w); if (tie) d = std::min(d, dist(w2)); if (!(d <= tol)) fail("slerp", "%s want %s; %s", str(g).c_str(), str(w).c_str(), at.c_str());
		double l = std::sqrt(dot(g, g)); if (!(std::fabs(l - 1) <= tol)) fail("length", "|slerp| is %.9g; %s", l, at.c_str());
		double ang = std::acos(std::min(1.0, std::fabs(dot(unit(g), ua)))); if (!(ang <= th + 2e-3)) fail("overshoot", "%.9g of %.9g radians from a; %s", ang, th, at.c_str()); if (th > 0.02) { if (!(std::fabs(ang - t * th) <= 2e-3)) fail("constant speed", "%.9g radians from a, want %.9g; %s", ang, t * th, at.c_str()); if (!(ang >= prev - 1e-3)) fail("monotone", "angle went back; %s", at.c_str()); prev = ang; }
	}
}
static bool inside(float a, float b, float x) { float lo = std::min(a, b), hi = std::max(a, b), e = 2e-7f * std::max(std::fabs(a), std::fabs(b)); return x >= lo - e && x <= hi + e; }
static void lines()
{
	if (!begin("linear")) return; const float V[] = { -100, -3.3f, -1, -1e-3f, 0, 0.1f, 0.5f, 1, 2.75f, 1e4f }; const int K = 10;
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { next(); states(); trace(); float prev = V[i]; static const std::vector<double> P = params(32); for (double pt : P) { float t = (float)pt; int k = t == 0 ? 0 : t == 1 ? 32 : 1; auto chk = [&](const char* nm, float a, float b, float r) { trans(); out(fbits(r)); double w = a + (double)t * ((double)b - a); if (!inside(a, b, r)) fail(nm, "lerp(%g, %g, %g) = %.9g leaves the segment", a, b, t, r); if (!(std::fabs(r - w) <= 3e-7 * (std::fabs(a) + std::fabs(b)))) fail(nm, "lerp(%g, %g, %g) = %.9g want %.9g", a, b, t, r, w); if ((k == 0 && r != a) || (k == 32 && !(std::fabs(r - b) <= 1.2e-7 * (std::fabs(a) + std::fabs(b))))) fail(nm, "end point: lerp(%g, %g, %g) = %.9g", a, b, t, r); };
		float r = lerp(V[i], V[j], t); chk("float", V[i], V[j], r); float e = 3e-7f * std::max(std::fabs(V[i]), std::fabs(V[j])); if (V[j] > V[i] ? r < prev - e : r > prev + e) fail("monotone", "lerp(%g, %g, %g)", V[i], V[j], t); prev = r;
		f32x4 a(V[i], V[j], V[(i + j) % K], V[(i + 3) % K]), b(V[j], V[i], V[(i * 3 + j) % K], V[(j + 7) % K]), x = lerp(a, b, t); for (int q = 0; q < 4; q++) chk("f32x4", a[q], b[q], x[q]); float4 y = lerp((float4)a, (float4)b, t); for (int q = 0; q < 4; q++) chk("float4", a[q], b[q], y[q]); float3 z = lerp((float3)a, (float3)b, t); for (int q = 0; q < 3; q++) chk("float3", a[q], b[q], z[q]); float2 u = lerp((float2)a, (float2)b, t); for (int q = 0; q < 2; q++) chk("float2", a[q], b[q], u[q]); } }
	// frame-rate independence: one lerpDelta over dt1+dt2 equals two of them in sequence, and never leaves the segment
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (float f : { 0.f, 0.1f, 0.5f, 0.9f, 1.f }) for (int p = 1; p <= 4; p++) for (int q = 1; q <= 4; q++) { next(); trace(); trans(3); float d1 = p / 8.f, d2 = q / 8.f; auto seq = [&](auto a, auto b) { return std::make_pair(lerpDelta(lerpDelta(a, b, f, d1), b, f, d2), lerpDelta(a, b, f, d1 + d2)); }; auto r = seq(V[i], V[j]); double tol = 1e-6 * (std::fabs(V[i]) + std::fabs(V[j])); if (!(std::fabs(r.first - r.second) <= tol) || !inside(V[i], V[j], r.second)) fail("lerpDelta", "from %g to %g f %g steps %g + %g: %.9g and %.9g", V[i], V[j], f, d1, d2, r.first, r.second); auto s = seq(f32x4(V[i]), f32x4(V[j])); for (int k = 0; k < 4; k++) if (!(std::fabs(s.first[k] - s.second[k]) <= tol) || !(std::fabs(s.second[k] - r.second) <= tol)) fail("lerpDelta f32x4", "from %g to %g f %g", V[i], V[j], f); }
	// after a long time nothing of the start is left (any factor below 1), or nothing has happened (factor 1)
	for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (float dt : { 200.f, 999.5f, 1001.f, 1e5f, 1e9f }) for (float f : { 0.f, 0.25f, 0.5f, 1.f }) { next(); trace(); trans(2); float r = lerpDelta(V[i], V[j], f, dt); f32x4 s = lerpDelta(f32x4(V[i]), f32x4(V[j]), f, dt); double w = f == 1 ? V[i] : V[j], tol = 3e-7 * (std::fabs(V[i]) + std::fabs(V[j])); if (!(std::fabs(r - w) <= tol) || !(std::fabs(s[i % 4] - w) <= tol)) fail("lerpDelta", "from %g to %g f %g after %g: %.9g and %.9g", V[i], V[j], f, dt, r, s[i % 4]); }
	bound("linear: 10^2 end-point pairs x 51 parameters for every vector width; lerpDelta over 5 factors x 16 pairs of time steps");
}
static void body()
{
	auto rots = rotations(thorough() ? 2 : 1), more = rotations(2); int T = thorough() ? 32 : 16;
	if (begin("all pairs", true)) { u64 n = 0; for (auto& a : rots) for (auto& b : more) for (int s = 0; s < 2; s++) { Q4 c = s ? lin(b, -1, b, 0) : b; if (mine(n++)) { pair(a, c, T); pair(c, a, T); } } sample("slerp from %s to %s", str(rots[3]).c_str(), str(more[40]).c_str()); bound("all pairs: %zu x %zu rotations, both signs, both directions, %d parameters", rots.size(), more.size(), T + 19); }
	if (begin("close and far pairs", true)) { u64 n = 0; std::vector<double> ang; for (int e = -10; e <= 0; e++) for (double m : { 1.0, 2.0, 4.9 }) { double x = m * std::pow(10.0, e); if (x < 3.2) { ang.push_back(x); ang.push_back(2 * M_PI - x); } if (e >= -6 && e < 0) { ang.push_back(M_PI + x); ang.push_back(M_PI - x); } } auto ax = directions(2); for (auto& a : rotations(1)) for (auto& d : ax) for (double t : ang) { if (mine(n++)) { pair(a, a * axisAngle(unit(d), t), 8); } } sample("rotations 1e-5 radians apart"); bound("close and far pairs: 40 rotations x %zu axes x %zu separations from 1e-10 to 2 pi", ax.size(), ang.size()); }
	lines();
}
}
VX_MAIN(vx::body)
