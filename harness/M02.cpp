// @configs sse2 avx2 dbg port neon
// @thorough_configs sse2 sse41 avx2 dbg port neon
// @shards 8
// @technique exhaustive enumeration of position x rotation x scale, and BFS over all sequences of transform operations to a depth, on the real code against a double-precision shadow matrix
// @note Scales are positive (a mirrored matrix has no unique decomposition); the W lane of extracted positions and scales is not judged.
// M02: transforms built from position, rotation and scale decompose back to them.
#include <cassert>
#include "math/simd/vector/float.hpp"
#include "math/matrix/transform.hpp"
#include "lin.hpp"
using namespace math;
namespace vx
{
LIN_GLUE LIN_GLUE_M
static const double SC[] = { 0.25, 0.5, 1, 2, 3, 10 };
static const double TR[] = { -7.5, 0, 0.25, 100.5 };

static void trs(V3 p, Q4 q, V3 s)
{
	next(); states(); trace(); std::string in = "position " + str(p) + " rotation " + str(q) + " scale " + str(s); snprintf(what, sizeof what, "%s", in.c_str());
	M4 want = translation(p) * rotation(q) * scaling(s); double ms = std::max(s.x, std::max(s.y, s.z)), tol = 2e-6 * ms;
	f32x4x4 m = calcModel(f4(p), fq(q), f4(s)); if (!near4("calcModel", dm(m), want, tol, in)) return;
	{ f32x4x4 m2 = calcModel(f4(p, 1), fq(q), f4(s, 1)); near4("calcModel w", dm(m2), want, tol, in); Q4 big{ q.x * 3, q.y * 3, q.z * 3, q.w * 3 }; near4("calcModel scaled quaternion", dm(calcModel(f4(p), fq(big), f4(s))), want, tol, in); near4("calcModel scaled quaternion w", dm(calcModel(f4(p, 1), fq(big), f4(s, 1))), want, tol, in); }
	near3("getTranslation", d3(getTranslation(m)), p, 0, in); near3("extractScale", d3(extractScale(m)), s, 3e-6 * ms, in); for (int i = 0; i < 3; i++) { double g = extractScale(m)[i]; if (!(std::fabs(g - s[i]) <= 4e-6 * s[i])) fail("extractScale relative", "axis %d is %.9g want %.9g; %s", i, g, s[i], in.c_str()); }
	{ float2 g = extractScale2(m); near1("extractScale2 x", g.x, s.x, 4e-6 * s.x, in); near1("extractScale2 y", g.y, s.y, 4e-6 * s.y, in); }
	near4("extractRotation", dm(extractRotation(m)), rotation(q), 4e-6, in);
	f32x4 ep, es; quat eq; extractTransform(m, ep, eq, es); near3("extractTransform position", d3(ep), p, 0, in); nearq("extractTransform rotation", dq(eq), q, 4e-6, in); near3("extractTransform scale", d3(es), s, 3e-6 * ms, in);
	near4("rebuild", dm(calcModel(ep, eq, es)), want, 2e-5 * ms, in);
}
static void rigid(V3 p, Q4 q)
{
	next(); states(); trace(); std::string in = "position " + str(p) + " rotation " + str(q); snprintf(what, sizeof what, "%s", in.c_str()); M4 R = rotation(q), want = translation(p) * R;
	near4("rotate(quat)", dm(rotate(fq(q))), R, 1e-6, in); f32x4x4 m = translate(f4(p), rotate(fq(q))); near4("translate*rotate", dm(m), want, 1e-6, in); near4("extractRotationOnly", dm(extractRotationOnly(m)), R, 1e-6, in);
	nearq("extractQuat", dq(extractQuat(rotate(fq(q)))), q, 2e-6, in); nearq("extractQuat of a transform", dq(extractQuat(m)), q, 2e-6, in); f32x4 ep; quat eq; extractTransform(m, ep, eq); near3("extractTransform position", d3(ep), p, 0, in); nearq("extractTransform rotation", dq(eq), q, 2e-6, in);
	M4 inv = transp(R) * translation(p * -1); f32x4x4 i = inverseTransRot(m); double tol = 2e-6 * (1 + maxabs(p)); near4("inverseTransRot", dm(i), inv, tol, in); near4("inverseTransRot*m", dm(i * m), ident(), 2 * tol, in); near4("inverseTransRot = inverse4x4", dm(i), dm(inverse4x4(m)), 4 * tol, in);
	quat q2 = extractQuat(rotate(fq(q))); near1("extractQuat length", std::sqrt(dot(dq(q2), dq(q2))), 1, 2e-6, in);
}
// All sequences of operations up to a depth. Quarter turns and power-of-two scales: every product is exact in floats, so the comparison is exact too.
struct Node { M4 m; int depth; std::string path; };
static void machine()
{
	if (!begin("operation sequences", true)) return; int depth = thorough() ? 6 : 4; std::vector<V3> ts = { { 1, 0, 0 }, { 0, -2, 4 }, { 3, 5, -1 } }, ss = { { 2, 1, 1 }, { 1, 0.5, 4 }, { 0.5, 2, 0.25 } };
	auto quarter = [](int a) { M4 m = ident(); int b = (a + 1) % 3, c = (a + 2) % 3; m[b][b] = 0; m[b][c] = -1; m[c][b] = 1; m[c][c] = 0; return m; };
	std::vector<Node> front = { { ident(), 0, "" } }; std::set<std::vector<double>> seen; u64 no = 0;
	const int OPS = 3 + 3 + 3 + 3 + 3 + 3 + 3 + 1;
	auto step = [&](const Node& n, int op, bool check) -> Node
	{
		f32x4x4 g = fm(n.m); M4 w; const char* name; f32x4x4 r; int k = op % 3, kind = op / 3;
		switch (kind)
		{
		case 0: name = "translate(m,t)"; w = n.m * translation(ts[k]); break; case 1: name = "translate(t,m)"; w = translation(ts[k]) * n.m; break;
		case 2: name = "scale(m,s)"; w = n.m * scaling(ss[k]); break; case 3: name = "scale(s,m)"; w = scaling(ss[k]) * n.m; break;
		case 4: name = "m*R"; w = n.m * quarter(k); break; case 5: name = "R*m"; w = quarter(k) * n.m; break;
		case 6: name = "setTranslation"; w = n.m; for (int i = 0; i < 3; i++) w[i][3] = ts[k][i]; break; default: name = "m*translate(t)*scale(s)"; w = n.m * translation(ts[2]) * scaling(ss[2]);
		}
		if (check)
		{
			next(); trace(); snprintf(what, sizeof what, "%s after%s", name, n.path.c_str());
			for (int pad = 0; pad < 2; pad++) // the W lane of a 3D argument is irrelevant
			{
				float p = pad ? 5.0f : 0.0f;
				switch (kind) { case 0: r = translate(g, f4(ts[k], p)); break; case 1: r = translate(f4(ts[k], p), g); break; case 2: r = scale(g, f4(ss[k], p)); break; case 3: r = scale(f4(ss[k], p), g); break; case 4: r = g * fm(quarter(k)); break; case 5: r = fm(quarter(k)) * g; break; case 6: r = g; setTranslation(r, f4(ts[k], p)); break; default: r = g * translate(f4(ts[2], p)) * scale(f4(ss[2], p)); }
				near4(name, dm(r), w, 0, "after" + n.path);
			}
			near3("getTranslation", d3(getTranslation(r)), { w[0][3], w[1][3], w[2][3] }, 0, "after" + n.path);
			V3 s = { len(upper(w, 0)), len(upper(w, 1)), len(upper(w, 2)) }, e = d3(extractScale(r)); trans(); for (int i = 0; i < 3; i++) if (!(std::fabs(e[i] - s[i]) <= 1e-6 * s[i])) fail("extractScale", "axis %d is %.9g want %.9g after%s %s", i, e[i], s[i], n.path.c_str(), name);
		}
		return { w, n.depth + 1, n.path + " " + name + std::to_string(k) };
	};
	size_t cap = thorough() ? 400000 : 25000; { M4 I = ident(); seen.insert(std::vector<double>(&I.e[0][0], &I.e[0][0] + 16)); } size_t level = 0, done = 0; int full = 0;
	std::vector<Node> cur = front; 
	for (int d = 0; d < depth && !cur.empty(); d++)
	{
		std::vector<Node> nx; bool cut = false;
		for (auto& n : cur) { done++; bool m = mine(no++); if (m) states(); for (int op = 0; op < OPS; op++) { if (n.depth + 1 > depth) continue; Node r = step(n, op, m); std::vector<double> key(&r.m.e[0][0], &r.m.e[0][0] + 16); if (seen.size() < cap) { if (seen.insert(key).second) nx.push_back(r); } else if (!seen.count(key)) cut = true; } }
		if (!cut) full = d + 1; cur.swap(nx); level = cur.size();
	}
	bound("operation sequences: BFS from the identity over %d operations, all distinct matrices complete to depth %d, %zu matrices expanded with every operation", OPS, full, done);
}
static void constants()
{
	if (!begin("single operations")) return;
	for (double x : TR) for (double y : TR) for (double z : TR) { next(); states(); trace(); V3 t = { x, y, z }; near4("translate", dm(translate(f4(t, 9))), translation(t), 0, str(t)); near4("scale", dm(scale(f4(t, 9))), scaling(t), 0, str(t)); f32x4x4 m = translate(f4(t)); m.c3 = f32x4(m.c3, 3); setTranslation(m, f4(t * 2, 9)); M4 w = translation(t * 2); w[3][3] = 3; near4("setTranslation", dm(m), w, 0, str(t)); }
	next(); near4("calcModel()", dm(calcModel()), ident(), 0, "defaults"); near4("calcModel(p)", dm(calcModel(f32x4(1, 2, 3, 0))), translation({ 1, 2, 3 }), 0, "defaults"); near4("rotate(identity)", dm(rotate(quat::identity)), ident(), 0, "identity");
}
// The shortcuts an implementation may take (unit, uniform or almost unit scale, no rotation, no translation) must not show.
static void special()
{
	if (!begin("almost special", true)) return; u64 n = 0; const double S[] = { 1, 1 + 1e-3, 1 - 1e-3, 1.01, 0.99, 1.00001, 0.9995, 0.9, 1.2, 2, 1e-3, 500 };
	std::vector<Q4> q = { { 0, 0, 0, 1 }, { 0, 0, 0, -1 }, { 1, 0, 0, 0 }, { 0, 0, 1, 0 }, unit(Q4{ 1e-3, 0, 0, 1 }), unit(Q4{ 0, -1e-2, 1e-3, 1 }), unit(Q4{ 0, 0, 0.01, -1 }), unit(Q4{ 1, 2, -3, 4 }) };
	V3 p[] = { { 0, 0, 0 }, { 1e-4f, 0, 0 }, { 0, 1000, -3 }, { 0.001f, 0.002f, -0.003f } };
	for (auto& r : q) for (double a : S) for (double b : S) for (double c : S) for (auto& t : p) if (mine(n++)) trs(t, r, { a, b, c });
	for (auto& r : q) for (auto& t : p) if (mine(n++)) rigid(t, r);
	bound("almost special: 12^3 scales around one, equal, tiny and large x %zu rotations around the identity x 4 positions around zero", q.size());
}
// Matrices that are not affine: translate(m, t) = m translate(t) where the bottom row is (0, 0, 0, w); scales hold for every matrix.
static void general()
{
	if (!begin("general matrices", true)) return; const float al[] = { 0, 1, -2, 0.5f, 3 }; u64 n = 0;
	const int size[][2] = { { 0, 0 }, { 20, -20 }, { -20, 10 }, { 30, 30 }, { 0, 24 }, { 0, -24 } }; int no = 0;
	for (auto& z : size) for (int sh = 0; sh < 125; sh++) for (float w : al) for (int bottom = 0; bottom < 2; bottom++) for (int k = 0; k < 125; k++)
	{
		if ((z[0] || z[1]) && (++no & 15)) continue; if (!mine(n++)) continue; next(); states(); trace(); M4 m; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) m[r][c] = al[(sh + r * 3 + c * 7 + (r * c + sh / 5) * (1 + sh % 3)) % 5]; if (!bottom) for (int c = 0; c < 3; c++) m[3][c] = 0; m[3][3] = w; V3 t = { al[k % 5], al[k / 5 % 5], al[k / 25] }; double sm = std::ldexp(1.0, z[0]), stt = std::ldexp(1.0, z[1]); t = t * stt; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) if (r != 3 || c != 3) m[r][c] *= c == 3 ? sm * stt : sm; f32x4x4 g = fm(m); // powers of two: still exact
		snprintf(what, sizeof what, "matrix %d bottom %d w %g vector %s", sh, bottom, w, str(t).c_str()); for (float pad : { 0.f, 5.f }) {
		if (!bottom) near4("translate(m,t)", dm(translate(g, f4(t, pad))), m * translation(t), 0, what); near4("scale(m,s)", dm(scale(g, f4(t, pad))), m * scaling(t), 0, what); near4("scale(s,m)", dm(scale(f4(t, pad), g)), scaling(t) * m, 0, what);
		f32x4x4 s = g; setTranslation(s, f4(t, pad)); M4 ws = m; for (int i = 0; i < 3; i++) ws[i][3] = (&t.x)[i]; near4("setTranslation", dm(s), ws, 0, what); near3("getTranslation", d3(getTranslation(s)), t, 0, what); if (w == 1 && sm == 1) { M4 wt = m; for (int i = 0; i < 3; i++) wt[i][3] += (&t.x)[i]; near4("translate(t,m)", dm(translate(f4(t, pad), g)), wt, 0, what); } }
	}
	const float ne[] = { 0.9995f, 1.0005f, 1, -0.9995f, 0.1f }; for (int sh = 0; sh < 125; sh++) for (int k = 0; k < 125; k++)
	{
		if (!mine(n++)) continue; next(); states(); trace(); M4 m; for (int r = 0; r < 4; r++) for (int c = 0; c < 4; c++) m[r][c] = al[(sh + r * 3 + c * 7 + (r * c + sh / 5) * (1 + sh % 3)) % 5] * (c == 3 ? 71 : 1); V3 t = { ne[k % 5], ne[k / 5 % 5], ne[k / 25] }; f32x4x4 g = fm(m); snprintf(what, sizeof what, "matrix %d vector %s", sh, str(t).c_str());
		near4("scale(m,s)", dm(scale(g, f4(t, 5))), m * scaling(t), 3e-5, what); near4("scale(s,m)", dm(scale(f4(t, 5), g)), scaling(t) * m, 3e-5, what); M4 a = m; for (int c = 0; c < 3; c++) a[3][c] = 0; near4("translate(m,t)", dm(translate(fm(a), f4(t, 5))), a * translation(t), 1e-4, what);
	}
	bound("general matrices: 125 integer matrices x 5 last elements, with and without a zero bottom row x 5^3 vectors; every 16th of them in 5 other sizes (2^-24 .. 2^60)");
}
// Large, tiny and fractional positions, scales from 2^-20 to 2^20.
static void sizes()
{
	if (!begin("other sizes", true)) return; u64 n = 0; const double S[] = { 1.0 / (1 << 20), 1e-5f, 0.01f, 1, 37.25, 1000, 1 << 20 }; V3 p[] = { { 1e6 + 0.5, -3e7, 12345.6787109375 }, { (float)1e-7, -(float)3e-5, (float)1e-30 }, { -(float)1e9, 0, -0.0 }, { -1, -2, -3 }, { 8, 8, 8 } };
	for (auto& q : rotations(1)) for (double a : S) for (double b : S) for (double c : S) { n++; if (!mine(n)) continue; a = (float)a; b = (float)b; c = (float)c; trs(p[n % 5], q, { a, b, c }); }
	auto rots = rotations(1); for (auto& q : nearRotations()) rots.push_back(q); for (auto& q : rots) for (auto& t : p) if (mine(n++)) rigid(t, q);
	for (auto& q : rotations(1)) if (mine(n++)) // sums of other lengths: extraction from a uniformly scaled matrix
		for (int e : { -30, -7, 9, 30 }) { next(); states(); trace(); M4 m = rotation(q); M4 b = m; for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) b[r][c] *= std::ldexp(1.0, e); std::string in = "rotation " + str(q) + " times 2^" + std::to_string(e); snprintf(what, sizeof what, "%s", in.c_str()); near4("extractRotation of any size", dm(extractRotation(fm(b))), m, 2e-6, in); double s = std::ldexp(1.0, e); near3("extractScale of any size", d3(extractScale(fm(b))), { s, s, s }, 2e-6 * s, in); nearq("extractQuat(extractRotation)", dq(extractQuat(extractRotation(fm(b)))), q, 4e-6, in); }
	bound("other sizes: all small rotations x 7^3 scales from 2^-20 to 2^20 at positions up to 1e9, rigid transforms there, uniform scales 2^-30 .. 2^30");
}
static void body()
{
	sizes(); constants(); special(); general();
	if (begin("position x rotation x scale", true)) { u64 n = 0; auto rots = rotations(thorough() ? 3 : 2); for (auto& q : rots) for (double a : SC) for (double b : SC) for (double c : SC) { bool m = mine(n++); if (m) trs({ TR[n % 4], TR[n / 4 % 4], TR[n / 16 % 4] }, q, { a, b, c }); } sample("position (-7.5,0,0.25) rotation %s scale (2,3,10)", str(rots[5]).c_str()); bound("position x rotation x scale: all %zu integer-direction rotations x 6^3 scales", rots.size()); }
	if (begin("position x rotation", true)) { u64 n = 0; auto rots = rotations(thorough() ? 5 : 3); for (auto& q : nearRotations()) rots.push_back(q); for (auto& q : rots) for (double a : TR) for (double b : TR) for (double c : TR) { bool m = mine(n++); if (m) rigid({ a, b, c }, q); } sample("rigid %s", str(rots[7]).c_str()); bound("position x rotation: all %zu integer-direction rotations x 4^3 positions", rots.size()); }
	if (begin("half turns", true)) { u64 n = 0; for (auto& d : directions(thorough() ? 8 : 4)) for (int s = -6; s <= 6; s++) { bool m = mine(n++); if (m) rigid({ 1, 2, 3 }, axisAngle(unit(d), M_PI + (s ? std::copysign(std::pow(10.0, -std::abs(s)), s) : 0))); } bound("half turns: all lattice axes, angles pi and pi +- 10^-1..10^-6"); }
	if (begin("uneven rotations", true)) { u64 n = 0; auto rots = unevenRotations(); for (auto& q : rots) { bool m = mine(n++); if (!m) continue; rigid({ -3, 40, 0.5 }, q); rigid({ 0, 0, 0 }, q); trs({ -3, 40, 0.5 }, q, { 2, 0.5, 3 }); trs({ 1, 0, 0 }, q, { 1, 1, 1 }); trs({ 1, 0, 0 }, q, { 0.1, 0.1, 0.1 }); } bound("uneven rotations: all %zu unit quaternions with components in the ratios 0, 1e-4, 0.003, 0.05, 1 of either sign, with 2 positions and 3 scales", rots.size()); }
	machine();
}
}
VX_MAIN(vx::body)
