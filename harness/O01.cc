// BOUNDS: every function (each evaluation returns an arbitrary value) for up to 5 evaluations (golden section) or 4 (Brent), arbitrary brackets; every quadratic with its minimum in the bracket for convergence; float once
// OPTS: time=60
#include "hcommon.h"
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/brent.h>
static int cnt; static double P[16], F[16];
// any function: a new value at every call
struct Any { double operator()(double u) const { double f = vs_real("f"); CHECK(cnt < 15, "evaluations end"); P[cnt] = u; F[cnt] = f; cnt++; return f; } };
struct Quad { double t, k, c; double operator()(double u) const { P[cnt] = u; cnt++; return k * (u - t) * (u - t) + c; } };
static void best(const Vector<2>& r, double a, double c, double x0, double f0)
{
	bool hit = r[0] == x0 && r[1] == f0; CHECK(r[1] <= f0, "not worse than the start"); for (int i = 0; i < cnt; i++) { CHECK(P[i] >= a && P[i] <= c, "evaluated inside the bracket"); CHECK(r[1] <= F[i], "best of all evaluations"); if (r[0] == P[i] && r[1] == F[i]) hit = true; } CHECK(hit, "the value belongs to the position");
}
static void bracket(double& a, double& b, double& c) { a = vs_real("a"); double l = vs_real("l"), r = vs_real("r"); ASSUME(l > 0.0625 && l < 100); ASSUME(r > 0.0625 && r < 100); b = a + l; c = b + r; }
static void gold(int n, bool given) { double a, b, c; bracket(a, b, c); double fb = vs_real("fb"); cnt = 0; if (!given) { Vector<2> r = golden_section_search(a, b, c, Any(), n, 1e-3); CHECK(cnt <= n + 1 && cnt >= 2, "number of iterations"); CHECK(P[0] == b, "starts at the centre"); best(r, a, c, P[0], F[0]); } else { Vector<2> r = golden_section_search(a, b, c, fb, Any(), n, 1e-3); CHECK(cnt <= n && cnt >= 1, "number of iterations"); best(r, a, c, b, fb); } }
H(h_gold) { gold(vs_choose("n", 1, 4), true); }
H(h_gold_f) { gold(vs_choose("n", 1, 3), false); }
// brackets in descending order
H(h_gold_desc) { double a, b, c; bracket(a, b, c); double fb = vs_real("fb"); int n = vs_choose("n", 1, 4); cnt = 0; Vector<2> r = golden_section_search(c, b, a, fb, Any(), n, 1e-3); CHECK(cnt <= n && cnt >= 1, "number of iterations"); best(r, a, c, b, fb); }
// with a golden bracket every iteration leaves 0.618 of it
static const double G = 0.3819660112501051;
static void quad(Quad& q, double a, double c) { q.t = vs_real("t"); q.k = 1; q.c = vs_real("c"); ASSUME(q.t >= a && q.t <= c); }
H(h_gold_q)
{
	int n = vs_choose("n", 1, 7); double a = 1, c = 2, b = vs_choose("side", 0, 1) ? a + G : c - G; Quad q; quad(q, a, c); cnt = 0; Vector<2> r = golden_section_search(a, b, c, q(b), q, n, 1e-9); double w = 1; for (int i = 1; i < n; i++) w *= 1 - G; CHECK(r[0] - q.t <= w * 1.000001 && q.t - r[0] <= w * 1.000001, "the bracket shrinks by the golden ratio"); vs_eq(r[1], (r[0] - q.t) * (r[0] - q.t) + q.c, "value");
}
H(h_gold_any) { double a = 0, b = vs_real("b"), c = 1; ASSUME(b > 0.125 && b < 0.875); Quad q; quad(q, a, c); cnt = 0; Vector<2> r = golden_section_search(a, b, c, q, 6, 1e-9); double d = r[0] - q.t; CHECK(d < 0.45 && d > -0.45, "closes in from any centre"); }
// stopped by the tolerance
H(h_gold_tol) { double tol = vs_choose("k", 0, 1) ? 0.25 : 0.125; double a = 1, c = 2, b = a + G; Quad q; quad(q, a, c); cnt = 0; Vector<2> r = golden_section_search(a, b, c, q(b), q, 12, tol); CHECK(cnt < 10, "stops at the tolerance"); double d = r[0] - q.t; CHECK(d * (1 - tol) <= 2 * tol * r[0] && -d * (1 - tol) <= 2 * tol * r[0], "as accurate as the tolerance"); }
H(h_gold_dflt) { Quad q; q.t = 0.75; q.k = 1; q.c = 0.5; cnt = 0; Vector<2> r = golden_section_search(0., 0.5, 2., q(0.5), q, 10); near_(r[0], 0.75, 0.1, "default tolerance"); cnt = 0; r = golden_section_search(0., 0.5, 2., q, 10); near_(r[0], 0.75, 0.1, "default tolerance"); }
struct QuadF { float operator()(float u) const { return (u - 0.75f) * (u - 0.75f); } };
H(h_float) { Vector<2, float> r = golden_section_search(0.f, 0.5f, 2.f, QuadF(), 8); near_(r[0], 0.75, 0.1, "single precision"); r = brent_line_search(0.f, 0.5f, 2.f, 0.0625f, QuadF(), 4); near_(r[0], 0.75, 0.1, "single precision"); }
static void brent(int n) { double a, b, c; bracket(a, b, c); double fb = vs_real("fb"); cnt = 0; Vector<2> r = brent_line_search(a, b, c, fb, Any(), n, 1e-3, 1e-6); CHECK(cnt <= n, "number of iterations"); best(r, a, c, b, fb); }
H(h_brent) { brent(vs_choose("n", 0, 2)); }
// fixed brackets, any function
static void brentf(int n, double b) { double fb = vs_real("fb"); cnt = 0; Vector<2> r = brent_line_search(0., b, 1., fb, Any(), n, 1e-3, 1e-6); CHECK(cnt <= n, "number of iterations"); best(r, 0, 1, b, fb); }
H(h_brent3) { brentf(3, vs_choose("b", 1, 3) * 0.25); }
// starts close to an end: parabolic steps can leave the bracket there
H(h_brent3e) { brentf(3, vs_choose("b", 0, 1) ? 0.0625 : 0.9375); }
extern "C" void ht_brent3() { brent(3); }
extern "C" void ht_brent4f() { brentf(4, vs_choose("b", 1, 3) * 0.25); }
extern "C" void ht_brent4e() { brentf(4, vs_choose("b", 0, 1) ? 0.0625 : 0.9375); }
extern "C" void ht_brent4() { brent(4); }
static void brentq(int b, int t, int n, double tol) { double a = 0, c = 1; Quad q; q.t = t * 0.0625; q.k = 1; q.c = 0.5; cnt = 0; Vector<2> r = brent_line_search(a, b * 0.25, c, q(b * 0.25), q, n, 1e-6, 1e-9); near_(r[0], q.t, tol, "finds the minimum of a parabola"); vs_eq(r[1], q.k * (r[0] - q.t) * (r[0] - q.t) + q.c, "value"); }
H(h_brent_q) { int b = vs_choose("b", 1, 3), t = vs_choose("t", 1, 15); brentq(b, t, 7, 0.0002); }
// convex functions which are not parabolas, closing in at the usual speed
struct Quart { double t, k; double operator()(double u) const { cnt++; double e = u - t; return e * e + k * e * e * e; } };
H(h_brent_cubic) { int t = vs_choose("t", 2, 4) * 3 - 1; Quart q; q.t = t * 0.0625; q.k = 0.25; cnt = 0; double b = vs_choose("b", 1, 3) * 0.25; Vector<2> r = brent_line_search(0., b, 1., q(b), q, 7, 1e-6, 1e-9); near_(r[0], q.t, 1e-5, "parabolic steps converge"); }
H(h_brent_stop) { Quad q; q.t = 0.5625; q.k = 1; q.c = 0; cnt = 0; Vector<2> r = brent_line_search(0., 0.5, 1., q(0.5), q, 100, 0.1, 1e-6); CHECK(cnt < 14, "stops at the tolerance"); near_(r[0], 0.5625, 0.05, "as accurate as the tolerance"); }
