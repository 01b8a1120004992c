// BOUNDS: every function (each evaluation returns an arbitrary value, NaN beyond an arbitrary edge), at most 5 evaluations per line search before it must end (longer searches cut), one to three dimensions static and run-time sized
// OPTS: time=60
#include <cmath>
#include "hcommon.h"
#include <TooN/optimization/conjugate_gradient.h>
static int cnt, lim; static double L[16], F[16]; static bool NA[16];
static double edge; static bool edged;
// any function of one variable; beyond the edge it is NaN
struct Any1 { double operator()(double u) const { ASSUME(cnt < lim); int k = cnt++; L[k] = u; NA[k] = edged && u > edge; if (NA[k]) { F[k] = 0; return vs_nan(); } F[k] = vs_real("f"); return F[k]; } };
#ifndef VS_PLAIN
static void bracket(bool e, int n)
{
	double a0 = vs_real("a0"), l0 = vs_real("l0"), z = vs_real("zeps"); ASSUME(l0 > 0.0625 && l0 < 100); ASSUME(z > 0.01 && z < 1); edged = e; if (e) { edge = vs_real("edge"); ASSUME(edge > 0.001 && edge < 200); } cnt = 0; lim = n;
	Matrix<3, 2> m = Internal::bracket_minimum_forward(a0, Any1(), l0, z);
	double a = m(0, 0), b = m(1, 0), c = m(2, 0), fa = m(0, 1), fb = m(1, 1), fc = m(2, 1); vs_eq(L[0], l0, "first step"); for (int i = 0; i < cnt; i++) CHECK(L[i] > 0, "searches forward");
	if (c == 0) { for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) vs_eq(m(i, j), 0, "zeros when nothing is lower"); for (int i = 0; i < cnt; i++) CHECK(NA[i] || F[i] >= a0, "zeros when nothing is lower"); CHECK(L[cnt - 1] <= 2 * z, "gives up below the smallest step"); return; }
	CHECK(a >= 0 && a < b && b < c, "positions increase"); CHECK(fb < fa, "the middle is lower than the left end"); bool nan = false, ha = a == 0 && fa == a0, hb = false, hc = false; for (int i = 0; i < cnt; i++) { if (NA[i]) { nan = true; continue; } if (L[i] == a && F[i] == fa) ha = true; if (L[i] == b && F[i] == fb) hb = true; if (L[i] == c && F[i] == fc) hc = true; } CHECK(ha && hb && hc, "values belong to positions");
	if (!nan) CHECK(fb < fc, "the middle is lower than the right end"); CHECK(fb <= a0, "not worse than the start"); for (int i = 0; i < cnt; i++) CHECK(NA[i] || fb <= F[i] || fc <= F[i], "best of all evaluations");
}
H(h_bracket) { bracket(false, 5); }
H(h_bracket_nan) { bracket(true, 5); }
#endif
// any function of many variables
static double P[16][3]; static int N;
template<int S> struct Any { double operator()(const Vector<S>& v) const { ASSUME(cnt < lim); int k = cnt++; for (int i = 0; i < N; i++) P[k][i] = v[i]; F[k] = vs_real("f"); return F[k]; } };
// drawn beforehand: the order of the first value and gradient is free
template<int S> struct Grad { double* q; Grad(double* q_) : q(q_) { for (int i = 0; i < N; i++) q[i] = vs_real("g"); } Vector<S> operator()(const Vector<S>& v) const { Vector<S> g(v.size()); for (int i = 0; i < N; i++) g[i] = q[i]; return g; } };
template<int S> static void line(ConjugateGradient<S>& c, int evals)
{
	Vector<S> x(N), h(N), g(N), mh(N); x = c.x; h = c.h; g = c.g; mh = c.minus_h; double y = c.y; int it = c.iterations; cnt = 0; lim = evals; c.linesearch_max_iterations = 1; c.bracket_epsilon = 0.1;
	c.find_next_point(Any<S>()); CHECK(c.y <= y, "never uphill"); vs_eqi(c.iterations, it + 1, "counts iterations"); eqv(c.old_x, x, "previous position"); vs_eq(c.old_y, y, "previous value"); eqv(c.h, h, "direction kept"); eqv(c.g, g, "gradient kept"); eqv(c.minus_h, mh, "direction kept");
	for (int k = 0; k < cnt; k++) { for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) vs_eq((P[k][i] - x[i]) * h[j], (P[k][j] - x[j]) * h[i], "stays on the line"); double s = 0; for (int i = 0; i < N; i++) s += (P[k][i] - x[i]) * h[i]; CHECK(s <= 0, "searches against the direction"); }
	bool hit = true; for (int i = 0; i < N; i++) if (c.x[i] != x[i]) hit = false; if (c.y != y) hit = false; for (int k = 0; k < cnt; k++) { bool e = c.y == F[k]; for (int i = 0; i < N; i++) if (c.x[i] != P[k][i]) e = false; if (e) hit = true; CHECK(c.y <= F[k], "best point found"); } CHECK(hit, "value and position belong together");
}
template<int S> static void one(int n, int evals) { N = n; Vector<S> s(n); fill(s, "s"); double q[3]; cnt = 0; lim = 1; Grad<S> gr(q); ConjugateGradient<S> c(s, Any<S>(), gr); eqv(c.x, s, "starts at the start"); vs_eq(c.y, F[0], "value at the start"); for (int i = 0; i < n; i++) { vs_eq(P[0][i], s[i], "value at the start"); vs_eq(c.g[i], q[i], "gradient at the start"); vs_eq(c.h[i], q[i], "first direction"); } ASSUME(c.h * c.h > 0.1); vs_eqi(c.iterations, 0, "no iterations yet"); vs_eqi(c.max_iterations, 100 * n, "iterations allowed"); line<S>(c, evals); }
H(h_line1) { one<1>(1, 4); }
H(h_line2) { one<2>(2, 4); }
H(h_line_d) { one<Dynamic>(vs_choose("n", 1, 2), 4); }
extern "C" void ht_line3() { one<3>(3, 6); }
// first direction given as a vector
H(h_ctor) { N = 2; Vector<2> s, d; fill(s, "s"); fill(d, "d"); cnt = 0; lim = 1; ConjugateGradient<2> c(s, Any<2>(), d); eqv(c.g, d, "gradient given"); eqv(c.h, d, "gradient given"); eqv(c.minus_h, -d, "gradient given"); eqv(c.x, s, "starts at the start"); vs_eq(c.y, F[0], "value at the start"); }
// Polak-Ribiere
template<int S> static void pr(int n)
{
	N = n; Vector<S> s(n), d(n), g1(n), g2(n); fill(s, "s"); fill(d, "d"); fill(g1, "u"); fill(g2, "v"); ASSUME(d * d > 0.1); ASSUME(g1 * g1 > 0.1); cnt = 0; lim = 1; ConjugateGradient<S> c(s, Any<S>(), d); c.update_vectors_PR(g1); double b = (g1 * g1 - g1 * d) / (d * d); Vector<S> h1 = g1 + b * d; eqv(c.g, g1, "new gradient"); eqv(c.old_g, d, "old gradient"); eqv(c.old_h, d, "old direction"); eqv(c.h, h1, "Polak-Ribiere direction"); eqv(c.minus_h, -h1, "Polak-Ribiere direction");
	c.update_vectors_PR(g2); b = (g2 * g2 - g2 * g1) / (g1 * g1); eqv(c.h, g2 + b * h1, "second Polak-Ribiere direction"); eqv(c.minus_h, -c.h, "negative direction"); eqv(c.old_h, h1, "old direction"); eqv(c.old_g, g1, "old gradient"); eqv(c.x, s, "position kept");
}
H(h_pr) { pr<2>(2); }
H(h_pr3) { pr<3>(3); }
H(h_pr_d) { pr<Dynamic>(vs_choose("n", 1, 3)); }
H(h_finished)
{
	N = 1; Vector<1> s, d; s[0] = 0; d[0] = 1; cnt = 0; lim = 1; ConjugateGradient<1> c(s, Any<1>(), d); c.y = vs_real("y"); c.old_y = vs_real("old"); c.tolerance = vs_real("tol"); c.epsilon = vs_real("eps"); c.iterations = vs_choose("it", 99, 102); double df = std::fabs(c.y - c.old_y), sc = std::fabs(c.y) + std::fabs(c.old_y); CHECK(c.finished() == (c.iterations > 100 || 2 * df <= c.tolerance * (sc + c.epsilon)), "finished when the value stops changing or the iterations are used up");
}
H(h_iterate)
{
	N = 1; Vector<1> s; s[0] = vs_real("s"); double q[3]; cnt = 0; lim = 1; Grad<1> gr(q); ConjugateGradient<1> c(s, Any<1>(), gr); ASSUME(q[0] > 0.5 || q[0] < -0.5); double g0 = q[0]; Grad<1> nx(q); cnt = 0; lim = 4; c.linesearch_max_iterations = 1; c.bracket_epsilon = 0.1; c.tolerance = 0.01; bool more = c.iterate(Any<1>(), nx); CHECK(more == !c.finished(), "iterate tells whether to go on"); if (more) { vs_eq(c.g[0], q[0], "gradient of the new position"); vs_eq(c.old_g[0], g0, "old gradient"); vs_eq(c.h[0], q[0] + (q[0] * q[0] - q[0] * g0) / (g0 * g0) * g0, "new direction"); } else { vs_eq(c.g[0], g0, "vectors kept at the end"); vs_eq(c.h[0], g0, "vectors kept at the end"); }
}
// a plateau at the far end, and a function that decreases to the edge of its domain
struct Plateau { double operator()(const Vector<1>& v) const { return (v[0] - 1.5) * (v[0] - 1.5) / 3; } };
struct PlateauD { Vector<1> operator()(const Vector<1>& v) const { Vector<1> r; r[0] = (v[0] - 1.5) / 1.5; return r; } };
H(h_plateau) { Vector<1> s; s[0] = 0; ConjugateGradient<1> c(s, Plateau(), PlateauD()); c.linesearch_max_iterations = 6; c.iterate(Plateau(), PlateauD()); near_(c.x[0], 1.5, 0.01, "minimum of a symmetric bracket"); }
struct Cliff { double operator()(const Vector<1>& v) const { return v[0] <= 10 ? -v[0] : vs_nan(); } };
struct CliffD { Vector<1> operator()(const Vector<1>& v) const { Vector<1> r; r[0] = -1; return r; } };
H(h_cliff) { Vector<1> s; s[0] = 0; ConjugateGradient<1> c(s, Cliff(), CliffD()); c.iterate(Cliff(), CliffD()); vs_eq(c.x[0], 10, "best point before the edge"); vs_eq(c.y, -10, "best point before the edge"); }
// documented defaults of a new object, static and run-time sized
template<int S> static void defaults(int n)
{
	N = n; Vector<S> s(n), d(n); fill(s, "s"); fill(d, "d"); cnt = 0; lim = 1; ConjugateGradient<S> c(s, Any<S>(), d);
	CHECK(c.old_y == c.y, "no progress recorded yet"); vs_eqi(c.iterations, 0, "no iterations yet"); vs_eqi(c.max_iterations, 100 * n, "100 iterations per dimension"); vs_eqi(c.linesearch_max_iterations, 100, "100 line search iterations"); vs_eq(c.bracket_initial_lambda, 1, "unit first step");
	CHECK(c.epsilon > 0.99e-20 && c.epsilon < 1.01e-20, "additive tolerance"); CHECK(c.linesearch_epsilon > 0.99e-20 && c.linesearch_epsilon < 1.01e-20, "additive tolerance of line searches"); CHECK(c.bracket_epsilon > 0.99e-20 && c.bracket_epsilon < 1.01e-20, "smallest bracket");
	CHECK(c.tolerance > 1.49e-8 && c.tolerance < 1.4902e-8, "tolerance"); CHECK(c.linesearch_tolerance > 1.49e-8 && c.linesearch_tolerance < 1.4902e-8, "line search tolerance"); CHECK(c.finished(), "finished while nothing has been gained");
}
H(h_defaults) { defaults<2>(2); }
H(h_defaults_d) { defaults<Dynamic>(vs_choose("n", 1, 3)); }
