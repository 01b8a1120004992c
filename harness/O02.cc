// BOUNDS: every function (each evaluation returns an arbitrary value), arbitrary start, spread and coefficients; 1 to 3 dimensions static and run-time sized for one step, 1 and 2 dimensions for two steps
// OPTS: time=60
#include "hcommon.h"
#include <TooN/optimization/downhill_simplex.h>
static int cnt; static double P[24][3], F[24];
struct Any { template<class V> double operator()(const V& v) const { double f = vs_real("f"); CHECK(cnt < 23, "evaluations end"); for (int i = 0; i < v.size(); i++) P[cnt][i] = v[i]; F[cnt] = f; cnt++; return f; } };
static double X[5][4], Y[5]; static int N;
template<class D> static void save(const D& d) { for (int i = 0; i <= N; i++) { Y[i] = d.get_values()[i]; for (int j = 0; j < N; j++) X[i][j] = d.get_simplex()(i, j); } }
template<class D> static void start(const D& d, const double* c, double s, const char* l)
{
	vs_eqi(cnt, N + 1, l); vs_eqi(d.get_simplex().num_rows(), N + 1, l); vs_eqi(d.get_simplex().num_cols(), N, l); vs_eqi(d.get_values().size(), N + 1, l);
	for (int i = 0; i <= N; i++) { vs_eq(d.get_values()[i], F[i], l); for (int j = 0; j < N; j++) { vs_eq(d.get_simplex()(i, j), c[j] + (i == j ? s : 0), l); vs_eq(P[i][j], d.get_simplex()(i, j), l); } }
}
template<class D> static void extremes(const D& d) { int b = d.get_best(), w = d.get_worst(); for (int i = 0; i <= N; i++) { CHECK(d.get_values()[b] <= d.get_values()[i], "get_best is the smallest"); CHECK(d.get_values()[w] >= d.get_values()[i], "get_worst is the largest"); } }
// the documented step from the saved simplex: w worst, b best
template<class D> static void step(const D& d)
{
	int w = 0, b = 0; for (int i = 1; i <= N; i++) { if (Y[i] > Y[w]) w = i; if (Y[i] < Y[b]) b = i; }
	double second = 0; bool any = false; for (int i = 0; i <= N; i++) if (i != w) { if (!any || Y[i] > second) second = Y[i]; any = true; }
	double x0[3], v[3]; for (int j = 0; j < N; j++) { x0[j] = 0; for (int i = 0; i <= N; i++) if (i != w) x0[j] += X[i][j] / N; v[j] = x0[j] - X[w][j]; }
	CHECK(cnt >= 1, "evaluates a reflected point"); for (int j = 0; j < N; j++) vs_eq(P[0][j], x0[j] + d.alpha * v[j], "reflected point");
	double fr = F[0]; int keep = -1, used = 1; bool tie = false;
	if (fr < Y[b]) { CHECK(cnt == 2, "expansion evaluated"); for (int j = 0; j < N; j++) vs_eq(P[1][j], x0[j] + d.rho * d.alpha * v[j], "expanded point"); used = 2; keep = F[1] < fr ? 1 : 0; }
	else if (fr < second) keep = 0;
	else if (fr < Y[w]) { CHECK(cnt >= 2, "contraction evaluated"); for (int j = 0; j < N; j++) vs_eq(P[1][j], x0[j] + d.gamma * v[j], "contracted point"); used = 2; if (F[1] < fr) keep = 1; ASSUME(F[1] != fr); }
	if (keep >= 0) { vs_eqi(cnt, used, "number of evaluations"); for (int i = 0; i <= N; i++) { vs_eq(d.get_values()[i], i == w ? F[keep] : Y[i], "values after the step"); for (int j = 0; j < N; j++) vs_eq(d.get_simplex()(i, j), i == w ? P[keep][j] : X[i][j], "simplex after the step"); } }
	else { vs_eqi(cnt, used + N, "number of evaluations"); int k = used; for (int i = 0; i <= N; i++) { vs_eq(d.get_values()[i], i == b ? Y[b] : F[k], "values after shrinking"); for (int j = 0; j < N; j++) { vs_eq(d.get_simplex()(i, j), X[b][j] + d.sigma * (X[i][j] - X[b][j]), "shrunk around the best"); if (i != b) vs_eq(P[k][j], d.get_simplex()(i, j), "evaluated at the vertex"); } if (i != b) k++; } }
	CHECK(d.get_values()[d.get_best()] <= Y[b], "never worse");
}
template<int S> static void run(int n, int its, bool coef, bool all = true)
{
	N = n; Vector<S> c(n); fill(c, "c"); double s = vs_real("s"); double c0[3]; for (int j = 0; j < n; j++) c0[j] = c[j]; cnt = 0; DownhillSimplex<S> d(Any(), c, s); if (!all) { int r = vs_choose("order", 0, n); for (int i = 0; i < n; i++) ASSUME(F[(r + i) % (n + 1)] < F[(r + i + 1) % (n + 1)]); } start(d, c0, s, "initial simplex"); extremes(d);
	vs_eq(d.alpha, 1, "defaults"); vs_eq(d.rho, 2, "defaults"); vs_eq(d.gamma, 0.5, "defaults"); vs_eq(d.sigma, 0.5, "defaults");
	if (coef) { d.alpha = vs_real("al"); d.rho = vs_real("rh"); d.gamma = vs_real("ga"); d.sigma = vs_real("si"); }
	for (int i = 0; i < its; i++) { save(d); cnt = 0; d.find_next_point(Any()); step(d); }
	extremes(d);
}
H(h_one) { run<1>(1, 1, false); }
H(h_two) { run<2>(2, 1, false); }
H(h_two_c) { run<2>(2, 1, true); }
H(h_three_d) { run<Dynamic>(3, 1, false, false); }
H(h_one_d) { run<Dynamic>(vs_choose("n", 1, 2), 1, true); }
H(h_three) { run<3>(3, 1, true, false); }
extern "C" void ht_three() { run<3>(3, 1, true); }
H(h_again) { run<1>(1, 2, false); }
extern "C" void ht_again2() { run<2>(2, 2, false); }
template<int S> static void restart(int n)
{
	N = n; Vector<S> c(n), e(n); fill(c, "c"); fill(e, "e"); double s = vs_real("s"), t = vs_real("t"), c0[3]; cnt = 0; DownhillSimplex<S> d(Any(), c); for (int j = 0; j < n; j++) c0[j] = c[j]; start(d, c0, 1, "spread of one by default"); int b = d.get_best(); for (int j = 0; j < n; j++) c0[j] = d.get_simplex()(b, j); cnt = 0; d.restart(Any(), s); start(d, c0, s, "restart at the best point"); for (int j = 0; j < n; j++) c0[j] = e[j]; cnt = 0; d.restart(Any(), e, t); start(d, c0, t, "restart elsewhere"); eqv(e, Vector<S>(e), "argument unchanged");
}
H(h_restart) { restart<2>(2); }
H(h_restart_d) { restart<Dynamic>(vs_choose("n", 1, 3)); }
// iterate: one step, then the convergence test
struct Sq { double operator()(const Vector<1>& v) const { return (v[0] - 1) * (v[0] - 1); } };
H(h_finished)
{
	N = 2; Vector<2> c; fill(c, "c"); double s = vs_real("s"); ASSUME(s > 0.001 && s < 1000); cnt = 0; DownhillSimplex<2> d(Any(), c, s); d.epsilon = vs_real("eps"); ASSUME(d.epsilon > 0.001 && d.epsilon < 100); d.zero_epsilon = vs_real("zero"); ASSUME(d.zero_epsilon > 0.001 && d.zero_epsilon < 1000); int b = d.get_best(), w = d.get_worst(); double span = 0, scale = 0; for (int j = 0; j < 2; j++) { double u = d.get_simplex()(b, j), v = u - d.get_simplex()(w, j); span += v * v; scale += u * u; } ASSUME(scale > 0.001); bool fin = span < d.epsilon * d.epsilon * scale || span < d.zero_epsilon * d.zero_epsilon; CHECK(d.finished() == fin, "finished when the simplex is small");
}
H(h_iterate) { N = 1; Vector<1> c; c[0] = vs_real("c"); ASSUME(c[0] > 2 && c[0] < 10); cnt = 0; DownhillSimplex<1> d(Any(), c, 1); d.epsilon = 1e-6; d.zero_epsilon = vs_choose("big", 0, 1) ? 1000 : 1e-6; save(d); cnt = 0; bool more = d.iterate(Any()); step(d); CHECK(more == !d.finished(), "iterate tells whether to go on"); }
// a quadratic is minimised
H(h_quad) { N = 1; Vector<1> c; c[0] = vs_choose("c", -2, 4) * 0.5; DownhillSimplex<1> d(Sq(), c, 1); int i = 0; while (i < 40 && d.iterate(Sq())) i++; near_(d.get_simplex()(d.get_best(), 0), 1, 0.01, "finds the minimum"); }
struct SqF { float operator()(const Vector<1>& v) const { return (v[0] - 1) * (v[0] - 1); } };
H(h_float) { Vector<1> c; c[0] = 3; DownhillSimplex<1, float> d(SqF(), c, 1); int i = 0; while (i < 12 && d.iterate(SqF())) i++; near_(d.get_simplex()(d.get_best(), 0), 1, 0.1, "single precision"); }
