// BOUNDS: extrapolation of every sequence of up to 4 values (then NaN); gradients, second and cross derivatives of every polynomial of total degree 2 (and some of degree 3 and 4) at every point of up to 3 dimensions, undefined closer to the point than the 3rd or 4th step so that the table is finite; static, run-time sized, single precision and view arguments
// OPTS: time=60
#include <cmath>
#include "hcommon.h"
#include <TooN/functions/derivatives.h>
static double ab(double x) { return x < 0 ? -x : x; }
static double mx(double a, double b) { return a < b ? b : a; }
// ---- the extrapolation: any values, Neville's table from its definition
static int cnt, lim; static double Y[8], X[8];
struct AnyV { double operator()(double x) { ASSUME(cnt <= lim); int k = cnt++; X[k] = x; if (k == lim) return vs_nan(); Y[k] = vs_real("y"); return Y[k]; } };
#ifndef VS_PLAIN
static void extra(int n)
{
	cnt = 0; lim = n; AnyV f; std::pair<double, double> r = Internal::extrapolate_to_zero<AnyV, double>(f);
	double h = 1; for (int k = 0; k < cnt; k++) { near_(X[k], h, 1e-9, "step sizes"); h /= 1.1; }
	// P[k][m]: through the points k..m, evaluated at zero
	double P[8][8]; for (int m = 0; m < cnt && m < n; m++) { P[m][m] = Y[m]; for (int k = m - 1; k >= 0; k--) P[k][m] = (X[k] * P[k + 1][m] - X[m] * P[k][m - 1]) / (X[k] - X[m]); }
	double best = 0, val = 0; bool any = false, over = false;
	for (int m = 1; m < cnt && m < n; m++)
	{
		CHECK(!over, "goes on only while there may be something better"); bool better = false;
		for (int k = m - 1; k >= 0; k--) { double e = mx(ab(P[k][m] - P[k + 1][m]), ab(P[k][m] - P[k][m - 1])); if (!any || e < best) { any = true; best = e; val = P[k][m]; better = true; } }
		over = !better && ab(P[0][m] - P[0][m - 1]) > 2 * best;
	}
	CHECK(over || cnt == n + 1, "stops only when worse");
	vs_eq(r.second, best, "smallest difference"); vs_eq(r.first, val, "the point with the smallest difference");
}
H(h_extra2) { extra(2); }
H(h_extra3) { extra(3); }
extern "C" void ht_extra4() { extra(4); }
#endif
// ---- derivatives at V of a polynomial that is undefined close to V
static bool near1 = true; static int N; static double V[3], C0, Lc[3], Q[3][3], T, thr; static int maxdiff; static double lastx[3];
template<class P> struct Poly
{
	template<class A> P operator()(const A& x) const
	{
		bool near0 = true; int diff = 0; vs_eqi(x.size(), N, "size");
		for (int i = 0; i < N; i++) { P d = ab(x[i] - V[i]); if (d != 0) { diff++; if (near1) CHECK(d <= 0.0010001, "stays near the point"); } if (d >= thr) near0 = false; }
		CHECK(diff <= maxdiff, "moves along the axes of the derivative only");
		if (near0 && diff) return vs_nan();
		P r = C0; for (int i = 0; i < N; i++) { r += Lc[i] * x[i]; for (int j = i; j < N; j++) r += Q[i][j] * x[i] * x[j]; } if (N == 3) r += T * x[0] * x[1] * x[2]; else if (N == 1) r += T * x[0] * x[0] * x[0];
		return r;
	}
};
static void poly(int n, int k, bool cubic)
{
	N = n; C0 = vs_real("c"); for (int i = 0; i < n; i++) { V[i] = vs_real("x"); ASSUME(V[i] > -1 && V[i] < 1); Lc[i] = vs_real("l"); for (int j = i; j < n; j++) Q[i][j] = vs_real("q"); } T = 0; if (cubic) { T = vs_real("t"); ASSUME(T != 0); }
	thr = 0.001; for (int i = 0; i < k - 1; i++) thr /= 1.1; thr *= 0.97;
}
static double gr(int i) { double r = Lc[i] + 2 * Q[i][i] * V[i]; for (int j = 0; j < N; j++) if (j != i) r += Q[i < j ? i : j][i < j ? j : i] * V[j]; if (T != 0) r += N == 3 ? T * V[(i + 1) % 3] * V[(i + 2) % 3] : N == 1 ? 3 * T * V[0] * V[0] : 0; return r; }
static double he(int i, int j) { if (i == j) return 2 * Q[i][i] + (N == 1 ? 6 * T * V[0] : 0); return Q[i < j ? i : j][i < j ? j : i] + (N == 3 ? T * V[3 - i - j] : 0); }
template<int S> static Vector<S> at() { Vector<S> x(N); for (int i = 0; i < N; i++) x[i] = V[i]; return x; }
template<int S> static void grad(int n, int k)
{
	poly(n, k, n == 3); maxdiff = 1; Vector<S> x = at<S>(); Vector<S> g = numerical_gradient(Poly<double>(), x); vs_eqi(g.size(), n, "size"); for (int i = 0; i < n; i++) vs_eq(g[i], gr(i), "gradient", 1e-6);
	Matrix<S, 2> e = numerical_gradient_with_errors(Poly<double>(), x); vs_eqi(e.num_rows(), n, "size"); for (int i = 0; i < n; i++) { vs_eq(e(i, 0), gr(i), "gradient", 1e-6); if (T == 0) near_(e(i, 1), 0, 1e-5, "error of the gradient of a parabola"); }
}
H(h_grad) { grad<Dynamic>(vs_choose("n", 1, 3), 3); }
H(h_grad1) { grad<1>(1, 3); }
H(h_grad2) { grad<2>(2, 4); }
H(h_grad3) { grad<3>(3, 3); }
extern "C" void ht_grad3() { grad<3>(3, 6); }
template<int S> static void hess(int n, int k)
{
	poly(n, k, true); maxdiff = 2; Vector<S> x = at<S>(); Matrix<S> h = numerical_hessian(Poly<double>(), x); vs_eqi(h.num_rows(), n, "size"); vs_eqi(h.num_cols(), n, "size"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(h(i, j), he(i, j), "second derivatives", 1e-4);
	std::pair<Matrix<S>, Matrix<S> > p = numerical_hessian_with_errors(Poly<double>(), x); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { vs_eq(p.first(i, j), he(i, j), "second derivatives", 1e-4); near_(p.second(i, j), 0, 1e-3, "error of the curvature of a parabola"); }
}
H(h_hess1) { hess<1>(1, 3); }
H(h_hess2) { hess<2>(2, 4); }
H(h_hess3) { hess<3>(3, 3); }
H(h_hess_d) { hess<Dynamic>(vs_choose("n", 1, 3), 2); }
extern "C" void ht_hess3() { hess<3>(3, 5); }
// a cubic along a line: the fourth point shows the third is exact
H(h_cubic) { poly(1, 4, true); maxdiff = 1; Vector<1> g = numerical_gradient(Poly<double>(), at<1>()); vs_eq(g[0], gr(0), "derivative of a cubic", 1e-4); }
// steps on the scale of the values
H(h_scale)
{
	near1 = false; N = 2; maxdiff = 1; C0 = 0; for (int i = 0; i < 2; i++) { V[i] = vs_real("x"); Lc[i] = vs_real("l"); for (int j = i; j < 2; j++) Q[i][j] = vs_real("q"); } ASSUME(V[0] > 1 && V[0] < 100); ASSUME(V[1] < -1 && V[1] > -100); T = 0; bool s = vs_choose("i", 0, 1); thr = 0.0;
	// which axis is being stepped, and by how much, is read off the argument: the order of the evaluations is not fixed
	static double big[2]; big[0] = big[1] = 0; struct F { double operator()(const Vector<2>& x) const { int i = x[0] == V[0] ? 1 : 0; double d = ab(x[i] - V[i]); near_(x[1 - i], V[1 - i], 1e-12, "one axis at a time"); vs_le(d, 0.00100001 * ab(V[i]), "steps on the scale of the value", 1e-9); if (d > big[i]) big[i] = d; if (d < 0.00087 * ab(V[i]) && d != 0) return vs_nan(); return Poly<double>()(x); } };
	Vector<2> g = numerical_gradient(F(), at<2>()); for (int i = 0; i < 2; i++) vs_eq(g[i], gr(i), "gradient", 1e-5);
	for (int i = 0; i < 2; i++) vs_le(0.00099999 * ab(V[i]), big[i], "first step on the scale of the value", 1e-9);
}
// arguments that are views, single precision
H(h_view) { poly(2, 2, false); maxdiff = 2; Matrix<2> m; m[0] = Zeros; m[0][1] = V[0]; m[1][1] = V[1]; Vector<2> g = numerical_gradient(Poly<double>(), m.T()[1]); for (int i = 0; i < 2; i++) vs_eq(g[i], gr(i), "gradient at a view", 1e-5); Matrix<2> h = numerical_hessian(Poly<double>(), m.T()[1]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(h(i, j), he(i, j), "second derivatives at a view", 1e-4); }
struct Sum { float operator()(const Vector<2, float>& x) const { return x[0] * 3 + x[1]; } };
