// BOUNDS: every residual, scale and Jacobian; 1 to 3 parameters static and run-time sized, up to 3 measurements; solution with up to 2 parameters
#include "hcommon.h"
#include <cmath>
#include <TooN/irls.h>
template<template<class> class R> static void sd_(R<double>& r) { double s = vs_real("sd"); ASSUME(s > 0.125); r.set_sd(s); }
static double ab(double x) { return std::fabs(x); }
// the weight functions, from their definition
static double wI(double s, double x) { return 1 / (s + ab(x)); }
static double wII(double s, double x) { return 1 / (s * s + x * x); }
static double sdv() { double s = vs_real("sd"); ASSUME(s > 0.125); return s; }
H(h_one)
{
	double s = sdv(), x = vs_real("x"); RobustI<double> r; r.set_sd(s); vs_eq(r.reweight(x), wI(s, x), "weight"); vs_eq(r.true_scale(x), s / ((s + ab(x)) * (s + ab(x))), "w + x w'"); vs_eq(std::exp((r.objective(x) - ab(x)) / s), s / (s + ab(x)), "integral of x w(x)"); vs_eq(r.objective(0), 0, "objective of nothing"); vs_eq(r.objective(-x), r.objective(x), "even");
}
H(h_two)
{
	double s = sdv(), x = vs_real("x"), q = s * s + x * x; RobustII<double> r; r.set_sd(s); vs_eq(r.reweight(x), wII(s, x), "weight"); vs_eq(r.true_scale(x), (s * s - x * x) / (q * q), "w + x w'"); vs_eq(std::exp(2 * r.objective(x)), q / (s * s), "integral of x w(x)"); vs_eq(r.objective(0), 0, "objective of nothing");
}
H(h_linear) { double s = sdv(), x = vs_real("x"); ILinear<double> r; r.set_sd(s); vs_eq(r.reweight(x), 1, "weight"); vs_eq(r.true_scale(x), 1, "w + x w'"); vs_eq(r.objective(x), x * x / 2, "integral of x w(x)"); }
H(h_three)
{
	double s = sdv(), x = vs_real("x"), q = 1 + x * x / (s * s); RobustIII<double> r; r.set_sd(s); vs_eq(r.reweight(x) * q * q, 1, "weight"); vs_eq(r.objective(x) * 2 * q, x * x, "integral of x w(x)");
	// derivative of x^2/2q is x w
	double y = vs_real("y"), p = 1 + y * y / (s * s); ASSUME(y > x && x >= 0); CHECK(r.objective(y) >= r.objective(x), "objective grows"); CHECK(r.objective(y) * 2 <= s * s, "objective bounded"); vs_eq(p * (r.objective(y) - r.objective(x)) * 2 * q, y * y - x * x, "difference of objectives");
}
template<int S, template<class> class R> static void chk(IRLS<S, double, R>& w, int n, double C[3][3], double T[3][3], double v[3], double res, const char* l)
{
	vs_eq(w.get_residual(), res, l); for (int i = 0; i < n; i++) { vs_eq(w.get_vector()[i], v[i], l); for (int j = 0; j < n; j++) { if (j >= i) vs_eq(w.get_C_inv()(i, j), C[i][j], l); vs_eq(w.get_true_C_inv()(i, j), T[i][j], l); } }
}
template<int S, template<class> class R> static void acc(int n, R<double>& r, IRLS<S, double, R>& w, IRLS<S, double, R>& u)
{
	double C[3][3] = {}, T[3][3] = {}, v[3] = {}, res = 0; double D[3][3] = {}, Z[3][3] = {}, y[3] = {}, ses = 0; vs_eqi(w.get_true_C_inv().num_rows(), n, "size"); chk<S, R>(w, n, C, T, v, 0, "starts empty");
	for (int k = 0; k < 3; k++)
	{
		double m = vs_real("m"); Vector<S> J(n); fill(J, "J"); double a = r.reweight(m), t = r.true_scale(m); bool first = k < 2; (first ? w : u).add_mJ(m, J); (first ? res : ses) += r.objective(m); for (int i = 0; i < n; i++) { (first ? v : y)[i] += a * m * J[i]; for (int j = 0; j < n; j++) { (first ? C : D)[i][j] += a * J[i] * J[j]; (first ? T : Z)[i][j] += t * J[i] * J[j]; } }
	}
	chk<S, R>(w, n, C, T, v, res, "measurements weighted by their residuals"); chk<S, R>(u, n, D, Z, y, ses, "measurements weighted by their residuals");
	w += u; for (int i = 0; i < n; i++) { v[i] += y[i]; for (int j = 0; j < n; j++) { C[i][j] += D[i][j]; T[i][j] += Z[i][j]; } } res += ses; chk<S, R>(w, n, C, T, v, res, "sum of two problems"); chk<S, R>(u, n, D, Z, y, ses, "right operand unchanged");
	w.clear(); double O[3][3] = {}, o[3] = {}; chk<S, R>(w, n, O, O, o, 0, "clear"); w += u; chk<S, R>(w, n, D, Z, y, ses, "used again after clear");
}
template<template<class> class R> static void stat() { double s = sdv(); R<double> r; r.set_sd(s); int n = vs_choose("n", 1, 3); if (n == 1) { IRLS<1, double, R> w, u; w.set_sd(s); u.set_sd(s); acc<1, R>(1, r, w, u); } if (n == 2) { IRLS<2, double, R> w, u; w.set_sd(s); u.set_sd(s); acc<2, R>(2, r, w, u); } if (n == 3) { IRLS<3, double, R> w, u; w.set_sd(s); u.set_sd(s); acc<3, R>(3, r, w, u); } }
template<template<class> class R> static void dyn() { double s = sdv(); R<double> r; r.set_sd(s); int n = vs_choose("n", 1, 3); IRLS<Dynamic, double, R> w(n), u(n); w.set_sd(s); u.set_sd(s); acc<Dynamic, R>(n, r, w, u); }
H(h_acc1) { stat<RobustI>(); }
H(h_acc2) { stat<RobustII>(); }
H(h_acc3) { stat<ILinear>(); }
H(h_acc1_d) { dyn<RobustI>(); }
H(h_acc2_d) { dyn<RobustII>(); }
H(h_acc3_d) { dyn<ILinear>(); }
// one step of reweighting solves the weighted normal equations
H(h_step)
{
	double s = sdv(), m = vs_real("m"), k = vs_real("k"), a = vs_real("a"), b = vs_real("b"); Vector<2> J = makeVector(1., a), K = makeVector(b, 1.); IRLS<2, double, RobustII> w; w.set_sd(s); w.add_prior(1); w.add_mJ(m, J); w.add_mJ(k, K); double p = wII(s, m), q = wII(s, k); w.compute(); Vector<2> x = w.get_mu(); vs_eq(x[0] * (1 + p + q * b * b) + x[1] * (p * a + q * b), p * m + q * k * b, "weighted normal equations"); vs_eq(x[0] * (p * a + q * b) + x[1] * (1 + p * a * a + q), p * m * a + q * k, "weighted normal equations");
}
H(h_size) { int n = vs_choose("n", 0, 3); IRLS<Dynamic, double, ILinear> w(2); bool bad = n != 2; vs_abort_ok(bad); Vector<> J(n); fill(J, "J"); w.add_mJ(vs_real("m"), J); CHECK(!bad, "sizes that do not fit stop the program"); ASSUME(!bad); vs_eq(w.get_C_inv()(0, 1), J[0] * J[1], "sizes that fit"); }
H(h_dflt) { IRLS<Dynamic, double, RobustI> w; vs_eqi(w.get_vector().size(), 0, "default size"); vs_eqi(w.get_true_C_inv().num_rows(), 0, "default size"); vs_eq(w.get_residual(), 0, "starts empty"); }
H(h_views) { IRLS<2, double, ILinear> w; Matrix<3, 2, double, ColMajor> M; fillm(M, "M"); double m = vs_real("m"); w.add_mJ(m, M[1]); vs_eq(w.get_true_C_inv()(1, 0), M(1, 0) * M(1, 1), "row of a matrix"); vs_eq(w.get_vector()[1], m * M(1, 1), "row of a matrix"); Vector<4> b; fill(b, "b"); const Vector<4>& c = b; w.clear(); w.add_mJ(m, c.slice<1, 2>()); vs_eq(w.get_true_C_inv()(1, 0), b[1] * b[2], "slice"); }
H(h_float)
{
	IRLS<2, float, RobustII> w; w.set_sd(2); Vector<2, float> J; J[0] = vs_float("J"); J[1] = vs_float("J"); float m = vs_float("m"); w.add_mJ(m, J); double q = 4 + (double)m * m, p = (4 - (double)m * m) / (q * q); vs_eq(w.get_true_C_inv()(0, 1), p * J[0] * J[1], "single precision"); vs_eq(w.get_C_inv()(0, 1), J[0] * J[1] / q, "single precision"); IRLS<2, float, RobustII> u; u += w; vs_eq(u.get_vector()[1], m * J[1] / q, "single precision");
}
