// BOUNDS: exp: every rotation vector with theta^2 >= 1e-6 (closed form) and, along four directions, every shorter one against the series to 1e-9 relative; ln and exp(ln): every angle in [0, pi] about coordinate axes, rational axes and a rational one-parameter family of axes
// OPTS: time=60
#include "hcommon.h"
#include <cmath>
#include <TooN/so3.h>
#include <TooN/se3.h>
static void set(SO3<>& r, const Matrix<3>& m) { const_cast<Matrix<3>&>(r.get_matrix()) = m; }
static Matrix<3> hat(const Vector<3>& w) { Matrix<3> h; h[0][0] = h[1][1] = h[2][2] = 0; h[0][1] = -w[2]; h[1][0] = w[2]; h[0][2] = w[1]; h[2][0] = -w[1]; h[1][2] = -w[0]; h[2][1] = w[0]; return h; }
// unit axis k of a list; the last one depends on a parameter
static Vector<3> axis(int k)
{
	Vector<3> n = Zeros; if (k < 3) n[k] = 1; if (k == 3) n = makeVector(-1., 2., 2.) / 3; if (k == 4) n = makeVector(6., -2., -3.) / 7; if (k == 5) n = makeVector(0., 3., -4.) / 5;
	if (k == 6) { double u = vs_real("u"); ASSUME(u > 0); double d = 1 + u * u; n = makeVector((1 - u * u) / d, 0., 2 * u / d); } if (k == 7) n = makeVector(1., -4., 8.) / 9; if (k == 8) n = makeVector(4., 4., -7.) / 9; return n;
}
static Matrix<3> rot(const Vector<3>& n, double c, double s) { Matrix<3> h = hat(n), r; r = Identity; r += s * h; Matrix<3> hh = h * h; r += (1 - c) * hh; return r; }
H(h_exp)
{
	Vector<3> w; fill(w, "w"); ASSUME(w * w >= 1e-6); double th = std::sqrt(w * w), s = std::sin(th), c = std::cos(th); Matrix<3> R = SO3<>::exp(w).get_matrix(), h = hat(w), hh = h * h;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vs_eq(R[i][j], (i == j) + s / th * h[i][j] + (1 - c) / (th * th) * hh[i][j], "rotation by |w| about w");
}
// medium angles: to the accuracy of the double
H(h_exp_mid) { int k = vs_choose("k", 0, 2); double t = vs_real("t"); ASSUME(t > 1e-3 && t < 0.7); Vector<3> n = axis(k); Matrix<3> R = SO3<>::exp(t * n).get_matrix(); int i = (k + 1) % 3, j = (k + 2) % 3; near_(R[i][i], std::cos(t), 1e-13, "cosine of the angle"); near_(R[j][i], std::sin(t), 1e-13, "sine of the angle"); near_(R[i][j], -std::sin(t), 1e-13, "sine of the angle"); near_(R[k][k], 1, 1e-13, "axis fixed"); }
H(h_exp_forms) { Vector<3> w; fill(w, "w"); Matrix<3> R = SO3<>::exp(w).get_matrix(); SO3<> r(w); eqm(r.get_matrix(), R, "constructor from a rotation vector"); Vector<> d(3); d = w; eqm(SO3<>::exp(d).get_matrix(), R, "run-time sized"); Vector<5> b; fill(b); b.slice<2, 3>() = w; eqm(SO3<>::exp(b.slice<2, 3>()).get_matrix(), R, "slice"); eqm(SO3<>::exp(-w).get_matrix(), R.T(), "exp(-w) is the inverse"); eqv(R * w, w, "axis stays fixed"); }
H(h_exp_orth) { Vector<3> w; fill(w, "w"); ASSUME(w * w >= 1e-6); Matrix<3> R = SO3<>::exp(w).get_matrix(); Matrix<3> p = R * R.T(); eqm(p, Matrix<3>(Identity), "orthogonal"); vs_eq((R[0] ^ R[1]) * R[2], 1, "determinant one"); }
// short vectors: against the series, relative to the size of the terms
H(h_exp_small)
{
	int k = vs_choose("k", 0, 3); double t = vs_real("t"); ASSUME(t > 1e-9 && t * t < 1e-6); Vector<3> n = axis(k); Matrix<3> R = SO3<>::exp(t * n).get_matrix(), h = hat(n), hh = h * h; double x = t * t;
	double A = 1 - x / 6 * (1 - x / 20), B = 0.5 - x / 24 * (1 - x / 30);
	double sk = ((R[2][1] - R[1][2]) * n[0] + (R[0][2] - R[2][0]) * n[1] + (R[1][0] - R[0][1]) * n[2]) / 2, tr = (3 - R[0][0] - R[1][1] - R[2][2]) / 2;
	near_(sk, A * t, 1e-14, "sine of a small angle"); near_(tr, B * x, 5e-15, "1 - cosine of a small angle");
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vs_eq(R[i][j], (i == j) + sk * h[i][j] + tr * hh[i][j], "rotation about the axis");
}
H(h_exp_add) { int k = vs_choose("k", 0, 3); Vector<3> n = axis(k); double a = vs_real("a"), b = vs_real("b"); ASSUME(a > 1e-3 && b > 1e-3); eqm((SO3<>::exp(a * n) * SO3<>::exp(b * n)).get_matrix(), SO3<>::exp((a + b) * n).get_matrix(), "angles about an axis add"); }
static void ln_(const Vector<3>& n, double t, bool half)
{
	double q = 1 + t * t, c = half ? -1 : (1 - t * t) / q, s = half ? 0 : 2 * t / q; SO3<> r; set(r, rot(n, c, s)); Matrix<3> k = r.get_matrix(); Vector<3> w = r.ln(); eqm(r.get_matrix(), k, "unchanged");
	Vector<3> x = w ^ n; for (int i = 0; i < 3; i++) vs_eq(x[i], 0, "ln is along the axis"); vs_le(w * w, M_PI * M_PI, "angle at most pi", 1e-9);
	if (half) { vs_eq(w * w, M_PI * M_PI, "half turn"); } else { vs_eq(std::cos(w * n), c, "angle"); vs_eq(std::sin(w * n), s, "angle"); vs_le(0, (w * n) * t, "direction", 1e-9); }
}
H(h_ln) { int k = vs_choose("k", 0, 4); double t = vs_real("t"); int g = vs_choose("s", 0, 1); ASSUME(t >= 0 && t < 1000); Vector<3> n = axis(k); ln_(g ? -n : n, t, false); }
H(h_ln_half) { int k = vs_choose("k", 0, 8), s = vs_choose("s", 0, 1); ln_(s ? -axis(k) : axis(k), 0, true); }
H(h_expln) { int k = vs_choose("k", 0, 5); double t = vs_real("t"); ASSUME(t > 1e-3); Vector<3> n = axis(k); if (vs_choose("s", 0, 1)) n = -n; double q = 1 + t * t; Matrix<3> m = rot(n, (1 - t * t) / q, 2 * t / q); SO3<> r; set(r, m); Vector<3> w = r.ln(); eqm(SO3<>::exp(w).get_matrix(), m, "exp(ln R) = R"); }
extern "C" void ht_ln() { int k = vs_choose("k", 5, 8), g = vs_choose("s", 0, 1); double t = vs_real("t"); ASSUME(t >= 0 && t < 1000); Vector<3> n = axis(k); ln_(g ? -n : n, t, false); }
// small rotations: ln to first order
H(h_ln_small) { int k = vs_choose("k", 0, 3); double t = vs_real("t"); ASSUME(t > 1e-9 && t < 1e-3); Vector<3> n = axis(k); double q = 1 + t * t; SO3<> r; set(r, rot(n, (1 - t * t) / q, 2 * t / q)); near_(r.ln() * n / t, 2, 1e-5, "ln of a small rotation"); }
