// BOUNDS: exp: every vector of the algebra with theta^2 >= 1e-6 (closed form) and, along rational axes, every smaller angle against the series to 1e-9 relative; ln and exp(ln): every translation, every angle in (2e-3, pi] about coordinate and rational axes, series branch below 8e-6
// OPTS: time=60
#include "hcommon.h"
#include <cmath>
#include <TooN/se3.h>
static void set(SO3<>& r, const Matrix<3>& m) { const_cast<Matrix<3>&>(r.get_matrix()) = m; }
static Matrix<4> mat(const SE3<>& s) { Matrix<4> m; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) m[i][j] = s.get_rotation().get_matrix()[i][j]; m[i][3] = s.get_translation()[i]; m[3][i] = 0; } m[3][3] = 1; return m; }
static Matrix<3> hat3(const Vector<3>& w) { Matrix<3> h; h[0][0] = h[1][1] = h[2][2] = 0; h[0][1] = -w[2]; h[1][0] = w[2]; h[0][2] = w[1]; h[2][0] = -w[1]; h[1][2] = -w[0]; h[2][1] = w[0]; return h; }
static Matrix<3> rot(const Vector<3>& n, double c, double s) { Matrix<3> h = hat3(n), r; r = Identity; r += s * h; Matrix<3> hh = h * h; r += (1 - c) * hh; return r; }
static Vector<3> axis(int k) { Vector<3> n = Zeros; if (k < 3) n[k] = 1; if (k == 3) n = makeVector(-1., 2., 2.) / 3; if (k == 4) n = makeVector(6., -2., -3.) / 7; if (k == 5) n = makeVector(0., 3., -4.) / 5; return n; }
static Vector<6> alg(const Vector<3>& v, const Vector<3>& w) { Vector<6> m; for (int i = 0; i < 3; i++) { m[i] = v[i]; m[3 + i] = w[i]; } return m; }
// R is the rotation by w, and t the point with w x t = (R - 1) v and w.t = w.v: the end of the screw motion
static void screw(const SE3<>& T, const Vector<3>& v, const Vector<3>& w)
{
	eqm(T.get_rotation().get_matrix(), SO3<>::exp(w).get_matrix(), "rotation of the exponential"); Vector<3> t = T.get_translation(), a = w ^ t, b = T.get_rotation().get_matrix() * v - v; eqv(a, b, "translation across the axis"); vs_eq(w * t, w * v, "translation along the axis");
}
H(h_exp) { Vector<3> v, w; fill(v, "v"); fill(w, "w"); ASSUME(w * w >= 1e-6); Vector<6> m = alg(v, w); screw(SE3<>::exp(m), v, w); }
H(h_exp_forms) { Vector<3> v, w; fill(v, "v"); fill(w, "w"); Vector<6> m = alg(v, w); SE3<> E = SE3<>::exp(m), A(m); eqm(mat(A), mat(E), "constructor from a vector"); Vector<> d(6); d = m; eqm(mat(SE3<>::exp(d)), mat(E), "run-time sized"); Vector<8> b; fill(b); b.slice<1, 6>() = m; eqm(mat(SE3<>::exp(b.slice<1, 6>())), mat(E), "slice"); }
H(h_exp_neg) { Vector<3> v, w; fill(v, "v"); fill(w, "w"); ASSUME(w * w >= 1e-6); Vector<6> m = alg(v, w); eqm(mat(SE3<>::exp(-m)), mat(SE3<>::exp(m).inverse()), "exp(-m) is the inverse"); }
H(h_exp_trans) { Vector<3> v, w = Zeros; fill(v, "v"); SE3<> E = SE3<>::exp(alg(v, w)); eqv(E.get_translation(), v, "pure translation"); eqm(E.get_rotation().get_matrix(), Matrix<3>(Identity), "pure translation"); Vector<6> l = E.ln(); eqv(l, alg(v, w), "ln of a translation"); }
// small angles: t = v + B w x v + C w x (w x v), B and C against the series
H(h_exp_small)
{
	int k = vs_choose("k", 0, 3); double th = vs_real("th"); ASSUME(th > 1e-9 && th * th < 1e-6); Vector<3> n = axis(k), v, w = th * n; fill(v, "v"); for (int i = 0; i < 3; i++) ASSUME(v[i] <= 1 && v[i] >= -1);
	Vector<3> t = SE3<>::exp(alg(v, w)).get_translation(), c = n ^ v, cc = n ^ c; double x = th * th, B = 0.5 - x / 24, C = 1. / 6 - x / 120;
	for (int i = 0; i < 3; i++) near_(t[i], v[i] + B * th * c[i] + C * x * cc[i], 5e-9, "translation for small angles"); eqm(SE3<>::exp(alg(v, w)).get_rotation().get_matrix(), SO3<>::exp(w).get_matrix(), "rotation of the exponential");
}
// linear in the translation, to the precision of the double: halving the angle range exposes the coefficients
H(h_exp_small2) { int k = vs_choose("k", 0, 2); double th = vs_real("th"); ASSUME(th > 1e-4 && th * th < 1e-6); Vector<3> n = axis(k), v = Zeros, w = th * n; v[(k + 1) % 3] = 1; Vector<3> t = SE3<>::exp(alg(v, w)).get_translation(); near_(t[(k + 2) % 3] / th, 0.5 - th * th / 24, 1e-8, "across the axis"); near_((1 - t[(k + 1) % 3]) / (th * th), 1. / 6 - th * th / 120, 1e-7, "against the translation"); vs_eq(t[k], 0, "along the axis"); }
// medium angles: to the accuracy of the double
H(h_exp_mid) { int k = vs_choose("k", 0, 2); double th = vs_real("th"); ASSUME(th > 1e-3 && th < 0.7); Vector<3> n = axis(k), v = Zeros, w = th * n; v[(k + 1) % 3] = 1; SE3<> T = SE3<>::exp(alg(v, w)); Vector<3> t = T.get_translation(); near_(t[(k + 2) % 3] * th, 1 - std::cos(th), 1e-13, "across the axis"); near_(t[(k + 1) % 3] * th, std::sin(th), 1e-13, "along the translation"); near_(t[k], 0, 1e-13, "along the axis"); Matrix<3> R = T.get_rotation().get_matrix(); int i = (k + 1) % 3, j = (k + 2) % 3; near_(R[i][i], std::cos(th), 1e-13, "cosine of the angle"); near_(R[j][i], std::sin(th), 1e-13, "sine of the angle"); }
H(h_exp_add) { int k = vs_choose("k", 0, 3); Vector<3> n = axis(k), v; fill(v, "v"); double a = vs_real("a"), b = vs_real("b"); ASSUME(a > 1e-3 && b > 1e-3); Vector<6> m = alg(v, n); eqm(mat(SE3<>::exp(a * m) * SE3<>::exp(b * m)), mat(SE3<>::exp((a + b) * m)), "exp(a m) exp(b m) = exp((a + b) m)"); }
static SE3<> any(int k, bool half) { SE3<> T; double t = half ? 0 : vs_real("t"); if (!half) ASSUME(t > 2e-3 && t < 1000); double q = 1 + t * t; Vector<3> n = axis(k); if (vs_choose("s", 0, 1)) n = -n; set(T.get_rotation(), rot(n, half ? -1 : (1 - t * t) / q, half ? 0 : 2 * t / q)); fill(T.get_translation(), "p"); for (int i = 0; i < 3; i++) ASSUME(T.get_translation()[i] <= 8 && T.get_translation()[i] >= -8); return T; }
static void ln_(const SE3<>& T) { Matrix<4> m = mat(T); Vector<6> l = T.ln(); eqv(SE3<>::ln(T), l, "static and member ln agree"); eqv(l.slice<3, 3>(), T.get_rotation().ln(), "rotation part is ln of the rotation"); eqm(mat(T), m, "unchanged"); SE3<> E = SE3<>::exp(l); eqm(mat(E), m, "exp(ln T) = T"); }
H(h_ln) { ln_(any(vs_choose("k", 0, 3), false)); }
H(h_ln_half) { ln_(any(vs_choose("k", 0, 5), true)); }
extern "C" void ht_ln() { ln_(any(vs_choose("k", 4, 5), false)); }
// small angles: ln against the series v = t - w x t / 2 + w x (w x t) / 12
H(h_ln_small) { int k = vs_choose("k", 0, 1); double t = vs_real("t"); ASSUME(t > 1e-7 && t < 4e-6); double q = 1 + t * t; SE3<> T; Vector<3> n = axis(k); set(T.get_rotation(), rot(n, (1 - t * t) / q, 2 * t / q)); Vector<3> p = Zeros; p[(k + 1) % 3] = 1; p[k] = 0.5; T.get_translation() = p; Vector<6> l = T.ln(); near_(l[(k + 2) % 3] / t, -1, 1e-5, "across the axis"); near_(l[k], p[k], 1e-5, "along the axis"); near_(l[(k + 1) % 3], 1, 1e-5, "translation"); }
