// BOUNDS: every similarity of the plane (any angle, translation, positive scale), points, homogeneous points, matrices with up to 3 columns, every vector of the algebra with |theta| and |log scale| above 1e-6 in closed form, one of them zero, and series bounds below
// OPTS: time=60
#include "hcommon.h"
#include <cmath>
#include <TooN/sim2.h>
static double scale(const char* n = "s") { double s = vs_real(n); ASSUME(s > 0.0625); return s; }
static SIM2<> any(const char* n = "T") { double a = vs_real(n); Vector<2> t; fill(t, n); double s = vs_real("s"); ASSUME(s > 0.0625 || s < -0.0625); return SIM2<>(SO2<>(a), t, s); }
static Matrix<3> mat(const SIM2<>& T) { Matrix<3> m = Identity; for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) m[i][j] = T.get_scale() * T.get_rotation().get_matrix()[i][j]; m[i][2] = T.get_translation()[i]; } return m; }
template<class V> static Matrix<3> hat(const V& v) { Matrix<3> m = Zeros; for (int i = 0; i < 4; i++) m += v[i] * SIM2<>::generator(i); return m; }
H(h_id) { SIM2<> I; eqm(mat(I), Matrix<3>(Identity), "default is the identity"); Vector<4> z = Zeros; eqm(mat(SIM2<>::exp(z)), Matrix<3>(Identity), "exp 0"); eqv(I.ln(), z, "ln of the identity"); }
H(h_group)
{
	SIM2<> A = any(), B = any(); Matrix<3> a = mat(A), b = mat(B); eqm(mat(A * B), a * b, "product"); SIM2<> D = A; D *= B; eqm(mat(D), a * b, "*="); D = A; D *= D; eqm(mat(D), a * a, "*= with itself"); eqm(mat(A), a, "operands unchanged");
	eqm(mat(A.inverse()) * a, Matrix<3>(Identity), "inverse"); eqm(mat(A * A.inverse()), Matrix<3>(Identity), "A A^-1"); vs_eq((A * B).get_scale(), A.get_scale() * B.get_scale(), "scales multiply"); eqm((A * B).get_rotation().get_matrix(), A.get_rotation().get_matrix() * B.get_rotation().get_matrix(), "rotations multiply");
}
H(h_act)
{
	SIM2<> A = any(); Matrix<3> M = mat(A); Vector<2> p; fill(p, "p"); Vector<3> h = makeVector(p[0], p[1], 1.); Vector<2> q = A * p; Vector<3> mh = M * h; vs_eq(q[0], mh[0], "acts on points"); vs_eq(q[1], mh[1], "acts on points"); Vector<3> v; fill(v, "v"); Vector<3> l = M * v, r = v * M; eqv(A * v, l, "acts on homogeneous points"); eqv(v * A, r, "acts from the right");
	Vector<> d(3); d = v; eqv(A * d, l, "run-time sized"); eqv(d * A, r, "run-time sized"); Vector<5> big; fill(big, "b"); eqv(A * big.slice<1, 3>(), M * big.slice<1, 3>(), "slice"); v = A * v; eqv(v, l, "result over argument"); v = d; v = v * A; eqv(v, r, "result over argument");
	Matrix<3, 2> N; fillm(N); eqm(A * N, M * N, "acts on columns"); Matrix<2, 3> K; fillm(K); eqm(K * A, K * M, "acts on rows"); Matrix<> L(3, 1); fillm(L); eqm(A * L, M * L, "run-time sized"); Matrix<> U(1, 3); fillm(U); eqm(U * A, U * M, "run-time sized"); Matrix<3> F; fillm(F); eqm(A * F.T(), M * F.T(), "transposed view");
}
H(h_gen) { for (int i = 0; i < 4; i++) { Matrix<3> g = SIM2<>::generator(i), e = Zeros; if (i < 2) e[i][2] = 1; if (i == 2) { e[1][0] = 1; e[0][1] = -1; } if (i == 3) e[0][0] = e[1][1] = 1; eqm(g, e, "generator"); } }
H(h_adj)
{
	SIM2<> A = any(); Vector<4> v; fill(v, "v"); Vector<4> a = A.adjoint(v); eqm(hat(a), mat(A) * hat(v) * mat(A.inverse()), "hat(Ad v) = T hat(v) T^-1");
	Matrix<4> M; fillm(M); Matrix<4> Ad; for (int i = 0; i < 4; i++) { Vector<4> e = Zeros; e[i] = 1; Ad.T()[i] = A.adjoint(e); } Matrix<4> r = A.adjoint(M); eqm(r, Ad * M * Ad.T(), "adjoint of a matrix is Ad M Ad^T");
}
// translation of the exponential: hat t = (s R - 1) v for the linear part of the generator
static void chk(const Vector<4>& m) { SIM2<> T = SIM2<>::exp(m); vs_eq(T.get_scale(), std::exp(m[3]), "scale"); eqm(T.get_rotation().get_matrix(), SO2<>(m[2]).get_matrix(), "rotation"); Vector<2> t = T.get_translation(), v = m.slice<0, 2>(); Matrix<2> S = T.get_scale() * T.get_rotation().get_matrix(); Vector<2> r = S * v - v; vs_eq(m[3] * t[0] - m[2] * t[1], r[0], "translation"); vs_eq(m[2] * t[0] + m[3] * t[1], r[1], "translation"); }
H(h_exp) { Vector<4> m; fill(m, "m"); ASSUME(m[2] > 1e-6 || m[2] < -1e-6); ASSUME(m[3] > 1e-6 || m[3] < -1e-6); chk(m); }
H(h_exp_rigid) { Vector<4> m; fill(m, "m"); m[3] = 0; ASSUME(m[2] > 1e-6 || m[2] < -1e-6); chk(m); }
H(h_exp_scale) { Vector<4> m; fill(m, "m"); m[2] = 0; ASSUME(m[3] > 1e-6 || m[3] < -1e-6); chk(m); }
H(h_exp_trans) { Vector<4> m = Zeros; m[0] = vs_real("x"); m[1] = vs_real("y"); SIM2<> T = SIM2<>::exp(m); Matrix<3> g = Identity; g += hat(m); eqm(mat(T), g, "pure translation"); SIM2<> A(m); eqm(mat(A), g, "constructor from a vector"); Vector<> d(4); d = m; eqm(mat(SIM2<>::exp(d)), g, "run-time sized"); eqv(T.ln(), m, "ln of a translation"); }
H(h_exp_small)
{
	double th = vs_real("th"), l = vs_real("l"), x = vs_real("x"), y = vs_real("y"); ASSUME(th < 1e-6 && th > -1e-6 && l < 1e-6 && l > -1e-6); Vector<2> a = SIM2<>::exp(makeVector(1., 0., th, l)).get_translation(), t = SIM2<>::exp(makeVector(x, y, th, l)).get_translation(); vs_eq(t[0], x * a[0] - y * a[1], "linear in the translation"); vs_eq(t[1], x * a[1] + y * a[0], "linear in the translation"); near_(a[0], 1 + l / 2, 1e-10, "small motions"); near_(a[1], th / 2, 1e-10, "small motions");
}
// a tiny log scale with a sizeable angle, and the other way round: to the accuracy of the double
static void mid(double th, double l)
{
	SIM2<> T = SIM2<>::exp(makeVector(1., 0., th, l)); Vector<2> t = T.get_translation(); double e = std::exp(l), c = std::cos(th), s = std::sin(th);
	near_(l * t[0] - th * t[1], e * c - 1, 1e-13, "translation"); near_(th * t[0] + l * t[1], e * s, 1e-13, "translation");
}
H(h_exp_tiny_l) { double l = vs_real("l"); ASSUME(l > -1e-6 && l < 1e-6); mid(vs_choose("a", 1, 4) * 0.5, l); }
H(h_exp_tiny_th) { double th = vs_real("th"); ASSUME(th > 1e-9 && th < 1e-6); mid(th, vs_choose("a", -2, 1) * 0.5 + 0.25); }
// ln: scale given through its logarithm, rotation rational
static SIM2<> rat(double t, double l) { double q = 1 + t * t; Matrix<2> m; m[0][0] = m[1][1] = (1 - t * t) / q; m[1][0] = 2 * t / q; m[0][1] = -m[1][0]; Vector<2> u; fill(u, "u"); return SIM2<>(SO2<>(m), u, std::exp(l)); }
static void ln_(const SIM2<>& T, double l) { Vector<4> v = T.ln(); eqv(SIM2<>::ln(T), v, "static and member ln agree"); vs_eq(v[3], l, "log of the scale"); vs_eq(v[2], T.get_rotation().ln(), "angle"); Vector<2> t = T.get_translation(), a = v.slice<0, 2>(); Matrix<2> S = T.get_scale() * T.get_rotation().get_matrix(); Vector<2> r = S * a - a; vs_eq(v[3] * t[0] - v[2] * t[1], r[0], "translation"); vs_eq(v[2] * t[0] + v[3] * t[1], r[1], "translation"); }
H(h_ln) { int k = vs_choose("k", 0, 3); double t = k == 0 ? 0.5 : k == 1 ? -2 : k == 2 ? 0.001 : -0.75, l = vs_real("l"); ASSUME(l > 1e-3 || l < -1e-3); ln_(rat(t, l), l); }
extern "C" void ht_ln() { double t = vs_real("t"), l = vs_real("l"); ASSUME(t > 1e-3 || t < -1e-3); ASSUME(l > 1e-3 || l < -1e-3); ln_(rat(t, l), l); }
H(h_ln_rigid) { double t = vs_real("t"); ASSUME(t > 1e-3 || t < -1e-3); ln_(rat(t, 0), 0); }
H(h_ln_scale) { double l = vs_real("l"); ASSUME(l > 1e-3 || l < -1e-3); ln_(rat(0, l), l); }
H(h_mixed) { float a = vs_float("a"), x = vs_float("x"), y = vs_float("y"), s = vs_float("s"); SIM2<float> A(SO2<float>(a), makeVector(x, y), s); SIM2<> B = any(); SIM2<double> P = A * B; eqm(P.get_rotation().get_matrix(), A.get_rotation().get_matrix() * B.get_rotation().get_matrix(), "mixed product"); Vector<2> t = A.get_rotation() * (s * B.get_translation()); t[0] += x; t[1] += y; eqv(P.get_translation(), t, "mixed product"); vs_eq(P.get_scale(), s * B.get_scale(), "mixed product"); Vector<4, float> z = Zeros; SIM2<float> E = SIM2<float>::exp(z); Vector<4, float> zz = E.ln(); eqv(zz, z, "float"); }
H(h_size)
{
	int n = vs_choose("n", 0, 5), k = vs_choose("k", 0, 4); SIM2<> I; Vector<> v(n); fill(v); Matrix<> M(n, 2); fillm(M); int bad = k < 4 ? n != 3 : n != 4; vs_abort_ok(bad);
	if (k == 0) { Vector<3> w = I * v; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
	if (k == 1) { Vector<3> w = v * I; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
	if (k == 2) { Matrix<3, 2> w = I * M; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M, "identity"); }
	if (k == 3) { Matrix<2, 3> w = M.T() * I; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M.T(), "identity"); }
	if (k == 4) { for (int i = 0; i < n; i++) v[i] = 0; SIM2<>::exp(v); CHECK(!bad, "vectors of another size stop the program"); }
}
