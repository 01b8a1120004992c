// BOUNDS: every similarity of space (any rotation, translation, positive scale), points, homogeneous points, matrices with up to 3 columns, every vector and 7x7 matrix for the adjoints; exp and ln: closed form for every angle and log scale above 1e-6, either of them zero, series bounds below, rational axes for ln
// OPTS: time=60
#include "hcommon.h"
#include <cmath>
#include <TooN/sim3.h>
static void set(SO3<>& r, const Matrix<3>& m) { const_cast<Matrix<3>&>(r.get_matrix()) = m; }
static double scale(const char* n = "s") { double s = vs_real(n); ASSUME(s > 0.0625); return s; }
static SIM3<> lin(const char* n = "r") { SIM3<> r; Matrix<3> m; fillm(m, n); set(r.get_rotation(), m); fill(r.get_translation(), n); r.get_scale() = vs_real("s"); return r; }
static Matrix<3> quat(const char* n)
{
	double a = vs_real(n), b = vs_real(n), c = vs_real(n), q = 1 + a * a + b * b + c * c; Matrix<3> m;
	m[0][0] = (1 + a * a - b * b - c * c) / q; m[0][1] = 2 * (a * b - c) / q; m[0][2] = 2 * (a * c + b) / q; m[1][0] = 2 * (a * b + c) / q; m[1][1] = (1 - a * a + b * b - c * c) / q; m[1][2] = 2 * (b * c - a) / q; m[2][0] = 2 * (a * c - b) / q; m[2][1] = 2 * (b * c + a) / q; m[2][2] = (1 - a * a - b * b + c * c) / q; return m;
}
static SIM3<> rat(const char* n = "q") { SIM3<> r; set(r.get_rotation(), quat(n)); fill(r.get_translation(), n); r.get_scale() = scale(); return r; }
static Matrix<4> mat(const SIM3<>& s) { Matrix<4> m; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) m[i][j] = s.get_scale() * s.get_rotation().get_matrix()[i][j]; m[i][3] = s.get_translation()[i]; m[3][i] = 0; } m[3][3] = 1; return m; }
template<class V> static Matrix<4> hat(const V& v) { Matrix<4> h = Zeros; for (int i = 0; i < 7; i++) h += v[i] * SIM3<>::generator(i); return h; }
static Matrix<3> hat3(const Vector<3>& w) { Matrix<3> h; h[0][0] = h[1][1] = h[2][2] = 0; h[0][1] = -w[2]; h[1][0] = w[2]; h[0][2] = w[1]; h[2][0] = -w[1]; h[1][2] = -w[0]; h[2][1] = w[0]; return h; }
static Matrix<3> rot(const Vector<3>& n, double c, double s) { Matrix<3> h = hat3(n), r; r = Identity; r += s * h; Matrix<3> hh = h * h; r += (1 - c) * hh; return r; }
static Vector<3> axis(int k) { Vector<3> n = Zeros; if (k < 3) n[k] = 1; if (k == 3) n = makeVector(-1., 2., 2.) / 3; if (k == 4) n = makeVector(6., -2., -3.) / 7; if (k == 5) n = makeVector(0., 3., -4.) / 5; return n; }
static Vector<7> alg(const Vector<3>& v, const Vector<3>& w, double l) { Vector<7> m; for (int i = 0; i < 3; i++) { m[i] = v[i]; m[3 + i] = w[i]; } m[6] = l; return m; }
H(h_id) { SIM3<> I; eqm(mat(I), Matrix<4>(Identity), "default is the identity"); Vector<7> z = Zeros; eqm(mat(SIM3<>::exp(z)), Matrix<4>(Identity), "exp 0"); eqv(I.ln(), z, "ln of the identity"); SO3<> R; set(R, quat("q")); Vector<3> t; fill(t, "t"); double s = vs_real("s"); SIM3<> A(R, t, s); eqm(A.get_rotation().get_matrix(), R.get_matrix(), "constructor"); eqv(A.get_translation(), t, "constructor"); vs_eq(A.get_scale(), s, "constructor"); }
H(h_prod)
{
	SIM3<> A = lin(), B = lin(); Matrix<4> a = mat(A), b = mat(B), ab = a * b; eqm(mat(A * B), ab, "product"); SIM3<> D = A; D *= B; eqm(mat(D), ab, "*="); D = A; D *= D; eqm(mat(D), a * a, "*= with itself"); D = B; D.left_multiply_by(A); eqm(mat(D), ab, "left_multiply_by"); D = A; D.left_multiply_by(D); eqm(mat(D), a * a, "left_multiply_by itself"); eqm(mat(A), a, "operands unchanged"); eqm(mat(B), b, "operands unchanged"); vs_eq((A * B).get_scale(), A.get_scale() * B.get_scale(), "scales multiply");
	SE3<> E(B.get_rotation(), B.get_translation()); SIM3<> F = B; F.get_scale() = 1; eqm(mat(A * E), a * mat(F), "similarity times rigid motion");
}
H(h_inv) { SIM3<> A = rat(); Matrix<4> a = mat(A); eqm(mat(A * A.inverse()), Matrix<4>(Identity), "A A^-1"); eqm(mat(A.inverse() * A), Matrix<4>(Identity), "A^-1 A"); eqm(mat(A), a, "unchanged"); vs_eq(A.inverse().get_scale() * A.get_scale(), 1, "inverse scale"); }
H(h_act)
{
	SIM3<> A = lin(); Matrix<4> m = mat(A); Vector<3> p; fill(p, "p"); eqv(A * p, A.get_scale() * (A.get_rotation().get_matrix() * p) + A.get_translation(), "point"); Vector<4> v; fill(v, "v"); Vector<4> r = m * v, l = v * m; eqv(A * v, r, "A v"); eqv(v * A, l, "v A"); Vector<> d(4); d = v; eqv(A * d, r, "run-time sized"); eqv(d * A, l, "run-time sized"); Vector<6> b; fill(b, "b"); eqv(A * b.slice<1, 4>(), m * b.slice<1, 4>(), "slice"); eqv(b.slice<1, 4>() * A, b.slice<1, 4>() * m, "slice"); eqv(A * b.slice<2, 3>(), A * Vector<3>(b.slice<2, 3>()), "slice of three");
	v = A * v; eqv(v, r, "result over argument"); v = d; v = v * A; eqv(v, l, "result over argument"); p = A * p;
	// assigned into slices of more storage
	Vector<6> o; fill(o, "o"); double o0 = o[0], o5 = o[5]; o.slice<1, 4>() = A * d; eqv(o.slice<1, 4>(), r, "assigned to a slice"); vs_eq(o[0], o0, "around the slice"); vs_eq(o[5], o5, "around the slice");
}
H(h_actm)
{
	SIM3<> A = lin(); Matrix<4> m = mat(A); Matrix<4, 2> M; fillm(M); eqm(A * M, m * M, "A M"); Matrix<2, 4> N; fillm(N); eqm(N * A, N * m, "M A"); Matrix<> L(4, 3); fillm(L); eqm(A * L, m * L, "run-time sized"); eqm(L.T() * A, L.T() * m, "run-time sized view"); Matrix<4, 2, double, ColMajor> C; fillm(C); eqm(A * C, m * C, "column major");
	Matrix<4> S; fillm(S); Matrix<4> E = m * S; S = A * S; eqm(S, E, "result over argument");
}
H(h_gen)
{
	for (int i = 0; i < 7; i++) { Matrix<4> g = SIM3<>::generator(i); Matrix<4> e = Zeros; if (i < 3) e[i][3] = 1; else if (i == 6) e[0][0] = e[1][1] = e[2][2] = 1; else { Vector<3> u = Zeros, c; u[i - 3] = 1; for (int j = 0; j < 3; j++) { Vector<3> w = Zeros; w[j] = 1; c = u ^ w; for (int k = 0; k < 3; k++) e[k][j] = c[k]; } } eqm(g, e, "generator"); Vector<4> p; fill(p, "p"); eqv(SIM3<>::generator_field(i, p), g * p, "generator_field"); }
}
H(h_adj)
{
	SIM3<> A = rat(); Vector<7> v; fill(v, "v"); eqm(hat(A.adjoint(v)), mat(A) * hat(v) * mat(A.inverse()), "hat(Ad v) = A hat(v) A^-1"); Vector<> d(7); d = v; eqv(A.adjoint(d), A.adjoint(v), "run-time sized"); Vector<9> b; fill(b); b.slice<1, 7>() = v; eqv(A.adjoint(b.slice<1, 7>()), A.adjoint(v), "slice");
}
H(h_adjm)
{
	SIM3<> A = lin(); Matrix<7> M, K; fillm(M); K = M; Matrix<7> T, U; for (int i = 0; i < 7; i++) { Vector<7> e = Zeros; e[i] = 1; T.T()[i] = A.adjoint(e); U.T()[i] = A.trinvadjoint(e); }
	eqm(A.adjoint(M), T * M * T.T(), "adjoint of a matrix"); eqm(A.trinvadjoint(M), U * M * U.T(), "trinvadjoint of a matrix"); eqm(M, K, "unchanged"); Matrix<> D(7, 7); D = M; eqm(A.adjoint(D), T * M * T.T(), "run-time sized"); eqm(A.trinvadjoint(D), U * M * U.T(), "run-time sized"); eqm(A.adjoint(M.T()), T * M.T() * T.T(), "view");
}
H(h_triadj) { SIM3<> A = rat(); Vector<7> v, w; fill(v, "v"); fill(w, "w"); vs_eq(A.trinvadjoint(w) * A.adjoint(v), w * v, "trinvadjoint keeps the product with adjoint"); Vector<> d(7); d = w; eqv(A.trinvadjoint(d), A.trinvadjoint(w), "run-time sized"); }
H(h_homo) { SIM3<> A = rat("a"), B = rat("b"); Vector<7> v; fill(v, "v"); eqv((A * B).adjoint(v), A.adjoint(B.adjoint(v)), "Ad(AB) = Ad A Ad B"); }
H(h_size)
{
	int n = vs_choose("n", 0, 7), k = vs_choose("k", 0, 5); SIM3<> I; Vector<> v(n); fill(v); Matrix<> M(n, 2); fillm(M); int bad = k < 4 ? n != 4 : n != 7; vs_abort_ok(bad);
	if (k == 0) { Vector<4> w = I * v; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
	if (k == 1) { Vector<4> w = v * I; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
	if (k == 2) { Matrix<4, 2> w = I * M; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M, "identity"); }
	if (k == 3) { Matrix<2, 4> w = M.T() * I; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M.T(), "identity"); }
	if (k == 4) { Vector<7> w = I.adjoint(v); CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
	if (k == 5) { Vector<7> w = I.trinvadjoint(v); CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
}
// translation of the exponential: hat t = (s R - 1) v for the linear part of the generator
static void chk(const SIM3<>& T, const Vector<3>& v, const Vector<3>& w, double l)
{
	Vector<3> t = T.get_translation(), a = (w ^ t) + l * t, b = T.get_scale() * (T.get_rotation().get_matrix() * v) - v; eqv(a, b, "translation"); if (l == 0) vs_eq(w * t, w * v, "translation along the axis");
}
static void exp_(const Vector<3>& v, const Vector<3>& w, double l) { SIM3<> T = SIM3<>::exp(alg(v, w, l)); vs_eq(T.get_scale(), std::exp(l), "scale"); eqm(T.get_rotation().get_matrix(), SO3<>::exp(w).get_matrix(), "rotation"); chk(T, v, w, l); }
H(h_exp) { Vector<3> v, w; fill(v, "v"); fill(w, "w"); double l = vs_real("l"); ASSUME(w * w >= 1e-6); ASSUME(l > 1e-6 || l < -1e-6); exp_(v, w, l); }
H(h_exp_rigid) { Vector<3> v, w; fill(v, "v"); fill(w, "w"); ASSUME(w * w >= 1e-6); exp_(v, w, 0); eqm(mat(SIM3<>::exp(alg(v, w, 0))).slice<0, 0, 4, 4>(), mat(SIM3<>(SO3<>::exp(w), SE3<>::exp(alg(v, w, 0).slice<0, 6>()).get_translation(), 1.)), "exponential of a rigid motion"); }
H(h_exp_scale) { Vector<3> v, w = Zeros; fill(v, "v"); double l = vs_real("l"); ASSUME(l > 1e-6 || l < -1e-6); exp_(v, w, l); }
H(h_exp_trans) { Vector<3> v, w = Zeros; fill(v, "v"); Vector<7> m = alg(v, w, 0); SIM3<> T = SIM3<>::exp(m); Matrix<4> g = Identity; g += hat(m); eqm(mat(T), g, "pure translation"); SIM3<> A(m); eqm(mat(A), g, "constructor from a vector"); Vector<> d(7); d = m; eqm(mat(SIM3<>::exp(d)), g, "run-time sized"); eqv(T.ln(), m, "ln of a translation"); }
H(h_exp_small)
{
	int k = vs_choose("k", 0, 2); double th = vs_real("th"), l = vs_real("l"); ASSUME(th < 1e-6 && th > 1e-12 && l < 1e-6 && l > -1e-6); Vector<3> n = axis(k), v = Zeros; v[(k + 1) % 3] = 1; Vector<3> t = SIM3<>::exp(alg(v, th * n, l)).get_translation(); near_(t[(k + 1) % 3], 1 + l / 2, 1e-10, "small motions"); near_(t[(k + 2) % 3], th / 2, 1e-10, "small motions"); vs_eq(t[k], 0, "small motions");
}
// a tiny log scale with a sizeable angle, and the other way round: to the accuracy of the double
static void mid(double th, double l, double tol)
{
	Vector<3> v = makeVector(0., 1., 0.), w = makeVector(th, 0., 0.); SIM3<> T = SIM3<>::exp(alg(v, w, l)); Vector<3> t = T.get_translation(); double e = std::exp(l), c = std::cos(th), s = std::sin(th);
	near_(l * t[1] - th * t[2], e * c - 1, tol, "translation"); near_(th * t[1] + l * t[2], e * s, tol, "translation"); near_(t[0], 0, 1e-13, "translation");
}
H(h_exp_tiny_l) { double l = vs_real("l"); ASSUME(l > -1e-6 && l < 1e-6); mid(vs_choose("a", 1, 4) * 0.5, l, 1e-13); }
H(h_exp_tiny_th) { double th = vs_real("th"); ASSUME(th > 1e-9 && th < 1e-6); mid(th, vs_choose("a", -2, 1) * 0.5 + 0.25, 1e-13); }
// scale given through its logarithm, rotation rational
static void ln_(int k, double t, double l)
{
	double q = 1 + t * t; Vector<3> n = axis(k); SIM3<> T; set(T.get_rotation(), rot(n, (1 - t * t) / q, 2 * t / q)); fill(T.get_translation(), "p"); T.get_scale() = std::exp(l); Matrix<4> m = mat(T); Vector<7> v = T.ln(); eqm(mat(T), m, "unchanged"); eqv(SIM3<>::ln(T), v, "static and member ln agree"); vs_eq(v[6], l, "log of the scale"); eqv(v.slice<3, 3>(), T.get_rotation().ln(), "rotation part is ln of the rotation"); chk(T, v.slice<0, 3>(), v.slice<3, 3>(), v[6]);
}
H(h_ln) { int k = vs_choose("k", 0, 2); double l = vs_real("l"); ASSUME(l > 1e-3 || l < -1e-3); ln_(k, k == 0 ? 0.5 : k == 1 ? 2 : 0.25, l); }
H(h_ln_rigid) { int k = vs_choose("k", 0, 2); ln_(vs_choose("a", 0, 2), k == 0 ? 0.25 : k == 1 ? 1 : 3, 0); }
extern "C" void ht_ln_rigid() { double t = vs_real("t"); ASSUME(t > 2e-3 && t < 1000); ln_(vs_choose("k", 0, 2), t, 0); }
H(h_ln_scale) { double l = vs_real("l"); ASSUME(l > 1e-3 || l < -1e-3); ln_(0, 0, l); }
extern "C" void ht_ln() { double t = vs_real("t"), l = vs_real("l"); ASSUME(t > 2e-3 && t < 1000); ASSUME(l > 1e-3 || l < -1e-3); ln_(vs_choose("k", 0, 2), t, l); }
H(h_mixed) { SIM3<float> A; Matrix<3, 3, float> a; for (int i = 0; i < 9; i++) a[i / 3][i % 3] = vs_float("a"); const_cast<Matrix<3, 3, float>&>(A.get_rotation().get_matrix()) = a; for (int i = 0; i < 3; i++) A.get_translation()[i] = vs_float("t"); A.get_scale() = vs_float("s"); SIM3<> B = lin(); SIM3<double> P = A * B; Matrix<3> e = a * B.get_rotation().get_matrix(); eqm(P.get_rotation().get_matrix(), e, "mixed product"); Vector<3> t = A.get_translation() + a * (A.get_scale() * B.get_translation()); eqv(P.get_translation(), t, "mixed product"); vs_eq(P.get_scale(), A.get_scale() * B.get_scale(), "mixed product"); }
H(h_float) { Vector<7, float> z; for (int i = 0; i < 3; i++) z[i] = vs_float("z"); for (int i = 3; i < 7; i++) z[i] = 0; SIM3<float> E = SIM3<float>::exp(z); Vector<7, float> l = E.ln(); eqv(l, z, "single precision"); SIM3<float> I; I = Identity; eqv(I.ln(), Vector<7, float>(Zeros), "set to the identity"); SIM3<> J = lin(); J = Identity; eqm(mat(J), Matrix<4>(Identity), "set to the identity"); }
