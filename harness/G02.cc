// BOUNDS: every rigid motion of the plane (any angle, any translation), points, homogeneous points, matrices with up to 3 columns, every vector of the algebra; exp: all |theta| with exact closed form for theta^2 >= 1e-6 and series bounds below
// OPTS: time=60
#include "hcommon.h"
#include <TooN/so2.h>
#include <TooN/se2.h>
static SE2<> any(const char* n = "T") { double a = vs_real(n); Vector<2> t; fill(t, n); return SE2<>(SO2<>(a), t); }
// any rotation but the half turn; the coercion is of no concern here
static SE2<> anyrat() { double t = vs_real("t"), q = 1 + t * t; Matrix<2> m; m[0][0] = m[1][1] = (1 - t * t) / q; m[1][0] = 2 * t / q; m[0][1] = -m[1][0]; Vector<2> u; fill(u, "u"); return SE2<>(SO2<>(m), u); }
static Matrix<3> mat(const SE2<>& T) { Matrix<3> m = Identity; m.slice<0, 0, 2, 2>() = T.get_rotation().get_matrix(); m.T()[2].slice<0, 2>() = T.get_translation(); return m; }
static Matrix<3> hat(const Vector<3>& v) { Matrix<3> m = Zeros; for (int i = 0; i < 3; i++) m += v[i] * SE2<>::generator(i); return m; }
H(h_id) { SE2<> I; eqm(mat(I), Matrix<3>(Identity), "default is the identity"); Vector<3> z = Zeros; eqm(mat(SE2<>::exp(z)), Matrix<3>(Identity), "exp 0"); eqv(I.ln(), z, "ln of the identity"); }
H(h_group)
{
	SE2<> A = any(), B = any(), C = any(); eqm(mat(A * B), mat(A) * mat(B), "product"); eqm(mat((A * B) * C), mat(A * (B * C)), "associative");
	eqm(mat(A.inverse()) * mat(A), Matrix<3>(Identity), "inverse"); eqm(mat(A * A.inverse()), Matrix<3>(Identity), "A A^-1"); eqm(mat(A.inverse().inverse()), mat(A), "inverse twice");
	SE2<> D = A; D *= B; eqm(mat(D), mat(A * B), "*="); D = A; D *= D; eqm(mat(D), mat(A) * mat(A), "*= with itself"); D = A; D = D * D; eqm(mat(D), mat(A) * mat(A), "T = T * T");
	SO2<> r(vs_real("r")); SE2<> R(r, Vector<2>(Zeros)); eqm(mat(r * A), mat(R * A), "rotation times motion");
}
H(h_act)
{
	SE2<> A = any(); Matrix<3> M = mat(A); Vector<2> p; fill(p, "p"); Vector<3> h = makeVector(p[0], p[1], 1); Vector<2> q = A * p; eqv(q, (M * h).slice<0, 2>(), "acts on points"); Vector<3> v; fill(v, "v"); eqv(A * v, M * v, "acts on homogeneous points"); eqv(v * A, v * M, "acts from the right");
	Vector<> d(3); d = v; eqv(A * d, M * v, "run-time sized"); eqv(d * A, v * M, "run-time sized"); v = A * v; eqv(v, M * d, "result over argument");
	Matrix<3, 2> N; fillm(N); eqm(A * N, M * N, "acts on columns"); Matrix<2, 3> K; fillm(K); eqm(K * A, K * M, "acts on rows"); Matrix<> L(3, 1); fillm(L); eqm(A * L, M * L, "run-time sized"); Matrix<> U(1, 3); fillm(U); eqm(U * A, U * M, "run-time sized");
	Vector<5> big; fill(big, "b"); eqv(A * big.slice<1, 3>(), M * big.slice<1, 3>(), "slice"); Matrix<3> F; fillm(F); eqm(A * F.T(), M * F.T(), "transposed view");
}
H(h_adj)
{
	SE2<> A = any(); Vector<3> v; fill(v, "v"); Vector<3> a = A.adjoint(v); eqm(hat(a), mat(A) * hat(v) * mat(A.inverse()), "hat(Ad v) = T hat(v) T^-1");
	Matrix<3> M; fillm(M); Matrix<3> Ad; for (int i = 0; i < 3; i++) { Vector<3> e = Zeros; e[i] = 1; Ad.T()[i] = A.adjoint(e); } Matrix<3> r = A.adjoint(M); eqm(r, Ad * M * Ad.T(), "adjoint of a matrix is Ad M Ad^T");
}
H(h_gen) { for (int i = 0; i < 3; i++) { Matrix<3> g = SE2<>::generator(i); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) vs_eq(g[r][c], (i < 2 && r == i && c == 2) || (i == 2 && r == 1 && c == 0) ? 1 : i == 2 && r == 0 && c == 1 ? -1 : 0, "generator"); } }
// exp is a one parameter subgroup with derivative hat(mu) at the origin
H(h_exp1) { Vector<3> m; fill(m, "m"); double s = vs_real("s"), t = vs_real("t"); ASSUME(s * s * m[2] * m[2] > 1e-5); ASSUME(t * t * m[2] * m[2] > 1e-5); ASSUME((s + t) * (s + t) * m[2] * m[2] > 1e-5); eqm(mat(SE2<>::exp(m * s) * SE2<>::exp(m * t)), mat(SE2<>::exp(m * (s + t))), "exp(s m) exp(t m) = exp((s + t) m)"); eqm(mat(SE2<>::exp(m * s).inverse()), mat(SE2<>::exp(m * -s)), "exp(-m)"); }
H(h_exp0) { Vector<3> m = Zeros; m[0] = vs_real("x"); m[1] = vs_real("y"); Matrix<3> g = Identity; g += hat(m); eqm(mat(SE2<>::exp(m)), g, "pure translation"); SE2<> T(m); eqm(mat(T), g, "constructor from a vector"); Vector<> d(3); d = m; eqm(mat(SE2<>::exp(d)), g, "run-time sized"); }
H(h_explin)
{
	double th = vs_real("th"), x = vs_real("x"), y = vs_real("y"); Vector<3> a = makeVector(1, 0, th), b = makeVector(0, 1, th), m = makeVector(x, y, th); Vector<2> A = SE2<>::exp(a).get_translation(), B = SE2<>::exp(b).get_translation();
	eqv(SE2<>::exp(m).get_translation(), m[0] * A + m[1] * B, "translation linear in its part of the algebra"); vs_eq(B[0], -A[1], "translation turns with its argument"); vs_eq(B[1], A[0], "translation turns with its argument"); eqm(SE2<>::exp(m).get_rotation().get_matrix(), SO2<>(th).get_matrix(), "rotation of the exponential");
	double q = th * th; if (q >= 1e-6) { vs_eq(A[0] * th, sin(th), "A theta = sin theta"); vs_eq(A[1] * th, 1 - cos(th), "B theta^2 = 1 - cos theta"); return; }
	near_(A[0], 1 - q / 6 + q * q / 120, 2e-9, "sin(theta)/theta"); ASSUME(th > 1e-6 || th < -1e-6); near_(A[1] / th, 0.5 - q / 24 + q * q / 720, 1e-9, "(1-cos(theta))/theta^2");
}
H(h_exp_mid) { double th = vs_real("th"); ASSUME(th > 1e-3 && th < 0.7); SE2<> T = SE2<>::exp(makeVector(1., 0., th)); Vector<2> t = T.get_translation(); near_(t[0] * th, std::sin(th), 1e-13, "along the translation"); near_(t[1] * th, 1 - std::cos(th), 1e-13, "across the translation"); near_(T.get_rotation().get_matrix()[0][0], std::cos(th), 1e-13, "cosine of the angle"); near_(T.get_rotation().get_matrix()[1][0], std::sin(th), 1e-13, "sine of the angle"); }
H(h_ln)
{
	SE2<> T = anyrat(); Vector<3> l = T.ln(); vs_le(l[2], M_PI, "angle in (-pi, pi]", 1e-9); vs_le(-M_PI, l[2], "angle in (-pi, pi]", 1e-9); vs_eq(l[2], T.get_rotation().ln(), "angle"); eqv(SE2<>::ln(T), l, "static and member ln agree");
	if (l[2] * l[2] < 1e-5) { Vector<2> t = T.get_translation(); double n = t * t, k = l[0] * l[0] + l[1] * l[1]; if (l[2] * l[2] < 1e-10) vs_le((k - n) * (k - n), 1e-18 * n * n, "almost no rotation", 0); return; }
	eqm(mat(SE2<>::exp(l)), mat(T), "exp(ln T) = T");
}
H(h_lnpi) { Matrix<2> m = -1 * Identity(2); Vector<2> u; fill(u, "u"); SE2<> T(SO2<>(m), u); Vector<3> l = T.ln(); vs_eq(l[2] * l[2], M_PI * M_PI, "half turn"); eqm(mat(SE2<>::exp(l)), mat(T), "exp(ln T) = T"); }
H(h_mixed) { float fa = vs_float("a"), fx = vs_float("x"), fy = vs_float("y"); SE2<float> A(SO2<float>(fa), makeVector(fx, fy)); SE2<> B = any(); SE2<double> P = A * B; Matrix<2> r = P.get_rotation().get_matrix(); eqm(r, A.get_rotation().get_matrix() * B.get_rotation().get_matrix(), "mixed product"); eqv(P.get_translation(), A.get_translation() + A.get_rotation() * B.get_translation(), "mixed product"); }
H(h_size) { int n = vs_choose("n", 0, 5), k = vs_choose("k", 0, 4); int bad = n != 3; SE2<> I; Vector<> v(n); fill(v); Matrix<> M(n, 2); fillm(M); vs_abort_ok(bad); if (k == 0) { Vector<3> w = I * v; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); } if (k == 1) { Vector<3> w = v * I; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); } if (k == 2) { Matrix<3, 2> w = I * M; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M, "identity"); } if (k == 3) { Matrix<2, 3> w = M.T() * I; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M.T(), "identity"); } if (k == 4) { for (int i = 0; i < n; i++) v[i] = 0; SE2<> w = SE2<>::exp(v); CHECK(!bad, "vectors of another size stop the program"); } }
