// BOUNDS: every rigid motion of space (any rotation, any translation), points, homogeneous points, matrices with up to 3 columns, every vector and 6x6 matrix for the adjoints, double and float
// OPTS: time=60
#include "hcommon.h"
#include <TooN/se3.h>
static void set(SO3<>& r, const Matrix<3>& m) { const_cast<Matrix<3>&>(r.get_matrix()) = m; }
// matrices without constraint: the laws that hold for any matrix, and with transposition for the inverse
static SE3<> lin(const char* n = "r") { SE3<> r; Matrix<3> m; fillm(m, n); set(r.get_rotation(), m); fill(r.get_translation(), n); return r; }
static Matrix<3> quat(const char* n)
{
	double a = vs_real(n), b = vs_real(n), c = vs_real(n), q = 1 + a * a + b * b + c * c; Matrix<3> m;
	m[0][0] = (1 + a * a - b * b - c * c) / q; m[0][1] = 2 * (a * b - c) / q; m[0][2] = 2 * (a * c + b) / q; m[1][0] = 2 * (a * b + c) / q; m[1][1] = (1 - a * a + b * b - c * c) / q; m[1][2] = 2 * (b * c - a) / q; m[2][0] = 2 * (a * c - b) / q; m[2][1] = 2 * (b * c + a) / q; m[2][2] = (1 - a * a - b * b + c * c) / q; return m;
}
static SE3<> rat(const char* n = "q") { SE3<> r; set(r.get_rotation(), quat(n)); fill(r.get_translation(), n); return r; }
static Matrix<4> mat(const SE3<>& s) { Matrix<4> m; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) m[i][j] = s.get_rotation().get_matrix()[i][j]; m[i][3] = s.get_translation()[i]; m[3][i] = 0; } m[3][3] = 1; return m; }
template<class V> static Matrix<4> hat(const V& v) { Matrix<4> h = Zeros; for (int i = 0; i < 6; i++) h += v[i] * SE3<>::generator(i); return h; }
H(h_id) { SE3<> I; eqm(mat(I), Matrix<4>(Identity), "default is the identity"); Vector<6> z = Zeros; eqm(mat(SE3<>::exp(z)), Matrix<4>(Identity), "exp 0"); eqv(I.ln(), z, "ln of the identity"); Vector<3> t; fill(t, "t"); Vector<3> k = Zeros; SO3<> R; set(R, quat("q")); SE3<> A(R, t); eqm(A.get_rotation().get_matrix(), R.get_matrix(), "rotation and translation constructor"); eqv(A.get_translation(), t, "rotation and translation constructor"); SE3<> B(Identity, t); eqm(B.get_rotation().get_matrix(), Matrix<3>(Identity), "identity and translation constructor"); eqv(B.get_translation(), t, "identity and translation constructor"); }
H(h_prod)
{
	SE3<> A = lin(), B = lin(); Matrix<4> a = mat(A), b = mat(B), ab = a * b; eqm(mat(A * B), ab, "product"); SE3<> D = A; D *= B; eqm(mat(D), ab, "*="); D = A; D *= D; eqm(mat(D), a * a, "*= with itself"); D = B; D.left_multiply_by(A); eqm(mat(D), ab, "left_multiply_by"); D = A; D.left_multiply_by(D); eqm(mat(D), a * a, "left_multiply_by itself"); eqm(mat(A), a, "operands unchanged"); eqm(mat(B), b, "operands unchanged");
	SE3<> R(B.get_rotation(), makeVector(0., 0., 0.)); eqm(mat(B.get_rotation() * A), mat(R) * a, "rotation times motion");
}
H(h_inv) { SE3<> A = rat(); Matrix<4> a = mat(A); eqm(mat(A * A.inverse()), Matrix<4>(Identity), "A A^-1"); eqm(mat(A.inverse() * A), Matrix<4>(Identity), "A^-1 A"); eqm(mat(A), a, "unchanged"); SE3<> L = lin(); eqm(L.inverse().get_rotation().get_matrix(), L.get_rotation().get_matrix().T(), "inverse rotation"); eqv(L.inverse().get_translation(), -(L.get_rotation().get_matrix().T() * L.get_translation()), "inverse translation"); }
H(h_act)
{
	SE3<> A = lin(); Matrix<4> m = mat(A); Vector<3> p; fill(p, "p"); eqv(A * p, A.get_rotation().get_matrix() * p + A.get_translation(), "point"); Vector<4> v; fill(v, "v"); Vector<4> r = m * v, l = v * m; eqv(A * v, r, "A v"); eqv(v * A, l, "v A"); Vector<> d(4); d = v; eqv(A * d, r, "run-time sized"); eqv(d * A, l, "run-time sized"); Vector<6> b; fill(b, "b"); eqv(A * b.slice<1, 4>(), m * b.slice<1, 4>(), "slice"); eqv(b.slice<1, 4>() * A, b.slice<1, 4>() * m, "slice"); eqv(A * b.slice<2, 3>(), A * Vector<3>(b.slice<2, 3>()), "slice of three");
	v = A * v; eqv(v, r, "result over argument"); v = d; v = v * A; eqv(v, l, "result over argument"); p = A * p;
	// assigned into slices of more storage
	Vector<6> o; fill(o, "o"); double o0 = o[0], o5 = o[5]; o.slice<1, 4>() = A * d; eqv(o.slice<1, 4>(), r, "assigned to a slice"); vs_eq(o[0], o0, "around the slice"); vs_eq(o[5], o5, "around the slice");
}
H(h_actm)
{
	SE3<> A = lin(); Matrix<4> m = mat(A); Matrix<4, 2> M; fillm(M); eqm(A * M, m * M, "A M"); Matrix<2, 4> N; fillm(N); eqm(N * A, N * m, "M A"); Matrix<> L(4, 3); fillm(L); eqm(A * L, m * L, "run-time sized"); eqm(L.T() * A, L.T() * m, "run-time sized view"); Matrix<4, 2, double, ColMajor> C; fillm(C); eqm(A * C, m * C, "column major");
	Matrix<4> S; fillm(S); Matrix<4> E = m * S; S = A * S; eqm(S, E, "result over argument");
}
H(h_gen)
{
	for (int i = 0; i < 6; i++) { Matrix<4> g = SE3<>::generator(i); Matrix<4> e = Zeros; if (i < 3) e[i][3] = 1; else { Vector<3> u = Zeros, c; u[i - 3] = 1; for (int j = 0; j < 3; j++) { Vector<3> w = Zeros; w[j] = 1; c = u ^ w; for (int k = 0; k < 3; k++) e[k][j] = c[k]; } } eqm(g, e, "generator"); Vector<4> p; fill(p, "p"); eqv(SE3<>::generator_field(i, p), g * p, "generator_field"); }
}
H(h_adj)
{
	SE3<> A = rat(); Vector<6> v; fill(v, "v"); eqm(hat(A.adjoint(v)), mat(A) * hat(v) * mat(A.inverse()), "hat(Ad v) = A hat(v) A^-1"); Vector<> d(6); d = v; eqv(A.adjoint(d), A.adjoint(v), "run-time sized"); Vector<8> b; fill(b); b.slice<1, 6>() = v; eqv(A.adjoint(b.slice<1, 6>()), A.adjoint(v), "slice");
}
H(h_triadj) { SE3<> A = rat(); Vector<6> v, w; fill(v, "v"); fill(w, "w"); vs_eq(A.trinvadjoint(w) * A.adjoint(v), w * v, "trinvadjoint keeps the product with adjoint"); Vector<> d(6); d = w; eqv(A.trinvadjoint(d), A.trinvadjoint(w), "run-time sized"); }
H(h_adjm)
{
	SE3<> A = lin(); Matrix<6> M, K; fillm(M); K = M; Matrix<6> T, U; for (int i = 0; i < 6; i++) { Vector<6> e = Zeros; e[i] = 1; T.T()[i] = A.adjoint(e); U.T()[i] = A.trinvadjoint(e); }
	eqm(A.adjoint(M), T * M * T.T(), "adjoint of a matrix"); eqm(A.trinvadjoint(M), U * M * U.T(), "trinvadjoint of a matrix"); eqm(M, K, "unchanged"); Matrix<> D(6, 6); D = M; eqm(A.adjoint(D), T * M * T.T(), "run-time sized"); eqm(A.trinvadjoint(D), U * M * U.T(), "run-time sized"); eqm(A.adjoint(M.T()), T * M.T() * T.T(), "view");
}
H(h_homo) { SE3<> A = rat("a"), B = rat("b"); Vector<6> v; fill(v, "v"); eqv((A * B).adjoint(v), A.adjoint(B.adjoint(v)), "Ad(AB) = Ad A Ad B"); }
H(h_mixed) { SE3<float> A; Matrix<3, 3, float> a; for (int i = 0; i < 9; i++) a[i / 3][i % 3] = vs_float("a"); const_cast<Matrix<3, 3, float>&>(A.get_rotation().get_matrix()) = a; for (int i = 0; i < 3; i++) A.get_translation()[i] = vs_float("t"); SE3<> B = lin(); SE3<double> P = A * B; Matrix<3> e = a * B.get_rotation().get_matrix(); eqm(P.get_rotation().get_matrix(), e, "mixed product"); Vector<3> t = A.get_translation() + a * B.get_translation(); eqv(P.get_translation(), t, "mixed product"); }
H(h_size)
{
	int n = vs_choose("n", 0, 6), k = vs_choose("k", 0, 5); SE3<> I; Vector<> v(n); fill(v); Matrix<> M(n, 2); fillm(M); int bad = k < 4 ? n != 4 : n != 6; vs_abort_ok(bad);
	if (k == 0) { Vector<4> w = I * v; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
	if (k == 1) { Vector<4> w = v * I; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
	if (k == 2) { Matrix<4, 2> w = I * M; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M, "identity"); }
	if (k == 3) { Matrix<2, 4> w = M.T() * I; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M.T(), "identity"); }
	if (k == 4) { Vector<6> w = I.adjoint(v); CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
	if (k == 5) { Vector<6> w = I.trinvadjoint(v); CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); }
}
H(h_size2) { int n = vs_choose("n", 5, 7), m = vs_choose("m", 5, 7), k = vs_choose("k", 0, 2), bad = n != 6 || m != 6; SE3<> I; Matrix<> M(n, m); fillm(M); vs_abort_ok(bad); Matrix<6> W = Zeros; if (k == 0) W = I.adjoint(M); if (k == 1) W = I.trinvadjoint(M); if (k == 2) { bad = n != 6; vs_abort_ok(bad); Vector<> v(n); for (int i = 0; i < n; i++) v[i] = 0; SE3<>::exp(v); CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); return; } CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(W, M, "identity"); }
