// BOUNDS: (up to 5x5 and 4x6, pivoting included, with one symbolic element) matrices 1x1, 1x3, 2x2, 2x3, 3x3 with and without column pivoting, static and run-time sized, several storage forms of the input, zero columns included; all values symbolic
// LIBS: -llapack -lblas
// OPTS: time=60
#include "lapack_ref.h"
#include <TooN/QR_Lapack.h>
#ifdef VS_SYM
#define EPS 0
#else
#define EPS 1e-9
#endif
template<int R, int C, class M> static void qr_(const M& m, bool piv)
{
	const int r = m.num_rows(), c = m.num_cols(); QR_Lapack<R, C> q(m, piv); const Matrix<R, C, double, ColMajor>& RR = q.get_R(); Vector<C, int> P = q.get_P();
	vs_eqi(q.get_Q().num_rows(), r, "Q is square"); vs_eqi(q.get_Q().num_cols(), r, "Q is square"); vs_eqi(RR.num_rows(), r, "R has the shape of A"); vs_eqi(RR.num_cols(), c, "R has the shape of A"); vs_eqi(P.size(), c, "one entry of P per column");
	int seen[8] = {0, 0, 0, 0, 0, 0, 0, 0}; for (int j = 0; j < c; j++) { CHECK(P[j] >= 0 && P[j] < c, "P holds column numbers"); CHECK(!seen[P[j]], "P is a permutation"); seen[P[j]] = 1; if (!piv) vs_eqi(P[j], j, "no pivoting, no permutation"); }
	Matrix<> Q = q.get_Q(), p = Q * RR, o = Q.T() * Q;
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { if (i > j) vs_eq(RR(i, j), 0, "R is upper triangular"); vs_eq(p[i][j], m(i, P[j]), "A P = Q R"); }
	for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) vs_eq(o[i][j], i == j, "Q is orthogonal");
	// sum over k >= i of R(k,j)^2 <= R(i,i)^2 for every later column j, which makes the diagonal descend in magnitude;
	// in the first row both sides are column norms of A
	if (!piv) return;
	double n0 = 0; for (int k = 0; k < r; k++) n0 += m(k, P[0]) * m(k, P[0]);
	vs_eq(RR(0, 0) * RR(0, 0), n0, "first diagonal element is the norm of the first column");
	for (int j = 1; j < c; j++) { double t = 0, n = 0; for (int k = 0; k < r && k <= j; k++) t += RR(k, j) * RR(k, j); for (int k = 0; k < r; k++) n += m(k, P[j]) * m(k, P[j]); vs_eq(t, n, "column norms are kept"); CHECK(n0 >= n - EPS, "largest column first"); }
	for (int i = 1; i < r; i++) for (int j = i + 1; j < c; j++) { double t = 0; for (int k = i; k < r && k <= j; k++) t += RR(k, j) * RR(k, j); CHECK(RR(i, i) * RR(i, i) >= t - EPS, "largest remaining column next"); }
}

H(h_11) { Matrix<1> m; fillm(m); qr_<1, 1>(m, vs_choose("p", 0, 1)); }
H(h_13) { Matrix<1, 3> m; fillm(m); qr_<1, 3>(m, vs_choose("p", 0, 1)); }
H(h_22) { Matrix<2> m; fillm(m); qr_<2, 2>(m, 0); }
H(h_22p) { Matrix<2> m; fillm(m); qr_<2, 2>(m, 1); }
H(h_23) { Matrix<2, 3> m; fillm(m); qr_<2, 3>(m, 0); }
extern "C" void ht_23p() { Matrix<2, 3> m; fillm(m); qr_<2, 3>(m, 1); }
H(h_23d) { Matrix<> m(2, 3); fillm(m); qr_<Dynamic, Dynamic>(m, 0); }
H(h_22dp) { Matrix<> m(2, 2); fillm(m); qr_<Dynamic, Dynamic>(m, 1); }
H(h_22t) { Matrix<2> m; fillm(m); qr_<2, 2>(m.T(), 0); }
extern "C" void ht_33() { Matrix<3> m; fillm(m); qr_<3, 3>(m, 0); }
H(h_33z) { Matrix<3> m; fillm(m); int k = vs_choose("k", 0, 2); static const int P[3][2] = {{1, 0}, {2, 0}, {2, 1}}; m[P[k][0]][P[k][1]] = 0; qr_<3, 3>(m, 0); }
extern "C" void ht_33p() { Matrix<3> m; fillm(m); qr_<3, 3>(m, 1); }
// pivoting whose order is forced: a column-scaled permutation
H(h_perm) { int u[3] = {0, 0, 0}, a[3]; for (int i = 0; i < 3; i++) { int q = vs_choose("p", 0, 2 - i), t = 0; for (;; t++) if (!u[t] && q-- == 0) break; u[t] = 1; a[i] = t; } double x = vs_real("x"), y = vs_real("y"), z = vs_real("z"); ASSUME(x > y + 0.1 && y > z + 0.1 && z > 0.1); Matrix<3> m = Zeros; m[0][a[0]] = z; m[1][a[1]] = x; m[2][a[2]] = y; QR_Lapack<3> q(m, true); vs_eqi(q.get_P()[0], a[1], "largest column first"); vs_eqi(q.get_P()[1], a[2], "second largest column"); vs_eqi(q.get_P()[2], a[0], "smallest column last"); qr_<3, 3>(m, 1); }
H(h_zero) { vs_opt("div_strict", 1); Matrix<2> m = Zeros; int k = vs_choose("k", 0, 15); for (int i = 0; i < 4; i++) if (k >> i & 1) { m(i / 2, i % 2) = vs_real("m"); ASSUME(m(i / 2, i % 2) > 0.1); } qr_<2, 2>(m, vs_choose("p", 0, 1)); }
// larger: triangular but for one element; pivoting over columns along the axes, one of them of symbolic length
#include "large.h"
H(h_b33) { Matrix<3> m; bigtri(m, 2); qr_<3, 3>(m, 0); }
H(h_b46) { Matrix<4, 6> m; bigtri(m, 2); qr_<4, 6>(m, 0); }
H(h_b55) { Matrix<5> m; bigtri(m, 2); qr_<5, 5>(m, 0); }
H(h_b45d) { Matrix<> m(4, 5); bigtri(m, 1); qr_<Dynamic, Dynamic>(m, 0); }
template<class M> static void axes(M&& m) { static const double V[7] = {3, -5, 1, 8, -2, 4, 0.5}; m = Zeros; const int r = m.num_rows(), c = m.num_cols(); for (int j = 0; j < c; j++) m((j * 2) % r, j) = V[j]; int k = vs_choose("k", 0, c - 1); double t = vs_real("t"); ASSUME(t > -10 && t < 10); m((k * 2) % r, k) = t; }
H(h_p13) { Matrix<1, 4> m; axes(m); qr_<1, 4>(m, 1); }
H(h_p24) { Matrix<2, 4> m; axes(m); qr_<2, 4>(m, 1); }
H(h_p35) { Matrix<3, 5> m; axes(m); qr_<3, 5>(m, 1); }
H(h_p55) { Matrix<5> m; axes(m); qr_<5, 5>(m, 1); }
H(h_p46d) { Matrix<> m(4, 6); axes(m); qr_<Dynamic, Dynamic>(m, 1); }
