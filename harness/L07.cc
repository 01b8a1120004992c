// BOUNDS: (up to 5x5 and 4x6 with one symbolic element) matrices 1x1, 1x3, 2x2, 2x3, 2x4, 3x3 (thorough 3x4), static and run-time sized, every storage form of the input, zero columns and columns already reduced included; all values symbolic
// OPTS: time=60
#include "hcommon.h"
#include <TooN/QR.h>
template<int R, int C, class M> static void qr_(const M& m)
{
	const int r = m.num_rows(), c = m.num_cols(); QR<R, C> q(m); const Matrix<R, C>& RR = q.get_R();
	vs_eqi(q.get_Q().num_rows(), r, "Q is square"); vs_eqi(q.get_Q().num_cols(), r, "Q is square"); vs_eqi(RR.num_rows(), r, "R has the shape of A"); vs_eqi(RR.num_cols(), c, "R has the shape of A");
	Matrix<> Q = q.get_Q(), p = Q * RR, o = Q.T() * Q;
	for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { if (i > j) vs_eq(RR[i][j], 0, "R is upper triangular"); vs_eq(p[i][j], m(i, j), "A = Q R"); }
	for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) vs_eq(o[i][j], i == j, "Q is orthogonal");
}
H(h_11) { Matrix<1> m; fillm(m); qr_<1, 1>(m); }
H(h_13) { Matrix<1, 3> m; fillm(m); qr_<1, 3>(m); }
H(h_22) { Matrix<2> m; fillm(m); qr_<2, 2>(m); }
H(h_23) { Matrix<2, 3> m; fillm(m); qr_<2, 3>(m); }
H(h_24d) { Matrix<> m(2, 4); fillm(m); qr_<Dynamic, Dynamic>(m); }
H(h_22c) { Matrix<2, 2, double, ColMajor> m; fillm(m); qr_<2, 2>(m); }
H(h_23t) { Matrix<3, 2> m; fillm(m); qr_<2, 3>(m.T()); }
extern "C" void ht_33() { Matrix<3> m; fillm(m); qr_<3, 3>(m); }
// symbolic upper-left pattern keeps the quick run short: one zero below the diagonal
H(h_33z) { Matrix<3> m; fillm(m); int k = vs_choose("k", 0, 2); static const int P[3][2] = {{1, 0}, {2, 0}, {2, 1}}; m[P[k][0]][P[k][1]] = 0; qr_<3, 3>(m); }
// no division by zero on columns that are zero or already reduced
H(h_s22) { vs_opt("div_strict", 1); Matrix<2> m = Zeros; int k = vs_choose("k", 0, 15); for (int i = 0; i < 4; i++) if (k >> i & 1) { m(i / 2, i % 2) = vs_real("m"); ASSUME(m(i / 2, i % 2) > 0.1 || m(i / 2, i % 2) < -0.1); } qr_<2, 2>(m); }
H(h_s33) { vs_opt("div_strict", 1); Matrix<3> m = Zeros; int k = vs_choose("k", 0, 63); for (int i = 0, q = 0; i < 3; i++) for (int j = 0; j <= i; j++, q++) if (k >> q & 1) { double x = vs_real("m"); ASSUME(x > 0.1 || x < -0.1); m(j, i) = x; } qr_<3, 3>(m); }
H(h_s23) { vs_opt("div_strict", 1); Matrix<2, 3> m = Zeros; int k = vs_choose("k", 0, 63); for (int i = 0; i < 6; i++) if (k >> i & 1) { m(i / 3, i % 3) = vs_real("m"); ASSUME(m(i / 3, i % 3) > 0.1); } qr_<2, 3>(m); }
// larger: triangular but for one element
#include "large.h"
H(h_b33) { Matrix<3> m; bigtri(m, 2); qr_<3, 3>(m); }
H(h_b46) { Matrix<4, 6> m; bigtri(m, 2); qr_<4, 6>(m); }
H(h_b55) { Matrix<5> m; bigtri(m, 3); qr_<5, 5>(m); }
H(h_b45d) { Matrix<> m(4, 5); bigtri(m, 1); qr_<Dynamic, Dynamic>(m); }
