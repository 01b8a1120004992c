// BOUNDS: (n up to 6 with one symbolic line) augmented matrices n x (n+k), n = 1..3 (thorough 4), k = 0..7, several storage forms, every pivot order and zero leading elements; all values symbolic
// OPTS: time=60
#include "hcommon.h"
#include <TooN/gauss_jordan.h>
template<class M> static void gj(M&& m, bool fl = true)
{
	if (fl) fillm(m, "m"); const int n = m.num_rows(), C = m.num_cols(), k = C - n; Matrix<> o(n, C); for (int i = 0; i < n; i++) for (int j = 0; j < C; j++) o[i][j] = m(i, j);
	gauss_jordan(m);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(m(i, j), i == j, "left block becomes the identity");
	for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { double s = 0; for (int t = 0; t < n; t++) s += o[i][t] * m(t, n + j); vs_eq(s, o[i][n + j], "A X = B"); }
}
H(h_12) { Matrix<1, 2> m; gj(m); }
H(h_11) { Matrix<1, 3> m; gj(m); }
H(h_23) { Matrix<2, 3> m; gj(m); }
H(h_22) { Matrix<2> m; gj(m); }
H(h_14) { Matrix<1, 4> m; gj(m); }
H(h_15) { Matrix<1, 5> m; gj(m); }
H(h_17) { Matrix<> m(1, 7); gj(m); }
H(h_26) { Matrix<2, 6> m; gj(m); }
H(h_27) { Matrix<2, 7> m; gj(m); }
H(h_d29) { Matrix<> m(2, 9); gj(m); }
H(h_33) { Matrix<3> m; gj(m); }
H(h_35) { Matrix<> m(3, 5); gj(m); }
H(h_38) { Matrix<3, 8> m; gj(m); }
H(h_24) { Matrix<2, 4> m; gj(m); }
H(h_34) { Matrix<3, 4> m; gj(m); }
H(h_36) { Matrix<3, 6> m; gj(m); }
H(h_d34) { Matrix<> m(3, 4); gj(m); }
H(h_c24) { Matrix<2, 4, double, ColMajor> m; gj(m); }
H(h_sl) { Matrix<4, 5> M; fillm(M); Matrix<4, 5> o = M; auto m = M.slice<1, 1, 2, 3>(); gj(m, false); for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) if (i < 1 || i > 2 || j < 1 || j > 3) vs_eq(M[i][j], o[i][j], "outside the view"); }
H(h_inv2) { Matrix<2, 4> m; fillm(m); m.slice<0, 2, 2, 2>() = Identity; Matrix<2> a = m.slice<0, 0, 2, 2>(); gauss_jordan(m); eqm(a * m.slice<0, 2, 2, 2>(), Matrix<2>(Identity), "A A^-1 = I"); eqm(m.slice<0, 2, 2, 2>() * a, Matrix<2>(Identity), "A^-1 A = I"); }
H(h_perm) { static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int p = vs_choose("p", 0, 5); vs_opt("div_strict", 1); Matrix<3, 4> m = Zeros; for (int i = 0; i < 3; i++) { m[P[p][i]][3] = vs_real("b"); for (int j = i; j < 3; j++) m[P[p][i]][j] = vs_real("m"); } for (int i = 0; i < 3; i++) ASSUME(m[P[p][i]][i] > 0.001 || m[P[p][i]][i] < -0.001); gj(m, false); }
H(h_strict2) { vs_opt("div_strict", 1); Matrix<2, 3> m; fillm(m); double d = m[0][0] * m[1][1] - m[0][1] * m[1][0]; ASSUME(d > 0.01 || d < -0.01); gj(m, false); }
extern "C" void ht_45() { Matrix<4, 5> m; gj(m); }
// higher orders
#include "large.h"
template<class M> static void biggj(M&& m) { const int n = m.num_rows(), k = m.num_cols() - n; big(m.slice(0, 0, n, n)); if (k) bigrhs(m.slice(0, n, n, k)); gj(m, false); }
H(h_big4) { Matrix<4, 6> m; biggj(m); }
H(h_big5) { Matrix<5, 6> m; biggj(m); }
H(h_big5d) { Matrix<> m(5, 10); biggj(m); }
extern "C" void ht_big6() { Matrix<6, 9> m; biggj(m); }
