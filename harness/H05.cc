// BOUNDS: square matrices of order 1..7 in several storage forms; vectors of size 3; all values symbolic
#include "hcommon.h"
#include <TooN/gaussian_elimination.h>
#define IJ(n) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
template<class M> static void sq(M&& m)
{
	const int n = m.num_rows(); fillm(m, "m"); double o[7][7], t = 0; IJ(n) o[i][j] = m(i, j); for (int i = 0; i < n; i++) t += o[i][i];
	vs_eq(trace(m), t, "trace"); IJ(n) vs_eq(m(i, j), o[i][j], "trace leaves the matrix alone");
}
template<class M> static void sy(M& m)
{
	const int n = m.num_rows(); fillm(m, "m"); double o[7][7]; IJ(n) o[i][j] = m(i, j);
	Symmetrize(m); IJ(n) { vs_eq(m(i, j), (o[i][j] + o[j][i]) / 2, "Symmetrize"); vs_eq(m(i, j), m(j, i), "symmetric", 0); }
}
H(h_t1) { Matrix<1> m; sq(m); sy(m); }
H(h_t2) { Matrix<2> m; sq(m); sy(m); }
H(h_t4) { Matrix<4> m; sq(m); sy(m); }
H(h_td) { Matrix<> m(3, 3); sq(m); sy(m); }
H(h_tc) { Matrix<3, 3, double, ColMajor> m; sq(m); sy(m); }
H(h_tsl) { Matrix<4> m; sq(m.slice<1, 0, 2, 2>()); sq(m.T()); auto s = m.slice<1, 1, 3, 3>(); sy(s); }
H(h_th) { Matrix<3, Dynamic> m(3, 3); sq(m); sy(m); }
H(h_symsl) { Matrix<4> m; fillm(m); Matrix<4> o = m; auto s = m.slice<0, 1, 2, 2>(); Symmetrize(s); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { bool in = i < 2 && j >= 1 && j < 3; vs_eq(m[i][j], in ? (o[i][j] + o[j - 1][i + 1]) / 2 : o[i][j], "Symmetrize of a view touches the view only"); } }
H(h_badtr) { int r = vs_choose("r", 1, 3), c = vs_choose("c", 1, 3); Matrix<> m(r, c); fillm(m); int bad = r != c; vs_abort_ok(bad); double t = trace(m); CHECK(!bad, "trace of a non-square matrix accepted"); ASSUME(!bad); (void)t; }
H(h_badsy) { int r = vs_choose("r", 1, 3), c = vs_choose("c", 1, 3); Matrix<> m(r, c); fillm(m); int bad = r != c; vs_abort_ok(bad); Symmetrize(m); CHECK(!bad, "Symmetrize of a non-square matrix accepted"); ASSUME(!bad); vs_eq(m[0][0], m[0][0], "value"); }
template<class V> static void cp(V&& v) { fill(v, "v"); Vector<3> w; fill(w, "w"); Matrix<3> X = cross_product_matrix(v); Vector<3> p = X * w, q = makeVector(v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]); eqv(p, q, "cross_product_matrix(v) * w = v ^ w"); Matrix<3> n = X + X.T(); IJ(3) vs_eq(n[i][j], 0, "skew symmetric"); }
H(h_cp) { Vector<3> v; cp(v); Vector<> d(3); cp(d); Matrix<3, 2> m; cp(m.T()[1]); Vector<5> s; cp(s.slice<1, 3>()); Vector<Resizable> r(3); cp(r); }
H(h_cpx) { Vector<3> v, w; fill(v); fill(w); eqv(cross_product_matrix(v) * w, v ^ w, "agrees with operator ^"); }
H(h_badcp) { int n = vs_choose("n", 0, 4); Vector<> v(n); fill(v); int bad = n != 3; vs_abort_ok(bad); Matrix<3> m = cross_product_matrix(v); CHECK(!bad, "cross_product_matrix of a vector that has not 3 elements accepted"); ASSUME(!bad); vs_eq(m[0][0], 0, "value"); }
H(h_inv) { vs_opt("div_strict", 1); Matrix<2> m; fillm(m); double d = m[0][0] * m[1][1] - m[0][1] * m[1][0]; ASSUME(d > 0.001 || d < -0.001); Matrix<2> o = m, i = inv(m); eqm(i * m, Matrix<2>(Identity), "inv(m)*m"); eqm(m * i, Matrix<2>(Identity), "m*inv(m)"); eqm(m, o, "unchanged"); }
// larger
H(h_b5) { Matrix<5> m; sq(m); sy(m); }
H(h_b6) { Matrix<> m(6, 6); sq(m); sy(m); }
H(h_b7) { Matrix<7, 7, double, ColMajor> m; sq(m); sy(m); }
