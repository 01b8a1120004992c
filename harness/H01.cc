// BOUNDS: vectors of size 1..4 and matrices up to 3x3 (up to 9 and 5x6 with one symbolic element) in several storage forms; all values symbolic (every sign pattern and every order of row/column sums)
// OPTS: time=60
#include "hcommon.h"
// concrete but for one element, anywhere
template<class V> static void fillv1(V&& v) { for (int i = 0; i < v.size(); i++) v[i] = (i * 5 + 2) % 7 - 3; int k = vs_choose("k", 0, v.size() - 1); v[k] = vs_real("v"); }
template<class M> static void fillm1(M&& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m(i, j) = (i * 5 + j * 3 + 2) % 7 - 3; int k = vs_choose("k", 0, m.num_rows() * m.num_cols() - 1); m(k / m.num_cols(), k % m.num_cols()) = vs_real("m"); }
static double ab(double x) { return __builtin_fabs(x); }
template<class V> static void nv(V&& v, bool all = true)
{
	if (all) fill(v, "v"); else fillv1(v); const int n = v.size(); double sq = 0, s1 = 0, mx = 0, o[9];
	for (int i = 0; i < n; i++) { o[i] = v[i]; sq += o[i] * o[i]; s1 += ab(o[i]); if (ab(o[i]) > mx) mx = ab(o[i]); }
	vs_eq(norm_sq(v), sq, "norm_sq"); double nn = norm(v); vs_eq(nn * nn, sq, "norm squared"); CHECK(nn >= 0, "norm is non-negative"); vs_eq(norm_2(v), nn, "norm_2");
	vs_eq(norm_1(v), s1, "norm_1"); vs_eq(norm_inf(v), mx, "norm_inf"); for (int i = 0; i < n; i++) vs_eq(v[i], o[i], "unchanged");
}
template<class M> static void nm(M&& m, bool all = true)
{
	if (all) fillm(m, "m"); else fillm1(m); const int R = m.num_rows(), C = m.num_cols(); double sq = 0, n1 = 0, ni = 0;
	for (int i = 0; i < R; i++) { double s = 0; for (int j = 0; j < C; j++) { s += ab(m(i, j)); sq += m(i, j) * m(i, j); } if (s > ni) ni = s; }
	for (int j = 0; j < C; j++) { double s = 0; for (int i = 0; i < R; i++) s += ab(m(i, j)); if (s > n1) n1 = s; }
	double f = norm_fro(m); vs_eq(f * f, sq, "norm_fro squared"); CHECK(f >= 0, "norm_fro non-negative"); vs_eq(norm_inf(m), ni, "norm_inf is the largest row sum"); vs_eq(norm_1(m), n1, "norm_1 is the largest column sum");
}
H(h_v1) { Vector<1> v; nv(v); }
H(h_v3) { Vector<3> v; nv(v); }
H(h_v4) { Vector<> v(4); nv(v); }
H(h_vr) { Vector<Resizable> v(2); nv(v); }
H(h_vs) { Matrix<3> m; nv(m.T()[1]); }
H(h_vsl) { Vector<5> v; nv(v.slice<1, 3>()); }
H(h_0) { Vector<> v(0); vs_eq(norm_sq(v), 0, "empty norm_sq"); vs_eq(norm(v), 0, "empty norm"); vs_eq(norm_1(v), 0, "empty norm_1"); Matrix<> m(0, 0); vs_eq(norm_fro(m), 0, "empty"); vs_eq(norm_inf(m), 0, "empty"); vs_eq(norm_1(m), 0, "empty"); }
H(h_m22) { Matrix<2> m; nm(m); }
H(h_m12) { Matrix<1, 3> m; nm(m); }
H(h_m31) { Matrix<3, 1> m; nm(m); }
H(h_m23d) { Matrix<> m(2, 3); nm(m); }
H(h_mt) { Matrix<2, 2, double, ColMajor> m; nm(m); }
H(h_msl) { Matrix<4> m; nm(m.slice<1, 2, 3, 1>()); nm(m.T().slice<0, 1, 1, 2>()); }
H(h_f) { Vector<2, float> v; v[0] = vs_float("f"); v[1] = vs_float("f"); vs_eq(norm_sq(v), v[0] * v[0] + v[1] * v[1], "float"); Vector<2, int> k; k[0] = vs_int("k", -5, 5); k[1] = vs_int("k", -5, 5); vs_eqi(norm_1(k), (k[0] < 0 ? -k[0] : k[0]) + (k[1] < 0 ? -k[1] : k[1]), "int norm_1"); }
// larger
H(h_b6) { Vector<6> v; nv(v, false); }
H(h_b9) { Vector<> v(9); nv(v, false); }
H(h_b5s) { Matrix<5, 4> m; nv(m.T()[2], false); }
H(h_b56) { Matrix<5, 6> m; nm(m, false); }
H(h_b45) { Matrix<> m(4, 5); nm(m, false); }
H(h_b17) { Matrix<1, 7> m; nm(m, false); Matrix<7, 1, double, ColMajor> n; nm(n, false); }
