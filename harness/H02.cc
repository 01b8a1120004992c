// BOUNDS: vectors of size 2..5 and matrices up to 4x3, static and run-time, contiguous and strided; all values symbolic, divisor and norm bounded away from zero by nothing but being non-zero
#include "hcommon.h"
template<class V> static void un(V&& v)
{
	const int n = v.size(); fill(v, "v"); double o[9], sq = 0; for (int i = 0; i < n; i++) { o[i] = v[i]; sq += o[i] * o[i]; }
	ASSUME(sq > 0.01);
	auto u = unit(v); vs_eqi(u.size(), n, "size"); double s = 0, d = 0; for (int i = 0; i < n; i++) { s += u[i] * u[i]; d += u[i] * o[i]; vs_eq(v[i], o[i], "argument unchanged"); }
	vs_eq(s, 1, "unit length"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(u[i] * o[j], u[j] * o[i], "parallel"); CHECK(d > 0, "same direction");
	normalize(v); for (int i = 0; i < n; i++) vs_eq(v[i], u[i], "normalize equals unit");
}
H(h_un2) { Vector<2> v; un(v); }
H(h_un3) { Vector<3> v; un(v); }
template<class V> static void unt(V&& v) { const int n = v.size(); fill(v, "v"); double o[9], sq = 0; for (int i = 0; i < n; i++) { o[i] = v[i]; sq += o[i] * o[i]; v[i] *= 1e-9; } ASSUME(sq > 0.01); auto u = unit(v); double s = 0; for (int i = 0; i < n; i++) { s += u[i] * u[i]; for (int j = 0; j < i; j++) vs_eq(u[i] * o[j], u[j] * o[i], "parallel"); } vs_eq(s, 1, "unit vector of a tiny vector"); normalize(v); for (int i = 0; i < n; i++) vs_eq(v[i], u[i], "normalize a tiny vector"); }
H(h_unt2) { Vector<2> v; unt(v); }
H(h_unt3) { Vector<> v(3); unt(v); }
H(h_unt4) { Vector<4> v; unt(v); }
H(h_un1) { Vector<1> v; un(v); }
H(h_un5) { Vector<5> v; un(v); }
H(h_un4) { Vector<> v(4); un(v); }
H(h_norm_slice) { Vector<4> v; fill(v); Vector<4> o = v; ASSUME(v[1] * v[1] + v[2] * v[2] > 0.01); normalize(v.slice<1, 2>()); double n = v[1] * v[1] + v[2] * v[2]; vs_eq(n, 1, "unit length"); vs_eq(v[1] * o[2], v[2] * o[1], "parallel"); CHECK(v[1] * o[1] + v[2] * o[2] > 0, "direction"); vs_eq(v[0], o[0], "outside"); vs_eq(v[3], o[3], "outside"); }
H(h_norm_col) { Matrix<3, 2> m; fillm(m); Matrix<3, 2> o = m; ASSUME(m[0][1] * m[0][1] + m[1][1] * m[1][1] + m[2][1] * m[2][1] > 0.01); normalize(m.T()[1]); double n = 0; for (int i = 0; i < 3; i++) { n += m[i][1] * m[i][1]; vs_eq(m[i][0], o[i][0], "outside"); vs_eq(m[i][1] * o[0][1], o[i][1] * m[0][1], "parallel"); } vs_eq(n, 1, "unit length"); }
H(h_unit_slice) { Vector<4> v; fill(v); ASSUME(v[0] * v[0] + v[1] * v[1] > 0.01); Vector<2> u = unit(v.slice<0, 2>()); vs_eq(u * u, 1, "unit length"); vs_eq(u[0] * v[1], u[1] * v[0], "parallel"); }
template<class V> static void pr(V&& v)
{
	vs_opt("div_strict", 1);
	const int n = v.size(); fill(v, "v"); double o[9]; for (int i = 0; i < n; i++) o[i] = v[i]; ASSUME(o[n - 1] != 0);
	auto p = project(v); vs_eqi(p.size(), n - 1, "project size"); for (int i = 0; i < n - 1; i++) vs_eq(p[i] * o[n - 1], o[i], "project"); for (int i = 0; i < n; i++) vs_eq(v[i], o[i], "unchanged");
	auto q = unproject(v); vs_eqi(q.size(), n + 1, "unproject size"); for (int i = 0; i < n; i++) vs_eq(q[i], o[i], "unproject"); vs_eq(q[n], 1, "unproject last"); auto r = project(unproject(v)); vs_eqi(r.size(), n, "size"); for (int i = 0; i < n; i++) vs_eq(r[i], o[i], "project(unproject(v)) = v");
	auto w = unproject(project(v)); for (int i = 0; i < n; i++) vs_eq(w[i] * o[n - 1], o[i], "unproject(project(v)) ~ v");
}
H(h_pr2) { Vector<2> v; pr(v); }
H(h_pr4) { Vector<4> v; pr(v); }
H(h_pr3) { Vector<3> v; pr(v); }
H(h_pr5) { Vector<5> v; pr(v); }
H(h_prd4) { Vector<> v(4); pr(v); }
H(h_prd) { Vector<> v(3); pr(v); }
H(h_prs) { Vector<5> v; pr(v.slice<1, 3>()); }
H(h_prc) { Matrix<3, 2> m; pr(m.T()[1]); }
H(h_pr1) { Vector<1> v; fill(v); auto q = unproject(v); vs_eq(q[0], v[0], "unproject"); vs_eq(q[1], 1, "unproject"); Vector<> e(0); auto u = unproject(e); vs_eqi(u.size(), 1, "unproject of empty"); vs_eq(u[0], 1, "unproject of empty"); }
template<class M> static void prm(M&& m)
{
	vs_opt("div_strict", 1);
	const int R = m.num_rows(), C = m.num_cols(); fillm(m, "m"); double o[5][5]; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) o[i][j] = m(i, j);
	for (int j = 0; j < C; j++) ASSUME(o[R - 1][j] != 0);
	auto p = project(m); vs_eqi(p.num_rows(), R - 1, "rows"); vs_eqi(p.num_cols(), C, "cols"); for (int i = 0; i < R - 1; i++) for (int j = 0; j < C; j++) vs_eq(p(i, j) * o[R - 1][j], o[i][j], "project each column");
	for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) vs_eq(m(i, j), o[i][j], "unchanged");
	auto q = unproject(m); vs_eqi(q.num_rows(), R + 1, "rows"); vs_eqi(q.num_cols(), C, "cols"); for (int j = 0; j < C; j++) { vs_eq(q(R, j), 1, "unproject last row"); for (int i = 0; i < R; i++) vs_eq(q(i, j), o[i][j], "unproject"); }
	auto r = project(q); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) vs_eq(r(i, j), o[i][j], "project(unproject(m)) = m");
}
H(h_md23) { Matrix<> m(2, 3); prm(m); }
H(h_md34) { Matrix<> m(3, 4); prm(m); }
H(h_md4) { Matrix<Dynamic, 4> m(2, 4); prm(m); }
H(h_m25) { Matrix<2, 5> m; prm(m); }
H(h_m33) { Matrix<3> m; prm(m); }
H(h_m42) { Matrix<4, 2> m; prm(m); }
H(h_m21) { Matrix<2, 1> m; prm(m); }
H(h_mdt) { Matrix<> m(4, 2); prm(m.T()); }
H(h_msl) { Matrix<4, 5> m; fillm(m); prm(m.slice(1, 1, 3, 4)); }
H(h_m32) { Matrix<3, 2> m; prm(m); }
H(h_m23) { Matrix<2, 3> m; prm(m); }
H(h_md) { Matrix<> m(3, 2); prm(m); }
H(h_md2) { Matrix<Dynamic, 2> m(2, 2); prm(m); }
H(h_mc) { Matrix<2, 2, double, ColMajor> m; prm(m); }
H(h_mt) { Matrix<2, 3> m; prm(m.T()); }
H(h_msd) { Matrix<3, Dynamic> m(3, 2); prm(m); }
// larger
H(h_un6) { Vector<6> v; un(v); }
H(h_un8) { Vector<> v(8); un(v); }
H(h_pr6) { Vector<6> v; pr(v); }
H(h_pr7) { Vector<> v(7); pr(v); }
