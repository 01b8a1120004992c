// BOUNDS: matrices up to 4x5, vectors up to 6; every static view form; run-time slices with every in-range start/length (symbolic); nesting depth up to 4
#include "hcommon.h"
// p and q designate the same element: same value, and a write through one is seen through the other
static void same(double& p, double& q, const char* l)
{
	vs_eq(p, q, l, 0);
	CHECK(&p == &q, l);
}
#define SAME(a, b, l) same(a, b, l)
template<class M> void transpose(M&& m)
{
	const auto& cm = m;
	vs_eqi(m.T().num_rows(), m.num_cols(), "T rows");
	vs_eqi(m.T().num_cols(), m.num_rows(), "T cols");
	for (int r = 0; r < m.num_rows(); r++) for (int c = 0; c < m.num_cols(); c++) {
		SAME(m.T()(c, r), m(r, c), "T");
		SAME(m.T()[c][r], m(r, c), "T row");
		SAME(m.T().T()(r, c), m(r, c), "T twice");
		SAME(m.T()[c].slice(r, 1)[0], m(r, c), "slice of row of T");
		vs_eq(cm.T()(c, r), m(r, c), "const T", 0);
	}
}
template<class M> void dynslice(M&& m)
{
	int R = m.num_rows(), C = m.num_cols();
	int r0 = vs_int("r0", 0, R), rl = vs_int("rl", 0, R), c0 = vs_int("c0", 0, C), cl = vs_int("cl", 0, C);
	ASSUME(r0 + rl <= R); ASSUME(c0 + cl <= C);
	auto s = m.slice(r0, c0, rl, cl);
	const auto& cm = m;
	vs_eqi(s.num_rows(), rl, "slice rows");
	vs_eqi(s.num_cols(), cl, "slice cols");
	for (int r = 0; r < rl; r++) for (int c = 0; c < cl; c++) {
		SAME(s(r, c), m(r0 + r, c0 + c), "dynamic slice");
		SAME(s[r][c], m(r0 + r, c0 + c), "dynamic slice []");
		SAME(s.T()[c][r], m(r0 + r, c0 + c), "T of slice");
		vs_eq(cm.slice(r0, c0, rl, cl)[r][c], m(r0 + r, c0 + c), "const dynamic slice", 0);
	}
}
template<int R0, int C0, int RL, int CL, class M> void statslice(M&& m)
{
	const auto& cm = m;
	auto s = m.template slice<R0, C0, RL, CL>();
	vs_eqi(s.num_rows(), RL, "slice rows");
	vs_eqi(s.num_cols(), CL, "slice cols");
	for (int r = 0; r < RL; r++) for (int c = 0; c < CL; c++) {
		SAME(s(r, c), m(R0 + r, C0 + c), "static slice");
		SAME((m.T().template slice<C0, R0, CL, RL>()(c, r)), m(R0 + r, C0 + c), "static slice of T");
		vs_eq((cm.template slice<R0, C0, RL, CL>()[r][c]), m(R0 + r, C0 + c), "const static slice", 0);
		SAME((m.template slice<R0, C0, RL, CL>().slice(r, c, RL - r, CL - c)(0, 0)), m(R0 + r, C0 + c), "slice of slice");
		SAME((m.template slice<R0, C0, RL, CL>().T().slice(c, r, 1, 1).T()(0, 0)), m(R0 + r, C0 + c), "T of slice of T of slice");
		SAME((m[R0 + r].template slice<C0, CL>()[c]), m(R0 + r, C0 + c), "slice of row");
		SAME((m.T()[C0 + c].template slice<R0, RL>()[r]), m(R0 + r, C0 + c), "slice of column");
	}
	for (int i = 0; i < RL && i < CL; i++) SAME(s.diagonal_slice()[i], m(R0 + i, C0 + i), "diagonal of slice");
}
template<class M> void diag(M&& m)
{
	int n = m.num_rows() < m.num_cols() ? m.num_rows() : m.num_cols();
	const auto& cm = m;
	vs_eqi(m.diagonal_slice().size(), n, "diagonal length");
	vs_eqi(m.T().diagonal_slice().size(), n, "diagonal length of T");
	for (int i = 0; i < n; i++) {
		SAME(m.diagonal_slice()[i], m(i, i), "diagonal");
		SAME(m.T().diagonal_slice()[i], m(i, i), "diagonal of T");
		vs_eq(cm.diagonal_slice()[i], m(i, i), "const diagonal", 0);
		SAME(m.diagonal_slice().slice(i, n - i)[0], m(i, i), "slice of diagonal");
	}
}
template<class M> void rows(M&& m)
{
	for (int r = 0; r < m.num_rows(); r++) {
		vs_eqi(m[r].size(), m.num_cols(), "row length");
		for (int c = 0; c < m.num_cols(); c++) {
			SAME(m[r][c], m(r, c), "row element");
			SAME(m[r].as_row()(0, c), m(r, c), "row as row matrix");
			SAME(m[r].as_col()(c, 0), m(r, c), "row as column matrix");
			SAME(m.T()[c].as_col()(r, 0), m(r, c), "column as column matrix");
			SAME(m[r].as_diagonal()[c], m(r, c), "row as diagonal");
		}
	}
}
template<class M> void allviews(M&& m) { fillm(m); transpose(m); diag(m); rows(m); }
#define EACH(name, F) \
H(h_##name##_s) { Matrix<3, 4> m; fillm(m); F(m); } \
H(h_##name##_c) { Matrix<3, 4, double, ColMajor> m; fillm(m); F(m); } \
H(h_##name##_d) { Matrix<> m(4, 3); fillm(m); F(m); } \
H(h_##name##_dc) { Matrix<Dynamic, Dynamic, double, ColMajor> m(4, 3); fillm(m); F(m); } \
H(h_##name##_h1) { Matrix<3, Dynamic> m(3, 4); fillm(m); F(m); } \
H(h_##name##_h2) { Matrix<Dynamic, 4> m(3, 4); fillm(m); F(m); } \
H(h_##name##_h3) { Matrix<3, Dynamic, double, ColMajor> m(3, 4); fillm(m); F(m); } \
H(h_##name##_h4) { Matrix<Dynamic, 4, double, ColMajor> m(3, 4); fillm(m); F(m); } \
H(h_##name##_t) { Matrix<3, 4> m; fillm(m); F(m.T()); } \
H(h_##name##_sl) { Matrix<4, 5> m; fillm(m); F(m.slice<1, 1, 3, 4>()); } \
H(h_##name##_slc) { Matrix<4, 5, double, ColMajor> m; fillm(m); F(m.slice(1, 1, 3, 4)); } \
H(h_##name##_sld) { Matrix<> m(5, 4); fillm(m); F(m.slice<1, 0, 4, 3>()); } \
H(h_##name##_std) { Matrix<> m(5, 4); fillm(m); F(m.T().slice(0, 1, 3, 4)); } \
H(h_##name##_w) { double a[12]; for (int i = 0; i < 12; i++) a[i] = vs_real("a"); F(wrapMatrix<3, 4>(a)); } \
H(h_##name##_wd) { double a[12]; for (int i = 0; i < 12; i++) a[i] = vs_real("a"); F(wrapMatrix(a, 3, 4)); } \
H(h_##name##_wc) { double a[12]; for (int i = 0; i < 12; i++) a[i] = vs_real("a"); F(Matrix<3, 4, double, Reference::ColMajor>(a)); }
EACH(views, allviews)
EACH(dyn, dynslice)
template<class M> void S1(M&& m) { statslice<0, 1, 2, 2>(m); }
template<class M> void S2(M&& m) { statslice<1, 0, 2, 3>(m); }
EACH(st1, S1)
EACH(st2, S2)
// mixed static / dynamic slice parameters
H(h_mixed) {
	Matrix<4, 5> m; fillm(m);
	int c0 = vs_int("c0", 0, 3);
	auto s = m.slice<1, Dynamic, 2, 2>(1, c0, 2, 2);
	auto t = m.slice<Dynamic, 0, Dynamic, 3>(1, 0, 2, 3);
	for (int r = 0; r < 2; r++) { for (int c = 0; c < 2; c++) SAME(s(r, c), m(1 + r, c0 + c), "half dynamic slice"); for (int c = 0; c < 3; c++) SAME(t(r, c), m(1 + r, c), "half dynamic slice"); }
}
// vector views
template<class V> void vviews(V&& v)
{
	int n = v.size();
	const auto& k = v;
	int s = vs_int("s", 0, n), l = vs_int("l", 0, n);
	ASSUME(s + l <= n);
	auto x = v.slice(s, l);
	vs_eqi(x.size(), l, "slice length");
	for (int i = 0; i < l; i++) { SAME(x[i], v[s + i], "dynamic slice"); vs_eq(k.slice(s, l)[i], v[s + i], "const dynamic slice", 0); SAME(x.slice(i, l - i)[0], v[s + i], "slice of slice"); }
	auto y = v.template slice<1, 3>();
	vs_eqi(y.size(), 3, "static slice length");
	for (int i = 0; i < 3; i++) { SAME(y[i], v[1 + i], "static slice"); vs_eq((k.template slice<1, 3>()[i]), v[1 + i], "const static slice", 0); SAME((y.template slice<1, 2>()[i ? i - 1 : 0]), v[1 + (i ? i : 1)], "static slice of slice"); }
	auto z = v.template slice<Dynamic, 2>(1, 2);
	SAME(z[0], v[1], "half static slice"); SAME(z[1], v[2], "half static slice");
	auto z2 = v.template slice<2, Dynamic>(2, 2);
	vs_eqi(z2.size(), 2, "half static slice length"); SAME(z2[0], v[2], "half static slice"); SAME(z2[1], v[3], "half static slice");
	vs_eqi(v.as_row().num_rows(), 1, "row rows"); vs_eqi(v.as_row().num_cols(), n, "row cols");
	vs_eqi(v.as_col().num_rows(), n, "col rows"); vs_eqi(v.as_col().num_cols(), 1, "col cols");
	for (int i = 0; i < n; i++) {
		SAME(v.as_row()(0, i), v[i], "as_row"); SAME(v.as_row()[0][i], v[i], "as_row []"); SAME(v.as_col()(i, 0), v[i], "as_col"); SAME(v.as_col()[i][0], v[i], "as_col []");
		SAME(v.as_row().T()(i, 0), v[i], "as_row T"); SAME(v.as_col().T()[0][i], v[i], "as_col T");
		vs_eq(k.as_row()(0, i), v[i], "const as_row", 0); vs_eq(k.as_col()[i][0], v[i], "const as_col", 0);
		SAME(v.as_slice()[i], v[i], "as_slice"); SAME(v.as_diagonal()[i], v[i], "as_diagonal"); SAME(v.as_diagonal().diagonal_slice()[i], v[i], "diagonal_slice of as_diagonal");
		vs_eq(k.as_slice()[i], v[i], "const as_slice", 0); vs_eq(k.as_diagonal()[i], v[i], "const as_diagonal", 0);
	}
}
H(h_vec_s) { Vector<5> v; fill(v); vviews(v); }
H(h_vec_d) { Vector<> v(5); fill(v); vviews(v); }
H(h_vec_sl) { Vector<6> v; fill(v); vviews(v.slice<1, 4>()); }
H(h_vec_dsl) { Vector<> v(6); fill(v); vviews(v.slice(1, 4)); }
H(h_vec_row) { Matrix<2, 4> m; fillm(m); vviews(m[1]); }
H(h_vec_col) { Matrix<4, 3> m; fillm(m); vviews(m.T()[1]); }
H(h_vec_cold) { Matrix<> m(4, 3); fillm(m); vviews(m.T()[2]); }
H(h_vec_diag) { Matrix<4> m; fillm(m); vviews(m.diagonal_slice()); }
H(h_vec_diagd) { Matrix<> m(4, 5); fillm(m); vviews(m.diagonal_slice()); }
H(h_vec_w) { double a[4]; for (int i = 0; i < 4; i++) a[i] = vs_real("a"); vviews(wrapVector<4>(a)); }
H(h_vec_wd) { double a[4]; for (int i = 0; i < 4; i++) a[i] = vs_real("a"); vviews(wrapVector(a, 4)); }
// writing to a whole view changes exactly the viewed elements
H(h_assign) {
	Matrix<3, 4> m, o; fillm(m); o = m;
	Matrix<2> x; fillm(x, "x");
	Vector<2> y; fill(y, "y");
	m.slice<1, 2, 2, 2>() = x;
	for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) vs_eq(m[r][c], r >= 1 && c >= 2 ? x[r - 1][c - 2] : o[r][c], "slice assignment", 0);
	o = m;
	m.T().slice(0, 0, 2, 2) = x;
	for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) vs_eq(m[r][c], r < 2 && c < 2 ? x[c][r] : o[r][c], "transposed slice assignment", 0);
	o = m;
	m.diagonal_slice().slice<1, 2>() = y;
	for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) vs_eq(m[r][c], r == c && r >= 1 ? y[r - 1] : o[r][c], "diagonal assignment", 0);
	o = m;
	m.T()[3].slice<0, 2>() = y;
	for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) vs_eq(m[r][c], c == 3 && r < 2 ? y[r] : o[r][c], "column assignment", 0);
	o = m;
	m[2].slice(1, 2) *= y[0];
	for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) vs_eq(m[r][c], r == 2 && c >= 1 && c <= 2 ? o[r][c] * y[0] : o[r][c], "scaling a view", 0);
}
