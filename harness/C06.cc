// FLAGS: -DTOON_CHECK_BOUNDS
// BOUNDS: every 32-bit index (full range, symbolic) on vectors of size 1..5 and matrices up to 4x3 in every storage form and view
#include "hcommon.h"
#include <utility>
static const int LO = -2147483647 - 1, HI = 2147483647;
static int idx(const char* n) { return vs_int(n, LO, HI); }
// the access stops the program exactly when the index is outside
template<class V> void vcheck(V&& v, int n)
{
	int i = idx("i");
	int bad = !(i >= 0 && i < n);
	vs_abort_ok(bad);
	v[i] = 1.5;
	CHECK(!bad, "out-of-range element access must not go unnoticed"); ASSUME(!bad);
	vs_eq(v[i], 1.5, "in-range access works", 0);
}
template<class V> void cvcheck(const V& v, int n)
{
	int i = idx("i");
	int bad = !(i >= 0 && i < n);
	vs_abort_ok(bad);
	double x = v[i];
	CHECK(!bad, "out-of-range const element access must not go unnoticed"); ASSUME(!bad);
	vs_eq(x, 4, "in-range access works", 0);
}
template<class V> V mkv4(V v) { for (int i = 0; i < v.size(); i++) v[i] = 4; return v; }
template<class M> void mcheck(M&& m, int R, int C, int how)
{
	int r = idx("r"), c = idx("c");
	int bad = !(r >= 0 && r < R && c >= 0 && c < C);
	vs_abort_ok(bad);
	if (how == 0) m(r, c) = 1.5;
	else if (how == 1) m[r][c] = 1.5;
	else if (how == 2) m[std::make_pair(r, c)] = 1.5;
	else if (how == 3) m.T()(c, r) = 1.5;
	else m.T()[c][r] = 1.5;
	CHECK(!bad, "out-of-range matrix access must not go unnoticed"); ASSUME(!bad);
	vs_eq(m(r, c), 1.5, "in-range access works", 0);
}
template<class M> void cmcheck(const M& m, int R, int C, int how)
{
	int r = idx("r"), c = idx("c");
	int bad = !(r >= 0 && r < R && c >= 0 && c < C);
	vs_abort_ok(bad);
	double x;
	if (how == 0) x = m(r, c);
	else if (how == 1) x = m[r][c];
	else if (how == 2) x = m[std::make_pair(r, c)];
	else if (how == 3) x = m.T()(c, r);
	else x = m.T()[c][r];
	CHECK(!bad, "out-of-range const matrix access must not go unnoticed"); ASSUME(!bad);
	vs_eq(x, 4, "in-range access works", 0);
}
template<class M> void rowcheck(M&& m, int R)
{
	int r = idx("r");
	int bad = !(r >= 0 && r < R);
	vs_abort_ok(bad);
	auto x = m[r];
	CHECK(!bad, "out-of-range row must not go unnoticed"); ASSUME(!bad);
	vs_eqi(x.size(), m.num_cols(), "row length");
}
template<class M> M& four(M& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m(i, j) = 4; return m; }
H(h_v3) { Vector<3> v; vcheck(v, 3); }
H(h_v1) { Vector<1> v; vcheck(v, 1); }
H(h_vd) { Vector<> v(5); vcheck(v, 5); }
H(h_vd1) { Vector<> v(1); vcheck(v, 1); }
H(h_vd0) { Vector<> v(0); vcheck(v, 0); }
H(h_vr) { Vector<Resizable> v(4); vcheck(v, 4); }
H(h_vr2) { Vector<Resizable> v(4); v.resize(2); vcheck(v, 2); }
H(h_vf) { Vector<3, float> v; vcheck(v, 3); }
H(h_vw) { double b[6]; vcheck(wrapVector(b, 4), 4); }
H(h_vws) { double b[6]; vcheck(wrapVector<4>(b), 4); }
H(h_vbig) { Vector<130> v; vcheck(v, 130); }
H(h_slice) { Vector<5> v; vcheck(v.slice<1, 3>(), 3); }
H(h_sliced) { Vector<> v(5); vcheck(v.slice(2, 2), 2); }
H(h_slicer) { Vector<Resizable> v(5); vcheck(v.slice(1, 3), 3); }
H(h_row) { Matrix<3, 4> m; vcheck(m[1], 4); }
H(h_col) { Matrix<3, 4> m; vcheck(m.T()[1], 3); }
H(h_rowd) { Matrix<> m(3, 4); vcheck(m[1], 4); }
H(h_cold) { Matrix<> m(3, 4); vcheck(m.T()[1], 3); }
H(h_diag) { Matrix<3, 4> m; vcheck(m.diagonal_slice(), 3); }
H(h_diagd) { Matrix<> m(4, 2); vcheck(m.diagonal_slice(), 2); }
H(h_colslice) { Matrix<4, 3> m; vcheck(m.T()[2].slice<1, 2>(), 2); }
H(h_diagm) { DiagonalMatrix<3> d; vcheck(d, 3); }
H(h_diagmd) { DiagonalMatrix<> d(3); vcheck(d, 3); }
H(h_asdiag) { Vector<4> d; vcheck(d.as_diagonal(), 4); }
H(h_c3) { Vector<3> v = mkv4(Vector<3>()); cvcheck(v, 3); }
H(h_cd) { Vector<> v(4); for (int i = 0; i < 4; i++) v[i] = 4; cvcheck(v, 4); }
H(h_cr) { Vector<Resizable> v(4); for (int i = 0; i < 4; i++) v[i] = 4; cvcheck(v, 4); }
H(h_cslice) { Vector<5> v; for (int i = 0; i < 5; i++) v[i] = 4; const Vector<5>& c = v; cvcheck(c.slice<1, 3>(), 3); }
H(h_csliced) { Vector<> v(5); for (int i = 0; i < 5; i++) v[i] = 4; const Vector<>& c = v; cvcheck(c.slice(1, 3), 3); }
H(h_ccol) { Matrix<3, 4> m; four(m); const Matrix<3, 4>& c = m; cvcheck(c.T()[1], 3); }
H(h_crow) { Matrix<> m(3, 4); four(m); const Matrix<>& c = m; cvcheck(c[1], 4); }
H(h_cdiag) { Matrix<3, 4> m; four(m); const Matrix<3, 4>& c = m; cvcheck(c.diagonal_slice(), 3); }
#define MALL(name, decl, R, C) \
	H(h_##name##_0) { decl; mcheck(m, R, C, 0); } H(h_##name##_1) { decl; mcheck(m, R, C, 1); } H(h_##name##_2) { decl; mcheck(m, R, C, 2); } \
	H(h_##name##_3) { decl; mcheck(m, R, C, 3); } H(h_##name##_4) { decl; mcheck(m, R, C, 4); } H(h_##name##_5) { decl; rowcheck(m, R); } \
	H(h_##name##_c0) { decl; cmcheck(four(m), R, C, 0); } H(h_##name##_c1) { decl; cmcheck(four(m), R, C, 1); } H(h_##name##_c2) { decl; cmcheck(four(m), R, C, 2); } \
	H(h_##name##_c3) { decl; cmcheck(four(m), R, C, 3); } H(h_##name##_c4) { decl; cmcheck(four(m), R, C, 4); }
#define COMMA ,
MALL(ms, Matrix<3 COMMA 2> m, 3, 2)
MALL(mc, Matrix<2 COMMA 3 COMMA double COMMA ColMajor> m, 2, 3)
MALL(md, Matrix<> m(2 COMMA 4), 2, 4)
MALL(mdc, Matrix<Dynamic COMMA Dynamic COMMA double COMMA ColMajor> m(4 COMMA 2), 4, 2)
MALL(mh, Matrix<3 COMMA Dynamic> m(3 COMMA 2), 3, 2)
MALL(mh2, Matrix<Dynamic COMMA 3> m(2 COMMA 3), 2, 3)
MALL(m11, Matrix<1 COMMA 1> m, 1, 1)
MALL(mslice, Matrix<5 COMMA 6> mm; auto m = mm.slice<1 COMMA 2 COMMA 2 COMMA 3>(), 2, 3)
MALL(msliced, Matrix<> mm(5 COMMA 6); auto m = mm.slice(1 COMMA 2 COMMA 3 COMMA 2), 3, 2)
MALL(mwrap, double b[8]; auto m = wrapMatrix(b + 1 COMMA 3 COMMA 2), 3, 2)
MALL(mcol, double b[8]; auto m = wrapVector(b + 1 COMMA 3).as_col(), 3, 1)
MALL(mrow, double b[8]; auto m = wrapVector<3>(b + 1).as_row(), 1, 3)
