// BOUNDS: matrices up to 3x4, several up to 7x7, in every storage form (static, run-time, half run-time, row/column major, transposed, slice, wrapped); all values symbolic
// OPTS: time=40
#include "hcommon.h"
struct MC { double d[9][9]; int r, c; template<class M> MC(const M& m) : r(m.num_rows()), c(m.num_cols()) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) d[i][j] = m(i, j); } };
#define ALL(i, j) for (int i = 0; i < R; i++) for (int j = 0; j < C; j++)
template<class U, class V> static void mops(U&& u, V&& v)
{
	const int R = u.num_rows(), C = u.num_cols();
	fillm(u, "u"); fillm(v, "v");
	MC a(u), b(v);
	double s = vs_real("s"), t = vs_real("t");
	auto p = u + v; auto m = u - v; auto ng = -u; auto sl = s * u; auto sr = u * s; auto dv = u / t;
	vs_eqi(p.num_rows(), R, "rows"); vs_eqi(p.num_cols(), C, "cols"); vs_eqi(sl.num_rows(), R, "rows"); vs_eqi(sl.num_cols(), C, "cols"); vs_eqi(ng.num_rows(), R, "rows"); vs_eqi(ng.num_cols(), C, "cols");
	ALL(i, j) {
		vs_eq(p(i, j), a.d[i][j] + b.d[i][j], "sum"); vs_eq(m(i, j), a.d[i][j] - b.d[i][j], "difference"); vs_eq(ng(i, j), -a.d[i][j], "negation");
		vs_eq(sl(i, j), s * a.d[i][j], "scalar times matrix"); vs_eq(sr(i, j), s * a.d[i][j], "matrix times scalar"); vs_eq(dv(i, j) * t, a.d[i][j], "matrix over scalar");
	}
	auto e = (u + 2 * v) * s - v / 4;
	ALL(i, j) vs_eq(e(i, j), (a.d[i][j] + 2 * b.d[i][j]) * s - b.d[i][j] / 4, "expression");
	u += v; ALL(i, j) vs_eq(u(i, j), a.d[i][j] + b.d[i][j], "+=");
	u -= v; u -= v; ALL(i, j) vs_eq(u(i, j), a.d[i][j] - b.d[i][j], "-=");
	u *= s; ALL(i, j) vs_eq(u(i, j), (a.d[i][j] - b.d[i][j]) * s, "*=");
	u /= t; ALL(i, j) vs_eq(u(i, j) * t, (a.d[i][j] - b.d[i][j]) * s, "/=");
	u = v; ALL(i, j) vs_eq(u(i, j), b.d[i][j], "=", 0);
	u += s * v; ALL(i, j) vs_eq(u(i, j), b.d[i][j] + s * b.d[i][j], "+= expression");
	u = s * v; ALL(i, j) vs_eq(u(i, j), s * b.d[i][j], "= expression");
	ALL(i, j) vs_eq(v(i, j), b.d[i][j], "right operand unchanged", 0);
}
// matrix-matrix, matrix-vector, vector-matrix and diagonal products
template<class A, class B> static void prod(A&& a, B&& b)
{
	const int R = a.num_rows(), K = a.num_cols(), C = b.num_cols();
	fillm(a, "a"); fillm(b, "b");
	auto p = a * b;
	vs_eqi(p.num_rows(), R, "product rows"); vs_eqi(p.num_cols(), C, "product cols");
	ALL(i, j) { double s = 0; for (int k = 0; k < K; k++) s += a(i, k) * b(k, j); vs_eq(p(i, j), s, "matrix product"); }
	auto q = b.T() * a.T();
	ALL(i, j) vs_eq(q(j, i), p(i, j), "product of transposes");
}
template<class A, class V, class W> static void mv(A&& a, V&& v, W&& w)
{
	const int R = a.num_rows(), C = a.num_cols();
	fillm(a, "a"); fill(v, "v"); fill(w, "w");
	auto p = a * v;
	vs_eqi(p.size(), R, "size");
	for (int i = 0; i < R; i++) { double s = 0; for (int j = 0; j < C; j++) s += a(i, j) * v[j]; vs_eq(p[i], s, "matrix times vector"); }
	auto q = w * a;
	vs_eqi(q.size(), C, "size");
	for (int j = 0; j < C; j++) { double s = 0; for (int i = 0; i < R; i++) s += a(i, j) * w[i]; vs_eq(q[j], s, "vector times matrix"); }
	auto x = diagmult(a, v); auto y = diagmult(w, a);
	ALL(i, j) { vs_eq(x(i, j), a(i, j) * v[j], "matrix diagmult vector"); vs_eq(y(i, j), w[i] * a(i, j), "vector diagmult matrix"); }
	auto o = w.as_col() * v.as_row();
	vs_eqi(o.num_rows(), R, "outer product rows"); vs_eqi(o.num_cols(), C, "outer product cols");
	ALL(i, j) vs_eq(o(i, j), w[i] * v[j], "outer product");
}
#define CM double, ColMajor
H(h_e_s) { Matrix<2, 3> u, v; mops(u, v); }
H(h_e_s22) { Matrix<2> u, v; mops(u, v); }
H(h_e_s11) { Matrix<1> u, v; mops(u, v); }
H(h_e_c) { Matrix<3, 2, CM> u; Matrix<3, 2> v; mops(u, v); }
H(h_e_d) { Matrix<> u(2, 3), v(2, 3); mops(u, v); }
H(h_e_dc) { Matrix<Dynamic, Dynamic, CM> u(3, 2); Matrix<> v(3, 2); mops(u, v); }
H(h_e_sd) { Matrix<2, 3> u; Matrix<> v(2, 3); mops(u, v); }
H(h_e_ds) { Matrix<> u(2, 3); Matrix<2, 3> v; mops(u, v); }
H(h_e_h) { Matrix<2, Dynamic> u(2, 3); Matrix<Dynamic, 3> v(2, 3); mops(u, v); }
H(h_e_t) { Matrix<3, 2> U; Matrix<2, 3> v; auto u = U.T(); mops(u, v); }
H(h_e_tt) { Matrix<> U(3, 2), V(3, 2); auto u = U.T(); auto v = V.T(); mops(u, v); }
H(h_e_sl) { Matrix<4> U; Matrix<> V(4, 4); fillm(U); fillm(V); auto u = U.slice<1, 1, 2, 3>(); auto v = V.slice(2, 0, 2, 3); mops(u, v); }
H(h_e_w) { double x[6], y[6]; auto u = wrapMatrix<2, 3>(x); auto v = wrapMatrix(y, 2, 3); mops(u, v); }
H(h_p_s) { Matrix<2, 3> a; Matrix<3, 2> b; prod(a, b); }
H(h_p_s33) { Matrix<3> a, b; prod(a, b); }
H(h_p_s44) { Matrix<4> a, b; prod(a, b); }
H(h_p_s11) { Matrix<1> a, b; prod(a, b); }
H(h_p_s13) { Matrix<1, 3> a; Matrix<3, 1> b; prod(a, b); }
H(h_p_s31) { Matrix<3, 1> a; Matrix<1, 3> b; prod(a, b); }
H(h_p_cc) { Matrix<2, 3, CM> a; Matrix<3, 4, CM> b; prod(a, b); }
H(h_p_rc) { Matrix<2, 3> a; Matrix<3, 2, CM> b; prod(a, b); }
H(h_p_d) { Matrix<> a(2, 3), b(3, 4); prod(a, b); }
H(h_p_sd) { Matrix<2, 3> a; Matrix<> b(3, 2); prod(a, b); }
H(h_p_ds) { Matrix<> a(2, 3); Matrix<3, 2> b; prod(a, b); }
H(h_p_h) { Matrix<2, Dynamic> a(2, 3); Matrix<Dynamic, 2> b(3, 2); prod(a, b); }
H(h_p_t) { Matrix<3, 2> A; Matrix<2, 3> B; auto a = A.T(); auto b = B.T(); prod(a, b); }
H(h_p_sl) { Matrix<4> A; Matrix<> B(4, 4); auto a = A.slice<1, 0, 2, 3>(); auto b = B.slice(0, 1, 3, 2); prod(a, b); }
H(h_p_w) { double x[6], y[6]; auto a = wrapMatrix<2, 3>(x); auto b = wrapMatrix(y, 3, 2); prod(a, b); }
H(h_v_s) { Matrix<2, 3> a; Vector<3> v; Vector<2> w; mv(a, v, w); }
H(h_v_s33) { Matrix<3> a; Vector<3> v; Vector<3> w; mv(a, v, w); }
H(h_v_c) { Matrix<2, 3, CM> a; Vector<3> v; Vector<> w(2); mv(a, v, w); }
H(h_v_d) { Matrix<> a(3, 2); Vector<> v(2), w(3); mv(a, v, w); }
H(h_v_ds) { Matrix<> a(3, 2); Vector<2> v; Vector<3> w; mv(a, v, w); }
H(h_v_sd) { Matrix<3, 2> a; Vector<> v(2), w(3); mv(a, v, w); }
H(h_v_r) { Matrix<> a(2, 3); Vector<Resizable> v(3), w(2); mv(a, v, w); }
H(h_v_t) { Matrix<3, 2> A; auto a = A.T(); Vector<3> v; Vector<2> w; mv(a, v, w); }
H(h_v_col) { Matrix<3, 2> a; Matrix<2, 4> V; Matrix<> W(3, 3); fillm(V); fillm(W); auto v = V.T()[1]; auto w = W.T()[2]; mv(a, v, w); }
H(h_v_sl) { Matrix<4> A; fillm(A); Vector<5> V; fill(V); auto a = A.slice<0, 1, 2, 3>(); auto v = V.slice<1, 3>(); auto w = V.slice(3, 2); Vector<2> w2 = w; mv(a, v, w2); }
H(h_v_1) { Matrix<1, 3> a; Vector<3> v; Vector<1> w; mv(a, v, w); }
// associativity with views of the operands, and operands that are also results
H(h_alias) { Matrix<2> m; fillm(m); MC a(m); m = m * m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j], a.d[i][0] * a.d[0][j] + a.d[i][1] * a.d[1][j], "m = m*m"); }
H(h_alias_p) { Matrix<2> m; fillm(m); MC a(m); m += m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j], 2 * a.d[i][j], "m += m"); m -= m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j], 0, "m -= m"); }
H(h_alias_t) { Matrix<2> m; fillm(m); MC a(m); m = m.T() + m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j], a.d[i][j] + a.d[j][i], "m = m.T() + m"); }
H(h_alias_tt) { Matrix<> m(2, 2); fillm(m); MC a(m); m = m.T() * m; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j], a.d[0][i] * a.d[0][j] + a.d[1][i] * a.d[1][j], "m = m.T()*m"); }
H(h_alias_s) { Matrix<2> m; fillm(m); MC a(m); m *= m[0][0]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j], a.d[i][j] * a.d[0][0], "m *= m[0][0]"); }
H(h_alias_q) { Matrix<> m(2, 2); fillm(m); MC a(m); m /= m[1][0]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(m[i][j] * a.d[1][0], a.d[i][j], "m /= m[1][0]"); }
H(h_alias_v) { Matrix<2> m; fillm(m); MC a(m); m[0] = m[1] * m; for (int j = 0; j < 2; j++) { vs_eq(m[0][j], a.d[1][0] * a.d[0][j] + a.d[1][1] * a.d[1][j], "row = row*m"); vs_eq(m[1][j], a.d[1][j], "other row", 0); } }
H(h_alias_r) { Matrix<2, 3> m; fillm(m); MC a(m); m[0] -= m[1] * 2; m[1] += m[0]; for (int j = 0; j < 3; j++) { vs_eq(m[0][j], a.d[0][j] - 2 * a.d[1][j], "row op"); vs_eq(m[1][j], a.d[0][j] - a.d[1][j], "row op 2"); } }
H(h_triple) { Matrix<2, 3> a; Matrix<3, 2> b; Vector<2> v; fillm(a); fillm(b); fill(v); eqv((a * b) * v, a * (b * v), "associative"); eqv((v * a) * b, v * (a * b), "associative"); vs_eq(v * (a * b) * v, v * ((a * b) * v), "quadratic form"); }
H(h_eq) { Matrix<2> a, b; fillm(a); fillm(b); bool same = true; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a[i][j] != b[i][j]) same = false; CHECK((a == b) == same, "=="); CHECK((a != b) == !same, "!="); Matrix<> c = a; CHECK(c == a, "equal copy"); CHECK(!(c != a), "equal copy"); CHECK(c.T().T() == a, "equal view"); }
template<class A, class B> static void meq(A&& a, B&& b)
{
	const int R = a.num_rows(), C = a.num_cols(); fillm(a, "a"); fillm(b, "b");
	int k = vs_choose("free", 0, R * C - 1); ALL(i, j) if (i * C + j != k) b(i, j) = a(i, j);
	bool same = a(k / C, k % C) == b(k / C, k % C);
	CHECK((a == b) == same, "=="); CHECK((a != b) == !same, "!="); CHECK((b == a) == same, "== commutes");
}
H(h_q23) { Matrix<2, 3> a, b; meq(a, b); }
H(h_q32) { Matrix<3, 2> a; Matrix<> b(3, 2); meq(a, b); }
H(h_q11) { Matrix<1> a; Matrix<> b(1, 1); meq(a, b); }
H(h_q14) { Matrix<1, 4> a, b; meq(a, b); }
H(h_q31) { Matrix<> a(3, 1), b(3, 1); meq(a, b); }
H(h_qc) { Matrix<2, 3, CM> a; Matrix<2, 3> b; meq(a, b); }
H(h_qt) { Matrix<2, 3> a, b; meq(a.T(), b.T()); }
H(h_qsl) { Matrix<4> a; Matrix<4, 4, CM> b; fillm(a); fillm(b); meq(a.slice<1, 0, 2, 3>(), b.slice(2, 1, 2, 3)); }
// larger
H(h_be57) { Matrix<5, 7> u, v; mops(u, v); }
H(h_be65) { Matrix<> u(6, 5), v(6, 5); mops(u, v); }
H(h_be55) { Matrix<5, 5, CM> u; Matrix<5> v; mops(u, v); }
H(h_bp1) { Matrix<5, 6> a; Matrix<6, 5> b; prod(a, b); }
H(h_bp2) { Matrix<2, 7> a; Matrix<7, 3> b; prod(a, b); }
H(h_bp3) { Matrix<6, 1> a; Matrix<1, 6> b; prod(a, b); }
H(h_bp4) { Matrix<> a(7, 2), b(2, 6); prod(a, b); }
H(h_bp5) { Matrix<5, 5, CM> a; Matrix<> b(5, 5); prod(a, b); }
H(h_bm1) { Matrix<5, 7> a; Vector<7> v; Vector<5> w; mv(a, v, w); }
H(h_bm2) { Matrix<> a(7, 5); Vector<> v(5), w(7); mv(a, v, w); }
H(h_bm3) { Matrix<6, 6, CM> a; Vector<6> v, w; mv(a, v, w); }
