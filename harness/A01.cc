// BOUNDS: vectors of size 1..5 in every storage form (static, run-time, resizable, slice, row, strided column, diagonal, wrapped); all values symbolic
// OPTS: time=40
#include "hcommon.h"
// every operation against its definition, element by element
template<class V> static void vcopy(const V& v, double* d) { for (int i = 0; i < v.size(); i++) d[i] = v[i]; }
template<class U, class V> static void vops(U&& u, V&& v)
{
	const int n = u.size();
	double a[8], b[8];
	fill(u, "u"); fill(v, "v");
	vcopy(u, a); vcopy(v, b);
	double s = vs_real("s"), t = vs_real("t");
	auto p = u + v; auto m = u - v; auto ng = -u; auto sl = s * u; auto sr = u * s; auto dv = u / t; auto dm = diagmult(u, v);
	vs_eqi(p.size(), n, "size of sum"); vs_eqi(m.size(), n, "size of difference"); vs_eqi(ng.size(), n, "size of negation"); vs_eqi(sl.size(), n, "size of scaled"); vs_eqi(dv.size(), n, "size of quotient"); vs_eqi(dm.size(), n, "size of diagmult");
	double dot = 0;
	for (int i = 0; i < n; i++) {
		vs_eq(p[i], a[i] + b[i], "sum"); vs_eq(m[i], a[i] - b[i], "difference"); vs_eq(ng[i], -a[i], "negation");
		vs_eq(sl[i], s * a[i], "scalar times vector"); vs_eq(sr[i], s * a[i], "vector times scalar"); vs_eq(dv[i] * t, a[i], "vector over scalar");
		vs_eq(dm[i], a[i] * b[i], "element product");
		dot += a[i] * b[i];
	}
	vs_eq(u * v, dot, "dot product"); vs_eq(v * u, dot, "dot product commutes");
	for (int i = 0; i < n; i++) { vs_eq(u[i], a[i], "operands unchanged", 0); vs_eq(v[i], b[i], "operands unchanged", 0); }
	// compound expressions
	auto e = (u + 2 * v) * s - v / 4;
	for (int i = 0; i < n; i++) vs_eq(e[i], (a[i] + 2 * b[i]) * s - b[i] / 4, "expression");
	// in place
	u += v; for (int i = 0; i < n; i++) vs_eq(u[i], a[i] + b[i], "+=");
	u -= v; u -= v; for (int i = 0; i < n; i++) vs_eq(u[i], a[i] - b[i], "-=");
	u *= s; for (int i = 0; i < n; i++) vs_eq(u[i], (a[i] - b[i]) * s, "*=");
	u /= t; for (int i = 0; i < n; i++) vs_eq(u[i] * t, (a[i] - b[i]) * s, "/=");
	u = v; for (int i = 0; i < n; i++) vs_eq(u[i], b[i], "=", 0);
	u += s * v; for (int i = 0; i < n; i++) vs_eq(u[i], b[i] + s * b[i], "+= expression");
	u = s * v; for (int i = 0; i < n; i++) vs_eq(u[i], s * b[i], "= expression");
	for (int i = 0; i < n; i++) vs_eq(v[i], b[i], "right operand unchanged", 0);
}
H(h_ss1) { Vector<1> u, v; vops(u, v); }
H(h_ss2) { Vector<2> u, v; vops(u, v); }
H(h_ss3) { Vector<3> u, v; vops(u, v); }
H(h_ss5) { Vector<5> u, v; vops(u, v); }
H(h_dd) { Vector<> u(3), v(3); vops(u, v); }
H(h_dd5) { Vector<> u(5), v(5); vops(u, v); }
H(h_sd) { Vector<3> u; Vector<> v(3); vops(u, v); }
H(h_ds) { Vector<> u(3); Vector<3> v; vops(u, v); }
H(h_rr) { Vector<Resizable> u(3), v(3); vops(u, v); }
H(h_rd) { Vector<Resizable> u(3); Vector<> v(3); vops(u, v); }
H(h_dr) { Vector<> u(3); Vector<Resizable> v(3); vops(u, v); }
H(h_sr) { Vector<3> u; Vector<Resizable> v(3); vops(u, v); }
H(h_slsl) { Vector<6> u, v; auto a = u.slice<1, 3>(); auto b = v.slice<2, 3>(); vops(a, b); }
H(h_sdsl) { Vector<6> u, v; auto a = u.slice(1, 3); auto b = v.slice<0, 3>(); vops(a, b); }
H(h_dsl) { Vector<> u(6), v(4); auto a = u.slice(2, 3); auto b = v.slice(1, 3); vops(a, b); }
H(h_col) { Matrix<3, 4> m; fillm(m); auto a = m.T()[1]; auto b = m.T()[3]; vops(a, b); }
H(h_cold) { Matrix<> m(3, 4); fillm(m); auto a = m.T()[0]; auto b = m.T()[2]; vops(a, b); }
H(h_rowcol) { Matrix<3> m, k; fillm(m); fillm(k); auto a = m[1]; auto b = k.T()[2]; vops(a, b); }
H(h_colmaj) { Matrix<3, 3, double, ColMajor> m, k; fillm(m); fillm(k); auto a = m[1]; auto b = k.T()[2]; vops(a, b); }
H(h_diag) { Matrix<3> m, k; fillm(m); fillm(k); auto a = m.diagonal_slice(); auto b = k[0]; vops(a, b); }
H(h_wrap) { double x[4], y[4]; auto a = wrapVector(x, 4); auto b = wrapVector<4>(y); vops(a, b); }
H(h_big) { vs_opt("nosolve", 0); Vector<130> u, v; for (int i = 0; i < 130; i++) { u[i] = i; v[i] = 1; } int k = vs_int("k", 0, 129); double w = vs_real("w"); u[k] = w; Vector<130> p = u + 2 * v; vs_eq(p[k], w + 2, "sum of large vectors"); u -= v; vs_eq(u[k], w - 1, "large -="); }
// cross product
template<class U, class V> static void cross(const U& u, const V& v)
{
	auto c = u ^ v;
	vs_eqi(c.size(), 3, "size");
	vs_eq(c[0], u[1] * v[2] - u[2] * v[1], "cross 0"); vs_eq(c[1], u[2] * v[0] - u[0] * v[2], "cross 1"); vs_eq(c[2], u[0] * v[1] - u[1] * v[0], "cross 2");
	vs_eq(c * u, 0, "cross orthogonal"); vs_eq(c * v, 0, "cross orthogonal");
}
H(h_cross) { Vector<3> u, v; fill(u); fill(v); cross(u, v); }
H(h_cross_sl) { Vector<5> u; Matrix<3> m; fill(u); fillm(m); cross(u.slice<1, 3>(), m.T()[1]); cross(m[0], u.slice<2, 3>()); }
// the right operand may refer to the left one
H(h_alias) { Vector<3> u; fill(u); double a[3]; vcopy(u, a); u += u; for (int i = 0; i < 3; i++) vs_eq(u[i], 2 * a[i], "u += u"); u -= u; for (int i = 0; i < 3; i++) vs_eq(u[i], 0, "u -= u"); }
H(h_alias_s) { Vector<3> u; fill(u); double a[3]; vcopy(u, a); u *= u[1]; for (int i = 0; i < 3; i++) vs_eq(u[i], a[i] * a[1], "u *= u[1]"); }
H(h_alias_d) { Vector<> u(3); fill(u); double a[3]; vcopy(u, a); u /= u[0]; for (int i = 0; i < 3; i++) vs_eq(u[i] * a[0], a[i], "u /= u[0]"); }
H(h_alias_e) { Vector<3> u, v; fill(u); fill(v); double a[3]; vcopy(u, a); u = u + v; for (int i = 0; i < 3; i++) vs_eq(u[i], a[i] + v[i], "u = u + v"); vcopy(u, a); u = v - u * u[2]; for (int i = 0; i < 3; i++) vs_eq(u[i], v[i] - a[i] * a[2], "u = v - u*u[2]"); }
H(h_alias_x) { Vector<3> u, v; fill(u); fill(v); double a[3]; vcopy(u, a); u = u ^ v; vs_eq(u[0], a[1] * v[2] - a[2] * v[1], "u = u ^ v"); vs_eq(u[1], a[2] * v[0] - a[0] * v[2], "u = u ^ v"); vs_eq(u[2], a[0] * v[1] - a[1] * v[0], "u = u ^ v"); }
H(h_alias_n) { Vector<Resizable> u(3); fill(u); double a[3]; vcopy(u, a); u = -u; for (int i = 0; i < 3; i++) vs_eq(u[i], -a[i], "u = -u"); u = u * u[0]; for (int i = 0; i < 3; i++) vs_eq(u[i], a[i] * a[0], "u = u*u[0]"); }
H(h_alias_m) { Vector<2> u; Matrix<2> m; fill(u); fillm(m); double a = u[0], b = u[1]; u = m * u; vs_eq(u[0], m[0][0] * a + m[0][1] * b, "u = m u"); vs_eq(u[1], m[1][0] * a + m[1][1] * b, "u = m u"); }
H(h_const) { Vector<3> u; fill(u); const Vector<3>& c = u; auto p = c + c.slice<0, 3>(); eqv(p, 2 * u, "const operands"); vs_eq(c * c, u[0] * u[0] + u[1] * u[1] + u[2] * u[2], "const dot"); }
H(h_chain) { Vector<2> u, v; fill(u); fill(v); Vector<2> o = u; (u += v) *= 2; eqv(u, 2 * (o + v), "chained assignment operators"); Vector<2> w; w = u = v; eqv(w, v, "chained assignment", 0); eqv(u, v, "chained assignment", 0); }
H(h_swap) { Vector<3> u, v; fill(u); fill(v); Vector<3> a = u, b = v; swap(u, v); eqv(u, b, "swap", 0); eqv(v, a, "swap", 0); Matrix<2, 3> m; fillm(m); Vector<3> r0 = m[0], r1 = m[1]; auto x = m[0]; auto y = m[1]; swap(x, y); eqv(m[0], r1, "row swap", 0); eqv(m[1], r0, "row swap", 0); }
// equality: true exactly when every element is equal, in every storage form
template<class U, class V> static void veq(U&& u, V&& v)
{
	const int n = u.size(); fill(u, "u"); fill(v, "v");
	int k = vs_choose("free", -1, n - 1); for (int i = 0; i < n; i++) if (k >= 0 && i != k) v[i] = u[i]; // k = -1: all elements free
	bool same = true; for (int i = 0; i < n; i++) if (u[i] != v[i]) same = false;
	CHECK((u == v) == same, "=="); CHECK((u != v) == !same, "!="); CHECK((v == u) == same, "== commutes"); CHECK(u == u, "equal to itself"); CHECK(!(u != u), "equal to itself");
}
H(h_q1) { Vector<1> u, v; veq(u, v); }
H(h_q2) { Vector<2> u, v; veq(u, v); }
H(h_q3) { Vector<3> u; Vector<> v(3); veq(u, v); }
H(h_q4) { Vector<> u(4); Vector<Resizable> v(4); veq(u, v); }
H(h_q5) { Vector<5> u, v; veq(u, v); }
H(h_qs) { Matrix<3, 4> m, k; fillm(m); fillm(k, "k"); auto a = m.T()[1]; auto b = k.T()[3]; veq(a, b); }
H(h_qr) { Matrix<4> m, k; fillm(m); fillm(k, "k"); auto a = m[1].slice<1, 3>(); auto b = k.T()[2].slice(0, 3); veq(a, b); }
H(h_qd) { Matrix<3> m; Vector<3> v; fillm(m); auto a = m.diagonal_slice(); veq(a, v); }
H(h_q0) { Vector<> u(0), v(0); CHECK(u == v, "empty vectors are equal"); CHECK(!(u != v), "empty vectors are equal"); }
H(h_ss4) { Vector<4> u, v; vops(u, v); }
H(h_ss6) { Vector<6> u, v; vops(u, v); }
H(h_ss7) { Vector<7> u; Vector<> v(7); vops(u, v); }
H(h_dd8) { Vector<> u(8), v(8); vops(u, v); }
H(h_dd1) { Vector<> u(1), v(1); vops(u, v); }
H(h_dd0) { Vector<> u(0), v(0); double s = vs_real("s"); auto p = u + v; auto m = u - v; auto q = s * u; vs_eqi(p.size(), 0, "empty sum"); vs_eqi(m.size(), 0, "empty difference"); vs_eqi(q.size(), 0, "empty scaled"); vs_eq(u * v, 0, "empty dot product"); u += v; u *= s; vs_eqi(u.size(), 0, "empty"); }
