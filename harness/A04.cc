// BOUNDS: Zeros, Ones and Identity (bare, sized, scaled, negated) combined with vectors of size 1..5 and matrices up to 3x4 in every storage form; all values symbolic
// OPTS: time=40
#include "hcommon.h"
template<class V> static void vall(V&& v)
{
	const int n = v.size();
	double s = vs_real("s"), t = vs_real("t"), o[8];
	fill(v, "v");
	for (int i = 0; i < n; i++) o[i] = v[i];
#define E(x, l) for (int i = 0; i < n; i++) vs_eq(v[i], (x), l)
#define RESET for (int i = 0; i < n; i++) v[i] = o[i]
	{ auto p = v + Ones; vs_eqi(p.size(), n, "size"); for (int i = 0; i < n; i++) vs_eq(p[i], o[i] + 1, "v + Ones"); }
	{ auto p = Ones + v; for (int i = 0; i < n; i++) vs_eq(p[i], o[i] + 1, "Ones + v"); }
	{ auto p = v - Ones; for (int i = 0; i < n; i++) vs_eq(p[i], o[i] - 1, "v - Ones"); }
	{ auto p = Ones - v; for (int i = 0; i < n; i++) vs_eq(p[i], 1 - o[i], "Ones - v"); }
	{ auto p = v + s * Ones; for (int i = 0; i < n; i++) vs_eq(p[i], o[i] + s, "v + s*Ones"); }
	{ auto p = v - Ones * s; for (int i = 0; i < n; i++) vs_eq(p[i], o[i] - s, "v - Ones*s"); }
	{ auto p = (s * Ones) * t - v; for (int i = 0; i < n; i++) vs_eq(p[i], s * t - o[i], "s*Ones*t - v"); }
	{ auto p = -(s * Ones) + v; for (int i = 0; i < n; i++) vs_eq(p[i], o[i] - s, "-(s*Ones) + v"); }
	{ auto p = (s * Ones) / 4.0 + v; for (int i = 0; i < n; i++) vs_eq(p[i], o[i] + s / 4, "s*Ones/4 + v"); }
	E(o[i], "operand unchanged");
	v += Ones; E(o[i] + 1, "v += Ones"); RESET;
	v -= Ones; E(o[i] - 1, "v -= Ones"); RESET;
	v += s * Ones; E(o[i] + s, "v += s*Ones"); RESET;
	v -= Ones * s; E(o[i] - s, "v -= s*Ones"); RESET;
	v = Ones; E(1, "v = Ones");
	v = -Ones; E(-1, "v = -Ones");
	v = s * Ones; E(s, "v = s*Ones");
	v = -(s * Ones) * t; E(-s * t, "v = -(s*Ones)*t");
	v = Zeros; E(0, "v = Zeros");
	RESET;
	bool z = true, e = true;
	for (int i = 0; i < n; i++) { if (o[i] != 0) z = false; if (o[i] != 1) e = false; }
	CHECK((v != Zeros) == !z, "v != Zeros");
	(void)e;
#undef E
#undef RESET
}
template<class M> static void mall(M&& m)
{
	const int R = m.num_rows(), C = m.num_cols();
	double s = vs_real("s"), t = vs_real("t"), o[4][4];
	fillm(m, "m");
#define ALL for (int i = 0; i < R; i++) for (int j = 0; j < C; j++)
#define E(x, l) ALL vs_eq(m(i, j), (x), l)
#define RESET ALL m(i, j) = o[i][j]
#define X(ex, v, l) { auto p = ex; vs_eqi(p.num_rows(), R, "rows"); vs_eqi(p.num_cols(), C, "cols"); ALL vs_eq(p(i, j), (v), l); }
	ALL o[i][j] = m(i, j);
	X(m + Ones, o[i][j] + 1, "m + Ones"); X(Ones + m, o[i][j] + 1, "Ones + m"); X(m - Ones, o[i][j] - 1, "m - Ones"); X(Ones - m, 1 - o[i][j], "Ones - m");
	X(m + s * Ones, o[i][j] + s, "m + s*Ones"); X(m - s * Ones, o[i][j] - s, "m - s*Ones"); X(s * Ones * t - m, s * t - o[i][j], "s*Ones*t - m");
	E(o[i][j], "operand unchanged");
	m += Ones; E(o[i][j] + 1, "m += Ones"); RESET;
	m -= Ones; E(o[i][j] - 1, "m -= Ones"); RESET;
	m += s * Ones; E(o[i][j] + s, "m += s*Ones"); RESET;
	m -= s * Ones; E(o[i][j] - s, "m -= s*Ones"); RESET;
	m = Ones; E(1, "m = Ones"); m = -Ones; E(-1, "m = -Ones"); m = s * Ones; E(s, "m = s*Ones"); m = Zeros; E(0, "m = Zeros"); RESET;
	bool z = true;
	ALL if (o[i][j] != 0) z = false;
	CHECK((m != Zeros) == !z, "m != Zeros");
}
#define D(a) ((i == j) ? (a) : 0)
H(h_v_1) { Vector<1> v; vall(v); }
H(h_v_3) { Vector<3> v; vall(v); }
H(h_v_d) { Vector<> v(4); vall(v); }
H(h_v_r) { Vector<Resizable> v(3); vall(v); }
H(h_v_sl) { Vector<5> V; vall(V.slice<1, 3>()); }
H(h_v_ds) { Vector<5> V; vall(V.slice(2, 2)); }
H(h_v_col) { Matrix<3, 2> M; vall(M.T()[1]); }
H(h_v_row) { Matrix<> M(2, 3); vall(M[1]); }
H(h_v_diag) { Matrix<2, 3> M; vall(M.diagonal_slice()); }
H(h_v_0) { Vector<> v(0); vall(v); }
H(h_m_s) { Matrix<2, 3> m; mall(m); }
H(h_m_c2) { Matrix<2, 3, double, ColMajor> a = Zeros, b = Ones; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { vs_eq(a(i, j), 0, "column major from Zeros", 0); vs_eq(b(i, j), 1, "column major from Ones", 0); } Matrix<3, Dynamic, double, ColMajor> c = Ones(3, 2); vs_eqi(c.num_cols(), 2, "cols"); Matrix<Dynamic, 2, double, ColMajor> d = 2 * Ones(3, 2); vs_eqi(d.num_rows(), 3, "rows"); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { vs_eq(c(i, j), 1, "half dynamic", 0); vs_eq(d(i, j), 2, "half dynamic", 0); } Matrix<2, 3> u, v; fillm(u); fillm(v); Matrix<2, 3, double, ColMajor> s = u + v; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vs_eq(s(i, j), u(i, j) + v(i, j), "column major from a sum"); }
H(h_m_c) { Matrix<3, 2, double, ColMajor> m; mall(m); }
H(h_m_d) { Matrix<> m(2, 2); mall(m); }
H(h_m_hd) { Matrix<2, Dynamic> m(2, 3); mall(m); }
H(h_m_t) { Matrix<3, 2> m; mall(m.T()); }
H(h_m_sl) { Matrix<4> m; mall(m.slice<1, 0, 2, 3>()); }
H(h_m_dsl) { Matrix<> m(3, 4); mall(m.slice(1, 2, 2, 2)); }
H(h_m_1) { Matrix<1> m; mall(m); }
H(h_m_v) { Vector<3> v; mall(v.as_col()); }
H(h_out) { Matrix<3> M; fillm(M); Matrix<3> o = M; M.slice<0, 0, 2, 2>() = Identity; M.T()[2].slice<0, 2>() = Ones;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vs_eq(M[i][j], i < 2 ? (j < 2 ? (i == j) : 1) : o[i][j], "only the view is filled"); }
template<class M> static void idall2(M&& m)
{
	const int R = m.num_rows(), C = R;
	double s = vs_real("s"), t = vs_real("t"), o[4][4];
	fillm(m, "m");
	ALL o[i][j] = m(i, j);
	X(m + Identity, o[i][j] + D(1), "m + Identity"); X(Identity + m, o[i][j] + D(1), "Identity + m"); X(m - Identity, o[i][j] - D(1), "m - Identity"); X(Identity - m, D(1) - o[i][j], "Identity - m");
	X(m + s * Identity, o[i][j] + D(s), "m + s*Identity"); X(Identity * s + m, o[i][j] + D(s), "s*Identity + m"); X(m - s * Identity, o[i][j] - D(s), "m - s*Identity"); X(s * Identity * t - m, D(s * t) - o[i][j], "s*Identity*t - m");
	X(-(s * Identity) / 2.0 - m, D(-s / 2) - o[i][j], "-(s*Identity)/2 - m");
	E(o[i][j], "operand unchanged");
	m += Identity; E(o[i][j] + D(1), "m += Identity"); RESET;
	m += s * Identity * t; E(o[i][j] + D(s * t), "m += s*Identity*t"); RESET;
	m = Identity; E(D(1), "m = Identity"); m = -Identity; E(D(-1), "m = -Identity"); m = s * Identity; E(D(s), "m = s*Identity"); m = -(s * Identity) * t; E(D(-s * t), "m = -(s*Identity)*t");
}
H(h_i_1) { Matrix<1> m; idall2(m); }
H(h_i_s) { Matrix<3> m; idall2(m); }
H(h_i_c) { Matrix<3, 3, double, ColMajor> m; idall2(m); }
H(h_i_d) { Matrix<> m(3, 3); idall2(m); }
H(h_i_hd) { Matrix<2, Dynamic> m(2, 2); idall2(m); }
H(h_i_t) { Matrix<2> m; idall2(m.T()); }
H(h_i_sl) { Matrix<4> m; idall2(m.slice<1, 0, 2, 2>()); }
H(h_i_dsl) { Matrix<> m(3, 4); idall2(m.slice(1, 2, 2, 2)); }
// sized forms construct run-time sized objects
H(h_sized)
{
	double s = vs_real("s");
	const int n = vs_choose("n", 0, 4), k = vs_choose("k", 1, 3);
	Vector<> z = Zeros(n), o = Ones(n), so = s * Ones(n), os = Ones(n) * s, ng = -(Ones(n) * s); Vector<Resizable> rz = Zeros(n), ro = s * Ones(n);
	vs_eqi(z.size(), n, "Zeros(n)"); vs_eqi(o.size(), n, "Ones(n)"); vs_eqi(so.size(), n, "s*Ones(n)"); vs_eqi(rz.size(), n, "Zeros(n)"); vs_eqi(ro.size(), n, "Ones(n)"); vs_eqi(ng.size(), n, "-Ones(n)");
	for (int i = 0; i < n; i++) { vs_eq(z[i], 0, "Zeros(n)"); vs_eq(o[i], 1, "Ones(n)"); vs_eq(so[i], s, "s*Ones(n)"); vs_eq(os[i], s, "Ones(n)*s"); vs_eq(ng[i], -s, "-Ones(n)*s"); vs_eq(rz[i], 0, "Zeros(n)"); vs_eq(ro[i], s, "s*Ones(n)"); }
	Matrix<> mz = Zeros(n, k), mo = Ones(n, k) * s, mi = Identity(k), si = s * Identity(k), ms = Zeros(k), mos = Ones(k), ni = -(s * Identity(k));
	vs_eqi(mz.num_rows(), n, "Zeros rows"); vs_eqi(mz.num_cols(), k, "Zeros cols"); vs_eqi(mo.num_rows(), n, "Ones rows"); vs_eqi(mo.num_cols(), k, "Ones cols");
	vs_eqi(mi.num_rows(), k, "Identity rows"); vs_eqi(mi.num_cols(), k, "Identity cols"); vs_eqi(si.num_rows(), k, "Identity rows"); vs_eqi(ms.num_rows(), k, "square Zeros"); vs_eqi(ms.num_cols(), k, "square Zeros"); vs_eqi(mos.num_cols(), k, "square Ones");
	for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { vs_eq(mz[i][j], 0, "Zeros"); vs_eq(mo[i][j], s, "s*Ones"); }
	for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { vs_eq(mi[i][j], i == j, "Identity(k)"); vs_eq(si[i][j], D(s), "s*Identity(k)"); vs_eq(ni[i][j], D(-s), "-s*Identity(k)"); vs_eq(ms[i][j], 0, "Zeros(k)"); vs_eq(mos[i][j], 1, "Ones(k)"); }
	Matrix<> sum = Identity(k) * s + mi; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) vs_eq(sum[i][j], D(s + 1), "sized Identity + m");
	Vector<> vv = Ones(n) * s + z; for (int i = 0; i < n; i++) vs_eq(vv[i], s, "sized Ones + v");
	Matrix<2, 3> st = Ones; Vector<3> sv = s * Ones; Matrix<3, 3, double, ColMajor> sc = s * Identity; for (int i = 0; i < 3; i++) { vs_eq(sv[i], s, "static from Ones"); vs_eq(st[i % 2][i], 1, "static from Ones"); for (int j = 0; j < 3; j++) vs_eq(sc[i][j], D(s), "static from Identity"); }
}
H(h_type) { Matrix<2, 2, int> z; z = Identity; Matrix<2, 2, float> f = 0.5 * Identity; Vector<2, int> o = Ones; Vector<2, float> g = 0.25 * Ones; Vector<2, int> q = Zeros;
	for (int i = 0; i < 2; i++) { vs_eqi(o[i], 1, "int Ones"); vs_eqi(q[i], 0, "int Zeros"); vs_eq(g[i], 0.25, "float Ones"); for (int j = 0; j < 2; j++) { vs_eqi(z[i][j], i == j, "int Identity"); vs_eq(f[i][j], D(0.5), "float Identity"); } } }
