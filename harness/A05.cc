// BOUNDS: diagonal matrices of order 1..4 (static, run-time, wrapped vector views) against vectors and matrices up to 4x4 in several storage forms; all values symbolic
#include "hcommon.h"
#define D(a) ((i == j) ? (a) : 0)
template<class DM> static void dall(DM&& d)
{
	const int n = d.diagonal_slice().size();
	double o[4];
	for (int i = 0; i < n; i++) { o[i] = vs_real("d"); d[i] = o[i]; }
	for (int i = 0; i < n; i++) { vs_eq(d[i], o[i], "element"); vs_eq(d.diagonal_slice()[i], o[i], "diagonal_slice element"); }
	Matrix<> m = Zeros(n); fillm(m, "junk"); m = d; vs_eqi(m.num_rows(), n, "rows");
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(m[i][j], D(o[i]), "matrix from diagonal");
	Matrix<Dynamic, Dynamic, double, ColMajor> big(n + 1, n + 1); fillm(big, "b"); big[n][0] = 5; big.slice(0, 1, n, n) = d;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(big(i, j + 1), D(o[i]), "view from diagonal");
	vs_eq(big(n, 0), 5, "outside the view");
	Vector<> v(n); fill(v, "v"); auto p = d * v; auto q = v * d; vs_eqi(p.size(), n, "size"); vs_eqi(q.size(), n, "size");
	for (int i = 0; i < n; i++) { vs_eq(p[i], o[i] * v[i], "d*v"); vs_eq(q[i], o[i] * v[i], "v*d"); }
	Matrix<> a(n, 3), b(2, n); fillm(a, "a"); fillm(b, "b"); auto x = d * a; auto y = b * d; vs_eqi(x.num_rows(), n, "rows"); vs_eqi(x.num_cols(), 3, "cols"); vs_eqi(y.num_rows(), 2, "rows"); vs_eqi(y.num_cols(), n, "cols");
	for (int i = 0; i < n; i++) { for (int j = 0; j < 3; j++) vs_eq(x[i][j], o[i] * a[i][j], "d*m"); for (int j = 0; j < 2; j++) vs_eq(y[j][i], b[j][i] * o[i], "m*d"); }
	auto xt = d * b.T(); auto yt = a.T() * d; for (int i = 0; i < n; i++) { for (int j = 0; j < 2; j++) vs_eq(xt[i][j], o[i] * b[j][i], "d*m.T()"); for (int j = 0; j < 3; j++) vs_eq(yt[j][i], a[i][j] * o[i], "m.T()*d"); }
	Vector<> ev(n); fill(ev, "e"); DiagonalMatrix<> e(ev); auto f = d * e; auto g = e * d; for (int i = 0; i < n; i++) { vs_eq(f[i], o[i] * ev[i], "d*e"); vs_eq(g[i], o[i] * ev[i], "e*d"); }
	auto ng = -d; for (int i = 0; i < n; i++) vs_eq(ng[i], -o[i], "-d");
	for (int i = 0; i < n; i++) vs_eq(d[i], o[i], "unchanged");
	if (n) d.diagonal_slice()[n - 1] = 3; if (n) vs_eq(d[n - 1], 3, "diagonal_slice aliases");
}
H(h_s1) { DiagonalMatrix<1> d; dall(d); }
H(h_s3) { DiagonalMatrix<3> d; dall(d); }
H(h_d) { DiagonalMatrix<> d(3); dall(d); }
H(h_d4) { DiagonalMatrix<> d(4); dall(d); }
H(h_d0) { DiagonalMatrix<> d(0); dall(d); }
H(h_ctor)
{
	Vector<3> v; fill(v); DiagonalMatrix<3> a(v); DiagonalMatrix<> b(v); DiagonalMatrix<3> c(2.5 * Ones); DiagonalMatrix<> e(Ones(2)); DiagonalMatrix<3> z(Zeros); DiagonalMatrix<3> k(a); DiagonalMatrix<3> as(Ones); as = a;
	Matrix<3, 3> M; fillm(M); DiagonalMatrix<3> dd(M.diagonal_slice());
	for (int i = 0; i < 3; i++) { vs_eq(a[i], v[i], "from vector"); vs_eq(b[i], v[i], "from vector"); vs_eq(c[i], 2.5, "from Ones"); vs_eq(z[i], 0, "from Zeros"); vs_eq(k[i], v[i], "copy"); vs_eq(as[i], v[i], "assign"); vs_eq(dd[i], M[i][i], "from diagonal_slice"); }
	vs_eq(e[1], 1, "from Ones(n)"); v[0] = 9; vs_eq(k[0], a[0], "independent"); a[1] = 7; CHECK(k[1] == as[1], "independent"); vs_eq(k[1], v[1], "copies are independent"); double buf[3]; for (int i = 0; i < 3; i++) buf[i] = vs_real("b");
	const DiagonalMatrix<3>& ca = a; vs_eq(ca[1], 7, "const element");
	auto inv = k.inverse(); (void)inv;
}
H(h_inv) { vs_opt("div_strict", 1); DiagonalMatrix<3> d; for (int i = 0; i < 3; i++) { d[i] = vs_real("d"); ASSUME(d[i] > 0.01 || d[i] < -0.01); } auto e = d.inverse(); for (int i = 0; i < 3; i++) vs_eq(e[i] * d[i], 1, "inverse"); DiagonalMatrix<3> i3 = d * e; Vector<3> v; fill(v); Vector<3> w = e * (d * v); eqv(w, v, "d^-1 d v = v"); DiagonalMatrix<> r(3); for (int i = 0; i < 3; i++) r[i] = d[i]; auto s = r.inverse(); for (int i = 0; i < 3; i++) vs_eq(s[i] * d[i], 1, "inverse (run-time)"); }
H(h_view) { Vector<4> v; fill(v); auto d = v.as_diagonal(); Matrix<4> m; m = d; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) vs_eq(m[i][j], D(v[i]), "as_diagonal"); d[2] = 11; vs_eq(v[2], 11, "as_diagonal aliases"); Vector<4> w; fill(w, "w"); auto p = d * w; auto q = w * v.as_diagonal(); for (int i = 0; i < 4; i++) { vs_eq(p[i], v[i] * w[i], "view * v"); vs_eq(q[i], v[i] * w[i], "v * view"); } Matrix<4, 2> a; fillm(a); auto x = v.as_diagonal() * a; auto y = a.T() * v.as_diagonal(); for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) { vs_eq(x[i][j], v[i] * a[i][j], "view*m"); vs_eq(y[j][i], v[i] * a[i][j], "m*view"); }
	const Vector<4>& cv = v; auto z = cv.as_diagonal() * w; for (int i = 0; i < 4; i++) vs_eq(z[i], v[i] * w[i], "const view * v"); Matrix<4, 3> N; fillm(N); auto t = N.T().diagonal_slice().as_diagonal() * w.slice<0, 3>(); for (int i = 0; i < 3; i++) vs_eq(t[i], N[i][i] * w[i], "strided as_diagonal"); Vector<Resizable> r(2); fill(r, "r"); auto u = r.as_diagonal() * w.slice<1, 2>(); for (int i = 0; i < 2; i++) vs_eq(u[i], r[i] * w[i + 1], "resizable as_diagonal"); }
H(h_mixed) { DiagonalMatrix<2, float> f; f[0] = vs_float("f"); f[1] = vs_float("f"); Vector<2> v; fill(v); auto p = f * v; auto q = v * f; for (int i = 0; i < 2; i++) { vs_eq(p[i], f[i] * v[i], "float diag * double"); vs_eq(q[i], f[i] * v[i], "double * float diag"); } DiagonalMatrix<2> d(v); auto g = d * f; for (int i = 0; i < 2; i++) vs_eq(g[i], f[i] * v[i], "mixed diag product"); Matrix<2> m = Identity; m = m * f; vs_eq(m[1][1], f[1], "I*d"); vs_eq(m[0][1], 0, "I*d"); }
H(h_bad) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); DiagonalMatrix<> d(n); for (int i = 0; i < n; i++) d[i] = 1; Vector<> v(k); fill(v); int bad = n != k; vs_abort_ok(bad); auto p = d * v; CHECK(!bad, "mismatched sizes accepted"); ASSUME(!bad); vs_eqi(p.size(), n, "size"); }
H(h_badm) { int n = vs_choose("n", 1, 3), r = vs_choose("r", 1, 3), c = vs_choose("c", 1, 3); DiagonalMatrix<> d(n); for (int i = 0; i < n; i++) d[i] = 1; Matrix<> m(r, c); fillm(m); int bad = n != r || n != c; vs_abort_ok(bad); m = d; CHECK(!bad, "mismatched sizes accepted"); ASSUME(!bad); vs_eq(m[0][0], 1, "value"); }
H(h_invz) { int z = vs_choose("z", 0, 2); DiagonalMatrix<3> d; for (int i = 0; i < 3; i++) { d[i] = vs_real("d"); ASSUME(d[i] != 0); } d[z] = 0; auto e = d.inverse(); for (int i = 0; i < 3; i++) if (i == z) CHECK(e[i] > 1e300, "inverse of a zero element is infinite"); else vs_eq(e[i] * d[i], 1, "inverse of the other elements"); }
