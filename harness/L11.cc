// BOUNDS: symmetric matrices: every 2x2; orders 4..6 permuted with one plane rotation; orders 1..3 run-time sized and 1 static built from every rotation/reflection and every ascending list of eigenvalues (LAPACK path); static 3x3 closed form for k I + N, k symbolic, N from a list; conditions and right-hand sides symbolic
// LIBS: -llapack -lblas
// OPTS: time=60
#include "lapack_ref.h"
#include "large.h"
#include <TooN/SymEigen.h>
static double PE[6][6], PW[6]; static int pn;   // A = PE diag(PW) PE^T, eigenvectors in the columns of PE, eigenvalues ascending
#ifdef VS_SYM
static double pa(int i, int j);
extern "C" void dsyev_(const char* jobz, const char* uplo, int* N_, double* A, int* lda_, double* W, double* WK, int* lw, int* info)
{
	int N = *N_, lda = *lda_; *info = 0; LARG(N >= 0 && lda >= (N > 1 ? N : 1)); LARG(*jobz == 'V' || *jobz == 'N'); bool u = ref::up(uplo);
	if (*lw == -1) { WK[0] = N > 1 ? 34 * N : 1; return; }
	LARG(*lw >= (N > 1 ? 3 * N - 1 : 1)); LARG(N == pn);
	for (int j = 0; j < N; j++) for (int i = 0; i <= j; i++) vs_eq(u ? A[i + j * lda] : A[j + i * lda], pa(i, j), "%matrix handed to LAPACK is the given one");
	for (int t = 0; t < N; t++) { W[t] = PW[t]; if (*jobz == 'V') for (int i = 0; i < N; i++) A[i + t * lda] = PE[i][t]; }
	WK[0] = 3;
}
#endif
static double pa(int i, int j) { double s = 0; for (int t = 0; t < pn; t++) s += PE[i][t] * PW[t] * PE[j][t]; return s; }
static void orth(double o[6][6], int n)
{
	if (n > 3) { bigorth(o, n); return; }
	double sg = vs_choose("flip", 0, 1) ? -1 : 1;
	if (n == 1) { o[0][0] = sg; return; }
	double x = vs_real("x"), y = vs_real("y"), q = x * x + y * y; ASSUME(q > 0.1); double c = (x * x - y * y) / q, s = 2 * x * y / q;
	if (n == 2) { o[0][0] = c; o[0][1] = -s * sg; o[1][0] = s; o[1][1] = c * sg; return; }
	int k = vs_choose("axis", 0, 2), i = (k + 1) % 3, j = (k + 2) % 3; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) o[a][b] = 0; o[k][k] = sg; o[i][i] = o[j][j] = c; o[i][j] = -s; o[j][i] = s;
}
// sign 0: any eigenvalues, 1: all positive, 2: the first is zero, rest positive (exact axes)
static void plant(int n, int sign)
{
	pn = n; if (sign == 2) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) PE[i][j] = (i + 1) % 3 == j % 3; if (n != 3) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) PE[i][j] = i == n - 1 - j; } else orth(PE, n);
	double lo = sign == 2 ? 0 : vs_real("w"); if (sign == 1) ASSUME(lo > 0.125); if (sign == 0) ASSUME(lo > 0.125 || lo < -0.125); PW[0] = lo;
	for (int i = 1; i < n; i++) { double d = vs_real("dw"); ASSUME(d > 0.125 && d < 1e6); PW[i] = PW[i - 1] + d; if (sign == 0) ASSUME(PW[i] > 0.125 || PW[i] < -0.125); }
}
template<class M> static void put(M&& m) { for (int i = 0; i < pn; i++) for (int j = 0; j < pn; j++) m(i, j) = pa(i, j); }
// what the object promises, checked against the matrix only
template<class E, class M> static void dec(const E& e, const M& m)
{
	const int n = m.num_rows(); auto V = e.get_evectors(); auto w = e.get_evalues(); vs_eqi(V.num_rows(), n, "size"); vs_eqi(w.size(), n, "size");
	for (int i = 0; i + 1 < n; i++) CHECK(w[i] <= w[i + 1], "eigenvalues ascending");
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double d = 0, r = 0; for (int t = 0; t < n; t++) { d += V(i, t) * V(j, t); r += V(t, i) * w[t] * V(t, j); } vs_eq(d, i == j, "eigenvectors orthonormal"); vs_eq(r, m(i, j), "A = E^T D E"); }
	double p = 1; bool pos = true, neg = true; for (int t = 0; t < n; t++) p *= w[t]; vs_eq(e.get_determinant(), p, "determinant");
	for (int t = 0; t < n; t++) { if (w[t] <= 0) pos = false; } for (int t = 0; t < n; t++) if (w[t] >= 0) neg = false;
	CHECK(e.is_posdef() == pos, "is_posdef"); CHECK(e.is_negdef() == neg, "is_negdef");
}
static double absd(double x) { return x < 0 ? -x : x; }
template<class E> static void use(const E& e, double cond, bool dflt)
{
	const int n = pn; double f[6], top = 0; for (int t = 0; t < n; t++) if (absd(PW[t]) > top) top = absd(PW[t]); for (int t = 0; t < n; t++) f[t] = absd(PW[t]) * cond > top ? 1 / PW[t] : 0;
	Vector<> b(n); fill(b, "b"); Matrix<> B(n, 2); fillm(B, "B"); Matrix<> P = dflt ? Matrix<>(e.get_pinv()) : Matrix<>(e.get_pinv(cond)); Vector<> d = e.get_inv_diag(cond);
	for (int t = 0; t < n; t++) vs_eq(d[t], f[t], "get_inv_diag, small eigenvalues dropped");
	Vector<> x(n); Matrix<> X(n, 2); if (dflt) { x = e.backsub(b); X = e.backsub(B); }
	for (int i = 0; i < n; i++) { double y = 0, Y = 0; for (int j = 0; j < n; j++) { double q = 0; for (int t = 0; t < n; t++) q += PE[i][t] * f[t] * PE[j][t]; vs_eq(P(i, j), q, "pseudo-inverse"); y += q * b[j]; Y += q * B(j, 1); } if (dflt) { vs_eq(x[i], y, "backsub of a vector"); vs_eq(X(i, 1), Y, "backsub of a matrix"); } }
}
template<class E> static void roots(const E& e, bool inv = true)
{
	const int n = pn; Matrix<> S = e.get_sqrtm(), S2 = S * S; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { vs_eq(S2(i, j), pa(i, j), "sqrtm squared is A"); vs_eq(S(i, j), S(j, i), "sqrtm symmetric"); }
	if (!inv) return;
	Matrix<> R = e.get_isqrtm(); Matrix<> R2 = R.T() * R; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double q = 0; for (int t = 0; t < n; t++) if (PW[t] != 0) q += PE[i][t] / PW[t] * PE[j][t]; vs_eq(R2(i, j), q, "isqrtm^T isqrtm is the inverse"); vs_eq(R(i, j), R(j, i), "isqrtm symmetric"); }
}
template<int S> static void all(int n, int sign) { plant(n, sign); Matrix<S> m(n, n); put(m); SymEigen<S> e(m); dec(e, m); use(e, 1e9, true); if (sign) roots(e); }
H(h_d1) { all<Dynamic>(1, 0); }
H(h_d1p) { all<Dynamic>(1, 1); }
H(h_d2) { all<Dynamic>(2, 0); }
H(h_d2p) { all<Dynamic>(2, 1); }
H(h_d2z) { all<Dynamic>(2, 2); }
H(h_d3) { all<Dynamic>(3, 0); }
H(h_d3p) { all<Dynamic>(3, 1); }
H(h_d3z) { all<Dynamic>(3, 2); }
H(h_s1) { all<1>(1, 0); }
H(h_dcond) { plant(3, 0); Matrix<> m(3, 3); put(m); SymEigen<> e(m); double c = vs_real("cond"), top = 0; ASSUME(c > 1.0625); for (int t = 0; t < 3; t++) if (absd(PW[t]) > top) top = absd(PW[t]); for (int t = 0; t < 3; t++) { double q = absd(PW[t]) * c - top; ASSUME(q > 0.01 || q < -0.01); } use(e, c, false); }
// inverse square root: roots of the eigenvalues too small for the condition number are dropped
H(h_iscond)
{
	plant(3, 1); double r[3]; r[0] = vs_real("r"); ASSUME(r[0] > 0.25 && r[0] < 100); for (int t = 1; t < 3; t++) { double d = vs_real("dr"); ASSUME(d > 0.125 && d < 100); r[t] = r[t - 1] + d; } for (int t = 0; t < 3; t++) PW[t] = r[t] * r[t];
	Matrix<> m(3, 3); put(m); SymEigen<> e(m); double c = vs_real("cond"); ASSUME(c > 1.0625 && c < 100); for (int t = 0; t < 3; t++) { double q = r[t] * c - r[2]; ASSUME(q > 0.01 || q < -0.01); }
	Matrix<> R = e.get_isqrtm(c); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double q = 0; for (int t = 0; t < 3; t++) if (r[t] * c > r[2]) q += PE[i][t] / r[t] * PE[j][t]; vs_eq(R(i, j), q, "isqrtm, small roots dropped"); }
}
H(h_dsz) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); pn = k; for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) PE[i][j] = i == j; PW[i] = 1; } SymEigen<> e(n); Matrix<> m = Identity(k); int bad = n != k; vs_abort_ok(bad); e.compute(m); CHECK(!bad, "mismatching size accepted"); ASSUME(!bad); vs_eq(e.get_evalues()[n - 1], 1, "eigenvalue of the identity"); }
H(h_dns) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); pn = n; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) PE[i][j] = i == j; PW[i] = 2; } Matrix<> m = Zeros(n, k); for (int i = 0; i < n && i < k; i++) m[i][i] = 2; int bad = n != k; vs_abort_ok(bad); SymEigen<> e(m); CHECK(!bad, "non-square accepted"); ASSUME(!bad); vs_eq(e.get_evalues()[0], 2, "eigenvalue"); }
// 2x2 closed form: every symmetric matrix
H(h_22) { Matrix<2> m; m(0, 0) = vs_real("a"); m(0, 1) = m(1, 0) = vs_real("b"); m(1, 1) = vs_real("c"); SymEigen<2> e(m); dec(e, m); }
H(h_22c) { Matrix<2, 2, double, ColMajor> m; m(0, 0) = vs_real("a"); m(0, 1) = m(1, 0) = vs_real("b"); m(1, 1) = vs_real("c"); SymEigen<2> e(m); dec(e, m); }
H(h_22diag) { vs_opt("div_strict", 1); Matrix<2> m = Zeros; int k = vs_choose("k", 0, 2); double a = vs_real("a"), d = vs_real("d"); ASSUME(d > 0.125 && a > 0.125 && d < 1e6 && a < 1e6); m(0, 0) = k == 1 ? a + d : a; m(1, 1) = k == 2 ? a + d : a; SymEigen<2> e(m); dec(e, m); pn = 2; PE[0][0] = PE[1][1] = k != 1; PE[0][1] = PE[1][0] = k == 1; PW[0] = a; PW[1] = k ? a + d : a; roots(e); vs_eq(e.get_evalues()[0], a, "smallest eigenvalue"); }
static void use22(int c) { plant(2, c == 2); if (c == 1) ASSUME(PW[0] < 0 && PW[1] > 0); if (c == 0) ASSUME(PW[1] < 0); Matrix<2> m; put(m); SymEigen<2> e(m); vs_eq(e.get_evalues()[0], PW[0], "smallest eigenvalue"); vs_eq(e.get_evalues()[1], PW[1], "largest eigenvalue"); use(e, 1e9, true); }
H(h_22use_n) { use22(0); }
H(h_22use_m) { use22(1); }
H(h_22use_p) { use22(2); }
H(h_22roots) { plant(2, 1); Matrix<2> m; put(m); SymEigen<2> e(m); roots(e); }
// the closed form for order 3: m = k I + a R diag(l0, l1, l2) R^T; its irrational constants are rounded, so within a tolerance
static void near3(double a, double b, const char* w) { double d = a - b; CHECK(d < 1e-5 && d > -1e-5, w); }
static void dec3(const SymEigen<3>& e, const Matrix<3>& m)
{
	const Matrix<3>& V = e.get_evectors(); const Vector<3>& w = e.get_evalues();
	for (int i = 0; i < 3; i++) near3(w[i], PW[i], "eigenvalue, ascending");
	for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) { double d = 0, r = 0; for (int t = 0; t < 3; t++) { d += V(i, t) * V(j, t); r += V(t, i) * w[t] * V(t, j); } near3(d, i == j, "eigenvectors orthonormal"); near3(r, m(i, j), "A = E^T D E"); }
	CHECK(e.is_posdef() == (PW[0] > 0), "is_posdef"); CHECK(e.is_negdef() == (PW[2] < 0), "is_negdef");
}
template<class F> static void s3(F rot, double l0, double l1, double l2)
{
	vs_opt("const_num", 1); double k = vs_real("k"); if (vs_choose("neg", 0, 1)) ASSUME(k < -3 && k > -20); else ASSUME(k > 3 && k < 20);
	pn = 3; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) PE[i][j] = 0; rot();
	PW[0] = k + l0; PW[1] = k + l1; PW[2] = k + l2;
	Matrix<3> m; put(m); SymEigen<3> e(m); dec3(e, m);
}
static void rid() { int p = vs_choose("perm", 0, 5), q[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (int i = 0; i < 3; i++) PE[i][q[p][i]] = 1; }
static void rax() { int c = vs_choose("axis", 0, 2), i = (c + 1) % 3, j = (c + 2) % 3; PE[c][c] = 1; PE[i][i] = PE[j][j] = 0.6; PE[i][j] = -0.8; PE[j][i] = 0.8; }
static void rgen() { double q[3][3] = {{2 / 3., -1 / 3., 2 / 3.}, {2 / 3., 2 / 3., -1 / 3.}, {-1 / 3., 2 / 3., 2 / 3.}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) PE[i][j] = q[i][j]; }
H(h_3id) { s3(rid, -1, 0, 1); }
H(h_3id2) { s3(rid, -1, 0.25, 2); }
H(h_3r) { s3(rax, -1, 0, 1); }
H(h_3r2) { s3(rax, -2, -1.5, 2); }
H(h_3g) { s3(rgen, -2, -1.5, 2); }
H(h_3dbl) { s3(rax, -1, -1, 2); }
H(h_3dbh) { s3(rax, -2, 1, 1); }
H(h_3dbi) { s3(rid, -2, 1, 1); }
H(h_3sph) { s3(rid, 0, 0, 0); }
H(h_30) { pn = 3; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) PE[i][j] = i == j; PW[i] = 0; } Matrix<3> m = Zeros; SymEigen<3> e(m); for (int i = 0; i < 3; i++) { vs_eq(e.get_evalues()[i], 0, "zero matrix"); for (int j = 0; j < 3; j++) vs_eq(e.get_evectors()(i, j), i == j, "zero matrix, axes"); } }
static void rgen2() { double q[3][3] = {{6 / 7., -2 / 7., 3 / 7.}, {2 / 7., -3 / 7., -6 / 7.}, {3 / 7., 6 / 7., -2 / 7.}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) PE[i][j] = q[i][j]; }
H(h_3g2) { s3(rgen2, -1, -0.5, 2.25); }
H(ht_3g3) { s3(rgen2, -2.5, 0.125, 0.5); }
H(ht_3g4) { s3(rgen, -1, -1, 2); }
H(ht_3g5) { s3(rgen2, -2, 1, 1); }
H(ht_3r3) { s3(rax, -2.75, 2, 2.5); }
// double eigenvalue, the simple one along a diagonal of the axes
H(h_3diag)
{
	vs_opt("const_num", 1); double k = vs_real("k"); ASSUME(k > 3 && k < 20); double c = vs_choose("neg", 0, 1) ? -0.25 : 0.25; int g = vs_choose("signs", 0, 3); double s[3] = {1, g & 1 ? -1. : 1., g & 2 ? -1. : 1.};
	Matrix<3> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = (i == j ? k : 0) + c * s[i] * s[j];
	PW[0] = c < 0 ? k - 0.75 : k; PW[1] = k; PW[2] = c > 0 ? k + 0.75 : k; SymEigen<3> e(m); dec3(e, m);
}
// and of no special direction, with two equal elements or of any size
H(h_3plane)
{
	vs_opt("const_num", 1); double k = vs_real("k"); ASSUME(k > 3 && k < 20); double c = vs_choose("neg", 0, 1) ? -0.25 : 0.25; int p = vs_choose("perm", 0, 2), g = vs_choose("which", 0, 3); double u[4][3] = {{1, 1, 0}, {1, -1, 0}, {2, 1, 1}, {2, -1, 1}}, s[3]; for (int i = 0; i < 3; i++) s[i] = u[g][(i + p) % 3];
	double n = s[0] * s[0] + s[1] * s[1] + s[2] * s[2];
	Matrix<3> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = (i == j ? k : 0) + c * s[i] * s[j];
	PW[0] = c < 0 ? k + c * n : k; PW[1] = k; PW[2] = c > 0 ? k + c * n : k; SymEigen<3> e(m); dec3(e, m);
}
// higher orders and wide right-hand sides
H(h_big4) { all<4>(4, vs_choose("sign", 0, 1)); }
H(h_big5) { all<5>(5, vs_choose("sign", 0, 2)); }
H(h_big6d) { all<Dynamic>(6, 0); }
template<int S, int C> static void wide(int n, int k) { plant(n, 0); Matrix<S> m(n, n); put(m); SymEigen<S> e(m); Matrix<S, C> B(n, k); bigrhs(B); Matrix<> X = e.backsub(B); vs_eqi(X.num_cols(), k, "columns"); eqm(Matrix<>(m * X), B, "A X = B"); }
H(h_wide1) { wide<1, 5>(1, 5); }
H(h_wide2) { wide<Dynamic, 7>(2, 7); }
H(h_wide4) { wide<4, 6>(4, 6); }
