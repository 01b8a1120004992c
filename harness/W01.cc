// BOUNDS: every measurement, Jacobian, weight, inverse covariance and prior with 1 to 3 (some 5) parameters, static and run-time sized, up to 2 measurements per call; sparse blocks at every position that fits, overlapping included
// OPTS: time=60
#include "hcommon.h"
#include <TooN/wls.h>
// what has been accumulated, computed from the definition
static int N; static double RC[6][6], RV[6];
static void ref0(int n) { N = n; for (int i = 0; i < 6; i++) { RV[i] = 0; for (int j = 0; j < 6; j++) RC[i][j] = 0; } }
// measurement m with Jacobian row J (placed at index), second row K: += w m J, w J K^T
template<class V> static void ref(double m, const V& J, double w, int at = 0) { for (int i = 0; i < J.size(); i++) { RV[at + i] += w * m * J[i]; for (int j = 0; j < J.size(); j++) RC[at + i][at + j] += w * J[i] * J[j]; } }
// rows J of a whole batch with inverse covariance W
template<class V, class M, class K> static void refb(const V& m, const M& J, const K& W) { for (int a = 0; a < m.size(); a++) for (int b = 0; b < m.size(); b++) for (int i = 0; i < J.num_cols(); i++) { RV[i] += J(a, i) * W(a, b) * m[b]; for (int j = 0; j < J.num_cols(); j++) RC[i][j] += J(a, i) * W(a, b) * J(b, j); } }
template<class K> static void sym(K& W, const char* n) { for (int i = 0; i < W.num_rows(); i++) for (int j = 0; j <= i; j++) { double x = vs_real(n); W(i, j) = x; W(j, i) = x; } }
template<class W> static void cmp(W& w, const char* l) { for (int i = 0; i < N; i++) { vs_eq(w.get_vector()[i], RV[i], l); for (int j = i; j < N; j++) vs_eq(w.get_C_inv()(i, j), RC[i][j], l); } }
static void regular() { ASSUME(RC[0][0] > 0.1); if (N > 1) ASSUME(RC[0][0] * RC[1][1] - RC[0][1] * RC[0][1] > 0.1); if (N > 2) ASSUME(RC[0][0] * (RC[1][1] * RC[2][2] - RC[1][2] * RC[1][2]) - RC[0][1] * (RC[0][1] * RC[2][2] - RC[1][2] * RC[0][2]) + RC[0][2] * (RC[0][1] * RC[1][2] - RC[1][1] * RC[0][2]) > 0.1); }
// compute(): the whole symmetric matrix, and the solution of C mu = v
template<class W> static void solved(W& w)
{
	regular(); w.compute(); cmp(w, "compute keeps the sums"); for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) vs_eq(w.get_C_inv()(i, j), RC[i][j], "both triangles after compute");
	for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s += RC[i][j] * w.get_mu()[j]; vs_eq(s, RV[i], "normal equations solved"); }
}
template<int S> static void fresh(int n) { ref0(n); WLS<S> w(n); cmp(w, "starts empty"); vs_eqi(w.get_vector().size(), n, "size"); vs_eqi(w.get_C_inv().num_rows(), n, "size"); vs_eqi(w.get_C_inv().num_cols(), n, "size"); vs_eqi(w.get_mu().size(), n, "size"); Vector<S> J(n); fill(J, "J"); double m = vs_real("m"); w.add_mJ(m, J); ref(m, J, 1); cmp(w, "weight one by default"); w.clear(); ref0(n); cmp(w, "clear"); w.add_mJ(m, J, 2); ref(m, J, 2); cmp(w, "used again after clear"); }
H(h_fresh) { int n = vs_choose("n", 1, 3); fresh<Dynamic>(n); }
H(h_fresh_s) { fresh<1>(1); fresh<2>(2); fresh<3>(3); }
template<int S> static void mj(int n)
{
	ref0(n); WLS<S> w(n); Vector<S> J(n), K(n); fill(J, "J"); fill(K, "K"); double m = vs_real("m"), k = vs_real("k"), a = vs_real("a"), b = vs_real("b"); w.add_mJ(m, J, a); ref(m, J, a); cmp(w, "one measurement"); w.add_mJ(k, K, b); ref(k, K, b); cmp(w, "two measurements");
	Matrix<2, S> G(2, n); fillm(G, "G"); Vector<2> e; fill(e, "e"); w.add_mJ(e, G, a); for (int r = 0; r < 2; r++) ref(e[r], G[r], a); cmp(w, "measurements one per row");
	Matrix<Dynamic, S> D(2, n); D = G; Vector<> d(2); d = e; w.add_mJ(d, D); for (int r = 0; r < 2; r++) ref(e[r], G[r], 1); cmp(w, "measurements one per row"); Matrix<S, S, double, ColMajor> C(n, n); fillm(C, "C"); w.add_mJ(m, C[0], b); ref(m, C[0], b); cmp(w, "row of a matrix");
}
H(h_mj) { int n = vs_choose("n", 1, 3); mj<Dynamic>(n); }
H(h_mj_s) { mj<2>(2); mj<3>(3); }
template<int S> static void cov(int n)
{
	ref0(n); WLS<S> w(n); Matrix<2> W; sym(W, "W"); Matrix<2, S> J(2, n); fillm(J, "J"); Vector<2> m; fill(m, "m"); w.add_mJ_rows(m, J, W); refb(m, J, W); cmp(w, "rows with an inverse covariance"); Matrix<S, 2> T(n, 2); T = J.T(); w.add_mJ(m, T, W); refb(m, J, W); cmp(w, "columns with an inverse covariance");
	Vector<> dm(2); dm = m; Matrix<> dW(2, 2); dW = W; Matrix<Dynamic, S> dJ(2, n); dJ = J; w.add_mJ_rows(dm, dJ, dW); refb(m, J, W); cmp(w, "run-time sized rows"); Matrix<S, Dynamic> dT(n, 2); dT = T; w.add_mJ(dm, dT, dW); refb(m, J, W); cmp(w, "run-time sized columns");
	w.add_mJ_rows(m, T.T(), W); refb(m, J, W); cmp(w, "transposed view");
}
H(h_cov) { int n = vs_choose("n", 1, 3); cov<Dynamic>(n); }
H(h_cov_s) { cov<2>(2); cov<3>(3); }
// derivatives of part of the parameters
template<int S> static void sparse1(int n)
{
	ref0(n); WLS<S> w(n); int at = vs_choose("at", 0, 1); Vector<2> J; fill(J, "J"); double m = vs_real("m"), a = vs_real("a"); w.add_sparse_mJ(m, J, at, a); ref(m, J, a, at); cmp(w, "sparse measurement"); Vector<> d(2); d = J; w.add_sparse_mJ(m, d, at); ref(m, J, 1, at); cmp(w, "sparse run-time sized measurement"); Vector<1> k; k[0] = vs_real("k"); w.add_sparse_mJ(m, k, n - 1, a); ref(m, k, a, n - 1); cmp(w, "last parameter");
}
H(h_sparse) { sparse1<Dynamic>(3); }
H(h_sparse_s) { sparse1<3>(3); }
template<int S> static void sparse2(int n)
{
	ref0(n); WLS<S> w(n); int at = vs_choose("at", 0, 1); Matrix<2> J, W; fillm(J, "J"); sym(W, "W"); Vector<2> m; fill(m, "m"); w.add_sparse_mJ_rows(m, J, at, W); Matrix<> F(2, n); F = Zeros; F.slice(0, at, 2, 2) = J; refb(m, F, W); cmp(w, "sparse rows"); Matrix<> dJ(2, 2), dW(2, 2); dJ = J; dW = W; Vector<> dm(2); dm = m; w.add_sparse_mJ_rows(dm, dJ, at, dW); refb(m, F, W); cmp(w, "sparse run-time sized rows");
}
H(h_srows) { sparse2<Dynamic>(3); }
H(h_srows_s) { sparse2<3>(3); }
template<int S> static void sparse3(int n)
{
	ref0(n); WLS<S> w(n); int at = vs_choose("at", 0, n - 2), bt = vs_choose("bt", 0, n - 1); Matrix<2> J, W; fillm(J, "J"); sym(W, "W"); Matrix<2, 1> K; fillm(K, "K"); Vector<2> m; fill(m, "m"); Matrix<> F(2, n); F = Zeros; F.slice(0, at, 2, 2) += J; F.slice(0, bt, 2, 1) += K; w.add_sparse_mJ_rows(m, J, at, K, bt, W); refb(m, F, W); cmp(w, "two sparse blocks"); w.add_sparse_mJ_rows(m, K, bt, J, at, W); refb(m, F, W); cmp(w, "two sparse blocks, the other order");
	Matrix<> dJ(2, 2), dK(2, 1), dW(2, 2); dJ = J; dK = K; dW = W; Vector<> dm(2); dm = m; w.add_sparse_mJ_rows(dm, dJ, at, dK, bt, dW); refb(m, F, W); cmp(w, "two run-time sized sparse blocks");
}
H(h_srows2) { sparse3<Dynamic>(vs_choose("n", 2, 4)); }
H(h_srows2_s) { sparse3<3>(3); }
template<int S> static void prior(int n)
{
	ref0(n); WLS<S> w(n); double p = vs_real("p"); w.add_prior(p); for (int i = 0; i < n; i++) RC[i][i] += p; cmp(w, "scalar prior"); Vector<S> v(n); fill(v, "v"); w.add_prior(v); for (int i = 0; i < n; i++) RC[i][i] += v[i]; cmp(w, "diagonal prior"); Matrix<S> M(n, n); sym(M, "M"); w.add_prior(M); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) RC[i][j] += M(i, j); cmp(w, "matrix prior");
}
H(h_prior) { int n = vs_choose("n", 1, 3); prior<Dynamic>(n); }
H(h_prior_s) { prior<1>(1); prior<3>(3); }
template<int S> static void plus(int n)
{
	ref0(n); WLS<S> w(n), u(n); Vector<S> J(n), K(n); fill(J, "J"); fill(K, "K"); double m = vs_real("m"), k = vs_real("k"); w.add_mJ(m, J); u.add_mJ(k, K); ref(m, J, 1); ref(k, K, 1); w += u; cmp(w, "sum of two problems"); ref0(n); ref(k, K, 1); cmp(u, "right operand unchanged"); WLS<S> c(w); w.clear(); ref(m, J, 1); cmp(c, "copy"); u = c; cmp(u, "assigned"); u += u; ref(m, J, 1); ref(k, K, 1); cmp(u, "added to itself");
}
H(h_plus) { int n = vs_choose("n", 1, 3); plus<Dynamic>(n); }
H(h_plus_s) { plus<3>(3); }
// solving: any normal matrix with positive leading minors
template<int S> static void solve(int n)
{
	ref0(n); WLS<S> w(n); Matrix<S> M(n, n); sym(M, "M"); w.add_prior(M); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) RC[i][j] = M(i, j); for (int i = 0; i < n; i++) { Vector<1> e; e[0] = 1; double x = vs_real("x"); RV[i] = x; w.get_vector()[i] = x; } solved(w);
}
H(h_solve) { int n = vs_choose("n", 1, 3); solve<Dynamic>(n); }
H(h_solve_s) { solve<1>(1); solve<2>(2); solve<3>(3); }
// whole use: measurements, compute, more measurements, compute
template<int S> static void use(int n)
{
	ref0(n); WLS<S> w(n); w.add_prior(1); for (int i = 0; i < n; i++) RC[i][i] += 1; Vector<S> J(n); fill(J, "J"); double m = vs_real("m"), a = vs_real("a"); ASSUME(a > 0); w.add_mJ(m, J, a); ref(m, J, a); solved(w); Vector<1> e; e[0] = vs_real("e"); double k = vs_real("k"); w.add_sparse_mJ(k, e, n - 1); ref(k, e, 1, n - 1); cmp(w, "added after compute"); solved(w);
}
H(h_use) { use<2>(2); }
H(h_use_d) { use<Dynamic>(vs_choose("n", 1, 2)); }
extern "C" void ht_use3() { use<3>(3); }
H(h_merge) { WLS<2> w, u; ref0(2); w.add_prior(1); RC[0][0] = RC[1][1] = 1; Vector<2> J; fill(J, "J"); double m = vs_real("m"), a = vs_real("a"); ASSUME(a > 0.1); u.add_prior(1); u.compute(); RC[0][0] = RC[1][1] = 2; w.add_mJ(m, J, a); ref(m, J, a); u += w; cmp(u, "computed and open problems added"); solved(u); }
// sizes that do not fit
H(h_size)
{
	int n = vs_choose("n", 0, 3), k = vs_choose("k", 0, 4); WLS<> w(2); ref0(2); bool bad = n != 2; vs_abort_ok(bad); Vector<> J(n); fill(J, "J"); double m = vs_real("m");
	if (k == 0) { w.add_mJ(m, J); CHECK(!bad, "sizes that do not fit stop the program"); ASSUME(!bad); ref(m, J, 1); }
	if (k == 1) { w.add_prior(J); CHECK(!bad, "sizes that do not fit stop the program"); ASSUME(!bad); RC[0][0] = J[0]; RC[1][1] = J[1]; }
	if (k == 2) { Matrix<> M(n, n); sym(M, "M"); w.add_prior(M); CHECK(!bad, "sizes that do not fit stop the program"); ASSUME(!bad); RC[0][0] = M(0, 0); RC[1][1] = M(1, 1); RC[0][1] = M(0, 1); }
	if (k == 3) { Matrix<> G(1, n); G[0] = J; Vector<> e(1); e[0] = m; w.add_mJ(e, G); CHECK(!bad, "sizes that do not fit stop the program"); ASSUME(!bad); ref(m, J, 1); }
	if (k == 4) { WLS<> u(n); u.add_mJ(m, J); w += u; CHECK(!bad, "sizes that do not fit stop the program"); ASSUME(!bad); ref(m, J, 1); }
	cmp(w, "sizes that fit");
}
H(h_rows) { int n = vs_choose("n", 0, 3); WLS<2> w; ref0(2); bool bad = n != 2; vs_abort_ok(bad); Matrix<> G(2, 2); fillm(G, "G"); Vector<> e(n); fill(e, "e"); w.add_mJ(e, Matrix<Dynamic, 2>(G)); CHECK(!bad, "as many measurements as rows"); ASSUME(!bad); for (int r = 0; r < 2; r++) ref(e[r], G[r], 1); cmp(w, "sizes that fit"); }
H(h_float)
{
	WLS<2, float> w; Vector<2, float> J; J[0] = vs_float("J"); J[1] = vs_float("J"); float m = vs_float("m"), a = vs_float("a"); ref0(2); w.add_mJ(m, J, a); ref(m, J, a); cmp(w, "single precision"); Matrix<2, 2, float> W; W[0][0] = vs_float("W"); W[1][1] = vs_float("W"); W[0][1] = W[1][0] = vs_float("W"); Matrix<2, 2, float> G; for (int i = 0; i < 4; i++) G[i / 2][i % 2] = vs_float("G"); Vector<2, float> e; e[0] = vs_float("e"); e[1] = vs_float("e"); w.add_mJ_rows(e, G, W); refb(e, G, W); cmp(w, "single precision"); w.add_prior(a); RC[0][0] += a; RC[1][1] += a; cmp(w, "single precision"); w.add_sparse_mJ(m, J, 0, a); ref(m, J, a); cmp(w, "single precision"); solved(w);
}
H(h_mixed) { WLS<2> w; Vector<2, float> J; J[0] = vs_float("J"); J[1] = vs_float("J"); double m = vs_real("m"), a = vs_real("a"); ref0(2); w.add_mJ(m, J, a); ref(m, J, a); cmp(w, "single precision Jacobian"); }
// more parameters
H(h_b_mj) { mj<5>(5); }
H(h_b_mjd) { mj<Dynamic>(5); }
H(h_b_cov) { cov<5>(5); }
H(h_b_covd) { cov<Dynamic>(4); }
H(h_b_prior) { prior<5>(5); }
H(h_b_plus) { plus<5>(5); }
template<int S> static void bsparse(int n, int bl)
{
	ref0(n); WLS<S> w(n); int at = vs_choose("at", 0, n - bl); Vector<> J(bl); fill(J, "J"); double m = vs_real("m"); w.add_sparse_mJ(m, J, at); ref(m, J, 1, at); cmp(w, "sparse measurement");
	Matrix<> K(2, bl), W(2, 2), F(2, n); fillm(K, "K"); sym(W, "W"); Vector<> e(2); fill(e, "e"); w.add_sparse_mJ_rows(e, K, at, W); F = Zeros; F.slice(0, at, 2, bl) = K; refb(e, F, W); cmp(w, "sparse rows");
}
H(h_b_sparse) { bsparse<5>(5, vs_choose("bl", 1, 4)); }
H(h_b_sparsed) { bsparse<Dynamic>(5, 3); }
H(h_b_srows2) { sparse3<5>(5); }
// the whole of it with as many parameters: diagonal prior and two measurements, concrete but for the values measured
template<int S> static void bsolve(int n)
{
	ref0(n); WLS<S> w(n); w.add_prior(2.0); for (int i = 0; i < n; i++) RC[i][i] += 2; Vector<S> J(n), K(n); for (int i = 0; i < n; i++) { J[i] = (i * 3) % 5 - 2; K[i] = (i * 2 + 1) % 5 - 1; } int k = vs_choose("k", 0, n - 1); J[k] = vs_real("J"); ASSUME(J[k] > -10 && J[k] < 10); double a = vs_real("a"), b = vs_real("b");
	w.add_mJ(a, J, 2.0); ref(a, J, 2.0); w.add_mJ(b, K); ref(b, K, 1); w.compute(); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) { vs_eq(w.get_C_inv()(i, j), RC[i][j], "both triangles after compute"); s += RC[i][j] * w.get_mu()[j]; } vs_eq(s, RV[i], "normal equations solved"); }
}
H(h_b_solve4) { bsolve<4>(4); }
H(h_b_solve5) { bsolve<Dynamic>(5); }
