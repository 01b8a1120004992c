// BOUNDS: (order 4..6 and 4..9 right-hand columns with one symbolic line) symmetric matrices of order 1..4 (static and run-time, row- and column-major input), definite or not, every rank; 1..3 right-hand columns; all values symbolic
// OPTS: time=60
#include "hcommon.h"
#include <TooN/Cholesky.h>
template<class M> static void symm(M&& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j <= i; j++) m(j, i) = m(i, j) = vs_real("a"); }
// without pivoting the decomposition stops at the first leading principal minor that vanishes
template<class M> static double minor_(const M& m, int k) { if (k == 1) return m(0, 0); if (k == 2) return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0); double s = 0; for (int c = 0; c < k; c++) { Matrix<> r(k - 1, k - 1); for (int i = 1; i < k; i++) for (int j = 0, q = 0; j < k; j++) if (j != c) r(i - 1, q++) = m(i, j); s += (c % 2 ? -1 : 1) * m(0, c) * minor_(r, k - 1); } return s; }
template<class C, class M> static bool full(const C& c, const M& m) { int r = c.rank(), n = m.num_rows(); CHECK(r >= 0 && r <= n, "rank in range"); if (r == n) return true; vs_eq(minor_(m, r + 1), 0, "a leading minor vanishes when the rank is deficient"); return false; }
template<int S, class M> static void ldl(const M& m)
{
	const int n = m.num_rows(); Cholesky<S> c(m); if (!full(c, m)) return;
	Matrix<S> L = c.get_unscaled_L(), D = c.get_D();
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (j > i) vs_eq(L(i, j), 0, "L is lower triangular"); if (j == i) vs_eq(L(i, j), 1, "L has a unit diagonal"); else vs_eq(D(i, j), 0, "D is diagonal"); }
	Matrix<S> p = L * D * L.T(); eqm(p, m, "A = L D L^T");
	double det = 1; for (int i = 0; i < n; i++) det *= D(i, i); vs_eq(c.determinant(), det, "determinant is the product of D");
}
template<int S, class M> static void use(const M& m)
{
	const int n = m.num_rows(); Cholesky<S> c(m); ASSUME(c.rank() == n);
	Vector<S> b(n); fill(b, "b"); Vector<S> x = c.backsub(b); eqv(m * x, b, "A x = b");
	Matrix<S, 2> B(n, 2); fillm(B, "B"); Matrix<S, 2> X = c.backsub(B); eqm(m * X, B, "A X = B");
	vs_eq(c.mahalanobis(b), b * x, "mahalanobis is b^T A^-1 b");
}
template<int S, class M> static void inv_(const M& m) { const int n = m.num_rows(); Cholesky<S> c(m); ASSUME(c.rank() == n); Matrix<S> I = c.get_inverse(); Matrix<S> p = m * I; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(p(i, j), i == j, "A A^-1 = I"); }
H(h_ldl1) { Matrix<1> m; symm(m); ldl<1>(m); }
H(h_ldl2) { Matrix<2> m; symm(m); ldl<2>(m); }
H(h_ldl3) { Matrix<3> m; symm(m); ldl<3>(m); }
H(h_ldl4) { Matrix<4> m; symm(m); ldl<4>(m); }
H(h_ldl3d) { Matrix<> m(3, 3); symm(m); ldl<Dynamic>(m); }
H(h_ldl3c) { Matrix<3, 3, double, ColMajor> m; symm(m); ldl<3>(m); }
H(h_ldl2s) { Matrix<4> m; fillm(m); symm(m.slice<1, 1, 2, 2>()); ldl<2>(m.slice<1, 1, 2, 2>()); }
H(h_use1) { Matrix<1> m; symm(m); use<1>(m); }
H(h_use2) { Matrix<2> m; symm(m); use<2>(m); }
H(h_use3) { Matrix<3> m; symm(m); use<3>(m); }
H(h_use3d) { Matrix<> m(3, 3); symm(m); use<Dynamic>(m); }
H(h_inv1) { Matrix<1> m; symm(m); inv_<1>(m); }
H(h_inv2) { Matrix<2> m; symm(m); inv_<2>(m); }
H(h_inv3) { Matrix<3> m; symm(m); inv_<3>(m); }
H(h_inv2d) { Matrix<> m(2, 2); symm(m); inv_<Dynamic>(m); }
extern "C" void ht_use4() { Matrix<4> m; symm(m); use<4>(m); }
extern "C" void ht_inv4() { Matrix<4> m; symm(m); inv_<4>(m); }
// positive definite: A = G G^T with G lower triangular, positive diagonal
template<int N> static void pd() { Matrix<N> g = Zeros; for (int i = 0; i < N; i++) { for (int j = 0; j <= i; j++) g(i, j) = vs_real("g"); ASSUME(g(i, i) > 0.01); } Matrix<N> a = g * g.T(); Cholesky<N> c(a); eqm(c.get_L(), g, "get_L is the lower Cholesky factor with positive diagonal"); }
H(h_pd1) { pd<1>(); }
H(h_pd2) { pd<2>(); }
H(h_pd3) { pd<3>(); }
// rank: A = L D L^T with an invertible unit lower L and r leading non-zero pivots (integers and powers of two: no rounding in the replay)
template<int N> static void rk() { int r = vs_choose("r", 0, N); Matrix<N> L = Identity; Vector<N> d = Zeros; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) L(i, j) = vs_int("l", -9, 9); static const double P[6] = {1, -1, 2, -2, 0.5, -4}; for (int i = 0; i < r; i++) d[i] = P[vs_choose("d", 0, N > 2 ? 2 : 5)]; Matrix<N> a = L * d.as_diagonal() * L.T(); Cholesky<N> c; c.compute(a); vs_eqi(c.rank(), r, "rank"); double p = 1; for (int i = 0; i < N; i++) p *= d[i]; vs_eq(c.determinant(), p, "determinant, zero when the rank is deficient"); }
H(h_rk1) { rk<1>(); }
H(h_rk2) { rk<2>(); }
H(h_rk3) { rk<3>(); }
// recomputing, sized construction, mismatching sizes
H(h_re) { Matrix<2> a, b; symm(a); symm(b); Cholesky<2> c(a); c.compute(b); ASSUME(c.rank() == 2); Vector<2> v; fill(v); eqv(b * c.backsub(v), v, "recomputed decomposition"); vs_eq(c.determinant(), b[0][0] * b[1][1] - b[0][1] * b[0][1], "determinant"); }
H(h_sz) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Cholesky<> c(n); Matrix<> m(k, k); symm(m); int bad = n != k; vs_abort_ok(bad); c.compute(m); CHECK(!bad, "mismatching size accepted"); ASSUME(!bad && c.rank() == n); Vector<> v(n); fill(v); eqv(m * c.backsub(v), v, "A x = b"); }
H(h_ns) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Zeros(n, k); for (int i = 0; i < n && i < k; i++) m[i][i] = 2; int bad = n != k; vs_abort_ok(bad); Cholesky<> c(m); CHECK(!bad, "non-square accepted"); ASSUME(!bad); vs_eqi(c.rank(), n, "rank"); }
H(h_bs) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Identity(n); Vector<> v(k); fill(v); int bad = n != k; Cholesky<> c(m); vs_abort_ok(bad); Vector<> x = c.backsub(v); CHECK(!bad, "mismatching right-hand side accepted"); ASSUME(!bad); eqv(x, v, "I x = b"); }
H(h_bm) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Identity(n), v(k, 2); fillm(v); int bad = n != k; Cholesky<> c(m); vs_abort_ok(bad); Matrix<> x = c.backsub(v); CHECK(!bad, "mismatching right-hand side accepted"); ASSUME(!bad); eqm(x, v, "I X = B"); }
// single precision input into a double decomposition and the other way round
H(h_mix) { Matrix<2, 2, float> f; for (int i = 0; i < 2; i++) for (int j = 0; j <= i; j++) f(i, j) = f(j, i) = vs_float("f"); Cholesky<2, double> c(f); ASSUME(c.rank() == 2); Matrix<2> d = f; Vector<2> v; fill(v); eqv(d * c.backsub(v), v, "A x = b in double"); }
// higher orders, wide right-hand sides
#include "large.h"
template<int S> static void bigch(int n) { Matrix<S> m(n, n), g(n, n); bigpd(m, g); Cholesky<S> c(m); vs_eqi(c.rank(), n, "rank"); Matrix<S> L = c.get_unscaled_L(), D = c.get_D(); eqm(Matrix<>(L * D * L.T()), m, "A = L D L^T"); if (n < 6) eqm(c.get_L(), g, "get_L is the lower factor"); double d = 1; for (int i = 0; i < n; i++) d *= g(i, i) * g(i, i); vs_eq(c.determinant(), d, "determinant"); Matrix<> p = m * c.get_inverse(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(p(i, j), i == j, "A A^-1 = I"); Vector<S> b(n); fill(b); Vector<S> x = c.backsub(b); eqv(m * x, b, "A x = b"); vs_eq(c.mahalanobis(b), b * x, "mahalanobis is b^T A^-1 b"); }
H(h_big4) { bigch<4>(4); }
H(h_big5) { bigch<5>(5); }
H(h_big5d) { bigch<Dynamic>(5); }
H(h_big6) { bigch<6>(6); }
template<int S, int C> static void bigw(int n, int k) { Matrix<S> m(n, n), g(n, n); bigpd(m, g); Cholesky<S> c(m); Matrix<S, C> B(n, k); bigrhs(B); Matrix<S, C> X = c.backsub(B); vs_eqi(X.num_cols(), k, "columns"); eqm(m * X, B, "A X = B"); }
H(h_wide1) { bigw<1, 7>(1, 7); }
H(h_wide2) { bigw<2, 7>(2, 7); }
H(h_wide3) { bigw<3, 5>(3, 5); }
H(h_wided) { bigw<Dynamic, Dynamic>(2, 9); }
H(h_wide5) { bigw<5, 6>(5, 6); }
