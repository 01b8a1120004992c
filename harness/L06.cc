// BOUNDS: symmetric positive definite matrices of order 1..3 (thorough 4), static and run-time sized, row- and column-major input; indefinite and deficient matrices for the rank; 1..3 right-hand columns; all values symbolic
// LIBS: -llapack -lblas
// OPTS: time=60
#include "lapack_ref.h"
#include <TooN/Lapack_Cholesky.h>
// every positive definite matrix is G G^T for exactly one lower triangular G with positive diagonal
template<class M, class G> static void pd(M&& m, G& g) { const int n = m.num_rows(); g = Zeros; for (int i = 0; i < n; i++) { for (int j = 0; j <= i; j++) g(i, j) = vs_real("g"); ASSUME(g(i, i) > 0.1); } Matrix<> p = g * g.T(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = p(i, j); }
template<int S, class M> static void fac(M&& m)
{
	const int n = m.num_rows(); Matrix<> g(n, n); pd(m, g); Lapack_Cholesky<S> c(m); vs_eqi(c.rank(), n, "rank of a positive definite matrix");
	Matrix<S> L = c.get_L(); eqm(L, g, "get_L is the lower factor, zero above the diagonal");
	double d = 1; for (int i = 0; i < n; i++) d *= g(i, i) * g(i, i); vs_eq(c.determinant(), d, "determinant");
}
template<int S, class M> static void use(M&& m)
{
	const int n = m.num_rows(); Matrix<> g(n, n); pd(m, g); Lapack_Cholesky<S> c(m);
	Vector<S> b(n); fill(b, "b"); Vector<S> x = c.backsub(b); eqv(m * x, b, "A x = b"); vs_eq(c.mahalanobis(b), b * x, "mahalanobis is b^T A^-1 b");
	Matrix<S, 2> B(n, 2); fillm(B, "B"); Matrix<S, 2> X = c.backsub(B); eqm(m * X, B, "A X = B");
	Matrix<S> I = c.get_inverse(); Matrix<> p = m * I; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(p(i, j), i == j, "A A^-1 = I");
}
H(h_f1) { Matrix<1> m; fac<1>(m); }
H(h_f2) { Matrix<2> m; fac<2>(m); }
H(h_f3) { Matrix<3> m; fac<3>(m); }
H(h_f3d) { Matrix<> m(3, 3); fac<Dynamic>(m); }
H(h_f2c) { Matrix<2, 2, double, ColMajor> m; fac<2>(m); }
H(h_f2s) { Matrix<3> m; fillm(m); fac<2>(m.slice<1, 0, 2, 2>()); }
H(h_u1) { Matrix<1> m; use<1>(m); }
H(h_u2) { Matrix<2> m; use<2>(m); }
H(h_u3) { Matrix<3> m; use<3>(m); }
H(h_u2d) { Matrix<> m(2, 2); use<Dynamic>(m); }
H(h_u3d) { Matrix<> m(3, 3); use<Dynamic>(m); }
H(h_u2c) { Matrix<2, 2, double, ColMajor> m; use<2>(m); }
extern "C" void ht_f4() { Matrix<4> m; fac<4>(m); }
extern "C" void ht_u4() { Matrix<4> m; use<4>(m); }
// wide and single right-hand sides, other layouts of the right-hand side
H(h_cols) { Matrix<2> m, g; pd(m, g); Lapack_Cholesky<2> c(m); Matrix<2, 3> B; fillm(B, "B"); eqm(m * c.backsub(B), B, "A X = B"); Matrix<2, 1> C; fillm(C, "C"); eqm(m * c.backsub(C), C, "A X = B"); eqm(m * c.backsub(B.T().T()), B, "A X = B"); Matrix<3, 2> D; fillm(D, "D"); eqm(m * c.backsub(D.T()), D.T(), "A X = B"); Matrix<> E(2, 3); fillm(E, "E"); Matrix<> X = c.backsub(E); vs_eqi(X.num_cols(), 3, "columns"); eqm(m * X, E, "A X = B"); Matrix<2, 4> F; fillm(F, "F"); eqv(m * c.backsub(F.T()[2]), F.T()[2], "A x = b"); }
// rank of a matrix whose first failing leading minor is zero or negative (values exact in floating point)
template<int N> static void rk() { int r = vs_choose("r", 0, N), neg = vs_choose("neg", 0, 1); Matrix<N> L = Identity; Vector<N> d = Zeros; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) L(i, j) = vs_int("l", -9, 9); static const double P[2] = {1, 4}; for (int i = 0; i < r; i++) d[i] = P[vs_choose("d", 0, 1)]; if (r < N && neg) d[r] = -1; Matrix<N> a = L * d.as_diagonal() * L.T(); Lapack_Cholesky<N> c(a); vs_eqi(c.rank(), r, "rank: order of the leading positive definite block"); }
H(h_rk1) { rk<1>(); }
H(h_rk2) { rk<2>(); }
H(h_rk3) { rk<3>(); }
H(h_re) { Matrix<2> a, b, g; pd(a, g); pd(b, g); Lapack_Cholesky<2> c(a); c.compute(b); Vector<2> v; fill(v); eqv(b * c.backsub(v), v, "recomputed decomposition"); eqm(c.get_L(), g, "recomputed factor"); Lapack_Cholesky<2> e; e.compute(a); eqv(a * e.backsub(v), v, "computed after default construction"); }
H(h_sz) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Lapack_Cholesky<Dynamic> c(n); Matrix<> m(k, k), g(k, k); pd(m, g); int bad = n != k; vs_abort_ok(bad); c.compute(m); CHECK(!bad, "mismatching size accepted"); ASSUME(!bad); Vector<> v(n); fill(v); eqv(m * c.backsub(v), v, "A x = b"); }
H(h_ns) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Zeros(n, k); for (int i = 0; i < n && i < k; i++) m[i][i] = 4; int bad = n != k; vs_abort_ok(bad); Lapack_Cholesky<Dynamic> c(m); CHECK(!bad, "non-square accepted"); ASSUME(!bad); vs_eqi(c.rank(), n, "rank"); }
H(h_bs) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Identity(n); Vector<> v(k); fill(v); int bad = n != k; Lapack_Cholesky<Dynamic> c(m); vs_abort_ok(bad); Vector<> x = c.backsub(v); CHECK(!bad, "mismatching right-hand side accepted"); ASSUME(!bad); eqv(x, v, "I x = b"); }
H(h_bm) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Identity(n), v(k, 2); fillm(v); int bad = n != k; Lapack_Cholesky<Dynamic> c(m); vs_abort_ok(bad); Matrix<> x = c.backsub(v); CHECK(!bad, "mismatching right-hand side accepted"); ASSUME(!bad); eqm(x, v, "I X = B"); }
H(h_fl) { Matrix<2, 2, float> m, g = Zeros; g(0, 0) = vs_float("g"); g(1, 0) = vs_float("g"); g(1, 1) = vs_float("g"); ASSUME(g(0, 0) > 0.5f && g(1, 1) > 0.5f); m = g * g.T(); Lapack_Cholesky<2, float> c(m); Matrix<2, 2, float> L = c.get_L(), I = m * Matrix<2, 2, float>(c.get_inverse()); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(L(i, j), g(i, j), "single precision factor", 1e-2); vs_eq(I(i, j), i == j, "single precision inverse", 1e-2); } }
// higher orders and wide right-hand sides
#include "large.h"
template<int S, class M> static void bigu(M&& m) { const int n = m.num_rows(); Matrix<> g(n, n); bigpd(m, g); Lapack_Cholesky<S> c(m); vs_eqi(c.rank(), n, "rank"); Matrix<S> L = c.get_L(); eqm(L, g, "get_L is the lower factor"); double d = 1; for (int i = 0; i < n; i++) d *= g(i, i) * g(i, i); vs_eq(c.determinant(), d, "determinant"); Matrix<S> I = c.get_inverse(); Matrix<> p = m * I; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(p(i, j), i == j, "A A^-1 = I"); Vector<S> b(n); fill(b); Vector<S> x = c.backsub(b); eqv(m * x, b, "A x = b"); vs_eq(c.mahalanobis(b), b * x, "mahalanobis is b^T A^-1 b"); }
H(h_big4) { Matrix<4> m; bigu<4>(m); }
H(h_big5) { Matrix<5> m; bigu<5>(m); }
H(h_big6) { Matrix<6> m; bigu<6>(m); }
H(h_big5d) { Matrix<> m(5, 5); bigu<Dynamic>(m); }
template<int S, int C> static void bigw(int n, int k) { Matrix<S> m(n, n), g(n, n); bigpd(m, g); Lapack_Cholesky<S> c(m); Matrix<S, C> B(n, k); bigrhs(B); Matrix<S, C> X = c.backsub(B); vs_eqi(X.num_cols(), k, "columns"); eqm(m * X, B, "A X = B"); }
H(h_wide1) { bigw<1, 7>(1, 7); }
H(h_wide2) { bigw<2, 7>(2, 7); }
H(h_wide3) { bigw<3, 8>(3, 8); }
H(h_wided) { bigw<Dynamic, Dynamic>(2, 9); }
H(h_wide5) { bigw<5, 3>(5, 3); }
