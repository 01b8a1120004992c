// BOUNDS: (order 4..6 and up to 9 right-hand columns with one symbolic line or element) square matrices of order 1..3 (thorough 4), static and run-time sized, row- and column-major input, every pivot order, singular matrices included; 1..5 right-hand columns; all values symbolic
// LIBS: -llapack -lblas
// OPTS: time=60
#include "lapack_ref.h"
#include <TooN/LU.h>
template<class M> static double cof(const M& m, int n, const int* cols, int r) { if (r == n) return 1; double s = 0; int sg = 1; for (int k = 0; k < n - r; k++) { int c2[6], q = 0; for (int t = 0; t < n - r; t++) if (t != k) c2[q++] = cols[t]; s += sg * m(r, cols[k]) * cof(m, n, c2, r + 1); sg = -sg; } return s; }
template<class M> static double leib(const M& m) { int c[6] = {0, 1, 2, 3, 4, 5}; return cof(m, m.num_rows(), c, 0); }
// full LU: L unit lower, U upper with |L| <= 1, and A^T = P L U as LAPACK sees the transpose; what users see is the solution
template<int S, class M> static void solve(const M& m)
{
	const int n = m.num_rows(); LU<S> lu(m); vs_eqi(lu.get_info(), 0, "no failure reported for an invertible matrix");
	Vector<S> b(n); fill(b, "b"); Vector<S> x = lu.backsub(b); eqv(m * x, b, "A x = b");
}
template<int S, int C, class M> static void solvem(const M& m, int c) { const int n = m.num_rows(); LU<S> lu(m); Matrix<S, C> B(n, c); fillm(B, "B"); Matrix<S, C> X = lu.backsub(B); vs_eqi(X.num_cols(), c, "columns"); eqm(m * X, B, "A X = B"); }
template<int S, class M> static void det(const M& m) { LU<S> lu(m); vs_eq(lu.determinant(), leib(m), "determinant"); }
template<int S, class M> static void inv_(const M& m) { const int n = m.num_rows(); LU<S> lu(m); Matrix<S> I = lu.get_inverse(); Matrix<S> p = m * I; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(p(i, j), i == j, "A A^-1 = I"); Matrix<S> q = lu.get_inverse(); eqm(q, I, "asking again gives the same inverse"); }
H(h_s1) { Matrix<1> m; fillm(m); ASSUME(m[0][0] != 0); solve<1>(m); }
H(h_s2) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); solve<2>(m); }
H(h_s3) { Matrix<3> m; fillm(m); ASSUME(leib(m) != 0); solve<3>(m); }
H(h_s2d) { Matrix<> m(2, 2); fillm(m); ASSUME(leib(m) != 0); solve<Dynamic>(m); }
H(h_s2c) { Matrix<2, 2, double, ColMajor> m; fillm(m); ASSUME(leib(m) != 0); solve<2>(m); }
H(h_s2v) { Matrix<4> m; fillm(m); ASSUME(leib(m.slice<1, 2, 2, 2>()) != 0); solve<2>(m.slice<1, 2, 2, 2>()); }
H(h_m22) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); solvem<2, 2>(m, 2); }
H(h_m21) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); solvem<2, 1>(m, 1); }
H(h_m23) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); solvem<2, 3>(m, 3); }
H(h_m2d) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); solvem<2, Dynamic>(m, 2); }
H(h_md) { Matrix<> m(2, 2); fillm(m); ASSUME(leib(m) != 0); solvem<Dynamic, Dynamic>(m, 3); }
H(h_m24) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); solvem<2, 4>(m, 4); }
H(h_m25) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); solvem<2, Dynamic>(m, 5); }
H(h_md4) { Matrix<> m(2, 2); fillm(m); ASSUME(leib(m) != 0); solvem<Dynamic, Dynamic>(m, 4); }
H(h_m13) { Matrix<1> m; fillm(m); ASSUME(leib(m) != 0); solvem<1, 3>(m, 3); }
H(h_md15) { Matrix<> m(1, 1); fillm(m); ASSUME(leib(m) != 0); solvem<Dynamic, Dynamic>(m, 5); }
H(h_m34) { Matrix<3> m; fillm(m); ASSUME(leib(m) != 0); solvem<3, 4>(m, 4); }
H(h_m35) { Matrix<3> m; fillm(m); ASSUME(leib(m) != 0); solvem<3, 5>(m, 5); }
H(h_m32) { Matrix<3> m; fillm(m); ASSUME(leib(m) != 0); solvem<3, 2>(m, 2); }
H(h_det1) { Matrix<1> m; fillm(m); det<1>(m); }
H(h_det2) { Matrix<2> m; fillm(m); det<2>(m); }
H(h_det3) { Matrix<3> m; fillm(m); det<3>(m); }
H(h_det3d) { Matrix<> m(3, 3); fillm(m); det<Dynamic>(m); }
H(h_inv1) { Matrix<1> m; fillm(m); ASSUME(m[0][0] != 0); inv_<1>(m); }
H(h_inv2) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); inv_<2>(m); }
H(h_inv3) { Matrix<3> m; fillm(m); ASSUME(leib(m) != 0); inv_<3>(m); }
H(h_inv2d) { Matrix<> m(2, 2); fillm(m); ASSUME(leib(m) != 0); inv_<Dynamic>(m); }
extern "C" void ht_det4() { Matrix<4> m; fillm(m); det<4>(m); }
// every permutation with symbolic magnitudes: the pivots are forced
static void perm(int n, int* a) { bool used[4] = {0, 0, 0, 0}; for (int i = 0; i < n; i++) { int q = vs_choose("p", 0, n - 1 - i), t = 0; for (;; t++) if (!used[t] && q-- == 0) break; used[t] = true; a[i] = t; } }
template<int N> static void permd() { int a[4]; perm(N, a); Matrix<N> m = Zeros; for (int i = 0; i < N; i++) { m[a[i]][i] = vs_real("d"); ASSUME(m[a[i]][i] > 0.01 || m[a[i]][i] < -0.01); } for (int i = 0; i + 1 < N; i++) m[a[i]][i + 1] = vs_real("u"); LU<N> lu(m); vs_eq(lu.determinant(), leib(m), "determinant"); Vector<N> b; fill(b, "b"); eqv(m * lu.backsub(b), b, "A x = b"); }
H(h_p3) { permd<3>(); }
H(h_p4) { int a[4]; perm(4, a); Matrix<4> m = Zeros; for (int i = 0; i < 4; i++) { m[a[i]][i] = vs_real("d"); ASSUME(m[a[i]][i] > 0.01); } LU<4> lu(m); vs_eq(lu.determinant(), leib(m), "determinant"); Matrix<4, 2> b; fillm(b, "b"); eqm(m * lu.backsub(b), b, "A X = B"); Matrix<4> p = m * lu.get_inverse(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) vs_eq(p(i, j), i == j, "A A^-1 = I"); }
// singular: info tells, determinant is zero
H(h_sing) { Matrix<2> m; double a = vs_int("a", -9, 9), b = vs_int("b", -9, 9); int k = vs_choose("k", 0, 2); m[0][0] = a; m[0][1] = b; m[1][0] = k * a; m[1][1] = k * b; LU<2> lu(m); vs_eq(lu.determinant(), 0, "determinant of a singular matrix"); CHECK(lu.get_info() > 0, "get_info is positive for a singular matrix"); }
// recomputing, sizes
H(h_re) { Matrix<2> a, b; fillm(a); fillm(b); ASSUME(leib(a) != 0 && leib(b) != 0); LU<2> lu(a); lu.compute(b); Vector<2> v; fill(v); eqv(b * lu.backsub(v), v, "recomputed decomposition"); vs_eq(lu.determinant(), leib(b), "recomputed determinant"); }
H(h_ns) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Zeros(n, k); for (int i = 0; i < n && i < k; i++) m[i][i] = 2; int bad = n != k; vs_abort_ok(bad); LU<> c(m); CHECK(!bad, "non-square accepted"); ASSUME(!bad); vs_eqi(c.get_info(), 0, "info"); }
H(h_sz) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Identity(n), m2 = Identity(k); LU<> c(m); int bad = n != k; vs_abort_ok(bad); c.compute(m2); CHECK(!bad, "mismatching size accepted"); }
H(h_bs) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Identity(n); Vector<> v(k); fill(v); int bad = n != k; LU<> c(m); vs_abort_ok(bad); Vector<> x = c.backsub(v); CHECK(!bad, "mismatching right-hand side accepted"); ASSUME(!bad); eqv(x, v, "I x = b"); }
H(h_bm) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Identity(n), v(k, 2); fillm(v); int bad = n != k; LU<> c(m); vs_abort_ok(bad); Matrix<> x = c.backsub(v); CHECK(!bad, "mismatching right-hand side accepted"); ASSUME(!bad); eqm(x, v, "I X = B"); }
// single precision instances
H(h_fs) { Matrix<2, 2, float> m; for (int i = 0; i < 4; i++) m(i / 2, i % 2) = vs_float("f"); double d = leib(m); ASSUME(d > 0.25 || d < -0.25); LU<2, float> lu(m); Vector<2, float> b; for (int i = 0; i < 2; i++) b[i] = vs_float("b"); Vector<2, float> x = lu.backsub(b), y = m * x; for (int i = 0; i < 2; i++) vs_eq(y[i], b[i], "A x = b", 1e-2); vs_eq(lu.determinant(), d, "determinant", 1e-2); Matrix<2, 2, float> B; for (int i = 0; i < 4; i++) B(i / 2, i % 2) = vs_float("B"); Matrix<2, 2, float> Y = m * lu.backsub(B), I = m * lu.get_inverse(); for (int i = 0; i < 4; i++) { vs_eq(Y(i / 2, i % 2), B(i / 2, i % 2), "A X = B", 1e-2); vs_eq(I(i / 2, i % 2), i % 3 == 0, "A A^-1 = I", 1e-2); } }
H(h_sc2) { Matrix<2> m; fillm(m); ASSUME(leib(m) != 0); double k = vs_choose("k", 0, 1) ? 1e-6 : 1e6; Matrix<2> s = k * m; LU<2> lu(s); vs_eq(lu.determinant() / (k * k), leib(m), "scaled determinant"); Vector<2> b; fill(b, "b"); eqv(m * lu.backsub(b) * k, b, "scaled system"); }
// higher orders, wide right-hand sides
#include "large.h"
template<int S, int C> static void biglu(int n, int k) { Matrix<S> m(n, n); if (n > 4) bigsparse(m); else big(m); LU<S> lu(m); ASSUME(lu.get_info() == 0); Vector<S> b(n); fill(b); Vector<S> x = lu.backsub(b); eqv(m * x, b, "A x = b"); Matrix<S, C> B(n, k); bigrhs(B); Matrix<S, C> X = lu.backsub(B); eqm(m * X, B, "A X = B"); Matrix<> p = m * lu.get_inverse(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(p(i, j), i == j, "A A^-1 = I"); }
H(h_big4) { biglu<4, 2>(4, 2); }
H(h_big5) { biglu<5, 2>(5, 2); }
H(h_big5d) { biglu<Dynamic, Dynamic>(5, 7); }
H(h_wide2) { biglu<2, 7>(2, 7); }
H(h_wide3) { biglu<3, Dynamic>(3, 8); }
template<int S> static void bigdet(int n) { Matrix<S> m(n, n); bigsparse(m); LU<S> lu(m); vs_eq(lu.determinant(), leib(m), "determinant"); }
H(h_bdet4) { bigdet<4>(4); }
H(h_bdet5) { bigdet<5>(5); }
H(h_bdet5d) { bigdet<Dynamic>(5); }
