// BOUNDS: (order 5, up to 7 right-hand columns: one symbolic line) square systems of order 1..4 (static) and 1..3 (dynamic); right hand sides: one vector, or a matrix of 1..3 columns; every pivot order
#include "hcommon.h"
#include <TooN/gaussian_elimination.h>
template<int N> void ge_vec() { Matrix<N> m; Vector<N> v; fillm(m); fill(v); Matrix<N> m0 = m; Vector<N> x = gaussian_elimination(m, v); eqv(m * x, v, "A x = b"); eqm(m, m0, "input unchanged"); }
template<int N, int M> void ge_mat() { Matrix<N> m; Matrix<N, M> v; fillm(m); fillm(v); Matrix<N, M> x = gaussian_elimination(m, v); eqm(m * x, v, "A X = B"); }
H(h_vec1) { ge_vec<1>(); }
H(h_vec2) { ge_vec<2>(); }
H(h_vec3) { ge_vec<3>(); }
H(h_vec4) { ge_vec<4>(); }
H(h_mat22) { ge_mat<2, 2>(); }
H(h_mat31) { ge_mat<3, 1>(); }
H(h_mat33) { ge_mat<3, 3>(); }
H(h_dyn3) { Matrix<> m(3, 3); Vector<> v(3); fillm(m); fill(v); Vector<> x = gaussian_elimination(m, v); eqv(m * x, v, "A x = b"); }
H(h_dyn2m) { Matrix<> m(2, 2), v(2, 2); fillm(m); fillm(v, "v"); Matrix<> x = gaussian_elimination(m, v); vs_eqi(x.num_cols(), 2, "size"); eqm(m * x, v, "A X = B"); }
// matrices that cannot be solved without exchanging particular rows; divisions by zero are violations
template<class A> static void nz(const A& a) { ASSUME(a > 0.001 || a < -0.001); }
H(h_perm3) { static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int p = vs_choose("p", 0, 5); vs_opt("div_strict", 1); Matrix<3> m = Zeros; Vector<3> b; fill(b, "b"); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) m[P[p][i]][j] = vs_real("m"); for (int i = 0; i < 3; i++) nz(m[P[p][i]][i]); Vector<3> x = gaussian_elimination(m, b); eqv(m * x, b, "A x = b"); Matrix<3, 2> B; fillm(B, "B"); Matrix<3, 2> X = gaussian_elimination(m, B); eqm(m * X, B, "A X = B"); }
H(h_perm4) { int p = vs_choose("p", 0, 23); vs_opt("div_strict", 1); int a[4], used[4] = {0, 0, 0, 0}, k = p; for (int i = 0; i < 4; i++) { int q = k % (4 - i); k /= 4 - i; int t = 0; while (1) { if (!used[t]) { if (q == 0) break; q--; } t++; } used[t] = 1; a[i] = t; } Matrix<4> m = Zeros; Vector<4> b; fill(b, "b"); for (int i = 0; i < 4; i++) { m[a[i]][i] = vs_real("d"); nz(m[a[i]][i]); if (i < 3) m[a[i]][i + 1] = vs_real("u"); } Vector<4> x = gaussian_elimination(m, b); eqv(m * x, b, "A x = b"); }
H(h_strict2) { vs_opt("div_strict", 1); Matrix<2> m; Vector<2> v; fillm(m); fill(v); nz(m[0][0] * m[1][1] - m[0][1] * m[1][0]); Vector<2> x = gaussian_elimination(m, v); eqv(m * x, v, "A x = b"); }
H(h_strict2m) { vs_opt("div_strict", 1); Matrix<2> m, v; fillm(m); fillm(v); nz(m[0][0] * m[1][1] - m[0][1] * m[1][0]); Matrix<2> x = gaussian_elimination(m, v); eqm(m * x, v, "A X = B"); }
H(h_bad) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3); Matrix<> m = Identity(n); Vector<> b(k); fill(b); int bad = n != k; vs_abort_ok(bad); Vector<> x = gaussian_elimination(m, b); CHECK(!bad, "mismatched system accepted"); ASSUME(!bad); eqv(x, b, "I x = b"); }
H(h_badm) { int n = vs_choose("n", 1, 3), k = vs_choose("k", 1, 3), c = vs_choose("c", 1, 3); Matrix<> m = Zeros(n, c), b(k, 2); for (int i = 0; i < n && i < c; i++) m[i][i] = 1; fillm(b); int bad = n != k || n != c; vs_abort_ok(bad); Matrix<> x = gaussian_elimination(m, b); CHECK(!bad, "mismatched system accepted"); ASSUME(!bad); eqm(x, b, "I x = b"); }
// higher orders, wide right-hand sides
#include "large.h"
template<int N, int K> static void bigge(int n, int k) { Matrix<N> m(n, n); big(m); Matrix<N> o = m; Matrix<N, K> B(n, k); bigrhs(B); Matrix<N, K> X = gaussian_elimination(m, B); eqm(m * X, B, "A X = B"); eqm(m, o, "input unchanged"); Vector<N> b(n); fill(b); Vector<N> x = gaussian_elimination(m, b); eqv(m * x, b, "A x = b"); }
H(h_big4) { bigge<4, 4>(4, 4); }
H(h_big5) { bigge<5, 2>(5, 2); }
H(h_big5d) { bigge<Dynamic, Dynamic>(5, 6); }
H(h_wide2) { bigge<2, 7>(2, 7); }
H(h_wide3) { bigge<3, 5>(3, 5); }
H(h_wide3d) { bigge<3, Dynamic>(3, 5); }
extern "C" void ht_big6() { bigge<6, 3>(6, 3); }
