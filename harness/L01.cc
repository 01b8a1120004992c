// BOUNDS: matrices of order 1..4 in several storage forms (order 4..6: one symbolic line), every pivot order, singular matrices included; all values symbolic
// OPTS: time=60
#include "hcommon.h"
#include <TooN/determinant.h>
template<class M> static double cof(const M& m, int n, const int* cols, int r) { if (r == n) return 1; double s = 0; int sg = 1; for (int k = 0; k < n - r; k++) { int c2[6], q = 0; for (int t = 0; t < n - r; t++) if (t != k) c2[q++] = cols[t]; s += sg * m[r][cols[k]] * cof(m, n, c2, r + 1); sg = -sg; } return s; }
template<class M> static double leib(const M& m) { int c[6] = {0, 1, 2, 3, 4, 5}; return cof(m, m.num_rows(), c, 0); }
template<class M> static void ck(M&& m) { const int n = m.num_rows(); Matrix<> o(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[i][j] = m(i, j); vs_eq(determinant(m), leib(o), "determinant"); vs_eq(determinant_gaussian_elimination(m), leib(o), "determinant_gaussian_elimination"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(m(i, j), o[i][j], "argument unchanged"); }
template<class M> static void det(M&& m) { fillm(m, "m"); ck(m); }
H(h_1) { Matrix<1> m; det(m); }
H(h_2) { Matrix<2> m; det(m); }
H(h_3) { Matrix<3> m; det(m); }
H(h_d2) { Matrix<> m(2, 2); det(m); }
H(h_d3) { Matrix<> m(3, 3); det(m); }
H(h_hd) { Matrix<Dynamic, 3> m(3, 3); det(m); }
H(h_hd2) { Matrix<3, Dynamic> m(3, 3); det(m); }
H(h_c3) { Matrix<3, 3, double, ColMajor> m; det(m); }
H(h_sl) { Matrix<4> m; fillm(m); ck(m.slice<1, 0, 3, 3>()); }
H(h_t) { Matrix<3> m; det(m.T()); }
extern "C" void ht_4() { Matrix<4> m; fillm(m); vs_eq(determinant(m), leib(m), "determinant"); }
// singular: dependent rows or columns, zero rows
H(h_s2) { Matrix<2> m; fillm(m); double k = vs_real("k"); m[1] = k * m[0]; vs_eq(determinant(m), 0, "dependent rows"); vs_eq(determinant_gaussian_elimination(m), 0, "dependent rows"); }
H(h_s3) { Matrix<3> m; fillm(m); int z = vs_choose("z", 0, 2); m[z] = Zeros; vs_eq(determinant(m), 0, "zero row"); Matrix<3> n; fillm(n, "n"); n.T()[z] = Zeros; vs_eq(determinant(n), 0, "zero column"); }
// zero patterns that make particular pivot sequences necessary
H(h_perm) { static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int p = vs_choose("p", 0, 5); vs_opt("div_strict", 1); Matrix<3> m = Zeros; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) m[P[p][i]][j] = vs_real("m"); for (int i = 0; i < 3; i++) ASSUME(m[P[p][i]][i] > 0.001 || m[P[p][i]][i] < -0.001); ck(m); }
static void perm4(int p) { vs_opt("div_strict", 1); int a[4], used[4] = {0, 0, 0, 0}, k = p; for (int i = 0; i < 4; i++) { int q = k % (4 - i); k /= 4 - i; int t = 0; while (1) { if (!used[t]) { if (q == 0) break; q--; } t++; } used[t] = 1; a[i] = t; } Matrix<4> m = Zeros; for (int i = 0; i < 4; i++) { m[a[i]][i] = vs_real("d"); ASSUME(m[a[i]][i] > 0.001 || m[a[i]][i] < -0.001); if (i < 3) m[a[i]][i + 1] = vs_real("u"); } ck(m);}
H(h_perm4) { static const int Q[5] = {3, 9, 14, 17, 22}; perm4(Q[vs_choose("p", 0, 4)]); }
extern "C" void ht_perm4() { perm4(vs_choose("p", 0, 23)); }
H(h_lead0) { Matrix<3> m; fillm(m); m[0][0] = 0; int z = vs_choose("z", 0, 1); if (z) m[1][0] = 0; vs_opt("div_strict", 1); ASSUME(m[2][0] > 0.001 || m[2][0] < -0.001); vs_eq(determinant(m), leib(m), "leading zeros"); }
H(h_f) { Matrix<2, 2, float> m; for (int i = 0; i < 4; i++) m[i / 2][i % 2] = vs_float("f"); vs_eq(determinant(m), m[0][0] * m[1][1] - m[0][1] * m[1][0], "float"); }
H(h_bad) { int r = vs_choose("r", 1, 3), c = vs_choose("c", 1, 3); Matrix<> m(r, c); fillm(m); int bad = r != c; vs_abort_ok(bad); double t = vs_choose("w", 0, 1) ? determinant(m) : determinant_gaussian_elimination(m); CHECK(!bad, "determinant of a non-square matrix accepted"); ASSUME(!bad); (void)t; }
// tiny and huge determinants keep their relative accuracy
template<int N, class M> static void scaled(M&& m) { fillm(m, "m"); Matrix<N> o = m; double k = vs_choose("k", 0, 1) ? 1e-6 : 1e6, kn = 1; for (int i = 0; i < N; i++) kn *= k; m *= k; vs_eq(determinant(m) / kn, leib(o), "scaled determinant"); vs_eq(determinant_gaussian_elimination(m) / kn, leib(o), "scaled determinant"); }
H(h_sc1) { Matrix<1> m; scaled<1>(m); }
H(h_sc2) { Matrix<2> m; scaled<2>(m); }
H(h_sc3) { Matrix<3> m; scaled<3>(m); }
// higher orders
#include "large.h"
template<class M> static void bigdet(M&& m) { big(m); vs_eq(determinant(m), leib(m), "determinant"); vs_eq(determinant_gaussian_elimination(m), leib(m), "determinant_gaussian_elimination"); }
H(h_big4) { Matrix<4> m; bigdet(m); }
// sparse: triangular with its rows rotated, and one symbolic element anywhere
template<class M> static void sparse(M&& m) { const int n = m.num_rows(); int sh = vs_choose("rotation", 0, n - 1), c = vs_choose("column", 0, n - 1), r = vs_choose("row", 0, 2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m((i + sh) % n, j) = j < i ? 0 : j == i ? 4 : BIG[i][j] % 3; double t = vs_real("t"); ASSUME(t > -10 && t < 10); m((c + 2 * r) % n, c) += t; vs_eq(determinant(m), leib(m), "determinant"); vs_eq(determinant_gaussian_elimination(m), leib(m), "determinant_gaussian_elimination"); }
H(h_big5) { Matrix<5> m; sparse(m); }
H(h_big5d) { Matrix<> m(5, 5); sparse(m); }
H(h_big4c) { Matrix<4, 4, double, ColMajor> m; bigdet(m); }
extern "C" void ht_big6() { Matrix<6> m; sparse(m); }
