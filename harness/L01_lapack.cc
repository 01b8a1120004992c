// BOUNDS: TOON_DETERMINANT_LAPACK = 3: orders 1..3, static and run-time sized, row- and column-major, slices; all entries symbolic
// LIBS: -llapack -lblas
// OPTS: time=60
#define TOON_DETERMINANT_LAPACK 3
#include "lapack_ref.h"
#include <TooN/determinant.h>
template<class M> static double lb(const M& m, int n, const int* cols, int r) { if (r == n) return 1; double s = 0; int sg = 1; for (int k = 0; k < n - r; k++) { int c2[4], q = 0; for (int t = 0; t < n - r; t++) if (t != k) c2[q++] = cols[t]; s += sg * m(r, cols[k]) * lb(m, n, c2, r + 1); sg = -sg; } return s; }
template<class M> static void dt(M&& m) { const int c[4] = {0, 1, 2, 3}; fillm(m); double w = lb(m, m.num_rows(), c, 0); vs_eq(determinant(m), w, "determinant"); vs_eq(determinant_LU(m), w, "determinant by LU"); }
H(h_l1) { Matrix<1> m; dt(m); }
H(h_l2) { Matrix<2> m; dt(m); }
H(h_l2d) { Matrix<> m(2, 2); dt(m); }
H(h_l3) { Matrix<3> m; dt(m); }
H(h_l3d) { Matrix<> m(3, 3); dt(m); }
H(h_l3c) { Matrix<3, 3, double, ColMajor> m; dt(m); }
H(h_l3v) { Matrix<4> m; dt(m.slice<1, 0, 3, 3>()); }
H(h_l3t) { Matrix<3, 3, double, ColMajor> m; dt(m.T()); }
H(h_lns) { int r = vs_choose("r", 3, 4), c = vs_choose("c", 3, 4); Matrix<> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = i == j; bool bad = r != c; vs_abort_ok(bad); double d = determinant_LU(m); CHECK(!bad, "non-square accepted"); ASSUME(!bad); vs_eq(d, 1, "determinant"); }
