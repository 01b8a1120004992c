// systems of higher order: concrete entries, one row or column moved along a direction by a symbolic amount
#pragma once
#include "hcommon.h"
static const int BIG[6][6] = {{1, -4, 2, 8, -2, 1}, {8, 2, -1, 1, 4, -2}, {-2, 1, 4, -1, 2, 8}, {1, 2, 8, -2, 1, -4}, {2, 1, -1, 4, 8, 1}, {-1, 8, 1, 2, -4, 4}};
static const int DIR[6] = {1, -2, 0, 1, 2, -1};
template<class M> static void big(M&& m) { const int n = m.num_rows(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = BIG[i][j]; int k = vs_choose("line", 0, 2 * n - 1); double t = vs_real("t"); ASSUME(t > -3 && t < 3); for (int i = 0; i < n; i++) if (k < n) m(k, i) += DIR[i] * t; else m(i, k - n) += DIR[i] * t; }
// symmetric positive definite: G G^T, G concrete but for one row
static const int GL[6][6] = {{2}, {1, 4}, {-1, 2, 2}, {0, 1, -1, 4}, {1, -2, 1, 2, 2}, {2, 0, 1, -1, 1, 4}};
template<class M, class G> static void bigpd(M&& m, G& g) { const int n = m.num_rows(); g = Zeros; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) g(i, j) = GL[i][j]; int k = vs_choose("row", 0, n - 1); double t = vs_real("t"); ASSUME(t > -1 && t < 1); for (int j = 0; j <= k; j++) g(k, j) += (j == k ? 1 : DIR[j]) * t; Matrix<> p = g * g.T(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = p(i, j); }
// right-hand sides: one symbolic entry per column, the others concrete
template<class M> static void bigrhs(M&& b) { for (int i = 0; i < b.num_rows(); i++) for (int j = 0; j < b.num_cols(); j++) b(i, j) = (i * 3 + j * 5) % 7 - 3; for (int j = 0; j < b.num_cols(); j++) b(j % b.num_rows(), j) = vs_real("b"); }
// triangular with its rows rotated, and one symbolic element anywhere
template<class M> static void bigsparse(M&& m) { const int n = m.num_rows(); int sh = vs_choose("rotation", 0, n - 1), c = vs_choose("column", 0, n - 1), r = vs_choose("row", 0, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m((i + sh) % n, j) = j < i ? 0 : j == i ? 4 : BIG[i][j] % 3; double t = vs_real("t"); ASSUME(t > -10 && t < 10); m((c + 2 * r) % n, c) += t; }
// upper triangular (any shape) but for one symbolic element below the diagonal
template<class M> static void bigtri(M&& m, int maxd) { const int r = m.num_rows(), C = m.num_cols(); for (int i = 0; i < r; i++) for (int j = 0; j < C; j++) m(i, j) = j < i ? 0 : j == i ? 4 : BIG[i][j] % 3; int d = vs_choose("below", 1, maxd), c = vs_choose("column", 0, r - 1 - d); m(c + d, c) = vs_real("t"); ASSUME(m(c + d, c) > -8 && m(c + d, c) < 8); }
// orthogonal: a permutation times one plane rotation of symbolic angle
static inline void bigorth(double o[6][6], int n) { double x = vs_real("x"), y = vs_real("y"), q = x * x + y * y; ASSUME(q > 0.1); double c = (x * x - y * y) / q, s = 2 * x * y / q; int p = vs_choose("plane", 0, 1), i = p ? 1 : 0, j = p ? 2 : n - 1; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) o[a][b] = 0; for (int a = 0; a < n; a++) { int r = (a + 2) % n; if (a == i) { o[r][i] = c; o[r][j] = -s; } else if (a == j) { o[r][i] = s; o[r][j] = c; } else o[r][a] = a & 1 ? -1 : 1; } }
