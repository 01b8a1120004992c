// BOUNDS: every SL(2), SL(3) and (products, actions, algebra) SL(4) element; matrices of determinant k^3 given by their LU factors for the normalisation; exp and ln on every nilpotent element of rank one (norm to 0.5 for ln), and exp of every element of the algebra as the matrix exponential
// OPTS: time=60
#include <cmath>
#include "hcommon.h"
#include <TooN/sl.h>
// an element with L and U unit triangular: determinant 1 exactly
template<int N> static Matrix<N> lu(const char* nm, double k = 1)
{
	Matrix<N> L = Identity, U = Identity; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) { L(i, j) = vs_real(nm); U(j, i) = vs_real(nm); }
	Matrix<N> r; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { r(i, j) = 0; for (int m = 0; m < N; m++) r(i, j) += L(i, m) * U(m, j) * k; } return r;
}
template<int N, class P> static void set(SL<N, P>& s, const Matrix<N, N, P>& m) { const_cast<Matrix<N, N, P>&>(s.get_matrix()) = m; }
template<int N> static double el(const Matrix<N>& a, const Matrix<N>& b, int i, int j) { double t = 0; for (int k = 0; k < N; k++) t += a(i, k) * b(k, j); return t; }
template<int N> static void group()
{
	SL<N> a, b; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vs_eq(a.get_matrix()(i, j), i == j, "default is the identity");
	Matrix<N> A, B; fillm(A, "A"); fillm(B, "B"); set(a, A); set(b, B); SL<N> c = a * b; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vs_eq(c.get_matrix()(i, j), el(A, B, i, j), "product");
	a *= b; eqm(a.get_matrix(), c.get_matrix(), "product in place"); b *= b; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vs_eq(b.get_matrix()(i, j), el(B, B, i, j), "product with itself");
}
H(h_group2) { group<2>(); }
H(h_group3) { group<3>(); }
H(h_group4) { group<4>(); }
template<int N> static void action()
{
	SL<N> a; Matrix<N> A; fillm(A, "A"); set(a, A); Vector<N> v; fill(v); Vector<> w(N); fill(w, "w"); Vector<N> r = a * v, l = v * a, d = a * w; Matrix<3, N> m; fillm(m); Matrix<> n(N, 2); fillm(n, "n"); Matrix<N, 2> q = a * n; Matrix<3, N> p = m * a; Matrix<N, 3> t = a * m.T();
	for (int i = 0; i < N; i++)
	{
		double x = 0, y = 0, z = 0; for (int j = 0; j < N; j++) { x += A(i, j) * v[j]; y += v[j] * A(j, i); z += A(i, j) * w[j]; } vs_eq(r[i], x, "acts on vectors from the left"); vs_eq(l[i], y, "acts on vectors from the right"); vs_eq(d[i], z, "acts on vectors from the left");
		for (int k = 0; k < 2; k++) { double s = 0; for (int j = 0; j < N; j++) s += A(i, j) * n(j, k); vs_eq(q(i, k), s, "acts on matrices from the left"); }
		for (int k = 0; k < 3; k++) { double s = 0, u = 0; for (int j = 0; j < N; j++) { s += m(k, j) * A(j, i); u += A(i, j) * m(k, j); } vs_eq(p(k, i), s, "acts on matrices from the right"); vs_eq(t(i, k), u, "acts on matrices from the left"); }
	}
}
H(h_action2) { action<2>(); }
H(h_action3) { action<3>(); }
template<int N> static void inverse(bool symm) { SL<N> a; set(a, symm ? lu<N>("A") : lu<N>("A")); SL<N> i = a.inverse(); for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) { vs_eq(el(a.get_matrix(), i.get_matrix(), r, c), r == c, "a inverse(a)"); } }
H(h_inv2) { inverse<2>(true); }
H(h_inv3) { SL<3> a; Matrix<3> A; fillm(A, "A"); A(1, 0) = vs_choose("l", -1, 1) * 0.5; A(2, 0) = 0.25; A(0, 0) = 2; ASSUME(A(0, 1) > -1 && A(0, 1) < 1); set(a, A); double det = A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0)); ASSUME(det > 0.5); SL<3> i = a.inverse(); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) vs_eq(el(a.get_matrix(), i.get_matrix(), r, c), r == c, "a inverse(a)"); }
// matrices are scaled to determinant one
template<int N, int S> static void norm(const Matrix<S, S>& m, double k) { Matrix<N> c = m; SL<N> s(m); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { vs_eq(s.get_matrix()(i, j) * k, c(i, j), "scaled to determinant one"); vs_eq(m(i, j), c(i, j), "matrix left alone"); } }
H(h_norm3) { double k = vs_real("k"); ASSUME(k > 0.01 && k < 100); norm<3, 3>(lu<3>("A", k), k); }
H(h_norm3_neg) { double k = vs_real("k"); ASSUME(k < -0.01 && k > -100); norm<3, 3>(lu<3>("A", k), k); }
H(h_norm3_d) { double k = vs_choose("k", 0, 1) ? -2 : 3; Matrix<> m = lu<3>("A", k); norm<3, Dynamic>(m, k); }
H(h_norm2) { double k = vs_real("k"); ASSUME(k > 0.01 && k < 100); norm<2, 2>(lu<2>("A", k), k); }
H(h_norm2_any) { Matrix<2> m; fillm(m); double d = m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0); ASSUME(d > 0.01); SL<2> s(m); const Matrix<2>& g = s.get_matrix(); vs_eq(g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0), 1, "determinant one"); vs_eq(g(0, 0) * m(1, 1), g(1, 1) * m(0, 0), "a multiple"); vs_eq(g(0, 0) * m(1, 0), g(1, 0) * m(0, 0), "a multiple"); vs_eq(g(0, 0) * m(0, 1), g(0, 1) * m(0, 0), "a multiple"); vs_eq(g(1, 1) * m(1, 0), g(1, 0) * m(1, 1), "a multiple"); }
// generators: traceless, diagonal differences, symmetric pairs, antisymmetric pairs
template<int N> static void gens()
{
	int k = 0, np = N * (N - 1) / 2; for (int i = 0; i < N - 1; i++, k++) { Matrix<N> g = SL<N>::generator(k); for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) vs_eq(g(r, c), r == c ? (r == i) - (r == i + 1) : 0, "diagonal generators"); }
	for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++, k++) { Matrix<N> g = SL<N>::generator(k), h = SL<N>::generator(k + np); for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) { bool u = r == i && c == j, l = r == j && c == i; vs_eq(g(r, c), u || l, "symmetric generators"); vs_eq(h(r, c), l - u, "antisymmetric generators"); } }
	vs_eqi(k + np, N * N - 1, "dimension"); vs_eqi(SL<N>::dim, N * N - 1, "dimension"); vs_eqi(SL<N>::size, N, "size");
}
H(h_gen) { gens<2>(); gens<3>(); gens<4>(); gens<5>(); }
H(h_gen_range) { int i = vs_int("i", -3, 12); bool bad = i < 0 || i > 7; vs_abort_ok(bad); Matrix<3> g = SL<3>::generator(i); CHECK(!bad, "generator out of range is stopped"); (void)g; }
// coordinates of a traceless matrix in those generators
template<int N> static Vector<N * N - 1> coord(const Matrix<N>& A)
{
	Vector<N * N - 1> v; int k = 0, np = N * (N - 1) / 2; double s = 0; for (; k < N - 1; k++) { s += A(k, k); v[k] = s; } for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++, k++) { v[k] = (A(i, j) + A(j, i)) / 2; v[k + np] = (A(j, i) - A(i, j)) / 2; } return v;
}
// a square zero element of the algebra: exp is 1 + A, ln its inverse
template<int N> static Matrix<N> zerosq(double b) { double u[N], v[N], d = 0; for (int i = 0; i < N - 1; i++) { u[i] = vs_real("u"); ASSUME(u[i] <= b && u[i] >= 0.03125); v[i] = i % 2 ? 1 : -0.5; d += u[i] * v[i]; } v[N - 1] = 1; u[N - 1] = -d; Matrix<N> A; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(i, j) = u[i] * v[j]; return A; }
template<int N> static void explog(double b, bool ln)
{
	Matrix<N> A = zerosq<N>(b); Vector<N * N - 1> v = coord(A); SL<N> s = SL<N>::exp(v); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vs_eq(s.get_matrix()(i, j), A(i, j) + (i == j), "exponential of the sum of the generators"); SL<N> t(v); eqm(t.get_matrix(), s.get_matrix(), "constructed from the algebra");
	Vector<> w = v; eqm(SL<N>::exp(w).get_matrix(), s.get_matrix(), "coordinates of run-time size");
	if (!ln) return; SL<N> g; Matrix<N> G = A; for (int i = 0; i < N; i++) G(i, i) += 1; set(g, G); Vector<N * N - 1> l = g.ln(); for (int i = 0; i < N * N - 1; i++) vs_eq(l[i], v[i], "ln gives the coordinates back"); eqm(g.get_matrix(), G, "ln leaves its argument alone");
}
H(h_exp2) { explog<2>(2, false); }
H(h_exp3) { explog<3>(1, false); }
H(h_ln2) { explog<2>(0.3, true); }
H(h_ln3) { explog<3>(0.15, true); }
H(h_ln4) { explog<4>(0.15, true); }
extern "C" void ht_ln5() { explog<5>(0.12, true); }
H(h_size) { int n = vs_choose("n", 0, 10); bool bad = n != 8; vs_abort_ok(bad); Vector<> v(n); v = Zeros; SL<3> s = SL<3>::exp(v); CHECK(!bad, "coordinates that do not fit are stopped"); eqm(s.get_matrix(), Matrix<3>(Identity), "exponential of zero"); }
H(h_msize) { int n = vs_choose("n", 1, 4); bool bad = n != 3; vs_abort_ok(bad); Matrix<> m = Identity(n); SL<3> s(m); CHECK(!bad, "matrices that do not fit are stopped"); eqm(s.get_matrix(), Matrix<3>(Identity), "identity"); }
H(h_zero) { bool z = vs_choose("z", 0, 1); vs_abort_ok(z); Matrix<3> m = Identity; if (z) m(1, 1) = 0; SL<3> s(m); CHECK(!z, "singular matrices are stopped"); }
H(h_float) { SL<2, float> f, g; Matrix<2, 2, float> F; F(0, 0) = 2; F(0, 1) = 3; F(1, 0) = 1; F(1, 1) = 2; set(f, F); SL<2> d; Matrix<2> D; fillm(D, "D"); set(d, D); SL<2> p = f * d, q = d * f; for (int j = 0; j < 2; j++) { vs_eq(p.get_matrix()(0, j), 2 * D(0, j) + 3 * D(1, j), "product of two precisions"); vs_eq(q.get_matrix()(j, 0), 2 * D(j, 0) + D(j, 1), "product of two precisions"); } g = f.inverse(); near_(g.get_matrix()(0, 0), 2, 1e-5, "inverse in single precision"); near_(g.get_matrix()(0, 1), -3, 1e-5, "inverse in single precision"); near_(g.get_matrix()(1, 0), -1, 1e-5, "inverse in single precision"); }
