// BOUNDS: every rotation of space (unit quaternion, rationally parametrised), points, matrices with up to 3 columns, every pair of vectors to align, every 3x3 matrix of positive determinant given for coercion (up to one zero element)
// OPTS: time=60
#include "hcommon.h"
#include <TooN/so3.h>
#include <TooN/se3.h>
static void set(SO3<>& r, const Matrix<3>& m) { const_cast<Matrix<3>&>(r.get_matrix()) = m; }
// 3x3 matrices without constraint: the laws that hold for any matrix, and with transposition for the inverse
static SO3<> lin(const char* n = "r") { SO3<> r; Matrix<3> m; fillm(m, n); set(r, m); return r; }
static Matrix<3> quat(const char* n)
{
	double a = vs_real(n), b = vs_real(n), c = vs_real(n), q = 1 + a * a + b * b + c * c; Matrix<3> m;
	m[0][0] = (1 + a * a - b * b - c * c) / q; m[0][1] = 2 * (a * b - c) / q; m[0][2] = 2 * (a * c + b) / q; m[1][0] = 2 * (a * b + c) / q; m[1][1] = (1 - a * a + b * b - c * c) / q; m[1][2] = 2 * (b * c - a) / q; m[2][0] = 2 * (a * c - b) / q; m[2][1] = 2 * (b * c + a) / q; m[2][2] = (1 - a * a - b * b + c * c) / q; return m;
}
static double det(const Matrix<3>& m) { return (m[0] ^ m[1]) * m[2]; }
template<class M> static void isrot(const M& m) { Matrix<3> p = m * m.T(); eqm(p, Matrix<3>(Identity), "orthogonal"); vs_eq(det(m), 1, "determinant one"); }
H(h_id) { SO3<> r; eqm(r.get_matrix(), Matrix<3>(Identity), "default is the identity"); Vector<3> z = Zeros; eqm(SO3<>::exp(z).get_matrix(), Matrix<3>(Identity), "exp 0"); eqv(r.ln(), z, "ln of the identity"); }
H(h_prod)
{
	SO3<> A = lin(), B = lin(); Matrix<3> a = A.get_matrix(), b = B.get_matrix(); eqm((A * B).get_matrix(), a * b, "product"); eqm(A.inverse().get_matrix(), a.T(), "inverse is the transpose"); eqm((A * B).inverse().get_matrix(), (B.inverse() * A.inverse()).get_matrix(), "inverse of a product");
	SO3<> D = A; D *= B; eqm(D.get_matrix(), a * b, "*="); D = A; D *= D; eqm(D.get_matrix(), a * a, "*= with itself"); eqm(A.get_matrix(), a, "operands unchanged"); SO3<> E(A, B); eqm(E.get_matrix(), a * b, "product constructor");
}
H(h_inv) { SO3<> A; set(A, quat("q")); eqm((A * A.inverse()).get_matrix(), Matrix<3>(Identity), "A A^-1"); eqm((A.inverse() * A).get_matrix(), Matrix<3>(Identity), "A^-1 A"); }
H(h_act)
{
	SO3<> A = lin(); Matrix<3> m = A.get_matrix(); Vector<3> v; fill(v, "v"); eqv(A * v, m * v, "R v"); eqv(v * A, m.T() * v, "v R"); eqv(A.adjoint(v), m * v, "adjoint is the rotation itself"); Vector<> d(3); d = v; eqv(A * d, m * v, "run-time sized"); eqv(d * A, m.T() * v, "run-time sized"); Vector<5> b; fill(b, "b"); eqv(A * b.slice<1, 3>(), m * b.slice<1, 3>(), "slice");
	Matrix<3, 2> M; fillm(M); eqm(A * M, m * M, "R M"); Matrix<2, 3> N; fillm(N); eqm(N * A, N * m, "M R"); Matrix<> L(3, 3); fillm(L); eqm(A * L, m * L, "run-time sized"); eqm(L.T() * A, L.T() * m, "run-time sized view"); v = A * v; eqv(v, m * d, "result over argument");
}
H(h_keep) { Matrix<3> m = quat("q"); SO3<> A(m); eqm(A.get_matrix(), m, "a rotation is kept by coercion"); Vector<3> v; fill(v, "v"); Vector<3> w = A * v; vs_eq(w * w, v * v, "length kept"); }
static void coerce_(const Matrix<3>& m)
{
	double d = det(m); ASSUME(d > 0.0625); Matrix<3> k = m; SO3<> r(m); eqm(m, k, "argument unchanged"); Matrix<3> g = r.get_matrix(); isrot(g);
	Vector<3> n = m[0] ^ m[1], e = g[0] ^ m[0], f = g[2] ^ n; for (int i = 0; i < 3; i++) vs_eq(e[i], 0, "first row keeps its direction"); for (int i = 0; i < 3; i++) vs_eq(f[i], 0, "first two rows keep their plane"); CHECK(g[0] * m[0] > 0, "first row keeps its direction"); CHECK(g[1] * m[1] > 0, "second row keeps its side");
}
H(h_coerce) { Matrix<3> m; fillm(m); int z = vs_choose("z", 0, 8); m[z / 3][z % 3] = 0; if (z < 3) m[2 - z / 2][2] = 0; coerce_(m); }
extern "C" void ht_coerce() { Matrix<3> m; fillm(m); coerce_(m); }
// known rotation with rows of any length, second row sheared along the first: the rotation comes back
H(h_coerce2) { Matrix<3> m; int k = vs_choose("k", 0, 2); double q = vs_real("q"), d = 1 + q * q; m = Zeros; m[0][k] = 1; m[1][(k + 1) % 3] = (1 - q * q) / d; m[1][(k + 2) % 3] = 2 * q / d; m[2][(k + 1) % 3] = -m[1][(k + 2) % 3]; m[2][(k + 2) % 3] = m[1][(k + 1) % 3]; double a = vs_real("a"), b = vs_real("b"), c = vs_real("c"), h = vs_real("h"); ASSUME(a > 0.125 && b > 0.125 && c > 0.125); Matrix<3> n = m; n[0] *= a; n[1] = n[1] * b + n[0] * h; n[2] *= c; SO3<> r; r = n; eqm(r.get_matrix(), m, "rows of any length, second row sheared along the first"); }
extern "C" void ht_coerce2() { Matrix<3> m = quat("q"); double a = vs_real("a"), b = vs_real("b"); ASSUME(a > 0.125 && b > 0.125); Matrix<3> n = m; n[0] *= a; n[2] *= b; SO3<> r; r = n; eqm(r.get_matrix(), m, "rows of any length"); }
// rotation taking one direction to another
H(h_align)
{
	Vector<3> a, b; fill(a, "a"); fill(b, "b"); int za = vs_choose("za", 0, 2); a[za] = 0; b[vs_choose("zb", 0, 2)] = 0; Vector<3> n = a ^ b; ASSUME(n * n > 0.0625); ASSUME(a * a < 100 && b * b < 100); SO3<> r(a, b); Matrix<3> m = r.get_matrix(); isrot(m);
	Vector<3> e = (r * a) ^ b, f = r * n; for (int i = 0; i < 3; i++) vs_eq(e[i], 0, "takes a to the direction of b"); CHECK((r * a) * b > 0, "takes a to the direction of b"); for (int i = 0; i < 3; i++) vs_eq(f[i], n[i], "the common normal stays fixed");
}
H(h_align0) { Vector<3> a = Zeros, b = Zeros; int k = vs_choose("k", 0, 2); double s = vs_real("s"), t = vs_real("t"); ASSUME(s > 0.125 && t > 0.125 && s < 100 && t < 100); a[k] = s; b[k] = t; SO3<> r(a, b); eqm(r.get_matrix(), Matrix<3>(Identity), "parallel vectors"); }
H(h_gen)
{
	for (int i = 0; i < 3; i++) { Matrix<3> g = SO3<>::generator(i); Vector<3> e = Zeros, p; e[i] = 1; fill(p, "p"); eqv(g * p, e ^ p, "generator is the cross product with the axis"); eqv(SO3<>::generator_field(i, p), g * p, "generator_field"); }
	Vector<3> v; fill(v, "v"); SO3<> R; set(R, quat("q")); Matrix<3> h = Zeros, k = Zeros; Vector<3> w = R.adjoint(v); for (int i = 0; i < 3; i++) { h += v[i] * SO3<>::generator(i); k += w[i] * SO3<>::generator(i); } eqm(k, R.get_matrix() * h * R.get_matrix().T(), "hat(Ad v) = R hat(v) R^T");
}
H(h_mixed) { SO3<float> A; Matrix<3, 3, float> a; for (int i = 0; i < 9; i++) a[i / 3][i % 3] = vs_float("a"); const_cast<Matrix<3, 3, float>&>(A.get_matrix()) = a; SO3<> B = lin(); SO3<double> P = A * B; eqm(P.get_matrix(), a * B.get_matrix(), "mixed product"); }
H(h_size) { int n = vs_choose("n", 0, 5), k = vs_choose("k", 0, 4); int bad = n != 3; SO3<> I; Vector<> v(n); fill(v); Matrix<> M(n, 2); fillm(M); vs_abort_ok(bad); if (k == 0) { Vector<3> w = I * v; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); } if (k == 1) { Vector<3> w = v * I; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity"); } if (k == 2) { Matrix<3, 2> w = I * M; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M, "identity"); } if (k == 3) { Matrix<2, 3> w = M.T() * I; CHECK(!bad, "matrices of another size stop the program"); ASSUME(!bad); eqm(w, M.T(), "identity"); } if (k == 4) { for (int i = 0; i < n; i++) v[i] = 0; SO3<> w = SO3<>::exp(v); CHECK(!bad, "vectors of another size stop the program"); } }
