// BOUNDS: every rotation of the plane (any angle), every 2x2 matrix given for coercion, points and directions, matrices with up to 3 columns; double and float
// OPTS: time=60
#include "hcommon.h"
#include <TooN/so2.h>
#include <TooN/se2.h>
// any rotation but the half turn: cos = c^2-s^2, sin = 2 c s with (c, s) on the half circle c > 0
static void rat(double& C, double& S) { double t = vs_real("t"), q = 1 + t * t; C = (1 - t * t) / q; S = 2 * t / q; }
static Matrix<2> rot(double C, double S) { Matrix<2> m; m[0][0] = C; m[0][1] = -S; m[1][0] = S; m[1][1] = C; return m; }
template<class M> static void isrot(const M& m) { vs_eq(m[0][0] * m[0][0] + m[0][1] * m[0][1], 1, "unit row"); vs_eq(m[1][0] * m[1][0] + m[1][1] * m[1][1], 1, "unit row"); vs_eq(m[0][0] * m[1][0] + m[0][1] * m[1][1], 0, "orthogonal rows"); }
// ready made rotation without coercion (which the group laws do not depend on)
static SO2<> make() { double t = vs_real("a"); return SO2<>::exp(t); }
H(h_exp) { double a = vs_real("a"); SO2<> r(a); Matrix<2> m = r.get_matrix(); isrot(m); vs_eq(m[0][0], cos(a), "cosine"); vs_eq(m[1][0], sin(a), "sine"); vs_eq(m[0][1], -sin(a), "sine"); vs_eq(m[1][1], cos(a), "cosine"); }
H(h_expf) { float a = vs_float("a"); SO2<float> r(a); Matrix<2, 2, float> m = r.get_matrix(); isrot(m); vs_eq(m[1][0], sinf(a), "sine"); }
H(h_default) { SO2<> r; eqm(r.get_matrix(), Matrix<2>(Identity), "default is the identity"); SO2<> i(Identity); eqm(i.get_matrix(), Matrix<2>(Identity), "identity"); vs_eq(r.ln(), 0, "ln of the identity"); }
H(h_group)
{
	double a = vs_real("a"), b = vs_real("b"), c = vs_real("c"); SO2<> A(a), B(b), C(c);
	eqm((A * B).get_matrix(), SO2<>(a + b).get_matrix(), "exp(a) exp(b) = exp(a + b)"); eqm(((A * B) * C).get_matrix(), (A * (B * C)).get_matrix(), "associative");
	eqm(A.inverse().get_matrix(), SO2<>(-a).get_matrix(), "inverse of exp(a) is exp(-a)"); eqm((A * A.inverse()).get_matrix(), Matrix<2>(Identity), "A A^-1"); eqm((A.inverse() * A).get_matrix(), Matrix<2>(Identity), "A^-1 A");
	SO2<> D(A); D *= B; eqm(D.get_matrix(), (A * B).get_matrix(), "*="); D = A; D *= D; eqm(D.get_matrix(), SO2<>(2 * a).get_matrix(), "*= with itself");
}
H(h_act)
{
	double a = vs_real("a"); SO2<> A(a); Vector<2> v; fill(v, "v"); Vector<2> w = A * v; vs_eq(w[0], cos(a) * v[0] - sin(a) * v[1], "R v"); vs_eq(w[1], sin(a) * v[0] + cos(a) * v[1], "R v"); vs_eq(w * w, v * v, "length kept");
	Vector<2> u = v * A; eqv(u, A.inverse() * v, "v R is R^T v"); Vector<> d(2); d = v; eqv(A * d, w, "run-time sized"); eqv(d * A, u, "run-time sized");
	Matrix<2, 3> M; fillm(M); Matrix<2, 3> P = A * M; for (int j = 0; j < 3; j++) eqv(P.T()[j], A * M.T()[j], "R M column by column"); Matrix<3, 2> N; fillm(N); Matrix<3, 2> Q = N * A; for (int j = 0; j < 3; j++) eqv(Q[j], N[j] * A, "M R row by row");
	SO2<> B(vs_real("b")); eqv(A * (B * v), (A * B) * v, "acting twice is acting with the product");
}
H(h_ln) { double C, S; rat(C, S); SO2<> r(rot(C, S)); eqm(r.get_matrix(), rot(C, S), "a rotation is kept by coercion"); double l = r.ln(); vs_le(l, M_PI, "angle in (-pi, pi]", 1e-9); vs_le(-M_PI, l, "angle in (-pi, pi]", 1e-9); eqm(SO2<>::exp(l).get_matrix(), r.get_matrix(), "exp(ln R) = R"); CHECK((l > 0) == (S > 0), "sign of the angle"); }
H(h_lnpi) { SO2<> r(rot(-1, 0)); double l = r.ln(); vs_eq(l * l, M_PI * M_PI, "half turn"); eqm(SO2<>::exp(l).get_matrix(), r.get_matrix(), "exp(ln R) = R"); }
H(h_coerce)
{
	Matrix<2> m; fillm(m); ASSUME(m[0][0] * m[1][1] - m[0][1] * m[1][0] > 0.0625); Matrix<2> k = m; SO2<> r(m); eqm(m, k, "argument unchanged"); Matrix<2> g = r.get_matrix(); isrot(g);
	vs_eq(g[0][0] * g[1][1] - g[0][1] * g[1][0], 1, "determinant one"); vs_eq(g[0][0] * m[0][1], g[0][1] * m[0][0], "first row keeps its direction"); CHECK(g[0][0] * m[0][0] + g[0][1] * m[0][1] > 0, "first row keeps its direction");
	SO2<> a; a = m; eqm(a.get_matrix(), g, "assignment coerces the same way"); a.coerce(); eqm(a.get_matrix(), g, "coercing twice changes nothing");
}
H(h_mixed) { float a = vs_float("a"); double b = vs_real("b"); SO2<float> A(a); SO2<> B(b); SO2<double> P = A * B; eqm(P.get_matrix(), SO2<>(a + b).get_matrix(), "product of a float and a double rotation"); Vector<2, float> v; v[0] = vs_float("v"); v[1] = vs_float("v"); Vector<2> w = B * v; vs_eq(w[0], cos(b) * v[0] - sin(b) * v[1], "mixed action"); }
H(h_gen) { double a = vs_real("a"); Matrix<2> g = SO2<>::generator(), R = SO2<>(a).get_matrix(), x = R * g; vs_eq(g[0][0], 0, "generator"); vs_eq(g[1][1], 0, "generator"); vs_eq(g[1][0], 1, "generator"); vs_eq(g[0][1], -1, "generator"); vs_eq(x[0][0], -sin(a), "derivative of the exponential is R G"); vs_eq(x[1][0], cos(a), "derivative of the exponential is R G"); }
H(h_size) { int n = vs_choose("n", 0, 4); int bad = n != 2; Vector<> v(n); fill(v); SO2<> r; vs_abort_ok(bad); Vector<2> w = vs_choose("side", 0, 1) ? r * v : v * r; CHECK(!bad, "vectors of another size stop the program"); ASSUME(!bad); eqv(w, v, "identity acts trivially"); }
