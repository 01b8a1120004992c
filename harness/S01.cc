// BOUNDS: vectors of size 0..3 and matrices up to 2x3 in several storage forms, double, float and int; SO2, SO3, SE2, SE3, SIM2, SIM3, SL(2), SL(3); all values symbolic; every field width (one symbolic, natively 40); formatting and parsing of one number replaced by their contract
#include "hcommon.h"
#include "streams.h"
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
static void expect(Rec& r, const double* v, int n, int cols, int w)
{
	CHECK(!r.glued, "numbers are separated"); CHECK(!r.stray, "nothing but numbers and white space"); CHECK(r.n == n, "every element is written once");
	for (int i = 0; i < n; i++) { vs_eq(r.v[i], v[i], "elements in order"); CHECK(r.w[i] == w, "the width set applies to every element"); if (cols) CHECK(r.line[i] == i / cols, "one row per line"); }
	if (cols) CHECK(r.lines == (n ? n / cols : r.lines), "as many lines as rows"); else CHECK(r.lines == 0, "a vector is one line");
}
static int width() { return vs_choose("w", 0, 1) * 40; }
template<class V> static void wv(const V& v) { int w = width(); double e[16]; for (int i = 0; i < v.size(); i++) e[i] = v[i]; StrOut o; if (w) o.os().width(w); o.os() << v; expect(o.done(), e, v.size(), 0, w); }
template<class M> static void wm(const M& m) { int w = width(); double e[16]; int k = 0; for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) e[k++] = m[i][j]; StrOut o; if (w) o.os().width(w); o.os() << m; expect(o.done(), e, k, m.num_cols(), w); }
H(h_wv3) { Vector<3> v; fill(v); wv(v); }
H(h_wv_dyn) { Vector<> v(vs_choose("n", 0, 3)); fill(v); wv(v); }
H(h_wv_slice) { Vector<5> v; fill(v); const Vector<5>& c = v; wv(v.slice<1, 3>()); wv(c.slice(2, 2)); }
H(h_wv_strided) { Matrix<3, 2> m; fillm(m); wv(m.T()[1]); wv(m[2]); }
H(h_wv_float) { Vector<2, float> v; v[0] = vs_float("a"); v[1] = vs_float("b"); wv(v); }
H(h_wv_int) { Vector<2, int> v; v[0] = vs_int("a", -99, 99); v[1] = vs_int("b", -99, 99); wv(v); }
H(h_wm23) { Matrix<2, 3> m; fillm(m); wm(m); }
H(h_wm_T) { Matrix<2, 3> m; fillm(m); wm(m.T()); }
H(h_wm_col) { Matrix<2, 3, double, ColMajor> m; fillm(m); wm(m); }
H(h_wm_dyn) { int r = vs_choose("r", 1, 2), c = vs_choose("c", 1, 3); Matrix<> m(r, c); fillm(m); wm(m); }
H(h_wm_slice) { Matrix<3, 4> m; fillm(m); wm(m.slice<1, 1, 2, 2>()); const Matrix<3, 4>& c = m; wm(c.slice(0, 2, 3, 2)); }
H(h_wm_float) { Matrix<1, 2, float> m; m[0][0] = vs_float("a"); m[0][1] = vs_float("b"); wm(m); }
// expressions and two objects in a row
H(h_two) { Vector<2> v; fill(v); Matrix<2> m; fillm(m, "m"); StrOut o; o.os() << v << m; double e[6] = {v[0], v[1], m[0][0], m[0][1], m[1][0], m[1][1]}; Rec& r = o.done(); CHECK(!r.glued, "objects are separated"); CHECK(r.n == 6, "all of both"); for (int i = 0; i < 6; i++) vs_eq(r.v[i], e[i], "in order"); }
// reading
template<class V> static void rv(V&& v) { double e[16]; int n = v.size(); for (int i = 0; i < n; i++) e[i] = vs_real("e"); StrIn in(e, n); in.is() >> v; for (int i = 0; i < n; i++) vs_eq(v[i], e[i], "elements are read in order"); CHECK(in.used(), "reads exactly its elements"); }
template<class M> static void rm(M&& m) { double e[16]; int k = 0, n = m.num_rows() * m.num_cols(); for (int i = 0; i < n; i++) e[i] = vs_real("e"); StrIn in(e, n); in.is() >> m; for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) vs_eq(m[i][j], e[k++], "elements are read row by row"); CHECK(in.used(), "reads exactly its elements"); }
H(h_rv3) { Vector<3> v; rv(v); }
H(h_rv_dyn) { Vector<> v(vs_choose("n", 0, 3)); rv(v); }
H(h_rv_ref) { Vector<5> v = Zeros; rv(v.slice<1, 3>().ref()); CHECK(v[0] == 0 && v[4] == 0, "only the slice is written"); }
H(h_rv_strided) { Matrix<3, 2> m = Zeros; rv(m.T()[1].ref()); CHECK(m[0][0] == 0 && m[1][0] == 0 && m[2][0] == 0, "only the column is written"); }
H(h_rv_float) { Vector<2, float> v; double e[2]; e[0] = vs_float("a"); e[1] = vs_float("b"); StrIn in(e, 2); in.is() >> v; vs_eq(v[0], e[0], "read"); vs_eq(v[1], e[1], "read"); }
H(h_rv_int) { Vector<2, int> v; int a = vs_int("a", -99, 99), b = vs_int("b", -99, 99); int e[2] = {a, b}; StrIn in(e, 2); in.is() >> v; vs_eqi(v[0], a, "read"); vs_eqi(v[1], b, "read"); }
H(h_rm23) { Matrix<2, 3> m; rm(m); }
H(h_rm_T) { Matrix<2, 3> m; rm(m.T().ref()); }
H(h_rm_col) { Matrix<2, 3, double, ColMajor> m; rm(m); }
H(h_rm_dyn) { int r = vs_choose("r", 1, 2), c = vs_choose("c", 1, 3); Matrix<> m(r, c); rm(m); }
// rotations from rational parameters
static Matrix<3> rot3() { double a = vs_real("a"), b = vs_real("b"), c = vs_real("c"), s = 1 / (1 + a * a + b * b + c * c); Matrix<3> R = Data((1 + a * a - b * b - c * c) * s, 2 * (a * b - c) * s, 2 * (a * c + b) * s, 2 * (a * b + c) * s, (1 - a * a + b * b - c * c) * s, 2 * (b * c - a) * s, 2 * (a * c - b) * s, 2 * (b * c + a) * s, (1 - a * a - b * b + c * c) * s); return R; }
static Matrix<2> rot2() { double t = vs_real("t"), s = 1 / (1 + t * t); Matrix<2> R = Data((1 - t * t) * s, -2 * t * s, 2 * t * s, (1 - t * t) * s); return R; }
template<int N> static int pack(double* e, const Matrix<N>& R, const Vector<N>& t) { int k = 0; for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) e[k++] = R[i][j]; e[k++] = t[i]; } return k; }
template<int N> static int packr(double* e, const Matrix<N>& R) { int k = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) e[k++] = R[i][j]; return k; }
template<class G> static void wg(const G& g, const double* e, int n, int cols) { int w = width(); StrOut o; if (w) o.os().width(w); o.os() << g; expect(o.done(), e, n, cols, w); }
H(h_so2) { double e[16]; Matrix<2> R = rot2(); SO2<> g; int n = packr<2>(e, R); StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); eqm(g.get_matrix(), R, "rotation read back"); wg(g, e, n, 2); }
H(h_so3) { double e[16]; Matrix<3> R = rot3(); SO3<> g; int n = packr<3>(e, R); StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); eqm(g.get_matrix(), R, "rotation read back"); wg(g, e, n, 3); }
H(h_se2) { double e[16]; Matrix<2> R = rot2(); Vector<2> t; fill(t, "p"); SE2<> g; int n = pack<2>(e, R, t); StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); eqm(g.get_rotation().get_matrix(), R, "rotation read back"); eqv(g.get_translation(), t, "translation read back"); wg(g, e, n, 3); }
H(h_se3) { double e[16]; Matrix<3> R = rot3(); Vector<3> t; fill(t, "p"); SE3<> g; int n = pack<3>(e, R, t); StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); eqm(g.get_rotation().get_matrix(), R, "rotation read back"); eqv(g.get_translation(), t, "translation read back"); wg(g, e, n, 4); }
H(h_sim2) { double e[16]; Matrix<2> R = rot2(); Vector<2> t; fill(t, "p"); double s = vs_real("s"); ASSUME(s > 0.001 && s < 1000); SIM2<> g; int n = pack<2>(e, Matrix<2>(R * s), t); StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); vs_eq(g.get_scale(), s, "scale read back"); eqm(g.get_rotation().get_matrix(), R, "rotation read back"); eqv(g.get_translation(), t, "translation read back"); wg(g, e, n, 3); }
H(h_sim3) { double e[16]; Matrix<3> R = rot3(); Vector<3> t; fill(t, "p"); double s = vs_real("s"); ASSUME(s > 0.001 && s < 1000); SIM3<> g; int n = pack<3>(e, Matrix<3>(R * s), t); StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); vs_eq(g.get_scale(), s, "scale read back"); eqm(g.get_rotation().get_matrix(), R, "rotation read back"); eqv(g.get_translation(), t, "translation read back"); wg(g, e, n, 4); }
// written from objects made otherwise
H(h_w_se3) { Matrix<3> R = rot3(); Vector<3> t; fill(t, "p"); double e[16]; int n = pack<3>(e, R, t); wg(SE3<>(R, t), e, n, 4); }
H(h_w_sim3) { Matrix<3> R = rot3(); Vector<3> t; fill(t, "p"); double s = vs_real("s"); ASSUME(s > 0.001); double e[16]; int n = pack<3>(e, Matrix<3>(R * s), t); wg(SIM3<>(R, t, s), e, n, 4); }
// what is read is coerced
H(h_so2_coerce) { double x = vs_real("x"), y = vs_real("y"); ASSUME(x > 0.01 && x < 100); double e[4] = {3 * x, 4 * x, y, x}; SO2<> g; StrIn in(e, 4); in.is() >> g; eqm(Matrix<2>(g.get_matrix() * g.get_matrix().T()), Matrix<2>(Identity), "what was read is orthonormal"); }
H(h_sl2) { double a = vs_real("a"), b = vs_real("b"), c = vs_real("c"), k = vs_real("k"); ASSUME(k > 0.01 && k < 100); ASSUME(a > 0.01 && a < 100); Matrix<2> S = Data(a, b, c, (1 + b * c) / a); double e[4]; int n = packr<2>(e, Matrix<2>(S * k)); SL<2> g; StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); eqm(g.get_matrix(), S, "normalised"); n = packr<2>(e, S); wg(g, e, n, 2); }
H(h_sl3) { double a = vs_real("a"), b = vs_real("b"), c = vs_real("c"); Matrix<3> S = Data(1, a, b, 0, 1, c, 0, 0, 1); double e[9]; int n = packr<3>(e, S); SL<3> g; StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); eqm(g.get_matrix(), S, "read back"); wg(g, e, n, 3); }
// not orthonormal, with either sign of every element
template<class G, class F> static void co2(int cols, F rot) { double x = vs_real("x"), y = vs_real("y"), z = vs_real("z"); ASSUME(x > 0.01 && x < 100); int sg = vs_choose("sg", 0, 3); double a = (sg & 1 ? -3 : 3) * x, b = (sg & 2 ? -4 : 4) * x; double e[6]; int n = 0; e[n++] = a; e[n++] = b; if (cols == 3) e[n++] = 7; e[n++] = y; e[n++] = z; if (cols == 3) e[n++] = 8; G g; StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); Matrix<2> m = rot(g); eqm(Matrix<2>(m * m.T()), Matrix<2>(Identity), "what was read is orthonormal"); vs_eq(m(0, 0) * b, m(0, 1) * a, "first row kept"); CHECK(m(0, 0) * a + m(0, 1) * b > 0, "first row kept"); }
H(h_so2_co) { co2<SO2<> >(2, [](const SO2<>& g) { return g.get_matrix(); }); }
H(h_se2_co) { co2<SE2<> >(3, [](const SE2<>& g) { return g.get_rotation().get_matrix(); }); }
template<class G, class F> static void co3(int cols, F rot) { double x = vs_real("x"), y = vs_real("y"), z = vs_real("z"), k = vs_real("k"); ASSUME(x > 0.01 && x < 100); ASSUME(k > 0.01 && k < 100); ASSUME(z > 0.01 && z < 100); int sg = vs_choose("sg", 0, 3); double p = sg & 1 ? -1 : 1, q = sg & 2 ? -1 : 1; double R[3][3] = {{x * p, 2 * x * p, 2 * x * p}, {k * 2 * q + y * p, k * q + 2 * y * p, -2 * k * q + 2 * y * p}, {-2 * z * p * q, 2 * z * p * q, -z * p * q}}; double e[12]; int n = 0; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) e[n++] = R[i][j]; if (cols == 4) e[n++] = i; } G g; StrIn in(e, n); in.is() >> g; CHECK(in.used(), "reads exactly its elements"); Matrix<3> m = rot(g); static const double u[3][3] = {{1, 2, 2}, {2, 1, -2}, {-2, 2, -1}}; for (int j = 0; j < 3; j++) { vs_eq(m(0, j), p * u[0][j] / 3, "coerced"); vs_eq(m(1, j), q * u[1][j] / 3, "coerced"); vs_eq(m(2, j), p * q * u[2][j] / 3, "coerced"); } }
H(h_so3_co) { co3<SO3<> >(3, [](const SO3<>& g) { return g.get_matrix(); }); }
H(h_se3_co) { co3<SE3<> >(4, [](const SE3<>& g) { return g.get_rotation().get_matrix(); }); }
