// BOUNDS: vectors of size 2..3 and matrices 2x2..2x3 with int, float, double, long and unsigned element types mixed with each other and with scalars of other types; values symbolic
// OPTS: time=40
#include "hcommon.h"
#include <type_traits>
static int I(const char* n) { return vs_int(n, -20, 20); }
template<class V> static void filli(V& v, const char* n) { for (int i = 0; i < v.size(); i++) v[i] = I(n); }
template<class M> static void fillmi(M& m, const char* n) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m[i][j] = I(n); }
template<class V> static void fillf(V& v, const char* n) { for (int i = 0; i < v.size(); i++) v[i] = vs_float(n); }
template<class T, class V> static void isvec(const V& v) { CHECK((std::is_same<typename std::remove_const<typename std::remove_reference<decltype(v[0])>::type>::type, T>::value), "result element type"); }
// the element type of a mixed operation is the type of the scalar operation, and no intermediate narrows
H(h_v_id) { Vector<3, int> a; Vector<3> b; filli(a, "a"); fill(b); auto p = a + b; auto q = b + a; auto m = a - b; auto n = b - a; auto d = diagmult(a, b); auto e = diagmult(b, a); isvec<double>(p); isvec<double>(q); isvec<double>(m); isvec<double>(d);
	for (int i = 0; i < 3; i++) { vs_eq(p[i], a[i] + b[i], "int+double"); vs_eq(q[i], a[i] + b[i], "double+int"); vs_eq(m[i], a[i] - b[i], "int-double"); vs_eq(n[i], b[i] - a[i], "double-int"); vs_eq(d[i], a[i] * b[i], "diagmult"); vs_eq(e[i], a[i] * b[i], "diagmult"); }
	vs_eq(a * b, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "int dot double"); vs_eq(b * a, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "double dot int"); }
H(h_v_fd) { Vector<2, float> a; Vector<2> b; fillf(a, "a"); fill(b); auto p = a + b; auto q = b - a; isvec<double>(p); isvec<double>(q); for (int i = 0; i < 2; i++) { vs_eq(p[i], (double)a[i] + b[i], "float+double", 1e-12); vs_eq(q[i], b[i] - (double)a[i], "double-float", 1e-12); } vs_eq(a * b, a[0] * b[0] + a[1] * b[1], "float dot double", 1e-12); }
H(h_v_ii) { Vector<2, int> a, b; filli(a, "a"); filli(b, "b"); auto p = a + b; isvec<int>(p); vs_eqi(p[0], a[0] + b[0], "int sum"); vs_eqi(a * b, a[0] * b[0] + a[1] * b[1], "int dot"); auto n = -a; vs_eqi(n[1], -a[1], "int negation"); }
H(h_s_vi) { Vector<2, int> a; filli(a, "a"); double s = vs_real("s"); auto p = a * s; auto q = s * a; isvec<double>(p); isvec<double>(q); for (int i = 0; i < 2; i++) { vs_eq(p[i], a[i] * s, "int vector * double"); vs_eq(q[i], a[i] * s, "double * int vector"); } auto r = a / s; isvec<double>(r); for (int i = 0; i < 2; i++) vs_eq(r[i] * s, a[i], "int vector / double"); }
H(h_s_vd) { Vector<2> a; fill(a); int s = I("s"); ASSUME(s != 0); auto p = a * s; auto q = s * a; isvec<double>(p); isvec<double>(q); for (int i = 0; i < 2; i++) { vs_eq(p[i], a[i] * s, "double vector * int"); vs_eq(q[i], a[i] * s, "int * double vector"); } auto r = a / s; isvec<double>(r); for (int i = 0; i < 2; i++) vs_eq(r[i] * s, a[i], "double vector / int"); }
H(h_s_vf) { Vector<2, float> a; fillf(a, "a"); double s = vs_real("s"); auto p = a * s; auto q = s * a; isvec<double>(p); isvec<double>(q); for (int i = 0; i < 2; i++) { vs_eq(p[i], (double)a[i] * s, "float vector * double", 1e-12); vs_eq(q[i], (double)a[i] * s, "double * float vector", 1e-12); } }
H(h_s_mi) { Matrix<2, 2, int> a; fillmi(a, "a"); double s = vs_real("s"); auto p = a * s; auto q = s * a; isvec<double>(p[0]); isvec<double>(q[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(p[i][j], a[i][j] * s, "int matrix * double"); vs_eq(q[i][j], a[i][j] * s, "double * int matrix"); } }
H(h_s_md) { Matrix<2> a; fillm(a); int s = I("s"); ASSUME(s != 0); auto p = a * s; auto q = s * a; isvec<double>(p[0]); isvec<double>(q[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(p[i][j], a[i][j] * s, "double matrix * int"); vs_eq(q[i][j], a[i][j] * s, "int * double matrix"); } auto r = a / s; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(r[i][j] * s, a[i][j], "double matrix / int"); }
H(h_s_mf) { Matrix<2, 2, float> a; for (int i = 0; i < 4; i++) a[i / 2][i % 2] = vs_float("a"); double s = vs_real("s"); auto p = a * s; auto q = s * a; isvec<double>(p[0]); isvec<double>(q[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(p[i][j], (double)a[i][j] * s, "float matrix * double", 1e-12); vs_eq(q[i][j], (double)a[i][j] * s, "double * float matrix", 1e-12); } }
H(h_s_mdf) { Matrix<2> a; fillm(a); float s = vs_float("s"); auto p = a * s; auto q = s * a; isvec<double>(p[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(p[i][j], a[i][j] * s, "double matrix * float", 1e-12); vs_eq(q[i][j], a[i][j] * s, "float * double matrix", 1e-12); } }
H(h_m_id) { Matrix<2, 3, int> a; Matrix<2, 3> b; fillmi(a, "a"); fillm(b); auto p = a + b; auto q = b - a; isvec<double>(p[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { vs_eq(p[i][j], a[i][j] + b[i][j], "int+double"); vs_eq(q[i][j], b[i][j] - a[i][j], "double-int"); } }
H(h_m_mul) { Matrix<2, 2, int> a; Matrix<2> b; fillmi(a, "a"); fillm(b); auto p = a * b; auto q = b * a; isvec<double>(p[0]); isvec<double>(q[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(p[i][j], a[i][0] * b[0][j] + a[i][1] * b[1][j], "int*double product"); vs_eq(q[i][j], b[i][0] * a[0][j] + b[i][1] * a[1][j], "double*int product"); } }
H(h_m_vec) { Matrix<2, 2, int> a; Vector<2> v; fillmi(a, "a"); fill(v); auto p = a * v; auto q = v * a; isvec<double>(p); isvec<double>(q); for (int i = 0; i < 2; i++) { vs_eq(p[i], a[i][0] * v[0] + a[i][1] * v[1], "int matrix * double vector"); vs_eq(q[i], a[0][i] * v[0] + a[1][i] * v[1], "double vector * int matrix"); } auto x = diagmult(a, v); auto y = diagmult(v, a); isvec<double>(x[0]); isvec<double>(y[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(x[i][j], a[i][j] * v[j], "mixed diagmult"); vs_eq(y[i][j], a[i][j] * v[i], "mixed diagmult"); } }
H(h_m_vec2) { Matrix<2> a; Vector<2, int> v; fillm(a); filli(v, "v"); auto p = a * v; auto q = v * a; isvec<double>(p); isvec<double>(q); for (int i = 0; i < 2; i++) { vs_eq(p[i], a[i][0] * v[0] + a[i][1] * v[1], "double matrix * int vector"); vs_eq(q[i], a[0][i] * v[0] + a[1][i] * v[1], "int vector * double matrix"); } auto x = diagmult(a, v); auto y = diagmult(v, a); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(x[i][j], a[i][j] * v[j], "mixed diagmult"); vs_eq(y[i][j], a[i][j] * v[i], "mixed diagmult"); } }
H(h_m_dyn) { Matrix<Dynamic, Dynamic, int> a(2, 2); Matrix<> b(2, 2); fillmi(a, "a"); fillm(b); auto p = a * b; auto q = 0.5 * a; isvec<double>(p[0]); isvec<double>(q[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vs_eq(p[i][j], a[i][0] * b[0][j] + a[i][1] * b[1][j], "int*double product"); vs_eq(q[i][j], a[i][j] * 0.5, "double * int matrix"); } }
H(h_fm_mul) { Matrix<2, 2, float> a; Matrix<2> b; for (int i = 0; i < 4; i++) a[i / 2][i % 2] = vs_float("a"); fillm(b); auto p = a * b; isvec<double>(p[0]); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(p[i][j], a[i][0] * b[0][j] + a[i][1] * b[1][j], "float*double product", 1e-12); }
H(h_conv) { Vector<2, float> f; fillf(f, "f"); Vector<2> d(f); Vector<2> e; e = f; Vector<2, int> n; filli(n, "n"); Vector<2> g = n; for (int i = 0; i < 2; i++) { vs_eq(d[i], f[i], "float to double", 0); vs_eq(e[i], f[i], "float to double", 0); vs_eq(g[i], n[i], "int to double", 0); } Matrix<2, 2, int> m; fillmi(m, "m"); Matrix<2> md = m; Matrix<> mx(2, 2); mx = m; for (int i = 0; i < 4; i++) { vs_eq(md[i / 2][i % 2], m[i / 2][i % 2], "int matrix to double", 0); vs_eq(mx[i / 2][i % 2], m[i / 2][i % 2], "int matrix to double", 0); } }
H(h_inpl) { Vector<2> d; Vector<2, int> n; Vector<2, float> f; fill(d); filli(n, "n"); fillf(f, "f"); Vector<2> o = d; d += n; d -= f; for (int i = 0; i < 2; i++) vs_eq(d[i], o[i] + n[i] - f[i], "mixed in place", 1e-12); Matrix<2> m; Matrix<2, 2, int> k; fillm(m); fillmi(k, "k"); Matrix<2> om = m; m += k; m -= 2.0 * k; for (int i = 0; i < 4; i++) vs_eq(m[i / 2][i % 2], om[i / 2][i % 2] - k[i / 2][i % 2], "mixed in place"); }
H(h_prec) { vs_opt("f32round", 1); Vector<1, float> f; Vector<1> d; f[0] = 1; d[0] = 1e-9; auto p = f + d; vs_eq(p[0] - 1, 1e-9, "no rounding to float", 1e-12); auto q = d * f; vs_eq(q, 1e-9, "no rounding to float", 1e-15); Matrix<1, 1, float> m; m[0][0] = 1; auto r = m * (1 + 1e-9); vs_eq(r[0][0] - 1, 1e-9, "no rounding to float", 1e-12); auto s = (1 + 1e-9) * m; vs_eq(s[0][0] - 1, 1e-9, "no rounding to float", 1e-12); auto t = (1 + 1e-9) * f; vs_eq(t[0] - 1, 1e-9, "no rounding to float", 1e-12); }
