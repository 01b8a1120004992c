// BOUNDS: external buffers up to 16 elements with guard elements on both sides; every wrapVector/wrapMatrix overload, both Reference layouts; symbolic element index
#include "hcommon.h"
// v wraps buf+off: element i is buf[off+i]; writes through either side are seen through the other; everything else is untouched
template<class V, class P> void wrapv(V v, P* buf, int N, int off, int n)
{
	double old[24];
	for (int i = 0; i < N; i++) old[i] = buf[i];
	vs_eqi(v.size(), n, "size");
	int k = vs_int("k", 0, n - 1);
	CHECK(&v[k] == &buf[off + k], "element is the external element");
	vs_eq(v[k], old[off + k], "reads external memory", 0);
	double w = vs_real("w"), x = vs_real("x");
	buf[off + k] = w;
	vs_eq(v[k], w, "external write seen", 0);
	v[k] = x;
	vs_eq(buf[off + k], x, "wrapped write seen", 0);
	for (int i = 0; i < N; i++) if (i != off + k) vs_eq(buf[i], old[i], "neighbours untouched", 0);
}
template<class V, class P> void wrapcv(const V& v, P* buf, int off, int n)
{
	vs_eqi(v.size(), n, "size");
	int k = vs_int("k", 0, n - 1);
	CHECK(&v[k] == &buf[off + k], "element is the external element");
	vs_eq(v[k], buf[off + k], "reads external memory", 0);
}
template<class M, class P> void wrapm(M m, P* buf, int N, int off, int R, int C, bool colmajor)
{
	double old[24];
	for (int i = 0; i < N; i++) old[i] = buf[i];
	vs_eqi(m.num_rows(), R, "rows"); vs_eqi(m.num_cols(), C, "cols");
	int r = vs_int("r", 0, R - 1), c = vs_int("c", 0, C - 1);
	int k = off + (colmajor ? c * R + r : r * C + c);
	CHECK(&m(r, c) == &buf[k], "element is the external element");
	CHECK(&m[r][c] == &buf[k], "row element is the external element");
	vs_eq(m[r][c], old[k], "reads external memory", 0);
	double w = vs_real("w"), x = vs_real("x");
	buf[k] = w;
	vs_eq(m(r, c), w, "external write seen", 0);
	m(r, c) = x;
	vs_eq(buf[k], x, "wrapped write seen", 0);
	for (int i = 0; i < N; i++) if (i != k) vs_eq(buf[i], old[i], "neighbours untouched", 0);
	CHECK(&m.T()(c, r) == &buf[k], "T of wrapped");
}
template<class M, class P> void wrapcm(const M& m, P* buf, int off, int R, int C, bool colmajor)
{
	vs_eqi(m.num_rows(), R, "rows"); vs_eqi(m.num_cols(), C, "cols");
	int r = vs_int("r", 0, R - 1), c = vs_int("c", 0, C - 1);
	int k = off + (colmajor ? c * R + r : r * C + c);
	CHECK(&m(r, c) == &buf[k], "element is the external element");
	vs_eq(m[r][c], buf[k], "reads external memory", 0);
}
#define BUF(P, N) P buf[N]; for (int i = 0; i < N; i++) buf[i] = vs_real("b")
#define FBUF(N) float buf[N]; for (int i = 0; i < N; i++) buf[i] = vs_float("b")
H(h_v_dyn) { BUF(double, 9); wrapv(wrapVector(buf + 2, 5), buf, 9, 2, 5); }
H(h_v_stat) { BUF(double, 9); wrapv(wrapVector<5>(buf + 2), buf, 9, 2, 5); }
H(h_v_dyn_p) { BUF(double, 9); wrapv(wrapVector<double>(buf + 2, 5), buf, 9, 2, 5); }
H(h_v_stat_p) { BUF(double, 9); wrapv(wrapVector<5, double>(buf + 2), buf, 9, 2, 5); }
H(h_v_ref) { BUF(double, 9); wrapv(Vector<Dynamic, double, Reference>(buf + 1, 6), buf, 9, 1, 6); }
H(h_v_ref_s) { BUF(double, 9); wrapv(Vector<6, double, Reference>(buf + 1), buf, 9, 1, 6); }
H(h_cv_dyn) { BUF(double, 9); const double* p = buf; wrapcv(wrapVector(p + 2, 5), buf, 2, 5); }
H(h_cv_stat) { BUF(double, 9); const double* p = buf; wrapcv(wrapVector<5>(p + 2), buf, 2, 5); }
H(h_cv_stat_p) { BUF(double, 9); const double* p = buf; wrapcv(wrapVector<5, double>(p + 2), buf, 2, 5); }
H(h_cv_dyn_p) { BUF(double, 9); const double* p = buf; wrapcv(wrapVector<double>(p + 2, 5), buf, 2, 5); }
H(h_v_symn) { BUF(double, 9); int n = vs_int("n", 1, 6), o = vs_int("o", 0, 3); auto v = wrapVector(buf + o, n); vs_eqi(v.size(), n, "size"); for (int i = 0; i < n; i++) CHECK(&v[i] == &buf[o + i], "element is the external element"); }
H(h_m_stat) { BUF(double, 16); wrapm(wrapMatrix<3, 4>(buf + 2), buf, 16, 2, 3, 4, false); }
H(h_m_stat_p) { BUF(double, 16); wrapm(wrapMatrix<4, 3, double>(buf + 2), buf, 16, 2, 4, 3, false); }
H(h_m_statd) { BUF(double, 16); wrapm(wrapMatrix<3, 4>(buf + 2, 3, 4), buf, 16, 2, 3, 4, false); }
H(h_m_halfr) { BUF(double, 16); wrapm(wrapMatrix<Dynamic, 4>(buf + 2, 3, 4), buf, 16, 2, 3, 4, false); }
H(h_m_halfc) { BUF(double, 16); wrapm(wrapMatrix<3, Dynamic>(buf + 2, 3, 4), buf, 16, 2, 3, 4, false); }
H(h_m_halfc_p) { BUF(double, 16); wrapm(wrapMatrix<3, Dynamic, double>(buf + 2, 3, 4), buf, 16, 2, 3, 4, false); }
H(h_m_dyn) { BUF(double, 16); wrapm(wrapMatrix(buf + 2, 3, 4), buf, 16, 2, 3, 4, false); }
H(h_m_dyn_p) { BUF(double, 16); wrapm(wrapMatrix<double>(buf + 2, 4, 3), buf, 16, 2, 4, 3, false); }
H(h_cm_stat) { BUF(double, 16); const double* p = buf; wrapcm(wrapMatrix<3, 4>(p + 2), buf, 2, 3, 4, false); }
H(h_cm_stat_p) { BUF(double, 16); const double* p = buf; wrapcm(wrapMatrix<3, 4, double>(p + 2), buf, 2, 3, 4, false); }
H(h_cm_half) { BUF(double, 16); const double* p = buf; wrapcm(wrapMatrix<3, Dynamic>(p + 2, 3, 4), buf, 2, 3, 4, false); }
H(h_cm_half_p) { BUF(double, 16); const double* p = buf; wrapcm(wrapMatrix<Dynamic, 4, double>(p + 2, 3, 4), buf, 2, 3, 4, false); }
H(h_cm_dyn) { BUF(double, 16); const double* p = buf; wrapcm(wrapMatrix(p + 2, 4, 3), buf, 2, 4, 3, false); }
H(h_cm_dyn_p) { BUF(double, 16); const double* p = buf; wrapcm(wrapMatrix<double>(p + 2, 4, 3), buf, 2, 4, 3, false); }
H(h_rm_stat) { BUF(double, 16); wrapm(Matrix<3, 4, double, Reference::RowMajor>(buf + 1), buf, 16, 1, 3, 4, false); }
H(h_cmj_stat) { BUF(double, 16); wrapm(Matrix<3, 4, double, Reference::ColMajor>(buf + 1), buf, 16, 1, 3, 4, true); }
H(h_cmj_dyn) { BUF(double, 16); wrapm(Matrix<Dynamic, Dynamic, double, Reference::ColMajor>(buf + 1, 3, 4), buf, 16, 1, 3, 4, true); }
H(h_cmj_half) { BUF(double, 16); wrapm(Matrix<Dynamic, 4, double, Reference::ColMajor>(buf + 1, 3, 4), buf, 16, 1, 3, 4, true); }
H(h_cmj_half2) { BUF(double, 16); wrapm(Matrix<3, Dynamic, double, Reference::ColMajor>(buf + 1, 3, 4), buf, 16, 1, 3, 4, true); }
H(h_f_v) { FBUF(6); auto v = wrapVector<3>(buf + 1); auto w = wrapVector(buf + 2, 3); for (int i = 0; i < 3; i++) { CHECK(&v[i] == &buf[1 + i], "float element"); CHECK(&w[i] == &buf[2 + i], "float element dyn"); } }
H(h_f_m) { FBUF(8); auto v = wrapMatrix<2, 3, float>(buf + 1); auto w = wrapMatrix(buf + 1, 3, 2); for (int i = 0; i < 6; i++) { CHECK((&v[i / 3][i % 3] == &buf[1 + i]), "float element"); CHECK((&w[i / 2][i % 2] == &buf[1 + i]), "float element dyn"); } }
// operations on wrapped memory write only the wrapped range
H(h_assign) { BUF(double, 9); double o[9]; for (int i = 0; i < 9; i++) o[i] = buf[i]; Vector<4> s; fill(s, "s"); wrapVector<4>(buf + 3) = s; for (int i = 0; i < 9; i++) vs_eq(buf[i], i >= 3 && i < 7 ? s[i - 3] : o[i], "assignment through a wrapper", 0); }
H(h_addassign) { BUF(double, 9); double o[9]; for (int i = 0; i < 9; i++) o[i] = buf[i]; Matrix<2> s; fillm(s, "s"); wrapMatrix<2, 2>(buf + 3) += s; for (int i = 0; i < 9; i++) vs_eq(buf[i], i >= 3 && i < 7 ? o[i] + s[(i - 3) / 2][(i - 3) % 2] : o[i], "+= through a wrapper", 0); }
H(h_copyout) { BUF(double, 6); Vector<> v = wrapVector(buf, 6); double o = v[2]; buf[2] = vs_real("n"); vs_eq(v[2], o, "copy of a wrapper is independent", 0); }
H(h_copyoutm) { BUF(double, 6); Matrix<2, 3> v = wrapMatrix(buf, 2, 3); double o = v[1][2]; buf[5] = vs_real("n"); vs_eq(v[1][2], o, "copy of a wrapper is independent", 0); }
H(h_nofree) { vs_opt("leakcheck", 1); double* p = new double[4]; for (int i = 0; i < 4; i++) p[i] = vs_real("b"); int h0 = vs_nheap(); { auto v = wrapVector(p, 4); auto m = wrapMatrix(p, 2, 2); v[1] = 3; vs_eq(m[0][1], 3, "shared", 0); } vs_eqi(vs_nheap(), h0, "wrapping neither allocates nor frees"); p[1] = 2; delete[] p; }
