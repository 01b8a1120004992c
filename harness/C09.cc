// BOUNDS: fills of 1..7 values into vectors of run-time size 1..5 and matrices of run-time shape 1..3 x 1..3, and into static ones; all values symbolic
#include "hcommon.h"
static double r() { return vs_real("x"); }
// exactly as many values as elements, in order; anything else stops the program
template<class V> void chkv(const V& v, const double* e, int n, int bad) { CHECK(!bad, "wrong number of values must be rejected"); ASSUME(!bad); vs_eqi(v.size(), n, "size"); for (int i = 0; i < n; i++) vs_eq(v[i], e[i], "values in order", 0); }
template<class M> void chkm(const M& m, const double* e, int bad) { CHECK(!bad, "wrong number of values must be rejected"); ASSUME(!bad); for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) vs_eq(m[i][j], e[i * m.num_cols() + j], "values in row-major order", 0); }
#define E7 double e[7] = {r(), r(), r(), r(), r(), r(), r()}
#define F1 e[0]
#define F2 e[0], e[1]
#define F3 F2, e[2]
#define F4 F3, e[3]
#define F5 F4, e[4]
#define F6 F5, e[5]
#define F7 F6, e[6]
#define VD(k) H(h_vd##k) { E7; int n = vs_int("n", 1, 5); Vector<> v(n); int bad = n != k; vs_abort_ok(bad); { Fill(v) = F##k; } chkv(v, e, k, bad); }
VD(2) VD(3) VD(4) VD(5) VD(6)
#define VS(n, k) H(h_vs##n##_##k) { E7; Vector<n> v; int bad = n != k; vs_abort_ok(bad); { Fill(v) = F##k; } chkv(v, e, k, bad); }
VS(1, 1) VS(2, 2) VS(3, 3) VS(4, 4) VS(5, 5) VS(3, 2) VS(4, 3) VS(5, 2) VS(7, 7) VS(2, 1) VS(3, 1)
#define MD(k) H(h_md##k) { E7; int n = vs_int("n", 1, 3), c = vs_int("c", 2, 3); Matrix<> v(n, c); int bad = n * c != k; vs_abort_ok(bad); { Fill(v) = F##k; } chkm(v, e, bad); } \
	H(h_mdc##k) { E7; int n = vs_int("n", 1, 3), c = vs_int("c", 2, 3); Matrix<Dynamic, Dynamic, double, ColMajor> v(n, c); int bad = n * c != k; vs_abort_ok(bad); { Fill(v) = F##k; } chkm(v, e, bad); }
MD(2) MD(3) MD(4) MD(5) MD(6) MD(7)
#define MS(n, c, k) H(h_ms##n##c##_##k) { E7; Matrix<n, c> v; int bad = n * c != k; vs_abort_ok(bad); { Fill(v) = F##k; } chkm(v, e, bad); }
MS(2, 2, 4) MS(2, 3, 6) MS(3, 2, 6) MS(1, 3, 3) MS(2, 2, 3) MS(2, 3, 5) MS(3, 2, 2) MS(2, 3, 4) MS(2, 3, 1)
#define MH(k) H(h_mh##k) { E7; int c = vs_int("c", 2, 3); Matrix<2, Dynamic> v(2, c); int bad = 2 * c != k; vs_abort_ok(bad); { Fill(v) = F##k; } chkm(v, e, bad); }
MH(3) MH(4) MH(5) MH(6) MH(7)
// single-element vectors and single-column matrices
H(h_one_d) { E7; int n = vs_int("n", 1, 5); Vector<> v(n); int bad = n != 1; vs_abort_ok(bad); { Fill(v) = F1; } chkv(v, e, 1, bad); }
#define MC(k) H(h_mcol##k) { E7; int n = vs_int("n", 1, 3); Matrix<> v(n, 1); int bad = n != k; vs_abort_ok(bad); { Fill(v) = F##k; } chkm(v, e, bad); }
MC(1) MC(2) MC(3) MC(4)
#define MCS(n, k) H(h_mcols##n##_##k) { E7; Matrix<n, 1> v; int bad = n != k; vs_abort_ok(bad); { Fill(v) = F##k; } chkm(v, e, bad); }
MCS(1, 1) MCS(2, 2) MCS(3, 3) MCS(3, 2)
H(h_view) { E7; double b[6] = {r(), r(), r(), r(), r(), r()}; double o0 = b[0], o4 = b[4], o5 = b[5]; auto v = wrapVector<3>(b + 1); vs_abort_ok(0); { Fill(v) = F3; } chkv(v, e, 3, 0); vs_eq(b[0], o0, "neighbour", 0); vs_eq(b[4], o4, "neighbour", 0); }
H(h_viewm) { E7; Matrix<3> M; fillm(M); Matrix<3> O = M; auto v = M.slice<1, 0, 2, 2>(); { Fill(v) = F4; } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vs_eq(M[i][j], i >= 1 && j < 2 ? e[(i - 1) * 2 + j] : O[i][j], "fill through a view", 0); }
H(h_viewt) { E7; Matrix<2> M; auto v = M.T(); { Fill(v) = F4; } for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vs_eq(M[i][j], e[j * 2 + i], "fill through a transpose", 0); }
