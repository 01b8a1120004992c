// BOUNDS: histories of up to 4 operations on 2 to 3 objects of size 1..4 chosen among construct/copy/move/assign/swap/slice-copy/destroy (every sequence); all values symbolic
// OPTS: time=60
#include "hcommon.h"
#include <new>
// two live slots per type; the model keeps the expected contents
struct Model { double d[6]; int n; bool valid; };
template<class V> void veq(const V& v, const Model& m, const char* l) { vs_eqi(v.size(), m.n, "size"); for (int i = 0; i < m.n; i++) vs_eq(v[i], m.d[i], l, 0); }
template<class V> void mset(V& v, Model& m) { m.n = v.size(); for (int i = 0; i < m.n; i++) { m.d[i] = vs_real("x"); v[i] = m.d[i]; } }
template<class V> V* mk(int n);
template<> Vector<>* mk<Vector<> >(int n) { return new Vector<>(n); }
template<> Vector<Resizable>* mk<Vector<Resizable> >(int n) { return new Vector<Resizable>(n); }
template<> Vector<3>* mk<Vector<3> >(int) { return new Vector<3>; }
template<> Vector<130>* mk<Vector<130> >(int) { return new Vector<130>; }
template<class V> void destroy_all(V** s, int n) { for (int i = 0; i < n; i++) delete s[i]; }
template<class V> void vhist(int steps, int n0)
{
	vs_opt("leakcheck", 1);
	V* s[2]; Model m[2];
	for (int i = 0; i < 2; i++) { s[i] = mk<V>(n0); mset(*s[i], m[i]); }
	for (int t = 0; t < steps; t++) {
		int op = vs_choose("op", 0, 6);
		if (op == 0) { V c(*s[0]); veq(c, m[0], "copy"); for (int i = 0; i < c.size(); i++) c[i] = vs_real("y"); }        // modifying a copy leaves the original
		if (op == 1) { *s[1] = *s[0]; m[1] = m[0]; }
		if (op == 2) { V* o = s[0]; s[0] = new V(std::move(*o)); delete o; }                                       // move construction transfers the contents
		if (op == 3) { V* o = new V(*s[0]); delete s[0]; s[0] = o; }
		if (op == 4) { mset(*s[0], m[0]); }
		if (op == 5) { *s[0] = *s[0]; }                                                                              // self assignment
		if (op == 6) { V* x = s[0]; s[0] = s[1]; s[1] = x; Model q = m[0]; m[0] = m[1]; m[1] = q; }
		veq(*s[0], m[0], "contents 0"); veq(*s[1], m[1], "contents 1");
	}
	destroy_all(s, 2);
}
H(h_vdyn) { vhist<Vector<> >(3, 2); }
H(h_vdyn0) { vhist<Vector<> >(2, 0); }
H(h_vres0) { vhist<Vector<Resizable> >(2, 0); }
H(h_vdyn1) { vhist<Vector<> >(2, 1); }
H(h_vres) { vhist<Vector<Resizable> >(3, 2); }
H(h_vstat) { vhist<Vector<3> >(2, 3); }
H(ht_vdyn4) { vhist<Vector<> >(4, 3); }
H(ht_vres4) { vhist<Vector<Resizable> >(4, 3); }
struct MModel { double d[4][4]; int r, c; };
template<class M> void meq(const M& v, const MModel& m, const char* l) { vs_eqi(v.num_rows(), m.r, "rows"); vs_eqi(v.num_cols(), m.c, "cols"); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) vs_eq(v[i][j], m.d[i][j], l, 0); }
template<class M> void mmset(M& v, MModel& m) { m.r = v.num_rows(); m.c = v.num_cols(); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { m.d[i][j] = vs_real("x"); v[i][j] = m.d[i][j]; } }
template<class M> void mhist(int steps, int r, int c)
{
	vs_opt("leakcheck", 1);
	M* s[2]; MModel m[2];
	for (int i = 0; i < 2; i++) { s[i] = new M(r, c); mmset(*s[i], m[i]); }
	for (int t = 0; t < steps; t++) {
		int op = vs_choose("op", 0, 6);
		if (op == 0) { M c2(*s[0]); meq(c2, m[0], "copy"); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) c2[i][j] = vs_real("y"); }
		if (op == 1) { *s[1] = *s[0]; m[1] = m[0]; }
		if (op == 2) { M* o = s[0]; s[0] = new M(std::move(*o)); delete o; }
		if (op == 3) { M* o = new M(*s[0]); delete s[0]; s[0] = o; }
		if (op == 4) { mmset(*s[0], m[0]); }
		if (op == 5) { *s[0] = *s[0]; }
		if (op == 6) { M* x = s[0]; s[0] = s[1]; s[1] = x; MModel q = m[0]; m[0] = m[1]; m[1] = q; }
		meq(*s[0], m[0], "contents 0"); meq(*s[1], m[1], "contents 1");
	}
	delete s[0]; delete s[1];
}
H(h_mdyn0) { mhist<Matrix<> >(2, 0, 0); }
H(h_mdyn02) { mhist<Matrix<> >(2, 0, 2); }
H(h_mdyn30) { mhist<Matrix<Dynamic, Dynamic, double, ColMajor> >(2, 3, 0); }
H(h_mhalf0) { mhist<Matrix<2, Dynamic> >(2, 2, 0); }
H(h_mdyn) { mhist<Matrix<> >(2, 2, 2); }
H(h_mdyn12) { mhist<Matrix<> >(2, 1, 3); }
H(h_mdyncol) { mhist<Matrix<Dynamic, Dynamic, double, ColMajor> >(2, 3, 2); }
H(h_mhalf) { mhist<Matrix<2, Dynamic> >(2, 2, 3); }
H(h_mhalf2) { mhist<Matrix<Dynamic, 2> >(2, 3, 2); }
H(h_mstat) { mhist<Matrix<2, 3> >(2, 2, 3); }
H(ht_mdyn3) { mhist<Matrix<> >(3, 2, 2); }
H(ht_mhalf3) { mhist<Matrix<2, Dynamic, double, ColMajor> >(3, 2, 3); }
// free functions and members named swap
H(h_swap_v) { vs_opt("leakcheck", 1); Vector<> a(3), b(3); fill(a); fill(b); Vector<> x = a, y = b; a.swap(b); eqv(a, y, "swapped", 0); eqv(b, x, "swapped", 0); }
H(h_swap_r) { vs_opt("leakcheck", 1); Vector<Resizable> a(3), b(2); fill(a); fill(b); Vector<> x = a, y = b; a.swap(b); eqv(a, y, "swapped", 0); eqv(b, x, "swapped", 0); a.swap(a); eqv(a, y, "swap with itself", 0); }
H(h_swap_std) { vs_opt("leakcheck", 1); Vector<> a(3), b(3); fill(a); fill(b); Vector<> x = a, y = b; std::swap(a, b); eqv(a, y, "swapped", 0); eqv(b, x, "swapped", 0); }
H(h_swap_free) { vs_opt("leakcheck", 1); Vector<4> a, b; fill(a); fill(b); Vector<4> x = a, y = b; using std::swap; swap(a, b); eqv(a, y, "swapped", 0); eqv(b, x, "swapped", 0); }
// objects too large for the stack
template<int N> void big() { vs_opt("leakcheck", 1); Vector<N> a; for (int i = 0; i < N; i++) a[i] = i; int k = vs_int("k", 0, N - 1); double w = vs_real("w"); Vector<N>* b = new Vector<N>(a); (*b)[k] = w; vs_eq(a[k], (double)k, "copy independent", 0); a = *b; vs_eq(a[k], w, "assigned", 0); Vector<N> c(std::move(*b)); delete b; vs_eq(c[k], w, "moved", 0); vs_eq(a[k], w, "still there", 0); c = c; vs_eq(c[k], w, "self assignment", 0); }
H(h_big126) { big<126>(); }
H(h_big125) { big<125>(); }
H(h_bigm) { vs_opt("leakcheck", 1); Matrix<12, 12> a; for (int i = 0; i < 144; i++) a[i / 12][i % 12] = i; int r = vs_int("r", 0, 11), c = vs_int("c", 0, 11); double w = vs_real("w"); Matrix<12, 12>* b = new Matrix<12, 12>(a); (*b)[r][c] = w; vs_eq(a[r][c], r * 12 + c, "copy independent", 0); a = *b; delete b; vs_eq(a[r][c], w, "assigned", 0); }
// results returned by value, temporaries and expression objects
static Vector<> mkv(int n, double x) { Vector<> v(n); for (int i = 0; i < n; i++) v[i] = x + i; return v; }
static Matrix<> mkm(int n, double x) { Matrix<> v(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v[i][j] = x + i * n + j; return v; }
H(h_ret) { vs_opt("leakcheck", 1); double x = vs_real("x"); Vector<> v = mkv(3, x); Vector<> w = mkv(3, x) + mkv(3, 1); vs_eq(v[2], x + 2, "returned", 0); vs_eq(w[2], x + 5, "sum of temporaries", 0); v = mkv(3, 2 * x); vs_eq(v[1], 2 * x + 1, "assigned from temporary", 0); }
H(h_retm) { vs_opt("leakcheck", 1); double x = vs_real("x"); Matrix<> v = mkm(2, x); Matrix<> w = mkm(2, x) * mkm(2, 1); vs_eq(v[1][1], x + 3, "returned", 0); vs_eq(w[1][0], (x + 2) * 1 + (x + 3) * 3, "product of temporaries"); v = mkm(2, 2 * x).T(); vs_eq(v[0][1], 2 * x + 2, "assigned from temporary", 0); }
H(h_convert) { vs_opt("leakcheck", 1); Vector<3> s; fill(s); Vector<> d = s; Vector<Resizable> r = d; Vector<3> t = r; Vector<> e(r.slice(1, 2)); eqv(t, s, "conversion chain", 0); vs_eq(e[1], s[2], "slice copy", 0); d[0] = vs_real("n"); vs_eq(r[0], s[0], "independent", 0); }
H(h_initlist) { vs_opt("leakcheck", 1); double a = vs_real("a"), b = vs_real("b"); Vector<> d = {a, b}; Vector<Resizable> r = {b, a, b}; vs_eqi(d.size(), 2, "size"); vs_eqi(r.size(), 3, "size"); vs_eq(d[0], a, "list", 0); vs_eq(d[1], b, "list", 0); vs_eq(r[1], a, "list", 0); vs_eq(r[2], b, "list", 0); Vector<2> s({b, a}); vs_eq(s[0], b, "list", 0); vs_eq(s[1], a, "list", 0); }
