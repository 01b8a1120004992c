// BOUNDS: matrix shapes up to 4x5 and vectors up to 5, plus sizes on both sides of the stack/heap threshold (125/126 doubles, 11x11 / 11x12); static, dynamic, half-dynamic, resizable; row and column major; double, float, int
#include "hcommon.h"
using std::make_pair;
// Every element written through one accessor is read back through all the others; elements are distinct cells.
template<class M> void mat_store(M& m, int R, int C)
{
	vs_eqi(m.num_rows(), R, "num_rows");
	vs_eqi(m.num_cols(), C, "num_cols");
	double v[32];
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) { v[r * C + c] = vs_real("v"); m(r, c) = v[r * C + c]; }
	const M& k = m;
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) {
		vs_eq(m(r, c), v[r * C + c], "(r,c) reads what was written", 0);
		vs_eq(k(r, c), v[r * C + c], "const (r,c)", 0);
		vs_eq(m[r][c], v[r * C + c], "[r][c]", 0);
		vs_eq(k[r][c], v[r * C + c], "const [r][c]", 0);
		vs_eq(m[make_pair(r, c)], v[r * C + c], "[pair]", 0);
		vs_eq(k[make_pair(r, c)], v[r * C + c], "const [pair]", 0);
	}
	// one more write, at an arbitrary place, touches only that place
	int r0 = vs_int("r0", 0, R - 1), c0 = vs_int("c0", 0, C - 1), how = vs_choose("how", 0, 2);
	double w = vs_real("w");
	if (how == 0) m[r0][c0] = w; else if (how == 1) m[make_pair(r0, c0)] = w; else m(r0, c0) = w;
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) vs_eq(m[r][c], r == r0 && c == c0 ? w : v[r * C + c], "write touches one element", 0);
}
template<class V> void vec_store(V& x, int N)
{
	vs_eqi(x.size(), N, "size");
	double v[8];
	for (int i = 0; i < N; i++) x[i] = v[i] = vs_real("v");
	const V& k = x;
	for (int i = 0; i < N; i++) { vs_eq(x[i], v[i], "[i]", 0); vs_eq(k[i], v[i], "const [i]", 0); vs_eq(x.get_data_ptr()[i], v[i], "data pointer is contiguous", 0); vs_eq(k.get_data_ptr()[i], v[i], "const data pointer", 0); }
	int i0 = vs_int("i0", 0, N - 1);
	double w = vs_real("w");
	x[i0] = w;
	for (int i = 0; i < N; i++) vs_eq(x[i], i == i0 ? w : v[i], "write touches one element", 0);
}
template<class M> void layout(M& m, int R, int C, bool row)
{
	fillm(m);
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) vs_eq(m.get_data_ptr()[row ? r * C + c : c * R + r], m[r][c], "memory order", 0);
}
H(h_m11) { Matrix<1> m; mat_store(m, 1, 1); }
H(h_m23) { Matrix<2, 3> m; mat_store(m, 2, 3); }
H(h_m32) { Matrix<3, 2> m; mat_store(m, 3, 2); }
H(h_m45) { Matrix<4, 5> m; mat_store(m, 4, 5); }
H(h_m23c) { Matrix<2, 3, double, ColMajor> m; mat_store(m, 2, 3); }
H(h_m32c) { Matrix<3, 2, double, ColMajor> m; mat_store(m, 3, 2); }
H(h_m13c) { Matrix<1, 3, double, ColMajor> m; mat_store(m, 1, 3); }
H(h_d23) { Matrix<> m(2, 3); mat_store(m, 2, 3); }
H(h_d32c) { Matrix<Dynamic, Dynamic, double, ColMajor> m(3, 2); mat_store(m, 3, 2); }
H(h_hd23) { Matrix<2, Dynamic> m(2, 3); mat_store(m, 2, 3); }
H(h_hd23b) { Matrix<Dynamic, 3> m(2, 3); mat_store(m, 2, 3); }
H(h_hd32c) { Matrix<3, Dynamic, double, ColMajor> m(3, 2); mat_store(m, 3, 2); }
H(h_hd32cb) { Matrix<Dynamic, 2, double, ColMajor> m(3, 2); mat_store(m, 3, 2); }
H(h_lay) {
	{ Matrix<2, 3> m; layout(m, 2, 3, true); }
	{ Matrix<3, 2, double, ColMajor> m; layout(m, 3, 2, false); }
	{ Matrix<> m(2, 3); layout(m, 2, 3, true); }
	{ Matrix<Dynamic, Dynamic, double, ColMajor> m(2, 3); layout(m, 2, 3, false); }
	{ Matrix<2, Dynamic> m(2, 3); layout(m, 2, 3, true); }
	{ Matrix<Dynamic, 2> m(3, 2); layout(m, 3, 2, true); }
	{ Matrix<2, Dynamic, double, ColMajor> m(2, 3); layout(m, 2, 3, false); }
	{ Matrix<Dynamic, 3, double, ColMajor> m(2, 3); layout(m, 2, 3, false); }
}
H(h_v1) { Vector<1> v; vec_store(v, 1); }
H(h_v4) { Vector<4> v; vec_store(v, 4); }
H(h_vd5) { Vector<> v(5); vec_store(v, 5); }
H(h_vr4) { Vector<Resizable> v(4); vec_store(v, 4); }
// storage that moves to the heap: all cells distinct, copies independent
template<int N> void big_vec()
{
	Vector<N> a;
	for (int i = 0; i < N; i++) a[i] = i + 1;
	Vector<N> b(a);
	double w = vs_real("w");
	int i0 = vs_choose("i0", 0, 2) * (N - 1) / 2;
	b[i0] = w;
	for (int i = 0; i < N; i++) { vs_eq(a[i], i + 1, "original untouched", 0); vs_eq(b[i], i == i0 ? w : i + 1, "copy", 0); }
	Vector<N> c;
	c = b;
	c[i0] = 0;
	for (int i = 0; i < N; i++) vs_eq(b[i], i == i0 ? w : i + 1, "assigned-from untouched", 0);
}
H(h_big124) { big_vec<124>(); }
H(h_big125) { big_vec<125>(); }
H(h_big126) { big_vec<126>(); }
H(h_big200) { big_vec<200>(); }
template<int R, int C, class L> void big_mat()
{
	Matrix<R, C, double, L> a;
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) a[r][c] = r * C + c;
	Matrix<R, C, double, L> b(a), d;
	double w = vs_real("w");
	b[R - 1][0] = w;
	d = b;
	d[0][C - 1] = w;
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) {
		vs_eq(a[r][c], r * C + c, "original untouched", 0);
		vs_eq(b(r, c), r == R - 1 && c == 0 ? w : r * C + c, "copy", 0);
		vs_eq(d(r, c), (r == R - 1 && c == 0) || (r == 0 && c == C - 1) ? w : r * C + c, "assigned", 0);
	}
}
H(h_bigm1) { big_mat<11, 11, RowMajor>(); }
H(h_bigm2) { big_mat<11, 12, RowMajor>(); }
H(h_bigm3) { big_mat<12, 11, ColMajor>(); }
// other element types
H(h_int) {
	Matrix<2, 3, int> m; Vector<4, int> v;
	int a[6], b[4];
	for (int i = 0; i < 6; i++) m(i / 3, i % 3) = a[i] = vs_int("a", -2147483647 - 1, 2147483647);
	for (int i = 0; i < 4; i++) v[i] = b[i] = vs_int("b", -2147483647 - 1, 2147483647);
	for (int i = 0; i < 6; i++) vs_eqi(m[i / 3][i % 3], a[i], "int matrix element");
	for (int i = 0; i < 4; i++) vs_eqi(v[i], b[i], "int vector element");
}
H(h_float) {
	Matrix<3, 2, float, ColMajor> m; Vector<3, float> v;
	float a[6], b[3];
	for (int i = 0; i < 6; i++) m(i / 2, i % 2) = a[i] = vs_float("a");
	for (int i = 0; i < 3; i++) v[i] = b[i] = vs_float("b");
	for (int i = 0; i < 6; i++) vs_eq(m[i / 2][i % 2], a[i], "float matrix element", 0);
	for (int i = 0; i < 3; i++) vs_eq(v[i], b[i], "float vector element", 0);
}
// copy construction and assignment between storage kinds keep the values
template<class A, class B> void conv(A& a, B& b) { fillm(a); b = a; eqm(b, a, "assignment copies every element", 0); B c(a); eqm(c, a, "construction copies every element", 0); }
H(h_conv) {
	{ Matrix<2, 3> a; Matrix<2, 3, double, ColMajor> b; conv(a, b); }
	{ Matrix<2, 3, double, ColMajor> a; Matrix<> b(2, 3); conv(a, b); }
	{ Matrix<> a(3, 2); Matrix<3, 2> b; conv(a, b); }
	{ Matrix<2, Dynamic> a(2, 3); Matrix<Dynamic, 3, double, ColMajor> b(2, 3); conv(a, b); }
	{ Matrix<> a(2, 2); Matrix<> b(2, 2); conv(a, b); }
	{ Matrix<Dynamic, Dynamic, double, ColMajor> a(2, 3); Matrix<> b(2, 3); conv(a, b); }
}
template<class A, class B> void vconv(A& a, B& b) { fill(a); b = a; eqv(b, a, "assignment copies every element", 0); B c(a); eqv(c, a, "construction copies every element", 0); c[0] = vs_real("w"); eqv(b, a, "copies are independent", 0); }
H(h_vconv) {
	{ Vector<3> a; Vector<> b(3); vconv(a, b); }
	{ Vector<> a(3); Vector<3> b; vconv(a, b); }
	{ Vector<> a(3); Vector<> b(3); vconv(a, b); }
	{ Vector<3> a; Vector<Resizable> b; vconv(a, b); }
	{ Vector<Resizable> a(3); Vector<> b(3); vconv(a, b); }
	{ Vector<3> a; Vector<3> b; vconv(a, b); }
}
// equality operators compare every element
H(h_eqop) {
	Matrix<2, 3> a; Matrix<2, 3, double, ColMajor> b; fillm(a); fillm(b, "b");
	bool all = true;
	for (int i = 0; i < 6; i++) if (!(a[i / 3][i % 3] == b[i / 3][i % 3])) all = false;
	CHECK((a == b) == all, "== iff all elements equal");
	CHECK((a != b) == !all, "!= iff some element differs");
}
H(h_eqopv) {
	Vector<3> a; Vector<> b(3); fill(a); fill(b, "b");
	bool all = true;
	for (int i = 0; i < 3; i++) if (!(a[i] == b[i])) all = false;
	CHECK((a == b) == all, "== iff all elements equal");
	CHECK((a != b) == !all, "!= iff some element differs");
}
