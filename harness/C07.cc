// BOUNDS: run-time slices with every 32-bit start and length (full range, symbolic) of vectors of size 1..5 and matrices up to 4x3
#include "hcommon.h"
static const int LO = -2147483647 - 1, HI = 2147483647;
// valid iff 0 <= start, 0 <= length, start+length <= size over the integers
static int ok1(int s, int l, int n) { return s >= 0 && l >= 0 && s <= n && l <= n && (long long)s + (long long)l <= n; }
template<class V> void vslice(V&& v, int n, int lo = LO, int hi = HI)
{
	int s = vs_int("start", lo, hi), l = vs_int("length", lo, hi);
	int bad = !ok1(s, l, n);
	vs_abort_ok(bad);
	auto x = v.slice(s, l);
	CHECK(!bad, "slice outside the vector must not go unnoticed"); ASSUME(!bad);
	vs_eqi(x.size(), l, "slice size");
	for (int i = 0; i < l; i++) CHECK(&x[i] == &v[s + i], "slice element");
}
template<class M> void mslice(M&& m, int R, int C)
{
	int r0 = vs_int("r0", LO, HI), c0 = vs_int("c0", LO, HI), rl = vs_int("rl", LO, HI), cl = vs_int("cl", LO, HI);
	int bad = !(ok1(r0, rl, R) && ok1(c0, cl, C));
	vs_abort_ok(bad);
	auto x = m.slice(r0, c0, rl, cl);
	CHECK(!bad, "slice outside the matrix must not go unnoticed"); ASSUME(!bad);
	vs_eqi(x.num_rows(), rl, "slice rows"); vs_eqi(x.num_cols(), cl, "slice cols");
	for (int i = 0; i < rl; i++) for (int j = 0; j < cl; j++) CHECK(&x(i, j) == &m(r0 + i, c0 + j), "slice element");
}
H(h_v3) { Vector<3> v; vslice(v, 3); }
H(h_v1) { Vector<1> v; vslice(v, 1); }
H(h_vd) { Vector<> v(4); vslice(v, 4); }
H(h_vd0) { Vector<> v(0); vslice(v, 0); }
H(h_vr) { Vector<Resizable> v(3); vslice(v, 3); }
H(h_vw) { double b[5]; vslice(wrapVector(b, 3), 3); }
H(h_row) { Matrix<3, 2> m; vslice(m[1], 2); }
H(h_col) { Matrix<3, 2> m; vslice(m.T()[1], 3); }
H(h_cold) { Matrix<> m(3, 2); vslice(m.T()[1], 3); }
H(h_slice) { Vector<5> v; vslice(v.slice<1, 3>(), 3); }
H(h_sliced) { Vector<5> v; vslice(v.slice(1, 3), 3); }
H(h_const) { Vector<3> v; const Vector<3>& c = v; vslice(c, 3); }
H(h_constd) { Vector<> v(3); const Vector<>& c = v; vslice(c, 3); }
H(h_diag) { Matrix<3, 2> m; vslice(m.diagonal_slice(), 2); }
H(h_ms) { Matrix<2, 3> m; mslice(m, 2, 3); }
H(h_mc) { Matrix<3, 2, double, ColMajor> m; mslice(m, 3, 2); }
H(h_md) { Matrix<> m(2, 2); mslice(m, 2, 2); }
H(h_mh) { Matrix<2, Dynamic> m(2, 3); mslice(m, 2, 3); }
H(h_mt) { Matrix<> m(2, 3); mslice(m.T(), 3, 2); }
H(h_mslice) { Matrix<4, 4> m; mslice(m.slice<1, 1, 2, 2>(), 2, 2); }
H(h_msliced) { Matrix<4, 4> m; mslice(m.slice(1, 1, 2, 2), 2, 2); }
H(h_mconst) { Matrix<> m(2, 2); const Matrix<>& c = m; mslice(c, 2, 2); }
// static slices of dynamically sized objects are checked at run time
template<int S, int L, class V> void vstat(V&& v, int n) { int bad = !ok1(S, L, n); vs_abort_ok(bad); auto x = v.template slice<S, L>(); CHECK(!bad, "static slice outside a dynamic vector must not go unnoticed"); ASSUME(!bad); vs_eqi(x.size(), L, "slice size"); for (int i = 0; i < L; i++) CHECK(&x[i] == &v[S + i], "slice element"); }
H(h_stat_vd) { int n = vs_int("n", 0, 6); Vector<> v(n); vstat<1, 3>(v, n); }
H(h_stat_vd0) { int n = vs_int("n", 0, 6); Vector<> v(n); vstat<0, 4>(v, n); }
H(h_stat_vr) { int n = vs_int("n", 0, 6); Vector<Resizable> v(n); vstat<2, 2>(v, n); }
H(h_stat_vw) { double b[8]; int n = vs_int("n", 0, 6); vstat<1, 3>(wrapVector(b, n), n); }
H(h_stat_col) { int n = vs_int("n", 1, 5); Matrix<> m(n, 2); vstat<1, 2>(m.T()[1], n); }
template<int R0, int C0, int RL, int CL, class M> void mstat(M&& m, int R, int C) { int bad = !(ok1(R0, RL, R) && ok1(C0, CL, C)); vs_abort_ok(bad); auto x = m.template slice<R0, C0, RL, CL>(); CHECK(!bad, "static slice outside a dynamic matrix must not go unnoticed"); ASSUME(!bad); vs_eqi(x.num_rows(), RL, "slice rows"); vs_eqi(x.num_cols(), CL, "slice cols"); for (int i = 0; i < RL; i++) for (int j = 0; j < CL; j++) CHECK(&x(i, j) == &m(R0 + i, C0 + j), "slice element"); }
H(h_stat_md) { int r = vs_int("r", 1, 4), c = vs_int("c", 1, 4); Matrix<> m(r, c); mstat<1, 0, 2, 3>(m, r, c); }
H(h_stat_mdc) { int r = vs_int("r", 1, 4), c = vs_int("c", 1, 4); Matrix<Dynamic, Dynamic, double, ColMajor> m(r, c); mstat<0, 2, 3, 1>(m, r, c); }
H(h_stat_mh) { int c = vs_int("c", 1, 5); Matrix<3, Dynamic> m(3, c); mstat<1, 2, 2, 2>(m, 3, c); }
H(h_stat_mt) { int r = vs_int("r", 1, 4), c = vs_int("c", 1, 4); Matrix<> m(r, c); mstat<1, 0, 2, 3>(m.T(), c, r); }
// slices of slices: checked against the slice, not what it was taken from
H(h_ss_c) { Matrix<> m(4, 5); const Matrix<>& c = m; mslice(c.slice(1, 1, 2, 2), 2, 2); }
H(h_ss_cs) { Matrix<4, 5> m; const Matrix<4, 5>& c = m; mslice(c.slice(1, 1, 2, 2), 2, 2); }
H(h_ss_cst) { Matrix<4, 5> m; const Matrix<4, 5>& c = m; mslice(c.slice<1, 1, 2, 2>(), 2, 2); }
H(h_ss_cc) { Matrix<Dynamic, Dynamic, double, ColMajor> m(5, 4); const Matrix<Dynamic, Dynamic, double, ColMajor>& c = m; mslice(c.slice(1, 1, 2, 2), 2, 2); }
H(h_ss_ct) { Matrix<> m(5, 4); const Matrix<>& c = m; mslice(c.T().slice(1, 1, 2, 2), 2, 2); }
H(h_ss_m) { Matrix<> m(4, 5); auto s = m.slice(1, 1, 2, 2); mslice(s, 2, 2); const auto& k = s; mslice(k, 2, 2); }
H(h_ss_v) { Vector<> v(6); const Vector<>& c = v; vslice(c.slice(1, 3), 3); }
H(h_ss_vs) { Vector<6> v; const Vector<6>& c = v; vslice(c.slice<1, 3>(), 3); }
H(h_ss_row) { Matrix<> m(3, 5); const Matrix<>& c = m; vslice(c.slice(1, 1, 2, 3)[1], 3); }
H(h_ss_col) { Matrix<> m(5, 3); const Matrix<>& c = m; vslice(c.slice(1, 1, 3, 2).T()[1], 3); }
// the form with both: a bound given twice has to agree with itself
template<int S, int L, class V> void vmix(V&& v, int n)
{
	int s = vs_int("start", LO, HI), l = vs_int("length", LO, HI);
	int bad = !ok1(s, l, n) || (S != Dynamic && s != S) || (L != Dynamic && l != L);
	vs_abort_ok(bad);
	auto x = v.template slice<S, L>(s, l);
	CHECK(!bad, "slice outside the vector, or at odds with its static bounds, must not go unnoticed"); ASSUME(!bad);
	vs_eqi(x.size(), l, "slice size");
	for (int i = 0; i < x.size(); i++) CHECK(&x[i] == &v[s + i], "slice element");
}
template<int A, int B, int C, int D, class M> void mmix(M&& m, int R, int Cn)
{
	int r0 = vs_int("r0", LO, HI), c0 = vs_int("c0", LO, HI), rl = vs_int("rl", LO, HI), cl = vs_int("cl", LO, HI);
	int bad = !(ok1(r0, rl, R) && ok1(c0, cl, Cn)) || (A != Dynamic && r0 != A) || (B != Dynamic && c0 != B) || (C != Dynamic && rl != C) || (D != Dynamic && cl != D);
	vs_abort_ok(bad);
	auto x = m.template slice<A, B, C, D>(r0, c0, rl, cl);
	CHECK(!bad, "slice outside the matrix, or at odds with its static bounds, must not go unnoticed"); ASSUME(!bad);
	vs_eqi(x.num_rows(), rl, "slice rows"); vs_eqi(x.num_cols(), cl, "slice cols");
	for (int i = 0; i < x.num_rows(); i++) for (int j = 0; j < x.num_cols(); j++) CHECK(&x(i, j) == &m(r0 + i, c0 + j), "slice element");
}
H(h_mix_dl) { Vector<5> v; vmix<Dynamic, 2>(v, 5); Vector<> w(4); vmix<Dynamic, 3>(w, 4); }
H(h_mix_sd) { Vector<5> v; vmix<1, Dynamic>(v, 5); Vector<> w(4); vmix<2, Dynamic>(w, 4); }
H(h_mix_ss) { Vector<5> v; vmix<1, 3>(v, 5); Vector<> w(4); vmix<2, 2>(w, 4); }
H(h_mix_c) { Vector<5> v; const Vector<5>& c = v; vmix<Dynamic, 2>(c, 5); vmix<1, Dynamic>(c, 5); }
H(h_mix_short) { Vector<> w(2); vmix<1, 3>(w, 2); }
H(h_mix_m) { Matrix<4, 3> m; mmix<Dynamic, Dynamic, 2, 2>(m, 4, 3); const Matrix<4, 3>& c = m; mmix<Dynamic, 1, 2, Dynamic>(c, 4, 3); }
H(h_mix_md) { Matrix<> m(3, 3); mmix<1, Dynamic, Dynamic, 2>(m, 3, 3); mmix<Dynamic, 0, 2, 2>(m.T(), 3, 3); }
H(h_mix_r) { Vector<Resizable> v(4); int s = vs_int("start", LO, HI), bad = !ok1(s, 2, 4); vs_abort_ok(bad); auto x = v.slice<Dynamic, 2>(s, 2); CHECK(!bad, "slice outside the vector must not go unnoticed"); ASSUME(!bad); for (int i = 0; i < 2; i++) CHECK(&x[i] == &v[s + i], "slice element"); }
