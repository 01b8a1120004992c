#include "hcommon.h"
struct RM { double d[8]; int n; };
static void req(const Vector<Resizable>& v, const RM& m, const char* l) { vs_eqi(v.size(), m.n, "size"); for (int i = 0; i < m.n; i++) vs_eq(v[i], m.d[i], l, 0); }
static void rset(Vector<Resizable>& v, RM& m) { m.n = v.size(); for (int i = 0; i < m.n; i++) { m.d[i] = vs_real("x"); v[i] = m.d[i]; } }
// every history of resizes and assignments: size always what was asked for, kept elements keep their values, no memory error
template<int A, int B> static void hist(int steps)
{
	vs_opt("leakcheck", 1);
	Vector<Resizable> v(A), w(3); v.resize(B); // A > B: spare capacity
	RM m, mw; rset(v, m); rset(w, mw);
	for (int t = 0; t < steps; t++) {
		int op = vs_choose("op", 0, 8);
		if (op == 0) { int n = vs_int("n", 0, 5); v.resize(n); vs_eqi(v.size(), n, "resize size"); for (int i = 0; i < n && i < m.n; i++) vs_eq(v[i], m.d[i], "resize keeps the common prefix", 0); for (int i = m.n; i < n; i++) { m.d[i] = vs_real("g"); v[i] = m.d[i]; } m.n = n; }
		if (op == 1) { v = w; m = mw; }
		if (op == 2) { int n = vs_choose("n", 1, 4); Vector<> s(n); for (int i = 0; i < n; i++) { s[i] = vs_real("s"); m.d[i] = s[i]; } m.n = n; v = s; }
		if (op == 3) { Vector<4> s; for (int i = 0; i < 4; i++) { s[i] = vs_real("s"); m.d[i] = s[i]; } m.n = 4; v = s; }
		if (op == 7) { Vector<1> s; s[0] = m.d[0] = vs_real("s"); m.n = 1; v = s; }
		if (op == 8) { Vector<3> s; for (int i = 0; i < 3; i++) { s[i] = vs_real("s"); m.d[i] = s[i]; } m.n = 3; v = s; }
		if (op == 4) { v = 2 * w; m.n = mw.n; for (int i = 0; i < m.n; i++) m.d[i] = 2 * mw.d[i]; }
		if (op == 5) { v.swap(w); RM q = m; m = mw; mw = q; }
		if (op == 6) { v = Zeros(3); m.n = 3; m.d[0] = m.d[1] = m.d[2] = 0; }
		req(v, m, "contents"); req(w, mw, "other vector");
	}
}
H(h_hist2) { hist<2, 2>(2); }
H(h_hist1c) { hist<5, 2>(1); }
H(ht_hist2c) { hist<6, 2>(2); }
H(ht_hist3) { hist<2, 2>(3); }
H(h_ctor) { int n = vs_int("n", 0, 6); Vector<Resizable> v(n); vs_eqi(v.size(), n, "constructed size"); for (int i = 0; i < n; i++) v[i] = i; for (int i = 0; i < n; i++) vs_eq(v[i], i, "element", 0); }
H(h_empty) { Vector<Resizable> v; vs_eqi(v.size(), 0, "default size"); Vector<2> s; fill(s); v = s; eqv(v, s, "assigned to empty", 0); Vector<Resizable> w; w = v; eqv(w, s, "copied", 0); v.resize(0); vs_eqi(v.size(), 0, "emptied"); w = v; vs_eqi(w.size(), 0, "empty assigned"); v.resize(3); vs_eqi(v.size(), 3, "grown"); }
H(h_self) { Vector<Resizable> v(3); fill(v); double a = v[0], b = v[1], c = v[2]; v = v; vs_eqi(v.size(), 3, "size"); vs_eq(v[0], a, "self assignment", 0); vs_eq(v[1], b, "self assignment", 0); vs_eq(v[2], c, "self assignment", 0); }
H(h_ownfull) { Vector<Resizable> v(3); fill(v); double a = v[0], b = v[1], c = v[2]; v = v.slice(0, 3); vs_eqi(v.size(), 3, "size"); vs_eq(v[0], a, "assign whole slice", 0); vs_eq(v[1], b, "assign whole slice", 0); vs_eq(v[2], c, "assign whole slice", 0); }
H(h_ops) { Vector<Resizable> a(3), b(3); fill(a); fill(b); Vector<Resizable> c = a + b; vs_eqi(c.size(), 3, "size"); for (int i = 0; i < 3; i++) vs_eq(c[i], a[i] + b[i], "sum"); a -= b; a += 2 * b; for (int i = 0; i < 3; i++) vs_eq(a[i], c[i], "in place"); c = Zeros(2); vs_eqi(c.size(), 2, "sized by Zeros"); c = Ones(4); vs_eqi(c.size(), 4, "sized by Ones"); c = Vector<2>(Zeros); vs_eqi(c.size(), 2, "sized by operand"); vs_eq(c[1], 0, "zero", 0); }
H(h_zerosnosize) { Vector<Resizable> a(3); fill(a); a = Zeros; vs_eqi(a.size(), 3, "unsized Zeros keeps the size"); for (int i = 0; i < 3; i++) vs_eq(a[i], 0, "zeroed", 0); a = Ones; vs_eqi(a.size(), 3, "unsized Ones keeps the size"); for (int i = 0; i < 3; i++) vs_eq(a[i], 1, "ones", 0); }
H(h_slice) { Vector<Resizable> a(5); fill(a); int s = vs_int("s", 0, 5), l = vs_int("l", 0, 5); ASSUME(s + l <= 5); Vector<Resizable> b(a.slice(s, l)); vs_eqi(b.size(), l, "size of slice"); for (int i = 0; i < l; i++) vs_eq(b[i], a[s + i], "slice", 0); Vector<Resizable> c; c = a.slice(s, l); vs_eqi(c.size(), l, "size of assigned slice"); for (int i = 0; i < l; i++) vs_eq(c[i], a[s + i], "assigned slice", 0); }
H(h_static) { Vector<Resizable> a(3); fill(a); Vector<3> s = a; eqv(s, a, "to static", 0); Vector<Resizable, float> f(2); f[0] = vs_float("f"); f[1] = vs_float("f"); Vector<Resizable> d; d = f; vs_eqi(d.size(), 2, "size"); vs_eq(d[0], f[0], "from float", 0); vs_eq(d[1], f[1], "from float", 0); }
H(h_matvec) { Matrix<2, 3> m; fillm(m); Vector<Resizable> v(3); fill(v); Vector<Resizable> r; r = m * v; vs_eqi(r.size(), 2, "product size"); for (int i = 0; i < 2; i++) vs_eq(r[i], m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2], "product"); }
