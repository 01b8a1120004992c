// BOUNDS: named element vectors of 1, 3 and 6 names in double and float; every name, every index; all values symbolic
#include "hcommon.h"
#include <TooN/named_elements.h>
TOON_MAKE_NAMED_ELEMENT_VECTOR(Cam, fx, fy, cx, cy, w, k)
TOON_MAKE_NAMED_ELEMENT_VECTOR(Xyz, x, y, z)
TOON_MAKE_NAMED_ELEMENT_VECTOR(One1, only)
H(h_cam) { Cam<> c; fill(c); vs_eqi(c.size(), 6, "size"); vs_eq(c.fx, c[0], "name 0"); vs_eq(c.fy, c[1], "name 1"); vs_eq(c.cx, c[2], "name 2"); vs_eq(c.cy, c[3], "name 3"); vs_eq(c.w, c[4], "name 4"); vs_eq(c.k, c[5], "name 5"); Vector<6> o = c; c.cx = 7; for (int i = 0; i < 6; i++) vs_eq(c[i], i == 2 ? 7 : o[i], "write by name"); c[5] = 3; vs_eq(c.k, 3, "write by index"); vs_eq(c.w, o[4], "others keep"); }
H(h_xyz) { Xyz<> a, b; fill(a); fill(b); Xyz<> s(a + b); Vector<3> d = a - b; double dot = a * b; vs_eq(s.x, a.x + b.x, "sum"); vs_eq(s.y, a.y + b.y, "sum"); vs_eq(s.z, a.z + b.z, "sum"); vs_eq(d[2], a.z - b.z, "difference"); vs_eq(dot, a.x * b.x + a.y * b.y + a.z * b.z, "dot"); Vector<3> x = a ^ b; vs_eq(x[0], a.y * b.z - a.z * b.y, "cross"); Xyz<> c(a); a.x += 1; vs_eq(c.x + 1, a.x, "copies are independent"); c = b; vs_eq(c.z, b.z, "assignment"); b.z = 5; c += b; c *= 2; vs_eq(c.x, 4 * b.x, "in place"); Vector<3> v; fill(v, "v"); c = v; vs_eq(c.y, v[1], "from plain vector"); v = b; vs_eq(v[2], 5, "to plain vector"); Matrix<3> m; fillm(m); Vector<3> mv = m * b; vs_eq(mv[0], m[0][0] * b.x + m[0][1] * b.y + m[0][2] * 5, "matrix * named"); auto sl = b.slice<1, 2>(); sl[0] = 9; vs_eq(b.y, 9, "slice aliases"); }
H(h_float) { Xyz<float> a; for (int i = 0; i < 3; i++) a[i] = vs_float("f"); vs_eq(a.x, a[0], "name"); vs_eq(a.y, a[1], "name"); vs_eq(a.z, a[2], "name"); Vector<3> d(a); vs_eq(d[1], a.y, "to double"); Xyz<> e(a * 2.0); vs_eq(e.z, 2 * a.z, "scaled to double"); }
H(h_one) { One1<> a; a.only = vs_real("o"); vs_eqi(a.size(), 1, "size"); vs_eq(a[0], a.only, "single"); One1<> z(Zeros), o; o = Ones; vs_eq(z.only, 0, "Zeros"); vs_eq(o.only, 1, "Ones"); }
H(h_fill) { Xyz<> a; double p = vs_real("p"), q = vs_real("q"), r = vs_real("r"); a = makeVector(p, q, r); vs_eq(a.x, p, "makeVector"); vs_eq(a.y, q, "makeVector"); vs_eq(a.z, r, "makeVector"); std::swap(a.x, a.z); vs_eq(a[0], r, "swap by name"); }
// copied, moved, swapped, returned and held in containers
template<class V> static V ret(const V& v, bool w) { V a(v), b(v); b[0] += 1; if (w) return a; return b; }
template<class V> static void life(V& c)
{
	fill(c); const int n = c.size(); double o[8]; for (int i = 0; i < n; i++) o[i] = c[i];
	V a(c); for (int i = 0; i < n; i++) vs_eq(a[i], o[i], "copy"); V b(std::move(a)); for (int i = 0; i < n; i++) vs_eq(b[i], o[i], "move"); V d; d = b; for (int i = 0; i < n; i++) vs_eq(d[i], o[i], "assigned"); V e; e = std::move(d); for (int i = 0; i < n; i++) vs_eq(e[i], o[i], "move assigned");
	V r = ret(c, vs_choose("w", 0, 1)); for (int i = 1; i < n; i++) vs_eq(r[i], o[i], "returned"); V x; fill(x, "x"); V y(x); std::swap(x, e); for (int i = 0; i < n; i++) { vs_eq(x[i], o[i], "swapped"); vs_eq(e[i], y[i], "swapped"); }
	V arr[2] = {c, y}; for (int i = 0; i < n; i++) { vs_eq(arr[0][i], o[i], "array"); vs_eq(arr[1][i], y[i], "array"); } const V& k = c; for (int i = 0; i < n; i++) vs_eq(k[i], o[i], "const"); e = k * 2.0; for (int i = 0; i < n; i++) vs_eq(e[i], 2 * o[i], "expression"); e += k; for (int i = 0; i < n; i++) { vs_eq(e[i], 3 * o[i], "+="); vs_eq(c[i], o[i], "original kept"); }
}
H(h_life1) { One1<> v; life(v); }
H(h_life3) { Xyz<> v; life(v); }
H(h_life6) { Cam<> v; life(v); }
