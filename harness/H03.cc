// BOUNDS: (up to 9 and 4x6 with one symbolic element) vectors of size 0..4 and matrices up to 3x3 (0 rows or columns included), several storage forms; all values symbolic (every order of the elements, ties included)
// OPTS: time=60
#include "hcommon.h"
// concrete but for one element, anywhere
template<class V> static void fillv1(V&& v) { for (int i = 0; i < v.size(); i++) v[i] = (i * 5 + 2) % 7 - 3; int k = vs_choose("k", 0, v.size() - 1); v[k] = vs_real("v"); }
template<class M> static void fillm1(M&& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m(i, j) = (i * 5 + j * 3 + 2) % 7 - 3; int k = vs_choose("k", 0, m.num_rows() * m.num_cols() - 1); m(k / m.num_cols(), k % m.num_cols()) = vs_real("m"); }
template<class V> static void ev(V&& v, bool all = true)
{
	if (all) fill(v, "v"); else fillv1(v); const int n = v.size(); double lo = min_value(v), hi = max_value(v); std::pair<double, int> a = min_element(v), b = max_element(v);
	for (int k = 0; k < n; k++) { CHECK(lo <= v[k], "min_value is a lower bound"); CHECK(hi >= v[k], "max_value is an upper bound"); }
	CHECK(a.second >= 0 && a.second < n, "min_element index in range"); CHECK(b.second >= 0 && b.second < n, "max_element index in range");
	vs_eq(v[a.second], a.first, "min_element position holds the value", 0); vs_eq(v[b.second], b.first, "max_element position holds the value", 0);
	vs_eq(a.first, lo, "min_element equals min_value", 0); vs_eq(b.first, hi, "max_element equals max_value", 0);
}
template<class M> static void em(M&& m, bool all = true)
{
	if (all) fillm(m, "m"); else fillm1(m); const int R = m.num_rows(), C = m.num_cols(); double lo = min_value(m), hi = max_value(m); auto a = min_element(m); auto b = max_element(m);
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) { CHECK(lo <= m(r, c), "min_value is a lower bound"); CHECK(hi >= m(r, c), "max_value is an upper bound"); }
	vs_eq(m(a.second.first, a.second.second), a.first, "min_element position holds the value", 0); vs_eq(m(b.second.first, b.second.second), b.first, "max_element position holds the value", 0);
	vs_eq(a.first, lo, "min_element equals min_value", 0); vs_eq(b.first, hi, "max_element equals max_value", 0);
}
template<class M> static void hm(M&& m, bool all = true)
{
	if (all) fillm(m, "m"); else fillm1(m); const int R = m.num_rows(), C = m.num_cols(); int w = vs_choose("which", 0, 1);
	auto v = w ? max_value_horizontal(m) : min_value_horizontal(m); auto e = w ? max_element_horizontal(m) : min_element_horizontal(m);
	vs_eqi(v.size(), R, "one value per row"); vs_eqi(e.first.size(), R, "one value per row"); vs_eqi(e.second.size(), R, "one index per row");
	for (int r = 0; r < R; r++) { for (int c = 0; c < C; c++) CHECK(w ? v[r] >= m(r, c) : v[r] <= m(r, c), "row extreme"); vs_eq(e.first[r], v[r], "element_horizontal value", 0); int k = (int)e.second[r]; CHECK(k >= 0 && k < C, "column index in range"); vs_eq(m(r, k), v[r], "element_horizontal position holds the value", 0); }
}
template<class M> static void vm(M&& m, bool all = true)
{
	if (all) fillm(m, "m"); else fillm1(m); const int R = m.num_rows(), C = m.num_cols(); int w = vs_choose("which", 0, 1);
	auto v = w ? max_value_vertical(m) : min_value_vertical(m); auto e = w ? max_element_vertical(m) : min_element_vertical(m);
	vs_eqi(v.size(), C, "one value per column"); vs_eqi(e.first.size(), C, "one value per column"); vs_eqi(e.second.size(), C, "one index per column");
	for (int c = 0; c < C; c++) { for (int r = 0; r < R; r++) CHECK(w ? v[c] >= m(r, c) : v[c] <= m(r, c), "column extreme"); vs_eq(e.first[c], v[c], "element_vertical value", 0); int k = (int)e.second[c]; CHECK(k >= 0 && k < R, "row index in range"); vs_eq(m(k, c), v[c], "element_vertical position holds the value", 0); }
}
H(h_v1) { Vector<1> v; ev(v); }
H(h_v3) { Vector<3> v; ev(v); }
H(h_v4) { Vector<> v(4); ev(v); }
H(h_vr) { Vector<Resizable> v(3); ev(v); }
H(h_vs) { Matrix<3, 2> m; ev(m.T()[1]); }
H(h_m22) { Matrix<2> m; em(m); }
H(h_m13) { Matrix<1, 3> m; em(m); }
H(h_m31) { Matrix<> m(3, 1); em(m); }
H(h_m23) { Matrix<2, 3, double, ColMajor> m; ASSUME(1); em(m); }
H(h_msl) { Matrix<4> m; em(m.slice<1, 2, 2, 2>()); }
H(h_h22) { Matrix<2> m; hm(m); }
H(h_h23) { Matrix<> m(2, 3); hm(m); }
H(h_h32) { Matrix<3, 2> m; hm(m.T()); }
H(h_h31) { Matrix<3, 1> m; hm(m); }
H(h_h13) { Matrix<1, 3> m; hm(m); }
H(h_y22) { Matrix<2> m; vm(m); }
H(h_y32) { Matrix<> m(3, 2); vm(m); }
H(h_y23) { Matrix<2, 3> m; vm(m.T()); }
H(h_y31) { Matrix<3, 1> m; vm(m); }
H(h_y13) { Matrix<1, 3, double, ColMajor> m; vm(m); }
H(h_v5) { Vector<5> v; ev(v); }
H(h_h14) { Matrix<1, 4> m; hm(m); }
H(h_h15) { Matrix<1, 5> m; hm(m); }
H(h_h24) { Matrix<> m(2, 4); hm(m.slice(0, 0, 2, 4)); }
H(h_h25d) { Matrix<Dynamic, 5> m(1, 5); hm(m); }
H(h_h42) { Matrix<4, 2> m; hm(m); }
H(h_h51) { Matrix<> m(1, 5); hm(m.T()); }
H(h_y41) { Matrix<4, 1> m; vm(m); }
H(h_y51) { Matrix<5, 1> m; vm(m); }
H(h_y42) { Matrix<> m(4, 2); vm(m); }
H(h_y24) { Matrix<2, 4> m; vm(m); }
H(h_y15) { Matrix<> m(5, 1); vm(m.T()); }
H(h_m14) { Matrix<1, 4> m; em(m); }
H(h_m41) { Matrix<> m(4, 1); em(m); }
H(h_m15) { Matrix<> m(1, 5); em(m); }
H(h_m51) { Matrix<5, 1, double, ColMajor> m; em(m); }
extern "C" void ht_m24() { Matrix<2, 4> m; em(m); }
H(h_big) { Matrix<> m(1, 4); hm(m); Matrix<> t(4, 1); vm(t); }
H(h_neg) { Vector<3> v; fill(v); ASSUME(v[0] < 0 && v[1] < 0 && v[2] < 0); CHECK(max_value(v) < 0, "extreme of negative values is one of them"); CHECK(max_element(v).first < 0, "extreme of negative values is one of them"); Vector<3> w = -v; CHECK(min_value(w) > 0, "extreme of positive values is one of them"); Matrix<3, 1> m; m.T()[0] = v; CHECK(max_value(m) < 0 && max_value_vertical(m)[0] < 0 && max_value_horizontal(m)[1] < 0, "extremes of negative matrices"); }
H(h_e0) { Vector<> v(0); vs_eq(min_value(v), 0, "empty min_value", 0); vs_eq(max_value(v), 0, "empty max_value", 0); vs_eqi(min_element(v).second, 0, "empty min_element"); Matrix<> m(0, 0); vs_eq(max_value(m), 0, "empty matrix", 0); vs_eq(min_element(m).first, 0, "empty matrix", 0); }
H(h_e1) { vs_opt("leakcheck", 1); int r = vs_choose("r", 0, 2), c = vs_choose("c", 0, 2); ASSUME(r == 0 || c == 0); Matrix<> m(r, c); auto a = min_value_horizontal(m); auto b = max_value_vertical(m); auto p = max_element_horizontal(m); auto q = min_element_vertical(m); vs_eqi(a.size(), 0, "extremes of an empty matrix are empty"); vs_eqi(b.size(), 0, "extremes of an empty matrix are empty"); vs_eqi(p.first.size(), 0, "extremes of an empty matrix are empty"); vs_eqi(p.second.size(), 0, "extremes of an empty matrix are empty"); vs_eqi(q.first.size(), 0, "extremes of an empty matrix are empty"); vs_eqi(q.second.size(), 0, "extremes of an empty matrix are empty"); }
H(h_int) { Vector<3, int> v; for (int i = 0; i < 3; i++) v[i] = vs_int("i", -100, 100); int lo = min_value(v), hi = max_value(v); CHECK(lo <= v[0] && lo <= v[1] && lo <= v[2], "int min"); CHECK(hi >= v[0] && hi >= v[1] && hi >= v[2], "int max"); CHECK(lo == v[0] || lo == v[1] || lo == v[2], "int min is an element"); CHECK(v[max_element(v).second] == hi, "int arg max"); }
// larger
H(h_b6) { Vector<6> v; ev(v, false); }
H(h_b9) { Vector<> v(9); ev(v, false); }
H(h_b5s) { Matrix<5, 4> m; ev(m.T()[2], false); }
H(h_b46) { Matrix<4, 6> m; em(m, false); }
H(h_b46h) { Matrix<4, 6> m; hm(m, false); }
H(h_b46v) { Matrix<4, 6> m; vm(m, false); }
H(h_b54) { Matrix<5, 4, double, ColMajor> m; em(m, false); }
H(h_b54h) { Matrix<5, 4, double, ColMajor> m; hm(m, false); }
H(h_b54v) { Matrix<> m(5, 4); vm(m, false); }
