// BOUNDS: vectors of size 0..4 and matrices up to 2x3 where every element is independently any real number, NaN, +infinity or -infinity
#include "hcommon.h"
static double any(int& nan, int& inf) { int k = vs_choose("kind", 0, 3); if (k == 1) { nan = 1; return vs_nan(); } if (k == 2) { inf = 1; return vs_inf(); } if (k == 3) { inf = 1; return -vs_inf(); } return vs_real("x"); }
template<class V> static void cv(V&& v) { int nan = 0, inf = 0; for (int i = 0; i < v.size(); i++) v[i] = any(nan, inf); CHECK(isnan(v) == (nan != 0), "isnan of a vector is true iff an element is NaN"); CHECK(isfinite(v) == (nan == 0 && inf == 0), "isfinite of a vector is true iff every element is finite"); }
template<class M> static void cm(M&& m) { int nan = 0, inf = 0; for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m(i, j) = any(nan, inf); CHECK(isnan(m) == (nan != 0), "isnan of a matrix is true iff an element is NaN"); }
H(h_v1) { Vector<1> v; cv(v); }
H(h_v3) { Vector<3> v; cv(v); }
H(h_v3d) { Vector<> v(3); cv(v); }
H(h_v0) { Vector<> v(0); cv(v); }
H(h_vs) { Matrix<3, 2> m; m = Zeros; cv(m.T()[1]); }
H(h_vsl) { Vector<4> v = Zeros; v[0] = vs_nan(); v[3] = vs_inf(); cv(v.slice<1, 2>()); }
H(h_m12) { Matrix<1, 2> m; cm(m); }
H(h_m21) { Matrix<2, 1> m; cm(m); }
H(h_m22) { Matrix<2> m; cm(m); }
H(h_mc) { Matrix<2, 2, double, ColMajor> m; cm(m); }
H(h_md) { Matrix<> m(1, 3); cm(m); }
H(h_m00) { Matrix<> m(0, 2); cm(m); }
H(h_sl) { Matrix<3> m = Zeros; m[0][0] = vs_nan(); cm(m.slice<1, 1, 2, 1>()); }
