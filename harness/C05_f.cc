// FLAGS: -DTOON_INITIALIZE_VAL=7
// BOUNDS: sizes 0..5; elements that are not copied over read as the configured initial value
#include "hcommon.h"
H(h_init_grow) { int n = vs_int("n", 0, 5), k = vs_int("k", 0, 5); Vector<Resizable> v(n); for (int i = 0; i < n; i++) vs_eq(v[i], 7, "constructed elements are initialised", 0); for (int i = 0; i < n; i++) v[i] = i; v.resize(k); for (int i = 0; i < k; i++) vs_eq(v[i], i < n ? i : 7, "grown elements are initialised, kept ones are kept", 0); }
H(h_init_stat) { Vector<3> v; Matrix<2, 3> m; Vector<> d(2); Matrix<> e(2, 2); for (int i = 0; i < 3; i++) vs_eq(v[i], 7, "static vector", 0); for (int i = 0; i < 6; i++) vs_eq(m[i / 3][i % 3], 7, "static matrix", 0); for (int i = 0; i < 2; i++) vs_eq(d[i], 7, "dynamic vector", 0); for (int i = 0; i < 4; i++) vs_eq(e[i / 2][i % 2], 7, "dynamic matrix", 0); Vector<130> b; for (int i = 0; i < 130; i++) vs_eq(b[i], 7, "large vector", 0); }
