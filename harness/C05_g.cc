// FLAGS: -DTOON_INITIALIZE_RANDOM -Wno-c++11-narrowing
// BOUNDS: sizes 0..5; random fill never touches memory outside the elements
#include "hcommon.h"
H(h_rand_d) { int n = vs_int("n", 0, 5); Vector<> v(n); Vector<Resizable> r(n); for (int i = 0; i < n; i++) { v[i] = i; r[i] = i; } for (int i = 0; i < n; i++) { vs_eq(v[i], i, "writable", 0); vs_eq(r[i], i, "writable", 0); } }
H(h_rand_f) { int n = vs_int("n", 0, 5); Vector<Dynamic, float> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = 0; i < n; i++) vs_eq(v[i], i, "writable", 0); }
H(h_rand_c) { int n = vs_int("n", 0, 6); Vector<Dynamic, char> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = 0; i < n; i++) vs_eqi(v[i], i, "writable"); }
