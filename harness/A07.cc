// BOUNDS: complex vectors of size 1..4 (contiguous and planar real/imaginary arrays) and complex matrices 2x2; every view of a planar vector; all real and imaginary parts symbolic
// FLAGS: -fcx-limited-range
#include "hcommon.h"
#include <complex>
#include <TooN/internal/planar_complex.hh>
typedef std::complex<double> C;
static void ceq(C a, C b, const char* l) { vs_eq(a.real(), b.real(), l); vs_eq(a.imag(), b.imag(), l); }
static C mk(const char* n) { double r = vs_real(n), i = vs_real(n); return C(r, i); }
static C mul(C a, C b) { return C(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
struct P { double re[6], im[6]; P() { for (int i = 0; i < 6; i++) { re[i] = vs_real("re"); im[i] = vs_real("im"); } } C operator[](int i) const { return C(re[i], im[i]); } };
template<class V> static void reads(const V& v, const P& p, int off, int n, int st = 1) { vs_eqi(v.size(), n, "size"); for (int i = 0; i < n; i++) { ceq(v[i], p[off + i * st], "planar element"); } }
H(h_planar) { P p; Vector<4, C, ReferencePlanarComplex> v(std::make_pair(p.re + 1, p.im + 1)); reads(v, p, 1, 4); p.re[2] = 5; p.im[3] = 6; reads(v, p, 1, 4); Vector<4, C> c(v); p.re[1] = 8; ceq(c[1], C(5, p.im[2]), "copy"); Vector<4, C> d; d = v; reads(d, p, 1, 4); }
H(h_planar_dyn) { P p; int n = vs_choose("n", 0, 5); Vector<Dynamic, C, ReferencePlanarComplex> v(std::make_pair(p.re, p.im), n); reads(v, p, 0, n); Vector<Dynamic, C> c(v); reads(c, p, 0, n); }
H(h_planar_const) { P p; const double *r = p.re, *i = p.im; Vector<3, C, ReferencePlanarComplex> v(std::make_pair(r, i)); reads(v, p, 0, 3); }
H(h_planar_slice) { P p; Vector<5, C, ReferencePlanarComplex> v(std::make_pair(p.re, p.im)); reads(v.slice<1, 3>(), p, 1, 3); reads(v.slice(2, 2), p, 2, 2); reads(v.slice<1, 3>().slice(1, 2), p, 2, 2); reads(v.as_slice(), p, 0, 5); }
H(h_planar_ar) { P p; Vector<3, C, ReferencePlanarComplex> v(std::make_pair(p.re, p.im)), w(std::make_pair(p.re + 3, p.im + 3)); Vector<3, C> s = v + w, d = v - w; C dot = v * w; C k = mk("k"); Vector<3, C> t = v * k, u = k * w; C e = 0; for (int i = 0; i < 3; i++) { ceq(s[i], p[i] + p[i + 3], "planar sum"); ceq(d[i], p[i] - p[i + 3], "planar difference"); ceq(t[i], mul(p[i], k), "planar scale"); ceq(u[i], mul(k, p[i + 3]), "planar scale"); e += mul(p[i], p[i + 3]); } ceq(dot, e, "planar dot"); }
H(h_vec) { Vector<3, C> a, b; for (int i = 0; i < 3; i++) { a[i] = mk("a"); b[i] = mk("b"); } Vector<3, C> s = a + b, d = a - b, m = diagmult(a, b); C k = mk("k"); Vector<3, C> t = a * k, x = a ^ b; C e = 0; for (int i = 0; i < 3; i++) { ceq(s[i], a[i] + b[i], "sum"); ceq(d[i], a[i] - b[i], "difference"); ceq(m[i], mul(a[i], b[i]), "diagmult"); ceq(t[i], mul(a[i], k), "scale"); e += mul(a[i], b[i]); } ceq(a * b, e, "dot product is bilinear, not conjugated"); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, l = (i + 2) % 3; ceq(x[i], mul(a[j], b[l]) - mul(a[l], b[j]), "cross"); } a += b; ceq(a[1], s[1], "+="); a -= b; a *= k; ceq(a[2], t[2], "*="); }
H(h_vec_scal) { Vector<2, C> a; a[0] = mk("a"); a[1] = mk("a"); double r = vs_real("r"); Vector<2, C> p = a * C(r, 0), q = C(0, r) * a; Vector<2, C> z = Zeros; for (int i = 0; i < 2; i++) { ceq(p[i], C(a[i].real() * r, a[i].imag() * r), "real scale"); ceq(q[i], C(-a[i].imag() * r, a[i].real() * r), "imaginary scale"); ceq(z[i], C(0, 0), "Zeros"); } }
H(h_mat) { Matrix<2, 2, C> a, b; Vector<2, C> v; for (int i = 0; i < 2; i++) { v[i] = mk("v"); for (int j = 0; j < 2; j++) { a[i][j] = mk("a"); b[i][j] = mk("b"); } } Matrix<2, 2, C> s = a + b, p = a * b, t = a.T(), q = a.T() * b; Vector<2, C> w = a * v, y = v * a; for (int i = 0; i < 2; i++) { C ew = 0, ey = 0; for (int j = 0; j < 2; j++) { ceq(s[i][j], a[i][j] + b[i][j], "sum"); ceq(t[i][j], a[j][i], "transpose does not conjugate"); C e = 0, f = 0; for (int k = 0; k < 2; k++) { e += mul(a[i][k], b[k][j]); f += mul(a[k][i], b[k][j]); } ceq(p[i][j], e, "product"); ceq(q[i][j], f, "transposed product"); ew += mul(a[i][j], v[j]); ey += mul(v[j], a[j][i]); } ceq(w[i], ew, "matrix * vector"); ceq(y[i], ey, "vector * matrix"); } }
// the two arrays may be one, overlap or come in either order
H(h_overlap) { P p; int k = vs_choose("k", 0, 2); const double* im = k == 0 ? p.re : k == 1 ? p.re + 1 : p.re + 3; const double* re = k == 1 || k == 0 ? p.re : p.re + 1; int n = 3; Vector<3, C, ReferencePlanarComplex> v(std::make_pair(re, im)); for (int i = 0; i < n; i++) ceq(v[i], C(re[i], im[i]), "planar element"); Vector<2, C> s = v.slice<1, 2>(), d = v.slice(1, 2); for (int i = 0; i < 2; i++) { ceq(s[i], C(re[i + 1], im[i + 1]), "slice"); ceq(d[i], C(re[i + 1], im[i + 1]), "run-time slice"); } Vector<3, C, ReferencePlanarComplex> w(std::make_pair(im, re)); ceq(w[2], C(im[2], re[2]), "other order"); C t = w.slice<1, 2>()[1]; ceq(t, C(im[2], re[2]), "slice, other order"); }
