// BOUNDS: exp and log of every 2x2, 3x3 (and 4x4, static and run-time sized) matrix as a power series to order 8, and of every nilpotent matrix up to 4x4 of norm up to 2^40; sqrt and log of every unipotent matrix of 2x2 and of upper triangular and rank one ones up to 4x4 (norms to 4)
// OPTS: time=60
#include <cmath>
#include "hcommon.h"
#include <TooN/gaussian_elimination.h>
#ifndef VS_PLAIN
// power series in one variable, cut after the 8th power: A symbolic, exp(tA) coefficient by coefficient
static const int K = 9;
struct Ser
{
	double c[K]; Ser() {} Ser(Internal::One) { c[0] = 1; for (int i = 1; i < K; i++) c[i] = 0; } Ser(double x) { c[0] = x; for (int i = 1; i < K; i++) c[i] = 0; }
	Ser& operator+=(const Ser& o) { for (int i = 0; i < K; i++) c[i] += o.c[i]; return *this; } Ser& operator-=(const Ser& o) { for (int i = 0; i < K; i++) c[i] -= o.c[i]; return *this; }
	Ser& operator*=(const Ser& o) { Ser r(0); for (int i = 0; i < K; i++) for (int j = 0; i + j < K; j++) r.c[i + j] += c[i] * o.c[j]; return *this = r; }
	Ser& operator/=(const Ser& o) { for (int i = 1; i < K; i++) CHECK(o.c[i] == 0, "division by a number"); for (int i = 0; i < K; i++) c[i] /= o.c[0]; return *this; }
	Ser operator-() const { Ser r(0); r -= *this; return r; }
	// order of the reals for the constant terms; the rest only tells whether there is anything (absolute values only)
	double rest() const { double r = 0; for (int i = 1; i < K; i++) r += c[i]; return r; }
	bool operator>(const Ser& o) const { if (c[0] != o.c[0]) return c[0] > o.c[0]; return rest() > 0 && o.rest() <= 0; }
	bool operator<(const Ser& o) const { return o > *this; }
	explicit operator int() const { return (int)c[0]; }
};
static Ser operator+(Ser a, const Ser& b) { return a += b; } static Ser operator-(Ser a, const Ser& b) { return a -= b; } static Ser operator*(Ser a, const Ser& b) { return a *= b; } static Ser operator/(Ser a, const Ser& b) { return a /= b; }
// the absolute values only serve to ask whether there is anything left
static Ser abs(const Ser& a) { Ser r = a; for (int i = 0; i < K; i++) if (r.c[i] < 0) r.c[i] = -r.c[i]; return r; }
static Ser log2(const Ser& a) { return a.c[0] > 0 ? Ser(std::log2(a.c[0])) : Ser(-3); } static Ser ceil(const Ser& a) { return Ser(std::ceil(a.c[0])); } static Ser pow(const Ser& a, const Ser& b) { return Ser(std::pow(a.c[0], b.c[0])); } static Ser pow(const Ser& a, int b) { return Ser(std::pow(a.c[0], b)); }
static Ser ldexp(const Ser& a, int b) { Ser r = a; for (int i = 0; i < K; i++) r.c[i] = std::ldexp(a.c[i], b); return r; }
namespace TooN { template<> struct IsField<Ser> { static const int value = 1; }; template<class T> struct Field<Ser, T> { static const int is = IsField<T>::value; }; template<class T> struct Field<T, Ser> { static const int is = IsField<T>::value; }; template<> struct Field<Ser, Ser> { static const int is = 1; }; }
#endif
#include <TooN/helpers.h>
// sum of m^k/k!, from the definition, on plain arrays
struct Mx { double a[4][4]; int n; Mx(int n_) : n(n_) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = 0; } };
static Mx mul(const Mx& x, const Mx& y) { Mx r(x.n); for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) for (int k = 0; k < x.n; k++) r.a[i][j] += x.a[i][k] * y.a[k][j]; return r; }
static Mx one(int n) { Mx r(n); for (int i = 0; i < n; i++) r.a[i][i] = 1; return r; }
static Mx add(const Mx& x, const Mx& y, double s) { Mx r(x.n); for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) r.a[i][j] = x.a[i][j] + s * y.a[i][j]; return r; }
#ifndef VS_PLAIN
template<int S> static void series(int n, bool full = true)
{
	Mx A(n); Matrix<S, S, Ser> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { m[i][j] = 0; if (!full && i != (j + 1) % n && i) continue; A.a[i][j] = vs_real("a"); ASSUME(A.a[i][j] > 0.0625 && A.a[i][j] < 4); m[i][j].c[1] = A.a[i][j]; }
	Matrix<S, S, Ser> e = exp(m); vs_eqi(e.num_rows(), n, "size"); vs_eqi(e.num_cols(), n, "size"); Mx P = one(n); double f = 1;
	for (int k = 0; k < K; k++) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(e[i][j].c[k], P.a[i][j] / f, "coefficients of the exponential series"); P = mul(P, A); f *= k + 1; }
}
// logarithm of 1 + tA: every coefficient up to the cut
template<int S> static void logser(int n, int nz)
{
	Mx A(n); Matrix<S, S, Ser> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { A.a[i][j] = 0; if (i * n + j < nz) { A.a[i][j] = vs_real("a"); ASSUME(A.a[i][j] > 0.0625 && A.a[i][j] < 4); } m[i][j] = i == j; m[i][j].c[1] = A.a[i][j]; }
	Matrix<S, S, Ser> e = TooN::log(m); vs_eqi(e.num_rows(), n, "size"); Mx P = A;
	for (int k = 1; k < K; k++) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(e[i][j].c[k], P.a[i][j] * (k % 2 ? 1 : -1) / k, "coefficients of the logarithmic series"); P = mul(P, A); }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vs_eq(e[i][j].c[0], 0, "no constant term");
}
H(h_logser1) { logser<1>(1, 1); }
H(h_logser2) { logser<2>(2, 4); }
H(h_logser_d) { logser<Dynamic>(vs_choose("n", 1, 2), 2); }
H(h_series2) { series<2>(2); }
H(h_series1) { series<1>(1); }
H(h_series_d) { series<Dynamic>(vs_choose("n", 1, 2)); }
H(h_series3) { series<3>(3, false); }
extern "C" void ht_series3() { series<3>(3); }
#endif
// nilpotent matrices: the series ends, whatever the scaling
template<int S> static void checkexp(const Mx& A) { int n = A.n; Matrix<S> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = A.a[i][j]; Matrix<S> e = exp(m); Mx P = one(n), R = one(n); double f = 1; for (int k = 1; k < n; k++) { P = mul(P, A); f *= k; R = add(R, P, 1 / f); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { vs_eq(e[i][j], R.a[i][j], "exponential of a nilpotent matrix"); vs_eq(m[i][j], A.a[i][j], "argument left alone"); } }
static Mx tri(int n, double b, bool sign) { Mx A(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { A.a[i][j] = vs_real("a"); ASSUME(A.a[i][j] <= b && A.a[i][j] >= 0.125); if (sign && vs_choose("s", 0, 1)) A.a[i][j] = -A.a[i][j]; } return A; }
H(h_nil2) { checkexp<2>(tri(2, 8, true)); }
H(h_nil3) { checkexp<3>(tri(3, 4, false)); }
H(h_nil_d) { checkexp<Dynamic>(tri(vs_choose("n", 1, 3), 2, true)); }
extern "C" void ht_nil4() { checkexp<4>(tri(4, 2, false)); }
// not triangular
static Mx full2(double b) { double x = vs_real("x"), y = vs_real("y"); ASSUME(x > -b && x < b); ASSUME(y > 0.25 && y < b); Mx A(2); A.a[0][0] = x * y; A.a[0][1] = -x * x; A.a[1][0] = y * y; A.a[1][1] = -x * y; return A; }
static Mx rank1(int n, double b) { double u[4], v[4], d = 0; for (int i = 0; i < n - 1; i++) { u[i] = vs_real("u"); ASSUME(u[i] <= b && u[i] >= 0.125); v[i] = i % 2 ? 1 : -0.5; d += u[i] * v[i]; } v[n - 1] = 1; u[n - 1] = -d; Mx A(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A.a[i][j] = u[i] * v[j]; return A; }
H(h_rank2) { checkexp<2>(full2(2)); }
H(h_rank3) { checkexp<3>(rank1(3, 1)); }
// any size: scaling by every power of two
H(h_scale) { int s = vs_choose("s", -3, 40); double b = std::pow(2.0, s), x = vs_real("x"); ASSUME(x > 1 && x <= 2); Mx A(2); A.a[0][1] = x * b; checkexp<2>(A); }
H(h_zero) { int n = vs_choose("n", 1, 3); checkexp<Dynamic>(Mx(n)); checkexp<3>(Mx(3)); }
// square root and logarithm of unipotent matrices
template<int S> static void checksqrt(const Mx& A)
{
	int n = A.n; Matrix<S> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = A.a[i][j] + (i == j); Matrix<S> r = TooN::sqrt(m); vs_eqi(r.num_rows(), n, "size");
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double t = 0; for (int k = 0; k < n; k++) t += r[i][k] * r[k][j]; vs_eq(t, m[i][j], "square of the square root"); }
}
template<int S> static void onlylog(const Mx& A)
{
	int n = A.n; Matrix<S> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = A.a[i][j] + (i == j);
	Mx P = one(n), R(n); for (int k = 1; k < n; k++) { P = mul(P, A); R = add(R, P, (k % 2 ? 1.0 : -1.0) / k); }
	Matrix<S> l = TooN::log(m); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { vs_eq(l[i][j], R.a[i][j], "logarithm of a unipotent matrix"); vs_eq(m[i][j], A.a[i][j] + (i == j), "argument left alone"); }
}
template<int S> static void checklog(const Mx& A) { checksqrt<S>(A); onlylog<S>(A); }
H(h_log2) { checklog<2>(tri(2, 3, true)); }
H(h_log3) { checklog<3>(tri(3, 1, false)); }
H(h_log_d) { checklog<Dynamic>(tri(vs_choose("n", 1, 3), 1, true)); }
H(h_logr2) { Mx A = full2(1); checksqrt<2>(A); }
H(h_logr3) { checksqrt<3>(rank1(3, 1)); }
H(h_logf2) { onlylog<2>(full2(0.5)); }
H(h_logf3) { onlylog<3>(rank1(3, 0.15)); }
H(h_logf4) { onlylog<4>(rank1(4, 0.15)); }
extern "C" void ht_log4() { checklog<4>(tri(4, 1, false)); }
H(h_log_one) { int n = vs_choose("n", 1, 3); checklog<Dynamic>(Mx(n)); checklog<3>(Mx(3)); }
// matrices which are not square
static void square(int what) { int r = vs_choose("r", 1, 3); int c = vs_choose("c", 1, 3); bool bad = r != c; vs_abort_ok(bad); Matrix<> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = i == j; Matrix<> e = what == 0 ? exp(m - m) : what == 1 ? TooN::sqrt(m) : TooN::log(m); CHECK(!bad, "matrices which are not square are stopped"); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vs_eq(e(i, j), what != 2 && i == j, "of the identity"); }
H(h_square_exp) { square(0); }
H(h_square_sqrt) { square(1); }
H(h_square_log) { square(2); }
