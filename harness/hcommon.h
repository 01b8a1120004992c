#pragma once
#include "vsym.h"
#include <TooN/TooN.h>
using namespace TooN;
template<class V> static inline void fill(V&& v, const char* n = "v") { for (int i = 0; i < v.size(); i++) v[i] = vs_real(n); }
template<class M> static inline void fillm(M&& m, const char* n = "m") { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m[i][j] = vs_real(n); }
template<class A, class B> static inline void eqv(const A& a, const B& b, const char* l, double tol = VS_TOL)
{
	vs_eqi(a.size(), b.size(), "vector sizes agree");
	for (int i = 0; i < a.size(); i++) vs_eq(a[i], b[i], l, tol);
}
template<class A, class B> static inline void eqm(const A& a, const B& b, const char* l, double tol = VS_TOL)
{
	vs_eqi(a.num_rows(), b.num_rows(), "row counts agree");
	vs_eqi(a.num_cols(), b.num_cols(), "column counts agree");
	for (int i = 0; i < a.num_rows(); i++) for (int j = 0; j < a.num_cols(); j++) vs_eq(a[i][j], b[i][j], l, tol);
}
template<int N> struct Arr { double a[N]; Arr(const char* n = "a") { for (int i = 0; i < N; i++) a[i] = vs_real(n); } double operator[](int i) const { return a[i]; } };
// |a - b| <= tol, decided exactly and scaled so that a violation is plainly visible in floating point
static inline void near_(double a, double b, double tol, const char* l) { vs_le((a - b) / tol, 1, l, 1e-6); vs_le((b - a) / tol, 1, l, 1e-6); }
