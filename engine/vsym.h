// Harness-side interface of the symbolic executor (engine/explore.py) and of the native replayer (native_rt.cc).
#pragma once
extern "C" {
double vs_real(const char* name);                                   // arbitrary real
double vs_real_in(const char* name, double lo, double hi);          // arbitrary real in [lo,hi]
float  vs_float(const char* name);
int    vs_int(const char* name, int lo, int hi);                    // arbitrary integer (stays symbolic)
int    vs_choose(const char* name, int lo, int hi);                 // one path per value
void   vs_assume(int cond);
void   vs_check(int cond, const char* label);
void   vs_eq(double a, double b, const char* label, double tol = 1e-6);
void   vs_le(double a, double b, const char* label, double tol);
void   vs_eqi(int a, int b, const char* label);
void   vs_abort_ok(int cond);          // from here on the program must stop (abort) if, and only if, cond ... see vs_must_abort
void   vs_opt(const char* name, int v);
void   vs_init(double x, const char* label);
int    vs_symbolic();
int    vs_nheap();
void   vs_nonneg(double x);
double vs_nan();
double vs_inf();
int    vs_isnan(double x);
int    vs_isinf(double x);
double vs_solve_rel(const char* name, int n);
}
#define H(name) extern "C" void name()
#define VS_TOL 1e-6
#define EQ(a, b, l) vs_eq((a), (b), (l), VS_TOL)
#define EQF(a, b, l) vs_eq((a), (b), (l), 1e-3)
#define LE(a, b, l) vs_le((a), (b), (l), 1e-7)
#define CHECK(c, l) vs_check((c) ? 1 : 0, (l))
#define ASSUME(c) vs_assume((c) ? 1 : 0)
