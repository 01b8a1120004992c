// Native replayer: runs one harness on concrete inputs against the real code.
#include "vsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <limits>
struct In { std::string n; double d; long l; bool flt; };
static std::vector<In> in;
static size_t pos;
static int fails, abort_allowed = -1, verbose;
static long heapn;
struct HH { const char* name; void (*f)(); };
extern HH vs_table[];

static In* next(const char* n)
{
	while (pos < in.size()) {
		In* i = &in[pos++];
		if (i->n == n) return i;
		fprintf(stderr, "REPLAY: input order mismatch (wanted %s, have %s)\n", n, i->n.c_str());
		_exit(78);
	}
	return 0;
}
static int dflt;
extern "C" {
double vs_real(const char* n) { In* i = next(n); return i ? i->d : 0.5 + 0.37 * dflt++; }
double vs_real_in(const char* n, double lo, double hi) {
	In* i = next(n); double v = i ? i->d : lo + (hi - lo) * 0.4;
	if (v < lo || v > hi) _exit(77);
	return v; }
float vs_float(const char* n) { return (float)vs_real(n); }
int vs_int(const char* n, int lo, int hi) { In* i = next(n); long v = i ? i->l : lo; if (v < lo || v > hi) _exit(77); return v; }
int vs_choose(const char* n, int lo, int hi) { return vs_int(n, lo, hi); }
void vs_assume(int c) { if (!c) { fflush(stdout); _exit(fails ? 10 : 77); } }
static void fail(const char* l) { printf("FAIL %s\n", l); fflush(stdout); fails++; }
void vs_check(int c, const char* l) { if (!c) fail(l); }
void vs_eqi(int a, int b, const char* l) { if (a != b) { printf("  %d != %d\n", a, b); fail(l); } }
void vs_eq(double a, double b, const char* l, double tol)
{
	if (verbose) printf("V\t%s\t%.17g\t%.17g\n", l, a, b);
	if (a == b) return;
	if (std::isnan(a) && std::isnan(b)) return;
	double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
	static const char* lim = getenv("VS_TOLMAX"); if (lim && tol > atof(lim)) tol = atof(lim);
	if (!(std::fabs(a - b) <= tol * s)) { printf("  %.17g != %.17g\n", a, b); fail(l); }
}
void vs_le(double a, double b, const char* l, double tol)
{
	if (verbose) printf("V\t%s\t%.17g\t%.17g\n", l, a, b);
	double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
	if (!(a - b <= tol * s)) { printf("  %.17g > %.17g\n", a, b); fail(l); }
}
void vs_abort_ok(int c) { abort_allowed = c ? 1 : 0; }
void vs_opt(const char*, int) {}
void vs_init(double x, const char* l) { if (x != x) fail(l); volatile double y = x; if (y > 1e300) putchar(' '); }
int vs_symbolic() { return 0; }
void vs_nonneg(double) {}
double vs_nan() { return std::numeric_limits<double>::quiet_NaN(); }
double vs_inf() { return std::numeric_limits<double>::infinity(); }
int vs_isnan(double x) { return std::isnan(x); }
int vs_isinf(double x) { return std::isinf(x); }
int vs_nheap() { return (int)heapn; }
}
#ifndef VS_NO_NEW
static void* mynew(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); heapn++; return p; }
static void mydel(void* p) { if (p) heapn--; free(p); }
#ifdef VS_COUNT_HEAP
void* operator new(size_t n) { return mynew(n); }
void* operator new[](size_t n) { return mynew(n); }
void operator delete(void* p) noexcept { mydel(p); }
void operator delete[](void* p) noexcept { mydel(p); }
void operator delete(void* p, size_t) noexcept { mydel(p); }
void operator delete[](void* p, size_t) noexcept { mydel(p); }
#endif
#endif
static void on_abort(int)
{
	fflush(stdout);
	if (fails) { _exit(10); }
	if (abort_allowed == 1) { static const char m[] = "ABORT-OK\n"; if (write(1, m, sizeof m - 1)) {} _exit(0); }
	static const char m[] = "ABORT-BAD\n"; if (write(1, m, sizeof m - 1)) {}
	_exit(11);
}
int main(int argc, char** argv)
{
	if (argc < 2) return 79;
	if (argc > 3) verbose = 1;
	if (argc > 2) {
		FILE* f = fopen(argv[2], "r");
		if (!f) return 79;
		char nm[256], v[256];
		while (fscanf(f, "%255s %255s", nm, v) == 2) { In i; i.n = nm; i.d = strtod(v, 0); i.l = (long)i.d; in.push_back(i); }
		fclose(f);
	}
	signal(SIGABRT, on_abort);
	for (HH* h = vs_table; h->name; h++)
		if (!strcmp(h->name, argv[1])) {
			h->f();
			fflush(stdout);
			return fails ? 10 : 0;
		}
	fprintf(stderr, "no such harness\n");
	return 79;
}
