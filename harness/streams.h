// Output and input streams for the harnesses. Natively they are string streams whose text is taken apart again; in the
// symbolic run the formatting itself (libstdc++'s precompiled number formatting and parsing) is replaced by its contract:
// a number put into a stream arrives as that number, padded to the width set, and resets the width; a number taken from a
// stream is the next one written. What is recorded: the numbers, the width each was written with, the line each is on.
#pragma once
#include <sstream>
#include <string>
#include <cstdlib>
struct Rec { int n; double v[64]; int w[64]; int line[64]; int lines; bool glued, stray; };
#ifdef VS_SYM
static Rec* rec_;
static bool sep_;
static const double* in_; static const int* inint_; static int inpos_;
#define VS_W(o) int w = (int)o.width(); o.width(0)
static void num_(std::ostream& o, double d) { VS_W(o); Rec& r = *rec_; if (!sep_) r.glued = true; if (r.n < 64) { r.v[r.n] = d; r.w[r.n] = w; r.line[r.n] = r.lines; r.n++; } sep_ = false; }
static void chr_(std::ostream& o, char c) { VS_W(o); Rec& r = *rec_; if (w > 1) r.stray = true; if (c == ' ' || c == '\t') sep_ = true; else if (c == '\n') { sep_ = true; r.lines++; } else r.stray = true; }
std::ostream& st_d(std::ostream& o, double d) asm("_ZNSo9_M_insertIdEERSoT_");
std::ostream& st_d(std::ostream& o, double d) { num_(o, d); return o; }
std::ostream& st_i(std::ostream& o, int d) asm("_ZNSolsEi");
std::ostream& st_i(std::ostream& o, int d) { num_(o, d); return o; }
std::ostream& st_s(std::ostream& o, const char* s, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream& st_s(std::ostream& o, const char* s, long n) { for (long i = 0; i < n; i++) chr_(o, s[i]); return o; }
std::ostream& st_p(std::ostream& o, char c) asm("_ZNSo3putEc");
std::ostream& st_p(std::ostream& o, char c) { chr_(o, c); return o; }
std::ostream& st_f(std::ostream& o) asm("_ZNSo5flushEv");
std::ostream& st_f(std::ostream& o) { return o; }
std::istream& st_rd(std::istream& i, double& d) asm("_ZNSi10_M_extractIdEERSiRT_");
std::istream& st_rd(std::istream& i, double& d) { d = in_[inpos_++]; return i; }
std::istream& st_rf(std::istream& i, float& d) asm("_ZNSi10_M_extractIfEERSiRT_");
std::istream& st_rf(std::istream& i, float& d) { d = (float)in_[inpos_++]; return i; }
std::istream& st_ri(std::istream& i, int& d) asm("_ZNSirsERi");
std::istream& st_ri(std::istream& i, int& d) { d = inint_ ? inint_[inpos_++] : (int)in_[inpos_++]; return i; }
// enough of a stream object for the inline members of std::ios
struct Fake
{
	long vt[4]; alignas(16) char ct[600]; alignas(16) char b[600];
	Fake(int off) { for (int i = 0; i < 600; i++) b[i] = 0, ct[i] = 0; for (int i = 0; i < 4; i++) vt[i] = 0; vt[0] = off; *(void**)b = &vt[3]; *(void**)(b + off) = &vt[3]; ct[56] = 1; for (int i = 0; i < 256; i++) ct[57 + i] = (char)i; *(void**)(b + off + 240) = ct; b[off + 224] = ' '; b[off + 225] = 1; }
};
struct StrOut
{
	Rec r; Fake f;
	StrOut() : f(8) { r.n = r.lines = 0; r.glued = r.stray = false; rec_ = &r; sep_ = true; }
	std::ostream& os() { return *(std::ostream*)f.b; }
	Rec& done() { return r; }
	void reader() {}
};
struct StrIn
{
	Fake f; int n;
	StrIn(const double* v, int n_) : f(16), n(n_) { in_ = v; inint_ = 0; inpos_ = 0; }
	StrIn(const int* v, int n_) : f(16), n(n_) { inint_ = v; inpos_ = 0; }
	std::istream& is() { return *(std::istream*)f.b; }
	bool used() { return inpos_ == n; }
};
#else
struct StrOut
{
	Rec r; std::ostringstream s;
	StrOut() { s.precision(17); s.fill('*'); }
	std::ostream& os() { return s; }
	Rec& done()
	{
		r.n = r.lines = 0; r.glued = r.stray = false; std::string t = s.str(); size_t i = 0;
		while (i < t.size()) {
			if (t[i] == ' ' || t[i] == '\t') { i++; continue; }
			if (t[i] == '\n') { r.lines++; i++; continue; }
			size_t b = i; while (i < t.size() && t[i] != ' ' && t[i] != '\n' && t[i] != '\t') i++;
			std::string k = t.substr(b, i - b); size_t st = k.find_first_not_of('*'); if (st == std::string::npos) { r.stray = true; continue; }
			char* e; double d = strtod(k.c_str() + st, &e); if (*e) { r.glued = true; continue; }
			if (r.n < 64) { r.v[r.n] = d; r.w[r.n] = st ? (int)k.size() : 0; r.line[r.n] = r.lines; r.n++; }
		}
		return r;
	}
};
struct StrIn
{
	std::stringstream s; int n;
	template<class T> StrIn(const T* v, int n_) : n(n_) { s.precision(17); for (int i = 0; i < n; i++) s << v[i] << (i % 3 == 2 ? "\n" : " "); s << "end"; }
	std::istream& is() { return s; }
	bool used() { std::string e; s.clear(); s >> e; return e == "end"; }
};
#endif
