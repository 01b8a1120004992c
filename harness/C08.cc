// BOUNDS: both operand sizes symbolic in 0..4 (matrices 0..3); static operands of size 3; every binary vector/matrix operation
#include "hcommon.h"
#include <TooN/LU.h>
#include <TooN/Cholesky.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
template<class V> static void f(V& v) { for (int i = 0; i < v.size(); i++) v[i] = i + 1; }
template<class M> static void fm(M& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m[i][j] = (i + 1) * (j + 2); }
static int sz(const char* n) { return vs_int(n, 0, 4); }
// the operation must stop the program exactly when the sizes differ
#define VDEF(name, op) \
	H(h_##name##_dd) { int m = sz("m"), n = sz("n"); Vector<> a(m), b(n); f(a); f(b); int bad = m != n; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); } \
	H(h_##name##_sd) { int n = sz("n"); Vector<3> a; Vector<> b(n); f(a); f(b); int bad = 3 != n; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); } \
	H(h_##name##_ds) { int n = sz("n"); Vector<> a(n); Vector<3> b; f(a); f(b); int bad = 3 != n; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); } \
	H(h_##name##_slice) { int m = sz("m"), n = sz("n"); Vector<6> A, B; f(A); f(B); auto a = A.slice(1, m); auto b = B.slice(0, n); int bad = m != n; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); } \
	H(h_##name##_col) { int m = sz("m"), n = sz("n"); Matrix<> A(m, 2), B(2, n); fm(A); fm(B); auto a = A.T()[1]; auto b = B[0]; int bad = m != n; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); }
#define VRES(name, op) H(h_##name##_rr) { int m = sz("m"), n = sz("n"); Vector<Resizable> a(m), b(n); f(a); f(b); int bad = m != n; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); } \
	H(h_##name##_rd) { int m = sz("m"), n = sz("n"); Vector<Resizable> a(m); Vector<> b(n); f(a); f(b); int bad = m != n; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); } \
	H(h_##name##_rs) { int m = sz("m"); Vector<Resizable> a(m); Vector<3> b; f(a); f(b); int bad = m != 3; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); } \
	H(h_##name##_sr) { int n = sz("n"); Vector<3> a; Vector<Resizable> b(n); f(a); f(b); int bad = n != 3; vs_abort_ok(bad); op; CHECK(!bad, "operands of different size must be rejected"); }
VDEF(assign, a = b)
VDEF(pluseq, a += b) VRES(pluseq, a += b)
VDEF(minuseq, a -= b) VRES(minuseq, a -= b)
VDEF(plus, Vector<> x = a + b; vs_eqi(x.size(), a.size(), "size")) VRES(plus, Vector<> x = a + b)
VDEF(minus, Vector<> x = a - b; vs_eqi(x.size(), b.size(), "size")) VRES(minus, Vector<> x = a - b)
VDEF(dot, double x = a * b; vs_init(x, "dot")) VRES(dot, double x = a * b; vs_init(x, "dot"))
VDEF(diagmult, Vector<> x = diagmult(a, b)) VRES(diagmult, Vector<> x = diagmult(a, b))
VDEF(eq, bool x = (a == b); vs_init(x, "eq")) VRES(eq, bool x = (a == b); vs_init(x, "eq"))
VDEF(ne, bool x = (a != b); vs_init(x, "ne")) VRES(ne, bool x = (a != b); vs_init(x, "ne"))
VDEF(expr, Vector<> x = 2 * a + b / 3)
VDEF(pluseqx, a += 2 * b)
VDEF(minuseqx, a -= b * 2)
H(h_ctor_sd) { int n = sz("n"); Vector<> b(n); f(b); int bad = n != 3; vs_abort_ok(bad); Vector<3> a(b); CHECK(!bad, "operands of different size must be rejected"); eqv(a, b, "copied", 0); }
H(h_ctor_sx) { int n = sz("n"); Vector<> b(n); f(b); int bad = n != 3; vs_abort_ok(bad); Vector<3> a(b + b); CHECK(!bad, "operands of different size must be rejected"); }
H(h_swap) { int m = sz("m"), n = sz("n"); Vector<> a(m), b(n); f(a); f(b); int bad = m != n; vs_abort_ok(bad); a.swap(b); CHECK(!bad, "operands of different size must be rejected"); }
// matrices: element-wise operations need equal shapes
static int s3(const char* n) { return vs_int(n, 0, 3); }
#define MSAME(name, op) \
	H(h_m##name##_dd) { int m = s3("m"), n = s3("n"), p = s3("p"), q = s3("q"); Matrix<> a(m, n), b(p, q); fm(a); fm(b); int bad = m != p || n != q; vs_abort_ok(bad); op; CHECK(!bad, "operands of different shape must be rejected"); } \
	H(h_m##name##_sd) { int p = s3("p"), q = s3("q"); Matrix<2, 3> a; Matrix<> b(p, q); fm(a); fm(b); int bad = 2 != p || 3 != q; vs_abort_ok(bad); op; CHECK(!bad, "operands of different shape must be rejected"); } \
	H(h_m##name##_ds) { int p = s3("p"), q = s3("q"); Matrix<> a(p, q); Matrix<2, 3> b; fm(a); fm(b); int bad = 2 != p || 3 != q; vs_abort_ok(bad); op; CHECK(!bad, "operands of different shape must be rejected"); } \
	H(h_m##name##_hh) { int p = s3("p"), q = s3("q"); Matrix<2, Dynamic> a(2, p); Matrix<Dynamic, 3> b(q, 3); fm(a); fm(b); int bad = p != 3 || q != 2; vs_abort_ok(bad); op; CHECK(!bad, "operands of different shape must be rejected"); } \
	H(h_m##name##_tt) { int m = s3("m"), n = s3("n"), p = s3("p"), q = s3("q"); Matrix<> A(m, n), B(p, q); fm(A); fm(B); auto a = A.T(); auto b = B.slice(0, 0, p, q); int bad = n != p || m != q; vs_abort_ok(bad); op; CHECK(!bad, "operands of different shape must be rejected"); }
MSAME(assign, a = b)
MSAME(pluseq, a += b)
MSAME(minuseq, a -= b)
MSAME(plus, Matrix<> x = a + b)
MSAME(minus, Matrix<> x = a - b)
MSAME(eq, bool x = (a == b); vs_init(x, "eq"))
MSAME(ne, bool x = (a != b); vs_init(x, "ne"))
H(h_mctor) { int p = s3("p"), q = s3("q"); Matrix<> b(p, q); fm(b); int bad = 2 != p || 3 != q; vs_abort_ok(bad); Matrix<2, 3> a(b); CHECK(!bad, "operands of different shape must be rejected"); }
// products need equal inner sizes
#define MPROD(name, inner1, inner2, decl, op) H(h_##name) { int m = s3("m"), n = s3("n"), p = s3("p"), q = s3("q"); decl; int bad = inner1 != inner2; vs_abort_ok(bad); op; CHECK(!bad, "product of incompatible operands must be rejected"); }
#define C ,
MPROD(mm_dd, n, p, Matrix<> a(m C n); Matrix<> b(p C q); fm(a); fm(b), Matrix<> x = a * b; vs_eqi(x.num_rows(), m, "rows"); vs_eqi(x.num_cols(), q, "cols"))
MPROD(mm_sd, 3, p, Matrix<2 C 3> a; Matrix<> b(p C q); fm(a); fm(b), Matrix<> x = a * b; vs_eqi(x.num_rows(), 2, "rows"); vs_eqi(x.num_cols(), q, "cols"))
MPROD(mm_ds, n, 2, Matrix<> a(m C n); Matrix<2 C 3> b; fm(a); fm(b), Matrix<> x = a * b; vs_eqi(x.num_rows(), m, "rows"); vs_eqi(x.num_cols(), 3, "cols"))
MPROD(mm_tt, m, q, Matrix<> a(m C n); Matrix<> b(p C q); fm(a); fm(b), Matrix<> x = a.T() * b.T(); vs_eqi(x.num_rows(), n, "rows"); vs_eqi(x.num_cols(), p, "cols"))
MPROD(mm_hh, n, p, Matrix<2 C Dynamic> a(2 C n); Matrix<Dynamic C 3> b(p C 3); fm(a); fm(b), Matrix<2 C 3> x = a * b)
MPROD(mv_dd, n, p, Matrix<> a(m C n); Vector<> b(p); fm(a); f(b), Vector<> x = a * b; vs_eqi(x.size(), m, "size"))
MPROD(mv_sd, 3, p, Matrix<2 C 3> a; Vector<> b(p); fm(a); f(b), Vector<2> x = a * b)
MPROD(mv_ds, n, 2, Matrix<> a(m C n); Vector<2> b; fm(a); f(b), Vector<> x = a * b; vs_eqi(x.size(), m, "size"))
MPROD(mv_r, n, p, Matrix<> a(m C n); Vector<Resizable> b(p); fm(a); f(b), Vector<Resizable> x = a * b; vs_eqi(x.size(), m, "size"))
MPROD(vm_dd, m, p, Matrix<> a(m C n); Vector<> b(p); fm(a); f(b), Vector<> x = b * a; vs_eqi(x.size(), n, "size"))
MPROD(vm_sd, 2, p, Matrix<2 C 3> a; Vector<> b(p); fm(a); f(b), Vector<3> x = b * a)
MPROD(vm_ds, m, 2, Matrix<> a(m C n); Vector<2> b; fm(a); f(b), Vector<> x = b * a; vs_eqi(x.size(), n, "size"))
MPROD(mm_dst, m, 2, Matrix<> a(2 C 2); fm(a); Matrix<> b(2 C n); fm(b); Matrix<> x(m C n), x = a * b)
MPROD(mv_dst, m, 2, Matrix<> a(2 C 2); fm(a); Vector<> b(2); f(b); Vector<> x(m), x = a * b)
MPROD(mm_dst_c, q, 3, Matrix<> a(2 C 2); fm(a); Matrix<> b(2 C 3); fm(b); Matrix<> x(2 C q), x = a * b)
MPROD(dv, m, p, Vector<> d(m); f(d); Vector<> b(p); f(b), Vector<> x = diagmult(d C b))
MPROD(dm, m, p, Vector<> d(m); f(d); Matrix<> b(p C q); fm(b), Matrix<> x = diagmult(d C b); vs_eqi(x.num_rows(), p, "rows"))
MPROD(md, n, p, Vector<> d(n); f(d); Matrix<> b(q C p); fm(b), Matrix<> x = diagmult(b C d); vs_eqi(x.num_cols(), p, "cols"))
// square-only operations
MPROD(identity, m, n, Matrix<> a(m C n); fm(a), a = Identity)
MPROD(plusid, m, n, Matrix<> a(m C n); fm(a), Matrix<> x = a + Identity)
MPROD(pluseqid, m, n, Matrix<> a(m C n); fm(a), a += Identity)
MPROD(trace, m, n, Matrix<> a(m C n); fm(a), double x = trace(a); vs_init(x, "trace"))
MPROD(symm, m, n, Matrix<> a(m C n); fm(a), Symmetrize(a))
#undef C
