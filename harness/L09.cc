// BOUNDS: (up to 5x5, 6x4, 4x6: permuted with one plane rotation) matrices 1x1, 2x1, 1x2, 2x2, 3x2, 2x3, 3x3 built from every pair of rotations/reflections and every non-increasing list of singular values (zeros included), static and run-time sized, several input storage forms; conditions and right-hand sides symbolic
// LIBS: -llapack -lblas
// OPTS: time=60
#include "lapack_ref.h"
#include "large.h"
#include <TooN/SVD.h>
// The decomposition LAPACK would return is planted: A = U diag(s) VT with symbolic orthogonal factors. The reference
// dgesvd_ verifies that it is handed exactly this matrix and returns exactly these factors, following the documented
// meaning of JOBU/JOBVT ('S': into U/VT, 'O': over A). Checks use only quantities that no choice of signs can change.
static double PU[6][6], PV[6][6], PS[6]; static int pm, pn, pk;   // as the caller sees them: A = PU(pm x pk) PS PV(pn x pk)^T
#ifdef VS_SYM
template<class T_> static void gesvd_model(const char* ju, const char* jvt, int M, int N, T_* A, int lda, T_* S, T_* U, int ldu, T_* VT, int ldvt, T_* W, int lwork, int* info)
{
	*info = 0; int k = M < N ? M : N;
	LARG(M >= 0 && N >= 0 && lda >= (M > 1 ? M : 1)); LARG(*ju == 'A' || *ju == 'S' || *ju == 'O' || *ju == 'N'); LARG(*jvt == 'A' || *jvt == 'S' || *jvt == 'O' || *jvt == 'N'); LARG(!(*ju == 'O' && *jvt == 'O'));
	if (*ju == 'S' || *ju == 'A') LARG(ldu >= M); if (*jvt == 'S') LARG(ldvt >= k); if (*jvt == 'A') LARG(ldvt >= N); LARG(*ju != 'A' && *jvt != 'A');
	if (lwork == -1) { W[0] = 5 * (M > N ? M : N) + 64; return; }
	LARG(lwork >= 3 * k + (M > N ? M : N) && lwork >= 5 * k && lwork >= 1);
	// the Fortran matrix is either the planted one or its transpose
	LARG((M == pm && N == pn) || (M == pn && N == pm)); bool same = false, tr = false;
	if (M == pn && N == pm) { tr = true; } else same = true;
	for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) { double s = 0; for (int t = 0; t < k; t++) s += (tr ? PV[i][t] * PU[j][t] : PU[i][t] * PV[j][t]) * PS[t]; vs_eq(A[i + j * lda], s, "%matrix handed to LAPACK is the given one"); }
	for (int t = 0; t < k; t++) S[t] = PS[t];
	W[0] = 7;
	for (int t = 0; t < k; t++) for (int i = 0; i < M; i++) { double u = tr ? PV[i][t] : PU[i][t]; if (*ju == 'S') U[i + t * ldu] = u; if (*ju == 'O') A[i + t * lda] = u; }
	for (int t = 0; t < k; t++) for (int j = 0; j < N; j++) { double v = tr ? PU[j][t] : PV[j][t]; if (*jvt == 'S') VT[t + j * ldvt] = v; if (*jvt == 'O') A[t + j * lda] = v; }
	(void)same;
}
extern "C" void dgesvd_(const char* ju, const char* jvt, int* M, int* N, double* A, int* lda, double* S, double* U, int* ldu, double* VT, int* ldvt, double* W, int* lw, int* info) { gesvd_model(ju, jvt, *M, *N, A, *lda, S, U, *ldu, VT, *ldvt, W, *lw, info); }
extern "C" void sgesvd_(const char* ju, const char* jvt, int* M, int* N, float* A, int* lda, float* S, float* U, int* ldu, float* VT, int* ldvt, float* W, int* lw, int* info) { gesvd_model(ju, jvt, *M, *N, A, *lda, S, U, *ldu, VT, *ldvt, W, *lw, info); }
#endif
// orthogonal n x n matrix, rational parametrisation, either orientation
static void orth(double o[6][6], int n)
{
	if (n > 3) { bigorth(o, n); return; }
	double sg = vs_choose("flip", 0, 1) ? -1 : 1;
	if (n == 1) { o[0][0] = sg; return; }
	if (n == 2) { double x = vs_real("x"), y = vs_real("y"), q = x * x + y * y; ASSUME(q > 0.1); double c = (x * x - y * y) / q, s = 2 * x * y / q; o[0][0] = c; o[0][1] = -s * sg; o[1][0] = s; o[1][1] = c * sg; return; }
	double a = vs_real("qa"), b = vs_real("qb"), c = vs_real("qc"), d = vs_real("qd"), q = a * a + b * b + c * c + d * d; ASSUME(q > 0.1);
	double R[3][3] = {{a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)}, {2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)}, {2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d}};
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[i][j] = R[i][j] / q * sg;
}
// a rotation about one axis, cheaper than the general one
static void axis(double o[6][6]) { double x = vs_real("x"), y = vs_real("y"), q = x * x + y * y; ASSUME(q > 0.1); double c = (x * x - y * y) / q, s = 2 * x * y / q; int k = vs_choose("axis", 0, 2), i = (k + 1) % 3, j = (k + 2) % 3; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) o[a][b] = 0; o[k][k] = 1; o[i][i] = o[j][j] = c; o[i][j] = -s; o[j][i] = s; }
static void plant(int m, int n, int rank = -1, int mode = 0)
{
	pm = m; pn = n; pk = m < n ? m : n; if (mode && m == 3) axis(PU); else orth(PU, m); if (mode > 1 && n == 3) axis(PV); else if (mode && n == 3 && m != 3) axis(PV); else orth(PV, n);
	double top = 0; for (int i = pk - 1; i >= 0; i--) { double d = vs_real("ds"); if (rank >= 0 && i >= rank) { PS[i] = 0; continue; } ASSUME(d > 0.125); PS[i] = top + d; top = PS[i]; }
}
static double pa(int i, int j) { double s = 0; for (int t = 0; t < pk; t++) s += PU[i][t] * PS[t] * PV[j][t]; return s; }
template<class M> static void put(M&& m) { for (int i = 0; i < pm; i++) for (int j = 0; j < pn; j++) m(i, j) = pa(i, j); }
template<class S> static void dec(S& s)
{
	auto U = s.get_U(); auto VT = s.get_VT(); auto& D = s.get_diagonal();
	vs_eqi(U.num_rows(), pm, "U shape"); vs_eqi(U.num_cols(), pk, "U shape"); vs_eqi(VT.num_rows(), pk, "VT shape"); vs_eqi(VT.num_cols(), pn, "VT shape"); vs_eqi(D.size(), pk, "diagonal size");
	for (int t = 0; t < pk; t++) vs_eq(D[t], PS[t], "singular values in descending order");
	for (int i = 0; i < pm; i++) for (int j = 0; j < pn; j++) { double q = 0; for (int t = 0; t < pk; t++) q += U(i, t) * D[t] * VT(t, j); vs_eq(q, pa(i, j), "A = U D VT"); }
	for (int a = 0; a < pk; a++) for (int b = 0; b < pk; b++) { double x = 0, y = 0; for (int i = 0; i < pm; i++) x += U(i, a) * U(i, b); for (int j = 0; j < pn; j++) y += VT(a, j) * VT(b, j); vs_eq(x, a == b, "columns of U orthonormal"); vs_eq(y, a == b, "rows of VT orthonormal"); }
	double p = 1; for (int t = 0; t < pk; t++) p *= PS[t]; vs_eq(s.determinant(), p, "determinant is the product of the singular values");
}
static double inv1(int t, double cond) { return PS[t] * cond <= PS[0] ? 0 : 1 / PS[t]; }
template<class S> static void use(S& s, double cond, bool dflt)
{
	double f[6]; for (int t = 0; t < pk; t++) f[t] = inv1(t, cond);
	Vector<> b(pm); fill(b, "b"); Matrix<> B(pm, 2); fillm(B, "B");
	Vector<> x = dflt ? Vector<>(s.backsub(b)) : Vector<>(s.backsub(b, cond)); Matrix<> X = dflt ? Matrix<>(s.backsub(B)) : Matrix<>(s.backsub(B, cond)), P = dflt ? Matrix<>(s.get_pinv()) : Matrix<>(s.get_pinv(cond));
	vs_eqi(P.num_rows(), pn, "pseudo-inverse shape"); vs_eqi(P.num_cols(), pm, "pseudo-inverse shape");
	for (int i = 0; i < pn; i++)
	{
		double y = 0, Y0 = 0, Y1 = 0;
		for (int j = 0; j < pm; j++) { double q = 0; for (int t = 0; t < pk; t++) q += PV[i][t] * f[t] * PU[j][t]; vs_eq(P(i, j), q, "pseudo-inverse, small singular values dropped"); y += q * b[j]; Y0 += q * B(j, 0); Y1 += q * B(j, 1); }
		vs_eq(x[i], y, "backsub of a vector is the pseudo-inverse times it"); vs_eq(X(i, 0), Y0, "backsub of a matrix"); vs_eq(X(i, 1), Y1, "backsub of a matrix");
	}
	int r = 0; for (int t = 0; t < pk; t++) if (f[t] != 0) r++; vs_eqi(dflt ? s.rank() : s.rank(cond), r, "rank counts the singular values that are kept");
}
template<int R, int C> static void both(int mode = 0) { plant(R, C, -1, mode); Matrix<R, C> m; put(m); SVD<R, C> s(m); dec(s); use(s, 1e9, true); }
H(h_11) { both<1, 1>(); }
H(h_21) { both<2, 1>(); }
H(h_12) { both<1, 2>(); }
H(h_22) { both<2, 2>(); }
H(h_31) { both<3, 1>(); }
H(h_13) { both<1, 3>(); }
H(h_32) { plant(3, 2, -1, 1); Matrix<3, 2> m; put(m); SVD<3, 2> s(m); dec(s); use(s, 1e9, true); }
H(h_23) { plant(2, 3, -1, 1); Matrix<2, 3> m; put(m); SVD<2, 3> s(m); dec(s); use(s, 1e9, true); }
H(h_33) { plant(3, 3, -1, 2); Matrix<3> m; put(m); SVD<3> s(m); dec(s); }
H(h_33u) { plant(3, 3, -1, 2); Matrix<3> m; put(m); SVD<3> s(m); use(s, 1e9, true); }
extern "C" void ht_32() { both<3, 2>(); }
extern "C" void ht_23() { both<2, 3>(); }
extern "C" void ht_33() { plant(3, 3); Matrix<3> m; put(m); SVD<3> s(m); dec(s); }
H(h_d22) { plant(2, 2); Matrix<> m(2, 2); put(m); SVD<> s(m); dec(s); use(s, 1e9, true); }
H(h_d32) { plant(3, 2, -1, 1); Matrix<> m(3, 2); put(m); SVD<> s(m); dec(s); use(s, 1e9, true); }
H(h_d23) { plant(2, 3, -1, 1); Matrix<> m(2, 3); put(m); SVD<> s(2, 3); s.compute(m); dec(s); use(s, 1e9, true); }
H(h_semi) { plant(3, 2, -1, 1); Matrix<Dynamic, 2> m(3, 2); put(m); SVD<Dynamic, 2> s(m); dec(s); use(s, 1e9, true); }
H(h_col) { plant(2, 3, -1, 1); Matrix<2, 3, double, ColMajor> m; put(m); SVD<2, 3> s(m); dec(s); Matrix<3, 2> w; put(w.T()); s.compute(w.T()); dec(s); }
H(h_sl) { plant(2, 2); Matrix<4> w; fillm(w, "w"); put(w.slice<1, 1, 2, 2>()); SVD<2> s(w.slice<1, 1, 2, 2>()); dec(s); use(s, 1e9, true); }
H(h_sq) { plant(2, 2); Matrix<2> m; put(m); SQSVD<2, double> s(m); dec(s); use(s, 1e9, true); }
// condition: any threshold, values either side of it
H(h_cond) { plant(2, 2); double c = vs_real("cond"); ASSUME(c > 1.0625); double q = PS[1] * c - PS[0]; ASSUME(q > 0.01 || q < -0.01); Matrix<2> m; put(m); SVD<2> s(m); use(s, c, false); }
H(h_cond3) { plant(3, 3, -1, 2); double c = vs_real("cond"); ASSUME(c > 1.0625); for (int t = 1; t < 3; t++) { double q = PS[t] * c - PS[0]; ASSUME(q > 0.01 || q < -0.01); } Matrix<3> m; put(m); SVD<3> s(m); use(s, c, false); }
// rank-deficient matrices (exactly representable singular vectors so that the replay has exact zeros)
template<int R, int C> static void defi() { pm = R; pn = C; pk = R < C ? R : C; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) PU[i][j] = PV[i][j] = i == j; int r = vs_choose("rank", 0, pk); double top = 0; for (int i = pk - 1; i >= 0; i--) { if (i >= r) { PS[i] = 0; continue; } double d = vs_real("ds"); ASSUME(d > 0.125 && d < 1e6); PS[i] = top + d; top = PS[i]; } Matrix<R, C> m; put(m); SVD<R, C> s(m); dec(s); use(s, 1e9, true); vs_eqi(s.rank(), r, "rank"); }
H(h_def2) { defi<2, 2>(); }
H(h_def3) { defi<3, 3>(); }
H(h_def32) { defi<3, 2>(); }
H(h_def23) { defi<2, 3>(); }
// single precision
H(h_fl) { plant(2, 2); ASSUME(PS[0] < 4 && PS[1] > 0.5); Matrix<2, 2, float> m; put(m); SVD<2, 2, float> s(m); Matrix<2, 2, float> P = s.get_pinv(); for (int i = 0; i < 2; i++) { vs_eq(s.get_diagonal()[i], PS[i], "single precision singular values", 1e-3); for (int j = 0; j < 2; j++) { double q = 0; for (int t = 0; t < 2; t++) q += PV[i][t] / PS[t] * PU[j][t]; vs_eq(P(i, j), q, "single precision pseudo-inverse", 1e-2); } } vs_eqi(s.rank(), 2, "rank"); }
// larger, wide right-hand sides
H(h_big55) { plant(5, 5); Matrix<5> m; put(m); SVD<5> s(m); dec(s); use(s, 1e9, true); }
H(h_big64) { plant(6, 4); Matrix<6, 4> m; put(m); SVD<6, 4> s(m); dec(s); use(s, 1e9, true); }
H(h_big46) { plant(4, 6); Matrix<> m(4, 6); put(m); SVD<> s(m); dec(s); use(s, 1e9, true); }
H(h_big25) { plant(2, 5, -1, 1); Matrix<2, 5> m; put(m); SVD<2, 5> s(m); dec(s); use(s, 1e9, true); }
template<int R, int C, int K> static void wide(int r, int c, int k) { plant(r, c); Matrix<R, C> m(r, c); put(m); SVD<R, C> s(m); Matrix<R, K> B(r, k); bigrhs(B); Matrix<> X = s.backsub(B), P = s.get_pinv(); vs_eqi(X.num_cols(), k, "columns"); eqm(X, Matrix<>(P * B), "backsub is the pseudo-inverse times the right-hand side"); }
H(h_wide1) { wide<1, 2, 6>(1, 2, 6); }
H(h_wide2) { wide<Dynamic, Dynamic, 7>(2, 2, 7); }
H(h_wide4) { wide<4, 5, 6>(4, 5, 6); }
