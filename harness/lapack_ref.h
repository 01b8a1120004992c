// Reference implementations of the LAPACK/BLAS routines TooN calls, written from the LAPACK documentation
// (column-major storage, leading dimensions, 1-based pivots, workspace queries). They are executed symbolically in
// place of the Fortran library, whose machine code is out of reach; the native replay links the real -llapack.
#pragma once
#include "hcommon.h"
#include <TooN/lapack.h>
#ifdef VS_SYM
namespace ref {
#define LARG(c) vs_check((c) ? 1 : 0, "arguments passed to LAPACK are valid")
static inline bool up(const char* u) { LARG(*u == 'U' || *u == 'u' || *u == 'L' || *u == 'l'); return *u == 'U' || *u == 'u'; }
template<class T> T ab(T x) { return x < 0 ? -x : x; }
template<class T> void getrf(int M, int N, T* A, int lda, int* P, int* info)
{
	LARG(M >= 0 && N >= 0 && lda >= (M > 1 ? M : 1)); *info = 0;
	for (int k = 0; k < (M < N ? M : N); k++)
	{
		int p = k; for (int i = k + 1; i < M; i++) if (ab(A[i + k * lda]) > ab(A[p + k * lda])) p = i;
		P[k] = p + 1;
		if (A[p + k * lda] == 0) { if (*info == 0) *info = k + 1; continue; }
		if (p != k) for (int j = 0; j < N; j++) { T t = A[k + j * lda]; A[k + j * lda] = A[p + j * lda]; A[p + j * lda] = t; }
		for (int i = k + 1; i < M; i++) { A[i + k * lda] /= A[k + k * lda]; for (int j = k + 1; j < N; j++) A[i + j * lda] -= A[i + k * lda] * A[k + j * lda]; }
	}
}
// op(A) X = alpha B (SIDE L) or X op(A) = alpha B (SIDE R); B is M x N and overwritten
template<class T> void trsm(const char* side, const char* uplo, const char* trans, const char* diag, int M, int N, T alpha, const T* A, int lda, T* B, int ldb)
{
	LARG(*side == 'L' || *side == 'R'); LARG(*trans == 'N' || *trans == 'T' || *trans == 'C'); LARG(*diag == 'U' || *diag == 'N');
	bool left = *side == 'L', upper = up(uplo), tr = *trans != 'N', unit = *diag == 'U'; int K = left ? M : N;
	LARG(M >= 0 && N >= 0 && lda >= (K > 1 ? K : 1) && ldb >= (M > 1 ? M : 1));
	// element (i,j) of op(A)
	#define OA(i, j) (tr ? A[(j) + (i) * lda] : A[(i) + (j) * lda])
	bool opupper = tr ? !upper : upper;
	for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) B[i + j * ldb] *= alpha;
	if (left) for (int j = 0; j < N; j++) for (int q = 0; q < M; q++)
	{
		int i = opupper ? M - 1 - q : q; T s = B[i + j * ldb];
		if (opupper) for (int t = i + 1; t < M; t++) s -= OA(i, t) * B[t + j * ldb]; else for (int t = 0; t < i; t++) s -= OA(i, t) * B[t + j * ldb];
		B[i + j * ldb] = unit ? s : s / OA(i, i);
	}
	else for (int i = 0; i < M; i++) for (int q = 0; q < N; q++)
	{
		int j = opupper ? q : N - 1 - q; T s = B[i + j * ldb];
		if (opupper) for (int t = 0; t < j; t++) s -= B[i + t * ldb] * OA(t, j); else for (int t = j + 1; t < N; t++) s -= B[i + t * ldb] * OA(t, j);
		B[i + j * ldb] = unit ? s : s / OA(j, j);
	}
	#undef OA
}
template<class T> void getri(int N, T* A, int lda, const int* P, T* W, int lwork, int* info)
{
	*info = 0; if (lwork == -1) { W[0] = N > 1 ? 4 * N : 4; return; }
	LARG(N >= 0 && lda >= (N > 1 ? N : 1) && lwork >= (N > 1 ? N : 1));
	for (int i = 0; i < N; i++) if (A[i + i * lda] == 0) { *info = i + 1; return; }
	// inv(U)
	for (int j = 0; j < N; j++)
	{
		A[j + j * lda] = 1 / A[j + j * lda];
		for (int i = 0; i < j; i++) { T s = 0; for (int t = i; t < j; t++) s += A[i + t * lda] * A[t + j * lda]; W[i] = s; }
		for (int i = 0; i < j; i++) A[i + j * lda] = -W[i] * A[j + j * lda];
	}
	// X L = inv(U)
	for (int j = N - 2; j >= 0; j--)
	{
		for (int i = j + 1; i < N; i++) { W[i] = A[i + j * lda]; A[i + j * lda] = 0; }
		for (int i = 0; i < N; i++) for (int t = j + 1; t < N; t++) A[i + j * lda] -= A[i + t * lda] * W[t];
	}
	for (int j = N - 1; j >= 0; j--) { int p = P[j] - 1; if (p != j) for (int i = 0; i < N; i++) { T t = A[i + j * lda]; A[i + j * lda] = A[i + p * lda]; A[i + p * lda] = t; } }
}
// element (i,j), i >= j, of the lower factor whatever triangle it is stored in
#define LF(i, j) (u ? A[(j) + (i) * lda] : A[(i) + (j) * lda])
template<class T> void potrf(const char* uplo, int N, T* A, int lda, int* info)
{
	bool u = up(uplo); LARG(N >= 0 && lda >= (N > 1 ? N : 1)); *info = 0;
	for (int j = 0; j < N; j++)
	{
		T s = LF(j, j); for (int t = 0; t < j; t++) s -= LF(j, t) * LF(j, t);
		if (!(s > 0)) { LF(j, j) = s; *info = j + 1; return; }
		T d = std::sqrt(s); LF(j, j) = d;
		for (int i = j + 1; i < N; i++) { T q = LF(i, j); for (int t = 0; t < j; t++) q -= LF(i, t) * LF(j, t); LF(i, j) = q / d; }
	}
}
template<class T> void potrs(const char* uplo, int N, int NRHS, const T* A, int lda, T* B, int ldb, int* info)
{
	bool u = up(uplo); LARG(N >= 0 && NRHS >= 0 && lda >= (N > 1 ? N : 1) && ldb >= (N > 1 ? N : 1)); *info = 0;
	for (int c = 0; c < NRHS; c++)
	{
		for (int i = 0; i < N; i++) { T s = B[i + c * ldb]; for (int t = 0; t < i; t++) s -= LF(i, t) * B[t + c * ldb]; B[i + c * ldb] = s / LF(i, i); }
		for (int i = N - 1; i >= 0; i--) { T s = B[i + c * ldb]; for (int t = i + 1; t < N; t++) s -= LF(t, i) * B[t + c * ldb]; B[i + c * ldb] = s / LF(i, i); }
	}
}
template<class T> void potri(const char* uplo, int N, T* A, int lda, int* info)
{
	bool u = up(uplo); LARG(N >= 0 && lda >= (N > 1 ? N : 1)); *info = 0;
	for (int i = 0; i < N; i++) if (LF(i, i) == 0) { *info = i + 1; return; }
	T V[8 * 8] = {0}; LARG(N <= 8);   // V = inverse of the lower factor
	for (int j = 0; j < N; j++) { V[j + j * 8] = 1 / LF(j, j); for (int i = j + 1; i < N; i++) { T s = 0; for (int t = j; t < i; t++) s -= LF(i, t) * V[t + j * 8]; V[i + j * 8] = s / LF(i, i); } }
	for (int j = 0; j < N; j++) for (int i = j; i < N; i++) { T s = 0; for (int t = i; t < N; t++) s += V[t + i * 8] * V[t + j * 8]; LF(i, j) = s; }
}
#undef LF
template<class T> void geqp3(int M, int N, T* A, int lda, int* jp, T* tau, T* W, int lwork, int* info)
{
	*info = 0; if (lwork == -1) { W[0] = N > 0 ? 2 * N + (N + 1) * 32 : 1; return; }
	LARG(M >= 0 && N >= 0 && lda >= (M > 1 ? M : 1) && lwork >= 3 * N + 1);
	int nf = 0;
	for (int j = 0; j < N; j++)
		if (jp[j] != 0)
		{
			if (j != nf) { for (int i = 0; i < M; i++) { T t = A[i + j * lda]; A[i + j * lda] = A[i + nf * lda]; A[i + nf * lda] = t; } jp[j] = jp[nf]; jp[nf] = j + 1; }
			else jp[j] = j + 1;
			nf++;
		}
		else jp[j] = j + 1;
	for (int k = 0; k < (M < N ? M : N); k++)
	{
		if (k >= nf)
		{
			int p = k; T best = 0;
			for (int j = k; j < N; j++) { T s = 0; for (int i = k; i < M; i++) s += A[i + j * lda] * A[i + j * lda]; if (j == k || s > best) { best = s; p = j; } }
			if (p != k) { for (int i = 0; i < M; i++) { T t = A[i + p * lda]; A[i + p * lda] = A[i + k * lda]; A[i + k * lda] = t; } int t = jp[p]; jp[p] = jp[k]; jp[k] = t; }
		}
		T x2 = 0; for (int i = k + 1; i < M; i++) x2 += A[i + k * lda] * A[i + k * lda];
		tau[k] = 0; if (M - k <= 1 || x2 == 0) continue;
		T al = A[k + k * lda], be = std::sqrt(al * al + x2); if (al >= 0) be = -be;
		tau[k] = (be - al) / be;
		for (int i = k + 1; i < M; i++) A[i + k * lda] /= al - be;
		A[k + k * lda] = be;
		for (int j = k + 1; j < N; j++) { T s = A[k + j * lda]; for (int i = k + 1; i < M; i++) s += A[i + k * lda] * A[i + j * lda]; s *= tau[k]; A[k + j * lda] -= s; for (int i = k + 1; i < M; i++) A[i + j * lda] -= s * A[i + k * lda]; }
	}
}
template<class T> void orgqr(int M, int N, int K, T* A, int lda, const T* tau, T* W, int lwork, int* info)
{
	*info = 0; if (lwork == -1) { W[0] = N > 0 ? N * 32 : 1; return; }
	LARG(M >= 0 && N >= 0 && N <= M && K >= 0 && K <= N && lda >= (M > 1 ? M : 1) && lwork >= (N > 1 ? N : 1) && M <= 8);
	T Q[8 * 8] = {0}; for (int i = 0; i < N; i++) Q[i + i * 8] = 1;
	for (int k = K - 1; k >= 0; k--) for (int j = 0; j < N; j++) { T s = Q[k + j * 8]; for (int i = k + 1; i < M; i++) s += A[i + k * lda] * Q[i + j * 8]; s *= tau[k]; Q[k + j * 8] -= s; for (int i = k + 1; i < M; i++) Q[i + j * 8] -= s * A[i + k * lda]; }
	for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) A[i + j * lda] = Q[i + j * 8];
}
}
extern "C" {
#define VL(p, T) \
void p##getrf_(int* M, int* N, T* A, int* lda, int* P, int* info) { ref::getrf<T>(*M, *N, A, *lda, P, info); } \
void p##getri_(int* N, T* A, int* lda, int* P, T* W, int* lw, int* info) { ref::getri<T>(*N, A, *lda, P, W, *lw, info); } \
void p##trsm_(char* s, char* u, char* t, char* d, int* M, int* N, T* al, T* A, int* lda, T* B, int* ldb) { ref::trsm<T>(s, u, t, d, *M, *N, *al, A, *lda, B, *ldb); } \
void p##potrf_(const char* u, const int* N, T* A, const int* lda, int* info) { ref::potrf<T>(u, *N, A, *lda, info); } \
void p##potrs_(const char* u, const int* N, const int* R, const T* A, const int* lda, T* B, const int* ldb, int* info) { ref::potrs<T>(u, *N, *R, A, *lda, B, *ldb, info); } \
void p##potri_(const char* u, const int* N, T* A, const int* lda, int* info) { ref::potri<T>(u, *N, A, *lda, info); } \
void p##geqp3_(int* M, int* N, T* A, int* lda, int* jp, T* tau, T* W, int* lw, int* info) { ref::geqp3<T>(*M, *N, A, *lda, jp, tau, W, *lw, info); } \
void p##orgqr_(int* M, int* N, int* K, T* A, int* lda, T* tau, T* W, int* lw, int* info) { ref::orgqr<T>(*M, *N, *K, A, *lda, tau, W, *lw, info); }
VL(d, double)
VL(s, float)
}
#endif
