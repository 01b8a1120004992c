// BOUNDS: every matrix of one and two columns given by structured families up to 3x2, matrices with orthogonal columns and rank one matrices up to 3x3 and 2x3, and one diagonalisation step from every 3x3 bidiagonal matrix
// OPTS: time=60
#include <cmath>
#include "hcommon.h"
#include <TooN/GR_SVD.h>
// U D V^T is the matrix, V orthogonal, singular values not negative, columns of U orthonormal where the singular value is not zero
template<int M, int N, class S> static void decomp(S& s, const Matrix<M, N>& A, bool full = true)
{
	const Vector<N>& d = s.get_diagonal(); const Matrix<M, N>& U = s.get_U(); const Matrix<N>& V = s.get_V();
	for (int i = 0; i < N; i++) CHECK(d[i] >= 0, "singular values are not negative");
	for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double t = 0; for (int k = 0; k < N; k++) t += U(i, k) * d[k] * V(j, k); vs_eq(t, A(i, j), "U D V^T is the matrix"); }
	if (full) for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) { double t = 0, u = 0; for (int k = 0; k < N; k++) t += V(k, i) * V(k, j); vs_eq(t, i == j, "V orthogonal"); for (int k = 0; k < M; k++) u += U(k, i) * U(k, j); if (d[i] > 0 && d[j] > 0) vs_eq(u, i == j, "columns of U orthonormal"); }
}
template<int M, int N> static void go(const Matrix<M, N>& A) { Matrix<M, N> c = A; GR_SVD<M, N> s(A); decomp<M, N>(s, A); eqm(A, c, "argument left alone"); }
H(h_1) { Matrix<3, 1> A; fillm(A); go(A); }
H(h_11) { Matrix<1, 1> A; fillm(A); go(A); }
// unit vectors with rational coordinates
static Vector<2> unit2(const char* nm) { double t = vs_real(nm); ASSUME(t > -1 && t < 1); Vector<2> v; v[0] = (1 - t * t) / (1 + t * t); v[1] = 2 * t / (1 + t * t); return v; }
// every upper triangular matrix whose right singular vectors have the rational slope t: [d e; 0 f]
static Matrix<2> tri2(bool pos)
{
	double d = vs_real("d"), e = vs_real("e"), t = vs_real("t"); ASSUME(d > 0.125 && d < 8); ASSUME(e < 8); if (pos) ASSUME(e > 0.125); else { ASSUME(e < -0.125); ASSUME(e > -8); }
	ASSUME(t > 0.0625 && t < 0.9375); double q = d * d - e * e - d * e * (1 - t * t) / t; ASSUME(q > 0.0625); Matrix<2> A; A(0, 0) = d; A(0, 1) = e; A(1, 0) = 0; A(1, 1) = std::sqrt(q); return A;
}
H(h_bi2) { go(tri2(true)); }
H(h_zero) { Matrix<2, 3> A; A = Zeros; go(A); Matrix<3, 2> B; B = Zeros; go(B); Matrix<3> C; C = Zeros; go(C); }
H(h_diag) { Matrix<3> A; A = Zeros; for (int i = 0; i < 3; i++) A(i, i) = vs_real("d"); go(A); }

// columns orthogonal: no iteration is needed
H(h_orth2) { Vector<2> u = unit2("t"); double a = vs_real("a"), b = vs_real("b"); Matrix<2> A; A(0, 0) = a * u[0]; A(1, 0) = a * u[1]; A(0, 1) = -b * u[1]; A(1, 1) = b * u[0]; go(A); }
template<int M> static void rank1(bool nu, bool nv) { double t = vs_choose("t", 1, 3) * 0.25; double a = vs_real("a"); ASSUME(a > 0); if (nu != nv) a = -a; Matrix<M, 2> A; for (int i = 0; i < M; i++) { double u = M == 1 ? 1 : M == 2 ? (i ? 4 : 3) : (i == 1 ? 1 : 2); if (nu) u = -u; A(i, 0) = a * u * (1 - t * t); A(i, 1) = (nv ? -a : a) * u * 2 * t; } go(A); }
H(h_rank1_1) { rank1<1>(false, vs_choose("n", 0, 1)); }
H(h_rank1_2) { rank1<2>(false, vs_choose("n", 0, 1)); }
H(h_rank1_3) { rank1<3>(true, false); }
// three columns of rank one, through the row reflections
template<int M> static void rank13(int v) { static const int vs[3][3] = {{12, 3, 4}, {-4, 12, -3}, {0, 3, -4}}; static const int us[3][3] = {{1, 0, 0}, {3, 4, 0}, {1, -2, 2}}; double a = vs_real("a"); ASSUME(a > 0); if (v & 1) a = -a; Matrix<M, 3> A; for (int i = 0; i < M; i++) for (int j = 0; j < 3; j++) A(i, j) = a * us[M - 1][i] * vs[v][j]; go(A); }
H(h_rank13_1) { rank13<1>(vs_choose("v", 0, 2)); }
H(h_rank13_2) { rank13<2>(vs_choose("v", 0, 2)); }
H(h_rank13_3) { rank13<3>(vs_choose("v", 0, 2)); }
H(h_orth3) { static const double q[3][3] = {{1, 2, 2}, {2, 1, -2}, {2, -2, 1}}; double d[3]; for (int i = 0; i < 3; i++) { d[i] = vs_real("d"); ASSUME(d[i] > 0); } if (vs_choose("s", 0, 1)) d[1] = -d[1]; Matrix<3> A; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A(i, j) = q[i][j] * d[j]; go(A); }
H(h_orth32) { static const double q[3][2] = {{1, 2}, {-2, -1}, {2, -2}}; double d[2]; for (int i = 0; i < 2; i++) { d[i] = vs_real("d"); ASSUME(d[i] > 0); } if (vs_choose("z", 0, 1)) d[vs_choose("i", 0, 1)] = 0; Matrix<3, 2> A; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) A(i, j) = q[i][j] * d[j]; go(A); }
// ---- what is computed from the decomposition, on diagonal matrices
template<int N, class P> static void setd(Matrix<N, N, P>& A, double* d) { A = Zeros; for (int i = 0; i < N; i++) { d[i] = vs_real("d"); ASSUME(d[i] >= 0); A(i, i) = d[i]; } }
H(h_values)
{
	Matrix<3> A; double d[3]; setd(A, d); GR_SVD<3> s(A); double mx = d[0], mn = d[0]; for (int i = 0; i < 3; i++) { if (d[i] > mx) mx = d[i]; if (d[i] < mn) mn = d[i]; } vs_eq(s.get_largest_singular_value(), mx, "largest"); vs_eq(s.get_smallest_singular_value(), mn, "smallest"); int k = s.get_smallest_singular_value_index(); CHECK(k >= 0 && k < 3, "index"); vs_eq(s.get_diagonal()[k], mn, "index of the smallest");
	s.reorder(); for (int i = 0; i + 1 < 3; i++) CHECK(s.get_diagonal()[i] >= s.get_diagonal()[i + 1], "reordered from large to small"); decomp<3, 3>(s, A);
}
// the extreme ones wherever they stand
template<int N> static void ext() { Matrix<N> A; double d[N]; setd(A, d); GR_SVD<N> s(A); double mx = d[0], mn = d[0]; for (int i = 1; i < N; i++) { if (d[i] > mx) mx = d[i]; if (d[i] < mn) mn = d[i]; } vs_eq(s.get_largest_singular_value(), mx, "largest"); vs_eq(s.get_smallest_singular_value(), mn, "smallest"); const Vector<N>& g = s.get_diagonal(); vs_eq(g[s.get_smallest_singular_value_index()], mn, "index of the smallest"); }
H(h_ext3) { ext<3>(); }
H(h_ext4) { ext<4>(); }
H(h_reorder) { Matrix<3, 2> A; A = Zeros; double a = vs_real("a"), b = vs_real("b"); A(0, 0) = a; A(2, 1) = b; GR_SVD<3, 2> s(A); s.reorder(); CHECK(s.get_diagonal()[0] >= s.get_diagonal()[1], "reordered from large to small"); decomp<3, 2>(s, A); }
H(h_inv)
{
	Matrix<3> A; double d[3]; setd(A, d); double c = vs_real("c"); ASSUME(c > 1); GR_SVD<3> s(A); Vector<3> i, b; fill(b, "b"); s.get_inv_diag(i, c); const Vector<3>& g = s.get_diagonal(); double mx = 0; for (int k = 0; k < 3; k++) if (g[k] > mx) mx = g[k];
	Vector<3> x = s.backsub(b, c); Matrix<3> p = s.get_pinv(c); for (int k = 0; k < 3; k++) { double e = g[k] * c > mx ? 1 / g[k] : 0; vs_eq(i[k], e, "inverse singular values within the condition"); vs_eq(x[k], d[k] * c > mx ? b[k] / d[k] : 0, "backsubstitution"); for (int l = 0; l < 3; l++) vs_eq(p(k, l), k == l && d[k] * c > mx ? 1 / d[k] : 0, "pseudo inverse"); }
}
H(h_pinv32)
{
	static const double q[3][2] = {{1, 2}, {-2, -1}, {2, -2}}; double d[2]; for (int i = 0; i < 2; i++) { d[i] = vs_real("d"); ASSUME(d[i] > 0.125); ASSUME(d[i] < 8); } Matrix<3, 2> A; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) A(i, j) = q[i][j] * d[j]; GR_SVD<3, 2> s(A); Matrix<2, 3> p = s.get_pinv(); Vector<3> b; fill(b, "b"); Vector<2> x = s.backsub(b); Matrix<3, 2> m; fillm(m); Matrix<> dm = m; Matrix<2> y = s.backsub(m), z = s.backsub(dm);
	Vector<> db = b; eqv(s.backsub(db), x, "backsubstitution of a run-time sized vector"); eqm(y, z, "backsubstitution of a run-time sized matrix"); for (int i = 0; i < 2; i++) { double t = 0; for (int j = 0; j < 3; j++) { vs_eq(p(i, j), q[j][i] / (9 * d[i]), "pseudo inverse"); t += q[j][i] * b[j]; } vs_eq(x[i], t / (9 * d[i]), "backsubstitution"); for (int k = 0; k < 2; k++) { double u = 0; for (int j = 0; j < 3; j++) u += q[j][i] * m(j, k); vs_eq(y(i, k), u / (9 * d[i]), "backsubstitution"); } }
}
H(h_noU) { Matrix<2> A; double d[2]; setd(A, d); GR_SVD<2, 2, double, 0, 1> s(A); GR_SVD<2, 2, double, 1, 0> t(A); s.reorder(); t.reorder(); GR_SVD<2> f(A); f.reorder(); eqv(s.get_diagonal(), f.get_diagonal(), "singular values without U"); eqv(t.get_diagonal(), f.get_diagonal(), "singular values without V"); eqm(s.get_V(), f.get_V(), "V without U"); eqm(t.get_U(), f.get_U(), "U without V"); }
H(h_float) { Matrix<2, 2, float> A; A(0, 0) = 2; A(0, 1) = 0; A(1, 0) = 0; A(1, 1) = 4; GR_SVD<2, 2, float> s(A); Matrix<2, 2, float> p = s.get_pinv(); vs_eq(p(0, 0), 0.5, "pseudo inverse in single precision"); vs_eq(p(1, 1), 0.25, "pseudo inverse in single precision"); vs_eq(p(0, 1), 0, "pseudo inverse in single precision"); Vector<2, float> b = makeVector(2.f, 8.f), x = s.backsub(b); vs_eq(x[0], 1, "backsubstitution in single precision"); vs_eq(x[1], 2, "backsubstitution in single precision"); }
#ifndef VS_PLAIN
// one step from any bidiagonal matrix keeps U B V^T
template<int N> struct Step : public GR_SVD<N>
{
	typedef GR_SVD<N> B; Step() : B(Matrix<N>(Identity)) {}
	static Matrix<N> bid(const Vector<N>& d, const Vector<N>& e) { Matrix<N> r; r = Zeros; for (int i = 0; i < N; i++) { r(i, i) = d[i]; if (i) r(i - 1, i) = e[i]; } return r; }
	// zero < 0: the shift is rational: its slope is t
	void go(int zero, int k, bool all)
	{
		Vector<N> d, e; e[0] = 0; for (int i = 0; i < N; i++) { if (i == zero) d[i] = 0; else { d[i] = all ? vs_real("d") : i + 2; ASSUME(d[i] != 0); } if (i) { e[i] = i > k ? 0 : all ? vs_real("e") : i + 3; if (i <= k) ASSUME(e[i] != 0); } }
		if (zero == 0)
		{
			double w = vs_real("w"), t = 0.5; ASSUME(w > 0.0625); ASSUME(w < 0.5); e[1] = 2 * w * 3; d[1] = 3 * (1 - w * w); double y = 3 * (1 + w * w), f = -2 * w / (1 + w * w) * e[2], g = (1 - w * w) / (1 + w * w) * e[2], q = 2 * g * y * (1 - t * t) / (2 * t) - y * y + g * g; ASSUME(q + f * f < -0.0625); d[2] = std::sqrt(-q - f * f);
		}
		if (zero < 0)
		{
			double t = all ? vs_real("t") : 0.5; ASSUME(t > 0.0625); ASSUME(t < 16); double f = (1 - t * t) / (2 * t), q = 2 * e[k] * d[k - 1] * f - d[k - 1] * d[k - 1] + e[k] * e[k];
			if (k == 1) { ASSUME(q < -0.0625); d[k] = std::sqrt(-q); } else { double p = vs_real("p"); ASSUME(p != 0); e[k - 1] = (q / p + p) / 2; d[k] = (q / p - p) / 2; ASSUME(e[k - 1] != 0); ASSUME(d[k] != 0); }
		}
		this->vDiagonal = d; for (int i = 0; i < N; i++) this->vOffDiagonal[i] = e[i]; this->mU = Identity; this->mV = Identity; this->anorm = 1; this->nIterations = 0; this->nError = 0; double z = 0; bool r = this->Diagonalize_SubLoop(k, z);
		CHECK(r == (zero == k - 1), "finished when the matrix splits"); Matrix<N> b = bid(d, e); Vector<N> od; for (int i = 0; i < N; i++) od[i] = this->vOffDiagonal[i]; Matrix<N> n = bid(this->vDiagonal, od); const Matrix<N>& U = this->mU; const Matrix<N>& V = this->mV;
		for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double t = 0; for (int a = 0; a < N; a++) for (int c = 0; c < N; c++) t += U(i, a) * n(a, c) * V(j, c); vs_eq(t, b(i, j), "a step keeps U B V^T"); double o = 0, p = 0; for (int a = 0; a < N; a++) { o += U(a, i) * U(a, j); p += V(a, i) * V(a, j); } vs_eq(o, i == j, "U orthogonal"); vs_eq(p, i == j, "V orthogonal"); }
	}
};
H(h_step2) { Step<2>().go(-1, 1, true); }
H(h_step3) { Step<3>().go(-1, 2, false); }
H(h_step3_0) { Step<3>().go(0, 2, true); }
H(h_step3_1) { Step<3>().go(1, 2, true); }
#endif
