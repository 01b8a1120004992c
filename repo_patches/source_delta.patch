From 443fb9e2bb614c98dc3dd8a16bffc8f96f41da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 01/47] fix: keep the elements of a Resizable vector assigned
 to itself when debug initialisation is on

---
 TooN/internal/allocator.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 4d0735b..a5be15e 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -348,6 +348,11 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 
 		void try_destructive_resize(int newsize)
 		{
+			//The source of an assignment may be this vector, so the elements must
+			//survive if no resizing is needed.
+			if(newsize == size())
+				return;
+
 			numbers.resize(newsize);
 			debug_initialize(data(), newsize);
 		}
-- 
2.43.0


From 850fedb78b3b53a06211ab888925577307711261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 02/47] fix: random debug initialisation of an empty vector
 wrote past its end

---
 TooN/internal/debug.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index b8350ea..54158d6 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -90,6 +90,8 @@ namespace Internal
 			static intbits random = { ((std::time(NULL) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
 			unsigned char* cdata = reinterpret_cast<unsigned char*>(data);
 
+			if(n <= 0)
+				return;
 			size_t bytes = sizeof(P)*n, i=0;
 			
 			//Do nothing except for noisy failure with non-POD types.
-- 
2.43.0


From a0a7952d490853d6e1bae4b3735c9d99d6c10001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 03/47] fix: slice range check accepted ranges whose end
 overflows int

---
 TooN/internal/slice_error.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 9bba04d..77d78e3 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -121,9 +121,11 @@ namespace Internal
 					std::abort();
 				}
 			#endif
-			if( N<Start>::n(start) + N<Length>::n(length) > N<Size>::n(size) || 
-			   N<Start>::n(start) < 0 ||
-			   N<Length>::n(length) < 0)
+			//Note that start + length may overflow, so it can not be compared to size.
+			if(N<Start>::n(start) < 0 ||
+			   N<Length>::n(length) < 0 ||
+			   N<Length>::n(length) > N<Size>::n(size) ||
+			   N<Start>::n(start) > N<Size>::n(size) - N<Length>::n(length))
 			{
 				#ifdef TOON_TEST_INTERNALS
 					throw Internal::SliceError();
-- 
2.43.0


From 6696eb62cf2d2f5d889d773e44cdbfcdead2b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 04/47] fix: Fill of single element vectors and of single
 column matrices

---
 TooN/internal/comma.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c6e2462..87511ed 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -73,7 +73,7 @@ namespace Internal
 
 		VectorFiller<1, Size, P, B> operator=(const P& p)
 		{
-			Internal::CheckOverFill<1, Size>::check(v.size());
+			Internal::CheckOverFill<0, Size>::check(v.size());
 			v[0] = p;
 			return VectorFiller<1, Size, P, B>(v, 0);
 		}
@@ -133,7 +133,9 @@ namespace Internal
 		{
 			Internal::CheckMOverFill<0, R, C>::check(m.num_rows() * m.num_cols());
 			m[0][0] = p;
-			return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
+			//The second element is on the next row if there is only one column.
+			const bool one_col = m.num_cols() == 1;
+			return MatrixFiller<1, R, C, P, B>(m, 0, one_col?1:0, one_col?0:1);
 		}
 	};
 
-- 
2.43.0


From c2ec84ef0f6ff366bbf42bdbedd02d13093a8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 05/47] fix: Data assigned to a matrix of run-time size wrote
 nothing

---
 TooN/internal/data.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/data.hh b/TooN/internal/data.hh
index c8420a3..5c033df 100644
--- a/TooN/internal/data.hh
+++ b/TooN/internal/data.hh
@@ -43,8 +43,8 @@ namespace TooN{
 		void eval(Matrix<R, C, T, B>& m) const
 		{
 			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);
-			for(int r=0, n=0; r < R; r++)
-				for(int c=0; c < C; c++, n++)
+			for(int r=0, n=0; r < m.num_rows(); r++)
+				for(int c=0; c < m.num_cols(); c++, n++)
 					m[r][c] = vals[n];
 		}
 
-- 
2.43.0


From 67b84018cf38fc0467e092654141bf143364d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 06/47] fix: scalar * matrix swapped the two operand types,
 truncating mixed precision products

---
 TooN/internal/operators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 07c3837..7479bd0 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -596,7 +596,7 @@ struct Operator<Internal::ApplyScalarML<R,C,P1,B1,P2,Op> > {
 	void eval(Matrix<R0,C0,P0,Ba0>& m) const {
 		for(int r=0; r<m.num_rows(); r++){
 			for(int c=0; c<m.num_cols(); c++){
-				m(r,c)= Op::template op<P0,P1,P2> (lhs,rhs(r,c));
+				m(r,c)= Op::template op<P0,P2,P1> (lhs,rhs(r,c));
 			}
 		}
 	}
-- 
2.43.0


From e79d210a8e67f482b247f98feeac099908886356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 07/47] fix: as_row, as_col, as_slice and as_diagonal of
 Resizable vectors had a nonsense size

---
 TooN/internal/vbase.hh | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index 9ceb456..0c797a3 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -208,38 +208,41 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 	}
 		
 	//Other slices below
-	const Matrix<1, Size, const Precision, Slice<1,Stride> > as_row() const{
-		return Matrix<1, Size, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	//A view of a Resizable vector can not be resized: its size is given at run-time
+	static const int ViewSize = (Size == Resizable) ? Dynamic : Size;
+
+	const Matrix<1, ViewSize, const Precision, Slice<1,Stride> > as_row() const{
+		return Matrix<1, ViewSize, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	Matrix<1, Size, Precision, Slice<1,Stride> > as_row(){
-		return Matrix<1, Size, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	Matrix<1, ViewSize, Precision, Slice<1,Stride> > as_row(){
+		return Matrix<1, ViewSize, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	const Matrix<Size, 1, const Precision, Slice<Stride,1> > as_col() const{
-		return Matrix<Size, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	const Matrix<ViewSize, 1, const Precision, Slice<Stride,1> > as_col() const{
+		return Matrix<ViewSize, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	Matrix<Size, 1, Precision, Slice<Stride,1> > as_col(){
-		return Matrix<Size, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	Matrix<ViewSize, 1, Precision, Slice<Stride,1> > as_col(){
+		return Matrix<ViewSize, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	typedef Vector<Size, Precision, SliceBase> as_slice_type;
+	typedef Vector<ViewSize, Precision, SliceBase> as_slice_type;
 	
-	Vector<Size, Precision, SliceBase> as_slice(){                 
-		return Vector<Size, Precision, SliceBase>(data(), size(), stride(), Slicing());         
+	Vector<ViewSize, Precision, SliceBase> as_slice(){                 
+		return Vector<ViewSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	const Vector<Size, const Precision, ConstSliceBase> as_slice() const {                 
-		return Vector<Size, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
+	const Vector<ViewSize, const Precision, ConstSliceBase> as_slice() const {                 
+		return Vector<ViewSize, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	DiagonalMatrix<Size,Precision, SliceBase> as_diagonal() {
-		return DiagonalMatrix<Size, Precision, SliceBase> (data(), size(), stride(), Slicing());
+	DiagonalMatrix<ViewSize,Precision, SliceBase> as_diagonal() {
+		return DiagonalMatrix<ViewSize, Precision, SliceBase> (data(), size(), stride(), Slicing());
 	}
 
-	const DiagonalMatrix<Size,const Precision, ConstSliceBase> as_diagonal() const {
-		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
+	const DiagonalMatrix<ViewSize,const Precision, ConstSliceBase> as_diagonal() const {
+		return DiagonalMatrix<ViewSize, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
 	}
 
 };
-- 
2.43.0


From 6f2952ae65719c3449b6fde78f87c99fd590b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 08/47] fix: v - Ones and m - Identity did not compile

---
 TooN/internal/objects.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 1518542..8e89a55 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -322,10 +322,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
+	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
-		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> >(-val, m, 0);
+		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> >(-val, m, 0);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -509,9 +509,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	}
 
 	template <int Size, typename P1, typename B1> 
-	Operator<Internal::ScalarsVector<Size,P1,B1,Precision> > rsubtract(const Vector<Size, P1, B1>& v) const
+	Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Vector<Size, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsVector<Size,P1,B1,Precision> >(-s, v, 0);
+		return Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> >(-s, v, 0);
 	}
 
 	template <int Size, typename P1, typename B1> 
-- 
2.43.0


From b28188921a16bd712b04503363fe0c1db5e7bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 09/47] fix: unproject of a matrix with a run-time number of
 columns did not compile

---
 TooN/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 447bca3..8185063 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -221,8 +221,8 @@ namespace TooN {
        \overload
 	*/
     template<int R, int C, typename Precision, typename Base> inline Matrix<R+1, C, Precision> unproject( const Matrix<R, C, Precision, Base> & m){
-        Matrix<R+1, C, Precision> result;
-        result.template slice<0,0,R,C>() = m;
+        Matrix<R+1, C, Precision> result( m.num_rows()+1, m.num_cols() );
+        result.slice(0,0,R,m.num_cols()) = m;
         result[R] = Ones;
         return result;
     }
-- 
2.43.0


From f3c2786cb82ff57fd666ac260ec3c269e22a6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 10/47] fix: row and column extremes of a matrix without rows
 or columns read out of bounds

---
 TooN/helpers.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 8185063..a915a62 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -487,10 +487,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_horizontal( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_rows() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // What should we return, exception?
             }
+            Func func( m.num_rows() );
             for(int r=0; r<m.num_rows(); r++){
                 func.initialise( m[r][0], r, 0 );
                 for(int c=1; c<m.num_cols(); c++){
@@ -500,10 +500,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_vertical( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_cols() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // What should we return, exception?
             }
+            Func func( m.num_cols() );
             for(int c=0; c<m.num_cols(); c++){
                 func.initialise( m[0][c], 0, c );
                 for(int r=1; r<m.num_rows(); r++){
-- 
2.43.0


From e001394abba4109070aac0e093a77fc71eb9fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 11/47] fix: gaussian_elimination did not check the sizes of
 run-time sized systems

---
 TooN/gaussian_elimination.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 870e7ec..558db71 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -44,6 +44,9 @@ namespace TooN {
 		using std::swap;
 		using std::abs;
 
+		SizeMismatch<N, N>::test(A.num_rows(), A.num_cols());
+		SizeMismatch<N, N>::test(A.num_rows(), b.size());
+
 		int size=b.size();
 
 		for (int i=0; i<size; ++i) {
-- 
2.43.0


From 1c81390b76dbe1435cf6215beef1dff70833aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 12/47] fix: LU::backsub left the rows of a solution with a
 run-time number of columns unpermuted

---
 TooN/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 9146de7..8c4dbc2 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -115,7 +115,7 @@ class LU {
 		// now do the row swapping (lapack dlaswp.f only shuffles fortran rows = Rowmajor cols)
 		for(int i=N-1; i>=0; i--){
 			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1
-			for(int j=0; j<NRHS; j++){
+			for(int j=0; j<result.num_cols(); j++){
 				Precision temp = result[i][j];
 				result[i][j] = result[swaprow][j];
 				result[swaprow][j] = temp;
-- 
2.43.0


From 0de257da3f59ce795b67b90e09e36794682fb307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 13/47] fix: LU::backsub in single precision did not compile

---
 TooN/LU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 8c4dbc2..d52f72d 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -106,7 +106,7 @@ class LU {
 
 		FortranInteger M=rhs.num_cols();
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=rhs.num_cols();
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0][0],&ldb);
@@ -135,7 +135,7 @@ class LU {
 
 		FortranInteger M=1;
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=1;
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0],&ldb);
-- 
2.43.0


From 08bc5dc186c0e42f3fa3346608bdfa0e26c63864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 14/47] fix: QR divided by zero for reduced columns and lost
 orthogonality near them

---
 TooN/QR.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index 10b33c3..4c83591 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -153,6 +153,12 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				//
 				//let a = |x| * sgn(x_0])
 
+				//Nothing to do if the column is already in this form (there is
+				//no reflection vector then).
+				Precision below = norm_sq(s.T()[0].slice(1, sz-1));
+				if(below == 0)
+					continue;
+
 				Precision  nx2 = norm_sq(s.T()[0]);
 
 				Precision a = sqrt(nx2) * (s.T()[0][0] < 0?-1:1);
@@ -163,7 +169,9 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				// for the first element. The matrix P = is orthogonal, a bit like Qn 
 				//
 				//Since x is no longer needed, we can just modify the first element
-				s.T()[0][0] -= a;
+				//
+				//x_0 - a = (x_0^2 - a^2) / (x_0 + a), which does not cancel.
+				s.T()[0][0] = -below / (s.T()[0][0] + a);
 				//auto& u = x;
 
 				//We want H = norm_sq(u)/2 =  a (a - x_0) = a * -u_0
-- 
2.43.0


From 56761d21c18417697e63b7c9438e8f9007cbbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 15/47] fix: SVD::rank counted the singular values it should
 leave out

---
 TooN/SVD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index e22a437..c104254 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -222,8 +222,8 @@ public:
 	int rank(const Precision condition = condition_no) {
 		if (my_diagonal[0] == 0) return 0;
 		int result=1;
-		for(int i=0; i<min_dim(); i++){
-			if(my_diagonal[i] * condition <= my_diagonal[0]){
+		for(int i=1; i<min_dim(); i++){
+			if(my_diagonal[i] * condition > my_diagonal[0]){
 				result++;
 			}
 		}
-- 
2.43.0


From 88c9e207703a7302f803536e454c97d76ce6adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 16/47] fix: SymEigen of the 3x3 zero matrix left the
 eigenvalues uninitialised

---
 TooN/SymEigen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8c6d42f..6537abb 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -157,6 +157,7 @@ namespace Internal{
 			if(a_norm == 0)
 			{
 				eig = TooN::Identity;
+				ev = TooN::Zeros;
 				return;
 			}
 
-- 
2.43.0


From 475dc0f1c32608db3717503ce559288a36874f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 17/47] fix: SymEigen<3> took every matrix with small elements
 for a multiple of the identity

---
 TooN/SymEigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 6537abb..98c713f 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -152,7 +152,7 @@ namespace Internal{
             using std::swap;
             
 			double a_norm = norm_1(m);
-			double eps = 1e-7 * a_norm;
+			double eps = 1e-7 * a_norm * a_norm; //The vectors below are quadratic in m.
 
 			if(a_norm == 0)
 			{
-- 
2.43.0


From bc165beb9282a35804342f777af9deac04109103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 18/47] fix: SymEigen<3> normalised the wrong rows when one
 eigenvector had to be completed

---
 TooN/SymEigen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 98c713f..c41ca5f 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -297,7 +297,7 @@ namespace Internal{
 				//This is blessedly rare
 		
 				double ns[] = {e0norm, e1norm, e2norm};
-				double is[] = {0, 1, 2};
+				int is[] = {0, 1, 2};
 				
 				//Sort them
 				if(ns[0] > ns[1])
@@ -320,8 +320,8 @@ namespace Internal{
 				if(ns[1] >= eps)
 				{
 					//one small one. Use the cross product of the other two
-					normalize(eig[1]);
-					normalize(eig[2]);
+					normalize(eig[is[1]]);
+					normalize(eig[is[2]]);
 					eig[is[0]] = eig[is[1]]^eig[is[2]];
 				}
 				else if(ns[2] >= eps)
-- 
2.43.0


From 96867d606462c774f57eaaefb9de74cebcb76cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 19/47] fix: product of SO2 rotations of different precisions
 did not compile

---
 TooN/so2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/so2.h b/TooN/so2.h
index 8fe30e6..fea5ff3 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -124,11 +124,12 @@ public:
 		return result;
 	}
 
+	template <typename PA, typename PB>
+	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	inline SO2(const SO2& so2, const Invert&) : my_matrix(so2.my_matrix.T()) {}
-	template <typename PA, typename PB>
-	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
 
 	Matrix<2,2,Precision> my_matrix;
 };
-- 
2.43.0


From fcac5bb6a0fd5c5b85ca0958f5e962293c3a5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 20/47] fix: SE2::adjoint of a matrix did not compile

---
 TooN/se2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 6d985ed..4d89b73 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -114,8 +114,8 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<3, Precision> adjoint(const Vector<3,Precision, Accessor> & vect) const {
+	template<typename P, typename Accessor>
+	Vector<3, Precision> adjoint(const Vector<3, P, Accessor> & vect) const {
 		Vector<3, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = my_rotation * vect.template slice<0,2>();
-- 
2.43.0


From 54137e79f9df53bb5e806929d570492fb139f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 21/47] fix: SIM2::adjoint of a matrix did not compile

---
 TooN/sim2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 6a4b907..b9c4554 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -128,8 +128,8 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
+	template<typename P, typename Accessor>
+	Vector<4, Precision> adjoint(const Vector<4, P, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
-- 
2.43.0


From fee305ab8839174b0112ee0f45cd7fa6ca9df5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 22/47] fix: SIM2::adjoint ignored the scale and left the last
 element uninitialised

---
 TooN/sim2.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index b9c4554..bf8e269 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -132,9 +132,10 @@ public:
 	Vector<4, Precision> adjoint(const Vector<4, P, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
-		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
-		result[0] += vect[2] * get_translation()[1];
-		result[1] -= vect[2] * get_translation()[0];
+		result[3] = vect[3];
+		result.template slice<0,2>() = get_scale() * (get_rotation() * vect.template slice<0,2>());
+		result[0] += vect[2] * get_translation()[1] - vect[3] * get_translation()[0];
+		result[1] -= vect[2] * get_translation()[0] + vect[3] * get_translation()[1];
 		return result;
 	}
 
-- 
2.43.0


From cfc3025bbe396697ae37ebb5bfc18c6901ac976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 23/47] fix: SIM2::exp and ln used the wrong coefficient for
 the translation

---
 TooN/sim2.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index bf8e269..b9cb166 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -345,7 +345,9 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
-	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
+	// the square of the 2x2 generator of the rotation is -theta^2 * Identity
+	const Precision diag = coeff[0] - theta * theta * coeff[2];
+	result.get_translation() = diag * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
 	return result;
 }
@@ -366,7 +368,8 @@ inline Vector<4, Precision> SIM2<Precision>::ln(const SIM2<Precision> & sim2) {
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(result[3], theta);
 	Matrix<2,2, Precision> cross = Zeros; cross(0,1) = -theta; cross(1,0) = theta;
-	const Matrix<2,2, Precision> W = coeff[2] * Identity + coeff[1] * cross;
+	const Precision diag = coeff[0] - theta * theta * coeff[2];
+	const Matrix<2,2, Precision> W = diag * Identity + coeff[1] * cross;
 	result.template slice<0,2>() = gaussian_elimination(W, sim2.get_translation());
 
 	return result;
-- 
2.43.0


From 2b7b3242e4610efe3ded39b07d359d0f8fd009ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 24/47] fix: integer division in the series of the SIM3
 exponential

---
 TooN/sim3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 0545bac..141b229 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -433,8 +433,8 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 
 	if(fabs(s) < eps && fabs(t) < eps){
 		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = 1/2 + s/3 - t*t/24 + s*s/8;
-		coeff[2] = 1/6 + s/8 - t*t/120 + s*s/20;
+		coeff[1] = 1.0/2 + s/3 - t*t/24 + s*s/8;
+		coeff[2] = 1.0/6 + s/8 - t*t/120 + s*s/20;
 	} else if(fabs(s) < eps) {
 		coeff[0] = 1 + s/2 + s*s/6;
 		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-- 
2.43.0


From 0420e98980e4000eb40dadf8a3ce0e0bb0cc751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 25/47] fix: SIM3::exp compiled for the default precision only

---
 TooN/sim3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 141b229..830ca0b 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -472,7 +472,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision t = norm(w);
-	result.get_rotation() = SO3<>::exp(w);
+	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
-- 
2.43.0


From 7792166ebabafaa1f3f79004fe1e66a5777fe5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 26/47] fix: assignment of Identity to SIM3 compiled for the
 default precision only

---
 TooN/sim3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 830ca0b..b1081aa 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -98,8 +98,8 @@ public:
 	}
 	
 	/// Reset back to the identity transform
-	inline SIM3<>& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
-		return *this = SIM3<>();
+	inline SIM3& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
+		return *this = SIM3();
 	}
 
 	/// Right-multiply by another SIM3 (concatenate the two transformations)
-- 
2.43.0


From 46d3a7f52c5795ff6a495a457d24163e4b2db301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 27/47] fix: SIM3::adjoint and trinvadjoint ignored the scale
 and left the last element uninitialised

---
 TooN/sim3.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index b1081aa..9cdf8c3 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -194,9 +194,11 @@ template<int S, typename P2, typename Accessor>
 inline Vector<7, Precision> SIM3<Precision>::adjoint(const Vector<S,P2, Accessor>& vect) const{
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
+	result[6] = vect[6];
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_scale() * (get_rotation() * vect.template slice<0,3>());
 	result.template slice<0,3>() += get_translation() ^ result.template slice<3,3>();
+	result.template slice<0,3>() -= vect[6] * get_translation();
 	return result;
 }
 
@@ -209,8 +211,9 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = (get_rotation() * vect.template slice<0,3>()) / get_scale();
 	result.template slice<3,3>() += get_translation() ^ result.template slice<0,3>();
+	result[6] = vect[6] + get_translation() * result.template slice<0,3>();
 	return result;
 }
 
-- 
2.43.0


From 9b3877abea1512d5077a19b4b4342ebef1fc601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 28/47] fix: WLS::add_mJ did not check the size of a run-time
 sized Jacobian

---
 TooN/wls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/wls.h b/TooN/wls.h
index 0a6b33f..0498c7a 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -96,6 +96,7 @@ public:
 	/// @param weight The inverse variance of the measurement (default = 1)
 	template<class B2, class P2>
 	inline void add_mJ(Precision m, const Vector<Size, P2, B2>& J, Precision weight = 1) {
+		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.size());
 		
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
-- 
2.43.0


From 7cefa5f240bacc802be30daccb309c6a426c5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 29/47] fix: RobustII::true_scale did not compute w(x) + x
 w'(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 3318fc3..bea1b7d 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -57,7 +57,7 @@ namespace TooN {
 		void set_sd(Precision x){ sd_inlier = x*x;} ///<Set the noise standard deviation.
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision d){return d - 2*d*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
 		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
-- 
2.43.0


From f5381c8f5e68b125af298bb1c65a7160f6e631e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 30/47] fix: ILinear::objective was twice the integral of x
 w(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index bea1b7d..6e9edb8 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -70,7 +70,7 @@ namespace TooN {
 		void set_sd(Precision){} ///<Set the noise standard deviation (does nothing).
 		inline Precision reweight(Precision){return 1;} ///< Returns \f$w(x)\f$.
 		inline Precision true_scale(Precision){return 1;} ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision d){return d*d;} ///< Returns \f$\int xw(x)dx\f$.
+		inline Precision objective(Precision d){return d*d/2;} ///< Returns \f$\int xw(x)dx\f$.
 	};
 	
 	///A reweighting class where the objective function tends to a 
-- 
2.43.0


From 2662bc05c5a98f3bcc7a1122547a79be5deaaa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 31/47] fix: IRLS::add_mJ did not use the Jacobian for the true
 information matrix

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 6e9edb8..24f9119 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -124,9 +124,9 @@ namespace TooN {
 
 			WLS<Size>::add_mJ(m,J,scale);
 
-			Vector<Size,Precision> scaledm(m*ts);
+			const Vector<Size,Precision> scaledJ(J*ts);
 
-			my_true_C_inv += scaledm.as_col() * scaledm.as_row();
+			my_true_C_inv += scaledJ.as_col() * J.as_row();
 
 		}
 
-- 
2.43.0


From b9d1e8f2c0f2aa4477bd7da0b4e149cfaeac3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 32/47] fix: default constructed IRLS of run-time size had size
 -1

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 24f9119..47b194d 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -107,7 +107,7 @@ namespace TooN {
 		  public WLS<Size,Precision>
 	{
 	public:
-		IRLS(int size=Size):
+		IRLS(int size=Size==Dynamic?0:Size):
 			WLS<Size,Precision>(size),
 			my_true_C_inv(Zeros(size))
 		{
-- 
2.43.0


From 42f8e5f6af8d3fd1e43c6fdec74bd59939fd9cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 33/47] fix: IRLS compiled for the default precision only

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 47b194d..42b97a3 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -122,7 +122,7 @@ namespace TooN {
 			Precision ts = Reweight<Precision>::true_scale(m);
 			my_residual += Reweight<Precision>::objective(m);
 
-			WLS<Size>::add_mJ(m,J,scale);
+			WLS<Size,Precision>::add_mJ(m,J,scale);
 
 			const Vector<Size,Precision> scaledJ(J*ts);
 
@@ -131,7 +131,7 @@ namespace TooN {
 		}
 
 		void operator += (const IRLS& meas){
-			WLS<Size>::operator+=(meas);
+			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
 		}
 
-- 
2.43.0


From 8d07775a1c4685fbbe25d2a34d314cbee7a33c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 34/47] fix: IRLS::operator+= left the residual out

---
 TooN/irls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index 42b97a3..5fbdae8 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -133,6 +133,7 @@ namespace TooN {
 		void operator += (const IRLS& meas){
 			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
+			my_residual += meas.my_residual;
 		}
 
 
-- 
2.43.0


From 550e0f17b81bac8057d675b1974111b2e3d6b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 35/47] fix: golden_section_search did not compile

---
 TooN/optimization/golden_section.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 3a4a2d3..db62ed7 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -48,11 +48,11 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		using std::abs;
 		//The golden ratio:
-		const Precision g = (3.0 - sqrt(5))/2;
+		const Precision g = (3.0 - std::sqrt(5.0))/2;
 
 		Precision x1, x2, fx1, fx2;
 
@@ -127,7 +127,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		return golden_section_search(a, b, c, func(b), func, maxiterations, tol);
 	}
-- 
2.43.0


From 1ed8ca0908f3fc50230676bff7fd6ee42a82c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 36/47] fix: brent_line_search did not compile

---
 TooN/optimization/brent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 3e60251..6fc042c 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -52,7 +52,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
+	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = std::sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
 	{
 		using std::min;
 		using std::max;
-- 
2.43.0


From ce331ed9020f0f952d00a73c2b6abef9096b65d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 37/47] fix: golden_section_search ignored the maximum number
 of iterations

---
 TooN/optimization/golden_section.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index db62ed7..4c013bd 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -82,6 +82,7 @@ namespace TooN
 		int itnum = 1; //We've already done one iteration.
 		while(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)
 		{
+			itnum++;
 			if(fx1 > fx2)
 			{
 				// Bracketing does:
-- 
2.43.0


From eb40f22dd90c6670d43a8a39f3c702dd95ff6bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 38/47] fix: ConjugateGradient aborted when two points of the
 line search had equal values

---
 TooN/optimization/conjugate_gradient.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index c148222..b1ebc71 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -114,8 +114,12 @@ namespace TooN{
 					break;
 				else
 				{
-					a = b;
-					a_val = b_val;
+					//Keep a where it is on a plateau, so that a_val > b_val
+					if(c_val < b_val)
+					{
+						a = b;
+						a_val = b_val;
+					}
 					b=c;
 					b_val=c_val;
 
-- 
2.43.0


From d8512baa1c003b5ceb3796a627722173b575cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 39/47] fix: ConjugateGradient aborted when the function
 decreases up to the edge of its domain

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index b1ebc71..4f8177c 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -349,7 +349,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 
 		//We should have a bracket here
 
-		if(c < b)
+		if(c_val <= b_val)
 		{
 			//Failed to bracket due to NaN, so c is the best known point.
 			//Simply go there.
-- 
2.43.0


From ebee2fa40f867967ae43b624cfb2f55499f077f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 40/47] fix: matrix exponential shifted out of range for norms
 above 2^30 and for the zero matrix

---
 TooN/helpers.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index a915a62..48755dd 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -328,11 +328,13 @@ namespace TooN {
 	/// @ingroup gLinAlg
 	template <int R, int C, typename P, typename B>
 	inline Matrix<R, C, P> exp( const Matrix<R,C,P,B> & m ){
-		using std::max;
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
 		const P l = log2(norm_inf(m));
-		const int s = max(0,(int)ceil(l));
-		Matrix<R,C,P> result = Internal::exp_taylor(m/(1<<s));
+		const int s = l > 0 ? (int)ceil(l) : 0;
+		P scale = 1;
+		for(int i = 0; i < s; ++i)
+			scale *= 2;
+		Matrix<R,C,P> result = Internal::exp_taylor(m/scale);
 		for(int i = 0; i < s; ++i)
 			result = result * result;
 		return result;
-- 
2.43.0


From 0fe54c09328489988c551fb6c573a3d6b59dd44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 41/47] fix: numerical_hessian differentiated away from the
 point along the axes done before

---
 TooN/functions/derivatives.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9749461..373d869 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -271,6 +271,10 @@ namespace TooN{
 				x[j] = v[j] - h;
 				double d = f(x);
 
+				//Later differences are along other axes
+				x[i] = v[i];
+				x[j] = v[j];
+
 				return (a-b-c+d) / (4*h*h);
 			}
 		};
-- 
2.43.0


From c964709d5ab311d69fc8aa83b70139041a7abd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 42/47] fix: SL::inverse compiled for the default precision
 only

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index ca7551a..cc22db1 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -99,7 +99,7 @@ public:
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
-		const Matrix<N> id = Identity;
+		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
 	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
-- 
2.43.0


From fdc5cf91d29053d1abb8fb45e1c3ebec6c1f5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 43/47] fix: product of SL elements of different precisions did
 not compile

---
 TooN/sl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index cc22db1..0a3d3c3 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -96,13 +96,16 @@ public:
 	/// @arg i number of the generator between 0 and SL::dim -1 inclusive
 	static inline Matrix<N,N,Precision> generator(int);
 
+	/// product of two elements of any precision
+	template <typename PA, typename PB>
+	SL( const SL<N,PA> & a, const SL<N,PB> & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
 		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
-	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
 
 	void coerce(){
 		using std::abs;
-- 
2.43.0


From 197e8f591518cdd7d49d5617aec262e065f739f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 44/47] fix: SL::ln accumulated the diagonal wrongly for
 matrices larger than 3x3

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 0a3d3c3..e988a1b 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -147,7 +147,7 @@ inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
 		v[i] = l(i,i) + last;
-		last = l(i,i);
+		last = v[i];
 	}
 	for(int i = DIAG_LIMIT, row = 0, col = 1; i < SYMM_LIMIT; ++i) {	// calculate symmetric and antisymmetric in one go
 		// do the right thing here to calculate the correct indices !
-- 
2.43.0


From 1b94410bbbac3089e77929dfcb0a63a147820523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 45/47] fix: SL of a matrix with negative determinant and an
 odd number of rows was NaN

---
 TooN/sl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index e988a1b..5fabe58 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -112,7 +112,11 @@ private:
 		Precision det = determinant(my_matrix);
 		assert(abs(det) > 0);
         using std::pow;
-		my_matrix /= pow(det, 1.0/N);
+		//A negative determinant has a real root if N is odd
+		if(det < 0 && N % 2 == 1)
+			my_matrix /= -pow(-det, 1.0/N);
+		else
+			my_matrix /= pow(det, 1.0/N);
 	}
 
 	/// these constants indicate which parts of the parameter vector 
-- 
2.43.0


From 81c36529b71cd8c5d6d0a3336d53d94e3807fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 46/47] fix: GR_SVD pseudo inverse and backsub compiled for the
 default precision only

---
 TooN/GR_SVD.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index dedff91..ff65b2a 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -77,7 +77,7 @@ namespace TooN
     ///otherwise 0 is returned.
     ///@param inv_diag Vector in which to return the inverse diagonal.
     ///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-    void get_inv_diag(Vector<N>& inv_diag, const Precision condition)
+    void get_inv_diag(Vector<N, Precision>& inv_diag, const Precision condition)
     {
       Precision dMax = get_largest_singular_value();
       for(int i=0; i<N; ++i)
-- 
2.43.0


From 8211cd2addc8416626f8fc180eec9af338e8f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:14 +0000
Subject: [PATCH 47/47] fix: SymEigen<3> was NaN if the eigenvector of a simple
 eigenvalue had equal elements and the others were equal

The vector to orthogonalise was a cyclic permutation of the eigenvector,
which is parallel to it for (1,1,1), for instance for a matrix of ones.
---
 TooN/SymEigen.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index c41ca5f..0a29dc6 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -147,6 +147,7 @@ namespace Internal{
 		template<typename P, typename B>
 		static inline void compute(const Matrix<3,3,P,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
             //method uses closed form solution of cubic equation to obtain roots of characteristic equation.
+            using std::abs;
             using std::sqrt;
             using std::min;
             using std::swap;
@@ -328,8 +329,14 @@ namespace Internal{
 				{
 					normalize(eig[is[2]]);
 					
-					//Permute vector to get a new vector with some orthogonal components.
-					Vector<3> p = makeVector(eig[is[2]][1], eig[is[2]][2], eig[is[2]][0]);
+					//The axis along which the vector is shortest is never parallel to it.
+					//(A permutation of the elements is, if they are all equal.)
+					int axis = 0;
+					for(int i=1; i < 3; i++)
+						if(abs(eig[is[2]][i]) < abs(eig[is[2]][axis]))
+							axis = i;
+					Vector<3> p = Zeros;
+					p[axis] = 1;
 
 					//Gram-Schmit
 					Vector<3> v1 = unit(p - eig[is[2]] * (p * eig[is[2]]));
-- 
2.43.0

