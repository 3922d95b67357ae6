From a2c4bf3da00f274490556b1ae40cc330c74379dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:21 +0000
Subject: [PATCH 001/235] fix: composing rotations about one axis must not
 discard small angles

The cosine of an angle below about 1e-8 rounds to 1, so the product was
replaced by the identity although its sine was not zero.
---
 Merlin++/AxisRotations.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/AxisRotations.cpp b/Merlin++/AxisRotations.cpp
index 8367c0c..2110600 100644
--- a/Merlin++/AxisRotations.cpp
+++ b/Merlin++/AxisRotations.cpp
@@ -38,13 +38,13 @@ Rot3Drep* RotationX::dot(const Rot3Drep& r) const
 Rot3Drep* RotationX::dotBy(const RotationX& rx) const
 {
 	double ncos = cosine() * rx.cosine() - sine() * rx.sine();
-	if(ncos == 1)
+	double nsin = sine() * rx.cosine() + cosine() * rx.sine();
+	if(ncos == 1 && nsin == 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * rx.cosine() + cosine() * rx.sine();
 		return new RotationX(ncos, nsin);
 	}
 }
@@ -124,13 +124,13 @@ Rot3Drep* RotationY::dotBy(const RotationX& rx) const
 Rot3Drep* RotationY::dotBy(const RotationY& ry) const
 {
 	double ncos = cosine() * ry.cosine() - sine() * ry.sine();
-	if(ncos == 1)
+	double nsin = sine() * ry.cosine() + cosine() * ry.sine();
+	if(ncos == 1 && nsin == 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * ry.cosine() + cosine() * ry.sine();
 		return new RotationY(ncos, nsin);
 	}
 }
@@ -210,13 +210,13 @@ Rot3Drep* RotationZ::dotBy(const RotationY& ry) const
 Rot3Drep* RotationZ::dotBy(const RotationZ& rz) const
 {
 	double ncos = cosine() * rz.cosine() - sine() * rz.sine();
-	if(ncos == 1)
+	double nsin = sine() * rz.cosine() + cosine() * rz.sine();
+	if(ncos == 1 && nsin == 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * rz.cosine() + cosine() * rz.sine();
 		return new RotationZ(ncos, nsin);
 	}
 }
-- 
2.43.0


From 969f13f09ce01ae28f3a49f0b2928a6fdcc2cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:21 +0000
Subject: [PATCH 002/235] fix: GeneralRotation::isIdentity must look at the
 off-diagonal elements

For small angles the diagonal rounds to 1 and the rotation was taken for
the identity.
---
 Merlin++/GeneralRotation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/GeneralRotation.cpp b/Merlin++/GeneralRotation.cpp
index 9278c79..76644d1 100644
--- a/Merlin++/GeneralRotation.cpp
+++ b/Merlin++/GeneralRotation.cpp
@@ -193,7 +193,9 @@ RotationType GeneralRotation::type() const
 
 bool GeneralRotation::isIdentity() const
 {
-	return m(0, 0) == 1.0 && m(1, 1) == 1.0 && m(2, 2) == 1.0;
+	return m(0, 0) == 1.0 && m(1, 1) == 1.0 && m(2, 2) == 1.0
+	       && m(0, 1) == 0.0 && m(0, 2) == 0.0 && m(1, 0) == 0.0
+	       && m(1, 2) == 0.0 && m(2, 0) == 0.0 && m(2, 1) == 0.0;
 }
 
 bool GeneralRotation::isXrot() const
-- 
2.43.0


From 72dd515c72c35dc75d5dfcf62f4ff602663afab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:21 +0000
Subject: [PATCH 003/235] fix: a 2D rotation by pi is not the identity

---
 Merlin++/Transform2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Transform2D.h b/Merlin++/Transform2D.h
index 3a19520..45e36e5 100644
--- a/Merlin++/Transform2D.h
+++ b/Merlin++/Transform2D.h
@@ -76,7 +76,7 @@ public:
 	 */
 	bool isIdentity() const
 	{
-		return fequal(sina, 0.0);
+		return fequal(sina, 0.0) && cosa > 0;
 	}
 
 	/**
-- 
2.43.0


From 1203b5d95845624a44d9cbe40b923079f7c07106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 004/235] fix: Transformable::operator= read its own deleted
 transform on self-assignment

---
 Merlin++/Transformable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/Transformable.h b/Merlin++/Transformable.h
index a8ac90b..830b288 100644
--- a/Merlin++/Transformable.h
+++ b/Merlin++/Transformable.h
@@ -106,11 +106,11 @@ protected:
 	 */
 	Transformable& operator=(const Transformable& rhs)
 	{
-		if(local_T)
+		if(this != &rhs)
 		{
 			delete local_T;
+			local_T = rhs.local_T ? new Transform3D(*rhs.local_T) : nullptr;
 		}
-		local_T = rhs.local_T ? new Transform3D(*rhs.local_T) : nullptr;
 		return *this;
 	}
 };
-- 
2.43.0


From 8181f97d9b7c30f944bccdf5092db47946e72180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 005/235] fix: Vector - scalar added the scalar

---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index b619aa8..9962aac 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -474,7 +474,7 @@ template<class T>
 Vector<T> operator-(const Vector<T>& v, T s)
 {
 	Vector<T> rv(v);
-	return rv += s;
+	return rv -= s;
 }
 
 template<class T>
-- 
2.43.0


From 98ac3bccbbaa8f5ae166b955f42cb52caf9a41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 006/235] fix: matrix product must accept every pair with
 matching inner dimension

It required B to have the shape of the transpose of A.
---
 Merlin++/TMatrixLib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index 9962aac..40a7f1d 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -1463,7 +1463,7 @@ Matrix<T> operator*(T s, const Matrix<T>& A)
 template<class T>
 Matrix<T> operator*(const Matrix<T>& A, const Matrix<T> B)
 {
-	equal_dimension(A.dim(), swap(B.dim()));
+	equal_length(A.ncols(), B.nrows());
 	Matrix<T> C(A.nrows(), B.ncols(), T(0));
 	tblas3::tgemm(false, false, T(1), A, B, T(1), C);
 	return C;
-- 
2.43.0


From 9a636f2a7a2664348518b845248047b30e5c8255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 007/235] fix: printing a non-square matrix swapped rows and
 columns

---
 Merlin++/TMatrixLib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index 40a7f1d..eb18c6b 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -1484,9 +1484,9 @@ Vector<T> operator*(const Matrix<T>& M, const Vector<T> V)
 template<class T>
 std::ostream& operator<<(std::ostream& os, const Matrix<T>& M)
 {
-	for(size_t i = 0; i < M.ncols(); i++)
+	for(size_t i = 0; i < M.nrows(); i++)
 	{
-		for(size_t j = 0; j < M.nrows(); j++)
+		for(size_t j = 0; j < M.ncols(); j++)
 		{
 			os << M(i, j) << " ";
 		}
-- 
2.43.0


From b8f071ea83e674956d082091ad39be8d3cacb422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 008/235] fix: dot product of vectors of different lengths must
 be refused

---
 Merlin++/TMatrixLib.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index eb18c6b..19919f7 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -438,11 +438,13 @@ Vector<T> operator/(const Vector<T>& u, const Vector<T>& v)
 template<class T>
 T operator*(const Vector<T>& u, const Vector<T>& v)
 {
+	equal_length(u.size(), v.size());
 	return tblas1::tdot(u, v, T(0));
 }
 template<class T>
 T operator*(const SubVector<T>& u, const SubVector<T>& v) // RJB added
 {
+	equal_length(u.size(), v.size());
 	return tblas1::tdot(u, v, T(0));
 }
 
-- 
2.43.0


From 90440d62a5642268ef2fcf7aac16e9f6f3896a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 009/235] fix: LU factorisation wrote the pivots past the end
 of an empty vector

---
 Merlin++/TLASimp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 49d6d94..f94b82e 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -239,6 +239,7 @@ void LUfactor(Matrix<T>& M, std::vector<int>& pivot, T& sign)
 	const int n = M.ncols();
 
 	std::vector<T> scale(n);
+	pivot.resize(n);
 
 	sign = 1.0;
 	for(int i = 0; i < n; i++)
-- 
2.43.0


From 9ef1b9de080a8899699d7031c7dff0e275ff7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 010/235] fix: InvertMatrix did not compile (reference bound to
 a temporary)

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index f94b82e..f40067b 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -362,7 +362,7 @@ Matrix<T>& InvertMatrix(Matrix<T>& m)
 	LUMatrix<T> lu(m);
 	for(int i = 0; i < m.ncols(); i++)
 	{
-		SubVector<T>& col = m.column(i);
+		SubVector<T> col = m.column(i);
 		col = T(0);
 		col[i] = T(1);
 		lu(col);
-- 
2.43.0


From ce3a81be26ebc9f6a4a2804a0dc6dc0c10d74e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 011/235] fix: SVD asserted the opposite of the shape it can
 treat

---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index f40067b..bb8b731 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -420,7 +420,7 @@ template<class T> inline T SIGN(T a, T b)
 template<class T>
 void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 {
-	assert(M.nrows() <= M.ncols());
+	assert(M.nrows() >= M.ncols());
 	const int rmax = M.nrows() - 1;
 	const int cmax = M.ncols() - 1;
 
-- 
2.43.0


From db99d5dd8013941b747b73254d08fdb8a99bd131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 012/235] fix: SVDMatrix could not be made for a system with
 fewer rows than columns

---
 Merlin++/TLASimp.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index bb8b731..ae0f9d8 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -188,27 +188,34 @@ SVDMatrix<T>::SVDMatrix(const Matrix<T>& M, const Vector<T>& wts1, T threshold)
 template<class T>
 void SVDMatrix<T>::Init(const Matrix<T>& M, T threshold)
 {
-	if(M.nrows() < M.ncols())
-	{
-		u.redim(M.ncols(), M.ncols());
-		u(Range(0, M.nrows() - 1), Range(0, M.ncols() - 1)) = M;
-	}
-	else
-	{
-		u.copy(M);
-	}
-
 	// adjust for weights: multiply each column vector by wts
+	u.copy(M);
 	for(Subscript ir = 0; ir < u.ncols(); ir++)
 	{
 		u.column(ir) *= wts;
 	}
 
+	// an underdetermined system is padded with zeros
+	const Range rows(0, M.nrows() - 1);
+	const Range cols(0, M.ncols() - 1);
+	const bool padded = M.nrows() < M.ncols();
+	if(padded)
+	{
+		const Matrix<T> wM(u);
+		u.redim(M.ncols(), M.ncols());
+		u(rows, cols) = wM;
+	}
+
 	w.redim(u.ncols());
 	wflgs = std::vector<bool>(u.ncols(), true);
 
 	v.redim(u.ncols(), u.ncols());
 	SVD(u, w, v);
+	if(padded)
+	{
+		const Matrix<T> top = u(rows, cols);
+		u.copy(top);
+	}
 
 	T wmin = threshold != T(0) ? threshold * (*std::max_element(w.begin(), w.end())) : threshold;
 	int zerocount = 0;
-- 
2.43.0


From a77a640e01242daf31402f90850645f02d8d6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:24 +0000
Subject: [PATCH 013/235] fix: EigenSystem must not fail when its first guess
 is an exact eigenvalue

For uncoupled planes the guess is often exact to the last bit, and the
shifted matrix was then reported as singular.
---
 Merlin++/LinearAlgebra.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 0581992..2eeeb72 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <limits>
 #include <fstream>
 #include "LinearAlgebra.h"
 #include "MerlinException.h"
@@ -168,7 +169,17 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				}
 
 				ComplexMatrix minv(mp);
-				prox = Inverse(minv);
+				iter++;
+				try
+				{
+					prox = Inverse(minv);
+				}
+				catch(const TLAS::SingularMatrix&)
+				{
+					// lambda is an eigenvalue to the last bit: step off it
+					lambda *= 1.0 + 4 * std::numeric_limits<double>::epsilon();
+					continue;
+				}
 
 				ComplexVector y(6);
 				for(row = 0; row < 6; row++)
@@ -191,7 +202,6 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 
 				b = y / sqrt(ynorm);
 				lambda += 1.0 / ydotb;
-				iter++;
 			}
 			if(iter == maxiter)
 			{
-- 
2.43.0


From d416e6c867f4808f9b11938ee090b0b554a17a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 014/235] fix: SVD left a superdiagonal element in place when a
 singular value vanished

The rotation that cancels it must also update the element, and the sweep
ends when the rotated-out element is negligible.
---
 Merlin++/TLASimp.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index ae0f9d8..93ca341 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -573,7 +573,12 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				for(int i = L; i <= k; i++)
 				{
 					f0 = f1 * work[i];
-					if(!fequal(fabs(f0) + F2, F2))
+					work[i] = f2 * work[i];
+					if(fequal(fabs(f0) + F2, F2))
+					{
+						break;
+					}
+					else
 					{
 						F1 = V[i];
 						f3 = PYTHAG(f0, F1);
-- 
2.43.0


From dacaebc52433dc8d9ebaef738bc16e5105406227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:08 +0000
Subject: [PATCH 015/235] fix: PYTHAG of two tiny numbers is not zero

SVD divides by the result and filled up with NaN.
---
 Merlin++/TLASimp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 93ca341..9a4b530 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -408,7 +408,7 @@ inline T PYTHAG(T a, T b)
 		T c = b / a;
 		return a * sqrt(1 + c * c);
 	}
-	else if(!fequal(b, 0.0))
+	else if(b > T(0))
 	{
 		T c = a / b;
 		return b * sqrt(1 + c * c);
-- 
2.43.0


From 1c633bce39a98639f96225f5c68c35be03805554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:58 +0000
Subject: [PATCH 016/235] fix: EigenSystem normalised with y.y instead of
 conj(y).y

For a circular eigenvector (beta = 1, alpha = 0) y.y vanishes and the
result was NaN.
---
 Merlin++/LinearAlgebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 2eeeb72..5fd0d80 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -196,8 +196,8 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				Complex ydotb = 0.0;
 				for(n = 0; n < 6; n++)
 				{
-					ynorm += y(n) * y(n);
-					ydotb += y(n) * b(n);
+					ynorm += conj(y(n)) * y(n);
+					ydotb += conj(b(n)) * y(n);
 				}
 
 				b = y / sqrt(ynorm);
-- 
2.43.0


From 04ec566a17b3babf8f82a9ce223785e3f4106e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:10 +0000
Subject: [PATCH 017/235] fix: a copied RMap ended at the array of the map it
 was copied from

---
 Merlin++/RMap.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index ab94b73..9b1a4e4 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -68,6 +68,16 @@ public:
 		{
 			last = array;
 		}
+		LinearTermArray(const LinearTermArray& rhs)
+		{
+			last = std::copy(rhs.begin(), rhs.end(), array);
+		}
+		LinearTermArray& operator=(const LinearTermArray& rhs)
+		{
+			if(this != &rhs)
+				last = std::copy(rhs.begin(), rhs.end(), array);
+			return *this;
+		}
 		void push_back(const Rij& r)
 		{
 			*last = r;
-- 
2.43.0


From 83f476556ed0a41eb8a40168ecaf50364f5204fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:10 +0000
Subject: [PATCH 018/235] fix: solenoid RMap had its (3,2) term in (4,2) and no
 drift when the field is off

---
 Merlin++/TransportRMaps.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index d7ee41d..a1ee921 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -139,6 +139,11 @@ void SolR(double l, double ks, RMap& rs)
 		rs.AddTerm(1, 2) = 2. * sc / ks;
 		rs.AddTerm(3, 4) = 2. * sc / ks;
 	}
+	else
+	{
+		rs.AddTerm(1, 2) = l;
+		rs.AddTerm(3, 4) = l;
+	}
 
 	rs.AddTerm(1, 3) = sc;
 	rs.AddTerm(2, 4) = sc;
@@ -148,7 +153,7 @@ void SolR(double l, double ks, RMap& rs)
 	if(!fequal(theta, 0))
 	{
 		rs.AddTerm(1, 4) = 2. * s2 / ks;
-		rs.AddTerm(4, 2) = -2. * s2 / ks;
+		rs.AddTerm(3, 2) = -2. * s2 / ks;
 	}
 
 	rs.AddTerm(2, 1) = -ks * sc / 2;
-- 
2.43.0


From e782c14d08314c58f0ca48992e4afc3acbf79f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:10 +0000
Subject: [PATCH 019/235] fix: quadrupole, rotation and solenoid RMaps set ct
 and dp to zero

---
 Merlin++/TransportRMaps.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index a1ee921..7b03e35 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -19,6 +19,13 @@ inline double LogOnePlusX(double x)
 	return x * (1 - 0.5 * x);
 }
 
+// ct and dp are unchanged
+void LongitudinalIdentity(RMap& R)
+{
+	R.AddTerm(5, 5, 1.0);
+	R.AddTerm(6, 6, 1.0);
+}
+
 void SROT(double cosphi, double sinphi, RMap& R)
 {
 	R.AddTerm(1, 1, cosphi);
@@ -184,11 +191,13 @@ void Quadrupole(double length, double Kx, RMap& R)
 {
 	QR2(length, Kx, 0, R);
 	QR2(length, -Kx, 2, R);
+	LongitudinalIdentity(R);
 }
 
 void Srot(double cosphi, double sinphi, RMap& R)
 {
 	SROT(cosphi, sinphi, R);
+	LongitudinalIdentity(R);
 }
 
 void PoleFaceRot(double h, double theta, double fint, double hgap, RMap& R)
@@ -204,6 +213,7 @@ void PoleFaceRot(double h, double theta, double fint, double hgap, RMap& R)
 void Solenoid(double length, double K0, double K1, bool entrFringe, bool exitFringe, RMap& R)
 {
 	SolR(length, K0, R);
+	LongitudinalIdentity(R);
 }
 
 void TWRFCavity(double length, double g, double f, double phi, double E0, bool entr_field, bool exit_field, RMap& R)
-- 
2.43.0


From 10150264f6f59f6f48fcfb28de4551482a519e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 020/235] fix: RMap form of the RF cavities disagreed with the
 R2Map form

---
 Merlin++/TransportRMaps.cpp | 84 +++++++++----------------------------
 1 file changed, 19 insertions(+), 65 deletions(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 7b03e35..5b36970 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -26,6 +26,19 @@ void LongitudinalIdentity(RMap& R)
 	R.AddTerm(6, 6, 1.0);
 }
 
+// the same map in x and y
+void BothPlanes(const R2Map& R2, RMap& R)
+{
+	for(int i = 1; i <= 3; i += 2)
+	{
+		R.AddTerm(i, i, R2.r11);
+		R.AddTerm(i, i + 1, R2.r12);
+		R.AddTerm(i + 1, i, R2.r21);
+		R.AddTerm(i + 1, i + 1, R2.r22);
+	}
+	LongitudinalIdentity(R);
+}
+
 void SROT(double cosphi, double sinphi, RMap& R)
 {
 	R.AddTerm(1, 1, cosphi);
@@ -218,75 +231,16 @@ void Solenoid(double length, double K0, double K1, bool entrFringe, bool exitFri
 
 void TWRFCavity(double length, double g, double f, double phi, double E0, bool entr_field, bool exit_field, RMap& R)
 {
-
-	using namespace PhysicalConstants;
-
-	const double dE = length * g;
-	const double cosphi = cos(phi);
-	const double dEcosPhi = dE * cosphi;
-	const double E1 = E0 + dEcosPhi;
-	const double Er = E0 / E1;
-	const double logEr = LogOnePlusX(dEcosPhi / E0);
-
-	if(dEcosPhi == 0)
-	{
-		MakeIdentity(R);
-		R.AddTerm(1, 2) = R.AddTerm(3, 4) = length;
-	}
-	else
-	{
-		if(entr_field && !exit_field)
-		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
-			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.5 * g / E1;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er;
-		}
-		else if(!entr_field && exit_field)
-		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1;
-			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = 0.5 * g * cosphi / E1;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
-		}
-		else if(entr_field && exit_field)
-		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1 - 0.5 * logEr / cosphi;
-			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 1) = R.AddTerm(4, 3) = -0.25 * g * logEr / E1 / cosphi;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er * (1 + 0.5 * logEr / cosphi);
-		}
-		else   //no fringe fields
-		{
-			R.AddTerm(1, 1) = R.AddTerm(3, 3) = 1.0;
-			R.AddTerm(1, 2) = R.AddTerm(3, 4) = E0 * logEr / g / cosphi;
-			R.AddTerm(2, 2) = R.AddTerm(4, 4) = Er;
-		}
-	}
+	R2Map R2;
+	TWRFCavity(length, g, f, phi, E0, entr_field, exit_field, R2);
+	BothPlanes(R2, R);
 }
 
 void SWRFCavity(int ncells, double g, double f, double phi, double E0, RMap& R)
 {
-
-	using namespace PhysicalConstants;
-
-	double root2 = sqrt(2.0);
-	double root8 = sqrt(8.0);
-
-	double lambda = SpeedOfLight / f;
-	double length = ncells * lambda / 2;
-
-	double cosPhi = cos(phi);
-	double E1 = E0 + g * length * cosPhi;
-
-	double alpha = log(E1 / E0) / cosPhi / root8;
-	double cosAlpha = cos(alpha);
-	double sinAlpha = sin(alpha);
-
-	R.AddTerm(1, 1) = R.AddTerm(3, 3) = cosAlpha - root2 * cosPhi * sinAlpha;
-	R.AddTerm(1, 2) = R.AddTerm(3, 4) = root8 * E0 * sinAlpha / g;
-	R.AddTerm(2, 1) = R.AddTerm(4, 3) = -g * (2 + cos(2 * phi)) * sinAlpha / E1 / root8;
-	R.AddTerm(2, 2) = R.AddTerm(4, 4) = E0 * (cosAlpha + root2 * cosPhi * sinAlpha) / E1;
+	R2Map R2;
+	SWRFCavity(ncells, g, f, phi, E0, R2);
+	BothPlanes(R2, R);
 }
 
 // functions returning R2Map objects
-- 
2.43.0


From b3aca3291a8d3571cb50f094eb980bd173b16051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 021/235] fix: rescaling moments left the ct-dp correlation at
 the old momentum

---
 Merlin++/MatrixMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 7aef3fc..4350557 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -51,7 +51,7 @@ void RescaleMoments(double P0, double P1, PSmoments& S)
 	S[5] = ratio * (1 + S[5]) - 1.0;
 
 	// rescale momentum correlations
-	for(int i = 0; i < 4; i++)
+	for(int i = 0; i < 5; i++)
 	{
 		S(i, 5) *= ratio;
 	}
-- 
2.43.0


From 7b9fe836d83fa77127687e4a10f2f894f9a01ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 022/235] fix: linear maps of one or two planes zeroed the
 moments of the others

---
 Merlin++/MatrixMaps.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MatrixMaps.cpp b/Merlin++/MatrixMaps.cpp
index 4350557..2ffbc2a 100644
--- a/Merlin++/MatrixMaps.cpp
+++ b/Merlin++/MatrixMaps.cpp
@@ -12,8 +12,12 @@
 namespace
 {
 
-PSmoments& TransformMoments(PSmoments& S, const RealMatrix& R)
+PSmoments& TransformMoments(PSmoments& S, const RealMatrix& M)
 {
+	// planes the matrix does not cover are unchanged
+	RealMatrix R(IdentityMatrix(PS_LENGTH));
+	R(Range(0, M.nrows() - 1), Range(0, M.ncols() - 1)) = M;
+
 	PSmoments result; // initialised to zero
 	int i, j, k, l;
 	const int n = R.ncols();
-- 
2.43.0


From cd5460411cd60f464f55a15301d17c1d922ffb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 023/235] fix: equally spaced interpolation read past the table
 at its last node

---
 Merlin++/Interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index f3e4b34..4844217 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -238,7 +238,7 @@ double EqualSpacedData::ValueAt(double x, double* err)
 	}
 	else
 	{
-		n = (x - xmin) / dx;
+		n = std::min(size_t((x - xmin) / dx), yvals.size() - 2);
 	}
 
 	double m = (yvals[n + 1] - yvals[n]) / dx;
-- 
2.43.0


From 5a5d1932f3774503d532c410bf5368476ddd6a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 024/235] fix: interpolation of arrays filled a temporary and
 stayed empty

---
 Merlin++/Interpolation.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index 4844217..e19dd34 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -162,11 +162,8 @@ ArbSpacedData::ArbSpacedData(const vector<double>& xvals, const vector<double>&
 	 */
 }
 ArbSpacedData::ArbSpacedData(const double* xvals, const double* yvals, int n, int order) :
-	itsData()
+	ArbSpacedData(vector<double>(xvals, xvals + n), vector<double>(yvals, yvals + n), order)
 { // version for old style arrays
-	vector<double> X(xvals, xvals + n);
-	vector<double> Y(yvals, yvals + n);
-	ArbSpacedData(X, Y, order);
 }
 
 double ArbSpacedData::ValueAt(double x, double* err)
-- 
2.43.0


From 408f4aac7383f8ec56cfaf945a2e500215ce95bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 025/235] fix: high order interpolation missed the first and
 last nodes and read before its table

---
 Merlin++/Interpolation.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index e19dd34..9e9905c 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -191,8 +191,15 @@ double ArbSpacedData::ValueAt(double x, double* err)
 		iwant = min(iwant, Qsize - 2);
 		// cout<<" lastseen lo hi iwant "<<lastseenat<<" "<<lo<<" "<<hi<<" "<<iwant<<endl;
 		//for(int i=lo;i<=hi;i++) cout<<i<<" "<<evaluatepoly(x,Q[i])<<endl;
-		double v1 = evaluatepoly(x, Q[iwant]);
-		double v2 = evaluatepoly(x, Q[iwant + 1]);
+		// towards the ends of the table only use polynomials through the current node
+		int i1 = max(0, iwant);
+		int i2 = iwant + 1;
+		if(i1 + itsOrder < lastseenat)
+			i1 = i2;
+		if(i2 > lastseenat)
+			i2 = i1;
+		double v1 = evaluatepoly(x, Q[i1]);
+		double v2 = evaluatepoly(x, Q[i2]);
 		//cout<<" is "<<v1 <<" "<<v2<<endl;
 		if(err)
 			*err = abs(v1 - v2);  // give an error estimate iff one is asked for
-- 
2.43.0


From 83d796b1082f55945321b3544b8e4a7a68f2b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 026/235] fix: name patterns must look for their last literal
 at the end of the name

---
 Merlin++/StringPattern.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 7c2f62c..30b3b9e 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -83,6 +83,13 @@ bool StringPattern::Match(const std::string& s) const
 			return false;
 		}
 
+		if(allowFloat && !wcterm.second && i + 1 == patterns.end())
+		{
+			// nothing may follow the last literal, so look for it at the end
+			string::size_type m = (*i).length();
+			return s.length() - n >= m && s.compare(s.length() - m, m, *i) == 0;
+		}
+
 		if(allowFloat)
 		{
 			n = s.find(*i, n);
-- 
2.43.0


From 5e361b1dc450adb3d42a32f11a4495c49e239126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:49 +0000
Subject: [PATCH 027/235] fix: a bend with field index one had no dispersion

---
 Merlin++/TransportMatrix.cpp | 11 ++++++++++-
 Merlin++/TransportRMaps.cpp  | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index b457a4d..28fa642 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -109,7 +109,16 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 	// dispesions terms (only included if matrix is 6D)
 	if(R.nrows() == 6)
 	{
-		if(h && Kx)
+		if(h && Kx == 0)
+		{
+			const double phi = h * length;
+			R(0, 5) = phi * length / 2;
+			R(1, 5) = phi;
+			R(4, 5) = -phi * phi * length / 6;
+			R(4, 0) = -phi;
+			R(4, 1) = -phi * length / 2;
+		}
+		else if(h)
 		{
 			if(Kx > 0)
 			{
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 5b36970..5108659 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -103,7 +103,16 @@ void SBR(double length, double h, double Kx, RMap& R)
 	// vertical plane
 	QR2(length, Ky, 2, R);
 
-	if(h && Kx)
+	if(h && Kx == 0)
+	{
+		const double phi = h * length;
+		R.AddTerm(1, 6) = phi * length / 2;
+		R.AddTerm(2, 6) = phi;
+		R.AddTerm(5, 6) = -phi * phi * length / 6;
+		R.AddTerm(5, 1) = -phi;
+		R.AddTerm(5, 2) = -phi * length / 2;
+	}
+	else if(h)
 	{
 		if(Kx > 0)
 		{
-- 
2.43.0


From 34fec7612da8fa567d047270506532b2ea64e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:49 +0000
Subject: [PATCH 028/235] fix: solenoid matrix without field was not a drift

---
 Merlin++/TransportMatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 28fa642..445d0e4 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -170,8 +170,8 @@ void SolR(double l, double ks, RealMatrix& rs)
 
 	if(fequal(theta, 0.))
 	{
-		rs(0, 1) = 0;
-		rs(2, 3) = 0;
+		rs(0, 1) = l;
+		rs(2, 3) = l;
 	}
 	else
 	{
-- 
2.43.0


From 61f21e4e9edc5bc79fec8139b33426827baae853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:53 +0000
Subject: [PATCH 029/235] fix: high order interpolation jumped at every node

---
 Merlin++/Interpolation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index 9e9905c..39c8678 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -182,7 +182,7 @@ double ArbSpacedData::ValueAt(double x, double* err)
 		// n.b.  lastseenat is a data member and therefore preserved between calls
 		while(x > itsData[lastseenat].x)
 			lastseenat += 1;
-		while(x < itsData[lastseenat].x)
+		while(lastseenat > 0 && x <= itsData[lastseenat - 1].x)
 			lastseenat -= 1;
 		int lo = max(0, lastseenat - itsOrder);
 		int Qsize = Q.size();
@@ -191,12 +191,12 @@ double ArbSpacedData::ValueAt(double x, double* err)
 		iwant = min(iwant, Qsize - 2);
 		// cout<<" lastseen lo hi iwant "<<lastseenat<<" "<<lo<<" "<<hi<<" "<<iwant<<endl;
 		//for(int i=lo;i<=hi;i++) cout<<i<<" "<<evaluatepoly(x,Q[i])<<endl;
-		// towards the ends of the table only use polynomials through the current node
+		// towards the ends of the table only use polynomials through the nodes either side of x
 		int i1 = max(0, iwant);
 		int i2 = iwant + 1;
 		if(i1 + itsOrder < lastseenat)
 			i1 = i2;
-		if(i2 > lastseenat)
+		if(i2 > max(0, lastseenat - 1))
 			i2 = i1;
 		double v1 = evaluatepoly(x, Q[i1]);
 		double v2 = evaluatepoly(x, Q[i2]);
-- 
2.43.0


From a86cfaae7db90c72481e6cd9b7a50b71407241a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 030/235] fix: a written PSvector ran its dp and id together
 and could not be read back

---
 Merlin++/PSvector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PSvector.cpp b/Merlin++/PSvector.cpp
index 36d8beb..16e64ba 100644
--- a/Merlin++/PSvector.cpp
+++ b/Merlin++/PSvector.cpp
@@ -17,7 +17,7 @@ ostream& operator<<(ostream& os, const PSvector& v)
 		os << setw(24) << scientific << setprecision(10) << v[i];
 	}
 
-	os << v.pid;
+	os << ' ' << v.pid;
 	return os << '\n';
 }
 
-- 
2.43.0


From b17ac62e80ad17e4009ea430550473d781ff8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 031/235] fix: ArcGeometry of zero curvature gives NaN
 transforms; cancellation in the sagitta of weak arcs

---
 Merlin++/ArcGeometry.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/Merlin++/ArcGeometry.cpp b/Merlin++/ArcGeometry.cpp
index 752ea47..51b1f4f 100644
--- a/Merlin++/ArcGeometry.cpp
+++ b/Merlin++/ArcGeometry.cpp
@@ -10,9 +10,15 @@
 namespace
 {
 
-inline Transform3D MakeTransform(double phi, double h)
+inline Transform3D MakeTransform(double s, double h)
 {
-	return Transform3D(Point3D((cos(phi) - 1) / h, 0, sin(phi) / h), Rotation3D::rotationY(-phi));
+	if(h == 0)
+	{
+		return Transform3D::translation(0, 0, s);
+	}
+	double phi = s * h;
+	double s2 = sin(phi / 2);
+	return Transform3D(Point3D(-2 * s2 * s2 / h, 0, sin(phi) / h), Rotation3D::rotationY(-phi));
 }
 
 } // end anonymous namespace
@@ -20,16 +26,16 @@ inline Transform3D MakeTransform(double phi, double h)
 Transform3D ArcGeometry::GetGeometryTransform(double s0, double s) const
 {
 	CheckBounds(s, s0);
-	return MakeTransform((s - s0) * h, h);
+	return MakeTransform(s - s0, h);
 }
 
 Transform3D ArcGeometry::GetGeometryTransform(BoundaryPlane p) const
 {
-	double phi = p == entrance ? -GetAngle() / 2 : GetAngle() / 2;
-	return MakeTransform(phi, h);
+	double s = p == entrance ? -len / 2 : len / 2;
+	return MakeTransform(s, h);
 }
 
 Transform3D ArcGeometry::GetTotalGeometryTransform() const
 {
-	return MakeTransform(GetAngle(), h);
+	return MakeTransform(len, h);
 }
-- 
2.43.0


From 96f2d81920829cb5028e76dd627aa81eaa96e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:31 +0000
Subject: [PATCH 032/235] fix: SequenceFrame geometry: backward transform
 inside one sub-frame not inverted, rounding in long sequences ran past the
 last frame

---
 Merlin++/SequenceFrame.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b409833..5eb357c 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -276,54 +276,62 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 		std::swap(s, s0);
 	}
 
+	// Subtracting the lengths of the sub-frames one by one accumulates
+	// rounding errors, so positions this close to an exit plane are on it.
+	const double tol = 1e-12 * (len_t > 1 ? len_t : 1);
+
+	SequenceFrame::FrameList::const_iterator last = theFrameList->end();
+	--last;
+
 	SequenceFrame::FrameList::const_iterator fi = theFrameList->begin();
 	double l = 0;
 
 	// First identify in which sub-frame s0 is
-	for(; fi != theFrameList->end(); fi++)
+	for(;; fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s0, l) || s0 < l)
+		if(s0 <= l + tol || fi == last)
 		{
 			break;
 		}
 		s0 -= l;
 		s -= l;
 	}
-
-	assert(fi != theFrameList->end());
+	s0 = std::min(std::max(s0, 0.0), l);
 
 	// s0 is now the distance from the entrance plane of *fi
 	// to the requested starting point.
+
 	// Now check if s is also within this frame. If so,
 	// return the local transform
 	Extent ext = (*fi)->GetLocalGeometryExtent();
-	if(fequal(s, l) || s < l)
+
+	Transform3D t;
+	if(s <= l + tol || fi == last)
 	{
-		return (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		s = std::min(std::max(s, s0), l);
+		t = (*fi)->GetGeometryTransform(std::min(ext.first + s0, ext.second), std::min(ext.first + s, ext.second));
+		return inv_t ? t.inv() : t;
 	}
 
-	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
+	t = (*fi)->GetGeometryTransform(std::min(ext.first + s0, ext.second), ext.second);
 	s -= l;
 	fi++;
-
-	for(; fi != theFrameList->end(); fi++)
+	for(;; fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s, l) || s < l)
+		if(s <= l + tol || fi == last)
 		{
 			break;
 		}
 		t = ((*fi)->GetTotalGeometryTransform()) * t;
 		s -= l;
 	}
-
-	assert(fi != theFrameList->end());
+	s = std::min(std::max(s, 0.0), l);
 
 	// s is now the distance from the entrance plane of the *fi
-
 	ext = (*fi)->GetLocalGeometryExtent();
-	t = ((*fi)->GetGeometryTransform(ext.first, ext.first + s)) * t;
+	t = ((*fi)->GetGeometryTransform(ext.first, std::min(ext.first + s, ext.second))) * t;
 
 	return inv_t ? t.inv() : t;
 }
-- 
2.43.0


From 7072dae85d5586cd1f478666d8ea04d25a3a42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:31 +0000
Subject: [PATCH 033/235] fix: SequenceFrame geometry: centre of an asymmetric
 sequence taken at the mirrored point of its middle element

---
 Merlin++/SequenceFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 5eb357c..e51338d 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -434,7 +434,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.first + s - s0;
+			double s1 = ext.second - (s - s0);
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From a0b29bf128d8fc82d41903f9f19044f75de93347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 034/235] fix: SequenceFrame geometry: empty sequence and
 unconsolidated sequence dereferenced invalid pointers

---
 Merlin++/SequenceFrame.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index e51338d..c5a550d 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -338,6 +338,11 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 
 Transform3D SequenceGeometry::GetGeometryTransform(BoundaryPlane p) const
 {
+	if(!t_cache)
+	{
+		Extent ext = GetGeometryExtent();
+		return GetGeometryTransform(0, p == entrance ? ext.first : ext.second);
+	}
 	return p == entrance ? t_cache->t_in : t_cache->t_out;
 }
 
@@ -442,7 +447,12 @@ void SequenceGeometry::CalculateCentreCT()
 		}
 	}
 
-	assert(fi != theFrameList->end());
+	if(fi == theFrameList->end())
+	{
+		// no sub-frames at all
+		t_cache->t_in = t_cache->t_out = Transform3D();
+		return;
+	}
 	fi++;
 
 	for(; fi != theFrameList->end(); fi++)
-- 
2.43.0


From 2216834074586f97cae70eb8a912bc5df16825ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 035/235] fix: copies of sequence, component, support and mover
 frames had uninitialised or missing geometry

---
 Merlin++/ComponentFrame.h     | 1 +
 Merlin++/MagnetMover.cpp      | 4 +---
 Merlin++/SequenceFrame.cpp    | 9 +++++----
 Merlin++/SupportStructure.cpp | 9 ++++-----
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/Merlin++/ComponentFrame.h b/Merlin++/ComponentFrame.h
index 2a26278..65ace68 100644
--- a/Merlin++/ComponentFrame.h
+++ b/Merlin++/ComponentFrame.h
@@ -122,6 +122,7 @@ inline ComponentFrame::ComponentFrame(AcceleratorComponent& ac, const string& id
 inline ComponentFrame::ComponentFrame(const ComponentFrame& rhs) :
 	LatticeFrame(rhs), theComponent(rhs.theComponent), blI(0)
 {
+	SetGeometry(rhs.GetGeometry());
 }
 
 inline ComponentFrame::ComponentFrame(AcceleratorComponent* ac, const string& id) :
diff --git a/Merlin++/MagnetMover.cpp b/Merlin++/MagnetMover.cpp
index da935ca..72c18e9 100644
--- a/Merlin++/MagnetMover.cpp
+++ b/Merlin++/MagnetMover.cpp
@@ -14,9 +14,7 @@ const std::string& MagnetMover::GetType() const
 
 ModelElement* MagnetMover::Copy() const
 {
-	// Not sure what to do here!
-	assert(false);
-	return nullptr;
+	return new MagnetMover(*this);
 }
 
 Transform3D MagnetMover::GetLocalFrameTransform() const
diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index c5a550d..5d91bec 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -25,7 +25,7 @@ public:
 	SequenceGeometry(SequenceFrame::FrameList* frames, SequenceFrame::Origin origin);
 
 	//	Copy constructor.
-	SequenceGeometry(const SequenceGeometry& rhs);
+	SequenceGeometry(const SequenceGeometry& rhs, SequenceFrame::FrameList* frames);
 
 	~SequenceGeometry();
 
@@ -106,7 +106,7 @@ SequenceFrame::SequenceFrame(const string& id, Origin originLoc) :
 SequenceFrame::SequenceFrame(const SequenceFrame& rhs) :
 	LatticeFrame(rhs)
 {
-	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom));
+	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom), &subFrames);
 	SetGeometry(itsSeqGeom);
 	CopySubFrames(rhs.subFrames);
 }
@@ -229,8 +229,9 @@ bool SequenceFrame::IsBoundaryPlane(BoundaryPlane p, const LatticeFrame* aSubFra
 	}
 }
 
-SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs) :
-	AcceleratorGeometry()
+SequenceGeometry::SequenceGeometry(const SequenceGeometry& rhs, SequenceFrame::FrameList* frames) :
+	AcceleratorGeometry(), len_t(rhs.len_t), theFrameList(frames), omode(rhs.omode),
+	t_cache(rhs.t_cache ? new TCache(*rhs.t_cache) : nullptr)
 {
 }
 
diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 2709176..843e7d0 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -19,11 +19,10 @@ SupportStructure::SupportStructure(const string& id, Type type) :
 SupportStructure::SupportStructure(const SupportStructure& rhs) :
 	SequenceFrame(rhs)
 {
-	sup1 = new AcceleratorSupport();
-	if(rhs.sup2)
-	{
-		sup2 = new AcceleratorSupport();
-	}
+	sup1 = new AcceleratorSupport(*rhs.sup1);
+	sup2 = rhs.sup2 ? new AcceleratorSupport(*rhs.sup2) : nullptr;
+	Rg = rhs.Rg;
+	Ts = rhs.Ts;
 }
 
 SupportStructure::~SupportStructure()
-- 
2.43.0


From f3832a22a31bf85740ca25433c05284e10b314dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 036/235] fix: SequenceFrame::ReplaceSubFrame did not replace
 the sub-frame

---
 Merlin++/SequenceFrame.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 5d91bec..1986d37 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -188,6 +188,7 @@ bool SequenceFrame::ReplaceSubFrame(LatticeFrame* subFrame, LatticeFrame* newSub
 	FrameList::iterator fi = std::find(subFrames.begin(), subFrames.end(), subFrame);
 	if(fi != subFrames.end())
 	{
+		*fi = newSubFrame;
 		*fi = newSubFrame;
 		newSubFrame->SetSuperFrame(this);
 		return true;
-- 
2.43.0


From 71e30fa82251209cec8531f3d717fd769ab85ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 037/235] fix: LatticeFrame::GetPosition with respect to itself
 dereferenced a null super-frame

---
 Merlin++/LatticeFrame.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/LatticeFrame.cpp b/Merlin++/LatticeFrame.cpp
index 0fb7826..1b7ac4f 100644
--- a/Merlin++/LatticeFrame.cpp
+++ b/Merlin++/LatticeFrame.cpp
@@ -64,6 +64,10 @@ Transform3D LatticeFrame::GetPhysicalTransform(const LatticeFrame* sframe) const
 double LatticeFrame::GetPosition(const LatticeFrame* sframe) const
 {
 	VALID_SFRAME(sframe);
+	if(sframe == this)
+	{
+		return 0;
+	}
 	return sframe == superFrame ? s_0 : s_0 + superFrame->GetPosition(sframe);
 }
 
-- 
2.43.0


From bda52e682a4fe54bb11fa77c2e6afc3986302f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 038/235] fix: girder ignored the motion of one support until
 the other one moved too

---
 Merlin++/SupportStructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 843e7d0..bf8be60 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -85,7 +85,7 @@ void SupportStructure::UpdateSupportTransform() const
 	// Check if cached state needs updating, otherwise
 	// return.
 
-	if(!sup1->modified || (sup2 && !sup2->modified))
+	if(!sup1->modified && !(sup2 && sup2->modified))
 	{
 		return;
 	}
-- 
2.43.0


From e6399f8dc93eba4f29bc5831613ae9d311aa0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:25 +0000
Subject: [PATCH 039/235] fix: sequence frames with origin at entrance or exit
 had identity as their total geometry transform

---
 Merlin++/SequenceFrame.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 1986d37..9eeecf2 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -393,16 +393,17 @@ double SequenceGeometry::GetGeometryLength() const
 
 void SequenceGeometry::CalculateCachedTransforms()
 {
-	// Set up cached transformations for efficiency
-	if(t_cache == nullptr)
-	{
-		t_cache = new TCache;
-	}
+	// Set up cached transformations for efficiency. No cache may be
+	// in place while they are calculated from the sub-frames.
+	delete t_cache;
+	t_cache = nullptr;
+	Transform3D t_total = GetTotalGeometryTransform();
+	t_cache = new TCache;
 
 	switch(omode)
 	{
 	case SequenceFrame::originAtEntrance:
-		t_cache->t_out = GetTotalGeometryTransform();
+		t_cache->t_out = t_total;
 		break;
 	case SequenceFrame::originAtCenter:
 		//		t_cache->t_in = GetGeometryTransform(0,-len_t/2);
@@ -410,7 +411,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 		CalculateCentreCT();
 		break;
 	case SequenceFrame::originAtExit:
-		t_cache->t_in = GetTotalGeometryTransform().inv();
+		t_cache->t_in = t_total.inv();
 		break;
 	}
 
-- 
2.43.0


From 7ced0d67c58a04e819b19eb5e479d251056242a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:17 +0000
Subject: [PATCH 040/235] fix: geometry patches at the exit of a sequence frame
 were left out of paths ending there

---
 Merlin++/SequenceFrame.cpp | 43 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 9eeecf2..e8abba5 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -282,6 +282,10 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	// rounding errors, so positions this close to an exit plane are on it.
 	const double tol = 1e-12 * (len_t > 1 ? len_t : 1);
 
+	// Frames of zero length (geometry patches) behind the last position belong
+	// to a path which ends at the exit plane of the sequence.
+	const bool to_exit = s >= len_t - tol;
+
 	SequenceFrame::FrameList::const_iterator last = theFrameList->end();
 	--last;
 
@@ -313,27 +317,36 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	{
 		s = std::min(std::max(s, s0), l);
 		t = (*fi)->GetGeometryTransform(std::min(ext.first + s0, ext.second), std::min(ext.first + s, ext.second));
-		return inv_t ? t.inv() : t;
 	}
-
-	t = (*fi)->GetGeometryTransform(std::min(ext.first + s0, ext.second), ext.second);
-	s -= l;
-	fi++;
-	for(;; fi++)
+	else
 	{
-		l = (*fi)->GetGeometryLength();
-		if(s <= l + tol || fi == last)
+		t = (*fi)->GetGeometryTransform(std::min(ext.first + s0, ext.second), ext.second);
+		s -= l;
+		fi++;
+		for(;; fi++)
 		{
-			break;
+			l = (*fi)->GetGeometryLength();
+			if(s <= l + tol || fi == last)
+			{
+				break;
+			}
+			t = ((*fi)->GetTotalGeometryTransform()) * t;
+			s -= l;
 		}
-		t = ((*fi)->GetTotalGeometryTransform()) * t;
-		s -= l;
+		s = std::min(std::max(s, 0.0), l);
+
+		// s is now the distance from the entrance plane of the *fi
+		ext = (*fi)->GetLocalGeometryExtent();
+		t = ((*fi)->GetGeometryTransform(ext.first, std::min(ext.first + s, ext.second))) * t;
 	}
-	s = std::min(std::max(s, 0.0), l);
 
-	// s is now the distance from the entrance plane of the *fi
-	ext = (*fi)->GetLocalGeometryExtent();
-	t = ((*fi)->GetGeometryTransform(ext.first, std::min(ext.first + s, ext.second))) * t;
+	if(to_exit)
+	{
+		for(fi++; fi != theFrameList->end(); fi++)
+		{
+			t = ((*fi)->GetTotalGeometryTransform()) * t;
+		}
+	}
 
 	return inv_t ? t.inv() : t;
 }
-- 
2.43.0


From a9c73468332db343098763a6af28405e07c5296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:04 +0000
Subject: [PATCH 041/235] fix: zero length sub-sequence with a geometry patch
 at the start of a path was left out of the transform

---
 Merlin++/SequenceFrame.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index e8abba5..82cfa3f 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -320,7 +320,9 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	}
 	else
 	{
-		t = (*fi)->GetGeometryTransform(std::min(ext.first + s0, ext.second), ext.second);
+		// a zero length sub-frame can have a transform from its entrance to its exit
+		t = s0 == 0 ? (*fi)->GetTotalGeometryTransform() :
+			(*fi)->GetGeometryTransform(std::min(ext.first + s0, ext.second), ext.second);
 		s -= l;
 		fi++;
 		for(;; fi++)
@@ -337,7 +339,8 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 
 		// s is now the distance from the entrance plane of the *fi
 		ext = (*fi)->GetLocalGeometryExtent();
-		t = ((*fi)->GetGeometryTransform(ext.first, std::min(ext.first + s, ext.second))) * t;
+		t = (s == l ? (*fi)->GetTotalGeometryTransform() :
+			(*fi)->GetGeometryTransform(ext.first, std::min(ext.first + s, ext.second))) * t;
 	}
 
 	if(to_exit)
-- 
2.43.0


From ca378f8688ebc1f65f3f52e4feb6af5d17e61734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 042/235] fix: a sub-frame at the end of a sequence could be
 refused as beyond its extent by rounding, positions outside were accepted if
 equal

---
 Merlin++/SequenceFrame.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 82cfa3f..14eed00 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -246,11 +246,6 @@ SequenceGeometry::~SequenceGeometry()
 
 Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 {
-	if(fequal(s, s0))
-	{
-		return Transform3D();
-	}
-
 	if(omode == SequenceFrame::originAtCenter)
 	{
 		s += len_t / 2;
@@ -262,11 +257,20 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 		s0 += len_t;
 	}
 
-	if(s < 0 || s > len_t || s0 < 0 || s0 > len_t)
+	// Positions are sums of sub-frame lengths: rounding errors must neither put the
+	// last frame outside of the sequence nor select the wrong sub-frame.
+	const double tol = 1e-12 * (len_t > 1 ? len_t : 1);
+
+	if(s < -tol || s > len_t + tol || s0 < -tol || s0 > len_t + tol)
 	{
 		throw BeyondExtent();
 	}
 
+	if(fequal(s, s0))
+	{
+		return Transform3D();
+	}
+
 	if(fequal(s0, 0) && fequal(s, len_t))
 	{
 		return GetTotalGeometryTransform();
@@ -278,10 +282,6 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 		std::swap(s, s0);
 	}
 
-	// Subtracting the lengths of the sub-frames one by one accumulates
-	// rounding errors, so positions this close to an exit plane are on it.
-	const double tol = 1e-12 * (len_t > 1 ? len_t : 1);
-
 	// Frames of zero length (geometry patches) behind the last position belong
 	// to a path which ends at the exit plane of the sequence.
 	const bool to_exit = s >= len_t - tol;
-- 
2.43.0


From e38076b5926bda610854498684b9e7a1506ca0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:55 +0000
Subject: [PATCH 043/235] fix: equal motion of both supports of a girder with a
 bend moved it in a rotated direction

---
 Merlin++/SupportStructure.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index bf8be60..34125bf 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -114,7 +114,9 @@ void SupportStructure::UpdateSupportTransform() const
 		// check to see if we have a simple translation
 		if(X1 == X2)
 		{
-			Ts = Transform3D::translation(X1.x, X1.y, X1.z);
+			// X1 has components along the axes of the entrance plane
+			Vector3D X = GetGeometryTransform(AcceleratorGeometry::entrance).R().inv() (X1);
+			Ts = Transform3D::translation(X.x, X.y, X.z);
 		}
 		else
 		{
-- 
2.43.0


From 879dde6218121c52cf5544c9188819a0d356c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 044/235] fix: ElementRepository::Find and Count used an
 uninitialised flag and returned arbitrary elements

---
 Merlin++/ElementRepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index b7ac8e2..1780757 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -21,7 +21,7 @@ struct MatchID
 public:
 
 	MatchID(const string& idpat, bool negate = false) :
-		pattern(idpat)
+		neg(negate), pattern(idpat)
 	{
 	}
 	bool operator()(const ModelElement* elmnt) const
-- 
2.43.0


From ed922f46af79b13178b9ad975549e66aac6ee98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 045/235] fix: ExtractModelElements appended to results instead
 of overwriting them

---
 Merlin++/AcceleratorModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0332148..dbba87a 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -196,6 +196,7 @@ int AcceleratorModel::ExtractComponents(const string& pat, vector<ComponentFrame
 
 int AcceleratorModel::ExtractModelElements(const string& pat, vector<ModelElement*>& results)
 {
+	results.clear();
 	return theElements->Find(pat, results);
 }
 
-- 
2.43.0


From 3f3d6111513a45e47a746068bd8e9e6dad9b7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 046/235] fix: AcceleratorModel accepted beamlines and rings
 starting outside of the lattice

---
 Merlin++/AcceleratorModel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index dbba87a..6fa886c 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -106,6 +106,10 @@ AcceleratorModel::~AcceleratorModel()
 
 AcceleratorModel::Beamline AcceleratorModel::GetBeamline()
 {
+	if(lattice.empty())
+	{
+		throw BadRange();
+	}
 	BeamlineIterator i = lattice.end();
 	advance(i, -1);
 	return Beamline(lattice.begin(), i, 0, lattice.size() - 1);
@@ -113,7 +117,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline()
 
 AcceleratorModel::Beamline AcceleratorModel::GetBeamline(AcceleratorModel::Index n1, AcceleratorModel::Index n2)
 {
-	if(n2 >= lattice.size())
+	if(n1 >= lattice.size() || n2 >= lattice.size())
 	{
 		throw BadRange();
 	}
@@ -160,6 +164,10 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline(const string& pat1, con
 
 AcceleratorModel::RingIterator AcceleratorModel::GetRing(int n)
 {
+	if(n < 0 || size_t(n) >= lattice.size())
+	{
+		throw BadRange();
+	}
 	BeamlineIterator i = lattice.begin();
 	advance(i, n);
 	return RingIterator(lattice, i);
@@ -167,6 +175,10 @@ AcceleratorModel::RingIterator AcceleratorModel::GetRing(int n)
 
 AcceleratorModel::Beamline AcceleratorModel::GetReversedBeamline()
 {
+	if(lattice.empty())
+	{
+		throw BadRange();
+	}
 	BeamlineIterator i = lattice.end();
 	advance(i, -1);
 	return Beamline(i, lattice.begin(), lattice.size() - 1, 0);
-- 
2.43.0


From dc49b161f8e4b0037e6bdd4ce9400278248baabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 047/235] fix: GetBeamline by patterns skipped elements
 matching both patterns

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 6fa886c..cb92909 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -147,7 +147,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline(const string& pat1, con
 			i1 = i;
 			ni1 = ni;
 		}
-		else if(nn2 < n2 && p2(id) && ++nn2 == n2)
+		if(nn2 < n2 && p2(id) && ++nn2 == n2)
 		{
 			i2 = i;
 			ni2 = ni;
-- 
2.43.0


From 51851cc0b56077a61a7dc4ad5e531f97c43ee237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 048/235] fix: ExtractComponents by pattern failed on lattices
 with geometry patches

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index cb92909..65fc1ea 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -34,7 +34,7 @@ struct MatchName
 	}
 	bool operator()(const ComponentFrame* frm)
 	{
-		return pattern((*frm).GetComponent().GetQualifiedName());
+		return (*frm).IsComponent() && pattern((*frm).GetComponent().GetQualifiedName());
 	}
 
 };
-- 
2.43.0


From 6c25ece1500bbd589c71f205af1dac7d4160756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 049/235] fix: ExtractTypedComponents matched the qualified
 frame name instead of the component name

---
 Merlin++/AcceleratorModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.h b/Merlin++/AcceleratorModel.h
index b17df3e..272dd6c 100644
--- a/Merlin++/AcceleratorModel.h
+++ b/Merlin++/AcceleratorModel.h
@@ -321,7 +321,7 @@ public:
 		for(BeamlineIterator i = lattice.begin(); i != lattice.end(); i++)
 		{
 			TComponentFrame<T>* cf = dynamic_cast<TComponentFrame<T>*>(*i);
-			if(cf && p(cf->GetName()))
+			if(cf && p(cf->GetComponent().GetName()))
 			{
 				results.push_back(cf);
 			}
-- 
2.43.0


From 83d326ac3bd6eadba9738e1c3ca53ebcd3cbee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:46 +0000
Subject: [PATCH 050/235] fix: appending a ready-made frame lost its geometry
 patches and gave its components no beamline index

---
 Merlin++/AcceleratorModelConstructor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index 36634ef..a5a8149 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -61,8 +61,12 @@ public:
 			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
 			if(cf)
 			{
-				erepo->Add(&(cf->GetComponent()));
+				if(cf->IsComponent())
+				{
+					erepo->Add(&(cf->GetComponent()));
+				}
 				lattice->push_back(cf);
+				cf->SetBeamlineIndex(lattice->size() - 1);
 			}
 		}
 		catch(bad_cast& b)
-- 
2.43.0


From 8299748c51a50181ccdf1269c0af708577631c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:46 +0000
Subject: [PATCH 051/235] fix: FindElementLatticePosition gave
 address-dependent positions for elements at one place and 0 for unknown ones

---
 Merlin++/AcceleratorModel.cpp | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 65fc1ea..0fc0d80 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -379,31 +379,15 @@ size_t AcceleratorModel::GetAcceleratorSupports(AcceleratorSupportList& supports
 	return eas.nFound;
 }
 
-static bool SortComponent(const AcceleratorComponent* first, const AcceleratorComponent* last)
-{
-	return first->GetComponentLatticePosition() < last->GetComponentLatticePosition();
-}
-
-static vector<AcceleratorComponent*> SortAcceleratorModel(AcceleratorModel* model)
-{
-	vector<AcceleratorComponent*> elements;
-
-	model->ExtractTypedElements(elements, "*");
-
-	sort(elements.begin(), elements.end(), SortComponent);
-	return elements;
-}
-
 int AcceleratorModel::FindElementLatticePosition(string RequestedElement)
 {
-	vector<AcceleratorComponent*> elements = SortAcceleratorModel(this);
-	size_t nelm = elements.size();
-	for(size_t n = 0; n < nelm; n++)
+	for(size_t n = 0; n < lattice.size(); n++)
 	{
-		if(elements[n]->GetName() == RequestedElement)
+		if(lattice[n]->IsComponent() && lattice[n]->GetComponent().GetName() == RequestedElement)
 		{
 			return n;
 		}
 	}
-	return 0;
+
+	throw MerlinException("FindElementLatticePosition: no element named " + RequestedElement);
 }
-- 
2.43.0


From 21d452537892a2d2b9e1f14529419d4e1e1e0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:46 +0000
Subject: [PATCH 052/235] fix: InstallModelElement used invalid iterators and
 left the new element outside of the frame hierarchy

---
 Merlin++/AcceleratorModel.cpp | 52 ++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0fc0d80..e4ba6f4 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -260,6 +260,10 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 
 	for(current_cf = lattice.begin(); current_cf < lattice.end(); current_cf++)
 	{
+		if(!(*current_cf)->IsComponent())
+		{
+			continue;
+		}
 		AcceleratorComponent* ac = &((*current_cf)->GetComponent());
 		s += ac->GetLength();
 		if(s > at)
@@ -300,19 +304,53 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	drift1->SetComponentLatticePosition(at - cut_len1);
 	drift2->SetComponentLatticePosition(at);
 	element->SetComponentLatticePosition(at);
-	c_drift1->SetLocalPosition(at - cut_len1);
-	c_drift2->SetLocalPosition(at);
-	c_element->SetLocalPosition(at);
+	// replace the existing drift, in the lattice as well as in the frame hierarchy
+	ComponentFrame* old_cf = *current_cf;
+	SequenceFrame* section = new SequenceFrame(current_name + "_split");
+	section->AppendFrame(*c_drift1);
+	section->AppendFrame(*c_element);
+	section->AppendFrame(*c_drift2);
+	section->SetLocalPosition(old_cf->GetLocalPosition());
+	LatticeFrame* super_frame = old_cf->SetSuperFrame(nullptr);
+	if(super_frame)
+	{
+		super_frame->ReplaceSubFrame(old_cf, section);
+	}
+	section->ConsolidateConstruction();
+	if(!old_cf->GetLocalFrameTransform().isIdentity())
+	{
+		section->SetLocalFrameTransform(old_cf->GetLocalFrameTransform());
+	}
 
-	// replace the existing drift
+	ComponentFrame* new_frames[] = {c_drift1, c_element, c_drift2};
 	auto insert_marker = lattice.erase(current_cf);
-	lattice.insert(insert_marker, c_drift2); // in reverse order
-	lattice.insert(insert_marker, c_element);
-	lattice.insert(insert_marker, c_drift1);
+	lattice.insert(insert_marker, new_frames, new_frames + 3);
+	for(size_t n = 0; n < lattice.size(); n++)
+	{
+		lattice[n]->SetBeamlineIndex(n);
+	}
 
+	theElements->Add(section);
 	theElements->Add(c_drift1);
 	theElements->Add(c_drift2);
 	theElements->Add(c_element);
+	theElements->Add(drift1);
+	theElements->Add(drift2);
+	theElements->Add(element);
+
+	// the old drift is no longer part of the model, unless it is used in another place
+	bool used = false;
+	for(size_t n = 0; n < lattice.size(); n++)
+	{
+		used = used || (lattice[n]->IsComponent() && &(lattice[n]->GetComponent()) == current_drift);
+	}
+	theElements->theElements.erase(old_cf);
+	delete old_cf;
+	if(!used)
+	{
+		theElements->theElements.erase(current_drift);
+		delete current_drift;
+	}
 }
 
 void AcceleratorModel::ReportModelStatistics(std::ostream& os) const
-- 
2.43.0


From 6c2948582c68720147f92197b46727ada95ca801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 053/235] fix: RemoveProcess corrupted the process table for
 unknown processes and did not report whether the process was present

---
 Merlin++/ProcessStepManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 892c14e..dffa006 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -173,8 +173,12 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
 {
 	proc_itor p = find(processTable.begin(), processTable.end(), aProcess);
-	p = processTable.erase(p);
-	return p != processTable.end();
+	if(p == processTable.end())
+	{
+		return false;
+	}
+	processTable.erase(p);
+	return true;
 }
 
 void ProcessStepManager::ClearProcesses()
-- 
2.43.0


From 509a797d2c8a587aefce315d41b4acba5c6d7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 054/235] fix: ComponentDivider missed step boundaries by
 rounding

---
 Merlin++/ComponentStepper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ComponentStepper.cpp b/Merlin++/ComponentStepper.cpp
index ac8fb82..f8b4c4e 100644
--- a/Merlin++/ComponentStepper.cpp
+++ b/Merlin++/ComponentStepper.cpp
@@ -37,8 +37,9 @@ void ComponentDivider::SetComponent(AcceleratorComponent& cmp)
 bool ComponentDivider::Increment(double ds)
 {
 	s += ds;
-	if(fequal(s, next_s))
+	if(fequal(s, next_s, 1e-9 * delta_s))
 	{
+		s = next_s;
 		next_s += delta_s;
 		return true;
 	}
-- 
2.43.0


From a43a24e011ff3ab99561457a8950674bf7f30ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:21 +0000
Subject: [PATCH 055/235] fix: rounding of accumulated steps caused a step
 backwards at the exit of an element

---
 Merlin++/ComponentIntegrator.h  | 4 ++--
 Merlin++/ProcessStepManager.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ComponentIntegrator.h b/Merlin++/ComponentIntegrator.h
index 1e8f60f..325d1db 100644
--- a/Merlin++/ComponentIntegrator.h
+++ b/Merlin++/ComponentIntegrator.h
@@ -161,7 +161,7 @@ inline double ComponentIntegrator::GetIntegratedLength() const
 inline double ComponentIntegrator::GetRemainingLength() const
 {
 	double s = tot_S - cur_S;
-	return fequal(s, 0) ? 0 : s;
+	return (s < 0 || fequal(s, 0)) ? 0 : s;
 }
 
 inline bool ComponentIntegrator::IsValidStep(double ds) const
@@ -194,7 +194,7 @@ inline bool ComponentIntegrator::AtEntrance() const
 
 inline bool ComponentIntegrator::AtExit(double s) const
 {
-	return fequal(s + cur_S, tot_S);
+	return s + cur_S > tot_S || fequal(s + cur_S, tot_S);
 }
 
 inline FloatRange ComponentIntegrator::GetValidStepRange() const
diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index dffa006..4870b1d 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -142,7 +142,7 @@ void ProcessStepManager::Track(AcceleratorComponent& component)
 		double ds = for_each(processTable.begin(), processTable.end(), CalcStepSize(sc - s)).ds;
 		for_each(processTable.begin(), processTable.end(), DoProc(s, ds, id, log));
 		s += ds;
-	} while(!fequal(sc, s));
+	} while(s < sc && !fequal(sc, s));
 
 	total_s += sc;
 }
-- 
2.43.0


From c8c82fca0fbe55b5a4d9df9f163f74b9a11f9806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:18 +0000
Subject: [PATCH 056/235] fix: stepping through a beamline ignored geometry
 patches and failed on frames without component

---
 Merlin++/TrackingSimulation.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 417e17b..bff2d59 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -271,7 +271,21 @@ bool TrackingSimulation::StepComponent()
 	{
 		bunch->ApplyTransformation(frame->GetEntrancePlaneTransform());
 	}
-	stepper.Track(frame->GetComponent());
+	if(const Transform3D* t = frame->GetEntranceGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+
+	if(frame->IsComponent())
+	{
+		stepper.Track(frame->GetComponent());
+	}
+
+	if(const Transform3D* t = frame->GetExitGeometryPatch())
+	{
+		bunch->ApplyTransformation(*t);
+	}
+
 	if(incX)
 	{
 		bunch->ApplyTransformation(frame->GetExitPlaneTransform());
-- 
2.43.0


From c89ebe31908be4cf07fe694ebf3f27eb363a04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:46 +0000
Subject: [PATCH 057/235] fix: stepping through a ring dereferenced a null
 stepper

---
 Merlin++/TrackingSimulation.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index bff2d59..4e34c5e 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -237,9 +237,8 @@ void TrackingSimulation::InitStepper(bool genNewBunch)
 		cstepper.reset(new BeamlineStepper(theBeamline.begin(), theBeamline.end()));
 	}
 	else
-	//		cstepper = new RingStepper(theRing,theRing);
 	{
-		cstepper.reset(nullptr);
+		cstepper.reset(new RingStepper(theRing, theRing));
 	}
 }
 
@@ -259,7 +258,7 @@ void TrackingSimulation::InitStepper(Bunch* aBunch)
 	}
 	else
 	{
-		cstepper.reset(nullptr);
+		cstepper.reset(new RingStepper(theRing, theRing));
 	}
 }
 
-- 
2.43.0


From 88aefaf6394da4a55579bc8846eea57895e2ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:46 +0000
Subject: [PATCH 058/235] fix: SimulationOutput flags were uninitialised

---
 Merlin++/TrackingSimulation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/TrackingSimulation.h b/Merlin++/TrackingSimulation.h
index 00c7abe..b7e9b62 100644
--- a/Merlin++/TrackingSimulation.h
+++ b/Merlin++/TrackingSimulation.h
@@ -38,9 +38,9 @@ public:
 	void AddIdentifier(const std::string& pattern, size_t nocc = 1);
 
 	// Public output flags
-	bool output_all;
-	bool output_initial;
-	bool output_final;
+	bool output_all = false;
+	bool output_initial = false;
+	bool output_final = false;
 
 protected:
 
-- 
2.43.0


From f6d52581b4acf95af6d07f9cbb0e84b18bed1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:46 +0000
Subject: [PATCH 059/235] fix: BunchTracker::GetTransportProcess used an
 uninitialised pointer

---
 Merlin++/TrackingSimulation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TrackingSimulation.h b/Merlin++/TrackingSimulation.h
index b7e9b62..8498036 100644
--- a/Merlin++/TrackingSimulation.h
+++ b/Merlin++/TrackingSimulation.h
@@ -286,7 +286,7 @@ public:
 	explicit BunchTracker(const AcceleratorModel::Beamline& bline) :
 		TrackingSimulation(bline)
 	{
-		AddProcess(new P());
+		AddProcess(transport = new P());
 	}
 
 	/**
@@ -296,7 +296,7 @@ public:
 	BunchTracker(const AcceleratorModel::Beamline& bline, bunch_type* bunch0) :
 		TrackingSimulation(bline)
 	{
-		AddProcess(new P());
+		AddProcess(transport = new P());
 		SetInitialBunchCtor(new StaticBunchCtor<bunch_type>(bunch0));
 	}
 
-- 
2.43.0


From c526e61063c380773d8fdb3829fd8d4a6d1a2a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:46 +0000
Subject: [PATCH 060/235] fix: the default marker integrator was cast to an
 integrator with bunch (write outside of the object)

---
 Merlin++/ComponentTracker.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ComponentTracker.h b/Merlin++/ComponentTracker.h
index 8766a56..cd29509 100644
--- a/Merlin++/ComponentTracker.h
+++ b/Merlin++/ComponentTracker.h
@@ -323,7 +323,10 @@ protected:
 	void InitialiseIntegrator(ComponentIntegrator* ci)
 	{
 		ComponentTracker::InitialiseIntegrator(ci);
-		static_cast<B_Integrator*>(ci)->SetBunch(*currentBunch);
+		if(B_Integrator* bi = dynamic_cast<B_Integrator*>(ci)) // the default marker integrator has no bunch
+		{
+			bi->SetBunch(*currentBunch);
+		}
 	}
 
 	_B* currentBunch;
-- 
2.43.0


From 08574dfc5329843c430b0b4f8eb210be812c725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 061/235] fix: collimator aperture shortcut accepts particles
 beyond jaws that close towards the exit

---
 Merlin++/CollimatorAperture.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 2ef3891..e035be7 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -11,7 +11,7 @@
 CollimatorAperture::CollimatorAperture(double w, double h, double t, double length, double x_off, double y_off) :
 	RectEllipseAperture(), alpha(t), CollimatorLength(length), x_offset_entry(x_off), y_offset_entry(y_off),
 	x_offset_exit(0), y_offset_exit(
-		0), w_entrance(w), h_entrance(h), w_exit(0), h_exit(0), cosalpha(cos(-t)), sinalpha(sin(-t))
+		0), w_entrance(w), h_entrance(h), w_exit(w), h_exit(h), cosalpha(cos(-t)), sinalpha(sin(-t))
 {
 	rectHalfX = w / 2;
 	rectHalfY = h / 2;
@@ -25,7 +25,7 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 	{
 		double ax = fabs(x);
 		double ay = fabs(y);
-		if(ax + ay < minDim)
+		if(ax + ay < fmin(minDim, fmin(w_exit, h_exit) / 2))
 			return true;
 	}
 	double x_off = (z * (x_offset_entry - x_offset_exit) / CollimatorLength) - x_offset_entry;
-- 
2.43.0


From 3cc8239e63f9555b928c9dcc45451e7141284aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 062/235] fix: setting the entrance width or height of a
 collimator aperture had no effect

---
 Merlin++/CollimatorAperture.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index e035be7..1c7c6c0 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -43,11 +43,15 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 void CollimatorAperture::SetEntranceWidth(double width)
 {
 	w_entrance = width;
+	rectHalfX = width / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetEntranceHeight(double height)
 {
 	h_entrance = height;
+	rectHalfY = height / 2;
+	minDim = fmin(rectHalfX, rectHalfY);
 }
 
 void CollimatorAperture::SetExitWidth(double width)
-- 
2.43.0


From 1a2f0961773190849efe62500fcfb3e8daa8c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 063/235] fix: interpolated rect-ellipse shortcut ignores the
 half width of the first entry

---
 Merlin++/InterpolatedApertures.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 75ba1bf..84fd9a9 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -101,7 +101,7 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 		}
 	}
 
-	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apFront.ap1, apBack.ap2, apBack.ap3,
+	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apBack.ap1, apBack.ap2, apBack.ap3,
 						 apBack.ap4});
 	if(ax + ay < minDim)
 	{
-- 
2.43.0


From 95a5911ad9eea601ab728e6399834aff0c60f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 064/235] fix: interpolated elliptical aperture ignores the
 vertical half axis

---
 Merlin++/InterpolatedApertures.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 84fd9a9..7a0a9af 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -325,11 +325,13 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
+			apBack.ap2 = ApList[n - 1].ap2;
 
 			apFront.s = ApList[n].s;
 			apFront.ap1 = ApList[n].ap1;
+			apFront.ap2 = ApList[n].ap2;
 
-			double minDim = min({apFront.ap1, apBack.ap1});
+			double minDim = min({apFront.ap1, apBack.ap1, apFront.ap2, apBack.ap2});
 			if(ax + ay < minDim)
 			{
 				return true;
@@ -373,7 +375,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap1 - (g2 * apFront.s);
+	double c2 = apFront.ap2 - (g2 * apFront.s);
 
 	double ellipse_half_horizontal = (g1 * z) + c1;
 	double ellipse_half_vertical = (g2 * z) + c2;
-- 
2.43.0


From c3aef8cd2d525b0ad7faaf161c74a4c83122913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 065/235] fix: interpolated apertures use uninitialised or
 undefined entries beyond their last entry and where two entries share a
 position

---
 Merlin++/InterpolatedApertures.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 7a0a9af..3b4fb3a 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -90,10 +90,14 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 	{
 		z = 0;
 	}
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	for(size_t n = 1; n < ApList.size(); ++n)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack = ApList[n - 1];
 			apFront = ApList[n];
@@ -206,11 +210,15 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 	{
 		z = 0;
 	}
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
@@ -317,11 +325,15 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 	{
 		z = 0;
 	}
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
@@ -433,10 +445,14 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	{
 		z = 0;
 	}
+	if(z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-		if(ApList[n].s >= z)
+		if(ApList[n].s >= z && ApList[n].s > ApList[n - 1].s)
 		{
 			apBack = ApList[n - 1];
 			apFront = ApList[n];
-- 
2.43.0


From 20bdab23076794824c47774dae91beebac63e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 066/235] fix: aperture configuration reads beyond the table
 for elements behind its last entry

---
 Merlin++/ApertureConfiguration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 173aec1..d15d576 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -76,6 +76,10 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				[](const auto a, const auto b){
 				return a.Get_d("S") < b;
 			});
+			if(this_ap == ApertureDataTable.end())
+			{
+				--this_ap;
+			}
 
 			aperture = ApertureFactory::GetInstance(*this_ap);
 			comp->SetAperture(aperture);
-- 
2.43.0


From e93ba8413b5436d1a17cdb7f04772b0f88b57c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 067/235] fix: aperture configuration drops the entry at the
 entrance of a drift when rounding puts it just upstream

---
 Merlin++/ApertureConfiguration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index d15d576..c788388 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -155,15 +155,15 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 					{
 						for(size_t row = 0; row < ThisElementAperture.Length(); ++row)
 						{
-							if(ThisElementAperture.Get_d("S", row) - Position < 0)
-							{
-								++negcount;
-							}
 							if(fequal(ThisElementAperture.Get_d("S", row) - Position, 0.0, 1e-7))
 							{
 								ThisElementAperture.Set("S", row, Position);
 								zeroentry = true;
 							}
+							if(ThisElementAperture.Get_d("S", row) - Position < 0)
+							{
+								++negcount;
+							}
 						}
 					}
 					if(negcount != 0 && zeroentry == true)
-- 
2.43.0


From e166eb09b161b2099e447d259fae79cfb1b932cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:46 +0000
Subject: [PATCH 068/235] fix: aperture entries taken from the other end of the
 machine keep their own position, so that the profile is not ordered

---
 Merlin++/ApertureConfiguration.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index c788388..56a97a9 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -62,6 +62,12 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 
 	Aperture* aperture;
 
+	double totalLength = 0;
+	for(auto &comp :Elements)
+	{
+		totalLength = max(totalLength, comp->GetComponentLatticePosition() + comp->GetLength());
+	}
+
 	for(auto &comp :Elements)
 	{
 		if(comp->GetAperture() != nullptr)
@@ -116,6 +122,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					//get initial point, interpolate from last point
 					ThisElementAperture.ApertureFromRow(*last_ap);
+					ThisElementAperture.Set("S", 0, (*last_ap).Get_d("S") - totalLength);
 				}
 				else
 				{
@@ -136,6 +143,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					this_ap = ApertureDataTable.begin();
 					ThisElementAperture.ApertureFromRow(*this_ap);
+					ThisElementAperture.Set("S", ThisElementAperture.Length() - 1, (*this_ap).Get_d("S") + totalLength);
 				}
 				else
 				{
-- 
2.43.0


From 4e7f2563a438c345ba8f3ddf588d4b4abfc23164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:49 +0000
Subject: [PATCH 069/235] fix: apertures of mixed type are interpolated with
 the type of the first entry instead of as rect-ellipse, rectangles as their
 inscribed ellipse

---
 Merlin++/ApertureConfiguration.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 56a97a9..e0d2d84 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -258,8 +258,8 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 							{
 								CleanElementAperture.Set("APER_1", row, CleanElementAperture.Get_d("APER_1", row));
 								CleanElementAperture.Set("APER_2", row, CleanElementAperture.Get_d("APER_2", row));
-								CleanElementAperture.Set("APER_3", row, CleanElementAperture.Get_d("APER_1", row));
-								CleanElementAperture.Set("APER_4", row, CleanElementAperture.Get_d("APER_2", row));
+								CleanElementAperture.Set("APER_3", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_1", row));
+								CleanElementAperture.Set("APER_4", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_2", row));
 							}
 							if(CleanElementAperture.Get_s("APERTYPE", row) == "OCTAGON")
 							{
@@ -278,6 +278,13 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 								<< endl;
 							exit(EXIT_FAILURE);
 						}
+						if(rectellipse)
+						{
+							for(size_t row = 0; row < CleanElementAperture.Length(); ++row)
+							{
+								CleanElementAperture.Set("APERTYPE", row, string("RECTELLIPSE"));
+							}
+						}
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
 						++noConfiguredApertures;
-- 
2.43.0


From 5f853289f1008a174f429a4409e4a8a0ea95c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:23 +0000
Subject: [PATCH 070/235] fix: a drift between apertures of different type but
 equal dimensions got the shape of the first one throughout

---
 Merlin++/ApertureConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index e0d2d84..851b4a9 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -210,7 +210,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 						typeChange = true;
 					}
 				}
-				if(interpolate)
+				if(interpolate || typeChange)
 				{
 					for(size_t row = 0; row < CleanElementAperture.Length(); ++row)
 					{
-- 
2.43.0


From fed3f0fa8bd6fbb8b07f560f45064fbc8300e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:37 +0000
Subject: [PATCH 071/235] fix: interpolation between aperture entries that
 coincide to rounding is dominated by cancellation

---
 Merlin++/InterpolatedApertures.cpp | 52 +++++++++++++++---------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 3b4fb3a..be7c3ca 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -123,16 +123,16 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 	double g3 = (apFront.ap3 - apBack.ap3) / delta_s;
 	double g4 = (apFront.ap4 - apBack.ap4) / delta_s;
 
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap2 - (g2 * apFront.s);
-	double c3 = apFront.ap3 - (g3 * apFront.s);
-	double c4 = apFront.ap4 - (g4 * apFront.s);
+	//c = y at the entry before
+	double c1 = apBack.ap1;
+	double c2 = apBack.ap2;
+	double c3 = apBack.ap3;
+	double c4 = apBack.ap4;
 
-	double rect_half_width = (g1 * z) + c1;
-	double rect_half_height = (g2 * z) + c2;
-	double ellipse_half_horizontal = (g3 * z) + c3;
-	double ellipse_half_vertical = (g4 * z) + c4;
+	double rect_half_width = (g1 * (z - apBack.s)) + c1;
+	double rect_half_height = (g2 * (z - apBack.s)) + c2;
+	double ellipse_half_horizontal = (g3 * (z - apBack.s)) + c3;
+	double ellipse_half_vertical = (g4 * (z - apBack.s)) + c4;
 
 	if(((x * x) / (ellipse_half_horizontal * ellipse_half_horizontal)) + ((y * y) / (ellipse_half_vertical
 		* ellipse_half_vertical)) > 1)
@@ -267,11 +267,11 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 	double delta_s = apFront.s - apBack.s;
 	double g = (apFront.ap1 - apBack.ap1) / delta_s;
 
-	//c = y - mx
-	double c = apFront.ap1 - (g * apFront.s);
+	//c = y at the entry before
+	double c = apBack.ap1;
 
 	//aper_3 = half horizontal axis ellipse (or radius if circle)
-	double r2 = pow((g * z) + c, 2);
+	double r2 = pow((g * (z - apBack.s)) + c, 2);
 
 	if((x * x + y * y < r2) == 0)
 	{
@@ -385,12 +385,12 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
 	double g2 = (apFront.ap2 - apBack.ap2) / delta_s;
 
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap2 - (g2 * apFront.s);
+	//c = y at the entry before
+	double c1 = apBack.ap1;
+	double c2 = apBack.ap2;
 
-	double ellipse_half_horizontal = (g1 * z) + c1;
-	double ellipse_half_vertical = (g2 * z) + c2;
+	double ellipse_half_horizontal = (g1 * (z - apBack.s)) + c1;
+	double ellipse_half_vertical = (g2 * (z - apBack.s)) + c2;
 
 	if(((x * x) / (ellipse_half_horizontal * ellipse_half_horizontal)) + ((y * y) / (ellipse_half_vertical
 		* ellipse_half_vertical)) > 1)
@@ -470,16 +470,16 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	double g3 = (apFront.ap3 - apBack.ap3) / delta_s;
 	double g4 = (apFront.ap4 - apBack.ap4) / delta_s;
 
-	//c = y - mx
-	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap2 - (g2 * apFront.s);
-	double c3 = apFront.ap3 - (g3 * apFront.s);
-	double c4 = apFront.ap4 - (g4 * apFront.s);
+	//c = y at the entry before
+	double c1 = apBack.ap1;
+	double c2 = apBack.ap2;
+	double c3 = apBack.ap3;
+	double c4 = apBack.ap4;
 
-	double hw = (g1 * z) + c1;
-	double hh = (g2 * z) + c2;
-	double angle1 = (g3 * z) + c3;
-	double angle2 = (g4 * z) + c4;
+	double hw = (g1 * (z - apBack.s)) + c1;
+	double hh = (g2 * (z - apBack.s)) + c2;
+	double angle1 = (g3 * (z - apBack.s)) + c3;
+	double angle2 = (g4 * (z - apBack.s)) + c4;
 
 	double tana1 = tan(angle1);
 	double tana2 = tan(pi / 2 - angle2);
-- 
2.43.0


From 6870fa65346cbd1dd3778734c75f7f1e8b62e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 072/235] fix: projected bunch moments were added to what the
 result object held before

---
 Merlin++/ParticleBunch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index e4bf2c9..535ca76 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -235,6 +235,7 @@ PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 PSmoments2D& ParticleBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
 	Point2D X = for_each(begin(), end(), APSV2(u, v, size())).X;
+	sigma.Zero();
 	sigma[0] = X.x;
 	sigma[1] = X.y;
 	for_each(begin(), end(), PSVVAR2(u, v, size(), sigma));
-- 
2.43.0


From 68ea2fb81df7f70f28d7848fd6bd9f2080d0c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 073/235] fix: SetCentroid missed the requested centroid by 1/N
 of the correction

---
 Merlin++/ParticleBunch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 535ca76..4906718 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -389,6 +389,11 @@ void ParticleBunch::SetCentroid()
 	PSvector x;
 	GetCentroid(x);
 	x -= FirstParticle();
+	// the zeroth particle stays where it is, so the others have to make up for it
+	if(size() > 1)
+	{
+		x *= double(size()) / (size() - 1);
+	}
 	for(PSvectorArray::iterator p = begin() + 1; p != end(); p++)
 	{
 		p->x() -= x.x();
-- 
2.43.0


From dccd64d167fb672e4377b119a1618cfd4f0270de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 074/235] fix: bunches were generated with the square root of
 the requested bunch length and momentum spread

---
 Merlin++/ParticleBunch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 4906718..81fb828 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -190,8 +190,8 @@ ParticleBunch::ParticleBunch(size_t np, const ParticleDistributionGenerator& gen
 		p.xp() *= sqrt(beam.emit_x);
 		p.y() *= sqrt(beam.emit_y);
 		p.yp() *= sqrt(beam.emit_y);
-		p.dp() *= sqrt(beam.sig_dp);
-		p.ct() *= sqrt(beam.sig_z);
+		p.dp() *= beam.sig_dp;
+		p.ct() *= beam.sig_z;
 
 		// Apply Courant-Snyder
 		M.Apply(p);
-- 
2.43.0


From 89312f4dd0c0984db10835fa73c1c5ac1ab44dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 075/235] fix: malformed or truncated lines of a bunch file
 became particles with left-over coordinates

---
 Merlin++/ParticleBunch.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 81fb828..8c616e5 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -15,6 +15,7 @@
 #include "ParticleDistributionGenerator.h"
 #include "BeamData.h"
 #include "BunchFilter.h"
+#include "MerlinException.h"
 
 #ifdef MERLIN_PROFILE
 #include "MerlinProfile.h"
@@ -370,12 +371,19 @@ void ParticleBunch::Input(double Q, std::istream& is)
 	string line;
 	while(getline(is, line))
 	{
-		if(line == "" || line[0] == '#')
+		if(line.find_first_not_of(" \t\r") == string::npos || line[0] == '#')
 		{
 			continue;
 		}
 		istringstream liness(line);
-		liness >> reftime >> refmom >> p;
+		if(!(liness >> reftime >> refmom >> p.x() >> p.xp() >> p.y() >> p.yp() >> p.ct() >> p.dp()))
+		{
+			throw MerlinException("ParticleBunch::Input(): malformed line '" + line + "'");
+		}
+		if(!(liness >> p.id()))
+		{
+			p.id() = 0;
+		}
 		push_back(p);
 
 		SetReferenceTime(reftime);
-- 
2.43.0


From e8406d33ca7d6ddb5cbd22ef5d4275d9869f575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 076/235] fix: particles were created with an uninitialised
 identity

---
 Merlin++/PSvector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/PSvector.h b/Merlin++/PSvector.h
index ed4074b..49946c2 100644
--- a/Merlin++/PSvector.h
+++ b/Merlin++/PSvector.h
@@ -32,11 +32,13 @@ class PSvector
 {
 public:
 
-	PSvector()
+	PSvector() :
+		pid(0)
 	{
 	}
 
-	explicit PSvector(double x)
+	explicit PSvector(double x) :
+		pid(0)
 	{
 		std::fill(v, v + PS_LENGTH, x);
 	}
-- 
2.43.0


From 88804e77d45df694e4e48248d17569d32ec4aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 077/235] fix: particle slicing aborted on particles between
 the rounded last bin edge and zmax

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b2e1d08..504ec5f 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -81,7 +81,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 
 	for(n = 0; n < nbins; n++)
 	{
-		z += dz;
+		z = (n + 1 == nbins) ? zmax : zmin + (n + 1) * dz;
 		while(p != bunch.end() && p->ct() < z)
 		{
 			total++;
-- 
2.43.0


From 9396f956afd7bd6b3255febc1e2f05aea385e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 078/235] fix: slope filter of the particle slices read outside
 of the filter coefficients

---
 Merlin++/ParticleBunchUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index 504ec5f..81f33e1 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -136,7 +136,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 		fbins[n] = hbins[n] * a;
 		if(c)
 			//for(m=std::max(0,int(n)-w); m<=std::max(nbins,int(n)+w); m++)// ERROR! m can be set to nbins -> out of range!
-			for(m = std::max(0, int(n) - w); m < std::max(nbins, size_t(n) + w); m++)   // This needs to be checked!
+			for(m = std::max(0, int(n) - w); m < std::min(nbins, size_t(n) + w + 1); m++)
 			{
 				fpbins[n] += hbins[m] * (*c)[m - n + w] * a;
 			}
-- 
2.43.0


From 688b673a03ae8e7ec789404f395538eb211cd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 079/235] fix: particle distribution wrote outside of the
 histogram in the last partial bin and at the upper limit

---
 Merlin++/ParticleBunchUtilities.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index 81f33e1..a97b3a9 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -160,7 +160,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, double umax, double du,
 	vector<double>& bins, bool normalise, bool truncate)
 {
-	size_t nb = (umax - umin) / du;
+	size_t nb = ceil((umax - umin) / du * (1 - 1e-12));
 	bins = vector<double>(nb, 0.0);
 	size_t np0 = bunch.size();
 
@@ -177,13 +177,16 @@ size_t ParticleBunchDistribution(ParticleBunch& bunch, PScoord u, double umin, d
 			if(truncate)
 			{
 				p = bunch.erase(p);
-				p--;
+				continue;
 			}
 		}
 		else
 		{
 			size_t n = (uval - umin) / du;
-			assert(n < nb);
+			if(n >= nb)
+			{
+				n = nb - 1;
+			}
 			bins[n]++;
 			total++;
 		}
-- 
2.43.0


From c134a6f3e4193ff33b522a5b238cedf11692000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:53 +0000
Subject: [PATCH 080/235] fix: beam data of an uncoupled round beam (equal
 emittances) became NaN

---
 Merlin++/NormalTransform.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 0961fc9..6c6ce92 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -154,6 +154,20 @@ RealMatrix DecoupleSigma(SigmaMatrix& S)
 
 	do
 	{
+		// nothing (left) to decouple: the equations below are undefined for equal emittances
+		bool coupled = false;
+		for(int i = 0; i < 2; i++)
+		{
+			for(int j = 2; j < 4; j++)
+			{
+				coupled = coupled || fabs(S(i, j)) > 1e-12 * sqrt(S(i, i) * S(j, j));
+			}
+		}
+		if(!coupled)
+		{
+			break;
+		}
+
 		double d = S(2, 2) * S(3, 3) - S(2, 3) * S(2, 3) - (S(0, 0) * S(1, 1) - S(0, 1) * S(0, 1));
 		c(0) = (-S(0, 1) * S(0, 3) + S(0, 0) * S(1, 3) - S(0, 3) * S(2, 3) + S(0, 2) * S(3, 3)) / d;
 		c(1) = (S(0, 1) * S(0, 2) - S(0, 0) * S(1, 2) + S(0, 3) * S(2, 2) - S(0, 2) * S(2, 3)) / d;
-- 
2.43.0


From eea8444cb90f18b4bf8d705907d33a4795845798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:10 +0000
Subject: [PATCH 081/235] fix: moments of macro-particle bunches were added to
 what the result object held before

---
 Merlin++/SMPBunch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 07868b5..343f219 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -79,6 +79,7 @@ double SMPBunch::GetTotalCharge() const
 PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	int i, j;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
@@ -104,6 +105,8 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 
 PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
+	sigma.Zero();
+	sigma[0] = sigma[1] = 0;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		const SliceMacroParticle& x = (*p);
-- 
2.43.0


From d2fa7685c3b4ab4ecc17a93999061945ae4fc33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:10 +0000
Subject: [PATCH 082/235] fix: adjusting the reference of a macro-particle
 bunch changed the absolute momentum and time of its slices

---
 Merlin++/SMPBunch.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 343f219..21e55b1 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -159,7 +159,7 @@ double SMPBunch::AdjustRefMomentumToMean()
 	double ddp = dp0 / Qt + 1.0;
 	for(iterator p = begin(); p != end(); p++)
 	{
-		p->dp() /= ddp;
+		p->dp() = (p->dp() + 1.0 - ddp) / ddp;
 	}
 	SetReferenceMomentum(GetReferenceMomentum() * ddp);
 	return GetReferenceMomentum();
@@ -172,7 +172,12 @@ double SMPBunch::AdjustRefTimeToMean()
 	{
 		ct += (p->ct()) * (p->Q());
 	}
-	IncrReferenceTime(ct / Qt);
+	ct /= Qt;
+	for(iterator p = begin(); p != end(); p++)
+	{
+		p->ct() -= ct;
+	}
+	IncrReferenceTime(-ct);
 	return GetReferenceTime();
 }
 
-- 
2.43.0


From f070fbb78d74311ac4776c7cadeaca96e72c23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:10 +0000
Subject: [PATCH 083/235] fix: SMPBunchConverter could not be linked and
 dereferenced the end of a set

---
 Merlin++/SMPBunchConverter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SMPBunchConverter.cpp b/Merlin++/SMPBunchConverter.cpp
index bfab34c..3e6fcdb 100644
--- a/Merlin++/SMPBunchConverter.cpp
+++ b/Merlin++/SMPBunchConverter.cpp
@@ -29,10 +29,10 @@ using namespace SMPTracking;
  * DK 1.4.2006
  */
 
-ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, size_t N, bool adjust)
+ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, int N, bool adjust)
 {
 
-	if(N < SB->Size())
+	if(N < int(SB->Size()))
 	{
 		cout << "SMPBunchConverter: Warning, you asked for a low number of particles!" << endl;
 		//return new ParticleBunch(0);
@@ -78,7 +78,7 @@ ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, si
 			itPlus = set_ct.upper_bound(x.ct());
 			if(itPlus == set_ct.end())
 			{
-				sct = fabs(*--set_ct.rbegin() - x.ct()) / 2;
+				sct = fabs(*++set_ct.rbegin() - x.ct()) / 2;
 			}
 			else
 			{
@@ -95,7 +95,7 @@ ParticleTracking::ParticleBunch* SMPBunchConverter(SMPTracking::SMPBunch* SB, si
 			itPlus = set_dp.upper_bound(x.dp());
 			if(itPlus == set_dp.end())
 			{
-				sdp = fabs(*--set_dp.rbegin() - x.dp()) / 2;
+				sdp = fabs(*++set_dp.rbegin() - x.dp()) / 2;
 			}
 			else
 			{
-- 
2.43.0


From 109cf5c83f5317e0bcd3cfbe648b2ff794e4c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:10 +0000
Subject: [PATCH 084/235] fix: conversion to a macro-particle bunch lost
 charge, misplaced particles, and ignored the adjustment of the means and the
 reference time

---
 Merlin++/ParticleBunchConverter.cpp | 38 ++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/Merlin++/ParticleBunchConverter.cpp b/Merlin++/ParticleBunchConverter.cpp
index e46c46d..0bee40a 100644
--- a/Merlin++/ParticleBunchConverter.cpp
+++ b/Merlin++/ParticleBunchConverter.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
 #include "BunchConverter.h"
 #include "ParticleBunch.h"
 #include "SMPBunch.h"
@@ -35,8 +36,8 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 	double sig_z  = PSM.std(4);
 
 	// min,max is either min,max(PB) or n*sigmma
-	double min_ct(0), max_ct(0);
-	double min_dp(0), max_dp(0);
+	double min_ct(PB->FirstParticle().ct()), max_ct(min_ct);
+	double min_dp(PB->FirstParticle().dp()), max_dp(min_dp);
 	if(nSigZ == 0 || nSigDP == 0)
 		for(ParticleBunch::const_iterator ipb = PB->begin(); ipb != PB->end(); ipb++)
 		{
@@ -61,13 +62,13 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 		}
 	if(nSigZ != 0)
 	{
-		max_ct = nSigZ * sig_z;
-		min_ct = -max_ct;
+		max_ct = PSM.mean(4) + nSigZ * sig_z;
+		min_ct = PSM.mean(4) - nSigZ * sig_z;
 	}
 	if(nSigDP != 0)
 	{
-		max_dp = nSigDP * sig_dp;
-		min_dp = -max_dp;
+		max_dp = PSM.mean(5) + nSigDP * sig_dp;
+		min_dp = PSM.mean(5) - nSigDP * sig_dp;
 	}
 
 	double dct = (max_ct - min_ct) / n_ct;
@@ -75,22 +76,26 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 
 	// a histogram to integrate
 	std::vector<std::vector<int> > h(n_ct, std::vector<int>(n_dp, 0));
-	double scale_ct = (n_ct - 1) / (max_ct - min_ct);
-	double scale_dp = (n_dp - 1) / (max_dp - min_dp);
+	double scale_ct = max_ct > min_ct ? n_ct / (max_ct - min_ct) : 0;
+	double scale_dp = max_dp > min_dp ? n_dp / (max_dp - min_dp) : 0;
+	size_t np = 0;
 	for(ParticleBunch::const_iterator ipb = PB->begin(); ipb != PB->end(); ipb++)
 	{
-		int bin_ct = (ipb->ct() - min_ct) * scale_ct;
-		int bin_dp = (ipb->dp() - min_dp) * scale_dp;
 		// we assume a constant charge for all particles in a ParticleBunch !!
-		if(bin_ct >= 0 && bin_dp >= 0 && bin_ct < n_ct && bin_dp < n_dp)
+		if(ipb->ct() >= min_ct && ipb->ct() <= max_ct && ipb->dp() >= min_dp && ipb->dp() <= max_dp)
 		{
+			int bin_ct = std::min(n_ct - 1, int((ipb->ct() - min_ct) * scale_ct));
+			int bin_dp = std::min(n_dp - 1, int((ipb->dp() - min_dp) * scale_dp));
 			h[bin_ct][bin_dp]++;
+			np++;
 		}
 	}
 
 	SMPTracking::SMPBunch* bunch = new SMPTracking::SMPBunch(beamenergy, Qtot);
 
-	double q0 = Qtot / PB->size();
+	bunch->SetReferenceTime(PB->GetReferenceTime());
+
+	double q0 = Qtot / np;
 
 	double ct = min_ct + dct / 2;
 	for(int i_ct = 0; i_ct < n_ct; i_ct++, ct += dct)
@@ -104,6 +109,15 @@ SMPTracking::SMPBunch* ParticleBunchConverter(ParticleTracking::ParticleBunch* P
 		}
 	}
 
+	if(adjust)
+	{
+		PSvector mean;
+		bunch->GetCentroid(mean);
+		PSvector delta = PSM;
+		delta -= mean;
+		bunch->AdjustCentroid(delta);
+	}
+
 	return bunch;
 
 }
-- 
2.43.0


From ee87d7ed7c3b56c82228e4ed6c253e372da6a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:00 +0000
Subject: [PATCH 085/235] fix: second moments of a bunch inherited rounding
 errors (or NaN) from what the result object held before

---
 Merlin++/ParticleBunch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 8c616e5..b48eff7 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -228,6 +228,7 @@ double ParticleBunch::GetTotalCharge() const
 PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 {
 	sigma.zero();
+	sigma.Zero();
 	for_each(begin(), end(), APSV1<PSmoments>(sigma, size()));
 	for_each(begin(), end(), PSVVAR1(sigma, size()));
 	return sigma;
-- 
2.43.0


From 1df2e4cda7b799d2514690083b22ed5f49185767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:42 +0000
Subject: [PATCH 086/235] fix: beam matrix of beam data kept correlations of
 the result object and lost the longitudinal centroid

---
 Merlin++/NormalTransform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index 6c6ce92..e639c8e 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -129,6 +129,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 {
 	RMap R(NormalTransform(t));
 	S.zero();
+	S.Zero();
 	S(0, 0) = t.emit_x;
 	S(1, 1) = t.emit_x;
 	S(2, 2) = t.emit_y;
@@ -141,6 +142,7 @@ PSmoments& BeamDataToSigmaMtrx(const BeamData& t, PSmoments& S)
 	S[1] = t.xp0;
 	S[2] = t.y0;
 	S[3] = t.yp0;
+	S[4] = t.ct0;
 
 	return S;
 }
-- 
2.43.0


From f4a8a38711845b82a9133886156c454361b1647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 087/235] fix: coupling parameters whose determinant vanishes
 (e.g. a single one) were ignored

---
 Merlin++/NormalTransform.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Merlin++/NormalTransform.cpp b/Merlin++/NormalTransform.cpp
index e639c8e..0092544 100644
--- a/Merlin++/NormalTransform.cpp
+++ b/Merlin++/NormalTransform.cpp
@@ -28,10 +28,11 @@ RealMatrix CouplingMatrix(double a, double b, double c, double d)
 
 	if(detB2 == 0)
 	{
-		return C;
+		detB = 0;
+		h = 1;
+		zeta = 1;
 	}
-
-	if(detB2 > 0)
+	else if(detB2 > 0)
 	{
 		detB = sqrt(detB2);
 		h = cos(detB);
-- 
2.43.0


From 7c2e525018ae0583ae30d45438ce060d59114827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 088/235] fix: macro-particle bunches ignored the requested
 longitudinal centroid

---
 Merlin++/SMPBunchConstructor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPBunchConstructor.cpp b/Merlin++/SMPBunchConstructor.cpp
index 0712a4f..259316b 100644
--- a/Merlin++/SMPBunchConstructor.cpp
+++ b/Merlin++/SMPBunchConstructor.cpp
@@ -67,7 +67,7 @@ Bunch* SMPBunchConstructor::ConstructBunch(int) const
 	double dz = 2 * nSigZ * beamdat.sig_z / ns;
 	double ddp = 2 * nSigDP * beamdat.sig_dp / np;
 
-	double z = -nSigZ * beamdat.sig_z + dz / 2;
+	double z = beamdat.ct0 - nSigZ * beamdat.sig_z + dz / 2;
 	for(size_t nSlice = 0; nSlice < ns; nSlice++, z += dz)
 	{
 		double dp = -nSigDP * beamdat.sig_dp + ddp / 2.0;
-- 
2.43.0


From 4582ccfe04a0cfd67668abd3e34276d2d317eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 089/235] fix: size of an off-centre macro-particle bunch was
 lost in the difference of large numbers, up to NaN

---
 Merlin++/SMPBunch.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 21e55b1..936719e 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -88,17 +88,18 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 		for(i = 0; i < 6; i++)
 		{
 			sigma[i] += w * x[i];  // centroid
+		}
+	}
+	for(const_iterator p = begin(); p != end(); p++)
+	{
+		const SliceMacroParticle& x = (*p);
+		double w = x.Q() / Qt;
+		for(i = 0; i < 6; i++)
 			for(j = 0; j <= i; j++) //2nd-order moments
 			{
-				sigma(i, j) += w * (x[i] * x[j] + x(i, j));
+				sigma(i, j) += w * ((x[i] - sigma[i]) * (x[j] - sigma[j]) + x(i, j));
 			}
-		}
 	}
-	for(i = 0; i < 6; i++)
-		for(j = 0; j <= i; j++)
-		{
-			sigma(i, j) -= sigma[i] * sigma[j];
-		}
 
 	return sigma;
 }
@@ -114,14 +115,18 @@ PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& si
 
 		sigma[0] += w * x[u];
 		sigma[1] += w * x[v];
+	}
+	for(const_iterator p = begin(); p != end(); p++)
+	{
+		const SliceMacroParticle& x = (*p);
+		double w = x.Q() / Qt;
+		double du = x[u] - sigma[0];
+		double dv = x[v] - sigma[1];
 
-		sigma(0, 0) += w * (x(u, u) + x[u] * x[u]);
-		sigma(0, 1) += w * (x(u, v) + x[u] * x[v]);
-		sigma(1, 1) += w * (x(v, v) + x[v] * x[v]);
+		sigma(0, 0) += w * (x(u, u) + du * du);
+		sigma(0, 1) += w * (x(u, v) + du * dv);
+		sigma(1, 1) += w * (x(v, v) + dv * dv);
 	}
-	sigma(0, 0) -= sigma[0] * sigma[0];
-	sigma(0, 1) -= sigma[0] * sigma[1];
-	sigma(1, 1) -= sigma[1] * sigma[1];
 
 	return sigma;
 
-- 
2.43.0


From ee4a7a6b87f46102f79074bdfa817dee2700a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:18 +0000
Subject: [PATCH 090/235] fix: a bunch file with a reference momentum that is
 not positive aborted or was accepted

---
 Merlin++/ParticleBunch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index b48eff7..7c42c77 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -377,7 +377,7 @@ void ParticleBunch::Input(double Q, std::istream& is)
 			continue;
 		}
 		istringstream liness(line);
-		if(!(liness >> reftime >> refmom >> p.x() >> p.xp() >> p.y() >> p.yp() >> p.ct() >> p.dp()))
+		if(!(liness >> reftime >> refmom >> p.x() >> p.xp() >> p.y() >> p.yp() >> p.ct() >> p.dp()) || !(refmom > 0))
 		{
 			throw MerlinException("ParticleBunch::Input(): malformed line '" + line + "'");
 		}
-- 
2.43.0


From a79be509e47c164d613eb2b292ad928cf0cb6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:17 +0000
Subject: [PATCH 091/235] fix: pole faces: a missing face dereferenced a null
 pointer, a common or reversed face was treated as exit on both sides

---
 Merlin++/SectorBend.cpp |  1 +
 Merlin++/SectorBend.h   | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SectorBend.cpp b/Merlin++/SectorBend.cpp
index 189ed0d..13630c4 100644
--- a/Merlin++/SectorBend.cpp
+++ b/Merlin++/SectorBend.cpp
@@ -61,6 +61,7 @@ void SectorBend::RotateY180()
 	double h = GetGeometry().GetCurvature();
 	GetGeometry().SetCurvature(-h);
 	std::swap(pfInfo.entrance, pfInfo.exit);
+	pfInfo.SetTypes();
 }
 
 void SectorBend::PrepareTracker(ComponentTracker& aTracker)
diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index 2c1c3b0..4da3589 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -99,16 +99,31 @@ public:
 			Clear();
 			entrance = e1;
 			exit = e2;
-			entrance->type = 1;
-			exit->type = 0;
+			SetTypes();
 		}
 
 		void SetInfo(PoleFace* e1)
 		{
 			Clear();
-			entrance = exit = e1;
-			entrance->type = 1;
-			exit->type = 0;
+			entrance = e1;
+			// the two faces differ in their type
+			exit = e1 ? new PoleFace(*e1) : nullptr;
+			SetTypes();
+		}
+
+		/**
+		 * Marks the faces as entrance and exit (either can be absent)
+		 */
+		void SetTypes()
+		{
+			if(entrance)
+			{
+				entrance->type = 1;
+			}
+			if(exit)
+			{
+				exit->type = 0;
+			}
 		}
 
 		/**
-- 
2.43.0


From 80e8409c5666010b079cca21b07b2ceaa2138bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:17 +0000
Subject: [PATCH 092/235] fix: skew quadrupoles and sextupoles deflected
 opposite to their field; symplectic multipoles with a quadrupole term were
 kicked twice in a wrong direction, and quadrupoles were not symplectic off
 momentum

---
 Merlin++/StdIntegrators.cpp        |  2 +-
 Merlin++/SymplecticIntegrators.cpp | 70 ++++++++++++------------------
 Merlin++/TransportIntegrators.cpp  | 26 +++++++++--
 Merlin++/XTFFInterface.cpp         |  4 +-
 4 files changed, 53 insertions(+), 49 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 4fd16e7..0977da6 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -304,7 +304,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		if(cK1.imag() != 0)
 		{
 			// Need to rotate the map
-			double a = arg(cK1) / 2;
+			double a = -arg(cK1) / 2; // the field is that of a normal quadrupole rotated by this angle
 			RealMatrix Rr(4, 4);
 			TransportMatrix::Srot(a, Rr);
 			M.R = Rr * M.R * Transpose(Rr);
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index c9fd6fe..1d964b2 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -697,6 +697,29 @@ inline void ApplyQuadrupoleMap(ParticleBunch* bunch, double k1, double ds)
 	}
 }
 
+// Map of a quadrupole rotated about the beam axis (a drift for zero gradient)
+inline void ApplyRotatedQuadrupoleMap(ParticleBunch* bunch, double k1, double angle, double ds)
+{
+	if(k1 == 0)
+	{
+		ApplyDriftMap(bunch, ds);
+		return;
+	}
+	if(angle != 0)
+	{
+		RMtrx Rr;
+		TransportMatrix::Srot(-angle, Rr.R);
+		Rr.Apply(bunch->GetParticles());
+	}
+	ApplyQuadrupoleMap(bunch, k1, ds);
+	if(angle != 0)
+	{
+		RMtrx Rr;
+		TransportMatrix::Srot(angle, Rr.R);
+		Rr.Apply(bunch->GetParticles());
+	}
+}
+
 inline void ApplyRFStructureMap(ParticleBunch* bunch, double Vnorm, double Verr, double kval, double phase, double
 	phaseErr, RMtrx& RM, bool full_accel)
 {
@@ -985,55 +1008,18 @@ void RectMultipoleCI::TrackStep(double ds)
 	bool splitMagnet = field.GetCoefficient(0) != 0.0 || field.HighestMultipole() > 1;
 	double len = splitMagnet ? ds / 2 : ds;
 
-	RdpMtrx M(2);
-
-	if(cK1 != 0.0)
-	{
-		double K1 = cK1.imag() == 0 ? cK1.real() : abs(cK1);
-		TransportMatrix::QuadrupoleR(len, K1, M.R);
-		TransportMatrix::QuadrupoleT(len, K1, M.T);
-
-		if(cK1.imag() != 0)
-		{
-			// Need to rotate the map
-			double a = arg(cK1) / 2;
-			RealMatrix Rr(4, 4);
-			TransportMatrix::Srot(a, Rr);
-			M.R = Rr * M.R * Transpose(Rr);
-			M.T = Rr * M.T * Transpose(Rr);
-		}
+	// A rotated quadrupole field is a normal one in the frame rotated by this angle
+	const double K1 = cK1.imag() == 0 ? cK1.real() : abs(cK1);
+	const double a = cK1.imag() == 0 ? 0 : -arg(cK1) / 2;
 
-		M.Apply(currentBunch->GetParticles());
-
-		if(splitMagnet)
-		{
-			Complex b1 = field.GetCoefficient(1);
-			field.SetCoefficient(1, Complex(0));
-			if(cK1 != 0.0)
-			{
-				double phi = arg(cK1) / 2;
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q, -phi));
-			}
-			else
-			{
-				for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-			}
-			M.Apply(currentBunch->GetParticles());
-			field.SetCoefficient(1, b1);
-		}
-
-	}
-	else
-	{
-		ApplyDriftMap(currentBunch, len);
-	}
+	ApplyRotatedQuadrupoleMap(currentBunch, K1, a, len);
 
 	if(splitMagnet)
 	{
 		Complex b1 = field.GetCoefficient(1);
 		field.SetCoefficient(1, Complex(0));
 		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, ds, P0, q));
-		ApplyDriftMap(currentBunch, len);
+		ApplyRotatedQuadrupoleMap(currentBunch, K1, a, len);
 		field.SetCoefficient(1, b1);
 	}
 }
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 3a316fd..f451664 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -383,7 +383,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		else
 		{
 			K1 = abs(cK1);
-			phi = arg(cK1) / 2.0;
+			phi = -arg(cK1) / 2.0; // field in the rotated frame is K1.exp(2.i.phi)
 		}
 
 		if(!fequal(phi, 0))
@@ -397,7 +397,16 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b1 = field.GetCoefficient(1);
 			field.SetCoefficient(1, Complex(0));
-			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q, -phi));
+			// the kick is that of the field in the frame of the element
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, phi);
+			}
+			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q));
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, -phi);
+			}
 			// Apply second half of map
 			ApplyMapToBunch(*currentBunch, M);
 			field.SetCoefficient(1, b1);
@@ -420,7 +429,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		else
 		{
 			K2 = abs(cK2);
-			phi = arg(cK2) / 3.0;
+			phi = -arg(cK2) / 3.0; // field in the rotated frame is K2.exp(3.i.phi)
 		}
 
 		if(!fequal(phi, 0))
@@ -434,7 +443,16 @@ void RectMultipoleCI::TrackStep(double ds)
 		{
 			Complex b2 = field.GetCoefficient(2);
 			field.SetCoefficient(2, Complex(0));
-			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q, -phi));
+			// the kick is that of the field in the frame of the element
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, phi);
+			}
+			for_each((*currentBunch).begin(), (*currentBunch).end(), MultipoleKick(field, ds, P0, q));
+			if(!fequal(phi, 0))
+			{
+				RotateBunchAboutZ(*currentBunch, -phi);
+			}
 			// Apply second half of map
 			ApplyMapToBunch(*currentBunch, M);
 			field.SetCoefficient(2, b2);
diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 965c22f..e68b15f 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -231,7 +231,7 @@ SkewQuadrupole* ConstructSkewQuadrupole(const Data& data)
 	double k1 = data[K1];
 	double tilt = data[TILT];
 	double brho = energy / eV / SpeedOfLight;
-	return new SkewQuadrupole(data.label, len, brho * k1);
+	return new SkewQuadrupole(data.label, len, -brho * k1); // normal quadrupole rotated by +45 degrees
 }
 
 Sextupole* ConstructSextupole(const Data& data)
@@ -250,7 +250,7 @@ SkewSextupole* ConstructSkewSextupole(const Data& data)
 	double k2 = data[K2];
 	double tilt = data[TILT];
 	double brho = energy / eV / SpeedOfLight;
-	return new SkewSextupole(data.label, len, brho * k2);
+	return new SkewSextupole(data.label, len, -brho * k2); // normal sextupole rotated by +30 degrees
 }
 
 Octupole* ConstructOctupole(const Data& data)
-- 
2.43.0


From 382540a5be13afa4e430bf4c83fbb68eb4f9c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:17 +0000
Subject: [PATCH 093/235] fix: thin multipoles had no effect with the thin-lens
 integrators

---
 Merlin++/StdIntegrators.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 0977da6..d166fed 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -281,14 +281,21 @@ void RectMultipoleCI::TrackStep(double ds)
 	// including any dipole term.
 	using namespace TLAS;
 
-	CHK_ZERO(ds);
-
 	double P0 = currentBunch->GetReferenceMomentum();
 	double q = currentBunch->GetChargeSign();
 	double brho = P0 / eV / SpeedOfLight;
 
 	MultipoleField& field = currentComponent->GetField();
 
+	// thin elements: the field is the integrated strength
+	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
+	{
+		for_each(currentBunch->begin(), currentBunch->end(), MultipoleKick(field, 1.0, P0, q));
+		return;
+	}
+
+	CHK_ZERO(ds);
+
 	const Complex cK1 = q * field.GetKn(1, brho);
 	bool splitMagnet = field.GetCoefficient(0) != 0.0 || field.HighestMultipole() > 1;
 	double len = splitMagnet ? ds / 2 : ds;
-- 
2.43.0


From 8c97940775475e32f8afe8019469f6e9741bfc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 094/235] fix: tilted bends were bent to the wrong side, and
 their pole faces were not tilted, with the thin-lens and symplectic
 integrators

---
 Merlin++/StdIntegrators.cpp        | 29 +++++++++---------
 Merlin++/SymplecticIntegrators.cpp | 47 ++++++++++--------------------
 2 files changed, 28 insertions(+), 48 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index d166fed..ee22519 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -71,6 +71,17 @@ struct MultipoleKick
 
 };
 
+// Rotation of the coordinates into (and out of) the plane of a tilted element
+inline void RotateBunchAboutZ(ParticleTracking::ParticleBunch& bunch, double phi)
+{
+	if(phi != 0)
+	{
+		RMtrx Rr(2);
+		TransportMatrix::Srot(phi, Rr.R);
+		Rr.Apply(bunch.GetParticles());
+	}
+}
+
 // Functor ApplyRFdp (used for full acceleration)
 struct ApplyRFdp
 {
@@ -181,15 +192,6 @@ void SectorBendCI::TrackStep(double ds)
 	double h = (*currentComponent).GetGeometry().GetCurvature();
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 
-	double tilt = (*currentComponent).GetGeometry().GetTilt();
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
-
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
@@ -234,19 +236,13 @@ void SectorBendCI::TrackStep(double ds)
 		field.SetCoefficient(1, b1);
 	}
 
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
-
 	return;
 }
 
 void SectorBendCI::TrackEntrance()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
+	RotateBunchAboutZ(*currentBunch, -(*currentComponent).GetGeometry().GetTilt());
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
@@ -262,6 +258,7 @@ void SectorBendCI::TrackExit()
 	{
 		ApplyPoleFaceRotation(h, *pfi.exit);
 	}
+	RotateBunchAboutZ(*currentBunch, (*currentComponent).GetGeometry().GetTilt());
 }
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 1d964b2..7c1cbbf 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -738,6 +738,17 @@ inline void ApplySimpleRFStructureMap(ParticleBunch* bunch, double Vnorm, double
 	for_each(bunch->begin(), bunch->end(), SimpleRFStructureMap(Vnorm, Verr, kval, phase, phaseErr, length));
 }
 
+// Rotation of the coordinates into (and out of) the plane of a tilted element
+inline void RotateBunchAboutZ(ParticleBunch& bunch, double phi)
+{
+	if(phi != 0)
+	{
+		RMtrx Rr(2);
+		TransportMatrix::Srot(phi, Rr.R);
+		Rr.Apply(bunch.GetParticles());
+	}
+}
+
 // TrackStep Routines
 
 void DriftCI::TrackStep(double ds)
@@ -748,6 +759,7 @@ void DriftCI::TrackStep(double ds)
 void SectorBendCI::TrackEntrance()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
+	RotateBunchAboutZ(*currentBunch, -(*currentComponent).GetGeometry().GetTilt());
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
@@ -763,6 +775,7 @@ void SectorBendCI::TrackExit()
 	{
 		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
 	}
+	RotateBunchAboutZ(*currentBunch, (*currentComponent).GetGeometry().GetTilt());
 }
 
 void SectorBendCI::TrackStep(double ds)
@@ -770,15 +783,6 @@ void SectorBendCI::TrackStep(double ds)
 
 	double h = currentComponent->GetGeometry().GetCurvature();
 
-	double tilt = currentComponent->GetGeometry().GetTilt();
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
-
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
@@ -853,18 +857,12 @@ void SectorBendCI::TrackStep(double ds)
 		field.SetCoefficient(0, b0);
 		field.SetCoefficient(1, b1);
 	}
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
 }
 
 void SectorBendCI_ef::TrackEntrance()
 {
 	double h = (*currentComponent).GetGeometry().GetCurvature();
+	RotateBunchAboutZ(*currentBunch, -(*currentComponent).GetGeometry().GetTilt());
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
@@ -880,21 +878,13 @@ void SectorBendCI_ef::TrackExit()
 	{
 		ApplyPoleFaceRotation(currentBunch, h, *pfi.exit);
 	}
+	RotateBunchAboutZ(*currentBunch, (*currentComponent).GetGeometry().GetTilt());
 }
 
 void SectorBendCI_ef::TrackStep(double ds)
 {
 	double h = currentComponent->GetGeometry().GetCurvature();
 
-	double tilt = currentComponent->GetGeometry().GetTilt();
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
-
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
@@ -969,13 +959,6 @@ void SectorBendCI_ef::TrackStep(double ds)
 		field.SetCoefficient(0, b0);
 		field.SetCoefficient(1, b1);
 	}
-
-	if(tilt != 0)
-	{
-		RMtrx Rr;
-		TransportMatrix::Srot(-tilt, Rr.R);
-		Rr.Apply(currentBunch->GetParticles());
-	}
 }
 
 // 07.12.15 HR: Added thin multipole and MultipoleKick fixes
-- 
2.43.0


From da342a7bbead1e62be62501eeded4c8009236e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 095/235] fix: bends whose field does not match the reference
 momentum: gradient scaled twice, symplectic integrators ignored the field

---
 Merlin++/StdIntegrators.cpp        |  4 ++--
 Merlin++/SymplecticIntegrators.cpp | 14 ++++++++++----
 Merlin++/TransportIntegrators.cpp  |  4 ++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index ee22519..e13a85b 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -196,13 +196,13 @@ void SectorBendCI::TrackStep(double ds)
 	const double P0 = currentBunch->GetReferenceMomentum();
 	const double q = currentBunch->GetChargeSign();
 	const double Pref = currentComponent->GetMatchedMomentum(q);
-	const double brho = P0 / eV / SpeedOfLight;
 	int np = field.HighestMultipole();
 
 	assert(Pref > 0);
 
 	const Complex b0 = field.GetCoefficient(0);
-	const Complex K1 = (np > 0) ? q * field.GetKn(1, brho) : Complex(0);
+	// the linear map is that of a particle with the matched momentum
+	const Complex K1 = (np > 0) ? q * field.GetKn(1, Pref / eV / SpeedOfLight) : Complex(0);
 
 	// we need to split the magnet for a kick if the
 	// following is true
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 7c1cbbf..4865010 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -796,7 +796,10 @@ void SectorBendCI::TrackStep(double ds)
 	const Complex K1 = (np > 0) ? q * field.GetKn(1, brho) : Complex(0);
 
 	// We need to split the magnet for a kick if the following is true
-	bool splitMagnet = b0.imag() != 0 || K1.imag() != 0 || np > 1;
+	// (a dipole field that does not match the curvature for this momentum adds a kick)
+	const bool mismatch = h != 0 && !fequal(P0 / Pref, 1.0, 1.0e-6);
+	const double db0 = mismatch ? b0.real() * (1 - P0 / Pref) : 0;
+	bool splitMagnet = mismatch || b0.imag() != 0 || K1.imag() != 0 || np > 1;
 	double len = splitMagnet ? ds / 2.0 : ds;
 
 	if(h == 0 && K1.real() == 0)
@@ -827,7 +830,7 @@ void SectorBendCI::TrackStep(double ds)
 		// First we set the real parts of the dipole and quad fields to zero,
 		// since these components have been modeled in the matrix
 		Complex b1 = field.GetCoefficient(1);
-		field.SetCoefficient(0, Complex(0, b0.imag()));
+		field.SetCoefficient(0, Complex(db0, b0.imag()));
 		field.SetCoefficient(1, Complex(0, b1.imag()));
 
 		// Apply the integrated kick, and then track through the linear second half
@@ -898,7 +901,10 @@ void SectorBendCI_ef::TrackStep(double ds)
 	const Complex K1 = (np > 0) ? q * field.GetKn(1, brho) : Complex(0);
 
 	// We need to split the magnet for a kick if the following is true
-	bool splitMagnet = b0.imag() != 0 || K1.imag() != 0 || np > 1;
+	// (a dipole field that does not match the curvature for this momentum adds a kick)
+	const bool mismatch = h != 0 && !fequal(P0 / Pref, 1.0, 1.0e-6);
+	const double db0 = mismatch ? b0.real() * (1 - P0 / Pref) : 0;
+	bool splitMagnet = mismatch || b0.imag() != 0 || K1.imag() != 0 || np > 1;
 	double len = splitMagnet ? ds / 2.0 : ds;
 
 	if(h == 0 && K1.real() == 0)
@@ -929,7 +935,7 @@ void SectorBendCI_ef::TrackStep(double ds)
 		// First we set the real parts of the dipole and quad fields to zero,
 		// since these components have been modeled in the matrix
 		Complex b1 = field.GetCoefficient(1);
-		field.SetCoefficient(0, Complex(0, b0.imag()));
+		field.SetCoefficient(0, Complex(db0, b0.imag()));
 		field.SetCoefficient(1, Complex(0, b1.imag()));
 
 		// Apply the integrated kick, and then track through the linear second half
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index f451664..5c37ec4 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -227,7 +227,6 @@ void SectorBendCI::TrackStep(double ds)
 	const double P0 = (*currentBunch).GetReferenceMomentum();
 	const double q = (*currentBunch).GetChargeSign();
 	const double Pref = (*currentComponent).GetMatchedMomentum(q);
-	const double brho = P0 / eV / SpeedOfLight;
 	int np = field.HighestMultipole();
 
 	double mass = currentBunch->GetParticleMassMeV() * MeV;
@@ -236,7 +235,8 @@ void SectorBendCI::TrackStep(double ds)
 	assert(Pref > 0);
 
 	const Complex b0 = field.GetCoefficient(0);
-	const Complex K1 = (np > 0) ? q * field.GetKn(1, brho) : Complex(0);
+	// the linear map is that of a particle with the matched momentum
+	const Complex K1 = (np > 0) ? q * field.GetKn(1, Pref / eV / SpeedOfLight) : Complex(0);
 
 	// we need to split the magnet for a kick if the
 	// following is true
-- 
2.43.0


From 627c53dd1afd24cbdf759b1ac91c743f80803e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 096/235] fix: second-order pole face map of a bend without
 pole face information was that of an exit on both sides

---
 Merlin++/StdIntegrators.h         | 2 +-
 Merlin++/TransportIntegrators.cpp | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/Merlin++/StdIntegrators.h b/Merlin++/StdIntegrators.h
index c7e134e..6ea037a 100644
--- a/Merlin++/StdIntegrators.h
+++ b/Merlin++/StdIntegrators.h
@@ -68,7 +68,7 @@ public:
 	void TrackEntrance();
 	void TrackExit();
 protected:
-	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf);
+	void ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool entrance);
 };
 
 DECL_INTG_SET(ParticleComponentTracker, StdISet)
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 5c37ec4..6afc48a 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -300,21 +300,21 @@ void SectorBendCI::TrackEntrance()
 	{
 		RotateBunchAboutZ(*currentBunch, -tilt);
 	}
-	ApplyPoleFaceRotation(pfi.entrance);
+	ApplyPoleFaceRotation(pfi.entrance, true);
 }
 
 void SectorBendCI::TrackExit()
 {
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	double tilt = (*currentComponent).GetGeometry().GetTilt();
-	ApplyPoleFaceRotation(pfi.exit);
+	ApplyPoleFaceRotation(pfi.exit, false);
 	if(tilt != 0)
 	{
 		RotateBunchAboutZ(*currentBunch, tilt);
 	}
 }
 
-void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
+void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf, bool entrance)
 {
 #define _PFV(p, v) !(p) ? 0 : p->v;
 
@@ -327,9 +327,8 @@ void SectorBendCI::ApplyPoleFaceRotation(const SectorBend::PoleFace* pf)
 	double c = 0; // currently not implemented
 	double hg = _PFV(pf, hgap);
 	double fint = _PFV(pf, fint);
-	double ent = _PFV(pf, type);
 
-	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, ent);
+	RTMap* M = PoleFaceTM(h, k, beta, c, fint, hg, entrance);
 	ApplyMapToBunch(*currentBunch, M);
 	delete M;
 }
-- 
2.43.0


From a87d9bade4573b31f5ce7715879f515ced253cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 097/235] fix: dispersion of a bend was lost by cancellation
 when the gradient nearly compensates the weak focusing

---
 Merlin++/TransportMatrix.cpp | 16 ++++++++++------
 Merlin++/TransportRMaps.cpp  | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index 445d0e4..fedd82a 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -109,14 +109,18 @@ void SBR(double length, double h, double Kx, RealMatrix& R)
 	// dispesions terms (only included if matrix is 6D)
 	if(R.nrows() == 6)
 	{
-		if(h && Kx == 0)
+		const double kl2 = Kx * length * length;
+		if(h && fabs(kl2) < 1.0e-3)
 		{
+			// series, as the closed forms lose their digits
 			const double phi = h * length;
-			R(0, 5) = phi * length / 2;
-			R(1, 5) = phi;
-			R(4, 5) = -phi * phi * length / 6;
-			R(4, 0) = -phi;
-			R(4, 1) = -phi * length / 2;
+			const double c1 = (1 - kl2 / 12 * (1 - kl2 / 30)) / 2;
+			const double s1 = 1 - kl2 / 6 * (1 - kl2 / 20 * (1 - kl2 / 42));
+			R(0, 5) = phi * length * c1;
+			R(1, 5) = phi * s1;
+			R(4, 5) = -phi * phi * length / 6 * (1 - kl2 / 20 * (1 - kl2 / 42));
+			R(4, 0) = -phi * s1;
+			R(4, 1) = -phi * length * c1;
 		}
 		else if(h)
 		{
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 5108659..871e381 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -103,14 +103,18 @@ void SBR(double length, double h, double Kx, RMap& R)
 	// vertical plane
 	QR2(length, Ky, 2, R);
 
-	if(h && Kx == 0)
+	const double kl2 = Kx * length * length;
+	if(h && fabs(kl2) < 1.0e-3)
 	{
+		// series, as the closed forms lose their digits
 		const double phi = h * length;
-		R.AddTerm(1, 6) = phi * length / 2;
-		R.AddTerm(2, 6) = phi;
-		R.AddTerm(5, 6) = -phi * phi * length / 6;
-		R.AddTerm(5, 1) = -phi;
-		R.AddTerm(5, 2) = -phi * length / 2;
+		const double c1 = (1 - kl2 / 12 * (1 - kl2 / 30)) / 2;
+		const double s1 = 1 - kl2 / 6 * (1 - kl2 / 20 * (1 - kl2 / 42));
+		R.AddTerm(1, 6) = phi * length * c1;
+		R.AddTerm(2, 6) = phi * s1;
+		R.AddTerm(5, 6) = -phi * phi * length / 6 * (1 - kl2 / 20 * (1 - kl2 / 42));
+		R.AddTerm(5, 1) = -phi * s1;
+		R.AddTerm(5, 2) = -phi * length * c1;
 	}
 	else if(h)
 	{
-- 
2.43.0


From 69d20bc32bd5ec7f2140cd9701c41b402f4a0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 098/235] fix: second-order map of gradient bends lacked the
 change of slope with position in T112

---
 Merlin++/BasicTransportMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index 80a5d06..b72656d 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -400,7 +400,7 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 
 	// Matrix terms
 	rtMap(1, 1, 1) = (a11 * a13 * a7) / 3. + (a1 * a6 * h) / 6.;
-	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3.;
+	rtMap(1, 1, 2) = a15 - (a1 * dx * sx) / 3. + h * sx;
 	rtMap(1, 1, 6) = a18 + 2 * a11 * a19 * a20 * (a21 + (a22 + a5) / 3.) - (a14 * a6) / 3.;
 	rtMap(1, 2, 2) = (a11 * a20 * a6 * a7) / 3. + (a13 * h) / 6.;
 	rtMap(1, 2, 6) = (a14 * a17 * a20 * a24) / 2. + (dx * h * sx) / 3. + 2 * a11 * a19 * a20 * ((a20 * a24) / 2. - (a2
-- 
2.43.0


From 31a9afbd3e72afd8a6435e1acaf532718500d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 099/235] fix: second-order map of a pure dipole used momenta
 instead of slopes, so its chromatic terms did not fit the other elements

---
 Merlin++/BasicTransportMaps.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index b72656d..e09532d 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -66,22 +66,25 @@ RTMap* SectorBendTM(double s, double h, double gamma)
 	rtMap(1, 1, 2) = h * sx * cx;
 	rtMap(1, 1, 6) = a12;
 	rtMap(1, 2, 2) = a2 * a3 * pow(a14, 2);
-	rtMap(1, 2, 6) = (((h * h) / (4 * beta) * (sx * dx + cx * J1)) - ((1 / (4 * beta)) * (sx + s * cx))) * 2.0;
+	rtMap(1, 2, 6) = (((h * h) / (4 * beta) * (sx * dx + cx * J1)) - ((1 / (4 * beta)) * (sx + s * cx))) * 2.0 + sx;
 	rtMap(1, 6, 6) = -(a12 * a3) / 2.;
 	rtMap(1, 4, 4) = (a10 * a3) / 2.;
 
 //133,134 both zero?
+	// xp and yp are slopes (as in all other maps), not momenta relative to the
+	// reference: hence the additional chromatic terms here and in (126), (346), (526)
+	rtMap(2, 1, 6) = h * a4;
 	rtMap(2, 2, 2) = a15;
 	rtMap(2, 4, 4) = a15;
-	rtMap(2, 6, 6) = -h * sx / (2 * beta * beta * gamma * gamma);
+	rtMap(2, 6, 6) = -h * sx / (2 * beta * beta * gamma * gamma) - a4;
 
 	rtMap(3, 1, 4) = a4;
 	rtMap(3, 2, 4) = a8;
-	rtMap(3, 4, 6) = ((h * h * J1 * cy / (2 * beta)) - ((sy + (s * cy)) / (4 * beta))) * 2;
+	rtMap(3, 4, 6) = ((h * h * J1 * cy / (2 * beta)) - ((sy + (s * cy)) / (4 * beta))) * 2 + sy;
 
 	rtMap(5, 2, 2) = a16;
 	rtMap(5, 1, 6) = (h * sx / (2 * beta * beta * gamma * gamma)) * 2;
-	rtMap(5, 2, 6) = (h * dx / (2 * beta * beta * gamma * gamma)) * 2;
+	rtMap(5, 2, 6) = (h * dx / (2 * beta * beta * gamma * gamma)) * 2 + a11;
 	rtMap(5, 6, 6) = 3 * (h * h * J1 - s) / (2 * beta * beta * beta * gamma * gamma);
 	rtMap(5, 4, 4) = a16;
 
-- 
2.43.0


From 38d2cd28b5cf7de6e38266d9156216b4edb8f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 100/235] fix: second-order path length terms of gradient bends
 were wrong

---
 Merlin++/BasicTransportMaps.cpp | 145 ++++++++++++++------------------
 1 file changed, 64 insertions(+), 81 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index e09532d..ef7fea0 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -341,65 +341,8 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	double a83 = a80 + a81 + a82;
 	double a84 = a31 * a83;
 	double a85 = a79 + a84;
-	double a86 = -(a1 * h);
-	double a87 = -2 * n;
-	double a88 = 1 + a87;
-	double a89 = a7 * a88;
-	double a90 = a86 + a89 + K2;
-	double a91 = -2 * K2;
-	double a92 = 4 * n;
-	double a93 = -2 + a92;
-	double a94 = a7 * a93;
-	double a95 = a86 + a91 + a94;
-	double a96 = -2 + n;
-	double a97 = -(a1 * a96 * h);
-	double a98 = a91 + a94 + a97;
-	double a99 = a1 * h;
-	double a100 = 8 * n;
-	double a101 = -4 + a100;
-	double a102 = 2 * K2;
-	double a103 = -4 * n;
-	double a104 = 2 + a103;
-	double a105 = a104 * a7;
-	double a106 = a102 + a105 + a99;
-	double a107 = a1 * a96 * h;
-	double a108 = a102 + a105 + a107;
-	double a109 = pow(h, 6);
 
-	// Code generated by Mathematica
-	// -----------------------------
-
-	// Ancillary variables created by Optimize[]
-	double kx2 = h * h + K1;
-	double kx = sqrt(fabs(kx2));
-	double ky2 = -K1;
-	double ky = sqrt(fabs(ky2));
-
-	double sngx = (kx2 < 0) ? -1 : 1;
-
-	double b1 = pow(kx, 2);
-	double b2 = 1 / b1;
-	double b3 = kx * s;
-	double b4 = (kx2 < 0) ? cosh(b3) : cos(b3);
-	double b5 = (kx2 < 0) ? sinh(b3) : sin(b3);
-	double b6 = pow(kx, 3);
-	double b7 = 1 / b6;
-
-	double b8 = (kx2 < 0) ? sinh(2 * b3) : sin(2 * b3);
-	double b9 = (kx2 < 0) ? sinh(b3 / 2.) : sin(b3 / 2.);
-	double b10 = (ky2 < 0) ? cosh(ky * s) : cos(ky * s);
-	double b11 = (ky2 < 0) ? sinh(ky * s) : sin(ky * s);
-	double b12 = (ky2 < 0) ? sinh(2 * ky * s) : sin(2 * ky * s);
-
-	// Matrix terms
-	double P1 = b2 * (sngx * (b4 - 1) + b5 * kx * s);
-	double P2 = sngx * (b3 - b5) * b7 * h;
-	double P3 = sngx * b2 * (1 - b4);
-	double P4 = sngx * b7 * (b5 - b4 * kx * s);
-	double P5 = 2 * h * pow(kx, -4) * pow(b9, 4);
-	double P6 = -sngx * (b7 * (-2 * kx * s + b8)) / 4.;
-	double P7 = (pow(ky, -2) * pow(b11, 2)) / 2.;
-	double P8 = -(pow(ky, -3) * (-2 * ky * s + b8)) / 4.;
+	double t2[6][6] = {{0}}; // second-order change of x', needed for the path length
 
 	// Matrix terms
 	rtMap(1, 1, 1) = (a11 * a13 * a7) / 3. + (a1 * a6 * h) / 6.;
@@ -413,18 +356,18 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	rtMap(1, 3, 3) = -(a28 * dx) / 2. + (a12 - a28 * a31 * a34) * K2;
 	rtMap(1, 3, 4) = a38;
 	rtMap(1, 4, 4) = -dx / 2. + a31 * a34 * K2;
-	rtMap(2, 1, 1) = -(cx * cxp * h) + (a11 * a40 * a7 * sx) / 3. + (a26 * dx * sx) / 3.;
-	rtMap(2, 1, 2) = (2 * a11 * a42 * a7) / 3. - (a1 * a42 * h) / 3. + h * sxp - h * (cxp * sx + cx * sxp);
-	rtMap(2, 1, 6) = -((cxp * dx + cx * dxp) * h) - (2 * a1 * dx * h * sx) / 3. + (a14 * a17 * (cx * s + sx)) / 2. + 2
+	rtMap(2, 1, 1) = t2[0][0] = -(cx * cxp * h) + (a11 * a40 * a7 * sx) / 3. + (a26 * dx * sx) / 3.;
+	rtMap(2, 1, 2) = t2[0][1] = (2 * a11 * a42 * a7) / 3. - (a1 * a42 * h) / 3. + h * sxp - h * (cxp * sx + cx * sxp);
+	rtMap(2, 1, 6) = t2[0][5] = -((cxp * dx + cx * dxp) * h) - (2 * a1 * dx * h * sx) / 3. + (a14 * a17 * (cx * s + sx)) / 2. + 2
 		* a11 * a19 * a20 * ((cx * s) / 2. + sx / 6. - (2 * cx * sx) / 3.);
-	rtMap(2, 2, 2) = a15 + (a40 * h * sx) / 6. - h * sx * sxp;
-	rtMap(2, 2, 6) = a18 + (a14 * a42) / 3. + 2 * a11 * a19 * a20 * (a21 - (2 * a4) / 3. + (a2 * dx) / 3.) - h * (dxp
+	rtMap(2, 2, 2) = t2[1][1] = a15 + (a40 * h * sx) / 6. - h * sx * sxp;
+	rtMap(2, 2, 6) = t2[1][5] = a18 + (a14 * a42) / 3. + 2 * a11 * a19 * a20 * (a21 - (2 * a4) / 3. + (a2 * dx) / 3.) - h * (dxp
 		* sx + dx * sxp);
-	rtMap(2, 6, 6) = (a17 * a20 * a24 * a7) / 2. - dx * dxp * h + (a14 * dx * sx) / 3. - h * sx + a11 * a25 * a27
+	rtMap(2, 6, 6) = t2[5][5] = (a17 * a20 * a24 * a7) / 2. - dx * dxp * h + (a14 * dx * sx) / 3. - h * sx + a11 * a25 * a27
 		* (a23 + sx / 3. + (2 * cx * sx) / 3.);
-	rtMap(2, 3, 3) = -(a28 * h * sx) / 2. + K2 * (-2 * a28 * a31 * a37 + sx);
-	rtMap(2, 3, 4) = 2 * a31 * (-2 * a28 * a33 + a1 * a2 * dx) * K2;
-	rtMap(2, 4, 4) = a38 - (h * sx) / 2.;
+	rtMap(2, 3, 3) = t2[2][2] = -(a28 * h * sx) / 2. + K2 * (-2 * a28 * a31 * a37 + sx);
+	rtMap(2, 3, 4) = t2[2][3] = 2 * a31 * (-2 * a28 * a33 + a1 * a2 * dx) * K2;
+	rtMap(2, 4, 4) = t2[3][3] = a38 - (h * sx) / 2.;
 	rtMap(3, 1, 3) = 2 * a31 * a47 * a52 * a7 + a1 * a28 * a31 * a45 * h;
 	rtMap(3, 1, 4) = 2 * a31 * a47 * a56 * a7 - a1 * a62 * h + h * sy;
 	rtMap(3, 2, 3) = 2 * a47 * a62 * a7 - a28 * a31 * a56 * h;
@@ -438,20 +381,60 @@ RTMap* GenSectorBendTM(double s, double h, double K1, double K2)
 	rtMap(4, 3, 6) = -(a14 * a28 * a31 * a75) - cyp * dx * h + (a28 * (cy * s + sy)) / 2. + 2 * a19 * a20 * a47 * ((cy
 		* s) / 2. + sy / 2. + a31 * (-(a68 * cy * sx) + a28 * a54 * sy));
 	rtMap(4, 4, 6) = a63 + 2 * a19 * a20 * a47 * (a64 - a31 * a78) + a14 * a85 - dx * h * syp;
-	rtMap(5, 1, 1) = (-2 * a90 * P2 + a95 * h * P6 + 3 * s * pow(cxp, 2)) / 6.;
-	rtMap(5, 1, 2) = (a95 * P5 + 3 * cxp * s * sxp) / 3.;
-	rtMap(5, 1, 6) = (a20 * (6 * a1 * cxp * dxp * s + 4 * a90 * h * P2 + 3 * a14 * a98 * P4 + 4 * a25 * P6 + 2 * a1
-		* a7 * P6 + 4 * a14 * K2 * P6 - 8 * a25 * n * P6)) / 6.;
-	rtMap(5, 2, 2) = (a20 * ((a101 * a7 + a99 - 4 * K2) * P2 + a106 * h * P6 + 3 * a1 * s * pow(sxp, 2))) / 6.;
-	rtMap(5, 2, 6) = (a27 * (3 * a108 * a14 * P1 + 3 * a14 * a98 * P3 + 2 * a1 * (a106 * h * P5 + 3 * a1 * dxp * s
-		* sxp))) / 6.;
-	rtMap(5, 3, 3) = (2 * a28 * h * K2 * P8 + P2 * (a1 * a28 * h - 2 * a1 * K2 + 4 * a28 * K2 - 4 * h * K1 * K1) - a30
-		* s * pow(cyp + syp, 2)) / (-2 * a1 + 8 * a28);
-	rtMap(5, 3, 4) = 2 * a31 * h * K2 * (-P3 + P6);
-	rtMap(5, 4, 4) = (a31 * (-((a30 * h + 4 * K2) * P2) + 2 * h * K2 * P8)) / 2.;
-	rtMap(5, 6, 6) = (a27 * (2 * h * (a101 * a19 - 3 * a26 - 4 * h * K2 + a1 * a14 * (7 - 3 * n)) * P2 + 3 * a108 * a7
-		* P4 - 2 * a109 * P6 - a1 * a19 * P6 - 2 * a7 * K2 * P6 + 4 * a109 * n * P6 + 3 * a26 * s \
-		* pow(dxp, 2))) / 6.;
+
+	// Path length: the second-order part of -(h.x + (x'^2 + y'^2)/2) integrated
+	// through the magnet, x and y being given by the equations of motion
+	//   x'' + (h^2+K1)x = h.d + A.x^2 + h.x'^2/2 + B.x.d - h.d^2 + D.y^2 - h.y'^2/2
+	const double h2 = h * h;
+	const double A = -(2 * K1 + h2) * h - K2;
+	const double B = 2 * h2 + K1;
+	const double D = K1 * h / 2 + K2;
+	const double kd = h / a1; // dispersion is kd.(1-cx)
+	const double Icc = (s + sx * cx) / 2, Ics = sx * sx / 2, Iss = (s - sx * cx) / (2 * a1);
+	const double Ic = sx, Is = (1 - cx) / a1;
+	const double Ux[3][3] = {
+		{Icc, Ics, kd * (Ic - Icc)},
+		{Ics, Iss, kd * (Is - Ics)},
+		{kd * (Ic - Icc), kd * (Is - Ics), kd * kd * (s - 2 * Ic + Icc)}}; // integral of x.x
+	const double Vx[3][3] = {
+		{a1 * a1 * Iss, -a1 * Ics, -a1 * h * Iss},
+		{-a1 * Ics, Icc, h * Ics},
+		{-a1 * h * Iss, h * Ics, h2 * Iss}}; // integral of x'.x'
+	const double Lx[3] = {Ic, Is, kd * (s - Ic)}; // integral of x
+	const double x1[3] = {cx, sx, dx};
+	const double xp1[3] = {cxp, sxp, dxp};
+	const int var[3] = {1, 2, 6};
+	for(int i = 0; i < 3; i++)
+	{
+		for(int j = i; j < 3; j++)
+		{
+			const double m = i == j ? 1 : 2;
+			double F = m * (A * Ux[i][j] + h / 2 * Vx[i][j]);
+			if(j == 2)
+			{
+				F += B * Lx[i] - (i == 2 ? h * s : 0);
+			}
+			// change of x' with respect to the arc length
+			double dxps = t2[var[i] - 1][var[j] - 1] + h * (x1[i] * xp1[j] + (i == j ? 0 : x1[j] * xp1[i]));
+			if(i == 0 && j == 1)
+			{
+				dxps -= h;
+			}
+			rtMap(5, var[i], var[j]) = -h * (F - dxps) / a1 - m * Vx[i][j] / 2;
+		}
+	}
+	const double Jcc = (s + sy * cy) / 2, Jcs = sy * sy / 2, Jss = (sy * cy - s) / (2 * K1);
+	const double Uy[2][2] = {{Jcc, Jcs}, {Jcs, Jss}};
+	const double Vy[2][2] = {{K1 * K1 * Jss, K1 * Jcs}, {K1 * Jcs, Jcc}};
+	for(int i = 0; i < 2; i++)
+	{
+		for(int j = i; j < 2; j++)
+		{
+			const double m = i == j ? 1 : 2;
+			const double F = m * (D * Uy[i][j] - h / 2 * Vy[i][j]);
+			rtMap(5, 3 + i, 3 + j) = -h * (F - t2[2 + i][2 + j]) / a1 - m * Vy[i][j] / 2;
+		}
+	}
 
 	return rtm;
 }
-- 
2.43.0


From 32f57598d0021b4ba8a20187ac9f017eaa70b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 101/235] fix: ComponentTracker::TrackStep returned the tracker
 state instead of the remaining distance

---
 Merlin++/ComponentTracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ComponentTracker.cpp b/Merlin++/ComponentTracker.cpp
index 865e486..b31e1f6 100644
--- a/Merlin++/ComponentTracker.cpp
+++ b/Merlin++/ComponentTracker.cpp
@@ -105,7 +105,7 @@ double ComponentTracker::TrackStep(double ds)
 
 	double sToExit = integrator->Track(ds);
 	itsState = fequal(sToExit, 0) ? finished : tracking;
-	return itsState;
+	return sToExit;
 }
 
 void ComponentTracker::Reset()
-- 
2.43.0


From 3de3c0941b873aa035b261eb1a1e8b3a4d138db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 102/235] fix: symplectic integrators used the paraxial slope
 maps for solenoids and monitors off momentum

---
 Merlin++/SymplecticIntegrators.cpp | 58 ++++++++++++++++++++++++++++--
 Merlin++/SymplecticIntegrators.h   |  2 --
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 4865010..79833df 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -36,10 +36,10 @@ ADD_INTG(TWRFStructureCI)
 ADD_INTG(SWRFStructureCI)
 ADD_INTG(RectMultipoleCI)
 ADD_INTG(SectorBendCI)
+ADD_INTG(MonitorCI)
+ADD_INTG(SolenoidCI)
 // from StdIntegrators
 ADD_INTG(ParticleTracking::MarkerCI)
-ADD_INTG(ParticleTracking::MonitorCI)
-ADD_INTG(ParticleTracking::SolenoidCI)
 END_INTG_SET
 
 #define CHK_ZERO(s) if(s == 0) return;
@@ -1065,5 +1065,59 @@ void SWRFStructureCI::TrackStep(double ds)
 	currentBunch->IncrReferenceMomentum(g * ds * cos(phi));
 }
 
+void MonitorCI::TrackStep(double ds)
+{
+	const double len = currentComponent->GetLength();
+	if(len == 0)
+	{
+		assert(ds == 0);
+		currentComponent->MakeMeasurement(*currentBunch);
+		return;
+	}
+
+	const double s0 = GetIntegratedLength();
+	const double mpt = currentComponent->GetMeasurementPt() + len / 2;
+	if(s0 + ds > mpt)
+	{
+		const double s1 = mpt - s0;
+		ApplyDriftMap(currentBunch, s1);
+		currentComponent->MakeMeasurement(*currentBunch);
+		ds -= s1;
+	}
+	ApplyDriftMap(currentBunch, ds);
+}
+
+void SolenoidCI::TrackStep(double ds)
+{
+	CHK_ZERO(ds);
+
+	const double brho = currentBunch->GetReferenceMomentum() / eV / SpeedOfLight;
+	const double ks = currentBunch->GetChargeSign() * currentComponent->GetBz() / brho;
+	if(ks == 0)
+	{
+		ApplyDriftMap(currentBunch, ds);
+		return;
+	}
+
+	// The longitudinal momentum inside the solenoid is constant, so that the
+	// motion is that of the linear map scaled to that momentum.
+	for(ParticleBunch::iterator p = currentBunch->begin(); p != currentBunch->end(); p++)
+	{
+		const double d1 = 1 + p->dp();
+		const double px = p->xp() + ks / 2 * p->y();
+		const double py = p->yp() - ks / 2 * p->x();
+		const double pz = sqrt(d1 * d1 - px * px - py * py);
+
+		RMtrx M(2);
+		TransportMatrix::Solenoid(ds, ks / pz, 0, true, true, M.R);
+		p->xp() /= pz;
+		p->yp() /= pz;
+		M.Apply(*p);
+		p->xp() *= pz;
+		p->yp() *= pz;
+		p->ct() += ds - d1 * ds / pz;
+	}
+}
+
 } // end namespace SYMPLECTIC
 }
diff --git a/Merlin++/SymplecticIntegrators.h b/Merlin++/SymplecticIntegrators.h
index f0402d1..bf94bfa 100644
--- a/Merlin++/SymplecticIntegrators.h
+++ b/Merlin++/SymplecticIntegrators.h
@@ -23,8 +23,6 @@ DECL_SIMPLE_INTG(TWRFStructureCI, TWRFStructure)
 DECL_SIMPLE_INTG(SWRFStructureCI, SWRFStructure)
 DECL_SIMPLE_INTG(RectMultipoleCI, RectMultipole)
 DECL_SIMPLE_INTG(MarkerCI, Marker)
-
-// from std integrators
 DECL_SIMPLE_INTG(MonitorCI, Monitor)
 DECL_SIMPLE_INTG(SolenoidCI, Solenoid)
 
-- 
2.43.0


From b08c1a2f2d06a201300a13a66ef9d2fbe279315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 103/235] fix: reading a multipole coefficient (so tracking)
 changed the highest multipole of the field; its bounds counted vanishing
 terms

---
 Merlin++/MultipoleField.cpp |  7 +------
 Merlin++/MultipoleField.h   | 15 +++++++++++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/Merlin++/MultipoleField.cpp b/Merlin++/MultipoleField.cpp
index 70600c0..6fa3767 100644
--- a/Merlin++/MultipoleField.cpp
+++ b/Merlin++/MultipoleField.cpp
@@ -164,12 +164,7 @@ Complex MultipoleField::GetComponent(size_t np, double r0) const
 
 Complex MultipoleField::GetCoefficient(size_t np, double r0) const
 {
-	if(np + 1 > expansion.size())
-	{
-		const_cast<MultipoleField&>(*this).expansion.resize(np + 1, Complex(0, 0));
-	}
-
-	return expansion[np] * pow(r0, np);
+	return np < expansion.size() ? expansion[np] * pow(r0, np) : Complex(0);
 }
 
 void MultipoleField::SetCoefficient(size_t np, const Complex& b, double r0)
diff --git a/Merlin++/MultipoleField.h b/Merlin++/MultipoleField.h
index c88635c..037c85a 100644
--- a/Merlin++/MultipoleField.h
+++ b/Merlin++/MultipoleField.h
@@ -214,15 +214,22 @@ inline bool MultipoleField::IsNullField() const
 
 inline int MultipoleField::HighestMultipole() const
 {
-	return expansion.size() - 1;
+	size_t n = expansion.size();
+	while(n > 1 && expansion[n - 1] == Complex(0.0))
+	{
+		n--;
+	}
+	return n - 1;
 }
 
 inline int MultipoleField::LowestMultipole() const
 {
 	size_t n = 0;
-	while(expansion[n++] == Complex(0.0))
-		;
-	return n - 1;
+	while(n + 1 < expansion.size() && expansion[n] == Complex(0.0))
+	{
+		n++;
+	}
+	return n;
 }
 
 #endif
-- 
2.43.0


From b3ca4e24da3a6ddd4b1cb7174d33578a92593b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 104/235] fix: monitors tracked in several steps measured
 repeatedly, and had no path length in the second-order maps

---
 Merlin++/Monitor.cpp               |  2 +-
 Merlin++/SMPStdIntegrators.cpp     |  7 +++++--
 Merlin++/StdIntegrators.cpp        | 16 ++++++++++++----
 Merlin++/StdIntegrators.h          | 17 ++++++++++++++++-
 Merlin++/SymplecticIntegrators.cpp | 19 +------------------
 Merlin++/SymplecticIntegrators.h   |  7 ++++++-
 Merlin++/TransportIntegrators.cpp  |  8 ++++++++
 7 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/Merlin++/Monitor.cpp b/Merlin++/Monitor.cpp
index 811bb6a..c5f357b 100644
--- a/Merlin++/Monitor.cpp
+++ b/Merlin++/Monitor.cpp
@@ -13,7 +13,7 @@ bool Monitor::all_inactive = false;
 const int Monitor::ID = UniqueIndex();
 
 Monitor::Monitor(const string& id, double len, double mpt) :
-	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), active(true)
+	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), reflected(false), active(true)
 {
 }
 
diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 7eac49a..88b714f 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -405,10 +405,13 @@ void MonitorCI::TrackStep(double ds)
 	}
 	else
 	{
+		// measure once, in the step which contains the measurement point
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		double s0 = GetIntegratedLength();
+		bool last = fequal(s0 + ds, len);
+		if((s0 == 0 || s0 <= mpt) && (s0 + ds > mpt || last))
 		{
-			double s1 = mpt - GetIntegratedLength();
+			double s1 = mpt - s0;
 			ApplyDrift(s1, *currentBunch);
 			currentComponent->MakeMeasurement(*currentBunch);
 			ds -= s1;
diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index e13a85b..7f65501 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -393,20 +393,28 @@ void MonitorCI::TrackStep(double ds)
 	}
 	else
 	{
+		// measure once, in the step which contains the measurement point
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
+		double s0 = GetIntegratedLength();
+		bool last = fequal(s0 + ds, len);
+		if((s0 == 0 || s0 <= mpt) && (s0 + ds > mpt || last))
 		{
-			double s1 = mpt - GetIntegratedLength();
-			ApplyDrift(currentBunch->GetParticles(), s1);
+			double s1 = mpt - s0;
+			Drift(s1);
 			//				IncrStep(s1); // need to increment bunch timing
 			currentComponent->MakeMeasurement(*currentBunch);
 			ds -= s1;
 		}
-		ApplyDrift(currentBunch->GetParticles(), ds);
+		Drift(ds);
 	}
 	return;
 }
 
+void MonitorCI::Drift(double ds)
+{
+	ApplyDrift(currentBunch->GetParticles(), ds);
+}
+
 // Class SolenoidCI
 void SolenoidCI::TrackStep(double ds)
 {
diff --git a/Merlin++/StdIntegrators.h b/Merlin++/StdIntegrators.h
index 6ea037a..3c2b56e 100644
--- a/Merlin++/StdIntegrators.h
+++ b/Merlin++/StdIntegrators.h
@@ -29,7 +29,16 @@ namespace ParticleTracking
 {
 
 // common integrators
-DECL_SIMPLE_INTG(MonitorCI, Monitor)
+class MonitorCI: public ParticleComponentTracker::Integrator<Monitor>
+{
+public:
+	void TrackStep(double);
+protected:
+	/**
+	 *  The drift map of the integrator set the monitor belongs to
+	 */
+	virtual void Drift(double ds);
+};
 DECL_SIMPLE_INTG(MarkerCI, Marker)
 DECL_SIMPLE_INTG(SolenoidCI, Solenoid)
 //DECL_SIMPLE_INTG(ParticleMapCI,ParticleMapComponent)
@@ -61,6 +70,12 @@ namespace TRANSPORT
 DECL_SIMPLE_INTG(DriftCI, Drift)
 DECL_SIMPLE_INTG(RectMultipoleCI, RectMultipole)
 
+class MonitorCI: public ParticleTracking::MonitorCI
+{
+protected:
+	void Drift(double ds);
+};
+
 class SectorBendCI: public ParticleComponentTracker::Integrator<SectorBend>
 {
 public:
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 79833df..ea369de 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -1065,25 +1065,8 @@ void SWRFStructureCI::TrackStep(double ds)
 	currentBunch->IncrReferenceMomentum(g * ds * cos(phi));
 }
 
-void MonitorCI::TrackStep(double ds)
+void MonitorCI::Drift(double ds)
 {
-	const double len = currentComponent->GetLength();
-	if(len == 0)
-	{
-		assert(ds == 0);
-		currentComponent->MakeMeasurement(*currentBunch);
-		return;
-	}
-
-	const double s0 = GetIntegratedLength();
-	const double mpt = currentComponent->GetMeasurementPt() + len / 2;
-	if(s0 + ds > mpt)
-	{
-		const double s1 = mpt - s0;
-		ApplyDriftMap(currentBunch, s1);
-		currentComponent->MakeMeasurement(*currentBunch);
-		ds -= s1;
-	}
 	ApplyDriftMap(currentBunch, ds);
 }
 
diff --git a/Merlin++/SymplecticIntegrators.h b/Merlin++/SymplecticIntegrators.h
index bf94bfa..d38a6a2 100644
--- a/Merlin++/SymplecticIntegrators.h
+++ b/Merlin++/SymplecticIntegrators.h
@@ -23,9 +23,14 @@ DECL_SIMPLE_INTG(TWRFStructureCI, TWRFStructure)
 DECL_SIMPLE_INTG(SWRFStructureCI, SWRFStructure)
 DECL_SIMPLE_INTG(RectMultipoleCI, RectMultipole)
 DECL_SIMPLE_INTG(MarkerCI, Marker)
-DECL_SIMPLE_INTG(MonitorCI, Monitor)
 DECL_SIMPLE_INTG(SolenoidCI, Solenoid)
 
+class MonitorCI: public ParticleTracking::MonitorCI
+{
+protected:
+	void Drift(double ds);
+};
+
 class SectorBendCI: public ParticleComponentTracker::Integrator<SectorBend>
 {
 public:
diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 6afc48a..07717af 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -218,6 +218,14 @@ void DriftCI::TrackStep(double ds)
 	return;
 }
 
+void MonitorCI::Drift(double ds)
+{
+	CHK_ZERO(ds);
+	RTMap* m = DriftTM(ds);
+	ApplyMapToBunch(*currentBunch, m);
+	delete m;
+}
+
 void SectorBendCI::TrackStep(double ds)
 {
 	CHK_ZERO(ds);
-- 
2.43.0


From f0914a7d84dee20ea0af33d9c681402b17acdd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 105/235] fix: second-order pole face map: sign and size of the
 gradient terms, missing change with momentum

---
 Merlin++/BasicTransportMaps.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Merlin++/BasicTransportMaps.cpp b/Merlin++/BasicTransportMaps.cpp
index ef7fea0..fdbbe7f 100644
--- a/Merlin++/BasicTransportMaps.cpp
+++ b/Merlin++/BasicTransportMaps.cpp
@@ -493,17 +493,21 @@ RTMap* PoleFaceTM(double h, double K1, double beta, double c, double fint, doubl
 	rtMap(4, 1, 4) = -hh * pow(a1, 2) * 2;
 	rtMap(4, 2, 3) = -(hh * a7) * 2;
 
+	// the slope given to an off-momentum particle
+	rtMap(2, 1, 6) = -a2;
+	rtMap(4, 3, 6) = h * tan(a4);
+
 	if(entrance == true) // do entrance
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1);    //old
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)); //old
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1) + pow((h * a6), 2) * a1 * 0.5;
+		rtMap(4, 1, 3) = -2 * (((h / 2) * c * a8) + (K1 * a1));
 	}
 	else    //do exit
 	{
 		rtMap(2, 1, 1) = ((h / 2) * c * a8) + (K1 * a1) - pow((h * a1), 2) * a1 * 0.5;
-		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) + (K1 * a1);   //old
-		rtMap(4, 1, 3) = -(((h / 2) * c * a8) + (K1 * a1)) + pow((h * a6), 2) * a1;
+		rtMap(2, 3, 3) = hh * h * pow(a1, 3) - ((h / 2) * c * a8) - (K1 * a1);
+		rtMap(4, 1, 3) = -2 * (((h / 2) * c * a8) + (K1 * a1)) + pow((h * a6), 2) * a1;
 	}
 
 	rtMap(1, 1) = 1;
-- 
2.43.0


From 8ab2599e879c24c01b4ce9d5faa82592d47d6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 106/235] fix: rotation matrix of a nearly vanishing angle was
 left undefined instead of set to the identity

---
 Merlin++/TransportMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.h b/Merlin++/TransportMatrix.h
index bb4bcac..a5ba7ea 100644
--- a/Merlin++/TransportMatrix.h
+++ b/Merlin++/TransportMatrix.h
@@ -80,12 +80,12 @@ inline RealMatrix& TransportMatrix::Quadrupole(double length, double Kx, RealMat
 
 inline RealMatrix& TransportMatrix::Srot(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : Srot(cos(phi), sin(phi), R);
+	return Srot(cos(phi), sin(phi), R);
 }
 
 inline RealMatrix& TransportMatrix::SrotR4(double phi, RealMatrix& R)
 {
-	return fequal(phi, 0.0) ? R : SrotR4(cos(phi), sin(phi), R);
+	return SrotR4(cos(phi), sin(phi), R);
 }
 
 #endif
-- 
2.43.0


From 6e570bb33658230a98a2b7066cd6a8779ca3ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 107/235] fix: the exit map of a component tracked in steps
 could be missed because of rounding

---
 Merlin++/ComponentIntegrator.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ComponentIntegrator.h b/Merlin++/ComponentIntegrator.h
index 325d1db..ec31ed1 100644
--- a/Merlin++/ComponentIntegrator.h
+++ b/Merlin++/ComponentIntegrator.h
@@ -119,6 +119,11 @@ protected:
 
 private:
 
+	/**
+	 *  Distance from the exit below which it counts as reached
+	 */
+	double Tolerance() const;
+
 	double cur_S; ///< current integrated length
 	double tot_S; ///< total length
 
@@ -158,10 +163,16 @@ inline double ComponentIntegrator::GetIntegratedLength() const
 	return cur_S;
 }
 
+inline double ComponentIntegrator::Tolerance() const
+{
+	// allows for the rounding of the sum of the steps
+	return 1e-14 * (1 + tot_S);
+}
+
 inline double ComponentIntegrator::GetRemainingLength() const
 {
 	double s = tot_S - cur_S;
-	return (s < 0 || fequal(s, 0)) ? 0 : s;
+	return (s < 0 || fequal(s, 0, Tolerance())) ? 0 : s;
 }
 
 inline bool ComponentIntegrator::IsValidStep(double ds) const
@@ -194,7 +205,7 @@ inline bool ComponentIntegrator::AtEntrance() const
 
 inline bool ComponentIntegrator::AtExit(double s) const
 {
-	return s + cur_S > tot_S || fequal(s + cur_S, tot_S);
+	return s + cur_S > tot_S || fequal(s + cur_S, tot_S, Tolerance());
 }
 
 inline FloatRange ComponentIntegrator::GetValidStepRange() const
-- 
2.43.0


From 175a5298cc1fe92875c8ed13810300c9e124d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 108/235] fix: effective length of a travelling wave cavity was
 only expanded in the relative energy gain (negative for large gains)

---
 Merlin++/LCAVintegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LCAVintegrator.cpp b/Merlin++/LCAVintegrator.cpp
index 96e3988..1ed03a7 100644
--- a/Merlin++/LCAVintegrator.cpp
+++ b/Merlin++/LCAVintegrator.cpp
@@ -79,8 +79,8 @@ struct LCAVMap
 		double Ein = E0 * (1 + x.dp());
 		double Eout = Ein + dE;
 		double fact = Ein / Eout;
-		//			double r12 = L*Ein*log(1+dE/Ein)/dE;
-		double r12 = L * (1 - 0.5 * dE / Ein); // 2nd-order expansion of log(1+x)
+		double u = dE / Ein;
+		double r12 = u != 0 ? L * log1p(u) / u : L;
 
 		x.x() += r12 * x.xp();
 		x.xp() *= fact;
-- 
2.43.0


From 6a797e379eb9e3af2af831caca0a37cc45dc58dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 109/235] fix: transverse RF cavities moved the particle by
 three times the effect of the kick

---
 Merlin++/TransRFIntegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransRFIntegrator.cpp b/Merlin++/TransRFIntegrator.cpp
index c8ce445..aeb1b15 100644
--- a/Merlin++/TransRFIntegrator.cpp
+++ b/Merlin++/TransRFIntegrator.cpp
@@ -36,10 +36,10 @@ struct TRFMap
 		double cx2 = 0.5 * cx1 * len;
 		double cy2 = 0.5 * cy1 * len;
 
-		x.xp() += cx1;
 		x.x() += cx2 + len * x.xp();
-		x.yp() += cy1;
+		x.xp() += cx1;
 		x.y() += cy2 + len * x.yp();
+		x.yp() += cy1;
 	}
 
 };
-- 
2.43.0


From 1bc75ebf81b7c389a1cb0df086c953e618994ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 110/235] fix: map of a standing wave cavity in the symplectic
 integrators did not damp as the momentum ratio and failed off crest at +-90
 degrees

---
 Merlin++/SymplecticIntegrators.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index ea369de..93c2d25 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -517,18 +517,18 @@ public:
 		double rt8 = 2.0 * rt2;
 
 		double cosphi = cos(phi);
-		double sinphi = sin(phi);
 
 		VncosPhi = Vn * cosphi;
 		double d0 = 1.0 + VncosPhi;
 
-		double alpha = log(d0) / cosphi / rt8;
+		// log(d0)/cosphi, regular where the gain vanishes
+		double alpha = (VncosPhi != 0 ? Vn * log1p(VncosPhi) / VncosPhi : Vn) / rt8;
 		double cosalpha = cos(alpha);
 		double sinalpha = sin(alpha);
 
 		m11 = cosalpha - rt2 * cosphi * sinalpha;
-		m12 = rt8 * len * cosphi * sinalpha / VncosPhi;
-		m21 = -(1.0 - 1.0 / d0) * (sinphi / rt2 + 1.0 / cosphi / rt8) * sinalpha / len;
+		m12 = rt8 * len * sinalpha / Vn;
+		m21 = -Vn / d0 * (cosphi * cosphi / rt2 + 1.0 / rt8) * sinalpha / len;
 		m22 = (cosalpha + rt2 * cosphi * sinalpha) / d0;
 
 		//~ cout<<std::setw(14)<<len;
-- 
2.43.0


From ba610508f6d2593e10a7dfe8ab38daa2a40722e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 111/235] fix: matrix of a standing wave cavity near zero
 crossing

---
 Merlin++/TransportMatrix.cpp | 4 +++-
 Merlin++/TransportRMaps.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index fedd82a..695bb62 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -467,7 +467,9 @@ RealMatrix& TransportMatrix::SWRFCavity(int ncells, double g, double f, double p
 	double cosPhi = cos(phi);
 	double E1 = E0 + g * length * cosPhi;
 
-	double alpha = log(E1 / E0) / cosPhi / root8;
+	// log(E1 / E0) / cosPhi, regular where the gain vanishes
+	double u = g * length * cosPhi / E0;
+	double alpha = g * length / E0 * (u != 0 ? log1p(u) / u : 1) / root8;
 	double cosAlpha = cos(alpha);
 	double sinAlpha = sin(alpha);
 
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 871e381..3b6bd77 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -355,7 +355,9 @@ void SWRFCavity(int ncells, double g, double f, double phi, double E0, R2Map& R)
 	double cosPhi = cos(phi);
 	double E1 = E0 + g * length * cosPhi;
 
-	double alpha = log(E1 / E0) / cosPhi / root8;
+	// log(E1 / E0) / cosPhi, regular where the gain vanishes
+	double u = g * length * cosPhi / E0;
+	double alpha = g * length / E0 * (u != 0 ? log1p(u) / u : 1) / root8;
 	double cosAlpha = cos(alpha);
 	double sinAlpha = sin(alpha);
 
-- 
2.43.0


From 60cebe89b267774f37bb929d42858002de3b36ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 112/235] fix: number of cells of a standing wave cavity was
 truncated because of rounding

---
 Merlin++/StdIntegrators.cpp        | 4 ++--
 Merlin++/SymplecticIntegrators.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 7f65501..3dbff4e 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -357,8 +357,8 @@ void SWRFStructureCI::TrackStep(double ds)
 	double E0 = currentBunch->GetReferenceMomentum();
 
 	double lambdaOver2 = SpeedOfLight / f / 2;
-	int ncells = static_cast<int>(ds / lambdaOver2);
-	assert(ncells * lambdaOver2 == ds);
+	int ncells = static_cast<int>(floor(ds / lambdaOver2 + 0.5));
+	assert(fabs(ncells * lambdaOver2 - ds) < 1e-6 * lambdaOver2);
 
 	RMtrx Rm(2);
 	TransportMatrix::SWRFCavity(ncells, g, f, phi, E0, Rm.R);
diff --git a/Merlin++/SymplecticIntegrators.cpp b/Merlin++/SymplecticIntegrators.cpp
index 93c2d25..3751fff 100644
--- a/Merlin++/SymplecticIntegrators.cpp
+++ b/Merlin++/SymplecticIntegrators.cpp
@@ -1057,8 +1057,8 @@ void SWRFStructureCI::TrackStep(double ds)
 	double k = twoPi * f / SpeedOfLight;
 	double lambdaOver2 = SpeedOfLight / f / 2;
 
-	int ncells = static_cast<int>(ds / lambdaOver2);
-	assert(ncells * lambdaOver2 == ds);
+	int ncells = static_cast<int>(floor(ds / lambdaOver2 + 0.5));
+	assert(fabs(ncells * lambdaOver2 - ds) < 1e-6 * lambdaOver2);
 
 	ApplySWRFStructureMap(currentBunch, g * ds / P0, dV, k, phi, dphi, ds);
 
-- 
2.43.0


From c01e71826048d0199f5f673568cea6038980a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 113/235] fix: adding a row with values of the wrong type or
 number to a data table left a partly filled row behind

---
 Merlin++/DataTable.cpp | 37 +++++++++++++++++++++++++++++++------
 Merlin++/DataTable.h   | 13 ++++++++++++-
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/Merlin++/DataTable.cpp b/Merlin++/DataTable.cpp
index 514f9f0..9125b67 100644
--- a/Merlin++/DataTable.cpp
+++ b/Merlin++/DataTable.cpp
@@ -64,6 +64,23 @@ size_t DataTable::AddRow()
 	return length - 1;
 }
 
+void DataTable::RemoveLastRow()
+{
+	for(auto &a : data_d)
+	{
+		a.pop_back();
+	}
+	for(auto &a : data_i)
+	{
+		a.pop_back();
+	}
+	for(auto &a : data_s)
+	{
+		a.pop_back();
+	}
+	length--;
+}
+
 void DataTable::AddRowFromRow(DataTableRow dt)
 {
 	//TODO
@@ -72,12 +89,20 @@ void DataTable::AddRowFromRow(DataTableRow dt)
 void DataTable::ApertureFromRow(DataTableRow dtrow)
 {
 	auto row = this->AddRow();
-	this->Set("APERTYPE", row, dtrow.Get_s("APERTYPE"));
-	this->Set_d("S", row, dtrow.Get_d("S"));
-	this->Set_d("APER_1", row, dtrow.Get_d("APER_1"));
-	this->Set_d("APER_2", row, dtrow.Get_d("APER_2"));
-	this->Set_d("APER_3", row, dtrow.Get_d("APER_3"));
-	this->Set_d("APER_4", row, dtrow.Get_d("APER_4"));
+	try
+	{
+		this->Set("APERTYPE", row, dtrow.Get_s("APERTYPE"));
+		this->Set_d("S", row, dtrow.Get_d("S"));
+		this->Set_d("APER_1", row, dtrow.Get_d("APER_1"));
+		this->Set_d("APER_2", row, dtrow.Get_d("APER_2"));
+		this->Set_d("APER_3", row, dtrow.Get_d("APER_3"));
+		this->Set_d("APER_4", row, dtrow.Get_d("APER_4"));
+	}
+	catch(...)
+	{
+		RemoveLastRow();
+		throw;
+	}
 }
 
 DataTable::location DataTable::get_location(const std::string &col_name) const
diff --git a/Merlin++/DataTable.h b/Merlin++/DataTable.h
index 8d39165..4130006 100644
--- a/Merlin++/DataTable.h
+++ b/Merlin++/DataTable.h
@@ -234,6 +234,9 @@ public:
 	bool HeaderHasKey(std::string col_name, char type) const;
 
 private:
+	/// Undo AddRow()
+	void RemoveLastRow();
+
 	/// See AddRow()
 	template<typename T, typename ... Args>
 	void AddRowN(size_t col_n, size_t row_n, T x, Args ... arg);
@@ -253,7 +256,15 @@ void DataTable::AddRow(Args ... arg)
 {
 	size_t col_n = 0;
 	size_t row_n = AddRow();
-	AddRowN(col_n, row_n, arg ...);
+	try
+	{
+		AddRowN(col_n, row_n, arg ...);
+	}
+	catch(...)
+	{
+		RemoveLastRow();
+		throw;
+	}
 }
 
 template<typename T, typename ... Args>
-- 
2.43.0


From 602d31d58698c0f1ffb7229ac17ca2a245143222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 114/235] fix: data tables took text which merely starts with a
 number for that number and refused subnormal numbers

---
 Merlin++/DataTable.cpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/Merlin++/DataTable.cpp b/Merlin++/DataTable.cpp
index 9125b67..e9594ab 100644
--- a/Merlin++/DataTable.cpp
+++ b/Merlin++/DataTable.cpp
@@ -7,8 +7,38 @@
 
 #include "DataTable.h"
 #include <cassert>
+#include <cmath>
+#include <cstdlib>
 #include <iostream>
 
+// Convert the whole of a string, which may be a subnormal number, to a double
+static double to_double(const std::string& x)
+{
+	char* end;
+	double v = std::strtod(x.c_str(), &end);
+	if(end == x.c_str() || end != x.c_str() + x.size())
+	{
+		throw std::invalid_argument("Not a floating point number: '" + x + "'");
+	}
+	if(std::isinf(v) && x.find_first_of("iI") == std::string::npos)
+	{
+		throw std::out_of_range("Floating point number out of range: '" + x + "'");
+	}
+	return v;
+}
+
+// Convert the whole of a string to an int
+static int to_int(const std::string& x)
+{
+	size_t end;
+	int v = std::stoi(x, &end);
+	if(end != x.size())
+	{
+		throw std::invalid_argument("Not an integer: '" + x + "'");
+	}
+	return v;
+}
+
 void DataTable::AddColumn(std::string col_name, char type)
 {
 	if(lookup.count(col_name))
@@ -195,10 +225,10 @@ void DataTable::SetWithStr(const std::string col_name, size_t i, std::string x)
 	switch(l.type)
 	{
 	case 'd':
-		Set_d(col_name, i, stod(x));
+		Set_d(col_name, i, to_double(x));
 		break;
 	case 'i':
-		Set_i(col_name, i, stoi(x));
+		Set_i(col_name, i, to_int(x));
 		break;
 	case 's':
 		Set_s(col_name, i, x);
@@ -327,10 +357,10 @@ void DataTable::HeaderSetWithStr(const std::string col_name, std::string x)
 	switch(l.type)
 	{
 	case 'd':
-		HeaderSet_d(col_name, stod(x));
+		HeaderSet_d(col_name, to_double(x));
 		break;
 	case 'i':
-		HeaderSet_i(col_name, stoi(x));
+		HeaderSet_i(col_name, to_int(x));
 		break;
 	case 's':
 		HeaderSet_s(col_name, x);
-- 
2.43.0


From 383d9975182be41fda36265daed324cd16fccc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 115/235] fix: TFS reader: empty strings were dropped,
 unterminated quotes accepted, empty and truncated files crashed

---
 Merlin++/DataTableTFS.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index cff913f..834a20b 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -54,19 +54,22 @@ static std::vector<std::string> split_line(std::string line)
 	std::string current;
 	current.reserve(64);
 	bool double_quote_on = false;
+	bool quoted = false; // current word has quotes (and is a word even if empty)
 
 	for(auto c : line)
 	{
 		if(c == '"')
 		{
 			double_quote_on = !double_quote_on;
+			quoted = true;
 		}
 		else if(!double_quote_on && whitespace.find(c) != std::string::npos)
 		{
-			if(current.length())
+			if(current.length() || quoted)
 			{
 				sl.push_back(current);
 				current = "";
+				quoted = false;
 			}
 		}
 		else
@@ -74,7 +77,11 @@ static std::vector<std::string> split_line(std::string line)
 			current += c;
 		}
 	}
-	if(current.length())
+	if(double_quote_on)
+	{
+		throw BadFormatException("Unterminated quote in line '" + line + "'");
+	}
+	if(current.length() || quoted)
 	{
 		sl.push_back(current);
 	}
@@ -115,7 +122,7 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	//Read column names
-	if(words[0] != "*")
+	if(words.size() == 0 || words[0] != "*")
 	{
 		throw BadFormatException("Expected line starting with '*' or '@' at line " + std::to_string(line_number));
 	}
@@ -128,7 +135,7 @@ DataTable DataTableReaderTFS::Read()
 	getline(*in, line);
 	line_number++;
 	words = split_line(line);
-	if(words[0] != "$")
+	if(words.size() == 0 || words[0] != "$")
 	{
 		throw BadFormatException("Expected line starting with '$' at line " + std::to_string(line_number));
 	}
-- 
2.43.0


From f96937975fcb28d49ec8ec4fca9607ca1ec59212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 116/235] fix: TFS writer used the number format left on the
 stream by the caller

---
 Merlin++/DataTableTFS.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index 834a20b..b52c033 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -205,9 +205,10 @@ DataTableWriterTFS::DataTableWriterTFS(std::string filename) :
 
 void DataTableWriterTFS::Write(DataTable & dt)
 {
-	std::ios init(NULL);
-	init.copyfmt(*out);
-	*out << std::setprecision(prec_float);
+	const std::ios::fmtflags init_flags = out->flags(std::ios::dec | std::ios::left);
+	const std::streamsize init_precision = out->precision(prec_float);
+	const char init_fill = out->fill(' ');
+	out->width(0);
 
 	for(auto &header_name : dt.HeaderNames())
 	{
@@ -280,5 +281,7 @@ void DataTableWriterTFS::Write(DataTable & dt)
 		*out << std::endl;
 	}
 
-	out->copyfmt(init);
+	out->flags(init_flags);
+	out->precision(init_precision);
+	out->fill(init_fill);
 }
-- 
2.43.0


From 95f303dbca577e3c5753aae437fb608e48e3862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 117/235] fix: RandomNG::getGenerator returned a null reference
 before initialisation

---
 Merlin++/RandomNG.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 7b6dbf7..2a18be7 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -121,6 +121,10 @@ double RandomNG::landau()
 
 std::mt19937_64& RandomNG::getGenerator()
 {
+	if(!generator)
+	{
+		not_seeded();
+	}
 	return *generator;
 }
 
-- 
2.43.0


From bd082ba5debbccbc171dd6a3530dd2eeb4ed44d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 118/235] fix: local random generators were not restarted with
 a new seed, and hashes equal in their low 32 bits shared a sequence

---
 Merlin++/RandomNG.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 2a18be7..58607f5 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -13,6 +13,19 @@ std::unique_ptr<std::mt19937_64> RandomNG::generator;
 
 std::unordered_map<size_t, std::mt19937_64> RandomNG::generator_store;
 
+static std::mt19937_64 MakeLocalGenerator(const std::vector<std::uint32_t>& master_seed, size_t name_hash)
+{
+	// extend master seed
+	std::vector<std::uint32_t> new_seed{master_seed};
+	new_seed.push_back(name_hash);
+	if(static_cast<std::uint64_t>(name_hash) >> 32)
+	{
+		new_seed.push_back(static_cast<std::uint64_t>(name_hash) >> 32);
+	}
+	std::seed_seq ss(new_seed.begin(), new_seed.end());
+	return std::mt19937_64{ss};
+}
+
 void RandomNG::init()
 {
 	const int nseeds = 8;
@@ -41,6 +54,12 @@ void RandomNG::reset()
 {
 	std::seed_seq ss(master_seed.begin(), master_seed.end());
 	generator.reset(new std::mt19937_64{ss});
+
+	// restart the local generators (in place, as references to them are held)
+	for(auto& local : generator_store)
+	{
+		local.second = MakeLocalGenerator(master_seed, local.first);
+	}
 }
 
 void RandomNG::reset(std::uint32_t iseed)
@@ -141,14 +160,8 @@ std::mt19937_64& RandomNG::getLocalGenerator(size_t name_hash)
 	}
 	else
 	{
-		// extend master seed
-		std::vector<std::uint32_t> new_seed{master_seed};
-		new_seed.push_back(name_hash);
-		std::seed_seq ss(new_seed.begin(), new_seed.end());
 		// create and store new generator
-		auto new_gen = std::mt19937_64{ss};
-		generator_store[name_hash] = new_gen;
-		return generator_store[name_hash];
+		return generator_store[name_hash] = MakeLocalGenerator(master_seed, name_hash);
 	}
 }
 
@@ -158,12 +171,8 @@ void RandomNG::resetLocalGenerator(size_t name_hash)
 	{
 		not_seeded();
 	}
-	std::vector<std::uint32_t> new_seed{master_seed};
-	new_seed.push_back(name_hash);
-	std::seed_seq ss(new_seed.begin(), new_seed.end());
 	// create and store new generator
-	auto new_gen = std::mt19937_64{ss};
-	generator_store[name_hash] = new_gen;
+	generator_store[name_hash] = MakeLocalGenerator(master_seed, name_hash);
 }
 
 std::uint32_t hash_string(std::string s)
-- 
2.43.0


From 6339ad3de099e6ad65509323453eefe324ce7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 119/235] fix: a last step of the size of the rounding errors
 tracked a component beyond its exit

---
 Merlin++/ProcessStepManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 4870b1d..b1027d1 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -142,7 +142,7 @@ void ProcessStepManager::Track(AcceleratorComponent& component)
 		double ds = for_each(processTable.begin(), processTable.end(), CalcStepSize(sc - s)).ds;
 		for_each(processTable.begin(), processTable.end(), DoProc(s, ds, id, log));
 		s += ds;
-	} while(s < sc && !fequal(sc, s));
+	} while(s < sc && !fequal(sc, s, 1e-14 * (1 + sc))); // tolerance as in ComponentIntegrator
 
 	total_s += sc;
 }
-- 
2.43.0


From 021242d1c4bfa364d7c56434e4651e4c710c9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:14 +0000
Subject: [PATCH 120/235] fix: collimation reports every loss, keeps the lost
 particles' entrance coordinates for all planes, follows short bins and
 sub-steps

---
 Merlin++/CollimateParticleProcess.cpp | 151 ++++++++++++--------------
 Merlin++/CollimateParticleProcess.h   |   7 +-
 2 files changed, 78 insertions(+), 80 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index b07b188..db9e3b1 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -59,10 +59,7 @@ CollimateParticleProcess::CollimateParticleProcess(int priority, int mode, std::
 
 CollimateParticleProcess::~CollimateParticleProcess()
 {
-	if(pindex != nullptr)
-	{
-		delete pindex;
-	}
+	IndexParticles(false);
 }
 
 void CollimateParticleProcess::InitialiseProcess(Bunch& bunch)
@@ -103,10 +100,11 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 	{
 		currentComponent = &component;
 		s = 0;
-		Collimator* aCollimator = dynamic_cast<Collimator*>(&component);
+		int_s = 0;
+		len = component.GetLength();
 
 		const CollimatorAperture* tap = dynamic_cast<const CollimatorAperture*> (currentComponent->GetAperture());
-		is_collimator = scatter && tap;
+		is_collimator = scatter && tap && dynamic_cast<Collimator*>(&component);
 
 		if(!is_collimator)
 		{
@@ -121,7 +119,6 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 			at_cent = at_entr = false; // currently scatter only at exit
 			at_exit = true;
 			SetNextS();
-			len = aCollimator->GetLength();
 			//	CollimatorAperture* CollimatorJaw = dynamic_cast<CollimatorAperture*>(aCollimator->GetAperture());
 		}
 
@@ -144,11 +141,14 @@ void CollimateParticleProcess::DoProcess(double ds)
 {
 	s += ds;
 
-	if(fequal(s, next_s))
+	// s has been summed from several steps, so it can differ from next_s by rounding
+	if(fequal(s, next_s, 1e-14 * (1 + next_s)))
 	{
-		//This lets the scattering routine know how far down the collimator we are for aperture checking inside the scattering step.
-		int_s = s - ds;
+		s = next_s;
+		// int_s is where the last check was made. It lets the scattering routine know how far down
+		// the collimator we are for aperture checking inside the scattering step.
 		DoCollimation();
+		int_s = s;
 		SetNextS();
 	}
 
@@ -162,14 +162,7 @@ void CollimateParticleProcess::DoProcess(double ds)
 
 double CollimateParticleProcess::GetMaxAllowedStepSize() const
 {
-	if(!is_collimator)
-	{
-		return next_s - s;
-	}
-	else
-	{
-		return bin_size;
-	}
+	return next_s - s;
 }
 
 void CollimateParticleProcess::IndexParticles(bool index)
@@ -177,22 +170,23 @@ void CollimateParticleProcess::IndexParticles(bool index)
 	if(index && pindex == nullptr)
 	{
 		pindex = new list<size_t>;
+		own_pindex = true;
 	}
 	else if(!index && pindex != nullptr)
 	{
-		delete pindex;
+		if(own_pindex)
+		{
+			delete pindex;
+		}
 		pindex = nullptr;
 	}
 }
 
 void CollimateParticleProcess::IndexParticles(list<size_t>& anIndex)
 {
-	if(!pindex)
-	{
-		delete pindex;
-	}
-
+	IndexParticles(false);
 	pindex = &anIndex;
+	own_pindex = false;
 }
 
 void CollimateParticleProcess::SetLossThreshold(double losspc)
@@ -205,6 +199,9 @@ void CollimateParticleProcess::DoCollimation()
 	//The aperture of this element
 	const Aperture *ap = currentComponent->GetAperture();
 
+	//The length passed since the last check (the last bin of a collimator can be short)
+	const double step = s - int_s;
+
 	// If there are no losses there is no need to go through the expensive
 	// process of copying all the particles to a new bunch. So check first
 	bool any_loss = false;
@@ -214,7 +211,7 @@ void CollimateParticleProcess::DoCollimation()
 
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end(); p++)
 		{
-			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin_size * (*p).xp(), (*p).y() - bin_size * (*p).yp(), s))
+			if(!ap->CheckWithinApertureBoundaries((*p).x() - step * (*p).xp(), (*p).y() - step * (*p).yp(), s))
 			{
 				any_loss = true;
 				first_loss = p - currentBunch->begin();
@@ -261,8 +258,8 @@ void CollimateParticleProcess::DoCollimation()
 	{
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end();)
 		{
-			(*p).x() -= bin_size * (*p).xp();
-			(*p).y() -= bin_size * (*p).yp();
+			(*p).x() -= step * (*p).xp();
+			(*p).y() -= step * (*p).yp();
 			p++;
 		}
 	}
@@ -274,8 +271,8 @@ void CollimateParticleProcess::DoCollimation()
 
 //		if(is_collimator)
 //		{
-//			(*p).x() -= bin_size * (*p).xp();
-//			(*p).y() -= bin_size * (*p).yp();
+//			(*p).x() -= step * (*p).xp();
+//			(*p).y() -= step * (*p).yp();
 //		}
 		if(particle_number >= first_loss && !ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), s))
 		{
@@ -284,7 +281,7 @@ void CollimateParticleProcess::DoCollimation()
 			{
 				if(is_collimator)
 				{
-					(*p).ct() += (s - bin_size);
+					(*p).ct() += int_s;
 				}
 
 				lost.push_back(*p);
@@ -315,8 +312,8 @@ void CollimateParticleProcess::DoCollimation()
 		{
 			if(is_collimator)
 			{
-				(*p).x() += bin_size * (*p).xp();
-				(*p).y() += bin_size * (*p).yp();
+				(*p).x() += step * (*p).xp();
+				(*p).y() += step * (*p).yp();
 			}
 
 			//Not interacting with the collimator: "Inside" the aperture; particle lives
@@ -365,30 +362,23 @@ void CollimateParticleProcess::DoCollimation()
 			//Prepare the tracker to use the current accelerator component
 			currentComponent->PrepareTracker(*LostParticleTracker);
 
-			//While we are still inside the component
-			while((LostParticleTracker->GetRemainingLength()) >= 0 && LostBunch->size() != 0)
+			//Up to the place of this check: the particles are known to be outside the aperture there
+			while(LostBunch->size() != 0)
 			{
-				double StepSize = bin_size;
-				//If the remaining length of component is less than the step size, set the step size to this value
-				if((LostParticleTracker->GetRemainingLength() - StepSize) < 0)
-				{
-					StepSize = LostParticleTracker->GetRemainingLength();
-				}
-
-				//Track the appropriate step length
-
 				double IntegratedLength = LostParticleTracker->GetIntegratedLength();
+				const bool at_check = fequal(IntegratedLength, s, 1e-12 * (1 + s));
+
 				//Now loop over each particle in turn
 				for(PSvectorArray::iterator p = LostBunch->begin(); p != LostBunch->end();)
 				{
 					//Check if the particle is outside the aperture
-					//s, is where the integrator will start
-					//LostParticleTracker->GetIntegratedLength() will give the position integrated past this point
+					//LostParticleTracker->GetIntegratedLength() will give the position integrated past the start
 					//(*p).ct() will give the offset for this specific particle
+					//Whatever has not left the aperture before is lost at the check itself
 
-					if(!ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), IntegratedLength))
+					if(at_check || !ap->CheckWithinApertureBoundaries((*p).x(), (*p).y(), IntegratedLength))
 					{
-						//if not, delete the particle, and add the coordinates to the lost bunch list (PSvectorArray lost)
+						//Delete the particle, and add the coordinates to the lost bunch list (PSvectorArray lost)
 
 						//Also set p.ct() as the length along the element!
 						(*p).ct() += IntegratedLength;
@@ -398,19 +388,15 @@ void CollimateParticleProcess::DoCollimation()
 						}
 						if((*p).ct() > length)
 						{
-
 							(*p).ct() = length;
 						}
 
 						lost.push_back(*p);
 
 						//CollimationOutput loss
-						if(!is_collimator)
+						for(auto &OutIt : CollimationOutputVector)
 						{
-							for(auto &OutIt : CollimationOutputVector)
-							{
-								OutIt->Dispose(*currentComponent, IntegratedLength, (*p), ColParProTurn);
-							}
+							OutIt->Dispose(*currentComponent, IntegratedLength, (*p), ColParProTurn);
 						}
 						p = LostBunch->erase(p);
 					}
@@ -422,40 +408,29 @@ void CollimateParticleProcess::DoCollimation()
 				}
 
 				//Now move forward...
-				if((LostParticleTracker->GetRemainingLength()) > 0)
-				{
-					LostParticleTracker->TrackStep(StepSize);
-				}
-				if(LostParticleTracker->GetRemainingLength() == 0)
+				if(!at_check)
 				{
-					break;
+					LostParticleTracker->TrackStep(std::min(bin_size, s - IntegratedLength));
 				}
 			}
 
-			//If there is anything left - possible bug.
-			if(LostBunch->size() != 0)
+			//clean up the tracker
+			delete LostParticleTracker;
+		}
+		//if the element has zero length no tracking is needed since all the losses will have occurred at the same point anyway.
+		//So PSvectorArray loss will contain the correct information
+		else
+		{
+			for(auto &p : lost)
 			{
-				std::cout << "POSSIBLE BUG: Leftovers: " << LostBunch->size() << "\t"
-						  << currentComponent->GetQualifiedName() << "\t"
-						  << LostParticleTracker->GetIntegratedLength() << "\t" << length << std::endl;
-				for(PSvectorArray::iterator p = LostBunch->begin(); p != LostBunch->end(); p++)
+				for(auto &OutIt : CollimationOutputVector)
 				{
-					(*p).ct() += LostParticleTracker->GetIntegratedLength();
-					if((*p).ct() > length)
-					{
-						(*p).ct() = length;
-					}
-					lost.push_back(*p);
+					OutIt->Dispose(*currentComponent, 0, p, ColParProTurn);
 				}
 			}
-
-			//clean up the tracker
-			delete LostParticleTracker;
-			//and the "lost particle bunch"
-			delete LostBunch;
 		}
-		//if the element has zero length nothing needs to be done since all the losses will have occurred at the same point anyway.
-		//So PSvectorArray loss will contain the correct information
+		//and the "lost particle bunch"
+		delete LostBunch;
 	}
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -467,7 +442,25 @@ void CollimateParticleProcess::DoCollimation()
 	//DoOutput(lost,lost_i);
 
 	//make sure to clear up
-	InputArray.clear();             //The input array
+	//The input array keeps the surviving particles for the next check in this element
+	if(!is_collimator)
+	{
+		PSvectorArray survivors;
+		survivors.reserve(currentBunch->size());
+		auto lp = LostParticlePositions.begin();
+		for(size_t n = 0; n < InputArray.size(); n++)
+		{
+			if(lp != LostParticlePositions.end() && *lp == n)
+			{
+				++lp;
+			}
+			else
+			{
+				survivors.push_back(InputArray[n]);
+			}
+		}
+		InputArray.swap(survivors);
+	}
 	LostParticlePositions.clear();  //A list of particles we want to use in the input array
 
 	if(double(nlost) / double(nstart) >= lossThreshold)
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 119c680..3a2b1e7 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -167,6 +167,7 @@ protected:
 	double lossThreshold;
 	size_t nstart;
 	std::list<size_t>* pindex;
+	bool own_pindex = false; ///< pindex was created here and not supplied by the user
 
 	IDTBL idtbl;
 
@@ -221,8 +222,12 @@ private:
 	 *
 	 * Can be overridden with a scattering routine, for example in CollimateProtonProcess
 	 */
-	virtual ScatterOutcome DoScatter(Particle&)
+	virtual ScatterOutcome DoScatter(Particle& p)
 	{
+		for(auto &OutIt : CollimationOutputVector)
+		{
+			OutIt->Dispose(*currentComponent, int_s, p, ColParProTurn);
+		}
 		return ScatterOutcome::absorbed;
 	}
 
-- 
2.43.0


From 1748e003ac1be21c4420c446620c7d68a9084704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 121/235] fix: proton collimation reports low-energy losses,
 and losses at the place of the interaction

---
 Merlin++/CollimateProtonProcess.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 9725362..4de1fcc 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -138,6 +138,13 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 		if((E2 < (E0 / 100.0)))
 		{
+			p.ct() = z;
+
+			for(auto &OutIt : CollimationOutputVector)
+			{
+				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+			}
+
 			return ScatterOutcome::absorbed;
 		}
 
@@ -177,7 +184,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 				for(auto &OutIt : CollimationOutputVector)
 				{
-					OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+					OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 				}
 
 				return ScatterOutcome::absorbed;
@@ -190,7 +197,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 			for(auto &OutIt : CollimationOutputVector)
 			{
-				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+				OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 			}
 			return ScatterOutcome::absorbed;
 		}
-- 
2.43.0


From 0b473e6d6a29e7d3b230e1228d2a9e912b1127fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 122/235] fix: loss maps count each loss once, in its own
 element

---
 Merlin++/CollimationOutput.h          |  5 ++++-
 Merlin++/LossMapCollimationOutput.cpp | 12 ++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/Merlin++/CollimationOutput.h b/Merlin++/CollimationOutput.h
index b28c79e..795b52c 100644
--- a/Merlin++/CollimationOutput.h
+++ b/Merlin++/CollimationOutput.h
@@ -9,6 +9,7 @@
 #define CollimationOutput_h 1
 
 #include <string>
+#include <tuple>
 #include <vector>
 
 #include "AcceleratorComponent.h"
@@ -125,7 +126,9 @@ struct LossData
 // Comparison function used to sort losses in order of s position
 inline bool Compare_LossData(const LossData &a, const LossData &b)
 {
-	return (a.s + a.position + a.interval) < (b.s + b.position + a.interval);
+	// Element by element (zero length elements come before the element that starts at the same place), then
+	// by the position inside the element
+	return std::tie(a.s, a.length, a.ElementName, a.position) < std::tie(b.s, b.length, b.ElementName, b.position);
 }
 
 inline bool Merge_LossData(const LossData &a, const LossData &b)
diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a0beddf..04a2596 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -83,6 +83,8 @@ void LossMapCollimationOutput::Finalise()
 
 	std::cout << "CollimationOutput:: DeadParticles.size() = " << DeadParticles.size() << std::endl;
 
+	OutputLosses.clear();
+
 	int outit = 0;
 	int total = 0;
 
@@ -97,9 +99,8 @@ void LossMapCollimationOutput::Finalise()
 			{
 				OutputLosses.push_back(*it);
 			}
-
 			// If old element ++loss
-			if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName && it->s == OutputLosses[outit].s)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -120,9 +121,8 @@ void LossMapCollimationOutput::Finalise()
 			{
 				OutputLosses.push_back(*it);
 			}
-
 			// If position is equal
-			if(it->position == OutputLosses[outit].position)
+			else if(it->position == OutputLosses[outit].position)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -145,8 +145,8 @@ void LossMapCollimationOutput::Finalise()
 				OutputLosses[outit].lost = 1;
 			}
 			// If in the same bin ++loss
-			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->interval ==
-				OutputLosses[outit].interval))
+			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->s == OutputLosses[outit].s) &&
+				(it->interval == OutputLosses[outit].interval))
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From eece0db5af8ea568b7913be6c2cb072596c9903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:34 +0000
Subject: [PATCH 123/235] fix: zero-length collimator jaws have an opening

---
 Merlin++/CollimatorAperture.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 1c7c6c0..1ec71c8 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -28,11 +28,12 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 		if(ax + ay < fmin(minDim, fmin(w_exit, h_exit) / 2))
 			return true;
 	}
-	double x_off = (z * (x_offset_entry - x_offset_exit) / CollimatorLength) - x_offset_entry;
-	double y_off = (z * (y_offset_entry - y_offset_exit) / CollimatorLength) - y_offset_entry;
+	const double f = CollimatorLength != 0 ? z / CollimatorLength : 0; // jaws without length have no slope
+	double x_off = (f * (x_offset_entry - x_offset_exit)) - x_offset_entry;
+	double y_off = (f * (y_offset_entry - y_offset_exit)) - y_offset_entry;
 
-	double x_jaw = (z * (w_exit - GetFullEntranceWidth()) / CollimatorLength) + GetFullEntranceWidth();
-	double y_jaw = (z * (h_exit - GetFullEntranceHeight()) / CollimatorLength) + GetFullEntranceHeight();
+	double x_jaw = (f * (w_exit - GetFullEntranceWidth())) + GetFullEntranceWidth();
+	double y_jaw = (f * (h_exit - GetFullEntranceHeight())) + GetFullEntranceHeight();
 
 	double x1 = ((x + x_off) * cosalpha) - ((y + y_off) * sinalpha);
 	double y1 = ((x + x_off) * sinalpha) + ((y + y_off) * cosalpha);
-- 
2.43.0


From d58d2ce6e8b1c3b87f1e26d745d5f8363a58c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:33 +0000
Subject: [PATCH 124/235] fix: lost particles are followed from their own
 entrance coordinates when the bunch was sorted inside the element

---
 Merlin++/CollimateParticleProcess.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index db9e3b1..5c665ba 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
 #include <iterator>
 #include <iomanip>
 #include <fstream>
@@ -294,7 +295,19 @@ void CollimateParticleProcess::DoCollimation()
 					ip = pindex->erase(ip);
 				}
 
-				LostParticlePositions.push_back(particle_number);
+				//Another process may have sorted the bunch since the input array was copied
+				size_t input_number = particle_number;
+				if(!is_collimator && InputArray[input_number].id() != lost.back().id())
+				{
+					auto input = std::find_if(InputArray.begin(), InputArray.end(), [&lost](const PSvector& v){
+						return v.id() == lost.back().id();
+					});
+					if(input != InputArray.end())
+					{
+						input_number = input - InputArray.begin();
+					}
+				}
+				LostParticlePositions.push_back(input_number);
 			}
 			else
 			{
@@ -447,6 +460,7 @@ void CollimateParticleProcess::DoCollimation()
 	{
 		PSvectorArray survivors;
 		survivors.reserve(currentBunch->size());
+		std::sort(LostParticlePositions.begin(), LostParticlePositions.end());
 		auto lp = LostParticlePositions.begin();
 		for(size_t n = 0; n < InputArray.size(); n++)
 		{
-- 
2.43.0


From b85e6e3924a539694bfc217a57e67cd8f30a0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:37 +0000
Subject: [PATCH 125/235] fix: turns are counted by the first element itself,
 other elements can have its name and position

---
 Merlin++/CollimateParticleProcess.cpp | 3 ++-
 Merlin++/CollimateParticleProcess.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 5c665ba..3c83ab0 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -89,9 +89,10 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 		FirstElementName = component.GetName();
 		FirstElementS = component.GetComponentLatticePosition();
 		FirstElementSet = 1;
+		FirstElement = &component;
 		ColParProTurn = 1;
 	}
-	else if(component.GetName() == FirstElementName && component.GetComponentLatticePosition() == FirstElementS)
+	else if(&component == FirstElement) // names and positions need not be unique
 	{
 		++ColParProTurn;
 	}
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 3a2b1e7..7a2a68a 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -201,6 +201,7 @@ protected:
 	int ColParProTurn;
 	std::string FirstElementName;
 	double FirstElementS;
+	const AcceleratorComponent* FirstElement = nullptr;
 	bool FirstElementSet;
 
 private:
-- 
2.43.0


From 0646b25f1d4d66793ce2bd709878b84da1a8c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:59 +0000
Subject: [PATCH 126/235] fix: columns of the loss tables never run together
 and the detailed header names the columns that are written

---
 Merlin++/DetailedCollimationOutput.cpp | 20 ++++++++--------
 Merlin++/LossMapCollimationOutput.cpp  | 32 +++++++++++++-------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/Merlin++/DetailedCollimationOutput.cpp b/Merlin++/DetailedCollimationOutput.cpp
index f446ea2..bb7067f 100644
--- a/Merlin++/DetailedCollimationOutput.cpp
+++ b/Merlin++/DetailedCollimationOutput.cpp
@@ -41,18 +41,18 @@ void DetailedCollimationOutput::Dispose(AcceleratorComponent& currcomponent, dou
 
 void DetailedCollimationOutput::Output(std::ostream* os)
 {
-	(*os) << "#name s pos x xp y yp type id location turn" << std::endl;
+	(*os) << "#name s pos x xp y yp id turn" << std::endl;
 	for(auto its = DeadParticles.begin(); its != DeadParticles.end(); ++its)
 	{
-		(*os) << std::setw(16) << std::left << its->ElementName;
-		(*os) << std::setw(20) << std::left << its->s;
-		(*os) << std::setw(20) << std::left << its->position;
-		(*os) << std::setw(20) << std::left << its->p.x();
-		(*os) << std::setw(20) << std::left << its->p.xp();
-		(*os) << std::setw(20) << std::left << its->p.y();
-		(*os) << std::setw(20) << std::left << its->p.yp();
-		(*os) << std::setw(20) << std::left << its->p.id();
-		(*os) << std::setw(20) << std::left << its->turn;
+		(*os) << std::setw(15) << std::left << its->ElementName << ' ';
+		(*os) << std::setw(19) << std::left << its->s << ' ';
+		(*os) << std::setw(19) << std::left << its->position << ' ';
+		(*os) << std::setw(19) << std::left << its->p.x() << ' ';
+		(*os) << std::setw(19) << std::left << its->p.xp() << ' ';
+		(*os) << std::setw(19) << std::left << its->p.y() << ' ';
+		(*os) << std::setw(19) << std::left << its->p.yp() << ' ';
+		(*os) << std::setw(19) << std::left << its->p.id() << ' ';
+		(*os) << std::setw(19) << std::left << its->turn << ' ';
 		(*os) << std::endl;
 	}
 }
diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index 04a2596..6dff809 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -178,11 +178,11 @@ void LossMapCollimationOutput::Output(std::ostream* os)
 
 		for(std::vector<LossData>::const_iterator its = OutputLosses.begin(); its != OutputLosses.end(); ++its)
 		{
-			(*os) << std::setw(34) << std::left << its->ElementName;
-			(*os) << std::setw(34) << std::left << its->s;
-			(*os) << std::setw(16) << std::left << its->lost;
-			(*os) << std::setw(16) << std::left << its->temperature;
-			(*os) << std::setw(16) << std::left << its->length;
+			(*os) << std::setw(33) << std::left << its->ElementName << ' ';
+			(*os) << std::setw(33) << std::left << its->s << ' ';
+			(*os) << std::setw(15) << std::left << its->lost << ' ';
+			(*os) << std::setw(15) << std::left << its->temperature << ' ';
+			(*os) << std::setw(15) << std::left << its->length << ' ';
 			(*os) << std::endl;
 		}
 		break;
@@ -196,11 +196,11 @@ void LossMapCollimationOutput::Output(std::ostream* os)
 
 		for(std::vector<LossData>::const_iterator its = OutputLosses.begin(); its != OutputLosses.end(); ++its)
 		{
-			(*os) << std::setw(34) << std::left << its->ElementName;
-			(*os) << std::setw(34) << std::left << its->s;
-			(*os) << std::setw(34) << std::left << its->position;
-			(*os) << std::setw(16) << std::left << its->lost;
-			(*os) << std::setw(16) << std::left << its->temperature;
+			(*os) << std::setw(33) << std::left << its->ElementName << ' ';
+			(*os) << std::setw(33) << std::left << its->s << ' ';
+			(*os) << std::setw(33) << std::left << its->position << ' ';
+			(*os) << std::setw(15) << std::left << its->lost << ' ';
+			(*os) << std::setw(15) << std::left << its->temperature << ' ';
 			(*os) << std::endl;
 
 		}
@@ -216,12 +216,12 @@ void LossMapCollimationOutput::Output(std::ostream* os)
 
 		for(std::vector<LossData>::const_iterator its = OutputLosses.begin(); its != OutputLosses.end(); ++its)
 		{
-			(*os) << std::setw(34) << std::left << its->ElementName;
-			(*os) << std::setw(34) << std::setprecision(15) << std::left << its->s + its->interval;
-			(*os) << std::setw(16) << std::setprecision(4) << std::left << its->interval;
-			(*os) << std::setw(16) << std::setprecision(15) << std::left << its->lost;
-			(*os) << std::setw(16) << std::left << its->temperature;
-			(*os) << std::setw(16) << std::left << its->length;
+			(*os) << std::setw(33) << std::left << its->ElementName << ' ';
+			(*os) << std::setw(33) << std::setprecision(15) << std::left << its->s + its->interval << ' ';
+			(*os) << std::setw(15) << std::setprecision(4) << std::left << its->interval << ' ';
+			(*os) << std::setw(15) << std::setprecision(15) << std::left << its->lost << ' ';
+			(*os) << std::setw(15) << std::left << its->temperature << ' ';
+			(*os) << std::setw(15) << std::left << its->length << ' ';
 			(*os) << std::endl;
 
 		}
-- 
2.43.0


From cacf7046abe5cc7c9611d5d8ae3ed6cf97450fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 127/235] fix: collimation outputs can be destroyed (the loss
 map declared a destructor that does not exist)

---
 Merlin++/CollimationOutput.h        | 3 +++
 Merlin++/LossMapCollimationOutput.h | 1 -
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/CollimationOutput.h b/Merlin++/CollimationOutput.h
index 795b52c..d64b22f 100644
--- a/Merlin++/CollimationOutput.h
+++ b/Merlin++/CollimationOutput.h
@@ -164,6 +164,9 @@ public:
 	 * Constructor
 	 */
 	CollimationOutput(OutputType otype = nearestelement);
+	virtual ~CollimationOutput()
+	{
+	}
 
 	/**
 	 * Finalise will call any sorting algorithms and perform formatting for final output
diff --git a/Merlin++/LossMapCollimationOutput.h b/Merlin++/LossMapCollimationOutput.h
index 463b8ff..daf0dff 100644
--- a/Merlin++/LossMapCollimationOutput.h
+++ b/Merlin++/LossMapCollimationOutput.h
@@ -21,7 +21,6 @@ class LossMapCollimationOutput: public CollimationOutput
 public:
 
 	LossMapCollimationOutput(OutputType otype = tencm);
-	~LossMapCollimationOutput();
 
 	/**
 	 * Finalise will call any sorting algorithms and perform formatting for final output
-- 
2.43.0


From f4771c4f4bd992e2edbb2e5264a7e7a22d43f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 128/235] fix: copies of materials keep the interaction length
 and do not leak, a material without extra properties can be copied

---
 Merlin++/MaterialProperties.cpp | 22 ++++++++++------------
 Merlin++/MaterialProperties.h   |  2 +-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 7af3b40..559422d 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -30,6 +30,7 @@ MaterialProperties::MaterialProperties(double p1, double p2, double p3, double p
 	sigma_T = p2;
 	sigma_I = p3;
 	sigma_R = p4;
+	sigma_E = sigma_D = 0;
 	dEdx = p5;
 	X0 = p6;
 	density = p7;
@@ -45,23 +46,16 @@ void MaterialProperties::Update()
 
 MaterialProperties* MaterialProperties::EnergyScale(double E)
 {
-	MaterialProperties* p = new MaterialProperties(A, sigma_T, sigma_I, sigma_R, dEdx, X0, density, Z);
+	MaterialProperties* p = new MaterialProperties(*this);
 	// adjust dEdx and cross sections with new energy
 	p->Update();
 	return p;
 }
 
-MaterialProperties::MaterialProperties(const MaterialProperties& a)
+MaterialProperties::MaterialProperties(const MaterialProperties& a) :
+	MaterialProperties()
 { //copy constructor
-	density = a.density;
-	A = a.A;
-	sigma_T = a.sigma_T;
-	sigma_I = a.sigma_I;
-	sigma_R = a.sigma_R;
-	dEdx = a.dEdx;
-	X0 = a.X0;
-	Z = a.Z;
-	extra = new  map<string, double>(*a.extra); // deep copy. Deleted by dtor
+	*this = a;
 }
 
 MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
@@ -73,10 +67,14 @@ MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
 		sigma_T = a.sigma_T;
 		sigma_I = a.sigma_I;
 		sigma_R = a.sigma_R;
+		sigma_E = a.sigma_E;
+		sigma_D = a.sigma_D;
 		dEdx = a.dEdx;
 		X0 = a.X0;
 		Z = a.Z;
-		extra = new  map<string, double>(*a.extra);   //deep copy. deleted by dtor
+		lambda = a.lambda;
+		delete extra;
+		extra = a.extra ? new map<string, double>(*a.extra) : nullptr;   //deep copy. deleted by dtor
 	}
 	return *this;
 }
diff --git a/Merlin++/MaterialProperties.h b/Merlin++/MaterialProperties.h
index 3a7ddbc..07d19cb 100644
--- a/Merlin++/MaterialProperties.h
+++ b/Merlin++/MaterialProperties.h
@@ -55,7 +55,7 @@ public:
 	}
 	MaterialProperties()
 	{
-		lambda = A = density = dEdx = sigma_R = sigma_I = sigma_T = Z = X0 = 0;
+		lambda = A = density = dEdx = sigma_R = sigma_I = sigma_E = sigma_D = sigma_T = Z = X0 = 0;
 		extra = nullptr;
 	}
 	// keep child class happy
-- 
2.43.0


From 419da573702d185ad9d36a7a46ecacdbce8efcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 129/235] fix: asking for an extra material property that is
 not there does not create it, materials without extra properties can be asked

---
 Merlin++/MaterialProperties.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 559422d..e40d13a 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -105,6 +105,10 @@ void MaterialProperties::SetExtra(string props, ...)
 	 * though they must match the space-delimited list in the string
 	 *  e.g.  SetExtra("one two",1.0,2.0);
 	 */
+	if(!extra)
+	{
+		extra = new map<string, double>;
+	}
 	va_list arguments;
 	va_start(arguments, props);
 	istringstream s(props);
@@ -118,14 +122,12 @@ void MaterialProperties::SetExtra(string props, ...)
 
 double MaterialProperties::GetExtra(string prop)
 {
-	return (*extra)[prop];
+	return HaveExtra(prop) ? (*extra)[prop] : 0;
 }
 
 bool MaterialProperties::HaveExtra(string prop)
 {
-	map<string, double>::iterator it;
-	it = extra->find(prop);
-	return it != extra->end();
+	return extra && extra->count(prop) != 0;
 }
 
 MaterialProperties::~MaterialProperties()
-- 
2.43.0


From 151885c3ad4290fda7bd60f796c709028a017467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 130/235] fix: the nucleus hit in a mixture is chosen according
 to the proportions of the mixture

---
 Merlin++/MaterialProperties.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index e40d13a..e6663b5 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -176,10 +176,10 @@ Mixture::Mixture(map<string, MaterialProperties*> dict, vector<string> names, ve
 		sum += proportions[i];
 		suma += proportions[i] * dict[names[i]]->A;
 		V_A.push_back(dict[names[i]]->A);
-		V_R.push_back(dict[names[i]]->sigma_R);
-		sumR += dict[names[i]]->sigma_R;
-		V_H.push_back(dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
-		sumH += dict[names[i]]->sigma_T;
+		V_R.push_back(proportions[i] * dict[names[i]]->sigma_R);
+		sumR += V_R[i];
+		V_H.push_back(proportions[i] * dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
+		sumH += V_H[i];
 	}
 	Z = A = sigma_T = sigma_I = sigma_R = dEdx = 0;
 	float RX0 = 0;
-- 
2.43.0


From 5f0bdcae3d8c8350d6b1158e836579cfe0e27737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 131/235] fix: mixtures of unknown materials and of impossible
 proportions are refused and leave the table of materials as it was

---
 Merlin++/MaterialData.cpp       | 35 +++++++++++++++++++++++++++------
 Merlin++/MaterialProperties.cpp | 14 ++++++++++++-
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index a8b2ebf..28d9fde 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "MaterialData.h"
+#include "MerlinException.h"
 #include "MaterialProperties.h"
 #include "PhysicalUnits.h"
 #include <iomanip>
@@ -14,6 +15,16 @@
 using namespace PhysicalUnits;
 using namespace std;
 
+static double AtomicMass(const map<string, MaterialProperties*>& property, const string& name)
+{
+	auto p = property.find(name);
+	if(p == property.end() || p->second == nullptr)
+	{
+		throw MerlinException("MakeMixtureByWeight() component not found: " + name);
+	}
+	return p->second->A;
+}
+
 MaterialData::~MaterialData()  // destructor
 {
 	map<string, MaterialProperties*>::iterator p = property.begin();
@@ -115,7 +126,8 @@ void MaterialData::MakeMixture(string name, string s, ...)
 	double density = va_arg(numbers, double);
 	//  cout << " density is " << density << endl;
 	va_end(numbers);
-	property[name] = new Mixture(property, elements, proportions, density);
+	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
+	property[name] = mixture;
 }
 void MaterialData::MakeMixture(string name, string s, const std::vector<double> &proportions, double density)
 {
@@ -129,7 +141,8 @@ void MaterialData::MakeMixture(string name, string s, const std::vector<double>
 		s = s.substr(i + 1);
 	} while(i != string::npos);
 
-	property[name] = new Mixture(property, elements, proportions, density);
+	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
+	property[name] = mixture;
 }
 
 void MaterialData::MakeMixtureByWeight(string name, string s, ...)
@@ -144,12 +157,13 @@ void MaterialData::MakeMixtureByWeight(string name, string s, ...)
 		i = s.find(" ");
 		string want = s.substr(0, i);
 		elements.push_back(want);
-		proportions.push_back(va_arg(numbers, double) / property.at(want)->A);
+		proportions.push_back(va_arg(numbers, double) / AtomicMass(property, want));
 		s = s.substr(i + 1);
 	} while(i != string::npos);
 	double density = va_arg(numbers, double);
 	va_end(numbers);
-	property[name] = new Mixture(property, elements, proportions, density);
+	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
+	property[name] = mixture;
 }
 
 void MaterialData::MakeMixtureByWeight(string name, string s, const std::vector<double> &wproportions, double density)
@@ -164,12 +178,21 @@ void MaterialData::MakeMixtureByWeight(string name, string s, const std::vector<
 		i = s.find(" ");
 		string want = s.substr(0, i);
 		elements.push_back(want);
-		proportions.push_back(wproportions[c] / property.at(want)->A);
+		if(c >= wproportions.size())
+		{
+			throw MerlinException("MakeMixtureByWeight() length of names and proportions do not match");
+		}
+		proportions.push_back(wproportions[c] / AtomicMass(property, want));
 		s = s.substr(i + 1);
 		c++;
 	} while(i != string::npos);
 
-	property[name] = new Mixture(property, elements, proportions, density);
+	for(; c < wproportions.size(); c++)
+	{
+		proportions.push_back(wproportions[c]); // refused by Mixture
+	}
+	MaterialProperties* mixture = new Mixture(property, elements, proportions, density);
+	property[name] = mixture;
 }
 
 ostream& operator<<(ostream& s, MaterialData* M)
diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index e6663b5..5d1f940 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -166,13 +166,21 @@ Mixture::Mixture(map<string, MaterialProperties*> dict, vector<string> names, ve
 	{
 		throw MerlinException("Mixture::Mixture() length of names and proportions do not match");
 	}
+	if(!(d > 0))
+	{
+		throw MerlinException("Mixture::Mixture() density is not positive");
+	}
 	float suma = 0, sum = 0, sumH = 0, sumR = 0;
 	for(int i = 0; i < N; i++)
 	{
-		if(dict.count(names[i]) == 0)
+		if(dict.count(names[i]) == 0 || dict[names[i]] == nullptr)
 		{
 			throw MerlinException("Mixture::Mixture() component not found: " + names[i]);
 		}
+		if(!(proportions[i] >= 0))
+		{
+			throw MerlinException("Mixture::Mixture() proportion is negative: " + names[i]);
+		}
 		sum += proportions[i];
 		suma += proportions[i] * dict[names[i]]->A;
 		V_A.push_back(dict[names[i]]->A);
@@ -181,6 +189,10 @@ Mixture::Mixture(map<string, MaterialProperties*> dict, vector<string> names, ve
 		V_H.push_back(proportions[i] * dict[names[i]]->sigma_T); // MUST CHECK. WANT NUCLEAR ELASTIC
 		sumH += V_H[i];
 	}
+	if(!(sum > 0))
+	{
+		throw MerlinException("Mixture::Mixture() proportions do not add up to a positive number");
+	}
 	Z = A = sigma_T = sigma_I = sigma_R = dEdx = 0;
 	float RX0 = 0;
 	for(int i = 0; i < N; i++)
-- 
2.43.0


From 9f64ef53a2a20db40bc34f0eac0a74a6cf2fe1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 132/235] fix: a table of materials is written to the stream it
 is sent to

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 28d9fde..f5478e4 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -199,7 +199,7 @@ ostream& operator<<(ostream& s, MaterialData* M)
 {
 	s << "  Name    A    Z    sig T  sig I  sig R   dEdx  density Rad length\n";
 	for(map<string, MaterialProperties*>::iterator it = (M->property).begin(); it != M->property.end(); it++)
-		cout << setw(7) << it->first << " " << *(it->second) << endl;
+		s << setw(7) << it->first << " " << *(it->second) << endl;
 
 	return s;
 }
-- 
2.43.0


From bc7c459fd8ba7665a478070fb810eab9a791ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 133/235] fix: SixTrack cross sections go to the materials they
 belong to and update the interaction lengths

---
 Merlin++/MaterialData.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index f5478e4..ae03809 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -79,7 +79,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 
 void StandardMaterialData::UseSixTrackValues()
 {
-	string names3[] = {"Be", "C", "Al", "Fe", "Cu", "W", "Pb"};
+	string names3[] = {"Be", "C", "Cu", "W", "Pb"};
 	double sixtracktotnu[] = {0.268, .331, 1.232, 2.767, 2.960};
 	for(int i = 0; i < int(sizeof(names3) / sizeof(string)); i++)
 		property[names3[i]]->sigma_T = sixtracktotnu[i];
@@ -98,6 +98,13 @@ void StandardMaterialData::UseSixTrackValues()
 	double sixtrackdedx[] = {0.68, 0.81, 2.69, 5.79, 0.68};
 	for(int i = 0; i < int(sizeof(names8) / sizeof(string)); i++)
 		property[names8[i]]->dEdx = sixtrackdedx[i];
+	for(auto& material : property)
+	{
+		if(material.second)
+		{
+			material.second->Update();
+		}
+	}
 }
 
 void MaterialData::PrintTable()
-- 
2.43.0


From 3ff9f32a22f4c5369e093f41c125f1cade8d4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 134/235] fix: the interaction length of AC150K is the one of
 its own density

---
 Merlin++/MaterialData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index ae03809..fb17333 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -69,6 +69,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	property["AC150K"] = new MaterialProperties(*property["C"]);
 	property["AC150K"]->dEdx = 0.68;
 	property["AC150K"]->density = 1.650 * gram / cc;
+	property["AC150K"]->Update();
 
 	MakeMixture("IT180", "W Ni Cu", 0.95, 0.35, 0.15, 18.06 * gram / cc);
 
-- 
2.43.0


From 736376c3f9c42869a39838b2f69a4cdc75523361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 135/235] fix: density of aluminium (was that of air) and
 Rutherford cross section of oxygen (was a hundred times too large)

---
 Merlin++/MaterialData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index fb17333..b7986e1 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -40,10 +40,10 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	double ST[] = {0.634, 0.268, 0.331, 1.232, 2.96, 0.653, 2.767, -1, -1, -1, -1};
 	double SI[] = {0.421, 0.199, 0.231, 0.782, 1.71, 0.432, 1.65, -1, -1, -1, -1};
 	double A[] = {26.9815, 9.01218, 12.011, 63.546, 207.2, 28.1, 183.84, 15.9994, 55.845, 58.6934, 95.96};
-	double SR[] = {0.00034, 0.000035, 0.000076, 0.00153, 0.00907, 0.00039, 0.00768, 0.0133766, -1, -1, -1};
+	double SR[] = {0.00034, 0.000035, 0.000076, 0.00153, 0.00907, 0.00039, 0.00768, 0.000133766, -1, -1, -1};
 	double dE[] = {1.724, 1.594, 1.745, 1.403, 1.123, 1.664, 1.145, -1, -1, -1, -1};
 	double X[] = {24.01, 65.19, 42.7, 12.86, 6.37, 21.82, 6.76, -1, -1, -1, -1};
-	double rho[] = {1.204, 1.848, 2.265, 8.96, 11.35, 2.33, 19.3, 1.14, 7.879, 8.9, 10.2};  // g/cc
+	double rho[] = {2.699, 1.848, 2.265, 8.96, 11.35, 2.33, 19.3, 1.14, 7.879, 8.9, 10.2};  // g/cc
 	double Z[] = {13., 4., 6., 29., 82., 14., 74., 8, 26, 28, 42};
 	int n = sizeof(names) / sizeof(string);
 	for(int i = 0; i < n; i++)
@@ -91,7 +91,7 @@ void StandardMaterialData::UseSixTrackValues()
 		property[names6[i]]->sigma_I = sixtrackinelasticnuclear[i];
 
 	string names7[] = {"C", "O", "Al", "Cu", "W"};
-	double sixtrackrutherford[] = {0.000076, 0.0133766, 0.00034, 0.00153, 0.00768};
+	double sixtrackrutherford[] = {0.000076, 0.000133766, 0.00034, 0.00153, 0.00768};
 	for(int i = 0; i < int(sizeof(names7) / sizeof(string)); i++)
 		property[names7[i]]->sigma_R = sixtrackrutherford[i];
 
-- 
2.43.0


From 11b1845c86c01b0c7a17b9c0314ff500389fbd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 136/235] fix: a copied table of materials owns its materials
 (both copies deleted the same ones)

---
 Merlin++/MaterialData.cpp     | 22 ++++++++++++++++++++++
 Merlin++/MaterialData.h       |  2 ++
 Merlin++/MaterialProperties.h |  8 ++++++++
 3 files changed, 32 insertions(+)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index b7986e1..ae07d91 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -25,6 +25,28 @@ static double AtomicMass(const map<string, MaterialProperties*>& property, const
 	return p->second->A;
 }
 
+MaterialData::MaterialData(const MaterialData& rhs)
+{
+	*this = rhs;
+}
+
+MaterialData& MaterialData::operator=(const MaterialData& rhs)
+{
+	if(this != &rhs)
+	{
+		for(auto& material : property)
+		{
+			delete material.second;
+		}
+		property.clear();
+		for(const auto& material : rhs.property)
+		{
+			property[material.first] = material.second ? material.second->Clone() : nullptr;
+		}
+	}
+	return *this;
+}
+
 MaterialData::~MaterialData()  // destructor
 {
 	map<string, MaterialProperties*>::iterator p = property.begin();
diff --git a/Merlin++/MaterialData.h b/Merlin++/MaterialData.h
index 0a668c7..56134bd 100644
--- a/Merlin++/MaterialData.h
+++ b/Merlin++/MaterialData.h
@@ -30,6 +30,8 @@ public:
 	MaterialData()
 	{
 	}                     // constructor
+	MaterialData(const MaterialData&);             // copies own their materials
+	MaterialData& operator=(const MaterialData&);
 	~MaterialData();     // destructor
 
 	/**
diff --git a/Merlin++/MaterialProperties.h b/Merlin++/MaterialProperties.h
index 07d19cb..3985f5c 100644
--- a/Merlin++/MaterialProperties.h
+++ b/Merlin++/MaterialProperties.h
@@ -65,6 +65,10 @@ public:
 	virtual ~MaterialProperties();
 	MaterialProperties(const MaterialProperties&); // copy constructor
 	MaterialProperties& operator=(const MaterialProperties&); // copy assignment
+	virtual MaterialProperties* Clone() const
+	{
+		return new MaterialProperties(*this);
+	}
 	void SetExtra(std::string, ...);
 	double GetExtra(std::string);
 	bool HaveExtra(std::string);
@@ -82,6 +86,10 @@ public:
 	std::vector<double> V_A;
 	double A_H() override; ///< random nucleus for elastic scattering
 	double A_R() override; ///< random nucleus for Rutherford scattering
+	MaterialProperties* Clone() const override
+	{
+		return new Mixture(*this);
+	}
 	Mixture(std::map<std::string, MaterialProperties*> dict, std::vector<std::string> names, std::vector<double>
 		proportions, double d);
 };
-- 
2.43.0


From 704873956a9d94668d534478b0277d1e1174025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 137/235] fix: collimator settings that cannot be read, are
 incomplete or name an unknown material are refused

---
 Merlin++/CollimatorDatabase.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 535d05c..099706f 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -13,6 +13,7 @@
 #include <map>
 #include <vector>
 
+#include "MerlinException.h"
 #include "CollimatorAperture.h"
 #include "Collimator.h"
 
@@ -37,12 +38,24 @@ CollimatorDatabase::CollimatorDatabase(string input_file, MaterialData* db, bool
 
 	if(input == nullptr || !input->good())
 	{
-		std::cerr << "Failed to open collimator database: " << input_file << " - Exiting." << std::endl;
-		exit(EXIT_FAILURE);
+		delete input;
+		throw MerlinException("Failed to open collimator database: " + input_file);
 	}
 
 	//Find number of elements
 	string buf;
+	size_t number_words = 0;
+	while((*input) >> buf)
+	{
+		number_words++;
+	}
+	if(number_words % (use_sigma ? 5 : 10) != 0)
+	{
+		delete input;
+		throw MerlinException("Incomplete entry in collimator database: " + input_file);
+	}
+	input->clear();
+	input->seekg(0);
 	if(!use_sigma)
 	{
 		while(input->good())
@@ -90,7 +103,17 @@ CollimatorDatabase::CollimatorDatabase(string input_file, MaterialData* db, bool
 		}
 		//buf contains the material name, must search the material database and check that the appropriate material exists, then adjust the material pointer.
 //		CollData[i].JawMaterial = db->FindMaterial(buf);
-		CollData[i].JawMaterial = db->property[buf];
+		auto material = db->property.find(buf);
+		const bool malformed = input->fail();
+		if(malformed || material == db->property.end() || material->second == nullptr)
+		{
+			const string what = malformed ? "Malformed entry" : "Unknown material " + buf;
+			const string where = " in collimator database " + input_file + ": " + CollData[i].name;
+			delete input;
+			delete[] CollData;
+			throw MerlinException(what + where);
+		}
+		CollData[i].JawMaterial = material->second;
 	}
 
 	input->clear();
-- 
2.43.0


From 481dc30b7c9a654a187fefdffe628d341de7d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 138/235] fix: the offsets in a collimator settings file are
 used

---
 Merlin++/CollimatorDatabase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 099706f..ab4ee37 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -153,13 +153,13 @@ void CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model)
 			MaterialProperties* collimator_material = CollData[n].JawMaterial;
 			//Create an aperture for the collimator jaws
 			CollimatorAperture* app = new CollimatorAperture(CollData[n].x_gap, CollData[n].y_gap, CollData[n].tilt,
-				(CMapit->second)->GetLength(), 0, 0);
+				(CMapit->second)->GetLength(), CollData[n].x_offset, CollData[n].y_offset);
 
 			{
 				app->SetExitWidth(CollData[n].x_gap);      //Horizontal
 				app->SetExitHeight(CollData[n].y_gap);    //Vertical
-				app->SetExitXOffset(0); //Horizontal
-				app->SetExitYOffset(0); //Vertical
+				app->SetExitXOffset(CollData[n].x_offset); //Horizontal
+				app->SetExitYOffset(CollData[n].y_offset); //Vertical
 			}
 			(CMapit->second)->SetAperture(app);
 			(CMapit->second)->SetMaterialProperties(collimator_material);
-- 
2.43.0


From d3554b071d73ea88ab12d0f17f9174cd02c1d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 139/235] fix: logging of collimator settings without a log
 file does not use an uninitialised stream

---
 Merlin++/CollimatorDatabase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index ab4ee37..75076bf 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -30,7 +30,7 @@ using namespace PhysicalUnits;
 //Read in file into some sensible structure
 
 CollimatorDatabase::CollimatorDatabase(string input_file, MaterialData* db, bool sigma) :
-	number_collimators(0), use_sigma(sigma), logFlag(false), ErrorLogFlag(false), EnableMatchBeamEnvelope(true),
+	number_collimators(0), use_sigma(sigma), log(&cout), logFlag(false), ErrorLog(&cerr), ErrorLogFlag(false), EnableMatchBeamEnvelope(true),
 	EnableMatchReferenceOrbit(true), JawFlattnessErrors(false), JawAlignmentErrors(false),
 	EnableResistiveCollimatorWakes(false), AngleError(0), PositionError(0)
 {
-- 
2.43.0


From 8d6ab779c5c6bff45adad0bbcd1596cfb9c2d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 140/235] fix: collimators are set from the lattice functions
 at their own entrance and exit, also behind elements without length and with
 rounded positions

---
 Merlin++/CollimatorDatabase.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 75076bf..14be1b1 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -166,6 +166,15 @@ void CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model)
 		}
 	}
 }
+// True if row j of the table is the entrance of the component (and the next row its exit). Other elements without
+// length can start at the same place, and positions are sums of lengths.
+static bool IsEntranceRow(LatticeFunctionTable* twiss, int j, const AcceleratorComponent& component)
+{
+	const double position = component.GetComponentLatticePosition();
+	return j + 1 < twiss->NumberOfRows() && fabs(twiss->Value(0, 0, 0, j) - position) < 1e-6
+		   && fabs(twiss->Value(0, 0, 0, j + 1) - position - component.GetLength()) < 1e-6;
+}
+
 double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double emittance_x, double emittance_y,
 	LatticeFunctionTable* twiss)
 {
@@ -195,10 +204,12 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 		CMapit = CollimatorMap.find(CollData[i].name);
 		if(CMapit != CollimatorMap.end())
 		{
-			for(int j = 0; j < twiss->NumberOfRows(); j++)
+			bool found = false;
+			for(int j = 0; j < twiss->NumberOfRows() && !found; j++)
 			{
-				if((CMapit->second)->GetComponentLatticePosition() == twiss->Value(0, 0, 0, j))
+				if(IsEntranceRow(twiss, j, *(CMapit->second)))
 				{
+					found = true;
 					if(logFlag)
 					{
 						*log << std::setw(20) << (CMapit->second)->GetName() << std::setw(7) << j << std::setw(14)
@@ -562,8 +573,7 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 						}
 						else
 						{
-							std::cerr << "Unsupported collimator configuration in CollimatorDatabase.cpp" << std::endl;
-							exit(1);
+							throw MerlinException("Unsupported collimator configuration in CollimatorDatabase.cpp");
 						}
 
 						//std::cout << "point7" << std::endl;
@@ -597,6 +607,10 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 
 				}
 			}
+			if(!found)
+			{
+				throw MerlinException("No row of the lattice functions is at collimator " + CollData[i].name);
+			}
 		}
 		//}
 	}
-- 
2.43.0


From 626dafda7a050836b74bd3bf334d7fc57028b482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 141/235] fix: ionisation losses use one unit of energy and add
 the most probable loss instead of subtracting it; a particle never gains
 energy in matter

---
 Merlin++/ScatteringModel.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index 93b1321..8d9a350 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -158,7 +158,7 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 		C1 = 0;
 		C0 = 0;
 
-		if((I / eV) < 100)
+		if(I < 100)
 		{
 			if(C <= 3.681)
 			{
@@ -230,9 +230,10 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 	double L2 = -yL2 * yL2 * L2sum;
 
 	double F = G - S + 2 * (L1 + L2);
-	double deltaE = xi * (log(2 * ElectronMassMeV * beta * beta * gamma * gamma * xi / pow(I / MeV, 2)) - (beta
-		* beta) - delta + F + 0.20);
-	double dp = ((xi * land) - deltaE); 
+	// xi is in GeV and I in eV
+	double deltaE = xi * (log(2 * ElectronMassMeV * beta * beta * gamma * gamma * (xi / MeV) / pow(I * eV / MeV, 2))
+		- (beta * beta) - delta + F + 0.20);
+	double dp = std::max((xi * land) + deltaE, 0.0);
 	p.dp() = ((E1 - dp) - E0) / E0;
 }
 
-- 
2.43.0


From a07ad1f572e4fe466741aa5830595a94a530b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 142/235] fix: energy loss and multiple scattering follow the
 material they are given, not the first one seen at its address

---
 Merlin++/ScatteringModel.cpp | 71 +++++++++++++-----------------------
 1 file changed, 25 insertions(+), 46 deletions(-)

diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index 8d9a350..e7bc9e9 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -140,52 +140,32 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 {
 	static MaterialProperties* oldmat = 0;
 	static const double xi1 = 2.0 * pi * pow(ElectronRadius, 2) * ElectronMass * pow(SpeedOfLight, 2);
-	static double C, C0, C1, I, edensity, xi0, plasmaEnergy;
-	if(mat != oldmat)      // new material so do the sums, otherwise they persist
+	// The material's content may change between calls, so do the sums each time
+	const double I = mat->HaveExtra("MeanExcitationEnergy") ? mat->GetExtra("MeanExcitationEnergy") / eV
+		: 10 * mat->Z; // I is in eV
+	const double edensity = (mat->Z) * Avogadro * (mat->density) / (mat->A);
+	const double xi0 = xi1 *  edensity; //  mat->GetExtra("ElectronDensity");
+	const double plasmaEnergy = 28.816 * sqrt((mat->density) * 0.001 * (mat->Z) / (mat->A)); // from 33.1 of the PDG
+	const double C = 1 + 2 * log(I / plasmaEnergy);
+	double C0 = 0;
+	double C1 = 0;
+
+	if(I < 100)
 	{
-		cout << " New Material for energy loss full calculation";
-		if(mat->HaveExtra("MeanExcitationEnergy")) {
-                   I = mat->GetExtra("MeanExcitationEnergy") / eV;
-                   } else {
-                  I=10*mat->Z; // I is in eV
-}
-                cout<<" Excitation energy "<<I;
-		edensity = (mat->Z) * Avogadro * (mat->density) / (mat->A);
-		xi0 = xi1 *  edensity; //  mat->GetExtra("ElectronDensity");
-		plasmaEnergy = 28.816 * sqrt((mat->density) * 0.001 * (mat->Z) / (mat->A)); // from 33.1 of the PDG
-		cout << " plasma energy is " << plasmaEnergy << endl;
-		C = 1 + 2 * log(I / plasmaEnergy); 
-		C1 = 0;
-		C0 = 0;
-
-		if(I < 100)
-		{
-			if(C <= 3.681)
-			{
-				C0 = 0.2;
-				C1 = 2.0;
-			}
-			else
-			{
-				C0 = 0.326 * C - 1.0;
-				C1 = 2.0;
-			}
-		}
-		else //I >= 100eV
-		{
-			if(C <= 5.215)
-			{
-				C0 = 0.2;
-				C1 = 3.0;
-			}
-			else
-			{
-				C0 = 0.326 * C - 1.5;
-				C1 = 3.0;
-			}
-		}
+		C1 = 2.0;
+		C0 = (C <= 3.681) ? 0.2 : 0.326 * C - 1.0;
+	}
+	else //I >= 100eV
+	{
+		C1 = 3.0;
+		C0 = (C <= 5.215) ? 0.2 : 0.326 * C - 1.5;
+	}
+	if(mat != oldmat)
+	{
+		cout << " New Material for energy loss full calculation Excitation energy " << I << " plasma energy is "
+			 << plasmaEnergy << endl;
 		oldmat = mat;
-	}       // end of material setup stuff
+	}
 
 	double E1 = E0 * (1 + p.dp());
 	double gamma = E1 / (ProtonMassMeV * MeV);
@@ -241,11 +221,10 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 void ScatteringModel::Straggle(PSvector& p, double x, MaterialProperties* mat, double E1, double E2)
 {
 	static MaterialProperties* oldmat = 0;
-	static double X;     // radiation length in metres
+	const double X = centimeter * mat->X0 / (mat->density / (gram / cc));     // radiation length in metres
 	static const double root12 = sqrt(12.0);
 	if(mat != oldmat)
 	{
-		X = centimeter * mat->X0 / (mat->density / (gram / cc));
 		cout << " New material in Straggle: radiation length "
                    << setw(12) << setprecision(5) << X << " metres" << endl;
 		oldmat = mat;
-- 
2.43.0


From 26d43c661d99325fb84c6c1945aeb3417eae9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:03 +0000
Subject: [PATCH 143/235] fix: ScatteringModel includes the header for std::max

---
 Merlin++/ScatteringModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index e7bc9e9..35e8af8 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <iomanip>
-- 
2.43.0


From afefb2897369e2b505b5433ba42d8f1c83facd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 144/235] fix: the simple energy loss model of SixTrack loses
 energy

---
 Merlin++/MaterialData.cpp    | 5 +++++
 Merlin++/ScatteringModel.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index ae07d91..5561669 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -88,6 +88,11 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	for(int i = 0; i < int(sizeof(names5) / sizeof(string)); i++)
 		property[names5[i]]->SetExtra("MeanExcitationEnergy", MeanExcitationEnergy[i] * eV);
 
+	string names6[] = {"C", "Al", "Cu", "W"};
+	double sixtrackdEdx[] = {0.68, 0.81, 2.69, 5.79}; // in GeV/m
+	for(int i = 0; i < int(sizeof(names6) / sizeof(string)); i++)
+		property[names6[i]]->SetExtra("SixtrackdEdx", sixtrackdEdx[i]);
+
 	property["AC150K"] = new MaterialProperties(*property["C"]);
 	property["AC150K"]->dEdx = 0.68;
 	property["AC150K"]->density = 1.650 * gram / cc;
diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index 35e8af8..9a90274 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -131,7 +131,10 @@ void ScatteringModel::EnergyLoss(PSvector& p, double x, MaterialProperties* mat,
 //Simple energy loss
 void ScatteringModel::EnergyLossSimple(PSvector& p, double x, MaterialProperties* mat, double E0)
 {
-	double dp = x * (mat->GetExtra("SixtrackdEdx"));
+	// without a SixTrack value (in GeV/m) take that of a minimum ionising particle, dEdx being in MeV cm^2/g
+	double dEdx = mat->HaveExtra("SixtrackdEdx") ? mat->GetExtra("SixtrackdEdx")
+		: mat->dEdx * (mat->density / (gram / cc)) * MeV / centimeter;
+	double dp = x * dEdx;
 	double E1 = E0 * (1 + p.dp());
 	p.dp() = ((E1 - dp) - E0) / E0;
 }
-- 
2.43.0


From b10933a0d2a4962a26ce2c7da7a99302c8aaaf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 145/235] fix: CollimateProtonProcess checks for a scattering
 model before using it

---
 Merlin++/CollimateProtonProcess.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 4de1fcc..12fb254 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -40,6 +40,14 @@ CollimateProtonProcess::CollimateProtonProcess(int priority, int mode, std::ostr
 
 CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Particle& p)
 {
+	//set scattering model
+	if(scattermodel == nullptr)
+	{
+		std::cout << "\nCollimateProtonProcess::SoScatter::WARNING: no ScatteringModel set." << std::endl;
+		std::cout << "Use 'myCollimateProcess->SetScatteringModel(myScatter);'" << std::endl;
+		exit(EXIT_FAILURE);
+	}
+
 	double P0 = currentBunch->GetReferenceMomentum();
 	double E0 = sqrt(P0 * P0 + pow(PhysicalConstants::ProtonMassMeV * PhysicalUnits::MeV, 2));
 
@@ -81,13 +89,6 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
  */
 	const Aperture *colap = C->GetAperture();
 
-	//set scattering model
-	if(scattermodel == nullptr)
-	{
-		std::cout << "\nCollimateProtonProcess::SoScatter::WARNING: no ScatteringModel set." << std::endl;
-		std::cout << "Use 'myCollimateProcess->SetScatteringModel(myScatter);'" << std::endl;
-		exit(EXIT_FAILURE);
-	}
 	while(lengthtogo > 0)
 	{
 		double E1 = E0 * (1 + p.dp());
-- 
2.43.0


From 57ba09972d997c7c4bf2f86e521e80ea0eefe59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 146/235] fix: scattering processes are given the energy of the
 reference particle, which they take dp relative to

---
 Merlin++/CollimateProtonProcess.cpp |  4 ++--
 Merlin++/ScatteringProcess.cpp      | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 12fb254..6885521 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -175,11 +175,11 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 			return ScatterOutcome::survived;
 		}
 
-		//Scattering - use E2
+		//Scattering - the energy given is that of the reference particle
 
 		if(interacted)
 		{
-			if(!scattermodel->ParticleScatter(p, C->GetMaterialProperties(), E2))
+			if(!scattermodel->ParticleScatter(p, C->GetMaterialProperties(), E0))
 			{ // lost
 				p.ct() = z;
 
diff --git a/Merlin++/ScatteringProcess.cpp b/Merlin++/ScatteringProcess.cpp
index 4c74736..7678121 100644
--- a/Merlin++/ScatteringProcess.cpp
+++ b/Merlin++/ScatteringProcess.cpp
@@ -167,7 +167,8 @@ bool Elasticpn::Scatter(PSvector& p, double E) const
 //}
 bool SixTrackElasticpn::Scatter(PSvector& p, double E) const
 {
-	double com_sqd = 2 * ProtonMassMeV * MeV * E;   //ecmsq in SixTrack
+	double E1 = (1 + p.dp()) * E;
+	double com_sqd = 2 * ProtonMassMeV * MeV * E1;   //ecmsq in SixTrack
 	double b_pp = 8.5 + 1.086 * log(sqrt(com_sqd)); // slope given on GeV units
 	double t = -log(RandomNG::uniform(0, 1)) / b_pp;
 
@@ -277,8 +278,9 @@ bool SingleDiffractive::Scatter(PSvector& p, double E) const
 	std::pair<double, double> TM = calculations->Select();
 	double t = TM.first;
 	double m_rec = TM.second;
-	double com_sqd = (2 * ProtonMassMeV * MeV * E) + (2 * ProtonMassMeV * MeV * ProtonMassMeV * MeV);
-	double dp = m_rec * m_rec * E / com_sqd;
+	double E1 = (1 + p.dp()) * E;
+	double com_sqd = (2 * ProtonMassMeV * MeV * E1) + (2 * ProtonMassMeV * MeV * ProtonMassMeV * MeV);
+	double dp = m_rec * m_rec * E1 / com_sqd;
 	ScatterStuff(dp, p, t, E);
 
 	double E3 = (1 + p.dp()) * E;
@@ -301,7 +303,8 @@ bool SingleDiffractive::Scatter(PSvector& p, double E) const
 //}
 bool SixTrackSingleDiffractive::Scatter(PSvector& p, double E) const
 {
-	double com_sqd = 2 * ProtonMassMeV * MeV * E;  //ecmsq in SixTrack
+	double E1 = (1 + p.dp()) * E;
+	double com_sqd = 2 * ProtonMassMeV * MeV * E1;  //ecmsq in SixTrack
 	double b_pp = 8.5 + 1.086 * log(sqrt(com_sqd)); // slope given on GeV units
 	double xm2 = exp(RandomNG::uniform(0, 1) * log(0.15 * com_sqd));
 	double b = 0.0;
@@ -318,7 +321,7 @@ bool SixTrackSingleDiffractive::Scatter(PSvector& p, double E) const
 		b = 7.0 * b_pp / 12.0;
 	}
 	double t = -log(RandomNG::uniform(0, 1)) / b;
-	double dp = xm2 * E / com_sqd;
+	double dp = xm2 * E1 / com_sqd;
 
 	ScatterStuff(dp, p, t, E);
 
-- 
2.43.0


From 6cca0457a5bd13df6ce953caa5eea9d75479250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:54 +0000
Subject: [PATCH 147/235] fix: wire scanners from a MAD table have the length
 of their row

---
 Merlin++/MADInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8300ec7..8161ef5 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -626,7 +626,7 @@ vector<AcceleratorComponent*> MonitorComponent::GetInstance(DataTableRow& MADinp
 	double length = MADinputrow.Get_d("L");
 
 	if(name.substr(0, 2) == "WS")
-		return {new RMSProfileMonitor(name, length)};
+		return {new RMSProfileMonitor(name, pi / 4, length)};
 	else
 		return {new BPM(name, length)};
 }
-- 
2.43.0


From 2adcb42979b3ceea96b62172603b3bcf0064f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:54 +0000
Subject: [PATCH 148/235] fix: components of a model made from a MAD table can
 be found by their type

---
 Merlin++/MADInterface.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8161ef5..53239fa 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <cstdlib>
+#include <typeinfo>
 #include "Components.h"
 #include "MerlinIO.h"
 #include "AcceleratorModelConstructor.h"
@@ -37,6 +38,32 @@ void Log(const string& tag, int depth, ostream& os)
 	os << ' ' << tag << endl;
 }
 
+// Append the component with a frame of its own type, so that it can be found by type in the model
+template<class T>
+bool AppendAs(AcceleratorModelConstructor& constr, AcceleratorComponent& component)
+{
+	if(typeid(component) != typeid(T))
+	{
+		return false;
+	}
+	constr.AppendComponent(static_cast<T&>(component));
+	return true;
+}
+
+void AppendTyped(AcceleratorModelConstructor& constr, AcceleratorComponent& c)
+{
+	if(!(AppendAs<Drift>(constr, c) || AppendAs<SectorBend>(constr, c) || AppendAs<Quadrupole>(constr, c)
+		|| AppendAs<SkewQuadrupole>(constr, c) || AppendAs<Sextupole>(constr, c) || AppendAs<SkewSextupole>(constr, c)
+		|| AppendAs<Octupole>(constr, c) || AppendAs<XCor>(constr, c) || AppendAs<YCor>(constr, c)
+		|| AppendAs<Solenoid>(constr, c) || AppendAs<SWRFStructure>(constr, c)
+		|| AppendAs<TransverseRFStructure>(constr, c) || AppendAs<Collimator>(constr, c)
+		|| AppendAs<HollowElectronLens>(constr, c) || AppendAs<BPM>(constr, c)
+		|| AppendAs<RMSProfileMonitor>(constr, c) || AppendAs<CrabMarker>(constr, c) || AppendAs<Marker>(constr, c)))
+	{
+		constr.AppendComponent(c);
+	}
+}
+
 }
 
 // Class MADInterface
@@ -166,7 +193,7 @@ AcceleratorModel* MADInterface::ConstructModel()
 
 		for(auto component : components)
 		{
-			modelconstr->AppendComponent(*component);
+			AppendTyped(*modelconstr, *component);
 			component->SetComponentLatticePosition(z);
 			z += component->GetLength();
 		}
-- 
2.43.0


From 06d4289be3c06c3dde7a7e8780adfcdcd249eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:54 +0000
Subject: [PATCH 149/235] fix: elements of unknown type in a MAD table keep
 their length

---
 Merlin++/MADInterface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 53239fa..915d5ec 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -673,7 +673,10 @@ vector<AcceleratorComponent*> TypeFactory::GetInstance(DataTableRow& MADinputrow
 	{
 		return (*itr->second)(MADinputrow, brho);
 	}
-	return {};
+	// nothing is known about the element, but what follows must stay in its place
+	MerlinIO::warning() << "MADInterface: unknown type " << type << ": " << MADinputrow.Get_s("NAME")
+						<< (MADinputrow.Get_d("L") != 0 ? " treated as drift" : " ignored") << endl;
+	return DriftComponent::GetInstance(MADinputrow, brho);
 }
 
 TypeFactoryInit::TypeFactoryInit()
-- 
2.43.0


From 477bbb0c1f2b9cf4e0d7f875bb1cfe98f4368900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:54 +0000
Subject: [PATCH 150/235] fix: elements of a MAD table without length have no
 undefined fields

---
 Merlin++/MADInterface.cpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 915d5ec..9a242bd 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -376,6 +376,22 @@ void MADInterface::TreatTypeAsDrift(const std::string& typestr)
 	driftTypes.insert(typestr);
 }
 
+// The field (or curvature) of an element of given integrated strength
+static double PerLength(DataTableRow& MADinputrow, double strength)
+{
+	const double length = MADinputrow.Get_d("L");
+	if(length == 0)
+	{
+		if(strength != 0)
+		{
+			throw MerlinException("MADInterface: " + MADinputrow.Get_s("KEYWORD") + " " + MADinputrow.Get_s("NAME")
+				+ " has an integrated strength but no length");
+		}
+		return 0;
+	}
+	return strength / length;
+}
+
 vector<AcceleratorComponent*> DriftComponent::GetInstance(DataTableRow& MADinputrow, double brho)
 {
 	const string& name = MADinputrow.Get_s("NAME");
@@ -394,12 +410,12 @@ vector<AcceleratorComponent*> RBendComponent::GetInstance(DataTableRow& MADinput
 	double angle = MADinputrow.Get_d("ANGLE");
 	double k1l = MADinputrow.Get_d("K1L");
 	double tilt = MADinputrow.Get_d("TILT");
-	double h = angle / length;
+	double h = PerLength(MADinputrow, angle);
 
 	SectorBend* bend = new SectorBend(name, length, h, brho * h);
 
 	if(k1l)
-		bend->SetB1(brho * k1l / length);
+		bend->SetB1(PerLength(MADinputrow, brho * k1l));
 
 	double e1 = MADinputrow.Get_d("E1");
 	double e2 = MADinputrow.Get_d("E2");
@@ -430,12 +446,12 @@ vector<AcceleratorComponent*> SBendComponent::GetInstance(DataTableRow& MADinput
 	}
 	double k1l = MADinputrow.Get_d("K1L");
 	double tilt = MADinputrow.Get_d("TILT");
-	double h = angle / length;
+	double h = PerLength(MADinputrow, angle);
 
 	SectorBend* bend = new SectorBend(name, length, h, brho * h);
 
 	if(k1l)
-		bend->SetB1(brho * k1l / length);
+		bend->SetB1(PerLength(MADinputrow, brho * k1l));
 
 	double e1 = MADinputrow.Get_d("E1");
 	double e2 = MADinputrow.Get_d("E2");
@@ -458,7 +474,7 @@ vector<AcceleratorComponent*> QuadrupoleComponent::GetInstance(DataTableRow& MAD
 	double length = MADinputrow.Get_d("L");
 	double k1l = MADinputrow.Get_d("K1L");
 
-	return {new Quadrupole(name, length, brho * k1l / length)};
+	return {new Quadrupole(name, length, PerLength(MADinputrow, brho * k1l))};
 }
 
 vector<AcceleratorComponent*> SkewQuadrupoleComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -467,7 +483,7 @@ vector<AcceleratorComponent*> SkewQuadrupoleComponent::GetInstance(DataTableRow&
 	double length = MADinputrow.Get_d("L");
 	double k1l = MADinputrow.Get_d("K1L");
 
-	return {new SkewQuadrupole(name, length, brho * k1l / length)};
+	return {new SkewQuadrupole(name, length, PerLength(MADinputrow, brho * k1l))};
 }
 
 vector<AcceleratorComponent*> SextupoleComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -476,7 +492,7 @@ vector<AcceleratorComponent*> SextupoleComponent::GetInstance(DataTableRow& MADi
 	double length = MADinputrow.Get_d("L");
 	double k2l = MADinputrow.Get_d("K2L");
 
-	return {new Sextupole(name, length, brho * k2l / length)};
+	return {new Sextupole(name, length, PerLength(MADinputrow, brho * k2l))};
 }
 
 vector<AcceleratorComponent*> SkewSextupoleComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -485,7 +501,7 @@ vector<AcceleratorComponent*> SkewSextupoleComponent::GetInstance(DataTableRow&
 	double length = MADinputrow.Get_d("L");
 	double k2l = MADinputrow.Get_d("K2L");
 
-	return {new SkewSextupole(name, length, brho * k2l / length)};
+	return {new SkewSextupole(name, length, PerLength(MADinputrow, brho * k2l))};
 }
 
 vector<AcceleratorComponent*> OctupoleComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -494,7 +510,7 @@ vector<AcceleratorComponent*> OctupoleComponent::GetInstance(DataTableRow& MADin
 	double length = MADinputrow.Get_d("L");
 	double k3l = MADinputrow.Get_d("K3L");
 
-	return {new Octupole(name, length, brho * k3l / length)};
+	return {new Octupole(name, length, PerLength(MADinputrow, brho * k3l))};
 }
 
 vector<AcceleratorComponent*> YCorComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -547,7 +563,7 @@ vector<AcceleratorComponent*> SolenoidComponent::GetInstance(DataTableRow& MADin
 	double length = MADinputrow.Get_d("L");
 	double ks = MADinputrow.Get_d("KS");
 
-	return {new Solenoid(name, length, brho * ks / length)};
+	return {new Solenoid(name, length, PerLength(MADinputrow, brho * ks))};
 }
 
 vector<AcceleratorComponent*> RFCavityComponentSingleCell::GetInstance(DataTableRow& MADinputrow, double brho)
-- 
2.43.0


From 5d1e83cb0c31f41421415056d5c12701928cc48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:54 +0000
Subject: [PATCH 151/235] fix: bends of a MAD table can be given by either
 ANGLE or K0L, also with radiation

---
 Merlin++/MADInterface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 9a242bd..221c7bd 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -187,7 +187,8 @@ AcceleratorModel* MADInterface::ConstructModel()
 
 		if(inc_sr && (type == "SBEND" || type == "RBEND"))
 		{
-			momentum -= SRdE(MADinputrow.Get_d("ANGLE") / length, length, momentum);
+			const double angle = MADinputrow.Get_d(MADinputrow.get_dt()->HasCol("ANGLE") ? "ANGLE" : "K0L");
+			momentum -= SRdE(angle / length, length, momentum);
 			brho = momentum / eV / SpeedOfLight;
 		}
 
@@ -227,7 +228,7 @@ void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY");
 	if(keyword == "RCOLLIMATOR" || keyword == "ECOLLIMATOR")
 		MADinputrow.Set_s("KEYWORD", "COLLIMATOR");
-	if(keyword == "RBEND" && MADinputrow.Get_d("K0L"))
+	if(keyword == "RBEND" && MADinputrow.get_dt()->HasCol("K0L") && MADinputrow.Get_d("K0L"))
 		MADinputrow.Set_s("KEYWORD", "SBEND");
 	if(single_cell_rf && MADinputrow.Get_s("KEYWORD") == "RFCAVITY")
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY_SingleCell");
@@ -407,7 +408,7 @@ vector<AcceleratorComponent*> RBendComponent::GetInstance(DataTableRow& MADinput
 {
 	const string& name = MADinputrow.Get_s("NAME");
 	double length = MADinputrow.Get_d("L");
-	double angle = MADinputrow.Get_d("ANGLE");
+	double angle = MADinputrow.Get_d(MADinputrow.get_dt()->HasCol("ANGLE") ? "ANGLE" : "K0L");
 	double k1l = MADinputrow.Get_d("K1L");
 	double tilt = MADinputrow.Get_d("TILT");
 	double h = PerLength(MADinputrow, angle);
-- 
2.43.0


From 4a6e42a86eb1737acae40d6636c09184ef27c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:54 +0000
Subject: [PATCH 152/235] fix: several MAD tables can be appended to one model

---
 Merlin++/MADInterface.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 221c7bd..42f95c0 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -135,6 +135,7 @@ AcceleratorModel* MADInterface::ConstructModel()
 	if(modelconstr != nullptr && appendFlag == false)
 	{
 		delete modelconstr;
+		modelconstr = nullptr;
 	}
 	if(modelconstr == nullptr && appendFlag == false)
 	{
@@ -200,6 +201,13 @@ AcceleratorModel* MADInterface::ConstructModel()
 		}
 	} //End for loop
 
+	delete factory;
+	if(appendFlag)
+	{
+		// more may follow, see GetModel()
+		return nullptr;
+	}
+
 	if(logFlag && log)
 	{
 		*log << endl;
@@ -214,7 +222,6 @@ AcceleratorModel* MADInterface::ConstructModel()
 
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
-	delete factory;
 	modelconstr = nullptr;
 	return theModel;
 }
@@ -326,7 +333,7 @@ void MADInterface::AppendModel(const string& fname, double Pref)
 	if(!(*ifs))
 	{
 		MERLIN_ERR << "ERROR opening file " << fname << endl;
-		abort();
+		throw MerlinException("ERROR opening file " + fname);
 	}
 
 	if(modelconstr == nullptr)
@@ -358,6 +365,8 @@ AcceleratorModel* MADInterface::GetModel()
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
 	modelconstr = nullptr;
+	appendFlag = false;
+	z = 0;
 	return theModel;
 }
 
-- 
2.43.0


From 0a1b2afabd41bc9c112b4026b8d43f1348c2b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:55 +0000
Subject: [PATCH 153/235] fix: keep the particle species when tracking a copy
 of a bunch

---
 Merlin++/BunchConstructor.h | 2 +-
 Merlin++/ElectronBunch.h    | 8 ++++++++
 Merlin++/MuonBunch.h        | 8 ++++++++
 Merlin++/ParticleBunch.h    | 8 ++++++++
 Merlin++/ProtonBunch.h      | 8 ++++++++
 Merlin++/SMPBunch.h         | 8 ++++++++
 6 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/Merlin++/BunchConstructor.h b/Merlin++/BunchConstructor.h
index b4b6f7d..69f7eb5 100644
--- a/Merlin++/BunchConstructor.h
+++ b/Merlin++/BunchConstructor.h
@@ -92,7 +92,7 @@ StaticBunchCtor<B>::~StaticBunchCtor()
 template<class B>
 Bunch* StaticBunchCtor<B>::ConstructBunch(int bunchIndex) const
 {
-	return new B(*sourceBunch);
+	return sourceBunch->Clone();
 }
 
 template<class B>
diff --git a/Merlin++/ElectronBunch.h b/Merlin++/ElectronBunch.h
index 0244b1f..0f75618 100644
--- a/Merlin++/ElectronBunch.h
+++ b/Merlin++/ElectronBunch.h
@@ -55,6 +55,14 @@ public:
 	{
 	}
 
+	/**
+	 *	Returns a copy of the bunch, of the same kind. The caller owns the copy.
+	 */
+	virtual ElectronBunch* Clone() const
+	{
+		return new ElectronBunch(*this);
+	}
+
 	virtual bool IsStable() const;
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
diff --git a/Merlin++/MuonBunch.h b/Merlin++/MuonBunch.h
index 60b2df0..f728340 100644
--- a/Merlin++/MuonBunch.h
+++ b/Merlin++/MuonBunch.h
@@ -53,6 +53,14 @@ public:
 	{
 	}
 
+	/**
+	 *	Returns a copy of the bunch, of the same kind. The caller owns the copy.
+	 */
+	virtual MuonBunch* Clone() const
+	{
+		return new MuonBunch(*this);
+	}
+
 	virtual bool IsStable() const;
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
diff --git a/Merlin++/ParticleBunch.h b/Merlin++/ParticleBunch.h
index fef59a9..e0a8a0b 100644
--- a/Merlin++/ParticleBunch.h
+++ b/Merlin++/ParticleBunch.h
@@ -69,6 +69,14 @@ public:
 	ParticleBunch(size_t np, const ParticleDistributionGenerator & generator, const BeamData& beam,
 		ParticleBunchFilter* filter = nullptr);
 
+	/**
+	 *	Returns a copy of the bunch, of the same kind. The caller owns the copy.
+	 */
+	virtual ParticleBunch* Clone() const
+	{
+		return new ParticleBunch(*this);
+	}
+
 	/**
 	 *	Returns the total charge (in units of e).
 	 *	@return Total charge (e)
diff --git a/Merlin++/ProtonBunch.h b/Merlin++/ProtonBunch.h
index 50c5ba6..d870114 100644
--- a/Merlin++/ProtonBunch.h
+++ b/Merlin++/ProtonBunch.h
@@ -56,6 +56,14 @@ public:
 	{
 	}
 
+	/**
+	 *	Returns a copy of the bunch, of the same kind. The caller owns the copy.
+	 */
+	virtual ProtonBunch* Clone() const
+	{
+		return new ProtonBunch(*this);
+	}
+
 	virtual bool IsStable() const;
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
diff --git a/Merlin++/SMPBunch.h b/Merlin++/SMPBunch.h
index d13e375..7257ed7 100644
--- a/Merlin++/SMPBunch.h
+++ b/Merlin++/SMPBunch.h
@@ -55,6 +55,14 @@ public:
 	 */
 	virtual ~SMPBunch();
 
+	/**
+	 *	Returns a copy of the bunch, of the same kind. The caller owns the copy.
+	 */
+	virtual SMPBunch* Clone() const
+	{
+		return new SMPBunch(*this);
+	}
+
 	/**
 	 *	Returns the total charge (in units of e).
 	 */
-- 
2.43.0


From 2e89c4192b23df326d23930df69e53ae7d0fc1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:04 +0000
Subject: [PATCH 154/235] fix: let closed orbits and transfer matrices be found
 with radiation

---
 Merlin++/ClosedOrbit.cpp    | 11 ++++++++---
 Merlin++/TransferMatrix.cpp | 13 ++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/Merlin++/ClosedOrbit.cpp b/Merlin++/ClosedOrbit.cpp
index 91ffbcb..7874f05 100644
--- a/Merlin++/ClosedOrbit.cpp
+++ b/Merlin++/ClosedOrbit.cpp
@@ -6,6 +6,7 @@
  */
 
 #include "ParticleBunch.h"
+#include "ElectronBunch.h"
 #include "SynchRadParticleProcess.h"
 #include "RingDeltaTProcess.h"
 #include "ClosedOrbit.h"
@@ -20,8 +21,8 @@ using namespace TLAS;
 using namespace ParticleTracking;
 
 ClosedOrbit::ClosedOrbit(AcceleratorModel* aModel, double refMomentum) :
-	theModel(aModel), p0(refMomentum), transverseOnly(false), radiation(false), useFullAcc(false), delta(1.0e-9), tol(
-		1.0e-26), max_iter(20), bendscale(0), theTracker(new ParticleTracker)
+	w(0), iter(0), theModel(aModel), p0(refMomentum), transverseOnly(false), radiation(false), useFullAcc(false), delta(1.0e-9), tol(
+		1.0e-26), max_iter(20), radstepsize(0), radnumsteps(1), bendscale(0), theTracker(new ParticleTracker)
 {
 }
 
@@ -91,7 +92,10 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 {
 	const int cpt = transverseOnly ? 4 : 6;
 
-	ParticleBunch bunch(p0, 1.0);
+	// Only the radiation depends on the kind of particle
+	ParticleBunch particleBunch(p0, 1.0);
+	ElectronBunch electronBunch(p0, 1.0);
+	ParticleBunch& bunch = radiation ? electronBunch : particleBunch;
 	int k = 0;
 	for(k = 0; k < cpt + 1; k++)
 	{
@@ -207,6 +211,7 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 	if(srproc)
 	{
 		theTracker->RemoveProcess(srproc);
+		delete srproc;
 	}
 	if(ringdt)
 	{
diff --git a/Merlin++/TransferMatrix.cpp b/Merlin++/TransferMatrix.cpp
index 95a7291..c36285f 100644
--- a/Merlin++/TransferMatrix.cpp
+++ b/Merlin++/TransferMatrix.cpp
@@ -6,6 +6,7 @@
  */
 
 #include "ParticleBunch.h"
+#include "ElectronBunch.h"
 #include "ParticleTracker.h"
 #include "SynchRadParticleProcess.h"
 #include "RingDeltaTProcess.h"
@@ -16,7 +17,7 @@
 using namespace ParticleTracking;
 
 TransferMatrix::TransferMatrix(AcceleratorModel* aModel, double refMomentum) :
-	theModel(aModel), p0(refMomentum), radiation(false), obspnt(0), delta(1.0e-9), bendscale(0)
+	theModel(aModel), p0(refMomentum), radiation(false), obspnt(0), delta(1.0e-9), radstepsize(0), radnumsteps(1), bendscale(0)
 {
 }
 
@@ -105,7 +106,10 @@ void TransferMatrix::FindClosedOrbitTM(RealMatrix& M, PSvector& orbit)
 
 void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 {
-	ParticleBunch bunch(p0, 1.0);
+	// Only the radiation depends on the kind of particle
+	ParticleBunch particleBunch(p0, 1.0);
+	ElectronBunch electronBunch(p0, 1.0);
+	ParticleBunch& bunch = radiation ? electronBunch : particleBunch;
 	int k = 0;
 	for(k = 0; k < 7; k++)
 	{
@@ -165,7 +169,10 @@ void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 
 void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit, int n1, int n2)
 {
-	ParticleBunch bunch(p0, 1.0);
+	// Only the radiation depends on the kind of particle
+	ParticleBunch particleBunch(p0, 1.0);
+	ElectronBunch electronBunch(p0, 1.0);
+	ParticleBunch& bunch = radiation ? electronBunch : particleBunch;
 	int k = 0;
 	for(k = 0; k < 7; k++)
 	{
-- 
2.43.0


From c56e0636d68f04dc8980f949cc82854cb16e6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:15 +0000
Subject: [PATCH 155/235] fix: start the rms dispersion from the dispersion at
 the entrance

---
 Merlin++/Dispersion.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/Dispersion.cpp b/Merlin++/Dispersion.cpp
index d81dd81..472d9c6 100644
--- a/Merlin++/Dispersion.cpp
+++ b/Merlin++/Dispersion.cpp
@@ -68,7 +68,8 @@ void Dispersion::FindRMSDispersion(ostream* file)
 	double len = 0.0;
 	double dl = 0.0;
 	double prev[2];
-	prev[0] = prev[1] = 0;
+	prev[0] = (q.x() - p.x()) / 2 / delta;
+	prev[1] = (q.y() - p.y()) / 2 / delta;
 	double pres[2];
 	double rmsD[2];
 	rmsD[0] = rmsD[1] = 0;
@@ -78,14 +79,15 @@ void Dispersion::FindRMSDispersion(ostream* file)
 
 	do
 	{
+		dl = tracker.GetCurrentComponent().GetLength();
+		loop = tracker.StepComponent();
+		len += dl;
+
 		if(file)
 		{
 			*file << std::setw(14) << len;
 		}
 
-		dl = tracker.GetCurrentComponent().GetLength();
-		loop = tracker.StepComponent();
-
 		// This is a little clumsy, but is a direct result of not
 		// having random access for std::list!
 		ParticleBunch::const_iterator ip = tracker.GetTrackedBunch().begin();
@@ -108,8 +110,6 @@ void Dispersion::FindRMSDispersion(ostream* file)
 			*file << std::endl;
 		}
 
-		len += dl;
-
 	} while(loop);
 
 	DxRMS = sqrt(rmsD[0] / len);
-- 
2.43.0


From b1430d3f60d0f8945f4b1c437850bb60ccac22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 156/235] fix: let equilibrium emittances be calculated

---
 Merlin++/EquilibriumDistribution.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index 412bf3e..7892a72 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -14,7 +14,6 @@
 #include "PhysicalConstants.h"
 #include "PhysicalUnits.h"
 #include "MatrixPrinter.h"
-#include "Interpolation.h"
 
 // The following constants specify the integration precision
 #define EPS 1.0e-8
@@ -100,8 +99,24 @@ double IntegrateEigenvector::romberg(double a, double b)
 		s[j] = trapezium(a, b, j);
 		if(j >= K)
 		{
-			Interpolation I(h + j - K, s + j - K, K, K);
-			value = I.itsMethod->ValueAt(0.0, &error);
+			// extrapolate to zero step size with the polynomial through the last K values (Neville)
+			double c[K];
+			for(int i = 0; i < K; i++)
+			{
+				c[i] = s[j - K + 1 + i];
+			}
+			error = 0;
+			for(int m = 1; m < K; m++)
+			{
+				for(int i = 0; i < K - m; i++)
+				{
+					double hi = h[j - K + 1 + i];
+					double hm = h[j - K + 1 + i + m];
+					error = hm * (c[i + 1] - c[i]) / (hi - hm);
+					c[i] = c[i + 1] + error;
+				}
+			}
+			value = c[0];
 			if(fabs(error) <= EPS * fabs(value))
 			{
 				return value;
@@ -114,9 +129,10 @@ double IntegrateEigenvector::romberg(double a, double b)
 
 double IntegrateEigenvector::Integral(ComplexVector& Ek, SectorBend* sb, double p0)
 {
-	ek = Ek;
+	ek.copy(Ek);
 	h = sb->GetB0() * eV * SpeedOfLight / p0;
-	k = sqrt(Complex(sb->GetB1() * eV * SpeedOfLight / p0, 0));
+	// horizontal focusing: geometric and from the gradient
+	k = sqrt(Complex(h * h + sb->GetB1() * eV * SpeedOfLight / p0, 0));
 
 	SectorBend::PoleFace* pf = (sb->GetPoleFaceInfo()).entrance;
 	tanE1 = pf ? tan(pf->rot) : 0.0;
-- 
2.43.0


From b5505762801cf2d8b1771d30913ce228c70a4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 157/235] fix: interpolate tunes between the bins of the
 spectral peak

---
 Merlin++/BetatronTunes.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index dfa7817..868c30f 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -119,21 +119,27 @@ double BetatronTunes::FindTune(vector<double>& data)
 	double peak_height = 0.0;
 	int peak_position = 0;
 
-	// skip artifacts in first 2 bins
-	for(int i = 2; i < 2 * nvals; i += 2)
+	for(int i = 0; i < 2 * nvals; i += 2)
 	{
 		double vamp = sqrt(data[i] * data[i] + data[i + 1] * data[i + 1]);
 		spectrum.push_back(vamp);
-		if(vamp > peak_height)
+		// skip the artifact in the first bin
+		if(i > 0 && vamp > peak_height)
 		{
 			peak_height = vamp;
 			peak_position = i / 2;
 		}
 	}
 
+	// the tune lies between the highest bin and the higher of its neighbours
+	if(spectrum[(peak_position + nvals - 1) % nvals] > spectrum[(peak_position + 1) % nvals])
+	{
+		peak_position--;
+	}
+
 	double norm = sqrt(double(nvals));
 	double centr_peak = spectrum[peak_position] / norm;
-	double right_peak = spectrum[peak_position + 1] / norm;
+	double right_peak = spectrum[(peak_position + 1) % nvals] / norm;
 
 	double peak_correction = nvals * asin(amp(centr_peak, right_peak, cos(twoPi / nvals))
 		* sin(twoPi / double(nvals))) / twoPi;
-- 
2.43.0


From fa63749e61801354c9b65dbebbfd0d050f9bcfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 158/235] fix: count the whole turns of phase advances

---
 Merlin++/PhaseAdvance.cpp | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index ecf305c..59852e2 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -118,7 +118,7 @@ RealMatrix PhaseAdvance::TransferMapBetween(int n1, int n2)
 	tm.SetDelta(delta);
 	tm.ScaleBendPathLength(bendscale);
 
-	co.FindClosedOrbit(p2);
+	co.FindClosedOrbit(p2, n1);
 	//~ std::cout << "PhaseAdvance::TransferMapBetween: ClosedOrbit done" << endl;
 	tm.FindTM(M, p2, n1, n2);
 	//~ std::cout << "PhaseAdvance::TransferMapBetween: TransferMatrix done" << endl;
@@ -143,35 +143,15 @@ std::pair<double, double> PhaseAdvance::CalcIntegerPart(int n)
 	//MuY = theTwiss->Value(0,0,2,n)
 	double mux(0.), muy(0.);
 	int intmux(0), intmuy(0);
-	double last_mux(0.), last_muy(0.);
 
-	//Iterate through all elements to sum integer parts
-	for(int i = 1; i < n; ++i)
+	// The fractional part starts again from zero at every whole turn: count the jumps,
+	// allowing for small fluctuations
+	for(int i = 1; i <= n; ++i)
 	{
-		if((theTwiss->Value(0, 0, 1, i) == last_mux) || (theTwiss->Value(0, 0, 1, i) <= 0.))
-		{
-		}
-		else if((theTwiss->Value(0, 0, 1, i) < last_mux))
-		{
-			//~ if( (theTwiss->Value(0,0,1,i)/last_mux) < 0.9999999999){ //to stop iteration for small fluctuations
-			if((theTwiss->Value(0, 0, 1, i) / last_mux) < 0.9999)  //to stop iteration for small fluctuations
-			{
-				++intmux;
-			}
-		}
-		if(theTwiss->Value(0, 0, 2, i) == last_muy || (theTwiss->Value(0, 0, 2, i) <= 0.))
-		{
-		}
-		else if(theTwiss->Value(0, 0, 2, i) < last_muy)
-		{
-			//~ if( (theTwiss->Value(0,0,2,i)/last_muy) < 0.9999999999){ //to stop iteration for small fluctuations
-			if((theTwiss->Value(0, 0, 2, i) / last_muy) < 0.9999)  //to stop iteration for small fluctuations
-			{
-				++intmuy;
-			}
-		}
-		last_mux = theTwiss->Value(0, 0, 1, i);
-		last_muy = theTwiss->Value(0, 0, 2, i);
+		double dmux = theTwiss->Value(0, 0, 1, i) - theTwiss->Value(0, 0, 1, i - 1);
+		double dmuy = theTwiss->Value(0, 0, 2, i) - theTwiss->Value(0, 0, 2, i - 1);
+		intmux += (dmux < -0.01) - (dmux > 0.99);
+		intmuy += (dmuy < -0.01) - (dmuy > 0.99);
 	}
 
 	mux = intmux + theTwiss->Value(0, 0, 1, n);
-- 
2.43.0


From 8ca07b809387a3dc58a49e934c0246a05f7cb47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:00 +0000
Subject: [PATCH 159/235] fix: refuse lattice functions that do not exist

---
 Merlin++/LatticeFunctions.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index b8abf98..f0bce4c 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <fstream>
+#include <sstream>
 #include <vector>
 #include <algorithm>
 #include "ParticleBunch.h"
@@ -228,7 +229,7 @@ public:
 		double v = 0;
 
 		lfn->GetIndices(i, j, k);
-		if((k == 3) & !OKflag)
+		if(!OKflag && (k == 3 || (k > 0 && (i > 4 || j > 4))))
 		{
 			cout << " Illegal attempt to calculate longitudinal lattice parameter with unstable motion" << endl;
 			cout << " If your lattice has no RF cavities then consider using" << endl;
@@ -355,8 +356,7 @@ double LatticeFunctionTable::DoCalculate(double cscale, PSvector* pInit, RealMat
 		cout << "SetForceLongitudinalStability enabled" << endl;
 		if(fabs(M(4, 4) - 1) > 1e-8)
 		{
-			cout << "R_55 not close to 1. Do you have RF enabled? Aborting" << endl;
-			exit(1);
+			throw MerlinException("LatticeFunctionTable: R_55 not close to 1. Do you have RF enabled?");
 		}
 
 		cout << "Setting R_55 to 1 - 1e-12" << endl;
@@ -365,13 +365,20 @@ double LatticeFunctionTable::DoCalculate(double cscale, PSvector* pInit, RealMat
 		cout << endl;
 	}
 
+	// Without cavities the energy deviation never changes and there is no longitudinal motion
+	bool longitudinal = forcelongstab;
+	for(int col = 0; col < 5; col++)
+	{
+		longitudinal = longitudinal || M(5, col) != 0;
+	}
+
 	ComplexVector eigenvalues(3);
 	ComplexMatrix eigenvectors(3, 6);
 	if(symplectify)
 	{
 		Symplectify(M);
 	}
-	bool eigenOK = EigenSystem(M, eigenvalues, eigenvectors);
+	bool eigenOK = EigenSystem(M, eigenvalues, eigenvectors) && longitudinal;
 	Ndim = eigenOK ? 3 : 2;      // drop longitudinal dimension if not convergent
 	Nsize = 2 * Ndim;
 
@@ -632,7 +639,9 @@ vectorlfn::iterator LatticeFunctionTable::GetColumn(int i, int j, int k)
 		}
 	}
 
-	return lfnit;
+	ostringstream msg;
+	msg << "LatticeFunctionTable: no function (" << i << "," << j << "," << k << ")";
+	throw MerlinException(msg.str());
 }
 
 double LatticeFunctionTable::Mean(int i, int j, int k, int n1, int n2)
-- 
2.43.0


From 37f1c97205bebfa660c82e92f1961e24a0e02e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:00 +0000
Subject: [PATCH 160/235] fix: make orbit tables agree with the full lattice
 function tables

---
 Merlin++/LatticeFunctions.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index f0bce4c..1e43ead 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -525,6 +525,7 @@ double LatticeFunctionTable::DoCalculateOrbitOnly(double cscale, PSvector* pInit
 	{
 		ClosedOrbit co(theModel, p0);
 		co.SetDelta(delta);
+		co.TransverseOnly(true);
 		co.ScaleBendPathLength(cscale);
 		co.FindClosedOrbit(p);
 	}
@@ -542,6 +543,7 @@ double LatticeFunctionTable::DoCalculateOrbitOnly(double cscale, PSvector* pInit
 	}
 
 	bool loop = true;
+	bool isMore = true;
 	tracker.InitStepper();
 
 	double s = 0;
@@ -554,11 +556,21 @@ double LatticeFunctionTable::DoCalculateOrbitOnly(double cscale, PSvector* pInit
 		const Particle& pref = *ip++;
 
 		for_each(lfnlist.begin(), lfnlist.end(), CalculateLatticeFunction(s, pref, N1));
-		s += tracker.GetCurrentComponent().GetLength();
-		loop = tracker.StepComponent();
+
+		// one row at the entrance of every element, and one at the end
+		if(isMore)
+		{
+			s += tracker.GetCurrentComponent().GetLength();
+			isMore = tracker.StepComponent();
+		}
+		else
+		{
+			loop = false;
+		}
 
 	} while(loop);
 
+	delete particle;
 	return p.dp();
 }
 
-- 
2.43.0


From 650569fb275a9feec6105013c153ccc042b4dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:00 +0000
Subject: [PATCH 161/235] fix: calculate energy derivatives of lattice
 functions at different energies

---
 Merlin++/LatticeFunctions.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index 1e43ead..343fbff 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -298,11 +298,21 @@ public:
 
 void LatticeFunctionTable::CalculateEnergyDerivative()
 {
-	double dpP = orbitonly ? DoCalculateOrbitOnly(bendscale) : DoCalculate(bendscale);
+	// The path length scaling sets the energy, so find the orbits in all coordinates
+	ClosedOrbit co(theModel, p0);
+	co.SetDelta(delta);
+	PSvector orbitP(0);
+	co.ScaleBendPathLength(bendscale);
+	co.FindClosedOrbit(orbitP);
+	PSvector orbitM(0);
+	co.ScaleBendPathLength(-bendscale);
+	co.FindClosedOrbit(orbitM);
+
+	double dpP = orbitonly ? DoCalculateOrbitOnly(bendscale, &orbitP) : DoCalculate(bendscale, &orbitP);
 	vectorlfn lfnP;
 	for_each(lfnlist.begin(), lfnlist.end(), CopyLatticeFunction(lfnP));
 
-	double dpM = orbitonly ? DoCalculateOrbitOnly(-bendscale) : DoCalculate(-bendscale);
+	double dpM = orbitonly ? DoCalculateOrbitOnly(-bendscale, &orbitM) : DoCalculate(-bendscale, &orbitM);
 	vectorlfn lfnM;
 	for_each(lfnlist.begin(), lfnlist.end(), CopyLatticeFunction(lfnM));
 
@@ -317,6 +327,8 @@ void LatticeFunctionTable::CalculateEnergyDerivative()
 		(*lfnit)->Derivative(*lfnitM, *lfnitP, dp);
 	}
 
+	for_each(lfnP.begin(), lfnP.end(), DeleteLatticeFunction());
+	for_each(lfnM.begin(), lfnM.end(), DeleteLatticeFunction());
 }
 
 double LatticeFunctionTable::DoCalculate(double cscale, PSvector* pInit, RealMatrix* MInit)
-- 
2.43.0


From 7f2a49a54abcb84a80740822c2c30a5700039cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 162/235] fix: hollow electron lens: the kick of a displaced
 lens points to the centre of the lens

---
 Merlin++/HollowELensProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index d1e296c..4bcbd64 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -100,7 +100,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 
 			if(theta != 0)
 			{
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				//~ // Particle phase space angle and amplitude (radius)
 				(*p).xp() += theta * cos(ParticleAngle);
 				(*p).yp() += theta * sin(ParticleAngle);
@@ -147,7 +147,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					double Phi = Multiplier * (Turn * OpTune * 2 * pi);
 					theta *= 0.5 * (1 + cos(Phi));
 
-					ParticleAngle = atan2((*p).y(), (*p).x());
+					ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 					// Particle phase space angle and amplitude (radius)
 					(*p).xp() += theta * cos(ParticleAngle);
 					(*p).yp() += theta * sin(ParticleAngle);
@@ -178,7 +178,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
@@ -212,7 +212,7 @@ void HollowELensProcess::DoProcess(double /*ds*/)
 					theta = CalcKickRadial(*p);
 				}
 
-				ParticleAngle = atan2((*p).y(), (*p).x());
+				ParticleAngle = atan2((*p).y() - currentComponentHEL->YOffset, (*p).x() - currentComponentHEL->XOffset);
 				if(theta != 0)
 				{
 					// Particle phase space angle and amplitude (radius)
-- 
2.43.0


From 4d480fa82ee0b855cfaa035560ba9defecd2da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 163/235] fix: hollow electron lens: one kick per passage when
 another process asks for several steps

---
 Merlin++/HollowELensProcess.cpp | 13 +++++++++++--
 Merlin++/HollowELensProcess.h   |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index 4bcbd64..4079923 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -22,7 +22,7 @@ namespace ParticleTracking
 {
 
 HollowELensProcess::HollowELensProcess(int priority) :
-	ParticleBunchProcess("HOLLOW ELECTRON LENS", priority), currentComponentHEL(nullptr)
+	ParticleBunchProcess("HOLLOW ELECTRON LENS", priority), currentComponentHEL(nullptr), ProtonBeta(0), integrated(0)
 {
 }
 
@@ -39,6 +39,7 @@ void HollowELensProcess::SetCurrentComponent(AcceleratorComponent& component)
 {
 	HollowElectronLens* aHollowELens = dynamic_cast<HollowElectronLens*>(&component);
 	active = (currentBunch != nullptr) && (aHollowELens);
+	integrated = 0;
 
 	if(active)
 	{
@@ -54,8 +55,16 @@ void HollowELensProcess::SetCurrentComponent(AcceleratorComponent& component)
 	}
 }
 
-void HollowELensProcess::DoProcess(double /*ds*/)
+void HollowELensProcess::DoProcess(double ds)
 {
+	// One kick per passage, at the exit, however many steps other processes ask for
+	const double length = currentComponent->GetLength();
+	integrated += ds;
+	if(integrated < length && !fequal(integrated, length, 1e-14 * (1 + length)))
+	{
+		return;
+	}
+
 	// NB
 	// CalcThetaMax returns +ve theta
 	// CalcKick Radial and Simple return -ve theta
diff --git a/Merlin++/HollowELensProcess.h b/Merlin++/HollowELensProcess.h
index 3bcd349..a76ff12 100644
--- a/Merlin++/HollowELensProcess.h
+++ b/Merlin++/HollowELensProcess.h
@@ -80,6 +80,7 @@ private:
 	// Data Members for Class Attributes
 	HollowElectronLens* currentComponentHEL;
 	double ProtonBeta;
+	double integrated;
 };
 
 } // end namespace ParticleTracking
-- 
2.43.0


From 993a61256ab6a17d0a6eafb0600deee7d33c5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 164/235] fix: hollow electron lens: defined state after
 construction, also with an invalid mode

---
 Merlin++/HollowElectronLens.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/HollowElectronLens.cpp b/Merlin++/HollowElectronLens.cpp
index e426263..819dc72 100644
--- a/Merlin++/HollowElectronLens.cpp
+++ b/Merlin++/HollowElectronLens.cpp
@@ -14,8 +14,8 @@ const int HollowElectronLens::ID = UniqueIndex();
 
 HollowElectronLens::HollowElectronLens(const string& id, double len, int mode, double current, double beta_e, double
 	rigidity, double length_e) :
-	Drift(id, len), Current(current), ElectronBeta(beta_e), Rigidity(rigidity), EffectiveLength(length_e), XOffset(0),
-	YOffset(0), Turn(0), SkipTurn(0), ACSet(0), SimpleProfile(1), AlignedToOrbit(0), ElectronDirection(1), LHC_Radial(
+	Drift(id, len), Rmin(0), Rmax(0), Current(current), ElectronBeta(beta_e), Rigidity(rigidity), EffectiveLength(length_e), Sigma_x(1), XOffset(0),
+	YOffset(0), Tune(0), DeltaTune(0), TuneVarPerStep(0), TurnsPerStep(1), Multiplier(1), Nstep(1), Turn(0), SkipTurn(0), MinTune(0), ACSet(0), SimpleProfile(1), AlignedToOrbit(0), ElectronDirection(1), LHC_Radial(
 		0)
 {
 	if(mode == 0)
@@ -40,6 +40,7 @@ HollowElectronLens::HollowElectronLens(const string& id, double len, int mode, d
 			<<
 			"\tHEL operation mode invalid. Please choose between: \n\t int 0 = DC \n\t int 1 = AC \n\t int 2 = Diffusive \n\t int 3 = Turnskip"
 			<< endl;
+		OMode = DC;
 	}
 }
 
-- 
2.43.0


From d57a3d907dbe23546e7c948ff99aaa6bba558916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 165/235] fix: hollow electron lens: sweep whole tune steps,
 not one too many when the division is rounded

---
 Merlin++/HollowElectronLens.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/HollowElectronLens.cpp b/Merlin++/HollowElectronLens.cpp
index 819dc72..f0547aa 100644
--- a/Merlin++/HollowElectronLens.cpp
+++ b/Merlin++/HollowElectronLens.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <cmath>
 #include "HollowElectronLens.h"
 #include "ComponentTracker.h"
 
@@ -94,7 +95,7 @@ void HollowElectronLens::SetAC(double tune, double deltatune, double tunevarpers
 	TurnsPerStep = turnsperstep;
 	Multiplier = multi;
 	MinTune = Tune - DeltaTune;
-	Nstep = (2 * DeltaTune / TuneVarPerStep) + 1;
+	Nstep = floor(2 * DeltaTune / TuneVarPerStep * (1 + 1e-9)) + 1; // whole steps
 	Turn = 0;
 	ACSet = 1;
 	OMode = AC;
-- 
2.43.0


From ce02962af2b43d4a0186b7c243c7c6f350ba17c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 166/235] fix: hollow electron lens: profile table starts at
 its lower limit

---
 Merlin++/HollowELensProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index 4079923..b17b547 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -447,7 +447,7 @@ void HollowELensProcess::OutputProfile(std::ostream* os, double E, double min, d
 	cout << " ElectronBeta = " << ElectronBeta << endl;
 	cout << " ProtonBeta = " << ProtonBeta << endl;
 
-	double r = 0;
+	double r = min * Sigma_x;
 	int points = 1000;
 
 	(*os) << "#r\tkick_radial\tkick_simple\t|kick_r|\t|kick_s|" << endl;
-- 
2.43.0


From 6134c1d29a0b2d49e7c2168a7c3581af588a6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 167/235] fix: profile monitor: the u wire measures the
 projection of the beam on its axis

---
 Merlin++/RMSProfileMonitor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/RMSProfileMonitor.cpp b/Merlin++/RMSProfileMonitor.cpp
index 5ed5645..f6729fd 100644
--- a/Merlin++/RMSProfileMonitor.cpp
+++ b/Merlin++/RMSProfileMonitor.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <cmath>
 #include "RandomNG.h"
 #include "Bunch.h"
 #include "RMSProfileMonitor.h"
@@ -60,8 +61,10 @@ void RMSProfileMonitor::MakeMeasurement(const Bunch& aBunch)
 		{
 			double cosu = cos(uangle);
 			double sinu = sin(uangle);
-			mdat.u0.value = cosu * profile.mean(0) - sinu * profile.mean(1);
-			mdat.urms.value = cosu * profile.std(0) - sinu * profile.std(1);
+			mdat.u0.value = cosu * profile.mean(0) + sinu * profile.mean(1);
+			const double var = cosu * cosu * profile.var(0) + sinu * sinu * profile.var(1) + 2 * cosu * sinu
+				* profile.sig(0, 1);
+			mdat.urms.value = var > 0 ? sqrt(var) : 0;
 		}
 
 		mdat.u0.error = res_u;
-- 
2.43.0


From 6a0b777c47be085ba54b41da38f1e8b3b669a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 168/235] fix: monitors: reflect the x axis of a monitor that
 is turned round

---
 Merlin++/BPM.cpp               | 4 ++++
 Merlin++/RMSProfileMonitor.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/Merlin++/BPM.cpp b/Merlin++/BPM.cpp
index 02d7a8e..2e6fd95 100644
--- a/Merlin++/BPM.cpp
+++ b/Merlin++/BPM.cpp
@@ -29,6 +29,10 @@ void BPM::MakeMeasurement(const Bunch& aBunch)
 	if(TakeData())
 	{
 		Point2D x0 = aBunch.GetProjectedCentroid(ps_X, ps_Y);
+		if(IsReflected())
+		{
+			x0.x = -x0.x;
+		}
 
 		if(!fequal(generate_noise, 0.0) && !fequal(res_x, 0.0))
 		{
diff --git a/Merlin++/RMSProfileMonitor.cpp b/Merlin++/RMSProfileMonitor.cpp
index f6729fd..b2e7235 100644
--- a/Merlin++/RMSProfileMonitor.cpp
+++ b/Merlin++/RMSProfileMonitor.cpp
@@ -34,6 +34,11 @@ void RMSProfileMonitor::MakeMeasurement(const Bunch& aBunch)
 	{
 		PSmoments2D profile;
 		aBunch.GetProjectedMoments(ps_X, ps_Y, profile);
+		if(IsReflected())
+		{
+			profile[0] = -profile.mean(0);
+			profile.sig(0, 1) = -profile.sig(0, 1);
+		}
 
 		Data mdat;
 
-- 
2.43.0


From 611e174a2e53e2ea6c9deb4a04ae97f3f23d827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 169/235] fix: BPM channels: the offset of one plane leaves the
 other plane alone

---
 Merlin++/BPMChannel.cpp  |  4 ++--
 Merlin++/BPMDataBuffer.h | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BPMChannel.cpp b/Merlin++/BPMChannel.cpp
index 9d5d291..2b8149d 100644
--- a/Merlin++/BPMChannel.cpp
+++ b/Merlin++/BPMChannel.cpp
@@ -36,10 +36,10 @@ void BPMChannel::SetBPMOffset(double x)
 {
 	if(xy == 'X')
 	{
-		itsData->SetOffsets(x, 0);
+		itsData->SetXOffset(x);
 	}
 	else
 	{
-		itsData->SetOffsets(0, x);
+		itsData->SetYOffset(x);
 	}
 }
diff --git a/Merlin++/BPMDataBuffer.h b/Merlin++/BPMDataBuffer.h
index 6c3cb2c..1974a3e 100644
--- a/Merlin++/BPMDataBuffer.h
+++ b/Merlin++/BPMDataBuffer.h
@@ -41,6 +41,8 @@ public:
 	 * to setting arbitrary offsets to BPMs)
 	 */
 	void SetOffsets(double x, double y);
+	void SetXOffset(double x);
+	void SetYOffset(double y);
 
 private:
 
@@ -71,4 +73,14 @@ inline void BPMDataBuffer::SetOffsets(double x, double y)
 	y_off = y;
 }
 
+inline void BPMDataBuffer::SetXOffset(double x)
+{
+	x_off = x;
+}
+
+inline void BPMDataBuffer::SetYOffset(double y)
+{
+	y_off = y;
+}
+
 #endif
-- 
2.43.0


From 43d718c3ea8c0bb0ce66953c3baa57b031bd4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 170/235] fix: BPM channels: connect the data buffer of a new
 BPM at the address of a deleted one

---
 Merlin++/BPMDataBufferServer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Merlin++/BPMDataBufferServer.cpp b/Merlin++/BPMDataBufferServer.cpp
index 58ad0ca..bf4a012 100644
--- a/Merlin++/BPMDataBufferServer.cpp
+++ b/Merlin++/BPMDataBufferServer.cpp
@@ -13,6 +13,13 @@ BPMDataBuffer* BPMDataBufferServer::GetDataBuffer(BPM* bpm, bool create)
 
 	if(b != dataBuffers.end())
 	{
+		if(!bpm->RemoveBuffer(&(b->second)))
+		{
+			// another BPM used to be at this address
+			b->second = BPMDataBuffer();
+			b->second.SetID(bpm->GetName());
+		}
+		bpm->AddBuffer(&(b->second));
 		return &(b->second);
 	}
 
-- 
2.43.0


From d018c2466f70f71b1005ceb3b383cb42636582bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 171/235] fix: feedback with pulse delay: actuators keep their
 settings until the first correction arrives

---
 Merlin++/LinearFBSystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LinearFBSystem.cpp b/Merlin++/LinearFBSystem.cpp
index abbb515..d757c91 100644
--- a/Merlin++/LinearFBSystem.cpp
+++ b/Merlin++/LinearFBSystem.cpp
@@ -164,9 +164,10 @@ void LinearFBSystem::SetPulseDelay(int n)
 
 	actuatorQueue = new std::queue<RealVector>();
 
-	RealVector zeros(0.0, actuators.Size());
+	RealVector current(0.0, actuators.Size());
+	actuators.ReadAll(current);
 	while((--n) > 0)
 	{
-		actuatorQueue->push(zeros);
+		actuatorQueue->push(current);
 	}
 }
-- 
2.43.0


From bc9a87932186ac85f03edb54745325378c84643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 172/235] fix: monitors: a measurement at the exit is not
 missed when the steps add up with rounding

---
 Merlin++/SMPStdIntegrators.cpp | 2 +-
 Merlin++/StdIntegrators.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 88b714f..84aa6e9 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -408,7 +408,7 @@ void MonitorCI::TrackStep(double ds)
 		// measure once, in the step which contains the measurement point
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
 		double s0 = GetIntegratedLength();
-		bool last = fequal(s0 + ds, len);
+		bool last = AtExit(ds);
 		if((s0 == 0 || s0 <= mpt) && (s0 + ds > mpt || last))
 		{
 			double s1 = mpt - s0;
diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 3dbff4e..18ca565 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -396,7 +396,7 @@ void MonitorCI::TrackStep(double ds)
 		// measure once, in the step which contains the measurement point
 		double mpt = currentComponent->GetMeasurementPt() + len / 2;
 		double s0 = GetIntegratedLength();
-		bool last = fequal(s0 + ds, len);
+		bool last = AtExit(ds);
 		if((s0 == 0 || s0 <= mpt) && (s0 + ds > mpt || last))
 		{
 			double s1 = mpt - s0;
-- 
2.43.0


From 248f69a24db2493e983f5b9f26000e6ba0c1c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 173/235] fix: monitor process: one record per passage when
 another process asks for several steps

---
 Merlin++/MonitorProcess.cpp | 11 +++++++++++
 Merlin++/MonitorProcess.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/Merlin++/MonitorProcess.cpp b/Merlin++/MonitorProcess.cpp
index 5a431b1..37a179e 100644
--- a/Merlin++/MonitorProcess.cpp
+++ b/Merlin++/MonitorProcess.cpp
@@ -6,6 +6,7 @@
  */
 
 #include "MonitorProcess.h"
+#include "utils.h"
 #include "AcceleratorComponent.h"
 #include <fstream>
 #include "ParticleBunchProcess.h"
@@ -19,6 +20,7 @@ MonitorProcess::MonitorProcess(const string& aID, int prio, const string& prefix
 	active = true;
 	file_prefix = prefix;
 	count = 1;
+	integrated = 0;
 }
 
 void MonitorProcess::SetPrefix(const string& prefix)
@@ -41,6 +43,14 @@ void MonitorProcess::InitialiseProcess(Bunch& bunch)
 }
 void MonitorProcess::DoProcess(const double ds)
 {
+	// once per passage, at the exit, however many steps other processes ask for
+	const double length = currentComponent->GetLength();
+	integrated += ds;
+	if(integrated < length && !fequal(integrated, length, 1e-14 * (1 + length)))
+	{
+		return;
+	}
+
 	string filename;
 	filename = file_prefix + currentComponent->GetName() + "_" + to_string(count);
 
@@ -73,6 +83,7 @@ double MonitorProcess::GetMaxAllowedStepSize() const
 void MonitorProcess::SetCurrentComponent(AcceleratorComponent& component)
 {
 	currentComponent = &component;
+	integrated = 0;
 	string name = currentComponent->GetName();
 	// active if current component name in dump_at_elements
 	active = any_of(dump_at_elements.begin(), dump_at_elements.end(), [&name](string &s){
diff --git a/Merlin++/MonitorProcess.h b/Merlin++/MonitorProcess.h
index 5dd24d7..24b688c 100644
--- a/Merlin++/MonitorProcess.h
+++ b/Merlin++/MonitorProcess.h
@@ -27,6 +27,7 @@ private:
 	std::vector<std::string> dump_at_elements;
 	std::string file_prefix;
 	unsigned int count;
+	double integrated;
 
 public:
 	/**
-- 
2.43.0


From 8967c901f4dd7d0e664ab5a0752f630f6618583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 174/235] fix: NAN check: position in the bunch counts
 particles reported before; no start coordinates for a new particle

---
 Merlin++/NANCheckProcess.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index a3a7ea1..5b1e079 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -37,11 +37,7 @@ void NANCheckProcess::DoProcess(const double ds)
 	bool do_cull = 0;
 	for(auto &p : *currentBunch)
 	{
-		if(reported.count(p.id()))
-		{
-			continue;
-		}
-		if(!is_good(p))
+		if(!is_good(p) && !reported.count(p.id()))
 		{
 			std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
 					  << currentComponent->GetQualifiedName() << std::endl;
@@ -81,7 +77,10 @@ void NANCheckProcess::Report(int id) const
 		{
 			std::cout << "prev     " << *p_prev << std::endl;
 		}
-		std::cout << "start    " << *p_start << std::endl;
+		if(p_start != start_coords.end())
+		{
+			std::cout << "start    " << *p_start << std::endl;
+		}
 	}
 
 	auto p_cur = find_if(currentBunch->begin(), currentBunch->end(), [&id](const PSvector p)
-- 
2.43.0


From 7f2c3615a9ed3b20e4701193f0136174c7fcfe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:06 +0000
Subject: [PATCH 175/235] fix: NAN check: remove every bad particle, also those
 with the identifier of one reported before

---
 Merlin++/NANCheckProcess.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index 5b1e079..128dd31 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -37,20 +37,23 @@ void NANCheckProcess::DoProcess(const double ds)
 	bool do_cull = 0;
 	for(auto &p : *currentBunch)
 	{
-		if(!is_good(p) && !reported.count(p.id()))
+		if(!is_good(p))
 		{
-			std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
-					  << currentComponent->GetQualifiedName() << std::endl;
-			Report(p.id());
-			reported.insert(p.id());
 			if(cull)
 			{
 				do_cull = 1;
 			}
-			if(halt)
+			if(!reported.count(p.id()))
 			{
-				std::cout << "Halting on NAN coordinate" << std::endl;
-				abort();
+				std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
+						  << currentComponent->GetQualifiedName() << std::endl;
+				Report(p.id());
+				reported.insert(p.id());
+				if(halt)
+				{
+					std::cout << "Halting on NAN coordinate" << std::endl;
+					abort();
+				}
 			}
 		}
 		count++;
-- 
2.43.0


From cd0a5734d1063447cd69e164bd845eef51822ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 176/235] fix: channels: find elements whose names contain dots

---
 Merlin++/ChannelServer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 73be3c4..327fe5c 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -43,7 +43,11 @@ CHPath::CHPath(const string& cid)
 	int n1 = cid.find('.');
 	type = cid.substr(0, n1);
 
-	int n2 = cid.find('.', n1 + 1);
+	int n2 = cid.rfind('.'); // element names may contain dots, keys do not
+	if(n2 <= n1)
+	{
+		n2 = -1;
+	}
 	id = cid.substr(n1 + 1, n2 - n1 - 1);
 
 	key = cid.substr(n2 + 1);
-- 
2.43.0


From 26de80b1dbd9c1c99f31c35b003e6ac2ebe71caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 177/235] fix: channels: an element type without channels does
 not hide the types after it

---
 Merlin++/ChannelServer.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 327fe5c..d6162b7 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -113,8 +113,7 @@ size_t ChannelServer::GetROChannels(const string& chID, std::vector<ROChannel*>&
 			FindCtors(etype, chpath.key, ctors);
 			if(ctors.empty())
 			{
-				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				MerlinIO::warning() << "ChannelServer: No channel constructors for " << etype << " found" << endl;
 			}
 		}
 
@@ -155,8 +154,7 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 			FindCtors(etype, chpath.key, ctors);
 			if(ctors.empty())
 			{
-				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				MerlinIO::warning() << "ChannelServer: No channel constructors for " << etype << " found" << endl;
 			}
 		}
 
-- 
2.43.0


From 64d9af26e1b026be41ab338986ee1ae2d2ee30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 178/235] fix: channels: read-only quantities do not appear as
 null pointers among read-write channels

---
 Merlin++/ChannelServer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index d6162b7..5e02701 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -162,7 +162,10 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 		for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 		{
 			RWChannel* ch = (*ci)->ConstructRW(*ei);
-			assert(ch != 0); // if(ch==0) throw ChannelIsRO(ch->GetID());
+			if(ch == nullptr)
+			{
+				continue; // read only
+			}
 			channels.push_back(ch);
 			count++;
 		}
@@ -230,7 +233,10 @@ size_t ChannelServer::GetRWChannels(AcceleratorModel::Beamline& aBeamline, const
 				for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 				{
 					RWChannel* ch = (*ci)->ConstructRW(&component);
-					assert(ch != 0);
+					if(ch == nullptr)
+					{
+						continue; // read only
+					}
 					channels.push_back(ch);
 					count++;
 				}
-- 
2.43.0


From a82f0d92dac07081dcc23067d32dfae91d8b8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 179/235] fix: NAN check: identifiers of particles have 64 bits

---
 Merlin++/NANCheckProcess.cpp | 2 +-
 Merlin++/NANCheckProcess.h   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index 128dd31..1957639 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -64,7 +64,7 @@ void NANCheckProcess::DoProcess(const double ds)
 	}
 }
 
-void NANCheckProcess::Report(int id) const
+void NANCheckProcess::Report(int64_t id) const
 {
 	if(detailed)
 	{
diff --git a/Merlin++/NANCheckProcess.h b/Merlin++/NANCheckProcess.h
index 42ec266..03ea4d1 100644
--- a/Merlin++/NANCheckProcess.h
+++ b/Merlin++/NANCheckProcess.h
@@ -10,6 +10,7 @@
 
 #include "ParticleBunchProcess.h"
 #include "ParticleBunch.h"
+#include <cstdint>
 #include <set>
 
 namespace ParticleTracking
@@ -63,11 +64,11 @@ private:
 	bool cull;
 	bool halt;
 
-	void Report(int id) const;
+	void Report(int64_t id) const;
 	void DoCull();
 	PSvectorArray start_coords; // particles at start of element
 	PSvectorArray prev_coords; // particles at start of element
-	std::set<double> reported;
+	std::set<int64_t> reported;
 };
 
 } // end namespace ParticleTracking
-- 
2.43.0


From 4aa42f9dbba85638769aab48e60e0193705b6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 180/235] fix: wakefields: the kick of a component is not
 missed by rounding of the steps

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 +-
 Merlin++/WakeFieldProcess.cpp    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 06935e2..d0f1a44 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -142,7 +142,7 @@ void WakeFieldProcess::SetCurrentComponent(AcceleratorComponent& component)
 void WakeFieldProcess::DoProcess(double ds)
 {
 	current_s += ds;
-	if(fequal(current_s, impulse_s))
+	if(fequal(current_s, impulse_s, 1e-14 * (1 + clen)))
 	{
 		ApplyWakefield(clen);
 		active = false;
diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index dc76142..0d4d920 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -208,7 +208,7 @@ void WakeFieldProcess::DoProcess(double ds)
 	//Normal Code
 #ifndef ENABLE_MPI
 	current_s += ds;
-	if(fequal(current_s, impulse_s))
+	if(fequal(current_s, impulse_s, 1e-14 * (1 + clen)))
 	{
 		currentBunch->SortByCT();
 		Init();
@@ -219,7 +219,7 @@ void WakeFieldProcess::DoProcess(double ds)
 
 #ifdef ENABLE_MPI
 	current_s += ds;
-	if(fequal(current_s, impulse_s))
+	if(fequal(current_s, impulse_s, 1e-14 * (1 + clen)))
 	{
 		currentBunch->gather();
 		if(currentBunch->MPI_rank == 0)
-- 
2.43.0


From 96fe546de415203766c87a3fc5bd785cb93343f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 181/235] fix: CSR wake: distance to slices behind is not an
 unsigned difference

---
 Merlin++/WakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 0d4d920..27ae656 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -353,7 +353,7 @@ void WakeFieldProcess::CalculateWakeL()
 		{
 			for(size_t j = 1; j < i; j++)
 			{
-				wake_z[i] += Qdp[j] * (currentWake->Wlong((j - i + 0.5) * dz)) / dz;
+				wake_z[i] += Qdp[j] * (currentWake->Wlong((double(j) - double(i) + 0.5) * dz)) / dz;
 			}
 			wake_z[i] *= a0;
 		}
-- 
2.43.0


From f495856aec18a9b86bc2685bbde305f39f7a3c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 182/235] fix: wakefields: a bunch without length is not
 removed

---
 Merlin++/WakeFieldProcess.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 27ae656..bf10e04 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -112,6 +112,9 @@ size_t WakeFieldProcess::CalculateQdist()
 	double z0 = v.first;
 	double sigz = v.second;
 
+	// a bunch without length keeps a finite bin width (and its particles)
+	sigz = std::max(sigz, 1e-12 * (1 + fabs(z0)));
+
 	// calculate binning ranges
 	zmin = -nsig * sigz + z0;
 	zmax = nsig * sigz + z0;
-- 
2.43.0


From 25b27d8a51d291f7d44558d5a8925a74d2032332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 183/235] fix: collimator wake: arrays for all bins, freed for
 all modes

---
 Merlin++/CollimatorWakeProcess.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index e62b2e9..d5f9310 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -61,12 +61,12 @@ CollimatorWakeProcess::CollimatorWakeProcess(int modes, int prio, size_t nb, dou
 	wake_sl = new double*[modes + 1];
 	for(int i = 0; i <= nmodes; i++)
 	{
-		Cm[i] = new double[1000];
-		Sm[i] = new double[1000];
-		wake_ct[i] = new double[1000];
-		wake_st[i] = new double[1000];
-		wake_cl[i] = new double[1000];
-		wake_sl[i] = new double[1000];
+		Cm[i] = new double[nb + 1]();
+		Sm[i] = new double[nb + 1]();
+		wake_ct[i] = new double[nb + 1]();
+		wake_st[i] = new double[nb + 1]();
+		wake_cl[i] = new double[nb + 1]();
+		wake_sl[i] = new double[nb + 1]();
 	}
 }
 
@@ -74,7 +74,7 @@ CollimatorWakeProcess::CollimatorWakeProcess(int modes, int prio, size_t nb, dou
 
 CollimatorWakeProcess::~CollimatorWakeProcess()
 {
-	for(int i = 0; i < nmodes; i++)
+	for(int i = 0; i <= nmodes; i++)
 	{
 		delete[] Cm[i];
 		delete[] Sm[i];
-- 
2.43.0


From dc33444e538759ad6b4fc3a9b272f8fa16cb4e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 184/235] fix: collimator wake: longitudinal kick of the sine
 moment

---
 Merlin++/CollimatorWakeProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index d5f9310..c1f41f0 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -217,7 +217,7 @@ void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 				wake_y *= a0;
 				double wzc = cos(currmode * theta) * (wake_cl[currmode][nslice] + g_cl * zz);
 				double wzs = sin(currmode * theta) * (wake_sl[currmode][nslice] + g_sl * zz);
-				wake_z = powd(r, currmode) * (wzc - wzs);
+				wake_z = powd(r, currmode) * (wzc + wzs);
 				wake_z *= a0;
 				double ddp = -wake_z / p0;
 				p->dp() += ddp;
-- 
2.43.0


From 7803bcd9ad453d696dc93a26b63b8ab373dd7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 185/235] fix: collimator wake: same sign for bunches of either
 charge

---
 Merlin++/CollimatorWakeProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index c1f41f0..2cd0539 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -175,7 +175,7 @@ void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 	}
 
 	double wake_x, wake_y, wake_z;
-	double macrocharge = currentBunch->GetTotalCharge() / currentBunch->size();
+	double macrocharge = fabs(currentBunch->GetTotalCharge()) / currentBunch->size();
 	double a0 = macrocharge * ElectronCharge * Volt;
 	a0 /= 4 * pi * FreeSpacePermittivity;
 	double p0 = currentBunch->GetReferenceMomentum();
-- 
2.43.0


From ceb22b4317237eaaf62829374e38c203d1236dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 186/235] fix: macro-particle wakefields: same sign for bunches
 of either charge

---
 Merlin++/SMPWakeFieldProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index d0f1a44..10526cd 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -176,7 +176,7 @@ void WakeFieldProcess::ApplyWakefield(double ds)
 		{
 			for(size_t j = i + 1; j < np; j++)
 			{
-				double w = (currentWake->Wtrans(slice_z[j] - slice_z[i])) * slice_q[j];
+				double w = (currentWake->Wtrans(slice_z[j] - slice_z[i])) * fabs(slice_q[j]);
 				Point2D X0 = GetSliceCentroid(sliceBoundaries[j], sliceBoundaries[j + 1]);
 				kick_x += w * X0.x;
 				kick_y += w * X0.y;
@@ -219,7 +219,7 @@ void WakeFieldProcess::PrepLWake()
 		{
 			double dz = slice_z[j] - slice_z[i];
 			// note factor 0.5 for FTBL
-			wake_z[i] += (i == j ? 0.5 : 1.0) * (currentWake->Wlong(dz)) * slice_q[j] * wconv;
+			wake_z[i] += (i == j ? 0.5 : 1.0) * (currentWake->Wlong(dz)) * fabs(slice_q[j]) * wconv;
 		}
 		// beam loading
 		bload += slice_q[i] * wake_z[i];
-- 
2.43.0


From 95a171248d18eb893f85dca5fa764f9e1bd4ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 187/235] fix: macro-particle wakefields: the first slice is
 not counted twice

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 10526cd..bd76726 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -252,7 +252,7 @@ void WakeFieldProcess::PrepSlices()
 	double zavg = (p->ct()) * (p->Q());
 	double qt = p->Q();
 
-	for(; p != currentBunch->end(); p++)
+	for(p++; p != currentBunch->end(); p++)
 	{
 		if(p->ct() >= z)
 		{
-- 
2.43.0


From 3c6b359ff4e5bb2aa09ff76585bb44e03df92949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 188/235] fix: macro-particle wakefields: slices are sorted
 before they are binned

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index bd76726..9bcba61 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -245,6 +245,7 @@ void WakeFieldProcess::PrepSlices()
 	tz.reserve(32);
 	tq.reserve(32);
 
+	currentBunch->SortByCT();
 	SMPBunch::iterator p = currentBunch->begin();
 	sb.push_back(p);
 
-- 
2.43.0


From 888d4350d3ad757b6a29869f114d9724941c5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 189/235] fix: coupler RF kick of a bunch without charge

---
 Merlin++/CouplerWakeFieldProcess.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Merlin++/CouplerWakeFieldProcess.cpp b/Merlin++/CouplerWakeFieldProcess.cpp
index 7e012ca..f91821c 100644
--- a/Merlin++/CouplerWakeFieldProcess.cpp
+++ b/Merlin++/CouplerWakeFieldProcess.cpp
@@ -133,6 +133,7 @@ void CouplerWakeFieldProcess::CalculateWakeT()
 	{
 
 		Vector2D cxy(0, 0);
+		Vector2D rfxy(0, 0);
 		if(i < bunchSlices.size() - 1)
 		{
 			// coupler wake kick (const, independent of z) at x[m],y[m]
@@ -143,11 +144,9 @@ void CouplerWakeFieldProcess::CalculateWakeT()
 			// x[m],y[m],V[m]=Vacc
 			// phase[rad]=phi+k*dz, dz[m]
 			// rfxy [1/cavity], V [GeV]
-			Vector2D rfxy
+			rfxy
 				= currentWake->CouplerRFKick(xyc[i].x, xyc[i].y, fabs(phi) + k * (zmin + (i + 0.5) * dz));
 //		  = currentWake->CouplerRFKick(xyc[i].x,xyc[i].y,fabs(phi));
-			wake_x[i] += rfxy.x * V / clen / a0;  // V[GeV] -> V[V]
-			wake_y[i] += rfxy.y * V / clen / a0;
 		}
 		for(size_t j = i; j < bunchSlices.size() - 1; j++)
 		{
@@ -164,8 +163,8 @@ void CouplerWakeFieldProcess::CalculateWakeT()
 			wake_y[i] += Qd[j] * cxy.y / clen;
 
 		}
-		wake_x[i] *= a0;
-		wake_y[i] *= a0;
+		wake_x[i] = wake_x[i] * a0 + rfxy.x * V / clen;
+		wake_y[i] = wake_y[i] * a0 + rfxy.y * V / clen;
 	}
 
 }
-- 
2.43.0


From 4c195d64e28a17677856186095dc83b068e6c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 190/235] fix: coupler RF kick at the head of the bunch

---
 Merlin++/CouplerWakeFieldProcess.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Merlin++/CouplerWakeFieldProcess.cpp b/Merlin++/CouplerWakeFieldProcess.cpp
index f91821c..eb720ec 100644
--- a/Merlin++/CouplerWakeFieldProcess.cpp
+++ b/Merlin++/CouplerWakeFieldProcess.cpp
@@ -133,20 +133,18 @@ void CouplerWakeFieldProcess::CalculateWakeT()
 	{
 
 		Vector2D cxy(0, 0);
-		Vector2D rfxy(0, 0);
+		// RF kick independent of bunch charge
+		// x[m],y[m],V[m]=Vacc
+		// phase[rad]=phi+k*dz, dz[m]
+		// rfxy [1/cavity], V [GeV]
+		Vector2D rfxy
+			= currentWake->CouplerRFKick(xyc[i].x, xyc[i].y, fabs(phi) + k * (zmin + (i + 0.5) * dz));
+//		  = currentWake->CouplerRFKick(xyc[i].x,xyc[i].y,fabs(phi));
 		if(i < bunchSlices.size() - 1)
 		{
 			// coupler wake kick (const, independent of z) at x[m],y[m]
 			// cxy [V/m]
 			cxy  = currentWake->Wxy(xyc[i].x, xyc[i].y);
-
-			// RF kick independent of bunch charge
-			// x[m],y[m],V[m]=Vacc
-			// phase[rad]=phi+k*dz, dz[m]
-			// rfxy [1/cavity], V [GeV]
-			rfxy
-				= currentWake->CouplerRFKick(xyc[i].x, xyc[i].y, fabs(phi) + k * (zmin + (i + 0.5) * dz));
-//		  = currentWake->CouplerRFKick(xyc[i].x,xyc[i].y,fabs(phi));
 		}
 		for(size_t j = i; j < bunchSlices.size() - 1; j++)
 		{
-- 
2.43.0


From de99bff2a07c4793ef8d5b9b3c6ad3e19e52e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:33 +0000
Subject: [PATCH 191/235] fix: macro-particle wakefields: scale <x'y> like the
 other moments

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 9bcba61..41118a8 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -74,6 +74,7 @@ struct AWK
 		p(0, 1) *= Er;
 		p(0, 3) *= Er;
 		p(1, 1) *= Er2;
+		p(1, 2) *= Er;
 		p(1, 3) *= Er2;
 		p(2, 3) *= Er;
 		p(3, 3) *= Er2;
-- 
2.43.0


From 64a18f549f636542785b11280b59b84617dc4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 192/235] fix: wakefields: tails are truncated once per kick

---
 Merlin++/WakeFieldProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index bf10e04..7eea778 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -314,10 +314,11 @@ void WakeFieldProcess::Init()
 {
 	double Qt = currentBunch->GetTotalCharge();
 
+	size_t nloss = CalculateQdist();
+
 	//keep track of bunch length to be aware of modifications
 	oldBunchLen = currentBunch->size();
 
-	size_t nloss = CalculateQdist();
 	if(nloss != 0)
 	{
 		// Even though we have truncated particles, we still keep the
-- 
2.43.0


From 7fce61ce66faaade5b160352ec01f73a0028288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 193/235] fix: synchrotron radiation: steps are not missed when
 they add up with rounding

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 2fec477..77faf4e 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -167,7 +167,7 @@ void SynchRadParticleProcess::SetCurrentComponent(AcceleratorComponent& componen
 void SynchRadParticleProcess::DoProcess(double ds)
 {
 
-	if(fequal(intS += ds, (nk1 + 1) * dL))
+	if(fequal(intS += ds, (nk1 + 1) * dL, 1e-14 * (1 + (nk1 + 1) * dL)))
 	{
 		double E0 = currentBunch->GetReferenceMomentum();
 		double meanU = for_each(
-- 
2.43.0


From b6dad44aec0ead4448e2c856afa8c26826093eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 194/235] fix: synchrotron radiation: an empty bunch keeps its
 reference momentum

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 77faf4e..830345c 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -55,7 +55,7 @@ struct ApplySR
 
 	double MeanEnergyLoss() const
 	{
-		return meanU / n;
+		return n ? meanU / n : 0;
 	}
 
 	void operator()(PSvector& v)
-- 
2.43.0


From d808443a76cd3f20a3f0a5d88333b457729dc0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:16 +0000
Subject: [PATCH 195/235] fix: photon spectrum: follow the seed of the random
 number generator

---
 Merlin++/PhotonSpectrumGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhotonSpectrumGen.cpp b/Merlin++/PhotonSpectrumGen.cpp
index 882b8e2..26a20c4 100644
--- a/Merlin++/PhotonSpectrumGen.cpp
+++ b/Merlin++/PhotonSpectrumGen.cpp
@@ -37,7 +37,7 @@ namespace
 
 double Ran1()
 {
-	static auto gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
+	auto& gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
 	static auto dist = std::uniform_real_distribution<>{0.0, 1.0};
 	return dist(gen);
 }
-- 
2.43.0


From 98a475203825bf4f074e94918a52b729429b177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 196/235] fix: synchrotron radiation: a photon generator set
 later is used

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 830345c..d898fd0 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -174,7 +174,7 @@ void SynchRadParticleProcess::DoProcess(double ds)
 			currentBunch->begin(),
 			currentBunch->end(),
 			ApplySR(*currentField, dL, E0, sympVars, PHOTCONST1, PHOTCONST2, ParticleMassMeV,
-			quantum)).MeanEnergyLoss();
+			quantum ? pgen : nullptr)).MeanEnergyLoss();
 
 		// Finally we adjust the reference of the
 		// bunch to reflect the mean energy loss
-- 
2.43.0


From d1480e4e726ab32a53d0d24b3c154ecf7c71a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:51 +0000
Subject: [PATCH 197/235] fix: synchrotron radiation: a maximum step size works
 beside processes that ask for smaller steps

---
 Merlin++/SynchRadParticleProcess.cpp | 6 +++---
 Merlin++/SynchRadParticleProcess.h   | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index d898fd0..fc8c9f8 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -155,8 +155,8 @@ void SynchRadParticleProcess::SetCurrentComponent(AcceleratorComponent& componen
 		currentField = nullptr;
 	}
 
-	int ns1 = (ns == 0) ? 1 + component.GetLength() / dsMax : ns;
-	dL = component.GetLength() / ns1;
+	nk = (ns == 0) ? 1 + component.GetLength() / dsMax : ns;
+	dL = component.GetLength() / nk;
 	nk1 = 0;
 	intS = 0;
 
@@ -185,7 +185,7 @@ void SynchRadParticleProcess::DoProcess(double ds)
 		}
 		nk1++;
 	}
-	active = nk1 != ns;
+	active = nk1 != nk;
 
 }
 
diff --git a/Merlin++/SynchRadParticleProcess.h b/Merlin++/SynchRadParticleProcess.h
index cab4f30..b56a7a9 100644
--- a/Merlin++/SynchRadParticleProcess.h
+++ b/Merlin++/SynchRadParticleProcess.h
@@ -183,6 +183,8 @@ private:
 
 	double dL;
 
+	int nk; ///< Number of steps in the current component
+
 	int nk1;
 
 	double intS;
-- 
2.43.0


From 7b056a264326cc359e73717ed2278ea11ff17858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 198/235] fix: spin tracking: several steps per component, and
 the exit fringe when steps add up with rounding

---
 Merlin++/SpinParticleProcess.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 22309eb..ed40f99 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -353,7 +353,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			rot.RotateSpin(b, ds, *spin, gamma);
 		}
 
-		if(fequal(intS + ds, clength))
+		if(fequal(intS + ds, clength, 1e-14 * (1 + clength)))
 		{
 
 			// Apply spin rotation from dipole exit fringe field
@@ -389,7 +389,10 @@ void SpinParticleProcess::DoProcess(double ds)
 	}
 
 	intS += ds;
-
+	if(fequal(intS, (nk1 + 1) * dL, 1e-14 * (1 + clength)))
+	{
+		nk1++;
+	}
 }
 
 double SpinParticleProcess::GetMaxAllowedStepSize() const
-- 
2.43.0


From dd37b2e6d47d7b50755876289f94b072814c376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 199/235] fix: spin tracking: field integral of the solenoid
 fringe

---
 Merlin++/SpinParticleProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index ed40f99..772b4b2 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -331,9 +331,9 @@ void SpinParticleProcess::DoProcess(double ds)
 			// is pointing in the direction of the beam.
 			if(isSolenoid)
 			{
-				double bz = solnd->GetBz();
-				b.x = -bz*p->x();
-				b.y = -bz*p->y();
+				double bz = 0.5 * solnd->GetBz() * norm;
+				b.x = -bz * p->x();
+				b.y = -bz * p->y();
 				b.z = 0.0;
 				if(b.x != 0 || b.y != 0)
 				{
@@ -375,7 +375,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			// We use a hard-edged model for the fringe field
 			if(isSolenoid)
 			{
-				double bz = solnd->GetBz();
+				double bz = 0.5 * solnd->GetBz() * norm;
 				b.x = bz * p->x();
 				b.y = bz * p->y();
 				b.z = 0.0;
-- 
2.43.0


From eac35e0d56aa6100b7d0d5d70b1c59c811626358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 200/235] fix: spin tracking: field integral and direction of
 the pole face fringe of bends

---
 Merlin++/SpinParticleProcess.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 772b4b2..7026515 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -315,10 +315,10 @@ void SpinParticleProcess::DoProcess(double ds)
 			{
 				SectorBend::PoleFace* pf = sbend->GetPoleFaceInfo().entrance;
 				double theta = pf ? pf->rot : 0;
-				double intbz = 0.5 * sbend->GetB0() * p->y() * norm;
-				b.x = sin(theta) * intbz;
+				double intbz = sbend->GetB0() * p->y() * norm;
+				b.x = -tan(theta) * intbz;
 				b.y = 0;
-				b.z = cos(theta) * intbz;
+				b.z = intbz;
 				if(b.x != 0 || b.z != 0)
 				{
 					rot.RotateSpin(b, 1.0, *spin, gamma);
@@ -361,10 +361,10 @@ void SpinParticleProcess::DoProcess(double ds)
 			{
 				SectorBend::PoleFace* pf = sbend->GetPoleFaceInfo().exit;
 				double theta = pf ? pf->rot : 0;
-				double intbz = 0.5 * sbend->GetB0() * p->y() * norm;
-				b.x = sin(theta) * intbz;
+				double intbz = sbend->GetB0() * p->y() * norm;
+				b.x = -tan(theta) * intbz;
 				b.y = 0;
-				b.z = -cos(theta) * intbz;
+				b.z = -intbz;
 				if(b.x != 0 || b.z != 0)
 				{
 					rot.RotateSpin(b, 1.0, *spin, gamma);
-- 
2.43.0


From 2301c36c6f7d094d1f7e026b5b8a314f09143034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 201/235] fix: spin tracking: the coordinates in a bend turn
 with the reference orbit, not with the field at the particle

---
 Merlin++/SpinParticleProcess.cpp | 45 +++++++++++++-------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 7026515..5e35b14 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -220,34 +220,18 @@ void SpinParticleProcess::SetCurrentComponent(AcceleratorComponent& component)
 
 struct RotateSpinVector
 {
-private:
-	bool isBend;
-
 public:
-	RotateSpinVector(bool bend) :
-		isBend(bend)
-	{
-	}
-
-	void RotateSpin(const Vector3D& bnorm, double ds, SpinVector& spin, double gamma)
+	// h is the curvature of the reference orbit, about which the coordinates turn
+	void RotateSpin(const Vector3D& bnorm, double ds, SpinVector& spin, double gamma, double h = 0)
 	{
 		double& spinx = spin.x();
 		double& spiny = spin.y();
 		double& spinz = spin.z();
 
 		Vector3D w;
-		if(isBend)     // Arc geometry
-		{
-			w.x = -(1 + ElectronGe * gamma) * bnorm.x;
-			w.y = -(ElectronGe * gamma) * bnorm.y;
-			w.z = -(1 + ElectronGe) * bnorm.z;
-		}
-		else        // Rectangular geometry
-		{
-			w.x = -(1 + ElectronGe * gamma) * bnorm.x;
-			w.y = -(1 + ElectronGe * gamma) * bnorm.y;
-			w.z = -(1 + ElectronGe) * bnorm.z;
-		}
+		w.x = -(1 + ElectronGe * gamma) * bnorm.x;
+		w.y = -(1 + ElectronGe * gamma) * bnorm.y + h * SpeedOfLight;
+		w.z = -(1 + ElectronGe) * bnorm.z;
 
 		// Calculate Cross Products
 		double pX_crossproduct = w.y * spinz - w.z * spiny;
@@ -260,6 +244,10 @@ public:
 		// Calculate and apply spin rotation
 		double w2 = w.x * w.x + w.y * w.y + w.z * w.z;
 		double omega = sqrt(w2);
+		if(omega == 0)
+		{
+			return;
+		}
 
 		double dt = ds / SpeedOfLight;
 		double cosOmegaT = cos(dt * omega);
@@ -296,7 +284,8 @@ void SpinParticleProcess::DoProcess(double ds)
 		P0 = pspin;
 	}
 
-	RotateSpinVector rot(isBend);
+	RotateSpinVector rot;
+	const double h = isBend ? sbend->GetGeometry().GetCurvature() : 0;
 
 	Vector3D b;
 
@@ -345,12 +334,14 @@ void SpinParticleProcess::DoProcess(double ds)
 		// Apply spin rotation from body of magnet
 		b = currentField->GetBFieldAt(Point3D(p->x(), p->y(), 0));
 
-		if(b.x != 0 || b.y != 0 || b.z != 0)
+		if(b.x != 0 || b.y != 0 || b.z != 0 || h != 0)
 		{
-			b.x *= norm;
-			b.y *= norm;
-			b.z *= norm;
-			rot.RotateSpin(b, ds, *spin, gamma);
+			// longer path on the outside of a bend
+			const double scale = norm * (1 + h * p->x());
+			b.x *= scale;
+			b.y *= scale;
+			b.z *= scale;
+			rot.RotateSpin(b, ds, *spin, gamma, h);
 		}
 
 		if(fequal(intS + ds, clength, 1e-14 * (1 + clength)))
-- 
2.43.0


From e55ad2d106cbd36db0cbfb6aef956c6cf07a4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:37 +0000
Subject: [PATCH 202/235] fix: spin tracking: sense of the precession for
 negative charge

---
 Merlin++/SpinParticleProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 5e35b14..3d56571 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -276,6 +276,7 @@ void SpinParticleProcess::DoProcess(double ds)
 {
 	double P0 = currentBunch->GetReferenceMomentum();
 	double brho = P0 / eV / SpeedOfLight;
+	const double q = currentBunch->GetChargeSign();
 	bool isBend = sbend ? true : false;
 	bool isSolenoid = solnd ? true : false;
 
@@ -293,7 +294,7 @@ void SpinParticleProcess::DoProcess(double ds)
 	SpinVectorArray::iterator spin = spinbunch->beginSpinArray();
 	for(PSvectorArray::iterator p = spinbunch->begin(); p != spinbunch->end(); p++, spin++)
 	{
-		double norm = SpeedOfLight / brho / (1.0 + p->dp());
+		double norm = q * SpeedOfLight / brho / (1.0 + p->dp());
 		double gamma = P0 * (1.0 + p->dp()) / (ElectronMassMeV * MeV);
 
 		if(intS == 0)
-- 
2.43.0


From 905430366cc7158256337b35b1a3e6099d21a62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 203/235] fix: spin tracking: direction of the particle in the
 precession

---
 Merlin++/SpinParticleProcess.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 3d56571..afcc4d4 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -221,17 +221,20 @@ void SpinParticleProcess::SetCurrentComponent(AcceleratorComponent& component)
 struct RotateSpinVector
 {
 public:
-	// h is the curvature of the reference orbit, about which the coordinates turn
-	void RotateSpin(const Vector3D& bnorm, double ds, SpinVector& spin, double gamma, double h = 0)
+	// p is the particle, h the curvature of the reference orbit, about which the coordinates turn
+	void RotateSpin(const Vector3D& bnorm, double ds, SpinVector& spin, double gamma, const PSvector& p, double h = 0)
 	{
 		double& spinx = spin.x();
 		double& spiny = spin.y();
 		double& spinz = spin.z();
 
 		Vector3D w;
-		w.x = -(1 + ElectronGe * gamma) * bnorm.x;
-		w.y = -(1 + ElectronGe * gamma) * bnorm.y + h * SpeedOfLight;
-		w.z = -(1 + ElectronGe) * bnorm.z;
+		// the component of the field along the velocity acts with (1 + a) instead of (1 + a gamma)
+		const double along = (bnorm.x * p.xp() + bnorm.y * p.yp() + bnorm.z) / (1 + p.xp() * p.xp() + p.yp() * p.yp())
+			* ElectronGe * (gamma - 1);
+		w.x = -(1 + ElectronGe * gamma) * bnorm.x + along * p.xp();
+		w.y = -(1 + ElectronGe * gamma) * bnorm.y + along * p.yp() + h * SpeedOfLight;
+		w.z = -(1 + ElectronGe * gamma) * bnorm.z + along;
 
 		// Calculate Cross Products
 		double pX_crossproduct = w.y * spinz - w.z * spiny;
@@ -311,7 +314,7 @@ void SpinParticleProcess::DoProcess(double ds)
 				b.z = intbz;
 				if(b.x != 0 || b.z != 0)
 				{
-					rot.RotateSpin(b, 1.0, *spin, gamma);
+					rot.RotateSpin(b, 1.0, *spin, gamma, *p);
 				}
 			}
 
@@ -327,7 +330,7 @@ void SpinParticleProcess::DoProcess(double ds)
 				b.z = 0.0;
 				if(b.x != 0 || b.y != 0)
 				{
-					rot.RotateSpin(b, 1.0, *spin, gamma);
+					rot.RotateSpin(b, 1.0, *spin, gamma, *p);
 				}
 			}
 		}
@@ -342,7 +345,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			b.x *= scale;
 			b.y *= scale;
 			b.z *= scale;
-			rot.RotateSpin(b, ds, *spin, gamma, h);
+			rot.RotateSpin(b, ds, *spin, gamma, *p, h);
 		}
 
 		if(fequal(intS + ds, clength, 1e-14 * (1 + clength)))
@@ -359,7 +362,7 @@ void SpinParticleProcess::DoProcess(double ds)
 				b.z = -intbz;
 				if(b.x != 0 || b.z != 0)
 				{
-					rot.RotateSpin(b, 1.0, *spin, gamma);
+					rot.RotateSpin(b, 1.0, *spin, gamma, *p);
 				}
 			}
 
@@ -373,7 +376,7 @@ void SpinParticleProcess::DoProcess(double ds)
 				b.z = 0.0;
 				if(b.x != 0 || b.y != 0)
 				{
-					rot.RotateSpin(b, 1.0, *spin, gamma);
+					rot.RotateSpin(b, 1.0, *spin, gamma, *p);
 				}
 			}
 		}
-- 
2.43.0


From 4f59b5e91aab24aa81cd0356526896332c732930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 204/235] fix: spin tracking: spins stay with their particles
 when a bunch is sorted

---
 Merlin++/SpinParticleProcess.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index afcc4d4..db4125b 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -5,6 +5,8 @@
  * This file is derived from software bearing the copyright notice: (c) 2004 Daniel A. Bates (LBNL) -- All Rights Reserved --
  */
 
+#include <algorithm>
+
 #include "SpinParticleProcess.h"
 #include "SectorBend.h"
 #include "Solenoid.h"
@@ -85,11 +87,25 @@ void SpinParticleBunch::push_back(const Particle& p)
 
 void SpinParticleBunch::SortByCT()
 {
-	// Not yet fully implemented!
-	// At present, only the list of phase space vectors is sorted;
-	// the correlation with the list of spin vectors is lost.
+	// sort the order of the particles, and apply it to particles and spins
+	vector<size_t> order(size());
+	for(size_t i = 0; i < order.size(); i++)
+	{
+		order[i] = i;
+	}
+	stable_sort(order.begin(), order.end(), [this](size_t a, size_t b) {
+		return pArray[a].ct() < pArray[b].ct();
+	});
 
-	ParticleBunch::SortByCT();
+	PSvectorArray particles;
+	SpinVectorArray spins;
+	for(size_t i : order)
+	{
+		particles.push_back(pArray[i]);
+		spins.push_back(spinArray[i]);
+	}
+	pArray.swap(particles);
+	spinArray.swap(spins);
 }
 
 void SpinParticleBunch::Output(std::ostream& os) const
-- 
2.43.0


From 4c2f118000581e9d0a39c7c9b185a3254c9f8c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 205/235] fix: spin tracking: copies of a bunch for Run keep
 their spins

---
 Merlin++/SpinParticleProcess.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index a981761..b65e8e4 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -36,6 +36,14 @@ class SpinParticleBunch: public ParticleBunch
 {
 public:
 	SpinParticleBunch(double P0, double Qm = 1);
+	/**
+	 *	Returns a copy of the bunch, of the same kind. The caller owns the copy.
+	 */
+	virtual SpinParticleBunch* Clone() const
+	{
+		return new SpinParticleBunch(*this);
+	}
+
 	virtual ParticleBunch::iterator erase(ParticleBunch::iterator p);
 	virtual size_t AddParticle(const Particle& p);
 	size_t AddParticle(const Particle& p, const SpinVector& spin);
-- 
2.43.0


From cc4975c8e577c13ae0a48911e77b150fc01ba888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:04 +0000
Subject: [PATCH 206/235] fix: spin tracking: path in the field changed by
 rotated pole faces

---
 Merlin++/SpinParticleProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index db4125b..fe3e346 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -326,9 +326,9 @@ void SpinParticleProcess::DoProcess(double ds)
 				double theta = pf ? pf->rot : 0;
 				double intbz = sbend->GetB0() * p->y() * norm;
 				b.x = -tan(theta) * intbz;
-				b.y = 0;
+				b.y = -tan(theta) * sbend->GetB0() * p->x() * norm;
 				b.z = intbz;
-				if(b.x != 0 || b.z != 0)
+				if(b.x != 0 || b.y != 0 || b.z != 0)
 				{
 					rot.RotateSpin(b, 1.0, *spin, gamma, *p);
 				}
@@ -374,9 +374,9 @@ void SpinParticleProcess::DoProcess(double ds)
 				double theta = pf ? pf->rot : 0;
 				double intbz = sbend->GetB0() * p->y() * norm;
 				b.x = -tan(theta) * intbz;
-				b.y = 0;
+				b.y = -tan(theta) * sbend->GetB0() * p->x() * norm;
 				b.z = -intbz;
-				if(b.x != 0 || b.z != 0)
+				if(b.x != 0 || b.y != 0 || b.z != 0)
 				{
 					rot.RotateSpin(b, 1.0, *spin, gamma, *p);
 				}
-- 
2.43.0


From 0f7d2f035a84cbb3f59224c4637d740eed81b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 207/235] fix: spin tracking: accelerating structures are not
 cut into steps

---
 Merlin++/SpinParticleProcess.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index fe3e346..6866d35 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 
 #include "SpinParticleProcess.h"
+#include "RFStructure.h"
 #include "SectorBend.h"
 #include "Solenoid.h"
 #include "Space3D.h"
@@ -212,8 +213,9 @@ void SpinParticleProcess::SetCurrentComponent(AcceleratorComponent& component)
 	currentField = component.GetEMField();
 
 	//Get length of current component/ns
+	//(accelerating structures are tracked in a single step)
 	clength = component.GetLength();
-	dL = clength / ns;
+	dL = dynamic_cast<RFStructure*>(&component) ? clength : clength / ns;
 
 	//Determine if the component is a SectorBend
 	sbend = dynamic_cast<SectorBend*>(&component);
-- 
2.43.0


From 07ac52ff2a72988610dfbf7bfbdee6cda5eb8f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:15 +0000
Subject: [PATCH 208/235] fix: corrector windings: setting one plane keeps the
 other

---
 Merlin++/CorrectorWinding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CorrectorWinding.cpp b/Merlin++/CorrectorWinding.cpp
index 6c71ff0..cecd76d 100644
--- a/Merlin++/CorrectorWinding.cpp
+++ b/Merlin++/CorrectorWinding.cpp
@@ -20,7 +20,7 @@ void CorrectorWinding::SetBx(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, 0, value / l);
+	(*magnet).GetField().SetComponent(0, (*magnet).GetField().GetComponent(0).real(), value / l);
 }
 
 void CorrectorWinding::SetBy(double value)
@@ -31,7 +31,7 @@ void CorrectorWinding::SetBy(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, value / l, 0);
+	(*magnet).GetField().SetComponent(0, value / l, (*magnet).GetField().GetComponent(0).imag());
 }
 
 double CorrectorWinding::GetBx() const
-- 
2.43.0


From 7267b0ca056a730f7788519c7ab7f550d5dc8e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:19 +0000
Subject: [PATCH 209/235] fix: klystron: voltage and phase act on the cavities
 in vector sum mode

---
 Merlin++/Klystron.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Merlin++/Klystron.cpp b/Merlin++/Klystron.cpp
index 4b14a0f..a3c4a40 100644
--- a/Merlin++/Klystron.cpp
+++ b/Merlin++/Klystron.cpp
@@ -130,8 +130,16 @@ void Klystron::AppendBeamlineIndexes(std::vector<size_t>& ivec) const
 
 void Klystron::AdjustVectorSum(double v, double phi)
 {
-	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / Complex(V_k * cos(phi_k), V_k * sin(phi_k));
-	for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
+	Complex z0 = for_each(rf_cavs.begin(), rf_cavs.end(), accumulate_vector_sum()).z;
+	if(z0 == 0.0)
+	{
+		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(v / rf_cavs.size(), phi));
+	}
+	else
+	{
+		Complex vscale = Complex(v * cos(phi), v * sin(phi)) / z0;
+		for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
+	}
 	V_k = v;
 	phi_k = phi;
 }
-- 
2.43.0


From a71d020e211802c2980cf3683bbf7134c01f3570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:22 +0000
Subject: [PATCH 210/235] fix: ground motion: absolute ATL offsets are those of
 the end of the step

---
 Merlin++/ATL2D.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 8ee3b38..68c23ce 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -143,6 +143,8 @@ double ATL2D::DoStep(double dt)
 {
 	RealVector yy(theSupports.size());
 
+	t += dt;
+
 	double at = (atlMode == increment) ? A * dt : A * t;
 
 	for(size_t n = 0; n < theSupports.size(); n++)
@@ -155,7 +157,7 @@ double ATL2D::DoStep(double dt)
 
 	for_each(theSupports.begin(), theSupports.end(), ApplyATL(dy, vv, rg, atlMode));
 
-	return t += dt;
+	return t;
 }
 
 void ATL2D::RecordOffsets(std::ostream& os) const
-- 
2.43.0


From 7a63f42ab0069e4fae9b48e6b3c3725a4257d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:22 +0000
Subject: [PATCH 211/235] fix: ground motion: vanishing eigenvalues that come
 out negative by rounding

---
 Merlin++/ATL2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 68c23ce..f1db400 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -149,7 +149,7 @@ double ATL2D::DoStep(double dt)
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-		if(at * evals[n])
+		if(at * evals[n] > 0) // eigenvalues that should vanish can come out negative by rounding
 			yy(n) = normal_distribution<>{0, sqrt(at * evals[n])} (*rg);
 	}
 
-- 
2.43.0


From 8b82a593e6c93e2978be8a1031995f67ecaed99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:22 +0000
Subject: [PATCH 212/235] fix: ground motion: all components of the
 eigenvectors are recorded and read back

---
 Merlin++/ATL2D.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index f1db400..cd325b3 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -103,10 +103,10 @@ ATL2D::ATL2D(double anA, const AcceleratorSupportList& supports, const Point2D r
 	{
 		double element;
 		for(row = 0; row < n; row++)
-			for(col = row; col < n; col++)
+			for(col = 0; col < n; col++)
 			{
 				(*evecTFile) >> element;
-				evecsT(row, col) = evecsT(col, row) = element;
+				evecsT(row, col) = element;
 			}
 
 		for(row = 0; row < n; row++)
@@ -226,16 +226,16 @@ void ATL2D::RecordEigenSystem(ofstream* evecTFile, ofstream* evalFile)
 
 	for(row = 0; row < n; row++)
 	{
-		for(col = row; col < n; col++)
+		for(col = 0; col < n; col++)
 		{
-			(*evecTFile) << std::setw(14) << evecsT(row, col);
+			(*evecTFile) << std::scientific << std::setprecision(16) << std::setw(25) << evecsT(row, col);
 		}
 		(*evecTFile) << endl;
 	}
 
 	for(row = 0; row < n; row++)
 	{
-		(*evalFile) << std::setw(14) << evals(row) << endl;
+		(*evalFile) << std::scientific << std::setprecision(16) << std::setw(25) << evals(row) << endl;
 	}
 }
 
-- 
2.43.0


From 1f9958dbe5030a8e2eb59f4bb49674c5fb876d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:22 +0000
Subject: [PATCH 213/235] fix: ground motion: supports upstream of the origin

---
 Merlin++/SimpleATL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SimpleATL.cpp b/Merlin++/SimpleATL.cpp
index 6ced498..46ebd7c 100644
--- a/Merlin++/SimpleATL.cpp
+++ b/Merlin++/SimpleATL.cpp
@@ -39,7 +39,7 @@ struct ApplyATL
 	void operator()(AcceleratorSupport* s)
 	{
 		// Perform the random walk
-		double v = AT * (s->GetArcPosition() - z);
+		double v = AT * fabs(s->GetArcPosition() - z);
 		y += v != 0 ? normal_distribution<>{0, sqrt(v)} (*rng) : 0.0;
 		*yy += y;
 
-- 
2.43.0


From d52a1301ebbe76b915e999dd03993132f778bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 214/235] fix: accelerator errors: spreads below 15 nm are not
 dropped

---
 Merlin++/AcceleratorErrors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/AcceleratorErrors.cpp b/Merlin++/AcceleratorErrors.cpp
index ccd18af..1e99570 100644
--- a/Merlin++/AcceleratorErrors.cpp
+++ b/Merlin++/AcceleratorErrors.cpp
@@ -37,9 +37,9 @@ public:
 				frame->ClearLocalFrameTransform();
 			}
 
-			double ex = fequal(vx, 0.0) ? mx : RandomNG::normal(mx, vx);
-			double ey = fequal(vy, 0.0) ? my : RandomNG::normal(my, vy);
-			double ez = fequal(vz, 0.0) ? mz : RandomNG::normal(mz, vz);
+			double ex = RandomNG::normal(mx, vx);
+			double ey = RandomNG::normal(my, vy);
+			double ez = RandomNG::normal(mz, vz);
 			if(t)
 			{
 				frame->Translate(ex, ey, ez);
-- 
2.43.0


From 2a3e029341b2e6c764973ef61d2bafe2fad4249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:29 +0000
Subject: [PATCH 215/235] fix: accelerator errors: all alternatives of a
 pattern are matched

---
 Merlin++/AcceleratorErrors.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorErrors.cpp b/Merlin++/AcceleratorErrors.cpp
index 1e99570..84e54ff 100644
--- a/Merlin++/AcceleratorErrors.cpp
+++ b/Merlin++/AcceleratorErrors.cpp
@@ -17,13 +17,23 @@ using namespace std;
 namespace
 {
 
+// Each alternative of the pattern can follow the type of the frame
+string AnyType(string p)
+{
+	for(string::size_type i = p.find('|'); i != string::npos; i = p.find('|', i + 1))
+	{
+		p.insert(i + 1, "*.");
+	}
+	return "*." + p;
+}
+
 class Errors
 {
 public:
 
 	Errors(double vvx, double vvy, double vvz, double meanx, double meany, double meanz, const string& p, bool clear,
 		bool trans, ostream* l) :
-		vx(vvx), vy(vvy), vz(vvz), mx(meanx), my(meany), mz(meanz), c(clear), t(trans), pat("*." + p), log(l)
+		vx(vvx), vy(vvy), vz(vvz), mx(meanx), my(meany), mz(meanz), c(clear), t(trans), pat(AnyType(p)), log(l)
 	{
 	}
 
-- 
2.43.0


From 2e74c53a4ff57621c9afaea4281295644dbd727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:46 +0000
Subject: [PATCH 216/235] fix: XTFF files: length of profile monitors

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index e68b15f..ff8895d 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -335,7 +335,7 @@ BPM* ConstructBPM(const Data& data)
 
 RMSProfileMonitor* ConstructProfileMonitor(const Data& data)
 {
-	return new RMSProfileMonitor(data.label, data[L]);
+	return new RMSProfileMonitor(data.label, pi / 4, data[L]);
 }
 
 Solenoid* ConstructSolenoid(const Data& data)
-- 
2.43.0


From 53b7948938857e7d774a4a499aef8b3b242f1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:12 +0000
Subject: [PATCH 217/235] fix: XTFF files: the reference momentum given to
 Parse is used

---
 Merlin++/XTFFInterface.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index ff8895d..e031370 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -603,7 +603,7 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::Parse()
 	}
 	beam0 = new BeamData();
 	int nelm = ParseHeader(beam0);
-
+	energy = beam0->p0;
 	Parse1(nelm, true);
 	return GetModel();
 }
@@ -648,6 +648,10 @@ void XTFFInterface::AppendModel(const string& fname)
 		delete b;
 	}
 
+	if(mc == nullptr)
+	{
+		energy = beam0->p0;
+	}
 	Parse1(nelm, false);
 }
 
@@ -662,7 +666,6 @@ void XTFFInterface::Parse1(int nelm, bool isNewModel)
 		mc = new AcceleratorModelConstructor();
 		z_total = 0;
 		beamload = 0;
-		energy = beam0->p0;
 	}
 
 	if(logos)
-- 
2.43.0


From b823fa133e22562adcf220a05fa9c53b62aac8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:13 +0000
Subject: [PATCH 218/235] fix: XTFF files: no double deletion after a file that
 cannot be opened

---
 Merlin++/XTFFInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index e031370..e7cd486 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -633,6 +633,7 @@ void XTFFInterface::AppendModel(const string& fname)
 	{
 		string msg = "cannot open file " + fname;
 		delete ifs;
+		ifs = nullptr;
 		throw runtime_error(msg);
 	}
 
-- 
2.43.0


From 9b4dde67eaa1cb09fdc44c3a58cbe245f13c7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:13 +0000
Subject: [PATCH 219/235] fix: XTFF files: HMON and VMON can be treated as
 drifts

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index e7cd486..2ccde7e 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -367,7 +367,7 @@ inline bool is_skewsext(double tilt)
 
 void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 {
-	if(TYPEIS(HMON) || TYPEIS(VMON))
+	if((TYPEIS(HMON) || TYPEIS(VMON)) && driftTypes.find(dat.keywrd) == driftTypes.end())
 	{
 		dat.keywrd = "MONI";
 	}
-- 
2.43.0


From acb4ce10e743d559b3fa08479023c5390b9e6b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:13 +0000
Subject: [PATCH 220/235] fix: XTFF files: skew magnets with negative tilt

---
 Merlin++/XTFFInterface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 2ccde7e..b2a763c 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -231,7 +231,7 @@ SkewQuadrupole* ConstructSkewQuadrupole(const Data& data)
 	double k1 = data[K1];
 	double tilt = data[TILT];
 	double brho = energy / eV / SpeedOfLight;
-	return new SkewQuadrupole(data.label, len, -brho * k1); // normal quadrupole rotated by +45 degrees
+	return new SkewQuadrupole(data.label, len, tilt > 0 ? -brho * k1 : brho * k1); // normal quadrupole rotated by +-45 degrees
 }
 
 Sextupole* ConstructSextupole(const Data& data)
@@ -250,7 +250,7 @@ SkewSextupole* ConstructSkewSextupole(const Data& data)
 	double k2 = data[K2];
 	double tilt = data[TILT];
 	double brho = energy / eV / SpeedOfLight;
-	return new SkewSextupole(data.label, len, -brho * k2); // normal sextupole rotated by +30 degrees
+	return new SkewSextupole(data.label, len, tilt > 0 ? -brho * k2 : brho * k2); // normal sextupole rotated by +-30 degrees
 }
 
 Octupole* ConstructOctupole(const Data& data)
@@ -354,11 +354,11 @@ Marker* ConstructMarker(const Data& data)
 
 inline bool is_skewquad(double tilt)
 {
-	return fabs(tilt / SKQ_TILT - 1.0) < 1e-03;
+	return fabs(fabs(tilt) / SKQ_TILT - 1.0) < 1e-03;
 }
 inline bool is_skewsext(double tilt)
 {
-	return fabs(tilt / SKS_TILT - 1.0) < 1e-03;
+	return fabs(fabs(tilt) / SKS_TILT - 1.0) < 1e-03;
 }
 
 #define TYPEIS(kw) (dat.keywrd == #kw)
-- 
2.43.0


From 1dca44ea98298145a1cf947d96f54f9443828143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:13 +0000
Subject: [PATCH 221/235] fix: XTFF files: tilts that cannot be modelled are
 reported

---
 Merlin++/XTFFInterface.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index b2a763c..e8f299e 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -138,6 +138,15 @@ void ParseXTFF(istream& is, Data& data)
 #define YGAP   7
 #define SROT   7
 
+// tilts which cannot be modelled are reported
+void ReportTilt(const Data& data, double tilt)
+{
+	if(!fequal(tilt, 0.0))
+	{
+		cerr << "WARNING: ignoring tilt of " << data.keywrd << " " << data.label << endl;
+	}
+}
+
 Drift* ConstructDrift(const Data& data)
 {
 	return new Drift(data.label, data[L]);
@@ -220,7 +229,7 @@ Quadrupole* ConstructQuadrupole(const Data& data)
 	double len = data[L];
 	double k1 = data[K1];
 	double tilt = data[TILT];
-	assert(fequal(tilt, 0.0));
+	ReportTilt(data, tilt);
 	double brho = energy / eV / SpeedOfLight;
 	return new Quadrupole(data.label, len, brho * k1);
 }
@@ -239,7 +248,7 @@ Sextupole* ConstructSextupole(const Data& data)
 	double len = data[L];
 	double k2 = data[K2];
 	double tilt = data[TILT];
-	assert(fequal(tilt, 0.0));
+	ReportTilt(data, tilt);
 	double brho = energy / eV / SpeedOfLight;
 	return new Sextupole(data.label, len, brho * k2);
 }
@@ -258,7 +267,7 @@ Octupole* ConstructOctupole(const Data& data)
 	double len = data[L];
 	double k3 = data[K3];
 	double tilt = data[TILT];
-	assert(fequal(tilt, 0.0));
+	ReportTilt(data, tilt);
 	double brho = energy / eV / SpeedOfLight;
 	return new Octupole(data.label, len, brho * k3);
 }
@@ -268,7 +277,7 @@ Decapole* ConstructDecapole(const Data& data)
 	double len = data[L];
 	double k4 = data[K4];
 	double tilt = data[TILT];
-	assert(fequal(tilt, 0.0));
+	ReportTilt(data, tilt);
 	double brho = energy / eV / SpeedOfLight;
 	return new Decapole(data.label, len, brho * k4);
 }
-- 
2.43.0


From 34923c70de1b1c747b2f791b29b51d9267745022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:50 +0000
Subject: [PATCH 222/235] fix: XTFF files: another model can be read after
 GetModel

---
 Merlin++/XTFFInterface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index e8f299e..4e4c627 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -708,7 +708,10 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::GetModel()
 
 	BeamData* beam = beam0;
 	beam0 = nullptr;
-	return make_pair(mc->GetModel(), beam);
+	AcceleratorModel* model = mc->GetModel();
+	delete mc; // the next file starts a new model
+	mc = nullptr;
+	return make_pair(model, beam);
 }
 
 int XTFFInterface::ParseHeader(BeamData* bdat)
-- 
2.43.0


From 0b916660f725ab3adab062122b3e4f9815f9f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:00 +0000
Subject: [PATCH 223/235] fix: XTFF files: rectangular collimators have the
 half gaps of their record

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 4e4c627..d40ea9d 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -504,7 +504,7 @@ void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 		c = mc->AppendComponent(ConstructDrift(dat));
 		if(incApertures)
 		{
-			c->SetAperture(new RectangularAperture(2 * dat[XGAP], 2 * dat[YGAP]));
+			c->SetAperture(new RectangularAperture(dat[XGAP], dat[YGAP]));
 		}
 	}
 	else if(dat.keywrd == "SROT")
-- 
2.43.0


From f69b4ab8835d8a5cdcd8dcd5b77184a3a8a7129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:45 +0000
Subject: [PATCH 224/235] fix: macro-particle bunches ignored rolls below a
 milliradian

---
 Merlin++/RMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index 9b1a4e4..843fc23 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -249,7 +249,7 @@ public:
 
 	bool IsIdentity() const
 	{
-		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6);
+		return fequal(r11, 1.0, 1.0e-12) && fequal(r22, 1.0, 1.0e-12) && fequal(r12, 0.0, 1.0e-12) && fequal(r21, 0.0, 1.0e-12);
 	}
 
 	// matrix elements
-- 
2.43.0


From c3cd0ee4775ce240c434b067933090ec0bc8ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:45 +0000
Subject: [PATCH 225/235] fix: macro-particle bunches were defocused by thin
 focusing quadrupoles

---
 Merlin++/SMPStdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 84aa6e9..cf0ec6f 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -99,8 +99,8 @@ struct ThinLensKick
 			double k = dpp * k1;
 			RMap M;
 			MakeIdentity(M);
-			M.AddTerm(2, 1) = k;
-			M.AddTerm(4, 3) = -k;
+			M.AddTerm(2, 1) = -k;
+			M.AddTerm(4, 3) = k;
 			M.Apply(p);
 		}
 	}
-- 
2.43.0


From 1d55b7d54026b3900b864bffc9acdc45704aabfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:45 +0000
Subject: [PATCH 226/235] fix: macro-particle bunches saw skew quadrupoles with
 the wrong sign and dipole kick

---
 Merlin++/SMPStdIntegrators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index cf0ec6f..62fce51 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -348,7 +348,7 @@ void RectMultipoleCI::TrackStep(double ds)
 		phi = arg(cK1) / 2.0;
 	}
 
-	double tilt = /*Component().GetGeometry().GetTilt()*/ -phi;
+	double tilt = phi; // the gradient is real in the rotated frame
 
 	if(tilt != 0)
 	{
@@ -356,7 +356,7 @@ void RectMultipoleCI::TrackStep(double ds)
 	}
 	if(phi != 0)
 	{
-		cK0 *= -cK1 / abs(cK1);    // rotate dipole kick back
+		cK0 *= Complex(cos(phi), -sin(phi));    // dipole kick in the rotated frame
 	}
 
 	if(currentComponent->GetLength() == 0 && ds == 0 && !field.IsNullField())
-- 
2.43.0


From a7ae7c7696aae4d343f38bc3da2a5fe6978e4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:45 +0000
Subject: [PATCH 227/235] fix: macro-particle bunches were bent in the mirrored
 plane by tilted bends, and saw their pole faces untilted

---
 Merlin++/SMPStdIntegrators.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 62fce51..098529c 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -236,12 +236,6 @@ void SectorBendCI::TrackStep(double ds)
 	}
 
 	double h = (currentComponent->GetGeometry()).GetCurvature();
-	double tilt = (currentComponent->GetGeometry()).GetTilt();
-
-	if(tilt != 0)
-	{
-		RotateBunchAboutZ(*currentBunch, tilt);
-	}
 
 	MultipoleField& field = currentComponent->GetField();
 	const double P0 = currentBunch->GetReferenceMomentum();
@@ -270,16 +264,18 @@ void SectorBendCI::TrackStep(double ds)
 		ApplyMap(M, *currentBunch);
 	}
 
-	if(tilt != 0)
-	{
-		RotateBunchAboutZ(*currentBunch, -tilt);
-	}
-
 	return;
 }
 
 void SectorBendCI::TrackEntrance()
 {
+	// into the bending plane
+	double tilt = (currentComponent->GetGeometry()).GetTilt();
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, -tilt);
+	}
+
 	const SectorBend::PoleFaceInfo& pfi = currentComponent->GetPoleFaceInfo();
 	if(pfi.entrance != nullptr)
 	{
@@ -296,6 +292,12 @@ void SectorBendCI::TrackExit()
 		double h = (currentComponent->GetGeometry()).GetCurvature();
 		ApplyPoleFaceRotation(h, *pfi.exit);
 	}
+
+	double tilt = (currentComponent->GetGeometry()).GetTilt();
+	if(tilt != 0)
+	{
+		RotateBunchAboutZ(*currentBunch, tilt);
+	}
 }
 
 void SectorBendCI::ApplyPoleFaceRotation(double h, const SectorBend::PoleFace& pf)
-- 
2.43.0


From 121b3459a6089901267dc4b7291efb0bc57c42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:45 +0000
Subject: [PATCH 228/235] fix: macro-particle maps of cavities with a gain
 comparable to the energy

---
 Merlin++/TransportRMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 3b6bd77..89d4c40 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -16,7 +16,7 @@ namespace TransportRMap
 
 inline double LogOnePlusX(double x)
 {
-	return x * (1 - 0.5 * x);
+	return log1p(x);
 }
 
 // ct and dp are unchanged
-- 
2.43.0


From b455a7e8873337223cda17b73957bf77c6cd8e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 229/235] fix: random numbers with a covariance matrix without
 spread in a direction were not numbers

---
 Merlin++/MultiNormal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MultiNormal.h b/Merlin++/MultiNormal.h
index 45bf2f7..c508d2e 100644
--- a/Merlin++/MultiNormal.h
+++ b/Merlin++/MultiNormal.h
@@ -146,7 +146,7 @@ void MultiNormal<N>::CholeskyDecomp()// uses Cholesky-Banachiewicz algorithm fro
 			} 
 			else
 			{
-				L(i,j)=(L(j,i)-stot)/L(j,j);
+				L(i,j)=L(j,j)!=0 ? (L(j,i)-stot)/L(j,j) : 0; // no spread, no correlation
 			}
 		}
 	}
-- 
2.43.0


From 04662ee6df25d2788728611336255dca7debcd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:43 +0000
Subject: [PATCH 230/235] fix: physical constants do not depend on the order in
 which files are initialised

---
 Merlin++/NumericalConstants.cpp |  4 ++--
 Merlin++/PhysicalConstants.cpp  | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/Merlin++/NumericalConstants.cpp b/Merlin++/NumericalConstants.cpp
index c91c1d7..b33db41 100644
--- a/Merlin++/NumericalConstants.cpp
+++ b/Merlin++/NumericalConstants.cpp
@@ -8,6 +8,6 @@
 #include "NumericalConstants.h"
 #include <cmath>
 
-const double pi = 4.0 * atan(1.0);
-const double twoPi = 8.0 * atan(1.0);
+const double pi = 3.14159265358979323846;
+const double twoPi = 2 * pi;
 const double euler = 0.57721566490153286;
diff --git a/Merlin++/PhysicalConstants.cpp b/Merlin++/PhysicalConstants.cpp
index e387c1c..1737d9f 100644
--- a/Merlin++/PhysicalConstants.cpp
+++ b/Merlin++/PhysicalConstants.cpp
@@ -13,15 +13,18 @@
 // Class Utility PhysicalConstants
 namespace PhysicalConstants
 {
-using namespace PhysicalUnits;
+
+// Every constant is computed by the compiler, from literals of this file: values which other files compute when the
+// program starts may not be there yet.
+static const double Pi = 3.14159265358979323846;
 
 //Updated with PDG 2008 values
 
 const double Avogadro = 6.02214179e23;
 
-const double AtomicMassUnit = 931.494028 * MeV; //MeV given by PDG 2008
+const double AtomicMassUnit = 931.494028 * 1.0e-3; // GeV, MeV given by PDG 2008
 
-const double SpeedOfLight = 2.99792458e+08 * meter / second;
+const double SpeedOfLight = 2.99792458e+08; // meter per second
 
 const double ElectronMass = 9.10938215e-31; // kilogram (old = 9.10956e-31)
 
@@ -29,7 +32,7 @@ const double ProtonMass = 1.672621637e-27; // kilogram  (old = 1.67261e-27)
 
 const double PlanckConstant = 6.62606896e-34; // Joule second (old = 6.62620e-34)
 
-const double PlanckConstantBar = PlanckConstant / (2 * pi);
+const double PlanckConstantBar = PlanckConstant / (2 * Pi);
 
 const double ElectronCharge = 1.602176487e-19; // Coulomb (old = 1.60219e-19)
 
@@ -39,11 +42,11 @@ const double ProtonMassMeV = 938.272013; // MeV (old = 938.2578)
 
 const double ProtonMassGeV = 0.938272013;
 
-const double FreeSpacePermeability = 16.0e-7 * atan(1.0); // Henry per meter
+const double FreeSpacePermeability = 4.0e-7 * Pi; // Henry per meter
 
 const double FreeSpacePermittivity = 1.0 / FreeSpacePermeability / SpeedOfLight / SpeedOfLight; // Farad per meter
 
-const double ElectronRadius = ElectronCharge * ElectronCharge / 16.0 / atan(1.0) / FreeSpacePermittivity
+const double ElectronRadius = ElectronCharge * ElectronCharge / 4.0 / Pi / FreeSpacePermittivity
 	/ ElectronMass / SpeedOfLight / SpeedOfLight;                                                                                        // meter
 
 const double ElectronGe = 0.001159652181; //Magnetic moment anomaly e cm (old = 0.00115965219)
@@ -52,7 +55,7 @@ const double MuonMassMeV = 105.65836;
 
 const double MuonMass = ProtonMass * MuonMassMeV / ProtonMassMeV; //AtomicMassUnit * 0.11342892;
 
-const double MuonLifetime = 2.1970e-6 * second; //In the rest frame
+const double MuonLifetime = 2.1970e-6; // seconds, in the rest frame
 
 const double FineStructureConstant = (ElectronCharge * ElectronCharge * SpeedOfLight * FreeSpacePermeability) / (2
 	* PlanckConstant);
-- 
2.43.0


From a06e50a345c8703d3465bb43e62759f84c7118b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 231/235] fix: collimator wakes are not applied in components
 with other wake potentials

---
 Merlin++/CollimatorWakeProcess.cpp | 13 +++++++++++++
 Merlin++/CollimatorWakeProcess.h   |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index 2cd0539..6cc522f 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -13,6 +13,7 @@
 
 #include "merlin_config.h"
 
+#include "AcceleratorComponent.h"
 #include "Aperture.h"
 
 #include "ParticleBunch.h"
@@ -162,6 +163,18 @@ void CollimatorWakeProcess::CalculateWakeL(double dz, int currmode)
 	}
 }
 
+void CollimatorWakeProcess::SetCurrentComponent(AcceleratorComponent& component)
+{
+	WakePotentials* wake = component.GetWakePotentials();
+	if(wake && !dynamic_cast<CollimatorWakePotentials*>(wake))
+	{
+		active = false;
+		recalc = true;
+		return;
+	}
+	WakeFieldProcess::SetCurrentComponent(component);
+}
+
 void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 {
 	collimator_wake = (CollimatorWakePotentials *) currentWake;
diff --git a/Merlin++/CollimatorWakeProcess.h b/Merlin++/CollimatorWakeProcess.h
index 678f910..ec61acf 100644
--- a/Merlin++/CollimatorWakeProcess.h
+++ b/Merlin++/CollimatorWakeProcess.h
@@ -29,6 +29,10 @@ public:
 	CollimatorWakeProcess(int, int, size_t, double);
 	~CollimatorWakeProcess();
 
+	/**
+	 * Acts in components with CollimatorWakePotentials; others belong to other wakefield processes.
+	 */
+	virtual void SetCurrentComponent(AcceleratorComponent& component);
 	virtual void ApplyWakefield(double);
 	virtual void CalculateWakeT(double, int);
 	virtual void CalculateWakeL(double, int);
-- 
2.43.0


From 5612d10421d8063e42d72900595b076cb8911884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:37 +0000
Subject: [PATCH 232/235] fix: wakefields of a bunch without particles leave
 the reference momentum alone

---
 Merlin++/WakeFieldProcess.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index 7eea778..fa65cfe 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -213,9 +213,13 @@ void WakeFieldProcess::DoProcess(double ds)
 	current_s += ds;
 	if(fequal(current_s, impulse_s, 1e-14 * (1 + clen)))
 	{
-		currentBunch->SortByCT();
-		Init();
-		ApplyWakefield(clen);
+		// a bunch that has lost all its particles has no wake
+		if(currentBunch->size() != 0)
+		{
+			currentBunch->SortByCT();
+			Init();
+			ApplyWakefield(clen);
+		}
 		active = false;
 	}
 #endif
-- 
2.43.0


From 994f1ae4844667916ec108a5f56c33c172939cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:43 +0000
Subject: [PATCH 233/235] fix: aperture table positions stay sorted when
 entrances are rounded

---
 Merlin++/ApertureConfiguration.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 851b4a9..f769ade 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -45,8 +45,15 @@ ApertureConfiguration::ApertureConfiguration(string InputFileName)
 		if(itr.Get_d("APER_1") != 0 || itr.Get_d("APER_2") != 0 || itr.Get_d("APER_3") != 0 || itr.Get_d(
 				"APER_4") != 0)
 		{
+			// the table is searched by position: rounding must not put an entrance in front of the last exit
+			size_t n = ApertureDataTable.Length();
+			double entrance = itr.Get_d("S") - itr.Get_d("L");
+			if(n != 0)
+			{
+				entrance = max(entrance, ApertureDataTable.Get_d("S", n - 1));
+			}
 			ApertureDataTable.ApertureFromRow(itr);
-			ApertureDataTable.Set("S", ApertureDataTable.Length() - 1, (itr.Get_d("S") - itr.Get_d("L")));
+			ApertureDataTable.Set("S", n, entrance);
 			ApertureDataTable.ApertureFromRow(itr);
 		}
 	}
-- 
2.43.0


From cf80f96497333ff28d8c939a578ee7f904084ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 234/235] fix: components start without material properties

---
 Merlin++/AcceleratorComponent.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/AcceleratorComponent.h b/Merlin++/AcceleratorComponent.h
index 0910b5a..42d5e19 100644
--- a/Merlin++/AcceleratorComponent.h
+++ b/Merlin++/AcceleratorComponent.h
@@ -226,13 +226,15 @@ public:
 };
 
 inline AcceleratorComponent::AcceleratorComponent(const string& aName) :
-	ModelElement(aName), itsField(nullptr), itsGeometry(nullptr), itsAperture(nullptr), itsWakes(nullptr), position(0),
+	ModelElement(aName), itsField(nullptr), itsGeometry(nullptr), itsAperture(nullptr), materialProperties(nullptr), itsWakes(nullptr),
+	position(0),
 	blI(0)
 {
 }
 
 inline AcceleratorComponent::AcceleratorComponent(const string& aName, AcceleratorGeometry* aGeom, EMField* aField) :
-	ModelElement(aName), itsField(aField), itsGeometry(aGeom), itsAperture(nullptr), itsWakes(nullptr), position(0),
+	ModelElement(aName), itsField(aField), itsGeometry(aGeom), itsAperture(nullptr), materialProperties(nullptr), itsWakes(nullptr),
+	position(0),
 	blI(0)
 {
 }
-- 
2.43.0


From 218af8c526d2027f7910b1931dacf9e6800ff085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 235/235] fix: a collimator constructed with a material keeps
 it

---
 Merlin++/Collimator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Collimator.cpp b/Merlin++/Collimator.cpp
index a5201bb..055ab0a 100644
--- a/Merlin++/Collimator.cpp
+++ b/Merlin++/Collimator.cpp
@@ -24,9 +24,10 @@ Collimator::Collimator(const string& id, double len, double radLength) :
 }
 
 Collimator::Collimator(const string& id, double len, MaterialProperties* mat, double P0) :
-	Drift(id, len)
+	Drift(id, len), Xr(0)
 {
 	scatter_at_this_collimator = true;
+	SetMaterialProperties(mat);
 }
 
 const string& Collimator::GetType() const
-- 
2.43.0

