From 84488aa446cca93d32d9b450576e0de94a8c8981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:52 +0000
Subject: [PATCH 01/66] fix: TimeControl starts from the start time it is given

setStartTime() kept the current time at zero, so that with a non-zero start
time the first steps had a wrong (even negative) normalized time.
---
 src/lib/FESolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 000fcaa..e7997c9 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -103,15 +103,19 @@ double TimeControl::getCurrentNormalizedTimeDelta() {
 
 
 void TimeControl::setEndTime(double _endTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set end time = " << _endTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set end time = " << _endTime
       << " when solution is running (current time = " << currentTime << ")";
   endTime = _endTime;
 }
 
 
 void TimeControl::setStartTime(double _startTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set start time = " << _startTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set start time = " << _startTime
       << " when solution is running (current time = " << currentTime << ")";
+  // time goes from the start time, until the first step is made
+  if (currentTime == startTime) {
+    currentTime = _startTime;
+  }
   startTime = _startTime;
 }
 
-- 
2.43.0


From b3b4a9976d979c2e6854f62e2415a22ea0c3eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:52 +0000
Subject: [PATCH 02/66] fix: TimeControl makes the requested number of equal
 steps

With delta = 1/6, 1/7, 1/10 (the default number of load steps) and many others
the accumulated rounding error made nextStep() split the last step into two:
10 requested load steps were solved as 11. The last step also lands on the end
time exactly now.
---
 src/lib/FESolver.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index e7997c9..f56b079 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -39,16 +39,21 @@ bool TimeControl::nextStep(double delta) {
   if (currentTime >= endTime) {
     return false;    
   }
+  // the sums of deltas are rounded: don't let rounding errors produce additional steps
+  const double eps = 1.0e-9 * (endTime - startTime);
   // if delta bigger than endTime-currentTime
-  if (currentTime + delta >= endTime) {
+  if (currentTime + delta >= endTime - eps) {
     currentTimeDelta = endTime - currentTime;
-  } else if (currentTime + 2*delta >= endTime) {
-    currentTimeDelta = (endTime - currentTime)/2.0;
+    currentTime = endTime;
   } else {
-    currentTimeDelta = delta;
+    if (currentTime + 2*delta >= endTime - eps) {
+      currentTimeDelta = (endTime - currentTime)/2.0;
+    } else {
+      currentTimeDelta = delta;
+    }
+    currentTime += currentTimeDelta;
   }
   DCHECK (currentTimeDelta > 0.0);
-  currentTime += currentTimeDelta;
   currentEquilibriumStep = 0;
   LOG(INFO) << "***** Loadstep = " << getCurrentStep() << ", Time = "
       << getCurrentTime() << " of " << getEndTime();
-- 
2.43.0


From f37e86f2a84534a307408fe4fc771e33cefee566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 03/66] fix: setSparsityInfo() drops the values of the previous
 sparsity

A matrix that already had values kept its old array, which is read and written
out of bounds when the new sparsity has more entries.
---
 src/lib/math/SparseMatrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 92dde44..f5a2266 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -343,6 +343,11 @@ void BaseSparseMatrix::setSparsityInfo(std::shared_ptr<SparsityInfo> spar_info)
   // use already exist SparsityInfo instance. It can in compressed = false state or already
   // compressed = true state
   si = spar_info;
+  // the old values belong to the old sparsity
+  if (values) {
+    delete[] values;
+    values = nullptr;
+  }
   // if we add SparsityInfo with alreade fixed number of entries we are ready to allocate values
   if (si->compressed == true) 
     compress();
-- 
2.43.0


From 34e1f55496c8c89c122926a06be722545cf20e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 04/66] fix: block matrix made from another one has the same
 number of rows

The rows of the blocks were added to the already copied total.
---
 src/lib/math/BlockSparseMatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/math/BlockSparseMatrix.h b/src/lib/math/BlockSparseMatrix.h
index 5d8b2e6..aebbf9c 100644
--- a/src/lib/math/BlockSparseMatrix.h
+++ b/src/lib/math/BlockSparseMatrix.h
@@ -99,7 +99,6 @@ BlockSparseSymMatrix<nb>::BlockSparseSymMatrix(BlockSparseSymMatrix<nb>* ex) {
     for (uint16 j = i+1; j < nb; j++) {
       block(i+1, j+1)->setSparsityInfo(ex->block(i+1, j+1)->getSparsityInfo());
     }
-    total_rows += rows_in_block[i];
   }
 }
 
-- 
2.43.0


From aa341059a16f074ce49741decd3642805ff05358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 05/66] fix: vectors are written with the precision needed to
 read them back

dVec::writeTextFormat() used the stream's 6 digits, so that a dump of a model
didn't compare equal (1.0e-9) to the same model; the matrix writer left the
scientific format set on the caller's stream.
---
 src/lib/math/SparseMatrix.cpp | 2 +-
 src/lib/math/Vec.cpp          | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index f5a2266..7f07b83 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -200,7 +200,7 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(total == si->numberOfValues);
   // return back old setup
   out.precision(old_precision);
-  out.setf(old_flags);
+  out.flags(old_flags);
 }
 
 
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 74eb812..4501392 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -253,10 +253,15 @@ bool dVec::compare(const dVec& op2, double th) {
 
 
 void dVec::writeTextFormat(std::ostream& out) {
+  // we need to return back old preferences after usage
+  auto old_precision = out.precision(15);
+  auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   out << size() << std::endl;
   for (uint32 i = 0; i < size(); i++) {
     out << data[i] << std::endl;
   }
+  out.precision(old_precision);
+  out.flags(old_flags);
 }
 
 
-- 
2.43.0


From 57b2c9d7dc1dc079833157806e1530cc6e544841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 06/66] fix: assignment of a dVec from a view on its own memory

The memory was released before the values were copied from it.
---
 src/lib/math/Vec.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 4501392..d54288d 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -224,9 +224,17 @@ dVec& dVec::operator=(const dVec& op) {
   } else if (!op.isInit()) {
     clear();
   } else {
-      if (_size != op.size())
-        reinit(op.size());
-      memcpy(data, op.data, sizeof(double) * op.size());
+      if (_size != op.size()) {
+        // op can be a view on the memory owned by this vector: copy before releasing it
+        dVec copy(op);
+        clear();
+        std::swap(data, copy.data);
+        std::swap(_size, copy._size);
+        std::swap(memory_owner, copy.memory_owner);
+      } else {
+        // both can be views on overlapping parts of the same memory
+        memmove(data, op.data, sizeof(double) * op.size());
+      }
   }
   return *this;
 }
-- 
2.43.0


From f2f852b3f28c01b4af44df8f08e4e982459d41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:12 +0000
Subject: [PATCH 07/66] fix: PARDISO solver can be used for matrices with
 another sparsity

---
 src/lib/math/EquationSolver.cpp | 17 ++++++++++++++++-
 src/lib/math/EquationSolver.h   |  6 ++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index d0e8e43..12d4679 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -135,7 +135,9 @@ bool GaussDenseEquationSolver::_solve(double* X, double* A,
 
 #ifdef NLA3D_USE_MKL
 PARDISO_equationSolver::~PARDISO_equationSolver () {
-  releasePARDISO();
+  if (!firstRun) {
+    releasePARDISO();
+  }
 }
 
 void PARDISO_equationSolver::solveEquations (math::SparseSymMatrix* matrix, double* rhs, double* unknowns) {
@@ -166,6 +168,11 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 
 void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
   TIMED_SCOPE(t, "factorizeEquations");
+  if (!firstRun && !isFactorizedFor(matrix)) {
+    // the matrix has another sparsity: symbolic factorization should be done again
+    releasePARDISO();
+    firstRun = true;
+  }
   if (firstRun) {
     initializePARDISO(matrix);
   }
@@ -225,6 +232,8 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 
   nEq = matrix->nRows();
   int n = static_cast<int> (nEq);
+  iofeir.assign(matrix->getIofeirArray(), matrix->getIofeirArray() + nEq + 1);
+  columns.assign(matrix->getColumnsArray(), matrix->getColumnsArray() + matrix->nValues());
 
   // initialize error code
 	int error = 0; 
@@ -239,6 +248,12 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
   LOG(INFO) << "Number of nonzeros in factors = " << iparm[17] << ", number of factorization MFLOPS = " << iparm[18];
 }
 
+bool PARDISO_equationSolver::isFactorizedFor(math::SparseSymMatrix* matrix) {
+  return nEq == matrix->nRows() && columns.size() == matrix->nValues() &&
+         std::equal(iofeir.begin(), iofeir.end(), matrix->getIofeirArray()) &&
+         std::equal(columns.begin(), columns.end(), matrix->getColumnsArray());
+}
+
 void PARDISO_equationSolver::releasePARDISO () {
   int phase = -1;
   int n = static_cast<int> (nEq);
diff --git a/src/lib/math/EquationSolver.h b/src/lib/math/EquationSolver.h
index f0f3e89..8155263 100644
--- a/src/lib/math/EquationSolver.h
+++ b/src/lib/math/EquationSolver.h
@@ -55,6 +55,12 @@ public:
 protected:
   void initializePARDISO (math::SparseSymMatrix* matrix);
   void releasePARDISO ();
+  // is the symbolic factorization done for the sparsity of the matrix?
+  bool isFactorizedFor(math::SparseSymMatrix* matrix);
+
+  // the sparsity (row pointers and columns) for which the symbolic factorization was done
+  std::vector<uint32> iofeir;
+  std::vector<uint32> columns;
 
   // Internal solver memory pointer pt
 	void *pt[64]; 
-- 
2.43.0


From 7ca77f677c6a669ebecec4824b8fc60c2a6a482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 08/66] fix: PARDISO settings for systems with multi-point
 constraints

---
 src/lib/math/EquationSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 12d4679..26d599c 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -216,6 +216,7 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 	iparm[7] = 2; //max numbers of iterative refinement steps
 	iparm[9] = 13; //pertrub the pivor elements with 1e-13
 	iparm[10] = 1; //use nonsymmetric permutation  and scaling MPS
+	iparm[12] = 1; //use weighted matching: systems with Mpc equations have zeros on the diagonal
 	iparm[13]=0; //output: number of perturbed pivots
 	iparm[17]=-1; //output: number of nonzeros in the factor LU
 	iparm[18]=-1; //output: MFLOPS for LU factorization
-- 
2.43.0


From d2d6526cb9da7bfa1fb4b7b83d466a61aa5e7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 09/66] fix: eigenvalues of a matrix with equal eigenvalues are
 not NaN

---
 src/lib/math/Mat.h | 1654 ++++++++++++++++++++++----------------------
 1 file changed, 829 insertions(+), 825 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 617c824..c9c1d15 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -1,825 +1,829 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include <iostream>
-#include "math/Vec.h"
-
-#ifdef NLA3D_USE_BLAS
-  #include <mkl.h>
-#endif
-
-namespace nla3d {
-namespace math {
-
-template<uint16 dimM, uint16 dimN>
-class Mat
-{
-public:
-	Mat() {
-		assert(dimM && dimN);
-	}
-	Mat(double first, ...) {
-		assert(dimM && dimN);
-		va_list argp;
-		va_start(argp, first);
-		for (uint16 i=0; i < dimM; i++)
-			for (uint16 j=0; j < dimN; j++)
-			{
-				if (i == 0 && j == 0) data[i][j]=first;
-				else data[i][j]=va_arg(argp, double);
-			}
-		va_end(argp);
-	}
-	~Mat() { }
-
-	Vec<dimN>& operator[] (uint16 n);
-	const Vec<dimN>& operator[] (uint16 n) const;
-	Mat<dimN,dimM> transpose ();
-	void display ();
-	Mat operator+ (const Mat &op);
-	Mat& operator+= (const Mat &op);
-	Mat operator- () const;
-	Mat& operator= (const Mat &op);
-	Mat<dimM,1>& operator= (const Vec<dimM> &op); //TODO: CHECK this operation
-	Mat operator- (const Mat &op) const;
-	Mat operator* (const double op);
-	void Identity ();
-	void zero ();
-	double det();
-	Vec<dimM> eigenvalues();
-	Mat<dimM,dimN> inv(double det);
-	Mat<dimM-1,dimN-1> cross_cut (uint16 cuti, uint16 cutj);
-    std::string toString ();
-	double* ptr ();
-	bool compare (const Mat<dimM,dimN> &B, double eps = 1.0e-5);
-	void simple_read (std::istream &st);
-	//friend функции
-	template <uint16 dimM1, uint16 dimN1> 
-	friend std::ostream& operator<< (std::ostream& stream, const Mat<dimM1,dimN1> &obj);
-	template <uint16 dimM1, uint16 dimN1, uint16 dimM2, uint16 dimN2> 
-    friend Mat<dimM1,dimN2> operator* (const Mat<dimM1,dimN1> &op1, const Mat<dimM2,dimN2> &op2);
-	template <uint16 dimM1, uint16 dimN1, uint16 dimM2> 
-    friend Vec<dimM1> operator* (const Mat<dimM1,dimN1> &op1, const Vec<dimM2> &op2);
-    // template<uint16 dimM1, uint16 dimN1>
-    // friend bool matCompare (const Mat<dimM1, dimN>& mat1, const Mat<dimM1, dimN1>& mat2, const double eps);
-
-    uint16 dM() const {
-      return dimM;
-    }
-
-    uint16 dN() const {
-      return dimN;
-    }
-
-	Vec<dimN> data[dimM];
-private:
-    //data was moved from here to public
-};
-
-//---------operator<<----------------------------------------------------------
-template<uint16 dimM, uint16 dimN> std::ostream &operator<<(std::ostream &stream, const Mat<dimM,dimN> &obj) {
-	for (uint16 i = 0; i < dimM; i++) {
-		stream << "[" << obj.data[i] << "]" << std::endl;
-	}
-	return stream;
-}
-
-//----------operator[]---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-inline Vec<dimN>& Mat<dimM,dimN>::operator[] (uint16 n) {
-		assert(n < dimM);
-		return data[n];
-}
-template<uint16 dimM, uint16 dimN>
-inline const Vec<dimN>& Mat<dimM,dimN>::operator[] (uint16 n) const {
-	assert(n < dimM);
-	return data[n];
-}
-//----------Identity ()---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-void Mat<dimM,dimN>::Identity () {
-	assert (dimM==dimN);
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			if (i==j)
-				data[i][j]=1.0f;
-			else
-				data[i][j]=0.0f;
-}
-//----------zero()---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-void Mat<dimM,dimN>::zero() {
-	memset(data,0,sizeof(double)*dimM*dimN);
-}
-//-------------display()------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-void Mat<dimM,dimN>::display() {
-	for (unsigned int i = 0; i < dimM; i++) {
-		std::cout << "[";
-		data[i].display();
-		std::cout << "]" << std::endl;
-	} 
-}
-//----------transpose()-------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimN,dimM> Mat<dimM,dimN>::transpose () {
-	Mat<dimN,dimM> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[j][i]=this->data[i][j];
-	return p;
-}
-//----------operator+(Mat)---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN> Mat<dimM,dimN>::operator+ (const Mat<dimM,dimN> &op) {
-	Mat<dimM,dimN> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[i][j]=this->data[i][j]+op.data[i][j];
-	return p;
-}
-//----------operator-()---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN> Mat<dimM,dimN>::operator- () const {
-	Mat<dimM,dimN> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[i][j] = -this->data[i][j];
-	return p;
-}
-//----------operator-(Mat)---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN> Mat<dimM,dimN>::operator- (const Mat<dimM,dimN> &op) const {
-	Mat<dimM,dimN> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[i][j]=this->data[i][j]-op.data[i][j];
-	return p;
-}
-//-----------operator*(double)----------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN> Mat<dimM,dimN>::operator*(const double op)
-{
-	Mat<dimM,dimN> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[i][j]=this->data[i][j]*op;
-	return p;
-}
-//----------operator+=---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN>& Mat<dimM,dimN>::operator+= (const Mat<dimM,dimN> &op) {
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			this->data[i][j]+=op.data[i][j];
-	return *this;
-}
-//----------operator=(Mat)---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN>& Mat<dimM,dimN>::operator= (const Mat<dimM,dimN> &op)
-{
-	for (uint16 i = 0; i < dimM; i++)
-		this->data[i]=op.data[i];
-	return *this;
-}
-//----------operator=(Vec)---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,1>& Mat<dimM,dimN>::operator= (const Vec<dimM> &op)
-{
-	assert(dimN == 1); //только для матрицы-столбца
-	for (uint16 i = 0; i < dimM; i++)
-		this->data[i][0] = op[i];
-	return *this;
-}
-//----------operator*(Mat)---------------------------------------------------------
-template<uint16 dimM1, uint16 dimN1, uint16 dimM2, uint16 dimN2> Mat<dimM1,dimN2> operator*(const Mat<dimM1,dimN1> &op1, const Mat<dimM2,dimN2> &op2) {
-	assert(dimN1 == dimM2);
-	Mat<dimM1, dimN2> p;
-	double element;
-	double *ptr1 = (double*) op1.data;
-	double *ptr2 = (double*) op2.data;
-	for (uint16 i=0; i < dimM1; i++)
-		for (uint16 j=0; j < dimN2; j++)
-		{
-			element=0.0f;
-			for (uint16 l=0; l < dimN1; l++) element+=ptr1[i*dimN1+l]*ptr2[l*dimN2+j];
-				//(op1.data[i])[l]*(op2.data[l])[j];
-			p[i][j]=element;
-		}
-	return p;
-
-
-	//assert(dimN == dimM2);
-	//Mat<dimM, dimN2> p;
-	//double element;
-	//for (uint16 i=0; i < dimM; i++)
-	//	for (uint16 j=0; j < dimN2; j++)
-	//	{
-	//		element=0.0f;
-	//		for (uint16 l=0; l < dimN; l++) element+=(op1.data[i])[l]*(op2.data[l])[j];
-	//		p[i][j]=element;
-	//	}
-	//return p;
-}
-//-----------operator*(Vec)---------------------------------------------------------
-template <uint16 dimM1, uint16 dimN1, uint16 dimM2> Vec<dimM1> operator* (const Mat<dimM1,dimN1> &op1, const Vec<dimM2> &op2) {
-	assert(dimN1==dimM2);
-	Vec<dimM1> p;
-	double el;
-	for (uint16 i=0; i < dimM1; i++)
-	{
-		el = 0.0f;
-		for (uint16 j=0; j < dimN1; j++)
-			el += op1.data[i][j]*op2[j];
-		p[i] = el;
-	}
-	return p;
-}
-//--------------------------------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-std::string Mat<dimM,dimN>::toString()
-{
-    std::string p;
-	for (unsigned int i = 0; i < dimM; i++) {
-		p+= "[";
-		p+=data[i].toString();
-		p+= "]";
-		if (i!=dimM-1) p+= "\n";
-	} 
-	return p;
-}
-//-------------------------------------------------------------------------------
-template<> double Mat<1,1>::det();
-template<> double Mat<2,2>::det();
-template<> double Mat<3,3>::det();
-
-template<uint16 dimM, uint16 dimN>
-double Mat<dimM,dimN>::det()
-{
-	//разложение по строке i=0
-	assert(dimM == dimN);
-	double det = 0.0;
-	double koef = 1;
-	for (uint16 j=0; j < dimN; j++)
-	{
-		Mat<dimM-1,dimM-1> tmp;
-		det += koef*data[0][j]*cross_cut(0,j).det();
-		koef *= -1;
-	}
-	return det;
-}
-
-template<> Mat<1, 1> Mat<1,1>::inv(double det);
-template<> Mat<2, 2> Mat<2,2>::inv(double det);
-template<> Mat<3, 3> Mat<3,3>::inv(double det);
-
-template<uint16 dimM, uint16 dimN>
-Mat<dimM, dimN> Mat<dimM,dimN>::inv(double det)
-{
-	//через матрицу алг. дополнений
-	assert(dimM == dimN);
-	Mat<dimM,dimN> C;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			C[i][j] = npow(-1,i+j)*cross_cut(i,j).det();  //CHECK
-	C = C.transpose()*(1/det);
-	return C;
-}
-
-template<uint16 dimM, uint16 dimN>
-Mat<dimM-1,dimN-1> Mat<dimM,dimN>::cross_cut (uint16 cuti, uint16 cutj)
-{
-	Mat<dimM-1, dimN-1> tmp;
-	for (uint16 ii=0; ii < dimM-1; ii++)
-		for (uint16 jj=0; jj < dimN-1; jj++)
-			tmp[ii][jj] = data[(ii>=cuti)?ii+1:ii][(jj>=cutj)?jj+1:jj];
-	return tmp;
-}
-template<uint16 dimM, uint16 dimN>
-Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
-{
-	assert(dimM == 3 && dimN == 3); //TODO: пока только для матриц 3 на 3
-	double I1 = data[0][0] + data[1][1] + data[2][2];
-	double I2 = data[0][0]*data[1][1] + data[1][1]*data[2][2] + data[0][0]*data[2][2] - 
-		data[0][1]*data[0][1] - data[0][2]*data[0][2] - data[1][2]*data[1][2];
-	double I3 = data[0][0]*data[1][1]*data[2][2] + 2*data[0][1]*data[1][2]*data[0][2] - 
-		data[0][0]*data[1][2]*data[1][2]-data[1][1]*data[0][2]*data[0][2]-data[2][2]*data[0][1]*data[0][1];
-
-	double a = -I1;
-	double b = I2;
-	double c = -I3;
-	 // код из http://ru.wikipedia.org/wiki/%D0%A2%D1%80%D0%B8%D0%B3%D0%BE%D0%BD%D0%BE%D0%BC%D0%B5%D1%82%D1%80%D0%B8%D1%87%D0%B5%D1%81%D0%BA%D0%B0%D1%8F_%D1%84%D0%BE%D1%80%D0%BC%D1%83%D0%BB%D0%B0_%D0%92%D0%B8%D0%B5%D1%82%D0%B0
-	// для трех вещественных корней
-	// x*x*x + a * x * x + b * x  + c == 0
-	double p = b - a * a / 3;
-	double q = 2 * a * a * a / 27 - a * b / 3 + c;
-	double A = sqrt(- 4 * p / 3); 
- 
-	double c3phi = - 4 * q / (A * A * A);
- 
-	double phi = acos(c3phi) / 3;  
- 
-	double root1 = A * cos(phi) - a / 3;
-	double root2 = A * cos(phi + 2 * M_PI / 3) - a / 3;
-	double root3 = A * cos(phi - 2 * M_PI / 3) - a / 3;
-
-	//сортируем
-	double s1,s2,s3;
-	if (root1 > root2 && root1 > root3)
-	{
-		s1 = root1;
-		if (root2 > root3)
-		{
-			s2 = root2;
-			s3 = root3;
-		}
-		else
-		{
-			s2 = root3;
-			s3 = root2;
-		}
-	}
-	else if (root2 > root1 && root2 > root3)
-	{
-		s1 = root2;
-		if (root1 > root3)
-		{
-			s2 = root1;
-			s3 = root3;
-		}
-		else
-		{
-			s2 = root3;
-			s3 = root1;
-		}
-	}
-	else
-	{
-		s1 = root3;
-		if (root1 > root2)
-		{
-			s2 = root1;
-			s3 = root2;
-		}
-		else
-		{
-			s2 = root2;
-			s3 = root1;
-		}
-	}
-	return Vec<3>(s1,s2,s3);
-}
-
-template<uint16 dimM, uint16 dimN>
-double* Mat<dimM,dimN>::ptr ()
-{
-	return data[0].ptr();
-}
-
-
-template<uint16 dimM, uint16 dimN>
-bool Mat<dimM,dimN>::compare (const Mat<dimM,dimN> &B, double eps) {
-	double *Dp = (double*) data;
-	// double *Bp = B.ptr();
-    double *Bp = (double*) B.data;
-	for (uint16 i = 0; i < dimM; i++) {
-		for (uint16 j = 0; j < dimN; j++) {
-			if (fabs(*Dp-*Bp) > eps) {
-        LOG(INFO) << "Mat[" << i << "][" << j << "]: " << *Dp << " != " << *Bp;
-				return false;
-			}
-			Dp++;
-			Bp++;
-		}
-	}
-	return true;
-}
-
-
-template<uint16 dimM, uint16 dimN>
-void Mat<dimM,dimN>::simple_read (std::istream &st)
-{
-	double *Bp = (double*) data;
-	for (uint16 i=0;i<dimM;i++)
-	{
-		for (uint16 j=0;j<dimN;j++)
-		{
-			st >> *Bp;
-			Bp++;
-		}
-	}
-}
-
-
-class dMat;
-class dMat_interface
-{
-public:
-	dMat_interface ():ptr(NULL),M(0),N(0),row(0) 
-	{	}
-	double& operator[] (uint16 col)
-	{
-		assert(ptr);
-		assert (col < N);
-		assert (row < M);
-		return ptr[row*N + col];
-	}
-	friend class dMat;
-private:
-	uint16 M, N;
-	uint32 row;
-	double *ptr;
-};
-
-//dynamic matrix to pass arbitrary matrix to functions as arguments
-class dMat
-{
-public:
-	dMat(uint16 dim_m, uint16 dim_n) : dimM(0),dimN(0),data(NULL)
-	{
-		if (dim_m && dim_n)
-			resize(dim_m, dim_n);
-	}
-	dMat(uint16 dim_m, uint16 dim_n, double first, ...) : dimM(0),dimN(0),data(NULL) {
-    va_list argp;
-		if (dim_m && dim_n)
-		{
-			resize(dim_m, dim_n);
-			va_start(argp, first);
-			data[0] = first;
-			for (uint16 i=1; i < dimM*dimN; i++)
-				data[i]=va_arg(argp, double);
-			va_end(argp);
-		}
-	}
-	dMat(const dMat &from) : dimM(0),dimN(0),data(NULL)
-	{
-		operator=(from);
-	}
-	dMat_interface& operator[] (uint16 row) {
-        //TODO: it seems unsafe for parallel read access to dMat..
-		dmat_int.row = row;
-		return dmat_int;
-	}
-	void resize (uint16 dim_m, uint16 dim_n)
-	{
-		if (data) delete[] data;
-		data = new double[dim_m*dim_n];
-		dmat_int.ptr = data;
-		dmat_int.M = dim_m;
-		dmat_int.N = dim_n;
-		dimM = dim_m;
-		dimN = dim_n;
-		zero();
-	}
-
-	void fill (double first, ...) {
-		va_list argp;
-		va_start(argp, first);
-		data[0] = first;
-		for (uint16 i=1; i < dimM*dimN; i++)
-			data[i]=va_arg(argp, double);
-		va_end(argp);
-	}
-	~dMat()
-	{
-		if (data) delete[] data;
-		data = NULL;
-	}
-
-	void zero ()
-	{
-		memset(data,0,sizeof(double)*dimM*dimN);
-	}
-	template <uint16 M, uint16 N> Mat<M,N> toMat();
-	template <uint16 M> Vec<M> toVec(uint16 col=0);
-	template <uint16 M, uint16 N> void cpMat(Mat<M,N> &mat);
-	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
-	dMat& operator= (const dMat &from)
-	{
-		resize(from.dimM, from.dimN);
-		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
-		return *this;
-	}
-
-	uint16 dM ()
-	{
-		return dimM;
-	}
-	uint16 dN ()
-	{
-		return dimN;
-	}
-
-    double* ptr()
-    {
-        return data;
-    }
-
-	friend std::ostream& operator<< (std::ostream& stream, dMat &obj);
-private:
-	uint16 dimM;
-	uint16 dimN;
-	double *data;
-	dMat_interface dmat_int;
-};
-
-
-//копирует dMat в правый верхний угол Mat<M,N>
-template <uint16 M, uint16 N>
-Mat<M,N> dMat::toMat()
-{
-	assert(M >= dimM && N >= dimN); //Mat >= dMat
-	Mat<M,N> tmp;
-	for (uint16 i = 0; i < M; i++)
-		for (uint16 j = 0; j < N; j++)
-			tmp[i][j] = (*this)[i][j];
-	return tmp;
-}
-
-template <uint16 M> 
-Vec<M> dMat::toVec(uint16 col)
-{
-	assert(M >= dimM && dimN > col); //Vec >= dMat по M 
-	Vec<M> tmp;
-	for (uint16 i = 0; i < M; i++)
-		tmp[i] = (*this)[i][col];
-	return tmp;
-}
-
-template <uint16 M, uint16 N> 
-void dMat::cpMat(Mat<M,N> &mat)
-{
-	assert(dimM >= M && dimN >= N); //dMat >= Mat
-	for (uint16 i = 0; i < M; i++)
-		for (uint16 j = 0; j < N; j++)
-			(*this)[i][j] = mat[i][j];
-}
-
-//функция копирует вектор в столбец col матрицы dMat
-// col - от нуля
-template <uint16 M> 
-void dMat::cpVec(Vec<M> &vec, uint16 col)
-{
-	assert(dimM >= M && dimN > col);
-	for (uint16 i = 0; i < M; i++)
-		(*this)[i][col] = vec[i];
-}
-
-
-//-------------------------------------------------------------
-//	MatSym
-//-------------------------------------------------------------
-template<uint16 dimM>
-class MatSym {
-public:
-	MatSym () {
-		assert(dimM);
-	}
-	double* ptr() {
-		return data;
-	}
-
-	const double* ptr() const {
-		return data;
-	}
-
-	void zero() {
-		memset((void*) data, 0, sizeof(double)*getLength());
-	}
-	
-  // indexing from 0
-	double& comp (uint16 i, uint16 j) {
-		uint16 b;
-		if (i > j) {
-			b = j;
-			j = i;
-			i = b;
-		}
-		b = (2*dimM-(i-1))/2*i + (j-i);
-		b = dimM*i - (i-1)*i/2 + (j-i);
-		return data[b];
-	}
-	
-	uint16 getLength () {
-		return dimM*(dimM+1)/2;
-	}
-  Mat<dimM, dimM> toMat();
-	void simple_read (std::istream &st);
-	bool compare (MatSym<dimM> &B, double eps = 1.0e-5);
-	MatSym& operator+= (const MatSym &op);
-    uint16 dM() const {
-      return dimM;
-    }
-    uint16 dN() const {
-      return dimM;
-    }
-
-	double data[dimM*(dimM+1)/2];
-};
-
-template<uint16 dimM>
-void MatSym<dimM>::simple_read (std::istream &st)
-{
-	double *Bp = (double*) data;
-	uint16 l = getLength();
-	for (uint16 i=0;i<l;i++)
-	{
-			st >> *Bp;
-			Bp++;
-	}
-}
-
-template<uint16 dimM>
-bool MatSym<dimM>::compare (MatSym<dimM> &B, double eps)
-{
-	double *Dp = (double*) data;
-	double *Bp = B.ptr();
-	uint16 l = getLength();
-	for (uint16 i=0;i<l;i++)
-	{
-		if (fabs(*Dp-*Bp) > eps) {
-			return false;
-		}
-		Dp++;
-		Bp++;
-	}
-	return true;
-}
-
-template<uint16 dimM>
-Mat<dimM, dimM> MatSym<dimM>::toMat() {
-  uint16 ind = 0;
-  Mat<dimM,dimM> mat;
-  for (uint16 i = 0; i < dimM; i++) {
-    for (uint16 j = i; j < dimM; j++) {
-      mat[i][j] = data[ind];
-      mat[j][i] = data[ind];
-      ind++;
-    }
-  }
-  return mat;
-}
-
-
-template<uint16 dimM>
-MatSym<dimM>& MatSym<dimM>::operator+= (const MatSym<dimM> &op) {
-  double* thisp = this->ptr();
-  const double* opp = op.ptr();
-  for (uint16 i = 0; i < getLength(); i++) {
-    *thisp += *opp;
-    thisp++;
-    opp++;
-  }
-
-	return *this;
-}
-
-// [R] = coef * [B]^T*[D]*[B]
-// coef - double scalar
-// [B] - common matrix (dimM x dimN)
-// [D] - symmetric matrix (dimM x dimM)
-// [R] - symmetrix matrix (dimN x dimN)
-template<uint16 dimM,uint16 dimN>
-void matBTDBprod (Mat<dimM,dimN> &B, MatSym<dimM> &D, double coef, MatSym<dimN> &R) 
-{
-	Mat<dimN,dimM> A;
-	A.zero();
-	double *Ap = A.ptr();
-	double *Bp = B.ptr();
-	double *Dp = D.ptr();
-	double *Rp = R.ptr();
-	uint16 i,j,k;
-
-	//A = BT*D
-		// BT*Du + BT*Dd
-	for (k=0;k<dimM;k++)
-	{
-		j = k; // include diag elem
-		while (j < dimM)
-		{
-			for (i=0;i<dimN;i++)
-			{
-				Ap[i*dimM+j] += Bp[k*dimN+i]*(*Dp);
-			}
-			Dp++;
-			j++;
-		}
-	}
-		// BT*DuT
-		Dp = D.ptr();
-	for (j=0;j<dimM;j++)
-	{
-		k = j + 1; Dp++; //leave the diagonal
-		while (k < dimM)
-		{
-			for (i=0;i<dimN;i++)
-			{
-				Ap[i*dimM+j] += Bp[k*dimN+i]*(*Dp);
-			}
-			Dp++;
-			k++;
-		}
-	}
-
-	//R = A*B
-	for (i=0;i<dimN;i++)
-	{
-		for (j=i;j<dimN;j++)
-		{
-			for (k=0;k<dimM;k++)
-			{
-				*Rp += Ap[i*dimM+k]*Bp[k*dimN+j]*coef;
-			}
-			Rp++;
-		}
-	}
-
-}
-
-
-template<uint16 dimM,uint16 dimN>
-void matBTVprod(Mat<dimM,dimN> &B, Vec<dimM> &V, double coef, Vec<dimN> &R)
-{
-#ifndef NLA3D_USE_BLAS
-	double *Bp = B.ptr();
-	uint16 i,j;
-	for (i=0;i<dimN;i++)
-		for (j=0;j<dimM;j++)
-			R[i] += Bp[j*dimN+i]*V[j]*coef;
-#else
-  cblas_dgemv(CblasRowMajor, CblasTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
-#endif
-}
-
-template<uint16 dimM,uint16 dimN>
-void matBVprod(Mat<dimM,dimN> &B,Vec<dimN> &V, double coef, Vec<dimM> &R) {
-#ifndef NLA3D_USE_BLAS
-	double *Bp = B.ptr();
-	uint16 i,j;
-	for (i=0;i<dimM;i++)
-		for (j=0;j<dimN;j++)
-			R[i] += Bp[i*dimN+j]*V[j]*coef;
-#else
-  cblas_dgemv(CblasRowMajor, CblasNoTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
-#endif
-}
-
-template<uint16 dimM>
-void matBVprod(MatSym<dimM> &B,Vec<dimM> &V, double coef, Vec<dimM> &R) {
-  // TODO: this this inefficient version
-  // convert to regular matrix
-  Mat<dimM, dimM> mB = B.toMat();
-	double *Bp = mB.ptr();
-	uint16 i,j;
-	for (i=0;i<dimM;i++)
-		for (j=0;j<dimM;j++)
-			R[i] += Bp[i*dimM+j]*V[j]*coef;
-}
-
-
-template<uint16 dimM1,uint16 dimN1,uint16 dimN2>
-void matABprod(Mat<dimM1,dimN1> &A, Mat<dimN1,dimN2> &B, const double coef, Mat<dimM1,dimN2> &R) {
-#ifndef NLA3D_USE_BLAS
-	uint16 i,j,k;
-	double *Rp = R.ptr();
-	double *Ap = A.ptr();
-	double *Bp = B.ptr();
-	for (i=0;i<dimM1;i++) {
-		for (j=0;j<dimN2;j++) {
-			for (k=0;k<dimN1;k++)
-				*Rp += Ap[i*dimN1+k]*Bp[k*dimN2+j]*coef;
-			Rp++;
-		}
-	}
-#else
-  cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, dimM1, dimN2, dimN1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
-#endif
-}
-
-template<uint16 dimM1,uint16 dimN1,uint16 dimN2>
-void matATBprod(Mat<dimM1,dimN1> &A, Mat<dimM1,dimN2> &B, const double coef, Mat<dimN1,dimN2> &R)  {
-#ifndef NLA3D_USE_BLAS
-	uint16 i,j,k;
-	double *Rp = R.ptr();
-	double *Ap = A.ptr();
-	double *Bp = B.ptr();
-	for (i=0;i<dimN1;i++)
-	{
-		for (j=0;j<dimN2;j++)
-		{
-			for (k=0;k<dimM1;k++)
-				*Rp += Ap[k*dimN1+i]*Bp[k*dimN2+j]*coef;
-			Rp++;
-		}
-	}
-#else
-  cblas_dgemm(CblasRowMajor, CblasTrans, CblasNoTrans, dimN1, dimN2, dimM1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
-#endif
-}
-
-} // namespace math
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include <iostream>
+#include "math/Vec.h"
+
+#ifdef NLA3D_USE_BLAS
+  #include <mkl.h>
+#endif
+
+namespace nla3d {
+namespace math {
+
+template<uint16 dimM, uint16 dimN>
+class Mat
+{
+public:
+	Mat() {
+		assert(dimM && dimN);
+	}
+	Mat(double first, ...) {
+		assert(dimM && dimN);
+		va_list argp;
+		va_start(argp, first);
+		for (uint16 i=0; i < dimM; i++)
+			for (uint16 j=0; j < dimN; j++)
+			{
+				if (i == 0 && j == 0) data[i][j]=first;
+				else data[i][j]=va_arg(argp, double);
+			}
+		va_end(argp);
+	}
+	~Mat() { }
+
+	Vec<dimN>& operator[] (uint16 n);
+	const Vec<dimN>& operator[] (uint16 n) const;
+	Mat<dimN,dimM> transpose ();
+	void display ();
+	Mat operator+ (const Mat &op);
+	Mat& operator+= (const Mat &op);
+	Mat operator- () const;
+	Mat& operator= (const Mat &op);
+	Mat<dimM,1>& operator= (const Vec<dimM> &op); //TODO: CHECK this operation
+	Mat operator- (const Mat &op) const;
+	Mat operator* (const double op);
+	void Identity ();
+	void zero ();
+	double det();
+	Vec<dimM> eigenvalues();
+	Mat<dimM,dimN> inv(double det);
+	Mat<dimM-1,dimN-1> cross_cut (uint16 cuti, uint16 cutj);
+    std::string toString ();
+	double* ptr ();
+	bool compare (const Mat<dimM,dimN> &B, double eps = 1.0e-5);
+	void simple_read (std::istream &st);
+	//friend функции
+	template <uint16 dimM1, uint16 dimN1> 
+	friend std::ostream& operator<< (std::ostream& stream, const Mat<dimM1,dimN1> &obj);
+	template <uint16 dimM1, uint16 dimN1, uint16 dimM2, uint16 dimN2> 
+    friend Mat<dimM1,dimN2> operator* (const Mat<dimM1,dimN1> &op1, const Mat<dimM2,dimN2> &op2);
+	template <uint16 dimM1, uint16 dimN1, uint16 dimM2> 
+    friend Vec<dimM1> operator* (const Mat<dimM1,dimN1> &op1, const Vec<dimM2> &op2);
+    // template<uint16 dimM1, uint16 dimN1>
+    // friend bool matCompare (const Mat<dimM1, dimN>& mat1, const Mat<dimM1, dimN1>& mat2, const double eps);
+
+    uint16 dM() const {
+      return dimM;
+    }
+
+    uint16 dN() const {
+      return dimN;
+    }
+
+	Vec<dimN> data[dimM];
+private:
+    //data was moved from here to public
+};
+
+//---------operator<<----------------------------------------------------------
+template<uint16 dimM, uint16 dimN> std::ostream &operator<<(std::ostream &stream, const Mat<dimM,dimN> &obj) {
+	for (uint16 i = 0; i < dimM; i++) {
+		stream << "[" << obj.data[i] << "]" << std::endl;
+	}
+	return stream;
+}
+
+//----------operator[]---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+inline Vec<dimN>& Mat<dimM,dimN>::operator[] (uint16 n) {
+		assert(n < dimM);
+		return data[n];
+}
+template<uint16 dimM, uint16 dimN>
+inline const Vec<dimN>& Mat<dimM,dimN>::operator[] (uint16 n) const {
+	assert(n < dimM);
+	return data[n];
+}
+//----------Identity ()---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+void Mat<dimM,dimN>::Identity () {
+	assert (dimM==dimN);
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			if (i==j)
+				data[i][j]=1.0f;
+			else
+				data[i][j]=0.0f;
+}
+//----------zero()---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+void Mat<dimM,dimN>::zero() {
+	memset(data,0,sizeof(double)*dimM*dimN);
+}
+//-------------display()------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+void Mat<dimM,dimN>::display() {
+	for (unsigned int i = 0; i < dimM; i++) {
+		std::cout << "[";
+		data[i].display();
+		std::cout << "]" << std::endl;
+	} 
+}
+//----------transpose()-------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimN,dimM> Mat<dimM,dimN>::transpose () {
+	Mat<dimN,dimM> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[j][i]=this->data[i][j];
+	return p;
+}
+//----------operator+(Mat)---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN> Mat<dimM,dimN>::operator+ (const Mat<dimM,dimN> &op) {
+	Mat<dimM,dimN> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[i][j]=this->data[i][j]+op.data[i][j];
+	return p;
+}
+//----------operator-()---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN> Mat<dimM,dimN>::operator- () const {
+	Mat<dimM,dimN> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[i][j] = -this->data[i][j];
+	return p;
+}
+//----------operator-(Mat)---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN> Mat<dimM,dimN>::operator- (const Mat<dimM,dimN> &op) const {
+	Mat<dimM,dimN> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[i][j]=this->data[i][j]-op.data[i][j];
+	return p;
+}
+//-----------operator*(double)----------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN> Mat<dimM,dimN>::operator*(const double op)
+{
+	Mat<dimM,dimN> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[i][j]=this->data[i][j]*op;
+	return p;
+}
+//----------operator+=---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN>& Mat<dimM,dimN>::operator+= (const Mat<dimM,dimN> &op) {
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			this->data[i][j]+=op.data[i][j];
+	return *this;
+}
+//----------operator=(Mat)---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN>& Mat<dimM,dimN>::operator= (const Mat<dimM,dimN> &op)
+{
+	for (uint16 i = 0; i < dimM; i++)
+		this->data[i]=op.data[i];
+	return *this;
+}
+//----------operator=(Vec)---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,1>& Mat<dimM,dimN>::operator= (const Vec<dimM> &op)
+{
+	assert(dimN == 1); //только для матрицы-столбца
+	for (uint16 i = 0; i < dimM; i++)
+		this->data[i][0] = op[i];
+	return *this;
+}
+//----------operator*(Mat)---------------------------------------------------------
+template<uint16 dimM1, uint16 dimN1, uint16 dimM2, uint16 dimN2> Mat<dimM1,dimN2> operator*(const Mat<dimM1,dimN1> &op1, const Mat<dimM2,dimN2> &op2) {
+	assert(dimN1 == dimM2);
+	Mat<dimM1, dimN2> p;
+	double element;
+	double *ptr1 = (double*) op1.data;
+	double *ptr2 = (double*) op2.data;
+	for (uint16 i=0; i < dimM1; i++)
+		for (uint16 j=0; j < dimN2; j++)
+		{
+			element=0.0f;
+			for (uint16 l=0; l < dimN1; l++) element+=ptr1[i*dimN1+l]*ptr2[l*dimN2+j];
+				//(op1.data[i])[l]*(op2.data[l])[j];
+			p[i][j]=element;
+		}
+	return p;
+
+
+	//assert(dimN == dimM2);
+	//Mat<dimM, dimN2> p;
+	//double element;
+	//for (uint16 i=0; i < dimM; i++)
+	//	for (uint16 j=0; j < dimN2; j++)
+	//	{
+	//		element=0.0f;
+	//		for (uint16 l=0; l < dimN; l++) element+=(op1.data[i])[l]*(op2.data[l])[j];
+	//		p[i][j]=element;
+	//	}
+	//return p;
+}
+//-----------operator*(Vec)---------------------------------------------------------
+template <uint16 dimM1, uint16 dimN1, uint16 dimM2> Vec<dimM1> operator* (const Mat<dimM1,dimN1> &op1, const Vec<dimM2> &op2) {
+	assert(dimN1==dimM2);
+	Vec<dimM1> p;
+	double el;
+	for (uint16 i=0; i < dimM1; i++)
+	{
+		el = 0.0f;
+		for (uint16 j=0; j < dimN1; j++)
+			el += op1.data[i][j]*op2[j];
+		p[i] = el;
+	}
+	return p;
+}
+//--------------------------------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+std::string Mat<dimM,dimN>::toString()
+{
+    std::string p;
+	for (unsigned int i = 0; i < dimM; i++) {
+		p+= "[";
+		p+=data[i].toString();
+		p+= "]";
+		if (i!=dimM-1) p+= "\n";
+	} 
+	return p;
+}
+//-------------------------------------------------------------------------------
+template<> double Mat<1,1>::det();
+template<> double Mat<2,2>::det();
+template<> double Mat<3,3>::det();
+
+template<uint16 dimM, uint16 dimN>
+double Mat<dimM,dimN>::det()
+{
+	//разложение по строке i=0
+	assert(dimM == dimN);
+	double det = 0.0;
+	double koef = 1;
+	for (uint16 j=0; j < dimN; j++)
+	{
+		Mat<dimM-1,dimM-1> tmp;
+		det += koef*data[0][j]*cross_cut(0,j).det();
+		koef *= -1;
+	}
+	return det;
+}
+
+template<> Mat<1, 1> Mat<1,1>::inv(double det);
+template<> Mat<2, 2> Mat<2,2>::inv(double det);
+template<> Mat<3, 3> Mat<3,3>::inv(double det);
+
+template<uint16 dimM, uint16 dimN>
+Mat<dimM, dimN> Mat<dimM,dimN>::inv(double det)
+{
+	//через матрицу алг. дополнений
+	assert(dimM == dimN);
+	Mat<dimM,dimN> C;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			C[i][j] = npow(-1,i+j)*cross_cut(i,j).det();  //CHECK
+	C = C.transpose()*(1/det);
+	return C;
+}
+
+template<uint16 dimM, uint16 dimN>
+Mat<dimM-1,dimN-1> Mat<dimM,dimN>::cross_cut (uint16 cuti, uint16 cutj)
+{
+	Mat<dimM-1, dimN-1> tmp;
+	for (uint16 ii=0; ii < dimM-1; ii++)
+		for (uint16 jj=0; jj < dimN-1; jj++)
+			tmp[ii][jj] = data[(ii>=cuti)?ii+1:ii][(jj>=cutj)?jj+1:jj];
+	return tmp;
+}
+template<uint16 dimM, uint16 dimN>
+Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
+{
+	assert(dimM == 3 && dimN == 3); //TODO: пока только для матриц 3 на 3
+	double I1 = data[0][0] + data[1][1] + data[2][2];
+	double I2 = data[0][0]*data[1][1] + data[1][1]*data[2][2] + data[0][0]*data[2][2] - 
+		data[0][1]*data[0][1] - data[0][2]*data[0][2] - data[1][2]*data[1][2];
+	double I3 = data[0][0]*data[1][1]*data[2][2] + 2*data[0][1]*data[1][2]*data[0][2] - 
+		data[0][0]*data[1][2]*data[1][2]-data[1][1]*data[0][2]*data[0][2]-data[2][2]*data[0][1]*data[0][1];
+
+	double a = -I1;
+	double b = I2;
+	double c = -I3;
+	 // код из http://ru.wikipedia.org/wiki/%D0%A2%D1%80%D0%B8%D0%B3%D0%BE%D0%BD%D0%BE%D0%BC%D0%B5%D1%82%D1%80%D0%B8%D1%87%D0%B5%D1%81%D0%BA%D0%B0%D1%8F_%D1%84%D0%BE%D1%80%D0%BC%D1%83%D0%BB%D0%B0_%D0%92%D0%B8%D0%B5%D1%82%D0%B0
+	// для трех вещественных корней
+	// x*x*x + a * x * x + b * x  + c == 0
+	double p = b - a * a / 3;
+	double q = 2 * a * a * a / 27 - a * b / 3 + c;
+	double A = sqrt(fmax(- 4 * p / 3, 0.0)); 
+	double A3 = A * A * A;
+ 
+	// A == 0 if all eigenvalues are equal
+	double c3phi = (A3 > 0.0) ? - 4 * q / A3 : 1.0;
+	// for equal eigenvalues rounding errors can lead c3phi out of [-1, 1]
+	c3phi = fmin(fmax(c3phi, -1.0), 1.0);
+ 
+	double phi = acos(c3phi) / 3;  
+ 
+	double root1 = A * cos(phi) - a / 3;
+	double root2 = A * cos(phi + 2 * M_PI / 3) - a / 3;
+	double root3 = A * cos(phi - 2 * M_PI / 3) - a / 3;
+
+	//сортируем
+	double s1,s2,s3;
+	if (root1 > root2 && root1 > root3)
+	{
+		s1 = root1;
+		if (root2 > root3)
+		{
+			s2 = root2;
+			s3 = root3;
+		}
+		else
+		{
+			s2 = root3;
+			s3 = root2;
+		}
+	}
+	else if (root2 > root1 && root2 > root3)
+	{
+		s1 = root2;
+		if (root1 > root3)
+		{
+			s2 = root1;
+			s3 = root3;
+		}
+		else
+		{
+			s2 = root3;
+			s3 = root1;
+		}
+	}
+	else
+	{
+		s1 = root3;
+		if (root1 > root2)
+		{
+			s2 = root1;
+			s3 = root2;
+		}
+		else
+		{
+			s2 = root2;
+			s3 = root1;
+		}
+	}
+	return Vec<3>(s1,s2,s3);
+}
+
+template<uint16 dimM, uint16 dimN>
+double* Mat<dimM,dimN>::ptr ()
+{
+	return data[0].ptr();
+}
+
+
+template<uint16 dimM, uint16 dimN>
+bool Mat<dimM,dimN>::compare (const Mat<dimM,dimN> &B, double eps) {
+	double *Dp = (double*) data;
+	// double *Bp = B.ptr();
+    double *Bp = (double*) B.data;
+	for (uint16 i = 0; i < dimM; i++) {
+		for (uint16 j = 0; j < dimN; j++) {
+			if (fabs(*Dp-*Bp) > eps) {
+        LOG(INFO) << "Mat[" << i << "][" << j << "]: " << *Dp << " != " << *Bp;
+				return false;
+			}
+			Dp++;
+			Bp++;
+		}
+	}
+	return true;
+}
+
+
+template<uint16 dimM, uint16 dimN>
+void Mat<dimM,dimN>::simple_read (std::istream &st)
+{
+	double *Bp = (double*) data;
+	for (uint16 i=0;i<dimM;i++)
+	{
+		for (uint16 j=0;j<dimN;j++)
+		{
+			st >> *Bp;
+			Bp++;
+		}
+	}
+}
+
+
+class dMat;
+class dMat_interface
+{
+public:
+	dMat_interface ():ptr(NULL),M(0),N(0),row(0) 
+	{	}
+	double& operator[] (uint16 col)
+	{
+		assert(ptr);
+		assert (col < N);
+		assert (row < M);
+		return ptr[row*N + col];
+	}
+	friend class dMat;
+private:
+	uint16 M, N;
+	uint32 row;
+	double *ptr;
+};
+
+//dynamic matrix to pass arbitrary matrix to functions as arguments
+class dMat
+{
+public:
+	dMat(uint16 dim_m, uint16 dim_n) : dimM(0),dimN(0),data(NULL)
+	{
+		if (dim_m && dim_n)
+			resize(dim_m, dim_n);
+	}
+	dMat(uint16 dim_m, uint16 dim_n, double first, ...) : dimM(0),dimN(0),data(NULL) {
+    va_list argp;
+		if (dim_m && dim_n)
+		{
+			resize(dim_m, dim_n);
+			va_start(argp, first);
+			data[0] = first;
+			for (uint16 i=1; i < dimM*dimN; i++)
+				data[i]=va_arg(argp, double);
+			va_end(argp);
+		}
+	}
+	dMat(const dMat &from) : dimM(0),dimN(0),data(NULL)
+	{
+		operator=(from);
+	}
+	dMat_interface& operator[] (uint16 row) {
+        //TODO: it seems unsafe for parallel read access to dMat..
+		dmat_int.row = row;
+		return dmat_int;
+	}
+	void resize (uint16 dim_m, uint16 dim_n)
+	{
+		if (data) delete[] data;
+		data = new double[dim_m*dim_n];
+		dmat_int.ptr = data;
+		dmat_int.M = dim_m;
+		dmat_int.N = dim_n;
+		dimM = dim_m;
+		dimN = dim_n;
+		zero();
+	}
+
+	void fill (double first, ...) {
+		va_list argp;
+		va_start(argp, first);
+		data[0] = first;
+		for (uint16 i=1; i < dimM*dimN; i++)
+			data[i]=va_arg(argp, double);
+		va_end(argp);
+	}
+	~dMat()
+	{
+		if (data) delete[] data;
+		data = NULL;
+	}
+
+	void zero ()
+	{
+		memset(data,0,sizeof(double)*dimM*dimN);
+	}
+	template <uint16 M, uint16 N> Mat<M,N> toMat();
+	template <uint16 M> Vec<M> toVec(uint16 col=0);
+	template <uint16 M, uint16 N> void cpMat(Mat<M,N> &mat);
+	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
+	dMat& operator= (const dMat &from)
+	{
+		resize(from.dimM, from.dimN);
+		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
+		return *this;
+	}
+
+	uint16 dM ()
+	{
+		return dimM;
+	}
+	uint16 dN ()
+	{
+		return dimN;
+	}
+
+    double* ptr()
+    {
+        return data;
+    }
+
+	friend std::ostream& operator<< (std::ostream& stream, dMat &obj);
+private:
+	uint16 dimM;
+	uint16 dimN;
+	double *data;
+	dMat_interface dmat_int;
+};
+
+
+//копирует dMat в правый верхний угол Mat<M,N>
+template <uint16 M, uint16 N>
+Mat<M,N> dMat::toMat()
+{
+	assert(M >= dimM && N >= dimN); //Mat >= dMat
+	Mat<M,N> tmp;
+	for (uint16 i = 0; i < M; i++)
+		for (uint16 j = 0; j < N; j++)
+			tmp[i][j] = (*this)[i][j];
+	return tmp;
+}
+
+template <uint16 M> 
+Vec<M> dMat::toVec(uint16 col)
+{
+	assert(M >= dimM && dimN > col); //Vec >= dMat по M 
+	Vec<M> tmp;
+	for (uint16 i = 0; i < M; i++)
+		tmp[i] = (*this)[i][col];
+	return tmp;
+}
+
+template <uint16 M, uint16 N> 
+void dMat::cpMat(Mat<M,N> &mat)
+{
+	assert(dimM >= M && dimN >= N); //dMat >= Mat
+	for (uint16 i = 0; i < M; i++)
+		for (uint16 j = 0; j < N; j++)
+			(*this)[i][j] = mat[i][j];
+}
+
+//функция копирует вектор в столбец col матрицы dMat
+// col - от нуля
+template <uint16 M> 
+void dMat::cpVec(Vec<M> &vec, uint16 col)
+{
+	assert(dimM >= M && dimN > col);
+	for (uint16 i = 0; i < M; i++)
+		(*this)[i][col] = vec[i];
+}
+
+
+//-------------------------------------------------------------
+//	MatSym
+//-------------------------------------------------------------
+template<uint16 dimM>
+class MatSym {
+public:
+	MatSym () {
+		assert(dimM);
+	}
+	double* ptr() {
+		return data;
+	}
+
+	const double* ptr() const {
+		return data;
+	}
+
+	void zero() {
+		memset((void*) data, 0, sizeof(double)*getLength());
+	}
+	
+  // indexing from 0
+	double& comp (uint16 i, uint16 j) {
+		uint16 b;
+		if (i > j) {
+			b = j;
+			j = i;
+			i = b;
+		}
+		b = (2*dimM-(i-1))/2*i + (j-i);
+		b = dimM*i - (i-1)*i/2 + (j-i);
+		return data[b];
+	}
+	
+	uint16 getLength () {
+		return dimM*(dimM+1)/2;
+	}
+  Mat<dimM, dimM> toMat();
+	void simple_read (std::istream &st);
+	bool compare (MatSym<dimM> &B, double eps = 1.0e-5);
+	MatSym& operator+= (const MatSym &op);
+    uint16 dM() const {
+      return dimM;
+    }
+    uint16 dN() const {
+      return dimM;
+    }
+
+	double data[dimM*(dimM+1)/2];
+};
+
+template<uint16 dimM>
+void MatSym<dimM>::simple_read (std::istream &st)
+{
+	double *Bp = (double*) data;
+	uint16 l = getLength();
+	for (uint16 i=0;i<l;i++)
+	{
+			st >> *Bp;
+			Bp++;
+	}
+}
+
+template<uint16 dimM>
+bool MatSym<dimM>::compare (MatSym<dimM> &B, double eps)
+{
+	double *Dp = (double*) data;
+	double *Bp = B.ptr();
+	uint16 l = getLength();
+	for (uint16 i=0;i<l;i++)
+	{
+		if (fabs(*Dp-*Bp) > eps) {
+			return false;
+		}
+		Dp++;
+		Bp++;
+	}
+	return true;
+}
+
+template<uint16 dimM>
+Mat<dimM, dimM> MatSym<dimM>::toMat() {
+  uint16 ind = 0;
+  Mat<dimM,dimM> mat;
+  for (uint16 i = 0; i < dimM; i++) {
+    for (uint16 j = i; j < dimM; j++) {
+      mat[i][j] = data[ind];
+      mat[j][i] = data[ind];
+      ind++;
+    }
+  }
+  return mat;
+}
+
+
+template<uint16 dimM>
+MatSym<dimM>& MatSym<dimM>::operator+= (const MatSym<dimM> &op) {
+  double* thisp = this->ptr();
+  const double* opp = op.ptr();
+  for (uint16 i = 0; i < getLength(); i++) {
+    *thisp += *opp;
+    thisp++;
+    opp++;
+  }
+
+	return *this;
+}
+
+// [R] = coef * [B]^T*[D]*[B]
+// coef - double scalar
+// [B] - common matrix (dimM x dimN)
+// [D] - symmetric matrix (dimM x dimM)
+// [R] - symmetrix matrix (dimN x dimN)
+template<uint16 dimM,uint16 dimN>
+void matBTDBprod (Mat<dimM,dimN> &B, MatSym<dimM> &D, double coef, MatSym<dimN> &R) 
+{
+	Mat<dimN,dimM> A;
+	A.zero();
+	double *Ap = A.ptr();
+	double *Bp = B.ptr();
+	double *Dp = D.ptr();
+	double *Rp = R.ptr();
+	uint16 i,j,k;
+
+	//A = BT*D
+		// BT*Du + BT*Dd
+	for (k=0;k<dimM;k++)
+	{
+		j = k; // include diag elem
+		while (j < dimM)
+		{
+			for (i=0;i<dimN;i++)
+			{
+				Ap[i*dimM+j] += Bp[k*dimN+i]*(*Dp);
+			}
+			Dp++;
+			j++;
+		}
+	}
+		// BT*DuT
+		Dp = D.ptr();
+	for (j=0;j<dimM;j++)
+	{
+		k = j + 1; Dp++; //leave the diagonal
+		while (k < dimM)
+		{
+			for (i=0;i<dimN;i++)
+			{
+				Ap[i*dimM+j] += Bp[k*dimN+i]*(*Dp);
+			}
+			Dp++;
+			k++;
+		}
+	}
+
+	//R = A*B
+	for (i=0;i<dimN;i++)
+	{
+		for (j=i;j<dimN;j++)
+		{
+			for (k=0;k<dimM;k++)
+			{
+				*Rp += Ap[i*dimM+k]*Bp[k*dimN+j]*coef;
+			}
+			Rp++;
+		}
+	}
+
+}
+
+
+template<uint16 dimM,uint16 dimN>
+void matBTVprod(Mat<dimM,dimN> &B, Vec<dimM> &V, double coef, Vec<dimN> &R)
+{
+#ifndef NLA3D_USE_BLAS
+	double *Bp = B.ptr();
+	uint16 i,j;
+	for (i=0;i<dimN;i++)
+		for (j=0;j<dimM;j++)
+			R[i] += Bp[j*dimN+i]*V[j]*coef;
+#else
+  cblas_dgemv(CblasRowMajor, CblasTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
+#endif
+}
+
+template<uint16 dimM,uint16 dimN>
+void matBVprod(Mat<dimM,dimN> &B,Vec<dimN> &V, double coef, Vec<dimM> &R) {
+#ifndef NLA3D_USE_BLAS
+	double *Bp = B.ptr();
+	uint16 i,j;
+	for (i=0;i<dimM;i++)
+		for (j=0;j<dimN;j++)
+			R[i] += Bp[i*dimN+j]*V[j]*coef;
+#else
+  cblas_dgemv(CblasRowMajor, CblasNoTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
+#endif
+}
+
+template<uint16 dimM>
+void matBVprod(MatSym<dimM> &B,Vec<dimM> &V, double coef, Vec<dimM> &R) {
+  // TODO: this this inefficient version
+  // convert to regular matrix
+  Mat<dimM, dimM> mB = B.toMat();
+	double *Bp = mB.ptr();
+	uint16 i,j;
+	for (i=0;i<dimM;i++)
+		for (j=0;j<dimM;j++)
+			R[i] += Bp[i*dimM+j]*V[j]*coef;
+}
+
+
+template<uint16 dimM1,uint16 dimN1,uint16 dimN2>
+void matABprod(Mat<dimM1,dimN1> &A, Mat<dimN1,dimN2> &B, const double coef, Mat<dimM1,dimN2> &R) {
+#ifndef NLA3D_USE_BLAS
+	uint16 i,j,k;
+	double *Rp = R.ptr();
+	double *Ap = A.ptr();
+	double *Bp = B.ptr();
+	for (i=0;i<dimM1;i++) {
+		for (j=0;j<dimN2;j++) {
+			for (k=0;k<dimN1;k++)
+				*Rp += Ap[i*dimN1+k]*Bp[k*dimN2+j]*coef;
+			Rp++;
+		}
+	}
+#else
+  cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, dimM1, dimN2, dimN1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
+#endif
+}
+
+template<uint16 dimM1,uint16 dimN1,uint16 dimN2>
+void matATBprod(Mat<dimM1,dimN1> &A, Mat<dimM1,dimN2> &B, const double coef, Mat<dimN1,dimN2> &R)  {
+#ifndef NLA3D_USE_BLAS
+	uint16 i,j,k;
+	double *Rp = R.ptr();
+	double *Ap = A.ptr();
+	double *Bp = B.ptr();
+	for (i=0;i<dimN1;i++)
+	{
+		for (j=0;j<dimN2;j++)
+		{
+			for (k=0;k<dimM1;k++)
+				*Rp += Ap[k*dimN1+i]*Bp[k*dimN2+j]*coef;
+			Rp++;
+		}
+	}
+#else
+  cblas_dgemm(CblasRowMajor, CblasTrans, CblasNoTrans, dimN1, dimN2, dimM1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
+#endif
+}
+
+} // namespace math
+} // namespace nla3d
-- 
2.43.0


From 589413d0d48ab52ad487dba9fdbc1262aa022a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 10/66] fix: assignment of a dMat to itself keeps its values

---
 src/lib/math/Mat.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index c9c1d15..6d787a3 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -504,6 +504,8 @@ public:
 	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
 	dMat& operator= (const dMat &from)
 	{
+		if (this == &from)
+			return *this;
 		resize(from.dimM, from.dimN);
 		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
 		return *this;
-- 
2.43.0


From 775a127ef57d3406f129bd0eda4214eebe878aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 11/66] fix: dMat can be converted to a bigger Mat or Vec

---
 src/lib/math/Mat.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 6d787a3..e874032 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -540,8 +540,9 @@ Mat<M,N> dMat::toMat()
 {
 	assert(M >= dimM && N >= dimN); //Mat >= dMat
 	Mat<M,N> tmp;
-	for (uint16 i = 0; i < M; i++)
-		for (uint16 j = 0; j < N; j++)
+	tmp.zero();
+	for (uint16 i = 0; i < dimM; i++)
+		for (uint16 j = 0; j < dimN; j++)
 			tmp[i][j] = (*this)[i][j];
 	return tmp;
 }
@@ -551,7 +552,7 @@ Vec<M> dMat::toVec(uint16 col)
 {
 	assert(M >= dimM && dimN > col); //Vec >= dMat по M 
 	Vec<M> tmp;
-	for (uint16 i = 0; i < M; i++)
+	for (uint16 i = 0; i < dimM; i++)
 		tmp[i] = (*this)[i][col];
 	return tmp;
 }
-- 
2.43.0


From f97313d45c78accbc3a8a081f9d0782bbed2a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 12/66] fix: dMat is printed to the given stream

---
 src/lib/math/Mat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Mat.cpp b/src/lib/math/Mat.cpp
index fdefd4d..031561f 100755
--- a/src/lib/math/Mat.cpp
+++ b/src/lib/math/Mat.cpp
@@ -50,10 +50,10 @@ Mat<3,3> Mat<3,3>::inv(double det) {
 std::ostream &operator<<(std::ostream &stream, dMat &obj) {
 	for (uint16 i = 0; i < obj.dimM; i++)
 	{
-		std::cout << "[";
+		stream << "[";
 		for (uint16 j = 0; j < obj.dimN; j++)
-			std::cout << obj[i][j] << " ";
-		std::cout << "]" << std::endl;
+			stream << obj[i][j] << " ";
+		stream << "]" << std::endl;
 	}
 	return stream;
 }
-- 
2.43.0


From 207cead7c42d65d9741e0c053e0899f3ba74bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:05 +0000
Subject: [PATCH 13/66] fix: plane stress elasticity matrix of TRIANGLE4

---
 src/lib/elements/TRIANGLE4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 41e2d7a..3792365 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -111,7 +111,7 @@ void ElementTRIANGLE4::makeC (math::MatSym<3> &C) {
     }
     //Plane stress state
     if (state == PlaneState::Stress){
-      const double A = E*(1.-my*my);
+      const double A = E/(1.-my*my);
       C.comp(0,0) = 1.*A;
       C.comp(0,1) = my*A; 
       C.comp(1,1) = 1.*A;
-- 
2.43.0


From 1647600c4a44e9a36bfa4070180ed78ba3bc0206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:05 +0000
Subject: [PATCH 14/66] fix: TRIANGLE4 stress and strains are those of the last
 update

---
 src/lib/elements/TRIANGLE4.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 3792365..03f0685 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -67,7 +67,9 @@ void ElementTRIANGLE4::update () {
     U[i*2 + 0] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UX);
     U[i*2 + 1] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UY);
   }
-  // restore strains
+  // restore strains (matBVprod adds to the vector)
+  strains.zero();
+  stress.zero();
   math::matBVprod(matB, U, 1.0, strains);
   // restore stresses
   math::matBVprod(matC, strains, 1.0, stress);
-- 
2.43.0


From e8c9a78d031417e2eb3f80f870f58ccb90d0e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:05 +0000
Subject: [PATCH 15/66] fix: sign of TETRA1 conductivity matrix

---
 src/lib/elements/TETRA1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 3465078..4f99260 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -131,9 +131,9 @@ void ElementTETRA1::makeB(math::Mat<3,4> &B)
 }
 
 void ElementTETRA1::makeC (math::MatSym<3> &C) {
-  C.comp(0,0) = -k;
-  C.comp(1,1) = -k;
-  C.comp(2,2) = -k;
+  C.comp(0,0) = k;
+  C.comp(1,1) = k;
+  C.comp(2,2) = k;
 }
 
 bool ElementTETRA1::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
-- 
2.43.0


From 69e265a308678b8f872b64a45de29ee059ea0166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:05 +0000
Subject: [PATCH 16/66] fix: TETRA1 reports the temperature gradient, not its
 opposite

---
 src/lib/elements/TETRA1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 4f99260..0729a04 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -150,7 +150,7 @@ bool  ElementTETRA1::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       *vector += flux*scale;
       return true;
     case vectorQuery::GRADT:
-      *vector += flux*(scale/k);
+      *vector += flux*(-scale/k);
       return true;
   }  
   return false;
-- 
2.43.0


From b961e3ad95f38e5d781d0582c1dc0e41403537c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 17/66] fix: INTER0 stiffness for a spring along (0,1,1)

---
 src/lib/elements/INTER0.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 8884c3f..2958030 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -23,7 +23,12 @@ void ElementINTER0::buildK() {
   K.setZero();
 
   //Произвольный линенйно независмый базис
-  math::Vec<3> s1(n[0],n[1]+1.,n[2]+1.);
+  // (the coordinate axis which is the farthest from n, thus it's never collinear to n)
+  math::Vec<3> s1(0.,0.,0.);
+  uint16 axis = 0;
+  if (fabs(n[1]) < fabs(n[axis])) axis = 1;
+  if (fabs(n[2]) < fabs(n[axis])) axis = 2;
+  s1[axis] = 1.;
   //ортогонализаця базиса
   math::Vec<3> proj_s1_n = n*((s1[0]*n[0]+s1[1]*n[1]+s1[2]*n[2])/n.qlength());
   s1 = s1 - proj_s1_n;
-- 
2.43.0


From dc741ca48bbb26f948595fb5d9bfc1c40ac34fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:47 +0000
Subject: [PATCH 18/66] fix: PARDISO pivot perturbation for systems with
 multi-point constraints

---
 src/lib/math/EquationSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 26d599c..30db7cd 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -214,7 +214,7 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 	iparm[5] = 0; //write solution into x
 	iparm[6] = 16; //default logical fortran unit number for output
 	iparm[7] = 2; //max numbers of iterative refinement steps
-	iparm[9] = 13; //pertrub the pivor elements with 1e-13
+	iparm[9] = 10; //pertrub the pivot elements with 1e-10 (1e-13 spoils systems with Mpc equations)
 	iparm[10] = 1; //use nonsymmetric permutation  and scaling MPS
 	iparm[12] = 1; //use weighted matching: systems with Mpc equations have zeros on the diagonal
 	iparm[13]=0; //output: number of perturbed pivots
-- 
2.43.0


From 0a31c48d1f59a4f1b904b018adfa29c1e2a51cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 19/66] fix: TETRA0 results are multiplied by the requested
 scale

---
 src/lib/elements/TETRA0.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index b449d51..d76be34 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -200,7 +200,7 @@ void ElementTETRA0::makeC (math::MatSym<6> &C) {
 
 bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
   if (query == scalarQuery::VOL){
-     *scalar += vol;
+     *scalar += vol*scale;
     return true;
   }
   return false;
@@ -208,27 +208,27 @@ bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, cons
 
 bool  ElementTETRA0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale) {
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
-      tensor->comp(0,1) += strains[3];
-      tensor->comp(1,2) += strains[4];
-      tensor->comp(0,2) += strains[5];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
+      tensor->comp(0,1) += strains[3]*scale;
+      tensor->comp(1,2) += strains[4]*scale;
+      tensor->comp(0,2) += strains[5]*scale;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
-    tensor->comp(0,1) += stress[3];
-    tensor->comp(1,2) += stress[4];
-    tensor->comp(0,2) += stress[5];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
+    tensor->comp(0,1) += stress[3]*scale;
+    tensor->comp(1,2) += stress[4]*scale;
+    tensor->comp(0,2) += stress[5]*scale;
     return true;
   }
   if (query == tensorQuery::TSTRAIN){
-    tensor->comp(0,0) += alpha*T;
-    tensor->comp(1,1) += alpha*T;
-    tensor->comp(2,2) += alpha*T;
+    tensor->comp(0,0) += alpha*T*scale;
+    tensor->comp(1,1) += alpha*T*scale;
+    tensor->comp(2,2) += alpha*T*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
-- 
2.43.0


From 59686abcf271c63cd3ab8d4ec0445c93106d1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 20/66] fix: INTER0 and INTER3 results are multiplied by the
 requested scale, unknown ones are refused

---
 src/lib/elements/INTER0.cpp |  6 +++---
 src/lib/elements/INTER3.cpp | 13 +++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 2958030..08adac8 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -76,9 +76,9 @@ bool  ElementINTER0::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 35e985d..4f84f62 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -215,23 +215,24 @@ bool  ElementINTER3::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
     return true;
   }
+  return false;
 }
 
 
-- 
2.43.0


From 2ca3384907232e6cf6babfd197b1785b504aad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 21/66] fix: PLANE41 writes invariants into the given vector
 only

---
 src/lib/elements/PLANE41.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index fe31d30..b482a4b 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -200,9 +200,9 @@ bool ElementPLANE41::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       CVec[M_YY] = C[gp][1];
       CVec[M_XY] = C[gp][2];
       solidmech::IC_C(CVec.ptr(), IC);
-      vector[0] += IC[0] * scale;
-      vector[1] += IC[1] * scale;
-      vector[2] += IC[2] * scale;
+      (*vector)[0] += IC[0] * scale;
+      (*vector)[1] += IC[1] * scale;
+      (*vector)[2] += IC[2] * scale;
       return true;
   }
   return false;
-- 
2.43.0


From 623fbc1db629948bce048b6ee39fe2867911e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 22/66] fix: PLANE41 Cauchy stress is F*S*F^T/J and respects
 the scale

---
 src/lib/elements/PLANE41.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index b482a4b..e4df5dd 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -244,10 +244,11 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   switch (query) {
     case tensorQuery::COUCHY:
 
+      //matF^T
       matF.zero();
       matF.data[0][0] = 1+O[gp][0]; //11
-      matF.data[0][1] = O[gp][1];  //12
-      matF.data[1][0] = O[gp][2];  //21
+      matF.data[1][0] = O[gp][1];  //12
+      matF.data[0][1] = O[gp][2];  //21
       matF.data[1][1] = 1+O[gp][3];//22
       matF.data[2][2] = 1; //33
 
@@ -264,7 +265,7 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
       mat = dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial());
       CHECK_NOTNULL(mat);
       mat->getS_UP(6, solidmech::defaultTensorComponents, CVec.ptr(), p_e, matS.data);
-      matBTDBprod(matF, matS, 1.0/J, *tensor); //Symmetric Couchy tensor
+      matBTDBprod(matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-- 
2.43.0


From 4611f9382c455ee68a5cdf84ee485b6c8a9666aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 23/66] fix: SOLID81 stresses contain the pressure once

---
 src/lib/elements/SOLID81.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index a3130f4..956d6e0 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -282,8 +282,6 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   Mat<3,3> matF;
   MatSym<3> matS;
   double J;
-  double cInv[6];
-  double pe;
 
   switch (query) {
     case tensorQuery::COUCHY:
@@ -301,25 +299,17 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
 
       J = solidmech::J_C(C[gp].ptr());
 
-      //deviatoric part of S: Sd = S[gp]
-      //hydrostatic part of S: Sp = p * J * C^(-1)
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
-      // TODO: it seems that S[gp] contains deviatoric + pressure already..
-      // we dont need to sum it again
+      // S[gp] contains deviatoric and hydrostatic parts already
       for (uint16 i = 0; i < 6; i++) {
-        matS.data[i] = S[gp][i] + pe * J * cInv[i];
+        matS.data[i] = S[gp][i];
       }
       matBTDBprod (matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-      // hydrostatic part of S: Sp = p * J * C^(-1)
-      J = solidmech::J_C(C[gp].ptr());
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
+      // S[gp] contains deviatoric and hydrostatic parts already
       for (uint16 i = 0; i < 6; i++) {
-        tensor->data[i] += (S[gp][i] + pe * J * cInv[i]) * scale;
+        tensor->data[i] += S[gp][i] * scale;
       }
       return true;
 
-- 
2.43.0


From 4c60445ea2fe4ae46ea5a6806c76d20189cc0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 24/66] fix: element mass matrix goes to the global mass matrix

---
 src/lib/elements/element.h | 874 ++++++++++++++++++-------------------
 1 file changed, 437 insertions(+), 437 deletions(-)

diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0401ff2..d1ace57 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -1,437 +1,437 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include <vector>
-#include <math.h>
-#include <initializer_list>
-#include <Eigen/Dense>
-
-#include "query.h"
-#include "Node.h"
-#include "math/Vec.h"
-#include "math/Mat.h"
-
-namespace nla3d {
-
-//pre-defines
-class Material;
-class FEStorage;
-
-
-// Element shapes are taken from vtk-file-formats.pdf
-enum ElementShape {
-  VERTEX = 0,
-  TWIN_VERTEX,
-  LINE,
-  TRIANGLE,
-  QUAD,
-  TETRA,
-  HEXAHEDRON,
-  WEDGE,
-  PYRAMID,
-  QUADRARIC_EDGE,
-  QUADRATIC_TRIANGLE,
-  QUADRATIC_QUAD,
-  QUADRATIC_TETRA,
-  QUADRARIC_HEXAHEDRON,
-  UNDEFINED
-};
-
-// number of dimensions in shape
-static const uint16 _shape_dim[] = {
-  0,  // VERTEX
-  0,  // TWIN_VERTEX
-  1,  // LINE
-  2,  // TRIANGLE
-  2,  // QUAD
-  3,  // TETRA
-  3,  // HEXAHEDRON
-  3,  // WEDGE
-  3,  // PYRAMID
-  2,  // QUADRARIC_EDGE
-  2,  // QUADRATIC_TRIANGLE
-  2,  // QUADRATIC_QUAD
-  3,  // QUADRATIC_TETRA
-  3   // QUADRARIC_HEXAHEDRON
-};
-
-
-// number of nodes in shape
-static const uint16 _shape_nnodes[] = {
-  1,  // VERTEX,
-  2,  // TWIN_VERTEX
-  2,  // LINE
-  3,  // TRIANGLE
-  4,  // QUAD
-  4,  // TETRA
-  8,  // HEXAHEDRON
-  6,  // WEDGE
-  5,  // PYRAMID
-  3,  // QUADRARIC_EDGE
-  6,  // QUADRATIC_TRIANGLE
-  8,  // QUADRATIC_QUAD
-  10, // QUADRATIC_TETRA
-  20  // QUADRARIC_HEXAHEDRON
-};
-
-
-// Element base class
-// All FE should be derived from that class. The class provide interface for building stiffness,
-// damping and inertia matrices (methods buildK(), buildC(), buildM()), for get element results
-// (methods getScalar(...), getVector(...), getTensor(...)), for update element state after solution
-// iteration (method update()).
-class Element {
-  public: 
-    Element ();
-    virtual ~Element();
-
-    // get element number, as it is stored in FEStorage. Numbers start from 1.
-    uint32 getElNum();
-    // return number of nodes for the element
-    uint16 getNNodes();
-    // return number of dimensions (0D, 1D, 2D, 3D) occupied by element shape. 
-    uint16 getDim();
-    // return element shape
-    ElementShape getShape();
-    // return element type
-    ElementType getType();
-    // return node number (as it stored in FEStorage) of the i-th node in the element
-    uint32& getNodeNumber (uint16 num);
-    // return the FEStorage to which element belongs
-    FEStorage& getStorage();
-    // return order of integration scheme used in the particular element for integration over volume
-    uint16 getIntegrationOrder();
-    // set the integration order for the element
-    void setIntegrationOrder(uint16 _nint); // нельзя вызывать после выполнения функции pre() (начало решения)
-
-    // heart of the element class
-    // TODO: comment massively here
-    virtual void pre()=0;
-    virtual void buildK()=0;
-    virtual void buildC();
-    virtual void buildM();
-    virtual void update()=0;
-
-    // The methods below are getters to receive solution information related to elements (like
-    // stresses, strains, volume and so on). The first argument is a pointer on return value. Please
-    // note, that result of the function times scale will be added to the pointer's value (*scalar
-    // += result * scale, in particular case). query is a value from enum shows with particular
-    // result should be returned. gp is a number of Gaussian point, if gp == GP_MEAN then the
-    // result will be averaged over the element based on current integration scheme.
-    // The methods return true if the query is relevant for the element and false if the element
-    // can't return asked query code.
-    virtual bool getScalar(double* scalar, scalarQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-    virtual bool getVector(math::Vec<3>* vector, vectorQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-    virtual bool getTensor(math::MatSym<3>* tensor, tensorQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-
-    Element& operator= (const Element& from);
-
-    //in-out operation:
-    void print (std::ostream& out);
-
-    // some general purpose assemble procedures. Particular element realization could have it own
-    // assembly procedure.
-    template <uint16 dimM>
-    void assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs);
-    template <uint16 dimM>
-    void assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs);
-    template <uint16 dimM>
-    void assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs);
-
-    template <uint16 dimM>
-    void assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe,
-                   std::initializer_list<Dof::dofType> _nodeDofs);
-
-    void assembleK(Eigen::Ref<Eigen::MatrixXd> Ke, std::initializer_list<Dof::dofType> _nodeDofs);
-
-    friend class FEStorage;
-  protected:
-
-    ElementType type = ElementType::UNDEFINED;
-    ElementShape shape = ElementShape::UNDEFINED;
-    uint16 intOrder = 0; // number of int points overall
-    uint32 elNum = 0;
-    uint32 *nodes = nullptr;
-    FEStorage* storage = nullptr;
-};
-
-
-//Element geometry class
-class ElementVERTEX : public Element {
-  public:
-    ElementVERTEX() {
-      shape = ElementShape::VERTEX;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementVERTEX& operator= (const ElementVERTEX& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementTWIN_VERTEX : public Element {
-  public:
-    ElementTWIN_VERTEX() {
-      shape = ElementShape::TWIN_VERTEX;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTWIN_VERTEX& operator= (const ElementTWIN_VERTEX& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementLINE : public Element {
-  public:
-    ElementLINE() {
-      shape = ElementShape::LINE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementLINE& operator= (const ElementLINE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementTRIANGLE : public Element {
-  public:
-    ElementTRIANGLE() {
-      shape = ElementShape::TRIANGLE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTRIANGLE& operator= (const ElementTRIANGLE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementQUAD : public Element {
-  public:
-    ElementQUAD () {
-      shape = ElementShape::QUAD;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementQUAD& operator= (const ElementQUAD& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementTETRA : public Element {
-  public:
-    ElementTETRA() {
-      shape = ElementShape::TETRA;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTETRA& operator= (const ElementTETRA& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementHEXAHEDRON : public Element {
-  public:
-    ElementHEXAHEDRON() {
-      shape = ElementShape::HEXAHEDRON;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementHEXAHEDRON& operator= (const ElementHEXAHEDRON& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementWEDGE : public Element {
-  public:
-    ElementWEDGE() {
-      shape = ElementShape::WEDGE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementWEDGE& operator= (const ElementWEDGE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-} // namespace nla3d
-
-// 'dirty' hack to avoid include loops (element-vs-festorage)
-#include "FEStorage.h"
-
-namespace nla3d {
-
-template <uint16 dimM>
-void Element::assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ke_p = Ke.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
-            Ke_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ce_p = Ce.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ce_p);
-            Ce_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Me_p = Me.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
-            Me_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ke_p = Ke.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
-            Ke_p++;
-          }
-        }
-      }
-    }
-  }
-
-  double* Fe_p = Fe.ptr();
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-            storage->addValueF(nodes[i], nodeDof[di], *Fe_p);
-            Fe_p++;
-    }
-  }
-}
-
-
-inline uint16 Element::getNNodes() {
-  return _shape_nnodes[shape];
-}
-
-
-inline uint16 Element::getDim() {
-  return _shape_dim[shape];
-}
-
-
-inline ElementShape Element::getShape() {
-  return shape;
-}
-
-inline ElementType Element::getType() {
-  return type;
-
-}
-
-
-// & is used here because this function is called such this:
-// el->getNodeNumber(0) = 1234;
-inline uint32& Element::getNodeNumber(uint16 num) {
-  assert(num < getNNodes());
-  assert(nodes);
-  return nodes[num];
-}
-
-
-inline uint16 Element::getIntegrationOrder() {
-  return intOrder;
-}
-
-
-inline void Element::setIntegrationOrder(uint16 _nint) {
-  intOrder = _nint; 
-}
-
-
-inline FEStorage& Element::getStorage() {
-  return *storage;
-}
-
-
-inline uint32 Element::getElNum() {
-  return elNum;
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include <vector>
+#include <math.h>
+#include <initializer_list>
+#include <Eigen/Dense>
+
+#include "query.h"
+#include "Node.h"
+#include "math/Vec.h"
+#include "math/Mat.h"
+
+namespace nla3d {
+
+//pre-defines
+class Material;
+class FEStorage;
+
+
+// Element shapes are taken from vtk-file-formats.pdf
+enum ElementShape {
+  VERTEX = 0,
+  TWIN_VERTEX,
+  LINE,
+  TRIANGLE,
+  QUAD,
+  TETRA,
+  HEXAHEDRON,
+  WEDGE,
+  PYRAMID,
+  QUADRARIC_EDGE,
+  QUADRATIC_TRIANGLE,
+  QUADRATIC_QUAD,
+  QUADRATIC_TETRA,
+  QUADRARIC_HEXAHEDRON,
+  UNDEFINED
+};
+
+// number of dimensions in shape
+static const uint16 _shape_dim[] = {
+  0,  // VERTEX
+  0,  // TWIN_VERTEX
+  1,  // LINE
+  2,  // TRIANGLE
+  2,  // QUAD
+  3,  // TETRA
+  3,  // HEXAHEDRON
+  3,  // WEDGE
+  3,  // PYRAMID
+  2,  // QUADRARIC_EDGE
+  2,  // QUADRATIC_TRIANGLE
+  2,  // QUADRATIC_QUAD
+  3,  // QUADRATIC_TETRA
+  3   // QUADRARIC_HEXAHEDRON
+};
+
+
+// number of nodes in shape
+static const uint16 _shape_nnodes[] = {
+  1,  // VERTEX,
+  2,  // TWIN_VERTEX
+  2,  // LINE
+  3,  // TRIANGLE
+  4,  // QUAD
+  4,  // TETRA
+  8,  // HEXAHEDRON
+  6,  // WEDGE
+  5,  // PYRAMID
+  3,  // QUADRARIC_EDGE
+  6,  // QUADRATIC_TRIANGLE
+  8,  // QUADRATIC_QUAD
+  10, // QUADRATIC_TETRA
+  20  // QUADRARIC_HEXAHEDRON
+};
+
+
+// Element base class
+// All FE should be derived from that class. The class provide interface for building stiffness,
+// damping and inertia matrices (methods buildK(), buildC(), buildM()), for get element results
+// (methods getScalar(...), getVector(...), getTensor(...)), for update element state after solution
+// iteration (method update()).
+class Element {
+  public: 
+    Element ();
+    virtual ~Element();
+
+    // get element number, as it is stored in FEStorage. Numbers start from 1.
+    uint32 getElNum();
+    // return number of nodes for the element
+    uint16 getNNodes();
+    // return number of dimensions (0D, 1D, 2D, 3D) occupied by element shape. 
+    uint16 getDim();
+    // return element shape
+    ElementShape getShape();
+    // return element type
+    ElementType getType();
+    // return node number (as it stored in FEStorage) of the i-th node in the element
+    uint32& getNodeNumber (uint16 num);
+    // return the FEStorage to which element belongs
+    FEStorage& getStorage();
+    // return order of integration scheme used in the particular element for integration over volume
+    uint16 getIntegrationOrder();
+    // set the integration order for the element
+    void setIntegrationOrder(uint16 _nint); // нельзя вызывать после выполнения функции pre() (начало решения)
+
+    // heart of the element class
+    // TODO: comment massively here
+    virtual void pre()=0;
+    virtual void buildK()=0;
+    virtual void buildC();
+    virtual void buildM();
+    virtual void update()=0;
+
+    // The methods below are getters to receive solution information related to elements (like
+    // stresses, strains, volume and so on). The first argument is a pointer on return value. Please
+    // note, that result of the function times scale will be added to the pointer's value (*scalar
+    // += result * scale, in particular case). query is a value from enum shows with particular
+    // result should be returned. gp is a number of Gaussian point, if gp == GP_MEAN then the
+    // result will be averaged over the element based on current integration scheme.
+    // The methods return true if the query is relevant for the element and false if the element
+    // can't return asked query code.
+    virtual bool getScalar(double* scalar, scalarQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+    virtual bool getVector(math::Vec<3>* vector, vectorQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+    virtual bool getTensor(math::MatSym<3>* tensor, tensorQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+
+    Element& operator= (const Element& from);
+
+    //in-out operation:
+    void print (std::ostream& out);
+
+    // some general purpose assemble procedures. Particular element realization could have it own
+    // assembly procedure.
+    template <uint16 dimM>
+    void assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs);
+    template <uint16 dimM>
+    void assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs);
+    template <uint16 dimM>
+    void assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs);
+
+    template <uint16 dimM>
+    void assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe,
+                   std::initializer_list<Dof::dofType> _nodeDofs);
+
+    void assembleK(Eigen::Ref<Eigen::MatrixXd> Ke, std::initializer_list<Dof::dofType> _nodeDofs);
+
+    friend class FEStorage;
+  protected:
+
+    ElementType type = ElementType::UNDEFINED;
+    ElementShape shape = ElementShape::UNDEFINED;
+    uint16 intOrder = 0; // number of int points overall
+    uint32 elNum = 0;
+    uint32 *nodes = nullptr;
+    FEStorage* storage = nullptr;
+};
+
+
+//Element geometry class
+class ElementVERTEX : public Element {
+  public:
+    ElementVERTEX() {
+      shape = ElementShape::VERTEX;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementVERTEX& operator= (const ElementVERTEX& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementTWIN_VERTEX : public Element {
+  public:
+    ElementTWIN_VERTEX() {
+      shape = ElementShape::TWIN_VERTEX;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTWIN_VERTEX& operator= (const ElementTWIN_VERTEX& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementLINE : public Element {
+  public:
+    ElementLINE() {
+      shape = ElementShape::LINE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementLINE& operator= (const ElementLINE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementTRIANGLE : public Element {
+  public:
+    ElementTRIANGLE() {
+      shape = ElementShape::TRIANGLE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTRIANGLE& operator= (const ElementTRIANGLE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementQUAD : public Element {
+  public:
+    ElementQUAD () {
+      shape = ElementShape::QUAD;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementQUAD& operator= (const ElementQUAD& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementTETRA : public Element {
+  public:
+    ElementTETRA() {
+      shape = ElementShape::TETRA;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTETRA& operator= (const ElementTETRA& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementHEXAHEDRON : public Element {
+  public:
+    ElementHEXAHEDRON() {
+      shape = ElementShape::HEXAHEDRON;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementHEXAHEDRON& operator= (const ElementHEXAHEDRON& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementWEDGE : public Element {
+  public:
+    ElementWEDGE() {
+      shape = ElementShape::WEDGE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementWEDGE& operator= (const ElementWEDGE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+} // namespace nla3d
+
+// 'dirty' hack to avoid include loops (element-vs-festorage)
+#include "FEStorage.h"
+
+namespace nla3d {
+
+template <uint16 dimM>
+void Element::assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ke_p = Ke.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
+            Ke_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ce_p = Ce.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ce_p);
+            Ce_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Me_p = Me.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
+            Me_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ke_p = Ke.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
+            Ke_p++;
+          }
+        }
+      }
+    }
+  }
+
+  double* Fe_p = Fe.ptr();
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+            storage->addValueF(nodes[i], nodeDof[di], *Fe_p);
+            Fe_p++;
+    }
+  }
+}
+
+
+inline uint16 Element::getNNodes() {
+  return _shape_nnodes[shape];
+}
+
+
+inline uint16 Element::getDim() {
+  return _shape_dim[shape];
+}
+
+
+inline ElementShape Element::getShape() {
+  return shape;
+}
+
+inline ElementType Element::getType() {
+  return type;
+
+}
+
+
+// & is used here because this function is called such this:
+// el->getNodeNumber(0) = 1234;
+inline uint32& Element::getNodeNumber(uint16 num) {
+  assert(num < getNNodes());
+  assert(nodes);
+  return nodes[num];
+}
+
+
+inline uint16 Element::getIntegrationOrder() {
+  return intOrder;
+}
+
+
+inline void Element::setIntegrationOrder(uint16 _nint) {
+  intOrder = _nint; 
+}
+
+
+inline FEStorage& Element::getStorage() {
+  return *storage;
+}
+
+
+inline uint32 Element::getElNum() {
+  return elNum;
+}
+
+} // namespace nla3d
-- 
2.43.0


From 34f7eb6bd5bd8f3f9e1d35998f3964698f1472e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 25/66] fix: coefficients of the Newmark velocity update

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index f56b079..6ab2bec 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -626,7 +626,7 @@ void LinearTransientFESolver::solve() {
 
     // restore derivatives
     vecDDUnext = a0 * (vecUnext - vecU) - a2 * vecDU - a3 * vecDDU;
-    vecDUnext = vecDU + a6 * vecDDUnext + a7 * vecDDU;
+    vecDUnext = vecDU + a6 * vecDDU + a7 * vecDDUnext;
 
     vecU = vecUnext;
     vecDU = vecDUnext;
-- 
2.43.0


From bdd38ac943c3d7b177a5a615477dec5d5649bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 26/66] fix: non-zero constrained values in the transient
 solution

---
 src/lib/FESolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 6ab2bec..77d158f 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -618,6 +618,8 @@ void LinearTransientFESolver::solve() {
 
       // copy constrained dofs values
       vecUnextc = vecUc;
+      // take into account elimination of constrained DoFs (they keep their values during the solution)
+      matBTVprod(*(matK->block(1,2)), vecUnextc, -1.0, rhs);
       // solve equation system
       eqSolver->substituteEquations(&matKmod, &rhs[0], &vecUnextsl[0]);
 
-- 
2.43.0


From b4e5fce637f524dfea319074f9bfecf63775f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 27/66] fix: reactions in the transient solution

---
 src/lib/FESolver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 77d158f..7f803b5 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -634,6 +634,16 @@ void LinearTransientFESolver::solve() {
     vecDU = vecDUnext;
     vecDDU = vecDDUnext;
 
+    // restore reaction loads for constrained DoFs
+    vecRc.zero();
+    matBVprod(*(matK->block(1)), vecUc, 1.0, vecRc);
+    matBVprod(*(matK->block(1,2)), vecUsl, 1.0, vecRc);
+    matBVprod(*(matC->block(1)), vecDUc, 1.0, vecRc);
+    matBVprod(*(matC->block(1,2)), vecDUsl, 1.0, vecRc);
+    matBVprod(*(matM->block(1)), vecDDUc, 1.0, vecRc);
+    matBVprod(*(matM->block(1,2)), vecDDUsl, 1.0, vecRc);
+    vecRc -= vecFc;
+
     storage->updateResults();
 
     LOG(INFO) << "Time " << curTime << " completed";
-- 
2.43.0


From 2edb47d1b5ad95c9e4fec7b0aa130baa33e6713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:53 +0000
Subject: [PATCH 28/66] fix: transient solution makes the requested number of
 time steps

---
 src/lib/FESolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 7f803b5..2aef19c 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -610,7 +610,8 @@ void LinearTransientFESolver::solve() {
   eqSolver->factorizeEquations(&matKmod);
 
   // timestepping
-  while (curTime <= time1) {
+  // (the time is a sum of rounded steps, so it can't be used to count them)
+  while (curTimestep <= numberOfTimesteps) {
     for (;;) {
       rhs = vecFsl + vecRsl;
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
-- 
2.43.0


From b0e9a40a1d93025228366ccc165f04be9e1036f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:39 +0000
Subject: [PATCH 29/66] fix: TETRA0 stresses don't contain thermal strains

---
 src/lib/elements/TETRA0.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index d76be34..b6270ad 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -103,8 +103,14 @@ void ElementTETRA0::update () {
   strains.zero();
   math::matBVprod(matB, U, -1.0, strains);
   
+  // thermal expansion doesn't produce stresses by itself
+  math::Vec<6> elStrains = strains;
+  for (uint16 i = 0; i < 3; i++) {
+    elStrains[i] -= alpha*T;
+  }
+
   stress.zero();
-  math::matBVprod(matC, strains, 1.0, stress);
+  math::matBVprod(matC, elStrains, 1.0, stress);
 }
 
 void ElementTETRA0::makeB(math::Mat<6,12> &B)
-- 
2.43.0


From c077caa5f41d3158dd1458d25102306288d123d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 30/66] fix: deleted MPC equations are not kept in the storage

---
 src/lib/FEStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 2d123fa..4445412 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -274,6 +274,7 @@ void FEStorage::deleteMpcs() {
     delete *mpc;
     mpc++;
   }
+  mpcs.clear();
 }
 
 
-- 
2.43.0


From 612168aff36dfc4949cd73f308b4e6da52544c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 31/66] fix: virtual destructor of MpcCollection

---
 src/lib/Mpc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/Mpc.h b/src/lib/Mpc.h
index 22c4a5b..89ecf61 100644
--- a/src/lib/Mpc.h
+++ b/src/lib/Mpc.h
@@ -39,6 +39,7 @@ class Mpc {
 
 class MpcCollection {
   public:
+    virtual ~MpcCollection() { }
     virtual void update() = 0;
     virtual void pre() = 0;
     void printEquations(std::ostream& out);
-- 
2.43.0


From 35eb6cbda7ba7af8c0b5b7959335228f95fb7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 32/66] fix: virtual destructor of PostProcessor

---
 src/lib/PostProcessor.h | 104 ++++++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/src/lib/PostProcessor.h b/src/lib/PostProcessor.h
index 3ad5b30..63dff32 100755
--- a/src/lib/PostProcessor.h
+++ b/src/lib/PostProcessor.h
@@ -1,52 +1,52 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include "FEStorage.h"
-
-namespace nla3d {
-
-class FEStorage;
-class FESolver;
-
-//Data_Processor
-class PostProcessor {
-public:
-	PostProcessor(FEStorage *st);
-	~PostProcessor() { };
-	virtual void pre ()=0;
-	virtual void process (uint16 curLoadstep)=0;
-	virtual void post (uint16 curLoadstep)=0;
-	std::string getStatus ();
-	uint16 getnPost_num () {
-		return nPost_proc;
-	}
-	void setActive (bool act) {
-		if (failed) {
-			LOG(WARNING) << "PostProcessor " << nPost_proc << " (" << name << "): can't set active,"
-          << "because post_proc has been already failed";
-			return;
-		}
-		active = act;
-	}
-	bool getActive () {
-		return active;
-	}
-
-	uint16 getProc_num () {
-		return nPost_proc;
-	}
-
-	friend class FEStorage;
-	friend class FESolver;
-protected:
-	FEStorage *storage;
-	uint16 nPost_proc;
-	std::string name;
-	bool active;
-	bool failed;
-};
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include "FEStorage.h"
+
+namespace nla3d {
+
+class FEStorage;
+class FESolver;
+
+//Data_Processor
+class PostProcessor {
+public:
+	PostProcessor(FEStorage *st);
+	virtual ~PostProcessor() { };
+	virtual void pre ()=0;
+	virtual void process (uint16 curLoadstep)=0;
+	virtual void post (uint16 curLoadstep)=0;
+	std::string getStatus ();
+	uint16 getnPost_num () {
+		return nPost_proc;
+	}
+	void setActive (bool act) {
+		if (failed) {
+			LOG(WARNING) << "PostProcessor " << nPost_proc << " (" << name << "): can't set active,"
+          << "because post_proc has been already failed";
+			return;
+		}
+		active = act;
+	}
+	bool getActive () {
+		return active;
+	}
+
+	uint16 getProc_num () {
+		return nPost_proc;
+	}
+
+	friend class FEStorage;
+	friend class FESolver;
+protected:
+	FEStorage *storage;
+	uint16 nPost_proc;
+	std::string name;
+	bool active;
+	bool failed;
+};
+
+} // namespace nla3d
-- 
2.43.0


From 9b21725270546ab6fbb07cb69142f9e0a9e09737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 33/66] fix: virtual destructor of Material

---
 src/lib/materials/material.h | 140 +++++++++++++++++------------------
 1 file changed, 70 insertions(+), 70 deletions(-)

diff --git a/src/lib/materials/material.h b/src/lib/materials/material.h
index c8b0d00..b1ec8d6 100755
--- a/src/lib/materials/material.h
+++ b/src/lib/materials/material.h
@@ -1,70 +1,70 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include <string>
-#include "math/Vec.h"
-#include "math/Mat.h"
-
-namespace nla3d {
-
-class MaterialFactory;
-
-// Material must have named material constants
-class Material {
-public:
-	Material () : MC(NULL), numC(0), code(0) { 
-	}
-	Material (uint16 num_c);
-	~Material()   // TODO: discover the virtual destructor
-	{
-		if (MC) delete[] MC; 
-		MC = NULL;
-	}
-
-	virtual std::string toString();
-
-	std::string getName();
-	uint16 getCode ();
-  // constants getters
-	double& Ci (uint16 i);
-	double& Ci (const std::string& nameConst);
-	uint16 getNumC ();
-
-	static const double I[6];
-
-  friend class MaterialFactory;
-protected:
-	void register_mat_const(uint16 num, ...);
-	double* MC;
-	std::vector<std::string> MC_names;
-	uint16 numC;
-	uint16 code;
-	std::string name;
-};
-
-
-// ---=== FUNCTIONS ===--- //
-inline std::string Material::getName()
-{
-	return name;
-}
-
-inline uint16 Material::getCode ()
-{
-	return code;
-}
-
-inline double& Material::Ci (uint16 i)
-{
-	assert(i < numC);
-	return MC[i];
-}
-
-inline uint16 Material::getNumC ()
-{
-	return numC;
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include <string>
+#include "math/Vec.h"
+#include "math/Mat.h"
+
+namespace nla3d {
+
+class MaterialFactory;
+
+// Material must have named material constants
+class Material {
+public:
+	Material () : MC(NULL), numC(0), code(0) { 
+	}
+	Material (uint16 num_c);
+	virtual ~Material()
+	{
+		if (MC) delete[] MC; 
+		MC = NULL;
+	}
+
+	virtual std::string toString();
+
+	std::string getName();
+	uint16 getCode ();
+  // constants getters
+	double& Ci (uint16 i);
+	double& Ci (const std::string& nameConst);
+	uint16 getNumC ();
+
+	static const double I[6];
+
+  friend class MaterialFactory;
+protected:
+	void register_mat_const(uint16 num, ...);
+	double* MC;
+	std::vector<std::string> MC_names;
+	uint16 numC;
+	uint16 code;
+	std::string name;
+};
+
+
+// ---=== FUNCTIONS ===--- //
+inline std::string Material::getName()
+{
+	return name;
+}
+
+inline uint16 Material::getCode ()
+{
+	return code;
+}
+
+inline double& Material::Ci (uint16 i)
+{
+	assert(i < numC);
+	return MC[i];
+}
+
+inline uint16 Material::getNumC ()
+{
+	return numC;
+}
+
+} // namespace nla3d
-- 
2.43.0


From 18df4b6ab496d192c8a8171ee7b859b054e1e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:06 +0000
Subject: [PATCH 34/66] fix: PARDISO analysis is done for the values it
 factorizes

---
 src/lib/math/EquationSolver.cpp | 18 ++++--------------
 src/lib/math/EquationSolver.h   |  6 ------
 2 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 30db7cd..52ecbcc 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -168,14 +168,12 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 
 void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
   TIMED_SCOPE(t, "factorizeEquations");
-  if (!firstRun && !isFactorizedFor(matrix)) {
-    // the matrix has another sparsity: symbolic factorization should be done again
+  // the analysis depends on the sparsity and (because of the weighted matching) on the values of the
+  // matrix: it should be done again for every factorization
+  if (!firstRun) {
     releasePARDISO();
-    firstRun = true;
-  }
-  if (firstRun) {
-    initializePARDISO(matrix);
   }
+  initializePARDISO(matrix);
   firstRun = false;
 
   CHECK(nEq == matrix->nRows());
@@ -233,8 +231,6 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
 
   nEq = matrix->nRows();
   int n = static_cast<int> (nEq);
-  iofeir.assign(matrix->getIofeirArray(), matrix->getIofeirArray() + nEq + 1);
-  columns.assign(matrix->getColumnsArray(), matrix->getColumnsArray() + matrix->nValues());
 
   // initialize error code
 	int error = 0; 
@@ -249,12 +245,6 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
   LOG(INFO) << "Number of nonzeros in factors = " << iparm[17] << ", number of factorization MFLOPS = " << iparm[18];
 }
 
-bool PARDISO_equationSolver::isFactorizedFor(math::SparseSymMatrix* matrix) {
-  return nEq == matrix->nRows() && columns.size() == matrix->nValues() &&
-         std::equal(iofeir.begin(), iofeir.end(), matrix->getIofeirArray()) &&
-         std::equal(columns.begin(), columns.end(), matrix->getColumnsArray());
-}
-
 void PARDISO_equationSolver::releasePARDISO () {
   int phase = -1;
   int n = static_cast<int> (nEq);
diff --git a/src/lib/math/EquationSolver.h b/src/lib/math/EquationSolver.h
index 8155263..f0f3e89 100644
--- a/src/lib/math/EquationSolver.h
+++ b/src/lib/math/EquationSolver.h
@@ -55,12 +55,6 @@ public:
 protected:
   void initializePARDISO (math::SparseSymMatrix* matrix);
   void releasePARDISO ();
-  // is the symbolic factorization done for the sparsity of the matrix?
-  bool isFactorizedFor(math::SparseSymMatrix* matrix);
-
-  // the sparsity (row pointers and columns) for which the symbolic factorization was done
-  std::vector<uint32> iofeir;
-  std::vector<uint32> columns;
 
   // Internal solver memory pointer pt
 	void *pt[64]; 
-- 
2.43.0


From 734da163118ba1455f1e20b16468291b9ae107ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 35/66] fix: transient solution with the biggest number of time
 steps ends

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 2aef19c..3268d2b 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -552,7 +552,7 @@ void LinearTransientFESolver::solve() {
 
   double dt = (time1 - time0) / numberOfTimesteps;
   double curTime = time0 + dt;
-  uint16 curTimestep = 1;
+  uint32 curTimestep = 1; // doesn't overflow with the biggest numberOfTimesteps
   // initialize parameters of Newmark procedure
   a0 = 1.0 / (alpha * dt * dt);
   a1 = delta / (alpha * dt);
-- 
2.43.0


From 904599715b243c8ad710fd9fef57b79049307c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:21 +0000
Subject: [PATCH 36/66] fix: constraint equations with any number of terms are
 read from cdb

---
 src/lib/FEReaders.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a503562..773eeed 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -560,8 +560,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
       while (n_terms > 0) {
         getLine(file, line);
         t.tokenize(line);
-        uint16 place = 6;
-        for (int i = 0; i < std::max(n_terms, 2); i++) {
+        const int termsInRow = std::min(n_terms, 2);
+        for (int i = 0; i < termsInRow; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
           Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
           double coef = t.tokenDouble(3 + 3 * i + 2);
-- 
2.43.0


From 2f34e87f557131edc93cfbd316fa4267e9256ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:21 +0000
Subject: [PATCH 37/66] fix: cdb components with more than 65535 records are
 read

---
 src/lib/FEReaders.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 773eeed..a6eb157 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -606,8 +606,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
           widths.push_back(int_field);
         }
 
-        uint16 in_row = 0;
-        uint16 all = 0;
+        size_t in_row = 0;
+        size_t all = 0;
 
         // read all ranges and calculate overall number of entities in component list
         vector<int32> rangesVec;
-- 
2.43.0


From bfed4f69e2e95187a756d84dd7b2166cce3070dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:21 +0000
Subject: [PATCH 38/66] fix: letter case of labels and block ends in cdb files
 doesn't matter

---
 src/lib/FEReaders.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a6eb157..115910e 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -402,7 +402,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       while(!getLine(file, line).eof()) {
         // check for the end of nodal table
         char ch = sfirstNotBlank(line);
-        if (ch == '-' || ch == 'N') break;
+        if (ch == '-' || toupper(ch) == 'N') break;
 
         auto v = ssplit(line, widths, false);
         // column no. 1 - node number
@@ -473,7 +473,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       while(!getLine(file, line).eof()) {
         // check for the end of element table
         char ch = sfirstNotBlank(line);
-        if (ch == '-' || ch == 'N') break;
+        if (ch == '-' || toupper(ch) == 'N') break;
 
         auto v = ssplit(line, widths, false);
 
@@ -542,7 +542,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       }
       if (isNumeric) {
         // node and value field are number, we can deal with in. In other cases these can be 'all',
-        bnd.node_dof = Dof::label2dofType(t.tokens[2]);
+        bnd.node_dof = Dof::label2dofType(stoupper(t.tokens[2]));
         md.fixBcs.push_back(bnd);
       }
     }//D
@@ -563,7 +563,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         const int termsInRow = std::min(n_terms, 2);
         for (int i = 0; i < termsInRow; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
-          Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
+          Dof::dofType dof = Dof::label2dofType(stoupper(t.tokens[3 + 3 * i + 1]));
           double coef = t.tokenDouble(3 + 3 * i + 2);
           mpc->eq.push_back(MpcTerm(node,dof,coef));
           n_terms--;
@@ -698,7 +698,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         } else if (iequals(t.tokens[2], "FZ")) {
           bnd.node_dof = Dof::UZ;
         } else {
-          bnd.node_dof = Dof::label2dofType(t.tokens[2]);
+          bnd.node_dof = Dof::label2dofType(stoupper(t.tokens[2]));
         }
         md.loadBcs.push_back(bnd);
       }
-- 
2.43.0


From 60dd15a28eab7218e226bd35058bfb302247bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 39/66] fix: cdb lines with missing fields don't lead to out of
 bounds access

---
 src/lib/FEReaders.cpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 115910e..f4faab2 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -138,6 +138,10 @@ string& stoupper(string& str) {
 
 char sfirstNotBlank(const string& str) {
   size_t st = str.find_first_not_of(space_chars, 0);
+  if (st == string::npos) {
+    // there are only blanks
+    return '\0';
+  }
   return str[st];
 }
 
@@ -244,12 +248,12 @@ int Tokenizer::tokenize(const string& line) {
 
 
 int Tokenizer::tokenInt(size_t ind) {
-  return std::stoi(tokens[ind]);
+  return std::stoi(tokens.at(ind));
 }
 
 
 double Tokenizer::tokenDouble(size_t ind) {
-  return std::stod(tokens[ind]);
+  return std::stod(tokens.at(ind));
 }
 
 bool readNeuFile(std::string filename, MeshData& md)
@@ -405,6 +409,9 @@ bool readCdbFile(std::string filename, MeshData& md) {
         if (ch == '-' || toupper(ch) == 'N') break;
 
         auto v = ssplit(line, widths, false);
+        if (v.empty()) {
+          LOG(FATAL) << "Not enought fields to read a node";
+        }
         // column no. 1 - node number
         uint32 number = std::stoi(v[0]);
         // Vec is initialized with zeros by default
@@ -449,7 +456,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       The final line of the block will be a -1 in field 1. */
 
       //TODO: It seems that getline keeps windows line ending
-      bool isSolid = iequals(t.tokens[2], "SOLID");
+      bool isSolid = t.tokens.size() > 2 && iequals(t.tokens[2], "SOLID");
       // parse format string
       getLine(file, line);
       stolower(strim(line));
@@ -486,7 +493,10 @@ bool readCdbFile(std::string filename, MeshData& md) {
         uint32 SHAPE = 0;
         uint32 nNodes = 0;
         uint32 elNumber = 0;
-        size_t st = 0;
+        size_t st = isSolid ? 11 : 5;
+        if (v.size() < st) {
+          LOG(FATAL) << "Not enought fields to read an element";
+        }
         if (isSolid) {
           MAT = static_cast<uint32>(std::stoi(v[0]));
           ETYPE = static_cast<uint32>(std::stoi(v[1]));
@@ -496,7 +506,6 @@ bool readCdbFile(std::string filename, MeshData& md) {
           SHAPE = static_cast<uint32>(std::stoi(v[7]));
           nNodes = static_cast<uint32>(std::stoi(v[8]));
           elNumber = static_cast<uint32>(std::stoi(v[10]));
-          st = 11;
         } else {
           elNumber = static_cast<uint32>(std::stoi(v[0]));
           // based on my experiments on *.apdl files this field is about etype, but not about secnum
@@ -507,7 +516,6 @@ bool readCdbFile(std::string filename, MeshData& md) {
 
           // in this case we need to determine number of nodes by ourselfs
           nNodes = v.size() - 5;
-          st = 5;
         }
         vector<uint32> enodes;
         
@@ -563,7 +571,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         const int termsInRow = std::min(n_terms, 2);
         for (int i = 0; i < termsInRow; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
-          Dof::dofType dof = Dof::label2dofType(stoupper(t.tokens[3 + 3 * i + 1]));
+          Dof::dofType dof = Dof::label2dofType(stoupper(t.tokens.at(3 + 3 * i + 1)));
           double coef = t.tokenDouble(3 + 3 * i + 2);
           mpc->eq.push_back(MpcTerm(node,dof,coef));
           n_terms--;
@@ -578,12 +586,12 @@ bool readCdbFile(std::string filename, MeshData& md) {
       //      5037     -5341      6330     -6352      6355      6357      6433     -6456
       //      6459      6470     -6473      6537     -6556      6566     -6569      6633
       //     -6652
-      if (t.tokens[1][0] != '_') {
+      if (t.tokens.at(1)[0] != '_') {
         // we work only with component names started not with underscore '_'
         FEComponent comp;
         comp.name = t.tokens[1];
         // NODE or ELEMENT component?
-        comp.type = FEComponent::typeFromString(stoupper(t.tokens[2]));
+        comp.type = FEComponent::typeFromString(stoupper(t.tokens.at(2)));
 
         size_t numRanges = t.tokenInt(3);
         getLine(file, line);
@@ -621,7 +629,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
               v = ssplit(line, widths, false);
               in_row = 0;
            }
-           rangesVec.push_back(std::stoi(v[in_row]));
+           rangesVec.push_back(std::stoi(v.at(in_row)));
            if (rangesVec[all] > 0) {
               numEntity++;
            } else {
@@ -660,8 +668,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
       // future.
       try {
         type = t.tokenInt(1);
-      } catch (const std::invalid_argument& ia) {
-        type = static_cast<uint32>(apdlParameters[t.tokens[1]]);
+      } catch (const std::logic_error& e) {
+        type = t.tokens.size() > 1 ? static_cast<uint32>(apdlParameters[t.tokens[1]]) : 0;
       }
     } // ETYPE
     else if (iequals(t.tokens[0], "TYPE")) {
@@ -670,7 +678,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       // future.
       try {
         type = t.tokenInt(1);
-      } catch (const std::invalid_argument& ia) {
+      } catch (const std::logic_error& e) {
         type = 0;
       }
     } // ETYPE
@@ -713,10 +721,10 @@ bool readCdbFile(std::string filename, MeshData& md) {
       // try to read parameter's name and it's value as double
       // if fail - skip this expression
       try {
-        parName = t.tokens[1];
+        parName = t.tokens.at(1);
         value = t.tokenDouble(2);
         isNumeric = true;
-      } catch (const std::invalid_argument& ia) {
+      } catch (const std::logic_error& e) {
         isNumeric = false;
       }
       if(isNumeric) {
-- 
2.43.0


From e6f190e5a97d37f68495e4a9ac993a9803338ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 40/66] fix: damaged neu files are reported

---
 src/lib/FEReaders.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index f4faab2..bf06269 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -267,25 +267,24 @@ bool readNeuFile(std::string filename, MeshData& md)
   md.clear();
    
   // read nodes section 
-  int nodesCount;
+  int nodesCount = 0;
   file >> nodesCount;    
-  md.nodesPos.resize(nodesCount);
-  md.nodesNumbers.reserve(nodesCount);
   
-  for (int node_num(0); node_num < nodesCount; ++node_num) { 
+  for (int node_num(0); file && node_num < nodesCount; ++node_num) { 
+    Vec<3> pos;
     for (int col(0); col < 3; ++col) {
-      file >> md.nodesPos[node_num][col];
+      file >> pos[col];
     }
+    md.nodesPos.push_back(pos);
     md.nodesNumbers.push_back(node_num+1);
   }
   
   // read volumes section 
-  int volumesCount;
+  int volumesCount = 0;
   file >> volumesCount; 
-  md.cellNumbers.reserve(volumesCount);
   vector<uint32> enodes(4, 0);
-  for (uint32 volume_num(0); volume_num < volumesCount; ++volume_num) {
-    int mat_num;
+  for (int volume_num(0); file && volume_num < volumesCount; ++volume_num) {
+    int mat_num = 0;
     file >> mat_num;    
     md.cellIntData["MAT"].push_back(mat_num);
 
@@ -298,9 +297,9 @@ bool readNeuFile(std::string filename, MeshData& md)
   }
   
   // read surfaces section
-  int surfaceCount;
+  int surfaceCount = 0;
   file >> surfaceCount;  
-  for (int surfNum(0); surfNum < surfaceCount; ++surfNum) {
+  for (int surfNum(0); file && surfNum < surfaceCount; ++surfNum) {
     string compname;
     file >> compname;
     auto it = md.feComps.find(compname);
@@ -311,11 +310,15 @@ bool readNeuFile(std::string filename, MeshData& md)
       it = md.feComps.insert(std::make_pair(comp.name, comp)).first;
     }    
     for (int node_num(0); node_num < 3; ++node_num) { 
-      int node;
+      int node = 0;
       file >> node;
       it->second.list.push_back(node);
     }
   }
+  if (!file) {
+    LOG(WARNING) << "Neu file " << filename << " is damaged or incomplete";
+    return false;
+  }
   file.close();
   return true;
 }
-- 
2.43.0


From e0e3b922e6b3848c8a46ea536c437430171849bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 41/66] fix: permuted node numbers are compressed

---
 src/lib/FEReaders.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index bf06269..b58c43f 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -33,8 +33,15 @@ void MeshData::clear() {
 
 
 void MeshData::compressNumbers() {
-  // numbers should start from 1
-  if (nodesNumbers.size() == *std::max_element(nodesNumbers.begin(), nodesNumbers.end())) { 
+  // numbers should start from 1 and be in order
+  bool isCompressed = true;
+  for (uint32 i = 0; i < nodesNumbers.size(); i++) {
+    if (nodesNumbers[i] != i + 1) {
+      isCompressed = false;
+      break;
+    }
+  }
+  if (isCompressed) {
     // nothing to do
     return;
   }
-- 
2.43.0


From 726a0b8c1a919358c1f05fd1db989a23b64e6edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 42/66] fix: numbers of absent nodes are dropped from
 components when numbers are compressed

---
 src/lib/FEReaders.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index b58c43f..f99b4b5 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -82,9 +82,14 @@ void MeshData::compressNumbers() {
   for (auto& pair : feComps) {
     auto& comp = pair.second;
     if (comp.type == FEComponent::NODES) {
+      // component's ranges could contain numbers of nodes which don't exist
+      std::vector<uint32> newList;
+      newList.reserve(comp.list.size());
       for (auto& n : comp.list) {
-        n = old2new[n];
-      } 
+        auto it = old2new.find(n);
+        if (it != old2new.end()) newList.push_back(it->second);
+      }
+      comp.list.swap(newList);
     }
   }
 }
-- 
2.43.0


From 6fee98bd138255f2697721ea543a258767661ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 43/66] fix: unknown attribute selects no cells

---
 src/lib/FEReaders.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index f99b4b5..2d138f2 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -109,8 +109,13 @@ std::vector<uint32> MeshData::getDegeneratedCells() {
 
 std::vector<uint32> MeshData::getCellsByAttribute(std::string atr_name, uint32 atr_val) {
   std::vector<uint32> res;
+  auto it = cellIntData.find(atr_name);
+  if (it == cellIntData.end()) {
+    LOG(WARNING) << "Can't find cell attribute with name " << atr_name;
+    return res;
+  }
   for (size_t i = 0; i < cellNumbers.size(); i++) {
-    if (cellIntData[atr_name][i] == atr_val) {
+    if (it->second[i] == atr_val) {
       res.push_back(i);
     }
   }
-- 
2.43.0


From c682968a06221762c60b10739fb5fb413b526736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:26 +0000
Subject: [PATCH 44/66] fix: absent nodes are dropped from components of meshes
 with consecutive numbers too

---
 src/lib/FEReaders.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 2d138f2..5e5a1b0 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -34,17 +34,6 @@ void MeshData::clear() {
 
 void MeshData::compressNumbers() {
   // numbers should start from 1 and be in order
-  bool isCompressed = true;
-  for (uint32 i = 0; i < nodesNumbers.size(); i++) {
-    if (nodesNumbers[i] != i + 1) {
-      isCompressed = false;
-      break;
-    }
-  }
-  if (isCompressed) {
-    // nothing to do
-    return;
-  }
   std::map<uint32, uint32> old2new;
   uint32 nextNumber = 1;
   for (uint32 i = 0; i < nodesNumbers.size(); i++) {
-- 
2.43.0


From 761dedc36fe641a511fdd59d35da2b22a27967f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 45/66] fix: ReactionProcessor refuses node sets with different
 constrained dofs

---
 src/lib/ReactionProcessor.cpp | 268 +++++++++++++++++-----------------
 1 file changed, 134 insertions(+), 134 deletions(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 72ab1b7..cf8fc8d 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -1,134 +1,134 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#include "ReactionProcessor.h"
-#include "Node.h"
-
-namespace nla3d {
-
-ReactionProcessor::ReactionProcessor(FEStorage *st) : PostProcessor(st) {
-	name ="ReactionProcessor";
-}
-
-ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : PostProcessor(st) {
-	name ="ReactionProcessor";
-  filename = _filename;
-}
-
-void ReactionProcessor::pre() {
-	if (nodes.size() == 0) {
-    LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
-    return;
-  }
-
-  // define Dofs by the following rule:
-  // 1. If dofs is not empty than user alreade define which dof use to calculate reaction
-  // 2. If dofs.size() == 0 , select dof thich are constrained in current node set.
-  // if different nodes has different constrained dofs - error
-  if (dofs.size() == 0) {
-    for (uint16 d = 0; d < Dof::numberOfDofTypes; d++) {
-      Dof::dofType t = static_cast<Dof::dofType> (d);
-      if (storage->isNodeDofUsed(nodes[0], t) && storage->getNodeDof(nodes[0], t)->isConstrained) {
-        dofs.push_back(t);
-      } 
-    }
-    if (dofs.size() == 0) {
-      LOG(WARNING) << "Can't select dofs for reactions (they are unconstrained)";
-    } 
-    // check that others nodes have the same constrained dofs
-    bool sameDofsConstrained = true;
-    uint32 n = 0;
-    while (sameDofsConstrained && n < nodes.size()) {
-      for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) && !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
-          LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
-          sameDofsConstrained = false;
-          break;
-        }
-      }
-      n++;
-    }
-  } else {
-    // in case of user defined dofs just check that this dofs are used in the FE
-    bool dofsUsed = true;
-    uint32 n = 0;
-    while (dofsUsed && n < nodes.size()) {
-      for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d])) {
-          LOG(ERROR) << "some dofs are not used in FE calculations";
-          dofsUsed = false;
-          break;
-        }
-      }
-      n++;
-    }
-  }
-  if (filename.length() > 0) {
-    std::ofstream file(filename.c_str(),std::ios::trunc);
-    if (!file) {
-      LOG(WARNING) << "Can't create a file with name " << filename;
-      return;
-    }
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << Dof::dofTypeLabels[dofs[d]];
-    }
-    file << std::endl;
-    file << "0";
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << 0.0;
-    }
-    file << std::endl;
-    file.close();
-  }
-  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    //sumOfDofsReactions[d].reserve(qLoadstep+1);
-    sumOfDofsReactions[d].push_back(0.0);
-  }
-}
-
-void ReactionProcessor::process (uint16 curLoadstep) {
-  std::vector<double> reactions;
-  reactions.assign(dofs.size(), 0.0);
-
-	for (uint32 n = 0; n < nodes.size(); n++) {
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      reactions[d] += storage->getReaction(nodes[n],dofs[d]);
-    }
-  }
-
-  if (filename.length() > 0) {
-    std::ofstream file(filename.c_str(),std::ios::app);
-    if (!file) {
-      LOG(WARNING) << "Can't open a file with name " << filename;
-      return;
-    }
-    file << curLoadstep;
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << reactions[d];
-    }
-    file << std::endl;
-    file.close();
-  }
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    sumOfDofsReactions[d].push_back(reactions[d]);
-  }
-}
-
-
-void ReactionProcessor::post (uint16 curLoadstep) {
-}
-
-
-std::vector<double> ReactionProcessor::getReactions (Dof::dofType dof) {
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    if (dofs[d] == dof) {
-      return sumOfDofsReactions[d];
-    }
-  }
-  LOG(ERROR) << "There is not results for DoF = " << Dof::dofTypeLabels[dof];
-  return std::vector<double> ();
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#include "ReactionProcessor.h"
+#include "Node.h"
+
+namespace nla3d {
+
+ReactionProcessor::ReactionProcessor(FEStorage *st) : PostProcessor(st) {
+	name ="ReactionProcessor";
+}
+
+ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : PostProcessor(st) {
+	name ="ReactionProcessor";
+  filename = _filename;
+}
+
+void ReactionProcessor::pre() {
+	if (nodes.size() == 0) {
+    LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
+    return;
+  }
+
+  // define Dofs by the following rule:
+  // 1. If dofs is not empty than user alreade define which dof use to calculate reaction
+  // 2. If dofs.size() == 0 , select dof thich are constrained in current node set.
+  // if different nodes has different constrained dofs - error
+  if (dofs.size() == 0) {
+    for (uint16 d = 0; d < Dof::numberOfDofTypes; d++) {
+      Dof::dofType t = static_cast<Dof::dofType> (d);
+      if (storage->isNodeDofUsed(nodes[0], t) && storage->getNodeDof(nodes[0], t)->isConstrained) {
+        dofs.push_back(t);
+      } 
+    }
+    if (dofs.size() == 0) {
+      LOG(WARNING) << "Can't select dofs for reactions (they are unconstrained)";
+    } 
+    // check that others nodes have the same constrained dofs
+    bool sameDofsConstrained = true;
+    uint32 n = 0;
+    while (sameDofsConstrained && n < nodes.size()) {
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
+          LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
+          sameDofsConstrained = false;
+          break;
+        }
+      }
+      n++;
+    }
+  } else {
+    // in case of user defined dofs just check that this dofs are used in the FE
+    bool dofsUsed = true;
+    uint32 n = 0;
+    while (dofsUsed && n < nodes.size()) {
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d])) {
+          LOG(ERROR) << "some dofs are not used in FE calculations";
+          dofsUsed = false;
+          break;
+        }
+      }
+      n++;
+    }
+  }
+  if (filename.length() > 0) {
+    std::ofstream file(filename.c_str(),std::ios::trunc);
+    if (!file) {
+      LOG(WARNING) << "Can't create a file with name " << filename;
+      return;
+    }
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << Dof::dofTypeLabels[dofs[d]];
+    }
+    file << std::endl;
+    file << "0";
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << 0.0;
+    }
+    file << std::endl;
+    file.close();
+  }
+  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    //sumOfDofsReactions[d].reserve(qLoadstep+1);
+    sumOfDofsReactions[d].push_back(0.0);
+  }
+}
+
+void ReactionProcessor::process (uint16 curLoadstep) {
+  std::vector<double> reactions;
+  reactions.assign(dofs.size(), 0.0);
+
+	for (uint32 n = 0; n < nodes.size(); n++) {
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      reactions[d] += storage->getReaction(nodes[n],dofs[d]);
+    }
+  }
+
+  if (filename.length() > 0) {
+    std::ofstream file(filename.c_str(),std::ios::app);
+    if (!file) {
+      LOG(WARNING) << "Can't open a file with name " << filename;
+      return;
+    }
+    file << curLoadstep;
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << reactions[d];
+    }
+    file << std::endl;
+    file.close();
+  }
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    sumOfDofsReactions[d].push_back(reactions[d]);
+  }
+}
+
+
+void ReactionProcessor::post (uint16 curLoadstep) {
+}
+
+
+std::vector<double> ReactionProcessor::getReactions (Dof::dofType dof) {
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    if (dofs[d] == dof) {
+      return sumOfDofsReactions[d];
+    }
+  }
+  LOG(ERROR) << "There is not results for DoF = " << Dof::dofTypeLabels[dof];
+  return std::vector<double> ();
+}
+
+} // namespace nla3d
-- 
2.43.0


From b06e6f25b87064b649afa8591a7f1887d70f682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 46/66] fix: ReactionProcessor without nodes doesn't record out
 of bounds

---
 src/lib/ReactionProcessor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index cf8fc8d..70f7323 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -18,8 +18,10 @@ ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : Pos
 
 void ReactionProcessor::pre() {
 	if (nodes.size() == 0) {
-    LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
-    return;
+    LOG(WARNING) << "No nodes. Reactions are zero. Processor name = " << name;
+    if (dofs.size() == 0) {
+      return;
+    }
   }
 
   // define Dofs by the following rule:
-- 
2.43.0


From b3d308a70a41a5fd96814ca5f2d4c23b3aabb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 47/66] fix: ReactionProcessor records reactions when its file
 can not be written

---
 src/lib/ReactionProcessor.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 70f7323..4ccc6e9 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -66,6 +66,11 @@ void ReactionProcessor::pre() {
       n++;
     }
   }
+  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    //sumOfDofsReactions[d].reserve(qLoadstep+1);
+    sumOfDofsReactions[d].push_back(0.0);
+  }
   if (filename.length() > 0) {
     std::ofstream file(filename.c_str(),std::ios::trunc);
     if (!file) {
@@ -83,11 +88,6 @@ void ReactionProcessor::pre() {
     file << std::endl;
     file.close();
   }
-  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    //sumOfDofsReactions[d].reserve(qLoadstep+1);
-    sumOfDofsReactions[d].push_back(0.0);
-  }
 }
 
 void ReactionProcessor::process (uint16 curLoadstep) {
@@ -100,6 +100,10 @@ void ReactionProcessor::process (uint16 curLoadstep) {
     }
   }
 
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    sumOfDofsReactions[d].push_back(reactions[d]);
+  }
+
   if (filename.length() > 0) {
     std::ofstream file(filename.c_str(),std::ios::app);
     if (!file) {
@@ -113,9 +117,6 @@ void ReactionProcessor::process (uint16 curLoadstep) {
     file << std::endl;
     file.close();
   }
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    sumOfDofsReactions[d].push_back(reactions[d]);
-  }
 }
 
 
-- 
2.43.0


From c2959b3fde65c7e13f29907dc3f300ac0e3f782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 48/66] fix: line endings of the repaired files are those of
 the original

---
 src/lib/PostProcessor.h       |  104 +--
 src/lib/ReactionProcessor.cpp |  274 +++---
 src/lib/elements/element.h    |  874 ++++++++---------
 src/lib/materials/material.h  |  140 +--
 src/lib/math/Mat.h            | 1664 ++++++++++++++++-----------------
 5 files changed, 1528 insertions(+), 1528 deletions(-)

diff --git a/src/lib/PostProcessor.h b/src/lib/PostProcessor.h
index 63dff32..0add1cc 100755
--- a/src/lib/PostProcessor.h
+++ b/src/lib/PostProcessor.h
@@ -1,52 +1,52 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include "FEStorage.h"
-
-namespace nla3d {
-
-class FEStorage;
-class FESolver;
-
-//Data_Processor
-class PostProcessor {
-public:
-	PostProcessor(FEStorage *st);
-	virtual ~PostProcessor() { };
-	virtual void pre ()=0;
-	virtual void process (uint16 curLoadstep)=0;
-	virtual void post (uint16 curLoadstep)=0;
-	std::string getStatus ();
-	uint16 getnPost_num () {
-		return nPost_proc;
-	}
-	void setActive (bool act) {
-		if (failed) {
-			LOG(WARNING) << "PostProcessor " << nPost_proc << " (" << name << "): can't set active,"
-          << "because post_proc has been already failed";
-			return;
-		}
-		active = act;
-	}
-	bool getActive () {
-		return active;
-	}
-
-	uint16 getProc_num () {
-		return nPost_proc;
-	}
-
-	friend class FEStorage;
-	friend class FESolver;
-protected:
-	FEStorage *storage;
-	uint16 nPost_proc;
-	std::string name;
-	bool active;
-	bool failed;
-};
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include "FEStorage.h"
+
+namespace nla3d {
+
+class FEStorage;
+class FESolver;
+
+//Data_Processor
+class PostProcessor {
+public:
+	PostProcessor(FEStorage *st);
+	virtual ~PostProcessor() { };
+	virtual void pre ()=0;
+	virtual void process (uint16 curLoadstep)=0;
+	virtual void post (uint16 curLoadstep)=0;
+	std::string getStatus ();
+	uint16 getnPost_num () {
+		return nPost_proc;
+	}
+	void setActive (bool act) {
+		if (failed) {
+			LOG(WARNING) << "PostProcessor " << nPost_proc << " (" << name << "): can't set active,"
+          << "because post_proc has been already failed";
+			return;
+		}
+		active = act;
+	}
+	bool getActive () {
+		return active;
+	}
+
+	uint16 getProc_num () {
+		return nPost_proc;
+	}
+
+	friend class FEStorage;
+	friend class FESolver;
+protected:
+	FEStorage *storage;
+	uint16 nPost_proc;
+	std::string name;
+	bool active;
+	bool failed;
+};
+
+} // namespace nla3d
diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 4ccc6e9..7d0489c 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -1,137 +1,137 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#include "ReactionProcessor.h"
-#include "Node.h"
-
-namespace nla3d {
-
-ReactionProcessor::ReactionProcessor(FEStorage *st) : PostProcessor(st) {
-	name ="ReactionProcessor";
-}
-
-ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : PostProcessor(st) {
-	name ="ReactionProcessor";
-  filename = _filename;
-}
-
-void ReactionProcessor::pre() {
-	if (nodes.size() == 0) {
-    LOG(WARNING) << "No nodes. Reactions are zero. Processor name = " << name;
-    if (dofs.size() == 0) {
-      return;
-    }
-  }
-
-  // define Dofs by the following rule:
-  // 1. If dofs is not empty than user alreade define which dof use to calculate reaction
-  // 2. If dofs.size() == 0 , select dof thich are constrained in current node set.
-  // if different nodes has different constrained dofs - error
-  if (dofs.size() == 0) {
-    for (uint16 d = 0; d < Dof::numberOfDofTypes; d++) {
-      Dof::dofType t = static_cast<Dof::dofType> (d);
-      if (storage->isNodeDofUsed(nodes[0], t) && storage->getNodeDof(nodes[0], t)->isConstrained) {
-        dofs.push_back(t);
-      } 
-    }
-    if (dofs.size() == 0) {
-      LOG(WARNING) << "Can't select dofs for reactions (they are unconstrained)";
-    } 
-    // check that others nodes have the same constrained dofs
-    bool sameDofsConstrained = true;
-    uint32 n = 0;
-    while (sameDofsConstrained && n < nodes.size()) {
-      for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
-          LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
-          sameDofsConstrained = false;
-          break;
-        }
-      }
-      n++;
-    }
-  } else {
-    // in case of user defined dofs just check that this dofs are used in the FE
-    bool dofsUsed = true;
-    uint32 n = 0;
-    while (dofsUsed && n < nodes.size()) {
-      for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d])) {
-          LOG(ERROR) << "some dofs are not used in FE calculations";
-          dofsUsed = false;
-          break;
-        }
-      }
-      n++;
-    }
-  }
-  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    //sumOfDofsReactions[d].reserve(qLoadstep+1);
-    sumOfDofsReactions[d].push_back(0.0);
-  }
-  if (filename.length() > 0) {
-    std::ofstream file(filename.c_str(),std::ios::trunc);
-    if (!file) {
-      LOG(WARNING) << "Can't create a file with name " << filename;
-      return;
-    }
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << Dof::dofTypeLabels[dofs[d]];
-    }
-    file << std::endl;
-    file << "0";
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << 0.0;
-    }
-    file << std::endl;
-    file.close();
-  }
-}
-
-void ReactionProcessor::process (uint16 curLoadstep) {
-  std::vector<double> reactions;
-  reactions.assign(dofs.size(), 0.0);
-
-	for (uint32 n = 0; n < nodes.size(); n++) {
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      reactions[d] += storage->getReaction(nodes[n],dofs[d]);
-    }
-  }
-
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    sumOfDofsReactions[d].push_back(reactions[d]);
-  }
-
-  if (filename.length() > 0) {
-    std::ofstream file(filename.c_str(),std::ios::app);
-    if (!file) {
-      LOG(WARNING) << "Can't open a file with name " << filename;
-      return;
-    }
-    file << curLoadstep;
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << reactions[d];
-    }
-    file << std::endl;
-    file.close();
-  }
-}
-
-
-void ReactionProcessor::post (uint16 curLoadstep) {
-}
-
-
-std::vector<double> ReactionProcessor::getReactions (Dof::dofType dof) {
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    if (dofs[d] == dof) {
-      return sumOfDofsReactions[d];
-    }
-  }
-  LOG(ERROR) << "There is not results for DoF = " << Dof::dofTypeLabels[dof];
-  return std::vector<double> ();
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#include "ReactionProcessor.h"
+#include "Node.h"
+
+namespace nla3d {
+
+ReactionProcessor::ReactionProcessor(FEStorage *st) : PostProcessor(st) {
+	name ="ReactionProcessor";
+}
+
+ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : PostProcessor(st) {
+	name ="ReactionProcessor";
+  filename = _filename;
+}
+
+void ReactionProcessor::pre() {
+	if (nodes.size() == 0) {
+    LOG(WARNING) << "No nodes. Reactions are zero. Processor name = " << name;
+    if (dofs.size() == 0) {
+      return;
+    }
+  }
+
+  // define Dofs by the following rule:
+  // 1. If dofs is not empty than user alreade define which dof use to calculate reaction
+  // 2. If dofs.size() == 0 , select dof thich are constrained in current node set.
+  // if different nodes has different constrained dofs - error
+  if (dofs.size() == 0) {
+    for (uint16 d = 0; d < Dof::numberOfDofTypes; d++) {
+      Dof::dofType t = static_cast<Dof::dofType> (d);
+      if (storage->isNodeDofUsed(nodes[0], t) && storage->getNodeDof(nodes[0], t)->isConstrained) {
+        dofs.push_back(t);
+      } 
+    }
+    if (dofs.size() == 0) {
+      LOG(WARNING) << "Can't select dofs for reactions (they are unconstrained)";
+    } 
+    // check that others nodes have the same constrained dofs
+    bool sameDofsConstrained = true;
+    uint32 n = 0;
+    while (sameDofsConstrained && n < nodes.size()) {
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
+          LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
+          sameDofsConstrained = false;
+          break;
+        }
+      }
+      n++;
+    }
+  } else {
+    // in case of user defined dofs just check that this dofs are used in the FE
+    bool dofsUsed = true;
+    uint32 n = 0;
+    while (dofsUsed && n < nodes.size()) {
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d])) {
+          LOG(ERROR) << "some dofs are not used in FE calculations";
+          dofsUsed = false;
+          break;
+        }
+      }
+      n++;
+    }
+  }
+  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    //sumOfDofsReactions[d].reserve(qLoadstep+1);
+    sumOfDofsReactions[d].push_back(0.0);
+  }
+  if (filename.length() > 0) {
+    std::ofstream file(filename.c_str(),std::ios::trunc);
+    if (!file) {
+      LOG(WARNING) << "Can't create a file with name " << filename;
+      return;
+    }
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << Dof::dofTypeLabels[dofs[d]];
+    }
+    file << std::endl;
+    file << "0";
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << 0.0;
+    }
+    file << std::endl;
+    file.close();
+  }
+}
+
+void ReactionProcessor::process (uint16 curLoadstep) {
+  std::vector<double> reactions;
+  reactions.assign(dofs.size(), 0.0);
+
+	for (uint32 n = 0; n < nodes.size(); n++) {
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      reactions[d] += storage->getReaction(nodes[n],dofs[d]);
+    }
+  }
+
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    sumOfDofsReactions[d].push_back(reactions[d]);
+  }
+
+  if (filename.length() > 0) {
+    std::ofstream file(filename.c_str(),std::ios::app);
+    if (!file) {
+      LOG(WARNING) << "Can't open a file with name " << filename;
+      return;
+    }
+    file << curLoadstep;
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << reactions[d];
+    }
+    file << std::endl;
+    file.close();
+  }
+}
+
+
+void ReactionProcessor::post (uint16 curLoadstep) {
+}
+
+
+std::vector<double> ReactionProcessor::getReactions (Dof::dofType dof) {
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    if (dofs[d] == dof) {
+      return sumOfDofsReactions[d];
+    }
+  }
+  LOG(ERROR) << "There is not results for DoF = " << Dof::dofTypeLabels[dof];
+  return std::vector<double> ();
+}
+
+} // namespace nla3d
diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index d1ace57..0bb3ceb 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -1,437 +1,437 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include <vector>
-#include <math.h>
-#include <initializer_list>
-#include <Eigen/Dense>
-
-#include "query.h"
-#include "Node.h"
-#include "math/Vec.h"
-#include "math/Mat.h"
-
-namespace nla3d {
-
-//pre-defines
-class Material;
-class FEStorage;
-
-
-// Element shapes are taken from vtk-file-formats.pdf
-enum ElementShape {
-  VERTEX = 0,
-  TWIN_VERTEX,
-  LINE,
-  TRIANGLE,
-  QUAD,
-  TETRA,
-  HEXAHEDRON,
-  WEDGE,
-  PYRAMID,
-  QUADRARIC_EDGE,
-  QUADRATIC_TRIANGLE,
-  QUADRATIC_QUAD,
-  QUADRATIC_TETRA,
-  QUADRARIC_HEXAHEDRON,
-  UNDEFINED
-};
-
-// number of dimensions in shape
-static const uint16 _shape_dim[] = {
-  0,  // VERTEX
-  0,  // TWIN_VERTEX
-  1,  // LINE
-  2,  // TRIANGLE
-  2,  // QUAD
-  3,  // TETRA
-  3,  // HEXAHEDRON
-  3,  // WEDGE
-  3,  // PYRAMID
-  2,  // QUADRARIC_EDGE
-  2,  // QUADRATIC_TRIANGLE
-  2,  // QUADRATIC_QUAD
-  3,  // QUADRATIC_TETRA
-  3   // QUADRARIC_HEXAHEDRON
-};
-
-
-// number of nodes in shape
-static const uint16 _shape_nnodes[] = {
-  1,  // VERTEX,
-  2,  // TWIN_VERTEX
-  2,  // LINE
-  3,  // TRIANGLE
-  4,  // QUAD
-  4,  // TETRA
-  8,  // HEXAHEDRON
-  6,  // WEDGE
-  5,  // PYRAMID
-  3,  // QUADRARIC_EDGE
-  6,  // QUADRATIC_TRIANGLE
-  8,  // QUADRATIC_QUAD
-  10, // QUADRATIC_TETRA
-  20  // QUADRARIC_HEXAHEDRON
-};
-
-
-// Element base class
-// All FE should be derived from that class. The class provide interface for building stiffness,
-// damping and inertia matrices (methods buildK(), buildC(), buildM()), for get element results
-// (methods getScalar(...), getVector(...), getTensor(...)), for update element state after solution
-// iteration (method update()).
-class Element {
-  public: 
-    Element ();
-    virtual ~Element();
-
-    // get element number, as it is stored in FEStorage. Numbers start from 1.
-    uint32 getElNum();
-    // return number of nodes for the element
-    uint16 getNNodes();
-    // return number of dimensions (0D, 1D, 2D, 3D) occupied by element shape. 
-    uint16 getDim();
-    // return element shape
-    ElementShape getShape();
-    // return element type
-    ElementType getType();
-    // return node number (as it stored in FEStorage) of the i-th node in the element
-    uint32& getNodeNumber (uint16 num);
-    // return the FEStorage to which element belongs
-    FEStorage& getStorage();
-    // return order of integration scheme used in the particular element for integration over volume
-    uint16 getIntegrationOrder();
-    // set the integration order for the element
-    void setIntegrationOrder(uint16 _nint); // нельзя вызывать после выполнения функции pre() (начало решения)
-
-    // heart of the element class
-    // TODO: comment massively here
-    virtual void pre()=0;
-    virtual void buildK()=0;
-    virtual void buildC();
-    virtual void buildM();
-    virtual void update()=0;
-
-    // The methods below are getters to receive solution information related to elements (like
-    // stresses, strains, volume and so on). The first argument is a pointer on return value. Please
-    // note, that result of the function times scale will be added to the pointer's value (*scalar
-    // += result * scale, in particular case). query is a value from enum shows with particular
-    // result should be returned. gp is a number of Gaussian point, if gp == GP_MEAN then the
-    // result will be averaged over the element based on current integration scheme.
-    // The methods return true if the query is relevant for the element and false if the element
-    // can't return asked query code.
-    virtual bool getScalar(double* scalar, scalarQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-    virtual bool getVector(math::Vec<3>* vector, vectorQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-    virtual bool getTensor(math::MatSym<3>* tensor, tensorQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-
-    Element& operator= (const Element& from);
-
-    //in-out operation:
-    void print (std::ostream& out);
-
-    // some general purpose assemble procedures. Particular element realization could have it own
-    // assembly procedure.
-    template <uint16 dimM>
-    void assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs);
-    template <uint16 dimM>
-    void assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs);
-    template <uint16 dimM>
-    void assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs);
-
-    template <uint16 dimM>
-    void assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe,
-                   std::initializer_list<Dof::dofType> _nodeDofs);
-
-    void assembleK(Eigen::Ref<Eigen::MatrixXd> Ke, std::initializer_list<Dof::dofType> _nodeDofs);
-
-    friend class FEStorage;
-  protected:
-
-    ElementType type = ElementType::UNDEFINED;
-    ElementShape shape = ElementShape::UNDEFINED;
-    uint16 intOrder = 0; // number of int points overall
-    uint32 elNum = 0;
-    uint32 *nodes = nullptr;
-    FEStorage* storage = nullptr;
-};
-
-
-//Element geometry class
-class ElementVERTEX : public Element {
-  public:
-    ElementVERTEX() {
-      shape = ElementShape::VERTEX;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementVERTEX& operator= (const ElementVERTEX& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementTWIN_VERTEX : public Element {
-  public:
-    ElementTWIN_VERTEX() {
-      shape = ElementShape::TWIN_VERTEX;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTWIN_VERTEX& operator= (const ElementTWIN_VERTEX& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementLINE : public Element {
-  public:
-    ElementLINE() {
-      shape = ElementShape::LINE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementLINE& operator= (const ElementLINE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementTRIANGLE : public Element {
-  public:
-    ElementTRIANGLE() {
-      shape = ElementShape::TRIANGLE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTRIANGLE& operator= (const ElementTRIANGLE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementQUAD : public Element {
-  public:
-    ElementQUAD () {
-      shape = ElementShape::QUAD;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementQUAD& operator= (const ElementQUAD& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementTETRA : public Element {
-  public:
-    ElementTETRA() {
-      shape = ElementShape::TETRA;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTETRA& operator= (const ElementTETRA& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementHEXAHEDRON : public Element {
-  public:
-    ElementHEXAHEDRON() {
-      shape = ElementShape::HEXAHEDRON;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementHEXAHEDRON& operator= (const ElementHEXAHEDRON& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementWEDGE : public Element {
-  public:
-    ElementWEDGE() {
-      shape = ElementShape::WEDGE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementWEDGE& operator= (const ElementWEDGE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-} // namespace nla3d
-
-// 'dirty' hack to avoid include loops (element-vs-festorage)
-#include "FEStorage.h"
-
-namespace nla3d {
-
-template <uint16 dimM>
-void Element::assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ke_p = Ke.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
-            Ke_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ce_p = Ce.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ce_p);
-            Ce_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Me_p = Me.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
-            Me_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ke_p = Ke.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
-            Ke_p++;
-          }
-        }
-      }
-    }
-  }
-
-  double* Fe_p = Fe.ptr();
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-            storage->addValueF(nodes[i], nodeDof[di], *Fe_p);
-            Fe_p++;
-    }
-  }
-}
-
-
-inline uint16 Element::getNNodes() {
-  return _shape_nnodes[shape];
-}
-
-
-inline uint16 Element::getDim() {
-  return _shape_dim[shape];
-}
-
-
-inline ElementShape Element::getShape() {
-  return shape;
-}
-
-inline ElementType Element::getType() {
-  return type;
-
-}
-
-
-// & is used here because this function is called such this:
-// el->getNodeNumber(0) = 1234;
-inline uint32& Element::getNodeNumber(uint16 num) {
-  assert(num < getNNodes());
-  assert(nodes);
-  return nodes[num];
-}
-
-
-inline uint16 Element::getIntegrationOrder() {
-  return intOrder;
-}
-
-
-inline void Element::setIntegrationOrder(uint16 _nint) {
-  intOrder = _nint; 
-}
-
-
-inline FEStorage& Element::getStorage() {
-  return *storage;
-}
-
-
-inline uint32 Element::getElNum() {
-  return elNum;
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include <vector>
+#include <math.h>
+#include <initializer_list>
+#include <Eigen/Dense>
+
+#include "query.h"
+#include "Node.h"
+#include "math/Vec.h"
+#include "math/Mat.h"
+
+namespace nla3d {
+
+//pre-defines
+class Material;
+class FEStorage;
+
+
+// Element shapes are taken from vtk-file-formats.pdf
+enum ElementShape {
+  VERTEX = 0,
+  TWIN_VERTEX,
+  LINE,
+  TRIANGLE,
+  QUAD,
+  TETRA,
+  HEXAHEDRON,
+  WEDGE,
+  PYRAMID,
+  QUADRARIC_EDGE,
+  QUADRATIC_TRIANGLE,
+  QUADRATIC_QUAD,
+  QUADRATIC_TETRA,
+  QUADRARIC_HEXAHEDRON,
+  UNDEFINED
+};
+
+// number of dimensions in shape
+static const uint16 _shape_dim[] = {
+  0,  // VERTEX
+  0,  // TWIN_VERTEX
+  1,  // LINE
+  2,  // TRIANGLE
+  2,  // QUAD
+  3,  // TETRA
+  3,  // HEXAHEDRON
+  3,  // WEDGE
+  3,  // PYRAMID
+  2,  // QUADRARIC_EDGE
+  2,  // QUADRATIC_TRIANGLE
+  2,  // QUADRATIC_QUAD
+  3,  // QUADRATIC_TETRA
+  3   // QUADRARIC_HEXAHEDRON
+};
+
+
+// number of nodes in shape
+static const uint16 _shape_nnodes[] = {
+  1,  // VERTEX,
+  2,  // TWIN_VERTEX
+  2,  // LINE
+  3,  // TRIANGLE
+  4,  // QUAD
+  4,  // TETRA
+  8,  // HEXAHEDRON
+  6,  // WEDGE
+  5,  // PYRAMID
+  3,  // QUADRARIC_EDGE
+  6,  // QUADRATIC_TRIANGLE
+  8,  // QUADRATIC_QUAD
+  10, // QUADRATIC_TETRA
+  20  // QUADRARIC_HEXAHEDRON
+};
+
+
+// Element base class
+// All FE should be derived from that class. The class provide interface for building stiffness,
+// damping and inertia matrices (methods buildK(), buildC(), buildM()), for get element results
+// (methods getScalar(...), getVector(...), getTensor(...)), for update element state after solution
+// iteration (method update()).
+class Element {
+  public: 
+    Element ();
+    virtual ~Element();
+
+    // get element number, as it is stored in FEStorage. Numbers start from 1.
+    uint32 getElNum();
+    // return number of nodes for the element
+    uint16 getNNodes();
+    // return number of dimensions (0D, 1D, 2D, 3D) occupied by element shape. 
+    uint16 getDim();
+    // return element shape
+    ElementShape getShape();
+    // return element type
+    ElementType getType();
+    // return node number (as it stored in FEStorage) of the i-th node in the element
+    uint32& getNodeNumber (uint16 num);
+    // return the FEStorage to which element belongs
+    FEStorage& getStorage();
+    // return order of integration scheme used in the particular element for integration over volume
+    uint16 getIntegrationOrder();
+    // set the integration order for the element
+    void setIntegrationOrder(uint16 _nint); // нельзя вызывать после выполнения функции pre() (начало решения)
+
+    // heart of the element class
+    // TODO: comment massively here
+    virtual void pre()=0;
+    virtual void buildK()=0;
+    virtual void buildC();
+    virtual void buildM();
+    virtual void update()=0;
+
+    // The methods below are getters to receive solution information related to elements (like
+    // stresses, strains, volume and so on). The first argument is a pointer on return value. Please
+    // note, that result of the function times scale will be added to the pointer's value (*scalar
+    // += result * scale, in particular case). query is a value from enum shows with particular
+    // result should be returned. gp is a number of Gaussian point, if gp == GP_MEAN then the
+    // result will be averaged over the element based on current integration scheme.
+    // The methods return true if the query is relevant for the element and false if the element
+    // can't return asked query code.
+    virtual bool getScalar(double* scalar, scalarQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+    virtual bool getVector(math::Vec<3>* vector, vectorQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+    virtual bool getTensor(math::MatSym<3>* tensor, tensorQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+
+    Element& operator= (const Element& from);
+
+    //in-out operation:
+    void print (std::ostream& out);
+
+    // some general purpose assemble procedures. Particular element realization could have it own
+    // assembly procedure.
+    template <uint16 dimM>
+    void assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs);
+    template <uint16 dimM>
+    void assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs);
+    template <uint16 dimM>
+    void assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs);
+
+    template <uint16 dimM>
+    void assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe,
+                   std::initializer_list<Dof::dofType> _nodeDofs);
+
+    void assembleK(Eigen::Ref<Eigen::MatrixXd> Ke, std::initializer_list<Dof::dofType> _nodeDofs);
+
+    friend class FEStorage;
+  protected:
+
+    ElementType type = ElementType::UNDEFINED;
+    ElementShape shape = ElementShape::UNDEFINED;
+    uint16 intOrder = 0; // number of int points overall
+    uint32 elNum = 0;
+    uint32 *nodes = nullptr;
+    FEStorage* storage = nullptr;
+};
+
+
+//Element geometry class
+class ElementVERTEX : public Element {
+  public:
+    ElementVERTEX() {
+      shape = ElementShape::VERTEX;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementVERTEX& operator= (const ElementVERTEX& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementTWIN_VERTEX : public Element {
+  public:
+    ElementTWIN_VERTEX() {
+      shape = ElementShape::TWIN_VERTEX;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTWIN_VERTEX& operator= (const ElementTWIN_VERTEX& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementLINE : public Element {
+  public:
+    ElementLINE() {
+      shape = ElementShape::LINE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementLINE& operator= (const ElementLINE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementTRIANGLE : public Element {
+  public:
+    ElementTRIANGLE() {
+      shape = ElementShape::TRIANGLE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTRIANGLE& operator= (const ElementTRIANGLE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementQUAD : public Element {
+  public:
+    ElementQUAD () {
+      shape = ElementShape::QUAD;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementQUAD& operator= (const ElementQUAD& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementTETRA : public Element {
+  public:
+    ElementTETRA() {
+      shape = ElementShape::TETRA;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTETRA& operator= (const ElementTETRA& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementHEXAHEDRON : public Element {
+  public:
+    ElementHEXAHEDRON() {
+      shape = ElementShape::HEXAHEDRON;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementHEXAHEDRON& operator= (const ElementHEXAHEDRON& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementWEDGE : public Element {
+  public:
+    ElementWEDGE() {
+      shape = ElementShape::WEDGE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementWEDGE& operator= (const ElementWEDGE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+} // namespace nla3d
+
+// 'dirty' hack to avoid include loops (element-vs-festorage)
+#include "FEStorage.h"
+
+namespace nla3d {
+
+template <uint16 dimM>
+void Element::assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ke_p = Ke.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
+            Ke_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ce_p = Ce.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ce_p);
+            Ce_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Me_p = Me.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
+            Me_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ke_p = Ke.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
+            Ke_p++;
+          }
+        }
+      }
+    }
+  }
+
+  double* Fe_p = Fe.ptr();
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+            storage->addValueF(nodes[i], nodeDof[di], *Fe_p);
+            Fe_p++;
+    }
+  }
+}
+
+
+inline uint16 Element::getNNodes() {
+  return _shape_nnodes[shape];
+}
+
+
+inline uint16 Element::getDim() {
+  return _shape_dim[shape];
+}
+
+
+inline ElementShape Element::getShape() {
+  return shape;
+}
+
+inline ElementType Element::getType() {
+  return type;
+
+}
+
+
+// & is used here because this function is called such this:
+// el->getNodeNumber(0) = 1234;
+inline uint32& Element::getNodeNumber(uint16 num) {
+  assert(num < getNNodes());
+  assert(nodes);
+  return nodes[num];
+}
+
+
+inline uint16 Element::getIntegrationOrder() {
+  return intOrder;
+}
+
+
+inline void Element::setIntegrationOrder(uint16 _nint) {
+  intOrder = _nint; 
+}
+
+
+inline FEStorage& Element::getStorage() {
+  return *storage;
+}
+
+
+inline uint32 Element::getElNum() {
+  return elNum;
+}
+
+} // namespace nla3d
diff --git a/src/lib/materials/material.h b/src/lib/materials/material.h
index b1ec8d6..058fe02 100755
--- a/src/lib/materials/material.h
+++ b/src/lib/materials/material.h
@@ -1,70 +1,70 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include <string>
-#include "math/Vec.h"
-#include "math/Mat.h"
-
-namespace nla3d {
-
-class MaterialFactory;
-
-// Material must have named material constants
-class Material {
-public:
-	Material () : MC(NULL), numC(0), code(0) { 
-	}
-	Material (uint16 num_c);
-	virtual ~Material()
-	{
-		if (MC) delete[] MC; 
-		MC = NULL;
-	}
-
-	virtual std::string toString();
-
-	std::string getName();
-	uint16 getCode ();
-  // constants getters
-	double& Ci (uint16 i);
-	double& Ci (const std::string& nameConst);
-	uint16 getNumC ();
-
-	static const double I[6];
-
-  friend class MaterialFactory;
-protected:
-	void register_mat_const(uint16 num, ...);
-	double* MC;
-	std::vector<std::string> MC_names;
-	uint16 numC;
-	uint16 code;
-	std::string name;
-};
-
-
-// ---=== FUNCTIONS ===--- //
-inline std::string Material::getName()
-{
-	return name;
-}
-
-inline uint16 Material::getCode ()
-{
-	return code;
-}
-
-inline double& Material::Ci (uint16 i)
-{
-	assert(i < numC);
-	return MC[i];
-}
-
-inline uint16 Material::getNumC ()
-{
-	return numC;
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include <string>
+#include "math/Vec.h"
+#include "math/Mat.h"
+
+namespace nla3d {
+
+class MaterialFactory;
+
+// Material must have named material constants
+class Material {
+public:
+	Material () : MC(NULL), numC(0), code(0) { 
+	}
+	Material (uint16 num_c);
+	virtual ~Material()
+	{
+		if (MC) delete[] MC; 
+		MC = NULL;
+	}
+
+	virtual std::string toString();
+
+	std::string getName();
+	uint16 getCode ();
+  // constants getters
+	double& Ci (uint16 i);
+	double& Ci (const std::string& nameConst);
+	uint16 getNumC ();
+
+	static const double I[6];
+
+  friend class MaterialFactory;
+protected:
+	void register_mat_const(uint16 num, ...);
+	double* MC;
+	std::vector<std::string> MC_names;
+	uint16 numC;
+	uint16 code;
+	std::string name;
+};
+
+
+// ---=== FUNCTIONS ===--- //
+inline std::string Material::getName()
+{
+	return name;
+}
+
+inline uint16 Material::getCode ()
+{
+	return code;
+}
+
+inline double& Material::Ci (uint16 i)
+{
+	assert(i < numC);
+	return MC[i];
+}
+
+inline uint16 Material::getNumC ()
+{
+	return numC;
+}
+
+} // namespace nla3d
diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index e874032..bdd4de6 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -1,832 +1,832 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include <iostream>
-#include "math/Vec.h"
-
-#ifdef NLA3D_USE_BLAS
-  #include <mkl.h>
-#endif
-
-namespace nla3d {
-namespace math {
-
-template<uint16 dimM, uint16 dimN>
-class Mat
-{
-public:
-	Mat() {
-		assert(dimM && dimN);
-	}
-	Mat(double first, ...) {
-		assert(dimM && dimN);
-		va_list argp;
-		va_start(argp, first);
-		for (uint16 i=0; i < dimM; i++)
-			for (uint16 j=0; j < dimN; j++)
-			{
-				if (i == 0 && j == 0) data[i][j]=first;
-				else data[i][j]=va_arg(argp, double);
-			}
-		va_end(argp);
-	}
-	~Mat() { }
-
-	Vec<dimN>& operator[] (uint16 n);
-	const Vec<dimN>& operator[] (uint16 n) const;
-	Mat<dimN,dimM> transpose ();
-	void display ();
-	Mat operator+ (const Mat &op);
-	Mat& operator+= (const Mat &op);
-	Mat operator- () const;
-	Mat& operator= (const Mat &op);
-	Mat<dimM,1>& operator= (const Vec<dimM> &op); //TODO: CHECK this operation
-	Mat operator- (const Mat &op) const;
-	Mat operator* (const double op);
-	void Identity ();
-	void zero ();
-	double det();
-	Vec<dimM> eigenvalues();
-	Mat<dimM,dimN> inv(double det);
-	Mat<dimM-1,dimN-1> cross_cut (uint16 cuti, uint16 cutj);
-    std::string toString ();
-	double* ptr ();
-	bool compare (const Mat<dimM,dimN> &B, double eps = 1.0e-5);
-	void simple_read (std::istream &st);
-	//friend функции
-	template <uint16 dimM1, uint16 dimN1> 
-	friend std::ostream& operator<< (std::ostream& stream, const Mat<dimM1,dimN1> &obj);
-	template <uint16 dimM1, uint16 dimN1, uint16 dimM2, uint16 dimN2> 
-    friend Mat<dimM1,dimN2> operator* (const Mat<dimM1,dimN1> &op1, const Mat<dimM2,dimN2> &op2);
-	template <uint16 dimM1, uint16 dimN1, uint16 dimM2> 
-    friend Vec<dimM1> operator* (const Mat<dimM1,dimN1> &op1, const Vec<dimM2> &op2);
-    // template<uint16 dimM1, uint16 dimN1>
-    // friend bool matCompare (const Mat<dimM1, dimN>& mat1, const Mat<dimM1, dimN1>& mat2, const double eps);
-
-    uint16 dM() const {
-      return dimM;
-    }
-
-    uint16 dN() const {
-      return dimN;
-    }
-
-	Vec<dimN> data[dimM];
-private:
-    //data was moved from here to public
-};
-
-//---------operator<<----------------------------------------------------------
-template<uint16 dimM, uint16 dimN> std::ostream &operator<<(std::ostream &stream, const Mat<dimM,dimN> &obj) {
-	for (uint16 i = 0; i < dimM; i++) {
-		stream << "[" << obj.data[i] << "]" << std::endl;
-	}
-	return stream;
-}
-
-//----------operator[]---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-inline Vec<dimN>& Mat<dimM,dimN>::operator[] (uint16 n) {
-		assert(n < dimM);
-		return data[n];
-}
-template<uint16 dimM, uint16 dimN>
-inline const Vec<dimN>& Mat<dimM,dimN>::operator[] (uint16 n) const {
-	assert(n < dimM);
-	return data[n];
-}
-//----------Identity ()---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-void Mat<dimM,dimN>::Identity () {
-	assert (dimM==dimN);
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			if (i==j)
-				data[i][j]=1.0f;
-			else
-				data[i][j]=0.0f;
-}
-//----------zero()---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-void Mat<dimM,dimN>::zero() {
-	memset(data,0,sizeof(double)*dimM*dimN);
-}
-//-------------display()------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-void Mat<dimM,dimN>::display() {
-	for (unsigned int i = 0; i < dimM; i++) {
-		std::cout << "[";
-		data[i].display();
-		std::cout << "]" << std::endl;
-	} 
-}
-//----------transpose()-------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimN,dimM> Mat<dimM,dimN>::transpose () {
-	Mat<dimN,dimM> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[j][i]=this->data[i][j];
-	return p;
-}
-//----------operator+(Mat)---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN> Mat<dimM,dimN>::operator+ (const Mat<dimM,dimN> &op) {
-	Mat<dimM,dimN> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[i][j]=this->data[i][j]+op.data[i][j];
-	return p;
-}
-//----------operator-()---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN> Mat<dimM,dimN>::operator- () const {
-	Mat<dimM,dimN> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[i][j] = -this->data[i][j];
-	return p;
-}
-//----------operator-(Mat)---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN> Mat<dimM,dimN>::operator- (const Mat<dimM,dimN> &op) const {
-	Mat<dimM,dimN> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[i][j]=this->data[i][j]-op.data[i][j];
-	return p;
-}
-//-----------operator*(double)----------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN> Mat<dimM,dimN>::operator*(const double op)
-{
-	Mat<dimM,dimN> p;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			p[i][j]=this->data[i][j]*op;
-	return p;
-}
-//----------operator+=---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN>& Mat<dimM,dimN>::operator+= (const Mat<dimM,dimN> &op) {
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			this->data[i][j]+=op.data[i][j];
-	return *this;
-}
-//----------operator=(Mat)---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,dimN>& Mat<dimM,dimN>::operator= (const Mat<dimM,dimN> &op)
-{
-	for (uint16 i = 0; i < dimM; i++)
-		this->data[i]=op.data[i];
-	return *this;
-}
-//----------operator=(Vec)---------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-Mat<dimM,1>& Mat<dimM,dimN>::operator= (const Vec<dimM> &op)
-{
-	assert(dimN == 1); //только для матрицы-столбца
-	for (uint16 i = 0; i < dimM; i++)
-		this->data[i][0] = op[i];
-	return *this;
-}
-//----------operator*(Mat)---------------------------------------------------------
-template<uint16 dimM1, uint16 dimN1, uint16 dimM2, uint16 dimN2> Mat<dimM1,dimN2> operator*(const Mat<dimM1,dimN1> &op1, const Mat<dimM2,dimN2> &op2) {
-	assert(dimN1 == dimM2);
-	Mat<dimM1, dimN2> p;
-	double element;
-	double *ptr1 = (double*) op1.data;
-	double *ptr2 = (double*) op2.data;
-	for (uint16 i=0; i < dimM1; i++)
-		for (uint16 j=0; j < dimN2; j++)
-		{
-			element=0.0f;
-			for (uint16 l=0; l < dimN1; l++) element+=ptr1[i*dimN1+l]*ptr2[l*dimN2+j];
-				//(op1.data[i])[l]*(op2.data[l])[j];
-			p[i][j]=element;
-		}
-	return p;
-
-
-	//assert(dimN == dimM2);
-	//Mat<dimM, dimN2> p;
-	//double element;
-	//for (uint16 i=0; i < dimM; i++)
-	//	for (uint16 j=0; j < dimN2; j++)
-	//	{
-	//		element=0.0f;
-	//		for (uint16 l=0; l < dimN; l++) element+=(op1.data[i])[l]*(op2.data[l])[j];
-	//		p[i][j]=element;
-	//	}
-	//return p;
-}
-//-----------operator*(Vec)---------------------------------------------------------
-template <uint16 dimM1, uint16 dimN1, uint16 dimM2> Vec<dimM1> operator* (const Mat<dimM1,dimN1> &op1, const Vec<dimM2> &op2) {
-	assert(dimN1==dimM2);
-	Vec<dimM1> p;
-	double el;
-	for (uint16 i=0; i < dimM1; i++)
-	{
-		el = 0.0f;
-		for (uint16 j=0; j < dimN1; j++)
-			el += op1.data[i][j]*op2[j];
-		p[i] = el;
-	}
-	return p;
-}
-//--------------------------------------------------------------------------------
-template<uint16 dimM, uint16 dimN>
-std::string Mat<dimM,dimN>::toString()
-{
-    std::string p;
-	for (unsigned int i = 0; i < dimM; i++) {
-		p+= "[";
-		p+=data[i].toString();
-		p+= "]";
-		if (i!=dimM-1) p+= "\n";
-	} 
-	return p;
-}
-//-------------------------------------------------------------------------------
-template<> double Mat<1,1>::det();
-template<> double Mat<2,2>::det();
-template<> double Mat<3,3>::det();
-
-template<uint16 dimM, uint16 dimN>
-double Mat<dimM,dimN>::det()
-{
-	//разложение по строке i=0
-	assert(dimM == dimN);
-	double det = 0.0;
-	double koef = 1;
-	for (uint16 j=0; j < dimN; j++)
-	{
-		Mat<dimM-1,dimM-1> tmp;
-		det += koef*data[0][j]*cross_cut(0,j).det();
-		koef *= -1;
-	}
-	return det;
-}
-
-template<> Mat<1, 1> Mat<1,1>::inv(double det);
-template<> Mat<2, 2> Mat<2,2>::inv(double det);
-template<> Mat<3, 3> Mat<3,3>::inv(double det);
-
-template<uint16 dimM, uint16 dimN>
-Mat<dimM, dimN> Mat<dimM,dimN>::inv(double det)
-{
-	//через матрицу алг. дополнений
-	assert(dimM == dimN);
-	Mat<dimM,dimN> C;
-	for (uint16 i=0; i < dimM; i++)
-		for (uint16 j=0; j < dimN; j++)
-			C[i][j] = npow(-1,i+j)*cross_cut(i,j).det();  //CHECK
-	C = C.transpose()*(1/det);
-	return C;
-}
-
-template<uint16 dimM, uint16 dimN>
-Mat<dimM-1,dimN-1> Mat<dimM,dimN>::cross_cut (uint16 cuti, uint16 cutj)
-{
-	Mat<dimM-1, dimN-1> tmp;
-	for (uint16 ii=0; ii < dimM-1; ii++)
-		for (uint16 jj=0; jj < dimN-1; jj++)
-			tmp[ii][jj] = data[(ii>=cuti)?ii+1:ii][(jj>=cutj)?jj+1:jj];
-	return tmp;
-}
-template<uint16 dimM, uint16 dimN>
-Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
-{
-	assert(dimM == 3 && dimN == 3); //TODO: пока только для матриц 3 на 3
-	double I1 = data[0][0] + data[1][1] + data[2][2];
-	double I2 = data[0][0]*data[1][1] + data[1][1]*data[2][2] + data[0][0]*data[2][2] - 
-		data[0][1]*data[0][1] - data[0][2]*data[0][2] - data[1][2]*data[1][2];
-	double I3 = data[0][0]*data[1][1]*data[2][2] + 2*data[0][1]*data[1][2]*data[0][2] - 
-		data[0][0]*data[1][2]*data[1][2]-data[1][1]*data[0][2]*data[0][2]-data[2][2]*data[0][1]*data[0][1];
-
-	double a = -I1;
-	double b = I2;
-	double c = -I3;
-	 // код из http://ru.wikipedia.org/wiki/%D0%A2%D1%80%D0%B8%D0%B3%D0%BE%D0%BD%D0%BE%D0%BC%D0%B5%D1%82%D1%80%D0%B8%D1%87%D0%B5%D1%81%D0%BA%D0%B0%D1%8F_%D1%84%D0%BE%D1%80%D0%BC%D1%83%D0%BB%D0%B0_%D0%92%D0%B8%D0%B5%D1%82%D0%B0
-	// для трех вещественных корней
-	// x*x*x + a * x * x + b * x  + c == 0
-	double p = b - a * a / 3;
-	double q = 2 * a * a * a / 27 - a * b / 3 + c;
-	double A = sqrt(fmax(- 4 * p / 3, 0.0)); 
-	double A3 = A * A * A;
- 
-	// A == 0 if all eigenvalues are equal
-	double c3phi = (A3 > 0.0) ? - 4 * q / A3 : 1.0;
-	// for equal eigenvalues rounding errors can lead c3phi out of [-1, 1]
-	c3phi = fmin(fmax(c3phi, -1.0), 1.0);
- 
-	double phi = acos(c3phi) / 3;  
- 
-	double root1 = A * cos(phi) - a / 3;
-	double root2 = A * cos(phi + 2 * M_PI / 3) - a / 3;
-	double root3 = A * cos(phi - 2 * M_PI / 3) - a / 3;
-
-	//сортируем
-	double s1,s2,s3;
-	if (root1 > root2 && root1 > root3)
-	{
-		s1 = root1;
-		if (root2 > root3)
-		{
-			s2 = root2;
-			s3 = root3;
-		}
-		else
-		{
-			s2 = root3;
-			s3 = root2;
-		}
-	}
-	else if (root2 > root1 && root2 > root3)
-	{
-		s1 = root2;
-		if (root1 > root3)
-		{
-			s2 = root1;
-			s3 = root3;
-		}
-		else
-		{
-			s2 = root3;
-			s3 = root1;
-		}
-	}
-	else
-	{
-		s1 = root3;
-		if (root1 > root2)
-		{
-			s2 = root1;
-			s3 = root2;
-		}
-		else
-		{
-			s2 = root2;
-			s3 = root1;
-		}
-	}
-	return Vec<3>(s1,s2,s3);
-}
-
-template<uint16 dimM, uint16 dimN>
-double* Mat<dimM,dimN>::ptr ()
-{
-	return data[0].ptr();
-}
-
-
-template<uint16 dimM, uint16 dimN>
-bool Mat<dimM,dimN>::compare (const Mat<dimM,dimN> &B, double eps) {
-	double *Dp = (double*) data;
-	// double *Bp = B.ptr();
-    double *Bp = (double*) B.data;
-	for (uint16 i = 0; i < dimM; i++) {
-		for (uint16 j = 0; j < dimN; j++) {
-			if (fabs(*Dp-*Bp) > eps) {
-        LOG(INFO) << "Mat[" << i << "][" << j << "]: " << *Dp << " != " << *Bp;
-				return false;
-			}
-			Dp++;
-			Bp++;
-		}
-	}
-	return true;
-}
-
-
-template<uint16 dimM, uint16 dimN>
-void Mat<dimM,dimN>::simple_read (std::istream &st)
-{
-	double *Bp = (double*) data;
-	for (uint16 i=0;i<dimM;i++)
-	{
-		for (uint16 j=0;j<dimN;j++)
-		{
-			st >> *Bp;
-			Bp++;
-		}
-	}
-}
-
-
-class dMat;
-class dMat_interface
-{
-public:
-	dMat_interface ():ptr(NULL),M(0),N(0),row(0) 
-	{	}
-	double& operator[] (uint16 col)
-	{
-		assert(ptr);
-		assert (col < N);
-		assert (row < M);
-		return ptr[row*N + col];
-	}
-	friend class dMat;
-private:
-	uint16 M, N;
-	uint32 row;
-	double *ptr;
-};
-
-//dynamic matrix to pass arbitrary matrix to functions as arguments
-class dMat
-{
-public:
-	dMat(uint16 dim_m, uint16 dim_n) : dimM(0),dimN(0),data(NULL)
-	{
-		if (dim_m && dim_n)
-			resize(dim_m, dim_n);
-	}
-	dMat(uint16 dim_m, uint16 dim_n, double first, ...) : dimM(0),dimN(0),data(NULL) {
-    va_list argp;
-		if (dim_m && dim_n)
-		{
-			resize(dim_m, dim_n);
-			va_start(argp, first);
-			data[0] = first;
-			for (uint16 i=1; i < dimM*dimN; i++)
-				data[i]=va_arg(argp, double);
-			va_end(argp);
-		}
-	}
-	dMat(const dMat &from) : dimM(0),dimN(0),data(NULL)
-	{
-		operator=(from);
-	}
-	dMat_interface& operator[] (uint16 row) {
-        //TODO: it seems unsafe for parallel read access to dMat..
-		dmat_int.row = row;
-		return dmat_int;
-	}
-	void resize (uint16 dim_m, uint16 dim_n)
-	{
-		if (data) delete[] data;
-		data = new double[dim_m*dim_n];
-		dmat_int.ptr = data;
-		dmat_int.M = dim_m;
-		dmat_int.N = dim_n;
-		dimM = dim_m;
-		dimN = dim_n;
-		zero();
-	}
-
-	void fill (double first, ...) {
-		va_list argp;
-		va_start(argp, first);
-		data[0] = first;
-		for (uint16 i=1; i < dimM*dimN; i++)
-			data[i]=va_arg(argp, double);
-		va_end(argp);
-	}
-	~dMat()
-	{
-		if (data) delete[] data;
-		data = NULL;
-	}
-
-	void zero ()
-	{
-		memset(data,0,sizeof(double)*dimM*dimN);
-	}
-	template <uint16 M, uint16 N> Mat<M,N> toMat();
-	template <uint16 M> Vec<M> toVec(uint16 col=0);
-	template <uint16 M, uint16 N> void cpMat(Mat<M,N> &mat);
-	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
-	dMat& operator= (const dMat &from)
-	{
-		if (this == &from)
-			return *this;
-		resize(from.dimM, from.dimN);
-		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
-		return *this;
-	}
-
-	uint16 dM ()
-	{
-		return dimM;
-	}
-	uint16 dN ()
-	{
-		return dimN;
-	}
-
-    double* ptr()
-    {
-        return data;
-    }
-
-	friend std::ostream& operator<< (std::ostream& stream, dMat &obj);
-private:
-	uint16 dimM;
-	uint16 dimN;
-	double *data;
-	dMat_interface dmat_int;
-};
-
-
-//копирует dMat в правый верхний угол Mat<M,N>
-template <uint16 M, uint16 N>
-Mat<M,N> dMat::toMat()
-{
-	assert(M >= dimM && N >= dimN); //Mat >= dMat
-	Mat<M,N> tmp;
-	tmp.zero();
-	for (uint16 i = 0; i < dimM; i++)
-		for (uint16 j = 0; j < dimN; j++)
-			tmp[i][j] = (*this)[i][j];
-	return tmp;
-}
-
-template <uint16 M> 
-Vec<M> dMat::toVec(uint16 col)
-{
-	assert(M >= dimM && dimN > col); //Vec >= dMat по M 
-	Vec<M> tmp;
-	for (uint16 i = 0; i < dimM; i++)
-		tmp[i] = (*this)[i][col];
-	return tmp;
-}
-
-template <uint16 M, uint16 N> 
-void dMat::cpMat(Mat<M,N> &mat)
-{
-	assert(dimM >= M && dimN >= N); //dMat >= Mat
-	for (uint16 i = 0; i < M; i++)
-		for (uint16 j = 0; j < N; j++)
-			(*this)[i][j] = mat[i][j];
-}
-
-//функция копирует вектор в столбец col матрицы dMat
-// col - от нуля
-template <uint16 M> 
-void dMat::cpVec(Vec<M> &vec, uint16 col)
-{
-	assert(dimM >= M && dimN > col);
-	for (uint16 i = 0; i < M; i++)
-		(*this)[i][col] = vec[i];
-}
-
-
-//-------------------------------------------------------------
-//	MatSym
-//-------------------------------------------------------------
-template<uint16 dimM>
-class MatSym {
-public:
-	MatSym () {
-		assert(dimM);
-	}
-	double* ptr() {
-		return data;
-	}
-
-	const double* ptr() const {
-		return data;
-	}
-
-	void zero() {
-		memset((void*) data, 0, sizeof(double)*getLength());
-	}
-	
-  // indexing from 0
-	double& comp (uint16 i, uint16 j) {
-		uint16 b;
-		if (i > j) {
-			b = j;
-			j = i;
-			i = b;
-		}
-		b = (2*dimM-(i-1))/2*i + (j-i);
-		b = dimM*i - (i-1)*i/2 + (j-i);
-		return data[b];
-	}
-	
-	uint16 getLength () {
-		return dimM*(dimM+1)/2;
-	}
-  Mat<dimM, dimM> toMat();
-	void simple_read (std::istream &st);
-	bool compare (MatSym<dimM> &B, double eps = 1.0e-5);
-	MatSym& operator+= (const MatSym &op);
-    uint16 dM() const {
-      return dimM;
-    }
-    uint16 dN() const {
-      return dimM;
-    }
-
-	double data[dimM*(dimM+1)/2];
-};
-
-template<uint16 dimM>
-void MatSym<dimM>::simple_read (std::istream &st)
-{
-	double *Bp = (double*) data;
-	uint16 l = getLength();
-	for (uint16 i=0;i<l;i++)
-	{
-			st >> *Bp;
-			Bp++;
-	}
-}
-
-template<uint16 dimM>
-bool MatSym<dimM>::compare (MatSym<dimM> &B, double eps)
-{
-	double *Dp = (double*) data;
-	double *Bp = B.ptr();
-	uint16 l = getLength();
-	for (uint16 i=0;i<l;i++)
-	{
-		if (fabs(*Dp-*Bp) > eps) {
-			return false;
-		}
-		Dp++;
-		Bp++;
-	}
-	return true;
-}
-
-template<uint16 dimM>
-Mat<dimM, dimM> MatSym<dimM>::toMat() {
-  uint16 ind = 0;
-  Mat<dimM,dimM> mat;
-  for (uint16 i = 0; i < dimM; i++) {
-    for (uint16 j = i; j < dimM; j++) {
-      mat[i][j] = data[ind];
-      mat[j][i] = data[ind];
-      ind++;
-    }
-  }
-  return mat;
-}
-
-
-template<uint16 dimM>
-MatSym<dimM>& MatSym<dimM>::operator+= (const MatSym<dimM> &op) {
-  double* thisp = this->ptr();
-  const double* opp = op.ptr();
-  for (uint16 i = 0; i < getLength(); i++) {
-    *thisp += *opp;
-    thisp++;
-    opp++;
-  }
-
-	return *this;
-}
-
-// [R] = coef * [B]^T*[D]*[B]
-// coef - double scalar
-// [B] - common matrix (dimM x dimN)
-// [D] - symmetric matrix (dimM x dimM)
-// [R] - symmetrix matrix (dimN x dimN)
-template<uint16 dimM,uint16 dimN>
-void matBTDBprod (Mat<dimM,dimN> &B, MatSym<dimM> &D, double coef, MatSym<dimN> &R) 
-{
-	Mat<dimN,dimM> A;
-	A.zero();
-	double *Ap = A.ptr();
-	double *Bp = B.ptr();
-	double *Dp = D.ptr();
-	double *Rp = R.ptr();
-	uint16 i,j,k;
-
-	//A = BT*D
-		// BT*Du + BT*Dd
-	for (k=0;k<dimM;k++)
-	{
-		j = k; // include diag elem
-		while (j < dimM)
-		{
-			for (i=0;i<dimN;i++)
-			{
-				Ap[i*dimM+j] += Bp[k*dimN+i]*(*Dp);
-			}
-			Dp++;
-			j++;
-		}
-	}
-		// BT*DuT
-		Dp = D.ptr();
-	for (j=0;j<dimM;j++)
-	{
-		k = j + 1; Dp++; //leave the diagonal
-		while (k < dimM)
-		{
-			for (i=0;i<dimN;i++)
-			{
-				Ap[i*dimM+j] += Bp[k*dimN+i]*(*Dp);
-			}
-			Dp++;
-			k++;
-		}
-	}
-
-	//R = A*B
-	for (i=0;i<dimN;i++)
-	{
-		for (j=i;j<dimN;j++)
-		{
-			for (k=0;k<dimM;k++)
-			{
-				*Rp += Ap[i*dimM+k]*Bp[k*dimN+j]*coef;
-			}
-			Rp++;
-		}
-	}
-
-}
-
-
-template<uint16 dimM,uint16 dimN>
-void matBTVprod(Mat<dimM,dimN> &B, Vec<dimM> &V, double coef, Vec<dimN> &R)
-{
-#ifndef NLA3D_USE_BLAS
-	double *Bp = B.ptr();
-	uint16 i,j;
-	for (i=0;i<dimN;i++)
-		for (j=0;j<dimM;j++)
-			R[i] += Bp[j*dimN+i]*V[j]*coef;
-#else
-  cblas_dgemv(CblasRowMajor, CblasTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
-#endif
-}
-
-template<uint16 dimM,uint16 dimN>
-void matBVprod(Mat<dimM,dimN> &B,Vec<dimN> &V, double coef, Vec<dimM> &R) {
-#ifndef NLA3D_USE_BLAS
-	double *Bp = B.ptr();
-	uint16 i,j;
-	for (i=0;i<dimM;i++)
-		for (j=0;j<dimN;j++)
-			R[i] += Bp[i*dimN+j]*V[j]*coef;
-#else
-  cblas_dgemv(CblasRowMajor, CblasNoTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
-#endif
-}
-
-template<uint16 dimM>
-void matBVprod(MatSym<dimM> &B,Vec<dimM> &V, double coef, Vec<dimM> &R) {
-  // TODO: this this inefficient version
-  // convert to regular matrix
-  Mat<dimM, dimM> mB = B.toMat();
-	double *Bp = mB.ptr();
-	uint16 i,j;
-	for (i=0;i<dimM;i++)
-		for (j=0;j<dimM;j++)
-			R[i] += Bp[i*dimM+j]*V[j]*coef;
-}
-
-
-template<uint16 dimM1,uint16 dimN1,uint16 dimN2>
-void matABprod(Mat<dimM1,dimN1> &A, Mat<dimN1,dimN2> &B, const double coef, Mat<dimM1,dimN2> &R) {
-#ifndef NLA3D_USE_BLAS
-	uint16 i,j,k;
-	double *Rp = R.ptr();
-	double *Ap = A.ptr();
-	double *Bp = B.ptr();
-	for (i=0;i<dimM1;i++) {
-		for (j=0;j<dimN2;j++) {
-			for (k=0;k<dimN1;k++)
-				*Rp += Ap[i*dimN1+k]*Bp[k*dimN2+j]*coef;
-			Rp++;
-		}
-	}
-#else
-  cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, dimM1, dimN2, dimN1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
-#endif
-}
-
-template<uint16 dimM1,uint16 dimN1,uint16 dimN2>
-void matATBprod(Mat<dimM1,dimN1> &A, Mat<dimM1,dimN2> &B, const double coef, Mat<dimN1,dimN2> &R)  {
-#ifndef NLA3D_USE_BLAS
-	uint16 i,j,k;
-	double *Rp = R.ptr();
-	double *Ap = A.ptr();
-	double *Bp = B.ptr();
-	for (i=0;i<dimN1;i++)
-	{
-		for (j=0;j<dimN2;j++)
-		{
-			for (k=0;k<dimM1;k++)
-				*Rp += Ap[k*dimN1+i]*Bp[k*dimN2+j]*coef;
-			Rp++;
-		}
-	}
-#else
-  cblas_dgemm(CblasRowMajor, CblasTrans, CblasNoTrans, dimN1, dimN2, dimM1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
-#endif
-}
-
-} // namespace math
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include <iostream>
+#include "math/Vec.h"
+
+#ifdef NLA3D_USE_BLAS
+  #include <mkl.h>
+#endif
+
+namespace nla3d {
+namespace math {
+
+template<uint16 dimM, uint16 dimN>
+class Mat
+{
+public:
+	Mat() {
+		assert(dimM && dimN);
+	}
+	Mat(double first, ...) {
+		assert(dimM && dimN);
+		va_list argp;
+		va_start(argp, first);
+		for (uint16 i=0; i < dimM; i++)
+			for (uint16 j=0; j < dimN; j++)
+			{
+				if (i == 0 && j == 0) data[i][j]=first;
+				else data[i][j]=va_arg(argp, double);
+			}
+		va_end(argp);
+	}
+	~Mat() { }
+
+	Vec<dimN>& operator[] (uint16 n);
+	const Vec<dimN>& operator[] (uint16 n) const;
+	Mat<dimN,dimM> transpose ();
+	void display ();
+	Mat operator+ (const Mat &op);
+	Mat& operator+= (const Mat &op);
+	Mat operator- () const;
+	Mat& operator= (const Mat &op);
+	Mat<dimM,1>& operator= (const Vec<dimM> &op); //TODO: CHECK this operation
+	Mat operator- (const Mat &op) const;
+	Mat operator* (const double op);
+	void Identity ();
+	void zero ();
+	double det();
+	Vec<dimM> eigenvalues();
+	Mat<dimM,dimN> inv(double det);
+	Mat<dimM-1,dimN-1> cross_cut (uint16 cuti, uint16 cutj);
+    std::string toString ();
+	double* ptr ();
+	bool compare (const Mat<dimM,dimN> &B, double eps = 1.0e-5);
+	void simple_read (std::istream &st);
+	//friend функции
+	template <uint16 dimM1, uint16 dimN1> 
+	friend std::ostream& operator<< (std::ostream& stream, const Mat<dimM1,dimN1> &obj);
+	template <uint16 dimM1, uint16 dimN1, uint16 dimM2, uint16 dimN2> 
+    friend Mat<dimM1,dimN2> operator* (const Mat<dimM1,dimN1> &op1, const Mat<dimM2,dimN2> &op2);
+	template <uint16 dimM1, uint16 dimN1, uint16 dimM2> 
+    friend Vec<dimM1> operator* (const Mat<dimM1,dimN1> &op1, const Vec<dimM2> &op2);
+    // template<uint16 dimM1, uint16 dimN1>
+    // friend bool matCompare (const Mat<dimM1, dimN>& mat1, const Mat<dimM1, dimN1>& mat2, const double eps);
+
+    uint16 dM() const {
+      return dimM;
+    }
+
+    uint16 dN() const {
+      return dimN;
+    }
+
+	Vec<dimN> data[dimM];
+private:
+    //data was moved from here to public
+};
+
+//---------operator<<----------------------------------------------------------
+template<uint16 dimM, uint16 dimN> std::ostream &operator<<(std::ostream &stream, const Mat<dimM,dimN> &obj) {
+	for (uint16 i = 0; i < dimM; i++) {
+		stream << "[" << obj.data[i] << "]" << std::endl;
+	}
+	return stream;
+}
+
+//----------operator[]---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+inline Vec<dimN>& Mat<dimM,dimN>::operator[] (uint16 n) {
+		assert(n < dimM);
+		return data[n];
+}
+template<uint16 dimM, uint16 dimN>
+inline const Vec<dimN>& Mat<dimM,dimN>::operator[] (uint16 n) const {
+	assert(n < dimM);
+	return data[n];
+}
+//----------Identity ()---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+void Mat<dimM,dimN>::Identity () {
+	assert (dimM==dimN);
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			if (i==j)
+				data[i][j]=1.0f;
+			else
+				data[i][j]=0.0f;
+}
+//----------zero()---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+void Mat<dimM,dimN>::zero() {
+	memset(data,0,sizeof(double)*dimM*dimN);
+}
+//-------------display()------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+void Mat<dimM,dimN>::display() {
+	for (unsigned int i = 0; i < dimM; i++) {
+		std::cout << "[";
+		data[i].display();
+		std::cout << "]" << std::endl;
+	} 
+}
+//----------transpose()-------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimN,dimM> Mat<dimM,dimN>::transpose () {
+	Mat<dimN,dimM> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[j][i]=this->data[i][j];
+	return p;
+}
+//----------operator+(Mat)---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN> Mat<dimM,dimN>::operator+ (const Mat<dimM,dimN> &op) {
+	Mat<dimM,dimN> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[i][j]=this->data[i][j]+op.data[i][j];
+	return p;
+}
+//----------operator-()---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN> Mat<dimM,dimN>::operator- () const {
+	Mat<dimM,dimN> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[i][j] = -this->data[i][j];
+	return p;
+}
+//----------operator-(Mat)---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN> Mat<dimM,dimN>::operator- (const Mat<dimM,dimN> &op) const {
+	Mat<dimM,dimN> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[i][j]=this->data[i][j]-op.data[i][j];
+	return p;
+}
+//-----------operator*(double)----------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN> Mat<dimM,dimN>::operator*(const double op)
+{
+	Mat<dimM,dimN> p;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			p[i][j]=this->data[i][j]*op;
+	return p;
+}
+//----------operator+=---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN>& Mat<dimM,dimN>::operator+= (const Mat<dimM,dimN> &op) {
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			this->data[i][j]+=op.data[i][j];
+	return *this;
+}
+//----------operator=(Mat)---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,dimN>& Mat<dimM,dimN>::operator= (const Mat<dimM,dimN> &op)
+{
+	for (uint16 i = 0; i < dimM; i++)
+		this->data[i]=op.data[i];
+	return *this;
+}
+//----------operator=(Vec)---------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+Mat<dimM,1>& Mat<dimM,dimN>::operator= (const Vec<dimM> &op)
+{
+	assert(dimN == 1); //только для матрицы-столбца
+	for (uint16 i = 0; i < dimM; i++)
+		this->data[i][0] = op[i];
+	return *this;
+}
+//----------operator*(Mat)---------------------------------------------------------
+template<uint16 dimM1, uint16 dimN1, uint16 dimM2, uint16 dimN2> Mat<dimM1,dimN2> operator*(const Mat<dimM1,dimN1> &op1, const Mat<dimM2,dimN2> &op2) {
+	assert(dimN1 == dimM2);
+	Mat<dimM1, dimN2> p;
+	double element;
+	double *ptr1 = (double*) op1.data;
+	double *ptr2 = (double*) op2.data;
+	for (uint16 i=0; i < dimM1; i++)
+		for (uint16 j=0; j < dimN2; j++)
+		{
+			element=0.0f;
+			for (uint16 l=0; l < dimN1; l++) element+=ptr1[i*dimN1+l]*ptr2[l*dimN2+j];
+				//(op1.data[i])[l]*(op2.data[l])[j];
+			p[i][j]=element;
+		}
+	return p;
+
+
+	//assert(dimN == dimM2);
+	//Mat<dimM, dimN2> p;
+	//double element;
+	//for (uint16 i=0; i < dimM; i++)
+	//	for (uint16 j=0; j < dimN2; j++)
+	//	{
+	//		element=0.0f;
+	//		for (uint16 l=0; l < dimN; l++) element+=(op1.data[i])[l]*(op2.data[l])[j];
+	//		p[i][j]=element;
+	//	}
+	//return p;
+}
+//-----------operator*(Vec)---------------------------------------------------------
+template <uint16 dimM1, uint16 dimN1, uint16 dimM2> Vec<dimM1> operator* (const Mat<dimM1,dimN1> &op1, const Vec<dimM2> &op2) {
+	assert(dimN1==dimM2);
+	Vec<dimM1> p;
+	double el;
+	for (uint16 i=0; i < dimM1; i++)
+	{
+		el = 0.0f;
+		for (uint16 j=0; j < dimN1; j++)
+			el += op1.data[i][j]*op2[j];
+		p[i] = el;
+	}
+	return p;
+}
+//--------------------------------------------------------------------------------
+template<uint16 dimM, uint16 dimN>
+std::string Mat<dimM,dimN>::toString()
+{
+    std::string p;
+	for (unsigned int i = 0; i < dimM; i++) {
+		p+= "[";
+		p+=data[i].toString();
+		p+= "]";
+		if (i!=dimM-1) p+= "\n";
+	} 
+	return p;
+}
+//-------------------------------------------------------------------------------
+template<> double Mat<1,1>::det();
+template<> double Mat<2,2>::det();
+template<> double Mat<3,3>::det();
+
+template<uint16 dimM, uint16 dimN>
+double Mat<dimM,dimN>::det()
+{
+	//разложение по строке i=0
+	assert(dimM == dimN);
+	double det = 0.0;
+	double koef = 1;
+	for (uint16 j=0; j < dimN; j++)
+	{
+		Mat<dimM-1,dimM-1> tmp;
+		det += koef*data[0][j]*cross_cut(0,j).det();
+		koef *= -1;
+	}
+	return det;
+}
+
+template<> Mat<1, 1> Mat<1,1>::inv(double det);
+template<> Mat<2, 2> Mat<2,2>::inv(double det);
+template<> Mat<3, 3> Mat<3,3>::inv(double det);
+
+template<uint16 dimM, uint16 dimN>
+Mat<dimM, dimN> Mat<dimM,dimN>::inv(double det)
+{
+	//через матрицу алг. дополнений
+	assert(dimM == dimN);
+	Mat<dimM,dimN> C;
+	for (uint16 i=0; i < dimM; i++)
+		for (uint16 j=0; j < dimN; j++)
+			C[i][j] = npow(-1,i+j)*cross_cut(i,j).det();  //CHECK
+	C = C.transpose()*(1/det);
+	return C;
+}
+
+template<uint16 dimM, uint16 dimN>
+Mat<dimM-1,dimN-1> Mat<dimM,dimN>::cross_cut (uint16 cuti, uint16 cutj)
+{
+	Mat<dimM-1, dimN-1> tmp;
+	for (uint16 ii=0; ii < dimM-1; ii++)
+		for (uint16 jj=0; jj < dimN-1; jj++)
+			tmp[ii][jj] = data[(ii>=cuti)?ii+1:ii][(jj>=cutj)?jj+1:jj];
+	return tmp;
+}
+template<uint16 dimM, uint16 dimN>
+Vec<dimM>  Mat<dimM,dimN>::eigenvalues()
+{
+	assert(dimM == 3 && dimN == 3); //TODO: пока только для матриц 3 на 3
+	double I1 = data[0][0] + data[1][1] + data[2][2];
+	double I2 = data[0][0]*data[1][1] + data[1][1]*data[2][2] + data[0][0]*data[2][2] - 
+		data[0][1]*data[0][1] - data[0][2]*data[0][2] - data[1][2]*data[1][2];
+	double I3 = data[0][0]*data[1][1]*data[2][2] + 2*data[0][1]*data[1][2]*data[0][2] - 
+		data[0][0]*data[1][2]*data[1][2]-data[1][1]*data[0][2]*data[0][2]-data[2][2]*data[0][1]*data[0][1];
+
+	double a = -I1;
+	double b = I2;
+	double c = -I3;
+	 // код из http://ru.wikipedia.org/wiki/%D0%A2%D1%80%D0%B8%D0%B3%D0%BE%D0%BD%D0%BE%D0%BC%D0%B5%D1%82%D1%80%D0%B8%D1%87%D0%B5%D1%81%D0%BA%D0%B0%D1%8F_%D1%84%D0%BE%D1%80%D0%BC%D1%83%D0%BB%D0%B0_%D0%92%D0%B8%D0%B5%D1%82%D0%B0
+	// для трех вещественных корней
+	// x*x*x + a * x * x + b * x  + c == 0
+	double p = b - a * a / 3;
+	double q = 2 * a * a * a / 27 - a * b / 3 + c;
+	double A = sqrt(fmax(- 4 * p / 3, 0.0)); 
+	double A3 = A * A * A;
+ 
+	// A == 0 if all eigenvalues are equal
+	double c3phi = (A3 > 0.0) ? - 4 * q / A3 : 1.0;
+	// for equal eigenvalues rounding errors can lead c3phi out of [-1, 1]
+	c3phi = fmin(fmax(c3phi, -1.0), 1.0);
+ 
+	double phi = acos(c3phi) / 3;  
+ 
+	double root1 = A * cos(phi) - a / 3;
+	double root2 = A * cos(phi + 2 * M_PI / 3) - a / 3;
+	double root3 = A * cos(phi - 2 * M_PI / 3) - a / 3;
+
+	//сортируем
+	double s1,s2,s3;
+	if (root1 > root2 && root1 > root3)
+	{
+		s1 = root1;
+		if (root2 > root3)
+		{
+			s2 = root2;
+			s3 = root3;
+		}
+		else
+		{
+			s2 = root3;
+			s3 = root2;
+		}
+	}
+	else if (root2 > root1 && root2 > root3)
+	{
+		s1 = root2;
+		if (root1 > root3)
+		{
+			s2 = root1;
+			s3 = root3;
+		}
+		else
+		{
+			s2 = root3;
+			s3 = root1;
+		}
+	}
+	else
+	{
+		s1 = root3;
+		if (root1 > root2)
+		{
+			s2 = root1;
+			s3 = root2;
+		}
+		else
+		{
+			s2 = root2;
+			s3 = root1;
+		}
+	}
+	return Vec<3>(s1,s2,s3);
+}
+
+template<uint16 dimM, uint16 dimN>
+double* Mat<dimM,dimN>::ptr ()
+{
+	return data[0].ptr();
+}
+
+
+template<uint16 dimM, uint16 dimN>
+bool Mat<dimM,dimN>::compare (const Mat<dimM,dimN> &B, double eps) {
+	double *Dp = (double*) data;
+	// double *Bp = B.ptr();
+    double *Bp = (double*) B.data;
+	for (uint16 i = 0; i < dimM; i++) {
+		for (uint16 j = 0; j < dimN; j++) {
+			if (fabs(*Dp-*Bp) > eps) {
+        LOG(INFO) << "Mat[" << i << "][" << j << "]: " << *Dp << " != " << *Bp;
+				return false;
+			}
+			Dp++;
+			Bp++;
+		}
+	}
+	return true;
+}
+
+
+template<uint16 dimM, uint16 dimN>
+void Mat<dimM,dimN>::simple_read (std::istream &st)
+{
+	double *Bp = (double*) data;
+	for (uint16 i=0;i<dimM;i++)
+	{
+		for (uint16 j=0;j<dimN;j++)
+		{
+			st >> *Bp;
+			Bp++;
+		}
+	}
+}
+
+
+class dMat;
+class dMat_interface
+{
+public:
+	dMat_interface ():ptr(NULL),M(0),N(0),row(0) 
+	{	}
+	double& operator[] (uint16 col)
+	{
+		assert(ptr);
+		assert (col < N);
+		assert (row < M);
+		return ptr[row*N + col];
+	}
+	friend class dMat;
+private:
+	uint16 M, N;
+	uint32 row;
+	double *ptr;
+};
+
+//dynamic matrix to pass arbitrary matrix to functions as arguments
+class dMat
+{
+public:
+	dMat(uint16 dim_m, uint16 dim_n) : dimM(0),dimN(0),data(NULL)
+	{
+		if (dim_m && dim_n)
+			resize(dim_m, dim_n);
+	}
+	dMat(uint16 dim_m, uint16 dim_n, double first, ...) : dimM(0),dimN(0),data(NULL) {
+    va_list argp;
+		if (dim_m && dim_n)
+		{
+			resize(dim_m, dim_n);
+			va_start(argp, first);
+			data[0] = first;
+			for (uint16 i=1; i < dimM*dimN; i++)
+				data[i]=va_arg(argp, double);
+			va_end(argp);
+		}
+	}
+	dMat(const dMat &from) : dimM(0),dimN(0),data(NULL)
+	{
+		operator=(from);
+	}
+	dMat_interface& operator[] (uint16 row) {
+        //TODO: it seems unsafe for parallel read access to dMat..
+		dmat_int.row = row;
+		return dmat_int;
+	}
+	void resize (uint16 dim_m, uint16 dim_n)
+	{
+		if (data) delete[] data;
+		data = new double[dim_m*dim_n];
+		dmat_int.ptr = data;
+		dmat_int.M = dim_m;
+		dmat_int.N = dim_n;
+		dimM = dim_m;
+		dimN = dim_n;
+		zero();
+	}
+
+	void fill (double first, ...) {
+		va_list argp;
+		va_start(argp, first);
+		data[0] = first;
+		for (uint16 i=1; i < dimM*dimN; i++)
+			data[i]=va_arg(argp, double);
+		va_end(argp);
+	}
+	~dMat()
+	{
+		if (data) delete[] data;
+		data = NULL;
+	}
+
+	void zero ()
+	{
+		memset(data,0,sizeof(double)*dimM*dimN);
+	}
+	template <uint16 M, uint16 N> Mat<M,N> toMat();
+	template <uint16 M> Vec<M> toVec(uint16 col=0);
+	template <uint16 M, uint16 N> void cpMat(Mat<M,N> &mat);
+	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
+	dMat& operator= (const dMat &from)
+	{
+		if (this == &from)
+			return *this;
+		resize(from.dimM, from.dimN);
+		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
+		return *this;
+	}
+
+	uint16 dM ()
+	{
+		return dimM;
+	}
+	uint16 dN ()
+	{
+		return dimN;
+	}
+
+    double* ptr()
+    {
+        return data;
+    }
+
+	friend std::ostream& operator<< (std::ostream& stream, dMat &obj);
+private:
+	uint16 dimM;
+	uint16 dimN;
+	double *data;
+	dMat_interface dmat_int;
+};
+
+
+//копирует dMat в правый верхний угол Mat<M,N>
+template <uint16 M, uint16 N>
+Mat<M,N> dMat::toMat()
+{
+	assert(M >= dimM && N >= dimN); //Mat >= dMat
+	Mat<M,N> tmp;
+	tmp.zero();
+	for (uint16 i = 0; i < dimM; i++)
+		for (uint16 j = 0; j < dimN; j++)
+			tmp[i][j] = (*this)[i][j];
+	return tmp;
+}
+
+template <uint16 M> 
+Vec<M> dMat::toVec(uint16 col)
+{
+	assert(M >= dimM && dimN > col); //Vec >= dMat по M 
+	Vec<M> tmp;
+	for (uint16 i = 0; i < dimM; i++)
+		tmp[i] = (*this)[i][col];
+	return tmp;
+}
+
+template <uint16 M, uint16 N> 
+void dMat::cpMat(Mat<M,N> &mat)
+{
+	assert(dimM >= M && dimN >= N); //dMat >= Mat
+	for (uint16 i = 0; i < M; i++)
+		for (uint16 j = 0; j < N; j++)
+			(*this)[i][j] = mat[i][j];
+}
+
+//функция копирует вектор в столбец col матрицы dMat
+// col - от нуля
+template <uint16 M> 
+void dMat::cpVec(Vec<M> &vec, uint16 col)
+{
+	assert(dimM >= M && dimN > col);
+	for (uint16 i = 0; i < M; i++)
+		(*this)[i][col] = vec[i];
+}
+
+
+//-------------------------------------------------------------
+//	MatSym
+//-------------------------------------------------------------
+template<uint16 dimM>
+class MatSym {
+public:
+	MatSym () {
+		assert(dimM);
+	}
+	double* ptr() {
+		return data;
+	}
+
+	const double* ptr() const {
+		return data;
+	}
+
+	void zero() {
+		memset((void*) data, 0, sizeof(double)*getLength());
+	}
+	
+  // indexing from 0
+	double& comp (uint16 i, uint16 j) {
+		uint16 b;
+		if (i > j) {
+			b = j;
+			j = i;
+			i = b;
+		}
+		b = (2*dimM-(i-1))/2*i + (j-i);
+		b = dimM*i - (i-1)*i/2 + (j-i);
+		return data[b];
+	}
+	
+	uint16 getLength () {
+		return dimM*(dimM+1)/2;
+	}
+  Mat<dimM, dimM> toMat();
+	void simple_read (std::istream &st);
+	bool compare (MatSym<dimM> &B, double eps = 1.0e-5);
+	MatSym& operator+= (const MatSym &op);
+    uint16 dM() const {
+      return dimM;
+    }
+    uint16 dN() const {
+      return dimM;
+    }
+
+	double data[dimM*(dimM+1)/2];
+};
+
+template<uint16 dimM>
+void MatSym<dimM>::simple_read (std::istream &st)
+{
+	double *Bp = (double*) data;
+	uint16 l = getLength();
+	for (uint16 i=0;i<l;i++)
+	{
+			st >> *Bp;
+			Bp++;
+	}
+}
+
+template<uint16 dimM>
+bool MatSym<dimM>::compare (MatSym<dimM> &B, double eps)
+{
+	double *Dp = (double*) data;
+	double *Bp = B.ptr();
+	uint16 l = getLength();
+	for (uint16 i=0;i<l;i++)
+	{
+		if (fabs(*Dp-*Bp) > eps) {
+			return false;
+		}
+		Dp++;
+		Bp++;
+	}
+	return true;
+}
+
+template<uint16 dimM>
+Mat<dimM, dimM> MatSym<dimM>::toMat() {
+  uint16 ind = 0;
+  Mat<dimM,dimM> mat;
+  for (uint16 i = 0; i < dimM; i++) {
+    for (uint16 j = i; j < dimM; j++) {
+      mat[i][j] = data[ind];
+      mat[j][i] = data[ind];
+      ind++;
+    }
+  }
+  return mat;
+}
+
+
+template<uint16 dimM>
+MatSym<dimM>& MatSym<dimM>::operator+= (const MatSym<dimM> &op) {
+  double* thisp = this->ptr();
+  const double* opp = op.ptr();
+  for (uint16 i = 0; i < getLength(); i++) {
+    *thisp += *opp;
+    thisp++;
+    opp++;
+  }
+
+	return *this;
+}
+
+// [R] = coef * [B]^T*[D]*[B]
+// coef - double scalar
+// [B] - common matrix (dimM x dimN)
+// [D] - symmetric matrix (dimM x dimM)
+// [R] - symmetrix matrix (dimN x dimN)
+template<uint16 dimM,uint16 dimN>
+void matBTDBprod (Mat<dimM,dimN> &B, MatSym<dimM> &D, double coef, MatSym<dimN> &R) 
+{
+	Mat<dimN,dimM> A;
+	A.zero();
+	double *Ap = A.ptr();
+	double *Bp = B.ptr();
+	double *Dp = D.ptr();
+	double *Rp = R.ptr();
+	uint16 i,j,k;
+
+	//A = BT*D
+		// BT*Du + BT*Dd
+	for (k=0;k<dimM;k++)
+	{
+		j = k; // include diag elem
+		while (j < dimM)
+		{
+			for (i=0;i<dimN;i++)
+			{
+				Ap[i*dimM+j] += Bp[k*dimN+i]*(*Dp);
+			}
+			Dp++;
+			j++;
+		}
+	}
+		// BT*DuT
+		Dp = D.ptr();
+	for (j=0;j<dimM;j++)
+	{
+		k = j + 1; Dp++; //leave the diagonal
+		while (k < dimM)
+		{
+			for (i=0;i<dimN;i++)
+			{
+				Ap[i*dimM+j] += Bp[k*dimN+i]*(*Dp);
+			}
+			Dp++;
+			k++;
+		}
+	}
+
+	//R = A*B
+	for (i=0;i<dimN;i++)
+	{
+		for (j=i;j<dimN;j++)
+		{
+			for (k=0;k<dimM;k++)
+			{
+				*Rp += Ap[i*dimM+k]*Bp[k*dimN+j]*coef;
+			}
+			Rp++;
+		}
+	}
+
+}
+
+
+template<uint16 dimM,uint16 dimN>
+void matBTVprod(Mat<dimM,dimN> &B, Vec<dimM> &V, double coef, Vec<dimN> &R)
+{
+#ifndef NLA3D_USE_BLAS
+	double *Bp = B.ptr();
+	uint16 i,j;
+	for (i=0;i<dimN;i++)
+		for (j=0;j<dimM;j++)
+			R[i] += Bp[j*dimN+i]*V[j]*coef;
+#else
+  cblas_dgemv(CblasRowMajor, CblasTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
+#endif
+}
+
+template<uint16 dimM,uint16 dimN>
+void matBVprod(Mat<dimM,dimN> &B,Vec<dimN> &V, double coef, Vec<dimM> &R) {
+#ifndef NLA3D_USE_BLAS
+	double *Bp = B.ptr();
+	uint16 i,j;
+	for (i=0;i<dimM;i++)
+		for (j=0;j<dimN;j++)
+			R[i] += Bp[i*dimN+j]*V[j]*coef;
+#else
+  cblas_dgemv(CblasRowMajor, CblasNoTrans, dimM, dimN, coef, B.ptr(), dimN, V.ptr(), 1, 0.0, R.ptr(), 1);
+#endif
+}
+
+template<uint16 dimM>
+void matBVprod(MatSym<dimM> &B,Vec<dimM> &V, double coef, Vec<dimM> &R) {
+  // TODO: this this inefficient version
+  // convert to regular matrix
+  Mat<dimM, dimM> mB = B.toMat();
+	double *Bp = mB.ptr();
+	uint16 i,j;
+	for (i=0;i<dimM;i++)
+		for (j=0;j<dimM;j++)
+			R[i] += Bp[i*dimM+j]*V[j]*coef;
+}
+
+
+template<uint16 dimM1,uint16 dimN1,uint16 dimN2>
+void matABprod(Mat<dimM1,dimN1> &A, Mat<dimN1,dimN2> &B, const double coef, Mat<dimM1,dimN2> &R) {
+#ifndef NLA3D_USE_BLAS
+	uint16 i,j,k;
+	double *Rp = R.ptr();
+	double *Ap = A.ptr();
+	double *Bp = B.ptr();
+	for (i=0;i<dimM1;i++) {
+		for (j=0;j<dimN2;j++) {
+			for (k=0;k<dimN1;k++)
+				*Rp += Ap[i*dimN1+k]*Bp[k*dimN2+j]*coef;
+			Rp++;
+		}
+	}
+#else
+  cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, dimM1, dimN2, dimN1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
+#endif
+}
+
+template<uint16 dimM1,uint16 dimN1,uint16 dimN2>
+void matATBprod(Mat<dimM1,dimN1> &A, Mat<dimM1,dimN2> &B, const double coef, Mat<dimN1,dimN2> &R)  {
+#ifndef NLA3D_USE_BLAS
+	uint16 i,j,k;
+	double *Rp = R.ptr();
+	double *Ap = A.ptr();
+	double *Bp = B.ptr();
+	for (i=0;i<dimN1;i++)
+	{
+		for (j=0;j<dimN2;j++)
+		{
+			for (k=0;k<dimM1;k++)
+				*Rp += Ap[k*dimN1+i]*Bp[k*dimN2+j]*coef;
+			Rp++;
+		}
+	}
+#else
+  cblas_dgemm(CblasRowMajor, CblasTrans, CblasNoTrans, dimN1, dimN2, dimM1, coef, A.ptr(), dimN1, B.ptr(), dimN2, 0.0, R.ptr(), dimN2);
+#endif
+}
+
+} // namespace math
+} // namespace nla3d
-- 
2.43.0


From 7102cdb495ce3a3bf0110b12990e98102b66c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 49/66] fix: SOLID81 strain energy is computed for isochoric
 invariants

---
 src/lib/elements/SOLID81.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index 956d6e0..fc6d617 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -218,7 +218,9 @@ bool ElementSOLID81::getScalar(double* scalar, scalarQuery query, uint16 gp, con
     case scalarQuery::WU:
       getVector(&tmp, vectorQuery::IC, gp, 1.0);
       mat = CHECK_NOTNULL(dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial()));
-      *scalar += mat->W(tmp[0], tmp[1], tmp[2]) * scale;
+      // energy is a function of the isochoric invariants (see getS_UP)
+      J = tmp[2];
+      *scalar += mat->W(tmp[0] * pow(J, -2.0/3.0), tmp[1] * pow(J, -4.0/3.0), 1.0) * scale;
       return true;
 
     case scalarQuery::WP:
-- 
2.43.0


From ebbb482a0fd511d1b921591e1df745186c7dfedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 50/66] fix: load step is not converged before effects of
 constrained DoFs increment are seen

---
 src/lib/FESolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 3268d2b..2fabbe1 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -486,7 +486,10 @@ void NonlinearFESolver::solve() {
       //          need to compare currentCriteria with 1.0 
       // TODO: 2. Current convergence criteria is not good. We need to introduce equilibrium balance
       //          criteria too along with kinematic one. 
-      if (currentCriteria < convergenceCriteria) {
+      // NOTE: the increment of constrained DoFs is applied at the first iteration of a loadstep. If only
+      // constrained DoFs have been changed, nonlinear effects of it come with the next iteration.
+      bool constrainedChanged = deltaUc.size() > 0 && calculateCriteria(deltaUc) >= convergenceCriteria;
+      if (currentCriteria < convergenceCriteria && !constrainedChanged) {
         converged = true;
         break;
       }
-- 
2.43.0


From 3b9a5b72d324b62610e00389eef8817de0cda37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:18 +0000
Subject: [PATCH 51/66] fix: tensor results in vtk files start from zero

---
 src/lib/VtkProcessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/VtkProcessor.cpp b/src/lib/VtkProcessor.cpp
index e50040e..9932d83 100755
--- a/src/lib/VtkProcessor.cpp
+++ b/src/lib/VtkProcessor.cpp
@@ -265,7 +265,8 @@ void VtkProcessor::write_cell_data(std::ofstream &file) {
   for(auto query : cellTensorQueries) {
     dataTensor.assign(en, MatSym<3>());
     for (uint32 i = 1; i <= storage->nElements(); i++) {
-      // dataTensor[i-1].zero();
+      // MatSym isn't initialized by its constructor
+      dataTensor[i-1].zero();
       storage->getElement(i).getTensor(&(dataTensor[i-1]), query);
     }
     writeTensor(file, query2label(query), dataTensor); 
-- 
2.43.0


From 6ec2550b35f5017b0d96a89d18d4c5f2e8944eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:28 +0000
Subject: [PATCH 52/66] fix: volume of TETRA0 is zero until it is computed

---
 src/lib/elements/TETRA0.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA0.h b/src/lib/elements/TETRA0.h
index c37124c..a3b4812 100644
--- a/src/lib/elements/TETRA0.h
+++ b/src/lib/elements/TETRA0.h
@@ -55,7 +55,7 @@ public:
   //strains[M_XX], strains[M_YY], strains[M_ZZ], strains[M_XY], strains[M_YZ], strains[M_XZ]
   math::Vec<6> strains;
 
-  double vol;
+  double vol = 0.0;
 
   //postproc procedures
   bool getScalar(double* scalar, scalarQuery code, uint16 gp, const double scale);
-- 
2.43.0


From 4e9ca9127e0b075f5ca5d6b5c0047f1923e43f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 53/66] fix: copy of an element has its own node numbers

---
 src/lib/elements/element.cpp | 9 +++++++++
 src/lib/elements/element.h   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/lib/elements/element.cpp b/src/lib/elements/element.cpp
index b195a4d..57d05a4 100755
--- a/src/lib/elements/element.cpp
+++ b/src/lib/elements/element.cpp
@@ -12,6 +12,15 @@ Element::Element () {
 }
 
 
+Element::Element (const Element& from) : type(from.type), shape(from.shape),
+    intOrder(from.intOrder), elNum(from.elNum), storage(from.storage) {
+  if (from.nodes) {
+    nodes = new uint32[getNNodes()];
+    memcpy(nodes, from.nodes, sizeof(uint32)*getNNodes());
+  }
+}
+
+
 Element::~Element() {
   if (nodes) {
     delete[] nodes;
diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0bb3ceb..490f4b7 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -86,6 +86,8 @@ static const uint16 _shape_nnodes[] = {
 class Element {
   public: 
     Element ();
+    // a copy has its own array of node numbers
+    Element (const Element& from);
     virtual ~Element();
 
     // get element number, as it is stored in FEStorage. Numbers start from 1.
-- 
2.43.0


From ec3bf815292582921be76d978093e343e58d1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 54/66] fix: building of TETRA0 matrices doesn't change the
 initial strains

---
 src/lib/elements/TETRA0.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index b6270ad..1699c73 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -51,24 +51,26 @@ void ElementTETRA0::buildK() {
     math::Mat<12,6> matBTC;
     matBTC = matB.transpose()*matC.toMat();
 
+    // buildK() can be called several times: the initial strains of the element should not be changed
+    math::Vec<6> initStrains = strains;
+
     //mechanical initial stress
     if (stress.qlength() != 0.){
-      strains.zero();
       math::Mat<6,6> matP;
       matP = matC.toMat().inv(matC.toMat().det());
-      strains = matP*stress;
+      initStrains = matP*stress;
     }
     
     //termal initial strains
     if (alpha != 0. && T != 0.){
       //temp node forces
       math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
-      strains = strains + tStrains;
+      initStrains = initStrains + tStrains;
     }
 
 
     //mechanical initial strains
-    math::matBVprod(matBTC, strains, -vol, Fe);
+    math::matBVprod(matBTC, initStrains, -vol, Fe);
 
     assembleK(matKe, Fe, {Dof::UX, Dof::UY, Dof::UZ});
   }
-- 
2.43.0


From e0f31d3ba572b107642a2acb9bf61f2a0d9001f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 55/66] fix: isoparametric elements take current nodes
 positions and integration order for every solution

---
 src/lib/elements/PLANE41.cpp | 5 ++---
 src/lib/elements/QUADTH.cpp  | 5 ++---
 src/lib/elements/SOLID81.cpp | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index e4df5dd..07abdd9 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -13,9 +13,8 @@ const uint16 ElementPLANE41::num_components = 3;
 
 //------------------ElementPLANE41--------------------
 void ElementPLANE41::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // node positions and integration order can be changed since the previous solution
+  makeJacob();
 
   S.assign(nOfIntPoints(), Vec<3>(0.0f, 0.0f, 0.0f));
   C.assign(nOfIntPoints(), Vec<3>(1.0f, 1.0f, 0.0f));
diff --git a/src/lib/elements/QUADTH.cpp b/src/lib/elements/QUADTH.cpp
index a7a8b00..22b98b3 100644
--- a/src/lib/elements/QUADTH.cpp
+++ b/src/lib/elements/QUADTH.cpp
@@ -9,9 +9,8 @@ using namespace math;
 
 
 void ElementQUADTH::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // node positions and integration order can be changed since the previous solution
+  makeJacob();
 
   // register element equations
   for (uint16 i = 0; i < getNNodes(); i++) {
diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index fc6d617..1595346 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -10,9 +10,8 @@ using namespace solidmech;
 
 
 void ElementSOLID81::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // node positions and integration order can be changed since the previous solution
+  makeJacob();
 
   S.assign(nOfIntPoints(), Vec<6>(0.0, 0.0, 0.0, 0.0, 0.0, 0.0));
   C.assign(nOfIntPoints(), Vec<6>(1.0, 0.0, 0.0, 1.0, 0.0, 1.0));
-- 
2.43.0


From cbd4c11ee372d28713a407c83c2fa8a9e2ad08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 56/66] fix: rigid body equations are not duplicated when the
 storage is solved again

---
 src/lib/FEStorage.cpp | 15 +++++++++++++++
 src/lib/FEStorage.h   |  2 ++
 src/lib/Mpc.cpp       |  4 ++++
 3 files changed, 21 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 4445412..cce9f97 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -275,6 +275,21 @@ void FEStorage::deleteMpcs() {
     mpc++;
   }
   mpcs.clear();
+  // collections should not refer to deleted instances
+  for (size_t i = 0; i < mpcCollections.size(); i++) {
+    mpcCollections[i]->collection.clear();
+  }
+}
+
+
+void FEStorage::deleteMpc(Mpc* mpc) {
+  for (auto it = mpcs.begin(); it != mpcs.end(); it++) {
+    if (*it == mpc) {
+      delete mpc;
+      mpcs.erase(it);
+      return;
+    }
+  }
 }
 
 
diff --git a/src/lib/FEStorage.h b/src/lib/FEStorage.h
index 7aeea8d..6d9d3d9 100755
--- a/src/lib/FEStorage.h
+++ b/src/lib/FEStorage.h
@@ -240,6 +240,8 @@ public:
   // delete MPC list: delete all dynamically allocated Mpc instances,
   // and clear vector of pointers `mpcs`.
   void deleteMpcs();
+  // delete particular Mpc instance, if it was added by addMpc(..)
+  void deleteMpc(Mpc* mpc);
   void deleteMpcCollections();
   void deleteFeComponents();
   // delete elementDofs and nodeDofs arrays (and free the memory)
diff --git a/src/lib/Mpc.cpp b/src/lib/Mpc.cpp
index bbd54f0..38edf77 100644
--- a/src/lib/Mpc.cpp
+++ b/src/lib/Mpc.cpp
@@ -50,6 +50,10 @@ RigidBodyMpc::~RigidBodyMpc () {
 }
 
 void RigidBodyMpc::pre () {
+  // equations of the previous solution should not stay in the storage
+  for (size_t i = 0; i < collection.size(); i++) {
+    storage->deleteMpc(collection[i]);
+  }
   // create Mpc for all nodes and all dofs..
   collection.assign(slaveNodes.size() * dofs.size(), NULL);
   for (size_t i = 0; i < slaveNodes.size(); i++) {
-- 
2.43.0


From 77d536e382fe19732f186f887ce5b8931cb616e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 57/66] fix: nonlinear solver makes all load steps when it's
 used again

---
 src/lib/FESolver.cpp | 12 ++++++++++++
 src/lib/FESolver.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 2fabbe1..4a0ca98 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -107,6 +107,16 @@ double TimeControl::getCurrentNormalizedTimeDelta() {
 }
 
 
+void TimeControl::reset() {
+  convergedTimeInstances.clear();
+  equilibriumSteps.clear();
+  currentEquilibriumStep = 0;
+  totalNumberOfEquilibriumSteps = 0;
+  currentTimeDelta = 0.0;
+  currentTime = startTime;
+}
+
+
 void TimeControl::setEndTime(double _endTime) {
   LOG_IF(currentTime > startTime, ERROR) << "Trying to set end time = " << _endTime
       << " when solution is running (current time = " << currentTime << ")";
@@ -445,6 +455,8 @@ void NonlinearFESolver::solve() {
   }
 
   double currentCriteria = 0.0;
+  // the solver can be used several times
+  timeControl.reset();
   double timeDelta = (timeControl.getEndTime() - timeControl.getStartTime()) / numberOfLoadsteps;
 
   while (timeControl.nextStep(timeDelta)) {
diff --git a/src/lib/FESolver.h b/src/lib/FESolver.h
index 2f72603..f2e8db4 100644
--- a/src/lib/FESolver.h
+++ b/src/lib/FESolver.h
@@ -42,6 +42,8 @@ public:
   double getCurrentTimeDelta ();
   double getCurrentNormalizedTimeDelta ();
 
+  // get back to the start time, forget about all steps
+  void reset ();
   void setEndTime (double _endTime);
   void setStartTime (double _startTime);
 protected:
-- 
2.43.0


From e9fb35f9cce08b12a1a7cb24e332f9c796c04c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 58/66] fix: master node of the rigid body is given by its
 number in the file

---
 src/main.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 8c4d1f2..f882de1 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -168,6 +168,15 @@ int main (int argc, char* argv[]) {
   if (!readCdbFile (options::modelFilename, md)) {
     LOG(FATAL) << "Can't read FE info from " << options::modelFilename << "file. exiting..";
   }
+  // options refer to node numbers in the file
+  if (options::rigidBodyMasterNode > 0) {
+    auto it = std::find(md.nodesNumbers.begin(), md.nodesNumbers.end(), options::rigidBodyMasterNode);
+    if (it == md.nodesNumbers.end()) {
+      LOG(ERROR) << "There is no master node " << options::rigidBodyMasterNode << " in the model";
+      exit(1);
+    }
+    options::rigidBodyMasterNode = it - md.nodesNumbers.begin() + 1;
+  }
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-- 
2.43.0


From 0784d64fcbc41120139a4b5f6863bf5ec025d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 59/66] fix: all rows of the reference curve are read, wrong
 rows are reported

---
 src/main.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index f882de1..e90deab 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -352,19 +352,19 @@ std::vector<double> readRefCurveData (std::string fileRefCurve) {
   std::ifstream file(fileRefCurve.c_str());
   std::string dummy;
   double tmp;
-  double pre_tmp = -1.0;
   std::vector<double> res;
   file >> dummy >> dummy >> dummy;
   if (dummy.compare("force") != 0) {
     LOG(ERROR) << "readRefCurveData: Expecting third column to a force column";
     exit(1);
   }
-  while (!file.eof()) {
-    file >> dummy >> dummy >> tmp;
-    if (tmp != pre_tmp) {
-      res.push_back(tmp);
-      pre_tmp = tmp;
+  // NOTE: consecutive rows can have equal forces
+  while (file >> dummy) {
+    if (!(file >> dummy >> tmp)) {
+      LOG(ERROR) << "readRefCurveData: wrong row in the file " << fileRefCurve;
+      exit(1);
     }
+    res.push_back(tmp);
   }
   file.close();
   return res;
-- 
2.43.0


From fd63f56c43705a5209291b030dad3ca910261b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 60/66] fix: file name without extension doesn't lose a part of
 its path

---
 src/lib/sys.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sys.cpp b/src/lib/sys.cpp
index c9afa35..81eceb5 100755
--- a/src/lib/sys.cpp
+++ b/src/lib/sys.cpp
@@ -107,7 +107,8 @@ bool cmdOptionExists(char** begin, char** end, const std::string& option) {
 std::string getFileNameFromPath(const std::string filename) {
     std::string::const_reverse_iterator pivot = 
           std::find( filename.rbegin(), filename.rend(), '.' );
-    return pivot == filename.rend()
+    // a dot in the path is not a beginning of an extension
+    return pivot == filename.rend() || std::find(filename.rbegin(), pivot, '/') != pivot
         ? filename
         : std::string( filename.begin(), pivot.base() - 1 );
 }
-- 
2.43.0


From f7647f0e97248e70b745c42fe9043730235b6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 61/66] fix: program stops when number of material constants is
 wrong

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index e90deab..d572493 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -180,9 +180,11 @@ int main (int argc, char* argv[]) {
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-  if (mat->getNumC() != options::materialConstants.size())
+  if (mat->getNumC() != options::materialConstants.size()) {
     LOG(ERROR) << "Material " << options::materialName << " needs exactly " << mat->getNumC()
       << " constants (" << options::materialConstants.size() << " were provided)";
+    exit(1);
+  }
   for (uint16 i = 0; i < mat->getNumC(); i++) {
     mat->Ci(i) = options::materialConstants[i];
   }
-- 
2.43.0


From d75b6c1fb4a00d08e6d7043ef327de40dbbda4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 62/66] fix: CHECK_NOTNULL really checks the pointer

---
 src/lib/sys.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/sys.h b/src/lib/sys.h
index 68373a9..6947b5f 100755
--- a/src/lib/sys.h
+++ b/src/lib/sys.h
@@ -43,7 +43,12 @@
 // TODO:
 // for some reasons CHECK_NOTNULL from easylogging++ doesn't work on Apple's clang and g++
 #undef CHECK_NOTNULL
-#define CHECK_NOTNULL(x) x
+#define CHECK_NOTNULL(x) checkNotNull((x), #x)
+template <typename T>
+inline T* checkNotNull(T* ptr, const char* name) {
+  CHECK(ptr != nullptr) << name << " must be not null";
+  return ptr;
+}
 
 // usefull macros to check floats with threshold
 #define CHECK_EQTH(a, b, th) CHECK(fabs(a-b) < th)
-- 
2.43.0


From 961167d267a28374a9a3738112287f7471d36278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 63/66] fix: program stops on unknown DoFs and wrong master
 node in options

---
 src/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index d572493..8a979b4 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -96,6 +96,9 @@ bool parse_args (int argc, char* argv[]) {
       options::reactionComponentName = vtmp[0];
       for (size_t i = 1; i < vtmp.size(); i++) {
         options::reactionDofs.push_back(Dof::label2dofType(vtmp[i])); 
+        if (options::reactionDofs.back() == Dof::UNDEFINED) {
+          std::exit(1);
+        }
       }
     }
   }
@@ -107,6 +110,10 @@ bool parse_args (int argc, char* argv[]) {
       std::exit(1);
     } else {
       options::rigidBodyMasterNode = atoi(vtmp[0]);
+      if (options::rigidBodyMasterNode == 0) {
+        LOG(ERROR) << "Wrong master node of the rigid body: " << vtmp[0];
+        std::exit(1);
+      }
       options::rigidBodySlavesComponent = vtmp[1];
       if (vtmp.size() == 2) {
         options::rigidBodyDofs.push_back(Dof::UX);
@@ -115,6 +122,9 @@ bool parse_args (int argc, char* argv[]) {
       } else {
         for (size_t i = 2; i < vtmp.size(); i++) {
           options::rigidBodyDofs.push_back(Dof::label2dofType(vtmp[i])); 
+          if (options::rigidBodyDofs.back() == Dof::UNDEFINED) {
+            std::exit(1);
+          }
         }
       }
     }
-- 
2.43.0


From 0b358f30c767ea4196ea187a0d4e897452b1076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 64/66] fix: reference curve without rows doesn't skip the
 comparison

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8a979b4..ae7421a 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -327,7 +327,7 @@ int main (int argc, char* argv[]) {
       ss << std::endl;
     }
     LOG(INFO) << ss.str();
-    if (refCurve.size() > 0) {
+    if (options::refCurveFilename.length() > 0) {
       curCurve = reactProc->getReactions(reactProc->dofs[0]); 
       double _error = compareCurves (refCurve, curCurve);
       LOG(INFO) << "Error between reference loading curve and current is " << _error;
-- 
2.43.0


From 8a472018b4a73f9b6baf2bd8ce2d8f1f52b49f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 65/66] fix: equation of a DoF that doesn't exist is reported
 instead of a null pointer

---
 src/lib/FEStorage.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEStorage.h b/src/lib/FEStorage.h
index 6d9d3d9..6e3fe5e 100755
--- a/src/lib/FEStorage.h
+++ b/src/lib/FEStorage.h
@@ -602,12 +602,16 @@ inline bool FEStorage::isNodeDofUsed (uint32 node, Dof::dofType dof) {
 
 
 inline uint32 FEStorage::getElementDofEqNumber(uint32 el, Dof::dofType dof) {
-  return getElementDof(el, dof)->eqNumber;
+  Dof* d = getElementDof(el, dof);
+  CHECK(d) << "Element " << el << " doesn't have DoF " << Dof::dofType2label(dof);
+  return d->eqNumber;
 }
 
 
 inline uint32 FEStorage::getNodeDofEqNumber(uint32 node, Dof::dofType dof) {
-  return getNodeDof(node, dof)->eqNumber;
+  Dof* d = getNodeDof(node, dof);
+  CHECK(d) << "Node " << node << " doesn't have DoF " << Dof::dofType2label(dof);
+  return d->eqNumber;
 }
 
 
-- 
2.43.0


From b6332d4d681c7b6074e6595766f520a38fbdbfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 66/66] fix: text reading of matrices and vectors stops when
 the data is cut

---
 src/lib/math/SparseMatrix.cpp | 4 ++--
 src/lib/math/Vec.cpp          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 7f07b83..4d92e20 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -208,11 +208,11 @@ void BaseSparseMatrix::readCoordinateTextFormat(std::istream& in) {
   std::vector<SparseEntry> entries;
   uint32 _nrows, _ncols, _nvalues;
   // read header: nRows, nColumns, numberOfValues
-  in >> _nrows >> _ncols >> _nvalues;
+  CHECK(in >> _nrows >> _ncols >> _nvalues) << "Can't read header of the matrix";
   entries.reserve(_nvalues);
   for (uint32 i = 1; i <= _nvalues; i++) {
     SparseEntry entry;
-    in >> entry.i >> entry.j >> entry.v;
+    CHECK(in >> entry.i >> entry.j >> entry.v) << "Can't read entry " << i << " of the matrix";
     entries.push_back(entry);
   }
   reinit(_nrows, _ncols, entries);
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index d54288d..ea78d2c 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -275,10 +275,10 @@ void dVec::writeTextFormat(std::ostream& out) {
 
 void dVec::readTextFormat(std::istream& in) {
   uint32 _len;
-  in >> _len;
+  CHECK(in >> _len) << "Can't read length of the vector";
   reinit(_len);
   for (uint32 i = 0; i < _len; i++) {
-    in >> data[i];
+    CHECK(in >> data[i]) << "Can't read component " << i << " of the vector";
   }
 }
 
-- 
2.43.0

