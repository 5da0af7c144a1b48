From f8c55a89953817b333812bda936ea19807b2b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 01/65] fix: isPerm must reject sequences with distinct
 out-of-range entries

---
 Utils.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index d08cccf..849e93f 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -105,26 +105,24 @@ bool isPerm(const int *perm, int n)
   int *temp = new int[n];
   memcpy(temp, perm, sizeof(int)*n);
   sort(temp, temp + n);
-  int *last = unique(temp, temp + n);
-  if (last != temp + n) {
-    memcpy(temp, perm, sizeof(int)*n);
-    sort(temp, temp + n);
-
-    for (int i = 0; i < n; ++i) {
-      if (temp[i] == i - 1) {
-        printf("%d duplicated\n", i - 1);
-        assert(false);
-        return false;
-      }
-      else if (temp[i] != i) {
-        printf("%d missed\n", i);
-        assert(false);
-        return false;
-      }
+
+  bool ret = true;
+  for (int i = 0; i < n; ++i) {
+    if (temp[i] == i - 1) {
+      printf("%d duplicated\n", i - 1);
+      ret = false;
+      break;
+    }
+    else if (temp[i] != i) {
+      printf("%d missed\n", i);
+      ret = false;
+      break;
     }
   }
   delete[] temp;
-  return true;
+
+  assert(ret);
+  return ret;
 }
 
 bool isInversePerm(const int *perm, const int *inversePerm, int len)
-- 
2.43.0


From 18895968b9bf42ec0bd9e22d033f9cadac8312b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 02/65] fix: MemoryPool honours the requested alignment when
 alignments are mixed

---
 MemoryPool.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 5c45180..921e50d 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -127,22 +127,24 @@ size_t MemoryPool::getTail() const
 void *MemoryPool::allocate(size_t sz, int align /*=64*/)
 {
   sz = (sz + align - 1)/align*align;
+  // the previous allocation may have used a smaller alignment
+  size_t begin = (tail_ + align - 1)/align*align;
 
   if (tail_ >= head_) { // not wrapped around
-    if (tail_ + sz >= size_) { // wrap around
+    if (begin + sz >= size_) { // wrap around
       tail_ = sz;
       assert(tail_ < head_); // check overflow
       return buffer_;
     }
     else {
-      tail_ += sz;
-      return buffer_ + (tail_ - sz);
+      tail_ = begin + sz;
+      return buffer_ + begin;
     }
   }
   else { // wrapped around
-    assert(tail_ + sz < head_); // check overflow
-    tail_ += sz;
-    return buffer_ + (tail_ - sz);
+    assert(begin + sz < head_); // check overflow
+    tail_ = begin + sz;
+    return buffer_ + begin;
   }
 }
 
@@ -152,16 +154,17 @@ void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 
   if (tail_ >= head_) { // not wrapped around
     if (head_ < sz) { // wrap around
-      head_ = size_ - sz;
+      head_ = (size_ - sz)/align*align;
       assert(head_ > tail_); // check overflow
     }
     else {
-      head_ -= sz;
+      head_ = (head_ - sz)/align*align;
     }
   }
   else { // wrapped around
     assert(head_ > tail_ + sz); // check overflow
-    head_ -= sz;
+    head_ = (head_ - sz)/align*align;
+    assert(head_ > tail_); // check overflow
   }
 
   return buffer_ + head_;
-- 
2.43.0


From 4ad3b7954fb25dbd71768da2571ee61344bb9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 03/65] fix: 27-pt Laplacian on grids that are 1 wide in some
 but not all directions

---
 Laplacian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Laplacian.cpp b/Laplacian.cpp
index feec43b..25eca61 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -66,11 +66,11 @@ void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   for (int iz = 0; iz < nz; ++iz) {
     int dz = (iz >= 1 && iz < nz - 1) ? 3 : (nz == 1 ? 1 : 2);
     for (int iy = 0; iy < ny; ++iy) {
-      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (nz == 1 ? 1 : 2))*dz;
+      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (ny == 1 ? 1 : 2))*dz;
       for (int ix = 0; ix < nx; ++ix) {
         int row = (iz*ny + iy)*nx + ix;
 
-        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nz == 1 ? 1 : 2);
+        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nx == 1 ? 1 : 2);
         idx += dx*dy;
         A->rowptr[row + 1] = idx;
       } // ix
-- 
2.43.0


From 855b40ad5d0151bddc4394bb686518f13333211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 04/65] fix: permuteRows of 1-based matrices writes rows at the
 wrong place

---
 Permute.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 7ed76ff..2c2fe09 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -380,28 +380,32 @@ static void permuteRowsMain_(
   const T *values = in->values ? in->values - BASE : NULL;
   const T *idiag = in->idiag ? in->idiag - BASE : NULL;
 
+  const int *newRowptr = out->rowptr - BASE;
+  int *newDiagptr = out->diagptr ? out->diagptr - BASE : NULL;
+  T *newIdiag = out->idiag ? out->idiag - BASE : NULL;
+
   int m = in->m;
 
 #pragma omp parallel
   {
     int iBegin, iEnd;
-    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr + BASE, m);
+    getLoadBalancedPartition(&iBegin, &iEnd, newRowptr + BASE, m);
     iBegin += BASE;
     iEnd += BASE;
 
     for (int i = iBegin; i < iEnd; ++i) {
       int row = rowInversePerm ? rowInversePerm[i - BASE] + BASE : i;
       int begin = rowptr[row], end = rowptr[row + 1];
-      int newBegin = out->rowptr[i] - BASE;
+      int newBegin = newRowptr[i] - BASE;
 
       if (values)
         memcpy(out->values + newBegin, values + begin, (end - begin)*sizeof(double));
       memcpy(out->colidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
 
       if (diagptr)
-        out->diagptr[i] =
-          out->rowptr[i] + (diagptr[row] - rowptr[row]);
-      if (idiag) out->idiag[i] = idiag[row];
+        newDiagptr[i] =
+          newRowptr[i] + (diagptr[row] - rowptr[row]);
+      if (idiag) newIdiag[i] = idiag[row];
     }
   }
 }
-- 
2.43.0


From 7b46b565fadd468a2df8a584c253343be7e7b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 05/65] fix: permuteRowptr asserts on the documented null
 inverse permutation

---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index 2c2fe09..d579119 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -34,7 +34,7 @@ namespace SpMP
 
 void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 {
-  assert(isPerm(inversePerm, m));
+  assert(!inversePerm || isPerm(inversePerm, m));
 
   int base = getBase();
 
-- 
2.43.0


From 81ec4a5e20c6e598ce17cb662814b9756c7147fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 06/65] fix: permuting pattern-only matrices with sorting, and
 columns of 1-based matrices

---
 Permute.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index d579119..6270541 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -121,7 +121,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
   int *diagptr = A->diagptr ? A->diagptr - BASE : NULL;
 
   int *colidx = A->colidx - BASE;
-  T *values = A->values - BASE;
+  T *values = A->values ? A->values - BASE : NULL;
 
   int m = A->m;
 
@@ -130,7 +130,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     int diagCol = -1;
     for (int j = rowptr[i]; j < extptr[i]; ++j) {
       int c = colidx[j];
-      assert(c >= 0 && c < m);
+      assert(c >= BASE && c < m + BASE);
       colidx[j] = perm[c - BASE] + BASE;
       assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < m);
       if (c == i) diagCol = perm[c - BASE] + BASE;
@@ -205,17 +205,17 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     else {
       for (int j = rowptr[i] + 1; j < extptr[i]; ++j) {
         int c = colidx[j];
-        double v = values[j];
+        double v = values ? values[j] : 0;
 
         int k = j - 1;
         while (k >= rowptr[i] && colidx[k] > c) {
           colidx[k + 1] = colidx[k];
-          values[k + 1] = values[k];
+          if (values) values[k + 1] = values[k];
           --k;
         }
 
         colidx[k + 1] = c;
-        values[k + 1] = v;
+        if (values) values[k + 1] = v;
       }
     }
   } // for each row
@@ -318,17 +318,17 @@ static void permuteMain_(
           // insertion sort
           for (int j = newBegin + 1; j < newExtptr[i]; ++j) {
             int c = newColidx[j];
-            double v = newValues[j];
+            double v = newValues ? newValues[j] : 0;
 
             int k = j - 1;
             while (k >= newBegin && newColidx[k] > c) {
               newColidx[k + 1] = newColidx[k];
-              newValues[k + 1] = newValues[k];
+              if (newValues) newValues[k + 1] = newValues[k];
               --k;
             }
 
             newColidx[k + 1] = c;
-            newValues[k + 1] = v;
+            if (newValues) newValues[k + 1] = v;
           }
         }
 
-- 
2.43.0


From def8c08bc3378eff7c049de1d954531c467555c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 07/65] fix: isSymmetric ignores the last row and column of
 1-based matrices

---
 CSR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 96bae24..8b0c6f8 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -191,7 +191,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
       for (int i = begin; i < end; ++i) {
         for (int j = rowptr[i]; j < extptr[i]; ++j) {
           int c = colidx[j];
-          if (c != i && c >= 0 && c < m) {
+          if (c != i && c >= base && c < m + base) {
             bool hasPair = false;
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
@@ -217,7 +217,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
     for (int i = base; i < m + base; ++i) {
       for (int j = rowptr[i]; j < extptr[i]; ++j) {
         int c = colidx[j];
-        if (c != i && c >= 0 && c < m) {
+        if (c != i && c >= base && c < m + base) {
           bool hasPair = false;
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
-- 
2.43.0


From f41720e3d67b5d252f81d27edc3155228d17cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 08/65] fix: hasZeroDiag of 1-based matrices

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 8b0c6f8..018cd50 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -248,6 +248,9 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
 bool CSR::hasZeroDiag() const
 {
   int base = getBase();
+  const int *rowptr = this->rowptr - base;
+  const int *colidx = this->colidx - base;
+  const double *values = this->values - base;
   volatile bool hasZeroDiag = false;
 
 #pragma omp parallel
-- 
2.43.0


From 115bad4ed2c7030ff27ca96d1ee86c0f6dfbda19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 09/65] fix: in-place SpMV with a non-square matrix overruns
 the copy of x

---
 SpMV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 7017d85..d159c3b 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -161,10 +161,10 @@ void CSR::multiplyWithVector(
   // if x and w point to the same array, copy x to a temporary buffer
   // in order to avoid possible race condition in SpMV_
   if (w == x) {
-    tmp_x = MALLOC(double, m);
+    tmp_x = MALLOC(double, n);
  
     #pragma omp parallel for
-    for (int i=0; i<m; i++) {
+    for (int i=0; i<n; i++) {
       tmp_x[i] = x[i];
     }
   }
-- 
2.43.0


From c00dba64acff563664a2fe965e5fa9ca4f7772ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 10/65] fix: multiplyWithDenseMatrix of 1-based matrices with a
 row stride other than 1

---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index d159c3b..9946205 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -199,9 +199,9 @@ static void SpMDM_(
   colidx -= base;
   values -= base;
 
-  W -= base;
-  X -= base;
-  Y -= base;
+  W -= base*wRowStride;
+  X -= base*xRowStride;
+  Y -= base*yRowStride;
 
 //#define MEASURE_LOAD_BALANCE
 #ifdef MEASURE_LOAD_BALANCE
-- 
2.43.0


From a0c1aa86153765646275ae45af68ddc6fb6685c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 11/65] fix: getSymmetricNnzPattern of 1-based matrices

---
 SymGS.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index 956abaa..e8f56aa 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -194,7 +194,7 @@ bool getSymmetricNnzPattern(
         for (int i = base; i < m + base; ++i) {
           (*symRowPtr)[i + 1] += (*symRowPtr)[i];
         }
-        *symColIdx = MALLOC(int, (*symRowPtr)[m]);
+        *symColIdx = MALLOC(int, (*symRowPtr)[m + base] - base);
         *symColIdx -= base;
 
         *symDiagPtr = MALLOC(int, m + 1);
@@ -204,6 +204,7 @@ bool getSymmetricNnzPattern(
           *symExtPtr -= base;
         }
         cnts = MALLOC(int, m);
+        cnts -= base;
       }
 
 #ifdef PRINT_TIME_BREAKDOWN
@@ -269,11 +270,16 @@ bool getSymmetricNnzPattern(
 #undef PRINT_TIME_BREAKDOWN
 #endif
 
-      *symColIdx += base;
-      if (*symExtPtr) *symExtPtr += base;
     } // !isSymmetric
   } // omp parallel
 
+  if (!isSymmetric) {
+    *symColIdx += base;
+    *symDiagPtr += base;
+    if (A->extptr) *symExtPtr += base;
+    cnts += base;
+  }
+
   *symRowPtr += base;
 
   if (isSymmetric) {
-- 
2.43.0


From 51e914dcaac65b28d7545e0a613d2610e23054db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 12/65] fix: mm_read_banner overruns its buffers on banner
 tokens longer than 63 characters

---
 mm_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 7aac638..79985d8 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -83,7 +83,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) 
         return MM_PREMATURE_EOF;
 
-    if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type, 
+    if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type, 
         storage_scheme) != 5)
         return MM_PREMATURE_EOF;
 
-- 
2.43.0


From 0e89182a1d56c5013d6b7e0bb39377c8fda0237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 13/65] fix: reading a Matrix Market size line that is not
 numeric never terminates

---
 mm_io.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 79985d8..51037b4 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -208,15 +208,11 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
   }
   else
   {
-    do
-    { 
-      num_items_read = fscanf ( f, "%d %d", M, N ); 
-      if ( num_items_read == EOF ) 
-      {
-        return MM_PREMATURE_EOF;
-      }
+    num_items_read = fscanf ( f, "%d %d", M, N );
+    if ( num_items_read != 2 )
+    {
+      return MM_PREMATURE_EOF;
     }
-    while ( num_items_read != 2 );
   }
   return 0;
 }
@@ -455,14 +451,11 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
   }
   else
   {
-    do
-    { 
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-      if (num_items_read == EOF) 
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
+    if (num_items_read != 3)
+    {
+      return MM_PREMATURE_EOF;
+    }
   }
   return 0;
 }
-- 
2.43.0


From 5a82a00e32b5c389dfc5024027177ebc5bc9c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 14/65] fix: Matrix Market loader overruns its buffers on
 surplus entries and out-of-range indices

---
 COO.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 70e3532..9e7bb2d 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -209,7 +209,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   // read sizes
   int m, n;
   int nnz; // # of non-zeros specified in the file
-  if (mm_read_mtx_crd_size(fp, &m, &n, &nnz) !=0) {
+  if (mm_read_mtx_crd_size(fp, &m, &n, &nnz) !=0 || m < 0 || n < 0 || nnz < 0) {
     fprintf(stderr, "Error: could not read matrix size.\n");
     fclose(fp);
     return false;
@@ -261,10 +261,16 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   int x, y;
   double real, imag;
   int base = 1;
+  bool hasLastIdx = false; // has an index that is valid only in 1-based files
   while (mm_read_mtx_crd_entry (fp, &x, &y, &real, &imag, matcode) == 0) {
     if (transpose) swap(x, y);
 
-    if (x > origM || y > origN) {
+    if (lines >= nnz) {
+      fprintf(stderr, "Error: more entries than specified in the header (%d) in file %s\n", nnz, file);
+      fclose(fp);
+      return false;
+    }
+    if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
       return false;
@@ -274,6 +280,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     colidx[count] = y;
     values[count] = pattern ? 1 : real;
     if (0 == x || 0 == y) base = 0;
+    if (x == origM || y == origN) hasLastIdx = true;
 
     ++count;
     ++lines;
@@ -289,6 +296,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   }
   fclose(fp);
 
+  if (0 == base && hasLastIdx) {
+    fprintf(stderr, "Error: coordinate is out of range in file %s with 0-based indices.\n", file);
+    return false;
+  }
+
   if (0 == base) {
     for (size_t i = 0; i < count; ++i) {
       rowidx[i]++;
-- 
2.43.0


From ee9725adee1192eda366852d1b19f879160c78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 15/65] fix: Matrix Market loader mishandles symmetric or
 padded files with 0-based indices, and padded symmetric files

---
 COO.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 9e7bb2d..d4f19b0 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -245,7 +245,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   int *colidx_temp, *rowcnt = NULL;
   if (coo.isSymmetric) {
-    colidx_temp = MALLOC(int, count);
+    colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
@@ -293,6 +293,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     colidx[count] = i + 1;
     values[count] = 1;
     ++count;
+    if (coo.isSymmetric) rowcnt[i + 1]++;
   }
   fclose(fp);
 
@@ -302,14 +303,15 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   }
 
   if (0 == base) {
-    for (size_t i = 0; i < count; ++i) {
+    for (int i = 0; i < lines; ++i) { // padding is already 1-based
       rowidx[i]++;
       colidx[i]++;
     }
     if (coo.isSymmetric) {
-      for (int i = m; i > 0; --i) {
+      for (int i = origM; i > 0; --i) {
         rowcnt[i] = rowcnt[i - 1];
       }
+      rowcnt[0] = 0;
     } 
   }
 
-- 
2.43.0


From 7e7cb006c9014a1ca80cc9a736dcf30bb4ac5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 16/65] fix: loading a general Matrix Market file into a reused
 COO treats it as symmetric

---
 COO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/COO.cpp b/COO.cpp
index d4f19b0..6a7ab32 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -229,6 +229,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     count = 2L*nnz;
   }
   else {
+    coo.isSymmetric = false;
     count = nnz;
   }
 
-- 
2.43.0


From c28ca6d1ebd1e7c11e3a2bc6754a40c89158e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 17/65] fix: Matrix Market loader overruns its buffers when a
 non-square file is loaded as symmetric

---
 COO.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/COO.cpp b/COO.cpp
index 6a7ab32..2317d1d 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -214,6 +214,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     fclose(fp);
     return false;
   }
+  if (m != n && (force_symmetric || mm_is_symmetric (matcode) == 1)) {
+    fprintf(stderr, "Error: symmetric matrix in file %s is not square (%d x %d).\n", file, m, n);
+    fclose(fp);
+    return false;
+  }
   if (transpose) {
     assert(!force_symmetric);
     swap(m, n);
-- 
2.43.0


From f51065c5df1a44f4501197cd3086ec6f8bb4a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 18/65] fix: CSR is constructed from uninitialised data when
 its Matrix Market file is malformed

---
 CSR.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 018cd50..ea58dd1 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -116,7 +116,10 @@ CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/,
   }
   else {
     COO Acoo;
-    loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad);
+    if (!loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad)) {
+      fprintf(stderr, "Failed to load %s\n", fileName);
+      exit(-1);
+    }
 
     alloc(Acoo.m, Acoo.nnz);
 
-- 
2.43.0


From 156ecd185924daca9df4504180392145cd25514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 19/65] fix: storeBin leaves a 1-based matrix 0-based when the
 file cannot be opened

---
 CSR.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index ea58dd1..5179b89 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -366,17 +366,17 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
 
 void CSR::storeBin(const char *fileName)
 {
-  bool was1Based = 1 == getBase();
-  if (was1Based) {
-    make0BasedIndexing();
-  }
-
   FILE *fp = fopen(fileName, "w");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", fileName);
     return;
   }
 
+  bool was1Based = 1 == getBase();
+  if (was1Based) {
+    make0BasedIndexing();
+  }
+
   int id = MAT_FILE_CLASSID;
   fwrite(&id, sizeof(id), 1, fp);
 
-- 
2.43.0


From cfa2a90a5e795aabd6f8725323ef65d2f8c9eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 20/65] fix: loadVectorMatrixMarket writes out of bounds for
 non-positive array sizes

---
 Vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vector.cpp b/Vector.cpp
index ceefd7f..2fed6e0 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -34,7 +34,7 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  if (mm_read_mtx_array_size(fp, m, n) != 0) {
+  if (mm_read_mtx_array_size(fp, m, n) != 0 || *m < 0 || *n < 1) {
     fprintf(stderr, "Error: could not read array size.\n");
     fclose(fp);
     return false;
-- 
2.43.0


From 398b6aa24437f8311afd7a5049be31fb0181d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 21/65] fix: loadBin accepts truncated or corrupt files

---
 CSR.cpp | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 5179b89..8bc55b3 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -321,27 +321,49 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
     return;
   }
 
-  int id;
-  fread(&id, sizeof(id), 1, fp);
-  if (MAT_FILE_CLASSID != id) {
-    fprintf(stderr, "Wrong file ID (%d)\n", id);
+  m = n = 0;
+
+  int id, nnz;
+  if (1 != fread(&id, sizeof(id), 1, fp) || MAT_FILE_CLASSID != id) {
+    fprintf(stderr, "Wrong file ID in %s\n", file_name);
+    fclose(fp);
+    return;
   }
 
-  fread(&m, sizeof(m), 1, fp);
-  fread(&n, sizeof(n), 1, fp);
-  int nnz;
-  fread(&nnz, sizeof(nnz), 1, fp);
+  int dims[3];
+  if (3 != fread(dims, sizeof(dims[0]), 3, fp) ||
+      dims[0] < 0 || dims[1] < 0 || dims[2] < 0) {
+    fprintf(stderr, "Wrong matrix size in %s\n", file_name);
+    fclose(fp);
+    return;
+  }
+  m = dims[0];
+  n = dims[1];
+  nnz = dims[2];
 
   alloc(m, nnz);
 
-  fread(rowptr + 1, sizeof(rowptr[0]), m, fp);
+  bool valid = (size_t)m == fread(rowptr + 1, sizeof(rowptr[0]), m, fp);
   rowptr[0] = 0;
-  for (int i = 1; i < m; ++i) {
-    rowptr[i + 1] += rowptr[i];
+  for (int i = 0; i < m && valid; ++i) {
+    valid = rowptr[i + 1] >= 0 && rowptr[i + 1] <= nnz - rowptr[i];
+    if (valid) rowptr[i + 1] += rowptr[i];
   }
+  valid = valid && rowptr[m] == nnz;
 
-  fread(colidx, sizeof(colidx[0]), nnz, fp);
-  fread(values, sizeof(values[0]), nnz, fp);
+  valid = valid && (size_t)nnz == fread(colidx, sizeof(colidx[0]), nnz, fp);
+  for (int j = 0; j < nnz && valid; ++j) {
+    valid = colidx[j] >= 0 && colidx[j] < n;
+  }
+  valid = valid && (size_t)nnz == fread(values, sizeof(values[0]), nnz, fp);
+
+  if (!valid) {
+    fprintf(stderr, "File %s is truncated or corrupt\n", file_name);
+    fclose(fp);
+    dealloc();
+    m = n = 0;
+    return;
+  }
 
 #pragma omp parallel for
   for (int i = 0; i < m; ++i) {
-- 
2.43.0


From bafe3e362c442e5abaa3bce20f23771eb4561f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 22/65] fix: building a schedule without transitive reduction
 frees pool memory, and leaks without a pool

---
 LevelSchedule.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index c40defe..da4504e 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1681,7 +1681,6 @@ void constructTaskGraph_(
         cForward += nparentsForward[i];
         cBackward += nparentsBackward[i];
       }
-      FREE(taskInvAdjacencyLengths);
 
       parentsBuf[0] = schedule->allocate<int>(cForward);
       parentsBuf[1] = schedule->allocate<int>(cBackward);
@@ -1707,6 +1706,16 @@ void constructTaskGraph_(
         }
       }
 
+      if (!useMemoryPool) {
+        FREE(taskAdjacency.rowptr);
+        FREE(taskAdjacency.colidx);
+
+        FREE(taskInvAdjacency.rowptr);
+        FREE(taskInvAdjacency.colidx);
+
+        FREE(taskInvAdjacencyLengths);
+      }
+
       taskAdjacency.~CSR();
       taskInvAdjacency.~CSR();
     } // omp single
-- 
2.43.0


From 6bd3776719b2dcc9b6af0b78f333664ea7f6175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 23/65] fix: dependences of empty tasks overwrite those of the
 next task when barrier and transitive reduction are both on

---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index da4504e..6ee42cb 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -934,7 +934,7 @@ void constructTaskGraph_(
   int origRowPtrCnt = 0, origInvRowPtrCnt = 0;
   for (int v1 = v1Begin; v1 < v1End; ++v1) {
     int size = 0;
-    int invSize = 0;
+    int invSize = 1; // intra-thread edge of a task without rows
     for (int i1Perm = taskBoundaries[v1]; i1Perm < taskBoundaries[v1 + 1]; ++i1Perm) {
       int i1 = threadContToOrigPerm[i1Perm];
       size += extptr[i1] - diagptr[i1] - 1;
-- 
2.43.0


From 431f72047df9fd18594bae27199acaccb1ae131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 24/65] fix: rebuilding a schedule that uses the memory pool
 frees pool memory

---
 LevelSchedule.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 6ee42cb..555ff2d 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -731,8 +731,10 @@ void findLevels_(
     threadBoundaries[tid + 1] += threadBoundaries[tid];
   }
 
-  FREE(schedule->origToThreadContPerm);
-  FREE(schedule->threadContToOrigPerm);
+  if (!useMemoryPool) {
+    FREE(schedule->origToThreadContPerm);
+    FREE(schedule->threadContToOrigPerm);
+  }
   schedule->origToThreadContPerm = schedule->allocate<int>(m + 64);
   schedule->threadContToOrigPerm = schedule->allocate<int>(m + 64);
   int *origToThreadContPerm = schedule->origToThreadContPerm;
-- 
2.43.0


From e1026c111ad7e41b9ffe1f1f45c1b641f1dfe4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 25/65] fix: parent lists of the fused schedule overlap

---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 555ff2d..8d32e33 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1273,7 +1273,7 @@ void constructTaskGraph_(
         fusedSchedule->parents[task] = fusedSchedule->parentsBuf + cnt;
         fusedSchedule->nparents[task] = tempParents[task].size();
         copy(tempParents[task].begin(), tempParents[task].end(), fusedSchedule->parents[task]);
-        cnt += taskInvAdjacencyLengths[task];
+        cnt += tempParents[task].size();
       }
 
       /*int cnt = 0;
-- 
2.43.0


From ff98bdd1e78a7657d824d0c58292ce808745f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 26/65] fix: level finder overruns its per-thread queues when
 few rows release many

---
 LevelSchedule.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 8d32e33..4e58b2d 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -213,6 +213,12 @@ void findLevels_(
   int tid = omp_get_thread_num();
   int nthreads = omp_get_num_threads();
 
+  // buffers this thread has a fixed share of, and private ones for when a level
+  // lets it discover more nodes than fit in its share
+  int *qShare = q[tid], *rowPtrShare = rowPtrs[tid];
+  int shareSize = max(nthreads, m + nthreads - 1)/nthreads*2;
+  vector<int> qPrivate, rowPtrPrivate;
+
   bool prevIterSerial = false;
   unsigned long long tTemp = __rdtsc();
 
@@ -315,6 +321,7 @@ void findLevels_(
         tTemp = __rdtsc();
 
         int *tailPtr = &reversePerm[end];
+        rowPtrs[tid] = rowPtrShare; // other threads' shares are unused now
         int *rowPtr = rowPtrs[tid];
         *rowPtr = 0;
 
@@ -395,6 +402,24 @@ void findLevels_(
       if (0 == tid) tt5 += __rdtsc() - tTemp;
 
       tTemp = __rdtsc();
+
+      int maxTail = 0; // upper bound of the number of nodes to be discovered
+      for (int i = iBegin; i < iEnd; ++i) {
+        maxTail += extptr[reversePerm[i]] - diagptr[reversePerm[i]] - 1;
+      }
+      if (maxTail < shareSize) {
+        q[tid] = qShare;
+        rowPtrs[tid] = rowPtrShare;
+      }
+      else {
+        if (maxTail >= qPrivate.size()) {
+          qPrivate.resize(maxTail + 1);
+          rowPtrPrivate.resize(maxTail + 1);
+        }
+        q[tid] = &qPrivate[0];
+        rowPtrs[tid] = &rowPtrPrivate[0];
+      }
+
       int *tailPtr = q[tid];
       int *rowPtr = rowPtrs[tid];
       *rowPtr = 0;
-- 
2.43.0


From 75c3aaec6ef2d654302bcf8d85ae5de62dc63432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 27/65] fix: reducing barrier loses a contribution when a core
 runs ahead into the next episode

---
 synk/reduce.hpp | 65 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index bad5891..67ad022 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -57,6 +57,7 @@ struct PseudoCore {
     uint8_t             parity;
     uint8_t             sense;
 
+    /* double buffered by parity, like the flags */
     volatile T          *myRvals;
     T                   **partnerRvals;
 };
@@ -75,6 +76,7 @@ struct ReduceCoreBarrier {
 
     volatile T          rval;
     volatile T          *threadRvals;
+    /* double buffered by parity, like the flags */
     volatile T          *myRvals;
     T                   **partnerRvals;
 
@@ -144,8 +146,8 @@ void ReduceBarrier<T>::init(int tid)
         core->sense = 1;
 
         core->threadRvals = MALLOC(volatile T, numThreadsPerCore);
-        core->myRvals = MALLOC(volatile T, lgNumCores);
-        core->partnerRvals = MALLOC(T *, lgNumCores);
+        core->myRvals = MALLOC(volatile T, 2*lgNumCores);
+        core->partnerRvals = MALLOC(T *, 2*lgNumCores);
 
         core->pseudoCore = NULL;
 
@@ -164,8 +166,8 @@ void ReduceBarrier<T>::init(int tid)
             pseudoCore->parity = 0;
             pseudoCore->sense = 1;
 
-            pseudoCore->myRvals = MALLOC(volatile T, lgNumCores);
-            pseudoCore->partnerRvals = MALLOC(T *, lgNumCores);
+            pseudoCore->myRvals = MALLOC(volatile T, 2*lgNumCores);
+            pseudoCore->partnerRvals = MALLOC(T *, 2*lgNumCores);
 
             core->pseudoCore = pseudoCore;
         }
@@ -186,54 +188,63 @@ void ReduceBarrier<T>::init(int tid)
     /* core thread 0 finishes setup */
     if (coreTid == 0) {
         for (int i = 0;  i < lgNumCores;  i++) {
-            core->myRvals[i] = (volatile T)NULL;
+            for (int j = 0;  j < 2;  j++)
+                core->myRvals[j * lgNumCores + i] = (volatile T)NULL;
 
             /* find reduction partner and link */
             int reduceCid = (cid + (1 << i)) % nearestPow2Cores;
 
             /* is our reduction partner a real core? */
             if (reduceCid < numCores) {
-                core->partnerRvals[i] = (T *)&cores[reduceCid]->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j * lgNumCores + i] = (T *)
+                        &cores[reduceCid]->myRvals[j * lgNumCores + i];
                     core->partnerFlags[j][i] = (uint8_t *)
                         &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* no, it's a pseudo core */
             else {
                 reduceCid -= numCores;
-                core->partnerRvals[i] = (T *)
-                    &cores[reduceCid]->pseudoCore->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j * lgNumCores + i] = (T *)
+                        &cores[reduceCid]->
+                        pseudoCore->myRvals[j * lgNumCores + i];
                     core->partnerFlags[j][i] = (uint8_t *)
                         &cores[reduceCid]->
                         pseudoCore->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* if this is one of the cores that represents a pseudo
                core, we have to initialize and link its fields too */
             if (pseudoCore) {
-                pseudoCore->myRvals[i] = (volatile T)NULL;
+                for (int j = 0;  j < 2;  j++)
+                    pseudoCore->myRvals[j * lgNumCores + i] = (volatile T)NULL;
 
                 reduceCid = (pseudoCore->coreId + (1 << i)) % nearestPow2Cores;
 
                 /* this pseudo core's reduction partner might be a real
                    core or a pseudo core */
                 if (reduceCid < numCores) {
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j * lgNumCores + i] = (T *)
+                            &cores[reduceCid]->myRvals[j * lgNumCores + i];
                         pseudoCore->partnerFlags[j][i] = (uint8_t *)
                             &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                    }
                 }
                 else {
                     reduceCid -= numCores;
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->pseudoCore->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j * lgNumCores + i] = (T *)
+                            &cores[reduceCid]->
+                            pseudoCore->myRvals[j * lgNumCores + i];
                         pseudoCore->partnerFlags[j][i] = (uint8_t *)
                             &cores[reduceCid]->
                             pseudoCore->myFlags[j][i * CacheLineSize];
+                    }
                 }
             }
         }
@@ -279,8 +290,10 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
            handle both */
         if (numThreadsPerCore == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                int ri = bar->parity * lgNumCores + i;
+                int pri = bar->pseudoCore->parity * lgNumCores + i;
+                *bar->partnerRvals[ri] = redVal;
+                *bar->pseudoCore->partnerRvals[pri] = zeroVal;
 
                 sfence();
 
@@ -295,8 +308,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[ri]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[pri]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -309,14 +322,15 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         /* no pseudo core, only handle self */
         else {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
+                int ri = bar->parity * lgNumCores + i;
+                *bar->partnerRvals[ri] = redVal;
                 sfence();
                 *bar->partnerFlags[bar->parity][i] = bar->sense;
                 while (bar->myFlags[bar->parity][di] != bar->sense)
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[ri]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -334,7 +348,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
     else {
         if (coreTid == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                int pri = bar->pseudoCore->parity * lgNumCores + i;
+                *bar->pseudoCore->partnerRvals[pri] = zeroVal;
                 sfence();
                 *bar->pseudoCore->partnerFlags[bar->pseudoCore->parity][i]
                     = bar->pseudoCore->sense;
@@ -343,7 +358,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[pri]);
             }
             if (bar->pseudoCore->parity == 1)
                 bar->pseudoCore->sense = !bar->pseudoCore->sense;
-- 
2.43.0


From 8d37de00ed26d6eb20986604f2e445aa427ed653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 28/65] fix: reducing barrier counts the contributions of a
 single core twice

---
 synk/reduce.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index 67ad022..0dda0b1 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -319,8 +319,9 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
             bar->pseudoCore->parity = 1 - bar->pseudoCore->parity;
         }
 
-        /* no pseudo core, only handle self */
-        else {
+        /* no pseudo core, only handle self; with a single core there is no
+           partner (lgNumCores is at least 1) */
+        else if (numCores > 1) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
                 int ri = bar->parity * lgNumCores + i;
                 *bar->partnerRvals[ri] = redVal;
-- 
2.43.0


From 01d9e817e10fa12ca009a883a0612dc4a2367aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 29/65] fix: connected components are split when two threads
 link the same root

---
 reordering/ConnectedComponents.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 0c33f39..666beb7 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -167,11 +167,14 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) break;
+            // Another thread has just linked r_x: keep its link and retry.
+          }
+          else {
+            p[r_x] = p_r_y;
+            r_x = p_r_x;
           }
-          p[r_x] = p_r_y;
-          r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
     }
-- 
2.43.0


From 41f8397993859a44b0c3f1a985bcc42f6694894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 30/65] fix: assertion of findConnectedComponents reads past
 the last component

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 666beb7..b1f151b 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -315,7 +315,7 @@ void findConnectedComponents_(
 
     for (int j = (*compSizePrefixSum)[i]; j < (*compSizePrefixSum)[i] + (*compSizes)[i]; ++j) {
       assert(p[(*nodesSortedByComp)[j]] == (*compToRoot)[i]);
-      if (j < (*compSizePrefixSum)[i + 1] - 1) {
+      if (j < (*compSizePrefixSum)[i] + (*compSizes)[i] - 1) {
         assert((*nodesSortedByComp)[j] < (*nodesSortedByComp)[j + 1]);
       }
     }
-- 
2.43.0


From 3295fb2f6412d1f0a3421f4724bc2b6061645749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 31/65] fix: getRCMPermutation overruns its buffers when a
 component has as many levels as vertices

---
 reordering/RCM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 3672b64..73bc7ef 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -690,8 +690,9 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   int singletonCnt = 0, twinCnt = 0;
 
   bfsAuxData aux(m);
-  volatile int *write_offset = new int[(m + 1)*16];
-  int *prefixSum_array = new int[max(omp_get_max_threads()*PAR_THR, m) + 1];
+  // a breadth-first search reports one more level than there are
+  volatile int *write_offset = new int[(m + 2)*16];
+  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 2)];
 
   DegreeComparator comparator(rowptr);
 
-- 
2.43.0


From f223f511aca13035fd50557c3e775dcad02ae8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 32/65] fix: breadth-first search of a single vertex overruns
 its buffer

---
 reordering/RCM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 73bc7ef..0f2cc31 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -184,7 +184,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
-- 
2.43.0


From a71e2a6a8d2324a491a6a9f4a7eb0eedf0d4a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 33/65] fix: pseudo diameter search overruns its candidates
 when threads find the same vertices

---
 reordering/RCM.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 0f2cc31..273ffc9 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -187,7 +187,8 @@ bfsAuxData::bfsAuxData(int m)
   rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
-  candidates = new int[m];
+  // the last level can have a vertex once per thread
+  candidates = new int[m*omp_get_max_threads()];
 }
 
 bfsAuxData::~bfsAuxData()
-- 
2.43.0


From 430dbe68dd072ad11dc4c0d4e95d21b6c5c1ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 34/65] fix: bfsBipartite overruns its buffer when a thread
 finds all vertices in one level

---
 reordering/BFSBipartite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index 31e393a..ef0ef07 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -450,7 +450,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
-- 
2.43.0


From 0adfc98737abfab4b2494db5345058ebdde2dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 35/65] Verification hook: threshold between the small and
 large component paths

---
 reordering/RCM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 273ffc9..d31aaa5 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -54,7 +54,11 @@ using namespace std;
 namespace SpMP
 {
 
+#ifdef SPMP_VERIF_PAR_THR
+extern int PAR_THR; // chosen by the verification harness
+#else
 const int PAR_THR = 65536;
+#endif
 
 void findConnectedComponents(
   const CSR *A,
-- 
2.43.0


From e456283d36691f8fc2420db26288363a22cd3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 36/65] fix: index base conversion leaves extptr in the old
 base

---
 CSR.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 8bc55b3..a2374b4 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -443,6 +443,12 @@ void CSR::make0BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]--;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]--;
+  }
 }
 
 void CSR::make1BasedIndexing()
@@ -464,6 +470,12 @@ void CSR::make1BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]++;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]++;
+  }
 }
 
 void CSR::computeInverseDiag()
-- 
2.43.0


From 920ba3922f769cb450dd8ef607cfc43bf537ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 37/65] fix: copy of a matrix loses its extptr

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index a2374b4..21e01b6 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -87,6 +87,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   colidx = MALLOC(int, nnz);
   if (A.values) values = MALLOC(double, nnz);
   if (A.diagptr) diagptr = MALLOC(int, m);
+  if (A.extptr) extptr = MALLOC(int, m);
   if (A.idiag) idiag = MALLOC(double, m);
   if (A.diag) diag = MALLOC(double, m);
 
@@ -94,6 +95,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   copyVector(colidx, A.colidx, nnz);
   if (values) copyVector(values, A.values, nnz);
   if (diagptr) copyVector(diagptr, A.diagptr, m);
+  if (extptr) copyVector(extptr, A.extptr, m);
   if (idiag) copyVector(idiag, A.idiag, m);
   if (diag) copyVector(diag, A.diag, m);
 }
-- 
2.43.0


From c9ab784acd99eddabeff3de6e2fce7637af3ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 38/65] fix: permuting a pattern-only matrix with external
 columns reads its missing values

---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index 6270541..9334c6c 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -308,7 +308,7 @@ static void permuteMain_(
         if (in->extptr) {
           for (int j = end; j < rowptr[row + 1]; ++j, ++k) {
             newColidx[k] = colidx[j];
-            newValues[k] = values[j];
+            if (values) newValues[k] = values[j];
           }
         }
 
-- 
2.43.0


From c01ac7f0a3347bf487e9a87843bf5444d97ccfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 39/65] fix: LoadImba redefines Barrier::deleteInstance instead
 of defining its own, so nothing that uses it links

---
 synk/loadimba.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 50b1511..be3e4d5 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -112,9 +112,10 @@ LoadImba *LoadImba::getInstance()
     return instance;
 }
 
-void Barrier::deleteInstance()
+void LoadImba::deleteInstance()
 {
     delete instance;
+    instance = NULL;
 }
 
 /* constructor */
-- 
2.43.0


From f65d59c121db21e317c4ed59da1f02938bb24635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 40/65] fix: mm_write_banner and the size-line writers report
 failure after every successful write

---
 mm_io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 51037b4..5fabc7b 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -667,7 +667,7 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
 
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0 )
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -687,7 +687,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else 
         return 0;
@@ -772,7 +772,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From 12a86ccf31782b767ad2568143ec4a9f712cc27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 41/65] fix: mm_read_mtx_crd reports success on an integer file
 without reading its entries

---
 mm_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 5fabc7b..b3b27f3 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -277,7 +277,7 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
                 *matcode);
         if (ret_code != 0) return ret_code;
     }
-    else if (mm_is_real(*matcode))
+    else if (mm_is_real(*matcode) || mm_is_integer(*matcode))
     {
         *val = (double *) malloc(*nz * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
@@ -326,7 +326,7 @@ int mm_read_mtx_crd_data(FILE *f, int M, int N, int nz, int I[], int J[],
             if (fscanf(f, "%d %d %lg %lg", &I[i], &J[i], &val[2*i], &val[2*i+1])
                 != 4) return MM_PREMATURE_EOF;
     }
-    else if (mm_is_real(matcode))
+    else if (mm_is_real(matcode) || mm_is_integer(matcode))
     {
         for (i=0; i<nz; i++)
         {
-- 
2.43.0


From 3b32c6f3027549b8552baf518982162a44ba0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 42/65] fix: mm_read_unsymmetric_sparse accepts files that end
 before the last entry

---
 mm_io.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index b3b27f3..aba67ca 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -535,7 +535,15 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
  
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            fprintf(stderr, "read_unsymmetric_sparse(): file [%s] ends early.\n", fname);
+            free(I);
+            free(J);
+            free(val);
+            fclose(f);
+            return -1;
+        }
 /*
   Adjust from 1-based to 0-based.
 */
-- 
2.43.0


From 87b6479cc4ef2d9cde0cfe88be55b0af9f699673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 43/65] fix: loadVectorMatrixMarket overflows the size of large
 vectors and ignores failed allocation

---
 Vector.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index 2fed6e0..e0b4514 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -40,18 +40,24 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  *v = MALLOC(double, (*m)*(*n));
+  size_t len = (size_t)(*m)*(*n);
+  *v = len <= (size_t)-1/sizeof(double) ? MALLOC(double, len) : NULL;
+  if (!*v) {
+    fprintf(stderr, "Failed to allocate memory\n");
+    fclose(fp);
+    return false;
+  }
 
   for (int i = 0; i < *m; i++) {
     for (int j = 0; j < *n - 1; j++) {
-      if (fscanf(fp, "%lg", *v + i*(*n) + j) != 1) {
+      if (fscanf(fp, "%lg", *v + (size_t)i*(*n) + j) != 1) {
         fprintf(stderr, "Error: premature EOF.\n");
         FREE(*v);
         fclose(fp);
         return false;
       }
     }
-    if (fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
+    if (fscanf(fp, "%lg\n", *v + (size_t)i*(*n) + (*n) - 1) != 1) {
       fprintf(stderr, "Error: premature EOF.\n");
       FREE(*v);
       fclose(fp);
-- 
2.43.0


From 9a90f9600722e8310ff6c27c419daabb629b519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 44/65] fix: loadBin crashes on a file whose header asks for
 more memory than can be allocated

---
 CSR.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 21e01b6..e09adb2 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -339,6 +339,17 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
     fclose(fp);
     return;
   }
+  // don't allocate for more data than the file has
+  long dataBegin = ftell(fp);
+  if (fseek(fp, 0, SEEK_END) != 0 ||
+      (size_t)(ftell(fp) - dataBegin) <
+        sizeof(rowptr[0])*dims[0] + (sizeof(colidx[0]) + sizeof(values[0]))*dims[2] ||
+      fseek(fp, dataBegin, SEEK_SET) != 0) {
+    fprintf(stderr, "File %s is truncated or corrupt\n", file_name);
+    fclose(fp);
+    return;
+  }
+
   m = dims[0];
   n = dims[1];
   nnz = dims[2];
-- 
2.43.0


From f88fe0c78157fc78559cd31230cdecd2c8e6616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 45/65] fix: parMemset and parMemcpy overflow byte offsets for
 2 GB and more

---
 Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 849e93f..5212e60 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -70,8 +70,8 @@ void parMemset(void *ptr, int c, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memset((char *)ptr + nBegin, c, nEnd - nBegin);
   }
@@ -85,8 +85,8 @@ void parMemcpy(void *dst, const void *src, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memcpy((char *)dst + nBegin, (char *)src + nBegin, nEnd - nBegin);
   }
-- 
2.43.0


From 04ee8c5d75f827548da7ef9ef0fe5082cb02853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 46/65] fix: loadVectorMatrixMarket returns interleaved parts
 of complex files as if they were real numbers

---
 Vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index e0b4514..5d67b58 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -28,8 +28,8 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  if (!mm_is_array(matcode)) {
-    fprintf(stderr, "Error: only support arrays.\n");
+  if (!mm_is_array(matcode) || mm_is_complex(matcode)) {
+    fprintf(stderr, "Error: only support real arrays.\n");
     fclose(fp);
     return false;
   }
-- 
2.43.0


From 0f426059f31ea36eb1e4f6cbb048f2ea6ce2cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 47/65] fix: loadMatrixMarket silently drops imaginary parts
 and mirror entries of complex and skew-symmetric files

---
 COO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 2317d1d..c375413 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -199,7 +199,8 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     return false;
   }
 
-  if (!mm_is_valid (matcode) || mm_is_array (matcode) || mm_is_dense (matcode) ) {
+  if (!mm_is_valid (matcode) || mm_is_array (matcode) || mm_is_dense (matcode) ||
+      mm_is_complex (matcode) || mm_is_skew (matcode) ) {
     fprintf(stderr, "Error: only support sparse and real matrices.\n");
     fclose(fp);
     return false;
-- 
2.43.0


From 370be5f7d3cc0e256c3b3dc1600684074ed71aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 48/65] fix: comment lines longer than the line buffer are read
 as the size line of a Matrix Market file

---
 mm_io.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index aba67ca..d2ea993 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -184,6 +184,7 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 {
   char line[MM_MAX_LINE_LENGTH];
   int num_items_read;
+  int is_comment = 0, at_line_start = 1;
 /* 
   set return null parameter values, in case we exit with errors 
 */
@@ -198,7 +199,11 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
     {
       return MM_PREMATURE_EOF;
     }
-  } while ( line[0] == '%' );
+    if ( at_line_start ) is_comment = line[0] == '%';
+    /* fgets reads a long line in several pieces */
+    at_line_start = strlen(line) < MM_MAX_LINE_LENGTH - 1 ||
+      line[MM_MAX_LINE_LENGTH - 2] == '\n';
+  } while ( is_comment );
 /* 
   line[] is either blank or has M,N, nz 
 */
@@ -425,6 +430,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 {
   char line[MM_MAX_LINE_LENGTH];
   int num_items_read;
+  int is_comment = 0, at_line_start = 1;
 
 /* 
   set return null parameter values, in case we exit with errors 
@@ -441,7 +447,11 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     {
       return MM_PREMATURE_EOF;
     }
-  } while (line[0] == '%');
+    if (at_line_start) is_comment = line[0] == '%';
+    /* fgets reads a long line in several pieces */
+    at_line_start = strlen(line) < MM_MAX_LINE_LENGTH - 1 ||
+      line[MM_MAX_LINE_LENGTH - 2] == '\n';
+  } while (is_comment);
 /* 
   line[] is either blank or has M,N, nz 
 */
-- 
2.43.0


From ae44a08a69a3d53b8ace17b40813b0decd19d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 49/65] fix: transpose and permute return matrices whose arrays
 are never released

---
 CSR.cpp     | 1 +
 Permute.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index e09adb2..57eff67 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -531,6 +531,7 @@ CSR *CSR::transpose() const
   int nnz = getNnz();
 
   CSR *AT = new CSR();
+  AT->ownData_ = true;
 
   AT->m = n;
   AT->n = m;
diff --git a/Permute.cpp b/Permute.cpp
index 9334c6c..a06afe4 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -81,6 +81,7 @@ void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 CSR *CSR::permuteRowptr(const int *inversePerm) const
 {
   CSR *ret = new CSR();
+  ret->ownData_ = true;
 
   ret->m = m;
   ret->n = n;
-- 
2.43.0


From a499702e0cec58ba8b0825785e5efd949dab4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 50/65] fix: splitLU and generate3D27PtLaplacian leave arrays
 that are never released

---
 CSR.hpp       | 4 ++++
 Laplacian.cpp | 1 +
 SymGS.cpp     | 1 +
 3 files changed, 6 insertions(+)

diff --git a/CSR.hpp b/CSR.hpp
index c9722cd..23b3431 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -190,6 +190,10 @@ public:
 
 private:
   bool ownData_;
+
+  // these allocate arrays that the given matrices own
+  friend void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base);
+  friend void splitLU(CSR& A, CSR *L, CSR *U);
 }; // CSR
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base = 0);
diff --git a/Laplacian.cpp b/Laplacian.cpp
index 25eca61..1e78ea1 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -29,6 +29,7 @@ namespace SpMP
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   A->dealloc();
+  A->ownData_ = true;
 
   A->m = A->n = nx*ny*nz;
   A->rowptr = MALLOC(int, A->m + 1);
diff --git a/SymGS.cpp b/SymGS.cpp
index e8f56aa..aa6e7cd 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -16,6 +16,7 @@ void splitLU(CSR& A, CSR *L, CSR *U)
 
   L->dealloc();
   U->dealloc();
+  L->ownData_ = U->ownData_ = true;
 
   L->m = U->m = A.m;
   L->n = U->n = A.n;
-- 
2.43.0


From 0e603eaaa4a837f1ca571af6f9ece520256f211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 51/65] fix: a matrix that does not own its arrays takes the
 caller's extptr over when it is reloaded

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 57eff67..382c910 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -155,6 +155,8 @@ void CSR::dealloc()
       FREE(colidx);
       FREE(values);
     }
+    rowptr = extptr = colidx = NULL;
+    values = NULL;
 
     FREE(idiag);
     FREE(diag);
-- 
2.43.0


From 92fda3a96a80078603a82511c6188da7c4ff0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 52/65] fix: storeMatrixMarket leaks the type code string and,
 in COO, an open file

---
 COO.cpp | 1 +
 CSR.cpp | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index c375413..6f9b63d 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -57,6 +57,7 @@ void COO::storeMatrixMarket(const char *fileName) const
     fprintf(stderr, "Fail to open file %s\n", fileName);
     return;
   }
+  fclose(fp);
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
diff --git a/CSR.cpp b/CSR.cpp
index 382c910..7728ea1 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -297,8 +297,7 @@ void CSR::storeMatrixMarket(const char *fileName) const
   mm_set_real(&matcode);
 
   // print banner followed by typecode.
-  fprintf(fp, "%s ", MatrixMarketBanner);
-  fprintf(fp, "%s\n", mm_typecode_to_str(matcode));
+  mm_write_banner(fp, matcode);
 
   // print matrix size and nonzeros.
   fprintf(fp, "%d %d %d\n", m, n, rowptr[m] - base);
-- 
2.43.0


From 817f93602264b2a658aefb609bc9c030012c61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 53/65] fix: rebuilding a level schedule leaks the old one, and
 so does destroying a fused one in the memory pool

---
 LevelSchedule.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 4e58b2d..9157fe8 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -108,9 +108,9 @@ LevelSchedule::~LevelSchedule() {
     FREE(threadContToOrigPerm);
     FREE(parentsBuf[0]);
     FREE(parentsBuf[1]);
-
-    if (fusedSchedule) delete fusedSchedule;
   }
+
+  if (fusedSchedule) delete fusedSchedule;
 }
 
 void LevelSchedule::init_()
@@ -874,6 +874,22 @@ void constructTaskGraph_(
     }
   }
 
+  // when the schedule has been constructed before
+  if (!useMemoryPool) {
+    FREE(schedule->nparentsForward);
+    FREE(schedule->nparentsBackward);
+    FREE(schedule->parentsForward);
+    FREE(schedule->parentsBackward);
+
+    int *oldTaskFinished = (int *)schedule->taskFinished;
+    FREE(oldTaskFinished);
+
+    FREE(parentsBuf[0]);
+    FREE(parentsBuf[1]);
+  }
+  delete schedule->fusedSchedule;
+  schedule->fusedSchedule = NULL;
+
   schedule->nparentsForward = schedule->allocate<short>(ntasks);
   schedule->parentsForward = schedule->allocate<int *>(ntasks);
   short *nparentsForward = schedule->nparentsForward;
-- 
2.43.0


From 0b4e68c212a4a7bd8ceb7fe2b776423150b0e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 54/65] fix: initializing a memory pool again leaks its old
 buffer

---
 MemoryPool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 921e50d..1a86361 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -41,7 +41,7 @@ MemoryPool::MemoryPool() : size_(0), head_(0), tail_(0), buffer_(NULL)
 {
 }
 
-MemoryPool::MemoryPool(size_t sz)
+MemoryPool::MemoryPool(size_t sz) : buffer_(NULL)
 {
   initialize(sz);
 }
@@ -53,6 +53,7 @@ MemoryPool::~MemoryPool()
 
 void MemoryPool::initialize(size_t sz)
 {
+  finalize(); // when this has been initialized before
   size_ = sz;
   head_ = 0;
   tail_ = 0;
-- 
2.43.0


From 3959eb6af3b0b04dfc710447ad2256b517dab4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 55/65] fix: finding connected components leaks its union-find
 array

---
 reordering/BFSBipartite.cpp        | 1 +
 reordering/ConnectedComponents.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index ef0ef07..a902e9b 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -392,6 +392,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (rowsToFind) delete[] rowsToFind;
   if (colsToFind) delete[] colsToFind;
diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index b1f151b..48dc3be 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -324,6 +324,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (nodesToFind) delete[] nodesToFind;
 }
-- 
2.43.0


From 2bc6ce11e8387bf4ea54e7bfd55972a7bae2b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 56/65] fix: LoadImba leaks its per-thread records and
 dereferences missing ones when destroyed uninitialised

---
 synk/loadimba.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index be3e4d5..36db9cc 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -126,6 +126,7 @@ LoadImba::LoadImba(int numCores_, int numThreadsPerCore_)
     limba = (ThreadLoadImba **)
         _mm_malloc(numThreads * sizeof (ThreadLoadImba *), 64);
     if (limba == NULL) throw bad_alloc();
+    std::fill(limba, limba + numThreads, (ThreadLoadImba *)NULL);
 }
 
 
@@ -269,11 +270,13 @@ LoadImba::~LoadImba()
 {
     delete red;
     for (int i = 0;  i < numThreads;  i++) {
+        if (limba[i] == NULL) continue; // never initialized
         _mm_free(limba[i]->min);
         _mm_free(limba[i]->max);
         _mm_free(limba[i]->tot);
         _mm_free(limba[i]->cnt);
         _mm_free(limba[i]->bar);
+        _mm_free(limba[i]);
     }
     _mm_free(limba);
 }
-- 
2.43.0


From 7dd967c5c4325db9160253c0889f42cd8cbe794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 57/65] fix: RCM and BFS reordering leak the connected
 components they compute

---
 reordering/RCM.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index d31aaa5..eec5340 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -946,6 +946,10 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
 
   //double timeSecondPhase = omp_get_wtime() - tBegin;
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
   delete[] levels;
   delete[] children_array;
   delete[] write_offset;
@@ -1112,6 +1116,11 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
     }
   }
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
   timeSecondPhase += omp_get_wtime();
 
 #if 0
-- 
2.43.0


From 85c0445b9c01a9e13fce1987c8192b5a79bbf907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 58/65] fix: rejected Matrix Market files leak the arrays
 allocated for them

---
 COO.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 6f9b63d..bd1a576 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -184,6 +184,15 @@ void dcoo2csr(CSR *Acrs, const COO *Acoo, int outBase /*=0*/, bool createSeparat
   }
 }
 
+static void releaseArrays_(double *values, int *colidx, int *rowidx, int *colidx_temp, int *rowcnt)
+{
+  FREE(values);
+  FREE(colidx);
+  FREE(rowidx);
+  FREE(colidx_temp);
+  FREE(rowcnt);
+}
+
 static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric, bool transpose, int pad)
 {
   FILE *fp=fopen(file, "r");
@@ -245,19 +254,21 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   double *values = MALLOC(double, count + extraCount);
   int *colidx = MALLOC(int, count + extraCount);
   int *rowidx = MALLOC(int, count + extraCount);
+  int *colidx_temp = NULL, *rowcnt = NULL;
   if (!values || !colidx || !rowidx) {
     fprintf(stderr, "Failed to allocate memory\n");
     fclose(fp);
+    releaseArrays_(values, colidx, rowidx, colidx_temp, rowcnt);
     return false;
   }
 
-  int *colidx_temp, *rowcnt = NULL;
   if (coo.isSymmetric) {
     colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
       fclose(fp);
+      releaseArrays_(values, colidx, rowidx, colidx_temp, rowcnt);
       return false;
     }
     memset(rowcnt, 0, sizeof(int)*(m + 1));
@@ -276,11 +287,13 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     if (lines >= nnz) {
       fprintf(stderr, "Error: more entries than specified in the header (%d) in file %s\n", nnz, file);
       fclose(fp);
+      releaseArrays_(values, colidx, rowidx, colidx_temp, rowcnt);
       return false;
     }
     if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
+      releaseArrays_(values, colidx, rowidx, colidx_temp, rowcnt);
       return false;
     }
 
@@ -307,6 +320,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   if (0 == base && hasLastIdx) {
     fprintf(stderr, "Error: coordinate is out of range in file %s with 0-based indices.\n", file);
+    releaseArrays_(values, colidx, rowidx, colidx_temp, rowcnt);
     return false;
   }
 
@@ -326,6 +340,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   if (lines != nnz) {
     fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
             nnz, lines, file);
+    releaseArrays_(values, colidx, rowidx, colidx_temp, rowcnt);
     return false;
   }
     
-- 
2.43.0


From aa7a5bdf80bd31d6a42e2999665e058c0b3306dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 59/65] fix: mm_io leaks files and arrays on error paths and
 type code strings

---
 mm_io.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index d2ea993..bb30fdb 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -261,14 +261,23 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
 
 
     if ((ret_code = mm_read_banner(f, matcode)) != 0)
+    {
+        if (f != stdin) fclose(f);
         return ret_code;
+    }
 
     if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) && 
             mm_is_matrix(*matcode)))
+    {
+        if (f != stdin) fclose(f);
         return MM_UNSUPPORTED_TYPE;
+    }
 
     if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
+    {
+        if (f != stdin) fclose(f);
         return ret_code;
+    }
 
 
     *I = (int *)  malloc(*nz * sizeof(int));
@@ -280,25 +289,31 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
         *val = (double *) malloc(*nz * 2 * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
     else if (mm_is_real(*matcode) || mm_is_integer(*matcode))
     {
         *val = (double *) malloc(*nz * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
 
     else if (mm_is_pattern(*matcode))
     {
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
 
     if (f != stdin) fclose(f);
-    return 0;
+
+    if (ret_code != 0)
+    {
+        free(*I);
+        free(*J);
+        free(*val);
+        *I = *J = NULL;
+        *val = NULL;
+    }
+    return ret_code;
 }
 /******************************************************************************/
 
@@ -500,6 +515,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
+        fclose(f);
         return -1;
     }
  
@@ -509,8 +525,10 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
             mm_is_sparse(matcode)))
     {
         fprintf(stderr, "Sorry, this application does not support ");
-        fprintf(stderr, "Market Market type: [%s]\n",
-                mm_typecode_to_str(matcode));
+        char *str = mm_typecode_to_str(matcode);
+        fprintf(stderr, "Market Market type: [%s]\n", str);
+        free(str);
+        fclose(f);
         return -1;
     }
  
@@ -521,6 +539,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+        fclose(f);
         return -1;
     }
  
@@ -737,8 +756,7 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 /*
   print banner followed by typecode.
 */
-    fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    mm_write_banner(f, matcode);
 
 /*
   print matrix sizes and nonzeros.
-- 
2.43.0


From 9019fe7d704a7892bfd16bfa947117f3b0ee66b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 60/65] fix: printLoadImbalance wraps around when the barrier
 time exceeds the total

---
 synk/loadimba.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 36db9cc..7b3781e 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -261,7 +261,7 @@ void LoadImba::printLoadImbalance(unsigned long long refTime) {
 
   printf(
     "Load imbalance = %f\n",
-    (double)(tot - bar)/numThreads/refTime);
+    ((double)tot - (double)bar)/numThreads/refTime);
 }
 
 
-- 
2.43.0


From f32d30b34a3fab01a4cef34d1da97fb313baaed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 61/65] fix: connected components writes the size of a
 component that does not exist

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 48dc3be..95c5c44 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -275,7 +275,7 @@ void findConnectedComponents_(
   int cPerThread = (nComp + nthreads - 1)/nthreads;
   int cBegin = max(min(cPerThread*tid, nComp), 1);
   int cEnd = min(cBegin + cPerThread, nComp);
-  if (0 == tid) {
+  if (0 == tid && nComp > 0) {
     (*compSizes)[0] = (*compSizePrefixSum)[nComp*(nthreads - 1)];
   }
   for (int c = cBegin; c < cEnd; ++c) {
-- 
2.43.0


From 0924221224088b937cc3e5481d5e561bc09550d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 62/65] fix: RCM and BFS reordering of an empty matrix access a
 component that does not exist

---
 reordering/RCM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index eec5340..1bf6586 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -669,6 +669,7 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
     fprintf(stderr, "BFS permutation only supports square matrices\n");
     exit(-1);
   }
+  if (0 == m) return;
   assert(isSymmetric(false)); // check structural symmetry
 
   int oldBase = getBase();
@@ -983,6 +984,7 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
     fprintf(stderr, "BFS permutation only supports square matrices\n");
     exit(-1);
   }
+  if (0 == m) return;
   assert(isSymmetric(false)); // check structural symmetry
 
   BitVector bv(m);
-- 
2.43.0


From 5e7861164b0a9fb91b5bae1cc76f013f8426fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 63/65] fix: products with very wide dense matrices overflow
 the stack

---
 SpMV.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 9946205..c474f59 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -23,6 +23,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 
 #include <algorithm>
+#include <vector>
 
 #include "CSR.hpp"
 
@@ -216,7 +217,7 @@ static void SpMDM_(
     iBegin += base;
     iEnd += base;
 
-    T sum[k];
+    vector<T> sum(k); // on the heap: k can be too large for the stack
     if (1 == alpha && 0 == beta && 0 == gamma && 1 == wRowStride && 1 == xRowStride && 1 == yRowStride) {
       for (int i1 = iBegin; i1 < iEnd; ++i1) {
         for (int i3 = 0; i3 < k; ++i3) {
-- 
2.43.0


From 2e302e4d322cbe86415e63fbb280243c57004d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 64/65] fix: CSR::loadBin leaves stale dimensions when the file
 cannot be opened

---
 CSR.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 7728ea1..907db7b 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -317,6 +317,7 @@ static const int MAT_FILE_CLASSID = 1211216;
 void CSR::loadBin(const char *file_name, int base /*=0*/)
 {
   dealloc();
+  m = n = 0;
 
   FILE *fp = fopen(file_name, "r");
   if (!fp) {
@@ -324,8 +325,6 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
     return;
   }
 
-  m = n = 0;
-
   int id, nnz;
   if (1 != fread(&id, sizeof(id), 1, fp) || MAT_FILE_CLASSID != id) {
     fprintf(stderr, "Wrong file ID in %s\n", file_name);
-- 
2.43.0


From 6f445425938e548b71724c34397c2a005b4aa5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 65/65] fix: the transpose of a matrix without columns has no
 row pointer

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 907db7b..9d9de66 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -547,6 +547,9 @@ CSR *CSR::transpose() const
   }
 
   if (0 == n) {
+    AT->rowptr = MALLOC(int, 1);
+    assert(AT->rowptr);
+    AT->rowptr[0] = base;
     return AT;
   }
 
-- 
2.43.0

