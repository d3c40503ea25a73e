From d698955f27831aea83f745df7ceeaba41c9a829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 01/61] fix: vectors and dense matrices holding NaN compared
 equal to anything

---
 include/vectorview.hpp | 2 +-
 src/densematrix.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 0a7e721..32cca1f 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -663,7 +663,7 @@ bool operator==(const VectorView<T>& lhs, const VectorView<U>& rhs)
 
     for (int i = 0; i < size; ++i)
     {
-        if (std::fabs(lhs[i] - rhs[i]) > tol)
+        if (lhs[i] != rhs[i] && !(std::fabs(lhs[i] - rhs[i]) <= tol))
         {
             return false;
         }
diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 947f6c8..0ad3f45 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -357,7 +357,7 @@ bool DenseMatrix::operator==(const DenseMatrix& other) const
     {
         for (int i = 0; i < rows_; ++i)
         {
-            if (std::fabs((*this)(i, j) - other(i, j)) > tol)
+            if ((*this)(i, j) != other(i, j) && !(std::fabs((*this)(i, j) - other(i, j)) <= tol))
             {
                 return false;
             }
-- 
2.43.0


From 9f9f361c8dd947d5f6a008e0a328a04a4275d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 02/61] fix: declare the VectorView<double>::Normalize
 specialization before use

---
 include/vectorview.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 32cca1f..49afc63 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -802,6 +802,9 @@ void VectorView<T>::Normalize()
     throw std::runtime_error("Cannot normalize unless double!");
 }
 
+template <>
+void VectorView<double>::Normalize();
+
 /*! @brief Subtract a constant vector set to the average
     from this vector: x_i = x_i - mean(x)
     @param vect vector to subtract average from
-- 
2.43.0


From e9ae6023e98082f4d6876624ddc1f0f74914889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 03/61] fix: z = x + y and z = x - y must not depend on the
 previous content of z

---
 include/vectorview.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 49afc63..ce6d932 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -841,7 +841,15 @@ void Add(T alpha, const VectorView<T>& x, T beta, const VectorView<T>& y, T gamm
 template <typename T>
 void Add(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 {
-    Add(1.0, x, 1.0, y, 0.0, z);
+    int size = x.size();
+
+    assert(y.size() == size);
+    assert(z.size() == size);
+
+    for (int i = 0; i < size; ++i)
+    {
+        z[i] = x[i] + y[i];
+    }
 }
 
 /*! @brief Compute z = x - y
@@ -852,7 +860,15 @@ void Add(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 template <typename T>
 void Sub(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 {
-    Add(1.0, x, -1.0, y, 0.0, z);
+    int size = x.size();
+
+    assert(y.size() == size);
+    assert(z.size() == size);
+
+    for (int i = 0; i < size; ++i)
+    {
+        z[i] = x[i] - y[i];
+    }
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 6588f599327dc50a103bf01ce96669dfb08685c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 04/61] fix: Vector assignment from a mutable or temporary
 VectorView resizes

Overload resolution preferred VectorView::operator=(VectorView&) and
VectorView::operator=(VectorView&&), which do not resize, over
Vector::operator=(const VectorView&): a view of another size ran past the
end of the vector.
---
 include/vector.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/vector.hpp b/include/vector.hpp
index e57d787..21ed9a1 100644
--- a/include/vector.hpp
+++ b/include/vector.hpp
@@ -89,6 +89,8 @@ class Vector : public VectorView<T>
             @param vect the vector to copy
         */
         Vector& operator=(const VectorView<T>& vect) noexcept;
+        Vector& operator=(VectorView<T>& vect) noexcept;
+        Vector& operator=(VectorView<T>&& vect) noexcept;
 
         /*! @brief Sets this vector equal to another
             @param vect the vector to copy
@@ -221,6 +223,18 @@ Vector<T>& Vector<T>::operator=(const VectorView<T>& vect) noexcept
     return *this;
 }
 
+template <typename T>
+Vector<T>& Vector<T>::operator=(VectorView<T>& vect) noexcept
+{
+    return *this = static_cast<const VectorView<T>&>(vect);
+}
+
+template <typename T>
+Vector<T>& Vector<T>::operator=(VectorView<T>&& vect) noexcept
+{
+    return *this = static_cast<const VectorView<T>&>(vect);
+}
+
 template <typename T>
 Vector<T>& Vector<T>::operator=(Vector<T>&& vect) noexcept
 {
-- 
2.43.0


From 338c9201d5d0109838ce896e634f00f5768317a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 05/61] fix: CooMatrix and LilMatrix move constructors read an
 uninitialised flag

---
 include/coomatrix.hpp | 1 +
 include/lilmatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b6264c4..efb6762 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -281,6 +281,7 @@ CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
 
 template <typename T>
 CooMatrix<T>::CooMatrix(CooMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index dd181e6..fde6d75 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -207,6 +207,7 @@ LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
 
 template <typename T>
 LilMatrix<T>::LilMatrix(LilMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
-- 
2.43.0


From e2e4a0db312fdf37fb94e7844d401b40594cdda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 06/61] fix: SparseMatrix can be filled with zero

operator=(val) carried the assertion of operator/=, so assigning zero to
every stored entry aborted debug builds.
---
 include/sparsematrix.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 8a79419..b25d474 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -1197,8 +1197,6 @@ template <typename T>
 template <typename U>
 SparseMatrix<T>& SparseMatrix<T>::operator=(U val)
 {
-    assert(val != 0);
-
     std::fill(begin(data_), end(data_), val);
 
     return *this;
-- 
2.43.0


From f24abf39d6cfcc603ca29caf856d1a6b07351343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 07/61] fix: CooMatrix and LilMatrix MultAT accept rectangular
 matrices

The size assertions were those of Mult, so the transposed product of every
rectangular matrix aborted debug builds.
---
 include/coomatrix.hpp | 4 ++--
 include/lilmatrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index efb6762..adf34d2 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -655,8 +655,8 @@ void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void CooMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Cols() == output.size());
+    assert(Rows() == input.size());
 
     output = 0;
 
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index fde6d75..72b9bd7 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -435,8 +435,8 @@ void LilMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void LilMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Cols() == output.size());
+    assert(Rows() == input.size());
 
     output = 0;
 
-- 
2.43.0


From 4bb41d41f8d2501a7b75034a9b6bf6bf9399ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 08/61] fix: CooMatrix and LilMatrix EliminateZeros remove
 zeros

With the default tolerance of zero the strict comparison never held and
nothing was removed; SparseMatrix keeps the entries above the tolerance.
---
 include/coomatrix.hpp | 2 +-
 include/lilmatrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index adf34d2..c252870 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -693,7 +693,7 @@ void CooMatrix<T>::EliminateZeros(double tolerance)
     auto compare = [&] (const std::tuple<int, int, T>& entry)
     {
         const double val = std::get<2>(entry);
-        return std::abs(val) < tolerance;
+        return std::abs(val) <= tolerance;
     };
 
     entries_.erase(std::remove_if(std::begin(entries_), std::end(entries_),
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 72b9bd7..8d08354 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -487,7 +487,7 @@ void LilMatrix<T>::EliminateZeros(double tolerance)
         row.erase(std::remove_if(std::begin(row), std::end(row),
                                  [&](const std::pair<int, double>& entry)
         {
-            return std::abs(entry.second) < tolerance;
+            return std::abs(entry.second) <= tolerance;
         }),
         std::end(row));
     }
-- 
2.43.0


From df5022a8cfb54ca276917c77aaaf755efa4384cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 09/61] fix: LilMatrix without explicit size had one row too
 many

The row count is the number of row lists, not the largest row index. The
extra row also left the last row pointer of ToSparse at zero, an invalid
CSR matrix.
---
 include/lilmatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 8d08354..f2e43e2 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -501,7 +501,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         return std::tuple<int, int> {rows_, cols_};
     }
 
-    const int rows = entries_.size();
+    const int rows = std::max<int>(entries_.size(), 1);
     int cols = 0;
 
     for (const auto& row : entries_)
@@ -512,7 +512,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         }
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols + 1};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 32cca55453ea53292167e0304d84692b9d309f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 10/61] fix: LilMatrix::SetSize allocates the row lists

Adding an entry after SetSize wrote past the end of the row lists.
---
 include/lilmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index f2e43e2..6ac01b1 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -254,6 +254,8 @@ void LilMatrix<T>::SetSize(int rows, int cols)
 
     rows_ = rows;
     cols_ = cols;
+
+    entries_.resize(rows);
 }
 
 template <typename T>
-- 
2.43.0


From 1ab2f95bdb9c552bdb9c309450c58c93f5c44307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 11/61] fix: CooMatrix without explicit size reports the size
 of its entries

Rows() and Cols() returned zero, so every product through the Operator
interface wrote past the end of an empty output. LilMatrix already
overrides both.
---
 include/coomatrix.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index c252870..0312122 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -66,6 +66,24 @@ class CooMatrix : public Operator
         template <typename U>
         friend void swap(CooMatrix<U>& lhs, CooMatrix<U>& rhs) noexcept;
 
+        /*! @brief Get the number of rows.
+            @retval the number of rows
+
+            @note If the matrix size was not specified during
+            creation, then the number of rows is determined
+            by the max element.
+        */
+        int Rows() const override;
+
+        /*! @brief Get the number of columns.
+            @retval the number of columns
+
+            @note If the matrix size was not specified during
+            creation, then the number of columns is determined
+            by the max element.
+        */
+        int Cols() const override;
+
         /*! @brief Set the size of the matrix
             @param rows the number of rows
             @param cols the number of columns
@@ -303,6 +321,24 @@ void swap(CooMatrix<T>& lhs, CooMatrix<T>& rhs) noexcept
     std::swap(lhs.entries_, rhs.entries_);
 }
 
+template <typename T>
+int CooMatrix<T>::Rows() const
+{
+    int rows;
+    std::tie(rows, std::ignore) = FindSize();
+
+    return rows;
+}
+
+template <typename T>
+int CooMatrix<T>::Cols() const
+{
+    int cols;
+    std::tie(std::ignore, cols) = FindSize();
+
+    return cols;
+}
+
 template <typename T>
 void CooMatrix<T>::SetSize(int rows, int cols)
 {
-- 
2.43.0


From 1c4134c52a0e2de23b638c8e3969968255edc455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 12/61] fix: define operator/(double, DenseMatrix)

---
 src/densematrix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 0ad3f45..963cc4f 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -337,6 +337,16 @@ DenseMatrix operator/(DenseMatrix lhs, double val)
     return lhs /= val;
 }
 
+DenseMatrix operator/(double val, DenseMatrix rhs)
+{
+    for (auto& i : rhs.data_)
+    {
+        i = val / i;
+    }
+
+    return rhs;
+}
+
 DenseMatrix& DenseMatrix::operator=(double val)
 {
     std::fill(begin(data_), end(data_), val);
-- 
2.43.0


From 4eff96d9327cf2269affcfa9618a560b2dcc2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 13/61] fix: dense products with an empty dimension

---
 src/densematrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 963cc4f..020cf66 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -245,14 +245,14 @@ void DenseMatrix::dgemm(const DenseMatrix& input, DenseMatrix& output, bool AT,
 
     double alpha = 1.0;
     const double* A = data_.data();
-    int lda = rows_;
+    int lda = std::max(1, rows_);
     const double* B = input.data_.data();
-    int ldb = input.Rows();
+    int ldb = std::max(1, input.Rows());
     double beta = 0.0;
 
     output.SetSize(m, n);
     double* c = output.data_.data();
-    int ldc = output.Rows();
+    int ldc = std::max(1, output.Rows());
 
 
     dgemm_(&transA, &transB, &m, &n, &k,
-- 
2.43.0


From aa254480b486a0ed98a754c5363e304c61260972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 14/61] fix: dense sub matrices may be empty

---
 src/densematrix.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 020cf66..743a678 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -460,8 +460,8 @@ DenseMatrix DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int e
 
 void DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int end_j, DenseMatrix& dense) const
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -516,8 +516,8 @@ void DenseMatrix::SetSubMatrix(int start_i, int start_j, const DenseMatrix& dens
 
 void DenseMatrix::SetSubMatrix(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -541,8 +541,8 @@ void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, const DenseMat
 
 void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
-- 
2.43.0


From 7d5e5e1eace311875dc1997ebfed3cdeebc14dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 15/61] fix: QR of a matrix with more columns than rows

---
 src/densematrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 743a678..022c86c 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -665,7 +665,7 @@ void DenseMatrix::QR()
 
     lwork = static_cast<int>(qwork);
 
-    std::vector<int> jpvt(mn_min, 0);
+    std::vector<int> jpvt(cols, 0);
     std::vector<double> tau(mn_min);
     std::vector<double> work(lwork);
 
@@ -674,12 +674,12 @@ void DenseMatrix::QR()
     const int* k = &mn_min;
 
     lwork = -1;
-    dorgqr_(m, n, k, A, lda, tau.data(), &qwork, &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), &qwork, &lwork, &info);
     lwork = static_cast<int>(qwork);
 
     work.resize(lwork);
 
-    dorgqr_(m, n, k, A, lda, tau.data(), work.data(), &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), work.data(), &lwork, &info);
 
     assert(info == 0);
 }
-- 
2.43.0


From 47188b14cf1beb8f7c5d988009ec93fe59b92e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 16/61] fix: EigenSolver read past the eigenvalues when
 max_evect exceeds the size

---
 src/eigensolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index f35eecf..4bad87c 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -96,7 +96,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
 
-    if (max_evect < 0)
+    if (max_evect < 0 || max_evect > n)
     {
         max_evect = n;
     }
-- 
2.43.0


From 9ed7d3d46730c7a0e77c9b1b26da1d701f7d16ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 17/61] fix: EigenSolver eigenvectors when the tridiagonal
 matrix splits

---
 include/eigensolver.hpp |  6 ------
 src/eigensolver.cpp     | 42 +++++++++++------------------------------
 2 files changed, 11 insertions(+), 37 deletions(-)

diff --git a/include/eigensolver.hpp b/include/eigensolver.hpp
index 24ccaed..6c6ab1e 100644
--- a/include/eigensolver.hpp
+++ b/include/eigensolver.hpp
@@ -93,17 +93,11 @@ class EigenSolver
 
         std::vector<double> A_;
         std::vector<double> work_;
-        std::vector<int> iwork_;
 
         // Triangularization info
         std::vector<double> d_;
         std::vector<double> e_;
         std::vector<double> tau_;
-
-        // Block info for dstein_ / dormtr_
-        std::vector<int> iblock_;
-        std::vector<int> isplit_;
-        std::vector<int> ifail_;
 };
 
 } //namespace linalgcpp
diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 4bad87c..16907cc 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -11,13 +11,8 @@ extern "C"
                  double* d, double* e, double* tau, double* work,
                  int* lwork, int* info );
 
-    void dsterf_(const int* n, double* d, double* e, int* info);
-
-    void dstein_(const int* n, const double* d, const double* e,
-                 int* m, const double* w, const int* iblock,
-                 const int* isplit, double* z, const int* ldz,
-                 double* work, int* iwork, int* ifailv,
-                 int* info);
+    void dsteqr_(const char* compz, const int* n, double* d, double* e,
+                 double* z, const int* ldz, double* work, int* info);
 
     void dormtr_(char* side, char* uplo, char* trans, const int* m,
                  const int* n, const double* a, const int* lda,
@@ -85,13 +80,13 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     dsytrd_(&uplo_, &n, a, &n, d_.data(), e_.data(), tau_.data(), work_.data(),
             &lwork_, &info_ );
 
-    // d_ and e_ changed by dsterf_
-    // copy since they are needed for dstein_
+    // Compute all eigenvalues and eigenvectors of T
+    // (dstein_ would need T to be split into its unreduced blocks)
     std::copy_n(std::begin(d_), n, std::begin(evals));
-    auto e_copy = e_;
+    evects.SetSize(n, n);
 
-    // Compute all eigenvalues
-    dsterf_(&n, evals.data(), e_copy.data(), &info_);
+    dsteqr_("I", &n, evals.data(), e_.data(), evects.GetData(), &n,
+            work_.data(), &info_);
 
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
@@ -108,18 +103,8 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
         ++m;
     }
 
-    ifail_.resize(m);
-    isplit_[0] = n;
-
+    // Keep the leading m eigenvectors
     evects.SetSize(n, m);
-    //std::vector<double> evect_data(n * m);
-
-    // Calculate Eigenvectors of T
-    dstein_(&n, d_.data(), e_.data(),
-            &m, evals.data(), iblock_.data(),
-            isplit_.data(), evects.GetData(), &n,
-            work_.data(), iwork_.data(), ifail_.data(),
-            &info_);
 
     // Compute Q * (eigenvectors of T)
     dormtr_(&side_, &uplo_, &trans_, &n,
@@ -141,13 +126,13 @@ void EigenSolver::AllocateWorkspace(int size)
     int lwork = -1;
     double wkopt;
 
-    // find max workspace between dsytrd_, dstein_ and dormtr_
+    // find max workspace between dsytrd_, dsteqr_ and dormtr_
     dsytrd_(&uplo_, &size, nullptr, &size,
             d_.data(), e_.data(), tau_.data(), &wkopt,
             &lwork, &info_ );
 
-    // 5n is for dstein_
-    lwork_ = std::max(5 * size, (int)wkopt);
+    // 2n is for dsteqr_
+    lwork_ = std::max(2 * size, (int)wkopt);
 
     dormtr_(&side_, &uplo_, &trans_, &size,
             &size, nullptr, &size,
@@ -157,15 +142,10 @@ void EigenSolver::AllocateWorkspace(int size)
     lwork_ = std::max(lwork_, (int)wkopt);
 
     work_.resize(lwork_);
-    iwork_.resize(size);
 
     d_.resize(size);
     e_.resize(size);
     tau_.resize(size);
-
-    iblock_.resize(size, 1);
-    isplit_.resize(size, 0);
-    iwork_.resize(size);
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 3de53758492b210c1a151c8e20d549d5645ef0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 18/61] fix: BlockMatrix::Combine for element types other than
 double

---
 include/blockmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 35d8b28..55fa3ae 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -236,7 +236,7 @@ SparseMatrix<T> BlockMatrix<T>::Combine() const
 
     std::vector<int> indptr(rows_ + 1);
     std::vector<int> indices(nnz);
-    std::vector<double> data(nnz);
+    std::vector<T> data(nnz);
 
     indptr[0] = 0;
 
-- 
2.43.0


From dc2ffc7539faefa5487a707e1f70d0d2a8c67796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 19/61] fix: BlockMatrix::Transpose transposes its blocks

---
 include/blockmatrix.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 55fa3ae..469ae01 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -214,7 +214,12 @@ BlockMatrix<T> BlockMatrix<T>::Transpose() const
     {
         for (int j = 0; j < col_blocks; ++j)
         {
-            transpose.SetBlock(j, i, GetBlock(i, j));
+            const auto& block = GetBlock(i, j);
+
+            if (block.Rows() > 0 || block.Cols() > 0)
+            {
+                transpose.SetBlock(j, i, block.Transpose());
+            }
         }
     }
 
-- 
2.43.0


From fc13071fd12a48407e18bed9b6315d516fcf1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 20/61] fix: PCG divided by zero when it converged exactly
 without an absolute tolerance

---
 src/solvers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ba2fe0b..3c6ab60 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -171,7 +171,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     num_iter_ = 1;
 
-    if ((*Dot_)(z_, r_) < tol_tol)
+    if ((*Dot_)(z_, r_) <= tol_tol)
     //if ((*Dot_)(r_, r_) < tol_tol)
     {
         return;
@@ -209,7 +209,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("PCG %d: %.2e\n", num_iter_, numer / r0);
         }
 
-        if (numer < tol_tol)
+        if (numer <= tol_tol)
         {
             break;
         }
-- 
2.43.0


From 1b9faaa5959481c34361648c920e9a700055b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 21/61] fix: MINRES and PMINRES divided by zero when the guess
 solves the system

---
 src/solvers.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 3c6ab60..497ba7a 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -307,6 +307,13 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
+    num_iter_ = 0;
+
+    if (beta <= tol)
+    {
+        return;
+    }
+
     for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
     {
         v1_ /= beta;
@@ -350,7 +357,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("MINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
@@ -457,6 +464,13 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
+    num_iter_ = 0;
+
+    if (beta <= tol)
+    {
+        return;
+    }
+
     for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
     {
         v1_ /= beta;
@@ -503,7 +517,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
             printf("PMINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
-- 
2.43.0


From 8dff933c9d612625bb17b9d7641da92d537210ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 22/61] fix: MINRES and PMINRES compare the residual norm with
 the tolerances

---
 src/solvers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 497ba7a..8958946 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -305,7 +305,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
     double sigma = 0;
     double sigma2 = 0;
 
-    double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    double tol = std::max(beta * rel_tol_, abs_tol_);
 
     num_iter_ = 0;
 
@@ -462,7 +462,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
     double sigma = 0;
     double sigma2 = 0;
 
-    double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    double tol = std::max(beta * rel_tol_, abs_tol_);
 
     num_iter_ = 0;
 
-- 
2.43.0


From cc807f00186f0800e2969aba04140d6d59720b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 23/61] fix: PCG performs at most max_iter iterations and
 reports those performed

---
 src/solvers.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 8958946..79b25b4 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -169,9 +169,9 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    num_iter_ = 1;
+    num_iter_ = 0;
 
-    if ((*Dot_)(z_, r_) <= tol_tol)
+    if (max_iter_ < 1 || (*Dot_)(z_, r_) <= tol_tol)
     //if ((*Dot_)(r_, r_) < tol_tol)
     {
         return;
@@ -179,6 +179,8 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     do
     {
+        ++num_iter_;
+
         A_->Mult(p_, Ap_);
 
         double pAp = (*Dot_)(p_, Ap_);
@@ -219,7 +221,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         p_ *= beta;
         p_ += z_;
     }
-    while (++num_iter_ < max_iter_);
+    while (num_iter_ < max_iter_);
 }
 
 Vector<double> PCG(const Operator& A, const Operator& M, const VectorView<double>& b,
-- 
2.43.0


From a94b468a2f31abfd693ba716dc920137d7765128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 24/61] fix: MINRES and PMINRES report at most max_iter
 iterations

---
 src/solvers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 79b25b4..8f71f50 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -367,6 +367,8 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         swap(v0_, v1_);
         swap(w0_, w1_);
     }
+
+    num_iter_ = std::min(num_iter_, max_iter_);
 }
 
 Vector<double> MINRES(const Operator& A, const VectorView<double>& b,
@@ -528,6 +530,8 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
         swap(v0_, v1_);
         swap(w0_, w1_);
     }
+
+    num_iter_ = std::min(num_iter_, max_iter_);
 }
 
 Vector<double> PMINRES(const Operator& A, const Operator& M, const VectorView<double>& b,
-- 
2.43.0


From e2ccabf22d4889af261720c048ac7eab3bb25e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 25/61] fix: WriteCooList for element types other than double

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 2f6dd18..34b30d0 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -370,7 +370,7 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
 
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
-    const std::vector<double>& data = mat.GetData();
+    const std::vector<T>& data = mat.GetData();
 
     const int rows = mat.Rows();
 
-- 
2.43.0


From aa4d6faea642b3fbfcc5d26c6ed1d5bcdfb1cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 26/61] fix: WriteMTX writes the Matrix Market banner

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 34b30d0..bca091c 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -708,7 +708,7 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
     int nnz = mat.nnz();
 
     file.precision(16);
-    file << "%MatrixMarket matrix coordinate real general\n";
+    file << "%%MatrixMarket matrix coordinate real general\n";
     file << rows << " " << cols << " " << nnz <<  "\n";
 
     const std::vector<int>& indptr = mat.GetIndptr();
-- 
2.43.0


From f77e5e304d09ce1cc49f2dd8c9ff2a20f7414628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 27/61] fix: ReadTable of a table without entries

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index bca091c..8e47bce 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -427,7 +427,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     file.close();
 
     const int rows = indptr.size() - 1;
-    const int cols = *std::max_element(begin(indices), end(indices)) + 1;
+    const int cols = indices.empty() ? 0 : *std::max_element(begin(indices), end(indices)) + 1;
 
     std::vector<T> data(indices.size(), 1);
 
-- 
2.43.0


From ff0014f582d826a57a6e856a4f9c0ba36682eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 28/61] fix: WriteCooList writes values in full precision

---
 include/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/parser.hpp b/include/parser.hpp
index 8e47bce..347d69b 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -368,6 +368,8 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
+    file.precision(16);
+
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
     const std::vector<T>& data = mat.GetData();
-- 
2.43.0


From a0d47879bc9892a83b13db3a89d1b67333ea6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 29/61] fix: ReadBinaryMat opens its file for reading only

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 347d69b..a436db7 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -160,7 +160,7 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
 template <typename T = double>
 SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
 {
-    std::ifstream file(file_name.c_str(), std::ios::out | std::ios::binary);
+    std::ifstream file(file_name.c_str(), std::ios::in | std::ios::binary);
 
     if (!file.is_open())
     {
-- 
2.43.0


From af74bfd49bad3944e6de8c9f20aaa0c070130ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 30/61] fix: Matrix Market symmetry is read from the banner, in
 any letter case

---
 include/parser.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index a436db7..9a70a61 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -4,7 +4,9 @@
 
 #include <memory>
 #include <vector>
+#include <algorithm>
 #include <assert.h>
+#include <ctype.h>
 #include <fstream>
 
 #include "vector.hpp"
@@ -591,7 +593,12 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
 
     while (getline(file, line) && line.size() && line[0] == '%')
     {
-        symmetric |= (line.find("symmetric") != std::string::npos);
+        // Only the banner describes the symmetry, comments may mention anything
+        if (line.find("MatrixMarket") != std::string::npos)
+        {
+            std::transform(begin(line), end(line), begin(line), ::tolower);
+            symmetric = (line.find("symmetric") != std::string::npos);
+        }
     }
 
     int rows;
@@ -649,7 +656,12 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
 
     while (getline(file, line) && line.size() && line[0] == '%')
     {
-        symmetric |= (line.find("symmetric") != std::string::npos);
+        // Only the banner describes the symmetry, comments may mention anything
+        if (line.find("MatrixMarket") != std::string::npos)
+        {
+            std::transform(begin(line), end(line), begin(line), ::tolower);
+            symmetric = (line.find("symmetric") != std::string::npos);
+        }
     }
 
     int rows;
-- 
2.43.0


From 1eec2b0a4378c9764ab5ff3924813e305a1e45ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 31/61] fix: Matrix Market readers skip blank lines before the
 size line

---
 include/parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 9a70a61..5bc60be 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -591,7 +591,8 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     bool symmetric = false;
     std::string line;
 
-    while (getline(file, line) && line.size() && line[0] == '%')
+    // Comments and blank lines may precede the size line
+    while (getline(file, line) && (line[0] == '%' || line.find_first_not_of(" \t\r") == std::string::npos))
     {
         // Only the banner describes the symmetry, comments may mention anything
         if (line.find("MatrixMarket") != std::string::npos)
@@ -654,7 +655,8 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     bool symmetric = false;
     std::string line;
 
-    while (getline(file, line) && line.size() && line[0] == '%')
+    // Comments and blank lines may precede the size line
+    while (getline(file, line) && (line[0] == '%' || line.find_first_not_of(" \t\r") == std::string::npos))
     {
         // Only the banner describes the symmetry, comments may mention anything
         if (line.find("MatrixMarket") != std::string::npos)
-- 
2.43.0


From 146676ac268683e41865c068b61226c4a2f2016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 32/61] fix: ArgParser takes string arguments whole

---
 include/argparser.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/argparser.hpp b/include/argparser.hpp
index 5128289..d242b78 100644
--- a/include/argparser.hpp
+++ b/include/argparser.hpp
@@ -59,6 +59,9 @@ class ArgParser
         bool IsGood() const;
 
     private:
+        template <typename T>
+        static void Convert(const std::string& value, T& arg);
+
         mutable std::map<std::string, std::string> help_;
         mutable std::vector<std::string> errors_;
         mutable std::map<std::string, std::string> values_;
@@ -70,6 +73,22 @@ class ArgParser
 template <>
 void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& help) const;
 
+template <typename T>
+void ArgParser::Convert(const std::string& value, T& arg)
+{
+    std::stringstream(value) >> arg;
+}
+
+// Text is taken whole, white space included
+template <>
+inline void ArgParser::Convert(const std::string& value, std::string& arg)
+{
+    if (!value.empty())
+    {
+        arg = value;
+    }
+}
+
 template <typename T>
 void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help) const
 {
@@ -77,7 +96,7 @@ void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help)
 
     if (values_.find(flag) != values_.end())
     {
-        std::stringstream(values_[flag]) >> arg;
+        Convert(values_[flag], arg);
     }
 
     if (seen_values_.find(flag) == seen_values_.end())
-- 
2.43.0


From a65da0c2ae097e69976005f8dcfde058d1da9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 33/61] fix: Timer uses the steady clock

---
 include/timer.hpp | 2 +-
 src/timer.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timer.hpp b/include/timer.hpp
index dd9d42e..b0d3a9c 100644
--- a/include/timer.hpp
+++ b/include/timer.hpp
@@ -23,7 +23,7 @@ class Timer
         double operator[](int index) const;
 
     private:
-        std::vector<std::chrono::time_point<std::chrono::high_resolution_clock>> times_;
+        std::vector<std::chrono::time_point<std::chrono::steady_clock>> times_;
 
 };
 
diff --git a/src/timer.cpp b/src/timer.cpp
index 317b6b7..1b0c6a0 100644
--- a/src/timer.cpp
+++ b/src/timer.cpp
@@ -13,7 +13,7 @@ Timer::Timer(Start start)
 
 void Timer::Click()
 {
-    times_.push_back(std::chrono::high_resolution_clock::now());
+    times_.push_back(std::chrono::steady_clock::now());
 }
 
 double Timer::TotalTime() const
-- 
2.43.0


From 1b64a0043ec424cdc7b2994450b3cb99238d2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 34/61] fix: copies of an empty SparseSolver had an
 uninitialised factorisation

---
 modules/sparsesolver/src/sparsesolve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index b354fd5..3286c9f 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -18,7 +18,8 @@ SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
 }
 
 SparseSolver::SparseSolver(const SparseSolver& other) noexcept
-    : Operator(other), A_(other.A_), control_(other.control_), info_(other.info_)
+    : Operator(other), A_(other.A_), numeric_(nullptr),
+      control_(other.control_), info_(other.info_)
 {
     if (A_.nnz() > 0)
     {
-- 
2.43.0


From af0d70450f19c90385fc45131490e80579fdbd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 35/61] fix: SparseSolver move constructor handed an
 uninitialised factorisation to its source

---
 modules/sparsesolver/src/sparsesolve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index 3286c9f..ab03cd9 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -28,6 +28,7 @@ SparseSolver::SparseSolver(const SparseSolver& other) noexcept
 }
 
 SparseSolver::SparseSolver(SparseSolver&& other) noexcept
+    : numeric_(nullptr)
 {
     swap(*this, other);
 }
-- 
2.43.0


From 82b506148af2113ad82dc673ca652735995bd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 36/61] fix: partitioning graphs with few edges and no diagonal
 reserved a negative size

---
 modules/partition/include/partition.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index 04c895e..fc40d06 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -17,14 +17,12 @@ MakeAdjacencyInfo(const linalgcpp::SparseMatrix<T>& mat, bool weighted = false)
 {
     assert(mat.Cols() == mat.Rows());
 
-    int num_edges = (mat.nnz() - mat.Rows()) / 2;
-
     std::vector<U> indptr(mat.Rows() + 1);
     std::vector<U> indices;
     std::vector<U> data;
 
-    indices.reserve(num_edges);
-    data.reserve(num_edges);
+    indices.reserve(mat.nnz());
+    data.reserve(mat.nnz());
 
     indptr[0] = 0;
 
-- 
2.43.0


From 6efd22a44f55de790020158608fb5ddcbf4a60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 37/61] fix: contiguous partitions are connected also for parts
 of few vertices

---
 modules/partition/include/partition.hpp | 98 +++++++++++++++++++++++++
 1 file changed, 98 insertions(+)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index fc40d06..ccbf26f 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -3,6 +3,7 @@
 #ifndef PARTITION_HPP__
 #define PARTITION_HPP__
 
+#include <map>
 #include <tuple>
 
 #include "metis.h"
@@ -89,6 +90,98 @@ std::vector<U> Duplicate(const std::vector<T>& vect)
     return vect_copy;
 }
 
+/** @brief Attach stray pieces of parts that are not connected to a neighboring part
+    @note Metis does not guarantee contiguous parts if the parts have only a few vertices
+
+    @param indptr adjacency pointers of the graph
+    @param indices adjacency indices of the graph
+    @param part partition to make contiguous
+*/
+template <typename U>
+void AttachStrayPieces(const std::vector<U>& indptr, const std::vector<U>& indices, std::vector<U>& part)
+{
+    const int size = part.size();
+
+    // Label the connected pieces of all parts
+    std::vector<int> piece(size, -1);
+    std::vector<std::vector<int>> vertices;
+
+    for (int i = 0; i < size; ++i)
+    {
+        if (piece[i] >= 0)
+        {
+            continue;
+        }
+
+        const int label = vertices.size();
+        std::vector<int> found(1, i);
+        piece[i] = label;
+
+        for (size_t next = 0; next < found.size(); ++next)
+        {
+            const int vertex = found[next];
+
+            for (U j = indptr[vertex]; j < indptr[vertex + 1]; ++j)
+            {
+                const int neighbor = indices[j];
+
+                if (piece[neighbor] < 0 && part[neighbor] == part[i])
+                {
+                    piece[neighbor] = label;
+                    found.push_back(neighbor);
+                }
+            }
+        }
+
+        vertices.push_back(std::move(found));
+    }
+
+    // The largest piece of each part stays, all others are stray
+    const int num_pieces = vertices.size();
+    std::map<U, int> largest;
+
+    for (int i = 0; i < num_pieces; ++i)
+    {
+        auto iter = largest.emplace(part[vertices[i][0]], i).first;
+
+        if (vertices[i].size() > vertices[iter->second].size())
+        {
+            iter->second = i;
+        }
+    }
+
+    std::vector<bool> stray(num_pieces, true);
+
+    for (const auto& keep : largest)
+    {
+        stray[keep.second] = false;
+    }
+
+    for (bool changed = true; changed; )
+    {
+        changed = false;
+
+        for (int i = 0; i < size; ++i)
+        {
+            for (U j = indptr[i]; j < indptr[i + 1] && stray[piece[i]]; ++j)
+            {
+                if (!stray[piece[indices[j]]])
+                {
+                    const U new_part = part[indices[j]];
+
+                    for (const int vertex : vertices[piece[i]])
+                    {
+                        part[vertex] = new_part;
+                    }
+
+                    stray[piece[i]] = false;
+                    changed = true;
+                }
+            }
+        }
+    }
+}
+
 /** @brief Wrapper to call Metis Partitioning
     @param mat graph to partition
     @param num_parts number of partitions to generate
@@ -142,6 +235,11 @@ std::vector<int> Partition(const linalgcpp::SparseMatrix<T>& mat, int num_parts
     METIS_PartGraphKway(&nvtxs, &ncon, xadj, adjncy, vwgt, vsize, adjwgt,
                              &nparts, tpwgts, &ubvec, options, &objval, part.data());
 
+    if (contig)
+    {
+        AttachStrayPieces(std::get<0>(adj_pair), std::get<1>(adj_pair), part);
+    }
+
     RemoveEmpty(part);
 
     auto partition = std::is_same<idx_t, int>::value ? std::move(part) : Duplicate<idx_t, int>(part);
-- 
2.43.0


From 5c3b544516ec94323f4fb8c3f1840ecb040c2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 38/61] fix: linalgcpp_assert throws in debug builds only

---
 include/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utilities.hpp b/include/utilities.hpp
index cde6cb1..90a016d 100644
--- a/include/utilities.hpp
+++ b/include/utilities.hpp
@@ -10,7 +10,7 @@ namespace linalgcpp
 inline
 void linalgcpp_assert(bool expression, const std::string& message = "linalgcpp assertion failed")
 {
-#ifdef NDEBUG
+#ifndef NDEBUG
     if (!expression)
     {
         throw std::runtime_error(message);
-- 
2.43.0


From 9bba7505a709b65aa36f4cb5cc29b5e25e3183d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 39/61] fix: utilities.hpp includes what it uses

---
 include/utilities.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utilities.hpp b/include/utilities.hpp
index 90a016d..b2be51d 100644
--- a/include/utilities.hpp
+++ b/include/utilities.hpp
@@ -3,6 +3,9 @@
 #ifndef UTILITIES_HPP__
 #define UTILITIES_HPP__
 
+#include <stdexcept>
+#include <string>
+
 namespace linalgcpp
 {
 
-- 
2.43.0


From 582a205c497369e3fe7c4cc0c332a4fffaf793a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 40/61] fix: list and table readers refuse indices that are out
 of range

---
 include/parser.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/parser.hpp b/include/parser.hpp
index 5bc60be..fd49ca9 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -8,6 +8,8 @@
 #include <assert.h>
 #include <ctype.h>
 #include <fstream>
+#include <limits>
+#include <stdexcept>
 
 #include "vector.hpp"
 #include "sparsematrix.hpp"
@@ -16,6 +18,26 @@
 namespace linalgcpp
 {
 
+/*! @brief Throw if the content of a file is not valid
+    @param valid condition that must hold
+    @param file_name file that was read
+*/
+inline
+void VerifyContent(bool valid, const std::string& file_name)
+{
+    if (!valid)
+    {
+        throw std::runtime_error("Invalid content in file: " + file_name);
+    }
+}
+
+/*! @brief Check if a row or column index read from disk can be used */
+inline
+bool IsIndex(int index)
+{
+    return index >= 0 && index < std::numeric_limits<int>::max() - 1;
+}
+
 /*! @brief Read a text file from disk.
     @param file_name file to read
     @retval vector of data read from disk
@@ -219,6 +241,8 @@ SparseMatrix<T> ReadAdjList(const std::string& file_name, bool symmetric = false
 
     while (file >> i >> j)
     {
+        VerifyContent(IsIndex(i) && IsIndex(j), file_name);
+
         coo.Add(i, j, val);
 
         if (symmetric && i != j)
@@ -257,6 +281,8 @@ SparseMatrix<T> ReadGraphList(const std::string& file_name)
 
     while (file >> i >> j)
     {
+        VerifyContent(IsIndex(i) && IsIndex(j), file_name);
+
         if (i < j)
         {
             coo.Add(j, i, -1);
@@ -339,6 +365,8 @@ SparseMatrix<T> ReadCooList(const std::string& file_name, bool symmetric = false
 
     while (file >> i >> j >> val)
     {
+        VerifyContent(IsIndex(i) && IsIndex(j), file_name);
+
         coo.Add(i, j, val);
 
         if (symmetric && i != j)
@@ -422,6 +450,8 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
 
         for (int index; stream >> index; )
         {
+            VerifyContent(IsIndex(index), file_name);
+
             indices.push_back(index);
         }
 
-- 
2.43.0


From d1dc80af22886cbc76ea1c3eb3881250b90d5b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 41/61] fix: ReadCSR checks what it reads

---
 include/parser.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index fd49ca9..d8d9806 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -520,31 +520,39 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
-    size_t rows;
-    size_t cols;
+    int rows;
+    int cols;
 
     file >> rows >> cols;
 
-    std::vector<int> indptr(rows + 1);
+    VerifyContent(file && IsIndex(rows) && IsIndex(cols), file_name);
+
+    std::vector<int> indptr;
+    std::vector<int> indices;
+    std::vector<T> data;
 
-    for (size_t i = 0; i < rows + 1; ++i)
+    for (int i = 0, val; i < rows + 1; ++i)
     {
-        file >> indptr[i];
+        VerifyContent(file >> val && val >= (i == 0 ? 0 : indptr.back()), file_name);
+        indptr.push_back(val);
     }
 
-    int nnz = indptr.back();
+    VerifyContent(indptr.front() == 0, file_name);
 
-    std::vector<int> indices(nnz);
-    std::vector<T> data(nnz);
+    const int nnz = indptr.back();
 
-    for (int i = 0; i < nnz; ++i)
+    for (int i = 0, val; i < nnz; ++i)
     {
-        file >> indices[i];
+        VerifyContent(file >> val && val >= 0 && val < cols, file_name);
+        indices.push_back(val);
     }
 
+    T val;
+
     for (int i = 0; i < nnz; ++i)
     {
-        file >> data[i];
+        VerifyContent(bool(file >> val), file_name);
+        data.push_back(val);
     }
 
     file.close();
-- 
2.43.0


From 43df4df297f165c4fc34e3748c4707ec246f87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 42/61] fix: Matrix Market readers check sizes and indices

---
 include/parser.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index d8d9806..01757fb 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -645,10 +645,12 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     int nnz;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    std::istringstream sizes(line);
+    sizes >> rows >> cols >> nnz;
+
+    VerifyContent(sizes && IsIndex(rows) && IsIndex(cols) && nnz >= 0, file_name);
 
     CooMatrix<T> coo(rows, cols);
-    coo.Reserve(nnz);
 
     int base = 1;
     int i;
@@ -657,6 +659,9 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
 
     while (file >> i >> j >> val)
     {
+        VerifyContent(i >= base && i <= rows && j >= base && j <= cols, file_name);
+        VerifyContent(!symmetric || (i <= cols && j <= rows), file_name);
+
         coo.Add(i - base, j - base, val);
 
         if (symmetric && i != j)
@@ -709,10 +714,12 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     int nnz;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    std::istringstream sizes(line);
+    sizes >> rows >> cols >> nnz;
+
+    VerifyContent(sizes && IsIndex(rows) && IsIndex(cols) && nnz >= 0, file_name);
 
     CooMatrix<T> coo(rows, cols);
-    coo.Reserve(nnz);
 
     int base = 1;
     int i;
@@ -721,6 +728,9 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
 
     while (file >> i >> j)
     {
+        VerifyContent(i >= base && i <= rows && j >= base && j <= cols, file_name);
+        VerifyContent(!symmetric || (i <= cols && j <= rows), file_name);
+
         coo.Add(i - base, j - base, val);
 
         if (symmetric && i != j)
-- 
2.43.0


From 97478fa6a98bedf0f34d9f7f438756c9fec02341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 43/61] fix: ReadBinaryVect checks the size against the file

---
 include/parser.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/parser.hpp b/include/parser.hpp
index 01757fb..da15d4a 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -38,6 +38,17 @@ bool IsIndex(int index)
     return index >= 0 && index < std::numeric_limits<int>::max() - 1;
 }
 
+/*! @brief Number of bytes between the current position and the end of a file */
+inline
+size_t RemainingSize(std::ifstream& file)
+{
+    const auto position = file.tellg();
+    const auto end = file.seekg(0, std::ios::end).tellg();
+    file.seekg(position);
+
+    return file ? static_cast<size_t>(end - position) : 0;
+}
+
 /*! @brief Read a text file from disk.
     @param file_name file to read
     @retval vector of data read from disk
@@ -129,6 +140,8 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
     size_t size = 0;
     file.read(reinterpret_cast<char*>(&size), sizeof(size));
 
+    VerifyContent(file && size <= RemainingSize(file) / sizeof(T), file_name);
+
     std::vector<T> vect(size);
 
     file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));
-- 
2.43.0


From 7c418b50647a60c442932df8e51acc34d98278fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 44/61] fix: ReadBinaryMat checks what it reads

---
 include/parser.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index da15d4a..a4d457f 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -204,14 +204,20 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
-    size_t rows;
-    size_t cols;
-    size_t nnz;
+    size_t rows = 0;
+    size_t cols = 0;
+    size_t nnz = 0;
 
     file.read(reinterpret_cast<char*>(&rows), sizeof(rows));
     file.read(reinterpret_cast<char*>(&cols), sizeof(cols));
     file.read(reinterpret_cast<char*>(&nnz), sizeof(nnz));
 
+    const size_t max_size = std::numeric_limits<int>::max() - 1;
+    const size_t file_size = RemainingSize(file);
+
+    VerifyContent(file && rows < max_size && cols < max_size && nnz <= max_size, file_name);
+    VerifyContent((rows + 1) * sizeof(int) + nnz * (sizeof(int) + sizeof(T)) <= file_size, file_name);
+
     std::vector<int> indptr(rows + 1);
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
@@ -220,6 +226,14 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(&indices[0]), nnz * sizeof(int));
     file.read(reinterpret_cast<char*>(&data[0]), nnz * sizeof(T));
 
+    VerifyContent(file && indptr.front() == 0 && indptr.back() == static_cast<int>(nnz), file_name);
+    VerifyContent(std::is_sorted(begin(indptr), end(indptr)), file_name);
+
+    for (int index : indices)
+    {
+        VerifyContent(index >= 0 && index < static_cast<int>(cols), file_name);
+    }
+
     file.close();
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data), rows, cols);
-- 
2.43.0


From 974b839ea2353ce11f7dcc411eedf58f7c30d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 45/61] fix: binary readers accept files that are not seekable

---
 include/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/parser.hpp b/include/parser.hpp
index a4d457f..c54ec20 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -43,6 +43,12 @@ inline
 size_t RemainingSize(std::ifstream& file)
 {
     const auto position = file.tellg();
+
+    if (position < 0)
+    {
+        return std::numeric_limits<size_t>::max(); // Not seekable, size is unknown
+    }
+
     const auto end = file.seekg(0, std::ios::end).tellg();
     file.seekg(position);
 
-- 
2.43.0


From 06451fc4d386c6ac771ad734e8ba4a70e7c7b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 46/61] fix: read and write empty vectors and matrices without
 indexing past their end

---
 include/parser.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index c54ec20..c04455e 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -122,7 +122,7 @@ void WriteBinary(const std::vector<T>& vect, const std::string& file_name)
     size_t size = vect.size();
 
     file.write(reinterpret_cast<const char*>(&size), sizeof(size));
-    file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));
+    file.write(reinterpret_cast<const char*>(vect.data()), size * sizeof(T));
 
     file.close();
 }
@@ -150,7 +150,7 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
 
     std::vector<T> vect(size);
 
-    file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));
+    file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
     file.close();
 
     return vect;
@@ -186,9 +186,9 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&cols), sizeof(cols));
     file.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));
 
-    file.write(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
+    file.write(reinterpret_cast<const char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.write(reinterpret_cast<const char*>(indices.data()), nnz * sizeof(int));
+    file.write(reinterpret_cast<const char*>(data.data()), nnz * sizeof(T));
 
     file.close();
 }
@@ -228,9 +228,9 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
 
-    file.read(reinterpret_cast<char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.read(reinterpret_cast<char*>(&indices[0]), nnz * sizeof(int));
-    file.read(reinterpret_cast<char*>(&data[0]), nnz * sizeof(T));
+    file.read(reinterpret_cast<char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
+    file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
 
     VerifyContent(file && indptr.front() == 0 && indptr.back() == static_cast<int>(nnz), file_name);
     VerifyContent(std::is_sorted(begin(indptr), end(indptr)), file_name);
-- 
2.43.0


From 1f156a88ebaf8575950f08766d8e1754402b64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 47/61] fix: readers refuse files they cannot read to the end

---
 include/parser.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index c04455e..c25542d 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -71,8 +71,10 @@ std::vector<T> ReadText(const std::string& file_name)
 
     std::vector<T> data;
 
-    for (T val; file >> val; )
+    for (T val; !(file >> std::ws).eof(); )
     {
+        VerifyContent(bool(file >> val), file_name);
+
         data.push_back(val);
     }
 
@@ -151,6 +153,9 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
     std::vector<T> vect(size);
 
     file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
+
+    VerifyContent(bool(file), file_name);
+
     file.close();
 
     return vect;
@@ -272,8 +277,9 @@ SparseMatrix<T> ReadAdjList(const std::string& file_name, bool symmetric = false
     int j;
     T val = 1;
 
-    while (file >> i >> j)
+    while (!(file >> std::ws).eof())
     {
+        VerifyContent(bool(file >> i >> j), file_name);
         VerifyContent(IsIndex(i) && IsIndex(j), file_name);
 
         coo.Add(i, j, val);
@@ -312,8 +318,9 @@ SparseMatrix<T> ReadGraphList(const std::string& file_name)
     int i;
     int j;
 
-    while (file >> i >> j)
+    while (!(file >> std::ws).eof())
     {
+        VerifyContent(bool(file >> i >> j), file_name);
         VerifyContent(IsIndex(i) && IsIndex(j), file_name);
 
         if (i < j)
@@ -396,8 +403,9 @@ SparseMatrix<T> ReadCooList(const std::string& file_name, bool symmetric = false
     int j;
     T val;
 
-    while (file >> i >> j >> val)
+    while (!(file >> std::ws).eof())
     {
+        VerifyContent(bool(file >> i >> j >> val), file_name);
         VerifyContent(IsIndex(i) && IsIndex(j), file_name);
 
         coo.Add(i, j, val);
@@ -481,9 +489,9 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     {
         std::stringstream stream(line);
 
-        for (int index; stream >> index; )
+        for (int index; !(stream >> std::ws).eof(); )
         {
-            VerifyContent(IsIndex(index), file_name);
+            VerifyContent(stream >> index && IsIndex(index), file_name);
 
             indices.push_back(index);
         }
@@ -491,6 +499,8 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
         indptr.push_back(indices.size());
     }
 
+    VerifyContent(file.eof(), file_name);
+
     file.close();
 
     const int rows = indptr.size() - 1;
@@ -690,8 +700,9 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     int j;
     T val;
 
-    while (file >> i >> j >> val)
+    while (!(file >> std::ws).eof())
     {
+        VerifyContent(bool(file >> i >> j >> val), file_name);
         VerifyContent(i >= base && i <= rows && j >= base && j <= cols, file_name);
         VerifyContent(!symmetric || (i <= cols && j <= rows), file_name);
 
@@ -759,8 +770,9 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     int j;
     T val = 1.0;
 
-    while (file >> i >> j)
+    while (!(file >> std::ws).eof())
     {
+        VerifyContent(bool(file >> i >> j), file_name);
         VerifyContent(i >= base && i <= rows && j >= base && j <= cols, file_name);
         VerifyContent(!symmetric || (i <= cols && j <= rows), file_name);
 
-- 
2.43.0


From 3a2e11c04734b759c3088b51724123ddb8489949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 48/61] fix: writers report content that could not be written

---
 include/parser.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index c25542d..5287584 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -31,6 +31,21 @@ void VerifyContent(bool valid, const std::string& file_name)
     }
 }
 
+/*! @brief Close a file and throw if its content could not be written
+    @param file file that was written
+    @param file_name name of the file
+*/
+inline
+void CloseWritten(std::ofstream& file, const std::string& file_name)
+{
+    file.close();
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to write file: " + file_name);
+    }
+}
+
 /*! @brief Check if a row or column index read from disk can be used */
 inline
 bool IsIndex(int index)
@@ -103,6 +118,8 @@ void WriteText(const T& vect, const std::string& file_name)
     {
         file << val << "\n";
     }
+
+    CloseWritten(file, file_name);
 }
 
 /*! @brief Write a vector to a text file on disk in binary format
@@ -126,7 +143,7 @@ void WriteBinary(const std::vector<T>& vect, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&size), sizeof(size));
     file.write(reinterpret_cast<const char*>(vect.data()), size * sizeof(T));
 
-    file.close();
+    CloseWritten(file, file_name);
 }
 
 /*! @brief Read a vector to a text file on disk in binary format
@@ -195,7 +212,7 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(indices.data()), nnz * sizeof(int));
     file.write(reinterpret_cast<const char*>(data.data()), nnz * sizeof(T));
 
-    file.close();
+    CloseWritten(file, file_name);
 }
 
 /*! @brief Read a csr matrix from a text file on disk in binary format
@@ -373,7 +390,7 @@ void WriteAdjList(const SparseMatrix<T>& mat, const std::string& file_name, bool
         }
     }
 
-    file.close();
+    CloseWritten(file, file_name);
 }
 
 /*! @brief Read a coordinate list from disk.
@@ -460,7 +477,7 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
         }
     }
 
-    file.close();
+    CloseWritten(file, file_name);
 }
 
 /*! @brief Read a table from file from disk.
@@ -544,7 +561,7 @@ void WriteTable(const SparseMatrix<T>& mat, const std::string& file_name)
         file << "\n";
     }
 
-    file.close();
+    CloseWritten(file, file_name);
 }
 
 /*! @brief Read a CSR Matrix from disk.
@@ -646,7 +663,7 @@ void WriteCSR(const SparseMatrix<T>& mat, const std::string& file_name)
         file << i << "\n";
     }
 
-    file.close();
+    CloseWritten(file, file_name);
 }
 
 /*! @brief Read matrix market coordinate format from disk.
@@ -832,7 +849,7 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
         }
     }
 
-    file.close();
+    CloseWritten(file, file_name);
 }
 
 } // namespace mylinalg
-- 
2.43.0


From 08d58a410c1a522c1aa4e2314e6c6cd4d1f11e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 49/61] fix: ReadMTX negates the mirrored entries of
 skew-symmetric files

---
 include/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 5287584..300f1ca 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -687,6 +687,7 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     }
 
     bool symmetric = false;
+    bool skew = false;
     std::string line;
 
     // Comments and blank lines may precede the size line
@@ -697,6 +698,7 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
         {
             std::transform(begin(line), end(line), begin(line), ::tolower);
             symmetric = (line.find("symmetric") != std::string::npos);
+            skew = (line.find("skew-symmetric") != std::string::npos);
         }
     }
 
@@ -727,7 +729,7 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
 
         if (symmetric && i != j)
         {
-            coo.Add(j - base, i - base, val);
+            coo.Add(j - base, i - base, skew ? -val : val);
         }
     }
 
-- 
2.43.0


From 4b349f037ab9f6cf6ae668ed7002085235e03f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 50/61] fix: Matrix Market readers check the announced number
 of entries

---
 include/parser.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/parser.hpp b/include/parser.hpp
index 300f1ca..11a0573 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -715,6 +715,7 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
     CooMatrix<T> coo(rows, cols);
 
     int base = 1;
+    int count = 0;
     int i;
     int j;
     T val;
@@ -726,6 +727,7 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
         VerifyContent(!symmetric || (i <= cols && j <= rows), file_name);
 
         coo.Add(i - base, j - base, val);
+        ++count;
 
         if (symmetric && i != j)
         {
@@ -733,6 +735,8 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
         }
     }
 
+    VerifyContent(count == nnz, file_name);
+
     file.close();
 
     return coo.ToSparse();
@@ -785,6 +789,7 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
     CooMatrix<T> coo(rows, cols);
 
     int base = 1;
+    int count = 0;
     int i;
     int j;
     T val = 1.0;
@@ -796,6 +801,7 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
         VerifyContent(!symmetric || (i <= cols && j <= rows), file_name);
 
         coo.Add(i - base, j - base, val);
+        ++count;
 
         if (symmetric && i != j)
         {
@@ -803,6 +809,8 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
         }
     }
 
+    VerifyContent(count == nnz, file_name);
+
     file.close();
 
     return coo.ToSparse();
-- 
2.43.0


From a49b08b039a22e3246ad76b9d2e0231015aed9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:00 +0000
Subject: [PATCH 51/61] fix: ParMatrix::MaxNorm returned the largest sum over a
 block instead of the largest entry

---
 modules/parlinalgcpp/src/parmatrix.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index 9ec0582..dd39905 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -353,9 +353,19 @@ ParCommPkg ParMatrix::MakeCommPkg() const
 
 double ParMatrix::MaxNorm() const
 {
-    double local_max = std::max(diag_.MaxNorm(), offd_.MaxNorm());
+    double local_max = 0.0;
     double global_max = 0.0;
 
+    for (const auto& val : diag_.GetData())
+    {
+        local_max = std::max(local_max, std::abs(val));
+    }
+
+    for (const auto& val : offd_.GetData())
+    {
+        local_max = std::max(local_max, std::abs(val));
+    }
+
     MPI_Allreduce(&local_max, &global_max, 1, MPI_DOUBLE, MPI_MAX,
                   comm_);
 
-- 
2.43.0


From bcd460d086fef8f861cbaf139de7c3a598a58398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 52/61] fix: ParAdd did not scale the first entry of an
 off-diagonal column

---
 modules/parlinalgcpp/src/parutilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index cdebca8..4c8a54a 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -276,7 +276,7 @@ ParMatrix ParAdd(double alpha, const ParMatrix& A, double beta, const ParMatrix&
                 }
                 else
                 {
-                    coo_offd.Add(i, col_map.size(), data[j]);
+                    coo_offd.Add(i, col_map.size(), val * data[j]);
                     marker[global_col] = col_map.size();
 
                     col_map.emplace_back(global_col);
-- 
2.43.0


From f17dcc4fc9e6b812f28cb650d148998594464d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 53/61] fix: a default ParVector had an undefined global size
 and could not be copied

---
 modules/parlinalgcpp/src/parvector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 3466913..423de67 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -6,7 +6,7 @@ namespace linalgcpp
 {
 
 ParVector::ParVector()
-    : Vector(0), comm_(0), pvect_(nullptr)
+    : Vector(0), comm_(0), pvect_(nullptr), global_size_(0)
 {
 }
 
@@ -55,7 +55,10 @@ ParVector::ParVector(const ParVector& other)
     : linalgcpp::Vector<double>(other), comm_(other.comm_), pvect_(nullptr), partition_(other.partition_),
       global_size_(other.global_size_)
 {
-    HypreCreate();
+    if (other.pvect_)
+    {
+        HypreCreate();
+    }
 }
 
 ParVector::ParVector(ParVector&& other)
-- 
2.43.0


From cda69a48967b8fcde52b7bdde115fa7e51bbd72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 54/61] fix: constructing a ParVector printed a debug line to
 the standard output

---
 modules/parlinalgcpp/src/parvector.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 423de67..bac6984 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -18,7 +18,6 @@ ParVector::ParVector(MPI_Comm comm, const std::vector<HYPRE_Int>& part)
 ParVector::ParVector(MPI_Comm comm, double val, const std::vector<HYPRE_Int>& part)
     : Vector(part[1] - part[0], val), comm_(comm), pvect_(nullptr), partition_(part)
 {
-    printf("Parvector: %d %d - > %d\n", part[1], part[0], size());
     Init();
 }
 
-- 
2.43.0


From ee11ce0d47b1f89633683dd737a4cf85ba0d0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 55/61] fix: ParSplit replaced the lower triangle of the
 diagonal block by the upper one

---
 modules/parlinalgcpp/src/parutilities.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index 4c8a54a..4b74f07 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -77,10 +77,7 @@ ParMatrix ParSplit(MPI_Comm comm, const linalgcpp::SparseMatrix<double>& A_globa
                 int local_col = local_index[perm[col]];
                 assert(local_col >= 0 && local_col < local_vertices);
 
-                if (local_col >= local_vertex)
-                {
-                    local_diag.AddSym(local_vertex, local_col, val);
-                }
+                local_diag.Add(local_vertex, local_col, val);
             }
             else
             {
-- 
2.43.0


From a564e063c790b35838df11ea1557541491fabdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 56/61] fix: moving a ParSolver or ParSmoother left undefined
 pointers in the source

---
 modules/parlinalgcpp/src/parsmoother.cpp | 4 +++-
 modules/parlinalgcpp/src/parsolvers.cpp  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index 3919721..c21e6cc 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -5,7 +5,8 @@
 namespace linalgcpp
 {
 ParSmoother::ParSmoother()
-    : buffer_shell_(nullptr)
+    : type_(SmoothType::Jacobi), relax_times_(1), relax_weight_(1.0), omega_(1.0),
+      buffer_shell_(nullptr)
 {
 }
 
@@ -30,6 +31,7 @@ ParSmoother::ParSmoother(const ParSmoother& other)
 }
 
 ParSmoother::ParSmoother(ParSmoother&& other)
+    : ParSmoother()
 {
     swap(*this, other);
 }
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 7c6a2da..538c874 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -51,6 +51,7 @@ ParSolver::ParSolver(const ParSolver& other)
 }
 
 ParSolver::ParSolver(ParSolver&& other)
+    : ParSolver()
 {
     swap(*this, other);
 }
-- 
2.43.0


From 3653dfb9c65619d21acd4e419de8ef85715b45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 57/61] fix: ParCG gave the setup of its preconditioner to
 Hypre as its solve

---
 modules/parlinalgcpp/src/parsolvers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 538c874..4449abc 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -257,7 +257,7 @@ ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
     auto& solver_ = ParSolver::GetSolver();
 
     HYPRE_ParCSRPCGSetPrecond(solver_,
-                              M.GetSetupFn(), M.GetSolveFn(), M.GetSolver());
+                              M.GetSolveFn(), M.GetSetupFn(), M.GetSolver());
 }
 
 
-- 
2.43.0


From 2a78e6cfe722493e2b83e04090522bd85a3747e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:32 +0000
Subject: [PATCH 58/61] fix: a copied BoomerAMG was neither configured nor set
 up

---
 modules/parlinalgcpp/include/parsolvers.hpp | 3 +++
 modules/parlinalgcpp/src/parsolvers.cpp     | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 104de7b..5a4a364 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -155,6 +155,9 @@ class BoomerAMG: public ParSolver
         friend void swap(BoomerAMG& lhs, BoomerAMG& rhs) noexcept;
 
         ~BoomerAMG() = default;
+
+    private:
+        void Init();
 };
 
 class ParaSails: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 4449abc..b0c730e 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -114,6 +114,11 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_BoomerAMGCreate, &HYPRE_BoomerAMGDestroy,
                 &HYPRE_BoomerAMGSetup, &HYPRE_BoomerAMGSolve)
+{
+    Init();
+}
+
+void BoomerAMG::Init()
 {
     // Parameters mostly copied directly from mfem
     int coarsen_type = 10;   // 10 = HMIS, 8 = PMIS, 6 = Falgout, 0 = CLJP
@@ -146,6 +151,10 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
 BoomerAMG::BoomerAMG(const BoomerAMG& other) noexcept
     : ParSolver(other)
 {
+    if (GetSolver())
+    {
+        Init();
+    }
 }
 
 BoomerAMG::BoomerAMG(BoomerAMG&& other) noexcept
-- 
2.43.0


From 5545150cd8282e3d285515d09028072f6c5d4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:32 +0000
Subject: [PATCH 59/61] fix: a copied ParCG lost its tolerance, iteration limit
 and preconditioner

---
 modules/parlinalgcpp/include/parsolvers.hpp |  8 ++++
 modules/parlinalgcpp/src/parsolvers.cpp     | 41 +++++++++++++++------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 5a4a364..4f934bf 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -204,6 +204,14 @@ class ParCG: public ParSolver
         ~ParCG() = default;
 
         void EnableDiagScaling();
+
+    private:
+        void Init();
+        void SetPrecond(hypre_sig solve, hypre_sig setup, HYPRE_Solver precond);
+
+        hypre_sig precond_solve_ = nullptr;
+        hypre_sig precond_setup_ = nullptr;
+        HYPRE_Solver precond_ = nullptr;
 };
 
 class ParDiagScale: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index b0c730e..921c242 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -249,6 +249,11 @@ ParCG::ParCG(ParMatrix A, size_t max_iter,
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_ParCSRPCGCreate, &HYPRE_ParCSRPCGDestroy,
                 &HYPRE_ParCSRPCGSetup, &HYPRE_ParCSRPCGSolve)
+{
+    Init();
+}
+
+void ParCG::Init()
 {
     auto& solver_ = ParSolver::GetSolver();
 
@@ -263,17 +268,30 @@ ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
              double tol, bool verbose)
     : ParCG(std::move(A), max_iter, tol, verbose)
 {
-    auto& solver_ = ParSolver::GetSolver();
-
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              M.GetSolveFn(), M.GetSetupFn(), M.GetSolver());
+    SetPrecond(M.GetSolveFn(), M.GetSetupFn(), M.GetSolver());
 }
 
+void ParCG::SetPrecond(hypre_sig solve, hypre_sig setup, HYPRE_Solver precond)
+{
+    precond_solve_ = solve;
+    precond_setup_ = setup;
+    precond_ = precond;
+
+    HYPRE_ParCSRPCGSetPrecond(GetSolver(), precond_solve_, precond_setup_, precond_);
+}
 
 ParCG::ParCG(const ParCG& other) noexcept
     : ParSolver(other)
 {
-    HypreSetup();
+    if (GetSolver())
+    {
+        Init();
+
+        if (other.precond_solve_)
+        {
+            SetPrecond(other.precond_solve_, other.precond_setup_, other.precond_);
+        }
+    }
 }
 
 ParCG::ParCG(ParCG&& other) noexcept
@@ -291,16 +309,17 @@ ParCG& ParCG::operator=(ParCG other) noexcept
 void swap(ParCG& lhs, ParCG& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.precond_solve_, rhs.precond_solve_);
+    std::swap(lhs.precond_setup_, rhs.precond_setup_);
+    std::swap(lhs.precond_, rhs.precond_);
 }
 
 void ParCG::EnableDiagScaling()
 {
-    auto& solver_ = ParSolver::GetSolver();
-
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScale,
-                              (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScaleSetup,
-                              nullptr);
+    SetPrecond((HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScale,
+               (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScaleSetup,
+               nullptr);
 }
 
 ParDiagScale::ParDiagScale(ParMatrix A, size_t max_iter,
-- 
2.43.0


From 4a228504ad81e74be4163022172a70b955897e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:32 +0000
Subject: [PATCH 60/61] fix: a copied ParaSails had no Hypre solver

---
 modules/parlinalgcpp/include/parsolvers.hpp | 11 ++++++
 modules/parlinalgcpp/src/parsolvers.cpp     | 43 +++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 4f934bf..482b731 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -184,6 +184,17 @@ class ParaSails: public ParSolver
         void SetLoadBal(int load_bal);
         void SetReuse(int reuse);
         void SetLogging(int logging);
+
+    private:
+        void Init();
+
+        int reuse_ = 0;
+        int sym_ = 0;
+        double load_bal_ = 0.0;
+        double threshold_ = 0.1;
+        double filter_ = 0.1;
+        int max_levels_ = 1;
+        int logging_ = 0;
 };
 
 class ParCG: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 921c242..bdb36ac 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -181,25 +181,39 @@ ParaSails::ParaSails(ParMatrix A, bool verbose,
                      double filter, int max_levels)
     : ParSolver(std::move(A), 0, 0, verbose,
                 &no_create, &HYPRE_ParaSailsDestroy,
-                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve)
+                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve),
+      reuse_(reuse), sym_(sym), load_bal_(load_bal), threshold_(threshold),
+      filter_(filter), max_levels_(max_levels), logging_(verbose)
+{
+    Init();
+}
+
+void ParaSails::Init()
 {
     auto& solver_ = ParSolver::GetSolver();
 
     HYPRE_ParaSailsCreate(A_.GetComm(), &solver_);
-    HYPRE_ParaSailsSetParams(solver_, threshold, max_levels);
+    HYPRE_ParaSailsSetParams(solver_, threshold_, max_levels_);
 
-    SetFilter(filter);
-    SetSym(sym);
-    SetLoadBal(load_bal);
-    SetReuse(reuse);
-    SetLogging(verbose);
+    SetFilter(filter_);
+    SetSym(sym_);
+    SetLoadBal(load_bal_);
+    SetReuse(reuse_);
+    SetLogging(logging_);
 
     HypreSetup();
 }
 
 ParaSails::ParaSails(const ParaSails& other) noexcept
-    : ParSolver(other)
+    : ParSolver(other),
+      reuse_(other.reuse_), sym_(other.sym_), load_bal_(other.load_bal_),
+      threshold_(other.threshold_), filter_(other.filter_),
+      max_levels_(other.max_levels_), logging_(other.logging_)
 {
+    if (other.GetSolver())
+    {
+        Init();
+    }
 }
 
 ParaSails::ParaSails(ParaSails&& other) noexcept
@@ -217,30 +231,43 @@ ParaSails& ParaSails::operator=(ParaSails other) noexcept
 void swap(ParaSails& lhs, ParaSails& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.reuse_, rhs.reuse_);
+    std::swap(lhs.sym_, rhs.sym_);
+    std::swap(lhs.load_bal_, rhs.load_bal_);
+    std::swap(lhs.threshold_, rhs.threshold_);
+    std::swap(lhs.filter_, rhs.filter_);
+    std::swap(lhs.max_levels_, rhs.max_levels_);
+    std::swap(lhs.logging_, rhs.logging_);
 }
 
 void ParaSails::SetFilter(double filter)
 {
+    filter_ = filter;
     HYPRE_ParaSailsSetFilter(GetSolver(), filter);
 }
 
 void ParaSails::SetSym(int sym)
 {
+    sym_ = sym;
     HYPRE_ParaSailsSetSym(GetSolver(), sym);
 }
 
 void ParaSails::SetLoadBal(int load_bal)
 {
+    load_bal_ = load_bal;
     HYPRE_ParaSailsSetLoadbal(GetSolver(), load_bal);
 }
 
 void ParaSails::SetReuse(int reuse)
 {
+    reuse_ = reuse;
     HYPRE_ParaSailsSetReuse(GetSolver(), reuse);
 }
 
 void ParaSails::SetLogging(int logging)
 {
+    logging_ = logging;
     HYPRE_ParaSailsSetLogging(GetSolver(), logging);
 }
 
-- 
2.43.0


From 0de628b2c5374b441843aa8d5eeb6c674118aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 61/61] fix: ParaSails truncated the load balance to an integer

---
 modules/parlinalgcpp/include/parsolvers.hpp | 2 +-
 modules/parlinalgcpp/src/parsolvers.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 482b731..eef08dd 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -181,7 +181,7 @@ class ParaSails: public ParSolver
 
         void SetFilter(double filter);
         void SetSym(int sym);
-        void SetLoadBal(int load_bal);
+        void SetLoadBal(double load_bal);
         void SetReuse(int reuse);
         void SetLogging(int logging);
 
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index bdb36ac..f4af802 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -253,7 +253,7 @@ void ParaSails::SetSym(int sym)
     HYPRE_ParaSailsSetSym(GetSolver(), sym);
 }
 
-void ParaSails::SetLoadBal(int load_bal)
+void ParaSails::SetLoadBal(double load_bal)
 {
     load_bal_ = load_bal;
     HYPRE_ParaSailsSetLoadbal(GetSolver(), load_bal);
-- 
2.43.0

