From 8254e9cab5d717b7c7f0fea69946f366ac064432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 01/41] fix: transposed lower solves with several right-hand
 sides

The CRS kernel skipped the last row and the CCS kernel iterated over an empty range.
---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0079753..638c4ff 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1429,7 +1429,7 @@ class CRS
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
     std::array<InOutType, Nrhs> tmp;
-    for (size_type j(_ncols - 1); j != 0u; --j) {
+    for (size_type j(_ncols); j != 0u; --j) {
       const auto j1 = j - 1;
       for (size_type k(0); k < Nrhs; ++k) tmp[k] = y[j1][k];
       auto itr   = rev_iterator(col_ind_cend(j1));
@@ -2340,7 +2340,7 @@ class CCS
       auto            itr   = row_ind_cbegin(j1);
       auto            v_itr = _base::val_cbegin(j1);
       tmp.fill(v_t(0));
-      for (auto last = row_ind_cbegin(j1); itr != last; ++itr, ++v_itr) {
+      for (auto last = row_ind_cend(j1); itr != last; ++itr, ++v_itr) {
         const auto avc = conjugate(static_cast<v_t>(*v_itr));
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += avc * y[*itr][k];
       }
-- 
2.43.0


From 0add5aa81468ddf1297570396b469f7ea0343eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 02/41] fix: conjugate in the transposed product with several
 right-hand sides

The single-vector product computes the conjugate transpose; the multi-vector
one computed the plain transpose for complex matrices.
---
 src/hif/ds/CompressedStorage.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 638c4ff..263fff1 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1302,7 +1302,8 @@ class CRS
       for (auto last = col_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         const size_type j = *i_itr;
         hif_assert(j < _ncols, "%zd exceeds column size", j);
-        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * *v_itr;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * avc;
       }
     }
   }
@@ -2211,8 +2212,8 @@ class CCS
       for (auto last = row_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         hif_assert(size_type(*i_itr) < _nrows, "%zd exceeds the size bound",
                    size_type(*i_itr));
-        const auto av = *v_itr;
-        for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * av;
+        const auto avc = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * avc;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
     }
-- 
2.43.0


From 8072b7bbd5907729c3b8785b3c25f5b99884ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 03/41] fix: products with an empty matrix dimension must
 return zero

The output was left untouched when the input vector has length zero.
---
 src/hif/ds/CompressedStorage.hpp | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 263fff1..2fe5caa 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1214,8 +1214,10 @@ class CRS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(
+          x.size() ? x[0].data() : static_cast<const InType *>(nullptr),
+          y[0].data());
   }
 
   /// \brief matrix vector multiplication for MT (CRS only)
@@ -1236,8 +1238,10 @@ class CRS
                  nrows());
     hif_error_if(istart + len > nrows(),
                  "out-of-bound pass-of-end range detected");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), istart, len, y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(
+          x.size() ? x[0].data() : static_cast<const InType *>(nullptr), istart,
+          len, y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -1252,8 +1256,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, ncols(), Vy(0));
+    if (!_psize) return;
     for (size_type i = 0u; i < _psize; ++i) {
       const v_t temp  = x[i];
       auto      v_itr = _base::val_cbegin(i);
@@ -1292,8 +1296,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, Nrhs * ncols(), Vy(0));
+    if (!_psize) return;
     std::array<v_t, Nrhs> temp;
     for (size_type i = 0u; i < _psize; ++i) {
       for (size_type k(0); k < Nrhs; ++k) temp[k] = x[i * Nrhs + k];
@@ -1319,8 +1323,10 @@ class CRS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(
+          x.size() ? x[0].data() : static_cast<const InType *>(nullptr),
+          y[0].data());
   }
 
   /// \brief matrix vector multiplication
@@ -2148,8 +2154,10 @@ class CCS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(
+          x.size() ? x[0].data() : static_cast<const InType *>(nullptr),
+          y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -2230,8 +2238,10 @@ class CCS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(
+          x.size() ? x[0].data() : static_cast<const InType *>(nullptr),
+          y[0].data());
   }
 
   /// \brief matrix vector multiplication
-- 
2.43.0


From 8b5277652afa34c333c32682b927c757a91337fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 04/41] fix: validation of compressed matrices must look at
 offsets and all columns

Decreasing offsets led to out-of-range reads in check_validity and wrap_const_*,
wrap_const_ccs iterated over rows instead of columns, and a negative leading
index was accepted by both wrappers.  wrap_const_crs lost the offset type.
---
 src/hif/ds/CompressedStorage.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 2fe5caa..8ec9649 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -204,6 +204,13 @@ class CompressedStorage {
             "inconsistent between nnz (%s_start(end)-%s_start(first),%zd) and "
             "indices/values length %zd/%zd",
             pname, pname, nnz(), _indices.size(), _vals.size());
+      // offsets must not decrease and must stay in the allocated range, which
+      // has to be known before looking at the entries
+      for (size_type i = 0u; i < _psize; ++i)
+        hif_error_if(_ind_start[i + 1] < _ind_start[i] ||
+                         size_type(_ind_start[i + 1]) > _indices.size() ||
+                         size_type(_ind_start[i + 1]) > _vals.size(),
+                     "invalid start positions in %s %zd (C-based)", pname, i);
       // check each entry
       for (size_type i = 0u; i < _psize; ++i) {
         hif_error_if(!std::is_sorted(_ind_cbegin(i), _ind_cend(i),
@@ -1765,7 +1772,7 @@ using CSR = CRS<ValueType, IndexType, IndPtrType>;
 /// \warning It's the user's responsibility to maintain the external data
 /// \ingroup ds
 template <class ValueType, class IndexType, class IndPtrType>
-inline CRS<ValueType, IndexType> wrap_const_crs(
+inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type nrows,
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type ncols,
     const IndPtrType *row_start, const IndexType *col_ind,
@@ -1785,6 +1792,10 @@ inline CRS<ValueType, IndexType> wrap_const_crs(
   if (check) {
     if (row_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
+    // offsets must not decrease, otherwise the entries cannot be accessed
+    for (size_type i = 0u; i < nrows; ++i)
+      if (row_start[i + 1] < row_start[i])
+        hif_error("%zd entry of row_start is smaller than its predecessor.", i + 1);
     for (size_type i = 0u; i < nrows; ++i) {
       if (!mat.nnz_in_row(i)) {
 #ifdef HIF_DEBUG
@@ -1800,7 +1811,7 @@ inline CRS<ValueType, IndexType> wrap_const_crs(
         hif_error("%zd row is not sorted, the checking failed at entry %td", i,
                   itr - first);
       else
-        hif_error_if(size_type(*(last - 1)) >= mat.ncols(),
+        hif_error_if(size_type(*(last - 1)) >= mat.ncols() || *first < 0,
                      "%zd exceeds column size %zd", size_type(*(last - 1)),
                      mat.ncols());
     }
@@ -2689,9 +2700,12 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
 
   if (check) {
     if (col_start[0] != 0)
-      hif_error("first entry of row_start does not agree with 0.");
-    Array<ValueType> buf;
-    for (size_type i = 0u; i < nrows; ++i) {
+      hif_error("first entry of col_start does not agree with 0.");
+    // offsets must not decrease, otherwise the entries cannot be accessed
+    for (size_type i = 0u; i < ncols; ++i)
+      if (col_start[i + 1] < col_start[i])
+        hif_error("%zd entry of col_start is smaller than its predecessor.", i + 1);
+    for (size_type i = 0u; i < ncols; ++i) {
       if (!mat.nnz_in_col(i)) {
 #ifdef HIF_DEBUG
         hif_warning("row %zd is empty!", i);
@@ -2706,7 +2720,7 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
         hif_error("%zd row is not sorted, the checking failed at entry %td", i,
                   itr - first);
       else
-        hif_error_if(size_type(*(last - 1)) >= mat.nrows(),
+        hif_error_if(size_type(*(last - 1)) >= mat.nrows() || *first < 0,
                      "%zd exceeds row size %zd", size_type(*(last - 1)),
                      mat.nrows());
     }
-- 
2.43.0


From 285ddc45a6491f0feec551fd7f11e749170fdc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 05/41] fix: prune threshold of the orthogonal direction

The relative threshold was multiplied in again for every entry of the column
(row), so the outcome depended on the order of the entries.
---
 src/hif/ds/CompressedStorage.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 8ec9649..7d6727c 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -682,10 +682,11 @@ class CompressedStorage {
       // index since this maybe called by the user directly, and the user
       // may use 1-based index.
       Array<scalar_type> buf(n + 1);
-      std::fill_n(buf.begin(), n, scalar_type(0));
+      std::fill_n(buf.begin(), n + 1, scalar_type(0));
       // determine the thresholds for the orthogonal direction
       for (size_type i(0); i < nz; ++i)
-        buf[_indices[i]] = eps * std::max(buf[_indices[i]], std::abs(_vals[i]));
+        buf[_indices[i]] = std::max(buf[_indices[i]], std::abs(_vals[i]));
+      for (auto &b : buf) b *= eps;
       for (size_type i(0); i < psize; ++i) {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
-- 
2.43.0


From d943453fee9419b6b7947ba56e6f527c6d8ac658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 06/41] fix: matrices and leading blocks without entries

An empty coordinate list or leading block was reported as an allocation failure,
and the offsets of an empty leading block were left at positions of the source.
---
 src/hif/ds/CompressedStorage.hpp | 6 ++++--
 src/hif/utils/coo2compress.hpp   | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 7d6727c..bc46b79 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -636,7 +636,8 @@ class CompressedStorage {
         itr           = std::copy(ind_cbegin(i), last, itr);
         indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
       }
-    }
+    } else
+      std::fill(indptr.begin(), indptr.end(), indptr_type(0));
   }
 
   /// \brief extract leading block
@@ -648,7 +649,8 @@ class CompressedStorage {
                                iarray_type &indices, array_type &vals) const {
     _extract_leading_struct(m, indptr, indices);
     vals.resize(indices.size());
-    hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+    hif_error_if(indices.size() && vals.status() == DATA_UNDEF,
+                 "memory allocation failed");
     auto v_itr = vals.begin();
     for (size_type i(0); i < m; ++i)
       v_itr = std::copy_n(val_cbegin(i), indptr[i + 1] - indptr[i], v_itr);
diff --git a/src/hif/utils/coo2compress.hpp b/src/hif/utils/coo2compress.hpp
index 1d52102..d61a690 100644
--- a/src/hif/utils/coo2compress.hpp
+++ b/src/hif/utils/coo2compress.hpp
@@ -76,9 +76,10 @@ inline void convert_coo2cs(const std::size_t       primary_size,
 
   // assemble to compressed storage
   indices.resize(nnz);
-  hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && indices.status() == DATA_UNDEF,
+               "memory allocation failed");
   vals.resize(nnz);
-  hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && vals.status() == DATA_UNDEF, "memory allocation failed");
   for (size_type i(0); i < nnz; ++i) {
     const auto pos = ind_start[pidx[i]];
     indices[pos]   = sids[i];
-- 
2.43.0


From 1b2823d800b4d2a330e5b3428209ff70ee386d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 07/41] fix: assignment between arrays sharing data, moved-from
 and failed arrays

Assigning an array to another one sharing its data was ignored, so that the size
stayed as it was; copying a moved-from array dereferenced a null counter; and an
array whose copy could not be allocated reported a nonzero size.
---
 src/hif/ds/Array.hpp | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index a63dea3..533db09 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -160,10 +160,10 @@ class Array {
       if (!_data) {
         _size = _cap = 0u;
         _status      = DATA_UNDEF;
-      } else {
-        std::copy_n(data, n, _data);
-        _status = DATA_OWN;
+        return;
       }
+      std::copy_n(data, n, _data);
+      _status = DATA_OWN;
     } else {
       _data   = data;
       _status = DATA_WRAP;
@@ -219,8 +219,8 @@ class Array {
       _size   = other._size;
       _cap    = other._cap;
       _status = other._status;
-      // increment the counter
-      _counts->inc();
+      // increment the counter, which a moved-from array does not have
+      if (_counts) _counts->inc();
     } else {
       // deep copy
       _counts = new _RefCount();
@@ -258,16 +258,8 @@ class Array {
   /// \param[in] other rhs Array
   /// \return lvalue reference of \a this
   Array& operator=(const Array& other) {
-    if (_data != other._data) {
-      // first, deallocate this
-      this->~Array();
-      _data   = other._data;
-      _size   = other._size;
-      _cap    = other._cap;
-      _status = other._status;
-      _counts = other._counts;
-      _counts->inc();
-    }
+    // NOTE the arrays may already share data but differ in size
+    if (this != &other) Array(other).swap(*this);
     return *this;
   }
 
@@ -275,16 +267,7 @@ class Array {
   /// \param[in] other rhs temp Array
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
-    if (_data != other._data) {
-      // call destructor
-      this->~Array();
-      _data   = other._data;
-      _size   = other._size;
-      _cap    = other._cap;
-      _status = other._status;
-      _counts = other._counts;
-      RESET_ARRAY(other);
-    }
+    if (this != &other) Array(std::move(other)).swap(*this);
     return *this;
   }
 
-- 
2.43.0


From 3e2a692cefb8724a86163bdfea8a7aef2e593f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 08/41] fix: resizing a moved-from dense matrix to its former
 shape

The shape survives the move while the data do not, so that the matrix was left
without storage.
---
 src/hif/ds/DenseMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/ds/DenseMatrix.hpp b/src/hif/ds/DenseMatrix.hpp
index b49884a..018a275 100644
--- a/src/hif/ds/DenseMatrix.hpp
+++ b/src/hif/ds/DenseMatrix.hpp
@@ -260,7 +260,7 @@ class DenseMatrix {
   /// \param[in] n2 number of columns
   /// \warning The value positions may be changed!
   inline void resize(const size_type n1, const size_type n2) {
-    if (n1 == _nrows && n2 == _ncols) return;
+    if (n1 == _nrows && n2 == _ncols && _data.size() == n1 * n2) return;
     _nrows = n1;
     _ncols = n2;
     _data.resize(n1 * n2);
-- 
2.43.0


From 757e0f0963b099448f9579f852b48433b4d4adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 09/41] fix: augmented storages must be constructible from the
 opposite format

---
 src/hif/ds/AugmentedStorage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/AugmentedStorage.hpp b/src/hif/ds/AugmentedStorage.hpp
index 9750c0f..804ccae 100644
--- a/src/hif/ds/AugmentedStorage.hpp
+++ b/src/hif/ds/AugmentedStorage.hpp
@@ -452,7 +452,7 @@ class AugCRS : public CrsType,
     hif_error_if(nrows() + 1u != crs_type::row_start().size(),
                  "row-start array size (%zd) does not agree with nrows (%zd)",
                  crs_type::row_start().size(), nrows());
-    hif_error_if(crs_type::nnz() != col_ind.size(), "inconsistent nnz");
+    hif_error_if(crs_type::nnz() != col_ind().size(), "inconsistent nnz");
     _base::_build_aug(ncols(), crs_type::row_start(), col_ind());
   }
 
@@ -821,7 +821,7 @@ class AugCCS : public CcsType,
 
   /// \brief build augmented data structure based on mature CCS
   /// \param[in] ccs temp CCS system
-  inline void build_aug(crs_type &&ccs) {
+  inline void build_aug(ccs_type &&ccs) {
     ccs_type::operator=(ccs);
     hif_error_if(ccs.status() == DATA_UNDEF, "undefined data input");
     hif_error_if(
@@ -1080,7 +1080,7 @@ class AugCCS : public CcsType,
   inline iparray_type &      row_start() { return _base::_node_start; }
   inline const iparray_type &row_start() const { return _base::_node_start; }
   inline iparray_type &      row_end() { return _base::_node_end; }
-  inline const iparray_type *row_end() const { return _base::_node_end; }
+  inline const iparray_type &row_end() const { return _base::_node_end; }
   inline iparray_type &      row_next() { return _base::_node_next; }
   inline const iparray_type &row_next() const { return _base::_node_next; }
   inline iarray_type &       row_counts() { return _base::_node_counts; }
-- 
2.43.0


From a09044c25c526c8f413f5461699a4f986c641ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 10/41] fix: copies between levels in the solve with several
 right-hand sides

---
 src/hif/alg/prec_solve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index 74f177c..cd19d6c 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -487,14 +487,14 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
     auto work_next = work_array_type(nm, &work[n], WRAP);
     auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
     for (size_type i(0); i < nm; ++i)
-      for (size_type k(0); k < Nrhs; ++k) y_mn[i][k] = work_b[i][k];
+      for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
     // rec call, note that y_mn should store the solution
     prec_solve_mrhs(++prec_itr, work_b, last_dim, y_mn, work_next);
   }
 
   // copy y(m+1:n) to work(m+1:n)
   for (size_type i(m); i < n; ++i)
-    for (size_type k(0); k < Nrhs; ++k) y[i][k] = work[i][k];
+    for (size_type k(0); k < Nrhs; ++k) work[i][k] = y[i][k];
 
   // only handle the F part if it's not empty
   if (prec.F.ncols()) {
-- 
2.43.0


From 64fec6137956edab9111b908c9fd1907d7dfae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 11/41] fix: work space of the solve with several right-hand
 sides after another solve

---
 src/hif/builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index aa23a49..8c18730 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -438,7 +438,7 @@ class HIF {
     hif_error_if(b.size() != x.size(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
-    if (_prec_work.empty()) _prec_work.resize(nw * Nrhs);
+    if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
-- 
2.43.0


From 825b2bf039f079badcf340a0e985dd4df041b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 12/41] fix: drop tolerances of L and U were exchanged

---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 8472352..2777374 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -101,7 +101,7 @@ determine_fac_pars(const Options &opts, const int lvl) {
     alpha_L = opts.alpha_L;
     alpha_U = opts.alpha_U;
   }
-  return std::make_tuple(kappa_d, kappa, tau_U, tau_L, alpha_L, alpha_U);
+  return std::make_tuple(kappa_d, kappa, tau_L, tau_U, alpha_L, alpha_U);
 }
 
 /// \brief extract permutated diagonal
-- 
2.43.0


From eaba344077e476b0b0c78349df19349a47b13aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 13/41] fix: skipping the preprocessing must keep the requested
 leading block

---
 src/hif/alg/factor.hpp       | 2 +-
 src/hif/alg/pivot_factor.hpp | 2 +-
 src/hif/alg/symm_factor.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 2777374..e833fec 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -682,7 +682,7 @@ inline CsType level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
   timer.finish();  // prefile pre-processing
 
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 4e36be9..635d979 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -156,7 +156,7 @@ inline CsType pivot_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
 
   timer.finish();  // prefile pre-processing
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 546d38e..2bb2f24 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -197,7 +197,7 @@ inline CsType symm_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;
   }
   timer.finish();  // prefile pre-processing
 
-- 
2.43.0


From 9ef5af72ca00b16cf15204bef60558915c7c1751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 14/41] fix: leading symmetric factorization with every leading
 row deferred

A fresh array resized to zero stays unallocated, which was reported as an
allocation failure when preprocessing deferred the whole leading block.
---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index e833fec..49ec752 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -745,7 +745,7 @@ inline CsType level_factorize(
 
   Array<indptr_type> L_offsets;
   if (IsSymm) {
-    L_offsets.resize(m);
+    L_offsets = Array<indptr_type>(m);
     hif_error_if(L_offsets.status() == DATA_UNDEF,
                  "memory allocation failed for L_offsets at level %zd.",
                  cur_level);
-- 
2.43.0


From 2d069c84d609dc76f8e50632ff50e2eb8b4b6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 15/41] fix: symmetric factorization of complex Hermitian
 matrices

The counterpart, the Crout update and the F block were built without
conjugation although U is the conjugate transpose of L.
---
 src/hif/alg/Crout.hpp       | 5 +++--
 src/hif/alg/symm_factor.hpp | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hif/alg/Crout.hpp b/src/hif/alg/Crout.hpp
index dded03a..63384d8 100644
--- a/src/hif/alg/Crout.hpp
+++ b/src/hif/alg/Crout.hpp
@@ -36,6 +36,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include "hif/utils/common.hpp"
 #include "hif/utils/log.hpp"
+#include "hif/utils/math.hpp"
 
 namespace hif {
 
@@ -379,9 +380,9 @@ class Crout {
         hif_assert((size_type)L_col < _step,
                    "compute_ut row index %zd should not exceed step %zd for U",
                    (size_type)L_col, _step);
-        // compute d*L^T
+        // compute d*L^H
         auto       L_v_itr = L.val_cbegin(L_col) + L_start[L_col];
-        const auto dlt     = d[L_col] * *L_v_itr;
+        const auto dlt     = d[L_col] * conjugate(*L_v_itr);
         auto       L_i_itr = L.row_ind_cbegin(L_col) + L_start[L_col],
              L_last        = L.row_ind_cend(L_col);
         if (L_i_itr != L_last) {
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 2bb2f24..596d398 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -153,8 +153,7 @@ inline CsType symm_level_factorize(
   // build counterpart type
   other_type A_counterpart;
   // NOTE: This can be done efficiently for symmetric real systems
-  // NOTE: For complex Hermitian matrix, the following will not work
-  internal::make_transpose(A, A_counterpart);
+  internal::make_transpose(A, A_counterpart, true);
 
   // now use our trait and its static methods to precisely determine the ccs
   // and crs components.
@@ -396,7 +395,9 @@ inline CsType symm_level_factorize(
                cur_level, step);
 
     // update diagonals b4 dropping
-    step.update_diag<true>(l, l, m2, d);
+    for (size_type i(0); i < l.size(); ++i)
+      if ((size_type)l.idx(i) < m2)
+        d[l.idx(i)] -= d[step] * l.val(i) * conjugate(l.val(i));
 
     //---------------
     // drop and sort
@@ -629,6 +630,7 @@ inline CsType symm_level_factorize(
   F.inds()      = F_ccs.inds();
   F.ind_start() = F_ccs.ind_start();
   F.vals()      = F_ccs.vals();
+  for (auto &v : F.vals()) v = conjugate(v);
 
   // recursive function free
   if (cur_level > 1u) const_cast<input_type &>(A).destroy();
-- 
2.43.0


From 09946dad21eb6c0cf40ebf4816ab2542c8e24110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 16/41] fix: reading options from a stream skipped the pivoting
 flag

---
 src/hif/Options.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index ffb8550..66ebf69 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -568,8 +568,8 @@ inline InStream &operator>>(InStream &in_str, hif::Options &opt) {
       opt.alpha_U >> opt.rho >> opt.c_d >> opt.c_h >> opt.N >> opt.verbose >>
       opt.rf_par >> opt.reorder >> opt.spd >> opt.check >> opt.pre_scale >>
       opt.symm_pre_lvls >> opt.threads >> opt.mumps_blr >> opt.fat_schur_1st >>
-      opt.rrqr_cond >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
-      opt.nzp_thres >> opt.dense_thres;
+      opt.rrqr_cond >> opt.pivot >> opt.gamma >> opt.beta >> opt.is_symm >>
+      opt.no_pre >> opt.nzp_thres >> opt.dense_thres;
   return in_str;
 }
 
-- 
2.43.0


From eab60acfbd59799cb6067f1835e589cb29001992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 17/41] fix: verbose name must list every enabled flag

---
 src/hif/Options.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index 66ebf69..d0ec429 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -601,7 +601,12 @@ inline std::string hif::get_verbose(const hif::Options &opt) {
     name = "none";
   else {
     if (hif_verbose(WARN, opt)) name = "warning";
-    else if (hif_verbose(INFO, opt)) name = "info";
+    if (hif_verbose(INFO, opt)) {
+      if (name != "")
+        name += ",info";
+      else
+        name = "info";
+    }
     if (hif_verbose(PRE, opt)) {
       if (name != "")
         name += ",pre";
@@ -626,6 +631,12 @@ inline std::string hif::get_verbose(const hif::Options &opt) {
       else
         name = "mem";
     }
+    if (hif_verbose(INFO2, opt)) {
+      if (name != "")
+        name += ",info2";
+      else
+        name = "info2";
+    }
   }
   return name;
 }
-- 
2.43.0


From f60a95b54ee57ac9be1c98e000ad0eee224b2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 18/41] fix: SYEIG mrhs kernels indexed columns by i*Nrhs

The column index of the internal buffer is i; i * Nrhs reads and writes
beyond the buffer for two or more right-hand sides.
---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index b259604..c8b4151 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -234,7 +234,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, solve inv(lambda)*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -243,7 +243,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
@@ -300,7 +300,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, compute lambda*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -309,7 +309,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
-- 
2.43.0


From cb0b650f300f92d5796c8ab3290b01eaf8bbde45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 19/41] fix: SYEIG truncation threshold must be nonnegative

The threshold took the sign of the largest-magnitude eigenvalue, so that
no eigenvalue was ever truncated if that one is negative.
---
 src/hif/small_scale/SYEIG.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index c8b4151..568289f 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -134,10 +134,11 @@ class SYEIG {
     _trunc_order.resize(n);
     std::iota(_trunc_order.begin(), _trunc_order.end(), 0);
     const scalar_type thres =
-        EPS * *std::max_element(_w.cbegin(), _w.cend(),
-                                [](const value_type a, const value_type b) {
-                                  return std::abs(a) < std::abs(b);
-                                });
+        EPS *
+        std::abs(*std::max_element(_w.cbegin(), _w.cend(),
+                                   [](const value_type a, const value_type b) {
+                                     return std::abs(a) < std::abs(b);
+                                   }));
     _rank = n;
     if (opts.spd > 0) {
       // ensure pd-ness
-- 
2.43.0


From ce0a49f98ca64d543f833a4bad85167d48f20252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 20/41] fix: SYEIG truncation of definite systems

The eigenvalues are in ascending order, so that the positive (negative)
definite truncation starts from the smallest (largest) one.
---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index 568289f..60c98c9 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -142,16 +142,16 @@ class SYEIG {
     _rank = n;
     if (opts.spd > 0) {
       // ensure pd-ness
-      for (int i(n - 1); i > -1; --i)
+      // eigenvalues are ascending, reverse the order for truncations
+      std::reverse(_trunc_order.begin(), _trunc_order.end());
+      for (size_type i(0); i < n; ++i)
         if (_w[i] <= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
           break;
     } else if (opts.spd < 0) {
       // ensure nd-ness
-      // reverse the order for truncations
-      std::reverse(_trunc_order.begin(), _trunc_order.end());
-      for (size_type i(0); i < n; ++i)
+      for (int i(n - 1); i > -1; --i)
         if (_w[i] >= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
-- 
2.43.0


From e54625c2e5627bfa672d4721d136eb243376c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:11 +0000
Subject: [PATCH 21/41] fix: LUP transposed solve must be conjugate transposed

multiply(tran=true) and the QRCP solver apply the Hermitian transpose.
---
 src/hif/small_scale/LUP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 0c7d93e..5743baa 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -140,7 +140,7 @@ class LUP {
         "either the matrix is not set or the factorization has not yet done!");
     hif_error_if(x.size() != _mat.nrows(),
                  "unmatched sizes between system and rhs");
-    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
   }
 
@@ -166,7 +166,7 @@ class LUP {
     _mrhs.resize(x.size(), Nrhs);
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) _mrhs(i, j) = x[i][j];
-    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) x[i][j] = _mrhs(i, j);
-- 
2.43.0


From be6041b064933f586c81f5faab8d36d1b23ce76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:54 +0000
Subject: [PATCH 22/41] fix: QRCP rank must not exceed the number of columns

Only ncols reflectors and columns are available.
---
 src/hif/small_scale/QRCP.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index f8b8644..72bc783 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -374,7 +374,7 @@ class QRCP {
         "either the matrix is not set or the factorization has not yet done!");
     // determine rank, assume row size is no smaller than column size
     const size_type rk =
-        rank == 0u ? _rank : (rank > _mat.nrows() ? _mat.nrows() : rank);
+        rank == 0u ? _rank : (rank > _mat.ncols() ? _mat.ncols() : rank);
     // query the optimal work space
     value_type lwork;
     lapack_kernel::ormqr('L', 'T', _mat.nrows(), Nrhs, rk, _mat.data(),
@@ -421,7 +421,7 @@ class QRCP {
         "either the matrix is not set or the factorization has not yet done!");
     // determine rank, assume row size is no smaller than column size
     const size_type rk =
-        rank == 0u ? _rank : (rank > _mat.nrows() ? _mat.nrows() : rank);
+        rank == 0u ? _rank : (rank > _mat.ncols() ? _mat.ncols() : rank);
 
     // permutation P^T
     const size_type n = _jpvt.size();
@@ -463,7 +463,7 @@ class QRCP {
         "either the matrix is not set or the factorization has not yet done!");
     // determine rank, assume row size is no smaller than column size
     const size_type rk =
-        rank == 0u ? _rank : (rank > _mat.nrows() ? _mat.nrows() : rank);
+        rank == 0u ? _rank : (rank > _mat.ncols() ? _mat.ncols() : rank);
 
     // permutation P^T
     const size_type n = _jpvt.size();
@@ -505,7 +505,7 @@ class QRCP {
         "either the matrix is not set or the factorization has not yet done!");
     // determine rank, assume row size is no smaller than column size
     const size_type rk =
-        rank == 0u ? _rank : (rank > _mat.nrows() ? _mat.nrows() : rank);
+        rank == 0u ? _rank : (rank > _mat.ncols() ? _mat.ncols() : rank);
     // query the optimal work space
     value_type lwork;
     lapack_kernel::ormqr('L', 'T', _mat.nrows(), Nrhs, rk, _mat.data(),
-- 
2.43.0


From 34b704681860eac701bd06989d79364e396307bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:26 +0000
Subject: [PATCH 23/41] fix: QRCP rank of a zero matrix and start of the norm
 estimation

A matrix that is exactly zero was reported to be of full rank. Also, the
incremental estimator must start from the leading 1x1 block (as in ?gelsy):
repeating that block sets the estimated largest singular vector to zero, so
that the condition number is underestimated.
---
 src/hif/small_scale/QRCP.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index 72bc783..8c8ee53 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -148,7 +148,7 @@ class QRCP {
     // weighted by R(0,0)
     const scalar_type diag_eps = diag_tol * std::abs(_mat[0]);
     for (size_type i = N; i != 0u; --i)
-      if (std::abs(_mat(i - 1, i - 1)) < diag_eps) {
+      if (std::abs(_mat(i - 1, i - 1)) <= diag_eps) {
         if (hif_verbose(INFO, opts)) {
           hif_info(
               "\n  System is ill-conditioned (diagonal %zd is smaller\n"
@@ -340,7 +340,10 @@ class QRCP {
     scalar_type smax(abs(_mat(0, 0))), smin(smax);  // initial singular values
     value_type  s1, c1, s2, c2;                     // needed in ?laic1
     scalar_type sminpr, smaxpr;
-    for (_rank = 0u; _rank < n; ++_rank) {
+    // x and y are the singular vectors of the first leading block
+    _rank = 0u;
+    if (smax == scalar_type(0)) return;
+    for (_rank = 1u; _rank < n; ++_rank) {
       // esimate smaller
       lapack_kernel::laic1(JOB_MIN, _rank, x, smin, &_mat(0, _rank),
                            _mat(_rank, _rank), sminpr, s1, c1);
-- 
2.43.0


From 8165287537be7ff0bc8ea4d283c9584614f424f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 24/41] fix: shrink coordinates read from symmetric Matrix
 Market files

---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 44436d8..e4033dc 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -591,7 +591,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
       vals[index] = -vals[index - 1];
     ++index;
   }
-  if (index != nnz) {
+  if (index != rows.size()) {
     rows.resize(index);
     cols.resize(index);
     vals.resize(index);
-- 
2.43.0


From 093b36e47aa73e508c8fac5040cfa75bdad7fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:18 +0000
Subject: [PATCH 25/41] fix: bound the tokens of the Matrix Market first line
 and close unreadable files

---
 src/hif/utils/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index e4033dc..7c54146 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -627,8 +627,11 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   char storage_scheme[65];
 
   // read the first line
-  if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
-  if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (!std::fgets(line, 1025, f)) {
+    std::fclose(f);
+    hif_error("unable to read the first line");
+  }
+  if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
     hif_error("insufficient number of tokens in the first line");
-- 
2.43.0


From 3b4197d57f4ec6cc2779fe56f1c89b611ab70172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 26/41] fix: reject Matrix Market indices outside of the matrix

---
 src/hif/utils/io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 7c54146..3b15b3d 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -824,6 +824,11 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
       internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
   }
   std::fclose(f);
+  // the indices must be consistent with the sizes
+  for (std::size_t i(0); i < rows.size(); ++i)
+    hif_error_if(rows[i] < IndexType(0) || (std::size_t)rows[i] >= nrows ||
+                     cols[i] < IndexType(0) || (std::size_t)cols[i] >= ncols,
+                 "entry %zd exceeds the matrix sizes", i);
 }
 
 /// \brief Read vector from a MatrixMarket file
-- 
2.43.0


From bdd046807db444d1e991a0456248d356253a4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:39 +0000
Subject: [PATCH 27/41] fix: report non-numeric Matrix Market sizes instead of
 looping forever

---
 src/hif/utils/io.hpp | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 3b15b3d..a4f6531 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -703,21 +703,13 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
   } while (line[0] == '%');
 
   int m, n, nz;
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
-    nrows = m;
-    ncols = n;
-    nnz   = nz;
-    return;
-  }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
-    if (num_items_read == EOF) {
+  if (sscanf(line, "%d %d %d", &m, &n, &nz) != 3) {
+    const int num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
+    if (num_items_read != 3) {
       std::fclose(f);
-      hif_error("reached EOF!");
+      hif_error("unable to read the sizes");
     }
-  } while (num_items_read != 3);
+  }
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -738,20 +730,13 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
   } while (line[0] == '%');
 
   int m, n;
-  if (sscanf(line, "%d %d", &m, &n) == 2) {
-    nrows = m;
-    ncols = n;
-    return;
-  }
-
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d", &m, &n);
-    if (num_items_read == EOF) {
+  if (sscanf(line, "%d %d", &m, &n) != 2) {
+    const int num_items_read = std::fscanf(f, "%d %d", &m, &n);
+    if (num_items_read != 2) {
       std::fclose(f);
-      hif_error("reached EOF!");
+      hif_error("unable to read the sizes");
     }
-  } while (num_items_read != 2);
+  }
   nrows = m;
   ncols = n;
 }
-- 
2.43.0


From 4fd48474e3a90db55c84f0597c91b2831c404979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 28/41] fix: reject negative Matrix Market sizes

---
 src/hif/utils/io.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index a4f6531..f4d79f8 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -710,6 +710,10 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
       hif_error("unable to read the sizes");
     }
   }
+  if (m < 0 || n < 0 || nz < 0) {
+    std::fclose(f);
+    hif_error("negative sizes");
+  }
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -737,6 +741,10 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
       hif_error("unable to read the sizes");
     }
   }
+  if (m < 0 || n < 0) {
+    std::fclose(f);
+    hif_error("negative sizes");
+  }
   nrows = m;
   ncols = n;
 }
-- 
2.43.0


From b4ef0d97a99d631ed26f388b33a43112e70a7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 29/41] fix: check allocations while reading Matrix Market
 files

---
 src/hif/utils/io.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index f4d79f8..a34fffa 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -563,6 +563,11 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
     cols.resize(nnz);
     vals.resize(nnz);
   }
+  if (nnz && (rows.status() == DATA_UNDEF || cols.status() == DATA_UNDEF ||
+              vals.status() == DATA_UNDEF)) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
 
   std::size_t index(0);
   int         r, c;
@@ -603,6 +608,10 @@ template <bool IsReal, class ValueType>
 inline void mm_read_vector_data(std::FILE *f, const std::size_t n,
                                 Array<ValueType> &v) {
   v.resize(n);
+  if (n && v.status() == DATA_UNDEF) {
+    std::fclose(f);
+    hif_error("memory allocation failed");
+  }
   double vr, vi;
   for (std::size_t i(0); i < n; ++i) {
     const int flag = IsReal ? std::fscanf(f, "%lg", &vr)
-- 
2.43.0


From 355c6930b29e68f065fac3aceabb63be00e9fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 30/41] fix: forward the numerical rank in lhf?Apply

---
 libhifir/src/libhifir.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d59d310..7507bce 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -147,25 +147,25 @@ static inline void factorize(PrecType &M, const MatHdlType mat,
 // solve implementation
 template <class PrecType, class ValueType>
 static inline void solve(PrecType &M, const ValueType *b, ValueType *x,
-                         const bool trans = false) {
+                         const bool trans = false, const int rank = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.solve(rhs, lhs, trans);
+  M.solve(rhs, lhs, trans, rank);
 }
 
 // multiplication implementation
 template <class PrecType, class ValueType>
 static inline void mmultiply(PrecType &M, const ValueType *b, ValueType *x,
-                             const bool trans = false) {
+                             const bool trans, const int rank) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.mmultiply(rhs, lhs, trans);
+  M.mmultiply(rhs, lhs, trans, rank);
 }
 
 template <class PrecType, class MatHdlType, class ValueType>
@@ -456,9 +456,9 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -676,9 +676,9 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -897,10 +897,10 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1119,10 +1119,10 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<float> *)b,
-                                 (std::complex<float> *)x, trans);
+                                 (std::complex<float> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                             (std::complex<float> *)x, trans);
+                             (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1201,9 +1201,9 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
@@ -1252,10 +1252,10 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
-- 
2.43.0


From 77964512cc3d3e5116b4eb8bb305986d75d31d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:11 +0000
Subject: [PATCH 31/41] fix: handle empty matrices in lhf?GetMatrixNnz

---
 libhifir/src/libhifir.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 7507bce..fb2ec65 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -335,7 +335,8 @@ size_t lhfdGetMatrixSize(const LhfdMatrixHdl mat) {
 
 // get nnz
 size_t lhfdGetMatrixNnz(const LhfdMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -553,7 +554,8 @@ size_t lhfsGetMatrixSize(const LhfsMatrixHdl mat) {
 
 // get nnz
 size_t lhfsGetMatrixNnz(const LhfsMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -773,7 +775,8 @@ size_t lhfzGetMatrixSize(const LhfzMatrixHdl mat) {
 
 // get nnz
 size_t lhfzGetMatrixNnz(const LhfzMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -998,7 +1001,8 @@ size_t lhfcGetMatrixSize(const LhfcMatrixHdl mat) {
 
 // get nnz
 size_t lhfcGetMatrixNnz(const LhfcMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
-- 
2.43.0


From af226b5945909ac556babf32804dd8ca1242d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 32/41] fix: do not let exceptions escape lhfQueryMmFile

---
 libhifir/src/libhifir.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index fb2ec65..c514404 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -275,16 +275,20 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   if (!f) return LHF_NULL_OBJ;
   bool is_sparse2, is_real2;
   int  type_id;
-  // parse the first line
-  hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
-  *is_sparse = is_sparse2;
-  *is_real   = is_real2;
-  (void)type_id;  // not used
-  if (is_sparse2)
-    hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-  else {
-    *nnz = 0u;
-    hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+  try {
+    // parse the first line, the file is closed upon errors
+    hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+    *is_sparse = is_sparse2;
+    *is_real   = is_real2;
+    (void)type_id;  // not used
+    if (is_sparse2)
+      hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
+    else {
+      *nnz = 0u;
+      hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+    }
+  } catch (const std::exception &e) {
+    _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
   std::fclose(f);
   return LHF_SUCCESS;
-- 
2.43.0


From e99ae0adc0317eb1bc8a3047d9734d45cc83d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:02 +0000
Subject: [PATCH 33/41] fix: count mirrored entries in lhfQueryMmFile

---
 libhifir/src/libhifir.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index c514404..d2dd7f1 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -280,10 +280,25 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
     hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
     *is_sparse = is_sparse2;
     *is_real   = is_real2;
-    (void)type_id;  // not used
-    if (is_sparse2)
+    if (is_sparse2) {
       hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-    else {
+      if (type_id) {
+        // off-diagonal entries are mirrored while reading, see lhf?ReadSparse
+        const std::size_t stored = *nnz;
+        int               r, c;
+        double            vr, vi;
+        for (std::size_t i(0); i < stored; ++i) {
+          const int flag = is_real2
+                               ? std::fscanf(f, "%d %d %lg", &r, &c, &vr)
+                               : std::fscanf(f, "%d %d %lg %lg", &r, &c, &vr, &vi);
+          if (flag != 4 - is_real2) {
+            std::fclose(f);
+            hif_error("insufficient objects scanned from fscanf");
+          }
+          if (r != c) ++*nnz;
+        }
+      }
+    } else {
       *nnz = 0u;
       hif::internal::mm_read_dense_size(f, *nrows, *ncols);
     }
-- 
2.43.0


From aaafb5527d4399fd6bcf56ffbee64b8a2458b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:27 +0000
Subject: [PATCH 34/41] fix: refuse reading into an empty matrix handle

---
 libhifir/src/libhifir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d2dd7f1..6e6d585 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -97,6 +97,7 @@ static inline hif::Params create_params(const double params[]) {
 template <class ValueType, class MatHdlType>
 static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
   _LHF_CANNOT_ACCEPT_NULL(mat);
+  _LHF_CANNOT_ACCEPT_NULL(mat->indptr);
   if (mat->is_rowmajor) {
     using matrix_t = hif::CRS<ValueType, LhfInt, LhfIndPtr>;
     matrix_t A;
-- 
2.43.0


From bb26e138061371cefd454eac433c46b50e4f128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:53 +0000
Subject: [PATCH 35/41] fix: check the allocation in lhfcCreate

---
 libhifir/src/libhifir.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 6e6d585..efb0944 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -1073,6 +1073,10 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  if (!M->M) {
+    std::free(M);
+    return nullptr;
+  }
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
-- 
2.43.0


From 1f1922ece162c93b854b8d59f8671f5ea88c4092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 36/41] fix: discard incomplete levels when a factorization
 fails

An exception thrown while a later level was computed left the levels
built so far behind: the preconditioner was not empty and solving with it
ran past its last level.
---
 src/hif/builder.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index 8c18730..1408036 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -350,12 +350,18 @@ class HIF {
 
     // create size references for dropping
     iarray_type row_sizes, col_sizes;
-    if (hif_verbose(FAC, params))
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
-                        schur_threads);
-    else
-      _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout_dummy,
-                        schur_threads);
+    try {
+      if (hif_verbose(FAC, params))
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes, Crout_cout,
+                          schur_threads);
+      else
+        _factorize_kernel(AA, m0, params, row_sizes, col_sizes,
+                          Crout_cout_dummy, schur_threads);
+    } catch (...) {
+      // do not leave incomplete levels behind
+      _precs.clear();
+      throw;
+    }
     t.finish();
     if (hif_verbose(INFO, params)) {
       const size_type Nnz = nnz();
-- 
2.43.0


From c04d2b8c07772b459d17b6275585cb2f47f414ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 37/41] fix: use the actual team size in parallel regions

num_threads() is a request: thread limits, dynamic adjustment and nested
regions can give a smaller team, in which case the parts of the missing
threads were never computed.
---
 src/hif/alg/Schur.hpp   | 14 ++++++++------
 src/hif/utils/mt.hpp    | 11 +++++++++++
 src/hif/utils/mt_mv.hpp | 12 ++++++++----
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 8f89701..e4edc55 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -446,10 +446,11 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   if (nthreads <= 3) {
 #pragma omp parallel num_threads(2) default(shared)
     do {
+      // NOTE the team may have a single thread
       const int thread = get_thread();
-      if (thread)
+      if (thread + 1 == get_team_size())
         drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
-      else
+      if (thread == 0)
         drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
     } while (false);  // end of parallel region for 2
     return;
@@ -461,8 +462,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
     // determine thread id and work of partition
-    const int       thread    = get_thread();
-    const auto      part      = uniform_partition(n, nthreads, thread);
+    const int       thread    = get_thread(), team = get_team_size();
+    const auto      part      = uniform_partition(n, team, thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create additional work buffer
@@ -542,7 +543,8 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // resize nnz arrays
       L_E.col_ind().resize(L_E.nnz());
       L_E.vals().resize(L_E.nnz());
-    } else if (thread == 1) {
+    }
+    if (thread == (team > 1 ? 1 : 0)) {
       // U part
       auto i_itr = U_F.row_ind().begin();
       auto v_itr = U_F.vals().begin();
@@ -624,7 +626,7 @@ inline CrsType compute_Schur_simple(const ScaleArray &s, const CrsType &A,
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(N, nthreads, thread);
+    const auto      part      = uniform_partition(N, get_team_size(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create local sparse buffer
diff --git a/src/hif/utils/mt.hpp b/src/hif/utils/mt.hpp
index a736c6c..1e0b383 100644
--- a/src/hif/utils/mt.hpp
+++ b/src/hif/utils/mt.hpp
@@ -87,6 +87,17 @@ inline int get_thread() {
 #endif
 }
 
+/// \brief get number of threads in the current team
+/// \note This can be smaller than the number of threads requested for a
+///       parallel region, e.g., due to thread limits or nested regions.
+inline int get_team_size() {
+#ifdef _OPENMP
+  return omp_get_num_threads();
+#else
+  return 1;
+#endif
+}
+
 /// \brief uniform partition
 inline std::pair<std::size_t, std::size_t> uniform_partition(
     const std::size_t n, const int threads, const int thread) {
diff --git a/src/hif/utils/mt_mv.hpp b/src/hif/utils/mt_mv.hpp
index 9047317..c97693f 100644
--- a/src/hif/utils/mt_mv.hpp
+++ b/src/hif/utils/mt_mv.hpp
@@ -67,7 +67,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x.data(), part.first, part.second - part.first, y.data());
   } while (false);  // parallel region
 }
@@ -91,7 +92,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
@@ -142,7 +144,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x[0].data(), part.first,
                                  part.second - part.first, y[0].data());
   } while (false);  // parallel region
@@ -169,7 +172,8 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part =
+        uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
-- 
2.43.0


From 3c4d0a7505ddf06fad64bcbf63cbd24a122f3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:21 +0000
Subject: [PATCH 38/41] fix: do not store the list of candidate rows where q2
 grows in the matching

With ties, q2 (growing from the end of q) overwrote rows of the list kept in
q(1:qlen) before they were visited.
---
 src/hif/pre/equilibrate.hpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/hif/pre/equilibrate.hpp b/src/hif/pre/equilibrate.hpp
index 035f476..4e53cad 100644
--- a/src/hif/pre/equilibrate.hpp
+++ b/src/hif/pre/equilibrate.hpp
@@ -540,21 +540,16 @@ inline void kernel(const _Integer n, const _Integer *ip, const _Index *irn,
         jsp = j;
       } else {
         if (dnew < dmin_) dmin_ = dnew;
-        d__[i__] = dnew;
-        ++qlen;
-        q[qlen] = k;
       }
     }
-    // initialize heap q and q2 with rows held in q(1:qlen)
-    const _Integer kkstop = qlen;
-    qlen                  = 0;
-    for (kk = 1; kk <= kkstop; ++kk) {
-      k   = q[kk];
+    // initialize heap q and q2 with the matched rows in column j, NOTE that q
+    // cannot hold the list of them, because q2 grows from the end of q
+    for (k = ip[j]; k <= kstop; ++k) {
       i__ = irn[k];
-      if (csp <= d__[i__]) {
-        d__[i__] = rinf;
-        continue;
-      }
+      if (iperm[i__] == 0) continue;
+      dnew = a[k] - u[i__];
+      if (csp <= dnew) continue;
+      d__[i__] = dnew;
       if (d__[i__] <= dmin_) {
         --low;
         q[low] = i__;
-- 
2.43.0


From da41748c222917884c52937e1a5864ac4a4ce799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 39/41] fix: explicit zeros in matching

---
 src/hif/pre/EqlDriver.hpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/hif/pre/EqlDriver.hpp b/src/hif/pre/EqlDriver.hpp
index 5b5c120..7f746aa 100644
--- a/src/hif/pre/EqlDriver.hpp
+++ b/src/hif/pre/EqlDriver.hpp
@@ -91,10 +91,37 @@ class EqlDriver {
           break;
       }
       // deal with scaling and matching
-      kernel_type eq;
-      const int   info =
-          eq.compute(n, nnz, B.row_start().data(), B.col_ind().data(),
-                     B.vals().data(), p.data());
+      // NOTE that explicit zeros are not part of the structure to be matched,
+      // their infinite costs lead to undefined scaling factors
+      const size_type zeros =
+          std::count(B.vals().cbegin(), B.vals().cbegin() + nnz, value_type(0));
+      if (zeros == nnz) {
+        // nothing to match
+        for (size_type i(0); i < n; ++i) p[i] = i + 1;
+        break;
+      }
+      crs_type nz_B;
+      if (zeros) {
+        nz_B.resize(n, n);
+        nz_B.row_start().resize(n + 1);
+        hif_error_if(nz_B.row_start().status() == DATA_UNDEF,
+                     "memory allocation failed");
+        nz_B.reserve(nnz - zeros);
+        nz_B.row_start()[0] = 1;
+        for (size_type i(0); i < n; ++i) {
+          for (auto k = B.row_start()[i] - 1; k < B.row_start()[i + 1] - 1; ++k)
+            if (B.vals()[k] != value_type(0)) {
+              nz_B.col_ind().push_back(B.col_ind()[k]);
+              nz_B.vals().push_back(B.vals()[k]);
+            }
+          nz_B.row_start()[i + 1] = nz_B.col_ind().size() + 1;
+        }
+      }
+      const crs_type &AA = zeros ? nz_B : B;
+      kernel_type     eq;
+      const int       info =
+          eq.compute(n, nnz - zeros, AA.row_start().data(),
+                     AA.col_ind().data(), AA.vals().data(), p.data());
 
       if (info < 0) {
         hif_error(
-- 
2.43.0


From 230c446ea3268673ab5e35bb8871cda4c9a5eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 40/41] fix: empty rows and columns in iterative scaling

---
 src/hif/pre/a_priori_scaling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/a_priori_scaling.hpp b/src/hif/pre/a_priori_scaling.hpp
index 5517bca..3724b7e 100644
--- a/src/hif/pre/a_priori_scaling.hpp
+++ b/src/hif/pre/a_priori_scaling.hpp
@@ -199,12 +199,14 @@ inline void iterative_scale_p(const PermType &p, CrsType &A, ScalingType &rs,
           local_cs[j]  = std::max(std::abs(*v_itr), local_cs[j]);
         }
       }
-      local_rs[p[row]] = 1. / std::sqrt(tmp);
+      // empty rows (and columns, below) are not scaled
+      local_rs[p[row]] = tmp == 0 ? scalar_type(1) : 1. / std::sqrt(tmp);
     }
     for (size_type i(0); i < m; ++i) rs[i] *= local_rs[i];
     if (!IsSymm) {
       for (size_type i(0); i < n; ++i) {
-        const auto tmp = 1. / std::sqrt(local_cs[i]);
+        const scalar_type tmp =
+            local_cs[i] == 0 ? scalar_type(1) : 1. / std::sqrt(local_cs[i]);
         local_cs[i]    = tmp;
         cs[i] *= tmp;
       }
-- 
2.43.0


From 910297dd022bfc15c0f3ab8e6d6714080246cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:15 +0000
Subject: [PATCH 41/41] fix: check the index before reading the mask in
 compute_leading_block

---
 src/hif/pre/matching_scaling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index f005e52..7bb3607 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -269,7 +269,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
                   last = A_crs.col_ind_cend(row);
              itr != last; ++itr) {
           const size_type ind = q.inv(*itr);
-          if (!masks[ind] && ind < m) {
+          if (ind < m && !masks[ind]) {
             masks[ind] = true;
             buf[nnz++] = ind;
           }
@@ -303,7 +303,7 @@ inline CcsType compute_leading_block(const CcsType &A, const CrsType &A_crs,
       for (auto itr = A_crs.col_ind_cbegin(row), last = A_crs.col_ind_cend(row);
            itr != last; ++itr) {
         const size_type ind = q.inv(*itr);
-        if (!masks[ind] && ind < m) {
+        if (ind < m && !masks[ind]) {
           masks[ind] = true;
           *i_itr++   = ind;
         }
-- 
2.43.0

