From ffee7d4a44571621efe53cf8d5cefe7be5267826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 01/17] fix: optimized mxm A*B' (no mask, no accum) must clear
 rows of C where A's row is empty

---
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 67c86bf..67bca23 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -70,7 +70,11 @@ namespace grb
             for (IndexType i = 0; i < A.nrows(); ++i)
             {
                 C_row.clear();
-                if (A[i].empty()) continue;
+                if (A[i].empty())
+                {
+                    C.setRow(i, C_row);  // no products; drop any old content
+                    continue;
+                }
 
                 // fill row i of T
                 for (IndexType j = 0; j < B.nrows(); ++j)
-- 
2.43.0


From 8279d902e2a428c8b6b530f71efd305bd3e935ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 02/17] fix: keep multiply operand order in A'*B' and A'*u
 (non-commutative semirings)

---
 .../optimized_sequential/sparse_helpers.hpp   | 31 +++++++++++++++++++
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 20 ++++++------
 .../optimized_sequential/sparse_mxv.hpp       |  3 +-
 .../platforms/sequential/sparse_helpers.hpp   | 31 +++++++++++++++++++
 .../platforms/sequential/sparse_mxm.hpp       |  4 +--
 .../platforms/sequential/sparse_mxv.hpp       |  3 +-
 6 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 831714b..a6cfbc3 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -1365,6 +1365,37 @@ namespace grb
             }
         }
 
+        // *******************************************************************
+        /// Adapts a semiring so that mult() takes its operands in the opposite
+        /// order.  axpy() computes mult(a, b_j); wherever the scalar, a, comes
+        /// from the right-hand operand of the product (A'*B' and A'*u) this
+        /// keeps the order correct for non-commutative multiplication.
+        template <typename SemiringT>
+        struct ReversedMultSemiring
+        {
+            using result_type = typename SemiringT::result_type;
+
+            SemiringT m_semiring;
+
+            template <typename D1, typename D2>
+            result_type mult(D1 const &rhs, D2 const &lhs)
+            {
+                return m_semiring.mult(lhs, rhs);
+            }
+
+            template <typename D1, typename D2>
+            result_type add(D1 const &lhs, D2 const &rhs)
+            {
+                return m_semiring.add(lhs, rhs);
+            }
+        };
+
+        template <typename SemiringT>
+        ReversedMultSemiring<SemiringT> reverse_mult(SemiringT semiring)
+        {
+            return ReversedMultSemiring<SemiringT>{semiring};
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index b212a57..5b484d2 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -76,8 +76,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy(T_row, reverse_mult(semiring), b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -236,8 +236,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy(T_row, reverse_mult(semiring), b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -335,8 +335,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy(T_row, reverse_mult(semiring), b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -432,8 +432,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy(T_row, reverse_mult(semiring), b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -530,8 +530,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy(T_row, reverse_mult(semiring), b_ik, A[k]);
                 }
 
                 // Transpose the result
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
index 9014a7a..1a1571d 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
@@ -142,7 +142,8 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy(t, reverse_mult(op),
+                             u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 831714b..a6cfbc3 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -1365,6 +1365,37 @@ namespace grb
             }
         }
 
+        // *******************************************************************
+        /// Adapts a semiring so that mult() takes its operands in the opposite
+        /// order.  axpy() computes mult(a, b_j); wherever the scalar, a, comes
+        /// from the right-hand operand of the product (A'*B' and A'*u) this
+        /// keeps the order correct for non-commutative multiplication.
+        template <typename SemiringT>
+        struct ReversedMultSemiring
+        {
+            using result_type = typename SemiringT::result_type;
+
+            SemiringT m_semiring;
+
+            template <typename D1, typename D2>
+            result_type mult(D1 const &rhs, D2 const &lhs)
+            {
+                return m_semiring.mult(lhs, rhs);
+            }
+
+            template <typename D1, typename D2>
+            result_type add(D1 const &lhs, D2 const &rhs)
+            {
+                return m_semiring.add(lhs, rhs);
+            }
+        };
+
+        template <typename SemiringT>
+        ReversedMultSemiring<SemiringT> reverse_mult(SemiringT semiring)
+        {
+            return ReversedMultSemiring<SemiringT>{semiring};
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index f34cbdf..8d94d20 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -281,8 +281,8 @@ namespace grb
                 {
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, op, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy(T_row, reverse_mult(op), b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
diff --git a/src/graphblas/platforms/sequential/sparse_mxv.hpp b/src/graphblas/platforms/sequential/sparse_mxv.hpp
index 9014a7a..1a1571d 100644
--- a/src/graphblas/platforms/sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxv.hpp
@@ -142,7 +142,8 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy(t, reverse_mult(op),
+                             u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
-- 
2.43.0


From 60802e6c7eb9858dce63304bee76326f9cf1cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 03/17] fix: assign of a constant with unsorted or repeated
 indices must keep the result sorted and unique

---
 .../optimized_sequential/sparse_assign.hpp    | 42 +++++++++++--------
 .../platforms/sequential/sparse_assign.hpp    | 42 +++++++++++--------
 2 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 94880b4..292d594 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -216,6 +216,23 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //********************************************************************
+        // A copy of the indices in ascending order and without repetitions
+        template <typename SequenceT>
+        std::vector<IndexType> sortedUniqueIndices(SequenceT const &indices)
+        {
+            std::vector<IndexType> sorted;
+            for (auto it = indices.begin(); it != indices.end(); ++it)
+            {
+                sorted.push_back(*it);
+            }
+
+            std::sort(sorted.begin(), sorted.end());
+            sorted.erase(std::unique(sorted.begin(), sorted.end()),
+                         sorted.end());
+            return sorted;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -251,23 +268,14 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
+            // The same value goes to every location, so the order and the
+            // repetition of the column indices do not matter; but the rows
+            // of T must be sorted and must not hold an index twice.
+            std::vector<IndexType> const cols(sortedUniqueIndices(col_indices));
 
             assignConstant(T, val,
                            row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           cols.begin(), cols.end());
         }
 
         //=====================================================================
@@ -510,9 +518,9 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
-            for (auto it = seq.begin(); it != seq.end(); ++it)
-                t.emplace_back(*it, val);
+            // (in index order and without repetitions)
+            for (auto idx : sortedUniqueIndices(setupIndices(indices, w.size())))
+                t.emplace_back(idx, val);
 
             GRB_LOG_VERBOSE("t: " << t);
 
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 94880b4..292d594 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -216,6 +216,23 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //********************************************************************
+        // A copy of the indices in ascending order and without repetitions
+        template <typename SequenceT>
+        std::vector<IndexType> sortedUniqueIndices(SequenceT const &indices)
+        {
+            std::vector<IndexType> sorted;
+            for (auto it = indices.begin(); it != indices.end(); ++it)
+            {
+                sorted.push_back(*it);
+            }
+
+            std::sort(sorted.begin(), sorted.end());
+            sorted.erase(std::unique(sorted.begin(), sorted.end()),
+                         sorted.end());
+            return sorted;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -251,23 +268,14 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
+            // The same value goes to every location, so the order and the
+            // repetition of the column indices do not matter; but the rows
+            // of T must be sorted and must not hold an index twice.
+            std::vector<IndexType> const cols(sortedUniqueIndices(col_indices));
 
             assignConstant(T, val,
                            row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           cols.begin(), cols.end());
         }
 
         //=====================================================================
@@ -510,9 +518,9 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
-            for (auto it = seq.begin(); it != seq.end(); ++it)
-                t.emplace_back(*it, val);
+            // (in index order and without repetitions)
+            for (auto idx : sortedUniqueIndices(setupIndices(indices, w.size())))
+                t.emplace_back(idx, val);
 
             GRB_LOG_VERBOSE("t: " << t);
 
-- 
2.43.0


From 189d5598547e6667ffe5f1cc1ed289621abef91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 04/17] fix: Vector(count, value) must report nvals() == count

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp       | 2 +-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7b31755..5592eca 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -79,7 +79,7 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7b31755..5592eca 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -79,7 +79,7 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
-- 
2.43.0


From 3cfef662ade8038b5c40c842f73198791bc07b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 05/17] fix: Vector::build with repeated indices must count
 each stored element once in nvals()

---
 .../optimized_sequential/BitmapSparseVector.hpp       | 11 ++++++++---
 .../platforms/sequential/BitmapSparseVector.hpp       | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 5592eca..57775ab 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -159,8 +159,11 @@ namespace grb
                     }
 
                     m_vals[i] = values[idx];
-                    m_bitmap[i] = true;
-                    ++m_nvals;
+                    if (m_bitmap[i] == false)
+                    {
+                        m_bitmap[i] = true;
+                        ++m_nvals;
+                    }
                 }
             }
 
@@ -340,6 +343,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored = 0;
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -358,12 +362,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 5592eca..57775ab 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -159,8 +159,11 @@ namespace grb
                     }
 
                     m_vals[i] = values[idx];
-                    m_bitmap[i] = true;
-                    ++m_nvals;
+                    if (m_bitmap[i] == false)
+                    {
+                        m_bitmap[i] = true;
+                        ++m_nvals;
+                    }
                 }
             }
 
@@ -340,6 +343,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored = 0;
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -358,12 +362,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
-- 
2.43.0


From 8c80f91d4f6042dde5c6f398d9381e34141816f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:28 +0000
Subject: [PATCH 06/17] fix: exceptions' what() must not return a pointer into
 a destroyed temporary

---
 src/graphblas/exceptions.hpp | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/graphblas/exceptions.hpp b/src/graphblas/exceptions.hpp
index fa75ef9..b175a88 100644
--- a/src/graphblas/exceptions.hpp
+++ b/src/graphblas/exceptions.hpp
@@ -47,14 +47,14 @@ namespace grb
     {
     public:
         IndexOutOfBoundsException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("IndexOutOfBoundsException: " + msg) {}
 
-        IndexOutOfBoundsException() {}
+        IndexOutOfBoundsException() : m_message("IndexOutOfBoundsException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("IndexOutOfBoundsException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -65,14 +65,14 @@ namespace grb
     {
     public:
         PanicException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("PanicException: " + msg) {}
 
-        PanicException() {}
+        PanicException() : m_message("PanicException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("PanicException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -87,14 +87,14 @@ namespace grb
     {
     public:
         InvalidValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidValueException: " + msg) {}
 
-        InvalidValueException() {}
+        InvalidValueException() : m_message("InvalidValueException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("InvalidValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -105,14 +105,14 @@ namespace grb
     {
     public:
         InvalidIndexException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidIndexException: " + msg) {}
 
-        InvalidIndexException() {}
+        InvalidIndexException() : m_message("InvalidIndexException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("InvalidIndexException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -123,17 +123,17 @@ namespace grb
     {
     public:
         DimensionException(std::string const &msg)
-            : m_message(msg)
+            : m_message("DimensionException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! DimensionException: " << msg);
         }
 
-        DimensionException(){}
+        DimensionException() : m_message("DimensionException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("DimensionException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -144,17 +144,17 @@ namespace grb
     {
     public:
         OutputNotEmptyException(std::string const &msg)
-            : m_message(msg)
+            : m_message("OutputNotEmptyException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! OutputNotEmptyException: " << msg);
         }
 
-        OutputNotEmptyException(){}
+        OutputNotEmptyException() : m_message("OutputNotEmptyException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("OutputNotEmptyException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -165,14 +165,14 @@ namespace grb
     {
     public:
         NoValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("NoValueException: " + msg) {}
 
-        NoValueException() {}
+        NoValueException() : m_message("NoValueException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("NoValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
-- 
2.43.0


From c7165c24ece706af2c201399f979b612f40dca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 07/17] fix: assign with AllIndices must reject a source larger
 than the output instead of writing out of bounds

---
 .../platforms/optimized_sequential/sparse_assign.hpp      | 8 +++++---
 src/graphblas/platforms/sequential/sparse_assign.hpp      | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 292d594..2d141ed 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -296,7 +296,8 @@ namespace grb
         {
             GRB_LOG_VERBOSE("reference backend - 4.3.7.1");
 
-            check_index_array_content(indices, w.size(),
+            // (AllIndices means all the indices of u, they have to exist in w)
+            check_index_array_content(setupIndices(indices, u.size()), w.size(),
                                       "assign(std vec): indices content check");
 
             std::vector<std::tuple<IndexType, IndexType>> oi_pairs;
@@ -352,9 +353,10 @@ namespace grb
             using AScalarType = typename AMatrixT::ScalarType;
 
             // execution error checks
-            check_index_array_content(row_indices, C.nrows(),
+            // (AllIndices means all the indices of A, they have to exist in C)
+            check_index_array_content(setupIndices(row_indices, A.nrows()), C.nrows(),
                                       "assign(std mat): row_indices content check");
-            check_index_array_content(col_indices, C.ncols(),
+            check_index_array_content(setupIndices(col_indices, A.ncols()), C.ncols(),
                                       "assign(std mat): col_indices content check");
 
             // =================================================================
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 292d594..2d141ed 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -296,7 +296,8 @@ namespace grb
         {
             GRB_LOG_VERBOSE("reference backend - 4.3.7.1");
 
-            check_index_array_content(indices, w.size(),
+            // (AllIndices means all the indices of u, they have to exist in w)
+            check_index_array_content(setupIndices(indices, u.size()), w.size(),
                                       "assign(std vec): indices content check");
 
             std::vector<std::tuple<IndexType, IndexType>> oi_pairs;
@@ -352,9 +353,10 @@ namespace grb
             using AScalarType = typename AMatrixT::ScalarType;
 
             // execution error checks
-            check_index_array_content(row_indices, C.nrows(),
+            // (AllIndices means all the indices of A, they have to exist in C)
+            check_index_array_content(setupIndices(row_indices, A.nrows()), C.nrows(),
                                       "assign(std mat): row_indices content check");
-            check_index_array_content(col_indices, C.ncols(),
+            check_index_array_content(setupIndices(col_indices, A.ncols()), C.ncols(),
                                       "assign(std mat): col_indices content check");
 
             // =================================================================
-- 
2.43.0


From 318c3704a04cc08eb169f7f23d73953a12496292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 08/17] fix: eWiseAdd/eWiseMult with transposed B must not
 convert B to A's scalar type

---
 .../platforms/optimized_sequential/sparse_ewiseadd.hpp          | 2 +-
 .../platforms/optimized_sequential/sparse_ewisemult.hpp         | 2 +-
 src/graphblas/platforms/sequential/sparse_ewiseadd.hpp          | 2 +-
 src/graphblas/platforms/sequential/sparse_ewisemult.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
-- 
2.43.0


From e253f93da49369472c62add9b7d1d926c85f531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 09/17] fix: mxm A'*B' must not convert B's values to A's type
 or the product to C's type

---
 .../platforms/optimized_sequential/sparse_mxm_ATBT.hpp | 10 +++++-----
 src/graphblas/platforms/sequential/sparse_mxm.hpp      |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index 5b484d2..b5bff62 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -72,7 +72,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -232,7 +232,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -331,7 +331,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -428,7 +428,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -526,7 +526,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index 8d94d20..227abac 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -290,7 +290,7 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    T[j].emplace_back(i, static_cast<CScalarType>(std::get<1>(t)));
+                    T[j].emplace_back(i, std::get<1>(t));
                 }
             }
 
-- 
2.43.0


From c663c5e528b9cd4868dcb031319e9eb9671df755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 10/17] fix: bfs with a wavefront and bfs_batch must compute
 parents in IndexType, not in the graph's scalar type

---
 src/algorithms/bfs.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/algorithms/bfs.hpp b/src/algorithms/bfs.hpp
index 0dc78a6..892c4eb 100644
--- a/src/algorithms/bfs.hpp
+++ b/src/algorithms/bfs.hpp
@@ -166,7 +166,7 @@ namespace algorithms
             grb::vxm(wavefront,
                      grb::complement(grb::structure(parent_list)),
                      grb::NoAccumulate(),
-                     grb::MinFirstSemiring<T>(),
+                     grb::MinFirstSemiring<grb::IndexType, T, grb::IndexType>(),
                      wavefront, graph, grb::REPLACE);
 
             // We don't need to mask here since we did it in mxm.
@@ -174,8 +174,8 @@ namespace algorithms
             // parent_list<!parent_list,merge> += wavefront
             grb::apply(parent_list,
                        grb::NoMask(),
-                       grb::Plus<T>(),
-                       grb::Identity<T>(),
+                       grb::Plus<grb::IndexType>(),
+                       grb::Identity<grb::IndexType>(),
                        wavefront,
                        grb::MERGE);
         }
@@ -221,7 +221,7 @@ namespace algorithms
         // Set the roots parents to themselves.
         grb::mxm(parent_list,
                  grb::NoMask(), grb::NoAccumulate(),
-                 grb::MinSecondSemiring<T>(),
+                 grb::MinSecondSemiring<grb::IndexType>(),
                  wavefronts, index_ramp);
 
         while (wavefronts.nvals() > 0)
@@ -229,7 +229,7 @@ namespace algorithms
             // convert all stored values to their column index
             grb::mxm(wavefronts,
                      grb::NoMask(), grb::NoAccumulate(),
-                     grb::MinSecondSemiring<T>(),
+                     grb::MinSecondSemiring<grb::IndexType>(),
                      wavefronts, index_ramp);
 
             // First because we are left multiplying wavefront rows
@@ -238,7 +238,7 @@ namespace algorithms
             grb::mxm(wavefronts,
                      grb::complement(grb::structure(parent_list)),
                      grb::NoAccumulate(),
-                     grb::MinFirstSemiring<T>(),
+                     grb::MinFirstSemiring<grb::IndexType, T, grb::IndexType>(),
                      wavefronts, graph, grb::REPLACE);
 
             // We don't need to mask here since we did it in mxm.
@@ -246,8 +246,8 @@ namespace algorithms
             // parent_list<!parent_list,merge> += wavefronts
             grb::apply(parent_list,
                        grb::NoMask(),
-                       grb::Plus<T>(),
-                       grb::Identity<T>(),
+                       grb::Plus<grb::IndexType>(),
+                       grb::Identity<grb::IndexType>(),
                        wavefronts,
                        grb::MERGE);
         }
-- 
2.43.0


From b864ea754cf5d27368c112ba45eb24f28a6e5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 11/17] fix: filtered_sssp drops a vertex newly reached at
 distance zero

---
 src/algorithms/sssp.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index 29d24e6..47af499 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -238,11 +238,16 @@ namespace algorithms
 
             // new_dist_flags<new_dist> = new_dist .< dist
             // (works even if new_dist has a stored zero
-            grb::eWiseAdd(new_dist_flags,
-                          grb::structure(new_dist),
-                          grb::NoAccumulate(),
-                          grb::LessThan<T>(),
-                          new_dist, dist, grb::REPLACE);
+            // (a vertex that had no distance before is always new)
+            grb::assign(new_dist_flags,
+                        grb::structure(new_dist),
+                        grb::NoAccumulate(),
+                        true, grb::AllIndices(), grb::REPLACE);
+            grb::eWiseMult(new_dist_flags,
+                           grb::NoMask(),
+                           grb::Second<bool>(),
+                           grb::LessThan<T>(),
+                           new_dist, dist);
             //grb::print_vector(std::cout, new_dist_flags, "new dist flags");
 
             // clear out any non-contributing paths
-- 
2.43.0


From 1167ef4c90d19e0a520df8374ade8a37ef50bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 12/17] fix: apsp must take the minimum of the zero diagonal
 and a self loop

---
 src/algorithms/apsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/apsp.hpp b/src/algorithms/apsp.hpp
index ef18690..b24691d 100644
--- a/src/algorithms/apsp.hpp
+++ b/src/algorithms/apsp.hpp
@@ -61,7 +61,7 @@ namespace algorithms
         auto Distances(grb::scaled_identity<grb::Matrix<T>>(num_vertices, 0));
         grb::eWiseAdd(Distances,
                       grb::NoMask(), grb::NoAccumulate(),
-                      grb::Plus<T>(),
+                      grb::Min<T>(),
                       Distances,
                       graph);
         grb::Matrix<T> col_k(num_vertices, 1);
-- 
2.43.0


From 22ee412ba8206ff0943647882ba8300a9a0fe432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 13/17] fix: BC_update_appendixB5 must store its wavefronts
 with the shape of the frontier

---
 src/algorithms/appendix_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index 6612c5a..a4894f2 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -282,7 +282,7 @@ namespace algorithms
 
         // ==================== BFS phase ====================
         while (Frontier.nvals() > 0) {
-            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(nsver, n));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]), grb::NoMask(), grb::NoAccumulate(),
                        grb::Identity<int32_t, bool>(), Frontier);
 
-- 
2.43.0


From 6da098f4f5c8471dd10afcfcfea9fccafc3e9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 14/17] fix: BC_appendixB4 must not let earlier sources'
 centralities leak into the dependency of a new source

---
 src/algorithms/appendix_algorithms.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index a4894f2..0240116 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -207,12 +207,13 @@ namespace algorithms
 
         // BC computation phase
         grb::Vector<float> t1(n), t2(n), t3(n), t4(n);
+        BCVectorT bc(n);            // contribution of src alone
 
         for (int i = d-1; i > 0; --i) {
             grb::assign(t1, grb::NoMask(), grb::NoAccumulate(),
                         1.f, grb::AllIndices());
             grb::eWiseAdd(t1, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<float>(), t1, delta);
+                          grb::Plus<float>(), t1, bc);
             grb::extract(t2, grb::NoMask(), grb::NoAccumulate(),
                          grb::transpose(sigma), grb::AllIndices(), i);
             grb::eWiseMult(t2, grb::NoMask(), grb::NoAccumulate(),
@@ -223,9 +224,13 @@ namespace algorithms
                          grb::transpose(sigma), grb::AllIndices(), i-1);
             grb::eWiseMult(t4, grb::NoMask(), grb::NoAccumulate(),
                            grb::Times<float>(), t4, t3);
-            grb::eWiseAdd(delta, grb::NoMask(), grb::NoAccumulate(),
-                          grb::Plus<float>(), delta, t4);
+            grb::eWiseAdd(bc, grb::NoMask(), grb::NoAccumulate(),
+                          grb::Plus<float>(), bc, t4);
         }
+
+        // add to the existing values
+        grb::eWiseAdd(delta, grb::NoMask(), grb::NoAccumulate(),
+                      grb::Plus<float>(), delta, bc);
     }
 
     //************************************************************************
-- 
2.43.0


From 5794ecb8a5b5d25c17e75237651e3c56b6fc5286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 15/17] fix: page_rank gives every vertex the teleport share,
 not only vertices with in-edges

---
 src/algorithms/page_rank.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/algorithms/page_rank.hpp b/src/algorithms/page_rank.hpp
index ba0b628..64ff71f 100644
--- a/src/algorithms/page_rank.hpp
+++ b/src/algorithms/page_rank.hpp
@@ -95,10 +95,12 @@ namespace algorithms
                    m);
         //grb::print_matrix(std::cout, m, "Scaled Graph");
 
-        auto add_scaled_teleport =
-            std::bind(grb::Plus<RealT>(),
-                      std::placeholders::_1,
-                      (1.0 - damping_factor)/static_cast<T>(rows));
+        grb::Vector<RealT> scaled_teleport(rows);
+        grb::assign(scaled_teleport,
+                    grb::NoMask(),
+                    grb::NoAccumulate(),
+                    (1.0 - damping_factor)/static_cast<RealT>(rows),
+                    grb::AllIndices());
 
         grb::assign(page_rank,
                     grb::NoMask(),
@@ -118,19 +120,19 @@ namespace algorithms
             // Compute the new rank: [1 x M][M x N] = [1 x N]
             grb::vxm(new_rank,
                      grb::NoMask(),
-                     grb::Second<RealT>(),
+                     grb::NoAccumulate(),
                      grb::ArithmeticSemiring<RealT>(),
                      page_rank, m);
             //print_vector(std::cout, new_rank, "step 1:");
 
             // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
             // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
-            //use apply:
-            grb::apply(new_rank,
-                       grb::NoMask(),
-                       grb::NoAccumulate(),
-                       add_scaled_teleport,
-                       new_rank);
+            // every vertex is a teleport target, with or without in-edges
+            grb::eWiseAdd(new_rank,
+                          grb::NoMask(),
+                          grb::NoAccumulate(),
+                          grb::Plus<RealT>(),
+                          new_rank, scaled_teleport);
             //grb::print_vector(std::cout, new_rank, "new_rank");
 
             // Test for convergence - compute squared error
-- 
2.43.0


From 26f8dc4a9587c5449873762e25e241090d001992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 16/17] fix: normalize_cols must size the column sums by the
 number of columns

---
 src/graphblas/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 2acaa4d..4840561 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -177,7 +177,7 @@ namespace grb
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::Vector<T> w(A.nrows());
+        grb::Vector<T> w(A.ncols());
         grb::reduce(w,
                     grb::NoMask(), grb::NoAccumulate(),
                     grb::Plus<T>(),
-- 
2.43.0


From 255183ae9835af7becc66a1e3640231d8c390630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 17/17] fix: louvain clustering hangs on a vertex that has no
 other cluster to join

---
 src/algorithms/cluster_louvain.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/algorithms/cluster_louvain.hpp b/src/algorithms/cluster_louvain.hpp
index 306787d..42d5b7d 100644
--- a/src/algorithms/cluster_louvain.hpp
+++ b/src/algorithms/cluster_louvain.hpp
@@ -195,6 +195,15 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, q, "q' = [e_i' * (A + A') + (-k_i/m)*k'] * S");
 
+                    if (q.nvals() == 0)
+                    {
+                        // there is no other cluster to join: i stays in its own
+                        grb::assign(S, grb::NoMask(),
+                                    grb::NoAccumulate(),
+                                    S_row, i, grb::AllIndices());
+                        continue;
+                    }
+
                     // kappa = max(q)
                     RealT kappa(0);
                     grb::reduce(kappa, grb::NoAccumulate(),
@@ -436,6 +445,15 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, q, "q'<mask> = [e_i' * (A + A') + (-k_i/m)*k'] * S");
 
+                    if (q.nvals() == 0)
+                    {
+                        // there is no other cluster to join: i stays in its own
+                        grb::assign(S, grb::NoMask(),
+                                    grb::NoAccumulate(),
+                                    S_row, i, grb::AllIndices());
+                        continue;
+                    }
+
                     // kappa = max(q)
                     RealT kappa(0);
                     grb::reduce(kappa, grb::NoAccumulate(),
-- 
2.43.0

