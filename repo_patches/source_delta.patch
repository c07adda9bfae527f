From 27d3adafbb8608459309b22da95308f4e57205df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 01/26] fix: CSR::to_coo must not turn unused slots into
 entries

---
 src/csr/csr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 65b97af..92cfd62 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -364,13 +364,14 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
     pub fn to_coo(&self) -> Coo<I, T> {
         // let values = vec![T::zero(); self.values.len()];
         // copy(values, self.values);
-        let values = self.values.clone();
+        let nnz = self.nnz(); // excludes unused slots at the end
+        let values = self.values[..nnz].to_vec();
 
         // let colidx = vec![I::zero(); self.colidx.len()];
         // copy(colidx, self.colidx);
-        let colidx = self.colidx.clone();
+        let colidx = self.colidx[..nnz].to_vec();
 
-        let mut rowidx = vec![I::zero(); self.colidx.len()];
+        let mut rowidx = vec![I::zero(); nnz];
 
         expandptr(self.rows, &self.rowptr, &mut rowidx);
 
-- 
2.43.0


From 9374e023ecf90e8ee55089075c2ee2f11120f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 02/26] fix: csr_has_sorted_indices must not underflow when the
 first rows are empty

---
 src/row.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index 878fb27..dcdd00f 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -163,9 +163,9 @@ pub fn csr_todense<I: Integer, T: Scalar>(
 pub fn csr_has_sorted_indices<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> bool {
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
-        let end = (a_p[i + 1] - I::one()).to_usize().unwrap();
-        for jj in start..end {
-            if a_j[jj] > a_j[jj + 1] {
+        let end = a_p[i + 1].to_usize().unwrap();
+        for jj in start + 1..end {
+            if a_j[jj - 1] > a_j[jj] {
                 return false;
             }
         }
-- 
2.43.0


From 3c41505cc50c7dbf43ed72a95992626448d80aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 03/26] fix: csr_has_canonical_format must not overflow the
 index type

---
 src/row.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index dcdd00f..e6824db 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -192,9 +192,7 @@ pub fn csr_has_canonical_format<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I])
             return false;
         }
 
-        let start = (a_p[i] + I::one()).to_usize().unwrap();
-        let end = a_p[i + 1].to_usize().unwrap();
-        for jj in start..end {
+        for jj in start + 1..end {
             if !(a_j[jj - 1] < a_j[jj]) {
                 return false;
             }
-- 
2.43.0


From c0d91164b27b11744a23a93ca56980e7d2240f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 04/26] fix: csr_diagonal must not underflow for a diagonal
 outside of the matrix

---
 src/row.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/row.rs b/src/row.rs
index e6824db..df649a6 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -38,7 +38,11 @@ pub fn csr_diagonal<I: Integer, T: Scalar>(
 ) {
     let first_row: usize = if k >= 0 { 0 } else { (-1 * k) as usize };
     let first_col: usize = if k >= 0 { k as usize } else { 0 };
-    let n: usize = min(n_row - first_row, n_col - first_col);
+    // A diagonal outside of the matrix has no elements.
+    let n: usize = min(
+        n_row.saturating_sub(first_row),
+        n_col.saturating_sub(first_col),
+    );
 
     for i in 0..n {
         let row: usize = first_row + i;
-- 
2.43.0


From f2b225c4215427ff0c02c711779bc2a362ecacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 05/26] fix: csr_count_diagonals must not underflow below the
 main diagonal

---
 src/row.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/row.rs b/src/row.rs
index df649a6..d358925 100644
--- a/src/row.rs
+++ b/src/row.rs
@@ -1579,14 +1579,14 @@ pub fn csr_column_index2<I: Integer, T: Scalar>(
 ///   I  Ai[nnz(A)]      - row indices
 ///   I  Aj[nnz(A)]      - column indices
 pub fn csr_count_diagonals<I: Integer>(n_row: usize, a_p: &[I], a_j: &[I]) -> usize {
-    let mut diagonals = HashSet::<usize>::new();
+    let mut diagonals = HashSet::<isize>::new();
 
     for i in 0..n_row {
         let start = a_p[i].to_usize().unwrap();
         let end = a_p[i + 1].to_usize().unwrap();
 
         for jj in start..end {
-            diagonals.insert(a_j[jj].to_usize().unwrap() - i);
+            diagonals.insert(a_j[jj].to_isize().unwrap() - i as isize);
         }
     }
     diagonals.len()
-- 
2.43.0


From c9c24ac080a0319d825eee108fbda843284c0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 06/26] fix: CSR::get must sum duplicate entries

---
 src/csr/csr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 92cfd62..5e087d5 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -490,19 +490,22 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
             .to_string()
     }
 
+    /// Returns the element at (i, j). Duplicate entries are summed.
     pub fn get(&self, i: I, j: I) -> T {
         let i = i.to_usize().unwrap();
         let j = j.to_usize().unwrap();
         let start = self.rowptr[i].to_usize().unwrap();
         let end = self.rowptr[i + 1].to_usize().unwrap();
 
-        // Iterate over the column indices of row k.
+        let mut v = T::zero(); // If not found, the element is zero.
+
+        // Iterate over the column indices of row i.
         for k in start..end {
             if self.colidx[k].to_usize().unwrap() == j {
-                return self.values[k]; // Found the element at (i, j).
+                v += self.values[k]; // Found an entry at (i, j).
             }
         }
 
-        T::zero() // If not found, the element is zero.
+        v
     }
 }
-- 
2.43.0


From e886c99e255b95fd3dc7c6687cf7fea1853b8c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 07/26] fix: Coo::upper must not overflow the index type

---
 src/coo/coo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index feff9bb..f6f7e4b 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -341,7 +341,12 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
         let mut values = Vec::with_capacity(c);
 
         for i in 0..self.nnz() {
-            if self.rowidx[i] + k <= self.colidx[i] {
+            // The sum may exceed the index type, and thereby every column.
+            let in_upper = match self.rowidx[i].checked_add(&k) {
+                Some(r) => r <= self.colidx[i],
+                None => false,
+            };
+            if in_upper {
                 rowidx.push(self.rowidx[i]);
                 colidx.push(self.colidx[i]);
                 values.push(self.values[i]);
-- 
2.43.0


From 4e46cd54f8270c4d58c9ca7ede37b7daa502a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 08/26] fix: CSC subtraction must not swap row indices and
 column pointers

---
 src/csc/std_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index a95e0fc..bb0f733 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -62,7 +62,7 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
-    CSC::new(self.rows(), self.cols(), colptr, rowidx, values).unwrap()
+    CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
 #[opimps::impl_ops(Mul)]
-- 
2.43.0


From 766bb6f59d54ea783cfd8b8b9c447ae360cf5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 09/26] fix: CSC scalar multiplication must not swap row
 indices and column pointers

---
 src/csc/std_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index bb0f733..fae82bc 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -80,8 +80,8 @@ fn mul<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: T) -> CSC<I, T> {
     CSC::new(
         self.rows(),
         self.cols(),
-        self.colptr().to_vec(),
         self.rowidx().to_vec(),
+        self.colptr().to_vec(),
         self.values().iter().map(|&v| v * rhs).collect::<Vec<T>>(),
     )
     .unwrap()
@@ -91,8 +91,8 @@ fn mul<I: Integer>(self: Complex64, rhs: CSC<I, Complex64>) -> CSC<I, Complex64>
     CSC::new(
         rhs.rows(),
         rhs.cols(),
-        rhs.colptr().to_vec(),
         rhs.rowidx().to_vec(),
+        rhs.colptr().to_vec(),
         rhs.values()
             .iter()
             .map(|&v| self * v)
-- 
2.43.0


From 253822d132ce2812d7c66f079bb4f4b8573a3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 10/26] fix: CSR and CSC addition and subtraction must refuse
 operands of different shape

---
 src/csc/std_ops.rs | 6 ++++++
 src/csr/std_ops.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index fae82bc..543d110 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -19,6 +19,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
@@ -43,6 +46,9 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut colptr = vec![I::zero(); self.cols() + 1];
     let mut rowidx = vec![I::zero(); nnz];
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index f64f10a..040d24a 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -18,6 +18,9 @@ fn neg<I: Integer, T: Scalar + Neg<Output = T>>(self: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Add)]
 fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
@@ -42,6 +45,9 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
 
 #[opimps::impl_ops(Sub)]
 fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
+    assert_eq!(self.rows(), rhs.rows());
+    assert_eq!(self.cols(), rhs.cols());
+
     let nnz = self.nnz() + rhs.nnz();
     let mut rowptr = vec![I::zero(); self.rows() + 1];
     let mut colidx = vec![I::zero(); nnz];
-- 
2.43.0


From d9ce1ada927811097164bc217595e4f6adee0442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 11/26] fix: Coo::extend must refuse slices of different length

---
 src/coo/coo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coo/coo.rs b/src/coo/coo.rs
index f6f7e4b..4bb1181 100644
--- a/src/coo/coo.rs
+++ b/src/coo/coo.rs
@@ -221,6 +221,9 @@ impl<I: Integer, T: Scalar> Coo<I, T> {
     }
 
     pub fn extend(&mut self, row: &[I], col: &[I], v: &[T]) {
+        assert_eq!(row.len(), v.len());
+        assert_eq!(col.len(), v.len());
+
         self.rowidx.extend(row);
         self.colidx.extend(col);
         self.values.extend(v);
-- 
2.43.0


From c155a7bc8e3fbb7a72cfac3af890ca4b2f6aab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 12/26] fix: strong components must survive repeated edges

---
 src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 12fb4ca..a022361 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -184,7 +184,8 @@ fn connected_components_directed<I: Integer>(
                     // Add successor nodes
                     for j in indptr[v].to_usize().unwrap()..indptr[v + 1].to_usize().unwrap() {
                         let w = indices[j].to_usize().unwrap();
-                        if lowlinks![labels][w] == Node::Void {
+                        // A repeated edge may find w at the top of the stack already.
+                        if lowlinks![labels][w] == Node::Void && stack_head != Node::Label(w) {
                             // TODO: get_unchecked
                             // DFS-stack push
                             if stack_f![ss][w] != Node::Void {
-- 
2.43.0


From 85a7b59e9bffd7db269774137daa81157ed36cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 13/26] fix: strong components of a graph without nodes must
 not underflow

---
 src/graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index a022361..2e221ad 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -154,6 +154,10 @@ fn connected_components_directed<I: Integer>(
     indices: &[I],
     indptr: &[I],
 ) -> (usize, Vec<usize>) {
+    if n == 0 {
+        return (0, Vec::new());
+    }
+
     let mut labels = vec![Node::Void; n];
 
     // The stack of nodes which have been backtracked and are in the current SCC
-- 
2.43.0


From f47c64a8fde7804536cb5ab8d3c76dfc8a4a815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 14/26] fix: cs_graph_components must accept a graph without
 edges

---
 src/graph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graph.rs b/src/graph.rs
index 2e221ad..2013d3a 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -362,6 +362,11 @@ pub fn cs_graph_components<I: Integer, T: Scalar, F: Integer + num_traits::Signe
         }
     }
 
+    if n_stop == 0 {
+        // No node has an edge.
+        return Ok(n_comp);
+    }
+
     let mut n_tot = 0;
     for icomp in 0..n_nod {
         // Find seed.
-- 
2.43.0


From 3a32f5bf8d5952010477d1ceef599f5edd581c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 15/26] fix: CSR and CSC sums, differences and products must
 not keep unused slots

---
 src/csc/csc.rs     | 4 ++++
 src/csc/std_ops.rs | 8 ++++++++
 src/csr/csr.rs     | 4 ++++
 src/csr/std_ops.rs | 8 ++++++++
 4 files changed, 24 insertions(+)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 5aec3af..2957842 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -296,6 +296,10 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
             &mut values,
         );
 
+        let nnz = colptr[cols].to_usize().unwrap();
+        rowidx.truncate(nnz);
+        values.truncate(nnz);
+
         CSC::new(rows, cols, rowidx, colptr, values)
     }
 
diff --git a/src/csc/std_ops.rs b/src/csc/std_ops.rs
index 543d110..9aaad47 100644
--- a/src/csc/std_ops.rs
+++ b/src/csc/std_ops.rs
@@ -41,6 +41,10 @@ fn add<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
+    let nnz = colptr[self.cols()].to_usize().unwrap();
+    rowidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
@@ -68,6 +72,10 @@ fn sub<I: Integer, T: Scalar>(self: CSC<I, T>, rhs: CSC<I, T>) -> CSC<I, T> {
         &mut values,
     );
 
+    let nnz = colptr[self.cols()].to_usize().unwrap();
+    rowidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSC::new(self.rows(), self.cols(), rowidx, colptr, values).unwrap()
 }
 
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 5e087d5..0e50142 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -291,6 +291,10 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
             &mut values,
         );
 
+        let nnz = rowptr[rows].to_usize().unwrap();
+        colidx.truncate(nnz);
+        values.truncate(nnz);
+
         CSR::new(rows, cols, rowptr, colidx, values)
     }
 
diff --git a/src/csr/std_ops.rs b/src/csr/std_ops.rs
index 040d24a..2d922cd 100644
--- a/src/csr/std_ops.rs
+++ b/src/csr/std_ops.rs
@@ -40,6 +40,10 @@ fn add<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
         &mut values,
     );
 
+    let nnz = rowptr[self.rows()].to_usize().unwrap();
+    colidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap()
 }
 
@@ -67,6 +71,10 @@ fn sub<I: Integer, T: Scalar>(self: CSR<I, T>, rhs: CSR<I, T>) -> CSR<I, T> {
         &mut values,
     );
 
+    let nnz = rowptr[self.rows()].to_usize().unwrap();
+    colidx.truncate(nnz);
+    values.truncate(nnz);
+
     CSR::new(self.rows(), self.cols(), rowptr, colidx, values).unwrap()
 }
 
-- 
2.43.0


From c3cde8e1d15089c0b49d556f94cbf320739abbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 16/26] fix: CSR and CSC from_dense must accept a matrix
 without rows

---
 src/csc/csc.rs | 2 +-
 src/csr/csr.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csc/csc.rs b/src/csc/csc.rs
index 2957842..2c6d394 100644
--- a/src/csc/csc.rs
+++ b/src/csc/csc.rs
@@ -50,7 +50,7 @@ impl<I: Integer, T: Scalar> CSC<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = a.first().map_or(0, |r| r.len());
 
         let mut colptr = Vec::<I>::new();
         let mut rowidx = Vec::<I>::new();
diff --git a/src/csr/csr.rs b/src/csr/csr.rs
index 0e50142..4d21b5a 100644
--- a/src/csr/csr.rs
+++ b/src/csr/csr.rs
@@ -62,7 +62,7 @@ impl<I: Integer, T: Scalar> CSR<I, T> {
 
     pub fn from_dense(a: &[Vec<T>]) -> Self {
         let rows = a.len();
-        let cols = a[0].len();
+        let cols = a.first().map_or(0, |r| r.len());
 
         let mut rowptr = Vec::<I>::new();
         let mut colidx = Vec::<I>::new();
-- 
2.43.0


From 185908a20532ef22bda3078db6af236e06f4edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 17/26] fix: complex pretty_string must print a single sign for
 the imaginary part

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8b4d5ab..8bd2b15 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -108,7 +108,7 @@ impl Scalar for num_complex::Complex<f64> {
             "{}{}j{}",
             dtoa(self.re, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs(), config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
@@ -119,7 +119,7 @@ impl Scalar for num_complex::Complex<f32> {
             "{}{}j{}",
             dtoa(self.re as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG)),
             if self.im.signum() < 0.0 { "-" } else { "+" },
-            dtoa(self.im as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
+            dtoa(self.im.abs() as f64, config.unwrap_or(DEFAULT_FLOAT_CONFIG))
         )
         .to_string()
     }
-- 
2.43.0


From 8965bac928eaafa3db71ee8ee1659abdbe996c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:07 +0000
Subject: [PATCH 18/26] fix: eigs must refuse a count of zero and matrices
 without rows

---
 src/eigen/real.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index db66f1c..c8854a7 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -40,8 +40,9 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     }
     let n = a_mat.rows();
 
-    if nev >= n - 1 {
-        return Err(format_err!("invalid nev: {} (0 < nev < {})", nev, n - 1));
+    let nev_end = n.saturating_sub(1);
+    if nev == 0 || nev >= nev_end {
+        return Err(format_err!("invalid nev: {} (0 < nev < {})", nev, nev_end));
     }
     let bmat = BMAT_STANDARD;
     let ncv = usize::min(n, 2 * nev + 1);
-- 
2.43.0


From dd2ac13585e34fd3c423e466682d3b4e2249cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:10 +0000
Subject: [PATCH 19/26] fix: eigs must answer the initial product request of
 ARPACK

---
 src/eigen/real.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index c8854a7..2085958 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -19,6 +19,13 @@ const WHICH_LARGEST_MAGNITUDE: &str = "LM";
 // First call to the reverse communication interface
 const IDO_FIRST: i32 = 0;
 
+// Compute  Y = OP * X  where
+// IPNTR(1) is the pointer into WORKD for X,
+// IPNTR(2) is the pointer into WORKD for Y.
+// This is for the initialization phase to force the
+// starting vector into the range of OP.
+const IDO_COMPUTE0: i32 = -1;
+
 // Compute  Y = OP * X  where
 // IPNTR(1) is the pointer into WORKD for X,
 // IPNTR(2) is the pointer into WORKD for Y.
@@ -97,7 +104,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         drop(lock);
     }
 
-    while ido == IDO_COMPUTE1 {
+    while ido == IDO_COMPUTE0 || ido == IDO_COMPUTE1 {
         let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
         workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
 
-- 
2.43.0


From 3b600747ce93898d187e343dbde9b28bffe7d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 20/26] fix: eigs must write a product only to its own part of
 the work array

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 2085958..d717dda 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -106,7 +106,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     while ido == IDO_COMPUTE0 || ido == IDO_COMPUTE1 {
         let y = a_mat.mat_vec(&workd[ipntr[0] as usize - 1..ipntr[0] as usize - 1 + n])?;
-        workd[ipntr[1] as usize - 1..].copy_from_slice(&y);
+        workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
             let lock = MUTEX.lock().unwrap();
-- 
2.43.0


From 43f1d865a3dda70863a8d53d2f61e3f65157c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 21/26] fix: eigs must return the imaginary parts of the
 eigenvalues

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index d717dda..db320ac 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -187,7 +187,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     // for i in 0..d.len() {
     //     d[i] = Complex64::new(dr[i], di[i]);
     // }
-    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], dr[i])).collect();
+    let mut d: Vec<Complex64> = (0..nev + 1).map(|i| Complex64::new(dr[i], di[i])).collect();
 
     let mut zz = Mat::<Complex64>::zeros(nev + 1, n, true);
 
-- 
2.43.0


From 49eb34b06970d8733da2dfd66db01ee45703e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 22/26] fix: eigs must return every element of a real
 eigenvector

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index db320ac..fa89f57 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -198,7 +198,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             let j = i * n;
             let zr = &z[j..j + n];
             for j in 0..zz.cols() {
-                zz[(i, j)] = Complex64::new(zr[i], 0.0);
+                zz[(i, j)] = Complex64::new(zr[j], 0.0);
             }
         } else {
             // The complex Ritz vector associated with the Ritz value
-- 
2.43.0


From 1fefa5077cc281af83aa02e67f1c7b964081b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 23/26] fix: eigs must pass the leading dimension of the array
 of Ritz vectors

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index fa89f57..aa89806 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -142,7 +142,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut dr = vec![0.0; nev + 1];
     let mut di = vec![0.0; nev + 1];
     let mut z = vec![0.0; n * (nev + 1)];
-    let ldz = n + 1;
+    let ldz = n;
     let mut workev = vec![0.0; 2 * ncv];
 
     unsafe {
-- 
2.43.0


From c8cffbc3c60783c39bc4b253c10a689820ee25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 24/26] fix: eigs must give ARPACK a work array of full length

---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index aa89806..33653c9 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -143,7 +143,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut di = vec![0.0; nev + 1];
     let mut z = vec![0.0; n * (nev + 1)];
     let ldz = n;
-    let mut workev = vec![0.0; 2 * ncv];
+    let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
         let lock = MUTEX.lock().unwrap();
-- 
2.43.0


From 218d5880c408b89d3c714f3be5e7eecec367fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:53 +0000
Subject: [PATCH 25/26] fix: eigs must hold the lock for a whole iteration of
 ARPACK

---
 src/eigen/real.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 33653c9..6feeeea 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -4,7 +4,7 @@ use arpack_ng_sys::*;
 use full::Mat;
 use lazy_static::lazy_static;
 use num_complex::Complex64;
-use std::sync::Mutex;
+use std::sync::{Mutex, PoisonError};
 
 lazy_static! {
     static ref MUTEX: Mutex<()> = Mutex::new(());
@@ -81,8 +81,11 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
 
     let mut ipntr = vec![0i32; 14];
 
+    // ARPACK keeps the state of an iteration in static variables between
+    // calls. The first call resets it, so nothing is lost to a panic.
+    let _lock = MUTEX.lock().unwrap_or_else(PoisonError::into_inner);
+
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dnaupd_c(
             &mut ido,
             bmat.as_ptr() as *const i8,
@@ -101,7 +104,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
 
     while ido == IDO_COMPUTE0 || ido == IDO_COMPUTE1 {
@@ -109,7 +111,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
         workd[ipntr[1] as usize - 1..ipntr[1] as usize - 1 + n].copy_from_slice(&y);
 
         unsafe {
-            let lock = MUTEX.lock().unwrap();
             dnaupd_c(
                 &mut ido,
                 bmat.as_ptr() as *const i8,
@@ -128,7 +129,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
                 lworkl as i32,
                 &mut info,
             );
-            drop(lock);
         }
     }
     if info < 0 {
@@ -146,7 +146,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
     let mut workev = vec![0.0; 3 * ncv];
 
     unsafe {
-        let lock = MUTEX.lock().unwrap();
         dneupd_c(
             rvec as i32,
             howmny.as_ptr() as *const i8,
@@ -174,7 +173,6 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             lworkl as i32,
             &mut info,
         );
-        drop(lock);
     }
     if info != 0 {
         // return ArpackError(info);
-- 
2.43.0


From 92a5f0dcb138c84130cf3bf3dcf167d4b47e8602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 26/26] fix: eigs: discard a conjugate pair that is cut off by
 the number of converged values

A double eigenvalue that rounding splits into a pair at the boundary came back
with only the real part of its vector, which is no eigenvector.
---
 src/eigen/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigen/real.rs b/src/eigen/real.rs
index 6feeeea..8fda058 100644
--- a/src/eigen/real.rs
+++ b/src/eigen/real.rs
@@ -206,7 +206,7 @@ pub fn eigs(a_mat: &CSC<usize, f64>, nev: usize) -> Result<(Vec<Complex64>, Mat<
             // Ritz vector associated with the Ritz value with negative
             // imaginary part is simply the complex conjugate of the Ritz
             // vector associated with the positive imaginary part.
-            if i < nev {
+            if i + 1 < nconv {
                 let j = i * n;
                 let zr = &z[j..j + n];
                 let j = (i + 1) * n;
-- 
2.43.0

