From 9a543499639dcd36e837ef66afdb904c9df32f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:55 +0000
Subject: [PATCH 01/78] fix: reject out-of-range pointers when creating CSC and
 CSR matrices

An intermediate pointer larger than the number of non-zeros made the
constructor index past the end of the indices array and panic. Return an
error instead.
---
 russell_sparse/src/csc_matrix.rs | 3 +++
 russell_sparse/src/csr_matrix.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/russell_sparse/src/csc_matrix.rs b/russell_sparse/src/csc_matrix.rs
index 9f9bafa..825451b 100644
--- a/russell_sparse/src/csc_matrix.rs
+++ b/russell_sparse/src/csc_matrix.rs
@@ -232,6 +232,9 @@ where
             if col_pointers[j] > col_pointers[j + 1] {
                 return Err("col pointers must be sorted in ascending order");
             }
+            if col_pointers[j + 1] > nnz {
+                return Err("col pointers must be ≤ nnz = col_pointers[ncol]");
+            }
             let start = col_pointers[j] as usize;
             let end = col_pointers[j + 1] as usize;
             for p in start..end {
diff --git a/russell_sparse/src/csr_matrix.rs b/russell_sparse/src/csr_matrix.rs
index ac01ddd..543dc35 100644
--- a/russell_sparse/src/csr_matrix.rs
+++ b/russell_sparse/src/csr_matrix.rs
@@ -228,6 +228,9 @@ where
             if row_pointers[i] > row_pointers[i + 1] {
                 return Err("row pointers must be sorted in ascending order");
             }
+            if row_pointers[i + 1] > nnz {
+                return Err("row pointers must be ≤ nnz = row_pointers[nrow]");
+            }
             let start = row_pointers[i] as usize;
             let end = row_pointers[i + 1] as usize;
             for p in start..end {
-- 
2.43.0


From e87c236540eec298776841aa2f87e5441b7bf7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:55 +0000
Subject: [PATCH 02/78] fix: require a square matrix in CooMatrix::from with
 symmetric storage

CooMatrix::new already has this check. Without it, a rectangular symmetric
matrix could be created and its conversion to dense would panic.
---
 russell_sparse/src/coo_matrix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_sparse/src/coo_matrix.rs b/russell_sparse/src/coo_matrix.rs
index 9805be4..b67f08c 100644
--- a/russell_sparse/src/coo_matrix.rs
+++ b/russell_sparse/src/coo_matrix.rs
@@ -267,6 +267,9 @@ where
         if values.len() != nnz {
             return Err("values.len() must be = nnz");
         }
+        if symmetric != Sym::No && nrow != ncol {
+            return Err("symmetric storage requires a square matrix");
+        }
         let m = to_i32(nrow);
         let n = to_i32(ncol);
         for k in 0..nnz {
-- 
2.43.0


From 6b1f8a1a6d7a7ace803d4ea1b6be8db93ae4328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:54 +0000
Subject: [PATCH 03/78] fix: return errors instead of panicking on malformed
 MatrixMarket files

---
 russell_sparse/src/read_matrix_market.rs | 52 ++++++++++++------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/russell_sparse/src/read_matrix_market.rs b/russell_sparse/src/read_matrix_market.rs
index 5a0ce55..3787b06 100644
--- a/russell_sparse/src/read_matrix_market.rs
+++ b/russell_sparse/src/read_matrix_market.rs
@@ -170,13 +170,13 @@ impl MatrixMarketData {
             };
         }
 
-        self.i -= 1; // MatrixMarket is one-based, so make it zero-based here
-        self.j -= 1;
-
-        if self.i < 0 || self.i >= self.m || self.j < 0 || self.j >= self.n {
+        if self.i < 1 || self.i > self.m || self.j < 1 || self.j > self.n {
             return Err("found an invalid index");
         }
 
+        self.i -= 1; // MatrixMarket is one-based, so make it zero-based here
+        self.j -= 1;
+
         self.pos += 1; // next position
 
         Ok(true) // returns true == parsed
@@ -360,7 +360,7 @@ where
 
     // read first line
     let header = match lines_iter.next() {
-        Some(v) => v.unwrap(), // must panic because no error expected here
+        Some(v) => v.map_err(|_| "cannot read the first line")?,
         None => return Err("the file is empty"),
     };
 
@@ -369,7 +369,10 @@ where
 
     // read and parse dimensions
     loop {
-        let line = lines_iter.next().unwrap().unwrap(); // must panic because no error expected here
+        let line = match lines_iter.next() {
+            Some(v) => v.map_err(|_| "cannot read the line with dimensions")?,
+            None => return Err("cannot find the line with dimensions"),
+        };
         if data.parse_dimensions(&line)? {
             break;
         }
@@ -392,41 +395,36 @@ where
     };
 
     // set max number of entries
-    let mut max = data.nnz;
+    let mut max = data.nnz as usize;
     if data.symmetric && symmetric_handling == MMsym::MakeItFull {
-        max = 2 * data.nnz;
+        max = 2 * (data.nnz as usize);
     }
 
     // read and parse values
     if data.complex {
-        let mut coo = ComplexCooMatrix::new(data.m as usize, data.n as usize, max as usize, sym).unwrap();
+        let mut coo = ComplexCooMatrix::new(data.m as usize, data.n as usize, max, sym)?;
         loop {
             match lines_iter.next() {
                 Some(v) => {
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read the line with values")?;
                     if data.parse_values(&line)? {
                         if data.symmetric {
                             match symmetric_handling {
                                 MMsym::LeaveAsLower => {
-                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                                 }
                                 MMsym::SwapToUpper => {
-                                    coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))?;
                                 }
                                 MMsym::MakeItFull => {
-                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                                     if data.i != data.j {
-                                        coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))
-                                            .unwrap();
+                                        coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))?;
                                     }
                                 }
                             }
                         } else {
-                            coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                .unwrap();
+                            coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                         };
                     }
                 }
@@ -438,29 +436,29 @@ where
         }
         Ok((None, Some(coo)))
     } else {
-        let mut coo = CooMatrix::new(data.m as usize, data.n as usize, max as usize, sym).unwrap();
+        let mut coo = CooMatrix::new(data.m as usize, data.n as usize, max, sym)?;
         loop {
             match lines_iter.next() {
                 Some(v) => {
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read the line with values")?;
                     if data.parse_values(&line)? {
                         if data.symmetric {
                             match symmetric_handling {
                                 MMsym::LeaveAsLower => {
-                                    coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                                    coo.put(data.i as usize, data.j as usize, data.aij)?;
                                 }
                                 MMsym::SwapToUpper => {
-                                    coo.put(data.j as usize, data.i as usize, data.aij).unwrap();
+                                    coo.put(data.j as usize, data.i as usize, data.aij)?;
                                 }
                                 MMsym::MakeItFull => {
-                                    coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                                    coo.put(data.i as usize, data.j as usize, data.aij)?;
                                     if data.i != data.j {
-                                        coo.put(data.j as usize, data.i as usize, data.aij).unwrap();
+                                        coo.put(data.j as usize, data.i as usize, data.aij)?;
                                     }
                                 }
                             }
                         } else {
-                            coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                            coo.put(data.i as usize, data.j as usize, data.aij)?;
                         };
                     }
                 }
-- 
2.43.0


From 9a5fdc3b6e6821f9049c50940a040a24996db260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:54 +0000
Subject: [PATCH 04/78] fix: report singular matrices when the determinant is
 requested from UMFPACK

---
 russell_sparse/c_code/interface_complex_umfpack.c | 13 ++++++++-----
 russell_sparse/c_code/interface_umfpack.c         | 11 +++++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_umfpack.c b/russell_sparse/c_code/interface_complex_umfpack.c
index c14b231..19fc0fa 100644
--- a/russell_sparse/c_code/interface_complex_umfpack.c
+++ b/russell_sparse/c_code/interface_complex_umfpack.c
@@ -189,11 +189,14 @@ int32_t complex_solver_umfpack_factorize(struct InterfaceComplexUMFPACK *solver,
 
     // compute determinant
     if (compute_determinant == C_TRUE) {
-        code = umfpack_zi_get_determinant(determinant_coefficient_real,
-                                          determinant_coefficient_imag,
-                                          determinant_exponent,
-                                          solver->numeric,
-                                          solver->info);
+        int det_code = umfpack_zi_get_determinant(determinant_coefficient_real,
+                                              determinant_coefficient_imag,
+                                              determinant_exponent,
+                                              solver->numeric,
+                                              solver->info);
+        if (code == UMFPACK_OK) { // keep the factorization code (e.g., singular matrix)
+            code = det_code;
+        }
     } else {
         *determinant_coefficient_real = 0.0;
         *determinant_coefficient_imag = 0.0;
diff --git a/russell_sparse/c_code/interface_umfpack.c b/russell_sparse/c_code/interface_umfpack.c
index 2133ffb..5ef398d 100644
--- a/russell_sparse/c_code/interface_umfpack.c
+++ b/russell_sparse/c_code/interface_umfpack.c
@@ -185,10 +185,13 @@ int32_t solver_umfpack_factorize(struct InterfaceUMFPACK *solver,
 
     // compute determinant
     if (compute_determinant == C_TRUE) {
-        code = umfpack_di_get_determinant(determinant_coefficient,
-                                          determinant_exponent,
-                                          solver->numeric,
-                                          solver->info);
+        int det_code = umfpack_di_get_determinant(determinant_coefficient,
+                                              determinant_exponent,
+                                              solver->numeric,
+                                              solver->info);
+        if (code == UMFPACK_OK) { // keep the factorization code (e.g., singular matrix)
+            code = det_code;
+        }
     } else {
         *determinant_coefficient = 0.0;
         *determinant_exponent = 0.0;
-- 
2.43.0


From c09e02977e914b93c118f9e4839494486584bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:54 +0000
Subject: [PATCH 05/78] fix: apply tolerance to the imaginary part when writing
 complex MatrixMarket files

---
 russell_sparse/src/write_matrix_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_sparse/src/write_matrix_market.rs b/russell_sparse/src/write_matrix_market.rs
index b65e7f3..0f07239 100644
--- a/russell_sparse/src/write_matrix_market.rs
+++ b/russell_sparse/src/write_matrix_market.rs
@@ -258,7 +258,7 @@ impl ComplexCscMatrix {
                 for p in self.col_pointers[j]..self.col_pointers[j + 1] {
                     let i = self.row_indices[p as usize] as usize;
                     let aij = self.values[p as usize];
-                    if f64::abs(aij.re) > tol || f64::abs(aij.im) < tol {
+                    if f64::abs(aij.re) > tol || f64::abs(aij.im) > tol {
                         match self.symmetric {
                             Sym::No => write!(&mut buffer, "{} {} {:?} {:?}\n", i + 1, j + 1, aij.re, aij.im).unwrap(),
                             Sym::YesLower => {
-- 
2.43.0


From 618c94a6a4379dedce3c35e9e8e4c4d36c6ec6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:08 +0000
Subject: [PATCH 06/78] fix: return an error when reading text files with
 invalid UTF-8

---
 russell_lab/src/base/read_table.rs   | 2 +-
 russell_lab/src/matrix/num_matrix.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/base/read_table.rs b/russell_lab/src/base/read_table.rs
index e48de2b..e40a8b7 100644
--- a/russell_lab/src/base/read_table.rs
+++ b/russell_lab/src/base/read_table.rs
@@ -134,7 +134,7 @@ where
         match lines_iter.next() {
             Some(v) => {
                 // extract line
-                let line = v.unwrap(); // must panic because no error expected here
+                let line = v.map_err(|_| "cannot read line")?;
 
                 // ignore comments or empty lines
                 let maybe_data = line.trim_start().trim_end_matches("\n");
diff --git a/russell_lab/src/matrix/num_matrix.rs b/russell_lab/src/matrix/num_matrix.rs
index ebe04dc..585035c 100644
--- a/russell_lab/src/matrix/num_matrix.rs
+++ b/russell_lab/src/matrix/num_matrix.rs
@@ -560,7 +560,7 @@ where
             match lines_iter.next() {
                 Some(v) => {
                     // extract line
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line")?;
 
                     // ignore comments or empty lines
                     let maybe_data = line.trim_start().trim_end_matches("\n");
-- 
2.43.0


From 3e09e0ffd02fb9734b53a2c97c3b4d9887c476d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:38 +0000
Subject: [PATCH 07/78] fix: apply beta in matrix products with an empty inner
 dimension

The product terms vanish when the inner dimension is zero, but the result
must still be scaled by beta instead of being cleared.
---
 russell_lab/src/matrix/complex_mat_mat_mul.rs   | 6 +++++-
 russell_lab/src/matrix/complex_mat_t_mat_mul.rs | 6 +++++-
 russell_lab/src/matrix/mat_mat_mul.rs           | 6 +++++-
 russell_lab/src/matrix/mat_t_mat_mul.rs         | 6 +++++-
 russell_lab/src/matvec/mat_vec_mul_update.rs    | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_mat_mul.rs b/russell_lab/src/matrix/complex_mat_mat_mul.rs
index 60b019f..9127a64 100644
--- a/russell_lab/src/matrix/complex_mat_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_mat_mul.rs
@@ -80,7 +80,11 @@ pub fn complex_mat_mat_mul(
     }
     if k == 0 {
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            c.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
index 1ebb410..93bf5e8 100644
--- a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
@@ -80,7 +80,11 @@ pub fn complex_mat_t_mat_mul(
     }
     if k == 0 {
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            c.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_mat_mul.rs b/russell_lab/src/matrix/mat_mat_mul.rs
index dffc384..cc28ed5 100644
--- a/russell_lab/src/matrix/mat_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_mat_mul.rs
@@ -69,7 +69,11 @@ pub fn mat_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f64
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            c.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_t_mat_mul.rs b/russell_lab/src/matrix/mat_t_mat_mul.rs
index de19cf5..439f497 100644
--- a/russell_lab/src/matrix/mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_t_mat_mul.rs
@@ -67,7 +67,11 @@ pub fn mat_t_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            c.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matvec/mat_vec_mul_update.rs b/russell_lab/src/matvec/mat_vec_mul_update.rs
index e1a5a3b..d18a04d 100644
--- a/russell_lab/src/matvec/mat_vec_mul_update.rs
+++ b/russell_lab/src/matvec/mat_vec_mul_update.rs
@@ -70,7 +70,11 @@ pub fn mat_vec_mul_update(v: &mut Vector, alpha: f64, a: &Matrix, u: &Vector, be
         return Ok(());
     }
     if n == 0 {
-        v.fill(0.0);
+        if beta == 0.0 {
+            v.fill(0.0);
+        } else {
+            v.as_mut_data().iter_mut().for_each(|x| *x *= beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
-- 
2.43.0


From f561984f743601c9889619b61bbfd19b6d68d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:38 +0000
Subject: [PATCH 08/78] fix: pass valid leading dimensions to rank-k updates of
 empty matrices

BLAS requires leading dimensions of at least one. With an empty factor the
call was refused by BLAS and beta was silently not applied.
---
 russell_lab/src/matrix/complex_mat_herm_rank_op.rs | 4 ++--
 russell_lab/src/matrix/complex_mat_sym_rank_op.rs  | 4 ++--
 russell_lab/src/matrix/mat_sym_rank_op.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_herm_rank_op.rs b/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
index 11ab5a9..a083c25 100644
--- a/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
+++ b/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
@@ -120,7 +120,7 @@ pub fn complex_mat_herm_rank_op(
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
     let k_i32 = to_i32(k);
-    let ldc = n_i32;
+    let ldc = i32::max(1, n_i32);
     unsafe {
         cblas_zherk(
             CBLAS_COL_MAJOR,
@@ -130,7 +130,7 @@ pub fn complex_mat_herm_rank_op(
             k_i32,
             alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            i32::max(1, to_i32(lda)),
             beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
diff --git a/russell_lab/src/matrix/complex_mat_sym_rank_op.rs b/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
index 3b829cf..7bec997 100644
--- a/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
+++ b/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
@@ -122,7 +122,7 @@ pub fn complex_mat_sym_rank_op(
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
     let k_i32 = to_i32(k);
-    let ldc = n_i32;
+    let ldc = i32::max(1, n_i32);
     unsafe {
         cblas_zsyrk(
             CBLAS_COL_MAJOR,
@@ -132,7 +132,7 @@ pub fn complex_mat_sym_rank_op(
             k_i32,
             &alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            i32::max(1, to_i32(lda)),
             &beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
diff --git a/russell_lab/src/matrix/mat_sym_rank_op.rs b/russell_lab/src/matrix/mat_sym_rank_op.rs
index c064f23..688eb8a 100644
--- a/russell_lab/src/matrix/mat_sym_rank_op.rs
+++ b/russell_lab/src/matrix/mat_sym_rank_op.rs
@@ -118,7 +118,7 @@ pub fn mat_sym_rank_op(
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
     let k_i32 = to_i32(k);
-    let ldc = n_i32;
+    let ldc = i32::max(1, n_i32);
     unsafe {
         cblas_dsyrk(
             CBLAS_COL_MAJOR,
@@ -128,7 +128,7 @@ pub fn mat_sym_rank_op(
             k_i32,
             alpha,
             a.as_data().as_ptr(),
-            to_i32(lda),
+            i32::max(1, to_i32(lda)),
             beta,
             c.as_mut_data().as_mut_ptr(),
             ldc,
-- 
2.43.0


From 299391e1ea81bc5ea51730b76f687e9cfa11f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:11 +0000
Subject: [PATCH 09/78] fix: keep entries outside the active block in
 small_mat_inv

Row interchanges swapped whole rows of the output array, although only the
top-left (n,n) block is documented to be overwritten.
---
 russell_lab/src/small/small_mat_inv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/small/small_mat_inv.rs b/russell_lab/src/small/small_mat_inv.rs
index b53742a..db8f516 100644
--- a/russell_lab/src/small/small_mat_inv.rs
+++ b/russell_lab/src/small/small_mat_inv.rs
@@ -155,7 +155,11 @@ where
         // Swap rows if necessary (in both sides)
         if max_index != k {
             a_work.swap(k, max_index);
-            ai.swap(k, max_index);
+            for j in 0..n {
+                let tmp = ai[k][j];
+                ai[k][j] = ai[max_index][j];
+                ai[max_index][j] = tmp;
+            }
             det_accumulator = -det_accumulator; // Rule 1: A row swap flips the sign of the determinant
         }
 
-- 
2.43.0


From 8ed252530bbdd52ef4bddfc394862814c31d4bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:47 +0000
Subject: [PATCH 10/78] fix: let the Jacobi eigen-solver converge with repeated
 eigenvalues

With repeated eigenvalues, every sweep rotated off-diagonal rounding noise by
45 degrees and the sum of off-diagonal elements never fell below the
tolerance. Skip negligible elements after four sweeps and compute the actual
rotation angle unless the diagonal values are equal.
---
 russell_lab/src/matrix/mat_eigen_sym_jacobi.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
index fcc526f..97e00fd 100644
--- a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
+++ b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
@@ -139,8 +139,14 @@ pub fn mat_eigen_sym_jacobi(l: &mut Vector, v: &mut Matrix, a: &mut Matrix) -> R
         // rotations
         for p in 0..(n - 1) {
             for q in (p + 1)..n {
+                // after four sweeps, skip the rotation if the off-diagonal element is negligible
+                g = f64::abs(a.get(p, q));
+                if iteration > 3 && f64::abs(l[p]) + g == f64::abs(l[p]) && f64::abs(l[q]) + g == f64::abs(l[q]) {
+                    a.set(p, q, 0.0);
+                    continue;
+                }
                 h = l[q] - l[p];
-                if f64::abs(h) <= TOLERANCE {
+                if h == 0.0 {
                     t = 1.0;
                 } else {
                     theta = 0.5 * h / (a.get(p, q));
-- 
2.43.0


From 95c5733f0271a7e868c2dc2cc77b1320ef1df6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:47 +0000
Subject: [PATCH 11/78] fix: compute the left eigenvectors in
 complex_mat_gen_eigen_lr

---
 russell_lab/src/matrix/complex_mat_gen_eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/matrix/complex_mat_gen_eigen.rs b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
index 2572f99..52d89a6 100644
--- a/russell_lab/src/matrix/complex_mat_gen_eigen.rs
+++ b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
@@ -284,7 +284,7 @@ pub fn complex_mat_gen_eigen_lr(
     let mut info = 0;
     unsafe {
         c_zggev(
-            C_FALSE,
+            C_TRUE,
             C_TRUE,
             &m_i32,
             a.as_mut_data().as_mut_ptr(),
-- 
2.43.0


From 4fe7bc8e286ccae9566567ea4b277b5619717ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:01 +0000
Subject: [PATCH 12/78] fix: return an error when the integration bounds are
 too close

The remaining number of significant bits was computed with unsigned integers
and underflowed, so the documented error was never reached.
---
 russell_lab/src/algo/quadrature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/quadrature.rs b/russell_lab/src/algo/quadrature.rs
index 2625cab..f7f2575 100644
--- a/russell_lab/src/algo/quadrature.rs
+++ b/russell_lab/src/algo/quadrature.rs
@@ -248,7 +248,7 @@ impl Quadrature {
                     //
                     n_ib = 0.5 - f64::ln(c) / LN2;
                     let nib = n_ib as usize;
-                    lmx = usize::min(n_lmx, n_bit - nib - 7);
+                    lmx = usize::min(n_lmx, n_bit.saturating_sub(nib + 7));
                     if lmx < 1 {
                         return Err("the lower and upper bounds must not be so close one from another");
                     }
-- 
2.43.0


From 774acd5d3e4d9d33c6ab5a613d29000f0fb91439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:06 +0000
Subject: [PATCH 13/78] fix: make the tolerances of solve_cubic independent of
 the root scale

The discriminant was compared with an absolute tolerance. Well-separated but
small roots, e.g., 0.01, 0.02 and 0.03, were thus reported as a triple root.
Use the rounding error of the discriminant instead.
---
 russell_lab/src/algo/cubic.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/russell_lab/src/algo/cubic.rs b/russell_lab/src/algo/cubic.rs
index d3381a5..b8373f3 100644
--- a/russell_lab/src/algo/cubic.rs
+++ b/russell_lab/src/algo/cubic.rs
@@ -46,17 +46,22 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
     let third_a = aa / 3.0;
     let delta = half_b * half_b + third_a.powf(3.0);
 
+    // rounding errors in half_b and third_a, and the resulting tolerance for delta
+    let tol_b = 8.0 * f64::EPSILON * (r.abs() + (p * q).abs() / 3.0 + 2.0 * (p * p_sq).abs() / 27.0);
+    let tol_a = 8.0 * f64::EPSILON * (q.abs() + p_sq / 3.0);
+    let tol_delta = tol_b * (2.0 * half_b.abs() + tol_b) + tol_a * 3.0 * (third_a.abs() + tol_a).powi(2);
+
     let mut ys = Vec::with_capacity(3);
 
     match delta {
-        d if d > EPS => {
+        d if d > tol_delta => {
             let sqrt_delta = delta.sqrt();
             let u = (-half_b + sqrt_delta).cbrt();
             let v = (-half_b - sqrt_delta).cbrt();
             ys.push(u + v);
         }
 
-        d if d < -EPS => {
+        d if d < -tol_delta => {
             let sqrt_neg_third_a = (-third_a).sqrt();
             let radicand = -half_b / sqrt_neg_third_a.powf(3.0);
             let radicand_clamped = radicand.clamp(-1.0, 1.0);
@@ -70,7 +75,7 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
         }
 
         _ => {
-            if half_b.abs() < EPS {
+            if half_b.abs() <= tol_b {
                 ys.extend_from_slice(&[0.0, 0.0, 0.0]);
             } else {
                 let u = (-half_b).cbrt();
-- 
2.43.0


From 62221e7926d0a05b8e6e9af293218a6214cc7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:30 +0000
Subject: [PATCH 14/78] fix: avoid cancellation in the single root of
 solve_cubic

---
 russell_lab/src/algo/cubic.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/russell_lab/src/algo/cubic.rs b/russell_lab/src/algo/cubic.rs
index b8373f3..f08bf85 100644
--- a/russell_lab/src/algo/cubic.rs
+++ b/russell_lab/src/algo/cubic.rs
@@ -56,9 +56,13 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
     match delta {
         d if d > tol_delta => {
             let sqrt_delta = delta.sqrt();
-            let u = (-half_b + sqrt_delta).cbrt();
-            let v = (-half_b - sqrt_delta).cbrt();
-            ys.push(u + v);
+            // no cancellation in u; then v follows from u·v = -A/3
+            let u = if half_b > 0.0 {
+                (-half_b - sqrt_delta).cbrt()
+            } else {
+                (-half_b + sqrt_delta).cbrt()
+            };
+            ys.push(u - third_a / u);
         }
 
         d if d < -tol_delta => {
-- 
2.43.0


From 8f94c7dead1f4f04d275d00c43436081897cbdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:30 +0000
Subject: [PATCH 15/78] fix: accept sign-changing brackets of functions with
 small values

Brent's root finder compared the product of the function values with a
negative absolute tolerance and refused valid brackets.
---
 russell_lab/src/algo/root_finder_brent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/root_finder_brent.rs b/russell_lab/src/algo/root_finder_brent.rs
index 03d4bc6..16e3a31 100644
--- a/russell_lab/src/algo/root_finder_brent.rs
+++ b/russell_lab/src/algo/root_finder_brent.rs
@@ -85,7 +85,7 @@ impl RootFinder {
         self.stats.inc_n_function(2);
 
         // check
-        if fa * fb >= -f64::EPSILON {
+        if fa * fb >= 0.0 {
             return Err("xa and xb must bracket the root and f(xa) × f(xb) < 0");
         }
 
-- 
2.43.0


From a30e8678af38c4ccbf01bbb57d37aef669419dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:30 +0000
Subject: [PATCH 16/78] fix: move the root of linear interpolants back to the
 interval bounds

---
 russell_lab/src/algo/root_finder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/root_finder.rs b/russell_lab/src/algo/root_finder.rs
index 4d28a77..8c9f819 100644
--- a/russell_lab/src/algo/root_finder.rs
+++ b/russell_lab/src/algo/root_finder.rs
@@ -173,7 +173,7 @@ impl RootFinder {
             let z = -a[0] / a[1];
             if f64::abs(z) <= 1.0 + self.tol_abs_boundary {
                 let root = (xb + xa + dx * z) / 2.0;
-                return Ok(vec![root]);
+                return Ok(vec![f64::max(xa, f64::min(xb, root))]);
             } else {
                 return Ok(Vec::new());
             }
-- 
2.43.0


From 5e6da95611fe069b64ff639a1390751610cf8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:56 +0000
Subject: [PATCH 17/78] fix: make the max norms of vectors return NaN for
 vectors with NaN

The max norm skipped NaN entries, thus Newton's method could report
convergence with NaN residuals.
---
 russell_lab/src/vector/complex_vec_norm.rs | 3 +++
 russell_lab/src/vector/vec_norm.rs         | 4 ++++
 russell_lab/src/vector/vec_norm_chunk.rs   | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/russell_lab/src/vector/complex_vec_norm.rs b/russell_lab/src/vector/complex_vec_norm.rs
index be4e7ee..fa450b3 100644
--- a/russell_lab/src/vector/complex_vec_norm.rs
+++ b/russell_lab/src/vector/complex_vec_norm.rs
@@ -57,6 +57,9 @@ pub fn complex_vec_norm(v: &ComplexVector, kind: Norm) -> f64 {
                 let mut max = 0.0;
                 for i in 0..v.dim() {
                     let abs = v[i].norm();
+                    if abs.is_nan() {
+                        return f64::NAN;
+                    }
                     if abs > max {
                         max = abs;
                     }
diff --git a/russell_lab/src/vector/vec_norm.rs b/russell_lab/src/vector/vec_norm.rs
index e94d3ee..154c905 100644
--- a/russell_lab/src/vector/vec_norm.rs
+++ b/russell_lab/src/vector/vec_norm.rs
@@ -42,6 +42,10 @@ pub fn vec_norm(v: &Vector, kind: Norm) -> f64 {
         match kind {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, v.as_data().as_ptr(), 1),
             Norm::Inf | Norm::Max => {
+                // idamax may skip NaN entries
+                if v.as_data().iter().any(|x| x.is_nan()) {
+                    return f64::NAN;
+                }
                 let idx = cblas_idamax(n, v.as_data().as_ptr(), 1);
                 f64::abs(v.get(idx as usize))
             }
diff --git a/russell_lab/src/vector/vec_norm_chunk.rs b/russell_lab/src/vector/vec_norm_chunk.rs
index 5954027..c3a5a5a 100644
--- a/russell_lab/src/vector/vec_norm_chunk.rs
+++ b/russell_lab/src/vector/vec_norm_chunk.rs
@@ -54,6 +54,10 @@ pub fn vec_norm_chunk(v: &Vector, kind: Norm, start: usize, stop: usize) -> f64
         match kind {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, slice.as_ptr(), 1),
             Norm::Inf | Norm::Max => {
+                // idamax may skip NaN entries
+                if slice.iter().any(|x| x.is_nan()) {
+                    return f64::NAN;
+                }
                 let idx = cblas_idamax(n, slice.as_ptr(), 1);
                 f64::abs(slice[idx as usize])
             }
-- 
2.43.0


From fd8e514cd965283b18428f015c15d6ff0ce2edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:18 +0000
Subject: [PATCH 18/78] fix: handle errors of the function in the Chebyshev
 interpolant

Adaptive interpolation panicked when the function failed in the last
evaluation. Also, an interpolant was left ready with mixed data after a
failure.
---
 russell_lab/src/algo/interp_chebyshev.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index b990e43..7baf377 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -167,6 +167,7 @@ impl InterpChebyshev {
         if nn > self.nn_max {
             return Err("nn must be ≤ nn_max");
         }
+        self.ready = false; // in case f(x) fails
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = f((self.xa + self.xb) / 2.0, args)?;
@@ -388,6 +389,7 @@ impl InterpChebyshev {
     where
         F: FnMut(f64, &mut A) -> Result<f64, StrError>,
     {
+        self.ready = false; // in case f(x) or the adaptive interpolation fails
         let mut an_prev = 0.0;
         for nn in 1..=self.nn_max {
             chebyshev_data_vector(&mut self.uu_rev, nn, self.xa, self.xb, args, &mut f)?;
@@ -395,8 +397,7 @@ impl InterpChebyshev {
             let an = self.a[nn];
             if nn > 1 && f64::abs(an_prev) < tol && f64::abs(an) < tol {
                 let actual_nn = nn - 2; // -2 because the last two coefficients are zero
-                self.set_function(actual_nn, args, f).unwrap();
-                return Ok(());
+                return self.set_function(actual_nn, args, f);
             }
             an_prev = an;
         }
-- 
2.43.0


From 7b883591d0db96d427a43fa3feff0da221f0efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:18 +0000
Subject: [PATCH 19/78] fix: set the data and coefficient of constant Chebyshev
 interpolants

---
 russell_lab/src/algo/interp_chebyshev.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index 7baf377..06b5b46 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -171,6 +171,8 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = f((self.xa + self.xb) / 2.0, args)?;
+            self.uu_rev[0] = self.constant_fx;
+            self.a[0] = self.constant_fx;
         } else {
             chebyshev_data_vector(&mut self.uu_rev, self.nn, self.xa, self.xb, args, &mut f)?;
             chebyshev_coefficients(&mut self.a, &self.uu_rev, self.nn);
@@ -237,6 +239,8 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = uu[0];
+            self.uu_rev[0] = self.constant_fx;
+            self.a[0] = self.constant_fx;
         } else {
             for i in 0..np {
                 self.uu_rev[nn - i] = uu[i];
@@ -283,6 +287,8 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = yy_gen[0];
+            self.uu_rev[0] = self.constant_fx;
+            self.a[0] = self.constant_fx;
         } else {
             let zz = InterpChebyshev::points(self.nn);
             for i_cheby in 0..zz.dim() {
-- 
2.43.0


From 41956e792c6e66ad5a463454653f56181fbf3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:18 +0000
Subject: [PATCH 20/78] fix: compute the derivatives at the ends of
 Chebyshev-Gauss grids

The ends of the interval are not nodes of the Chebyshev-Gauss grid.
---
 russell_lab/src/algo/interp_lagrange.rs | 40 ++++++++-----------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/russell_lab/src/algo/interp_lagrange.rs b/russell_lab/src/algo/interp_lagrange.rs
index efc5df3..04d5ef2 100644
--- a/russell_lab/src/algo/interp_lagrange.rs
+++ b/russell_lab/src/algo/interp_lagrange.rs
@@ -612,20 +612,12 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
-            at_node = true;
-            at_node_index = 0;
-        } else if x == 1.0 {
-            at_node = true;
-            at_node_index = self.nn;
-        } else {
-            for j in 0..self.npoint {
-                let dx = x - self.xx[j];
-                if f64::abs(dx) < DX_EPSILON {
-                    at_node = true;
-                    at_node_index = j;
-                    break;
-                }
+        for j in 0..self.npoint {
+            let dx = x - self.xx[j];
+            if f64::abs(dx) < DX_EPSILON {
+                at_node = true;
+                at_node_index = j;
+                break;
             }
         }
         if at_node {
@@ -731,20 +723,12 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
-            at_node = true;
-            at_node_index = 0;
-        } else if x == 1.0 {
-            at_node = true;
-            at_node_index = self.nn;
-        } else {
-            for j in 0..self.npoint {
-                let dx = x - self.xx[j];
-                if f64::abs(dx) < DX_EPSILON {
-                    at_node = true;
-                    at_node_index = j;
-                    break;
-                }
+        for j in 0..self.npoint {
+            let dx = x - self.xx[j];
+            if f64::abs(dx) < DX_EPSILON {
+                at_node = true;
+                at_node_index = j;
+                break;
             }
         }
         if at_node {
-- 
2.43.0


From 148ada51e274343bf32a5a5bda86e4b1d12ec082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:18 +0000
Subject: [PATCH 21/78] fix: reset the arrays with curve derivatives when
 setting new control points

---
 russell_lab/src/algo/bspline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index f89d833..03f0bd4 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -214,6 +214,9 @@ impl Bspline {
         if ndim == 0 {
             return Err("the number of dimensions must be ≥ 1");
         }
+        // the work arrays depend on the number of dimensions
+        self.cc_ders.clear();
+        self.pp_ders.clear();
         self.pp = Vec::with_capacity(nb);
         for i in 0..nb {
             let mut point = Vec::with_capacity(ndim);
-- 
2.43.0


From fb83f16c0cd84d7f8884c77fe38544457c24327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:18 +0000
Subject: [PATCH 22/78] fix: reject knot vectors that are not non-decreasing

The search for the knot span may never end with unsorted knots.
---
 russell_lab/src/algo/bspline.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index 03f0bd4..9510c6b 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -157,6 +157,11 @@ impl Bspline {
             return Err("the number of knots must be ≥ 2 (p + 1)");
         }
 
+        for i in 1..uu.len() {
+            if !(uu[i] >= uu[i - 1]) {
+                return Err("the knots must be a non-decreasing sequence");
+            }
+        }
         // find min and max knot values
         let mut u_min = f64::INFINITY;
         let mut u_max = f64::NEG_INFINITY;
-- 
2.43.0


From 0b6ec243cc07b622b91429e91036b62a9515e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:18 +0000
Subject: [PATCH 23/78] fix: evaluate the recursive B-spline basis at the last
 knot of any scale

---
 russell_lab/src/algo/bspline.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index 9510c6b..d12eecc 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -418,14 +418,16 @@ impl Bspline {
     fn recursive_nn(&self, u: f64, i: usize, p: usize) -> f64 {
         // remove noise, e.g., 1.000000000000002
         let u = if f64::abs(u - self.u_max) < 1e-14 {
-            self.u_max - 1e-14
+            self.u_max
         } else {
             u
         };
 
         // exit point
         if p == 0 {
-            if u >= self.uu[i] && u < self.uu[i + 1] {
+            // the last non-empty span includes the last knot
+            let at_end = u == self.u_max && self.uu[i] < self.u_max && self.uu[i + 1] == self.u_max;
+            if at_end || (u >= self.uu[i] && u < self.uu[i + 1]) {
                 return 1.0;
             } else {
                 return 0.0;
-- 
2.43.0


From 322dbc43fbc5bbe0a5d476180da2ab3f24f5557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:12 +0000
Subject: [PATCH 24/78] fix: keep the Chebyshev points of general data inside
 the range

---
 russell_lab/src/algo/interp_chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index 06b5b46..74fe423 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -293,7 +293,7 @@ impl InterpChebyshev {
             let zz = InterpChebyshev::points(self.nn);
             for i_cheby in 0..zz.dim() {
                 let z = zz[i_cheby];
-                let x = (self.xb + self.xa + self.dx * z) / 2.0;
+                let x = f64::min(self.xb, (self.xb + self.xa + self.dx * z) / 2.0); // min because of rounding errors
                 // perform linear interpolation
                 let mut found = false;
                 for i_gen in 0..np {
-- 
2.43.0


From a746da216b224c9a41712e6c11499ca559447234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:30 +0000
Subject: [PATCH 25/78] fix: skip empty spans at the ends of unclamped knot
 vectors

---
 russell_lab/src/algo/bspline.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index d12eecc..96b26ec 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -460,14 +460,22 @@ impl Bspline {
         let m = self.uu.len() - 1; // number of knots - 1
         let n = m - self.p - 1; // number of basis functions - 1
 
-        // special case: if u is at or beyond the last knot
+        // special case: if u is at or beyond the last knot (skipping empty spans)
         if u >= self.uu[n + 1] {
-            return n;
+            let mut span = n;
+            while span > self.p && self.uu[span] == self.uu[span + 1] {
+                span -= 1;
+            }
+            return span;
         }
 
-        // special case: if u is at or before the first knot
+        // special case: if u is at or before the first knot (skipping empty spans)
         if u <= self.uu[self.p] {
-            return self.p;
+            let mut span = self.p;
+            while span < n && self.uu[span] == self.uu[span + 1] {
+                span += 1;
+            }
+            return span;
         }
 
         // binary search for the correct span
-- 
2.43.0


From f50ef30255a5b8b047d1785b4416e10bacda3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:46 +0000
Subject: [PATCH 26/78] fix: compute the logarithm of small or negative beta
 functions

---
 russell_lab/src/math/beta.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/math/beta.rs b/russell_lab/src/math/beta.rs
index 3606b30..d9d619d 100644
--- a/russell_lab/src/math/beta.rs
+++ b/russell_lab/src/math/beta.rs
@@ -236,8 +236,8 @@ pub fn ln_beta(a: f64, b: f64) -> f64 {
 
     // avoid loss of precision in ln_gamma(a + b) - ln_gamma(a)
     if f64::abs(aa) > ASYMPTOTIC_FACTOR * f64::abs(bb) && aa > ASYMPTOTIC_FACTOR {
-        let (ll, sign) = ln_beta_asymptotic(aa, bb);
-        return (sign as f64) * ll;
+        let (ll, _) = ln_beta_asymptotic(aa, bb);
+        return ll; // real part of ln(B(a, b)); thus, the sign is not needed
     }
 
     // use the ln_gamma identity
@@ -274,8 +274,9 @@ pub fn ln_beta(a: f64, b: f64) -> f64 {
         ans *= gb;
     };
 
-    // handle near zero results
-    if f64::abs(ans) < 10.0 * f64::EPSILON {
+    // handle near zero results due to cc being close to a non-positive integer
+    let near_pole = cc < 0.5 && f64::abs(cc - f64::round(cc)) < 10.0 * f64::EPSILON * f64::max(1.0, f64::abs(cc));
+    if near_pole && f64::abs(ans) < 10.0 * f64::EPSILON {
         // noting that f64::exp(f64::NEG_INFINITY))
         return f64::NEG_INFINITY;
     }
-- 
2.43.0


From 3c737110af4398f94b19f69f5d9fbd42aae7edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:20 +0000
Subject: [PATCH 27/78] fix: keep the precision of erfc_inv for small arguments

---
 russell_lab/src/math/erf_inv.rs | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/russell_lab/src/math/erf_inv.rs b/russell_lab/src/math/erf_inv.rs
index ac24b2c..f8f25aa 100644
--- a/russell_lab/src/math/erf_inv.rs
+++ b/russell_lab/src/math/erf_inv.rs
@@ -119,21 +119,7 @@ pub fn erf_inv(x: f64) -> f64 {
         let z2 = ((((((B7 * r + B6) * r + B5) * r + B4) * r + B3) * r + B2) * r + B1) * r + B0;
         (xx * z1) / z2
     } else {
-        let mut r = f64::sqrt(LN2 - f64::ln(1.0 - xx));
-        let (z1, z2) = if r <= 5.0 {
-            r -= 1.6;
-            (
-                ((((((C7 * r + C6) * r + C5) * r + C4) * r + C3) * r + C2) * r + C1) * r + C0,
-                ((((((D7 * r + D6) * r + D5) * r + D4) * r + D3) * r + D2) * r + D1) * r + D0,
-            )
-        } else {
-            r -= 5.0;
-            (
-                ((((((E7 * r + E6) * r + E5) * r + E4) * r + E3) * r + E2) * r + E1) * r + E0,
-                ((((((F7 * r + F6) * r + F5) * r + F4) * r + F3) * r + F2) * r + F1) * r + F0,
-            )
-        };
-        z1 / z2
+        erf_inv_tail(1.0 - xx)
     };
 
     if negative {
@@ -168,9 +154,32 @@ pub fn erf_inv(x: f64) -> f64 {
 /// approx_eq(math::erfc_inv(1.0), 0.0, 1e-15);
 /// ```
 pub fn erfc_inv(x: f64) -> f64 {
+    // handle small x because 1 - x would lose precision
+    if x > 0.0 && x < 0.15 {
+        return erf_inv_tail(x);
+    }
     erf_inv(1.0 - x)
 }
 
+/// Evaluates the inverse error function of 1 - q with 0 < q < 0.15
+fn erf_inv_tail(q: f64) -> f64 {
+    let mut r = f64::sqrt(LN2 - f64::ln(q));
+    let (z1, z2) = if r <= 5.0 {
+        r -= 1.6;
+        (
+            ((((((C7 * r + C6) * r + C5) * r + C4) * r + C3) * r + C2) * r + C1) * r + C0,
+            ((((((D7 * r + D6) * r + D5) * r + D4) * r + D3) * r + D2) * r + D1) * r + D0,
+        )
+    } else {
+        r -= 5.0;
+        (
+            ((((((E7 * r + E6) * r + E5) * r + E4) * r + E3) * r + E2) * r + E1) * r + E0,
+            ((((((F7 * r + F6) * r + F5) * r + F4) * r + F3) * r + F2) * r + F1) * r + F0,
+        )
+    };
+    z1 / z2
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #[cfg(test)]
-- 
2.43.0


From 1c3514b9de468bb4678d13aa3e9ab3d2e7c3ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:11 +0000
Subject: [PATCH 28/78] fix: keep the sign of J1 for tiny negative arguments

---
 russell_lab/src/math/bessel_1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/bessel_1.rs b/russell_lab/src/math/bessel_1.rs
index 2349983..a76dbda 100644
--- a/russell_lab/src/math/bessel_1.rs
+++ b/russell_lab/src/math/bessel_1.rs
@@ -126,7 +126,7 @@ pub fn bessel_j1(x: f64) -> f64 {
     }
 
     if xx < TWO_M27 {
-        return 0.5 * xx;
+        return 0.5 * x;
     }
 
     let mut z = xx * xx;
-- 
2.43.0


From e62840c2177e4637b86fd19bd951799bb103464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:37 +0000
Subject: [PATCH 29/78] fix: allow more iterations in the Carlson elliptic
 integrals

---
 russell_lab/src/math/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/elliptic.rs b/russell_lab/src/math/elliptic.rs
index e2a96f0..eed25fc 100644
--- a/russell_lab/src/math/elliptic.rs
+++ b/russell_lab/src/math/elliptic.rs
@@ -499,7 +499,7 @@ fn rc(x: f64, y: f64) -> Result<f64, StrError> {
 
 // constants --------------------------------------
 
-const N_MAX_ITERATIONS: usize = 11;
+const N_MAX_ITERATIONS: usize = 50;
 
 const RF_ERR_TOL: f64 = 0.0025; // a value of 0.0025 for the error tolerance parameter gives full double precision (16 sig ant digits)
 const RF_C1: f64 = 1.0 / 24.0;
-- 
2.43.0


From da86090409460bf56db992a6e5cdbf23eb34d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:25 +0000
Subject: [PATCH 30/78] fix: format vectors with non-finite numbers in
 scientific notation

---
 russell_lab/src/vector/vec_fmt_scientific.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/vector/vec_fmt_scientific.rs b/russell_lab/src/vector/vec_fmt_scientific.rs
index a714420..9011246 100644
--- a/russell_lab/src/vector/vec_fmt_scientific.rs
+++ b/russell_lab/src/vector/vec_fmt_scientific.rs
@@ -16,7 +16,9 @@ pub fn vec_fmt_scientific(u: &Vector, precision: usize) -> String {
     let mut buf = String::new();
     for i in 0..u.dim() {
         write!(&mut buf, "{:.1$e}", u[i], precision).unwrap();
-        let _ = buf.split_off(buf.find('e').unwrap());
+        if let Some(pos) = buf.find('e') {
+            buf.truncate(pos); // non-finite numbers have no exponent
+        }
         width = cmp::max(buf.chars().count(), width);
         buf.clear();
     }
-- 
2.43.0


From d675a763e421cd7143d62fe0c87ff87b08f1415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:18 +0000
Subject: [PATCH 31/78] fix: return a zero Frechet density where the power
 overflows

---
 russell_stat/src/distribution_frechet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_stat/src/distribution_frechet.rs b/russell_stat/src/distribution_frechet.rs
index e61a2df..8300f65 100644
--- a/russell_stat/src/distribution_frechet.rs
+++ b/russell_stat/src/distribution_frechet.rs
@@ -59,7 +59,11 @@ impl ProbabilityDistribution for DistributionFrechet {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
-        f64::exp(-f64::powf(z, -self.shape)) * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
+        let p = f64::exp(-f64::powf(z, -self.shape));
+        if p == 0.0 {
+            return 0.0; // the power below may overflow
+        }
+        p * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
-- 
2.43.0


From 3f9c1d6ef9b1b21b16758cfd9bcc2461f0f6f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:18 +0000
Subject: [PATCH 32/78] fix: return a zero Gumbel density where the exponential
 overflows

---
 russell_stat/src/distribution_gumbel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_stat/src/distribution_gumbel.rs b/russell_stat/src/distribution_gumbel.rs
index 4eb7103..aa4305d 100644
--- a/russell_stat/src/distribution_gumbel.rs
+++ b/russell_stat/src/distribution_gumbel.rs
@@ -70,7 +70,7 @@ impl ProbabilityDistribution for DistributionGumbel {
     /// ```
     fn pdf(&self, x: f64) -> f64 {
         let mz = (self.location - x) / self.scale;
-        f64::exp(mz) * f64::exp(-f64::exp(mz)) / self.scale
+        f64::exp(mz - f64::exp(mz)) / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
-- 
2.43.0


From 595fe68bfe487ff7f9f497fd53861c00b5c1bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:18 +0000
Subject: [PATCH 33/78] fix: evaluate distributions with tiny scales

---
 russell_stat/src/distribution_frechet.rs   | 6 ++----
 russell_stat/src/distribution_lognormal.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/russell_stat/src/distribution_frechet.rs b/russell_stat/src/distribution_frechet.rs
index 8300f65..97ad615 100644
--- a/russell_stat/src/distribution_frechet.rs
+++ b/russell_stat/src/distribution_frechet.rs
@@ -3,8 +3,6 @@ use rand::Rng;
 use rand_distr::{Distribution, Frechet};
 use russell_lab::math::gamma;
 
-const FRECHET_MIN_DELTA_X: f64 = 1e-15;
-
 /// Implements the Frechet distribution
 ///
 /// This is a Type II Extreme Value Distribution (largest value)
@@ -55,7 +53,7 @@ impl ProbabilityDistribution for DistributionFrechet {
     /// }
     /// ```
     fn pdf(&self, x: f64) -> f64 {
-        if x - self.location < FRECHET_MIN_DELTA_X {
+        if x <= self.location {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
@@ -86,7 +84,7 @@ impl ProbabilityDistribution for DistributionFrechet {
     /// }
     /// ```
     fn cdf(&self, x: f64) -> f64 {
-        if x - self.location < FRECHET_MIN_DELTA_X {
+        if x <= self.location {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index 17e19ea..b39b86a 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -3,8 +3,6 @@ use rand::Rng;
 use rand_distr::{Distribution, LogNormal};
 use russell_lab::math::{SQRT_2, SQRT_PI, erf};
 
-const LOGNORMAL_MIN_X: f64 = 1e-15;
-
 /// Implements the Lognormal distribution
 ///
 /// See: <https://en.wikipedia.org/wiki/Log-normal_distribution>
@@ -76,7 +74,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// }
     /// ```
     fn pdf(&self, x: f64) -> f64 {
-        if x < LOGNORMAL_MIN_X {
+        if x <= 0.0 {
             return 0.0;
         }
         self.a * f64::exp(self.b * f64::powf(f64::ln(x) - self.mu_logx, 2.0)) / x
@@ -98,7 +96,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// }
     /// ```
     fn cdf(&self, x: f64) -> f64 {
-        if x < LOGNORMAL_MIN_X {
+        if x <= 0.0 {
             return 0.0;
         }
         (1.0 + erf((f64::ln(x) - self.mu_logx) / (self.sig_logx * SQRT_2))) / 2.0
-- 
2.43.0


From b27e71a23d06a2acd79a4a341d4ce90b0296b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:18 +0000
Subject: [PATCH 34/78] fix: keep the precision of narrow lognormal
 distributions

---
 russell_stat/src/distribution_lognormal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index b39b86a..8663c2b 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -44,7 +44,7 @@ impl DistributionLognormal {
     /// This function will hence calculate `mu_logx` (mean of log(x)) and `sig_logx` (std-dev of log(x))
     pub fn new_from_mu_sig(mu: f64, sig: f64) -> Result<Self, StrError> {
         let d = sig / mu;
-        let v = f64::ln(1.0 + d * d);
+        let v = f64::ln_1p(d * d);
         let sig_logx = f64::sqrt(v);
         let mu_logx = f64::ln(mu) - v / 2.0;
         Ok(DistributionLognormal {
@@ -138,7 +138,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// ```
     fn variance(&self) -> f64 {
         let ss = self.sig_logx * self.sig_logx;
-        (f64::exp(ss) - 1.0) * f64::exp(2.0 * self.mu_logx + ss)
+        f64::exp_m1(ss) * f64::exp(2.0 * self.mu_logx + ss)
     }
 
     /// Generates a pseudo-random number belonging to this probability distribution
@@ -341,7 +341,7 @@ mod tests {
         let d = DistributionLognormal::new_from_mu_sig(mu, sig).unwrap();
         let ss = d.sig_logx * d.sig_logx;
         let mean = f64::exp(d.mu_logx + ss / 2.0);
-        let var = (f64::exp(ss) - 1.0) * f64::exp(2.0 * d.mu_logx + ss);
+        let var = f64::exp_m1(ss) * f64::exp(2.0 * d.mu_logx + ss);
         approx_eq(mean, mu, 1e-15);
         approx_eq(f64::sqrt(var), sig, 1e-15);
     }
-- 
2.43.0


From 22a26911ff72c71b47a4198075127c772c60163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:32 +0000
Subject: [PATCH 35/78] fix: reject negative deviations and undefined means of
 distributions

---
 russell_stat/src/distribution_lognormal.rs | 6 ++++++
 russell_stat/src/distribution_normal.rs    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index 8663c2b..fde263f 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -25,6 +25,9 @@ impl DistributionLognormal {
     /// * `mu_logx` -- mean (μ) of log(x)
     /// * `sig_logx` -- standard deviation (σ) of log(x)
     pub fn new(mu_logx: f64, sig_logx: f64) -> Result<Self, StrError> {
+        if !mu_logx.is_finite() || sig_logx < 0.0 {
+            return Err("invalid parameters");
+        }
         Ok(DistributionLognormal {
             mu_logx,
             sig_logx,
@@ -43,6 +46,9 @@ impl DistributionLognormal {
     ///
     /// This function will hence calculate `mu_logx` (mean of log(x)) and `sig_logx` (std-dev of log(x))
     pub fn new_from_mu_sig(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !mu.is_finite() || mu <= 0.0 || sig < 0.0 {
+            return Err("invalid parameters");
+        }
         let d = sig / mu;
         let v = f64::ln_1p(d * d);
         let sig_logx = f64::sqrt(v);
diff --git a/russell_stat/src/distribution_normal.rs b/russell_stat/src/distribution_normal.rs
index e5e04f3..a40eaf0 100644
--- a/russell_stat/src/distribution_normal.rs
+++ b/russell_stat/src/distribution_normal.rs
@@ -25,6 +25,9 @@ impl DistributionNormal {
     /// * `mu` -- mean μ
     /// * `sig` -- standard deviation σ
     pub fn new(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !mu.is_finite() || sig < 0.0 {
+            return Err("invalid parameters");
+        }
         Ok(DistributionNormal {
             mu,
             sig,
-- 
2.43.0


From 792e0cb2856dc8c6b4b4b4fc697f09f2dcafcfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:52 +0000
Subject: [PATCH 36/78] fix: compute the standard deviation of repeated values

---
 russell_stat/src/statistics.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_stat/src/statistics.rs b/russell_stat/src/statistics.rs
index f3dfd6d..defe8e5 100644
--- a/russell_stat/src/statistics.rs
+++ b/russell_stat/src/statistics.rs
@@ -85,6 +85,9 @@ impl Statistics {
 
         // (sample) standard deviation (applying Bessel's correction)
         variance = (variance - corrector * corrector / n) / (n - 1.0);
+        if variance < 0.0 {
+            variance = 0.0; // due to rounding
+        }
         let std_dev = variance.sqrt();
 
         // results
-- 
2.43.0


From cdba2d0912c8fe92143244a014ec7e5368f4ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:52 +0000
Subject: [PATCH 37/78] fix: ignore NaN when counting the bins of a histogram

---
 russell_stat/src/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_stat/src/histogram.rs b/russell_stat/src/histogram.rs
index 54a066f..2c8bbd9 100644
--- a/russell_stat/src/histogram.rs
+++ b/russell_stat/src/histogram.rs
@@ -137,8 +137,8 @@ where
     fn find_bin(&self, x: T) -> Option<usize> {
         // handle values outside range
         let nstation = self.stations.len();
-        if x < self.stations[0] {
-            return None;
+        if !(x >= self.stations[0]) {
+            return None; // also NaN
         }
         if x >= self.stations[nstation - 1] {
             return None;
-- 
2.43.0


From 2fc6393024f111ace912c6c58d4c18927ec51817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:36 +0000
Subject: [PATCH 38/78] fix: clear the skew components of the symmetric part of
 a tensor

---
 russell_tensor/src/tensor2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index b96c2c2..e2374c7 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -1743,6 +1743,9 @@ impl Tensor2 {
             skw.set(6, self.vec[6]);
             skw.set(7, self.vec[7]);
             skw.set(8, self.vec[8]);
+            sym.set(6, 0.0);
+            sym.set(7, 0.0);
+            sym.set(8, 0.0);
         } else {
             // There is only symmetric part
             for m in 0..self.dim {
-- 
2.43.0


From 440dcb65ff4f0e97f7b96159098b1a00662649e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:36 +0000
Subject: [PATCH 39/78] fix: write the zero out-of-plane components of plane
 tensors

---
 russell_tensor/src/tensor2.rs | 14 ++---------
 russell_tensor/src/tensor3.rs | 46 +++--------------------------------
 russell_tensor/src/tensor4.rs | 25 ++++---------------
 3 files changed, 11 insertions(+), 74 deletions(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index e2374c7..0ca4d40 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -656,19 +656,9 @@ impl Tensor2 {
     /// ```
     pub fn to_std_matrix(&self, mat: &mut Matrix) {
         assert_eq!(mat.dims(), (3, 3));
-        if self.dim < 9 {
-            for m in 0..self.dim {
-                let (i, j) = M_TO_IJ[m];
+        for i in 0..3 {
+            for j in 0..3 {
                 mat.set(i, j, self.get_std(i, j));
-                if i != j {
-                    mat.set(j, i, mat.get(i, j));
-                }
-            }
-        } else {
-            for i in 0..3 {
-                for j in 0..3 {
-                    mat.set(i, j, self.get_std(i, j));
-                }
             }
         }
     }
diff --git a/russell_tensor/src/tensor3.rs b/russell_tensor/src/tensor3.rs
index e522958..d235583 100644
--- a/russell_tensor/src/tensor3.rs
+++ b/russell_tensor/src/tensor3.rs
@@ -969,48 +969,10 @@ impl Tensor3 {
     /// }
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<f64>>>) {
-        if self.case_a {
-            if self.nrow == 9 {
-                // General
-                for i in 0..3 {
-                    for j in 0..3 {
-                        for k in 0..3 {
-                            dd[i][j][k] = self.get_std(i, j, k);
-                        }
-                    }
-                }
-            } else {
-                // Symmetric / Symmetric2D
-                for m in 0..self.nrow {
-                    for n in 0..self.ncol {
-                        let (i, j, k) = MN_TO_IJK_CASE_A[m][n];
-                        dd[i][j][k] = self.get_std(i, j, k);
-                        if i != j {
-                            dd[j][i][k] = dd[i][j][k];
-                        }
-                    }
-                }
-            }
-        } else {
-            if self.ncol == 9 {
-                // General
-                for i in 0..3 {
-                    for j in 0..3 {
-                        for k in 0..3 {
-                            dd[i][j][k] = self.get_std(i, j, k);
-                        }
-                    }
-                }
-            } else {
-                // Symmetric / Symmetric2D
-                for m in 0..self.nrow {
-                    for n in 0..self.ncol {
-                        let (i, j, k) = MN_TO_IJK_CASE_B[m][n];
-                        dd[i][j][k] = self.get_std(i, j, k);
-                        if j != k {
-                            dd[i][k][j] = dd[i][j][k];
-                        }
-                    }
+        for i in 0..3 {
+            for j in 0..3 {
+                for k in 0..3 {
+                    dd[i][j][k] = self.get_std(i, j, k);
                 }
             }
         }
diff --git a/russell_tensor/src/tensor4.rs b/russell_tensor/src/tensor4.rs
index 3b74333..18e1e19 100644
--- a/russell_tensor/src/tensor4.rs
+++ b/russell_tensor/src/tensor4.rs
@@ -880,26 +880,11 @@ impl Tensor4 {
     /// }
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<Vec<f64>>>>) {
-        let dim = self.dim;
-        if dim < 9 {
-            for m in 0..dim {
-                for n in 0..dim {
-                    let (i, j, k, l) = MN_TO_IJKL[m][n];
-                    dd[i][j][k][l] = self.get_std(i, j, k, l);
-                    if i != j || k != l {
-                        dd[j][i][k][l] = dd[i][j][k][l];
-                        dd[i][j][l][k] = dd[i][j][k][l];
-                        dd[j][i][l][k] = dd[i][j][k][l];
-                    }
-                }
-            }
-        } else {
-            for i in 0..3 {
-                for j in 0..3 {
-                    for k in 0..3 {
-                        for l in 0..3 {
-                            dd[i][j][k][l] = self.get_std(i, j, k, l);
-                        }
+        for i in 0..3 {
+            for j in 0..3 {
+                for k in 0..3 {
+                    for l in 0..3 {
+                        dd[i][j][k][l] = self.get_std(i, j, k, l);
                     }
                 }
             }
-- 
2.43.0


From bcdce5e7dd54c8f689ea59b8a8a2a3dad39c6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:41 +0000
Subject: [PATCH 40/78] fix: do not drop the out-of-plane components in the
 dyadic product of vectors

---
 russell_tensor/src/operations_t2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/russell_tensor/src/operations_t2.rs b/russell_tensor/src/operations_t2.rs
index a0ae546..cf7af50 100644
--- a/russell_tensor/src/operations_t2.rs
+++ b/russell_tensor/src/operations_t2.rs
@@ -424,9 +424,16 @@ pub fn t1_dyad_t1(a: &mut Tensor2, alpha: f64, u: &Tensor1, v: &Tensor1) -> Resu
         if (u.get(0) * v.get(1)) != (u.get(1) * v.get(0)) {
             return Err("dyadic product between u and v does not generate a symmetric tensor");
         }
+        if (u.get(1) * v.get(2)) != 0.0
+            || (u.get(2) * v.get(1)) != 0.0
+            || (u.get(0) * v.get(2)) != 0.0
+            || (u.get(2) * v.get(0)) != 0.0
+        {
+            return Err("dyadic product between u and v does not generate a Symmetric2D tensor");
+        }
         a.vec[0] = alpha * u.get(0) * v.get(0);
         a.vec[1] = alpha * u.get(1) * v.get(1);
-        a.vec[2] = 0.0;
+        a.vec[2] = alpha * u.get(2) * v.get(2);
         a.vec[3] = alpha * (u.get(0) * v.get(1) + u.get(1) * v.get(0)) / SQRT_2;
     } else {
         a.vec[0] = alpha * u.get(0) * v.get(0);
-- 
2.43.0


From 0df32552690382669cb1c41e45d9a6ac4306caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:10 +0000
Subject: [PATCH 41/78] fix: ignore the previous content of the output of
 small_mat_mat_mul when beta is zero

---
 russell_lab/src/small/small_mat_mat_mul.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/small/small_mat_mat_mul.rs b/russell_lab/src/small/small_mat_mat_mul.rs
index bd8f7e4..c51e883 100644
--- a/russell_lab/src/small/small_mat_mat_mul.rs
+++ b/russell_lab/src/small/small_mat_mat_mul.rs
@@ -70,7 +70,12 @@ pub fn small_mat_mat_mul<T, const N: usize>(
             for k in 0..n {
                 sum = sum + a[i][k] * b[k][j];
             }
-            c[i][j] = alpha * sum + beta * c[i][j];
+            // beta = 0 means that c is an output only (its previous content is ignored)
+            c[i][j] = if beta.is_zero() {
+                alpha * sum
+            } else {
+                alpha * sum + beta * c[i][j]
+            };
         }
     }
 }
-- 
2.43.0


From 1f3cc6472348ff4e01d0159b91bc2584ed48302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:38 +0000
Subject: [PATCH 42/78] fix: keep the Lode invariant of symmetric tensors
 within its range

---
 russell_tensor/src/tensor2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index 0ca4d40..07eb0b8 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -2208,7 +2208,12 @@ impl Tensor2 {
         let jj2 = self.invariant_jj2();
         if jj2 > TOL_J2 {
             let jj3 = self.invariant_jj3();
-            Some(1.5 * SQRT_3 * jj3 / f64::powf(jj2, 1.5))
+            let lode = 1.5 * SQRT_3 * jj3 / f64::powf(jj2, 1.5);
+            if self.rep.symmetric() {
+                Some(f64::clamp(lode, -1.0, 1.0)) // remove the round-off error of axisymmetric tensors
+            } else {
+                Some(lode)
+            }
         } else {
             None
         }
-- 
2.43.0


From 79f53562a3f1b3217894a127cd148c76aa43fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:59 +0000
Subject: [PATCH 43/78] fix: factorize again in Radau5 when the last step is
 shortened

---
 russell_ode/src/radau5.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 472191c..9a0459d 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -344,8 +344,11 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
         let ndim = self.system.ndim;
 
         // Jacobian, K_real, K_comp, and factorizations (for all iterations: simple Newton's method)
-        if self.reuse_jacobian_kk_and_fact {
-            self.reuse_jacobian_kk_and_fact = false; // just once
+        let reuse_all = self.reuse_jacobian_kk_and_fact && h == work.h_prev; // the matrices depend on h
+        self.reuse_jacobian = self.reuse_jacobian || self.reuse_jacobian_kk_and_fact;
+        self.reuse_jacobian_kk_and_fact = false; // just once
+        if reuse_all {
+            self.reuse_jacobian = false;
         } else {
             self.assemble(work, x, y, h, args)?;
             work.stats.sw_factor.reset();
-- 
2.43.0


From dc25a71ec48a0e3c6978fa11fed64a6f4bb3913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:56 +0000
Subject: [PATCH 44/78] fix: report diverging Radau5 iterations with equal
 steps instead of accepting the step

---
 russell_ode/src/ode_solver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 5f99a82..b61cb5f 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -245,6 +245,11 @@ impl<'a, A> OdeSolver<'a, A> {
                 self.work.stats.n_steps += 1;
                 self.actual.step(&mut self.work, x, &y, h, args)?;
 
+                // handle diverging iterations
+                if self.work.iterations_diverging {
+                    return Err("the iterations are diverging with equal steps");
+                }
+
                 // update x and y
                 self.work.stats.n_accepted += 1; // this must be after `self.actual.step`
                 self.actual.accept(&mut self.work, &mut x, y, h, args)?;
-- 
2.43.0


From 19a735989228f3dd8c6ad08f38a801581df5398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:56 +0000
Subject: [PATCH 45/78] fix: take exactly the requested number of equal steps
 in the ODE solver

---
 russell_ode/src/ode_solver.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index b61cb5f..d0be967 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -195,22 +195,23 @@ impl<'a, A> OdeSolver<'a, A> {
         let info = self.params.method.information();
 
         // initial stepsize
-        let (equal_stepping, mut h) = match h_equal {
+        let (n_equal, mut h) = match h_equal {
             Some(h_eq) => {
                 if h_eq < 10.0 * f64::EPSILON {
                     return Err("h_equal must be ≥ 10.0 * f64::EPSILON");
                 }
-                let n = f64::ceil((x1 - x0) / h_eq) as usize;
+                let ratio = (x1 - x0) / h_eq;
+                let n = f64::ceil(ratio * (1.0 - 10.0 * f64::EPSILON)) as usize; // no extra step due to rounding
                 let h = (x1 - x0) / (n as f64);
-                (true, h)
+                (Some(n), h)
             }
             None => {
                 if info.embedded {
                     let h = f64::min(self.params.step.h_ini, x1 - x0);
-                    (false, h)
+                    (None, h)
                 } else {
                     let h = (x1 - x0) / (N_EQUAL_STEPS as f64);
-                    (true, h)
+                    (Some(N_EQUAL_STEPS), h)
                 }
             }
         };
@@ -236,8 +237,7 @@ impl<'a, A> OdeSolver<'a, A> {
         }
 
         // equal-stepping loop
-        if equal_stepping {
-            let nstep = f64::ceil((x1 - x) / h) as usize;
+        if let Some(nstep) = n_equal {
             for _ in 0..nstep {
                 self.work.stats.sw_step.reset();
 
-- 
2.43.0


From 04172dd10e36c7cf110e4e5f41c765ea49369df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:13 +0000
Subject: [PATCH 46/78] fix: keep the last interior station when the dense
 output spacing does not divide the interval

---
 russell_ode/src/output.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index a9f238a..189a669 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -443,14 +443,15 @@ impl<'a, A> Output<'a, A> {
         if self.with_dense_output() {
             if let Some(h_out) = self.dense_h_out {
                 // uniform spacing
-                let n = usize::max(2, ((x1 + EPS_X1_H_OUT - x0) / h_out) as usize + 1); // at least 2 (first and last) are required
+                let eps = f64::max(EPS_X1_H_OUT, 10.0 * f64::EPSILON * f64::max(f64::abs(x0), f64::abs(x1)));
+                let n = usize::max(2, f64::ceil((x1 - x0 - eps) / h_out) as usize + 1); // at least 2 (first and last) are required
                 if self.dense_x.len() != n {
                     self.dense_x.resize(n, 0.0);
                 }
                 self.dense_x[0] = x0;
                 self.dense_x[n - 1] = x1;
                 for i in 1..(n - 1) {
-                    self.dense_x[i] = self.dense_x[i - 1] + h_out;
+                    self.dense_x[i] = x0 + (i as f64) * h_out;
                 }
             } else {
                 // user-defined spacing
-- 
2.43.0


From 316cb75f1a61695c65a8b467ea830df3a0719d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:13 +0000
Subject: [PATCH 47/78] fix: number the output files from zero again when an
 output object is reused

---
 russell_ode/src/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index 189a669..0a934fd 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -438,6 +438,8 @@ impl<'a, A> Output<'a, A> {
                 self.stiff_x.clear();
                 self.stiff_h_times_rho.clear();
             }
+            self.step_file_count = 0;
+            self.dense_file_count = 0;
         }
         // handle dense output stations
         if self.with_dense_output() {
-- 
2.43.0


From 81695641f14ded7bfb7eaa6a7566057298058892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:13 +0000
Subject: [PATCH 48/78] fix: return an error instead of panicking when dense
 output is requested and the steps are exhausted

---
 russell_ode/src/ode_solver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index d0be967..b5e6aaa 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -370,9 +370,11 @@ impl<'a, A> OdeSolver<'a, A> {
             }
         }
 
-        // last output
+        // last output (the dense output stations are incomplete if the solution failed)
         if let Some(out) = output.as_deref_mut() {
-            out.last(&self.work, h, x, y, args)?;
+            if success || !out.with_dense_output() {
+                out.last(&self.work, h, x, y, args)?;
+            }
         }
 
         // done
-- 
2.43.0


From cf4310dc75f98701a4f9239bb811211bccc46d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:13 +0000
Subject: [PATCH 49/78] fix: accept dense output stations right after the
 previous step in Radau5

---
 russell_ode/src/radau5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 9a0459d..06c36d7 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -670,7 +670,8 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Computes the dense output with x-h ≤ x_out ≤ x
     fn dense_output(&self, y_out: &mut Vector, x_out: f64, x: f64, y: &Vector, h: f64) {
-        assert!(x_out >= x - h && x_out <= x);
+        let tol = 10.0 * f64::EPSILON * f64::max(h, f64::abs(x)); // x - h may differ from the previous x due to rounding
+        assert!(x_out >= x - h - tol && x_out <= x);
         let s = (x_out - x) / h;
         for m in 0..self.system.ndim {
             y_out[m] = y[m] + s * (self.yc0[m] + (s - MU4) * (self.yc1[m] + (s - MU3) * self.yc2[m]));
-- 
2.43.0


From 142fbdb6eb37749c54e62ba43659aad046e45b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:13 +0000
Subject: [PATCH 50/78] fix: let updated parameters change the step control of
 explicit Runge-Kutta methods

---
 russell_ode/src/explicit_runge_kutta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 021977c..fa348ff 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -358,6 +358,10 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
+        self.lund_factor =
+            1.0 / ((self.info.order_of_estimator + 1) as f64) - params.erk.lund_beta * params.erk.lund_m;
+        self.d_min = 1.0 / params.step.m_min;
+        self.d_max = 1.0 / params.step.m_max;
         self.params = params;
     }
 }
-- 
2.43.0


From 91692b3ab37fe7cd139cb9357d689c61ba098f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:13 +0000
Subject: [PATCH 51/78] fix: do not reuse the Jacobian of a previous solution
 in Radau5

---
 russell_ode/src/radau5.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 06c36d7..b0d5352 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -334,6 +334,14 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Calculates the quantities required to update x and y
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError> {
+        // Forget the data of a previous solution
+        if work.stats.n_steps == 1 {
+            self.reuse_jacobian = false;
+            self.reuse_jacobian_kk_and_fact = false;
+            self.jacobian_computed = false;
+            self.eta = 1.0;
+        }
+
         // Perform the initialization for the first time
         if work.stats.n_accepted == 0 {
             self.initialize(work, x, y, args)?;
-- 
2.43.0


From 5c9cf6f8b61773014cfca69b3dad5afbcf7339c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:13 +0000
Subject: [PATCH 52/78] fix: do not compute dense output when only a previous
 solution requested it

---
 russell_ode/src/explicit_runge_kutta.rs | 4 ++++
 russell_ode/src/ode_solver.rs           | 1 +
 russell_ode/src/ode_solver_trait.rs     | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index fa348ff..e160256 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -154,6 +154,10 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
         Ok(())
     }
 
+    fn disable_dense_output(&mut self) {
+        self.dense_out = None;
+    }
+
     /// Calculates the quantities required to update x and y
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError> {
         // auxiliary
diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index b5e6aaa..4ee2ef0 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -225,6 +225,7 @@ impl<'a, A> OdeSolver<'a, A> {
         let y = y0; // will become y1 at the end
 
         // first output
+        self.actual.disable_dense_output();
         if let Some(out) = output.as_deref_mut() {
             out.initialize(x0, x1, self.params.stiffness.save_results)?;
             if out.with_dense_output() {
diff --git a/russell_ode/src/ode_solver_trait.rs b/russell_ode/src/ode_solver_trait.rs
index 6432222..9c9cec3 100644
--- a/russell_ode/src/ode_solver_trait.rs
+++ b/russell_ode/src/ode_solver_trait.rs
@@ -7,6 +7,9 @@ pub(crate) trait OdeSolverTrait<A>: Send {
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError>;
 
+    /// Disables dense output
+    fn disable_dense_output(&mut self) {}
+
     /// Calculates the quantities required to update x and y
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError>;
 
-- 
2.43.0


From 400a1c8c7eab01d49567906b51ff5ee689c7ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:13 +0000
Subject: [PATCH 53/78] fix: reject non-finite intervals and step sizes in the
 ODE solver

---
 russell_ode/src/ode_solver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 4ee2ef0..b8248b9 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -187,6 +187,9 @@ impl<'a, A> OdeSolver<'a, A> {
         if y0.dim() != self.ndim {
             return Err("y0.dim() must be equal to ndim");
         }
+        if !f64::is_finite(x0) || !f64::is_finite(x1) {
+            return Err("x0 and x1 must be finite");
+        }
         if x1 <= x0 {
             return Err("x1 must be greater than x0");
         }
@@ -197,11 +200,12 @@ impl<'a, A> OdeSolver<'a, A> {
         // initial stepsize
         let (n_equal, mut h) = match h_equal {
             Some(h_eq) => {
-                if h_eq < 10.0 * f64::EPSILON {
+                if !(h_eq >= 10.0 * f64::EPSILON) {
                     return Err("h_equal must be ≥ 10.0 * f64::EPSILON");
                 }
                 let ratio = (x1 - x0) / h_eq;
                 let n = f64::ceil(ratio * (1.0 - 10.0 * f64::EPSILON)) as usize; // no extra step due to rounding
+                let n = usize::max(1, n);
                 let h = (x1 - x0) / (n as f64);
                 (Some(n), h)
             }
-- 
2.43.0


From 7752420d5d0bc7aa7e4e7c6ac4e459b5aeb42687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:34 +0000
Subject: [PATCH 54/78] fix: compute the Jacobian in BwEuler if the first step
 needed no iteration

The modified Newton method assembles the matrix during the first step only.
When that step converged right away, the following steps used a linear solver
that was not factorized or held the matrix of a previous solution.
---
 russell_ode/src/euler_backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index 1b7fd5a..a033f63 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -97,7 +97,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
             }
 
             // compute K matrix (augmented Jacobian)
-            if traditional_newton || work.stats.n_accepted == 0 {
+            if traditional_newton || work.stats.n_accepted == 0 || work.stats.n_factor == 0 {
                 // stats
                 work.stats.sw_jacobian.reset();
                 work.stats.n_jacobian += 1;
-- 
2.43.0


From eb40c7692d4ab0fe99bb053b623fd83de8516241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:18 +0000
Subject: [PATCH 55/78] fix: give the linear solver parameters to the first
 factorization only

The sparse solvers refuse new parameters when a matrix is factorized again.
Thus Radau5 and BwEuler failed at the second factorization whenever
lin_sol_params was set.
---
 russell_ode/src/euler_backward.rs |  8 ++++++--
 russell_ode/src/radau5.rs         | 27 ++++++++++++---------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index a033f63..ac06ce6 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -1,7 +1,7 @@
 use crate::StrError;
 use crate::{OdeSolverTrait, Params, System, Workspace};
 use russell_lab::{Vector, vec_copy, vec_rms_scaled, vec_update};
-use russell_sparse::{CooMatrix, LinSolver, numerical_jacobian};
+use russell_sparse::{CooMatrix, LinSolParams, LinSolver, numerical_jacobian};
 
 /// Implements the backward Euler (implicit) solver (implicit, order 1, unconditionally stable)
 pub(crate) struct EulerBackward<'a, A> {
@@ -30,6 +30,9 @@ pub(crate) struct EulerBackward<'a, A> {
 
     /// Linear solver
     solver: LinSolver<'a>,
+
+    /// Parameters for the linear solver (consumed by the first factorization)
+    lin_sol_params: Option<LinSolParams>,
 }
 
 impl<'a, A> EulerBackward<'a, A> {
@@ -52,6 +55,7 @@ impl<'a, A> EulerBackward<'a, A> {
             dy: Vector::new(ndim),
             kk: CooMatrix::new(ndim, ndim, nnz, sym).unwrap(),
             solver: LinSolver::new(params.newton.genie).unwrap(),
+            lin_sol_params: params.newton.lin_sol_params,
         }
     }
 }
@@ -124,7 +128,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
                 // perform factorization
                 work.stats.sw_factor.reset();
                 work.stats.n_factor += 1;
-                self.solver.actual.factorize(kk, self.params.newton.lin_sol_params)?;
+                self.solver.actual.factorize(kk, self.lin_sol_params.take())?;
                 work.stats.stop_sw_factor();
             }
 
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index b0d5352..352aae5 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -3,7 +3,8 @@ use crate::{OdeSolverTrait, Params, System, Workspace};
 use russell_lab::math::SQRT_6;
 use russell_lab::{ComplexVector, Vector, complex_vec_zip, cpx, format_fortran, vec_copy};
 use russell_sparse::{
-    ComplexCooMatrix, ComplexCscMatrix, ComplexLinSolver, CooMatrix, CscMatrix, Genie, LinSolver, numerical_jacobian,
+    ComplexCooMatrix, ComplexCscMatrix, ComplexLinSolver, CooMatrix, CscMatrix, Genie, LinSolParams, LinSolver,
+    numerical_jacobian,
 };
 use std::thread;
 
@@ -50,6 +51,9 @@ pub(crate) struct Radau5<'a, A> {
     /// Linear solver (for complex system)
     solver_comp: ComplexLinSolver<'a>,
 
+    /// Parameters for the linear solvers (consumed by the first factorization)
+    lin_sol_params: Option<LinSolParams>,
+
     /// Indicates that the Jacobian can be reused (once)
     reuse_jacobian: bool,
 
@@ -152,6 +156,7 @@ impl<'a, A> Radau5<'a, A> {
             kk_comp: ComplexCooMatrix::new(ndim, ndim, nnz, sym).unwrap(),
             solver_real: LinSolver::new(params.newton.genie).unwrap(),
             solver_comp: ComplexLinSolver::new(params.newton.genie).unwrap(),
+            lin_sol_params: params.newton.lin_sol_params,
             reuse_jacobian: false,
             reuse_jacobian_kk_and_fact: false,
             jacobian_computed: false,
@@ -258,28 +263,20 @@ impl<'a, A> Radau5<'a, A> {
 
     /// Factorizes the real and complex systems in serial
     fn factorize(&mut self) -> Result<(), StrError> {
-        self.solver_real
-            .actual
-            .factorize(&self.kk_real, self.params.newton.lin_sol_params)?;
-        self.solver_comp
-            .actual
-            .factorize(&self.kk_comp, self.params.newton.lin_sol_params)
+        let params = self.lin_sol_params.take();
+        self.solver_real.actual.factorize(&self.kk_real, params)?;
+        self.solver_comp.actual.factorize(&self.kk_comp, params)
     }
 
     /// Factorizes the real and complex systems concurrently
     fn factorize_concurrently(&mut self) -> Result<(), StrError> {
+        let params = self.lin_sol_params.take();
         thread::scope(|scope| {
             let handle_real = scope.spawn(|| {
-                self.solver_real
-                    .actual
-                    .factorize(&self.kk_real, self.params.newton.lin_sol_params)
-                    .unwrap();
+                self.solver_real.actual.factorize(&self.kk_real, params).unwrap();
             });
             let handle_comp = scope.spawn(|| {
-                self.solver_comp
-                    .actual
-                    .factorize(&self.kk_comp, self.params.newton.lin_sol_params)
-                    .unwrap();
+                self.solver_comp.actual.factorize(&self.kk_comp, params).unwrap();
             });
             let err_real = handle_real.join();
             let err_comp = handle_comp.join();
-- 
2.43.0


From c1af5b18eb5436f9b16734d04f1120e63644c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:57 +0000
Subject: [PATCH 56/78] fix: rebuild the matrices and linear solvers when the
 parameters are updated

Updating the parameters of Radau5 and BwEuler kept the matrices and linear
solvers allocated for the old parameters. Switching to the numerical Jacobian
then failed because the matrices had no room for all entries, and new linear
solver parameters were ignored.
---
 russell_ode/src/euler_backward.rs | 2 +-
 russell_ode/src/radau5.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index ac06ce6..c4e393f 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -172,7 +172,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
-        self.params = params;
+        *self = EulerBackward::new(params, self.system.clone()); // the matrices and linear solvers depend on params
     }
 }
 
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 352aae5..175339b 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -685,7 +685,7 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
-        self.params = params;
+        *self = Radau5::new(params, self.system.clone()); // the matrices and linear solvers depend on params
     }
 }
 
-- 
2.43.0


From 9c7db669970d91c16823113abe274083837b8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:38 +0000
Subject: [PATCH 57/78] fix: do not accept steps whose error estimate is NaN

The lower limit of the error estimate turned NaN into a tiny error. A function
returning NaN at a stage used by the error estimate only (the last stage of
DoPri5, the end point of Radau5) was accepted as a perfect step.
---
 russell_ode/src/explicit_runge_kutta.rs | 3 +++
 russell_ode/src/radau5.rs               | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index e160256..1590546 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -236,6 +236,9 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
                 let ratio = err_m / sk;
                 sum += ratio * ratio;
             }
+            if f64::is_nan(sum) {
+                return Err("an element of the vector is either infinite or NaN");
+            }
             work.rel_error = f64::max(f64::sqrt(sum / dim), 1.0e-10);
         }
         Ok(())
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 175339b..6be862f 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -698,7 +698,8 @@ fn rms_norm(err: &Vector, scaling: &Vector) -> f64 {
         let ratio = err[m] / scaling[m];
         sum += ratio * ratio;
     }
-    f64::max(1e-10, f64::sqrt(sum / (ndim as f64)))
+    let norm = f64::sqrt(sum / (ndim as f64));
+    if norm < 1e-10 { 1e-10 } else { norm } // f64::max would hide NaN
 }
 
 // Radau5 constants ------------------------------------------------------------
-- 
2.43.0


From 56a80988cf604b3cfaaabd831c3c6defaacbdbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:08 +0000
Subject: [PATCH 58/78] fix: reject NaN as spacing or stations of the dense
 output

---
 russell_ode/src/output.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index 0a934fd..b48378c 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -267,7 +267,7 @@ impl<'a, A> Output<'a, A> {
     ///
     /// * `h_out` -- stepsize; it must be > 10.0 * f64::EPSILON
     pub fn set_dense_h_out(&mut self, h_out: f64) -> Result<&mut Self, StrError> {
-        if h_out <= 10.0 * f64::EPSILON {
+        if !(h_out > 10.0 * f64::EPSILON) {
             return Err("h_out must be > 10.0 * EPSILON");
         }
         self.dense_h_out = Some(h_out);
@@ -291,7 +291,7 @@ impl<'a, A> Output<'a, A> {
                 if interior_x_out[k] < interior_x_out[k - 1] {
                     return Err("the dense output stations x must be sorted in ascending order in (x0, x1)");
                 }
-                if interior_x_out[k] - interior_x_out[k - 1] <= 10.0 * f64::EPSILON {
+                if !(interior_x_out[k] - interior_x_out[k - 1] > 10.0 * f64::EPSILON) {
                     return Err("the x spacing must be > 10.0 * EPSILON");
                 }
             }
@@ -464,7 +464,7 @@ impl<'a, A> Output<'a, A> {
                 self.dense_x[0] = x0;
                 self.dense_x[n - 1] = x1;
                 if n > 2 {
-                    if self.dense_x[1] <= x0 {
+                    if !(self.dense_x[1] > x0) {
                         return Err("the first interior x_out for dense output must be > x0");
                     }
                     if self.dense_x[n - 2] >= x1 {
-- 
2.43.0


From 842e837e7d92ff68fd8dd2eb934bdb776fbad4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:23 +0000
Subject: [PATCH 59/78] fix: reject NaN in the parameters of the ODE solver

---
 russell_ode/src/params.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/russell_ode/src/params.rs b/russell_ode/src/params.rs
index 77e1eef..ddbb581 100644
--- a/russell_ode/src/params.rs
+++ b/russell_ode/src/params.rs
@@ -301,25 +301,25 @@ impl ParamsStep {
 
     /// Validates the parameters
     pub(crate) fn validate(&self) -> Result<(), StrError> {
-        if self.m_min < 0.001 || self.m_min > 0.5 || self.m_min >= self.m_max {
+        if !(self.m_min >= 0.001 && self.m_min <= 0.5 && self.m_min < self.m_max) {
             return Err("parameter must satisfy: 0.001 ≤ m_min < 0.5 and m_min < m_max");
         }
-        if self.m_max < 0.01 || self.m_max > 20.0 {
+        if !(self.m_max >= 0.01 && self.m_max <= 20.0) {
             return Err("parameter must satisfy: 0.01 ≤ m_max ≤ 20 and m_max > m_min");
         }
-        if self.m_safety < 0.1 || self.m_safety > 1.0 {
+        if !(self.m_safety >= 0.1 && self.m_safety <= 1.0) {
             return Err("parameter must satisfy: 0.1 ≤ m_safety ≤ 1");
         }
-        if self.m_first_reject < 0.0 {
+        if !(self.m_first_reject >= 0.0) {
             return Err("parameter must satisfy: m_first_rejection ≥ 0");
         }
-        if self.h_ini < 1e-8 {
+        if !(self.h_ini >= 1e-8) {
             return Err("parameter must satisfy: h_ini ≥ 1e-8");
         }
         if self.n_step_max < 1 {
             return Err("parameter must satisfy: n_step_max ≥ 1");
         }
-        if self.rel_error_prev_min < 1e-8 {
+        if !(self.rel_error_prev_min >= 1e-8) {
             return Err("parameter must satisfy: rel_error_prev_min ≥ 1e-8");
         }
         Ok(())
@@ -385,13 +385,13 @@ impl ParamsRadau5 {
 
     /// Validates the parameters
     pub(crate) fn validate(&self) -> Result<(), StrError> {
-        if self.theta_max < 1e-7 {
+        if !(self.theta_max >= 1e-7) {
             return Err("parameter must satisfy: theta_max ≥ 1e-7");
         }
-        if self.c1h < 0.5 || self.c1h > 1.5 || self.c1h >= self.c2h {
+        if !(self.c1h >= 0.5 && self.c1h <= 1.5 && self.c1h < self.c2h) {
             return Err("parameter must satisfy: 0.5 ≤ c1h ≤ 1.5 and c1h < c2h");
         }
-        if self.c2h < 1.0 || self.c2h > 2.0 {
+        if !(self.c2h >= 1.0 && self.c2h <= 2.0) {
             return Err("parameter must satisfy: 1 ≤ c2h ≤ 2 and c2h > c1h");
         }
         Ok(())
@@ -411,10 +411,10 @@ impl ParamsERK {
 
     /// Validates the parameters
     pub(crate) fn validate(&self) -> Result<(), StrError> {
-        if self.lund_beta < 0.0 || self.lund_beta > 0.1 {
+        if !(self.lund_beta >= 0.0 && self.lund_beta <= 0.1) {
             return Err("parameter must satisfy: 0 ≤ lund_beta ≤ 0.1");
         }
-        if self.lund_m < 0.0 || self.lund_m > 1.0 {
+        if !(self.lund_m >= 0.0 && self.lund_m <= 1.0) {
             return Err("parameter must satisfy: 0 ≤ lund_m ≤ 1");
         }
         Ok(())
@@ -485,10 +485,10 @@ impl Params {
 /// * `tol_newton` -- tolerance for Newton's method
 fn calc_tolerances(radau5: bool, abs_tol: f64, rel_tol: f64) -> Result<(f64, f64, f64), StrError> {
     // check
-    if abs_tol <= 10.0 * f64::EPSILON {
+    if !(abs_tol > 10.0 * f64::EPSILON) {
         return Err("the absolute tolerance must be > 10 · EPSILON");
     }
-    if rel_tol <= 10.0 * f64::EPSILON {
+    if !(rel_tol > 10.0 * f64::EPSILON) {
         return Err("the relative tolerance must be > 10 · EPSILON");
     }
 
-- 
2.43.0


From 7fa1a5c281e96fdf3c9134936b1967205ca320fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:52 +0000
Subject: [PATCH 60/78] fix: report an unavailable linear solver when creating
 the ODE solver

Selecting a linear solver that was not compiled caused a panic.
---
 russell_ode/src/ode_solver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index b8248b9..87e4020 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -3,6 +3,7 @@ use crate::{EulerBackward, EulerForward, ExplicitRungeKutta, Radau5};
 use crate::{Method, OdeSolverTrait, Params, Stats, System, Workspace};
 use crate::{Output, StrError};
 use russell_lab::{Vector, vec_all_finite};
+use russell_sparse::LinSolver;
 
 /// Implements a numerical solver for systems of ODEs
 ///
@@ -137,6 +138,7 @@ impl<'a, A> OdeSolver<'a, A> {
         if system.calc_mass.is_some() && params.method != Method::Radau5 {
             return Err("the method must be Radau5 for systems with a mass matrix");
         }
+        check_lin_solver(&params)?;
         let ndim = system.ndim;
         let actual: Box<dyn OdeSolverTrait<A>> = if params.method == Method::Radau5 {
             Box::new(Radau5::new(params, system))
@@ -397,12 +399,21 @@ impl<'a, A> OdeSolver<'a, A> {
             return Err("update_params must not change the method");
         }
         params.validate()?;
+        check_lin_solver(&params)?;
         self.actual.update_params(params);
         self.params = params;
         Ok(())
     }
 }
 
+/// Checks that the selected linear solver is available (implicit methods only)
+fn check_lin_solver(params: &Params) -> Result<(), StrError> {
+    if params.method == Method::Radau5 || params.method == Method::BwEuler {
+        LinSolver::new(params.newton.genie)?;
+    }
+    Ok(())
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #[cfg(test)]
-- 
2.43.0


From d39ebd47752c0b62badb06f02fa3059ae44e2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:11 +0000
Subject: [PATCH 61/78] fix: report recorded components that do not exist

Selecting a component beyond the dimension of the system caused a panic.
---
 russell_ode/src/ode_solver.rs |  1 +
 russell_ode/src/output.rs     | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 87e4020..7b36ea4 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -233,6 +233,7 @@ impl<'a, A> OdeSolver<'a, A> {
         // first output
         self.actual.disable_dense_output();
         if let Some(out) = output.as_deref_mut() {
+            out.check_components(self.ndim)?;
             out.initialize(x0, x1, self.params.stiffness.save_results)?;
             if out.with_dense_output() {
                 self.actual.enable_dense_output()?;
diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index b48378c..a336b4e 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -487,6 +487,16 @@ impl<'a, A> Output<'a, A> {
         Ok(())
     }
 
+    /// Checks whether the selected components exist or not
+    pub(crate) fn check_components(&self, ndim: usize) -> Result<(), StrError> {
+        for m in self.step_y.keys().chain(self.dense_y.keys()) {
+            if *m >= ndim {
+                return Err("the index of a recorded y component must be < ndim");
+            }
+        }
+        Ok(())
+    }
+
     /// Indicates whether dense output is enabled or not
     pub(crate) fn with_dense_output(&self) -> bool {
         self.dense_callback.is_some() || self.dense_file_key.is_some() || self.dense_recording
-- 
2.43.0


From f719ffbf2c1b02387d4c659620028bb93da48717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:53 +0000
Subject: [PATCH 62/78] fix: report a Jacobian with too many entries in BwEuler

The callback fills a matrix with room for the diagonal as well. Exceeding the
given number of non-zeros by a few entries caused a panic afterwards.
---
 russell_ode/src/euler_backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index c4e393f..5b7b994 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -119,7 +119,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
 
                 // add diagonal entries => calculate K = h J_new - I
                 for i in 0..self.system.ndim {
-                    kk.put(i, i, -1.0).unwrap();
+                    kk.put(i, i, -1.0)?;
                 }
 
                 // stats
-- 
2.43.0


From f583b838554fbb3b618953fb66ccdfe4db3e13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:44 +0000
Subject: [PATCH 63/78] fix: solve partitioned problems without essential
 conditions

The solve_sps functions panicked if no value is prescribed (periodic domains
and domains with natural conditions only).
---
 russell_pde/src/fdm_1d.rs     | 5 +++--
 russell_pde/src/fdm_2d.rs     | 5 +++--
 russell_pde/src/spc_1d.rs     | 6 ++++--
 russell_pde/src/spc_2d.rs     | 6 ++++--
 russell_pde/src/spc_map_2d.rs | 6 ++++--
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 615db05..4eee95d 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -371,10 +371,11 @@ impl<'a> Fdm1d<'a> {
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // update the right-hand side with the prescribed values
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 54ed987..fb39442 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -447,10 +447,11 @@ impl<'a> Fdm2d<'a> {
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index 7948e72..a59c74e 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -284,7 +284,9 @@ impl<'a> Spc1d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -468,7 +470,7 @@ impl<'a> Spc1d<'a> {
         let nx = self.grid.nx();
         let nnz_wcs = nx * nx; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(1, np), nnz_wcs, Sym::No).unwrap(); // at least one column
 
         // spectral derivative matrices
         let d1r = self.interp.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 08a8372..7439584 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -335,7 +335,9 @@ impl<'a> Spc2d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -537,7 +539,7 @@ impl<'a> Spc2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nx * nx * ny * ny; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(1, np), nnz_wcs, Sym::No).unwrap(); // at least one column
 
         // spectral derivative matrices
         let d1r = self.interp_x.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 23ad109..38c6f85 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -387,7 +387,9 @@ impl<'a> SpcMap2d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -574,7 +576,7 @@ impl<'a> SpcMap2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nr * nr * ns * ns; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(1, np), nnz_wcs, Sym::No).unwrap(); // at least one column
 
         // add all terms to the coefficient matrix
         for m in self.equations.unknown().clone() {
-- 
2.43.0


From 02f9c87f47c5594f9ff325649ff39b22c9e52be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:58 +0000
Subject: [PATCH 64/78] fix: solve partitioned problems without unknowns

The solve_sps functions panicked if the grid has prescribed nodes only.
---
 russell_pde/src/fdm_1d.rs     | 6 ++++++
 russell_pde/src/fdm_2d.rs     | 6 ++++++
 russell_pde/src/spc_1d.rs     | 6 ++++++
 russell_pde/src/spc_2d.rs     | 6 ++++++
 russell_pde/src/spc_map_2d.rs | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 4eee95d..61eaf97 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -367,6 +367,12 @@ impl<'a> Fdm1d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index fb39442..1c4f872 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -443,6 +443,12 @@ impl<'a> Fdm2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index a59c74e..20eebfe 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -279,6 +279,12 @@ impl<'a> Spc1d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 7439584..3ca264c 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -330,6 +330,12 @@ impl<'a> Spc2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 38c6f85..ed9d33e 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -382,6 +382,12 @@ impl<'a> SpcMap2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-- 
2.43.0


From e9fe1cad19541bc712a658fb6fcf6b386b5f031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:10 +0000
Subject: [PATCH 65/78] fix: natural conditions at the ends of periodic sides

The end nodes of a side with natural conditions are no corners if the domain is
periodic along that side, thus the flux must not be halved.
---
 russell_pde/src/fdm_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 1c4f872..b0831df 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -767,7 +767,8 @@ impl<'a> Fdm2d<'a> {
             let iu = self.equations.iu(m);
             let (x, y) = self.grid.coord(m);
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let periodic = self.ebcs.periodic_along_x || self.ebcs.periodic_along_y;
+            let cf = if self.grid.is_corner(m) && !periodic { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
@@ -854,7 +855,8 @@ impl<'a> Fdm2d<'a> {
         let mut ff = Vector::new(ndim);
         self.grid.for_each_coord(|m, x, y| {
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let periodic = self.ebcs.periodic_along_x || self.ebcs.periodic_along_y;
+            let cf = if self.grid.is_corner(m) && !periodic { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
-- 
2.43.0


From 23bcf86e3d401a4cf7402e92ead6dab21abbbeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:13 +0000
Subject: [PATCH 66/78] fix: recognise uniform grids with large coordinates

The spacings of a uniform grid differ by the rounding errors of the
coordinates, which exceed a fixed tolerance if the coordinates are large.
---
 russell_pde/src/grid_1d.rs | 4 +++-
 russell_pde/src/grid_2d.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/russell_pde/src/grid_1d.rs b/russell_pde/src/grid_1d.rs
index 3b453b1..7ac5964 100644
--- a/russell_pde/src/grid_1d.rs
+++ b/russell_pde/src/grid_1d.rs
@@ -359,13 +359,15 @@ impl Grid1d {
     /// * For CGL grids or arbitrary grids, this typically returns `None`
     pub fn get_dx(&self) -> Option<f64> {
         let mut dx = f64::NEG_INFINITY;
+        let x_max_abs = f64::max(f64::abs(self.coords[0]), f64::abs(self.coords[self.nx - 1]));
+        let tol = f64::max(10.0, 3.0 * x_max_abs) * f64::EPSILON; // rounding errors grow with the coordinates
         for i in 1..self.nx {
             let x = self.coords[i];
             let xl = self.coords[i - 1];
             if dx == f64::NEG_INFINITY {
                 dx = x - xl;
                 assert!(dx > 0.0);
-            } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+            } else if f64::abs(x - xl - dx) > tol {
                 return None; // non-uniform
             }
         }
diff --git a/russell_pde/src/grid_2d.rs b/russell_pde/src/grid_2d.rs
index 457128b..6cdb03b 100644
--- a/russell_pde/src/grid_2d.rs
+++ b/russell_pde/src/grid_2d.rs
@@ -659,6 +659,10 @@ impl Grid2d {
     pub fn get_dx_dy(&self) -> Option<(f64, f64)> {
         let mut dx = f64::NEG_INFINITY;
         let mut dy = f64::NEG_INFINITY;
+        let x_max_abs = f64::max(f64::abs(self.xmin), f64::abs(self.xmax));
+        let y_max_abs = f64::max(f64::abs(self.ymin), f64::abs(self.ymax));
+        let tol_x = f64::max(10.0, 3.0 * x_max_abs) * f64::EPSILON; // rounding errors grow with the coordinates
+        let tol_y = f64::max(10.0, 3.0 * y_max_abs) * f64::EPSILON;
         for j in 1..self.ny {
             for i in 1..self.nx {
                 let m = i + j * self.nx; // this node
@@ -670,13 +674,13 @@ impl Grid2d {
                 if dx == f64::NEG_INFINITY {
                     dx = x - xl;
                     assert!(dx > 0.0);
-                } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+                } else if f64::abs(x - xl - dx) > tol_x {
                     return None; // non-uniform in x
                 }
                 if dy == f64::NEG_INFINITY {
                     dy = y - yb;
                     assert!(dy > 0.0);
-                } else if f64::abs(y - yb - dy) > 10.0 * f64::EPSILON {
+                } else if f64::abs(y - yb - dy) > tol_y {
                     return None; // non-uniform in y
                 }
             }
-- 
2.43.0


From 395d50cef7dbe0f92e25c0ff040e3ce5945bc50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:05 +0000
Subject: [PATCH 67/78] fix: include the tangential derivative in natural
 conditions on mapped domains

The normal derivative at a boundary of a mapped domain was computed with
the derivative along one reference coordinate only. This is right only
when the coordinate lines are orthogonal to the boundary.
---
 russell_pde/src/spc_map_2d.rs | 70 +++++++++++------------------------
 1 file changed, 22 insertions(+), 48 deletions(-)

diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index ed9d33e..ee1b909 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -598,36 +598,16 @@ impl<'a> SpcMap2d<'a> {
                     let (k, l) = self.grid.get_ij(n);
                     let mut val = 0.0;
                     if i == 0 {
-                        // Xmin
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmin);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.calc_normal_flow(Side::Xmin, i, j, k, l);
                     }
                     if i == nr - 1 {
-                        // Xmax
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmax);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.calc_normal_flow(Side::Xmax, i, j, k, l);
                     }
                     if j == 0 {
-                        // Ymin
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymin);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.calc_normal_flow(Side::Ymin, i, j, k, l);
                     }
                     if j == ns - 1 {
-                        // Ymax
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymax);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.calc_normal_flow(Side::Ymax, i, j, k, l);
                     }
                     self.put_val(&mut kk_bar, &mut kk_check, m, n, val);
                 }
@@ -698,36 +678,16 @@ impl<'a> SpcMap2d<'a> {
                     let (k, l) = self.grid.get_ij(n);
                     let mut val = 0.0;
                     if i == 0 {
-                        // Xmin
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmin);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.calc_normal_flow(Side::Xmin, i, j, k, l);
                     }
                     if i == nr - 1 {
-                        // Xmax
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmax);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.calc_normal_flow(Side::Xmax, i, j, k, l);
                     }
                     if j == 0 {
-                        // Ymin
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymin);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.calc_normal_flow(Side::Ymin, i, j, k, l);
                     }
                     if j == ns - 1 {
-                        // Ymax
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymax);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.calc_normal_flow(Side::Ymax, i, j, k, l);
                     }
                     mm.put(m, n, val).unwrap();
                 }
@@ -961,6 +921,20 @@ impl<'a> SpcMap2d<'a> {
         self.un[1] /= norm_u;
     }
 
+    /// Calculates the contribution of node (k,l) to the normal flow -k ∂ϕ/∂n at the boundary node (i,j)
+    ///
+    /// The gradient has components along both contravariant vectors because the
+    /// coordinate lines may not be orthogonal to the boundary.
+    fn calc_normal_flow(&mut self, side: Side, i: usize, j: usize, k: usize, l: usize) -> f64 {
+        if i != k && j != l {
+            return 0.0;
+        }
+        self.calc_unit_normal(side);
+        let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
+        let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
+        self.mk * (self.d1r(i, k) * delta(j, l) * alpha + delta(i, k) * self.d1s(j, l) * beta)
+    }
+
     /// Puts the value into the correct position of the coefficient matrix
     fn put_val(&mut self, kk_bar: &mut CooMatrix, kk_check: &mut CooMatrix, m: usize, n: usize, val: f64) {
         // unknown row
-- 
2.43.0


From 668bafdf289c55a5e82c2ecdd9c77c780174ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:38 +0000
Subject: [PATCH 68/78] fix: reject grids with coordinates that are not numbers

---
 russell_pde/src/grid_1d.rs | 4 ++--
 russell_pde/src/grid_2d.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/russell_pde/src/grid_1d.rs b/russell_pde/src/grid_1d.rs
index 7ac5964..3308f63 100644
--- a/russell_pde/src/grid_1d.rs
+++ b/russell_pde/src/grid_1d.rs
@@ -125,7 +125,7 @@ impl Grid1d {
             return Err("nx must be ≥ 2");
         }
         for i in 1..nx {
-            if xx[i] <= xx[i - 1] {
+            if !(xx[i] > xx[i - 1]) {
                 return Err("xx must be strictly increasing");
             }
         }
@@ -183,7 +183,7 @@ impl Grid1d {
         if nx < 2 {
             return Err("nx must be ≥ 2");
         }
-        if xmax <= xmin {
+        if !(xmax > xmin) {
             return Err("xmax must be > xmin");
         }
         let dx = (xmax - xmin) / ((nx - 1) as f64);
diff --git a/russell_pde/src/grid_2d.rs b/russell_pde/src/grid_2d.rs
index 6cdb03b..aa214f2 100644
--- a/russell_pde/src/grid_2d.rs
+++ b/russell_pde/src/grid_2d.rs
@@ -234,12 +234,12 @@ impl Grid2d {
         let ymin = yy[0];
         let ymax = yy[ny - 1];
         for i in 1..nx {
-            if xx[i] <= xx[i - 1] {
+            if !(xx[i] > xx[i - 1]) {
                 return Err("xx must be strictly increasing");
             }
         }
         for j in 0..ny {
-            if j > 0 && yy[j] <= yy[j - 1] {
+            if j > 0 && !(yy[j] > yy[j - 1]) {
                 return Err("yy must be strictly increasing");
             }
             for i in 0..nx {
@@ -314,10 +314,10 @@ impl Grid2d {
         if ny < 2 {
             return Err("ny must be ≥ 2");
         }
-        if xmax <= xmin {
+        if !(xmax > xmin) {
             return Err("xmax must be > xmin");
         }
-        if ymax <= ymin {
+        if !(ymax > ymin) {
             return Err("ymax must be > ymin");
         }
         let dx = (xmax - xmin) / ((nx - 1) as f64);
-- 
2.43.0


From 71f1d91e501caa40ee038371a67a45a023e7060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:28 +0000
Subject: [PATCH 69/78] fix: ignore vanishing changes of the tangent in the
 step size filter

A previous change set to zero made the filter divide by zero. The new
step size could then be infinite or not a number.
---
 russell_nonlin/src/solver.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 1415433..05a07e5 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -391,11 +391,15 @@ impl<'a, A> Solver<'a, A> {
             } else {
                 let mut rho = f64::powf(1.0 / rdiff, self.config.tg_control_beta1);
                 if self.work.stats.n_accepted > 1 {
-                    rho *= f64::powf(1.0 / self.rerr_prev, self.config.tg_control_beta2);
+                    if self.rerr_prev > 0.0 {
+                        rho *= f64::powf(1.0 / self.rerr_prev, self.config.tg_control_beta2);
+                    }
                     rho *= f64::powf(self.work.h / self.h_prev, -self.config.tg_control_alpha2);
                 }
                 if self.work.stats.n_accepted > 2 {
-                    rho *= f64::powf(1.0 / self.rerr_anc, self.config.tg_control_beta3);
+                    if self.rerr_anc > 0.0 {
+                        rho *= f64::powf(1.0 / self.rerr_anc, self.config.tg_control_beta3);
+                    }
                     rho *= f64::powf(self.h_prev / self.h_anc, -self.config.tg_control_alpha3);
                 }
                 rho
-- 
2.43.0


From e892708a4dd8a404998ef75184734c8e588db2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:29 +0000
Subject: [PATCH 70/78] fix: count accepted steps for the stop after a number
 of steps

With automatic step sizes, rejected attempts were counted too. If the
last attempt was rejected, the continuation did not stop at all.
---
 russell_nonlin/src/solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 05a07e5..dd6915e 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -211,7 +211,7 @@ impl<'a, A> Solver<'a, A> {
             }
         } else {
             // variable stepsize
-            for i in 0..self.config.n_step_max {
+            for _ in 0..self.config.n_step_max {
                 // log
                 self.work.stats.sw_step.reset();
                 self.work.log.step(self.work.h, *l, false);
@@ -303,7 +303,7 @@ impl<'a, A> Solver<'a, A> {
 
                     // exit point
                     self.work.stats.stop_sw_step();
-                    if stop.now(i, u, *l) {
+                    if stop.now(self.work.stats.n_accepted - 1, u, *l) {
                         break;
                     }
                 }
-- 
2.43.0


From d2d44f889bc0b44859d458ec3e67e140432f44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:29 +0000
Subject: [PATCH 71/78] fix: leave the targeting mode when the step to the
 target is rejected

The pseudo-arclength solver kept prescribing the parameter in the
following steps, which cannot pass fold points.
---
 russell_nonlin/src/solver_arclength.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 36b1d6d..5c38da5 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -698,6 +698,9 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
         // start the recording of iteration errors
         work.stats.record_iterations_residuals_start();
 
+        // normal operation (a rejected step may have left the targeting lambda mode on)
+        self.theta = 1.0;
+
         // predictor: λ₁ = λ₀ + (2 - θ) σ · dλds₀
         work.l = l + (2.0 - self.theta) * work.h * work.dlds;
 
-- 
2.43.0


From cea0e3adb6a5a6b6a9cd4addcadf2e0da91e1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:41 +0000
Subject: [PATCH 72/78] fix: restore the secondary state when the continuation
 gives up

The state updated by the last failed attempt was kept although the
unknowns and the parameter remain at the last accepted point.
---
 russell_nonlin/src/solver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index dd6915e..822793b 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -237,12 +237,14 @@ impl<'a, A> Solver<'a, A> {
                         self.work.n_continued_failure += 1;
                         self.work.follows_failure = true;
                     } else {
+                        self.actual.reject(&mut self.work, args);
                         break;
                     }
                 }
 
                 // handle continued failure
                 if self.work.n_continued_failure >= self.config.n_cont_failure_max {
+                    self.actual.reject(&mut self.work, args);
                     status = Status::ContinuedFailure;
                     break;
                 }
-- 
2.43.0


From 0f66384b5b0ce058375b3d8c9e43d83e8aea7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:10 +0000
Subject: [PATCH 73/78] fix: record the predictor before updating the secondary
 state

A failed update skipped the recording, but the rejection of the step
removes the last recorded predictor, and panics if there is none.
---
 russell_nonlin/src/solver_arclength.rs | 18 +++++++++---------
 russell_nonlin/src/solver_natural.rs   | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 5c38da5..a5f121b 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -735,15 +735,6 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
-        // predictor: update secondary variables (e.g., local state)
-        if let Some(f) = self.system.update_secondary_state.as_ref() {
-            let do_backup = true;
-            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
-            if status.failure() {
-                return Ok(status);
-            }
-        }
-
         // record the predictor for debugging
         if self.config.debug_predictor {
             if work.predictor_values_debug.is_none() {
@@ -757,6 +748,15 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
+        // predictor: update secondary variables (e.g., local state)
+        if let Some(f) = self.system.update_secondary_state.as_ref() {
+            let do_backup = true;
+            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+            if status.failure() {
+                return Ok(status);
+            }
+        }
+
         // iteration loop
         let mut status = Status::Success;
         work.n_iteration = 0;
diff --git a/russell_nonlin/src/solver_natural.rs b/russell_nonlin/src/solver_natural.rs
index 11c3819..3ea375a 100644
--- a/russell_nonlin/src/solver_natural.rs
+++ b/russell_nonlin/src/solver_natural.rs
@@ -286,15 +286,6 @@ impl<'a, A> SolverTrait<A> for SolverNatural<'a, A> {
             vec_copy(&mut work.u, &u).unwrap();
         }
 
-        // predictor: update secondary variables (e.g., local state)
-        if let Some(f) = self.system.update_secondary_state.as_ref() {
-            let do_backup = true;
-            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
-            if status.failure() {
-                return Ok(status);
-            }
-        }
-
         // record the predictor for debugging
         if self.config.debug_predictor {
             if work.predictor_values_debug.is_none() {
@@ -308,6 +299,15 @@ impl<'a, A> SolverTrait<A> for SolverNatural<'a, A> {
             }
         }
 
+        // predictor: update secondary variables (e.g., local state)
+        if let Some(f) = self.system.update_secondary_state.as_ref() {
+            let do_backup = true;
+            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+            if status.failure() {
+                return Ok(status);
+            }
+        }
+
         // iteration loop
         let mut status = Status::Success;
         work.n_iteration = 0;
-- 
2.43.0


From c2fe40df90fe6d100b69d020307291f7bd0d2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:56:58 +0000
Subject: [PATCH 74/78] fix: detect NaN residuals in the continuation
 iterations

The maximum of a NaN residual and the constraint was taken with f64::max,
which ignores NaN. The iterations were then considered converged.
---
 russell_nonlin/src/iteration_error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/russell_nonlin/src/iteration_error.rs b/russell_nonlin/src/iteration_error.rs
index bd190a5..6766705 100644
--- a/russell_nonlin/src/iteration_error.rs
+++ b/russell_nonlin/src/iteration_error.rs
@@ -131,7 +131,13 @@ impl IterationError {
     /// Returns true if NaN or Inf is found, false otherwise (success)
     pub fn analyze_residual(&mut self, iteration: usize, gg: &Vector, nn: f64) -> bool {
         // compute max norm
-        self.residual_max = f64::max(vec_norm(gg, Norm::Max), f64::abs(nn));
+        let gg_max = vec_norm(gg, Norm::Max);
+        let nn_abs = f64::abs(nn);
+        self.residual_max = if nn_abs > gg_max || nn_abs.is_nan() {
+            nn_abs
+        } else {
+            gg_max // may be NaN, which f64::max would hide
+        };
 
         // check for NaN or Inf
         if !self.residual_max.is_finite() {
-- 
2.43.0


From aed7f8b62194b88c7e9da7eed7aaa847f183fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:25 +0000
Subject: [PATCH 75/78] fix: do not hide failures behind the precise stop
 criterion

The status of a failed step was replaced by the request to approach the
stop value again. A termination or a non-finite residual was then lost.
---
 russell_nonlin/src/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 822793b..ddc101d 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -221,7 +221,7 @@ impl<'a, A> Solver<'a, A> {
                 status = self.actual.step(&mut self.work, u, *l, stop, args)?;
 
                 // redo the step if it violates the stop u-component criterion
-                if self.config.enable_precise_stop_u_comp {
+                if self.config.enable_precise_stop_u_comp && status.success() {
                     if let Some((i, u1i, is_min)) = stop.u_comp() {
                         if (is_min && self.work.u[i] < u1i - CONFIG_H_MIN)
                             || (!is_min && self.work.u[i] > u1i + CONFIG_H_MIN)
-- 
2.43.0


From 2df2be514c83de4557ebeb6ed26f2d42cc857e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:36 +0000
Subject: [PATCH 76/78] fix: check the Jacobian at the given parameter value

The numerical Jacobian was computed with a vanishing parameter.
---
 russell_nonlin/src/system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_nonlin/src/system.rs b/russell_nonlin/src/system.rs
index f21adc2..c925b57 100644
--- a/russell_nonlin/src/system.rs
+++ b/russell_nonlin/src/system.rs
@@ -262,7 +262,7 @@ impl<'a, A> System<'a, A> {
         (self.calc_jac)(&mut ggu, &mut ggl, l_at, &u_at, args).unwrap();
 
         // numerical Jacobian
-        let num = num_jacobian(self.ndim, 0.0, &u_at, 1.0, args, self.calc_gg.as_ref()).unwrap();
+        let num = num_jacobian(self.ndim, l_at, &u_at, 1.0, args, self.calc_gg.as_ref()).unwrap();
         let ana = ggu.as_dense();
 
         // check
-- 
2.43.0


From 7d150c8bd15911809ca61f603b77c0cbf15350d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:58:47 +0000
Subject: [PATCH 77/78] fix: reject step sizes and stop values that are not
 numbers

---
 russell_nonlin/src/delta_lambda.rs |  2 +-
 russell_nonlin/src/enums.rs        | 10 +++++-----
 russell_nonlin/src/solver.rs       |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/russell_nonlin/src/delta_lambda.rs b/russell_nonlin/src/delta_lambda.rs
index 37edd48..f683437 100644
--- a/russell_nonlin/src/delta_lambda.rs
+++ b/russell_nonlin/src/delta_lambda.rs
@@ -92,7 +92,7 @@ impl DeltaLambda {
             }
             Stop::Steps(..) => (),
         }
-        if ddl_ini <= CONFIG_H_MIN {
+        if !(ddl_ini > CONFIG_H_MIN) || self.ddl_ini.is_nan() {
             Err("requirement: ddl_ini > 1e-10")
         } else {
             Ok(ddl_ini)
diff --git a/russell_nonlin/src/enums.rs b/russell_nonlin/src/enums.rs
index 4f5d0b7..370f04a 100644
--- a/russell_nonlin/src/enums.rs
+++ b/russell_nonlin/src/enums.rs
@@ -123,7 +123,7 @@ impl Stop {
                 if *i >= u.dim() {
                     return Err("Stop enum error: MinCompU index is out of bounds");
                 }
-                if *u1 >= u[*i] {
+                if !(*u1 < u[*i]) {
                     return Err("Stop enum error: MinCompU value must be less than the initial u value");
                 }
             }
@@ -131,7 +131,7 @@ impl Stop {
                 if *i >= u.dim() {
                     return Err("Stop enum error: MaxCompU index is out of bounds");
                 }
-                if *u1 <= u[*i] {
+                if !(*u1 > u[*i]) {
                     return Err("Stop enum error: MaxCompU value must be greater than the initial u value");
                 }
             }
@@ -142,17 +142,17 @@ impl Stop {
                 if *end > u.dim() {
                     return Err("Stop enum error: MaxNormU: end must be ≤ u.dim");
                 }
-                if *norm_u1 <= 0.0 {
+                if !(*norm_u1 > 0.0) {
                     return Err("Stop enum error: MaxNormU value must be greater than 0.0");
                 }
             }
             Stop::MinLambda(l1) => {
-                if *l1 >= l {
+                if !(*l1 < l) {
                     return Err("Stop enum error: MinLambda value must be less than the initial lambda value");
                 }
             }
             Stop::MaxLambda(l1) => {
-                if *l1 <= l {
+                if !(*l1 > l) {
                     return Err("Stop enum error: MaxLambda value must be greater than the initial lambda value");
                 }
             }
diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index ddc101d..c495cc7 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -175,7 +175,7 @@ impl<'a, A> Solver<'a, A> {
                 // update the stepsize if a list is given
                 if i + 1 < ddl.list.len() {
                     let ddl_next = ddl.list[i + 1];
-                    if ddl_next <= CONFIG_H_MIN {
+                    if !(ddl_next > CONFIG_H_MIN) {
                         return Err("requirement: ddl > 1e-10");
                     }
                     self.work.h = match self.config.method {
-- 
2.43.0


From 0b57125099219a9f3ec89f2aed284ca2723943fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:00:05 +0000
Subject: [PATCH 78/78] fix: recognise uniform grids that are wide compared
 with their coordinates

The limit on the differences of the spacings ignored the rounding of the
offsets from the first coordinate.
---
 russell_pde/src/grid_1d.rs | 3 ++-
 russell_pde/src/grid_2d.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/russell_pde/src/grid_1d.rs b/russell_pde/src/grid_1d.rs
index 3308f63..e715be2 100644
--- a/russell_pde/src/grid_1d.rs
+++ b/russell_pde/src/grid_1d.rs
@@ -360,7 +360,8 @@ impl Grid1d {
     pub fn get_dx(&self) -> Option<f64> {
         let mut dx = f64::NEG_INFINITY;
         let x_max_abs = f64::max(f64::abs(self.coords[0]), f64::abs(self.coords[self.nx - 1]));
-        let tol = f64::max(10.0, 3.0 * x_max_abs) * f64::EPSILON; // rounding errors grow with the coordinates
+        let width = self.coords[self.nx - 1] - self.coords[0];
+        let tol = f64::max(10.0, 2.5 * x_max_abs + width) * f64::EPSILON; // rounding errors grow with the coordinates
         for i in 1..self.nx {
             let x = self.coords[i];
             let xl = self.coords[i - 1];
diff --git a/russell_pde/src/grid_2d.rs b/russell_pde/src/grid_2d.rs
index aa214f2..e474e29 100644
--- a/russell_pde/src/grid_2d.rs
+++ b/russell_pde/src/grid_2d.rs
@@ -661,8 +661,9 @@ impl Grid2d {
         let mut dy = f64::NEG_INFINITY;
         let x_max_abs = f64::max(f64::abs(self.xmin), f64::abs(self.xmax));
         let y_max_abs = f64::max(f64::abs(self.ymin), f64::abs(self.ymax));
-        let tol_x = f64::max(10.0, 3.0 * x_max_abs) * f64::EPSILON; // rounding errors grow with the coordinates
-        let tol_y = f64::max(10.0, 3.0 * y_max_abs) * f64::EPSILON;
+        let (wx, wy) = (self.xmax - self.xmin, self.ymax - self.ymin);
+        let tol_x = f64::max(10.0, 2.5 * x_max_abs + wx) * f64::EPSILON; // rounding errors grow with the coordinates
+        let tol_y = f64::max(10.0, 2.5 * y_max_abs + wy) * f64::EPSILON;
         for j in 1..self.ny {
             for i in 1..self.nx {
                 let m = i + j * self.nx; // this node
-- 
2.43.0

