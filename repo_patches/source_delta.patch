From fb0814c6543bdedf3138cdd5b100a3dfaa759667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 1/8] fix: matrix sums and products check the length of every
 row, not only the first

---
 src/data_structures.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index 18b47fb..8ff98cd 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -589,7 +589,7 @@ macro_rules! impl_base_commit_mats {
 
                 fn add(&self, other: &Self) -> Self {
                     assert_eq!(self.len(), other.len());
-                    assert_eq!(self[0].len(), other[0].len());
+                    assert!(self.iter().chain(other).all(|row| row.len() == self[0].len()));
                     let m = self.len();
                     let n = self[0].len();
                     let mut add = Vec::with_capacity(m);
@@ -651,7 +651,8 @@ macro_rules! impl_base_commit_mats {
                     }
 
                     // Check that every row in a and column in b has the same length
-                    assert_eq!(self[0].len(), rhs.len());
+                    assert!(self.iter().all(|row| row.len() == rhs.len()));
+                    assert!(rhs.iter().all(|row| row.len() == rhs[0].len()));
                     let row_dim = self.len();
 
                     if is_parallel {
@@ -702,7 +703,8 @@ macro_rules! impl_base_commit_mats {
                     }
 
                     // Check that every row in a and column in b has the same length
-                    assert_eq!(lhs[0].len(), self.len());
+                    assert!(lhs.iter().all(|row| row.len() == self.len()));
+                    assert!(self.iter().all(|row| row.len() == self[0].len()));
                     let row_dim = lhs.len();
 
                     if is_parallel {
@@ -770,7 +772,7 @@ impl<F: Field> Mat<F> for Matrix<F> {
 
     fn add(&self, other: &Self) -> Self {
         assert_eq!(self.len(), other.len());
-        assert_eq!(self[0].len(), other[0].len());
+        assert!(self.iter().chain(other).all(|row| row.len() == self[0].len()));
         let m = self.len();
         let n = self[0].len();
         let mut add = Vec::with_capacity(m);
@@ -830,7 +832,8 @@ impl<F: Field> Mat<F> for Matrix<F> {
         }
 
         // Check that every row in a and column in b has the same length
-        assert_eq!(self[0].len(), rhs.len());
+        assert!(self.iter().all(|row| row.len() == rhs.len()));
+        assert!(rhs.iter().all(|row| row.len() == rhs[0].len()));
         let row_dim = self.len();
 
         if is_parallel {
@@ -877,7 +880,8 @@ impl<F: Field> Mat<F> for Matrix<F> {
         }
 
         // Check that every row in a and column in b has the same length
-        assert_eq!(lhs[0].len(), self.len());
+        assert!(lhs.iter().all(|row| row.len() == self.len()));
+        assert!(self.iter().all(|row| row.len() == self[0].len()));
         let row_dim = lhs.len();
 
         if is_parallel {
-- 
2.43.0


From ecdfb9b5a51d2cafead23460826faf0cd6642fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 2/8] fix: verify refuses surplus proof elements in
 multi-scalar and quadratic equations

---
 src/verifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index a56a39f..7df96fa 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -58,6 +58,7 @@ impl<E: Pairing> Verifiable<E> for MSMEG1<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -92,6 +93,7 @@ impl<E: Pairing> Verifiable<E> for MSMEG2<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -126,6 +128,8 @@ impl<E: Pairing> Verifiable<E> for QuadEqu<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
+        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
-- 
2.43.0


From a70907520e803774c9ae888a29bf02ada0bcea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 3/8] fix: prove refuses commitment lists whose openings are of
 another length

---
 src/prover/prove.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/prover/prove.rs b/src/prover/prove.rs
index 15a3a0b..df99d7d 100644
--- a/src/prover/prove.rs
+++ b/src/prover/prove.rs
@@ -104,11 +104,13 @@ impl<E: Pairing> Provable<E, E::G1Affine, E::G2Affine, PairingOutput<E>> for PPE
         // Gamma is an (m x n) matrix with m x variables and n y variables
         // x's commit randomness (i.e. R) is a (m x 2) matrix
         assert_eq!(xvars.len(), xcoms.rand.len());
+        assert_eq!(xcoms.coms.len(), xcoms.rand.len());
         assert_eq!(self.gamma.len(), xcoms.rand.len());
         assert_eq!(xcoms.rand[0].len(), 2);
         let _m = xvars.len();
         // y's commit randomness (i.e. S) is a (n x 2) matrix
         assert_eq!(yvars.len(), ycoms.rand.len());
+        assert_eq!(ycoms.coms.len(), ycoms.rand.len());
         assert_eq!(self.gamma[0].len(), ycoms.rand.len());
         assert_eq!(ycoms.rand[0].len(), 2);
         let _n = yvars.len();
@@ -207,11 +209,13 @@ impl<E: Pairing> Provable<E, E::G1Affine, E::ScalarField, E::G1Affine> for MSMEG
         // Gamma is an (m x n') matrix with m x variables and n' scalar y variables
         // x's commit randomness (i.e. R) is a (m x 2) matrix
         assert_eq!(xvars.len(), xcoms.rand.len());
+        assert_eq!(xcoms.coms.len(), xcoms.rand.len());
         assert_eq!(self.gamma.len(), xcoms.rand.len());
         assert_eq!(xcoms.rand[0].len(), 2);
         let _m = xvars.len();
         // scalar y's commit randomness (i.e. s) is a (n' x 1) matrix (i.e. column vector)
         assert_eq!(scalar_yvars.len(), scalar_ycoms.rand.len());
+        assert_eq!(scalar_ycoms.coms.len(), scalar_ycoms.rand.len());
         assert_eq!(self.gamma[0].len(), scalar_ycoms.rand.len());
         assert_eq!(scalar_ycoms.rand[0].len(), 1);
         let _n_prime = scalar_yvars.len();
@@ -310,11 +314,13 @@ impl<E: Pairing> Provable<E, E::ScalarField, E::G2Affine, E::G2Affine> for MSMEG
         // Gamma is an (m' x n) matrix with m' x variables and n y variables
         // x's commit randomness (i.e. r) is a (m' x 1) matrix (i.e. column vector)
         assert_eq!(scalar_xvars.len(), scalar_xcoms.rand.len());
+        assert_eq!(scalar_xcoms.coms.len(), scalar_xcoms.rand.len());
         assert_eq!(self.gamma.len(), scalar_xcoms.rand.len());
         assert_eq!(scalar_xcoms.rand[0].len(), 1);
         let _m_prime = scalar_xvars.len();
         // y's commit randomness (i.e. S) is a (n x 2) matrix
         assert_eq!(yvars.len(), ycoms.rand.len());
+        assert_eq!(ycoms.coms.len(), ycoms.rand.len());
         assert_eq!(self.gamma[0].len(), ycoms.rand.len());
         assert_eq!(ycoms.rand[0].len(), 2);
         let _n = yvars.len();
@@ -421,11 +427,13 @@ impl<E: Pairing> Provable<E, E::ScalarField, E::ScalarField, E::ScalarField> for
         // Gamma is an (m' x n') matrix with m' x variables and n' y variables
         // x's commit randomness (i.e. r) is a (m' x 1) matrix (i.e. column vector)
         assert_eq!(scalar_xvars.len(), scalar_xcoms.rand.len());
+        assert_eq!(scalar_xcoms.coms.len(), scalar_xcoms.rand.len());
         assert_eq!(self.gamma.len(), scalar_xcoms.rand.len());
         assert_eq!(scalar_xcoms.rand[0].len(), 1);
         let _m_prime = scalar_xvars.len();
         // y's commit randomness (i.e. s) is a (n' x 1) matrix (i.e. column vector)
         assert_eq!(scalar_yvars.len(), scalar_ycoms.rand.len());
+        assert_eq!(scalar_ycoms.coms.len(), scalar_ycoms.rand.len());
         assert_eq!(self.gamma[0].len(), scalar_ycoms.rand.len());
         assert_eq!(scalar_ycoms.rand[0].len(), 1);
         let _n_prime = scalar_yvars.len();
-- 
2.43.0


From 7e6ac409f754307b6073b23f604a80958c7b5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:48 +0000
Subject: [PATCH 4/8] fix: verify refuses coefficient matrices whose number of
 rows is not that of the left commitments

With nothing committed on the left side, a coefficient matrix holding an empty row was
taken for one without rows, and the bundle was accepted.
---
 src/verifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index 7df96fa..615d4a2 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -24,6 +24,7 @@ impl<E: Pairing> Verifiable<E> for PPE<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(self.gamma.len(), com_proof.xcoms.coms.len());
         let is_parallel = true;
 
         let lin_a_com_y = ComT::<E>::pairing_sum(
@@ -58,6 +59,7 @@ impl<E: Pairing> Verifiable<E> for MSMEG1<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(self.gamma.len(), com_proof.xcoms.coms.len());
         assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
         let is_parallel = true;
 
@@ -93,6 +95,7 @@ impl<E: Pairing> Verifiable<E> for MSMEG2<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(self.gamma.len(), com_proof.xcoms.coms.len());
         assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
         let is_parallel = true;
 
@@ -128,6 +131,7 @@ impl<E: Pairing> Verifiable<E> for QuadEqu<E> {
     fn verify(&self, com_proof: &CProof<E>, crs: &CRS<E>) -> bool {
         assert_eq!(com_proof.equ_proofs.len(), 1);
         assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
+        assert_eq!(self.gamma.len(), com_proof.xcoms.coms.len());
         assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
         assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
         let is_parallel = true;
-- 
2.43.0


From 94761dd008e2292b0d02d39294b75d9e9809344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:48 +0000
Subject: [PATCH 5/8] fix: matrix products check the dimensions of factors
 without columns too

The early return for empty factors came before the checks, so that a product of factors
that do not match returned an empty matrix instead of being refused.
---
 src/data_structures.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index 8ff98cd..e5ac909 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -643,16 +643,15 @@ macro_rules! impl_base_commit_mats {
                 }
 
                 fn right_mul(&self, rhs: &Matrix<Self::Other>, is_parallel: bool) -> Self {
+                    // Check that every row in a and column in b has the same length
+                    assert!(self.iter().all(|row| row.len() == rhs.len()));
+                    assert!(rhs.iter().all(|row| row.len() == rhs[0].len()));
                     if self.is_empty() || self[0].is_empty() {
                         return vec![];
                     }
                     if rhs.is_empty() || rhs[0].is_empty() {
                         return vec![];
                     }
-
-                    // Check that every row in a and column in b has the same length
-                    assert!(self.iter().all(|row| row.len() == rhs.len()));
-                    assert!(rhs.iter().all(|row| row.len() == rhs[0].len()));
                     let row_dim = self.len();
 
                     if is_parallel {
@@ -695,16 +694,15 @@ macro_rules! impl_base_commit_mats {
                 }
 
                 fn left_mul(&self, lhs: &Matrix<Self::Other>, is_parallel: bool) -> Self {
+                    // Check that every row in a and column in b has the same length
+                    assert!(lhs.iter().all(|row| row.len() == self.len()));
+                    assert!(self.iter().all(|row| row.len() == self[0].len()));
                     if lhs.is_empty() || lhs[0].is_empty() {
                         return vec![];
                     }
                     if self.is_empty() || self[0].is_empty() {
                         return vec![];
                     }
-
-                    // Check that every row in a and column in b has the same length
-                    assert!(lhs.iter().all(|row| row.len() == self.len()));
-                    assert!(self.iter().all(|row| row.len() == self[0].len()));
                     let row_dim = lhs.len();
 
                     if is_parallel {
@@ -824,16 +822,15 @@ impl<F: Field> Mat<F> for Matrix<F> {
     }
 
     fn right_mul(&self, rhs: &Matrix<Self::Other>, is_parallel: bool) -> Self {
+        // Check that every row in a and column in b has the same length
+        assert!(self.iter().all(|row| row.len() == rhs.len()));
+        assert!(rhs.iter().all(|row| row.len() == rhs[0].len()));
         if self.is_empty() || self[0].is_empty() {
             return vec![];
         }
         if rhs.is_empty() || rhs[0].is_empty() {
             return vec![];
         }
-
-        // Check that every row in a and column in b has the same length
-        assert!(self.iter().all(|row| row.len() == rhs.len()));
-        assert!(rhs.iter().all(|row| row.len() == rhs[0].len()));
         let row_dim = self.len();
 
         if is_parallel {
@@ -872,16 +869,15 @@ impl<F: Field> Mat<F> for Matrix<F> {
     }
 
     fn left_mul(&self, lhs: &Matrix<Self::Other>, is_parallel: bool) -> Self {
+        // Check that every row in a and column in b has the same length
+        assert!(lhs.iter().all(|row| row.len() == self.len()));
+        assert!(self.iter().all(|row| row.len() == self[0].len()));
         if lhs.is_empty() || lhs[0].is_empty() {
             return vec![];
         }
         if self.is_empty() || self[0].is_empty() {
             return vec![];
         }
-
-        // Check that every row in a and column in b has the same length
-        assert!(lhs.iter().all(|row| row.len() == self.len()));
-        assert!(self.iter().all(|row| row.len() == self[0].len()));
         let row_dim = lhs.len();
 
         if is_parallel {
-- 
2.43.0


From d533d2c893438c091b78df7b3e18010f96d90086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:50 +0000
Subject: [PATCH 6/8] fix: sums, multiples and transposes of matrices without
 rows are empty, not a panic

Committing to an empty batch panicked for this reason
---
 src/data_structures.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index e5ac909..17b0fb6 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -591,7 +591,7 @@ macro_rules! impl_base_commit_mats {
                     assert_eq!(self.len(), other.len());
                     assert!(self.iter().chain(other).all(|row| row.len() == self[0].len()));
                     let m = self.len();
-                    let n = self[0].len();
+                    let n = self.first().map_or(0, |row| row.len());
                     let mut add = Vec::with_capacity(m);
                     for i in 0..m {
                         add.push(Vec::with_capacity(n));
@@ -616,7 +616,7 @@ macro_rules! impl_base_commit_mats {
 
                 fn scalar_mul(&self, other: &Self::Other) -> Self {
                     let m = self.len();
-                    let n = self[0].len();
+                    let n = self.first().map_or(0, |row| row.len());
                     let mut smul: Matrix<$com<E>> = Vec::with_capacity(m);
                     for i in 0..m {
                         smul.push(Vec::with_capacity(n));
@@ -628,8 +628,9 @@ macro_rules! impl_base_commit_mats {
                 }
 
                 fn transpose(&self) -> Self {
-                    let mut trans = Vec::with_capacity(self[0].len());
-                    for _ in 0..self[0].len() {
+                    let n = self.first().map_or(0, |row| row.len());
+                    let mut trans = Vec::with_capacity(n);
+                    for _ in 0..n {
                         trans.push(Vec::with_capacity(self.len()));
                     }
 
@@ -772,7 +773,7 @@ impl<F: Field> Mat<F> for Matrix<F> {
         assert_eq!(self.len(), other.len());
         assert!(self.iter().chain(other).all(|row| row.len() == self[0].len()));
         let m = self.len();
-        let n = self[0].len();
+        let n = self.first().map_or(0, |row| row.len());
         let mut add = Vec::with_capacity(m);
         for i in 0..m {
             add.push(Vec::with_capacity(n));
@@ -795,7 +796,7 @@ impl<F: Field> Mat<F> for Matrix<F> {
 
     fn scalar_mul(&self, other: &Self::Other) -> Self {
         let m = self.len();
-        let n = self[0].len();
+        let n = self.first().map_or(0, |row| row.len());
         let mut smul: Matrix<F> = Vec::with_capacity(m);
         for i in 0..m {
             smul.push(Vec::with_capacity(n));
@@ -807,8 +808,9 @@ impl<F: Field> Mat<F> for Matrix<F> {
     }
 
     fn transpose(&self) -> Self {
-        let mut trans = Vec::with_capacity(self[0].len());
-        for _ in 0..self[0].len() {
+        let n = self.first().map_or(0, |row| row.len());
+        let mut trans = Vec::with_capacity(n);
+        for _ in 0..n {
             trans.push(Vec::with_capacity(self.len()));
         }
 
-- 
2.43.0


From bbf7e845f034315adf13986710a293229ec58d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:05 +0000
Subject: [PATCH 7/8] fix: scaling and transposing a matrix check the length of
 every row

---
 src/data_structures.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index 17b0fb6..3e5afe5 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -617,6 +617,7 @@ macro_rules! impl_base_commit_mats {
                 fn scalar_mul(&self, other: &Self::Other) -> Self {
                     let m = self.len();
                     let n = self.first().map_or(0, |row| row.len());
+                    assert!(self.iter().all(|row| row.len() == n));
                     let mut smul: Matrix<$com<E>> = Vec::with_capacity(m);
                     for i in 0..m {
                         smul.push(Vec::with_capacity(n));
@@ -629,6 +630,7 @@ macro_rules! impl_base_commit_mats {
 
                 fn transpose(&self) -> Self {
                     let n = self.first().map_or(0, |row| row.len());
+                    assert!(self.iter().all(|row| row.len() == n));
                     let mut trans = Vec::with_capacity(n);
                     for _ in 0..n {
                         trans.push(Vec::with_capacity(self.len()));
@@ -797,6 +799,7 @@ impl<F: Field> Mat<F> for Matrix<F> {
     fn scalar_mul(&self, other: &Self::Other) -> Self {
         let m = self.len();
         let n = self.first().map_or(0, |row| row.len());
+        assert!(self.iter().all(|row| row.len() == n));
         let mut smul: Matrix<F> = Vec::with_capacity(m);
         for i in 0..m {
             smul.push(Vec::with_capacity(n));
@@ -809,6 +812,7 @@ impl<F: Field> Mat<F> for Matrix<F> {
 
     fn transpose(&self) -> Self {
         let n = self.first().map_or(0, |row| row.len());
+        assert!(self.iter().all(|row| row.len() == n));
         let mut trans = Vec::with_capacity(n);
         for _ in 0..n {
             trans.push(Vec::with_capacity(self.len()));
-- 
2.43.0


From a80341b9772eec881e4bcbdb7516d2f1dc8a76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:05 +0000
Subject: [PATCH 8/8] fix: col_vec_to_vec refuses matrices of several columns
 instead of dropping entries

---
 src/data_structures.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index 3e5afe5..de3c7eb 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -146,7 +146,12 @@ pub fn col_vec_to_vec<F: Clone>(mat: &Matrix<F>) -> Vec<F> {
     if mat.len() == 1 {
         mat[0].clone()
     } else {
-        mat.iter().map(|v| v[0].clone()).collect()
+        mat.iter()
+            .map(|v| {
+                assert_eq!(v.len(), 1);
+                v[0].clone()
+            })
+            .collect()
     }
 }
 
-- 
2.43.0

