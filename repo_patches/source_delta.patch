From 529d90023bf90cca53a4a0be22d3f927ccd8236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:33 +0000
Subject: [PATCH 1/3] fix: Poseidon2 S-box of degree 11, accepted by the
 constructor, panicked

---
 src/poseidon2/poseidon2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/poseidon2/poseidon2.rs b/src/poseidon2/poseidon2.rs
index d8eb478..6c24903 100644
--- a/src/poseidon2/poseidon2.rs
+++ b/src/poseidon2/poseidon2.rs
@@ -79,6 +79,14 @@ impl<F: PrimeField> Poseidon2<F> {
                 out.mul_assign(input);
                 out
             }
+            11 => {
+                let mut out = input2;
+                out.square_in_place();
+                out.square_in_place();
+                out.mul_assign(&input2);
+                out.mul_assign(input);
+                out
+            }
             _ => {
                 panic!()
             }
-- 
2.43.0


From cfe515d508d014204614402a8014bb60eb16c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:02 +0000
Subject: [PATCH 2/3] fix: mat_inverse panicked on invertible matrices that
 need a row exchange

---
 src/utils.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8e8a39a..2081e3b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,36 +19,38 @@ pub fn mat_inverse<F: PrimeField>(mat: &[Vec<F>]) -> Vec<Vec<F>> {
 
     // upper triangle
     for row in 0..n {
-        for j in 0..row {
-            // subtract from these rows
-            let el = m[row][j];
-            for col in 0..n {
-                // do subtraction for each col
-                if col < j {
-                    m[row][col] = F::zero();
-                } else {
-                    let mut tmp = m[j][col];
-                    tmp.mul_assign(&el);
-                    m[row][col].sub_assign(&tmp);
-                }
-                if col > row {
-                    inv[row][col] = F::zero();
-                } else {
+        // take the first row at or below this one that has a pivot left
+        for pivot in row..n {
+            m.swap(row, pivot);
+            inv.swap(row, pivot);
+            for j in 0..row {
+                // subtract from these rows
+                let el = m[row][j];
+                for col in 0..n {
+                    // do subtraction for each col
+                    if col < j {
+                        m[row][col] = F::zero();
+                    } else {
+                        let mut tmp = m[j][col];
+                        tmp.mul_assign(&el);
+                        m[row][col].sub_assign(&tmp);
+                    }
                     let mut tmp = inv[j][col];
                     tmp.mul_assign(&el);
                     inv[row][col].sub_assign(&tmp);
                 }
             }
+            if !m[row][row].is_zero() {
+                break;
+            }
         }
         // make 1 in diag
         let el_inv = m[row][row].inverse().unwrap();
         for col in 0..n {
+            inv[row][col].mul_assign(&el_inv);
             match col.cmp(&row) {
-                std::cmp::Ordering::Less => inv[row][col].mul_assign(&el_inv),
-                std::cmp::Ordering::Equal => {
-                    m[row][col] = F::one();
-                    inv[row][col].mul_assign(&el_inv)
-                }
+                std::cmp::Ordering::Less => (),
+                std::cmp::Ordering::Equal => m[row][col] = F::one(),
                 std::cmp::Ordering::Greater => m[row][col].mul_assign(&el_inv),
             }
         }
-- 
2.43.0


From 476e1cea705821ae52a45f643e724280e6c7a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:20 +0000
Subject: [PATCH 3/3] fix: Neptune BN256 and Vesta instances had one internal
 round fewer than the documented formula gives

---
 src/neptune/neptune_instances.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neptune/neptune_instances.rs b/src/neptune/neptune_instances.rs
index 97cd35b..41b7594 100644
--- a/src/neptune/neptune_instances.rs
+++ b/src/neptune/neptune_instances.rs
@@ -10,7 +10,7 @@ lazy_static! {
     // Number of partial rounds:
     // ceil(1.125 * ceil(log_d(2) * (min(kappa, log_2(p)) - 6) + 3 + t + log_d(t)))
     // BN256
-    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_BN_PARAMS: Arc<NeptuneParams<FpBN256>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     // BLS12
     pub static ref NEPTUNE_BLS_4_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_BLS_8_PARAMS: Arc<NeptuneParams<FpBLS12>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
@@ -26,5 +26,5 @@ lazy_static! {
     pub static ref NEPTUNE_PALLAS_4_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
     pub static ref NEPTUNE_PALLAS_8_PARAMS: Arc<NeptuneParams<FpPallas>> = Arc::new(NeptuneParams::new(8, 5, 6, 74));
     // Vesta
-    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 68));
+    pub static ref NEPTUNE_VESTA_PARAMS: Arc<NeptuneParams<FpVesta>> = Arc::new(NeptuneParams::new(4, 5, 6, 69));
 }
\ No newline at end of file
-- 
2.43.0

