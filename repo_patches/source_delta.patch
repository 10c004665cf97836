From 938b852dd773a2aa46981e5261c8c2d914ea3ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 01/10] fix: do not require the calling thread to belong to a
 rayon pool

A parallel iterator of one element runs on the calling thread, which has no
worker index outside a pool, so process_multi with one query, process_batch on
one row and level_count = 1 panicked there.
---
 src/oram.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 690a34b..6ce3042 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -249,7 +249,7 @@ fn process_one_mt(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let f = |level: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one() << shift;
@@ -268,7 +268,7 @@ fn process_one_mt(
     assert_eq!(decomposed_l.len(), cols);
 
     let g = |j: usize| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let l = decomposed_rlwe_to_rgsw(
             &decomposed_l[j],
             neg_s,
@@ -310,7 +310,7 @@ fn update_db_mt(
     ctx: &Context,
 ) {
     let g = |j: usize, l: &RGSWCiphertext| {
-        let tid = rayon::current_thread_index().unwrap();
+        let tid = rayon::current_thread_index().unwrap_or(0);
         let tmp: RLWECiphertext = rw(
             &query.op,
             &query.data,
@@ -348,7 +348,7 @@ fn process_one_st(
     ctx: &Context,
 ) -> (RLWECiphertext, Vec<RGSWCiphertext>) {
     let mut demux_res: Vec<Vec<RLWECiphertext>> = vec![];
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     for level in 1..=ctx.level_count.0 {
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
@@ -391,7 +391,7 @@ fn update_db_st(
     buf: &FftBufferPool,
     ctx: &Context,
 ) {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     let cols = data.read().unwrap().len();
     for j in 0..cols {
         // update the database at index j
@@ -470,7 +470,7 @@ impl Server {
 
         // sum the output of rw*t in parallel (over multiple queries)
         let tmps = queries.into_par_iter().zip(&ls).map(|(query, l)| {
-            let tid = rayon::current_thread_index().unwrap();
+            let tid = rayon::current_thread_index().unwrap_or(0);
             let mut out = vec![RLWECiphertext::allocate(self.ctx.poly_size); cols];
             for j in 0..cols {
                 let tmp = rw(
@@ -524,7 +524,7 @@ impl Server {
             .collect::<Vec<usize>>()
             .into_par_iter()
             .for_each(|j| {
-                let tid = rayon::current_thread_index().unwrap();
+                let tid = rayon::current_thread_index().unwrap_or(0);
                 let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
                 sumed_ls[j].cmux_with_buf(
                     &mut new_data,
@@ -631,7 +631,7 @@ fn correct_consistency(
     ctx: &Context,
     buf: &FftBufferPool,
 ) -> RLWECiphertext {
-    let tid = rayon::current_thread_index().unwrap();
+    let tid = rayon::current_thread_index().unwrap_or(0);
     let first_r = positions[0].0;
     let first_c = positions[0].1;
     let v1s: Vec<RLWECiphertext> = positions
-- 
2.43.0


From fe1aad61536944de08352206aea56f7c13494853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 02/10] fix: keep items addressed by several queries of one
 process_multi request

With k > 1 queries on the same item the final cmux computed
x + k (sum - x) instead of (1 - k) x + sum and corrupted the item.
---
 src/oram.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oram.rs b/src/oram.rs
index 6ce3042..051610e 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -525,13 +525,17 @@ impl Server {
             .into_par_iter()
             .for_each(|j| {
                 let tid = rayon::current_thread_index().unwrap_or(0);
-                let mut new_data = RLWECiphertext::allocate(self.ctx.poly_size);
-                sumed_ls[j].cmux_with_buf(
-                    &mut new_data,
+                // data - (\sum L) * data + \sum (L * t), the sum of the selectors may exceed one
+                // when several queries address the same item
+                let mut selected = RLWECiphertext::allocate(self.ctx.poly_size);
+                sumed_ls[j].external_product_with_buf(
+                    &mut selected,
                     &self.data[0].clone().read().unwrap()[j],
-                    &sumed_tmps[j],
                     &mut buf.pool[tid].clone().lock().unwrap(),
                 );
+                let mut new_data = self.data[0].clone().read().unwrap()[j].clone();
+                new_data.update_with_sub(&selected);
+                new_data.update_with_add(&sumed_tmps[j]);
                 self.data[0].clone().write().unwrap()[j].fill_with_copy(&new_data);
             });
 
-- 
2.43.0


From 367e6939b872e21caf017493c71f32520224a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 03/10] fix: refuse a mapping that cannot place every item

The check sat inside the loop where h >= h_count never holds, so an item all
of whose rows were taken was dropped silently.
---
 src/naive_hash.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/naive_hash.rs b/src/naive_hash.rs
index 1fb1441..b2fb929 100644
--- a/src/naive_hash.rs
+++ b/src/naive_hash.rs
@@ -73,16 +73,16 @@ impl NaiveHash {
         // TODO this is just a greedy algorithm, can be improved
         let mut out: HashMap<usize, (usize, usize)> = HashMap::new();
         for i in is {
+            let mut placed = false;
             for h in 0..self.h_count() {
                 let (r, c) = self.hash_to_tuple(h, *i, d);
                 if let Entry::Vacant(e) = out.entry(r) {
                     e.insert((c, *i));
+                    placed = true;
                     break;
                 }
-                if h >= self.h_count() {
-                    panic!("all slots are taken for i={}", i);
-                }
             }
+            assert!(placed, "all slots are taken for i={}", i);
         }
         out
     }
-- 
2.43.0


From 4fc2fbc9946f3386c8d781d1f7d711fd98b149f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 04/10] fix: use the ciphertext's own decomposition in
 encrypt_rgsw

neg_gsw allocates with negs_base_log, but the rows were scaled with
ctx.base_log, so any parameter set where they differ gave wrong results.
---
 src/rlwe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 8295b77..2bcd4a5 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -450,9 +450,10 @@ impl RLWESecretKey {
         // first create a constant encryption of 0, then add the decomposed encoded value to it
         self.encrypt_constant_rgsw(out, &Plaintext(Scalar::zero()), ctx);
         let mut buf = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
+        let base_log = out.decomposition_base_log();
         for (i, mut m) in out.0.as_mut_glwe_list().ciphertext_iter_mut().enumerate() {
             let level = (i / 2) + 1;
-            let shift: usize = (Scalar::BITS as usize) - ctx.base_log.0 * level;
+            let shift: usize = (Scalar::BITS as usize) - base_log.0 * level;
             buf.as_mut_tensor().fill_with_copy(encoded.as_tensor());
             mul_const(buf.as_mut_tensor(), 1 << shift);
             if i % 2 == 0 {
-- 
2.43.0


From 3f545f7d86c585328b84877777b9052d4aa6ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 05/10] verification hook: read-only accessors behind
 cfg(panacea_verif)

---
 src/oram.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/oram.rs b/src/oram.rs
index 051610e..710678a 100644
--- a/src/oram.rs
+++ b/src/oram.rs
@@ -690,6 +690,29 @@ fn correct_consistency(
     second_term
 }
 
+/// Read-only observation points for the verification harness.
+#[cfg(panacea_verif)]
+pub mod verif {
+    use super::*;
+
+    impl ClientQuery {
+        /// The encrypted index bits, the encrypted operation flag and the encrypted data.
+        pub fn verif_parts(&self) -> (&[RGSWCiphertext], &RGSWCiphertext, &RLWECiphertext) {
+            (&self.a, &self.op.0, &self.data)
+        }
+    }
+
+    impl Server {
+        /// A copy of the stored cells.
+        pub fn verif_cells(&self) -> Vec<Vec<RLWECiphertext>> {
+            self.data
+                .iter()
+                .map(|row| row.read().unwrap().clone())
+                .collect()
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 168794c0b0cd34b582e6680698b812bcc68dfa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 06/10] fix: multiply the body instead of clearing it in
 update_body_with_mul

---
 src/rlwe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 2bcd4a5..a5c8f37 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -148,7 +148,11 @@ impl RLWECiphertext {
             .as_mut_tensor()
             .fill_with_copy(self.get_body().as_tensor());
         self.get_mut_body().as_mut_tensor().fill_with(Scalar::zero);
-        naive_update_with_mul(&mut self.get_mut_body().as_mut_polynomial(), other);
+        naive_update_with_mul_acc(
+            &mut self.get_mut_body().as_mut_polynomial(),
+            &poly_buffer.as_mut_view(),
+            other,
+        );
     }
 
     pub fn update_body_with_mul_with_buf(&mut self, other: &Polynomial<&[Scalar]>) {
-- 
2.43.0


From 4d5dabf04f2023ef180396300cd0ce47e8b22162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 07/10] fix: encode the reference plaintext in
 compute_noise_ternary

---
 src/rlwe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index a5c8f37..3a04c58 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1294,7 +1294,7 @@ where
 {
     let mut tmp = PlaintextList::allocate(Scalar::zero(), ptxt.count());
     tmp.as_mut_tensor().fill_with_copy(ptxt.as_tensor());
-    Codec::poly_ternary_decode(&mut tmp.as_mut_polynomial());
+    Codec::poly_ternary_encode(&mut tmp.as_mut_polynomial());
     compute_noise(sk, ct, &tmp)
 }
 
-- 
2.43.0


From 12cd98ba528eaafcdf61bad7a8b050af80f14060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 08/10] fix: accept an error of half the modulus in
 compute_noise

---
 src/rlwe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rlwe.rs b/src/rlwe.rs
index 3a04c58..de32bd9 100644
--- a/src/rlwe.rs
+++ b/src/rlwe.rs
@@ -1273,10 +1273,10 @@ where
     pt.as_mut_polynomial()
         .update_with_wrapping_sub(&encoded_ptxt.as_polynomial());
 
-    let mut max_e: SignedScalar = 0;
+    let mut max_e: Scalar = 0;
     for x in pt.as_tensor().iter() {
         // convert x to signed
-        let z = (*x as SignedScalar).abs();
+        let z = (*x as SignedScalar).unsigned_abs();
         if z > max_e {
             max_e = z;
         }
-- 
2.43.0


From 11a1ec8692072219aacd138e257c3cf01089c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 09/10] fix: compute the exact bit length of the largest leaf
 label

---
 src/decision_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index ee3bd66..43f2754 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -375,7 +375,7 @@ impl EncNode {
 
     /// Evaluate the tree.
     pub fn eval(&self, ctx: &Context, buf: &mut FftBuffer) -> Vec<RLWECiphertext> {
-        let max_leaf_bits = ((self.max_leaf() + 1) as f64).log2().ceil() as usize;
+        let max_leaf_bits = (usize::BITS - self.max_leaf().leading_zeros()) as usize;
         let mut out = vec![RLWECiphertext::allocate(ctx.poly_size); max_leaf_bits];
         let mut c = RLWECiphertext::allocate(ctx.poly_size);
         *c.get_mut_body().as_mut_tensor().first_mut() = Scalar::one();
-- 
2.43.0


From 3f4ea18af6e67299747a803d08cd6d90b66f7a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 10/10] fix: return zero for a tree without a non-zero leaf

---
 src/decision_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decision_tree.rs b/src/decision_tree.rs
index 43f2754..d4b68e8 100644
--- a/src/decision_tree.rs
+++ b/src/decision_tree.rs
@@ -622,6 +622,10 @@ impl Display for SimulationResult {
 }
 
 fn decrypt_and_recompose(sk: &RLWESecretKey, cts: &Vec<RLWECiphertext>, ctx: &Context) -> Scalar {
+    if cts.is_empty() {
+        // every leaf is zero
+        return Scalar::zero();
+    }
     let mut bv: BitVec<Scalar, Lsb0> = BitVec::new();
     let mut pt = PlaintextList::allocate(Scalar::zero(), ctx.plaintext_count());
     for ct in cts {
-- 
2.43.0

