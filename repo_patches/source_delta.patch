From d52bd84000c20e745de5796ffe136645a8bafe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:38 +0000
Subject: [PATCH 01/13] fix: accept lookup tables that use every usable row

---
 halo2_proofs/src/dev.rs          | 3 ++-
 halo2_proofs/src/plonk/keygen.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index 067ffd2..d342c15 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -455,7 +455,8 @@ impl<F: Field> Assignment<F> for MockProver<F> {
         from_row: usize,
         to: circuit::Value<Assigned<F>>,
     ) -> Result<(), Error> {
-        if !self.usable_rows.contains(&from_row) {
+        // A table may use every usable row, in which case there is nothing left to fill.
+        if from_row > self.usable_rows.end {
             return Err(Error::not_enough_rows_available(self.k));
         }
 
diff --git a/halo2_proofs/src/plonk/keygen.rs b/halo2_proofs/src/plonk/keygen.rs
index bb26d5a..0a226e6 100644
--- a/halo2_proofs/src/plonk/keygen.rs
+++ b/halo2_proofs/src/plonk/keygen.rs
@@ -155,7 +155,8 @@ impl<F: Field> Assignment<F> for Assembly<F> {
         from_row: usize,
         to: Value<Assigned<F>>,
     ) -> Result<(), Error> {
-        if !self.usable_rows.contains(&from_row) {
+        // A table may use every usable row, in which case there is nothing left to fill.
+        if from_row > self.usable_rows.end {
             return Err(Error::not_enough_rows_available(self.k));
         }
 
-- 
2.43.0


From ab2b46dd7a28a9de82423e5bc6c5e979df4d3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:42 +0000
Subject: [PATCH 02/13] fix: do not count lookup and permutation point sets for
 circuits without them in CircuitCost

---
 halo2_proofs/src/dev/cost.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/dev/cost.rs b/halo2_proofs/src/dev/cost.rs
index 0c3c7ef..fd8d9c2 100644
--- a/halo2_proofs/src/dev/cost.rs
+++ b/halo2_proofs/src/dev/cost.rs
@@ -301,15 +301,23 @@ impl<G: PrimeGroup, ConcreteCircuit: Circuit<G::Scalar>> CircuitCost<G, Concrete
             point_sets.insert(query_set);
         }
 
+        // Include the polynomials that every proof opens at `x` (the random polynomial and
+        // the quotient) in point sets.
+        point_sets.insert(vec![0]);
+
         // Include lookup polynomials in point sets:
-        point_sets.insert(vec![0, 1]); // product_poly
-        point_sets.insert(vec![-1, 0]); // permuted_input_poly
-        point_sets.insert(vec![0]); // permuted_table_poly
+        if !cs.lookups.is_empty() {
+            point_sets.insert(vec![0, 1]); // product_poly
+            point_sets.insert(vec![-1, 0]); // permuted_input_poly
+            point_sets.insert(vec![0]); // permuted_table_poly
+        }
 
         // Include permutation polynomials in point sets.
-        point_sets.insert(vec![0, 1]); // permutation_product_poly
         let max_deg = cs.degree();
         let permutation_cols = cs.permutation.get_columns().len();
+        if permutation_cols > 0 {
+            point_sets.insert(vec![0, 1]); // permutation_product_poly
+        }
         if permutation_cols > max_deg - 2 {
             // permutation_product_poly for chaining chunks.
             point_sets.insert(vec![-((cs.blinding_factors() + 1) as i32), 0, 1]);
-- 
2.43.0


From 62774ca7f2115806bcdf316cb44921c51b21392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 03/13] fix: accept repeated multiopen queries with equal
 evaluations

---
 halo2_proofs/src/poly/multiopen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/halo2_proofs/src/poly/multiopen.rs b/halo2_proofs/src/poly/multiopen.rs
index 2422c86..a703fa7 100644
--- a/halo2_proofs/src/poly/multiopen.rs
+++ b/halo2_proofs/src/poly/multiopen.rs
@@ -154,6 +154,7 @@ fn construct_intermediate_sets<F: Field + Ord, I, Q: Query<F>>(
 ) -> Option<IntermediateSets<F, Q>>
 where
     I: IntoIterator<Item = Q> + Clone,
+    Q::Eval: PartialEq,
 {
     // Construct sets of unique commitments and corresponding information about
     // their queries.
@@ -242,7 +243,7 @@ where
             .expect("valid index");
         if eval.is_none() {
             *eval = Some(query.get_eval());
-        } else {
+        } else if *eval != Some(query.get_eval()) {
             // Caller tried to provide two different evaluations for the same
             // commitment. Permitting this would be unsound.
             return None;
-- 
2.43.0


From 3a891671ea63d2523f18549d0f6d289c3f21453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 04/13] fix: do not panic in MockProver::verify on poisoned
 cells or regions without cells

---
 halo2_proofs/src/dev.rs         | 5 ++++-
 halo2_proofs/src/dev/failure.rs | 2 +-
 halo2_proofs/src/dev/util.rs    | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index d342c15..538cc19 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -629,8 +629,11 @@ impl<F: Field + Ord> MockProver<F> {
                                                 region: (r_i, r.name.clone()).into(),
                                                 gate_offset: *selector_row,
                                                 column: cell.column,
+                                                // A region without assigned cells has
+                                                // no known start.
                                                 offset: cell_row as isize
-                                                    - r.rows.unwrap().0 as isize,
+                                                    - r.rows.map_or(*selector_row, |rows| rows.0)
+                                                        as isize,
                                             })
                                         }
                                     }
diff --git a/halo2_proofs/src/dev/failure.rs b/halo2_proofs/src/dev/failure.rs
index c6c5aec..282d4ad 100644
--- a/halo2_proofs/src/dev/failure.rs
+++ b/halo2_proofs/src/dev/failure.rs
@@ -441,7 +441,7 @@ fn render_lookup<F: Field>(
                 ((column_type, column_index).into(), rotation.0).into(),
                 match load(query) {
                     Value::Real(v) => util::format_value(v),
-                    Value::Poison => unreachable!(),
+                    Value::Poison => "poisoned".to_string(),
                 },
             ))
             .into_iter()
diff --git a/halo2_proofs/src/dev/util.rs b/halo2_proofs/src/dev/util.rs
index ee3b7cb..e4e431a 100644
--- a/halo2_proofs/src/dev/util.rs
+++ b/halo2_proofs/src/dev/util.rs
@@ -123,7 +123,7 @@ fn cell_value<'a, F: Field, Q: Into<AnyQuery> + Copy>(
                     cell.clone().into(),
                     match load(query) {
                         Value::Real(v) => format_value(v),
-                        Value::Poison => unreachable!(),
+                        Value::Poison => "poisoned".to_string(),
                     },
                 )
             })
-- 
2.43.0


From 7b5a4bd4fd6354b7da3dd648b87f637f4bac5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 05/13] fix: refuse encoded parameters with an invalid size

---
 halo2_proofs/src/poly/commitment.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/halo2_proofs/src/poly/commitment.rs b/halo2_proofs/src/poly/commitment.rs
index e223614..c676619 100644
--- a/halo2_proofs/src/poly/commitment.rs
+++ b/halo2_proofs/src/poly/commitment.rs
@@ -186,6 +186,14 @@ impl<C: CurveAffine> Params<C> {
         reader.read_exact(&mut k[..])?;
         let k = u32::from_le_bytes(k);
 
+        // The same bound as in `Params::new`.
+        if k >= 32 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "invalid size in parameters",
+            ));
+        }
+
         let n: u64 = 1 << k;
 
         let g: Vec<_> = (0..n).map(|_| C::read(reader)).collect::<Result<_, _>>()?;
-- 
2.43.0


From b360c4bef550213274da89979843856461eb4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 06/13] fix: evaluate fixed cell values during proving so that
 they can be copied

---
 halo2_proofs/src/plonk/prover.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/plonk/prover.rs b/halo2_proofs/src/plonk/prover.rs
index e54f212..a745528 100644
--- a/halo2_proofs/src/plonk/prover.rs
+++ b/halo2_proofs/src/plonk/prover.rs
@@ -219,7 +219,7 @@ pub fn create_proof<
                     _: A,
                     _: Column<Fixed>,
                     _: usize,
-                    _: V,
+                    to: V,
                 ) -> Result<(), Error>
                 where
                     V: FnOnce() -> Value<VR>,
@@ -227,7 +227,9 @@ pub fn create_proof<
                     A: FnOnce() -> AR,
                     AR: Into<String>,
                 {
-                    // We only care about advice columns here
+                    // We only care about advice columns here, but the circuit may copy this
+                    // cell's value into an advice cell, so it needs to be evaluated.
+                    let _ = to();
 
                     Ok(())
                 }
-- 
2.43.0


From cb5ef6891a8c43df9878212d02a8764046881035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:16 +0000
Subject: [PATCH 07/13] fix: initialize the SHA-256 state before a block
 completed by a later update

Sha256::update compressed the first block of every call directly from the
stored state. After a block had been compressed by an earlier call that
state is a compression output, without the decomposition that the next
compression needs, and the call panicked.
---
 halo2_gadgets/src/sha256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/halo2_gadgets/src/sha256.rs b/halo2_gadgets/src/sha256.rs
index 3e4cdaf..acf1998 100644
--- a/halo2_gadgets/src/sha256.rs
+++ b/halo2_gadgets/src/sha256.rs
@@ -88,6 +88,8 @@ impl<F: Field, Sha256Chip: Sha256Instructions<F>> Sha256<F, Sha256Chip> {
         mut layouter: impl Layouter<F>,
         mut data: &[Sha256Chip::BlockWord],
     ) -> Result<(), Error> {
+        // Whether a previous call has already compressed a block.
+        let continuing = self.length >= BLOCK_SIZE * 32;
         self.length += data.len() * 32;
 
         // Fill the current block, if possible.
@@ -102,6 +104,9 @@ impl<F: Field, Sha256Chip: Sha256Instructions<F>> Sha256<F, Sha256Chip> {
         }
 
         // Process the now-full current block.
+        if continuing {
+            self.state = self.chip.initialization(&mut layouter, &self.state)?;
+        }
         self.state = self.chip.compress(
             &mut layouter,
             &self.state,
-- 
2.43.0


From 43ddac601c5d801e24f81177a0c785768d393893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:51 +0000
Subject: [PATCH 08/13] fix: pad incomplete SHA-256 blocks with known zero
 words

The padding of Sha256::finalize comes from the Default of the block word,
which for Table16 was an unknown value, so no message whose length is not a
multiple of the block size could be proven (Error::Synthesis).
---
 halo2_gadgets/src/sha256/table16.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/halo2_gadgets/src/sha256/table16.rs b/halo2_gadgets/src/sha256/table16.rs
index 9e56c78..970d8f2 100644
--- a/halo2_gadgets/src/sha256/table16.rs
+++ b/halo2_gadgets/src/sha256/table16.rs
@@ -46,11 +46,18 @@ const IV: [u32; STATE] = [
     0x5be0_cd19,
 ];
 
-#[derive(Clone, Copy, Debug, Default)]
+#[derive(Clone, Copy, Debug)]
 /// A word in a `Table16` message block.
 // TODO: Make the internals of this struct private.
 pub struct BlockWord(pub Value<u32>);
 
+impl Default for BlockWord {
+    /// The zero word, with which an incomplete final block is padded.
+    fn default() -> Self {
+        BlockWord(Value::known(0))
+    }
+}
+
 #[derive(Clone, Debug)]
 /// Little-endian bits (up to 64 bits)
 pub struct Bits<const LEN: usize>([bool; LEN]);
-- 
2.43.0


From 6e48b4b3a7b38bbc930a00d7e74e9ad8e15f649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 09/13] fix: link SHA-256 message schedule words to the words
 computed for them

The word constrained by s_word and the word whose halves and pieces are used in
later schedule steps and in the rounds were assigned separately, without a copy
constraint: W_16 to W_63 could be chosen freely.
---
 .../src/sha256/table16/message_schedule/subregion2.rs          | 3 ++-
 .../src/sha256/table16/message_schedule/subregion3.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs b/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
index 0480d04..cdc3fb7 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
@@ -251,7 +251,7 @@ impl MessageScheduleConfig {
             ]);
 
             // Assign W_i, carry_i
-            region.assign_advice(
+            let w_new = region.assign_advice(
                 || format!("W_{}", new_word_idx),
                 a_5,
                 get_word_row(new_word_idx - 16) + 1,
@@ -264,6 +264,7 @@ impl MessageScheduleConfig {
                 || carry.map(pallas::Base::from),
             )?;
             let (word, halves) = self.assign_word_and_halves(region, word, new_word_idx)?;
+            region.constrain_equal(w_new.cell(), word.cell())?;
             w.push(MessageWord(word));
             w_halves.push(halves);
 
diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs b/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
index ddb36eb..64b0850 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
@@ -167,7 +167,7 @@ impl MessageScheduleConfig {
             ]);
 
             // Assign W_i, carry_i
-            region.assign_advice(
+            let w_new = region.assign_advice(
                 || format!("W_{}", new_word_idx),
                 a_5,
                 get_word_row(new_word_idx - 16) + 1,
@@ -180,6 +180,7 @@ impl MessageScheduleConfig {
                 || carry.map(pallas::Base::from),
             )?;
             let (word, halves) = self.assign_word_and_halves(region, word, new_word_idx)?;
+            region.constrain_equal(w_new.cell(), word.cell())?;
             w.push(MessageWord(word));
             w_halves.push(halves);
 
-- 
2.43.0


From 85c17f9a45e35a3571340edb1f4341f065f98b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 10/13] fix: link SHA-256 state words across the last round and
 across blocks

The outputs of the last round and the input state of a following block were
assigned again without copy constraints.
---
 .../src/sha256/table16/compression.rs         | 12 +++++-
 .../table16/compression/subregion_initial.rs  | 40 +++++++++++--------
 .../table16/compression/subregion_main.rs     |  2 +
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/compression.rs b/halo2_gadgets/src/sha256/table16/compression.rs
index 528b1d9..6e535a4 100644
--- a/halo2_gadgets/src/sha256/table16/compression.rs
+++ b/halo2_gadgets/src/sha256/table16/compression.rs
@@ -4,7 +4,7 @@ use super::{
     AssignedBits, BlockWord, SpreadInputs, SpreadVar, Table16Assignment, ROUNDS, STATE,
 };
 use halo2_proofs::{
-    circuit::{Layouter, Value},
+    circuit::{Layouter, Region, Value},
     pasta::pallas,
     plonk::{Advice, Column, ConstraintSystem, Error, Selector},
     poly::Rotation,
@@ -272,6 +272,16 @@ impl RoundWordDense {
             .zip(self.1.value_u16())
             .map(|(lo, hi)| lo as u32 + (1 << 16) * hi as u32)
     }
+
+    /// Constrains the halves of two words to be equal.
+    fn constrain_equal(
+        &self,
+        region: &mut Region<'_, pallas::Base>,
+        other: &Self,
+    ) -> Result<(), Error> {
+        region.constrain_equal(self.0.cell(), other.0.cell())?;
+        region.constrain_equal(self.1.cell(), other.1.cell())
+    }
 }
 
 #[derive(Clone, Debug)]
diff --git a/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs b/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
index 56e7dc6..30ac0c7 100644
--- a/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
@@ -61,34 +61,42 @@ impl CompressionConfig {
         let (a, b, c, d, e, f, g, h) = match_state(state);
 
         // Decompose E into (6, 5, 14, 7)-bit chunks
-        let e = e.dense_halves.value();
-        let e = self.decompose_e(region, RoundIdx::Init, e)?;
+        let prev = e.dense_halves;
+        let e = self.decompose_e(region, RoundIdx::Init, prev.value())?;
+        e.dense_halves.constrain_equal(region, &prev)?;
 
         // Decompose F, G
-        let f = f.dense_halves.value();
-        let f = self.decompose_f(region, InitialRound, f)?;
-        let g = g.dense_halves.value();
-        let g = self.decompose_g(region, InitialRound, g)?;
+        let prev = f.dense_halves;
+        let f = self.decompose_f(region, InitialRound, prev.value())?;
+        f.dense_halves.constrain_equal(region, &prev)?;
+        let prev = g.dense_halves;
+        let g = self.decompose_g(region, InitialRound, prev.value())?;
+        g.dense_halves.constrain_equal(region, &prev)?;
 
         // Assign H
-        let h = h.value();
+        let prev = h;
         let h_row = get_h_row(RoundIdx::Init);
-        let h = self.assign_word_halves_dense(region, h_row, a_7, h_row + 1, a_7, h)?;
+        let h = self.assign_word_halves_dense(region, h_row, a_7, h_row + 1, a_7, prev.value())?;
+        h.constrain_equal(region, &prev)?;
 
         // Decompose A into (2, 11, 9, 10)-bit chunks
-        let a = a.dense_halves.value();
-        let a = self.decompose_a(region, RoundIdx::Init, a)?;
+        let prev = a.dense_halves;
+        let a = self.decompose_a(region, RoundIdx::Init, prev.value())?;
+        a.dense_halves.constrain_equal(region, &prev)?;
 
         // Decompose B, C
-        let b = b.dense_halves.value();
-        let b = self.decompose_b(region, InitialRound, b)?;
-        let c = c.dense_halves.value();
-        let c = self.decompose_c(region, InitialRound, c)?;
+        let prev = b.dense_halves;
+        let b = self.decompose_b(region, InitialRound, prev.value())?;
+        b.dense_halves.constrain_equal(region, &prev)?;
+        let prev = c.dense_halves;
+        let c = self.decompose_c(region, InitialRound, prev.value())?;
+        c.dense_halves.constrain_equal(region, &prev)?;
 
         // Assign D
-        let d = d.value();
+        let prev = d;
         let d_row = get_d_row(RoundIdx::Init);
-        let d = self.assign_word_halves_dense(region, d_row, a_7, d_row + 1, a_7, d)?;
+        let d = self.assign_word_halves_dense(region, d_row, a_7, d_row + 1, a_7, prev.value())?;
+        d.constrain_equal(region, &prev)?;
 
         Ok(State::new(
             StateWord::A(a),
diff --git a/halo2_gadgets/src/sha256/table16/compression/subregion_main.rs b/halo2_gadgets/src/sha256/table16/compression/subregion_main.rs
index 2a0f433..f6c1093 100644
--- a/halo2_gadgets/src/sha256/table16/compression/subregion_main.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/subregion_main.rs
@@ -107,9 +107,11 @@ impl CompressionConfig {
 
             let a_final =
                 self.assign_word_halves_dense(region, abcd_row, a_3, abcd_row, a_4, a_new_val)?;
+            a_final.constrain_equal(region, &a_new_dense)?;
 
             let e_final =
                 self.assign_word_halves_dense(region, efgh_row, a_3, efgh_row, a_4, e_new_val)?;
+            e_final.constrain_equal(region, &e_new_dense)?;
 
             Ok(State::new(
                 StateWord::A(RoundWordA::new_dense(a_final)),
-- 
2.43.0


From b84b11c213c410007770870f6b86f57548c258e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 11/13] fix: range check the carries of the SHA-256 rounds

With an arbitrary field element as carry, the sums of a round were satisfied by
any new state word.
---
 .../table16/compression/compression_gates.rs  | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs b/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
index dada6bb..43c8dc9 100644
--- a/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
@@ -351,16 +351,21 @@ impl<F: PrimeField> CompressionGate<F> {
         k_hi: Expression<F>,
         w_lo: Expression<F>,
         w_hi: Expression<F>,
-    ) -> Option<(&'static str, Expression<F>)> {
+    ) -> impl IntoIterator<Item = Constraint<F>> {
         let lo = h_lo + ch_lo + ch_neg_lo + sigma_e_lo + k_lo + w_lo;
         let hi = h_hi + ch_hi + ch_neg_hi + sigma_e_hi + k_hi + w_hi;
 
         let sum = lo + hi * F::from(1 << 16);
         let h_prime = h_prime_lo + h_prime_hi * F::from(1 << 16);
 
-        let check = sum - (h_prime_carry * F::from(1 << 32)) - h_prime;
+        let check = sum - (h_prime_carry.clone() * F::from(1 << 32)) - h_prime;
+
+        let carry_check = Gate::range_check(h_prime_carry, 0, 5);
 
-        Some(("s_h_prime", s_h_prime * check))
+        Constraints::with_selector(
+            s_h_prime,
+            [("s_h_prime", check), ("carry_check", carry_check)],
+        )
     }
 
     // s_a_new to get A_new = H' + Maj(A, B, C) + s_upper_sigma_0(A)
@@ -376,15 +381,17 @@ impl<F: PrimeField> CompressionGate<F> {
         maj_abc_hi: Expression<F>,
         h_prime_lo: Expression<F>,
         h_prime_hi: Expression<F>,
-    ) -> Option<(&'static str, Expression<F>)> {
+    ) -> impl IntoIterator<Item = Constraint<F>> {
         let lo = sigma_a_lo + maj_abc_lo + h_prime_lo;
         let hi = sigma_a_hi + maj_abc_hi + h_prime_hi;
         let sum = lo + hi * F::from(1 << 16);
         let a_new = a_new_lo + a_new_hi * F::from(1 << 16);
 
-        let check = sum - (a_new_carry * F::from(1 << 32)) - a_new;
+        let check = sum - (a_new_carry.clone() * F::from(1 << 32)) - a_new;
+
+        let carry_check = Gate::range_check(a_new_carry, 0, 2);
 
-        Some(("s_a_new", s_a_new * check))
+        Constraints::with_selector(s_a_new, [("s_a_new", check), ("carry_check", carry_check)])
     }
 
     // s_e_new to get E_new = H' + D
@@ -398,15 +405,17 @@ impl<F: PrimeField> CompressionGate<F> {
         d_hi: Expression<F>,
         h_prime_lo: Expression<F>,
         h_prime_hi: Expression<F>,
-    ) -> Option<(&'static str, Expression<F>)> {
+    ) -> impl IntoIterator<Item = Constraint<F>> {
         let lo = h_prime_lo + d_lo;
         let hi = h_prime_hi + d_hi;
         let sum = lo + hi * F::from(1 << 16);
         let e_new = e_new_lo + e_new_hi * F::from(1 << 16);
 
-        let check = sum - (e_new_carry * F::from(1 << 32)) - e_new;
+        let check = sum - (e_new_carry.clone() * F::from(1 << 32)) - e_new;
+
+        let carry_check = Gate::range_check(e_new_carry, 0, 1);
 
-        Some(("s_e_new", s_e_new * check))
+        Constraints::with_selector(s_e_new, [("s_e_new", check), ("carry_check", carry_check)])
     }
 
     // s_digest on final round
-- 
2.43.0


From 4c46b0dbb1ba9e001f157fca7ed42238b504b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 12/13] fix: constrain the SHA-256 initial state and round
 constants to fixed cells

Both were only witnessed.
---
 halo2_gadgets/src/sha256/table16.rs               |  4 ++++
 halo2_gadgets/src/sha256/table16/compression.rs   | 10 ++++++++++
 .../table16/compression/compression_util.rs       | 13 +++++++++++--
 .../table16/compression/subregion_initial.rs      | 15 +++++++++++++++
 4 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16.rs b/halo2_gadgets/src/sha256/table16.rs
index 970d8f2..869472d 100644
--- a/halo2_gadgets/src/sha256/table16.rs
+++ b/halo2_gadgets/src/sha256/table16.rs
@@ -311,6 +311,10 @@ impl Table16Chip {
             meta.enable_equality(*column);
         }
 
+        // The initial state and the round constants are constrained to fixed cells.
+        let constants = meta.fixed_column();
+        meta.enable_constant(constants);
+
         let compression =
             CompressionConfig::configure(meta, lookup_inputs.clone(), message_schedule, extras);
 
diff --git a/halo2_gadgets/src/sha256/table16/compression.rs b/halo2_gadgets/src/sha256/table16/compression.rs
index 6e535a4..dab308a 100644
--- a/halo2_gadgets/src/sha256/table16/compression.rs
+++ b/halo2_gadgets/src/sha256/table16/compression.rs
@@ -273,6 +273,16 @@ impl RoundWordDense {
             .map(|(lo, hi)| lo as u32 + (1 << 16) * hi as u32)
     }
 
+    /// Constrains the halves of this word to be those of a constant.
+    fn constrain_constant(
+        &self,
+        region: &mut Region<'_, pallas::Base>,
+        word: u32,
+    ) -> Result<(), Error> {
+        region.constrain_constant(self.0.cell(), pallas::Base::from(u64::from(word & 0xffff)))?;
+        region.constrain_constant(self.1.cell(), pallas::Base::from(u64::from(word >> 16)))
+    }
+
     /// Constrains the halves of two words to be equal.
     fn constrain_equal(
         &self,
diff --git a/halo2_gadgets/src/sha256/table16/compression/compression_util.rs b/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
index 75f6e0b..3cb9e17 100644
--- a/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
@@ -746,12 +746,21 @@ impl CompressionConfig {
         sigma_1.1.copy_advice(|| "sigma_1_hi", region, a_5, row)?;
 
         // Assign k
+        let k_word = k;
         let k: [bool; 32] = i2lebsp(k.into());
         let k_lo: [bool; 16] = k[..16].try_into().unwrap();
         let k_hi: [bool; 16] = k[16..].try_into().unwrap();
         {
-            AssignedBits::<16>::assign_bits(region, || "k_lo", a_6, row - 1, Value::known(k_lo))?;
-            AssignedBits::<16>::assign_bits(region, || "k_hi", a_6, row, Value::known(k_hi))?;
+            let k_lo_cell = AssignedBits::<16>::assign_bits(
+                region,
+                || "k_lo",
+                a_6,
+                row - 1,
+                Value::known(k_lo),
+            )?;
+            let k_hi_cell =
+                AssignedBits::<16>::assign_bits(region, || "k_hi", a_6, row, Value::known(k_hi))?;
+            RoundWordDense::from((k_lo_cell, k_hi_cell)).constrain_constant(region, k_word)?;
         }
 
         // Assign and copy w
diff --git a/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs b/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
index 30ac0c7..bec1556 100644
--- a/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
@@ -39,6 +39,21 @@ impl CompressionConfig {
         let d =
             self.assign_word_halves_dense(region, d_row, a_7, d_row + 1, a_7, Value::known(iv[3]))?;
 
+        // Constrain the state to the constants
+        let dense_halves = [
+            &a.dense_halves,
+            &b.dense_halves,
+            &c.dense_halves,
+            &d,
+            &e.dense_halves,
+            &f.dense_halves,
+            &g.dense_halves,
+            &h,
+        ];
+        for (halves, word) in dense_halves.iter().zip(iv.iter()) {
+            halves.constrain_constant(region, *word)?;
+        }
+
         Ok(State::new(
             StateWord::A(a),
             StateWord::B(b),
-- 
2.43.0


From a2b5b5903fb9102c39f3d81d5b1411df3e46e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:11 +0000
Subject: [PATCH 13/13] fix: range check the one-bit pieces of SHA-256 schedule
 words

The two one-bit pieces of W_14 to W_48 are their own spread form, and nothing
kept a prover from using larger values: the sigma outputs of the word could be
changed.
---
 .../src/sha256/table16/message_schedule/schedule_gates.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/schedule_gates.rs b/halo2_gadgets/src/sha256/table16/message_schedule/schedule_gates.rs
index c088205..f20a822 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/schedule_gates.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/schedule_gates.rs
@@ -95,15 +95,19 @@ impl<F: PrimeField> ScheduleGate<F> {
             + b * F::from(1 << 3)
             + c * F::from(1 << 7)
             + d * F::from(1 << 10)
-            + e * F::from(1 << 17)
-            + f * F::from(1 << 18)
+            + e.clone() * F::from(1 << 17)
+            + f.clone() * F::from(1 << 18)
             + g * F::from(1 << 19)
             + word * (-F::ONE);
         let range_check_tag_d = Gate::range_check(tag_d, 0, 0);
+        let range_check_e = Gate::range_check(e, 0, 1);
+        let range_check_f = Gate::range_check(f, 0, 1);
         let range_check_tag_g = Gate::range_check(tag_g, 0, 3);
 
         [
             ("decompose_check", decompose_check),
+            ("range_check_e", range_check_e),
+            ("range_check_f", range_check_f),
             ("range_check_tag_g", range_check_tag_g),
             ("range_check_tag_d", range_check_tag_d),
         ]
-- 
2.43.0

