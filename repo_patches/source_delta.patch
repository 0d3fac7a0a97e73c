From ba60f8150626b1ae9f08248636b892f2ed7658c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:05 +0000
Subject: [PATCH 01/36] fix: sampling a single byte from HasherChallenger no
 longer panics at a digest boundary

---
 crates/core/src/fiat_shamir/hasher_challenger.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/core/src/fiat_shamir/hasher_challenger.rs b/crates/core/src/fiat_shamir/hasher_challenger.rs
index 811fc54..0774832 100644
--- a/crates/core/src/fiat_shamir/hasher_challenger.rs
+++ b/crates/core/src/fiat_shamir/hasher_challenger.rs
@@ -156,6 +156,18 @@ where
 		&self.buffer[self.index..]
 	}
 
+	// The output buffer is refilled lazily, so `chunk` may be empty here although more bytes are
+	// available. The default single-byte getters index into `chunk` directly and would panic.
+	fn get_u8(&mut self) -> u8 {
+		let mut byte = [0];
+		self.copy_to_slice(&mut byte);
+		byte[0]
+	}
+
+	fn get_i8(&mut self) -> i8 {
+		self.get_u8() as i8
+	}
+
 	fn advance(&mut self, mut cnt: usize) {
 		// Must handle the case when `cnt` is 0
 		if self.index == <H as Digest>::output_size() {
-- 
2.43.0


From 430a0b3525c46017286a57eba3a0490d755d3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:05 +0000
Subject: [PATCH 02/36] fix: BinaryMerkleTreeScheme::proof_size counts every
 branch digest and no longer underflows at leaf depth

---
 crates/core/src/merkle_tree/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/merkle_tree/scheme.rs b/crates/core/src/merkle_tree/scheme.rs
index cbd04c1..c1f1fc3 100644
--- a/crates/core/src/merkle_tree/scheme.rs
+++ b/crates/core/src/merkle_tree/scheme.rs
@@ -60,7 +60,7 @@ where
 			bail!(Error::IncorrectLayerDepth)
 		}
 
-		Ok(((log_len - layer_depth - 1) * n_queries + (1 << layer_depth))
+		Ok(((log_len - layer_depth) * n_queries + (1 << layer_depth))
 			* <H as Digest>::output_size())
 	}
 
-- 
2.43.0


From 78ca2a2c3441c20061e0614c9e4bcf552b0689ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:05 +0000
Subject: [PATCH 03/36] fix: parallel multi-digest no longer panics on a
 partial last batch of messages

---
 crates/hash/src/multi_digest.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/hash/src/multi_digest.rs b/crates/hash/src/multi_digest.rs
index b37726f..5cabbd8 100644
--- a/crates/hash/src/multi_digest.rs
+++ b/crates/hash/src/multi_digest.rs
@@ -123,11 +123,14 @@ impl<D: MultiDigest<N, Digest: Send> + Send + Sync, const N: usize> ParallelDige
 			buffers,
 			|buffers, (data, out_chunk)| {
 				let mut hasher = self.0.clone();
+				let n_messages = data.len();
 				for (buf, chunk) in buffers.iter_mut().zip(data.into_iter()) {
 					buf.clear();
 					chunk.serialize(buf);
 				}
-				let data = array::from_fn(|i| buffers[i].as_ref());
+				// The last chunk may have less than `N` messages. All lanes must be fed the same
+				// number of bytes, so the unused lanes repeat the last message.
+				let data = array::from_fn(|i| buffers[i.min(n_messages - 1)].as_ref());
 				hasher.update(data);
 
 				if out_chunk.len() == N {
-- 
2.43.0


From d7a4f824e14aad4358671b58092fca246fcb21ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:06 +0000
Subject: [PATCH 04/36] fix: zerocheck prover no longer panics on linear
 constraints over zero-variate columns

A constraint set whose constraints are all linear and whose table holds a
single value needs an evaluation domain of size one, for which the NTT
cannot be constructed.
---
 crates/core/src/protocols/sumcheck/prove/univariate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/univariate.rs b/crates/core/src/protocols/sumcheck/prove/univariate.rs
index 656fc59..5bb41cc 100644
--- a/crates/core/src/protocols/sumcheck/prove/univariate.rs
+++ b/crates/core/src/protocols/sumcheck/prove/univariate.rs
@@ -280,8 +280,9 @@ where
 		bail!(MathError::DomainSizeTooLarge);
 	}
 
-	// Only a domain size NTT is needed.
-	let fdomain_ntt = SingleThreadedNTT::<FDomain>::with_canonical_field(min_domain_bits)
+	// Only a domain size NTT is needed. The NTT requires a domain of at least two points, even when
+	// there is nothing to extrapolate (linear compositions over zero-variate multilinears).
+	let fdomain_ntt = SingleThreadedNTT::<FDomain>::with_canonical_field(min_domain_bits.max(1))
 		.expect("FDomain cardinality checked before")
 		.precompute_twiddles();
 
-- 
2.43.0


From e4931daacadb8bc46bb4b2667d42044cab93f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:51 +0000
Subject: [PATCH 05/36] fix: eq-ind sumcheck prover handles a challenge
 coordinate equal to one

The prover recovered the round polynomial's value at zero by dividing by
1 - alpha. Evaluating a composite virtual polynomial through a projection
onto a hypercube coordinate equal to one makes alpha exactly one, and the
verifier then rejected the honest proof.
---
 .../src/protocols/sumcheck/prove/eq_ind.rs    | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
index 0f6f363..052caa6 100644
--- a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
+++ b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
@@ -562,6 +562,7 @@ where
 					composition,
 					composition_at_infinity,
 					have_first_round_eval_1s,
+					alpha,
 					eq_ind_challenges,
 					eq_ind_partial_evals,
 					const_eval_suffix,
@@ -651,6 +652,7 @@ where
 	composition: &'a Composition,
 	composition_at_infinity: ArithCircuitPoly<P::Scalar>,
 	have_first_round_eval_1s: bool,
+	alpha: P::Scalar,
 	eq_ind_challenges: &'a [P::Scalar],
 	eq_ind_partial_evals: &'a [P],
 	const_eval_suffix: &'a ConstEvalSuffix<P::Scalar>,
@@ -662,8 +664,15 @@ where
 	Composition: CompositionPoly<P>,
 {
 	fn eval_point_indices(&self) -> Range<usize> {
-		// Do not evaluate r(1) in first round when its value is known
-		let start_index = if self.have_first_round_eval_1s { 2 } else { 1 };
+		let start_index = if self.alpha == P::Scalar::ONE {
+			// The round sum determines only r'(1) when α is one, so r'(0) has to be evaluated.
+			0
+		} else if self.have_first_round_eval_1s {
+			// Do not evaluate r(1) in first round when its value is known
+			2
+		} else {
+			1
+		};
 		start_index..self.composition.degree() + 1
 	}
 
@@ -755,15 +764,18 @@ where
 		last_round_sum: F,
 		mut round_evals: Vec<F>,
 	) -> Result<Vec<F>, PolynomialError> {
-		if let Some(first_round_eval_1) = self.first_round_eval_1 {
-			round_evals.insert(0, first_round_eval_1);
-		}
+		// When α is one, the evaluators provide both r'(0) and r'(1).
+		if self.alpha != F::ONE {
+			if let Some(first_round_eval_1) = self.first_round_eval_1 {
+				round_evals.insert(0, first_round_eval_1);
+			}
 
-		let one_evaluation = round_evals[0];
-		let zero_evaluation_numerator = last_round_sum - one_evaluation * self.alpha;
-		let zero_evaluation_denominator_inv = (F::ONE - self.alpha).invert_or_zero();
-		let zero_evaluation = zero_evaluation_numerator * zero_evaluation_denominator_inv;
-		round_evals.insert(0, zero_evaluation);
+			let one_evaluation = round_evals[0];
+			let zero_evaluation_numerator = last_round_sum - one_evaluation * self.alpha;
+			let zero_evaluation_denominator_inv = (F::ONE - self.alpha).invert_or_zero();
+			let zero_evaluation = zero_evaluation_numerator * zero_evaluation_denominator_inv;
+			round_evals.insert(0, zero_evaluation);
+		}
 
 		if round_evals.len() > 3 {
 			// SumcheckRoundCalculator orders interpolation points as 0, 1, "infinity", then
-- 
2.43.0


From b4e45ccaa4414816d762618e8ba8829217b0d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:17 +0000
Subject: [PATCH 06/36] fix: TowerBasis multilinear extension supports fewer
 basis elements than the packing width

---
 crates/core/src/transparent/tower_basis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/transparent/tower_basis.rs b/crates/core/src/transparent/tower_basis.rs
index 8228fc3..22633f7 100644
--- a/crates/core/src/transparent/tower_basis.rs
+++ b/crates/core/src/transparent/tower_basis.rs
@@ -54,11 +54,11 @@ impl<F: TowerField> TowerBasis<F> {
 	pub fn multilinear_extension<P: PackedField<Scalar = F>>(
 		&self,
 	) -> Result<MultilinearExtension<P>, Error> {
-		let n_values = (1 << self.k) / P::WIDTH;
-		let values = (0..n_values)
+		let size = 1usize << self.k;
+		let values = (0..size.div_ceil(P::WIDTH))
 			.map(|i| {
 				let mut packed_value = P::default();
-				for j in 0..P::WIDTH {
+				for j in 0..P::WIDTH.min(size) {
 					let basis_idx = i * P::WIDTH + j;
 					let value = TowerField::basis(self.iota, basis_idx)?;
 					packed_value.set(j, value);
@@ -67,7 +67,7 @@ impl<F: TowerField> TowerBasis<F> {
 			})
 			.collect::<Result<Vec<_>, Error>>()?;
 
-		Ok(MultilinearExtension::from_values(values)?)
+		Ok(MultilinearExtension::new(self.k, values)?)
 	}
 }
 
-- 
2.43.0


From 1050b0ce4685a0cf40cec78bdc58b8f5890bcb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:49 +0000
Subject: [PATCH 07/36] fix: evalcheck verifier handles structured oracles
 whose circuit reads fewer variables than the oracle has

---
 crates/core/src/protocols/evalcheck/verify.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 93d8cb9..bb73477 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -163,13 +163,14 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 			}
 			MultilinearPolyVariant::Structured(ref inner) => {
 				// Here we need to extend the eval_point to the input domain of the arith circuit
-				// by assigning zeroes to the variables.
+				// by assigning zeroes to the variables. Trailing coordinates that the circuit does
+				// not take are ignored, because its values do not depend on them.
 				let eval_point: &[F] = &eval_point;
-				let n_pad_zeros = inner.n_vars() - eval_point.len();
 				let query = eval_point
 					.iter()
 					.copied()
-					.chain(iter::repeat_n(F::ZERO, n_pad_zeros))
+					.chain(iter::repeat(F::ZERO))
+					.take(inner.n_vars())
 					.collect::<Vec<_>>();
 				let actual_eval = inner.evaluate(&query)?;
 				if actual_eval != eval {
-- 
2.43.0


From 2892fb3cc91e21533b1bc2b19f18d8330b851eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 08/36] fix: verifier checks the balance of every channel and
 rejects boundaries on unknown channels

---
 crates/core/src/constraint_system/verify.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 4217533..d93dfff 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -316,13 +316,23 @@ fn verify_channels_balance<F: TowerField>(
 		return Err(VerificationError::IncorrectNumberOfFlushProducts.into());
 	}
 
+	let channel_count = permutation_challenges.len();
+	if let Some(boundary) = boundaries
+		.iter()
+		.find(|boundary| boundary.channel_id >= channel_count)
+	{
+		bail!(Error::ChannelIdOutOfRange {
+			max: channel_count.saturating_sub(1),
+			got: boundary.channel_id,
+		});
+	}
+
+	// Every channel must balance, including those that have boundaries but no flushes.
 	let mut flush_iter = flushes
 		.iter()
 		.zip(flush_products.iter().copied())
 		.peekable();
-	while let Some((flush, _)) = flush_iter.peek() {
-		let channel_id = flush.channel_id;
-
+	for channel_id in 0..channel_count {
 		let boundary_products =
 			boundaries
 				.iter()
-- 
2.43.0


From 6d34ca90cee4857690a8eefe8a7491f4f87ba2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:30 +0000
Subject: [PATCH 09/36] fix: evalcheck verifier rejects out-of-range hint
 indices instead of panicking

---
 crates/core/src/protocols/evalcheck/verify.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index bb73477..942a5d6 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -296,6 +296,10 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 			MultilinearPolyVariant::Composite(ref composite) => {
 				let position = transcript.message().read::<u32>()? as usize;
 
+				if position > self.new_mlechecks_constraints.len() {
+					return Err(VerificationError::MLECheckConstraintSetPositionMismatch.into());
+				}
+
 				if let Some((constraints_eval_point, _)) =
 					self.new_mlechecks_constraints.get(position)
 				{
@@ -328,14 +332,13 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 		let subproof = deserialize_evalcheck_proof(&mut transcript.message())?;
 		match subproof {
 			EvalcheckHint::DuplicateClaim(index) => {
-				let index = index as usize;
-				if self.round_claims[index].id != oracle_id
-					|| self.round_claims[index].eval_point != eval_point
-				{
-					return Err(VerificationError::DuplicateClaimMismatch.into());
-				}
+				let claim = self
+					.round_claims
+					.get(index as usize)
+					.filter(|claim| claim.id == oracle_id && claim.eval_point == eval_point)
+					.ok_or(VerificationError::DuplicateClaimMismatch)?;
 
-				Ok(self.round_claims[index].eval)
+				Ok(claim.eval)
 			}
 			EvalcheckHint::NewClaim => {
 				let eval = transcript.message().read_scalar()?;
-- 
2.43.0


From 367fde626d315312d4a1039daa8fee189b4a7d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:51 +0000
Subject: [PATCH 10/36] fix: witness validator counts channel multiplicities
 without overflow and rejects unknown channels when there are none

---
 crates/core/src/constraint_system/channel.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 5c9a455..6f922e6 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -112,7 +112,7 @@ where
 			direction,
 			multiplicity,
 		} = boundary;
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
@@ -132,7 +132,7 @@ where
 			log_values_per_row,
 		} = flush;
 
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
@@ -226,7 +226,7 @@ where
 			let unbalanced_flushes: Vec<_> = channel
 				.multiplicities
 				.iter()
-				.filter(|(_, c)| **c != 0i64)
+				.filter(|(_, c)| **c != 0i128)
 				.collect();
 
 			tracing::debug!("Channel {:?} unbalanced: {:?}", id, unbalanced_flushes);
@@ -241,7 +241,7 @@ where
 #[derive(Default, Debug, Clone)]
 struct Channel<F: TowerField> {
 	width: Option<usize>,
-	multiplicities: HashMap<Vec<F>, i64>,
+	multiplicities: HashMap<Vec<F>, i128>,
 }
 
 impl<F: TowerField> Channel<F> {
@@ -271,10 +271,10 @@ impl<F: TowerField> Channel<F> {
 				got: values.len(),
 			});
 		}
-		*self.multiplicities.entry(values).or_default() += (multiplicity as i64)
+		*self.multiplicities.entry(values).or_default() += (multiplicity as i128)
 			* (match direction {
-				FlushDirection::Pull => -1i64,
-				FlushDirection::Push => 1i64,
+				FlushDirection::Pull => -1i128,
+				FlushDirection::Push => 1i128,
 			});
 		Ok(())
 	}
-- 
2.43.0


From f31277810b8bf42e64838d6b652a06d748ca95e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:22 +0000
Subject: [PATCH 11/36] fix: witness validator checks every row of zero-padded
 oracles

---
 crates/core/src/constraint_system/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index b1644cf..75fa1d7 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -259,7 +259,7 @@ where
 			let start_index = padded.start_index();
 			let nonzero_index = padded.nonzero_index();
 			let padded_poly = unpadded_poly.zero_pad(n_pad_vars, start_index, nonzero_index)?;
-			for i in 0..1 << n_pad_vars {
+			for i in 0..1 << n_vars {
 				check_eval(
 					oracle_label,
 					i,
-- 
2.43.0


From 6ca482f078bca9a32c9959690b2323a494e0687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:33 +0000
Subject: [PATCH 12/36] fix: zero_pad fills every lane when the padded
 polynomial is smaller than the packing width

---
 crates/math/src/fold.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 83ac592..994e090 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -43,7 +43,7 @@ where
 	}
 
 	let extra_vars = log_new_vals - log_evals_size;
-	if nonzero_index > 1 << extra_vars {
+	if nonzero_index >= 1 << extra_vars {
 		bail!(Error::IncorrectNonZeroIndex {
 			expected: 1 << extra_vars
 		});
@@ -57,7 +57,7 @@ where
 	for (outer_index, packed_result_eval) in out.iter_mut().enumerate() {
 		// Index of the Scalar at the start of the current Packed element in `out`.
 		let outer_word_start = outer_index << PE::LOG_WIDTH;
-		for inner_index in 0..min(PE::WIDTH, 1 << log_evals_size) {
+		for inner_index in 0..min(PE::WIDTH, 1 << log_new_vals) {
 			// Index of the current Scalar in `out`.
 			let outer_scalar_index = outer_word_start + inner_index;
 			// Column index, within the reshaped `evals`, where we start the dot-product with the
-- 
2.43.0


From cf3ed8a1444ee72c1afc2b563abe1db314d1539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:52 +0000
Subject: [PATCH 13/36] fix: byte-sliced unzip moves lanes across columns and
 no longer panics for small blocks

---
 .../byte_sliced/packed_byte_sliced.rs         | 83 ++-----------------
 1 file changed, 7 insertions(+), 76 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index fbe6f7d..1e5be16 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -270,16 +270,7 @@ macro_rules! define_byte_sliced_3d {
 
 			#[inline]
 			fn unzip(self, other: Self, log_block_len: usize) -> (Self, Self) {
-				let (result1, result2) = unzip_byte_sliced::<$packed_storage, {Self::HEIGHT_BYTES}, {Self::SCALAR_BYTES}>(bytemuck::must_cast_ref(&self.data), bytemuck::must_cast_ref(&other.data), log_block_len + checked_log_2(Self::SCALAR_BYTES));
-
-				(
-					Self {
-						data: bytemuck::must_cast(result1),
-					},
-					Self {
-						data: bytemuck::must_cast(result2),
-					},
-				)
+				unzip_by_interleaving(self, other, log_block_len)
 			}
 
 			impl_spread!($name, $scalar_type, $packed_storage, $storage_tower_level);
@@ -803,40 +794,7 @@ macro_rules! define_byte_sliced_3d_1b {
 
 			#[inline]
 			fn unzip(self, other: Self, log_block_len: usize) -> (Self, Self) {
-				if log_block_len < 3 {
-					let mut result1 = Self::default();
-					let mut result2 = Self::default();
-
-					for i in 0..Self::HEIGHT_BYTES {
-						(result1.data[i], result2.data[i]) =
-							self.data[i].unzip(other.data[i], log_block_len);
-					}
-
-					(result1, result2)
-				} else {
-					type Packed8b =
-						PackedType<<$packed_storage as WithUnderlier>::Underlier, AESTowerField8b>;
-
-					let self_data: &[Packed8b; Self::HEIGHT_BYTES] =
-						Packed8b::cast_ext_arr_ref(&self.data);
-					let other_data: &[Packed8b; Self::HEIGHT_BYTES] =
-						Packed8b::cast_ext_arr_ref(&other.data);
-
-					let (result1, result2) = unzip_byte_sliced::<Packed8b, { Self::HEIGHT_BYTES }, 1>(
-						self_data,
-						other_data,
-						log_block_len - 3,
-					);
-
-					(
-						Self {
-							data: Packed8b::cast_base_arr(result1),
-						},
-						Self {
-							data: Packed8b::cast_base_arr(result2),
-						},
-					)
-				}
+				unzip_by_interleaving(self, other, log_block_len)
 			}
 
 			impl_spread!($name, BinaryField1b, $packed_storage, $storage_tower_level);
@@ -941,39 +899,12 @@ fn interleave_byte_sliced<P: PackedField, const N: usize>(
 	}
 }
 
+/// Unzips blocks by interleaving, from the largest block length down to the requested one.
 #[inline(always)]
-fn unzip_byte_sliced<P: PackedField, const N: usize, const SCALAR_BYTES: usize>(
-	lhs: &[P; N],
-	rhs: &[P; N],
-	log_block_len: usize,
-) -> ([P; N], [P; N]) {
-	let mut result1: [P; N] = bytemuck::Zeroable::zeroed();
-	let mut result2: [P; N] = bytemuck::Zeroable::zeroed();
-
-	let log_height = checked_log_2(N);
-	if log_block_len < log_height {
-		let block_size = 1 << log_block_len;
-		let half = N / 2;
-		for block_offset in (0..half).step_by(block_size) {
-			let target_offset = block_offset * 2;
-
-			result1[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset..target_offset + block_size]);
-			result1[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset..target_offset + block_size]);
-
-			result2[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset + block_size..target_offset + 2 * block_size]);
-			result2[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset + block_size..target_offset + 2 * block_size]);
-		}
-	} else {
-		for i in 0..N {
-			(result1[i], result2[i]) = lhs[i].unzip(rhs[i], log_block_len - log_height);
-		}
-	}
-
-	(result1, result2)
+fn unzip_by_interleaving<P: PackedField>(lhs: P, rhs: P, log_block_len: usize) -> (P, P) {
+	(log_block_len..P::LOG_WIDTH)
+		.rev()
+		.fold((lhs, rhs), |(lhs, rhs), level| lhs.interleave(rhs, level))
 }
 
 #[inline(always)]
-- 
2.43.0


From 7a89b0cdbf3fdc0a217afcb124cc884f0abe2bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:52 +0000
Subject: [PATCH 14/36] fix: PackedField::get_checked no longer reads out of
 bounds before checking the index

---
 crates/field/src/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index 0c57301..de1a79d 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -83,7 +83,7 @@ pub trait PackedField:
 	#[inline]
 	fn get_checked(&self, i: usize) -> Result<Self::Scalar, Error> {
 		(i < Self::WIDTH)
-			.then_some(unsafe { self.get_unchecked(i) })
+			.then(|| unsafe { self.get_unchecked(i) })
 			.ok_or(Error::IndexOutOfRange {
 				index: i,
 				max: Self::WIDTH,
-- 
2.43.0


From 09683027ac5eef55c765f81af380509ff55c5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:52 +0000
Subject: [PATCH 15/36] fix: copy_packed_from_scalars_slice writes a partial
 last word to the right packed element

---
 crates/field/src/packed.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index de1a79d..39041c1 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -462,8 +462,7 @@ pub fn copy_packed_from_scalars_slice<P: PackedField>(src: &[P::Scalar], dst: &m
 			}
 
 			if !remainder.is_empty() {
-				let offset = (src.len() >> P::LOG_WIDTH) << P::LOG_WIDTH;
-				let packed = &mut packed[offset];
+				let packed = &mut packed[src.len() >> P::LOG_WIDTH];
 				for (i, scalar) in remainder.iter().enumerate() {
 					// Safety: `i` is guaranteed to be less than `P::WIDTH`
 					unsafe { packed.set_unchecked(i, *scalar) };
-- 
2.43.0


From e9eb8a28e7d15cc362f0bc3a0647466443e4408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:00 +0000
Subject: [PATCH 16/36] fix: byte-sliced 1-bit packed transformation applies
 the given map instead of the identity

---
 .../portable/byte_sliced/packed_byte_sliced.rs  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index 1e5be16..6d42f06 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -22,7 +22,7 @@ use crate::{
 	as_packed_field::{PackScalar, PackedType},
 	binary_field::BinaryField,
 	linear_transformation::{
-		FieldLinearTransformation, IDTransformation, PackedTransformationFactory, Transformation,
+		FieldLinearTransformation, PackedTransformationFactory, Transformation,
 	},
 	packed_aes_field::PackedAESBinaryField32x8b,
 	tower_levels::{TowerLevel, TowerLevel1, TowerLevel2, TowerLevel4, TowerLevel8, TowerLevel16},
@@ -837,17 +837,26 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl PackedTransformationFactory<$name> for $name {
 			type PackedTransformation<Data: AsRef<[<$name as PackedField>::Scalar]> + Sync> =
-				IDTransformation;
+				MaskTransformation<$name>;
 
 			fn make_packed_transformation<Data: AsRef<[<$name as PackedField>::Scalar]> + Sync>(
-				_transformation: FieldLinearTransformation<<$name as PackedField>::Scalar, Data>,
+				transformation: FieldLinearTransformation<<$name as PackedField>::Scalar, Data>,
 			) -> Self::PackedTransformation<Data> {
-				IDTransformation
+				MaskTransformation(<$name as PackedField>::broadcast(transformation.bases()[0]))
 			}
 		}
 	};
 }
 
+/// Linear transformation of 1-bit lanes: multiplication of every lane by the single basis image.
+pub struct MaskTransformation<P>(P);
+
+impl<P: PackedField> Transformation<P, P> for MaskTransformation<P> {
+	fn transform(&self, data: &P) -> P {
+		*data * self.0
+	}
+}
+
 #[inline(always)]
 fn interleave_internal_block<P: PackedField, const N: usize, const LOG_BLOCK_LEN: usize>(
 	lhs: &[P; N],
-- 
2.43.0


From 2f549431f93334cd6bfd8dd34081e5c1085e4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:04 +0000
Subject: [PATCH 17/36] fix: byte iteration over byte-sliced 1-bit packed
 fields no longer reads past the value

---
 .../field/src/arch/portable/byte_sliced/packed_byte_sliced.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index 6d42f06..833dfa2 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -622,7 +622,7 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl $name {
 			pub const BYTES: usize =
-				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH;
+				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH / 8;
 
 			pub const HEIGHT_BYTES: usize = <$storage_tower_level as TowerLevel>::WIDTH;
 			const LOG_HEIGHT: usize = checked_log_2(Self::HEIGHT_BYTES);
-- 
2.43.0


From 35d0110d5d11841a468d2a7a6b8746dd5b048e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:04 +0000
Subject: [PATCH 18/36] fix: SmallU::checked_sub subtracts the right operand
 from the left

---
 crates/field/src/underlier/small_uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/underlier/small_uint.rs b/crates/field/src/underlier/small_uint.rs
index fe2607f..7eff188 100644
--- a/crates/field/src/underlier/small_uint.rs
+++ b/crates/field/src/underlier/small_uint.rs
@@ -68,7 +68,7 @@ impl<const N: usize> SmallU<N> {
 	pub fn checked_sub(self, rhs: Self) -> Option<Self> {
 		let a = self.val();
 		let b = rhs.val();
-		(b > a).then_some(Self(b - a))
+		a.checked_sub(b).map(Self)
 	}
 }
 
-- 
2.43.0


From 68e5aef42373f52e31629b09da5d8446e81f3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:43 +0000
Subject: [PATCH 19/36] fix: SmallU::checked_add accepts sums equal to the
 largest value

---
 crates/field/src/underlier/small_uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/underlier/small_uint.rs b/crates/field/src/underlier/small_uint.rs
index 7eff188..bfaa656 100644
--- a/crates/field/src/underlier/small_uint.rs
+++ b/crates/field/src/underlier/small_uint.rs
@@ -62,7 +62,7 @@ impl<const N: usize> SmallU<N> {
 	pub fn checked_add(self, rhs: Self) -> Option<Self> {
 		self.val()
 			.checked_add(rhs.val())
-			.and_then(|value| (value < Self::ONES.0).then_some(Self(value)))
+			.and_then(|value| (value <= Self::ONES.0).then_some(Self(value)))
 	}
 
 	pub fn checked_sub(self, rhs: Self) -> Option<Self> {
-- 
2.43.0


From 4f9caa43394f38f183b1b04f3cbc01296769e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:03 +0000
Subject: [PATCH 20/36] hook: cfg(verif_dishonest_prover) lets the prover carry
 on with a false non-zero statement

---
 crates/core/src/constraint_system/prove.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index a9c873b..b92bd7d 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -308,6 +308,8 @@ where
 
 	let non_zero_products =
 		gkr_gpa::get_grand_products_from_witnesses(&non_zero_prodcheck_witnesses);
+	// Verification builds use a prover that does not refuse false statements.
+	#[cfg(not(verif_dishonest_prover))]
 	if non_zero_products
 		.iter()
 		.any(|count| *count == Tower::B128::zero())
-- 
2.43.0


From 7d37b796439a9267c8bc2cd3f598a0bac5d33959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:06 +0000
Subject: [PATCH 21/36] fix: Reed-Solomon encoding of messages shorter than one
 packed element

The test for repeating the message within the first packed element compared the
dimension, not its logarithm, with the packing width, so short messages were
encoded together with whatever followed them in the buffer.
---
 crates/core/src/reed_solomon/reed_solomon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/reed_solomon/reed_solomon.rs b/crates/core/src/reed_solomon/reed_solomon.rs
index 5e731c1..acd0f4e 100644
--- a/crates/core/src/reed_solomon/reed_solomon.rs
+++ b/crates/core/src/reed_solomon/reed_solomon.rs
@@ -131,7 +131,7 @@ impl<F: BinaryField> ReedSolomonCode<F> {
 
 		// First, if the message is less than the packing width, we need to repeat it to fill one
 		// packed element.
-		if self.dim() + log_batch_size < P::LOG_WIDTH {
+		if self.log_dim() + log_batch_size < P::LOG_WIDTH {
 			let repeated_values = code[0]
 				.into_iter()
 				.take(1 << (self.log_dim() + log_batch_size))
-- 
2.43.0


From 9048d225dc501d5aa1978aaf32b89a31368841a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:15 +0000
Subject: [PATCH 22/36] fix: FRI folding of packed codewords with chunks
 shorter than a packed element

With fewer challenges than the packing width, or an interleaved batch smaller
than it, the chunks fell inside packed elements: part of the output was left
unwritten and batches smaller than the packing width underflowed a shift.
---
 crates/ntt/src/fri.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/ntt/src/fri.rs b/crates/ntt/src/fri.rs
index 58e0888..00b3328 100644
--- a/crates/ntt/src/fri.rs
+++ b/crates/ntt/src/fri.rs
@@ -41,6 +41,22 @@ pub fn fold_interleaved_allocated<F, FS, NTT, P>(
 	assert!(challenges.len() >= log_batch_size);
 	assert_eq!(out.len(), 1 << (log_len - (challenges.len() - log_batch_size)));
 
+	// When a chunk, or a row of interleaved values within a chunk, is shorter than a packed element,
+	// packed elements straddle chunks (rows). In this case, fold the unpacked scalars.
+	if challenges.len() < P::LOG_WIDTH || (log_batch_size > 0 && log_batch_size < P::LOG_WIDTH) {
+		let scalars = P::iter_slice(codeword)
+			.take(1 << (log_len + log_batch_size))
+			.collect::<Vec<F>>();
+		return fold_interleaved_allocated(
+			ntt,
+			&scalars,
+			challenges,
+			log_len,
+			log_batch_size,
+			out,
+		);
+	}
+
 	let (interleave_challenges, fold_challenges) = challenges.split_at(log_batch_size);
 	let tensor = MultilinearQuery::expand(interleave_challenges);
 
-- 
2.43.0


From 0ce7c21589c4566f22a3c1142cc97d87c90d4730 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:26:14 +0000
Subject: [PATCH 23/36] fix: serialization of transparent multilinear
 extensions over subfields

The packed representation was written, so subfield evaluations came back as
fewer, unrelated elements; a length that is not a power of two panicked.
---
 .../src/transparent/multilinear_extension.rs  | 37 ++++++++++++-------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/core/src/transparent/multilinear_extension.rs b/crates/core/src/transparent/multilinear_extension.rs
index bd71863..2b901ae 100644
--- a/crates/core/src/transparent/multilinear_extension.rs
+++ b/crates/core/src/transparent/multilinear_extension.rs
@@ -44,12 +44,15 @@ where
 		write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let elems = PE::iter_slice(
-			self.data
-				.packed_evals()
-				.expect("Evals should always be available here"),
-		)
-		.collect::<Vec<_>>();
+		// Serialize the embedded evaluations: the packed representation would reinterpret several
+		// subfield values as one element and drops the number of variables.
+		let elems = (0..1usize << self.data.n_vars())
+			.map(|i| {
+				self.data
+					.evaluate_on_hypercube(i)
+					.expect("index is within the hypercube")
+			})
+			.collect::<Vec<_>>();
 		SerializeBytes::serialize(&elems, write_buf, mode)
 	}
 }
@@ -62,22 +65,28 @@ inventory::submit! {
 			type F = BinaryField128b;
 			type P = PackedType<U, F>;
 			let hypercube_evals = Vec::<F>::deserialize(&mut *buf, mode)?;
+			if !hypercube_evals.len().is_power_of_two() {
+				return Err(SerializationError::InvalidConstruction {
+					name: "MultilinearExtensionTransparent",
+				});
+			}
+			let mu = hypercube_evals.len().ilog2() as usize;
 			let result: Box<dyn MultivariatePoly<F>> = if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values_and_mu(packed_evals, mu).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values_and_mu(packed_evals, mu).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values_and_mu(packed_evals, mu).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values_and_mu(packed_evals, mu).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values_and_mu(packed_evals, mu).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values_and_mu(packed_evals, mu).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values_and_mu(packed_evals, mu).unwrap())
 			} else {
-				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values(pack_slice(&hypercube_evals)).unwrap())
+				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values_and_mu(pack_slice(&hypercube_evals), mu).unwrap())
 			};
 			Ok(result)
 		}
-- 
2.43.0


From bbb3b3c1f8e57ed478a47fc17923078648663e3c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:31:31 +0000
Subject: [PATCH 24/36] fix: row selection of a column sub-range

RowsBatchRef::iter and map ignored the offset of the view, so a composition that
selects rows evaluated the wrong columns of a sub-range.
---
 crates/math/src/rows_batch.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/rows_batch.rs b/crates/math/src/rows_batch.rs
index dbc312e..58208ee 100644
--- a/crates/math/src/rows_batch.rs
+++ b/crates/math/src/rows_batch.rs
@@ -112,7 +112,9 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	#[inline]
 	pub fn iter(&self) -> impl Iterator<Item = &'a [T]> + '_ {
-		self.rows.as_ref().iter().copied()
+		self.rows
+			.iter()
+			.map(|row| &row[self.offset..self.offset + self.row_len])
 	}
 
 	#[inline(always)]
@@ -137,7 +139,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	/// Returns a new `RowsBatch` with the specified rows selected by the given indices.
 	pub fn map(&self, indices: impl AsRef<[usize]>) -> RowsBatch<'a, T> {
-		let rows = indices.as_ref().iter().map(|&i| self.rows[i]).collect();
+		let rows = indices.as_ref().iter().map(|&i| self.row(i)).collect();
 
 		RowsBatch {
 			rows,
-- 
2.43.0


From 1317b34a52f437a536898a14e922510f1c27c202 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:31:31 +0000
Subject: [PATCH 25/36] fix: zeroth powers and overflowing nested powers in
 arithmetic circuits

Merging nested powers wrapped around the 64-bit exponent, and a zeroth power
panicked in cost estimation and in the compiled evaluator.
---
 crates/math/src/arith_expr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index c6b72b0..14659d5 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -324,7 +324,7 @@ impl<F: Field> ArithCircuit<F> {
 				// 1. log2(e) squarings.
 				// 1. popcount(e) - 1 multiplications.
 				ArithCircuitStep::Pow(_, exp) => {
-					let n_squares = exp.ilog2() as usize;
+					let n_squares = exp.checked_ilog2().unwrap_or(0) as usize;
 					let n_muls = exp.count_ones().saturating_sub(1) as usize;
 					acc + EvalCost::mul(n_muls) + EvalCost::square(n_squares)
 				}
@@ -581,12 +581,18 @@ impl<F: Field> ArithCircuit<F> {
 						_ => {}
 					}
 				}
+				ArithCircuitStep::Pow(_, 0) => {
+					*curr_step = ArithCircuitStep::Const(F::ONE);
+				}
 				ArithCircuitStep::Pow(base, exp) => match prev_steps[*base] {
 					ArithCircuitStep::Const(value) => {
 						*curr_step = ArithCircuitStep::Const(PackedField::pow(value, *exp));
 					}
 					ArithCircuitStep::Pow(base_inner, exp_inner) => {
-						*curr_step = ArithCircuitStep::Pow(base_inner, *exp * exp_inner);
+						// The powers are kept apart if the product of the exponents overflows
+						if let Some(exp) = exp.checked_mul(exp_inner) {
+							*curr_step = ArithCircuitStep::Pow(base_inner, exp);
+						}
 					}
 					_ => {}
 				},
-- 
2.43.0


From b1b9b4b5d830efd75db1b68dec2a13eb15ecd105 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:31:31 +0000
Subject: [PATCH 26/36] fix: reuse of an odd power in a compiled arithmetic
 circuit

The slot registered for the power was the one before the last multiplication,
so a second use of x^3 read x^2.
---
 crates/fast_compute/src/arith_circuit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index a66f74f..bbddfb6 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -106,9 +106,6 @@ fn convert_circuit_steps<F: Field>(
 				let highest_bit = exp.ilog2();
 
 				for i in (0..highest_bit).rev() {
-					if i == 0 {
-						node_to_step.register(original_step, result.len());
-					}
 					result.push(CircuitStep::Square(acc));
 					acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 
@@ -118,6 +115,10 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
+				if highest_bit > 0 {
+					node_to_step.register(original_step, result.len() - 1);
+				}
+
 				acc
 			}
 		}
-- 
2.43.0


From 9d6a7f6cb0848ba993afff0ee478370956dedf8b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:33:24 +0000
Subject: [PATCH 27/36] fix: in-place accumulation over a slot that is still
 read

A compiled circuit evaluated e1 + e2 * e3 in the slot of e1 even where e1 is
used elsewhere, so e1 * (e1 + e2 * e3) read the sum twice.
---
 crates/fast_compute/src/arith_circuit.rs | 59 ++++++++++++++++++++----
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index bbddfb6..f17e111 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -52,9 +52,36 @@ fn convert_circuit_steps<F: Field>(
 		}
 	}
 
+	/// Skip the first powers, which evaluate to the slot of their base.
+	fn resolve_step<F: Field>(mut step: usize, steps: &[ArithCircuitStep<F>]) -> usize {
+		while let ArithCircuitStep::Pow(base, 1) = steps[step] {
+			step = base;
+		}
+		step
+	}
+
+	/// Count how many times the value of every step is read by the other ones.
+	fn count_uses<F: Field>(steps: &[ArithCircuitStep<F>]) -> Vec<usize> {
+		let mut uses = vec![0; steps.len()];
+		for step in steps {
+			match *step {
+				ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+					uses[resolve_step(left, steps)] += 1;
+					uses[resolve_step(right, steps)] += 1;
+				}
+				ArithCircuitStep::Pow(base, exp) if exp != 1 => {
+					uses[resolve_step(base, steps)] += 1;
+				}
+				_ => {}
+			}
+		}
+		uses
+	}
+
 	fn convert_step<F: Field>(
 		original_step: usize,
 		original_steps: &[ArithCircuitStep<F>],
+		uses: &[usize],
 		result: &mut Vec<CircuitStep<F>>,
 		node_to_step: &mut StepsMapping,
 	) -> CircuitStepArgument<F> {
@@ -66,15 +93,27 @@ fn convert_circuit_steps<F: Field>(
 			ArithCircuitStep::Const(constant) => CircuitStepArgument::Const(*constant),
 			ArithCircuitStep::Var(var) => CircuitStepArgument::Expr(CircuitNode::Var(*var)),
 			ArithCircuitStep::Add(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
+				let left_step = resolve_step(*left, original_steps);
+				let left = convert_step(*left, original_steps, uses, result, node_to_step);
 
 				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left {
-					if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
+					let exclusive_product = match original_steps[*right] {
+						ArithCircuitStep::Mul(mleft, mright) => {
+							// The slot of `left` may be overwritten only if nothing else reads it
+							let n_reads = [mleft, mright]
+								.iter()
+								.filter(|&&step| resolve_step(step, original_steps) == left_step)
+								.count();
+							(uses[left_step] == n_reads + 1).then_some((mleft, mright))
+						}
+						_ => None,
+					};
+					if let Some((mleft, mright)) = exclusive_product {
 						// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
 						// observed in practice (the former can be enforced by rewriting
 						// expression)
-						let mleft = convert_step(*mleft, original_steps, result, node_to_step);
-						let mright = convert_step(*mright, original_steps, result, node_to_step);
+						let mleft = convert_step(mleft, original_steps, uses, result, node_to_step);
+						let mright = convert_step(mright, original_steps, uses, result, node_to_step);
 
 						// Since we'we changed the value of `left` to a new value, we need to clear
 						// the cache for it
@@ -86,22 +125,22 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let right = convert_step(*right, original_steps, uses, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Add(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Mul(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let left = convert_step(*left, original_steps, uses, result, node_to_step);
+				let right = convert_step(*right, original_steps, uses, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Mul(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Pow(base, exp) => {
-				let mut acc = convert_step(*base, original_steps, result, node_to_step);
+				let mut acc = convert_step(*base, original_steps, uses, result, node_to_step);
 				let base_expr = acc;
 				let highest_bit = exp.ilog2();
 
@@ -126,7 +165,9 @@ fn convert_circuit_steps<F: Field>(
 
 	let mut steps = Vec::new();
 	let mut steps_mapping = StepsMapping::new(expr.steps().len());
-	let ret = convert_step(expr.steps().len() - 1, expr.steps(), &mut steps, &mut steps_mapping);
+	let uses = count_uses(expr.steps());
+	let ret =
+		convert_step(expr.steps().len() - 1, expr.steps(), &uses, &mut steps, &mut steps_mapping);
 	(steps, ret)
 }
 
-- 
2.43.0


From 47f2347a9d781da7443fdb1f8e132ba59a45f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:51 +0000
Subject: [PATCH 28/36] fix: out-of-bounds write in right folds of longer 1-bit
 inputs

The 1-bit specialisations consume the whole input slice and write the
output unchecked, so an input longer than 1 << log_evals_size, which the
argument check allows, wrote past the end of the output slice.
---
 crates/math/src/fold.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 994e090..a71750a 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -500,6 +500,9 @@ where
 		return false;
 	}
 
+	// The callbacks write one output scalar per consumed chunk of input without bounds checks.
+	let evals = &evals[..1 << (log_evals_size - P::LOG_WIDTH)];
+
 	// We pass log_query_size_ as a generic parameter because that allows a compiler producing
 	// more efficient code in the tight loops inside the functions.
 	match log_query_size {
-- 
2.43.0


From c23bdf0083e68049513f193e33f7faabf62e1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:50 +0000
Subject: [PATCH 29/36] fix: evaluation of a piecewise multilinear without
 pieces

An empty list of pieces passes the argument checks and then indexed an
empty slice. The zero-padded concatenation of no pieces is zero.
---
 crates/math/src/piecewise_multilinear.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/piecewise_multilinear.rs b/crates/math/src/piecewise_multilinear.rs
index 3144c49..8f9f58a 100644
--- a/crates/math/src/piecewise_multilinear.rs
+++ b/crates/math/src/piecewise_multilinear.rs
@@ -97,7 +97,8 @@ pub fn evaluate_piecewise_multilinear<F: Field>(
 		n_to_fold -= n_folded_out;
 	}
 
-	Ok(piece_evals[0])
+	// The concatenation of no pieces is the zero polynomial.
+	Ok(piece_evals.first().copied().unwrap_or(F::ZERO))
 }
 
 /// Folds a sequence of pairs of field elements by linear extrapolation at a given point.
-- 
2.43.0


From 8dd6aaf5262fc04a70c94f6ac3cee89a246b8d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:50 +0000
Subject: [PATCH 30/36] fix: powers multilinear beyond the first chunk with
 packed fields

The chunks are counted in packed elements, so the first power of a chunk
is the chunk index times the chunk size times the packing width.
---
 crates/core/src/transparent/powers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transparent/powers.rs b/crates/core/src/transparent/powers.rs
index f1183b9..4a8956e 100644
--- a/crates/core/src/transparent/powers.rs
+++ b/crates/core/src/transparent/powers.rs
@@ -42,7 +42,7 @@ impl<F: TowerField> Powers<F> {
 			.par_chunks_mut(1 << CHUNK_LOG_SIZE)
 			.enumerate()
 			.for_each(|(chunk_index, chunk)| {
-				let start_power = (chunk_index as u64) << CHUNK_LOG_SIZE;
+				let start_power = (chunk_index as u64) << (CHUNK_LOG_SIZE + P::LOG_WIDTH);
 				let powers = successors(Some(self.base.pow_vartime([start_power])), |&power| {
 					Some(power * self.base)
 				})
-- 
2.43.0


From e1b0fe2fd1041eaf513b2d3c43af9a7ad1970dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:32 +0000
Subject: [PATCH 31/36] fix: empty allocations from the bump allocator

An allocation of zero elements, a multiple of every alignment, panicked
after taking the buffer out of the allocator, which left the allocator
poisoned for every later use.
---
 crates/compute/src/alloc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compute/src/alloc.rs b/crates/compute/src/alloc.rs
index 23e8b0b..a406998 100644
--- a/crates/compute/src/alloc.rs
+++ b/crates/compute/src/alloc.rs
@@ -77,8 +77,10 @@ where
 			// buffer contains Some, invariant restored
 			Err(Error::OutOfMemory)
 		} else {
-			let (mut lhs, rhs) = Mem::split_at_mut(buffer, n.max(Mem::ALIGNMENT));
-			if n < Mem::ALIGNMENT {
+			// An empty allocation is aligned and takes nothing from the buffer.
+			let split_len = if n == 0 { 0 } else { n.max(Mem::ALIGNMENT) };
+			let (mut lhs, rhs) = Mem::split_at_mut(buffer, split_len);
+			if n < split_len {
 				assert!(n.is_power_of_two(), "n must be a power of two");
 				for _ in checked_log_2(n)..checked_log_2(Mem::ALIGNMENT) {
 					(lhs, _) = Mem::split_half_mut(lhs)
-- 
2.43.0


From 70a8efbc3872e70744d952af3b7acd316d52c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:05 +0000
Subject: [PATCH 32/36] fix: wide addition constrains its initial carry and
 reads bit 0 of the carry-in column

---
 crates/m3/src/gadgets/add.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index 63e3aa4..c0d398c 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -1,11 +1,11 @@
 // Copyright 2025 Irreducible Inc.
 
-use std::{array, marker::PhantomData, ops::Deref};
+use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
 	Field, PackedExtension, PackedField, PackedFieldIndexable, PackedSubfield, TowerField,
-	packed::set_packed_slice,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -282,7 +282,7 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 				flags
 					.carry_in_bit
 					.map(|carry_col| table.add_selected("cin[0]", carry_col, 0))
-					.unwrap_or_else(|| table.add_committed("cin[0]"))
+					.unwrap_or_else(|| table.add_constant("cin[0]", [B1::ZERO]))
 			}
 		});
 		let zout = if flags.commit_zout {
@@ -333,15 +333,14 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 		let mut zout = array_util::try_map(self.z_out, |bit| index.get_mut(bit))?;
 		let mut final_carry_out = index.get_mut(self.final_carry_out)?;
 
-		let mut carry_in = if self.flags.carry_in_bit.is_none() {
-			let initial_carry = PackedSubfield::<P, B1>::default();
-			vec![initial_carry; cin[0].len()]
-		} else {
-			index
-				.get(self.flags.carry_in_bit.expect("carry_in_bit is not None"))?
-				.deref()
-				.to_vec()
-		};
+		let mut carry_in = vec![PackedSubfield::<P, B1>::default(); cin[0].len()];
+		if let Some(carry_in_bit) = self.flags.carry_in_bit {
+			// The carry-in is the 0th bit of every row.
+			let carry_in_bit = index.get(carry_in_bit)?;
+			for i in 0..index.size() {
+				set_packed_slice(&mut carry_in, i, get_packed_slice(&carry_in_bit, 32 * i));
+			}
+		}
 		for bit in 0..BIT_LENGTH {
 			for (x_in_packed, y_in_packed, c_in_packed, zout_packed, carry_in) in izip!(
 				x_in[bit].iter(),
-- 
2.43.0


From a9d4f9d4b63b7ec7360a20e2179c8ecfda52993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:55 +0000
Subject: [PATCH 33/36] fix: wide subtraction constrains its borrows and fills
 its borrow-in column

---
 crates/m3/src/gadgets/sub.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 4c4158c..d6b05ee 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -4,7 +4,8 @@ use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
-	Field, PackedExtension, PackedField, PackedFieldIndexable, packed::set_packed_slice,
+	Field, PackedExtension, PackedField, PackedFieldIndexable,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -199,6 +200,14 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 
 		let final_borrow = flags.expose_final_borrow.then(|| bout[BIT_LENGTH - 1]);
 
+		// Check that the borrows are correct, see [`U32Sub::new`].
+		for bit in 0..BIT_LENGTH {
+			table.assert_zero(
+				format!("borrow_out[{bit}]"),
+				(bin[bit] + (xin[bit] - B1::ONE)) * (bin[bit] + yin[bit]) + bin[bit] - bout[bit],
+			);
+		}
+
 		let zout = if flags.commit_zout {
 			let zout = table.add_committed_multiple("zout");
 			for (bit, zout_bit) in zout.iter().enumerate() {
@@ -236,22 +245,15 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 		type PB1<P> = <P as PackedExtension<B1>>::PackedSubfield;
 
 		let one = PB1::<P>::one();
-		let mut b_in = self
-			.flags
-			.borrow_in_bit
-			.map(|_| {
-				index
-					.get(self.bin)
-					.expect("witness index for borrow_in must be set before")
-					.to_vec()
-			})
-			.unwrap_or_else(|| {
-				let mut b_in = index
-					.get_mut(self.bin)
-					.expect("witness index for constant not set");
-				b_in.fill(PB1::<P>::zero());
-				vec![PB1::<P>::zero(); xin[0].len()]
-			});
+		let mut b_in = vec![PB1::<P>::zero(); xin[0].len()];
+		if let Some(borrow_in_bit) = self.flags.borrow_in_bit {
+			// The borrow-in is the 0th bit of every row.
+			let borrow_in_bit = index.get(borrow_in_bit)?;
+			for i in 0..index.size() {
+				set_packed_slice(&mut b_in, i, get_packed_slice(&borrow_in_bit, 32 * i));
+			}
+		}
+		index.get_mut(self.bin)?.copy_from_slice(&b_in);
 		for (x_bit, y_bit, mut b_out_bit, mut zout_bit) in
 			izip!(xin.into_iter(), yin.into_iter(), bout.into_iter(), zout.into_iter())
 		{
-- 
2.43.0


From 94c4ada55d7d60868511410db58759ae99904674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:00 +0000
Subject: [PATCH 34/36] fix: signed division of negative dividends without
 remainder

---
 crates/m3/src/gadgets/div.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 407955b..0e1a5a0 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -6,7 +6,7 @@ use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice
 use itertools::izip;
 
 use crate::{
-	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment},
+	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment, upcast_col},
 	gadgets::{
 		add::{U32AddFlags, WideAdd},
 		mul::{MulSS32, MulUU32, SignConverter, UnsignedMulPrimitives},
@@ -193,7 +193,7 @@ impl DivUU32 {
 
 /// Gadget for signed division of two i32s.
 ///
-/// `p = q*a + r` where p and r have the same sign bit.
+/// `p = q*a + r` where p and r have the same sign bit, unless r is zero.
 #[derive(Debug)]
 pub struct DivSS32 {
 	mul_inner: MulSS32,
@@ -229,9 +229,6 @@ impl DivSS32 {
 		let out_div_bits = table.add_committed_multiple("out_div_bits");
 		let out_rem_bits = table.add_committed_multiple("out_rem_bits");
 
-		// Check sign(p) == sign(r)
-		table.assert_zero("sign_dividend_eq_sign_rem", p_in_bits[31] - out_rem_bits[31]);
-
 		let sign_extend_q: [_; 64] =
 			array::from_fn(|i| if i < 32 { q_in_bits[i] } else { q_in_bits[31] });
 		let sign_extend_rem = array::from_fn(|i| {
@@ -245,6 +242,12 @@ impl DivSS32 {
 		let out_div = table.add_computed("out_div", pack_fp(out_div_bits));
 		let out_rem = table.add_computed("out_rem", pack_fp(out_rem_bits));
 
+		// Check that sign(p) == sign(r) unless the remainder is zero
+		table.assert_zero(
+			"sign_dividend_eq_sign_rem",
+			out_rem * (upcast_col(p_in_bits[31]) - upcast_col(out_rem_bits[31])),
+		);
+
 		let mul_inner = MulSS32::with_input(table, q_in_bits, out_div_bits);
 
 		// Check q is non-zero
-- 
2.43.0


From 30330e556dcf60034a157cd3834e9b9beed5c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:31 +0000
Subject: [PATCH 35/36] fix: multiplicities in the read counts of indexed
 lookups

tally counted every pull from the lookup channel once, whatever the flush's or the boundary's multiplicity.
---
 crates/m3/src/builder/indexed_lookup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m3/src/builder/indexed_lookup.rs b/crates/m3/src/builder/indexed_lookup.rs
index 33b01f0..d271736 100644
--- a/crates/m3/src/builder/indexed_lookup.rs
+++ b/crates/m3/src/builder/indexed_lookup.rs
@@ -97,7 +97,7 @@ where
 								*elem = col.get(i);
 							}
 							let index = indexed_lookup.entry_to_index(&elems);
-							counts[index] += 1;
+							counts[index] += flush.multiplicity;
 						}
 					}
 				}
@@ -109,7 +109,7 @@ where
 	for boundary in boundaries {
 		if boundary.channel_id == chan && boundary.direction == FlushDirection::Pull {
 			let index = indexed_lookup.entry_to_index(&boundary.values);
-			counts[index] += 1;
+			counts[index] += boundary.multiplicity as u32;
 		}
 	}
 
-- 
2.43.0


From 02884ee81122cc0a04e43181b9481860596749c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:31 +0000
Subject: [PATCH 36/36] fix: BitAnd lookup gadget with several values per row

populate filled one value per row, leaving the other values of the row at zero.
---
 crates/m3/src/gadgets/indexed_lookup/and.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/indexed_lookup/and.rs b/crates/m3/src/gadgets/indexed_lookup/and.rs
index 5f41388..c9f107c 100644
--- a/crates/m3/src/gadgets/indexed_lookup/and.rs
+++ b/crates/m3/src/gadgets/indexed_lookup/and.rs
@@ -82,7 +82,7 @@ impl<const V: usize> BitAnd<V> {
 		let mut output_col: std::cell::RefMut<'_, [B8]> = witness.get_scalars_mut(self.output)?;
 		let mut merged_col: std::cell::RefMut<'_, [B32]> = witness.get_scalars_mut(self.merged)?;
 
-		for i in 0..witness.size() {
+		for i in 0..witness.size() * V {
 			let in_a = in_a_col[i].val();
 			let in_b = in_b_col[i].val();
 			let output = in_a & in_b;
-- 
2.43.0

