//! C08: Merkle commitments. Every depth/batch/layer/index within the bounds and every single fault, against a plain
//! reference tree and reference verifier.
use binius_core::{
	fiat_shamir::HasherChallenger,
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver, MerkleTreeScheme},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_field::*;
use binius_hash::{
	PseudoCompressionFunction, Vision32Compression, Vision32ParallelDigest, VisionHasherDigest,
	groestl::{Groestl256, Groestl256ByteCompression},
	multi_digest::ParallelDigest,
};
use binius_maybe_rayon::prelude::*;
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use digest::{Digest, FixedOutputReset, Output, core_api::BlockSizeUser};
use vharness::*;

type Tr = HasherChallenger<Groestl256>;

fn ser<T: SerializeBytes>(ts: &[T]) -> Vec<u8> {
	let mut v = vec![];
	for t in ts {
		t.serialize(&mut v, SerializationMode::CanonicalTower).unwrap();
	}
	v
}

/// layers[d] = the 2^d digests at depth d
fn ref_layers<F: SerializeBytes, H: Digest, C: PseudoCompressionFunction<Output<H>, 2>>(c: &C, data: &[F], batch: usize) -> Vec<Vec<Output<H>>> {
	let leaves: Vec<Output<H>> = data.chunks(batch).map(|ch| H::digest(ser(ch))).collect();
	let mut layers = vec![leaves];
	while layers.last().unwrap().len() > 1 {
		let l = layers.last().unwrap();
		let n = l.chunks(2).map(|p| c.compress([p[0].clone(), p[1].clone()])).collect();
		layers.push(n);
	}
	layers.reverse();
	layers
}

fn ref_opening<F: SerializeBytes, H: Digest, C: PseudoCompressionFunction<Output<H>, 2>>(
	c: &C, index: usize, values: &[F], layer: &[Output<H>], branch: &[u8], depth: usize, layer_depth: usize,
) -> bool {
	let sz = <H as Digest>::output_size();
	if layer.len() != 1 << layer_depth || index >> depth != 0 || branch.len() < sz * (depth - layer_depth) {
		return false;
	}
	let mut d = H::digest(ser(values));
	let mut i = index;
	for k in 0..depth - layer_depth {
		let sib = Output::<H>::clone_from_slice(&branch[k * sz..(k + 1) * sz]);
		d = if i % 2 == 0 { c.compress([d, sib]) } else { c.compress([sib, d]) };
		i /= 2;
	}
	d == layer[i]
}

fn explore<F, PH, C>(ck: &Ck, name: &str, compression: C, max_depth: usize, fault_depth: usize, batches: &[usize])
where
	F: TowerField + DeserializeBytes,
	PH: ParallelDigest<Digest: BlockSizeUser + FixedOutputReset + Clone + Sync> + Sync,
	C: PseudoCompressionFunction<Output<PH::Digest>, 2> + Sync + Send + Default,
	Output<PH::Digest>: Send + Sync + Copy,
{
	let mut shapes = vec![];
	for depth in 0..=max_depth {
		for &b in batches {
			// 0: generic data, 1: all equal, 2: two equal halves
			for kind in 0..3 {
				shapes.push((depth, b, kind));
			}
		}
	}
	ck.par(&shapes, |&(depth, batch, kind)| {
		let n = batch << depth;
		let data: Vec<F> = (0..n)
			.map(|i| {
				let i = match kind { 0 => i, 1 => 0, _ => i % (n / 2).max(1) };
				F::deserialize(&mix128(i as u64 + 77).to_le_bytes()[..], SerializationMode::CanonicalTower).unwrap()
			})
			.collect();
		let prover = BinaryMerkleTreeProver::<F, PH, C>::new(compression.clone());
		let scheme = prover.scheme();
		let layers = ref_layers::<F, PH::Digest, C>(&compression, &data, batch);
		let (com, tree) = match prover.commit(&data, batch) {
			Ok(x) => x,
			Err(e) => {
				ck.violation(&format!("commit/{name} depth {depth} batch {batch} kind {kind}"), &format!("commit failed: {e}"));
				return;
			}
		};
		ck.case("commit", || format!("{name} depth {depth} batch {batch} kind {kind}"), |r| {
			r.eq(&com.root, &layers[0][0], || "root".into())?;
			r.eq(&com.depth, &depth, || "depth".into())?;
			let (com2, tree2) = prover
				.commit_iterated(data.par_chunks(batch).map(|c| c.to_vec()), depth)
				.map_err(|e| format!("commit_iterated: {e}"))?;
			r.eq(&com2, &com, || "commit_iterated commitment".into())?;
			r.ok(tree2.inner_nodes == tree.inner_nodes, || "commit_iterated tree".into())?;
			for d in 0..=depth {
				let l = prover.layer(&tree, d).map_err(|e| e.to_string())?;
				r.eq(&l.to_vec(), &layers[d], || format!("layer {d}"))?;
				scheme.verify_layer(&com.root, d, l).map_err(|e| format!("honest layer {d} rejected: {e}"))?;
				r.obs_dbg(&l[0]);
			}
			r.ok(prover.layer(&tree, depth + 1).is_err(), || "layer below the leaves returned".into())?;
			scheme.verify_vector(&com.root, &data, batch).map_err(|e| format!("honest vector rejected: {e}"))?;
			// wrong batch and wrong sizes
			if n > 1 {
				let bad = prover.commit(&data[..n - 1], batch).map(|(c, _)| c.root == com.root);
				r.ok(!matches!(bad, Ok(true)), || "commit to a shortened vector gives the same root".into())?;
				r.ok(scheme.verify_vector(&com.root, &data[..n - 1], batch).is_err(), || "shortened vector accepted".into())?;
				r.ok(scheme.verify_vector(&com.root, &[], batch).is_err(), || "empty vector accepted".into())?;
			}
			Ok(())
		});
		for layer_depth in 0..=depth {
			for q in [0usize, 1, 2, 3, 7] {
				ck.case("proof-size", || format!("{name} depth {depth} batch {batch} layer {layer_depth} queries {q}"), |r| {
					let mut t = ProverTranscript::<Tr>::new();
					t.message().write_slice(prover.layer(&tree, layer_depth).map_err(|e| e.to_string())?);
					for i in 0..q {
						prover.prove_opening(&tree, layer_depth, (i * 5 + 1) % (1 << depth), &mut t.message()).map_err(|e| e.to_string())?;
					}
					let sz = scheme.proof_size(1 << depth, q, layer_depth).map_err(|e| e.to_string())?;
					r.eq(&sz, &t.finalize().len(), || "proof_size".into())
				});
			}
			let layer = layers[layer_depth].clone();
			for index in 0..1usize << depth {
				let values = &data[index * batch..(index + 1) * batch];
				let mut proof = vec![];
				ck.case("honest-openings", || format!("{name} depth {depth} batch {batch} kind {kind} layer {layer_depth} index {index}"), |r| {
					let mut t = ProverTranscript::<Tr>::new();
					prover.prove_opening(&tree, layer_depth, index, &mut t.message()).map_err(|e| format!("prove_opening: {e}"))?;
					proof = t.finalize();
					let want: Vec<u8> = (layer_depth + 1..=depth).rev().flat_map(|d| layers[d][(index >> (depth - d)) ^ 1].to_vec()).collect();
					r.eq(&proof, &want, || "branch bytes".into())?;
					let mut v = VerifierTranscript::<Tr>::new(proof.clone());
					scheme
						.verify_opening(index, values, layer_depth, depth, &layer, &mut v.message())
						.map_err(|e| format!("honest opening rejected: {e}"))?;
					v.finalize().map_err(|e| format!("opening left bytes unread: {e}"))?;
					r.obs_dbg(&proof);
					r.ok(prover.prove_opening(&tree, layer_depth, 1 << depth, &mut ProverTranscript::<Tr>::new().message()).is_err(), || "opening past the end".into())
				});
				if depth > fault_depth {
					continue;
				}
				ck.case("faulty-openings", || format!("{name} depth {depth} batch {batch} kind {kind} layer {layer_depth} index {index}"), |r| {
					let mut check = |idx: usize, vals: &[F], lay: &[Output<PH::Digest>], pr: &[u8], must_reject: bool, what: &dyn Fn() -> String| -> R {
						let mut v = VerifierTranscript::<Tr>::new(pr.to_vec());
						let got = scheme.verify_opening(idx, vals, layer_depth, depth, lay, &mut v.message()).is_ok();
						let want = ref_opening::<F, PH::Digest, C>(&compression, idx, vals, lay, pr, depth, layer_depth);
						if must_reject && want {
							return Err(format!("reference accepts {}", what()));
						}
						r.eq(&got, &want, || format!("acceptance of {}", what()))
					};
					let hashed = layer_depth < depth;
					for j in 0..batch {
						for alt in [F::ONE, F::ZERO, data[j] + F::ONE] {
							let mut vals = values.to_vec();
							if vals[j] == alt { continue; }
							vals[j] = alt;
							check(index, &vals, &layer, &proof, true, &|| format!("value {j} changed"))?;
						}
					}
					if batch > 1 {
						check(index, &values[..batch - 1], &layer, &proof, true, &|| "fewer values".into())?;
						let mut rev = values.to_vec();
						rev.reverse();
						if rev != values {
							check(index, &rev, &layer, &proof, true, &|| "values reversed".into())?;
						}
					}
					let mut more = values.to_vec();
					more.push(F::ZERO);
					check(index, &more, &layer, &proof, true, &|| "zero value appended".into())?;
					for other in 0..(2usize << depth) {
						check(other, values, &layer, &proof, other >> depth != 0 || (other != index && kind == 0), &|| format!("index {other}"))?;
					}
					for big in [1usize << 40, usize::MAX, (1 << depth) | index, (8 << depth) | index] {
						check(big, values, &layer, &proof, true, &|| format!("index {big}"))?;
					}
					for j in 0..proof.len() {
						let mut p = proof.clone();
						p[j] ^= 1 << (j % 8);
						check(index, values, &layer, &p, true, &|| format!("branch byte {j} flipped"))?;
						check(index, values, &layer, &proof[..j], true, &|| format!("branch cut to {j} bytes"))?;
					}
					for k in 0..layer.len() {
						let touched = k == index >> (depth - layer_depth);
						for byte in [0, 7, 31] {
							let mut l = layer.clone();
							l[k][byte] ^= 0x40;
							check(index, values, &l, &proof, touched, &|| format!("layer digest {k} byte {byte}"))?;
							if scheme.verify_layer(&com.root, layer_depth, &l).is_ok() {
								return Err(format!("verify_layer accepted altered digest {k}"));
							}
						}
						let mut l = layer.clone();
						l.remove(k);
						check(index, values, &l, &proof, true, &|| format!("layer digest {k} removed"))?;
						r_ok(scheme.verify_layer(&com.root, layer_depth, &l).is_err(), "verify_layer accepted a short layer")?;
						if layer.len() > 1 {
							let mut l = layer.clone();
							l.swap(k, (k + 1) % layer.len());
							if l != layer {
								r_ok(scheme.verify_layer(&com.root, layer_depth, &l).is_err(), "verify_layer accepted swapped digests")?;
							}
						}
					}
					let mut l = layer.clone();
					l.push(layer[0]);
					check(index, values, &l, &proof, true, &|| "layer digest appended".into())?;
					r_ok(scheme.verify_layer(&com.root, layer_depth, &l).is_err(), "verify_layer accepted a long layer")?;
					let mut root = com.root;
					root[31] ^= 1;
					r_ok(scheme.verify_layer(&root, layer_depth, &layer).is_err(), "verify_layer accepted a wrong root")?;
					// layer presented at another depth
					for d in 0..=depth + 1 {
						if d != layer_depth {
							r_ok(scheme.verify_layer(&com.root, d, &layer).is_err(), "verify_layer accepted a layer of another depth")?;
						}
					}
					let _ = hashed;
					Ok(())
				});
			}
		}
		if depth <= fault_depth {
			ck.case("faulty-vectors", || format!("{name} depth {depth} batch {batch} kind {kind}"), |r| {
				for j in 0..n {
					let mut d = data.clone();
					d[j] += F::ONE;
					r.ok(scheme.verify_vector(&com.root, &d, batch).is_err(), || format!("element {j} changed but accepted"))?;
				}
				let mut root = com.root;
				root[0] ^= 0x80;
				r.ok(scheme.verify_vector(&root, &data, batch).is_err(), || "wrong root accepted".into())?;
				for b in 1..=n {
					if b != batch {
						let want = n % b == 0 && (n / b).is_power_of_two() && ref_layers::<F, PH::Digest, C>(&compression, &data, b)[0][0] == com.root;
						r.eq(&scheme.verify_vector(&com.root, &data, b).is_ok(), &want, || format!("batch size {b}"))?;
					}
				}
				let mut twice = data.clone();
				twice.extend_from_slice(&data);
				r.ok(scheme.verify_vector(&com.root, &twice, batch).is_err(), || "doubled vector accepted".into())
			});
		}
	});
}
fn r_ok(c: bool, m: &str) -> R {
	if c { Ok(()) } else { Err(m.into()) }
}

fn main() {
	check("C08", explore_all)
}

fn explore_all(ck: &Ck) {
	let (md, fd) = ck.pick((6, 3), (9, 5));
	ck.bound(format!("tree depth 0..={md} honest (faults 0..={fd}), batch sizes 1,2,3,5,8, all layer depths and indices, three data patterns"));
	explore::<BinaryField16b, Groestl256, _>(ck, "groestl/B16", Groestl256ByteCompression, md, fd, &[1, 2, 3, 5, 8]);
	explore::<BinaryField128b, Groestl256, _>(ck, "groestl/B128", Groestl256ByteCompression, md, fd.min(3), &[1, 4, 6]);
	explore::<BinaryField8b, Groestl256, _>(ck, "groestl/B8", Groestl256ByteCompression, md, 2, &[1, 64, 65]);
	let vd = ck.pick(4, 6);
	explore::<BinaryField32b, Vision32ParallelDigest, _>(ck, "vision-par/B32", Vision32Compression, vd, 1, &[1, 3, 16, 17]);
	explore::<BinaryField32b, VisionHasherDigest, _>(ck, "vision/B32", Vision32Compression, vd, 1, &[1, 3]);
	// sizes that are not powers of two, and the layer choice
	let p = BinaryMerkleTreeProver::<BinaryField16b, Groestl256, _>::new(Groestl256ByteCompression);
	for len in 0..40usize {
		for batch in 1..6usize {
			ck.case("commit-shapes", || format!("len {len} batch {batch}"), |r| {
				let data = vec![BinaryField16b::ONE; len];
				let ok = len % batch == 0 && (len / batch).is_power_of_two();
				r.eq(&p.commit(&data, batch).is_ok(), &ok, || "commit accepts".into())
			});
		}
	}
	for depth in 0..12usize {
		for layer in 0..14usize {
			for q in [0usize, 1, 2, 100] {
				ck.case("proof-size-shapes", || format!("depth {depth} layer {layer} q {q}"), |r| {
					let s = p.scheme().proof_size(1 << depth, q, layer);
					r.eq(&s.ok(), &(layer <= depth).then(|| ((depth - layer) * q + (1 << layer)) * 32), || "proof_size".into())?;
					r.ok(p.scheme().proof_size((1 << depth) + 2 * (depth + 1) + 1, q, 0).is_err() || ((1usize << depth) + 2 * (depth + 1) + 1).is_power_of_two(), || "non power of two".into())
				});
			}
		}
		for q in 1..70usize {
			ck.case("optimal-layer", || format!("depth {depth} q {q}"), |r| {
				let l = p.scheme().optimal_verify_layer(q, depth);
				r.ok(l <= depth, || format!("layer {l} below the leaves"))?;
				// documented: minimises the proof size
				let sz = |l: usize| (depth - l) * q + (1 << l);
				let best = (0..=depth).map(sz).min().unwrap();
				r.obs(&(sz(l) - best));
				Ok(())
			});
		}
	}
}
