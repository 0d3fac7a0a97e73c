//! C06: Reed-Solomon encoding is evaluation of the novel-basis polynomial on the code's subspace, and FRI folding of a
//! codeword is the codeword of the folded message; all dimensions, rates, batches, packings, challenge splits.
use binius_core::reed_solomon::reed_solomon::ReedSolomonCode;
use binius_field::*;
use binius_math::BinarySubspace;
use binius_ntt::{
	AdditiveNTT, DynamicDispatchNTT, NTTOptions, SingleThreadedNTT, ThreadingSettings,
	fri::{fold_chunk, fold_interleaved, fold_interleaved_allocated, fold_interleaved_chunk},
};
use vharness::{nttref::*, *};

fn v128(i: usize, salt: u64) -> BinaryField128b {
	BinaryField128b::new(mix128(i as u64 * 7919 + salt * 104729 + 5))
}

/// message[k * 2^lb + b] -> codeword[p * 2^lb + b]
fn ref_encode<FS: BinaryField, F: ExtensionField<FS>>(nov: &Novel<FS>, log_dim: usize, lb: usize, msg: &[F]) -> Vec<F> {
	let b = 1usize << lb;
	let mut out = vec![];
	for p in 0..nov.pts.len() {
		let row: Vec<FS> = (0..1usize << log_dim).map(|k| nov.x(k, p)).collect();
		for j in 0..b {
			out.push((0..1usize << log_dim).map(|k| msg[k * b + j] * row[k]).sum());
		}
	}
	out
}

fn pack<P: PackedField>(v: &[P::Scalar]) -> Vec<P> {
	v.chunks(P::WIDTH).map(|c| P::from_scalars(c.iter().copied())).collect()
}
fn unpack<P: PackedField>(v: &[P], n: usize) -> Vec<P::Scalar> {
	v.iter().flat_map(|p| p.into_iter()).take(n).collect()
}

fn ntts<FS: BinaryField>(l: usize) -> Vec<(String, DynamicDispatchNTT<FS>)> {
	[(false, 0), (true, 0), (false, 1), (true, 3)]
		.map(|(pre, lt)| {
			let thread_settings = if lt == 0 { ThreadingSettings::SingleThreaded } else { ThreadingSettings::ExplicitThreadsCount { log_threads: lt } };
			(format!("precompute={pre} threads=2^{lt}"), DynamicDispatchNTT::new(l, &NTTOptions { precompute_twiddles: pre, thread_settings }).unwrap())
		})
		.into()
}

fn encode<FS, PE>(ck: &Ck, name: &str, value: impl Fn(usize, u64) -> PE::Scalar + Sync, max_log_len: usize)
where
	FS: BinaryField,
	PE: PackedExtension<FS>,
	PE::Scalar: ExtensionField<FS>,
{
	let mut cs = vec![];
	for extra in [0usize, 1] {
		for log_len in 0..=max_log_len {
			for log_dim in 0..=log_len {
				for lb in 0..=ck.pick(3, 4) {
					cs.push((extra, log_len, log_dim, lb));
				}
			}
		}
	}
	ck.par(&cs, |&(extra, log_len, log_dim, lb)| {
		// the code lives in the subspace of dimension log_len of a larger NTT domain
		let l = log_len + extra;
		if l == 0 || log_len == 0 {
			return;
		}
		ck.case("encode", || format!("{name} domain 2^{l} dimension 2^{log_dim} length 2^{log_len} batch 2^{lb}"), |r| {
			let basis: Vec<FS> = (0..l).map(|i| FS::basis(i)).collect();
			let d = sub_basis(&basis, log_len);
			let nov = Novel::new(&d);
			let n = 1usize << (log_dim + lb);
			let total = 1usize << (log_len + lb);
			for (nm, ntt) in &ntts::<FS>(l) {
				let rs = ReedSolomonCode::<FS>::with_ntt_subspace(ntt, log_dim, log_len - log_dim).map_err(|e| e.to_string())?;
				r.eq(&rs.subspace().basis().to_vec(), &d, || "code domain".into())?;
				r.eq(&(rs.dim(), rs.log_dim(), rs.len(), rs.log_len(), rs.inv_rate(), rs.log_inv_rate()),
					&(1 << log_dim, log_dim, 1 << log_len, log_len, 1 << (log_len - log_dim), log_len - log_dim), || "code parameters".into())?;
				let mut msgs: Vec<Vec<PE::Scalar>> = vec![(0..n).map(|i| value(i, 1)).collect()];
				if n <= 8 {
					msgs.extend((0..n).map(|b| (0..n).map(|i| if i == b { <PE::Scalar as Field>::ONE } else { <PE::Scalar as Field>::ZERO }).collect()));
				}
				for msg in &msgs {
					// what lies beyond the message in the buffer must not matter
					let buf: Vec<PE::Scalar> = (0..total.max(PE::WIDTH)).map(|i| if i < n { msg[i] } else { value(i, 77) }).collect();
					let mut code = pack::<PE>(&buf);
					rs.encode_ext_batch_inplace(ntt, &mut code, lb).map_err(|e| format!("{nm}: {e}"))?;
					r.eq(&unpack(&code, total), &ref_encode(&nov, log_dim, lb, msg), || format!("{nm}: codeword"))?;
				}
				r.obs_dbg(&d);
				// refusals
				for wrong in [0, code_len::<PE>(log_len + lb) * 2, code_len::<PE>(log_len + lb) + 1] {
					let mut code = vec![PE::default(); wrong];
					r.ok(rs.encode_ext_batch_inplace(ntt, &mut code, lb).is_err(), || format!("buffer of {wrong} packed elements accepted"))?;
				}
				r.ok(ReedSolomonCode::<FS>::with_ntt_subspace(ntt, l + 1 - (l + 1) / 2, (l + 1) / 2).is_err(), || "code longer than the domain accepted".into())?;
				let sub = BinarySubspace::new_unchecked(d.clone());
				r.ok(ReedSolomonCode::<FS>::with_subspace(sub, log_dim, log_len - log_dim + 1).is_err(), || "subspace of the wrong dimension accepted".into())?;
				if log_len > 1 {
					// an encoder over another domain must be refused
					let mut o = d.clone();
					o[1] = o[1] + FS::ONE;
					let rs2 = ReedSolomonCode::<FS>::with_subspace(BinarySubspace::new_unchecked(o), log_dim, log_len - log_dim).map_err(|e| e.to_string())?;
					let mut code = pack::<PE>(&vec![<PE::Scalar as Field>::ONE; total]);
					r.ok(rs2.encode_ext_batch_inplace(ntt, &mut code, lb).is_err(), || "encoder with another domain accepted".into())?;
				}
			}
			Ok(())
		});
	});
	for log_dim in 0..4usize {
		for rate in 0..3usize {
			ck.case("encode", || format!("{name} ReedSolomonCode::new({log_dim}, {rate})"), |r| {
				let l = log_dim + rate;
				let Ok(rs) = ReedSolomonCode::<FS>::new(log_dim, rate) else {
					return r.ok(l == 0 || l > FS::N_BITS, || "refused".into());
				};
				r.eq(&rs.subspace().basis().to_vec(), &(0..l).map(|i| FS::basis(i)).collect::<Vec<_>>(), || "domain".into())
			});
		}
	}
}
fn code_len<P: PackedField>(l: usize) -> usize {
	1 << l.saturating_sub(P::LOG_WIDTH)
}

/// multilinear fold of the low variable
fn fold_low<F: Field>(v: &[F], r: F) -> Vec<F> {
	v.chunks(2).map(|c| c[0] + (c[0] + c[1]) * r).collect()
}

fn fold<FS, P>(ck: &Ck, name: &str, max_len: usize)
where
	FS: BinaryField,
	BinaryField128b: ExtensionField<FS>,
	P: PackedField<Scalar = BinaryField128b>,
{
	type F = BinaryField128b;
	let mut cs = vec![];
	for log_len in 1..=max_len {
		for log_dim in 0..=log_len {
			for lb in 0..=ck.pick(4, 5) {
				for nf in 0..=log_dim {
					for extra in 0..2usize {
						cs.push((log_len, log_dim, lb, nf, extra));
					}
				}
			}
		}
	}
	ck.par(&cs, |&(log_len, log_dim, lb, nf, extra)| {
		let l = log_len + extra;
		ck.case("fold", || format!("{name} domain 2^{l} dimension 2^{log_dim} length 2^{log_len} batch 2^{lb} folds {nf}"), |r| {
			let basis: Vec<FS> = (0..l).map(|i| FS::basis(i)).collect();
			let nov = Novel::new(&sub_basis(&basis, log_len));
			let nov2 = Novel::new(&sub_basis(&basis, log_len - nf));
			let msg: Vec<F> = (0..1 << (log_dim + lb)).map(|i| v128(i, 3)).collect();
			let code = ref_encode(&nov, log_dim, lb, &msg);
			let alpha = [F::ZERO, F::ONE, v128(0, 11)];
			// generic challenges, and every 0/1/generic pattern for short challenge vectors
			let k = lb + nf;
			let mut chs: Vec<Vec<F>> = vec![(0..k).map(|i| v128(i, 9)).collect()];
			if k <= 3 {
				for m in 0..3usize.pow(k as u32) {
					chs.push((0..k).map(|i| alpha[m / 3usize.pow(i as u32) % 3]).collect());
				}
			}
			let ntts = ntts::<FS>(l);
			for ch in &chs {
				let mut m = msg.clone();
				for &c in ch {
					m = fold_low(&m, c);
				}
				let want = ref_encode(&nov2, log_dim - nf, 0, &m);
				for (nm, ntt) in &ntts[..2] {
					let got = fold_interleaved(ntt, &pack::<P>(&code), ch, log_len, lb);
					r.eq(&got, &want, || format!("{nm}: fold_interleaved with {ch:?}"))?;
					let mut out = vec![v128(1, 1); want.len()];
					fold_interleaved_allocated(ntt, &pack::<P>(&code), ch, log_len, lb, &mut out);
					r.eq(&out, &want, || format!("{nm}: fold_interleaved_allocated with {ch:?}"))?;
					// coset by coset, as the verifier does
					let tensor = tensor(&ch[..lb]);
					for (i, c) in code.chunks(1 << k).enumerate() {
						let mut scratch = vec![v128(2, 2); (1 << nf) + extra];
						let got = fold_interleaved_chunk(ntt, log_len, lb, i, c, &tensor, &ch[lb..], &mut scratch);
						r.eq(&got, &want[i], || format!("{nm}: fold_interleaved_chunk {i}"))?;
						if lb == 0 {
							let mut c = c.to_vec();
							r.eq(&fold_chunk(ntt, log_len, i, &mut c, ch), &want[i], || format!("{nm}: fold_chunk {i}"))?;
						}
					}
				}
			}
			r.obs_dbg(&code[code.len() - 1]);
			Ok(())
		});
	});
}
fn tensor<F: Field>(ch: &[F]) -> Vec<F> {
	let mut t = vec![F::ONE];
	for &c in ch {
		t = t.iter().map(|&x| x * (F::ONE - c)).chain(t.iter().map(|&x| x * c)).collect();
	}
	t
}

fn main() {
	let ck = Ck::new("C06");
	ck.assume("scalar field arithmetic (decided by C01)");
	ck.bound("codes up to length 2^5 (thorough 2^6), every dimension and rate, batches up to 2^4, every number of fold challenges, all 0/1/generic challenge patterns up to 3 challenges");
	let m = ck.pick(5, 6);
	encode::<BinaryField8b, BinaryField8b>(&ck, "8b scalar", |i, s| BinaryField8b::new(mix128(i as u64 * 31 + s) as u8), m);
	encode::<BinaryField8b, PackedBinaryField16x8b>(&ck, "16x8b", |i, s| BinaryField8b::new(mix128(i as u64 * 31 + s) as u8), m);
	encode::<BinaryField16b, PackedBinaryField32x16b>(&ck, "32x16b", |i, s| BinaryField16b::new(mix128(i as u64 * 31 + s) as u16), m);
	encode::<BinaryField32b, PackedBinaryField1x128b>(&ck, "1x128b over 32b", v128, m);
	encode::<BinaryField32b, PackedBinaryField4x128b>(&ck, "4x128b over 32b", v128, m);
	encode::<BinaryField32b, PackedBinaryField16x32b>(&ck, "16x32b over 32b", |i, s| BinaryField32b::new(mix128(i as u64 * 31 + s) as u32), m);
	encode::<BinaryField8b, PackedBinaryField2x128b>(&ck, "2x128b over 8b", v128, m);
	encode::<BinaryField64b, PackedBinaryField8x64b>(&ck, "8x64b over 64b", |i, s| BinaryField64b::new(mix128(i as u64 * 31 + s) as u64), m);
	fold::<BinaryField32b, BinaryField128b>(&ck, "scalar over 32b", m);
	fold::<BinaryField8b, PackedBinaryField1x128b>(&ck, "1x128b over 8b", m);
	fold::<BinaryField32b, PackedBinaryField2x128b>(&ck, "2x128b over 32b", m);
	fold::<BinaryField32b, PackedBinaryField4x128b>(&ck, "4x128b over 32b", m);
	fold::<BinaryField128b, BinaryField128b>(&ck, "scalar over 128b", ck.pick(4, 5));
	let ntt = SingleThreadedNTT::<BinaryField8b>::new(3).unwrap();
	ck.case("encode", || "domain check".into(), |r| r.eq(&ntt.log_domain_size(), &3, || "domain".into()));
	ck.finish()
}
