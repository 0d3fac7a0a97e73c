//! C07: digests against the specifications: every message length, every split into updates, reset, multi-lane, parallel
//! and serialising front ends, compression functions.
use std::mem::MaybeUninit;

use binius_field::*;
use binius_hash::{
	HashBuffer, PseudoCompressionFunction, Vision32Compression, Vision32ParallelDigest, VisionHasherDigest, VisionHasherDigestByteSliced,
	groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel},
	hash_serialize,
	multi_digest::{MultiDigest, ParallelDigest, Serializable},
	permutation::Permutation,
	sha2::Sha256Compression,
};
use binius_maybe_rayon::prelude::*;
use bytes::BufMut;
use digest::{Digest, FixedOutputReset, Output, Reset, core_api::BlockSizeUser};
use vharness::{hashref::*, *};

fn msg(n: usize, salt: u64) -> Vec<u8> {
	(0..n).map(|i| mix128(i as u64 + salt * 1000003) as u8).collect()
}
type Ref = fn(&[u8]) -> [u8; 32];

fn b<D: Digest>(o: Output<D>) -> Vec<u8> {
	o.to_vec()
}

fn single<D: Digest + Reset + FixedOutputReset + Clone + BlockSizeUser + Sync>(ck: &Ck, name: &str, rf: Ref, block: usize, max: usize) {
	let want: Vec<[u8; 32]> = {
		let m = msg(max, 1);
		let v: Vec<usize> = (0..=max).collect();
		let out = std::sync::Mutex::new(vec![[0u8; 32]; max + 1]);
		ck.par(&v, |&n| {
			let d = rf(&m[..n]);
			out.lock().unwrap()[n] = d;
		});
		out.into_inner().unwrap()
	};
	let m = msg(max, 1);
	let lens: Vec<usize> = (0..=max).collect();
	ck.par(&lens, |&n| {
		ck.case("one shot", || format!("{name} length {n}"), |r| {
			let w = want[n].to_vec();
			r.obs(&w);
			r.eq(&b::<D>(D::digest(&m[..n])), &w, || "digest".into())?;
			// one bit changes: all zero and all one messages of the same length
			for v in [0u8, 0xff] {
				let mm = vec![v; n];
				r.eq(&b::<D>(D::digest(&mm)), &rf(&mm).to_vec(), || format!("constant message {v:#x}"))?;
			}
			Ok(())
		});
		ck.case("two updates", || format!("{name} length {n}"), |r| {
			for k in 0..=n {
				let d = D::new().chain_update(&m[..k]).chain_update(&m[k..n]).finalize();
				r.eq(&b::<D>(d), &want[n].to_vec(), || format!("split at {k}"))?;
				let d = D::new_with_prefix(&m[..k]).chain_update(&m[k..n]).finalize();
				r.eq(&b::<D>(d), &want[n].to_vec(), || format!("prefix of {k}"))?;
			}
			Ok(())
		});
		// three pieces, all split points near block boundaries
		ck.case("three updates", || format!("{name} length {n}"), |r| {
			let near: Vec<usize> = (0..=n).filter(|k| matches!(k % block, 0 | 1 | 2) || block - k % block <= 9 || k % 17 == 5).collect();
			for (x, &i) in near.iter().enumerate() {
				for &j in &near[x..] {
					if i % 3 != 0 && j % 5 != 0 && !ck.thorough {
						continue;
					}
					let d = D::new().chain_update(&m[..i]).chain_update(&m[i..j]).chain_update(&m[j..n]).finalize();
					r.eq(&b::<D>(d), &want[n].to_vec(), || format!("split at {i}, {j}"))?;
				}
			}
			Ok(())
		});
		ck.case("fixed pieces", || format!("{name} length {n}"), |r| {
			for p in 1..=n.min(70) {
				let mut h = D::new();
				for c in m[..n].chunks(p) {
					Digest::update(&mut h, c);
					Digest::update(&mut h, []);
				}
				r.eq(&b::<D>(h.finalize()), &want[n].to_vec(), || format!("pieces of {p}"))?;
			}
			Ok(())
		});
		// reuse after reset and finalize_reset, and clones that diverge
		ck.case("reset and clone", || format!("{name} length {n}"), |r| {
			for pre in [0, 1, block - 1, block, block + 1, 2 * block + 3] {
				let pre = pre.min(max);
				let mut h = D::new();
				Digest::update(&mut h, &m[..pre]);
				Digest::reset(&mut h);
				Digest::update(&mut h, &m[..n]);
				let c = h.clone();
				r.eq(&b::<D>(h.finalize_reset()), &want[n].to_vec(), || format!("after reset with {pre} bytes absorbed"))?;
				Digest::update(&mut h, &m[..pre]);
				r.eq(&b::<D>(h.finalize()), &want[pre].to_vec(), || format!("after finalize_reset, {pre} bytes"))?;
				r.eq(&b::<D>(c.finalize()), &want[n].to_vec(), || "clone".into())?;
			}
			Ok(())
		});
		ck.case("hash buffer", || format!("{name} length {n}"), |r| {
			for p in [1, 3, 7, 16, 33, 63, 64, 65, 95, 96, 97, 200] {
				let mut h = D::new();
				{
					let mut buf = HashBuffer::new(&mut h);
					for c in m[..n].chunks(p) {
						buf.put_slice(c);
					}
				}
				r.eq(&b::<D>(h.finalize()), &want[n].to_vec(), || format!("buffer fed {p} at a time"))?;
			}
			// through several buffers, each flushed when dropped
			let mut h = D::new();
			for c in m[..n].chunks(37) {
				let mut buf = HashBuffer::new(&mut h);
				for &x in c {
					buf.put_u8(x);
				}
			}
			r.eq(&b::<D>(h.finalize()), &want[n].to_vec(), || "several buffers".into())?;
			let items: Vec<u8> = m[..n].to_vec();
			let d = hash_serialize::<u8, D>(items.iter()).map_err(|e| e.to_string())?;
			r.eq(&b::<D>(d), &want[n].to_vec(), || "hash_serialize of bytes".into())?;
			let w: Vec<BinaryField32b> = m[..n / 4 * 4].chunks(4).map(|c| BinaryField32b::new(u32::from_le_bytes(c.try_into().unwrap()))).collect();
			let d = hash_serialize::<BinaryField32b, D>(&w).map_err(|e| e.to_string())?;
			r.eq(&b::<D>(d), &want[n / 4 * 4].to_vec(), || "hash_serialize of field elements".into())
		});
	});
}

fn multi<M: MultiDigest<N, Digest: Digest>, const N: usize>(ck: &Ck, name: &str, rf: Ref, lens: &[usize]) {
	let run = |m: M| -> Vec<Vec<u8>> {
		let mut out: [MaybeUninit<Output<M::Digest>>; N] = std::array::from_fn(|_| MaybeUninit::uninit());
		m.finalize_into(&mut out);
		out.into_iter().map(|o| unsafe { o.assume_init() }.to_vec()).collect()
	};
	ck.par(lens, |&n| {
		let lanes: Vec<Vec<u8>> = (0..N).map(|i| msg(n, 50 + i as u64)).collect();
		let want: Vec<Vec<u8>> = lanes.iter().map(|l| rf(l).to_vec()).collect();
		let part = |a: usize, z: usize| -> [&[u8]; N] { std::array::from_fn(|i| &lanes[i][a..z]) };
		ck.case("multi-lane", || format!("{name} length {n}"), |r| {
			r.obs(&want);
			let mut out: [MaybeUninit<Output<M::Digest>>; N] = std::array::from_fn(|_| MaybeUninit::uninit());
			M::digest(part(0, n), &mut out);
			let got: Vec<Vec<u8>> = out.into_iter().map(|o| unsafe { o.assume_init() }.to_vec()).collect();
			r.eq(&got, &want, || "digest".into())?;
			let step = if n > 80 && !ck.thorough { 7 } else { 1 };
			for k in (0..=n).step_by(step).chain([n, n.saturating_sub(1), 64.min(n), 63.min(n), 65.min(n)]) {
				r.eq(&run(M::new().chain_update(part(0, k)).chain_update(part(k, n))), &want, || format!("split at {k}"))?;
				let j = (k + n) / 2;
				r.eq(&run(M::new().chain_update(part(0, k)).chain_update(part(k, j)).chain_update(part(j, n))), &want, || format!("split at {k}, {j}"))?;
			}
			// reset
			let mut h = M::new();
			h.update(part(0, n / 2));
			h.reset();
			h.update(part(0, n));
			let mut out: [MaybeUninit<Output<M::Digest>>; N] = std::array::from_fn(|_| MaybeUninit::uninit());
			h.finalize_into_reset(&mut out);
			let got: Vec<Vec<u8>> = out.into_iter().map(|o| unsafe { o.assume_init() }.to_vec()).collect();
			r.eq(&got, &want, || "after reset".into())?;
			h.update(part(0, n));
			r.eq(&run(h), &want, || "after finalize_into_reset".into())?;
			// common prefix
			let pre = msg(n / 3, 4);
			let w: Vec<Vec<u8>> = lanes.iter().map(|l| rf(&[&pre[..], l].concat()).to_vec()).collect();
			r.eq(&run(M::new_with_prefix(&pre).chain_update(part(0, n))), &w, || "common prefix".into())
		});
	});
}

struct Raw(Vec<u8>);
impl Serializable for &Raw {
	fn serialize(self, mut buffer: impl BufMut) {
		buffer.put_slice(&self.0)
	}
}

fn parallel<PD: ParallelDigest>(ck: &Ck, name: &str, rf: Ref, counts: &[usize], lens: &[usize]) {
	let cs: Vec<(usize, usize)> = counts.iter().flat_map(|&c| lens.iter().map(move |&n| (c, n))).collect();
	ck.par(&cs, |&(count, n)| {
		{
			ck.case("parallel", || format!("{name} {count} messages of {n} bytes"), |r| {
				let ms: Vec<Raw> = (0..count).map(|i| Raw(msg(n, 90 + i as u64))).collect();
				for pre in [vec![], msg(5, 2), msg(70, 3)] {
					let h = if pre.is_empty() { PD::new() } else { PD::new_with_prefix(&pre) };
					let mut out: Vec<MaybeUninit<Output<PD::Digest>>> = (0..count).map(|_| MaybeUninit::uninit()).collect();
					h.digest(ms.par_iter(), &mut out);
					let got: Vec<Vec<u8>> = out.into_iter().map(|o| unsafe { o.assume_init() }.to_vec()).collect();
					let want: Vec<Vec<u8>> = ms.iter().map(|m| rf(&[&pre[..], &m.0].concat()).to_vec()).collect();
					r.eq(&got, &want, || format!("prefix of {} bytes", pre.len()))?;
					r.obs(&got);
				}
				// field elements as messages
				let fs: Vec<Vec<BinaryField32b>> = (0..count).map(|i| (0..n / 4).map(|j| BinaryField32b::new(mix128((i * 100 + j) as u64) as u32)).collect()).collect();
				let mut out: Vec<MaybeUninit<Output<PD::Digest>>> = (0..count).map(|_| MaybeUninit::uninit()).collect();
				PD::new().digest(fs.par_iter().map(|f| f.iter().copied()), &mut out);
				let got: Vec<Vec<u8>> = out.into_iter().map(|o| unsafe { o.assume_init() }.to_vec()).collect();
				let want: Vec<Vec<u8>> = fs.iter().map(|f| rf(&f.iter().flat_map(|x| x.val().to_le_bytes()).collect::<Vec<_>>()).to_vec()).collect();
				r.eq(&got, &want, || "field element messages".into())?;
				let fs: Vec<Vec<AESTowerField32b>> = fs.iter().map(|f| f.iter().map(|&x| x.into()).collect()).collect();
				let mut out: Vec<MaybeUninit<Output<PD::Digest>>> = (0..count).map(|_| MaybeUninit::uninit()).collect();
				PD::new().digest(fs.par_iter().map(|f| f.iter().copied()), &mut out);
				let got: Vec<Vec<u8>> = out.into_iter().map(|o| unsafe { o.assume_init() }.to_vec()).collect();
				r.eq(&got, &want, || "isomorphic field elements hash as their canonical form".into())
			});
		}
	});
}

/// the specification's SHA-256 compression of one block from a given state
fn sha_block(st: &mut [u32; 8], block: &[u8]) {
	let primes: Vec<u64> = (2u64..).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).take(64).collect();
	let k: Vec<u32> = primes
		.iter()
		.map(|&p| {
			// frac(cbrt(p)) * 2^32 = cbrt(p * 2^96) mod 2^32
			let (mut lo, mut hi) = (0u128, 1u128 << 40);
			while hi - lo > 1 {
				let m = (lo + hi) / 2;
				if m * m * m <= (p as u128) << 96 { lo = m } else { hi = m }
			}
			lo as u32
		})
		.collect();
	let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
	for i in 16..64 {
		let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ w[i - 15] >> 3;
		let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ w[i - 2] >> 10;
		w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
	}
	let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = *st;
	for i in 0..64 {
		let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
		let t1 = h.wrapping_add(s1).wrapping_add(e & f ^ !e & g).wrapping_add(k[i]).wrapping_add(w[i]);
		let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
		let t2 = s0.wrapping_add(a & b ^ a & c ^ b & c);
		(h, g, f, e, d, c, b, a) = (g, f, e, d.wrapping_add(t1), c, b, a, t1.wrapping_add(t2));
	}
	for (s, v) in st.iter_mut().zip([a, b, c, d, e, f, g, h]) {
		*s = s.wrapping_add(v);
	}
}

fn compressions(ck: &Ck) {
	let mut ins: Vec<(Vec<u8>, Vec<u8>)> = vec![];
	// every single-bit pair input, plus dense ones
	for bit in 0..512usize {
		let mut v = vec![0u8; 64];
		v[bit / 8] = 1 << (bit % 8);
		ins.push((v[..32].to_vec(), v[32..].to_vec()));
	}
	for i in 0..32 {
		ins.push((msg(32, 300 + i), msg(32, 400 + i)));
	}
	ins.push((vec![0; 32], vec![0; 32]));
	ins.push((vec![0xff; 32], vec![0xff; 32]));
	let idx: Vec<usize> = (0..ins.len()).collect();
	ck.par(&idx, |&i| {
		let (a, c) = &ins[i];
		ck.case("compression", || format!("input {i}"), |r| {
			let g = |v: &Vec<u8>| Output::<Groestl256>::clone_from_slice(v);
			let got = Groestl256ByteCompression.compress([g(a), g(c)]).to_vec();
			r.obs(&got);
			r.eq(&got, &groestl_compress(a, c).to_vec(), || "Groestl".into())?;
			let got = Vision32Compression.compress([g(a), g(c)]).to_vec();
			r.eq(&got, &vision32(&[&a[..], c].concat()).to_vec(), || "Vision".into())?;

			let iv = <sha2::Sha256 as sha2::Digest>::digest(b"BINIUS SHA-256 COMPRESS");
			let mut st: [u32; 8] = std::array::from_fn(|i| u32::from_ne_bytes(iv[4 * i..4 * i + 4].try_into().unwrap()));
			sha_block(&mut st, &[&a[..], c].concat());
			let want: Vec<u8> = st.iter().flat_map(|w| w.to_ne_bytes()).collect();
			let got = Sha256Compression::default().compress([sha2::digest::Output::<sha2::Sha256>::clone_from_slice(a), sha2::digest::Output::<sha2::Sha256>::clone_from_slice(c)]).to_vec();
			r.eq(&got, &want, || "SHA-256".into())
		});
	});
	ck.case("sha reference", || "abc".into(), |r| {
		// ties the reference block function to the published IV and test vector
		let mut st: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
		let mut m = b"abc\x80".to_vec();
		m.resize(63, 0);
		m.push(24);
		sha_block(&mut st, &m);
		r.eq(&st[0], &0xba7816bf, || "first word".into())
	});
}

fn permutations(ck: &Ck) {
	// every single-bit state and dense states
	let mut sts: Vec<[u32; 24]> = (0..768).map(|b| std::array::from_fn(|i| if i == b / 32 { 1 << (b % 32) } else { 0 })).collect();
	sts.extend((0..64).map(|s| std::array::from_fn(|i| mix128(s * 31 + i as u64) as u32)));
	sts.push([0; 24]);
	let groups: Vec<&[[u32; 24]]> = sts.chunks(32).collect();
	ck.par(&groups, |g| {
		ck.case("vision permutation", || format!("states from {:?}", &g[0][..2]), |r| {
			let p = binius_hash::Vision32bPermutation::default();
			let want: Vec<[u32; 24]> = g.iter().map(|s| { let mut s = *s; vision_perm(&mut s); s }).collect();
			for (s, w) in g.iter().zip(&want) {
				let mut x: [PackedAESBinaryField8x32b; 3] = std::array::from_fn(|i| PackedAESBinaryField8x32b::from_fn(|j| BinaryField32b::new(s[8 * i + j]).into()));
				p.permute_mut(&mut x);
				let got: Vec<u32> = x.iter().flat_map(|v| v.iter().map(|a| BinaryField32b::from(a).val()).collect::<Vec<_>>()).collect();
				r.eq(&got, &w.to_vec(), || "packed permutation".into())?;
				r.obs(&got);
			}
			let mut x: [ByteSlicedAES32x32b; 24] = std::array::from_fn(|i| ByteSlicedAES32x32b::from_fn(|l| BinaryField32b::new(g[l % g.len()][i]).into()));
			p.permute_mut(&mut x);
			for l in 0..32 {
				let got: Vec<u32> = x.iter().map(|v| BinaryField32b::from(v.get(l)).val()).collect();
				r.eq(&got, &want[l % g.len()].to_vec(), || format!("byte-sliced permutation, lane {l}"))?;
			}
			Ok(())
		});
	});
}

fn main() {
	let ck = Ck::new("C07");
	ck.assume("the isomorphism values on the eight byte basis elements (decided by C03); Vision's round keys and affine coefficients are taken as the specification's parameters");
	ck.bound("all message lengths up to 3 blocks (thorough: 5), all two-way splits, near-boundary three-way splits, all fixed piece sizes up to 70; multi-lane and parallel front ends over lane counts 0..70");
	let max = ck.pick(200, 330);
	single::<Groestl256>(&ck, "Groestl256", groestl256, 64, max);
	single::<VisionHasherDigest>(&ck, "Vision32", vision32, 64, max);
	let lens: Vec<usize> = if ck.thorough { (0..=200).collect() } else { (0..=20).chain(56..=72).chain([96, 97, 120, 127, 128, 129, 130, 191, 192, 193]).collect() };
	multi::<VisionHasherDigestByteSliced, 32>(&ck, "Vision32 byte-sliced", vision32, &lens);
	parallel::<Vision32ParallelDigest>(&ck, "Vision32 parallel", vision32, &[0, 1, 2, 5, 31, 32, 33, 40, 64, 65, 97], &[0, 1, 16, 63, 64, 65, 100]);
	parallel::<VisionHasherDigest>(&ck, "Vision32", vision32, &[0, 1, 2, 5, 33], &[0, 1, 16, 63, 64, 65, 100]);
	parallel::<Groestl256Parallel>(&ck, "Groestl256 parallel", groestl256, &[0, 1, 2, 3, 4, 5, 8, 9, 33], &[0, 1, 16, 55, 56, 57, 63, 64, 65, 100, 128]);
	parallel::<Groestl256>(&ck, "Groestl256", groestl256, &[0, 1, 2, 3, 4, 5, 8, 9, 33], &[0, 1, 16, 55, 56, 57, 63, 64, 65, 100, 128]);
	compressions(&ck);
	permutations(&ck);
	ck.finish()
}
