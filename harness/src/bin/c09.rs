//! C09: transcripts. All operation sequences over a small alphabet, executed on the real prover and
//! verifier transcripts and compared, step by step, with a plain model of the challenger.
use binius_core::{
	fiat_shamir::{CanSample, CanSampleBits, Challenger, HasherChallenger},
	transcript::{ProverTranscript, VerifierTranscript, read_u64, write_u64},
};
use binius_field::*;
use binius_hash::groestl::Groestl256;
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use bytes::{Buf, BufMut};
use digest::Digest;
use vharness::*;

type Ch = HasherChallenger<Groestl256>;

/// Plain model of the documented challenger, over an independent Groestl implementation.
#[derive(Clone)]
struct Model {
	data: Vec<u8>,
	buf: Vec<u8>,
	idx: usize,
	sampling: bool,
}
fn h(d: &[u8]) -> Vec<u8> {
	groestl_crypto::Groestl256::digest(d).to_vec()
}
impl Model {
	fn new() -> Self {
		let d = h(&[]);
		Self { data: d.clone(), buf: d, idx: 0, sampling: true }
	}
	fn observe(&mut self, b: &[u8]) {
		if self.sampling {
			self.sampling = false;
			self.data.extend((self.idx as u64).to_le_bytes());
		}
		self.data.extend_from_slice(b);
	}
	fn sample(&mut self, n: usize) -> Vec<u8> {
		if !self.sampling {
			self.sampling = true;
			self.idx = 32;
		}
		(0..n)
			.map(|_| {
				if self.idx == 32 {
					self.buf = h(&self.data);
					self.data = self.buf.clone();
					self.idx = 0;
				}
				self.idx += 1;
				self.buf[self.idx - 1]
			})
			.collect()
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
	Obs(usize),
	Msg(usize),
	Dec(usize),
	Samp128,
	Samp8,
	Bits(usize),
}
use Op::*;

fn payload(i: usize, n: usize, salt: u64) -> Vec<u8> {
	(0..n).map(|j| mix((i * 1000 + j) as u64 ^ salt << 32) as u8).collect()
}

/// Runs the sequence with the given payloads on prover, verifier and model.
/// Returns the challenge stream (as drawn by the prover).
fn run_seq(r: &mut Run, seq: &[Op], pay: &[Vec<u8>]) -> Result<Vec<u128>, String> {
	let mut p = ProverTranscript::<Ch>::new();
	let mut m = Model::new();
	let mut tape = vec![];
	let mut want = vec![];
	let mut got = vec![];
	for (i, op) in seq.iter().enumerate() {
		match *op {
			Obs(_) => {
				p.observe().write_bytes(&pay[i]);
				m.observe(&pay[i]);
			}
			Msg(_) => {
				p.message().write_bytes(&pay[i]);
				if !pay[i].is_empty() {
					m.observe(&pay[i]);
				}
				tape.extend_from_slice(&pay[i]);
			}
			Dec(_) => {
				p.decommitment().write_bytes(&pay[i]);
				tape.extend_from_slice(&pay[i]);
			}
			Samp128 => {
				let f: BinaryField128b = p.sample();
				got.push(f.val());
				want.push(u128::from_le_bytes(m.sample(16).try_into().unwrap()));
			}
			Samp8 => {
				let f: BinaryField8b = p.sample();
				got.push(f.val() as u128);
				want.push(m.sample(1)[0] as u128);
			}
			Bits(k) => {
				let x: u32 = p.sample_bits(k);
				got.push(x as u128);
				let w = u32::from_le_bytes(m.sample(4).try_into().unwrap());
				want.push(if k >= 32 { w } else { w & ((1u32 << k) - 1) } as u128);
			}
		}
	}
	r.eq(&got, &want, || "prover challenges".into())?;
	let bytes = p.finalize();
	r.eq(&bytes, &tape, || "proof tape".into())?;
	// verifier
	let mut v = VerifierTranscript::<Ch>::new(bytes.clone());
	let mut vgot = vec![];
	for (i, op) in seq.iter().enumerate() {
		match *op {
			Obs(_) => v.observe().write_bytes(&pay[i]),
			Msg(_) => {
				let mut b = vec![0; pay[i].len()];
				v.message().read_bytes(&mut b).map_err(|e| format!("read: {e}"))?;
				r.eq(&b, &pay[i], || "message read back".into())?;
			}
			Dec(_) => {
				let mut b = vec![0; pay[i].len()];
				v.decommitment().read_bytes(&mut b).map_err(|e| format!("read: {e}"))?;
				r.eq(&b, &pay[i], || "decommitment read back".into())?;
			}
			Samp128 => {
				let f: BinaryField128b = v.sample();
				vgot.push(f.val())
			}
			Samp8 => {
				let f: BinaryField8b = v.sample();
				vgot.push(f.val() as u128)
			}
			Bits(k) => {
				let x: u32 = v.sample_bits(k);
				vgot.push(x as u128)
			}
		}
	}
	r.eq(&vgot, &want, || "verifier challenges".into())?;
	v.finalize().map_err(|e| format!("finalize after reading all: {e}"))?;
	r.obs(&got);
	// an over-long tape is refused
	let mut long = bytes;
	long.push(0);
	let mut v = VerifierTranscript::<Ch>::new(long);
	let n = tape.len();
	let mut b = vec![0; n];
	v.message().read_bytes(&mut b).map_err(|e| format!("read: {e}"))?;
	r.ok(v.finalize().is_err(), || "finalize accepted unread bytes".into())?;
	if n > 0 {
		let mut v = VerifierTranscript::<Ch>::new(tape[..n - 1].to_vec());
		let mut b = vec![0; n];
		r.ok(v.message().read_bytes(&mut b).is_err(), || "short message tape accepted".into())?;
		let mut v = VerifierTranscript::<Ch>::new(tape[..n - 1].to_vec());
		r.ok(v.decommitment().read_bytes(&mut b).is_err(), || "short advice tape accepted".into())?;
	}
	Ok(got)
}

/// The challenger itself, driven through Buf/BufMut with every split of the same data.
fn challenger_direct(ck: &Ck) {
	let lens: &[usize] = &[1, 8, 31, 32, 33, 63, 64, 65, 128, 129];
	for &a in lens {
		for &b in lens {
			for &s in &[1usize, 7, 31, 32, 33, 64, 65] {
				ck.case("challenger-splits", || format!("observe {a},{b} sample {s} then observe {a}"), |r| {
					let d = payload(0, a + b, 3);
					let mut m = Model::new();
					m.observe(&d);
					let w1 = m.sample(s);
					m.observe(&d[..a]);
					let w2 = m.sample(40);
					let mut c = Ch::default();
					c.observer().put_slice(&d[..a]);
					c.observer().put_slice(&d[a..]);
					let mut g1 = vec![0; s];
					c.sampler().copy_to_slice(&mut g1);
					for x in &d[..a] {
						c.observer().put_u8(*x);
					}
					let mut g2 = vec![0; 40];
					for x in g2.iter_mut() {
						*x = c.sampler().get_u8();
					}
					r.eq(&g1, &w1, || "first challenge".into())?;
					r.eq(&g2, &w2, || "second challenge".into())
				});
			}
		}
	}
}

fn ser<T: SerializeBytes>(t: &T) -> Vec<u8> {
	let mut v = vec![];
	t.serialize(&mut v, SerializationMode::CanonicalTower).unwrap();
	v
}

/// Every typed writer followed by the matching reader, in all three channels.
fn typed(ck: &Ck) {
	macro_rules! scalars {
		($($t:ty),*) => { $(
			for chan in 0..3 { for n in [0usize, 1, 2, 5] {
				ck.case("typed-values", || format!("{} x{n} channel {chan}", stringify!($t)), |r| {
					let xs: Vec<$t> = (0..n).map(|i| {
						let b = mix128(i as u64 + 5).to_le_bytes();
						<$t>::deserialize(&b[..], SerializationMode::CanonicalTower).unwrap()
					}).collect();
					let mut bytes = vec![];
					for x in &xs { bytes.extend(ser(x)); }
					let mut m = Model::new();
					let mut p = ProverTranscript::<Ch>::new();
					macro_rules! w { ($w:expr) => {{ let mut w = $w;
						w.write_scalar_slice(&xs);
						w.write_scalar_iter(xs.iter().copied());
						w.write_slice(&xs);
						for x in &xs { w.write_scalar(*x); w.write(x); }
						w.write_packed_slice::<$t>(&xs);
						w.write_packed_iter::<$t>(xs.iter().copied());
					}}}
					match chan { 0 => w!(p.message()), 1 => w!(p.decommitment()), _ => w!(p.observe()) }
					let mut all = vec![];
					for _ in 0..3 { all.extend(&bytes); }
					for x in &xs { all.extend(ser(x)); all.extend(ser(x)); }
					for _ in 0..2 { all.extend(&bytes); }
					if chan == 2 || (chan == 0 && n > 0) { m.observe(&all); }
					let c: BinaryField128b = p.sample();
					let want = u128::from_le_bytes(m.sample(16).try_into().unwrap());
					r.eq(&c.val(), &want, || "challenge after typed writes".into())?;
					let tape = p.finalize();
					if chan == 2 { return r.eq(&tape.len(), &0, || "observe must not write".into()); }
					r.eq(&tape, &all, || "tape".into())?;
					let mut v = VerifierTranscript::<Ch>::new(tape.clone());
					macro_rules! rd { ($w:expr) => {{ let mut w = $w;
						let e = |e: binius_core::transcript::Error| format!("read error {e}");
						r.eq(&w.read_scalar_slice::<$t>(n).map_err(e)?, &xs, || "read_scalar_slice".into())?;
						let mut o = vec![<$t>::default(); n];
						w.read_scalar_slice_into::<$t>(&mut o).map_err(e)?;
						r.eq(&o, &xs, || "read_scalar_slice_into".into())?;
						r.eq(&w.read_vec::<$t>(n).map_err(e)?, &xs, || "read_vec".into())?;
						for x in &xs { r.eq(&w.read_scalar::<$t>().map_err(e)?, x, || "read_scalar".into())?;
							r.eq(&w.read::<$t>().map_err(e)?, x, || "read".into())?; }
						r.eq(&w.read_packed_slice::<$t>(n).map_err(e)?, &xs, || "read_packed_slice".into())?;
						for x in &xs { r.eq(&w.read_packed::<$t>().map_err(e)?, x, || "read_packed".into())?; }
					}}}
					if chan == 0 { rd!(v.message()) } else { rd!(v.decommitment()) }
					let c: BinaryField128b = v.sample();
					r.eq(&c.val(), &want, || "verifier challenge after typed reads".into())?;
					r.obs(&want);
					v.finalize().map_err(|e| e.to_string())?;
					// every truncation gives an error
					for cut in 0..tape.len() {
						let mut v = VerifierTranscript::<Ch>::new(tape[..cut].to_vec());
						let res: Result<Vec<$t>, _> = v.message().read_vec(n * 7);
						r.ok(res.is_err(), || format!("read_vec accepted a tape cut at {cut}"))?;
						let mut v = VerifierTranscript::<Ch>::new(tape[..cut].to_vec());
						r.ok(v.decommitment().read_scalar_slice::<$t>(n * 7).is_err(), || format!("read_scalar_slice accepted a tape cut at {cut}"))?;
						let mut v = VerifierTranscript::<Ch>::new(tape[..cut].to_vec());
						r.ok(v.message().read_packed_slice::<$t>(n * 7).is_err(), || format!("read_packed_slice accepted a tape cut at {cut}"))?;
					}
					Ok(())
				});
			}}
		)* }
	}
	scalars!(
		BinaryField1b, BinaryField2b, BinaryField4b, BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b,
		AESTowerField8b, AESTowerField16b, AESTowerField32b, AESTowerField64b, AESTowerField128b, BinaryField128bPolyval
	);
	for k in 0..=64usize {
		ck.case("u64-helpers-and-bits", || format!("{k}"), |r| {
			let n = if k == 64 { u64::MAX } else { 1u64 << k };
			let mut p = ProverTranscript::<Ch>::new();
			write_u64(&mut p.message(), n);
			let pb: u32 = p.sample_bits(k);
			let mut m = Model::new();
			m.observe(&n.to_le_bytes());
			let w = u32::from_le_bytes(m.sample(4).try_into().unwrap());
			let w = if k >= 32 { w } else { w & ((1 << k) - 1) };
			r.eq(&pb, &w, || format!("sample_bits({k})"))?;
			let mut v = p.into_verifier();
			r.eq(&read_u64(&mut v.message()).map_err(|e| e.to_string())?, &n, || "u64".into())?;
			let vb: u32 = v.sample_bits(k);
			r.eq(&vb, &w, || format!("verifier sample_bits({k})"))?;
			v.finalize().map_err(|e| e.to_string())
		});
	}
}

fn main() {
	check("C09", explore_all)
}

fn explore_all(ck: &Ck) {
	let alpha = [
		Samp128, Msg(1), Obs(1), Dec(1), Samp8, Bits(5), Msg(64), Msg(33), Obs(65), Dec(32), Msg(16), Obs(0), Msg(0), Bits(32), Obs(63),
	];
	let depth = ck.pick(5, 6);
	ck.bound(format!("all sequences of length <= {depth} over {alpha:?}"));
	for d in 0..=depth {
		let seqs: Vec<Vec<usize>> = sequences(alpha.len(), d).collect();
		ck.par(&seqs, |s| {
			let ops: Vec<Op> = s.iter().map(|&i| alpha[i]).collect();
			ck.case("sequences", || format!("{ops:?}"), |r| {
				let pay: Vec<Vec<u8>> = ops.iter().enumerate().map(|(i, o)| match o { Obs(n) | Msg(n) | Dec(n) => payload(i, *n, 0), _ => vec![] }).collect();
				run_seq(r, &ops, &pay).map(|_| ())
			});
		});
	}
	// long sampling runs and long observations around the block and digest sizes
	let long = [Msg(200), Obs(127), Msg(128), Obs(191), Samp128, Bits(32), Dec(100)];
	for d in 1..=3 {
		for s in sequences(long.len(), d) {
			for reps in [1, 3] {
				let ops: Vec<Op> = (0..reps).flat_map(|_| s.iter().map(|&i| long[i])).chain([Samp128, Samp128, Samp128]).collect();
				ck.case("long-sequences", || format!("{ops:?}"), |r| {
					let pay: Vec<Vec<u8>> = ops.iter().enumerate().map(|(i, o)| match o { Obs(n) | Msg(n) | Dec(n) => payload(i, *n, 9), _ => vec![] }).collect();
					run_seq(r, &ops, &pay).map(|_| ())
				});
			}
		}
	}
	// binding: flip each byte of each observed payload; every later 128-bit challenge must change, earlier ones and
	// those after a flipped decommitment must not
	let balpha = [Samp128, Msg(1), Obs(1), Dec(1), Msg(65), Obs(64), Msg(16)];
	for d in 1..=3 {
		let seqs: Vec<Vec<usize>> = sequences(balpha.len(), d).collect();
		ck.par(&seqs, |s| {
			let mut ops: Vec<Op> = s.iter().map(|&i| balpha[i]).collect();
			ops.extend([Samp128, Samp128, Samp128]);
			let pay: Vec<Vec<u8>> = ops.iter().enumerate().map(|(i, o)| match o { Obs(n) | Msg(n) | Dec(n) => payload(i, *n, 1), _ => vec![] }).collect();
			ck.case("binding", || format!("{ops:?}"), |r| {
				let base = run_seq(r, &ops, &pay)?;
				for i in 0..ops.len() {
					for j in 0..pay[i].len() {
						let mut q = pay.clone();
						q[i][j] ^= 1 << (j % 8);
						let alt = run_seq(r, &ops, &q)?;
						let before = ops[..i].iter().filter(|o| **o == Samp128).count();
						for k in 0..base.len() {
							let same = k < before || matches!(ops[i], Dec(_));
							r.ok((base[k] == alt[k]) == same, || format!("flip of byte {j} of op {i}: challenge {k} same={}", base[k] == alt[k]))?;
						}
					}
				}
				Ok(())
			});
		});
	}
	challenger_direct(ck);
	typed(ck);
}
