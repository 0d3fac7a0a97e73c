//! C05: the additive NTT against its definition (novel polynomial basis), all shapes, cosets, skipped rounds, variants.
use binius_field::*;
use binius_math::BinarySubspace;
use binius_ntt::{
	AdditiveNTT, DynamicDispatchNTT, NTTOptions, NTTShape, OddInterpolate, SingleThreadedNTT, ThreadingSettings,
	twiddle::{OnTheFlyTwiddleAccess, PrecomputedTwiddleAccess, TwiddleAccess},
};
use vharness::{nttref::*, *};

fn val<F: BinaryField + WithBits>(i: usize, salt: u64) -> F {
	F::bits(mix128(i as u64 * 7919 + salt * 104729 + 5))
}
pub trait WithBits: Sized {
	fn bits(v: u128) -> Self;
}
macro_rules! bits { ($($t:ty: $u:ty),*) => { $(impl WithBits for $t { fn bits(v: u128) -> Self { <$t>::new(v as $u) } })* } }
bits!(BinaryField8b: u8, BinaryField16b: u16, BinaryField32b: u32, BinaryField64b: u64, BinaryField128b: u128,
	AESTowerField8b: u8, AESTowerField16b: u16, AESTowerField32b: u32, AESTowerField128b: u128);

#[derive(Clone, Copy, Debug)]
struct Cfg {
	l: usize,
	sh: (usize, usize, usize),
	cb: usize,
	coset: usize,
	skip: usize,
}
impl Cfg {
	fn shape(&self) -> NTTShape {
		NTTShape { log_x: self.sh.0, log_y: self.sh.1, log_z: self.sh.2 }
	}
}

fn pack<P: PackedField>(v: &[P::Scalar], fill: impl Fn(usize) -> P::Scalar) -> Vec<P> {
	let n = v.len().div_ceil(P::WIDTH);
	(0..n)
		.map(|i| {
			let s: Vec<P::Scalar> = (0..P::WIDTH).map(|j| *v.get(i * P::WIDTH + j).unwrap_or(&fill(j))).collect();
			P::from_scalars(s)
		})
		.collect()
}
fn unpack<P: PackedField>(v: &[P], n: usize) -> Vec<P::Scalar> {
	v.iter().flat_map(|p| p.into_iter()).take(n).collect()
}

/// the definition, applied along the middle axis
fn reference<F: BinaryField>(nov: &Novel<F>, c: &Cfg, data: &[F]) -> Vec<F> {
	let (lx, ly, lz) = c.sh;
	let m = ly - c.skip;
	let mut out = vec![F::ZERO; data.len()];
	// rows of the evaluation matrix for every point of the coset
	for y in 0..1usize << ly {
		let p = c.coset << ly | y;
		let ch = y >> m;
		let row: Vec<F> = (0..1usize << m).map(|k| nov.x(k, p)).collect();
		for z in 0..1usize << lz {
			for x in 0..1usize << lx {
				let at = |y: usize| z << (lx + ly) | y << lx | x;
				out[at(y)] = row.iter().enumerate().map(|(k, &r)| r * data[at(ch << m | k)]).sum();
			}
		}
	}
	out
}

fn configs(l: usize, lw: usize, ck: &Ck) -> Vec<Cfg> {
	let mut v = vec![];
	let lim = ck.pick(9, 11).max(lw + 2);
	for x in 0..=(lw + 1).min(ck.pick(4, 6)) {
		for y in 0..=l {
			for z in 0..=ck.pick(2, 3) {
				if x + y + z > lim {
					continue;
				}
				for cb in 0..=(l - y).min(ck.pick(2, 3)) {
					for coset in 0..1usize << cb {
						for skip in 0..=y {
							v.push(Cfg { l, sh: (x, y, z), cb, coset, skip });
						}
					}
				}
			}
		}
	}
	v
}

fn one<F: BinaryField, P: PackedField<Scalar = F>>(
	r: &mut Run, ntt: &impl AdditiveNTT<F>, name: &str, c: &Cfg, data: &[F], want: &[F], fill: impl Fn(usize) -> F + Copy,
) -> R {
	let mut buf = pack::<P>(data, fill);
	ntt.forward_transform(&mut buf, c.shape(), c.coset, c.cb, c.skip).map_err(|e| format!("{name}: forward refused: {e}"))?;
	r.eq(&unpack(&buf, data.len()), &want.to_vec(), || format!("{name}: forward transform"))?;
	let mut buf = pack::<P>(want, fill);
	ntt.inverse_transform(&mut buf, c.shape(), c.coset, c.cb, c.skip).map_err(|e| format!("{name}: inverse refused: {e}"))?;
	r.eq(&unpack(&buf, data.len()), &data.to_vec(), || format!("{name}: inverse transform"))
}

fn threads(log_threads: usize) -> ThreadingSettings {
	if log_threads == 0 { ThreadingSettings::SingleThreaded } else { ThreadingSettings::ExplicitThreadsCount { log_threads } }
}

fn packed<F: BinaryField + WithBits, P: PackedField<Scalar = F>>(ck: &Ck, name: &str, ls: &[usize]) {
	for &l in ls {
		let basis: Vec<F> = (0..l).map(|i| F::basis(i)).collect();
		let novs: Vec<Novel<F>> = (0..=l).map(|n| Novel::new(&sub_basis(&basis, n))).collect();
		let mut ntts = vec![];
		for pre in [false, true] {
			for lt in 0..=ck.pick(3, 5) {
				ntts.push((format!("precompute={pre} log_threads={lt}"), DynamicDispatchNTT::<F>::new(l, &NTTOptions { precompute_twiddles: pre, thread_settings: threads(lt) }).unwrap()));
			}
		}
		let cfgs = configs(l, P::LOG_WIDTH, ck);
		ck.par(&cfgs, |c| {
			let n = 1usize << (c.sh.0 + c.sh.1 + c.sh.2);
			ck.case(name, || format!("{c:?}"), |r| {
				let nov = &novs[c.sh.1 + c.cb];
				let mut datas: Vec<Vec<F>> = vec![(0..n).map(|i| val::<F>(i, c.skip as u64)).collect()];
				if n <= ck.pick(16, 32) {
					datas.extend((0..n).map(|b| (0..n).map(|i| if i == b { F::ONE } else { F::ZERO }).collect()));
				}
				for data in &datas {
					let want = reference(nov, c, data);
					r.obs_dbg(&want[want.len() - 1]);
					for (nm, ntt) in &ntts {
						one::<F, P>(r, ntt, nm, c, data, &want, |j| val::<F>(j, 99))?;
					}
				}
				Ok(())
			});
		});
	}
}

/// Everything about the domains: subspaces, twiddles of both kinds, cosets of twiddles, constructors.
fn domains<F: BinaryField + WithBits>(ck: &Ck, name: &str, l_max: usize) {
	let mut cases: Vec<(String, Vec<F>)> = vec![];
	for l in 1..=l_max {
		cases.push((format!("canonical {l}"), (0..l).map(|i| F::basis(i)).collect()));
		// 1 followed by a scrambled independent basis: unitriangular change of basis
		cases.push((format!("scrambled {l}"), (0..l).map(|i| F::basis(i) + if i > 1 { F::basis(i - 1) + F::ONE } else { F::ZERO }).collect()));
		if l > 2 {
			let mut v: Vec<F> = (1..l).map(|i| F::basis(i)).rev().collect();
			v.insert(0, F::ONE);
			cases.push((format!("reversed {l}"), v));
		}
	}
	ck.par(&cases, |(nm, b)| {
		ck.case("domains", || format!("{name} {nm}"), |r| {
			let l = b.len();
			let sub = BinarySubspace::new_unchecked(b.clone());
			let ntt = SingleThreadedNTT::<F>::with_subspace(&sub).map_err(|e| e.to_string())?;
			let otf = OnTheFlyTwiddleAccess::generate(&sub).map_err(|e| e.to_string())?;
			let pre = PrecomputedTwiddleAccess::generate(&sub).map_err(|e| e.to_string())?;
			let ptt = ntt.precompute_twiddles();
			r.eq(&ntt.log_domain_size(), &l, || "log_domain_size".into())?;
			for i in 1..=l {
				let d = sub_basis(b, i);
				let pts = span(&d);
				r.eq(&ntt.subspace(i).basis().to_vec(), &d, || format!("subspace({i})"))?;
				r.eq(&ptt.subspace(i).basis().to_vec(), &d, || format!("precomputed subspace({i})"))?;
				r.eq(&ntt.subspace(i).iter().collect::<Vec<_>>(), &pts, || format!("subspace({i}).iter()"))?;
				let (o, p) = (&otf[l - i], &pre[l - i]);
				r.eq(&(o.log_n(), p.log_n()), &(i - 1, i - 1), || "twiddle log_n".into())?;
				for j in 0..1usize << (i - 1) {
					let want = pts[2 * j];
					r.eq(&ntt.get_subspace_eval(i, j), &want, || format!("get_subspace_eval({i}, {j})"))?;
					r.eq(&ptt.get_subspace_eval(i, j), &want, || format!("precomputed get_subspace_eval({i}, {j})"))?;
					r.eq(&(o.get(j), p.get(j)), &(want, want), || format!("twiddle layer {} index {j}", l - i))?;
					for bits in 0..i - 1 {
						if j >> bits == 0 {
							let w = (want, pts[2 * (j | 1 << bits)]);
							r.eq(&o.get_pair(bits, j), &w, || format!("on-the-fly pair {bits} {j}"))?;
							r.eq(&p.get_pair(bits, j), &w, || format!("precomputed pair {bits} {j}"))?;
						}
					}
				}
				for cb in 0..i {
					for c in 0..1usize << cb {
						let (oc, pc) = (o.coset(cb, c), p.coset(cb, c));
						let n = i - 1 - cb;
						r.eq(&(oc.log_n(), pc.log_n()), &(n, n), || "coset log_n".into())?;
						for j in 0..1usize << n {
							let w = pts[2 * (c << n | j)];
							r.eq(&(oc.get(j), pc.get(j)), &(w, w), || format!("coset {c}/{cb} of layer {} at {j}", l - i))?;
							for bits in 0..n {
								if j >> bits == 0 {
									let w2 = (w, pts[2 * (c << n | 1 << bits | j)]);
									r.eq(&(oc.get_pair(bits, j), pc.get_pair(bits, j)), &(w2, w2), || "coset pair".into())?;
								}
							}
						}
						for (s, off) in [oc.affine_subspace(), pc.affine_subspace()] {
							r.eq(&off, &pts[2 * (c << n)], || "coset shift".into())?;
							let w: Vec<F> = d[..=n].to_vec();
							r.eq(&s.basis().to_vec(), &w, || "coset direction".into())?;
						}
					}
				}
			}
			r.obs_dbg(&ntt.subspace(1));
			// transforms on this very domain
			for y in 0..=l {
				for cb in 0..=(l - y).min(2) {
					let nov = Novel::new(&sub_basis(b, y + cb));
					for coset in 0..1usize << cb {
						let c = Cfg { l, sh: (1, y, 0), cb, coset, skip: y / 2 };
						let data: Vec<F> = (0..2 << y).map(|i| val::<F>(i, 3)).collect();
						let want = reference(&nov, &c, &data);
						one::<F, F>(r, &ntt, "custom domain", &c, &data, &want, |_| F::ZERO)?;
						one::<F, F>(r, &ptt, "custom domain, precomputed", &c, &data, &want, |_| F::ZERO)?;
					}
				}
			}
			Ok(())
		});
	});
	ck.case("domain errors", || name.into(), |r| {
		r.ok(SingleThreadedNTT::<F>::new(F::N_BITS + 1).is_err(), || "a domain larger than the field was accepted".into())?;
		r.ok(SingleThreadedNTT::<F>::new(0).is_err(), || "an empty domain was accepted".into())?;
		let bad = BinarySubspace::new_unchecked(vec![F::basis(1), F::ONE]);
		r.ok(SingleThreadedNTT::<F>::with_subspace(&bad).is_err(), || "a basis not starting with 1 was accepted".into())
	});
}

fn errors<F: BinaryField + WithBits, P: PackedField<Scalar = F>>(ck: &Ck, name: &str) {
	let l = 5;
	for pre in [false, true] {
		for lt in 0..3 {
			let ntt = DynamicDispatchNTT::<F>::new(l, &NTTOptions { precompute_twiddles: pre, thread_settings: threads(lt) }).unwrap();
			for x in 0..3usize {
				for y in 0..=6usize {
					for z in 0..2usize {
						for extra in -1..=1i32 {
							for cb in 0..4usize {
								for coset in 0..=1usize << cb {
									for skip in 0..=y + 1 {
										let tot = x + y + z;
										// the packed length the shape asks for, off by factors of two
										let ll = tot as i32 - P::LOG_WIDTH as i32 + extra;
										if ll < 0 || (extra != 0 && ll < 2) {
											continue;
										}
										let valid = extra == 0 && skip <= y && coset < 1 << cb && y + cb <= l;
										if valid {
											continue;
										}
										ck.case("refusals", || format!("{name} {pre} {lt} shape {x},{y},{z} packed log length {ll} coset {coset}/{cb} skip {skip}"), |r| {
											let shape = NTTShape { log_x: x, log_y: y, log_z: z };
											let data: Vec<P> = vec![P::broadcast(F::ONE); 1 << ll];
											for inv in [false, true] {
												let mut d = data.clone();
												let res = if inv { ntt.inverse_transform(&mut d, shape, coset, cb, skip) } else { ntt.forward_transform(&mut d, shape, coset, cb, skip) };
												r.ok(res.is_err(), || format!("inverse={inv}: parameters outside the domain were accepted"))?;
												r.ok(d == data, || "refused call changed its data".into())?;
											}
											Ok(())
										});
									}
								}
							}
						}
					}
				}
			}
		}
	}
	ck.case("refusals", || format!("{name} length not a power of two"), |r| {
		let ntt = SingleThreadedNTT::<F>::new(l).unwrap();
		let mut d = vec![P::default(); 3];
		r.ok(ntt.forward_transform(&mut d, NTTShape { log_x: 0, log_y: 1, log_z: 0 }, 0, 0, 0).is_err(), || "3 packed elements accepted".into())
	});
}

fn ext<F, PE>(ck: &Ck, name: &str, l: usize)
where
	F: BinaryField + WithBits,
	PE: PackedExtension<F>,
	PE::Scalar: ExtensionField<F>,
{
	let basis: Vec<F> = (0..l).map(|i| F::basis(i)).collect();
	let novs: Vec<Novel<F>> = (0..=l).map(|n| Novel::new(&sub_basis(&basis, n))).collect();
	let ntts: Vec<_> = [(false, 0), (true, 0), (false, 1), (true, 2)]
		.map(|(pre, lt)| DynamicDispatchNTT::<F>::new(l, &NTTOptions { precompute_twiddles: pre, thread_settings: threads(lt) }).unwrap())
		.into();
	let cfgs: Vec<Cfg> = configs(l, PE::LOG_WIDTH, ck).into_iter().filter(|c| c.sh.0 <= 2 && c.sh.2 <= 1).collect();
	ck.par(&cfgs, |c| {
		ck.case("extension transforms", || format!("{name} {c:?}"), |r| {
			let nov = &novs[c.sh.1 + c.cb];
			let n = 1usize << (c.sh.0 + c.sh.1 + c.sh.2);
			let deg = <PE::Scalar as ExtensionField<F>>::DEGREE;
			let data: Vec<PE::Scalar> = (0..n).map(|i| PE::Scalar::from_bases((0..deg).map(|j| val::<F>(i * deg + j, 8))).unwrap()).collect();
			// coordinate-wise
			let mut want = vec![vec![]; n];
			for j in 0..deg {
				let col: Vec<F> = data.iter().map(|d| d.get_base(j)).collect();
				for (w, v) in want.iter_mut().zip(reference(nov, c, &col)) {
					w.push(v);
				}
			}
			let want: Vec<PE::Scalar> = want.into_iter().map(|w| PE::Scalar::from_bases(w).unwrap()).collect();
			for (k, ntt) in ntts.iter().enumerate() {
				let mut b = pack::<PE>(&data, |_| <PE::Scalar as Field>::ONE);
				ntt.forward_transform_ext(&mut b, c.shape(), c.coset, c.cb, c.skip).map_err(|e| e.to_string())?;
				r.eq(&unpack(&b, n), &want, || format!("forward_transform_ext, variant {k}"))?;
				ntt.inverse_transform_ext(&mut b, c.shape(), c.coset, c.cb, c.skip).map_err(|e| e.to_string())?;
				r.eq(&unpack(&b, n), &data, || format!("inverse_transform_ext, variant {k}"))?;
			}
			r.obs_dbg(&want[n - 1]);
			Ok(())
		});
	});
}

fn odd<F: BinaryField + WithBits>(ck: &Ck, name: &str, l: usize) {
	let basis: Vec<F> = (0..l).map(|i| F::basis(i)).collect();
	let ntt = SingleThreadedNTT::<F>::new(l).unwrap();
	let novs: Vec<Novel<F>> = (0..=l).map(|n| Novel::new(&sub_basis(&basis, n))).collect();
	let mut cs = vec![];
	for ell in 0..=4usize {
		for cb in 0..=5usize {
			for d in 1..=(1usize << cb) + 1 {
				cs.push((ell, cb, d));
			}
		}
	}
	ck.par(&cs, |&(ell, cb, d)| {
		ck.case("odd interpolation", || format!("{name} L {l} ell {ell} coset bits {cb} d {d}"), |r| {
			let o = OddInterpolate::new(&ntt, d, ell, cb);
			if d > 1 << cb || ell + cb > l {
				return r.ok(o.is_err(), || "domain out of range accepted".into());
			}
			let o = o.map_err(|e| e.to_string())?;
			let n = d << ell;
			let nov = &novs[ell + cb];
			let mut datas: Vec<Vec<F>> = vec![(0..n).map(|i| val::<F>(i, 4)).collect()];
			if n <= 24 {
				datas.extend((0..n).map(|b| (0..n).map(|i| if i == b { F::ONE } else { F::ZERO }).collect()));
			}
			for coef in datas {
				let mut ev: Vec<F> = (0..n).map(|p| (0..n).map(|k| coef[k] * nov.x(k, p)).sum()).collect();
				o.inverse_transform(&mut ev).map_err(|e| e.to_string())?;
				r.eq(&ev, &coef, || "coefficients".into())?;
			}
			let mut bad = vec![F::ONE; n + 1];
			r.ok(o.inverse_transform(&mut bad).is_err(), || "wrong length accepted".into())
		});
	});
}

/// The same transform through an isomorphic domain field.
fn iso<F, FD>(ck: &Ck, name: &str, l: usize)
where
	F: BinaryField + WithBits + From<FD>,
	FD: BinaryField,
{
	ck.case("domain field", || format!("{name} {l}"), |r| {
		let ntt = SingleThreadedNTT::<F>::with_domain_field::<FD>(l).map_err(|e| e.to_string())?;
		let b: Vec<F> = (0..l).map(|i| F::from(FD::basis(i))).collect();
		for y in 0..=l {
			let nov = Novel::new(&sub_basis(&b, l));
			if y > 0 {
				r.eq(&ntt.subspace(y).basis().to_vec(), &sub_basis(&b, y), || "subspace".into())?;
			}
			for coset in [0, (1usize << (l - y)) - 1] {
				let c = Cfg { l, sh: (0, y, 0), cb: l - y, coset, skip: 0 };
				let data: Vec<F> = (0..1 << y).map(|i| val::<F>(i, 3)).collect();
				let want = reference(&nov, &c, &data);
				one::<F, F>(r, &ntt, "isomorphic domain", &c, &data, &want, |_| F::ZERO)?;
				one::<F, F>(r, &ntt.precompute_twiddles(), "isomorphic domain", &c, &data, &want, |_| F::ZERO)?;
			}
		}
		Ok(())
	});
}

fn main() {
	let ck = Ck::new("C05");
	ck.assume("scalar field arithmetic (decided by C01); packed arithmetic is exercised through the transform");
	ck.bound("domains up to 2^6 (thorough: 2^8), interleave up to 2^4, consecutive batch up to 2^2, every coset up to 2 coset bits, every skipped-round count; generic dense data and every unit vector up to 16 elements");
	let l6 = [1, 2, 3, ck.pick(5, 7)];
	let l5: &[usize] = &l6[1..];
	domains::<BinaryField8b>(&ck, "8b", ck.pick(7, 8));
	domains::<BinaryField32b>(&ck, "32b", ck.pick(7, 8));
	domains::<AESTowerField8b>(&ck, "aes8b", ck.pick(6, 8));
	domains::<BinaryField128b>(&ck, "128b", ck.pick(6, 7));
	packed::<BinaryField8b, BinaryField8b>(&ck, "BinaryField8b", &l6);
	packed::<BinaryField8b, PackedBinaryField16x8b>(&ck, "PackedBinaryField16x8b", &l6);
	packed::<BinaryField8b, PackedBinaryField64x8b>(&ck, "PackedBinaryField64x8b", l5);
	packed::<BinaryField16b, PackedBinaryField8x16b>(&ck, "PackedBinaryField8x16b", l5);
	packed::<BinaryField16b, PackedBinaryField2x16b>(&ck, "PackedBinaryField2x16b", l5);
	packed::<BinaryField32b, PackedBinaryField4x32b>(&ck, "PackedBinaryField4x32b", &l6);
	packed::<BinaryField32b, PackedBinaryField16x32b>(&ck, "PackedBinaryField16x32b", l5);
	packed::<BinaryField128b, PackedBinaryField4x128b>(&ck, "PackedBinaryField4x128b", l5);
	packed::<AESTowerField8b, PackedAESBinaryField16x8b>(&ck, "PackedAESBinaryField16x8b", l5);
	packed::<AESTowerField8b, ByteSlicedAES32x8b>(&ck, "ByteSlicedAES32x8b", l5);
	packed::<AESTowerField32b, ByteSlicedAES16x32b>(&ck, "ByteSlicedAES16x32b", l5);
	packed::<AESTowerField32b, PackedAESBinaryField8x32b>(&ck, "PackedAESBinaryField8x32b", l5);
	errors::<BinaryField8b, BinaryField8b>(&ck, "BinaryField8b");
	errors::<BinaryField16b, PackedBinaryField8x16b>(&ck, "PackedBinaryField8x16b");
	ext::<BinaryField8b, PackedBinaryField1x128b>(&ck, "8b in 1x128b", 4);
	ext::<BinaryField32b, PackedBinaryField2x128b>(&ck, "32b in 2x128b", 4);
	ext::<BinaryField16b, PackedBinaryField16x32b>(&ck, "16b in 16x32b", 4);
	ext::<AESTowerField8b, PackedAESBinaryField4x32b>(&ck, "aes 8b in 4x32b", 4);
	odd::<BinaryField32b>(&ck, "32b", 8);
	odd::<BinaryField8b>(&ck, "8b", 7);
	iso::<BinaryField128b, BinaryField8b>(&ck, "8b in 128b", 7);
	iso::<AESTowerField8b, BinaryField8b>(&ck, "8b in aes8b", 7);
	iso::<BinaryField8b, AESTowerField8b>(&ck, "aes8b in 8b", 7);
	iso::<AESTowerField32b, BinaryField32b>(&ck, "32b in aes32b", 7);
	iso::<BinaryField128bPolyval, BinaryField128b>(&ck, "128b in polyval", 6);
	ck.finish()
}
impl WithBits for BinaryField128bPolyval {
	fn bits(v: u128) -> Self {
		BinaryField128b::new(v).into()
	}
}
