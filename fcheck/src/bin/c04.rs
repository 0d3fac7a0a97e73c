//! C04: extension elements and their subfield coordinates are interchangeable views.
use binius_field::{byte_iteration::*, packed::*, underlier::*, *};
use fcheck::{refs::alphabet, *};

fn scalar_pair<S, E>(ck: &Ck, sn: &str, en: &str)
where
	S: Sc + TryFrom<E>,
	E: Sc + ExtensionField<S> + From<S>,
{
	let d = 1usize << (E::K - S::K);
	let sb = 1usize << S::K;
	let name = format!("{sn}<{en}");
	let coord = |a: u128, i: usize| (a >> (i * sb)) & S::mask();
	ck.case("scalar-views", || name.clone(), |r| {
		r.eq(&<E as ExtensionField<S>>::DEGREE, &d, || format!("{name}: degree"))?;
		r.eq(&(1usize << <E as ExtensionField<S>>::LOG_DEGREE), &d, || format!("{name}: log degree"))?;
		for i in 0..d {
			r.eq(&<E as ExtensionField<S>>::basis(i).b(), &(1u128 << (i * sb)), || format!("{name}: basis {i}"))?;
			r.eq(&ext_basis::<E, S>(i).b(), &(1u128 << (i * sb)), || format!("{name}: ext_basis {i}"))?;
		}
		r.ok(<E as ExtensionField<S>>::basis_checked(d).is_err(), || format!("{name}: basis {d} is accepted"))?;
		let mut vals = alphabet(E::K, 12);
		vals.extend((0..1usize << E::K).map(|i| 1u128 << i));
		if E::K <= 3 {
			vals = (0..1 << (1 << E::K)).collect();
		}
		for &a in &vals {
			let e = E::of(a);
			r.obs(&a);
			let cs: Vec<u128> = (0..d).map(|i| coord(a, i)).collect();
			let got: Vec<u128> = <E as ExtensionField<S>>::iter_bases(&e).map(|s| s.b()).collect();
			r.eq(&got, &cs, || format!("{name}: iter_bases({a:#x})"))?;
			let got: Vec<u128> = <E as ExtensionField<S>>::into_iter_bases(e).map(|s| s.b()).collect();
			r.eq(&got, &cs, || format!("{name}: into_iter_bases({a:#x})"))?;
			for i in 0..d {
				r.eq(&<E as ExtensionField<S>>::get_base(&e, i).b(), &cs[i], || format!("{name}: get_base({a:#x},{i})"))?;
				r.eq(&<E as ExtensionField<S>>::iter_bases(&e).nth(i).map(|s| s.b()), &Some(cs[i]), || format!("{name}: nth({i})"))?;
			}
			// all prefixes rebuild the low coordinates
			for n in 0..=d {
				let f = <E as ExtensionField<S>>::from_bases(cs[..n].iter().map(|&c| S::of(c)));
				let want = if n == d { a } else { a & ((1u128 << (n * sb)) - 1) };
				r.eq(&f.map(Sc::b).ok(), &Some(want), || format!("{name}: from_bases of {n} coordinates of {a:#x}"))?;
			}
			let f = <E as ExtensionField<S>>::from_bases((0..=d).map(|i| S::of(cs[i % d])));
			r.ok(f.is_err(), || format!("{name}: {} coordinates are accepted", d + 1))?;
			// sparse coordinates
			for ls in 0..=(E::K - S::K) {
				let n = d >> ls;
				for m in [n, n / 2] {
					let f = <E as ExtensionField<S>>::from_bases_sparse((0..m).map(|i| S::of(cs[i])), ls);
					let want = (0..m).fold(0u128, |s, i| s | cs[i] << ((i << ls) * sb));
					r.eq(&f.map(Sc::b).ok(), &Some(want), || format!("{name}: from_bases_sparse stride 2^{ls} of {a:#x}"))?;
				}
			}
			// linear combination over the published basis
			let lin = (0..d).fold(E::ZERO, |s, i| s + E::from(S::of(cs[i])) * <E as ExtensionField<S>>::basis(i));
			r.eq(&lin.b(), &a, || format!("{name}: linear combination of the coordinates of {a:#x}"))?;
			// subfield detection
			let sub = (a <= S::mask()).then_some(a);
			r.eq(&S::try_from(e).ok().map(|s| s.b()), &sub, || format!("{name}: subfield detection of {a:#x}"))?;
		}
		Ok(())
	});
}
fn tower_basis<F: Sc + TowerField>(ck: &Ck, name: &str) {
	ck.case("tower-basis", || name.into(), |r| {
		r.eq(&F::TOWER_LEVEL, &F::K, || format!("{name}: tower level"))?;
		for iota in 0..=8usize {
			for i in 0..=(1usize << F::K) {
				let ok = iota <= F::K && i < 1usize << (F::K - iota);
				let got = <F as TowerField>::basis(iota, i).map(Sc::b).ok();
				r.eq(&got, &ok.then(|| 1u128 << (i << iota)), || format!("{name}: basis({iota},{i})"))?;
			}
		}
		let mut vals = alphabet(F::K, 20);
		vals.extend((0..1usize << F::K).map(|i| 1u128 << i));
		vals.extend((0..1usize << F::K).map(|i| (2u128 << i).wrapping_sub(1)));
		vals.extend(0..300u128);
		for a in vals {
			let a = a & F::mask();
			// the smallest level of this tower that holds the value (the AES tower has levels 0 and 3..)
			let want = (0..=F::K).filter(|&l| F::KIND == Kind::Tower || l == 0 || l >= 3).find(|&l| l == 7 || a >> (1 << l) == 0).unwrap();
			r.eq(&F::of(a).min_tower_level(), &want, || format!("{name}: min_tower_level({a:#x})"))?;
			r.obs(&a);
		}
		Ok(())
	});
}
fn halves<E, S>(ck: &Ck, name: &str)
where
	E: Sc + From<(S, S)> + Into<(S, S)>,
	S: Sc,
{
	ck.case("halves", || name.into(), |r| {
		for a in alphabet(E::K, 30).into_iter().chain((0..1usize << E::K).map(|i| 1u128 << i)) {
			let (lo, hi): (S, S) = E::of(a).into();
			let h = 1usize << S::K;
			r.eq(&(lo.b(), hi.b()), &(a & S::mask(), a >> h), || format!("{name}: halves of {a:#x}"))?;
			r.eq(&E::from((lo, hi)).b(), &a, || format!("{name}: from halves of {a:#x}"))?;
		}
		Ok(())
	});
}

fn val<P: PackedField<Scalar: Sc>>(seed: u64) -> P {
	P::from_fn(|i| <P::Scalar as Sc>::of(match seed {
		0 => i as u128,
		1 => <P::Scalar as Sc>::mask(),
		_ => mix128(seed * 7919 + i as u64),
	} & <P::Scalar as Sc>::mask()))
}
macro_rules! parts { ($($m:ident)*) => { $(mod $m { include!("../c04_body.rs"); })* } }
parts!(p0 p1 p2 p3 p4 p5 p6 p7 p8 p9 p10 p11);

struct Collect(Vec<u8>);
impl ByteIteratorCallback for Collect {
	fn call(&mut self, iter: impl Iterator<Item = u8>) {
		self.0.extend(iter);
	}
}
fn byte_view<P: PackedField<Scalar: Sc>>(ck: &Ck, name: &str) {
	let sb = 1usize << <P::Scalar as Sc>::K;
	ck.case("byte-view", || name.into(), |r| {
		r.ok(can_iterate_bytes::<P>(), || format!("{name}: no byte view"))?;
		for seed in 0..5 {
			for n in 0..4usize {
				let v: Vec<P> = (0..n).map(|i| val(seed + 10 * i as u64)).collect();
				let mut want = vec![0u8; (n * P::WIDTH * sb).div_ceil(8)];
				for (i, s) in P::iter_slice(&v).enumerate() {
					for b in 0..sb {
						if s.b() >> b & 1 == 1 {
							let pos = i * sb + b;
							want[pos / 8] |= 1 << (pos % 8);
						}
					}
				}
				let mut c = Collect(vec![]);
				iterate_bytes(&v, &mut c);
				r.eq(&c.0, &want, || format!("{name}: bytes of {n} words"))?;
				r.obs(&n);
			}
		}
		Ok(())
	});
}
fn bytes<P: PackedField<Scalar: Sc>>(ck: &Ck, name: &str) {
	ck.case("bytes", || name.into(), |r| {
		for seed in 0..5 {
			for n in 0..4usize {
				let v: Vec<P> = (0..n).map(|i| val(seed + 10 * i as u64)).collect();
				// scalar slices, where the type offers them
				let s = unpack_if_possible(&v, |s| Some(s.to_vec()), |_| None);
				if let Some(s) = s {
					r.eq(&s, &P::iter_slice(&v).collect::<Vec<_>>(), || format!("{name}: scalar view of {n} words"))?;
				}
				let mut w = v.clone();
				unpack_if_possible_mut(&mut w, |s| { for (i, x) in s.iter_mut().enumerate() { *x += <P::Scalar as Sc>::of(mix128(i as u64) & <P::Scalar as Sc>::mask()); } }, |p| {
					for i in 0..len_packed_slice(p) {
						let x = get_packed_slice(p, i);
						set_packed_slice(p, i, x + <P::Scalar as Sc>::of(mix128(i as u64) & <P::Scalar as Sc>::mask()));
					}
				});
				for (i, (a, b)) in P::iter_slice(&v).zip(P::iter_slice(&w)).enumerate() {
					r.eq(&(a.b() ^ b.b()), &(mix128(i as u64) & <P::Scalar as Sc>::mask()), || format!("{name}: mutable scalar view {i}"))?;
				}
			}
		}
		Ok(())
	});
	if P::LOG_WIDTH == 0 {
		return;
	}
	ck.case("transpose", || name.into(), |r| {
		for log_n in 0..=P::LOG_WIDTH.min(9) {
			for extra in 0..3usize {
				let words = 1usize << (log_n + extra);
				if words * P::WIDTH > 1 << 17 {
					continue;
				}
				for seed in [0, 5] {
					let v: Vec<P> = (0..words).map(|i| if P::Scalar::N_BITS < 8 && seed == 0 { P::from_fn(|l| <P::Scalar as Sc>::of((mix128((i * P::WIDTH + l) as u64) & 1) as u128)) } else { val(seed + 3 * i as u64) }).collect();
					let mut t = v.clone();
					r.ok(square_transpose(log_n, &mut t).is_ok(), || format!("{name}: square_transpose({log_n}) of {words} words"))?;
					// rows of 2^extra words each; square blocks of 2^log_n columns
					let row = (1 << extra) * P::WIDTH;
					let n = 1 << log_n;
					for i in 0..n {
						for c in 0..row {
							let (blk, j) = (c / n, c % n);
							let w = get_packed_slice(&v, j * row + blk * n + i);
							let g = get_packed_slice(&t, i * row + c);
							if g != w {
								return Err(format!("{name}: square_transpose({log_n}) of {words} words: row {i} column {c} is {g:?}, expected {w:?}"));
							}
						}
					}
					r.step((n * row) as u64);
				}
			}
			if log_n > 0 {
				r.ok(square_transpose(log_n, &mut vec![P::zero(); 1 << (log_n - 1)]).is_err(), || format!("{name}: too few words accepted"))?;
			}
			r.ok(square_transpose(log_n, &mut vec![P::zero(); 3]).is_err(), || format!("{name}: three words accepted"))?;
		}
		r.ok(square_transpose(P::LOG_WIDTH + 1, &mut vec![P::zero(); 2 << P::LOG_WIDTH]).is_err(), || format!("{name}: oversized block accepted"))?;
		r.obs(&P::WIDTH);
		Ok(())
	});
}
fn divide<P, Q>(ck: &Ck, name: &str)
where
	P: PackedDivisible<Q> + PackedField<Scalar: Sc>,
	Q: PackedField<Scalar = P::Scalar>,
{
	ck.case("divide", || name.into(), |r| {
		for n in 0..4usize {
			let mut v: Vec<P> = (0..n).map(|i| val(40 + i as u64)).collect();
			let want: Vec<P::Scalar> = P::iter_slice(&v).collect();
			r.eq(&Q::iter_slice(P::divide(&v)).collect::<Vec<_>>(), &want, || format!("{name}: divide"))?;
			let q = P::divide_mut(&mut v);
			if let Some(l) = q.last_mut() {
				l.set(0, <P::Scalar as Sc>::of(0));
				let i = len_packed_slice(&v) - Q::WIDTH;
				let w: Vec<_> = want.iter().enumerate().map(|(k, &x)| if k == i { P::Scalar::ZERO } else { x }).collect();
				r.eq(&P::iter_slice(&v).collect::<Vec<_>>(), &w, || format!("{name}: divide_mut"))?;
			}
		}
		r.obs(&P::WIDTH);
		Ok(())
	});
}
fn small<const N: usize>(ck: &Ck, name: &str) {
	ck.case("small-uint", || name.into(), |r| {
		let m = (1u16 << N) as u16 - 1;
		for x in 0..=255u8 {
			let s = SmallU::<N>::new(x);
			let v = (x as u16 & m) as u8;
			r.eq(&s.val(), &v, || format!("{name}::new({x})"))?;
			r.eq(&[u8::from(s) as u128, u16::from(s) as u128, u32::from(s) as u128, u64::from(s) as u128, usize::from(s) as u128, u128::from(s)], &[v as u128; 6], || format!("{name}: conversions of {x}"))?;
			if x as u16 <= m {
				r.eq(&(!s).val(), &((!v as u16 & m) as u8), || format!("{name}: !{x}"))?;
				for sh in 0..N {
					r.eq(&(s << sh).val(), &((((v as u16) << sh) & m) as u8), || format!("{name}: {x} << {sh}"))?;
					r.eq(&(s >> sh).val(), &(v >> sh), || format!("{name}: {x} >> {sh}"))?;
				}
				for y in 0..=m as u8 {
					let t = SmallU::<N>::new(y);
					r.eq(&[(s & t).val(), (s | t).val(), (s ^ t).val()], &[v & y, v | y, v ^ y], || format!("{name}: bit ops {x},{y}"))?;
					r.eq(&s.checked_add(t).map(|z| z.val()), &((v as u16 + y as u16) <= m).then(|| v + y), || format!("{name}: {x}+{y}"))?;
					r.eq(&s.checked_sub(t).map(|z| z.val()), &v.checked_sub(y), || format!("{name}: {x}-{y}"))?;
				}
			}
			r.obs(&v);
		}
		Ok(())
	});
}
fn sums<P: PackedField<Scalar: Sc>>(ck: &Ck, name: &str) {
	ck.case("partial-sums", || name.into(), |r| {
		for n in [0usize, 8, 16, 32] {
			let v: Vec<P> = (0..n).map(|i| val(30 + i as u64)).collect();
			let t = create_partial_sums_lookup_tables(&v[..]);
			r.eq(&t.len(), &(n * 32), || format!("{name}: table size"))?;
			for (i, x) in t.iter().enumerate() {
				let w = (0..8).filter(|j| i >> j & 1 == 1).fold(P::zero(), |s, j| s + v[(i / 256) * 8 + j]);
				r.ok(*x == w, || format!("{name}: partial sum {i}"))?;
			}
		}
		Ok(())
	});
}

fn main() {
	check("C04", |ck| {
		ck.bound("every published subfield/extension pair: every coordinate index, every prefix length, every sparse stride, every bit and an alphabet of values; subfield detection likewise");
		ck.bound("every packed type with its packed subfields: casts in all directions and forms, single-coordinate writes at every position, products of extension slices (1..3 words) with subfield slices; byte views of 0..3 words; square transposition for every block size and up to 4x extra width");
		macro_rules! sp { ($s:ident, $e:ident) => { scalar_pair::<$s, $e>(ck, stringify!($s), stringify!($e)); } }
		all_pairs!(sp);
		macro_rules! tb { ($t:ident) => { tower_basis::<$t>(ck, stringify!($t)); } }
		each!(tb; BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b);
		macro_rules! hv { ($($e:ident $s:ident),*) => { $(halves::<$e, $s>(ck, stringify!($e));)* } }
		hv!(BinaryField2b BinaryField1b, BinaryField4b BinaryField2b, BinaryField8b BinaryField4b, BinaryField16b BinaryField8b, BinaryField32b BinaryField16b, BinaryField64b BinaryField32b, BinaryField128b BinaryField64b,
			AESTowerField16b AESTowerField8b, AESTowerField32b AESTowerField16b, AESTowerField64b AESTowerField32b, AESTowerField128b AESTowerField64b);
		small::<1>(ck, "U1");
		small::<2>(ck, "U2");
		small::<4>(ck, "U4");
		let mut jobs: Vec<Box<dyn Fn() + Sync + '_>> = vec![];
		macro_rules! pp { ($($m:ident $e:ident: $($s:ident)*;)*) => { $($(jobs.push(Box::new(|| $m::packed_pair::<$e, $s>(ck, concat!(stringify!($e), "/", stringify!($s)))));)*)* } }
		pp!(
			p0 PackedBinaryField1x128b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
			p1 PackedBinaryField2x128b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
			p2 PackedBinaryField4x128b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
			p3 PackedBinaryField1x64b: BinaryField1b BinaryField8b BinaryField32b;
			p4 PackedBinaryField2x64b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b;
			p5 PackedBinaryField4x64b: BinaryField1b BinaryField8b BinaryField32b;
			p6 PackedBinaryField8x64b: BinaryField1b BinaryField4b BinaryField16b BinaryField32b;
			p7 PackedBinaryField1x32b: BinaryField1b BinaryField8b;
			p8 PackedBinaryField4x32b: BinaryField1b BinaryField2b BinaryField8b BinaryField16b;
			p9 PackedBinaryField8x32b: BinaryField1b BinaryField8b BinaryField16b;
			p10 PackedBinaryField16x32b: BinaryField1b BinaryField8b BinaryField16b;
			p11 PackedBinaryField1x16b: BinaryField1b BinaryField8b;
			p0 PackedBinaryField8x16b: BinaryField1b BinaryField4b BinaryField8b;
			p1 PackedBinaryField32x16b: BinaryField1b BinaryField8b;
			p2 PackedBinaryField1x8b: BinaryField1b BinaryField2b BinaryField4b;
			p3 PackedBinaryField4x8b: BinaryField1b BinaryField4b;
			p4 PackedBinaryField16x8b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
			p5 PackedBinaryField32x8b: BinaryField1b BinaryField4b;
			p6 PackedBinaryField64x8b: BinaryField1b BinaryField4b;
			p7 PackedBinaryField32x4b: BinaryField1b BinaryField2b;
			p8 PackedBinaryField64x2b: BinaryField1b;
			p9 PackedAESBinaryField1x128b: AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b BinaryField1b;
			p10 PackedAESBinaryField2x128b: AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b BinaryField1b;
			p11 PackedAESBinaryField4x128b: AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b BinaryField1b;
			p0 PackedAESBinaryField2x64b: AESTowerField8b AESTowerField32b BinaryField1b;
			p1 PackedAESBinaryField16x32b: AESTowerField8b AESTowerField16b BinaryField1b;
			p2 PackedAESBinaryField8x16b: AESTowerField8b BinaryField1b;
			p3 PackedAESBinaryField16x8b: BinaryField1b;
			p4 PackedAESBinaryField64x8b: BinaryField1b;
			p5 ByteSlicedAES16x128b: AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b BinaryField1b;
			p6 ByteSlicedAES32x128b: AESTowerField8b AESTowerField64b BinaryField1b;
			p7 ByteSlicedAES64x128b: AESTowerField8b AESTowerField32b;
		);
		macro_rules! by { ($t:ident) => { jobs.push(Box::new(|| bytes::<$t>(ck, stringify!($t)))); } }
		all_packed!(by);
		macro_rules! bv { ($($t:ident)*) => { $(jobs.push(Box::new(|| byte_view::<$t>(ck, stringify!($t))));)* } }
		bv!(BinaryField8b BinaryField128b PackedBinaryField8x1b PackedBinaryField128x1b PackedBinaryField512x1b PackedBinaryField8x4b PackedBinaryField64x8b PackedBinaryField2x128b PackedAESBinaryField16x8b PackedBinaryPolyval2x128b
			ByteSlicedAES16x128b ByteSlicedAES32x64b ByteSlicedAES8x16x16b ByteSliced16x128x1b ByteSliced1x512x1b);
		// instantiating the byte view is costly to compile and has no instruction-set specific code: the rest once only
		#[cfg(not(verif_flavour))]
		bv!(BinaryField16b AESTowerField32b PackedBinaryField16x2b PackedBinaryField4x32b PackedAESBinaryField8x64b
			ByteSlicedAES64x128b ByteSlicedAES16x64b ByteSlicedAES64x64b ByteSlicedAES2x16x64b ByteSlicedAES2x32x64b ByteSlicedAES2x64x64b ByteSlicedAES16x32b ByteSlicedAES32x32b ByteSlicedAES64x32b ByteSlicedAES4x16x32b ByteSlicedAES4x32x32b ByteSlicedAES4x64x32b
			ByteSlicedAES16x16b ByteSlicedAES32x16b ByteSlicedAES64x16b ByteSlicedAES8x32x16b ByteSlicedAES8x64x16b ByteSlicedAES16x8b ByteSlicedAES32x8b ByteSlicedAES64x8b ByteSlicedAES16x16x8b ByteSlicedAES16x32x8b ByteSlicedAES16x64x8b ByteSlicedAES32x128b
			ByteSliced8x128x1b ByteSliced4x128x1b ByteSliced2x128x1b ByteSliced1x128x1b ByteSliced16x256x1b ByteSliced8x256x1b ByteSliced4x256x1b ByteSliced2x256x1b ByteSliced1x256x1b ByteSliced16x512x1b ByteSliced8x512x1b ByteSliced4x512x1b ByteSliced2x512x1b);
		macro_rules! dv { ($($p:ident $q:ident),*) => { $(jobs.push(Box::new(|| divide::<$p, $q>(ck, concat!(stringify!($p), "/", stringify!($q)))));)* } }
		dv!(PackedBinaryField4x128b PackedBinaryField1x128b, PackedBinaryField2x128b BinaryField128b, PackedBinaryField16x8b PackedBinaryField8x8b, PackedBinaryField16x8b BinaryField8b, PackedBinaryField64x8b PackedBinaryField16x8b,
			PackedBinaryField32x8b PackedBinaryField16x8b, PackedBinaryField128x1b PackedBinaryField64x1b, PackedBinaryField512x1b PackedBinaryField128x1b, PackedBinaryField256x1b PackedBinaryField128x1b, PackedBinaryField8x16b BinaryField16b, PackedBinaryField4x32b BinaryField32b, PackedBinaryField2x64b BinaryField64b, PackedBinaryField128x1b PackedBinaryField8x1b);
		macro_rules! sm { ($($t:ident)*) => { $(jobs.push(Box::new(|| sums::<$t>(ck, stringify!($t))));)* } }
		sm!(BinaryField128b PackedBinaryField4x128b PackedBinaryField16x8b PackedBinaryField128x1b ByteSlicedAES16x128b);
		ck.par(&jobs, |j| j());
	})
}
