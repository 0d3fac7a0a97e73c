//! C03: isomorphisms between field representations, and linear transformations.
use binius_field::{linear_transformation::*, tower::*, *};
use fcheck::{refs::alphabet, *};

fn iso<A, B>(ck: &Ck, an: &str, bn: &str)
where
	A: Sc + From<B>,
	B: Sc + From<A>,
{
	let to = |a: u128| B::from(A::of(a)).b();
	let back = |b: u128| A::from(B::of(b)).b();
	let bits = 1usize << A::K;
	let vals: Vec<u128> = if A::K <= 4 { (0..1u128 << bits).collect() } else {
		let mut v = alphabet(A::K, 200);
		v.extend((0..bits).map(|i| 1 << i));
		v
	};
	ck.case("iso", || format!("{an}->{bn}"), |r| {
		let cols: Vec<u128> = (0..bits).map(|i| to(1 << i)).collect();
		r.obs(&cols);
		for &a in &vals {
			let want = (0..bits).filter(|i| a >> i & 1 == 1).fold(0, |s, i| s ^ cols[i]);
			r.eq(&to(a), &want, || format!("{an}->{bn}: {a:#x} against the sum of the images of its bits"))?;
			r.eq(&back(to(a)), &a, || format!("{an}->{bn}->{an}: {a:#x}"))?;
			r.eq(&to(back(a)), &a, || format!("{bn}->{an}->{bn}: {a:#x}"))?;
		}
		r.eq(&to(A::KIND.one()), &B::KIND.one(), || format!("{an}->{bn}: image of one"))?;
		// products: all pairs of basis elements (and all pairs outright up to 8 bits)
		let ps: Vec<u128> = if A::K <= 3 { vals.clone() } else { (0..bits).map(|i| 1 << i).chain(alphabet(A::K, 8)).collect() };
		for &a in &ps {
			for &b in &ps {
				let w = B::rmul(to(a), to(b));
				r.eq(&to(A::rmul(a, b)), &w, || format!("{an}->{bn}: image of {a:#x} * {b:#x}"))?;
			}
		}
		Ok(())
	});
}

/// A packed linear transformation built from given columns, on every lone bit of every lane and on dense vectors.
fn linear<I, O>(ck: &Ck, space: &str, name: &str)
where
	I: PackedField<Scalar: Sc> + PackedTransformationFactory<O>,
	O: PackedField<Scalar: Sc>,
{
	let bits = 1usize << <I::Scalar as Sc>::K;
	let m = <O::Scalar as Sc>::mask();
	let mut mats: Vec<(&str, Vec<u128>)> = vec![
		("identity", (0..bits).map(|i| 1u128 << i).collect()),
		("reverse", (0..bits).map(|i| 1u128 << (bits - 1 - i)).collect()),
		("zero", vec![0; bits]),
		("ones", vec![m; bits]),
		("dense", (0..bits as u64).map(|i| mix128(i) & m).collect()),
		("dense2", (0..bits as u64).map(|i| mix128(i + 777) & m).collect()),
	];
	if bits > 1 {
		mats.push(("rotate", (0..bits).map(|i| 1u128 << ((i + 1) % bits)).collect()));
	}
	ck.case(space, || name.to_string(), |r| {
		for (mn, cols) in &mats {
			let lt = FieldLinearTransformation::<O::Scalar, Vec<O::Scalar>>::new(cols.iter().map(|&c| <O::Scalar as Sc>::of(c)).collect());
			r.eq(&lt.bases().iter().map(|b| b.b()).collect::<Vec<_>>(), cols, || "bases()".into())?;
			let f = |a: u128| (0..bits).filter(|i| a >> i & 1 == 1).fold(0, |s, i| s ^ cols[i]);
			let t = <I as PackedTransformationFactory<O>>::make_packed_transformation(lt.clone());
			let step = (I::WIDTH * bits / 4096).max(1) | 1;
			for pos in (0..I::WIDTH * bits).step_by(step) {
				let (l, b) = (pos / bits, pos % bits);
				let v = I::from_fn(|i| <I::Scalar as Sc>::of(if i == l { 1u128 << b } else { 0 }));
				let o = t.transform(&v);
				for i in 0..O::WIDTH {
					r.eq(&o.get(i).b(), &if i == l { cols[b] } else { 0 }, || format!("{name}/{mn}: bit {b} of lane {l}, output lane {i}"))?;
				}
			}
			for d in 0..24u64 {
				let x = |i: usize| if d % 3 == 0 { <I::Scalar as Sc>::mask() ^ (i as u128 & 1) } else { mix128(d * 1000 + i as u64) & <I::Scalar as Sc>::mask() };
				let v = I::from_fn(|i| <I::Scalar as Sc>::of(x(i)));
				let o = t.transform(&v);
				for i in 0..O::WIDTH {
					r.eq(&o.get(i).b(), &f(x(i)), || format!("{name}/{mn}: dense {d}, lane {i}"))?;
				}
			}
			r.obs(cols);
		}
		Ok(())
	});
}
fn scalar_linear<I: Sc, O: Sc>(ck: &Ck, name: &str) {
	let bits = 1usize << I::K;
	ck.case("field-linear", || name.to_string(), |r| {
		for s in 0..4u64 {
			let cols: Vec<u128> = (0..bits as u64).map(|i| if s == 0 { 1u128 << i } else { mix128(i + s * 999) & O::mask() }).collect();
			let lt = FieldLinearTransformation::<O, Vec<O>>::new(cols.iter().map(|&c| O::of(c)).collect());
			let mut vals = alphabet(I::K, 20);
			vals.extend((0..bits).map(|i| 1u128 << i));
			if I::K <= 3 {
				vals = (0..1 << bits).collect();
			}
			for a in vals {
				let want = (0..bits).filter(|i| a >> i & 1 == 1).fold(0, |s, i| s ^ cols[i]);
				let got: O = lt.transform(&I::of(a));
				r.eq(&got.b(), &want, || format!("{name}: {a:#x}"))?;
			}
			r.obs(&cols);
		}
		Ok(())
	});
}
/// A published packed conversion agrees lane by lane with the scalar conversion.
fn conv<I, O>(ck: &Ck, name: &str, t: impl Transformation<I, O>)
where
	I: PackedField<Scalar: Sc>,
	O: PackedField<Scalar: Sc + From<I::Scalar>>,
{
	let bits = 1usize << <I::Scalar as Sc>::K;
	ck.case("packed-conversion", || name.to_string(), |r| {
		let mut run = |x: &dyn Fn(usize) -> u128| -> R {
			let o = t.transform(&I::from_fn(|i| <I::Scalar as Sc>::of(x(i))));
			for i in 0..I::WIDTH {
				r.eq(&o.get(i), &O::Scalar::from(<I::Scalar as Sc>::of(x(i))), || format!("{name}: lane {i} of {:#x}", x(i)))?;
			}
			Ok(())
		};
		for pos in 0..I::WIDTH * bits {
			run(&|i| if i == pos / bits { 1u128 << (pos % bits) } else { 0 })?;
		}
		for d in 0..64u64 {
			run(&|i| mix128(d * 100 + i as u64) & <I::Scalar as Sc>::mask())?;
		}
		for a in alphabet(<I::Scalar as Sc>::K, 0) {
			run(&|_| a)?;
		}
		Ok(())
	});
}

fn main() {
	check("C03", |ck| {
		ck.bound("isomorphisms: every element up to 16 bits, every basis bit and a 200-value alphabet above; products of all basis pairs (linear maps are determined by their basis images, bilinear ones by basis pairs)");
		ck.bound("packed linear maps: every packed type; identity, reversal, rotation, zero, all-ones and two dense matrices; every lone input bit of every lane (a lattice of them for the widest) and 24 dense vectors");
		iso::<BinaryField8b, AESTowerField8b>(ck, "BinaryField8b", "AESTowerField8b");
		iso::<BinaryField16b, AESTowerField16b>(ck, "BinaryField16b", "AESTowerField16b");
		iso::<BinaryField32b, AESTowerField32b>(ck, "BinaryField32b", "AESTowerField32b");
		iso::<BinaryField64b, AESTowerField64b>(ck, "BinaryField64b", "AESTowerField64b");
		iso::<BinaryField128b, AESTowerField128b>(ck, "BinaryField128b", "AESTowerField128b");
		iso::<BinaryField128b, BinaryField128bPolyval>(ck, "BinaryField128b", "BinaryField128bPolyval");
		iso::<AESTowerField128b, BinaryField128bPolyval>(ck, "AESTowerField128b", "BinaryField128bPolyval");
		ck.case("iso-triangle", || "128b".into(), |r| {
			for a in alphabet(7, 300).into_iter().chain((0..128).map(|i| 1u128 << i)) {
				let t = BinaryField128b::new(a);
				let x: BinaryField128bPolyval = t.into();
				let y: BinaryField128bPolyval = AESTowerField128b::from(t).into();
				r.eq(&x, &y, || format!("{a:#x}: tower->POLYVAL against tower->AES->POLYVAL"))?;
				r.obs(&x.b());
			}
			Ok(())
		});
		// subfields map into subfields compatibly
		ck.case("iso-subfields", || "all levels".into(), |r| {
			for a in 0..65536u128 {
				let x = AESTowerField16b::from(BinaryField16b::of(a)).b();
				if a < 256 {
					r.eq(&AESTowerField8b::from(BinaryField8b::of(a)).b(), &x, || format!("{a:#x} 8 against 16 bit"))?;
				}
				r.eq(&AESTowerField32b::from(BinaryField32b::of(a)).b(), &x, || format!("{a:#x} 16 against 32 bit"))?;
				r.eq(&AESTowerField64b::from(BinaryField64b::of(a)).b(), &x, || format!("{a:#x} 16 against 64 bit"))?;
				r.eq(&AESTowerField128b::from(BinaryField128b::of(a)).b(), &x, || format!("{a:#x} 16 against 128 bit"))?;
			}
			Ok(())
		});
		let mut jobs: Vec<Box<dyn Fn() + Sync + '_>> = vec![];
		macro_rules! sl { ($($i:ident $o:ident),*) => { $(scalar_linear::<$i, $o>(ck, concat!(stringify!($i), "->", stringify!($o)));)* } }
		sl!(BinaryField1b BinaryField1b, BinaryField2b BinaryField2b, BinaryField4b BinaryField4b, BinaryField8b BinaryField8b, BinaryField16b BinaryField16b,
			BinaryField32b BinaryField32b, BinaryField64b BinaryField64b, BinaryField128b BinaryField128b, BinaryField8b AESTowerField8b, AESTowerField8b BinaryField8b,
			AESTowerField16b AESTowerField16b, AESTowerField64b BinaryField64b, AESTowerField128b BinaryField128bPolyval, BinaryField128bPolyval BinaryField128b, BinaryField128bPolyval BinaryField128bPolyval);
		macro_rules! ln { ($($t:ident)*) => { $(jobs.push(Box::new(|| linear::<$t, $t>(ck, "packed-linear", stringify!($t))));)* } }
		ln!(PackedBinaryField1x1b PackedBinaryField2x1b PackedBinaryField4x1b PackedBinaryField8x1b PackedBinaryField16x1b PackedBinaryField32x1b PackedBinaryField64x1b PackedBinaryField128x1b PackedBinaryField256x1b PackedBinaryField512x1b
			PackedBinaryField1x2b PackedBinaryField2x2b PackedBinaryField4x2b PackedBinaryField8x2b PackedBinaryField16x2b PackedBinaryField32x2b PackedBinaryField64x2b PackedBinaryField128x2b PackedBinaryField256x2b
			PackedBinaryField1x4b PackedBinaryField2x4b PackedBinaryField4x4b PackedBinaryField8x4b PackedBinaryField16x4b PackedBinaryField32x4b PackedBinaryField64x4b PackedBinaryField128x4b
			PackedBinaryField1x8b PackedBinaryField2x8b PackedBinaryField4x8b PackedBinaryField8x8b PackedBinaryField16x8b PackedBinaryField32x8b PackedBinaryField64x8b
			PackedBinaryField1x16b PackedBinaryField2x16b PackedBinaryField4x16b PackedBinaryField8x16b PackedBinaryField16x16b PackedBinaryField32x16b
			PackedBinaryField1x32b PackedBinaryField2x32b PackedBinaryField4x32b PackedBinaryField8x32b PackedBinaryField16x32b
			PackedBinaryField1x64b PackedBinaryField2x64b PackedBinaryField4x64b PackedBinaryField8x64b
			PackedBinaryField1x128b PackedBinaryField2x128b PackedBinaryField4x128b
			PackedAESBinaryField1x8b PackedAESBinaryField2x8b PackedAESBinaryField4x8b PackedAESBinaryField8x8b PackedAESBinaryField16x8b PackedAESBinaryField32x8b PackedAESBinaryField64x8b
			PackedAESBinaryField1x16b PackedAESBinaryField2x16b PackedAESBinaryField4x16b PackedAESBinaryField8x16b PackedAESBinaryField16x16b PackedAESBinaryField32x16b
			PackedAESBinaryField1x32b PackedAESBinaryField2x32b PackedAESBinaryField4x32b PackedAESBinaryField8x32b PackedAESBinaryField16x32b
			PackedAESBinaryField1x64b PackedAESBinaryField2x64b PackedAESBinaryField4x64b PackedAESBinaryField8x64b
			PackedAESBinaryField1x128b PackedAESBinaryField2x128b PackedAESBinaryField4x128b
			PackedBinaryPolyval1x128b PackedBinaryPolyval2x128b PackedBinaryPolyval4x128b
			ByteSlicedAES16x128b ByteSlicedAES16x64b ByteSlicedAES2x16x64b ByteSlicedAES16x32b ByteSlicedAES4x16x32b ByteSlicedAES16x16b ByteSlicedAES8x16x16b ByteSlicedAES16x8b ByteSlicedAES16x16x8b
			ByteSlicedAES32x128b ByteSlicedAES32x64b ByteSlicedAES4x32x32b ByteSlicedAES32x16b ByteSlicedAES32x8b
			ByteSlicedAES64x128b ByteSlicedAES2x64x64b ByteSlicedAES64x32b ByteSlicedAES8x64x16b ByteSlicedAES64x8b
			ByteSliced16x128x1b ByteSliced4x256x1b ByteSliced1x512x1b);
		macro_rules! lx { ($($i:ident $o:ident),*) => { $(jobs.push(Box::new(|| linear::<$i, $o>(ck, "packed-linear-cross", concat!(stringify!($i), "->", stringify!($o)))));)* } }
		lx!(PackedAESBinaryField2x8b PackedBinaryField2x8b, PackedAESBinaryField8x8b PackedBinaryField8x8b, PackedAESBinaryField16x8b PackedBinaryField16x8b, PackedAESBinaryField32x8b PackedBinaryField32x8b, PackedAESBinaryField64x8b PackedBinaryField64x8b,
			PackedBinaryField16x8b PackedAESBinaryField16x8b, PackedBinaryField32x8b PackedAESBinaryField32x8b, PackedBinaryField64x8b PackedAESBinaryField64x8b,
			PackedAESBinaryField8x16b PackedBinaryField8x16b, PackedBinaryField4x32b PackedAESBinaryField4x32b, PackedAESBinaryField2x64b PackedBinaryField2x64b,
			PackedAESBinaryField1x128b PackedBinaryPolyval1x128b, PackedAESBinaryField2x128b PackedBinaryPolyval2x128b, PackedAESBinaryField4x128b PackedBinaryPolyval4x128b,
			PackedBinaryField1x128b PackedBinaryPolyval1x128b, PackedBinaryField2x128b PackedBinaryPolyval2x128b, PackedBinaryField4x128b PackedBinaryPolyval4x128b,
			PackedBinaryPolyval1x128b PackedBinaryField1x128b, PackedBinaryPolyval2x128b PackedBinaryField2x128b, PackedBinaryPolyval4x128b PackedBinaryField4x128b,
			PackedBinaryPolyval1x128b PackedAESBinaryField1x128b, PackedBinaryPolyval4x128b PackedAESBinaryField4x128b);
		macro_rules! cv { ($($b:ident $a:ident),*) => { $(
			jobs.push(Box::new(|| conv::<$a, $b>(ck, concat!("aes_to_binary/", stringify!($a)), make_aes_to_binary_packed_transformer::<$a, $b>())));
			jobs.push(Box::new(|| conv::<$b, $a>(ck, concat!("binary_to_aes/", stringify!($b)), make_binary_to_aes_packed_transformer::<$b, $a>())));
		)* } }
		cv!(PackedBinaryField1x8b PackedAESBinaryField1x8b, PackedBinaryField4x8b PackedAESBinaryField4x8b, PackedBinaryField16x8b PackedAESBinaryField16x8b, PackedBinaryField64x8b PackedAESBinaryField64x8b,
			PackedBinaryField8x16b PackedAESBinaryField8x16b, PackedBinaryField16x16b PackedAESBinaryField16x16b, PackedBinaryField4x32b PackedAESBinaryField4x32b, PackedBinaryField16x32b PackedAESBinaryField16x32b,
			PackedBinaryField2x64b PackedAESBinaryField2x64b, PackedBinaryField4x64b PackedAESBinaryField4x64b, PackedBinaryField1x128b PackedAESBinaryField1x128b, PackedBinaryField2x128b PackedAESBinaryField2x128b, PackedBinaryField4x128b PackedAESBinaryField4x128b);
		macro_rules! fast { ($($t:ident $fam:ident $f:ident),*) => { $(
			jobs.push(Box::new(|| conv::<$t, $f>(ck, concat!("to_fast/", stringify!($t)), $fam::packed_transformation_to_fast::<$t, $f>())));
			jobs.push(Box::new(|| conv::<$f, $t>(ck, concat!("from_fast/", stringify!($t)), $fam::packed_transformation_from_fast::<$f, $t>())));
		)* } }
		fast!(PackedBinaryField1x128b CanonicalTowerFamily PackedBinaryPolyval1x128b, PackedBinaryField2x128b CanonicalTowerFamily PackedBinaryPolyval2x128b, PackedBinaryField4x128b CanonicalTowerFamily PackedBinaryPolyval4x128b,
			PackedAESBinaryField1x128b AESTowerFamily PackedBinaryPolyval1x128b, PackedAESBinaryField2x128b AESTowerFamily PackedBinaryPolyval2x128b, PackedAESBinaryField4x128b AESTowerFamily PackedBinaryPolyval4x128b);
		ck.par(&jobs, |j| j());
	})
}
