//! C02: packed types act lane by lane like their scalar field; lane moves move exactly the documented lanes.
use binius_field::{arithmetic_traits::MulAlpha, packed::*, *};
use binius_utils::{random_access_sequence::{RandomAccessSequence, RandomAccessSequenceMut}};
use fcheck::{refs::alphabet, *};

/// Scalar results, computed once per scalar type with the scalar operations (whose exactness C01 decides).
struct Tab<F> {
	/// operand pairs and their product
	pairs: Vec<(F, F, F)>,
	/// operand, square, inverse, times alpha
	una: Vec<(F, F, F, F)>,
}
fn tab<F: Sc>(alpha: impl Fn(F) -> F) -> Tab<F> {
	let mut ps: Vec<(u128, u128)> = vec![];
	let mut us: Vec<u128> = vec![];
	if F::K <= 3 {
		let n = 1u128 << (1 << F::K);
		ps = (0..n * n).map(|i| (i / n, i % n)).collect();
		us = (0..n).collect();
	} else {
		let bits = 1 << F::K;
		for i in 0..bits {
			us.push(1 << i);
			for j in 0..bits {
				ps.push((1 << i, 1 << j));
			}
		}
		let al = alphabet(F::K, 16);
		for &a in &al {
			for &b in &al {
				ps.push((a, b));
			}
		}
		us.extend(&al);
		if F::K == 4 {
			us = (0..65536).collect();
		} else {
			us.extend(0..256u128);
			us.extend((0..256u128).map(|x| x << 8 | 0x53));
			us.extend((0..256u128).map(|x| x << ((1 << F::K) - 8)));
			let h = 1 << (F::K - 1);
			us.extend((0..128u64).map(|x| mix128(x) & F::mask() & !((mix(x) & 1) as u128 * ((1 << h) - 1))));
		}
	}
	let pairs = ps.into_iter().map(|(a, b)| { let (a, b) = (F::of(a), F::of(b)); (a, b, a * b) }).collect();
	let una = us.into_iter().map(|a| { let a = F::of(a); (a, arithmetic_traits::Square::square(a), arithmetic_traits::InvertOrZero::invert_or_zero(a), alpha(a)) }).collect();
	Tab { pairs, una }
}

macro_rules! parts { ($($m:ident)*) => { $(mod $m { include!("../c02_body.rs"); })* } }
parts!(m0 m1 m2 m3 m4 m5 m6 m7 m8 m9 m10 m11 m12 m13 m14 m15 m16 m17 m18 m19);

fn main() {
	check("C02", |ck| {
		ck.bound("every packed type listed in the crate's own test list (canonical 1..128 bit at every width up to 512 bits, packed AES, byte-sliced AES and 1-bit, POLYVAL) and the scalars as one-lane vectors");
		ck.bound("products: every pair of elements (up to 8 bits) or every pair of basis bits plus a structured alphabet (above), each pair visiting every lane while other lanes carry other pairs (wider types: 2^22 lane-products per type on a fixed lattice in the quick tier); unary: every element up to 16 bits, structured sets above");
		ck.bound("lane moves: every block length/index, on patterns that determine the permutation plus every lone lane; get/set every lane; slice helpers at every length up to three words and every offset");
		macro_rules! tabs { ($($v:ident: $t:ident),*) => { $(let $v = tab::<$t>(|x| MulAlpha::mul_alpha(x));)* } }
		tabs!(t1: BinaryField1b, t2: BinaryField2b, t4: BinaryField4b, t8: BinaryField8b, t16: BinaryField16b, t32: BinaryField32b, t64: BinaryField64b, t128: BinaryField128b,
			a8: AESTowerField8b, a16: AESTowerField16b, a32: AESTowerField32b, a64: AESTowerField64b, a128: AESTowerField128b);
		let pv = tab::<BinaryField128bPolyval>(|x| x);
		// alpha on scalars is itself decided against the definition
		macro_rules! al { ($($v:ident: $t:ident),*) => { $(ck.case("scalar-alpha", || stringify!($t).into(), |r| {
			for u in &$v.una {
				r.eq(&u.3.b(), &<$t as Sc>::KIND.alpha(u.0.b(), <$t as Sc>::K), || format!("alpha times {:?}", u.0))?;
			}
			Ok(())
		});)* } }
		al!(t1: BinaryField1b, t2: BinaryField2b, t4: BinaryField4b, t8: BinaryField8b, t16: BinaryField16b, t32: BinaryField32b, t64: BinaryField64b, t128: BinaryField128b,
			a8: AESTowerField8b, a16: AESTowerField16b, a32: AESTowerField32b, a64: AESTowerField64b, a128: AESTowerField128b);
		let mut jobs: Vec<Box<dyn Fn() + Sync + '_>> = vec![];
		macro_rules! run { ($m:ident $v:ident; $($t:ident)*) => { $(
			jobs.push(Box::new(|| $m::arith::<$t>(ck, stringify!($t), &$v, Some(MulAlpha::mul_alpha))));
			jobs.push(Box::new(|| $m::moves::<$t>(ck, stringify!($t))));
		)* } }
		macro_rules! runn { ($m:ident $v:ident; $($t:ident)*) => { $(
			jobs.push(Box::new(|| $m::arith::<$t>(ck, stringify!($t), &$v, None)));
			jobs.push(Box::new(|| $m::moves::<$t>(ck, stringify!($t))));
		)* } }
		runn!(m0 a16; ByteSlicedAES8x64x16b ByteSlicedAES8x32x16b ByteSlicedAES64x16b ByteSlicedAES8x16x16b ByteSlicedAES32x16b ByteSlicedAES16x16b);
		run!(m1 a16; AESTowerField16b PackedAESBinaryField1x16b PackedAESBinaryField2x16b PackedAESBinaryField4x16b PackedAESBinaryField8x16b PackedAESBinaryField16x16b PackedAESBinaryField32x16b);
		run!(m2 t16; BinaryField16b PackedBinaryField1x16b PackedBinaryField2x16b PackedBinaryField4x16b PackedBinaryField8x16b PackedBinaryField16x16b PackedBinaryField32x16b);
		runn!(m3 a8; ByteSlicedAES16x64x8b ByteSlicedAES16x32x8b ByteSlicedAES16x16x8b ByteSlicedAES64x8b ByteSlicedAES32x8b ByteSlicedAES16x8b);
		run!(m4 a8; AESTowerField8b PackedAESBinaryField1x8b PackedAESBinaryField2x8b PackedAESBinaryField4x8b PackedAESBinaryField8x8b PackedAESBinaryField16x8b PackedAESBinaryField32x8b PackedAESBinaryField64x8b);
		run!(m5 t8; BinaryField8b PackedBinaryField1x8b PackedBinaryField2x8b PackedBinaryField4x8b PackedBinaryField8x8b PackedBinaryField16x8b PackedBinaryField32x8b PackedBinaryField64x8b);
		runn!(m6 a128; ByteSlicedAES64x128b ByteSlicedAES32x128b ByteSlicedAES16x128b);
		run!(m7 a128; AESTowerField128b PackedAESBinaryField1x128b PackedAESBinaryField2x128b PackedAESBinaryField4x128b);
		run!(m8 t128; BinaryField128b PackedBinaryField1x128b PackedBinaryField2x128b PackedBinaryField4x128b);
		runn!(m9 a64; ByteSlicedAES2x64x64b ByteSlicedAES64x64b ByteSlicedAES2x32x64b ByteSlicedAES32x64b ByteSlicedAES2x16x64b ByteSlicedAES16x64b);
		run!(m10 a64; AESTowerField64b PackedAESBinaryField1x64b PackedAESBinaryField2x64b PackedAESBinaryField4x64b PackedAESBinaryField8x64b);
		run!(m11 t64; BinaryField64b PackedBinaryField1x64b PackedBinaryField2x64b PackedBinaryField4x64b PackedBinaryField8x64b);
		runn!(m12 a32; ByteSlicedAES4x64x32b ByteSlicedAES64x32b ByteSlicedAES4x32x32b ByteSlicedAES32x32b ByteSlicedAES4x16x32b ByteSlicedAES16x32b);
		run!(m13 a32; AESTowerField32b PackedAESBinaryField1x32b PackedAESBinaryField2x32b PackedAESBinaryField4x32b PackedAESBinaryField8x32b PackedAESBinaryField16x32b);
		run!(m14 t32; BinaryField32b PackedBinaryField1x32b PackedBinaryField2x32b PackedBinaryField4x32b PackedBinaryField8x32b PackedBinaryField16x32b);
		run!(m15 t4; BinaryField4b PackedBinaryField1x4b PackedBinaryField2x4b PackedBinaryField4x4b PackedBinaryField8x4b PackedBinaryField16x4b PackedBinaryField32x4b PackedBinaryField64x4b PackedBinaryField128x4b);
		run!(m16 t2; BinaryField2b PackedBinaryField1x2b PackedBinaryField2x2b PackedBinaryField4x2b PackedBinaryField8x2b PackedBinaryField16x2b PackedBinaryField32x2b PackedBinaryField64x2b PackedBinaryField128x2b PackedBinaryField256x2b);
		run!(m17 t1; BinaryField1b PackedBinaryField1x1b PackedBinaryField2x1b PackedBinaryField4x1b PackedBinaryField8x1b PackedBinaryField16x1b PackedBinaryField32x1b PackedBinaryField64x1b PackedBinaryField128x1b PackedBinaryField256x1b PackedBinaryField512x1b);
		runn!(m18 t1; ByteSliced16x512x1b ByteSliced8x512x1b ByteSliced4x512x1b ByteSliced2x512x1b ByteSliced1x512x1b ByteSliced16x256x1b ByteSliced8x256x1b ByteSliced4x256x1b ByteSliced2x256x1b ByteSliced1x256x1b ByteSliced16x128x1b ByteSliced8x128x1b ByteSliced4x128x1b ByteSliced2x128x1b ByteSliced1x128x1b);
		runn!(m19 pv; BinaryField128bPolyval PackedBinaryPolyval1x128b PackedBinaryPolyval2x128b PackedBinaryPolyval4x128b);
		ck.par(&jobs, |j| j());
	})
}
