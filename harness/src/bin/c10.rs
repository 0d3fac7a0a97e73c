//! C10: serialization. For every value of an enumerated set and both modes: exact round trip, every
//! short write buffer, every truncation, every single-byte corruption; plus every byte string of
//! length at most two as input of every deserialiser.
use std::{fmt::Debug, panic::AssertUnwindSafe};

use binius_core::{
	constraint_system::{
		ConstraintSystem, TableSizeSpec,
		channel::{Boundary, Flush, FlushDirection, OracleOrConst},
		exp::Exp,
	},
	oracle::*,
	polynomial::MultivariatePoly,
	transparent::{
		constant::Constant, multilinear_extension::MultilinearExtensionTransparent, powers::Powers,
		select_row::SelectRow, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis,
	},
};
use binius_field::{underlier::{SmallU, WithUnderlier}, *};
use binius_macros::{DeserializeBytes as DDe, SerializeBytes as DSe};
use binius_math::{ArithCircuit, ArithCircuitStep, ArithExpr};
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use generic_array::{GenericArray, typenum};
use vharness::{e2e::circuit, families::*, *};

type B = BinaryField128b;
const MODES: [SerializationMode; 2] = [SerializationMode::Native, SerializationMode::CanonicalTower];

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| "panicked".to_string())
}

fn check<T: SerializeBytes + DeserializeBytes>(ck: &Ck, name: &str, v: &T, view: &(dyn Fn(&T) -> String + Sync)) {
	for mode in MODES {
		let bytes = {
			let mut b = vec![];
			match caught(|| v.serialize(&mut b, mode)) {
				Ok(Ok(())) => b,
				e => {
					ck.case("round-trip", || format!("{name} {mode:?}"), |r| r.ok(false, || format!("serialize: {e:?}")));
					continue;
				}
			}
		};
		ck.case("round-trip", || format!("{name} {mode:?} {}", view(v)), |r| {
			r.obs(&bytes);
			// exact consumption: some suffix bytes stay unread, over contiguous and fragmented buffers
			for suffix in [0usize, 1, 7] {
				let mut full = bytes.clone();
				full.extend(vec![0xA5u8; suffix]);
				let mut slice: &[u8] = &full;
				let back = caught(|| T::deserialize(&mut slice, mode))?.map_err(|e| format!("own bytes rejected: {e}"))?;
				r.eq(&slice.len(), &suffix, || "unread bytes".into())?;
				r.eq(&view(&back), &view(v), || "value".into())?;
				let mut again = vec![];
				caught(|| back.serialize(&mut again, mode))?.map_err(|e| e.to_string())?;
				r.ok(again == bytes, || format!("re-serialised to {again:x?}, was {bytes:x?}"))?;
			}
			for cut in [1usize, 3, 17].into_iter().filter(|c| *c < bytes.len()) {
				use bytes::Buf;
				let mut chained = bytes[..cut].chain(&bytes[cut..]);
				let back = caught(|| T::deserialize(&mut chained, mode))?.map_err(|e| format!("split at {cut}: {e}"))?;
				r.eq(&chained.remaining(), &0, || format!("split at {cut}: unread"))?;
				r.eq(&view(&back), &view(v), || format!("split at {cut}"))?;
			}
			Ok(())
		});
		ck.case("short-write-buffer", || format!("{name} {mode:?}"), |r| {
			for cap in 0..=bytes.len() {
				let mut buf = vec![0u8; cap];
				let mut w: &mut [u8] = &mut buf;
				let res = caught(|| v.serialize(&mut w, mode)).map_err(|e| format!("capacity {cap}: {e}"))?;
				r.eq(&res.is_ok(), &(cap == bytes.len()), || format!("capacity {cap} of {}", bytes.len()))?;
			}
			Ok(())
		});
		ck.case("truncation", || format!("{name} {mode:?}"), |r| {
			for cut in 0..bytes.len() {
				let mut s = &bytes[..cut];
				let res = caught(|| T::deserialize(&mut s, mode).map(|_| ())).map_err(|e| format!("cut {cut}: {e}"))?;
				r.ok(res.is_err(), || format!("cut to {cut} of {} bytes accepted", bytes.len()))?;
			}
			Ok(())
		});
		let deltas: &[u8] = ck.pick(&[1, 2, 0x80, 0xFF][..], &[1, 2, 4, 8, 16, 32, 64, 0x80, 0xFF, 0x7F, 3][..]);
		ck.case("corruption", || format!("{name} {mode:?}"), |r| {
			for pos in 0..bytes.len() {
				for d in deltas {
					let mut b = bytes.clone();
					b[pos] ^= d;
					let mut s: &[u8] = &b;
					let res = caught(|| T::deserialize(&mut s, mode)).map_err(|e| format!("byte {pos} ^ {d:#x}: {e}"))?;
					r.step(1);
					if let Ok(w) = res {
						// whatever was read is a value: it serialises again and reads back as itself
						let mut again = vec![];
						let ok = caught(|| w.serialize(&mut again, mode)).map_err(|e| format!("byte {pos} ^ {d:#x}, serialise: {e}"))?;
						if ok.is_ok() {
							let mut s: &[u8] = &again;
							let w2 = caught(|| T::deserialize(&mut s, mode)).map_err(|e| format!("byte {pos} ^ {d:#x}, reread: {e}"))?;
							let w2 = w2.map_err(|e| format!("byte {pos} ^ {d:#x}: reread: {e}"))?;
							r.eq(&view(&w2), &view(&w), || format!("byte {pos} ^ {d:#x}: reread"))?;
						}
					}
				}
			}
			Ok(())
		});
	}
}
fn arbitrary<T: DeserializeBytes>(ck: &Ck, name: &str) {
	for mode in MODES {
		ck.case("short-strings", || format!("{name} {mode:?}"), |r| {
			let mut one = |b: &[u8]| {
				let mut s = b;
				r.step(1);
				caught(|| T::deserialize(&mut s, mode).map(|_| ())).map(|_| ()).map_err(|e| format!("{b:x?}: {e}"))
			};
			one(&[])?;
			for a in 0..=255u8 {
				one(&[a])?;
				for b in 0..=255u8 {
					one(&[a, b])?;
				}
				// longer strings: one byte repeated, and a head with zero or saturated tail
				for l in [5usize, 9, 21, 40, 64] {
					one(&vec![a; l])?;
					for t in [0u8, 1, 0xFF] {
						let mut v = vec![t; l];
						v[0] = a;
						// length fields saturate to four billion elements of nothing only for
						// zero-sized payloads, which no serialisable type has
						one(&v)?;
					}
				}
			}
			Ok(())
		});
	}
}
fn dbg<T: Debug>(v: &T) -> String {
	format!("{v:?}")
}
/// A type with all its values.
fn ty<T: SerializeBytes + DeserializeBytes + Debug + Sync>(ck: &Ck, name: &str, vals: Vec<T>) {
	let idx: Vec<usize> = (0..vals.len()).collect();
	ck.par(&idx, |i| check(ck, &format!("{name}#{i}"), &vals[*i], &dbg));
	arbitrary::<T>(ck, name);
}

fn cross<T: TowerField + SerializeBytes + DeserializeBytes + Into<C> + TryFrom<C>, C: TowerField>(ck: &Ck, name: &str, vals: &[T]) {
	// the canonical-tower encoding does not depend on the representation
	ck.case("canonical-encoding", || name.to_string(), |r| {
		for v in vals {
			let c: C = (*v).into();
			let (mut a, mut b) = (vec![], vec![]);
			v.serialize(&mut a, SerializationMode::CanonicalTower).map_err(|e| e.to_string())?;
			c.serialize(&mut b, SerializationMode::Native).map_err(|e| e.to_string())?;
			r.eq(&a, &b, || format!("{v:?}"))?;
			let back = T::deserialize(&a[..], SerializationMode::CanonicalTower).map_err(|e| e.to_string())?;
			r.eq(&back, v, || format!("{v:?} back"))?;
		}
		Ok(())
	});
}

macro_rules! scal {
	($ck:ident: $($t:ident $bits:literal),*) => {$({
		let vals: Vec<u128> = if $bits <= 8 { (0..1u128 << $bits).collect() } else { alphabet($bits) };
		let vs: Vec<$t> = vals.iter().map(|v| $t::from_underlier(*v as _)).collect();
		ty($ck, stringify!($t), vs);
	})*};
}
macro_rules! scal_small {
	($ck:ident: $($t:ident $n:literal),*) => {$({
		let vs: Vec<$t> = (0..1u8 << $n).map(|v| $t::from_underlier(SmallU::<$n>::new(v))).collect();
		ty($ck, stringify!($t), vs);
	})*};
}
fn alphabet(bits: usize) -> Vec<u128> {
	let m = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
	let mut v = vec![0, 1, m, m / 3, m / 255, m / 17];
	for i in 0..bits {
		v.push(1u128 << i);
	}
	v.push(mix128(5) & m);
	v.sort();
	v.dedup();
	v
}
macro_rules! packed {
	($ck:ident: $($t:ident),*) => {$({
		let vs: Vec<$t> = (0..4u64).map(|k| $t::from_fn(|i| {
			let s = mix128(k * 1000 + i as u64);
			match k { 0 => <<$t as PackedField>::Scalar as Field>::ZERO, _ => elem::<<$t as PackedField>::Scalar>(s) }
		})).collect();
		ty($ck, stringify!($t), vs);
	})*};
}
fn elem<F: BinaryField>(s: u128) -> F {
	let gen_ = F::MULTIPLICATIVE_GENERATOR;
	Field::pow(&gen_, [(s & 0xFFFF_FFFF) as u64])
}

#[derive(Debug, Clone, PartialEq, DSe, DDe)]
struct Named {
	a: u8,
	b: Vec<u16>,
	c: Option<String>,
}
#[derive(Debug, Clone, PartialEq, DSe, DDe)]
struct Unnamed(u32, bool, Box<u64>);
#[derive(Debug, Clone, PartialEq, DSe, DDe)]
enum Enm {
	Unit,
	One(usize),
	Two(u8, Named),
	Rec { x: (u8, u16), y: Vec<Unnamed> },
	Last,
}
#[derive(Debug, Clone, PartialEq, DSe, DDe)]
struct Gen<T> {
	t: T,
	n: Vec<T>,
}

fn exprs() -> Vec<ArithCircuit<B>> {
	let leaf = vec![ArithExpr::Var(0), ArithExpr::Var(3), ArithExpr::Const(B::new(0)), ArithExpr::Const(B::new(u128::MAX / 7))];
	let mut all = leaf.clone();
	for a in &leaf {
		all.push(a.clone().pow(3));
		all.push(a.clone().pow(1 << 40));
		for b in &leaf {
			all.push(a.clone() + b.clone());
			all.push(a.clone() * b.clone());
			all.push((a.clone() + b.clone()).pow(2) * a.clone());
		}
	}
	all.iter().map(ArithCircuit::from).collect()
}

/// Systems with explicit transparent columns print their packing, which reading back may change:
/// they are compared by their bytes and everything but the oracles.
fn cs_view(s: &ConstraintSystem<B>) -> String {
	let full = dbg(s);
	if !full.contains("MultilinearExtensionTransparent") {
		return full;
	}
	let mut b = vec![];
	s.serialize(&mut b, MODES[0]).unwrap();
	dbg(&(b, &s.table_constraints, &s.non_zero_oracle_ids, &s.flushes, &s.exponents, s.channel_count, &s.table_size_specs))
}
fn poly_view(p: &Box<dyn MultivariatePoly<B>>) -> String {
	let n = p.n_vars();
	let mut s = format!("n={n} deg={} lvl={}", p.degree(), p.binary_tower_level());
	if n <= 8 {
		for k in 0..6u64 {
			let q: Vec<B> = (0..n).map(|i| B::new(if k < 2 { ((mix128(k) >> i) & 1) as u128 } else { mix128(k * 100 + i as u64) })).collect();
			s += &format!(" {:?}", p.evaluate(&q).ok());
		}
	}
	s
}
fn poly(ck: &Ck, name: String, p: Box<dyn MultivariatePoly<B>>) {
	check(ck, &name, &p, &poly_view);
}

fn mle_transparent<P>(ck: &Ck, name: &str, n: usize, level: usize)
where
	P: PackedField<Scalar: BinaryField> + Debug,
	PackedBinaryField1x128b: RepackedExtension<P>,
	B: ExtensionField<P::Scalar> + TryInto<P::Scalar>,
{
	let _ = level;
	for k in 0..3u64 {
		let vals: Vec<P::Scalar> = (0..1usize << n)
			.map(|i| match k {
				0 => P::Scalar::ZERO,
				1 => elem(mix128(i as u64)),
				_ => if mix128(77 + i as u64) & 1 == 1 { P::Scalar::ONE } else { P::Scalar::ZERO },
			})
			.collect();
		let packed: Vec<P> = binius_field::packed::pack_slice(&vals);
		let t = MultilinearExtensionTransparent::<P, PackedBinaryField1x128b, _>::from_values_and_mu(packed, n);
		let Ok(t) = t else { continue };
		// the registry picks the smallest subfield that holds the values: the level may decrease
		let t: Box<dyn MultivariatePoly<B>> = Box::new(t);
		check(ck, &format!("mle-transparent<{name}> n={n} k={k}"), &t, &|p| {
			let s = poly_view(p);
			s.split(' ').filter(|w| !w.starts_with("lvl=")).collect()
		});
	}
}

fn main() {
	let ck = &Ck::new("C10");
	ck.bound("1-bit to 8-bit fields: every value; wider fields and integers: every single bit, all-ones and patterned values");
	ck.bound("every write-buffer capacity, every truncation, every byte position with a fixed set of XOR masks; every byte string of length <= 2");
	ck.bound("constraint systems: every family used by C21-C25 of small size");

	ty::<u8>(ck, "u8", (0..=255).collect());
	ty::<u16>(ck, "u16", alphabet(16).iter().map(|v| *v as u16).collect());
	ty::<u32>(ck, "u32", alphabet(32).iter().map(|v| *v as u32).collect());
	ty::<u64>(ck, "u64", alphabet(64).iter().map(|v| *v as u64).collect());
	ty::<u128>(ck, "u128", alphabet(128));
	ty::<usize>(ck, "usize", alphabet(32).iter().map(|v| *v as usize).collect());
	ck.case("usize-too-large", || "usize".into(), |r| {
		for v in alphabet(64).into_iter().filter(|v| *v > u32::MAX as u128) {
			for mode in MODES {
				let mut b = vec![];
				let res = caught(|| (v as usize).serialize(&mut b, mode))?;
				r.ok(res.is_err(), || format!("{v} serialised as {b:x?}"))?;
			}
		}
		Ok(())
	});
	ty::<bool>(ck, "bool", vec![false, true]);
	ty::<String>(ck, "String", ["", "a", "ab", "\u{0}", "é", "日本", "longer than sixteen bytes in total"].iter().map(|s| s.to_string()).collect());
	ck.case("str-as-string", || "&str".into(), |r| {
		for s in ["", "a", "é日"] {
			let (mut a, mut b) = (vec![], vec![]);
			s.serialize(&mut a, MODES[0]).map_err(|e| e.to_string())?;
			s.to_string().serialize(&mut b, MODES[0]).map_err(|e| e.to_string())?;
			r.eq(&a, &b, || s.into())?;
		}
		Ok(())
	});
	ty::<Option<u16>>(ck, "Option<u16>", vec![None, Some(0), Some(1), Some(0xFFFF)]);
	ty::<(u8, u32)>(ck, "(u8,u32)", vec![(0, 0), (1, 2), (255, u32::MAX)]);
	ty::<Box<u32>>(ck, "Box<u32>", vec![Box::new(7)]);
	ty::<Vec<u8>>(ck, "Vec<u8>", (0..=5).map(|n| (0..n).collect()).collect());
	ty::<Vec<Vec<u16>>>(ck, "Vec<Vec<u16>>", vec![vec![], vec![vec![]], vec![vec![1], vec![], vec![2, 3]]]);
	ty::<Vec<Option<(u8, String)>>>(ck, "nested", vec![vec![None, Some((1, "x".into())), None], vec![]]);
	ty::<GenericArray<u8, typenum::U5>>(ck, "GenericArray<5>", vec![GenericArray::clone_from_slice(&[1, 2, 3, 4, 5])]);
	ty::<GenericArray<u8, typenum::U32>>(ck, "GenericArray<32>", vec![GenericArray::clone_from_slice(&[9; 32])]);
	ty::<SmallU<1>>(ck, "SmallU<1>", (0..2).map(SmallU::new).collect());
	ty::<SmallU<2>>(ck, "SmallU<2>", (0..4).map(SmallU::new).collect());
	ty::<SmallU<4>>(ck, "SmallU<4>", (0..16).map(SmallU::new).collect());
	ty::<Named>(ck, "Named", vec![
		Named { a: 1, b: vec![], c: None },
		Named { a: 255, b: vec![1, 2], c: Some("q".into()) },
	]);
	ty::<Unnamed>(ck, "Unnamed", vec![Unnamed(5, true, Box::new(u64::MAX)), Unnamed(0, false, Box::new(0))]);
	ty::<Enm>(ck, "Enm", vec![
		Enm::Unit,
		Enm::One(17),
		Enm::Two(3, Named { a: 0, b: vec![9], c: Some(String::new()) }),
		Enm::Rec { x: (1, 2), y: vec![Unnamed(1, false, Box::new(2)), Unnamed(3, true, Box::new(4))] },
		Enm::Last,
	]);
	ty::<Gen<u8>>(ck, "Gen<u8>", vec![Gen { t: 1, n: vec![2, 3] }]);
	ty::<Gen<B>>(ck, "Gen<B128>", vec![Gen { t: B::new(1), n: vec![B::new(2), B::new(u128::MAX)] }]);
	scal!(ck: BinaryField8b 8, BinaryField16b 16, BinaryField32b 32, BinaryField64b 64, BinaryField128b 128,
		AESTowerField8b 8, AESTowerField16b 16, AESTowerField32b 32, AESTowerField64b 64, AESTowerField128b 128,
		BinaryField128bPolyval 128);
	scal_small!(ck: BinaryField1b 1, BinaryField2b 2, BinaryField4b 4);
	macro_rules! cr { ($($t:ident $c:ident $bits:literal),*) => {$({
		let vals: Vec<u128> = if $bits <= 8 { (0..1u128 << $bits).collect() } else { alphabet($bits) };
		let vs: Vec<$t> = vals.iter().map(|v| $t::from_underlier(*v as _)).collect();
		cross::<$t, $c>(ck, stringify!($t), &vs);
	})*}; }
	cr!(AESTowerField8b BinaryField8b 8, AESTowerField16b BinaryField16b 16, AESTowerField32b BinaryField32b 32,
		AESTowerField64b BinaryField64b 64, AESTowerField128b BinaryField128b 128, BinaryField128bPolyval BinaryField128b 128);
	packed!(ck: PackedBinaryField128x1b, PackedBinaryField64x2b, PackedBinaryField32x4b, PackedBinaryField16x8b,
		PackedBinaryField8x16b, PackedBinaryField4x32b, PackedBinaryField2x64b, PackedBinaryField1x128b,
		PackedBinaryField256x1b, PackedBinaryField32x8b, PackedBinaryField2x128b, PackedBinaryField512x1b,
		PackedBinaryField64x8b, PackedBinaryField4x128b, PackedBinaryField8x1b, PackedBinaryField4x2b,
		PackedBinaryField2x4b, PackedBinaryField1x8b, PackedBinaryField64x1b, PackedBinaryField8x8b,
		PackedAESBinaryField16x8b, PackedAESBinaryField32x8b, PackedAESBinaryField64x8b, PackedAESBinaryField1x128b,
		PackedAESBinaryField2x128b, PackedAESBinaryField4x128b, PackedAESBinaryField2x64b,
		PackedAESBinaryField8x16b);

	ty::<ArithCircuitStep<B>>(ck, "ArithCircuitStep", vec![
		ArithCircuitStep::Add(0, 1), ArithCircuitStep::Mul(1, 0), ArithCircuitStep::Pow(3, 1 << 60),
		ArithCircuitStep::Const(B::new(u128::MAX / 3)), ArithCircuitStep::Var(9),
	]);
	ty::<ArithCircuit<B>>(ck, "ArithCircuit", exprs());
	let o = |i: usize| OracleId::from_index(i);
	ty::<OracleId>(ck, "OracleId", vec![o(0), o(1), o(u32::MAX as usize)]);
	ty::<ShiftVariant>(ck, "ShiftVariant", vec![ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight]);
	ty::<ProjectionVariant>(ck, "ProjectionVariant", vec![ProjectionVariant::Offset(3), ProjectionVariant::Last]);
	ty::<FlushDirection>(ck, "FlushDirection", vec![FlushDirection::Push, FlushDirection::Pull]);
	ty::<TableSizeSpec>(ck, "TableSizeSpec", vec![TableSizeSpec::Arbitrary, TableSizeSpec::PowerOfTwo, TableSizeSpec::Fixed { log_size: 5 }]);
	let oc = vec![OracleOrConst::Oracle(o(4)), OracleOrConst::Const { base: B::new(1 << 77), tower_level: 7 }];
	ty::<OracleOrConst<B>>(ck, "OracleOrConst", oc.clone());
	ty::<Exp<B>>(ck, "Exp", oc.iter().map(|b| Exp { bits_ids: vec![o(1), o(2)], base: *b, exp_result_id: o(9) }).collect());
	ty::<Flush<B>>(ck, "Flush", vec![
		Flush { table_id: 1, log_values_per_row: 2, oracles: oc.clone(), channel_id: 3, direction: FlushDirection::Pull, selectors: vec![o(5)], multiplicity: u64::MAX },
		Flush { table_id: 0, log_values_per_row: 0, oracles: vec![], channel_id: 0, direction: FlushDirection::Push, selectors: vec![], multiplicity: 0 },
	]);
	ty::<Boundary<B>>(ck, "Boundary", vec![
		Boundary { values: vec![B::new(3), B::new(u128::MAX)], channel_id: 7, direction: FlushDirection::Push, multiplicity: 1 << 50 },
		Boundary { values: vec![], channel_id: 0, direction: FlushDirection::Pull, multiplicity: 0 },
	]);
	let preds = vec![ConstraintPredicate::Zero, ConstraintPredicate::Sum(B::new(5))];
	ty::<ConstraintPredicate<B>>(ck, "ConstraintPredicate", preds.clone());
	let cons: Vec<Constraint<B>> = preds
		.iter()
		.map(|p| Constraint { name: "c".into(), composition: exprs()[9].clone(), predicate: p.clone() })
		.collect();
	ty::<Constraint<B>>(ck, "Constraint", cons.clone());
	ty::<ConstraintSet<B>>(ck, "ConstraintSet", vec![ConstraintSet { table_id: 2, log_values_per_row: 3, oracle_ids: vec![o(1), o(0)], constraints: cons.clone() }]);
	ty::<SizedConstraintSet<B>>(ck, "SizedConstraintSet", vec![SizedConstraintSet { n_vars: 11, oracle_ids: vec![o(1)], constraints: cons }]);

	// symbolic oracle variants
	use SymbolicMultilinearPolyVariant as V;
	let variants: Vec<V<B>> = vec![
		V::Committed,
		V::Structured(exprs()[7].clone()),
		V::Repeating { id: o(3) },
		V::Projected { id: o(3), values: vec![B::new(1), B::new(0)], variant: ProjectionVariant::Offset(2) },
		V::Projected { id: o(3), values: vec![], variant: ProjectionVariant::Last },
		V::Shifted { id: o(1), shift_offset: 3, block_size: 5, shift_variant: ShiftVariant::LogicalRight },
		V::Packed { id: o(6), log_degree: 2 },
		V::LinearCombination { offset: B::new(8), inner: vec![(o(1), B::new(2)), (o(3), B::new(4))] },
		V::ZeroPadded { id: o(1), n_pad_vars: 2, nonzero_index: 3, start_index: 4 },
		V::Composite { inner: vec![o(2), o(1)], circuit: exprs()[12].clone() },
	];
	ty::<V<B>>(ck, "SymbolicVariant", variants.clone());
	ty::<SymbolicMultilinearOracle<B>>(ck, "SymbolicOracle", variants.iter().enumerate().map(|(i, v)| SymbolicMultilinearOracle {
		id: o(i), name: (i % 2 == 0).then(|| format!("n{i}")), table_id: i, log_values_per_row: 2 * i, tower_level: i % 8, variant: v.clone(),
	}).collect());

	// transparent polynomials through the registry
	for n in 0..=3usize {
		for v in [0u128, 1, 0x53, u128::MAX / 5] {
			poly(ck, format!("constant n={n} v={v:x}"), Box::new(Constant::new(n, B::new(v))));
			poly(ck, format!("powers n={n} v={v:x}"), Box::new(Powers::new(n, B::new(v))));
		}
		for i in 0..=1usize << n {
			if i < 1 << n {
				poly(ck, format!("select n={n} i={i}"), Box::new(SelectRow::new(n, i).unwrap()));
			}
			poly(ck, format!("step-down n={n} i={i}"), Box::new(StepDown::new(n, i).unwrap()));
			poly(ck, format!("step-up n={n} i={i}"), Box::new(StepUp::new(n, i).unwrap()));
		}
		for iota in 0..=7 - n {
			poly(ck, format!("tower-basis k={n} iota={iota}"), Box::new(TowerBasis::<B>::new(n, iota).unwrap()));
		}
	}
	for n in 0..=2 {
		poly(ck, format!("constant<8> n={n}"), Box::new(Constant::new(n, BinaryField8b::new(0x9c))));
		poly(ck, format!("constant<1> n={n}"), Box::new(Constant::new(n, BinaryField1b::ONE)));
	}
	let ns: Vec<usize> = (0..=ck.pick(3, 5)).collect();
	ck.par(&ns, |&n| {
		mle_transparent::<PackedBinaryField128x1b>(ck, "1b", n, 0);
		mle_transparent::<PackedBinaryField32x4b>(ck, "4b", n, 2);
		mle_transparent::<PackedBinaryField16x8b>(ck, "8b", n, 3);
		mle_transparent::<PackedBinaryField4x32b>(ck, "32b", n, 5);
		mle_transparent::<PackedBinaryField1x128b>(ck, "128b", n, 7);
	});
	arbitrary::<Box<dyn MultivariatePoly<B>>>(ck, "dyn poly");
	// every registered name with short payloads
	for name in ["Constant", "Powers", "SelectRow", "StepDown", "StepUp", "TowerBasis", "MultilinearExtensionTransparent", "nope"] {
		for mode in MODES {
			ck.case("registry-names", || format!("{name} {mode:?}"), |r| {
				let mut head = vec![];
				name.serialize(&mut head, mode).map_err(|e| e.to_string())?;
				for a in 0..=9u8 {
					for b in 0..=9u8 {
						for l in [0usize, 3, 4, 8, 20, 24, 64, 200] {
							let mut v = vec![0u8; l];
							if l > 0 { v[0] = a; }
							if l > 4 { v[4] = b; }
							let mut full = head.clone();
							full.extend(v);
							let mut s: &[u8] = &full;
							r.step(1);
							caught(|| <Box<dyn MultivariatePoly<B>>>::deserialize(&mut s, mode).map(|_| ())).map_err(|e| format!("a={a} b={b} l={l}: {e}"))?.ok();
						}
					}
				}
				Ok(())
			});
		}
	}

	// whole constraint systems and their oracle sets
	let mut fams = virt_fams(&[2]);
	fams.extend(nested_fams(&[2], 2));
	fams.extend(constraint_fams(&[2]));
	fams.extend(multi_fams());
	fams.extend(exp_fams(&[2]));
	fams.extend(flush_fams(2));
	let mut seen = std::collections::HashSet::new();
	let systems: Vec<(String, ConstraintSystem<B>)> = fams
		.iter()
		.filter_map(|f| e2e::build(&f.spec).ok().map(|s| (f.spec.name.clone(), s.cs)))
		.filter(|(_, s)| seen.insert(dbg(s)))
		.collect();
	ck.bound(format!("{} distinct constraint systems", systems.len()));
	ck.par(&systems, |(n, s)| check(ck, &format!("cs {n}"), s, &cs_view));
	arbitrary::<ConstraintSystem<B>>(ck, "ConstraintSystem");
	let _ = circuit;
	ck.finish()
}
