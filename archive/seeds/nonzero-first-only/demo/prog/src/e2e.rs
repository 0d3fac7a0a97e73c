//! Binds the spec machine to the real constraint-system code: builds the system and the witness, proves,
//! verifies and validates.

use std::{panic, sync::Arc};

use binius_compute::ComputeHolder;
use binius_core::{
	constraint_system::{
		self, ConstraintSystem, Proof, TableSizeSpec,
		channel::{Boundary, Flush, FlushDirection, OracleOrConst},
		exp::Exp,
	},
	fiat_shamir::{Challenger, HasherChallenger},
	oracle::{
		Constraint, ConstraintPredicate, ConstraintSet, OracleId, ShiftVariant, SymbolicMultilinearOracleSet,
	},
	transparent::{
		constant::Constant, multilinear_extension::MultilinearExtensionTransparent, select_row::SelectRow,
		step_down::StepDown, step_up::StepUp,
	},
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	BinaryField1b, BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b, Field,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::PackedType,
	packed::pack_slice,
	tower::CanonicalTowerFamily,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use binius_math::{ArithCircuit, ArithExpr, MultilinearExtension, MultilinearPoly};

use crate::refs::*;

pub type B128 = BinaryField128b;
pub type Hch = HasherChallenger<Groestl256>;

pub fn f(x: u128) -> B128 {
	B128::new(x)
}
pub fn expr(x: &X) -> ArithExpr<B128> {
	match x {
		X::C(c) => ArithExpr::Const(f(*c)),
		X::V(i) => ArithExpr::Var(*i),
		X::Add(a, b) => expr(a) + expr(b),
		X::Mul(a, b) => expr(a) * expr(b),
		X::Pow(a, e) => expr(a).pow(*e),
	}
}
pub fn circuit(x: &X) -> ArithCircuit<B128> {
	ArithCircuit::from(expr(x))
}

pub struct Sys {
	pub cs: ConstraintSystem<B128>,
	pub ids: Vec<OracleId>,
}

pub fn size_spec(s: Size) -> TableSizeSpec {
	match s {
		Size::Any => TableSizeSpec::Arbitrary,
		Size::Pow2 => TableSizeSpec::PowerOfTwo,
		Size::Fixed(l) => TableSizeSpec::Fixed { log_size: l },
	}
}

/// Builds the real constraint system described by `s`.
pub fn build(s: &Spec) -> Result<Sys, String> {
	let mut set = SymbolicMultilinearOracleSet::<B128>::new();
	let mut ids: Vec<OracleId> = vec![];
	for (i, c) in s.cols.iter().enumerate() {
		let b = set.add_oracle(c.t, c.lv, format!("col{i}"));
		let e = |e: binius_core::oracle::Error| format!("oracle {i}: {e}");
		let id = match &c.k {
			K::Com => b.committed(c.level),
			K::StepUp(n, ix) => b
				.transparent(StepUp::new(*n, *ix).map_err(|x| x.to_string())?)
				.map_err(e)?,
			K::StepDown(n, ix) => b
				.transparent(StepDown::new(*n, *ix).map_err(|x| x.to_string())?)
				.map_err(e)?,
			K::SelectRow(n, ix) => b
				.transparent(SelectRow::new(*n, *ix).map_err(|x| x.to_string())?)
				.map_err(e)?,
			K::Const(n, cv) => {
				let p: Constant<B128> = match c.level {
					0 => Constant::new(*n, BinaryField1b::try_from(f(*cv)).unwrap()),
					3 => Constant::new(*n, BinaryField8b::try_from(f(*cv)).unwrap()),
					5 => Constant::new(*n, BinaryField32b::try_from(f(*cv)).unwrap()),
					_ => Constant::new(*n, f(*cv)),
				};
				b.transparent(p).map_err(e)?
			}
			K::Explicit(v) => {
				let vals: Vec<BinaryField8b> = v.iter().map(|&x| BinaryField8b::new(x as u8)).collect();
				type P8 = PackedType<OptimalUnderlier128b, BinaryField8b>;
				type PB = PackedType<OptimalUnderlier128b, B128>;
				let mle = MultilinearExtension::new(v.len().trailing_zeros() as usize, pack_slice::<P8>(&vals))
					.map_err(|x| x.to_string())?;
				b.transparent(
					MultilinearExtensionTransparent::<P8, PB, _>::from_values_and_mu(
						mle.evals().to_vec(),
						mle.n_vars(),
					)
					.map_err(|x| x.to_string())?,
				)
				.map_err(e)?
			}
			K::Struct(x) => b.structured(circuit(x)).map_err(e)?,
			K::Rep(a) => b.repeating(ids[*a]).map_err(e)?,
			K::Shift(a, off, bits, v) => b
				.shifted(
					ids[*a],
					*off,
					*bits,
					match v {
						Sh::Rot => ShiftVariant::CircularLeft,
						Sh::Left => ShiftVariant::LogicalLeft,
						Sh::Right => ShiftVariant::LogicalRight,
					},
				)
				.map_err(e)?,
			K::Pack(a, d) => b.packed(ids[*a], *d).map_err(e)?,
			K::Proj(a, vals, st) => b
				.projected(ids[*a], vals.iter().map(|&x| f(x)).collect(), *st)
				.map_err(e)?,
			K::ProjLast(a, vals) => b
				.projected_last_vars(ids[*a], vals.iter().map(|&x| f(x)).collect())
				.map_err(e)?,
			K::Lin(off, inner) => b
				.linear_combination_with_offset(f(*off), inner.iter().map(|(o, c)| (ids[*o], f(*c))))
				.map_err(e)?,
			K::Pad(a, n, nz, st) => b.zero_padded(ids[*a], *n, *nz, *st).map_err(e)?,
			K::Comp(inner, x) => b
				.composite_mle(inner.iter().map(|&o| ids[o]), circuit(x))
				.map_err(e)?,
		};
		ids.push(id);
	}
	let cs = ConstraintSystem {
		oracles: set,
		table_constraints: s
			.zero
			.iter()
			.map(|z| ConstraintSet {
				table_id: z.t,
				log_values_per_row: z.lv,
				oracle_ids: z.cols.iter().map(|&o| ids[o]).collect(),
				constraints: z
					.exprs
					.iter()
					.enumerate()
					.map(|(i, x)| Constraint {
						name: format!("z{i}"),
						composition: circuit(x),
						predicate: ConstraintPredicate::Zero,
					})
					.collect(),
			})
			.collect(),
		non_zero_oracle_ids: s.nonzero.iter().map(|&o| ids[o]).collect(),
		flushes: s
			.flushes
			.iter()
			.map(|fl| Flush {
				table_id: fl.t,
				log_values_per_row: fl.lv,
				oracles: fl
					.args
					.iter()
					.map(|a| match a {
						Arg::O(o) => OracleOrConst::Oracle(ids[*o]),
						Arg::K(c) => OracleOrConst::Const {
							base: f(*c),
							tower_level: level_of(*c),
						},
					})
					.collect(),
				channel_id: fl.ch,
				direction: dir(fl.push),
				selectors: fl.sel.iter().map(|&o| ids[o]).collect(),
				multiplicity: fl.mult,
			})
			.collect(),
		exponents: s
			.exps
			.iter()
			.map(|e| Exp {
				bits_ids: e.bits.iter().map(|&o| ids[o]).collect(),
				base: match e.base {
					Ok(o) => OracleOrConst::Oracle(ids[o]),
					Err((c, l)) => OracleOrConst::Const {
						base: f(c),
						tower_level: l,
					},
				},
				exp_result_id: ids[e.result],
			})
			.collect(),
		channel_count: s.channels,
		table_size_specs: s.tables.iter().map(|&t| size_spec(t)).collect(),
	};
	Ok(Sys { cs, ids })
}
pub fn dir(push: bool) -> FlushDirection {
	if push { FlushDirection::Push } else { FlushDirection::Pull }
}
pub fn boundaries(b: &[Bd]) -> Vec<Boundary<B128>> {
	b.iter()
		.map(|b| Boundary {
			values: b.vals.iter().map(|&x| f(x)).collect(),
			channel_id: b.ch,
			direction: dir(b.push),
			multiplicity: b.mult,
		})
		.collect()
}

macro_rules! underlier_impl {
	($m:ident, $U:ty) => {
		pub mod $m {
			use super::*;
			pub type U = $U;
			pub type P = PackedType<U, B128>;
			pub type Holder = FastCpuLayerHolder<CanonicalTowerFamily, P>;

			/// A witness column of the given tower level.
			pub fn column(level: usize, vals: &[u128]) -> Arc<dyn MultilinearPoly<P> + Send + Sync + 'static> {
				let n = vals.len().trailing_zeros() as usize;
				macro_rules! go {
					($F:ty, $conv:expr) => {{
						let sc: Vec<$F> = vals.iter().map(|&x| $conv(x)).collect();
						let packed = pack_slice::<PackedType<U, $F>>(&sc);
						MultilinearExtension::new(n, packed).unwrap().specialize_arc_dyn::<P>()
					}};
				}
				match level {
					0 => go!(BinaryField1b, |x: u128| BinaryField1b::from(x as u8 & 1)),
					3 => go!(BinaryField8b, |x| BinaryField8b::new(x as u8)),
					4 => go!(BinaryField16b, |x| BinaryField16b::new(x as u16)),
					5 => go!(BinaryField32b, |x| BinaryField32b::new(x as u32)),
					6 => go!(BinaryField64b, |x| BinaryField64b::new(x as u64)),
					7 => go!(BinaryField128b, |x| B128::new(x)),
					_ => panic!("harness: level {level}"),
				}
			}
			pub fn witness(
				s: &Spec,
				sys: &Sys,
				cols: &[Vec<u128>],
			) -> MultilinearExtensionIndex<'static, P> {
				let mut w = MultilinearExtensionIndex::new();
				for (i, c) in cols.iter().enumerate() {
					if !c.is_empty() {
						w.update_multilin_poly([(sys.ids[i], column(s.cols[i].level, c))]).unwrap();
					}
				}
				w
			}
			pub fn holder(elems: usize) -> Holder {
				Holder::new(1 << 12, (elems * 16).next_power_of_two().max(1 << 14))
			}
			pub fn prove<Ch: Challenger + Default>(
				s: &Spec,
				sys: &Sys,
				inst: &Inst,
				cols: &[Vec<u128>],
				rate: usize,
				sec: usize,
			) -> Result<Vec<u8>, String> {
				prove_digest::<Ch>(s, sys, &sys.cs.digest::<Groestl256>(), inst, cols, rate, sec)
			}
			/// Proves under a claimed constraint-system digest.
			pub fn prove_digest<Ch: Challenger + Default>(
				s: &Spec,
				sys: &Sys,
				digest: &digest::Output<Groestl256>,
				inst: &Inst,
				cols: &[Vec<u128>],
				rate: usize,
				sec: usize,
			) -> Result<Vec<u8>, String> {
				let w = witness(s, sys, cols);
				constraint_system::prove::<_, U, CanonicalTowerFamily, Groestl256, Groestl256ByteCompression, Ch, _, _, _>(
					&mut holder(cols.iter().map(|c| c.len()).sum::<usize>() << rate).to_data(),
					&sys.cs,
					rate,
					sec,
					digest,
					&boundaries(&inst.bds),
					&inst.sizes,
					w,
					&binius_hal::make_portable_backend(),
				)
				.map(|p| p.transcript)
				.map_err(|e| e.to_string())
			}
			pub fn validate(s: &Spec, sys: &Sys, inst: &Inst, cols: &[Vec<u128>]) -> Result<(), String> {
				let w = witness(s, sys, cols);
				constraint_system::validate::validate_witness(&sys.cs, &boundaries(&inst.bds), &inst.sizes, &w)
					.map_err(|e| e.to_string())
			}
		}
	};
}
underlier_impl!(u128b, OptimalUnderlier128b);
underlier_impl!(u256b, OptimalUnderlier256b);
underlier_impl!(u512b, OptimalUnderlier512b);

pub fn verify<Ch: Challenger + Default>(
	cs: &ConstraintSystem<B128>,
	digest: &digest::Output<Groestl256>,
	bds: &[Boundary<B128>],
	proof: Vec<u8>,
	rate: usize,
	sec: usize,
) -> Result<(), String> {
	constraint_system::verify::<
		OptimalUnderlier128b,
		CanonicalTowerFamily,
		Groestl256,
		Groestl256ByteCompression,
		Ch,
	>(cs, rate, sec, digest, bds, Proof { transcript: proof })
	.map_err(|e| e.to_string())
}
pub fn verify_inst<Ch: Challenger + Default>(sys: &Sys, inst: &Inst, proof: Vec<u8>, rate: usize, sec: usize) -> Result<(), String> {
	verify::<Ch>(&sys.cs, &sys.cs.digest::<Groestl256>(), &boundaries(&inst.bds), proof, rate, sec)
}
/// Runs code that may panic (the prover on a false statement) and turns a panic into an error.
pub fn quiet<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
	match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
		Ok(r) => r,
		Err(_) => Err("panic".into()),
	}
}
pub fn zero() -> B128 {
	B128::ZERO
}
