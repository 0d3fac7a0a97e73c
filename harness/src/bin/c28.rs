//! C28: arithmetic gadgets. Every enumerated operand tuple is filled through the real gadget and validated;
//! then all assignments of the gadget's private and output cells are searched exhaustively for one that
//! satisfies the compiled constraints with a wrong output.
use std::{collections::BTreeSet, fmt::Debug};

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{constraint_system::validate::validate_witness, oracle::ShiftVariant};
use binius_field::{TowerField, arch::OptimalUnderlier, as_packed_field::PackedType, packed::set_packed_slice};
use binius_m3::{
	builder::{B1, B32, B64, B128, Col, ConstraintSystem, TableBuilder, TableWitnessSegment, WitnessIndex, test_utils::ClosureFiller},
	gadgets::{add::*, barrel_shifter::BarrelShifter, div::*, mul::*, sub::*},
};
use vharness::{Ck, R, Run, check, rowmodel::*};

type P = PackedType<OptimalUnderlier, B128>;
type Seg<'a> = TableWitnessSegment<'a, P>;

fn main() {
	check("C28", run)
}
fn ob<F: TowerField, const V: usize>(tb: &mut TableBuilder, name: &str, c: Col<F, V>)
where
	B128: binius_field::ExtensionField<F>,
{
	let e: binius_m3::builder::Expr<F, V> = c.into();
	tb.add_computed::<F, V>(name, e);
}
fn bits(x: u128, n: usize) -> Vec<u128> {
	(0..n).map(|i| x >> i & 1).collect()
}
/// Alternatives for the exponent groups of a row: (group index, value) lists, tried one after another.
type Alts<'a, I> = &'a (dyn Fn(I, &[u128]) -> Vec<Vec<(usize, u128)>> + Sync);

struct G<'a, T, I> {
	name: String,
	rows: Vec<I>,
	/// every n-th row is searched for wrong outputs
	every: usize,
	build: &'a (dyn Fn(&mut TableBuilder) -> T + Sync),
	obs: &'a (dyn Fn(&T, &mut TableBuilder) + Sync),
	fill: &'a (dyn Fn(&T, &mut Seg, &[I]) -> anyhow::Result<()> + Sync),
	want: &'a (dyn Fn(I) -> Vec<u128> + Sync),
	alts: Option<Alts<'a, I>>,
}
const CAP: u64 = 60_000;
fn gadget<T: Sync, I: Copy + Debug + Sync + PartialEq>(ck: &Ck, g: G<T, I>) {
	let blocks: Vec<(usize, Vec<I>)> = {
		let mut v: Vec<(usize, Vec<I>)> = g.rows.chunks(512).map(|c| c.to_vec()).enumerate().collect();
		// short tables
		for n in [1usize, 2, 3, 5] {
			v.push((1000 + n, g.rows.iter().rev().take(n).copied().collect()));
		}
		v
	};
	if std::env::var("ONLY").is_ok_and(|x| !g.name.contains(&x)) {
		return;
	}
	ck.par(&blocks, |(bi, rows)| {
		ck.case("gadget fill validates and computes the integer result", || format!("{} block {bi} ({} rows)", g.name, rows.len()), |r| {
			block(r, &g, rows, *bi < 1000)
		});
	});
}
fn block<T: Sync, I: Copy + Debug + Sync + PartialEq>(r: &mut Run, g: &G<T, I>, rows: &[I], search: bool) -> R {
	// the real fill and the real validator
	let mut cs = ConstraintSystem::<B128>::new();
	let (gd, id) = {
		let mut tb = cs.add_table("t");
		let id = tb.id();
		((g.build)(&mut tb), id)
	};
	let mut alloc = CpuComputeAllocator::<P>::new(1 << 16);
	let bump = alloc.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &bump);
	w.fill_table_sequential(&ClosureFiller::new(id, |ev: &[I], seg: &mut Seg| (g.fill)(&gd, seg, ev)), rows).map_err(|e| format!("fill: {e}"))?;
	w.fill_constant_cols().map_err(|e| e.to_string())?;
	let ccs = cs.compile().map_err(|e| e.to_string())?;
	let n_oracles = ccs.oracles.size();
	let sizes = w.table_sizes();
	let index = w.into_multilinear_extension_index();
	if g.alts.is_none() {
		validate_witness(&ccs, &[], &sizes, &index).map_err(|e| format!("the filled table does not validate: {e:?}"))?;
	}
	// the model: the same table with observers
	let mut cs2 = ConstraintSystem::<B128>::new();
	{
		let mut tb = cs2.add_table("t");
		let gd = (g.build)(&mut tb);
		(g.obs)(&gd, &mut tb);
	}
	let m = Model::new(cs2.compile().map_err(|e| e.to_string())?)?;
	let (ins, outs) = (m.find("vin"), m.find("vout"));
	let fixed = m.deps_of(&ins);
	// groups of exponent bits that are not inputs
	let mut groups: Vec<Vec<usize>> = vec![];
	let mut all_fixed = fixed.clone();
	for e in &m.exps {
		let cells: Vec<usize> = e.bits.iter().flat_map(|&b| { let mut s = BTreeSet::new(); m.deps(b, 0, &mut s); s }).collect();
		if cells.len() == e.bits.len() && cells.iter().all(|c| !fixed.contains(c)) && !groups.contains(&cells) {
			all_fixed.extend(&cells);
			groups.push(cells);
		}
	}
	let plan = m.plan(&all_fixed, &outs);
	for (i, &row) in rows.iter().enumerate() {
		let base = m.base(&index, i, n_oracles)?;
		let want = (g.want)(row);
		r.eq(&m.values(&base, &outs), &want, || format!("output for {row:x?}"))?;
		if let Some(v) = m.violated(&base) {
			return Err(format!("honest row {row:x?}: {v} is violated"));
		}
		r.step(1);
		if !search || i % g.every != 0 {
			continue;
		}
		let gv: Vec<u128> = groups.iter().map(|c| c.iter().enumerate().map(|(k, &x)| u128::from(base[x]) << k).sum()).collect();
		let alts = match g.alts {
			Some(f) => f(row, &gv),
			None => vec![vec![]],
		};
		for a in alts {
			let mut st = base.clone();
			for &(k, v) in &a {
				if k < groups.len() {
					for (b, &c) in groups[k].iter().enumerate() {
						st[c] = bit(v, b);
					}
				}
			}
			let mut wrong = None;
			let mut sols = 0;
			let (nodes, _) = m.search(&plan, &mut st, CAP, &mut |s| {
				sols += 1;
				let o = m.values(s, &outs);
				if o != want {
					wrong = Some(o);
				}
				wrong.is_none()
			});
			r.step(nodes);
			if let Some(o) = wrong {
				return Err(format!("inputs {row:x?}: the constraints accept output {o:x?} instead of {want:x?} (exponent groups {a:x?})"));
			}
			r.obs(&(sols as u64));
		}
	}
	Ok(())
}
fn alphabet(n: usize, dense: bool) -> Vec<u64> {
	let m = if n == 64 { u64::MAX } else { (1 << n) - 1 };
	let mut v = vec![0, 1, 2, 3, 5, 7, m, m - 1, m - 2, 0x5555555555555555 & m, 0xaaaaaaaaaaaaaaaa & m, 0x00ff00ff00ff00ff & m, m >> 1, (m >> 1) + 1, (m >> 1) + 2];
	for k in 2..n {
		if dense || k % 4 == 3 || k % 8 == 0 || k == n - 2 {
			v.push(1 << k);
			v.push((1 << k) - 1);
			if dense {
				v.push(m ^ 1 << k);
			}
		}
	}
	v.sort();
	v.dedup();
	v
}
fn pairs(a: &[u64], b: &[u64]) -> Vec<(u64, u64)> {
	a.iter().flat_map(|&x| b.iter().map(move |&y| (x, y))).collect()
}
fn put(seg: &mut Seg, c: Col<B1, 32>, v: impl Iterator<Item = u32>) -> anyhow::Result<()> {
	let mut d = seg.get_mut_as::<u32, B1, 32>(c)?;
	for (i, x) in v.enumerate() {
		d[i] = x;
	}
	Ok(())
}
fn put_bits<const N: usize>(seg: &mut Seg, cols: &[Col<B1>; N], v: impl Iterator<Item = u64> + Clone) -> anyhow::Result<()> {
	for (k, &c) in cols.iter().enumerate() {
		let mut d = seg.get_mut(c)?;
		for (i, x) in v.clone().enumerate() {
			set_packed_slice(&mut d, i, B1::from(x >> k & 1 == 1));
		}
	}
	Ok(())
}
fn u32_add_sub(ck: &Ck, dense: bool) {
	let a = alphabet(32, dense);
	for sub in [false, true] {
		for f in 0..8 {
			let (carry, commit, expose) = (f & 1 == 1, f & 2 != 0, f & 4 != 0);
			let rows: Vec<(u64, u64, u32)> = pairs(&a, &a).into_iter().flat_map(|(x, y)| (0..=carry as u32).map(move |c| (x, y, c))).collect();
			let name = format!("U32{} carry_in={carry} commit={commit} expose={expose}", if sub { "Sub" } else { "Add" });
			let want = move |(x, y, c): (u64, u64, u32)| {
				let t = if sub { (x as i128) - (y as i128) - c as i128 } else { x as i128 + y as i128 + c as i128 };
				let mut v = bits((t & 0xffff_ffff) as u128, 32);
				if expose {
					v.push((t < 0 || t >> 32 != 0) as u128);
				}
				v
			};
			enum T {
				A(U32Add, Option<Col<B1, 32>>),
				S(U32Sub, Option<Col<B1, 32>>),
			}
			gadget(ck, G {
				name,
				rows,
				every: if dense { 1 } else { 5 },
				build: &|tb| {
					let x = tb.add_committed::<B1, 32>("x");
					let y = tb.add_committed::<B1, 32>("y");
					let c = carry.then(|| tb.add_committed::<B1, 32>("c"));
					if sub {
						T::S(U32Sub::new(tb, x, y, U32SubFlags { borrow_in_bit: c, commit_zout: commit, expose_final_borrow: expose }), c)
					} else {
						T::A(U32Add::new(tb, x, y, U32AddFlags { carry_in_bit: c, commit_zout: commit, expose_final_carry: expose }), c)
					}
				},
				obs: &|t, tb| {
					let (x, y, z, f, c) = match t {
						T::A(a, c) => (a.xin, a.yin, a.zout, a.final_carry, c),
						T::S(a, c) => (a.xin, a.yin, a.zout, a.final_borrow, c),
					};
					ob(tb, "vin0", x);
					ob(tb, "vin1", y);
					if let Some(c) = c {
						ob(tb, "vin2", *c);
					}
					ob(tb, "vout0", z);
					if let Some(f) = f {
						ob(tb, "vout1", f);
					}
				},
				fill: &|t, seg, ev| {
					let (x, y, c) = match t {
						T::A(a, c) => (a.xin, a.yin, c),
						T::S(a, c) => (a.xin, a.yin, c),
					};
					put(seg, x, ev.iter().map(|e| e.0 as u32))?;
					put(seg, y, ev.iter().map(|e| e.1 as u32))?;
					if let Some(c) = c {
						put(seg, *c, ev.iter().map(|e| e.2))?;
					}
					match t {
						T::A(a, _) => a.populate(seg),
						T::S(a, _) => a.populate(seg),
					}
				},
				want: &want,
				alts: None,
			});
		}
	}
}
fn stacked<const V: usize>(ck: &Ck, dense: bool) {
	let a = alphabet(32, false);
	let n = V / 32;
	for f in 0..4 {
		let (carry, commit) = (f & 1 == 1, f & 2 != 0);
		let rows: Vec<(u64, u64, u32)> = pairs(&a, &a).into_iter().map(|(x, y)| (x, y, ((x ^ y) & 1) as u32)).collect();
		let lane = move |e: (u64, u64, u32), k: usize| -> (u32, u32, u32) {
			((e.0 as u32).rotate_left(k as u32), (e.1 as u32) ^ (k as u32).wrapping_mul(0x0101_0101), if carry { (e.2 + k as u32) & 1 } else { 0 })
		};
		gadget(ck, G {
			name: format!("U32AddStacked<{V}> carry_in={carry} commit={commit}"),
			rows,
			every: if dense { 3 } else { 23 },
			build: &|tb| {
				let x = tb.add_committed::<B1, V>("x");
				let y = tb.add_committed::<B1, V>("y");
				let c = carry.then(|| tb.add_committed::<B1, V>("c"));
				(U32AddStacked::<V>::new(tb, x, y, commit, c), c)
			},
			obs: &|t, tb| {
				ob(tb, "vin0", t.0.xin);
				ob(tb, "vin1", t.0.yin);
				if let Some(c) = t.1 {
					ob(tb, "vin2", c);
				}
				ob(tb, "vout0", t.0.zout);
			},
			fill: &|t, seg, ev| {
				for (col, which) in [(Some(t.0.xin), 0), (Some(t.0.yin), 1), (t.1, 2)] {
					if let Some(col) = col {
						let mut d = seg.get_mut_as::<u32, B1, V>(col)?;
						for (i, &e) in ev.iter().enumerate() {
							for k in 0..n {
								let l = lane(e, k);
								d[i * n + k] = [l.0, l.1, l.2][which];
							}
						}
					}
				}
				t.0.populate(seg)
			},
			want: &move |e| (0..n).flat_map(|k| { let l = lane(e, k); bits(l.0.wrapping_add(l.1).wrapping_add(l.2) as u128, 32) }).collect(),
			alts: None,
		});
	}
}
macro_rules! wide {
	($fn:ident, $ux:ty, $n:expr) => {
		fn $fn(ck: &Ck, dense: bool) {
			let a = alphabet($n, dense && $n == 32);
			for f in 0..4 {
				let (carry, commit) = (f & 1 == 1, f & 2 != 0);
				let rows: Vec<(u64, u64, u32)> = pairs(&a, &a).into_iter().flat_map(|(x, y)| (0..=carry as u32).map(move |c| (x, y, c))).collect();
				gadget(ck, G {
					name: format!("WideAdd<{}> carry_in={carry} commit={commit}", $n),
					rows: rows.clone(),
					every: if dense { 3 } else { 7 },
					build: &|tb| {
						let x = tb.add_committed_multiple::<B1, 1, $n>("x");
						let y = tb.add_committed_multiple::<B1, 1, $n>("y");
						let c = carry.then(|| tb.add_committed::<B1, 32>("c"));
						(WideAdd::<$ux, $n>::new(tb, x, y, U32AddFlags { carry_in_bit: c, commit_zout: commit, expose_final_carry: true }), c)
					},
					obs: &|t, tb| {
						for i in 0..$n {
							ob(tb, "vin", t.0.x_in[i]);
							ob(tb, "vin", t.0.y_in[i]);
						}
						if let Some(c) = t.1 {
							ob(tb, "vin", c);
						}
						for i in 0..$n {
							ob(tb, "vout", t.0.z_out[i]);
						}
						ob(tb, "vout", t.0.final_carry_out);
					},
					fill: &|t, seg, ev| {
						put_bits(seg, &t.0.x_in, ev.iter().map(|e| e.0))?;
						put_bits(seg, &t.0.y_in, ev.iter().map(|e| e.1))?;
						if let Some(c) = t.1 {
							put(seg, c, ev.iter().map(|e| e.2))?;
						}
						t.0.populate(seg)
					},
					want: &|(x, y, c)| {
						let t = x as u128 + y as u128 + c as u128;
						bits(t, $n + 1)
					},
					alts: None,
				});
				gadget(ck, G {
					name: format!("WideSub<{}> borrow_in={carry} commit={commit}", $n),
					rows,
					every: if dense { 3 } else { 7 },
					build: &|tb| {
						let x = tb.add_committed_multiple::<B1, 1, $n>("x");
						let y = tb.add_committed_multiple::<B1, 1, $n>("y");
						let c = carry.then(|| tb.add_committed::<B1, 32>("c"));
						(WideSub::<$ux, $n>::new(tb, x, y, U32SubFlags { borrow_in_bit: c, commit_zout: commit, expose_final_borrow: true }), c)
					},
					obs: &|t, tb| {
						for i in 0..$n {
							ob(tb, "vin", t.0.xin[i]);
							ob(tb, "vin", t.0.yin[i]);
						}
						if let Some(c) = t.1 {
							ob(tb, "vin", c);
						}
						for i in 0..$n {
							ob(tb, "vout", t.0.zout[i]);
						}
						ob(tb, "vout", t.0.final_borrow.expect("exposed"));
					},
					fill: &|t, seg, ev| {
						put_bits(seg, &t.0.xin, ev.iter().map(|e| e.0))?;
						put_bits(seg, &t.0.yin, ev.iter().map(|e| e.1))?;
						if let Some(c) = t.1 {
							put(seg, c, ev.iter().map(|e| e.2))?;
						}
						t.0.populate(seg)
					},
					want: &|(x, y, c)| {
						let t = x as i128 - y as i128 - c as i128;
						let mut v = bits(t as u128, $n);
						v.push((t < 0) as u128);
						v
					},
					alts: None,
				});
			}
			let a = alphabet($n, true);
			gadget(ck, G {
				name: format!("Incr<{}>", $n),
				rows: a.clone(),
				every: 1,
				build: &|tb| {
					let x = tb.add_committed_multiple::<B1, 1, $n>("x");
					Incr::<$ux, $n>::new(tb, x)
				},
				obs: &|t, tb| {
					for i in 0..$n {
						ob(tb, "vin", t.input[i]);
					}
					for i in 0..$n {
						ob(tb, "vout", t.zout[i]);
					}
					ob(tb, "vout", t.final_carry_out);
				},
				fill: &|t, seg, ev| {
					put_bits(seg, &t.input, ev.iter().copied())?;
					t.populate(seg)
				},
				want: &|x| bits(x as u128 + 1, $n + 1),
				alts: None,
			});
			gadget(ck, G {
				name: format!("TwosComplement<{}>", $n),
				rows: a,
				every: 1,
				build: &|tb| {
					let x = tb.add_committed_multiple::<B1, 1, $n>("x");
					TwosComplement::<$ux, $n>::new(tb, x)
				},
				obs: &|t, tb| {
					for i in 0..$n {
						ob(tb, "vin", t.xin[i]);
						ob(tb, "vout", t.result_bits[i]);
					}
				},
				fill: &|t, seg, ev| {
					put_bits(seg, &t.xin, ev.iter().copied())?;
					t.populate(seg)
				},
				want: &|x| bits((x as u128).wrapping_neg(), $n),
				alts: None,
			});
		}
	};
}
wide!(wide32, u32, 32);
wide!(wide64, u64, 64);

fn barrel(ck: &Ck, dense: bool) {
	let a: Vec<u64> = alphabet(32, dense);
	let mut s: Vec<u64> = (0..32).collect();
	s.extend([32, 33, 63, 1 << 15 | 5, 0xffff, 0xffe0]);
	for v in [ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight, ShiftVariant::CircularLeft] {
		gadget(ck, G {
			name: format!("BarrelShifter {v:?}"),
			rows: pairs(&a, &s),
			every: if dense { 3 } else { 7 },
			build: &|tb| {
				let x = tb.add_committed::<B1, 32>("x");
				let y = tb.add_committed::<B1, 16>("y");
				(BarrelShifter::new(tb, x, y, v), x, y)
			},
			obs: &|t, tb| {
				ob(tb, "vin", t.1);
				ob(tb, "vin", t.2);
				ob(tb, "vout", t.0.output);
			},
			fill: &|t, seg, ev| {
				put(seg, t.1, ev.iter().map(|e| e.0 as u32))?;
				{
					let mut d = seg.get_mut_as::<u16, B1, 16>(t.2)?;
					for (i, e) in ev.iter().enumerate() {
						d[i] = e.1 as u16;
					}
				}
				t.0.populate(seg)
			},
			want: &move |(x, s)| {
				let (x, s) = (x as u32, (s & 31) as u32);
				bits(
					match v {
						ShiftVariant::LogicalLeft => x << s,
						ShiftVariant::LogicalRight => x >> s,
						ShiftVariant::CircularLeft => x.rotate_left(s),
					} as u128,
					32,
				)
			},
			alts: None,
		});
	}
}
/// wrong products around (and congruent to) the true one
fn products(z: u128, n: usize) -> Vec<(u128, u128)> {
	let m = (1u128 << n) - 1;
	let mut full: Vec<u128> = vec![z];
	for k in 0..2 * n {
		full.push(z ^ 1 << k);
	}
	let order = if n == 32 { u64::MAX as u128 } else { u128::MAX };
	let lim = |x: u128| if n == 32 { x & u64::MAX as u128 } else { x };
	for d in [1u128, 3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721] {
		if order % d == 0 {
			full.push(lim(z.wrapping_add(order / d)));
			full.push(lim(z.wrapping_sub(order / d)));
		}
	}
	full.extend([lim(z.wrapping_add(1)), lim(z.wrapping_sub(1)), lim(!z), 0, order, lim(z << 1), z >> 1]);
	full.sort();
	full.dedup();
	full.into_iter().map(|x| (x & m, x >> n)).collect()
}
/// groups (by position): all but the last two are prover-chosen multiplicands, the last two the product halves
fn prod_alts(gv: &[u128], zs: &[(u128, u128)]) -> Vec<Vec<(usize, u128)>> {
	let k = gv.len();
	if k < 2 {
		return vec![vec![]];
	}
	zs.iter().flat_map(|&(lo, hi)| [vec![(k - 2, lo), (k - 1, hi)], vec![(k - 2, hi), (k - 1, lo)]]).collect()
}
fn mul(ck: &Ck, dense: bool) {
	let a = alphabet(32, false);
	let b32 = |x: u64| B32::new(x as u32);
	let halves = |t: u64| vec![(t as u32) as u128, t as u128 >> 32];
	let every = if dense { 7 } else { 61 };
	gadget(ck, G {
		name: "MulUU32".into(),
		rows: pairs(&a, &a),
		every,
		build: &|tb| MulUU32::new(tb),
		obs: &|t, tb| {
			ob(tb, "vin", t.xin);
			ob(tb, "vin", t.yin);
			ob(tb, "vout", t.out_low);
			ob(tb, "vout", t.out_high);
			for i in 0..32 {
				ob(tb, "vout", t.out_low_bits[i]);
			}
			for i in 0..32 {
				ob(tb, "vout", t.out_high_bits[i]);
			}
		},
		fill: &|t, seg, ev| t.populate_with_inputs(seg, ev.iter().map(|e| b32(e.0)), ev.iter().map(|e| b32(e.1))),
		want: &|(x, y)| { let mut v = halves(x * y); v.extend(bits((x * y) as u128, 64)); v },
		alts: Some(&|(x, y), gv| prod_alts(gv, &products((x * y) as u128, 32))),
	});
	let a64 = alphabet(64, false);
	let b64 = |x: u64| B64::new(x);
	gadget(ck, G {
		name: "MulUU64".into(),
		rows: pairs(&a64, &a64),
		every: 2 * every,
		build: &|tb| {
			let x = tb.add_committed_multiple::<B1, 1, 64>("x");
			let y = tb.add_committed_multiple::<B1, 1, 64>("y");
			MulUU64::with_inputs(tb, x, y)
		},
		obs: &|t, tb| {
			ob(tb, "vin", t.xin);
			ob(tb, "vin", t.yin);
			ob(tb, "vout", t.out_low);
			ob(tb, "vout", t.out_high);
		},
		fill: &|t, seg, ev| t.populate_with_inputs(seg, ev.iter().map(|e| b64(e.0)), ev.iter().map(|e| b64(e.1))),
		want: &|(x, y)| { let t = x as u128 * y as u128; vec![t & u64::MAX as u128, t >> 64] },
		alts: Some(&|(x, y), gv| prod_alts(gv, &products(x as u128 * y as u128, 64))),
	});
	gadget(ck, G {
		name: "MulSS32".into(),
		rows: pairs(&a, &a),
		every,
		build: &|tb| MulSS32::new(tb),
		obs: &|t, tb| {
			ob(tb, "vin", t.xin);
			ob(tb, "vin", t.yin);
			ob(tb, "vout", t.out_low);
			ob(tb, "vout", t.out_high);
			for i in 0..64 {
				ob(tb, "vout", t.out_bits[i]);
			}
		},
		fill: &|t, seg, ev| { let (x, y): (Vec<_>, Vec<_>) = ev.iter().map(|e| (b32(e.0), b32(e.1))).unzip(); t.populate_with_inputs(seg, x, y) },
		want: &|(x, y)| { let t = (x as u32 as i32 as i64 * y as u32 as i32 as i64) as u64; let mut v = halves(t); v.extend(bits(t as u128, 64)); v },
		alts: Some(&|(x, y), gv| prod_alts(gv, &products((x * y) as u128, 32))),
	});
	gadget(ck, G {
		name: "MulSU32".into(),
		rows: pairs(&a, &a),
		every,
		build: &|tb| MulSU32::new(tb),
		obs: &|t, tb| {
			ob(tb, "vin", t.xin);
			ob(tb, "vin", t.yin);
			ob(tb, "vout", t.out_low);
			ob(tb, "vout", t.out_high);
		},
		fill: &|t, seg, ev| { let (x, y): (Vec<_>, Vec<_>) = ev.iter().map(|e| (b32(e.0), b32(e.1))).unzip(); t.populate_with_inputs(seg, x, y) },
		want: &|(x, y)| halves((x as u32 as i32 as i64 * y as i64) as u64),
		alts: Some(&|(x, y), gv| prod_alts(gv, &products((x * y) as u128, 32))),
	});
}
fn div(ck: &Ck, dense: bool) {
	let a = alphabet(32, false);
	let mut p = a.clone();
	p.extend([6, 8, 9, 12, 100, 0xffff_fffc, 0xffff_fff7, 0x8000_0002, 0xffff_ff00]);
	let mut q = a.clone();
	q.extend([4, 6, 10, 0xffff_fffe - 3]);
	q.retain(|&x| x != 0);
	let b32 = |x: u64| B32::new(x as u32);
	let quots = |d: u64| -> Vec<u64> {
		let mut v: Vec<u64> = vec![d, d + 1, d.wrapping_sub(1), d + 2, 0, 1, u32::MAX as u64, d ^ 1 << 31, d >> 1, d << 1, !d];
		v.iter_mut().for_each(|x| *x &= u32::MAX as u64);
		v.sort();
		v.dedup();
		v
	};
	let alts = |q: u64, d: u64, gv: &[u128]| {
		let mut out = vec![];
		for x in quots(d) {
			for mut v in prod_alts(gv, &[(((q * x) & 0xffff_ffff) as u128, (q * x) as u128 >> 32)]) {
				for k in 0..gv.len().saturating_sub(2) {
					v.push((k, x as u128));
				}
				out.push(v);
			}
		}
		out
	};
	let every = if dense { 3 } else { 17 };
	gadget(ck, G {
		name: "DivUU32".into(),
		rows: pairs(&p, &q),
		every,
		build: &|tb| DivUU32::new(tb),
		obs: &|t, tb| {
			ob(tb, "vin", t.p_in);
			ob(tb, "vin", t.q_in);
			ob(tb, "vout", t.out_div);
			ob(tb, "vout", t.out_rem);
		},
		fill: &|t, seg, ev| { let (x, y): (Vec<_>, Vec<_>) = ev.iter().map(|e| (b32(e.0), b32(e.1))).unzip(); t.populate_with_inputs(seg, x, y) },
		want: &|(p, q)| vec![(p / q) as u128, (p % q) as u128],
		alts: Some(&|(p, q), gv| alts(q, p / q, gv)),
	});
	let s = |x: u64| x as u32 as i32;
	gadget(ck, G {
		name: "DivSS32".into(),
		rows: pairs(&p, &q).into_iter().filter(|&(p, q)| !(s(p) == i32::MIN && s(q) == -1)).collect(),
		every,
		build: &|tb| DivSS32::new(tb),
		obs: &|t, tb| {
			ob(tb, "vin", t.p_in);
			ob(tb, "vin", t.q_in);
			ob(tb, "vout", t.out_div);
			ob(tb, "vout", t.out_rem);
		},
		fill: &|t, seg, ev| { let (x, y): (Vec<_>, Vec<_>) = ev.iter().map(|e| (b32(e.0), b32(e.1))).unzip(); t.populate_with_inputs(seg, x, y) },
		want: &|(p, q)| vec![(s(p) / s(q)) as u32 as u128, (s(p) % s(q)) as u32 as u128],
		alts: Some(&|(p, q), gv| alts(q, (s(p) / s(q)) as u32 as u64, gv)),
	});
}
fn run(ck: &Ck) {
	let dense = ck.pick(false, true);
	ck.bound("operands: all pairs of an alphabet of 0,1,small, all/most 2^k, 2^k-1 (thorough: complements too), alternating and sign-boundary patterns; all carry/commit/expose flags; shift amounts 0..31 and ignored high bits");
	ck.bound("wrong results: per searched row, every assignment of all private and output cells by exhaustive search with constraint pruning; product and quotient bits of multipliers/dividers over single-bit, +-1, alias-modulo-subgroup-order alternatives");
	ck.assume("zero constraints and exponentiations of a row are decided on that row alone (gadgets use no channels); the field's generator powers are as computed by the field implementation (C01)");
	u32_add_sub(ck, dense);
	stacked::<64>(ck, dense);
	stacked::<128>(ck, dense);
	wide32(ck, dense);
	wide64(ck, dense);
	barrel(ck, dense);
	mul(ck, dense);
	div(ck, dense);
	
}
