//! C27: filling a table is independent of segmentation and parallelism, and column views address exactly the
//! named rows of the named column.
use std::sync::Mutex;

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_field::{
	Field,
	arch::{OptimalUnderlier, OptimalUnderlier128b, OptimalUnderlier512b},
	as_packed_field::PackedType,
	packed::{get_packed_slice, set_packed_slice},
};
use binius_m3::builder::{B1, B8, B16, B32, B64, B128, Col, ConstraintSystem, TableBuilder, TableFiller, TableId, TableWitnessSegment, WitnessIndex};
use vharness::{Ck, R, Run, check, mix128};

fn main() {
	check("C27", run)
}
fn es(e: impl std::fmt::Display) -> String {
	e.to_string()
}
/// Declares the filler for one packing: columns of every field, with 1..32 values per row.
macro_rules! packing {
	($m:ident, $u:ty) => {
		mod $m {
			use super::*;
			pub type P = PackedType<$u, B128>;
			type Seg<'a> = TableWitnessSegment<'a, P>;
			pub struct T {
				pub id: TableId,
				b1: Col<B1>,
				b1x8: Col<B1, 8>,
				b1x32: Col<B1, 32>,
				b8: Col<B8>,
				b8x4: Col<B8, 4>,
				b16: Col<B16>,
				b32: Col<B32>,
				b32x2: Col<B32, 2>,
				b64: Col<B64>,
				b128: Col<B128>,
				pub seen: Mutex<Vec<Vec<u64>>>,
				pub fail: Option<u64>,
			}
			pub fn v(e: u64, c: u64, k: u64) -> u128 {
				mix128(e << 20 | c << 10 | k)
			}
			impl T {
				pub fn new(tb: &mut TableBuilder, fail: Option<u64>) -> Self {
					Self {
						id: tb.id(),
						b1: tb.add_committed("b1"),
						b1x8: tb.add_committed("b1x8"),
						b1x32: tb.add_committed("b1x32"),
						b8: tb.add_committed("b8"),
						b8x4: tb.add_committed("b8x4"),
						b16: tb.add_committed("b16"),
						b32: tb.add_committed("b32"),
						b32x2: tb.add_committed("b32x2"),
						b64: tb.add_committed("b64"),
						b128: tb.add_committed("b128"),
						seen: Default::default(),
						fail,
					}
				}
				fn write(&self, seg: &Seg, rows: &[u64]) -> anyhow::Result<()> {
					{
						let mut a = seg.get_mut(self.b1)?;
						let mut b = seg.get_mut(self.b8)?;
						let mut c = seg.get_mut(self.b8x4)?;
						for (i, &e) in rows.iter().enumerate() {
							set_packed_slice(&mut a, i, B1::from(v(e, 0, 0) & 1 == 1));
							set_packed_slice(&mut b, i, B8::new(v(e, 3, 0) as u8));
							for k in 0..4 {
								set_packed_slice(&mut c, 4 * i + k, B8::new(v(e, 4, k as u64) as u8));
							}
						}
					}
					{
						let mut a = seg.get_mut_as::<u8, B1, 8>(self.b1x8)?;
						let mut b = seg.get_mut_as::<u32, B1, 32>(self.b1x32)?;
						let mut c = seg.get_mut_as::<u64, B64, 1>(self.b64)?;
						for (i, &e) in rows.iter().enumerate() {
							a[i] = v(e, 1, 0) as u8;
							b[i] = v(e, 2, 0) as u32;
							c[i] = v(e, 8, 0) as u64;
						}
					}
					{
						let mut a = seg.get_scalars_mut(self.b16)?;
						let mut b = seg.get_scalars_mut(self.b32)?;
						let mut c = seg.get_scalars_mut(self.b32x2)?;
						for (i, &e) in rows.iter().enumerate() {
							a[i] = B16::new(v(e, 5, 0) as u16);
							b[i] = B32::new(v(e, 6, 0) as u32);
							c[2 * i] = B32::new(v(e, 7, 0) as u32);
							c[2 * i + 1] = B32::new(v(e, 7, 1) as u32);
						}
					}
					let mut d = seg.get_dyn_mut(self.b128.id())?;
					for (i, &e) in rows.iter().enumerate() {
						d.set(i, B128::new(v(e, 9, 0)))?;
					}
					Ok(())
				}
				/// every row of a segment through every kind of view, as integers
				pub fn read(&self, seg: &Seg, rows: usize) -> Result<Vec<Vec<u128>>, String> {
					let mut out = vec![];
					let (b1, b1x8, b1x32, b8x4) = (seg.get(self.b1).map_err(es)?, seg.get(self.b1x8).map_err(es)?, seg.get(self.b1x32).map_err(es)?, seg.get_scalars(self.b8x4).map_err(es)?);
					let (b16, b32, b128) = (seg.get(self.b16).map_err(es)?, seg.get_as::<u32, B32, 1>(self.b32).map_err(es)?, seg.get_scalars(self.b128).map_err(es)?);
					let (b32x2, b8, b64) = (seg.get_dyn(self.b32x2.id()).map_err(es)?, seg.get_dyn(self.b8.id()).map_err(es)?, seg.get_dyn(self.b64.id()).map_err(es)?);
					let n = |x: B128| u128::from(x);
					for i in 0..rows {
						let bits = |c: &[_], w: usize| (0..w).map(|k| ((get_packed_slice(c, w * i + k) == B1::ONE) as u128) << k).sum::<u128>();
						let mut r = vec![bits(&b1, 1), bits(&b1x8, 8), bits(&b1x32, 32), n(b8.get(i))];
						r.extend((0..4).map(|k| b8x4[4 * i + k].val() as u128));
						r.push(get_packed_slice(&b16, i).val() as u128);
						r.push(b32[i] as u128);
						r.push(n(b32x2.get(2 * i)));
						r.push(n(b32x2.get(2 * i + 1)));
						r.push(n(b64.get(i)));
						r.push(n(b128[i]));
						out.push(r);
					}
					Ok(out)
				}
				pub fn want(e: u64) -> Vec<u128> {
					let mut r = vec![v(e, 0, 0) & 1, v(e, 1, 0) as u8 as u128, v(e, 2, 0) as u32 as u128, v(e, 3, 0) as u8 as u128];
					r.extend((0..4).map(|k| v(e, 4, k) as u8 as u128));
					r.extend([v(e, 5, 0) as u16 as u128, v(e, 6, 0) as u32 as u128, v(e, 7, 0) as u32 as u128, v(e, 7, 1) as u32 as u128, v(e, 8, 0) as u64 as u128, v(e, 9, 0)]);
					r
				}
			}
			impl TableFiller<P> for T {
				type Event = u64;
				fn id(&self) -> TableId {
					self.id
				}
				fn fill(&self, rows: &[u64], seg: &mut Seg) -> anyhow::Result<()> {
					anyhow::ensure!(rows.len() == seg.size(), "{} events for a segment of {} rows", rows.len(), seg.size());
					self.seen.lock().unwrap().push(rows.to_vec());
					if let Some(f) = self.fail {
						anyhow::ensure!(!rows.contains(&f), "event {f} refused");
					}
					self.write(seg, rows)
				}
			}
			/// mode: 0 sequential, 1 parallel; seg None: the default segmentation of the witness index
			pub fn case(r: &mut Run, n: usize, mode: usize, seg: Option<usize>, pow2: bool, fail: Option<u64>) -> R {
				let mut cs = ConstraintSystem::<B128>::new();
				let t = {
					let mut tb = cs.add_table("t");
					if pow2 {
						tb.require_power_of_two_size();
					}
					T::new(&mut tb, fail)
				};
				let other = {
					let mut tb = cs.add_table("other");
					tb.add_committed::<B64, 1>("x");
					tb.id()
				};
				let mut alloc = CpuComputeAllocator::<P>::new(1 << 15);
				let bump = alloc.into_bump_allocator();
				let mut w = WitnessIndex::<P>::new(&cs, &bump);
				let ev: Vec<u64> = (0..n as u64).map(|i| 7 + i * 3).collect();
				let res = match seg {
					None if mode == 0 => w.fill_table_sequential(&t, &ev),
					None => w.fill_table_parallel(&t, &ev),
					Some(s) => w.init_table(t.id, n).and_then(|tw| if mode == 0 { tw.fill_sequential_with_segment_size(&t, &ev, s) } else { tw.fill_parallel_with_segment_size(&t, &ev, s) }),
				};
				if let Some(f) = fail {
					let hit = ev.contains(&f);
					r.eq(&res.is_err(), &hit, || format!("a refused event must surface as an error: {res:?}"))?;
					if hit {
						return Ok(());
					}
				}
				res.map_err(|e| format!("fill: {e}"))?;
				r.eq(&w.table_sizes(), &{ let mut s = vec![0; 2]; s[t.id] = n; s }, || "table sizes".into())?;
				r.ok(w.get_table(other).is_none(), || "the other table was touched".into())?;
				// every event once, in order
				let mut seen = t.seen.lock().unwrap().clone();
				seen.sort();
				let mut flat: Vec<u64> = seen.concat();
				let pad = flat.len().saturating_sub(n);
				r.ok(flat.len() >= n && flat[n - 1..].iter().all(|&x| x == ev[n - 1]), || format!("events presented: {flat:?}, {pad} of them padding"))?;
				flat.truncate(n);
				r.eq(&flat, &ev, || "events presented to the filler".into())?;
				let tw = w.get_table(t.id).ok_or("table missing")?;
				let cap = tw.capacity();
				{
					let full = tw.full_segment();
					let got = t.read(&full, cap)?;
					for i in 0..n {
						r.eq(&got[i], &T::want(ev[i]), || format!("row {i} of {n}"))?;
					}
					// padding repeats rows of the table
					for (i, g) in got.iter().enumerate().skip(n) {
						r.ok(ev.iter().any(|&e| *g == T::want(e)), || format!("padding row {i} is not a row of the table"))?;
					}
				}
				// segment views of every size show the same rows
				for s in 0..=cap.ilog2() as usize + 1 {
					let mut at = 0;
					for x in tw.segments(s) {
						let got = t.read(&x, x.size())?;
						for (j, g) in got.iter().enumerate() {
							if at + j < n {
								r.eq(g, &T::want(ev[at + j]), || format!("row {} through segments of 2^{s}", at + j))?;
							}
						}
						at += x.size();
						r.step(1);
					}
					r.eq(&at, &cap, || format!("rows covered by the segments of 2^{s}"))?;
				}
				r.obs(&(n as u64, seg.map_or(99, |x| x as u64), seen.len() as u64));
				Ok(())
			}
			pub fn all(ck: &Ck, name: &str, max: usize) {
				let mut items = vec![];
				for n in 1..=max {
					for mode in 0..2 {
						for seg in [None].into_iter().chain((0..=max.ilog2() as usize + 3).map(Some)) {
							for pow2 in [false, true] {
								if pow2 && !n.is_power_of_two() {
									continue;
								}
								items.push((n, mode, seg, pow2, None));
								if !pow2 {
									for f in [0, n / 2, n - 1] {
										items.push((n, mode, seg, pow2, Some(7 + 3 * f as u64)));
									}
									items.push((n, mode, seg, pow2, Some(8)));
								}
							}
						}
					}
				}
				ck.par(&items, |&(n, mode, seg, pow2, fail)| {
					ck.case("fill and read back", || format!("{name}: {n} rows, {}, segments {seg:?}, pow2 {pow2}, refusing {fail:?}", ["sequential", "parallel"][mode]), |r| case(r, n, mode, seg, pow2, fail));
				});
			}
		}
	};
}
packing!(p128, OptimalUnderlier128b);
packing!(popt, OptimalUnderlier);
packing!(p512, OptimalUnderlier512b);

fn run(ck: &Ck) {
	let max = ck.pick(70usize, 140);
	p128::all(ck, "128-bit words", max);
	popt::all(ck, "native words", max);
	p512::all(ck, "512-bit words", max);
	ck.bound(format!("every row count 1..={max}, every segment size (and the default), sequential and parallel, with and without a required power-of-two size, a filler refusing the first, middle, last or no event; columns of all six fields with 1..32 values per row; 128-bit, native and 512-bit packings; every row read back through packed, scalar, integer and dynamic views of the full table and of segments of every size"));
	ck.assume("the parallel fill runs under rayon's own scheduling; only the outcome is compared");
}
