//! C30: lookups and channels balance exactly when the multisets agree.
use std::collections::BTreeMap;

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::constraint_system::{
	channel::{Boundary, FlushDirection},
	validate::validate_witness,
};
use binius_field::{Field, arch::OptimalUnderlier, as_packed_field::PackedType};
use binius_m3::{
	builder::{B1, B8, B32, B128, Col, ConstraintSystem, FlushOpts, IndexedLookup, TableWitnessSegment, WitnessIndex, tally, test_utils::ClosureFiller},
	emulate::Channel,
	gadgets::{
		indexed_lookup::{and::*, incr::*},
		lookup::LookupProducer,
		merkle_tree::{MerkleTreeCS, trace::*},
	},
};
use vharness::{Ck, check};

type P = PackedType<OptimalUnderlier, B128>;
type Seg<'a> = TableWitnessSegment<'a, P>;

fn main() {
	check("C30", run)
}
fn es(e: impl std::fmt::Display) -> String {
	e.to_string()
}
fn emulator(ck: &Ck) {
	let depth = ck.pick(6usize, 8);
	let ops: Vec<(usize, i64)> = (0..3).flat_map(|v| [(v, 1), (v, -1)]).collect();
	let firsts: Vec<(usize, usize)> = (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).collect();
	ck.par(&firsts, |&(a, b)| {
		ck.case("emulator: all push/pull histories", || format!("prefix {a},{b} depth <= {depth}"), |r| {
			for len in 0..=depth - 2 {
				for code in 0..6usize.pow(len as u32) {
					let mut h = vec![a, b];
					let mut c = code;
					for _ in 0..len {
						h.push(c % 6);
						c /= 6;
					}
					let mut ch = Channel::<usize>::default();
					let mut net = [0i64; 3];
					for &k in &h {
						let (v, d) = ops[k];
						if d == 1 { ch.push(v) } else { ch.pull(v) }
						net[v] += d;
						r.eq(&ch.is_balanced(), &(net == [0; 3]), || format!("history {h:?}"))?;
					}
				}
			}
			Ok(())
		});
	});
	ck.case("emulator: assert_balanced", || "assert".into(), |r| {
		for k in 0..6 {
			for l in 0..6 {
				let mut ch = Channel::<usize>::default();
				for x in [k, l] {
					if ops[x].1 == 1 { ch.push(ops[x].0) } else { ch.pull(ops[x].0) }
				}
				let bal = ops[k].0 == ops[l].0 && ops[k].1 != ops[l].1;
				let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ch.assert_balanced())).is_ok();
				r.eq(&p, &bal, || format!("{k},{l}"))?;
			}
		}
		Ok(())
	});
}
/// A table of values with multiplicities, a looker table and boundaries.
struct Lk {
	bits: usize,
	cols: usize,
	table: Vec<u32>,
	counts: Vec<u32>,
	looks: Vec<u32>,
	bounds: Vec<(u32, u64)>,
	sel: Option<Vec<bool>>,
	mult: u32,
}
fn cell(v: u32, c: usize) -> u32 {
	if c == 0 { v } else { v ^ 7 }
}
fn lookup_case(l: &Lk) -> Result<Result<(), String>, String> {
	let mut cs = ConstraintSystem::<B128>::new();
	let ch = cs.add_channel("lookup");
	let (tid, vals, prod) = {
		let mut t = cs.add_table("table");
		let vals: Vec<Col<B32>> = (0..l.cols).map(|i| t.add_committed::<B32, 1>(format!("v{i}"))).collect();
		let p = LookupProducer::new(&mut t, ch, &vals, l.bits);
		(t.id(), vals, p)
	};
	let (lid, lv, sel) = {
		let mut t = cs.add_table("looker");
		let vals: Vec<Col<B32>> = (0..l.cols).map(|i| t.add_committed::<B32, 1>(format!("v{i}"))).collect();
		let sel = l.sel.is_some().then(|| t.add_committed::<B1, 1>("sel"));
		if l.mult == 1 && sel.is_none() {
			t.read(ch, vals.iter().copied());
		} else {
			t.pull_with_opts(ch, vals.iter().copied(), FlushOpts { multiplicity: l.mult, selectors: sel.into_iter().collect() });
		}
		(t.id(), vals, sel)
	};
	let mut alloc = CpuComputeAllocator::<P>::new(1 << 10);
	let bump = alloc.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &bump);
	let put = |seg: &mut Seg, cols: &[Col<B32>], ev: &[u32]| -> anyhow::Result<()> {
		for (c, &col) in cols.iter().enumerate() {
			let mut d = seg.get_mut_as::<u32, B32, 1>(col)?;
			for (i, &v) in ev.iter().enumerate() {
				d[i] = cell(v, c);
			}
		}
		Ok(())
	};
	let rows: Vec<(u32, u32)> = l.table.iter().copied().zip(l.counts.iter().copied()).collect();
	let filled = w.fill_table_sequential(
		&ClosureFiller::new(tid, |ev: &[(u32, u32)], seg: &mut Seg| {
			put(seg, &vals, &ev.iter().map(|e| e.0).collect::<Vec<_>>())?;
			prod.populate(seg, ev.iter().map(|e| e.1))
		}),
		&rows,
	);
	let too_big = l.bits < 32 && l.counts.iter().any(|&c| c >= 1 << l.bits);
	if too_big {
		return if filled.is_err() { Ok(Err("count does not fit".into())) } else { Err("a count that does not fit the multiplicity bits was accepted".into()) };
	}
	filled.map_err(es)?;
	if !l.looks.is_empty() {
		let ev: Vec<(u32, bool)> = l.looks.iter().enumerate().map(|(i, &v)| (v, l.sel.as_ref().is_none_or(|s| s[i]))).collect();
		w.fill_table_sequential(
			&ClosureFiller::new(lid, |ev: &[(u32, bool)], seg: &mut Seg| {
				put(seg, &lv, &ev.iter().map(|e| e.0).collect::<Vec<_>>())?;
				if let Some(s) = sel {
					let mut d = seg.get_mut(s)?;
					for (i, e) in ev.iter().enumerate() {
						binius_field::packed::set_packed_slice(&mut d, i, B1::from(e.1));
					}
				}
				Ok(())
			}),
			&ev,
		)
		.map_err(es)?;
	}
	let bd: Vec<Boundary<B128>> = l
		.bounds
		.iter()
		.map(|&(v, m)| Boundary { values: (0..l.cols).map(|c| B128::from(cell(v, c) as u128)).collect(), channel_id: ch, direction: FlushDirection::Pull, multiplicity: m })
		.collect();
	let ccs = cs.compile().map_err(es)?;
	let sizes = w.table_sizes();
	let idx = w.into_multilinear_extension_index();
	Ok(validate_witness(&ccs, &bd, &sizes, &idx).map_err(|e| format!("{e:?}")))
}
fn lookup_want(l: &Lk) -> bool {
	let mut net: BTreeMap<u32, i128> = BTreeMap::new();
	for (v, c) in l.table.iter().zip(&l.counts) {
		*net.entry(*v).or_default() += *c as i128;
	}
	for (i, v) in l.looks.iter().enumerate() {
		if l.sel.as_ref().is_none_or(|s| s[i]) {
			*net.entry(*v).or_default() -= l.mult as i128;
		}
	}
	for (v, m) in &l.bounds {
		*net.entry(*v).or_default() -= *m as i128;
	}
	net.values().all(|&x| x == 0)
}
fn decide(ck: &Ck, space: &str, items: Vec<Lk>) {
	let chunks: Vec<(usize, &[Lk])> = items.chunks(64).enumerate().collect();
	ck.par(&chunks, |&(n, ls)| {
		ck.case(space, || format!("block {n}"), |r| {
			for l in ls {
				let got = lookup_case(l)?;
				let want = lookup_want(l);
				let fits = l.bits >= 32 || l.counts.iter().all(|&c| c < 1 << l.bits);
				r.obs(&(want, got.is_ok()));
				r.ok(got.is_ok() == (want && fits), || {
					format!("table {:?} counts {:?} lookups {:?} sel {:?} x{} bounds {:?} bits {} cols {}: validator says {got:?}, the multisets {}", l.table, l.counts, l.looks, l.sel, l.mult, l.bounds, l.bits, l.cols, if want { "agree" } else { "differ" })
				})?;
			}
			Ok(())
		});
	});
}
fn seqs(alpha: &[u32], max: usize) -> Vec<Vec<u32>> {
	let mut all = vec![vec![]];
	let mut cur: Vec<Vec<u32>> = vec![vec![]];
	for _ in 0..max {
		cur = cur.iter().flat_map(|p| alpha.iter().map(move |&a| { let mut q = p.clone(); q.push(a); q })).collect();
		all.extend(cur.clone());
	}
	all
}
fn multisets(alpha: &[u32], max: usize) -> Vec<Vec<u32>> {
	seqs(alpha, max).into_iter().filter(|s| s.windows(2).all(|w| w[0] <= w[1])).collect()
}
fn producer(ck: &Ck) {
	let mut v = vec![];
	let maxl = ck.pick(3, 5);
	// every count vector against every lookup multiset, including values that are not in the table
	for (table, cols, bits) in [(vec![10u32, 20], 1, 2), (vec![10, 20, 10], 2, 2), (vec![7], 1, 3), (vec![10, 20, 30, 40, 50], 1, 1)] {
		let n = table.len();
		let maxc = if n > 3 { 1 } else { 3u32 };
		let cv: Vec<Vec<u32>> = (0..(maxc + 1).pow(n as u32)).map(|c| (0..n).map(|i| c / (maxc + 1).pow(i as u32) % (maxc + 1)).collect()).collect();
		let alpha: Vec<u32> = if n > 3 { vec![10, 50, 60] } else { vec![table[0], *table.last().unwrap(), 20, 99] };
		let mut alpha = alpha;
		alpha.sort();
		alpha.dedup();
		for looks in multisets(&alpha, maxl) {
			for counts in &cv {
				v.push(Lk { bits, cols, table: table.clone(), counts: counts.clone(), looks: looks.clone(), bounds: vec![], sel: None, mult: 1 });
			}
		}
	}
	decide(ck, "LookupProducer: all lookup multisets x all multiplicities", v);
	let mut v = vec![];
	for looks in [vec![10u32], vec![10, 20], vec![20, 20, 10]] {
		for s in 0..1usize << looks.len() {
			for mult in [1u32, 2, 3] {
				for counts in [vec![0u32, 0], vec![1, 0], vec![1, 1], vec![2, 2], vec![3, 6], vec![0, 2], vec![1, 2], vec![2, 0], vec![3, 3], vec![2, 4], vec![0, 3], vec![3, 0], vec![0, 1], vec![0, 4], vec![0, 6]] {
					v.push(Lk { bits: 3, cols: 1, table: vec![10, 20], counts, looks: looks.clone(), bounds: vec![], sel: Some((0..looks.len()).map(|i| s >> i & 1 == 1).collect()), mult });
				}
			}
		}
	}
	decide(ck, "selected and multiple pulls", v);
	let mut v = vec![];
	for bits in [1usize, 2, 4, 8, 20, 31, 32] {
		for c in [0u32, 1, 2, 3, 4, 15, 16, 255, 256, 1 << 19, (1 << 20) - 1, 1 << 20, 1 << 30, u32::MAX >> 1, 1 << 31, u32::MAX] {
			for d in [0u64, 1] {
				v.push(Lk { bits, cols: 1, table: vec![5, 6, 7], counts: vec![0, c, 0], looks: vec![], bounds: vec![(6, (c as u64).wrapping_sub(d) & 0xffff_ffff_ffff)], sel: None, mult: 1 });
			}
		}
	}
	v.retain(|l| l.bounds[0].1 < 1 << 40);
	decide(ck, "wide multiplicities against boundaries", v);
	// many rows, so that the multiplicity columns span packed elements
	let mut v = vec![];
	for n in [2usize, 127, 128, 129, 200, 256, 257] {
		for bad in [None, Some(0), Some(n / 2), Some(n - 1)] {
			let table: Vec<u32> = (0..n as u32).map(|i| i * 3).collect();
			let mut counts: Vec<u32> = (0..n as u32).map(|i| (i * 7 + i / 64) % 4).collect();
			let looks: Vec<u32> = table.iter().zip(&counts).flat_map(|(&t, &c)| std::iter::repeat_n(t, c as usize)).collect();
			if let Some(b) = bad {
				counts[b] ^= 1;
			}
			v.push(Lk { bits: 3, cols: 1, table, counts, looks, bounds: vec![], sel: None, mult: 1 });
		}
	}
	decide(ck, "tables across packed boundaries", v);
}
#[derive(Clone, Debug, Default)]
struct Fault {
	count: Option<usize>,
	entry: Option<usize>,
	ordered: Option<usize>,
	out: Option<usize>,
}
fn spec_incr(input: u8, c: bool) -> u32 {
	let o = input as u32 + c as u32;
	input as u32 | (o & 0xff) << 8 | (c as u32) << 16 | (o >> 8) << 17
}
fn incr_case(ev: &[(u8, bool)], bounds: &[(u8, bool, u64)], extra_mult: u32, perm: usize, f: &Fault) -> Result<Result<(), String>, String> {
	let mut cs = ConstraintSystem::<B128>::new();
	let (ch, pc) = (cs.add_channel("l"), cs.add_channel("p"));
	let lookup = {
		let mut t = cs.add_table("incr");
		IncrLookup::new(&mut t, ch, pc, 10)
	};
	let (lid, lk) = {
		let mut t = cs.add_table("looker");
		(t.id(), IncrLooker::new(&mut t, ch))
	};
	// a second looker that pulls every merged value several times
	let (mid, mcol) = {
		let mut t = cs.add_table("multi");
		let c = t.add_committed::<B32, 1>("m");
		t.pull_with_opts(ch, [c], FlushOpts { multiplicity: extra_mult.max(1), selectors: vec![] });
		(t.id(), c)
	};
	let mut alloc = CpuComputeAllocator::<P>::new(1 << 13);
	let bump = alloc.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &bump);
	if !ev.is_empty() {
		w.fill_table_sequential(&ClosureFiller::new(lid, |e: &[(u8, bool)], seg: &mut Seg| lk.populate(seg, e.iter())), ev).map_err(es)?;
		if extra_mult > 0 {
			let vals: Vec<u32> = ev.iter().map(|&(a, b)| spec_incr(a, b)).collect();
			w.fill_table_sequential(
				&ClosureFiller::new(mid, |e: &[u32], seg: &mut Seg| {
					seg.get_mut_as::<u32, B32, 1>(mcol)?[..e.len()].copy_from_slice(e);
					Ok(())
				}),
				&vals,
			)
			.map_err(es)?;
		}
	}
	let bd: Vec<Boundary<B128>> = bounds
		.iter()
		.map(|&(a, b, m)| Boundary { values: vec![B128::from(spec_incr(a, b) as u128)], channel_id: ch, direction: FlushDirection::Pull, multiplicity: m })
		.collect();
	let counts = tally(&cs, &mut w, &bd, ch, &IncrIndexedLookup).map_err(es)?;
	let mut rows: Vec<(usize, u32)> = counts.into_iter().enumerate().collect();
	match perm {
		0 => rows.sort_by_key(|x| std::cmp::Reverse(x.1)),
		1 => {}
		_ => rows.reverse(),
	}
	if let Some(c) = f.count {
		rows[c].1 ^= 1;
	}
	w.fill_table_sequential(&lookup, &rows).map_err(es)?;
	// faults in the committed cells, through the raw views
	for (id, which) in [(lookup_id(&lookup), 0), (lid, 1)] {
		if let Some(t) = w.get_table(id) {
			let seg = t.full_segment();
			let flip = |name: usize, row: usize| -> Result<(), String> {
				let mut d = seg.get_dyn_mut(col_id(&cs, id, name)).map_err(es)?;
				let x = d.get(row);
				d.set(row, x + B128::ONE).map_err(es)
			};
			if which == 0 {
				if let Some(r) = f.ordered {
					flip(0, r)?;
				}
				if let Some(r) = f.entry {
					flip(1, r)?;
				}
			} else if let Some(r) = f.out {
				// output (column 2) and the merged column (4) consistently
				flip(2, r)?;
				let mut d = seg.get_dyn_mut(col_id(&cs, id, 4)).map_err(es)?;
				let x = d.get(r);
				d.set(r, x + B128::from(1u128 << 8)).map_err(es)?;
			}
		}
	}
	let ccs = cs.compile().map_err(es)?;
	let sizes = w.table_sizes();
	let idx = w.into_multilinear_extension_index();
	Ok(validate_witness(&ccs, &bd, &sizes, &idx).map_err(|e| format!("{e:?}")))
}
fn lookup_id(l: &IncrLookup) -> usize {
	<IncrLookup as binius_m3::builder::TableFiller<P>>::id(l)
}
fn col_id(cs: &ConstraintSystem<B128>, table_id: usize, i: usize) -> binius_m3::builder::ColumnId {
	cs.tables[table_id].columns[i].id
}
fn indexed(ck: &Ck) {
	ck.case("indexed lookups: every entry", || "incr".into(), |r| {
		let c = incr_circuit();
		for i in 0..512usize {
			let want = B128::from(spec_incr(i as u8, i >> 8 == 1) as u128);
			let mut e = [B128::ZERO];
			IncrIndexedLookup.index_to_entry(i, &mut e);
			r.eq(&e[0], &want, || format!("entry {i}"))?;
			r.eq(&IncrIndexedLookup.entry_to_index(&e), &i, || format!("index of entry {i}"))?;
			let q: Vec<B128> = (0..9).map(|k| B128::from((i >> k & 1) as u128)).collect();
			r.eq(&c.evaluate(&q).map_err(es)?, &want, || format!("circuit at {i}"))?;
		}
		r.eq(&IncrIndexedLookup.log_size(), &9, || "log size".into())
	});
	ck.case("indexed lookups: every entry", || "and".into(), |r| {
		let c = bitand_circuit();
		for i in 0..65536usize {
			let (a, b) = (i & 255, i >> 8);
			let want = B128::from((a | b << 8 | (a & b) << 16) as u128);
			let mut e = [B128::ZERO];
			BitAndIndexedLookup.index_to_entry(i, &mut e);
			r.eq(&e[0], &want, || format!("entry {i}"))?;
			r.eq(&BitAndIndexedLookup.entry_to_index(&e), &i, || format!("index of entry {i}"))?;
			let q: Vec<B128> = (0..16).map(|k| B128::from((i >> k & 1) as u128)).collect();
			r.eq(&c.evaluate(&q).map_err(es)?, &want, || format!("circuit at {i}"))?;
		}
		Ok(())
	});
	let all: Vec<(u8, bool)> = (0..512).map(|i| (i as u8, i >> 8 == 1)).collect();
	let mut items: Vec<(String, Vec<(u8, bool)>, Vec<(u8, bool, u64)>, u32, usize, Fault, bool)> = vec![];
	for perm in 0..3 {
		items.push((format!("all events, order {perm}"), all.clone(), vec![], 0, perm, Fault::default(), true));
		for n in [0usize, 1, 2, 3, 5, 6, 7, 8, 127, 128, 129] {
			let ev: Vec<(u8, bool)> = (0..n).map(|i| ((i * 37 + 250) as u8, i % 3 == 0)).collect();
			for b in [vec![], vec![(255u8, true, 1u64)], vec![(255, true, 1), (255, false, 1), (255, true, 1)], vec![(7, false, 3)], vec![(7, false, 0), (8, true, 513)]] {
				for m in [0u32, 1, 2, 5] {
					if m > 0 && (n == 0 || n > 8) {
						continue;
					}
					items.push((format!("{n} events, boundaries {b:?}, extra x{m}, order {perm}"), ev.clone(), b.clone(), m, perm, Fault::default(), true));
				}
			}
		}
	}
	let ev: Vec<(u8, bool)> = vec![(255, true), (255, true), (0, false), (127, true), (254, true)];
	for k in (0..512).step_by(ck.pick(29, 3)).chain([511]) {
		for f in [Fault { count: Some(k), ..Default::default() }, Fault { entry: Some(k), ..Default::default() }, Fault { ordered: Some(k), ..Default::default() }] {
			items.push((format!("fault {f:?}"), ev.clone(), vec![], 0, k % 3, f, false));
		}
	}
	for k in 0..5 {
		let f = Fault { out: Some(k), ..Default::default() };
		items.push((format!("fault {f:?}"), ev.clone(), vec![], 0, 0, f, false));
	}
	ck.par(&items, |(n, ev, b, m, p, f, want)| {
		ck.case("increment lookup: tally, fill, validate", || n.clone(), |r| {
			let got = incr_case(ev, b, *m, *p, f)?;
			r.obs(&got.is_ok());
			r.ok(got.is_ok() == *want, || format!("validator says {got:?}"))
		});
	});
	and_gadget::<1>(ck);
	and_gadget::<2>(ck);
	and_gadget::<4>(ck);
}
fn and_gadget<const V: usize>(ck: &Ck) {
	let items: Vec<(usize, Option<usize>)> = [1usize, 2, 3, 5].iter().flat_map(|&n| [(n, None), (n, Some(0)), (n, Some(n * V - 1))]).collect();
	ck.par(&items, |&(n, fault)| {
		ck.case("bitwise-and lookup: fill, tally, validate", || format!("V={V}, {n} rows, fault {fault:?}"), |r| {
			let mut cs = ConstraintSystem::<B128>::new();
			let (ch, pc) = (cs.add_channel("l"), cs.add_channel("p"));
			let (lid, a, b, g) = {
				let mut t = cs.add_table("looker");
				let a = t.add_committed::<B8, V>("a");
				let b = t.add_committed::<B8, V>("b");
				let g = BitAnd::<V>::new(&mut t, ch, a, b);
				(t.id(), a, b, g)
			};
			let table = {
				let mut t = cs.add_table("and");
				BitAndLookup::new(&mut t, ch, pc, 6)
			};
			let mut alloc = CpuComputeAllocator::<P>::new(1 << 17);
			let bump = alloc.into_bump_allocator();
			let mut w = WitnessIndex::<P>::new(&cs, &bump);
			let ev: Vec<usize> = (0..n).collect();
			let val = |i: usize| ((i * 91 + 0xa5) as u8, (i * 57 + 0x3c) as u8);
			w.fill_table_sequential(
				&ClosureFiller::new(lid, |ev: &[usize], seg: &mut Seg| {
					{
						let mut x = seg.get_mut_as::<u8, B8, V>(a)?;
						let mut y = seg.get_mut_as::<u8, B8, V>(b)?;
						for i in 0..ev.len() * V {
							(x[i], y[i]) = val(i);
						}
					}
					g.populate(seg)
				}),
				&ev,
			)
			.map_err(es)?;
			let counts = tally(&cs, &mut w, &[], ch, &BitAndIndexedLookup).map_err(es)?;
			let mut want = vec![0u32; 65536];
			for i in 0..n * V {
				let (x, y) = val(i);
				want[x as usize | (y as usize) << 8] += 1;
			}
			r.ok(counts == want, || "the tally differs from the lookups made".into())?;
			let mut rows: Vec<(usize, u32)> = counts.into_iter().enumerate().collect();
			rows.sort_by_key(|x| std::cmp::Reverse(x.1));
			w.fill_table_sequential(&table, &rows).map_err(es)?;
			{
				let t = w.get_table(lid).unwrap();
				let seg = t.full_segment();
				{
					let o = seg.get_scalars(g.output).map_err(es)?;
					for i in 0..n * V {
						let (x, y) = val(i);
						r.eq(&o[i], &B8::new(x & y), || format!("{x} & {y}"))?;
					}
				}
				if let Some(k) = fault {
					let mut d = seg.get_dyn_mut(col_id(&cs, lid, 2)).map_err(es)?;
					let x = d.get(k);
					d.set(k, x + B128::ONE).map_err(es)?;
					let mut d = seg.get_dyn_mut(col_id(&cs, lid, 3)).map_err(es)?;
					let x = d.get(k);
					d.set(k, x + B128::from(1u128 << 16)).map_err(es)?;
				}
			}
			let ccs = cs.compile().map_err(es)?;
			let sizes = w.table_sizes();
			let idx = w.into_multilinear_extension_index();
			let got = validate_witness(&ccs, &[], &sizes, &idx).map_err(|e| format!("{e:?}"));
			r.ok(got.is_ok() == fault.is_none(), || format!("validator says {got:?}"))
		});
	});
}
fn merkle(ck: &Ck) {
	// every set of opened leaves of one tree of 4, subsets of 8, two trees of different depth
	let mut items: Vec<(String, Vec<usize>, Vec<(usize, usize)>)> = vec![];
	for s in 1..16usize {
		items.push((format!("4 leaves, opened {s:04b}"), vec![4], (0..4).filter(|i| s >> i & 1 == 1).map(|i| (0, i)).collect()));
	}
	for s in [1usize, 0x80, 0x81, 0x18, 0x55, 0xff, 0x7f, 0xf0] {
		items.push((format!("8 leaves, opened {s:08b}"), vec![8], (0..8).filter(|i| s >> i & 1 == 1).map(|i| (0, i)).collect()));
	}
	for s in 1..16usize {
		items.push((format!("2 and 2 leaves, opened {s:04b}"), vec![2, 2], (0..4).filter(|i| s >> i & 1 == 1).map(|i| (i / 2, i % 2)).collect()));
	}
	items.push(("4 and 8 leaves".into(), vec![4, 8], vec![(0, 1), (1, 6), (1, 7), (0, 3)]));
	ck.par(&items, |(name, sizes, opened)| {
		ck.case("merkle tree tables: trace, fill, validate, faults", || name.clone(), |r| {
			let trees: Vec<(Vec<[u8; 32]>, MerkleTree)> = sizes
				.iter()
				.enumerate()
				.map(|(t, &n)| {
					let l: Vec<[u8; 32]> = (0..n).map(|i| std::array::from_fn(|k| (t * 101 + i * 31 + k * 7 + i * k) as u8)).collect();
					let m = MerkleTree::new(&l);
					(l, m)
				})
				.collect();
			let paths: Vec<MerklePath> = opened
				.iter()
				.map(|&(t, i)| MerklePath { root_id: t as u8, index: i, leaf: trees[t].0[i], nodes: trees[t].1.merkle_path(i) })
				.collect();
			let roots: Vec<[u8; 32]> = trees.iter().map(|t| t.1.root()).collect();
			for fault in 0..6 {
				let mut ps = paths.clone();
				if fault == 4 {
					ps[0].leaf[5] ^= 1;
				}
				let mut trace = MerkleTreeTrace::generate(roots.clone(), &ps);
				if fault == 5 {
					trace.nodes[0].parent[3] ^= 0x10;
				}
				let emu = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| trace.validate())).is_ok();
				let mut cs = ConstraintSystem::<B128>::new();
				let m = MerkleTreeCS::new(&mut cs);
				let mut alloc = CpuComputeAllocator::<P>::new(1 << 15);
				let bump = alloc.into_bump_allocator();
				let mut w = WitnessIndex::<P>::new(&cs, &bump);
				m.fill_tables(&trace, &cs, &mut w).map_err(es)?;
				let mut bd = m.make_boundaries(&trace);
				let at = |k: usize| B128::from(k as u128);
				match fault {
					1 => bd[0].values[1] += B128::ONE,
					2 => {
						let n = bd[0].values.len();
						bd[0].values[n - 1] += at(1)
					}
					3 => {
						bd.pop();
					}
					_ => {}
				}
				let ccs = cs.compile().map_err(es)?;
				let sizes = w.table_sizes();
				let idx = w.into_multilinear_extension_index();
				let got = validate_witness(&ccs, &bd, &sizes, &idx).map_err(|e| format!("{e:?}"));
				r.obs(&got.is_ok());
				r.eq(&got.is_ok(), &(fault == 0), || format!("fault {fault}: validator says {got:?}"))?;
				r.eq(&emu, &(fault < 4), || format!("fault {fault}: the trace emulator's verdict"))?;
			}
			Ok(())
		});
	});
}
fn run(ck: &Ck) {
	ck.bound("emulator: every history of up to 6 (thorough 8) pushes/pulls over 3 values");
	ck.bound("lookups: tables of 1-5 entries (with duplicates), all multiplicity vectors, all lookup multisets up to size 3 (thorough 5) incl. absent values, selectors, pull multiplicities, boundary multiplicities, multiplicity widths 1..32, tables up to 257 rows");
	ck.bound("indexed lookups: all 512 / 65536 entries; tally against boundaries and multiplicities; single faults in counts, entries, outputs; Merkle tables: all opened sets of 4 leaves and of two 2-leaf trees, 5 faults each");
	ck.assume("channel balance verdicts come from the real witness validator, whose agreement with the reference semantics is C25");
	emulator(ck);
	producer(ck);
	indexed(ck);
	merkle(ck);
}
