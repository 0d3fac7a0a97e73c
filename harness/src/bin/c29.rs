//! C29: hash gadgets. Outputs are compared with straight-line implementations of the hash functions, filled
//! tables go through the real validator, and the satisfying assignments of whole rows are searched for a
//! wrong digest.
use std::{cmp::Reverse, collections::HashMap};

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::constraint_system::validate::validate_witness;
use binius_field::{ExtensionField, TowerField, arch::OptimalUnderlier, as_packed_field::PackedType};
use binius_m3::{
	builder::{B8, B128, Col, ConstraintSystem, TableBuilder, TableWitnessSegment, WitnessIndex, tally, test_utils::ClosureFiller},
	gadgets::{
		hash::{
			groestl::{Permutation, PermutationVariant},
			keccak::{StateMatrix, lookedup::KeccakfLookedup, stacked::Keccakf},
			sha256::Sha256,
		},
		indexed_lookup::and::{BitAndIndexedLookup, BitAndLookup},
	},
};
use vharness::{
	Ck, R, Run, check, hashref,
	rowmodel::Model,
	rowprop::{Prop, Verdict},
};

type P = PackedType<OptimalUnderlier, B128>;
type Seg<'a> = TableWitnessSegment<'a, P>;

fn main() {
	check("C29", run)
}
fn es(e: impl std::fmt::Display) -> String {
	e.to_string()
}
fn ob<F: TowerField, const V: usize>(tb: &mut TableBuilder, name: String, c: Col<F, V>)
where
	B128: ExtensionField<F>,
{
	let e: binius_m3::builder::Expr<F, V> = c.into();
	tb.add_computed::<F, V>(name, e);
}
fn sha_ref(m: &[u32; 16]) -> [u32; 8] {
	// constants from their definition: fractional parts of square and cube roots of the first primes
	let primes: Vec<u128> = (2..400u128).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
	let root = |p: u128, k: u32| -> u32 {
		// floor(p^(1/k) * 2^32) mod 2^32
		let t = p << (32 * k);
		let (mut lo, mut hi) = (0u128, 1u128 << 37);
		while hi - lo > 1 {
			let mid = (lo + hi) / 2;
			if mid.pow(k) <= t { lo = mid } else { hi = mid }
		}
		lo as u32
	};
	let k: Vec<u32> = primes.iter().map(|&p| root(p, 3)).collect();
	let h: Vec<u32> = primes[..8].iter().map(|&p| root(p, 2)).collect();
	let mut w = m.to_vec();
	for t in 16..64 {
		let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ w[t - 15] >> 3;
		let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ w[t - 2] >> 10;
		w.push(w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1));
	}
	let mut s = h.clone();
	for t in 0..64 {
		let b1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
		let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
		let t1 = s[7].wrapping_add(b1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
		let b0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
		let mj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
		s = vec![t1.wrapping_add(b0).wrapping_add(mj), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
	}
	std::array::from_fn(|i| s[i].wrapping_add(h[i]))
}
/// Keccak-f[1600] from its definition: lanes a[x + 5y], rotation offsets and round constants generated.
fn keccak_ref(st: &[u64; 25]) -> [u64; 25] {
	let mut a = *st;
	let mut rho = [0u32; 25];
	let (mut x, mut y) = (1, 0);
	for t in 0..24u32 {
		rho[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
		(x, y) = (y, (2 * x + 3 * y) % 5);
	}
	let mut lfsr = 1u8;
	for _ in 0..24 {
		let mut rc = 0u64;
		for j in 0..7 {
			if lfsr & 1 == 1 {
				rc |= 1 << ((1u32 << j) - 1);
			}
			lfsr = lfsr << 1 ^ if lfsr >> 7 == 1 { 0x71 } else { 0 };
		}
		let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |s, y| s ^ a[x + 5 * y])).collect();
		for x in 0..5 {
			for y in 0..5 {
				a[x + 5 * y] ^= c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
			}
		}
		let mut b = [0u64; 25];
		for x in 0..5 {
			for y in 0..5 {
				b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(rho[x + 5 * y]);
			}
		}
		for x in 0..5 {
			for y in 0..5 {
				a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
			}
		}
		a[0] ^= rc;
	}
	a
}
trait Gadget: Sync {
	type T: Sync;
	type I: Clone + Sync + Send + std::fmt::Debug;
	const LOOKUP: bool = false;
	fn name(&self) -> String;
	fn build(&self, tb: &mut TableBuilder, chan: usize) -> Self::T;
	/// observers named vin* / vout*
	fn obs(&self, t: &Self::T, tb: &mut TableBuilder);
	fn fill(&self, t: &Self::T, seg: &mut Seg, ev: &[Self::I]) -> anyhow::Result<()>;
	/// output cells of a row
	fn want(&self, i: &Self::I) -> Vec<u128>;
}
struct Groestl(bool);
impl Gadget for Groestl {
	type T = Permutation;
	type I = [u8; 64];
	fn name(&self) -> String {
		format!("groestl {}", if self.0 { "Q" } else { "P" })
	}
	fn build(&self, tb: &mut TableBuilder, _: usize) -> Permutation {
		let input = tb.add_committed_multiple::<B8, 8, 8>("state_in");
		Permutation::new(tb, if self.0 { PermutationVariant::Q } else { PermutationVariant::P }, input)
	}
	fn obs(&self, t: &Permutation, tb: &mut TableBuilder) {
		for i in 0..8 {
			ob(tb, format!("vin{i}"), t.state_in()[i]);
			ob(tb, format!("vout{i}"), t.state_out()[i]);
		}
	}
	fn fill(&self, t: &Permutation, seg: &mut Seg, ev: &[[u8; 64]]) -> anyhow::Result<()> {
		let st: Vec<[B8; 64]> = ev.iter().map(|e| e.map(|b| B8::new(hashref::from_aes8()[b as usize]))).collect();
		t.populate_state_in(seg, &st)?;
		t.populate(seg)
	}
	fn want(&self, e: &[u8; 64]) -> Vec<u128> {
		let o = hashref::groestl_perm(e, self.0);
		(0..8).flat_map(|i| (0..8).map(move |j| hashref::from_aes8()[o[j * 8 + i] as usize] as u128)).collect()
	}
}
struct Sha;
impl Gadget for Sha {
	type T = Sha256;
	type I = [u32; 16];
	fn name(&self) -> String {
		"sha256".into()
	}
	fn build(&self, tb: &mut TableBuilder, _: usize) -> Sha256 {
		Sha256::new(tb)
	}
	fn obs(&self, t: &Sha256, tb: &mut TableBuilder) {
		for i in 0..16 {
			ob(tb, format!("vin{i}"), t.state_in[i]);
		}
		for i in 0..8 {
			ob(tb, format!("vout{i}"), t.state_out[i]);
		}
	}
	fn fill(&self, t: &Sha256, seg: &mut Seg, ev: &[[u32; 16]]) -> anyhow::Result<()> {
		t.populate(seg, ev.iter())
	}
	fn want(&self, e: &[u32; 16]) -> Vec<u128> {
		sha_ref(e).iter().flat_map(|w| (0..32).map(move |b| (w >> b & 1) as u128)).collect()
	}
}
struct Kst;
impl Gadget for Kst {
	type T = Keccakf;
	type I = [u64; 25];
	fn name(&self) -> String {
		"keccak stacked".into()
	}
	fn build(&self, tb: &mut TableBuilder, _: usize) -> Keccakf {
		Keccakf::new(tb)
	}
	fn obs(&self, t: &Keccakf, tb: &mut TableBuilder) {
		for y in 0..5 {
			for x in 0..5 {
				ob(tb, format!("vin{x}{y}"), t.input[(x, y)]);
				ob(tb, format!("vout{x}{y}"), t.output[(x, y)]);
			}
		}
	}
	fn fill(&self, t: &Keccakf, seg: &mut Seg, ev: &[[u64; 25]]) -> anyhow::Result<()> {
		let s: Vec<StateMatrix<u64>> = ev.iter().map(|e| StateMatrix::from_values(*e)).collect();
		t.populate_state_in(seg, &s)?;
		t.populate(seg)?;
		for (o, e) in t.read_state_outs(seg)?.zip(ev) {
			anyhow::ensure!(*o.as_inner() == keccak_ref(e), "read_state_outs differs from Keccak-f");
		}
		Ok(())
	}
	fn want(&self, e: &[u64; 25]) -> Vec<u128> {
		keccak_ref(e).iter().map(|&w| w as u128).collect()
	}
}
struct Klu;
impl Gadget for Klu {
	type T = KeccakfLookedup;
	type I = [u64; 25];
	const LOOKUP: bool = true;
	fn name(&self) -> String {
		"keccak looked up".into()
	}
	fn build(&self, tb: &mut TableBuilder, chan: usize) -> KeccakfLookedup {
		KeccakfLookedup::new(tb, chan)
	}
	fn obs(&self, t: &KeccakfLookedup, tb: &mut TableBuilder) {
		for y in 0..5 {
			for x in 0..5 {
				ob(tb, format!("vin{x}{y}"), t.input[(x, y)]);
				ob(tb, format!("vout{x}{y}"), t.output[(x, y)]);
			}
		}
	}
	fn fill(&self, t: &KeccakfLookedup, seg: &mut Seg, ev: &[[u64; 25]]) -> anyhow::Result<()> {
		let s: Vec<StateMatrix<u64>> = ev.iter().map(|e| StateMatrix::from_values(*e)).collect();
		t.populate_state_in(seg, &s)?;
		t.populate(seg)?;
		for (o, e) in t.read_state_outs(seg)?.zip(ev) {
			anyhow::ensure!(*o.as_inner() == keccak_ref(e), "read_state_outs differs from Keccak-f");
		}
		Ok(())
	}
	fn want(&self, e: &[u64; 25]) -> Vec<u128> {
		keccak_ref(e).iter().map(|&w| w as u128).collect()
	}
}
type Cache = std::sync::Mutex<Vec<Option<std::sync::Arc<Vec<B128>>>>>;
fn and_entry(x: u128) -> bool {
	let (a, b, c) = (x & 0xff, x >> 8 & 0xff, x >> 16);
	c == a & b
}
/// Fills a table with `rows`, compares every output, validates; then searches the rows listed in `deep`.
fn block<G: Gadget>(r: &mut Run, g: &G, rows: &[G::I], deep: &[usize], validate: bool, cache: &Cache) -> R {
	let mut cs = ConstraintSystem::<B128>::new();
	let (ch, pc) = (cs.add_channel("l"), cs.add_channel("p"));
	let (t, id) = {
		let mut tb = cs.add_table("t");
		let id = tb.id();
		(g.build(&mut tb, ch), id)
	};
	let lut = (G::LOOKUP && validate).then(|| {
		let mut tb = cs.add_table("and");
		BitAndLookup::new(&mut tb, ch, pc, 20)
	});
	let mut alloc = CpuComputeAllocator::<P>::new(1 << 19);
	let bump = alloc.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &bump);
	w.fill_table_sequential(&ClosureFiller::new(id, |ev: &[G::I], seg: &mut Seg| g.fill(&t, seg, ev)), rows).map_err(|e| format!("fill: {e}"))?;
	if let Some(l) = &lut {
		let counts = tally(&cs, &mut w, &[], ch, &BitAndIndexedLookup).map_err(es)?;
		let mut c: Vec<(usize, u32)> = counts.into_iter().enumerate().collect();
		c.sort_by_key(|x| Reverse(x.1));
		w.fill_table_sequential(l, &c).map_err(es)?;
	}
	w.fill_constant_cols().map_err(es)?;
	let ccs = cs.compile().map_err(es)?;
	let sizes = w.table_sizes();
	let index = w.into_multilinear_extension_index();
	let t0 = std::time::Instant::now();
	if validate {
		validate_witness(&ccs, &[], &sizes, &index).map_err(|e| format!("the filled table does not validate: {e:?}"))?;
	}
	let dbg = std::env::var("DBG").is_ok();
	if dbg { eprintln!("validate {} rows {:?}", rows.len(), t0.elapsed()); }
	// the row model: the same table with observers (columns of the gadget keep their place)
	let mut cs2 = ConstraintSystem::<B128>::new();
	let (ch2, _) = (cs2.add_channel("l"), cs2.add_channel("p"));
	let n_plain = {
		let mut one = ConstraintSystem::<B128>::new();
		let c = one.add_channel("l");
		let mut tb = one.add_table("t");
		g.build(&mut tb, c);
		one.compile().map_err(es)?.oracles.size()
	};
	{
		let mut tb = cs2.add_table("t");
		let t = g.build(&mut tb, ch2);
		g.obs(&t, &mut tb);
	}
	let ccs2 = cs2.compile().map_err(es)?;
	let preds: Vec<usize> = ccs2
		.flushes
		.iter()
		.map(|f| match (&f.oracles[..], f.selectors.is_empty()) {
			([binius_core::constraint_system::channel::OracleOrConst::Oracle(o)], true) => Ok(o.index()),
			_ => Err("unexpected flush".to_string()),
		})
		.collect::<Result<_, _>>()?;
	let mut m = Model::new(ccs2)?;
	m.load_transparent(cache);
	if dbg { eprintln!("model {:?}", t0.elapsed()); }
	let (ins, outs) = (m.find("vin"), m.find("vout"));
	for (k, row) in rows.iter().enumerate() {
		let want = g.want(row);
		let base = m.base(&index, k, n_plain)?;
		let (got, bad) = Prop::new(&m, preds.clone(), and_entry).values(&base, &outs);
		r.eq(&got, &want, || format!("output for {row:x?}"))?;
		r.eq(&bad, &None, || format!("violated constraint in the filled row {row:x?}"))?;
		r.step(1);
		if deep.contains(&k) {
			let fixed: HashMap<usize, B128> = m.deps_of(&ins).into_iter().map(|c| (c, base[c])).collect();
			let mut p = Prop::new(&m, preds.clone(), and_entry);
			let v = p.search(&fixed, &outs, &want, &base, 4000);
			r.step(p.steps);
			if dbg { eprintln!("search {:?} steps {}", t0.elapsed(), p.steps); }
			match v {
				Verdict::Unique => r.obs_dbg(&("unique", p.steps)),
				Verdict::Open(x) if dbg => { eprintln!("OPEN {x} {}", p.branches); }
				Verdict::Open(x) => r.obs_dbg(&("open", x, p.branches)),
				Verdict::None => return Err(format!("no assignment satisfies the constraints for {row:x?}")),
				Verdict::Wrong(j, v) => return Err(format!("the constraints admit output cell {j} = {v:x} instead of {:x} for input {row:x?}", want[j])),
			}
		}
	}
	Ok(())
}
fn gadget<G: Gadget>(ck: &Ck, g: G, rows: Vec<G::I>, chunk: usize, deep: usize, sizes: &[usize]) {
	if std::env::var("ONLY").is_ok_and(|x| !g.name().contains(&x)) {
		return;
	}
	let mut v: Vec<(String, Vec<G::I>, Vec<usize>)> = vec![];
	for d in 0..deep {
		v.push((format!("search row {d}"), vec![rows[d % rows.len()].clone()], vec![0]));
	}
	for (i, c) in rows.chunks(chunk).enumerate() {
		v.push((format!("block {i}"), c.to_vec(), vec![]));
	}
	for &n in sizes {
		v.push((format!("{n} rows"), rows.iter().rev().take(n).cloned().collect(), vec![]));
	}
	let cache = Cache::default();
	ck.par(&v, |(n, rows, deep)| {
		ck.case("hash gadget: outputs, validation, search for wrong digests", || format!("{}: {n}", g.name()), |r| block(r, &g, rows, deep, n.ends_with("rows"), &cache));
	});
}
fn run(ck: &Ck) {
	let th = ck.pick(0usize, 1);
	let mut g8: Vec<[u8; 64]> = (0..4).map(|k| std::array::from_fn(|i| (k * 64 + i) as u8)).collect();
	g8.push([0; 64]);
	g8.push([0xff; 64]);
	g8.extend((0..512usize).map(|b| {
		let mut s = [0u8; 64];
		s[b / 8] = 1 << (b % 8);
		s
	}));
	gadget(ck, Groestl(false), g8.clone(), 64, 4 + 2 * th, &[1, 2, 3, 5]);
	gadget(ck, Groestl(true), g8, 64, 4 + 2 * th, &[1, 2, 3, 5]);
	let mut s: Vec<[u32; 16]> = vec![[0; 16], [u32::MAX; 16], std::array::from_fn(|i| 0x9e3779b9u32.wrapping_mul(i as u32 + 1))];
	s.push(std::array::from_fn(|i| if i == 0 { 0x61626380 } else if i == 15 { 24 } else { 0 }));
	s.extend((0..512usize).map(|b| {
		let mut x = [0u32; 16];
		x[b / 32] = 1 << (b % 32);
		x
	}));
	gadget(ck, Sha, s, 32, 4 + 8 * th, &[1, 3]);
	let mut k: Vec<[u64; 25]> = vec![[0; 25], [u64::MAX; 25], std::array::from_fn(|i| 0x9e3779b97f4a7c15u64.wrapping_mul(i as u64 + 1))];
	k.extend((0..1600usize).step_by(if th == 1 { 1 } else { 13 }).map(|b| {
		let mut x = [0u64; 25];
		x[b / 64] = 1 << (b % 64);
		x
	}));
	gadget(ck, Kst, k.clone(), 8, 3 + 3 * th, &[1, 3]);
	gadget(ck, Klu, k, 8, 3 + 3 * th, &[1, 3]);
	ck.bound("Groestl P/Q: 4 states holding all 256 byte values, all-zero, all-one and all 512 single-bit states; SHA-256: 4 structured blocks and all 512 single-bit blocks; Keccak-f (stacked and looked-up): structured states and single-bit states (every 13th bit in the quick tier); tables of 1, 2, 3, 5 and many rows".to_string());
	ck.bound("search for wrong digests: the complete space of private cells of a whole row, per structured input".to_string());
	ck.assume("the AND lookup table is taken as the set of triples (a, b, a & b), decided by C30");
}
