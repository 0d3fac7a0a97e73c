//! A row of a compiled M3 table as an explicit constraint model: the committed cells of one row are the
//! state, every virtual column is evaluated from its definition, and the satisfying assignments are
//! enumerated exhaustively by a depth-first search that prunes on violated constraints.
use std::collections::BTreeSet;

use binius_core::{
	constraint_system::{ConstraintSystem, channel::OracleOrConst},
	oracle::{OracleId, ProjectionVariant, ShiftVariant, SymbolicMultilinearPolyVariant as V},
	witness::MultilinearExtensionIndex,
};
use binius_math::ArithCircuitStep as Step;
use binius_field::{BinaryField128b as B128, ExtensionField, Field, PackedExtension, PackedField, BinaryField1b as B1, BinaryField8b as B8};

pub struct Exps {
	pub bits: Vec<usize>,
	base: Base,
}
enum Base {
	C(B128),
	O(usize),
}
pub(crate) enum Check {
	Zero { ids: Vec<usize>, set: usize, con: usize, idx: usize },
	NonZero { id: usize, idx: usize },
}
pub struct Model {
	pub(crate) cs: ConstraintSystem<B128>,
	pub(crate) len: Vec<usize>,
	pub(crate) off: Vec<usize>,
	/// exponentiation defining this oracle
	exp: Vec<Option<usize>>,
	pub exps: Vec<Exps>,
	pub(crate) checks: Vec<Check>,
	pub names: Vec<String>,
	pub cells: usize,
	trans: Vec<Option<std::sync::Arc<Vec<B128>>>>,
}
pub type State = Vec<B128>;

impl Model {
	pub fn new(cs: ConstraintSystem<B128>) -> Result<Self, String> {
		let (mut len, mut off, mut names, mut n) = (vec![], vec![], vec![], 0);
		for p in cs.oracles.polys() {
			let l = match &p.variant {
				V::Transparent(t) => 1 << t.poly().n_vars(),
				_ => 1usize << p.log_values_per_row,
			};
			len.push(l);
			off.push(n);
			n += l;
			names.push(p.name.clone().unwrap_or_default());
		}
		let mut exp = vec![None; len.len()];
		let mut exps = vec![];
		for e in &cs.exponents {
			exp[e.exp_result_id.index()] = Some(exps.len());
			exps.push(Exps {
				bits: e.bits_ids.iter().map(|i| i.index()).collect(),
				base: match &e.base {
					OracleOrConst::Const { base, .. } => Base::C(*base),
					OracleOrConst::Oracle(o) => Base::O(o.index()),
				},
			});
		}
		let mut checks = vec![];
		for (set, s) in cs.table_constraints.iter().enumerate() {
			for (con, c) in s.constraints.iter().enumerate() {
				let use_ = c.composition.vars_usage();
				let ids: Vec<usize> = (0..use_.len()).filter(|&i| use_[i]).collect();
				for idx in 0..1 << s.log_values_per_row {
					checks.push(Check::Zero { ids: ids.clone(), set, con, idx });
				}
			}
		}
		for o in &cs.non_zero_oracle_ids {
			for idx in 0..len[o.index()] {
				checks.push(Check::NonZero { id: o.index(), idx });
			}
		}
		let trans = vec![None; len.len()];
		Ok(Self { cs, len, off, exp, exps, checks, names, cells: n, trans })
	}
	/// Evaluates the transparent columns once; the tables are shared by models of the same system.
	pub fn load_transparent(&mut self, cache: &std::sync::Mutex<Vec<Option<std::sync::Arc<Vec<B128>>>>>) {
		let mut c = cache.lock().unwrap();
		if c.is_empty() {
			for o in 0..self.len.len() {
				let t = matches!(self.cs.oracles[self.oid(o)].variant, V::Transparent(_))
					.then(|| std::sync::Arc::new((0..self.len[o]).map(|i| self.one(o, i, &[], &|_, _| B128::ZERO)).collect()));
				c.push(t);
			}
		}
		self.trans = c.clone();
	}
	pub fn find(&self, prefix: &str) -> Vec<usize> {
		let mut v: Vec<usize> = (0..self.names.len()).filter(|&i| self.names[i].contains(prefix)).collect();
		v.sort();
		v
	}
	fn oid(&self, i: usize) -> OracleId {
		OracleId::from_index(i)
	}
	pub(crate) fn free(&self, o: usize) -> bool {
		matches!(self.cs.oracles[self.oid(o)].variant, V::Committed) && self.exp[o].is_none()
	}
	/// the inner cells a virtual cell reads
	pub(crate) fn reads(&self, o: usize, i: usize) -> Vec<(usize, usize)> {
		if let Some(e) = self.exp[o] {
			let mut v: Vec<_> = self.exps[e].bits.iter().map(|&b| (b, i)).collect();
			if let Base::O(b) = self.exps[e].base {
				v.push((b, i));
			}
			return v;
		}
		match &self.cs.oracles[self.oid(o)].variant {
			V::Committed | V::Transparent(_) => vec![],
			V::Structured(_) => vec![],
			V::Repeating { id } => vec![(id.index(), i % self.len[id.index()])],
			V::Projected { id, values, variant } => {
				let inner = id.index();
				let q: usize = values.iter().enumerate().map(|(k, v)| if *v == B128::ONE { 1 << k } else { 0 }).sum();
				let start = match variant {
					ProjectionVariant::Offset(s) => *s,
					ProjectionVariant::Last => self.len[inner].ilog2() as usize - values.len(),
				};
				let low = i & ((1 << start) - 1);
				vec![(inner, low | q << start | (i >> start) << (start + values.len()))]
			}
			V::Shifted { id, shift_offset, block_size, shift_variant } => {
				let b = 1usize << block_size;
				let (base, p) = (i & !(b - 1), i & (b - 1));
				let s = *shift_offset;
				let src = match shift_variant {
					ShiftVariant::CircularLeft => Some((p + b - s % b) % b),
					ShiftVariant::LogicalLeft => p.checked_sub(s),
					ShiftVariant::LogicalRight => (p + s < b).then_some(p + s),
				};
				src.map(|x| (id.index(), base | x)).into_iter().collect()
			}
			V::Packed { id, log_degree } => (0..1 << log_degree).map(|k| (id.index(), i << log_degree | k)).collect(),
			V::LinearCombination { inner, .. } => inner.iter().filter(|x| x.1 != B128::ZERO).map(|x| (x.0.index(), i)).collect(),
			V::ZeroPadded { id, n_pad_vars, nonzero_index, start_index } => {
				let pad = i >> start_index & ((1 << n_pad_vars) - 1);
				if pad == *nonzero_index {
					let low = i & ((1 << start_index) - 1);
					vec![(id.index(), low | (i >> (start_index + n_pad_vars)) << start_index)]
				} else {
					vec![]
				}
			}
			V::Composite { inner, .. } => inner.iter().map(|x| (x.index(), i)).collect(),
		}
	}
	pub fn eval(&self, st: &State, o: usize, i: usize) -> B128 {
		if self.free(o) {
			return st[self.off[o] + i];
		}
		self.one(o, i, &self.reads(o, i), &|a, b| self.eval(st, a, b))
	}
	/// the virtual cell (o, i) from the cells it reads
	pub(crate) fn one(&self, o: usize, i: usize, r: &[(usize, usize)], get: &dyn Fn(usize, usize) -> B128) -> B128 {
		if let Some(e) = self.exp[o] {
			let e = &self.exps[e];
			let mut b = match e.base {
				Base::C(b) => b,
				Base::O(b) => get(b, i),
			};
			let mut acc = B128::ONE;
			for &x in &e.bits {
				if get(x, i) == B128::ONE {
					acc *= b;
				}
				b = b.square();
			}
			return acc;
		}
		let v = |k: usize| get(r[k].0, r[k].1);
		match &self.cs.oracles[self.oid(o)].variant {
			V::Transparent(t) => {
				if let Some(t) = &self.trans[o] {
					return t[i];
				}
				let n = self.len[o].ilog2() as usize;
				let q: Vec<B128> = (0..n).map(|k| if i >> k & 1 == 1 { B128::ONE } else { B128::ZERO }).collect();
				t.poly().evaluate(&q).expect("transparent")
			}
			V::Packed { .. } => {
				let l = self.cs.oracles[self.oid(r[0].0)].tower_level;
				let mut acc = B128::ZERO;
				for k in 0..r.len() {
					// basis element k of the packing has bit k * 2^l set
					acc += v(k) * B128::new(1u128 << (k << l));
				}
				acc
			}
			V::LinearCombination { offset, inner } => {
				let mut acc = *offset;
				let mut k = 0;
				for x in inner {
					if x.1 != B128::ZERO {
						acc += v(k) * x.1;
						k += 1;
					}
				}
				acc
			}
			V::Composite { circuit, .. } => {
				let q: Vec<B128> = (0..r.len()).map(v).collect();
				circuit.evaluate(&q).expect("circuit")
			}
			V::Structured(_) | V::Committed => unreachable!(),
			_ => {
				if r.is_empty() {
					B128::ZERO
				} else {
					v(0)
				}
			}
		}
	}
	pub fn deps(&self, o: usize, i: usize, out: &mut BTreeSet<usize>) {
		if self.free(o) {
			out.insert(self.off[o] + i);
			return;
		}
		for (a, b) in self.reads(o, i) {
			self.deps(a, b, out);
		}
	}
	pub fn deps_of(&self, obs: &[usize]) -> BTreeSet<usize> {
		let mut s = BTreeSet::new();
		for &o in obs {
			for i in 0..self.len[o] {
				self.deps(o, i, &mut s);
			}
		}
		s
	}
	pub fn values(&self, st: &State, obs: &[usize]) -> Vec<u128> {
		obs.iter().flat_map(|&o| (0..self.len[o]).map(move |i| u128::from(self.eval(st, o, i)))).collect()
	}
	fn check_deps(&self, c: &Check) -> BTreeSet<usize> {
		let mut s = BTreeSet::new();
		match c {
			Check::Zero { ids, set, idx, .. } => {
				for &k in ids {
					self.deps(self.cs.table_constraints[*set].oracle_ids[k].index(), *idx, &mut s);
				}
			}
			Check::NonZero { id, idx } => self.deps(*id, *idx, &mut s),
		}
		s
	}
	fn holds(&self, st: &State, c: &Check) -> bool {
		match c {
			Check::Zero { ids, set, con, idx } => {
				let s = &self.cs.table_constraints[*set];
				let mut q = vec![B128::ZERO; s.oracle_ids.len()];
				for &k in ids {
					q[k] = self.eval(st, s.oracle_ids[k].index(), *idx);
				}
				s.constraints[*con].composition.evaluate(&q).expect("constraint") == B128::ZERO
			}
			Check::NonZero { id, idx } => self.eval(st, *id, *idx) != B128::ZERO,
		}
	}
	pub fn violated(&self, st: &State) -> Option<String> {
		self.checks.iter().find(|c| !self.holds(st, c)).map(|c| match c {
			Check::Zero { set, con, idx, .. } => format!("constraint {}[{idx}]", self.cs.table_constraints[*set].constraints[*con].name),
			Check::NonZero { id, .. } => format!("nonzero {}", self.names[*id]),
		})
	}
	/// Committed cells of row `row` of a filled witness. Oracles past `limit` are not in the witness.
	pub fn base<P>(&self, w: &MultilinearExtensionIndex<P>, row: usize, limit: usize) -> Result<State, String>
	where
		P: PackedField<Scalar = B128> + PackedExtension<B1> + PackedExtension<B8>,
	{
		let mut st = vec![B128::ZERO; self.cells];
		for o in 0..limit {
			if self.free(o) {
				let m = w.get_multilin_poly(self.oid(o)).map_err(|e| format!("{}: {e}", self.names[o]))?;
				for i in 0..self.len[o] {
					st[self.off[o] + i] = m.evaluate_on_hypercube(row * self.len[o] + i).map_err(|e| e.to_string())?;
				}
			}
		}
		Ok(st)
	}
	fn level(&self, cell: usize) -> usize {
		let o = self.off.partition_point(|&x| x <= cell) - 1;
		self.cs.oracles[self.oid(o)].tower_level
	}
	/// every cell read is GF(2)-linear in the committed cells
	fn linear(&self, o: usize) -> bool {
		if self.free(o) {
			return true;
		}
		if self.exp[o].is_some() {
			return false;
		}
		!matches!(self.cs.oracles[self.oid(o)].variant, V::Composite { .. }) && (0..self.len[o]).all(|i| self.reads(o, i).iter().all(|x| x.0 == o || self.linear(x.0)))
	}
	pub(crate) fn linear_memo(&self, o: usize, lin: &[bool]) -> bool {
		self.free(o)
			|| self.exp[o].is_none()
				&& !matches!(self.cs.oracles[self.oid(o)].variant, V::Composite { .. })
				&& (0..self.len[o]).all(|i| self.reads(o, i).iter().all(|x| lin[x.0]))
	}
	/// the constraint is affine over GF(2) in the given cells
	fn affine(&self, c: &Check, unknown: &BTreeSet<usize>) -> bool {
		let Check::Zero { ids, set, con, idx } = c else { return false };
		let s = &self.cs.table_constraints[*set];
		let mut unk = vec![false; s.oracle_ids.len()];
		for &k in ids {
			let o = s.oracle_ids[k].index();
			let mut d = BTreeSet::new();
			self.deps(o, *idx, &mut d);
			if d.iter().any(|x| unknown.contains(x)) {
				if !self.linear(o) {
					return false;
				}
				unk[k] = true;
			}
		}
		let mut deg: Vec<u64> = vec![];
		for st in s.constraints[*con].composition.steps() {
			deg.push(match st {
				Step::Const(_) => 0,
				Step::Var(k) => unk[*k] as u64,
				Step::Add(a, b) => deg[*a].max(deg[*b]),
				Step::Mul(a, b) => deg[*a].saturating_add(deg[*b]),
				Step::Pow(a, e) => if deg[*a] <= 1 && e.is_power_of_two() { deg[*a] } else { deg[*a].saturating_mul(*e) },
			});
		}
		deg.last().copied().unwrap_or(0) <= 1
	}
	fn value(&self, st: &State, c: &Check) -> B128 {
		let Check::Zero { ids, set, con, idx } = c else { unreachable!() };
		let s = &self.cs.table_constraints[*set];
		let mut q = vec![B128::ZERO; s.oracle_ids.len()];
		for &k in ids {
			q[k] = self.eval(st, s.oracle_ids[k].index(), *idx);
		}
		s.constraints[*con].composition.evaluate(&q).expect("constraint")
	}
	pub fn plan(&self, fixed: &BTreeSet<usize>, outs: &[usize]) -> Plan {
		let deps: Vec<BTreeSet<usize>> = self.checks.iter().map(|c| self.check_deps(c).difference(fixed).copied().collect()).collect();
		let mut done = vec![false; deps.len()];
		let mut left: Vec<usize> = deps.iter().map(|d| d.len()).collect();
		let mut users: std::collections::HashMap<usize, Vec<usize>> = Default::default();
		for (c, d) in deps.iter().enumerate() {
			for &v in d {
				users.entry(v).or_default().push(c);
			}
		}
		let mut blocks: Vec<Block> = vec![];
		let mut at: Vec<Vec<usize>> = vec![vec![]];
		let mut seen: BTreeSet<usize> = fixed.clone();
		let mut heap: BTreeSet<(usize, usize)> = BTreeSet::new();
		for c in 0..deps.len() {
			if left[c] == 0 {
				done[c] = true;
				at[0].push(c);
			} else {
				heap.insert((left[c], c));
			}
		}
		while let Some((_, c)) = heap.pop_first() {
			if done[c] {
				continue;
			}
			let mut new: BTreeSet<usize> = deps[c].iter().filter(|v| !seen.contains(v)).copied().collect();
			let solve = if new.len() > 3 && new.iter().all(|&v| self.level(v) == 0) && self.affine(&self.checks[c], &new) { Some(c) } else { None };
			let sets: Vec<Vec<usize>> = if solve.is_some() { vec![new.iter().copied().collect()] } else { new.iter().map(|&v| vec![v]).collect() };
			new.clear();
			for vs in sets {
				at.push(vec![]);
				for &v in &vs {
					seen.insert(v);
					for &u in &users[&v] {
						if !done[u] {
							heap.remove(&(left[u], u));
						}
						left[u] -= 1;
						if left[u] == 0 {
							done[u] = true;
							if solve != Some(u) {
								at.last_mut().unwrap().push(u);
							}
						} else {
							heap.insert((left[u], u));
						}
					}
				}
				blocks.push(Block { vars: vs, solve });
			}
		}
		for v in self.deps_of(outs) {
			if seen.insert(v) {
				at.push(vec![]);
				blocks.push(Block { vars: vec![v], solve: None });
			}
		}
		Plan { wide: blocks.iter().filter(|b| b.vars.iter().any(|&v| self.level(v) > 3)).count(), blocks, at }
	}
	/// all values of the block's cells that satisfy its constraint; values other than the current first
	fn options(&self, b: &Block, st: &mut State) -> Vec<Vec<B128>> {
		let Some(c) = b.solve else {
			let v = b.vars[0];
			let (cur, dom) = (u128::from(st[v]), 1u128 << (1 << self.level(v).min(3)));
			return (1..=dom).map(|d| vec![B128::from(cur ^ (d % dom))]).collect();
		};
		let c = &self.checks[c];
		let n = b.vars.len();
		let old: Vec<B128> = b.vars.iter().map(|&v| st[v]).collect();
		for &v in &b.vars {
			st[v] = B128::ZERO;
		}
		let f0 = u128::from(self.value(st, c));
		// rows: (image, combination of unknowns as bits)
		let mut rows: Vec<(u128, Vec<u64>)> = vec![];
		let mut null: Vec<Vec<u64>> = vec![];
		let w = n.div_ceil(64);
		let xor = |a: &mut Vec<u64>, b: &[u64]| a.iter_mut().zip(b).for_each(|(x, y)| *x ^= y);
		for (i, &v) in b.vars.iter().enumerate() {
			st[v] = B128::ONE;
			let mut img = u128::from(self.value(st, c)) ^ f0;
			st[v] = B128::ZERO;
			let mut comb = vec![0u64; w];
			comb[i / 64] |= 1 << (i % 64);
			for (r, k) in &rows {
				if img ^ r < img {
					img ^= r;
					xor(&mut comb, k);
				}
			}
			if img == 0 {
				null.push(comb);
			} else {
				rows.push((img, comb));
				rows.sort_by(|a, b| b.0.cmp(&a.0));
			}
		}
		for (k, &v) in b.vars.iter().enumerate() {
			st[v] = old[k];
		}
		let mut t = f0;
		let mut part = vec![0u64; w];
		for (r, k) in &rows {
			if t ^ r < t {
				t ^= r;
				xor(&mut part, k);
			}
		}
		if t != 0 {
			return vec![];
		}
		let mut out = vec![];
		for m in 0..1u32 << null.len().min(10) {
			let mut p = part.clone();
			for (k, z) in null.iter().enumerate().take(10) {
				if m >> k & 1 == 1 {
					xor(&mut p, z);
				}
			}
			out.push((0..n).map(|i| B128::from((p[i / 64] >> (i % 64) & 1) as u128)).collect());
		}
		out
	}
	/// Enumerates every assignment of the planned cells that satisfies all constraints. `visit` returns
	/// false to stop. Returns (states explored, complete).
	pub fn search(&self, plan: &Plan, st: &mut State, cap: u64, visit: &mut dyn FnMut(&State) -> bool) -> (u64, bool) {
		let n = plan.blocks.len();
		let ok = |st: &State, l: usize| plan.at[l].iter().all(|&c| self.holds(st, &self.checks[c]));
		let mut nodes = 1u64;
		if !ok(st, 0) {
			return (nodes, true);
		}
		let mut stack: Vec<(Vec<Vec<B128>>, usize)> = vec![];
		if n == 0 {
			return (nodes, visit(st));
		}
		stack.push((self.options(&plan.blocks[0], st), 0));
		while let Some((opts, k)) = stack.last_mut() {
			if *k == opts.len() {
				stack.pop();
				continue;
			}
			let val = std::mem::take(&mut opts[*k]);
			*k += 1;
			let l = stack.len();
			for (x, &v) in val.into_iter().zip(&plan.blocks[l - 1].vars) {
				st[v] = x;
			}
			nodes += 1;
			if nodes > cap {
				return (nodes, false);
			}
			if ok(st, l) {
				if l == n {
					if !visit(st) {
						return (nodes, false);
					}
				} else {
					stack.push((self.options(&plan.blocks[l], st), 0));
				}
			}
		}
		(nodes, true)
	}
}
pub struct Block {
	pub vars: Vec<usize>,
	solve: Option<usize>,
}
pub struct Plan {
	pub blocks: Vec<Block>,
	pub wide: usize,
	at: Vec<Vec<usize>>,
}
pub fn bit(x: u128, i: usize) -> B128 {
	B128::from(x >> i & 1)
}
#[allow(dead_code)]
fn _p() -> usize {
	<B128 as ExtensionField<B1>>::DEGREE
}
