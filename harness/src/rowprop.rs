//! Exhaustive search over the satisfying assignments of one (large) row of a compiled table: starting from
//! the input cells, every constraint whose unknown cells can be enumerated (or solved over GF(2)) is
//! explored completely; the search branches where several local assignments remain and backtracks on
//! conflicts. A leaf is a full assignment satisfying all constraints.
use std::collections::{BTreeMap, HashMap};

use binius_field::{BinaryField128b as B128, Field};
use binius_math::ArithCircuitStep as Step;

use crate::rowmodel::{Check, Model};

/// cells a single enumeration may cover
const BITS: usize = 10;
const WIDE: usize = 130;

pub enum Verdict {
	/// every satisfying assignment has the wanted outputs
	Unique,
	/// a satisfying assignment with other outputs (index of the differing output cell, its value)
	Wrong(usize, u128),
	/// no satisfying assignment
	None,
	/// the search gave up
	Open(String),
}
#[derive(Clone)]
struct St {
	known: Vec<bool>,
	val: Vec<B128>,
	done: Vec<bool>,
}
pub struct Prop<'a> {
	m: &'a Model,
	/// table membership constraints (oracle, index)
	preds: Vec<(usize, usize)>,
	pred: fn(u128) -> bool,
	lin: Vec<bool>,
	own: Vec<usize>,
	pub steps: u64,
	pub branches: u64,
}
enum Out {
	Conflict,
	Stuck(Vec<usize>, Vec<Vec<B128>>),
	Rest,
}
impl<'a> Prop<'a> {
	pub fn new(m: &'a Model, preds: Vec<usize>, pred: fn(u128) -> bool) -> Self {
		let n = m.names.len();
		let mut lin = vec![false; n];
		for o in 0..n {
			lin[o] = m.linear_memo(o, &lin);
		}
		let mut own = vec![0; m.cells];
		for o in 0..n {
			for i in 0..m.len[o] {
				own[m.off[o] + i] = o;
			}
		}
		let preds = preds.into_iter().flat_map(|o| (0..m.len[o]).map(move |i| (o, i))).collect();
		Self { m, preds, pred, lin, own, steps: 0, branches: 0 }
	}
	/// the unknown free cells below (o, i); memoizes cells that are fully known. False when more than WIDE.
	fn unknown(&self, s: &mut St, o: usize, i: usize, out: &mut Vec<usize>) -> bool {
		let c = self.m.off[o] + i;
		if s.known[c] {
			return true;
		}
		if self.m.free(o) {
			if !out.contains(&c) {
				out.push(c);
			}
			return out.len() <= WIDE;
		}
		let mut all = true;
		let r = self.m.reads(o, i);
		for &(a, b) in &r {
			if !self.unknown(s, a, b, out) {
				return false;
			}
			all &= s.known[self.m.off[a] + b];
		}
		if all {
			s.val[c] = self.m.one(o, i, &r, &|a, b| s.val[self.m.off[a] + b]);
			s.known[c] = true;
		}
		true
	}
	fn ev(&self, s: &St, o: usize, i: usize) -> B128 {
		let c = self.m.off[o] + i;
		if s.known[c] || self.m.free(o) {
			return s.val[c];
		}
		let r = self.m.reads(o, i);
		self.m.one(o, i, &r, &|a, b| self.ev(s, a, b))
	}
	fn unk_of(&self, s: &mut St, k: usize) -> Option<Vec<usize>> {
		let mut u = vec![];
		let ok = if k < self.m.checks.len() {
			match &self.m.checks[k] {
				Check::Zero { ids, set, idx, .. } => ids.iter().all(|&v| self.unknown(s, self.m.cs.table_constraints[*set].oracle_ids[v].index(), *idx, &mut u)),
				Check::NonZero { id, idx } => self.unknown(s, *id, *idx, &mut u),
			}
		} else {
			let (o, i) = self.preds[k - self.m.checks.len()];
			self.unknown(s, o, i, &mut u)
		};
		u.sort();
		ok.then_some(u)
	}
	fn value(&self, s: &St, k: usize) -> B128 {
		let Check::Zero { ids, set, con, idx } = &self.m.checks[k] else { unreachable!() };
		let t = &self.m.cs.table_constraints[*set];
		let _ = ids;
		let mut r: Vec<B128> = vec![];
		for st in t.constraints[*con].composition.steps() {
			r.push(match st {
				Step::Const(c) => *c,
				Step::Var(v) => self.ev(s, t.oracle_ids[*v].index(), *idx),
				Step::Add(a, b) => r[*a] + r[*b],
				Step::Mul(a, b) => r[*a] * r[*b],
				Step::Pow(a, e) => r[*a].pow([*e]),
			});
		}
		r.last().copied().unwrap_or(B128::ZERO)
	}
	fn holds(&self, s: &St, k: usize) -> bool {
		if k < self.m.checks.len() {
			match &self.m.checks[k] {
				Check::Zero { .. } => self.value(s, k) == B128::ZERO,
				Check::NonZero { id, idx } => self.ev(s, *id, *idx) != B128::ZERO,
			}
		} else {
			let (o, i) = self.preds[k - self.m.checks.len()];
			(self.pred)(u128::from(self.ev(s, o, i)))
		}
	}
	fn affine(&self, s: &mut St, k: usize) -> bool {
		if k >= self.m.checks.len() {
			return false;
		}
		let Check::Zero { ids, set, con, idx } = &self.m.checks[k] else { return false };
		let t = &self.m.cs.table_constraints[*set];
		let mut unk = std::collections::BTreeSet::new();
		for &v in ids {
			let o = t.oracle_ids[v].index();
			if !s.known[self.m.off[o] + *idx] {
				if !self.lin[o] {
					return false;
				}
				unk.insert(v);
			}
		}
		let mut deg: Vec<u64> = vec![];
		for st in t.constraints[*con].composition.steps() {
			deg.push(match st {
				Step::Const(_) => 0,
				Step::Var(k) => unk.contains(k) as u64,
				Step::Add(a, b) => deg[*a].max(deg[*b]),
				Step::Mul(a, b) => deg[*a].saturating_add(deg[*b]),
				Step::Pow(a, e) => if deg[*a] <= 1 && e.is_power_of_two() { deg[*a] } else { deg[*a].saturating_mul(*e) },
			});
		}
		deg.last().copied().unwrap_or(0) <= 1
	}
	fn width(&self, c: usize) -> usize {
		1 << self.m.cs.oracles[binius_core::oracle::OracleId::from_index(self.own[c])].tower_level
	}
	fn set(&self, s: &mut St, c: usize, v: B128) {
		s.val[c] = v;
		s.known[c] = true;
	}
	/// all assignments of `u` satisfying the given checks
	fn enumerate(&mut self, s: &mut St, u: &[usize], ks: &[usize]) -> Vec<Vec<B128>> {
		let w: Vec<usize> = u.iter().map(|&c| self.width(c)).collect();
		let total: usize = w.iter().sum();
		let old: Vec<B128> = u.iter().map(|&c| s.val[c]).collect();
		let mut res = vec![];
		for x in 0..1u64 << total {
			let mut p = 0;
			for (&c, &b) in u.iter().zip(&w) {
				s.val[c] = B128::from((x >> p & ((1 << b) - 1)) as u128);
				p += b;
			}
			self.steps += 1;
			if ks.iter().all(|&k| self.holds(s, k)) {
				res.push(u.iter().map(|&c| s.val[c]).collect());
			}
		}
		for (&c, v) in u.iter().zip(old) {
			s.val[c] = v;
		}
		res
	}
	/// Solves an affine check with full rank: Ok(None) when the rank is deficient, Err on inconsistency.
	fn solve(&mut self, s: &mut St, u: &[usize], k: usize) -> Result<Option<Vec<B128>>, ()> {
		let old: Vec<B128> = u.iter().map(|&c| s.val[c]).collect();
		for &c in u {
			s.val[c] = B128::ZERO;
		}
		let rhs = u128::from(self.value(s, k));
		let mut vars = vec![];
		for (j, &c) in u.iter().enumerate() {
			for b in 0..self.width(c) {
				s.val[c] = B128::from(1u128 << b);
				vars.push((j, b, u128::from(self.value(s, k)) ^ rhs));
				self.steps += 1;
			}
			s.val[c] = B128::ZERO;
		}
		for (&c, v) in u.iter().zip(old) {
			s.val[c] = v;
		}
		if vars.len() > 128 {
			return Ok(None);
		}
		// basis of the columns with the combination of variables that yields each
		let mut basis: Vec<(u128, u128)> = vec![];
		let red = |basis: &Vec<(u128, u128)>, mut x: u128, mut m: u128| {
			for &(b, bm) in basis {
				if x & (1 << (127 - b.leading_zeros())) != 0 {
					x ^= b;
					m ^= bm;
				}
			}
			(x, m)
		};
		let mut deficient = false;
		for (t, v) in vars.iter().enumerate() {
			let (x, m) = red(&basis, v.2, 1 << t);
			if x == 0 {
				deficient = true;
			} else {
				basis.push((x, m));
				basis.sort_by_key(|e| std::cmp::Reverse(e.0));
			}
		}
		let (x, m) = red(&basis, rhs, 0);
		if x != 0 {
			return Err(());
		}
		if deficient {
			return Ok(None);
		}
		let mut r = vec![0u128; u.len()];
		for (t, v) in vars.iter().enumerate() {
			r[v.0] |= (m >> t & 1) << v.1;
		}
		Ok(Some(r.into_iter().map(B128::from).collect()))
	}
	fn propagate(&mut self, s: &mut St) -> Out {
		let n = self.m.checks.len() + self.preds.len();
		loop {
			let mut progress = false;
			let mut groups: BTreeMap<Vec<usize>, Vec<usize>> = BTreeMap::new();
			for k in 0..n {
				if s.done[k] {
					continue;
				}
				let Some(u) = self.unk_of(s, k) else { continue };
				if u.is_empty() {
					self.steps += 1;
					if !self.holds(s, k) {
						return Out::Conflict;
					}
					s.done[k] = true;
					progress = true;
					continue;
				}
				let bits: usize = u.iter().map(|&c| self.width(c)).sum();
				if bits <= 2 {
					let sols = self.enumerate(s, &u, &[k]);
					if sols.is_empty() {
						return Out::Conflict;
					}
					if self.fix(s, &u, &sols) {
						progress = true;
						continue;
					}
				}
				if bits <= BITS {
					groups.entry(u).or_default().push(k);
				} else if self.affine(s, k) {
					match self.solve(s, &u, k) {
						Err(()) => return Out::Conflict,
						Ok(None) => {}
						Ok(Some(v)) => {
							for (&c, v) in u.iter().zip(v) {
								self.set(s, c, v);
							}
							progress = true;
						}
					}
				}
			}
			if progress && groups.len() > 4000 {
				continue;
			}
			let mut best: Option<(Vec<usize>, Vec<Vec<B128>>)> = None;
			for (u, ks) in groups {
				if u.iter().any(|&c| s.known[c]) {
					continue;
				}
				let sols = self.enumerate(s, &u, &ks);
				if sols.is_empty() {
					return Out::Conflict;
				}
				if self.fix(s, &u, &sols) {
					progress = true;
				} else if best.as_ref().is_none_or(|b| b.1.len() > sols.len()) {
					best = Some((u, sols));
				}
			}
			if !progress {
				return match best {
					Some((u, v)) => Out::Stuck(u, v),
					None => Out::Rest,
				};
			}
		}
	}
	fn fix(&self, s: &mut St, u: &[usize], sols: &[Vec<B128>]) -> bool {
		let mut any = false;
		for (j, &c) in u.iter().enumerate() {
			if sols.iter().all(|x| x[j] == sols[0][j]) {
				self.set(s, c, sols[0][j]);
				any = true;
			}
		}
		any
	}
	/// values of the given oracles in a row and a violated constraint, if any; each virtual cell is computed once
	pub fn values(&self, st: &[B128], outs: &[usize]) -> (Vec<u128>, Option<String>) {
		let mut s = St { known: vec![false; self.m.cells], val: st.to_vec(), done: vec![] };
		for o in 0..self.m.names.len() {
			if self.m.free(o) {
				for i in 0..self.m.len[o] {
					s.known[self.m.off[o] + i] = true;
				}
			}
		}
		let mut r = vec![];
		for &o in outs {
			for i in 0..self.m.len[o] {
				self.unknown(&mut s, o, i, &mut vec![]);
				r.push(u128::from(s.val[self.m.off[o] + i]));
			}
		}
		let mut bad = None;
		for k in 0..self.m.checks.len() + self.preds.len() {
			self.unk_of(&mut s, k);
			if !self.holds(&s, k) {
				bad = Some(self.name(k));
				break;
			}
		}
		(r, bad)
	}
	/// Searches for a satisfying assignment with outputs other than `want`, the cells `fixed` being given.
	pub fn search(&mut self, fixed: &HashMap<usize, B128>, outs: &[usize], want: &[u128], honest: &[B128], cap: u64) -> Verdict {
		let mut s = St { known: vec![false; self.m.cells], val: vec![B128::ZERO; self.m.cells], done: vec![false; self.m.checks.len() + self.preds.len()] };
		for (&c, &v) in fixed {
			self.set(&mut s, c, v);
		}
		self.branches = 0;
		self.go(s, outs, want, honest, cap)
	}
	fn go(&mut self, mut s: St, outs: &[usize], want: &[u128], honest: &[B128], cap: u64) -> Verdict {
		let stuck = match self.propagate(&mut s) {
			Out::Conflict => return Verdict::None,
			Out::Stuck(u, v) => Some((u, v)),
			Out::Rest => None,
		};
		let cells: Vec<(usize, usize)> = outs.iter().flat_map(|&o| (0..self.m.len[o]).map(move |i| (o, i))).collect();
		let mut wrong = None;
		let mut open = None;
		for (j, &(o, i)) in cells.iter().enumerate() {
			let mut u = vec![];
			self.unknown(&mut s, o, i, &mut u);
			if u.is_empty() {
				let v = u128::from(self.ev(&s, o, i));
				if v != want[j] && wrong.is_none() {
					wrong = Some((j, v));
				}
			} else if open.is_none() {
				open = Some((j, u));
			}
		}
		let left: Vec<usize> = (0..s.done.len()).filter(|&k| !s.done[k]).collect();
		if left.is_empty() {
			// nothing constrains the cells that are still unknown
			return match (wrong, open) {
				(Some((j, v)), _) => Verdict::Wrong(j, v),
				(None, None) => Verdict::Unique,
				(None, Some((j, u))) => {
					let (o, i) = cells[j];
					for &c in &u {
						s.val[c] = honest[c];
					}
					for c in u {
						s.val[c] = honest[c] + B128::ONE;
						let v = u128::from(self.ev(&s, o, i));
						if v != want[j] {
							return Verdict::Wrong(j, v);
						}
						s.val[c] = honest[c];
					}
					Verdict::Open(format!("output cell {j} has free cells without influence"))
				}
			};
		}
		if wrong.is_none() && open.is_none() {
			return Verdict::Unique;
		}
		let Some((u, sols)) = stuck else {
			return Verdict::Open(format!("{} constraints are too wide, e.g. {}", left.len(), self.name(left[0])));
		};
		// assignments that leave the honest one first
		let mut order: Vec<&Vec<B128>> = sols.iter().collect();
		order.sort_by_key(|v| u.iter().zip(v.iter()).all(|(&c, x)| honest[c] == *x));
		let (mut any, mut op) = (false, None);
		for v in order {
			self.branches += 1;
			if self.branches > cap {
				return Verdict::Open("branch limit".into());
			}
			let mut t = s.clone();
			for (&c, &x) in u.iter().zip(v) {
				self.set(&mut t, c, x);
			}
			match self.go(t, outs, want, honest, cap) {
				Verdict::Wrong(j, v) => return Verdict::Wrong(j, v),
				Verdict::Unique => any = true,
				Verdict::None => {}
				Verdict::Open(x) => op = Some(x),
			}
		}
		match (any, op) {
			(_, Some(x)) => Verdict::Open(x),
			(true, None) => Verdict::Unique,
			(false, None) => Verdict::None,
		}
	}
	fn name(&self, k: usize) -> String {
		match self.m.checks.get(k) {
			Some(Check::Zero { set, con, idx, .. }) => format!("{}[{idx}]", self.m.cs.table_constraints[*set].constraints[*con].name),
			Some(Check::NonZero { id, .. }) => self.m.names[*id].clone(),
			None => "lookup".into(),
		}
	}
}
