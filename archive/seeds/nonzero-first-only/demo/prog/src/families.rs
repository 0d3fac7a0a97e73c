//! Families of constraint systems and instances, enumerated for the end-to-end checks.

use crate::{mix128, refs::*};

#[derive(Clone, Debug)]
pub struct Fam {
	pub spec: Spec,
	/// satisfying instances
	pub good: Vec<Inst>,
	/// instances that break exactly one thing (the reference decides whether they hold)
	pub bad: Vec<Inst>,
}
pub fn mask(level: usize) -> u128 {
	if level == 7 { u128::MAX } else { (1u128 << (1u32 << level)) - 1 }
}
/// Deterministic generic column.
pub fn gen_col(seed: u64, level: usize, n: usize) -> Vec<u128> {
	(0..1u64 << n)
		.map(|i| mix128(seed.wrapping_mul(1 << 20).wrapping_add(i)) & mask(level))
		.collect()
}
/// All single-position modifications (xor with `d`) of the committed columns of an instance.
pub fn flips(spec: &Spec, i: &Inst, d: u128) -> Vec<Inst> {
	let free = spec.free();
	let mut out = vec![];
	if i.com.iter().map(|c| c.len()).sum::<usize>() > 600 {
		return out;
	}
	for (p, &col) in free.iter().enumerate() {
		let lv = spec.cols[col].level;
		for r in 0..i.com[p].len() {
			let mut j = i.clone();
			j.com[p][r] ^= if lv == 0 { 1 } else { d & mask(lv) };
			if j.com[p] != i.com[p] {
				out.push(j);
			}
		}
	}
	out
}

/// One virtual column kind under test, over inner committed columns.
#[derive(Clone, Debug)]
pub struct Virt {
	pub name: String,
	/// (log values per row, level) of the inner committed columns
	pub inner: Vec<(usize, usize)>,
	/// log values per row and level of the virtual column
	pub lv: usize,
	pub level: usize,
	/// kind; inner columns are numbered from 0
	pub k: K,
}
pub fn virts() -> Vec<Virt> {
	let mut o = vec![];
	let mut add = |name: String, inner: Vec<(usize, usize)>, lv, level, k| {
		o.push(Virt {
			name,
			inner,
			lv,
			level,
			k,
		})
	};
	for (vn, var) in [("rot", Sh::Rot), ("shl", Sh::Left), ("shr", Sh::Right)] {
		for (lv, bits, off) in [(2, 1, 1), (2, 2, 1), (2, 2, 2), (2, 2, 3), (5, 5, 7), (3, 2, 3)] {
			for level in [0, 5] {
				if level == 5 && lv == 5 {
					continue;
				}
				add(format!("{vn}{off}of{bits}lv{lv}t{level}"), vec![(lv, level)], lv, level, K::Shift(0, off, bits, var));
			}
		}
	}
	for (l, d) in [(0, 3), (0, 5), (0, 7), (3, 1), (3, 2), (4, 1), (5, 2), (6, 1)] {
		add(format!("pack{l}+{d}"), vec![(d, l)], 0, l + d, K::Pack(0, d));
		add(format!("pack{l}+{d}lv1"), vec![(d + 1, l)], 1, l + d, K::Pack(0, d));
	}
	for level in [0, 3, 7] {
		for start in 0..3 {
			for len in 1..=3 - start {
				for bits in 0..1usize << len {
					let vals: Vec<u128> = (0..len).map(|j| (bits >> j & 1) as u128).collect();
					add(
						format!("proj{bits}/{len}@{start}t{level}"),
						vec![(3, level)],
						3 - len,
						level,
						K::Proj(0, vals, start),
					);
				}
			}
		}
	}
	for level in [0, 5] {
		for n_pad in 1..3 {
			for nz in 0..1 << n_pad {
				for st in 0..=2 {
					add(
						format!("pad{n_pad}.{nz}@{st}t{level}"),
						vec![(2, level)],
						2 + n_pad,
						level,
						K::Pad(0, n_pad, nz, st),
					);
				}
			}
		}
	}
	add("lin2x32".into(), vec![(1, 5), (1, 5)], 1, 5, K::Lin(0, vec![(0, 1), (1, 0x1234)]));
	add("lin-offset".into(), vec![(1, 3)], 1, 3, K::Lin(0x53, vec![(0, 7)]));
	add("lin-mixed".into(), vec![(2, 0), (2, 5)], 2, 7, K::Lin(1 << 100, vec![(0, 1 << 77), (1, 3)]));
	add("lin-three".into(), vec![(2, 0), (2, 0), (2, 0)], 2, 0, K::Lin(1, vec![(0, 1), (1, 1), (2, 1)]));
	add("lin-zero-coeff".into(), vec![(1, 5), (1, 5)], 1, 5, K::Lin(9, vec![(0, 0), (1, 5)]));
	add("lin-same-twice".into(), vec![(1, 5)], 1, 5, K::Lin(0, vec![(0, 1), (0, 6)]));
	add("comp-mul".into(), vec![(1, 5), (1, 5)], 1, 5, K::Comp(vec![0, 1], v(0) * v(1)));
	add("comp-sq".into(), vec![(2, 3)], 2, 3, K::Comp(vec![0], v(0).pow(2) + v(0) * c(2)));
	add("comp-bits".into(), vec![(3, 0), (3, 0), (3, 0)], 3, 0, K::Comp(vec![0, 1, 2], v(0) * v(1) + v(2)));
	add("comp-cubic".into(), vec![(1, 5), (1, 5)], 1, 5, K::Comp(vec![0, 1], v(0) * v(0) * v(1) + c(1)));
	add("comp-ite".into(), vec![(2, 0), (2, 5), (2, 5)], 2, 5, K::Comp(vec![0, 1, 2], v(0) * v(1) + (v(0) + c(1)) * v(2)));
	o
}

pub fn virt_spec(w: &Virt, sizes: Size) -> Spec {
	let mut s = Spec::new(w.name.clone());
	let t = s.table(sizes);
	for &(lv, level) in &w.inner {
		s.col(t, lv, level, K::Com);
	}
	let vc = s.col(t, w.lv, w.level, w.k.clone());
	let b = s.col(t, w.lv, w.level, K::Com);
	s.zero(t, w.lv, &[vc, b], v(0) + v(1));
	s
}
/// Honest instance of a spec whose last column `b` must equal column `vc`.
pub fn equal_inst(s: &Spec, sizes: &[usize], vc: usize, seed: u64) -> Inst {
	let free = s.free();
	let mut com: Vec<Vec<u128>> = free
		.iter()
		.enumerate()
		.map(|(i, &c)| {
			if sizes[s.cols[c].t] == 0 {
				vec![]
			} else {
				gen_col(seed + i as u64, s.cols[c].level, s.n_vars(c, sizes))
			}
		})
		.collect();
	let cols = s.expand(sizes, &com);
	*com.last_mut().unwrap() = cols[vc].clone();
	Inst {
		sizes: sizes.to_vec(),
		com,
		bds: vec![],
	}
}

/// Column kinds that do not depend on a committed column, made table-sized by repetition where needed.
pub fn sources() -> Vec<(String, Vec<(usize, usize, K)>)> {
	// (name, columns appended: (lv, level, kind) with inner ids relative to the first appended column)
	let mut o: Vec<(String, Vec<(usize, usize, K)>)> = vec![];
	for lv in [0usize, 2] {
		let n = lv;
		for i in 0..=1usize << n {
			if i < 1 << n {
				o.push((format!("selrow{i}n{n}"), vec![(lv, 0, K::SelectRow(n, i)), (lv, 0, K::Rep(0))]));
			}
			if i > 0 {
				o.push((format!("stepdown{i}n{n}"), vec![(lv, 0, K::StepDown(n, i)), (lv, 0, K::Rep(0))]));
			}
			if i < 1 << n {
				o.push((format!("stepup{i}n{n}"), vec![(lv, 0, K::StepUp(n, i)), (lv, 0, K::Rep(0))]));
			}
		}
	}
	o.push(("const32".into(), vec![(1, 5, K::Const(1, 0xdeadbeef)), (1, 5, K::Rep(0))]));
	o.push(("const128".into(), vec![(0, 7, K::Const(0, 5 << 99)), (0, 7, K::Rep(0))]));
	o.push((
		"explicit8".into(),
		vec![(3, 3, K::Explicit(vec![3, 0, 255, 7, 1, 90, 2, 16])), (3, 3, K::Rep(0))],
	));
	for bits in 1..4usize {
		// the index itself: sum of bit_i * 2^i
		let mut x = c(0);
		for b in 0..bits {
			x = x + v(b) * c(1 << b);
		}
		o.push((format!("struct-index{bits}"), vec![(0, 3, K::Struct(x))]));
	}
	o.push(("struct-prod".into(), vec![(1, 3, K::Struct(v(0) * v(1) * c(0x21) + v(0) + c(3)))]));
	o
}

/// Adds `b = column` (a committed copy) to a spec and the constraint tying them.
fn tie(s: &mut Spec, t: usize, col: usize) -> usize {
	let (lv, level) = (s.cols[col].lv, s.cols[col].level);
	let b = s.col(t, lv, level, K::Com);
	s.zero(t, lv, &[col, b], v(0) + v(1));
	b
}

/// Virtual column kinds over generic inner columns.
pub fn virt_fams(sizes: &[usize]) -> Vec<Fam> {
	let mut out = vec![];
	for w in virts() {
		for &n in sizes {
			for spec in [Size::Any, Size::Pow2, Size::Fixed(log2_ceil(n))] {
				if spec != Size::Any && !n.is_power_of_two() {
					continue;
				}
				let mut s = virt_spec(&w, spec);
				s.name = format!("virt/{}/{n}{spec:?}", w.name);
				let vc = w.inner.len();
				let g = equal_inst(&s, &[n], vc, 1);
				let bad = if spec == Size::Any { flips(&s, &g, 1 << 20 | 1) } else { vec![] };
				out.push(Fam {
					spec: s,
					good: vec![g],
					bad,
				});
			}
		}
	}
	for (name, cols) in sources() {
		for &n in sizes {
			let mut s = Spec::new(format!("source/{name}/{n}"));
			let t = s.table(Size::Any);
			for (lv, level, k) in &cols {
				s.col(t, *lv, *level, k.clone());
			}
			if let K::Struct(_) = cols[0].2 {
				// structured columns need at least as many index variables as the expression uses
				let need = match &cols[0].2 {
					K::Struct(x) => max_var(x),
					_ => 0,
				};
				if log2_ceil(n) + cols[0].0 < need {
					continue;
				}
			}
			let vc = cols.len() - 1;
			let b = tie(&mut s, t, vc);
			let _ = b;
			let g = equal_inst(&s, &[n], vc, 3);
			let bad = flips(&s, &g, 3);
			out.push(Fam {
				spec: s,
				good: vec![g],
				bad,
			});
		}
	}
	out
}
fn max_var(x: &X) -> usize {
	match x {
		X::C(_) => 0,
		X::V(i) => i + 1,
		X::Add(a, b) | X::Mul(a, b) => max_var(a).max(max_var(b)),
		X::Pow(a, _) => max_var(a),
	}
}

/// Second-layer kinds applied on top of a column with `lv` log values per row and tower `level`.
fn layers(s: &Spec, col: usize, other: usize) -> Vec<(String, usize, usize, K)> {
	let (lv, level) = (s.cols[col].lv, s.cols[col].level);
	let mut o = vec![];
	for (n, sh) in [("rot", Sh::Rot), ("shl", Sh::Left), ("shr", Sh::Right)] {
		if lv >= 1 {
			o.push((format!("{n}1of{lv}"), lv, level, K::Shift(col, 1, lv, sh)));
		}
		if lv >= 2 {
			o.push((format!("{n}2of{}", lv - 1), lv, level, K::Shift(col, (1 << (lv - 1)) - 1, lv - 1, sh)));
		}
	}
	let d = if level == 0 { 3 } else { 1 };
	if lv >= d && level + d <= 7 {
		o.push((format!("pack{d}"), lv - d, level + d, K::Pack(col, d)));
	}
	if lv >= 1 {
		o.push(("proj1@0".into(), lv - 1, level, K::Proj(col, vec![1], 0)));
		o.push((format!("proj0@{}", lv - 1), lv - 1, level, K::Proj(col, vec![0], lv - 1)));
	}
	if lv >= 2 {
		o.push(("proj10@0".into(), lv - 2, level, K::Proj(col, vec![1, 0], 0)));
	}
	o.push(("pad1.1@0".into(), lv + 1, level, K::Pad(col, 1, 1, 0)));
	o.push((format!("pad2.2@{lv}"), lv + 2, level, K::Pad(col, 2, 2, lv)));
	if s.cols[other].lv == lv {
		let ol = s.cols[other].level;
		o.push(("lin".into(), lv, level.max(ol), K::Lin(1, vec![(col, 1), (other, 1)])));
		o.push(("lin-gen".into(), lv, 7, K::Lin(77 << 90, vec![(col, 5 << 64), (other, 3)])));
		o.push(("comp".into(), lv, level.max(ol), K::Comp(vec![col, other], v(0) * v(1) + v(0))));
	}
	o
}

/// Two and three nested virtual columns; the top one is tied to a committed copy.
pub fn nested_fams(sizes: &[usize], depth: usize) -> Vec<Fam> {
	let mut out = vec![];
	for (lv, level) in [(3usize, 0usize), (2, 5), (1, 7)] {
		let mut base = Spec::new(format!("nest/{lv}t{level}"));
		let t = base.table(Size::Any);
		base.col(t, lv, level, K::Com);
		base.col(t, lv, level, K::Com);
		let mut cur = vec![(base, 0usize)];
		for _ in 0..depth {
			let mut next = vec![];
			for (s, top) in &cur {
				// the second argument of binary layers: any committed column of the same shape
				for (name, lv, level, k) in layers(s, *top, 1) {
					let mut s2 = s.clone();
					s2.name = format!("{}.{name}", s.name);
					let c = s2.col(t, lv, level, k);
					next.push((s2, c));
				}
			}
			cur = next;
		}
		for (s, top) in cur {
			for &n in sizes {
				let mut s = s.clone();
				s.name = format!("{}/{n}", s.name);
				if s.n_vars(top, &[n]) > 7 {
					continue;
				}
				tie(&mut s, t, top);
				let g = equal_inst(&s, &[n], top, 5);
				let bad = flips(&s, &g, 1 << 9 | 1);
				out.push(Fam {
					spec: s,
					good: vec![g],
					bad,
				});
			}
		}
	}
	out
}

/// Constraint shapes: degrees, several constraint sets of different heights, several tables, empty tables.
pub fn constraint_fams(sizes: &[usize]) -> Vec<Fam> {
	let mut out = vec![];
	// y = x^d for every degree
	for d in 1..=9u64 {
		for level in [0, 3, 5, 7] {
			for &n in sizes {
				for lv in [0usize, 2] {
					let mut s = Spec::new(format!("deg{d}t{level}/{n}lv{lv}"));
					let t = s.table(Size::Any);
					let x = s.col(t, lv, level, K::Com);
					let y = s.col(t, lv, level, K::Com);
					s.zero(t, lv, &[x, y], v(0).pow(d) + v(1));
					let xs = gen_col(d, level, s.n_vars(x, &[n]));
					let ys = xs.iter().map(|&a| tpow(a, d as u128, 7)).collect();
					let g = Inst {
						sizes: vec![n],
						com: vec![xs, ys],
						bds: vec![],
					};
					let bad = flips(&s, &g, 2);
					out.push(Fam {
						spec: s,
						good: vec![g],
						bad,
					});
				}
			}
		}
	}
	// mixed heights: table 0 with lv 0 and lv 3 constraint sets, table 1 independent; sizes independent, including empty
	let mut sz = sizes.to_vec();
	sz.push(0);
	for &n0 in &sz {
		for &n1 in &sz {
			for (i, order) in [[0usize, 1, 2], [2, 1, 0], [1, 2, 0]].iter().enumerate() {
				let mut s = Spec::new(format!("mixed{i}/{n0},{n1}"));
				let t0 = s.table(Size::Any);
				let t1 = s.table(Size::Any);
				let a = s.col(t0, 3, 0, K::Com);
				let b = s.col(t0, 3, 0, K::Com);
				let p = s.col(t0, 0, 3, K::Pack(a, 3));
				let q = s.col(t0, 0, 3, K::Com);
				let x = s.col(t1, 1, 5, K::Com);
				let y = s.col(t1, 1, 5, K::Com);
				let sets = [
					Zc {
						t: t0,
						lv: 3,
						cols: vec![a, b],
						exprs: vec![v(0) * v(1) + v(1), v(0) * v(1) + v(1)],
					},
					Zc {
						t: t0,
						lv: 0,
						cols: vec![p, q],
						exprs: vec![v(0) * v(0) + v(1)],
					},
					Zc {
						t: t1,
						lv: 1,
						cols: vec![x, y],
						exprs: vec![v(0) * v(0) * v(0) + c(7) + v(1)],
					},
				];
				for &o in order {
					s.zero.push(sets[o].clone());
				}
				let sizes = vec![n0, n1];
				let gen_ = |col: usize, seed: u64| {
					if sizes[s.cols[col].t] == 0 {
						vec![]
					} else {
						gen_col(seed, s.cols[col].level, s.n_vars(col, &sizes))
					}
				};
				let av = gen_(a, 1);
				let bv: Vec<u128> = av.iter().zip(gen_(b, 2)).map(|(&a, b)| a & b).collect();
				let pv: Vec<u128> = av.chunks(8).map(|c| c.iter().rev().fold(0, |s, b| s << 1 | b)).collect();
				let qv = pv.iter().map(|&p| tmul(p, p, 7)).collect();
				let xv = gen_(x, 3);
				let yv = xv.iter().map(|&x| tpow(x, 3, 7) ^ 7).collect();
				let g = Inst {
					sizes: sizes.clone(),
					com: vec![av, bv, qv, xv, yv],
					bds: vec![],
				};
				let bad = if i == 0 { flips(&s, &g, 1) } else { vec![] };
				out.push(Fam {
					spec: s,
					good: vec![g],
					bad,
				});
			}
		}
	}
	// non-zero columns, alone and several, with and without zero constraints
	for level in [0, 3, 5, 7] {
		for &n in sizes {
			for lv in [0usize, 1, 3] {
				for extra in [false, true] {
					let mut s = Spec::new(format!("nonzero t{level}/{n}lv{lv}{extra}"));
					let t = s.table(Size::Any);
					let x = s.col(t, lv, level, K::Com);
					s.nonzero.push(x);
					let y = s.col(t, lv, level, K::Com);
					if extra {
						s.zero(t, lv, &[x, y], v(0) + v(1));
						s.nonzero.push(y);
					}
					let xs: Vec<u128> = gen_col(9, level, s.n_vars(x, &[n])).iter().map(|v| v | 1).collect();
					let g = Inst {
						sizes: vec![n],
						com: vec![xs.clone(), xs.clone()],
						bds: vec![],
					};
					let mut bad = vec![];
					for r in 0..xs.len() {
						let mut j = g.clone();
						j.com[0][r] = 0;
						if extra {
							j.com[1][r] = 0;
						}
						bad.push(j);
					}
					out.push(Fam {
						spec: s,
						good: vec![g],
						bad,
					});
				}
			}
		}
	}
	out
}

/// Exponentiations: constant and column bases, several widths, the result tied to a committed copy.
pub fn exp_fams(sizes: &[usize]) -> Vec<Fam> {
	let mut out = vec![];
	for bits in 1..=4usize {
		for (bn, level) in [(0usize, 3usize), (1, 7), (0, 7), (1, 5), (2, 7)] {
			for &n in sizes {
				for lv in [0usize, 2] {
					let mut s = Spec::new(format!("exp{bits} base{bn} t{level}/{n}lv{lv}"));
					let t = s.table(Size::Any);
					let bc: Vec<usize> = (0..bits).map(|_| s.col(t, lv, 0, K::Com)).collect();
					let cst = [0x1du128, 5 << 70][(level == 7) as usize];
					let base = match bn {
						0 => Err((cst, level)),
						_ => Ok(s.col(t, lv, level, K::Com)),
					};
					let r = s.col(t, lv, level, K::Com);
					s.exps.push(Ex {
						bits: bc.clone(),
						base,
						result: r,
					});
					if bn == 2 {
						// a second exponentiation by the same exponent
						let r2 = s.col(t, lv, 3, K::Com);
						s.exps.push(Ex {
							bits: bc.clone(),
							base: Err((0x1d, 3)),
							result: r2,
						});
					}
					tie(&mut s, t, r);
					let g = equal_inst(&s, &[n], r, 21 + bits as u64);
					let bad = flips(&s, &g, 4);
					out.push(Fam {
						spec: s,
						good: vec![g],
						bad,
					});
				}
			}
		}
	}
	out
}

fn fl(t: usize, lv: usize, args: Vec<Arg>, ch: usize, push: bool) -> Fl {
	Fl {
		t,
		lv,
		args,
		ch,
		push,
		sel: vec![],
		mult: 1,
	}
}
fn bd(vals: &[u128], ch: usize, push: bool, mult: u64) -> Bd {
	Bd {
		vals: vals.to_vec(),
		ch,
		push,
		mult,
	}
}
/// Pads a list of row values to the table's capacity with a garbage value (padding rows must not be flushed).
fn padded(vals: &[u128], lv: usize, rows: usize, garbage: u128) -> Vec<u128> {
	if rows == 0 {
		return vec![];
	}
	let mut o = vals.to_vec();
	o.resize(1 << (log2_ceil(rows) + lv), garbage);
	o
}

/// Channel families: every small assignment of the flushed rows.
pub fn flush_fams(max_rows: usize) -> Vec<Fam> {
	let mut out = vec![];
	let split = |s: &Spec, insts: Vec<Inst>| {
		let (good, bad) = insts.into_iter().partition(|i| s.holds(i));
		Fam {
			spec: s.clone(),
			good,
			bad,
		}
	};
	// two tables, one pushes and the other pulls; every assignment over {1,2}, every pair of sizes, padding garbage
	for level in [0usize, 3, 7] {
		for lv in [0usize, 1] {
			let mut s = Spec::new(format!("push-pull t{level}lv{lv}"));
			let t0 = s.table(Size::Any);
			let t1 = s.table(Size::Any);
			let a = s.col(t0, lv, level, K::Com);
			let b = s.col(t1, lv, level, K::Com);
			s.flushes.push(fl(t0, lv, vec![Arg::O(a)], 0, true));
			s.flushes.push(fl(t1, lv, vec![Arg::O(b)], 0, false));
			s.channels = 1;
			let mut insts = vec![];
			let (lo, hi) = (0u128, 1u128 << (if level == 0 { 0 } else { (1 << level) - 1 }));
			let rows_max = if lv == 1 { 2.min(max_rows) } else { max_rows };
			for n0 in 0..=rows_max {
				for n1 in 0..=rows_max {
					let (m0, m1) = (n0 << lv, n1 << lv);
					for bits in 0..1usize << (m0 + m1) {
						let val = |i: usize| if bits >> i & 1 == 1 { hi } else { lo };
						let av: Vec<u128> = (0..m0).map(val).collect();
						let bv: Vec<u128> = (m0..m0 + m1).map(val).collect();
						// boundaries make up the difference for some instances
						let mut bds = vec![vec![]];
						if m0 != m1 {
							let d = m0.abs_diff(m1) as u64;
							bds = vec![vec![], vec![bd(&[hi], 0, m0 < m1, d)], vec![bd(&[lo], 0, m0 < m1, d)]];
							if d == 2 {
								bds.push(vec![bd(&[lo], 0, m0 < m1, 1), bd(&[hi], 0, m0 < m1, 1)]);
							}
						}
						for b in bds {
							insts.push(Inst {
								sizes: vec![n0, n1],
								com: vec![padded(&av, lv, n0, hi), padded(&bv, lv, n1, lo)],
								bds: b,
							});
						}
					}
				}
			}
			out.push(split(&s, insts));
		}
	}
	// selectors: one table, a pushes where s, b pulls where r (and t)
	for nsel in [1usize, 2] {
		let mut s = Spec::new(format!("selectors{nsel}"));
		let t = s.table(Size::Any);
		let a = s.col(t, 0, 3, K::Com);
		let b = s.col(t, 0, 3, K::Com);
		let s0 = s.col(t, 0, 0, K::Com);
		let s1 = s.col(t, 0, 0, K::Com);
		let mut f0 = fl(t, 0, vec![Arg::O(a)], 0, true);
		f0.sel = vec![s0];
		let mut f1 = fl(t, 0, vec![Arg::O(b)], 0, false);
		f1.sel = if nsel == 1 { vec![s1] } else { vec![s1, s0] };
		s.flushes.push(f1);
		s.flushes.push(f0);
		s.channels = 1;
		let mut insts = vec![];
		for n in 1..=max_rows {
			let cap = 1usize << log2_ceil(n);
			for sb in 0..1usize << (2 * n) {
				for vb in 0..1usize << n {
					let av: Vec<u128> = (0..n).map(|i| 1 + (vb >> i & 1) as u128).collect();
					// b is a rotated by one
					let bv: Vec<u128> = (0..n).map(|i| av[(i + 1) % n]).collect();
					let mut p0: Vec<u128> = (0..n).map(|i| (sb >> i & 1) as u128).collect();
					let mut p1: Vec<u128> = (0..n).map(|i| (sb >> (n + i) & 1) as u128).collect();
					p0.resize(cap, 1);
					p1.resize(cap, 1);
					insts.push(Inst {
						sizes: vec![n],
						com: vec![padded(&av, 0, n, 9), padded(&bv, 0, n, 8), p0, p1],
						bds: vec![],
					});
				}
			}
		}
		out.push(split(&s, insts));
	}
	// tuples with constants, multiplicities, several channels declared out of order
	for order in [[0usize, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]] {
		for spec in [Size::Any, Size::Pow2] {
			let mut s = Spec::new(format!("tuples{order:?}{spec:?}"));
			let t = s.table(spec);
			let a = s.col(t, 0, 5, K::Com);
			let b = s.col(t, 0, 3, K::Com);
			let mut f = vec![
				fl(t, 0, vec![Arg::O(a), Arg::K(7)], 2, true),
				fl(t, 0, vec![Arg::O(b), Arg::K(7)], 2, false),
				fl(t, 0, vec![Arg::K(3), Arg::O(b), Arg::O(a)], 0, false),
				fl(t, 0, vec![Arg::K(3), Arg::O(a), Arg::O(b)], 0, true),
			];
			f[2].mult = 3;
			f[3].mult = 3;
			for o in order {
				s.flushes.push(f[o].clone());
			}
			s.channels = 4;
			let mut insts = vec![];
			for n in [1usize, 2, 3, 4] {
				if spec == Size::Pow2 && !n.is_power_of_two() || n > max_rows + 1 {
					continue;
				}
				for va in 0..1usize << n {
					for vb in 0..1usize << n {
						let val = |x: usize, i: usize| 5 + (x >> i & 1) as u128;
						insts.push(Inst {
							sizes: vec![n],
							com: vec![
								padded(&(0..n).map(|i| val(va, i)).collect::<Vec<_>>(), 0, n, 200),
								padded(&(0..n).map(|i| val(vb, i)).collect::<Vec<_>>(), 0, n, 100),
							],
							bds: vec![],
						});
					}
				}
			}
			out.push(split(&s, insts));
		}
	}
	// multiplicities against boundaries
	for (mi, mult) in [1u64, 2, 3, 255, 1 << 40, u64::MAX / 4].into_iter().enumerate() {
		let mut s = Spec::new(format!("mult{mi}"));
		let t = s.table(Size::Any);
		let a = s.col(t, 0, 3, K::Com);
		s.flushes.push(fl(t, 0, vec![Arg::O(a)], 1, true));
		s.flushes[0].mult = mult;
		s.channels = 3;
		let mut insts = vec![];
		for n in 1..=max_rows.min(3) {
			for bits in 0..1usize << n {
				let av: Vec<u128> = (0..n).map(|i| 1 + (bits >> i & 1) as u128).collect();
				let twos = bits.count_ones() as u64;
				let ones = n as u64 - twos;
				let com = vec![padded(&av, 0, n, 7)];
				let full = vec![bd(&[1], 1, false, ones * mult), bd(&[2], 1, false, twos * mult)];
				let push = |insts: &mut Vec<Inst>, bds: Vec<Bd>| {
					insts.push(Inst {
						sizes: vec![n],
						com: com.clone(),
						bds,
					})
				};
				push(&mut insts, full.clone());
				let mut x = full.clone();
				x[0].mult += 1;
				push(&mut insts, x);
				let mut x = full.clone();
				x[1].mult = x[1].mult.wrapping_sub(1).min(1 << 62);
				push(&mut insts, x);
				let mut x = full.clone();
				x.push(bd(&[3], 1, true, 1));
				push(&mut insts, x);
				let mut x = full.clone();
				x.push(bd(&[3], 1, true, 2));
				x.push(bd(&[3], 1, false, 2));
				push(&mut insts, x);
				let mut x = full.clone();
				x[0].push = true;
				push(&mut insts, x);
				let mut x = full.clone();
				x[0].ch = 0;
				push(&mut insts, x);
				// a channel without flushes
				let mut x = full.clone();
				x.push(bd(&[4], 2, true, 1));
				push(&mut insts, x);
				let mut x = full.clone();
				x.push(bd(&[4], 0, false, 5));
				push(&mut insts, x.clone());
				x.push(bd(&[4], 0, true, 5));
				push(&mut insts, x);
			}
		}
		out.push(split(&s, insts));
	}
	// flush of virtual columns, with transparent selector columns, and interplay with constraints
	{
		let mut s = Spec::new("virtual-flush");
		let t = s.table(Size::Pow2);
		let a = s.col(t, 2, 0, K::Com);
		let p = s.col(t, 2, 0, K::Shift(a, 1, 2, Sh::Rot));
		let l = s.col(t, 2, 7, K::Lin(3, vec![(a, 1 << 99), (p, 5)]));
		let st = s.col(t, 2, 0, K::StepDown(2, 3));
		let sel = s.col(t, 2, 0, K::Rep(st));
		let mut f0 = fl(t, 2, vec![Arg::O(l)], 0, true);
		f0.sel = vec![sel];
		s.flushes.push(f0);
		s.flushes.push(fl(t, 2, vec![Arg::O(p), Arg::O(a)], 1, true));
		s.flushes.push(fl(t, 2, vec![Arg::O(a), Arg::O(p)], 1, false));
		s.channels = 2;
		let mut insts = vec![];
		for n in [1usize, 2] {
			for bits in 0..1usize << (4 * n) {
				let com = vec![(0..4 * n).map(|i| (bits >> i & 1) as u128).collect::<Vec<_>>()];
				let cols = s.expand(&[n], &com);
				let mut bds: Vec<Bd> = (0..4 * n)
					.filter(|r| cols[sel][*r] == 1)
					.map(|r| bd(&[cols[l][r]], 0, false, 1))
					.collect();
				insts.push(Inst {
					sizes: vec![n],
					com: com.clone(),
					bds: bds.clone(),
				});
				bds.pop();
				insts.push(Inst {
					sizes: vec![n],
					com,
					bds,
				});
			}
		}
		out.push(split(&s, insts));
	}
	out
}

/// Number of 128-bit elements the polynomial commitment holds. The commitment needs at least two.
pub fn committed_elems(s: &Spec, sizes: &[usize]) -> usize {
	(0..s.cols.len())
		.filter(|&i| matches!(s.cols[i].k, K::Com) && sizes[s.cols[i].t] > 0)
		.map(|i| 1usize << (s.n_vars(i, sizes) + s.cols[i].level).saturating_sub(7))
		.sum()
}
/// Adds an unrelated committed column in a table of its own to the families that would otherwise be too small for
/// the commitment scheme.
pub fn ballast(mut fams: Vec<Fam>, min: usize) -> Vec<Fam> {
	for f in &mut fams {
		if f.good.iter().chain(&f.bad).all(|i| committed_elems(&f.spec, &i.sizes) >= min) {
			continue;
		}
		let s = &mut f.spec;
		let t = s.table(Size::Fixed(2));
		s.col(t, 0, 7, K::Com);
		// the column is the last one, so its values come last unless exponentiation results follow
		for i in f.good.iter_mut().chain(&mut f.bad) {
			i.sizes.push(4);
			i.com.push(vec![3 << 100, 9, 0, 1 << 127]);
		}
	}
	fams
}

/// One system that uses every part of the protocol at once.
pub fn rich(n0: usize, n1: usize) -> (Spec, Inst) {
	let mut s = Spec::new(format!("rich/{n0},{n1}"));
	let t0 = s.table(Size::Any);
	let t1 = s.table(Size::Any);
	let a = s.col(t0, 3, 0, K::Com);
	let x = s.col(t0, 0, 5, K::Com);
	let sel = s.col(t0, 0, 0, K::Com);
	let y = s.col(t1, 0, 5, K::Com);
	let z = s.col(t1, 0, 7, K::Com);
	let b0 = s.col(t1, 0, 0, K::Com);
	let b1 = s.col(t1, 0, 0, K::Com);
	let sh = s.col(t0, 3, 0, K::Shift(a, 3, 3, Sh::Rot));
	let sl = s.col(t0, 3, 0, K::Shift(a, 1, 3, Sh::Left));
	let pk = s.col(t0, 0, 3, K::Pack(sh, 3));
	let li = s.col(t0, 0, 7, K::Lin(3, vec![(pk, 1 << 70), (x, 5)]));
	let co = s.col(t0, 0, 5, K::Comp(vec![x, sel], v(0) * v(1) + v(0)));
	let pr = s.col(t0, 2, 0, K::Proj(a, vec![1], 1));
	let pd = s.col(t0, 3, 0, K::Pad(pr, 1, 1, 0));
	let sr = s.col(t0, 3, 0, K::SelectRow(3, 5));
	let rp = s.col(t0, 3, 0, K::Rep(sr));
	// a copy of the padded column, tied by a constraint of degree 2 using all of them
	let w = s.col(t0, 3, 0, K::Com);
	s.zero(t0, 3, &[sl, pd, rp, w], v(0) * v(1) + v(2) + v(3));
	let q = s.col(t0, 0, 7, K::Com);
	s.zero(t0, 0, &[x, li, co, q], v(1) * v(2) + v(3) + v(0));
	let er = s.col(t1, 0, 7, K::Com);
	s.exps.push(Ex { bits: vec![b0, b1], base: Ok(z), result: er });
	let e3 = s.col(t1, 0, 7, K::Com);
	s.zero(t1, 0, &[er, e3], v(0) + v(1));
	s.nonzero = vec![z];
	let f = |t, args, ch, push, sel: Vec<usize>, mult| Fl { t, lv: 0, args, ch, push, sel, mult };
	s.flushes.push(f(t1, vec![Arg::O(y), Arg::K(9)], 1, false, vec![], 1));
	s.flushes.push(f(t0, vec![Arg::O(x), Arg::K(9)], 1, true, vec![sel], 1));
	s.flushes.push(f(t0, vec![Arg::O(co)], 0, true, vec![], 2));
	s.channels = 2;
	let sizes = vec![n0, n1];
	let mut com: Vec<Vec<u128>> = vec![];
	for &cidx in &s.free() {
		com.push(gen_col(40 + cidx as u64, s.cols[cidx].level, s.n_vars(cidx, &sizes)));
	}
	let fr = s.free();
	let pos = |cidx: usize| fr.iter().position(|&k| k == cidx).unwrap();
	for v in &mut com[pos(z)] {
		*v |= 1;
	}
	// the first min(n0, n1) rows of x are selected and pulled by y in reverse order; the rest of y comes from a boundary
	let m = n0.min(n1);
	let cap0 = com[pos(sel)].len();
	com[pos(sel)] = (0..cap0).map(|i| (i < m || i >= n0) as u128).collect();
	let xs = com[pos(x)].clone();
	for i in 0..m {
		com[pos(y)][i] = xs[m - 1 - i];
	}
	let cols = s.expand(&sizes, &com);
	com[pos(w)] = (0..cols[w].len()).map(|i| cols[sl][i] & cols[pd][i] ^ cols[rp][i]).collect();
	com[pos(q)] = (0..cols[q].len()).map(|i| tmul(cols[li][i], cols[co][i], 7) ^ cols[x][i]).collect();
	com[pos(e3)] = cols[er].clone();
	let mut bds = vec![];
	for i in m..n1 {
		bds.push(bd(&[com[pos(y)][i], 9], 1, true, 1));
	}
	for i in 0..n0 {
		bds.push(bd(&[cols[co][i]], 0, false, 2));
	}
	let i = Inst { sizes, com, bds };
	assert!(s.holds(&i), "harness: rich instance");
	(s, i)
}
