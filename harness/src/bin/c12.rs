//! C12: arithmetic expressions and circuits. Every straight-line program up to a step bound is built
//! as a shared expression graph, transformed by every public transform, and each result is compared
//! with the denotation of the program computed by a table-driven interpreter.
use std::sync::{Arc, LazyLock};

use binius_core::composition::{BivariateProduct, IndexComposition, ProductComposition, TrivariateProduct, index_composition};
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::*;
use binius_math::{ArithCircuit, ArithExpr, CompositionPoly, RowsBatchRef};
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use vharness::{refs::tmul, *};

type F = BinaryField8b;
type P = PackedBinaryField16x8b;
type B = BinaryField128b;

static MUL: LazyLock<Vec<u8>> = LazyLock::new(|| {
	(0..65536u32).map(|i| tmul((i >> 8) as u128, (i & 255) as u128, 3) as u8).collect()
});
fn mul(a: u8, b: u8) -> u8 {
	MUL[(a as usize) << 8 | b as usize]
}
fn pow(a: u8, mut e: u64) -> u8 {
	let (mut r, mut b) = (1, a);
	while e > 0 {
		if e & 1 == 1 {
			r = mul(r, b);
		}
		b = mul(b, b);
		e >>= 1;
	}
	r
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
	V(usize),
	C(u8),
	A(usize, usize),
	M(usize, usize),
	P(usize, u64),
}
type Prog = Vec<S>;

fn eval(p: &Prog, x: &[u8]) -> u8 {
	let mut v = vec![0u8; p.len()];
	for (i, s) in p.iter().enumerate() {
		v[i] = match *s {
			S::V(k) => x[k],
			S::C(c) => c,
			S::A(a, b) => v[a] ^ v[b],
			S::M(a, b) => mul(v[a], v[b]),
			S::P(a, e) => pow(v[a], e),
		}
	}
	*v.last().unwrap()
}
/// Formal degree of every step.
fn degrees(p: &Prog) -> Vec<u128> {
	let mut d: Vec<u128> = vec![];
	for s in p {
		let x = match *s {
			S::V(_) => 1,
			S::C(_) => 0,
			S::A(a, b) => d[a].max(d[b]),
			S::M(a, b) => d[a] + d[b],
			S::P(a, e) => d[a] * e as u128,
		};
		d.push(x);
	}
	d
}
/// The part of formal top degree.
fn leading(p: &Prog, x: &[u8]) -> u8 {
	let d = degrees(p);
	let mut v = vec![0u8; p.len()];
	for (i, s) in p.iter().enumerate() {
		v[i] = match *s {
			S::V(k) => x[k],
			S::C(c) => c,
			S::A(a, b) => (if d[a] == d[i] { v[a] } else { 0 }) ^ (if d[b] == d[i] { v[b] } else { 0 }),
			S::M(a, b) => mul(v[a], v[b]),
			S::P(a, e) => pow(v[a], e),
		}
	}
	*v.last().unwrap()
}
fn reachable(p: &Prog) -> Vec<bool> {
	let mut u = vec![false; p.len()];
	*u.last_mut().unwrap() = true;
	for i in (0..p.len()).rev() {
		if u[i] {
			match p[i] {
				S::A(a, b) | S::M(a, b) => {
					u[a] = true;
					u[b] = true;
				}
				S::P(a, _) => u[a] = true,
				_ => {}
			}
		}
	}
	u
}
fn expr_shared<G: Field>(p: &Prog, c: impl Fn(u8) -> G) -> ArithExpr<G> {
	let mut v: Vec<Arc<ArithExpr<G>>> = vec![];
	for s in p {
		let e = match *s {
			S::V(k) => ArithExpr::Var(k),
			S::C(x) => ArithExpr::Const(c(x)),
			S::A(a, b) => ArithExpr::Add(v[a].clone(), v[b].clone()),
			S::M(a, b) => ArithExpr::Mul(v[a].clone(), v[b].clone()),
			S::P(a, e) => ArithExpr::Pow(v[a].clone(), e),
		};
		v.push(Arc::new(e));
	}
	(**v.last().unwrap()).clone()
}
fn circuit_ops(p: &Prog) -> ArithCircuit<F> {
	let mut v: Vec<ArithCircuit<F>> = vec![];
	for s in p {
		let e = match *s {
			S::V(k) => ArithCircuit::var(k),
			S::C(x) => ArithCircuit::constant(F::new(x)),
			S::A(a, b) => v[a].clone() + v[b].clone(),
			S::M(a, b) => v[a].clone() * v[b].clone(),
			S::P(a, e) => v[a].clone().pow(e),
		};
		v.push(e);
	}
	v.pop().unwrap()
}

const PTS: [[u8; 3]; 16] = [
	[0, 0, 0], [1, 0, 1], [0, 1, 1], [1, 1, 0], [2, 3, 5], [3, 2, 0x1d], [0x53, 0xCA, 1], [0xFF, 0x10, 2],
	[0x10, 1, 0x80], [7, 7, 7], [0xE1, 0, 9], [0, 0x9B, 0x33], [1, 0xD4, 0xFE], [0x6D, 1, 0x11], [0x80, 0x81, 0x82], [0xA7, 0x3C, 0x5F],
];
fn packed_var(k: usize, rot: usize) -> P {
	P::from_fn(|i| F::new(PTS[(i + rot) % 16][k]))
}

fn check(ck: &Ck, space: &str, p: &Prog, deep: bool) {
	ck.case(space, || format!("{p:?}"), |r| {
		let want: Vec<u8> = PTS.iter().map(|x| eval(p, x)).collect();
		let u = reachable(p);
		let nv = p.iter().zip(&u).filter_map(|(s, u)| if let (S::V(k), true) = (s, u) { Some(k + 1) } else { None }).max().unwrap_or(0);
		let deg = *degrees(p).last().unwrap();
		let e = expr_shared(p, F::new);
		let c = ArithCircuit::from(&e);
		r.obs(&want);
		let same = |r: &mut Run, c: &ArithCircuit<F>, what: &str| -> R {
			for (x, w) in PTS.iter().zip(&want) {
				let x: Vec<F> = x.iter().map(|v| F::new(*v)).collect();
				let y = c.evaluate(&x).map_err(|e| format!("{what}: {e}"))?;
				r.eq(&y.val(), w, || format!("{what} at {x:?}"))?;
			}
			Ok(())
		};
		same(r, &c, "circuit")?;
		r.eq(&c.n_vars(), &nv, || "n_vars".into())?;
		if deg < 1 << 62 {
			r.eq(&(c.degree() as u128), &deg, || "degree".into())?;
		}
		let mut usage = vec![false; nv];
		for (s, u) in p.iter().zip(&u) {
			if let (S::V(k), true) = (s, u) {
				usage[*k] = true;
			}
		}
		r.eq(&c.vars_usage(), &usage, || "vars_usage".into())?;
		let lvl = p.iter().zip(&u).map(|(s, u)| if let (S::C(c), true) = (s, u) { refs::level_of(*c as u128) } else { 0 }).max().unwrap_or(0);
		r.eq(&c.binary_tower_level(), &lvl, || "tower level".into())?;
		let o = c.clone().optimize();
		same(r, &o, "optimize")?;
		r.ok(o.n_vars() <= nv, || format!("optimised circuit reads more variables: {o:?}"))?;
		if deg >= 1 << 63 {
			// the degree itself is not representable: only the meaning is compared
			return Ok(());
		}
		if deg < 1 << 62 {
			r.ok(o.degree() as u128 <= deg, || format!("optimised degree {}", o.degree()))?;
		}
		if let Some(k) = o.get_constant() {
			r.ok(want.iter().all(|w| *w == k.val()), || format!("constant {k:?} but values {want:x?}"))?;
		}
		if nv == 0 {
			r.ok(o.get_constant().is_some(), || "no variables but not a constant after optimising".into())?;
		}
		// compiled for batch evaluation
		let q: Vec<P> = (0..nv).map(|k| packed_var(k, 0)).collect();
		let wantp = P::from_fn(|i| F::new(want[i]));
		let cp = ArithCircuitPoly::new(c.clone());
		let nvp = CompositionPoly::<P>::n_vars(&cp);
		r.ok(nvp <= nv, || "compiled n_vars".into())?;
		let y: P = cp.evaluate(&q[..nvp]).map_err(|e| format!("compiled: {e}"))?;
		r.eq(&y, &wantp, || "compiled".into())?;
		let wide = ArithCircuitPoly::with_n_vars(nv + 1, c.clone()).map_err(|e| e.to_string())?;
		let mut q2 = q.clone();
		q2.push(P::broadcast(F::new(0x77)));
		let y: P = wide.evaluate(&q2).map_err(|e| format!("compiled wide: {e}"))?;
		r.eq(&y, &wantp, || "compiled wide".into())?;
		r.ok(CompositionPoly::<P>::evaluate(&wide, &q[..nv]).is_err(), || "wrong query length accepted".into())?;
		for len in if deep { 0..=4usize } else { 3..=3 } {
			let rows: Vec<Vec<P>> = (0..nv + 1).map(|k| (0..len + 2).map(|j| if k < nv { packed_var(k, j + 14) } else { P::zero() }).collect()).collect();
			let refs: Vec<&[P]> = rows.iter().map(|v| &v[..]).collect();
			for off in 0..=2usize {
				let b = RowsBatchRef::new_with_offset(&refs, off, len);
				let mut out = vec![P::broadcast(F::new(0xEE)); len];
				wide.batch_evaluate(&b, &mut out).map_err(|e| e.to_string())?;
				for (j, y) in out.iter().enumerate() {
					r.eq(y, &P::from_fn(|i| F::new(want[(i + j + off + 14) % 16])), || format!("batch len {len} offset {off} column {j}"))?;
				}
			}
		}
		// embedding in a larger field, scalar and packed
		let big: ArithCircuit<B> = c.convert_field();
		let wide_big = ArithCircuitPoly::with_n_vars(nv, c.clone()).map_err(|e| e.to_string())?;
		for (x, w) in PTS.iter().zip(&want).take(8) {
			let x: Vec<B> = x.iter().map(|v| B::from(F::new(*v))).collect();
			let y = big.evaluate(&x).map_err(|e| e.to_string())?;
			r.eq(&y, &B::from(F::new(*w)), || "convert_field".into())?;
			let y: B = wide_big.evaluate(&x[..nv]).map_err(|e| e.to_string())?;
			r.eq(&y, &B::from(F::new(*w)), || "compiled over the extension".into())?;
		}
		let back = big.try_convert_field::<F>().map_err(|_| "try_convert_field")?;
		same(r, &back, "try_convert_field")?;
		if deep {
			same(r, &c.clone().optimize_constants(), "optimize_constants")?;
			same(r, &ArithCircuit::from(&ArithExpr::from(&c)), "expression and back")?;
			same(r, &ArithCircuit::from(&ArithExpr::from(&o)), "optimised expression and back")?;
			same(r, &circuit_ops(p), "circuit operators")?;
			same(r, &circuit_ops(p).optimize(), "circuit operators, optimised")?;
			let twice = o.clone().optimize();
			same(r, &twice, "optimize twice")?;
			let y: P = ArithCircuitPoly::with_n_vars(nv, circuit_ops(p)).map_err(|e| e.to_string())?.evaluate(&q).map_err(|e| e.to_string())?;
			r.eq(&y, &wantp, || "compiled from operators".into())?;
			std::panic::catch_unwind(|| c.eval_cost()).map_err(|_| "eval_cost panicked")?;
			if deg < 1 << 40 {
				let lead = c.leading_term();
				for x in PTS {
					let y = lead.evaluate(&x.map(F::new)).map_err(|e| e.to_string())?;
					r.eq(&y.val(), &leading(p, &x), || format!("leading term at {x:?}"))?;
				}
			}
			// remapping and substitution
			let perm = [2usize, 0, 1];
			let m = c.remap_vars(&perm).map_err(|e| e.to_string())?;
			for (x, _) in PTS.iter().zip(&want) {
				// new variable perm[i] stands where variable i stood
				let y = m.evaluate(&x.map(F::new)).map_err(|e| e.to_string())?;
				let old = [x[perm[0]], x[perm[1]], x[perm[2]]];
				r.eq(&y.val(), &eval(p, &old), || "remap_vars".into())?;
			}
			for short in 0..nv {
				r.ok(c.remap_vars(&perm[..short]).is_err(), || format!("{short} indices accepted"))?;
			}
			for var in 0..2 {
				for val in [0u8, 1, 0x53] {
					let s = c.clone().const_subst(var, F::new(val));
					let so = s.clone().optimize();
					for x in PTS {
						let mut old = x;
						old[var] = val;
						let w = eval(p, &old);
						r.eq(&s.evaluate(&x.map(F::new)).map_err(|e| e.to_string())?.val(), &w, || "const_subst".into())?;
						r.eq(&so.evaluate(&x.map(F::new)).map_err(|e| e.to_string())?.val(), &w, || "const_subst, optimised".into())?;
					}
				}
			}
			match c.linear_normal_form() {
				Ok(l) => {
					for (x, w) in PTS.iter().zip(&want) {
						let mut y = l.constant.val();
						for (i, k) in l.var_coeffs.iter().enumerate() {
							y ^= mul(k.val(), x[i]);
						}
						r.eq(&y, w, || format!("linear normal form {l:?}"))?;
					}
				}
				Err(_) => r.ok(deg > 1 || *degrees(p).iter().max().unwrap() > 1, || "linear expression reported as non-linear".into())?,
			}
			let mut bytes = vec![];
			wide.serialize(&mut bytes, SerializationMode::Native).map_err(|e| e.to_string())?;
			let back = ArithCircuitPoly::<F>::deserialize(&bytes[..], SerializationMode::Native).map_err(|e| e.to_string())?;
			let y: P = back.evaluate(&q2).map_err(|e| e.to_string())?;
			r.eq(&y, &wantp, || "deserialised".into())?;
			// compositions over it
			let ix = IndexComposition::new(4, [3, 1, 0], ArithCircuitPoly::with_n_vars(3, c.clone()).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
			let big_q: Vec<P> = vec![packed_var(2, 0), packed_var(1, 0), P::one(), packed_var(0, 0)];
			let y: P = ix.evaluate(&big_q).map_err(|e| e.to_string())?;
			r.eq(&y, &wantp, || "index composition".into())?;
			let xe: ArithCircuit<F> = CompositionPoly::<P>::expression(&ix);
			for (x, w) in PTS.iter().zip(&want) {
				let y = xe.evaluate(&[x[2], x[1], 9, x[0]].map(F::new)).map_err(|e| e.to_string())?;
				r.eq(&y.val(), w, || "index composition expression".into())?;
			}
			let rows: Vec<Vec<P>> = (0..4).map(|k| (0..5).map(|j| match k { 2 => P::one(), 3 => packed_var(0, j), 0 => packed_var(2, j), _ => packed_var(1, j) }).collect()).collect();
			let refs: Vec<&[P]> = rows.iter().map(|v| &v[..]).collect();
			let whole = RowsBatchRef::new(&refs, 5);
			for (a, b) in [(0usize, 5usize), (1, 3), (2, 2), (3, 5)] {
				let mut out = vec![P::zero(); b - a];
				ix.batch_evaluate(&whole.columns_subrange(a..b), &mut out).map_err(|e| e.to_string())?;
				for (j, y) in out.iter().enumerate() {
					r.eq(y, &P::from_fn(|i| F::new(want[(i + j + a) % 16])), || format!("index composition batch {a}..{b} column {j}"))?;
				}
			}
		}
		Ok(())
	});
}

/// All programs: the given leaves followed by exactly `k` steps, every step used by the last.
fn programs(leaves: &[S], k: usize, exps: &[u64], f: &(dyn Fn(&Prog) + Sync)) {
	fn go(p: &mut Prog, k: usize, exps: &[u64], f: &dyn Fn(&Prog)) {
		if k == 0 {
			let n = p.len();
			let mut used = vec![false; n];
			for s in p.iter() {
				match *s {
					S::A(a, b) | S::M(a, b) => {
						used[a] = true;
						used[b] = true;
					}
					S::P(a, _) => used[a] = true,
					_ => {}
				}
			}
			if (0..n - 1).all(|i| used[i] || matches!(p[i], S::V(_) | S::C(_))) {
				f(p);
			}
			return;
		}
		let n = p.len();
		for a in 0..n {
			for b in 0..n {
				p.push(S::A(a, b));
				go(p, k - 1, exps, f);
				p.pop();
				if b >= a || k <= 2 {
					p.push(S::M(a, b));
					go(p, k - 1, exps, f);
					p.pop();
				}
			}
			for e in exps {
				p.push(S::P(a, *e));
				go(p, k - 1, exps, f);
				p.pop();
			}
		}
	}
	go(&mut leaves.to_vec(), k, exps, f);
}
fn par_programs(ck: &Ck, space: &str, leaves: &[S], k: usize, exps: &[u64], deep: bool) {
	// split on the first step
	let mut heads: Vec<Prog> = vec![];
	let n = leaves.len();
	for a in 0..n {
		for b in 0..n {
			heads.push([leaves, &[S::A(a, b)]].concat());
			heads.push([leaves, &[S::M(a, b)]].concat());
		}
		for e in exps {
			heads.push([leaves, &[S::P(a, *e)]].concat());
		}
	}
	ck.par(&heads, |h| programs(h, k - 1, exps, &|p| check(ck, space, p, deep)));
}

fn compositions(ck: &Ck) {
	macro_rules! product { ($($n:literal),*) => {$(
		ck.case("product-composition", || format!("{}", $n), |r| {
			let c = ProductComposition::<$n>;
			let q: Vec<P> = (0..$n).map(|k| packed_var(k % 3, k)).collect();
			let w = P::from_fn(|i| F::new((0..$n).fold(1u8, |acc, k| mul(acc, PTS[(i + k) % 16][k % 3]))));
			r.eq(&CompositionPoly::<P>::evaluate(&c, &q).map_err(|e| e.to_string())?, &w, || "evaluate".into())?;
			r.eq(&CompositionPoly::<P>::n_vars(&c), &$n, || "n_vars".into())?;
			r.eq(&CompositionPoly::<P>::degree(&c), &$n, || "degree".into())?;
			let e: ArithCircuit<F> = CompositionPoly::<P>::expression(&c);
			for i in 0..16 {
				let x: Vec<F> = q.iter().map(|p| p.get(i)).collect();
				r.eq(&e.evaluate(&x).map_err(|e| e.to_string())?, &w.get(i), || "expression".into())?;
			}
			for bad in [$n - 1, $n + 1] {
				let q = vec![P::one(); bad];
				r.ok(CompositionPoly::<P>::evaluate(&c, &q).is_err(), || format!("{bad} arguments accepted"))?;
			}
			// the default batch evaluation, over every sub-range of the columns
			let rows: Vec<Vec<P>> = (0..$n).map(|k| (0..6).map(|j| packed_var(k % 3, k + j)).collect()).collect();
			let refs: Vec<&[P]> = rows.iter().map(|v| &v[..]).collect();
			let whole = RowsBatchRef::new(&refs, 6);
			for a in 0..=6usize {
				for b in a..=6usize {
					let mut out = vec![P::zero(); b - a];
					CompositionPoly::<P>::batch_evaluate(&c, &whole.columns_subrange(a..b), &mut out).map_err(|e| e.to_string())?;
					for (j, y) in out.iter().enumerate() {
						let w = P::from_fn(|i| F::new((0..$n).fold(1u8, |acc, k| mul(acc, PTS[(i + k + j + a) % 16][k % 3]))));
						r.eq(y, &w, || format!("batch {a}..{b} column {j}"))?;
					}
				}
			}
			Ok(())
		});
	)*}; }
	product!(1, 2, 3, 4);
	ck.case("index-composition-errors", || "bounds".into(), |r| {
		for n in 0..4usize {
			for a in 0..4usize {
				for b in 0..4usize {
					let ok = IndexComposition::new(n, [a, b], BivariateProduct {}).is_ok();
					r.eq(&ok, &(a < n && b < n), || format!("n={n} {a} {b}"))?;
					let sup: Vec<usize> = (0..n).map(|i| i * 10).collect();
					let ix = index_composition(&sup, [a * 10, b * 10], BivariateProduct {});
					r.eq(&ix.is_ok(), &(a < n && b < n), || format!("factory n={n} {a} {b}"))?;
					if let Ok(ix) = ix {
						let q: Vec<P> = (0..n).map(|k| packed_var(k % 3, k)).collect();
						let y: P = ix.evaluate(&q).map_err(|e| e.to_string())?;
						r.eq(&y, &(q[a] * q[b]), || "factory".into())?;
					}
				}
			}
		}
		let _ = TrivariateProduct {};
		Ok(())
	});
}

fn main() {
	let ck = &Ck::new("C12");
	use S::*;
	let exps = [0u64, 1, 2, 3, 5];
	ck.bound("straight-line programs over the leaves with every step used: x0,x1,0,1,c with up to 2 steps and powers 0,1,2,3,5; x0,x1,c with 3 steps and powers 0,1,3; x0,x1 with 4 steps and powers 1,3 (thorough: 3 steps with constants, 5 steps)");
	ck.bound("each program evaluated at 16 points of GF(2^8)^3, in scalars, in 16-lane packed elements and in batches with every offset 0..2");
	for l in [V(0), V(1), C(0), C(1), C(0x53)] {
		check(ck, "leaf", &vec![l], true);
	}
	let all = [V(0), V(1), C(0), C(1), C(0x53)];
	par_programs(ck, "one-step", &all, 1, &[0, 1, 2, 3, 4, 5, 7, 8, 15, 255, 256, 1 << 40, u64::MAX], true);
	par_programs(ck, "two-steps", &all, 2, &exps, true);
	// composed powers, including exponents whose product exceeds 64 bits
	let big = [0u64, 1, 2, 3, 255, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX];
	par_programs(ck, "powers", &[V(0)], 2, &big, true);
	par_programs(ck, "three-steps", &[V(0), V(1), C(0x53)], 3, &[0, 1, 3], true);
	par_programs(ck, "four-steps", &[V(0), V(1)], 4, &[1, 3], false);
	if ck.pick(false, true) {
		par_programs(ck, "three-steps-constants", &all, 3, &[0, 1, 2, 3], false);
		par_programs(ck, "five-steps", &[V(0), V(1)], 5, &[3], false);
	}
	compositions(ck);
	ck.finish()
}
