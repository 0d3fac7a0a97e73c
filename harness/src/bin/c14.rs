//! C14: transparent polynomials: table definition, witness generation and evaluation.
use binius_core::{
	oracle::ShiftVariant,
	polynomial::MultivariatePoly,
	transparent::{
		constant::Constant, disjoint_product::DisjointProduct, eq_ind::EqIndPartialEval, multilinear_extension::MultilinearExtensionTransparent, powers::Powers,
		select_row::SelectRow, shift_ind::ShiftIndPartialEval, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis,
	},
};
use binius_field::*;
use binius_hal::make_portable_backend;
use vharness::*;

type F = BinaryField128b;

fn el(i: usize, salt: u64) -> F {
	F::new(mix128(i as u64 * 7919 + salt * 104729 + 11))
}
fn unpack<P: PackedField>(v: &[P], n: usize) -> Vec<P::Scalar> {
	v.iter().flat_map(|p| p.into_iter()).take(n).collect()
}
fn bit(i: usize, k: usize) -> F {
	if i >> k & 1 == 1 { F::ONE } else { F::ZERO }
}
fn eq_at(point: &[F], i: usize) -> F {
	point.iter().enumerate().map(|(k, &z)| if i >> k & 1 == 1 { z } else { F::ONE - z }).product()
}
fn mle(t: &[F], p: &[F]) -> F {
	if p.len() > 4 {
		return mle_fast(t, p);
	}
	t.iter().enumerate().map(|(i, &v)| v * eq_at(p, i)).sum()
}
/// every point of {0, 1, generic}^n for small n, otherwise all vertices plus some generic points
fn grid(n: usize, deep: bool) -> Vec<Vec<F>> {
	let mut v = vec![];
	if n <= if deep { 6 } else { 5 } {
		for c in 0..3usize.pow(n as u32) {
			v.push((0..n).map(|i| match c / 3usize.pow(i as u32) % 3 { 0 => F::ZERO, 1 => F::ONE, _ => el(i, 78) }).collect());
		}
	} else {
		for s in 0..3 {
			v.push((0..n).map(|i| el(i, 100 + s)).collect());
		}
		for x in (0..n).flat_map(|b| [1usize << b, (1 << b) - 1]).chain([(1 << n) - 1]) {
			v.push((0..n).map(|k| bit(x, k)).collect());
		}
	}
	v
}
fn poly(r: &mut Run, p: &dyn MultivariatePoly<F>, table: &[F], deep: bool) -> R {
	let n = table.len().trailing_zeros() as usize;
	r.eq(&p.n_vars(), &n, || "n_vars".into())?;
	for x in grid(n, deep) {
		r.eq(&p.evaluate(&x).map_err(|e| e.to_string())?, &mle(table, &x), || format!("value at {x:?}"))?;
	}
	r.ok(p.evaluate(&vec![F::ONE; n + 1]).is_err(), || "a longer point was accepted".into())?;
	if n > 0 {
		r.ok(p.evaluate(&vec![F::ONE; n - 1]).is_err(), || "a shorter point was accepted".into())?;
	}
	// the table must lie in the field the polynomial claims to be defined over
	let lv = p.binary_tower_level();
	for v in table {
		r.ok(lv >= 7 || u128::from(v.to_underlier()) >> (1u32 << lv) == 0, || format!("value {v} above the declared tower level {lv}"))?;
	}
	r.obs_dbg(&table);
	Ok(())
}
use binius_field::underlier::WithUnderlier;

fn steps<P: PackedField<Scalar = BinaryField1b>>(ck: &Ck, name: &str, maxn: usize) {
	let one = |b: bool| if b { F::ONE } else { F::ZERO };
	let deep = ck.pick(0, 1) == 1;
	let mut jobs = vec![];
	for n in 0..=maxn {
		for i in 0..=1usize << n {
			jobs.push((n, i));
		}
	}
	ck.par(&jobs, |&(n, i)| {
		ck.case("steps and rows", || format!("{name} n={n} index={i}"), |r| {
			let down: Vec<F> = (0..1usize << n).map(|x| one(x < i)).collect();
			let up: Vec<F> = (0..1usize << n).map(|x| one(x >= i)).collect();
			let row: Vec<F> = (0..1usize << n).map(|x| one(x == i)).collect();
			let b = |v: &[F]| v.iter().map(|x| *x == F::ONE).collect::<Vec<_>>();
			let t = |m: Vec<P>| unpack(&m, 1 << n).into_iter().map(|x| x == BinaryField1b::ONE).collect::<Vec<_>>();
			let d = StepDown::new(n, i).map_err(|e| e.to_string())?;
			let u = StepUp::new(n, i).map_err(|e| e.to_string())?;
			r.eq(&t(d.multilinear_extension::<P>().map_err(|e| e.to_string())?.into_evals()), &b(&down), || "StepDown witness".into())?;
			r.eq(&t(u.multilinear_extension::<P>().map_err(|e| e.to_string())?.into_evals()), &b(&up), || "StepUp witness".into())?;
			// populating a dirty buffer
			let mut buf = vec![P::from_fn(|k| BinaryField1b::from(k % 3 == 0)); 1 << n.saturating_sub(P::LOG_WIDTH)];
			d.populate(&mut buf);
			r.eq(&t(buf.clone()), &b(&down), || "StepDown populate".into())?;
			u.populate(&mut buf);
			r.eq(&t(buf), &b(&up), || "StepUp populate".into())?;
			poly(r, &d, &down, deep)?;
			poly(r, &u, &up, deep)?;
			match SelectRow::new(n, i) {
				Ok(s) => {
					r.ok(i < 1 << n, || "SelectRow accepted an index outside the cube".into())?;
					if n >= P::LOG_WIDTH {
						r.eq(&t(s.multilinear_extension::<P>().map_err(|e| e.to_string())?.into_evals()), &b(&row), || "SelectRow witness".into())?;
					}
					poly(r, &s, &row, deep)
				}
				Err(e) => r.ok(i == 1 << n, || format!("SelectRow refused: {e}")),
			}
		});
	});
	ck.case("steps and rows", || format!("{name} out of range"), |r| {
		for n in 0..=maxn {
			r.ok(StepDown::new(n, (1 << n) + 1).is_err() && StepUp::new(n, (1 << n) + 1).is_err() && SelectRow::new(n, (1 << n) + 1).is_err(), || "index out of range accepted".into())?;
		}
		Ok(())
	});
}

fn shifts<P: PackedField<Scalar = F>>(ck: &Ck, name: &str, maxb: usize) {
	let deep = ck.pick(0, 1) == 1;
	let mut jobs = vec![];
	for b in 1..=maxb {
		for o in 1..1usize << b {
			for v in [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight] {
				jobs.push((b, o, v));
			}
		}
	}
	ck.par(&jobs, |&(b, o, v)| {
		ck.case("shift indicators", || format!("{name} block={b} offset={o} {v:?}"), |r| {
			let m = 1usize << b;
			let ind = |x: usize, y: usize| match v {
				ShiftVariant::CircularLeft => (y + m - o) % m == x,
				ShiftVariant::LogicalLeft => y == x + o,
				ShiftVariant::LogicalRight => y + o == x,
			};
			for (ri, rr) in grid(b, false).into_iter().enumerate() {
				// all of {0,1,g}^b up to 3 variables, a few above
				if b > 3 && ri % if deep { 7 } else { 41 } != 40 % if deep { 7 } else { 41 } && ri + 1 != 3usize.pow(b as u32) {
					continue;
				}
				let table: Vec<F> = (0..m).map(|x| (0..m).filter(|&y| ind(x, y)).map(|y| eq_at(&rr, y)).sum()).collect();
				let s = ShiftIndPartialEval::new(b, o, v, rr).map_err(|e| e.to_string())?;
				let w = s.multilinear_extension::<P>().map_err(|e| e.to_string())?;
				r.eq(&unpack(w.evals(), m), &table, || "witness".into())?;
				poly(r, &s, &table, false)?;
			}
			Ok(())
		});
	});
	ck.case("shift indicators", || format!("{name} invalid arguments"), |r| {
		for b in 0..=maxb {
			for v in [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight] {
				r.ok(ShiftIndPartialEval::new(b, 0, v, vec![F::ONE; b]).is_err(), || "offset 0 accepted".into())?;
				r.ok(ShiftIndPartialEval::new(b, 1 << b, v, vec![F::ONE; b]).is_err(), || "offset 2^b accepted".into())?;
				r.ok(ShiftIndPartialEval::new(b, 1, v, vec![F::ONE; b + 1]).is_err(), || "wrong point length accepted".into())?;
			}
		}
		Ok(())
	});
}

fn powers<P: PackedField<Scalar = F>>(ck: &Ck, name: &str, maxn: usize) {
	let jobs: Vec<(usize, usize)> = (0..=maxn).flat_map(|n| (0..5).map(move |b| (n, b))).collect();
	ck.par(&jobs, |&(n, bi)| {
		let base = [F::ZERO, F::ONE, F::new(2), el(1, 3), F::MULTIPLICATIVE_GENERATOR][bi];
		ck.case("powers", || format!("{name} n={n} base={base}"), |r| {
			let mut x = F::ONE;
			let table: Vec<F> = (0..1usize << n)
				.map(|_| {
					let y = x;
					x *= base;
					y
				})
				.collect();
			let p = Powers::new(n, base);
			let w = p.multilinear_extension::<P>().map_err(|e| e.to_string())?;
			let got = unpack(w.evals(), 1 << n);
			if let Some(i) = (0..table.len()).find(|&i| got[i] != table[i]) {
				r.ok(false, || format!("witness entry {i}: {} instead of {}", got[i], table[i]))?;
			}
			if n <= 8 { poly(r, &p, &table, false) } else { r.eq(&MultivariatePoly::<F>::evaluate(&p, &(0..n).map(|i| el(i, 6)).collect::<Vec<_>>()).unwrap(), &mle_fast(&table, &(0..n).map(|i| el(i, 6)).collect::<Vec<_>>()), || "value".into()) }
		});
	});
}
fn mle_fast(t: &[F], p: &[F]) -> F {
	let mut v = t.to_vec();
	for &z in p.iter() {
		v = v.chunks(2).map(|c| c[0] + (c[1] - c[0]) * z).collect();
	}
	v[0]
}

fn main() {
	let mut ck = Ck::new("C14");
	let d = ck.pick(0, 1);
	ck.bound("step down/up and select row: every index for n <= 9; shift indicators: every block size <= 5 (6), offset, variant; powers n <= 14; tower basis: all (k, iota); constants of every level; equality indicators n <= 6; multilinear tables n <= 6; products of all pairs");
	ck.bound("points: all of {0,1,generic}^n up to 5 (6) variables, vertices at block boundaries and generic points above");
	{
		let ck = &ck;
		steps::<BinaryField1b>(ck, "scalar", 5 + d);
		steps::<PackedBinaryField8x1b>(ck, "8x1b", 6 + d);
		steps::<PackedBinaryField128x1b>(ck, "128x1b", 9);
		steps::<PackedBinaryField256x1b>(ck, "256x1b", 9);
		shifts::<F>(ck, "scalar", 4 + d);
		shifts::<PackedBinaryField2x128b>(ck, "2x128b", 4 + d);
		shifts::<PackedBinaryField4x128b>(ck, "4x128b", 5 + d);
		powers::<F>(ck, "scalar", 12 + d);
		powers::<PackedBinaryField2x128b>(ck, "2x128b", 13 + d);
		powers::<PackedBinaryField4x128b>(ck, "4x128b", 14 + d);
		for k in 0..=8usize {
			for iota in 0..=8usize {
				ck.case("tower basis", || format!("k={k} iota={iota}"), |r| match TowerBasis::<F>::new(k, iota) {
					Ok(t) => {
						r.ok(k + iota <= 7, || "accepted outside the tower".into())?;
						// basis element i of the 2^k over 2^iota extension is the field element 1 << (i << iota) of the canonical representation
						let table: Vec<F> = (0..1usize << k).map(|i| F::new(1u128 << (i << iota))).collect();
						r.eq(&t.multilinear_extension::<F>().map_err(|e| e.to_string())?.into_evals(), &table, || "witness".into())?;
						r.eq(&unpack(t.multilinear_extension::<PackedBinaryField4x128b>().map_err(|e| e.to_string())?.evals(), 1 << k), &table, || "packed witness".into())?;
						poly(r, &t, &table, false)
					}
					Err(_) => r.ok(k + iota > 7, || "refused inside the tower".into()),
				});
			}
		}
		for n in 0..=5usize {
			ck.case("constants", || format!("n={n}"), |r| {
				macro_rules! c { ($($t:ident $v:expr),*) => { $( poly(r, &Constant::<F>::new::<$t>(n, <$t>::new($v)), &vec![F::from(<$t>::new($v)); 1 << n], false)?; )* } }
				c!(BinaryField8b 0xa7, BinaryField16b 0xbeef, BinaryField32b 0xdeadbeef, BinaryField64b 0x8123456789abcdef, BinaryField128b u128::MAX - 12345);
				poly(r, &Constant::<F>::new(n, BinaryField1b::ONE), &vec![F::ONE; 1 << n], false)?;
				poly(r, &Constant::<F>::new(n, BinaryField1b::ZERO), &vec![F::ZERO; 1 << n], false)
			});
		}
		let jobs: Vec<(usize, usize)> = (0..=5usize).flat_map(|n| (0..3usize.pow(n.min(4) as u32)).map(move |i| (n, i))).collect();
		ck.par(&jobs, |&(n, i)| {
			ck.case("equality indicators", || format!("n={n} point {i}"), |r| {
				let g = grid(n, false);
				let rr = g[g.len() - 1 - i].clone();
				let table: Vec<F> = (0..1usize << n).map(|x| eq_at(&rr, x)).collect();
				let e = EqIndPartialEval::new(rr);
				let backend = make_portable_backend();
				r.eq(&unpack(e.multilinear_extension::<F, _>(&backend).map_err(|e| e.to_string())?.evals(), 1 << n), &table, || "witness".into())?;
				r.eq(&unpack(e.multilinear_extension::<PackedBinaryField4x128b, _>(&backend).map_err(|e| e.to_string())?.evals(), 1 << n), &table, || "packed witness".into())?;
				poly(r, &e, &table, false)
			});
		});
		for n in 0..=6usize {
			for hot in (0..1usize << n).chain([usize::MAX]) {
				ck.case("explicit tables", || format!("n={n} one-hot {hot}"), |r| {
					let tab = |l: u32| -> Vec<u128> { (0..1usize << n).map(|i| if hot == usize::MAX { mix128(i as u64 + 17) & (u128::MAX >> (128 - (1u32 << l))) } else { (i == hot) as u128 }).collect() };
					let t7 = tab(7);
					let p = MultilinearExtensionTransparent::<PackedBinaryField1x128b, PackedBinaryField1x128b, _>::from_values_and_mu(t7.iter().map(|&x| PackedBinaryField1x128b::broadcast(F::new(x))).collect::<Vec<_>>(), n).map_err(|e| e.to_string())?;
					poly(r, &p, &t7.iter().map(|&x| F::new(x)).collect::<Vec<_>>(), false)?;
					let t3 = tab(3);
					let v: Vec<PackedBinaryField16x8b> = (0..t3.len().div_ceil(16)).map(|i| PackedBinaryField16x8b::from_fn(|j| BinaryField8b::new(t3.get(16 * i + j).map_or(0x5a, |&x| x as u8)))).collect();
					let p = MultilinearExtensionTransparent::<PackedBinaryField16x8b, PackedBinaryField1x128b, _>::from_values_and_mu(v, n).map_err(|e| e.to_string())?;
					poly(r, &p, &t3.iter().map(|&x| F::new(x)).collect::<Vec<_>>(), false)?;
					let t0 = tab(0);
					let v: Vec<PackedBinaryField128x1b> = vec![PackedBinaryField128x1b::from_fn(|j| BinaryField1b::from(t0.get(j).is_none_or(|&x| x == 1)))];
					let p = MultilinearExtensionTransparent::<PackedBinaryField128x1b, PackedBinaryField1x128b, _>::from_values_and_mu(v, n).map_err(|e| e.to_string())?;
					poly(r, &p, &t0.iter().map(|&x| F::new(x)).collect::<Vec<_>>(), false)
				});
			}
		}
		for a in 0..=2usize {
			for b in 0..=2usize {
				for i in 0..=1usize << a {
					for j in 0..1usize << b {
						ck.case("disjoint products", || format!("step {i} of 2^{a} times row {j} of 2^{b}, and swapped, and powers"), |r| {
							let t = |x: bool| if x { F::ONE } else { F::ZERO };
							let (s, w) = (StepUp::new(a, i).unwrap(), SelectRow::new(b, j).unwrap());
							poly(r, &DisjointProduct(s.clone(), w.clone()), &(0..1usize << (a + b)).map(|x| t(x & ((1 << a) - 1) >= i && x >> a == j)).collect::<Vec<_>>(), false)?;
							poly(r, &DisjointProduct(w, s.clone()), &(0..1usize << (a + b)).map(|x| t(x >> b >= i && x & ((1 << b) - 1) == j)).collect::<Vec<_>>(), false)?;
							let base = el(1, 3);
							poly(r, &DisjointProduct(s, Powers::new(b, base)), &(0..1usize << (a + b)).map(|x| if x & ((1 << a) - 1) >= i { (0..x >> a).map(|_| base).product() } else { F::ZERO }).collect::<Vec<_>>(), false)
						});
					}
				}
			}
		}
	}
	ck.finish();
}
