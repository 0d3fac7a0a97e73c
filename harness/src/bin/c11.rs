//! C11: multilinear evaluation, partial evaluation, folding, padding and query expansion against the definition.
use std::mem::MaybeUninit;

use binius_field::*;
use binius_math::{
	MLEDirectAdapter, MultilinearExtension, MultilinearPoly, MultilinearQuery, MultilinearQueryRef, eq_ind_partial_eval, fold_left, fold_left_lerp,
	fold_left_lerp_inplace, fold_middle, fold_right, fold_right_lerp, tensor_prod_eq_ind, zero_pad,
};
use vharness::*;

fn el<F: BinaryField>(i: usize, salt: u64) -> F {
	let v = mix128(i as u64 * 7919 + salt * 104729 + 11);
	let mut acc = F::ZERO;
	for b in 0..F::N_BITS {
		if v >> b & 1 == 1 {
			acc += <F as ExtensionField<BinaryField1b>>::basis(b);
		}
	}
	acc
}
fn unpack<P: PackedField>(v: &[P], n: usize) -> Vec<P::Scalar> {
	v.iter().flat_map(|p| p.into_iter()).take(n).collect()
}
/// lanes past the end hold `fill`
fn pack<P: PackedField>(v: &[P::Scalar], fill: impl Fn(usize) -> P::Scalar) -> Vec<P> {
	(0..v.len().div_ceil(P::WIDTH).max(1))
		.map(|i| P::from_scalars((0..P::WIDTH).map(|j| *v.get(i * P::WIDTH + j).unwrap_or(&fill(j))).collect::<Vec<_>>()))
		.collect()
}

// ---- the definition
/// eq(point, vertex i)
fn eq_at<F: Field>(point: &[F], i: usize) -> F {
	point.iter().enumerate().map(|(k, &z)| if i >> k & 1 == 1 { z } else { F::ONE - z }).product()
}
/// variables start..start+q.len() bound to q
fn bind<F: Field>(ev: &[F], q: &[F], start: usize) -> Vec<F> {
	let k = q.len();
	let w: Vec<F> = (0..1usize << k).map(|i| eq_at(q, i)).collect();
	dot(ev, &w, start)
}
fn dot<F: Field>(ev: &[F], w: &[F], start: usize) -> Vec<F> {
	let k = w.len().trailing_zeros() as usize;
	(0..ev.len() >> k)
		.map(|i| {
			let (lo, hi) = (i & ((1 << start) - 1), i >> start);
			(0..w.len()).map(|j| w[j] * ev[hi << (start + k) | j << start | lo]).sum()
		})
		.collect()
}

/// points of the alphabet: every vertex for few coordinates, and generic ones (all coordinates off the subfields, mixed with 0 and 1)
fn points<F: BinaryField>(k: usize, deep: bool) -> Vec<Vec<F>> {
	let mut v: Vec<Vec<F>> = vec![(0..k).map(|i| el::<F>(i, 77)).collect()];
	if k == 0 {
		return v;
	}
	if k <= if deep { 4 } else { 3 } {
		// letters 0, 1, g in every position
		for c in 1..3usize.pow(k as u32) {
			v.push((0..k).map(|i| match c / 3usize.pow(i as u32) % 3 { 0 => el::<F>(i, 78), 1 => F::ZERO, _ => F::ONE }).collect());
		}
	} else {
		for c in 0..k {
			for x in [F::ZERO, F::ONE] {
				let mut p: Vec<F> = (0..k).map(|i| el::<F>(i, 79)).collect();
				p[c] = x;
				v.push(p);
			}
		}
	}
	v
}
/// hypercube contents: dense ones, and every basis polynomial for small cubes
fn contents<F: BinaryField>(n: usize, deep: bool) -> Vec<Vec<F>> {
	let m = 1usize << n;
	let mut v: Vec<Vec<F>> = vec![(0..m).map(|i| el::<F>(i, 5 + n as u64)).collect(), vec![F::ONE; m]];
	let lim = if deep { 7 } else { 5 };
	if n <= lim {
		for j in 0..m {
			v.push((0..m).map(|i| if i == j { F::ONE } else { F::ZERO }).collect());
		}
	} else {
		// one-hot at the first and last position of every aligned block boundary
		for b in 0..n {
			for j in [1usize << b, (1 << b) - 1, m - (1 << b)] {
				v.push((0..m).map(|i| if i == j { F::ONE } else { F::ZERO }).collect());
			}
		}
	}
	v
}

fn queries<PE: PackedField<Scalar: BinaryField>>(ck: &Ck, name: &str, maxn: usize) {
	type S<P> = <P as PackedField>::Scalar;
	for n in 0..=maxn {
		for (pi, p) in points::<S<PE>>(n, ck.pick(0, 1) == 1).into_iter().enumerate() {
			ck.case("query expansion", || format!("{name} n={n} point {pi}"), |r| {
				let want: Vec<S<PE>> = (0..1usize << n).map(|i| eq_at(&p, i)).collect();
				let got = MultilinearQuery::<PE>::expand(&p);
				r.eq(&unpack(got.expansion(), 1 << n), &want, || "expand".into())?;
				r.eq(&unpack(&eq_ind_partial_eval::<PE>(&p), 1 << n), &want, || "eq_ind_partial_eval".into())?;
				r.obs_dbg(&want);
				// the same expansion through every composition into two or three updates
				for a in 0..=n {
					for b in a..=n {
						for cap in [n, n + 1, n + PE::LOG_WIDTH + 1] {
							let q = MultilinearQuery::<PE>::with_capacity(cap);
							let q = q.update(&p[..a]).and_then(|q| q.update(&p[a..b])).and_then(|q| q.update(&p[b..])).map_err(|e| format!("update refused: {e}"))?;
							r.eq(&q.n_vars(), &n, || "n_vars".into())?;
							r.eq(&unpack(q.expansion(), 1 << n), &want, || format!("updates split at {a},{b} capacity {cap}"))?;
						}
					}
					// arbitrary vector of 2^a values tensored with the remaining coordinates
					let base: Vec<S<PE>> = (0..1usize << a).map(|i| el(i, 900)).collect();
					let mut buf = pack::<PE>(&base, |_| <S<PE>>::ZERO);
					buf.resize((1usize << n).div_ceil(PE::WIDTH), PE::zero());
					tensor_prod_eq_ind(a, &mut buf, &p[a..]).map_err(|e| format!("tensor_prod_eq_ind refused: {e}"))?;
					let want2: Vec<S<PE>> = (0..1usize << n).map(|i| base[i & ((1 << a) - 1)] * eq_at(&p[a..], i >> a)).collect();
					r.eq(&unpack(&buf, 1 << n), &want2, || format!("tensor of 2^{a} values"))?;
				}
				// an over-full query is refused, never silently truncated
				if n >= PE::LOG_WIDTH {
					let q = MultilinearQuery::<PE>::with_capacity(n).update(&p).unwrap();
					r.ok(q.update(&[<S<PE>>::ONE]).is_err(), || "an update past the capacity was accepted".into())?;
				}
				Ok(())
			});
		}
	}
}

fn evals<P, PE>(ck: &Ck, name: &str, maxn: usize)
where
	P: PackedField<Scalar: BinaryField>,
	PE: PackedField<Scalar: BinaryField + ExtensionField<P::Scalar>>,
{
	let deep = ck.pick(0, 1) == 1;
	let mut jobs = vec![];
	for n in 0..=maxn {
		for (ci, c) in contents::<P::Scalar>(n, deep).into_iter().enumerate() {
			jobs.push((n, ci, c));
		}
	}
	ck.par(&jobs, |(n, ci, c)| {
		let n = *n;
		ck.case(name, || format!("n={n} content {ci}"), |r| {
			let ev: Vec<PE::Scalar> = c.iter().map(|&x| x.into()).collect();
			// unused lanes of the only packed element hold garbage
			let packed = pack::<P>(c, |i| el(i, 404));
			let mle = MultilinearExtension::new(n, packed.clone()).map_err(|e| format!("new refused: {e}"))?;
			for i in 0..1usize << n {
				r.eq(&mle.evaluate_on_hypercube(i).unwrap(), &c[i], || format!("vertex {i}"))?;
			}
			r.ok(mle.evaluate_on_hypercube(1 << n).is_err(), || "a vertex outside the hypercube was evaluated".into())?;
			for k in 0..=n {
				let pts = points::<PE::Scalar>(k, deep);
				let pts = if *ci == 0 { &pts[..] } else { &pts[..1] };
				for p in pts {
					let q = MultilinearQuery::<PE>::expand(p);
					let qr: MultilinearQueryRef<PE> = q.to_ref();
					if k == n {
						let got: PE::Scalar = mle.evaluate(qr.clone()).map_err(|e| format!("evaluate refused: {e}"))?;
						r.eq(&got, &bind(&ev, p, 0)[0], || format!("evaluate at {p:?}"))?;
					}
					let lo = mle.evaluate_partial_low(qr.clone()).map_err(|e| format!("partial_low: {e}"))?;
					let want_lo = bind(&ev, p, 0);
					r.eq(&lo.n_vars(), &(n - k), || "n_vars after partial_low".into())?;
					r.eq(&unpack(lo.evals(), 1 << (n - k)), &want_lo, || format!("evaluate_partial_low {k} of {n}"))?;
					let hi = mle.evaluate_partial_high(qr.clone()).map_err(|e| format!("partial_high: {e}"))?;
					let want_hi = bind(&ev, p, n - k);
					r.eq(&hi.n_vars(), &(n - k), || "n_vars after partial_high".into())?;
					r.eq(&unpack(hi.evals(), 1 << (n - k)), &want_hi, || format!("evaluate_partial_high {k} of {n}"))?;
					for s in 0..=n - k {
						let got = mle.evaluate_partial(qr.clone(), s).map_err(|e| format!("partial: {e}"))?;
						r.eq(&unpack(got.evals(), 1 << (n - k)), &bind(&ev, p, s), || format!("evaluate_partial {k} of {n} at {s}"))?;
					}
					// raw folds; guard elements around the output must survive
					let len = (1usize << (n - k)).div_ceil(PE::WIDTH);
					let guard = PE::from_fn(|i| el(i, 31337));
					let mut out = vec![guard; len + 2];
					fold_right(&packed, n, q.expansion(), k, &mut out[1..1 + len]).map_err(|e| format!("fold_right: {e}"))?;
					r.eq(&unpack(&out[1..], 1 << (n - k)), &want_lo, || format!("fold_right {k} of {n}"))?;
					r.ok(out[0] == guard && out[len + 1] == guard, || "fold_right wrote outside its output".into())?;
					if n >= P::LOG_WIDTH && n - k >= PE::LOG_WIDTH {
						// more evaluations than the fold consumes
						let mut long = packed.clone();
						long.push(P::from_fn(|i| el(i, 99)));
						let mut out = vec![guard; 2 * len + PE::WIDTH + 130];
						fold_right(&long, n, q.expansion(), k, &mut out[..len]).map_err(|e| format!("fold_right: {e}"))?;
						r.eq(&unpack(&out, 1 << (n - k)), &want_lo, || format!("fold_right {k} of {n}, longer input"))?;
						r.ok(out[len..].iter().all(|&x| x == guard), || "fold_right wrote outside its output (longer input)".into())?;
					}
					let mut out = vec![MaybeUninit::new(guard); len];
					fold_left(&packed, n, q.expansion(), k, &mut out).map_err(|e| format!("fold_left: {e}"))?;
					let got: Vec<PE> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
					r.eq(&unpack(&got, 1 << (n - k)), &want_hi, || format!("fold_left {k} of {n}"))?;
					for s in 0..=n - k {
						let mut out = vec![MaybeUninit::new(guard); len];
						fold_middle(&packed, n, q.expansion(), k, s, &mut out).map_err(|e| format!("fold_middle: {e}"))?;
						let got: Vec<PE> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
						r.eq(&unpack(&got, 1 << (n - k)), &bind(&ev, p, s), || format!("fold_middle {k} of {n} at {s}"))?;
					}
					if k == 1 {
						for size in 1..=1usize << n {
							// evaluations past `size` equal the suffix value; the output covers div_ceil(size, 2) values
							let suffix: P::Scalar = el(3, 606);
							let mut full: Vec<PE::Scalar> = ev[..size].to_vec();
							full.resize(size + size % 2, suffix.into());
							let want: Vec<PE::Scalar> = full.chunks(2).map(|ab| ab[0] + (ab[1] - ab[0]) * p[0]).collect();
							let len = want.len().div_ceil(PE::WIDTH);
							let mut out = vec![guard; len + 1];
							fold_right_lerp(&packed, size, p[0], suffix, &mut out).map_err(|e| format!("fold_right_lerp: {e}"))?;
							r.eq(&unpack(&out, want.len()), &want, || format!("fold_right_lerp of {size}"))?;
							r.ok(out[len] == guard, || "fold_right_lerp wrote past its output".into())?;
						}
					}
				}
				// a query vector that is not a tensor product (the univariate skip uses Lagrange coefficients)
				let w: Vec<PE::Scalar> = (0..1usize << k).map(|i| el(i, 555)).collect();
				let q = MultilinearQuery::<PE>::with_expansion(k, pack::<PE>(&w, |_| PE::Scalar::ZERO)).map_err(|e| e.to_string())?;
				let lo = mle.evaluate_partial_low(q.to_ref()).map_err(|e| e.to_string())?;
				r.eq(&unpack(lo.evals(), 1 << (n - k)), &dot(&ev, &w, 0), || format!("low fold by a general vector {k} of {n}"))?;
				let hi = mle.evaluate_partial_high(q.to_ref()).map_err(|e| e.to_string())?;
				r.eq(&unpack(hi.evals(), 1 << (n - k)), &dot(&ev, &w, n - k), || format!("high fold by a general vector {k} of {n}"))?;
			}
			// zero padding, every place and every index
			for pad in 0..=ck.pick(2, 3) {
				for s in 0..=n {
					for nz in 0..1usize << pad {
						let want: Vec<PE::Scalar> = (0..1usize << (n + pad))
							.map(|i| {
								let (lo, mid, hi) = (i & ((1 << s) - 1), i >> s & ((1 << pad) - 1), i >> (s + pad));
								if mid == nz { ev[hi << s | lo] } else { PE::Scalar::ZERO }
							})
							.collect();
						let got: MultilinearExtension<PE> = mle.zero_pad(pad, s, nz).map_err(|e| format!("zero_pad: {e}"))?;
						r.eq(&got.n_vars(), &(n + pad), || "n_vars after zero_pad".into())?;
						r.eq(&unpack(got.evals(), 1 << (n + pad)), &want, || format!("zero_pad {pad} at {s} index {nz}"))?;
						let mut out = vec![PE::zero(); (1usize << (n + pad)).div_ceil(PE::WIDTH)];
						zero_pad(&packed, n, n + pad, s, nz, &mut out).map_err(|e| format!("zero_pad: {e}"))?;
						r.eq(&unpack(&out, 1 << (n + pad)), &want, || format!("fold::zero_pad {pad} at {s} index {nz}"))?;
					}
					let bad: Result<MultilinearExtension<PE>, _> = mle.zero_pad(pad, s, 1 << pad);
					r.ok(bad.is_err(), || format!("zero_pad accepted block index {} of {}", 1 << pad, 1 << pad))?;
				}
			}
			Ok(())
		});
	});
}

fn lerp<P: PackedField<Scalar: BinaryField>>(ck: &Ck, name: &str, maxn: usize) {
	let mut jobs = vec![];
	for n in 1..=maxn {
		for pre in 0..=1usize << n {
			jobs.push((n, pre));
		}
	}
	ck.par(&jobs, |&(n, pre)| {
		ck.case("left lerp fold", || format!("{name} n={n} prefix={pre}"), |r| {
			for q in [el::<P::Scalar>(0, 3), P::Scalar::ZERO, P::Scalar::ONE] {
				for suf in [P::Scalar::ZERO, P::Scalar::ONE, el(1, 9)] {
					for (ci, c) in contents::<P::Scalar>(n, false).into_iter().enumerate() {
						if ci > 0 && (q == P::Scalar::ZERO || suf != P::Scalar::ZERO) {
							continue;
						}
						// values past the prefix are the suffix value; all lanes of the packed elements given follow that
						let full: Vec<P::Scalar> = (0..1usize << n).map(|i| if i < pre { c[i] } else { suf }).collect();
						let h = 1usize << (n - 1);
						let want: Vec<P::Scalar> = (0..h).map(|i| full[i] + (full[i | h] - full[i]) * q).collect();
						let all = pack::<P>(&full, |_| suf);
						for given in [pre.div_ceil(P::WIDTH), all.len()] {
							let input = &all[..given];
							let folded = pre.min(h);
							let len = folded.div_ceil(P::WIDTH);
							let mut out = vec![MaybeUninit::new(P::from_fn(|i| el(i, 313))); len];
							fold_left_lerp(input, pre, suf, n, q, &mut out).map_err(|e| format!("fold_left_lerp: {e}"))?;
							let got: Vec<P> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
							r.eq(&unpack(&got, folded), &want[..folded].to_vec(), || format!("fold_left_lerp q={q} suffix={suf} content {ci}"))?;
							let mut v = input.to_vec();
							fold_left_lerp_inplace(&mut v, pre, suf, n, q).map_err(|e| format!("fold_left_lerp_inplace: {e}"))?;
							r.ok(v.len() * P::WIDTH >= folded, || format!("in-place fold kept {} elements of {len}", v.len()))?;
							r.eq(&unpack(&v, folded), &want[..folded].to_vec(), || format!("fold_left_lerp_inplace q={q} suffix={suf} content {ci}"))?;
							if given == all.len() && suf == P::Scalar::ZERO {
								// a full-size output is zero past the prefix
								let mut out = vec![MaybeUninit::new(P::from_fn(|i| el(i, 313))); h.div_ceil(P::WIDTH)];
								if pre > 0 {
									fold_left_lerp(input, pre, suf, n, q, &mut out).map_err(|e| format!("fold_left_lerp: {e}"))?;
									let got: Vec<P> = out.iter().map(|x| unsafe { x.assume_init() }).collect();
									r.eq(&unpack(&got, h), &want, || format!("fold_left_lerp full output q={q} content {ci}"))?;
								}
							}
						}
					}
				}
			}
			Ok(())
		});
	});
}

/// type-erased access
fn adapters<P, PE>(ck: &Ck, name: &str, maxn: usize)
where
	P: PackedField<Scalar: BinaryField>,
	PE: PackedField<Scalar: BinaryField + ExtensionField<P::Scalar>> + RepackedExtension<P>,
{
	let mut jobs = vec![];
	for n in 0..=maxn {
		let cs = contents::<P::Scalar>(n, false);
		for (ci, c) in cs.into_iter().enumerate() {
			jobs.push((n, ci, c));
		}
	}
	ck.par(&jobs, |(n, ci, c)| {
		ck.case("type-erased multilinears", || format!("{name} n={n} content {ci}"), |r| {
			let mle = MultilinearExtension::new(*n, pack::<P>(c, |i| el(i, 404))).unwrap();
			poly::<P, PE>(r, &mle.specialize::<PE>(), c, false)
		});
	});
}
fn direct<P: PackedField<Scalar: BinaryField> + RepackedExtension<P>>(ck: &Ck, name: &str, maxn: usize) {
	for n in 0..=maxn {
		for (ci, c) in contents::<P::Scalar>(n, false).into_iter().enumerate() {
			ck.case("type-erased multilinears", || format!("{name} direct n={n} content {ci}"), |r| {
				let mle = MultilinearExtension::new(n, pack::<P>(&c, |i| el(i, 404))).unwrap();
				poly::<P, P>(r, &MLEDirectAdapter::from(mle), &c, true)
			});
		}
	}
}
fn poly<P, PE>(r: &mut Run, m: &impl MultilinearPoly<PE>, c: &[P::Scalar], direct: bool) -> R
where
	P: PackedField<Scalar: BinaryField>,
	PE: PackedField<Scalar: BinaryField + ExtensionField<P::Scalar>>,
{
	let n = c.len().trailing_zeros() as usize;
	let ev: Vec<PE::Scalar> = c.iter().map(|&x| x.into()).collect();
	let deg = <PE::Scalar as ExtensionField<P::Scalar>>::LOG_DEGREE;
	r.eq(&m.n_vars(), &n, || "n_vars".into())?;
	r.eq(&m.size(), &(1 << n), || "size".into())?;
	r.eq(&m.log_extension_degree(), &if direct { 0 } else { deg }, || "extension degree".into())?;
	let s: PE::Scalar = el(2, 20);
	for i in 0..1usize << n {
		r.eq(&m.evaluate_on_hypercube(i).unwrap(), &ev[i], || format!("vertex {i}"))?;
		r.eq(&m.evaluate_on_hypercube_and_scale(i, s).unwrap(), &(ev[i] * s), || format!("scaled vertex {i}"))?;
	}
	for k in 0..=n {
		let p: Vec<PE::Scalar> = (0..k).map(|i| el(i, 70)).collect();
		let q = MultilinearQuery::<PE>::expand(&p);
		let (lo, hi) = (bind(&ev, &p, 0), bind(&ev, &p, n - k));
		if k == n {
			r.eq(&m.evaluate(q.to_ref()).unwrap(), &lo[0], || "evaluate".into())?;
		}
		r.eq(&unpack(m.evaluate_partial_low(q.to_ref()).unwrap().evals(), 1 << (n - k)), &lo, || "partial low".into())?;
		r.eq(&unpack(m.evaluate_partial_high(q.to_ref()).unwrap().evals(), 1 << (n - k)), &hi, || "partial high".into())?;
		for st in 0..=n - k {
			r.eq(&unpack(m.evaluate_partial(q.to_ref(), st).unwrap().evals(), 1 << (n - k)), &bind(&ev, &p, st), || format!("partial at {st}"))?;
		}
		for sv in 0..=n - k {
			for si in 0..1usize << (n - k - sv) {
				let len = (1usize << sv).div_ceil(PE::WIDTH);
				let guard = PE::from_fn(|i| el(i, 31337));
				let mut out = vec![guard; len];
				m.subcube_partial_low_evals(q.to_ref(), sv, si, &mut out).map_err(|e| format!("subcube_partial_low_evals: {e}"))?;
				r.eq(&unpack(&out, 1 << sv), &lo[si << sv..(si + 1) << sv].to_vec(), || format!("subcube {si} of 2^{sv} after binding {k} low variables"))?;
				let mut out = vec![guard; len];
				m.subcube_partial_high_evals(q.to_ref(), sv, si, &mut out).map_err(|e| format!("subcube_partial_high_evals: {e}"))?;
				r.eq(&unpack(&out, 1 << sv), &hi[si << sv..(si + 1) << sv].to_vec(), || format!("subcube {si} of 2^{sv} after binding {k} high variables"))?;
			}
		}
	}
	for sv in 0..=n {
		for si in 0..1usize << (n - sv) {
			for le in 0..=if direct { 0 } else { deg } {
				let cells = 1usize << sv.saturating_sub(le);
				let mut out = vec![PE::zero(); cells.div_ceil(PE::WIDTH)];
				m.subcube_evals(sv, si, le, &mut out).map_err(|e| format!("subcube_evals: {e}"))?;
				let want: Vec<PE::Scalar> = (0..cells)
					.map(|x| {
						(0..1usize << le.min(sv))
							.map(|j| <PE::Scalar as ExtensionField<P::Scalar>>::basis(j << (deg - le)) * c[si << sv | x << le | j])
							.sum()
					})
					.collect();
				r.eq(&unpack(&out, cells), &want, || format!("subcube_evals {si} of 2^{sv}, embedding 2^{le}"))?;
			}
		}
	}
	let le = if direct { 0 } else { deg };
	if n >= le + PE::LOG_WIDTH {
		let mut out = vec![PE::zero(); 1 << (n - le - PE::LOG_WIDTH)];
		m.subcube_evals(n, 0, le, &mut out).unwrap();
		if let Some(p) = m.packed_evals() {
			r.eq(&p.to_vec(), &out, || "packed_evals differ from subcube_evals of the whole cube".into())?;
		}
	}
	r.obs_dbg(&ev);
	Ok(())
}

fn main() {
	let mut ck = Ck::new("C11");
	let d = ck.pick(0, 1);
	ck.bound(format!("n_vars: 0..=8 to 10 (packing width + {})", 2 + d));
	ck.bound("contents: all one-hot hypercubes up to 5 (7) variables, boundary one-hots above, all-ones, one dense; unused packed lanes hold garbage");
	ck.bound("points: all of {0,1,generic}^k for k <= 3 (4), one coordinate in {0,1} above; plus one non-tensor query vector");
	{
		let ck = &ck;
		queries::<BinaryField128b>(ck, "1x128b scalar", 6 + d);
		queries::<PackedBinaryField1x128b>(ck, "1x128b", 6 + d);
		queries::<PackedBinaryField4x128b>(ck, "4x128b", 6 + d);
		queries::<PackedBinaryField8x32b>(ck, "8x32b", 6 + d);
		queries::<PackedBinaryField16x8b>(ck, "16x8b", 7 + d);
		queries::<PackedAESBinaryField2x128b>(ck, "aes 2x128b", 5 + d);
		queries::<PackedBinaryPolyval2x128b>(ck, "polyval 2x128b", 5 + d);
		queries::<ByteSlicedAES16x128b>(ck, "byte-sliced 16x128b", 6 + d);

		evals::<PackedBinaryField128x1b, PackedBinaryField1x128b>(ck, "128x1b into 1x128b", 9 + d);
		evals::<PackedBinaryField256x1b, PackedBinaryField2x128b>(ck, "256x1b into 2x128b", 9 + d);
		evals::<PackedBinaryField512x1b, PackedBinaryField4x128b>(ck, "512x1b into 4x128b", 10 + d);
		evals::<PackedBinaryField128x1b, PackedBinaryField4x128b>(ck, "128x1b into 4x128b", 8 + d);
		evals::<PackedBinaryField128x1b, PackedAESBinaryField1x128b>(ck, "128x1b into aes 1x128b", 8 + d);
		evals::<PackedBinaryField256x1b, PackedBinaryPolyval2x128b>(ck, "256x1b into polyval 2x128b", 9);
		evals::<PackedBinaryField16x1b, PackedBinaryField16x8b>(ck, "16x1b into 16x8b", 6 + d);
		evals::<PackedBinaryField8x1b, PackedBinaryField32x8b>(ck, "8x1b into 32x8b", 6 + d);
		evals::<PackedBinaryField8x1b, PackedBinaryField16x16b>(ck, "8x1b into 16x16b", 6 + d);
		evals::<PackedBinaryField64x1b, PackedBinaryField64x8b>(ck, "64x1b into 64x8b", 7 + d);
		evals::<PackedBinaryField32x1b, PackedBinaryField1x32b>(ck, "32x1b into 1x32b", 7 + d);
		evals::<PackedBinaryField64x2b, PackedBinaryField1x128b>(ck, "64x2b into 1x128b", 7 + d);
		evals::<PackedBinaryField16x8b, PackedBinaryField1x128b>(ck, "16x8b into 1x128b", 6 + d);
		evals::<PackedBinaryField32x8b, PackedBinaryField8x32b>(ck, "32x8b into 8x32b", 6 + d);
		evals::<PackedBinaryField4x32b, PackedBinaryField4x32b>(ck, "4x32b into itself", 5 + d);
		evals::<PackedAESBinaryField16x8b, PackedAESBinaryField1x128b>(ck, "aes 16x8b into 1x128b", 6 + d);
		evals::<BinaryField8b, BinaryField64b>(ck, "8b into 64b scalars", 4 + d);
		evals::<BinaryField1b, BinaryField128b>(ck, "1b into 128b scalars", 5 + d);
		evals::<PackedBinaryField2x128b, PackedBinaryField2x128b>(ck, "2x128b into itself", 5 + d);
		evals::<ByteSlicedAES16x8b, ByteSlicedAES16x8b>(ck, "byte-sliced 16x8b into itself", 6);

		lerp::<BinaryField16b>(ck, "16b scalar", 5 + d);
		lerp::<PackedBinaryField1x128b>(ck, "1x128b", 4 + d);
		lerp::<PackedBinaryField4x128b>(ck, "4x128b", 5 + d);
		lerp::<PackedBinaryField16x8b>(ck, "16x8b", 6 + d);
		lerp::<PackedBinaryField8x1b>(ck, "8x1b", 6);
		lerp::<PackedAESBinaryField2x64b>(ck, "aes 2x64b", 4 + d);
		lerp::<ByteSlicedAES16x32b>(ck, "byte-sliced 16x32b", 6);

		adapters::<PackedBinaryField128x1b, PackedBinaryField1x128b>(ck, "128x1b as 1x128b", 8 + d);
		adapters::<PackedBinaryField16x8b, PackedBinaryField1x128b>(ck, "16x8b as 1x128b", 6 + d);
		adapters::<PackedBinaryField32x8b, PackedBinaryField2x128b>(ck, "32x8b as 2x128b", 6 + d);
		adapters::<PackedBinaryField16x32b, PackedBinaryField4x128b>(ck, "16x32b as 4x128b", 5 + d);
		adapters::<PackedBinaryField16x8b, PackedBinaryField4x32b>(ck, "16x8b as 4x32b", 5 + d);
		adapters::<PackedAESBinaryField16x8b, PackedAESBinaryField1x128b>(ck, "aes 16x8b as 1x128b", 5 + d);
		adapters::<PackedBinaryField2x128b, PackedBinaryField2x128b>(ck, "2x128b as itself", 4 + d);
		direct::<PackedBinaryField4x32b>(ck, "4x32b", 5 + d);
		direct::<PackedBinaryField1x128b>(ck, "1x128b", 4 + d);
		direct::<PackedAESBinaryField2x128b>(ck, "aes 2x128b", 4 + d);
	}
	ck.finish();
}
