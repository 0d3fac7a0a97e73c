// included once per module of bin/c02.rs (one code generation unit each)
use super::*;

fn lanes<P: PackedField>(p: &P) -> Vec<P::Scalar> {
	(0..P::WIDTH).map(|i| p.get(i)).collect()
}
fn expect<P: PackedField>(r: &mut Run, got: P, want: &dyn Fn(usize) -> P::Scalar, what: &dyn Fn() -> String) -> R {
	r.step(1);
	for i in 0..P::WIDTH {
		let (g, w) = (got.get(i), want(i));
		if g != w {
			return Err(format!("{}: lane {i} is {g:?}, the scalar operation gives {w:?}", what()));
		}
	}
	Ok(())
}

pub fn arith<P>(ck: &Ck, name: &str, t: &Tab<P::Scalar>, alpha: Option<fn(P) -> P>)
where
	P: PackedField<Scalar: Sc>,
{
	let w = P::WIDTH;
	// In step s lane l carries pair (s*stride + l*lane_stride) mod n; strides coprime to n, so over all steps every lane meets every pair.
	let n = t.pairs.len();
	let steps = if ck.thorough || n * w <= 1 << 22 { n } else { (1 << 22) / w };
	let stride = if steps == n { 1 } else { 1 + 2 * (n / steps / 2) };
	ck.case("mul", || name.to_string(), |r| {
		for s in 0..steps {
			let at = |l: usize| &t.pairs[(s * stride + l * 257) % n];
			let (a, b) = (P::from_fn(|l| at(l).0), P::from_fn(|l| at(l).1));
			expect(r, a * b, &|l| at(l).2, &|| format!("{name}: product, lane 0 = {:?} * {:?}", at(0).0, at(0).1))?;
		}
		r.obs(&n);
		r.obs(&w);
		Ok(())
	});
	let n = t.una.len();
	ck.case("unary", || name.to_string(), |r| {
		for s in 0..n {
			let at = |l: usize| &t.una[(s + l * 37) % n];
			let a = P::from_fn(|l| at(l).0);
			expect(r, PackedField::square(a), &|l| at(l).1, &|| format!("{name}: square, lane 0 = {:?}", at(0).0))?;
			expect(r, PackedField::invert_or_zero(a), &|l| at(l).2, &|| format!("{name}: inverse, lane 0 = {:?}", at(0).0))?;
			if let Some(f) = alpha {
				expect(r, f(a), &|l| at(l).3, &|| format!("{name}: times alpha, lane 0 = {:?}", at(0).0))?;
			}
		}
		r.obs(&n);
		r.obs(&w);
		Ok(())
	});
	let al: Vec<P::Scalar> = alphabet(<P::Scalar as Sc>::K, 3).into_iter().map(<P::Scalar as Sc>::of).collect();
	ck.case("scalar-forms", || name.to_string(), |r| {
		for s in 0..al.len() {
			let a = P::from_fn(|l| al[(s + l * 5) % al.len()]);
			let av = lanes(&a);
			for u in 0..al.len() {
				let b = P::from_fn(|l| al[(u + l * 3 + 1) % al.len()]);
				let bv = lanes(&b);
				expect(r, a + b, &|l| av[l] + bv[l], &|| format!("{name}: sum"))?;
				expect(r, a - b, &|l| av[l] + bv[l], &|| format!("{name}: difference"))?;
				let (mut x, mut y, mut z) = (a, a, a);
				x += b;
				y -= b;
				z *= b;
				expect(r, x, &|l| av[l] + bv[l], &|| format!("{name}: +="))?;
				expect(r, y, &|l| av[l] + bv[l], &|| format!("{name}: -="))?;
				expect(r, z, &|l| av[l] * bv[l], &|| format!("{name}: *="))?;
				let c = al[u];
				expect(r, a + c, &|l| av[l] + c, &|| format!("{name}: + scalar {c:?}"))?;
				expect(r, a - c, &|l| av[l] + c, &|| format!("{name}: - scalar {c:?}"))?;
				expect(r, a * c, &|l| av[l] * c, &|| format!("{name}: * scalar {c:?}"))?;
				let (mut x, mut y, mut z) = (a, a, a);
				x += c;
				y -= c;
				z *= c;
				expect(r, x, &|l| av[l] + c, &|| format!("{name}: += scalar {c:?}"))?;
				expect(r, y, &|l| av[l] + c, &|| format!("{name}: -= scalar {c:?}"))?;
				expect(r, z, &|l| av[l] * c, &|| format!("{name}: *= scalar {c:?}"))?;
				expect(r, [a, b, a].into_iter().sum::<P>(), &|l| bv[l] + av[l] + av[l], &|| format!("{name}: sum of three"))?;
				expect(r, [a, b].into_iter().product::<P>(), &|l| av[l] * bv[l], &|| format!("{name}: product of two"))?;
				r.eq(&(a == b), &(av == bv), || format!("{name}: equality"))?;
			}
			for e in 0..20u64 {
				expect(r, PackedField::pow(a, e), &|l| Field::pow(&av[l], [e]), &|| format!("{name}: power {e}"))?;
			}
			expect(r, P::broadcast(al[s]), &|_| al[s], &|| format!("{name}: broadcast"))?;
			expect(r, P::set_single(al[s]), &|l| if l == 0 { al[s] } else { P::Scalar::ZERO }, &|| format!("{name}: set_single"))?;
		}
		expect(r, P::zero(), &|_| P::Scalar::ZERO, &|| format!("{name}: zero"))?;
		expect(r, P::one(), &|_| P::Scalar::ONE, &|| format!("{name}: one"))?;
		expect(r, P::default(), &|_| P::Scalar::ZERO, &|| format!("{name}: default"))?;
		r.obs(&w);
		Ok(())
	});
}

/// Vectors that together identify every lane permutation of a stack of `m` lanes: the bits of the lane index, plus dense values.
fn patterns<F: Sc>(m: usize) -> Vec<Vec<F>> {
	let g = |x: u64| F::of(mix128(x) & F::mask());
	let mut v: Vec<Vec<F>> = vec![];
	let bits = usize::BITS - (m - 1).leading_zeros();
	for b in 0..bits.max(1) {
		v.push((0..m).map(|l| if l >> b & 1 == 1 { F::ONE } else { F::ZERO }).collect());
		v.push((0..m).map(|l| if l >> b & 1 == 1 { F::of(F::mask()) } else { F::ZERO }).collect());
	}
	for s in 0..3 {
		v.push((0..m).map(|l| g(l as u64 + 1000 * s)).collect());
	}
	v
}
pub fn moves<P: PackedField<Scalar: Sc>>(ck: &Ck, name: &str) {
	let w = P::WIDTH;
	let pats = patterns::<P::Scalar>(2 * w);
	ck.case("interleave-unzip", || name.to_string(), |r| {
		let mut all = pats.clone();
		// and every lone lane (every 5th of the widest)
		for l in (0..2 * w).step_by(if w > 512 { 37 } else if w > 128 { 5 } else { 1 }) {
			all.push((0..2 * w).map(|i| if i == l { <P::Scalar as Sc>::of(<P::Scalar as Sc>::mask()) } else { P::Scalar::ZERO }).collect());
		}
		for v in &all {
			let a = P::from_scalars(v[..w].iter().copied());
			let b = P::from_scalars(v[w..].iter().copied());
			for lb in 0..P::LOG_WIDTH {
				let bl = 1 << lb;
				// blocks of the 2x2 transposition
				let want = |second: bool, l: usize| {
					let blk = l / bl;
					let src_blk = (blk & !1) | second as usize;
					let from_b = blk & 1 == 1;
					v[from_b as usize * w + src_blk * bl + l % bl]
				};
				let (x, y) = a.interleave(b, lb);
				expect(r, x, &|l| want(false, l), &|| format!("{name}: interleave({lb}) first"))?;
				expect(r, y, &|l| want(true, l), &|| format!("{name}: interleave({lb}) second"))?;
				let (x, y) = a.unzip(b, lb);
				let want = |second: bool, l: usize| {
					let blk = 2 * (l / bl) + second as usize;
					v[blk * bl + l % bl]
				};
				expect(r, x, &|l| want(false, l), &|| format!("{name}: unzip({lb}) first"))?;
				expect(r, y, &|l| want(true, l), &|| format!("{name}: unzip({lb}) second"))?;
			}
		}
		r.obs(&w);
		Ok(())
	});
	ck.case("spread", || name.to_string(), |r| {
		let np = pats.len();
		for (k, v) in pats.iter().enumerate() {
			if w > 256 && k % 4 != 1 && k + 1 < np {
				continue;
			}
			let a = P::from_scalars(v[..w].iter().copied());
			for lb in 0..=P::LOG_WIDTH {
				let rep = w >> lb;
				for idx in 0..rep {
					expect(r, a.spread(lb, idx), &|l| v[(idx << lb) + l / rep], &|| format!("{name}: spread({lb},{idx})"))?;
				}
			}
		}
		r.obs(&w);
		Ok(())
	});
	ck.case("get-set", || name.to_string(), |r| {
		let v = &pats[pats.len() - 1];
		let x = [<P::Scalar as Sc>::of(<P::Scalar as Sc>::mask()), P::Scalar::ZERO, v[0]];
		for (pi, pat) in [&pats[pats.len() - 1], &pats[0], &pats[pats.len() - 2]].into_iter().enumerate() {
			if w > 1024 && pi > 0 {
				break;
			}
			let a = P::from_fn(|i| pat[i]);
			expect(r, a, &|l| pat[l], &|| format!("{name}: from_fn"))?;
			r.eq(&a.iter().collect::<Vec<_>>(), &pat[..w].to_vec(), || format!("{name}: iter"))?;
			r.eq(&PackedField::into_iter(a).collect::<Vec<_>>(), &pat[..w].to_vec(), || format!("{name}: into_iter"))?;
			for skip in [1, w / 2, w - 1, w] {
				r.eq(&a.iter().skip(skip).next(), &pat[..w].get(skip).copied(), || format!("{name}: iter().skip({skip})"))?;
				r.eq(&PackedField::into_iter(a).skip(skip).count(), &(w - skip.min(w)), || format!("{name}: into_iter().skip({skip})"))?;
			}
			for i in 0..w {
				for y in if w > 256 { &x[i % 2..i % 2 + 1] } else { &x[..] } {
					let y = *y;
					let (mut b, mut c) = (a, a);
					b.set(i, y);
					r.ok(c.set_checked(i, y).is_ok() && b == c, || format!("{name}: set_checked({i})"))?;
					expect(r, b, &|l| if l == i { y } else { pat[l] }, &|| format!("{name}: set({i},{y:?})"))?;
				}
				r.eq(&a.get_checked(i).ok(), &Some(pat[i]), || format!("{name}: get_checked({i})"))?;
			}
			let mut b = a;
			r.ok(a.get_checked(w).is_err() && b.set_checked(w, x[0]).is_err() && b == a, || format!("{name}: index {w} is accepted"))?;
			// construction from fewer or more scalars
			for m in [0, 1, w / 2, w - 1, w, w + 1] {
				let src: Vec<_> = (0..m).map(|i| pat[i]).collect();
				expect(r, P::from_scalars(src.iter().copied()), &|l| if l < m { pat[l] } else { P::Scalar::ZERO }, &|| format!("{name}: from_scalars of {m}"))?;
			}
			for off in 0..3 {
				let p: P = packed_from_fn_with_offset(off, |i| pat[(i * 7) % w]);
				expect(r, p, &|l| pat[((off * w + l) * 7) % w], &|| format!("{name}: packed_from_fn_with_offset {off}"))?;
			}
			let t: Result<P, usize> = P::try_from_fn(|i| if i + 1 == w { Err(i) } else { Ok(pat[i]) });
			r.eq(&t.err(), &Some(w - 1), || format!("{name}: try_from_fn error"))?;
			let t: Result<P, usize> = P::try_from_fn(|i| Ok(pat[i]));
			r.ok(t == Ok(a), || format!("{name}: try_from_fn"))?;
		}
		r.obs(&w);
		Ok(())
	});
	ck.case("slices", || name.to_string(), |r| {
		let nw = 3;
		let g = |x: u64| <P::Scalar as Sc>::of(mix128(x) & <P::Scalar as Sc>::mask());
		let v: Vec<P::Scalar> = (0..nw * w).map(|i| g(i as u64)).collect();
		let y = |i: usize| v[i] + P::Scalar::ONE;
		// every number of scalars, with a partial last word
		let step = (w / 16).max(1);
		let sizes: Vec<usize> = (0..=nw * w).filter(|n| n % step == 0 || n % w <= 1 || n % w + 1 == w).collect();
		for n in sizes {
			let full = n.div_ceil(w);
			let p: Vec<P> = pack_slice(&v[..n]);
			r.eq(&p.len(), &full, || format!("{name}: pack_slice of {n} scalars, words"))?;
			for (k, p) in p.iter().enumerate() {
				expect(r, *p, &|l| if k * w + l < n { v[k * w + l] } else { P::Scalar::ZERO }, &|| format!("{name}: pack_slice of {n} scalars, word {k}"))?;
			}
			// copying into a larger buffer overwrites exactly the first n scalars
			let mut d: Vec<P> = pack_slice(&(0..nw * w).map(y).collect::<Vec<_>>());
			copy_packed_from_scalars_slice(&v[..n], &mut d);
			for (k, p) in d.iter().enumerate() {
				expect(r, *p, &|l| if k * w + l < n { v[k * w + l] } else { y(k * w + l) }, &|| format!("{name}: copy of {n} scalars into {nw} words, word {k}"))?;
			}
			if n > 0 {
				let ps = PackedSlice::new_with_len(&d, n);
				r.eq(&(0..n).map(|i| ps.get(i)).collect::<Vec<_>>(), &v[..n].to_vec(), || format!("{name}: PackedSlice of length {n}"))?;
				r.eq(&ps.len(), &n, || format!("{name}: PackedSlice length"))?;
			}
		}
		let p: Vec<P> = pack_slice(&v);
		r.eq(&len_packed_slice(&p), &(nw * w), || format!("{name}: len_packed_slice"))?;
		r.eq(&P::iter_slice(&p).collect::<Vec<_>>(), &v, || format!("{name}: iter_slice"))?;
		for off in 0..=nw * w + 1 {
			if w <= 64 || off % (1 + w / 32) == 0 || off % w < 2 {
				let want = v.get(off..).unwrap_or(&[]).to_vec();
				r.eq(&iter_packed_slice_with_offset(&p, off).collect::<Vec<_>>(), &want, || format!("{name}: iteration from offset {off}"))?;
			}
		}
		for i in 0..nw * w {
			r.eq(&get_packed_slice(&p, i), &v[i], || format!("{name}: get_packed_slice({i})"))?;
			r.eq(&get_packed_slice_checked(&p, i).ok(), &Some(v[i]), || format!("{name}: get_packed_slice_checked({i})"))?;
			if w <= 64 || i % (1 + w / 64) == 0 || i % w < 2 {
				let (mut q, mut q2, mut q3) = (p.clone(), p.clone(), p.clone());
				set_packed_slice(&mut q, i, y(i));
				r.ok(set_packed_slice_checked(&mut q2, i, y(i)).is_ok() && q2 == q, || format!("{name}: set_packed_slice_checked({i})"))?;
				PackedSliceMut::new(&mut q3).set(i, y(i));
				r.ok(q3 == q, || format!("{name}: PackedSliceMut::set({i})"))?;
				for (k, p) in q.iter().enumerate() {
					expect(r, *p, &|l| if k * w + l == i { y(i) } else { v[k * w + l] }, &|| format!("{name}: set_packed_slice({i}), word {k}"))?;
				}
			}
		}
		let mut q = p.clone();
		r.ok(get_packed_slice_checked(&p, nw * w).is_err() && set_packed_slice_checked(&mut q, nw * w, v[0]).is_err() && q == p, || format!("{name}: slice index past the end is accepted"))?;
		r.obs(&w);
		Ok(())
	});
}

