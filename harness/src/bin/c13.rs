//! C13: univariate interpolation, subspaces, matrices, piecewise multilinears against their defining equations.
use binius_field::*;
use binius_math::{
	BinarySubspace, DefaultEvaluationDomainFactory, Error, EvaluationDomain, EvaluationDomainFactory, InterpolationDomain, IsomorphicEvaluationDomainFactory, Matrix,
	evaluate_piecewise_multilinear, evaluate_univariate, extrapolate_line, extrapolate_line_scalar, extrapolate_lines,
};
use vharness::*;

fn all<F: BinaryField>(bits: usize) -> Vec<F> {
	(0..1usize << bits).map(|i| (0..bits).filter(|b| i >> b & 1 == 1).map(|b| <F as ExtensionField<BinaryField1b>>::basis(b)).sum()).collect()
}
fn el<F: BinaryField>(i: usize, salt: u64) -> F {
	let v = mix128(i as u64 * 7919 + salt * 104729 + 11);
	(0..F::N_BITS).filter(|b| v >> b & 1 == 1).map(|b| <F as ExtensionField<BinaryField1b>>::basis(b)).sum()
}
fn pw<F: Field>(x: F, e: usize) -> F {
	(0..e).fold(F::ONE, |a, _| a * x)
}
fn at<F: Field>(coeffs: &[F], x: F) -> F {
	coeffs.iter().enumerate().map(|(i, &c)| c * pw(x, i)).sum()
}

/// one domain: every monomial (hence by linearity every polynomial) and a dense polynomial, at every x given
fn domain<F, FE, PE>(r: &mut Run, pts: &[F], inf: bool, xs: &[FE]) -> R
where
	F: BinaryField,
	FE: BinaryField + ExtensionField<F>,
	PE: PackedField<Scalar = FE> + PackedExtension<F>,
{
	let size = pts.len() + inf as usize;
	let d = EvaluationDomain::from_points(pts.to_vec(), inf).map_err(|e| format!("from_points: {e}"))?;
	r.eq(&d.size(), &size, || "size".into())?;
	r.eq(&d.finite_points().to_vec(), &pts.to_vec(), || "points".into())?;
	let idom = InterpolationDomain::from(d.clone());
	for m in 0..=size {
		let mut co = vec![FE::ZERO; size];
		if m < size {
			co[m] = FE::ONE;
		} else {
			co = (0..size).map(|i| el(i, 21)).collect();
		}
		let mut vals: Vec<FE> = pts.iter().map(|&p| at(&co, p.into())).collect();
		if inf {
			vals.push(co[size - 1]);
		}
		r.eq(&idom.interpolate(&vals).map_err(|e| e.to_string())?, &co, || format!("interpolate, degree {m}"))?;
		for &x in xs {
			let want = at(&co, x);
			r.eq(&d.extrapolate::<FE>(&vals, x).map_err(|e| e.to_string())?, &want, || format!("extrapolate to {x:?}, degree {m}"))?;
			if !inf {
				let l = d.lagrange_evals(x);
				let s: FE = l.iter().zip(&vals).map(|(&a, &b)| a * b).sum();
				r.eq(&s, &want, || format!("lagrange_evals at {x:?}, degree {m}"))?;
			}
			r.eq(&evaluate_univariate(&co, x), &want, || "evaluate_univariate".into())?;
		}
		// packed: lane l carries the polynomial scaled by a lane constant
		let x = xs[xs.len() / 2];
		let pv: Vec<PE> = vals.iter().map(|&v| PE::from_fn(|l| v * el::<FE>(l, 66))).collect();
		let want = PE::from_fn(|l| at(&co, x) * el::<FE>(l, 66));
		r.eq(&d.extrapolate(&pv, x).map_err(|e| e.to_string())?, &want, || "packed extrapolate".into())?;
		r.eq(&idom.extrapolate(&pv, x).map_err(|e| e.to_string())?, &want, || "packed extrapolate of an interpolation domain".into())?;
	}
	r.ok(d.extrapolate::<FE>(&vec![FE::ONE; size + 1], xs[0]).is_err() && (size == 0 || d.extrapolate::<FE>(&vec![FE::ONE; size - 1], xs[0]).is_err()), || "wrong number of values accepted".into())?;
	r.ok(idom.interpolate(&vec![FE::ONE; size + 1]).is_err(), || "interpolate accepted too many values".into())
}

fn univariate(ck: &Ck) {
	// every ordered tuple of up to three points of GF(16), including repeated ones, with and without infinity, at every point of GF(16)
	let g: Vec<BinaryField4b> = all(4);
	let maxk = ck.pick(3, 4);
	let mut jobs = vec![];
	for k in 1..=maxk {
		for c in 0..16usize.pow(k as u32) {
			jobs.push((k, c));
		}
	}
	let xs8: Vec<BinaryField4b> = g.clone();
	ck.par(&jobs, |&(k, c)| {
		let pts: Vec<BinaryField4b> = (0..k).map(|i| g[c >> (4 * i) & 15]).collect();
		let distinct = (0..k).all(|i| (0..i).all(|j| pts[i] != pts[j]));
		ck.case("domains over GF(16)", || format!("{pts:?}"), |r| {
			for inf in [false, true] {
				if distinct {
					domain::<_, BinaryField4b, PackedBinaryField4x4b>(r, &pts, inf, &xs8)?;
				} else {
					r.ok(EvaluationDomain::from_points(pts.clone(), inf).is_err(), || "a domain with a repeated point was accepted".into())?;
				}
			}
			r.obs_dbg(&pts);
			Ok(())
		});
	});
	let xs: Vec<BinaryField128b> = (0..6).map(|i| el(i, 8)).chain(all::<BinaryField128b>(3)).collect();
	for size in 1..=ck.pick(18, 40) {
		ck.case("default domains", || format!("size {size}"), |r| {
			let d = DefaultEvaluationDomainFactory::<BinaryField8b>::default().create(size).map_err(|e| e.to_string())?;
			let inf = size >= 3;
			let want: Vec<BinaryField8b> = all::<BinaryField8b>(8)[..size - inf as usize].to_vec();
			r.eq(&d.with_infinity(), &inf, || "infinity point".into())?;
			r.eq(&d.finite_points().to_vec(), &want, || "points are a lexicographic prefix".into())?;
			domain::<_, BinaryField128b, PackedBinaryField4x128b>(r, &want, inf, &xs)?;
			let iso: EvaluationDomain<BinaryField128bPolyval> = IsomorphicEvaluationDomainFactory::<BinaryField128b>::default().create(size).map_err(|e| e.to_string())?;
			let wi: Vec<BinaryField128bPolyval> = want.iter().map(|&x| BinaryField128bPolyval::from(BinaryField128b::from(x))).collect();
			r.eq(&iso.with_infinity(), &inf, || "isomorphic infinity point".into())?;
			r.eq(&iso.finite_points().to_vec(), &wi, || "isomorphic points".into())?;
			Ok(())
		});
	}
	ck.case("default domains", || "too large".into(), |r| {
		r.ok(DefaultEvaluationDomainFactory::<BinaryField8b>::default().create(257).is_ok(), || "257 points with infinity exist".into())?;
		r.ok(DefaultEvaluationDomainFactory::<BinaryField8b>::default().create(258).is_err(), || "258 points of GF(256) accepted".into())
	});
	ck.case("lines", || "all of GF(16)".into(), |r| {
		for &a in &g {
			for &b in &g {
				for &z in &g {
					let want = a * (BinaryField4b::ONE - z) + b * z;
					r.eq(&extrapolate_line_scalar(a, b, z), &want, || format!("{a},{b} at {z}"))?;
					let (x0, x1) = (PackedBinaryField4x4b::broadcast(a), PackedBinaryField4x4b::broadcast(b));
					r.eq(&extrapolate_line(x0, x1, z), &PackedBinaryField4x4b::broadcast(want), || "packed line".into())?;
					r.eq(&extrapolate_lines(x0, x1, PackedBinaryField4x4b::broadcast(z)), &PackedBinaryField4x4b::broadcast(want), || "packed lines".into())?;
				}
			}
		}
		Ok(())
	});
	for i in 0..16 {
		ck.case("lines", || format!("128b by 8b, sample point {i}"), |r| {
			let p = |s| PackedBinaryField4x128b::from_fn(|l| el(l + 4 * i, s));
			let (x0, x1, z) = (p(1), p(2), el::<BinaryField8b>(i, 3));
			let got = extrapolate_line(x0, x1, z);
			for l in 0..4 {
				r.eq(&got.get(l), &(x0.get(l) + (x1.get(l) - x0.get(l)) * BinaryField128b::from(z)), || format!("lane {l}"))?;
			}
			Ok(())
		});
	}
}

fn subspaces(ck: &Ck) {
	fn space<F: BinaryField>(r: &mut Run, s: &BinarySubspace<F>, basis: &[F]) -> R {
		let n = basis.len();
		r.eq(&s.dim(), &n, || "dimension".into())?;
		r.eq(&s.basis().to_vec(), &basis.to_vec(), || "basis".into())?;
		let want: Vec<F> = (0..1usize << n).map(|i| (0..n).filter(|b| i >> b & 1 == 1).map(|b| basis[b]).sum()).collect();
		r.eq(&s.iter().collect::<Vec<_>>(), &want, || "iteration".into())?;
		for i in 0..1usize << n {
			r.eq(&s.get(i), &want[i], || format!("get {i}"))?;
			r.eq(&s.get_checked(i).map_err(|e| e.to_string())?, &want[i], || format!("get_checked {i}"))?;
			r.eq(&s.iter().nth(i), &Some(want[i]), || format!("nth {i}"))?;
			r.eq(&s.iter().skip(i).next(), &Some(want[i]), || format!("skip {i}"))?;
			r.eq(&s.iter().step_by(i + 1).collect::<Vec<_>>(), &want.iter().copied().step_by(i + 1).collect::<Vec<_>>(), || format!("step {}", i + 1))?;
		}
		r.ok(s.iter().nth(1 << n).is_none(), || "iterator past the end".into())?;
		r.ok(s.get_checked(1 << n).is_err(), || "get_checked past the end".into())?;
		for d in 0..=n {
			let t = s.reduce_dim(d).map_err(|e| e.to_string())?;
			r.eq(&t.basis().to_vec(), &basis[..d].to_vec(), || "reduce_dim".into())?;
		}
		r.ok(s.reduce_dim(n + 1).is_err(), || "reduce_dim grew the space".into())?;
		let iso: BinarySubspace<F> = s.isomorphic();
		r.eq(&iso.basis().to_vec(), &basis.to_vec(), || "isomorphic".into())
	}
	for n in 0..=8 {
		ck.case("subspaces", || format!("default basis, dimension {n}"), |r| {
			let b: Vec<BinaryField8b> = (0..n).map(|i| <BinaryField8b as ExtensionField<BinaryField1b>>::basis(i)).collect();
			space(r, &BinarySubspace::with_dim(n).map_err(|e| e.to_string())?, &b)?;
			let b: Vec<BinaryField128b> = (0..n).map(|i| <BinaryField128b as ExtensionField<BinaryField1b>>::basis(i)).collect();
			space(r, &BinarySubspace::with_dim(n).map_err(|e| e.to_string())?, &b)?;
			let b: Vec<AESTowerField8b> = (0..n).map(|i| <AESTowerField8b as ExtensionField<BinaryField1b>>::basis(i)).collect();
			space(r, &BinarySubspace::with_dim(n).map_err(|e| e.to_string())?, &b)
		});
	}
	ck.case("subspaces", || "too large".into(), |r| {
		r.ok(BinarySubspace::<BinaryField8b>::with_dim(9).is_err(), || "dimension 9 inside GF(2^8)".into())?;
		r.eq(&BinarySubspace::<BinaryField8b>::default().dim(), &8, || "default dimension".into())?;
		r.eq(&BinarySubspace::<BinaryField128b>::default().dim(), &128, || "default dimension".into())?;
		let s = BinarySubspace::<BinaryField128b>::default();
		r.eq(&s.iter().nth(5000), &Some(s.get(5000)), || "large space".into())
	});
	// every ordered basis of up to 3 elements of GF(16)
	let g: Vec<BinaryField4b> = all(4);
	for k in 1..=3usize {
		for c in 0..16usize.pow(k as u32) {
			let b: Vec<BinaryField4b> = (0..k).map(|i| g[c >> (4 * i) & 15]).collect();
			let indep = (1..1usize << k).all(|m| (0..k).filter(|i| m >> i & 1 == 1).map(|i| b[i]).sum::<BinaryField4b>() != BinaryField4b::ZERO);
			if indep {
				ck.case("subspaces", || format!("{b:?}"), |r| space(r, &BinarySubspace::new_unchecked(b.clone()), &b));
			}
		}
	}
}

fn matrices<F: BinaryField>(ck: &Ck, name: &str, bits: usize, n: usize) {
	let g: Vec<F> = all(bits);
	let cells = n * n;
	let total = 1usize << (bits * cells);
	let jobs: Vec<usize> = (0..total.min(256)).collect();
	ck.par(&jobs, |&j| {
		for c in (j..total).step_by(jobs.len()) {
			let e: Vec<F> = (0..cells).map(|i| g[c >> (bits * i) & ((1 << bits) - 1)]).collect();
			ck.case("matrices", || format!("{name} {n}x{n} {e:?}"), |r| {
				let m = Matrix::new(n, n, &e).map_err(|e| e.to_string())?;
				// determinant by permutation expansion (characteristic two: no signs)
				let mut det = F::ZERO;
				perms(n, &mut (0..n).collect::<Vec<_>>(), 0, &mut |p| det += (0..n).map(|i| e[i * n + p[i]]).product::<F>());
				let mut inv = Matrix::zeros(n, n);
				match m.inverse_into(&mut inv) {
					Ok(()) => {
						r.ok(det != F::ZERO, || "a singular matrix was inverted".into())?;
						for (a, b) in [(&m, &inv), (&inv, &m)] {
							let mut p = Matrix::zeros(n, n);
							Matrix::mul_into(a, b, &mut p);
							r.eq(&p, &Matrix::identity(n), || "product with the inverse".into())?;
						}
					}
					Err(Error::MatrixIsSingular) => r.ok(det == F::ZERO, || "a regular matrix was called singular".into())?,
					Err(e) => return Err(e.to_string()),
				}
				r.obs_dbg(&det);
				Ok(())
			});
		}
	});
}
fn perms(n: usize, p: &mut Vec<usize>, k: usize, f: &mut impl FnMut(&[usize])) {
	if k == n {
		return f(p);
	}
	for i in k..n {
		p.swap(k, i);
		perms(n, p, k + 1, f);
		p.swap(k, i);
	}
}
fn products(ck: &Ck) {
	for m in 1..=4usize {
		for k in 1..=4usize {
			for n in 1..=4usize {
				ck.case("matrix products", || format!("{m}x{k}x{n}"), |r| {
					let a: Vec<BinaryField8b> = (0..m * k).map(|i| el(i, 1)).collect();
					let b: Vec<BinaryField8b> = (0..k * n).map(|i| el(i, 2)).collect();
					let (ma, mb) = (Matrix::new(m, k, &a).unwrap(), Matrix::new(k, n, &b).unwrap());
					r.eq(&ma.dim(), &(m, k), || "dim".into())?;
					let mut c = Matrix::zeros(m, n);
					Matrix::mul_into(&ma, &mb, &mut c);
					for i in 0..m {
						for j in 0..n {
							r.eq(&c[(i, j)], &(0..k).map(|t| a[i * k + t] * b[t * n + j]).sum::<BinaryField8b>(), || format!("entry {i},{j}"))?;
						}
					}
					let x: Vec<BinaryField128b> = (0..k).map(|i| el(i, 3)).collect();
					let mut y = vec![BinaryField128b::ONE; m];
					ma.mul_vec_into(&x, &mut y);
					let want: Vec<BinaryField128b> = (0..m).map(|i| (0..k).map(|t| x[t] * BinaryField128b::from(a[i * k + t])).sum()).collect();
					r.eq(&y, &want, || "matrix times vector".into())?;
					r.ok(Matrix::new(m, k, &a[1..]).is_err(), || "wrong element count accepted".into())?;
					if m != k {
						r.ok(matches!(ma.inverse_into(&mut Matrix::zeros(m, k)), Err(Error::MatrixNotSquare)), || "a rectangular matrix was inverted".into())?;
					}
					let mut z = Matrix::zeros(m, k);
					z.copy_from(&ma);
					r.eq(&z, &ma, || "copy_from".into())
				});
			}
		}
	}
}

fn piecewise(ck: &Ck) {
	type F = BinaryField32b;
	let maxn = ck.pick(5, 6);
	// every multiset of piece sizes that fits
	fn layouts(n: usize, room: usize) -> Vec<Vec<usize>> {
		// counts indexed by n_vars, 0..=n
		if n == 0 {
			return (0..=room).map(|c| vec![c]).collect();
		}
		let mut v = vec![];
		for c in 0..=room >> n {
			for mut rest in layouts(n - 1, room - (c << n)) {
				rest.push(c);
				v.push(rest);
			}
		}
		v
	}
	for n in 0..=maxn {
		let room = 1usize << n;
		let ls = layouts(n, room);
		let ls: Vec<_> = if n >= 5 { ls.into_iter().filter(|l| l.iter().sum::<usize>() <= ck.pick(8, 11)).collect() } else { ls };
		ck.par(&ls, |l| {
			ck.case("piecewise multilinears", || format!("n={n} pieces by variables {l:?}"), |r| {
				for (pi, point) in [(0..n).map(|i| el::<F>(i, 4)).collect::<Vec<_>>(), (0..n).map(|i| if i % 2 == 0 { F::ONE } else { el(i, 5) }).collect(), (0..n).map(|i| if i % 2 == 1 { F::ONE } else { F::ZERO }).collect()].into_iter().enumerate() {
					let mle = |ev: &[F], pt: &[F]| -> F { ev.iter().enumerate().map(|(i, &e)| e * (0..pt.len()).map(|k| if i >> k & 1 == 1 { pt[k] } else { F::ONE - pt[k] }).product::<F>()).sum() };
					let (mut cat, mut evs) = (vec![], vec![]);
					for k in (0..=n).rev() {
						for _ in 0..l[k] {
							let p: Vec<F> = (0..1usize << k).map(|i| el(cat.len() + i, 9)).collect();
							evs.push(mle(&p, &point[..k]));
							cat.extend(p);
						}
					}
					cat.resize(room, F::ZERO);
					let got = evaluate_piecewise_multilinear(&point, l, &mut evs.clone()).map_err(|e| format!("refused: {e}"))?;
					r.eq(&got, &mle(&cat, &point), || format!("point {pi}"))?;
					// wrong number of piece evaluations
					let mut more = evs.clone();
					more.push(F::ONE);
					r.ok(evaluate_piecewise_multilinear(&point, l, &mut more).is_err(), || "an extra piece evaluation was accepted".into())?;
				}
				Ok(())
			});
		});
		ck.case("piecewise multilinears", || format!("n={n} too many pieces"), |r| {
			let mut l = vec![0; n + 1];
			l[n] = 1;
			l[0] += 1;
			let pt: Vec<F> = (0..n).map(|i| el(i, 4)).collect();
			r.ok(evaluate_piecewise_multilinear(&pt, &l, &mut vec![F::ONE; l.iter().sum()]).is_err(), || "pieces larger than the cube were accepted".into())
		});
	}
}

fn main() {
	let mut ck = Ck::new("C13");
	ck.bound("univariate: all ordered tuples of 1..=3 (4) points of GF(16) with and without infinity, all monomials plus one dense polynomial, all x in GF(16); default domains of 1..=18 (40) points into 128b");
	ck.bound("subspaces: all ordered bases of 1..=3 elements in GF(16), default bases up to dimension 8, every index and step");
	ck.bound("matrices: all 1x1, 2x2 over GF(16), all 3x3 over GF(4) and GF(2), all 4x4 over GF(2)");
	ck.bound("piecewise: all piece layouts inside up to 5 (6) variables (at most 8 (11) pieces from 5 variables on)");
	{
		let ck = &ck;
		univariate(ck);
		subspaces(ck);
		matrices::<BinaryField4b>(ck, "GF(16)", 4, 1);
		matrices::<BinaryField4b>(ck, "GF(16)", 4, 2);
		matrices::<BinaryField2b>(ck, "GF(4)", 2, 3);
		matrices::<BinaryField1b>(ck, "GF(2)", 1, 3);
		matrices::<BinaryField1b>(ck, "GF(2)", 1, 4);
		products(ck);
		piecewise(ck);
	}
	ck.finish();
}
