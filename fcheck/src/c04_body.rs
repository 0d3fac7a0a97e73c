// included once per module of bin/c04.rs (one code generation unit each)
use super::*;

pub fn packed_pair<PE, S>(ck: &Ck, name: &str)
where
	S: Sc,
	PE: PackedExtension<S> + PackedField<Scalar: Sc + ExtensionField<S>>,
{
	let d = <PE::Scalar as ExtensionField<S>>::DEGREE;
	ck.case("packed-views", || name.into(), |r| {
		r.eq(&PE::PackedSubfield::WIDTH, &(PE::WIDTH * d), || format!("{name}: subfield width"))?;
		for seed in 0..6 {
			let p: PE = val(seed);
			let want: Vec<S> = p.iter().flat_map(|e| <PE::Scalar as ExtensionField<S>>::into_iter_bases(e).collect::<Vec<_>>()).collect();
			let lanes = |b: &PE::PackedSubfield| b.iter().collect::<Vec<_>>();
			let b = p.cast_base();
			r.eq(&lanes(&b), &want, || format!("{name}: cast_base"))?;
			r.eq(&lanes(p.cast_base_ref()), &want, || format!("{name}: cast_base_ref"))?;
			r.ok(PE::cast_ext(b) == p && *PE::cast_ext_ref(&b) == p, || format!("{name}: cast_ext"))?;
			let q: PE = val(seed + 50);
			let arr = [p, q, p];
			let ba = PE::cast_base_arr(arr);
			r.ok(ba[0] == b && ba[1] == q.cast_base() && PE::cast_ext_arr(ba) == arr, || format!("{name}: array casts"))?;
			r.ok(PE::cast_base_arr_ref(&arr) == &ba && PE::cast_ext_arr_ref(&ba) == &arr, || format!("{name}: array reference casts"))?;
			r.ok(PE::cast_bases(&arr) == &ba[..] && PE::cast_exts(&ba) == &arr[..], || format!("{name}: slice casts"))?;
			// writing through the views
			for l in 0..PE::WIDTH * d {
				let mut x = p;
				x.cast_base_mut().set(l, want[l] + S::ONE);
				let w: Vec<S> = want.iter().enumerate().map(|(i, &v)| if i == l { v + S::ONE } else { v }).collect();
				r.eq(&lanes(&x.cast_base()), &w, || format!("{name}: write of coordinate {l} through cast_base_mut"))?;
				r.eq(&x.get(l / d).b(), &(p.get(l / d).b() ^ ((S::ONE.b()) << ((l % d) << S::K))), || format!("{name}: element after writing coordinate {l}"))?;
				if l > 40 && l % 13 != 0 {
					continue;
				}
				let mut xs = [p, p];
				PE::cast_bases_mut(&mut xs)[1].set(l, want[l] + S::ONE);
				r.ok(xs[0] == p && xs[1] == x, || format!("{name}: write through cast_bases_mut"))?;
				let mut y = b;
				let z: &mut PE = PE::cast_ext_mut(&mut y);
				*z = x;
				r.ok(y == x.cast_base(), || format!("{name}: write through cast_ext_mut"))?;
			}
			for s in alphabet(S::K, 3) {
				let s = S::of(s);
				let m = mul_by_subfield_scalar(p, s);
				for i in 0..PE::WIDTH {
					r.eq(&m.get(i).b(), &<PE::Scalar as Sc>::rmul(p.get(i).b(), <PE::Scalar as From<S>>::from(s).b()), || format!("{name}: mul_by_subfield_scalar({s:?}) lane {i}"))?;
				}
			}
			// extension slice times subfield slice, both schedules
			for words in [1usize, 2, 3] {
				let lhs: Vec<PE> = (0..words * d).map(|i| val(seed + 100 + i as u64)).collect();
				let rhs: Vec<PE::PackedSubfield> = (0..words).map(|i| val::<PE>(seed + 900 + i as u64).cast_base()).collect();
				let rs: Vec<S> = rhs.iter().flat_map(|b| b.iter().collect::<Vec<_>>()).collect();
				let (mut a, mut c) = (lhs.clone(), lhs.clone());
				r.ok(ext_base_mul::<PE, S>(&mut a, &rhs).is_ok() && ext_base_mul_par::<PE, S>(&mut c, &rhs).is_ok(), || format!("{name}: ext_base_mul"))?;
				for i in 0..words * d * PE::WIDTH {
					let w = <PE::Scalar as Sc>::rmul(get_packed_slice(&lhs, i).b(), <PE::Scalar as From<S>>::from(rs[i]).b());
					r.eq(&get_packed_slice(&a, i).b(), &w, || format!("{name}: ext_base_mul element {i}"))?;
					r.eq(&get_packed_slice(&c, i).b(), &w, || format!("{name}: ext_base_mul_par element {i}"))?;
				}
				if d > 1 {
					r.ok(ext_base_mul::<PE, S>(&mut a[1..], &rhs).is_err() && ext_base_mul_par::<PE, S>(&mut c[1..], &rhs).is_err(), || format!("{name}: mismatched lengths are accepted"))?;
				}
			}
		}
		r.obs(&d);
		Ok(())
	});
}
