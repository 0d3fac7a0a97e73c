//! C01: scalar fields against their mathematical definition.
use binius_field::{arithmetic_traits::{InvertOrZero, Square}, *};
use fcheck::{refs::alphabet, *};
use std::ops::*;

/// Reference log/exp tables of a field with at most 2^16 elements, from the definition's product.
struct Logs {
	log: Vec<u32>,
	exp: Vec<u16>,
}
fn logs(kind: Kind, k: usize) -> Logs {
	let n = (1usize << (1 << k)) - 1;
	'g: for g in 2..=n as u128 {
		let mut log = vec![u32::MAX; n + 1];
		let mut exp = vec![0u16; 2 * n];
		let mut x = 1u128;
		for i in 0..n {
			if log[x as usize] != u32::MAX {
				continue 'g;
			}
			log[x as usize] = i as u32;
			exp[i] = x as u16;
			exp[i + n] = x as u16;
			x = kind.mul(x, g, k);
		}
		return Logs { log, exp };
	}
	panic!("no generator found in the reference field");
}

fn small<F: Sc>(ck: &Ck, name: &str) {
	// every pair of elements
	let n = 1u128 << (1 << F::K);
	ck.case("all-pairs", || name.to_string(), |r| {
		for a in 0..n {
			for b in 0..n {
				let want = F::rmul(a, b);
				r.obs(&want);
				r.eq(&(F::of(a) * F::of(b)).b(), &want, || format!("{name}: {a:#x} * {b:#x}"))?;
				r.eq(&(F::of(a) + F::of(b)).b(), &(a ^ b), || format!("{name}: {a:#x} + {b:#x}"))?;
				r.eq(&(F::of(a) - F::of(b)).b(), &(a ^ b), || format!("{name}: {a:#x} - {b:#x}"))?;
			}
		}
		Ok(())
	});
}
fn all16<F: Sc>(ck: &Ck, name: &str) {
	let l = logs(F::KIND, 4);
	let rows: Vec<u32> = (0..256).collect();
	ck.par(&rows, |&hi| {
		ck.case("all-pairs-16", || format!("{name}/{hi:#x}00.."), |r| {
			for a in (hi << 8)..((hi + 1) << 8) {
				let fa = F::of(a as u128);
				let la = if a == 0 { 0 } else { l.log[a as usize] };
				for b in 0..65536u32 {
					let want = if a == 0 || b == 0 { 0 } else { l.exp[(la + l.log[b as usize]) as usize] as u128 };
					let got = (fa * F::of(b as u128)).b();
					if got != want {
						return Err(format!("{name}: {a:#x} * {b:#x} = {got:#x}, reference {want:#x}"));
					}
				}
				r.step(65536);
			}
			r.obs(&hi);
			Ok(())
		})
	});
}
/// Operands for large fields: every bit, and every element whose two halves come from a small alphabet.
fn operands<F: Sc>(dense: usize) -> Vec<u128> {
	let mut v = alphabet(F::K, dense);
	let half = 1usize << (F::K - 1);
	let hm = (1u128 << half) - 1;
	let h = [0, 1, 1u128 << (half / 2), hm, mix128(7) & hm, mix128(8) & hm];
	for a in h {
		for b in h {
			v.push(a | b << half);
		}
	}
	let q = half / 2;
	if q >= 1 {
		let qm = (1u128 << q) - 1;
		for p in 0..81usize {
			let mut x = 0;
			let mut pp = p;
			for j in 0..4 {
				x |= ([0, 1, mix128(9) & qm][pp % 3]) << (j * q);
				pp /= 3;
			}
			v.push(x);
		}
	}
	v.sort_unstable();
	v.dedup();
	v
}
fn large<F: Sc>(ck: &Ck, name: &str) {
	let bits = 1usize << F::K;
	let is: Vec<usize> = (0..bits).collect();
	ck.par(&is, |&i| {
		ck.case("basis-pairs", || format!("{name}/bit{i}"), |r| {
			for j in 0..bits {
				let (a, b) = (1u128 << i, 1u128 << j);
				let want = F::rmul(a, b);
				r.obs(&want);
				r.eq(&(F::of(a) * F::of(b)).b(), &want, || format!("{name}: {a:#x} * {b:#x}"))?;
			}
			Ok(())
		});
	});
	let ops = operands::<F>(ck.pick(24, 96));
	ck.par(&ops, |&a| {
		ck.case("structured-pairs", || format!("{name}/{a:#x}"), |r| {
			for &b in &ops {
				let want = F::rmul(a, b);
				r.obs(&want);
				r.eq(&(F::of(a) * F::of(b)).b(), &want, || format!("{name}: {a:#x} * {b:#x}"))?;
				r.eq(&(F::of(a) + F::of(b)).b(), &(a ^ b), || format!("{name}: {a:#x} + {b:#x}"))?;
			}
			Ok(())
		});
	});
}
fn unary<F: Sc>(ck: &Ck, name: &str) {
	let mut vals: Vec<u128> = if F::K <= 4 {
		(0..1u128 << (1 << F::K)).collect()
	} else {
		let mut v = operands::<F>(48);
		v.extend((0..1usize << F::K).map(|i| 1u128 << i));
		// every element of the subfields of up to 2^16 elements, in the low, second and top coordinate
		for x in 0..65536u128 {
			v.push(x);
			if x < 256 || x % 17 == 3 {
				v.push(x << 16);
				v.push((x << ((1 << F::K) - 16)) | 5);
			}
		}
		if F::KIND == Kind::Polyval {
			v.truncate(4000);
			v.extend((0..128).map(|i| 1u128 << i));
			v.extend(operands::<F>(48));
		}
		v
	};
	vals.sort_unstable();
	vals.dedup();
	let one = F::KIND.one();
	let chunks: Vec<&[u128]> = vals.chunks(512).collect();
	ck.par(&chunks, |ch| {
		ck.case("unary", || format!("{name}/{:#x}..", ch[0]), |r| {
			for &a in *ch {
				let f = F::of(a);
				let sq = F::rmul(a, a);
				r.obs(&sq);
				r.eq(&Square::square(f).b(), &sq, || format!("{name}: {a:#x} squared"))?;
				let inv = InvertOrZero::invert_or_zero(f).b();
				// the inverse is unique, so the product with the definition's multiplication decides it
				let want = if a == 0 { 0 } else { one };
				r.eq(&F::rmul(a, inv), &want, || format!("{name}: {a:#x} times its reported inverse {inv:#x}"))?;
				r.ok(a != 0 || inv == 0, || format!("{name}: inverse-or-zero of zero is {inv:#x}"))?;
				r.eq(&f.invert().map(Sc::b), &(a != 0).then_some(inv), || format!("{name}: invert({a:#x})"))?;
				r.eq(&f.double().b(), &0, || format!("{name}: double({a:#x})"))?;
				r.eq(&(-f).b(), &a, || format!("{name}: -{a:#x}"))?;
				r.eq(&f.is_zero(), &(a == 0), || format!("{name}: is_zero({a:#x})"))?;
			}
			Ok(())
		});
	});
}
fn forms<F: Sc>(ck: &Ck, name: &str) {
	let vals = alphabet(F::K, 6);
	let one = F::KIND.one();
	ck.case("operator-forms", || name.to_string(), |r| {
		r.eq(&F::ZERO.b(), &0, || format!("{name}::ZERO"))?;
		r.eq(&F::ONE.b(), &one, || format!("{name}::ONE"))?;
		r.eq(&F::CHARACTERISTIC, &2, || format!("{name} characteristic"))?;
		r.eq(&F::N_BITS, &(1 << F::K), || format!("{name} bits"))?;
		for &a in &vals {
			for &b in &vals {
				let (x, y) = (F::of(a), F::of(b));
				let (p, s) = (F::rmul(a, b), a ^ b);
				r.obs(&p);
				let mut t = x; t *= y;
				let mut u = x; u *= &y;
				r.eq(&[(x * &y).b(), t.b(), u.b()], &[p; 3], || format!("{name}: product forms of {a:#x}, {b:#x}"))?;
				let mut t = x; t += y;
				let mut u = x; u += &y;
				let mut v = x; v -= y;
				let mut w = x; w -= &y;
				r.eq(&[(x + &y).b(), (x - &y).b(), t.b(), u.b(), v.b(), w.b()], &[s; 6], || format!("{name}: sum forms of {a:#x}, {b:#x}"))?;
				for &c in &vals[..vals.len().min(8)] {
					let l = [x, y, F::of(c)];
					r.eq(&l.iter().sum::<F>().b(), &(s ^ c), || format!("{name}: sum of three"))?;
					r.eq(&l.iter().copied().sum::<F>().b(), &(s ^ c), || format!("{name}: sum of three"))?;
					let q = F::rmul(p, c);
					r.eq(&l.iter().product::<F>().b(), &q, || format!("{name}: product {a:#x} {b:#x} {c:#x}"))?;
					r.eq(&l.into_iter().product::<F>().b(), &q, || format!("{name}: product {a:#x} {b:#x} {c:#x}"))?;
				}
			}
		}
		Ok(())
	});
	ck.case("powers", || name.to_string(), |r| {
		for &a in &vals {
			let mut w = one;
			for e in 0..=ck.pick(140u64, 600) {
				r.eq(&Field::pow(&F::of(a), [e]).b(), &w, || format!("{name}: {a:#x}^{e}"))?;
				r.eq(&F::of(a).pow_vartime([e]).b(), &w, || format!("{name}: vartime {a:#x}^{e}"))?;
				w = F::rmul(w, a);
			}
			r.obs(&w);
			for b in 0..128 {
				for e in [1u128 << b, (1u128 << b) | 1, u128::MAX >> b] {
					let w = F::KIND.pow(a, e, F::K);
					let limbs = [e as u64, (e >> 64) as u64];
					r.eq(&Field::pow(&F::of(a), limbs).b(), &w, || format!("{name}: {a:#x}^{e:#x}"))?;
					r.eq(&F::of(a).pow_vartime(limbs).b(), &w, || format!("{name}: vartime {a:#x}^{e:#x}"))?;
				}
			}
		}
		Ok(())
	});
	ck.case("generator", || name.to_string(), |r| {
		let g = F::MULTIPLICATIVE_GENERATOR.b();
		let order = F::mask();
		r.eq(&F::KIND.pow(g, order, F::K), &one, || format!("{name}: generator to the group order"))?;
		for p in [3u128, 5, 17, 257, 65537, 641, 6700417, 274177, 67280421310721] {
			if order % p == 0 {
				r.ok(F::KIND.pow(g, order / p, F::K) != one, || format!("{name}: the published generator {g:#x} has order dividing (2^n-1)/{p}"))?;
			}
		}
		r.obs(&g);
		Ok(())
	});
}
fn primitive<F: Sc + TowerField>(ck: &Ck, name: &str) {
	// multiplication by the generator of each level of the tower, for all bits and the alphabet
	let mut vals = alphabet(F::K, 12);
	vals.extend((0..1usize << F::K).map(|i| 1u128 << i));
	ck.case("mul-primitive", || name.to_string(), |r| {
		for iota in 0..8 {
			for &a in &vals {
				let got = F::of(a).mul_primitive(iota);
				if iota >= F::K {
					r.ok(got.is_err(), || format!("{name}: mul_primitive({iota}) above the field is accepted"))?;
					continue;
				}
				let x = if iota < 3 && F::KIND == Kind::Aes { AESTowerField8b::from(BinaryField8b::new(1 << (1 << iota))).b() } else { 1u128 << (1 << iota) };
				let want = F::rmul(a, x);
				r.obs(&want);
				r.eq(&got.map(Sc::b).ok(), &Some(want), || format!("{name}: {a:#x} times the generator of level {iota}"))?;
			}
		}
		Ok(())
	});
}
fn mixed<S, E>(ck: &Ck, sn: &str, en: &str)
where
	S: Sc + Add<E, Output = E> + Sub<E, Output = E> + Mul<E, Output = E>,
	E: Sc + From<S> + ExtensionField<S>,
{
	let mut ss = alphabet(S::K, 6);
	if S::K <= 3 {
		ss = (0..1u128 << (1 << S::K)).collect();
	} else {
		ss.extend((0..1usize << S::K).map(|i| 1u128 << i));
	}
	let mut es = alphabet(E::K, 4);
	es.extend((0..1usize << E::K).map(|i| 1u128 << i));
	ck.case("mixed", || format!("{sn},{en}"), |r| {
		for &a in &ss {
			let s = S::of(a);
			let a = if E::KIND == Kind::Polyval { a * E::KIND.one() } else { a };
			r.eq(&E::from(s).b(), &a, || format!("{en} from {sn} {a:#x}"))?;
			for &b in &es {
				let e = E::of(b);
				let p = E::rmul(a, b);
				r.obs(&p);
				let mut t = e; t *= s;
				r.eq(&[(e * s).b(), (s * e).b(), t.b()], &[p; 3], || format!("{en} {b:#x} times {sn} {a:#x}"))?;
				let (mut t, mut u) = (e, e);
				t += s;
				u -= s;
				r.eq(&[(e + s).b(), (s + e).b(), (e - s).b(), (s - e).b(), t.b(), u.b()], &[a ^ b; 6], || format!("{en} {b:#x} plus {sn} {a:#x}"))?;
			}
		}
		Ok(())
	});
}

fn main() {
	check("C01", |ck| {
		ck.bound("every pair of elements of the fields up to 2^8; every pair of GF(2^16) (both towers) in the default build; for 2^32..2^128 every pair of basis bits and every pair of a structured alphabet (zero/one/all-ones/generator/generic halves and quarters)");
		ck.bound("unary operations: every element up to 2^16, and for larger fields every element of the 2^16-element subfield (in the lowest coordinate; a 1/17 lattice of it in other coordinates), every bit, every structured operand");
		ck.bound("powers 0..140 (600 thorough) and 384 two-limb exponents per alphabet element; the published generator against every prime factor of 2^n-1");
		ck.assume("the reference product is the recursive definition X_k^2 = X_k X_{k-1} + 1 (AES: over x^8+x^4+x^3+x+1; POLYVAL: Montgomery product modulo x^128+x^127+x^126+x^121+1)");
		let main_build = std::env::var("VERIF_FLAVOUR").is_err();
		small::<BinaryField1b>(ck, "BinaryField1b");
		small::<BinaryField2b>(ck, "BinaryField2b");
		small::<BinaryField4b>(ck, "BinaryField4b");
		small::<BinaryField8b>(ck, "BinaryField8b");
		small::<AESTowerField8b>(ck, "AESTowerField8b");
		if main_build || ck.thorough {
			all16::<BinaryField16b>(ck, "BinaryField16b");
			all16::<AESTowerField16b>(ck, "AESTowerField16b");
		}
		macro_rules! lg { ($t:ident) => { if <$t as Sc>::K >= 4 { large::<$t>(ck, stringify!($t)); } } }
		all_scalars!(lg);
		let mut jobs: Vec<Box<dyn Fn() + Sync>> = vec![];
		macro_rules! un { ($t:ident) => { jobs.push(Box::new(|| unary::<$t>(ck, stringify!($t)))); jobs.push(Box::new(|| forms::<$t>(ck, stringify!($t)))); } }
		all_scalars!(un);
		jobs.reverse();
		ck.par(&jobs, |j| j());
		macro_rules! pr { ($t:ident) => { primitive::<$t>(ck, stringify!($t)); } }
		each!(pr; BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b
			AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b);
		macro_rules! mx { ($s:ident, $e:ident) => { mixed::<$s, $e>(ck, stringify!($s), stringify!($e)); } }
		all_pairs!(mx);
		mx!(BinaryField1b, BinaryField128bPolyval);
	})
}
