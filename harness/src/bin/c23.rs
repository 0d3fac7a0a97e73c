//! C23: altered proofs are rejected without panicking, under the real challenger and under fixed coins.
use binius_core::fiat_shamir::Challenger;
use binius_hash::groestl::Groestl256;
use vharness::{Ck, check, coins::FixedCoins, e2e::*, families::*, refs::*};

fn main() {
	check("C23", run)
}
fn tamper<Ch: Challenger + Default>(ck: &Ck, coin: &str, s: &Spec, inst: &Inst, rate: usize, sec: usize, masks: &[u8], stride: usize) {
	let sys = build(s).unwrap();
	let cols = s.expand(&inst.sizes, &inst.com);
	let name = format!("{} {coin} rate {rate} security {sec}", s.name);
	let p = match quiet(|| u128b::prove::<Ch>(s, &sys, inst, &cols, rate, sec)) {
		Ok(p) => p,
		Err(e) => return ck.case("honest", || name.clone(), |_| Err(format!("prove: {e}"))),
	};
	let dg = sys.cs.digest::<Groestl256>();
	let bds = boundaries(&inst.bds);
	ck.case("honest", || name.clone(), |r| {
		r.step(1);
		verify::<Ch>(&sys.cs, &dg, &bds, p.clone(), rate, sec)
	});
	let rej = |space: &str, what: String, q: Vec<u8>| {
		ck.case(space, || format!("{name}: {what}"), |r| {
			let v = verify::<Ch>(&sys.cs, &dg, &bds, q, rate, sec);
			r.obs_dbg(&v);
			r.ok(v.is_err(), || format!("altered proof accepted ({what} of {} bytes)", p.len()))
		})
	};
	let wstride = 16 * stride.min(16);
	let pos: Vec<usize> = (0..p.len()).filter(|i| *i < 64 || i % stride == 0 || p.len() - i < 64).collect();
	ck.par(&pos, |&i| {
		for &m in masks {
			let mut q = p.clone();
			q[i] ^= m;
			rej("altered byte", format!("byte {i} ^ {m:#x}"), q);
		}
	});
	ck.par(&pos, |&i| {
		if i % stride.max(4) < 2 {
			rej("truncated", format!("cut at {i}"), p[..i].to_vec());
		}
		for w in [8usize, 16, 32] {
			if i % wstride == 0 && i + w <= p.len() {
				for fill in [0u8, 0xff] {
					let mut q = p.clone();
					q[i..i + w].fill(fill);
					if q != p {
						rej("overwritten window", format!("bytes {i}..{} = {fill:#x}", i + w), q);
					}
				}
			}
			if i % wstride == 0 && i + 2 * w <= p.len() {
				let mut q = p.clone();
				for k in 0..w {
					q.swap(i + k, i + w + k);
				}
				if q != p {
					rej("swapped windows", format!("{w} bytes at {i}"), q);
				}
			}
			// drop or duplicate a window
			if i % wstride == 0 && i + w <= p.len() {
				let mut q = p.clone();
				q.drain(i..i + w);
				rej("dropped window", format!("{w} bytes at {i}"), q);
				let mut q = p[..i + w].to_vec();
				q.extend_from_slice(&p[i..]);
				rej("duplicated window", format!("{w} bytes at {i}"), q);
			}
		}
	});
	for n in 1..=40usize {
		for b in [0u8, 1, 0xff] {
			let mut q = p.clone();
			q.extend(std::iter::repeat_n(b, n));
			rej("extended", format!("{n} bytes {b}"), q);
		}
	}
	// hostile table sizes: every power of two and neighbours in each of the leading 4-byte sizes
	for t in 0..s.tables.len() {
		for sh in 0..32u32 {
			for d in [-1i64, 0, 1] {
				let v = (1u32 << sh).wrapping_add(d as u32);
				let mut q = p.clone();
				q[4 * t..4 * t + 4].copy_from_slice(&v.to_le_bytes());
				if q != p {
					rej("table size", format!("table {t} has {v} rows"), q);
				}
			}
		}
	}
	if coin == "hash" {
		for i in 0..32 {
			ck.case("altered digest", || format!("{name} byte {i}"), |r| {
				let mut d = dg;
				d[i] ^= 1;
				let v = verify::<Ch>(&sys.cs, &d, &bds, p.clone(), rate, sec);
				r.obs_dbg(&v);
				r.ok(v.is_err(), || "accepted under another constraint-system digest".into())
			});
		}
		ck.case("statement boundaries", || name.clone(), |r| {
			for i in 0..bds.len() {
				let mut b = bds.clone();
				b.remove(i);
				let v = verify::<Ch>(&sys.cs, &dg, &b, p.clone(), rate, sec);
				r.ok(v.is_err(), || format!("accepted without boundary {i}"))?;
				// reordered boundaries are a different statement for the transcript
				if i > 0 && bds[i] != bds[i - 1] {
					let mut b = bds.clone();
					b.swap(i, i - 1);
					let v = verify::<Ch>(&sys.cs, &dg, &b, p.clone(), rate, sec);
					r.ok(v.is_err(), || format!("accepted with boundaries {i} and {} exchanged", i - 1))?;
				}
			}
			Ok(())
		});
		for r2 in 1..4 {
			if r2 != rate {
				ck.case("other parameters", || format!("{name} rate {r2}"), |r| {
					let v = verify::<Ch>(&sys.cs, &dg, &bds, p.clone(), r2, sec);
					r.obs_dbg(&v);
					r.ok(v.is_err(), || "accepted at another rate".into())
				});
			}
		}
	}
}
fn run(ck: &Ck) {
	let masks = ck.pick(&[0x41u8][..], &[1, 2, 4, 8, 16, 32, 64, 128, 255][..]);
	for (n0, n1, rate, sec) in [(3, 5, 1, 5), (4, 1, 1, 10), (9, 17, 2, 9)] {
		let (s, i) = rich(n0, n1);
		tamper::<FixedCoins>(ck, "fixed", &s, &i, rate, sec, masks, ck.pick([1, 7, 23][(n0 / 4).min(2)], 1));
		tamper::<Hch>(ck, "hash", &s, &i, rate, sec, &[1], ck.pick(41, 3));
	}
	// one system per kind of column, constraint and channel use
	let keep = |f| ballast(f, 2);
	let mut fams = keep(virt_fams(&[4]));
	fams = fams.into_iter().filter(|f| f.spec.name.contains("Any") || f.spec.name.starts_with("source")).collect();
	fams.extend(keep(constraint_fams(&[4])).into_iter().step_by(3));
	fams.extend(keep(exp_fams(&[4])).into_iter().step_by(3));
	fams.extend(keep(flush_fams(3)));
	for f in fams.iter().step_by(ck.pick(9, 3)) {
		// a table size nobody depends on may legitimately change: use systems whose sizes are pinned
		let mut s = f.spec.clone();
		let Some(inst) = f.good.iter().filter(|i| i.sizes.iter().all(|n| n.is_power_of_two())).last() else { continue };
		for (t, n) in inst.sizes.iter().enumerate() {
			s.tables[t] = Size::Fixed(log2_ceil(*n));
		}
		tamper::<FixedCoins>(ck, "fixed", &s, inst, 1, 4, &[1], ck.pick(2, 1));
	}
	ck.bound("every byte position of every proof (every third under the hash challenger in the quick tier)");
}
