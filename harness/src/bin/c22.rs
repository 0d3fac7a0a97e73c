//! C22: soundness. Every enumerated violated statement is run through the real prover (which follows the protocol on
//! the false witness) and whatever it produces must be rejected.
use vharness::{Ck, R, Run, check, coins::FixedCoins, e2e::*, families::*, refs::*};

fn main() {
	check("C22", run)
}

/// Proves the false statement and offers the result to the verifier.
fn reject(r: &mut Run, s: &Spec, sys: &Sys, inst: &Inst, cols: &[Vec<u128>], fixed: bool) -> R {
	let p = if fixed {
		quiet(|| u128b::prove::<FixedCoins>(s, sys, inst, cols, 1, 20))
	} else {
		quiet(|| u128b::prove::<Hch>(s, sys, inst, cols, 1, 20))
	};
	r.step(1);
	match p {
		Err(e) => {
			r.obs(&format!("prover: {e}"));
			Ok(())
		}
		Ok(p) => {
			let v = if fixed {
				verify_inst::<FixedCoins>(sys, inst, p, 1, 20)
			} else {
				verify_inst::<Hch>(sys, inst, p, 1, 20)
			};
			r.obs_dbg(&v);
			r.ok(v.is_err(), || format!("a proof of a false statement was accepted; sizes {:?} boundaries {:?}", inst.sizes, inst.bds))
		}
	}
}
fn bad(ck: &Ck, space: &str, fams: &[Fam]) {
	let items: Vec<(&Fam, usize)> = fams.iter().flat_map(|f| (0..f.bad.len()).map(move |i| (f, i))).collect();
	ck.par(&items, |&(f, i)| {
		let inst = &f.bad[i];
		if f.spec.holds(inst) {
			return;
		}
		ck.case(space, || format!("{}#{i}", f.spec.name), |r| {
			let sys = build(&f.spec)?;
			let cols = f.spec.expand(&inst.sizes, &inst.com);
			reject(r, &f.spec, &sys, inst, &cols, i % 2 == 1)
		});
	});
}
/// The prover lies about the values of a virtual column (and adapts the committed copy to the lie).
fn lies(ck: &Ck, space: &str, fams: &[Fam]) {
	let mut items = vec![];
	for f in fams {
		let s = &f.spec;
		let cols = s.expand(&f.good[0].sizes, &f.good[0].com);
		for (c, col) in s.cols.iter().enumerate() {
			if matches!(col.k, K::Com) {
				continue;
			}
			let n = cols[c].len();
			let rows: Vec<usize> = if n <= 8 { (0..n).collect() } else { vec![0, 1, n / 2 - 1, n / 2, n - 2, n - 1] };
			for row in rows {
				for copy in [true, false] {
					items.push((f, c, row, copy));
				}
			}
		}
	}
	ck.par(&items, |&(f, c, row, copy)| {
		let s = &f.spec;
		ck.case(space, || format!("{} column {c} row {row} {}", s.name, if copy { "copied" } else { "alone" }), |r| {
			let sys = build(s)?;
			let inst = f.good[0].clone();
			let honest = s.expand(&inst.sizes, &inst.com);
			let mut cols = honest.clone();
			cols[c][row] ^= 1;
			// the committed copy follows the lie, so every constraint holds on the lied witness
			if copy {
				for z in &s.zero {
					if z.cols[0] == c {
						cols[z.cols[1]][row] ^= 1;
					}
				}
				if cols.iter().enumerate().all(|(i, v)| i == c || v == &honest[i]) {
					return Ok(());
				}
			}
			// a lie nobody looks at and that changes no committed value is not a false statement
			if !copy && s.constraints_hold(&inst.sizes, &cols) {
				return Ok(());
			}
			reject(r, s, &sys, &inst, &cols, row % 2 == 1)
		});
	});
}
/// A proof made for one statement is offered for another that is false or different.
fn other_statement(ck: &Ck) {
	for (bi, mk) in [0usize, 1, 2].into_iter().enumerate() {
		let mut s = Spec::new(format!("boundary{bi}"));
		let t = s.table(Size::Any);
		let a = s.col(t, 0, 7, K::Com);
		s.flushes.push(Fl { t, lv: 0, args: vec![Arg::O(a), Arg::K(5)], ch: mk, push: true, sel: vec![], mult: 1 });
		s.channels = 3;
		let b = |v: &[u128], push, mult| Bd { vals: v.to_vec(), ch: mk, push, mult };
		let inst = Inst {
			sizes: vec![3],
			com: vec![vec![7, 8, 8, 99]],
			bds: vec![b(&[7, 5], false, 1), b(&[8, 5], false, 2)],
		};
		assert!(s.holds(&inst));
		let mut muts: Vec<(String, Vec<Bd>)> = vec![];
		for i in 0..2 {
			let mut add = |n: &str, g: &dyn Fn(&mut Vec<Bd>)| {
				let mut x = inst.bds.clone();
				g(&mut x);
				muts.push((format!("{n}{i}"), x));
			};
			add("drop", &|x| {
				x.remove(i);
			});
			add("dup", &|x| x.push(x[i].clone()));
			add("flip", &|x| x[i].push ^= true);
			add("mult+1", &|x| x[i].mult += 1);
			add("mult0", &|x| x[i].mult = 0);
			for k in [1, 7, 8, 15, 16, 31, 32, 33, 48, 62, 63] {
				add(&format!("mult^2^{k}"), &|x| x[i].mult ^= 1 << k);
			}
			add("mult+2^64-1 wrap", &|x| x[i].mult = x[i].mult.wrapping_sub(1) ^ u64::MAX);
			add("val", &|x| x[i].vals[0] ^= 1);
			add("const", &|x| x[i].vals[1] ^= 1);
			add("short", &|x| {
				x[i].vals.pop();
			});
			add("swap", &|x| x[i].vals.swap(0, 1));
			for ch in 0..5 {
				if ch != mk {
					add(&format!("channel{ch}-"), &move |x| x[i].ch = ch);
					add(&format!("extra{ch}-"), &move |x| {
						x.push(Bd { vals: vec![1], ch, push: true, mult: 1 })
					});
					add(&format!("extra-pull{ch}-"), &move |x| {
						x.push(Bd { vals: vec![], ch, push: false, mult: 3 })
					});
				}
			}
		}
		for fixed in [false, true] {
			for (n, bds) in &muts {
				// the prover claims the altered boundaries itself
				ck.case("altered boundaries", || format!("{} {n} fixed={fixed}", s.name), |r| {
					let sys = build(&s)?;
					let mut j = inst.clone();
					j.bds = bds.clone();
					if s.holds(&j) {
						return Err("harness: the altered boundaries still balance".into());
					}
					let cols = s.expand(&j.sizes, &j.com);
					reject(r, &s, &sys, &j, &cols, fixed)?;
					// or proves the true statement and presents the other one
					let p = if fixed {
						u128b::prove::<FixedCoins>(&s, &sys, &inst, &cols, 1, 20)?
					} else {
						u128b::prove::<Hch>(&s, &sys, &inst, &cols, 1, 20)?
					};
					let v = if fixed {
						verify_inst::<FixedCoins>(&sys, &j, p, 1, 20)
					} else {
						verify_inst::<Hch>(&sys, &j, p, 1, 20)
					};
					r.obs_dbg(&v);
					r.ok(v.is_err(), || "a proof made for other boundaries was accepted".into())
				});
			}
		}
	}
}
/// Table sizes that the system does not allow: proved under a system that allows them, same digest.
fn sizes(ck: &Ck) {
	for spec in [Size::Pow2, Size::Fixed(0), Size::Fixed(1), Size::Fixed(2), Size::Fixed(3)] {
		for n in 0..=9usize {
			for lv in [0usize, 2] {
				let mk = |sz: Size| {
					let mut s = Spec::new("sizes");
					let t = s.table(sz);
					let a = s.col(t, lv, 7, K::Com);
					let b = s.col(t, lv, 7, K::Com);
					s.zero(t, lv, &[a, b], v(0) + v(1));
					let u = s.table(Size::Any);
					s.col(u, 0, 7, K::Com);
					s
				};
				let (loose, strict) = (mk(Size::Any), mk(spec));
				ck.case("table size rules", || format!("{spec:?} rows {n} lv{lv}"), |r| {
					let len = if n == 0 { 0 } else { 1usize << (log2_ceil(n) + lv) };
					let col = vec![6u128; len];
					let inst = Inst {
						sizes: vec![n, 4],
						com: vec![col.clone(), col, vec![1, 2, 3, 4]],
						bds: vec![],
					};
					let allowed = strict.sizes_ok(&inst.sizes);
					let (ls, ss) = (build(&loose)?, build(&strict)?);
					let cols = loose.expand(&inst.sizes, &inst.com);
					let dg = ss.cs.digest::<binius_hash::groestl::Groestl256>();
					// fixed coins: the digest and the sizes cannot make the transcripts diverge
					let p = u128b::prove::<FixedCoins>(&loose, &ls, &inst, &cols, 1, 20)?;
					let v = verify::<FixedCoins>(&ss.cs, &dg, &[], p, 1, 20);
					r.obs_dbg(&v);
					r.ok(v.is_ok() == allowed, || {
						format!("{n} rows in a table of size rule {spec:?}: verify says {v:?}")
					})
				});
			}
		}
	}
}
/// A proof for a system with one demand removed is offered as a proof for the full system.
fn weaker(ck: &Ck, fams: &[Fam]) {
	let mut items = vec![];
	for f in fams {
		let s = &f.spec;
		for i in 0..s.zero.len() + s.nonzero.len() + s.flushes.len() + s.exps.len() {
			items.push((f, i));
		}
	}
	ck.par(&items, |&(f, i)| {
		let s = &f.spec;
		let Some(inst) = f.bad.iter().find(|b| !s.holds(b)) else { return };
		for fixed in [true, false] {
			ck.case("system with a demand removed", || format!("{} demand {i} fixed={fixed}", s.name), |r| {
				let mut w = s.clone();
				let mut k = i;
				if k < w.zero.len() {
					w.zero.remove(k);
				} else {
					k -= w.zero.len();
					if k < w.nonzero.len() {
						w.nonzero.remove(k);
					} else {
						k -= w.nonzero.len();
						if k < w.flushes.len() {
							w.flushes.remove(k);
						} else {
							k -= w.flushes.len();
							w.exps.remove(k);
							return Ok(());
						}
					}
				}
				let sys = build(s)?;
				let mut ws = build(&w)?;
				ws.cs.channel_count = sys.cs.channel_count;
				let cols = w.expand(&inst.sizes, &inst.com);
				let dg = sys.cs.digest::<binius_hash::groestl::Groestl256>();
				let p = if fixed {
					quiet(|| u128b::prove::<FixedCoins>(&w, &ws, inst, &cols, 1, 20))
				} else {
					quiet(|| u128b::prove_digest::<Hch>(&w, &ws, &dg, inst, &cols, 1, 20))
				};
				r.step(1);
				if let Ok(p) = p {
					let b = boundaries(&inst.bds);
					let v = if fixed {
						verify::<FixedCoins>(&sys.cs, &dg, &b, p, 1, 20)
					} else {
						verify::<Hch>(&sys.cs, &dg, &b, p, 1, 20)
					};
					r.obs_dbg(&v);
					r.ok(v.is_err(), || "a proof for the weaker system was accepted for a false statement".into())?;
				}
				Ok(())
			});
		}
	});
}
fn run(ck: &Ck) {
	let sz = ck.pick(&[1, 3, 4][..], &[1, 2, 3, 4, 5, 8][..]);
	ck.bound(format!("table sizes {sz:?}; every single-cell corruption of the committed columns of each family; every lied cell of each virtual column (6 cells of long ones)"));
	ck.assume("the prover side follows the protocol on a false witness; provers that deviate from the protocol message by message are explored in C23");
	let keep = |f| ballast(f, 2);
	other_statement(ck);
	sizes(ck);
	bad(ck, "one demand among many", &keep(multi_fams()));
	weaker(ck, &keep(multi_fams()));
	bad(ck, "channels", &keep(flush_fams(ck.pick(2, 3))));
	let (vf, cf, ef, nf) = (keep(virt_fams(sz)), keep(constraint_fams(sz)), keep(exp_fams(sz)), keep(nested_fams(&[3], 2)));
	let mut all = vec![];
	for l in [&vf, &cf, &ef] {
		all.extend(l.iter().step_by(ck.pick(3, 1)).cloned());
	}
	all.extend(keep(flush_fams(1)));
	weaker(ck, &all);
	let small = |f: &[Fam]| -> Vec<Fam> {
		f.iter().map(|f| { let mut f = f.clone(); let k = ck.pick(f.bad.len() / 40 + 1, 1); f.bad = f.bad.iter().step_by(k).cloned().collect(); f }).collect()
	};
	lies(ck, "lies about virtual columns", &vf.iter().step_by(1).cloned().collect::<Vec<_>>());
	lies(ck, "lies about nested virtual columns", &nf.iter().step_by(1).cloned().collect::<Vec<_>>());
	bad(ck, "constraints", &small(&cf));
	bad(ck, "exponentiation", &small(&ef));
	bad(ck, "virtual columns", &small(&vf));
	bad(ck, "nested", &small(&nf));
}
