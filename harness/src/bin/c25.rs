//! C25: the witness validator agrees with the reference semantics on every enumerated witness.
use vharness::{Ck, R, Run, check, e2e::*, families::*, refs::*};

fn main() {
	check("C25", run)
}
fn verdict(r: &mut Run, s: &Spec, inst: &Inst, cols: &[Vec<u128>], want: bool, u512: bool) -> R {
	let sys = build(s)?;
	let v = if u512 { u512b::validate(s, &sys, inst, cols) } else { u128b::validate(s, &sys, inst, cols) };
	r.obs(&format!("{want} {v:?}"));
	r.ok(v.is_ok() == want, || format!("validator says {v:?}, the witness {} the system", if want { "satisfies" } else { "violates" }))
}
fn agree(ck: &Ck, space: &str, fams: &[Fam]) {
	let items: Vec<(&Fam, &Inst, usize)> = fams
		.iter()
		.flat_map(|f| f.good.iter().chain(&f.bad).enumerate().map(move |(i, x)| (f, x, i)))
		.collect();
	ck.par(&items, |&(f, inst, i)| {
		ck.case(space, || format!("{}#{i}", f.spec.name), |r| {
			let cols = f.spec.expand(&inst.sizes, &inst.com);
			let want = f.spec.holds(inst);
			verdict(r, &f.spec, inst, &cols, want, i % 2 == 1)
		});
	});
}
fn lies(ck: &Ck, space: &str, fams: &[Fam]) {
	let mut items = vec![];
	for f in fams {
		let s = &f.spec;
		let cols = s.expand(&f.good[0].sizes, &f.good[0].com);
		for (c, col) in s.cols.iter().enumerate() {
			if !matches!(col.k, K::Com) {
				for row in 0..cols[c].len() {
					items.push((f, c, row));
				}
			}
		}
	}
	ck.par(&items, |&(f, c, row)| {
		let s = &f.spec;
		ck.case(space, || format!("{} column {c} row {row}", s.name), |r| {
			let inst = &f.good[0];
			let honest = s.expand(&inst.sizes, &inst.com);
			for d in [1u128, 1 << ((1 << s.cols[c].level) - 1)] {
				let mut cols = honest.clone();
				cols[c][row] ^= d;
				for z in &s.zero {
					if z.cols[0] == c && z.cols.len() == 2 {
						cols[z.cols[1]][row] ^= d;
					}
				}
				verdict(r, s, inst, &cols, false, row % 2 == 1)?;
			}
			Ok(())
		});
	});
}
/// Channel arithmetic at the edges of the multiplicity type, missing channels, unknown channels.
fn channels(ck: &Ck) {
	let mults = [0u64, 1, 2, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];
	let mk = |count: usize, flush: Option<u64>| {
		let mut s = Spec::new("channels");
		let t = s.table(Size::Any);
		let a = s.col(t, 0, 7, K::Com);
		if let Some(m) = flush {
			s.flushes.push(Fl { t, lv: 0, args: vec![Arg::O(a)], ch: 0, push: true, sel: vec![], mult: m });
		}
		s.channels = count;
		s
	};
	for &m in &mults {
		for &p in &mults {
			for q in [None, Some(1u64), Some(1 << 63), Some(u64::MAX)] {
				let s = mk(1, Some(m));
				ck.case("multiplicities", || format!("flush {m} pull {p} pull {q:?}"), |r| {
					let mut bds = vec![Bd { vals: vec![5], ch: 0, push: false, mult: p }];
					if let Some(q) = q {
						bds.push(Bd { vals: vec![5], ch: 0, push: false, mult: q });
					}
					let inst = Inst { sizes: vec![1], com: vec![vec![5]], bds };
					let cols = s.expand(&inst.sizes, &inst.com);
					verdict(r, &s, &inst, &cols, s.holds(&inst), false)
				});
			}
		}
	}
	for count in 0..3usize {
		for ch in 0..4usize {
			for push in [false, true] {
				for both in [false, true] {
					let s = mk(count, None);
					ck.case("unknown channels", || format!("{count} channels, boundary on {ch} push {push} both {both}"), |r| {
						let mut bds = vec![Bd { vals: vec![5], ch, push, mult: 1 }];
						if both {
							bds.push(Bd { vals: vec![5], ch, push: !push, mult: 1 });
						}
						let inst = Inst { sizes: vec![1], com: vec![vec![5]], bds };
						let cols = s.expand(&inst.sizes, &inst.com);
						verdict(r, &s, &inst, &cols, both && ch < count, false)
					});
				}
			}
		}
	}
}
/// Table sizes against their declarations.
fn sizes(ck: &Ck) {
	for spec in [Size::Any, Size::Pow2, Size::Fixed(0), Size::Fixed(1), Size::Fixed(2), Size::Fixed(3)] {
		for n in 0..=17usize {
			ck.case("table sizes", || format!("{spec:?} {n}"), |r| {
				let mut s = Spec::new("sizes");
				let t = s.table(spec);
				s.col(t, 0, 7, K::Com);
				let inst = Inst {
					sizes: vec![n],
					com: vec![if n == 0 { vec![] } else { vec![1; 1 << log2_ceil(n)] }],
					bds: vec![],
				};
				let cols = s.expand(&inst.sizes, &inst.com);
				verdict(r, &s, &inst, &cols, s.sizes_ok(&inst.sizes), false)
			});
		}
	}
}
fn run(ck: &Ck) {
	let sz = ck.pick(&[1, 2, 3, 5, 8][..], &[1, 2, 3, 4, 5, 7, 8, 9, 16, 17][..]);
	ck.bound(format!("table sizes {sz:?}; every cell of every committed and virtual column altered singly"));
	channels(ck);
	sizes(ck);
	let nested = nested_fams(&[1, 3, 4], 2);
	agree(ck, "channels", &flush_fams(ck.pick(3, 4)));
	agree(ck, "virtual columns", &virt_fams(sz));
	agree(ck, "constraints", &constraint_fams(sz));
	agree(ck, "exponentiation", &exp_fams(sz));
	agree(ck, "nested", &nested);
	lies(ck, "lies about virtual columns", &virt_fams(sz));
	lies(ck, "lies about nested columns", &nested);
	if ck.thorough {
		agree(ck, "nested three deep", &nested_fams(&[3], 3));
	}
}
