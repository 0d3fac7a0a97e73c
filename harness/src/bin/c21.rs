//! C21: completeness. Every enumerated satisfied instance is proved and the proof accepted; the proof is the same
//! for every number of worker threads.
use vharness::{Ck, check, e2e::*, families::*, refs::*};

fn main() {
	check("C21", run)
}
type ProveFn = fn(&Spec, &Sys, &Inst, &[Vec<u128>], usize, usize) -> Result<Vec<u8>, String>;

fn complete(ck: &Ck, space: &str, fams: &[Fam], cfgs: &[(&str, ProveFn, usize, usize)]) {
	let mut items: Vec<(&Fam, usize, usize)> = fams
		.iter()
		.flat_map(|f| (0..f.good.len()).flat_map(move |i| (0..cfgs.len()).map(move |c| (f, i, c))))
		.collect();
	items.sort_by_key(|(f, i, _)| std::cmp::Reverse(committed_elems(&f.spec, &f.good[*i].sizes)));
	ck.par(&items, |&(fam, i, c)| {
		let (s, inst) = (&fam.spec, &fam.good[i]);
		let (cname, prove, rate, sec) = cfgs[c];
		ck.case(space, || format!("{}#{i} {cname}", s.name), |r| {
			if !s.holds(inst) {
				panic!("harness: instance does not satisfy the spec");
			}
			let sys = build(s)?;
			let cols = s.expand(&inst.sizes, &inst.com);
			let p = prove(s, &sys, inst, &cols, rate, sec).map_err(|e| format!("prove: {e}"))?;
			r.obs(&p);
			verify_inst::<Hch>(&sys, inst, p, rate, sec).map_err(|e| format!("verify rejects an honest proof: {e}"))?;
			r.step(2);
			Ok(())
		});
	});
}
/// Below two committed elements the commitment scheme has no instance: an error, not a panic or a proof.
fn too_small(ck: &Ck, fams: &[Fam]) {
	let items: Vec<(&Fam, &Inst)> = fams
		.iter()
		.flat_map(|f| f.good.iter().map(move |i| (f, i)))
		.filter(|(f, i)| committed_elems(&f.spec, &i.sizes) < 2)
		.collect();
	ck.par(&items, |&(fam, inst)| {
		ck.case("too small to commit", || format!("{} {:?}", fam.spec.name, inst), |r| {
			let sys = build(&fam.spec)?;
			let cols = fam.spec.expand(&inst.sizes, &inst.com);
			match u128b::prove::<Hch>(&fam.spec, &sys, inst, &cols, 1, 20) {
				Err(_) => {}
				Ok(p) => verify_inst::<Hch>(&sys, inst, p, 1, 20)?,
			}
			r.step(1);
			Ok(())
		});
	});
}
/// The proof bytes do not depend on the number of worker threads.
fn threads(ck: &Ck, fams: &[Fam], counts: &[usize]) {
	let pools: Vec<_> = counts
		.iter()
		.map(|&n| (n, rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
		.collect();
	for f in fams {
		let inst = &f.good[0];
		ck.case("thread counts", || f.spec.name.clone(), |r| {
			let sys = build(&f.spec)?;
			let cols = f.spec.expand(&inst.sizes, &inst.com);
			let mut first: Option<Vec<u8>> = None;
			for (n, p) in &pools {
				let proof = p
					.install(|| u128b::prove::<Hch>(&f.spec, &sys, inst, &cols, 1, 20))
					.map_err(|e| format!("prove with {n} threads: {e}"))?;
				r.obs(&proof);
				let want = first.get_or_insert_with(|| proof.clone());
				r.ok(&proof == want, || format!("the proof with {n} threads differs from the one with {} thread(s)", counts[0]))?;
			}
			verify_inst::<Hch>(&sys, inst, first.unwrap(), 1, 20)
		});
	}
}
fn run(ck: &Ck) {
	let one: &[(&str, ProveFn, usize, usize)] = &[("128/r1", u128b::prove::<Hch>, 1, 20)];
	let cfgs: &[(&str, ProveFn, usize, usize)] = &[
		("128/r1", u128b::prove::<Hch>, 1, 20),
		("256/r2", u256b::prove::<Hch>, 2, 30),
		("512/r3", u512b::prove::<Hch>, 3, 100),
		("512/r1", u512b::prove::<Hch>, 1, 8),
	];
	let sizes = ck.pick(&[1, 2, 3, 4, 5, 8][..], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33][..]);
	ck.bound(format!("table sizes {sizes:?}"));
	let small = too_small_filter(virt_fams(&[1]), 1);
	too_small(ck, &small);
	too_small(ck, &flush_fams(1));
	let keep = |f: Vec<Fam>| ballast(f, 4);
	complete(ck, "virtual columns, smallest commitments", &ballast(virt_fams(sizes), 2), one);
	complete(ck, "virtual columns", &keep(virt_fams(sizes)), cfgs);
	complete(ck, "constraints", &keep(constraint_fams(sizes)), cfgs);
	complete(ck, "many demands", &keep(multi_fams()), cfgs);
	complete(ck, "exponentiation", &keep(exp_fams(sizes)), cfgs);
	complete(ck, "channels", &keep(flush_fams(ck.pick(3, 4))), one);
	complete(ck, "channels, other packings", &keep(flush_fams(2)), &cfgs[1..3]);
	complete(ck, "nested", &keep(nested_fams(&[1, 3, 4], 2)), if ck.thorough { cfgs } else { one });
	if ck.thorough {
		complete(ck, "nested three deep", &keep(nested_fams(&[3], 3)), one);
	}
	// big enough for several packed words, FRI rounds and parallel splits
	let big = ck.pick(&[64, 200, 1000][..], &[64, 100, 200, 513, 1000, 1024, 5000][..]);
	ck.bound(format!("larger table sizes {big:?}"));
	let lf = |n: &[usize]| -> Vec<Fam> {
		let pick = |f: Vec<Fam>, k: usize| f.into_iter().step_by(k).collect::<Vec<_>>();
		let mut v = pick(virt_fams(n), 7);
		v.extend(pick(constraint_fams(n), 5));
		v.extend(pick(exp_fams(n), 7));
		v.into_iter()
			.map(|mut f| {
				f.good.truncate(1);
				f.bad.clear();
				f
			})
			.filter(|f| !f.good.is_empty())
			.collect()
	};
	let large = lf(big);
	complete(ck, "larger tables", &keep(large), &cfgs[..3]);
	let mut th = lf(&[5, 300]);
	th = th.into_iter().step_by(ck.pick(6, 2)).collect();
	threads(ck, &keep(th), ck.pick(&[1, 2, 3, 8][..], &[1, 2, 3, 4, 5, 7, 8, 16][..]));
}
fn too_small_filter(f: Vec<Fam>, _: usize) -> Vec<Fam> {
	f.into_iter().filter(|f| f.good.iter().any(|i| committed_elems(&f.spec, &i.sizes) < 2)).collect()
}
