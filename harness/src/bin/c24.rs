//! C24: the complete observe/sample history of proving and verifying.
use binius_hash::groestl::Groestl256;
use binius_utils::{SerializationMode, SerializeBytes};
use vharness::{
	Ck, R, Run, check,
	coins::{Ev, Recording, start_log},
	e2e::*,
	families::*,
	refs::*,
};

fn main() {
	check("C24", run)
}
/// Compact form of a history: o<bytes absorbed> s<bytes drawn> ...
fn shape(l: &[Ev]) -> String {
	let mut o = String::new();
	for e in l {
		if !o.is_empty() {
			o.push(' ');
		}
		match e {
			Ev::Observe(v) => o.push_str(&format!("o{}", v.len())),
			Ev::Sample(n) => o.push_str(&format!("s{n}")),
		}
	}
	o
}
const MODEL: &str = "/verif/models/c24_histories.txt";

fn history(r: &mut Run, s: &Spec, inst: &Inst, rate: usize, sec: usize) -> Result<String, String> {
	let sys = build(s)?;
	let cols = s.expand(&inst.sizes, &inst.com);
	let pl = start_log();
	let proof = u128b::prove::<Recording>(s, &sys, inst, &cols, rate, sec).map_err(|e| format!("prove: {e}"))?;
	let vl = start_log();
	verify_inst::<Recording>(&sys, inst, proof.clone(), rate, sec).map_err(|e| format!("verify: {e}"))?;
	let (pl, vl) = (pl.lock().unwrap().clone(), vl.lock().unwrap().clone());
	r.eq(&shape(&pl), &shape(&vl), || "prover history vs verifier history".into())?;
	r.ok(pl == vl, || "prover and verifier absorb different bytes".into())?;
	let sh = shape(&pl);
	r.obs(&sh);
	// what must have been absorbed: statement, then the proof from its first byte
	let mut want = sys.cs.digest::<Groestl256>().to_vec();
	for b in boundaries(&inst.bds) {
		b.serialize(&mut want, SerializationMode::CanonicalTower).unwrap();
	}
	let statement = want.len();
	want.extend_from_slice(&proof);
	let got: Vec<u8> = pl
		.iter()
		.filter_map(|e| match e {
			Ev::Observe(v) => Some(v.clone()),
			_ => None,
		})
		.flatten()
		.collect();
	if !want.starts_with(&got) {
		let k = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
		return Err(format!(
			"the absorbed stream departs from statement || proof at byte {k} (statement is {statement} bytes, proof {}): a prover message or part of the statement is not absorbed",
			proof.len()
		));
	}
	r.step(1);
	// no challenge before the statement, the table sizes and the commitment root are absorbed
	let first = match &pl[0] {
		Ev::Observe(v) => v.len(),
		Ev::Sample(_) => 0,
	};
	r.ok(first >= statement + 4 * s.tables.len() + 32, || {
		format!("a challenge is drawn after only {first} bytes; statement, table sizes and commitment are {} bytes", statement + 4 * s.tables.len() + 32)
	})?;
	// unabsorbed bytes are openings: they exist only if query indices are drawn after the last absorbed message
	let unabsorbed = want.len() - got.len();
	let tail = match pl.last().unwrap() {
		Ev::Sample(n) => *n,
		_ => 0,
	};
	r.ok(unabsorbed == 0 || tail >= 4, || format!("{unabsorbed} proof bytes are never absorbed and no query index is drawn"))?;
	Ok(format!("{sh} u{unabsorbed}"))
}
fn systems(ck: &Ck) -> Vec<(String, Spec, Inst, usize, usize)> {
	let mut out = vec![];
	for (n0, n1, rate, sec) in [(3, 5, 1, 10), (4, 1, 2, 20), (9, 17, 1, 10), (40, 70, 1, 12), (200, 3, 1, 30), (1, 1, 1, 10)] {
		let (s, i) = rich(n0, n1);
		out.push((format!("{} rate {rate} security {sec}", s.name), s, i, rate, sec));
	}
	let keep = |f| ballast(f, 2);
	let mut fams = keep(virt_fams(&[1, 5]));
	fams.extend(keep(constraint_fams(&[1, 5])));
	fams.extend(keep(exp_fams(&[1, 5])));
	fams.extend(keep(nested_fams(&[3], 2)));
	fams.extend(keep(flush_fams(3)));
	let big: Vec<Fam> = keep(virt_fams(&[512])).into_iter().step_by(9).chain(keep(constraint_fams(&[512])).into_iter().step_by(9)).collect();
	fams.extend(big);
	let _ = ck;
	for f in fams {
		for (k, g) in f.good.iter().enumerate() {
			if k == 0 || k + 1 == f.good.len() || k == f.good.len() / 2 {
				out.push((format!("{}#{k}", f.spec.name), f.spec.clone(), g.clone(), 1, 10));
			}
		}
	}
	out
}
fn run(ck: &Ck) {
	let sys = systems(ck);
	let write = std::env::var("VERIF_WRITE_MODEL").is_ok();
	let model: std::collections::BTreeMap<String, String> = std::fs::read_to_string(MODEL)
		.unwrap_or_default()
		.lines()
		.filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.to_string())))
		.collect();
	let seen = std::sync::Mutex::new(std::collections::BTreeMap::<String, String>::new());
	ck.par(&sys, |(name, s, i, rate, sec)| {
		ck.case("history", || name.clone(), |r| -> R {
			let h = history(r, s, i, *rate, *sec)?;
			if write {
				seen.lock().unwrap().insert(name.clone(), h);
				return Ok(());
			}
			let Some(m) = model.get(name) else {
				return Err("harness: no model history for this system".into());
			};
			r.ok(&h == m, || {
				let (a, b): (Vec<&str>, Vec<&str>) = (h.split(' ').collect(), m.split(' ').collect());
				let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
				format!(
					"messages and challenges are not exchanged in the order of the protocol: event {k} is {} (model: {}); absorbed/drawn bytes so far: {}",
					a.get(k).unwrap_or(&"end"),
					b.get(k).unwrap_or(&"end"),
					a[..k].join(" ")
				)
			})
		});
	});
	if write {
		let o: String = seen.lock().unwrap().iter().map(|(a, b)| format!("{a}\t{b}\n")).collect();
		std::fs::create_dir_all("/verif/models").unwrap();
		std::fs::write(MODEL, o).unwrap();
	}
	ck.bound("one to three instances of every family of systems, six composite systems");
	ck.assume("the event model (which messages precede which challenges) is the committed file models/c24_histories.txt, reviewed against the protocol description; the byte-level rules are independent of it");
}
