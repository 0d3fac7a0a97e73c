use demolib::{e2e::*, refs::*};
use binius_core::fiat_shamir::HasherChallenger;
use binius_hash::groestl::Groestl256;
type Ch = HasherChallenger<Groestl256>;
/// proves the given columns (whatever they say) and returns the verifier's verdict
fn verdict(s: &Spec, i: &Inst) -> bool {
	let sys = build(s).unwrap();
	let cols = s.expand(&i.sizes, &i.com);
	match quiet(|| u128b::prove::<Ch>(s, &sys, i, &cols, 1, 20)) {
		Ok(p) => quiet(|| verify_inst::<Ch>(&sys, i, p, 1, 20)).is_ok(),
		Err(_) => false,
	}
}
fn fail(m: &str) { eprintln!("BROKEN: {m}"); std::process::exit(1) }
fn main() {
	let v = |i| Box::new(X::V(i));
	let mut s = Spec::new("skip");
	for deg in [1usize, 4] {
		let t = s.table(Size::Any);
		let a = s.col(t, 0, 7, K::Com);
		let b = s.col(t, 0, 7, K::Com);
		let mut e = X::Add(v(0), v(1));
		for _ in 1..deg { e = X::Mul(Box::new(e), v(0)); }
		s.zero(t, 0, &[a, b], e);
	}
	let c: Vec<u128> = (1..=256).collect();
	let i = Inst { sizes: vec![256, 256], com: vec![c.clone(), c.clone(), c.clone(), c], bds: vec![] };
	if !verdict(&s, &i) { fail("an honest proof is rejected") }
}
