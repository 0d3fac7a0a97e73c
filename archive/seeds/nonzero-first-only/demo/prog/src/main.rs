use demolib::{e2e::*, refs::*};
use binius_core::fiat_shamir::HasherChallenger;
use binius_hash::groestl::Groestl256;
type Ch = HasherChallenger<Groestl256>;
/// proves the given columns (whatever they say) and returns the verifier's verdict
fn verdict(s: &Spec, i: &Inst) -> bool {
	let sys = build(s).unwrap();
	let cols = s.expand(&i.sizes, &i.com);
	match quiet(|| u128b::prove::<Ch>(s, &sys, i, &cols, 1, 20)) {
		Ok(p) => quiet(|| verify_inst::<Ch>(&sys, i, p, 1, 20)).is_ok(),
		Err(_) => false,
	}
}
fn fail(m: &str) { eprintln!("BROKEN: {m}"); std::process::exit(1) }
fn main() {
	let mut s = Spec::new("nz");
	let t = s.table(Size::Any);
	let a = s.col(t, 0, 7, K::Com);
	let b = s.col(t, 0, 7, K::Com);
	s.nonzero = vec![a, b];
	let mut i = Inst { sizes: vec![4], com: vec![vec![1, 2, 3, 4], vec![5, 6, 7, 8]], bds: vec![] };
	if !verdict(&s, &i) { eprintln!("honest instance rejected"); std::process::exit(2) }
	i.com[1][2] = 0;
	if verdict(&s, &i) { fail("a zero in the second non-zero column is accepted") }
}
