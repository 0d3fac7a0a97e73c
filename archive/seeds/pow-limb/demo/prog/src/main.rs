use binius_field::*;
fn main() {
	let x = BinaryField128b::new(0x123456789abcdef0fedcba9876543211);
	let mut w = x;
	for _ in 0..64 { w = w * w; }
	let want = w * x;
	let got = Field::pow_vartime(&x, [1u64, 1u64]);
	if got != want { eprintln!("BROKEN: x^(2^64+1) = {got:?}, expected {want:?}"); std::process::exit(1) }
}
