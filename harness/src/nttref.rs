//! The novel polynomial basis, from its definition: subspace vanishing polynomials as products over the subspace.
use binius_field::BinaryField;

/// span of the basis in counting order
pub fn span<F: BinaryField>(b: &[F]) -> Vec<F> {
	(0..1usize << b.len())
		.map(|i| (0..b.len()).filter(|j| i >> j & 1 == 1).map(|j| b[j]).sum())
		.collect()
}
/// prod_{u in <b_0..b_{i-1}>} (x - u)
pub fn vanish<F: BinaryField>(b: &[F], i: usize, x: F) -> F {
	span(&b[..i]).into_iter().map(|u| x - u).product()
}
/// normalised: 1 at b_i
pub fn what<F: BinaryField>(b: &[F], i: usize, x: F) -> F {
	vanish(b, i, x) * vanish(b, i, b[i]).invert().unwrap()
}
/// basis of the image of <b> under the normalised vanishing polynomial that leaves dimension n
pub fn sub_basis<F: BinaryField>(b: &[F], n: usize) -> Vec<F> {
	let i = b.len() - n;
	(0..n).map(|j| what(b, i, b[i + j])).collect()
}

/// Evaluations of the novel basis polynomials of a domain, tabulated.
pub struct Novel<F> {
	pub pts: Vec<F>,
	/// w[i][p] = normalised vanishing polynomial i at point p
	w: Vec<Vec<F>>,
}
impl<F: BinaryField> Novel<F> {
	pub fn new(d: &[F]) -> Self {
		let pts = span(d);
		let w = (0..d.len())
			.map(|i| {
				let n = vanish(d, i, d[i]).invert().unwrap();
				pts.iter().map(|&x| vanish(d, i, x) * n).collect()
			})
			.collect();
		Self { pts, w }
	}
	/// X_k at point p
	pub fn x(&self, k: usize, p: usize) -> F {
		(0..self.w.len()).filter(|i| k >> i & 1 == 1).map(|i| self.w[i][p]).product()
	}
}
