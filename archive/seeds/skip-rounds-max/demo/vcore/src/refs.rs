//! Reference models: the binary tower on plain integers, and a constraint-system "spec machine" that
//! computes every column and the verdict of an instance directly from the definitions.

/// Product in the canonical binary tower, level `k` (2^k bits): X_k^2 = X_k X_{k-1} + 1.
pub fn tmul(a: u128, b: u128, k: usize) -> u128 {
	if k == 0 {
		return a & b & 1;
	}
	if a == 0 || b == 0 {
		return 0;
	}
	if a == 1 {
		return b;
	}
	if b == 1 {
		return a;
	}
	let h = 1usize << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
	let z0 = tmul(a0, b0, k - 1);
	let z2 = tmul(a1, b1, k - 1);
	let z1 = tmul(a0 ^ a1, b0 ^ b1, k - 1) ^ z0 ^ z2;
	let z2a = tmul_alpha(z2, k - 1);
	(z0 ^ z2) | ((z1 ^ z2a) << h)
}
/// Multiplication by the generator X_{k-1} of level `k` (by 1 at level 0).
pub fn tmul_alpha(a: u128, k: usize) -> u128 {
	if k == 0 {
		return a;
	}
	let h = 1usize << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1) = (a & m, a >> h);
	// (a0 + a1 X) X = a0 X + a1 (X X' + 1)
	a1 | ((a0 ^ tmul_alpha(a1, k - 1)) << h)
}
pub fn tpow(a: u128, mut e: u128, k: usize) -> u128 {
	let (mut r, mut s) = (1u128, a);
	while e > 0 {
		if e & 1 == 1 {
			r = tmul(r, s, k);
		}
		s = tmul(s, s, k);
		e >>= 1;
	}
	r
}
pub fn tinv(a: u128, k: usize) -> u128 {
	// a^(2^(2^k) - 2)
	let mut r = 1u128;
	let mut s = a;
	for _ in 1..(1u32 << k) {
		s = tmul(s, s, k);
		r = tmul(r, s, k);
	}
	if k == 0 { a } else { r }
}

/// Expressions of the spec machine.
#[derive(Clone, Debug, PartialEq)]
pub enum X {
	C(u128),
	V(usize),
	Add(Box<X>, Box<X>),
	Mul(Box<X>, Box<X>),
	Pow(Box<X>, u64),
}
pub fn c(v: u128) -> X {
	X::C(v)
}
pub fn v(i: usize) -> X {
	X::V(i)
}
impl std::ops::Add for X {
	type Output = X;
	fn add(self, o: X) -> X {
		X::Add(Box::new(self), Box::new(o))
	}
}
impl std::ops::Mul for X {
	type Output = X;
	fn mul(self, o: X) -> X {
		X::Mul(Box::new(self), Box::new(o))
	}
}
impl X {
	pub fn pow(self, e: u64) -> X {
		X::Pow(Box::new(self), e)
	}
	pub fn eval(&self, vars: &[u128]) -> u128 {
		match self {
			X::C(c) => *c,
			X::V(i) => vars[*i],
			X::Add(a, b) => a.eval(vars) ^ b.eval(vars),
			X::Mul(a, b) => tmul(a.eval(vars), b.eval(vars), 7),
			X::Pow(a, e) => tpow(a.eval(vars), *e as u128, 7),
		}
	}
	pub fn level(&self) -> usize {
		match self {
			X::C(c) => level_of(*c),
			X::V(_) => 0,
			X::Add(a, b) | X::Mul(a, b) => a.level().max(b.level()),
			X::Pow(a, _) => a.level(),
		}
	}
}
/// Smallest tower level containing the value.
pub fn level_of(c: u128) -> usize {
	(0..7).find(|&k| c >> (1u32 << k) == 0).unwrap_or(7)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sh {
	Rot,
	Left,
	Right,
}

/// Column kinds.
#[derive(Clone, Debug)]
pub enum K {
	Com,
	/// 1 at indices >= i (step up), over its own `n` variables
	StepUp(usize, usize),
	/// 1 at indices < i
	StepDown(usize, usize),
	SelectRow(usize, usize),
	Const(usize, u128),
	/// explicit transparent values
	Explicit(Vec<u128>),
	/// expression over the index bits
	Struct(X),
	Rep(usize),
	Shift(usize, usize, usize, Sh),
	Pack(usize, usize),
	/// boolean projection values starting at a variable
	Proj(usize, Vec<u128>, usize),
	ProjLast(usize, Vec<u128>),
	Lin(u128, Vec<(usize, u128)>),
	/// n_pad_vars, nonzero_index, start_index
	Pad(usize, usize, usize, usize),
	Comp(Vec<usize>, X),
}
#[derive(Clone, Debug)]
pub struct Col {
	pub t: usize,
	/// log values per row
	pub lv: usize,
	/// tower level of the values
	pub level: usize,
	pub k: K,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Size {
	Any,
	Pow2,
	Fixed(usize),
}
#[derive(Clone, Debug)]
pub enum Arg {
	O(usize),
	K(u128),
}
#[derive(Clone, Debug)]
pub struct Fl {
	pub t: usize,
	pub lv: usize,
	pub args: Vec<Arg>,
	pub ch: usize,
	pub push: bool,
	pub sel: Vec<usize>,
	pub mult: u64,
}
#[derive(Clone, Debug)]
pub struct Zc {
	pub t: usize,
	pub lv: usize,
	pub cols: Vec<usize>,
	pub exprs: Vec<X>,
}
#[derive(Clone, Debug)]
pub struct Ex {
	pub bits: Vec<usize>,
	/// base column or constant of a level
	pub base: Result<usize, (u128, usize)>,
	pub result: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Spec {
	pub name: String,
	pub tables: Vec<Size>,
	pub cols: Vec<Col>,
	pub zero: Vec<Zc>,
	pub nonzero: Vec<usize>,
	pub flushes: Vec<Fl>,
	pub exps: Vec<Ex>,
	pub channels: usize,
}
#[derive(Clone, Debug)]
pub struct Bd {
	pub vals: Vec<u128>,
	pub ch: usize,
	pub push: bool,
	pub mult: u64,
}
/// An instance: table sizes, values of the committed columns (in order of `Com` columns) and boundaries.
#[derive(Clone, Debug, Default)]
pub struct Inst {
	pub sizes: Vec<usize>,
	pub com: Vec<Vec<u128>>,
	pub bds: Vec<Bd>,
}
pub fn log2_ceil(n: usize) -> usize {
	n.max(1).next_power_of_two().trailing_zeros() as usize
}
impl Spec {
	pub fn new(name: impl Into<String>) -> Self {
		Self {
			name: name.into(),
			..Default::default()
		}
	}
	pub fn table(&mut self, s: Size) -> usize {
		self.tables.push(s);
		self.tables.len() - 1
	}
	pub fn col(&mut self, t: usize, lv: usize, level: usize, k: K) -> usize {
		self.cols.push(Col { t, lv, level, k });
		self.cols.len() - 1
	}
	pub fn zero(&mut self, t: usize, lv: usize, cols: &[usize], e: X) {
		self.zero.push(Zc {
			t,
			lv,
			cols: cols.to_vec(),
			exprs: vec![e],
		});
	}
	/// The committed columns that the instance provides (not the exponentiation results).
	pub fn free(&self) -> Vec<usize> {
		(0..self.cols.len())
			.filter(|&i| matches!(self.cols[i].k, K::Com) && !self.exps.iter().any(|e| e.result == i))
			.collect()
	}
	pub fn n_vars(&self, i: usize, sizes: &[usize]) -> usize {
		match &self.cols[i].k {
			K::StepUp(n, _) | K::StepDown(n, _) | K::SelectRow(n, _) | K::Const(n, _) => *n,
			K::Explicit(v) => v.len().trailing_zeros() as usize,
			_ => log2_ceil(sizes[self.cols[i].t]) + self.cols[i].lv,
		}
	}
	/// All columns, from the definitions. Columns of empty tables are empty.
	pub fn expand(&self, sizes: &[usize], com: &[Vec<u128>]) -> Vec<Vec<u128>> {
		let free = self.free();
		let mut out: Vec<Vec<u128>> = vec![];
		for (i, col) in self.cols.iter().enumerate() {
			if sizes[col.t] == 0 {
				out.push(vec![]);
				continue;
			}
			let n = self.n_vars(i, sizes);
			let len = 1usize << n;
			let vals: Vec<u128> = match &col.k {
				K::Com => match free.iter().position(|&f| f == i) {
					Some(p) => com[p].clone(),
					None => {
						let e = self.exps.iter().find(|e| e.result == i).unwrap();
						(0..len)
							.map(|r| {
								let ex: u128 = e
									.bits
									.iter()
									.enumerate()
									.map(|(j, &b)| (out[b][r] & 1) << j)
									.sum();
								let base = match e.base {
									Ok(b) => out[b][r],
									Err((c, _)) => c,
								};
								tpow(base, ex, 7)
							})
							.collect()
					}
				},
				K::StepUp(_, i) => (0..len).map(|r| (r >= *i) as u128).collect(),
				K::StepDown(_, i) => (0..len).map(|r| (r < *i) as u128).collect(),
				K::SelectRow(_, i) => (0..len).map(|r| (r == *i) as u128).collect(),
				K::Const(_, c) => vec![*c; len],
				K::Explicit(v) => v.clone(),
				K::Struct(x) => (0..len)
					.map(|r| x.eval(&(0..64).map(|b| (r as u128 >> b) & 1).collect::<Vec<_>>()))
					.collect(),
				K::Rep(a) => (0..len).map(|r| out[*a][r % out[*a].len()]).collect(),
				K::Shift(a, off, bits, var) => {
					let bl = 1usize << bits;
					(0..len)
						.map(|r| {
							let (base, o) = (r / bl * bl, r % bl);
							match var {
								Sh::Rot => out[*a][base + (o + bl - off) % bl],
								Sh::Left if o >= *off => out[*a][r - off],
								Sh::Right if o + off < bl => out[*a][r + off],
								_ => 0,
							}
						})
						.collect()
				}
				K::Pack(a, d) => {
					let w = 1u32 << self.cols[*a].level;
					(0..len)
						.map(|r| (0..1usize << d).fold(0, |s, j| s | out[*a][(r << d) | j] << (w * j as u32)))
						.collect()
				}
				K::Proj(a, vals, start) => project(&out[*a], vals, *start),
				K::ProjLast(a, vals) => {
					let n_in = out[*a].len().trailing_zeros() as usize;
					project(&out[*a], vals, n_in - vals.len())
				}
				K::Lin(off, inner) => (0..len)
					.map(|r| inner.iter().fold(*off, |s, (o, c)| s ^ tmul(out[*o][r], *c, 7)))
					.collect(),
				K::Pad(a, n_pad, nz, start) => {
					let mut v = vec![0; len];
					for (r, x) in out[*a].iter().enumerate() {
						let lo = r & ((1 << start) - 1);
						let hi = r >> start;
						v[lo | nz << start | hi << (start + n_pad)] = *x;
					}
					v
				}
				K::Comp(inner, x) => (0..len)
					.map(|r| x.eval(&inner.iter().map(|&o| out[o][r]).collect::<Vec<_>>()))
					.collect(),
			};
			assert_eq!(vals.len(), len, "harness: column {i} of {}", self.name);
			out.push(vals);
		}
		out
	}
	pub fn sizes_ok(&self, sizes: &[usize]) -> bool {
		self.tables.iter().zip(sizes).all(|(s, &n)| match s {
			Size::Any => true,
			Size::Pow2 => n.is_power_of_two(),
			Size::Fixed(l) => n == 1 << l,
		})
	}
	/// The zero and non-zero constraints hold on the given columns.
	pub fn constraints_hold(&self, sizes: &[usize], cols: &[Vec<u128>]) -> bool {
		self.zero.iter().all(|z| {
			if sizes[z.t] == 0 {
				return true;
			}
			let n = log2_ceil(sizes[z.t]) + z.lv;
			(0..1usize << n).all(|r| {
				let vars: Vec<u128> = z.cols.iter().map(|&o| cols[o][r]).collect();
				z.exprs.iter().all(|e| e.eval(&vars) == 0)
			})
		}) && self.nonzero.iter().all(|&o| cols[o].iter().all(|&x| x != 0))
	}
	pub fn balanced(&self, sizes: &[usize], cols: &[Vec<u128>], bds: &[Bd]) -> bool {
		let mut m = std::collections::BTreeMap::<(usize, Vec<u128>), i128>::new();
		for b in bds {
			*m.entry((b.ch, b.vals.clone())).or_default() += if b.push { 1 } else { -1 } * b.mult as i128;
		}
		for f in &self.flushes {
			for r in 0..sizes[f.t] << f.lv {
				if f.sel.iter().any(|&s| cols[s][r] == 0) {
					continue;
				}
				let vals: Vec<u128> = f
					.args
					.iter()
					.map(|a| match a {
						Arg::O(o) => cols[*o][r],
						Arg::K(c) => *c,
					})
					.collect();
				*m.entry((f.ch, vals)).or_default() += if f.push { 1 } else { -1 } * f.mult as i128;
			}
		}
		m.values().all(|&x| x == 0)
	}
	pub fn holds(&self, i: &Inst) -> bool {
		let cols = self.expand(&i.sizes, &i.com);
		self.sizes_ok(&i.sizes)
			&& self.constraints_hold(&i.sizes, &cols)
			&& self.balanced(&i.sizes, &cols, &i.bds)
	}
}
fn project(a: &[u128], vals: &[u128], start: usize) -> Vec<u128> {
	let fixed = vals.iter().enumerate().fold(0usize, |s, (j, &b)| s | (b as usize) << j);
	(0..a.len() >> vals.len())
		.map(|r| {
			let lo = r & ((1 << start) - 1);
			let hi = r >> start;
			a[lo | fixed << start | hi << (start + vals.len())]
		})
		.collect()
}

/// The three kinds of binary field the library publishes.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
	Tower,
	Aes,
	Polyval,
}
fn aes_mul8(a: u128, b: u128) -> u128 {
	let mut r = 0u32;
	for i in 0..8 {
		if b >> i & 1 == 1 {
			r ^= (a as u32) << i;
		}
	}
	for i in (8..15).rev() {
		if r >> i & 1 == 1 {
			r ^= 0x11b << (i - 8);
		}
	}
	r as u128
}
/// Tower over AES GF(2^8): level 4 adjoins the image 0xd3 of the canonical generator of level 3.
pub fn aes_tmul(a: u128, b: u128, k: usize) -> u128 {
	if a == 0 || b == 0 {
		return 0;
	}
	if k <= 3 {
		return aes_mul8(a, b);
	}
	let h = 1usize << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
	let z0 = aes_tmul(a0, b0, k - 1);
	let z2 = aes_tmul(a1, b1, k - 1);
	let z1 = aes_tmul(a0 ^ a1, b0 ^ b1, k - 1) ^ z0 ^ z2;
	(z0 ^ z2) | ((z1 ^ aes_alpha(z2, k - 1)) << h)
}
pub fn aes_alpha(a: u128, k: usize) -> u128 {
	if k <= 3 {
		return aes_mul8(a, 0xd3);
	}
	let h = 1usize << (k - 1);
	let m = (1u128 << h) - 1;
	let (a0, a1) = (a & m, a >> h);
	a1 | ((a0 ^ aes_alpha(a1, k - 1)) << h)
}
/// POLYVAL's field in Montgomery form: a * b * x^-128 modulo x^128 + x^127 + x^126 + x^121 + 1.
pub fn polyval_mul(a: u128, b: u128) -> u128 {
	const P: u128 = (1 << 127) | (1 << 126) | (1 << 121) | 1;
	// acc holds the running value times x^-i
	let mut acc = 0u128;
	for i in 0..128 {
		if b >> i & 1 == 1 {
			acc ^= a;
		}
		// divide by x: make the constant term vanish first
		if acc & 1 == 1 {
			// (acc + p) / x, p's top term x^128 becomes bit 127
			acc = ((acc ^ P) >> 1) | (1 << 127);
		} else {
			acc >>= 1;
		}
	}
	acc
}
pub const POLYVAL_ONE: u128 = (1 << 127) | (1 << 126) | (1 << 121) | 1;

impl Kind {
	pub fn mul(self, a: u128, b: u128, k: usize) -> u128 {
		match self {
			Kind::Tower => tmul(a, b, k),
			Kind::Aes => aes_tmul(a, b, k),
			Kind::Polyval => polyval_mul(a, b),
		}
	}
	pub fn alpha(self, a: u128, k: usize) -> u128 {
		match self {
			Kind::Tower => tmul_alpha(a, k),
			Kind::Aes => aes_alpha(a, k),
			Kind::Polyval => panic!("POLYVAL has no tower generator of its own"),
		}
	}
	pub fn one(self) -> u128 {
		if self == Kind::Polyval { POLYVAL_ONE } else { 1 }
	}
	pub fn inv(self, a: u128, k: usize) -> u128 {
		if k == 0 {
			return a;
		}
		let (mut r, mut s) = (self.one(), a);
		for _ in 1..(1u32 << k) {
			s = self.mul(s, s, k);
			r = self.mul(r, s, k);
		}
		r
	}
	pub fn pow(self, a: u128, mut e: u128, k: usize) -> u128 {
		let (mut r, mut s) = (self.one(), a);
		while e > 0 {
			if e & 1 == 1 {
				r = self.mul(r, s, k);
			}
			s = self.mul(s, s, k);
			e >>= 1;
		}
		r
	}
}

/// Value alphabet for a 2^k-bit field: structural corners (zero, one, ones in each half, subfield borders, lone bits)
/// and fixed generic values.
pub fn alphabet(k: usize, generic: usize) -> Vec<u128> {
	let bits = 1usize << k;
	let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
	let mut v = vec![0, 1, m];
	for j in 0..k {
		let h = 1usize << j;
		v.push(1u128 << h); // generator of level j+1
		v.push((1u128 << h) - 1); // all ones of the subfield
		v.push(m & !((1u128 << h) - 1)); // everything above it
	}
	v.push(1u128 << (bits - 1));
	for g in 0..generic as u64 {
		v.push(crate::mix128(1000 + g) & m);
	}
	v.sort_unstable();
	v.dedup();
	v
}
