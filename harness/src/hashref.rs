//! Plain implementations of the hash specifications, used as oracles.
use vcore::refs::{tinv, tmul};
include!("vision_constants.in");
const FWD_C: u32 = 0x2c285aff;
const INV_C: u32 = 0x6ad86f94;

fn gf(a: u8, b: u8) -> u8 {
	let (mut a, mut r) = (a as u16, 0u16);
	for i in 0..8 {
		if b >> i & 1 == 1 {
			r ^= a;
		}
		a = if a & 0x80 != 0 { (a << 1) ^ 0x11b } else { a << 1 };
	}
	r as u8
}

pub fn sbox() -> &'static [u8; 256] {
	static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
	S.get_or_init(|| {
		std::array::from_fn(|x| {
			let inv = (0..=255u8).find(|&y| gf(x as u8, y) == 1).unwrap_or(0);
			inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
		})
	})
}

/// Grøstl-512-bit permutations on 64 bytes, column-major (byte i is row i%8 of column i/8)
pub fn groestl_perm(state: &[u8; 64], q: bool) -> [u8; 64] {
	let s = sbox();
	let shift: [usize; 8] = if q { [1, 3, 5, 7, 0, 2, 4, 6] } else { [0, 1, 2, 3, 4, 5, 6, 7] };
	let circ = [2u8, 2, 3, 4, 5, 3, 5, 7];
	let mut a = *state;
	for r in 0..10u8 {
		for c in 0..8usize {
			let k = ((c as u8) << 4) ^ r;
			if q {
				for row in 0..8 {
					a[c * 8 + row] ^= 0xff;
				}
				a[c * 8 + 7] ^= k;
			} else {
				a[c * 8] ^= k;
			}
		}
		let mut b = [0u8; 64];
		for row in 0..8 {
			for c in 0..8usize {
				b[c * 8 + row] = s[a[((c + shift[row]) % 8) * 8 + row] as usize];
			}
		}
		for c in 0..8 {
			for row in 0..8usize {
				a[c * 8 + row] = (0..8).fold(0, |acc, j| acc ^ gf(circ[(j + 8 - row) % 8], b[c * 8 + j]));
			}
		}
	}
	a
}
fn xor(a: &[u8; 64], b: &[u8; 64]) -> [u8; 64] {
	std::array::from_fn(|i| a[i] ^ b[i])
}
pub fn groestl256(msg: &[u8]) -> [u8; 32] {
	let mut m = msg.to_vec();
	m.push(0x80);
	while m.len() % 64 != 56 {
		m.push(0);
	}
	let blocks = (m.len() as u64 + 8) / 64;
	m.extend(blocks.to_be_bytes());
	let mut h = [0u8; 64];
	h[62] = 1;
	for b in m.chunks(64) {
		let b: [u8; 64] = b.try_into().unwrap();
		h = xor(&h, &xor(&groestl_perm(&xor(&h, &b), false), &groestl_perm(&b, true)));
	}
	let o = xor(&groestl_perm(&h, false), &h);
	o[32..].try_into().unwrap()
}
pub fn groestl_compress(a: &[u8], b: &[u8]) -> [u8; 32] {
	let st: [u8; 64] = [a, b].concat().try_into().unwrap();
	xor(&groestl_perm(&st, false), &st)[32..].try_into().unwrap()
}

/// canonical byte -> AES byte, from the isomorphism's definition: powers of a common root
pub fn to_aes8() -> &'static [u8; 256] {
	static T: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
	T.get_or_init(|| {
		// the library fixes one of the eight isomorphisms; take its values on the basis and extend additively
		let img: [u8; 8] = std::array::from_fn(|i| {
			let a: binius_field::AESTowerField8b = binius_field::BinaryField8b::new(1 << i).into();
			a.val()
		});
		std::array::from_fn(|x| (0..8).filter(|i| x >> i & 1 == 1).fold(0, |acc, i| acc ^ img[i]))
	})
}
pub fn from_aes8() -> &'static [u8; 256] {
	static T: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
	T.get_or_init(|| {
		let t = to_aes8();
		std::array::from_fn(|y| t.iter().position(|&v| v == y as u8).unwrap() as u8)
	})
}
pub fn to_aes32(x: u32) -> u32 {
	u32::from_le_bytes(x.to_le_bytes().map(|b| to_aes8()[b as usize]))
}
pub fn from_aes32(x: u32) -> u32 {
	u32::from_le_bytes(x.to_le_bytes().map(|b| from_aes8()[b as usize]))
}

/// MDS matrix: values on 24 points -> values of the degree < 24 interpolant on the next 24 points, in GF(2^8)
fn mds() -> &'static [[u8; 24]; 24] {
	static M: std::sync::OnceLock<[[u8; 24]; 24]> = std::sync::OnceLock::new();
	M.get_or_init(|| {
		let mul = |a: u8, b: u8| tmul(a as u128, b as u128, 3) as u8;
		std::array::from_fn(|i| {
			let x = 24 + i as u8;
			std::array::from_fn(|j| {
				let (mut n, mut d) = (1u8, 1u8);
				for k in 0..24u8 {
					if k != j as u8 {
						n = mul(n, x ^ k);
						d = mul(d, j as u8 ^ k);
					}
				}
				mul(n, tinv(d as u128, 3) as u8)
			})
		})
	})
}
/// GF(2^8) multiplication table of the canonical tower
fn m8(a: u8, b: u8) -> u8 {
	static T: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
	T.get_or_init(|| (0..65536u32).map(|i| tmul((i >> 8) as u128, (i & 255) as u128, 3) as u8).collect())[(a as usize) << 8 | b as usize]
}
fn i8(a: u8) -> u8 {
	static T: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
	T.get_or_init(|| (0..256u128).map(|i| if i == 0 { 0 } else { tinv(i, 3) as u8 }).collect())[a as usize]
}
fn m16(a: u16, b: u16) -> u16 {
	let ([a0, a1], [b0, b1]) = (a.to_le_bytes(), b.to_le_bytes());
	let hh = m8(a1, b1);
	// x^2 = x * 0x10 + 1
	u16::from_le_bytes([m8(a0, b0) ^ hh, m8(a0, b1) ^ m8(a1, b0) ^ m8(hh, 0x10)])
}
fn i16(a: u16) -> u16 {
	let [a0, a1] = a.to_le_bytes();
	let n = i8(m8(a0, a0) ^ m8(m8(a0, a1), 0x10) ^ m8(a1, a1));
	u16::from_le_bytes([m8(a0 ^ m8(a1, 0x10), n), m8(a1, n)])
}
/// inverse in the canonical 32-bit tower field, zero to zero
fn i32b(a: u32) -> u32 {
	let (a0, a1) = (a as u16, (a >> 16) as u16);
	let n = i16(m16(a0, a0) ^ m16(m16(a0, a1), 0x100) ^ m16(a1, a1));
	m16(a0 ^ m16(a1, 0x100), n) as u32 | (m16(a1, n) as u32) << 16
}
fn affine(x: u32, m: &[u32; 32], c: u32) -> u32 {
	(0..32).filter(|i| x >> i & 1 == 1).fold(c, |acc, i| acc ^ m[i])
}
/// canonical-tower state
pub fn vision_perm(st: &mut [u32; 24]) {
	let half = |st: &mut [u32; 24], m: &[u32; 32], c: u32, key: &[u32]| {
		for x in st.iter_mut() {
			*x = from_aes32(affine(to_aes32(i32b(*x)), m, c));
		}
		let old: [[u8; 4]; 24] = st.map(|x| x.to_le_bytes());
		for (i, x) in st.iter_mut().enumerate() {
			let mut o = [0u8; 4];
			for b in 0..4 {
				for j in 0..24 {
					o[b] ^= m8(mds()[i][j], old[j][b]);
				}
			}
			*x = u32::from_le_bytes(o) ^ key[i];
		}
	};
	for i in 0..24 {
		st[i] ^= KEYS[i];
	}
	for r in 0..8 {
		half(st, &INV, INV_C, &KEYS[24 * (1 + 2 * r)..]);
		half(st, &FWD, FWD_C, &KEYS[24 * (2 + 2 * r)..]);
	}
}
pub fn vision32(msg: &[u8]) -> [u8; 32] {
	let mut m = msg.to_vec();
	let n = 64 - m.len() % 64;
	let p = m.len();
	m.resize(p + n, 0);
	m[p] |= 0x80;
	*m.last_mut().unwrap() |= 0x01;
	let mut st = [0u32; 24];
	for b in m.chunks(64) {
		// the block overwrites the rate part
		for i in 0..16 {
			st[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
		}
		vision_perm(&mut st);
	}
	let mut o = [0u8; 32];
	for i in 0..8 {
		o[4 * i..4 * i + 4].copy_from_slice(&st[i].to_le_bytes());
	}
	o
}
