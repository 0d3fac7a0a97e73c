//! Shared by the field-level checks: scalars as plain integers, and the list of packed types.
pub use vcore::{refs::Kind, *};
use binius_field::{
	underlier::{U1, U2, U4, WithUnderlier},
	*,
};

/// A scalar field type together with its mathematical definition.
pub trait Sc: Field + BinaryField {
	const K: usize;
	const KIND: Kind;
	fn b(self) -> u128;
	fn of(v: u128) -> Self;
	fn mask() -> u128 {
		if Self::K == 7 { u128::MAX } else { (1u128 << (1 << Self::K)) - 1 }
	}
	fn rmul(a: u128, b: u128) -> u128 {
		Self::KIND.mul(a, b, Self::K)
	}
}
macro_rules! sc {
	($kind:ident: $($t:ty, $k:expr, $u:ty);* $(;)?) => {$(
		impl Sc for $t {
			const K: usize = $k;
			const KIND: Kind = Kind::$kind;
			fn b(self) -> u128 { <u128 as From<$u>>::from(self.to_underlier().into()) }
			fn of(v: u128) -> Self { <$t>::from_underlier(<$t as WithUnderlier>::Underlier::from_u128(v)) }
		}
	)*};
}
pub trait FromU128 {
	fn from_u128(v: u128) -> Self;
}
macro_rules! fu {
	($($t:ty),*) => {$(impl FromU128 for $t { fn from_u128(v: u128) -> Self { v as $t } })*};
}
fu!(u8, u16, u32, u64, u128);
impl FromU128 for U1 {
	fn from_u128(v: u128) -> Self {
		U1::new(v as u8)
	}
}
impl FromU128 for U2 {
	fn from_u128(v: u128) -> Self {
		U2::new(v as u8)
	}
}
impl FromU128 for U4 {
	fn from_u128(v: u128) -> Self {
		U4::new(v as u8)
	}
}
sc!(Tower: BinaryField1b,0,u8; BinaryField2b,1,u8; BinaryField4b,2,u8; BinaryField8b,3,u8; BinaryField16b,4,u16;
	BinaryField32b,5,u32; BinaryField64b,6,u64; BinaryField128b,7,u128);
sc!(Aes: AESTowerField8b,3,u8; AESTowerField16b,4,u16; AESTowerField32b,5,u32; AESTowerField64b,6,u64; AESTowerField128b,7,u128);
sc!(Polyval: BinaryField128bPolyval,7,u128);

/// Calls the macro `$m!(ty)` for every scalar field type.
#[macro_export]
macro_rules! all_scalars {
	($m:ident) => {
		$m!(BinaryField1b); $m!(BinaryField2b); $m!(BinaryField4b); $m!(BinaryField8b); $m!(BinaryField16b);
		$m!(BinaryField32b); $m!(BinaryField64b); $m!(BinaryField128b);
		$m!(AESTowerField8b); $m!(AESTowerField16b); $m!(AESTowerField32b); $m!(AESTowerField64b); $m!(AESTowerField128b);
		$m!(BinaryField128bPolyval);
	};
}
/// Calls `$m!(Sub, Ext)` for every proper subfield pair the library publishes.
#[macro_export]
macro_rules! all_pairs {
	($m:ident) => {
		$crate::pairs_of!($m; BinaryField1b; BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b);
		$crate::pairs_of!($m; BinaryField2b; BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b);
		$crate::pairs_of!($m; BinaryField4b; BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b);
		$crate::pairs_of!($m; BinaryField8b; BinaryField16b BinaryField32b BinaryField64b BinaryField128b);
		$crate::pairs_of!($m; BinaryField16b; BinaryField32b BinaryField64b BinaryField128b);
		$crate::pairs_of!($m; BinaryField32b; BinaryField64b BinaryField128b);
		$crate::pairs_of!($m; BinaryField64b; BinaryField128b);
		$crate::pairs_of!($m; BinaryField1b; AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b);
		$crate::pairs_of!($m; AESTowerField8b; AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b);
		$crate::pairs_of!($m; AESTowerField16b; AESTowerField32b AESTowerField64b AESTowerField128b);
		$crate::pairs_of!($m; AESTowerField32b; AESTowerField64b AESTowerField128b);
		$crate::pairs_of!($m; AESTowerField64b; AESTowerField128b);
	};
}
#[macro_export]
macro_rules! pairs_of {
	($m:ident; $s:ident; $($e:ident)*) => { $($m!($s, $e);)* };
}
#[macro_export]
macro_rules! all_packed {
	($m:ident) => { $crate::each!($m;
		BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b
		PackedBinaryField1x1b PackedBinaryField2x1b PackedBinaryField1x2b PackedBinaryField4x1b PackedBinaryField2x2b
		PackedBinaryField1x4b PackedBinaryField8x1b PackedBinaryField4x2b PackedBinaryField2x4b PackedBinaryField1x8b
		PackedBinaryField16x1b PackedBinaryField8x2b PackedBinaryField4x4b PackedBinaryField2x8b PackedBinaryField1x16b
		PackedBinaryField32x1b PackedBinaryField16x2b PackedBinaryField8x4b PackedBinaryField4x8b PackedBinaryField2x16b PackedBinaryField1x32b
		PackedBinaryField64x1b PackedBinaryField32x2b PackedBinaryField16x4b PackedBinaryField8x8b PackedBinaryField4x16b PackedBinaryField2x32b PackedBinaryField1x64b
		PackedBinaryField128x1b PackedBinaryField64x2b PackedBinaryField32x4b PackedBinaryField16x8b PackedBinaryField8x16b PackedBinaryField4x32b PackedBinaryField2x64b PackedBinaryField1x128b
		PackedBinaryField256x1b PackedBinaryField128x2b PackedBinaryField64x4b PackedBinaryField32x8b PackedBinaryField16x16b PackedBinaryField8x32b PackedBinaryField4x64b PackedBinaryField2x128b
		PackedBinaryField512x1b PackedBinaryField256x2b PackedBinaryField128x4b PackedBinaryField64x8b PackedBinaryField32x16b PackedBinaryField16x32b PackedBinaryField8x64b PackedBinaryField4x128b
		AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b
		PackedAESBinaryField1x8b PackedAESBinaryField2x8b PackedAESBinaryField1x16b PackedAESBinaryField4x8b PackedAESBinaryField2x16b PackedAESBinaryField1x32b
		PackedAESBinaryField8x8b PackedAESBinaryField4x16b PackedAESBinaryField2x32b PackedAESBinaryField1x64b
		PackedAESBinaryField16x8b PackedAESBinaryField8x16b PackedAESBinaryField4x32b PackedAESBinaryField2x64b PackedAESBinaryField1x128b
		PackedAESBinaryField32x8b PackedAESBinaryField16x16b PackedAESBinaryField8x32b PackedAESBinaryField4x64b PackedAESBinaryField2x128b
		PackedAESBinaryField64x8b PackedAESBinaryField32x16b PackedAESBinaryField16x32b PackedAESBinaryField8x64b PackedAESBinaryField4x128b
		ByteSlicedAES16x128b ByteSlicedAES16x64b ByteSlicedAES2x16x64b ByteSlicedAES16x32b ByteSlicedAES4x16x32b ByteSlicedAES16x16b ByteSlicedAES8x16x16b ByteSlicedAES16x8b ByteSlicedAES16x16x8b
		ByteSliced16x128x1b ByteSliced8x128x1b ByteSliced4x128x1b ByteSliced2x128x1b ByteSliced1x128x1b
		ByteSlicedAES32x128b ByteSlicedAES32x64b ByteSlicedAES2x32x64b ByteSlicedAES32x32b ByteSlicedAES4x32x32b ByteSlicedAES32x16b ByteSlicedAES8x32x16b ByteSlicedAES32x8b ByteSlicedAES16x32x8b
		ByteSliced16x256x1b ByteSliced8x256x1b ByteSliced4x256x1b ByteSliced2x256x1b ByteSliced1x256x1b
		ByteSlicedAES64x128b ByteSlicedAES64x64b ByteSlicedAES2x64x64b ByteSlicedAES64x32b ByteSlicedAES4x64x32b ByteSlicedAES64x16b ByteSlicedAES8x64x16b ByteSlicedAES64x8b ByteSlicedAES16x64x8b
		ByteSliced16x512x1b ByteSliced8x512x1b ByteSliced4x512x1b ByteSliced2x512x1b ByteSliced1x512x1b
		BinaryField128bPolyval PackedBinaryPolyval1x128b PackedBinaryPolyval2x128b PackedBinaryPolyval4x128b
	) };
}
#[macro_export]
macro_rules! each {
	($m:ident; $($t:ident)*) => { $($m!($t);)* };
}
