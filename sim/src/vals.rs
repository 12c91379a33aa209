//! Value types that are sent and received through the library's `Data` trait.

use dynamixel2::bus::Data;
use dynamixel2::{BufferTooSmallError, InvalidMessage};

/// Conversion between a value and its wire bytes that does not use the library's codec.
pub trait SimVal: Data + 'static {
	fn make(b: &[u8]) -> Self;
	fn bytes(&self) -> Vec<u8>;
}

macro_rules! num {
	($($t:ty),*) => {$(
		impl SimVal for $t {
			fn make(b: &[u8]) -> Self {
				let mut v = 0u128;
				for (i, x) in b.iter().enumerate() {
					v |= u128::from(*x) << (8 * i);
				}
				v as $t
			}
			fn bytes(&self) -> Vec<u8> {
				let mut v = *self as u128;
				(0..std::mem::size_of::<$t>()).map(|_| { let b = v as u8; v >>= 8; b }).collect()
			}
		}
	)*};
}
num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl<T: SimVal, const N: usize> SimVal for [T; N] {
	fn make(b: &[u8]) -> Self {
		let n = usize::from(T::ENCODED_SIZE);
		std::array::from_fn(|i| T::make(&b[i * n..(i + 1) * n]))
	}
	fn bytes(&self) -> Vec<u8> {
		self.iter().flat_map(|x| x.bytes()).collect()
	}
}

/// A user-defined type of odd size, stored big-endian to be different from the built-in ones.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Odd {
	pub a: u8,
	pub b: u16,
}

impl Data for Odd {
	const ENCODED_SIZE: u16 = 3;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(3, buffer.len())?;
		buffer[0] = self.a;
		buffer[1..3].copy_from_slice(&self.b.to_be_bytes());
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(b.len(), 3)?;
		Ok(Odd { a: b[0], b: u16::from_be_bytes([b[1], b[2]]) })
	}
}

impl SimVal for Odd {
	fn make(b: &[u8]) -> Self {
		Odd { a: b[0], b: u16::from(b[1]) << 8 | u16::from(b[2]) }
	}
	fn bytes(&self) -> Vec<u8> {
		vec![self.a, (self.b >> 8) as u8, self.b as u8]
	}
}

/// A user-defined type that takes far more bytes on the wire than the value itself does in memory.
#[derive(Debug, Clone, PartialEq)]
pub struct Long(Box<[u8; 12]>);

impl Data for Long {
	const ENCODED_SIZE: u16 = 12;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(12, buffer.len())?;
		buffer[..12].copy_from_slice(&self.0[..]);
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(b.len(), 12)?;
		Ok(Long(Box::new(b.try_into().unwrap())))
	}
}

impl SimVal for Long {
	fn make(b: &[u8]) -> Self {
		Long(Box::new(b.try_into().unwrap()))
	}
	fn bytes(&self) -> Vec<u8> {
		self.0.to_vec()
	}
}

/// A user-defined type without data.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Nil;

impl Data for Nil {
	const ENCODED_SIZE: u16 = 0;
	fn encode(&self, _: &mut [u8]) -> Result<(), BufferTooSmallError> {
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(b.len(), 0)?;
		Ok(Nil)
	}
}

impl SimVal for Nil {
	fn make(_: &[u8]) -> Self {
		Nil
	}
	fn bytes(&self) -> Vec<u8> {
		vec![]
	}
}

/// A user-defined type with more than 255 bytes.
#[derive(Debug, Clone, PartialEq)]
pub struct Huge(Box<[u8; 300]>);

impl Data for Huge {
	const ENCODED_SIZE: u16 = 300;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(300, buffer.len())?;
		buffer[..300].copy_from_slice(&self.0[..]);
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(b.len(), 300)?;
		Ok(Huge(Box::new(b.try_into().unwrap())))
	}
}

impl SimVal for Huge {
	fn make(b: &[u8]) -> Self {
		Huge(Box::new(b.try_into().unwrap()))
	}
	fn bytes(&self) -> Vec<u8> {
		self.0.to_vec()
	}
}

pub const NTY: usize = 28;

/// Encoded sizes by type index, written down independently of the crate.
pub const TY_SIZE: [usize; NTY] = [1, 2, 4, 8, 16, 1, 2, 4, 8, 16, 0, 3, 6, 4, 12, 4, 2, 3, 6, 0, 100, 40, 9, 12, 36, 300, 280, 514];
pub const TY_NAME: [&str; NTY] = [
	"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "[u8;0]", "[u8;3]", "[u8;6]", "[u16;2]", "[i32;3]", "[[u8;2];2]",
	"[i16;1]", "Odd", "[Odd;2]", "Nil", "[u8;100]", "[[u32;5];2]", "[Odd;3]", "Long", "[Long;3]", "Huge", "[u8;280]",
	"[u16;257]",
];

/// Evaluate an expression with `T` bound to the type with the given index.
#[macro_export]
macro_rules! with_ty {
	($idx:expr, $T:ident => $e:expr) => {
		match $idx {
			0 => { type $T = u8; $e },
			1 => { type $T = u16; $e },
			2 => { type $T = u32; $e },
			3 => { type $T = u64; $e },
			4 => { type $T = u128; $e },
			5 => { type $T = i8; $e },
			6 => { type $T = i16; $e },
			7 => { type $T = i32; $e },
			8 => { type $T = i64; $e },
			9 => { type $T = i128; $e },
			10 => { type $T = [u8; 0]; $e },
			11 => { type $T = [u8; 3]; $e },
			12 => { type $T = [u8; 6]; $e },
			13 => { type $T = [u16; 2]; $e },
			14 => { type $T = [i32; 3]; $e },
			15 => { type $T = [[u8; 2]; 2]; $e },
			16 => { type $T = [i16; 1]; $e },
			17 => { type $T = $crate::vals::Odd; $e },
			18 => { type $T = [$crate::vals::Odd; 2]; $e },
			19 => { type $T = $crate::vals::Nil; $e },
			20 => { type $T = [u8; 100]; $e },
			21 => { type $T = [[u32; 5]; 2]; $e },
			22 => { type $T = [$crate::vals::Odd; 3]; $e },
			23 => { type $T = $crate::vals::Long; $e },
			24 => { type $T = [$crate::vals::Long; 3]; $e },
			25 => { type $T = $crate::vals::Huge; $e },
			26 => { type $T = [u8; 280]; $e },
			_ => { type $T = [u16; 257]; $e },
		}
	};
}

/// Holder for data borrowed from the read buffer.
pub struct Blob(pub Vec<u8>);

thread_local! {
	static ARENA: std::cell::RefCell<Vec<Box<Blob>>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Forget the blobs of the previous run. No reference to one may be alive.
pub fn clear_arena() {
	ARENA.with(|a| a.borrow_mut().clear());
}

impl std::borrow::Borrow<Blob> for [u8] {
	fn borrow(&self) -> &Blob {
		let b = Box::new(Blob(self.to_vec()));
		let p: *const Blob = &*b;
		ARENA.with(|a| a.borrow_mut().push(b));
		// SAFETY: the box lives until `clear_arena`, which runs only between simulated runs.
		unsafe { &*p }
	}
}

/// A type made from a slice, other than Vec.
#[derive(Debug)]
pub struct Summed(pub Vec<u8>, pub u32);
impl From<&[u8]> for Summed {
	fn from(b: &[u8]) -> Self {
		Summed(b.to_vec(), b.iter().map(|x| u32::from(*x)).sum())
	}
}
