//! The single source of every decision of a simulated run.
//!
//! In search mode decisions come from a PRNG seeded with one integer; every decision is recorded.
//! In replay mode the recorded decisions are fed back; past their end every decision is 0,
//! and by convention 0 is always the simplest alternative (no fault, no delay, shortest, default).

use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

thread_local! {
	static BEAT: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) };
}

/// Have the runs of this thread show on a counter that they get on.
pub fn show_beat(b: Arc<AtomicU64>) {
	BEAT.with(|x| *x.borrow_mut() = Some(b));
}

fn beat() {
	BEAT.with(|x| {
		if let Some(b) = &*x.borrow() {
			b.fetch_add(1, Ordering::Relaxed);
		}
	});
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed)
	}
	pub fn next(&mut self) -> u64 {
		// SplitMix64.
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
}

pub fn mix(a: u64, b: u64) -> u64 {
	let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(17));
	r.next();
	r.next() ^ b
}

pub fn hash_str(s: &str) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for b in s.bytes() {
		h ^= u64::from(b);
		h = h.wrapping_mul(0x100_0000_01b3);
	}
	h
}

pub struct Src {
	seed: u64,
	rng: Option<Rng>,
	replay: Vec<u64>,
	pos: usize,
	pub rec: Vec<u64>,
	/// Spans (start, end) of recorded choices that belong together: units for the shrinker.
	pub spans: Vec<(usize, usize)>,
	open: Vec<usize>,
	/// Is this a run with a long history? Decided by the scenario before anything else.
	pub long: bool,
}

impl Src {
	pub fn seeded(seed: u64) -> Self {
		Src { seed, rng: Some(Rng::new(seed)), replay: vec![], pos: 0, rec: Vec::with_capacity(256), spans: vec![], open: vec![], long: false }
	}

	pub fn replay(choices: Vec<u64>) -> Self {
		Src { seed: 0, rng: None, replay: choices, pos: 0, rec: Vec::new(), spans: vec![], open: vec![], long: false }
	}

	/// Where the decisions come from, for somebody else to take the same ones.
	pub fn origin(&self) -> String {
		match self.rng {
			Some(_) => format!("seed {}", self.seed),
			None => format!("replay {}", self.replay.iter().map(u64::to_string).collect::<Vec<_>>().join(",")),
		}
	}

	pub fn from_origin(s: &str) -> Option<Self> {
		let (k, v) = s.split_once(' ')?;
		match k {
			"seed" => Some(Self::seeded(v.parse().ok()?)),
			"replay" => Some(Self::replay(v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect())),
			_ => None,
		}
	}

	/// More decisions than any run takes that comes to an end.
	pub fn endless(&self) -> bool {
		match self.rng {
			Some(_) => self.rec.len() > 40_000_000,
			None => self.rec.len() > self.replay.len() + 500_000,
		}
	}

	pub fn begin(&mut self) {
		self.open.push(self.rec.len());
	}

	pub fn end(&mut self) {
		if let Some(s) = self.open.pop() {
			let e = self.rec.len();
			if e > s {
				self.spans.push((s, e));
			}
		}
	}

	fn draw(&mut self, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
		debug_assert!(n > 0);
		let v = match &mut self.rng {
			Some(r) => f(r),
			None => {
				let v = self.replay.get(self.pos).copied().unwrap_or(0);
				self.pos += 1;
				v.min(n - 1)
			},
		};
		debug_assert!(v < n);
		if self.rec.len() % 1024 == 1023 {
			beat();
		}
		self.rec.push(v);
		v
	}

	/// Uniform in 0..n.
	pub fn below(&mut self, n: u64) -> u64 {
		if n <= 1 {
			return 0;
		}
		self.draw(n, |r| ((u128::from(r.next()) * u128::from(n)) >> 64) as u64)
	}

	pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}

	pub fn us(&mut self, lo: usize, hi: usize) -> usize {
		self.int(lo as u64, hi as u64) as usize
	}

	/// How often the main loop of a scenario goes round: in a long run more often than counters
	/// of 8 bits, and rarely 16 bits, can count.
	pub fn rounds(&mut self, lo: usize, hi: usize) -> usize {
		if !self.long {
			return self.us(lo, hi);
		}
		if self.chance(25) {
			self.us(65_600, 67_000)
		} else {
			self.us(260, 1_500)
		}
	}

	/// Room in the input buffer of a port: rarely a few bytes or 4 KiB, as kernels have it.
	pub fn room(&mut self) -> usize {
		match self.weighted(&[10, 1, 1]) {
			0 if self.long => 100_000,
			0 => 0,
			1 => self.us(1, 64),
			_ => 4_096,
		}
	}

	/// In half of the long runs the trouble stays as it was first chosen.
	pub fn stuck(&mut self) -> bool {
		self.long && self.chance(500)
	}

	/// True with probability permille/1000; false is the simple choice.
	pub fn chance(&mut self, permille: u32) -> bool {
		if permille == 0 {
			return false;
		}
		if permille >= 1000 {
			return true;
		}
		self.draw(2, |r| u64::from(((u128::from(r.next()) * 1000) >> 64) < u128::from(permille))) == 1
	}

	/// Index with the given weights; index 0 is the simple choice.
	pub fn weighted(&mut self, w: &[u32]) -> usize {
		let total: u64 = w.iter().map(|x| u64::from(*x)).sum();
		if w.len() <= 1 || total == 0 {
			return 0;
		}
		self.draw(w.len() as u64, |r| {
			let mut x = ((u128::from(r.next()) * u128::from(total)) >> 64) as u64;
			for (i, w) in w.iter().enumerate() {
				if x < u64::from(*w) {
					return i as u64;
				}
				x -= u64::from(*w);
			}
			0
		}) as usize
	}

	pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
		v[self.below(v.len() as u64) as usize]
	}

	/// Small numbers are likely; the whole range is possible.
	pub fn skewed(&mut self, max: u64) -> u64 {
		if max == 0 {
			return 0;
		}
		self.draw(max + 1, |r| {
			let bits = 64 - max.leading_zeros();
			let b = ((u128::from(r.next()) * u128::from(bits + 1)) >> 64) as u32;
			let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
			(r.next() & m).min(max)
		})
	}

	/// A byte, with bytes that matter to the protocol more likely.
	pub fn byte(&mut self) -> u8 {
		self.draw(256, |r| {
			let x = r.next();
			let k = (x >> 32) % 10;
			match k {
				0..=2 => 0xFF,
				3..=4 => 0xFD,
				5 => [0x00, 0x55, 0xFE, 0x01, 0x80, 0x7F, 0xFC, 0x02][(x % 8) as usize],
				_ => x & 0xFF,
			}
		}) as u8
	}

	pub fn flat_byte(&mut self) -> u8 {
		self.below(256) as u8
	}

	/// Payload bytes of the given length, in one of several styles.
	pub fn bytes(&mut self, len: usize) -> Vec<u8> {
		match self.weighted(&[4, 4, 3, 2]) {
			0 => {
				// Cheap: one seed byte, counting up.
				let b = self.flat_byte();
				(0..len).map(|i| b.wrapping_add((i * 7) as u8)).collect()
			},
			1 => {
				if len > 64 {
					let seed = self.below(1 << 32);
					let mut r = Rng::new(seed);
					(0..len)
						.map(|_| {
							let x = r.next();
							match x % 5 {
								0 | 1 => 0xFF,
								2 => 0xFD,
								_ => (x >> 8) as u8,
							}
						})
						.collect()
				} else {
					(0..len).map(|_| self.byte()).collect()
				}
			},
			2 => {
				// Dense in header/stuffing patterns.
				let mut v = Vec::with_capacity(len + 8);
				if len > 64 {
					let seed = self.below(1 << 32);
					let mut r = Rng::new(seed);
					while v.len() < len {
						pattern(&mut v, (r.next() % 8) as usize, (r.next() & 0xFF) as u8);
					}
				} else {
					while v.len() < len {
						let k = self.below(8) as usize;
						let b = if k == 7 { self.flat_byte() } else { 0 };
						pattern(&mut v, k, b);
					}
				}
				v.truncate(len);
				v
			},
			_ => {
				if len > 64 {
					let seed = self.below(1 << 32);
					let mut r = Rng::new(seed);
					(0..len).map(|_| r.next() as u8).collect()
				} else {
					(0..len).map(|_| self.flat_byte()).collect()
				}
			},
		}
	}
}

fn pattern(v: &mut Vec<u8>, k: usize, b: u8) {
	match k {
		0 => v.extend([0xFF, 0xFF, 0xFD]),
		1 => v.push(0xFF),
		2 => v.push(0xFD),
		3 => v.extend([0xFF, 0xFF, 0xFD, 0x00]),
		4 => v.extend([0xFF, 0xFF, 0xFD, 0xFD]),
		5 => v.extend([0xFF, 0xFF]),
		6 => v.push(0x00),
		_ => v.push(b),
	}
}
