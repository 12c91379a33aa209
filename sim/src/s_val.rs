//! C14: every value decoded from a reply lives and dies exactly once.

use crate::bench;
use crate::ops;
use crate::proto;
use crate::world::{drain, run_until, Ev, Fk, PortCfg, SimPort, MS, US, W};
use dynamixel2::bus::Data;
use dynamixel2::instructions::BulkReadData;
use dynamixel2::{BufferTooSmallError, Client, InvalidMessage, InvalidParameterCount, Response};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What is known about the instrumented values of this run.
#[derive(Default)]
struct Registry {
	/// Per serial number: is it alive?
	alive: Vec<bool>,
	nalive: i64,
	zst: i64,
	/// A violation was found: decoders must not panic any more while everything is taken down.
	calm: bool,
	/// The first misuse that was seen.
	bad: Option<String>,
}

thread_local! {
	static REG: RefCell<Registry> = RefCell::new(Registry::default());
}

fn reg<T>(f: impl FnOnce(&mut Registry) -> T) -> T {
	REG.with(|r| f(&mut r.borrow_mut()))
}

fn born() -> usize {
	reg(|r| {
		r.alive.push(true);
		r.nalive += 1;
		r.alive.len() - 1
	})
}

fn died(serial: usize) {
	reg(|r| match r.alive.get_mut(serial) {
		Some(a) if *a => {
			*a = false;
			r.nalive -= 1;
		},
		Some(_) => {
			r.nalive -= 1;
			r.bad.get_or_insert_with(|| format!("value {serial} was destroyed twice"));
		},
		None => {
			r.bad.get_or_insert_with(|| format!("a value was destroyed that never existed ({serial})"));
		},
	});
}

/// First byte of an element that cannot be decoded.
const POISON: u8 = 0xE0;
/// First byte of an element whose decoder panics.
const BOOM: u8 = 0xE1;

struct Boom;

/// A value of `N` bytes that knows whether it is alive.
struct Tracked<const N: usize> {
	serial: usize,
	bytes: [u8; N],
}

impl<const N: usize> Drop for Tracked<N> {
	fn drop(&mut self) {
		died(self.serial);
	}
}

impl<const N: usize> Data for Tracked<N> {
	const ENCODED_SIZE: u16 = N as u16;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(N, buffer.len())?;
		buffer[..N].copy_from_slice(&self.bytes);
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		InvalidParameterCount::check(b.len(), N)?;
		match b[0] {
			POISON => Err(InvalidMessage::InvalidParameterCount(InvalidParameterCount::check(1, 0).unwrap_err())),
			BOOM if !reg(|r| r.calm) => std::panic::panic_any(Boom),
			_ => Ok(Tracked { serial: born(), bytes: b.try_into().unwrap() }),
		}
	}
}

/// A value of 12 bytes that is a single pointer in memory.
struct Heap(Box<Tracked<12>>);

impl Data for Heap {
	const ENCODED_SIZE: u16 = 12;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		self.0.encode(buffer)
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		Ok(Heap(Box::new(Tracked::decode(b)?)))
	}
}

/// A value without any bytes.
struct Zst;

impl Drop for Zst {
	fn drop(&mut self) {
		reg(|r| {
			r.zst -= 1;
			if r.zst < 0 {
				r.bad.get_or_insert_with(|| "more values without data were destroyed than created".into());
			}
		});
	}
}

impl Data for Zst {
	const ENCODED_SIZE: u16 = 0;
	fn encode(&self, _: &mut [u8]) -> Result<(), BufferTooSmallError> {
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		InvalidParameterCount::check(b.len(), 0)?;
		reg(|r| r.zst += 1);
		Ok(Zst)
	}
}

/// A user-defined structure with two instrumented fields, decoded one after the other.
struct Two {
	a: Tracked<1>,
	b: [Tracked<2>; 2],
}

impl Data for Two {
	const ENCODED_SIZE: u16 = 5;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(5, buffer.len())?;
		self.a.encode(&mut buffer[..1])?;
		self.b.encode(&mut buffer[1..5])
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		InvalidParameterCount::check(b.len(), 5)?;
		Ok(Two { a: Tracked::decode(&b[..1])?, b: <[Tracked<2>; 2]>::decode(&b[1..])? })
	}
}

/// What the checks need of a value.
trait Val: 'static {
	/// Serial numbers of what is inside, and its bytes in order.
	fn look(&self, serials: &mut Vec<usize>, bytes: &mut Vec<u8>, zsts: &mut i64);
}

impl<const N: usize> Val for Tracked<N> {
	fn look(&self, s: &mut Vec<usize>, b: &mut Vec<u8>, _: &mut i64) {
		s.push(self.serial);
		b.extend(self.bytes);
	}
}
impl Val for Zst {
	fn look(&self, _: &mut Vec<usize>, _: &mut Vec<u8>, z: &mut i64) {
		*z += 1;
	}
}
impl Val for Two {
	fn look(&self, s: &mut Vec<usize>, b: &mut Vec<u8>, z: &mut i64) {
		self.a.look(s, b, z);
		self.b.look(s, b, z);
	}
}
impl Val for Heap {
	fn look(&self, s: &mut Vec<usize>, b: &mut Vec<u8>, z: &mut i64) {
		self.0.look(s, b, z);
	}
}
impl<T: Val, const N: usize> Val for [T; N] {
	fn look(&self, s: &mut Vec<usize>, b: &mut Vec<u8>, z: &mut i64) {
		for x in self {
			x.look(s, b, z);
		}
	}
}

/// A value made from the bytes of a reply.
struct Bytes {
	serial: usize,
	bytes: Vec<u8>,
}
impl From<&[u8]> for Bytes {
	fn from(b: &[u8]) -> Self {
		Bytes { serial: born(), bytes: b.to_vec() }
	}
}
impl Drop for Bytes {
	fn drop(&mut self) {
		died(self.serial);
	}
}
impl Val for Bytes {
	fn look(&self, s: &mut Vec<usize>, b: &mut Vec<u8>, _: &mut i64) {
		s.push(self.serial);
		b.extend(&self.bytes);
	}
}

/// Positions of the bytes that decide whether an element can be decoded.
struct Ty {
	size: usize,
	heads: Vec<usize>,
	zsts: i64,
}

const TYS: usize = 16;
/// With those that are large.
const ALL_TYS: usize = 23;

fn ty(i: usize) -> Ty {
	let every = |n: usize, k: usize| Ty { size: n * k, heads: (0..k).map(|i| i * n).collect(), zsts: 0 };
	match i {
		0 => every(1, 1),
		1 => every(3, 1),
		2 => every(1, 0),
		3 => every(1, 1),
		4 => every(2, 2),
		5 => every(1, 5),
		6 => every(1, 6),
		7 => every(2, 0),
		8 => every(1, 4),
		9 => Ty { size: 5, heads: vec![0, 1, 3], zsts: 0 },
		10 => Ty { size: 15, heads: vec![0, 1, 3, 5, 6, 8, 10, 11, 13], zsts: 0 },
		11 => Ty { size: 0, heads: vec![], zsts: 1 },
		12 => Ty { size: 0, heads: vec![], zsts: 4 },
		13 => every(1, 40),
		14 => every(12, 1),
		15 => every(12, 3),
		16 => every(1, 300),
		17 => every(12, 90),
		18 => Ty { size: 0, heads: vec![], zsts: 300 },
		19 => every(12, 70),
		20 => every(700, 1),
		21 => every(2, 256),
		_ => every(1, 64),
	}
}

macro_rules! with_tracked {
	($i:expr, $T:ident => $e:expr) => {
		match $i {
			0 => { type $T = Tracked<1>; $e },
			1 => { type $T = Tracked<3>; $e },
			2 => { type $T = [Tracked<1>; 0]; $e },
			3 => { type $T = [Tracked<1>; 1]; $e },
			4 => { type $T = [Tracked<2>; 2]; $e },
			5 => { type $T = [Tracked<1>; 5]; $e },
			6 => { type $T = [[Tracked<1>; 2]; 3]; $e },
			7 => { type $T = [[Tracked<2>; 0]; 2]; $e },
			8 => { type $T = [[[Tracked<1>; 2]; 1]; 2]; $e },
			9 => { type $T = Two; $e },
			10 => { type $T = [Two; 3]; $e },
			11 => { type $T = Zst; $e },
			12 => { type $T = [[Zst; 2]; 2]; $e },
			13 => { type $T = [[Tracked<1>; 10]; 4]; $e },
			14 => { type $T = Heap; $e },
			15 => { type $T = [Heap; 3]; $e },
			16 => { type $T = [Tracked<1>; 300]; $e },
			17 => { type $T = [Tracked<12>; 90]; $e },
			18 => { type $T = [Zst; 300]; $e },
			19 => { type $T = [Heap; 70]; $e },
			20 => { type $T = Tracked<700>; $e },
			21 => { type $T = [Tracked<2>; 256]; $e },
			_ => { type $T = [[Tracked<1>; 8]; 8]; $e },
		}
	};
}

/// A reply on its way.
struct Reply {
	id: u8,
	data: Vec<u8>,
	/// It is intact, from the right motor, of the right length and without a motor error.
	good: bool,
}

struct Kept {
	v: Box<dyn Val>,
	bytes: Vec<u8>,
}

fn alive(kept: &[Kept]) -> Result<(), String> {
	let mut z = 0;
	let mut all = vec![];
	for k in kept {
		let mut b = vec![];
		let from = all.len();
		k.v.look(&mut all, &mut b, &mut z);
		if b != k.bytes {
			return Err(format!("a value that was handed over changed from {} to {}", proto::hex(&k.bytes), proto::hex(&b)));
		}
		for s in &all[from..] {
			if !reg(|r| r.alive.get(*s) == Some(&true)) {
				return Err(format!("value {s} was handed over, but it has already been destroyed"));
			}
		}
	}
	let n = all.len();
	all.sort_unstable();
	all.dedup();
	if all.len() != n {
		return Err("the same value was handed over twice".into());
	}
	let (na, nz, bad) = reg(|r| (r.nalive, r.zst, r.bad.clone()));
	if let Some(b) = bad {
		return Err(b);
	}
	if na != n as i64 || nz != z {
		return Err(format!("{na} (+{nz} without data) values exist, but the caller has {n} (+{z}): the others were never destroyed"));
	}
	Ok(())
}

/// A value was handed over: is it the one of the reply?
fn take<T: Val>(r: Response<T>, n_zst: i64, replies: &[Reply], kept: &mut Vec<Kept>) -> Result<(), String> {
	let (mut s, mut b, mut z) = (vec![], vec![], 0);
	r.data.look(&mut s, &mut b, &mut z);
	let res = match replies.iter().find(|x| x.good && x.id == r.motor_id && x.data == b) {
		None => Err(format!("motor {} gave {}, but no such reply was sent", r.motor_id, proto::hex(&b))),
		Some(_) if z != n_zst => Err(format!("{z} values without data instead of {n_zst}")),
		Some(_) => Ok(()),
	};
	kept.push(Kept { v: Box::new(r.data), bytes: b });
	res
}

fn calm<T>(r: Result<T, String>) -> Result<T, String> {
	if r.is_err() {
		reg(|r| r.calm = true);
	}
	r
}

/// C14.
pub fn c14(sim: &W) {
	reg(|r| *r = Registry::default());
	let mut kept: Vec<Kept> = vec![];
	let r = c14_run(sim, &mut kept);
	if let Err(m) = r {
		sim.w.borrow_mut().fail("C14", m);
	}
	// Even when something is wrong already, nothing may be left for the next run.
	drop(kept);
	let bad = reg(|r| r.bad.take().or_else(|| (r.nalive != 0 || r.zst != 0).then(|| format!("{} (+{}) values were never destroyed", r.nalive, r.zst))));
	let mut w = sim.w.borrow_mut();
	if w.fails.is_empty() {
		if let Some(m) = bad {
			w.fail("C14", m);
		}
	}
}

fn c14_run(sim: &W, kept: &mut Vec<Kept>) -> Result<(), String> {
	let (port, n, rbuf) = {
		let w = &mut *sim.w.borrow_mut();
		let baud = bench::gen_baud(&mut w.src).max(57_600);
		let cfg = PortCfg { chunk: w.src.weighted(&[4, 2, 3]) as u8, blocking_write: true, ..Default::default() };
		let rbuf = w.src.pick(&[128usize, 128, 400, 20, 3_000]);
		(w.add_port(baud, cfg), w.src.us(1, 10), rbuf)
	};
	let mut cl: ops::Cl = Client::with_buffers(SimPort::new(sim, port), vec![0; rbuf], vec![0; 1_500]).unwrap();
	for _ in 0..n {
		// Which operation on which type.
		let (t, what, ids, take_n, via) = {
			let w = &mut *sim.w.borrow_mut();
			let what = w.src.weighted(&[4, 6, 1, 2, 2]);
			let k = match what {
				0 | 2 => 1,
				_ if w.src.chance(15) => w.src.us(30, 250),
				_ => w.src.us(1, 5),
			};
			let ids = bench::gen_ids(&mut w.src, k);
			let take_n = if w.src.chance(400) { w.src.us(0, k) } else { k + 1 };
			let t = if w.src.chance(60) && k < 20 { TYS + w.src.below((ALL_TYS - TYS) as u64) as usize } else { w.src.below(TYS as u64) as usize };
			(t, what, ids, take_n, w.src.below(2))
		};
		let info = ty(t);
		if take_n < ids.len() {
			sim.w.borrow_mut().fk(Fk::Abandon);
		}
		// The replies.
		let mut all_good = true;
		let mut fail_at: Option<usize> = None;
		let mut replies = vec![];
		{
			let w = &mut *sim.w.borrow_mut();
			let baud = w.ports[port].baud;
			let sent = match what {
				0 | 2 => 14,
				4 => 10 + 5 * ids.len(),
				_ => 14 + ids.len(),
			};
			let mut at = w.now.max(w.tx_busy) + proto::transfer_ns(sent as u64, baud) + MS;
			if ids.len() > 200 {
				w.probe("values of more than 200 motors");
			}
			if info.size > 255 || info.zsts > 255 {
				w.probe("large value");
			}
			let fit = info.size + 11 <= rbuf;
			for (i, id) in ids.iter().enumerate() {
				w.src.begin();
				let mut data = w.src.bytes(info.size);
				for x in &mut data {
					if *x == POISON || *x == BOOM {
						*x = 1;
					}
				}
				let mut poisoned = false;
				if !info.heads.is_empty() && w.src.chance(250) {
					// Any element may be the one that fails.
					let h = w.src.below(info.heads.len() as u64) as usize;
					data[info.heads[h]] = if w.src.chance(200) { BOOM } else { POISON };
					poisoned = true;
					w.fk(Fk::DecodeFail);
				}
				let mut good = true;
				let mut err = 0;
				let mut rid = *id;
				let mut sent = data.clone();
				let mut crc = false;
				match w.src.weighted(&[12, 1, 1, 1, 1, 1]) {
					0 => {},
					1 => {
						w.fk(Fk::ReplyLost);
						at += 100 * MS;
						all_good = false;
						w.src.end();
						continue;
					},
					2 => {
						w.fk(Fk::MotorErrByte);
						err = 1 + w.src.below(0x7F) as u8;
						good = false;
					},
					3 => {
						w.fk(Fk::ReplyWrongLen);
						if sent.is_empty() || w.src.chance(500) {
							sent.push(0);
						} else {
							sent.pop();
						}
						good = false;
					},
					4 => {
						w.fk(Fk::ReplyForeignId);
						// It may happen to be what a later result waits for.
						rid = rid.wrapping_add(1);
						all_good = false;
					},
					_ => {
						w.fk(Fk::CrcDamage);
						crc = true;
						good = false;
					},
				}
				let mut b = proto::status(rid, err, &sent);
				if crc {
					let n = b.len();
					b[n - 1] ^= 0x10;
				}
				if b.len() > rbuf || !fit {
					good = false;
				}
				all_good &= good;
				if good && poisoned {
					fail_at.get_or_insert(i);
				}
				at += w.src.below(5 * MS) + 10 * US;
				if b.len() > 1 && w.src.chance(200) {
					let c = w.src.us(1, b.len() - 1);
					w.fk(Fk::Fragment);
					w.at(at, Ev::Rx { port, bytes: b[..c].to_vec() });
					w.at(at + 100 * US, Ev::Rx { port, bytes: b[c..].to_vec() });
					at += 100 * US;
				} else {
					w.at(at, Ev::Rx { port, bytes: b });
				}
				// With bytes instead of a type there is nothing that can fail.
				replies.push(Reply { id: rid, data, good: good && (!poisoned || what >= 2) });
				w.src.end();
			}
			w.st.ops += 1;
			w.note("op", &[t as u8, what as u8], || format!("operation {what} on type {t} of {} bytes, motors {ids:?}, first {take_n}", info.size));
		}
		ops::begin_op(sim, port);
		// Whether the first results are certain.
		let certain = all_good;
		let mut results: Vec<Option<bool>> = vec![];
		let size = info.size as u16;
		match what {
			0 => with_tracked!(t, T => {
				match catch_unwind(AssertUnwindSafe(|| cl.read::<T>(ids[0], 7))) {
					Ok(Ok(r)) => {
						results.push(Some(true));
						calm(take(r, info.zsts, &replies, kept))?;
					},
					Ok(Err(_)) => results.push(Some(false)),
					Err(p) => {
						if !p.is::<Boom>() {
							return calm(Err(format!("{:?}", ops::panic_text(p))));
						}
						results.push(None);
					},
				}
			}),
			1 => with_tracked!(t, T => {
				let mut it = cl.sync_read::<T>(&ids, 7).map_err(|e| format!("sync read could not be sent: {:?}", ops::wr(e)))?;
				for _ in 0..take_n {
					let r = catch_unwind(AssertUnwindSafe(|| if via == 0 { it.read_next() } else { Iterator::next(&mut it) }));
					match r {
						Ok(None) => break,
						Ok(Some(Ok(r))) => {
							results.push(Some(true));
							calm(take(r, info.zsts, &replies, kept))?;
						},
						Ok(Some(Err(_))) => results.push(Some(false)),
						Err(p) => {
							if !p.is::<Boom>() {
								return calm(Err(format!("{:?}", ops::panic_text(p))));
							}
							results.push(None);
						},
					}
					calm(alive(kept))?;
				}
				// Abandoning it may decode the rest.
				if let Err(p) = catch_unwind(AssertUnwindSafe(|| drop(it))) {
					if !p.is::<Boom>() {
						return calm(Err(format!("{:?}", ops::panic_text(p))));
					}
				}
			}),
			2 => match cl.read_bytes::<Bytes>(ids[0], 7, size) {
				Ok(r) => {
					results.push(Some(true));
					calm(take(r, 0, &replies, kept))?;
				},
				Err(_) => results.push(Some(false)),
			},
			3 => {
				let mut it = cl.sync_read_bytes::<Bytes>(&ids, 7, size).map_err(|e| format!("{:?}", ops::wr(e)))?;
				for _ in 0..take_n {
					match if via == 0 { it.read_next() } else { it.next() } {
						None => break,
						Some(Ok(r)) => {
							results.push(Some(true));
							calm(take(r, 0, &replies, kept))?;
						},
						Some(Err(_)) => results.push(Some(false)),
					}
				}
			},
			_ => {
				let reads: Vec<_> = ids.iter().map(|i| BulkReadData { motor_id: *i, address: 7, count: size }).collect();
				let mut it = cl.bulk_read_bytes::<Bytes>(&reads).map_err(|e| format!("{:?}", ops::wr(e)))?;
				for _ in 0..take_n {
					match if via == 0 { it.read_next() } else { it.next() } {
						None => break,
						Some(Ok(r)) => {
							results.push(Some(true));
							calm(take(r, 0, &replies, kept))?;
						},
						Some(Err(_)) => results.push(Some(false)),
					}
				}
			},
		}
		calm(alive(kept))?;
		if certain {
			// Every reply was fine: exactly those that can be decoded are handed over.
			for (i, r) in results.iter().enumerate() {
				let want = replies[i].good;
				if *r != Some(want) && !(r.is_none() && !want) {
					return Err(format!("result {i}: the reply {} is handed over: {r:?}, expected: {want}", proto::hex(&replies[i].data)));
				}
			}
			let mut w = sim.w.borrow_mut();
			if fail_at.is_some() && what < 2 {
				w.probe("decoding failed at some element");
			}
			w.probe(match (what, take_n < ids.len()) {
				(1 | 3 | 4, true) => "abandoned multi read",
				(1 | 3 | 4, _) => "complete multi read",
				_ => "single read",
			});
		}
		// The caller keeps some of its values for a while.
		{
			let w = &mut *sim.w.borrow_mut();
			while !kept.is_empty() && w.src.chance(500) {
				let i = w.src.below(kept.len() as u64) as usize;
				kept.swap_remove(i);
			}
		}
		calm(alive(kept))?;
		drain(sim);
		let to = sim.w.borrow().now + MS;
		run_until(sim, to);
	}
	Ok(())
}
