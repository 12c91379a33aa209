//! C17: threads race for static buffers under Miri, whose seed decides every context switch
//! and which of the values allowed by the memory model a load returns.
//!
//! Usage: dxlmiri [ROUNDS [-v [RACES]]]   (all randomness comes from Miri's seed)
//!        dxlmiri long N          (one thread evaluates the same occurrence N times)

use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::thread;

type Buf = &'static mut [u8];

/// One function per occurrence, so that several threads can reach the same one.
macro_rules! occurrences {
	($($name:ident: $n:literal),* $(,)?) => {
		$(fn $name() -> Buf { dynamixel2::static_buffer!($n) })*
		const OCC: &[(fn() -> Buf, usize)] = &[$(($name, $n)),*];
	};
}

occurrences! {
	a0: 0, a1: 1, a2: 2, a3: 3, a4: 7, a5: 8, a6: 10, a7: 16, a8: 17, a9: 31,
	b0: 32, b1: 64, b2: 100, b3: 128, b4: 128, b5: 129, b6: 16, b7: 16, b8: 16, b9: 5,
	c0: 1, c1: 1, c2: 4, c3: 24, c4: 20, c5: 20, c6: 13, c7: 12, c8: 48, c9: 300,
}

/// More occurrences, for races from a common start.
macro_rules! sprints {
	($($a:ident $b:ident $c:ident $d:ident),* $(,)?) => {
		$(fn $a() -> Buf { dynamixel2::static_buffer!(4) }
		fn $b() -> Buf { dynamixel2::static_buffer!(11) }
		fn $c() -> Buf { dynamixel2::static_buffer!(1) }
		fn $d() -> Buf { dynamixel2::static_buffer!(6) })*
		const SPRINTS: &[(fn() -> Buf, usize)] = &[$(($a, 4), ($b, 11), ($c, 1), ($d, 6)),*];
	};
}

sprints! {
	s00 s01 s02 s03, s04 s05 s06 s07, s08 s09 s10 s11, s12 s13 s14 s15,
}

/// How many threads have reached the start of a sprint, over all sprints. Relaxed: no synchronization.
static READY: AtomicUsize = AtomicUsize::new(0);

/// Evaluate each occurrence at the same moment as the other threads. Returns which it got, and how late it was.
fn sprint(threads: usize, gather: &std::sync::Barrier, skews: Vec<u8>, tag: u8) -> Vec<Won> {
	let mut won = vec![];
	for (i, ((f, len), skew)) in SPRINTS.iter().zip(skews).enumerate() {
		let all = threads * (i + 1);
		// Wait for the slowest without spinning, then line up.
		gather.wait();
		let r = catch_unwind(AssertUnwindSafe(|| {
			READY.fetch_add(1, Relaxed);
			while READY.load(Relaxed) < all {
				std::hint::spin_loop();
			}
			for _ in 0..skew {
				std::hint::black_box(skew);
			}
			f()
		}));
		if let Ok(buf) = r {
			if buf.len() != *len {
				bad(format!("a buffer of {len} bytes has {}", buf.len()));
			}
			if let Some(x) = buf.iter().find(|x| **x != 0) {
				bad(format!("a new buffer contains {x:#x}"));
			}
			buf.fill(tag);
			won.push(Won { buf, key: (2000 + i, false), tag });
		}
	}
	won
}

/// An occurrence in a generic function is one occurrence, whatever it is instantiated for.
fn generic<T>() -> Buf {
	dynamixel2::static_buffer!(12)
}

/// Two occurrences in one function are two.
fn pair(second: bool) -> Buf {
	if second {
		dynamixel2::static_buffer!(9)
	} else {
		dynamixel2::static_buffer!(9)
	}
}

struct Rng(u64);
impl Rng {
	fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	fn below(&mut self, n: u64) -> u64 {
		self.next() % n
	}
}

/// Sequence numbers that order the events of a run for the trace. Relaxed: no synchronization.
static SEQ: AtomicUsize = AtomicUsize::new(0);

fn seq() -> usize {
	SEQ.fetch_add(1, Relaxed)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
	Occurrence(usize),
	Generic,
	Pair,
}

/// What one thread does in a round.
#[derive(Clone, Debug)]
struct Part {
	kind: Kind,
	variant: bool,
	/// Context switches offered before each evaluation.
	pauses: Vec<u8>,
}

struct Won {
	buf: Buf,
	key: (usize, bool),
	tag: u8,
}

fn evaluate(p: &Part) -> Buf {
	match p.kind {
		Kind::Occurrence(i) => OCC[i].0(),
		Kind::Generic if p.variant => generic::<u8>(),
		Kind::Generic => generic::<Vec<u32>>(),
		Kind::Pair => pair(p.variant),
	}
}

fn size(p: &Part) -> usize {
	match p.kind {
		Kind::Occurrence(i) => OCC[i].1,
		Kind::Generic => 12,
		Kind::Pair => 9,
	}
}

/// Identifies the occurrence that a part evaluates.
fn key(p: &Part) -> (usize, bool) {
	match p.kind {
		Kind::Occurrence(i) => (i, false),
		Kind::Generic => (1000, false),
		Kind::Pair => (1001, p.variant),
	}
}

fn bad(msg: String) -> ! {
	println!("VIOLATED {msg}");
	std::process::exit(3)
}

fn run_part(p: Part, tag: u8) -> (Vec<Won>, Vec<(usize, usize, bool)>, usize) {
	let (mut won, mut log, mut refused) = (vec![], vec![], 0);
	for n in &p.pauses {
		for _ in 0..*n {
			thread::yield_now();
		}
		let start = seq();
		let r = catch_unwind(AssertUnwindSafe(|| evaluate(&p)));
		log.push((start, seq(), r.is_ok()));
		match r {
			Err(_) => refused += 1,
			Ok(buf) => {
				if buf.len() != size(&p) {
					bad(format!("a buffer of {} bytes has {}", size(&p), buf.len()));
				}
				if let Some(x) = buf.iter().find(|x| **x != 0) {
					bad(format!("a new buffer contains {x:#x}"));
				}
				buf.fill(tag);
				if p.variant {
					thread::yield_now();
				}
				if buf.iter().any(|x| *x != tag) {
					bad("a buffer changed while it was in use".into());
				}
				won.push(Won { buf, key: key(&p), tag });
			},
		}
	}
	(won, log, refused)
}

/// A port that loops what is written back to a peer through a queue.
struct Loop {
	rx: std::sync::mpsc::Receiver<Vec<u8>>,
	tx: std::sync::mpsc::Sender<Vec<u8>>,
}

impl dynamixel2::SerialPort for Loop {
	type Error = ();
	type Instant = ();
	fn baud_rate(&self) -> Result<u32, ()> {
		Ok(57600)
	}
	fn set_baud_rate(&mut self, _: u32) -> Result<(), ()> {
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), ()> {
		Ok(())
	}
	fn read(&mut self, buffer: &mut [u8], _: &()) -> Result<usize, ()> {
		let data = self.rx.recv().map_err(|_| ())?;
		buffer[..data.len()].copy_from_slice(&data);
		Ok(data.len())
	}
	fn write_all(&mut self, buffer: &[u8]) -> Result<(), ()> {
		self.tx.send(buffer.to_vec()).map_err(|_| ())
	}
	fn make_deadline(&self, _: std::time::Duration) {}
	fn is_timeout_error(_: &()) -> bool {
		false
	}
}

fn long(n: usize) {
	for i in [0, 15] {
		let held = OCC[i].0();
		held.fill(1);
		for k in 1..n {
			if catch_unwind(OCC[i].0).is_ok() {
				bad(format!("evaluation {k} (from 0) of one occurrence in one thread hands out the buffer again"));
			}
		}
		if held.iter().any(|x| *x != 1) {
			bad("a buffer changed while it was in use".into());
		}
	}
	println!("LONG {n}");
}

fn main() {
	let mut args = std::env::args().skip(1).peekable();
	if args.peek().is_some_and(|x| x == "long") {
		std::panic::set_hook(Box::new(|_| ()));
		return long(args.nth(1).expect("number of evaluations").parse().expect("number of evaluations"));
	}
	let limit: usize = args.next().map_or(usize::MAX, |x| x.parse().expect("number of rounds"));
	let verbose = args.next().is_some_and(|x| x == "-v");
	let sprint_limit: usize = args.next().map_or(usize::MAX, |x| x.parse().expect("number of races from a common start"));
	std::panic::set_hook(Box::new(|_| ()));
	// Miri derives this from its seed.
	let mut rng = Rng(RandomState::new().build_hasher().finish());

	let mut left: Vec<Kind> = (0..OCC.len()).map(Kind::Occurrence).chain([Kind::Generic, Kind::Pair]).collect();
	let rounds = (3 + rng.below(6) as usize).min(limit);
	let mut held: Vec<Won> = vec![];
	let mut used: Vec<(usize, bool)> = vec![];
	let (mut hash, mut evaluations, mut refusals, mut overlaps) = (0xcbf2_9ce4_8422_2325u64, 0, 0, 0);
	for round in 0..rounds {
		// One or two kinds of occurrence, raced for by two to four threads.
		let mut kinds = vec![left.swap_remove(rng.below(left.len() as u64) as usize)];
		if rng.below(3) == 0 {
			kinds.push(left.swap_remove(rng.below(left.len() as u64) as usize));
		}
		let parts: Vec<Part> = (0..2 + rng.below(3))
			.map(|_| Part {
				kind: kinds[rng.below(kinds.len() as u64) as usize],
				variant: rng.below(2) == 0,
				pauses: (0..1 + rng.below(2)).map(|_| rng.below(4) as u8).collect(),
			})
			.collect();
		if verbose {
			for p in &parts {
				println!("round {round}: thread {p:?}");
			}
		}
		let mut results = vec![];
		let handles: Vec<_> = parts.iter().cloned().enumerate().map(|(i, p)| thread::spawn(move || run_part(p, (round * 8 + i + 1) as u8))).collect();
		for h in handles {
			results.push(h.join().unwrap_or_else(|_| bad("a thread of the harness failed".into())));
		}
		let mut order: Vec<(usize, u64)> = vec![];
		for (i, (p, (won, log, refused))) in parts.iter().zip(results).enumerate() {
			evaluations += log.len();
			refusals += refused;
			for (a, b, ok) in &log {
				order.push((*a, (i * 4 + usize::from(*ok)) as u64));
				order.push((*b, (i * 4 + 2 + usize::from(*ok)) as u64));
				overlaps += usize::from(b - a > 1);
				if verbose {
					println!("round {round}: thread {i} {} from event {a} to {b}", if *ok { "gets the buffer" } else { "panics" });
				}
			}
			if !used.contains(&key(p)) {
				used.push(key(p));
			}
			held.extend(won);
		}
		order.sort_unstable();
		for (_, x) in order {
			hash = (hash ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(5);
		}
		for k in &used {
			let n = held.iter().filter(|w| w.key == *k).count();
			if n != 1 {
				bad(format!("round {round}: occurrence {k:?} was handed out {n} times"));
			}
		}
		// Whatever was handed out before is still untouched.
		for w in &held {
			if w.buf.iter().any(|x| *x != w.tag) {
				bad(format!("round {round}: the buffer of occurrence {:?} was changed by someone else", w.key));
			}
		}
	}
	// Races from a common start. (The rounds above are also run with delays and with different work in each thread.)
	let (sprints, threads) = ((4 + rng.below(13) as usize).min(sprint_limit), 2 + rng.below(2) as usize);
	let skews: Vec<Vec<u8>> = (0..threads).map(|_| (0..sprints).map(|_| rng.below(8).saturating_sub(4) as u8).collect()).collect();
	if verbose && sprints > 0 {
		println!("{sprints} races from a common start, delays {skews:?}");
	}
	let gather = std::sync::Arc::new(std::sync::Barrier::new(threads));
	let handles: Vec<_> = skews.into_iter().enumerate().map(|(i, x)| {
		let gather = gather.clone();
		thread::spawn(move || sprint(threads, &gather, x, 200 + i as u8))
	}).collect();
	let mut winners = vec![];
	for h in handles {
		let won = h.join().unwrap_or_else(|_| bad("a thread of the harness failed".into()));
		winners.extend(won.iter().map(|w| (w.key.0, w.tag)));
		held.extend(won);
	}
	winners.sort_unstable();
	for i in 0..sprints {
		let n: Vec<_> = winners.iter().filter(|w| w.0 == 2000 + i).map(|w| w.1 - 200).collect();
		if verbose {
			println!("race {i} from a common start: won by {n:?}");
		}
		if n.len() != 1 {
			bad(format!("race {i} of {threads} threads from a common start: occurrence handed out {} times, to threads {n:?}", n.len()));
		}
		hash = (hash ^ u64::from(n[0])).wrapping_mul(0x100_0000_01b3).rotate_left(5);
	}
	evaluations += sprints * threads;
	refusals += sprints * threads.saturating_sub(1);
	for w in &held {
		if w.buf.iter().any(|x| *x != w.tag) {
			bad(format!("the buffer of occurrence {:?} was changed by someone else", w.key));
		}
	}
	for (i, a) in held.iter().enumerate() {
		for b in &held[..i] {
			let (x, y) = (a.buf.as_ptr() as usize, b.buf.as_ptr() as usize);
			if x < y + b.buf.len() && y < x + a.buf.len() {
				bad(format!("the buffers of {:?} and {:?} overlap", a.key, b.key));
			}
		}
	}
	// Use them as they are meant to be used: a client and a device in different threads.
	let mut large: Vec<Buf> = held.into_iter().map(|w| w.buf).filter(|b| b.len() >= 14).collect();
	let served = large.len() >= 4;
	if served {
		let mut take = || large.swap_remove(rng.below(large.len() as u64) as usize);
		let (r1, w1, r2, w2) = (take(), take(), take(), take());
		let ((tx1, rx1), (tx2, rx2)) = (std::sync::mpsc::channel(), std::sync::mpsc::channel());
		let device = thread::spawn(move || {
			let mut device = dynamixel2::Device::with_buffers(Loop { rx: rx1, tx: tx2 }, r2, w2).unwrap();
			let id = match device.read(std::time::Duration::ZERO) {
				Ok(dynamixel2::Instruction { id, instruction: dynamixel2::Instructions::Ping }) => id,
				_ => return false,
			};
			let r = device.write_status(id, 0, 3, |b| {
				b.copy_from_slice(&[1, 2, 3]);
				Ok(())
			});
			r.is_ok()
		});
		let mut client = dynamixel2::Client::with_buffers(Loop { rx: rx2, tx: tx1 }, r1, w1).unwrap();
		let r = client.ping(7).map(|r| (r.motor_id, r.data.model, r.data.firmware)).ok();
		let ok = device.join().unwrap_or(false);
		if !ok || r != Some((7, 0x0201, 3)) {
			bad(format!("client and device in static buffers: got {r:?}"));
		}
	}
	println!("RUN hash={hash:016x} rounds={rounds} evaluations={evaluations} refused={refusals} overlapping={overlaps} sprints={sprints} transfers={}", usize::from(served));
}
