//! C05: framing does not depend on fragmentation. C06: nothing panics, hangs or overruns. C07: response timeouts.

#[cfg(not(feature = "full"))]
use crate::bare::*;
use crate::bench::{self, Bench, Setup};
use crate::choice::Src;
use crate::motors::{damage, noise, LineFaults};
use crate::ops::{self, Op, Out, Res, Resp, E};
use crate::proto::{self, ins, BROADCAST, STATUS};
use crate::s_line::{dev_read, gen_instr, rogue};
use crate::world::{drain, run_until, Call, ErrKind, Ev, Fk, PortCfg, SimPort, MS, US, W};
use dynamixel2::{Client, Device};
use std::time::Duration;

fn failed(sim: &W) -> bool {
	!sim.w.borrow().fails.is_empty()
}

// ---------------------------------------------------------------------------------------------------------------------
// C05

/// What a caller sees of the stream.
#[derive(Clone, Debug, PartialEq)]
enum Seen {
	/// Instruction: ID, instruction, parameters.
	Ins(u8, u8, Vec<u8>),
	Status(Resp),
	Err(E),
}

/// Who reads: the client's status reads, or the device in one of its forms.
enum Reader {
	Client(Box<ops::Cl>),
	Dev(Box<Device<SimPort, Vec<u8>>>, u8),
}

impl Reader {
	fn new(sim: &W, port: usize, kind: u8, rbuf: usize) -> Reader {
		if kind == 3 {
			Reader::Client(Box::new(Client::with_buffers(SimPort::new(sim, port), vec![0; rbuf], vec![0; 10]).unwrap()))
		} else {
			Reader::Dev(Box::new(Device::with_buffers(SimPort::new(sim, port), vec![0; rbuf], vec![0; 10]).unwrap()), kind)
		}
	}

	/// One call; None is a timeout.
	fn read(&mut self, sim: &W, port: usize, t: u64) -> Result<Option<Seen>, Res> {
		let e = match self {
			Reader::Client(c) => {
				let out = ops::exec(sim, port, c, &Op::ReadStatusTimeout { ns: t });
				match out.res {
					Res::Single(Ok(r)) => return Ok(Some(Seen::Status(r))),
					Res::Single(Err(e)) => e,
					r => return Err(r),
				}
			},
			Reader::Dev(d, form) => {
				ops::begin_op(sim, port);
				match dev_read(d, *form, Duration::from_nanos(t))? {
					Ok((id, i, p)) => return Ok(Some(Seen::Ins(id, i, p))),
					Err(e) => e,
				}
			},
		};
		if e.is_timeout() {
			Ok(None)
		} else {
			Ok(Some(Seen::Err(e)))
		}
	}
}

/// Deliver a stream in pieces and collect everything the reader reports.
fn deliver(sim: &W, stream: &[u8], pieces: &[(usize, u64)], rd: &mut Reader, port: usize, steps: &mut dyn FnMut(&mut Src) -> u64) -> Result<Vec<Seen>, Res> {
	let mut t = sim.w.borrow().now;
	let mut a = 0;
	for (n, gap) in pieces {
		t += gap;
		sim.w.borrow_mut().at(t, Ev::Rx { port, bytes: stream[a..a + n].to_vec() });
		a += n;
	}
	let mut out = vec![];
	let mut quiet = 0;
	while quiet < 3 && out.len() < 4000 + stream.len() {
		let step = steps(&mut sim.w.borrow_mut().src);
		match rd.read(sim, port, step)? {
			Some(s) => {
				quiet = 0;
				out.push(s);
			},
			None => {
				let w = sim.w.borrow();
				if w.now >= t && w.next_event().is_none() && w.ports[port].rx.is_empty() {
					quiet += 1;
				}
				let to = w.now + 200 * US;
				drop(w);
				run_until(sim, to);
			},
		}
	}
	Ok(out)
}

struct Piece {
	bytes: Vec<u8>,
	/// What it must lead to for each reader, if that is known for certain.
	seen: Option<Seen>,
}

/// Noise that does not hold, start or complete a header prefix together with what follows.
fn safe_noise(src: &mut Src) -> Vec<u8> {
	let mut v = noise(src);
	// Leave at most a partial prefix.
	while let Some(i) = v.windows(4).position(|x| x == proto::HDR) {
		v[i + 3] = 0x01;
	}
	v
}

fn ins_seen(p: &proto::Pkt) -> Seen {
	Seen::Ins(p.id, p.instr, p.params.clone())
}

/// Build a stream whose every packet must be delivered: intact packets, packets with a damaged checksum, packets that
/// are too large, and noise without a header in it.
fn clean_stream(src: &mut Src, kind: u8, rbuf: usize, n: usize, cap: usize, mix: &[u32; 4]) -> Vec<Piece> {
	let mut v: Vec<Piece> = vec![];
	for _ in 0..n {
		src.begin();
		let what = src.weighted(mix);
		if what == 1 {
			v.push(Piece { bytes: safe_noise(src), seen: None });
			src.end();
			continue;
		}
		let max = rbuf.saturating_sub(10).min(cap);
		let mut b = if kind == 3 {
			let id = src.flat_byte();
			match src.weighted(&[6, 1]) {
				0 => {
					let e = match src.weighted(&[5, 1, 1]) {
						0 => 0,
						1 => 0x80,
						_ => src.flat_byte(),
					};
					let k = src.skewed(max as u64) as usize;
					proto::status(id, e, &src.bytes(k))
				},
				_ => gen_instr(src, max),
			}
		} else {
			gen_instr(src, max)
		};
		let mut seen = None;
		let p = proto::decode_at(&b, 0).unwrap();
		if b.len() > rbuf {
			// Too large after stuffing.
			seen = Some(Seen::Err(E::BufFull(b.len(), rbuf)));
		} else if what == 2 && src.chance(250) {
			// Too short to be a packet at all: a status without an error byte, or a length that leaves no room for a body.
			let id = src.flat_byte();
			if src.chance(500) {
				b = proto::encode(id, STATUS, &[]);
			} else {
				b = proto::HDR.to_vec();
				b.extend([id, src.below(3) as u8, 0, 0x11]);
			}
			seen = Some(Seen::Err(E::Count(0, "Min(1)".to_string())));
		} else if what == 2 {
			// Checksum damage only.
			let n = b.len();
			let x = 1u8 << src.below(8);
			let i = if src.chance(500) { n - 1 } else { n - 2 };
			b[i] ^= x;
			seen = Some(Seen::Err(E::Checksum(u16::from_le_bytes([b[n - 2], b[n - 1]]), proto::crc(&b[..n - 2]))));
		} else if what == 3 {
			// One that does not fit.
			let k = rbuf + src.us(0, 8);
			b = proto::encode(1, ins::WRITE, &vec![0x11; k]);
			let mut total = b.len();
			if rbuf < 60_000 && src.chance(400) {
				// Only its beginning, of any length that a packet can have.
				total = src.us(rbuf + 1, 7 + 0xFFFF);
				b[5..7].copy_from_slice(&((total - 7) as u16).to_le_bytes());
				b.truncate(src.us(8, 12));
			}
			seen = Some(Seen::Err(E::BufFull(total, rbuf)));
		} else if kind == 3 {
			seen = Some(if p.is_status() {
				if p.err & 0x7F != 0 {
					Seen::Err(E::Motor(p.err))
				} else {
					Seen::Status(Resp { id: p.id, alert: p.err & 0x80 != 0, data: p.params.clone(), err: Some(p.err) })
				}
			} else {
				Seen::Err(E::Instr(p.instr, STATUS))
			});
		} else if !p.is_status() {
			seen = Some(ins_seen(&p));
		}
		v.push(Piece { bytes: b, seen });
		src.end();
	}
	v
}

/// A stream of anything.
fn wild_stream(sim: &W, rbuf: usize, n: usize, cap: usize) -> Vec<u8> {
	let mut w = sim.w.borrow_mut();
	let w = &mut *w;
	let mut v = vec![];
	for _ in 0..n {
		w.src.begin();
		let mut b = match w.src.weighted(&[5, 2, 2, 1]) {
			0 => gen_instr(&mut w.src, rbuf.min(cap)),
			1 => noise(&mut w.src),
			3 => proto::encode(w.src.flat_byte(), STATUS, &[]),
			_ => {
				let mut b = proto::HDR.to_vec();
				b.push(w.src.flat_byte());
				let len = match w.src.weighted(&[3, 1]) {
					0 => w.src.below(rbuf as u64 + 4) as u16,
					_ => w.src.below(0x1_0000) as u16,
				};
				b.extend(len.to_le_bytes());
				let k = if cap > 80 { w.src.skewed(rbuf as u64) } else { w.src.below(12) } as usize;
				b.extend(w.src.bytes(k));
				b
			},
		};
		if w.src.chance(350) {
			let f = LineFaults { flip: 200, loss: 200, dup: 150, insert: 150, trunc: 150, crc: 200, hdr: 100, len: 200, ..Default::default() };
			damage(w, &mut b, &f);
		}
		v.extend(b);
		w.src.end();
	}
	v
}

/// How a stream is cut: sizes of the pieces, and pauses before them.
fn cuts(src: &mut Src, n: usize) -> Vec<(usize, u64)> {
	let style = src.weighted(&[3, 2, 2]);
	let mut v = vec![];
	let mut left = n;
	while left > 0 {
		let k = match style {
			0 => src.us(1, left.min(24)),
			1 => 1,
			_ => (1 + src.skewed(left as u64 - 1) as usize).min(left),
		};
		let gap = match src.weighted(&[4, 2, 1]) {
			0 => 0,
			1 => src.below(300 * US),
			_ => src.below(12 * MS),
		};
		v.push((k, gap));
		left -= k;
	}
	v
}

/// C05: the same bytes, delivered in different ways.
pub fn c05(sim: &W) {
	fragments(sim, Stream::Short);
}

/// C05 with large buffers, or long streams.
pub fn c05_large(sim: &W) {
	fragments(sim, Stream::Large);
}

/// C05 for a long time: neither packets nor noise nor errors wear the reader out.
pub fn c05_long(sim: &W) {
	fragments(sim, Stream::Long);
}

#[derive(Clone, Copy, PartialEq)]
enum Stream {
	Short,
	Large,
	Long,
}

fn fragments(sim: &W, length: Stream) {
	let big = length == Stream::Large;
	let (kind, rbuf, clean) = {
		let mut w = sim.w.borrow_mut();
		let rb = match w.src.weighted(&[2, 2, 2]) {
			x if big => [128, w.src.us(250, 1_500), w.src.us(1_500, 9_000)][x],
			0 => 128,
			1 => w.src.us(10, 40),
			_ => w.src.us(10, 300),
		};
		(3 - w.src.below(4) as u8, rb, w.src.chance(if length == Stream::Long { 900 } else { 600 }))
	};
	let mut mix = [8, 3, 3, 1];
	let (n, cap) = {
		let mut w = sim.w.borrow_mut();
		match (length, rbuf) {
			(Stream::Short, _) => (w.src.us(1, 9), 80),
			(Stream::Large, 0..1500) => (w.src.us(20, 600), 80),
			(Stream::Large, _) => (w.src.us(1, 12), rbuf),
			(Stream::Long, _) => {
				// Mostly one kind of thing, sometimes more often than a counter of 16 bits can count.
				let k = w.src.below(4) as usize;
				mix[k] += 60;
				let n = if w.src.chance(30) { w.src.us(66_000, 75_000) } else { w.src.us(300, 2_500) };
				w.probe(if n > 0x1_0000 { "more packets than 16 bits count" } else { "long stream" });
				(n, 4)
			},
		}
	};
	let (stream, want) = if clean {
		let p = clean_stream(&mut sim.w.borrow_mut().src, kind, rbuf, n, cap, &mix);
		let mut stream = vec![];
		let mut want = vec![];
		let mut ok = true;
		for (i, x) in p.iter().enumerate() {
			stream.extend(&x.bytes);
			want.extend(x.seen.clone());
			// The body of a packet that is skipped must not look like a packet.
			if matches!(x.seen, Some(Seen::Err(E::BufFull(..)))) && x.bytes[1..].windows(4).any(|y| y == proto::HDR) {
				ok = false;
			}
			let _ = i;
		}
		// Pieces next to each other must not form another header.
		let starts: Vec<usize> = p
			.iter()
			.scan(0, |a, x| {
				let s = *a;
				*a += x.bytes.len();
				Some((s, x.bytes.len(), x.bytes.starts_with(&proto::HDR)))
			})
			.filter(|x| x.2)
			.map(|x| x.0)
			.collect();
		let mut i = 0;
		let mut at = 0;
		for x in &p {
			if !x.bytes.starts_with(&proto::HDR) {
				// Noise: any header that begins in it, also one completed by what follows.
				for k in at..at + x.bytes.len() {
					if stream[k..].starts_with(&proto::HDR) && !starts.contains(&k) {
						ok = false;
					}
				}
			}
			at += x.bytes.len();
			i += 1;
		}
		let _ = i;
		// Forms that parse the parameters report malformed ones: only raw packets are compared to the full extent.
		let want: Option<Vec<Seen>> = if ok && (kind == 3 || kind == 2) { Some(want) } else { None };
		(stream, want)
	} else {
		(wild_stream(sim, rbuf, n, cap), None)
	};
	sim.w.borrow_mut().note("stream", &stream, || format!("reader {kind}, read buffer {rbuf}: {}", proto::hex(&stream)));
	let mut results: Vec<Vec<Seen>> = vec![];
	let variants = sim.w.borrow_mut().src.us(2, if length == Stream::Long { 2 } else { 4 });
	for v in 0..variants {
		let (cfg, pieces) = {
			let mut w = sim.w.borrow_mut();
			if v == 0 {
				(PortCfg::default(), vec![(stream.len(), 0)])
			} else {
				let mut cfg = bench::healthy_port(&mut w.src);
				cfg.f_zero = w.src.pick(&[0, 0, 60]);
				(cfg, cuts(&mut w.src, stream.len()))
			}
		};
		let port = sim.w.borrow_mut().add_port(57_600, cfg);
		let mut rd = Reader::new(sim, port, kind, rbuf);
		let style = if v == 0 { 0 } else { sim.w.borrow_mut().src.below(3) };
		let r = deliver(sim, &stream, &pieces, &mut rd, port, &mut |s| match style {
			0 => 50 * MS,
			1 => s.pick(&[0, 100 * US, 700 * US, 5 * MS]),
			_ => s.below(2 * MS),
		});
		sim.w.borrow_mut().st.ops += 1;
		match r {
			Ok(r) => results.push(r),
			// Not for this property to judge.
			Err(_) => return,
		}
	}
	let mut w = sim.w.borrow_mut();
	for (i, r) in results.iter().enumerate().skip(1) {
		if *r != results[0] {
			let k = r.iter().zip(&results[0]).position(|(a, b)| a != b).unwrap_or(r.len().min(results[0].len()));
			w.fail(
				"C05",
				format!("delivery differs: item {k} is {:?} when everything arrives at once, and {:?} in delivery {i}", results[0].get(k), r.get(k)),
			);
			return;
		}
	}
	if let Some(want) = want {
		w.probe("stream with known content");
		if results[0] != want {
			let r = &results[0];
			let k = r.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(r.len().min(want.len()));
			w.fail("C05", format!("item {k} of the stream is delivered as {:?}, expected {:?}", r.get(k), want.get(k)));
		}
	}
	if results[0].len() > 1 {
		w.probe("several items in one stream");
	}
	if results[0].windows(2).any(|x| matches!(x[0], Seen::Err(E::Checksum(..))) && !matches!(x[1], Seen::Err(_))) {
		w.probe("good packet right after a checksum error");
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// C06

/// Adversarial bytes.
fn nasty(sim: &W, ids: &[u8], op: &Op, rbuf: usize) -> Vec<u8> {
	let kind = sim.w.borrow_mut().src.weighted(&[4, 3, 3, 3]);
	if kind == 0 {
		return rogue(sim, ids, op, 200.max(rbuf));
	}
	let mut w = sim.w.borrow_mut();
	let w = &mut *w;
	let src = &mut w.src;
	src.begin();
	let id = match src.weighted(&[3, 1]) {
		0 => src.pick(ids),
		_ => src.flat_byte(),
	};
	let v = match kind {
		1 => {
			// A valid checksum around any body, with partial stuffing and odd lengths.
			let k = match src.weighted(&[3, 2]) {
				0 => src.below(6) as usize,
				_ => src.below((rbuf as u64).min(120) + 2) as usize,
			};
			let mut body: Vec<u8> = (0..k).map(|_| src.byte()).collect();
			if let (Some(x), true) = (body.first_mut(), src.chance(800)) {
				*x = src.pick(&[STATUS, STATUS, STATUS, 0x01, 0x02, 0x03, 0x04, 0x06, 0x10, 0x82, 0x83, 0x92, 0x93]);
			}
			if src.chance(150) && k >= 3 {
				body[k - 3..].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
			}
			proto::encode_raw_body(id, &body)
		},
		2 => {
			// A header with any length and any amount behind it.
			let mut b = proto::HDR.to_vec();
			b.push(id);
			let len = match src.weighted(&[3, 2, 2]) {
				0 => src.below(6) as u16,
				1 => (rbuf as u16).wrapping_sub(10).wrapping_add(src.below(8) as u16),
				_ => src.below(0x1_0000) as u16,
			};
			b.extend(len.to_le_bytes());
			let k = src.skewed(rbuf as u64 + 20) as usize;
			b.extend(src.bytes(k));
			b
		},
		_ => {
			let k = src.skewed(rbuf as u64 * 2 + 20) as usize;
			(0..k).map(|_| src.byte()).collect()
		},
	};
	src.end();
	w.fk(Fk::Noise);
	v
}

/// How long the calls of an operation may take at most, counted from the end of the transmission.
fn bounds(op: &Op, out: &Out, calls: &[Call], baud: u32, slack: u64) -> Result<(), String> {
	let start = calls
		.iter()
		.find_map(|c| match c {
			Call::Write { end, .. } => Some(*end),
			_ => None,
		})
		.unwrap_or(out.t0);
	let win = |n: u16| proto::reply_window(u64::from(n), baud);
	let late = |what: &str, t1: u64, t0: u64, max: u64| {
		if t1 > t0 + max + slack {
			Err(format!("{what} took {} ns, the deadline was after {max} ns", t1 - t0))
		} else {
			Ok(())
		}
	};
	let reps = ops::replies(op);
	match &out.res {
		Res::Panic(m) => return Err(format!("panicked: {m}")),
		Res::Hang => return Err("never returned".into()),
		Res::Single(_) => {
			let max = match op {
				Op::ReadStatus { expected } => win(*expected),
				Op::ReadStatusTimeout { ns } => *ns,
				Op::Read { .. } | Op::ReadBytes { .. } => win(reps.first().map_or(0, |r| r.1)),
				_ if ops::is_broadcast_write(op) => 0,
				_ => win(reps.first().map_or(0, |r| r.1)),
			};
			late("the call", out.t1, start, max)?;
		},
		Res::Write(_) | Res::Baud(_) | Res::Multi(Err(_)) => late("the call", out.t1, start, 0)?,
		Res::Multi(Ok(m)) => {
			let scan = matches!(op, Op::Scan { .. });
			let scan_win = 253 * proto::transfer_ns(14, baud) + 34 * MS;
			for (i, it) in m.items.iter().enumerate() {
				let max = if scan { scan_win } else { reps.get(i).map_or(0, |r| win(r.1)) };
				late(&format!("result {i}"), it.t1, it.t0, max)?;
			}
			if let Some((a, b)) = m.ended {
				late("ending the iteration", b, a, if scan { scan_win } else { 0 })?;
			}
			if scan {
				// Every message takes bytes, of which there is a limited number.
				let reads = calls.iter().filter(|c| matches!(c, Call::Read { .. })).count() as u64;
				late("dropping the scan", m.drop.1, m.drop.0, scan_win * (reads + 1))?;
			} else {
				let left: u64 = reps.iter().skip(m.items.len()).map(|r| win(r.1)).sum();
				late("dropping the iterator", m.drop.1, m.drop.0, left)?;
			}
			if m.unfused {
				return Err("yielded another item after its end".into());
			}
			if m.items.len() >= 2000 {
				return Err("never returned the end of the iteration".into());
			}
		},
	}
	Ok(())
}

/// C06, client side.
pub fn c06(sim: &W) {
	adverse(sim, false);
}

/// C06 with large buffers and packets.
pub fn c06_large(sim: &W) {
	adverse(sim, true);
}

fn adverse(sim: &W, big: bool) {
	let max_data = if big { sim.w.borrow_mut().src.pick(&[600, 2_500, 9_000, 65_535]) } else { 80 };
	let s = Setup { motors: (1, 3), dev: 100, missing: 100, max_data, tight: !big };
	let mut b = Bench::healthy(sim, &s);
	b.bus.borrow_mut().chain_break = false;
	let port = b.port;
	{
		// Any read buffer the constructor accepts.
		let mut w = sim.w.borrow_mut();
		let rb = match w.src.weighted(&[2, 3, 1]) {
			0 => b.rbuf,
			1 if big => w.src.us(250, 2 * max_data),
			1 => w.src.us(0, 30),
			_ => w.src.us(7, 12),
		};
		let cost = w.src.pick(&[0, 0, 30 * US]);
		w.ports[port].cfg.strict = cost > 0 || w.src.chance(300);
		w.ports[port].cfg.read_cost = cost;
		drop(w);
		let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
			Client::with_buffers(SimPort::new(sim, port), vec![0; rb], vec![0; b.wbuf]).unwrap()
		}));
		// A buffer that the constructor does not accept is nothing to test with.
		let Ok(cl) = made else { return };
		b.cl = cl;
		b.rbuf = rb;
		b.g.rbuf = rb;
	}
	let cost = sim.w.borrow().ports[port].cfg.read_cost;
	let n = b.src(|s| if big { s.us(1, 6) } else { s.rounds(2, 10) });
	let stuck = b.src(|s| s.stuck());
	for i in 0..n {
		let g = b.g.clone();
		if i == 0 || !stuck {
			let mut w = sim.w.borrow_mut();
			let w = &mut *w;
			let all = w.src.chance(300);
			b.bus.borrow_mut().f = if all {
				LineFaults { flip: 100, loss: 100, insert: 100, len: 100, crc: 50, wronglen: 100, notstatus: 50, foreign: 50, noise: 100, late: 100, ..Default::default() }
			} else {
				LineFaults::default()
			};
			let c = &mut w.ports[port].cfg;
			c.f_read = w.src.pick(&[0, 0, 0, 100, 500]);
			c.f_zero = w.src.pick(&[0, 0, 0, 50, 1000]);
			c.f_discard = w.src.pick(&[0, 0, 0, 200]);
			c.f_write = w.src.pick(&[0, 0, 0, 200]);
			c.dead = w.src.chance(60);
			c.discard_noop = w.src.chance(150);
			c.room = w.src.room();
		}
		let mut op = b.src(|s| match s.weighted(&[8, 8, 1, 1, 3]) {
			0 => g.unicast(s),
			1 => g.multi_read(s, true),
			2 => g.broadcast(s),
			3 => g.multi_write(s),
			_ => match s.below(3) {
				0 => Op::ReadStatus { expected: s.skewed(0xFFFF) as u16 },
				1 => Op::ReadStatusTimeout { ns: s.skewed(80 * MS) },
				_ => Op::Ping { id: BROADCAST },
			},
		});
		if ops::must_panic(&op) {
			continue;
		}
		if let (Op::SyncRead { ids, .. } | Op::SyncReadBytes { ids, .. }, true) = (&mut op, b.src(|s| s.chance(100))) {
			// Long lists, nobody answers.
			let k = b.src(|s| s.us(0, 250));
			*ids = (0..k).map(|i| (i % 253) as u8).collect();
		}
		if sim.w.borrow().ports[port].cfg.f_zero == 1000 {
			// A read that never returns anything takes time: keep that bounded.
			if let Op::Scan { take, .. } = &mut op {
				*take = Some(1);
			}
			if let Op::ReadStatus { expected } = &mut op {
				*expected = 0;
			}
		}
		let k = b.src(|s| s.weighted(&[1, 3, 3, 2, 1]));
		for _ in 0..k {
			let v = nasty(sim, &g.ids, &op, b.rbuf.max(12));
			if v.is_empty() {
				continue;
			}
			let mut w = sim.w.borrow_mut();
			let now = w.now;
			let w = &mut *w;
			let at = match w.src.weighted(&[2, 3, 2]) {
				0 => 0,
				1 => w.src.below(2 * MS),
				_ => w.src.below(80 * MS),
			};
			w.at(now + at, Ev::Rx { port, bytes: v });
		}
		let baud = b.cl.baud_rate();
		let out = b.exec(&op);
		let calls = b.calls();
		let slack = 1000 + 8 * cost + 400 * US * u64::from(sim.w.borrow().ports[port].cfg.f_zero > 0);
		// Reads that cost time add up where several calls are summed.
		let slack = if matches!(op, Op::SyncRead { .. } | Op::SyncReadBytes { .. } | Op::BulkRead { .. } | Op::Scan { .. }) {
			slack * (1 + calls.len() as u64)
		} else {
			slack
		};
		if let Err(e) = bounds(&op, &out, &calls, baud, slack) {
			b.fail("C06", format!("{op:?} with a read buffer of {}: {e}", b.rbuf));
			return;
		}
		sim.w.borrow_mut().ports[port].cfg.dead = false;
		if b.src(|s| s.chance(500)) {
			b.settle();
		}
	}
}

/// C06, device side.
pub fn c06_dev(sim: &W) {
	let (port, rb) = {
		let mut w = sim.w.borrow_mut();
		let mut cfg = bench::healthy_port(&mut w.src);
		cfg.strict = cfg.read_cost > 0 || cfg.strict;
		let baud = bench::gen_baud(&mut w.src);
		let port = w.add_port(baud, cfg);
		let rb = match w.src.weighted(&[2, 3, 1]) {
			0 => 128,
			1 => w.src.us(0, 30),
			_ => w.src.us(7, 300),
		};
		(port, rb)
	};
	let wb = sim.w.borrow_mut().src.us(10, 60);
	let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		Device::with_buffers(SimPort::new(sim, port), vec![0; rb], vec![0; wb]).unwrap()
	}));
	let Ok(mut dev) = made else { return };
	let cost = sim.w.borrow().ports[port].cfg.read_cost;
	let n = sim.w.borrow_mut().src.rounds(2, 20);
	for _ in 0..n {
		let k = sim.w.borrow_mut().src.weighted(&[1, 3, 2]);
		for _ in 0..k {
			let like = Op::Write { ty: 0, id: 1, addr: 0, val: vec![0] };
			let mut v = nasty(sim, &[1, 2, BROADCAST], &like, rb.max(12));
			let mut w = sim.w.borrow_mut();
			let w = &mut *w;
			if w.src.chance(300) {
				v = gen_instr(&mut w.src, rb.min(100));
			}
			if !v.is_empty() {
				let at = w.now + w.src.below(3 * MS);
				w.at(at, Ev::Rx { port, bytes: v });
			}
		}
		let (kind, t, f) = {
			let mut w = sim.w.borrow_mut();
			let w = &mut *w;
			let c = &mut w.ports[port].cfg;
			c.f_read = w.src.pick(&[0, 0, 0, 100]);
			c.f_zero = w.src.pick(&[0, 0, 0, 50, 1000]);
			c.f_discard = w.src.pick(&[0, 0, 200]);
			c.f_write = w.src.pick(&[0, 0, 200]);
			c.dead = w.src.chance(30);
			c.room = w.src.room();
			(w.src.weighted(&[4, 4, 4, 1]) as u8, w.src.pick(&[0, 100 * US, 2 * MS, 10 * MS]), c.f_zero)
		};
		ops::begin_op(sim, port);
		sim.w.borrow_mut().st.ops += 1;
		let t0 = sim.w.borrow().now;
		let r = if kind < 3 {
			dev_read(&mut dev, kind, Duration::from_nanos(t)).map(|_| ())
		} else {
			let e = sim.w.borrow_mut().src.flat_byte();
			let k = sim.w.borrow_mut().src.us(0, 70);
			std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				let _ = dev.write_status(e, e, k, |b| {
					b.fill(0xFF);
					Ok(())
				});
			}))
			.map_err(ops::panic_text)
		};
		let (t1, hung, blocking) = {
			let w = sim.w.borrow();
			(w.now, w.ports[port].hung, w.ports[port].cfg.blocking_write)
		};
		let mut w = sim.w.borrow_mut();
		if hung {
			w.fail("C06", format!("device call {kind} with a read buffer of {rb}: never returned"));
			return;
		}
		if let Err(r) = r {
			w.fail("C06", format!("device call {kind} with a read buffer of {rb}: panicked: {r:?}"));
			return;
		}
		let slack = 1000 + 8 * cost + if f > 0 { 400 * US } else { 0 };
		if kind < 3 && t1 > t0 + t + slack {
			w.fail("C06", format!("device read with a timeout of {t} ns took {} ns", t1 - t0));
			return;
		}
		if kind == 3 && t1 > t0 && !blocking {
			w.fail("C06", format!("device write took {} ns", t1 - t0));
			return;
		}
		w.ports[port].cfg.dead = false;
	}
}

/// C06: multi reads and scans on a port that only returns errors, with the end of every iteration reached.
pub fn c06_dead(sim: &W) {
	let s = Setup { motors: (1, 3), dev: 0, missing: 0, max_data: 40, ..Default::default() };
	let mut b = Bench::healthy(sim, &s);
	let port = b.port;
	let n = b.src(|s| s.us(1, 5));
	for _ in 0..n {
		let g = b.g.clone();
		let mut op = b.src(|s| g.multi_read(s, true));
		let from = b.src(|s| s.below(4));
		let full = b.src(|s| s.chance(600));
		if let Op::Scan { take, .. } | Op::SyncRead { take, .. } | Op::SyncReadBytes { take, .. } | Op::BulkRead { take, .. } = &mut op {
			*take = if full { None } else { Some(from as usize) };
		}
		{
			let mut w = sim.w.borrow_mut();
			// Dead at once, or from some point on.
			if w.src.chance(600) {
				w.ports[port].cfg.dead = true;
			} else {
				w.ports[port].cfg.f_read = w.src.pick(&[500, 900, 1000]);
			}
		}
		let baud = b.cl.baud_rate();
		let out = b.exec(&op);
		let calls = b.calls();
		let cost = sim.w.borrow().ports[port].cfg.read_cost;
		if let Err(e) = bounds(&op, &out, &calls, baud, (1000 + 8 * cost) * (1 + calls.len() as u64)) {
			b.fail("C06", format!("{op:?} on a failing port: {e}"));
			return;
		}
		let c = &mut sim.w.borrow_mut().ports[port].cfg;
		c.dead = false;
		c.f_read = 0;
		drop(out);
	}
}

/// C06: a port whose baud rate is 0 (a line that is hung up), where no window can be computed.
pub fn c06_zero(sim: &W) {
	let s = Setup { motors: (1, 3), dev: 100, missing: 200, max_data: 60, ..Default::default() };
	let mut b = Bench::healthy(sim, &s);
	let port = b.port;
	if b.src(|s| s.chance(500)) {
		sim.w.borrow_mut().ports[port].cfg.zero_baud = true;
		b.cl = Client::with_buffers(SimPort::new(sim, port), vec![0; b.rbuf], vec![0; b.wbuf]).unwrap();
	} else {
		b.exec(&Op::SetBaud { baud: 0 });
	}
	let n = b.src(|s| s.us(1, 5));
	for _ in 0..n {
		let g = b.g.clone();
		let mut op = b.src(|s| match s.weighted(&[8, 6, 1, 1, 2]) {
			0 => g.unicast(s),
			1 => g.multi_read(s, true),
			2 => g.broadcast(s),
			3 => g.multi_write(s),
			_ => match s.below(3) {
				0 => Op::ReadStatus { expected: s.skewed(0xFFFF) as u16 },
				1 => Op::ReadStatusTimeout { ns: s.skewed(80 * MS) },
				_ => Op::SetBaud { baud: 0 },
			},
		});
		if ops::must_panic(&op) {
			continue;
		}
		if let Op::SetBaud { baud } = &mut op {
			*baud = 0;
		}
		sim.w.borrow_mut().ports[port].cfg.dead = b.src(|s| s.chance(100));
		let out = b.exec(&op);
		let bad = match &out.res {
			Res::Panic(m) => Some(format!("panicked: {m}")),
			Res::Hang => Some("never returned".into()),
			Res::Multi(Ok(m)) if m.items.len() >= 2000 => Some("never returned the end of the iteration".into()),
			_ => match op {
				Op::ReadStatusTimeout { ns } if out.t1 > out.t0 + ns + 50 * MS => Some(format!("took {} ns instead of {ns}", out.t1 - out.t0)),
				_ => None,
			},
		};
		if let Some(e) = bad {
			b.fail("C06", format!("{op:?} at a baud rate of 0: {e}"));
			return;
		}
		sim.w.borrow_mut().probe("baud rate of 0");
		b.settle();
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// C07

const TOL: u64 = 1000;

/// Noise that cannot be the start of a packet, so that it is only skipped.
fn harmless(src: &mut Src) -> Vec<u8> {
	let mut v = safe_noise(src);
	// Nor together with whatever comes next.
	v.push(0x01);
	v
}

/// Also rates that no motor supports: the windows follow from them all the same.
fn any_baud(src: &mut Src) -> u32 {
	match src.weighted(&[16, 1, 1]) {
		0 => bench::gen_baud(src),
		1 => src.int(1, 300) as u32,
		_ => src.int(12_000_000, 0xFFFF_FFFF) as u32,
	}
}

/// C07: exact response windows.
pub fn c07(sim: &W) {
	let (baud0, rbuf) = {
		let mut w = sim.w.borrow_mut();
		(any_baud(&mut w.src), w.src.pick(&[128usize, 400, 4096]))
	};
	let cfg = {
		let mut w = sim.w.borrow_mut();
		PortCfg { chunk: w.src.weighted(&[4, 2, 3]) as u8, strict: w.src.chance(300), blocking_write: w.src.chance(500), ..Default::default() }
	};
	let port = sim.w.borrow_mut().add_port(baud0, cfg);
	let kind = sim.w.borrow_mut().src.below(2);
	let mut cl: ops::Cl = if kind == 0 && rbuf == 128 {
		Client::new(SimPort::new(sim, port)).unwrap()
	} else {
		Client::with_buffers(SimPort::new(sim, port), vec![0; rbuf], vec![0; rbuf]).unwrap()
	};
	let mut rate = baud0;
	let g = bench::Gen { ids: vec![1, 7, 0xFC], max_data: rbuf.saturating_sub(30).min(300), missing: 0, rbuf, wbuf: rbuf };
	let mut silence = 0;
	let n = sim.w.borrow_mut().src.rounds(2, 9);
	for _ in 0..n {
		if sim.w.borrow_mut().src.chance(250) {
			let b = any_baud(&mut sim.w.borrow_mut().src);
			let fails = sim.w.borrow_mut().src.chance(400);
			sim.w.borrow_mut().ports[port].cfg.f_baud = if fails { 1000 } else { 0 };
			let out = ops::exec(sim, port, &mut cl, &Op::SetBaud { baud: b });
			match out.res {
				Res::Baud(Ok(())) if !fails => rate = b,
				Res::Baud(Err(_)) if fails => {},
				r => {
					sim.w.borrow_mut().fail("C07", format!("setting the baud rate (port fails: {fails}) gave {r:?}"));
					return;
				},
			}
			sim.w.borrow_mut().probe(if fails { "baud rate change failed" } else { "baud rate changed" });
			if cl.baud_rate() != rate {
				sim.w.borrow_mut().fail("C07", format!("the client claims {} baud, last set successfully was {rate}", cl.baud_rate()));
				return;
			}
		}
		if silence == 0 && sim.w.borrow_mut().src.chance(60) {
			// While nobody has it, somebody else may change the rate of the port.
			if sim.w.borrow_mut().src.chance(300) {
				rate = any_baud(&mut sim.w.borrow_mut().src);
				sim.w.borrow_mut().ports[port].baud = rate;
			}
			cl = match bench::handover(sim, port, cl, rbuf, rbuf) {
				Ok(cl) => cl,
				Err(e) => {
					sim.w.borrow_mut().fail("C07", e);
					return;
				},
			};
		}
		// In a long run nobody answers for a while, now and then.
		if sim.w.borrow().src.long {
			if silence == 0 && sim.w.borrow_mut().src.chance(5) {
				silence = sim.w.borrow_mut().src.us(10, 1_000);
			}
			silence = silence.saturating_sub(1);
		}
		one_wait(sim, port, &mut cl, &g, rate, silence > 0);
		if failed(sim) {
			return;
		}
		drain(sim);
		let t = sim.w.borrow().now + 100 * US;
		run_until(sim, t);
		// Remove what came late: only an instruction discards input, a plain status read continues with it.
		let out = ops::exec(sim, port, &mut cl, &Op::BAction);
		if !matches!(out.res, Res::Write(Ok(()))) {
			sim.w.borrow_mut().fail("C07", format!("broadcast action: {:?}", out.res));
			return;
		}
		drain(sim);
		let t = sim.w.borrow().tx_busy.max(sim.w.borrow().now);
		run_until(sim, t);
	}
}

/// One operation whose reply is placed relative to the deadline.
fn one_wait(sim: &W, port: usize, cl: &mut ops::Cl, g: &bench::Gen, rate: u32, silence: bool) {
	let op = {
		let mut w = sim.w.borrow_mut();
		let s = &mut w.src;
		match s.weighted(&[6, 3, 2, 2, if silence { 0 } else { 2 }]) {
			0 => loop {
				let op = g.unicast(s);
				if !matches!(op, Op::Raw { .. }) {
					break op;
				}
			},
			1 => {
				// The expectation, not the data that arrives, decides how long a raw transfer waits.
				let n = s.skewed(300) as usize;
				Op::Raw { id: s.pick(&g.ids), instr: 0x20, params: s.bytes(n.min(20)), expected: s.skewed(0xFFFF) as u16 }
			},
			2 => Op::ReadStatus { expected: s.skewed(0xFFFF) as u16 },
			3 => Op::ReadStatusTimeout { ns: match s.weighted(&[2, 1]) {
				0 => s.below(100 * MS),
				_ => s.pick(&[0, 1, US, MS, 34 * MS, 3_000 * MS]),
			} },
			_ => {
				// Sometimes some or all of the replies are left to the destructor.
				let take = if s.chance(250) { Some(s.us(0, 3)) } else { None };
				let count = |s: &mut Src| match s.weighted(&[4, 2]) {
					0 => s.below(60) as u16,
					_ => s.below(g.rbuf as u64) as u16,
				};
				let k = s.us(1, 4);
				match s.below(4) {
					0 => Op::Scan { take, via: s.below(2) as u8 },
					1 => Op::SyncRead { ty: s.below(8) as usize, ids: (1..=k as u8).collect(), addr: 3, take, via: s.below(2) as u8 },
					2 => Op::SyncReadBytes { ids: (1..=k as u8).collect(), addr: 3, count: count(s), take, via: s.below(3) as u8 },
					_ => Op::BulkRead { reads: (1..=k as u8).map(|i| (i, 3, count(s))).collect(), take, via: s.below(3) as u8 },
				}
			},
		}
	};
	if let Some((_, i, p)) = ops::wire(&op) {
		if proto::encoded_len(i, &p) > g.wbuf {
			return;
		}
	}
	let now = sim.w.borrow().now;
	// When the waiting starts: when the transmission is over.
	let start = match ops::wire(&op) {
		None => now,
		Some((_, i, p)) => {
			let w = sim.w.borrow();
			if w.ports[port].cfg.blocking_write {
				now.max(w.tx_busy) + proto::transfer_ns(proto::encoded_len(i, &p) as u64, w.ports[port].baud)
			} else {
				now
			}
		},
	};
	let reps = ops::replies(&op);
	let win = |n: u16| proto::reply_window(u64::from(n), rate);
	let scan = matches!(op, Op::Scan { .. });
	if matches!(op, Op::Scan { .. } | Op::SyncRead { .. } | Op::SyncReadBytes { .. } | Op::BulkRead { .. }) {
		multi_wait(sim, port, cl, &op, start, rate, g.rbuf);
		return;
	}
	let _ = scan;
	let window = match &op {
		Op::ReadStatus { expected } | Op::Raw { expected, .. } => win(*expected),
		Op::ReadStatusTimeout { ns } => *ns,
		_ => win(reps[0].1),
	};
	let deadline = start + window;
	let id = reps.first().map_or(1, |r| r.0);
	let count = match &op {
		Op::Raw { .. } | Op::ReadStatus { .. } | Op::ReadStatusTimeout { .. } => sim.w.borrow_mut().src.below(20) as u16,
		_ => reps[0].1,
	};
	let mode;
	let mut data = vec![];
	let mut noisy = false;
	{
		let mut w = sim.w.borrow_mut();
		let w = &mut *w;
		let room = window > 10 * TOL && !silence;
		mode = if room { w.src.weighted(&[2, 4, 3, 2]) } else { 0 };
		let delta = match w.src.weighted(&[2, 1, 1]) {
			0 => 2 * TOL,
			1 => 2 * TOL + w.src.below(50 * US).min(window / 3),
			_ => 2 * TOL + w.src.below(window / 2),
		};
		data = if mode == 0 { data } else { w.src.bytes(usize::from(count)) };
		let wire = proto::status(id, 0, &data);
		if wire.len() > g.rbuf {
			return;
		}
		// Spread over the window, the last byte at the chosen moment.
		let spread = |w: &mut crate::world::World, end: u64, bytes: &[u8], first: u64| {
			let k = w.src.us(0, 4);
			let mut cut: Vec<usize> = (0..k).map(|_| w.src.below(bytes.len() as u64) as usize).filter(|x| *x > 0).collect();
			cut.sort_unstable();
			cut.dedup();
			let mut times: Vec<u64> = cut.iter().map(|_| first + w.src.below(end - first + 1)).collect();
			times.sort_unstable();
			let mut a = 0;
			for (c, t) in cut.iter().zip(times) {
				w.at(t, Ev::Rx { port, bytes: bytes[a..*c].to_vec() });
				a = *c;
			}
			w.at(end, Ev::Rx { port, bytes: bytes[a..].to_vec() });
			if !cut.is_empty() {
				w.fk(Fk::Fragment);
			}
		};
		// Noise comes first, in its own time.
		let mut first = start + 1;
		if w.src.chance(400) && room {
			noisy = true;
			let k = w.src.int(1, 3);
			let last = if mode == 1 { window.saturating_sub(delta) / 2 } else { window - 2 };
			for _ in 0..k {
				let x = harmless(&mut w.src);
				let at = start + 1 + w.src.below(last.max(1));
				first = first.max(at);
				w.fk(Fk::Noise);
				w.at(at, Ev::Rx { port, bytes: x });
			}
		}
		match mode {
			1 => {
				let end = deadline - delta;
				if end <= first {
					return;
				}
				spread(w, end, &wire, first);
			},
			2 => {
				// Complete only after the deadline.
				w.fk(Fk::ReplyLate);
				let end = deadline + delta;
				if noisy {
					w.at(end, Ev::Rx { port, bytes: wire });
				} else {
					spread(w, end, &wire, first);
				}
			},
			3 => {
				// Never complete.
				w.fk(Fk::Truncate);
				let k = w.src.us(1, wire.len() - 1);
				let at = first + w.src.below(deadline - first);
				w.at(at, Ev::Rx { port, bytes: wire[..k].to_vec() });
			},
			_ => {},
		}
	}
	let out = ops::exec(sim, port, cl, &op);
	let mut w = sim.w.borrow_mut();
	let Res::Single(r) = &out.res else {
		w.fail("C07", format!("{op:?}: {:?}", out.res));
		return;
	};
	if mode == 1 {
		let good = matches!(r, Ok(x) if x.data == data || matches!(op, Op::Ping { .. } if x.data.len() == 3));
		if !good {
			w.fail("C07", format!("{op:?}: a complete reply arrived before the end of the window of {window} ns at {rate} baud, but the result is {r:?}"));
		} else if out.t1 > deadline {
			w.fail("C07", format!("{op:?}: returned after the deadline"));
		}
		w.probe("reply just in time");
	} else {
		if !matches!(r, Err(e) if e.is_timeout()) {
			w.fail("C07", format!("{op:?}: no complete reply arrived within {window} ns at {rate} baud, but the result is {r:?}"));
			return;
		}
		if out.t1.abs_diff(deadline) > TOL {
			w.fail(
				"C07",
				format!("{op:?}: timed out after {} ns instead of {window} ns at {rate} baud", out.t1.saturating_sub(start)),
			);
		}
		w.probe(match (mode, noisy) {
			(2, _) => "reply just too late",
			(_, true) => "timeout in spite of noise",
			_ => "exact timeout",
		});
	}
}

/// Scans and multi reads: every result has its own window.
fn multi_wait(sim: &W, port: usize, cl: &mut ops::Cl, op: &Op, start: u64, rate: u32, rbuf: usize) {
	let reps = ops::replies(op);
	let scan = matches!(op, Op::Scan { .. });
	let windows: Vec<u64> = if scan {
		// Some replies, then silence.
		let k = sim.w.borrow_mut().src.us(0, 3);
		vec![253 * proto::transfer_ns(14, rate) + 34 * MS; k + 1]
	} else {
		reps.iter().map(|r| proto::reply_window(u64::from(r.1), rate)).collect()
	};
	// Place each reply early or just before the end of its window, or not at all.
	let mut t = start;
	let mut plan: Vec<(bool, u64)> = vec![];
	{
		let mut w = sim.w.borrow_mut();
		let w = &mut *w;
		let mut replies = vec![];
		for (i, win) in windows.iter().enumerate() {
			let present = if scan { i + 1 < windows.len() } else { w.src.chance(700) };
			if !present {
				t += win;
				plan.push((false, t));
				continue;
			}
			let delta = match w.src.weighted(&[2, 1]) {
				0 => 2 * TOL,
				_ => 2 * TOL + w.src.below(win / 2),
			};
			// Rounding adds up over the windows before.
			let at = t + win - delta - 300 * i as u64;
			let (id, n) = if scan { (i as u8 + 1, 3) } else { reps[i] };
			let d = w.src.bytes(usize::from(n));
			replies.push((at, proto::status(id, 0, &d)));
			plan.push((true, at));
			t = at;
		}
		if replies.iter().any(|r| r.1.len() > rbuf) {
			return;
		}
		for (at, bytes) in replies {
			w.at(at, Ev::Rx { port, bytes });
		}
	}
	let take = match op {
		Op::Scan { take, .. } | Op::SyncRead { take, .. } | Op::SyncReadBytes { take, .. } | Op::BulkRead { take, .. } => *take,
		_ => None,
	};
	let out = ops::exec(sim, port, cl, op);
	let mut w = sim.w.borrow_mut();
	let Res::Multi(Ok(m)) = &out.res else {
		w.fail("C07", format!("{op:?}: {:?}", out.res));
		return;
	};
	let tol = TOL * (1 + windows.len() as u64);
	let items: Vec<(bool, u64)> = m
		.items
		.iter()
		.map(|i| (i.res.is_ok(), i.t1))
		.chain(if scan { m.ended.map(|e| (false, e.1)) } else { None })
		.collect();
	let wanted = plan.len().min(take.unwrap_or(usize::MAX));
	if items.len() != wanted {
		w.fail("C07", format!("{op:?}: {} results, expected {wanted}: {items:?} {plan:?}", items.len()));
		return;
	}
	for (i, (a, b)) in items.iter().zip(&plan).enumerate() {
		if a.0 != b.0 {
			w.fail("C07", format!("{op:?}: result {i} at {rate} baud is a success: {}, expected: {} (window {} ns)", a.0, b.0, windows[i]));
			return;
		}
		if a.1.abs_diff(b.1) > tol {
			w.fail("C07", format!("{op:?}: result {i} at {rate} baud came {} ns off (window {} ns)", a.1 as i64 - b.1 as i64, windows[i]));
			return;
		}
	}
	w.probe(if scan { "scan window" } else { "windows of a multi read" });
	// What is abandoned waits for its replies just as long.
	let end = if wanted < plan.len() { plan.last().map_or(m.drop.0, |x| x.1) } else { m.drop.0 };
	if m.drop.1.abs_diff(end) > tol {
		w.fail("C07", format!("{op:?}: dropped after {wanted} of {} results at {rate} baud, it ends {} ns off (windows {windows:?}, {plan:?})", plan.len(), m.drop.1 as i64 - end as i64));
		return;
	}
	if wanted < plan.len() {
		w.fk(Fk::Abandon);
		w.probe("windows of an abandoned multi read");
	}
}

/// C07, device side: explicit timeouts, with status packets of other motors and noise in between.
pub fn c07_dev(sim: &W) {
	let (port, n) = {
		let mut w = sim.w.borrow_mut();
		let baud = bench::gen_baud(&mut w.src);
		let cfg = PortCfg { chunk: w.src.weighted(&[4, 2, 3]) as u8, strict: w.src.chance(300), ..Default::default() };
		(w.add_port(baud, cfg), w.src.us(2, 10))
	};
	let mut dev = Device::with_buffers(SimPort::new(sim, port), vec![0; 200], vec![0; 60]).unwrap();
	for _ in 0..n {
		let (form, t, deadline, mode, want) = {
			let mut w = sim.w.borrow_mut();
			let w = &mut *w;
			let form = w.src.below(3) as u8;
			let t = match w.src.weighted(&[2, 1]) {
				0 => w.src.below(100 * MS),
				_ => w.src.pick(&[0, 1, US, MS, 1_500 * MS]),
			};
			let start = w.now;
			let deadline = start + t;
			let room = t > 10 * TOL;
			let mode = if room { w.src.weighted(&[2, 3, 2]) } else { 0 };
			let delta = if w.src.chance(500) { 2 * TOL } else { 2 * TOL + w.src.below(t / 2 + 1) };
			let mut last = start + 1;
			if room {
				// Traffic of other motors, and noise.
				let k = w.src.below(4);
				for _ in 0..k {
					let b = if w.src.chance(600) {
						let n = w.src.skewed(30) as usize;
						let d = w.src.bytes(n);
						proto::status(w.src.flat_byte(), w.src.byte(), &d)
					} else {
						harmless(&mut w.src)
					};
					last += w.src.below((t / 8).max(1));
					w.at(last, Ev::Rx { port, bytes: b });
				}
			}
			let want = (w.src.flat_byte(), ins::WRITE, [&[9, 1][..], &[0xFF, 0xFF, 0xFD][..w.src.us(0, 3)]].concat());
			let wire = proto::encode(want.0, want.1, &want.2);
			match mode {
				1 => {
					let at = (deadline - delta).max(last);
					if at + TOL > deadline {
						return;
					}
					w.at(at, Ev::Rx { port, bytes: wire });
				},
				2 => {
					w.fk(Fk::ReplyLate);
					w.at(deadline + delta, Ev::Rx { port, bytes: wire });
				},
				_ => {},
			}
			(form, t, deadline, mode, want)
		};
		ops::begin_op(sim, port);
		sim.w.borrow_mut().st.ops += 1;
		let r = dev_read(&mut dev, form, Duration::from_nanos(t));
		let mut w = sim.w.borrow_mut();
		let t1 = w.now;
		match (mode, &r) {
			(1, Ok(Ok(x))) if *x == want && t1 <= deadline => w.probe("instruction just in time"),
			(0 | 2, Ok(Err(E::Io(e)))) if e.kind == ErrKind::Timeout && t1.abs_diff(deadline) <= TOL => w.probe("exact device timeout"),
			_ => {
				w.fail(
					"C07",
					format!("device read with a timeout of {t} ns (instruction {}): {r:?} after {} ns", ["absent", "in time", "late"][mode], t + t1 - deadline),
				);
				return;
			},
		}
		drop(w);
		drain(sim);
		// Fetch what came late.
		let to = sim.w.borrow().now + MS;
		run_until(sim, to);
		for _ in 0..40 {
			ops::begin_op(sim, port);
			if dev_read(&mut dev, 2, Duration::ZERO).is_ok_and(|r| r.is_err_and(|e| e.is_timeout())) && sim.w.borrow().ports[port].rx.is_empty() {
				break;
			}
		}
	}
}
