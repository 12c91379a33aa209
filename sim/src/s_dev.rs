//! C11: what a device receives is what the client meant.

#[cfg(not(feature = "full"))]
use crate::bare::*;
use crate::bench::{self, Gen};
use crate::choice::Src;
use crate::ops::{self, Op, E};
use crate::proto::{self, ins, Pkt, BROADCAST, STATUS};
use crate::world::{run_until, Call, Ev, Fk, PortCfg, SimPort, MS, US, W};

use dynamixel2::{Clear, Client, Device, FactoryReset, Instruction, Instructions};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

/// An instruction taken apart: what it is, its numbers, and its bytes.
#[derive(Clone, Debug, PartialEq)]
struct Shape {
	id: u8,
	kind: &'static str,
	nums: Vec<u16>,
	bytes: Vec<u8>,
}

fn shape<T: AsRef<[u8]>>(i: &Instruction<T>) -> Shape {
	let (kind, nums, bytes): (&'static str, Vec<u16>, &[u8]) = match &i.instruction {
		Instructions::Ping => ("ping", vec![], &[]),
		Instructions::Read { address, length } => ("read", vec![*address, *length], &[]),
		Instructions::Write { address, parameters } => ("write", vec![*address], parameters.as_ref()),
		Instructions::RegWrite { address, parameters } => ("reg write", vec![*address], parameters.as_ref()),
		Instructions::Action => ("action", vec![], &[]),
		Instructions::FactoryReset(FactoryReset::All) => ("factory reset: all", vec![], &[]),
		Instructions::FactoryReset(FactoryReset::ExceptId) => ("factory reset: keep ID", vec![], &[]),
		Instructions::FactoryReset(FactoryReset::ExceptIdBaudRate) => ("factory reset: keep ID and baud rate", vec![], &[]),
		Instructions::FactoryReset(FactoryReset::Unknown(x)) => ("factory reset: unknown", vec![u16::from(*x)], &[]),
		Instructions::Reboot => ("reboot", vec![], &[]),
		Instructions::Clear(Clear::MultiTurns) => ("clear: revolutions", vec![], &[]),
		Instructions::Clear(Clear::Errors) => ("clear: errors", vec![], &[]),
		Instructions::Clear(Clear::Reserved(x)) => ("clear: reserved", vec![u16::from(*x)], &[]),
		Instructions::SyncRead { address, length, ids } => ("sync read", vec![*address, *length], ids.as_ref()),
		Instructions::SyncWrite { address, length, parameters } => ("sync write", vec![*address, *length], parameters.as_ref()),
		Instructions::BulkRead { parameters } => ("bulk read", vec![], parameters.as_ref()),
		Instructions::BulkWrite { parameters } => ("bulk write", vec![], parameters.as_ref()),
		Instructions::Unknown { instruction, parameters } => ("unknown", vec![u16::from(*instruction)], parameters.as_ref()),
	};
	Shape { id: i.id, kind, nums, bytes: bytes.to_vec() }
}

/// The parsed form that the protocol gives to an instruction; Err if the parameters cannot be decoded.
/// The flag says that there are surplus parameters, which may be ignored or reported.
fn meaning(id: u8, instr: u8, p: &[u8]) -> (Result<Shape, ()>, bool) {
	let n = |i: usize| u16::from(p[i]) | u16::from(p[i + 1]) << 8;
	let s = |kind, nums: Vec<u16>, bytes: &[u8]| Ok(Shape { id, kind, nums, bytes: bytes.to_vec() });
	let need = |k: usize| p.len() >= k;
	match instr {
		ins::PING => (s("ping", vec![], &[]), !p.is_empty()),
		ins::ACTION => (s("action", vec![], &[]), !p.is_empty()),
		ins::REBOOT => (s("reboot", vec![], &[]), !p.is_empty()),
		ins::READ if p.len() == 4 => (s("read", vec![n(0), n(2)], &[]), false),
		ins::WRITE if need(2) => (s("write", vec![n(0)], &p[2..]), false),
		ins::REG_WRITE if need(2) => (s("reg write", vec![n(0)], &p[2..]), false),
		ins::FACTORY_RESET if p.len() == 1 => (
			match p[0] {
				0xFF => s("factory reset: all", vec![], &[]),
				1 => s("factory reset: keep ID", vec![], &[]),
				2 => s("factory reset: keep ID and baud rate", vec![], &[]),
				x => s("factory reset: unknown", vec![u16::from(x)], &[]),
			},
			false,
		),
		ins::CLEAR if need(1) => (
			match p[0] {
				1 => s("clear: revolutions", vec![], &[]),
				2 => s("clear: errors", vec![], &[]),
				x => s("clear: reserved", vec![u16::from(x)], &[]),
			},
			// The magic bytes of the protocol are 4 more; anything else is odd.
			p != [1, 0x44, 0x58, 0x4C, 0x22] && p != [2, 0x45, 0x52, 0x43, 0x4C],
		),
		ins::SYNC_READ if need(4) => (s("sync read", vec![n(0), n(2)], &p[4..]), false),
		ins::SYNC_WRITE if need(4) => (s("sync write", vec![n(0), n(2)], &p[4..]), false),
		ins::BULK_READ => (s("bulk read", vec![], p), false),
		ins::BULK_WRITE => (s("bulk write", vec![], p), false),
		ins::READ | ins::WRITE | ins::REG_WRITE | ins::FACTORY_RESET | ins::CLEAR | ins::SYNC_READ | ins::SYNC_WRITE => (Err(()), false),
		_ => (s("unknown", vec![u16::from(instr)], p), false),
	}
}

enum Read {
	Parsed(Shape),
	Raw(u8, u8, Vec<u8>),
	Err(E),
}

type Dev = Device<SimPort, Vec<u8>>;

fn read(dev: &mut Dev, form: u8, t: Duration) -> Result<Read, String> {
	catch_unwind(AssertUnwindSafe(|| match form {
		0 => dev.read(t).map(|i| Read::Parsed(shape(&i))).unwrap_or_else(|e| Read::Err(ops::rd(e))),
		1 => dev.read_owned(t).map(|i| Read::Parsed(shape(&i))).unwrap_or_else(|e| Read::Err(ops::rd(e))),
		_ => dev
			.read_raw_instruction_timeout(t)
			.map(|p| Read::Raw(p.packet_id(), p.instruction_id(), p.parameters().to_vec()))
			.unwrap_or_else(|e| Read::Err(ops::rd(e))),
	}))
	.map_err(|p| format!("{:?}", ops::panic_text(p)))
}

const FORM: [&str; 3] = ["borrowed", "owned", "raw"];

/// Does the outcome of a read show this instruction, in the form that was asked for?
fn shows(form: u8, r: &Read, p: &Pkt) -> Result<(), String> {
	let (want, surplus) = meaning(p.id, p.instr, &p.params);
	let ok = match (r, &want) {
		(Read::Raw(id, i, d), _) => form == 2 && (*id, *i) == (p.id, p.instr) && *d == p.params,
		(Read::Parsed(s), Ok(w)) => form < 2 && s == w,
		(Read::Parsed(_), Err(())) => false,
		(Read::Err(E::Count(n, _)), Err(())) => form < 2 && *n == p.params.len(),
		(Read::Err(E::Count(n, _)), Ok(_)) => form < 2 && surplus && *n == p.params.len(),
		(Read::Err(_), _) => false,
	};
	if ok {
		return Ok(());
	}
	let got = match r {
		Read::Raw(id, i, d) => format!("instruction 0x{i:02X} for {id} with {}", proto::hex(d)),
		Read::Parsed(s) => format!("{s:?}"),
		Read::Err(e) => format!("{e:?}"),
	};
	Err(format!(
		"instruction 0x{:02X} for {} with parameters {} is delivered ({}) as {got}, expected {}",
		p.instr,
		p.id,
		proto::hex(&p.params),
		FORM[usize::from(form)],
		if form == 2 {
			"the same".to_string()
		} else {
			match want {
				Ok(w) => format!("{w:?}"),
				Err(()) => "a wrong parameter count".into(),
			}
		}
	))
}

/// A device, what it still has to deliver, and when that is complete on its port.
struct Side {
	prop: &'static str,
	/// Timeouts may end this much early (the real adapter has a resolution of milliseconds).
	early: u64,
	/// Time for system calls.
	cost: u64,
	port: usize,
	dev: Dev,
	todo: VecDeque<(u64, Pkt)>,
	done: u64,
	/// Weight of packets that arrive in one piece.
	whole: u32,
}

impl Side {
	fn new(sim: &W, rbuf: usize) -> Side {
		let port = {
			let mut w = sim.w.borrow_mut();
			let baud = bench::gen_baud(&mut w.src);
			let cfg = PortCfg { chunk: w.src.weighted(&[3, 2, 3]) as u8, strict: w.src.chance(300), f_zero: w.src.pick(&[0, 0, 50]), ..Default::default() };
			w.add_port(baud, cfg)
		};
		Self::on(SimPort::new(sim, port), "C11", 0, 0, rbuf)
	}

	fn on(p: SimPort, prop: &'static str, early: u64, cost: u64, rbuf: usize) -> Side {
		Side { prop, early, cost, port: p.idx, dev: Device::with_buffers(p, vec![0; rbuf], vec![0; 64]).unwrap(), todo: VecDeque::new(), done: 0, whole: 6 }
	}

	/// Deliver the bytes of one packet from `t` on, in pieces. Returns when it is complete.
	fn send(&mut self, sim: &W, b: &[u8], mut t: u64) -> u64 {
		let mut w = sim.w.borrow_mut();
		let w = &mut *w;
		t = t.max(self.done).max(w.now);
		let mut a = 0;
		while a < b.len() {
			let n = match w.src.weighted(&[self.whole, 2, 1]) {
				0 => b.len() - a,
				1 => w.src.us(1, b.len() - a),
				_ => 1,
			};
			if a > 0 {
				w.fk(Fk::Fragment);
				t += match w.src.weighted(&[3, 2, 1]) {
					0 => 0,
					1 => w.src.below(500 * US),
					_ => w.src.below(20 * MS),
				};
			}
			w.at(t, Ev::Rx { port: self.port, bytes: b[a..a + n].to_vec() });
			a += n;
		}
		if let Some(p) = proto::decode_at(b, 0) {
			if !p.is_status() {
				self.todo.push_back((t, p));
			}
		}
		self.done = t;
		t
	}

	/// One call. False when a violation was found.
	fn call(&mut self, sim: &W, form: u8, t: u64) -> bool {
		ops::begin_op(sim, self.port);
		let t0 = sim.w.borrow().now;
		let r = match read(&mut self.dev, form, Duration::from_nanos(t)) {
			Ok(r) => r,
			Err(m) => {
				sim.w.borrow_mut().fail(self.prop, format!("device read failed: {m}"));
				return false;
			},
		};
		let mut w = sim.w.borrow_mut();
		let w = &mut *w;
		w.st.ops += 1;
		// An empty read takes 200 us in the simulated port.
		let slack = if w.ports[self.port].cfg.f_zero > 0 { 300 * US } else { US + self.cost };
		if w.now > t0 + t + slack {
			w.fail(self.prop, format!("device read with a timeout of {t} ns took {} ns", w.now - t0));
			return false;
		}
		if let Read::Err(e) = &r {
			if e.is_timeout() {
				if w.now + self.early < t0 + t {
					w.fail(self.prop, format!("device read with a timeout of {t} ns timed out after {} ns", w.now - t0));
					return false;
				}
				// Was an instruction complete well before?
				if let Some((at, p)) = self.todo.front() {
					// Empty reads may take all of a short timeout.
					let (room, need) = if slack > US { (20 * MS, 20 * MS) } else { (slack, 0) };
					if *at + room < t0 + t && t >= need {
						w.fail(self.prop, format!("timed out at {}, but instruction 0x{:02X} for {} was complete at {at}", w.now, p.instr, p.id));
						return false;
					}
				}
				return true;
			}
		}
		let Some((at, p)) = self.todo.pop_front() else {
			let m = match r {
				Read::Raw(id, i, d) => format!("instruction 0x{i:02X} for {id} with {}", proto::hex(&d)),
				Read::Parsed(s) => format!("{s:?}"),
				Read::Err(e) => format!("{e:?}"),
			};
			w.fail(self.prop, format!("device read gave {m}, but every instruction that was sent has been delivered"));
			return false;
		};
		if let Err(m) = shows(form, &r, &p) {
			w.fail(self.prop, m);
			return false;
		}
		if w.now < at {
			w.fail(self.prop, "an instruction was delivered before it was complete".into());
			return false;
		}
		if matches!(r, Read::Err(_)) {
			w.probe("malformed instruction reported");
		} else if form < 2 {
			w.probe(match meaning(p.id, p.instr, &p.params).0.map_or("", |s| s.kind) {
				"unknown" => "unknown instruction delivered",
				"sync read" | "sync write" | "bulk read" | "bulk write" => "multi-motor instruction delivered",
				_ => "instruction delivered",
			});
		}
		true
	}

	/// Read until everything that was sent has been delivered and the line is quiet.
	fn finish(&mut self, sim: &W) -> bool {
		let mut quiet = 0;
		while quiet < 2 {
			let (form, t) = {
				let w = &mut *sim.w.borrow_mut();
				(w.src.below(3) as u8, w.src.pick(&[MS, 0, 30 * MS]))
			};
			if !self.call(sim, form, t) {
				return false;
			}
			let w = sim.w.borrow();
			if self.todo.is_empty() && w.now >= self.done {
				quiet += 1;
			}
			let to = w.now + 100 * US;
			drop(w);
			run_until(sim, to);
		}
		true
	}
}

/// Parameters for an instruction: right for it, or nearly right.
fn params(src: &mut Src, instr: u8, max: usize) -> Vec<u8> {
	let n = |src: &mut Src, lo: usize| lo + src.skewed(max.saturating_sub(lo) as u64) as usize;
	let k = if src.chance(250) {
		src.below(8) as usize
	} else {
		match instr {
			ins::PING | ins::ACTION | ins::REBOOT => 0,
			ins::READ => 4,
			ins::FACTORY_RESET => 1,
			ins::CLEAR => 5,
			ins::WRITE | ins::REG_WRITE => n(src, 2),
			ins::SYNC_READ | ins::SYNC_WRITE => n(src, 4),
			_ => n(src, 0),
		}
	}
	.min(max);
	let mut p = src.bytes(k);
	match instr {
		ins::FACTORY_RESET if k > 0 && src.chance(700) => p[0] = src.pick(&[0xFF, 1, 2, 3, 0]),
		ins::CLEAR if k > 0 && src.chance(800) => {
			let full: [u8; 5] = if src.chance(500) { [1, 0x44, 0x58, 0x4C, 0x22] } else { [2, 0x45, 0x52, 0x43, 0x4C] };
			let m = k.min(5);
			p[..m].copy_from_slice(&full[..m]);
		},
		_ => {},
	}
	p
}

/// A packet for a device to see: an instruction, or another motor's status.
fn packet(src: &mut Src, rbuf: usize, status: u32, cap: usize) -> Vec<u8> {
	src.begin();
	let max = rbuf - 10;
	let mut b = if src.chance(status) {
		// The worst case of 10 + 1/3 more bytes does not always fit.
		let n = src.skewed((max.saturating_sub(1)).min(cap) as u64) as usize;
		let d = src.bytes(n);
		proto::status(src.flat_byte(), src.byte(), &d)
	} else {
		let id = if src.chance(600) { src.below(4) as u8 } else { src.pick(&[BROADCAST, 0xFD, 0xFC, 0x55, 0xFF]) };
		let instr = match src.weighted(&[8, 2]) {
			0 => src.pick(&[1u8, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93]),
			_ => bench::unknown_instr(src),
		};
		let top = if src.chance(if cap > 60 { 600 } else { 100 }) { max } else { max.min(40) };
		let p = params(src, instr, top);
		proto::encode(id, instr, &p)
	};
	if b.len() > rbuf {
		b = proto::encode(1, STATUS, &[0]);
		if b.len() > rbuf {
			b = proto::encode(1, ins::PING, &[]);
		}
	}
	src.end();
	b
}

pub fn gen_rbuf(src: &mut Src) -> usize {
	match src.weighted(&[3, 2, 2]) {
		0 => 128,
		1 => src.us(13, 40),
		_ => src.us(40, 300),
	}
}

/// C15: the same through the real adapter.
pub fn c15(sim: &W, p: SimPort, rbuf: usize, rounds: usize) {
	// Room for the system calls of one read.
	stream(sim, Side::on(p, "C15", MS, 20 * MS, rbuf), rbuf, rounds, false);
}

/// C11 with streams from the reference encoder.
pub fn c11_dev(sim: &W) {
	let (rbuf, rounds) = {
		let w = &mut *sim.w.borrow_mut();
		(gen_rbuf(&mut w.src), w.src.rounds(1, 8))
	};
	let s = Side::new(sim, rbuf);
	stream(sim, s, rbuf, rounds, false);
}

/// C11 with a crowd of other motors answering in between, and with long packets.
pub fn c11_crowd(sim: &W) {
	let (rbuf, rounds) = {
		let w = &mut *sim.w.borrow_mut();
		(w.src.pick(&[128, 400, 3_000, 9_000]), w.src.us(1, 3))
	};
	let s = Side::new(sim, rbuf);
	sim.w.borrow_mut().ports[s.port].cfg.f_zero = 0;
	stream(sim, s, rbuf, rounds, true);
}

fn stream(sim: &W, mut s: Side, rbuf: usize, rounds: usize, crowd: bool) {
	let long = crowd && rbuf > 400;
	if crowd && !long {
		s.whole = sim.w.borrow_mut().src.pick(&[3_000, 60]);
	}
	for _ in 0..rounds {
		let (n, status, cap) = {
			let w = &mut *sim.w.borrow_mut();
			match (crowd, long) {
				(true, false) => (w.src.us(50, 700), w.src.pick(&[990, 900, 997]), 20),
				(_, true) => (w.src.us(1, 6), 250, rbuf),
				_ => (w.src.us(1, 6), 250, 60),
			}
		};
		let mut t = sim.w.borrow().now;
		for _ in 0..n {
			let b = {
				let w = &mut *sim.w.borrow_mut();
				let rare = if crowd && !long { 300 } else { 4 };
				t += match w.src.weighted(&[rare, 2, 1]) {
					0 => 0,
					1 => w.src.below(2 * MS),
					_ => w.src.below(40 * MS),
				};
				packet(&mut w.src, rbuf, status, cap)
			};
			t = s.send(sim, &b, t);
		}
		let calls = sim.w.borrow_mut().src.us(0, 8);
		for _ in 0..calls {
			let (form, t) = {
				let w = &mut *sim.w.borrow_mut();
				let t = match w.src.weighted(&[3, 3, 1]) {
					0 => w.src.below(3 * MS),
					1 => w.src.below(60 * MS),
					_ => 0,
				};
				(w.src.below(3) as u8, t)
			};
			if !s.call(sim, form, t) {
				return;
			}
		}
		// Let it catch up, and sometimes answer.
		if sim.w.borrow_mut().src.chance(300) {
			if !s.finish(sim) {
				return;
			}
			let n = sim.w.borrow_mut().src.below(20) as usize;
			let d = sim.w.borrow_mut().src.bytes(n);
			ops::begin_op(sim, s.port);
			let r = s.dev.write_status(3, 0, n, |b| {
				b.copy_from_slice(&d);
				Ok(())
			});
			if let Err(e) = r {
				sim.w.borrow_mut().fail(s.prop, format!("device could not answer: {:?}", ops::wr(e)));
				return;
			}
			sim.w.borrow_mut().probe("device answered in between");
		}
	}
	s.finish(sim);
}

/// C11 with the real client on one end and three devices on the other, one for each form.
pub fn c11_pair(sim: &W) {
	let (port, g) = {
		let w = &mut *sim.w.borrow_mut();
		let cfg = PortCfg::default();
		let baud = bench::gen_baud(&mut w.src).max(57_600);
		let wbuf = w.src.pick(&[128, 400, 60]);
		(w.add_port(baud, cfg), Gen { ids: bench::gen_ids(&mut w.src, 4), max_data: 60, missing: 50, rbuf: 400, wbuf })
	};
	let mut cl: ops::Cl = Client::with_buffers(SimPort::new(sim, port), vec![0; 400], vec![0; g.wbuf]).unwrap();
	let mut sides: Vec<Side> = (0..3).map(|_| Side::new(sim, 400)).collect();
	let n = sim.w.borrow_mut().src.rounds(1, 12);
	for _ in 0..n {
		let op = {
			let w = &mut *sim.w.borrow_mut();
			let mut op = match w.src.weighted(&[8, 1]) {
				0 => g.any(&mut w.src),
				_ => {
					let p = w.src.below(20) as usize;
					Op::RawWrite { id: g.id(&mut w.src), instr: bench::unknown_instr(&mut w.src), params: w.src.bytes(p), fail: false }
				},
			};
			// Nobody answers: do not wait for more than one reply.
			if let Op::Scan { take, .. } | Op::SyncRead { take, .. } | Op::SyncReadBytes { take, .. } | Op::BulkRead { take, .. } = &mut op {
				*take = Some(0);
			}
			op
		};
		if ops::must_panic(&op) {
			continue;
		}
		let Some((id, instr, p)) = ops::wire(&op) else { continue };
		ops::exec(sim, port, &mut cl, &op);
		let sent: Vec<Vec<u8>> = sim.w.borrow().ports[port]
			.calls
			.iter()
			.filter_map(|c| match c {
				Call::Write { bytes, ok: true, .. } => Some(bytes.clone()),
				_ => None,
			})
			.collect();
		let want = Pkt { id, instr, params: p.clone(), err: 0, start: 0, len: 0 };
		for s in &mut sides {
			let mut t = sim.w.borrow().now;
			for b in &sent {
				let k = s.todo.len();
				t = s.send(sim, b, t);
				// What must arrive is what the caller asked for, whatever is on the wire.
				if s.todo.len() > k {
					s.todo.truncate(k);
				}
				s.todo.push_back((t, want.clone()));
			}
			// Other motors answer.
			let k = sim.w.borrow_mut().src.below(3);
			for _ in 0..k {
				let b = {
					let w = &mut *sim.w.borrow_mut();
					let n = w.src.skewed(30) as usize;
					let d = w.src.bytes(n);
					proto::status(w.src.flat_byte(), w.src.byte(), &d)
				};
				t = s.send(sim, &b, t);
			}
		}
		if sent.len() == 1 {
			sim.w.borrow_mut().probe("instruction of the client");
		}
		for (form, s) in sides.iter_mut().enumerate() {
			let k = sim.w.borrow_mut().src.weighted(&[1, 4, 1]);
			for _ in 0..k {
				let t = sim.w.borrow_mut().src.pick(&[20 * MS, 0, 300 * US, 200 * MS]);
				if !s.call(sim, form as u8, t) {
					return;
				}
			}
		}
	}
	for s in &mut sides {
		if !s.finish(sim) {
			return;
		}
	}
}
