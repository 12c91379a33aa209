//! C03, C04, C12: what comes off a bad line, and how communication recovers from it.

#[cfg(not(feature = "full"))]
use crate::bare::*;
use crate::bench::{self, Bench, Setup};
use crate::choice::Src;
use crate::motors::{damage, instr_of, noise, LineFaults};
use crate::ops::{self, Item, Op, Out, Res, Resp, E};
use crate::proto::{self, ins, Pkt, BROADCAST, STATUS};
use crate::s_model::{step, Did};
use crate::world::{drain, run_until, Call, Ev, Fk, PortCfg, RxByte, SimPort, MS, US, W};
use dynamixel2::Device;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

fn failed(sim: &W) -> bool {
	!sim.w.borrow().fails.is_empty()
}

fn raw(b: &[RxByte]) -> Vec<u8> {
	b.iter().map(|x| x.b).collect()
}

/// An intact packet among received bytes, and when its first byte arrived.
struct Cand {
	p: Pkt,
	at: u64,
}

fn cands(got: &[RxByte]) -> Vec<Cand> {
	proto::scan_all(&raw(got)).into_iter().map(|p| Cand { at: got[p.start].at, p }).collect()
}

/// What one reply is supposed to be.
struct Wanted {
	id: Option<u8>,
	count: Option<u16>,
	/// Only bytes that arrived from then on count.
	since: u64,
	rbuf: usize,
}

type Finding = (&'static str, String);

/// Is this result justified by the bytes that were received up to its end? Returns where the packet it rests on ends.
fn justify(res: &Result<Resp, E>, want: &Wanted, got: &[RxByte], c: &[Cand], from: usize, to: usize) -> Result<usize, Finding> {
	let in_reach = |x: &&Cand| x.p.start >= from && x.p.start + x.p.len <= to;
	let best = |f: &dyn Fn(&Cand) -> bool| c.iter().filter(in_reach).filter(|x| f(x)).min_by_key(|x| x.p.start + x.p.len).map(|x| x.p.start + x.p.len);
	let hex = || proto::hex(&raw(&got[from.min(to)..to]));
	match res {
		Ok(r) => {
			let same = |x: &Cand| {
				x.p.is_status()
					&& x.p.id == r.id
					&& x.p.params == r.data
					&& x.p.err & 0x7F == 0
					&& (x.p.err & 0x80 != 0) == r.alert
					&& r.err.is_none_or(|e| e == x.p.err)
			};
			if best(&same).is_none() {
				return Err(("C03 C04", format!("reports {r:?}, but no intact status packet with that content was received: {}", hex())));
			}
			if let Some(id) = want.id {
				if r.id != id {
					return Err(("C04", format!("succeeds with a reply of motor {} instead of {id}", r.id)));
				}
			}
			if let Some(n) = want.count {
				if r.data.len() != usize::from(n) {
					return Err(("C04", format!("succeeds with {} bytes of data instead of {n}", r.data.len())));
				}
			}
			let fresh = |x: &Cand| same(x) && x.at >= want.since;
			best(&fresh).ok_or_else(|| ("C04", format!("succeeds with {r:?}, which arrived before the instruction was sent")))
		},
		Err(E::Motor(e)) => {
			if e & 0x7F == 0 {
				return Err(("C03", format!("reports a motor error with error byte 0x{e:02X}")));
			}
			best(&|x: &Cand| x.p.is_status() && x.p.err == *e)
				.ok_or_else(|| ("C03", format!("reports motor error 0x{e:02X}, but no intact status packet with it was received: {}", hex())))
		},
		Err(E::PacketId(a, exp)) => {
			if *exp != want.id || want.id.is_none() || *exp == Some(*a) {
				return Err(("C04", format!("reports ID {a} instead of {exp:?}, but it waited for {:?}", want.id)));
			}
			best(&|x: &Cand| x.p.is_status() && x.p.id == *a)
				.ok_or_else(|| ("C04", format!("reports a packet with ID {a}, but none was received: {}", hex())))
		},
		Err(E::Instr(a, exp)) => {
			if *exp != STATUS {
				return Err(("C04", format!("reports that instruction {exp} was expected")));
			}
			best(&|x: &Cand| !x.p.is_status() && x.p.instr == *a)
				.ok_or_else(|| ("C04", format!("reports a packet with instruction 0x{a:02X}, but none was received: {}", hex())))
		},
		Err(E::Count(a, exp)) => {
			if exp == "Min(1)" && *a == 0 {
				return Ok(from);
			}
			if let Some(n) = want.count {
				if *exp != format!("Exact({n})") || *a == usize::from(n) {
					return Err(("C04", format!("reports {a} parameters, expected {exp}, but it waited for {n}")));
				}
			}
			best(&|x: &Cand| x.p.is_status() && x.p.params.len() == *a)
				.ok_or_else(|| ("C04", format!("reports a status with {a} parameters, but none was received: {}", hex())))
		},
		Err(E::Checksum(m, k)) => {
			let b = raw(&got[..to]);
			for i in from..b.len().saturating_sub(7) {
				if b[i..i + 4] != proto::HDR {
					continue;
				}
				let end = i + 7 + usize::from(u16::from_le_bytes([b[i + 5], b[i + 6]]));
				if end > b.len() || end < i + 10 {
					continue;
				}
				let (have, calc) = (u16::from_le_bytes([b[end - 2], b[end - 1]]), proto::crc(&b[i..end - 2]));
				if (have, calc) == (*m, *k) && have != calc {
					return Ok(end);
				}
			}
			Err(("C03", format!("reports checksum {m:04X} instead of {k:04X}, but no such packet was received: {}", hex())))
		},
		Err(E::BufFull(req, total)) => {
			let b = raw(&got[..to]);
			if *total != want.rbuf || req <= total {
				return Err(("C04", format!("reports that {req} of {total} bytes are needed with a read buffer of {}", want.rbuf)));
			}
			if *total < 10 && *req == 10 {
				return Ok(from);
			}
			for i in from..b.len().saturating_sub(6) {
				if b[i..i + 4] == proto::HDR && 7 + usize::from(u16::from_le_bytes([b[i + 5], b[i + 6]])) == *req {
					return Ok(i + 7);
				}
			}
			Err(("C04", format!("reports a packet of {req} bytes, but none was announced: {}", hex())))
		},
		Err(E::Text(prop, e)) => Err((prop, format!("its error does not say what it is: {e}"))),
		Err(E::Prefix) => Err(("C03", "reports an invalid header prefix or inconsistent error data".into())),
		Err(E::Io(_) | E::BufSmall(..) | E::Discard(_) | E::Write(_)) => Ok(from),
	}
}

/// All bytes a client has read since it last threw its input away.
#[derive(Default)]
pub struct Hist {
	pub bytes: Vec<RxByte>,
}

impl Hist {
	/// Take over what an operation read; returns how much of the history is older.
	fn update(&mut self, calls: &[Call], got: Vec<RxByte>) -> usize {
		if calls.iter().any(|c| matches!(c, Call::Discard { .. } | Call::Write { .. })) {
			self.bytes.clear();
		}
		let n = self.bytes.len();
		self.bytes.extend(got);
		n
	}
}

/// Judge a finished client operation by the bytes that were received.
pub fn judge_op(op: &Op, out: &Out, calls: &[Call], h: &mut Hist, got: Vec<RxByte>, rbuf: usize, discards: bool) -> Option<Finding> {
	let old = h.update(calls, got);
	let got = &h.bytes[..];
	let since = calls
		.iter()
		.find_map(|c| match c {
			Call::Write { start, .. } if discards => Some(*start),
			_ => None,
		})
		.unwrap_or(0);
	let reps = ops::replies(op);
	let raw_op = matches!(op, Op::Raw { .. });
	match &out.res {
		Res::Single(r) => {
			if ops::is_broadcast_write(op) {
				return None;
			}
			let id = match op {
				Op::Read { id, .. } | Op::ReadBytes { id, .. } => Some(*id),
				_ => reps.first().map(|x| x.0),
			};
			let count = match op {
				Op::Read { .. } | Op::ReadBytes { .. } | Op::Ping { .. } => reps.first().map(|x| x.1),
				_ if raw_op => None,
				_ => reps.first().map(|x| x.1),
			};
			let c = if needs_bytes(r) { cands(got) } else { vec![] };
			justify(r, &Wanted { id, count, since, rbuf }, got, &c, 0, got.len()).err()
		},
		Res::Multi(Ok(m)) => {
			let scan = matches!(op, Op::Scan { .. });
			let c = if m.items.iter().any(|i| needs_bytes(&i.res)) { cands(got) } else { vec![] };
			let mut from = 0;
			for (i, Item { res, g1, .. }) in m.items.iter().enumerate() {
				let (id, count) = if scan { (None, Some(3)) } else { (Some(reps.get(i)?.0), Some(reps[i].1)) };
				match justify(res, &Wanted { id, count, since, rbuf }, got, &c, from, old + g1) {
					Ok(e) => from = e,
					Err((p, m)) => return Some((p, format!("item {i}: {m}"))),
				}
			}
			None
		},
		_ => None,
	}
}

fn needs_bytes(r: &Result<Resp, E>) -> bool {
	!matches!(r, Err(E::Io(_) | E::BufSmall(..) | E::Discard(_) | E::Write(_)))
}

/// Random rates for one kind of trouble.
fn rates(src: &mut Src, c04: bool) -> LineFaults {
	src.begin();
	let mut f = LineFaults::default();
	let r = |src: &mut Src| src.pick(&[0u32, 0, 100, 300, 600]);
	if c04 {
		f.foreign = r(src);
		f.wronglen = r(src);
		f.notstatus = r(src);
		f.echo = r(src);
		f.late = r(src);
		f.twice = r(src);
		f.lost = r(src);
		f.force_err = src.pick(&[0, 0, 100]);
		f.noise = src.pick(&[0, 0, 200]);
	} else {
		f.flip = r(src);
		f.loss = r(src);
		f.dup = r(src);
		f.insert = r(src);
		f.trunc = src.pick(&[0, 0, 200]);
		f.crc = r(src);
		f.hdr = src.pick(&[0, 0, 300]);
		f.len = src.pick(&[0, 0, 300]);
		f.noise = src.pick(&[0, 200, 500]);
		f.late = src.pick(&[0, 0, 200]);
		f.twice = src.pick(&[0, 0, 200]);
		f.lost = src.pick(&[0, 0, 100]);
		f.force_err = src.pick(&[0, 0, 200]);
	}
	f.ins_lost = src.pick(&[0, 0, 0, 50]);
	f.ins_damage = src.pick(&[0, 0, 0, 100]);
	f.crash = src.pick(&[0, 0, 0, 50]);
	f.deaf = src.pick(&[0, 0, 0, 50]);
	src.end();
	f
}

/// Bytes that somebody else puts on the line: noise, damaged and intact packets, parts of packets.
pub fn rogue(sim: &W, ids: &[u8], like: &Op, cap: usize) -> Vec<u8> {
	let mut w = sim.w.borrow_mut();
	let w = &mut *w;
	w.src.begin();
	let reps = ops::replies(like);
	let (rid, n) = reps.first().copied().unwrap_or((ids[0], 0));
	let id = match w.src.weighted(&[4, 2, 1]) {
		0 => rid,
		1 => w.src.pick(ids),
		_ => w.src.flat_byte(),
	};
	let n = match w.src.weighted(&[4, 1, 1]) {
		0 => usize::from(n).min(cap),
		1 => w.src.skewed(12) as usize,
		_ => (usize::from(n) + 1).min(cap),
	};
	let n = if matches!(like, Op::Scan { .. }) && w.src.chance(800) { 3 } else { n };
	let mut b = match w.src.weighted(&[3, 2, 6, 2]) {
		0 => noise(&mut w.src),
		1 => {
			// An instruction, like an echo or another host.
			let i = w.src.pick(&[ins::PING, ins::READ, ins::WRITE, 0x54]);
			let d = w.src.bytes(n);
			proto::encode(id, i, &d)
		},
		2 => {
			let e = match w.src.weighted(&[4, 1, 1]) {
				0 => 0,
				1 => 0x80,
				_ => w.src.flat_byte(),
			};
			let d = w.src.bytes(n);
			proto::status(id, e, &d)
		},
		_ => {
			// A status with a valid checksum but not a valid length.
			let k = w.src.skewed(6) as usize;
			let mut body = w.src.bytes(k);
			if let Some(x) = body.first_mut() {
				*x = STATUS;
			}
			proto::encode_raw_body(id, &body)
		},
	};
	match w.src.weighted(&[5, 2, 2, 1]) {
		0 => {},
		1 => damage(w, &mut b, &LineFaults { flip: 500, crc: 500, hdr: 100, len: 200, ..Default::default() }),
		2 => damage(w, &mut b, &LineFaults { loss: 300, insert: 300, dup: 300, trunc: 300, ..Default::default() }),
		_ => {
			// Only the tail.
			let k = w.src.below(b.len() as u64) as usize;
			b.drain(..k);
		},
	}
	w.fk(Fk::Noise);
	w.src.end();
	b
}

fn chaos(sim: &W, prop: &'static str, big: bool) {
	let c04 = prop == "C04";
	let max_data = if big { sim.w.borrow_mut().src.pick(&[700, 2_500, 6_000, 20_000]) } else { 60 };
	let mut b = Bench::healthy(sim, &Setup { motors: (1, 4), dev: 150, missing: 80, max_data, tight: !big });
	b.bus.borrow_mut().chain_break = false;
	let port = b.port;
	let mut h = Hist::default();
	let n = b.src(|s| if big { s.us(1, 8) } else { s.rounds(3, 18) });
	let stuck = b.src(|s| s.stuck());
	for i in 0..n {
		let g = b.g.clone();
		if i == 0 || !stuck {
			let mut w = sim.w.borrow_mut();
			let w = &mut *w;
			let f = if w.src.chance(200) { LineFaults::default() } else { rates(&mut w.src, c04) };
			b.bus.borrow_mut().f = f;
			let c = &mut w.ports[port].cfg;
			(c.f_read, c.f_zero, c.f_discard, c.f_write) = (0, 0, 0, 0);
			c.discard_noop = false;
			c.room = w.src.room();
			match w.src.weighted(&[8, 1, 1, 1, 1]) {
				1 => c.f_read = 150,
				2 => c.f_zero = 100,
				3 => (c.f_discard, c.f_write) = (200, 200),
				4 => c.discard_noop = !c04 || w.src.chance(200),
				_ => {},
			}
		}
		let op = b.src(|s| match s.weighted(&[8, 6, 1, 1, 2]) {
			0 => g.unicast(s),
			1 => g.multi_read(s, true),
			2 => g.broadcast(s),
			3 => g.multi_write(s),
			_ => {
				if s.chance(500) {
					Op::ReadStatus { expected: s.skewed(30) as u16 }
				} else {
					Op::ReadStatusTimeout { ns: s.skewed(60 * MS) }
				}
			},
		});
		// Rogue traffic before, during and after the instruction.
		let k = b.src(|s| s.weighted(&[3, 3, 2, 1]));
		for _ in 0..k {
			let v = rogue(sim, &g.ids, &op, if big { 30_000 } else { 200 });
			let mut w = sim.w.borrow_mut();
			let now = w.now;
			let w = &mut *w;
			let baud = w.ports[port].baud;
			let win = proto::reply_window(0, baud);
			let at = match w.src.weighted(&[2, 2, 2, 1]) {
				0 => 0,
				1 => w.src.below(win / 50 + 1),
				2 => w.src.below(win + 1),
				_ => w.src.below(4 * win + 1),
			};
			if w.src.chance(300) && v.len() > 1 {
				let cut = w.src.int(1, v.len() as u64 - 1) as usize;
				let gap = w.src.below(win / 4 + 1);
				w.at(now + at, Ev::Rx { port, bytes: v[..cut].to_vec() });
				w.at(now + at + gap, Ev::Rx { port, bytes: v[cut..].to_vec() });
			} else {
				w.at(now + at, Ev::Rx { port, bytes: v });
			}
		}
		let pre = b.src(|s| if s.chance(500) { s.below(3 * MS) } else { 0 });
		let t = sim.w.borrow().now + pre;
		run_until(sim, t);
		let out = b.exec(&op);
		let calls = b.calls();
		let got = sim.w.borrow().ports[port].got.clone();
		let discards = !sim.w.borrow().ports[port].cfg.discard_noop;
		{
			let mut w = sim.w.borrow_mut();
			let mut seen = |r: &Result<Resp, E>| {
				w.probe(match r {
					Ok(_) => "success",
					Err(E::Checksum(..)) => "checksum error",
					Err(E::PacketId(..)) => "wrong ID error",
					Err(E::Instr(..)) => "not a status error",
					Err(E::Count(..)) => "parameter count error",
					Err(E::Motor(_)) => "motor error",
					Err(E::BufFull(..)) => "read buffer too small error",
					Err(e) if e.is_timeout() => "timeout",
					_ => "other error",
				});
			};
			match &out.res {
				Res::Single(r) => seen(r),
				Res::Multi(Ok(m)) => m.items.iter().for_each(|i| seen(&i.res)),
				_ => {},
			}
		}
		if let Some((p, m)) = judge_op(&op, &out, &calls, &mut h, got, b.rbuf, discards) {
			if p.contains(prop) {
				b.fail(prop, format!("{op:?}: {m}"));
				return;
			}
		}
		if matches!(out.res, Res::Hang) {
			return;
		}
		// Often go on while replies are still on their way.
		if b.src(|s| s.chance(400)) {
			b.settle();
		}
	}
}

/// C03, client side.
pub fn c03(sim: &W) {
	chaos(sim, "C03", false);
}

/// C03 with packets of up to 20 kB.
pub fn c03_large(sim: &W) {
	chaos(sim, "C03", true);
}

/// C04.
pub fn c04(sim: &W) {
	chaos(sim, "C04", false);
}

/// C04 with packets of up to 20 kB.
pub fn c04_large(sim: &W) {
	chaos(sim, "C04", true);
}

/// One read call of a device, in one of its three forms.
pub fn dev_read(dev: &mut Device<SimPort, Vec<u8>>, form: u8, t: Duration) -> Result<Result<(u8, u8, Vec<u8>), E>, Res> {
	catch_unwind(AssertUnwindSafe(|| match form {
		0 => dev.read(t).map(|i| instr_of(&i)).map_err(ops::rd),
		1 => dev.read_owned(t).map(|i| instr_of(&i)).map_err(ops::rd),
		_ => dev.read_raw_instruction_timeout(t).map(|p| (p.packet_id(), p.instruction_id(), p.parameters().to_vec())).map_err(ops::rd),
	}))
	.map_err(ops::panic_text)
}

/// Does a delivered instruction show what the packet holds? Some forms of the clear instruction keep only the first byte.
pub fn same_instr(form: u8, p: &Pkt, id: u8, instr: u8, params: &[u8]) -> bool {
	if p.is_status() || p.id != id || p.instr != instr {
		return false;
	}
	if form == 2 || !matches!(instr, ins::CLEAR | ins::PING | ins::ACTION | ins::REBOOT) {
		return p.params == params;
	}
	// Parameters that the parsed form has no place for.
	match instr {
		ins::CLEAR => !p.params.is_empty() && !params.is_empty() && p.params[0] == params[0],
		_ => params.is_empty(),
	}
}

/// C03, device side: damaged instructions.
pub fn c03_dev(sim: &W) {
	damaged(sim, false);
}

/// The same with packets of several kB.
pub fn c03_dev_large(sim: &W) {
	damaged(sim, true);
}

fn damaged(sim: &W, big: bool) {
	let (port, mut dev, n, rbuf) = {
		let mut w = sim.w.borrow_mut();
		let baud = bench::gen_baud(&mut w.src);
		let cfg = bench::healthy_port(&mut w.src);
		let port = w.add_port(baud, cfg);
		let rb = if big { w.src.us(300, 9_000) } else { bench::gen_buf(&mut w.src, true, 60) };
		let n = if big { w.src.us(2, 10) } else { w.src.us(3, 25) };
		drop(w);
		(port, Device::with_buffers(SimPort::new(sim, port), vec![0; rb], vec![0; 32]).unwrap(), n, rb)
	};
	let mut all: Vec<RxByte> = vec![];
	let mut from = 0;
	let mut next = 0u64;
	for _ in 0..n {
		// Something arrives.
		{
			let mut w = sim.w.borrow_mut();
			let w = &mut *w;
			let k = w.src.weighted(&[1, 3, 2, 1]);
			for _ in 0..k {
				let mut b = gen_instr(&mut w.src, if big { rbuf } else { 40 });
				if w.src.chance(120) {
					b = noise(&mut w.src);
				}
				if w.src.chance(500) {
					let f = rates(&mut w.src, false);
					damage(w, &mut b, &f);
				}
				next = next.max(w.now) + w.src.pick(&[0, 0, 100 * US, 3 * MS]);
				if b.len() > 1 && w.src.chance(300) {
					let cut = w.src.int(1, b.len() as u64 - 1) as usize;
					w.at(next, Ev::Rx { port, bytes: b[..cut].to_vec() });
					next += w.src.pick(&[0, 50 * US, 2 * MS]);
					w.at(next, Ev::Rx { port, bytes: b[cut..].to_vec() });
				} else {
					w.at(next, Ev::Rx { port, bytes: b });
				}
			}
			let c = &mut w.ports[port].cfg;
			c.f_read = w.src.pick(&[0, 0, 100]);
			c.f_zero = w.src.pick(&[0, 0, 100]);
		}
		let (form, t, calls) = {
			let mut w = sim.w.borrow_mut();
			let t = w.src.pick(&[0, 500 * US, 5 * MS]);
			(w.src.below(3) as u8, t, w.src.us(1, 4))
		};
		for _ in 0..calls {
			ops::begin_op(sim, port);
			let r = dev_read(&mut dev, form, Duration::from_nanos(t));
			all.extend(sim.w.borrow().ports[port].got.iter().copied());
			let Ok(r) = r else { return };
			let found = match &r {
				Ok((id, instr, params)) => {
					let c = cands(&all);
					sim.w.borrow_mut().probe("device delivered an instruction");
					c.iter()
						.filter(|c| c.p.start >= from && same_instr(form, &c.p, *id, *instr, params))
						.map(|c| c.p.start + c.p.len)
						.min()
						.ok_or_else(|| format!("delivers ID {id}, instruction 0x{instr:02X}, [{}]", proto::hex(params)))
				},
				Err(E::Checksum(..)) => {
					sim.w.borrow_mut().probe("device reported a checksum error");
					justify(&Err(r.as_ref().unwrap_err().clone()), &Wanted { id: None, count: None, since: 0, rbuf }, &all, &[], from, all.len())
						.map_err(|e| e.1)
				},
				Err(E::Motor(_) | E::Prefix | E::PacketId(..) | E::Instr(..) | E::Text(..)) => Err(format!("reports {:?}", r)),
				_ => Ok(from),
			};
			match found {
				Ok(e) => from = e,
				Err(m) => {
					let hex = proto::hex(&raw(&all[from..]));
					sim.w.borrow_mut().fail("C03", format!("device {m}, but no intact packet with that content was received: {hex}"));
					return;
				},
			}
		}
		// Writing a status discards everything.
		if sim.w.borrow_mut().src.chance(60) {
			ops::begin_op(sim, port);
			let _ = dev.write_status_ok(1);
			all.clear();
			from = 0;
		}
	}
}

/// Some instruction or status as it may be on a bus.
pub fn gen_instr(src: &mut Src, max: usize) -> Vec<u8> {
	src.begin();
	let id = if src.chance(700) { src.below(4) as u8 } else { src.pick(&[BROADCAST, 0xFD, 0xFC, 0x55]) };
	let instr = match src.weighted(&[6, 2, 1]) {
		0 => src.pick(&[1u8, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93]),
		1 => STATUS,
		_ => src.flat_byte(),
	};
	let n = src.skewed(max as u64) as usize;
	let mut p = src.bytes(n);
	if instr == STATUS {
		p.insert(0, src.byte());
	}
	src.end();
	proto::encode(id, instr, &p)
}

// ---------------------------------------------------------------------------------------------------------------------

/// C12, client side: chaos, then calm.
pub fn c12(sim: &W) {
	recover(sim, false);
}

/// C12 after long phases of chaos, with long packets.
pub fn c12_large(sim: &W) {
	recover(sim, true);
}

fn recover(sim: &W, big: bool) {
	let max_data = if big { sim.w.borrow_mut().src.pick(&[60, 300, 3_000]) } else { 60 };
	let mut b = Bench::healthy(sim, &Setup { motors: (1, 4), dev: 0, missing: 0, max_data, tight: max_data == 60 });
	let port = b.port;
	let calm_cfg = sim.w.borrow().ports[port].cfg.clone();
	let calm_lazy = b.bus.borrow().lazy;
	let long = b.src(|s| s.long);
	let rounds = b.src(|s| if long { 1 } else { s.us(1, if big { 2 } else { 3 }) });
	for _ in 0..rounds {
		b.bus.borrow_mut().chain_break = false;
		let n = b.src(|s| if big { s.us(20, 400) } else { s.rounds(1, 8) });
		let stuck = b.src(|s| s.stuck());
		for i in 0..n {
			let g = b.g.clone();
			if i == 0 || !stuck {
				let mut w = sim.w.borrow_mut();
				let w = &mut *w;
				let c04 = w.src.chance(500);
				b.bus.borrow_mut().f = rates(&mut w.src, c04);
				let c = &mut w.ports[port].cfg;
				c.f_read = w.src.pick(&[0, 0, 200, if stuck { 1000 } else { 600 }]);
				c.f_zero = w.src.pick(&[0, 0, 100]);
				c.f_discard = w.src.pick(&[0, 0, 300]);
				c.f_write = w.src.pick(&[0, 0, if stuck { 1000 } else { 300 }]);
				c.f_baud = 500;
				c.discard_noop = w.src.chance(150);
				c.room = w.src.room();
				if w.src.chance(50) {
					w.ports[port].cfg.dead = true;
				}
			}
			let op = b.src(|s| match s.weighted(&[6, 5, 1, 1, 1, 1]) {
				0 => g.unicast(s),
				1 => g.multi_read(s, true),
				2 => g.broadcast(s),
				3 => g.multi_write(s),
				4 => Op::ReadStatusTimeout { ns: s.skewed(60 * MS) },
				_ => Op::SetBaud { baud: bench::gen_baud(s).max(57_600) },
			});
			let k = b.src(|s| s.weighted(&[3, 3, 2]));
			for _ in 0..k {
				let v = rogue(sim, &g.ids, &op, if big { 3_000 } else { 200 });
				let mut w = sim.w.borrow_mut();
				let now = w.now;
				let at = w.src.below(60 * MS);
				w.at(now + at, Ev::Rx { port, bytes: v });
			}
			let out = b.exec(&op);
			sim.w.borrow_mut().ports[port].cfg.dead = false;
			if matches!(out.res, Res::Panic(_) | Res::Hang) {
				// Not for this property to judge.
				return;
			}
		}
		// Faults stop. What is on its way still arrives, then the line is quiet.
		b.bus.borrow_mut().f = LineFaults::default();
		{
			let mut w = sim.w.borrow_mut();
			w.ports[port].cfg = calm_cfg.clone();
			let rate = w.ports[port].baud;
			// Without a blocking write the transmission itself eats into the response window.
			if proto::transfer_ns(b.wbuf as u64, rate) > proto::reply_window(0, rate) / 10 {
				w.ports[port].cfg.blocking_write = true;
			}
		}
		drain(sim);
		b.bus.borrow_mut().lazy = calm_lazy;
		b.bus.borrow_mut().chain_break = true;
		for m in &mut b.bus.borrow_mut().motors {
			m.deaf = 0;
			m.up = true;
		}
		b.settle();
		b.shadow = b.bus.borrow().motors.iter().map(|m| m.regs.clone()).collect();
		sim.w.borrow_mut().note("calm", &[], || "faults stop".into());
		if b.src(|s| s.chance(80)) {
			b.handover("C12");
		}
		let k = b.src(|s| s.us(1, 3));
		for _ in 0..k {
			let g = b.g.clone();
			let op = b.src(|s| match s.weighted(&[6, 3, 1]) {
				0 => g.unicast(s),
				1 => g.multi_read(s, true),
				_ => g.multi_write(s),
			});
			if let Did::Done(_) = step(&mut b, "C12", &op, &[]) {
				sim.w.borrow_mut().probe("operation after recovery");
			}
			if failed(sim) {
				return;
			}
		}
	}
}

/// C12, device side: garbage, then a clean stream of instructions.
pub fn c12_dev(sim: &W) {
	recover_dev(sim, false);
}

/// The same after long phases of chaos, with large buffers.
pub fn c12_dev_large(sim: &W) {
	recover_dev(sim, true);
}

fn recover_dev(sim: &W, big: bool) {
	let (port, rbuf) = {
		let mut w = sim.w.borrow_mut();
		let baud = bench::gen_baud(&mut w.src);
		let cfg = PortCfg { chunk: w.src.weighted(&[3, 1, 2]) as u8, ..Default::default() };
		let port = w.add_port(baud, cfg);
		let rb = match w.src.weighted(&[2, 2, 1]) {
			_ if big => w.src.pick(&[128, 500, 2_000, 7_000]),
			0 => 128,
			1 => w.src.us(24, 100),
			_ => w.src.us(10, 24),
		};
		(port, rb)
	};
	let mut dev = Device::with_buffers(SimPort::new(sim, port), vec![0; rbuf], vec![0; 32]).unwrap();
	// Garbage, on a bad port.
	let n = sim.w.borrow_mut().src.rounds(1, if big { 250 } else { 6 });
	let stuck = sim.w.borrow_mut().src.stuck();
	let kind = if stuck { sim.w.borrow_mut().src.us(0, 2) } else { 0 };
	for _ in 0..n {
		let mut guard = sim.w.borrow_mut();
		let w = &mut *guard;
		let b = match if stuck { kind } else { w.src.weighted(&[2, 3, 3]) } {
			0 => noise(&mut w.src),
			1 => {
				let mut b = gen_instr(&mut w.src, if big { rbuf } else { 40 });
				let f = rates(&mut w.src, false);
				damage(w, &mut b, &f);
				b
			},
			_ => {
				// The start of a packet that never ends.
				let len = match w.src.weighted(&[3, 1]) {
					0 => w.src.below(rbuf as u64 + 4) as u16,
					_ => w.src.below(0x1_0000) as u16,
				};
				let mut b = proto::HDR.to_vec();
				b.push(w.src.flat_byte());
				b.extend(len.to_le_bytes());
				let k = w.src.below(u64::from(len.min(if big { rbuf as u16 } else { 60 })) + 1) as usize;
				b.extend(w.src.bytes(k));
				let cut = w.src.below(8) as usize;
				if w.src.chance(300) {
					b.truncate(cut);
				}
				b
			},
		};
		let at = w.now + w.src.below(MS);
		w.at(at, Ev::Rx { port, bytes: b });
		let c = &mut w.ports[port].cfg;
		c.f_read = w.src.pick(&[0, 200]);
		c.f_zero = w.src.pick(&[0, 100]);
		c.dead = w.src.chance(100);
		c.room = w.src.room();
		let k = w.src.us(0, 4);
		drop(guard);
		for _ in 0..k {
			let (form, t) = {
				let mut w = sim.w.borrow_mut();
				(w.src.below(3) as u8, w.src.below(2 * MS))
			};
			ops::begin_op(sim, port);
			if dev_read(&mut dev, form, Duration::from_nanos(t)).is_err() {
				return;
			}
		}
	}
	{
		let mut w = sim.w.borrow_mut();
		let c = &mut w.ports[port].cfg;
		(c.f_read, c.f_zero, c.dead, c.room) = (0, 0, false, 0);
		w.note("calm", &[], || "faults stop".into());
	}
	drain(sim);
	// Clean traffic. Packets that look like a header in the middle of themselves are left out:
	// when their first half is lost, the second half is garbage that resembles a packet.
	let mut sent: Vec<(usize, Pkt)> = vec![];
	let mut offset = 0;
	let total = rbuf + sim.w.borrow_mut().src.us(0, 4 * rbuf);
	let mut got: Vec<(u8, u8, Vec<u8>)> = vec![];
	let mut t = sim.w.borrow().now;
	while offset < total {
		let mut w = sim.w.borrow_mut();
		let w = &mut *w;
		let mut b = gen_instr(&mut w.src, rbuf.saturating_sub(10).min(if big { rbuf / 2 } else { 30 }));
		if b.len() > rbuf || b[1..].windows(4).any(|x| x == proto::HDR) {
			b = proto::encode(1, ins::PING, &[]);
		}
		let p = proto::decode_at(&b, 0);
		if let Some(p) = p {
			if !p.is_status() {
				sent.push((offset, p));
			}
		}
		offset += b.len();
		t += w.src.pick(&[0, 0, 200 * US, 4 * MS]);
		if b.len() > 1 && w.src.chance(300) {
			let cut = w.src.int(1, b.len() as u64 - 1) as usize;
			w.at(t, Ev::Rx { port, bytes: b[..cut].to_vec() });
			t += w.src.pick(&[0, 100 * US, 3 * MS]);
			w.at(t, Ev::Rx { port, bytes: b[cut..].to_vec() });
		} else {
			w.at(t, Ev::Rx { port, bytes: b });
		}
	}
	// The device reads all the time.
	let mut quiet = 0;
	while quiet < 3 {
		let step = sim.w.borrow_mut().src.pick(&[0, MS, 10 * MS]);
		ops::begin_op(sim, port);
		let r = dev_read(&mut dev, 2, Duration::from_nanos(step));
		match r {
			Err(_) => return,
			Ok(Ok(x)) => got.push(x),
			Ok(Err(e)) if e.is_timeout() => {
				let w = sim.w.borrow();
				if w.now >= t && w.next_event().is_none() && w.ports[port].rx.is_empty() {
					quiet += 1;
				}
				let to = w.now + MS;
				drop(w);
				run_until(sim, to);
			},
			Ok(Err(_)) => {},
		}
	}
	// All packets that start after the first `rbuf` bytes must be there, at the end, in order, once.
	let must: Vec<&Pkt> = sent.iter().filter(|s| s.0 >= rbuf).map(|s| &s.1).collect();
	let same = |p: &Pkt, g: &(u8, u8, Vec<u8>)| p.id == g.0 && p.instr == g.1 && p.params == g.2;
	let mut w = sim.w.borrow_mut();
	for (i, p) in must.iter().rev().enumerate() {
		let g = got.len().checked_sub(i + 1).map(|k| &got[k]);
		if !g.is_some_and(|g| same(p, g)) {
			w.fail(
				"C12",
				format!(
					"missed instruction packet: after garbage, {} bytes of clean traffic were sent to a device with a read buffer of {rbuf} bytes, and instruction 0x{:02X} for {}, {} from the end, was not delivered (got {g:?})",
					offset,
					p.instr,
					p.id,
					i + 1
				),
			);
			return;
		}
	}
	if got.len() < sent.len() {
		w.probe("traffic lost to garbage");
	}
	if !must.is_empty() {
		w.probe("device recovered");
	}
}
