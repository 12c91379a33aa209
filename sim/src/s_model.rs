//! C02, C08, C09, C10, C18: the real client against simulated motors, compared with a register model.

use crate::choice::Src;
use crate::bench::{self, compare, expectations, gen_buf, healthy_port, Bench, EWant, Setup};
use crate::motors::{shadow_apply, LineFaults, Want};
use crate::ops::{self, Op, Out, Res, Resp, E};
use crate::proto::{self, BROADCAST};
use crate::world::{Call, Ev, Fk, PortCfg, SimPort, MS, W};
use dynamixel2::instructions::SyncWriteData;
use std::cell::Cell;

/// Motors and shadow must agree about everything.
fn same_regs(b: &Bench) -> Result<(), String> {
	let bus = b.bus.borrow();
	for (m, s) in bus.motors.iter().zip(&b.shadow) {
		if m.regs != *s {
			let mut d = String::new();
			for (a, v) in &s.map {
				if m.regs.map.get(a) != Some(v) {
					d = format!("register {a} is {:?}, expected {v}", m.regs.map.get(a));
					break;
				}
			}
			if d.is_empty() {
				for (a, v) in &m.regs.map {
					if s.map.get(a) != Some(v) {
						d = format!("register {a} is {v}, expected {:?}", s.map.get(a));
						break;
					}
				}
			}
			if d.is_empty() {
				let show = |r: &crate::motors::Regs| {
					format!(
						"pending {:?} rev {} errcode {} reboots {} resets {:?} executed {} alert {}",
						r.pending, r.rev, r.errcode, r.reboots, r.resets, r.executed, r.alert
					)
				};
				d = format!("{} / expected {}", show(&m.regs), show(s));
			}
			return Err(format!("motor {}: {d}", s.id));
		}
	}
	Ok(())
}

fn wrote(calls: &[Call]) -> usize {
	calls.iter().filter(|c| matches!(c, Call::Write { .. })).count()
}

/// What happened in one step of the model.
pub enum Did {
	Skip,
	Refused,
	Done(Out),
}

/// One operation on a healthy bus, checked against the model.
pub fn step(b: &mut Bench, prop: &str, op: &Op, force: &[Vec<(u8, bool)>]) -> Did {
	step_then(b, prop, op, force, true)
}

/// `settle`: wait for the bus to be quiet before going on.
pub fn step_then(b: &mut Bench, prop: &str, op: &Op, force: &[Vec<(u8, bool)>], settle: bool) -> Did {
	if ops::must_panic(op) {
		let out = b.exec(op);
		b.settle();
		b.sim.w.borrow_mut().fk(Fk::CallerPanic);
		let ok = match &out.res {
			Res::Panic(_) => true,
			// Finding the buffer too small first is as good.
			Res::Write(Err(E::BufSmall(..))) | Res::Multi(Err(E::BufSmall(..))) => true,
			_ => false,
		};
		if !ok {
			b.fail(prop, format!("{op:?}: misuse was not refused: {:?}", out.res));
		}
		if wrote(&b.calls()) > 0 {
			b.fail(prop, format!("{op:?}: sent something although the call panicked"));
		}
		if let Err(e) = same_regs(b) {
			b.fail(prop, format!("after refused {op:?}: {e}"));
		}
		return Did::Refused;
	}
	if !b.fits(op) {
		b.sim.w.borrow_mut().fk(Fk::BufSmall);
		let out = b.exec(op);
		b.settle();
		let small = match &out.res {
			Res::Single(Err(E::BufSmall(..))) | Res::Write(Err(E::BufSmall(..))) | Res::Multi(Err(E::BufSmall(..))) => true,
			// A caller error may be noticed before the size.
			_ => false,
		};
		if !small {
			b.fail(prop, format!("{op:?}: does not fit the write buffer of {} bytes, but the result is {:?}", b.wbuf, out.res));
		}
		if wrote(&b.calls()) > 0 {
			b.fail(prop, format!("{op:?}: sent something although the buffer is too small"));
		}
		if let Err(e) = same_regs(b) {
			b.fail(prop, format!("after refused {op:?}: {e}"));
		}
		return Did::Refused;
	}
	let mut trial = b.shadow.clone();
	let wants = shadow_apply(&mut trial, op, force);
	// A result that is known to be bad before its reply is over starts the next wait early.
	if matches!(op, Op::SyncRead { .. } | Op::SyncReadBytes { .. } | Op::BulkRead { .. } | Op::Scan { .. })
		&& expectations(op, &wants, b.rbuf).iter().any(|e| matches!(e, Err(EWant::Is(E::BufFull(..)))))
	{
		return Did::Skip;
	}
	b.shadow = trial;
	{
		let mut bus = b.bus.borrow_mut();
		for (m, f) in bus.motors.iter_mut().zip(force) {
			m.force = f.clone();
		}
	}
	let out = b.exec(op);
	if settle {
		b.settle();
	}
	for m in &mut b.bus.borrow_mut().motors {
		m.force.clear();
	}
	if let Err(e) = compare(op, &out, &wants, b.rbuf) {
		b.fail(prop, format!("{op:?}: {e}"));
	}
	if let Err(e) = same_regs(b) {
		b.fail(prop, format!("after {op:?}: {e}"));
	}
	Did::Done(out)
}

fn failed(b: &Bench) -> bool {
	!b.sim.w.borrow().fails.is_empty()
}

/// Change something in a motor that is not caused by an instruction.
fn world_op(b: &mut Bench) {
	let (i, k, v) = b.src(|s| (s.below(64) as usize, s.below(3), s.flat_byte()));
	let n = b.shadow.len();
	let i = i % n;
	let bus = b.bus.clone();
	let mut bus = bus.borrow_mut();
	for r in [&mut b.shadow[i], &mut bus.motors[i].regs] {
		match k {
			0 => r.alert = !r.alert,
			1 => r.rev += 1,
			_ => r.errcode = v,
		}
	}
}

/// C02: histories of unicast operations.
pub fn c02(sim: &W) {
	let mut b = Bench::healthy(sim, &Setup::default());
	let n = b.src(|s| s.rounds(3, 25));
	for _ in 0..n {
		if b.src(|s| s.chance(60)) {
			world_op(&mut b);
		}
		// A new client forgets what happened to the one before.
		if b.src(|s| s.chance(if s.long { 1 } else { 25 })) {
			b.handover("C02");
		}
		let g = b.g.clone();
		// Now and then an operation of another kind, so that histories are mixed.
		let op = b.src(|s| match s.weighted(&[16, 1, 1, 1]) {
			0 => g.unicast(s),
			1 => g.broadcast(s),
			2 => g.multi_write(s),
			_ => g.multi_read(s, false),
		});
		let d = step(&mut b, "C02", &op, &[]);
		if let (Did::Done(out), true) = (&d, matches!(op, Op::Read { .. } | Op::ReadBytes { .. })) {
			if let Res::Single(Ok(r)) = &out.res {
				let mut w = sim.w.borrow_mut();
				w.probe(if r.data.is_empty() { "read of nothing" } else { "read returned data" });
				if proto::stuff(&[&[0x55, 0], &r.data[..]].concat()).len() > r.data.len() + 2 {
					w.probe("read of data that needs stuffing");
				}
			}
		}
		if failed(&b) {
			return;
		}
	}
}

/// One client and the same motors for a long time: nothing wears out.
pub fn c02_long(sim: &W) {
	let mut b = Bench::healthy(sim, &Setup { motors: (1, 2), dev: 0, max_data: 20, tight: true, missing: 0 });
	let port = b.port;
	sim.w.borrow_mut().ports[port].cfg.chunk = 0;
	// Sometimes more operations than a counter of 16 bits can count.
	let n = b.src(|s| match s.weighted(&[6, 1]) {
		0 => s.us(260, 1_500),
		_ => s.us(65_600, 67_000),
	});
	let all = b.src(|s| s.chance(500));
	for _ in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| {
			s.begin();
			let id = s.pick(&g.ids);
			let op = match s.weighted(&[4, 3, 2, if all { 2 } else { 0 }]) {
				0 => Op::Ping { id },
				1 => Op::Read { ty: s.below(6) as usize, id, addr: s.below(60) as u16 },
				2 => Op::WriteBytes { id, addr: s.below(60) as u16, data: s.bytes(2) },
				_ => g.any(s),
			};
			s.end();
			op
		});
		step(&mut b, "C02", &op, &[]);
		if failed(&b) {
			return;
		}
	}
	sim.w.borrow_mut().probe(if n > 0x1_0000 { "more operations than 16 bits count" } else { "long history" });
}

/// A bus with large buffers everywhere.
fn large(sim: &W, motors: (usize, usize)) -> Bench {
	let s = Setup { motors, dev: 500, max_data: 65_600, tight: false, missing: 0 };
	let mut b = Bench::healthy(sim, &Setup { max_data: 40, ..s });
	let big = b.src(|s| s.pick(&[2_000usize, 66_000, 90_000, 70_000]));
	let port = b.port;
	{
		let mut w = sim.w.borrow_mut();
		w.ports[port].cfg.blocking_write = true;
		w.ports[port].cfg.read_cost = 0;
		if w.ports[port].cfg.chunk == 1 {
			w.ports[port].cfg.chunk = 2;
		}
		// Keep the response window of the long reply well above the pauses.
		w.ports[port].baud = w.ports[port].baud.max(57_600);
	}
	b.cl = dynamixel2::Client::with_buffers(crate::world::SimPort::new(sim, port), vec![0; big], vec![0; big]).unwrap();
	b.rbuf = big;
	b.wbuf = big;
	for m in &mut b.shadow {
		m.limit = 0x1_0000;
	}
	for m in &mut b.bus.borrow_mut().motors {
		m.regs.limit = 0x1_0000;
		if let crate::motors::Brain::Dev(d, p, _) = &mut m.brain {
			**d = dynamixel2::Device::with_buffers(crate::world::SimPort::new(sim, *p), vec![0; 90_000], vec![0; 90_000]).unwrap();
		}
	}
	b.g.rbuf = big;
	b.g.wbuf = big;
	b
}

/// A read or sync read can only be answered if the replies can be encoded in 16 bits.
fn encodable(b: &Bench, id: u8, addr: u16, count: usize) -> bool {
	let m = b.shadow.iter().find(|m| m.id == id).unwrap();
	let mut p = vec![0];
	p.extend(m.slice(addr, count));
	proto::encoded_len(proto::STATUS, &p) - 7 <= 0xFFFF
}

/// C09 with data up to the limits of the protocol.
pub fn c09_large(sim: &W) {
	let mut b = large(sim, (1, 5));
	let n = b.src(|s| s.us(1, 4));
	for _ in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| {
			s.begin();
			let total = match s.below(4) {
				0 => g.wbuf,
				1 => s.us(0, g.wbuf),
				2 => s.skewed(g.wbuf as u64) as usize,
				_ => 65_520,
			};
			let one = total / g.ids.len();
			let one = one.saturating_sub(s.us(0, 12));
			let op = if s.chance(400) {
				let n = one.min(0xFFFF);
				Op::SyncWriteBytes { addr: s.skewed(300) as u16, count: n as u16, data: g.ids.iter().map(|i| (*i, s.bytes(n))).collect(), via: s.below(2) as u8 }
			} else {
				let mut left = total;
				let mut data: Vec<_> = g
					.ids
					.iter()
					.map(|i| {
						let n = match s.below(3) {
							0 => one.min(left),
							1 => s.us(0, left),
							_ => s.skewed(300).min(left as u64) as usize,
						};
						left -= n;
						(*i, s.skewed(300) as u16, s.bytes(n))
					})
					.collect();
				if s.chance(30) {
					// More than the length field of the instruction can say.
					let i = s.below(data.len() as u64) as usize;
					data[i].2 = vec![7; 0x1_0000 + s.us(0, 300)];
				}
				Op::BulkWrite { data, via: s.below(2) as u8 }
			};
			s.end();
			op
		});
		if let Did::Done(_) = step(&mut b, "C09", &op, &[]) {
			sim.w.borrow_mut().probe("large multi-motor write");
			if wrote(&b.calls()) != 1 {
				b.fail("C09", format!("{} messages sent for a large multi-motor write", wrote(&b.calls())));
			}
		}
		if failed(&b) {
			return;
		}
	}
}

/// C08 with replies up to the limits of the protocol.
pub fn c08_large(sim: &W) {
	let mut b = large(sim, (1, 5));
	let n = b.src(|s| s.us(1, 3));
	for _ in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| {
			s.begin();
			let len = |s: &mut Src| match s.below(3) {
				0 => s.us(0, 65_000),
				1 => s.skewed(65_000) as usize,
				_ => g.rbuf.min(65_535) - s.us(0, 30),
			} as u16;
			let take = g.take(s, g.ids.len());
			let via = s.below(3) as u8;
			let op = if s.chance(400) {
				Op::SyncReadBytes { addr: s.skewed(300) as u16, count: len(s), take, ids: g.ids.clone(), via }
			} else {
				Op::BulkRead { reads: g.ids.iter().map(|i| (*i, s.skewed(300) as u16, len(s))).collect(), take, via }
			};
			s.end();
			op
		});
		let ok = match &op {
			Op::SyncReadBytes { addr, count, ids, .. } => ids.iter().all(|i| encodable(&b, *i, *addr, usize::from(*count))),
			Op::BulkRead { reads, .. } => reads.iter().all(|(i, a, n)| encodable(&b, *i, *a, usize::from(*n))),
			_ => true,
		};
		if !ok {
			continue;
		}
		let settle = b.src(|s| s.chance(500));
		step_then(&mut b, "C08", &op, &[], settle);
		sim.w.borrow_mut().probe("large replies");
		if failed(&b) {
			return;
		}
		let op2 = b.src(|s| Op::Ping { id: s.pick(&g.ids) });
		step(&mut b, "C08", &op2, &[]);
		if failed(&b) {
			return;
		}
	}
}

/// Large transfers: data up to the 16-bit limits of the protocol.
pub fn c02_large(sim: &W) {
	let mut b = large(sim, (1, 2));
	let n = b.src(|s| s.us(1, 4));
	for _ in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| {
			let id = g.id(s);
			let addr = s.skewed(300) as u16;
			let len = match s.weighted(&[3, 2]) {
				0 => s.us(0, 65_535 - usize::from(addr)),
				_ => (65_535 - usize::from(addr)).min(65_530 - s.us(0, 12)),
			};
			match s.below(5) {
				0 => Op::ReadBytes { id, addr, count: len as u16, kind: s.below(4) as u8 },
				1 => Op::WriteBytes { id, addr, data: s.bytes(len) },
				2 => Op::RegWriteBytes { id, addr, data: s.bytes(len) },
				3 => Op::Action { id },
				_ => Op::BulkRead { reads: vec![(id, addr, len as u16)], take: None, via: s.below(3) as u8 },
			}
		});
		// A reply that cannot be encoded in 16 bits is a matter of the motor.
		let ok = match &op {
			Op::ReadBytes { id, addr, count, .. } => encodable(&b, *id, *addr, usize::from(*count)),
			Op::BulkRead { reads, .. } => reads.iter().all(|(i, a, n)| encodable(&b, *i, *a, usize::from(*n))),
			_ => true,
		};
		if !ok {
			continue;
		}
		step(&mut b, "C02", &op, &[]);
		sim.w.borrow_mut().probe("large transfer");
		if failed(&b) {
			return;
		}
	}
}

/// What an intact or damaged reply on the wire may lead to.
fn from_wire(wire: &[u8], id: Option<u8>, count: u16, rbuf: usize) -> Vec<Result<Resp, E>> {
	if wire.len() > rbuf {
		return vec![Err(E::BufFull(wire.len(), rbuf))];
	}
	let claim = usize::from(u16::from_le_bytes([wire[5], wire[6]]));
	if claim < 3 {
		return vec![Err(E::Count(0, "Min(1)".to_string()))];
	}
	if 7 + claim > rbuf {
		return vec![Err(E::BufFull(7 + claim, rbuf))];
	}
	let Some(p) = proto::decode_at(wire, 0) else {
		let n = wire.len();
		let c = proto::crc(&wire[..n - 2]);
		return vec![Err(E::Checksum(u16::from_le_bytes([wire[n - 2], wire[n - 1]]), c))];
	};
	let mut v = vec![];
	if !p.is_status() {
		return vec![Err(E::Instr(p.instr, proto::STATUS))];
	}
	if p.err & 0x7F != 0 {
		v.push(Err(E::Motor(p.err)));
	}
	if let Some(id) = id {
		if p.id != id {
			v.push(Err(E::PacketId(p.id, Some(id))));
		}
	}
	if p.params.len() != usize::from(count) {
		v.push(Err(E::Count(p.params.len(), format!("Exact({count})"))));
	}
	if v.is_empty() {
		v.push(Ok(Resp { id: p.id, alert: p.err & 0x80 != 0, data: p.params, err: None }));
	}
	v
}

/// C08: multi-motor reads, with faults that concern single replies, on ports that may not be able to discard.
pub fn c08(sim: &W) {
	let faulty = sim.w.borrow_mut().src.chance(600);
	let many = sim.w.borrow_mut().src.chance(100);
	let s = Setup { motors: if many { (5, 24) } else { (1, 6) }, tight: !faulty, missing: if faulty { 0 } else { 40 }, ..Default::default() };
	let mut b = Bench::healthy(sim, &s);
	let noop = b.src(|s| s.chance(400));
	if noop {
		let mut w = sim.w.borrow_mut();
		let p = b.port;
		w.ports[p].cfg.discard_noop = true;
		w.fk(Fk::DiscardNoop);
	}
	let n = b.src(|s| s.rounds(2, 10));
	for _ in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| g.multi_read(s, true));
		if faulty && b.fits(&op) {
			let mut trial = b.shadow.clone();
			let wants = shadow_apply(&mut trial, &op, &[]);
			if wants.contains(&Want::Silent) {
				continue;
			}
			// The faulted replies may be up to 8 bytes longer, plus stuffing: they must still fit the window and buffer.
			b.shadow = trial;
			b.bus.borrow_mut().f = LineFaults { crc: 150, wronglen: 120, force_err: 150, foreign: 120, notstatus: 80, badlen: 80, over: b.rbuf, ..Default::default() };
			let out = b.exec(&op);
			b.settle();
			b.bus.borrow_mut().f = LineFaults::default();
			check_items(&b, &op, &out, &wants);
		} else {
			// An iterator that is over, abandoned or not, has taken all the replies: no pause is needed.
			let mut trial = b.shadow.clone();
			let settle = b.src(|s| s.chance(500)) || shadow_apply(&mut trial, &op, &[]).contains(&Want::Silent);
			step_then(&mut b, "C08", &op, &[], settle);
		}
		if failed(&b) {
			return;
		}
		if b.src(|s| s.chance(if s.long { 1 } else { 40 })) {
			b.settle();
			b.handover("C08");
		}
		// The next operation gets its own reply.
		let op2 = b.src(|s| {
			let id = s.pick(&g.ids);
			match s.below(4) {
				0 => Op::Ping { id },
				1 => Op::ReadBytes { id, addr: s.below(100) as u16, count: s.below(4) as u16, kind: s.below(4) as u8 },
				2 => Op::Read { ty: s.below(3) as usize, id, addr: s.below(60) as u16 },
				_ => g.multi_read(s, true),
			}
		});
		step(&mut b, "C08", &op2, &[]);
		if failed(&b) {
			return;
		}
	}
}

/// C08 on a bus where some motors stay silent, and the others answer all the same (each in its own window).
pub fn c08_silent(sim: &W) {
	silent(sim, false);
}

/// The same with lists that are longer than there are IDs, and name some motors again and again (each entry is answered).
pub fn c08_lists(sim: &W) {
	silent(sim, true);
}

fn silent(sim: &W, lists: bool) {
	let (port, rate, rbuf) = {
		let mut w = sim.w.borrow_mut();
		let w = &mut *w;
		let noop = w.src.chance(600);
		if noop {
			w.fk(Fk::DiscardNoop);
		}
		let cfg = PortCfg { chunk: w.src.weighted(&[4, 2, 3]) as u8, strict: w.src.chance(300), discard_noop: noop, ..Default::default() };
		let rate = bench::gen_baud(&mut w.src);
		let rbuf = if lists { 4096 } else { w.src.pick(&[128usize, 400, 4096]) };
		(w.add_port(rate, cfg), rate, rbuf)
	};
	let mut cl = dynamixel2::Client::with_buffers(SimPort::new(sim, port), vec![0; rbuf], vec![0; rbuf]).unwrap();
	let n = sim.w.borrow_mut().src.rounds(1, 6);
	for _ in 0..n {
		let op = {
			let mut w = sim.w.borrow_mut();
			let s = &mut w.src;
			s.begin();
			let mut ids: Vec<u8> = if lists {
				let k = s.pick(&[20, 300, 700]);
				let few = s.pick(&[2, 20, 253]);
				(0..s.us(1, k)).map(|i| (i % few) as u8).collect()
			} else {
				(1..=s.us(1, 8).min((rbuf - 14) / 5) as u8).collect()
			};
			for i in (1..ids.len()).rev() {
				let j = s.below(i as u64 + 1) as usize;
				ids.swap(i, j);
			}
			let take = if s.chance(650) { Some(s.us(0, ids.len())) } else { None };
			let count = |s: &mut Src| s.skewed(if lists { 8 } else { (rbuf / 2) as u64 }) as u16;
			let via = s.below(3) as u8;
			// A bulk read refuses motors that are named twice.
			let op = match s.below(if lists { 3 } else { 4 }) {
				0 => Op::Scan { take, via: via % 2 },
				1 => Op::SyncRead { ty: s.below(8) as usize, ids, addr: 3, take, via: via % 2 },
				2 => Op::SyncReadBytes { ids, addr: 3, count: count(s), take, via },
				_ => Op::BulkRead { reads: ids.iter().map(|i| (*i, 3, count(s))).collect(), take, via },
			};
			s.end();
			op
		};
		let scan = matches!(op, Op::Scan { .. });
		let reps = if scan { vec![] } else { ops::replies(&op) };
		let take = match &op {
			Op::Scan { take, .. } | Op::SyncRead { take, .. } | Op::SyncReadBytes { take, .. } | Op::BulkRead { take, .. } => *take,
			_ => None,
		};
		// What is answered, and what each result must be. Nothing comes close to the edges of a window.
		let mut want: Vec<Option<Vec<u8>>> = vec![];
		{
			let mut w = sim.w.borrow_mut();
			let w = &mut *w;
			let mut t = w.now;
			let all: Vec<(u8, u16)> = if scan { (1..=w.src.us(0, if lists { 600 } else { 4 })).map(|i| ((i % 253) as u8, 3)).collect() } else { reps.clone() };
			let present = w.src.pick(&[300, 600, 900]);
			for (id, n) in &all {
				let win = if scan { 253 * proto::transfer_ns(14, rate) + 34 * MS } else { proto::reply_window(u64::from(*n), rate) };
				if !scan && !w.src.chance(present) {
					w.fk(Fk::ReplyLost);
					want.push(None);
					t += win;
					continue;
				}
				t += win / 5 + w.src.below(win * 2 / 5);
				let d = w.src.bytes(usize::from(*n));
				let mut bytes = proto::status(*id, 0, &d);
				if lists && w.src.chance(50) {
					let n = bytes.len();
					bytes[n - 1] ^= 1 << w.src.below(8);
					w.fk(Fk::CrcDamage);
				}
				want.push(Some(bytes.clone()));
				w.at(t, Ev::Rx { port, bytes });
			}
			if want.len() > 256 {
				w.probe("more results than there are IDs");
			}
			if want.iter().flatten().any(|x| x.len() > rbuf) {
				return;
			}
		}
		let out = ops::exec(sim, port, &mut cl, &op);
		let Res::Multi(Ok(m)) = &out.res else {
			sim.w.borrow_mut().fail("C08", format!("{op:?}: {:?}", out.res));
			return;
		};
		let wanted = want.len().min(take.unwrap_or(usize::MAX));
		let mut w = sim.w.borrow_mut();
		for (i, (it, want)) in m.items.iter().zip(&want).enumerate() {
			let ok = match (want, &it.res) {
				(None, Err(e)) => e.is_timeout(),
				(None, Ok(_)) => false,
				(Some(x), r) => {
					let (id, n) = if scan { (None, 3) } else { (Some(reps[i].0), reps[i].1) };
					from_wire(x, id, n, rbuf).contains(r)
				},
			};
			if !ok {
				w.fail("C08", format!("{op:?}: item {i} is {:?}, sent in its window: {:?}", it.res, want.as_ref().map(|x| proto::hex(x))));
				return;
			}
		}
		if m.items.len() != wanted {
			w.fail("C08", format!("{op:?}: yielded {} items, expected {wanted}", m.items.len()));
			return;
		}
		if m.unfused || (take.is_none() && m.ended.is_none()) {
			w.fail("C08", format!("{op:?}: it did not end, or went on after its end"));
			return;
		}
		if !scan {
			if let Err(e) = bench::check_remaining(m, want.len()) {
				w.fail("C08", format!("{op:?}: {e}"));
				return;
			}
		}
		if wanted < want.len() {
			w.fk(Fk::Abandon);
			if want[wanted..].windows(2).any(|x| x[0].is_none() && x[1].is_some()) {
				w.probe("abandoned with a silent motor before one that answers");
			}
		}
		// The next operation, at once.
		let (id, n) = if reps.is_empty() { (1, 3) } else { w.src.pick(&reps) };
		let n = if w.src.chance(700) { n } else { w.src.skewed(40) as u16 };
		let op2 = Op::ReadBytes { id, addr: 3, count: n, kind: w.src.below(4) as u8 };
		let d = w.src.bytes(usize::from(n));
		let bytes = proto::status(id, 0, &d);
		if bytes.len() > rbuf {
			return;
		}
		let win = proto::reply_window(u64::from(n), rate);
		let at = w.now + win / 10 + w.src.below(win * 7 / 10);
		w.at(at, Ev::Rx { port, bytes: bytes.clone() });
		drop(w);
		let out2 = ops::exec(sim, port, &mut cl, &op2);
		let ok = match &out2.res {
			Res::Single(r) => from_wire(&bytes, Some(id), n, rbuf).contains(r),
			_ => false,
		};
		if !ok {
			sim.w.borrow_mut().fail("C08", format!("after {op:?}: {op2:?} gave {:?}, its motor sent {}", out2.res, proto::hex(&bytes)));
			return;
		}
		sim.w.borrow_mut().probe("operation right after a read with silent motors");
	}
}

/// A bus with up to as many motors as there are IDs.
fn crowd(sim: &W) -> Bench {
	let (lo, hi) = sim.w.borrow_mut().src.pick(&[(25, 80), (60, 200), (245, 253), (253, 253)]);
	// The motors built on `Device` have read buffers of 8 KiB.
	let (size, dev) = sim.w.borrow_mut().src.pick(&[(40_000usize, 0), (4_000, 40), (4_000, 0), (1_300, 40)]);
	let mut b = Bench::healthy(sim, &Setup { motors: (lo, hi), dev, max_data: 40, tight: false, missing: 0 });
	let port = b.port;
	{
		let mut w = sim.w.borrow_mut();
		w.ports[port].cfg.blocking_write = true;
		// The wait for all replies to a scan must not take for ever.
		w.ports[port].baud = w.ports[port].baud.max(9_600);
	}
	b.cl = dynamixel2::Client::with_buffers(crate::world::SimPort::new(sim, port), vec![0; size], vec![0; size]).unwrap();
	b.rbuf = size;
	b.wbuf = size;
	b.g.rbuf = size.min(200);
	b.g.wbuf = size;
	b
}

/// C08 with very many motors.
pub fn c08_crowd(sim: &W) {
	let mut b = crowd(sim);
	let n = b.src(|s| s.us(1, 4));
	for _ in 0..n {
		let mut g = b.g.clone();
		if b.src(|s| s.chance(400)) {
			// The same motors, in some other order.
			b.src(|s| {
				for i in (1..g.ids.len()).rev() {
					let j = s.below(i as u64 + 1) as usize;
					g.ids.swap(i, j);
				}
			});
		}
		let op = b.src(|s| {
			s.begin();
			let ids = g.ids[..if s.chance(600) { g.ids.len() } else { s.us(1, g.ids.len()) }].to_vec();
			let take = g.take(s, ids.len());
			let via = s.below(3) as u8;
			let op = match s.below(4) {
				0 => Op::SyncRead { ty: s.below(8) as usize, addr: g.addr(s), take, ids, via: via % 2 },
				1 => Op::SyncReadBytes { addr: g.addr(s), count: s.below(6) as u16, take, ids, via },
				2 => Op::BulkRead { reads: ids.iter().map(|i| (*i, g.addr(s), s.below(6) as u16)).collect(), take, via },
				_ => Op::Scan { take: g.take(s, g.ids.len()), via: via % 2 },
			};
			s.end();
			op
		});
		// An iterator that is over, abandoned or not, leaves the bus ready for the next instruction.
		let settle = b.src(|s| s.chance(500));
		if let Did::Done(out) = step_then(&mut b, "C08", &op, &[], settle) {
			if let Res::Multi(Ok(m)) = out.res {
				if m.items.len() > 200 {
					sim.w.borrow_mut().probe("more than 200 results");
				}
			}
		}
		if failed(&b) {
			return;
		}
		let op2 = b.src(|s| Op::Ping { id: s.pick(&g.ids) });
		step(&mut b, "C08", &op2, &[]);
		if failed(&b) {
			return;
		}
	}
}

/// C09 with very many motors.
pub fn c09_crowd(sim: &W) {
	let mut b = crowd(sim);
	let n = b.src(|s| s.us(1, 4));
	for _ in 0..n {
		let g = b.g.clone();
		let mut op = b.src(|s| g.multi_write(s));
		if let Op::BulkWrite { data, .. } = &mut op {
			if data.len() > 1 && b.src(|s| s.chance(200)) {
				b.src(|s| {
					let i = s.below(data.len() as u64) as usize;
					let j = s.below(data.len() as u64) as usize;
					data[i].0 = data[j].0;
				});
			}
		}
		if let Did::Done(_) = step(&mut b, "C09", &op, &[]) {
			sim.w.borrow_mut().probe("write to many motors");
			if wrote(&b.calls()) != 1 {
				b.fail("C09", format!("{op:?}: {} messages sent", wrote(&b.calls())));
			}
		}
		if failed(&b) {
			return;
		}
	}
}

fn check_items(b: &Bench, op: &Op, out: &Out, wants: &[Want]) {
	let Res::Multi(Ok(m)) = &out.res else {
		b.fail("C08", format!("{op:?}: {:?}", out.res));
		return;
	};
	let reps = ops::replies(op);
	let scan = matches!(op, Op::Scan { .. });
	let wires: Vec<Vec<u8>> = b.bus.borrow().delivered.iter().map(|x| x.1.clone()).collect();
	let take = match op {
		Op::Scan { take, .. } | Op::SyncRead { take, .. } | Op::SyncReadBytes { take, .. } | Op::BulkRead { take, .. } => *take,
		_ => None,
	};
	let total = if scan { wants.len() } else { reps.len() };
	if wires.len() != total {
		// Not all motors answered: the instruction did not reach them as sent.
		b.fail("C08", format!("{op:?}: {} of {total} motors answered", wires.len()));
		return;
	}
	let want_items = total.min(take.unwrap_or(usize::MAX));
	for (i, it) in m.items.iter().enumerate().take(want_items) {
		let (id, n) = if scan { (None, 3) } else { (Some(reps[i].0), reps[i].1) };
		let ok = from_wire(&wires[i], id, n, b.rbuf);
		if !ok.contains(&it.res) {
			b.fail("C08", format!("{op:?}: item {i} is {:?}, the reply on the wire allows only {ok:?} (reply: {})", it.res, proto::hex(&wires[i])));
			return;
		}
		if it.res.is_err() {
			b.sim.w.borrow_mut().probe("item spoiled by its own reply");
		} else if i > 0 && m.items[i - 1].res.is_err() {
			b.sim.w.borrow_mut().probe("good item right after a spoiled one");
		}
	}
	if m.items.len() != want_items {
		b.fail("C08", format!("{op:?}: yielded {} items, expected {want_items}", m.items.len()));
		return;
	}
	if take.is_none() && m.ended.is_none() {
		b.fail("C08", format!("{op:?}: did not end"));
	}
	if m.unfused {
		b.fail("C08", format!("{op:?}: yielded another item after its end"));
	}
	if !scan {
		if let Err(e) = bench::check_remaining(m, total) {
			b.fail("C08", format!("{op:?}: {e}"));
		}
	}
	if take.is_some_and(|t| t < total) {
		b.sim.w.borrow_mut().fk(Fk::Abandon);
	}
}

thread_local! {
	static FUSE: Cell<u32> = const { Cell::new(u32::MAX) };
}

/// A value whose encoder fails after a number of uses.
struct Fused(u8);
impl dynamixel2::bus::Data for Fused {
	const ENCODED_SIZE: u16 = 1;
	fn encode(&self, b: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
		let n = FUSE.get();
		if n == 0 {
			return Err(dynamixel2::BufferTooSmallError { required_size: 4242, total_size: 1 });
		}
		FUSE.set(n - 1);
		b[0] = self.0;
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, dynamixel2::InvalidMessage> {
		Ok(Fused(b[0]))
	}
}

/// C09: multi-motor writes.
pub fn c09(sim: &W) {
	let s = Setup { motors: (1, 6), missing: 60, max_data: 120, ..Default::default() };
	let mut b = Bench::healthy(sim, &s);
	let n = b.src(|s| s.rounds(2, 12).min(1_500));
	for _ in 0..n {
		let g = b.g.clone();
		let mut op = b.src(|s| if s.chance(120) { g.unicast(s) } else { g.multi_write(s) });
		if b.src(|s| s.chance(30)) {
			// A bulk read must refuse duplicates as well.
			op = b.src(|s| {
				let n = if s.chance(300) { s.us(6, 250) } else { s.us(1, 5) };
				let step = if n < 36 { 7 } else { 1 };
				let mut reads: Vec<(u8, u16, u16)> = (0..n).map(|i| (i as u8 * step, s.below(60) as u16, s.below(9) as u16)).collect();
				let i = s.below(reads.len() as u64) as usize;
				let j = s.below(reads.len() as u64 + 1) as usize;
				let x = (reads[i].0, s.below(60) as u16, reads[i].2);
				reads.insert(j, x);
				Op::BulkRead { reads, take: None, via: s.below(3) as u8 }
			});
		}
		// Misuse.
		if b.src(|s| s.chance(150)) {
			b.src(|s| match &mut op {
				Op::SyncWriteBytes { data, .. } if !data.is_empty() => {
					let i = s.below(data.len() as u64) as usize;
					let d = &mut data[i].1;
					match s.below(3) {
						0 => d.push(s.byte()),
						1 => {
							if d.pop().is_none() {
								d.push(1);
							}
						},
						_ => d.extend([0; 5]),
					}
				},
				Op::BulkWrite { data, .. } if !data.is_empty() => {
					let i = s.below(data.len() as u64) as usize;
					let j = s.below(data.len() as u64 + 1) as usize;
					let mut x = data[i].clone();
					if s.chance(500) {
						x.2 = s.bytes(3);
					}
					data.insert(j, x);
				},
				_ => {},
			});
		}
		match b.src(|s| s.weighted(&[12, 2, 1])) {
			1 => {
				// The port cannot discard its input.
				let port = b.port;
				sim.w.borrow_mut().ports[port].cfg.f_discard = 1000;
				let misuse = ops::must_panic(&op) || !b.fits(&op);
				let out = b.exec(&op);
				sim.w.borrow_mut().ports[port].cfg.f_discard = 0;
				b.settle();
				let ok = match &out.res {
					Res::Write(Err(E::Discard(_))) | Res::Single(Err(E::Discard(_))) => true,
					Res::Panic(_) | Res::Write(Err(E::BufSmall(..))) | Res::Single(Err(E::BufSmall(..))) => misuse,
					_ => false,
				};
				if !ok {
					b.fail("C09", format!("{op:?} on a port that cannot discard: {:?}", out.res));
				}
				if wrote(&b.calls()) > 0 {
					b.fail("C09", format!("{op:?}: sent although discarding failed"));
				}
				if let Err(e) = same_regs(&b) {
					b.fail("C09", format!("after failed {op:?}: {e}"));
				}
			},
			2 => {
				// The encoder of one of the values fails.
				let (ids, k) = b.src(|s| {
					let k = s.below(g.ids.len() as u64);
					(g.ids.clone(), k)
				});
				let v: Vec<SyncWriteData<Fused>> = ids.iter().map(|i| SyncWriteData { motor_id: *i, data: Fused(*i) }).collect();
				FUSE.set(k as u32);
				ops::begin_op(sim, b.port);
				let r = b.cl.sync_write(3, &v);
				FUSE.set(u32::MAX);
				sim.w.borrow_mut().fk(Fk::EncodeFail);
				b.settle();
				if r.is_ok() || wrote(&b.calls()) > 0 {
					b.fail("C09", format!("sync write with a failing encoder: {:?}, {} messages sent", r.is_ok(), wrote(&b.calls())));
				}
				if let Err(e) = same_regs(&b) {
					b.fail("C09", format!("after a failing encoder: {e}"));
				}
			},
			_ => {
				if let Did::Done(_) = step(&mut b, "C09", &op, &[]) {
					if wrote(&b.calls()) != 1 {
						b.fail("C09", format!("{op:?}: {} messages sent", wrote(&b.calls())));
					}
				}
			},
		}
		if failed(&b) {
			return;
		}
	}
}

/// C10: broadcasts, with stray traffic around them.
pub fn c10(sim: &W) {
	broadcasts(sim, false);
}

/// C10 with large packets and many motors.
pub fn c10_large(sim: &W) {
	broadcasts(sim, true);
}

fn broadcasts(sim: &W, big: bool) {
	let s = if big { Setup { motors: (1, 30), missing: 0, max_data: sim.w.borrow_mut().src.pick(&[700, 4_000, 30_000]), tight: false, ..Default::default() } } else { Setup { motors: (1, 5), missing: 0, ..Default::default() } };
	let mut b = Bench::healthy(sim, &s);
	let n = b.src(|s| s.rounds(2, 14));
	for _ in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| if s.chance(750) { g.broadcast(s) } else { g.multi_write(s) });
		// Stray bytes: already there, or arriving while the instruction goes out, or right behind it.
		let noisy = b.src(|s| s.chance(400));
		let now = sim.w.borrow().now;
		let mut settle_to = now;
		if noisy {
			let k = b.src(|s| s.int(1, 3));
			for _ in 0..k {
				let (v, at) = b.src(|s| {
					let v = match s.weighted(&[2, 2]) {
						0 => crate::motors::noise(s),
						_ => {
							let id = s.pick(&[1u8, BROADCAST, 2]);
							proto::status(id, s.flat_byte(), &[])
						},
					};
					(v, now + s.pick(&[0, 0, 10_000, MS, 20 * MS]))
				});
				settle_to = settle_to.max(at);
				bench::stray(sim, b.port, v, at);
			}
		}
		match step(&mut b, "C10", &op, &[]) {
			Did::Done(out) => {
				let c = b.calls();
				let (d, wr, rd) = bench::count_calls(&c);
				let sent = c.iter().find_map(|c| match c {
					Call::Write { bytes, end, .. } => Some((bytes.clone(), *end)),
					_ => None,
				});
				if rd > 0 {
					b.fail("C10", format!("{op:?}: read from the port {rd} times"));
				}
				if wr != 1 || d > 1 {
					b.fail("C10", format!("{op:?}: {d} discards, {wr} writes"));
				}
				if let Some((bytes, end)) = sent {
					if out.t1 != end {
						b.fail("C10", format!("{op:?}: returned {} ns after it was transmitted", out.t1 - end));
					}
					let (_, instr, params) = ops::wire(&op).unwrap();
					let p = proto::decode_at(&bytes, 0);
					if !p.as_ref().is_some_and(|p| p.id == BROADCAST && p.instr == instr && p.params == params && p.len == bytes.len()) {
						b.fail("C10", format!("{op:?}: sent {}", proto::hex(&bytes)));
					}
					if b.bus.borrow().heard.len() != 1 {
						b.fail("C10", format!("{op:?}: {} packets on the bus", b.bus.borrow().heard.len()));
					}
				}
			},
			Did::Refused | Did::Skip => {},
		}
		if failed(&b) {
			return;
		}
		crate::world::run_until(sim, settle_to + MS);
		if b.src(|s| s.chance(600)) {
			let op2 = b.src(|s| match s.weighted(&[5, 1]) {
				0 => g.unicast(s),
				_ => g.multi_read(s, true),
			});
			step(&mut b, "C10", &op2, &[]);
			if failed(&b) {
				return;
			}
		}
	}
}

/// C18: every value of the error byte, in every kind of reply.
pub fn c18(sim: &W) {
	error_bytes(sim, false);
}

/// C18 with many motors and long replies.
pub fn c18_crowd(sim: &W) {
	error_bytes(sim, true);
}

fn error_bytes(sim: &W, big: bool) {
	let tight = !big && sim.w.borrow_mut().src.chance(200);
	let (motors, max_data) = if big { sim.w.borrow_mut().src.pick(&[((30, 250), 60), ((1, 5), 3_000), ((1, 3), 20_000)]) } else { ((1, 5), 60) };
	let mut b = Bench::healthy(sim, &Setup { motors, missing: 0, max_data, tight, ..Default::default() });
	let n = b.src(|s| if big { s.us(1, 5) } else { s.rounds(3, 16) });
	for _ in 0..n {
		let g = b.g.clone();
		if b.src(|s| s.chance(150)) {
			world_op(&mut b);
		}
		let op = b.src(|s| match s.weighted(&[10, 6, 1]) {
			0 => g.unicast(s),
			1 => g.multi_read(s, true),
			_ => g.broadcast(s),
		});
		if big {
			sim.w.borrow_mut().probe("operation in a crowd");
		}
		let k = b.shadow.len();
		let force: Vec<Vec<(u8, bool)>> = (0..k)
			.map(|_| {
				b.src(|s| {
					if s.chance(700) {
						s.begin();
						let e = match s.weighted(&[2, 2, 1]) {
							0 => s.flat_byte(),
							1 => s.pick(&[0x80, 0x00, 0x80, 0x81, 0x01, 0x7F, 0xFF]),
							_ => 1 << s.below(8),
						};
						let keep = !s.chance(300);
						s.end();
						vec![(e, keep)]
					} else {
						vec![]
					}
				})
			})
			.collect();
		if force.iter().any(|f| !f.is_empty()) {
			sim.w.borrow_mut().fk(Fk::MotorErrByte);
		}
		if let Did::Done(out) = step(&mut b, "C18", &op, &force) {
			let mut w = sim.w.borrow_mut();
			let mut seen = |r: &Result<Resp, E>| match r {
				Ok(r) if r.alert => w.probe("success with alert"),
				Err(E::Motor(e)) if *e >= 0x80 => w.probe("motor error with alert"),
				Err(E::Motor(_)) => w.probe("motor error"),
				_ => {},
			};
			match &out.res {
				Res::Single(r) => seen(r),
				Res::Multi(Ok(m)) => m.items.iter().for_each(|i| seen(&i.res)),
				_ => {},
			}
		}
		if failed(&b) {
			return;
		}
	}
	let _ = (gen_buf as fn(&mut crate::choice::Src, bool, usize) -> usize, healthy_port as fn(&mut crate::choice::Src) -> crate::world::PortCfg);
}
