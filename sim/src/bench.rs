//! Building a simulated bus with a client, generating operations, and comparing outcomes with the register model.

#[cfg(not(feature = "full"))]
use crate::bare::*;
use crate::choice::Src;
use crate::motors::{add_motor, Bus, BusState, Regs, Want};
use crate::ops::{self, Cl, Item, Multi, Op, Out, Res, Resp, E};
use crate::proto::{self, ins, BROADCAST, STATUS};
use crate::vals::{NTY, TY_SIZE};
use crate::world::{run_until, Call, Fk, PortCfg, SimPort, MS, US, W};
use dynamixel2::{Client, Device};
use std::cell::RefCell;
use std::rc::Rc;

pub const BAUDS: [u32; 11] =
	[57_600, 1_000_000, 115_200, 9_600, 2_000_000, 3_000_000, 4_000_000, 4_500_000, 10_500_000, 1_200, 300];

pub struct Bench {
	pub sim: W,
	pub bus: Rc<RefCell<BusState>>,
	pub port: usize,
	pub cl: Cl,
	pub shadow: Vec<Regs>,
	pub wbuf: usize,
	pub rbuf: usize,
	pub g: Gen,
}

/// What the operation generator may use.
#[derive(Clone, Debug)]
pub struct Gen {
	pub ids: Vec<u8>,
	pub max_data: usize,
	/// Chance of addressing a motor that does not exist.
	pub missing: u32,
	pub rbuf: usize,
	pub wbuf: usize,
}

pub struct Setup {
	pub motors: (usize, usize),
	/// Chance that a motor is built on the crate's device side.
	pub dev: u32,
	pub max_data: usize,
	/// Small and odd buffers too, not only comfortable ones.
	pub tight: bool,
	pub missing: u32,
}

impl Default for Setup {
	fn default() -> Self {
		Setup { motors: (1, 4), dev: 350, max_data: 300, tight: true, missing: 30 }
	}
}

/// IDs for `n` motors, all different; includes the extremes and IDs that look like protocol bytes.
pub fn gen_ids(src: &mut Src, n: usize) -> Vec<u8> {
	let mut ids: Vec<u8> = vec![];
	while ids.len() < n {
		let mut id = match src.weighted(&[4, 3, 2]) {
			0 => (ids.len() + 1) as u8,
			1 => src.below(253) as u8,
			_ => src.pick(&[0, 0xFD, 0xFC, 0x55, 0x01, 0xFA, 0x7F, 0x80]),
		};
		while ids.contains(&id) || id >= BROADCAST {
			id = if id >= 0xFD { 0 } else { id + 1 };
		}
		ids.push(id);
	}
	ids
}

pub fn gen_baud(src: &mut Src) -> u32 {
	match src.weighted(&[6, 2]) {
		0 => BAUDS[src.weighted(&[6, 5, 4, 3, 2, 2, 2, 2, 1, 1, 1])],
		_ => src.int(300, 12_000_000) as u32,
	}
}

/// A port whose behaviour is legal: nothing fails, but chunking, costs and strictness vary.
pub fn healthy_port(src: &mut Src) -> PortCfg {
	let chunk = src.weighted(&[4, 2, 3]) as u8;
	let strict = src.chance(300);
	PortCfg {
		chunk,
		read_cost: if strict { 0 } else { src.pick(&[0, 0, 10 * US, 60 * US]) },
		strict,
		blocking_write: src.chance(500),
		..Default::default()
	}
}

impl Bench {
	/// A bus where every byte is delivered inside the response window.
	pub fn healthy(sim: &W, s: &Setup) -> Bench {
		let (baud, mut cfg, rbuf, wbuf, ids);
		{
			let mut w = sim.w.borrow_mut();
			let src = &mut w.src;
			baud = gen_baud(src);
			cfg = healthy_port(src);
			rbuf = gen_buf(src, s.tight, s.max_data);
			wbuf = gen_buf(src, s.tight, s.max_data);
			let n = src.us(s.motors.0, s.motors.1);
			ids = gen_ids(src, n);
		}
		let window = proto::reply_window(0, baud);
		// Without a blocking write the transmission itself eats into the response window.
		if proto::transfer_ns(wbuf as u64, baud) > window / 10 {
			cfg.blocking_write = true;
		}
		let lazy = {
			let mut w = sim.w.borrow_mut();
			w.src.pick(&[100, 300, 800])
		};
		let port = sim.w.borrow_mut().add_port(baud, cfg);
		Self::build(sim, port, rbuf, wbuf, &ids, s, lazy)
	}

	pub fn build(sim: &W, port: usize, rbuf: usize, wbuf: usize, ids: &[u8], s: &Setup, lazy: u32) -> Bench {
		Self::build_on(sim, SimPort::new(sim, port), rbuf, wbuf, ids, s, lazy)
	}

	pub fn build_on(sim: &W, sp: SimPort, rbuf: usize, wbuf: usize, ids: &[u8], s: &Setup, lazy: u32) -> Bench {
		let port = sp.idx;
		let bus = Rc::new(RefCell::new(BusState::new(port)));
		bus.borrow_mut().lazy = lazy;
		let mut shadow = vec![];
		for id in ids {
			let (regs, dev) = {
				let mut w = sim.w.borrow_mut();
				w.src.begin();
				let mut r = Regs::gen(&mut w.src, *id);
				r.errcode = if w.src.chance(200) { w.src.flat_byte() } else { 0 };
				let d = if w.src.chance(s.dev) { Some(w.src.below(3) as u8) } else { None };
				w.src.end();
				(r, d)
			};
			shadow.push(regs.clone());
			add_motor(sim, &bus, regs, dev, 8192.max(s.max_data * 3));
		}
		*sim.nodes.borrow_mut() = Some(Box::new(Bus(bus.clone())));
		let cl = if rbuf == 128 && wbuf == 128 {
			Client::new(sp).unwrap()
		} else {
			Client::with_buffers(sp, vec![0; rbuf], vec![0; wbuf]).unwrap()
		};
		{
			let mut w = sim.w.borrow_mut();
			let baud = w.ports[port].baud;
			let cfg = w.ports[port].cfg.clone();
			w.note("setup", &[], || format!("baud {baud}, read buffer {rbuf}, write buffer {wbuf}, motors {ids:?}, {cfg:?}"));
		}
		let g = Gen { ids: ids.to_vec(), max_data: s.max_data, missing: s.missing, rbuf, wbuf };
		Bench { sim: sim.clone(), bus, port, cl, shadow, wbuf, rbuf, g }
	}

	/// Wait until all replies are over, plus some idle time.
	pub fn settle(&self) {
		let t = self.bus.borrow().quiet_at.max(self.sim.w.borrow().tx_busy);
		run_until(&self.sim, t);
		let gap = {
			let mut w = self.sim.w.borrow_mut();
			match w.src.weighted(&[4, 2, 1]) {
				0 => 0,
				1 => w.src.below(2 * MS),
				_ => w.src.below(3_000 * MS),
			}
		};
		let now = self.sim.w.borrow().now;
		run_until(&self.sim, now + gap);
	}

	pub fn exec(&mut self, op: &Op) -> Out {
		{
			let mut b = self.bus.borrow_mut();
			b.heard.clear();
			b.delivered.clear();
			b.intended.clear();
		}
		ops::exec(&self.sim, self.port, &mut self.cl, op)
	}

	pub fn src<T>(&self, f: impl FnOnce(&mut Src) -> T) -> T {
		f(&mut self.sim.w.borrow_mut().src)
	}

	pub fn fail(&self, prop: &str, msg: String) {
		self.sim.w.borrow_mut().fail(prop, msg);
	}

	pub fn calls(&self) -> Vec<Call> {
		self.sim.w.borrow().ports[self.port].calls.clone()
	}

	/// Does the instruction of this operation fit?
	pub fn fits(&self, op: &Op) -> bool {
		match ops::wire(op) {
			None => true,
			Some((_, instr, params)) => {
				let n = proto::encoded_len(instr, &params);
				n <= self.wbuf && n - 7 <= 0xFFFF
			},
		}
	}
}

/// Take the serial port out of the client, perhaps put it in a device and take it out again, and make a new client of it.
/// Nothing of this may touch what is on the line, and the rate is the one the port has.
pub fn handover(sim: &W, port: usize, cl: Cl, rbuf: usize, wbuf: usize) -> Result<Cl, String> {
	let via = sim.w.borrow_mut().src.below(3);
	let pending = {
		let mut w = sim.w.borrow_mut();
		w.note("handover", &[via as u8], || format!("the port is put in a new client: read buffer {rbuf}, write buffer {wbuf}"));
		w.ports[port].calls.clear();
		w.ports[port].rx.len()
	};
	let at = cl.serial_port().idx;
	let mut sp = cl.into_serial_port();
	let rate = sim.w.borrow().ports[port].baud;
	if via > 0 {
		let d = Device::with_buffers(sp, vec![0; 10 + rbuf], vec![0; 10 + wbuf]).map_err(|e| format!("making a device failed: {e:?}"))?;
		if d.baud_rate() != rate || d.serial_port().idx != port {
			return Err(format!("a device on a port with {rate} baud claims {} baud", d.baud_rate()));
		}
		sp = d.into_serial_port();
	}
	let new = if via == 2 && rbuf == 128 && wbuf == 128 { Client::new(sp) } else { Client::with_buffers(sp, vec![0; rbuf], vec![0; wbuf]) };
	let cl = new.map_err(|e| format!("making a client failed: {e:?}"))?;
	let mut w = sim.w.borrow_mut();
	w.probe("port handed over");
	if cl.baud_rate() != rate || at != port || cl.serial_port().idx != port {
		return Err(format!("a client on a port with {rate} baud claims {} baud", cl.baud_rate()));
	}
	if !w.ports[port].calls.is_empty() || w.ports[port].rx.len() != pending {
		return Err(format!("handing over the port used it: {:?}, {pending} bytes pending before and {} after", w.ports[port].calls, w.ports[port].rx.len()));
	}
	Ok(cl)
}

impl Bench {
	/// The port is handed over to a new client, perhaps with other buffers.
	pub fn handover(&mut self, prop: &str) {
		let change = self.src(|s| s.chance(500));
		let (rbuf, wbuf) = if change {
			let m = self.g.max_data;
			self.src(|s| (gen_buf(s, self.rbuf < m * 2 + 400, m), gen_buf(s, self.rbuf < m * 2 + 400, m).min(self.wbuf)))
		} else {
			(self.rbuf, self.wbuf)
		};
		// Something must be in its place meanwhile.
		let other = self.sim.w.borrow_mut().add_port(57_600, PortCfg::default());
		let none = Client::with_buffers(SimPort::new(&self.sim, other), vec![0; 10], vec![0; 10]).unwrap();
		let cl = std::mem::replace(&mut self.cl, none);
		match handover(&self.sim, self.port, cl, rbuf, wbuf) {
			Ok(cl) => self.cl = cl,
			Err(e) => self.fail(prop, e),
		}
		self.rbuf = rbuf;
		self.wbuf = wbuf;
		self.g.rbuf = rbuf;
		self.g.wbuf = wbuf;
	}
}

pub fn gen_buf(src: &mut Src, tight: bool, max_data: usize) -> usize {
	let big = max_data * 2 + 400;
	if !tight {
		return src.pick(&[big, 128.max(big), big + 17]);
	}
	match src.weighted(&[4, 3, 2, 2]) {
		0 => 128,
		1 => big,
		2 => src.us(14, 140),
		_ => src.us(10, 24),
	}
}

impl Gen {
	pub fn id(&self, src: &mut Src) -> u8 {
		if src.chance(self.missing) {
			// No motor has the ID 255, but it is not the broadcast ID either.
			let mut id = if src.chance(80) { 0xFF } else { src.below(253) as u8 };
			while self.ids.contains(&id) {
				id = (id + 1) % 253;
			}
			id
		} else {
			src.pick(&self.ids)
		}
	}

	pub fn addr(&self, src: &mut Src) -> u16 {
		match src.weighted(&[5, 2, 1, 1]) {
			0 => src.below(147) as u16,
			1 => src.below(0x1_0000) as u16,
			2 => 0xFFFF - src.skewed(20) as u16,
			_ => src.pick(&[0xFFFF, 0xFDFF, 0x00FD, 0xFF00, 0x5500, 7, 8, 63, 64]),
		}
	}

	/// Length of some data; `over` is the size of everything else in the packet.
	pub fn len(&self, src: &mut Src, buf: usize, over: usize) -> usize {
		let max = self.max_data;
		match src.weighted(&[6, 2, 2]) {
			0 => src.skewed(max.min(40) as u64) as usize,
			1 => src.us(0, max),
			// Around the point where it just fits.
			_ => {
				let fit = buf.saturating_sub(over);
				let d = src.us(0, 6);
				(fit + 2).saturating_sub(d).min(max)
			},
		}
	}

	pub fn data(&self, src: &mut Src, over: usize) -> Vec<u8> {
		let n = self.len(src, self.wbuf, over);
		src.bytes(n)
	}

	fn subset(&self, src: &mut Src) -> Vec<u8> {
		// Motors to address, in any order, each once.
		let mut pool = self.ids.clone();
		if src.chance(self.missing * 2) {
			let x = self.id(src);
			if !pool.contains(&x) {
				pool.push(x);
			}
		}
		let n = src.us(0, pool.len());
		let mut out = vec![];
		for _ in 0..n {
			let i = src.below(pool.len() as u64) as usize;
			out.push(pool.remove(i));
		}
		out
	}

	pub fn take(&self, src: &mut Src, n: usize) -> Option<usize> {
		if src.chance(300) {
			Some(src.us(0, n))
		} else {
			None
		}
	}

	pub fn unicast(&self, src: &mut Src) -> Op {
		src.begin();
		let id = self.id(src);
		let op = match src.weighted(&[4, 6, 6, 6, 6, 4, 4, 4, 2, 2, 2, 2, 3]) {
			0 => Op::Ping { id },
			1 => Op::Read { ty: src.below(NTY as u64) as usize, id, addr: self.addr(src) },
			2 => Op::ReadBytes { id, addr: self.addr(src), count: self.len(src, self.rbuf, 11) as u16, kind: src.below(4) as u8 },
			3 => {
				let ty = src.below(NTY as u64) as usize;
				Op::Write { ty, id, addr: self.addr(src), val: src.bytes(TY_SIZE[ty]) }
			},
			4 => Op::WriteBytes { id, addr: self.addr(src), data: self.data(src, 12) },
			5 => {
				let ty = src.below(NTY as u64) as usize;
				Op::RegWrite { ty, id, addr: self.addr(src), val: src.bytes(TY_SIZE[ty]) }
			},
			6 => Op::RegWriteBytes { id, addr: self.addr(src), data: self.data(src, 12) },
			7 => Op::Action { id },
			8 => Op::Reboot { id },
			9 => Op::ClearRev { id },
			10 => Op::ClearErr { id },
			11 => Op::Factory { id, kind: src.below(3) as u8 },
			_ => self.raw(src, id),
		};
		src.end();
		op
	}

	/// A well-formed raw instruction.
	pub fn raw(&self, src: &mut Src, id: u8) -> Op {
		match src.weighted(&[2, 2, 2, 3]) {
			0 => Op::Raw { id, instr: ins::PING, params: vec![], expected: 3 },
			1 => {
				let n = self.len(src, self.rbuf, 11) as u16;
				let a = self.addr(src);
				Op::Raw { id, instr: ins::READ, params: [a.to_le_bytes(), n.to_le_bytes()].concat(), expected: n }
			},
			2 => {
				let mut p = self.addr(src).to_le_bytes().to_vec();
				p.extend(self.data(src, 12));
				Op::Raw { id, instr: ins::WRITE, params: p, expected: 0 }
			},
			_ => Op::Raw { id, instr: unknown_instr(src), params: self.data(src, 10), expected: 0 },
		}
	}

	pub fn multi_read(&self, src: &mut Src, scan: bool) -> Op {
		src.begin();
		let via = src.below(3) as u8;
		let op = match src.weighted(&[4, 4, 4, if scan { 2 } else { 0 }]) {
			0 => {
				let ids = self.subset(src);
				let take = self.take(src, ids.len());
				Op::SyncRead { ty: src.below(NTY as u64) as usize, addr: self.addr(src), take, ids, via: via % 2 }
			},
			1 => {
				let ids = self.subset(src);
				let take = self.take(src, ids.len());
				Op::SyncReadBytes { addr: self.addr(src), count: self.len(src, self.rbuf, 11) as u16, take, ids, via }
			},
			2 => {
				let ids = self.subset(src);
				let take = self.take(src, ids.len());
				let reads = ids.iter().map(|i| (*i, self.addr(src), self.len(src, self.rbuf, 11) as u16)).collect();
				Op::BulkRead { reads, take, via }
			},
			_ => {
				let n = self.ids.len();
				Op::Scan { take: self.take(src, n), via: via % 2 }
			},
		};
		src.end();
		op
	}

	pub fn multi_write(&self, src: &mut Src) -> Op {
		src.begin();
		let ids = self.subset(src);
		let op = match src.weighted(&[4, 3, 4]) {
			0 => {
				let ty = src.below(NTY as u64) as usize;
				Op::SyncWrite { ty, addr: self.addr(src), data: ids.iter().map(|i| (*i, src.bytes(TY_SIZE[ty]))).collect() }
			},
			1 => {
				let n = self.len(src, self.wbuf / ids.len().max(1), 5);
				Op::SyncWriteBytes {
					addr: self.addr(src),
					count: n as u16,
					data: ids.iter().map(|i| (*i, src.bytes(n))).collect(),
					via: src.below(2) as u8,
				}
			},
			_ => Op::BulkWrite {
				data: ids
					.iter()
					.map(|i| {
						let a = self.addr(src);
						let n = self.len(src, self.wbuf / ids.len().max(1), 8);
						(*i, a, src.bytes(n))
					})
					.collect(),
				via: src.below(2) as u8,
			},
		};
		src.end();
		op
	}

	/// Operations sent to everyone that get no reply.
	pub fn broadcast(&self, src: &mut Src) -> Op {
		src.begin();
		let id = BROADCAST;
		let op = match src.below(14) {
			0 => Op::BAction,
			1 => Op::BReboot,
			2 => Op::BClearRev,
			3 => Op::BClearErr,
			4 => Op::BFactory { kind: src.below(3) as u8 },
			5 => {
				let ty = src.below(NTY as u64) as usize;
				Op::Write { ty, id, addr: self.addr(src), val: src.bytes(TY_SIZE[ty]) }
			},
			6 => Op::WriteBytes { id, addr: self.addr(src), data: self.data(src, 12) },
			7 => {
				let ty = src.below(NTY as u64) as usize;
				Op::RegWrite { ty, id, addr: self.addr(src), val: src.bytes(TY_SIZE[ty]) }
			},
			8 => Op::RegWriteBytes { id, addr: self.addr(src), data: self.data(src, 12) },
			9 => Op::Action { id },
			10 => Op::Reboot { id },
			11 => Op::ClearRev { id },
			12 => Op::ClearErr { id },
			_ => Op::Factory { id, kind: src.below(3) as u8 },
		};
		src.end();
		op
	}

	/// Anything at all.
	pub fn any(&self, src: &mut Src) -> Op {
		match src.weighted(&[6, 4, 2, 2]) {
			0 => self.unicast(src),
			1 => self.multi_read(src, true),
			2 => self.multi_write(src),
			_ => self.broadcast(src),
		}
	}
}

pub fn unknown_instr(src: &mut Src) -> u8 {
	match src.weighted(&[3, 2]) {
		0 => src.pick(&[0x20, 0x8A, 0x9A, 0xFF, 0xFD, 0x00, 0x07, 0x54, 0x56]),
		_ => {
			let x = src.flat_byte();
			let known = [1, 2, 3, 4, 5, 6, 8, 0x10, 0x55, 0x82, 0x83, 0x92, 0x93];
			if known.contains(&x) {
				0x21
			} else {
				x
			}
		},
	}
}

pub fn reply_len(r: &Resp, err: u8) -> usize {
	let mut p = vec![err];
	p.extend_from_slice(&r.data);
	proto::encoded_len(STATUS, &p)
}

/// What a reply that reaches the client intact must lead to.
pub fn judge(want: &Want, err: u8, op: &Op, expected: u16, rbuf: usize) -> Result<Resp, EWant> {
	match want {
		Want::Silent => Err(EWant::Timeout),
		Want::Motor(e, n) => {
			if rbuf < *n {
				return Err(EWant::Is(E::BufFull(*n, rbuf)));
			}
			Err(EWant::Is(E::Motor(*e)))
		},
		Want::Ok(r) => {
			let n = reply_len(r, err);
			if n > rbuf {
				return Err(EWant::Is(E::BufFull(n, rbuf)));
			}
			if !matches!(op, Op::Raw { .. }) && r.data.len() != usize::from(expected) {
				return Err(EWant::Is(E::Count(r.data.len(), format!("Exact({expected})"))));
			}
			Ok(r.clone())
		},
	}
}

#[derive(Debug, Clone, PartialEq)]
pub enum EWant {
	Timeout,
	Is(E),
}

pub fn matches(got: &Result<Resp, E>, want: &Result<Resp, EWant>) -> bool {
	match (got, want) {
		(Ok(a), Ok(b)) => a == b,
		(Err(e), Err(EWant::Timeout)) => e.is_timeout(),
		(Err(e), Err(EWant::Is(w))) => e == w,
		_ => false,
	}
}

fn err_of(w: &Want) -> u8 {
	match w {
		Want::Ok(r) => {
			if r.alert {
				0x80
			} else {
				0
			}
		},
		Want::Motor(e, _) => *e,
		Want::Silent => 0,
	}
}

/// Expected per-reply outcomes of an operation on a healthy bus.
pub fn expectations(op: &Op, wants: &[Want], rbuf: usize) -> Vec<Result<Resp, EWant>> {
	let reps = ops::replies(op);
	let multi = matches!(op, Op::SyncRead { .. } | Op::SyncReadBytes { .. } | Op::BulkRead { .. });
	let mut out = vec![];
	let mut broken = false;
	for (i, w) in wants.iter().enumerate() {
		let expected = if matches!(op, Op::Scan { .. }) { 3 } else { reps[i].1 };
		let w = if broken { &Want::Silent } else { w };
		if multi && *w == Want::Silent {
			broken = true;
		}
		out.push(judge(w, err_of(w), op, expected, rbuf));
	}
	out
}

fn brief(r: &Result<Resp, E>) -> String {
	let s = format!("{r:?}");
	if s.len() > 300 {
		format!("{}...", &s[..300])
	} else {
		s
	}
}

/// Compare the outcome of an operation with what the model expects. Returns a description of the difference.
pub fn compare(op: &Op, out: &Out, wants: &[Want], rbuf: usize) -> Result<(), String> {
	let exp = expectations(op, wants, rbuf);
	match &out.res {
		Res::Panic(m) => Err(format!("panicked: {m}")),
		Res::Hang => Err("never returned".to_string()),
		Res::Baud(_) => Ok(()),
		Res::Write(r) => match r {
			Ok(()) => Ok(()),
			Err(e) => Err(format!("failed with {e:?}, expected success")),
		},
		Res::Single(r) => {
			if ops::is_broadcast_write(op) {
				let w = Resp { id: BROADCAST, alert: false, data: vec![], err: None };
				return if *r == Ok(w) { Ok(()) } else { Err(format!("returned {}, expected an empty response from the broadcast ID", brief(r))) };
			}
			match exp.first() {
				Some(w) if matches(r, w) => Ok(()),
				Some(w) => Err(format!("returned {}, expected {w:?}", brief(r))),
				None => Err("no expectation".to_string()),
			}
		},
		Res::Multi(Err(e)) => Err(format!("failed with {e:?}, expected success")),
		Res::Multi(Ok(m)) => compare_multi(op, m, &exp),
	}
}

pub fn compare_multi(op: &Op, m: &Multi, exp: &[Result<Resp, EWant>]) -> Result<(), String> {
	let scan = matches!(op, Op::Scan { .. });
	let take = match op {
		Op::Scan { take, .. } | Op::SyncRead { take, .. } | Op::SyncReadBytes { take, .. } | Op::BulkRead { take, .. } => *take,
		_ => None,
	};
	let want_items = exp.len().min(take.unwrap_or(usize::MAX));
	for (i, (it, w)) in m.items.iter().zip(exp).enumerate() {
		if !matches(&it.res, w) {
			return Err(format!("item {i} is {}, expected {w:?}", brief(&it.res)));
		}
	}
	if m.items.len() != want_items {
		return Err(format!("yielded {} items, expected {want_items}", m.items.len()));
	}
	if take.is_none_or(|t| t > exp.len()) && m.ended.is_none() {
		return Err("did not end".to_string());
	}
	if m.unfused {
		return Err("yielded another item after its end".to_string());
	}
	if !scan {
		check_remaining(m, exp.len())?;
	}
	Ok(())
}

pub fn check_remaining(m: &Multi, total: usize) -> Result<(), String> {
	if m.rem0 != Some(total) {
		return Err(format!("remaining() is {:?} before the first of {total} results", m.rem0));
	}
	for (i, Item { rem, hint, .. }) in m.items.iter().enumerate() {
		if *rem != Some((total - i, total - i - 1)) {
			return Err(format!("remaining() is {rem:?} around result {i} of {total}"));
		}
		let left = total - i;
		if hint.0 > left || hint.1.is_some_and(|h| h < left) {
			return Err(format!("size_hint() is {hint:?} with {left} results left"));
		}
	}
	let left = total.saturating_sub(m.items.len());
	let (rem, hint) = m.last;
	if rem != Some(left) {
		return Err(format!("remaining() is {rem:?} with {left} results left"));
	}
	if hint.0 > left || hint.1.is_some_and(|h| h < left) {
		return Err(format!("size_hint() is {hint:?} with {left} results left"));
	}
	Ok(())
}

/// Number of calls of each kind: discards, writes, reads.
pub fn count_calls(c: &[Call]) -> (usize, usize, usize) {
	let mut n = (0, 0, 0);
	for x in c {
		match x {
			Call::Discard { .. } => n.0 += 1,
			Call::Write { .. } => n.1 += 1,
			Call::Read { .. } => n.2 += 1,
			Call::SetBaud { .. } => {},
		}
	}
	n
}

/// Stray bytes reach the port, complete before `until`.
pub fn stray(sim: &W, port: usize, bytes: Vec<u8>, at: u64) {
	let mut w = sim.w.borrow_mut();
	w.fk(Fk::Noise);
	w.at(at, crate::world::Ev::Rx { port, bytes });
}
