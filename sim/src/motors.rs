//! The other side of the line: register model, reference motors, motors built on the crate's `Device`.

#[cfg(not(feature = "full"))]
use crate::bare::*;
use crate::choice::{mix, Src};
use crate::ops::Resp;
use crate::proto::{self, ins, Pkt, BROADCAST, STATUS};
use crate::world::{Ev, Fk, Nodes, PortCfg, RxByte, SimPort, World, MS, US, W};
use dynamixel2::{Clear, Device, FactoryReset, Instruction, Instructions};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;

pub const RAM_START: u16 = 64;

/// A motor as a register table: the reference model of everything a motor does.
#[derive(Clone, Debug, PartialEq)]
pub struct Regs {
	pub id: u8,
	pub style: u8,
	pub seed: u64,
	pub map: BTreeMap<u16, u8>,
	pub pending: Option<(u16, Vec<u8>)>,
	pub limit: u32,
	pub model: u16,
	pub fw: u8,
	pub alert: bool,
	pub rev: u32,
	pub errcode: u8,
	pub reboots: u32,
	pub resets: Vec<u8>,
	pub executed: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reply {
	pub err: u8,
	pub data: Vec<u8>,
	/// Position among several replies to one instruction.
	pub pos: Option<usize>,
}

impl Regs {
	pub fn gen(src: &mut Src, id: u8) -> Regs {
		Regs {
			id,
			style: src.weighted(&[3, 2, 2, 1]) as u8,
			seed: src.below(1 << 32),
			map: BTreeMap::new(),
			pending: None,
			limit: if src.chance(300) { src.pick(&[147, 256, 1024, 4096]) } else { 0x1_0000 },
			model: u16::from_le_bytes([src.byte(), src.byte()]),
			fw: src.byte(),
			alert: src.chance(150),
			rev: src.below(5) as u32,
			errcode: 0,
			reboots: 0,
			resets: vec![],
			executed: 0,
		}
	}

	fn default_at(&self, a: u16) -> u8 {
		match self.style {
			0 => (a as u8).wrapping_mul(3).wrapping_add(self.id).wrapping_add(1),
			1 => mix(self.seed, u64::from(a)) as u8,
			2 => match mix(self.seed, u64::from(a)) % 4 {
				0 | 1 => 0xFF,
				2 => 0xFD,
				_ => 0x00,
			},
			_ => [0xFF, 0xFF, 0xFD][usize::from(a) % 3],
		}
	}

	pub fn get(&self, a: u16) -> u8 {
		self.map.get(&a).copied().unwrap_or_else(|| self.default_at(a))
	}

	pub fn slice(&self, a: u16, n: usize) -> Vec<u8> {
		(0..n).map(|i| self.get(a.wrapping_add(i as u16))).collect()
	}

	fn in_range(&self, a: u16, n: usize) -> bool {
		u64::from(a) + n as u64 <= u64::from(self.limit)
	}

	fn store(&mut self, a: u16, d: &[u8]) {
		for (i, b) in d.iter().enumerate() {
			self.map.insert(a + i as u16, *b);
		}
	}

	/// Execute an instruction that reached this motor; returns the reply it sends, if any.
	pub fn apply(&mut self, id: u8, instr: u8, p: &[u8]) -> Option<Reply> {
		let bcast = id == BROADCAST;
		if !bcast && id != self.id {
			return None;
		}
		let alert = if self.alert { 0x80 } else { 0 };
		let w = |i: usize| u16::from_le_bytes([p[i], p[i + 1]]);
		let ok = |data: Vec<u8>| (0u8, data);
		let fail = |e: u8| (e, vec![]);
		let mut pos = None;
		let (err, data) = match instr {
			ins::PING => {
				if bcast {
					pos = Some(usize::from(self.id));
				}
				let m = self.model.to_le_bytes();
				ok(vec![m[0], m[1], self.fw])
			},
			ins::READ => {
				if bcast {
					return None;
				}
				if p.len() != 4 {
					fail(0x05)
				} else if !self.in_range(w(0), usize::from(w(2))) {
					fail(0x07)
				} else {
					ok(self.slice(w(0), usize::from(w(2))))
				}
			},
			ins::WRITE | ins::REG_WRITE => {
				if p.len() < 2 {
					fail(0x05)
				} else if !self.in_range(w(0), p.len() - 2) {
					fail(0x07)
				} else {
					self.executed += 1;
					if instr == ins::WRITE {
						self.store(w(0), &p[2..]);
					} else {
						self.pending = Some((w(0), p[2..].to_vec()));
					}
					ok(vec![])
				}
			},
			ins::ACTION => match self.pending.take() {
				Some((a, d)) => {
					self.executed += 1;
					self.store(a, &d);
					ok(vec![])
				},
				None => fail(0x02),
			},
			ins::FACTORY_RESET => {
				if p.len() != 1 {
					fail(0x05)
				} else if ![0xFF, 0x01, 0x02].contains(&p[0]) {
					fail(0x04)
				} else {
					self.resets.push(p[0]);
					let keep: &[u16] = match p[0] {
						0xFF => &[],
						0x01 => &[7],
						_ => &[7, 8],
					};
					self.map.retain(|a, _| keep.contains(a));
					self.pending = None;
					ok(vec![])
				}
			},
			ins::REBOOT => {
				self.reboots += 1;
				self.power_cycle();
				ok(vec![])
			},
			ins::CLEAR => {
				if p == [0x01, 0x44, 0x58, 0x4C, 0x22] {
					self.rev = 0;
					self.executed += 1;
					ok(vec![])
				} else if p == [0x02, 0x45, 0x52, 0x43, 0x4C] {
					self.executed += 1;
					if self.errcode > 0x40 {
						fail(0x01)
					} else {
						self.errcode = 0;
						ok(vec![])
					}
				} else {
					fail(0x04)
				}
			},
			ins::SYNC_READ => {
				if p.len() < 4 {
					return None;
				}
				pos = Some(p[4..].iter().position(|x| *x == self.id)?);
				if self.in_range(w(0), usize::from(w(2))) {
					ok(self.slice(w(0), usize::from(w(2))))
				} else {
					fail(0x07)
				}
			},
			ins::BULK_READ => {
				if p.len() % 5 != 0 {
					return None;
				}
				let k = p.chunks(5).position(|c| c[0] == self.id)?;
				pos = Some(k);
				let (a, n) = (w(5 * k + 1), w(5 * k + 3));
				if self.in_range(a, usize::from(n)) {
					ok(self.slice(a, usize::from(n)))
				} else {
					fail(0x07)
				}
			},
			ins::SYNC_WRITE => {
				if p.len() < 4 {
					return None;
				}
				let (a, n) = (w(0), usize::from(w(2)));
				if (p.len() - 4) % (n + 1) != 0 {
					return None;
				}
				for c in p[4..].chunks(n + 1) {
					if c[0] == self.id && self.in_range(a, n) {
						self.executed += 1;
						self.store(a, &c[1..]);
					}
				}
				return None;
			},
			ins::BULK_WRITE => {
				let mut i = 0;
				let mut mine = vec![];
				while i < p.len() {
					if p.len() - i < 5 {
						return None;
					}
					let (m, a, n) = (p[i], w(i + 1), usize::from(w(i + 3)));
					if p.len() - i - 5 < n {
						return None;
					}
					if m == self.id {
						mine.push((a, p[i + 5..i + 5 + n].to_vec()));
					}
					i += 5 + n;
				}
				for (a, d) in mine {
					if self.in_range(a, d.len()) {
						self.executed += 1;
						self.store(a, &d);
					}
				}
				return None;
			},
			_ => fail(0x02),
		};
		if bcast && pos.is_none() {
			return None;
		}
		Some(Reply { err: err | alert, data, pos })
	}

	/// Volatile state is lost, EEPROM registers survive.
	pub fn power_cycle(&mut self) {
		self.map.retain(|a, _| *a < RAM_START);
		self.pending = None;
		self.alert = false;
		self.errcode = 0;
		self.rev = 0;
	}
}

/// Independent framer: the packets a receiver sees in a burst of bytes.
pub fn ref_frames(bytes: &[u8]) -> Vec<Pkt> {
	let mut out = vec![];
	let mut i = 0;
	while i + 10 <= bytes.len() {
		if bytes[i..i + 4] == proto::HDR {
			if let Some(p) = proto::decode_at(bytes, i) {
				i += p.len;
				out.push(p);
				continue;
			}
		}
		i += 1;
	}
	out
}

pub enum Brain {
	/// Independent reference motor.
	Reference,
	/// Built on the crate's own `Device`. 0: borrowed, 1: owned, 2: raw instructions.
	Dev(Box<Device<SimPort, Vec<u8>>>, usize, u8),
}

pub struct Motor {
	pub regs: Regs,
	pub brain: Brain,
	pub up: bool,
	/// Stays silent for this many instructions.
	pub deaf: u32,
	/// Error bytes for the next replies: (error byte, keep data).
	pub force: Vec<(u8, bool)>,
}

/// Rates (permille) of what happens to replies and instructions on their way.
#[derive(Clone, Debug, Default)]
pub struct LineFaults {
	pub flip: u32,
	pub loss: u32,
	pub dup: u32,
	pub insert: u32,
	pub trunc: u32,
	pub crc: u32,
	pub hdr: u32,
	pub len: u32,
	pub lost: u32,
	pub twice: u32,
	pub late: u32,
	pub foreign: u32,
	pub wronglen: u32,
	pub notstatus: u32,
	pub echo: u32,
	pub noise: u32,
	pub crash: u32,
	pub deaf: u32,
	pub ins_lost: u32,
	pub ins_damage: u32,
	pub force_err: u32,
	/// The length field is replaced: more than a buffer of `over` bytes can hold, or less than any message has.
	pub badlen: u32,
	pub over: usize,
}

pub struct BusState {
	pub motors: Vec<Motor>,
	pub f: LineFaults,
	/// A missing motor stops the chain of replies behind it (as real motors do).
	pub chain_break: bool,
	/// Upper bound on reply delays, in permille of the response window.
	pub lazy: u32,
	/// All instruction packets heard, and where a motor heard something undecodable.
	pub heard: Vec<Pkt>,
	pub burst: u64,
	pub host: usize,
	/// Replies scheduled in answer to the current instruction, for traces.
	pub replies: u64,
	pub max_segments: u64,
	/// Statuses put on the line, as intended by the motors.
	pub intended: Vec<(u8, u8, Vec<u8>)>,
	/// The same replies as they really went on the line: motor index and bytes.
	pub delivered: Vec<(usize, Vec<u8>)>,
	/// Unsolicited bytes to send before the next reply.
	pub dev_errors: u64,
	/// All replies are over at that time.
	pub quiet_at: u64,
}

pub struct Bus(pub Rc<RefCell<BusState>>);

pub fn instr_of<T: AsRef<[u8]>>(i: &Instruction<T>) -> (u8, u8, Vec<u8>) {
	let aw = |a: u16, d: &[u8]| {
		let mut p = a.to_le_bytes().to_vec();
		p.extend_from_slice(d);
		p
	};
	let rd = |a: u16, n: u16, d: &[u8]| {
		let mut p = a.to_le_bytes().to_vec();
		p.extend_from_slice(&n.to_le_bytes());
		p.extend_from_slice(d);
		p
	};
	let (op, p) = match &i.instruction {
		Instructions::Ping => (ins::PING, vec![]),
		Instructions::Read { address, length } => (ins::READ, rd(*address, *length, &[])),
		Instructions::Write { address, parameters } => (ins::WRITE, aw(*address, parameters.as_ref())),
		Instructions::RegWrite { address, parameters } => (ins::REG_WRITE, aw(*address, parameters.as_ref())),
		Instructions::Action => (ins::ACTION, vec![]),
		Instructions::FactoryReset(f) => (
			ins::FACTORY_RESET,
			vec![match f {
				FactoryReset::All => 0xFF,
				FactoryReset::ExceptId => 0x01,
				FactoryReset::ExceptIdBaudRate => 0x02,
				FactoryReset::Unknown(x) => *x,
			}],
		),
		Instructions::Reboot => (ins::REBOOT, vec![]),
		Instructions::Clear(c) => (
			ins::CLEAR,
			match c {
				Clear::MultiTurns => vec![0x01, 0x44, 0x58, 0x4C, 0x22],
				Clear::Errors => vec![0x02, 0x45, 0x52, 0x43, 0x4C],
				Clear::Reserved(x) => vec![*x],
			},
		),
		Instructions::SyncRead { address, length, ids } => (ins::SYNC_READ, rd(*address, *length, ids.as_ref())),
		Instructions::SyncWrite { address, length, parameters } => (ins::SYNC_WRITE, rd(*address, *length, parameters.as_ref())),
		Instructions::BulkRead { parameters } => (ins::BULK_READ, parameters.as_ref().to_vec()),
		Instructions::BulkWrite { parameters } => (ins::BULK_WRITE, parameters.as_ref().to_vec()),
		Instructions::Unknown { instruction, parameters } => (*instruction, parameters.as_ref().to_vec()),
	};
	(i.id, op, p)
}

impl BusState {
	pub fn new(host: usize) -> Self {
		BusState {
			motors: vec![],
			f: LineFaults::default(),
			chain_break: true,
			lazy: 900,
			heard: vec![],
			burst: 0,
			host,
			replies: 0,
			max_segments: 5,
			intended: vec![],
			delivered: vec![],
			dev_errors: 0,
			quiet_at: 0,
		}
	}

	pub fn find(&self, id: u8) -> Option<usize> {
		self.motors.iter().position(|m| m.regs.id == id)
	}
}

/// Add a motor; `dev` selects one built on the crate's device side.
pub fn add_motor(sim: &W, bus: &Rc<RefCell<BusState>>, regs: Regs, dev: Option<u8>, dev_buf: usize) {
	let brain = match dev {
		None => Brain::Reference,
		Some(mode) => {
			let (port, chunk) = {
				let mut w = sim.w.borrow_mut();
				let chunk = w.src.weighted(&[3, 1, 2]) as u8;
				(w.add_port(57600, PortCfg { polled: true, chunk, ..Default::default() }), chunk)
			};
			let _ = chunk;
			let d = Device::with_buffers(SimPort::new(sim, port), vec![0; dev_buf], vec![0; dev_buf]).unwrap();
			Brain::Dev(Box::new(d), port, mode)
		},
	};
	bus.borrow_mut().motors.push(Motor { regs, brain, up: true, deaf: 0, force: vec![] });
}

struct Out {
	motor: usize,
	pos: Option<usize>,
	wire: Vec<u8>,
}

impl Nodes for Bus {
	fn on_up(&mut self, w: &W, motor: usize) {
		let mut s = self.0.borrow_mut();
		s.motors[motor].up = true;
		w.w.borrow_mut().note("motor", &[motor as u8], || format!("motor {} is back", s.motors[motor].regs.id));
	}

	fn on_line(&mut self, sim: &W, from: Option<usize>, bytes: &[u8]) {
		let s = &mut *self.0.borrow_mut();
		let mut bytes = bytes.to_vec();
		if from.is_none() {
			s.burst += 1;
			let mut w = sim.w.borrow_mut();
			let f = s.f.clone();
			if w.src.chance(f.ins_lost) {
				w.fk(Fk::InstrLost);
				return;
			}
			if w.src.chance(f.ins_damage) {
				w.fk(Fk::InstrDamage);
				damage(&mut w, &mut bytes, &LineFaults { flip: 400, loss: 200, insert: 200, trunc: 200, ..Default::default() });
			}
		}
		let frames = ref_frames(&bytes);
		let mut outs: Vec<Out> = vec![];
		if from.is_none() {
			for p in &frames {
				if !p.is_status() {
					s.heard.push(p.clone());
				}
			}
		}
		let f = s.f.clone();
		for (i, m) in s.motors.iter_mut().enumerate() {
			if from == Some(i) || !m.up {
				continue;
			}
			let for_me = frames.iter().any(|p| p.id == m.regs.id || p.id == BROADCAST);
			if from.is_none() && for_me {
				let mut w = sim.w.borrow_mut();
				if w.src.chance(f.deaf) {
					w.fk(Fk::MotorDeaf);
					m.deaf = 1;
				}
				if w.src.chance(f.crash) {
					w.fk(Fk::MotorCrash);
					m.up = false;
					let executes = w.src.chance(500);
					let d = w.src.int(1, 200) * MS;
					let at = w.now + d;
					w.at(at, Ev::Up { motor: i });
					w.note("motor", &[i as u8], || format!("motor {} crashes (instruction executed: {executes})", m.regs.id));
					w.fk(Fk::MotorRestart);
					drop(w);
					if executes {
						for p in &frames {
							if !p.is_status() {
								m.regs.apply(p.id, p.instr, &p.params);
							}
						}
					}
					m.regs.power_cycle();
					if let Brain::Dev(d, port, _) = &mut m.brain {
						sim.w.borrow_mut().ports[*port].rx.clear();
						let n = 64;
						let fresh = Device::with_buffers(SimPort::new(sim, *port), vec![0; n.max(512)], vec![0; 512]).unwrap();
						**d = fresh;
					}
					continue;
				}
			}
			let deaf = m.deaf > 0;
			if deaf && from.is_none() && for_me {
				m.deaf -= 1;
			}
			let regs = &mut m.regs;
			let mut force = std::mem::take(&mut m.force);
			let mut overridden = |r: Reply| -> Reply {
				if force.is_empty() {
					return r;
				}
				let (e, keep) = force.remove(0);
				Reply { err: e, data: if keep { r.data } else { vec![] }, pos: r.pos }
			};
			match &mut m.brain {
				Brain::Reference => {
					if deaf {
						m.force = force;
						continue;
					}
					for p in &frames {
						if p.is_status() {
							continue;
						}
						if let Some(r) = regs.apply(p.id, p.instr, &p.params) {
							let r = overridden(r);
							s.intended.push((regs.id, r.err, r.data.clone()));
							outs.push(Out { motor: i, pos: r.pos, wire: proto::status(regs.id, r.err, &r.data) });
						}
					}
				},
				Brain::Dev(d, port, mode) => {
					let now = sim.w.borrow().now;
					sim.w.borrow_mut().ports[*port].rx.extend(bytes.iter().map(|b| RxByte { b: *b, at: now }));
					for _ in 0..200 {
						let got = match *mode {
							0 => d.read(Duration::ZERO).map(|i| instr_of(&i)),
							1 => d.read_owned(Duration::ZERO).map(|i| instr_of(&i)),
							_ => d
								.read_raw_instruction_timeout(Duration::ZERO)
								.map(|p| (p.packet_id(), p.instruction_id(), p.parameters().to_vec())),
						};
						match got {
							Err(dynamixel2::ReadError::Io(_)) => break,
							Err(_) => {
								s.dev_errors += 1;
								continue;
							},
							Ok((id, instr, params)) => {
								if deaf {
									continue;
								}
								if let Some(r) = regs.apply(id, instr, &params) {
									let r = overridden(r);
									s.intended.push((regs.id, r.err, r.data.clone()));
									let res = if r.data.is_empty() && r.err == 0 {
										d.write_status_ok(regs.id)
									} else if r.data.is_empty() {
										d.write_status_error(regs.id, r.err)
									} else {
										d.write_status(regs.id, r.err, r.data.len(), |b| {
											b.copy_from_slice(&r.data);
											Ok(())
										})
									};
									if res.is_err() {
										s.dev_errors += 1;
									}
									let mut w = sim.w.borrow_mut();
									for o in std::mem::take(&mut w.ports[*port].out) {
										outs.push(Out { motor: i, pos: r.pos, wire: o });
									}
									w.ports[*port].calls.clear();
									w.ports[*port].got.clear();
								}
							},
						}
					}
					let mut w = sim.w.borrow_mut();
					w.ports[*port].calls.clear();
					w.ports[*port].got.clear();
				},
			}
			m.force = force;
		}
		if outs.is_empty() {
			return;
		}
		s.schedule(sim, outs, &frames, &bytes);
	}
}

impl BusState {
	fn schedule(&mut self, sim: &W, mut outs: Vec<Out>, frames: &[Pkt], instr_bytes: &[u8]) {
		let mut w = sim.w.borrow_mut();
		let w = &mut *w;
		outs.sort_by_key(|o| o.pos.unwrap_or(0));
		let baud = w.ports[self.host].baud.max(1);
		let window = proto::reply_window(0, baud);
		let is_scan = frames.iter().any(|p| p.instr == ins::PING);
		let mut t = w.now;
		let mut last_pos: i64 = -1;
		for o in outs {
			if let Some(p) = o.pos {
				if !is_scan && (p as i64) > last_pos + 1 {
					// Someone before us did not answer.
					if self.chain_break {
						break;
					}
					t += window * ((p as i64 - last_pos - 1) as u64);
				}
				last_pos = p as i64;
			}
			let budget = window / 1000 * u64::from(self.lazy);
			let end = self.send(w, o.motor, &o.wire, instr_bytes, t, budget);
			t = end;
		}
		self.quiet_at = self.quiet_at.max(t);
	}

	/// Put one reply on the line, through the fault injector; returns when it ends.
	fn send(&mut self, w: &mut World, motor: usize, wire: &[u8], instr: &[u8], start: u64, budget: u64) -> u64 {
		w.src.begin();
		self.replies += 1;
		let f = self.f.clone();
		let mut seq: Vec<Vec<u8>> = vec![];
		let mut late = 0u64;
		let mut main = wire.to_vec();
		if w.src.chance(f.lost) {
			w.fk(Fk::ReplyLost);
			w.src.end();
			return start;
		}
		if w.src.chance(f.foreign) {
			w.fk(Fk::ReplyForeignId);
			if let Some(p) = proto::decode_at(&main, 0) {
				let id = match w.src.weighted(&[2, 2, 1]) {
					0 => w.src.flat_byte(),
					1 => self.motors[w.src.below(self.motors.len() as u64) as usize].regs.id,
					_ => w.src.pick(&[0xFE, 0, 0xFF, 1]),
				};
				main = proto::status(id, p.err, &p.params);
			}
		}
		if w.src.chance(f.wronglen) {
			w.fk(Fk::ReplyWrongLen);
			if let Some(p) = proto::decode_at(&main, 0) {
				let mut d = p.params.clone();
				match w.src.weighted(&[2, 2, 1, 1]) {
					0 => d.push(w.src.byte()),
					1 => {
						d.pop();
					},
					2 => d.clear(),
					_ => {
						let n = w.src.us(1, 6);
						let extra = w.src.bytes(n);
						d.extend(extra);
					},
				}
				main = proto::status(p.id, p.err, &d);
			}
		}
		if w.src.chance(f.force_err) {
			w.fk(Fk::MotorErrByte);
			if let Some(p) = proto::decode_at(&main, 0) {
				let e = w.src.flat_byte();
				main = proto::status(p.id, e, &p.params);
			}
		}
		if w.src.chance(f.notstatus) {
			w.fk(Fk::ReplyNotStatus);
			if let Some(p) = proto::decode_at(&main, 0) {
				let instr = match w.src.weighted(&[2, 1]) {
					0 => w.src.pick(&[ins::PING, ins::READ, ins::WRITE, 0x54, 0x56, 0xD5]),
					_ => w.src.flat_byte(),
				};
				let mut d = vec![p.err];
				d.extend(&p.params);
				if instr != STATUS {
					main = proto::encode(p.id, instr, &d);
				}
			}
		}
		damage(w, &mut main, &f);
		let mut whole = false;
		if w.src.chance(f.badlen) && main.len() > 10 && !main[4..].windows(4).any(|x| x == proto::HDR) {
			let top = (f.over as u64).saturating_sub(6).min(0xFFFF);
			let n = match w.src.weighted(&[2, 2, 1, 1]) {
				0 => top,
				1 => top + w.src.below(0x1_0000 - top),
				2 => 0xFFFF,
				_ => w.src.below(3),
			};
			if n >= top || n < 3 {
				w.fk(Fk::LenDamage);
				main[5..7].copy_from_slice(&(n as u16).to_le_bytes());
				// The error comes with the header: what follows must not come later.
				whole = true;
			}
		}
		self.delivered.push((motor, main.clone()));
		if w.src.chance(f.echo) {
			w.fk(Fk::Echo);
			seq.push(instr.to_vec());
		}
		if w.src.chance(f.noise) {
			w.fk(Fk::Noise);
			seq.push(noise(&mut w.src));
		}
		seq.push(main.clone());
		if w.src.chance(f.twice) {
			w.fk(Fk::ReplyDup);
			seq.push(main);
		}
		if w.src.chance(f.late) {
			w.fk(Fk::ReplyLate);
			late = budget + w.src.below(budget * 2 + 1);
		}
		// Delays: mostly short, anything up to the budget.
		let all: Vec<u8> = seq.concat();
		let delay = match w.src.weighted(&[6, 3, 1]) {
			0 => w.src.below(4) * 125 * US,
			1 => w.src.below(budget / 2 + 1),
			_ => budget.saturating_sub(w.src.below(budget / 10 + 1)),
		}
		.min(budget);
		if delay > MS {
			w.fk(Fk::ReplyDelay);
		}
		let nseg = if all.len() < 2 || whole { 1 } else { w.src.int(1, self.max_segments.min(all.len() as u64)) };
		let mut cuts: Vec<usize> = (1..nseg).map(|_| w.src.int(1, all.len() as u64 - 1) as usize).collect();
		cuts.sort_unstable();
		cuts.dedup();
		if !cuts.is_empty() {
			w.fk(Fk::Fragment);
		}
		let mut t = start + late + delay;
		let limit = start + late + budget;
		let mut a = 0;
		cuts.push(all.len());
		let host = self.host;
		for c in cuts {
			w.at(t, Ev::Rx { port: host, bytes: all[a..c].to_vec() });
			a = c;
			if c < all.len() {
				let room = limit.saturating_sub(t);
				let step = match w.src.weighted(&[3, 2, 1]) {
					0 => 0,
					1 => w.src.below(room / 8 + 1),
					_ => w.src.below(room + 1),
				};
				t += step;
			}
		}
		w.at(t, Ev::Line { from: Some(motor), bytes: wire.to_vec() });
		w.src.end();
		t
	}
}

/// Line noise: random bytes, sometimes looking like the start of a packet.
pub fn noise(src: &mut Src) -> Vec<u8> {
	let n = src.us(1, 12);
	let mut v = vec![];
	match src.weighted(&[3, 2, 2, 1]) {
		0 => {
			for _ in 0..n {
				v.push(src.flat_byte());
			}
		},
		1 => v.extend(&proto::HDR[..1 + src.below(4) as usize]),
		2 => {
			for _ in 0..n {
				v.push(src.byte());
			}
		},
		_ => {
			v.extend(proto::HDR);
			for _ in 0..n {
				v.push(src.byte());
			}
		},
	}
	v
}

/// Damage bytes on the line.
pub fn damage(w: &mut World, b: &mut Vec<u8>, f: &LineFaults) {
	let n = b.len();
	if n == 0 {
		return;
	}
	if w.src.chance(f.flip) {
		w.fk(Fk::BitFlip);
		let k = w.src.int(1, 3);
		for _ in 0..k {
			let i = w.src.below(n as u64) as usize;
			b[i] ^= 1 << w.src.below(8);
		}
	}
	if w.src.chance(f.loss) {
		w.fk(Fk::ByteLoss);
		let i = w.src.below(b.len() as u64) as usize;
		let k = w.src.us(1, 3).min(b.len() - i);
		b.drain(i..i + k);
	}
	if b.is_empty() {
		return;
	}
	if w.src.chance(f.dup) {
		w.fk(Fk::ByteDup);
		let i = w.src.below(b.len() as u64) as usize;
		let x = b[i];
		b.insert(i, x);
	}
	if w.src.chance(f.insert) {
		w.fk(Fk::ByteInsert);
		let i = w.src.below(b.len() as u64 + 1) as usize;
		let x = w.src.byte();
		b.insert(i, x);
	}
	if w.src.chance(f.crc) && b.len() >= 10 {
		w.fk(Fk::CrcDamage);
		let n = b.len();
		let which = w.src.weighted(&[2, 2, 1]);
		let x = 1 << w.src.below(8);
		match which {
			0 => b[n - 1] ^= x,
			1 => b[n - 2] ^= x,
			_ => {
				// A CRC that is plausible but wrong: of all zero, swapped, or off by one.
				let c = u16::from_le_bytes([b[n - 2], b[n - 1]]);
				let c2 = match w.src.below(4) {
					0 => c.swap_bytes(),
					1 => c.wrapping_add(1),
					2 => 0,
					_ => !c,
				};
				b[n - 2..].copy_from_slice(&c2.to_le_bytes());
			},
		}
	}
	if w.src.chance(f.hdr) && b.len() >= 5 {
		w.fk(Fk::HdrDamage);
		let i = w.src.below(5) as usize;
		b[i] ^= 1 << w.src.below(8);
	}
	if w.src.chance(f.len) && b.len() >= 7 {
		w.fk(Fk::LenDamage);
		let old = u16::from_le_bytes([b[5], b[6]]);
		let new = match w.src.weighted(&[2, 2, 1, 1]) {
			0 => old.wrapping_add(w.src.int(1, 4) as u16),
			1 => old.wrapping_sub(w.src.int(1, 4) as u16),
			2 => w.src.below(8) as u16,
			_ => w.src.below(0x1_0000) as u16,
		};
		b[5..7].copy_from_slice(&new.to_le_bytes());
	}
	if w.src.chance(f.trunc) {
		w.fk(Fk::Truncate);
		let k = w.src.below(b.len() as u64) as usize;
		b.truncate(k);
	}
}

/// What the model says the caller must get.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
	Ok(Resp),
	/// Error byte, and size of the whole reply on the wire.
	Motor(u8, usize),
	/// Nobody answers.
	Silent,
}

fn want(id: u8, r: Option<Reply>, raw: bool) -> Want {
	match r {
		None => Want::Silent,
		Some(r) if r.err & 0x7F != 0 => Want::Motor(r.err, proto::status(id, r.err, &r.data).len()),
		Some(r) => Want::Ok(Resp { id, alert: r.err & 0x80 != 0, data: r.data, err: if raw { Some(r.err) } else { None } }),
	}
}

/// Apply an operation to the shadow registers; returns what every expected reply must be.
/// For a scan: the replies of all motors in bus order. `force` overrides reply error bytes per motor.
pub fn shadow_apply(sh: &mut [Regs], op: &crate::ops::Op, force: &[Vec<(u8, bool)>]) -> Vec<Want> {
	use crate::ops::{replies, wire, Op};
	let Some((id, instr, params)) = wire(op) else {
		return vec![];
	};
	let raw = matches!(op, Op::Raw { .. });
	let mut by: Vec<(usize, u8, Option<Reply>)> = vec![];
	for (i, m) in sh.iter_mut().enumerate() {
		if id != BROADCAST && m.id != id {
			continue;
		}
		let mut r = m.apply(id, instr, &params);
		if let (Some(r), Some(f)) = (&mut r, force.get(i)) {
			if let Some((e, keep)) = f.first() {
				r.err = *e;
				if !keep {
					r.data.clear();
				}
			}
		}
		by.push((i, m.id, r));
	}
	if matches!(op, Op::Scan { .. }) {
		let mut v: Vec<_> = by.into_iter().filter(|x| x.2.is_some()).collect();
		v.sort_by_key(|x| x.1);
		return v.into_iter().map(|(_, id, r)| want(id, r, false)).collect();
	}
	replies(op)
		.iter()
		.map(|(want_id, _)| {
			let r = by.iter().find(|x| x.1 == *want_id).and_then(|x| x.2.clone());
			want(*want_id, r, raw)
		})
		.collect()
}
