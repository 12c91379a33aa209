//! Operations of the client, their execution against the real library, and normalised outcomes.

use crate::proto::{self, ins, BROADCAST};
use crate::vals::{Blob, SimVal, Summed};
use crate::with_ty;
use crate::world::{HangSignal, PortErr, SimPort, W};
use dynamixel2::bus::StatusPacket;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, FactoryResetKind, Ping, SyncWriteData};
use dynamixel2::{Client, InvalidMessage, ReadError, Response, TransferError, WriteError};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub type Cl = Client<SimPort, Vec<u8>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
	Ping { id: u8 },
	Scan { take: Option<usize>, via: u8 },
	Read { ty: usize, id: u8, addr: u16 },
	ReadBytes { id: u8, addr: u16, count: u16, kind: u8 },
	Write { ty: usize, id: u8, addr: u16, val: Vec<u8> },
	WriteBytes { id: u8, addr: u16, data: Vec<u8> },
	RegWrite { ty: usize, id: u8, addr: u16, val: Vec<u8> },
	RegWriteBytes { id: u8, addr: u16, data: Vec<u8> },
	Action { id: u8 },
	BAction,
	Reboot { id: u8 },
	BReboot,
	ClearRev { id: u8 },
	BClearRev,
	ClearErr { id: u8 },
	BClearErr,
	Factory { id: u8, kind: u8 },
	BFactory { kind: u8 },
	SyncRead { ty: usize, ids: Vec<u8>, addr: u16, take: Option<usize>, via: u8 },
	SyncReadBytes { ids: Vec<u8>, addr: u16, count: u16, take: Option<usize>, via: u8 },
	BulkRead { reads: Vec<(u8, u16, u16)>, take: Option<usize>, via: u8 },
	SyncWrite { ty: usize, addr: u16, data: Vec<(u8, Vec<u8>)> },
	SyncWriteBytes { addr: u16, count: u16, data: Vec<(u8, Vec<u8>)>, via: u8 },
	BulkWrite { data: Vec<(u8, u16, Vec<u8>)>, via: u8 },
	/// transfer_single
	Raw { id: u8, instr: u8, params: Vec<u8>, expected: u16 },
	/// write_instruction, encoder fails if `fail`
	RawWrite { id: u8, instr: u8, params: Vec<u8>, fail: bool },
	ReadStatus { expected: u16 },
	ReadStatusTimeout { ns: u64 },
	SetBaud { baud: u32 },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Resp {
	pub id: u8,
	pub alert: bool,
	pub data: Vec<u8>,
	/// Raw error byte, where the API shows it.
	pub err: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
	BufSmall(usize, usize),
	Discard(PortErr),
	Write(PortErr),
	BufFull(usize, usize),
	Io(PortErr),
	Checksum(u16, u16),
	PacketId(u8, Option<u8>),
	Instr(u8, u8),
	Count(usize, String),
	Prefix,
	Motor(u8),
	/// The error's text does not say what the error says.
	Text(&'static str, String),
}

/// The numbers in a text, each with the word before it.
fn numbers(text: &str) -> Vec<(String, u64)> {
	let mut out = vec![];
	let mut last = String::new();
	for word in text.split(|c: char| !c.is_ascii_alphanumeric()).filter(|x| !x.is_empty()) {
		let n = match word.strip_prefix("0x").or(word.strip_prefix("0X")) {
			Some(h) => u64::from_str_radix(h, 16).ok(),
			None => word.parse().ok(),
		};
		match n {
			Some(n) => out.push((last.clone(), n)),
			None if ["exactly", "least", "most", "at"].contains(&word) => {},
			None => last = word.to_string(),
		}
	}
	out
}

/// The text of an error must name the numbers that the error holds, and not mix them up.
fn told(text: String, e: E) -> E {
	let port = |p: &PortErr| text.ends_with(&p.to_string());
	let nums = || numbers(&text);
	// The values with the words that introduce them, if they are there.
	let says = |vals: &[(u64, &[&str])]| {
		let nums = nums();
		vals.iter().all(|(v, words)| {
			let mut named = nums.iter().filter(|(w, _)| words.contains(&w.as_str())).peekable();
			if named.peek().is_some() {
				named.all(|(_, n)| n == v)
			} else {
				nums.iter().any(|(_, n)| n == v)
			}
		})
	};
	let ok = match &e {
		E::Io(p) => port(p) && text.contains("read"),
		E::Discard(p) => port(p) && text.contains("discard"),
		E::Write(p) => port(p) && text.contains("write"),
		E::BufSmall(r, t) => says(&[(*r as u64, &["need"]), (*t as u64, &["is"])]) && !text.contains("read"),
		E::BufFull(r, t) => says(&[(*r as u64, &["need"]), (*t as u64, &["is"])]) && !text.contains("write"),
		E::Checksum(m, c) => says(&[(u64::from(*m), &["claims"]), (u64::from(*c), &["computed"])]),
		E::PacketId(a, Some(x)) => says(&[(u64::from(*a), &["got"]), (u64::from(*x), &["expected"])]),
		E::PacketId(a, None) => says(&[(u64::from(*a), &["got"])]),
		E::Instr(a, x) => says(&[(u64::from(*a), &["got"]), (u64::from(*x), &["expected"])]),
		E::Count(a, x) => {
			let x = x.bytes().filter(u8::is_ascii_digit).fold(0, |a, d| a * 10 + u64::from(d - b'0'));
			says(&[(*a as u64, &["got"]), (x, &["expected"])])
		},
		E::Motor(r) => says(&[(u64::from(*r), &["status"])]),
		E::Prefix | E::Text(..) => true,
	};
	if ok {
		e
	} else {
		let prop = match &e {
			E::Io(_) | E::Discard(_) | E::Write(_) => "C13",
			E::Motor(_) => "C18",
			_ => "C04",
		};
		E::Text(prop, format!("{e:?} reads: {text}"))
	}
}

impl E {
	pub fn is_timeout(&self) -> bool {
		matches!(self, E::Io(e) if e.kind == crate::world::ErrKind::Timeout)
	}
	pub fn is_msg(&self) -> bool {
		matches!(self, E::Checksum(..) | E::PacketId(..) | E::Instr(..) | E::Count(..) | E::Prefix)
	}
}

pub fn inv(m: InvalidMessage) -> E {
	match m {
		InvalidMessage::InvalidHeaderPrefix(_) => E::Prefix,
		InvalidMessage::InvalidChecksum(c) => E::Checksum(c.message, c.computed),
		InvalidMessage::InvalidPacketId(p) => E::PacketId(p.actual, p.expected),
		InvalidMessage::InvalidInstruction(p) => E::Instr(p.actual, p.expected),
		InvalidMessage::InvalidParameterCount(p) => E::Count(p.actual, format!("{:?}", p.expected)),
	}
}

pub fn rd(e: ReadError<PortErr>) -> E {
	let text = e.to_string();
	let e = match e {
		ReadError::BufferFull(b) => E::BufFull(b.required_size, b.total_size),
		ReadError::Io(e) => E::Io(e),
		ReadError::InvalidMessage(m) => inv(m),
		ReadError::MotorError(m) => {
			if m.error_number() == m.raw & 0x7F && m.alert() == (m.raw >= 0x80) {
				E::Motor(m.raw)
			} else {
				E::Prefix
			}
		},
	};
	told(text, e)
}

pub fn wr(e: WriteError<PortErr>) -> E {
	let text = e.to_string();
	let e = match e {
		WriteError::BufferTooSmall(b) => E::BufSmall(b.required_size, b.total_size),
		WriteError::DiscardBuffer(e) => E::Discard(e),
		WriteError::Write(e) => E::Write(e),
	};
	told(text, e)
}

pub fn tr(e: TransferError<PortErr>) -> E {
	let text = e.to_string();
	let e = match e {
		TransferError::WriteError(e) => wr(e),
		TransferError::ReadError(e) => rd(e),
	};
	told(text, e)
}

fn ping(r: Response<Ping>) -> Resp {
	let m = r.data.model.to_le_bytes();
	Resp { id: r.motor_id, alert: r.alert, data: vec![m[0], m[1], r.data.firmware], err: None }
}

fn unit(r: Response<()>) -> Resp {
	Resp { id: r.motor_id, alert: r.alert, data: vec![], err: None }
}

fn val<T: SimVal>(r: Response<T>) -> Resp {
	Resp { id: r.motor_id, alert: r.alert, data: r.data.bytes(), err: None }
}

fn slice<T: AsRef<[u8]>>(r: Response<T>) -> Resp {
	Resp { id: r.motor_id, alert: r.alert, data: r.data.as_ref().to_vec(), err: None }
}

pub fn stat(s: StatusPacket) -> Resp {
	let mut alert = s.alert();
	// The views of the error byte must agree with each other.
	if s.error_number() != s.error() & 0x7F || s.alert() != (s.error() >= 0x80) || s.instruction_id() != proto::STATUS {
		alert = !alert;
	}
	// So must a response that is made of it.
	let r = Response::<&[u8]>::from(s);
	if r.alert != s.alert() || r.motor_id != s.packet_id() || r.data != s.parameters() {
		alert = !s.alert();
	}
	Resp { id: s.packet_id(), alert, data: s.parameters().to_vec(), err: Some(s.error()) }
}

#[derive(Clone, Debug)]
pub struct Item {
	pub res: Result<Resp, E>,
	pub t0: u64,
	pub t1: u64,
	/// Range of `Port::got` consumed during the call.
	pub g0: usize,
	pub g1: usize,
	/// Range of `Port::calls` made during the call.
	pub c0: usize,
	pub c1: usize,
	pub rem: Option<(usize, usize)>,
	pub hint: (usize, Option<usize>),
}

#[derive(Clone, Debug)]
pub struct Multi {
	pub items: Vec<Item>,
	/// The iterator returned None (at this time span).
	pub ended: Option<(u64, u64)>,
	/// It returned something after None.
	pub unfused: bool,
	/// Times before and after dropping it, and what the drop read.
	pub drop: (u64, u64),
	pub dg: (usize, usize),
	/// Calls made by the `next` that returned None, and by dropping.
	pub ec: (usize, usize),
	pub dc: (usize, usize),
	pub rem0: Option<usize>,
	/// What it said was left before it was dropped.
	pub last: (Option<usize>, (usize, Option<usize>)),
}

#[derive(Clone, Debug)]
pub enum Res {
	Single(Result<Resp, E>),
	Write(Result<(), E>),
	Multi(Result<Multi, E>),
	Baud(Result<(), PortErr>),
	Panic(String),
	Hang,
}

#[derive(Clone, Debug)]
pub struct Out {
	pub res: Res,
	pub t0: u64,
	pub t1: u64,
}

fn now(sim: &W) -> u64 {
	sim.w.borrow().now
}

fn ncalls(sim: &W, port: usize) -> usize {
	sim.w.borrow().ports[port].calls.len()
}

fn got(sim: &W, port: usize) -> usize {
	sim.w.borrow().ports[port].got.len()
}

/// Showing something has no effects (looked at every now and then).
fn shown(sim: &W, port: usize, x: &impl std::fmt::Debug) {
	if sim.w.borrow().st.ops % 61 == 7 {
		let c = ncalls(sim, port);
		let text = format!("{x:?}");
		assert!(ncalls(sim, port) == c, "showing it used the port: {text}");
		sim.w.borrow_mut().probe("client or iterator shown");
	}
}

/// Upper bound on the items of a scan before we give up on it.
const MAX_SCAN: usize = 2000;

fn drive<I: std::fmt::Debug>(
	sim: &W,
	port: usize,
	mut it: I,
	take: Option<usize>,
	mut next: impl FnMut(&mut I) -> Option<Result<Resp, E>>,
	remaining: impl Fn(&I) -> Option<usize>,
	hint: impl Fn(&I) -> (usize, Option<usize>),
	fused: bool,
) -> Multi {
	shown(sim, port, &it);
	let rem0 = remaining(&it);
	let mut m = Multi { items: vec![], ended: None, unfused: false, drop: (0, 0), dg: (0, 0), ec: (0, 0), dc: (0, 0), rem0, last: (None, (0, None)) };
	while take.is_none_or(|k| m.items.len() < k) && m.items.len() < MAX_SCAN {
		let r0 = remaining(&it);
		let h = hint(&it);
		let t0 = now(sim);
		let g0 = got(sim, port);
		let c0 = ncalls(sim, port);
		let x = next(&mut it);
		let t1 = now(sim);
		let c1 = ncalls(sim, port);
		match x {
			None => {
				m.ended = Some((t0, t1));
				m.ec = (c0, c1);
				if fused && next(&mut it).is_some() {
					m.unfused = true;
				}
				break;
			},
			Some(res) => {
				let r1 = remaining(&it);
				let rem = match (r0, r1) {
					(Some(a), Some(b)) => Some((a, b)),
					_ => None,
				};
				{
					let mut w = sim.w.borrow_mut();
					let s = res.is_ok();
					w.note("item", &[u8::from(s)], || format!("{res:?}"));
				}
				m.items.push(Item { res, t0, t1, g0, g1: got(sim, port), c0, c1, rem, hint: h });
			},
		}
	}
	shown(sim, port, &it);
	m.last = (remaining(&it), hint(&it));
	let d0 = now(sim);
	let g0 = got(sim, port);
	let c0 = ncalls(sim, port);
	drop(it);
	m.drop = (d0, now(sim));
	m.dg = (g0, got(sim, port));
	m.dc = (c0, ncalls(sim, port));
	m
}

pub fn kind_of(k: u8) -> FactoryResetKind {
	match k {
		0 => FactoryResetKind::ResetAll,
		1 => FactoryResetKind::KeepId,
		_ => FactoryResetKind::KeepIdAndBaudRate,
	}
}

pub fn kind_byte(k: u8) -> u8 {
	match k {
		0 => 0xFF,
		1 => 0x01,
		_ => 0x02,
	}
}

/// Reset what is recorded per operation.
pub fn begin_op(sim: &W, port: usize) {
	let mut w = sim.w.borrow_mut();
	w.st.ops += 1;
	let p = &mut w.ports[port];
	p.calls.clear();
	p.got.clear();
	p.idle_calls = 0;
	p.reads = 0;
	p.hung = false;
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> Res {
	if p.is::<HangSignal>() {
		return Res::Hang;
	}
	let s = if let Some(s) = p.downcast_ref::<&str>() {
		(*s).to_string()
	} else if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else {
		"?".to_string()
	};
	Res::Panic(s)
}

pub fn exec(sim: &W, port: usize, cl: &mut Cl, op: &Op) -> Out {
	begin_op(sim, port);
	{
		let mut w = sim.w.borrow_mut();
		w.note("op", &[], || format!("{op:?}"));
	}
	let t0 = now(sim);
	let r = catch_unwind(AssertUnwindSafe(|| exec_inner(sim, port, cl, op)));
	let mut res = match r {
		Ok(r) => r,
		Err(p) => panic_text(p),
	};
	{
		let mut w = sim.w.borrow_mut();
		if w.ports[port].hung {
			res = Res::Hang;
		}
		let tag = match &res {
			Res::Single(Ok(_)) | Res::Write(Ok(_)) | Res::Multi(Ok(_)) | Res::Baud(Ok(_)) => 0u8,
			Res::Panic(_) => 2,
			Res::Hang => 3,
			_ => 1,
		};
		w.note("result", &[tag], || match &res {
			Res::Multi(Ok(m)) => format!("{} items, ended {}", m.items.len(), m.ended.is_some()),
			r => format!("{r:?}"),
		});
	}
	let t1 = now(sim);
	Out { res, t0, t1 }
}

fn exec_inner(sim: &W, port: usize, cl: &mut Cl, op: &Op) -> Res {
	shown(sim, port, cl);
	match op {
		Op::Ping { id } => Res::Single(cl.ping(*id).map(ping).map_err(tr)),
		Op::Scan { take, via } => match cl.scan() {
			Err(e) => Res::Multi(Err(wr(e))),
			Ok(it) => {
				let via = *via;
				Res::Multi(Ok(drive(
					sim,
					port,
					it,
					*take,
					|i| if via == 0 { i.next() } else { i.scan_next() }.map(|r| r.map(ping).map_err(rd)),
					|_| None,
					|i| i.size_hint(),
					false,
				)))
			},
		},
		Op::Read { ty, id, addr } => Res::Single(with_ty!(*ty, T => cl.read::<T>(*id, *addr).map(val).map_err(tr))),
		Op::ReadBytes { id, addr, count, kind } => Res::Single(match kind {
			0 => cl.read_bytes::<Vec<u8>>(*id, *addr, *count).map(slice).map_err(tr),
			1 => cl.read_bytes::<&[u8]>(*id, *addr, *count).map(slice).map_err(tr),
			2 => cl.read_bytes::<Box<[u8]>>(*id, *addr, *count).map(slice).map_err(tr),
			_ => cl
				.read_bytes::<Summed>(*id, *addr, *count)
				.map(|r| Resp { id: r.motor_id, alert: r.alert, data: r.data.0, err: None })
				.map_err(tr),
		}),
		Op::Write { ty, id, addr, val } => {
			Res::Single(with_ty!(*ty, T => cl.write::<T>(*id, *addr, &T::make(val)).map(unit).map_err(tr)))
		},
		Op::WriteBytes { id, addr, data } => Res::Single(cl.write_bytes(*id, *addr, data).map(unit).map_err(tr)),
		Op::RegWrite { ty, id, addr, val } => {
			Res::Single(with_ty!(*ty, T => cl.reg_write::<T>(*id, *addr, &T::make(val)).map(unit).map_err(tr)))
		},
		Op::RegWriteBytes { id, addr, data } => Res::Single(cl.reg_write_bytes(*id, *addr, data).map(unit).map_err(tr)),
		Op::Action { id } => Res::Single(cl.action(*id).map(unit).map_err(tr)),
		Op::BAction => Res::Write(cl.broadcast_action().map_err(wr)),
		Op::Reboot { id } => Res::Single(cl.reboot(*id).map(unit).map_err(tr)),
		Op::BReboot => Res::Write(cl.broadcast_reboot().map_err(wr)),
		Op::ClearRev { id } => Res::Single(cl.clear_revolution_counter(*id).map(unit).map_err(tr)),
		Op::BClearRev => Res::Write(cl.broadcast_clear_revolution_counter().map_err(wr)),
		Op::ClearErr { id } => Res::Single(cl.clear_error(*id).map(unit).map_err(tr)),
		Op::BClearErr => Res::Write(cl.broadcast_clear_error().map_err(wr)),
		Op::Factory { id, kind } => Res::Single(cl.factory_reset(*id, kind_of(*kind)).map(unit).map_err(tr)),
		Op::BFactory { kind } => Res::Write(cl.broadcast_factory_reset(kind_of(*kind)).map_err(wr)),
		Op::SyncRead { ty, ids, addr, take, via } => with_ty!(*ty, T => match cl.sync_read::<T>(ids, *addr) {
			Err(e) => Res::Multi(Err(wr(e))),
			Ok(it) => Res::Multi(Ok(drive(
				sim,
				port,
				it,
				*take,
				|i| match via { 0 => i.next(), _ => i.read_next() }.map(|r| r.map(val).map_err(rd)),
				|i| Some(i.remaining()),
				|i| i.size_hint(),
				true,
			))),
		}),
		Op::SyncReadBytes { ids, addr, count, take, via } => {
			if *via == 2 {
				match cl.sync_read_bytes_borrow::<Blob>(ids, *addr, *count) {
					Err(e) => Res::Multi(Err(wr(e))),
					Ok(it) => Res::Multi(Ok(drive(
						sim,
						port,
						it,
						*take,
						|i| {
							i.read_next_borrow().map(|r| {
								r.map(|r| Resp { id: r.motor_id, alert: r.alert, data: r.data.0.clone(), err: None }).map_err(rd)
							})
						},
						|i| Some(i.remaining()),
						|_| (0, None),
						true,
					))),
				}
			} else {
				match cl.sync_read_bytes::<Vec<u8>>(ids, *addr, *count) {
					Err(e) => Res::Multi(Err(wr(e))),
					Ok(it) => Res::Multi(Ok(drive(
						sim,
						port,
						it,
						*take,
						|i| if *via == 0 { i.next() } else { i.read_next() }.map(|r| r.map(slice).map_err(rd)),
						|i| Some(i.remaining()),
						|i| i.size_hint(),
						true,
					))),
				}
			}
		},
		Op::BulkRead { reads, take, via } => {
			let reads: Vec<BulkReadData> =
				reads.iter().map(|(m, a, c)| BulkReadData { motor_id: *m, address: *a, count: *c }).collect();
			if *via == 2 {
				match cl.bulk_read_bytes_borrow::<Blob>(&reads) {
					Err(e) => Res::Multi(Err(wr(e))),
					Ok(it) => Res::Multi(Ok(drive(
						sim,
						port,
						it,
						*take,
						|i| {
							i.read_next_borrow().map(|r| {
								r.map(|r| Resp { id: r.motor_id, alert: r.alert, data: r.data.0.clone(), err: None }).map_err(rd)
							})
						},
						|i| Some(i.remaining()),
						|_| (0, None),
						true,
					))),
				}
			} else {
				match cl.bulk_read_bytes::<Vec<u8>>(&reads) {
					Err(e) => Res::Multi(Err(wr(e))),
					Ok(it) => Res::Multi(Ok(drive(
						sim,
						port,
						it,
						*take,
						|i| if *via == 0 { i.next() } else { i.read_next() }.map(|r| r.map(slice).map_err(rd)),
						|i| Some(i.remaining()),
						|i| i.size_hint(),
						true,
					))),
				}
			}
		},
		Op::SyncWrite { ty, addr, data } => Res::Write(with_ty!(*ty, T => {
			let v: Vec<SyncWriteData<T>> =
				data.iter().map(|(m, b)| SyncWriteData { motor_id: *m, data: T::make(b) }).collect();
			cl.sync_write(*addr, &v).map_err(wr)
		})),
		Op::SyncWriteBytes { addr, count, data, via } => Res::Write(match via {
			0 => {
				let v: Vec<SyncWriteData<Vec<u8>>> =
					data.iter().map(|(m, b)| SyncWriteData { motor_id: *m, data: b.clone() }).collect();
				cl.sync_write_bytes(*addr, *count, &v).map_err(wr)
			},
			_ => cl
				.sync_write_bytes(*addr, *count, data.iter().map(|(m, b)| SyncWriteData { motor_id: *m, data: b.as_slice() }))
				.map_err(wr),
		}),
		Op::BulkWrite { data, via } => Res::Write(match via {
			0 => {
				let v: Vec<BulkWriteData<Vec<u8>>> =
					data.iter().map(|(m, a, b)| BulkWriteData { motor_id: *m, address: *a, data: b.clone() }).collect();
				cl.bulk_write(&v).map_err(wr)
			},
			_ => {
				let v: Vec<BulkWriteData<&[u8]>> =
					data.iter().map(|(m, a, b)| BulkWriteData { motor_id: *m, address: *a, data: b.as_slice() }).collect();
				cl.bulk_write(&v).map_err(wr)
			},
		}),
		Op::Raw { id, instr, params, expected } => Res::Single(
			cl.transfer_single(*id, *instr, params.len(), *expected, |b| {
				b.copy_from_slice(params);
				Ok(())
			})
			.map(stat)
			.map_err(tr),
		),
		Op::RawWrite { id, instr, params, fail } => Res::Write(
			cl.write_instruction(*id, *instr, params.len(), |b| {
				if *fail {
					let n = b.len() / 2;
					b[..n].fill(0xA5);
					return Err(dynamixel2::BufferTooSmallError { required_size: 7777, total_size: 3 });
				}
				b.copy_from_slice(params);
				Ok(())
			})
			.map_err(wr),
		),
		Op::ReadStatus { expected } => Res::Single(cl.read_status_response(*expected).map(stat).map_err(rd)),
		Op::ReadStatusTimeout { ns } => {
			Res::Single(cl.read_status_response_timeout(Duration::from_nanos(*ns)).map(stat).map_err(rd))
		},
		Op::SetBaud { baud } => Res::Baud(cl.set_baud_rate(*baud)),
	}
}

/// What an operation asks to be put on the wire, straight from the protocol specification.
pub fn wire(op: &Op) -> Option<(u8, u8, Vec<u8>)> {
	fn le(v: u16) -> [u8; 2] {
		v.to_le_bytes()
	}
	fn aw(addr: u16, data: &[u8]) -> Vec<u8> {
		let mut p = le(addr).to_vec();
		p.extend_from_slice(data);
		p
	}
	fn rd(addr: u16, n: u16) -> Vec<u8> {
		let mut p = le(addr).to_vec();
		p.extend(le(n));
		p
	}
	const REV: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
	const ERR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
	use crate::vals::TY_SIZE;
	Some(match op {
		Op::Ping { id } => (*id, ins::PING, vec![]),
		Op::Scan { .. } => (BROADCAST, ins::PING, vec![]),
		Op::Read { ty, id, addr } => (*id, ins::READ, rd(*addr, TY_SIZE[*ty] as u16)),
		Op::ReadBytes { id, addr, count, .. } => (*id, ins::READ, rd(*addr, *count)),
		Op::Write { id, addr, val, .. } => (*id, ins::WRITE, aw(*addr, val)),
		Op::WriteBytes { id, addr, data } => (*id, ins::WRITE, aw(*addr, data)),
		Op::RegWrite { id, addr, val, .. } => (*id, ins::REG_WRITE, aw(*addr, val)),
		Op::RegWriteBytes { id, addr, data } => (*id, ins::REG_WRITE, aw(*addr, data)),
		Op::Action { id } => (*id, ins::ACTION, vec![]),
		Op::BAction => (BROADCAST, ins::ACTION, vec![]),
		Op::Reboot { id } => (*id, ins::REBOOT, vec![]),
		Op::BReboot => (BROADCAST, ins::REBOOT, vec![]),
		Op::ClearRev { id } => (*id, ins::CLEAR, REV.to_vec()),
		Op::BClearRev => (BROADCAST, ins::CLEAR, REV.to_vec()),
		Op::ClearErr { id } => (*id, ins::CLEAR, ERR.to_vec()),
		Op::BClearErr => (BROADCAST, ins::CLEAR, ERR.to_vec()),
		Op::Factory { id, kind } => (*id, ins::FACTORY_RESET, vec![kind_byte(*kind)]),
		Op::BFactory { kind } => (BROADCAST, ins::FACTORY_RESET, vec![kind_byte(*kind)]),
		Op::SyncRead { ty, ids, addr, .. } => {
			let mut p = rd(*addr, TY_SIZE[*ty] as u16);
			p.extend_from_slice(ids);
			(BROADCAST, ins::SYNC_READ, p)
		},
		Op::SyncReadBytes { ids, addr, count, .. } => {
			let mut p = rd(*addr, *count);
			p.extend_from_slice(ids);
			(BROADCAST, ins::SYNC_READ, p)
		},
		Op::BulkRead { reads, .. } => {
			let mut p = vec![];
			for (m, a, c) in reads {
				p.push(*m);
				p.extend(le(*a));
				p.extend(le(*c));
			}
			(BROADCAST, ins::BULK_READ, p)
		},
		Op::SyncWrite { ty, addr, data } => {
			let mut p = rd(*addr, TY_SIZE[*ty] as u16);
			for (m, d) in data {
				p.push(*m);
				p.extend_from_slice(d);
			}
			(BROADCAST, ins::SYNC_WRITE, p)
		},
		Op::SyncWriteBytes { addr, count, data, .. } => {
			let mut p = rd(*addr, *count);
			for (m, d) in data {
				p.push(*m);
				p.extend_from_slice(d);
			}
			(BROADCAST, ins::SYNC_WRITE, p)
		},
		Op::BulkWrite { data, .. } => {
			let mut p = vec![];
			for (m, a, d) in data {
				p.push(*m);
				p.extend(le(*a));
				p.extend(le(d.len() as u16));
				p.extend_from_slice(d);
			}
			(BROADCAST, ins::BULK_WRITE, p)
		},
		Op::Raw { id, instr, params, .. } | Op::RawWrite { id, instr, params, .. } => (*id, *instr, params.clone()),
		Op::ReadStatus { .. } | Op::ReadStatusTimeout { .. } | Op::SetBaud { .. } => return None,
	})
}

/// Misuse for which a panic before sending anything is documented.
pub fn must_panic(op: &Op) -> bool {
	match op {
		Op::SyncWriteBytes { count, data, .. } => data.iter().any(|(_, d)| d.len() != usize::from(*count)),
		Op::BulkRead { reads, .. } => dup(reads.iter().map(|x| x.0)),
		Op::BulkWrite { data, .. } => dup(data.iter().map(|x| x.0)) || data.iter().any(|x| x.2.len() > 0xFFFF),
		_ => false,
	}
}

fn dup(it: impl Iterator<Item = u8>) -> bool {
	let mut seen = [false; 256];
	for x in it {
		if std::mem::replace(&mut seen[usize::from(x)], true) {
			return true;
		}
	}
	false
}

/// How many reply parameters the operation waits for, per expected reply, and from whom.
pub fn replies(op: &Op) -> Vec<(u8, u16)> {
	use crate::vals::TY_SIZE;
	let one = |id: u8, n: u16| if id == BROADCAST { vec![] } else { vec![(id, n)] };
	match op {
		Op::Ping { id } => vec![(*id, 3)],
		Op::Read { ty, id, .. } => vec![(*id, TY_SIZE[*ty] as u16)],
		Op::ReadBytes { id, count, .. } => vec![(*id, *count)],
		Op::Write { id, .. } | Op::WriteBytes { id, .. } | Op::RegWrite { id, .. } | Op::RegWriteBytes { id, .. } => one(*id, 0),
		Op::Action { id } | Op::Reboot { id } | Op::ClearRev { id } | Op::ClearErr { id } | Op::Factory { id, .. } => one(*id, 0),
		Op::SyncRead { ty, ids, .. } => ids.iter().map(|i| (*i, TY_SIZE[*ty] as u16)).collect(),
		Op::SyncReadBytes { ids, count, .. } => ids.iter().map(|i| (*i, *count)).collect(),
		Op::BulkRead { reads, .. } => reads.iter().map(|(i, _, c)| (*i, *c)).collect(),
		Op::Raw { id, expected, .. } => vec![(*id, *expected)],
		_ => vec![],
	}
}

/// Is the operation addressed to everyone and without any reply to wait for?
pub fn is_broadcast_write(op: &Op) -> bool {
	match op {
		Op::BAction | Op::BReboot | Op::BClearRev | Op::BClearErr | Op::BFactory { .. } => true,
		Op::SyncWrite { .. } | Op::SyncWriteBytes { .. } | Op::BulkWrite { .. } => true,
		Op::Write { id, .. }
		| Op::WriteBytes { id, .. }
		| Op::RegWrite { id, .. }
		| Op::RegWriteBytes { id, .. }
		| Op::Action { id }
		| Op::Reboot { id }
		| Op::ClearRev { id }
		| Op::ClearErr { id }
		| Op::Factory { id, .. } => *id == BROADCAST,
		_ => false,
	}
}
