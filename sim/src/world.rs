//! Discrete-event world: simulated clock, event queue, serial ports, line faults.

use crate::choice::Src;
use crate::proto;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::rc::Rc;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;

/// Error injected by, or reported from, a simulated port.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct PortErr {
	pub kind: ErrKind,
	/// Unique number of the injected failure, so that "the same error" can be checked.
	pub nr: u32,
}

/// Bit in the number of a failure that makes it a timeout in the eyes of the port.
pub const TIMEOUT_LIKE: u32 = 1 << 31;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrKind {
	Timeout,
	Discard,
	Write,
	Read,
	SetBaud,
	GetBaud,
}

impl std::fmt::Display for PortErr {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{:?}#{}{}", self.kind, self.nr & !TIMEOUT_LIKE, if self.nr & TIMEOUT_LIKE != 0 { " (timeout)" } else { "" })
	}
}

/// Calls made on a port, in order.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Call {
	Discard { ok: bool, nr: u32 },
	Write { bytes: Vec<u8>, ok: bool, nr: u32, start: u64, end: u64 },
	Read { res: Result<usize, PortErr>, deadline: u64, start: u64, end: u64, cap: usize },
	SetBaud { baud: u32, ok: bool, nr: u32 },
}

#[derive(Clone, Copy, Debug)]
pub struct RxByte {
	pub b: u8,
	/// When the byte reached the port.
	pub at: u64,
}

/// What a port does besides the obvious; all rates are permille per call.
#[derive(Clone, Debug, Default)]
pub struct PortCfg {
	/// 0: as much as fits, 1: one byte, 2: random chunk.
	pub chunk: u8,
	/// Time consumed by every read call.
	pub read_cost: u64,
	/// Discarding does nothing.
	pub discard_noop: bool,
	/// A read after its deadline fails even if data is available (like the OS adapter).
	pub strict: bool,
	/// write_all returns only after the last bit is on the wire.
	pub blocking_write: bool,
	/// Reads never advance time (used by simulated devices that are polled).
	pub polled: bool,
	pub f_discard: u32,
	pub f_write: u32,
	pub f_read: u32,
	pub f_zero: u32,
	pub f_baud: u32,
	/// Every read fails from now on.
	pub dead: bool,
	/// Asking for the baud rate fails.
	pub no_baud: bool,
	/// The port gives 0 as its baud rate, and takes it as one.
	pub zero_baud: bool,
	/// The input buffer holds no more than this; 0 is no limit. What arrives beyond is lost.
	pub room: usize,
}

pub struct Port {
	pub cfg: PortCfg,
	pub baud: u32,
	pub rx: VecDeque<RxByte>,
	/// Bytes handed to the library since the last call of `mark`.
	pub got: Vec<RxByte>,
	pub calls: Vec<Call>,
	/// Bytes written through a polled port, collected by the world.
	pub out: Vec<Vec<u8>>,
	pub reads: u64,
	pub idle_calls: u32,
	pub hung: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Fk {
	BitFlip,
	ByteLoss,
	ByteDup,
	ByteInsert,
	Truncate,
	CrcDamage,
	HdrDamage,
	LenDamage,
	ReplyLost,
	ReplyDup,
	ReplyLate,
	ReplyForeignId,
	ReplyWrongLen,
	ReplyNotStatus,
	Echo,
	Noise,
	MotorCrash,
	MotorRestart,
	MotorDeaf,
	InstrLost,
	InstrDamage,
	WriteErr,
	WritePartial,
	DiscardErr,
	DiscardNoop,
	ReadErr,
	ReadZero,
	BaudErr,
	PortDead,
	Fragment,
	ReplyDelay,
	StaleBytes,
	MotorErrByte,
	Abandon,
	BufSmall,
	EncodeFail,
	DecodeFail,
	CallerPanic,
	Timeout,
	Eintr,
	ShortWrite,
	SysErr,
	HangUp,
	Again,
	Stall,
	Overrun,
	Last,
}

pub const FK_NAMES: [&str; Fk::Last as usize] = [
	"bit flip",
	"byte loss",
	"byte duplication",
	"byte insertion",
	"truncation",
	"crc damage",
	"header damage",
	"length damage",
	"reply lost",
	"reply duplicated",
	"reply late",
	"reply from foreign id",
	"reply with wrong length",
	"reply is no status packet",
	"echo of the instruction",
	"line noise",
	"motor crash",
	"motor restart",
	"motor deaf",
	"instruction lost",
	"instruction damaged",
	"port write error",
	"partial port write",
	"port discard error",
	"discard is a no-op",
	"port read error",
	"empty read",
	"set baud rate error",
	"dead port",
	"fragmented delivery",
	"delayed delivery",
	"stale bytes in port buffer",
	"motor error or alert byte",
	"iteration abandoned",
	"buffer too small",
	"value encoder failure",
	"value decoder failure",
	"caller misuse panic",
	"read timeout",
	"EINTR",
	"short write",
	"system call error",
	"hang-up",
	"EAGAIN",
	"process not scheduled",
	"input buffer overrun",
];

#[derive(Clone)]
pub struct Stats {
	pub fk: [u64; Fk::Last as usize],
	pub probes: BTreeMap<&'static str, u64>,
	pub ops: u64,
	pub sim_ns: u128,
}

impl Default for Stats {
	fn default() -> Self {
		Stats { fk: [0; Fk::Last as usize], probes: BTreeMap::new(), ops: 0, sim_ns: 0 }
	}
}

impl Stats {
	pub fn add(&mut self, o: &Stats) {
		for i in 0..self.fk.len() {
			self.fk[i] += o.fk[i];
		}
		for (k, v) in &o.probes {
			*self.probes.entry(k).or_insert(0) += v;
		}
		self.ops += o.ops;
		self.sim_ns += o.sim_ns;
	}
}

#[derive(Debug)]
pub enum Ev {
	/// Bytes reach a port.
	Rx { port: usize, bytes: Vec<u8> },
	/// A transmission is complete and heard by all motors except `from`.
	Line { from: Option<usize>, bytes: Vec<u8> },
	/// A motor that was down comes back.
	Up { motor: usize },
	/// Output written to the simulated terminal is on the line.
	Os { gen: u64, idle: bool },
}

struct QEv {
	at: u64,
	seq: u64,
	ev: Ev,
}
impl PartialEq for QEv {
	fn eq(&self, o: &Self) -> bool {
		(self.at, self.seq) == (o.at, o.seq)
	}
}
impl Eq for QEv {}
impl PartialOrd for QEv {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for QEv {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		(self.at, self.seq).cmp(&(o.at, o.seq))
	}
}

pub struct World {
	pub src: Src,
	pub now: u64,
	seq: u64,
	q: BinaryHeap<Reverse<QEv>>,
	pub ports: Vec<Port>,
	/// The line is occupied by our own transmission until then.
	pub tx_busy: u64,
	pub next_err: u32,
	pub hash: u64,
	pub steps: u64,
	pub text: Option<Vec<String>>,
	pub st: Stats,
	pub fails: Vec<(String, String)>,
}

pub type W = Rc<Sim>;

pub struct Sim {
	pub w: RefCell<World>,
	pub nodes: RefCell<Option<Box<dyn Nodes>>>,
}

/// The other parties on the line.
pub trait Nodes {
	fn on_line(&mut self, w: &W, from: Option<usize>, bytes: &[u8]);
	fn on_up(&mut self, w: &W, motor: usize);
}

/// Panic payload used when a call never stops asking the port without time passing.
pub struct HangSignal;

impl World {
	pub fn new(src: Src, text: bool) -> World {
		World {
			src,
			now: 1_000 * MS,
			seq: 0,
			q: BinaryHeap::new(),
			ports: vec![],
			tx_busy: 0,
			next_err: 0,
			hash: 0xcbf2_9ce4_8422_2325,
			steps: 0,
			text: if text { Some(vec![]) } else { None },
			st: Stats::default(),
			fails: vec![],
		}
	}

	pub fn sim(self) -> W {
		Rc::new(Sim { w: RefCell::new(self), nodes: RefCell::new(None) })
	}

	pub fn add_port(&mut self, baud: u32, cfg: PortCfg) -> usize {
		self.ports.push(Port {
			cfg,
			baud,
			rx: VecDeque::new(),
			got: vec![],
			calls: vec![],
			out: vec![],
			reads: 0,
			idle_calls: 0,
			hung: false,
		});
		self.ports.len() - 1
	}

	pub fn at(&mut self, at: u64, ev: Ev) {
		self.seq += 1;
		let at = at.max(self.now);
		self.q.push(Reverse(QEv { at, seq: self.seq, ev }));
	}

	pub fn next_event(&self) -> Option<u64> {
		self.q.peek().map(|x| x.0.at)
	}

	fn h(&mut self, x: u64) {
		self.hash = (self.hash ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(5);
		self.steps += 1;
	}

	/// Record an event of the run: always in the hash, and as text when tracing.
	pub fn note(&mut self, tag: &'static str, bytes: &[u8], f: impl FnOnce() -> String) {
		self.h(self.now);
		for b in tag.bytes() {
			self.hash = (self.hash ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
		}
		let mut h = self.hash;
		for b in bytes {
			h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
		}
		self.hash = h;
		let now = self.now;
		if let Some(t) = &mut self.text {
			if t.len() >= 8000 {
				// The beginning and the end.
				t.drain(1000..5000);
				t[1000] = "               ...".into();
			}
			let s = f();
			t.push(format!("{:>14.6} ms  {:<9} {}", now as f64 / 1e6, tag, s));
		}
	}

	pub fn fk(&mut self, k: Fk) {
		self.st.fk[k as usize] += 1;
	}

	pub fn probe(&mut self, name: &'static str) {
		*self.st.probes.entry(name).or_insert(0) += 1;
	}

	pub fn fail(&mut self, prop: &str, msg: String) {
		if self.fails.len() < 20 {
			let m = msg.clone();
			self.note("VIOLATED", prop.as_bytes(), || m);
			self.fails.push((prop.to_string(), msg));
		}
	}

	pub fn err(&mut self, kind: ErrKind) -> PortErr {
		self.next_err += 1;
		let mut nr = self.next_err;
		// Every failure but that of a read can also be of the kind that the port calls a timeout.
		if kind != ErrKind::Read && self.src.chance(300) {
			nr |= TIMEOUT_LIKE;
		}
		PortErr { kind, nr }
	}
}

/// Process everything that happens up to and including `t`, or up to the first event if `first`.
fn dispatch(sim: &W, limit: u64) -> bool {
	let ev = {
		let mut w = sim.w.borrow_mut();
		match w.q.peek() {
			Some(Reverse(e)) if e.at <= limit => {},
			_ => return false,
		}
		let Reverse(e) = w.q.pop().unwrap();
		w.now = w.now.max(e.at);
		e.ev
	};
	match ev {
		Ev::Rx { port, bytes } => {
			let mut w = sim.w.borrow_mut();
			let now = w.now;
			w.note("arrive", &bytes, || format!("port {port}: {}", proto::hex(&bytes)));
			let p = &mut w.ports[port];
			let free = if p.cfg.room == 0 { bytes.len() } else { p.cfg.room.saturating_sub(p.rx.len()) };
			p.rx.extend(bytes.iter().take(free).map(|b| RxByte { b: *b, at: now }));
			p.idle_calls = 0;
			if free < bytes.len() {
				w.fk(Fk::Overrun);
			}
		},
		Ev::Line { from, bytes } => {
			let nodes = sim.nodes.borrow_mut().take();
			if let Some(mut n) = nodes {
				n.on_line(sim, from, &bytes);
				*sim.nodes.borrow_mut() = Some(n);
			}
		},
		Ev::Up { motor } => {
			let nodes = sim.nodes.borrow_mut().take();
			if let Some(mut n) = nodes {
				n.on_up(sim, motor);
				*sim.nodes.borrow_mut() = Some(n);
			}
		},
		#[cfg(feature = "full")]
		Ev::Os { gen, idle } => crate::os::on_tx(sim, gen, idle),
		#[cfg(not(feature = "full"))]
		Ev::Os { .. } => {},
	}
	true
}

/// Let the world run until `t` without the library doing anything.
pub fn run_until(sim: &W, t: u64) {
	while dispatch(sim, t) {}
	let mut w = sim.w.borrow_mut();
	w.now = w.now.max(t);
}

/// Run until no event is left (bounded), and return the time of the last one.
pub fn drain(sim: &W) {
	for _ in 0..50_000_000 {
		let next = sim.w.borrow().next_event();
		match next {
			Some(t) => {
				dispatch(sim, t);
			},
			None => break,
		}
	}
}

/// No operation needs more calls to its port than this: the longest ones take a few thousand.
const MAX_CALLS: usize = 1_000_000;

/// The simulated serial port: the seam between the library and the world.
pub struct SimPort {
	pub sim: W,
	pub idx: usize,
	/// Instead of the simulated port: the real adapter, on simulated system calls.
	pub os: Option<Box<serial2::SerialPort>>,
}

impl SimPort {
	pub fn new(sim: &W, idx: usize) -> Self {
		SimPort { sim: sim.clone(), idx, os: None }
	}

	/// Let everything that is due happen first (not for devices that are polled from inside an event).
	fn settle(&self) {
		let (now, polled) = {
			let w = self.sim.w.borrow();
			(w.now, w.ports[self.idx].cfg.polled)
		};
		if !polled {
			while dispatch(&self.sim, now) {}
		}
	}

	fn spin_check(&self, progress: bool) {
		let mut w = self.sim.w.borrow_mut();
		let endless = w.src.endless();
		let p = &mut w.ports[self.idx];
		let endless = endless || p.calls.len() > MAX_CALLS;
		if progress && !endless {
			p.idle_calls = 0;
			return;
		}
		p.idle_calls += 1;
		if (p.idle_calls > 3000 || endless) && !p.hung {
			p.hung = true;
			p.idle_calls = 0;
			if !std::thread::panicking() {
				drop(w);
				std::panic::panic_any(HangSignal);
			}
		}
	}
}

impl std::fmt::Debug for SimPort {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "SimPort({})", self.idx)
	}
}

impl dynamixel2::SerialPort for SimPort {
	type Error = PortErr;
	type Instant = u64;

	fn baud_rate(&self) -> Result<u32, PortErr> {
		#[cfg(feature = "full")]
		if self.os.is_some() {
			return self.os_baud_rate();
		}
		let mut w = self.sim.w.borrow_mut();
		if w.ports[self.idx].cfg.no_baud {
			w.fk(Fk::BaudErr);
			return Err(w.err(ErrKind::GetBaud));
		}
		if w.ports[self.idx].cfg.zero_baud {
			return Ok(0);
		}
		Ok(w.ports[self.idx].baud)
	}

	fn set_baud_rate(&mut self, baud: u32) -> Result<(), PortErr> {
		#[cfg(feature = "full")]
		if self.os.is_some() {
			return self.os_set_baud_rate(baud);
		}
		let mut w = self.sim.w.borrow_mut();
		let rate = w.ports[self.idx].cfg.f_baud;
		if w.src.chance(rate) {
			w.fk(Fk::BaudErr);
			let e = w.err(ErrKind::SetBaud);
			w.ports[self.idx].calls.push(Call::SetBaud { baud, ok: false, nr: e.nr });
			w.note("set_baud", &[], || format!("{baud}: FAILS {e}"));
			return Err(e);
		}
		w.note("set_baud", &baud.to_le_bytes(), || format!("{baud}"));
		let p = &mut w.ports[self.idx];
		if baud > 0 {
			p.baud = baud;
		}
		p.calls.push(Call::SetBaud { baud, ok: true, nr: 0 });
		Ok(())
	}

	fn discard_input_buffer(&mut self) -> Result<(), PortErr> {
		#[cfg(feature = "full")]
		if self.os.is_some() {
			return self.os_discard();
		}
		self.settle();
		let mut w = self.sim.w.borrow_mut();
		let rate = w.ports[self.idx].cfg.f_discard;
		if w.src.chance(rate) {
			w.fk(Fk::DiscardErr);
			let e = w.err(ErrKind::Discard);
			w.ports[self.idx].calls.push(Call::Discard { ok: false, nr: e.nr });
			w.note("discard", &[], || format!("FAILS {e}"));
			return Err(e);
		}
		let n = w.ports[self.idx].rx.len();
		let noop = w.ports[self.idx].cfg.discard_noop;
		if n > 0 {
			w.fk(if noop { Fk::DiscardNoop } else { Fk::StaleBytes });
		}
		w.note("discard", &[n as u8], || format!("{n} bytes{}", if noop { " kept (no-op)" } else { "" }));
		let p = &mut w.ports[self.idx];
		if !noop {
			p.rx.clear();
		}
		p.calls.push(Call::Discard { ok: true, nr: 0 });
		Ok(())
	}

	fn read(&mut self, buffer: &mut [u8], deadline: &u64) -> Result<usize, PortErr> {
		#[cfg(feature = "full")]
		if self.os.is_some() {
			return self.os_read(buffer, *deadline);
		}
		let deadline = *deadline;
		let (start, polled, cost) = {
			let mut w = self.sim.w.borrow_mut();
			let start = w.now;
			let p = &mut w.ports[self.idx];
			p.reads += 1;
			let r = (start, p.cfg.polled, p.cfg.read_cost);
			r
		};
		if !polled {
			if cost > 0 {
				run_until(&self.sim, start + cost);
			} else {
				while dispatch(&self.sim, start) {}
			}
		}
		let res = self.read_inner(buffer, deadline, polled);
		let progress = {
			let mut w = self.sim.w.borrow_mut();
			let end = w.now;
			let timeout = matches!(res, Err(PortErr { kind: ErrKind::Timeout, .. }));
			if timeout && !polled {
				w.fk(Fk::Timeout);
			}
			match res {
				Ok(n) => {
					let b = &buffer[..n.min(buffer.len())];
					w.note("read", b, || format!("-> {} bytes: {}", n, proto::hex(b)));
				},
				Err(e) => {
					w.note("read", &[], || format!("-> {e}"));
				},
			}
			let p = &mut w.ports[self.idx];
			if !polled || p.calls.len() < 64 {
				p.calls.push(Call::Read { res, deadline, start, end, cap: buffer.len() });
			}
			matches!(res, Ok(n) if n > 0) || (end > start && end < deadline.saturating_add(cost.saturating_mul(8))) || polled
		};
		self.spin_check(progress);
		res
	}

	fn write_all(&mut self, buffer: &[u8]) -> Result<(), PortErr> {
		#[cfg(feature = "full")]
		if self.os.is_some() {
			return self.os_write_all(buffer);
		}
		self.settle();
		let now = self.sim.w.borrow().now;
		let (wait, res) = {
			let mut w = self.sim.w.borrow_mut();
			let cfg = w.ports[self.idx].cfg.clone();
			if cfg.polled {
				w.ports[self.idx].out.push(buffer.to_vec());
				w.ports[self.idx].calls.push(Call::Write { bytes: buffer.to_vec(), ok: true, nr: 0, start: now, end: now });
				return Ok(());
			}
			let fail = w.src.chance(cfg.f_write);
			let mut sent = buffer.len();
			let mut res = Ok(());
			if fail {
				sent = w.src.skewed(buffer.len() as u64) as usize;
				w.fk(if sent > 0 { Fk::WritePartial } else { Fk::WriteErr });
				let e = w.err(ErrKind::Write);
				res = Err(e);
			}
			let baud = w.ports[self.idx].baud;
			let start_tx = w.now.max(w.tx_busy);
			let end_tx = start_tx + proto::transfer_ns(sent as u64, baud.max(1));
			w.note("write", buffer, || match res {
				Ok(()) => format!("{} bytes: {}", buffer.len(), proto::hex(buffer)),
				Err(e) => format!("FAILS {e} after {sent} of {} bytes: {}", buffer.len(), proto::hex(buffer)),
			});
			if sent > 0 {
				w.tx_busy = end_tx;
				w.at(end_tx, Ev::Line { from: None, bytes: buffer[..sent].to_vec() });
			}
			let end = if cfg.blocking_write { end_tx } else { w.now };
			w.ports[self.idx].calls.push(Call::Write {
				bytes: buffer.to_vec(),
				ok: res.is_ok(),
				nr: res.err().map_or(0, |e| e.nr),
				start: now,
				end,
			});
			(end, res)
		};
		if wait > now {
			run_until(&self.sim, wait);
		}
		res
	}

	fn make_deadline(&self, timeout: std::time::Duration) -> u64 {
		#[cfg(feature = "full")]
		if self.os.is_some() {
			return self.os_make_deadline(timeout);
		}
		let now = self.sim.w.borrow().now;
		now.saturating_add(u64::try_from(timeout.as_nanos()).unwrap_or(u64::MAX))
	}

	fn is_timeout_error(error: &PortErr) -> bool {
		error.kind == ErrKind::Timeout || error.nr & TIMEOUT_LIKE != 0
	}
}

impl SimPort {
	fn read_inner(&self, buffer: &mut [u8], deadline: u64, polled: bool) -> Result<usize, PortErr> {
		{
			let mut w = self.sim.w.borrow_mut();
			let (dead, fr, fz, hung) = {
				let p = &w.ports[self.idx];
				(p.cfg.dead, p.cfg.f_read, p.cfg.f_zero, p.hung)
			};
			if hung {
				// The call was already found to hang: help it to an end.
				w.now = w.now.max(deadline) + 1;
				return Err(PortErr { kind: ErrKind::Timeout, nr: 0 });
			}
			if dead {
				w.fk(Fk::PortDead);
				return Err(w.err(ErrKind::Read));
			}
			if w.src.chance(fr) {
				w.fk(Fk::ReadErr);
				return Err(w.err(ErrKind::Read));
			}
			if w.src.chance(fz) && w.now <= deadline {
				w.fk(Fk::ReadZero);
				if !polled {
					// An empty read must not be free, or it would be an endless loop by itself;
					// and a port without end of file is polled ever slower, or a long wait would take forever.
					let t = (w.now + ((200 * US) << (w.ports[self.idx].calls.len() / 2000).min(20))).min(deadline.saturating_add(200 * US));
					drop(w);
					run_until(&self.sim, t);
				}
				return Ok(0);
			}
			if buffer.is_empty() {
				// A read into an empty buffer succeeds at once, like read(2).
				return Ok(0);
			}
		}
		loop {
			let mut w = self.sim.w.borrow_mut();
			let now = w.now;
			if w.ports[self.idx].cfg.strict && now > deadline {
				return Err(PortErr { kind: ErrKind::Timeout, nr: 0 });
			}
			let avail = w.ports[self.idx].rx.len();
			if avail > 0 {
				let max = avail.min(buffer.len());
				let n = match w.ports[self.idx].cfg.chunk {
					0 => max,
					1 => 1,
					_ => {
						if max > 1 {
							// 0 = everything that is available.
							let k = w.src.skewed(max as u64 - 1) as usize;
							max - k
						} else {
							1
						}
					},
				};
				if n < avail {
					w.fk(Fk::Fragment);
				}
				let p = &mut w.ports[self.idx];
				for slot in buffer.iter_mut().take(n) {
					let x = p.rx.pop_front().unwrap();
					*slot = x.b;
					p.got.push(x);
				}
				return Ok(n);
			}
			if polled || now >= deadline {
				return Err(PortErr { kind: ErrKind::Timeout, nr: 0 });
			}
			let next = w.next_event();
			drop(w);
			match next {
				Some(t) if t <= deadline => {
					dispatch(&self.sim, t);
				},
				_ => {
					let mut w = self.sim.w.borrow_mut();
					w.now = deadline;
				},
			}
		}
	}
}
