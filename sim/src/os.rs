//! The operating system below the `serial2` adapter, simulated at its system calls.
//!
//! The functions here are what `poll`, `read`, `write`, `ioctl`, `tcflush`, `open64`, `clock_gettime`, ... do for a
//! thread that runs a simulation. `os_shims!` puts them in the place of the C library's functions.

use crate::motors::ref_frames;
use crate::proto;
use crate::world::{run_until, Call, ErrKind, Ev, Fk, PortErr, RxByte, SimPort, MS, TIMEOUT_LIKE, US, W};
use dynamixel2::SerialPort;
use libc::{c_int, c_short};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::time::{Duration, Instant};

/// No simulation gets here.
const END: u64 = u64::MAX / 2;

/// Rates are permille per system call.
#[derive(Clone, Debug, Default)]
pub struct OsCfg {
	pub eintr: u32,
	pub short_r: u32,
	pub short_w: u32,
	/// EAGAIN although poll said that the file is ready.
	pub again: u32,
	/// The process is not scheduled for a while after the call.
	pub stall: u32,
	pub stall_max: u64,
	pub f_poll: u32,
	pub f_read: u32,
	pub f_write: u32,
	pub f_flush: u32,
	pub f_get: u32,
	pub f_set: u32,
	pub f_open: u32,
	/// The driver ignores new settings without an error.
	pub ignore_set: u32,
	/// The driver can only do rates that deviate by this many permille.
	pub round: i32,
	/// Bytes that the kernel takes before the line has transmitted them.
	pub queue: usize,
	/// Time that every call takes.
	pub cost: u64,
	/// A timeout of poll fires up to this much late.
	pub oversleep: u64,
	pub hup: bool,
	/// Output is never transmitted.
	pub stuck: bool,
	/// Failures of writes to files other than the terminal (only when a whole process is simulated).
	pub f_out: u32,
}

/// One system call on the simulated terminal.
#[derive(Clone, Debug)]
pub struct Sys {
	pub name: &'static str,
	/// Result, or the negative error number.
	pub ret: i64,
	/// A failure that the caller has to report.
	pub hard: bool,
}

pub struct Tty {
	pub cfg: OsCfg,
	pub fd: c_int,
	pub path: Vec<u8>,
	pub flags: c_int,
	pub termios: libc::termios2,
	/// Rate at the hardware.
	pub rate: u32,
	burst: Vec<u8>,
	gen: u64,
	/// System calls since `begin_call`.
	pub log: Vec<Sys>,
	pub calls: u64,
	pub clocks: u64,
	/// Time taken by the calls themselves, not by waiting for what was asked.
	pub slack: u64,
	/// Bytes taken from `write` since `begin_call`.
	pub accepted: Vec<u8>,
	/// Bytes of pending output that were thrown away.
	pub lost: usize,
	/// Why the call is considered to hang.
	pub hung: Option<&'static str>,
	eintrs: u32,
	pub opens: u32,
	/// Bytes written to the line, ever.
	pub sent: Vec<u8>,
	/// Bytes written elsewhere, and writes there that failed.
	pub out: u64,
	pub out_failed: u64,
}

pub struct Ctx {
	pub sim: W,
	pub port: usize,
	pub tty: RefCell<Tty>,
	base: (Instant, u64),
}

thread_local! {
	static CTX: RefCell<Option<Rc<Ctx>>> = const { RefCell::new(None) };
}

/// While this lives, the thread's system calls belong to the simulation.
pub struct Guard;

impl Drop for Guard {
	fn drop(&mut self) {
		let _ = CTX.try_with(|c| c.borrow_mut().take());
	}
}

/// The simulation of a whole process, which outlives the thread's variables.
static PROCESS: AtomicPtr<Ctx> = AtomicPtr::new(std::ptr::null_mut());

pub fn ctx() -> Option<Rc<Ctx>> {
	let p = PROCESS.load(Ordering::Relaxed);
	if !p.is_null() {
		// Only ever set in a process of one thread, and never freed.
		unsafe {
			Rc::increment_strong_count(p);
			return Some(Rc::from_raw(p));
		}
	}
	CTX.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}

/// From now on all system calls of this process belong to the simulation.
pub fn install_process(sim: &W, port: usize, cfg: OsCfg) -> Rc<Ctx> {
	let (c, g) = install(sim, port, cfg);
	drop(g);
	PROCESS.store(Rc::into_raw(c.clone()).cast_mut(), Ordering::Relaxed);
	c
}

fn whole_process() -> bool {
	!PROCESS.load(Ordering::Relaxed).is_null()
}

fn raw_termios(baud: u32) -> libc::termios2 {
	// What a terminal looks like when nobody has configured it.
	let mut t: libc::termios2 = unsafe { std::mem::zeroed() };
	t.c_iflag = libc::ICRNL | libc::IXON;
	t.c_oflag = libc::OPOST | libc::ONLCR;
	t.c_cflag = libc::BOTHER | libc::CS8 | libc::CREAD | libc::HUPCL | libc::CLOCAL;
	t.c_lflag = libc::ISIG | libc::ICANON | libc::ECHO | libc::IEXTEN;
	t.c_ispeed = baud;
	t.c_ospeed = baud;
	t
}

pub fn install(sim: &W, port: usize, cfg: OsCfg) -> (Rc<Ctx>, Guard) {
	let rate = sim.w.borrow().ports[port].baud;
	let dummy = Instant::now();
	let tty = Tty {
		cfg,
		fd: -1,
		path: vec![],
		flags: 0,
		termios: raw_termios(rate),
		rate,
		burst: vec![],
		gen: 0,
		log: vec![],
		calls: 0,
		clocks: 0,
		slack: 0,
		accepted: vec![],
		lost: 0,
		hung: None,
		eintrs: 0,
		opens: 0,
		sent: vec![],
		out: 0,
		out_failed: 0,
	};
	let make = |base, tty| Rc::new(Ctx { sim: sim.clone(), port, tty: RefCell::new(tty), base });
	// Learn which `Instant` the current simulated time is.
	let first = make((dummy, 0), tty);
	CTX.with(|c| *c.borrow_mut() = Some(first.clone()));
	let at = Instant::now();
	let base = (at, sim.w.borrow().now);
	CTX.with(|c| c.borrow_mut().take());
	let Ok(first) = Rc::try_unwrap(first) else { panic!("context in use") };
	let c = make(base, first.tty.into_inner());
	CTX.with(|x| *x.borrow_mut() = Some(c.clone()));
	(c, Guard)
}

impl Ctx {
	pub fn to_instant(&self, ns: u64) -> Instant {
		let (i, b) = self.base;
		if ns >= b {
			i + Duration::from_nanos(ns - b)
		} else {
			i - Duration::from_nanos(b - ns)
		}
	}

	pub fn from_instant(&self, t: Instant) -> u64 {
		let (i, b) = self.base;
		match t.checked_duration_since(i) {
			Some(d) => b.saturating_add(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX)).min(END),
			None => b.saturating_sub(i.duration_since(t).as_nanos() as u64),
		}
	}

	/// Start of a call of the adapter.
	pub fn begin_call(&self) {
		let t = &mut *self.tty.borrow_mut();
		t.log.clear();
		t.calls = 0;
		t.clocks = 0;
		t.slack = 0;
		t.accepted.clear();
		t.lost = 0;
	}

	fn now(&self) -> u64 {
		self.sim.w.borrow().now
	}

	fn spend(&self, d: u64) {
		self.tty.borrow_mut().slack += d;
		let t = self.now() + d;
		run_until(&self.sim, t);
	}

	fn chance(&self, permille: u32) -> bool {
		self.sim.w.borrow_mut().src.chance(permille)
	}

	fn fk(&self, k: Fk) {
		self.sim.w.borrow_mut().fk(k);
	}

	/// Every system call starts here; false if the caller is considered to hang.
	fn enter(&self) -> bool {
		let cost = {
			let mut t = self.tty.borrow_mut();
			t.calls += 1;
			if t.calls > 20_000 && t.hung.is_none() {
				t.hung = Some("20000 system calls in one call");
			}
			if t.hung.is_some() {
				return false;
			}
			t.cfg.cost
		};
		if cost > 0 {
			self.spend(cost);
		} else {
			let now = self.now();
			run_until(&self.sim, now);
		}
		true
	}

	fn leave(&self, name: &'static str, ret: i64, hard: bool) -> i64 {
		self.tty.borrow_mut().log.push(Sys { name, ret, hard });
		{
			let mut w = self.sim.w.borrow_mut();
			w.note(name, &ret.to_le_bytes(), || if ret < 0 { format!("-> error {}", errname(-ret as c_int)) } else { format!("-> {ret}") });
		}
		if hard {
			self.fk(Fk::SysErr);
		}
		let (rate, max) = {
			let t = self.tty.borrow();
			(t.cfg.stall, t.cfg.stall_max)
		};
		if self.chance(rate) {
			self.fk(Fk::Stall);
			let d = self.sim.w.borrow_mut().src.skewed(max);
			self.spend(d);
		}
		if ret < 0 {
			unsafe { *libc::__errno_location() = -ret as c_int };
			return -1;
		}
		ret
	}

	fn eintr(&self) -> bool {
		let (rate, n) = {
			let t = self.tty.borrow();
			(t.cfg.eintr, t.eintrs)
		};
		if n < 4 && self.chance(rate) {
			self.fk(Fk::Eintr);
			self.tty.borrow_mut().eintrs += 1;
			return true;
		}
		self.tty.borrow_mut().eintrs = 0;
		false
	}

	fn pick(&self, e: &[c_int]) -> i64 {
		-i64::from(self.sim.w.borrow_mut().src.pick(e))
	}

	/// Bytes of output that the line has not transmitted yet.
	fn pending(&self) -> usize {
		let t = self.tty.borrow();
		if t.cfg.stuck {
			return t.burst.len();
		}
		let w = self.sim.w.borrow();
		let left = w.tx_busy.saturating_sub(w.now);
		let byte = proto::transfer_ns(1, t.rate.max(1)).max(1);
		left.div_ceil(byte) as usize
	}

	fn room(&self) -> usize {
		let q = self.tty.borrow().cfg.queue;
		q.saturating_sub(self.pending())
	}

	fn poll(&self, want: c_short, timeout: c_int) -> (i64, c_short, bool) {
		let c = self.tty.borrow().cfg.clone();
		if self.chance(c.f_poll) {
			return (self.pick(&[libc::EIO, libc::ENOMEM, libc::EINVAL]), 0, true);
		}
		let start = self.now();
		let limit = if timeout < 0 { u64::MAX } else { start.saturating_add(timeout as u64 * MS) };
		let mut intr = None;
		loop {
			let mut ready = 0;
			if want & libc::POLLIN != 0 && (!self.sim.w.borrow().ports[self.port].rx.is_empty() || c.hup) {
				ready |= libc::POLLIN;
			}
			if want & libc::POLLOUT != 0 && (self.room() > 0 || c.hup) {
				ready |= libc::POLLOUT;
			}
			if c.hup {
				ready |= libc::POLLHUP;
			}
			if ready != 0 {
				return (1, ready, false);
			}
			let now = self.now();
			if now >= limit {
				if c.oversleep > 0 {
					let d = self.sim.w.borrow_mut().src.skewed(c.oversleep);
					self.spend(d);
				}
				return (0, 0, false);
			}
			if intr.is_none() {
				intr = Some(if self.eintr() {
					let mut w = self.sim.w.borrow_mut();
					let max = (limit - now).min(200 * MS);
					now + w.src.below(max)
				} else {
					u64::MAX
				});
			}
			let i = intr.unwrap_or(u64::MAX);
			let mut next = limit.min(i);
			if let Some(t) = self.sim.w.borrow().next_event() {
				next = next.min(t.max(now));
			}
			if want & libc::POLLOUT != 0 && !c.stuck {
				let byte = proto::transfer_ns(1, self.tty.borrow().rate.max(1)).max(1);
				next = next.min(now + byte);
			}
			if next == u64::MAX {
				self.tty.borrow_mut().hung = Some("waits forever for something that never happens");
				return (-i64::from(libc::EBADF), 0, false);
			}
			if i <= next {
				run_until(&self.sim, i);
				return (-i64::from(libc::EINTR), 0, false);
			}
			run_until(&self.sim, next);
		}
	}

	fn read(&self, buf: &mut [u8]) -> (i64, bool) {
		let c = self.tty.borrow().cfg.clone();
		if self.eintr() {
			return (-i64::from(libc::EINTR), false);
		}
		if self.chance(c.f_read) {
			return (self.pick(&[libc::EIO, libc::ENXIO, libc::ENODEV]), true);
		}
		if c.hup {
			self.fk(Fk::HangUp);
			return (0, false);
		}
		if buf.is_empty() {
			return (0, false);
		}
		let avail = self.sim.w.borrow().ports[self.port].rx.len();
		if avail == 0 || self.chance(c.again) {
			self.fk(Fk::Again);
			return (-i64::from(libc::EAGAIN), false);
		}
		let mut n = avail.min(buf.len());
		if n > 1 && self.chance(c.short_r) {
			let k = self.sim.w.borrow_mut().src.skewed(n as u64 - 2) as usize;
			n -= k + 1;
		}
		let mut w = self.sim.w.borrow_mut();
		if n < avail {
			w.fk(Fk::Fragment);
		}
		let p = &mut w.ports[self.port];
		for slot in buf.iter_mut().take(n) {
			let x: RxByte = p.rx.pop_front().unwrap();
			*slot = x.b;
			p.got.push(x);
		}
		(n as i64, false)
	}

	fn write(&self, buf: &[u8]) -> (i64, bool) {
		let c = self.tty.borrow().cfg.clone();
		if self.eintr() {
			return (-i64::from(libc::EINTR), false);
		}
		if self.chance(c.f_write) {
			return (self.pick(&[libc::EIO, libc::ENXIO, libc::ENODEV]), true);
		}
		if c.hup {
			self.fk(Fk::HangUp);
			return (-i64::from(libc::EIO), true);
		}
		if buf.is_empty() {
			return (0, false);
		}
		let room = self.room();
		if room == 0 || self.chance(c.again) {
			self.fk(Fk::Again);
			return (-i64::from(libc::EAGAIN), false);
		}
		let mut n = room.min(buf.len());
		if n > 1 && self.chance(c.short_w) {
			let k = self.sim.w.borrow_mut().src.skewed(n as u64 - 2) as usize;
			n -= k + 1;
		}
		if n < buf.len() {
			self.fk(Fk::ShortWrite);
		}
		let mut t = self.tty.borrow_mut();
		t.accepted.extend_from_slice(&buf[..n]);
		t.sent.extend_from_slice(&buf[..n]);
		t.burst.extend_from_slice(&buf[..n]);
		t.gen += 1;
		let mut w = self.sim.w.borrow_mut();
		w.note("os write", &buf[..n], || proto::hex(&buf[..n]));
		if !c.stuck {
			let end = w.now.max(w.tx_busy) + proto::transfer_ns(n as u64, t.rate.max(1));
			w.tx_busy = end;
			let gen = t.gen;
			w.at(end, Ev::Os { gen, idle: false });
		}
		(n as i64, false)
	}

	fn drain(&self) {
		if self.tty.borrow().cfg.stuck {
			return;
		}
		let t = self.sim.w.borrow().tx_busy;
		let now = self.now();
		if t > now {
			self.tty.borrow_mut().slack += t - now;
			run_until(&self.sim, t);
		}
	}

	fn flush(&self, which: c_int) -> (i64, bool) {
		let rate = self.tty.borrow().cfg.f_flush;
		if self.chance(rate) {
			return (self.pick(&[libc::EIO, libc::ENOTTY]), true);
		}
		match which {
			libc::TCIFLUSH | libc::TCOFLUSH | libc::TCIOFLUSH => {},
			_ => return (-i64::from(libc::EINVAL), true),
		}
		if which != libc::TCOFLUSH {
			let mut w = self.sim.w.borrow_mut();
			let n = w.ports[self.port].rx.len();
			if n > 0 {
				w.fk(Fk::StaleBytes);
			}
			w.ports[self.port].rx.clear();
		}
		if which != libc::TCIFLUSH {
			let n = self.pending();
			let mut t = self.tty.borrow_mut();
			let keep = t.burst.len().saturating_sub(n);
			t.burst.truncate(keep);
			t.lost += n;
			let mut w = self.sim.w.borrow_mut();
			w.tx_busy = w.tx_busy.min(w.now);
		}
		(0, false)
	}

	fn get(&self) -> libc::termios2 {
		self.tty.borrow().termios
	}

	fn set(&self, new: &libc::termios2, req: libc::c_ulong) -> (i64, bool) {
		if req != libc::TCSETS2 as libc::c_ulong {
			self.drain();
		}
		let c = self.tty.borrow().cfg.clone();
		if self.chance(c.f_set) {
			return (self.pick(&[libc::EIO, libc::EINVAL]), true);
		}
		if self.chance(c.ignore_set) {
			self.fk(Fk::BaudErr);
			return (0, false);
		}
		if req == libc::TCSETSF2 as libc::c_ulong {
			self.sim.w.borrow_mut().ports[self.port].rx.clear();
		}
		let left = {
			let (w, t) = (self.sim.w.borrow(), self.tty.borrow());
			let byte = proto::transfer_ns(1, t.rate.max(1)).max(1);
			w.tx_busy.saturating_sub(w.now).div_ceil(byte)
		};
		let mut t = self.tty.borrow_mut();
		let mut n = *new;
		let rate = match n.c_cflag & libc::CBAUD {
			libc::BOTHER => n.c_ospeed,
			b => BAUDS.iter().find(|x| x.0 == b).map_or(0, |x| x.1),
		};
		let rate = (i64::from(rate) + i64::from(rate) * i64::from(c.round) / 1000) as u32;
		n.c_ospeed = rate;
		n.c_ispeed = rate;
		t.termios = n;
		t.rate = rate;
		let mut w = self.sim.w.borrow_mut();
		w.ports[self.port].baud = rate.max(1);
		// What is still to be transmitted goes out at the new rate.
		if left > 0 {
			let end = w.now + proto::transfer_ns(left, rate.max(1));
			w.tx_busy = end;
			t.gen += 1;
			let gen = t.gen;
			w.at(end, Ev::Os { gen, idle: false });
		}
		w.note("os rate", &rate.to_le_bytes(), || format!("{rate}"));
		(0, false)
	}

	/// The terminal is raw, 8 data bits, no parity, 1 stop bit, without flow control, at this rate.
	pub fn is_raw(&self, rate: u32) -> Result<(), String> {
		let t = self.tty.borrow();
		let m = &t.termios;
		let bad_i = libc::BRKINT | libc::PARMRK | libc::ISTRIP | libc::INLCR | libc::IGNCR | libc::ICRNL | libc::IXON | libc::IXOFF;
		if m.c_iflag & bad_i != 0 {
			return Err(format!("input flags are 0o{:o}", m.c_iflag));
		}
		if m.c_oflag & libc::OPOST != 0 {
			return Err(format!("output flags are 0o{:o}", m.c_oflag));
		}
		if m.c_lflag & (libc::ICANON | libc::ECHO | libc::ECHONL | libc::ISIG | libc::IEXTEN) != 0 {
			return Err(format!("local flags are 0o{:o}", m.c_lflag));
		}
		let c = m.c_cflag;
		if c & libc::CSIZE != libc::CS8 || c & (libc::PARENB | libc::CSTOPB | libc::CRTSCTS) != 0 || c & libc::CREAD == 0 {
			return Err(format!("control flags are 0o{c:o}"));
		}
		if t.rate != rate {
			return Err(format!("the rate is {}, expected {rate}", t.rate));
		}
		Ok(())
	}
}

const BAUDS: [(libc::tcflag_t, u32); 16] = [
	(libc::B300, 300),
	(libc::B1200, 1200),
	(libc::B9600, 9600),
	(libc::B19200, 19200),
	(libc::B38400, 38400),
	(libc::B57600, 57600),
	(libc::B115200, 115_200),
	(libc::B230400, 230_400),
	(libc::B460800, 460_800),
	(libc::B500000, 500_000),
	(libc::B921600, 921_600),
	(libc::B1000000, 1_000_000),
	(libc::B2000000, 2_000_000),
	(libc::B3000000, 3_000_000),
	(libc::B3500000, 3_500_000),
	(libc::B4000000, 4_000_000),
];

pub fn errname(e: c_int) -> String {
	match e {
		libc::EINTR => "EINTR".into(),
		libc::EIO => "EIO".into(),
		libc::ENXIO => "ENXIO".into(),
		libc::ENODEV => "ENODEV".into(),
		libc::EAGAIN => "EAGAIN".into(),
		libc::EBADF => "EBADF".into(),
		libc::EINVAL => "EINVAL".into(),
		libc::ENOMEM => "ENOMEM".into(),
		libc::ENOTTY => "ENOTTY".into(),
		libc::ENOENT => "ENOENT".into(),
		libc::EACCES => "EACCES".into(),
		libc::EBUSY => "EBUSY".into(),
		e => format!("{e}"),
	}
}

/// The line has transmitted everything that had been written when generation `gen` was written.
pub fn on_tx(sim: &W, gen: u64, idle: bool) {
	let Some(c) = ctx() else { return };
	let mut t = c.tty.borrow_mut();
	if t.gen != gen || t.burst.is_empty() {
		return;
	}
	let whole = ref_frames(&t.burst).last().is_some_and(|p| p.start + p.len == t.burst.len());
	let mut w = sim.w.borrow_mut();
	if whole || idle {
		let bytes = std::mem::take(&mut t.burst);
		let now = w.now;
		w.at(now, Ev::Line { from: None, bytes });
	} else {
		// Motors wait a little for the rest.
		let at = w.now + 20 * MS;
		w.at(at, Ev::Os { gen, idle: true });
	}
}

fn mine(fd: c_int) -> Option<Rc<Ctx>> {
	let c = ctx()?;
	let f = c.tty.try_borrow().ok()?.fd;
	if f == fd && fd >= 0 {
		Some(c)
	} else {
		None
	}
}

/// # Safety
/// Like poll(2). None: not ours.
pub unsafe fn sys_poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> Option<c_int> {
	if n != 1 || fds.is_null() {
		return None;
	}
	let c = mine((*fds).fd)?;
	if !c.enter() {
		*libc::__errno_location() = libc::EBADF;
		return Some(-1);
	}
	let (r, ev, hard) = c.poll((*fds).events, timeout);
	(*fds).revents = ev;
	Some(c.leave("poll", r, hard) as c_int)
}

/// # Safety
/// Like read(2).
pub unsafe fn sys_read(fd: c_int, buf: *mut u8, n: usize) -> Option<isize> {
	let c = mine(fd)?;
	if !c.enter() {
		*libc::__errno_location() = libc::EBADF;
		return Some(-1);
	}
	let b: &mut [u8] = if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(buf, n) };
	let (r, hard) = c.read(b);
	Some(c.leave("read(2)", r, hard) as isize)
}

/// # Safety
/// Like write(2).
pub unsafe fn sys_write(fd: c_int, buf: *const u8, n: usize) -> Option<isize> {
	if whole_process() && mine(fd).is_none() {
		return sys_write_other(fd, buf, n);
	}
	let c = mine(fd)?;
	if !c.enter() {
		*libc::__errno_location() = libc::EBADF;
		return Some(-1);
	}
	let b: &[u8] = if n == 0 { &[] } else { std::slice::from_raw_parts(buf, n) };
	let (r, hard) = c.write(b);
	Some(c.leave("write(2)", r, hard) as isize)
}

/// Output of a simulated process to anything but the terminal.
unsafe fn sys_write_other(fd: c_int, buf: *const u8, n: usize) -> Option<isize> {
	let c = ctx()?;
	let rate = {
		let mut t = c.tty.try_borrow_mut().ok()?;
		t.out += n as u64;
		if t.out > 1 << 20 {
			libc::raise(libc::SIGABRT);
		}
		t.cfg.f_out
	};
	if rate == 0 || c.sim.w.try_borrow_mut().is_err() {
		return None;
	}
	if c.chance(rate / 2) && n > 1 {
		c.fk(Fk::ShortWrite);
		let k = 1 + c.sim.w.borrow_mut().src.skewed(n as u64 - 2) as usize;
		return Some(libc::syscall(libc::SYS_write, fd, buf, k) as isize);
	}
	if c.chance(rate / 4) {
		c.fk(Fk::Eintr);
		*libc::__errno_location() = libc::EINTR;
		return Some(-1);
	}
	if c.chance(rate) {
		c.fk(Fk::SysErr);
		let e = c.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE]);
		c.tty.borrow_mut().out_failed += 1;
		*libc::__errno_location() = -e as c_int;
		return Some(-1);
	}
	None
}

/// Like tcflush(3).
pub fn sys_tcflush(fd: c_int, which: c_int) -> Option<c_int> {
	let c = mine(fd)?;
	if !c.enter() {
		return Some(-1);
	}
	let (r, hard) = c.flush(which);
	Some(c.leave("tcflush", r, hard) as c_int)
}

/// Like tcdrain(3).
pub fn sys_tcdrain(fd: c_int) -> Option<c_int> {
	let c = mine(fd)?;
	if !c.enter() {
		return Some(-1);
	}
	c.drain();
	Some(c.leave("tcdrain", 0, false) as c_int)
}

/// # Safety
/// Like ioctl(2).
pub unsafe fn sys_ioctl(fd: c_int, req: libc::c_ulong, arg: *mut libc::c_void) -> Option<c_int> {
	let c = mine(fd)?;
	if !c.enter() {
		*libc::__errno_location() = libc::EBADF;
		return Some(-1);
	}
	let (name, (r, hard)) = match req {
		libc::TCGETS2 => {
			let rate = c.tty.borrow().cfg.f_get;
			if c.chance(rate) {
				("get settings", (c.pick(&[libc::EIO, libc::ENOTTY]), true))
			} else {
				*arg.cast::<libc::termios2>() = c.get();
				("get settings", (0, false))
			}
		},
		libc::TCSETS2 | libc::TCSETSW2 | libc::TCSETSF2 => ("set settings", c.set(&*arg.cast::<libc::termios2>(), req)),
		libc::TCFLSH => ("tcflush", c.flush(arg as usize as c_int)),
		libc::FIONREAD => {
			*arg.cast::<c_int>() = c.sim.w.borrow().ports[c.port].rx.len() as c_int;
			("input size", (0, false))
		},
		libc::TIOCOUTQ => {
			*arg.cast::<c_int>() = c.pending() as c_int;
			("output size", (0, false))
		},
		_ => ("ioctl", (-i64::from(libc::ENOTTY), false)),
	};
	Some(c.leave(name, r, hard) as c_int)
}

/// Names below this prefix are simulated terminals.
pub const PREFIX: &[u8] = b"/sim-tty/";

/// The terminal that a simulated process opens unless told otherwise.
pub const DEFAULT_PORT: &[u8] = b"/dev/ttyUSB0";

/// # Safety
/// Like open(2).
pub unsafe fn sys_open(path: *const libc::c_char, flags: c_int) -> Option<c_int> {
	let c = ctx()?;
	let p = std::ffi::CStr::from_ptr(path).to_bytes();
	if !p.starts_with(PREFIX) && !(whole_process() && p == DEFAULT_PORT) {
		return None;
	}
	if !c.enter() {
		*libc::__errno_location() = libc::EBADF;
		return Some(-1);
	}
	let rate = c.tty.borrow().cfg.f_open;
	if c.chance(rate) {
		let e = c.pick(&[libc::ENOENT, libc::EACCES, libc::EBUSY]);
		return Some(c.leave("open", e, true) as c_int);
	}
	// A real file, so that the number is ours and closing it is harmless.
	let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC) as c_int;
	if fd < 0 {
		return Some(-1);
	}
	{
		let t = &mut *c.tty.borrow_mut();
		t.fd = fd;
		t.path = p.to_vec();
		t.flags = flags;
		t.opens += 1;
	}
	// Not the number: it depends on what else is open.
	c.leave("open", 0, false);
	Some(fd)
}

/// Simulated time for the clocks; None if this thread is not in a simulation.
pub fn sys_clock() -> Option<u64> {
	let c = ctx()?;
	// Looking at the clock takes some time, so that nobody can wait for it forever in no time.
	{
		let mut t = c.tty.try_borrow_mut().ok()?;
		t.clocks += 1;
		let d = if t.clocks > 5_000_000 { MS } else { 20 };
		t.slack += d;
		drop(t);
		let to = c.sim.w.try_borrow().ok()?.now + d;
		run_until(&c.sim, to);
	}
	let t = c.now();
	Some(t)
}

/// Sleep in simulated time.
pub fn sys_sleep(ns: u64) -> Option<()> {
	let c = ctx()?;
	let to = c.now().saturating_add(ns.max(US));
	c.tty.borrow_mut().slack += 0;
	run_until(&c.sim, to);
	Some(())
}

/// Put the simulated system calls in the place of the C library's.
#[macro_export]
macro_rules! os_shims {
	() => {
		mod os_shims {
			use $crate::libc::{self, c_char, c_int, c_long, c_ulong, c_void};
			use $crate::os;

			#[no_mangle]
			unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
				match os::sys_poll(fds, n, timeout) {
					Some(r) => r,
					None => libc::syscall(libc::SYS_poll, fds, n, timeout) as c_int,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
				match os::sys_read(fd, buf.cast(), n) {
					Some(r) => r,
					None => libc::syscall(libc::SYS_read, fd, buf, n) as isize,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
				match os::sys_write(fd, buf.cast(), n) {
					Some(r) => r,
					None => libc::syscall(libc::SYS_write, fd, buf, n) as isize,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
				match os::sys_ioctl(fd, req, arg) {
					Some(r) => r,
					None => libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn tcflush(fd: c_int, which: c_int) -> c_int {
				match os::sys_tcflush(fd, which) {
					Some(r) => r,
					None => libc::syscall(libc::SYS_ioctl, fd, libc::TCFLSH, which as c_long) as c_int,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn tcdrain(fd: c_int) -> c_int {
				match os::sys_tcdrain(fd) {
					Some(r) => r,
					None => libc::syscall(libc::SYS_ioctl, fd, libc::TCSBRK, 1 as c_long) as c_int,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
				match os::sys_open(path, flags) {
					Some(r) => r,
					None => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
				open64(path, flags, mode)
			}
			#[no_mangle]
			unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
				match os::sys_clock() {
					Some(ns) => {
						(*ts).tv_sec = (ns / 1_000_000_000) as _;
						(*ts).tv_nsec = (ns % 1_000_000_000) as _;
						0
					},
					None => libc::syscall(libc::SYS_clock_gettime, clock, ts) as c_int,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
				match os::sys_sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64) {
					Some(()) => 0,
					None => libc::syscall(libc::SYS_nanosleep, t, rem) as c_int,
				}
			}
			#[no_mangle]
			unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
				let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
				let ns = if flags & libc::TIMER_ABSTIME != 0 { os::until(ns) } else { ns };
				match os::sys_sleep(ns) {
					Some(()) => 0,
					None => {
						let r = libc::syscall(libc::SYS_clock_nanosleep, clock, flags, t, rem) as c_int;
						if r < 0 {
							*libc::__errno_location()
						} else {
							0
						}
					},
				}
			}
		}
	};
}

/// Time from now until an absolute time of the simulated clock.
pub fn until(ns: u64) -> u64 {
	ctx().map_or(0, |c| ns.saturating_sub(c.now()))
}

type Adapter = serial2::SerialPort;
type Os = std::io::Error;

/// The number by which a failure of the adapter is known to the rest of the simulation.
fn number(e: &Os) -> u32 {
	e.raw_os_error().map_or(100_000 + e.kind() as u32, |x| x as u32)
}

fn wrap(kind: ErrKind, e: &Os) -> PortErr {
	let timeout = <Adapter as SerialPort>::is_timeout_error(e);
	if kind == ErrKind::Read {
		if timeout {
			return PortErr { kind: ErrKind::Timeout, nr: 0 };
		}
		return PortErr { kind, nr: number(e) };
	}
	PortErr { kind, nr: number(e) | if timeout { TIMEOUT_LIKE } else { 0 } }
}

/// The adapter under test, each call checked against what the simulated kernel knows.
impl SimPort {
	/// Open the simulated terminal through `serial2`.
	pub fn open_os(sim: &W, idx: usize, baud: u32) -> std::io::Result<SimPort> {
		let p = Adapter::open("/sim-tty/0", baud)?;
		Ok(SimPort { sim: sim.clone(), idx, os: Some(Box::new(p)) })
	}

	fn os_ctx(&self) -> Rc<Ctx> {
		ctx().expect("no simulated system")
	}

	fn os_fail(&self, msg: String) {
		self.sim.w.borrow_mut().fail("C15", msg);
	}

	/// Checks that hold for every call that can fail.
	fn os_result(&self, what: &str, c: &Ctx, err: Option<&Os>) {
		let t = c.tty.borrow();
		if let Some(h) = t.hung {
			drop(t);
			self.os_fail(format!("{what} hangs: {h}"));
			return;
		}
		// Interrupted calls are restarted; the kernel may refuse for a moment; everything else is a failure.
		let hard: Vec<i64> = t.log.iter().filter(|s| s.hard).map(|s| -s.ret).collect();
		let again = t.log.iter().any(|s| s.ret == -i64::from(libc::EAGAIN));
		let names = || t.log.iter().map(|s| format!("{} {}", s.name, if s.ret < 0 { errname(-s.ret as c_int) } else { s.ret.to_string() })).collect::<Vec<_>>().join(", ");
		let msg = match err {
			None => hard.first().map(|e| format!("{what} succeeds although a system call failed with {}: {}", errname(*e as c_int), names())),
			Some(e) => match (e.raw_os_error(), hard.first()) {
				(Some(x), Some(h)) if i64::from(x) == *h => None,
				(Some(x), Some(h)) => Some(format!("{what} reports {} instead of {}: {}", errname(x), errname(*h as c_int), names())),
				(None, Some(h)) => Some(format!("{what} reports {e} instead of {}: {}", errname(*h as c_int), names())),
				(Some(libc::EAGAIN), None) if again => None,
				(Some(x), None) => Some(format!("{what} fails with {} although no system call failed in a way that it has to report: {}", errname(x), names())),
				(None, None) => None,
			},
		};
		drop(t);
		if let Some(m) = msg {
			self.os_fail(m);
		}
	}

	pub(crate) fn os_baud_rate(&self) -> Result<u32, PortErr> {
		let c = self.os_ctx();
		c.begin_call();
		let r = SerialPort::baud_rate(self.os.as_deref().unwrap());
		self.os_result("baud_rate", &c, r.as_ref().err());
		if let Ok(b) = r {
			let rate = c.tty.borrow().rate;
			if b != rate {
				self.os_fail(format!("baud_rate is {b}, but the port runs at {rate}"));
			}
		}
		r.map_err(|e| wrap(ErrKind::GetBaud, &e))
	}

	pub(crate) fn os_set_baud_rate(&mut self, baud: u32) -> Result<(), PortErr> {
		let c = self.os_ctx();
		c.begin_call();
		let (before, got0) = (c.get(), self.sim.w.borrow().ports[self.idx].rx.len());
		self.sim.w.borrow_mut().note("set_baud", &baud.to_le_bytes(), || format!("{baud}"));
		let r = SerialPort::set_baud_rate(self.os.as_deref_mut().unwrap(), baud);
		self.os_result("set_baud_rate", &c, r.as_ref().err());
		let (after, rate, round, ignores) = {
			let t = c.tty.borrow();
			(t.termios, t.rate, t.cfg.round, t.cfg.ignore_set > 0)
		};
		let off = u64::from(rate.abs_diff(baud)) * 1000;
		match &r {
			Ok(()) => {
				let ok = if round == 0 && !ignores { rate == baud } else { off <= u64::from(baud) * 26 };
				if !ok {
					self.os_fail(format!("set_baud_rate({baud}) succeeds, but the port runs at {rate}"));
				}
			},
			Err(e) if e.raw_os_error().is_none() && !ignores && off <= u64::from(baud) * 24 => {
				self.os_fail(format!("set_baud_rate({baud}) fails with {e} although the port runs at {rate}"));
			},
			Err(_) => {},
		}
		let keep = |t: &libc::termios2| (t.c_iflag, t.c_oflag, t.c_lflag, t.c_cflag & !(libc::CBAUD | libc::CIBAUD), t.c_cc, t.c_line);
		if keep(&before) != keep(&after) {
			self.os_fail("set_baud_rate changed other settings".into());
		}
		if self.sim.w.borrow().ports[self.idx].rx.len() < got0 {
			self.os_fail("set_baud_rate threw received bytes away".into());
		}
		let t = c.tty.borrow();
		if t.lost > 0 || !t.accepted.is_empty() {
			drop(t);
			self.os_fail("set_baud_rate touched the output".into());
		}
		let mut w = self.sim.w.borrow_mut();
		let (ok, nr) = (r.is_ok(), r.as_ref().err().map_or(0, number));
		w.ports[self.idx].calls.push(Call::SetBaud { baud, ok, nr });
		r.map_err(|e| wrap(ErrKind::SetBaud, &e))
	}

	pub(crate) fn os_discard(&mut self) -> Result<(), PortErr> {
		let c = self.os_ctx();
		c.begin_call();
		let n0 = {
			let now = c.now();
			run_until(&self.sim, now);
			self.sim.w.borrow().ports[self.idx].rx.len()
		};
		let r = SerialPort::discard_input_buffer(self.os.as_deref_mut().unwrap());
		self.os_result("discard_input_buffer", &c, r.as_ref().err());
		let left = self.sim.w.borrow().ports[self.idx].rx.iter().take(n0).filter(|b| b.at + c.tty.borrow().slack < c.now()).count();
		if r.is_ok() && left > 0 && n0 > 0 {
			self.os_fail(format!("discard_input_buffer succeeds, but {left} of {n0} bytes are still there"));
		}
		let lost = c.tty.borrow().lost;
		if lost > 0 {
			self.os_fail(format!("discard_input_buffer threw {lost} bytes of pending output away"));
		}
		let mut w = self.sim.w.borrow_mut();
		w.note("discard", &[n0 as u8], || format!("{n0} bytes: {r:?}"));
		let nr = r.as_ref().err().map_or(0, number);
		w.ports[self.idx].calls.push(Call::Discard { ok: r.is_ok(), nr });
		r.map_err(|e| wrap(ErrKind::Discard, &e))
	}

	pub(crate) fn os_read(&mut self, buffer: &mut [u8], deadline: u64) -> Result<usize, PortErr> {
		let c = self.os_ctx();
		c.begin_call();
		let start = c.now();
		run_until(&self.sim, start);
		let got0 = self.sim.w.borrow().ports[self.idx].got.len();
		let inst = c.to_instant(deadline);
		let r = SerialPort::read(self.os.as_deref_mut().unwrap(), buffer, &inst);
		let end = c.now();
		let slack = c.tty.borrow().slack;
		self.os_result("read", &c, r.as_ref().err().filter(|e| !<Adapter as SerialPort>::is_timeout_error(e)));
		let (got, front) = {
			let w = self.sim.w.borrow();
			let p = &w.ports[self.idx];
			(p.got[got0..].to_vec(), p.rx.front().copied())
		};
		let hung = c.tty.borrow().hung.is_some();
		match &r {
			_ if hung => {},
			Ok(n) => {
				if *n != got.len() || buffer.get(..*n).is_none_or(|b| b.iter().zip(&got).any(|(x, y)| *x != y.b)) {
					self.os_fail(format!("read returns {n} bytes, but took {} from the port, or other ones", got.len()));
				}
				if *n == 0 && !buffer.is_empty() && !c.tty.borrow().cfg.hup {
					self.os_fail("read returns 0 bytes of an open port".into());
				}
				if let Some(b) = got.first() {
					if end > start.max(b.at) + slack {
						self.os_fail(format!("read returns {} us after the first byte was available", (end - start.max(b.at)) / 1000));
					}
				}
				if end > start.max(deadline) + slack {
					self.os_fail(format!("read returns {} us after its deadline", (end - deadline) / 1000));
				}
			},
			Err(e) => {
				if !got.is_empty() {
					self.os_fail(format!("read fails with {e} and loses {} bytes", got.len()));
				}
				if end > start.max(deadline) + slack {
					self.os_fail(format!("read fails {} us after its deadline: {e}", (end - deadline) / 1000));
				}
				if <Adapter as SerialPort>::is_timeout_error(e) {
					if c.tty.borrow().log.iter().any(|s| s.hard) {
						self.os_fail("read turns a failed system call into a timeout".into());
					}
					if end + MS <= deadline {
						self.os_fail(format!("read times out {} us before its deadline", (deadline - end) / 1000));
					}
					// Data that was there in time is to be returned, unless the deadline had passed before the call.
					if let Some(b) = front {
						if start < deadline && b.at.max(start) + slack + MS < deadline && !buffer.is_empty() {
							self.os_fail(format!("read times out although data arrived {} us before its deadline", (deadline - b.at.max(start)) / 1000));
						}
					}
				} else if e.raw_os_error().is_none() {
					self.os_fail(format!("read fails with {e}, which is no system error"));
				}
			},
		}
		let res = r.map_err(|e| wrap(ErrKind::Read, &e));
		let mut w = self.sim.w.borrow_mut();
		if matches!(res, Err(PortErr { kind: ErrKind::Timeout, .. })) {
			w.fk(Fk::Timeout);
		}
		match &res {
			Ok(n) => {
				let b = &buffer[..(*n).min(buffer.len())];
				w.note("read", b, || format!("-> {} bytes: {}", n, proto::hex(b)));
			},
			Err(e) => w.note("read", &[], || format!("-> {e}")),
		}
		w.ports[self.idx].reads += 1;
		w.ports[self.idx].calls.push(Call::Read { res, deadline, start, end, cap: buffer.len() });
		res
	}

	pub(crate) fn os_write_all(&mut self, buffer: &[u8]) -> Result<(), PortErr> {
		let c = self.os_ctx();
		c.begin_call();
		let start = c.now();
		let r = SerialPort::write_all(self.os.as_deref_mut().unwrap(), buffer);
		let end = c.now();
		let stuck = c.tty.borrow().cfg.stuck;
		// A port that takes nothing for long may be reported as a timeout.
		let stalled = matches!(&r, Err(e) if e.kind() == std::io::ErrorKind::TimedOut && stuck);
		self.os_result("write_all", &c, r.as_ref().err().filter(|_| !stalled));
		let (taken, lost) = {
			let t = c.tty.borrow();
			(t.accepted.clone(), t.lost)
		};
		if !buffer.starts_with(&taken) {
			self.os_fail(format!("write_all({}) sends {}", proto::hex(buffer), proto::hex(&taken)));
		} else if r.is_ok() && taken.len() != buffer.len() && c.tty.borrow().hung.is_none() {
			self.os_fail(format!("write_all succeeds after {} of {} bytes", taken.len(), buffer.len()));
		} else if lost > 0 {
			self.os_fail(format!("write_all threw {lost} bytes of pending output away"));
		}
		if let Err(e) = &r {
			if e.raw_os_error().is_none() && !stalled && c.tty.borrow().hung.is_none() {
				self.os_fail(format!("write_all fails with {e}, which is no system error"));
			}
		}
		let mut w = self.sim.w.borrow_mut();
		w.note("write", buffer, || format!("{r:?}: {} bytes: {}", buffer.len(), proto::hex(buffer)));
		let nr = r.as_ref().err().map_or(0, number);
		w.ports[self.idx].calls.push(Call::Write { bytes: buffer.to_vec(), ok: r.is_ok(), nr, start, end });
		drop(w);
		r.map_err(|e| wrap(ErrKind::Write, &e))
	}

	pub(crate) fn os_make_deadline(&self, timeout: Duration) -> u64 {
		let c = self.os_ctx();
		c.begin_call();
		let t0 = c.now();
		let d = c.from_instant(SerialPort::make_deadline(self.os.as_deref().unwrap(), timeout));
		let t1 = c.now();
		// What is too long for a point in time is far away at least.
		let (ns, most) = match u64::try_from(timeout.as_nanos()) {
			Ok(ns) => (ns, ns),
			Err(_) => (20 * 365 * 86_400 * 1000 * MS, u64::MAX),
		};
		if d < t0.saturating_add(ns) || d > t1.saturating_add(most) {
			self.os_fail(format!("a deadline in {timeout:?} is {} ns away", d as i64 - t0 as i64));
		}
		d
	}
}
