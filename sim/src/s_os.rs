//! C15: the adapter for real serial ports on a simulated operating system.

use crate::bench::{self, Bench, Setup};
use crate::motors::LineFaults;
use crate::ops::{self, Op};
use crate::os::{self, Ctx, OsCfg};
use crate::proto;
use crate::s_dev;
use crate::s_model::step;
use crate::s_wire;
use crate::world::{run_until, Ev, Fk, PortCfg, SimPort, MS, US, W};
use dynamixel2::{Client, Device, ReadError, SerialPort as _, WriteError};
use std::rc::Rc;
use std::time::Duration;

type Adapter = serial2::SerialPort;
const YEAR: u64 = 365 * 24 * 3600 * 1000 * MS;

pub(crate) fn failed(sim: &W) -> bool {
	!sim.w.borrow().fails.is_empty()
}

/// Everything that a healthy system may do.
pub(crate) fn benign(w: &mut crate::world::World) -> OsCfg {
	let s = &mut w.src;
	s.begin();
	let c = OsCfg {
		eintr: s.pick(&[0, 0, 100, 400]),
		short_r: s.pick(&[0, 300, 900]),
		short_w: s.pick(&[0, 300, 900]),
		queue: match s.weighted(&[3, 2, 2]) {
			0 => 4096,
			1 => s.us(1, 16),
			_ => s.us(1, 300),
		},
		cost: s.pick(&[0, 1, 5]) * US,
		oversleep: s.pick(&[0, 0, 50 * US, 3 * MS]),
		..Default::default()
	};
	s.end();
	c
}

pub(crate) fn fault(w: &mut crate::world::World, c: &mut OsCfg) {
	let s = &mut w.src;
	match s.weighted(&[3, 2, 2, 2, 2, 2, 1, 1, 2]) {
		0 => {},
		1 => c.f_poll = 200,
		2 => c.f_read = 300,
		3 => c.f_write = 300,
		4 => c.f_flush = 400,
		5 => {
			c.f_get = 300;
			c.f_set = 300;
		},
		6 => c.again = 200,
		7 => {
			c.hup = true;
			c.cost = c.cost.max(20 * US);
		},
		_ => {
			(c.f_poll, c.f_read, c.f_write, c.f_flush, c.f_get, c.f_set, c.again) = (30, 30, 30, 50, 50, 50, 20);
		},
	}
	if s.chance(200) {
		c.stall = 50;
		c.stall_max = s.pick(&[MS, 40 * MS, 500 * MS]);
	}
}

/// Calm: no faults, but whatever is harmless stays.
pub(crate) fn calm(c: &mut OsCfg) {
	(c.f_poll, c.f_read, c.f_write, c.f_flush, c.f_get, c.f_set, c.f_open) = (0, 0, 0, 0, 0, 0, 0);
	(c.again, c.stall, c.ignore_set, c.hup) = (0, 0, 0, false);
}

/// A healthy bus behind the operating system.
fn os_bench(sim: &W, s: &Setup) -> Option<(Bench, Rc<Ctx>, os::Guard)> {
	let (baud, rbuf, wbuf, ids, lazy, mut cfg) = {
		let w = &mut *sim.w.borrow_mut();
		let cfg = benign(w);
		let src = &mut w.src;
		let baud = bench::gen_baud(src);
		let rbuf = bench::gen_buf(src, s.tight, s.max_data);
		let wbuf = bench::gen_buf(src, s.tight, s.max_data);
		let n = src.us(s.motors.0, s.motors.1);
		(baud, rbuf, wbuf, bench::gen_ids(src, n), src.pick(&[100, 300, 650]), cfg)
	};
	// What is still in the queue eats into the response window.
	let window = proto::reply_window(0, baud);
	while cfg.queue > 1 && proto::transfer_ns(cfg.queue.min(wbuf) as u64, baud) > window / 10 {
		cfg.queue /= 2;
	}
	let port = sim.w.borrow_mut().add_port(baud, PortCfg::default());
	{
		let mut w = sim.w.borrow_mut();
		let t = format!("{cfg:?}");
		w.note("system", &[], || t);
	}
	let (c, g) = os::install(sim, port, cfg);
	let p = match SimPort::open_os(sim, port, baud) {
		Ok(p) => p,
		Err(e) => {
			sim.w.borrow_mut().fail("C15", format!("opening a healthy port fails: {e}"));
			return None;
		},
	};
	let b = Bench::build_on(sim, p, rbuf, wbuf, &ids, s, lazy);
	Some((b, c, g))
}

/// Histories of all operations through the adapter; the system does everything that is legal.
pub fn c15_model(sim: &W) {
	let s = Setup { max_data: 200, ..Default::default() };
	let Some((b, c, _g)) = os_bench(sim, &s) else { return };
	let mut b = b;
	let n = b.src(|s| s.rounds(3, 12));
	for _ in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| match s.weighted(&[8, 2, 3, 4, 1]) {
			0 => g.unicast(s),
			1 => g.broadcast(s),
			2 => g.multi_write(s),
			3 => g.multi_read(s, true),
			_ => Op::SetBaud { baud: bench::gen_baud(s) },
		});
		if let Op::SetBaud { baud } = op {
			let w = proto::reply_window(0, baud);
			let q = c.tty.borrow().cfg.queue.min(b.wbuf) as u64;
			if q > 1 && proto::transfer_ns(q, baud) > w / 10 {
				continue;
			}
			let out = b.exec(&op);
			b.settle();
			if !matches!(out.res, ops::Res::Baud(Ok(()))) || b.cl.baud_rate() != baud {
				b.fail("C15", format!("{op:?}: {:?}, the client is at {}", out.res, b.cl.baud_rate()));
			}
			sim.w.borrow_mut().probe("baud rate changed");
		} else {
			step(&mut b, "C15", &op, &[]);
		}
		if failed(sim) {
			return;
		}
		let baud = b.cl.baud_rate();
		if let Err(e) = c.is_raw(baud) {
			b.fail("C15", format!("after {op:?} the terminal is not configured for the bus: {e}"));
			return;
		}
	}
}

/// Histories in which system calls fail: each failure reaches the caller, nothing else does; then calm.
pub fn c15_faults(sim: &W) {
	// Motors that find every instruction, whatever came before it.
	let s = Setup { max_data: 60, motors: (1, 3), missing: 60, dev: 0, ..Default::default() };
	let Some((b, c, _g)) = os_bench(sim, &s) else { return };
	let mut b = b;
	if b.src(|s| s.chance(300)) {
		b.bus.borrow_mut().f = LineFaults { lost: 100, crc: 80, noise: 100, ..Default::default() };
	}
	let n = b.src(|s| s.rounds(2, 10));
	let mut rate = b.cl.baud_rate();
	for _ in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| match s.weighted(&[10, 2, 2]) {
			0 => g.any(s),
			1 => Op::SetBaud { baud: bench::gen_baud(s) },
			_ => Op::ReadStatusTimeout { ns: s.skewed(100 * MS) },
		});
		{
			let mut t = c.tty.borrow_mut();
			calm(&mut t.cfg);
			let w = &mut *sim.w.borrow_mut();
			fault(w, &mut t.cfg);
		}
		if matches!(op, Op::ReadStatusTimeout { .. }) && b.src(|s| s.chance(700)) {
			let (x, at) = b.src(|s| {
				let n = s.skewed(12) as usize;
				(proto::status(s.flat_byte(), 0, &s.bytes(n)), s.below(40 * MS))
			});
			let now = sim.w.borrow().now;
			bench::stray(sim, b.port, x, now + at);
		}
		let out = b.exec(&op);
		let calls = b.calls();
		if let Err(e) = s_wire::check_port(&op, &out, &calls) {
			b.fail("C15", format!("{op:?}: {e}"));
		}
		if let (Op::SetBaud { baud }, ops::Res::Baud(Ok(()))) = (&op, &out.res) {
			rate = *baud;
		}
		if b.cl.baud_rate() != rate {
			b.fail("C15", format!("after {op:?} the client is at {} and the port at {rate}", b.cl.baud_rate()));
		}
		if failed(sim) {
			return;
		}
		b.settle();
	}
	// Once the system works again, so does everything else.
	calm(&mut c.tty.borrow_mut().cfg);
	b.bus.borrow_mut().f = LineFaults::default();
	let port = b.port;
	b.settle();
	let _ = b.exec(&Op::SetBaud { baud: 57_600 });
	if b.cl.baud_rate() != 57_600 || c.tty.borrow().rate != 57_600 {
		b.fail("C15", "the baud rate cannot be changed after the system has recovered".into());
		return;
	}
	c.tty.borrow_mut().cfg.queue = 4;
	let now = sim.w.borrow().now;
	run_until(sim, now + 3_000 * MS);
	let id = b.g.ids[0];
	for m in &mut b.bus.borrow_mut().motors {
		m.deaf = 0;
		m.up = true;
	}
	let _ = port;
	let fits = b.rbuf >= 24;
	let out = b.exec(&Op::Ping { id });
	if fits && !matches!(&out.res, ops::Res::Single(Ok(r)) if r.id == id) && !matches!(&out.res, ops::Res::Single(Err(ops::E::Motor(_)))) {
		b.fail("C15", format!("ping after the system has recovered: {:?}", out.res));
	}
	sim.w.borrow_mut().probe("operation after recovery");
}

/// Direct use of the adapter with bytes arriving at any time.
pub fn c15_port(sim: &W) {
	let (baud, cfg) = {
		let w = &mut *sim.w.borrow_mut();
		let mut c = benign(w);
		c.cost = c.cost.max(US);
		(bench::gen_baud(&mut w.src), c)
	};
	let idx = sim.w.borrow_mut().add_port(baud, PortCfg::default());
	let (c, _g) = os::install(sim, idx, cfg);
	let mut p = match SimPort::open_os(sim, idx, baud) {
		Ok(p) => p,
		Err(e) => {
			sim.w.borrow_mut().fail("C15", format!("opening a healthy port fails: {e}"));
			return;
		},
	};
	let n = sim.w.borrow_mut().src.rounds(2, 14);
	for _ in 0..n {
		{
			let mut t = c.tty.borrow_mut();
			let w = &mut *sim.w.borrow_mut();
			if w.src.chance(300) {
				let cost = t.cfg.cost;
				calm(&mut t.cfg);
				t.cfg.cost = cost;
				if w.src.chance(500) {
					fault(w, &mut t.cfg);
				}
				t.cfg.stuck = w.src.chance(60);
			}
		}
		sim.w.borrow_mut().src.begin();
		// Bytes on their way, at most for the next call.
		let k = sim.w.borrow_mut().src.weighted(&[3, 2, 2]);
		for _ in 0..k {
			let w = &mut *sim.w.borrow_mut();
			let n = w.src.us(1, 20);
			let d = w.src.bytes(n);
			let at = w.now
				+ match w.src.weighted(&[3, 3, 2, 1]) {
					0 => 0,
					1 => w.src.below(3 * MS),
					2 => w.src.below(200 * MS),
					_ => w.src.below(YEAR),
				};
			w.at(at, Ev::Rx { port: idx, bytes: d });
		}
		let mut forever = false;
		let what = sim.w.borrow_mut().src.weighted(&[8, 4, 2, 1, 1, 1]);
		match what {
			0 => {
				let (t, d, n) = {
					let w = &mut *sim.w.borrow_mut();
					let t = match w.src.weighted(&[2, 3, 3, 1, 1]) {
						0 => 0,
						1 => w.src.below(3 * MS),
						2 => w.src.below(250 * MS),
						3 => w.src.below(40_000 * MS),
						// More than 31 or 32 bits of milliseconds.
						_ => {
							w.probe("very long deadline");
							w.src.pick(&[2_147_483_647 * MS, 2_147_483_648 * MS, 4_294_967_296 * MS, 4_294_967_300 * MS, YEAR, 20 * YEAR])
						},
					};
					let d = match w.src.weighted(&[5, 1, 1]) {
						0 => 0,
						1 => w.src.below(2 * MS),
						_ => w.src.below(300 * MS),
					};
					let n = match w.src.weighted(&[6, 1, 1]) {
						0 => w.src.us(1, 40),
						1 => 0,
						_ => 1,
					};
					(t, d, n)
				};
				let timeout = {
					let w = &mut *sim.w.borrow_mut();
					if w.src.chance(30) {
						// Longer than a point in time can be away: as long as it takes.
						let at = w.now + w.src.below(10 * YEAR);
						w.at(at, Ev::Rx { port: idx, bytes: vec![0x5A] });
						w.probe("endless deadline");
						forever = true;
						w.src.pick(&[Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_secs(i64::MAX as u64), Duration::from_secs(1 << 62), Duration::from_secs(u64::MAX / 1000)])
					} else {
						Duration::from_nanos(t)
					}
				};
				let deadline = p.make_deadline(timeout);
				// The caller does something else for a while.
				let now = sim.w.borrow().now;
				run_until(sim, now + d);
				if d > t && !forever {
					sim.w.borrow_mut().probe("deadline already over");
				}
				let mut b = vec![0u8; n];
				let r = p.read(&mut b, &deadline);
				let mut w = sim.w.borrow_mut();
				w.st.ops += 1;
				if forever && n > 0 && r.as_ref().is_err_and(port_timeout) {
					w.fail("C15", format!("a read for {timeout:?} times out"));
				}
				w.probe(match r {
					Ok(0) => "read of nothing",
					Ok(_) => "read returned data",
					Err(e) if port_timeout(&e) => "read timed out",
					Err(_) => "read failed",
				});
			},
			1 => {
				let d = {
					let w = &mut *sim.w.borrow_mut();
					let n = w.src.skewed(300) as usize;
					w.src.bytes(n)
				};
				let _ = p.write_all(&d);
				sim.w.borrow_mut().st.ops += 1;
			},
			2 => {
				let _ = p.discard_input_buffer();
			},
			3 => {
				let b = bench::gen_baud(&mut sim.w.borrow_mut().src);
				let _ = p.set_baud_rate(b);
			},
			4 => {
				let _ = p.baud_rate();
			},
			_ => {
				// Only a timeout is a timeout.
				let e = sim.w.borrow_mut().src.int(1, 133) as i32;
				let e = std::io::Error::from_raw_os_error(e);
				let want = e.kind() == std::io::ErrorKind::TimedOut;
				if <Adapter as dynamixel2::SerialPort>::is_timeout_error(&e) != want {
					sim.w.borrow_mut().fail("C15", format!("is_timeout_error({e}) is {}", !want));
				}
			},
		}
		sim.w.borrow_mut().src.end();
		if failed(sim) {
			return;
		}
	}
}

fn port_timeout(e: &crate::world::PortErr) -> bool {
	<SimPort as dynamixel2::SerialPort>::is_timeout_error(e)
}

enum Side {
	Cl(Client<Adapter, Vec<u8>>),
	Dev(Device<Adapter, Vec<u8>>),
}

/// Opening and configuring ports, with the library's own types.
pub fn c15_open(sim: &W) {
	let (hw, baud, kind, mut cfg, path) = {
		let w = &mut *sim.w.borrow_mut();
		let mut c = benign(w);
		match w.src.weighted(&[5, 1, 1, 1, 1, 1]) {
			0 => {},
			1 => c.f_open = 700,
			2 => c.f_get = 300,
			3 => c.f_set = 500,
			4 => c.ignore_set = 700,
			_ => c.round = w.src.pick(&[-20, -3, 5, 20, -60, 60]),
		}
		let s = &mut w.src;
		let hw = bench::gen_baud(s);
		let path = s.pick(&["/sim-tty/0", "/sim-tty/by-id/usb-FTDI-if00-port0", "/sim-tty/x y"]);
		(hw, bench::gen_baud(s), s.below(6), c, path)
	};
	let idx = sim.w.borrow_mut().add_port(hw, PortCfg::default());
	cfg.queue = cfg.queue.max(64);
	let (c, _g) = os::install(sim, idx, cfg.clone());
	c.begin_call();
	let buf = || vec![0; 128];
	let r = match kind {
		0 => Client::open(path, baud).map(Side::Cl),
		1 => Client::open_with_buffers(path, baud, buf(), buf()).map(Side::Cl),
		2 => Device::open(path, baud).map(Side::Dev),
		3 => Device::open_with_buffers(path, baud, buf(), buf()).map(Side::Dev),
		4 => Adapter::open(path, baud).and_then(|p| Client::new(p).map(Side::Cl)),
		_ => Adapter::open(path, baud).and_then(|p| Device::new(p).map(Side::Dev)),
	};
	let name = ["Client::open", "Client::open_with_buffers", "Device::open", "Device::open_with_buffers", "Client::new", "Device::new"][kind as usize];
	let what = format!("{name}({path}, {baud})");
	sim.w.borrow_mut().st.ops += 1;
	let off = |rate: u32, baud: u32| u64::from(rate.abs_diff(baud)) * 1000;
	let close = |rate: u32, baud: u32| if cfg.round == 0 && cfg.ignore_set == 0 { rate == baud } else { off(rate, baud) <= u64::from(baud) * 26 };
	let hard = |c: &Ctx| c.tty.borrow().log.iter().find(|s| s.hard).map(|s| -s.ret);
	let h = hard(&c);
	let rate = c.tty.borrow().rate;
	let mut side = match r {
		Err(e) => {
			let ok = match (e.raw_os_error(), h) {
				(Some(x), Some(h)) => i64::from(x) == h,
				(None, None) => cfg.ignore_set > 0 || !close(rate, baud) || off(rate, baud) > u64::from(baud) * 24,
				_ => false,
			};
			if !ok {
				let h = h.map(|x| os::errname(x as i32));
				sim.w.borrow_mut().fail("C15", format!("{what} fails with {e:?}; system call failure: {h:?}; rate {rate}"));
			}
			sim.w.borrow_mut().probe("opening failed");
			return;
		},
		Ok(s) => s,
	};
	let check = {
		let t = c.tty.borrow();
		if let Some(h) = h {
			Err(format!("succeeds although a system call failed with {}", os::errname(h as i32)))
		} else if t.opens != 1 || t.path != path.as_bytes() {
			Err(format!("opened {} files, the last one {}", t.opens, String::from_utf8_lossy(&t.path)))
		} else if t.flags & libc::O_ACCMODE != libc::O_RDWR || t.flags & libc::O_NOCTTY == 0 {
			Err(format!("opened the terminal with flags 0o{:o}", t.flags))
		} else if !close(rate, baud) {
			Err(format!("the port runs at {rate}"))
		} else {
			Ok(())
		}
	};
	if let Err(e) = check.and_then(|()| c.is_raw(rate)) {
		sim.w.borrow_mut().fail("C15", format!("{what}: {e}"));
		return;
	}
	sim.w.borrow_mut().probe("port opened");
	calm(&mut c.tty.borrow_mut().cfg);
	c.tty.borrow_mut().cfg.short_w = 0;
	let mut believed = match &side {
		Side::Cl(x) => x.baud_rate(),
		Side::Dev(x) => x.baud_rate(),
	};
	if believed != baud && believed != rate {
		sim.w.borrow_mut().fail("C15", format!("{what}: the rate is said to be {believed}, the port runs at {rate}"));
		return;
	}
	let n = sim.w.borrow_mut().src.us(1, 6);
	for _ in 0..n {
		c.begin_call();
		let k = sim.w.borrow_mut().src.below(4);
		match k {
			0 => {
				let (to, f) = {
					let w = &mut *sim.w.borrow_mut();
					(bench::gen_baud(&mut w.src), w.src.weighted(&[4, 1, 1, 1]))
				};
				{
					let mut t = c.tty.borrow_mut();
					match f {
						0 => {},
						1 => t.cfg.f_set = 1000,
						2 => t.cfg.f_get = 500,
						_ => t.cfg.ignore_set = 1000,
					}
				}
				let before = c.tty.borrow().rate;
				let r = match &mut side {
					Side::Cl(x) => x.set_baud_rate(to),
					Side::Dev(x) => x.set_baud_rate(to),
				};
				calm(&mut c.tty.borrow_mut().cfg);
				let rate = c.tty.borrow().rate;
				let now = match &side {
					Side::Cl(x) => x.baud_rate(),
					Side::Dev(x) => x.baud_rate(),
				};
				let h = hard(&c);
				// Failing after the settings have been made leaves them in effect.
				let made = c.tty.borrow().log.iter().any(|s| s.name == "set settings" && s.ret == 0);
				let m = match &r {
					Ok(()) if h.is_some() => Some("succeeds although a system call failed".to_string()),
					Ok(()) if !(close(rate, to) || f == 3 && off(rate, to) <= u64::from(to) * 26) => Some(format!("succeeds, but the port runs at {rate}")),
					Ok(()) if now != to && now != rate => Some(format!("succeeds, but baud_rate() is {now}")),
					// A rate that the driver cannot do may be in effect in spite of the error.
					Err(_) if cfg.round.abs() > 24 => return,
					Err(e) if h.is_none() && off(rate, to) <= u64::from(to) * 24 => Some(format!("fails with {e:?}, but the port runs at {rate}")),
					Err(e) if h.is_some_and(|h| e.raw_os_error().map(i64::from) != Some(h)) => Some(format!("fails with {e:?} instead of the error of the system call")),
					Err(_) if now != believed => Some(format!("failed, but baud_rate() changed from {believed} to {now}")),
					Err(_) if !made && rate != before => Some(format!("failed, but the port runs at {rate}")),
					_ => None,
				};
				if let Some(m) = m {
					sim.w.borrow_mut().fail("C15", format!("{what}, then set_baud_rate({to}): {m}"));
				}
				believed = now;
				sim.w.borrow_mut().probe(if r.is_ok() { "baud rate changed" } else { "baud rate change failed" });
			},
			1 => {
				// Waiting for nothing takes exactly as long as it should at this rate.
				let n = sim.w.borrow_mut().src.skewed(300);
				let t0 = sim.w.borrow().now;
				let hw = c.tty.borrow().rate;
				let (win, e) = match &mut side {
					Side::Cl(x) => (
						[proto::reply_window(n, believed), proto::reply_window(n, hw)],
						x.read_status_response(n as u16).err(),
					),
					Side::Dev(x) => ([n * MS, n * MS], x.read_raw_instruction_timeout(Duration::from_millis(n)).err()),
				};
				let t1 = sim.w.borrow().now;
				let slack = c.tty.borrow().slack;
				let lo = win[0].min(win[1]).saturating_sub(MS);
				let hi = win[0].max(win[1]) + slack + US;
				let timeout = matches!(&e, Some(ReadError::Io(e)) if e.kind() == std::io::ErrorKind::TimedOut);
				if !timeout || t1 - t0 < lo || t1 - t0 > hi {
					sim.w.borrow_mut().fail("C15", format!("{what}, then waiting for {n} at {believed}: {e:?} after {} us, expected a timeout after {} us", (t1 - t0) / 1000, win[0] / 1000));
				}
				sim.w.borrow_mut().probe("exact timeout");
			},
			_ => {
				let (id, d) = {
					let w = &mut *sim.w.borrow_mut();
					let n = w.src.skewed(60) as usize;
					(w.src.flat_byte(), w.src.bytes(n))
				};
				let fail = sim.w.borrow_mut().src.chance(200);
				if fail {
					c.tty.borrow_mut().cfg.f_write = 1000;
				}
				let enc = |b: &mut [u8]| {
					b.copy_from_slice(&d);
					Ok(())
				};
				let (r, want) = match &mut side {
					Side::Cl(x) => (x.write_instruction(id, 0x20, d.len(), enc), proto::encode(id, 0x20, &d)),
					Side::Dev(x) => (x.write_status(id, 0, d.len(), enc), proto::status(id, 0, &d)),
				};
				calm(&mut c.tty.borrow_mut().cfg);
				let h = hard(&c);
				let sent = c.tty.borrow().accepted.clone();
				let m = match &r {
					Ok(()) if h.is_some() => Some("succeeds although a system call failed".to_string()),
					Ok(()) if sent != want => Some(format!("sent {}, expected {}", proto::hex(&sent), proto::hex(&want))),
					Err(WriteError::Write(e)) if h.is_some() && e.raw_os_error().map(i64::from) == h => None,
					Err(WriteError::BufferTooSmall(_)) if want.len() > 128 => None,
					Err(e) => Some(format!("fails with {e:?}")),
					Ok(()) => None,
				};
				if let Some(m) = m {
					sim.w.borrow_mut().fail("C15", format!("{what}, then a packet: {m}"));
				}
			},
		}
		if failed(sim) {
			return;
		}
	}
	sim.w.borrow_mut().fk(Fk::Timeout);
}

/// The device side through the adapter.
pub fn c15_device(sim: &W) {
	let (rbuf, rounds, baud, cfg) = {
		let w = &mut *sim.w.borrow_mut();
		let mut c = benign(w);
		c.oversleep = 0;
		(s_dev::gen_rbuf(&mut w.src), w.src.rounds(1, 6), bench::gen_baud(&mut w.src), c)
	};
	let idx = sim.w.borrow_mut().add_port(baud, PortCfg::default());
	let (c, _g) = os::install(sim, idx, cfg);
	let p = match SimPort::open_os(sim, idx, baud) {
		Ok(p) => p,
		Err(e) => {
			sim.w.borrow_mut().fail("C15", format!("opening a healthy port fails: {e}"));
			return;
		},
	};
	s_dev::c15(sim, p, rbuf, rounds);
	drop(c);
}
