//! C01: every message on the wire is one exact packet. C13: port failures surface unchanged.

#[cfg(not(feature = "full"))]
use crate::bare::*;
use crate::bench::{self, Bench, Gen, Setup};
use crate::choice::Src;
use crate::motors::LineFaults;
use crate::ops::{self, Op, Out, Res, E};
use crate::proto::{self, BROADCAST, STATUS};
use crate::vals::{NTY, TY_SIZE};
use crate::world::{run_until, Call, ErrKind, Fk, PortCfg, PortErr, SimPort, MS, W};
use dynamixel2::{Client, Device, WriteError};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

fn failed(sim: &W) -> bool {
	!sim.w.borrow().fails.is_empty()
}

/// A buffer that held something else before.
pub fn dirty(src: &mut Src, n: usize) -> Vec<u8> {
	match src.weighted(&[2, 1, 1, 1]) {
		0 => vec![0; n],
		1 => vec![0xFF; n],
		2 => (0..n).map(|i| [0xFF, 0xFF, 0xFD, 0x00][i % 4]).collect(),
		_ => {
			let b = src.flat_byte();
			(0..n).map(|i| b.wrapping_add(i as u8)).collect()
		},
	}
}

/// The one write of a call must be exactly one packet with this content.
pub fn exact(bytes: &[u8], id: u8, instr: u8, params: &[u8]) -> Result<(), String> {
	if instr == STATUS && params.is_empty() && bytes == proto::encode(id, instr, params) {
		// Not a status packet, but exactly what was asked for.
		return Ok(());
	}
	let Some(p) = proto::decode_at(bytes, 0) else {
		return Err(format!("no well-formed packet was sent: {}", proto::hex(bytes)));
	};
	if p.len != bytes.len() {
		return Err(format!("sent {} bytes after the end of the packet: {}", bytes.len() - p.len, proto::hex(bytes)));
	}
	let mut full = vec![];
	if p.is_status() {
		full.push(p.err);
	}
	full.extend(&p.params);
	if p.id != id || p.instr != instr || full != params {
		return Err(format!(
			"sent a packet that decodes to ID {}, instruction 0x{:02X}, parameters [{}], but ID {id}, 0x{instr:02X}, [{}] was asked for",
			p.id,
			p.instr,
			proto::hex(&full),
			proto::hex(params)
		));
	}
	if proto::has_bare_pattern(&bytes[7..bytes.len() - 2]) {
		return Err(format!("sent an unstuffed header inside the body: {}", proto::hex(bytes)));
	}
	// There is exactly one way to encode it.
	if bytes != proto::encode(id, instr, params) {
		return Err(format!("sent {}, the encoding is {}", proto::hex(bytes), proto::hex(&proto::encode(id, instr, params))));
	}
	Ok(())
}

fn writes(c: &[Call]) -> Vec<(&[u8], bool)> {
	c.iter()
		.filter_map(|c| match c {
			Call::Write { bytes, ok, .. } => Some((bytes.as_slice(), *ok)),
			_ => None,
		})
		.collect()
}

/// What happened to the sending part of an operation.
enum Sent {
	Ok,
	Small,
	Discard,
	Write,
	Panic,
}

fn sent(res: &Res) -> Sent {
	let e = match res {
		Res::Single(Err(e)) | Res::Write(Err(e)) | Res::Multi(Err(e)) => e,
		Res::Panic(_) => return Sent::Panic,
		_ => return Sent::Ok,
	};
	match e {
		E::BufSmall(..) => Sent::Small,
		E::Discard(_) => Sent::Discard,
		E::Write(_) => Sent::Write,
		_ => Sent::Ok,
	}
}

/// Decide what one call put on the wire.
#[allow(clippy::too_many_arguments)]
fn check_wire(id: u8, instr: u8, params: &[u8], wbuf: usize, s: &Sent, calls: &[Call], misuse: bool, encoder_fails: bool) -> Result<(), String> {
	let w = writes(calls);
	let n = proto::encoded_len(instr, params);
	let fits = n <= wbuf && n - 7 <= 0xFFFF;
	if w.len() > 1 {
		return Err(format!("{} messages were sent", w.len()));
	}
	if misuse || encoder_fails {
		if !w.is_empty() {
			return Err("something was sent although the request is not valid".into());
		}
		let ok = match s {
			Sent::Small => encoder_fails || !fits,
			Sent::Panic => misuse,
			_ => false,
		};
		return if ok || (misuse && matches!(s, Sent::Small)) { Ok(()) } else { Err("the invalid request was not refused".into()) };
	}
	if !fits {
		if !w.is_empty() {
			return Err(format!("the packet takes {n} bytes and the buffer has {wbuf}, but this was sent: {}", proto::hex(w[0].0)));
		}
		return if matches!(s, Sent::Small) { Ok(()) } else { Err(format!("the packet takes {n} bytes, the buffer has {wbuf}, and this was not reported")) };
	}
	match s {
		Sent::Small => Err(format!("refused as too large, but the packet takes {n} bytes and the buffer has {wbuf}")),
		Sent::Panic => Err("panicked while sending".into()),
		Sent::Discard => {
			if w.is_empty() {
				Ok(())
			} else {
				Err("sent although discarding failed".into())
			}
		},
		Sent::Ok | Sent::Write => {
			if w.len() != 1 {
				return Err("nothing was sent".into());
			}
			if w[0].1 == matches!(s, Sent::Write) {
				return Err("the result of writing is not what is reported".into());
			}
			exact(w[0].0, id, instr, params)
		},
	}
}

/// Raw instructions of any kind, also nonsensical ones.
fn gen_raw(g: &Gen, src: &mut Src) -> Op {
	src.begin();
	let id = match src.weighted(&[3, 1]) {
		0 => src.flat_byte(),
		_ => src.pick(&[0xFD, 0xFE, 0xFF, 0x00, 0x55]),
	};
	let instr = match src.weighted(&[3, 2]) {
		0 => src.flat_byte(),
		_ => src.pick(&[0xFF, 0xFD, 0x00, STATUS, 1, 2]),
	};
	let params = g.data(src, 10);
	let op = match src.weighted(&[4, 1]) {
		0 => Op::RawWrite { id, instr, params, fail: src.chance(120) },
		_ => Op::Raw { id, instr, params, expected: src.skewed(0xFFFF) as u16 },
	};
	src.end();
	op
}

/// IDs without any restriction, where the API allows them.
fn wild_ids(src: &mut Src, op: &mut Op) {
	let x = match src.weighted(&[2, 2]) {
		0 => src.flat_byte(),
		_ => src.pick(&[0xFF, 0xFD, 0xFE, 0x00, 0xFC]),
	};
	match op {
		Op::Ping { id }
		| Op::Read { id, .. }
		| Op::ReadBytes { id, .. }
		| Op::Write { id, .. }
		| Op::WriteBytes { id, .. }
		| Op::RegWrite { id, .. }
		| Op::RegWriteBytes { id, .. }
		| Op::Action { id }
		| Op::Reboot { id }
		| Op::ClearRev { id }
		| Op::ClearErr { id }
		| Op::Factory { id, .. } => *id = x,
		Op::SyncRead { ids, take, .. } | Op::SyncReadBytes { ids, take, .. } => {
			let n = src.skewed(60) as usize;
			*ids = (0..n).map(|_| src.byte()).collect();
			*take = Some(0);
		},
		Op::SyncWrite { ty, data, .. } => {
			let n = src.skewed(20) as usize;
			let k = TY_SIZE[*ty];
			*data = (0..n).map(|_| (src.byte(), src.bytes(k))).collect();
		},
		Op::SyncWriteBytes { count, data, .. } => {
			let n = src.skewed(20) as usize;
			let k = usize::from(*count);
			*data = (0..n).map(|_| (src.byte(), src.bytes(k))).collect();
		},
		Op::BulkWrite { data, .. } => {
			for d in data.iter_mut() {
				d.0 = src.byte();
			}
		},
		Op::BulkRead { reads, take, .. } => {
			for r in reads.iter_mut() {
				r.0 = src.byte();
			}
			*take = Some(0);
		},
		_ => {},
	}
}

/// C01, client side.
pub fn c01(sim: &W) {
	let mut b = Bench::healthy(sim, &Setup { motors: (1, 3), missing: 80, max_data: 150, ..Default::default() });
	// A write buffer that was used before, and write buffers of every size.
	{
		let mut w = sim.w.borrow_mut();
		let src = &mut w.src;
		let wb = match src.weighted(&[3, 2, 2]) {
			0 => b.wbuf,
			1 => src.us(10, 40),
			_ => src.us(10, 420),
		};
		let (rv, wv) = (dirty(src, b.rbuf), dirty(src, wb));
		b.wbuf = wb;
		b.g.wbuf = wb;
		drop(w);
		b.cl = Client::with_buffers(SimPort::new(sim, b.port), rv, wv).unwrap();
	}
	let n = b.src(|s| s.rounds(3, 16));
	for _ in 0..n {
		let g = b.g.clone();
		let mut op = b.src(|s| if s.chance(450) { gen_raw(&g, s) } else { g.any(s) });
		if b.src(|s| s.chance(200)) {
			b.src(|s| wild_ids(s, &mut op));
		}
		if b.src(|s| s.chance(60)) {
			if let Op::SyncWriteBytes { data, .. } = &mut op {
				if let Some(d) = data.last_mut() {
					d.1.push(0xFF);
				}
			}
		}
		let faulty = b.src(|s| s.chance(250));
		{
			let mut w = sim.w.borrow_mut();
			let p = b.port;
			w.ports[p].cfg.f_discard = if faulty { 300 } else { 0 };
			w.ports[p].cfg.f_write = if faulty { 400 } else { 0 };
		}
		let out = b.exec(&op);
		b.settle();
		if let Some((id, instr, params)) = ops::wire(&op) {
			let fails = matches!(op, Op::RawWrite { fail: true, .. });
			if fails {
				sim.w.borrow_mut().fk(Fk::EncodeFail);
			}
			let c = b.calls();
			if matches!(sent(&out.res), Sent::Small) {
				sim.w.borrow_mut().fk(Fk::BufSmall);
			} else if proto::encoded_len(instr, &params) > params.len() + 10 {
				sim.w.borrow_mut().probe("sent a packet that needs stuffing");
			}
			if proto::encoded_len(instr, &params) == b.wbuf {
				sim.w.borrow_mut().probe("packet fills the write buffer exactly");
			}
			if proto::encoded_len(instr, &params) == b.wbuf + 1 {
				sim.w.borrow_mut().probe("packet one byte larger than the write buffer");
			}
			// `transfer_single` reports what the encoder says in the same way.
			if let Err(e) = check_wire(id, instr, &params, b.wbuf, &sent(&out.res), &c, ops::must_panic(&op), fails) {
				b.fail("C01", format!("{op:?}: {e}"));
			}
		}
		if failed(sim) {
			return;
		}
	}
}

/// C01 at the limits of the 16-bit length field.
pub fn c01_large(sim: &W) {
	let (baud, wb) = {
		let mut w = sim.w.borrow_mut();
		(4_000_000, w.src.pick(&[65_535usize, 65_541, 65_542, 65_543, 66_000, 70_000, 90_000, 140_000]))
	};
	let port = sim.w.borrow_mut().add_port(baud, PortCfg::default());
	let wv = {
		let mut w = sim.w.borrow_mut();
		dirty(&mut w.src, wb)
	};
	let mut cl = Client::with_buffers(SimPort::new(sim, port), vec![0; 64], wv.clone()).unwrap();
	let mut dev = Device::with_buffers(SimPort::new(sim, port), vec![0; 64], wv).unwrap();
	for _ in 0..3 {
		let mut w = sim.w.borrow_mut();
		let src = &mut w.src;
		let shape = src.weighted(&[2, 2, 2, 1]);
		let kind = src.below(7);
		let over = [10, 12, 12, 14, 15, 11, 17][kind as usize];
		// Data such that the encoded packet is close to the limit.
		let limit = wb.min(0xFFFF + 7);
		let slack = src.us(0, 6);
		let data: Vec<u8> = match shape {
			0 => {
				let n = (limit + 3).saturating_sub(slack + over);
				let b = src.flat_byte();
				vec![if b == 0xFF { 0 } else { b }; n]
			},
			1 => {
				// Everything is stuffed: 3 bytes become 4.
				let n = ((limit + 4).saturating_sub(slack + over)) * 3 / 4 + src.us(0, 3);
				(0..n).map(|i| [0xFF, 0xFF, 0xFD][i % 3]).collect()
			},
			2 => {
				let n = src.us(60_000, 66_500);
				src.bytes(n)
			},
			_ => {
				let n = src.us(0, 140_000);
				src.bytes(n)
			},
		};
		let (id, instr) = (src.flat_byte(), src.flat_byte());
		drop(w);
		ops::begin_op(sim, port);
		let small = |r: Result<(), WriteError<PortErr>>| Res::Write(r.map_err(ops::wr));
		let (want, res, misuse) = match kind {
			0 => {
				let op = Op::RawWrite { id, instr, params: data, fail: false };
				let o = ops::exec(sim, port, &mut cl, &op);
				(ops::wire(&op).unwrap(), o.res, false)
			},
			1 | 2 => {
				let op = if kind == 1 {
					Op::WriteBytes { id: BROADCAST, addr: 0x55FF, data }
				} else {
					Op::RegWriteBytes { id: BROADCAST, addr: 0xFDFF, data }
				};
				let o = ops::exec(sim, port, &mut cl, &op);
				(ops::wire(&op).unwrap(), o.res, false)
			},
			3 => {
				let n = data.len().saturating_sub(1).min(0xFFFF);
				let op = Op::SyncWriteBytes { addr: 1, count: n as u16, data: vec![(id, data[..n].to_vec())], via: 1 };
				let o = ops::exec(sim, port, &mut cl, &op);
				(ops::wire(&op).unwrap(), o.res, false)
			},
			4 => {
				let op = Op::BulkWrite { data: vec![(id, 1, data)], via: 1 };
				let o = ops::exec(sim, port, &mut cl, &op);
				let m = ops::must_panic(&op);
				(ops::wire(&op).unwrap(), o.res, m)
			},
			5 => {
				let r = catch_unwind(AssertUnwindSafe(|| {
					dev.write_status(id, 0x80, data.len(), |b| {
						b.copy_from_slice(&data);
						Ok(())
					})
				}));
				let mut p = vec![0x80];
				p.extend(&data);
				((id, STATUS, p), r.map_or_else(ops::panic_text, small), false)
			},
			_ => {
				let half = data.len() / 2;
				let op = Op::BulkWrite { data: vec![(1, 1, data[..half].to_vec()), (id | 2, 0xFFFF, data[half..].to_vec())], via: 0 };
				let o = ops::exec(sim, port, &mut cl, &op);
				let m = ops::must_panic(&op);
				(ops::wire(&op).unwrap(), o.res, m)
			},
		};
		let n = proto::encoded_len(want.1, &want.2);
		if n > 65_000 && n <= wb && n - 7 <= 0xFFFF {
			sim.w.borrow_mut().probe("sent a packet close to 64 KiB");
		}
		if n - 7 > 0xFFFF && n <= wb {
			sim.w.borrow_mut().probe("packet beyond the 16-bit length in a buffer that could hold it");
		}
		let c = sim.w.borrow().ports[port].calls.clone();
		if let Err(e) = check_wire(want.0, want.1, &want.2, wb, &sent(&res), &c, misuse, false) {
			sim.w.borrow_mut().fail("C01", format!("kind {kind}, {} data bytes: {e}", want.2.len()));
			return;
		}
		if sim.w.borrow_mut().src.chance(200) && !absurd(sim, port, &mut cl, &mut dev) {
			return;
		}
	}
}

/// Numbers of parameters that no buffer can hold.
fn absurd(sim: &W, port: usize, cl: &mut ops::Cl, dev: &mut Device<SimPort, Vec<u8>>) -> bool {
	let (n, kind, id, instr) = {
		let src = &mut sim.w.borrow_mut().src;
		let n = match src.weighted(&[3, 1, 1]) {
			0 => usize::MAX - src.below(24) as usize,
			1 => src.pick(&[1 << 16, 1 << 32, isize::MAX as usize, 1 << 63]).wrapping_sub(src.below(16) as usize),
			_ => 150_000 + src.below(1 << 40) as usize,
		};
		(n, src.below(3), src.flat_byte(), src.flat_byte())
	};
	if n < 140_000 {
		return true;
	}
	ops::begin_op(sim, port);
	let mut filled = false;
	let mut enc = |_: &mut [u8]| {
		filled = true;
		Ok(())
	};
	let small = |r: Result<(), WriteError<PortErr>>| Res::Write(r.map_err(ops::wr));
	let r = catch_unwind(AssertUnwindSafe(|| match kind {
		0 => small(cl.write_instruction(id, instr, n, &mut enc)),
		1 => Res::Single(cl.transfer_single(id, instr, n, 0, &mut enc).map(ops::stat).map_err(ops::tr)),
		_ => small(dev.write_status(id, instr, n, &mut enc)),
	}));
	let res = r.unwrap_or_else(ops::panic_text);
	let calls = sim.w.borrow().ports[port].calls.len();
	let mut w = sim.w.borrow_mut();
	w.probe("absurd number of parameters");
	if !matches!(sent(&res), Sent::Small) || calls > 0 || filled {
		w.fail("C01", format!("kind {kind} with {n} parameters: {res:?} after {calls} calls on the port"));
		return false;
	}
	true
}

/// C01, device side: status packets, and history on the same port.
pub fn c01_dev(sim: &W) {
	let (port, rb, wb, n) = {
		let mut w = sim.w.borrow_mut();
		let baud = bench::gen_baud(&mut w.src);
		let cfg = bench::healthy_port(&mut w.src);
		let port = w.add_port(baud, cfg);
		// `Device::new()` makes buffers of 128 bytes.
		let (rb, wb) = if w.src.chance(150) { (128, 128) } else { (w.src.us(10, 200), w.src.us(10, 200)) };
		(port, rb, wb, w.src.rounds(3, 20))
	};
	let (rv, wv) = {
		let mut w = sim.w.borrow_mut();
		(dirty(&mut w.src, rb), dirty(&mut w.src, wb))
	};
	let p = SimPort::new(sim, port);
	let mut dev = if rb == 128 && wb == 128 { Device::new(p) } else { Device::with_buffers(p, rv, wv) }.unwrap();
	let g = Gen { ids: vec![1], max_data: 150, missing: 0, rbuf: rb, wbuf: wb };
	for _ in 0..n {
		let mut w = sim.w.borrow_mut();
		let faulty = w.src.chance(250);
		w.ports[port].cfg.f_discard = if faulty { 300 } else { 0 };
		w.ports[port].cfg.f_write = if faulty { 400 } else { 0 };
		w.src.begin();
		let kind = w.src.weighted(&[6, 1, 1, 2]);
		let id = if w.src.chance(300) { w.src.pick(&[0xFF, 0xFD, 0xFE, 0x55]) } else { w.src.flat_byte() };
		let err = w.src.byte();
		let data = g.data(&mut w.src, 11);
		let fail = w.src.chance(100);
		w.src.end();
		if w.src.chance(200) {
			let now = w.now;
			let x = crate::motors::noise(&mut w.src);
			w.at(now, crate::world::Ev::Rx { port, bytes: x });
		}
		drop(w);
		ops::begin_op(sim, port);
		if kind == 3 {
			// Reading in between must not change what is sent later.
			let _ = dev.read(Duration::from_millis(1));
			continue;
		}
		let (r, want, fail) = match kind {
			0 => {
				let r = catch_unwind(AssertUnwindSafe(|| {
					dev.write_status(id, err, data.len(), |b| {
						if fail {
							let n = b.len() / 2;
							b[..n].fill(0x77);
							return Err(dynamixel2::BufferTooSmallError { required_size: 7777, total_size: 3 });
						}
						b.copy_from_slice(&data);
						Ok(())
					})
				}));
				let mut p = vec![err];
				p.extend(&data);
				(r, (id, STATUS, p), fail)
			},
			1 => (catch_unwind(AssertUnwindSafe(|| dev.write_status_ok(id))), (id, STATUS, vec![0]), false),
			_ => (catch_unwind(AssertUnwindSafe(|| dev.write_status_error(id, err))), (id, STATUS, vec![err]), false),
		};
		if fail {
			sim.w.borrow_mut().fk(Fk::EncodeFail);
		}
		let res = r.map_or_else(ops::panic_text, |r| Res::Write(r.map_err(ops::wr)));
		sim.w.borrow_mut().st.ops += 1;
		let c = sim.w.borrow().ports[port].calls.clone();
		if let Err(e) = check_wire(want.0, want.1, &want.2, wb, &sent(&res), &c, false, fail) {
			sim.w.borrow_mut().fail("C01", format!("device status {want:?}: {e}"));
			return;
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------------

/// The results of the read calls in a range must be what the caller sees.
fn check_reads(calls: &[Call], res: Option<&Result<ops::Resp, E>>, scan_end: bool) -> Result<(), String> {
	let mut first: Option<(usize, PortErr)> = None;
	let mut last_read = None;
	for (i, c) in calls.iter().enumerate() {
		if let Call::Read { res, .. } = c {
			last_read = Some(i);
			if let (Err(e), None) = (res, first) {
				first = Some((i, *e));
			}
		}
	}
	if let Some((i, e)) = first {
		if last_read != Some(i) {
			return Err(format!("went on reading after the port failed with {e}"));
		}
		return match res {
			None if scan_end && e.kind == ErrKind::Timeout => Ok(()),
			None => Err(format!("the failure {e} of the port was not reported")),
			Some(Err(E::Io(x))) if *x == e => Ok(()),
			Some(r) => Err(format!("the port failed with {e}, but the result is {r:?}")),
		};
	}
	match res {
		Some(Err(E::Io(x))) => Err(format!("reports {x}, but no read of the port failed")),
		Some(Err(E::Discard(_) | E::Write(_))) => Err("reports a failure to send while reading".to_string()),
		_ => Ok(()),
	}
}

/// Everything C13 says about one operation, from the calls made on the port.
pub fn check_port(op: &Op, out: &Out, calls: &[Call]) -> Result<(), String> {
	if let Op::SetBaud { baud } = op {
		let c: Vec<_> = calls.iter().filter(|c| matches!(c, Call::SetBaud { .. })).collect();
		if c.len() != 1 || calls.len() != 1 {
			return Err(format!("changing the baud rate made these calls: {calls:?}"));
		}
		let Call::SetBaud { baud: b, ok, nr } = c[0] else { unreachable!() };
		if b != baud {
			return Err(format!("asked the port for {b} instead of {baud} baud"));
		}
		return match &out.res {
			Res::Baud(Ok(())) if *ok => Ok(()),
			Res::Baud(Err(e)) if !*ok && *e == (PortErr { kind: ErrKind::SetBaud, nr: *nr }) => Ok(()),
			r => Err(format!("the port answered {:?} to a change of the baud rate, but the result is {r:?}", c[0])),
		};
	}
	if matches!(out.res, Res::Hang) {
		return Err("never returned".into());
	}
	let sends = ops::wire(op).is_some();
	let w: Vec<_> = writes(calls);
	if w.len() > 1 {
		return Err(format!("transmitted {} times", w.len()));
	}
	if !sends && (!w.is_empty() || calls.iter().any(|c| matches!(c, Call::Discard { .. }))) {
		return Err("only waits for a status packet, but transmitted or discarded something".into());
	}
	if calls.iter().any(|c| matches!(c, Call::SetBaud { .. })) {
		return Err("changed the baud rate".into());
	}
	// Failures of sending.
	let mut after = None;
	for (i, c) in calls.iter().enumerate() {
		let e = match c {
			Call::Discard { ok: false, nr } => E::Discard(PortErr { kind: ErrKind::Discard, nr: *nr }),
			Call::Write { ok: false, nr, .. } => E::Write(PortErr { kind: ErrKind::Write, nr: *nr }),
			_ => continue,
		};
		after = Some((i, e));
		break;
	}
	let head = match &out.res {
		Res::Single(Err(e)) | Res::Write(Err(e)) | Res::Multi(Err(e)) => Some(e),
		_ => None,
	};
	if let Some((i, e)) = after {
		if i + 1 != calls.len() {
			return Err(format!("went on with {:?} after sending failed with {e:?}", calls[i + 1]));
		}
		return if head == Some(&e) { Ok(()) } else { Err(format!("sending failed with {e:?}, but the result is {:?}", out.res)) };
	}
	if let Some(E::Discard(_) | E::Write(_)) = head {
		return Err(format!("reports {head:?}, but the port did not fail"));
	}
	let success = matches!(out.res, Res::Single(Ok(_)) | Res::Write(Ok(_)) | Res::Multi(Ok(_)));
	if sends && success && w.len() != 1 {
		return Err("reports success without transmitting anything".into());
	}
	// A reply is awaited only after transmitting.
	let wpos = calls.iter().position(|c| matches!(c, Call::Write { .. }));
	let rpos = calls.iter().position(|c| matches!(c, Call::Read { .. }));
	if let (true, Some(r)) = (sends, rpos) {
		if wpos.is_none_or(|w| w > r) {
			return Err("read before anything was transmitted".into());
		}
	}
	if calls.iter().rposition(|c| matches!(c, Call::Discard { .. })) > wpos && wpos.is_some() {
		return Err("discarded input after transmitting".into());
	}
	match &out.res {
		Res::Single(r) => check_reads(calls, Some(r), false),
		Res::Multi(Ok(m)) => {
			for (i, it) in m.items.iter().enumerate() {
				check_reads(&calls[it.c0..it.c1], Some(&it.res), false).map_err(|e| format!("item {i}: {e}"))?;
			}
			if m.ended.is_some() {
				check_reads(&calls[m.ec.0..m.ec.1], None, matches!(op, Op::Scan { .. })).map_err(|e| format!("at the end: {e}"))?;
			}
			Ok(())
		},
		_ => Ok(()),
	}
}

/// C13, client side: anything may fail at any call.
pub fn c13(sim: &W) {
	failures(sim, false);
}

/// C13 with many motors and long packets.
pub fn c13_large(sim: &W) {
	failures(sim, true);
}

fn failures(sim: &W, big: bool) {
	let (motors, max_data) = if big { sim.w.borrow_mut().src.pick(&[((30, 250), 60), ((1, 3), 3_000), ((1, 3), 20_000)]) } else { ((1, 3), 60) };
	let mut b = Bench::healthy(sim, &Setup { motors, missing: 60, max_data, tight: !big, ..Default::default() });
	let port = b.port;
	if b.src(|s| s.chance(80)) {
		// Creating a client asks for the baud rate.
		sim.w.borrow_mut().ports[port].cfg.no_baud = true;
		let k = b.src(|s| s.below(4));
		let p = || SimPort::new(sim, port);
		let r = match k {
			0 => Client::new(p()).err(),
			1 => Client::with_buffers(p(), vec![0; 20], vec![0; 20]).err(),
			2 => Device::new(p()).err(),
			_ => Device::with_buffers(p(), vec![0; 20], vec![0; 20]).err(),
		};
		sim.w.borrow_mut().ports[port].cfg.no_baud = false;
		let nr = sim.w.borrow().next_err;
		if r.map(|e| (e.kind, e.nr & !crate::world::TIMEOUT_LIKE)) != Some((ErrKind::GetBaud, nr)) {
			b.fail("C13", format!("the port cannot tell its baud rate, but creating a client or device gave {r:?}"));
			return;
		}
	}
	if b.src(|s| s.chance(300)) {
		b.bus.borrow_mut().f = LineFaults { lost: 100, crc: 80, foreign: 80, wronglen: 80, notstatus: 80, force_err: 100, noise: 100, ..Default::default() };
	}
	let n = b.src(|s| s.rounds(3, 16));
	let stuck = b.src(|s| s.stuck());
	let mut rate = sim.w.borrow().ports[port].baud;
	for i in 0..n {
		let g = b.g.clone();
		let op = b.src(|s| match s.weighted(&[10, 2, 2, 2]) {
			0 => g.any(s),
			1 => gen_raw(&g, s),
			2 => Op::SetBaud { baud: bench::gen_baud(s) },
			_ => {
				if s.chance(500) {
					Op::ReadStatus { expected: s.skewed(300) as u16 }
				} else {
					Op::ReadStatusTimeout { ns: s.skewed(100 * MS) }
				}
			},
		});
		if i == 0 || !stuck {
			let mut w = sim.w.borrow_mut();
			let w = &mut *w;
			let c = &mut w.ports[port].cfg;
			(c.f_discard, c.f_write, c.f_read, c.f_zero, c.f_baud) = (0, 0, 0, 0, 0);
			match w.src.weighted(&[3, 2, 2, 3, 1, 2]) {
				0 => c.f_baud = 300,
				1 => c.f_discard = 500,
				2 => c.f_write = 500,
				3 => c.f_read = 300,
				4 => {
					c.f_zero = 100;
					c.f_read = 50;
				},
				_ => (c.f_discard, c.f_write, c.f_read, c.f_zero, c.f_baud) = (100, 100, 100, 50, 500),
			}
		}
		// Something to read for the calls that only wait.
		if matches!(op, Op::ReadStatus { .. } | Op::ReadStatusTimeout { .. }) && b.src(|s| s.chance(700)) {
			let (x, at) = b.src(|s| {
				let id = s.flat_byte();
				let n = s.skewed(12) as usize;
				(proto::status(id, 0, &s.bytes(n)), s.below(40 * MS))
			});
			let now = sim.w.borrow().now;
			bench::stray(sim, port, x, now + at);
		}
		let out = b.exec(&op);
		let calls = b.calls();
		if let Err(e) = check_port(&op, &out, &calls) {
			b.fail("C13", format!("{op:?}: {e}"));
		}
		if matches!(out.res, Res::Baud(Ok(()))) {
			rate = sim.w.borrow().ports[port].baud;
		}
		if b.cl.baud_rate() != rate {
			b.fail("C13", format!("{op:?}: the client claims {} baud, but {rate} is in effect", b.cl.baud_rate()));
		}
		if let (Op::ReadStatus { expected }, Some(Call::Read { deadline, .. })) = (&op, calls.first()) {
			let want = out.t0 + proto::reply_window(u64::from(*expected), rate);
			if deadline.abs_diff(want) > 100 {
				b.fail("C13", format!("{op:?}: waits until {deadline} instead of {want} with {rate} baud in effect"));
			}
		}
		if failed(sim) {
			return;
		}
		b.settle();
	}
	let _ = NTY;
}

/// C13, device side.
pub fn c13_dev(sim: &W) {
	let (port, n) = {
		let mut w = sim.w.borrow_mut();
		let baud = bench::gen_baud(&mut w.src);
		let cfg = bench::healthy_port(&mut w.src);
		(w.add_port(baud, cfg), w.src.rounds(3, 20))
	};
	let mut rate = sim.w.borrow().ports[port].baud;
	let mut dev = Device::with_buffers(SimPort::new(sim, port), vec![0; 64], vec![0; 64]).unwrap();
	for _ in 0..n {
		let mut w = sim.w.borrow_mut();
		{
			let w = &mut *w;
			let c = &mut w.ports[port].cfg;
			(c.f_discard, c.f_write, c.f_read, c.f_zero, c.f_baud) =
				(w.src.pick(&[0, 300]), w.src.pick(&[0, 300]), w.src.pick(&[0, 100, 300]), w.src.pick(&[0, 100]), w.src.pick(&[0, 500]));
		}
		w.src.begin();
		let kind = w.src.below(6);
		let id = w.src.flat_byte();
		let k = w.src.skewed(40) as usize;
		let data = w.src.bytes(k);
		let baud = bench::gen_baud(&mut w.src);
		let timeout = w.src.skewed(50 * MS);
		let arrive = w.src.below(60 * MS);
		w.src.end();
		let now = w.now;
		if kind < 3 {
			w.at(now + arrive, crate::world::Ev::Rx { port, bytes: proto::encode(id, 0x03, &[&[1, 0], &data[..]].concat()) });
		}
		drop(w);
		ops::begin_op(sim, port);
		let t = Duration::from_nanos(timeout);
		let unit = |_| ops::Resp { id: 0, alert: false, data: vec![], err: None };
		let r = catch_unwind(AssertUnwindSafe(|| match kind {
			0 => Res::Single(dev.read(t).map(|_| ()).map(unit).map_err(ops::rd)),
			1 => Res::Single(dev.read_owned(t).map(|_| ()).map(unit).map_err(ops::rd)),
			2 => Res::Single(dev.read_raw_instruction_timeout(t).map(|_| ()).map(unit).map_err(ops::rd)),
			3 => Res::Baud(dev.set_baud_rate(baud)),
			4 => Res::Write(
				dev.write_status(id, 1, data.len(), |b| {
					b.copy_from_slice(&data);
					Ok(())
				})
				.map_err(ops::wr),
			),
			_ => Res::Write(dev.write_status_ok(id).map_err(ops::wr)),
		}));
		let out = Out { res: r.unwrap_or_else(ops::panic_text), t0: now, t1: 0 };
		let calls = sim.w.borrow().ports[port].calls.clone();
		sim.w.borrow_mut().st.ops += 1;
		// The same rules as for a client operation of the same shape.
		let op = match kind {
			0..=2 => Op::ReadStatusTimeout { ns: timeout },
			3 => Op::SetBaud { baud },
			_ => Op::BAction,
		};
		let mut w = sim.w.borrow_mut();
		if let Err(e) = check_port(&op, &out, &calls) {
			w.fail("C13", format!("device call {kind}: {e}"));
		}
		if matches!(out.res, Res::Baud(Ok(()))) {
			rate = baud;
		}
		if dev.baud_rate() != rate || w.ports[port].baud != rate {
			w.fail("C13", format!("the device claims {} baud, but {rate} is in effect", dev.baud_rate()));
		}
		if !w.fails.is_empty() {
			return;
		}
		drop(w);
		let t = sim.w.borrow().now + 70 * MS;
		run_until(sim, t);
	}
}

/// Any scenario with a long history: hundreds of operations on one bus, sometimes more than 65536.
pub fn long(sim: &W, f: fn(&W)) {
	{
		let w = &mut *sim.w.borrow_mut();
		w.src.long = true;
		w.probe("long history");
	}
	f(sim);
}
