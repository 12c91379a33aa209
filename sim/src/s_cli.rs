//! C16: the command line tool, as a whole process on a simulated operating system.
//!
//! Parent and child make the same plan from the same decisions. The child is the real executable; a preloaded library
//! gives it the simulated kernel, line and motors, and reports at its end what they saw.

use crate::bench::{self, expectations, EWant};
use crate::choice::Src;
use crate::motors::{add_motor, shadow_apply, Bus, BusState, LineFaults, Regs};
use crate::ops::{self, Op};
use crate::os::{self, Ctx, OsCfg, DEFAULT_PORT};
use crate::proto::{self, ins, BROADCAST};
use crate::s_os;
use crate::world::{drain, Ev, Fk, PortCfg, World, MS, W};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::OnceLock;

/// The tool's buffers.
const BUF: usize = 128;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
	/// Nothing fails.
	Healthy,
	/// Replies are lost or bad one by one.
	Mild,
	/// Anything.
	Chaos,
	/// Commands that never get as far as the port.
	Args,
}

const MODES: [(&str, Mode); 4] = [("healthy", Mode::Healthy), ("mild", Mode::Mild), ("chaos", Mode::Chaos), ("args", Mode::Args)];

#[derive(Clone, Debug, PartialEq)]
enum What {
	/// This operation; the way its result is printed.
	Op(Op, Show),
	/// Refused: fails without sending anything.
	Refused,
	/// Not understood: fails without touching the port.
	Invalid,
	/// Completion script to standard output or a file.
	Completion { file: Option<&'static str> },
	Help,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Show {
	Ping,
	Scan,
	Ok,
	/// Decimal and hexadecimal value of so many bytes.
	Value(usize),
	Bytes,
}

pub struct Plan {
	mode: Mode,
	argv: Vec<String>,
	what: What,
	port: String,
	baud: u32,
	verbose: u32,
	motors: Vec<(Regs, Option<u8>)>,
	os: OsCfg,
	faults: LineFaults,
	lazy: u32,
	/// Bytes in the port's buffer before the tool starts.
	stray: Vec<u8>,
}

fn spell_broadcast(s: &mut Src) -> String {
	s.pick(&["broadcast", "254", "Broadcast", "BROADCAST", "bRoAdCaSt"]).to_string()
}

fn number(s: &mut Src, bytes: usize) -> u32 {
	let max = if bytes == 4 { u64::from(u32::MAX) } else { (1 << (8 * bytes)) - 1 };
	match s.weighted(&[3, 3, 2]) {
		0 => s.skewed(max) as u32,
		1 => {
			let b = s.bytes(bytes);
			b.iter().rev().fold(0, |a, x| a << 8 | u32::from(*x))
		},
		_ => s.pick(&[0, max, max / 2, max / 2 + 1, 1]) as u32,
	}
}

pub fn plan(w: &mut World, mode: Mode) -> Plan {
	// What the system does.
	let mut os = s_os::benign(w);
	if mode == Mode::Chaos {
		s_os::fault(w, &mut os);
		let s = &mut w.src;
		match s.weighted(&[6, 1, 1]) {
			0 => {},
			1 => os.f_open = 500,
			_ => os.f_out = s.pick(&[100, 400, 1000]),
		}
	}
	let s = &mut w.src;
	if mode == Mode::Args && s.chance(300) {
		os.f_out = s.pick(&[100, 400, 1000]);
	}
	let rates = |s: &mut Src, v: &[u32]| s.pick(v);
	let faults = match mode {
		Mode::Healthy | Mode::Args => LineFaults::default(),
		Mode::Mild => {
			let r = rates(s, &[300, 600]);
			match s.weighted(&[2, 2, 2, 2, 2]) {
				0 => LineFaults { lost: r, deaf: r, ..Default::default() },
				1 => LineFaults { crc: r, ..Default::default() },
				2 => LineFaults { force_err: r, ..Default::default() },
				3 => LineFaults { wronglen: r, ..Default::default() },
				_ => LineFaults { lost: 150, deaf: 80, crc: 150, force_err: 150, wronglen: 150, ..Default::default() },
			}
		},
		Mode::Chaos => {
			let r = rates(s, &[200, 500]);
			match s.weighted(&[2, 2, 2, 2, 1, 1, 3]) {
				0 => LineFaults { flip: r, loss: r, dup: r, insert: r, ..Default::default() },
				1 => LineFaults { trunc: r, hdr: r, len: r, ..Default::default() },
				2 => LineFaults { noise: r, echo: r, ..Default::default() },
				3 => LineFaults { foreign: r, notstatus: r, wronglen: r, ..Default::default() },
				4 => LineFaults { late: r, twice: r, ..Default::default() },
				5 => LineFaults { crash: r, ins_lost: r, ins_damage: r, ..Default::default() },
				_ => LineFaults {
					flip: 30,
					loss: 30,
					dup: 20,
					insert: 20,
					trunc: 20,
					crc: 30,
					hdr: 30,
					len: 30,
					lost: 50,
					twice: 40,
					late: 40,
					foreign: 40,
					wronglen: 40,
					notstatus: 30,
					echo: 50,
					noise: 50,
					crash: 20,
					deaf: 20,
					ins_lost: 20,
					ins_damage: 20,
					force_err: 50,
					..Default::default()
				},
			}
		},
	};
	let lazy = s.pick(&[100, 300, 650]);
	let n = 4 - s.weighted(&[1, 2, 3, 3, 1]);
	let ids = bench::gen_ids(s, n);
	let motors: Vec<_> = ids
		.iter()
		.map(|id| {
			s.begin();
			let mut r = Regs::gen(s, *id);
			r.errcode = if s.chance(200) { s.flat_byte() } else { 0 };
			let d = if s.chance(200) { Some(s.below(3) as u8) } else { None };
			s.end();
			(r, d)
		})
		.collect();
	// What is asked for.
	let id = match s.weighted(&[8, 1]) {
		0 if n > 0 => ids[s.below(n as u64) as usize],
		_ => match s.below(256) as u8 {
			BROADCAST => 1,
			id => id,
		},
	};
	let bcast = s.chance(300);
	let addr = match s.weighted(&[4, 1, 1]) {
		0 => s.below(200) as u16,
		1 => number(s, 2) as u16,
		_ => s.pick(&[0, 1, 64, 132, 146, 147, 255, 256, 0xFFFF, 0xFFFD, 0xFDFF]),
	};
	let cmd = if mode == Mode::Args { 10 + s.weighted(&[2, 3, 4, 1]) } else { s.weighted(&[5, 2, 3, 3, 3, 3, 2, 3, 2, 2]) };
	let idtext = |s: &mut Src, b: bool| if b { spell_broadcast(s) } else { id.to_string() };
	let mut sub: Vec<String> = vec![];
	let what = match cmd {
		0 => {
			sub = vec!["ping".into(), idtext(s, bcast)];
			if bcast {
				What::Op(Op::Scan { take: None, via: 0 }, Show::Scan)
			} else {
				What::Op(Op::Ping { id }, Show::Ping)
			}
		},
		1 => {
			sub = vec!["reboot".into(), idtext(s, bcast)];
			What::Op(if bcast { Op::BReboot } else { Op::Reboot { id } }, Show::Ok)
		},
		2..=4 => {
			let bytes = [1, 2, 4][cmd - 2];
			sub = vec![format!("read{}", bytes * 8), id.to_string(), addr.to_string()];
			What::Op(Op::ReadBytes { id, addr, count: bytes, kind: 0 }, Show::Value(usize::from(bytes)))
		},
		5 => {
			let count = match s.weighted(&[5, 2, 1]) {
				0 => s.skewed(40) as u16,
				1 => s.int(90, 130) as u16,
				_ if ids.contains(&id) => s.skewed(4000) as u16,
				_ => s.skewed(0xFFFF) as u16,
			};
			sub = vec!["read".into(), id.to_string(), addr.to_string(), count.to_string()];
			What::Op(Op::ReadBytes { id, addr, count, kind: 0 }, Show::Bytes)
		},
		6..=8 => {
			let bytes = [1, 2, 4][cmd - 6];
			let v = number(s, bytes);
			sub = vec![format!("write{}", bytes * 8), idtext(s, bcast), addr.to_string(), v.to_string()];
			let id = if bcast { BROADCAST } else { id };
			What::Op(Op::WriteBytes { id, addr, data: v.to_le_bytes()[..bytes].to_vec() }, Show::Ok)
		},
		9 => {
			let n = match s.weighted(&[5, 1]) {
				0 => s.skewed(30) as usize,
				_ => s.us(90, 140),
			};
			let data = s.bytes(n);
			sub = vec!["write".into(), idtext(s, bcast), addr.to_string()];
			sub.extend(data.iter().map(u8::to_string));
			let id = if bcast { BROADCAST } else { id };
			What::Op(Op::WriteBytes { id, addr, data }, Show::Ok)
		},
		10 => {
			let shell = s.pick(&["bash", "zsh", "fish", "elvish", "powershell"]);
			sub = vec!["shell-completion".into(), "--shell".into(), shell.into()];
			let file = match s.weighted(&[3, 1, 2, 1]) {
				0 => None,
				1 => {
					sub.extend(["-o".into(), "-".into()]);
					None
				},
				2 => Some(s.pick(&["completion", "completion", "old"])),
				_ => Some(s.pick(&["missing/completion", "."])),
			};
			if let Some(f) = file {
				sub.extend([s.pick(&["-o", "--output"]).into(), format!("@/{f}")]);
			}
			What::Completion { file }
		},
		11 => {
			let b = spell_broadcast(s);
			let r = s.pick(&["read8", "read16", "read32", "read"]);
			sub = vec![r.into(), b, addr.to_string()];
			if r == "read" {
				sub.push(s.skewed(100).to_string());
			}
			What::Refused
		},
		12 => {
			let bad_id = s.pick(&["256", "-1", "abc", "", "1.5", "broadcasts", "0x", "0x5", "99999999999"]).to_string();
			let good = id.to_string();
			let a = addr.to_string();
			let c: Vec<String> = match s.below(14) {
				0 => vec!["ping".into(), bad_id],
				1 => vec!["reboot".into(), bad_id],
				2 => vec!["read8".into(), bad_id, a],
				3 => vec!["write8".into(), bad_id, a, "1".into()],
				4 => vec!["read16".into(), good, "65536".into()],
				5 => vec!["write8".into(), good, a, "256".into()],
				6 => vec!["write16".into(), good, a, "65536".into()],
				7 => vec!["write32".into(), good, a, "4294967296".into()],
				8 => vec!["write".into(), good, a, "1".into(), "256".into(), "2".into()],
				9 => vec!["read".into(), good, a, "65536".into()],
				10 => vec!["read32".into(), good],
				11 => vec!["ping".into(), good, "extra".into()],
				12 => vec!["-b".into(), s.pick(&["x", "0", "4294967296", "-5", ""]).into(), "ping".into(), good],
				_ => vec![s.pick(&["pong", "read64", "", "write"]).into()],
			};
			sub = c;
			What::Invalid
		},
		_ => {
			sub.push(s.pick(&["--help", "-h"]).into());
			What::Help
		},
	};
	// Options anywhere.
	let mut port = String::from_utf8_lossy(DEFAULT_PORT).into_owned();
	let mut baud = 57_600;
	let mut verbose = 0;
	let mut opts: Vec<Vec<String>> = vec![];
	// An invalid command line stays the only thing that is wrong.
	if s.chance(700) {
		port = s.pick(&["/sim-tty/0", "/sim-tty/by-id/usb-FTDI-if00-port0", "/sim-tty/x y"]).to_string();
		opts.push(match s.below(4) {
			0 => vec!["-s".into(), port.clone()],
			1 => vec!["--serial-port".into(), port.clone()],
			2 => vec![format!("--serial-port={port}")],
			_ => vec![format!("-s{port}")],
		});
	}
	if s.chance(700) && !sub.contains(&"-b".to_string()) {
		baud = bench::gen_baud(s);
		opts.push(match s.below(4) {
			0 => vec!["-b".into(), baud.to_string()],
			1 => vec!["--baud-rate".into(), baud.to_string()],
			2 => vec![format!("--baud-rate={baud}")],
			_ => vec![format!("-b{baud}")],
		});
	}
	match s.weighted(&[6, 1, 1, 1]) {
		0 => {},
		1 => {
			verbose = 1;
			opts.push(vec!["-v".into()]);
		},
		2 => {
			verbose = 2;
			opts.push(vec!["-vv".into()]);
		},
		_ => {
			verbose = 2;
			opts.push(vec!["--verbose".into()]);
			opts.push(vec!["-v".into()]);
		},
	}
	let (mut front, mut back) = (vec![], vec![]);
	for o in opts {
		if s.chance(400) {
			back.extend(o);
		} else {
			front.extend(o);
		}
	}
	if verbose > 0 && !front.iter().any(|x| x.contains('v')) && !back.iter().any(|x| x.contains('v')) {
		verbose = 0;
	}
	let mut argv = front;
	argv.extend(sub);
	argv.extend(back);
	// Left over from before.
	let mut stray = vec![];
	if s.chance(250) {
		let from = if s.chance(800) { id } else { s.flat_byte() };
		let n = match &what {
			What::Op(_, Show::Ping | Show::Scan) => 3,
			What::Op(Op::ReadBytes { count, .. }, _) => usize::from(*count).min(200),
			_ => 0,
		};
		let d = s.bytes(n);
		stray = match s.weighted(&[4, 1, 1]) {
			0 => proto::status(from, 0, &d),
			1 => proto::status(from, s.flat_byte(), &d),
			_ => s.bytes(5),
		};
	}
	// What is still in the kernel's queue eats into the response window.
	let window = proto::reply_window(0, baud);
	while os.queue > 1 && proto::transfer_ns(os.queue.min(BUF) as u64, baud) > window / 10 {
		os.queue /= 2;
	}
	Plan { mode, argv, what, port, baud, verbose, motors, os, faults, lazy, stray }
}

// The child.

struct Child {
	sim: W,
	ctx: Rc<Ctx>,
	bus: Rc<RefCell<BusState>>,
	before: Vec<Regs>,
	after: Vec<Regs>,
}

static CHILD: AtomicPtr<Child> = AtomicPtr::new(std::ptr::null_mut());
pub const MARK: &[u8] = b"\n@@DXL-REPORT\n";

/// Before the tool's main function: give the process its simulated system.
pub fn child_start() {
	let get = |k: &str| std::env::var(k).ok();
	let Some(src) = get("DXL_SRC").and_then(|s| Src::from_origin(&s)) else { return };
	let Some(mode) = get("DXL_MODE").and_then(|m| MODES.iter().find(|x| x.0 == m).map(|x| x.1)) else { return };
	let mut world = World::new(src, get("DXL_TRACE").is_some());
	let p = plan(&mut world, mode);
	let port = world.add_port(57_600, PortCfg::default());
	let sim = world.sim();
	let bus = Rc::new(RefCell::new(BusState::new(port)));
	bus.borrow_mut().lazy = p.lazy;
	bus.borrow_mut().f = p.faults.clone();
	let before: Vec<Regs> = p.motors.iter().map(|m| m.0.clone()).collect();
	for (r, d) in &p.motors {
		add_motor(&sim, &bus, r.clone(), *d, 8192);
	}
	*sim.nodes.borrow_mut() = Some(Box::new(Bus(bus.clone())));
	let mut after = before.clone();
	if let What::Op(op, _) = &p.what {
		shadow_apply(&mut after, op, &[]);
	}
	if !p.stray.is_empty() {
		let mut w = sim.w.borrow_mut();
		let now = w.now;
		w.fk(Fk::StaleBytes);
		w.at(now, Ev::Rx { port, bytes: p.stray.clone() });
	}
	let ctx = os::install_process(&sim, port, p.os.clone());
	{
		let mut w = sim.w.borrow_mut();
		w.note("tool", &[], || format!("{:?}; motors {:?}; {:?}", p.argv, p.motors.iter().map(|m| m.0.id).collect::<Vec<_>>(), p.os));
	}
	let c = Box::new(Child { sim, ctx, bus, before, after });
	CHILD.store(Box::into_raw(c), Ordering::Relaxed);
	unsafe {
		libc::atexit(at_exit);
		for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGALRM] {
			libc::signal(s, on_signal as extern "C" fn(libc::c_int) as libc::sighandler_t);
		}
		libc::alarm(20);
	}
}

extern "C" fn at_exit() {
	report(0);
}

extern "C" fn on_signal(s: libc::c_int) {
	report(s);
	unsafe { libc::_exit(128 + s) };
}

fn put(mut b: &[u8]) {
	while !b.is_empty() {
		let n = unsafe { libc::syscall(libc::SYS_write, 1, b.as_ptr(), b.len()) };
		if n < 0 {
			return;
		}
		b = &b[n as usize..];
	}
}

fn hex(b: &[u8]) -> String {
	b.iter().fold(String::new(), |mut s, x| {
		let _ = write!(s, "{x:02x}");
		s
	})
}

fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

fn list<T: ToString>(i: impl Iterator<Item = T>) -> String {
	i.map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn report(signal: i32) {
	let p = CHILD.swap(std::ptr::null_mut(), Ordering::Relaxed);
	if p.is_null() {
		return;
	}
	// Never freed: whoever comes after may still use it.
	let c: &Child = unsafe { &*p };
	if signal == 0 {
		// What is still on its way gets there.
		drain(&c.sim);
	}
	let w = unsafe { &*c.sim.w.as_ptr() };
	let t = unsafe { &*c.ctx.tty.as_ptr() };
	let b = unsafe { &*c.bus.as_ptr() };
	let mut s = String::new();
	let mut kv = |k: &str, v: String| {
		let _ = writeln!(s, "{k}={v}");
	};
	kv("signal", signal.to_string());
	kv("hash", w.hash.to_string());
	kv("steps", w.steps.to_string());
	kv("now", w.now.to_string());
	kv("fk", list(w.st.fk.iter()));
	kv("rec", list(w.src.rec.iter()));
	kv("spans", list(w.src.spans.iter().flat_map(|x| [x.0, x.1])));
	kv("sent", hex(&t.sent));
	kv("lost", t.lost.to_string());
	kv("got", hex(&w.ports[c.ctx.port].got.iter().map(|x| x.b).collect::<Vec<_>>()));
	kv("opens", t.opens.to_string());
	kv("path", hex(&t.path));
	kv("hard", t.log.iter().filter(|x| x.hard).count().to_string());
	kv("openfail", t.log.iter().filter(|x| x.hard && x.name == "open").count().to_string());
	kv("hung", t.hung.unwrap_or("").to_string());
	kv("raw", c.ctx.is_raw(t.rate).err().unwrap_or_default());
	kv("rate", t.rate.to_string());
	kv("outfail", t.out_failed.to_string());
	kv("delivered", list(b.delivered.iter().map(|(m, d)| format!("{m}:{}", hex(d)))));
	let regs = b.motors.iter().enumerate().map(|(i, m)| match (m.regs == c.before[i], m.regs == c.after[i]) {
		(true, true) => "e",
		(true, false) => "b",
		(false, true) => "a",
		_ => "x",
	});
	kv("regs", list(regs));
	for l in w.text.iter().flatten() {
		kv("T", l.replace('\n', " "));
	}
	put(MARK);
	put(s.as_bytes());
	put(b"END\n");
}

// The parent.

fn tool() -> &'static str {
	static P: OnceLock<String> = OnceLock::new();
	P.get_or_init(|| std::env::var("DXL_CLI").expect("DXL_CLI is not set"))
}

fn preload() -> &'static str {
	static P: OnceLock<String> = OnceLock::new();
	P.get_or_init(|| std::env::var("DXL_PRELOAD").expect("DXL_PRELOAD is not set"))
}

/// What the tool writes for a shell when nothing fails.
fn completion(shell: &str) -> Vec<u8> {
	static P: OnceLock<BTreeMap<String, Vec<u8>>> = OnceLock::new();
	let m = P.get_or_init(|| {
		["bash", "zsh", "fish", "elvish", "powershell"]
			.iter()
			.map(|s| {
				let o = Command::new(tool()).args(["shell-completion", "--shell", s]).env_clear().output();
				(s.to_string(), o.map(|o| o.stdout).unwrap_or_default())
			})
			.collect()
	});
	m.get(shell).cloned().unwrap_or_default()
}

struct Scratch(std::path::PathBuf);

impl Scratch {
	fn new() -> Scratch {
		static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
		let d = std::env::temp_dir().join(format!("dxlcli.{}.{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
		let _ = std::fs::create_dir_all(&d);
		// A longer file that is to be replaced.
		let _ = std::fs::write(d.join("old"), [b'#'; 100_000]);
		Scratch(d)
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_file(self.0.join("completion"));
		let _ = std::fs::remove_file(self.0.join("old"));
		let _ = std::fs::remove_dir(&self.0);
	}
}

pub struct Report(BTreeMap<String, String>);

impl Report {
	fn s(&self, k: &str) -> &str {
		self.0.get(k).map_or("", |s| s)
	}
	fn n(&self, k: &str) -> u64 {
		self.s(k).parse().unwrap_or(0)
	}
	fn list(&self, k: &str) -> Vec<u64> {
		self.s(k).split(',').filter_map(|x| x.parse().ok()).collect()
	}
}

/// What the tool printed: everything that looks like a result.
#[derive(Debug, Default, PartialEq, Eq, Clone)]
struct Printed {
	/// Texts after the elapsed time.
	results: Vec<String>,
	/// ID, alert, model, firmware
	motors: Vec<(u8, bool, u16, u8)>,
	errors: usize,
	alerts: usize,
}

fn parse(err: &str) -> Printed {
	let mut p = Printed::default();
	let mut cur: Option<(u8, bool, Option<u16>)> = None;
	for l in err.lines() {
		let t = l.trim_start_matches(|c: char| c.is_whitespace() || "├─└│".contains(c));
		if l.starts_with("Error:") {
			p.errors += 1;
		} else if l.starts_with("Warning:") && l.contains("lert") {
			p.alerts += 1;
		} else if let Some(x) = t.strip_prefix("Motor ID: ") {
			cur = x.trim().parse().ok().map(|id| (id, false, None));
		} else if t.strip_prefix("Alert: ") == Some("true") {
			if let Some(c) = &mut cur {
				c.1 = true;
			}
		} else if let Some(x) = t.strip_prefix("Model: ") {
			if let Some(c) = &mut cur {
				c.2 = x.trim().parse().ok();
			}
		} else if let Some(x) = t.strip_prefix("Firmware: ") {
			if let (Some((id, a, Some(m))), Ok(f)) = (cur.take(), x.trim().parse()) {
				p.motors.push((id, a, m, f));
			}
		} else if t.starts_with(|c: char| c.is_ascii_digit()) {
			if let Some((_, x)) = t.split_once(": ") {
				p.results.push(x.trim().to_string());
			}
		}
	}
	p
}

/// Does this text state exactly these data?
fn states(show: Show, text: &str, data: &[u8]) -> bool {
	let nums = |s: &str| s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<_>>();
	match show {
		Show::Ok => text.eq_ignore_ascii_case("ok"),
		Show::Ping => data.len() == 3 && nums(text) == [u64::from(u16::from_le_bytes([data[0], data[1]])), u64::from(data[2])],
		Show::Bytes => nums(text) == data.iter().map(|x| u64::from(*x)).collect::<Vec<_>>(),
		Show::Value(n) => {
			let v = data.iter().rev().fold(0u64, |a, x| a << 8 | u64::from(*x));
			let Some((dec, hex)) = text.split_once("(0x") else { return false };
			let digits: String = hex.chars().filter(char::is_ascii_hexdigit).collect();
			data.len() == n && dec.trim().parse() == Ok(v) && digits.len() == 2 * n && u64::from_str_radix(&digits, 16) == Ok(v)
		},
		Show::Scan => false,
	}
}

fn run(sim: &W, mode: Mode) {
	let (p, origin, text) = {
		let w = &mut *sim.w.borrow_mut();
		let o = w.src.origin();
		(plan(w, mode), o, w.text.is_some())
	};
	let scratch = matches!(p.what, What::Completion { file: Some(_) }).then(Scratch::new);
	let dir = scratch.as_ref().map_or_else(String::new, |s| s.0.display().to_string());
	let argv: Vec<String> = p.argv.iter().map(|a| a.strip_prefix("@/").map_or_else(|| a.clone(), |f| format!("{dir}/{f}"))).collect();
	let name = MODES.iter().find(|m| m.1 == mode).unwrap().0;
	let mut cmd = Command::new(tool());
	cmd.args(&argv).env_clear().env("LD_PRELOAD", preload()).env("DXL_SRC", origin).env("DXL_MODE", name);
	if text {
		cmd.env("DXL_TRACE", "1");
	}
	let out = match cmd.stdin(Stdio::null()).output() {
		Ok(o) => o,
		Err(e) => {
			sim.w.borrow_mut().fail("C16", format!("the tool cannot be started: {e}"));
			return;
		},
	};
	// What the child reports, and what it printed before.
	let at = out.stdout.windows(MARK.len()).rposition(|x| x == MARK);
	let stdout = out.stdout[..at.unwrap_or(out.stdout.len())].to_vec();
	let rep = String::from_utf8_lossy(&out.stdout[at.map_or(out.stdout.len(), |a| a + MARK.len())..]).into_owned();
	let mut r = Report(BTreeMap::new());
	let mut lines = vec![];
	for l in rep.lines() {
		match l.split_once('=') {
			Some(("T", v)) => lines.push(v.to_string()),
			Some((k, v)) => {
				r.0.insert(k.to_string(), v.to_string());
			},
			None => {},
		}
	}
	let err = String::from_utf8_lossy(&out.stderr).into_owned();
	let code = out.status.code();
	{
		let w = &mut *sim.w.borrow_mut();
		if rep.ends_with("END\n") {
			// The child went on where the plan ended.
			w.src.rec = r.list("rec");
			w.src.spans = r.list("spans").chunks(2).map(|c| (c[0] as usize, c[1] as usize)).collect();
			w.hash = r.n("hash");
			w.steps = r.n("steps");
			w.now = r.n("now");
			for (i, n) in r.list("fk").into_iter().enumerate() {
				w.st.fk[i] += n;
			}
			if let Some(t) = &mut w.text {
				t.extend(lines);
			}
		} else {
			w.fail("C16", format!("no report from {argv:?}: {:?}; {err}", out.status));
			return;
		}
		w.st.ops += 1;
		w.note("exit", format!("{code:?} {}", err.replace(&dir, "")).as_bytes(), || format!("{code:?}"));
		for l in err.lines() {
			w.note("stderr", &[], || l.to_string());
		}
	}
	if let Err(m) = judge(sim, &p, &r, code.filter(|_| out.status.signal().is_none()), &stdout, &err, scratch.as_ref()) {
		sim.w.borrow_mut().fail("C16", format!("{:?}: {m}", p.argv));
	}
}

fn judge(sim: &W, p: &Plan, r: &Report, code: Option<i32>, stdout: &[u8], err: &str, scratch: Option<&Scratch>) -> Result<(), String> {
	let probe = |n| sim.w.borrow_mut().probe(n);
	let shown = || err.lines().take(6).collect::<Vec<_>>().join(" / ");
	match r.n("signal") {
		0 => {},
		14 => return Err("the tool hangs: it did not end within 20 s of wall time".into()),
		s => return Err(format!("the tool crashed with signal {s}: {}", shown())),
	}
	if !r.s("hung").is_empty() {
		return Err(format!("the tool hangs: {}", r.s("hung")));
	}
	let code = match code {
		Some(101) | None => return Err(format!("the tool crashed: {}", shown())),
		Some(c) => c,
	};
	let sent = unhex(r.s("sent"));
	let opens = r.n("opens");
	let hard = r.n("hard");
	// Output that the system refused says nothing.
	let mute = r.n("outfail") > 0;
	let out = parse(err);
	let hexs = |b: &[u8]| proto::hex(b);
	let (op, show) = match &p.what {
		What::Op(op, show) => (op, *show),
		what => {
			if !sent.is_empty() {
				return Err(format!("sent {}", hexs(&sent)));
			}
			if !matches!(what, What::Refused) && opens > 0 {
				return Err("the port was opened".into());
			}
			// A script that is there completes every command and option of the tool.
			const WORDS: [&str; 13] =
				["ping", "reboot", "read8", "read16", "read32", "read", "write8", "write16", "write32", "write", "shell-completion", "serial-port", "baud-rate"];
			let full = |b: &[u8]| {
				let t = String::from_utf8_lossy(b);
				t.contains("dynamixel2") && WORDS.iter().all(|w| t.contains(w))
			};
			let same = |b: &[u8]| full(b) && p.argv.iter().any(|a| completion(a) == b);
			match what {
				What::Refused => {
					if code == 0 {
						return Err("a read from all motors exits with status 0".into());
					}
					if !out.results.is_empty() || (!mute && err.is_empty()) {
						return Err(format!("a read from all motors prints {:?}", shown()));
					}
					probe("broadcast read refused");
				},
				What::Invalid => {
					if code == 0 || (!mute && err.is_empty()) {
						return Err(format!("exits with status {code} and prints {:?}", shown()));
					}
					probe("invalid arguments");
				},
				What::Completion { file: None } => {
					if code == 0 && !same(stdout) {
						return Err(format!("exits with status 0 after {} bytes of the script", stdout.len()));
					}
					if code != 0 && r.n("outfail") == 0 {
						return Err(format!("exits with status {code}: {}", shown()));
					}
					probe(if code == 0 { "completion script" } else { "completion script failed" });
				},
				What::Completion { file: Some(f) } => {
					let got = scratch.and_then(|s| std::fs::read(s.0.join(f)).ok());
					if code == 0 && !got.as_deref().is_some_and(same) {
						return Err(format!("exits with status 0, but the file has {:?} bytes", got.map(|x| x.len())));
					}
					if code != 0 && r.n("outfail") == 0 && ["completion", "old"].contains(f) {
						return Err(format!("exits with status {code}: {}", shown()));
					}
					probe(if code == 0 { "completion script" } else { "completion script failed" });
				},
				_ => {
					if code != 0 && !mute {
						return Err(format!("exits with status {code}"));
					}
				},
			}
			return Ok(());
		},
	};
	if code > 1 {
		return Err(format!("exits with status {code}: {}", shown()));
	}
	// What went out.
	let (id, instr, params) = ops::wire(op).unwrap();
	let want = proto::encode(id, instr, &params);
	let fits = want.len() <= BUF;
	if opens > 1 || (opens == 1 && unhex(r.s("path")) != p.port.as_bytes()) {
		return Err(format!("opened {} instead of {}", String::from_utf8_lossy(&unhex(r.s("path"))), p.port));
	}
	if !want.starts_with(&sent) || r.n("lost") > 0 {
		return Err(format!("sent {}, expected {}", hexs(&sent), hexs(&want)));
	}
	if sent != want && (code == 0 || (hard == 0 && fits && p.os.again == 0)) {
		return Err(format!("sent only {} of {}, exits with status {code}", hexs(&sent), hexs(&want)));
	}
	if !sent.is_empty() {
		if !r.s("raw").is_empty() {
			return Err(format!("the terminal is not configured for the bus: {}", r.s("raw")));
		}
		if r.n("rate") != u64::from(p.baud) {
			return Err(format!("the port runs at {} instead of {}", r.n("rate"), p.baud));
		}
	}
	// What came of it.
	if p.faults.crash == 0 && p.faults.ins_damage == 0 {
		let bad = r.s("regs").split(',').any(|x| x == "x");
		if bad {
			return Err("a motor did something else than what was asked for".into());
		}
		if p.mode == Mode::Healthy && sent == want && r.s("regs").split(',').any(|x| x == "b") {
			return Err("a motor did not do what was asked for".into());
		}
	}
	if code == 1 && !mute && (out.errors == 0 || (show != Show::Scan && !out.results.is_empty())) {
		return Err(format!("exits with status 1 and prints {:?}", shown()));
	}
	if code == 0 && !mute && show != Show::Scan && out.errors > 0 {
		return Err(format!("exits with status 0 and prints {:?}", shown()));
	}
	let got = unhex(r.s("got"));
	let seen = proto::scan_all(&got);
	let broadcast = id == BROADCAST;
	let entry = |q: &proto::Pkt| (q.id, q.err & 0x80 != 0, u16::from_le_bytes([q.params[0], q.params[1]]), q.params[2]);
	if !broadcast {
		let size = usize::from(ops::replies(op)[0].1);
		let good = |q: &proto::Pkt| q.is_status() && q.id == id && q.err & 0x7F == 0 && q.params.len() == size;
		if hard > 0 && code == 0 {
			return Err("exits with status 0 although a system call failed".into());
		}
		let shows = |q: &proto::Pkt| {
			mute || (out.results.len() == 1 && states(show, &out.results[0], &q.params) && (q.err & 0x80 != 0) == (out.alerts == 1) && out.alerts < 2)
		};
		if code == 0 && !seen.iter().any(|q| good(q) && shows(q)) {
			return Err(format!("exits with status 0 and prints {:?}, but received {}", shown(), hexs(&got)));
		}
		if matches!(p.mode, Mode::Healthy | Mode::Mild) && fits {
			// Exactly what the motor's reply says.
			let reply = r.s("delivered").split(',').find_map(|d| {
				let (m, d) = d.split_once(':')?;
				(p.motors[m.parse::<usize>().ok()?].0.id == id).then(|| unhex(d))
			});
			let big = reply.as_ref().is_some_and(|d| d.len() > BUF);
			let pkt = reply.as_ref().and_then(|d| proto::decode_at(d, 0)).filter(good);
			match (&pkt, code) {
				(Some(q), 0) if shows(q) => probe("confirmed"),
				(Some(q), 0) => return Err(format!("prints {:?} for the reply {q:?}", shown())),
				(_, 1) if big => probe("reply too long"),
				(Some(q), _) => return Err(format!("exits with status {code} although the motor replied {q:?}: {}", shown())),
				(None, 0) => return Err(format!("exits with status 0 without a good reply: {}", shown())),
				(None, _) => probe("not confirmed"),
			}
			if p.mode == Mode::Healthy && !big {
				let mut sh: Vec<Regs> = p.motors.iter().map(|m| m.0.clone()).collect();
				let wants = shadow_apply(&mut sh, op, &[]);
				let e: &Result<ops::Resp, EWant> = &expectations(op, &wants, BUF)[0];
				let same = match (e, &pkt) {
					(Ok(a), Some(q)) => a.data == q.params,
					(Err(_), None) => true,
					_ => false,
				};
				if !same {
					return Err(format!("the motor's reply is {pkt:?}, expected {e:?}"));
				}
			}
		}
	} else if show == Show::Scan {
		if hard > 0 && code == 0 && out.errors == 0 && !mute {
			return Err("exits with status 0 and reports no error although a system call failed".into());
		}
		let mut left: Vec<_> = seen.iter().filter(|q| q.is_status() && q.err & 0x7F == 0 && q.params.len() == 3).map(entry).collect();
		for m in out.motors.iter().filter(|_| !mute) {
			match left.iter().position(|x| x == m) {
				Some(i) => {
					left.swap_remove(i);
				},
				None => return Err(format!("lists {m:?}, but received {}", hexs(&got))),
			}
		}
		if matches!(p.mode, Mode::Healthy | Mode::Mild) {
			let all: Vec<_> = r.s("delivered").split(',').filter_map(|d| Some(unhex(d.split_once(':')?.1))).collect();
			let good: Vec<_> = all
				.iter()
				.filter_map(|d| proto::decode_at(d, 0))
				.filter(|q| q.is_status() && q.err & 0x7F == 0 && q.params.len() == 3)
				.map(|q| entry(&q))
				.collect();
			if code != 0 || out.motors != good {
				return Err(format!("exits with status {code} and lists {:?}, expected {good:?}", out.motors));
			}
			if (out.errors > 0) != (good.len() < all.len()) {
				return Err(format!("reports {} errors, {} of {} replies were good", out.errors, good.len(), all.len()));
			}
			if p.mode == Mode::Healthy && good.len() != p.motors.len() {
				return Err(format!("{} of {} motors replied", good.len(), p.motors.len()));
			}
			probe(if out.errors > 0 { "list with errors" } else { "list of motors" });
		}
	} else {
		// Nobody confirms: it only has to be transmitted.
		if (code == 0) != (sent == want && hard == 0) && p.os.again == 0 && fits {
			return Err(format!("exits with status {code} after sending {} of {}", sent.len(), want.len()));
		}
		if code == 0 && !mute && (out.results.len() != 1 || !states(show, &out.results[0], &[])) {
			return Err(format!("prints {:?}", shown()));
		}
		probe("broadcast instruction");
	}
	if r.n("openfail") > 0 {
		probe("opening failed");
	}
	if mute {
		probe("output refused");
	}
	if p.verbose > 0 {
		probe("verbose");
	}
	let _ = (ins::PING, MS);
	Ok(())
}

pub fn c16_healthy(sim: &W) {
	run(sim, Mode::Healthy);
}

pub fn c16_mild(sim: &W) {
	run(sim, Mode::Mild);
}

pub fn c16_chaos(sim: &W) {
	run(sim, Mode::Chaos);
}

pub fn c16_args(sim: &W) {
	run(sim, Mode::Args);
}
