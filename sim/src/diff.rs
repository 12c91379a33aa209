//! The same simulated runs in builds of the crate with different features and settings: they must not differ.
//!
//! Every build is an executable of its own. A chunk of consecutive runs of the batch is executed by a fresh process of
//! each build, which prints one line per run: the hash of its timed trace, the number of events and operations, and what
//! was violated. The lines must be equal.

use crate::choice::Src;
use crate::runner::{
	esc, replay_dir, run_one, run_seed, shrink_with, silence, write_evidence, Guard, Meta, Opts, Plan, RunResult, Scenario, Total, MAX_HASHES,
};
use crate::world::{Fk, Stats};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read as _, Write as _};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

pub const PROP: &str = "C19";
/// Consecutive runs that one process executes.
const CHUNK: u64 = 2_000;
/// No run takes this long.
const ENDLESS: &str = "the run did not finish within 60 s of wall time";
const PATIENCE: Duration = Duration::from_secs(60);

/// The part of every scenario's batch that is run here.
fn scale(o: &Opts) -> f64 {
	o.scale * if o.tier == "thorough" { 0.012 } else { 0.02 }
}

/// For experiments: one scenario alone.
fn only(scs: &[Scenario]) -> Vec<Scenario> {
	let only = std::env::var("DXL_ONLY").unwrap_or_default();
	scs.iter().filter(|s| only.is_empty() || s.name == only).copied().collect()
}

struct Build {
	name: String,
	exe: String,
}

/// The builds: this executable, and those named in the environment as name=path,name=path.
fn builds() -> Vec<Build> {
	let mut v = vec![Build {
		name: "default".into(),
		exe: std::env::current_exe().map_or_else(|_| "/proc/self/exe".into(), |p| p.to_string_lossy().into_owned()),
	}];
	for s in std::env::var("DXL_BUILDS").unwrap_or_default().split(',').filter(|s| !s.is_empty()) {
		if let Some((n, p)) = s.split_once('=') {
			v.push(Build { name: n.into(), exe: p.into() });
		}
	}
	v
}

/// A logger that formats every message, as one that prints them would.
#[cfg(feature = "log")]
mod logger {
	use std::fmt::Write;

	pub struct Formatter;

	struct Sink(u64);

	impl Write for Sink {
		fn write_str(&mut self, s: &str) -> std::fmt::Result {
			self.0 = self.0.wrapping_add(s.len() as u64);
			Ok(())
		}
	}

	impl log::Log for Formatter {
		fn enabled(&self, _: &log::Metadata<'_>) -> bool {
			true
		}
		fn log(&self, r: &log::Record<'_>) {
			let mut s = Sink(0);
			let _ = write!(s, "{} {} {}", r.level(), r.target(), r.args());
			std::hint::black_box(s.0);
		}
		fn flush(&self) {}
	}

	pub fn install() {
		// With logging compiled in but no logger, the arguments of a message are not even evaluated.
		if std::env::var_os("DXL_LOG_OFF").is_some() {
			return;
		}
		if log::set_logger(&Formatter).is_ok() {
			log::set_max_level(log::LevelFilter::Trace);
		}
	}
}

#[cfg(not(feature = "log"))]
mod logger {
	pub fn install() {}
}

fn outcome(r: &RunResult) -> String {
	let fails: Vec<String> = r.fails.iter().map(|(p, m)| format!("{p}: {}", m.replace('\n', " "))).collect();
	format!("{:016x} {} {} {}", r.hash, r.steps, r.st.ops, fails.join(" | "))
}

/// In a process of its own: the runs `from..to` of the batch.
pub fn batch(scs: &[Scenario], o: &Opts, from: u64, to: u64) -> i32 {
	silence();
	logger::install();
	let scs = only(scs);
	let plan = Plan::new(&scs, &o.tier, scale(o));
	let mut st = Stats::default();
	let mut out = std::io::stdout().lock();
	for k in from..to.min(plan.total) {
		let (j, i) = plan.locate(k);
		let r = run_one(&scs[j], Src::seeded(run_seed(o.seed, &scs[j], i)), false);
		// Standard output is flushed at the end of each line: a run that ends the process leaves those before it.
		let _ = writeln!(out, "run {k} {}", outcome(&r));
		st.add(&r.st);
	}
	let fk: Vec<String> = st.fk.iter().map(u64::to_string).collect();
	let _ = writeln!(out, "total {} {} {}", st.ops, st.sim_ns, fk.join(","));
	for (k, v) in &st.probes {
		let _ = writeln!(out, "probe {v} {k}");
	}
	let _ = out.flush();
	0
}

/// In a process of its own: one run, whose origin comes from standard input.
pub fn single(scs: &[Scenario], name: &str, text: bool) -> i32 {
	silence();
	logger::install();
	let mut s = String::new();
	let _ = std::io::stdin().read_to_string(&mut s);
	let (Some(sc), Some(src)) = (scs.iter().find(|s| s.name == name), Src::from_origin(s.trim())) else { return 2 };
	let r = run_one(sc, src, text);
	let mut out = String::new();
	for l in &r.text {
		let _ = writeln!(out, "text {}", l.replace('\n', " "));
	}
	let join = |v: &[u64]| v.iter().map(u64::to_string).collect::<Vec<_>>().join(",");
	let _ = writeln!(out, "rec {}", join(&r.rec));
	let spans: Vec<u64> = r.spans.iter().flat_map(|s| [s.0 as u64, s.1 as u64]).collect();
	let _ = writeln!(out, "spans {}", join(&spans));
	let _ = writeln!(out, "run 0 {}", outcome(&r));
	print!("{out}");
	0
}

/// What a process printed, and how it ended if that was not as it should.
struct Answer {
	lines: Vec<String>,
	ended: Option<String>,
}

fn ask(b: &Build, args: &[String], input: &str) -> Answer {
	let mut cmd = Command::new(&b.exe);
	if b.name == "log-off" {
		cmd.env("DXL_LOG_OFF", "1");
	}
	let child = cmd.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
	let Ok(mut c) = child else {
		return Answer { lines: vec![], ended: Some("cannot be started".into()) };
	};
	if let Some(mut i) = c.stdin.take() {
		let _ = i.write_all(input.as_bytes());
	}
	let out = c.stdout.take();
	let (tx, rx) = mpsc::channel();
	let reader = std::thread::spawn(move || {
		let Some(out) = out else { return };
		for l in BufReader::new(out).split(b'\n') {
			let Ok(l) = l else { break };
			if tx.send(String::from_utf8_lossy(&l).into_owned()).is_err() {
				break;
			}
		}
	});
	let mut a = Answer { lines: vec![], ended: None };
	loop {
		match rx.recv_timeout(PATIENCE) {
			Ok(l) => a.lines.push(l),
			Err(mpsc::RecvTimeoutError::Disconnected) => break,
			Err(mpsc::RecvTimeoutError::Timeout) => {
				a.ended = Some(ENDLESS.into());
				let _ = c.kill();
				break;
			},
		}
	}
	drop(rx);
	let st = c.wait();
	let _ = reader.join();
	if a.ended.is_none() && !st.is_ok_and(|s| s.success()) {
		a.ended = Some("the run brought the process down".into());
	}
	a
}

/// The outcomes of the runs of a chunk, up to one that did not come to an end.
struct Chunk {
	runs: Vec<String>,
	st: Stats,
}

fn ask_chunk(b: &Build, o: &Opts, from: u64, to: u64) -> Chunk {
	let args: Vec<String> = ["batch", &from.to_string(), &to.to_string(), "--tier", &o.tier, "--seed", &o.seed.to_string(), "--scale", &o.scale.to_string()]
		.iter()
		.map(ToString::to_string)
		.collect();
	let a = ask(b, &args, "");
	let mut c = Chunk { runs: vec![], st: Stats::default() };
	for l in &a.lines {
		let Some((what, rest)) = l.split_once(' ') else { continue };
		match what {
			"run" => c.runs.push(rest.split_once(' ').map_or(rest, |x| x.1).to_string()),
			"total" => {
				let f: Vec<&str> = rest.split(' ').collect();
				c.st.ops = f.first().and_then(|x| x.parse().ok()).unwrap_or(0);
				c.st.sim_ns = f.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
				for (i, x) in f.get(2).unwrap_or(&"").split(',').enumerate().take(Fk::Last as usize) {
					c.st.fk[i] = x.parse().unwrap_or(0);
				}
			},
			"probe" => {
				if let Some((n, k)) = rest.split_once(' ') {
					c.st.probes.insert(Box::leak(k.to_string().into_boxed_str()), n.parse().unwrap_or(0));
				}
			},
			_ => {},
		}
	}
	if let Some(e) = a.ended {
		c.runs.push(e);
	}
	c
}

/// One run in one build.
fn ask_one(b: &Build, sc: &Scenario, origin: &str, text: bool) -> (String, RunResult) {
	let args = ["single".to_string(), sc.name.to_string(), if text { "text".into() } else { "plain".to_string() }];
	let a = ask(b, &args, origin);
	let mut r = RunResult { fails: vec![], hash: 0, steps: 0, st: Stats::default(), rec: vec![], spans: vec![], text: vec![] };
	let mut what = String::new();
	let nums = |s: &str| -> Vec<u64> { s.split(',').filter_map(|x| x.parse().ok()).collect() };
	for l in &a.lines {
		match l.split_once(' ').unwrap_or((l, "")) {
			("text", t) => r.text.push(t.to_string()),
			("rec", v) => r.rec = nums(v),
			("spans", v) => r.spans = nums(v).chunks_exact(2).map(|c| (c[0] as usize, c[1] as usize)).collect(),
			("run", v) => what = v.strip_prefix("0 ").unwrap_or(v).to_string(),
			_ => {},
		}
	}
	if let Some(e) = a.ended {
		what = e;
	}
	r.hash = u64::from_str_radix(what.split(' ').next().unwrap_or(""), 16).unwrap_or(0);
	(what, r)
}

/// Where two runs part.
fn parting(name: &str, a: &(String, RunResult), b: &(String, RunResult)) -> String {
	let at = a.1.text.iter().zip(&b.1.text).position(|(x, y)| x != y);
	match at {
		Some(i) => format!("the default build and the build `{name}` behave differently, from line {} of the trace on: `{}` and `{}`", i + 1, a.1.text[i], b.1.text[i]),
		None if a.1.text.is_empty() != b.1.text.is_empty() => {
			format!("the default build and the build `{name}` behave differently: `{}` and `{}`", a.0, b.0)
		},
		None => {
			let i = a.1.text.len().min(b.1.text.len());
			let rest = |r: &RunResult| r.text.get(i).cloned().unwrap_or_else(|| "end of the run".into());
			format!("the default build and the build `{name}` behave differently, from line {} of the trace on: `{}` and `{}` ({} and {})", i + 1, rest(&a.1), rest(&b.1), a.0, b.0)
		},
	}
}

fn write(sc: &Scenario, build: &str, what: &str, msg: &str, text: &[String]) -> String {
	let dir = replay_dir();
	let _ = std::fs::create_dir_all(&dir);
	let id = what.lines().find_map(|l| l.strip_prefix("seed=").or(l.strip_prefix("sequence="))).unwrap_or("0").to_string();
	let path = format!("{dir}/{PROP}-{build}-{id}.replay");
	let mut s = format!("property={PROP}\nscenario={}\nbuild={build}\n{what}violation={}\n", sc.name, msg.replace('\n', " "));
	if !text.is_empty() {
		let _ = writeln!(s, "\n# trace of the run in the default build");
		for l in text.iter().take(2_500) {
			let _ = writeln!(s, "# {l}");
		}
	}
	let _ = std::fs::write(&path, s);
	path
}

/// Make the run short, and describe it. None if the run on its own does not differ.
fn reduce(sc: &Scenario, all: &[Build], b: &Build, seed: u64, limit: Duration) -> Option<(String, String)> {
	let d = &all[0];
	let origin = format!("seed {seed}");
	let (x, y) = (ask_one(d, sc, &origin, true), ask_one(b, sc, &origin, true));
	if x.0 == y.0 {
		return None;
	}
	let first = parting(&b.name, &x, &y);
	let path = write(sc, &b.name, &format!("seed={seed}\n"), &first, &x.1.text);
	// The choices of whichever of the two came to an end.
	let mut r = if x.1.rec.is_empty() { y.1 } else { x.1 };
	if r.rec.is_empty() {
		return Some((path, first));
	}
	let _guard = Guard::new(PROP, path, first.clone());
	r.text.clear();
	let kind = |x: &str, y: &str| (x.starts_with("the run"), y.starts_with("the run"));
	let want = kind(&x.0, &y.0);
	let n0 = r.rec.len();
	let min = shrink_with(r, limit, &mut |c: &[u64]| {
		let origin = format!("replay {}", c.iter().map(u64::to_string).collect::<Vec<_>>().join(","));
		let x = ask_one(d, sc, &origin, false);
		let y = ask_one(b, sc, &origin, false);
		if x.0 == y.0 || kind(&x.0, &y.0) != want {
			return None;
		}
		Some(if x.1.rec.is_empty() { y.1 } else { x.1 })
	});
	let choices = min.rec.iter().map(u64::to_string).collect::<Vec<_>>().join(",");
	let origin = format!("replay {choices}");
	let (x, y) = (ask_one(d, sc, &origin, true), ask_one(b, sc, &origin, true));
	let msg = parting(&b.name, &x, &y);
	println!("{PROP} violated in scenario {} (seed {seed}); {n0} choices shrunk to {}", sc.name, min.rec.len());
	Some((write(sc, &b.name, &format!("seed={seed}\nchoices={choices}\n"), &msg, &x.1.text), msg))
}

/// A sequence of runs of the batch in one process that differs.
fn sequence(scs: &[Scenario], all: &[Build], b: &Build, o: &Opts, from: u64, k: u64) -> Option<(String, String)> {
	let plan = Plan::new(scs, &o.tier, scale(o));
	let differs = |a: u64| {
		let (x, y) = (ask_chunk(&all[0], o, a, k + 1), ask_chunk(b, o, a, k + 1));
		(x.runs != y.runs).then(|| {
			let i = x.runs.iter().zip(&y.runs).position(|(p, q)| p != q).unwrap_or(0);
			format!(
				"the default build and the build `{}` behave differently at run {} of the batch, after the runs from {a} on: `{}` and `{}`",
				b.name,
				a + i as u64,
				x.runs.get(i).map_or("nothing", |s| s),
				y.runs.get(i).map_or("nothing", |s| s)
			)
		})
	};
	let mut best = (from, differs(from)?);
	let mut n = 1;
	while n < k - from {
		if let Some(m) = differs(k - n) {
			best = (k - n, m);
			break;
		}
		n *= 2;
	}
	let (j, _) = plan.locate(k);
	let what = format!("sequence={}-{k}\ntier={}\nmaster={}\nscale={}\n", best.0, o.tier, o.seed, o.scale);
	Some((write(&scs[j], &b.name, &what, &best.1, &[]), best.1))
}

pub fn check(scs: &[Scenario], meta: &Meta, o: &Opts) -> i32 {
	silence();
	let scs = only(scs);
	let all = builds();
	if all.len() < 2 {
		eprintln!("DXL_BUILDS names no other builds");
		return 2;
	}
	let t0 = Instant::now();
	let plan = Plan::new(&scs, &o.tier, scale(o));
	let next = AtomicU64::new(0);
	let stop = AtomicU64::new(u64::MAX);
	let capped = AtomicBool::new(false);
	let endless = AtomicBool::new(false);
	let tot = Mutex::new(Total::default());
	// The first difference: the run, the build, where its process began.
	let bad: Mutex<Option<(u64, usize, u64)>> = Mutex::new(None);
	std::thread::scope(|sp| {
		for _ in 0..o.workers {
			sp.spawn(|| loop {
				let from = next.fetch_add(CHUNK, Ordering::Relaxed);
				if from >= plan.total || from > stop.load(Ordering::Relaxed) {
					break;
				}
				if t0.elapsed().as_secs_f64() > o.max_s {
					capped.store(true, Ordering::Relaxed);
					break;
				}
				let to = (from + CHUNK).min(plan.total);
				let base = ask_chunk(&all[0], o, from, to);
				for (v, b) in all.iter().enumerate().skip(1) {
					let other = ask_chunk(b, o, from, to);
					let n = base.runs.len().max(other.runs.len());
					if let Some(i) = (0..n).find(|i| base.runs.get(*i) != other.runs.get(*i)) {
						let k = from + i as u64;
						stop.fetch_min(from, Ordering::Relaxed);
						if [&base, &other].iter().any(|c| c.runs.get(i).is_some_and(|r| r == ENDLESS)) {
							endless.store(true, Ordering::Relaxed);
						}
						let mut bad = bad.lock().unwrap();
						if bad.is_none_or(|x| k < x.0) {
							*bad = Some((k, v, from));
						}
					}
				}
				let mut t = tot.lock().unwrap();
				t.st.add(&base.st);
				t.runs += base.runs.len() as u64;
				for (i, r) in base.runs.iter().enumerate() {
					let mut f = r.split(' ');
					let hash = u64::from_str_radix(f.next().unwrap_or(""), 16).unwrap_or(0);
					let steps: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
					let ops: u64 = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
					t.steps += steps;
					if steps > 0 && ops > 0 && t.hashes.len() < MAX_HASHES {
						t.hashes.insert(hash);
					}
					t.digest ^= crate::choice::mix(hash, from + i as u64);
					*t.per.entry(scs[plan.locate(from + i as u64).0].name).or_insert(0) += 1;
				}
			});
		}
	});
	let mut t = tot.into_inner().unwrap();
	for sc in scs.iter().step_by(8) {
		let seed = run_seed(o.seed, sc, 0);
		let mut text = run_one(sc, Src::seeded(seed), true).text;
		text.truncate(24);
		t.samples.push((seed, sc.name, text));
	}
	let mut violations = 0;
	let mut code = 0;
	if let Some((k, v, from)) = bad.into_inner().unwrap() {
		let (j, i) = plan.locate(k);
		let sc = &scs[j];
		let limit = Duration::from_secs(if o.tier == "thorough" { 60 } else { 20 });
		let found = reduce(sc, &all, &all[v], run_seed(o.seed, sc, i), limit).or_else(|| sequence(&scs, &all, &all[v], o, from, k));
		if let Some((path, msg)) = found {
			println!("  {}", msg.chars().take(1_500).collect::<String>());
			println!("VIOLATION property={PROP} replay={path}");
			code = 1;
			violations = 1;
		} else if endless.load(Ordering::Relaxed) {
			println!("{PROP}: note: run {k} was cut off in one build; on its own it is equal in all of them");
		} else {
			println!("{PROP}: run {k} differed between builds but does so no more: the harness is not deterministic");
			return 2;
		}
	}
	let wall = t0.elapsed().as_secs_f64();
	println!(
		"{PROP}: {} runs in each of {} builds ({} distinct traces), {} operations, {} events, {:.1} s simulated, {:.2} s wall, digest {:016x}",
		t.runs,
		all.len(),
		t.hashes.len(),
		t.st.ops,
		t.steps,
		t.st.sim_ns as f64 / 1e9,
		wall,
		t.digest
	);
	let names: Vec<String> = all.iter().map(|b| esc(&b.name)).collect();
	let more = format!(",\n  \"builds\": [{}],\n  \"runs_in_all_builds\": {}", names.join(", "), t.runs * all.len() as u64);
	write_evidence(meta, o, &t, wall, violations, capped.load(Ordering::Relaxed), plan.total, &more);
	code
}

pub fn replay(scs: &[Scenario], path: &str, s: &str) -> i32 {
	let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(str::to_string);
	let all = builds();
	let name = get("build=").unwrap_or_default();
	let (Some(b), Some(sc)) = (all.iter().find(|b| b.name == name), scs.iter().find(|x| Some(x.name) == get("scenario=").as_deref())) else {
		eprintln!("unknown build or scenario");
		return 2;
	};
	let msg = if let Some((a, k)) = get("sequence=").and_then(|x| x.split_once('-').and_then(|(a, b)| Some((a.parse().ok()?, b.parse::<u64>().ok()?)))) {
		let o = Opts {
			tier: get("tier=").unwrap_or_default(),
			seed: get("master=").and_then(|x| x.parse().ok()).unwrap_or(1),
			workers: 1,
			scale: get("scale=").and_then(|x| x.parse().ok()).unwrap_or(1.0),
			max_s: 0.0,
		};
		let (x, y) = (ask_chunk(&all[0], &o, a, k + 1), ask_chunk(b, &o, a, k + 1));
		(x.runs != y.runs).then(|| format!("the runs {a} to {k} of the batch end differently in the default build and in the build `{name}`"))
	} else {
		let origin = match get("choices=") {
			Some(c) => format!("replay {c}"),
			None => format!("seed {}", get("seed=").unwrap_or_default()),
		};
		let (x, y) = (ask_one(&all[0], sc, &origin, true), ask_one(b, sc, &origin, true));
		for l in &x.1.text {
			println!("{l}");
		}
		println!("default: {}\n{name}: {}", x.0, y.0);
		(x.0 != y.0).then(|| parting(&name, &x, &y))
	};
	match msg {
		Some(m) => {
			println!("  {m}");
			println!("VIOLATION property={PROP} replay={path}");
			1
		},
		None => {
			println!("{PROP}: no violation in this replay");
			0
		},
	}
}
