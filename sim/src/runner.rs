//! Seeded search over simulated runs, shrinking, replay files, evidence.

use crate::choice::{hash_str, mix, Src};
use crate::ops::panic_text;
use crate::proto;
use crate::world::{Fk, Stats, World, FK_NAMES, W};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Scenario {
	pub name: &'static str,
	pub prop: &'static str,
	pub f: fn(&W),
	/// Runs in the quick tier.
	pub quick: u64,
	/// Runs in the thorough tier.
	pub thorough: u64,
}

pub struct Meta {
	pub prop: &'static str,
	pub rule: &'static str,
	pub real: &'static str,
	pub stub: &'static str,
	pub assumptions: &'static [&'static str],
	/// Things that must have happened in the batch, or it proves nothing (quick tier included).
	pub require: &'static [&'static str],
}

pub struct RunResult {
	pub fails: Vec<(String, String)>,
	pub hash: u64,
	pub steps: u64,
	pub st: Stats,
	pub rec: Vec<u64>,
	pub spans: Vec<(usize, usize)>,
	pub text: Vec<String>,
}

pub fn run_one(sc: &Scenario, src: Src, text: bool) -> RunResult {
	let sim = World::new(src, text).sim();
	let t0 = sim.w.borrow().now;
	let r = catch_unwind(AssertUnwindSafe(|| (sc.f)(&sim)));
	// The nodes hold references to the world: break the cycle.
	if let Ok(mut n) = sim.nodes.try_borrow_mut() {
		*n = None;
	}
	crate::vals::clear_arena();
	let mut extra = None;
	if let Err(p) = r {
		extra = Some(format!("panic outside of a checked call: {:?}", panic_text(p)));
	}
	let mut w = match sim.w.try_borrow_mut() {
		Ok(w) => w,
		Err(_) => {
			return RunResult {
				fails: vec![(sc.prop.into(), "panic while the simulator was borrowed".into())],
				hash: 0,
				steps: 0,
				st: Stats::default(),
				rec: vec![],
				spans: vec![],
				text: vec![],
			}
		},
	};
	if let Some(e) = extra {
		w.fail(sc.prop, e);
	}
	w.st.sim_ns = u128::from(w.now - t0);
	RunResult {
		fails: std::mem::take(&mut w.fails),
		hash: w.hash,
		steps: w.steps,
		st: w.st.clone(),
		rec: std::mem::take(&mut w.src.rec),
		spans: std::mem::take(&mut w.src.spans),
		text: w.text.take().unwrap_or_default(),
	}
}

fn still_fails(sc: &Scenario, c: &[u64], sig: &str) -> Option<RunResult> {
	let r = run_one(sc, Src::replay(c.to_vec()), false);
	if r.fails.first().is_some_and(|f| f.0 == sc.prop && signature(&f.1) == sig) {
		Some(r)
	} else {
		None
	}
}

/// Coarse signature of a violation, so that the shrinker does not slide from one defect to another.
fn signature(msg: &str) -> String {
	let name: String = msg.chars().take_while(|c| c.is_alphanumeric() || *c == ' ').collect();
	let kind = ["panicked", "never returned", "expected success", "item", "register", "read from", "sent", "yielded", "missed"]
		.iter()
		.find(|k| msg.contains(**k))
		.copied()
		.unwrap_or("");
	format!("{}|{}", name.trim_end_matches(char::is_numeric), kind)
}

/// Make the list of choices shorter and simpler while the same property stays violated.
pub fn shrink(sc: &Scenario, r: RunResult, limit: Duration) -> RunResult {
	let sig = signature(&r.fails[0].1);
	shrink_with(r, limit, &mut |c| still_fails(sc, c, &sig))
}

/// The same for any test: it returns the run if it still shows what it should.
pub fn shrink_with(r: RunResult, limit: Duration, test: &mut dyn FnMut(&[u64]) -> Option<RunResult>) -> RunResult {
	let t = Instant::now();
	let mut best = r;
	let over = |t: &Instant| t.elapsed() > limit;
	loop {
		let before = (best.rec.len(), best.rec.iter().map(|x| u128::from(*x)).sum::<u128>());
		// Delete marked spans, largest first.
		let mut spans = best.spans.clone();
		spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
		let mut i = 0;
		while i < spans.len() && !over(&t) {
			let (a, b) = spans[i];
			i += 1;
			if b > best.rec.len() {
				continue;
			}
			let mut c = best.rec.clone();
			c.drain(a..b);
			if let Some(n) = test(&c) {
				if n.rec.len() < best.rec.len() {
					best = n;
					spans = best.spans.clone();
					spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
					i = 0;
				}
			}
		}
		// Delete blocks.
		let mut k = (best.rec.len() / 2).max(1);
		while k >= 1 && !over(&t) {
			let mut a = 0;
			while a + k <= best.rec.len() && !over(&t) {
				let mut c = best.rec.clone();
				c.drain(a..a + k);
				match test(&c) {
					Some(n) if n.rec.len() < best.rec.len() => best = n,
					_ => a += k,
				}
			}
			if k == 1 {
				break;
			}
			k /= 2;
		}
		// Simplify values.
		let mut i = 0;
		while i < best.rec.len() && !over(&t) {
			let v = best.rec[i];
			if v > 0 {
				let mut tries = vec![0, 1, v / 2, v.saturating_sub(1)];
				tries.dedup();
				for x in tries {
					if x >= v {
						continue;
					}
					let mut c = best.rec.clone();
					c[i] = x;
					if let Some(n) = test(&c) {
						if n.rec.len() <= best.rec.len() {
							best = n;
							break;
						}
					}
				}
			}
			i += 1;
		}
		let after = (best.rec.len(), best.rec.iter().map(|x| u128::from(*x)).sum::<u128>());
		if after >= before || over(&t) {
			break;
		}
	}
	best
}

pub fn replay_dir() -> String {
	std::env::var("DXL_REPLAYS").unwrap_or_else(|_| "/verif/replays".to_string())
}

fn write_replay(sc: &Scenario, seed: u64, choices: Option<&[u64]>, msg: &str, hash: u64, text: &[String]) -> String {
	let dir = replay_dir();
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{dir}/{}-{:016x}.replay", sc.prop, seed);
	let mut s = String::new();
	let _ = writeln!(s, "property={}", sc.prop);
	let _ = writeln!(s, "scenario={}", sc.name);
	let _ = writeln!(s, "seed={seed}");
	if let Some(c) = choices {
		let _ = writeln!(s, "choices={}", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
	}
	let _ = writeln!(s, "hash={hash:016x}");
	let _ = writeln!(s, "violation={}", msg.replace('\n', " "));
	let _ = writeln!(s, "\n# trace of the minimised run");
	for (i, l) in text.iter().enumerate() {
		// The middle of a very long run is not printed; `replay.sh` shows it.
		if i < 500 || i + 2_000 > text.len() {
			let _ = writeln!(s, "# {l}");
		} else if i == 500 {
			let _ = writeln!(s, "# ... {} lines ...", text.len() - 2_500);
		}
	}
	let _ = std::fs::write(&path, s);
	path
}

/// Findings that are recorded and not reported as violations: (property, text the message contains).
pub fn known_findings() -> Vec<(String, String)> {
	let path = std::env::var("DXL_KNOWN").unwrap_or_else(|_| "/verif/KNOWN_FINDINGS.txt".to_string());
	let mut v = vec![];
	for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
		// finding: property=C01 match="..." description
		if let Some(rest) = l.strip_prefix("finding: property=") {
			if let Some((p, rest)) = rest.split_once(" match=\"") {
				if let Some((m, _)) = rest.split_once('"') {
					v.push((p.to_string(), m.to_string()));
				}
			}
		}
	}
	v
}

struct Slot {
	start: AtomicU64,
	idx: AtomicU64,
	sc: AtomicUsize,
	beat: Arc<AtomicU64>,
}

pub fn esc(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			},
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

pub struct Opts {
	pub tier: String,
	pub seed: u64,
	pub workers: usize,
	pub scale: f64,
	pub max_s: f64,
}

impl Opts {
	pub fn from_args(args: &[String]) -> Opts {
		let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
		let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".to_string());
		let seed = get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
		let workers = get("--workers")
			.and_then(|s| s.parse().ok())
			.unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
		let scale = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
		let slow = args.get(1).is_some_and(|p| p == crate::diff::PROP);
		let default_s = if tier == "thorough" { 780.0 } else if slow { 150.0 } else { 60.0 };
		let max_s = get("--max-s").and_then(|s| s.parse().ok()).unwrap_or(default_s);
		Opts { tier, seed, workers, scale, max_s }
	}
}

#[derive(Default)]
pub(crate) struct Total {
	pub st: Stats,
	pub runs: u64,
	pub hashes: HashSet<u64>,
	pub steps: u64,
	pub per: std::collections::BTreeMap<&'static str, u64>,
	known: std::collections::BTreeMap<String, u64>,
	/// Order-independent digest of all run hashes.
	pub digest: u64,
	pub samples: Vec<(u64, &'static str, Vec<String>)>,
	bad: Option<(u64, usize, u64)>,
}

pub fn run_seed(master: u64, sc: &Scenario, i: u64) -> u64 {
	mix(mix(master, hash_str(sc.name)), i)
}

/// Does the replay file reproduce the violation in a fresh process?
fn replays(path: &str) -> bool {
	let Ok(exe) = std::env::current_exe() else { return true };
	match std::process::Command::new(exe).args(["replay", path]).stdout(std::process::Stdio::null()).status() {
		Ok(s) => s.code() == Some(1),
		Err(_) => true,
	}
}

/// While it lives: a shrinking run that computes forever must not keep the violation from being reported.
pub(crate) struct Guard(std::sync::Arc<AtomicBool>);

impl Guard {
	pub fn new(prop: &'static str, path: String, msg: String) -> Guard {
		let off = std::sync::Arc::new(AtomicBool::new(false));
		let seen = off.clone();
		// Set aside: the shrunk run takes the same name.
		let kept = format!("{path}.full");
		let _ = std::fs::rename(&path, &kept);
		std::thread::spawn(move || {
			let t = Instant::now();
			while t.elapsed() < Duration::from_secs(150) {
				if seen.load(Ordering::Relaxed) {
					let _ = std::fs::remove_file(&kept);
					return;
				}
				std::thread::sleep(Duration::from_millis(50));
			}
			println!("{prop} violated (not minimised):");
			println!("  {}", msg.chars().take(1_500).collect::<String>());
			println!("VIOLATION property={prop} replay={kept}");
			std::process::exit(1);
		});
		Guard(off)
	}
}

impl Drop for Guard {
	fn drop(&mut self) {
		self.0.store(true, Ordering::Relaxed);
	}
}

pub(crate) struct Plan {
	counts: Vec<u64>,
	pub total: u64,
}

impl Plan {
	pub fn new(scs: &[Scenario], tier: &str, scale: f64) -> Plan {
		let counts: Vec<u64> =
			scs.iter().map(|s| (((if tier == "thorough" { s.thorough } else { s.quick }) as f64 * scale) as u64).max(1)).collect();
		let total = counts.iter().sum();
		Plan { counts, total }
	}

	/// The k-th run of the batch: which run of which scenario. Computed from k alone, so that it does not depend on the
	/// workers.
	pub fn locate(&self, k: u64) -> (usize, u64) {
		let mut rest = permute(k, self.total);
		for (j, c) in self.counts.iter().enumerate() {
			if rest < *c {
				return (j, rest);
			}
			rest -= c;
		}
		(0, 0)
	}
}

/// Execute the runs `from..to` of the plan one after the other, up to the first violation.
fn run_sequence(scs: &[Scenario], o: &Opts, from: u64, to: u64, limit: Duration) -> Option<(u64, String)> {
	let plan = Plan::new(scs, &o.tier, o.scale);
	let known = known_findings();
	let t = Instant::now();
	for k in from..to.min(plan.total) {
		let (j, i) = plan.locate(k);
		let seed = run_seed(o.seed, &scs[j], i);
		crash::enter(j, seed);
		let r = run_one(&scs[j], Src::seeded(seed), false);
		if let Some(f) = r.fails.first() {
			if !known.iter().any(|(p, m)| *p == f.0 && f.1.contains(m.as_str())) {
				return Some((k, f.1.clone()));
			}
		}
		if t.elapsed() > limit {
			break;
		}
	}
	None
}

/// Find a sequence of runs that, executed in a fresh process, violates the property, and make it short.
fn sequence(prop: &str, o: &Opts, k0: u64, scs: &[Scenario]) -> Option<(String, String)> {
	let exe = std::env::current_exe().ok()?;
	let child = |from: u64, to: u64| -> Option<(u64, String)> {
		let out = std::process::Command::new(&exe)
			.args(["sequence", prop, &from.to_string(), &to.to_string(), "--tier", &o.tier])
			.args(["--seed", &o.seed.to_string(), "--scale", &o.scale.to_string()])
			.output()
			.ok()?;
		let s = String::from_utf8_lossy(&out.stdout).into_owned();
		let l = s.lines().find_map(|l| l.strip_prefix("sequence fails at "))?;
		let (k, msg) = l.split_once(": ")?;
		Some((k.parse().ok()?, msg.to_string()))
	};
	// Single-threaded, the same point of the batch may need more or fewer runs than it did here.
	let (last, msg) = child(0, (k0 + 1) * 2 + 1_000)?;
	let (mut from, mut end, mut what) = (0, last, msg);
	let t = Instant::now();
	let mut n = 1;
	while n <= last && t.elapsed() < Duration::from_secs(60) {
		let a = (last + 1).saturating_sub(n);
		if let Some((k, m)) = child(a, last + 1) {
			(from, end, what) = (a, k, m);
			break;
		}
		n *= 2;
	}
	if child(from, end + 1) != Some((end, what.clone())) {
		return None;
	}
	let dir = replay_dir();
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{dir}/{prop}-sequence-{from}-{end}.replay");
	let (j, _) = Plan::new(scs, &o.tier, o.scale).locate(end);
	let s = format!(
		"property={prop}\nscenario={}\nsequence={from}-{end}\ntier={}\nmaster={}\nscale={}\nhash=0\nviolation={}\n",
		scs[j].name,
		o.tier,
		o.seed,
		o.scale,
		what.replace('\n', " ")
	);
	let _ = std::fs::write(&path, s);
	println!("{prop} violated by the sequence of runs {from} to {end} of the batch in one process");
	Some((path, what))
}

/// Search for violations of one property. Returns the exit code.
pub fn check(scs: &[Scenario], meta: &Meta, o: &Opts) -> i32 {
	silence();
	let prop = meta.prop;
	// For experiments: one scenario alone.
	let only = std::env::var("DXL_ONLY").unwrap_or_default();
	let scs: Vec<Scenario> = scs.iter().filter(|s| s.prop == prop && (only.is_empty() || s.name == only)).copied().collect();
	if scs.is_empty() {
		eprintln!("no scenario for {prop}");
		return 2;
	}
	crash::install(prop, &scs);
	let t0 = Instant::now();
	// The plan: run k of the batch is run i of scenario s, scenarios interleaved in proportion.
	let plan = Plan::new(&scs, &o.tier, o.scale);
	let total = plan.total;
	let next = AtomicU64::new(0);
	let stop_at = AtomicU64::new(u64::MAX);
	let done = AtomicBool::new(false);
	let capped = AtomicBool::new(false);
	let known = known_findings();
	let slots: Vec<Slot> =
		(0..o.workers).map(|_| Slot { start: AtomicU64::new(0), idx: AtomicU64::new(0), sc: AtomicUsize::new(0), beat: Arc::default() }).collect();
	let tot = Mutex::new(Total::default());
	std::thread::scope(|sp| {
		for wi in 0..o.workers {
			let (next, stop_at, slots, tot, scs, known, done, capped, plan) =
				(&next, &stop_at, &slots, &tot, &scs, &known, &done, &capped, &plan);
			std::thread::Builder::new()
				.stack_size(16 << 20)
				.spawn_scoped(sp, move || {
					let mut loc = Total::default();
					crate::choice::show_beat(slots[wi].beat.clone());
					loop {
						let k0 = next.fetch_add(1, Ordering::Relaxed);
						if k0 >= total || k0 > stop_at.load(Ordering::Relaxed) || done.load(Ordering::Relaxed) {
							break;
						}
						if t0.elapsed().as_secs_f64() > o.max_s {
							capped.store(true, Ordering::Relaxed);
							break;
						}
						// Spread the scenarios over the batch: stride through the plan.
						let (j, i) = plan.locate(k0);
						let sc = &scs[j];
						let seed = run_seed(o.seed, sc, i);
						slots[wi].idx.store(seed, Ordering::Relaxed);
						slots[wi].sc.store(j, Ordering::Relaxed);
						slots[wi].start.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
						crash::enter(j, seed);
						let t1 = Instant::now();
						let r = run_one(sc, Src::seeded(seed), false);
						if std::env::var_os("DXL_SLOW").is_some() && (t1.elapsed().as_millis() > 1000 || r.rec.len() > 5_000_000) {
							eprintln!("slow: {} {} ms {} choices {} ops", sc.name, t1.elapsed().as_millis(), r.rec.len(), r.st.ops);
						}
						slots[wi].start.store(0, Ordering::Relaxed);
						loc.runs += 1;
						loc.st.add(&r.st);
						loc.steps += r.steps;
						if r.st.ops > 0 && r.steps > 0 && loc.hashes.len() < MAX_HASHES / o.workers {
							loc.hashes.insert(r.hash);
						}
						loc.digest ^= mix(r.hash, seed);
						*loc.per.entry(sc.name).or_insert(0) += 1;
						if let Some(f) = r.fails.first() {
							let m = known.iter().find(|(p, m)| p == prop && f.1.contains(m.as_str()));
							if let Some((_, m)) = m {
								*loc.known.entry(m.clone()).or_insert(0) += 1;
							} else {
								stop_at.fetch_min(k0, Ordering::Relaxed);
								if loc.bad.is_none_or(|b| k0 < b.0) {
									loc.bad = Some((k0, j, seed));
								}
							}
						}
					}
					let mut t = tot.lock().unwrap();
					t.st.add(&loc.st);
					t.runs += loc.runs;
					t.steps += loc.steps;
					t.digest ^= loc.digest;
					t.hashes.extend(loc.hashes);
					for (k, v) in loc.per {
						*t.per.entry(k).or_insert(0) += v;
					}
					for (k, v) in loc.known {
						*t.known.entry(k).or_insert(0) += v;
					}
					if let Some(b) = loc.bad {
						if t.bad.is_none_or(|x| b.0 < x.0) {
							t.bad = Some(b);
						}
					}
				})
				.unwrap();
		}
		// Watchdog: a run that computes forever without touching the port.
		let (slots, scs, done) = (&slots, &scs, &done);
		let workers_left = || next.load(Ordering::Relaxed) < total + o.workers as u64 && stop_at.load(Ordering::Relaxed) == u64::MAX;
		let mut idle = 0;
		let mut seen: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
		loop {
			std::thread::sleep(Duration::from_millis(20));
			let now = t0.elapsed().as_millis() as u64;
			let mut busy = false;
			for (s, seen) in slots.iter().zip(&mut seen) {
				let st = s.start.load(Ordering::Relaxed);
				if st > 0 {
					busy = true;
					// Runs that are merely long show signs of life.
					let beat = s.beat.load(Ordering::Relaxed);
					if beat != seen.0 {
						*seen = (beat, now);
					}
					if now > st.max(seen.1) + 30_000 {
						let sc = &scs[s.sc.load(Ordering::Relaxed)];
						let seed = s.idx.load(Ordering::Relaxed);
						let msg = "the run did not finish within 30 s of wall time: a call computes forever without touching the port";
						let path = write_replay(sc, seed, None, msg, 0, &[]);
						println!("{prop}: {msg} (seed {seed})");
						println!("VIOLATION property={prop} replay={path}");
						done.store(true, Ordering::Relaxed);
						std::process::exit(1);
					}
				}
			}
			if busy {
				idle = 0;
			} else {
				idle += 1;
			}
			if (idle > 1 && !workers_left()) || idle > 50 || capped.load(Ordering::Relaxed) && !busy {
				break;
			}
		}
	});
	let mut t = tot.into_inner().unwrap();
	// Samples: the first runs of each scenario, written out.
	for sc in &scs {
		let r = run_one(sc, Src::seeded(run_seed(o.seed, sc, 0)), true);
		let mut text = r.text;
		text.truncate(24);
		t.samples.push((run_seed(o.seed, sc, 0), sc.name, text));
	}
	let mut code = 0;
	let mut violations = 0;
	if let Some((k0, j, seed)) = t.bad {
		let sc = &scs[j];
		crash::enter(j, seed);
		let r = run_one(sc, Src::seeded(seed), false);
		let mut found = None;
		if let Some(first) = r.fails.first().map(|f| f.1.clone()) {
			let n0 = r.rec.len();
			let _guard = Guard::new(prop, write_replay(sc, seed, Some(&r.rec), &first, r.hash, &[]), first.clone());
			let min = shrink(sc, r, Duration::from_secs(if o.tier == "thorough" { 60 } else { 15 }));
			let full = run_one(sc, Src::replay(min.rec.clone()), true);
			let msg = full.fails.first().map_or(first.clone(), |f| f.1.clone());
			let path = write_replay(sc, seed, Some(&min.rec), &msg, full.hash, &full.text);
			println!("{prop} violated in scenario {} (seed {seed}); {} choices shrunk to {}", sc.name, n0, min.rec.len());
			// A file counts when it reproduces the violation in a process of its own.
			if replays(&path) {
				found = Some((path, msg));
			} else {
				let path = write_replay(sc, seed, None, &first, 0, &full.text);
				if replays(&path) {
					found = Some((path, first));
				}
			}
		}
		if found.is_none() {
			// What a run does depends on the runs before it: the code under test keeps state outside of its objects.
			println!("{prop}: run with seed {seed} of {} failed but does not repeat on its own; searching for a sequence of runs", sc.name);
			found = sequence(prop, o, k0, &scs);
		}
		let Some((path, msg)) = found else {
			println!("{prop}: no repeatable sequence of runs found: the harness is not deterministic");
			return 2;
		};
		code = 1;
		violations = 1;
		// The replay file has all of it.
		println!("  {}", msg.chars().take(1_500).collect::<String>());
		println!("VIOLATION property={prop} replay={path}");
	}
	for (k, n) in &t.known {
		println!("KNOWN-FINDING: property={prop} {k} ({n} runs)");
	}
	let wall = t0.elapsed().as_secs_f64();
	if code == 0 {
		let mut missing = vec![];
		for r in meta.require {
			let n = FK_NAMES.iter().position(|x| x == r).map_or_else(|| t.st.probes.get(r).copied().unwrap_or(0), |i| t.st.fk[i]);
			if n == 0 {
				missing.push(*r);
			}
		}
		if !missing.is_empty() && o.scale >= 1.0 {
			// Not an alarm: but say that the batch was less than it should be.
			println!("{prop}: note: these did not occur in this batch: {missing:?}");
		}
	}
	println!(
		"{prop}: {} runs ({} distinct traces), {} operations, {} events, {:.1} s simulated, {:.2} s wall, digest {:016x}",
		t.runs,
		t.hashes.len(),
		t.st.ops,
		t.steps,
		t.st.sim_ns as f64 / 1e9,
		wall,
		t.digest
	);
	write_evidence(meta, o, &t, wall, violations, capped.load(Ordering::Relaxed), total, "");
	code
}

/// A fixed permutation of 0..n, so that all scenarios are met early in the batch.
fn permute(k: u64, n: u64) -> u64 {
	if n < 3 {
		return k;
	}
	let mut m = (n as f64 * 0.618) as u64;
	fn gcd(a: u64, b: u64) -> u64 {
		if b == 0 {
			a
		} else {
			gcd(b, a % b)
		}
	}
	m = m.max(1);
	while gcd(m, n) != 1 {
		m += 1;
	}
	((u128::from(k) * u128::from(m)) % u128::from(n)) as u64
}

#[allow(clippy::too_many_arguments)]
pub(crate) fn write_evidence(meta: &Meta, o: &Opts, t: &Total, wall: f64, violations: u64, capped: bool, planned: u64, more: &str) {
	let mut s = String::new();
	let per_h = |x: f64| if wall > 0.0 { x / wall * 3600.0 } else { 0.0 };
	let faults: Vec<String> = (0..Fk::Last as usize).filter(|i| t.st.fk[*i] > 0).map(|i| format!("{}: {}", esc(FK_NAMES[i]), t.st.fk[i])).collect();
	let probes: Vec<String> = t.st.probes.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
	let per: Vec<String> = t.per.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
	let samples: Vec<String> = t
		.samples
		.iter()
		.map(|(seed, name, text)| {
			let lines: Vec<String> = text.iter().map(|l| esc(l)).collect();
			format!("{{\"scenario\": {}, \"seed\": {seed}, \"trace\": [{}]}}", esc(name), lines.join(", "))
		})
		.collect();
	let ass: Vec<String> = meta.assumptions.iter().map(|a| esc(a)).collect();
	let _ = write!(
		s,
		"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"planned_runs\": {planned},\n  \"stopped_by_time\": {capped},\n  \"runs_per_scenario\": {{{}}},\n  \"runs_per_hour\": {:.0},\n  \"operations\": {},\n  \"events\": {},\n  \"simulated_seconds\": {:.3},\n  \"simulated_seconds_per_wall_second\": {:.1},\n  \"faults_injected\": {{{}}},\n  \"probes\": {{{}}},\n  \"distinct_measure\": \"hash over the complete timed event trace of a run (arrivals, port calls with their bytes and results, operations and results)\",\n  \"real_components\": {},\n  \"simulated_components\": {},\n  \"digest_of_all_runs\": \"{:016x}\",\n  \"workers\": {}{more}\n }},\n \"assumptions\": [{}],\n \"violations\": {violations},\n \"wall_s\": {:.3}\n}}\n",
		esc(meta.prop),
		esc(&o.tier),
		o.seed,
		t.runs,
		t.hashes.len(),
		esc(meta.rule),
		samples.join(",\n   "),
		per.join(", "),
		per_h(t.runs as f64),
		t.st.ops,
		t.steps,
		t.st.sim_ns as f64 / 1e9,
		if wall > 0.0 { t.st.sim_ns as f64 / 1e9 / wall } else { 0.0 },
		faults.join(", "),
		probes.join(", "),
		esc(meta.real),
		esc(meta.stub),
		t.digest,
		o.workers,
		ass.join(", "),
		wall
	);
	let dir = std::env::var("DXL_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".to_string());
	let _ = std::fs::create_dir_all(&dir);
	let _ = std::fs::write(format!("{dir}/{}.json", meta.prop), s);
}

/// Distinct traces are counted up to this number; beyond it the count is a lower bound.
pub(crate) const MAX_HASHES: usize = 40_000_000;

/// A run that brings the whole process down (abort in a destructor, stack overflow, invalid memory access) is reported
/// with its seed too.
mod crash {
	use super::{replay_dir, Scenario};
	use std::cell::Cell;
	use std::ffi::{c_char, c_int, c_void};
	use std::sync::OnceLock;

	struct Info {
		/// Per scenario: what to write before the seed, into the replay file.
		head: Vec<Vec<u8>>,
		/// Path and output line up to the seed.
		path: Vec<u8>,
		line: Vec<u8>,
	}

	static INFO: OnceLock<Info> = OnceLock::new();

	thread_local! {
		static CUR: Cell<(usize, u64)> = const { Cell::new((usize::MAX, 0)) };
	}

	extern "C" {
		fn sigaction(sig: c_int, act: *const Act, old: *mut c_void) -> c_int;
		fn open(path: *const c_char, flags: c_int, ...) -> c_int;
		fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
		fn _exit(code: c_int) -> !;
	}

	/// struct sigaction of Linux on 64-bit glibc.
	#[repr(C)]
	struct Act {
		handler: extern "C" fn(c_int),
		mask: [u64; 16],
		flags: c_int,
		restorer: usize,
	}

	pub fn enter(scenario: usize, seed: u64) {
		CUR.with(|c| c.set((scenario, seed)));
	}

	fn put(fd: c_int, b: &[u8]) {
		unsafe { write(fd, b.as_ptr().cast(), b.len()) };
	}

	extern "C" fn handler(_: c_int) {
		let (sc, seed) = CUR.with(Cell::get);
		let Some(info) = INFO.get() else { unsafe { _exit(3) } };
		if sc == usize::MAX {
			put(2, b"crashed outside of a run\n");
			unsafe { _exit(3) };
		}
		let mut hex = [0u8; 16];
		for (i, h) in hex.iter_mut().enumerate() {
			*h = b"0123456789abcdef"[(seed >> (60 - 4 * i)) as usize & 15];
		}
		let mut dec = [0u8; 20];
		let mut n = 20;
		let mut x = seed;
		while n == 20 || x > 0 {
			n -= 1;
			dec[n] = b'0' + (x % 10) as u8;
			x /= 10;
		}
		let mut path = [0u8; 512];
		let mut k = 0;
		for b in info.path.iter().chain(&hex).chain(b".replay\0") {
			if k < 512 {
				path[k] = *b;
				k += 1;
			}
		}
		let fd = unsafe { open(path.as_ptr().cast(), 0o1101, 0o644) };
		put(fd, &info.head[sc]);
		put(fd, &dec[n..]);
		put(fd, b"\nhash=0\nviolation=the run brought the process down\n");
		put(1, b"a run brought the process down (abort, stack overflow or invalid memory access)\n");
		put(1, &info.line);
		put(1, &path[..k - 1]);
		put(1, b"\n");
		unsafe { _exit(1) };
	}

	pub fn install(prop: &str, scs: &[Scenario]) {
		let dir = replay_dir();
		let _ = std::fs::create_dir_all(&dir);
		let _ = INFO.set(Info {
			head: scs.iter().map(|s| format!("property={prop}\nscenario={}\nseed=", s.name).into_bytes()).collect(),
			path: format!("{dir}/{prop}-").into_bytes(),
			line: format!("VIOLATION property={prop} replay=").into_bytes(),
		});
		// SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV, on the alternative stack that the runtime has set up.
		for sig in [4, 6, 7, 8, 11] {
			let act = Act { handler, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
			unsafe { sigaction(sig, &act, std::ptr::null_mut()) };
		}
	}
}

/// Panics are expected and caught: do not print them.
pub fn silence() {
	if std::env::var_os("DXL_LOUD").is_none() {
		std::panic::set_hook(Box::new(|_| {}));
	}
}

pub fn replay(scs: &[Scenario], path: &str) -> i32 {
	silence();
	let Ok(s) = std::fs::read_to_string(path) else {
		eprintln!("cannot read {path}");
		return 2;
	};
	let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(str::to_string);
	if get("property=").as_deref() == Some(crate::diff::PROP) {
		return crate::diff::replay(scs, path, &s);
	}
	let name = get("scenario=").unwrap_or_default();
	let Some(sc) = scs.iter().find(|x| x.name == name) else {
		eprintln!("unknown scenario {name}");
		return 2;
	};
	let seed: u64 = get("seed=").and_then(|x| x.parse().ok()).unwrap_or(0);
	if let Some((a, b)) = get("sequence=").and_then(|x| x.split_once('-').and_then(|(a, b)| Some((a.parse().ok()?, b.parse::<u64>().ok()?)))) {
		let o = Opts {
			tier: get("tier=").unwrap_or_default(),
			seed: get("master=").and_then(|x| x.parse().ok()).unwrap_or(1),
			workers: 1,
			scale: get("scale=").and_then(|x| x.parse().ok()).unwrap_or(1.0),
			max_s: 0.0,
		};
		let of: Vec<Scenario> = scs.iter().filter(|s| s.prop == sc.prop).copied().collect();
		crash::install(sc.prop, &of);
		return match run_sequence(&of, &o, a, b + 1, Duration::from_secs(3_600)) {
			Some((k, m)) => {
				println!("run {k} of the batch, after the runs from {a} on");
				println!("  {m}");
				println!("VIOLATION property={} replay={path}", sc.prop);
				1
			},
			None => {
				println!("{}: no violation in this replay", sc.prop);
				0
			},
		};
	}
	let src = match get("choices=") {
		Some(c) => Src::replay(c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
		None => Src::seeded(seed),
	};
	crash::install(sc.prop, &[*sc]);
	crash::enter(0, seed);
	let r = run_one(sc, src, true);
	for l in &r.text {
		println!("{l}");
	}
	let want = get("hash=").unwrap_or_default();
	println!("trace hash {:016x} ({})", r.hash, if want == format!("{:016x}", r.hash) { "as recorded" } else { "differs from the recorded one" });
	match r.fails.first() {
		Some(f) => {
			println!("  {}", f.1);
			println!("VIOLATION property={} replay={path}", f.0);
			1
		},
		None => {
			println!("{}: no violation in this replay", sc.prop);
			0
		},
	}
}

pub fn main_with(scs: &[Scenario], metas: &[Meta]) -> i32 {
	let args: Vec<String> = std::env::args().skip(1).collect();
	match args.first().map(String::as_str) {
		Some("check") => {
			let Some(m) = args.get(1).and_then(|p| metas.iter().find(|m| m.prop == p)) else {
				eprintln!("unknown property");
				return 2;
			};
			if m.prop == crate::diff::PROP {
				return crate::diff::check(scs, m, &Opts::from_args(&args));
			}
			check(scs, m, &Opts::from_args(&args))
		},
		Some("sequence") => {
			silence();
			let num = |i: usize| args.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
			let of: Vec<Scenario> = scs.iter().filter(|s| Some(s.prop) == args.get(1).map(String::as_str)).copied().collect();
			if let Some((k, m)) = run_sequence(&of, &Opts::from_args(&args), num(2), num(3), Duration::from_secs(300)) {
				println!("sequence fails at {k}: {}", m.replace('\n', " "));
				return 1;
			}
			0
		},
		Some("batch") => {
			let num = |i: usize| args.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
			crate::diff::batch(scs, &Opts::from_args(&args), num(1), num(2))
		},
		Some("single") => crate::diff::single(scs, args.get(1).map_or("", |s| s), args.get(2).is_some_and(|s| s == "text")),
		Some("replay") => replay(scs, args.get(1).map_or("", |s| s)),
		Some("trace") => {
			silence();
			let Some(sc) = scs.iter().find(|s| Some(s.name) == args.get(1).map(String::as_str)) else {
				eprintln!("scenarios: {:?}", scs.iter().map(|s| s.name).collect::<Vec<_>>());
				return 2;
			};
			let i: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
			let r = run_one(sc, Src::seeded(run_seed(Opts::from_args(&args).seed, sc, i)), true);
			for l in r.text {
				println!("{l}");
			}
			println!("{:?}", r.fails);
			0
		},
		_ => {
			eprintln!("usage: check PROP [--tier quick|thorough] [--seed N] [--workers N] [--scale X] | replay FILE | trace SCENARIO I");
			let _ = proto::MS;
			2
		},
	}
}
