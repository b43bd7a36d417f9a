//! Batches of runs, confirmation, minimisation, replay and reports.

use std::{
	collections::{BTreeMap, BTreeSet},
	fs::{self, File},
	io::{Read, Write},
	os::unix::fs::FileExt,
	os::unix::process::ExitStatusExt,
	path::{Path, PathBuf},
	process::{Child, Command, Stdio},
	time::{Duration, Instant},
};

use crate::{
	gen,
	judge::{self, RULES},
	plan::*,
	prng::mix,
	session, store,
};

const WORKERS: u64 = 8;
/// No run takes longer than this, by far.
const HANG_S: u64 = 60;
/// A worker above this is started afresh (what it runs copies a lot of memory).
const RSS_MAX: u64 = 2 << 30;

pub fn exec(p: &Plan, log: bool) -> Outcome {
	match p.kind.as_str() {
		"store" => store::run(p, log),
		_ => session::run(p, log),
	}
}

pub fn main() {
	let a: Vec<String> = std::env::args().collect();
	let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
	let n = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
	let code = match arg(1) {
		"check" => check(arg(2), arg(3)),
		"work" => work(arg(2), n(3), n(4), n(5), arg(6)),
		"exec" => exec_file(arg(2), arg(3) == "log"),
		"replay" => replay(arg(2), arg(3)),
		"try" => try_out(arg(2), n(3), n(4), n(5).max(1)),
		_ => {
			eprintln!("sim check ID OTHER | replay FILE OTHER | try ID N FROM SEED");
			2
		}
	};
	std::process::exit(code);
}

fn variant() -> &'static str {
	if cfg!(debug_assertions) {
		"checked"
	} else {
		"release"
	}
}

/// For development: run some, print what happened.
fn try_out(prop: &str, n: u64, from: u64, seed: u64) -> i32 {
	let show = std::env::var("SHOW").is_ok();
	let mut counts = BTreeMap::new();
	let mut classes: BTreeMap<String, (u64, u64, String)> = Default::default();
	let mut h = 0u64;
	let mut nt = 0;
	for i in from..from + n {
		let p = gen::plan_for(prop, seed, i);
		if show {
			println!("{}", p.to_text());
		}
		let t = Instant::now();
		let o = exec(&p, show);
		if t.elapsed().as_millis() > 200 {
			println!("slow: {} {:?}", i, t.elapsed());
		}
		if show {
			println!("{}", o.log.join("\n"));
		}
		h = mix(h ^ o.hash);
		nt += judge::nontrivial(&p, &o) as u64;
		for (k, v) in &o.counts {
			*counts.entry(*k).or_insert(0u64) += v;
		}
		for v in &o.viols {
			let e = classes.entry(v.class.clone()).or_insert((0, i, format!("op {} {}", v.op, v.msg)));
			e.0 += 1;
		}
	}
	println!("{:#?}\n{:#?}\nnontrivial {} hash {:x}", counts, classes, nt, h);
	!classes.is_empty() as i32
}

// ---------------------------------------------------------------- one run in a process of its own

fn one_line(s: &str) -> String {
	s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect()
}

/// Run the plan in a file and print the outcome.
fn exec_file(path: &str, log: bool) -> i32 {
	let (p, rest) = match fs::read_to_string(path).ok().and_then(|t| Plan::from_text(&t)) {
		Some(x) => x,
		None => return 2,
	};
	if let Some(l) = rest.get("prelude") {
		let w: Vec<u64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
		for i in &w[1.min(w.len())..] {
			exec(&gen::plan_for(&p.prop, w[0], *i), false);
		}
	}
	let o = exec(&p, log);
	let mut s = String::new();
	s += &format!("hash {:016x}\n", o.hash);
	for f in &o.failed {
		s += &format!("failed {}\n", f);
	}
	for v in &o.viols {
		s += &format!(
			"viol {} {} {} {}\n",
			v.class,
			v.op,
			v.input.map_or(-1, |x| x as i64),
			one_line(&v.msg)
		);
	}
	for (k, v) in &o.counts {
		s += &format!("count {} {}\n", k, v);
	}
	for (a, b) in &o.trace {
		s += &format!("switch {} {}\n", a, b);
	}
	for (a, b, c) in &o.fine_trace {
		s += &format!("fswitch {} {} {}\n", a, b, c);
	}
	for l in &o.log {
		s += &format!("log {}\n", one_line(l));
	}
	s += "done\n";
	let _ = std::io::stdout().write_all(s.as_bytes());
	0
}

#[derive(Default, Clone)]
struct Seen {
	out: Outcome,
	/// how the process ended, if not by itself
	died: Option<String>,
}

fn leak(s: &str) -> &'static str {
	use std::sync::Mutex;
	static NAMES: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
	let mut n = NAMES.lock().unwrap();
	if let Some(x) = n.get(s) {
		return x;
	}
	let x: &'static str = Box::leak(s.to_string().into_boxed_str());
	n.insert(x);
	x
}

fn signal_name(s: i32) -> String {
	match s {
		4 => "SIGILL".into(),
		6 => "SIGABRT".into(),
		7 => "SIGBUS".into(),
		8 => "SIGFPE".into(),
		11 => "SIGSEGV".into(),
		s => format!("signal {}", s),
	}
}

fn rss(pid: u32) -> u64 {
	fs::read_to_string(format!("/proc/{}/statm", pid))
		.ok()
		.and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
		.map_or(0, |x| x * 4096)
}

/// Seconds of processor time a process has used.
fn cpu(pid: u32) -> f64 {
	let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
	// (the name, in parentheses, may contain anything)
	let f: Vec<f64> = s.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0.0)).collect();
	// in ticks of 10 ms
	f.get(11).copied().unwrap_or(0.0) / 100.0 + f.get(12).copied().unwrap_or(0.0) / 100.0
}

/// A run which is stuck: waiting for ever, or computing for much longer than any run
/// needs. On a busy machine a live one may well take minutes.
fn stuck(wall: Duration, pid: u32, cpu_before: f64) -> bool {
	if wall < Duration::from_secs(HANG_S) {
		return false;
	}
	let used = cpu(pid) - cpu_before;
	used < 0.5 || used > 1.5 * HANG_S as f64 || wall > Duration::from_secs(200)
}

/// Wait for a child. Returns what it printed; `Err` when it had to be stopped.
fn finish(mut c: Child) -> (String, Result<std::process::ExitStatus, &'static str>) {
	let mut so = c.stdout.take().unwrap();
	let reader = std::thread::spawn(move || {
		let mut v = Vec::new();
		let _ = so.read_to_end(&mut v);
		String::from_utf8_lossy(&v).into_owned()
	});
	let t = Instant::now();
	let mut nap = 200;
	let st = loop {
		match c.try_wait() {
			Ok(Some(st)) => break Ok(st),
			Err(_) => break Err("lost"),
			_ => {}
		}
		if stuck(t.elapsed(), c.id(), 0.0) {
			let _ = c.kill();
			let _ = c.wait();
			break Err("hang");
		}
		if rss(c.id()) > RSS_MAX {
			let _ = c.kill();
			let _ = c.wait();
			break Err("memory");
		}
		std::thread::sleep(Duration::from_micros(nap));
		nap = (nap * 2).min(20_000);
	};
	(reader.join().unwrap_or_default(), st)
}

/// Run a plan in a process of its own.
fn isolated(bin: &Path, dir: &Path, text: &str, log: bool) -> Seen {
	use std::sync::atomic::{AtomicU64, Ordering};
	static N: AtomicU64 = AtomicU64::new(0);
	let f = dir.join(format!("x{}-{}.plan", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
	if fs::write(&f, text).is_err() {
		return Seen::default();
	}
	let c = Command::new(bin)
		.arg("exec")
		.arg(&f)
		.arg(if log { "log" } else { "-" })
		.stdin(Stdio::null())
		.stdout(Stdio::piped())
		.stderr(Stdio::null())
		.spawn();
	let mut seen = Seen::default();
	let c = match c {
		Ok(c) => c,
		Err(_) => return seen,
	};
	let (text, st) = finish(c);
	let _ = fs::remove_file(&f);
	let mut done = false;
	for l in text.lines() {
		let w: Vec<&str> = l.splitn(5, ' ').collect();
		let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
		match w[0] {
			"hash" => seen.out.hash = u64::from_str_radix(w[1], 16).unwrap_or(0),
			"failed" => seen.out.failed.push(n(1) as usize),
			"viol" if w.len() == 5 => seen.out.viols.push(Viol {
				class: w[1].into(),
				op: w[2].parse().unwrap_or(usize::MAX),
				input: w[3].parse::<usize>().ok(),
				msg: w[4].into(),
			}),
			"count" => seen.out.count(leak(w[1]), n(2)),
			"switch" => seen.out.trace.push((n(1), n(2))),
			"fswitch" => seen.out.fine_trace.push((n(1), n(2), n(3))),
			"log" => seen.out.log.push(l[4..].to_string()),
			"done" => done = true,
			_ => {}
		}
	}
	match st {
		Ok(st) => {
			if st.signal() == Some(9) {
				// Not by anything in it: memory ran out
			} else if let Some(s) = st.signal() {
				seen.died = Some(format!("the process died with {}", signal_name(s)));
			} else if !done {
				seen.died = Some(format!("the process ended with status {:?}", st.code()));
			}
		}
		Err("hang") => seen.died = Some("the run does not end".into()),
		Err(_) => {}
	}
	if let Some(m) = &seen.died {
		let class = if m.contains("does not end") { "hang" } else { "crash" };
		seen.out.viols.push(Viol { class: class.into(), msg: m.clone(), op: usize::MAX, input: None });
	}
	seen
}

/// The first violation of the plan's property in an outcome, if any.
fn judge_outcome(bin: &Path, dir: &Path, p: &Plan, o: &Outcome, only: Option<&str>, stats: &mut Stats) -> Option<Viol> {
	let mut tried: BTreeSet<(String, usize)> = BTreeSet::new();
	for v in &o.viols {
		if only.map_or(false, |c| c != v.class) {
			continue;
		}
		if matches!(v.class.as_str(), "crash" | "hang") {
			return Some(v.clone());
		}
		if !judge::relevant(p, o, v) || !tried.insert((v.class.clone(), v.op)) {
			continue;
		}
		if only.is_none() && judge::known().iter().any(|k| k.0 == p.prop && k.1 == v.class) {
			*stats.known.entry(v.class.clone()).or_insert(0) += 1;
			continue;
		}
		match judge::control(p, v, &o.failed) {
			None => return Some(v.clone()),
			Some(q) => {
				if stats.controls >= 400 {
					continue;
				}
				stats.controls += 1;
				let s = isolated(bin, dir, &q.to_text(), false);
				let classes: Vec<String> = s.out.viols.iter().map(|x| x.class.clone()).collect();
				if judge::cleared(v, &classes) {
					return Some(v.clone());
				}
				stats.suppressed += 1;
			}
		}
	}
	None
}

#[derive(Default)]
struct Stats {
	controls: u64,
	suppressed: u64,
	/// known findings seen, by class
	known: BTreeMap<String, u64>,
}

// ---------------------------------------------------------------- workers

/// Runs `start, start + stride, ..` below `end`; writes what happened to `base.*`.
fn work(prop: &str, master: u64, start: u64, end: u64, base: &str) -> i32 {
	let stride = WORKERS;
	let dir = Path::new(base).parent().unwrap_or(Path::new("/tmp")).to_path_buf();
	let me = std::env::current_exe().unwrap_or_default();
	let prog = match File::options().read(true).write(true).create(true).open(format!("{}.prog", base)) {
		Ok(f) => f,
		Err(_) => return 2,
	};
	let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
	let mut hashes: Vec<u8> = Vec::new();
	let mut runs = 0u64;
	let mut nontrivial = 0u64;
	let mut stats = Stats::default();
	let mut found = String::new();
	let mut i = start;
	let t = Instant::now();
	let mut slowest = (0u128, 0u64);
	let part = format!("{}.{}", base, start);
	// Written now and then, for a worker which has to be stopped.
	let flush = |hashes: &mut Vec<u8>, runs: u64, nontrivial: u64, stats: &Stats, t: Instant, slowest: (u128, u64), counts: &BTreeMap<&'static str, u64>, end: &str| -> bool {
		let mut s = String::new();
		s += &format!("runs {}\nnontrivial {}\ncontrols {}\nsuppressed {}\n", runs, nontrivial, stats.controls, stats.suppressed);
		s += &format!("busy {}\nslowest {} {}\n", t.elapsed().as_millis(), slowest.0, slowest.1);
		for (k, v) in counts {
			s += &format!("count {} {}\n", k, v);
		}
		for (k, v) in &stats.known {
			s += &format!("known {} {}\n", k, v);
		}
		s += end;
		let ok = File::options().append(true).create(true).open(format!("{}.hash", part)).and_then(|mut f| f.write_all(hashes)).is_ok();
		hashes.clear();
		ok && fs::write(format!("{}.out", part), &s).is_ok()
	};
	while i < end {
		let _ = prog.write_at(&(i + 1).to_ne_bytes(), 0);
		let p = gen::plan_for(prop, master, i);
		let t1 = Instant::now();
		let o = if cold(prop, i) { isolated(&me, &dir, &p.to_text(), false).out } else { exec(&p, false) };
		slowest = slowest.max((t1.elapsed().as_micros(), i));
		runs += 1;
		if cold(prop, i) {
			*counts.entry("cold_runs").or_insert(0) += 1;
		}
		let nt = judge::nontrivial(&p, &o);
		nontrivial += nt as u64;
		hashes.extend_from_slice(&i.to_ne_bytes());
		hashes.extend_from_slice(&o.hash.to_ne_bytes());
		hashes.push(nt as u8);
		for (k, v) in &o.counts {
			*counts.entry(k).or_insert(0) += v;
		}
		if !o.viols.is_empty() {
			*counts.entry("runs_with_problems").or_insert(0) += 1;
			if let Some(v) = judge_outcome(&me, &dir, &p, &o, None, &mut stats) {
				found = format!("viol {} {} {} {}\n", i, v.class, v.op, one_line(&v.msg));
				break;
			}
		}
		i += stride;
		if runs % 2000 == 0 {
			flush(&mut hashes, runs, nontrivial, &stats, t, slowest, &counts, "");
		}
	}
	if flush(&mut hashes, runs, nontrivial, &stats, t, slowest, &counts, &(found + "done\n")) {
		0
	} else {
		2
	}
}

/// These runs get a process of their own, where nothing was initialized before.
pub fn cold(prop: &str, index: u64) -> bool {
	prop == "C11" && index % 5 == 3
}

struct Worker {
	bin: PathBuf,
	base: String,
	child: Option<Child>,
	/// first run of this process
	start: u64,
	first: u64,
	moved: Instant,
	/// processor time then
	cpu: f64,
	last: u64,
	outs: Vec<u64>,
}

impl Worker {
	fn spawn(&mut self, prop: &str, master: u64, end: u64) {
		self.outs.push(self.start);
		self.last = 0;
		self.moved = Instant::now();
		self.cpu = 0.0;
		let _ = fs::write(format!("{}.prog", self.base), 0u64.to_ne_bytes());
		self.child = Command::new(&self.bin)
			.args(["work", prop, &master.to_string(), &self.start.to_string(), &end.to_string(), &self.base])
			.stdin(Stdio::null())
			.stdout(Stdio::null())
			.stderr(Stdio::null())
			.spawn()
			.ok();
	}
	/// The run in progress (or the last).
	fn at(&self) -> u64 {
		let mut b = [0u8; 8];
		match File::open(format!("{}.prog", self.base)).and_then(|f| f.read_exact_at(&mut b, 0)) {
			Ok(()) => u64::from_ne_bytes(b),
			Err(_) => 0,
		}
	}
}

struct Found {
	index: u64,
	class: String,
	msg: String,
	/// first run of the process it was found in
	start: u64,
	bin: PathBuf,
	variant: &'static str,
}

fn runs_for(prop: &str, thorough: bool) -> u64 {
	// About 30 seconds on 8 cores.
	let quick: u64 = match prop {
		"C01" | "C02" | "C03" | "C04" | "C05" => 400_000,
		"C06" | "C07" => 600_000,
		"C08" => 200_000,
		"C09" | "C10" | "C12" => 480_000,
		"C11" => 30_000,
		"C13" => 240_000,
		"C14" => 120_000,
		_ => 300_000,
	};
	if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
		return n;
	}
	if thorough {
		quick * 40
	} else {
		quick
	}
}

fn esc(s: &str) -> String {
	let mut o = String::new();
	for c in s.chars() {
		match c {
			'"' => o += "\\\"",
			'\\' => o += "\\\\",
			'\n' => o += "\\n",
			'\t' => o += "\\t",
			c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
			c => o.push(c),
		}
	}
	o
}

fn check(prop: &str, other: &str) -> i32 {
	let t0 = Instant::now();
	let id = match gen::PROPS.iter().position(|p| *p == prop) {
		Some(i) => i,
		None => return 2,
	};
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
	let thorough = std::env::var("VERIF_TIER").map_or(false, |s| s == "thorough");
	let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
	let dir = root.join(format!("target/run/{}-{}", prop, std::process::id()));
	if fs::create_dir_all(&dir).is_err() || fs::create_dir_all(root.join("evidence/replay")).is_err() {
		eprintln!("cannot create working directories");
		return 2;
	}
	let me = std::env::current_exe().unwrap_or_default();
	let bins = [(me.clone(), "release"), (PathBuf::from(other), "checked")];
	let end = runs_for(prop, thorough);
	let deadline = Duration::from_secs(if thorough { 2400 } else { 300 });

	let mut ws: Vec<Worker> = (0..WORKERS)
		.map(|w| {
			let mut x = Worker {
				bin: bins[(w % 2) as usize].0.clone(),
				base: dir.join(format!("w{}", w)).to_string_lossy().into_owned(),
				child: None,
				start: w,
				first: w,
				moved: Instant::now(),
				cpu: 0.0,
				last: 0,
				outs: vec![],
			};
			x.spawn(prop, seed, end);
			x
		})
		.collect();

	let mut best: Option<Found> = None;
	let mut deaths: Vec<String> = Vec::new();
	let mut restarts = 0u64;
	let mut late = false;
	loop {
		let mut busy = false;
		for w in ws.iter_mut() {
			let mut c = match w.child.take() {
				Some(c) => c,
				None => continue,
			};
			let at = w.at();
			if at != w.last {
				w.last = at;
				w.moved = Instant::now();
				w.cpu = cpu(c.id());
			}
			let index = at.saturating_sub(1).max(w.start);
			// A smaller index than the best one is still possible here?
			let useless = best.as_ref().map_or(false, |b| index > b.index);
			let over = t0.elapsed() > deadline;
			if useless || over {
				late |= over;
				let _ = c.kill();
				let _ = c.wait();
				continue;
			}
			let hang = stuck(w.moved.elapsed(), c.id(), w.cpu);
			let big = rss(c.id()) > RSS_MAX;
			let died = match c.try_wait() {
				Ok(Some(st)) if st.success() => {
					let part = fs::read_to_string(format!("{}.{}.out", w.base, w.start)).unwrap_or_default();
					for l in part.lines() {
						let f: Vec<&str> = l.splitn(5, ' ').collect();
						if f[0] == "viol" && f.len() == 5 {
							let i: u64 = f[1].parse().unwrap_or(0);
							if best.as_ref().map_or(true, |b| i < b.index) {
								best = Some(Found {
									index: i,
									class: f[2].into(),
									msg: f[4].into(),
									start: w.start,
									bin: w.bin.clone(),
									variant: bins[(w.first % 2) as usize].1,
								});
							}
						}
					}
					continue;
				}
				Ok(Some(st)) => Some(match st.signal() {
					Some(9) => "memory".into(),
					Some(s) => format!("the process died with {}", signal_name(s)),
					None => format!("the process ended with status {:?}", st.code()),
				}),
				_ if hang || big => {
					let _ = c.kill();
					let _ = c.wait();
					Some(if big { "memory".into() } else { "the run does not end".into() })
				}
				_ => None,
			};
			match died {
				None => {
					busy = true;
					w.child = Some(c);
				}
				Some(m) => {
					restarts += 1;
					// Does it happen again, alone or after the runs before it?
					if m != "memory" {
						let p = gen::plan_for(prop, seed, index);
						let pre = prelude_for(&w.bin, &dir, &p, seed, w.start, index, None);
						match pre {
							Some((_, v)) => {
								if best.as_ref().map_or(true, |b| index < b.index) {
									best = Some(Found {
										index,
										class: v.class,
										msg: v.msg,
										start: w.start,
										bin: w.bin.clone(),
										variant: bins[(w.first % 2) as usize].1,
									});
								}
								continue;
							}
							None => deaths.push(format!("run {}: {}; does not happen again", index, m)),
						}
					}
					if restarts > 200 {
						continue;
					}
					w.start = index + WORKERS;
					if w.start < end {
						w.spawn(prop, seed, end);
						busy = true;
					}
				}
			}
		}
		if !busy {
			break;
		}
		std::thread::sleep(Duration::from_millis(15));
	}
	let search_s = t0.elapsed().as_secs_f64();

	// Add up.
	let mut counts: BTreeMap<String, u64> = BTreeMap::new();
	let mut known: BTreeMap<String, u64> = BTreeMap::new();
	let (mut runs, mut nontrivial, mut controls, mut suppressed, mut busy_ms) = (0u64, 0u64, 0u64, 0u64, 0u64);
	let mut per_variant = [0u64; 2];
	let mut slowest = (0u64, 0u64);
	let mut by_index: BTreeMap<u64, u64> = BTreeMap::new();
	let mut distinct: Vec<u64> = Vec::new();
	for w in &ws {
		for s in &w.outs {
			for l in fs::read_to_string(format!("{}.{}.out", w.base, s)).unwrap_or_default().lines() {
				let f: Vec<&str> = l.split(' ').collect();
				let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
				match f[0] {
					"runs" => {
						runs += n(1);
						per_variant[(w.first % 2) as usize] += n(1);
					}
					"nontrivial" => nontrivial += n(1),
					"controls" => controls += n(1),
					"suppressed" => suppressed += n(1),
					"busy" => busy_ms += n(1),
					"slowest" => slowest = slowest.max((n(1), n(2))),
					"count" => *counts.entry(f[1].into()).or_insert(0) += n(2),
					"known" => *known.entry(f[1].into()).or_insert(0) += n(2),
					_ => {}
				}
			}
			let h = fs::read(format!("{}.{}.hash", w.base, s)).unwrap_or_default();
			for r in h.chunks_exact(17) {
				let i = u64::from_ne_bytes(r[..8].try_into().unwrap());
				let x = u64::from_ne_bytes(r[8..16].try_into().unwrap());
				if i < 20_000 {
					by_index.insert(i, x);
				}
				if r[16] != 0 {
					distinct.push(x);
				}
			}
		}
	}
	distinct.sort_unstable();
	distinct.dedup();

	// Determinism: repeat some runs in fresh processes, one by one.
	let mut repeated = 0u64;
	let mut differ = 0u64;
	if best.is_none() && !by_index.is_empty() {
		let mut r = crate::prng::Rng::new(seed ^ 77);
		let keys: Vec<u64> = by_index.keys().copied().collect();
		let todo: Vec<u64> =
			(0..if thorough { 4000 } else { 400 }).map(|_| keys[r.below(keys.len().max(1) as u64) as usize]).collect();
		let res: Vec<(u64, u64)> = std::thread::scope(|sc| {
			let hs: Vec<_> = todo
				.chunks(todo.len() / 8 + 1)
				.map(|c| {
					let (bins, dir, by_index) = (&bins, &dir, &by_index);
					sc.spawn(move || {
						let mut x = (0, 0);
						for i in c {
							let p = gen::plan_for(prop, seed, *i);
							let s = isolated(&bins[(i % 2) as usize].0, dir, &p.to_text(), false);
							x.0 += 1;
							x.1 += (s.out.hash != by_index[i]) as u64;
						}
						x
					})
				})
				.collect();
			hs.into_iter().map(|h| h.join().unwrap_or((0, 0))).collect()
		});
		for (a, b) in res {
			repeated += a;
			differ += b;
		}
	}

	// Report.
	let mut code = 0;
	let mut violation = String::new();
	if let Some(f) = &best {
		let file = report(prop, id, seed, f, &dir, &root);
		violation = format!("{} at run {} ({} build): {}", f.class, f.index, f.variant, f.msg);
		println!("{}", violation);
		println!("VIOLATION property={} replay={}", prop, file.display());
		code = 1;
	}
	for d in &deaths {
		println!("note: {}", d);
	}
	let mut findings = String::new();
	for (k, n) in &known {
		for f in judge::known().iter().filter(|f| f.0 == prop && f.1 == *k) {
			println!("KNOWN-FINDING: property={} {} ({} in {} problems seen)", prop, f.2, k, n);
			if !findings.is_empty() {
				findings += ", ";
			}
			findings += &format!("\"{}\": {}", esc(k), n);
		}
	}

	let mut s = String::new();
	let mut faults = String::new();
	let mut others = String::new();
	for (k, v) in &counts {
		let t = if k.starts_with("fault_") || k.starts_with("aborted_by") || k.starts_with("moved_") || matches!(k.as_str(), "switches" | "instr_switches" | "lock_switches") {
			&mut faults
		} else {
			&mut others
		};
		if !t.is_empty() {
			*t += ", ";
		}
		*t += &format!("\"{}\": {}", esc(k), v);
	}
	let mut samples = String::new();
	let mut shown = 0;
	for i in 0..200u64 {
		let p = gen::plan_for(prop, seed, i);
		if shown < 3 && p.ops.len() < 30 {
			if shown > 0 {
				samples += ", ";
			}
			samples += &format!("\"{}\"", esc(&p.to_text()));
			shown += 1;
		}
	}
	let wall = t0.elapsed().as_secs_f64();
	let per_h = if search_s > 0.0 { runs as f64 / search_s * 3600.0 } else { 0.0 };
	s += "{\n";
	s += &format!("  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n", prop, if thorough { "thorough" } else { "quick" }, seed);
	s += "  \"level\": \"exploration\",\n  \"coverage\": {\n";
	s += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", runs, distinct.len());
	s += &format!(
		"    \"rule\": \"Each run is one simulated execution of real ser_raw code, whose plan (inputs, operations, schedule, allocator behaviour, faults) is drawn from its seed. Non-trivial: {}. Distinct: by a hash of the plan's inputs and operations, every heap request with its placement and outcome, and every thread switch.\",\n",
		esc(RULES[id].1)
	);
	s += &format!("    \"samples\": [{}],\n", samples);
	s += &format!("    \"nontrivial_runs\": {},\n", nontrivial);
	s += &format!(
		"    \"runs_by_build\": {{\"release\": {}, \"checked\": {}}},\n    \"runs_per_hour\": {:.0},\n    \"seeds_per_hour\": {:.0},\n    \"core_seconds\": {:.1},\n",
		per_variant[0], per_variant[1], per_h, per_h, busy_ms as f64 / 1000.0
	);
	s += &format!(
		"    \"simulated_time\": \"the system has no clock; logical time is {} heap requests and {} scheduling steps\",\n",
		counts.get("heap_requests").copied().unwrap_or(0),
		counts.get("steps").copied().unwrap_or(0)
	);
	s += &format!("    \"faults_injected\": {{{}}},\n    \"activity\": {{{}}},\n", faults, others);
	s += &format!(
		"    \"determinism\": {{\"runs_repeated_in_fresh_processes\": {}, \"different\": {}}},\n",
		repeated, differ
	);
	s += &format!(
		"    \"control_runs\": {}, \"problems_not_about_this_property\": {}, \"worker_restarts\": {}, \"slowest_run_us\": {}, \"stopped_at_time_limit\": {},\n",
		controls, suppressed, restarts, slowest.0, late
	);
	s += &format!("    \"known_findings_seen\": {{{}}},\n", findings);
	s += "    \"real_components\": [\"ser_raw: AlignedVec, Storage default methods, all serializers and serializer traits, Serialize implementations\", \"ser_raw_derive_serialize / serializer derive macros (through types and serializers of the harness)\", \"Rust standard library collections\"],\n";
	s += "    \"simulated_components\": [\"global allocator (placement, in-place growth, reuse, contents, refusal)\", \"thread scheduler (baton at heap requests, user callbacks and single instructions)\", \"user code (panics, pushes, corrections, nested sessions)\", \"alternative Storage implementations: SimStore (relocates, skips ahead, refuses), SegStore (in segments)\"]\n";
	s += "  },\n";
	s += "  \"assumptions\": [\"x86_64, 64-bit pointers, layouts chosen by the pinned compiler\", \"threads switch at heap requests, callbacks and between machine instructions; memory is sequentially consistent\", \"a refused allocation unwinds (alloc error hook)\"],\n";
	s += &format!("  \"wall_s\": {:.2},\n  \"violations\": {}", wall, (code == 1) as u64);
	if code == 1 {
		s += &format!(",\n  \"violation\": \"{}\"", esc(&violation));
	}
	s += "\n}\n";
	if fs::write(root.join(format!("evidence/{}.json", prop)), s).is_err() {
		eprintln!("cannot write evidence");
		let _ = fs::remove_dir_all(&dir);
		return 2;
	}
	let _ = fs::remove_dir_all(&dir);
	if code == 0 {
		println!(
			"{}: held in {} runs ({} distinct non-trivial), {:.0} runs/h, {:.1} s",
			prop,
			runs,
			distinct.len(),
			per_h,
			wall
		);
	}
	code
}

// ---------------------------------------------------------------- confirmation and minimisation

/// Find what has to run before a plan in the same process to see the problem.
fn prelude_for(
	bin: &Path,
	dir: &Path,
	p: &Plan,
	seed: u64,
	start: u64,
	index: u64,
	class: Option<&str>,
) -> Option<(Vec<u64>, Viol)> {
	let mut before: Vec<u64> = Vec::new();
	let mut i = start;
	while i < index {
		if !cold(&p.prop, i) {
			before.push(i);
		}
		i += WORKERS;
	}
	let mut tries: Vec<usize> = vec![0, 1, 4, 16, 100, 1000];
	tries.retain(|n| *n <= before.len());
	tries.push(before.len());
	tries.dedup();
	let mut st = Stats::default();
	for n in tries {
		let pre = before[before.len() - n..].to_vec();
		if let Some(v) = holds(bin, dir, p, seed, &pre, class, &mut st) {
			return Some((pre, v.0));
		}
	}
	None
}

fn text_of(p: &Plan, seed: u64, pre: &[u64]) -> String {
	let mut t = p.to_text();
	if !pre.is_empty() {
		let l: Vec<String> = pre.iter().map(|x| x.to_string()).collect();
		t += &format!("prelude {} {}\n", seed, l.join(" "));
	}
	t
}

/// Does the plan (still) violate its property?
fn holds(bin: &Path, dir: &Path, p: &Plan, seed: u64, pre: &[u64], class: Option<&str>, st: &mut Stats) -> Option<(Viol, Seen)> {
	let s = isolated(bin, dir, &text_of(p, seed, pre), false);
	let v = judge_outcome(bin, dir, p, &s.out, class, st)?;
	Some((v, s))
}

/// Smaller plans to try, from a plan.
fn minimise(bin: &Path, dir: &Path, p: Plan, seed: u64, mut pre: Vec<u64>, class: &str) -> (Plan, Vec<u64>) {
	let t = Instant::now();
	let limit = Duration::from_secs(75);
	let ok = |p: &Plan, pre: &[u64]| -> bool {
		t.elapsed() < limit && holds(bin, dir, p, seed, pre, Some(class), &mut Stats::default()).is_some()
	};
	let mut best = p;
	// What runs before
	let mut step = (pre.len() + 1) / 2;
	while step > 0 && !pre.is_empty() {
		let mut i = 0;
		while i < pre.len() {
			let mut q = pre.clone();
			q.drain(i..(i + step).min(pre.len()));
			if ok(&best, &q) {
				pre = q;
			} else {
				i += step;
			}
		}
		step /= 2;
	}
	if class == "hang" {
		return (best, pre);
	}
	for round in 0..4 {
		let start = best.clone();
		// An explicit schedule instead of a random one
		if best.get("density") != 0 || best.get("fine") != 0 || best.get("hot") != 0 {
			let s = isolated(bin, dir, &text_of(&best, seed, &pre), false);
			let mut q = best.clone();
			q.set("density", 0);
			q.set("fine", 0);
			q.set("hot", 0);
			q.preempt = s.out.trace.clone();
			q.fines = s.out.fine_trace.clone();
			if ok(&q, &pre) {
				best = q;
			}
		}
		// Operations
		let mut step = (best.ops.len() + 1) / 2;
		while step > 0 {
			let mut i = 0;
			while i < best.ops.len() {
				let mut q = best.clone();
				q.ops.drain(i..(i + step).min(best.ops.len()));
				if ok(&q, &pre) {
					best = q;
				} else {
					i += step;
				}
			}
			step /= 2;
		}
		// Switches
		let mut step = (best.preempt.len() + 1) / 2;
		while step > 0 {
			let mut i = 0;
			while i < best.preempt.len() {
				let mut q = best.clone();
				q.preempt.drain(i..(i + step).min(best.preempt.len()));
				if ok(&q, &pre) {
					best = q;
				} else {
					i += step;
				}
			}
			step /= 2;
		}
		let mut step = (best.fines.len() + 1) / 2;
		while step > 0 {
			let mut i = 0;
			while i < best.fines.len() {
				let mut q = best.clone();
				q.fines.drain(i..(i + step).min(best.fines.len()));
				if ok(&q, &pre) {
					best = q;
				} else {
					i += step;
				}
			}
			step /= 2;
		}
		// Inputs which are not used (any more), and smaller ones
		for i in (0..best.inputs.len()).rev() {
			let mut q = best.clone();
			q.inputs.remove(i);
			for o in &mut q.ops {
				let at = match o.k.as_str() {
					"val" => 0,
					"one" => 2,
					_ => continue,
				};
				if let Some(x) = o.a.get_mut(at) {
					if *x > i as u64 {
						*x -= 1;
					} else if *x == i as u64 {
						*x = 99;
					}
				}
			}
			if ok(&q, &pre) {
				best = q;
			}
		}
		for i in 0..best.inputs.len() {
			for k in [3usize, 2] {
				let mut lo = 0;
				while lo < best.inputs[i][k] {
					let mut q = best.clone();
					q.inputs[i][k] = lo;
					if ok(&q, &pre) {
						best = q;
						break;
					}
					lo = lo + 1 + (best.inputs[i][k] - lo) / 4;
				}
			}
		}
		// Parameters of the world
		let keys: Vec<String> = best.p.keys().cloned().collect();
		for k in keys {
			if matches!(k.as_str(), "cfg" | "index") {
				continue;
			}
			for v in [0, 1, 1000] {
				let cur = best.get(&k);
				if v == cur || (v != 0 && cur < v && v != 1) {
					continue;
				}
				let mut q = best.clone();
				q.set(&k, v);
				if ok(&q, &pre) {
					best = q;
					break;
				}
			}
		}
		// Arguments
		for i in 0..best.ops.len() {
			let kind = best.ops[i].k.clone();
			for j in 0..best.ops[i].a.len() {
				if (kind == "new" || kind == "open") && j == 0 {
					continue;
				}
				let mut lo = 0;
				let mut n = 0;
				while lo < best.ops[i].a[j] && n < 8 {
					let mut q = best.clone();
					q.ops[i].a[j] = lo;
					if ok(&q, &pre) {
						best = q;
						break;
					}
					n += 1;
					lo = lo + 1 + (best.ops[i].a[j] - lo) / 3;
				}
			}
		}
		if best == start || t.elapsed() > limit || round == 3 {
			break;
		}
	}
	(best, pre)
}

/// Confirm, minimise and write the replay file.
fn report(prop: &str, _id: usize, seed: u64, f: &Found, dir: &Path, root: &Path) -> PathBuf {
	let p = gen::plan_for(prop, seed, f.index);
	let mut st = Stats::default();
	let confirmed = prelude_for(&f.bin, dir, &p, seed, f.start, f.index, Some(&f.class));
	let mut text = String::new();
	let (q, pre) = match confirmed {
		Some((pre, _)) => minimise(&f.bin, dir, p, seed, pre, &f.class),
		None => {
			text += "# not seen again when this was written\n";
			(p, vec![])
		}
	};
	let s = isolated(&f.bin, dir, &text_of(&q, seed, &pre), true);
	let v = judge_outcome(&f.bin, dir, &q, &s.out, Some(&f.class), &mut st);
	text += &format!("# {} violated: {}\n", prop, f.class);
	if let Some(v) = &v {
		text += &format!("# {}\n", v.msg);
	}
	text += &format!("# found at run {} of seed {}; replay with: sh /verif/replay.sh FILE\n", f.index, seed);
	text += &format!("variant {}\nexpect {}\nhash {:016x}\n", f.variant, f.class, s.out.hash);
	text += &text_of(&q, seed, &pre);
	text += "# what happened:\n";
	for (a, b) in &s.out.trace {
		text += &format!("# step {}: thread {} runs\n", a, b);
	}
	for (a, b, c) in &s.out.fine_trace {
		text += &format!("# {} instructions after step {}: thread {} runs\n", b, a, c);
	}
	for l in s.out.log.iter().take(1500) {
		text += &format!("# {}\n", l);
	}
	for x in &s.out.viols {
		text += &format!("# VIOLATED {} {}\n", x.class, x.msg);
	}
	let file = root.join(format!("evidence/replay/{}-{}-{}.txt", prop, seed, f.index));
	let _ = fs::write(&file, text);
	file
}

/// Run a replay file again: the same violation and the same execution?
fn replay(file: &str, other: &str) -> i32 {
	let text = match fs::read_to_string(file) {
		Ok(t) => t,
		Err(e) => {
			eprintln!("{}: {}", file, e);
			return 2;
		}
	};
	let (p, rest) = match Plan::from_text(&text) {
		Some(x) => x,
		None => return 2,
	};
	let me = std::env::current_exe().unwrap_or_default();
	let want = rest.get("variant").map(|s| s.as_str()).unwrap_or("release");
	let bin = if want == variant() { me } else { PathBuf::from(other) };
	let dir = std::env::temp_dir().join(format!("sim-replay-{}", std::process::id()));
	let _ = fs::create_dir_all(&dir);
	let class = rest.get("expect").cloned().unwrap_or_default();
	let s = isolated(&bin, &dir, &text, true);
	let v = judge_outcome(&bin, &dir, &p, &s.out, Some(&class), &mut Stats::default());
	for l in &s.out.log {
		println!("{}", l);
	}
	for x in &s.out.viols {
		println!("problem: {} {}", x.class, x.msg);
	}
	let _ = fs::remove_dir_all(&dir);
	let hash = format!("{:016x}", s.out.hash);
	let same = rest.get("hash").map_or(false, |h| *h == hash);
	match v {
		Some(v) => {
			println!("reproduced: {} ({})", v.class, if same { "identical execution" } else { "the execution differs" });
			println!("{}", v.msg);
			println!("VIOLATION property={} replay={}", p.prop, file);
			1
		}
		None => {
			println!("not reproduced ({})", if same { "identical execution" } else { "the execution differs" });
			0
		}
	}
}
