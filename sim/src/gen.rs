//! Generation of plans: what a run does is decided by its seed.

use crate::{
	plan::Plan,
	prng::{mix, Rng},
	sers::{caps, ALL_SIM_CFGS, CFGS, ROOMY_CFGS, SIM_CFGS, SMALL_CFGS, VEC_CFGS},
	store::{ELEMS, SCFGS, S_ALL, S_LIMITED, S_SIM},
	types::{far_size, pick_kind, Caps, COMMON, TRACK},
};

pub const PROPS: [&str; 15] = [
	"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
];

/// See `session_plan`.
// (odd: far runs are spread over all workers and both builds)
const FAR_EVERY: u64 = 25;

pub fn plan_for(prop: &str, master: u64, index: u64) -> Plan {
	let id: u64 = prop[1..].parse().unwrap_or(0);
	let seed = mix(mix(master ^ id << 32) ^ index.wrapping_mul(0x9e37_79b9_7f4a_7c15));
	let mut r = Rng::new(seed);
	let mut p = match prop {
		"C06" | "C07" | "C09" => store_plan(prop, seed, &mut r),
		"C08" if r.chance(300) => store_plan(prop, seed, &mut r),
		"C13" if r.chance(400) => store_plan(prop, seed, &mut r),
		"C11" => threads_plan(prop, seed, &mut r, crate::driver::cold(prop, index)),
		"C08" if r.chance(200) => threads_plan(prop, seed, &mut r, false),
		_ => session_plan(prop, seed, &mut r, index),
	};
	p.set("index", index);
	p
}

fn world(p: &mut Plan, r: &mut Rng) {
	p.set("zone", r.below(5));
	p.set("reuse", r.pick(&[0, 0, 300, 1000]));
	p.set("inplace", r.pick(&[0, 0, 300, 1000]));
	p.set("slack", r.pick(&[0, 0, 1, 2, 3]));
	p.set("slide", r.pick(&[0, 0, 0, 200, 700]));
	p.set("fill", r.below(4));
	p.set("misalign", r.pick(&[0, 1, 1]));
	p.set("shrink_move", r.pick(&[0, 500, 1000]));
}

fn heap_faults(p: &mut Plan, r: &mut Rng, reach: u64) {
	match r.below(6) {
		0 | 1 => p.set("oom_nth", 1 + r.skewed(reach)),
		2 => {
			p.set("oom_from", 1 + r.skewed(reach));
			p.set("oom_len", 1 + r.skewed(6));
		}
		3 => p.set("oom_prob", r.pick(&[20, 80, 250, 600])),
		4 => p.set("oom_budget", 200 + r.skewed(20_000)),
		_ => {
			p.set("oom_nth", 1 + r.below(4));
			p.set("oom_min", r.pick(&[64, 256, 1024, 4096]));
		}
	}
}

fn storage_world(p: &mut Plan, r: &mut Rng) {
	p.set("st_relocate", r.pick(&[0, 200, 1000, 1000]));
	p.set("st_skip", r.pick(&[0, 0, 150, 500]));
	p.set("st_growth", r.below(3));
}

/// A size parameter, and whether values contain callbacks acting on the storage.
fn input(r: &mut Rng, caps: Caps, kinds: &[u64], acts: bool) -> [u64; 4] {
	let kind = if kinds.is_empty() || r.chance(250) { pick_kind(r, caps) } else { r.pick(kinds) };
	let size = match r.below(50) {
		0..=5 => r.below(4),
		6..=37 => r.range(4, 40),
		38..=43 => r.range(40, 150),
		44..=48 => r.range(100, 400),
		_ => r.range(400, 4000),
	};
	[kind, r.next() & 0xffff_ffff, size, acts as u64]
}

fn start_cap(r: &mut Rng, max: usize) -> u64 {
	let max = (max as u64).min(1 << 18);
	match r.below(6) {
		0..=2 => 0,
		3 => 1,
		4 => 1 + r.skewed(max.min(600)),
		_ => 1 + r.skewed(max),
	}
}

fn session_plan(prop: &str, seed: u64, r: &mut Rng, index: u64) -> Plan {
	let mut p = Plan::new(prop, "session", seed);
	world(&mut p, r);
	let full: &[u64] = &[0, 8, 9, 10];
	// Configuration and serializer kinds
	let cfg = match prop {
		"C01" | "C02" | "C03" | "C04" => {
			if r.chance(800) {
				r.pick(&ROOMY_CFGS)
			} else if r.chance(700) {
				r.pick(&SMALL_CFGS)
			} else if matches!(prop, "C03" | "C04") {
				r.pick(&ALL_SIM_CFGS)
			} else {
				r.pick(&SIM_CFGS)
			}
		}
		"C05" => r.pick(&VEC_CFGS),
		"C10" => {
			if r.chance(450) {
				r.pick(&SMALL_CFGS)
			} else {
				r.pick(&ROOMY_CFGS)
			}
		}
		"C13" => {
			if r.chance(850) {
				r.pick(&ALL_SIM_CFGS)
			} else {
				0
			}
		}
		"C14" => {
			if r.chance(500) {
				r.pick(full)
			} else {
				r.pick(&ROOMY_CFGS)
			}
		}
		_ => {
			if r.chance(850) {
				r.pick(&VEC_CFGS)
			} else {
				r.pick(&ALL_SIM_CFGS)
			}
		}
	};
	// Few runs reach positions beyond 32 bits: they are large.
	let far = index % FAR_EVERY == FAR_EVERY - 1 && matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C12" | "C14" | "C15");
	let cfg = if far { r.pick(&[0, 0, 0, 2, 3, 6, 1]) } else { cfg };
	let c = CFGS[cfg as usize];
	p.set("cfg", cfg);
	if c.sim {
		storage_world(&mut p, r);
		if matches!(prop, "C08" | "C10" | "C13") && r.chance(400) {
			p.set("st_refuse", 1 + r.skewed(40));
		}
	}
	let kind_pool: Vec<u64> = match prop {
		"C01" | "C02" if c.kinds > 3 => vec![0, 0, 5],
		"C01" | "C02" => vec![0],
		"C03" => vec![1],
		"C04" if c.kinds > 3 => vec![2, 2, 4],
		"C04" => vec![2],
		"C14" if c.kinds > 3 => vec![3, 3, 0, 1, 5, 6].into_iter().filter(|k| c.has(*k)).collect(),
		"C14" => vec![0, 1],
		"C10" => vec![0, 0, 0, 1, 2, 3, 5, 6].into_iter().filter(|k| c.has(*k)).collect(),
		"C15" => vec![0, 0, 0, 1, 2, 3, 4, 5, 6].into_iter().filter(|k| c.has(*k)).collect(),
		_ => (0..c.kinds).filter(|k| c.has(*k)).collect(),
	};
	let track = kind_pool.iter().all(|k| matches!(k, 0 | 1 | 3 | 5 | 6)) || r.chance(100);
	let cp = Caps { align: c.over, track };
	let _ = caps;
	// Types
	let mine: &[u64] = match prop {
		"C14" => TRACK,
		"C15" => &[21, 22, 34, 35, 20, 17, 0, 1, 82, 82, 83, 85, 86, 87],
		"C02" => &[1, 4, 8, 14, 15, 16, 24, 37, 38, 0, 0],
		"C12" | "C10" => &[0, 1, 33, 2, 27, 28, 36, 29],
		_ => &[],
	};
	// User code acting on the storage is legal everywhere; not where it is in the way.
	let acts_rate = match prop {
		"C15" => 600,
		"C11" => 500,
		"C08" | "C10" | "C13" => 400,
		_ => 300,
	};
	let bulk = !far && c.max > 1 << 24 && r.below(700) == 0;
	// Long histories: many values in a session, or many sessions
	let many = !far && !bulk && r.below(500) == 0;
	let n_in = match r.below(if many { 10 } else { 20 }) {
		0..=4 => 1,
		5..=14 => r.range(1, 3),
		15..=18 => r.range(2, 7),
		_ => r.range(8, 30),
	};
	for _ in 0..n_in {
		let acts = r.chance(acts_rate);
		let mut i = input(r, cp, mine, acts);
		if c.max < 30_000 && r.chance(600) {
			i[2] = i[2].min(12);
		}
		if bulk && p.inputs.is_empty() {
			i = [84, i[1], (1 << 20) + r.skewed(300), 0];
		}
		if many && i[2] < 1 << 20 {
			i[2] = i[2].min(25);
			if i[0] == 84 {
				i[0] = 33;
			}
		}
		if far {
			i[2] = i[2].min(60);
			if r.chance(500) {
				i[3] = 2;
				if r.chance(700) {
					i[0] = if track { r.pick(&[70, 71, 72, 73, 74, 20]) } else { r.pick(&[20, 17, 1, 0, 80]) };
				}
			}
		}
		p.inputs.push(i);
	}
	if prop == "C04" || prop == "C05" {
		p.set("no_nested", 1);
	}
	let faulty = matches!(prop, "C08" | "C10") && r.chance(if prop == "C10" { 550 } else { 700 });
	if faulty {
		let reach = r.pick(&[6, 30, 200]);
		heap_faults(&mut p, r, reach);
	}
	let user_panics = matches!(prop, "C08" | "C10") && r.chance(500);
	p.op("new", &[cfg, start_cap(r, c.max)]);
	let sessions = match prop {
		"C12" => r.range(1, 6),
		"C10" => r.range(1, 4),
		"C08" | "C13" => r.range(1, 3),
		_ => {
			if r.chance(800) {
				1
			} else {
				2
			}
		}
	};
	let long_session = many && r.chance(600);
	let sessions = if many && !long_session { r.range(60, 700) } else { sessions };
	let pace = if many { r.pick(&[0, 20, 300, 900]) } else { 0 };
	let mut calm = false;
	let large = c.max > 1 << 24 && !many && r.chance(80);
	for s in 0..sessions {
		// In between
		if s > 0 || r.chance(250) {
			for _ in 0..r.below(3) {
				match r.below(8) {
					0 | 1 => p.op("raw", &[r.skewed(200), r.below(4)]),
					2 => p.op("reserve", &[r.skewed(3000)]),
					3 | 4 if s > 0 => p.op("shrink", &[]),
					5 | 6 if s > 0 => p.op("clear", &[]),
					_ => {}
				}
			}
			if s > 0 && r.chance(if prop == "C10" { 700 } else { 350 }) {
				p.op("clear", &[]);
			}
		}
		if faulty && !calm && s + 1 == sessions && r.chance(600) {
			calm = true;
			p.op("arm", &[0]);
		}
		let kind = kind_pool[r.below(kind_pool.len() as u64) as usize];
		let mut own = if prop == "C10" { r.pick(&[0, 0, 0, 1, 2]) } else { r.below(3) };
		if !far && !many && r.chance(if prop == "C10" { 50 } else { 150 }) {
			// 3: new(), above: with_capacity
			own = 3 + start_cap(r, c.max);
			if c.max < 1 << 20 && r.chance(30) {
				own = 4 + c.max as u64 + r.below(20);
			}
		}
		let n_in = p.inputs.len() as u64;
		if r.chance(150) {
			let at = if user_panics && r.chance(400) { 1 + r.skewed(30) } else { 0 };
			p.op("one", &[kind, own, r.below(n_in), at]);
			continue;
		}
		p.op("open", &[kind, own]);
		let mut n_vals = if r.chance(500) { n_in } else { r.range(1, n_in + 2) };
		if long_session && s == 0 {
			n_vals = r.range(70, 1200);
		}
		let far_at = if far && r.chance(700) { r.below(n_vals + 1) } else { u64::MAX };
		for v in 0..n_vals {
			if v == far_at {
				p.op("sgap", &[far_size(r.below(6) as u16) as u64 / 2 + r.below(3)]);
			}
			if r.chance(match prop {
				"C12" | "C15" => 350,
				_ => 180,
			}) {
				match r.below(6) {
					0 | 1 => p.op("sraw", &[r.skewed(if large { 20_000 } else { 120 }), r.below(4)]),
					2 => p.op("sgap", &[1 + r.skewed(if large { 20_000 } else { 40 })]),
					3 => p.op("sreserve", &[r.skewed(if large { 1 << 20 } else { 4000 })]),
					_ => p.op("sshrink", &[]),
				}
			}
			if r.chance(pace) {
				p.op("sshrink", &[]);
			}
			let at = if user_panics && r.chance(350) { 1 + r.skewed(60) } else { 0 };
			let k = if v < n_in { v } else { r.below(n_in) };
			p.op("val", &[k, at]);
			if faulty && !calm && r.chance(120) {
				calm = true;
				p.op("arm", &[0]);
			}
		}
		if r.chance(150) {
			p.op(if r.chance(500) { "sshrink" } else { "sreserve" }, &[r.skewed(2000)]);
		}
		p.op(if matches!(prop, "C10" | "C08" | "C12") && r.chance(120) { "abort" } else { "close" }, &[]);
	}
	p
}

/// `cold`: the run has a process of its own, what is done for the first time is
/// done in it.
fn threads_plan(prop: &str, seed: u64, r: &mut Rng, cold: bool) -> Plan {
	let mut p = Plan::new(prop, "session", seed);
	world(&mut p, r);
	let threads = r.range(2, 4);
	p.set("threads", threads);
	p.set("density", r.pick(&[10, 60, 200, 500, 900]));
	if r.chance(250) {
		// Few switches at chosen steps
		p.set("density", 0);
		for _ in 0..r.range(1, 6) {
			p.preempt.push((1 + r.skewed(600), r.below(threads)));
		}
	}
	if cold || r.chance(40) {
		// Switches next to instructions on static memory
		p.set("hot", r.pick(&[50, 300, 900]));
		p.set("budget", r.pick(&[1000, 3000, 8000]));
	} else if r.chance(500) {
		// Switches between any two instructions
		p.set("fine", r.pick(&[5, 20, 60]));
		p.set("reach", r.pick(&[100, 600, 3000, 10000]));
	}
	if r.chance(250) || prop == "C08" {
		let reach = r.pick(&[10, 60, 300]);
		heap_faults(&mut p, r, reach);
	}
	let cfgs = [0u64, 0, 2, 3, 7];
	let n_in = if cold { r.range(1, 2) } else { r.range(1, 4) };
	for _ in 0..n_in {
		let acts = r.chance(600);
		let mut i = input(r, Caps { align: 16, track: true }, &[0, 1, 20, 17, 21, 22, 33, 72], acts);
		i[2] = i[2].min(60);
		p.inputs.push(i);
	}
	for t in 0..threads {
		let cfg = r.pick(&cfgs);
		p.op_t(t, "new", &[cfg, start_cap(r, 3000)]);
		for _ in 0..r.range(1, 3) {
			let kinds = CFGS[cfg as usize].kinds;
			match r.below(10) {
				0 => p.op_t(t, "clear", &[]),
				1 => p.op_t(t, "shrink", &[]),
				_ => {}
			}
			p.op_t(t, "open", &[if r.chance(500) { 0 } else { r.below(kinds) }, r.below(3)]);
			for _ in 0..r.range(1, 3) {
				p.op_t(t, "val", &[r.below(n_in), if r.chance(60) { 1 + r.skewed(30) } else { 0 }]);
				if r.chance(100) {
					p.op_t(t, "sshrink", &[]);
				}
			}
			p.op_t(t, "close", &[]);
			match r.below(6) {
				0 | 1 => p.op_t(t, "give", &[r.below(3)]),
				2 | 3 => p.op_t(t, "take", &[r.below(3)]),
				_ => {}
			}
		}
		if r.chance(500) {
			p.op_t(t, "take", &[r.below(3)]);
		}
	}
	p
}

fn store_plan(prop: &str, seed: u64, r: &mut Rng) -> Plan {
	let mut p = Plan::new(prop, "store", seed);
	world(&mut p, r);
	let cfg = match prop {
		"C13" => r.pick(&S_SIM),
		"C06" => {
			if r.chance(850) {
				r.pick(&S_ALL)
			} else {
				r.pick(&S_SIM)
			}
		}
		"C07" => {
			if r.chance(600) {
				r.pick(&S_LIMITED)
			} else {
				r.pick(&S_ALL)
			}
		}
		_ => r.pick(&S_ALL),
	};
	p.set("cfg", cfg);
	let c = SCFGS[cfg as usize];
	if c.sim {
		storage_world(&mut p, r);
		if r.chance(400) {
			p.set("st_refuse", 1 + r.skewed(20));
		}
	}
	if matches!(prop, "C08" | "C09") || (prop == "C07" && r.chance(300)) {
		let reach = r.pick(&[3, 10, 40]);
		heap_faults(&mut p, r, reach);
		if r.chance(600) {
			p.set("retry", 1);
		}
	}
	let small = c.max < 1 << 20;
	let n = match r.below(4) {
		0 => r.range(2, 8),
		1 | 2 => r.range(8, 40),
		_ => r.range(30, 120),
	};
	// Long histories: many operations, or few again and again
	let long = r.below(300) == 0;
	let rounds = if long && r.chance(600) { r.range(130, 1100) } else { 1 };
	let n = if !long {
		n
	} else if rounds > 1 {
		r.range(1, 5)
	} else {
		r.range(300, 2500)
	};
	// Swarm: a subset of the operations per run.
	let mut w: Vec<(&str, u64)> = vec![
		("push", 12),
		("slice", 12),
		("unch", 3),
		("bytes", 6),
		("empty", 5),
		("emptys", 5),
		("reserve", 8),
		("shrink", 8),
		("clear", 3),
		("rewind", 3),
		("advance", 2),
		("align", 3),
		("alignfor", 2),
		("read", 8),
		("write", 5),
		("wslice", 4),
		("rmut", 3),
		("ptrs", 2),
		("cap", 2),
		("capu", 1),
		("new", 1),
	];
	for x in w.iter_mut() {
		match r.below(5) {
			0 => x.1 = 0,
			1 => x.1 *= 4,
			_ => {}
		}
	}
	if r.chance(700) {
		// Content matters more when it stays.
		for x in w.iter_mut() {
			if matches!(x.0, "clear" | "cap" | "capu" | "new") {
				x.1 = x.1.min(1);
			}
		}
	}
	let total: u64 = w.iter().map(|x| x.1).sum::<u64>().max(1);
	let big = !long && r.chance(60);
	let bulk = !small && !long && r.chance(if prop == "C09" { 60 } else { 25 });
	let huge = !small && !long && r.chance(match prop {
		"C07" => 250,
		"C09" | "C13" => 120,
		_ => 40,
	});
	if r.chance(500) {
		p.op(r.pick(&["cap", "cap", "capu"]), &[size(r, c.max, small, false)]);
	}
	let first = p.ops.len();
	for _ in 0..n {
		let mut x = r.below(total);
		let mut k = "push";
		for (name, wt) in &w {
			if x < *wt {
				k = name;
				break;
			}
			x -= wt;
		}
		let mut e = r.pick(c.elems);
		if ELEMS[e as usize].0 > 400 && (small || long || r.chance(600)) {
			e = r.pick(c.elems);
		}
		match k {
			"slice" | "unch" => {
				let m = if big && r.chance(300) { 200_000 } else if small { c.max as u64 / 2 } else { 300 };
				let m = if ELEMS[e as usize].0 > 400 || long { 12 } else { m };
				p.op(k, &[e, r.skewed(m)])
			}
			"bytes" => {
				let m = if big && r.chance(300) { 2_000_000 } else if small { c.max as u64 / 2 } else if long { 60 } else { 1000 };
				p.op(k, &[r.skewed(m)])
			}
			"emptys" => {
				let m = if small { c.max as u64 } else if long { 60 } else { 5000 };
				let n = if (huge || small) && r.chance(150) { huge_size(r, c.max) } else { r.skewed(m) };
				p.op(k, &[e, n])
			}
			"reserve" => {
				let n = if (huge || small) && r.chance(250) { huge_size(r, c.max) } else { size(r, c.max, small, true) };
				let n = if bulk && r.chance(300) { r.skewed(1 << 23) + r.below(2) * (1 << 20) } else { n };
				p.op(k, &[n])
			}
			"cap" | "capu" => {
				let n = if (huge || small) && r.chance(250) { huge_size(r, c.max) } else { size(r, c.max, small, true) };
				let n = if bulk && r.chance(300) { r.skewed(1 << 23) + r.below(2) * (1 << 20) } else { n };
				p.op(k, &[n])
			}
			"rewind" | "advance" => p.op(k, &[r.next() & 0xffff]),
			"align" => p.op(k, &[r.below(7)]),
			"read" | "write" | "wslice" | "rmut" | "ptrs" => {
				p.op(k, &[r.next() & 0xffff, r.below(18), r.next() & 0xffff, r.below(20)])
			}
			_ => p.op(k, &[e]),
		}
		if matches!(prop, "C08" | "C09") && r.chance(20) {
			p.op("arm", &[r.below(2)]);
		}
	}
	if rounds > 1 {
		if r.chance(500) {
			let c = r.pick(&["clear", "shrink"]);
			p.op(c, &[0]);
		}
		let round = p.ops[first..].to_vec();
		for _ in 1..rounds {
			p.ops.extend(round.iter().cloned());
		}
	}
	p
}

fn size(r: &mut Rng, max: usize, small: bool, near: bool) -> u64 {
	if small && near && r.chance(300) {
		let d = r.below(20);
		return if r.chance(500) { (max as u64).saturating_sub(d) } else { max as u64 + d };
	}
	r.skewed(if small { max as u64 } else { 5000 })
}

/// Around limits, up to the largest there is.
fn huge_size(r: &mut Rng, max: usize) -> u64 {
	match r.below(9) {
		0 => u64::MAX - r.below(40),
		1 => (1 << 63) - r.below(40),
		2 => (1 << 63) + r.below(40),
		3 => (1 << 62) + r.below(40) - 20,
		4 => max as u64 - r.below(40).min(max as u64),
		5 => max as u64 / 2 + r.below(5),
		6 => r.range(1, 6) << 30,
		7 => u64::MAX / r.range(2, 130) + 1 + r.below(3),
		_ => (max as u64).saturating_add(r.below(40)),
	}
}

#[allow(dead_code)]
pub fn kinds() -> usize {
	COMMON.len()
}
