//! Which of the problems seen in a run are violations of a property.

use crate::plan::{Op, Outcome, Plan, Viol};

/// A problem of a serialization started by user code has `nested-` in front.
fn base(class: &str) -> &str {
	class.strip_prefix("nested-").unwrap_or(class)
}

/// Is a problem of this class, seen in a run for this property, about it?
pub fn relevant(plan: &Plan, out: &Outcome, v: &Viol) -> bool {
	let c = v.class.as_str();
	let any = |l: &[&str]| l.contains(&c);
	let values = ["content", "range", "ptr-range", "ptr-align", "rawptr", "layout", "overlap", "cap", "dangling", "final-eq", "prior", "raw", "lookup", "corr", "manual", "records", "unexpected-panic"];
	match plan.prop.as_str() {
		"C01" => any(&["content", "range", "ptr-range", "ptr-align", "final-eq", "unexpected-panic"]),
		"C02" => any(&["ptr-range", "ptr-align", "range", "overlap", "cap", "dangling"]),
		"C03" => any(&["content", "range", "ptr-range", "rawptr", "unexpected-panic"]),
		"C04" => any(&["content", "range", "ptr-range", "rawptr", "layout", "unexpected-panic"]),
		"C05" => any(&["layout"]),
		"C06" => any(&["pos", "content", "unexpected-panic"]),
		"C07" => any(&["cap-rule", "limit", "unexpected-panic"]),
		"C08" => c.starts_with("heap-") || c == "input-modified",
		"C09" => !out.failed.is_empty() && (any(&["fail-state", "pos", "content", "cap-rule", "unexpected-panic"])),
		"C10" => {
			(!out.failed.is_empty() || out.get("sessions_dropped") > 0) && (values.contains(&c) || any(&["cap-rule", "limit"]))
		}
		"C11" => values.contains(&base(c)) || c == "input-modified",
		"C12" => values.contains(&c),
		"C13" => c == "contract" || values.contains(&c) || any(&["pos", "cap-rule", "fail-state"]),
		"C14" => any(&["lookup", "records", "unexpected-panic"]),
		"C15" => any(&["corr", "manual", "records", "unexpected-panic", "input-modified", "content", "cap", "dangling", "ptr-range", "recorded-ptr"]),
		_ => false,
	}
}

fn calm(p: &Plan) -> Plan {
	let mut p = p.clone();
	for k in ["oom_nth", "oom_from", "oom_len", "oom_prob", "oom_budget", "oom_min", "st_refuse", "retry"] {
		p.set(k, 0);
	}
	for o in &mut p.ops {
		match o.k.as_str() {
			"val" if o.a.len() > 1 => o.a[1] = 0,
			"one" if o.a.len() > 3 => o.a[3] = 0,
			_ => {}
		}
	}
	p
}

/// The session of thread `t` which operation `n` belongs to: indices of its
/// operations, and the last `new` before it.
fn session_of(p: &Plan, n: usize) -> Option<(Vec<usize>, Option<usize>)> {
	let t = p.ops.get(n)?.t;
	let mine: Vec<usize> = (0..p.ops.len()).filter(|i| p.ops[*i].t == t).collect();
	let at = mine.iter().position(|i| *i == n)?;
	let new = mine[..at].iter().rev().find(|i| p.ops[**i].k == "new").copied();
	if p.ops[n].k == "one" {
		return Some((vec![n], new));
	}
	let from = mine[..=at].iter().rposition(|i| p.ops[*i].k == "open")?;
	let mut ops = Vec::new();
	for (k, i) in mine[from..].iter().enumerate() {
		let o = &p.ops[*i];
		if k > 0 && matches!(o.k.as_str(), "new" | "open" | "one" | "give" | "take") {
			break;
		}
		ops.push(*i);
		if matches!(o.k.as_str(), "close" | "abort") {
			break;
		}
	}
	if ops.contains(&n) {
		Some((ops, new))
	} else {
		None
	}
}

/// Some properties speak about a difference ("as they would alone", "as over the
/// built-in storage"). For these, the run which has to be free of the problem.
pub fn control(p: &Plan, v: &Viol, failed: &[usize]) -> Option<Plan> {
	let c = v.class.as_str();
	match p.prop.as_str() {
		"C09" | "C10" => {
			if c == "fail-state" {
				return None;
			}
			let mut q = calm(p);
			let mut i = 0;
			q.ops.retain(|_| {
				i += 1;
				!failed.contains(&(i - 1))
			});
			for o in &mut q.ops {
				if o.k == "abort" {
					o.k = "close".into();
				}
			}
			Some(q)
		}
		"C11" => {
			if c == "input-modified" {
				return None;
			}
			let mut q = calm(p);
			q.set("threads", 0);
			q.set("density", 0);
			q.set("no_nested", 1);
			q.preempt.clear();
			q.fines.clear();
			if v.op < p.ops.len() {
				let (idx, new) = session_of(p, v.op)?;
				q.ops = idx.iter().map(|i| q.ops[*i].clone()).collect();
				let new = match new {
					Some(i) => p.ops[i].clone(),
					None => Op { t: 0, k: "new".into(), a: vec![p.get("cfg"), 0] },
				};
				q.ops.insert(0, new);
			}
			for o in &mut q.ops {
				o.t = 0;
			}
			Some(q)
		}
		"C12" => {
			if matches!(c, "prior" | "raw") || v.op >= p.ops.len() {
				return None;
			}
			let mut q = calm(p);
			let (idx, new) = session_of(p, v.op)?;
			let cfg = new.map_or(p.get("cfg"), |i| p.ops[i].arg(0));
			let keep: Vec<Op> = idx
				.iter()
				.filter(|i| **i == v.op || matches!(p.ops[**i].k.as_str(), "open" | "close"))
				.map(|i| q.ops[*i].clone())
				.collect();
			let max = crate::sers::CFGS[cfg as usize % crate::sers::CFGS.len()].max as u64;
			q.ops = vec![Op { t: 0, k: "new".into(), a: vec![cfg, 1 + max.min(1 << 18)] }];
			q.ops.extend(keep);
			Some(q)
		}
		"C13" => {
			if c == "contract" {
				return None;
			}
			let mut q = p.clone();
			q.set("st_refuse", 0);
			if p.kind == "store" {
				let m = |c: u64| match c {
					13 => 0,
					14 => 2,
					15 => 3,
					c => c,
				};
				q.set("cfg", m(p.get("cfg")));
			} else {
				let m = |c: u64| match c {
					8 | 10 => 0,
					9 => 3,
					c => c,
				};
				q.set("cfg", m(p.get("cfg")));
				for o in &mut q.ops {
					match o.k.as_str() {
						"new" if !o.a.is_empty() => o.a[0] = m(o.a[0]),
						"open" | "one" if !o.a.is_empty() => {
							o.a[0] = match o.a[0] {
								3 | 6 => 1,
								4 => 2,
								5 => 0,
								k => k,
							}
						}
						_ => {}
					}
				}
			}
			Some(q)
		}
		"C15" => {
			if !matches!(c, "content" | "cap" | "dangling" | "ptr-range" | "unexpected-panic") {
				return None;
			}
			let mut q = p.clone();
			q.set("no_corr", 1);
			Some(q)
		}
		_ => None,
	}
}

/// The problem goes away in the control run: it counts.
pub fn cleared(v: &Viol, control: &[String]) -> bool {
	!control.iter().any(|c| base(c) == base(&v.class))
}

pub const RULES: [(&str, &str); 15] = [
	("C01", "the buffer moved while a value holding pointers was being written by a complete serializer, and the output was read back as a value after the input was gone"),
	("C02", "the buffer moved while a value holding pointers was being written by a complete serializer"),
	("C03", "the buffer moved while a value holding pointers was being written by a pointer-offset serializer"),
	("C04", "the buffer moved while a value holding pointers was being written by a pure-copy serializer, and a copy of the output was traversed after the input was gone"),
	("C05", "a value holding pointers was written, and the buffer moved meanwhile or user code or the session interfered with the storage (reserve, shrink, gaps, raw pushes)"),
	("C06", "the buffer was moved by a push and what had been stored before was compared afterwards"),
	("C07", "at least one request was beyond the maximum capacity or was refused"),
	("C08", "an allocation was refused, a capacity limit was hit or user code panicked"),
	("C09", "at least one operation was refused, and further operations followed"),
	("C10", "a value was cut short after others had been completed, or the session was continued or its buffer used again afterwards"),
	("C11", "threads were switched while several serializations were in progress, or a serialization was started within another one"),
	("C12", "at least two values went to the same buffer"),
	("C13", "the simulated storage relocated, skipped ahead or refused at least once"),
	("C14", "at least one lookup was made for a value during which the buffer moved"),
	("C15", "at least one correction or push was issued by user code"),
];

/// See `RULES`.
pub fn nontrivial(p: &Plan, o: &Outcome) -> bool {
	let n = |k: &str| o.get(k);
	let faults = n("fault_oom_nth") + n("fault_oom_window") + n("fault_oom_random") + n("fault_oom_budget") + n("fault_oom_size_limit");
	let moved = n("pointers") > 0 && n("buffer_moved_in_value") > 0;
	match p.prop.as_str() {
		"C01" => moved && n("read_as_values") > 0,
		"C02" | "C03" => moved,
		"C04" => moved && n("read_from_copy") > 0,
		"C05" => n("pointers") > 0 && (n("buffer_moved_in_value") + n("act_reserve") + n("act_shrink") + n("act_gap") + n("act_bytes") > 0 || p.ops.len() > 4),
		"C06" => n("moved_by_push") > 0 && n("content_checks") > 0,
		"C07" => n("limit_ops") + n("refused_ops") > 0,
		"C08" => faults + n("fault_storage_refused") + n("aborted_by_user_code") + n("aborted_by_limit") + n("refused_ops") > 0,
		"C09" => n("refused_ops") > 0 && n("pushes") > 0,
		"C10" => n("aborted_after_completed") > 0 || ((n("aborted_values") + n("sessions_dropped") > 0) && n("values") > 0),
		"C11" => (n("switches") > 0 && n("values") > 1) || n("nested_sessions") > 0,
		"C12" => n("values") > 1,
		"C13" => n("fault_storage_relocated") + n("fault_storage_skipped") + n("fault_storage_refused") > 0,
		"C14" => n("lookups") > 0 && n("buffer_moved_in_value") > 0,
		"C15" => n("corrections") + n("user_pushes") > 0,
		_ => false,
	}
}

/// Findings listed in the file of known ones: property, class, description.
pub fn known() -> &'static Vec<(String, String, String)> {
	static ONCE: std::sync::Once = std::sync::Once::new();
	static mut K: Vec<(String, String, String)> = Vec::new();
	ONCE.call_once(|| {
		let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
		let t = std::fs::read_to_string(std::path::Path::new(&root).join("known-findings.txt")).unwrap_or_default();
		let mut v = Vec::new();
		for l in t.lines() {
			if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
				let f: Vec<&str> = r.splitn(3, ' ').collect();
				if let (3, Some(c)) = (f.len(), f.get(1).and_then(|x| x.strip_prefix("class="))) {
					v.push((f[0].into(), c.into(), f[2].into()));
				}
			}
		}
		unsafe { K = v };
	});
	unsafe { &*std::ptr::addr_of!(K) }
}
