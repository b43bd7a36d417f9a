//! A plan is everything that decides a run: parameters of the simulated world,
//! inputs and operations. It can be written to a file and read back.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
	/// simulated thread
	pub t: u64,
	pub k: String,
	pub a: Vec<u64>,
}

impl Op {
	pub fn arg(&self, i: usize) -> u64 {
		self.a.get(i).copied().unwrap_or(0)
	}
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
	pub prop: String,
	/// `session` or `store`
	pub kind: String,
	pub seed: u64,
	pub p: BTreeMap<String, u64>,
	/// type, seed, size, may contain actions
	pub inputs: Vec<[u64; 4]>,
	/// forced thread switches: (step, thread to run next)
	pub preempt: Vec<(u64, u64)>,
	/// the same: (step, machine instructions after it, thread to run next)
	pub fines: Vec<(u64, u64, u64)>,
	pub ops: Vec<Op>,
}

/// Something went wrong.
#[derive(Clone, Debug)]
pub struct Viol {
	pub class: String,
	pub msg: String,
	/// index of the operation
	pub op: usize,
	/// index of the input
	pub input: Option<usize>,
}

#[derive(Clone, Default, Debug)]
pub struct Outcome {
	pub viols: Vec<Viol>,
	pub counts: BTreeMap<&'static str, u64>,
	pub hash: u64,
	/// operations which did not succeed
	pub failed: Vec<usize>,
	pub log: Vec<String>,
	/// thread switches: (step, thread)
	pub trace: Vec<(u64, u64)>,
	/// the same within code: (step, instructions after it, thread)
	pub fine_trace: Vec<(u64, u64, u64)>,
}

impl Outcome {
	pub fn count(&mut self, k: &'static str, n: u64) {
		if n > 0 {
			*self.counts.entry(k).or_insert(0) += n;
		}
	}
	pub fn get(&self, k: &str) -> u64 {
		self.counts.get(k).copied().unwrap_or(0)
	}
}

impl Plan {
	pub fn new(prop: &str, kind: &str, seed: u64) -> Plan {
		Plan {
			prop: prop.into(),
			kind: kind.into(),
			seed,
			p: BTreeMap::new(),
			inputs: Vec::new(),
			preempt: Vec::new(),
			fines: Vec::new(),
			ops: Vec::new(),
		}
	}
	pub fn get(&self, k: &str) -> u64 {
		self.p.get(k).copied().unwrap_or(0)
	}
	pub fn set(&mut self, k: &str, v: u64) {
		if v == 0 {
			self.p.remove(k);
		} else {
			self.p.insert(k.into(), v);
		}
	}
	pub fn op(&mut self, k: &str, a: &[u64]) {
		self.op_t(0, k, a)
	}
	pub fn op_t(&mut self, t: u64, k: &str, a: &[u64]) {
		self.ops.push(Op { t, k: k.into(), a: a.to_vec() });
	}
	pub fn threads(&self) -> u64 {
		self.get("threads").max(1)
	}

	pub fn to_text(&self) -> String {
		let mut s = String::new();
		s += &format!("property {}\nkind {}\nseed {}\n", self.prop, self.kind, self.seed);
		for (k, v) in &self.p {
			s += &format!("param {} {}\n", k, v);
		}
		for i in &self.inputs {
			s += &format!("input {} {} {} {}\n", i[0], i[1], i[2], i[3]);
		}
		for (a, b) in &self.preempt {
			s += &format!("preempt {} {}\n", a, b);
		}
		for (a, b, c) in &self.fines {
			s += &format!("fine {} {} {}\n", a, b, c);
		}
		for o in &self.ops {
			s += &format!("op {} {}", o.t, o.k);
			for a in &o.a {
				s += &format!(" {}", a);
			}
			s += "\n";
		}
		s
	}

	/// Returns the plan and other lines.
	pub fn from_text(t: &str) -> Option<(Plan, BTreeMap<String, String>)> {
		let mut p = Plan::new("", "", 0);
		let mut rest = BTreeMap::new();
		for l in t.lines() {
			let l = l.trim();
			if l.is_empty() || l.starts_with('#') {
				continue;
			}
			let w: Vec<&str> = l.split_whitespace().collect();
			let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
			match w[0] {
				"property" => p.prop = w.get(1)?.to_string(),
				"kind" => p.kind = w.get(1)?.to_string(),
				"seed" => p.seed = n(1),
				"param" => {
					p.p.insert(w.get(1)?.to_string(), n(2));
				}
				"input" => p.inputs.push([n(1), n(2), n(3), n(4)]),
				"preempt" => p.preempt.push((n(1), n(2))),
				"fine" => p.fines.push((n(1), n(2), n(3))),
				"op" => p.ops.push(Op {
					t: n(1),
					k: w.get(2)?.to_string(),
					a: w[3..].iter().filter_map(|x| x.parse().ok()).collect(),
				}),
				k => {
					rest.insert(k.to_string(), l[k.len()..].trim().to_string());
				}
			}
		}
		Some((p, rest))
	}
}
