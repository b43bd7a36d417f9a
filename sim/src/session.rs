//! Runs of serialization sessions, on one or several simulated threads.

use std::{
	panic::{catch_unwind, AssertUnwindSafe},
	sync::Mutex,
};

use crate::{
	heap::{self, heap, Faults, Policy},
	hooks::{self, Hooks, Rec, SimUser},
	plan::{Op, Outcome, Plan, Viol},
	prng::mix,
	sched,
	sers::{mode_of, Cfg, DynSer, DynStore, CFGS, HAND_OFFSET},
	simstore::{self, SimCfg},
	types::{make, Any, OVER16, OVER64, TRACK},
	walk::{align_up, Mode, Walk},
};

pub fn policy(p: &Plan) -> (Policy, Faults) {
	(
		Policy {
			seed: p.seed,
			zone: p.get("zone"),
			reuse: p.get("reuse"),
			inplace: p.get("inplace"),
			slide: p.get("slide"),
			slack: p.get("slack"),
			fill: p.get("fill"),
			misalign: p.get("misalign"),
			shrink_move: p.get("shrink_move"),
		},
		Faults {
			nth: p.get("oom_nth"),
			from: p.get("oom_from"),
			len: p.get("oom_len"),
			prob: p.get("oom_prob"),
			budget: p.get("oom_budget"),
			min_size: p.get("oom_min"),
		},
	)
}

pub fn sim_cfg(p: &Plan) -> SimCfg {
	SimCfg {
		seed: p.seed ^ 0x7374_6f72,
		relocate: p.get("st_relocate"),
		skip: p.get("st_skip"),
		growth: p.get("st_growth"),
		refuse_at: p.get("st_refuse"),
	}
}

pub fn refusals() -> u64 {
	let s = &heap().stats;
	s.refused_nth + s.refused_window + s.refused_prob + s.refused_budget + s.refused_limit + simstore::stats().refusals
}

/// Why a call ended in a panic.
pub enum Fail {
	User,
	Refused,
	Other(String),
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
	if let Some(s) = p.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else if p.is::<heap::SimOomTag>() {
		"allocation refused".into()
	} else {
		"unknown payload".into()
	}
}

/// Run code under test.
pub fn call<R>(armed: bool, f: impl FnOnce() -> R) -> Result<R, Fail> {
	let before = refusals();
	let go = || catch_unwind(AssertUnwindSafe(f));
	let r = if armed { heap::armed(go) } else { heap::sim(go) };
	r.map_err(|p| {
		if p.is::<SimUser>() {
			Fail::User
		} else if refusals() != before {
			Fail::Refused
		} else {
			Fail::Other(panic_text(&*p))
		}
	})
}

pub fn pattern(seed: u64, n: usize) -> Vec<u8> {
	let mut v = Vec::with_capacity(n + 8);
	let mut i = 0u64;
	while v.len() < n {
		v.extend_from_slice(&mix(seed.wrapping_add(i)).to_ne_bytes());
		i += 1;
	}
	v.truncate(n);
	v
}

struct Input {
	spec: [u64; 4],
	any: *mut Any,
	blocks: Vec<(usize, usize)>,
	sum: u64,
}
unsafe impl Send for Input {}
unsafe impl Sync for Input {}

fn sum_blocks(blocks: &[(usize, usize)]) -> u64 {
	let mut h = 0u64;
	for (a, n) in blocks {
		let b = unsafe { std::slice::from_raw_parts(*a as *const u8, *n) };
		for c in b.chunks(8) {
			let mut w = [0u8; 8];
			w[..c.len()].copy_from_slice(c);
			h = mix(h ^ u64::from_ne_bytes(w)).wrapping_add(0x9e37);
		}
	}
	h
}

impl Input {
	fn build(spec: [u64; 4]) -> Input {
		heap().record.clear();
		heap().recording = true;
		let any = heap::sim(|| Box::into_raw(Box::new(make(spec[0], spec[1], spec[2], spec[3]))));
		heap().recording = false;
		let mut blocks: Vec<(usize, usize)> = Vec::new();
		let rec = std::mem::take(&mut heap().record);
		for r in &rec {
			if r.new != 0 {
				if let Some(b) = heap().block(r.new) {
					blocks.push((r.new, b.size));
				}
			}
		}
		blocks.sort();
		blocks.dedup();
		let sum = sum_blocks(&blocks);
		Input { spec, any, blocks, sum }
	}
	fn any(&self) -> &Any {
		unsafe { &*self.any }
	}
}

/// A value which was serialized successfully.
#[derive(Clone)]
struct ValRec {
	op: usize,
	input: usize,
	pos: usize,
	/// where the item before it ended
	start: usize,
	recs: Vec<Rec>,
	pushes: Option<Vec<(usize, usize)>>,
}

/// What one session wrote.
struct Closed {
	kind: u64,
	vals: Vec<ValRec>,
	raws: Vec<(usize, usize, Vec<u8>)>,
	gaps: Vec<(usize, usize)>,
	prior: usize,
	base: usize,
	len: usize,
}

/// Gaps of this size are not looked at.
const FAR: usize = 64 << 20;

/// Content of a buffer, without huge gaps.
#[derive(Default)]
struct Snap {
	len: usize,
	segs: Vec<(usize, Vec<u8>)>,
	/// the huge gaps
	far: Vec<(usize, usize)>,
}

impl Snap {
	fn clear(&mut self) {
		self.len = 0;
		self.segs.clear();
		self.far.clear();
	}
	fn add_far(&mut self, g: (usize, usize)) {
		if g.1.saturating_sub(g.0) >= FAR && self.far.last().map_or(true, |f| f.1 <= g.0) {
			self.far.push(g);
		}
	}
	fn take(&mut self, buf: &[u8]) {
		self.segs.clear();
		self.len = buf.len();
		self.far.retain(|f| f.0 < buf.len());
		let mut at = 0;
		for f in self.far.iter().copied().chain([(buf.len(), buf.len())]) {
			if f.0 > at {
				// Anything larger should not be there; it is seen elsewhere.
				let end = f.0.min(at + 2 * FAR);
				self.segs.push((at, buf[at..end].to_vec()));
			}
			at = f.1.min(buf.len());
		}
	}
	/// Where `buf` differs before `upto`.
	fn diff(&self, buf: &[u8], upto: usize) -> Option<(usize, u8, u8)> {
		for (at, b) in &self.segs {
			let n = b.len().min(upto.saturating_sub(*at));
			if n == 0 {
				continue;
			}
			let now = &buf[*at..*at + n];
			if now != &b[..n] {
				let i = (0..n).find(|i| now[*i] != b[*i]).unwrap();
				return Some((at + i, b[i], now[i]));
			}
		}
		None
	}
}

struct Handed {
	store: Box<dyn DynStore>,
	content: Snap,
	last: Option<Closed>,
}

struct Shared<'a> {
	plan: &'a Plan,
	inputs: Vec<Input>,
	slots: Mutex<Vec<Option<Handed>>>,
	out: Mutex<Outcome>,
}

struct Body<'a> {
	sh: &'a Shared<'a>,
	cfg: &'static Cfg,
	store: Option<Box<dyn DynStore>>,
	/// expected content of the storage (outside of sessions)
	content: Snap,
	last: Option<Closed>,
	armed: bool,
	out: Outcome,
}

fn compatible(cfg: &Cfg, kind: u64, ty: u64) -> bool {
	cfg.has(kind)
		&& (!TRACK.contains(&ty) || matches!(kind, 0 | 1 | 3 | 5 | 6))
		&& (!OVER16.contains(&ty) || cfg.over >= 16)
		&& (!OVER64.contains(&ty) || cfg.over >= 64)
}

impl<'a> Body<'a> {
	fn viol(&mut self, op: usize, input: Option<usize>, class: &str, msg: String) {
		if self.out.viols.len() < 24 {
			self.out.viols.push(Viol { class: class.into(), msg, op, input });
		}
	}

	fn drain(&mut self, op: usize) {
		for m in simstore::broken() {
			self.viol(op, None, "contract", m);
		}
	}

	/// Is what the storage says about itself within its rules?
	fn check_state(&mut self, op: usize, st: (usize, usize, usize)) -> bool {
		let (pos, cap, base) = st;
		let c = self.cfg;
		let mut bad = Vec::new();
		if cap % c.mva != 0 || cap > c.max {
			bad.push(format!("capacity {:#x} is not a multiple of {} up to {:#x}", cap, c.mva, c.max));
		}
		if pos > cap {
			bad.push(format!("position {:#x} is beyond the capacity {:#x}", pos, cap));
		}
		if pos % c.va != 0 {
			bad.push(format!("position {:#x} is not a multiple of {}", pos, c.va));
		}
		let mut usable = true;
		if cap > 0 {
			if base % c.sa != 0 {
				bad.push(format!("buffer at {:#x} is not aligned to {}", base, c.sa));
			}
			match heap().block(base) {
				_ if c.seg => {}
				Some(b) if b.size == cap => {}
				Some(b) => {
					bad.push(format!("capacity is {:#x}, the buffer has {:#x} bytes", cap, b.size));
					usable = pos <= b.size;
				}
				None => {
					bad.push(format!("buffer at {:#x} is not a live block", base));
					usable = false;
				}
			}
		} else if pos > 0 {
			usable = false;
		}
		for m in bad {
			self.viol(op, None, "cap-rule", m);
		}
		usable
	}

	fn bytes(st: (usize, usize, usize)) -> &'static [u8] {
		if st.0 == 0 {
			return &[];
		}
		unsafe { std::slice::from_raw_parts(st.2 as *const u8, st.0) }
	}

	fn check_prior(&mut self, op: usize, st: (usize, usize, usize), prior: usize) {
		let buf = Self::bytes(st);
		if buf.len() < prior {
			self.viol(op, None, "prior", format!("position {:#x} is before the end of earlier content {:#x}", st.0, prior));
			return;
		}
		if let Some((i, was, now)) = self.content.diff(buf, prior) {
			self.viol(op, None, "prior", format!("byte {:#x} of earlier content changed from {:#04x} to {:#04x}", i, was, now));
		}
	}

	/// Judge the failure of a call. `must_fail`: a limit is in the way.
	fn judge_fail(&mut self, op: usize, input: Option<usize>, f: Fail, must_fail: bool, predicted: bool, what: &str) {
		self.out.failed.push(op);
		match f {
			Fail::User => self.out.count("aborted_by_user_code", 1),
			Fail::Refused => self.out.count("aborted_by_refusal", 1),
			Fail::Other(_) if must_fail || !predicted => self.out.count("aborted_by_limit", 1),
			Fail::Other(m) => self.viol(op, input, "unexpected-panic", format!("{} panicked: {}", what, m)),
		}
	}

	/// What the model says about a value: (end position, highest capacity needed).
	fn dry(&self, any: &Any, start: usize) -> (usize, usize) {
		let mut w = Walk::dry(self.cfg.va, self.cfg.mva, start);
		let (s, a) = any.size_align();
		let pos = if s > 0 { w.place(s, a) } else { 0 };
		any.walk(&mut w, pos);
		(w.cursor, w.peak)
	}

	#[allow(clippy::too_many_arguments)]
	fn judge_val(
		&mut self,
		op: usize,
		i: usize,
		kind: u64,
		start: usize,
		r: Result<usize, Fail>,
		h: Hooks,
		st: (usize, usize, usize),
		pushes: Option<Vec<(usize, usize)>>,
	) -> Option<ValRec> {
		let sh = self.sh;
		let any = sh.inputs[i].any();
		self.out.count("callbacks", h.visits);
		self.out.count("nested_sessions", h.nested);
		for (k, n) in ["", "act_reserve", "act_shrink", "act_bytes", "act_value", "act_gap", "act_nested", "act_reserve_shrink"]
			.iter()
			.zip(h.acts)
			.skip(1)
		{
			self.out.count(k, n);
		}
		for (c, m) in &h.errs {
			self.viol(op, Some(i), c, m.clone());
		}
		for g in &h.far {
			self.content.add_far(*g);
			self.out.count("far_gaps", 1);
		}
		let what = format!("serializing input {} ({})", i, any.name());
		let (end, peak) = self.dry(any, start);
		let predicted = !self.cfg.sim;
		let must_fail = predicted && peak > self.cfg.max;
		match r {
			Ok(pos) => {
				self.out.count("values", 1);
				if must_fail {
					self.viol(op, Some(i), "limit", format!("{} succeeded, although it needs {:#x} bytes", what, peak));
				}
				if predicted && st.0 != end {
					self.viol(op, Some(i), "layout", format!("{} ended at {:#x}, expected {:#x}", what, st.0, end));
				}
				let _ = kind;
				Some(ValRec { op, input: i, pos, start, recs: h.recs, pushes })
			}
			Err(f) => {
				self.judge_fail(op, Some(i), f, must_fail, predicted, &what);
				None
			}
		}
	}

	/// Check everything a session wrote. `live`: the inputs still exist.
	fn verify(&mut self, c: &Closed, st: (usize, usize, usize), buf: &[u8], live: bool, expected: Option<&[Any]>) {
		let mode = mode_of(c.kind);
		let mut regions: Vec<(usize, usize)> = Vec::new();
		if c.prior > 0 {
			regions.push((0, c.prior));
		}
		let sh = self.sh;
		for v in &c.vals {
			let any = match expected {
				Some(e) => &e[v.input],
				None => sh.inputs[v.input].any(),
			};
			let mut w = Walk::new(mode, buf, st.2, self.cfg.va, self.cfg.mva, v.start);
			w.fixes |= c.kind == HAND_OFFSET;
			w.live = live;
			w.no_corr = sh.plan.get("no_corr") != 0;
			w.recs = &v.recs;
			w.pushes = v.pushes.as_deref();
			let (s, a) = any.size_align();
			let mut ok = true;
			if s > 0 {
				let want = w.place(s, a);
				if v.pos != want {
					if w.pushes.is_some() {
						w.err("content", format!("the value is at {:#x}, the position returned is {:#x}", want, v.pos));
					} else {
						w.err("layout", format!("the value is at {:#x}, expected at {:#x}", v.pos, want));
					}
				}
				if v.pos % a != 0 {
					w.err("ptr-align", format!("the value is at {:#x}, not aligned to {}", v.pos, a));
				}
				if v.pos > buf.len() || s > buf.len() - v.pos {
					w.err("range", format!("the value at {:#x} is not inside the output ({:#x} bytes)", v.pos, buf.len()));
					ok = false;
				} else {
					w.regions.push((v.pos, v.pos + s));
				}
			}
			if ok {
				any.walk(&mut w, v.pos);
				if w.rec_i < w.recs.len() && w.errs.is_empty() {
					let left = w.recs.len() - w.rec_i;
					let class = if matches!(w.recs[w.rec_i], Rec::Corr) { "corr" } else { "records" };
					w.err(class, format!("user code was called more often than it should have been ({} more)", left));
				}
				if w.pushes.map_or(false, |p| w.push_i < p.len()) && w.errs.is_empty() {
					w.err("content", "there are items in the output which belong to nothing".into());
				}
			}
			regions.append(&mut w.regions);
			let errs = std::mem::take(&mut w.errs);
			if live {
				self.out.count("pointers", w.ptrs);
				self.out.count("items", w.items);
				for r in &v.recs {
					self.out.count(
						match r {
							Rec::Push(_) => "user_pushes",
							Rec::Look(_) => "lookups",
							Rec::Corr => "corrections",
						},
						1,
					);
				}
			}
			let name = any.name();
			for (class, m) in errs {
				self.viol(v.op, Some(v.input), class, format!("input {} ({}, {:?}): {}", v.input, name, mode, m));
			}
		}
		for (op, pos, bytes) in &c.raws {
			regions.push((*pos, *pos + bytes.len()));
			if buf.get(*pos..*pos + bytes.len()) != Some(&bytes[..]) {
				self.viol(*op, None, "raw", format!("{} bytes pushed at {:#x} are not there any more", bytes.len(), pos));
			}
		}
		for g in &c.gaps {
			regions.push((g.0, g.0 + g.1));
		}
		regions.retain(|r| r.0 < r.1);
		if let Some(m) = Walk::overlaps(&mut regions) {
			let op = c.vals.first().map_or(0, |v| v.op);
			self.viol(op, c.vals.first().map(|v| v.input), "overlap", m);
		}
	}

	/// Another look at the last session, possibly on another thread.
	fn recheck(&mut self, op: usize) {
		let st = match &self.store {
			Some(s) => s.state(),
			None => return,
		};
		if !self.check_state(op, st) {
			return;
		}
		self.check_prior(op, st, self.content.len.min(st.0));
		if let Some(c) = self.last.take() {
			if st.2 == c.base && st.0 >= c.len {
				let buf = &Self::bytes(st)[..c.len];
				self.verify(&c, st, buf, true, None);
				self.last = Some(c);
			}
		}
	}

	fn snapshot(&mut self) {
		let st = self.store.as_ref().unwrap().state();
		if self.check_state(0, st) {
			self.content.take(Self::bytes(st));
		} else {
			self.content.clear();
		}
	}

	fn hooks(&self, panic_at: u64) -> Hooks {
		Hooks { panic_at, no_nested: self.sh.plan.get("no_nested") != 0, no_corr: self.sh.plan.get("no_corr") != 0, ..Hooks::default() }
	}

	fn ensure(&mut self) {
		let ok = self.store.as_ref().map_or(false, |s| s.present());
		if !ok {
			if self.store.is_none() {
				self.make_store(self.sh.plan.get("cfg"));
			}
			let s = self.store.as_mut().unwrap();
			if !s.present() {
				heap::sim(|| s.replace(None));
			}
			self.content.clear();
			self.last = None;
		}
	}

	fn make_store(&mut self, cfg: u64) {
		self.drop_store();
		self.cfg = CFGS[cfg as usize % CFGS.len()];
		simstore::set_cfg(sim_cfg(self.sh.plan));
		self.store = Some((self.cfg.make)());
		self.content.clear();
		self.last = None;
	}

	fn drop_store(&mut self) {
		if let Some(s) = self.store.take() {
			heap::sim(move || drop(s));
		}
	}

	fn log(&self, op: usize, o: &Op) {
		let h = heap();
		if let Some(l) = &mut h.log {
			let a: Vec<String> = o.a.iter().map(|x| x.to_string()).collect();
			l.push(format!("t{} op {} {} {}", o.t, op, o.k, a.join(" ")));
		}
	}

	fn run(&mut self, ops: &[(usize, Op)]) {
		let mut i = 0;
		while i < ops.len() {
			let (n, o) = (ops[i].0, &ops[i].1);
			i += 1;
			self.log(n, o);
			match o.k.as_str() {
				"arm" => self.armed = o.arg(0) != 0,
				"new" => {
					self.make_store(o.arg(0));
					if o.arg(1) > 0 {
						let cap = (o.arg(1) - 1) as usize;
						let s = self.store.as_mut().unwrap();
						let r = call(false, || s.replace(Some(cap)));
						let (max, sim) = (self.cfg.max, self.cfg.sim);
						match r {
							Ok(()) => {
								let st = self.store.as_ref().unwrap().state();
								self.check_state(n, st);
								if cap > max {
									self.viol(n, None, "limit", format!("with_capacity({}) succeeded", cap));
								} else if st.1 < cap || (!sim && st.1 != align_up(cap, self.cfg.mva)) || st.0 != 0 {
									self.viol(n, None, "cap-rule", format!("with_capacity({:#x}) has capacity {:#x}, position {:#x}", cap, st.1, st.0));
								}
							}
							Err(f) => self.judge_fail(n, None, f, cap > max, !sim, "with_capacity"),
						}
					}
					self.ensure();
				}
				"open" => {
					self.ensure();
					if !self.cfg.has(o.arg(0)) {
						continue;
					}
					i = self.session(ops, i, n, o.arg(0), o.arg(1));
				}
				"one" => {
					self.ensure();
					self.one(n, o);
				}
				"clear" | "shrink" | "reserve" | "raw" => {
					self.ensure();
					self.outside(n, o);
				}
				"give" => {
					self.ensure();
					self.recheck(n);
					let store = self.store.take().unwrap();
					let h = Handed { store, content: std::mem::take(&mut self.content), last: self.last.take() };
					let old = {
						let mut s = self.sh.slots.lock().unwrap();
						let k = o.arg(0) as usize % s.len();
						s[k].replace(h)
					};
					self.out.count("handed_over", 1);
					if let Some(h) = old {
						heap::sim(move || drop(h.store));
					}
				}
				"take" => {
					let h = {
						let mut s = self.sh.slots.lock().unwrap();
						let k = o.arg(0) as usize % s.len();
						s[k].take()
					};
					if let Some(h) = h {
						self.drop_store();
						self.cfg = h.store.cfg();
						self.store = Some(h.store);
						self.content = h.content;
						self.last = h.last;
						self.out.count("taken_over", 1);
						self.recheck(n);
					}
				}
				_ => {}
			}
			self.drain(n);
			sched::yield_point();
		}
	}

	fn outside(&mut self, n: usize, o: &Op) {
		let armed = self.armed;
		let c = self.cfg;
		let before = self.store.as_ref().unwrap().state();
		let keep = self.content.len;
		self.last = None;
		let s = self.store.as_mut().unwrap();
		match o.k.as_str() {
			"clear" => {
				if let Err(f) = call(armed, || s.clear()) {
					self.judge_fail(n, None, f, false, true, "clear");
				}
				let st = self.store.as_ref().unwrap().state();
				if st.0 != 0 || st.1 != before.1 {
					self.viol(n, None, "cap-rule", format!("after clear: position {:#x}, capacity {:#x} (was {:#x})", st.0, st.1, before.1));
				}
				self.content.clear();
			}
			"shrink" => {
				let r = call(armed, || s.shrink());
				let st = self.store.as_ref().unwrap().state();
				match r {
					Ok(()) => {
						if !c.sim && st.1 != align_up(st.0, c.mva) {
							self.viol(n, None, "cap-rule", format!("after shrink: position {:#x}, capacity {:#x}", st.0, st.1));
						}
					}
					Err(f) => self.judge_fail(n, None, f, false, true, "shrink_to_fit"),
				}
			}
			"reserve" => {
				let want = o.arg(0) as usize;
				let r = call(armed, || s.reserve(want));
				let st = self.store.as_ref().unwrap().state();
				let must = before.0.checked_add(want).map_or(true, |x| x > c.max);
				match r {
					Ok(()) => {
						if must {
							self.viol(n, None, "limit", format!("reserve({:#x}) at {:#x} succeeded", want, before.0));
						} else if st.1.wrapping_sub(st.0) < want {
							self.viol(n, None, "cap-rule", format!("after reserve({:#x}): position {:#x}, capacity {:#x}", want, st.0, st.1));
						}
					}
					Err(f) => self.judge_fail(n, None, f, must, !c.sim, "reserve"),
				}
			}
			_ => {
				let (len, align) = raw_args(o);
				let bytes = pattern(n as u64 ^ self.sh.plan.seed, len);
				let r = call(armed, || s.raw(&bytes, align));
				let st = self.store.as_ref().unwrap().state();
				let want = align_up(before.0, align.max(c.va));
				let must = want + len > c.max;
				match r {
					Ok(pos) => {
						if must {
							self.viol(n, None, "limit", format!("pushing {} bytes at {:#x} succeeded", len, want));
						}
						if len > 0 {
							let off = st.0 != align_up(pos.wrapping_add(len), c.va) || pos < want || pos % align.max(c.va) != 0;
									if off || !c.sim && pos != want {
								self.viol(n, None, "layout", format!("{} bytes pushed at {:#x}, expected {:#x}; position is {:#x}", len, pos, want, st.0));
							}
							if self.check_state(n, st) && Self::bytes(st).get(pos..pos + len) != Some(&bytes[..]) {
								self.viol(n, None, "raw", format!("{} bytes pushed at {:#x} are not there", len, pos));
							}
						}
					}
					Err(f) => self.judge_fail(n, None, f, must, !c.sim, "push"),
				}
			}
		}
		let st = self.store.as_ref().unwrap().state();
		if self.check_state(n, st) {
			if o.k != "clear" {
				self.check_prior(n, st, keep);
			}
			self.content.take(Self::bytes(st));
		}
	}

	fn one(&mut self, n: usize, o: &Op) {
		let (kind, own, i) = (o.arg(0), o.arg(1), o.arg(2) as usize);
		if i >= self.sh.inputs.len() || !compatible(self.cfg, kind, self.sh.inputs[i].spec[0]) {
			return;
		}
		let sh = self.sh;
		let any = sh.inputs[i].any();
		let own = own.min(2);
		let armed = self.armed && own != 2;
		let mut h = self.hooks(o.arg(3));
		let s = self.store.as_mut().unwrap();
		let before = s.state();
		let np = s.pushes().map_or(0, |p| p.len());
		let r = hooks::with(&mut h, || call(armed, || s.one(kind, own, any)));
		let s = self.store.as_ref().unwrap();
		if !s.present() {
			// Lost together with its owner.
			if let Err(f) = r {
				let (_, peak) = self.dry(any, before.0);
				let must = peak > self.cfg.max;
				let pred = !self.cfg.sim;
				self.judge_fail(n, Some(i), f, must, pred, "serialize");
			}
			self.ensure();
			return;
		}
		let st = s.state();
		let pushes = s.pushes().map(|p| p[np..].to_vec());
		let ok = self.check_state(n, st);
		let v = self.judge_val(n, i, kind, before.0, r, h, st, pushes);
		if before.2 != st.2 {
			self.out.count("buffer_moved_in_value", 1);
		}
		if !ok {
			self.content.clear();
			return;
		}
		self.check_prior(n, st, self.content.len);
		if let Some(v) = v {
			let c = Closed {
				kind,
				vals: vec![v],
				raws: vec![],
				gaps: vec![],
				prior: before.0,
				base: st.2,
				len: st.0,
			};
			let buf = Self::bytes(st);
			self.verify(&c, st, buf, true, None);
			self.last = Some(c);
			self.out.count("sessions", 1);
		} else {
			self.last = None;
		}
		self.content.take(Self::bytes(st));
	}

	/// Runs until the session is closed. Returns the index of the next operation.
	fn session(&mut self, ops: &[(usize, Op)], mut i: usize, at: usize, kind: u64, own: u64) -> usize {
		self.last = None;
		let mut store = self.store.take().unwrap();
		let sh = self.sh;
		let c = self.cfg;
		let mut c_vals: Vec<ValRec> = Vec::new();
		let mut raws: Vec<(usize, usize, Vec<u8>)> = Vec::new();
		let mut gaps: Vec<(usize, usize)> = Vec::new();
		let mut prior = store.state().0;
		let mut lost = false;
		let max = c.max;
		let mut aborted = false;
		let mut last_op = at;
		{
			let mut ser: Option<Box<dyn DynSer + '_>> = None;
			if own >= 3 {
				// A fresh storage made by the constructors
				prior = 0;
				self.content.clear();
				let cap = if own == 3 { None } else { Some((own - 4) as usize) };
				let armed = self.armed;
				let r = call(armed, || unsafe { &mut *(&mut *store as *mut dyn DynStore) }.open_new(kind, cap));
				match r {
					Ok(s) => {
						let st = s.state();
						ser = Some(s);
						self.check_state(at, st);
						let cap = cap.unwrap_or(0);
						if cap > max {
							self.viol(at, None, "limit", format!("with_capacity({}) succeeded", cap));
						} else if st.1 < cap || (!c.sim && st.1 != align_up(cap, c.mva)) || st.0 != 0 {
							self.viol(at, None, "cap-rule", format!("serializer made with capacity {:#x} has capacity {:#x}, position {:#x}", cap, st.1, st.0));
						}
						if unsafe { &*store }.constructs() {
							self.out.count("made_by_constructor", 1);
						}
					}
					Err(f) => {
						self.judge_fail(at, None, f, cap.unwrap_or(0) > max, !c.sim, "with_capacity");
					}
				}
			}
			if ser.is_none() {
				if !store.present() {
					heap::sim(|| store.replace(None));
				}
				let armed = self.armed && own != 2;
				let r = call(armed, || unsafe { &mut *(&mut *store as *mut dyn DynStore) }.open(kind, own.min(2)));
				ser = Some(match r {
					Ok(s) => s,
					Err(f) => {
						// Making a serializer may need memory, and be refused it.
						self.judge_fail(at, None, f, false, true, "from_storage");
						if !store.present() {
							prior = 0;
							self.content.clear();
							heap::sim(|| store.replace(None));
						}
						heap::sim(|| store.open(kind, own.min(2)))
					}
				});
			}
			sched::yield_point();
			while i < ops.len() {
				let (n, o) = (ops[i].0, &ops[i].1);
				if o.k == "new" || o.k == "open" || o.k == "one" || o.k == "give" || o.k == "take" {
					break;
				}
				i += 1;
				last_op = n;
				self.log(n, o);
				let s = ser.as_mut().unwrap();
				let before = s.state();
				let armed = self.armed;
				match o.k.as_str() {
					"arm" => self.armed = o.arg(0) != 0,
					"close" => break,
					"abort" => {
						aborted = true;
						break;
					}
					"val" => {
						let k = o.arg(0) as usize;
						if k >= sh.inputs.len() || !compatible(c, kind, sh.inputs[k].spec[0]) {
							continue;
						}
						let any = sh.inputs[k].any();
						let mut h = self.hooks(o.arg(1));
						let np = s.pushes().map_or(0, |p| p.len());
						let r = hooks::with(&mut h, || call(armed, || s.val(any)));
						let st = s.state();
						let pushes = s.pushes().map(|p| p[np..].to_vec());
						self.check_state(n, st);
						if before.2 != st.2 {
							self.out.count("buffer_moved_in_value", 1);
						}
						if let Some(v) = self.judge_val(n, k, kind, before.0, r, h, st, pushes) {
							c_vals.push(v);
						} else {
							self.out.count("aborted_values", 1);
							if !c_vals.is_empty() {
								self.out.count("aborted_after_completed", 1);
							}
						}
					}
					"sraw" => {
						let (len, align) = raw_args(o);
						let bytes = pattern(n as u64 ^ sh.plan.seed, len);
						let r = call(armed, || s.raw(&bytes, align));
						let st = s.state();
						let want = align_up(before.0, align.max(c.va));
						let must = want + len > c.max;
						match r {
							Ok(pos) => {
								if must {
									self.viol(n, None, "limit", format!("pushing {} bytes at {:#x} succeeded", len, want));
								}
								if len > 0 {
									let off = st.0 != align_up(pos.wrapping_add(len), c.va) || pos < want || pos % align.max(c.va) != 0;
									if off || !c.sim && pos != want {
										self.viol(n, None, "layout", format!("{} bytes pushed at {:#x}, expected {:#x}; position is {:#x}", len, pos, want, st.0));
									}
									raws.push((n, pos, bytes));
								}
							}
							Err(f) => self.judge_fail(n, None, f, must, !c.sim, "push"),
						}
						self.check_state(n, st);
					}
					"sgap" => {
						let len = o.arg(0).max(1) as usize;
						let r = call(armed, || s.gap(len));
						let st = s.state();
						let want = align_up(before.0, 2.max(c.va));
						let must = want + 2 * len > c.max;
						match r {
							Ok(pos) => {
								if must {
									self.viol(n, None, "limit", format!("gap of {} bytes at {:#x} succeeded", 2 * len, want));
								}
								let off = st.0 != align_up(pos.wrapping_add(2 * len), c.va) || pos < want || pos % 2.max(c.va) != 0;
								if off || !c.sim && pos != want {
									self.viol(n, None, "layout", format!("gap of {} bytes at {:#x}, expected {:#x}; position is {:#x}", 2 * len, pos, want, st.0));
								}
								self.content.add_far((pos, pos + 2 * len));
								if 2 * len >= FAR {
									self.out.count("far_gaps", 1);
								}
								gaps.push((pos, 2 * len));
							}
							Err(f) => self.judge_fail(n, None, f, must, !c.sim, "push_empty_slice"),
						}
						self.check_state(n, st);
					}
					"sreserve" => {
						let want = o.arg(0) as usize;
						let r = call(armed, || s.reserve(want));
						let st = s.state();
						let must = before.0.checked_add(want).map_or(true, |x| x > c.max);
						match r {
							Ok(()) if must => self.viol(n, None, "limit", format!("reserve({:#x}) at {:#x} succeeded", want, before.0)),
							Ok(()) => {}
							Err(f) => self.judge_fail(n, None, f, must, !c.sim, "reserve"),
						}
						self.check_state(n, st);
					}
					"sshrink" => {
						let r = call(armed, || s.shrink());
						let st = s.state();
						if let Err(f) = r {
							self.judge_fail(n, None, f, false, true, "shrink_to_fit");
						}
						self.check_state(n, st);
					}
					_ => {}
				}
				self.drain(n);
				sched::yield_point();
			}
			let s = ser.take().unwrap();
			if aborted {
				heap::sim(move || drop(s));
				lost = own != 0;
				self.out.count("sessions_dropped", 1);
			} else {
				let armed = self.armed;
				if let Err(f) = call(armed, move || s.finish()) {
					self.judge_fail(last_op, None, f, false, true, "finalize");
					lost = own != 0;
					aborted = true;
				}
				self.out.count("sessions", 1);
			}
		}
		self.store = Some(store);
		self.drain(last_op);
		if lost || !self.store.as_ref().unwrap().present() {
			self.ensure();
			return i;
		}
		let st = self.store.as_ref().unwrap().state();
		if !self.check_state(last_op, st) {
			self.content.clear();
			return i;
		}
		self.check_prior(last_op, st, prior.min(self.content.len));
		if !aborted {
			let closed = Closed { kind, vals: c_vals, raws, gaps, prior, base: st.2, len: st.0 };
			let buf = Self::bytes(st);
			self.verify(&closed, st, buf, true, None);
			self.last = Some(closed);
		}
		self.content.take(Self::bytes(st));
		i
	}

	/// The inputs are gone: look at the last output once more.
	fn final_check(&mut self, expected: &[Any]) {
		let c = match self.last.take() {
			Some(c) => c,
			None => {
				self.drop_store();
				return;
			}
		};
		let st = self.store.as_ref().unwrap().state();
		if st.2 != c.base || st.0 != c.len || !self.check_state(usize::MAX, st) || !self.out.viols.is_empty() {
			self.drop_store();
			return;
		}
		let buf = Self::bytes(st);
		if mode_of(c.kind) == Mode::Complete {
			for v in &c.vals {
				let e = &expected[v.input];
				let (s, _) = e.size_align();
				if s == 0 {
					continue;
				}
				self.out.count("read_as_values", 1);
				if !unsafe { e.eq_at(buf.as_ptr().add(v.pos)) } {
					self.viol(v.op, Some(v.input), "final-eq", format!("input {} ({}) read from the output is not equal", v.input, e.name()));
				}
			}
			self.drop_store();
		} else {
			// The bytes live on elsewhere, without the buffer.
			if buf.len() < 2 * FAR {
				let copy = buf.to_vec();
				self.drop_store();
				self.verify(&c, st, &copy, false, Some(expected));
			} else {
				self.verify(&c, st, buf, false, Some(expected));
				self.drop_store();
			}
			self.out.count("read_from_copy", 1);
		}
	}
}

fn raw_args(o: &Op) -> (usize, usize) {
	let align = 1usize << (o.arg(1) % 4);
	let len = o.arg(0) as usize;
	(len / align * align, align)
}

pub fn heap_counts(out: &mut Outcome) {
	let s = heap().stats.clone();
	out.count("heap_requests", s.allocs + s.deallocs + s.reallocs);
	out.count("grow_in_place", s.grow_in_place);
	out.count("moved_overlapping", s.slides);
	out.count("moved_up", s.moved_up);
	out.count("moved_down", s.moved_down);
	out.count("moved_far", s.moved_far);
	out.count("moved_back", s.moved_back);
	out.count("shrink_in_place", s.shrink_in_place);
	out.count("range_reused", s.range_reused);
	out.count("huge_moves", s.huge_moves);
	out.count("fault_oom_nth", s.refused_nth);
	out.count("fault_oom_window", s.refused_window);
	out.count("fault_oom_random", s.refused_prob);
	out.count("fault_oom_budget", s.refused_budget);
	out.count("fault_oom_size_limit", s.refused_limit);
	let s = simstore::stats().clone();
	out.count("storage_reservations", s.reserves);
	out.count("fault_storage_relocated", s.relocations);
	out.count("fault_storage_skipped", s.skips);
	out.count("fault_storage_refused", s.refusals);
	for (c, m) in std::mem::take(&mut heap().viols) {
		out.viols.push(Viol { class: c, msg: m, op: usize::MAX, input: None });
	}
}

pub fn run(plan: &Plan, log: bool) -> Outcome {
	let (pol, faults) = policy(plan);
	*simstore::stats() = Default::default();
	simstore::broken();
	heap().log = None;
	heap().reset(pol, faults);
	if log {
		heap().log = Some(Vec::new());
	}
	let inputs: Vec<Input> = plan.inputs.iter().map(|s| Input::build(*s)).collect();
	let sh = Shared {
		plan,
		inputs,
		slots: Mutex::new((0..4).map(|_| None).collect()),
		out: Mutex::new(Outcome::default()),
	};
	let threads = plan.threads() as usize;
	let mut per: Vec<Vec<(usize, Op)>> = vec![Vec::new(); threads];
	for (i, o) in plan.ops.iter().enumerate() {
		per[o.t as usize % threads].push((i, o.clone()));
	}
	let mut bodies: Vec<Body> = (0..threads)
		.map(|_| Body {
			sh: &sh,
			cfg: CFGS[plan.get("cfg") as usize % CFGS.len()],
			store: None,
			content: Snap::default(),
			last: None,
			armed: true,
			out: Outcome::default(),
		})
		.collect();
	let mut done = sched::Done::default();
	if threads == 1 {
		let b = &mut bodies[0];
		b.run(&per[0]);
	} else {
		let fs: Vec<Box<dyn FnOnce() + Send + '_>> = bodies
			.iter_mut()
			.zip(&per)
			.map(|(b, ops)| {
				let b = SendPtr(b);
				Box::new(move || {
					let b = b;
					b.0.run(ops)
				}) as Box<dyn FnOnce() + Send + '_>
			})
			.collect();
		let how = sched::Sched {
			seed: plan.seed,
			density: plan.get("density"),
			preempt: plan.preempt.clone(),
			fine: plan.get("fine"),
			reach: plan.get("reach"),
			fines: plan.fines.clone(),
			hot: plan.get("hot"),
			budget: plan.get("budget"),
		};
		done = sched::run(how, fs);
	}
	// All threads are done, faults are over.
	let mut out = Outcome::default();
	for (i, inp) in sh.inputs.iter().enumerate() {
		if sum_blocks(&inp.blocks) != inp.sum {
			out.viols.push(Viol {
				class: "input-modified".into(),
				msg: format!("input {} ({}) was modified", i, inp.any().name()),
				op: usize::MAX,
				input: Some(i),
			});
		}
	}
	let expected: Vec<Any> =
		sh.inputs.iter().map(|i| make(i.spec[0], i.spec[1], i.spec[2], i.spec[3])).collect();
	for inp in &sh.inputs {
		heap::sim(|| drop(unsafe { Box::from_raw(inp.any) }));
	}
	for b in &mut bodies {
		b.final_check(&expected);
	}
	for s in sh.slots.lock().unwrap().iter_mut() {
		if let Some(h) = s.take() {
			heap::sim(move || drop(h.store));
		}
	}
	for b in bodies {
		let o = b.out;
		out.viols.extend(o.viols);
		out.failed.extend(o.failed);
		for (k, v) in o.counts {
			out.count(k, v);
		}
	}
	out.failed.sort();
	heap().check_all();
	heap().check_leaks();
	heap_counts(&mut out);
	out.count("switches", done.switches);
	out.count("instr_switches", done.instr_switches);
	out.count("hot_instrs", done.hot_instrs);
	out.count("lock_switches", done.lock_switches);
	out.count("steps", done.steps);
	let mut h = mix(heap().hash ^ done.hash);
	for o in &plan.ops {
		h = mix(h ^ o.t);
		for b in o.k.bytes() {
			h = mix(h ^ b as u64);
		}
		for a in &o.a {
			h = mix(h ^ *a).wrapping_add(1);
		}
	}
	for i in &plan.inputs {
		for x in i {
			h = mix(h ^ *x).wrapping_add(3);
		}
	}
	for v in &out.viols {
		for b in v.class.bytes() {
			h = mix(h ^ b as u64);
		}
	}
	out.hash = h;
	out.trace = done.trace;
	out.fine_trace = done.fine_trace;
	out.log = heap().log.take().unwrap_or_default();
	drop(sh.out.into_inner());
	out
}

struct SendPtr<'a, 'b>(&'a mut Body<'b>);
// The baton makes sure that one thread runs at a time.
unsafe impl<'a, 'b> Send for SendPtr<'a, 'b> {}
