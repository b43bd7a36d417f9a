//! Deterministic thread scheduler.
//!
//! Simulated threads are OS threads passing a baton: exactly one runs at a time.
//! The baton can change hands at every allocator request, at every callback from
//! code under test into user code, and (by single-stepping) after any machine
//! instruction of code under test; when, and who gets it, is decided by the plan.
//!
//! A thread which holds the baton but sleeps in the kernel is waiting for a lock
//! another thread holds; the baton is then passed on.

use std::{
	cell::Cell,
	sync::{
		atomic::{AtomicBool, AtomicUsize, Ordering},
		Condvar, Mutex, MutexGuard,
	},
	time::Duration,
};

use crate::{
	heap::harness,
	prng::{mix, Rng},
};

#[thread_local]
static ME: Cell<usize> = Cell::new(usize::MAX);
/// instructions left until the thread is preempted; 0: not stepping
#[thread_local]
static STEP: Cell<u64> = Cell::new(0);
/// step at which stepping was started, instructions asked for, who is next
#[thread_local]
static ARM: Cell<(u64, u64, u64)> = Cell::new((0, 0, 0));
/// stepping until an instruction works on memory all threads share; the chance
/// (permille) of preemption around such an instruction, and a generator
#[thread_local]
static HOT: Cell<(u64, u64)> = Cell::new((0, 0));

/// such an instruction was found
#[thread_local]
static HOT_FOUND: Cell<bool> = Cell::new(false);

pub struct State {
	cur: usize,
	alive: Vec<bool>,
	pub steps: u64,
	rng: Rng,
	/// chance (permille) of a switch at each step
	density: u64,
	/// forced switches: (step, thread to run next)
	preempt: Vec<(u64, u64)>,
	/// chance (permille) of preemption by instruction count after each step
	fine: u64,
	/// most instructions until then
	reach: u64,
	/// forced: (step, instructions after it, thread to run next)
	fines: Vec<(u64, u64, u64)>,
	/// chance (permille) of preemption around instructions on shared memory
	hot: u64,
	/// instructions which may still be stepped over to find such
	budget: u64,
	/// threads asleep in a lock of code under test
	blocked: Vec<bool>,
	tids: Vec<u32>,
	pub done: Done,
}

/// What was done.
#[derive(Default)]
pub struct Done {
	pub steps: u64,
	pub switches: u64,
	pub instr_switches: u64,
	/// instructions found to work on shared memory
	pub hot_instrs: u64,
	pub lock_switches: u64,
	pub hash: u64,
	pub trace: Vec<(u64, u64)>,
	pub fine_trace: Vec<(u64, u64, u64)>,
}

/// How threads are scheduled.
pub struct Sched {
	pub seed: u64,
	pub density: u64,
	pub preempt: Vec<(u64, u64)>,
	pub fine: u64,
	pub reach: u64,
	pub fines: Vec<(u64, u64, u64)>,
	pub hot: u64,
	pub budget: u64,
}

static STATE: Mutex<State> = Mutex::new(State {
	cur: 0,
	alive: Vec::new(),
	steps: 0,
	rng: Rng(0),
	density: 0,
	preempt: Vec::new(),
	fine: 0,
	reach: 0,
	fines: Vec::new(),
	hot: 0,
	budget: 0,
	blocked: Vec::new(),
	tids: Vec::new(),
	done: Done {
		steps: 0,
		switches: 0,
		instr_switches: 0,
		hot_instrs: 0,
		lock_switches: 0,
		hash: 0,
		trace: Vec::new(),
		fine_trace: Vec::new(),
	},
});
/// which threads are in the scheduler (waiting for it, perhaps)
static INSIDE: [AtomicBool; 8] = [NO; 8];
#[allow(clippy::declare_interior_mutable_const)]
const NO: AtomicBool = AtomicBool::new(false);

struct Inside(usize);
impl Inside {
	fn new(me: usize) -> Inside {
		INSIDE[me % INSIDE.len()].store(true, Ordering::SeqCst);
		Inside(me)
	}
}
impl Drop for Inside {
	fn drop(&mut self) {
		INSIDE[self.0 % INSIDE.len()].store(false, Ordering::SeqCst);
	}
}

static CV: Condvar = Condvar::new();

fn lock() -> std::sync::MutexGuard<'static, State> {
	STATE.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn me() -> usize {
	let m = ME.get();
	if m == usize::MAX {
		0
	} else {
		m
	}
}

impl State {
	/// Threads which can run. Those in a lock only if there are no others.
	fn living(&self) -> Vec<usize> {
		let v: Vec<usize> =
			(0..self.alive.len()).filter(|i| self.alive[*i] && !self.blocked[*i]).collect();
		if !v.is_empty() {
			return v;
		}
		(0..self.alive.len()).filter(|i| self.alive[*i]).collect()
	}
	fn switch_to(&mut self, t: usize) {
		self.cur = t;
		self.done.switches += 1;
		let s = self.steps;
		self.done.hash = mix(self.done.hash ^ s.wrapping_mul(31) ^ t as u64);
	}
	/// Instructions stepped over in search of one on shared memory count.
	fn account(&mut self) {
		if HOT.get().0 != 0 {
			self.budget = self.budget.saturating_sub(ARM.get().1 - STEP.get());
			HOT.set((0, 0));
		}
	}
	fn target(&self, k: u64) -> usize {
		let t = k as usize % self.alive.len();
		let living = self.living();
		if living.contains(&t) {
			t
		} else {
			living[k as usize % living.len()]
		}
	}
}

/// Wait until it is the turn of thread `me`.
fn wait(mut s: MutexGuard<'static, State>, me: usize) -> MutexGuard<'static, State> {
	let mut asleep = 0;
	// (after sleeping in a lock, it has got it now)
	s.blocked[me] = false;
	while s.cur != me {
		let (g, t) =
			CV.wait_timeout(s, Duration::from_millis(1)).unwrap_or_else(|e| e.into_inner());
		s = g;
		if !t.timed_out() || s.cur == me {
			asleep = 0;
			continue;
		}
		// The holder does not wait for the scheduler. Does it sleep all the same?
		let cur = s.cur;
		let first = s.living().into_iter().find(|t| *t != cur);
		asleep = if first == Some(me) && !INSIDE[cur % INSIDE.len()].load(Ordering::SeqCst) && sleeps(s.tids[cur]) { asleep + 1 } else { 0 };
		if asleep >= 4 {
			asleep = 0;
			s.blocked[cur] = true;
			s.done.lock_switches += 1;
			s.switch_to(me);
			CV.notify_all();
		}
	}
	s
}

fn sleeps(tid: u32) -> bool {
	let t = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
	t.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S'))
}

pub fn yield_point() {
	let me = ME.get();
	if me == usize::MAX || std::thread::panicking() {
		return;
	}
	harness(|| {
		let _inside = Inside::new(me);
		// (the turn is another's after sleeping in a lock)
		let mut s = wait(lock(), me);
		s.steps += 1;
		let step = s.steps;
		let forced = s.preempt.iter().find(|p| p.0 == step).map(|p| p.1);
		let next = if let Some(k) = forced {
			s.target(k)
		} else if s.density != 0 {
			let d = s.density;
			if s.rng.chance(d) {
				let living = s.living();
				let k = s.rng.below(living.len() as u64);
				living[k as usize]
			} else {
				me
			}
		} else {
			me
		};
		s.account();
		let mut arm = s.fines.iter().find(|p| p.0 == step).copied();
		if arm.is_none() && s.fine != 0 {
			let f = s.fine;
			if s.rng.chance(f) {
				let r = s.reach;
				let n = 1 + s.rng.skewed(r);
				let m = s.alive.len() as u64;
				let mut t = s.rng.below(m);
				if t == me as u64 {
					t = (t + 1) % m;
				}
				arm = Some((step, n, t));
			}
		}
		HOT_FOUND.set(false);
		if arm.is_none() && s.hot != 0 && s.budget != 0 {
			let m = s.alive.len() as u64;
			let t = (me as u64 + 1 + s.rng.below(m - 1)) % m;
			arm = Some((step, s.budget, t));
			HOT.set((s.hot, s.rng.next()));
		}
		if let Some(a) = arm {
			ARM.set(a);
			STEP.set(a.1);
		}
		if next != me {
			s.switch_to(next);
			if s.done.trace.len() < 3000 {
				s.done.trace.push((step, next as u64));
			}
			CV.notify_all();
			drop(wait(s, me));
		}
	})
}

/// The thread is in code under test again: go on counting its instructions.
#[inline]
pub fn resume() {
	if STEP.get() != 0 {
		step::start();
	}
}

/// The instructions asked for were executed.
fn preempted(me: usize) {
	harness(|| {
		let _inside = Inside::new(me);
		let mut s = wait(lock(), me);
		let arm = ARM.get();
		if HOT_FOUND.replace(false) {
			s.budget = s.budget.saturating_sub(arm.1);
			s.done.hot_instrs += 1;
		}
		s.steps += 1;
		let next = s.target(arm.2);
		if next != me {
			s.switch_to(next);
			s.done.hash = mix(s.done.hash ^ arm.1);
			s.done.instr_switches += 1;
			if s.done.fine_trace.len() < 3000 {
				s.done.fine_trace.push(arm);
			}
			CV.notify_all();
			drop(wait(s, me));
		}
	})
}

#[cfg(target_arch = "x86_64")]
mod step {
	//! Single-stepping: the processor traps after each instruction while the trap
	//! flag is set; the kernel turns that into SIGTRAP for the thread.

	use super::*;
	use std::arch::asm;

	#[repr(C)]
	struct SigAction {
		handler: usize,
		mask: [u64; 16],
		flags: i32,
		restorer: usize,
	}

	extern "C" {
		fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
	}
	const SIGTRAP: i32 = 5;
	const SA_SIGINFO: i32 = 4;
	const TF: u64 = 0x100;
	/// index of the flags among the words of `ucontext_t`
	const FLAGS: usize = 5 + 17;
	const RIP: usize = 5 + 16;

	extern "C" {
		static __data_start: u8;
		static _end: u8;
	}

	/// static memory of the harness, and of std where the harness uses it
	static OURS: [AtomicUsize; 8] = [NONE; 8];
	#[allow(clippy::declare_interior_mutable_const)]
	const NONE: AtomicUsize = AtomicUsize::new(0);

	fn ours(addr: usize) {
		for o in &OURS {
			let known = o.load(Ordering::Relaxed);
			if known == 0 || known == addr {
				return o.store(addr, Ordering::Relaxed);
			}
		}
	}

	fn touches_shared(ip: *const u8) -> bool {
		match shared(ip) {
			Some(a) => !OURS.iter().any(|o| a != 1 && a == o.load(Ordering::Relaxed)),
			None => false,
		}
	}

	/// Does the instruction work on writable static memory of the program, or
	/// atomically (1)? (A guess: where it is wrong other preemptions are found.)
	fn shared(ip: *const u8) -> Option<usize> {
		let at = |i: usize| unsafe { *ip.add(i) };
		let mut i = 0;
		loop {
			match at(i) {
				0xf0 => return Some(1),
				// (thread-local)
				0x64 | 0x65 => return None,
				0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 => i += 1,
				_ => break,
			}
		}
		if at(i) & 0xf0 == 0x40 {
			i += 1;
		}
		let op = at(i);
		let modrm = match op {
			0x0f => match at(i + 1) {
				0x38 | 0x3a => i + 3,
				0x05 | 0x0b | 0x31 | 0xa2 | 0x77 | 0x80..=0x8f | 0xc8..=0xcf => return None,
				_ => i + 2,
			},
			0x00..=0x3f if op & 7 < 4 => i + 1,
			0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xf6 | 0xf7 | 0xfe | 0xff => i + 1,
			_ => return None,
		};
		let m = at(modrm);
		if (op == 0x86 || op == 0x87) && m >> 6 != 3 {
			return Some(1);
		}
		if m & 0xc7 != 5 {
			return None;
		}
		let disp = i32::from_le_bytes([at(modrm + 1), at(modrm + 2), at(modrm + 3), at(modrm + 4)]);
		let to = (ip as usize + modrm + 5).wrapping_add(disp as isize as usize);
		let (lo, hi) = unsafe { (&__data_start as *const u8 as usize, &_end as *const u8 as usize) };
		if to >= lo && to < hi { Some(to) } else { None }
	}

	static WORKS: AtomicBool = AtomicBool::new(false);
	#[thread_local]
	static TEST: Cell<u64> = Cell::new(0);

	extern "C" fn trap(_sig: i32, _info: *mut u8, ctx: *mut u64) {
		let flags = unsafe { &mut *ctx.add(FLAGS) };
		let t = TEST.get();
		if t != 0 {
			TEST.set(t + 1);
			if let Some(a) = shared(unsafe { *ctx.add(RIP) } as *const u8) {
				ours(a);
			}
			if t >= 20 {
				*flags &= !TF;
			}
			return;
		}
		let me = ME.get();
		let n = STEP.get();
		if me == usize::MAX || n == 0 || !crate::heap::in_sim() {
			*flags &= !TF;
			return;
		}
		if std::thread::panicking() {
			STEP.set(0);
			*flags &= !TF;
			return;
		}
		let (hot, rng) = HOT.get();
		if hot != 0 {
			if n == 1 {
				// (nothing found)
				STEP.set(0);
				*flags &= !TF;
				return;
			}
			if touches_shared(unsafe { *ctx.add(RIP) } as *const u8) {
				let x = mix(rng);
				HOT.set((hot, x));
				if x % 1000 < hot {
					// Before it, or soon after it.
					let more = (x >> 32) % 8;
					let a = ARM.get();
					ARM.set((a.0, a.1 - n + 1 + more, a.2));
					HOT.set((0, 0));
					HOT_FOUND.set(true);
					STEP.set(more);
					if more == 0 {
						*flags &= !TF;
						preempted(me);
					}
					return;
				}
			}
			STEP.set(n - 1);
			return;
		}
		STEP.set(n - 1);
		if n == 1 {
			*flags &= !TF;
			preempted(me);
		}
	}

	#[inline(never)]
	fn set() {
		unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
	}

	#[cold]
	pub fn start() {
		if WORKS.load(Ordering::Relaxed) {
			set();
		}
	}

	pub fn init() -> bool {
		let a = SigAction { handler: trap as *const () as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
		if unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) } != 0 {
			return false;
		}
		TEST.set(1);
		set();
		let mut x = 0u64;
		for i in 0..100u64 {
			x = std::hint::black_box(x ^ i);
		}
		std::hint::black_box(x);
		let ok = TEST.replace(0) == 21;
		if ok {
			TEST.set(1);
			set();
			std::hint::black_box(std::thread::panicking());
			TEST.set(0);
			for a in crate::heap::statics().into_iter().chain(crate::walk::statics()) {
				ours(a);
			}
		}
		WORKS.store(ok, Ordering::Relaxed);
		ok
	}
}

#[cfg(not(target_arch = "x86_64"))]
mod step {
	pub fn start() {}
	pub fn init() -> bool {
		false
	}
}

/// Prepare for preemption by instruction count. Returns false where impossible.
pub fn init() -> bool {
	step::init()
}

extern "C" {
	fn gettid() -> i32;
}

/// Run the bodies as simulated threads.
pub fn run(how: Sched, bodies: Vec<Box<dyn FnOnce() + Send + '_>>) -> Done {
	let n = bodies.len();
	let seed = how.seed;
	{
		let mut s = lock();
		s.alive = vec![true; n];
		s.blocked = vec![false; n];
		for i in 0..n {
			INSIDE[i % INSIDE.len()].store(true, Ordering::SeqCst);
		}
		s.tids = vec![0; n];
		s.steps = 0;
		s.rng = Rng::new(seed ^ 0x7363_6864);
		s.density = how.density;
		s.preempt = how.preempt;
		s.fine = how.fine;
		s.reach = how.reach;
		s.fines = how.fines;
		s.hot = how.hot;
		s.budget = how.budget;
		s.done = Done::default();
		s.cur = mix(seed) as usize % n;
	}
	std::thread::scope(|sc| {
		for (i, body) in bodies.into_iter().enumerate() {
			std::thread::Builder::new()
				.stack_size(16 << 20)
				.spawn_scoped(sc, move || {
					{
						let mut s = lock();
						s.tids[i] = unsafe { gettid() } as u32;
						drop(wait(s, i));
						INSIDE[i % INSIDE.len()].store(false, Ordering::SeqCst);
					}
					ME.set(i);
					STEP.set(0);
					let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
					INSIDE[i % INSIDE.len()].store(true, Ordering::SeqCst);
					let mut s = wait(lock(), i);
					ME.set(usize::MAX);
					s.account();
					STEP.set(0);
					s.alive[i] = false;
					let living = s.living();
					if !living.is_empty() {
						let k = mix(seed ^ s.steps) as usize % living.len();
						s.switch_to(living[k]);
					}
					CV.notify_all();
					drop(s);
					if let Err(p) = r {
						std::panic::resume_unwind(p);
					}
				})
				.expect("spawn");
		}
	});
	let mut s = lock();
	s.done.steps = s.steps;
	std::mem::take(&mut s.done)
}
