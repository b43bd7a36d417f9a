//! Simulated heap: the process' global allocator.
//!
//! While a thread is "in the simulation" every allocator request it makes is
//! served from an arena at a fixed address, and every decision (where a block is
//! placed, whether growth happens in place, whether a freed range is used again,
//! what fresh memory contains, whether the request is refused) is drawn from the
//! generator of the run.  Outside of it requests go to the system allocator.
//!
//! The heap checks what it is asked: layouts given back must match, guard bytes
//! around blocks and poison inside freed ranges must stay intact, nothing may be
//! left over at the end.

use std::{
	alloc::{GlobalAlloc, Layout, System},
	cell::Cell,
	collections::BTreeMap,
	ptr,
	sync::atomic::{AtomicBool, Ordering},
};

use crate::{
	prng::{mix, Rng},
	sched,
};

extern "C" {
	fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn mremap(old: *mut u8, old_len: usize, new_len: usize, flags: i32, new: *mut u8) -> *mut u8;
	fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}
const PROT_RW: i32 = 1 | 2;
const MAP_PRIVATE: i32 = 2;
const MAP_ANON: i32 = 0x20;
const MAP_NORESERVE: i32 = 0x4000;
const MAP_FIXED: i32 = 0x10;
const MAP_FIXED_NOREPLACE: i32 = 0x100000;
const MADV_DONTNEED: i32 = 4;

pub const ARENA: usize = 0x1000_0000_0000;
pub const ARENA_LEN: usize = 1 << 40;
const GIB: usize = 1 << 30;
/// Zones are far apart, so that moves cross 4 GiB boundaries in both directions.
const ZONES: [(usize, usize); 4] = [
	(GIB, 5 * GIB),
	(40 * GIB + 0x10000, 44 * GIB),
	(101 * GIB, 105 * GIB),
	(513 * GIB + 0x3000, 517 * GIB),
];
const HUGE_ZONE: (usize, usize) = (600 * GIB, 1020 * GIB);
const HUGE: usize = 64 << 20;
const MAX_BLOCK: usize = 24 * GIB;
const PRE: usize = 32;
const POST: usize = 64;
const FILL_MAX: usize = 1 << 20;
const POISON_MAX: usize = 1 << 16;
const GUARD_CHECK_MAX: usize = 256;
const POISON: u64 = 0xd9d9_d9d9_d9d9_d9d9;

#[thread_local]
static SIM: Cell<bool> = Cell::new(false);
#[thread_local]
static ARMED: Cell<bool> = Cell::new(false);

static READY: AtomicBool = AtomicBool::new(false);
static mut HEAP: Option<Box<Heap>> = None;

pub struct SimAlloc;

/// Payload of the panic which a refused allocation unwinds with.
pub struct SimOomTag;

#[inline]
fn in_arena(p: usize) -> bool {
	p.wrapping_sub(ARENA) < ARENA_LEN
}

pub fn heap() -> &'static mut Heap {
	unsafe { HEAP.as_mut().expect("heap not initialized") }
}

/// Code under test runs inside `sim`; allocations are simulated.
pub fn sim<R>(f: impl FnOnce() -> R) -> R {
	struct Reset(bool);
	impl Drop for Reset {
		fn drop(&mut self) {
			SIM.set(self.0);
		}
	}
	let _r = Reset(SIM.replace(true));
	sched::resume();
	f()
}

/// Harness code called back from code under test.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
	struct Reset(bool, bool);
	impl Drop for Reset {
		fn drop(&mut self) {
			ARMED.set(self.1);
			SIM.set(self.0);
			if self.0 {
				sched::resume();
			}
		}
	}
	let _r = Reset(SIM.replace(false), ARMED.replace(false));
	f()
}

/// Like `sim`, with faults armed.
pub fn armed<R>(f: impl FnOnce() -> R) -> R {
	struct Reset(bool);
	impl Drop for Reset {
		fn drop(&mut self) {
			ARMED.set(self.0);
		}
	}
	let _r = Reset(ARMED.replace(true));
	sim(f)
}

pub fn leave_sim() {
	SIM.set(false);
	ARMED.set(false);
}

/// Where static memory of the heap is.
pub fn statics() -> Vec<usize> {
	unsafe { vec![&READY as *const _ as usize, std::ptr::addr_of!(HEAP) as usize] }
}

pub fn in_sim() -> bool {
	SIM.get()
}

/// Harness code on behalf of an allocator request.
fn served<R>(f: impl FnOnce() -> R) -> R {
	let was = SIM.replace(false);
	let r = f();
	SIM.set(was);
	if was {
		sched::resume();
	}
	r
}

unsafe impl GlobalAlloc for SimAlloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if SIM.get() && READY.load(Ordering::Relaxed) && !std::thread::panicking() {
			sched::yield_point();
			served(|| heap().sim_alloc(l))
		} else {
			served(|| System.alloc(l))
		}
	}

	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		if SIM.get() {
			let p = self.alloc(l);
			served(|| {
				if !p.is_null() && !(in_arena(p as usize) && l.size() >= HUGE) {
					ptr::write_bytes(p, 0, l.size());
				}
			});
			p
		} else {
			System.alloc_zeroed(l)
		}
	}

	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if in_arena(p as usize) {
			if SIM.get() && !std::thread::panicking() {
				sched::yield_point();
			}
			served(|| heap().sim_dealloc(p as usize, l));
		} else if SIM.get() && READY.load(Ordering::Relaxed) && (p as usize) < 0x10000 {
			served(|| {
				heap().violation("heap-badfree", format!("dealloc of invalid address {:#x} ({} bytes)", p as usize, l.size()))
			});
		} else {
			served(|| System.dealloc(p, l))
		}
	}

	unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
		if in_arena(p as usize) {
			if SIM.get() && !std::thread::panicking() {
				sched::yield_point();
			}
			served(|| heap().sim_realloc(p as usize, l, new_size))
		} else if (p as usize) < 0x10000 {
			served(|| heap().violation("heap-badfree", format!("realloc of invalid address {:#x}", p as usize)));
			ptr::null_mut()
		} else {
			served(|| System.realloc(p, l, new_size))
		}
	}
}

#[derive(Clone, Debug, Default)]
pub struct Policy {
	pub seed: u64,
	/// 0 up, 1 down, 2 alternating, 3 any zone, 4 two far zones
	pub zone: u64,
	/// chance (permille) that a freed range is used again when one fits
	pub reuse: u64,
	/// chance (permille) that growth happens in place when it fits
	pub inplace: u64,
	/// moves to a place overlapping the one before
	pub slide: u64,
	/// room left after each block: 0 none, 1 64 B, 2 4 KiB, 3 1 MiB
	pub slack: u64,
	/// fresh memory content: 0 zero, 1 ones, 2 random, 3 address-like words
	pub fill: u64,
	/// place blocks at addresses no more aligned than asked for
	pub misalign: u64,
	/// chance (permille) that shrinking moves the block
	pub shrink_move: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Faults {
	/// refuse the armed request with this (1-based) number; 0: none
	pub nth: u64,
	/// refuse armed requests `from .. from + len` (1-based)
	pub from: u64,
	pub len: u64,
	/// refuse with this probability (permille)
	pub prob: u64,
	/// refuse what would take more than this many live bytes; 0: no limit
	pub budget: u64,
	/// only requests of at least this size are refused by the above
	pub min_size: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Block {
	pub size: usize,
	pub align: usize,
	lo: usize,
	hi: usize,
	id: u64,
}

#[derive(Clone, Copy)]
pub struct Request {
	pub kind: u8, // 0 alloc, 1 realloc, 2 dealloc
	pub size: usize,
	pub align: usize,
	pub old: usize,
	pub new: usize,
}

#[derive(Clone, Default, Debug)]
pub struct HeapStats {
	pub allocs: u64,
	pub deallocs: u64,
	pub reallocs: u64,
	pub grow_in_place: u64,
	pub slides: u64,
	pub shrink_in_place: u64,
	pub moved_up: u64,
	pub moved_down: u64,
	pub moved_far: u64,
	pub moved_back: u64,
	pub range_reused: u64,
	pub refused_nth: u64,
	pub refused_window: u64,
	pub refused_prob: u64,
	pub refused_budget: u64,
	pub refused_limit: u64,
	pub guard_checks: u64,
	pub huge_moves: u64,
}

pub struct Heap {
	pol: Policy,
	pub faults: Faults,
	rng: Rng,
	frng: Rng,
	up: [usize; 4],
	down: [usize; 4],
	huge: usize,
	live: BTreeMap<usize, Block>,
	freed: Vec<(usize, usize)>,
	live_bytes: usize,
	next_id: u64,
	pub armed_count: u64,
	pub hash: u64,
	pub stats: HeapStats,
	pub viols: Vec<(String, String)>,
	/// requests made since the recorder was last cleared
	pub record: Vec<Request>,
	pub recording: bool,
	pub log: Option<Vec<String>>,
	/// addresses a block (by chain of moves) had before
	history: BTreeMap<u64, Vec<usize>>,
	big_used: bool,
}

pub fn init() {
	unsafe {
		let p = mmap(
			ARENA as *mut u8,
			ARENA_LEN,
			PROT_RW,
			MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
			-1,
			0,
		);
		if p as usize != ARENA {
			eprintln!("sim: cannot map the arena at its fixed address");
			std::process::exit(3);
		}
		HEAP = Some(Box::new(Heap {
			pol: Policy::default(),
			faults: Faults::default(),
			rng: Rng::new(0),
			frng: Rng::new(0),
			up: [0; 4],
			down: [usize::MAX; 4],
			huge: 0,
			live: BTreeMap::new(),
			freed: Vec::new(),
			live_bytes: 0,
			next_id: 0,
			armed_count: 0,
			hash: 0,
			stats: HeapStats::default(),
			viols: Vec::new(),
			record: Vec::new(),
			recording: false,
			log: None,
			history: BTreeMap::new(),
			big_used: true,
		}));
		READY.store(true, Ordering::SeqCst);
	}
}

/// An address in the arena?
pub fn within(addr: usize) -> bool {
	(ARENA..ARENA + ARENA_LEN).contains(&addr)
}

/// An address where blocks are likely to be.
pub fn near(r: &mut Rng) -> u64 {
	let (lo, hi) = ZONES[r.pick(&[0usize, 0, 0, 1, 2, 3])];
	let k = r.range(10, 17);
	let d = r.below(1 << k) as usize;
	(ARENA + if r.chance(600) { lo + d } else { hi - d }) as u64
}

fn guard_byte(addr: usize) -> u8 {
	(addr as u8).wrapping_mul(31) ^ 0xa7
}

impl Heap {
	pub fn reset(&mut self, pol: Policy, faults: Faults) {
		let mut used = 0;
		for (i, (lo, hi)) in ZONES.iter().enumerate() {
			used += self.up[i].saturating_sub(ARENA + lo) + (ARENA + hi).saturating_sub(self.down[i]);
		}
		if self.big_used || used > 64 << 20 {
			for (lo, hi) in ZONES.iter().chain([HUGE_ZONE].iter()) {
				unsafe { madvise((ARENA + lo) as *mut u8, hi - lo, MADV_DONTNEED) };
			}
			self.big_used = false;
		}
		self.rng = Rng::new(pol.seed ^ 0x6865_6170);
		self.frng = Rng::new(pol.seed ^ 0x6661_756c);
		for (i, (lo, hi)) in ZONES.iter().enumerate() {
			self.up[i] = ARENA + lo;
			self.down[i] = ARENA + hi;
		}
		self.huge = ARENA + HUGE_ZONE.0;
		self.pol = pol;
		self.faults = faults;
		self.live.clear();
		self.freed.clear();
		self.history.clear();
		self.live_bytes = 0;
		self.next_id = 0;
		self.armed_count = 0;
		self.hash = 0x1234;
		self.stats = HeapStats::default();
		self.viols.clear();
		self.record.clear();
		self.recording = false;
		if let Some(l) = &mut self.log {
			l.clear();
		}
	}

	pub fn violation(&mut self, class: &str, msg: String) {
		if let Some(l) = &mut self.log {
			l.push(format!("heap VIOLATION {} {}", class, msg));
		}
		if self.viols.len() < 8 {
			self.viols.push((class.to_string(), msg));
		}
	}

	fn note(&mut self, kind: u8, size: usize, align: usize, old: usize, new: usize) {
		for x in [kind as usize, size, align, old, new] {
			self.hash = mix(self.hash ^ x as u64).wrapping_add(0x9e37);
		}
		if self.recording {
			self.record.push(Request { kind, size, align, old, new });
		}
		if let Some(l) = &mut self.log {
			if l.len() < 4000 {
				let k = ["alloc", "realloc", "dealloc"][kind as usize];
				l.push(format!(
					"heap {:<7} size={} align={} old={:#x} new={:#x}{}",
					k,
					size,
					align,
					old,
					new,
					if new == 0 && kind < 2 { " REFUSED" } else { "" }
				));
			}
		}
	}

	pub fn block(&self, addr: usize) -> Option<Block> {
		self.live.get(&addr).copied()
	}

	pub fn live_count(&self) -> usize {
		self.live.len()
	}

	/// Is `[addr, addr + len)` inside one live block?
	pub fn is_live(&self, addr: usize, len: usize) -> bool {
		match self.live.range(..=addr).next_back() {
			Some((&a, b)) => addr >= a && addr + len <= a + b.size,
			None => false,
		}
	}

	fn refuse(&mut self, size: usize, extra: usize, zero_ok: bool) -> bool {
		if size > MAX_BLOCK {
			self.stats.refused_limit += 1;
			return true;
		}
		if !zero_ok || !ARMED.get() {
			return false;
		}
		self.armed_count += 1;
		let f = &self.faults;
		let n = self.armed_count;
		if (size as u64) < f.min_size {
			return false;
		}
		if f.nth != 0 && n == f.nth {
			self.stats.refused_nth += 1;
			return true;
		}
		if f.len != 0 && n >= f.from && n < f.from + f.len {
			self.stats.refused_window += 1;
			return true;
		}
		if f.prob != 0 && self.frng.chance(f.prob) {
			self.stats.refused_prob += 1;
			return true;
		}
		if f.budget != 0 && self.live_bytes + extra > f.budget as usize {
			self.stats.refused_budget += 1;
			return true;
		}
		false
	}

	unsafe fn check_bytes(&mut self, from: usize, to: usize, what: &str, b: &Block) {
		self.stats.guard_checks += 1;
		let mut a = from;
		while a < to {
			if *(a as *const u8) != guard_byte(a) {
				self.violation(
					"heap-guard",
					format!("byte at {:#x} {} block of {} bytes was overwritten", a, what, b.size),
				);
				return;
			}
			a += 1;
		}
	}

	unsafe fn write_guards(&mut self, user: usize, b: &Block) {
		let lo = b.lo.max(user.saturating_sub(GUARD_CHECK_MAX));
		for a in lo..user {
			*(a as *mut u8) = guard_byte(a);
		}
		let hi = b.hi.min(user + b.size + GUARD_CHECK_MAX);
		for a in user + b.size..hi {
			*(a as *mut u8) = guard_byte(a);
		}
	}

	unsafe fn check_guards(&mut self, user: usize, b: &Block) {
		let lo = b.lo.max(user.saturating_sub(GUARD_CHECK_MAX));
		self.check_bytes(lo, user, "before", b);
		let hi = b.hi.min(user + b.size + GUARD_CHECK_MAX);
		self.check_bytes(user + b.size, hi, "after", b);
	}

	unsafe fn poison(&mut self, lo: usize, hi: usize) {
		let n = (hi - lo).min(POISON_MAX);
		ptr::write_bytes(lo as *mut u8, 0xd9, n);
	}

	unsafe fn check_poison(&mut self, lo: usize, hi: usize) {
		let n = (hi - lo).min(POISON_MAX);
		let mut i = 0;
		while i < n {
			let a = lo + i;
			if a % 8 == 0 && i + 8 <= n {
				if *(a as *const u64) == POISON {
					i += 8;
					continue;
				}
			}
			if *(a as *const u8) != 0xd9 {
				self.violation("heap-uaf", format!("freed memory at {:#x} was written", a));
				return;
			}
			i += 1;
		}
	}

	unsafe fn fill(&mut self, user: usize, size: usize) {
		if size >= HUGE {
			return;
		}
		if size > FILL_MAX {
			self.big_used = true;
		}
		let n = size.min(FILL_MAX);
		match self.pol.fill {
			0 => ptr::write_bytes(user as *mut u8, 0, n),
			1 => ptr::write_bytes(user as *mut u8, 0xff, n),
			k => {
				let mut r = Rng::new(user as u64 ^ self.pol.seed);
				let mut i = 0;
				while i < n {
					let w = if k == 2 {
						r.next()
					} else {
						(ARENA + ZONES[0].0) as u64 + (r.next() & 0xff_fff8)
					};
					let m = (n - i).min(8);
					ptr::copy_nonoverlapping(&w as *const u64 as *const u8, (user + i) as *mut u8, m);
					i += 8;
				}
			}
		}
	}

	/// Choose a place. Returns (user address, span lo, span hi).
	unsafe fn place(&mut self, size: usize, align: usize) -> (usize, usize, usize) {
		if size >= HUGE {
			self.big_used = true;
			let lo = self.huge;
			// Same offset within a page for all, so pages can be moved.
			let step = align.max(4096);
			let mut user = (lo + 8192 + step - 1) / step * step;
			if self.pol.misalign != 0 {
				user += if align < 4096 { align } else if user % (2 * align) == 0 { align } else { 0 };
			}
			let hi = (user + size + POST + 4095) / 4096 * 4096;
			self.huge = hi + 4096 * (1 + self.rng.below(1000) as usize);
			if self.huge > ARENA + HUGE_ZONE.1 {
				return (0, 0, 0);
			}
			return (user, lo, hi);
		}
		let slack = [0, 64, 4096, 1 << 20][self.pol.slack as usize & 3];
		let min = PRE + size + POST + 2 * align;
		if self.rng.chance(self.pol.reuse) {
			// Most recently freed first.
			for i in (0..self.freed.len()).rev().take(64) {
				let (lo, hi) = self.freed[i];
				if hi - lo >= min {
					self.freed.swap_remove(i);
					self.check_poison(lo, hi);
					self.stats.range_reused += 1;
					let user = Self::user_addr(lo, align, self.pol.misalign != 0);
					return (user, lo, hi);
				}
			}
		}
		let (mut z, dir) = match self.pol.zone {
			0 => (0, 0),
			1 => (0, 1),
			2 => (0, self.rng.below(2)),
			3 => (self.rng.below(4) as usize, self.rng.below(2)),
			_ => (self.rng.pick(&[1usize, 3]), 0),
		};
		let gap = if self.rng.chance(100) { self.rng.below(3000) as usize } else { 0 };
		let room = |h: &Heap, z: usize| h.down[z] - h.up[z];
		// Dense once most of a zone is taken; other zones when it is full.
		let need = if room(self, z) > GIB { min + slack } else { min };
		if need + gap > room(self, z) {
			match (0..4).find(|z| need + gap <= room(self, *z)) {
				Some(other) => z = other,
				None => return (0, 0, 0),
			}
		}
		let (lo, hi) = if dir == 0 {
			let lo = self.up[z] + gap;
			self.up[z] = lo + need;
			(lo, lo + need)
		} else {
			let hi = self.down[z] - gap;
			self.down[z] = hi - need;
			(hi - need, hi)
		};
		(Self::user_addr(lo, align, self.pol.misalign != 0), lo, hi)
	}

	fn user_addr(lo: usize, align: usize, misalign: bool) -> usize {
		let mut user = (lo + PRE + align - 1) & !(align - 1);
		if misalign && user % (2 * align) == 0 {
			user += align;
		}
		user
	}

	unsafe fn new_block(&mut self, size: usize, align: usize, id: u64) -> usize {
		let (user, lo, hi) = self.place(size, align);
		if user == 0 {
			self.stats.refused_limit += 1;
			return 0;
		}
		let b = Block { size, align, lo, hi, id };
		self.fill(user, size);
		self.write_guards(user, &b);
		self.live.insert(user, b);
		self.live_bytes += size;
		user
	}

	unsafe fn drop_block(&mut self, user: usize) {
		let b = self.live.remove(&user).unwrap();
		self.live_bytes -= b.size;
		self.check_guards(user, &b);
		if b.size >= HUGE {
			madvise(((b.lo + 4095) / 4096 * 4096) as *mut u8, (b.hi - b.lo) / 4096 * 4096, MADV_DONTNEED);
		} else {
			self.poison(b.lo, b.hi);
			// Give back what is not compared.
			let from = (b.lo + POISON_MAX + 4095) / 4096 * 4096;
			let to = b.hi / 4096 * 4096;
			if to > from + (256 << 10) {
				madvise(from as *mut u8, to - from, MADV_DONTNEED);
			}
			self.freed.push((b.lo, b.hi));
		}
	}

	unsafe fn sim_alloc(&mut self, l: Layout) -> *mut u8 {
		let (size, align) = (l.size(), l.align());
		self.stats.allocs += 1;
		if size == 0 {
			self.violation("heap-layout", "allocation of zero bytes requested".into());
		}
		if !align.is_power_of_two() || size > isize::MAX as usize - (align - 1) {
			self.violation("heap-layout", format!("invalid layout size={} align={}", size, align));
			return ptr::null_mut();
		}
		if self.refuse(size, size, true) {
			self.note(0, size, align, 0, 0);
			return ptr::null_mut();
		}
		let id = self.next_id;
		self.next_id += 1;
		let user = self.new_block(size.max(1), align, id);
		self.note(0, size, align, 0, user);
		user as *mut u8
	}

	unsafe fn sim_dealloc(&mut self, user: usize, l: Layout) {
		self.stats.deallocs += 1;
		self.note(2, l.size(), l.align(), user, 0);
		match self.block(user) {
			None => self.violation(
				"heap-badfree",
				format!("dealloc of {:#x}, which is not a live block ({} bytes)", user, l.size()),
			),
			Some(b) => {
				self.check_layout("dealloc", user, &b, l);
				self.history.remove(&b.id);
				self.drop_block(user);
			}
		}
	}

	fn check_layout(&mut self, what: &str, user: usize, b: &Block, l: Layout) {
		if b.size != l.size() || b.align != l.align() {
			self.violation(
				"heap-layout",
				format!(
					"{} of {:#x} with size={} align={}, but it was obtained with size={} align={}",
					what,
					user,
					l.size(),
					l.align(),
					b.size,
					b.align
				),
			);
		}
	}

	unsafe fn sim_realloc(&mut self, user: usize, l: Layout, new_size: usize) -> *mut u8 {
		self.stats.reallocs += 1;
		let b = match self.block(user) {
			None => {
				self.note(1, new_size, l.align(), user, 0);
				self.violation("heap-badfree", format!("realloc of {:#x}, which is not a live block", user));
				return ptr::null_mut();
			}
			Some(b) => b,
		};
		self.check_layout("realloc", user, &b, l);
		if new_size == 0 {
			self.violation("heap-layout", "realloc to zero bytes requested".into());
		}
		if new_size > isize::MAX as usize - (l.align() - 1) {
			self.violation("heap-layout", format!("realloc to invalid size {}", new_size));
			return ptr::null_mut();
		}
		if self.refuse(new_size, new_size.saturating_sub(b.size), true) {
			self.note(1, new_size, l.align(), user, 0);
			return ptr::null_mut();
		}
		let new_size = new_size.max(1);
		let grow = new_size > b.size;
		let fits = user + new_size + POST <= b.hi && (b.size >= HUGE) == (new_size >= HUGE);
		let stay = fits
			&& if grow { self.rng.chance(self.pol.inplace) } else { !self.rng.chance(self.pol.shrink_move) };
		if stay {
			self.check_guards(user, &b);
			let nb = Block { size: new_size, ..b };
			if grow {
				self.fill(user + b.size, new_size - b.size);
				self.stats.grow_in_place += 1;
			} else {
				self.stats.shrink_in_place += 1;
			}
			self.write_guards(user, &nb);
			self.live.insert(user, nb);
			self.live_bytes = self.live_bytes + new_size - b.size;
			self.note(1, new_size, l.align(), user, user);
			return user as *mut u8;
		}
		// Within the room the block has, as an allocator which joins it with free room before it.
		if b.size < HUGE && new_size < HUGE && self.rng.chance(self.pol.slide) {
			let first = (b.lo + PRE + b.align - 1) & !(b.align - 1);
			let last = (b.hi - POST).saturating_sub(new_size) & !(b.align - 1);
			if last >= first {
				let steps = (last - first) / b.align;
				let at = (user - first) / b.align;
				let to = match self.rng.below(3) {
					0 => at.saturating_sub(1 + self.rng.below(16) as usize),
					1 => at + 1 + self.rng.below(16) as usize,
					_ => self.rng.below(steps as u64 + 1) as usize,
				};
				let new = first + to.min(steps) * b.align;
				if new != user {
					self.check_guards(user, &b);
					self.live.remove(&user);
					ptr::copy(user as *const u8, new as *mut u8, new_size.min(b.size));
					if grow {
						self.fill(new + b.size, new_size - b.size);
					}
					let nb = Block { size: new_size, ..b };
					self.write_guards(new, &nb);
					self.live.insert(new, nb);
					self.live_bytes = self.live_bytes + new_size - b.size;
					self.stats.slides += 1;
					self.history.entry(b.id).or_default().push(user);
					self.note(1, new_size, l.align(), user, new);
					return new as *mut u8;
				}
			}
		}
		// Obtain the new place first (as real allocators do), then copy.
		let new = self.new_block(new_size, b.align, b.id);
		if new == 0 {
			self.note(1, new_size, l.align(), user, 0);
			return ptr::null_mut();
		}
		self.copy(user, new, new_size.min(b.size));
		self.drop_block(user);
		if new > user {
			self.stats.moved_up += 1;
		} else {
			self.stats.moved_down += 1;
		}
		if new.abs_diff(user) > u32::MAX as usize {
			self.stats.moved_far += 1;
		}
		let h = self.history.entry(b.id).or_default();
		if h.contains(&new) {
			self.stats.moved_back += 1;
		}
		h.push(user);
		self.note(1, new_size, l.align(), user, new);
		new as *mut u8
	}

	unsafe fn copy(&mut self, from: usize, to: usize, n: usize) {
		const P: usize = 4096;
		if n < HUGE || from % P != to % P {
			ptr::copy_nonoverlapping(from as *const u8, to as *mut u8, n);
			return;
		}
		// Move whole pages, copy the ends.
		self.stats.huge_moves += 1;
		let head = (P - from % P) % P;
		let pages = (n - head) / P * P;
		ptr::copy_nonoverlapping(from as *const u8, to as *mut u8, head);
		let tail = n - head - pages;
		ptr::copy_nonoverlapping((from + head + pages) as *const u8, (to + head + pages) as *mut u8, tail);
		let r = mremap((from + head) as *mut u8, pages, pages, 1 | 2, (to + head) as *mut u8);
		if r as usize != to + head {
			eprintln!("sim: mremap failed");
			std::process::exit(3);
		}
		let r = mmap(
			(from + head) as *mut u8,
			pages,
			PROT_RW,
			MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED,
			-1,
			0,
		);
		if r as usize != from + head {
			eprintln!("sim: mmap failed");
			std::process::exit(3);
		}
	}

	/// Check guards of all live blocks and poison of all freed ranges.
	pub fn check_all(&mut self) {
		let live: Vec<(usize, Block)> = self.live.iter().map(|(a, b)| (*a, *b)).collect();
		for (a, b) in live {
			unsafe { self.check_guards(a, &b) };
		}
		let freed = self.freed.clone();
		for (lo, hi) in freed {
			unsafe { self.check_poison(lo, hi) };
		}
	}

	/// Everything should have been released by now.
	pub fn check_leaks(&mut self) {
		let left: Vec<(usize, Block)> = self.live.iter().take(4).map(|(a, b)| (*a, *b)).collect();
		if !left.is_empty() {
			let n = self.live.len();
			self.violation(
				"heap-leak",
				format!("{} block(s) never released, e.g. {} bytes align {}", n, left[0].1.size, left[0].1.align),
			);
		}
	}
}
