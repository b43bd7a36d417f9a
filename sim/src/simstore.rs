//! A storage implementation meeting the `Storage` contract in unusual ways, which
//! checks that it is called as the contract says.

use std::{
	alloc::{self, Layout},
	cell::Cell,
	mem, ptr, slice,
};

use ser_raw::storage::{ContiguousStorage, RandomAccessStorage, Storage};

use crate::{heap::harness, prng::Rng};

/// Payload of an injected refusal of a storage.
pub struct SimRefuse;

#[derive(Clone, Copy, Debug, Default)]
pub struct SimCfg {
	pub seed: u64,
	/// chance (permille) of moving at a reservation which would fit
	pub relocate: u64,
	/// chance (permille) of skipping ahead at a reservation
	pub skip: u64,
	/// 0 exactly what is needed, 1 powers of 2, 2 some more
	pub growth: u64,
	/// refuse this (1-based) reservation; 0 never
	pub refuse_at: u64,
}

#[derive(Default, Clone, Debug)]
pub struct SimStats {
	pub reserves: u64,
	pub relocations: u64,
	pub skips: u64,
	pub refusals: u64,
	pub pushes: u64,
	pub writes: u64,
}

#[thread_local]
static NEXT: Cell<SimCfg> = Cell::new(SimCfg { seed: 0, relocate: 0, skip: 0, growth: 0, refuse_at: 0 });
static mut STATS: SimStats =
	SimStats { reserves: 0, relocations: 0, skips: 0, refusals: 0, pushes: 0, writes: 0 };
static mut BROKEN: Vec<String> = Vec::new();

pub fn stats() -> &'static mut SimStats {
	unsafe { &mut STATS }
}
pub fn set_cfg(c: SimCfg) {
	NEXT.set(c);
}
pub fn broken() -> Vec<String> {
	unsafe { mem::take(&mut BROKEN) }
}
fn breach(msg: String) {
	unsafe {
		if BROKEN.len() < 8 {
			BROKEN.push(msg)
		}
	}
}

/// A storage may refuse before its maximum capacity.
const LARGEST: usize = 4 << 20;
/// Bytes moved by one storage, after which it moves only when it has to.
const MOVES: usize = 16 << 20;

pub struct SimStore<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	base: *mut u8,
	cap: usize,
	pos: usize,
	cfg: SimCfg,
	rng: Rng,
	n: u64,
	moved: usize,
	pub pushes: Vec<(usize, usize)>,
}

unsafe impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Send for SimStore<SA, MVA, VA, MAX> {}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> SimStore<SA, MVA, VA, MAX> {
	fn make(cap: usize) -> Self {
		let cfg = NEXT.get();
		let mut s = SimStore {
			base: SA as *mut u8,
			cap: 0,
			pos: 0,
			cfg,
			rng: Rng::new(cfg.seed),
			n: 0,
			moved: 0,
			pushes: harness(|| Vec::with_capacity(64)),
		};
		if cap > 0 {
			s.move_to(cap);
		}
		s
	}

	/// Always a new place.
	fn move_to(&mut self, new_cap: usize) {
		if new_cap > LARGEST {
			stats().refusals += 1;
			std::panic::panic_any(SimRefuse);
		}
		unsafe {
			let l = Layout::from_size_align(new_cap, SA).unwrap();
			let p = alloc::alloc(l);
			if p.is_null() {
				alloc::handle_alloc_error(l);
			}
			self.moved += self.cap;
			if self.cap > 0 {
				ptr::copy_nonoverlapping(self.base, p, self.cap.min(new_cap));
				alloc::dealloc(self.base, Layout::from_size_align(self.cap, SA).unwrap());
			}
			self.base = p;
			self.cap = new_cap;
		}
	}

	fn check<F: FnOnce() -> String>(&self, ok: bool, msg: F) -> bool {
		if !ok {
			harness(|| breach(format!("{} (pos={:#x}, capacity={:#x})", msg(), self.pos, self.cap)));
		}
		ok
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Drop for SimStore<SA, MVA, VA, MAX> {
	fn drop(&mut self) {
		if self.cap > 0 {
			unsafe { alloc::dealloc(self.base, Layout::from_size_align(self.cap, SA).unwrap()) };
		}
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Storage for SimStore<SA, MVA, VA, MAX> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		Self::make(0)
	}

	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		let ok = capacity > 0 && capacity <= MAX && capacity % MVA == 0;
		if !ok {
			harness(|| breach(format!("with_capacity_unchecked({}): not in 1..={} or not a multiple of {}", capacity, MAX, MVA)));
			return Self::make(MVA);
		}
		Self::make(capacity)
	}

	fn capacity(&self) -> usize {
		self.cap
	}

	fn pos(&self) -> usize {
		self.pos
	}

	unsafe fn set_pos(&mut self, new_pos: usize) {
		let a = self.check(new_pos <= self.cap, || format!("set_pos({:#x}) beyond the capacity", new_pos));
		let b = self.check(new_pos % VA == 0, || format!("set_pos({:#x}), which is not a multiple of {}", new_pos, VA));
		let _ = b;
		if a {
			self.pos = new_pos;
		}
	}

	unsafe fn push_slice_unchecked<T>(&mut self, s: &[T], size: usize) {
		stats().pushes += 1;
		let real = mem::size_of_val(s);
		let a = self.check(size == real, || {
			format!("push_slice_unchecked of {} bytes called with size {}", real, size)
		});
		let b = self.check(self.cap - self.pos >= real, || {
			format!("push_slice_unchecked of {} bytes without room for it", real)
		});
		let c = real == 0 && mem::size_of::<T>() == 0;
		let d = c
			|| self.check(self.pos % mem::align_of::<T>() == 0, || {
				format!("push_slice_unchecked at a position not aligned to {}", mem::align_of::<T>())
			});
		if !(a && b && d) {
			return;
		}
		if real > 0 {
			ptr::copy_nonoverlapping(s.as_ptr() as *const u8, self.base.add(self.pos), real);
			let at = self.pos;
			harness(|| self.pushes.push((at, real)));
		}
		self.pos += real;
	}

	fn reserve(&mut self, additional: usize) {
		stats().reserves += 1;
		self.n += 1;
		self.check(self.pos % VA == 0, || format!("reserve at a position which is not a multiple of {}", VA));
		if self.n == self.cfg.refuse_at {
			stats().refusals += 1;
			std::panic::panic_any(SimRefuse);
		}
		let mut skip = 0;
		if self.rng.chance(self.cfg.skip) {
			skip = MVA * (1 + self.rng.below(4) as usize);
		}
		let need = match self.pos.checked_add(additional) {
			Some(n) if n <= MAX => n,
			_ => {
				stats().refusals += 1;
				std::panic::panic_any(SimRefuse);
			}
		};
		let need = if skip > 0 && need.saturating_add(skip) <= MAX {
			stats().skips += 1;
			need + skip
		} else {
			skip = 0;
			need
		};
		let fit = (need + MVA - 1) / MVA * MVA;
		let moves = self.rng.chance(self.cfg.relocate) && self.moved < MOVES;
		if fit > self.cap || (moves && self.cap > 0) {
			let new_cap = match self.cfg.growth {
				_ if fit <= self.cap => self.cap,
				0 if self.moved < MOVES => fit,
				0 | 1 => fit.next_power_of_two().min(MAX),
				_ => (fit + MVA * self.rng.below(8) as usize).min(MAX),
			};
			stats().relocations += 1;
			self.move_to(new_cap);
		}
		self.pos += skip;
	}

	fn shrink_to_fit(&mut self) {
		let fit = (self.pos + MVA - 1) / MVA * MVA;
		if fit < self.cap && fit > 0 {
			self.move_to(fit);
		}
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> RandomAccessStorage
	for SimStore<SA, MVA, VA, MAX>
{
	unsafe fn write_slice<T>(&mut self, pos: usize, s: &[T]) {
		stats().writes += 1;
		let n = mem::size_of_val(s);
		let a = self.check(pos <= self.cap && n <= self.cap - pos, || {
			format!("write of {} bytes at {:#x} beyond the capacity", n, pos)
		});
		let b = self.check(pos % mem::align_of::<T>() == 0, || {
			format!("write at {:#x}, which is not aligned to {}", pos, mem::align_of::<T>())
		});
		if a && b {
			ptr::copy_nonoverlapping(s.as_ptr() as *const u8, self.base.add(pos), n);
		}
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		self.check(pos + mem::size_of::<T>() <= self.pos, || format!("read at {:#x} beyond the content", pos));
		&*(self.base.add(pos) as *const T)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		self.check(pos + mem::size_of::<T>() <= self.pos, || format!("read at {:#x} beyond the content", pos));
		&mut *(self.base.add(pos) as *mut T)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.check(self.cap > 0 && pos <= self.cap, || format!("pointer to {:#x} requested", pos));
		self.base.wrapping_add(pos)
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.check(self.cap > 0 && pos <= self.cap, || format!("pointer to {:#x} requested", pos));
		self.base.wrapping_add(pos)
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> ContiguousStorage
	for SimStore<SA, MVA, VA, MAX>
{
	fn as_ptr(&self) -> *const u8 {
		self.base
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.base
	}
}

#[allow(dead_code)]
pub fn bytes_of<T>(v: &T) -> &[u8] {
	unsafe { slice::from_raw_parts(v as *const T as *const u8, mem::size_of::<T>()) }
}

// --- Not contiguous ---

/// A storage in segments, each with memory of its own, somewhere else. An item which does
/// not fit in the rest of a segment goes to the next. Not `ContiguousStorage`: only the
/// methods for random access find the content.
pub struct SegStore<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> {
	segs: Vec<Seg>,
	pos: usize,
	cfg: SimCfg,
	rng: Rng,
	n: u64,
	moved: usize,
	pub pushes: Vec<(usize, usize)>,
	/// The content in one piece, for the simulator to look at.
	flat: Cell<*mut u8>,
}

#[derive(Clone, Copy)]
struct Seg {
	start: usize,
	len: usize,
	mem: *mut u8,
}

unsafe impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Send for SegStore<SA, MVA, VA, MAX> {}

const FLAT: Layout = unsafe { Layout::from_size_align_unchecked(LARGEST, 4096) };

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> SegStore<SA, MVA, VA, MAX> {
	fn make(cap: usize) -> Self {
		let cfg = NEXT.get();
		let mut s = SegStore {
			segs: harness(|| Vec::with_capacity(16)),
			pos: 0,
			cfg,
			rng: Rng::new(cfg.seed),
			n: 0,
			moved: 0,
			pushes: harness(|| Vec::with_capacity(64)),
			flat: Cell::new(ptr::null_mut()),
		};
		if cap > 0 {
			s.add(cap);
		}
		s
	}

	fn cap(&self) -> usize {
		self.segs.last().map_or(0, |s| s.start + s.len)
	}

	/// The segment something at `pos` goes to.
	fn at(&self, pos: usize) -> Option<usize> {
		self.segs.iter().position(|s| pos >= s.start && pos < s.start + s.len)
	}

	fn memory(&mut self, len: usize) -> *mut u8 {
		let l = Layout::from_size_align(len, SA).unwrap();
		let p = unsafe { alloc::alloc(l) };
		if p.is_null() {
			alloc::handle_alloc_error(l);
		}
		p
	}

	fn free(s: Seg) {
		unsafe { alloc::dealloc(s.mem, Layout::from_size_align(s.len, SA).unwrap()) };
	}

	fn add(&mut self, len: usize) {
		let start = self.cap();
		if len > MAX - start || start + len > LARGEST {
			stats().refusals += 1;
			std::panic::panic_any(SimRefuse);
		}
		let mem = self.memory(len);
		harness(|| self.segs.push(Seg { start, len, mem }));
	}

	/// Memory of a segment goes elsewhere.
	fn relocate(&mut self, i: usize, len: usize) {
		let old = self.segs[i];
		let mem = self.memory(len);
		unsafe { ptr::copy_nonoverlapping(old.mem, mem, old.len.min(len)) };
		self.segs[i] = Seg { start: old.start, len, mem };
		self.moved += len;
		stats().relocations += 1;
		Self::free(old);
	}

	/// Where `size` bytes at `pos` are, if they are in one segment.
	fn place(&self, pos: usize, size: usize) -> Option<*mut u8> {
		let s = self.segs.iter().find(|s| pos >= s.start && pos <= s.start + s.len && size <= s.start + s.len - pos)?;
		Some(s.mem.wrapping_add(pos - s.start))
	}

	fn check<F: FnOnce() -> String>(&self, ok: bool, msg: F) -> bool {
		if !ok {
			harness(|| breach(format!("{} (pos={:#x}, capacity={:#x}, in segments)", msg(), self.pos, self.cap())));
		}
		ok
	}

	/// All content in one piece.
	pub fn flat(&self) -> usize {
		harness(|| unsafe {
			if self.flat.get().is_null() {
				self.flat.set(alloc::alloc(FLAT));
			}
			let flat = self.flat.get();
			for s in &self.segs {
				if s.start < self.pos {
					ptr::copy_nonoverlapping(s.mem, flat.add(s.start), s.len.min(self.pos - s.start));
				}
			}
			flat as usize
		})
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Drop for SegStore<SA, MVA, VA, MAX> {
	fn drop(&mut self) {
		for s in &self.segs {
			Self::free(*s);
		}
		harness(|| {
			if !self.flat.get().is_null() {
				unsafe { alloc::dealloc(self.flat.get(), FLAT) };
			}
			drop(mem::take(&mut self.segs));
			drop(mem::take(&mut self.pushes));
		});
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Storage for SegStore<SA, MVA, VA, MAX> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		Self::make(0)
	}

	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		let _ = Self::ASSERT_ALIGNMENTS_VALID;
		let ok = capacity > 0 && capacity <= MAX && capacity % MVA == 0;
		if !ok {
			harness(|| breach(format!("with_capacity_unchecked({}): not in 1..={} or not a multiple of {}", capacity, MAX, MVA)));
			return Self::make(MVA);
		}
		Self::make(capacity)
	}

	fn capacity(&self) -> usize {
		self.cap()
	}

	fn pos(&self) -> usize {
		self.pos
	}

	unsafe fn set_pos(&mut self, new_pos: usize) {
		let a = self.check(new_pos <= self.cap(), || format!("set_pos({:#x}) beyond the capacity", new_pos));
		self.check(new_pos % VA == 0, || format!("set_pos({:#x}), which is not a multiple of {}", new_pos, VA));
		if a {
			self.pos = new_pos;
		}
	}

	unsafe fn push_slice_unchecked<T>(&mut self, s: &[T], size: usize) {
		stats().pushes += 1;
		let real = mem::size_of_val(s);
		let a = self.check(size == real, || format!("push_slice_unchecked of {} bytes called with size {}", real, size));
		let d = mem::size_of::<T>() == 0
			|| self.check(self.pos % mem::align_of::<T>() == 0, || {
				format!("push_slice_unchecked at a position not aligned to {}", mem::align_of::<T>())
			});
		if !(a && d) || real == 0 {
			return;
		}
		let to = self.at(self.pos).and_then(|_| self.place(self.pos, real));
		self.check(to.is_some(), || format!("push_slice_unchecked of {} bytes without room for it", real));
		if let Some(to) = to {
			ptr::copy_nonoverlapping(s.as_ptr() as *const u8, to, real);
			let at = self.pos;
			harness(|| self.pushes.push((at, real)));
			self.pos += real;
		}
	}

	fn reserve(&mut self, additional: usize) {
		stats().reserves += 1;
		self.n += 1;
		self.check(self.pos % VA == 0, || format!("reserve at a position which is not a multiple of {}", VA));
		if self.n == self.cfg.refuse_at || additional > LARGEST {
			stats().refusals += 1;
			std::panic::panic_any(SimRefuse);
		}
		let now = self.at(self.pos);
		if let Some(i) = now {
			if self.rng.chance(self.cfg.relocate) && self.moved < MOVES {
				let k = self.rng.below(i as u64 + 1) as usize;
				let len = self.segs[k].len;
				self.relocate(k, len);
			}
			let s = self.segs[i];
			if additional <= s.start + s.len - self.pos && !self.rng.chance(self.cfg.skip) {
				return;
			}
		}
		if additional == 0 {
			return;
		}
		stats().skips += 1;
		if let Some(s) = self.segs.iter().find(|s| s.start >= self.pos && s.start > 0 && s.len >= additional) {
			self.pos = s.start;
			return;
		}
		let fit = (additional + MVA - 1) / MVA * MVA;
		let len = match self.cfg.growth {
			0 => fit,
			1 => fit.max(256).next_power_of_two(),
			_ => fit + MVA * self.rng.below(8) as usize,
		};
		self.add(len.min((MAX - self.cap()).max(fit)));
		self.pos = self.segs.last().unwrap().start;
	}

	fn shrink_to_fit(&mut self) {
		while let Some(s) = self.segs.last().copied() {
			if s.start < self.pos || s.start == 0 {
				break;
			}
			Self::free(s);
			self.segs.pop();
		}
		if let Some(s) = self.segs.last().copied() {
			let fit = (self.pos.max(s.start + 1) - s.start + MVA - 1) / MVA * MVA;
			if fit < s.len {
				self.relocate(self.segs.len() - 1, fit);
			}
		}
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> RandomAccessStorage
	for SegStore<SA, MVA, VA, MAX>
{
	unsafe fn write_slice<T>(&mut self, pos: usize, s: &[T]) {
		stats().writes += 1;
		let n = mem::size_of_val(s);
		let to = self.place(pos, n);
		let a = self.check(to.is_some() || n == 0, || format!("write of {} bytes at {:#x} across segments or beyond the capacity", n, pos));
		let b = self.check(pos % mem::align_of::<T>() == 0, || {
			format!("write at {:#x}, which is not aligned to {}", pos, mem::align_of::<T>())
		});
		if a && b && n > 0 {
			ptr::copy_nonoverlapping(s.as_ptr() as *const u8, to.unwrap(), n);
		}
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		let p = self.place(pos, mem::size_of::<T>());
		self.check(p.is_some() && pos + mem::size_of::<T>() <= self.pos, || format!("read at {:#x} beyond the content", pos));
		&*(p.unwrap() as *const T)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		let p = self.place(pos, mem::size_of::<T>());
		self.check(p.is_some() && pos + mem::size_of::<T>() <= self.pos, || format!("read at {:#x} beyond the content", pos));
		&mut *(p.unwrap() as *mut T)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.check(!self.segs.is_empty() && pos <= self.cap(), || format!("pointer to {:#x} requested", pos));
		self.at(pos).and_then(|_| self.place(pos, 1)).or(self.place(pos, 0)).unwrap_or(SA as *mut u8)
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.ptr(pos) as *mut u8
	}
}
