//! Reference model of the output: an independent walker which knows how the
//! three formats represent values and where each item has to be placed, and
//! compares an output with the value it should represent.

use std::{
	mem::{self, MaybeUninit},
	num::*,
};

use num_bigint::{BigInt, BigUint};

use crate::{hooks::Rec, prng::Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
	Complete,
	PtrOff,
	/// also pointer-less position tracking serializers
	Pure,
}

pub fn align_up(n: usize, a: usize) -> usize {
	match n % a {
		0 => n,
		r => n.saturating_add(a - r),
	}
}

/// Index of the words of a `Vec`, found by looking at one.
#[derive(Clone, Copy)]
pub struct VecWords {
	pub ptr: usize,
	pub cap: usize,
	pub len: usize,
}
static mut WORDS: VecWords = VecWords { ptr: 0, cap: 0, len: 0 };
pub fn vec_words() -> VecWords {
	unsafe { WORDS }
}
pub fn init() {
	let mut v: Vec<u32> = Vec::with_capacity(7);
	v.extend_from_slice(&[1, 2, 3]);
	let w: [usize; 3] = unsafe { mem::transmute_copy(&v) };
	let find = |x: usize| w.iter().position(|y| *y == x).unwrap() * 8;
	unsafe { WORDS = VecWords { ptr: find(v.as_ptr() as usize), cap: find(v.capacity()), len: find(3) } };
}

pub struct Walk<'a> {
	pub mode: Mode,
	/// the written part of the output
	pub buf: &'a [u8],
	/// address pointers are relative to (complete format)
	pub base: usize,
	pub va: usize,
	pub mva: usize,
	/// layout model: where the next item goes
	pub cursor: usize,
	/// pushes seen by a simulated storage: (position, size)
	pub pushes: Option<&'a [(usize, usize)]>,
	pub push_i: usize,
	/// walking with the original input, which is still alive
	pub live: bool,
	/// a serializer which takes corrections
	pub fixes: bool,
	/// no corrections were issued
	pub no_corr: bool,
	/// compute the layout only
	pub blind: u32,
	pub recs: &'a [Rec],
	pub rec_i: usize,
	pub regions: Vec<(usize, usize)>,
	pub errs: Vec<(&'static str, String)>,
	/// highest capacity needed
	pub peak: usize,
	pub items: u64,
	pub ptrs: u64,
	pub vw: VecWords,
}

impl<'a> Walk<'a> {
	pub fn new(mode: Mode, buf: &'a [u8], base: usize, va: usize, mva: usize, cursor: usize) -> Walk<'a> {
		Walk {
			mode,
			buf,
			base,
			va,
			mva,
			cursor,
			pushes: None,
			push_i: 0,
			live: false,
			fixes: mode == Mode::Complete,
			no_corr: false,
			blind: 0,
			recs: &[],
			rec_i: 0,
			regions: Vec::new(),
			errs: Vec::new(),
			peak: 0,
			items: 0,
			ptrs: 0,
			vw: vec_words(),
		}
	}

	/// Walker which only computes the layout.
	pub fn dry(va: usize, mva: usize, cursor: usize) -> Walk<'static> {
		let mut w = Walk::new(Mode::Pure, &[], 0, va, mva, cursor);
		w.blind = 1;
		w
	}

	pub fn err(&mut self, class: &'static str, msg: String) {
		if self.blind == 0 && self.errs.len() < 16 {
			self.errs.push((class, msg));
		}
	}

	fn modelled(&self) -> bool {
		self.pushes.is_none()
	}

	/// The model's position for an item of `size` bytes.
	pub fn place(&mut self, size: usize, align: usize) -> usize {
		self.items += 1;
		if let Some(p) = self.pushes {
			if size == 0 {
				return self.cursor;
			}
			let (pos, n) = match p.get(self.push_i) {
				Some(x) => *x,
				None => {
					self.err("content", "an item is missing in the output".into());
					self.blind += 1;
					(self.cursor, size)
				}
			};
			self.push_i += 1;
			if n != size {
				self.err("content", format!("item {} of the output has {} bytes, expected {}", self.push_i, n, size));
			}
			self.cursor = pos + size;
			return pos;
		}
		let pos = align_up(self.cursor, align.max(self.va));
		self.peak = self.peak.max(pos.saturating_add(size));
		self.cursor = align_up(pos.saturating_add(size), self.va);
		pos
	}

	/// Space reserved by user code, which nothing was written to.
	pub fn place_empty(&mut self, size: usize, align: usize) -> Option<usize> {
		if self.modelled() {
			Some(self.place(size, align))
		} else {
			None
		}
	}

	pub fn need_room(&mut self, n: usize) {
		self.peak = self.peak.max(self.cursor.saturating_add(n));
	}

	pub fn word(&mut self, pos: usize) -> Option<usize> {
		if self.blind > 0 {
			return None;
		}
		match self.buf.get(pos..pos.wrapping_add(8)) {
			Some(b) => Some(usize::from_ne_bytes(b.try_into().unwrap())),
			None => {
				self.err("range", format!("position {:#x} is outside of the output ({:#x} bytes)", pos, self.buf.len()));
				None
			}
		}
	}

	pub fn bytes(&mut self, pos: usize, want: &[u8], what: &str) {
		self.bytes_as("content", pos, want, what)
	}

	pub fn bytes_as(&mut self, class: &'static str, pos: usize, want: &[u8], what: &str) {
		if self.blind > 0 || want.is_empty() {
			return;
		}
		match self.buf.get(pos..pos.wrapping_add(want.len())) {
			None => self.err("range", format!("{} at {:#x} is outside of the output ({:#x} bytes)", what, pos, self.buf.len())),
			Some(got) => {
				if got != want {
					let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
					self.err(
						class,
						format!("{} at {:#x}: byte {} of {} is {:#04x}, expected {:#04x}", what, pos, i, want.len(), got[i], want[i]),
					);
				}
			}
		}
	}

	pub fn raw<T>(&mut self, pos: usize, v: &T, what: &str) {
		let b = unsafe { std::slice::from_raw_parts(v as *const T as *const u8, mem::size_of::<T>()) };
		self.bytes(pos, b, what);
	}

	/// Is the enum at `pos` in the variant of `v`?
	pub fn variant<T>(&mut self, pos: usize, v: &T) {
		if self.blind > 0 {
			return;
		}
		let n = mem::size_of::<T>();
		match self.buf.get(pos..pos + n) {
			None => self.err("range", format!("enum at {:#x} is outside of the output", pos)),
			Some(b) => {
				let mut t = MaybeUninit::<T>::uninit();
				let same = unsafe {
					std::ptr::copy_nonoverlapping(b.as_ptr(), t.as_mut_ptr() as *mut u8, n);
					mem::discriminant(&*t.as_ptr()) == mem::discriminant(v)
				};
				if !same {
					self.err("content", format!("enum at {:#x} is another variant", pos));
				}
			}
		}
	}

	/// Find the pointee of the pointer at `ptr_pos`. Always pair with `leave`.
	pub fn enter(&mut self, ptr_pos: usize, orig: usize, size: usize, align: usize, what: &str) -> usize {
		self.ptrs += 1;
		let model = self.place(size, align);
		if self.blind > 0 {
			self.blind += 1;
			return model;
		}
		let word = match self.word(ptr_pos) {
			Some(w) => w,
			None => {
				self.blind += 1;
				return model;
			}
		};
		let pos = match self.mode {
			Mode::Pure => {
				if self.live && word != orig {
					self.err("rawptr", format!("pointer of {} at {:#x} is {:#x}, in the input it is {:#x}", what, ptr_pos, word, orig));
				}
				model
			}
			Mode::PtrOff => word,
			Mode::Complete => word.wrapping_sub(self.base),
		};
		if pos > self.buf.len() || size > self.buf.len() - pos {
			self.err(
				"ptr-range",
				format!(
					"pointer of {} at {:#x} is {:#x}: {} bytes there are not inside the output ({:#x} bytes at {:#x})",
					what,
					ptr_pos,
					word,
					size,
					self.buf.len(),
					self.base
				),
			);
			self.blind += 1;
			return model;
		}
		if pos % align != 0 || (self.mode == Mode::Complete && word % align != 0) {
			self.err("ptr-align", format!("pointer of {} at {:#x} is {:#x}, not aligned to {}", what, ptr_pos, word, align));
		}
		if pos != model && self.modelled() {
			self.err("layout", format!("{} ({} bytes, align {}) is at {:#x}, expected at {:#x}", what, size, align, pos, model));
		}
		if size > 0 {
			self.regions.push((pos, pos + size));
		}
		pos
	}

	pub fn leave(&mut self, before: u32) {
		self.blind = before;
	}

	/// Next record left by user code.
	pub fn rec(&mut self) -> Option<Rec> {
		let r = self.recs.get(self.rec_i).copied();
		self.rec_i += 1;
		if r.is_none() && self.blind == 0 {
			self.err("records", "user code was called less often than it should have been".into());
		}
		r
	}

	/// Values of fields which hold pointers and capacities of empty containers.
	pub fn vec_head<T>(&mut self, pos: usize, v_ptr: usize, v_cap_word: usize, len: usize, what: &str) {
		let vw = self.vw;
		if let Some(l) = self.word(pos + vw.len) {
			if l != len {
				self.err("content", format!("length of {} at {:#x} is {}, expected {}", what, pos, l, len));
			}
		}
		let zst = mem::size_of::<T>() == 0;
		if let Some(c) = self.word(pos + vw.cap) {
			if self.fixes && !zst {
				if c != len {
					self.err("cap", format!("capacity of {} at {:#x} is {}, its length is {}", what, pos, c, len));
				}
			} else if self.live && c != v_cap_word {
				self.err("rawptr", format!("capacity of {} at {:#x} is {}, in the input it is {}", what, pos, c, v_cap_word));
			}
		}
		if len == 0 || zst {
			if let Some(p) = self.word(pos + vw.ptr) {
				if self.fixes && !zst {
					if p != mem::align_of::<T>() {
						self.err("dangling", format!("pointer of empty {} at {:#x} is {:#x}", what, pos, p));
					}
				} else if self.live && p != v_ptr {
					self.err("rawptr", format!("pointer of empty {} at {:#x} is {:#x}, in the input it is {:#x}", what, pos, p, v_ptr));
				}
			}
		}
	}

	/// Pairwise disjoint?
	pub fn overlaps(regions: &mut Vec<(usize, usize)>) -> Option<String> {
		regions.sort();
		for p in regions.windows(2) {
			if p[0].1 > p[1].0 {
				return Some(format!(
					"regions {:#x}..{:#x} and {:#x}..{:#x} overlap",
					p[0].0, p[0].1, p[1].0, p[1].1
				));
			}
		}
		None
	}
}

/// Generator of values. What is generated depends on the seed only.
pub struct G {
	pub rng: Rng,
	pub fuel: i64,
	pub depth: u32,
	/// may contain callbacks doing something to the storage
	pub acts: bool,
	/// the next callback leaves a huge gap
	pub far: bool,
	/// parts may be left out after having been serialized
	pub late: bool,
	pub ids: u32,
}

impl G {
	pub fn new(seed: u64, size: u64, acts: bool) -> G {
		G { rng: Rng::new(seed), fuel: size as i64, depth: 0, acts, far: false, late: false, ids: 0 }
	}
	/// Also words which look like an offset, or like an address of a buffer.
	pub fn word(&mut self) -> u64 {
		match self.rng.below(32) {
			0 => crate::heap::near(&mut self.rng),
			1 => self.rng.skewed(4096),
			2 => u64::MAX - self.rng.below(2),
			_ => self.rng.next(),
		}
	}
	pub fn len(&mut self, max: u64) -> usize {
		let f = self.fuel.max(0) as u64;
		let n = self.rng.skewed(max.min(f + 1)) as usize;
		self.fuel -= n as i64;
		n
	}
}

/// A value which can be generated, and found in an output.
pub trait Node: Sized {
	/// every byte is significant and is copied as it is
	const PLAIN: bool = false;
	fn gen(g: &mut G) -> Self;
	/// Compare what is at `pos` with `self`, going through everything it owns
	/// in the order in which it has to be serialized.
	fn walk(&self, w: &mut Walk, pos: usize);
}

#[macro_export]
macro_rules! off {
	($outer:expr, $inner:expr) => {
		($inner as *const _ as *const u8 as usize) - ($outer as *const _ as *const u8 as usize)
	};
}

macro_rules! plain {
	($($t:ty, $g:ident => $e:expr;)*) => { $(
		impl Node for $t {
			const PLAIN: bool = true;
			#[inline]
			fn gen($g: &mut G) -> Self { $e }
			#[inline]
			fn walk(&self, w: &mut Walk, pos: usize) { w.raw(pos, self, stringify!($t)); }
		}
	)* };
}

plain! {
	u8, g => g.rng.next() as u8;
	u16, g => g.rng.next() as u16;
	u32, g => g.rng.next() as u32;
	u64, g => g.word();
	u128, g => (g.rng.next() as u128) << 64 | g.rng.next() as u128;
	usize, g => g.word() as usize;
	i8, g => g.rng.next() as i8;
	i16, g => g.rng.next() as i16;
	i32, g => g.rng.next() as i32;
	i64, g => g.word() as i64;
	i128, g => ((g.rng.next() as u128) << 64 | g.rng.next() as u128) as i128;
	isize, g => g.word() as isize;
	f32, g => (g.rng.next() as i32 as f32) * 0.37;
	f64, g => (g.rng.next() as i64 as f64) * 0.37;
	bool, g => g.rng.chance(500);
	char, g => char::from_u32(g.rng.range(1, 0xd7ff) as u32).unwrap();
	NonZeroU8, g => NonZeroU8::new(g.rng.range(1, 255) as u8).unwrap();
	NonZeroU16, g => NonZeroU16::new(g.rng.range(1, 65535) as u16).unwrap();
	NonZeroU32, g => NonZeroU32::new(g.rng.next() as u32 | 1).unwrap();
	NonZeroU64, g => NonZeroU64::new(g.rng.next() | 1).unwrap();
	NonZeroU128, g => NonZeroU128::new(g.rng.next() as u128 | 1 << 100).unwrap();
	NonZeroUsize, g => NonZeroUsize::new(g.rng.next() as usize | 1).unwrap();
	NonZeroI8, g => NonZeroI8::new(g.rng.next() as i8 | 1).unwrap();
	NonZeroI16, g => NonZeroI16::new(g.rng.next() as i16 | 1).unwrap();
	NonZeroI32, g => NonZeroI32::new(g.rng.next() as i32 | 1).unwrap();
	NonZeroI64, g => NonZeroI64::new(g.rng.next() as i64 | 1).unwrap();
	NonZeroI128, g => NonZeroI128::new(g.rng.next() as i128 | 1 << 90).unwrap();
	NonZeroIsize, g => NonZeroIsize::new(g.rng.next() as isize | 1).unwrap();
}

impl Node for () {
	const PLAIN: bool = true;
	fn gen(_: &mut G) -> Self {}
	fn walk(&self, _: &mut Walk, _: usize) {}
}

impl<T: Node, const N: usize> Node for [T; N] {
	const PLAIN: bool = T::PLAIN;
	fn gen(g: &mut G) -> Self {
		std::array::from_fn(|_| T::gen(g))
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		if T::PLAIN {
			w.raw(pos, self, "array");
		} else {
			for (i, x) in self.iter().enumerate() {
				x.walk(w, pos + i * mem::size_of::<T>());
			}
		}
	}
}

macro_rules! tuple {
	($($i:tt $t:ident),*) => {
		impl<$($t: Node),*> Node for ($($t,)*) {
			fn gen(g: &mut G) -> Self { ($($t::gen(g),)*) }
			fn walk(&self, w: &mut Walk, pos: usize) {
				$( self.$i.walk(w, pos + off!(self, &self.$i)); )*
			}
		}
	};
}
tuple!(0 A);
tuple!(0 A, 1 B);
tuple!(0 A, 1 B, 2 C);
tuple!(0 A, 1 B, 2 C, 3 D);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X, 24 Y);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X, 24 Y, 25 Z);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X, 24 Y, 25 Z, 26 AA);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X, 24 Y, 25 Z, 26 AA, 27 AB);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X, 24 Y, 25 Z, 26 AA, 27 AB, 28 AC);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X, 24 Y, 25 Z, 26 AA, 27 AB, 28 AC, 29 AD);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X, 24 Y, 25 Z, 26 AA, 27 AB, 28 AC, 29 AD, 30 AE);
tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G_, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P, 16 Q, 17 R, 18 S, 19 T, 20 U, 21 V, 22 W, 23 X, 24 Y, 25 Z, 26 AA, 27 AB, 28 AC, 29 AD, 30 AE, 31 AF);

impl<T: Node> Node for Option<T> {
	fn gen(g: &mut G) -> Self {
		if g.fuel > 0 && g.rng.chance(700) {
			g.fuel -= 1;
			Some(T::gen(g))
		} else {
			None
		}
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		w.variant(pos, self);
		if let Some(x) = self {
			x.walk(w, pos + off!(self, x));
		}
	}
}

impl<T: Node> Node for Box<T> {
	fn gen(g: &mut G) -> Self {
		g.depth += 1;
		let x = Box::new(T::gen(g));
		g.depth -= 1;
		x
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let orig = &**self as *const T as usize;
		if mem::size_of::<T>() == 0 {
			if let (true, Some(p)) = (w.live, w.word(pos)) {
				if p != orig {
					w.err("rawptr", format!("pointer of empty box at {:#x} is {:#x}, in the input it is {:#x}", pos, p, orig));
				}
			}
			return;
		}
		let before = w.blind;
		let at = w.enter(pos, orig, mem::size_of::<T>(), mem::align_of::<T>(), "box");
		(**self).walk(w, at);
		w.leave(before);
	}
}

/// Walk a slice reached by the pointer at `ptr_pos`.
pub fn walk_slice<T: Node>(s: &[T], w: &mut Walk, ptr_pos: usize, what: &str) {
	let before = w.blind;
	let at = w.enter(ptr_pos, s.as_ptr() as usize, mem::size_of_val(s), mem::align_of::<T>(), what);
	if T::PLAIN {
		let b = unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, mem::size_of_val(s)) };
		w.bytes(at, b, what);
	} else {
		for (i, x) in s.iter().enumerate() {
			x.walk(w, at + i * mem::size_of::<T>());
		}
	}
	w.leave(before);
}

pub fn cap_word<T>(v: &Vec<T>, vw: VecWords) -> usize {
	unsafe { *((v as *const Vec<T> as *const u8).add(vw.cap) as *const usize) }
}

pub fn gen_vec<T: Node>(g: &mut G, max: u64) -> Vec<T> {
	g.depth += 1;
	let n = g.len(max);
	// Exact capacity, spare capacity or emptied.
	let spare = match g.rng.below(4) {
		0 | 1 => 0,
		2 => g.rng.skewed(12) as usize,
		_ => 1,
	};
	let mut v = Vec::with_capacity(n + spare);
	for _ in 0..n {
		v.push(T::gen(g));
	}
	g.depth -= 1;
	v
}

impl<T: Node> Node for Vec<T> {
	fn gen(g: &mut G) -> Self {
		gen_vec(g, 40)
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let vw = w.vw;
		w.vec_head::<T>(pos, self.as_ptr() as usize, cap_word(self, vw), self.len(), "vec");
		if mem::size_of::<T>() == 0 || self.is_empty() {
			return;
		}
		walk_slice(self, w, pos + vw.ptr, "vec");
	}
}

impl Node for String {
	fn gen(g: &mut G) -> Self {
		let n = g.len(60);
		let spare = if g.rng.chance(500) { g.rng.skewed(20) as usize } else { 0 };
		let mut s = String::with_capacity(n + spare);
		while s.len() + 4 <= n {
			s.push(char::from_u32(g.rng.range(32, 0xd000) as u32).unwrap());
		}
		while s.len() < n {
			s.push((b'a' + g.rng.below(26) as u8) as char);
		}
		s
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let vw = w.vw;
		w.vec_head::<u8>(pos, self.as_ptr() as usize, self.capacity(), self.len(), "string");
		if self.is_empty() {
			return;
		}
		walk_slice(self.as_bytes(), w, pos + vw.ptr, "string");
	}
}

impl Node for BigUint {
	fn gen(g: &mut G) -> Self {
		let n = g.len(9);
		let mut x = BigUint::from(0u32);
		for _ in 0..n {
			x = (x << 64u32) + g.rng.next();
		}
		if g.rng.chance(300) {
			// leaves spare capacity behind
			x = x >> (64 * g.rng.below(n as u64 + 1));
		} else if g.rng.chance(150) {
			// zero (or one) with digits to spare
			let left = g.rng.below(2);
			let mut y = BigUint::from(1u32) << 64u32;
			y -= BigUint::from(1 + left);
			y -= BigUint::from(u64::MAX - left);
			y += BigUint::from(left);
			return y;
		}
		x
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		// A wrapper of `Vec<u64>`; the digits are checked against the number itself.
		let v: &Vec<u64> = unsafe { &*(self as *const BigUint as *const Vec<u64>) };
		let digits = self.to_u64_digits();
		let vw = w.vw;
		w.vec_head::<u64>(pos, v.as_ptr() as usize, v.capacity(), digits.len(), "big integer");
		if digits.is_empty() {
			return;
		}
		let before = w.blind;
		let at = w.enter(pos + vw.ptr, v.as_ptr() as usize, digits.len() * 8, 8, "big integer");
		let b = unsafe { std::slice::from_raw_parts(digits.as_ptr() as *const u8, digits.len() * 8) };
		w.bytes(at, b, "big integer");
		w.leave(before);
	}
}

impl Node for BigInt {
	fn gen(g: &mut G) -> Self {
		let x = BigInt::from_biguint(num_bigint::Sign::Plus, BigUint::gen(g));
		if g.rng.chance(500) {
			-x
		} else {
			x
		}
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let m = self.magnitude();
		let o = off!(self, m);
		// The sign is the first byte of the other part.
		let sign_at = if o == 0 { 24 } else { 0 };
		let s = unsafe { *(self as *const BigInt as *const u8).add(sign_at) };
		w.bytes(pos + sign_at, &[s], "sign");
		m.walk(w, pos + o);
	}
}

/// Where static memory of the walker is.
pub fn statics() -> Vec<usize> {
	unsafe {
		vec![
			std::ptr::addr_of!(WORDS.ptr) as usize,
			std::ptr::addr_of!(WORDS.cap) as usize,
			std::ptr::addr_of!(WORDS.len) as usize,
		]
	}
}
