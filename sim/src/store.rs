//! Runs of operations on a storage, compared with a model of it.

use ser_raw::{
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	util::{aligned_max_capacity, aligned_max_u32_capacity},
};

use crate::{
	heap::{self, heap},
	plan::{Op, Outcome, Plan, Viol},
	prng::mix,
	session::{call, heap_counts, pattern, policy, sim_cfg, Fail},
	simstore::{self, SimStore},
	walk::align_up,
};

#[derive(Clone, Copy)]
#[repr(align(16))]
pub struct E16(#[allow(dead_code)] [u8; 16]);
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct E32(#[allow(dead_code)] [u8; 32]);
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct E64(#[allow(dead_code)] [u8; 128]);
#[derive(Clone, Copy)]
#[repr(align(16))]
pub struct Z16;

/// (size, align) of the element types.
pub const ELEMS: [(usize, usize); 18] = [
	(1, 1),
	(2, 2),
	(4, 4),
	(8, 8),
	(16, std::mem::align_of::<u128>()),
	(3, 1),
	(6, 2),
	(20, 4),
	(0, 1),
	(0, 8),
	(16, 16),
	(32, 32),
	(128, 64),
	(100, 1),
	(0, 16),
	(24, 8),
	(5001, 1),
	(602, 2),
];

pub trait DynS {
	fn push(&mut self, e: usize, b: &[u8]) -> usize;
	fn push_slice(&mut self, e: usize, b: &[u8], n: usize) -> usize;
	fn unchecked(&mut self, e: usize, b: &[u8], n: usize) -> usize;
	fn push_bytes(&mut self, b: &[u8]) -> usize;
	fn push_empty(&mut self, e: usize) -> usize;
	fn push_empty_slice(&mut self, e: usize, n: usize) -> usize;
	unsafe fn write(&mut self, e: usize, pos: usize, b: &[u8]);
	unsafe fn write_slice(&mut self, e: usize, pos: usize, b: &[u8], n: usize);
	unsafe fn write_through(&mut self, e: usize, pos: usize, b: &[u8]);
	unsafe fn read(&mut self, e: usize, pos: usize) -> Vec<u8>;
	unsafe fn ptrs(&mut self, pos: usize) -> [usize; 4];
	fn reserve(&mut self, n: usize);
	fn shrink(&mut self);
	fn clear(&mut self);
	unsafe fn set_pos(&mut self, p: usize);
	unsafe fn align(&mut self, a: usize);
	fn align_for(&mut self, e: usize);
	fn state(&self) -> (usize, usize, usize);
	fn create(&mut self, how: u64, cap: usize);
	fn drop_it(&mut self);
	fn present(&self) -> bool;
}

pub struct SCfg {
	pub name: &'static str,
	pub sa: usize,
	pub mva: usize,
	pub va: usize,
	pub max: usize,
	pub sim: bool,
	pub elems: &'static [u64],
	pub make: fn() -> Box<dyn DynS>,
}

struct H<St>(Option<St>);

fn typed<T: Copy>(b: &[u8], n: usize) -> Vec<T> {
	heap::harness(|| {
		let mut v: Vec<T> = Vec::with_capacity(n);
		unsafe {
			std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, n * std::mem::size_of::<T>());
			v.set_len(n);
		}
		v
	})
}

macro_rules! store_cfg {
	($m:ident, $Base:ident, $SA:literal, $MVA:literal, $VA:literal, $MAX:expr, $sim:literal, [$($e:literal $T:ty),*]) => {
		mod $m {
			use super::*;
			const MAX: usize = $MAX;
			type St = $Base<$SA, $MVA, $VA, MAX>;
			impl H<St> {
				fn s(&mut self) -> &mut St {
					self.0.as_mut().unwrap()
				}
			}
			impl DynS for H<St> {
				fn push(&mut self, e: usize, b: &[u8]) -> usize {
					match e { $( $e => { let v = typed::<$T>(b, 1); self.s().push(&v[0]) } )* _ => unreachable!() }
				}
				fn push_slice(&mut self, e: usize, b: &[u8], n: usize) -> usize {
					match e { $( $e => { let v = typed::<$T>(b, n); self.s().push_slice(&v) } )* _ => unreachable!() }
				}
				fn unchecked(&mut self, e: usize, b: &[u8], n: usize) -> usize {
					match e { $( $e => {
						let v = typed::<$T>(b, n);
						let s = self.s();
						s.align_for::<$T>();
						let size = std::mem::size_of::<$T>() * n;
						s.reserve(size);
						let p = s.pos();
						unsafe { s.push_slice_unchecked(&v, size) };
						s.align_after::<$T>();
						p
					} )* _ => unreachable!() }
				}
				fn push_bytes(&mut self, b: &[u8]) -> usize {
					self.s().push_bytes(b)
				}
				fn push_empty(&mut self, e: usize) -> usize {
					match e { $( $e => self.s().push_empty::<$T>(), )* _ => unreachable!() }
				}
				fn push_empty_slice(&mut self, e: usize, n: usize) -> usize {
					match e { $( $e => self.s().push_empty_slice::<$T>(n), )* _ => unreachable!() }
				}
				unsafe fn write(&mut self, e: usize, pos: usize, b: &[u8]) {
					match e { $( $e => { let v = typed::<$T>(b, 1); self.s().write(pos, &v[0]) } )* _ => unreachable!() }
				}
				unsafe fn write_slice(&mut self, e: usize, pos: usize, b: &[u8], n: usize) {
					match e { $( $e => { let v = typed::<$T>(b, n); self.s().write_slice(pos, &v) } )* _ => unreachable!() }
				}
				unsafe fn write_through(&mut self, e: usize, pos: usize, b: &[u8]) {
					match e { $( $e => { let v = typed::<$T>(b, 1); *self.s().read_mut::<$T>(pos) = v[0]; } )* _ => unreachable!() }
				}
				unsafe fn read(&mut self, e: usize, pos: usize) -> Vec<u8> {
					match e { $( $e => {
						let r: *const $T = self.s().read::<$T>(pos);
						heap::harness(|| std::slice::from_raw_parts(r as *const u8, std::mem::size_of::<$T>()).to_vec())
					} )* _ => unreachable!() }
				}
				unsafe fn ptrs(&mut self, pos: usize) -> [usize; 4] {
					let s = self.s();
					[s.as_ptr() as usize, s.as_mut_ptr() as usize, s.ptr(pos) as usize, s.mut_ptr(pos) as usize]
				}
				fn reserve(&mut self, n: usize) {
					self.s().reserve(n)
				}
				fn shrink(&mut self) {
					self.s().shrink_to_fit()
				}
				fn clear(&mut self) {
					self.s().clear()
				}
				unsafe fn set_pos(&mut self, p: usize) {
					self.s().set_pos(p)
				}
				unsafe fn align(&mut self, a: usize) {
					if a == $VA { self.s().align_after_any() } else { self.s().align(a) }
				}
				fn align_for(&mut self, e: usize) {
					match e { $( $e => { self.s().align_for::<$T>(); self.s().align_after::<$T>(); } )* _ => unreachable!() }
				}
				fn state(&self) -> (usize, usize, usize) {
					let s = self.0.as_ref().unwrap();
					(s.pos(), s.capacity(), s.as_ptr() as usize)
				}
				fn create(&mut self, how: u64, cap: usize) {
					self.0 = None;
					self.0 = Some(match how {
						0 => St::new(),
						1 => St::with_capacity(cap),
						_ => unsafe { St::with_capacity_unchecked(cap) },
					});
				}
				fn drop_it(&mut self) {
					self.0 = None;
				}
				fn present(&self) -> bool {
					self.0.is_some()
				}
			}
			pub static CFG: SCfg = SCfg {
				name: concat!(stringify!($Base), "<", $SA, ",", $MVA, ",", $VA, ",", stringify!($MAX), ">"),
				sa: $SA, mva: $MVA, va: $VA, max: MAX, sim: $sim,
				elems: &[$($e),*],
				make: || Box::new(H::<St>(None)),
			};
		}
	};
	(e1 $($x:tt)*) => { store_cfg!($($x)*, [0 u8, 5 [u8; 3], 8 (), 13 [u8; 100], 16 [u8; 5001]]); };
	(e2 $($x:tt)*) => { store_cfg!($($x)*, [0 u8, 5 [u8; 3], 8 (), 13 [u8; 100], 1 u16, 6 [u16; 3], 16 [u8; 5001], 17 [u16; 301]]); };
	(e8 $($x:tt)*) => { store_cfg!($($x)*, [0 u8, 5 [u8; 3], 8 (), 13 [u8; 100], 1 u16, 6 [u16; 3], 16 [u8; 5001], 17 [u16; 301], 2 u32, 3 u64, 4 u128, 7 [u32; 5], 9 [u64; 0], 15 [u64; 3]]); };
	(e16 $($x:tt)*) => { store_cfg!($($x)*, [0 u8, 5 [u8; 3], 8 (), 13 [u8; 100], 1 u16, 6 [u16; 3], 16 [u8; 5001], 17 [u16; 301], 2 u32, 3 u64, 4 u128, 7 [u32; 5], 9 [u64; 0], 15 [u64; 3], 10 E16, 14 Z16]); };
	(e64 $($x:tt)*) => { store_cfg!($($x)*, [0 u8, 5 [u8; 3], 8 (), 13 [u8; 100], 1 u16, 6 [u16; 3], 16 [u8; 5001], 17 [u16; 301], 2 u32, 3 u64, 4 u128, 7 [u32; 5], 9 [u64; 0], 15 [u64; 3], 10 E16, 14 Z16, 11 E32, 12 E64]); };
}

const DEF: usize = aligned_max_capacity(4096);
store_cfg!(e16 s0, AlignedVec, 16, 16, 8, DEF, false);
store_cfg!(e1 s1, AlignedVec, 1, 1, 1, aligned_max_capacity(1), false);
store_cfg!(e64 s2, AlignedVec, 64, 64, 1, DEF, false);
store_cfg!(e64 s3, AlignedVec, 64, 64, 64, DEF, false);
store_cfg!(e16 s4, AlignedVec, 32, 16, 4, DEF, false);
store_cfg!(e64 s5, AlignedVec, 4096, 64, 8, DEF, false);
store_cfg!(e16 s6, AlignedVec, 16, 16, 8, 112, false);
store_cfg!(e16 s7, AlignedVec, 16, 16, 16, 1024, false);
store_cfg!(e8 s8, AlignedVec, 8, 8, 1, 1000, false);
store_cfg!(e2 s9, AlignedVec, 2, 2, 1, 6, false);
store_cfg!(e64 s10, AlignedVec, 64, 64, 2, 65600, false);
store_cfg!(e16 s11, AlignedVec, 16, 16, 8, aligned_max_u32_capacity(16), false);
store_cfg!(e8 s12, AlignedVec, 16, 8, 8, 5160, false);
store_cfg!(e16 s13, SimStore, 16, 16, 8, DEF, true);
store_cfg!(e64 s14, SimStore, 64, 64, 1, 16320, true);
store_cfg!(e64 s15, SimStore, 64, 64, 64, 4096, true);

pub static SCFGS: [&SCfg; 16] = [
	&s0::CFG, &s1::CFG, &s2::CFG, &s3::CFG, &s4::CFG, &s5::CFG, &s6::CFG, &s7::CFG, &s8::CFG, &s9::CFG, &s10::CFG,
	&s11::CFG, &s12::CFG, &s13::CFG, &s14::CFG, &s15::CFG,
];
pub const S_ALL: [u64; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
pub const S_LIMITED: [u64; 7] = [6, 7, 8, 9, 10, 11, 12];
pub const S_SIM: [u64; 3] = [13, 14, 15];

struct Item {
	pos: usize,
	len: usize,
	/// content, unless it is a gap
	bytes: Option<Vec<u8>>,
}

struct Run<'a> {
	plan: &'a Plan,
	c: &'static SCfg,
	s: Box<dyn DynS>,
	items: Vec<Item>,
	armed: bool,
	out: Outcome,
	since_check: u32,
}

fn npot(n: u128) -> u128 {
	n.next_power_of_two()
}

impl<'a> Run<'a> {
	fn viol(&mut self, op: usize, class: &str, msg: String) {
		if self.out.viols.len() < 24 {
			self.out.viols.push(Viol { class: class.into(), msg, op, input: None });
		}
	}

	fn bytes(&self, pos: usize, len: usize) -> Option<&'static [u8]> {
		let st = self.s.state();
		if len == 0 {
			return Some(&[]);
		}
		if pos.checked_add(len).map_or(true, |e| e > st.0) || !heap().is_live(st.2 + pos, len) {
			return None;
		}
		Some(unsafe { std::slice::from_raw_parts((st.2 + pos) as *const u8, len) })
	}

	/// All content against the model.
	fn check_content(&mut self, op: usize, class: &'static str) {
		self.since_check = 0;
		self.out.count("content_checks", 1);
		let mut bad = None;
		for it in &self.items {
			if let Some(b) = &it.bytes {
				match self.bytes(it.pos, b.len()) {
					None => {
						bad = Some(format!("item of {} bytes at {:#x} is not readable", b.len(), it.pos));
						break;
					}
					Some(got) if got != &b[..] => {
						let i = got.iter().zip(b).position(|(x, y)| x != y).unwrap();
						bad = Some(format!(
							"item of {} bytes at {:#x}: byte {} is {:#04x}, expected {:#04x}",
							b.len(),
							it.pos,
							i,
							got[i],
							b[i]
						));
						break;
					}
					_ => {}
				}
			}
		}
		if let Some(m) = bad {
			self.viol(op, class, m);
		}
	}

	fn check_rules(&mut self, op: usize) {
		let (pos, cap, base) = self.s.state();
		let c = self.c;
		if cap % c.mva != 0 || cap > c.max {
			self.viol(op, "cap-rule", format!("capacity {:#x} is not a multiple of {} up to {:#x}", cap, c.mva, c.max));
		}
		if pos > cap {
			self.viol(op, "cap-rule", format!("position {:#x} is beyond the capacity {:#x}", pos, cap));
		}
		if pos % c.va != 0 {
			self.viol(op, "pos", format!("position {:#x} is not a multiple of {}", pos, c.va));
		}
		if cap > 0 {
			if base % c.sa != 0 {
				self.viol(op, "cap-rule", format!("buffer at {:#x} is not aligned to {}", base, c.sa));
			}
			match heap().block(base) {
				Some(b) if b.size == cap => {}
				Some(b) => self.viol(op, "cap-rule", format!("capacity is {:#x}, the buffer has {:#x} bytes", cap, b.size)),
				None => self.viol(op, "cap-rule", format!("buffer at {:#x} is not a live block", base)),
			}
		}
	}

	/// Capacity after an operation which needed room up to `need`.
	fn grown(&self, cap: usize, need: u128) -> usize {
		if need <= cap as u128 {
			cap
		} else {
			let n = npot(need).max(self.c.mva as u128);
			if n > self.c.max as u128 {
				self.c.max
			} else {
				n as usize
			}
		}
	}

	/// The operation failed: nothing but padding may have happened.
	fn check_failed(&mut self, op: usize, before: (usize, usize, usize), align: usize, what: &str) {
		let st = self.s.state();
		let c = self.c;
		self.out.failed.push(op);
		self.out.count("failed_ops", 1);
		if !c.sim {
			if st.1 != before.1 || st.2 != before.2 {
				self.viol(
					op,
					"fail-state",
					format!(
						"after the failed {} the buffer is at {:#x} with capacity {:#x}, before at {:#x} with {:#x}",
						what, st.2, st.1, before.2, before.1
					),
				);
			}
			if st.0 != before.0 && st.0 != align_up(before.0, align.max(c.va)) {
				self.viol(op, "fail-state", format!("after the failed {} the position is {:#x}, before {:#x}", what, st.0, before.0));
			}
		} else if st.0 < before.0 {
			self.viol(op, "fail-state", format!("after the failed {} the position is {:#x}, before {:#x}", what, st.0, before.0));
		}
		self.check_content(op, "fail-state");
	}

	/// Returns whether it was a refusal.
	fn judge(&mut self, op: usize, f: Fail, must: bool, before: (usize, usize, usize), align: usize, what: &str) -> bool {
		match f {
			Fail::Refused => {
				self.out.count("refused_ops", 1);
				self.check_failed(op, before, align, what);
				true
			}
			Fail::Other(_) if must => {
				self.out.count("limit_ops", 1);
				self.check_failed(op, before, align, what);
				false
			}
			Fail::Other(m) => {
				self.viol(op, "unexpected-panic", format!("{} panicked: {}", what, m));
				self.check_failed(op, before, align, what);
				false
			}
			Fail::User => false,
		}
	}

	fn add(&mut self, pos: usize, len: usize, bytes: Option<Vec<u8>>) {
		if len > 0 {
			self.items.push(Item { pos, len, bytes });
		}
	}

	/// A push of any kind. Returns false if it was refused.
	#[allow(clippy::too_many_arguments)]
	fn push(
		&mut self,
		op: usize,
		armed: bool,
		what: &str,
		total: u128,
		elem: (usize, usize),
		bytes: Option<Vec<u8>>,
		f: &mut dyn FnMut(&mut dyn DynS, &[u8]) -> usize,
	) -> bool {
		let c = self.c;
		let before = self.s.state();
		let align = elem.1;
		let want = align_up(before.0, align.max(c.va));
		let need = want as u128 + total;
		let must = need > c.max as u128 && elem.0 > 0;
		let b: &[u8] = bytes.as_deref().unwrap_or(&[]);
		let s = &mut *self.s;
		let r = call(armed, || f(s, b));
		let st = self.s.state();
		match r {
			Err(f) => !self.judge(op, f, must, before, align, what),
			Ok(pos) => {
				self.out.count("pushes", 1);
				if must {
					self.viol(op, "limit", format!("{} of {} bytes at {:#x} succeeded (maximum capacity {:#x})", what, total, want, c.max));
					return true;
				}
				if pos % align != 0 || (pos % c.va != 0) {
					self.viol(op, "pos", format!("{} returned position {:#x}, not aligned to {} and {}", what, pos, align, c.va));
				}
				if elem.0 == 0 || total == 0 {
					// Nothing was pushed.
					if st.0 != before.0 && st.0 != want && !c.sim {
						self.viol(op, "pos", format!("{} of nothing moved the position from {:#x} to {:#x}", what, before.0, st.0));
					}
					if pos > st.0 {
						self.viol(op, "pos", format!("{} of nothing returned {:#x}, the position is {:#x}", what, pos, st.0));
					}
					if st.1 != before.1 && !c.sim {
						let room = self.grown(before.1, want as u128);
						if st.1 != room {
							self.viol(op, "cap-rule", format!("{} of nothing changed the capacity from {:#x} to {:#x}", what, before.1, st.1));
						}
					}
					return true;
				}
				let len = total as usize;
				if c.sim {
					if pos < before.0 || st.0 != align_up(pos + len, c.va) {
						self.viol(op, "pos", format!("{} of {} bytes from {:#x} returned {:#x} and ended at {:#x}", what, len, before.0, pos, st.0));
					}
				} else {
					if pos != want || st.0 != align_up(want + len, c.va) {
						self.viol(
							op,
							"pos",
							format!(
								"{} of {} bytes from {:#x} returned {:#x} and ended at {:#x}, expected {:#x} and {:#x}",
								what,
								len,
								before.0,
								pos,
								st.0,
								want,
								align_up(want + len, c.va)
							),
						);
					}
					let cap = self.grown(before.1, need);
					if st.1 != cap {
						self.viol(
							op,
							"cap-rule",
							format!("{} of {} bytes at {:#x} changed the capacity from {:#x} to {:#x}, expected {:#x}", what, len, want, before.1, st.1, cap),
						);
					}
				}
				self.add(pos, len, bytes);
				if st.2 != before.2 {
					self.out.count("moved_by_push", 1);
				}
				true
			}
		}
	}

	fn step(&mut self, n: usize, o: &Op, armed: bool) -> bool {
		let c = self.c;
		let seed = mix(self.plan.seed ^ (n as u64) << 7);
		let e = {
			let k = o.arg(0);
			if c.elems.contains(&k) {
				k as usize
			} else {
				c.elems[k as usize % c.elems.len()] as usize
			}
		};
		let el = ELEMS[e];
		let before = self.s.state();
		match o.k.as_str() {
			"push" => {
				let b = pattern(seed, el.0);
				self.push(n, armed, "push", el.0 as u128, el, Some(b), &mut |s, b| s.push(e, b))
			}
			"slice" | "unch" => {
				let len = (o.arg(1) as usize).min((1 << 25) / el.0.max(8));
				let b = pattern(seed, el.0 * len);
				let u = o.k == "unch";
				self.push(n, armed, "push_slice", (el.0 * len) as u128, el, Some(b), &mut |s, b| {
					if u {
						s.unchecked(e, b, len)
					} else {
						s.push_slice(e, b, len)
					}
				})
			}
			"bytes" => {
				let len = (o.arg(0) as usize).min(1 << 22);
				let b = pattern(seed, len);
				self.push(n, armed, "push_bytes", len as u128, (1, 1), Some(b), &mut |s, b| s.push_bytes(b))
			}
			"empty" => self.push(n, armed, "push_empty", el.0 as u128, el, None, &mut |s, _| s.push_empty(e)),
			"emptys" => {
				let len = o.arg(1) as usize;
				self.push(n, armed, "push_empty_slice", el.0 as u128 * len as u128, el, None, &mut |s, _| {
					s.push_empty_slice(e, len)
				})
			}
			"reserve" => {
				let want = o.arg(0) as usize;
				let need = before.0 as u128 + want as u128;
				let must = need > c.max as u128;
				let s = &mut *self.s;
				let r = call(armed, || s.reserve(want));
				let st = self.s.state();
				match r {
					Err(f) => return !self.judge(n, f, must, before, 1, "reserve"),
					Ok(()) => {
						if must {
							self.viol(n, "limit", format!("reserve({:#x}) at {:#x} succeeded (maximum capacity {:#x})", want, before.0, c.max));
						} else {
							if st.1.wrapping_sub(st.0) < want {
								self.viol(n, "cap-rule", format!("after reserve({:#x}) position is {:#x}, capacity {:#x}", want, st.0, st.1));
							}
							if !c.sim {
								let cap = self.grown(before.1, need);
								if st.1 != cap || st.0 != before.0 {
									self.viol(
										n,
										"cap-rule",
										format!(
											"reserve({:#x}) at {:#x} changed the capacity from {:#x} to {:#x}, expected {:#x}; position is {:#x}",
											want, before.0, before.1, st.1, cap, st.0
										),
									);
								}
							}
						}
					}
				}
				true
			}
			"shrink" => {
				let s = &mut *self.s;
				match call(armed, || s.shrink()) {
					Err(f) => return !self.judge(n, f, false, before, 1, "shrink_to_fit"),
					Ok(()) => {
						let st = self.s.state();
						if st.0 != before.0 || (!c.sim && st.1 != align_up(before.0, c.mva)) {
							self.viol(
								n,
								"cap-rule",
								format!("after shrink_to_fit position is {:#x} (was {:#x}), capacity {:#x} (was {:#x})", st.0, before.0, st.1, before.1),
							);
						}
					}
				}
				true
			}
			"clear" => {
				let s = &mut *self.s;
				if let Err(f) = call(armed, || s.clear()) {
					self.judge(n, f, false, before, 1, "clear");
				}
				self.after_set_pos(n, before, 0, "clear");
				true
			}
			"rewind" => {
				let p = (o.arg(0) as usize % (before.0 / c.va + 1)) * c.va;
				let s = &mut *self.s;
				if let Err(f) = call(armed, || unsafe { s.set_pos(p) }) {
					self.judge(n, f, false, before, 1, "set_pos");
				}
				self.after_set_pos(n, before, p, "set_pos");
				true
			}
			"advance" => {
				let p = before.0 + (o.arg(0) as usize % ((before.1 - before.0) / c.va + 1)) * c.va;
				let s = &mut *self.s;
				if let Err(f) = call(armed, || unsafe { s.set_pos(p) }) {
					self.judge(n, f, false, before, 1, "set_pos");
				}
				self.after_set_pos(n, before, p, "set_pos");
				true
			}
			"align" => {
				let a = 1usize << (o.arg(0) % 7);
				if a < c.va || a > c.mva {
					return true;
				}
				let s = &mut *self.s;
				if let Err(f) = call(armed, || unsafe { s.align(a) }) {
					self.judge(n, f, false, before, a, "align");
				}
				self.after_set_pos(n, before, align_up(before.0, a), "align");
				true
			}
			"alignfor" => {
				let s = &mut *self.s;
				if let Err(f) = call(armed, || s.align_for(e)) {
					self.judge(n, f, false, before, el.1, "align_for");
				}
				self.after_set_pos(n, before, align_up(before.0, el.1.max(c.va)), "align_for");
				true
			}
			"read" | "write" | "wslice" | "rmut" | "ptrs" => {
				self.random_access(n, o, seed);
				true
			}
			_ => true,
		}
	}

	fn after_set_pos(&mut self, n: usize, before: (usize, usize, usize), want: usize, what: &str) {
		let st = self.s.state();
		if st.1 != before.1 || st.2 != before.2 {
			self.viol(
				n,
				"cap-rule",
				format!("{} changed the buffer from {:#x} ({:#x} bytes) to {:#x} ({:#x} bytes)", what, before.2, before.1, st.2, st.1),
			);
		}
		if st.0 != want {
			self.viol(n, "pos", format!("after {} position is {:#x}, expected {:#x} (was {:#x})", what, st.0, want, before.0));
		}
		let pos = st.0;
		self.items.retain(|i| i.pos < pos);
		for i in &mut self.items {
			if i.pos + i.len > pos {
				i.len = pos - i.pos;
				if let Some(b) = &mut i.bytes {
					b.truncate(i.len);
				}
			}
		}
	}

	/// An operation on a part of an item.
	fn random_access(&mut self, n: usize, o: &Op, seed: u64) {
		let c = self.c;
		if self.items.is_empty() {
			return;
		}
		let k = o.arg(0) as usize % self.items.len();
		let e = c.elems[o.arg(1) as usize % c.elems.len()] as usize;
		let (size, align) = ELEMS[e];
		let (ipos, ilen) = (self.items[k].pos, self.items[k].len);
		let first = align_up(ipos, align);
		if size == 0 || first + size > ipos + ilen {
			return;
		}
		let slots = (ipos + ilen - first) / size;
		let j = o.arg(2) as usize % slots;
		// Items of large gaps may be anywhere.
		let pos = first + align_up(j * size, align) / size.max(1) * size.max(1);
		let pos = if pos % align == 0 { pos } else { first };
		let count = if o.k == "wslice" { 1 + o.arg(3) as usize % ((ipos + ilen - pos) / size).max(1).min(64) } else { 1 };
		let len = size * count;
		if pos + len > ipos + ilen {
			return;
		}
		let before = self.s.state();
		let b = pattern(seed, len);
		let s = &mut *self.s;
		let mut got: Option<Vec<u8>> = None;
		let mut ptrs = None;
		let r = match o.k.as_str() {
			"read" => call(false, || unsafe { got = Some(s.read(e, pos)) }),
			"write" => call(false, || unsafe { s.write(e, pos, &b) }),
			"wslice" => call(false, || unsafe { s.write_slice(e, pos, &b, count) }),
			"rmut" => call(false, || unsafe { s.write_through(e, pos, &b) }),
			_ => call(false, || unsafe { ptrs = Some(s.ptrs(pos)) }),
		};
		self.out.count("random_access", 1);
		if let Err(f) = r {
			self.judge(n, f, false, before, 1, &o.k.clone());
			return;
		}
		let st = self.s.state();
		if st != before {
			self.viol(n, "pos", format!("{} changed position, capacity or buffer", o.k));
		}
		if let Some(p) = ptrs {
			if p != [before.2, before.2, before.2 + pos, before.2 + pos] {
				self.viol(n, "content", format!("pointers to {:#x} are {:x?}, the buffer is at {:#x}", pos, p, before.2));
			}
			return;
		}
		let off = pos - ipos;
		if let Some(g) = got {
			if let Some(ib) = &self.items[k].bytes {
				if g[..] != ib[off..off + len] {
					self.viol(n, "content", format!("reading {} bytes at {:#x} did not give what was stored", len, pos));
				}
			}
			return;
		}
		let it = &mut self.items[k];
		match &mut it.bytes {
			Some(ib) => ib[off..off + len].copy_from_slice(&b),
			None if it.len <= 1 << 16 => {
				// A gap which was written to: split it.
				let (p, l) = (it.pos, it.len);
				it.len = off;
				let rest = l - off - len;
				let mut add = vec![Item { pos, len, bytes: Some(b) }];
				if rest > 0 {
					add.push(Item { pos: pos + len, len: rest, bytes: None });
				}
				if off == 0 {
					self.items.remove(k);
				}
				let _ = p;
				let at = if off == 0 { k } else { k + 1 };
				for (i, x) in add.into_iter().enumerate() {
					self.items.insert(at + i, x);
				}
			}
			None => {}
		}
	}

	fn create(&mut self, n: usize, how: u64, cap: usize, armed: bool) -> bool {
		let c = self.c;
		self.items.clear();
		simstore::set_cfg(sim_cfg(self.plan));
		let must = how == 1 && cap > c.max;
		let cap = if how == 2 {
			align_up(cap.clamp(1, c.max), c.mva)
		} else {
			cap
		};
		let s = &mut *self.s;
		let r = call(armed, || s.create(how, cap));
		match r {
			Ok(()) => {
				let st = self.s.state();
				let want = if how == 0 { 0 } else { align_up(cap, c.mva) };
				if must {
					self.viol(n, "limit", format!("with_capacity({:#x}) succeeded (maximum capacity {:#x})", cap, c.max));
				} else if st.1 != want || st.0 != 0 {
					self.viol(n, "cap-rule", format!("new storage (capacity {:#x} requested): position {:#x}, capacity {:#x}, expected {:#x}", cap, st.0, st.1, want));
				}
				true
			}
			Err(f) => {
				self.out.failed.push(n);
				match f {
					Fail::Refused => {
						self.out.count("refused_ops", 1);
						let _ = heap::sim(|| self.s.create(0, 0));
						false
					}
					Fail::Other(_) if must => {
						self.out.count("limit_ops", 1);
						let _ = heap::sim(|| self.s.create(0, 0));
						true
					}
					Fail::Other(m) => {
						self.viol(n, "unexpected-panic", format!("with_capacity({:#x}) panicked: {}", cap, m));
						let _ = heap::sim(|| self.s.create(0, 0));
						true
					}
					Fail::User => true,
				}
			}
		}
	}

	fn one_op(&mut self, n: usize, o: &Op, armed: bool) -> bool {
		match o.k.as_str() {
			"new" => self.create(n, 0, 0, armed),
			"cap" => self.create(n, 1, o.arg(0) as usize, armed),
			"capu" => self.create(n, 2, o.arg(0) as usize, armed),
			_ => self.step(n, o, armed),
		}
	}
}

pub fn run(plan: &Plan, log: bool) -> Outcome {
	let (pol, faults) = policy(plan);
	*simstore::stats() = Default::default();
	simstore::broken();
	heap().log = None;
	heap().reset(pol, faults);
	if log {
		heap().log = Some(Vec::new());
	}
	let c = SCFGS[plan.get("cfg") as usize % SCFGS.len()];
	simstore::set_cfg(sim_cfg(plan));
	let mut r = Run {
		plan,
		c,
		s: (c.make)(),
		items: Vec::new(),
		armed: true,
		out: Outcome::default(),
		since_check: 0,
	};
	heap::sim(|| r.s.create(0, 0));
	let mut h = 0u64;
	for (n, o) in plan.ops.iter().enumerate() {
		if let Some(l) = &mut heap().log {
			let a: Vec<String> = o.a.iter().map(|x| x.to_string()).collect();
			l.push(format!("op {} {} {}", n, o.k, a.join(" ")));
		}
		if o.k == "arm" {
			r.armed = o.arg(0) != 0;
			continue;
		}
		let base = r.s.state().2;
		let ok = r.one_op(n, o, r.armed);
		r.check_rules(n);
		if !ok && plan.get("retry") != 0 {
			// The cause is gone: the same operation has to work.
			r.out.count("retried_ops", 1);
			r.one_op(n, o, false);
			r.check_rules(n);
		}
		for m in simstore::broken() {
			r.viol(n, "contract", m);
		}
		r.since_check += 1;
		let st = r.s.state();
		if st.2 != base {
			r.out.count("buffer_moved", 1);
		}
		if st.2 != base || r.since_check >= 8 || st.0 < 4096 {
			r.check_content(n, "content");
		}
		h = mix(h ^ st.0 as u64 ^ (st.1 as u64) << 20);
		for b in o.k.bytes() {
			h = mix(h ^ b as u64);
		}
	}
	r.check_content(usize::MAX, "content");
	heap::sim(|| r.s.drop_it());
	let mut out = r.out;
	heap().check_all();
	heap().check_leaks();
	heap_counts(&mut out);
	for v in &out.viols {
		for b in v.class.bytes() {
			h = mix(h ^ b as u64);
		}
	}
	out.hash = mix(h ^ heap().hash);
	out.log = heap().log.take().unwrap_or_default();
	out
}
