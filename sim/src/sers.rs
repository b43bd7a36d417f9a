//! Serializers and storages under test, behind object-safe interfaces.

use std::borrow::BorrowMut;

use ser_raw::{
	pos::{NoopAddr, PosMapping, Ptrs, TrackingAddr},
	ser_traits::{Complete, PosTracking, PtrOffset, PtrWriting, Writable},
	storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage},
	util::{aligned_max_capacity, aligned_max_u32_capacity},
	CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, Serializer,
};

use crate::{
	heap::harness,
	hooks::{self, Hooks},
	simstore::{SegStore, SimStore},
	types::{make, Any, Caps},
	walk::{Mode, Walk},
};

pub const KINDS: [&str; 7] =
	["complete", "ptr_offset", "pure_copy", "pos_tracking", "hand", "hand_complete", "hand_offset"];
/// Writes offsets and takes corrections.
pub const HAND_OFFSET: u64 = 6;
pub fn mode_of(kind: u64) -> Mode {
	match kind {
		0 | 5 => Mode::Complete,
		1 | HAND_OFFSET => Mode::PtrOff,
		_ => Mode::Pure,
	}
}

// --- Serializers made with the derive macro, over any storage ---

#[derive(Serializer)]
#[ser_type(complete)]
pub struct DComplete<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>> {
	// Fields of the serializer's own, of the same types
	#[allow(dead_code)]
	spare: Option<B>,
	#[allow(dead_code)]
	past: Ptrs,
	#[allow(dead_code)]
	before: PosMapping,
	#[ser_storage(St)]
	storage: B,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
	#[ser_ptrs]
	ptrs: Ptrs,
	#[allow(dead_code)]
	m: std::marker::PhantomData<St>,
}
#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct DPtrOffset<St: RandomAccessStorage, B: BorrowMut<St>> {
	#[ser_pos_mapping]
	map: PosMapping,
	#[ser_storage(St)]
	store: B,
	#[allow(dead_code)]
	m: std::marker::PhantomData<St>,
}
#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct DPosTracking<St: Storage, B: BorrowMut<St>> {
	#[ser_storage(St)]
	storage: B,
	#[ser_pos_mapping]
	pos_mapping: PosMapping,
	#[allow(dead_code)]
	m: std::marker::PhantomData<St>,
}
#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct DPure<St: Storage, B: BorrowMut<St>> {
	#[ser_storage(St)]
	storage: B,
	#[allow(dead_code)]
	m: std::marker::PhantomData<St>,
}

/// Hand-written, relying on the default methods.
pub struct Hand<St: Storage, B: BorrowMut<St>> {
	inner: B,
	m: std::marker::PhantomData<St>,
}
impl<St: Storage, B: BorrowMut<St>> Serializer for Hand<St, B> {
	type Storage = St;
	type BorrowedStorage = B;
	type Addr = NoopAddr;
	fn storage(&self) -> &St {
		self.inner.borrow()
	}
	fn storage_mut(&mut self) -> &mut St {
		self.inner.borrow_mut()
	}
	fn into_storage(self) -> B {
		self.inner
	}
}

/// Hand-written complete serializer, from the building blocks of the traits.
pub struct HComplete<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>> {
	inner: B,
	ptrs: Ptrs,
	map: PosMapping,
	m: std::marker::PhantomData<St>,
}
impl<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>> Serializer for HComplete<St, B> {
	type Storage = St;
	type BorrowedStorage = B;
	type Addr = TrackingAddr;
	fn storage(&self) -> &St {
		self.inner.borrow()
	}
	fn storage_mut(&mut self) -> &mut St {
		self.inner.borrow_mut()
	}
	fn into_storage(self) -> B {
		self.inner
	}
	fn serialize_value<T: Serialize<Self>>(&mut self, value: &T) -> usize {
		self.do_serialize_value(value)
	}
	fn push_slice<T>(&mut self, slice: &[T], ptr_addr: TrackingAddr) -> usize {
		PtrWriting::do_push_slice(self, slice, ptr_addr)
	}
	fn push_and_process_slice<T, P: FnOnce(&mut Self)>(&mut self, slice: &[T], ptr_addr: TrackingAddr, process: P) -> usize {
		PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
	}
	unsafe fn overwrite<T>(&mut self, addr: TrackingAddr, value: &T) {
		Complete::do_overwrite(self, addr, value)
	}
	fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
		self.do_overwrite_with(write)
	}
	fn finalize(self) -> B {
		self.do_finalize()
	}
}
impl<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>> PosTracking for HComplete<St, B> {
	fn pos_mapping(&self) -> &PosMapping {
		&self.map
	}
	fn set_pos_mapping(&mut self, m: PosMapping) {
		self.map = m;
	}
}
impl<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>> PtrWriting for HComplete<St, B> {
	unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
		self.do_overwrite_ptr(ptr_pos, target_pos)
	}
}
impl<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>> Writable for HComplete<St, B> {}
impl<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>> Complete for HComplete<St, B> {
	fn ptrs(&self) -> &Ptrs {
		&self.ptrs
	}
	fn ptrs_mut(&mut self) -> &mut Ptrs {
		&mut self.ptrs
	}
}

/// Hand-written pointer-offset serializer which takes corrections, and leaves to default
/// methods whatever they can do: a pointee of any sort arrives in one method.
pub struct HOffset<St: RandomAccessStorage, B: BorrowMut<St>> {
	map: PosMapping,
	inner: B,
	m: std::marker::PhantomData<St>,
}
impl<St: RandomAccessStorage, B: BorrowMut<St>> Serializer for HOffset<St, B> {
	type Storage = St;
	type BorrowedStorage = B;
	type Addr = TrackingAddr;
	fn storage(&self) -> &St {
		self.inner.borrow()
	}
	fn storage_mut(&mut self) -> &mut St {
		self.inner.borrow_mut()
	}
	fn into_storage(self) -> B {
		self.inner
	}
	fn serialize_value<T: Serialize<Self>>(&mut self, value: &T) -> usize {
		self.do_serialize_value(value)
	}
	fn push_and_process_slice<T, P: FnOnce(&mut Self)>(&mut self, slice: &[T], ptr_addr: TrackingAddr, process: P) -> usize {
		PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
	}
	unsafe fn overwrite<T>(&mut self, addr: TrackingAddr, value: &T) {
		Writable::do_overwrite(self, addr, value)
	}
	fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
		write(self)
	}
}
impl<St: RandomAccessStorage, B: BorrowMut<St>> PosTracking for HOffset<St, B> {
	fn pos_mapping(&self) -> &PosMapping {
		&self.map
	}
	fn set_pos_mapping(&mut self, m: PosMapping) {
		self.map = m;
	}
}
impl<St: RandomAccessStorage, B: BorrowMut<St>> PtrWriting for HOffset<St, B> {
	unsafe fn overwrite_ptr(&mut self, ptr_pos: usize, target_pos: usize) {
		PtrOffset::do_overwrite_ptr(self, ptr_pos, target_pos)
	}
}
impl<St: RandomAccessStorage, B: BorrowMut<St>> PtrOffset for HOffset<St, B> {}
impl<St: RandomAccessStorage, B: BorrowMut<St>> Writable for HOffset<St, B> {}

// --- Interfaces ---

/// A serializer which can serialize `Any`.
pub trait Ext: Serializer {
	fn ser_any(&mut self, v: &Any) -> usize;
	fn one_any(self, v: &Any) -> (usize, Self::BorrowedStorage);
}

pub trait DynSer {
	fn val(&mut self, v: &Any) -> usize;
	fn raw(&mut self, bytes: &[u8], align: usize) -> usize;
	fn gap(&mut self, n: usize) -> usize;
	fn reserve(&mut self, n: usize);
	fn shrink(&mut self);
	/// (pos, capacity, base address)
	fn state(&self) -> (usize, usize, usize);
	fn pushes(&self) -> Option<&[(usize, usize)]>;
	fn finish(self: Box<Self>);
}

pub trait DynStore: Send {
	fn cfg(&self) -> &'static Cfg;
	fn open(&mut self, kind: u64, own: u64) -> Box<dyn DynSer + '_>;
	/// Are the constructors of the serializers instantiated?
	fn constructs(&self) -> bool;
	/// With a storage made by the constructors of the serializer.
	fn open_new(&mut self, kind: u64, cap: Option<usize>) -> Box<dyn DynSer + '_>;
	fn one(&mut self, kind: u64, own: u64, v: &Any) -> usize;
	fn state(&self) -> (usize, usize, usize);
	fn pushes(&self) -> Option<&[(usize, usize)]>;
	fn clear(&mut self);
	fn shrink(&mut self);
	fn reserve(&mut self, n: usize);
	fn raw(&mut self, bytes: &[u8], align: usize) -> usize;
	/// Give up the storage; a new one without capacity takes its place.
	fn replace(&mut self, cap: Option<usize>);
	/// Is there a storage (an owned one is lost when its serializer is dropped)?
	fn present(&self) -> bool;
}

pub struct Cfg {
	pub name: &'static str,
	pub sa: usize,
	pub mva: usize,
	pub va: usize,
	pub max: usize,
	pub over: usize,
	pub sim: bool,
	/// not contiguous
	pub seg: bool,
	pub kinds: u64,
	pub make: fn() -> Box<dyn DynStore>,
}

impl Cfg {
	/// Is there such a serializer over this storage?
	pub fn has(&self, kind: u64) -> bool {
		kind < self.kinds && !(self.seg && matches!(kind, 0 | 5))
	}
}

pub fn caps(c: &Cfg, kind: u64) -> Caps {
	Caps { align: c.over, track: matches!(kind, 0 | 1 | 3 | 5 | 6) }
}

trait Give<St> {
	fn give(self, slot: &mut Option<St>);
}
impl<St> Give<St> for St {
	fn give(self, slot: &mut Option<St>) {
		*slot = Some(self);
	}
}
impl<St> Give<St> for &mut St {
	fn give(self, _: &mut Option<St>) {}
}
struct Boxed<St>(Box<St>);
impl<St> std::borrow::Borrow<St> for Boxed<St> {
	fn borrow(&self) -> &St {
		&self.0
	}
}
impl<St> BorrowMut<St> for Boxed<St> {
	fn borrow_mut(&mut self) -> &mut St {
		&mut self.0
	}
}
impl<St> Give<St> for Boxed<St> {
	fn give(self, slot: &mut Option<St>) {
		*slot = Some(*self.0);
	}
}

trait Look {
	fn log(&self) -> Option<&[(usize, usize)]>;
	/// Where the simulator finds the content.
	fn base(&self) -> usize;
}
impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Look for AlignedVec<SA, MVA, VA, MAX> {
	fn log(&self) -> Option<&[(usize, usize)]> {
		None
	}
	fn base(&self) -> usize {
		self.as_ptr() as usize
	}
}
impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Look for SimStore<SA, MVA, VA, MAX> {
	fn log(&self) -> Option<&[(usize, usize)]> {
		Some(&self.pushes)
	}
	fn base(&self) -> usize {
		self.as_ptr() as usize
	}
}
impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize> Look for SegStore<SA, MVA, VA, MAX> {
	fn log(&self) -> Option<&[(usize, usize)]> {
		Some(&self.pushes)
	}
	fn base(&self) -> usize {
		self.flat()
	}
}

fn push_aligned<St: Storage>(s: &mut St, bytes: &[u8], align: usize) -> usize {
	let n = bytes.len();
	unsafe {
		match align {
			1 => s.push_bytes(bytes),
			2 => {
				let mut v = vec![0u16; n / 2];
				std::ptr::copy_nonoverlapping(bytes.as_ptr(), v.as_mut_ptr() as *mut u8, n / 2 * 2);
				s.push_slice(&v)
			}
			4 => {
				let mut v = vec![0u32; n / 4];
				std::ptr::copy_nonoverlapping(bytes.as_ptr(), v.as_mut_ptr() as *mut u8, n / 4 * 4);
				s.push_slice(&v)
			}
			_ => {
				let mut v = vec![0u64; n / 8];
				std::ptr::copy_nonoverlapping(bytes.as_ptr(), v.as_mut_ptr() as *mut u8, n / 8 * 8);
				s.push_slice(&v)
			}
		}
	}
}

/// Where the storage of an owning serializer goes; the serializer of a borrowed
/// one leaves the slot alone.
struct W<'a, S: Serializer, St> {
	s: Option<S>,
	slot: *mut Option<St>,
	m: std::marker::PhantomData<&'a mut St>,
}

impl<'a, S: Ext, St> DynSer for W<'a, S, St>
where
	S::Storage: Look,
	S::BorrowedStorage: Give<St>,
{
	fn val(&mut self, v: &Any) -> usize {
		self.s.as_mut().unwrap().ser_any(v)
	}
	fn raw(&mut self, bytes: &[u8], align: usize) -> usize {
		push_aligned(self.s.as_mut().unwrap().storage_mut(), bytes, align)
	}
	fn gap(&mut self, n: usize) -> usize {
		self.s.as_mut().unwrap().push_empty_slice::<u16>(n)
	}
	fn reserve(&mut self, n: usize) {
		self.s.as_mut().unwrap().storage_mut().reserve(n)
	}
	fn shrink(&mut self) {
		self.s.as_mut().unwrap().storage_mut().shrink_to_fit()
	}
	fn state(&self) -> (usize, usize, usize) {
		let s = self.s.as_ref().unwrap();
		(s.pos(), s.capacity(), s.storage().base())
	}
	fn pushes(&self) -> Option<&[(usize, usize)]> {
		self.s.as_ref().unwrap().storage().log()
	}
	fn finish(mut self: Box<Self>) {
		let st = self.s.take().unwrap().finalize();
		// The slot outlives 'a, and is empty or borrowed through `st`.
		let slot = self.slot;
		unsafe { give(st, slot) };
	}
}

unsafe fn give<St, G: Give<St>>(st: G, slot: *mut Option<St>) {
	// For borrowed storages nothing is done with the slot.
	let mut tmp: Option<St> = None;
	st.give(&mut tmp);
	if tmp.is_some() {
		*slot = tmp;
	}
}

pub struct Holder<St> {
	st: Option<St>,
	cfg: &'static Cfg,
}

/// Which forms of ownership are instantiated: all, no boxed storage, or borrowed only.
/// (What is left out runs with the next form, to keep build time down.)
macro_rules! store_impl {
	(@mk all $St:ty, $slot:ident, $self:ident, $own:ident, $mkref:expr, $mkown:expr, $mkbox:expr) => {
		match $own {
			1 => store_impl!(@own $slot, $self, $mkown),
			2 => {
				let st = Boxed(Box::new($self.st.take().unwrap()));
				let s = $mkbox(st);
				harness(|| Box::new(W { s: Some(s), slot: $slot, m: std::marker::PhantomData }) as Box<dyn DynSer>)
			}
			_ => store_impl!(@ref $slot, $self, $mkref),
		}
	};
	(@mk own $St:ty, $slot:ident, $self:ident, $own:ident, $mkref:expr, $mkown:expr, $mkbox:expr) => {
		match $own {
			1 | 2 => store_impl!(@own $slot, $self, $mkown),
			_ => store_impl!(@ref $slot, $self, $mkref),
		}
	};
	(@mk lent $St:ty, $slot:ident, $self:ident, $own:ident, $mkref:expr, $mkown:expr, $mkbox:expr) => {{
		let _ = $own;
		store_impl!(@ref $slot, $self, $mkref)
	}};
	(@own $slot:ident, $self:ident, $mkown:expr) => {{
		let st = $self.st.take().unwrap();
		let s = $mkown(st);
		harness(|| Box::new(W { s: Some(s), slot: $slot, m: std::marker::PhantomData }) as Box<dyn DynSer>)
	}};
	(@ref $slot:ident, $self:ident, $mkref:expr) => {{
		let s = $mkref($self.st.as_mut().unwrap());
		harness(|| Box::new(W { s: Some(s), slot: $slot, m: std::marker::PhantomData }) as Box<dyn DynSer>)
	}};
	(@new lent $St:ty, $self:ident, $slot:ident, $cap:ident, $mkref:expr, $mknew:expr) => {{
		$self.st = Some(fresh($cap));
		store_impl!(@ref $slot, $self, $mkref)
	}};
	(@new $form:ident $St:ty, $self:ident, $slot:ident, $cap:ident, $mkref:expr, $mknew:expr) => {{
		let s = ($mknew)($cap);
		harness(|| Box::new(W { s: Some(s), slot: $slot, m: std::marker::PhantomData }) as Box<dyn DynSer>)
	}};
	(@one all $self:ident, $own:ident, $v:ident, $mkref:expr, $mkown:expr, $mkbox:expr) => {
		match $own {
			1 => store_impl!(@one1 $self, $v, $mkown),
			2 => {
				let (p, st) = $mkbox(Boxed(Box::new($self.st.take().unwrap()))).one_any($v);
				$self.st = Some(*st.0);
				p
			}
			_ => $mkref($self.st.as_mut().unwrap()).one_any($v).0,
		}
	};
	(@one own $self:ident, $own:ident, $v:ident, $mkref:expr, $mkown:expr, $mkbox:expr) => {
		match $own {
			1 | 2 => store_impl!(@one1 $self, $v, $mkown),
			_ => $mkref($self.st.as_mut().unwrap()).one_any($v).0,
		}
	};
	(@one lent $self:ident, $own:ident, $v:ident, $mkref:expr, $mkown:expr, $mkbox:expr) => {{
		let _ = $own;
		$mkref($self.st.as_mut().unwrap()).one_any($v).0
	}};
	(@one1 $self:ident, $v:ident, $mkown:expr) => {{
		let (p, st) = $mkown($self.st.take().unwrap()).one_any($v);
		$self.st = Some(st);
		p
	}};
	($form:ident $St:ty, $cfg:expr, { $( $k:pat => ($mkref:expr, $mkown:expr, $mkbox:expr, $mknew:expr) ),* $(,)? }) => {
		impl DynStore for Holder<$St> {
			fn cfg(&self) -> &'static Cfg {
				self.cfg
			}
			fn constructs(&self) -> bool {
				!self.cfg.sim && stringify!($form) != "lent"
			}
			fn open_new(&mut self, kind: u64, cap: Option<usize>) -> Box<dyn DynSer + '_> {
				#[allow(dead_code)]
				fn fresh(c: Option<usize>) -> $St {
					match c {
						None => <$St>::new(),
						Some(c) => <$St>::with_capacity(c),
					}
				}
				let slot = &mut self.st as *mut Option<$St>;
				self.st = None;
				match kind {
					$( $k => store_impl!(@new $form $St, self, slot, cap, $mkref, $mknew), )*
					_ => unreachable!(),
				}
			}
			fn open(&mut self, kind: u64, own: u64) -> Box<dyn DynSer + '_> {
				let slot = &mut self.st as *mut Option<$St>;
				match kind {
					$( $k => store_impl!(@mk $form $St, slot, self, own, $mkref, $mkown, $mkbox), )*
					_ => unreachable!(),
				}
			}
			fn one(&mut self, kind: u64, own: u64, v: &Any) -> usize {
				match kind {
					$( $k => store_impl!(@one $form self, own, v, $mkref, $mkown, $mkbox), )*
					_ => unreachable!(),
				}
			}
			fn state(&self) -> (usize, usize, usize) {
				let s = self.st.as_ref().unwrap();
				(s.pos(), s.capacity(), s.base())
			}
			fn pushes(&self) -> Option<&[(usize, usize)]> {
				self.st.as_ref().unwrap().log()
			}
			fn clear(&mut self) {
				self.st.as_mut().unwrap().clear()
			}
			fn shrink(&mut self) {
				self.st.as_mut().unwrap().shrink_to_fit()
			}
			fn reserve(&mut self, n: usize) {
				self.st.as_mut().unwrap().reserve(n)
			}
			fn raw(&mut self, bytes: &[u8], align: usize) -> usize {
				push_aligned(self.st.as_mut().unwrap(), bytes, align)
			}
			fn replace(&mut self, cap: Option<usize>) {
				self.st = None;
				self.st = Some(match cap {
					None => <$St>::new(),
					Some(n) => <$St>::with_capacity(n),
				});
			}
			fn present(&self) -> bool {
				self.st.is_some()
			}
		}
	};
}

macro_rules! ext {
	($S:ty, $St:ty, $over:ident, $track:ident) => {
		impl<B: BorrowMut<$St>> Ext for $S {
			fn ser_any(&mut self, v: &Any) -> usize {
				ext!(@t $track self v);
				v.$over(self)
			}
			#[allow(unused_mut)]
			fn one_any(mut self, v: &Any) -> (usize, Self::BorrowedStorage) {
				match v {
					Any::Tree(x) => self.serialize(x),
					Any::Trees(x) => self.serialize(x),
					Any::Text(x) => self.serialize(x),
					Any::Rows(x) => self.serialize(x),
					Any::Zsts(x) => self.serialize(x),
					_ => {
						let p = self.ser_any(v);
						(p, self.finalize())
					}
				}
			}
		}
	};
	(@t yes $s:ident $v:ident) => { if let Some(p) = $v.ser_track($s) { return p; } };
	(@t no $s:ident $v:ident) => {};
}

const DEF: usize = aligned_max_capacity(4096);

macro_rules! vec_cfg {
	($m:ident, $i:literal, $SA:literal, $MVA:literal, $VA:literal, $MAX:expr, $over:ident, $on:literal, basic $form:ident) => {
		mod $m {
			use super::*;
			pub const MAX: usize = $MAX;
			pub type St = AlignedVec<$SA, $MVA, $VA, MAX>;
			ext!(CompleteSerializer<$SA, $MVA, $VA, MAX, B>, St, $over, yes);
			ext!(PtrOffsetSerializer<$SA, $MVA, $VA, MAX, B>, St, $over, yes);
			ext!(PureCopySerializer<$SA, $MVA, $VA, MAX, B>, St, $over, no);
			store_impl!($form St, CFG, {
				0 => (CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, |c: Option<usize>| match c { None => CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::new(), Some(c) => CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::with_capacity(c) }),
				1 => (PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, |c: Option<usize>| match c { None => PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::new(), Some(c) => PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::with_capacity(c) }),
				2 => (PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, |c: Option<usize>| match c { None => PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::new(), Some(c) => PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::with_capacity(c) }),
			});
			pub static CFG: Cfg = Cfg {
				name: concat!("AlignedVec<", $SA, ",", $MVA, ",", $VA, ",", stringify!($MAX), ">"),
				sa: $SA, mva: $MVA, va: $VA, max: MAX, over: $on, sim: false, seg: false, kinds: 3,
				make: || Box::new(Holder::<St> { st: Some(St::new()), cfg: &CFG }),
			};
		}
	};
	($m:ident, $i:literal, $SA:literal, $MVA:literal, $VA:literal, $MAX:expr, $over:ident, $on:literal, full $Base:ident, $sim:tt) => {
		mod $m {
			use super::*;
			pub const MAX: usize = $MAX;
			pub type St = $Base<$SA, $MVA, $VA, MAX>;
			ext!(DPosTracking<St, B>, St, $over, yes);
			ext!(Hand<St, B>, St, $over, no);
			ext!(HOffset<St, B>, St, $over, yes);
			ext!(HComplete<St, B>, St, $over, yes);
			vec_cfg!(@derived $sim $SA $MVA $VA $over);
			pub static CFG: Cfg = Cfg {
				name: concat!(stringify!($Base), "<", $SA, ",", $MVA, ",", $VA, ",", stringify!($MAX), ">"),
				sa: $SA, mva: $MVA, va: $VA, max: MAX, over: $on, sim: $sim, seg: false, kinds: 7,
				make: || Box::new(Holder::<St> { st: Some(St::new()), cfg: &CFG }),
			};
		}
	};
	($m:ident, $i:literal, $SA:literal, $MVA:literal, $VA:literal, $MAX:expr, $over:ident, $on:literal, segments) => {
		mod $m {
			use super::*;
			pub const MAX: usize = $MAX;
			pub type St = SegStore<$SA, $MVA, $VA, MAX>;
			ext!(DPosTracking<St, B>, St, $over, yes);
			ext!(Hand<St, B>, St, $over, no);
			ext!(HOffset<St, B>, St, $over, yes);
			ext!(DPtrOffset<St, B>, St, $over, yes);
			ext!(DPure<St, B>, St, $over, no);
			store_impl!(lent St, CFG, {
				1 => (dptroff, dptroff, dptroff, |c| dptroff(fresh(c))),
				2 => (dpure, dpure, dpure, |c| dpure(fresh(c))),
				3 => (dpos, dpos, dpos, |c| dpos(fresh(c))),
				4 => (hand, hand, hand, |c| hand(fresh(c))),
				6 => (hoffset, hoffset, hoffset, |c| hoffset(fresh(c))),
			});
			pub static CFG: Cfg = Cfg {
				name: concat!("SegStore<", $SA, ",", $MVA, ",", $VA, ",", stringify!($MAX), ">"),
				sa: $SA, mva: $MVA, va: $VA, max: MAX, over: $on, sim: true, seg: true, kinds: 7,
				make: || Box::new(Holder::<St> { st: Some(St::new()), cfg: &CFG }),
			};
		}
	};
	(@derived true $SA:literal $MVA:literal $VA:literal $over:ident) => {
		ext!(DComplete<St, B>, St, $over, yes);
		ext!(DPtrOffset<St, B>, St, $over, yes);
		ext!(DPure<St, B>, St, $over, no);
		store_impl!(own St, CFG, {
			0 => (dcomplete, dcomplete, dcomplete, |c| dcomplete(fresh(c))),
			1 => (dptroff, dptroff, dptroff, |c| dptroff(fresh(c))),
			2 => (dpure, dpure, dpure, |c| dpure(fresh(c))),
			3 => (dpos, dpos, dpos, |c| dpos(fresh(c))),
			4 => (hand, hand, hand, |c| hand(fresh(c))),
			5 => (hcomplete, hcomplete, hcomplete, |c| hcomplete(fresh(c))),
			6 => (hoffset, hoffset, hoffset, |c| hoffset(fresh(c))),
		});
	};
	(@derived false $SA:literal $MVA:literal $VA:literal $over:ident) => {
		ext!(CompleteSerializer<$SA, $MVA, $VA, MAX, B>, St, $over, yes);
		ext!(PtrOffsetSerializer<$SA, $MVA, $VA, MAX, B>, St, $over, yes);
		ext!(PureCopySerializer<$SA, $MVA, $VA, MAX, B>, St, $over, no);
		store_impl!(all St, CFG, {
			0 => (CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, |c: Option<usize>| match c { None => CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::new(), Some(c) => CompleteSerializer::<$SA, $MVA, $VA, MAX, _>::with_capacity(c) }),
			1 => (PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, |c: Option<usize>| match c { None => PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::new(), Some(c) => PtrOffsetSerializer::<$SA, $MVA, $VA, MAX, _>::with_capacity(c) }),
			2 => (PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::from_storage, |c: Option<usize>| match c { None => PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::new(), Some(c) => PureCopySerializer::<$SA, $MVA, $VA, MAX, _>::with_capacity(c) }),
			3 => (dpos, dpos, dpos, |c| dpos(fresh(c))),
			4 => (hand, hand, hand, |c| hand(fresh(c))),
			5 => (hcomplete, hcomplete, hcomplete, |c| hcomplete(fresh(c))),
			6 => (hoffset, hoffset, hoffset, |c| hoffset(fresh(c))),
		});
	};
}

fn dcomplete<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>>(b: B) -> DComplete<St, B> {
	DComplete {
		spare: None,
		past: Ptrs::new(),
		before: PosMapping::dummy(),
		storage: b,
		pos_mapping: PosMapping::dummy(),
		ptrs: Ptrs::new(),
		m: std::marker::PhantomData,
	}
}
fn dptroff<St: RandomAccessStorage, B: BorrowMut<St>>(b: B) -> DPtrOffset<St, B> {
	DPtrOffset { store: b, map: PosMapping::dummy(), m: std::marker::PhantomData }
}
fn dpos<St: Storage, B: BorrowMut<St>>(b: B) -> DPosTracking<St, B> {
	DPosTracking { storage: b, pos_mapping: PosMapping::dummy(), m: std::marker::PhantomData }
}
fn dpure<St: Storage, B: BorrowMut<St>>(b: B) -> DPure<St, B> {
	DPure { storage: b, m: std::marker::PhantomData }
}
fn hcomplete<St: ContiguousStorage + RandomAccessStorage, B: BorrowMut<St>>(b: B) -> HComplete<St, B> {
	HComplete { inner: b, ptrs: Ptrs::new(), map: PosMapping::dummy(), m: std::marker::PhantomData }
}
fn hoffset<St: RandomAccessStorage, B: BorrowMut<St>>(b: B) -> HOffset<St, B> {
	HOffset { inner: b, map: PosMapping::dummy(), m: std::marker::PhantomData }
}
fn hand<St: Storage, B: BorrowMut<St>>(b: B) -> Hand<St, B> {
	Hand { inner: b, m: std::marker::PhantomData }
}

vec_cfg!(c0, 0, 16, 16, 8, DEF, ser_over16, 16, full AlignedVec, false);
vec_cfg!(c1, 1, 16, 16, 1, aligned_max_u32_capacity(16), ser_over16, 16, basic own);
vec_cfg!(c2, 2, 16, 16, 16, DEF, ser_over16, 16, basic lent);
vec_cfg!(c3, 3, 64, 64, 8, DEF, ser_over64, 64, basic lent);
vec_cfg!(c4, 4, 16, 16, 4, 2048, ser_over16, 16, basic own);
vec_cfg!(c5, 5, 32, 16, 8, 1008, ser_over16, 16, basic own);
vec_cfg!(c6, 6, 4096, 64, 32, DEF, ser_over64, 64, basic lent);
vec_cfg!(c7, 7, 8, 8, 2, 20000, ser_common, 8, basic own);
vec_cfg!(c8, 8, 16, 16, 8, DEF, ser_over16, 16, full SimStore, true);
vec_cfg!(c9, 9, 64, 64, 1, 16320, ser_over64, 64, full SimStore, true);
vec_cfg!(c10, 10, 16, 16, 8, DEF, ser_over16, 16, segments);

pub static CFGS: [&Cfg; 11] =
	[&c0::CFG, &c1::CFG, &c2::CFG, &c3::CFG, &c4::CFG, &c5::CFG, &c6::CFG, &c7::CFG, &c8::CFG, &c9::CFG, &c10::CFG];
/// Configurations over the built-in storage, and with a small maximum capacity.
pub const VEC_CFGS: [u64; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
pub const ROOMY_CFGS: [u64; 5] = [0, 1, 2, 3, 6];
pub const SMALL_CFGS: [u64; 3] = [4, 5, 7];
pub const SIM_CFGS: [u64; 2] = [8, 9];
pub const ALL_SIM_CFGS: [u64; 3] = [8, 9, 10];

/// A serialization started by user code in the middle of another one.
pub fn nested(id: u32, arg: u16) {
	let go = match hooks::current() {
		Some(h) => h.depth == 0 && !h.no_nested,
		None => false,
	};
	if !go {
		return;
	}
	let kind = id as u64 % 3;
	let mut h = harness(|| Hooks { depth: 1, ..Hooks::default() });
	let v = Box::new(make([0, 1, 33, 21, 22, 14][arg as usize % 6], id as u64, 12, 0));
	let mut st = AlignedVec::<16, 16, 8, DEF>::new();
	let pos = hooks::with(&mut h, || match kind {
		0 => CompleteSerializer::<16, 16, 8, DEF, _>::from_storage(&mut st).one_any(&v).0,
		1 => PtrOffsetSerializer::<16, 16, 8, DEF, _>::from_storage(&mut st).one_any(&v).0,
		_ => PureCopySerializer::<16, 16, 8, DEF, _>::from_storage(&mut st).one_any(&v).0,
	});
	harness(|| {
		let buf = unsafe { std::slice::from_raw_parts(st.as_ptr(), st.pos()) };
		let mut w = Walk::new(mode_of(kind), buf, st.as_ptr() as usize, 8, 16, 0);
		w.live = true;
		w.recs = &h.recs;
		w.no_corr = h.no_corr;
		let (s, a) = v.size_align();
		let want = if s > 0 { w.place(s, a) } else { 0 };
		v.walk(&mut w, pos);
		let mut errs: Vec<(String, String)> = w.errs.iter().map(|e| (format!("nested-{}", e.0), e.1.clone())).collect();
		if pos != want {
			errs.push(("nested-layout".into(), format!("nested value at {:#x}, expected {:#x}", pos, want)));
		}
		if let Some(h) = hooks::current() {
			h.nested += 1;
			h.errs.extend(errs);
		}
	});
	drop(v);
	drop(st);
}
