//! Simulated users' types: what is serialized in the runs.

use std::num::*;

use num_bigint::{BigInt, BigUint};
use ser_raw::{
	pos::Addr, ser_traits::PosTracking, storage::Storage, Serialize, SerializeWith, Serializer,
};

use crate::{
	heap::harness,
	hooks::{self, Rec},
	off,
	walk::*,
};

macro_rules! rec {
	($($(#[$m:meta])* struct $N:ident $(<const $c:ident : usize>)? { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? })*) => { $(
		$(#[$m])*
		#[derive(Serialize, PartialEq, Debug)]
		pub struct $N $(<const $c: usize>)? { $($(#[$fm])* pub $f: $t),* }
		impl $(<const $c: usize>)? Node for $N $(<$c>)? {
			fn gen(g: &mut G) -> Self { let _ = &g; $N { $($f: <$t as Node>::gen(g)),* } }
			fn walk(&self, w: &mut Walk, pos: usize) {
				let _ = (&w, pos);
				$( self.$f.walk(w, pos + off!(self, &self.$f)); )*
			}
		}
	)* };
}

rec! {
	struct Prims {
		a: u8, b: u16, c: u32, d: u64, e: u128, f: usize,
		g: i8, h: i16, i: i32, j: i64, k: i128, l: isize,
		m: f32, n: f64, o: bool, p: char, q: (),
		r: NonZeroU8, s: NonZeroU16, t: NonZeroU32, u: NonZeroU64, v: NonZeroU128, w: NonZeroUsize,
		x: NonZeroI8, y: NonZeroI16, z: NonZeroI32, aa: NonZeroI64, ab: NonZeroI128, ac: NonZeroIsize,
		ad: Option<NonZeroU32>, ae: Option<bool>, af: Option<char>, ag: Option<u64>,
	}
	struct Named { serializer: Vec<u8>, self_: Box<u16>, name: String, opt: Option<Box<String>> }
	#[repr(C)]
	struct ReprC { a: u8, b: Vec<u16>, c: u8, d: Box<[u8; 3]>, e: u16 }
	#[repr(align(8))]
	struct Al8 { a: u8, b: Box<u8> }
	struct Consts<const N: usize> { a: [Box<u16>; N], b: [u8; N], c: [Vec<u32>; N] }
	struct Empty {}
	struct RawNames { r#type: Vec<u8>, r#match: Box<u16>, r#fn: u8, _x: Option<Box<u8>> }
	struct Zsts { a: Box<()>, b: Vec<()>, c: Empty, d: [u64; 0], e: Vec<Empty>, f: Box<Empty>, g: Option<Box<()>>, h: Box<u8> }
	struct Odd { a: Vec<[u8; 3]>, b: Vec<(u16, u8)>, c: Box<[u8; 5]>, d: Vec<[u16; 3]>, e: Vec<[u8; 1]> }
	struct Nums { a: BigUint, b: BigInt, c: Vec<BigInt>, d: Option<BigUint>, e: Box<BigInt> }
	struct Niche { a: Option<String>, b: Option<Vec<u32>>, c: Option<Option<Box<u8>>>, d: Result2, e: [Option<Box<u32>>; 3] }
	struct Wide { v: Vec<Box<u64>>, w: Vec<Probe> }
	struct Chain { v: u32, next: Option<Box<Chain>> }
	struct Spine { pre: Vec<u8>, down: Option<Box<Spine>>, kids: Vec<Spine>, post: Box<u32>, pr: Probe, end: String }
	struct WithProxy {
		a: u8,
		#[ser_with(ForeignProxy)]
		b: Foreign,
		c: Box<u16>,
		#[ser_with(ForeignProxy)]
		d: Foreign,
	}
	struct Probes { a: Probe, b: Box<Probe>, c: Vec<Probe>, d: Probe }
	#[repr(align(16))]
	struct A16 { a: u8, b: Box<u8>, c: u64 }
	#[repr(align(32))]
	struct A32 { a: u16, b: Vec<u16> }
	#[repr(align(64))]
	struct A64 { a: u8, b: Box<u64>, c: Vec<u8> }
	struct Over16 { a: Box<A16>, b: Vec<A16>, c: u8, d: Box<u8>, e: Vec<A16> }
	struct Over64 { a: Box<A64>, b: Vec<u8>, c: Vec<A32>, d: Box<u8>, e: Box<A16>, f: Vec<A64>, g: Box<Box<A32>> }
}

#[derive(Serialize, PartialEq, Debug)]
pub struct TupleStruct(pub u8, pub Vec<Tree>, pub Box<u32>);
impl Node for TupleStruct {
	fn gen(g: &mut G) -> Self {
		TupleStruct(u8::gen(g), gen_vec(g, 4), Box::gen(g))
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.0.walk(w, pos + off!(self, &self.0));
		self.1.walk(w, pos + off!(self, &self.1));
		self.2.walk(w, pos + off!(self, &self.2));
	}
}

#[derive(Serialize, PartialEq, Debug)]
pub struct UnitStruct;
impl Node for UnitStruct {
	fn gen(_: &mut G) -> Self {
		UnitStruct
	}
	fn walk(&self, _: &mut Walk, _: usize) {}
}

#[derive(PartialEq, Debug)]
pub struct Generic<T> {
	pub a: Vec<T>,
	pub b: Box<T>,
	pub c: Option<T>,
}

macro_rules! en {
	($(#[$m:meta])* enum $N:ident { $( $k:literal $V:ident $(( $($ti:ident : $t:ty),* ))? $({ $($f:ident : $ft:ty),* })? ),* $(,)? } n = $n:literal) => {
		$(#[$m])*
		#[derive(Serialize, PartialEq, Debug)]
		pub enum $N { $( $V $(( $($t),* ))? $({ $($f: $ft),* })? ),* }
		impl Node for $N {
			fn gen(g: &mut G) -> Self {
				g.fuel -= 1;
				g.depth += 1;
				let k = if g.fuel <= 0 || g.depth > 24 { g.rng.below(4.min($n)) } else { g.rng.below($n) };
				let v = match k {
					$( $k => $N::$V $(( $(<$t as Node>::gen(g)),* ))? $({ $($f: <$ft as Node>::gen(g)),* })? , )*
					_ => unreachable!(),
				};
				g.depth -= 1;
				v
			}
			#[allow(unused_variables)]
			fn walk(&self, w: &mut Walk, pos: usize) {
				w.variant(pos, self);
				match self {
					$( $N::$V $(( $($ti),* ))? $({ $($f),* })? => {
						$($( $ti.walk(w, pos + off!(self, $ti)); )*)?
						$($( $f.walk(w, pos + off!(self, $f)); )*)?
					} )*
				}
			}
		}
	};
}

en! {
	enum Tree {
		0 Unit,
		1 Small(a: u8),
		2 Pair(a: u32, b: Box<u16>),
		3 Text(a: String),
		4 One(a: Box<Tree>),
		5 Two { serializer: Box<Tree>, val_0: Box<Tree> },
		6 Many(a: Vec<Tree>),
		7 Bytes(a: Vec<u8>),
		8 Words { a: Vec<u16>, b: u8 },
		9 Odd(a: Vec<[u8; 3]>),
		10 Opt(a: Option<Box<Tree>>),
		11 Opts(a: Option<Vec<Option<Box<u32>>>>),
		12 Tup(a: (u8, Box<u32>, Vec<u64>), b: u16),
		13 Arr(a: [Box<u8>; 3]),
		14 Nums(a: BigUint, b: BigInt),
		15 Zst(a: Box<()>, b: Vec<()>, c: ()),
		16 Pr(a: Box<Probe>),
		17 Probed { before: Probe, x: Vec<Tree>, after: Probe },
		18 C(a: Box<ReprC>),
		19 Nm(a: Box<Named>),
		20 Px(a: Box<WithProxy>),
		21 Wide(a: u128, b: Box<u128>),
		22 Float { x: f32, y: Box<f64> },
		23 Rows(a: Vec<Vec<u16>>),
		24 Strs(a: Vec<String>),
		25 Man(a: Box<Man>),
		26 Corr(a: Box<Corr>),
		27 Ts(a: Box<TupleStruct>),
		28 Cs(a: Box<Consts<2>>),
		29 Ni(a: Box<Niche>),
		30 Mans(a: Vec<Man>, b: Vec<Corr>),
		31 Al(a: Box<Al8>, b: char, c: Option<bool>),
	} n = 32
}

en! {
	#[repr(u8)]
	enum Small { 0 A, 1 B, 2 C(a: Box<u8>), 3 D { x: u16 }, 4 E(a: Vec<Small>) } n = 5
}

en! {
	enum Result2 { 0 Bad(a: u16), 1 Good(a: String), 2 Nothing, 3 Boxed(a: Box<Small>) } n = 4
}

en! {
	enum Fieldless { 0 A, 1 B, 2 C, 3 D } n = 4
}


/// A small value behind a pointer; its code is shared, so that large tuples and
/// arrays of it stay cheap to build.
#[derive(PartialEq, Debug)]
pub struct Lf(pub Box<u16>);
impl<S: Serializer> Serialize<S> for Lf {
	#[inline(never)]
	fn serialize_data(&self, s: &mut S) {
		self.0.serialize_data(s);
	}
}
impl Node for Lf {
	fn gen(g: &mut G) -> Self {
		Lf(Box::gen(g))
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.0.walk(w, pos + off!(self, &self.0));
	}
}

/// A tuple of any length.
pub struct Tp<T>(pub T);
impl<S: Serializer, T: Serialize<S>> Serialize<S> for Tp<T> {
	#[inline(never)]
	fn serialize_data(&self, s: &mut S) {
		self.0.serialize_data(s);
	}
}
impl<T: Node> Node for Tp<T> {
	fn gen(g: &mut G) -> Self {
		Tp(T::gen(g))
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.0.walk(w, pos + off!(self, &self.0));
	}
}
impl<T> std::fmt::Debug for Tp<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str("tuple")
	}
}
macro_rules! tp_eq {
	($($i:tt $t:ident)*) => {
		impl<$($t: PartialEq),*> PartialEq for Tp<($($t,)*)> {
			fn eq(&self, o: &Self) -> bool {
				true $( && self.0.$i == o.0.$i )*
			}
		}
	};
}
tp_eq!(0 A);
tp_eq!(0 A 1 B);
tp_eq!(0 A 1 B 2 C);
tp_eq!(0 A 1 B 2 C 3 D);
tp_eq!(0 A 1 B 2 C 3 D 4 E);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X 24 Y);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X 24 Y 25 Z);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X 24 Y 25 Z 26 AA);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X 24 Y 25 Z 26 AA 27 AB);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X 24 Y 25 Z 26 AA 27 AB 28 AC);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X 24 Y 25 Z 26 AA 27 AB 28 AC 29 AD);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X 24 Y 25 Z 26 AA 27 AB 28 AC 29 AD 30 AE);
tp_eq!(0 A 1 B 2 C 3 D 4 E 5 F 6 G_ 7 H 8 I 9 J 10 K 11 L 12 M 13 N 14 O 15 P 16 Q 17 R 18 S 19 T 20 U 21 V 22 W 23 X 24 Y 25 Z 26 AA 27 AB 28 AC 29 AD 30 AE 31 AF);

/// Many fields.
#[derive(Serialize, PartialEq, Debug)]
pub struct WideTuple(Lf, u8, Lf, Lf, u16, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf);
impl Node for WideTuple {
	#[rustfmt::skip]
	fn gen(g: &mut G) -> Self {
		WideTuple(
			Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g),
			Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g),
			Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g), Node::gen(g),
		)
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		macro_rules! all {
			($($i:tt)*) => { $( self.$i.walk(w, pos + off!(self, &self.$i)); )* };
		}
		all!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21);
	}
}

en! {
	enum Wides {
		0 None,
		1 Tuple(t: WideTuple),
		2 Fields { m: Lf, a: Lf, l: u8, b: Lf, k: Lf, c: Lf, j: Lf, d: Lf, i: u16, e: Lf, h: Lf, f: Lf, g: Lf, z: Lf },
		3 Many(a: Lf, b: u8, c: Lf, d: Lf, e: Lf, f: u16, g: Lf, h: Lf, i: Lf, j: Lf, k: Lf, l: Lf, m: Lf),
		4 Two(a: WideTuple, b: Option<WideTuple>),
	} n = 5
}

en! {
	enum Tups {
		0 T1(a: Box<Tp<(Lf,)>>),
		1 T2(a: Box<Tp<(Lf, Lf,)>>),
		2 T3(a: Box<Tp<(Lf, Lf, Lf,)>>),
		3 T4(a: Box<Tp<(Lf, Lf, Lf, Lf,)>>),
		4 T5(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf,)>>),
		5 T6(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		6 T7(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		7 T8(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		8 T9(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		9 T10(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		10 T11(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		11 T12(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		12 T13(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		13 T14(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		14 T15(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		15 T16(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		16 T17(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		17 T18(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		18 T19(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		19 T20(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		20 T21(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		21 T22(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		22 T23(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		23 T24(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		24 T25(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		25 T26(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		26 T27(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		27 T28(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		28 T29(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		29 T30(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		30 T31(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
		31 T32(a: Box<Tp<(Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf, Lf,)>>),
	} n = 32
}

en! {
	enum Arrs {
		0 A0(a: Box<[Lf; 0]>),
		1 A1(a: Box<[Lf; 1]>),
		2 A2(a: Box<[Lf; 2]>),
		3 A5(a: Box<[Lf; 5]>),
		4 A8(a: Box<[Lf; 8]>),
		5 A15(a: Box<[Lf; 15]>),
		6 A16(a: Box<[Lf; 16]>),
		7 A17(a: Box<[Lf; 17]>),
		8 A31(a: Box<[Lf; 31]>),
		9 A32(a: Box<[Lf; 32]>),
		10 A33(a: Box<[Lf; 33]>),
		11 A63(a: Box<[Lf; 63]>),
		12 A64(a: Box<[Lf; 64]>),
		13 A65(a: Box<[Lf; 65]>),
		14 A100(a: Box<[Lf; 100]>),
		15 A127(a: Box<[Lf; 127]>),
		16 A128(a: Box<[Lf; 128]>),
		17 A129(a: Box<[Lf; 129]>),
		18 A200(a: Box<[Lf; 200]>),
		19 A255(a: Box<[Lf; 255]>),
		20 A256(a: Box<[Lf; 256]>),
		21 A257(a: Box<[Lf; 257]>),
		22 A300(a: Box<[Lf; 300]>),
		23 A500(a: Box<[Lf; 500]>),
		24 A512(a: Box<[Lf; 512]>),
		25 A513(a: Box<[Lf; 513]>),
		26 A1000(a: Box<[Lf; 1000]>),
		27 A1024(a: Box<[Lf; 1024]>),
		28 A1025(a: Box<[Lf; 1025]>),
		29 Nested(a: [[Lf; 3]; 4], b: u8, c: Box<[[[Lf; 2]; 3]; 5]>),
		30 Rows(a: [Vec<Lf>; 7], b: [Option<Box<u8>>; 40]),
		31 Plain(a: Box<[u16; 3000]>, b: [u8; 9]),
		32 Pairs(a: [(u8, Lf); 9], b: Box<[(Lf, u32, Vec<u8>); 34]>),
	} n = 33
}

en! {
	enum Single { 0 Only(a: Box<u16>, b: Vec<u8>, c: String) } n = 1
}
en! {
	enum SingleNamed { 0 Only { a: Box<u8>, b: Option<Box<u16>> } } n = 1
}
en! {
	enum Shapes {
		0 U,
		1 T(),
		2 S {},
		3 Deep(a: Box<Single>, b: Box<SingleNamed>),
		4 Numbers { a: u8, b: Box<u8>, c: u64, d: Box<u64>, e: bool, f: Vec<u16>, g_: char, h: String, i: u16, j: Box<u16>, k: u8, l: Vec<Small>, m: Lf, n: Lf, o: Lf, p: Lf, q: Lf },
		5 Many(a: Lf, b: Lf, c: u8, d: Lf, e: Lf, f: Lf, g_: Lf, h: Lf, i: Lf, j: Lf, k: Lf, l: Lf, m: Lf, n: Lf),
		6 Opt(a: Option<Single>, b: Option<Option<Small>>, c: Option<(u8, Box<u8>)>),
		7 Arr(a: [Single; 2], b: [Option<String>; 3]),
		8 Sng(a: Single, b: SingleNamed),
		9 Box3(a: Box<Box<Box<u8>>>, b: Vec<Vec<Vec<u8>>>),
	} n = 10
}

#[derive(Serialize, PartialEq, Debug)]
pub struct ProxyTuple(pub u8, #[ser_with(ForeignProxy)] pub Foreign, pub Box<u16>, #[ser_with(ForeignProxy)] pub Foreign);
impl Node for ProxyTuple {
	fn gen(g: &mut G) -> Self {
		ProxyTuple(u8::gen(g), Foreign::gen(g), Box::gen(g), Foreign::gen(g))
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.0.walk(w, pos + off!(self, &self.0));
		self.1.walk(w, pos + off!(self, &self.1));
		self.2.walk(w, pos + off!(self, &self.2));
		self.3.walk(w, pos + off!(self, &self.3));
	}
}

/// User code called back during serialization.
#[derive(PartialEq, Debug, Clone)]
pub struct Probe {
	pub id: u32,
	pub act: u8,
	pub arg: u16,
}

pub const PROBE_ACTS: u64 = 8;
/// Leaves a gap so large that positions after it do not fit into 32 bits.
pub const FAR_ACT: u8 = 200;
pub const FAR_SIZES: [usize; 6] =
	[0xffff_f000, 0x7fff_fff8, 0x1_0000_0000, 0x1_0000_1238, 0x8000_0000, 0x1_7fff_ff00];
pub fn far_size(arg: u16) -> usize {
	FAR_SIZES[arg as usize % FAR_SIZES.len()]
}

fn raw_bytes(id: u32, n: usize) -> Vec<u8> {
	(0..n).map(|i| (id as usize * 7 + i * 13 + 5) as u8).collect()
}

/// User code pushed `size` bytes, which are at `pos`: the storage is just past them.
fn user_pushed<S: Serializer>(s: &S, pos: usize, size: usize) {
	hooks::rec(Rec::Push(pos));
	let (now, want) = (s.pos(), align_up(pos.wrapping_add(size), S::Storage::VALUE_ALIGNMENT));
	if size > 0 && now != want {
		hooks::err("manual", || format!("{} bytes were pushed at {:#x}, but the position is now {:#x}", size, pos, now));
	}
}

impl<S: Serializer> Serialize<S> for Probe {
	fn serialize_data(&self, s: &mut S) {
		hooks::visit();
		if self.act == FAR_ACT {
			let n = far_size(self.arg);
			let p = s.push_empty_slice::<u32>(n / 4);
			user_pushed(s, p, n / 4 * 4);
			hooks::far(p, n);
			hooks::visit();
			return;
		}
		hooks::act(self.act as usize % PROBE_ACTS as usize);
		match self.act as u64 % PROBE_ACTS {
			1 => s.storage_mut().reserve(self.arg as usize),
			2 => s.storage_mut().shrink_to_fit(),
			3 => {
				let b = harness(|| raw_bytes(self.id, self.arg as usize));
				let p = s.push_raw_bytes(&b);
				user_pushed(s, p, b.len());
				drop(b);
			}
			4 => {
				let v: (u64, u32) = (self.id as u64 * 0x1_0001, self.arg as u32);
				let p = s.push_raw(&[v.0, v.1 as u64]);
				user_pushed(s, p, 16);
			}
			5 => {
				let p = s.push_empty_slice::<u32>(self.arg as usize);
				user_pushed(s, p, self.arg as usize * 4);
			}
			6 => crate::sers::nested(self.id, self.arg),
			7 => {
				// Room for what follows, then give it back.
				s.storage_mut().reserve(self.arg as usize * 8);
				s.storage_mut().shrink_to_fit();
			}
			_ => {}
		}
		hooks::visit();
	}
}

impl Node for Probe {
	fn gen(g: &mut G) -> Self {
		g.ids += 1;
		if g.far {
			g.far = false;
			return Probe { id: g.ids, act: FAR_ACT, arg: g.rng.below(FAR_SIZES.len() as u64) as u16 };
		}
		let act = if g.acts && g.rng.chance(600) { g.rng.below(PROBE_ACTS) as u8 } else { 0 };
		Probe { id: g.ids, act, arg: g.rng.skewed(if act == 1 { 3000 } else { 80 }) as u16 }
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		w.raw(pos + off!(self, &self.id), &self.id, "probe id");
		w.raw(pos + off!(self, &self.act), &self.act, "probe act");
		w.raw(pos + off!(self, &self.arg), &self.arg, "probe arg");
		if self.act == FAR_ACT {
			pushed(w, &[], far_size(self.arg), 4, true, "large gap pushed by user code");
			return;
		}
		match self.act as u64 % PROBE_ACTS {
			1 => w.need_room(self.arg as usize),
			3 => {
				let b = raw_bytes(self.id, self.arg as usize);
				pushed(w, &b, b.len(), 1, false, "bytes pushed by user code");
			}
			4 => {
				let b: Vec<u8> = [self.id as u64 * 0x1_0001, self.arg as u64].iter().flat_map(|x| x.to_ne_bytes()).collect();
				pushed(w, &b, 16, 8, false, "value pushed by user code");
			}
			5 => {
				pushed(w, &[], self.arg as usize * 4, 4, true, "gap pushed by user code");
			}
			7 => w.need_room(self.arg as usize * 8),
			_ => {}
		}
	}
}

/// Something pushed by user code, which recorded the returned position.
fn pushed(w: &mut Walk, bytes: &[u8], size: usize, align: usize, empty: bool, what: &str) {
	let model = if empty {
		w.place_empty(size, align)
	} else {
		let m = w.place(size, align);
		Some(m).filter(|_| size > 0 || w.pushes.is_none())
	};
	if w.blind > 0 && w.recs.is_empty() {
		return;
	}
	let r = w.rec();
	if w.blind > 0 {
		return;
	}
	if let Some(Rec::Push(p)) = r {
		if p % align != 0 {
			w.err("manual", format!("{} at {:#x} is not aligned to {}", what, p, align));
		}
		if p > w.buf.len() || size > w.buf.len() - p {
			w.err("manual", format!("{}: {} bytes at {:#x} are not inside the output ({:#x} bytes)", what, size, p, w.buf.len()));
			return;
		}
		if let Some(m) = model {
			if m != p {
				let class = if w.pushes.is_some() { "manual" } else { "layout" };
				w.err(class, format!("{} is at {:#x}, expected at {:#x}", what, p, m));
			}
		}
		w.bytes_as("manual", p, bytes, what);
		if size > 0 {
			w.regions.push((p, p + size));
		}
	} else if r.is_some() {
		w.err("records", format!("{}: unexpected record {:?}", what, r));
	}
}

/// A type of another crate, serialized through a proxy.
#[derive(PartialEq, Debug)]
pub struct Foreign {
	pub tag: u16,
	pub text: String,
	pub items: Vec<u32>,
}
pub struct ForeignProxy;
impl<S: Serializer> SerializeWith<Foreign, S> for ForeignProxy {
	fn serialize_data_with(v: &Foreign, s: &mut S) {
		hooks::visit();
		v.items.serialize_data(s);
		v.text.serialize_data(s);
	}
}
impl Node for Foreign {
	fn gen(g: &mut G) -> Self {
		Foreign { tag: u16::gen(g), text: String::gen(g), items: gen_vec(g, 6) }
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.tag.walk(w, pos + off!(self, &self.tag));
		self.items.walk(w, pos + off!(self, &self.items));
		self.text.walk(w, pos + off!(self, &self.text));
	}
}

/// A type with hand-written serialization code using all push operations.
#[derive(PartialEq, Debug)]
pub struct Man {
	pub kind: u8,
	pub one: Box<u64>,
	pub items: Vec<u16>,
	pub sub: Vec<Tree>,
	pub deep: Box<Tree>,
	pub n: u16,
}

impl<S: Serializer> Serialize<S> for Man {
	fn serialize_data(&self, s: &mut S) {
		hooks::visit();
		let vw = vec_words();
		// Raw items in front
		if self.kind & 1 != 0 {
			let b = harness(|| raw_bytes(self.n as u32, self.n as usize % 23));
			let p = s.push_raw_bytes(&b);
			user_pushed(s, p, b.len());
			let p = s.push_raw(&(self.n as u32));
			user_pushed(s, p, 4);
		}
		// A plain boxed value
		s.push(&*self.one, S::Addr::from_ref(&self.one));
		hooks::visit();
		// A plain slice
		if self.items.len() > 0 {
			s.overwrite_with(|s| {
				if self.items.capacity() != self.items.len() {
					let at = S::Addr::from_ref_offset(&self.items, vw.cap);
					unsafe { s.overwrite(at, &self.items.len()) };
				}
			});
			s.push_slice(&self.items, S::Addr::from_ref_offset(&self.items, vw.ptr));
		} else {
			self.items.serialize_data(s);
		}
		// Gaps
		if self.kind & 2 != 0 {
			let p = s.push_empty::<u64>();
			user_pushed(s, p, 8);
			let p = s.push_empty_slice::<[u8; 3]>(self.n as usize % 9);
			user_pushed(s, p, self.n as usize % 9 * 3);
		}
		// A slice of values which own something
		if self.sub.len() > 0 {
			let p = s.push_and_process_slice(&self.sub, S::Addr::from_ref_offset(&self.sub, vw.ptr), |s| {
				for (i, t) in self.sub.iter().enumerate() {
					if self.kind & 4 != 0 && i == 1 {
						let p = s.push_raw_slice(&[self.n, self.n ^ 0x5a5a, 3]);
						user_pushed(s, p, 6);
					}
					t.serialize_data(s);
				}
			});
			hooks::rec(Rec::Push(p));
			// Correction issued after the slice was processed
			s.overwrite_with(|s| {
				if self.sub.capacity() != self.sub.len() {
					let at = S::Addr::from_ref_offset(&self.sub, vw.cap);
					unsafe { s.overwrite(at, &self.sub.len()) };
				}
			});
		} else {
			self.sub.serialize_data(s);
		}
		// A boxed value which owns something
		let p = s.push_and_process(&*self.deep, S::Addr::from_ref(&self.deep), |s| {
			(*self.deep).serialize_data(s);
		});
		hooks::rec(Rec::Push(p));
		if self.kind & 8 != 0 {
			let p = s.push_raw_slice(&[self.n as u32, 7, 9]);
			user_pushed(s, p, 12);
		}
		hooks::visit();
	}
}

/// The recorded position has to be the one already known.
fn same_pos(w: &mut Walk, known: usize, what: &str) {
	if w.blind > 0 && w.recs.is_empty() {
		return;
	}
	match w.rec() {
		Some(Rec::Push(p)) if p == known => {}
		None => {}
		r => w.err("manual", format!("{} is at {:#x}, but the position returned was {:?}", what, known, r)),
	}
}

impl Node for Man {
	fn gen(g: &mut G) -> Self {
		g.depth += 1;
		let m = Man {
			kind: u8::gen(g),
			one: Box::gen(g),
			items: gen_vec(g, 9),
			sub: gen_vec(g, 4),
			deep: Box::gen(g),
			n: u16::gen(g),
		};
		g.depth -= 1;
		m
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let vw = w.vw;
		self.kind.walk(w, pos + off!(self, &self.kind));
		self.n.walk(w, pos + off!(self, &self.n));
		if self.kind & 1 != 0 {
			let b = raw_bytes(self.n as u32, self.n as usize % 23);
			pushed(w, &b, b.len(), 1, false, "bytes pushed by user code");
			pushed(w, &(self.n as u32).to_ne_bytes(), 4, 4, false, "value pushed by user code");
		}
		self.one.walk(w, pos + off!(self, &self.one));
		self.items.walk(w, pos + off!(self, &self.items));
		if self.kind & 2 != 0 {
			pushed(w, &[], 8, 8, true, "gap");
			let n = self.n as usize % 9;
			pushed(w, &[], n * 3, 1, true, "gap slice");
		}
		let at = pos + off!(self, &self.sub);
		w.vec_head::<Tree>(at, self.sub.as_ptr() as usize, cap_word(&self.sub, vw), self.sub.len(), "vec");
		if self.sub.len() > 0 {
			let before = w.blind;
			let p = w.enter(
				at + vw.ptr,
				self.sub.as_ptr() as usize,
				std::mem::size_of_val(&self.sub[..]),
				std::mem::align_of::<Tree>(),
				"vec",
			);
			for (i, t) in self.sub.iter().enumerate() {
				if self.kind & 4 != 0 && i == 1 {
					let b: Vec<u8> = [self.n, self.n ^ 0x5a5a, 3].iter().flat_map(|x| x.to_ne_bytes()).collect();
					pushed(w, &b, 6, 2, false, "slice pushed by user code");
				}
				t.walk(w, p + i * std::mem::size_of::<Tree>());
			}
			same_pos(w, p, "slice");
			w.leave(before);
		}
		let before = w.blind;
		let p = w.enter(
			pos + off!(self, &self.deep),
			&*self.deep as *const Tree as usize,
			std::mem::size_of::<Tree>(),
			std::mem::align_of::<Tree>(),
			"box",
		);
		(*self.deep).walk(w, p);
		same_pos(w, p, "boxed value");
		w.leave(before);
		if self.kind & 8 != 0 {
			let b: Vec<u8> = [self.n as u32, 7, 9].iter().flat_map(|x| x.to_ne_bytes()).collect();
			pushed(w, &b, 12, 4, false, "slice pushed by user code");
		}
	}
}

/// A type which corrects its copy in the output.
#[derive(Debug)]
#[repr(C)]
pub struct Corr {
	pub a: u64,
	pub b: [u16; 5],
	pub mid: u8,
	pub c: Box<CorrIn>,
	pub d: u32,
	pub e: Vec<CorrIn>,
	pub f: [u8; 40],
	pub n: u8,
}
#[derive(Debug)]
#[repr(C)]
pub struct CorrIn {
	pub x: u32,
	pub y: u8,
	pub z: u16,
	pub t: Box<u32>,
	pub v: Vec<u8>,
}
// Corrected fields differ in the output.
impl PartialEq for Corr {
	fn eq(&self, o: &Corr) -> bool {
		self.mid == o.mid && self.c == o.c && self.e == o.e && self.n == o.n
	}
}
impl PartialEq for CorrIn {
	fn eq(&self, o: &CorrIn) -> bool {
		self.y == o.y && self.t == o.t && self.v == o.v
	}
}

impl<S: Serializer> Serialize<S> for Corr {
	fn serialize_data(&self, s: &mut S) {
		hooks::visit();
		hooks::correct(s, |s| {
			corrects();
			let x = self.a ^ 0xffff;
			unsafe { s.overwrite(S::Addr::from_ref(&self.a), &x) };
			let y = [self.b[0] ^ 1, self.b[1] ^ 2, self.b[2] ^ 3];
			unsafe { s.overwrite(S::Addr::from_ref_offset(&self.b, 4), &y) };
		});
		self.c.serialize_data(s);
		hooks::visit();
		hooks::correct(s, |s| {
			corrects();
			unsafe { s.overwrite(S::Addr::from_ref(&self.d), &!self.d) };
		});
		self.e.serialize_data(s);
		hooks::correct(s, |s| {
			corrects();
			let mut f = self.f;
			f.reverse();
			unsafe { s.overwrite(S::Addr::from_ref(&self.f), &f) };
		});
		// Without `overwrite_with`
		let x = self.a ^ 0xaaaa;
		if !hooks::no_corr() {
			unsafe { s.overwrite(S::Addr::from_ref(&self.a), &x) };
		}
	}
}
impl<S: Serializer> Serialize<S> for CorrIn {
	fn serialize_data(&self, s: &mut S) {
		self.t.serialize_data(s);
		self.v.serialize_data(s);
		hooks::correct(s, |s| {
			corrects();
			unsafe { s.overwrite(S::Addr::from_ref(&self.z), &(self.z ^ 0x0f0f)) };
			unsafe { s.overwrite(S::Addr::from_ref(&self.x), &(self.x.wrapping_add(1))) };
		});
		hooks::visit();
	}
}

/// The code of a correction runs.
fn corrects() {
	hooks::rec(Rec::Corr);
	hooks::visit();
}

fn corr_ran(w: &mut Walk) {
	if w.recs.is_empty() {
		return;
	}
	if w.fixes {
		match w.rec() {
			Some(Rec::Corr) | None => {}
			r => w.err("corr", format!("correction was not run in order ({:?})", r)),
		}
	} else if let Some(Rec::Corr) = w.recs.get(w.rec_i) {
		w.rec_i += 1;
		w.err("corr", "code of a correction was run by a serializer which takes none".into());
	}
}
fn field(w: &mut Walk, pos: usize, orig: &[u8], corrected: &[u8], what: &str) {
	let c = w.fixes;
	w.bytes_as("corr", pos, if c { corrected } else { orig }, what);
}

impl Node for Corr {
	fn gen(g: &mut G) -> Self {
		Corr {
			a: u64::gen(g),
			b: Node::gen(g),
			mid: u8::gen(g),
			c: Box::gen(g),
			d: u32::gen(g),
			e: gen_vec(g, 3),
			f: Node::gen(g),
			n: u8::gen(g),
		}
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let at = |p: usize| pos + p - self as *const _ as usize;
		field(w, at(&self.a as *const _ as usize), &self.a.to_ne_bytes(), &(self.a ^ 0xaaaa).to_ne_bytes(), "field a");
		let b: Vec<u8> = self.b.iter().flat_map(|x| x.to_ne_bytes()).collect();
		let mut c = self.b;
		c[2] = self.b[0] ^ 1;
		c[3] = self.b[1] ^ 2;
		c[4] = self.b[2] ^ 3;
		let c: Vec<u8> = c.iter().flat_map(|x| x.to_ne_bytes()).collect();
		field(w, at(&self.b as *const _ as usize), &b, &c, "field b");
		w.raw(at(&self.mid as *const _ as usize), &self.mid, "field mid");
		w.raw(at(&self.n as *const _ as usize), &self.n, "field n");
		corr_ran(w);
		self.c.walk(w, at(&self.c as *const _ as usize));
		field(w, at(&self.d as *const _ as usize), &self.d.to_ne_bytes(), &(!self.d).to_ne_bytes(), "field d");
		corr_ran(w);
		self.e.walk(w, at(&self.e as *const _ as usize));
		let mut f = self.f;
		f.reverse();
		field(w, at(&self.f as *const _ as usize), &self.f, &f, "field f");
		corr_ran(w);
	}
}
impl Node for CorrIn {
	fn gen(g: &mut G) -> Self {
		CorrIn { x: u32::gen(g), y: u8::gen(g), z: u16::gen(g), t: Box::gen(g), v: gen_vec(g, 5) }
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let at = |p: usize| pos + p - self as *const _ as usize;
		self.t.walk(w, at(&self.t as *const _ as usize));
		self.v.walk(w, at(&self.v as *const _ as usize));
		field(
			w,
			at(&self.x as *const _ as usize),
			&self.x.to_ne_bytes(),
			&self.x.wrapping_add(1).to_ne_bytes(),
			"field x",
		);
		w.raw(at(&self.y as *const _ as usize), &self.y, "field y");
		field(w, at(&self.z as *const _ as usize), &self.z.to_ne_bytes(), &(self.z ^ 0x0f0f).to_ne_bytes(), "field z");
		corr_ran(w);
	}
}

/// A type which corrects pieces of its copy, of many sizes and at many places.
#[derive(Debug)]
#[repr(C)]
pub struct Board {
	pub words: [u64; 40],
	pub cells: [u8; 301],
	pub seed: u32,
	pub next: Option<Box<Board>>,
	pub items: Vec<u32>,
}
// Corrected fields differ in the output.
impl PartialEq for Board {
	fn eq(&self, o: &Board) -> bool {
		self.seed == o.seed && self.next == o.next && self.items == o.items
	}
}

impl Board {
	/// The `n`th correction: in words or cells, where, how many, and what.
	fn edit(&self, n: u32) -> (bool, usize, usize, u64) {
		let mut r = crate::prng::Rng::new(self.seed as u64 ^ (n as u64) << 40);
		let words = r.chance(300);
		let total = if words { self.words.len() } else { self.cells.len() };
		let len = if words { r.pick(&[1, 1, 2, 3, 5, 8, 9, 12, 17, 33]) } else { r.pick(&[1, 1, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 100, 257]) };
		(words, r.below((total - len + 1) as u64) as usize, len, r.next())
	}
	fn count(&self) -> u32 {
		1 + self.seed % 6
	}
	fn apply<S: Serializer>(&self, s: &mut S, n: u32) {
		macro_rules! put {
			($s:ident, $of:expr, $t:ty, $at:ident, $len:ident, $x:ident, $($k:literal)*) => {
				match $len {
					1 => $s.overwrite(S::Addr::from_ref_offset(&$of, $at * std::mem::size_of::<$t>()), &($x as $t)),
					$( $k => {
						let mut v = [0 as $t; $k];
						for i in 0..$k {
							v[i] = $x.rotate_left(i as u32 * 11) as $t;
						}
						$s.overwrite(S::Addr::from_ref_offset(&$of, $at * std::mem::size_of::<$t>()), &v)
					} )*
					_ => unreachable!(),
				}
			};
		}
		let (words, at, len, x) = self.edit(n);
		unsafe {
			if words {
				put!(s, self.words, u64, at, len, x, 2 3 5 8 9 12 17 33)
			} else {
				put!(s, self.cells, u8, at, len, x, 2 3 4 5 7 8 9 16 17 33 65 100 257)
			}
		}
	}
}

impl<S: Serializer> Serialize<S> for Board {
	fn serialize_data(&self, s: &mut S) {
		hooks::visit();
		let n = self.count();
		// One by one
		for i in 0..n / 2 {
			hooks::correct(s, |s| {
				corrects();
				self.apply(s, i);
			});
		}
		self.next.serialize_data(s);
		self.items.serialize_data(s);
		// One in another
		hooks::correct(s, |s| {
			corrects();
			for i in n / 2..n {
				if i % 2 == 0 {
					self.apply(s, i);
				} else {
					hooks::correct(s, |s| {
						corrects();
						self.apply(s, i);
					});
				}
			}
		});
	}
}

impl Node for Board {
	fn gen(g: &mut G) -> Self {
		g.fuel -= 1;
		let more = g.fuel > 0 && g.rng.chance(600);
		let mut b = Board {
			words: [0; 40],
			cells: [0; 301],
			seed: g.rng.next() as u32,
			next: None,
			items: gen_vec(g, 4),
		};
		b.words.iter_mut().for_each(|x| *x = g.rng.next());
		b.cells.iter_mut().for_each(|x| *x = g.rng.next() as u8);
		if more && g.depth < 20 {
			g.depth += 1;
			b.next = Some(Box::gen(g));
			g.depth -= 1;
		}
		b
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let at = |p: usize| pos + p - self as *const _ as usize;
		let n = self.count();
		let (mut words, mut cells) = (self.words, self.cells);
		for i in 0..n {
			let (in_words, at, len, x) = self.edit(i);
			for k in 0..len {
				if in_words {
					words[at + k] = x.rotate_left(k as u32 * 11);
				} else {
					cells[at + k] = x.rotate_left(k as u32 * 11) as u8;
				}
			}
		}
		w.raw(at(&self.seed as *const _ as usize), &self.seed, "field seed");
		let flat = |v: &[u64; 40]| v.iter().flat_map(|x| x.to_ne_bytes()).collect::<Vec<u8>>();
		field(w, at(&self.words as *const _ as usize), &flat(&self.words), &flat(&words), "field words");
		field(w, at(&self.cells as *const _ as usize), &self.cells, &cells, "field cells");
		for _ in 0..n / 2 {
			corr_ran(w);
		}
		self.next.walk(w, at(&self.next as *const _ as usize));
		self.items.walk(w, at(&self.items as *const _ as usize));
		corr_ran(w);
		for i in n / 2..n {
			if i % 2 != 0 {
				corr_ran(w);
			}
		}
	}
}

/// A type which leaves parts out of its output, by correcting their owners to
/// be empty: instead of serializing the part, or (late) after having done so.
#[derive(Debug)]
#[repr(C)]
pub struct Prune {
	pub id: u64,
	pub a: Option<Box<[u64; 3]>>,
	pub how: u8,
	pub late: bool,
	pub b: Vec<u32>,
	pub t: Box<u64>,
	pub c: Option<Box<Prune>>,
	pub tail: Vec<u8>,
}
impl PartialEq for Prune {
	fn eq(&self, o: &Prune) -> bool {
		let l = self.how;
		self.id == o.id
			&& l == o.how
			&& (l & 1 != 0 || self.a == o.a)
			&& (l & 2 != 0 || self.b == o.b)
			&& self.t == o.t
			&& (l & 4 != 0 || self.c == o.c)
			&& self.tail == o.tail
	}
}
impl<S: Serializer> Serialize<S> for Prune {
	fn serialize_data(&self, s: &mut S) {
		hooks::visit();
		macro_rules! part {
			($f:ident, $bit:expr, $empty:expr) => {
				let out = self.how & $bit != 0;
				if !out || self.late {
					self.$f.serialize_data(s);
				}
				if out {
					hooks::correct(s, |s| {
						corrects();
						unsafe { s.overwrite(S::Addr::from_ref(&self.$f), &$empty) };
					});
				}
			};
		}
		part!(a, 1, None::<Box<[u64; 3]>>);
		part!(b, 2, std::mem::ManuallyDrop::new(Vec::<u32>::new()));
		self.t.serialize_data(s);
		part!(c, 4, None::<Box<Prune>>);
		self.tail.serialize_data(s);
	}
}

/// Words of a part which has been left out.
fn left_out(w: &mut Walk, pos: usize, orig: &[usize], empty: &[usize], late: bool, what: &str) {
	for i in 0..orig.len() {
		let at = pos + i * 8;
		let Some(got) = w.word(at) else { return };
		if !w.fixes || w.no_corr {
			if w.live && got != orig[i] {
				w.err("rawptr", format!("{} at {:#x} is {:#x}, in the input it is {:#x}", what, at, got, orig[i]));
			}
		} else if got != empty[i] {
			// What was written, and moved with the buffer as the pointer which
			// had been there would have to be?
			let then = w.base.wrapping_sub(got.wrapping_sub(empty[i]));
			let moved = late && w.mode == Mode::Complete && then % 8 == 0 && crate::heap::within(then);
			if moved && w.errs.iter().any(|e| e.0 == "recorded-ptr") {
				continue;
			}
			w.err(
				if moved { "recorded-ptr" } else { "corr" },
				format!("{} at {:#x}: {:#x} was written over it by a correction, but it is {:#x}", what, at, empty[i], got),
			);
		}
	}
}

impl Node for Prune {
	fn gen(g: &mut G) -> Self {
		g.fuel -= 2;
		let more = g.fuel > 0 && g.depth < 20;
		let mut p = Prune {
			id: g.word(),
			a: if g.rng.chance(800) { Some(Box::new([g.word(), g.rng.next(), g.rng.next()])) } else { None },
			how: g.rng.below(8) as u8,
			late: g.late && g.rng.chance(700),
			b: gen_vec(g, 6),
			t: Box::new(g.word()),
			c: None,
			tail: gen_vec(g, 40),
		};
		if more && g.rng.chance(650) {
			g.depth += 1;
			p.c = Some(Box::gen(g));
			g.depth -= 1;
		}
		p
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let at = |p: usize| pos + p - self as *const _ as usize;
		w.raw(at(&self.id as *const _ as usize), &self.id, "field id");
		w.raw(at(&self.how as *const _ as usize), &self.how, "field how");
		macro_rules! part {
			($f:ident, $bit:expr, $n:literal, $empty:expr) => {
				let p = at(&self.$f as *const _ as usize);
				let orig: [usize; $n] = unsafe { std::mem::transmute_copy(&self.$f) };
				if self.how & $bit == 0 {
					self.$f.walk(w, p);
				} else {
					if !self.late {
						left_out(w, p, &orig, &$empty, false, concat!("part ", stringify!($f)));
					} else if !w.fixes || w.no_corr {
						self.$f.walk(w, p);
					} else {
						let before = w.blind;
						w.blind += 1;
						self.$f.walk(w, p);
						w.leave(before);
						left_out(w, p, &orig, &$empty, true, concat!("part ", stringify!($f)));
					}
					corr_ran(w);
				}
			};
		}
		let mut none = [0usize; 3];
		none[w.vw.ptr / 8] = std::mem::align_of::<u32>();
		part!(a, 1, 1, [0usize]);
		part!(b, 2, 3, none);
		self.t.walk(w, at(&self.t as *const _ as usize));
		part!(c, 4, 1, [0usize]);
		self.tail.walk(w, at(&self.tail as *const _ as usize));
	}
}

#[derive(PartialEq, Debug, Serialize)]
pub struct Late(pub Vec<Prune>);
impl Node for Late {
	fn gen(g: &mut G) -> Self {
		g.late = true;
		Late(gen_vec(g, 4))
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.0.walk(w, pos)
	}
}

/// A type which looks positions up while it is serialized.
#[derive(PartialEq, Debug)]
pub struct Track {
	pub id: u32,
	pub kids: Vec<Track>,
	pub part: (u8, u16),
	pub one: Option<Box<Track>>,
	pub text: String,
	pub pr: Probe,
	pub arr: [Leaf; 2],
	pub tail: u8,
}
#[derive(PartialEq, Debug)]
pub struct Leaf {
	pub v: u16,
	pub b: Box<u8>,
}

fn look(p: usize) {
	hooks::rec(Rec::Look(p));
}

impl<S: Serializer + PosTracking> Serialize<S> for Track {
	fn serialize_data(&self, s: &mut S) {
		hooks::visit();
		look(s.pos_for(self));
		look(s.pos_for(&self.id));
		look(s.pos_for(&self.tail));
		self.kids.serialize_data(s);
		look(s.pos_for(&self.kids));
		look(s.pos_for(&self.part.1));
		self.one.serialize_data(s);
		hooks::visit();
		look(s.pos_for(self));
		look(s.pos_for(&self.one));
		self.text.serialize_data(s);
		self.pr.serialize_data(s);
		look(s.pos_for(&self.arr[1].v));
		self.arr.serialize_data(s);
		look(s.pos_for(self));
		look(s.pos_for(&self.tail));
	}
}
impl<S: Serializer + PosTracking> Serialize<S> for Leaf {
	fn serialize_data(&self, s: &mut S) {
		look(s.pos_for(self));
		self.b.serialize_data(s);
		look(s.pos_for(&self.v));
	}
}

/// Looks its position up although it has no bytes.
#[derive(PartialEq, Debug)]
pub struct TrackUnit;
impl<S: Serializer + PosTracking> Serialize<S> for TrackUnit {
	fn serialize_data(&self, s: &mut S) {
		hooks::visit();
		look(s.pos_for(self));
	}
}
impl Node for TrackUnit {
	fn gen(_: &mut G) -> Self {
		TrackUnit
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		looked(w, pos, "a value without bytes");
	}
}

/// Parts without bytes, and parts of other alignments.
#[derive(Serialize, PartialEq, Debug)]
#[ser_bound(PosTracking)]
pub struct TrackMix {
	pub z: TrackUnit,
	pub a: Vec<Leaf>,
	pub y: ((), TrackUnit, u8),
	pub b: Box<Leaf>,
	pub c: Box<TrackIn>,
	pub l: Leaf,
	pub x: TrackUnit,
}
#[derive(PartialEq, Debug)]
pub struct TrackIn {
	pub big: u128,
	pub v: Vec<u64>,
	pub s: Box<[u8; 5]>,
	pub z: TrackUnit,
	pub k: Vec<Leaf>,
	pub end: u8,
}
impl<S: Serializer + PosTracking> Serialize<S> for TrackIn {
	fn serialize_data(&self, s: &mut S) {
		look(s.pos_for(&self.end));
		self.v.serialize_data(s);
		look(s.pos_for(&self.v));
		self.s.serialize_data(s);
		look(s.pos_for(&self.big));
		self.z.serialize_data(s);
		self.k.serialize_data(s);
		look(s.pos_for(&self.end));
	}
}
impl Node for TrackIn {
	fn gen(g: &mut G) -> Self {
		TrackIn {
			big: Node::gen(g),
			v: gen_vec(g, 3),
			s: Node::gen(g),
			z: TrackUnit,
			k: gen_vec(g, 3),
			end: Node::gen(g),
		}
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.big.walk(w, pos + off!(self, &self.big));
		self.end.walk(w, pos + off!(self, &self.end));
		looked(w, pos + off!(self, &self.end), "a last field");
		self.v.walk(w, pos + off!(self, &self.v));
		looked(w, pos + off!(self, &self.v), "a vector field");
		self.s.walk(w, pos + off!(self, &self.s));
		looked(w, pos + off!(self, &self.big), "a field");
		self.z.walk(w, pos + off!(self, &self.z));
		self.k.walk(w, pos + off!(self, &self.k));
		looked(w, pos + off!(self, &self.end), "a last field, at the end");
	}
}
impl Node for TrackMix {
	fn gen(g: &mut G) -> Self {
		TrackMix {
			z: TrackUnit,
			a: gen_vec(g, 4),
			y: Node::gen(g),
			b: Node::gen(g),
			c: Node::gen(g),
			l: Node::gen(g),
			x: TrackUnit,
		}
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.z.walk(w, pos + off!(self, &self.z));
		self.a.walk(w, pos + off!(self, &self.a));
		self.y.walk(w, pos + off!(self, &self.y));
		self.b.walk(w, pos + off!(self, &self.b));
		self.c.walk(w, pos + off!(self, &self.c));
		self.l.walk(w, pos + off!(self, &self.l));
		self.x.walk(w, pos + off!(self, &self.x));
	}
}

fn looked(w: &mut Walk, known: usize, what: &str) {
	if w.blind > 0 && w.recs.is_empty() {
		return;
	}
	match w.rec() {
		Some(Rec::Look(p)) if p == known => {}
		None => {}
		r => w.err("lookup", format!("position of {} is {:#x}, the lookup gave {:x?}", what, known, r)),
	}
}

impl Node for Track {
	fn gen(g: &mut G) -> Self {
		g.fuel -= 1;
		g.depth += 1;
		let deep = g.fuel > 0 && g.depth < 20;
		let t = Track {
			id: u32::gen(g),
			kids: if deep { gen_vec(g, 4) } else { Vec::new() },
			part: Node::gen(g),
			one: if deep { Node::gen(g) } else { None },
			text: String::gen(g),
			pr: Probe::gen(g),
			arr: Node::gen(g),
			tail: u8::gen(g),
		};
		g.depth -= 1;
		t
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		let at = |p: usize| pos + p - self as *const _ as usize;
		macro_rules! p {
			($e:expr) => {
				at($e as *const _ as usize)
			};
		}
		self.id.walk(w, p!(&self.id));
		self.part.walk(w, p!(&self.part));
		self.tail.walk(w, p!(&self.tail));
		looked(w, pos, "the value");
		looked(w, p!(&self.id), "its first field");
		looked(w, p!(&self.tail), "its last field");
		self.kids.walk(w, p!(&self.kids));
		looked(w, p!(&self.kids), "a vector field, after the vector");
		looked(w, p!(&self.part.1), "a part of a field");
		self.one.walk(w, p!(&self.one));
		looked(w, pos, "the value, between fields");
		looked(w, p!(&self.one), "an option field");
		self.text.walk(w, p!(&self.text));
		self.pr.walk(w, p!(&self.pr));
		looked(w, p!(&self.arr[1].v), "a part of an array");
		self.arr.walk(w, p!(&self.arr));
		looked(w, pos, "the value, at the end");
		looked(w, p!(&self.tail), "its last field, at the end");
	}
}
impl Node for Leaf {
	fn gen(g: &mut G) -> Self {
		Leaf { v: u16::gen(g), b: Box::gen(g) }
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.v.walk(w, pos + off!(self, &self.v));
		looked(w, pos, "an element");
		self.b.walk(w, pos + off!(self, &self.b));
		looked(w, pos + off!(self, &self.v), "a field of an element");
	}
}

#[derive(Serialize, PartialEq, Debug)]
#[ser_bound(PosTracking)]
pub struct TrackHold {
	pub a: u8,
	pub t: Box<Track>,
	pub v: Vec<Track>,
	pub w: Track,
	pub o: Option<Track>,
}
impl Node for TrackHold {
	fn gen(g: &mut G) -> Self {
		TrackHold { a: u8::gen(g), t: Box::gen(g), v: gen_vec(g, 3), w: Track::gen(g), o: Node::gen(g) }
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.a.walk(w, pos + off!(self, &self.a));
		self.t.walk(w, pos + off!(self, &self.t));
		self.v.walk(w, pos + off!(self, &self.v));
		self.w.walk(w, pos + off!(self, &self.w));
		self.o.walk(w, pos + off!(self, &self.o));
	}
}

/// Large vectors, so that growth happens often or is large.
#[derive(Serialize, PartialEq, Debug)]
pub struct Big {
	pub a: Vec<u8>,
	pub b: Box<u8>,
	pub c: Vec<u64>,
	pub d: Vec<Box<u64>>,
}
impl Node for Big {
	fn gen(g: &mut G) -> Self {
		let n = g.rng.skewed(150_000) as usize;
		let x = g.rng.next();
		let m = g.rng.skewed(20_000) as usize;
		let k = g.rng.skewed(3_000);
		Big {
			a: (0..n).map(|i| (x >> (i % 57)) as u8).collect(),
			b: Box::gen(g),
			c: (0..m).map(|i| x.wrapping_mul(i as u64 | 1)).collect(),
			d: (0..k).map(|i| Box::new(i ^ x)).collect(),
		}
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.a.walk(w, pos + off!(self, &self.a));
		self.b.walk(w, pos + off!(self, &self.b));
		self.c.walk(w, pos + off!(self, &self.c));
		self.d.walk(w, pos + off!(self, &self.d));
	}
}

/// Values with one part of a length around a power of 256 or other round numbers.
#[derive(Serialize, PartialEq, Debug)]
pub struct Mass {
	pub text: String,
	pub bytes: Vec<u8>,
	pub boxes: Vec<Box<u8>>,
	pub strs: Vec<String>,
	pub rows: Vec<Vec<u16>>,
	pub odd: Vec<[u8; 3]>,
	pub opts: Vec<Option<Box<u16>>>,
	pub num: BigUint,
	pub arr: Option<Box<[Lf; 300]>>,
	pub kids: Vec<Small>,
	pub words: Vec<u64>,
	pub pairs: Vec<(u8, Lf)>,
	pub unit: Vec<()>,
}
impl Node for Mass {
	fn gen(g: &mut G) -> Self {
		let n = match g.rng.below(40) {
			0 => g.rng.pick(&[4095, 4096, 5000, 65534, 65535, 65536, 65537, 70000]),
			1 | 2 => g.rng.range(1000, 3000) as usize,
			3..=9 => g.rng.range(60, 260) as usize,
			_ => g.rng.pick(&[63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999]),
		};
		let mut n: usize = n;
		let mut big = g.rng.below(13);
		if g.fuel > 100_000 {
			// A part of a mebibyte or more
			n = g.fuel as usize;
			big = g.rng.pick(&[0, 1, 1, 5, 7, 10, 12]);
		}
		g.fuel = if n >= 1 << 17 { 8 * n as i64 } else { 300_000 };
		g.depth = 23;
		let mut m = Mass {
			text: Default::default(),
			bytes: Default::default(),
			boxes: Default::default(),
			strs: Default::default(),
			rows: Default::default(),
			odd: Default::default(),
			opts: Default::default(),
			num: Default::default(),
			arr: Default::default(),
			kids: Default::default(),
			words: Default::default(),
			pairs: Default::default(),
			unit: Default::default(),
		};
		fn many<T: Node>(g: &mut G, n: usize) -> Vec<T> {
			let mut v = Vec::with_capacity(n + g.rng.below(2) as usize);
			v.extend((0..n).map(|_| T::gen(g)));
			v
		}
		match big {
			0 => m.text = many::<u8>(g, n).into_iter().map(|x| (32 + x % 90) as char).collect(),
			1 => m.bytes = many(g, n),
			2 => m.boxes = many(g, n),
			3 => m.strs = (0..n).map(|i| "abcdefgh"[..i % 9].to_string()).collect(),
			4 => m.rows = (0..n).map(|i| (0..i as u16 % 5).collect()).collect(),
			5 => m.odd = many(g, n),
			6 => m.opts = many(g, n),
			7 => m.num = BigUint::new((0..n as u32).map(|i| i | 1).collect()),
			8 => m.arr = Some(Box::new(std::array::from_fn(|_| Lf::gen(g)))),
			9 => m.kids = (0..n.min(5000)).map(|_| Small::gen(g)).collect(),
			10 => m.words = many(g, n),
			11 => m.pairs = many(g, n),
			_ => m.unit = vec![(); n],
		}
		m
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.text.walk(w, pos + off!(self, &self.text));
		self.bytes.walk(w, pos + off!(self, &self.bytes));
		self.boxes.walk(w, pos + off!(self, &self.boxes));
		self.strs.walk(w, pos + off!(self, &self.strs));
		self.rows.walk(w, pos + off!(self, &self.rows));
		self.odd.walk(w, pos + off!(self, &self.odd));
		self.opts.walk(w, pos + off!(self, &self.opts));
		self.num.walk(w, pos + off!(self, &self.num));
		self.arr.walk(w, pos + off!(self, &self.arr));
		self.kids.walk(w, pos + off!(self, &self.kids));
		self.words.walk(w, pos + off!(self, &self.words));
		self.pairs.walk(w, pos + off!(self, &self.pairs));
		self.unit.walk(w, pos + off!(self, &self.unit));
	}
}

impl<S: Serializer, T: Serialize<S>> Serialize<S> for Generic<T> {
	fn serialize_data(&self, s: &mut S) {
		self.a.serialize_data(s);
		self.b.serialize_data(s);
		self.c.serialize_data(s);
	}
}

macro_rules! node_generic {
	($t:ty) => {
		impl Node for Generic<$t> {
			fn gen(g: &mut G) -> Self {
				Generic { a: gen_vec(g, 8), b: Node::gen(g), c: Node::gen(g) }
			}
			fn walk(&self, w: &mut Walk, pos: usize) {
				self.a.walk(w, pos + off!(self, &self.a));
				self.b.walk(w, pos + off!(self, &self.b));
				self.c.walk(w, pos + off!(self, &self.c));
			}
		}
	};
}
node_generic!(u16);

/// The longest tuple there is.
#[derive(Serialize)]
pub struct Tuple32 {
	pub t: T32,
}
impl PartialEq for Tuple32 {
	fn eq(&self, o: &Tuple32) -> bool {
		macro_rules! all { ($($i:tt)*) => { true $( && self.t.$i == o.t.$i )* }; }
		all!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31)
	}
}
impl Node for Tuple32 {
	fn gen(g: &mut G) -> Self {
		Tuple32 { t: Node::gen(g) }
	}
	fn walk(&self, w: &mut Walk, pos: usize) {
		self.t.walk(w, pos + off!(self, &self.t))
	}
}

pub type T32 = (
	u8, u16, u32, u64, i8, i16, i32, i64,
	bool, char, f32, f64, Box<u8>, Vec<u8>, String, Option<u8>,
	(u8,), [u8; 3], Box<u16>, Vec<u16>, Vec<String>, u8, Box<u8>, u16,
	Option<Box<u8>>, u128, (), Box<()>, Small, Vec<Small>, Fieldless, Box<Box<u8>>,
);

macro_rules! any {
	($( $k:literal $V:ident($t:ty), )* | $( $ok:literal $OV:ident($ot:ty), )* | $( $o6:literal $O6:ident($t6:ty), )* | $( $tk:literal $TV:ident($tt:ty), )*) => {
		/// Any value.
		#[allow(dead_code)]
		pub enum Any { $( $V($t), )* $( $OV($ot), )* $( $O6($t6), )* $( $TV($tt), )* }
		pub const COMMON: &[(u64, &str)] = &[ $( ($k, stringify!($V)) ),* ];
		pub const OVER16: &[u64] = &[ $( $ok ),* ];
		pub const OVER64: &[u64] = &[ $( $o6 ),* ];
		pub const TRACK: &[u64] = &[ $( $tk ),* ];
		impl Any {
			pub fn gen(kind: u64, g: &mut G) -> Any {
				match kind {
					$( $k => Any::$V(Node::gen(g)), )*
					$( $ok => Any::$OV(Node::gen(g)), )*
					$( $o6 => Any::$O6(Node::gen(g)), )*
					$( $tk => Any::$TV(Node::gen(g)), )*
					_ => panic!("no such type"),
				}
			}
			pub fn name(&self) -> &'static str {
				match self {
					$( Any::$V(_) => stringify!($V), )*
					$( Any::$OV(_) => stringify!($OV), )*
					$( Any::$O6(_) => stringify!($O6), )*
					$( Any::$TV(_) => stringify!($TV), )*
				}
			}
			pub fn walk(&self, w: &mut Walk, pos: usize) {
				match self {
					$( Any::$V(x) => x.walk(w, pos), )*
					$( Any::$OV(x) => x.walk(w, pos), )*
					$( Any::$O6(x) => x.walk(w, pos), )*
					$( Any::$TV(x) => x.walk(w, pos), )*
				}
			}
			pub fn size_align(&self) -> (usize, usize) {
				match self {
					$( Any::$V(_) => (std::mem::size_of::<$t>(), std::mem::align_of::<$t>()), )*
					$( Any::$OV(_) => (std::mem::size_of::<$ot>(), std::mem::align_of::<$ot>()), )*
					$( Any::$O6(_) => (std::mem::size_of::<$t6>(), std::mem::align_of::<$t6>()), )*
					$( Any::$TV(_) => (std::mem::size_of::<$tt>(), std::mem::align_of::<$tt>()), )*
				}
			}
			pub fn addr(&self) -> usize {
				match self {
					$( Any::$V(x) => x as *const _ as usize, )*
					$( Any::$OV(x) => x as *const _ as usize, )*
					$( Any::$O6(x) => x as *const _ as usize, )*
					$( Any::$TV(x) => x as *const _ as usize, )*
				}
			}
			/// Use what is at `p` as a value of this type.
			pub unsafe fn eq_at(&self, p: *const u8) -> bool {
				match self {
					$( Any::$V(x) => *(p as *const $t) == *x, )*
					$( Any::$OV(x) => *(p as *const $ot) == *x, )*
					$( Any::$O6(x) => *(p as *const $t6) == *x, )*
					$( Any::$TV(x) => *(p as *const $tt) == *x, )*
				}
			}
			pub fn eq(&self, o: &Any) -> bool {
				unsafe { self.eq_at(o.addr() as *const u8) }
			}
			pub fn ser_common<S: Serializer>(&self, s: &mut S) -> usize {
				match self {
					$( Any::$V(x) => s.serialize_value(x), )*
					_ => panic!("type not available"),
				}
			}
			pub fn one_common<S: Serializer>(&self, s: S) -> (usize, S::BorrowedStorage) {
				match self {
					$( Any::$V(x) => s.serialize(x), )*
					_ => panic!("type not available"),
				}
			}
			pub fn ser_over16<S: Serializer>(&self, s: &mut S) -> usize {
				match self {
					$( Any::$OV(x) => s.serialize_value(x), )*
					_ => self.ser_common(s),
				}
			}
			pub fn ser_over64<S: Serializer>(&self, s: &mut S) -> usize {
				match self {
					$( Any::$O6(x) => s.serialize_value(x), )*
					_ => self.ser_over16(s),
				}
			}
			pub fn ser_track<S: Serializer + PosTracking>(&self, s: &mut S) -> Option<usize> {
				match self {
					$( Any::$TV(x) => Some(s.serialize_value(x)), )*
					_ => None,
				}
			}
		}
	};
}

any! {
	0 Tree(Tree),
	1 Trees(Vec<Tree>),
	2 Text(String),
	3 Bytes(Vec<u8>),
	4 Rows(Vec<Vec<u16>>),
	5 BoxU128(Box<u128>),
	6 Tuple32(Tuple32),
	7 Prims(Prims),
	8 Opts(Option<Vec<Option<Box<Tree>>>>),
	9 Arr([Box<Tree>; 3]),
	10 Zsts(Zsts),
	11 Unit(()),
	12 UnitStruct(UnitStruct),
	13 BoxUnit(Box<()>),
	14 Nums(Nums),
	15 Odd(Odd),
	16 Niche(Niche),
	17 Wide(Wide),
	18 Chain(Chain),
	19 Proxy(WithProxy),
	20 Probes(Probes),
	21 Man(Man),
	22 Corr(Corr),
	23 Big(Big),
	24 Named(Named),
	25 ReprC(ReprC),
	26 Small(Small),
	27 Small8(u8),
	28 Word(u64),
	29 Fieldless(Fieldless),
	30 Consts(Consts<3>),
	31 Gen16(Generic<u16>),
	32 TupleStruct(TupleStruct),
	33 BoxTree(Box<Tree>),
	34 Corrs(Vec<Corr>),
	35 Mans(Vec<Man>),
	36 Pair((u8, Box<u8>)),
	37 Strings(Vec<String>),
	38 Bigs(Vec<BigInt>),
	39 Deep(Box<Box<Box<Vec<Box<Tree>>>>>),
	40 Tups(Tups),
	41 TupsVec(Vec<Tups>),
	42 Arrs(Arrs),
	43 Shapes(Vec<Shapes>),
	44 ProxyTuple(ProxyTuple),
	45 Raw(RawNames),
	46 Shape(Shapes),
	47 SingleBox(Box<Single>),
	48 Tp12(Box<Tp<(Lf, u8, Lf)>>),
	49 ArrTups([Option<Box<Tp<(Vec<u8>, Lf)>>>; 3]),
	80 Spine(Spine),
	81 Wides(Box<Wides>),
	82 Board(Board),
	83 Boards(Vec<Board>),
	84 Mass(Mass),
	85 Prune(Prune),
	86 Late(Late),
	87 Prunes(Vec<Prune>),
	|
	50 Over16(Over16),
	51 A16(A16),
	52 A16s(Vec<A16>),
	|
	60 Over64(Over64),
	61 A64(A64),
	62 A64s(Vec<A64>),
	63 A32Box(Box<A32>),
	|
	70 Track(Track),
	71 Tracks(Vec<Track>),
	72 TrackHold(TrackHold),
	73 TrackBox(Box<TrackHold>),
	74 TrackDeep(Track),
	75 TrackUnit(TrackUnit),
	76 TrackMix(TrackMix),
	77 TrackMixes(Vec<TrackMix>),
}

/// Which types a value may have.
#[derive(Clone, Copy)]
pub struct Caps {
	pub align: usize,
	pub track: bool,
}

pub fn pick_kind(rng: &mut crate::prng::Rng, caps: Caps) -> u64 {
	// Trees and other broad types more often.
	if caps.track && rng.chance(60) {
		return rng.pick(TRACK);
	}
	if caps.align >= 64 && rng.chance(150) {
		return rng.pick(OVER64);
	}
	if caps.align >= 16 && rng.chance(80) {
		return rng.pick(OVER16);
	}
	if rng.chance(350) {
		return rng.pick(&[0, 0, 1, 9, 33, 80]);
	}
	let k = COMMON[rng.below(COMMON.len() as u64) as usize].0;
	if k == 23 && rng.chance(700) || k == 84 && rng.chance(600) {
		return 0;
	}
	if k == 86 {
		return 85;
	}
	k
}

/// The value of a type for a seed.
pub fn make(kind: u64, seed: u64, size: u64, acts: u64) -> Any {
	let mut g = G::new(seed ^ kind.wrapping_mul(0x9e37_79b9), size, acts != 0);
	g.far = acts == 2;
	if kind == 18 {
		// built without recursion
		let n = g.rng.skewed(size.min(400));
		let mut next = None;
		for i in 0..n {
			next = Some(Box::new(Chain { v: (seed as u32).wrapping_add(i as u32), next }));
		}
		return Any::Chain(Chain { v: 7, next });
	}
	if kind == 80 {
		// deep, with more to do after the nested part
		let n = g.rng.skewed(size.min(300));
		let (mut down, mut kids) = (None, vec![]);
		loop {
			let x = Spine { pre: gen_vec(&mut g, 5), down, kids, post: Node::gen(&mut g), pr: Node::gen(&mut g), end: Node::gen(&mut g) };
			if g.rng.below(n + 1) == 0 || g.depth as u64 > n {
				return Any::Spine(x);
			}
			g.depth += 1;
			if g.rng.chance(700) {
				down = Some(Box::new(x));
				kids = vec![];
			} else {
				down = None;
				kids = vec![x];
				kids.reserve(g.rng.below(3) as usize);
			}
		}
	}
	if kind == 74 {
		let n = 1 + g.rng.skewed(size.min(200));
		g.fuel = 0;
		let mut x = Track::gen(&mut g);
		for _ in 0..n {
			let mut y = Track::gen(&mut g);
			if g.rng.chance(600) {
				y.one = Some(Box::new(x));
			} else {
				y.kids = vec![x];
			}
			x = y;
		}
		return Any::TrackDeep(x);
	}
	Any::gen(kind, &mut g)
}
