//! Value shapes with an independent ssz root oracle.
use crate::util::*;
use bm_le::*;
use generic_array::{GenericArray, ArrayLength};
use primitive_types::{H256, H512, U256};
use std::fmt::Debug;
use typenum::Unsigned;
use vecarray::VecArray;
use std::convert::TryFrom;

pub trait Ssz: Sized + PartialEq + Debug {
	fn gen(r: &mut Rng) -> Self;
	/// reference root; `inh` selects the empty construct
	fn oracle(&self, inh: bool) -> Value;
}
fn mixl(r: Value, n: usize) -> Value { rh(&r, &lenval(n as u64)) }
fn list_cap(n: usize) -> u64 { n as u64 }

pub fn gen_len(r: &mut Rng) -> usize { match r.below(8) { 0 => 0, 1 => 1, 2..=5 => r.us(20), 6 => r.us(70), _ => [31usize, 32, 33, 63, 64, 65, 127, 128, 129][r.us(9)] } }

macro_rules! ssz_uint { ($($t:ty),*) => { $(
	impl Ssz for $t {
		fn gen(r: &mut Rng) -> Self { let b = r.bytes(16); let mut a = <$t>::default().to_le_bytes(); let n = a.len(); let k = r.us(n + 1); a[..k].copy_from_slice(&b[..k]); if r.below(12) == 0 { <$t>::max_value() } else { <$t>::from_le_bytes(a) } }
		fn oracle(&self, _: bool) -> Value { let mut x = [0u8; 32]; let mut v = *self; let mut i = 0; while i < std::mem::size_of::<$t>() { x[i] = (v & 0xff) as u8; if std::mem::size_of::<$t>() > 1 { v = v.checked_shr(8).unwrap_or(0); } i += 1 } Value(x.into()) }
	}
	impl Packed for $t { const BITS: usize = std::mem::size_of::<$t>() * 8; fn bytes(xs: &[Self]) -> Vec<u8> { xs.iter().flat_map(|x| { let o = x.oracle(true); ((o.0).0)[..std::mem::size_of::<$t>()].to_vec() }).collect() } }
)* } }
/// Types with a packed ("compact") form.
pub trait Packed: Sized { const BITS: usize; fn bytes(xs: &[Self]) -> Vec<u8>; }
ssz_uint!(u8, u16, u32, u64, u128);
impl Ssz for bool { fn gen(r: &mut Rng) -> Self { r.bool() } fn oracle(&self, _: bool) -> Value { chunk(&[*self as u8]) } }
impl Packed for bool { const BITS: usize = 1; fn bytes(xs: &[bool]) -> Vec<u8> { xs.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| if *b { a + (1 << i) } else { a })).collect() } }
impl Ssz for U256 {
	fn gen(r: &mut Rng) -> Self { let mut b = [0u8; 32]; let k = r.us(33); for i in 0..k { b[i] = r.next() as u8 } U256::from_little_endian(&b) }
	fn oracle(&self, _: bool) -> Value { let mut x = [0u8; 32]; for i in 0..32 { x[i] = self.byte(i) } Value(x.into()) }
}
impl Packed for U256 { const BITS: usize = 256; fn bytes(xs: &[U256]) -> Vec<u8> { xs.iter().flat_map(|x| (x.oracle(true).0).0.to_vec()).collect() } }
impl Ssz for H256 { fn gen(r: &mut Rng) -> Self { H256::from_slice(&r.bytes(32)) } fn oracle(&self, _: bool) -> Value { Value(self.clone()) } }
impl Ssz for H512 { fn gen(r: &mut Rng) -> Self { H512::from_slice(&r.bytes(64)) } fn oracle(&self, _: bool) -> Value { rh(&chunk(&self.0[..32]), &chunk(&self.0[32..])) } }
impl Ssz for Value { fn gen(r: &mut Rng) -> Self { Value(H256::from_slice(&r.bytes(32))) } fn oracle(&self, _: bool) -> Value { self.clone() } }
impl Ssz for () { fn gen(_: &mut Rng) -> Self { () } fn oracle(&self, _: bool) -> Value { zero() } }

fn roots<T: Ssz>(xs: &[T], inh: bool) -> Vec<Value> { xs.iter().map(|x| x.oracle(inh)).collect() }
pub fn packed_root<T: Packed>(xs: &[T], max: Option<u64>, inh: bool) -> Value {
	let b = T::bytes(xs);
	let ch: Vec<Value> = b.chunks(32).map(chunk).collect();
	let cap = match max { Some(m) => ((m as u128 * T::BITS as u128 + 255) / 256) as u64, None => ch.len() as u64 };
	merkle(&ch, cap, inh)
}
pub fn comp_root<T: Ssz>(xs: &[T], max: Option<u64>, inh: bool) -> Value { merkle(&roots(xs, inh), max.unwrap_or(xs.len() as u64), inh) }
fn gvec<T: Ssz>(r: &mut Rng, n: usize) -> Vec<T> { (0..n).map(|_| T::gen(r)).collect() }

impl<T: Ssz> Ssz for Vec<T> { fn gen(r: &mut Rng) -> Self { let n = gen_len(r).min(40); gvec(r, n) } fn oracle(&self, inh: bool) -> Value { mixl(comp_root(self, Some(list_cap(self.len())), inh), self.len()) } }
impl<T: Ssz, ML: Unsigned + PartialEq + Debug> Ssz for MaxVec<T, ML> {
	fn gen(r: &mut Rng) -> Self { let m = ML::to_u64().min(140) as usize; let n = match r.below(4) { 0 => m, 1 => m.saturating_sub(1), _ => gen_len(r).min(m) }; MaxVec::from(gvec::<T>(r, n)) }
	fn oracle(&self, inh: bool) -> Value { mixl(comp_root(&self.0, Some(ML::to_u64()), inh), self.0.len()) }
}
impl<T: Ssz, L: ArrayLength<T>> Ssz for GenericArray<T, L> where GenericArray<T, L>: Debug { fn gen(r: &mut Rng) -> Self { GenericArray::from_exact_iter(gvec::<T>(r, L::to_usize())).unwrap() } fn oracle(&self, inh: bool) -> Value { comp_root(&self[..], None, inh) } }
#[derive(Debug, PartialEq)]
pub struct VA<T, L: Unsigned>(pub VecArray<T, L>);
impl<T: Ssz + Clone, L: Unsigned + Debug + PartialEq> Ssz for VecArray<T, L> where VecArray<T, L>: Debug + PartialEq { fn gen(r: &mut Rng) -> Self { VecArray::try_from(gvec::<T>(r, L::to_usize())).map_err(|_| ()).unwrap() } fn oracle(&self, inh: bool) -> Value { comp_root(&self[..], None, inh) } }
impl<T: Ssz + Packed, L: ArrayLength<T>> Ssz for Compact<GenericArray<T, L>> where GenericArray<T, L>: Debug { fn gen(r: &mut Rng) -> Self { Compact(GenericArray::gen(r)) } fn oracle(&self, inh: bool) -> Value { packed_root(&self.0[..], None, inh) } }
impl<T: Ssz + Packed + Clone, L: Unsigned + Debug + PartialEq> Ssz for Compact<VecArray<T, L>> where VecArray<T, L>: Debug + PartialEq { fn gen(r: &mut Rng) -> Self { Compact(VecArray::gen(r)) } fn oracle(&self, inh: bool) -> Value { packed_root(&self.0[..], None, inh) } }
impl<T: Ssz + Packed, ML: Unsigned + PartialEq + Debug> Ssz for Compact<MaxVec<T, ML>> { fn gen(r: &mut Rng) -> Self { Compact(MaxVec::gen(r)) } fn oracle(&self, inh: bool) -> Value { mixl(packed_root(&(self.0).0, Some(ML::to_u64()), inh), (self.0).0.len()) } }
impl<T: Ssz> Ssz for Option<T> { fn gen(r: &mut Rng) -> Self { if r.below(3) == 0 { None } else { Some(T::gen(r)) } } fn oracle(&self, inh: bool) -> Value { match self { None => rh(&zero(), &lenval(0)), Some(x) => rh(&x.oracle(inh), &lenval(1)) } } }
impl<T: Ssz> Ssz for Box<T> { fn gen(r: &mut Rng) -> Self { Box::new(T::gen(r)) } fn oracle(&self, inh: bool) -> Value { (**self).oracle(inh) } }
macro_rules! ssz_arr { ($($n:expr),*) => { $( impl<T: Ssz + Default + Copy> Ssz for [T; $n] { fn gen(r: &mut Rng) -> Self { let mut a = [T::default(); $n]; for i in 0..$n { a[i] = T::gen(r) } a } fn oracle(&self, inh: bool) -> Value { comp_root(&self[..], None, inh) } } )* } }
ssz_arr!(1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32);
macro_rules! ssz_tup { ($($i:ident $t:ident),*) => { impl<$($t: Ssz),*> Ssz for ($($t,)*) { fn gen(r: &mut Rng) -> Self { ($($t::gen(r),)*) } fn oracle(&self, inh: bool) -> Value { let ($($i,)*) = self; let v = vec![$($i.oracle(inh)),*]; merkle(&v, v.len() as u64, inh) } } } }
ssz_tup!(a A, b B);
ssz_tup!(a A, b B, c C);
ssz_tup!(a A, b B, c C, d D);
ssz_tup!(a A, b B, c C, d D, e E);
ssz_tup!(a A, b B, c C, d D, e E, f F);
ssz_tup!(a A, b B, c C, d D, e E, f F, g G);
ssz_tup!(a A, b B, c C, d D, e E, f F, g G, h H);
ssz_tup!(a A, b B, c C, d D, e E, f F, g G, h H, i I);

// ---- derived ----
fn fields(v: Vec<Value>, inh: bool) -> Value { merkle(&v, v.len() as u64, inh) }

#[derive(IntoTree, FromTree, Partialable, PartialEq, Debug, Clone)]
pub struct Three { pub a: u32, pub b: u64, pub c: u128 }
impl Ssz for Three { fn gen(r: &mut Rng) -> Self { Three { a: u32::gen(r), b: u64::gen(r), c: u128::gen(r) } } fn oracle(&self, i: bool) -> Value { fields(vec![self.a.oracle(i), self.b.oracle(i), self.c.oracle(i)], i) } }

#[derive(IntoTree, FromTree, PartialEq, Debug, Clone)]
pub struct One { pub a: U256 }
impl Ssz for One { fn gen(r: &mut Rng) -> Self { One { a: U256::gen(r) } } fn oracle(&self, i: bool) -> Value { self.a.oracle(i) } }

#[derive(IntoTree, FromTree, PartialEq, Debug, Clone)]
pub struct Tup { pub x: bool, pub y: Three }
impl Ssz for Tup { fn gen(r: &mut Rng) -> Self { Tup { x: bool::gen(r), y: Three::gen(r) } } fn oracle(&self, i: bool) -> Value { fields(vec![self.x.oracle(i), self.y.oracle(i)], i) } }

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Config {
	pub a: u64,
	#[bm(compact)]
	pub d: GenericArray<u64, typenum::U5>,
	pub n: Vec<Three>,
	#[bm(compact)]
	pub f: MaxVec<u64, typenum::U9>,
	pub g: Option<Tup>,
	#[bm(compact)]
	pub h: MaxVec<bool, typenum::U300>,
	pub m: MaxVec<Vec<u8>, typenum::U6>,
}
impl Ssz for Config {
	fn gen(r: &mut Rng) -> Self { Config { a: u64::gen(r), d: GenericArray::gen(r), n: { let k = r.us(6); gvec(r, k) }, f: MaxVec::gen(r), g: Option::gen(r), h: MaxVec::gen(r), m: MaxVec::gen(r) } }
	fn oracle(&self, i: bool) -> Value {
		fields(vec![self.a.oracle(i), packed_root(&self.d[..], None, i), self.n.oracle(i), mixl(packed_root(&self.f.0, Some(9), i), self.f.0.len()),
			self.g.oracle(i), mixl(packed_root(&self.h.0, Some(300), i), self.h.0.len()), self.m.oracle(i)], i)
	}
}

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub enum En { A(u128), B { c: u64, d: u32, e: Vec<u16> }, E, F(Three, bool), G { #[bm(compact)] v: MaxVec<u16, typenum::U33>, w: u8 }, H }
impl Ssz for En {
	fn gen(r: &mut Rng) -> Self { match r.below(6) { 0 => En::A(u128::gen(r)), 1 => En::B { c: u64::gen(r), d: u32::gen(r), e: { let k = r.us(5); gvec(r, k) } }, 2 => En::E, 3 => En::F(Three::gen(r), bool::gen(r)), 4 => En::G { v: MaxVec::gen(r), w: u8::gen(r) }, _ => En::H } }
	fn oracle(&self, i: bool) -> Value {
		let (r, t) = match self {
			En::A(x) => (x.oracle(i), 0), En::B { c, d, e } => (fields(vec![c.oracle(i), d.oracle(i), e.oracle(i)], i), 1), En::E => (zero(), 2),
			En::F(a, b) => (fields(vec![a.oracle(i), b.oracle(i)], i), 3),
			En::G { v, w } => (fields(vec![mixl(packed_root(&v.0, Some(33), i), v.0.len()), w.oracle(i)], i), 4), En::H => (zero(), 5) };
		rh(&r, &lenval(t))
	}
}

#[derive(IntoTree, FromTree, Partialable, PartialEq, Debug, Clone)]
pub struct Nest { pub d: u16, pub basic: Three, pub h: H256 }
impl Ssz for Nest { fn gen(r: &mut Rng) -> Self { Nest { d: u16::gen(r), basic: Three::gen(r), h: H256::gen(r) } } fn oracle(&self, i: bool) -> Value { fields(vec![self.d.oracle(i), self.basic.oracle(i), self.h.oracle(i)], i) } }

/// A list field that can be accessed partially.
#[derive(PartialEq, Debug, Clone)]
pub struct PList(pub Vec<u64>);
impl IntoTree for PList { fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<<DB::Construct as Construct>::Value, Error<DB::Error>> where DB::Construct: CompatibleConstruct { self.0.into_tree(db) } }
impl FromTree for PList { fn from_tree<DB: ReadBackend>(root: &<DB::Construct as Construct>::Value, db: &mut DB) -> Result<Self, Error<DB::Error>> where DB::Construct: CompatibleConstruct { Ok(PList(Vec::from_tree(root, db)?)) } }
impl Partialable for PList { type Value = PartialVec<u64>; }
impl Ssz for PList { fn gen(r: &mut Rng) -> Self { let n = gen_len(r); PList(gvec(r, n)) } fn oracle(&self, i: bool) -> Value { self.0.oracle(i) } }

#[derive(IntoTree, FromTree, Partialable, PartialEq, Debug, Clone)]
pub struct Deep { pub p: PList, pub nest: Nest, pub q: PList, pub z: U256, pub t: u8 }
impl Ssz for Deep { fn gen(r: &mut Rng) -> Self { Deep { p: PList::gen(r), nest: Nest::gen(r), q: PList::gen(r), z: U256::gen(r), t: u8::gen(r) } } fn oracle(&self, i: bool) -> Value { fields(vec![self.p.oracle(i), self.nest.oracle(i), self.q.oracle(i), self.z.oracle(i), self.t.oracle(i)], i) } }
