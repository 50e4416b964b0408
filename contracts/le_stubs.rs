//! Stand-ins with assumed contracts for the external crates the `le` layer
//! uses (`primitive_types`, `typenum`, `vecarray`), and the little-endian
//! representation of numbers.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use core::marker::PhantomData;
use core::ops::{Range, RangeTo, RangeFull};
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::core::*;
use crate::stubs::*;
verus! {

// ------------------------------------------------------------ little endian

/// The `k` low bytes of `n`, least significant first.
pub open spec fn le_bytes(n: nat, k: nat) -> Seq<u8>
	decreases k
{
	if k == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le_bytes(n / 256, (k - 1) as nat) }
}
/// The number whose bytes, least significant first, these are.
pub open spec fn le_nat(b: Seq<u8>) -> nat
	decreases b.len()
{
	if b.len() == 0 { 0 } else { b[0] as nat + 256 * le_nat(b.drop_first()) }
}
pub open spec fn bytes_max(k: nat) -> nat
	decreases k
{ if k == 0 { 1 } else { 256 * bytes_max((k - 1) as nat) } }

pub proof fn lemma_le_len(n: nat, k: nat)
	ensures le_bytes(n, k).len() == k,
	decreases k,
{ if k > 0 { lemma_le_len(n / 256, (k - 1) as nat); } }

/// Reading back what was written.
pub proof fn lemma_le_round(n: nat, k: nat)
	requires n < bytes_max(k),
	ensures le_nat(le_bytes(n, k)) == n, le_bytes(n, k).len() == k,
	decreases k,
{
	lemma_le_len(n, k);
	if k > 0 {
		assert(n / 256 < bytes_max((k - 1) as nat)) by (nonlinear_arith) requires n < 256 * bytes_max((k - 1) as nat);
		lemma_le_round(n / 256, (k - 1) as nat);
		assert(le_bytes(n, k).drop_first() =~= le_bytes(n / 256, (k - 1) as nat));
	}
}
/// Writing what was read.
pub proof fn lemma_le_back(b: Seq<u8>)
	ensures le_bytes(le_nat(b), b.len()) == b, le_nat(b) < bytes_max(b.len()),
	decreases b.len(),
{
	if b.len() > 0 {
		let r = b.drop_first();
		lemma_le_back(r);
		let n = le_nat(b);
		assert(n % 256 == b[0] as nat && n / 256 == le_nat(r)) by (nonlinear_arith) requires n == b[0] as nat + 256 * le_nat(r), b[0] < 256;
		assert(le_bytes(n, b.len()) =~= b);
	} else { assert(le_bytes(0, 0) =~= b); }
}
/// More bytes of a small number are zeros.
pub proof fn lemma_le_zero(k: nat)
	ensures le_bytes(0, k) == Seq::new(k, |i: int| 0u8),
	decreases k,
{
	if k > 0 { lemma_le_zero((k - 1) as nat); }
	assert(le_bytes(0, k) =~= Seq::new(k, |i: int| 0u8));
}
pub proof fn lemma_le_pad(n: nat, k: nat, m: nat)
	requires n < bytes_max(k), k <= m,
	ensures le_bytes(n, m) == le_bytes(n, k) + Seq::new((m - k) as nat, |i: int| 0u8), n < bytes_max(m),
	decreases k,
{
	lemma_le_len(n, k); lemma_le_len(n, m);
	if k == 0 { lemma_le_zero(m); assert(Seq::new(m, |i: int| 0u8) =~= le_bytes(n, 0) + Seq::new(m, |i: int| 0u8)); lemma_bytes_max(m); }
	else {
		assert(n / 256 < bytes_max((k - 1) as nat)) by (nonlinear_arith) requires n < 256 * bytes_max((k - 1) as nat);
		lemma_le_pad(n / 256, (k - 1) as nat, (m - 1) as nat);
		assert(n < bytes_max(m)) by (nonlinear_arith) requires n / 256 < bytes_max((m - 1) as nat), bytes_max(m) == 256 * bytes_max((m - 1) as nat);
		assert(le_bytes(n, m) =~= le_bytes(n, k) + Seq::new((m - k) as nat, |i: int| 0u8));
	}
}
pub proof fn lemma_bytes_max(k: nat)
	ensures bytes_max(k) >= 1,
	decreases k,
{ if k > 0 { lemma_bytes_max((k - 1) as nat); } }
pub proof fn lemma_maxes()
	ensures
		bytes_max(1) == 0x100, bytes_max(2) == 0x1_0000, bytes_max(4) == 0x1_0000_0000, bytes_max(8) == 0x1_0000_0000_0000_0000,
		bytes_max(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
{
	reveal_with_fuel(bytes_max, 17);
}

// `uN::to_le_bytes` / `uN::from_le_bytes`.
macro_rules! le_uint {
	($t:ty, $n:expr, $to:ident, $from:ident) => { verus! {
		#[verifier::external_body]
		pub fn $to(x: $t) -> (r: [u8; $n])
			ensures r@ == le_bytes(x as nat, $n),
		{ x.to_le_bytes() }
		#[verifier::external_body]
		pub fn $from(b: [u8; $n]) -> (r: $t)
			ensures r as nat == le_nat(b@),
		{ <$t>::from_le_bytes(b) }
	} }
}
le_uint!(u8, 1, to_le_u8, from_le_u8);
le_uint!(u16, 2, to_le_u16, from_le_u16);
le_uint!(u32, 4, to_le_u32, from_le_u32);
le_uint!(u64, 8, to_le_u64, from_le_u64);
le_uint!(u128, 16, to_le_u128, from_le_u128);

// --------------------------------------------------------- primitive_types

pub mod primitive_types {
	pub use super::{H256, H512, U256};
}

/// `primitive_types::H256`: 32 bytes.
#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct H256(pub [u8; 32]);
/// `primitive_types::H512`: 64 bytes.
#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct H512(pub [u8; 64]);

impl Clone for H256 {
	#[verifier::external_body]
	fn clone(&self) -> (r: Self)
		ensures r == *self,
	{ H256(self.0) }
}
impl Default for H256 {
	#[verifier::external_body]
	fn default() -> (r: Self)
		ensures r.0@ == Seq::new(32, |i: int| 0u8),
	{ H256([0; 32]) }
}
impl From<[u8; 32]> for H256 {
	fn from(a: [u8; 32]) -> (r: Self)
		ensures r.0 == a,
	{ H256(a) }
}
impl FromSpecImpl<[u8; 32]> for H256 {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(a: [u8; 32]) -> Self { H256(a) }
}
impl H256 {
	/// Panics unless the length fits.
	#[verifier::external_body]
	pub fn from_slice(s: &[u8]) -> (r: Self)
		requires s@.len() == 32,
		ensures r.0@ == s@,
	{ unimplemented!() }
}
impl H512 {
	#[verifier::external_body]
	pub fn from_slice(s: &[u8]) -> (r: Self)
		requires s@.len() == 64,
		ensures r.0@ == s@,
	{ unimplemented!() }
}
impl AsRef<[u8]> for H256 {
	#[verifier::external_body]
	fn as_ref(&self) -> (r: &[u8])
		ensures r@ == self.0@,
	{ &self.0 }
}
impl AsMut<[u8]> for H256 {
	#[verifier::external_body]
	fn as_mut(&mut self) -> (r: &mut [u8])
		ensures r@ == old(self).0@, final(r)@.len() == r@.len() ==> final(self).0@ == final(r)@,
	{ &mut self.0 }
}
impl IndexSpecImpl<Range<usize>> for H256 {
	open spec fn index_req(&self, r: &Range<usize>) -> bool { r.start <= r.end <= 32 }
}
impl core::ops::Index<Range<usize>> for H256 {
	type Output = [u8];
	#[verifier::external_body]
	fn index(&self, r: Range<usize>) -> (s: &[u8])
		ensures s@ == self.0@.subrange(r.start as int, r.end as int),
	{ &self.0[r] }
}
impl IndexSpecImpl<RangeTo<usize>> for H256 {
	open spec fn index_req(&self, r: &RangeTo<usize>) -> bool { r.end <= 32 }
}
impl core::ops::Index<RangeTo<usize>> for H256 {
	type Output = [u8];
	#[verifier::external_body]
	fn index(&self, r: RangeTo<usize>) -> (s: &[u8])
		ensures s@ == self.0@.take(r.end as int),
	{ &self.0[r] }
}

/// `primitive_types::U256`: a number below 2^256.
#[verifier::external_body]
pub struct U256 { w: [u64; 4] }
impl View for U256 {
	type V = nat;
	uninterp spec fn view(&self) -> nat;
}
pub broadcast axiom fn axiom_u256(x: U256)
	ensures (#[trigger] x@) < bytes_max(32);
/// A number is what its value is.
pub broadcast axiom fn axiom_u256_eq(x: U256, y: U256)
	ensures #![trigger x@, y@] x@ == y@ ==> x == y;
/// The `U256` of a machine number.
pub uninterp spec fn u256_of(n: nat) -> U256;
pub broadcast axiom fn axiom_u256_of(n: nat)
	ensures n < bytes_max(32) ==> (#[trigger] u256_of(n))@ == n;
impl From<usize> for U256 {
	#[verifier::external_body]
	fn from(n: usize) -> (r: Self)
		ensures r@ == n,
	{ unimplemented!() }
}
impl FromSpecImpl<usize> for U256 {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(n: usize) -> Self { u256_of(n as nat) }
}
impl Default for U256 {
	#[verifier::external_body]
	fn default() -> (r: U256)
		ensures r@ == 0,
	{ unimplemented!() }
}
impl PartialEq for U256 {
	#[verifier::external_body]
	fn eq(&self, o: &Self) -> (r: bool)
		ensures r == (self@ == o@),
	{ unimplemented!() }
}
impl PartialOrd for U256 {
	#[verifier::external_body]
	fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
}
impl PartialEqSpecImpl for U256 {
	open spec fn obeys_eq_spec() -> bool { true }
	open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialOrdSpecImpl for U256 {
	open spec fn obeys_partial_cmp_spec() -> bool { true }
	open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {
		Some(if self@ < o@ { core::cmp::Ordering::Less } else if self@ == o@ { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
	}
}
impl U256 {
	/// Panics when the buffer is too short.
	#[verifier::external_body]
	pub fn to_little_endian(&self, b: &mut [u8])
		requires old(b)@.len() == 32,
		ensures final(b)@ == le_bytes(self@, 32),
	{ unimplemented!() }
	/// Panics when there are more bytes than fit.
	#[verifier::external_body]
	pub fn from_little_endian(b: &[u8]) -> (r: Self)
		requires b@.len() <= 32,
		ensures r@ == le_nat(b@),
	{ unimplemented!() }
	/// Panics when the number does not fit.
	#[verifier::external_body]
	pub fn as_usize(&self) -> (r: usize)
		requires self@ <= usize::MAX,
		ensures r == self@,
	{ unimplemented!() }
}

// ----------------------------------------------------------------- typenum

pub mod typenum {
	pub use super::{Unsigned, U1, U2, U4, U8, U16, U32};
}
/// `typenum::Unsigned`: a type-level number.
pub trait Unsigned {
	spec fn num() -> nat;
	fn to_u64() -> (r: u64)
		ensures r == Self::num();
	fn to_usize() -> (r: usize)
		ensures r == Self::num();
}
macro_rules! unum {
	($t:ident, $n:expr) => { verus! {
		pub struct $t;
		impl Unsigned for $t {
			open spec fn num() -> nat { $n }
			fn to_u64() -> u64 { $n }
			fn to_usize() -> usize { $n }
		}
		impl<T> ArrayLength<T> for $t {
			open spec fn n() -> nat { $n }
			fn to_u64() -> u64 { $n }
			fn to_usize() -> usize { $n }
		}
	} }
}
unum!(U1, 1);
unum!(U2, 2);
unum!(U4, 4);
unum!(U8, 8);
unum!(U16, 16);
unum!(U32, 32);

// ------------------------------------------------- generic_array, vecarray

pub mod generic_array {
	pub use crate::stubs::{GenericArray, ArrayLength};
}
pub mod vecarray {
	pub use super::VecArray;
}
pub mod digest {
	pub use crate::stubs::Digest;
}
/// `vecarray::VecArray`: a vector whose length is its type's.
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(T)]
pub struct VecArray<T, N: Unsigned> { data: Vec<T>, n: PhantomData<N> }
impl<T, N: Unsigned> View for VecArray<T, N> {
	type V = Seq<T>;
	uninterp spec fn view(&self) -> Seq<T>;
}
pub broadcast axiom fn axiom_vecarray_len<T, N: Unsigned>(a: VecArray<T, N>)
	ensures (#[trigger] a@).len() == N::num();

/// Array, generic array or vector array as a slice (`Deref`, `[..]`).
pub fn array_slice<'a, T, N: ArrayLength<T>>(a: &'a GenericArray<T, N>) -> (r: &'a [T])
	ensures r@ == a@,
{ garr_slice(a) }
#[verifier::external_body]
pub fn garr_slice<'a, T, N: ArrayLength<T>>(a: &'a GenericArray<T, N>) -> (r: &'a [T])
	ensures r@ == a@,
{ unimplemented!() }
#[verifier::external_body]
pub fn varr_slice<'a, T, N: Unsigned>(a: &'a VecArray<T, N>) -> (r: &'a [T])
	ensures r@ == a@,
{ unimplemented!() }
/// `GenericArray::default`: as many items as it has.
#[verifier::external_body]
pub fn garr_default<T: Default, N: ArrayLength<T>>() -> (r: GenericArray<T, N>)
	ensures r@.len() == N::n(),
{ unimplemented!() }
/// `GenericArray::from_exact_iter`: only with as many items as it has.
#[verifier::external_body]
pub fn garr_from_exact_iter<T, N: ArrayLength<T>>(v: Vec<T>) -> (r: Option<GenericArray<T, N>>)
	ensures r is Some <==> v@.len() == N::n(), r matches Some(a) ==> a@ == v@,
{ unimplemented!() }
/// `VecArray::try_from`: only with as many items as it has.
#[verifier::external_body]
pub fn varr_try_from<T, N: Unsigned>(v: Vec<T>) -> (r: Result<VecArray<T, N>, ()>)
	ensures r is Ok <==> v@.len() == N::num(), r matches Ok(a) ==> a@ == v@,
{ unimplemented!() }

/// `into_iter().cloned().collect::<Vec<u8>>()` of an array.
pub fn array_vec<const N: usize>(a: [u8; N]) -> (r: Vec<u8>)
	ensures r@ == a@,
{
	let mut r: Vec<u8> = Vec::new();
	let mut i: usize = 0;
	while i < N
		invariant i <= N, r@ == a@.take(i as int),
		decreases N - i,
	{
		r.push(a[i]);
		proof { assert(r@ =~= a@.take(i + 1)); }
		i += 1;
	}
	proof { assert(r@ =~= a@); }
	r
}

pub assume_specification<T, A: std::alloc::Allocator> [<Vec<T, A> as AsRef<[T]>>::as_ref] (a: &Vec<T, A>) -> (r: &[T])
	ensures r@ == a@;
/// `<[T; N] as AsRef<[T]>>::as_ref`.
pub assume_specification<T, const N: usize> [<[T; N] as AsRef<[T]>>::as_ref] (a: &[T; N]) -> (r: &[T])
	ensures r@ == a@;

} // verus!
