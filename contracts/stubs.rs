//! Stand-ins with assumed contracts for the external crates `digest` and
//! `generic_array` (only what the verified code calls).
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use core::marker::PhantomData;
use core::ops::Range;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
verus! {

pub uninterp spec fn digest_of<D>(bytes: Seq<u8>) -> Seq<u8>;

/// `generic_array::GenericArray`: a sequence whose length is its type's.
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(T)]
pub struct GenericArray<T, N> { data: Vec<T>, n: PhantomData<N> }
impl<T, N> View for GenericArray<T, N> {
	type V = Seq<T>;
	uninterp spec fn view(&self) -> Seq<T>;
}
pub broadcast axiom fn axiom_array_len<T, N: ArrayLength<T>>(a: GenericArray<T, N>)
	ensures (#[trigger] a@).len() == N::n();
impl<N: ArrayLength<u8>> GenericArray<u8, N> {
	#[verifier::external_body]
	pub fn default() -> (r: Self)
		ensures r@ == Seq::new(N::n(), |i: int| 0u8),
	{ unimplemented!() }
}
impl<T, N> vstd::std_specs::core::IndexSpecImpl<Range<usize>> for GenericArray<T, N> {
	open spec fn index_req(&self, r: &Range<usize>) -> bool { r.start <= r.end <= self@.len() }
}
impl<T, N> core::ops::Index<Range<usize>> for GenericArray<T, N> {
	type Output = [T];
	#[verifier::external_body]
	fn index(&self, r: Range<usize>) -> (s: &[T])
		ensures s@ == self@.subrange(r.start as int, r.end as int),
	{ &self.data[r] }
}
impl<T, N> core::ops::IndexMut<Range<usize>> for GenericArray<T, N> {
	#[verifier::external_body]
	fn index_mut(&mut self, r: Range<usize>) -> (s: &mut [T])
		ensures
			s@ == old(self)@.subrange(r.start as int, r.end as int),
			final(s)@.len() == s@.len() ==> final(self)@ == old(self)@.take(r.start as int) + final(s)@ + old(self)@.skip(r.end as int),
	{ &mut self.data[r] }
}
impl<T, N> vstd::std_specs::core::IndexSpecImpl<usize> for GenericArray<T, N> {
	open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl<T, N> core::ops::Index<usize> for GenericArray<T, N> {
	type Output = T;
	#[verifier::external_body]
	fn index(&self, i: usize) -> (s: &T)
		ensures *s == self@[i as int],
	{ &self.data[i] }
}
impl<T, N> core::ops::IndexMut<usize> for GenericArray<T, N> {
	#[verifier::external_body]
	fn index_mut(&mut self, i: usize) -> (s: &mut T)
		ensures *s == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(s)),
	{ &mut self.data[i] }
}
impl<T, N: ArrayLength<T>> GenericArray<T, N> {
	#[verifier::external_body]
	pub fn as_slice(&self) -> (r: &[T])
		ensures r@ == self@,
	{ &self.data }
}
/// A generic array is its items (`From` of a type for itself is the identity).
pub broadcast axiom fn axiom_array_value<N: ArrayLength<u8>>(b: Seq<u8>)
	ensures b.len() == N::n() ==> (#[trigger] value_of::<GenericArray<u8, N>>(b))@ == b;
pub assume_specification<Idx: Clone> [<Range<Idx> as Clone>::clone] (r: &Range<Idx>) -> (s: Range<Idx>)
	ensures call_ensures(Idx::clone, (&r.start,), s.start), call_ensures(Idx::clone, (&r.end,), s.end);

/// `digest::Digest`: a function of the concatenation of what was input.
pub trait Digest: Sized {
	type OutputSize;
	spec fn input_so_far(&self) -> Seq<u8>;
	fn new() -> (r: Self)
		ensures r.input_so_far() == Seq::<u8>::empty();
	fn input(&mut self, data: &[u8])
		ensures final(self).input_so_far() == old(self).input_so_far() + data@;
	fn result(self) -> (r: GenericArray<u8, Self::OutputSize>)
		ensures r@ == digest_of::<Self>(self.input_so_far());
}

/// The bytes of a value (`AsRef<[u8]>`).
pub uninterp spec fn bytes_of<V: ?Sized>(v: &V) -> Seq<u8>;
/// The value made of the bytes of a digest (`From<GenericArray<u8, _>>`).
pub uninterp spec fn value_of<V>(bytes: Seq<u8>) -> V;

#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
	type ExternalTraitSpecificationFor: AsRef<T>;
	fn as_ref(&self) -> &T;
}
#[verifier::external_trait_specification]
pub trait ExAsMut<T: core::marker::PointeeSized>: core::marker::PointeeSized {
	type ExternalTraitSpecificationFor: AsMut<T>;
	fn as_mut(&mut self) -> &mut T;
}
/// `AsMut<[u8]>` of a value gives its bytes, to be changed.
pub axiom fn axiom_as_mut<V: AsMut<[u8]>>()
	ensures forall|v: &mut V, r: &mut [u8]| #[trigger] call_ensures(<V as AsMut<[u8]>>::as_mut, (v,), r) ==>
		r@ == bytes_of(&*v) && (final(r)@.len() == r@.len() ==> bytes_of(&*final(v)) == final(r)@);
/// `AsRef<[u8]>` of a value gives its bytes.
pub broadcast axiom fn axiom_as_ref<'a, V: AsRef<[u8]>>(v: &'a V, r: &'a [u8])
	ensures #[trigger] call_ensures(<V as AsRef<[u8]>>::as_ref, (v,), r) ==> r@ == bytes_of(v);
/// `AsRef` of a box is its content.
pub assume_specification<T, A: std::alloc::Allocator> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T)
	where T: std::marker::MetaSized + ?Sized
	ensures r == &**b;
pub broadcast axiom fn axiom_from_digest_obeys<V: From<GenericArray<u8, N>>, N>()
	ensures #[trigger] <V as FromSpec<GenericArray<u8, N>>>::obeys_from_spec();
/// `From<GenericArray>` of a value is a function of the bytes.
pub broadcast axiom fn axiom_from_digest<V: From<GenericArray<u8, N>>, N>(a: GenericArray<u8, N>)
	ensures
		#[trigger] <V as FromSpec<GenericArray<u8, N>>>::from_spec(a) == value_of::<V>(a@);

pub broadcast axiom fn axiom_into_array_obeys<V: Into<GenericArray<u8, N>>, N>()
	ensures #[trigger] <V as IntoSpec<GenericArray<u8, N>>>::obeys_into_spec();

pub proof fn lemma_bytes()
	ensures
		forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s,
		forall|s: Seq<u8>| #[trigger] s.subrange(0, s.len() as int) == s,
{
	assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
	assert forall|s: Seq<u8>| #[trigger] s.subrange(0, s.len() as int) == s by { assert(s.subrange(0, s.len() as int) =~= s); }
}


/// `generic_array::ArrayLength` / `typenum::Unsigned`: a type-level number.
pub trait ArrayLength<T> {
	spec fn n() -> nat;
	fn to_u64() -> (r: u64)
		ensures r == Self::n();
	fn to_usize() -> (r: usize)
		ensures r == Self::n();
}

pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (d: &std::collections::VecDeque<T, A>) -> (r: bool)
	ensures r == (d@.len() == 0);

/// `values.iter().cloned().collect::<VecDeque<_>>()`, the expression it stands for.
pub fn cloned_deque<T: Clone>(values: &[T]) -> (r: std::collections::VecDeque<T>)
	ensures r@.len() == values@.len(), forall|i: int| 0 <= i < values@.len() ==> call_ensures(T::clone, (&values@[i],), #[trigger] r@[i]),
{
	let mut r = std::collections::VecDeque::new();
	let mut i: usize = 0;
	while i < values.len()
		invariant
			i <= values@.len(), r@.len() == i,
			forall|k: int| 0 <= k < i ==> call_ensures(T::clone, (&values@[k],), #[trigger] r@[k]),
		decreases values@.len() - i,
	{
		r.push_back(values[i].clone());
		i += 1;
	}
	r
}

/// `l.into_iter().chain(r.into_iter()).collect::<HashMap<_, _>>()`: later entries win.
#[verifier::external_body]
pub fn map_union<K: Eq + core::hash::Hash, V>(l: std::collections::HashMap<K, V>, r: std::collections::HashMap<K, V>) -> (m: std::collections::HashMap<K, V>)
	ensures vstd::std_specs::hash::obeys_key_model::<K>() ==> m@ == l@.union_prefer_right(r@),
{ l.into_iter().chain(r.into_iter()).collect() }

/// An iterator over what a collection gives, in its order (kept last first).
pub struct Items<T> { pub rest: Vec<T> }
/// The items an `IntoIterator` gives.
pub uninterp spec fn items_of<I: IntoIterator>(i: I) -> Seq<I::Item>;
impl<T> Items<T> {
	pub open spec fn left(&self) -> Seq<T> { self.rest@.reverse() }
	pub fn next(&mut self) -> (r: Option<T>)
		ensures
			old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
			old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1),
	{
		let r = self.rest.pop();
		proof { assert(old(self).left().len() > 0 ==> self.left() =~= old(self).left().skip(1)); }
		r
	}
}
/// `i.into_iter()`, for a finite iterator.
#[verifier::external_body]
pub fn iter_items<I: IntoIterator>(i: I) -> (r: Items<I::Item>)
	ensures r.left() == items_of(i),
{ let mut v: Vec<I::Item> = i.into_iter().collect(); v.reverse(); Items { rest: v } }
/// `v.into_iter().rev()`.
pub fn items_rev<T>(v: Vec<T>) -> (r: Items<T>)
	ensures r.left() == v@.reverse(),
{ Items { rest: v } }

/// Deprecated spelling of `usize::MAX`.
pub assume_specification [usize::max_value] () -> (r: usize)
	ensures r == usize::MAX;

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + core::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
	ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { b } else { a });

/// `Clone` of a pair: its components are cloned.
pub fn clone_pair<A: Clone, B: Clone>(p: &(A, B)) -> (r: (A, B))
	ensures call_ensures(A::clone, (&p.0,), r.0), call_ensures(B::clone, (&p.1,), r.1),
{ (p.0.clone(), p.1.clone()) }

/// `v.into_iter().enumerate()`, collected.
pub fn numbered<T>(v: Vec<T>) -> (r: Vec<(usize, T)>)
	ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, v@[i]),
{
	let mut r: Vec<(usize, T)> = Vec::new();
	let n = v.len();
	for x in it: v
		invariant
			it.seq() == v@, v@.len() == n,
			r@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> #[trigger] r@[i] == (i as usize, v@[i]),
	{
		let i = r.len();
		r.push((i, x));
	}
	r
}

/// `m.entry(k).or_insert(v)`.
#[verifier::external_body]
pub fn entry_or_insert<V>(m: &mut std::collections::HashMap<usize, V>, k: usize, v: V) -> (r: &mut V)
	ensures
		*r == (if old(m)@.contains_key(k) { old(m)@[k] } else { v }),
		final(m)@ == old(m)@.insert(k, *final(r)),
{ m.entry(k).or_insert(v) }

/// The order in which a map gives its entries.
pub uninterp spec fn order_of<V>(m: std::collections::HashMap<usize, V>) -> Seq<(usize, V)>;
/// `m.into_iter()`, collected: every entry once, in some order.
#[verifier::external_body]
pub fn entries<V>(m: std::collections::HashMap<usize, V>) -> (r: Vec<(usize, V)>)
	ensures
		r@ == order_of(m),
		forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
		forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1,
		forall|k: usize| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
{ m.into_iter().collect() }

} // verus!
