//! Theorems over the contracts of the ssz encoding: decoding what was encoded
//! gives back the value, for every supported type.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::power2::*;
use crate::model::*;
use crate::vec_model::*;
use crate::util_model::*;
use crate::pack_model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_model::*;
use crate::le_lib::*;
use crate::le_vecs::*;
use crate::le_basic::*;
use crate::le_fixed::*;
use crate::le_elemental_fixed::*;
use crate::le_elemental_variable::*;
use crate::le_variable::*;
use crate::traits::*;
use crate::raw_thm::*;
verus! {
broadcast use {group_value, group_le_value, axiom_slice_of, crate::stubs::axiom_array_len, axiom_vecarray_len, crate::traits::wf_has_view};

/// There is a vector of any items that fit in memory.
pub axiom fn axiom_vec_of<T>(v: Seq<T>)
	requires v.len() <= usize::MAX,
	ensures exists|x: Vec<T>| #[trigger] x@ == v;

/// And a slice.
pub axiom fn axiom_slice_from<T>(v: Seq<T>)
	requires v.len() <= usize::MAX,
	ensures exists|x: &[T]| #[trigger] x@ == v;

/// `slice_of` gives the slice.
pub proof fn lemma_slice<T>(v: Seq<T>)
	requires v.len() <= usize::MAX,
	ensures slice_of(v)@ == v,
{ axiom_slice_from(v); }

/// A type whose values the encoding keeps apart and the decoding gives back.
pub trait RoundTrip: IntoTree + FromTree {
	/// The values are equal.
	spec fn same(&self, y: &Self) -> bool;
	/// What the tree of a value decodes to is the value.
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self)
		requires store_wf::<K>(s), self.stored::<K>(s), self.fits(), self.addr(), Self::limits(), Self::decodes::<K>(s, self.enc::<K>(), y),
		ensures self.same(&y);
	/// The tree of a value is not rejected.
	proof fn complete<K: CompatibleConstruct>(&self, s: Store)
		requires store_wf::<K>(s), self.stored::<K>(s), self.fits(), self.addr(), Self::limits(),
		ensures Self::decodes::<K>(s, self.enc::<K>(), *self);
}
pub open spec fn same_all<T: RoundTrip>(a: Seq<T>, b: Seq<T>) -> bool {
	a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).same(&b[i])
}

// ------------------------------------------------------------- theorems

/// Encoding a value and decoding the tree gives back the value.
pub fn theorem_round_trip<T: RoundTrip, DB: WriteBackend>(x: &T, db: &mut DB) -> (r: Result<T, Error<DB::Error>>) where
	DB::Construct: CompatibleConstruct,
	requires old(db).wf(), old(db).dbv().retains, old(db).dbv().reads_ok, old(db).dbv().writes_ok, x.fits(), x.addr(), T::limits(),
	ensures r matches Ok(y) && x.same(&y),
{
	let root = x.into_tree(db)?;
	proof { x.complete::<DB::Construct>(db.dbv().store); }
	let ghost s = db.dbv().store;
	let r = T::from_tree(&root, db);
	proof { if r is Ok { x.round::<DB::Construct>(s, r->Ok_0); } }
	r
}
/// Values with the same root are the same.
pub fn theorem_distinct<T: RoundTrip, DB: WriteBackend>(x: &T, y: &T, db: &mut DB) -> (r: Result<(Value, Value), Error<DB::Error>>) where
	DB::Construct: CompatibleConstruct,
	requires old(db).wf(), old(db).dbv().retains, x.fits(), x.addr(), y.fits(), y.addr(), T::limits(),
	ensures r matches Ok(k) ==> k.0 == k.1 ==> x.same(y),
{
	let a = x.into_tree(db)?;
	let ghost s = db.dbv().store;
	let b = y.into_tree(db)?;
	let ghost t = db.dbv().store;
	proof {
		x.stored_more::<DB::Construct>(s, t);
		y.complete::<DB::Construct>(t);
		if a == b { x.round::<DB::Construct>(t, *y); }
	}
	Ok((a, b))
}
/// The root is the same over any two backends, whatever they hold.
pub fn theorem_same_root_anywhere<T: IntoTree, DA: WriteBackend, DB: WriteBackend<Construct = DA::Construct>>(x: &T, da: &mut DA, db: &mut DB) -> (r: (Result<Value, Error<DA::Error>>, Result<Value, Error<DB::Error>>)) where
	DA::Construct: CompatibleConstruct,
	requires old(da).wf(), old(db).wf(), x.addr(),
	ensures r.0 is Ok && r.1 is Ok ==> r.0->Ok_0 == r.1->Ok_0,
{
	(x.into_tree(da), x.into_tree(db))
}

/// The theorem at a type of every kind.
fn uses<DB: WriteBackend>(a: u64, b: Vec<u8>, db: &mut DB) -> (r: bool) where
	DB::Construct: CompatibleConstruct,
	requires old(db).wf(), old(db).dbv().retains, old(db).dbv().reads_ok, old(db).dbv().writes_ok, b@.len() <= 100,
{
	let l: MaxVec<u8, U32> = MaxVec(b, core::marker::PhantomData);
	if l.0.len() > 32 { return true; }
	proof { lemma2_to64_rest(); axiom_slice_from(l.0@); }
	let x = (a, Some([true, false]), Compact(l));
	proof {
		lemma_slice(l.0@); lemma_slice(x.1->0@); 
		assert(l.0@.len() <= 32);
		assert(pow2(63) >= 32);
		assert(addressed(l.0@.len(), Some(U32::num() as u64)));
		assert(addressed(2, None));
		assert(x.2.addr());
		assert(x.1.addr());
	}
	match theorem_round_trip(&x, db) {
		Ok(y) => { assert(y.0 == a && (y.1 matches Some(z) && z@[1] == false) && y.2.0.0@ =~= b@); true }
		Err(_) => { assert(false); false }
	}
}

// ---------------------------------------------------------- basic values

impl RoundTrip for bool {
	open spec fn same(&self, y: &Self) -> bool { self == y }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) { lemma_bool_enc(*self); }
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) { lemma_bool_enc(*self); }
}
proof fn lemma_bool_enc(b: bool)
	ensures b == (vb(bv(le_bytes(if b { 1nat } else { 0 }, 32)))[0] != 0),
{ lemma_le_len(if b { 1nat } else { 0 }, 32); }

/// The low bytes of an end value of a number are the number's.
proof fn lemma_num_enc(n: nat, k: nat)
	requires n < bytes_max(k), k <= 32,
	ensures le_nat(vb(bv(le_bytes(n, 32))).take(k as int)) == n,
{
	lemma_le_pad(n, k, 32); lemma_le_round(n, k); lemma_le_len(n, 32);
	assert(le_bytes(n, 32).take(k as int) =~= le_bytes(n, k));
}
} // verus!
macro_rules! round_uint { ($t:ty, $n:expr) => { verus! {
	impl RoundTrip for $t {
		open spec fn same(&self, y: &Self) -> bool { self == y }
		proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) { lemma_maxes(); lemma_num_enc(*self as nat, $n); }
		proof fn complete<K: CompatibleConstruct>(&self, s: Store) { lemma_maxes(); lemma_num_enc(*self as nat, $n); }
	}
} } }
round_uint!(u8, 1);
round_uint!(u16, 2);
round_uint!(u32, 4);
round_uint!(u64, 8);
round_uint!(u128, 16);
verus! {
proof fn lemma_u256_enc(x: U256)
	ensures le_nat(vb(bv(le_bytes(x@, 32)))) == x@,
{ broadcast use axiom_u256; lemma_le_round(x@, 32); }
impl RoundTrip for U256 {
	open spec fn same(&self, y: &Self) -> bool { self@ == y@ }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) { lemma_u256_enc(*self); }
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) { lemma_u256_enc(*self); }
}
impl RoundTrip for Value {
	open spec fn same(&self, y: &Self) -> bool { self == y }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {}
}
impl RoundTrip for () {
	open spec fn same(&self, y: &Self) -> bool { true }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {}
}
impl<T: RoundTrip> RoundTrip for Box<T> {
	open spec fn same(&self, y: &Self) -> bool { (**self).same(&**y) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) { (**self).round::<K>(s, *y); }
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) { (**self).complete::<K>(s); }
}
/// A value with a number reads back as both.
pub proof fn lemma_two<K: CompatibleConstruct>(s: Store, l: Value, n: nat)
	requires stored2::<K>(s, l, n), n < bytes_max(8),
	ensures
		elem(s, enc2::<K>(l, n), 2, None, 0) == Some(l),
		elem(s, enc2::<K>(l, n), 2, None, 1) == Some(bv(le_bytes(n, 32))),
		le_nat(vb(bv(le_bytes(n, 32)))) == n,
{
	lemma_storedv::<K>(s, seq![l, bv(le_bytes(n, 32))], None);
	lemma_le_pad(n, 8, 32); lemma_le_round(n, 32);
	let v = seq![l, bv(le_bytes(n, 32))];
	assert(v.len() == 2);
	assert(v[0] == l && v[1] == bv(le_bytes(n, 32)));
}
impl<T: RoundTrip> RoundTrip for Option<T> {
	open spec fn same(&self, y: &Self) -> bool {
		match (self, y) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false }
	}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		lemma_maxes();
		match self {
			None => { lemma_two::<K>(s, ().enc::<K>(), 0); }
			Some(v) => {
				lemma_two::<K>(s, v.enc::<K>(), 1);
				if y is Some { v.round::<K>(s, y->0); }
			}
		}
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		lemma_maxes();
		match self {
			None => { lemma_two::<K>(s, ().enc::<K>(), 0); }
			Some(v) => { lemma_two::<K>(s, v.enc::<K>(), 1); v.complete::<K>(s); }
		}
	}
}

// ------------------------------------------------------------- composite

proof fn round_vec<T: RoundTrip, K: CompatibleConstruct>(s: Store, v: &[T], max: Option<u64>, y: ElementalFixedVec<T>)
	requires
		store_wf::<K>(s), ElementalFixedVecRef(v).vstored::<K>(s, max), ElementalFixedVecRef(v).vfits(max), ElementalFixedVecRef(v).vaddr(max), T::limits(),
		ElementalFixedVec::<T>::vdecodes::<K>(s, ElementalFixedVecRef(v).venc::<K>(max), v@.len(), max, y),
	ensures same_all(v@, y.0@),
{
	let r = roots::<T, K>(v@);
	lemma_storedv::<K>(s, r, max);
	assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).same(&y.0@[i]) by {
		assert(elem(s, encv::<K>(r, max), r.len(), max, i) == Some(r[i]));
		v@[i].round::<K>(s, y.0@[i]);
	}
}
proof fn complete_vec<T: RoundTrip, K: CompatibleConstruct>(s: Store, v: &[T], max: Option<u64>, y: ElementalFixedVec<T>)
	requires
		store_wf::<K>(s), ElementalFixedVecRef(v).vstored::<K>(s, max), ElementalFixedVecRef(v).vfits(max), ElementalFixedVecRef(v).vaddr(max), T::limits(),
		y.0@ == v@,
	ensures ElementalFixedVec::<T>::vdecodes::<K>(s, ElementalFixedVecRef(v).venc::<K>(max), v@.len(), max, y),
{
	let r = roots::<T, K>(v@);
	lemma_storedv::<K>(s, r, max);
	assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] elem(s, encv::<K>(r, max), v@.len(), max, i) matches Some(w) && T::decodes::<K>(s, w, y.0@[i])) by {
		assert(elem(s, encv::<K>(r, max), r.len(), max, i) == Some(r[i]));
		v@[i].complete::<K>(s);
	}
}
proof fn round_list<T: RoundTrip, K: CompatibleConstruct>(s: Store, v: &[T], max: Option<u64>, y: ElementalVariableVec<T>)
	requires
		store_wf::<K>(s), ElementalVariableVecRef(v).vlstored::<K>(s, max), ElementalVariableVecRef(v).vlfits(max), ElementalVariableVecRef(v).vladdr(max), T::limits(),
		ElementalVariableVec::<T>::vldecodes::<K>(s, ElementalVariableVecRef(v).vlenc::<K>(max), max, y),
	ensures same_all(v@, y.0@),
{
	lemma_maxes(); lemma2_to64_rest();
	lemma_two::<K>(s, ElementalFixedVecRef(v).venc::<K>(max), v@.len());
	round_vec::<T, K>(s, v, max, ElementalFixedVec(y.0));
}
proof fn complete_list<T: RoundTrip, K: CompatibleConstruct>(s: Store, v: &[T], max: Option<u64>, y: ElementalVariableVec<T>)
	requires
		store_wf::<K>(s), ElementalVariableVecRef(v).vlstored::<K>(s, max), ElementalVariableVecRef(v).vlfits(max), ElementalVariableVecRef(v).vladdr(max), T::limits(),
		y.0@ == v@,
	ensures ElementalVariableVec::<T>::vldecodes::<K>(s, ElementalVariableVecRef(v).vlenc::<K>(max), max, y),
{
	lemma_maxes(); lemma2_to64_rest();
	lemma_two::<K>(s, ElementalFixedVecRef(v).venc::<K>(max), v@.len());
	complete_vec::<T, K>(s, v, max, ElementalFixedVec(y.0));
}
impl<T: RoundTrip> RoundTrip for Vec<T> {
	open spec fn same(&self, y: &Self) -> bool { same_all(self@, y@) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) { let n = self.len(); lemma_slice(self@); round_list::<T, K>(s, slice_of(self@), None, ElementalVariableVec(y)); }
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) { let n = self.len(); lemma_slice(self@); complete_list::<T, K>(s, slice_of(self@), None, ElementalVariableVec(*self)); }
}
impl<T: RoundTrip, ML: Unsigned> RoundTrip for MaxVec<T, ML> {
	open spec fn same(&self, y: &Self) -> bool { same_all(self.0@, y.0@) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) { let n = self.0.len(); lemma_slice(self.0@); round_list::<T, K>(s, slice_of(self.0@), Some(ML::num() as u64), ElementalVariableVec(y.0)); }
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) { let n = self.0.len(); lemma_slice(self.0@); complete_list::<T, K>(s, slice_of(self.0@), Some(ML::num() as u64), ElementalVariableVec(self.0)); }
}
impl<T: RoundTrip, L: ArrayLength<T>> RoundTrip for GenericArray<T, L> {
	open spec fn same(&self, y: &Self) -> bool { same_all(self@, y@) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		let v = choose|v: ElementalFixedVec<T>| v.0@ == y@ && #[trigger] ElementalFixedVec::<T>::vdecodes::<K>(s, self.enc::<K>(), <L as ArrayLength<T>>::n(), None, v);
		lemma_slice(self@);
		round_vec::<T, K>(s, slice_of(self@), None, v);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		axiom_vec_of(self@); lemma_slice(self@);
		let x = choose|x: Vec<T>| #[trigger] x@ == self@;
		complete_vec::<T, K>(s, slice_of(self@), None, ElementalFixedVec(x));
	}
}
impl<T: RoundTrip, L: Unsigned> RoundTrip for VecArray<T, L> {
	open spec fn same(&self, y: &Self) -> bool { same_all(self@, y@) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		let v = choose|v: ElementalFixedVec<T>| v.0@ == y@ && #[trigger] ElementalFixedVec::<T>::vdecodes::<K>(s, self.enc::<K>(), L::num(), None, v);
		lemma_slice(self@);
		round_vec::<T, K>(s, slice_of(self@), None, v);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		axiom_vec_of(self@); lemma_slice(self@);
		let x = choose|x: Vec<T>| #[trigger] x@ == self@;
		complete_vec::<T, K>(s, slice_of(self@), None, ElementalFixedVec(x));
	}
}
} // verus!
macro_rules! round_array { ($($n:expr)*) => { verus! { $(
	impl<T: RoundTrip + Default + Copy> RoundTrip for [T; $n] {
		open spec fn same(&self, y: &Self) -> bool { same_all(self@, y@) }
		proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = choose|v: ElementalFixedVec<T>| v.0@ == y@ && #[trigger] ElementalFixedVec::<T>::vdecodes::<K>(s, self.enc::<K>(), $n, None, v);
			lemma_slice(self@);
			round_vec::<T, K>(s, slice_of(self@), None, v);
		}
		proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			axiom_vec_of(self@); lemma_slice(self@);
			let x = choose|x: Vec<T>| #[trigger] x@ == self@;
			complete_vec::<T, K>(s, slice_of(self@), None, ElementalFixedVec(x));
		}
	}
)* } } }
round_array!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
macro_rules! round_tuple { ($len:expr, $($i:tt => $t:ident),+) => { verus! {
	impl<$($t: RoundTrip),+> RoundTrip for ($($t),+) {
		open spec fn same(&self, y: &Self) -> bool { true $(&& self.$i.same(&y.$i))+ }
		proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![$(self.$i.enc::<K>()),+];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			$(
				assert(v[$i] == self.$i.enc::<K>());
				assert(elem(s, k, v.len(), None, $i) == Some(v[$i]));
				self.$i.round::<K>(s, y.$i);
			)+
		}
		proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![$(self.$i.enc::<K>()),+];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			$(
				assert(v[$i] == self.$i.enc::<K>());
				assert(elem(s, k, v.len(), None, $i) == Some(v[$i]));
				self.$i.complete::<K>(s);
			)+
		}
	}
} } }
round_tuple!(2, 0 => A, 1 => B);
round_tuple!(3, 0 => A, 1 => B, 2 => C);
round_tuple!(4, 0 => A, 1 => B, 2 => C, 3 => D);
round_tuple!(5, 0 => A, 1 => B, 2 => C, 3 => D, 4 => E);
round_tuple!(6, 0 => A, 1 => B, 2 => C, 3 => D, 4 => E, 5 => F);
round_tuple!(7, 0 => A, 1 => B, 2 => C, 3 => D, 4 => E, 5 => F, 6 => G);
round_tuple!(8, 0 => A, 1 => B, 2 => C, 3 => D, 4 => E, 5 => F, 6 => G, 7 => H);
round_tuple!(9, 0 => A, 1 => B, 2 => C, 3 => D, 4 => E, 5 => F, 6 => G, 7 => H, 8 => I);
verus! {

// ---------------------------------------------------------------- packed

/// The items in packed, stored end values.
proof fn lemma_packed<K: CompatibleConstruct>(s: Store, bs: Seq<Seq<u8>>, w: nat, m: Option<u64>)
	requires w > 0, items(bs, w), storedv::<K>(s, hosts(bs, w), m),
	ensures forall|i: int| 0 <= i < bs.len() ==> hbytes(s, encv::<K>(hosts(bs, w), m), vdep(cdiv(bs.len() * w, 32), m), 32, i * w, #[trigger] bs[i]),
{
	let v = hosts(bs, w);
	let k = encv::<K>(v, m);
	let n = cdiv(bs.len() * w, 32);
	let d = vdep(n, m);
	let f = padded(bs, 32, w);
	lemma_storedv::<K>(s, v, m);
	lemma_padded_len(bs, 32, w);
	assert(v.len() == n);
	assert forall|i: int| 0 <= i < bs.len() implies hbytes(s, k, d, 32, i * w, #[trigger] bs[i]) by {
		let b = bs[i];
		lemma_padded_get(bs, 32, w, i);
		assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] == hbyte(s, k, d, 32, i * w + j) && hknown(s, k, d, 32, i * w + j) by {
			let p = i * w + j;
			assert(b[j] == f.subrange(i * w, i * w + w)[j]);
			lemma_at(p, n, 32);
			let c = p / 32;
			assert(elem(s, k, n, m, c) == Some(v[c]));
			lemma_chunk_bounds(n, 32, c);
			assert(v[c] == value_of::<Value>(chunk(f, 32, c)));
			assert(vb(v[c]) == chunk(f, 32, c));
		}
	}
}

} // verus!
macro_rules! packed_item { ($t:ty, $round:ident, $complete:ident, $lround:ident, $lcomplete:ident) => { verus! {
	proof fn $lround<K: CompatibleConstruct>(s: Store, v: &[$t], max: Option<u64>, y: ElementalVariableVec<$t>)
		requires
			ElementalVariableVecRef(v).clstored::<K>(s, max), ElementalVariableVecRef(v).clfits(max), ElementalVariableVecRef(v).claddr(max),
			ElementalVariableVec::<$t>::cldecodes::<K>(s, ElementalVariableVecRef(v).clenc::<K>(max), max, y),
		ensures y.0@ == v@,
	{
		lemma_maxes(); lemma2_to64_rest();
		lemma_two::<K>(s, ElementalFixedVecRef(v).cenc::<K>(max), v@.len());
		$round::<K>(s, v, max, ElementalFixedVec(y.0));
		assert(y.0@ =~= v@);
	}
	proof fn $lcomplete<K: CompatibleConstruct>(s: Store, v: &[$t], max: Option<u64>, y: ElementalVariableVec<$t>)
		requires
			ElementalVariableVecRef(v).clstored::<K>(s, max), ElementalVariableVecRef(v).clfits(max), ElementalVariableVecRef(v).claddr(max),
			y.0@ == v@,
		ensures ElementalVariableVec::<$t>::cldecodes::<K>(s, ElementalVariableVecRef(v).clenc::<K>(max), max, y),
	{
		lemma_maxes(); lemma2_to64_rest();
		lemma_two::<K>(s, ElementalFixedVecRef(v).cenc::<K>(max), v@.len());
		$complete::<K>(s, v, max, ElementalFixedVec(y.0));
	}
	impl<ML: Unsigned> RoundTrip for Compact<MaxVec<$t, ML>> {
		open spec fn same(&self, y: &Self) -> bool { self.0.0@ == y.0.0@ }
		proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) { let n = self.0.0.len(); lemma_slice(self.0.0@); $lround::<K>(s, slice_of(self.0.0@), Some(ML::num() as u64), ElementalVariableVec(y.0.0)); }
		proof fn complete<K: CompatibleConstruct>(&self, s: Store) { let n = self.0.0.len(); lemma_slice(self.0.0@); $lcomplete::<K>(s, slice_of(self.0.0@), Some(ML::num() as u64), ElementalVariableVec(self.0.0)); }
	}
	impl<L: ArrayLength<$t>> RoundTrip for Compact<GenericArray<$t, L>> {
		open spec fn same(&self, y: &Self) -> bool { self.0@ == y.0@ }
		proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = choose|v: ElementalFixedVec<$t>| v.0@ == y.0@ && #[trigger] ElementalFixedVec::<$t>::cdecodes::<K>(s, self.enc::<K>(), <L as ArrayLength<$t>>::n(), None, v);
			lemma_slice(self.0@);
			$round::<K>(s, slice_of(self.0@), None, v);
			assert(self.0@ =~= y.0@);
		}
		proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			axiom_vec_of(self.0@); lemma_slice(self.0@);
			let x = choose|x: Vec<$t>| #[trigger] x@ == self.0@;
			$complete::<K>(s, slice_of(self.0@), None, ElementalFixedVec(x));
		}
	}
	impl<L: Unsigned> RoundTrip for Compact<VecArray<$t, L>> {
		open spec fn same(&self, y: &Self) -> bool { self.0@ == y.0@ }
		proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = choose|v: ElementalFixedVec<$t>| v.0@ == y.0@ && #[trigger] ElementalFixedVec::<$t>::cdecodes::<K>(s, self.enc::<K>(), L::num(), None, v);
			lemma2_to64_rest(); lemma_slice(self.0@);
			$round::<K>(s, slice_of(self.0@), None, v);
			assert(self.0@ =~= y.0@);
		}
		proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			lemma2_to64_rest(); axiom_vec_of(self.0@); lemma_slice(self.0@);
			let x = choose|x: Vec<$t>| #[trigger] x@ == self.0@;
			$complete::<K>(s, slice_of(self.0@), None, ElementalFixedVec(x));
		}
	}
} } }
macro_rules! packed_uint { ($t:ty, $n:expr, $bytes:ident, $round:ident, $complete:ident, $lround:ident, $lcomplete:ident) => {
	verus! {
	proof fn $round<K: CompatibleConstruct>(s: Store, v: &[$t], max: Option<u64>, y: ElementalFixedVec<$t>)
		requires
			ElementalFixedVecRef(v).cstored::<K>(s, max),
			ElementalFixedVec::<$t>::cdecodes::<K>(s, ElementalFixedVecRef(v).cenc::<K>(max), v@.len(), max, y),
		ensures y.0@ == v@,
	{
		let bs = $bytes(v@);
		lemma_maxes();
		assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).len() == $n by { lemma_le_len(v@[i] as nat, $n); }
		lemma_packed::<K>(s, bs, $n, hmax(max, $n));
		let k = encv::<K>(hosts(bs, $n), hmax(max, $n));
		let d = vdep(cdiv(bs.len() * $n, 32), hmax(max, $n));
		assert forall|i: int| 0 <= i < v@.len() implies y.0@[i] == v@[i] by {
			let (a, b) = (le_bytes(y.0@[i] as nat, $n), bs[i]);
			assert(item_at(s, k, v@.len(), max, $n, i, a));
			assert(hbytes(s, k, d, 32, i * $n, b));
			lemma_le_round(y.0@[i] as nat, $n);
			lemma_le_round(v@[i] as nat, $n);
			assert forall|j: int| 0 <= j < $n implies a[j] == b[j] by { assert(a[j] == hbyte(s, k, d, 32, i * $n + j)); }
			assert(a =~= b);
		}
		assert(y.0@ =~= v@);
	}
	proof fn $complete<K: CompatibleConstruct>(s: Store, v: &[$t], max: Option<u64>, y: ElementalFixedVec<$t>)
		requires
			ElementalFixedVecRef(v).cstored::<K>(s, max),
			y.0@ == v@,
		ensures ElementalFixedVec::<$t>::cdecodes::<K>(s, ElementalFixedVecRef(v).cenc::<K>(max), v@.len(), max, y),
	{
		let bs = $bytes(v@);
		assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).len() == $n by { lemma_le_len(v@[i] as nat, $n); }
		lemma_packed::<K>(s, bs, $n, hmax(max, $n));
		let k = encv::<K>(hosts(bs, $n), hmax(max, $n));
		assert forall|i: int| 0 <= i < v@.len() implies #[trigger] item_at(s, k, v@.len(), max, $n, i, le_bytes(y.0@[i] as nat, $n)) by {
			assert(bs[i] == le_bytes(y.0@[i] as nat, $n));
		}
	}
	} // verus!
	packed_item!($t, $round, $complete, $lround, $lcomplete);
} }
packed_uint!(u8, 1, bytes_u8, round_u8, complete_u8, lround_u8, lcomplete_u8);
packed_uint!(u16, 2, bytes_u16, round_u16, complete_u16, lround_u16, lcomplete_u16);
packed_uint!(u32, 4, bytes_u32, round_u32, complete_u32, lround_u32, lcomplete_u32);
packed_uint!(u64, 8, bytes_u64, round_u64, complete_u64, lround_u64, lcomplete_u64);
packed_uint!(u128, 16, bytes_u128, round_u128, complete_u128, lround_u128, lcomplete_u128);
packed_item!(U256, round_u256, complete_u256, lround_u256, lcomplete_u256);
packed_item!(bool, round_bits, complete_bits, lround_bits, lcomplete_bits);
verus! {
proof fn round_u256<K: CompatibleConstruct>(s: Store, v: &[U256], max: Option<u64>, y: ElementalFixedVec<U256>)
	requires
		ElementalFixedVecRef(v).cstored::<K>(s, max),
		ElementalFixedVec::<U256>::cdecodes::<K>(s, ElementalFixedVecRef(v).cenc::<K>(max), v@.len(), max, y),
	ensures y.0@ == v@,
{
	let w = vals_u256(v@);
	lemma_storedv::<K>(s, w, max);
	assert forall|i: int| 0 <= i < v@.len() implies y.0@[i] == v@[i] by {
		assert(elem(s, encv::<K>(w, max), w.len(), max, i) == Some(w[i]));
		lemma_u256_enc(v@[i]);
		axiom_u256_eq(y.0@[i], v@[i]);
	}
	assert(y.0@ =~= v@);
}
proof fn complete_u256<K: CompatibleConstruct>(s: Store, v: &[U256], max: Option<u64>, y: ElementalFixedVec<U256>)
	requires
		ElementalFixedVecRef(v).cstored::<K>(s, max),
		y.0@ == v@,
	ensures ElementalFixedVec::<U256>::cdecodes::<K>(s, ElementalFixedVecRef(v).cenc::<K>(max), v@.len(), max, y),
{
	let w = vals_u256(v@);
	lemma_storedv::<K>(s, w, max);
	assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] elem(s, encv::<K>(w, max), v@.len(), max, i) matches Some(x) && y.0@[i]@ == le_nat(vb(x))) by {
		assert(elem(s, encv::<K>(w, max), w.len(), max, i) == Some(w[i]));
		lemma_u256_enc(v@[i]);
	}
}

/// The bits of the number of some bits.
proof fn lemma_bits_get(v: Seq<bool>, j: nat)
	requires j < v.len(),
	ensures ((bits_num(v) as int / pow2(j) as int) % 2 == 1) == v[j as int],
	decreases v.len(),
{
	let r = v.drop_first();
	let m = bits_num(r) as int;
	let b = if v[0] { 1int } else { 0 };
	assert(bits_num(v) == b + 2 * m);
	lemma2_to64();
	if j > 0 {
		let q = pow2((j - 1) as nat) as int;
		lemma_pow2_unfold(j);
		lemma_pow2_pos((j - 1) as nat);
		lemma_bits_get(r, (j - 1) as nat);
		assert(pow2(j) as int == 2 * q);
		assert((b + 2 * m) / (2 * q) == m / q) by {
			lemma_div_denominator(b + 2 * m, 2, q);
			assert((b + 2 * m) / 2 == m);
		}
		assert(r[j - 1] == v[j as int]);
	} else {
		assert(pow2(0) == 1);
		assert((b + 2 * m) / 1 == b + 2 * m);
	}
}
/// The packed bits are the bits.
proof fn lemma_bits_at(v: Seq<bool>, i: int)
	requires 0 <= i < v.len(),
	ensures 0 <= i / 8 < bits(v).len(), bit(bits(v)[i / 8], (i % 8) as nat) == v[i],
{
	let k = i / 8;
	lemma_cdiv(v.len(), 8);
	let w = v.subrange(8 * k, min_of(8 * k + 8, v.len() as int));
	lemma_bits_push(w, false);
	lemma2_to64();
	assert(w.len() <= 8);
	lemma_pow2_le(w.len(), 8);
	lemma_bits_get(w, (i % 8) as nat);
	assert(w[i % 8] == v[i]);
}
proof fn bits_known<K: CompatibleConstruct>(s: Store, v: &[bool], max: Option<u64>)
	requires ElementalFixedVecRef(v).cstored::<K>(s, max),
	ensures
		({
			let (k, n) = (ElementalFixedVecRef(v).cenc::<K>(max), cdiv(v@.len(), 8));
			&&& bits(v@).len() == n
			&&& forall|i: int| 0 <= i < n ==> #[trigger] byte_known(s, k, n, bmax(max), i) && byte_at(s, k, n, bmax(max), i) == bits(v@)[i]
		}),
{
	let b = bits(v@);
	let bs = bytes_u8(b);
	lemma_maxes();
	assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).len() == 1 by { lemma_le_len(b[i] as nat, 1); }
	lemma_packed::<K>(s, bs, 1, hmax(bmax(max), 1));
	let (k, n) = (ElementalFixedVecRef(v).cenc::<K>(max), cdiv(v@.len(), 8));
	assert(bs.len() * 1 == n * 1);
	assert forall|i: int| 0 <= i < n implies #[trigger] byte_known(s, k, n, bmax(max), i) && byte_at(s, k, n, bmax(max), i) == b[i] by {
		assert(hbytes(s, k, vdep(cdiv(n * 1, 32), hmax(bmax(max), 1)), 32, i * 1, bs[i]));
		assert(bs[i][0] == hbyte(s, k, vdep(cdiv(n * 1, 32), hmax(bmax(max), 1)), 32, i * 1 + 0));
		reveal_with_fuel(le_bytes, 2);
		assert(bs[i][0] == b[i]);
	}
}
proof fn round_bits<K: CompatibleConstruct>(s: Store, v: &[bool], max: Option<u64>, y: ElementalFixedVec<bool>)
	requires
		ElementalFixedVecRef(v).cstored::<K>(s, max),
		ElementalFixedVec::<bool>::cdecodes::<K>(s, ElementalFixedVecRef(v).cenc::<K>(max), v@.len(), max, y),
	ensures y.0@ == v@,
{
	bits_known::<K>(s, v, max);
	let (k, n) = (ElementalFixedVecRef(v).cenc::<K>(max), cdiv(v@.len(), 8));
	assert forall|i: int| 0 <= i < v@.len() implies y.0@[i] == v@[i] by {
		lemma_bits_at(v@, i);
		assert(byte_known(s, k, n, bmax(max), i / 8));
	}
	assert(y.0@ =~= v@);
}
proof fn complete_bits<K: CompatibleConstruct>(s: Store, v: &[bool], max: Option<u64>, y: ElementalFixedVec<bool>)
	requires
		ElementalFixedVecRef(v).cstored::<K>(s, max),
		y.0@ == v@,
	ensures ElementalFixedVec::<bool>::cdecodes::<K>(s, ElementalFixedVecRef(v).cenc::<K>(max), v@.len(), max, y),
{
	bits_known::<K>(s, v, max);
	let (k, n) = (ElementalFixedVecRef(v).cenc::<K>(max), cdiv(v@.len(), 8));
	assert forall|i: int| 0 <= i < v@.len() implies #[trigger] y.0@[i] == bit(byte_at(s, k, n, bmax(max), i / 8), (i % 8) as nat) by {
		lemma_bits_at(v@, i);
		assert(byte_known(s, k, n, bmax(max), i / 8));
	}
}

/// The byte vector of a hash.
proof fn round_hash<K: CompatibleConstruct>(s: Store, b: Seq<u8>, y: Seq<u8>)
	requires
		storedv::<K>(s, hosts(bytes_u8(b), 1), None),
		exists|v: ElementalFixedVec<u8>| v.0@ == y && #[trigger] ElementalFixedVec::<u8>::cdecodes::<K>(s, encv::<K>(hosts(bytes_u8(b), 1), None), b.len(), None, v),
		exists|x: &[u8]| x@ == b,
	ensures y == b,
{
	let v = choose|v: ElementalFixedVec<u8>| v.0@ == y && #[trigger] ElementalFixedVec::<u8>::cdecodes::<K>(s, encv::<K>(hosts(bytes_u8(b), 1), None), b.len(), None, v);
	let x = choose|x: &[u8]| x@ == b;
	round_u8::<K>(s, x, None, v);
}
proof fn complete_hash<K: CompatibleConstruct>(s: Store, b: Seq<u8>)
	requires storedv::<K>(s, hosts(bytes_u8(b), 1), None), b.len() <= usize::MAX, exists|x: &[u8]| x@ == b,
	ensures exists|v: ElementalFixedVec<u8>| v.0@ == b && #[trigger] ElementalFixedVec::<u8>::cdecodes::<K>(s, encv::<K>(hosts(bytes_u8(b), 1), None), b.len(), None, v),
{
	axiom_vec_of(b);
	let y = choose|y: Vec<u8>| #[trigger] y@ == b;
	let x = choose|x: &[u8]| x@ == b;
	complete_u8::<K>(s, x, None, ElementalFixedVec(y));
	assert(ElementalFixedVec(y).0@ == b);
}
} // verus!
macro_rules! round_hash { ($($t:ident)*) => { verus! { $(
	impl RoundTrip for $t {
		open spec fn same(&self, y: &Self) -> bool { self.0@ == y.0@ }
		proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) { axiom_slice_from(self.0@); round_hash::<K>(s, self.0@, y.0@); }
		proof fn complete<K: CompatibleConstruct>(&self, s: Store) { axiom_slice_from(self.0@); complete_hash::<K>(s, self.0@); }
	}
)* } } }
round_hash!(H256 H512);
