//@ full-names
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest};
use crate::traits::EmptyConstruct;
use crate::util_model::{grown};
use vstd::std_specs::convert::*;
broadcast use {group_value, crate::traits::wf_has_view};
//@ item pub use bm::{Backend, ReadBackend, WriteBackend, InheritedDigestConstruct, UnitDigestConstruct, Construct, InheritedEmpty, Error, Vector, DanglingVector, List, Leak, NoopBackend, InMemoryBackend, Raw, RootStatus, OwnedRaw, DanglingRaw};
//@ replace
pub use bm::{Backend, ReadBackend, WriteBackend, InheritedDigestConstruct, UnitDigestConstruct, Construct, Error, Vector, DanglingVector, Leak, NoopBackend, InMemoryBackend, Raw, RootStatus, OwnedRaw, DanglingRaw};
//@ item mod basic
//@ drop
//@ item mod elemental_fixed
//@ drop
//@ item mod elemental_variable
//@ drop
//@ item mod fixed
//@ drop
//@ item mod variable
//@ drop
//@ item mod partial
//@ drop
//@ item mod utils
//@ drop
//@ item pub use basic::Ignored;
//@ drop
//@ item pub use elemental_fixed::{ElementalFixedVec, ElementalFixedVecRef, IntoCompactVectorTree, FromCompactVectorTree, IntoCompositeVectorTree, FromCompositeVectorTree};
//@ drop
//@ item pub use elemental_variable::{ElementalVariableVec, ElementalVariableVecRef, IntoCompactListTree, FromCompactListTree, IntoCompositeListTree, FromCompositeListTree};
//@ drop
//@ item pub use variable::MaxVec;
//@ drop
//@ item pub use partial::{PartialIndex, PartialValue, PartialVec, PartialItem, Partialable};
//@ drop
//@ item #[cfg(feature = "derive")] pub use bm_le_derive::{FromTree, IntoTree, Partialable};
//@ drop
//@ item struct Value
//@ after
/// The bytes of a value.
pub open spec fn vb(v: Value) -> Seq<u8> { v.0.0@ }
/// The value of 32 bytes.
pub open spec fn bv(b: Seq<u8>) -> Value { value_of::<Value>(b) }
/// Values are equal when they are the same (derived).
impl vstd::std_specs::cmp::PartialEqSpecImpl for Value {
	open spec fn obeys_eq_spec() -> bool { true }
	open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
/// Bytes and values correspond (as the conversions below do).
pub broadcast axiom fn axiom_value_bytes(v: Value)
	ensures #![trigger vb(v)] #![trigger bytes_of(&v)] vb(v).len() == 32, bytes_of(&v) == vb(v), bv(vb(v)) == v;
pub broadcast axiom fn axiom_bytes_value(b: Seq<u8>)
	ensures b.len() == 32 ==> vb(#[trigger] value_of::<Value>(b)) == b;
/// The default value is what `Value::default` gives.
pub broadcast axiom fn axiom_zero_value()
	ensures vb(#[trigger] dflt::<Value>()) == Seq::new(32, |i: int| 0u8);
pub broadcast group group_le_value { axiom_value_bytes, axiom_bytes_value, axiom_zero_value }
//@ fn Default for Value::default
//@ ret r
//@ spec
	ensures vb(r) == Seq::new(32, |i: int| 0u8)
//@ fn AsRef<[u8]> for Value::as_ref
//@ ret r
//@ spec
	ensures r@ == vb(*self)
//@ fn AsMut<[u8]> for Value::as_mut
//@ ret r
//@ spec
	ensures r@ == vb(*old(self)), final(r)@.len() == r@.len() ==> vb(*final(self)) == final(r)@
//@ impl From<usize> for Value
//@ after
impl FromSpecImpl<usize> for Value {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(n: usize) -> Self { bv(le_bytes(n as nat, 32)) }
}
//@ fn From<usize> for Value::from
//@ ret r
//@ spec
	ensures vb(r) == le_bytes(value as nat, 32), r == bv(le_bytes(value as nat, 32))
//@ subst
(value as u64).to_le_bytes()
=====>
to_le_u64(value as u64)
//@ tail
	proof {
		broadcast use group_le_value;
		lemma_maxes();
		lemma_le_len(value as nat, 8);
		lemma_le_pad(value as nat, 8, 32);
		assert(ret@ =~= le_bytes(value as nat, 32));
		let v = Value(H256(ret));
		assert(vb(v) == ret@);
	}
//@ impl Into<usize> for Value
//@ after
impl IntoSpecImpl<usize> for Value {
	open spec fn obeys_into_spec() -> bool { true }
	open spec fn into_spec(self) -> usize { le_nat(vb(self).take(8)) as usize }
}
//@ fn Into<usize> for Value::into
//@ subst
u64::from_le_bytes(raw)
=====>
from_le_u64(raw)
//@ tail
	proof { assert(raw@ =~= vb(self).take(8)); lemma_le_back(raw@); lemma_maxes(); }
//@ impl From<GenericArray<u8,typenum::U32>> for Value
//@ after
impl FromSpecImpl<GenericArray<u8, typenum::U32>> for Value {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(a: GenericArray<u8, typenum::U32>) -> Self { bv(a@) }
}
//@ fn From<GenericArray<u8,typenum::U32>> for Value::from
//@ ret r
//@ spec
	ensures vb(r) == array@, r == bv(array@)
//@ subst
array.as_slice()
=====>
garr_slice(&array)
//@ start
	broadcast use {axiom_array_len, group_le_value};
	proof { assert forall|h: H256| Value(h) == bv(#[trigger] h.0@) by { axiom_value_bytes(Value(h)); } }
//@ trait IntoTree
//@ ghost
	/// The root of the value's tree, as a mathematical function.
	spec fn enc<K: CompatibleConstruct>(&self) -> Value;
	/// All interior nodes of the value's tree are in the store.
	spec fn stored<K: CompatibleConstruct>(&self, s: Map<Value, (Value, Value)>) -> bool;
	/// No part is longer than its limit.
	spec fn fits(&self) -> bool;
	/// The lengths and limits are ones an index can address.
	spec fn addr(&self) -> bool;
	/// Nodes stay stored as the store grows.
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Map<Value, (Value, Value)>, t: Map<Value, (Value, Value)>)
		requires self.stored::<K>(s), s.submap_of(t), store_wf::<K>(s), store_wf::<K>(t),
		ensures self.stored::<K>(t);
//@ fn IntoTree::into_tree
//@ ret r
//@ spec
	requires old(db).wf(), self.addr(),
	ensures
		final(db).wf(),
		r matches Err(e) ==> e is InvalidParameter && !self.fits() || e is Backend && !old(db).dbv().writes_ok,
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(k) ==> {
			&&& self.fits()
			&&& k == self.enc::<DB::Construct>()
			&&& grown(old(db).dbv(), final(db).dbv())
			&&& old(db).dbv().retains ==> self.stored::<DB::Construct>(final(db).dbv().store)
		}
//@ trait FromTree
//@ ghost
	/// What the tree at `root` says about `x`: `x` is what it encodes.
	spec fn decodes<K: CompatibleConstruct>(s: Map<Value, (Value, Value)>, root: Value, x: Self) -> bool;
	/// The limits are ones an index can address.
	spec fn limits() -> bool;
//@ fn FromTree::from_tree
//@ ret r
//@ spec
	requires old(db).wf(), Self::limits(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> Self::decodes::<DB::Construct>(old(db).dbv().store, *root, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && forall|x: Self| !#[trigger] Self::decodes::<DB::Construct>(old(db).dbv().store, *root, x),
//@ fn tree_root
//@ ret r
//@ spec
	requires value.addr(), value.fits(),
	ensures r.0@ == vb(value.enc::<DigestConstruct<D>>()),
//@ closure 0 ~from_slice
param 0 Value
-> (h: H256) ensures h.0@ == vb(ret)
//@ impl From<T> for Compact<T>
//@ after
impl<T> FromSpecImpl<T> for Compact<T> {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(t: T) -> Self { Compact(t) }
}
//@ fn From<T> for Compact<T>::from
//@ ret r
//@ spec
	ensures r.0 == t
