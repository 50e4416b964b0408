//@ full-names
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest};
use crate::le_model::*;
use crate::le_lib::*;
use crate::traits::EmptyConstruct;
use crate::util_model::*;
use crate::vec_model::*;
use crate::le_vecs::*;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view, axiom_slice_of};
//@ impl Serialize for MaxVec<T,N>
//@ drop
//@ impl Deserialize<'de> for MaxVec<T,N>
//@ drop
//@ impl Encode for MaxVec<T,N>
//@ drop
//@ impl Decode for MaxVec<T,N>
//@ drop
//@ impl IntoTree for MaxVec<T,ML>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalVariableVecRef(slice_of(self.0@)).vlenc::<K>(Some(ML::num() as u64)) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalVariableVecRef(slice_of(self.0@)).vlstored::<K>(s, Some(ML::num() as u64)) }
	open spec fn fits(&self) -> bool { ElementalVariableVecRef(slice_of(self.0@)).vlfits(Some(ML::num() as u64)) }
	open spec fn addr(&self) -> bool { ElementalVariableVecRef(slice_of(self.0@)).vladdr(Some(ML::num() as u64)) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalVariableVecRef(slice_of(self.0@)).vlstored_more::<K>(s, t, Some(ML::num() as u64)); }
//@ impl FromTree for MaxVec<T,ML>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool { ElementalVariableVec::<T>::vldecodes::<K>(s, root, Some(ML::num() as u64), ElementalVariableVec(x.0)) }
	open spec fn limits() -> bool { ElementalVariableVec::<T>::vllimits() && addressed(0, Some(ML::num() as u64)) }
//@ impl IntoTree for CompactRef<MaxVec<T,ML>>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalVariableVecRef(slice_of(self.0.0@)).clenc::<K>(Some(ML::num() as u64)) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalVariableVecRef(slice_of(self.0.0@)).clstored::<K>(s, Some(ML::num() as u64)) }
	open spec fn fits(&self) -> bool { ElementalVariableVecRef(slice_of(self.0.0@)).clfits(Some(ML::num() as u64)) }
	open spec fn addr(&self) -> bool { ElementalVariableVecRef(slice_of(self.0.0@)).claddr(Some(ML::num() as u64)) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalVariableVecRef(slice_of(self.0.0@)).clstored_more::<K>(s, t, Some(ML::num() as u64)); }
//@ fn IntoTree for CompactRef<MaxVec<T,ML>>::into_tree
//@ subst
ElementalVariableVecRef(&self.0)
=====>
ElementalVariableVecRef(self.0.deref())
//@ impl IntoTree for Compact<MaxVec<T,ML>>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalVariableVecRef(slice_of(self.0.0@)).clenc::<K>(Some(ML::num() as u64)) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalVariableVecRef(slice_of(self.0.0@)).clstored::<K>(s, Some(ML::num() as u64)) }
	open spec fn fits(&self) -> bool { ElementalVariableVecRef(slice_of(self.0.0@)).clfits(Some(ML::num() as u64)) }
	open spec fn addr(&self) -> bool { ElementalVariableVecRef(slice_of(self.0.0@)).claddr(Some(ML::num() as u64)) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalVariableVecRef(slice_of(self.0.0@)).clstored_more::<K>(s, t, Some(ML::num() as u64)); }
//@ fn IntoTree for Compact<MaxVec<T,ML>>::into_tree
//@ subst
ElementalVariableVecRef(&self.0)
=====>
ElementalVariableVecRef(self.0.deref())
//@ impl FromTree for Compact<MaxVec<T,ML>>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool { ElementalVariableVec::<T>::cldecodes::<K>(s, root, Some(ML::num() as u64), ElementalVariableVec(x.0.0)) }
	open spec fn limits() -> bool { ElementalVariableVec::<T>::cllimits() && addressed(0, Some(ML::num() as u64)) }
//@ impl IntoTree for [T]
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalVariableVecRef(self).vlenc::<K>(None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalVariableVecRef(self).vlstored::<K>(s, None) }
	open spec fn fits(&self) -> bool { ElementalVariableVecRef(self).vlfits(None) }
	open spec fn addr(&self) -> bool { ElementalVariableVecRef(self).vladdr(None) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalVariableVecRef(self).vlstored_more::<K>(s, t, None); }
//@ impl IntoTree for Vec<T>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalVariableVecRef(slice_of(self@)).vlenc::<K>(None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalVariableVecRef(slice_of(self@)).vlstored::<K>(s, None) }
	open spec fn fits(&self) -> bool { ElementalVariableVecRef(slice_of(self@)).vlfits(None) }
	open spec fn addr(&self) -> bool { ElementalVariableVecRef(slice_of(self@)).vladdr(None) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalVariableVecRef(slice_of(self@)).vlstored_more::<K>(s, t, None); }
//@ impl FromTree for Vec<T>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool { ElementalVariableVec::<T>::vldecodes::<K>(s, root, None, ElementalVariableVec(x)) }
	open spec fn limits() -> bool { ElementalVariableVec::<T>::vllimits() }
//@ fn FromTree for Vec<T>::from_tree
//@ closure 0
param 0 ElementalVariableVec<T>
-> (b: Vec<T>) ensures b == ret.0
//@ fn Deref for MaxVec<T,ML>::deref
//@ ret r
//@ spec
	ensures *r == self.0
//@ fn AsRef<[T]> for MaxVec<T,ML>::as_ref
//@ ret r
//@ spec
	ensures r@ == self.0@
//@ fn Default for MaxVec<T,ML>::default
//@ ret r
//@ spec
	ensures r.0@ == Seq::<T>::empty()
//@ impl From<Vec<T>> for MaxVec<T,ML>
//@ after
impl<T, ML> vstd::std_specs::convert::FromSpecImpl<Vec<T>> for MaxVec<T, ML> {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(v: Vec<T>) -> Self { MaxVec(v, PhantomData) }
}
//@ impl Into<Vec<T>> for MaxVec<T,ML>
//@ after
impl<T, ML> vstd::std_specs::convert::IntoSpecImpl<Vec<T>> for MaxVec<T, ML> {
	open spec fn obeys_into_spec() -> bool { true }
	open spec fn into_spec(self) -> Vec<T> { self.0 }
}
