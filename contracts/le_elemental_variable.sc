//@ full-names
//@ expand impl_packed
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest};
use crate::le_model::*;
use crate::le_lib::*;
use crate::traits::EmptyConstruct;
use crate::util_model::*;
use crate::vec_model::*;
use crate::le_vecs::*;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view, axiom_slice_of};
//@ item use crate::utils::{mix_in_length, decode_with_length};
//@ replace
use crate::le_utils::{mix_in_length, decode_with_length};
//@ postlude
/// The tree is no `T` of this length.
pub open spec fn cnothing<T: FromCompactVectorTree, C: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>) -> bool {
	forall|v: T| !#[trigger] T::cdecodes::<C>(s, root, len, max, v)
}
pub open spec fn vnothing<T: FromCompositeVectorTree, C: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>) -> bool {
	forall|v: T| !#[trigger] T::vdecodes::<C>(s, root, len, max, v)
}
/// The items of a list are those of its vector.
pub open spec fn same_items<T, E>(y: Result<ElementalFixedVec<T>, E>, r: Result<ElementalVariableVec<T>, E>) -> bool {
	match y { Ok(v) => r matches Ok(l) && l.0 == v.0, Err(e) => r matches Err(f) && f == e }
}
/// What decoding a list may answer.
#[verifier::prophetic]
pub open spec fn listed<DB: ReadBackend, F: FnOnce(&Value, &mut DB, usize, Option<u64>) -> Result<ElementalFixedVec<T>, Error<DB::Error>>, T>(f: F, root: Value, max: Option<u64>, d0: &DB, d1: &DB, r: Result<ElementalVariableVec<T>, Error<DB::Error>>) -> bool where DB::Construct: CompatibleConstruct {
	let same = d1.wf() && d1.dbv() == d0.dbv() && forall|k: Value| #[trigger] d1.loose(k) == d0.loose(k);
	||| r matches Err(e) && e is Backend && !d0.dbv().reads_ok && same
	||| r matches Err(e) && e is CorruptedDatabase && same && forall|x: Value, n: nat| n <= pow2(63) && #[trigger] len_decodes::<Value, DB::Construct>(d0.dbv().store, root, x, n) ==> !within(n, max)
	||| exists|x: &Value, d: &mut DB, n: usize, y: Result<ElementalFixedVec<T>, Error<DB::Error>>| {
		&&& #[trigger] call_ensures(f, (x, d, n, max), y)
		&&& len_decodes::<Value, DB::Construct>(d0.dbv().store, root, *x, n as nat) && within(n as nat, max)
		&&& (*d).wf() && (*d).dbv() == d0.dbv() && *final(d) == *d1
		&&& forall|k: Value| #[trigger] (*d).loose(k) == d0.loose(k)
		&&& same_items(y, r)
	}
}
//@ trait IntoCompositeListTree
//@ ghost
	/// As for `IntoTree`, for the maximum given.
	spec fn vlenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value;
	spec fn vlstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool;
	spec fn vlfits(&self, max: Option<u64>) -> bool;
	spec fn vladdr(&self, max: Option<u64>) -> bool;
	proof fn vlstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>)
		requires self.vlstored::<K>(s, max), s.submap_of(t), store_wf::<K>(s), store_wf::<K>(t),
		ensures self.vlstored::<K>(t, max);
//@ fn IntoCompositeListTree::into_composite_list_tree
//@ ret r
//@ spec
	requires old(db).wf(), self.vladdr(max_len),
	ensures
		final(db).wf(),
		r matches Err(e) ==> e is InvalidParameter && !self.vlfits(max_len) || e is Backend && !old(db).dbv().writes_ok,
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(k) ==> {
			&&& self.vlfits(max_len)
			&&& k == self.vlenc::<DB::Construct>(max_len)
			&&& grown(old(db).dbv(), final(db).dbv())
			&&& old(db).dbv().retains ==> self.vlstored::<DB::Construct>(final(db).dbv().store, max_len)
		}
//@ trait IntoCompactListTree
//@ ghost
	/// As for `IntoTree`, for the maximum given.
	spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value;
	spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool;
	spec fn clfits(&self, max: Option<u64>) -> bool;
	spec fn claddr(&self, max: Option<u64>) -> bool;
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>)
		requires self.clstored::<K>(s, max), s.submap_of(t), store_wf::<K>(s), store_wf::<K>(t),
		ensures self.clstored::<K>(t, max);
//@ fn IntoCompactListTree::into_compact_list_tree
//@ ret r
//@ spec
	requires old(db).wf(), self.claddr(max_len),
	ensures
		final(db).wf(),
		r matches Err(e) ==> e is InvalidParameter && !self.clfits(max_len) || e is Backend && !old(db).dbv().writes_ok,
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(k) ==> {
			&&& self.clfits(max_len)
			&&& k == self.clenc::<DB::Construct>(max_len)
			&&& grown(old(db).dbv(), final(db).dbv())
			&&& old(db).dbv().retains ==> self.clstored::<DB::Construct>(final(db).dbv().store, max_len)
		}
//@ trait FromCompositeListTree
//@ ghost
	/// What the tree at `root` says about `x`, for the maximum given.
	spec fn vldecodes<K: CompatibleConstruct>(s: Store, root: Value, max: Option<u64>, x: Self) -> bool;
	spec fn vllimits() -> bool;
//@ fn FromCompositeListTree::from_composite_list_tree
//@ ret r
//@ spec
	requires old(db).wf(), Self::vllimits(), addressed(0, max_len),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> Self::vldecodes::<DB::Construct>(old(db).dbv().store, *root, max_len, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && forall|x: Self| !#[trigger] Self::vldecodes::<DB::Construct>(old(db).dbv().store, *root, max_len, x),
//@ trait FromCompactListTree
//@ ghost
	/// What the tree at `root` says about `x`, for the maximum given.
	spec fn cldecodes<K: CompatibleConstruct>(s: Store, root: Value, max: Option<u64>, x: Self) -> bool;
	spec fn cllimits() -> bool;
//@ fn FromCompactListTree::from_compact_list_tree
//@ ret r
//@ spec
	requires old(db).wf(), Self::cllimits(), addressed(0, max_len),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> Self::cldecodes::<DB::Construct>(old(db).dbv().store, *root, max_len, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && forall|x: Self| !#[trigger] Self::cldecodes::<DB::Construct>(old(db).dbv().store, *root, max_len, x),
//@ impl IntoCompactListTree for ElementalVariableVecRef<bool>
//@ ghost
	open spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { enc2::<K>(ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len()) }
	open spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		ElementalFixedVecRef(self.0).cstored::<K>(s, max) && stored2::<K>(s, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len())
	}
	open spec fn clfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).cfits(max) }
	open spec fn claddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).caddr(max) }
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		ElementalFixedVecRef(self.0).cstored_more::<K>(s, t, max);
		lemma_stored2_more::<K>(s, t, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len());
	}
//@ fn IntoCompactListTree for ElementalVariableVecRef<bool>::into_compact_list_tree
//@ start
	let ghost d0 = db.dbv();
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(self.0)
//@ subst
mix_in_length(&«value»?, «rest»)
=====>
{
			let v_ = «value»?;
			let ghost d1 = db.dbv();
			let r_ = mix_in_length(&v_, «rest»);
			proof {
				if r_ is Ok {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains { ElementalFixedVecRef(self.0).cstored_more::<DB::Construct>(d1.store, db.dbv().store, max_len); }
				}
			}
			r_
		}
//@ impl IntoCompactListTree for ElementalVariableVecRef<u8>
//@ ghost
	open spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { enc2::<K>(ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len()) }
	open spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		ElementalFixedVecRef(self.0).cstored::<K>(s, max) && stored2::<K>(s, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len())
	}
	open spec fn clfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).cfits(max) }
	open spec fn claddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).caddr(max) }
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		ElementalFixedVecRef(self.0).cstored_more::<K>(s, t, max);
		lemma_stored2_more::<K>(s, t, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len());
	}
//@ fn IntoCompactListTree for ElementalVariableVecRef<u8>::into_compact_list_tree
//@ start
	let ghost d0 = db.dbv();
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(self.0)
//@ subst
mix_in_length(&«value»?, «rest»)
=====>
{
			let v_ = «value»?;
			let ghost d1 = db.dbv();
			let r_ = mix_in_length(&v_, «rest»);
			proof {
				if r_ is Ok {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains { ElementalFixedVecRef(self.0).cstored_more::<DB::Construct>(d1.store, db.dbv().store, max_len); }
				}
			}
			r_
		}
//@ impl IntoCompactListTree for ElementalVariableVecRef<u16>
//@ ghost
	open spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { enc2::<K>(ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len()) }
	open spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		ElementalFixedVecRef(self.0).cstored::<K>(s, max) && stored2::<K>(s, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len())
	}
	open spec fn clfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).cfits(max) }
	open spec fn claddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).caddr(max) }
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		ElementalFixedVecRef(self.0).cstored_more::<K>(s, t, max);
		lemma_stored2_more::<K>(s, t, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len());
	}
//@ fn IntoCompactListTree for ElementalVariableVecRef<u16>::into_compact_list_tree
//@ start
	let ghost d0 = db.dbv();
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(self.0)
//@ subst
mix_in_length(&«value»?, «rest»)
=====>
{
			let v_ = «value»?;
			let ghost d1 = db.dbv();
			let r_ = mix_in_length(&v_, «rest»);
			proof {
				if r_ is Ok {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains { ElementalFixedVecRef(self.0).cstored_more::<DB::Construct>(d1.store, db.dbv().store, max_len); }
				}
			}
			r_
		}
//@ impl IntoCompactListTree for ElementalVariableVecRef<u32>
//@ ghost
	open spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { enc2::<K>(ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len()) }
	open spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		ElementalFixedVecRef(self.0).cstored::<K>(s, max) && stored2::<K>(s, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len())
	}
	open spec fn clfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).cfits(max) }
	open spec fn claddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).caddr(max) }
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		ElementalFixedVecRef(self.0).cstored_more::<K>(s, t, max);
		lemma_stored2_more::<K>(s, t, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len());
	}
//@ fn IntoCompactListTree for ElementalVariableVecRef<u32>::into_compact_list_tree
//@ start
	let ghost d0 = db.dbv();
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(self.0)
//@ subst
mix_in_length(&«value»?, «rest»)
=====>
{
			let v_ = «value»?;
			let ghost d1 = db.dbv();
			let r_ = mix_in_length(&v_, «rest»);
			proof {
				if r_ is Ok {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains { ElementalFixedVecRef(self.0).cstored_more::<DB::Construct>(d1.store, db.dbv().store, max_len); }
				}
			}
			r_
		}
//@ impl IntoCompactListTree for ElementalVariableVecRef<u64>
//@ ghost
	open spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { enc2::<K>(ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len()) }
	open spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		ElementalFixedVecRef(self.0).cstored::<K>(s, max) && stored2::<K>(s, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len())
	}
	open spec fn clfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).cfits(max) }
	open spec fn claddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).caddr(max) }
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		ElementalFixedVecRef(self.0).cstored_more::<K>(s, t, max);
		lemma_stored2_more::<K>(s, t, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len());
	}
//@ fn IntoCompactListTree for ElementalVariableVecRef<u64>::into_compact_list_tree
//@ start
	let ghost d0 = db.dbv();
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(self.0)
//@ subst
mix_in_length(&«value»?, «rest»)
=====>
{
			let v_ = «value»?;
			let ghost d1 = db.dbv();
			let r_ = mix_in_length(&v_, «rest»);
			proof {
				if r_ is Ok {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains { ElementalFixedVecRef(self.0).cstored_more::<DB::Construct>(d1.store, db.dbv().store, max_len); }
				}
			}
			r_
		}
//@ impl IntoCompactListTree for ElementalVariableVecRef<u128>
//@ ghost
	open spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { enc2::<K>(ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len()) }
	open spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		ElementalFixedVecRef(self.0).cstored::<K>(s, max) && stored2::<K>(s, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len())
	}
	open spec fn clfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).cfits(max) }
	open spec fn claddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).caddr(max) }
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		ElementalFixedVecRef(self.0).cstored_more::<K>(s, t, max);
		lemma_stored2_more::<K>(s, t, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len());
	}
//@ fn IntoCompactListTree for ElementalVariableVecRef<u128>::into_compact_list_tree
//@ start
	let ghost d0 = db.dbv();
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(self.0)
//@ subst
mix_in_length(&«value»?, «rest»)
=====>
{
			let v_ = «value»?;
			let ghost d1 = db.dbv();
			let r_ = mix_in_length(&v_, «rest»);
			proof {
				if r_ is Ok {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains { ElementalFixedVecRef(self.0).cstored_more::<DB::Construct>(d1.store, db.dbv().store, max_len); }
				}
			}
			r_
		}
//@ impl IntoCompactListTree for ElementalVariableVecRef<U256>
//@ ghost
	open spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { enc2::<K>(ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len()) }
	open spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		ElementalFixedVecRef(self.0).cstored::<K>(s, max) && stored2::<K>(s, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len())
	}
	open spec fn clfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).cfits(max) }
	open spec fn claddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).caddr(max) }
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		ElementalFixedVecRef(self.0).cstored_more::<K>(s, t, max);
		lemma_stored2_more::<K>(s, t, ElementalFixedVecRef(self.0).cenc::<K>(max), self.0@.len());
	}
//@ fn IntoCompactListTree for ElementalVariableVecRef<U256>::into_compact_list_tree
//@ start
	let ghost d0 = db.dbv();
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(self.0)
//@ subst
mix_in_length(&«value»?, «rest»)
=====>
{
			let v_ = «value»?;
			let ghost d1 = db.dbv();
			let r_ = mix_in_length(&v_, «rest»);
			proof {
				if r_ is Ok {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains { ElementalFixedVecRef(self.0).cstored_more::<DB::Construct>(d1.store, db.dbv().store, max_len); }
				}
			}
			r_
		}
//@ impl IntoCompositeListTree for ElementalVariableVecRef<T>
//@ ghost
	open spec fn vlenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { enc2::<K>(ElementalFixedVecRef(self.0).venc::<K>(max), self.0@.len()) }
	open spec fn vlstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		ElementalFixedVecRef(self.0).vstored::<K>(s, max) && stored2::<K>(s, ElementalFixedVecRef(self.0).venc::<K>(max), self.0@.len())
	}
	open spec fn vlfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).vfits(max) }
	open spec fn vladdr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(self.0).vaddr(max) }
	proof fn vlstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		ElementalFixedVecRef(self.0).vstored_more::<K>(s, t, max);
		lemma_stored2_more::<K>(s, t, ElementalFixedVecRef(self.0).venc::<K>(max), self.0@.len());
	}
//@ fn IntoCompositeListTree for ElementalVariableVecRef<T>::into_composite_list_tree
//@ start
	let ghost d0 = db.dbv();
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(self.0)
//@ subst
mix_in_length(&«value»?, «rest»)
=====>
{
			let v_ = «value»?;
			let ghost d1 = db.dbv();
			let r_ = mix_in_length(&v_, «rest»);
			proof {
				if r_ is Ok {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains { ElementalFixedVecRef(self.0).vstored_more::<DB::Construct>(d1.store, db.dbv().store, max_len); }
				}
			}
			r_
		}
//@ fn from_list_tree
//@ ret r
//@ spec
	requires
		old(db).wf(), addressed(0, max_len),
		forall|x: &Value, d: &mut DB, n: usize| (*d).dbv() == old(db).dbv() && (*d).wf() && n <= pow2(63) && within(n as nat, max_len) ==> #[trigger] call_requires(f, (x, d, n, max_len)),
	ensures
		listed::<DB, F, T>(f, *root, max_len, old(db), final(db), r),
//@ closure 0 ~as u64 >
param 0 u64
-> (b: bool) ensures b == (len as u64 > max_len)
//@ impl FromCompactListTree for ElementalVariableVec<T>
//@ ghost
	open spec fn cldecodes<K: CompatibleConstruct>(s: Store, root: Value, max: Option<u64>, x: Self) -> bool {
		let w = elem(s, root, 2, None, 0);
		&&& w is Some && len_decodes::<Value, K>(s, root, w->0, x.0@.len())
		&&& within(x.0@.len(), max)
		&&& ElementalFixedVec::<T>::cdecodes::<K>(s, w->0, x.0@.len(), max, ElementalFixedVec(x.0))
	}
	open spec fn cllimits() -> bool { true }
//@ fn FromCompactListTree for ElementalVariableVec<T>::from_compact_list_tree
//@ closure 0
param 0 &Value
param 1 &mut DB
param 2 usize
param 3 Option<u64>
-> (y: Result<ElementalFixedVec<T>, Error<DB::Error>>)
	requires old(db).wf(), addressed(len as nat, max_len), within(len as nat, max_len)
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		y matches Ok(x) ==> ElementalFixedVec::<T>::cdecodes::<DB::Construct>(old(db).dbv().store, *vector_root, len as nat, max_len, x),
		y matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok || e is CorruptedDatabase && cnothing::<ElementalFixedVec<T>, DB::Construct>(old(db).dbv().store, *vector_root, len as nat, max_len)
//@ tail-let r_
	proof {
		if r_ is Ok {
			let (s, l) = (old(db).dbv().store, r_->Ok_0.0);
			assert forall|w: Value, n: nat, v: ElementalFixedVec<T>| v.0 == l && #[trigger] ElementalFixedVec::<T>::cdecodes::<DB::Construct>(s, w, n, max_len, v)
				implies n == l@.len() && v == ElementalFixedVec(l) by { ElementalFixedVec::<T>::cdecodes_len::<DB::Construct>(s, w, n, max_len, v); }
		}
	}
//@ impl FromCompositeListTree for ElementalVariableVec<T>
//@ ghost
	open spec fn vldecodes<K: CompatibleConstruct>(s: Store, root: Value, max: Option<u64>, x: Self) -> bool {
		let w = elem(s, root, 2, None, 0);
		&&& w is Some && len_decodes::<Value, K>(s, root, w->0, x.0@.len())
		&&& within(x.0@.len(), max)
		&&& ElementalFixedVec::<T>::vdecodes::<K>(s, w->0, x.0@.len(), max, ElementalFixedVec(x.0))
	}
	open spec fn vllimits() -> bool { ElementalFixedVec::<T>::vlimits() }
//@ fn FromCompositeListTree for ElementalVariableVec<T>::from_composite_list_tree
//@ closure 0
param 0 &Value
param 1 &mut DB
param 2 usize
param 3 Option<u64>
-> (y: Result<ElementalFixedVec<T>, Error<DB::Error>>)
	requires old(db).wf(), ElementalFixedVec::<T>::vlimits(), addressed(len as nat, max_len), within(len as nat, max_len)
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		y matches Ok(x) ==> ElementalFixedVec::<T>::vdecodes::<DB::Construct>(old(db).dbv().store, *vector_root, len as nat, max_len, x),
		y matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok || e is CorruptedDatabase && vnothing::<ElementalFixedVec<T>, DB::Construct>(old(db).dbv().store, *vector_root, len as nat, max_len)
//@ tail-let r_
	proof {
		if r_ is Ok {
			let (s, l) = (old(db).dbv().store, r_->Ok_0.0);
			assert forall|w: Value, n: nat, v: ElementalFixedVec<T>| v.0 == l && #[trigger] ElementalFixedVec::<T>::vdecodes::<DB::Construct>(s, w, n, max_len, v)
				implies n == l@.len() && v == ElementalFixedVec(l) by { ElementalFixedVec::<T>::vdecodes_len::<DB::Construct>(s, w, n, max_len, v); }
		}
	}
//@ impl IntoCompactListTree for ElementalVariableVec<T>
//@ ghost
	open spec fn clenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { ElementalVariableVecRef(slice_of(self.0@)).clenc::<K>(max) }
	open spec fn clstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool { ElementalVariableVecRef(slice_of(self.0@)).clstored::<K>(s, max) }
	open spec fn clfits(&self, max: Option<u64>) -> bool { ElementalVariableVecRef(slice_of(self.0@)).clfits(max) }
	open spec fn claddr(&self, max: Option<u64>) -> bool { ElementalVariableVecRef(slice_of(self.0@)).claddr(max) }
	proof fn clstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) { ElementalVariableVecRef(slice_of(self.0@)).clstored_more::<K>(s, t, max); }
//@ impl IntoCompositeListTree for ElementalVariableVec<T>
//@ ghost
	open spec fn vlenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { ElementalVariableVecRef(slice_of(self.0@)).vlenc::<K>(max) }
	open spec fn vlstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool { ElementalVariableVecRef(slice_of(self.0@)).vlstored::<K>(s, max) }
	open spec fn vlfits(&self, max: Option<u64>) -> bool { ElementalVariableVecRef(slice_of(self.0@)).vlfits(max) }
	open spec fn vladdr(&self, max: Option<u64>) -> bool { ElementalVariableVecRef(slice_of(self.0@)).vladdr(max) }
	proof fn vlstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) { ElementalVariableVecRef(slice_of(self.0@)).vlstored_more::<K>(s, t, max); }
