//@ full-names
//@ expand impl_fixed_array
//@ expand impl_tuple
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest, vecarray};
use crate::le_model::*;
use crate::le_vecs::*;
use crate::le_lib::*;
use crate::traits::EmptyConstruct;
use crate::util_model::{grown, built, lemma_grown_refl, lemma_grown_trans};
use crate::vec_model::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view, axiom_slice_of, axiom_array_len, axiom_vecarray_len};
//@ item use bm::utils::vector_tree;
//@ replace
use crate::utils::vector_tree;
//@ for W: Compact CompactRef
//@ impl IntoTree for @W@<GenericArray<T,L>>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalFixedVecRef(slice_of(self.0@)).cenc::<K>(None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalFixedVecRef(slice_of(self.0@)).cstored::<K>(s, None) }
	open spec fn fits(&self) -> bool { ElementalFixedVecRef(slice_of(self.0@)).cfits(None) }
	open spec fn addr(&self) -> bool { ElementalFixedVecRef(slice_of(self.0@)).caddr(None) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalFixedVecRef(slice_of(self.0@)).cstored_more::<K>(s, t, None); }
//@ fn IntoTree for @W@<GenericArray<T,L>>::into_tree
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(garr_slice(&self.0))
//@ impl IntoTree for @W@<VecArray<T,L>>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalFixedVecRef(slice_of(self.0@)).cenc::<K>(None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalFixedVecRef(slice_of(self.0@)).cstored::<K>(s, None) }
	open spec fn fits(&self) -> bool { ElementalFixedVecRef(slice_of(self.0@)).cfits(None) }
	open spec fn addr(&self) -> bool { ElementalFixedVecRef(slice_of(self.0@)).caddr(None) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalFixedVecRef(slice_of(self.0@)).cstored_more::<K>(s, t, None); }
//@ fn IntoTree for @W@<VecArray<T,L>>::into_tree
//@ subst
ElementalFixedVecRef(&self.0)
=====>
ElementalFixedVecRef(varr_slice(&self.0))
//@ endfor
//@ fn FromTree for Compact<GenericArray<T,L>>::from_tree
//@ after-stmt let value
	proof { ElementalFixedVec::<T>::cdecodes_len::<DB::Construct>(db.dbv().store, *root, L::n(), None, value); }
	let ghost gv = value;
//@ impl FromTree for Compact<GenericArray<T,L>>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		exists|v: ElementalFixedVec<T>| v.0@ == x.0@ && #[trigger] ElementalFixedVec::<T>::cdecodes::<K>(s, root, L::n(), None, v)
	}
	open spec fn limits() -> bool { L::n() <= usize::MAX && addressed(L::n(), None) }
//@ fn FromTree for Compact<GenericArray<T,L>>::from_tree
//@ subst
GenericArray::default()
=====>
garr_default::<T, L>()
//@ subst
value.0.into_iter().enumerate()
=====>
it: numbered(value.0)
//@ loop 0 spec
	invariant
		ret@.len() == gv.0@.len(), gv.0@.len() <= usize::MAX, it.seq().len() == gv.0@.len(),
		forall|k: int| 0 <= k < gv.0@.len() ==> #[trigger] it.seq()[k] == (k as usize, gv.0@[k]),
		forall|k: int| 0 <= k < it.index@ ==> #[trigger] ret@[k] == gv.0@[k],
//@ loop 0 start
	proof { assert(it.seq()[it.index@ as int] == (it.index@ as usize, gv.0@[it.index@ as int])); }
//@ loop 0 after
	proof { assert(ret@ =~= gv.0@); }
//@ fn FromTree for Compact<VecArray<T,L>>::from_tree
//@ after-stmt let value
	proof { ElementalFixedVec::<T>::cdecodes_len::<DB::Construct>(db.dbv().store, *root, L::num(), None, value); }
//@ impl FromTree for Compact<VecArray<T,L>>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		exists|v: ElementalFixedVec<T>| v.0@ == x.0@ && #[trigger] ElementalFixedVec::<T>::cdecodes::<K>(s, root, L::num(), None, v)
	}
	open spec fn limits() -> bool { addressed(L::num(), None) }
//@ fn FromTree for Compact<VecArray<T,L>>::from_tree
//@ subst
VecArray::try_from(value.0)
=====>
varr_try_from(value.0)
//@ for T,N: H256,32 H512,64
//@ fn IntoTree for @T@::into_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ fn FromTree for @T@::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ after-stmt let value
	proof { ElementalFixedVec::<u8>::cdecodes_len::<DB::Construct>(db.dbv().store, *root, @N@, None, value); }
	let ghost gv = value;
//@ impl IntoTree for @T@
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(hosts(bytes_u8(self.0@), 1), None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { storedv::<K>(s, hosts(bytes_u8(self.0@), 1), None) }
	open spec fn fits(&self) -> bool { true }
	open spec fn addr(&self) -> bool { true }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { lemma_storedv_more::<K>(s, t, hosts(bytes_u8(self.0@), 1), None); }
//@ impl FromTree for @T@
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		exists|v: ElementalFixedVec<u8>| v.0@ == x.0@ && #[trigger] ElementalFixedVec::<u8>::cdecodes::<K>(s, root, @N@, None, v)
	}
	open spec fn limits() -> bool { true }
//@ endfor
//@ for N: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
//@ impl IntoTree for [T;@N@]
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalFixedVecRef(slice_of(self@)).venc::<K>(None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalFixedVecRef(slice_of(self@)).vstored::<K>(s, None) }
	open spec fn fits(&self) -> bool { ElementalFixedVecRef(slice_of(self@)).vfits(None) }
	open spec fn addr(&self) -> bool { ElementalFixedVecRef(slice_of(self@)).vaddr(None) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalFixedVecRef(slice_of(self@)).vstored_more::<K>(s, t, None); }
//@ impl FromTree for [T;@N@]
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		exists|v: ElementalFixedVec<T>| v.0@ == x@ && #[trigger] ElementalFixedVec::<T>::vdecodes::<K>(s, root, @N@, None, v)
	}
	open spec fn limits() -> bool { ElementalFixedVec::<T>::vlimits() }
//@ fn IntoTree for [T;@N@]::into_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ subst
&self[..]
=====>
self.as_slice()
//@ fn FromTree for [T;@N@]::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ after-stmt let value
	proof { ElementalFixedVec::<T>::vdecodes_len::<DB::Construct>(db.dbv().store, *root, @N@, None, value); }
	let ghost gv = value;
//@ subst
value.0.into_iter().enumerate()
=====>
it: numbered(value.0)
//@ loop 0 spec
	invariant
		ret@.len() == gv.0@.len(), gv.0@.len() <= usize::MAX, it.seq().len() == gv.0@.len(),
		forall|k: int| 0 <= k < gv.0@.len() ==> #[trigger] it.seq()[k] == (k as usize, gv.0@[k]),
		forall|k: int| 0 <= k < it.index@ ==> #[trigger] ret@[k] == gv.0@[k],
//@ loop 0 start
	proof { assert(it.seq()[it.index@ as int] == (it.index@ as usize, gv.0@[it.index@ as int])); }
//@ loop 0 after
	proof { assert(ret@ =~= gv.0@); }
//@ endfor
//@ for W,N,S: GenericArray,n,garr_slice VecArray,num,varr_slice
//@ impl IntoTree for @W@<T,L>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { ElementalFixedVecRef(slice_of(self@)).venc::<K>(None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { ElementalFixedVecRef(slice_of(self@)).vstored::<K>(s, None) }
	open spec fn fits(&self) -> bool { ElementalFixedVecRef(slice_of(self@)).vfits(None) }
	open spec fn addr(&self) -> bool { ElementalFixedVecRef(slice_of(self@)).vaddr(None) }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { ElementalFixedVecRef(slice_of(self@)).vstored_more::<K>(s, t, None); }
//@ fn IntoTree for @W@<T,L>::into_tree
//@ subst
&self[..]
=====>
@S@(self)
//@ impl FromTree for @W@<T,L>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		exists|v: ElementalFixedVec<T>| v.0@ == x@ && #[trigger] ElementalFixedVec::<T>::vdecodes::<K>(s, root, L::@N@(), None, v)
	}
	open spec fn limits() -> bool { L::@N@() <= usize::MAX && addressed(L::@N@(), None) && ElementalFixedVec::<T>::vlimits() }
//@ endfor
//@ fn FromTree for GenericArray<T,L>::from_tree
//@ after-stmt let value
	proof { ElementalFixedVec::<T>::vdecodes_len::<DB::Construct>(db.dbv().store, *root, L::n(), None, value); }
//@ subst
GenericArray::from_exact_iter(value.0)
=====>
garr_from_exact_iter(value.0)
//@ fn FromTree for VecArray<T,L>::from_tree
//@ after-stmt let value
	proof { ElementalFixedVec::<T>::vdecodes_len::<DB::Construct>(db.dbv().store, *root, L::num(), None, value); }
//@ subst
VecArray::try_from(value.0)
=====>
varr_try_from(value.0)
//@ impl FromTree for ()
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool { root == dflt::<Value>() }
	open spec fn limits() -> bool { true }
//@ fn FromTree for ()::from_tree
//@ start
	proof {
		broadcast use axiom_zero_value; axiom_value_bytes(dflt::<Value>());
		assert forall|v: Value| vb(v) == Seq::new(32, |i: int| 0u8) implies v == #[trigger] dflt::<Value>() by { axiom_value_bytes(v); }
	}
//@ impl IntoTree for ()
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { dflt() }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { true }
	open spec fn fits(&self) -> bool { true }
	open spec fn addr(&self) -> bool { true }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {}
//@ impl IntoTree for (A,B)
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>()], None);
	}
//@ fn IntoTree for (A,B)::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>()]);
		assert(within(2, None) && vdep(2, None) == depth_of(2));
		if r_ is Ok { lemma_grown_trans(d0, d2, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d2.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d2.store, db.dbv().store);
		}
	}
//@ impl FromTree for (A,B)
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 2, None, 0) matches Some(v) && A::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 2, None, 1) matches Some(v) && B::decodes::<K>(s, v, x.1))
	}
	open spec fn limits() -> bool { A::limits() && B::limits() }
//@ fn FromTree for (A,B)::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for (A,B,C)
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s) && self.2.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() && self.2.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t); self.2.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>()], None);
	}
//@ fn IntoTree for (A,B,C)::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>(), self.2.enc::<DB::Construct>()]);
		assert(within(3, None) && vdep(3, None) == depth_of(3));
		if r_ is Ok { lemma_grown_trans(d0, d3, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d3.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d3.store, db.dbv().store);
			self.2.stored_more::<DB::Construct>(d3.store, db.dbv().store);
		}
	}
//@ impl FromTree for (A,B,C)
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 3, None, 0) matches Some(v) && A::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 3, None, 1) matches Some(v) && B::decodes::<K>(s, v, x.1))
		&&& (elem(s, root, 3, None, 2) matches Some(v) && C::decodes::<K>(s, v, x.2))
	}
	open spec fn limits() -> bool { A::limits() && B::limits() && C::limits() }
//@ fn FromTree for (A,B,C)::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for (A,B,C,D)
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s) && self.2.stored::<K>(s) && self.3.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() && self.2.addr() && self.3.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t); self.2.stored_more::<K>(s, t); self.3.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>()], None);
	}
//@ fn IntoTree for (A,B,C,D)::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { a.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>(), self.2.enc::<DB::Construct>(), self.3.enc::<DB::Construct>()]);
		assert(within(4, None) && vdep(4, None) == depth_of(4));
		if r_ is Ok { lemma_grown_trans(d0, d4, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d4.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d4.store, db.dbv().store);
			self.2.stored_more::<DB::Construct>(d4.store, db.dbv().store);
			self.3.stored_more::<DB::Construct>(d4.store, db.dbv().store);
		}
	}
//@ impl FromTree for (A,B,C,D)
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 4, None, 0) matches Some(v) && A::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 4, None, 1) matches Some(v) && B::decodes::<K>(s, v, x.1))
		&&& (elem(s, root, 4, None, 2) matches Some(v) && C::decodes::<K>(s, v, x.2))
		&&& (elem(s, root, 4, None, 3) matches Some(v) && D::decodes::<K>(s, v, x.3))
	}
	open spec fn limits() -> bool { A::limits() && B::limits() && C::limits() && D::limits() }
//@ fn FromTree for (A,B,C,D)::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for (A,B,C,D,E)
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s) && self.2.stored::<K>(s) && self.3.stored::<K>(s) && self.4.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() && self.2.addr() && self.3.addr() && self.4.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t); self.2.stored_more::<K>(s, t); self.3.stored_more::<K>(s, t); self.4.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>()], None);
	}
//@ fn IntoTree for (A,B,C,D,E)::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	let ghost mut d5 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { a.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ after-stmt #4 vector.push
	proof {
		d5 = db.dbv();
		lemma_grown_trans(d0, d4, d5);
		if d0.retains { a.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d4.store, d5.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>(), self.2.enc::<DB::Construct>(), self.3.enc::<DB::Construct>(), self.4.enc::<DB::Construct>()]);
		assert(within(5, None) && vdep(5, None) == depth_of(5));
		if r_ is Ok { lemma_grown_trans(d0, d5, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d5.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d5.store, db.dbv().store);
			self.2.stored_more::<DB::Construct>(d5.store, db.dbv().store);
			self.3.stored_more::<DB::Construct>(d5.store, db.dbv().store);
			self.4.stored_more::<DB::Construct>(d5.store, db.dbv().store);
		}
	}
//@ impl FromTree for (A,B,C,D,E)
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 5, None, 0) matches Some(v) && A::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 5, None, 1) matches Some(v) && B::decodes::<K>(s, v, x.1))
		&&& (elem(s, root, 5, None, 2) matches Some(v) && C::decodes::<K>(s, v, x.2))
		&&& (elem(s, root, 5, None, 3) matches Some(v) && D::decodes::<K>(s, v, x.3))
		&&& (elem(s, root, 5, None, 4) matches Some(v) && E::decodes::<K>(s, v, x.4))
	}
	open spec fn limits() -> bool { A::limits() && B::limits() && C::limits() && D::limits() && E::limits() }
//@ fn FromTree for (A,B,C,D,E)::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for (A,B,C,D,E,F)
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s) && self.2.stored::<K>(s) && self.3.stored::<K>(s) && self.4.stored::<K>(s) && self.5.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() && self.2.addr() && self.3.addr() && self.4.addr() && self.5.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t); self.2.stored_more::<K>(s, t); self.3.stored_more::<K>(s, t); self.4.stored_more::<K>(s, t); self.5.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>()], None);
	}
//@ fn IntoTree for (A,B,C,D,E,F)::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	let ghost mut d5 = d0;
	let ghost mut d6 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { a.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ after-stmt #4 vector.push
	proof {
		d5 = db.dbv();
		lemma_grown_trans(d0, d4, d5);
		if d0.retains { a.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d4.store, d5.store); }
	}
//@ after-stmt #5 vector.push
	proof {
		d6 = db.dbv();
		lemma_grown_trans(d0, d5, d6);
		if d0.retains { a.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d5.store, d6.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>(), self.2.enc::<DB::Construct>(), self.3.enc::<DB::Construct>(), self.4.enc::<DB::Construct>(), self.5.enc::<DB::Construct>()]);
		assert(within(6, None) && vdep(6, None) == depth_of(6));
		if r_ is Ok { lemma_grown_trans(d0, d6, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d6.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d6.store, db.dbv().store);
			self.2.stored_more::<DB::Construct>(d6.store, db.dbv().store);
			self.3.stored_more::<DB::Construct>(d6.store, db.dbv().store);
			self.4.stored_more::<DB::Construct>(d6.store, db.dbv().store);
			self.5.stored_more::<DB::Construct>(d6.store, db.dbv().store);
		}
	}
//@ impl FromTree for (A,B,C,D,E,F)
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 6, None, 0) matches Some(v) && A::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 6, None, 1) matches Some(v) && B::decodes::<K>(s, v, x.1))
		&&& (elem(s, root, 6, None, 2) matches Some(v) && C::decodes::<K>(s, v, x.2))
		&&& (elem(s, root, 6, None, 3) matches Some(v) && D::decodes::<K>(s, v, x.3))
		&&& (elem(s, root, 6, None, 4) matches Some(v) && E::decodes::<K>(s, v, x.4))
		&&& (elem(s, root, 6, None, 5) matches Some(v) && F::decodes::<K>(s, v, x.5))
	}
	open spec fn limits() -> bool { A::limits() && B::limits() && C::limits() && D::limits() && E::limits() && F::limits() }
//@ fn FromTree for (A,B,C,D,E,F)::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for (A,B,C,D,E,F,G)
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s) && self.2.stored::<K>(s) && self.3.stored::<K>(s) && self.4.stored::<K>(s) && self.5.stored::<K>(s) && self.6.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() && self.6.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() && self.2.addr() && self.3.addr() && self.4.addr() && self.5.addr() && self.6.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t); self.2.stored_more::<K>(s, t); self.3.stored_more::<K>(s, t); self.4.stored_more::<K>(s, t); self.5.stored_more::<K>(s, t); self.6.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>()], None);
	}
//@ fn IntoTree for (A,B,C,D,E,F,G)::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	let ghost mut d5 = d0;
	let ghost mut d6 = d0;
	let ghost mut d7 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { a.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ after-stmt #4 vector.push
	proof {
		d5 = db.dbv();
		lemma_grown_trans(d0, d4, d5);
		if d0.retains { a.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d4.store, d5.store); }
	}
//@ after-stmt #5 vector.push
	proof {
		d6 = db.dbv();
		lemma_grown_trans(d0, d5, d6);
		if d0.retains { a.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d5.store, d6.store); }
	}
//@ after-stmt #6 vector.push
	proof {
		d7 = db.dbv();
		lemma_grown_trans(d0, d6, d7);
		if d0.retains { a.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { f.stored_more::<DB::Construct>(d6.store, d7.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>(), self.2.enc::<DB::Construct>(), self.3.enc::<DB::Construct>(), self.4.enc::<DB::Construct>(), self.5.enc::<DB::Construct>(), self.6.enc::<DB::Construct>()]);
		assert(within(7, None) && vdep(7, None) == depth_of(7));
		if r_ is Ok { lemma_grown_trans(d0, d7, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d7.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d7.store, db.dbv().store);
			self.2.stored_more::<DB::Construct>(d7.store, db.dbv().store);
			self.3.stored_more::<DB::Construct>(d7.store, db.dbv().store);
			self.4.stored_more::<DB::Construct>(d7.store, db.dbv().store);
			self.5.stored_more::<DB::Construct>(d7.store, db.dbv().store);
			self.6.stored_more::<DB::Construct>(d7.store, db.dbv().store);
		}
	}
//@ impl FromTree for (A,B,C,D,E,F,G)
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 7, None, 0) matches Some(v) && A::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 7, None, 1) matches Some(v) && B::decodes::<K>(s, v, x.1))
		&&& (elem(s, root, 7, None, 2) matches Some(v) && C::decodes::<K>(s, v, x.2))
		&&& (elem(s, root, 7, None, 3) matches Some(v) && D::decodes::<K>(s, v, x.3))
		&&& (elem(s, root, 7, None, 4) matches Some(v) && E::decodes::<K>(s, v, x.4))
		&&& (elem(s, root, 7, None, 5) matches Some(v) && F::decodes::<K>(s, v, x.5))
		&&& (elem(s, root, 7, None, 6) matches Some(v) && G::decodes::<K>(s, v, x.6))
	}
	open spec fn limits() -> bool { A::limits() && B::limits() && C::limits() && D::limits() && E::limits() && F::limits() && G::limits() }
//@ fn FromTree for (A,B,C,D,E,F,G)::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for (A,B,C,D,E,F,G,H)
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>(), self.7.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s) && self.2.stored::<K>(s) && self.3.stored::<K>(s) && self.4.stored::<K>(s) && self.5.stored::<K>(s) && self.6.stored::<K>(s) && self.7.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>(), self.7.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() && self.6.fits() && self.7.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() && self.2.addr() && self.3.addr() && self.4.addr() && self.5.addr() && self.6.addr() && self.7.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t); self.2.stored_more::<K>(s, t); self.3.stored_more::<K>(s, t); self.4.stored_more::<K>(s, t); self.5.stored_more::<K>(s, t); self.6.stored_more::<K>(s, t); self.7.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>(), self.7.enc::<K>()], None);
	}
//@ fn IntoTree for (A,B,C,D,E,F,G,H)::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	let ghost mut d5 = d0;
	let ghost mut d6 = d0;
	let ghost mut d7 = d0;
	let ghost mut d8 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { a.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ after-stmt #4 vector.push
	proof {
		d5 = db.dbv();
		lemma_grown_trans(d0, d4, d5);
		if d0.retains { a.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d4.store, d5.store); }
	}
//@ after-stmt #5 vector.push
	proof {
		d6 = db.dbv();
		lemma_grown_trans(d0, d5, d6);
		if d0.retains { a.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d5.store, d6.store); }
	}
//@ after-stmt #6 vector.push
	proof {
		d7 = db.dbv();
		lemma_grown_trans(d0, d6, d7);
		if d0.retains { a.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { f.stored_more::<DB::Construct>(d6.store, d7.store); }
	}
//@ after-stmt #7 vector.push
	proof {
		d8 = db.dbv();
		lemma_grown_trans(d0, d7, d8);
		if d0.retains { a.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { f.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { g.stored_more::<DB::Construct>(d7.store, d8.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>(), self.2.enc::<DB::Construct>(), self.3.enc::<DB::Construct>(), self.4.enc::<DB::Construct>(), self.5.enc::<DB::Construct>(), self.6.enc::<DB::Construct>(), self.7.enc::<DB::Construct>()]);
		assert(within(8, None) && vdep(8, None) == depth_of(8));
		if r_ is Ok { lemma_grown_trans(d0, d8, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d8.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d8.store, db.dbv().store);
			self.2.stored_more::<DB::Construct>(d8.store, db.dbv().store);
			self.3.stored_more::<DB::Construct>(d8.store, db.dbv().store);
			self.4.stored_more::<DB::Construct>(d8.store, db.dbv().store);
			self.5.stored_more::<DB::Construct>(d8.store, db.dbv().store);
			self.6.stored_more::<DB::Construct>(d8.store, db.dbv().store);
			self.7.stored_more::<DB::Construct>(d8.store, db.dbv().store);
		}
	}
//@ impl FromTree for (A,B,C,D,E,F,G,H)
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 8, None, 0) matches Some(v) && A::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 8, None, 1) matches Some(v) && B::decodes::<K>(s, v, x.1))
		&&& (elem(s, root, 8, None, 2) matches Some(v) && C::decodes::<K>(s, v, x.2))
		&&& (elem(s, root, 8, None, 3) matches Some(v) && D::decodes::<K>(s, v, x.3))
		&&& (elem(s, root, 8, None, 4) matches Some(v) && E::decodes::<K>(s, v, x.4))
		&&& (elem(s, root, 8, None, 5) matches Some(v) && F::decodes::<K>(s, v, x.5))
		&&& (elem(s, root, 8, None, 6) matches Some(v) && G::decodes::<K>(s, v, x.6))
		&&& (elem(s, root, 8, None, 7) matches Some(v) && H::decodes::<K>(s, v, x.7))
	}
	open spec fn limits() -> bool { A::limits() && B::limits() && C::limits() && D::limits() && E::limits() && F::limits() && G::limits() && H::limits() }
//@ fn FromTree for (A,B,C,D,E,F,G,H)::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for (A,B,C,D,E,F,G,H,I)
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>(), self.7.enc::<K>(), self.8.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s) && self.2.stored::<K>(s) && self.3.stored::<K>(s) && self.4.stored::<K>(s) && self.5.stored::<K>(s) && self.6.stored::<K>(s) && self.7.stored::<K>(s) && self.8.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>(), self.7.enc::<K>(), self.8.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() && self.5.fits() && self.6.fits() && self.7.fits() && self.8.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() && self.2.addr() && self.3.addr() && self.4.addr() && self.5.addr() && self.6.addr() && self.7.addr() && self.8.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t); self.2.stored_more::<K>(s, t); self.3.stored_more::<K>(s, t); self.4.stored_more::<K>(s, t); self.5.stored_more::<K>(s, t); self.6.stored_more::<K>(s, t); self.7.stored_more::<K>(s, t); self.8.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>(), self.5.enc::<K>(), self.6.enc::<K>(), self.7.enc::<K>(), self.8.enc::<K>()], None);
	}
//@ fn IntoTree for (A,B,C,D,E,F,G,H,I)::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	let ghost mut d5 = d0;
	let ghost mut d6 = d0;
	let ghost mut d7 = d0;
	let ghost mut d8 = d0;
	let ghost mut d9 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { a.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ after-stmt #4 vector.push
	proof {
		d5 = db.dbv();
		lemma_grown_trans(d0, d4, d5);
		if d0.retains { a.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d4.store, d5.store); }
	}
//@ after-stmt #5 vector.push
	proof {
		d6 = db.dbv();
		lemma_grown_trans(d0, d5, d6);
		if d0.retains { a.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d5.store, d6.store); }
	}
//@ after-stmt #6 vector.push
	proof {
		d7 = db.dbv();
		lemma_grown_trans(d0, d6, d7);
		if d0.retains { a.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { f.stored_more::<DB::Construct>(d6.store, d7.store); }
	}
//@ after-stmt #7 vector.push
	proof {
		d8 = db.dbv();
		lemma_grown_trans(d0, d7, d8);
		if d0.retains { a.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { f.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { g.stored_more::<DB::Construct>(d7.store, d8.store); }
	}
//@ after-stmt #8 vector.push
	proof {
		d9 = db.dbv();
		lemma_grown_trans(d0, d8, d9);
		if d0.retains { a.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { b.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { c.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { d.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { e.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { f.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { g.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { h.stored_more::<DB::Construct>(d8.store, d9.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>(), self.2.enc::<DB::Construct>(), self.3.enc::<DB::Construct>(), self.4.enc::<DB::Construct>(), self.5.enc::<DB::Construct>(), self.6.enc::<DB::Construct>(), self.7.enc::<DB::Construct>(), self.8.enc::<DB::Construct>()]);
		assert(within(9, None) && vdep(9, None) == depth_of(9));
		if r_ is Ok { lemma_grown_trans(d0, d9, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.2.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.3.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.4.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.5.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.6.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.7.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.8.stored_more::<DB::Construct>(d9.store, db.dbv().store);
		}
	}
//@ impl FromTree for (A,B,C,D,E,F,G,H,I)
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 9, None, 0) matches Some(v) && A::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 9, None, 1) matches Some(v) && B::decodes::<K>(s, v, x.1))
		&&& (elem(s, root, 9, None, 2) matches Some(v) && C::decodes::<K>(s, v, x.2))
		&&& (elem(s, root, 9, None, 3) matches Some(v) && D::decodes::<K>(s, v, x.3))
		&&& (elem(s, root, 9, None, 4) matches Some(v) && E::decodes::<K>(s, v, x.4))
		&&& (elem(s, root, 9, None, 5) matches Some(v) && F::decodes::<K>(s, v, x.5))
		&&& (elem(s, root, 9, None, 6) matches Some(v) && G::decodes::<K>(s, v, x.6))
		&&& (elem(s, root, 9, None, 7) matches Some(v) && H::decodes::<K>(s, v, x.7))
		&&& (elem(s, root, 9, None, 8) matches Some(v) && I::decodes::<K>(s, v, x.8))
	}
	open spec fn limits() -> bool { A::limits() && B::limits() && C::limits() && D::limits() && E::limits() && F::limits() && G::limits() && H::limits() && I::limits() }
//@ fn FromTree for (A,B,C,D,E,F,G,H,I)::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
