//@ full-names
//@ expand impl_builtin_uint
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest};
use crate::le_model::*;
use crate::le_lib::*;
use crate::traits::EmptyConstruct;
use crate::util_model::{grown, lemma_grown_refl, lemma_grown_trans, lemma_grown_insert};
use crate::vec_model::*;
use crate::proving_model::{croot, cproofs};
use vstd::std_specs::convert::*;
broadcast use {group_value, crate::traits::wf_has_view};
//@ item use crate::utils::{mix_in_type, decode_with_type};
//@ replace
use crate::le_utils::{mix_in_type, decode_with_type};
//@ impl IntoTree for bool
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { bv(le_bytes(if *self { 1 } else { 0 }, 32)) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { true }
	open spec fn fits(&self) -> bool { true }
	open spec fn addr(&self) -> bool { true }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {}
//@ impl FromTree for bool
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: bool) -> bool { x == (vb(root)[0] != 0) }
	open spec fn limits() -> bool { true }
//@ fn FromTree for bool::from_tree
//@ start
	proof { lemma_byte(*root); assert(u8::decodes::<DB::Construct>(db.dbv().store, *root, vb(*root)[0])); }
//@ for T,N: u8,1 u16,2 u32,4 u64,8 u128,16
//@ impl IntoTree for @T@
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { bv(le_bytes(*self as nat, 32)) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { true }
	open spec fn fits(&self) -> bool { true }
	open spec fn addr(&self) -> bool { true }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {}
//@ fn IntoTree for @T@::into_tree
//@ subst
self.to_le_bytes()
=====>
to_le_@T@(*self)
//@ tail
	proof {
		lemma_maxes();
		lemma_le_len(*self as nat, @N@);
		lemma_le_pad(*self as nat, @N@, 32);
		assert(ret@ =~= le_bytes(*self as nat, 32));
		axiom_value_bytes(Value(H256(ret)));
	}
//@ impl FromTree for @T@
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: @T@) -> bool { x as nat == le_nat(vb(root).take(@N@)) }
	open spec fn limits() -> bool { true }
//@ fn FromTree for @T@::from_tree
//@ subst
Self::default().to_le_bytes()
=====>
to_le_@T@(Self::default())
//@ subst
Self::from_le_bytes(bytes)
=====>
from_le_@T@(bytes)
//@ endfor
//@ impl IntoTree for U256
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { bv(le_bytes(self@, 32)) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { true }
	open spec fn fits(&self) -> bool { true }
	open spec fn addr(&self) -> bool { true }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {}
//@ fn IntoTree for U256::into_tree
//@ tail
	proof { axiom_value_bytes(Value(H256(ret))); }
//@ impl FromTree for U256
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: U256) -> bool { x@ == le_nat(vb(root)) }
	open spec fn limits() -> bool { true }
//@ impl IntoTree for Value
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { *self }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { true }
	open spec fn fits(&self) -> bool { true }
	open spec fn addr(&self) -> bool { true }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {}
//@ impl FromTree for Value
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Value) -> bool { x == root }
	open spec fn limits() -> bool { true }
//@ impl IntoTree for CompactValue<Value>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { croot::<K>(*self) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { cproofs::<K>(*self).submap_of(s) }
	open spec fn fits(&self) -> bool { true }
	open spec fn addr(&self) -> bool { true }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { lemma_submap_trans(cproofs::<K>(*self), s, t); }
//@ fn IntoTree for CompactValue<Value>::into_tree
//@ spec
	decreases self,
//@ start
	let ghost d0 = db.dbv();
//@ after-stmt let left
	let ghost d2 = db.dbv();
//@ after-stmt let right
	let ghost d1 = db.dbv();
//@ before-stmt db.insert
	let ghost (gl, gr) = (left, right);
//@ after-stmt db.insert
	proof {
		lemma_grown_trans(d0, d2, d1);
		let (left, right) = (gl, gr);
		lemma_grown_insert(d1, left, right);
		lemma_grown_trans(d0, d1, db.dbv());
		if d0.retains {
			assert(db.dbv().store.contains_key(key) && db.dbv().store[key] == (left, right));
			let (cl, cr) = (cproofs::<DB::Construct>(boxed.0), cproofs::<DB::Construct>(boxed.1));
			lemma_submap_trans(cl, d2.store, d1.store);
			lemma_submap_trans(cl, d1.store, db.dbv().store);
			lemma_submap_trans(cr, d1.store, db.dbv().store);
			assert(cproofs::<DB::Construct>(*self) == cl.union_prefer_right(cr).insert(key, (left, right)));
			let m = cproofs::<DB::Construct>(*self);
			let t = db.dbv().store;
			assert forall|k: Value| #[trigger] m.contains_key(k) implies t.contains_key(k) && m[k] == t[k] by {
				if k != key {
					if cr.contains_key(k) { assert(m[k] == cr[k]); } else { assert(cl.contains_key(k) && m[k] == cl[k]); }
				}
			}
		}
	}
//@ impl FromTree for Option<T>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		let (l, r) = (elem(s, root, 2, None, 0), elem(s, root, 2, None, 1));
		&&& l is Some && r is Some
		&&& match x {
			None => le_nat(vb(r->0)) == 0 && <() as FromTree>::decodes::<K>(s, l->0, ()),
			Some(v) => le_nat(vb(r->0)) == 1 && T::decodes::<K>(s, l->0, v),
		}
	}
	open spec fn limits() -> bool { T::limits() }
//@ fn FromTree for Option<T>::from_tree
//@ closure 0
param 0 &Value
param 1 &mut DB
param 2 usize
-> (r: Result<Option<T>, Error<DB::Error>>)
	requires old(db).wf(), T::limits(),
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> (match x { None => ty == 0 && <() as FromTree>::decodes::<DB::Construct>(old(db).dbv().store, *inner, ()), Some(v) => ty == 1 && T::decodes::<DB::Construct>(old(db).dbv().store, *inner, v) }),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && (ty == 0 ==> !<() as FromTree>::decodes::<DB::Construct>(old(db).dbv().store, *inner, ())) && (ty == 1 ==> nothing::<T, DB::Construct>(old(db).dbv().store, *inner)),
//@ tail-let r_
	proof {
		if r_ is Err && r_->Err_0 is CorruptedDatabase {
			let (a, b) = (elem(db.dbv().store, *root, 2, None, 0), elem(db.dbv().store, *root, 2, None, 1));
			if a is Some && b is Some && le_nat(vb(b->0)) == 1 { assert(nothing::<T, DB::Construct>(db.dbv().store, a->0)); }
		}
	}
//@ impl IntoTree for Option<T>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value {
		match self { None => enc2::<K>(().enc::<K>(), 0), Some(v) => enc2::<K>(v.enc::<K>(), 1) }
	}
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		match self { None => stored2::<K>(s, ().enc::<K>(), 0), Some(v) => v.stored::<K>(s) && stored2::<K>(s, v.enc::<K>(), 1) }
	}
	open spec fn fits(&self) -> bool { match self { None => true, Some(v) => v.fits() } }
	open spec fn addr(&self) -> bool { match self { None => true, Some(v) => v.addr() } }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		match self {
			None => { lemma_stored2_more::<K>(s, t, ().enc::<K>(), 0); }
			Some(v) => { v.stored_more::<K>(s, t); lemma_stored2_more::<K>(s, t, v.enc::<K>(), 1); }
		}
	}
//@ impl FromTree for Box<T>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool { T::decodes::<K>(s, root, *x) }
	open spec fn limits() -> bool { T::limits() }
//@ impl IntoTree for Box<T>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { (**self).enc::<K>() }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool { (**self).stored::<K>(s) }
	open spec fn fits(&self) -> bool { (**self).fits() }
	open spec fn addr(&self) -> bool { (**self).addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) { (**self).stored_more::<K>(s, t); }
//@ impl FromTree for Ignored
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool { true }
	open spec fn limits() -> bool { true }
