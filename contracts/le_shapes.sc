//@ full-names
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
/// The crate the generated code names.
pub mod bm_le {
	pub use crate::{le_lib::*, le_basic::*, le_elemental_fixed::*, le_fixed::*, le_elemental_variable::*, le_variable::*};
	pub mod utils {
		pub use crate::utils::vector_tree;
		pub use crate::le_utils::{mix_in_type, decode_with_type};
	}
}
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest, vecarray};
use crate::le_model::*;
use crate::le_vecs::*;
use crate::le_lib::vb;
use crate::traits::EmptyConstruct;
use crate::util_model::{grown, built, lemma_grown_refl, lemma_grown_trans};
use crate::vec_model::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view, axiom_slice_of};
//@ item use bm_le::{IntoTree, FromTree};
//@ replace
use bm_le::{IntoTree, FromTree, CompatibleConstruct, Compact, CompactRef, Value};
//@ impl IntoTree for Empty
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(Seq::<Value>::empty(), None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& true
		&&& storedv::<K>(s, Seq::<Value>::empty(), None)
	}
	open spec fn fits(&self) -> bool { true }
	open spec fn addr(&self) -> bool { true }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		
		lemma_storedv_more::<K>(s, t, Seq::<Value>::empty(), None);
	}
//@ fn IntoTree for Empty::into_tree
//@ start
	let ghost d0 = db.dbv();
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ tail-let r_
	proof {
		assert(vector@ =~= Seq::<Value>::empty());
		assert(within(0, None) && vdep(0, None) == depth_of(0));
		if r_ is Ok { lemma_grown_trans(d0, d0, db.dbv()); }
		if r_ is Ok && d0.retains {
		}
	}
//@ impl FromTree for Empty
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		root == dflt::<Value>()
	}
	open spec fn limits() -> bool { true }
//@ fn FromTree for Empty::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for One<A>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.a.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.a.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.a.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.a.fits() }
	open spec fn addr(&self) -> bool { self.a.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.a.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.a.enc::<K>()], None);
	}
//@ fn IntoTree for One<A>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.a.enc::<DB::Construct>()]);
		assert(within(1, None) && vdep(1, None) == depth_of(1));
		if r_ is Ok { lemma_grown_trans(d0, d1, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.a.stored_more::<DB::Construct>(d1.store, db.dbv().store);
		}
	}
//@ impl FromTree for One<A>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 1, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, x.a))
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() }
//@ fn FromTree for One<A>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for Pair<A,B>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>()], None);
	}
//@ fn IntoTree for Pair<A,B>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { self.0.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>()]);
		assert(within(2, None) && vdep(2, None) == depth_of(2));
		if r_ is Ok { lemma_grown_trans(d0, d2, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d2.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d2.store, db.dbv().store);
		}
	}
//@ impl FromTree for Pair<A,B>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 2, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 2, None, 1) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, x.1))
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() && <B as FromTree>::limits() }
//@ fn FromTree for Pair<A,B>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for Three<A,B,C>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.a.enc::<K>(), self.b.enc::<K>(), self.c.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.a.stored::<K>(s) && self.b.stored::<K>(s) && self.c.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.a.enc::<K>(), self.b.enc::<K>(), self.c.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.a.fits() && self.b.fits() && self.c.fits() }
	open spec fn addr(&self) -> bool { self.a.addr() && self.b.addr() && self.c.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.a.stored_more::<K>(s, t); self.b.stored_more::<K>(s, t); self.c.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.a.enc::<K>(), self.b.enc::<K>(), self.c.enc::<K>()], None);
	}
//@ fn IntoTree for Three<A,B,C>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { self.a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { self.a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { self.b.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.a.enc::<DB::Construct>(), self.b.enc::<DB::Construct>(), self.c.enc::<DB::Construct>()]);
		assert(within(3, None) && vdep(3, None) == depth_of(3));
		if r_ is Ok { lemma_grown_trans(d0, d3, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.a.stored_more::<DB::Construct>(d3.store, db.dbv().store);
			self.b.stored_more::<DB::Construct>(d3.store, db.dbv().store);
			self.c.stored_more::<DB::Construct>(d3.store, db.dbv().store);
		}
	}
//@ impl FromTree for Three<A,B,C>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 3, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, x.a))
		&&& (elem(s, root, 3, None, 1) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, x.b))
		&&& (elem(s, root, 3, None, 2) matches Some(v) && <C as FromTree>::decodes::<K>(s, v, x.c))
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() && <B as FromTree>::limits() && <C as FromTree>::limits() }
//@ fn FromTree for Three<A,B,C>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for Four<A,B,C,D>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.w.enc::<K>(), self.x.enc::<K>(), self.y.enc::<K>(), self.z.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.w.stored::<K>(s) && self.x.stored::<K>(s) && self.y.stored::<K>(s) && self.z.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.w.enc::<K>(), self.x.enc::<K>(), self.y.enc::<K>(), self.z.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.w.fits() && self.x.fits() && self.y.fits() && self.z.fits() }
	open spec fn addr(&self) -> bool { self.w.addr() && self.x.addr() && self.y.addr() && self.z.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.w.stored_more::<K>(s, t); self.x.stored_more::<K>(s, t); self.y.stored_more::<K>(s, t); self.z.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.w.enc::<K>(), self.x.enc::<K>(), self.y.enc::<K>(), self.z.enc::<K>()], None);
	}
//@ fn IntoTree for Four<A,B,C,D>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { self.w.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { self.w.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { self.x.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { self.w.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { self.x.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { self.y.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.w.enc::<DB::Construct>(), self.x.enc::<DB::Construct>(), self.y.enc::<DB::Construct>(), self.z.enc::<DB::Construct>()]);
		assert(within(4, None) && vdep(4, None) == depth_of(4));
		if r_ is Ok { lemma_grown_trans(d0, d4, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.w.stored_more::<DB::Construct>(d4.store, db.dbv().store);
			self.x.stored_more::<DB::Construct>(d4.store, db.dbv().store);
			self.y.stored_more::<DB::Construct>(d4.store, db.dbv().store);
			self.z.stored_more::<DB::Construct>(d4.store, db.dbv().store);
		}
	}
//@ impl FromTree for Four<A,B,C,D>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 4, None, 0) matches Some(v) && <D as FromTree>::decodes::<K>(s, v, x.w))
		&&& (elem(s, root, 4, None, 1) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, x.x))
		&&& (elem(s, root, 4, None, 2) matches Some(v) && <C as FromTree>::decodes::<K>(s, v, x.y))
		&&& (elem(s, root, 4, None, 3) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, x.z))
	}
	open spec fn limits() -> bool { <D as FromTree>::limits() && <A as FromTree>::limits() && <C as FromTree>::limits() && <B as FromTree>::limits() }
//@ fn FromTree for Four<A,B,C,D>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for Nine<A,B,C,D,E,F,G,H,I>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.a_.enc::<K>(), self.b_.enc::<K>(), self.c_.enc::<K>(), self.d_.enc::<K>(), self.e_.enc::<K>(), self.f_.enc::<K>(), self.g_.enc::<K>(), self.h_.enc::<K>(), self.i_.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.a_.stored::<K>(s) && self.b_.stored::<K>(s) && self.c_.stored::<K>(s) && self.d_.stored::<K>(s) && self.e_.stored::<K>(s) && self.f_.stored::<K>(s) && self.g_.stored::<K>(s) && self.h_.stored::<K>(s) && self.i_.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.a_.enc::<K>(), self.b_.enc::<K>(), self.c_.enc::<K>(), self.d_.enc::<K>(), self.e_.enc::<K>(), self.f_.enc::<K>(), self.g_.enc::<K>(), self.h_.enc::<K>(), self.i_.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.a_.fits() && self.b_.fits() && self.c_.fits() && self.d_.fits() && self.e_.fits() && self.f_.fits() && self.g_.fits() && self.h_.fits() && self.i_.fits() }
	open spec fn addr(&self) -> bool { self.a_.addr() && self.b_.addr() && self.c_.addr() && self.d_.addr() && self.e_.addr() && self.f_.addr() && self.g_.addr() && self.h_.addr() && self.i_.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.a_.stored_more::<K>(s, t); self.b_.stored_more::<K>(s, t); self.c_.stored_more::<K>(s, t); self.d_.stored_more::<K>(s, t); self.e_.stored_more::<K>(s, t); self.f_.stored_more::<K>(s, t); self.g_.stored_more::<K>(s, t); self.h_.stored_more::<K>(s, t); self.i_.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.a_.enc::<K>(), self.b_.enc::<K>(), self.c_.enc::<K>(), self.d_.enc::<K>(), self.e_.enc::<K>(), self.f_.enc::<K>(), self.g_.enc::<K>(), self.h_.enc::<K>(), self.i_.enc::<K>()], None);
	}
//@ fn IntoTree for Nine<A,B,C,D,E,F,G,H,I>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	let ghost mut d5 = d0;
	let ghost mut d6 = d0;
	let ghost mut d7 = d0;
	let ghost mut d8 = d0;
	let ghost mut d9 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { self.a_.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { self.a_.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { self.b_.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { self.a_.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { self.b_.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { self.c_.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ after-stmt #4 vector.push
	proof {
		d5 = db.dbv();
		lemma_grown_trans(d0, d4, d5);
		if d0.retains { self.a_.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { self.b_.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { self.c_.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { self.d_.stored_more::<DB::Construct>(d4.store, d5.store); }
	}
//@ after-stmt #5 vector.push
	proof {
		d6 = db.dbv();
		lemma_grown_trans(d0, d5, d6);
		if d0.retains { self.a_.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { self.b_.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { self.c_.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { self.d_.stored_more::<DB::Construct>(d5.store, d6.store); }
		if d0.retains { self.e_.stored_more::<DB::Construct>(d5.store, d6.store); }
	}
//@ after-stmt #6 vector.push
	proof {
		d7 = db.dbv();
		lemma_grown_trans(d0, d6, d7);
		if d0.retains { self.a_.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { self.b_.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { self.c_.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { self.d_.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { self.e_.stored_more::<DB::Construct>(d6.store, d7.store); }
		if d0.retains { self.f_.stored_more::<DB::Construct>(d6.store, d7.store); }
	}
//@ after-stmt #7 vector.push
	proof {
		d8 = db.dbv();
		lemma_grown_trans(d0, d7, d8);
		if d0.retains { self.a_.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { self.b_.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { self.c_.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { self.d_.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { self.e_.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { self.f_.stored_more::<DB::Construct>(d7.store, d8.store); }
		if d0.retains { self.g_.stored_more::<DB::Construct>(d7.store, d8.store); }
	}
//@ after-stmt #8 vector.push
	proof {
		d9 = db.dbv();
		lemma_grown_trans(d0, d8, d9);
		if d0.retains { self.a_.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { self.b_.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { self.c_.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { self.d_.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { self.e_.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { self.f_.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { self.g_.stored_more::<DB::Construct>(d8.store, d9.store); }
		if d0.retains { self.h_.stored_more::<DB::Construct>(d8.store, d9.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.a_.enc::<DB::Construct>(), self.b_.enc::<DB::Construct>(), self.c_.enc::<DB::Construct>(), self.d_.enc::<DB::Construct>(), self.e_.enc::<DB::Construct>(), self.f_.enc::<DB::Construct>(), self.g_.enc::<DB::Construct>(), self.h_.enc::<DB::Construct>(), self.i_.enc::<DB::Construct>()]);
		assert(within(9, None) && vdep(9, None) == depth_of(9));
		if r_ is Ok { lemma_grown_trans(d0, d9, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.a_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.b_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.c_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.d_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.e_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.f_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.g_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.h_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
			self.i_.stored_more::<DB::Construct>(d9.store, db.dbv().store);
		}
	}
//@ impl FromTree for Nine<A,B,C,D,E,F,G,H,I>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 9, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, x.a_))
		&&& (elem(s, root, 9, None, 1) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, x.b_))
		&&& (elem(s, root, 9, None, 2) matches Some(v) && <C as FromTree>::decodes::<K>(s, v, x.c_))
		&&& (elem(s, root, 9, None, 3) matches Some(v) && <D as FromTree>::decodes::<K>(s, v, x.d_))
		&&& (elem(s, root, 9, None, 4) matches Some(v) && <E as FromTree>::decodes::<K>(s, v, x.e_))
		&&& (elem(s, root, 9, None, 5) matches Some(v) && <F as FromTree>::decodes::<K>(s, v, x.f_))
		&&& (elem(s, root, 9, None, 6) matches Some(v) && <G as FromTree>::decodes::<K>(s, v, x.g_))
		&&& (elem(s, root, 9, None, 7) matches Some(v) && <H as FromTree>::decodes::<K>(s, v, x.h_))
		&&& (elem(s, root, 9, None, 8) matches Some(v) && <I as FromTree>::decodes::<K>(s, v, x.i_))
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() && <B as FromTree>::limits() && <C as FromTree>::limits() && <D as FromTree>::limits() && <E as FromTree>::limits() && <F as FromTree>::limits() && <G as FromTree>::limits() && <H as FromTree>::limits() && <I as FromTree>::limits() }
//@ fn FromTree for Nine<A,B,C,D,E,F,G,H,I>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for Five<A,B,C,D,E>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.0.stored::<K>(s) && self.1.stored::<K>(s) && self.2.stored::<K>(s) && self.3.stored::<K>(s) && self.4.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.0.fits() && self.1.fits() && self.2.fits() && self.3.fits() && self.4.fits() }
	open spec fn addr(&self) -> bool { self.0.addr() && self.1.addr() && self.2.addr() && self.3.addr() && self.4.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.0.stored_more::<K>(s, t); self.1.stored_more::<K>(s, t); self.2.stored_more::<K>(s, t); self.3.stored_more::<K>(s, t); self.4.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>()], None);
	}
//@ fn IntoTree for Five<A,B,C,D,E>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	let ghost mut d4 = d0;
	let ghost mut d5 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { self.0.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { self.0.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { self.1.stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ after-stmt #3 vector.push
	proof {
		d4 = db.dbv();
		lemma_grown_trans(d0, d3, d4);
		if d0.retains { self.0.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { self.1.stored_more::<DB::Construct>(d3.store, d4.store); }
		if d0.retains { self.2.stored_more::<DB::Construct>(d3.store, d4.store); }
	}
//@ after-stmt #4 vector.push
	proof {
		d5 = db.dbv();
		lemma_grown_trans(d0, d4, d5);
		if d0.retains { self.0.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { self.1.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { self.2.stored_more::<DB::Construct>(d4.store, d5.store); }
		if d0.retains { self.3.stored_more::<DB::Construct>(d4.store, d5.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.0.enc::<DB::Construct>(), self.1.enc::<DB::Construct>(), self.2.enc::<DB::Construct>(), self.3.enc::<DB::Construct>(), self.4.enc::<DB::Construct>()]);
		assert(within(5, None) && vdep(5, None) == depth_of(5));
		if r_ is Ok { lemma_grown_trans(d0, d5, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.0.stored_more::<DB::Construct>(d5.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d5.store, db.dbv().store);
			self.2.stored_more::<DB::Construct>(d5.store, db.dbv().store);
			self.3.stored_more::<DB::Construct>(d5.store, db.dbv().store);
			self.4.stored_more::<DB::Construct>(d5.store, db.dbv().store);
		}
	}
//@ impl FromTree for Five<A,B,C,D,E>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 5, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, x.0))
		&&& (elem(s, root, 5, None, 1) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, x.1))
		&&& (elem(s, root, 5, None, 2) matches Some(v) && <C as FromTree>::decodes::<K>(s, v, x.2))
		&&& (elem(s, root, 5, None, 3) matches Some(v) && <D as FromTree>::decodes::<K>(s, v, x.3))
		&&& (elem(s, root, 5, None, 4) matches Some(v) && <E as FromTree>::decodes::<K>(s, v, x.4))
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() && <B as FromTree>::limits() && <C as FromTree>::limits() && <D as FromTree>::limits() && <E as FromTree>::limits() }
//@ fn FromTree for Five<A,B,C,D,E>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for Packed<A,B,C>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& self.a.stored::<K>(s) && CompactRef(&self.b).stored::<K>(s) && self.c.stored::<K>(s)
		&&& storedv::<K>(s, seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { self.a.fits() && CompactRef(&self.b).fits() && self.c.fits() }
	open spec fn addr(&self) -> bool { self.a.addr() && CompactRef(&self.b).addr() && self.c.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		self.a.stored_more::<K>(s, t); CompactRef(&self.b).stored_more::<K>(s, t); self.c.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()], None);
	}
//@ fn IntoTree for Packed<A,B,C>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { self.a.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { self.a.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { CompactRef(&self.b).stored_more::<DB::Construct>(d2.store, d3.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![self.a.enc::<DB::Construct>(), CompactRef(&self.b).enc::<DB::Construct>(), self.c.enc::<DB::Construct>()]);
		assert(within(3, None) && vdep(3, None) == depth_of(3));
		if r_ is Ok { lemma_grown_trans(d0, d3, db.dbv()); }
		if r_ is Ok && d0.retains {
			self.a.stored_more::<DB::Construct>(d3.store, db.dbv().store);
			CompactRef(&self.b).stored_more::<DB::Construct>(d3.store, db.dbv().store);
			self.c.stored_more::<DB::Construct>(d3.store, db.dbv().store);
		}
	}
//@ impl FromTree for Packed<A,B,C>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 3, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, x.a))
		&&& (elem(s, root, 3, None, 1) matches Some(v) && <Compact<B> as FromTree>::decodes::<K>(s, v, Compact(x.b)))
		&&& (elem(s, root, 3, None, 2) matches Some(v) && <C as FromTree>::decodes::<K>(s, v, x.c))
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() && <Compact<B> as FromTree>::limits() && <C as FromTree>::limits() }
//@ fn FromTree for Packed<A,B,C>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for Bits<A,B>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value { encv::<K>(seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()], None) }
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		&&& CompactRef(&self.0).stored::<K>(s) && self.1.stored::<K>(s)
		&&& storedv::<K>(s, seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()], None)
	}
	open spec fn fits(&self) -> bool { CompactRef(&self.0).fits() && self.1.fits() }
	open spec fn addr(&self) -> bool { CompactRef(&self.0).addr() && self.1.addr() }
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		CompactRef(&self.0).stored_more::<K>(s, t); self.1.stored_more::<K>(s, t);
		lemma_storedv_more::<K>(s, t, seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()], None);
	}
//@ fn IntoTree for Bits<A,B>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { CompactRef(&self.0).stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ tail-let r_
	proof {
		assert(vector@ =~= seq![CompactRef(&self.0).enc::<DB::Construct>(), self.1.enc::<DB::Construct>()]);
		assert(within(2, None) && vdep(2, None) == depth_of(2));
		if r_ is Ok { lemma_grown_trans(d0, d2, db.dbv()); }
		if r_ is Ok && d0.retains {
			CompactRef(&self.0).stored_more::<DB::Construct>(d2.store, db.dbv().store);
			self.1.stored_more::<DB::Construct>(d2.store, db.dbv().store);
		}
	}
//@ impl FromTree for Bits<A,B>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		&&& (elem(s, root, 2, None, 0) matches Some(v) && <Compact<A> as FromTree>::decodes::<K>(s, v, Compact(x.0)))
		&&& (elem(s, root, 2, None, 1) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, x.1))
	}
	open spec fn limits() -> bool { <Compact<A> as FromTree>::limits() && <B as FromTree>::limits() }
//@ fn FromTree for Bits<A,B>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ impl IntoTree for Choice<A>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value {
		match self {
			Choice::Just(v0) => enc2::<K>(encv::<K>(seq![v0.enc::<K>()], None), 0),
		}
	}
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		match self {
			Choice::Just(v0) => v0.stored::<K>(s) && storedv::<K>(s, seq![v0.enc::<K>()], None) && stored2::<K>(s, encv::<K>(seq![v0.enc::<K>()], None), 0),
		}
	}
	open spec fn fits(&self) -> bool {
		match self {
			Choice::Just(v0) => v0.fits(),
		}
	}
	open spec fn addr(&self) -> bool {
		match self {
			Choice::Just(v0) => v0.addr(),
		}
	}
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		match self {
			Choice::Just(v0) => { v0.stored_more::<K>(s, t); lemma_storedv_more::<K>(s, t, seq![v0.enc::<K>()], None); lemma_stored2_more::<K>(s, t, encv::<K>(seq![v0.enc::<K>()], None), 0); },
		}
	}
//@ fn IntoTree for Choice<A>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut dv = d0;
	let ghost mut d1 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
		assert(vector@ =~= seq![variant.0.enc::<DB::Construct>()]);
		assert(within(1, None) && vdep(1, None) == depth_of(1));
	}
//@ after-stmt #0 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d1, dv);
		if d0.retains { variant.0.stored_more::<DB::Construct>(d1.store, dv.store); }
	}
//@ tail-let r_
	proof {
		if r_ is Ok {
			lemma_grown_trans(d0, dv, db.dbv());
			if d0.retains {
				match self {
			Choice::Just(v0) => { v0.stored_more::<DB::Construct>(dv.store, db.dbv().store); lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, seq![v0.enc::<DB::Construct>()], None); },
				}
			}
		}
	}
//@ impl FromTree for Choice<A>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		let (l, r) = (elem(s, root, 2, None, 0), elem(s, root, 2, None, 1));
		l is Some && r is Some && choice_is::<A, K>(s, l->0, le_nat(vb(r->0)), x)
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() }
//@ fn FromTree for Choice<A>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); }
//@ closure 0 ~match
param 0 &Value
param 1 &mut DB
param 2 usize
-> (r: Result<Choice<A>, bm_le::Error<DB::Error>>)
	requires old(db).wf(), Self::limits(),
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> choice_is::<A, DB::Construct>(old(db).dbv().store, *vector_root, ty as nat, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && choice_isnt::<A, DB::Construct>(old(db).dbv().store, *vector_root, ty as nat),
//@ tail-let r_
	proof {
		if r_ is Err && r_->Err_0 is CorruptedDatabase {
			let (a, b) = (elem(db.dbv().store, *root, 2, None, 0), elem(db.dbv().store, *root, 2, None, 1));
			if a is Some && b is Some {
				let t = le_nat(vb(b->0));
				if t <= usize::MAX { assert((t as usize) as nat == t); }
				assert(choice_isnt::<A, DB::Construct>(db.dbv().store, a->0, t));
			}
		}
	}
//@ impl IntoTree for Mixed<A,B,C>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value {
		match self {
			Mixed::Nothing => enc2::<K>(encv::<K>(Seq::<Value>::empty(), None), 0),
			Mixed::Named { a, b } => enc2::<K>(encv::<K>(seq![a.enc::<K>(), b.enc::<K>()], None), 1),
			Mixed::Tuple(v0, v1, v2) => enc2::<K>(encv::<K>(seq![v0.enc::<K>(), v1.enc::<K>(), v2.enc::<K>()], None), 2),
			Mixed::Single(v0) => enc2::<K>(encv::<K>(seq![v0.enc::<K>()], None), 3),
			Mixed::Last => enc2::<K>(encv::<K>(Seq::<Value>::empty(), None), 4),
			Mixed::Braced {  } => enc2::<K>(encv::<K>(Seq::<Value>::empty(), None), 5),
			Mixed::Round() => enc2::<K>(encv::<K>(Seq::<Value>::empty(), None), 6),
		}
	}
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		match self {
			Mixed::Nothing => true && storedv::<K>(s, Seq::<Value>::empty(), None) && stored2::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 0),
			Mixed::Named { a, b } => a.stored::<K>(s) && b.stored::<K>(s) && storedv::<K>(s, seq![a.enc::<K>(), b.enc::<K>()], None) && stored2::<K>(s, encv::<K>(seq![a.enc::<K>(), b.enc::<K>()], None), 1),
			Mixed::Tuple(v0, v1, v2) => v0.stored::<K>(s) && v1.stored::<K>(s) && v2.stored::<K>(s) && storedv::<K>(s, seq![v0.enc::<K>(), v1.enc::<K>(), v2.enc::<K>()], None) && stored2::<K>(s, encv::<K>(seq![v0.enc::<K>(), v1.enc::<K>(), v2.enc::<K>()], None), 2),
			Mixed::Single(v0) => v0.stored::<K>(s) && storedv::<K>(s, seq![v0.enc::<K>()], None) && stored2::<K>(s, encv::<K>(seq![v0.enc::<K>()], None), 3),
			Mixed::Last => true && storedv::<K>(s, Seq::<Value>::empty(), None) && stored2::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 4),
			Mixed::Braced {  } => true && storedv::<K>(s, Seq::<Value>::empty(), None) && stored2::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 5),
			Mixed::Round() => true && storedv::<K>(s, Seq::<Value>::empty(), None) && stored2::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 6),
		}
	}
	open spec fn fits(&self) -> bool {
		match self {
			Mixed::Nothing => true,
			Mixed::Named { a, b } => a.fits() && b.fits(),
			Mixed::Tuple(v0, v1, v2) => v0.fits() && v1.fits() && v2.fits(),
			Mixed::Single(v0) => v0.fits(),
			Mixed::Last => true,
			Mixed::Braced {  } => true,
			Mixed::Round() => true,
		}
	}
	open spec fn addr(&self) -> bool {
		match self {
			Mixed::Nothing => true,
			Mixed::Named { a, b } => a.addr() && b.addr(),
			Mixed::Tuple(v0, v1, v2) => v0.addr() && v1.addr() && v2.addr(),
			Mixed::Single(v0) => v0.addr(),
			Mixed::Last => true,
			Mixed::Braced {  } => true,
			Mixed::Round() => true,
		}
	}
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		match self {
			Mixed::Nothing => {  lemma_storedv_more::<K>(s, t, Seq::<Value>::empty(), None); lemma_stored2_more::<K>(s, t, encv::<K>(Seq::<Value>::empty(), None), 0); },
			Mixed::Named { a, b } => { a.stored_more::<K>(s, t); b.stored_more::<K>(s, t); lemma_storedv_more::<K>(s, t, seq![a.enc::<K>(), b.enc::<K>()], None); lemma_stored2_more::<K>(s, t, encv::<K>(seq![a.enc::<K>(), b.enc::<K>()], None), 1); },
			Mixed::Tuple(v0, v1, v2) => { v0.stored_more::<K>(s, t); v1.stored_more::<K>(s, t); v2.stored_more::<K>(s, t); lemma_storedv_more::<K>(s, t, seq![v0.enc::<K>(), v1.enc::<K>(), v2.enc::<K>()], None); lemma_stored2_more::<K>(s, t, encv::<K>(seq![v0.enc::<K>(), v1.enc::<K>(), v2.enc::<K>()], None), 2); },
			Mixed::Single(v0) => { v0.stored_more::<K>(s, t); lemma_storedv_more::<K>(s, t, seq![v0.enc::<K>()], None); lemma_stored2_more::<K>(s, t, encv::<K>(seq![v0.enc::<K>()], None), 3); },
			Mixed::Last => {  lemma_storedv_more::<K>(s, t, Seq::<Value>::empty(), None); lemma_stored2_more::<K>(s, t, encv::<K>(Seq::<Value>::empty(), None), 4); },
			Mixed::Braced {  } => {  lemma_storedv_more::<K>(s, t, Seq::<Value>::empty(), None); lemma_stored2_more::<K>(s, t, encv::<K>(Seq::<Value>::empty(), None), 5); },
			Mixed::Round() => {  lemma_storedv_more::<K>(s, t, Seq::<Value>::empty(), None); lemma_stored2_more::<K>(s, t, encv::<K>(Seq::<Value>::empty(), None), 6); },
		}
	}
//@ fn IntoTree for Mixed<A,B,C>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut dv = d0;
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	let ghost mut d3 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); lemma_grown_refl(d0); }
//@ after-stmt #0 let mut vector
	proof { assert(vector@ =~= Seq::<Value>::empty()); assert(within(0, None) && vdep(0, None) == depth_of(0)); }
//@ after-stmt #0 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d0, dv);
		if d0.retains {  }
	}
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #1 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, d2.store); }
		assert(vector@ =~= seq![a.enc::<DB::Construct>(), b.enc::<DB::Construct>()]);
		assert(within(2, None) && vdep(2, None) == depth_of(2));
	}
//@ after-stmt #1 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d2, dv);
		if d0.retains { a.stored_more::<DB::Construct>(d2.store, dv.store); b.stored_more::<DB::Construct>(d2.store, dv.store); }
	}
//@ after-stmt #2 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #3 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { variant.0.stored_more::<DB::Construct>(d1.store, d2.store); }
	}
//@ after-stmt #4 vector.push
	proof {
		d3 = db.dbv();
		lemma_grown_trans(d0, d2, d3);
		if d0.retains { variant.0.stored_more::<DB::Construct>(d2.store, d3.store); }
		if d0.retains { variant.1.stored_more::<DB::Construct>(d2.store, d3.store); }
		assert(vector@ =~= seq![variant.0.enc::<DB::Construct>(), variant.1.enc::<DB::Construct>(), variant.2.enc::<DB::Construct>()]);
		assert(within(3, None) && vdep(3, None) == depth_of(3));
	}
//@ after-stmt #2 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d3, dv);
		if d0.retains { variant.0.stored_more::<DB::Construct>(d3.store, dv.store); variant.1.stored_more::<DB::Construct>(d3.store, dv.store); variant.2.stored_more::<DB::Construct>(d3.store, dv.store); }
	}
//@ after-stmt #5 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
		assert(vector@ =~= seq![variant.0.enc::<DB::Construct>()]);
		assert(within(1, None) && vdep(1, None) == depth_of(1));
	}
//@ after-stmt #3 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d1, dv);
		if d0.retains { variant.0.stored_more::<DB::Construct>(d1.store, dv.store); }
	}
//@ after-stmt #4 let mut vector
	proof { assert(vector@ =~= Seq::<Value>::empty()); assert(within(0, None) && vdep(0, None) == depth_of(0)); }
//@ after-stmt #4 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d0, dv);
		if d0.retains {  }
	}
//@ after-stmt #5 let mut vector
	proof { assert(vector@ =~= Seq::<Value>::empty()); assert(within(0, None) && vdep(0, None) == depth_of(0)); }
//@ after-stmt #5 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d0, dv);
		if d0.retains {  }
	}
//@ after-stmt #6 let mut vector
	proof { assert(vector@ =~= Seq::<Value>::empty()); assert(within(0, None) && vdep(0, None) == depth_of(0)); }
//@ after-stmt #6 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d0, dv);
		if d0.retains {  }
	}
//@ tail-let r_
	proof {
		if r_ is Ok {
			lemma_grown_trans(d0, dv, db.dbv());
			if d0.retains {
				match self {
			Mixed::Nothing => {  lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, Seq::<Value>::empty(), None); },
			Mixed::Named { a, b } => { a.stored_more::<DB::Construct>(dv.store, db.dbv().store); b.stored_more::<DB::Construct>(dv.store, db.dbv().store); lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, seq![a.enc::<DB::Construct>(), b.enc::<DB::Construct>()], None); },
			Mixed::Tuple(v0, v1, v2) => { v0.stored_more::<DB::Construct>(dv.store, db.dbv().store); v1.stored_more::<DB::Construct>(dv.store, db.dbv().store); v2.stored_more::<DB::Construct>(dv.store, db.dbv().store); lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, seq![v0.enc::<DB::Construct>(), v1.enc::<DB::Construct>(), v2.enc::<DB::Construct>()], None); },
			Mixed::Single(v0) => { v0.stored_more::<DB::Construct>(dv.store, db.dbv().store); lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, seq![v0.enc::<DB::Construct>()], None); },
			Mixed::Last => {  lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, Seq::<Value>::empty(), None); },
			Mixed::Braced {  } => {  lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, Seq::<Value>::empty(), None); },
			Mixed::Round() => {  lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, Seq::<Value>::empty(), None); },
				}
			}
		}
	}
//@ impl FromTree for Mixed<A,B,C>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		let (l, r) = (elem(s, root, 2, None, 0), elem(s, root, 2, None, 1));
		l is Some && r is Some && mixed_is::<A, B, C, K>(s, l->0, le_nat(vb(r->0)), x)
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() && <B as FromTree>::limits() && <C as FromTree>::limits() }
//@ fn FromTree for Mixed<A,B,C>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); }
//@ closure 0 ~match
param 0 &Value
param 1 &mut DB
param 2 usize
-> (r: Result<Mixed<A,B,C>, bm_le::Error<DB::Error>>)
	requires old(db).wf(), Self::limits(),
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> mixed_is::<A, B, C, DB::Construct>(old(db).dbv().store, *vector_root, ty as nat, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && mixed_isnt::<A, B, C, DB::Construct>(old(db).dbv().store, *vector_root, ty as nat),
//@ tail-let r_
	proof {
		if r_ is Err && r_->Err_0 is CorruptedDatabase {
			let (a, b) = (elem(db.dbv().store, *root, 2, None, 0), elem(db.dbv().store, *root, 2, None, 1));
			if a is Some && b is Some {
				let t = le_nat(vb(b->0));
				if t <= usize::MAX { assert((t as usize) as nat == t); }
				assert(mixed_isnt::<A, B, C, DB::Construct>(db.dbv().store, a->0, t));
			}
		}
	}
//@ impl IntoTree for Dense<A,B>
//@ ghost
	open spec fn enc<K: CompatibleConstruct>(&self) -> Value {
		match self {
			Dense::Plain { a } => enc2::<K>(encv::<K>(seq![a.enc::<K>()], None), 0),
			Dense::Compact { b, a } => enc2::<K>(encv::<K>(seq![b.enc::<K>(), CompactRef(a).enc::<K>()], None), 1),
		}
	}
	open spec fn stored<K: CompatibleConstruct>(&self, s: Store) -> bool {
		match self {
			Dense::Plain { a } => a.stored::<K>(s) && storedv::<K>(s, seq![a.enc::<K>()], None) && stored2::<K>(s, encv::<K>(seq![a.enc::<K>()], None), 0),
			Dense::Compact { b, a } => b.stored::<K>(s) && CompactRef(a).stored::<K>(s) && storedv::<K>(s, seq![b.enc::<K>(), CompactRef(a).enc::<K>()], None) && stored2::<K>(s, encv::<K>(seq![b.enc::<K>(), CompactRef(a).enc::<K>()], None), 1),
		}
	}
	open spec fn fits(&self) -> bool {
		match self {
			Dense::Plain { a } => a.fits(),
			Dense::Compact { b, a } => b.fits() && CompactRef(a).fits(),
		}
	}
	open spec fn addr(&self) -> bool {
		match self {
			Dense::Plain { a } => a.addr(),
			Dense::Compact { b, a } => b.addr() && CompactRef(a).addr(),
		}
	}
	proof fn stored_more<K: CompatibleConstruct>(&self, s: Store, t: Store) {
		match self {
			Dense::Plain { a } => { a.stored_more::<K>(s, t); lemma_storedv_more::<K>(s, t, seq![a.enc::<K>()], None); lemma_stored2_more::<K>(s, t, encv::<K>(seq![a.enc::<K>()], None), 0); },
			Dense::Compact { b, a } => { b.stored_more::<K>(s, t); CompactRef(a).stored_more::<K>(s, t); lemma_storedv_more::<K>(s, t, seq![b.enc::<K>(), CompactRef(a).enc::<K>()], None); lemma_stored2_more::<K>(s, t, encv::<K>(seq![b.enc::<K>(), CompactRef(a).enc::<K>()], None), 1); },
		}
	}
//@ fn IntoTree for Dense<A,B>::into_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut dv = d0;
	let ghost mut d1 = d0;
	let ghost mut d2 = d0;
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); lemma_grown_refl(d0); }
//@ after-stmt #0 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
		assert(vector@ =~= seq![a.enc::<DB::Construct>()]);
		assert(within(1, None) && vdep(1, None) == depth_of(1));
	}
//@ after-stmt #0 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d1, dv);
		if d0.retains { a.stored_more::<DB::Construct>(d1.store, dv.store); }
	}
//@ after-stmt #1 vector.push
	proof {
		d1 = db.dbv();
		lemma_grown_trans(d0, d0, d1);
	}
//@ after-stmt #2 vector.push
	proof {
		d2 = db.dbv();
		lemma_grown_trans(d0, d1, d2);
		if d0.retains { b.stored_more::<DB::Construct>(d1.store, d2.store); }
		assert(vector@ =~= seq![b.enc::<DB::Construct>(), CompactRef(a).enc::<DB::Construct>()]);
		assert(within(2, None) && vdep(2, None) == depth_of(2));
	}
//@ after-stmt #1 let vector_root
	proof {
		dv = db.dbv();
		lemma_grown_trans(d0, d2, dv);
		if d0.retains { b.stored_more::<DB::Construct>(d2.store, dv.store); CompactRef(a).stored_more::<DB::Construct>(d2.store, dv.store); }
	}
//@ tail-let r_
	proof {
		if r_ is Ok {
			lemma_grown_trans(d0, dv, db.dbv());
			if d0.retains {
				match self {
			Dense::Plain { a } => { a.stored_more::<DB::Construct>(dv.store, db.dbv().store); lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, seq![a.enc::<DB::Construct>()], None); },
			Dense::Compact { b, a } => { b.stored_more::<DB::Construct>(dv.store, db.dbv().store); CompactRef(a).stored_more::<DB::Construct>(dv.store, db.dbv().store); lemma_storedv_more::<DB::Construct>(dv.store, db.dbv().store, seq![b.enc::<DB::Construct>(), CompactRef(a).enc::<DB::Construct>()], None); },
				}
			}
		}
	}
//@ impl FromTree for Dense<A,B>
//@ ghost
	open spec fn decodes<K: CompatibleConstruct>(s: Store, root: Value, x: Self) -> bool {
		let (l, r) = (elem(s, root, 2, None, 0), elem(s, root, 2, None, 1));
		l is Some && r is Some && dense_is::<A, B, K>(s, l->0, le_nat(vb(r->0)), x)
	}
	open spec fn limits() -> bool { <A as FromTree>::limits() && <B as FromTree>::limits() && <Compact<A> as FromTree>::limits() }
//@ fn FromTree for Dense<A,B>::from_tree
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); }
//@ closure 0 ~match
param 0 &Value
param 1 &mut DB
param 2 usize
-> (r: Result<Dense<A,B>, bm_le::Error<DB::Error>>)
	requires old(db).wf(), Self::limits(),
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> dense_is::<A, B, DB::Construct>(old(db).dbv().store, *vector_root, ty as nat, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && dense_isnt::<A, B, DB::Construct>(old(db).dbv().store, *vector_root, ty as nat),
//@ tail-let r_
	proof {
		if r_ is Err && r_->Err_0 is CorruptedDatabase {
			let (a, b) = (elem(db.dbv().store, *root, 2, None, 0), elem(db.dbv().store, *root, 2, None, 1));
			if a is Some && b is Some {
				let t = le_nat(vb(b->0));
				if t <= usize::MAX { assert((t as usize) as nat == t); }
				assert(dense_isnt::<A, B, DB::Construct>(db.dbv().store, a->0, t));
			}
		}
	}
//@ postlude
/// What the tree at `l` with the selector `ty` encodes.
pub open spec fn choice_is<A, K: CompatibleConstruct>(s: Store, l: Value, ty: nat, x: Choice<A>) -> bool where A: FromTree {
	match x {
			Choice::Just(v0) => ty == 0 && (elem(s, l, 1, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, v0)),
	}
}
/// The tree at `l` with the selector `ty` encodes nothing.
pub open spec fn choice_isnt<A, K: CompatibleConstruct>(s: Store, l: Value, ty: nat) -> bool where A: FromTree {
	forall|x: Choice<A>| !#[trigger] choice_is::<A, K>(s, l, ty, x)
}
/// What the tree at `l` with the selector `ty` encodes.
pub open spec fn mixed_is<A, B, C, K: CompatibleConstruct>(s: Store, l: Value, ty: nat, x: Mixed<A,B,C>) -> bool where A: FromTree, B: FromTree, C: FromTree {
	match x {
			Mixed::Nothing => ty == 0 && l == dflt::<Value>(),
			Mixed::Named { a, b } => ty == 1 && (elem(s, l, 2, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, a)) && (elem(s, l, 2, None, 1) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, b)),
			Mixed::Tuple(v0, v1, v2) => ty == 2 && (elem(s, l, 3, None, 0) matches Some(v) && <C as FromTree>::decodes::<K>(s, v, v0)) && (elem(s, l, 3, None, 1) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, v1)) && (elem(s, l, 3, None, 2) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, v2)),
			Mixed::Single(v0) => ty == 3 && (elem(s, l, 1, None, 0) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, v0)),
			Mixed::Last => ty == 4 && l == dflt::<Value>(),
			Mixed::Braced {  } => ty == 5 && l == dflt::<Value>(),
			Mixed::Round() => ty == 6 && l == dflt::<Value>(),
	}
}
/// The tree at `l` with the selector `ty` encodes nothing.
pub open spec fn mixed_isnt<A, B, C, K: CompatibleConstruct>(s: Store, l: Value, ty: nat) -> bool where A: FromTree, B: FromTree, C: FromTree {
	forall|x: Mixed<A,B,C>| !#[trigger] mixed_is::<A, B, C, K>(s, l, ty, x)
}
/// What the tree at `l` with the selector `ty` encodes.
pub open spec fn dense_is<A, B, K: CompatibleConstruct>(s: Store, l: Value, ty: nat, x: Dense<A,B>) -> bool where A: FromTree, B: FromTree, Compact<A>: FromTree {
	match x {
			Dense::Plain { a } => ty == 0 && (elem(s, l, 1, None, 0) matches Some(v) && <A as FromTree>::decodes::<K>(s, v, a)),
			Dense::Compact { b, a } => ty == 1 && (elem(s, l, 2, None, 0) matches Some(v) && <B as FromTree>::decodes::<K>(s, v, b)) && (elem(s, l, 2, None, 1) matches Some(v) && <Compact<A> as FromTree>::decodes::<K>(s, v, Compact(a))),
	}
}
/// The tree at `l` with the selector `ty` encodes nothing.
pub open spec fn dense_isnt<A, B, K: CompatibleConstruct>(s: Store, l: Value, ty: nat) -> bool where A: FromTree, B: FromTree, Compact<A>: FromTree {
	forall|x: Dense<A,B>| !#[trigger] dense_is::<A, B, K>(s, l, ty, x)
}
