//@ full-names
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
/// The crate the generated code names.
pub mod bm_le {
	pub use crate::{le_lib::*, le_partial::*};
}
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_model::*;
use crate::le_partial::{lemma_turn_moves, PartialItem};
use crate::le_partial_thm::*;
use crate::traits::EmptyConstruct;
use crate::vec_model::*;
use crate::index::IndexSelection;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view};
//@ item use bm_le::Partialable;
//@ replace
use bm_le::{Partialable, CompatibleConstruct, Value, IntoTree, PartialIndex, PartialValue, Place};
use crate::le_partial::{local, framed};
//@ impl PartialItem for PartialNil
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { true }
	open spec fn okp(&self) -> bool { true }
	open spec fn ready(&self) -> bool { true }
	open spec fn idle(&self) -> bool { true }
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool { d1 == d0 && r1 == r0 }
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		
	}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		lemma_moved_refl(dangling, d0, r0);
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let place = index.place(d0.store, r0);
		lemma_local_refl(place, d0, r0);
	}
//@ fn PartialItem for PartialNil::flush
//@ start
	let ghost d0 = db.dbv();
	let ghost r0 = raw.root;
//@ impl PartialItem for PartialInner
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { self.x.bound_to(field_at(index, 0, 1)) }
	open spec fn okp(&self) -> bool { self.x.okp() }
	open spec fn ready(&self) -> bool { self.x.ready() }
	open spec fn idle(&self) -> bool { self.x.idle() }
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool { self.x.flushed::<K>(dangling, d0, r0, d1, r1) }
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		self.x.idle_flush::<K>(dangling, d0, r0, d1, r1);
	}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		self.x.flush_moves::<K>(dangling, d0, r0, d1, r1);
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let place = index.place(d0.store, r0);
		lemma_local_refl(place, d0, r0);
		lemma_field_local::<_, K>(self.x, index, 0, 1, dangling, d0, r0, d0, r0, d1, r1);
		self.x.flush_moves::<K>(dangling, d0, r0, d1, r1);
	}
//@ fn PartialItem for PartialInner::flush
//@ start
	let ghost d0 = db.dbv();
	let ghost r0 = raw.root;
//@ after-stmt #0 bm_le::PartialItem::flush
	proof {
		let (d1, r1) = (db.dbv(), raw.root);
		assert(old(self).x.flushed::<DB::Construct>(R::dangling(), d0, r0, d1, r1));
	}
//@ impl PartialItem for PartialTwo
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { self.s.bound_to(field_at(index, 0, 2)) && self.d.bound_to(field_at(index, 1, 2)) }
	open spec fn okp(&self) -> bool { self.s.okp() && self.d.okp() }
	open spec fn ready(&self) -> bool { self.s.ready() && self.d.ready() }
	open spec fn idle(&self) -> bool { self.s.idle() && self.d.idle() }
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool { exists|m1: DbView<K>, k1: Value| #[trigger] self.s.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.d.flushed::<K>(dangling, m1, k1, d1, r1) && m1.wf() && m1.same_flags(d0) }
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1) = choose|m1: DbView<K>, k1: Value| #[trigger] self.s.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.d.flushed::<K>(dangling, m1, k1, d1, r1) && m1.wf() && m1.same_flags(d0);
		self.s.idle_flush::<K>(dangling, d0, r0, m1, k1);
		self.d.idle_flush::<K>(dangling, m1, k1, d1, r1);
	}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1) = choose|m1: DbView<K>, k1: Value| #[trigger] self.s.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.d.flushed::<K>(dangling, m1, k1, d1, r1) && m1.wf() && m1.same_flags(d0);
		self.s.flush_moves::<K>(dangling, d0, r0, m1, k1);
		self.d.flush_moves::<K>(dangling, m1, k1, d1, r1);
		lemma_moved_trans(dangling, d0, r0, m1, k1, d1, r1);
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1) = choose|m1: DbView<K>, k1: Value| #[trigger] self.s.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.d.flushed::<K>(dangling, m1, k1, d1, r1) && m1.wf() && m1.same_flags(d0);
		let place = index.place(d0.store, r0);
		lemma_local_refl(place, d0, r0);
		lemma_field_local::<_, K>(self.s, index, 0, 2, dangling, d0, r0, d0, r0, m1, k1);
		self.s.flush_moves::<K>(dangling, d0, r0, m1, k1);
		lemma_field_local::<_, K>(self.d, index, 1, 2, dangling, d0, r0, m1, k1, d1, r1);
		self.d.flush_moves::<K>(dangling, m1, k1, d1, r1);
	}
//@ fn PartialItem for PartialTwo::flush
//@ start
	let ghost d0 = db.dbv();
	let ghost r0 = raw.root;
//@ after-stmt #0 bm_le::PartialItem::flush
	let ghost m1 = db.dbv();
	let ghost k1 = raw.root;
//@ after-stmt #1 bm_le::PartialItem::flush
	proof {
		let (d1, r1) = (db.dbv(), raw.root);
		assert(old(self).s.flushed::<DB::Construct>(R::dangling(), d0, r0, m1, k1));
		assert(old(self).d.flushed::<DB::Construct>(R::dangling(), m1, k1, d1, r1));
	}
//@ impl PartialItem for PartialFields
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { self.a.bound_to(field_at(index, 0, 3)) && self.b.bound_to(field_at(index, 1, 3)) && self.c.bound_to(field_at(index, 2, 3)) }
	open spec fn okp(&self) -> bool { self.a.okp() && self.b.okp() && self.c.okp() }
	open spec fn ready(&self) -> bool { self.a.ready() && self.b.ready() && self.c.ready() }
	open spec fn idle(&self) -> bool { self.a.idle() && self.b.idle() && self.c.idle() }
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool { exists|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value| #[trigger] self.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.c.flushed::<K>(dangling, m2, k2, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) }
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value| #[trigger] self.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.c.flushed::<K>(dangling, m2, k2, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0);
		self.a.idle_flush::<K>(dangling, d0, r0, m1, k1);
		self.b.idle_flush::<K>(dangling, m1, k1, m2, k2);
		self.c.idle_flush::<K>(dangling, m2, k2, d1, r1);
	}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value| #[trigger] self.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.c.flushed::<K>(dangling, m2, k2, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0);
		self.a.flush_moves::<K>(dangling, d0, r0, m1, k1);
		self.b.flush_moves::<K>(dangling, m1, k1, m2, k2);
		lemma_moved_trans(dangling, d0, r0, m1, k1, m2, k2);
		self.c.flush_moves::<K>(dangling, m2, k2, d1, r1);
		lemma_moved_trans(dangling, d0, r0, m2, k2, d1, r1);
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value| #[trigger] self.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.c.flushed::<K>(dangling, m2, k2, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0);
		let place = index.place(d0.store, r0);
		lemma_local_refl(place, d0, r0);
		lemma_field_local::<_, K>(self.a, index, 0, 3, dangling, d0, r0, d0, r0, m1, k1);
		self.a.flush_moves::<K>(dangling, d0, r0, m1, k1);
		lemma_field_local::<_, K>(self.b, index, 1, 3, dangling, d0, r0, m1, k1, m2, k2);
		self.b.flush_moves::<K>(dangling, m1, k1, m2, k2);
		lemma_field_local::<_, K>(self.c, index, 2, 3, dangling, d0, r0, m2, k2, d1, r1);
		self.c.flush_moves::<K>(dangling, m2, k2, d1, r1);
	}
//@ fn PartialItem for PartialFields::flush
//@ start
	let ghost d0 = db.dbv();
	let ghost r0 = raw.root;
//@ after-stmt #0 bm_le::PartialItem::flush
	let ghost m1 = db.dbv();
	let ghost k1 = raw.root;
//@ after-stmt #1 bm_le::PartialItem::flush
	let ghost m2 = db.dbv();
	let ghost k2 = raw.root;
//@ after-stmt #2 bm_le::PartialItem::flush
	proof {
		let (d1, r1) = (db.dbv(), raw.root);
		assert(old(self).a.flushed::<DB::Construct>(R::dangling(), d0, r0, m1, k1));
		assert(old(self).b.flushed::<DB::Construct>(R::dangling(), m1, k1, m2, k2));
		assert(old(self).c.flushed::<DB::Construct>(R::dangling(), m2, k2, d1, r1));
	}
//@ impl PartialItem for PartialFive
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { self.v.bound_to(field_at(index, 0, 5)) && self.w.bound_to(field_at(index, 1, 5)) && self.x.bound_to(field_at(index, 2, 5)) && self.y.bound_to(field_at(index, 3, 5)) && self.z.bound_to(field_at(index, 4, 5)) }
	open spec fn okp(&self) -> bool { self.v.okp() && self.w.okp() && self.x.okp() && self.y.okp() && self.z.okp() }
	open spec fn ready(&self) -> bool { self.v.ready() && self.w.ready() && self.x.ready() && self.y.ready() && self.z.ready() }
	open spec fn idle(&self) -> bool { self.v.idle() && self.w.idle() && self.x.idle() && self.y.idle() && self.z.idle() }
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool { exists|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value| #[trigger] self.v.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.w.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.x.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.y.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.z.flushed::<K>(dangling, m4, k4, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) }
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value| #[trigger] self.v.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.w.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.x.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.y.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.z.flushed::<K>(dangling, m4, k4, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0);
		self.v.idle_flush::<K>(dangling, d0, r0, m1, k1);
		self.w.idle_flush::<K>(dangling, m1, k1, m2, k2);
		self.x.idle_flush::<K>(dangling, m2, k2, m3, k3);
		self.y.idle_flush::<K>(dangling, m3, k3, m4, k4);
		self.z.idle_flush::<K>(dangling, m4, k4, d1, r1);
	}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value| #[trigger] self.v.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.w.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.x.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.y.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.z.flushed::<K>(dangling, m4, k4, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0);
		self.v.flush_moves::<K>(dangling, d0, r0, m1, k1);
		self.w.flush_moves::<K>(dangling, m1, k1, m2, k2);
		lemma_moved_trans(dangling, d0, r0, m1, k1, m2, k2);
		self.x.flush_moves::<K>(dangling, m2, k2, m3, k3);
		lemma_moved_trans(dangling, d0, r0, m2, k2, m3, k3);
		self.y.flush_moves::<K>(dangling, m3, k3, m4, k4);
		lemma_moved_trans(dangling, d0, r0, m3, k3, m4, k4);
		self.z.flush_moves::<K>(dangling, m4, k4, d1, r1);
		lemma_moved_trans(dangling, d0, r0, m4, k4, d1, r1);
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value| #[trigger] self.v.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.w.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.x.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.y.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.z.flushed::<K>(dangling, m4, k4, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0);
		let place = index.place(d0.store, r0);
		lemma_local_refl(place, d0, r0);
		lemma_field_local::<_, K>(self.v, index, 0, 5, dangling, d0, r0, d0, r0, m1, k1);
		self.v.flush_moves::<K>(dangling, d0, r0, m1, k1);
		lemma_field_local::<_, K>(self.w, index, 1, 5, dangling, d0, r0, m1, k1, m2, k2);
		self.w.flush_moves::<K>(dangling, m1, k1, m2, k2);
		lemma_field_local::<_, K>(self.x, index, 2, 5, dangling, d0, r0, m2, k2, m3, k3);
		self.x.flush_moves::<K>(dangling, m2, k2, m3, k3);
		lemma_field_local::<_, K>(self.y, index, 3, 5, dangling, d0, r0, m3, k3, m4, k4);
		self.y.flush_moves::<K>(dangling, m3, k3, m4, k4);
		lemma_field_local::<_, K>(self.z, index, 4, 5, dangling, d0, r0, m4, k4, d1, r1);
		self.z.flush_moves::<K>(dangling, m4, k4, d1, r1);
	}
//@ fn PartialItem for PartialFive::flush
//@ start
	let ghost d0 = db.dbv();
	let ghost r0 = raw.root;
//@ after-stmt #0 bm_le::PartialItem::flush
	let ghost m1 = db.dbv();
	let ghost k1 = raw.root;
//@ after-stmt #1 bm_le::PartialItem::flush
	let ghost m2 = db.dbv();
	let ghost k2 = raw.root;
//@ after-stmt #2 bm_le::PartialItem::flush
	let ghost m3 = db.dbv();
	let ghost k3 = raw.root;
//@ after-stmt #3 bm_le::PartialItem::flush
	let ghost m4 = db.dbv();
	let ghost k4 = raw.root;
//@ after-stmt #4 bm_le::PartialItem::flush
	proof {
		let (d1, r1) = (db.dbv(), raw.root);
		assert(old(self).v.flushed::<DB::Construct>(R::dangling(), d0, r0, m1, k1));
		assert(old(self).w.flushed::<DB::Construct>(R::dangling(), m1, k1, m2, k2));
		assert(old(self).x.flushed::<DB::Construct>(R::dangling(), m2, k2, m3, k3));
		assert(old(self).y.flushed::<DB::Construct>(R::dangling(), m3, k3, m4, k4));
		assert(old(self).z.flushed::<DB::Construct>(R::dangling(), m4, k4, d1, r1));
	}
//@ impl PartialItem for PartialNine
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { self.a.bound_to(field_at(index, 0, 9)) && self.b.bound_to(field_at(index, 1, 9)) && self.c.bound_to(field_at(index, 2, 9)) && self.d.bound_to(field_at(index, 3, 9)) && self.e.bound_to(field_at(index, 4, 9)) && self.f.bound_to(field_at(index, 5, 9)) && self.g.bound_to(field_at(index, 6, 9)) && self.h.bound_to(field_at(index, 7, 9)) && self.i.bound_to(field_at(index, 8, 9)) }
	open spec fn okp(&self) -> bool { self.a.okp() && self.b.okp() && self.c.okp() && self.d.okp() && self.e.okp() && self.f.okp() && self.g.okp() && self.h.okp() && self.i.okp() }
	open spec fn ready(&self) -> bool { self.a.ready() && self.b.ready() && self.c.ready() && self.d.ready() && self.e.ready() && self.f.ready() && self.g.ready() && self.h.ready() && self.i.ready() }
	open spec fn idle(&self) -> bool { self.a.idle() && self.b.idle() && self.c.idle() && self.d.idle() && self.e.idle() && self.f.idle() && self.g.idle() && self.h.idle() && self.i.idle() }
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool { exists|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value, m7: DbView<K>, k7: Value, m8: DbView<K>, k8: Value| #[trigger] self.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.c.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.d.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.e.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] self.f.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] self.g.flushed::<K>(dangling, m6, k6, m7, k7) && #[trigger] self.h.flushed::<K>(dangling, m7, k7, m8, k8) && #[trigger] self.i.flushed::<K>(dangling, m8, k8, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0) && m7.wf() && m7.same_flags(d0) && m8.wf() && m8.same_flags(d0) }
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4, m5, k5, m6, k6, m7, k7, m8, k8) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value, m7: DbView<K>, k7: Value, m8: DbView<K>, k8: Value| #[trigger] self.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.c.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.d.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.e.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] self.f.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] self.g.flushed::<K>(dangling, m6, k6, m7, k7) && #[trigger] self.h.flushed::<K>(dangling, m7, k7, m8, k8) && #[trigger] self.i.flushed::<K>(dangling, m8, k8, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0) && m7.wf() && m7.same_flags(d0) && m8.wf() && m8.same_flags(d0);
		self.a.idle_flush::<K>(dangling, d0, r0, m1, k1);
		self.b.idle_flush::<K>(dangling, m1, k1, m2, k2);
		self.c.idle_flush::<K>(dangling, m2, k2, m3, k3);
		self.d.idle_flush::<K>(dangling, m3, k3, m4, k4);
		self.e.idle_flush::<K>(dangling, m4, k4, m5, k5);
		self.f.idle_flush::<K>(dangling, m5, k5, m6, k6);
		self.g.idle_flush::<K>(dangling, m6, k6, m7, k7);
		self.h.idle_flush::<K>(dangling, m7, k7, m8, k8);
		self.i.idle_flush::<K>(dangling, m8, k8, d1, r1);
	}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4, m5, k5, m6, k6, m7, k7, m8, k8) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value, m7: DbView<K>, k7: Value, m8: DbView<K>, k8: Value| #[trigger] self.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.c.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.d.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.e.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] self.f.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] self.g.flushed::<K>(dangling, m6, k6, m7, k7) && #[trigger] self.h.flushed::<K>(dangling, m7, k7, m8, k8) && #[trigger] self.i.flushed::<K>(dangling, m8, k8, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0) && m7.wf() && m7.same_flags(d0) && m8.wf() && m8.same_flags(d0);
		self.a.flush_moves::<K>(dangling, d0, r0, m1, k1);
		self.b.flush_moves::<K>(dangling, m1, k1, m2, k2);
		lemma_moved_trans(dangling, d0, r0, m1, k1, m2, k2);
		self.c.flush_moves::<K>(dangling, m2, k2, m3, k3);
		lemma_moved_trans(dangling, d0, r0, m2, k2, m3, k3);
		self.d.flush_moves::<K>(dangling, m3, k3, m4, k4);
		lemma_moved_trans(dangling, d0, r0, m3, k3, m4, k4);
		self.e.flush_moves::<K>(dangling, m4, k4, m5, k5);
		lemma_moved_trans(dangling, d0, r0, m4, k4, m5, k5);
		self.f.flush_moves::<K>(dangling, m5, k5, m6, k6);
		lemma_moved_trans(dangling, d0, r0, m5, k5, m6, k6);
		self.g.flush_moves::<K>(dangling, m6, k6, m7, k7);
		lemma_moved_trans(dangling, d0, r0, m6, k6, m7, k7);
		self.h.flush_moves::<K>(dangling, m7, k7, m8, k8);
		lemma_moved_trans(dangling, d0, r0, m7, k7, m8, k8);
		self.i.flush_moves::<K>(dangling, m8, k8, d1, r1);
		lemma_moved_trans(dangling, d0, r0, m8, k8, d1, r1);
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4, m5, k5, m6, k6, m7, k7, m8, k8) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value, m7: DbView<K>, k7: Value, m8: DbView<K>, k8: Value| #[trigger] self.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.c.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.d.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.e.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] self.f.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] self.g.flushed::<K>(dangling, m6, k6, m7, k7) && #[trigger] self.h.flushed::<K>(dangling, m7, k7, m8, k8) && #[trigger] self.i.flushed::<K>(dangling, m8, k8, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0) && m7.wf() && m7.same_flags(d0) && m8.wf() && m8.same_flags(d0);
		let place = index.place(d0.store, r0);
		lemma_local_refl(place, d0, r0);
		lemma_field_local::<_, K>(self.a, index, 0, 9, dangling, d0, r0, d0, r0, m1, k1);
		self.a.flush_moves::<K>(dangling, d0, r0, m1, k1);
		lemma_field_local::<_, K>(self.b, index, 1, 9, dangling, d0, r0, m1, k1, m2, k2);
		self.b.flush_moves::<K>(dangling, m1, k1, m2, k2);
		lemma_field_local::<_, K>(self.c, index, 2, 9, dangling, d0, r0, m2, k2, m3, k3);
		self.c.flush_moves::<K>(dangling, m2, k2, m3, k3);
		lemma_field_local::<_, K>(self.d, index, 3, 9, dangling, d0, r0, m3, k3, m4, k4);
		self.d.flush_moves::<K>(dangling, m3, k3, m4, k4);
		lemma_field_local::<_, K>(self.e, index, 4, 9, dangling, d0, r0, m4, k4, m5, k5);
		self.e.flush_moves::<K>(dangling, m4, k4, m5, k5);
		lemma_field_local::<_, K>(self.f, index, 5, 9, dangling, d0, r0, m5, k5, m6, k6);
		self.f.flush_moves::<K>(dangling, m5, k5, m6, k6);
		lemma_field_local::<_, K>(self.g, index, 6, 9, dangling, d0, r0, m6, k6, m7, k7);
		self.g.flush_moves::<K>(dangling, m6, k6, m7, k7);
		lemma_field_local::<_, K>(self.h, index, 7, 9, dangling, d0, r0, m7, k7, m8, k8);
		self.h.flush_moves::<K>(dangling, m7, k7, m8, k8);
		lemma_field_local::<_, K>(self.i, index, 8, 9, dangling, d0, r0, m8, k8, d1, r1);
		self.i.flush_moves::<K>(dangling, m8, k8, d1, r1);
	}
//@ fn PartialItem for PartialNine::flush
//@ start
	let ghost d0 = db.dbv();
	let ghost r0 = raw.root;
//@ after-stmt #0 bm_le::PartialItem::flush
	let ghost m1 = db.dbv();
	let ghost k1 = raw.root;
//@ after-stmt #1 bm_le::PartialItem::flush
	let ghost m2 = db.dbv();
	let ghost k2 = raw.root;
//@ after-stmt #2 bm_le::PartialItem::flush
	let ghost m3 = db.dbv();
	let ghost k3 = raw.root;
//@ after-stmt #3 bm_le::PartialItem::flush
	let ghost m4 = db.dbv();
	let ghost k4 = raw.root;
//@ after-stmt #4 bm_le::PartialItem::flush
	let ghost m5 = db.dbv();
	let ghost k5 = raw.root;
//@ after-stmt #5 bm_le::PartialItem::flush
	let ghost m6 = db.dbv();
	let ghost k6 = raw.root;
//@ after-stmt #6 bm_le::PartialItem::flush
	let ghost m7 = db.dbv();
	let ghost k7 = raw.root;
//@ after-stmt #7 bm_le::PartialItem::flush
	let ghost m8 = db.dbv();
	let ghost k8 = raw.root;
//@ after-stmt #8 bm_le::PartialItem::flush
	proof {
		let (d1, r1) = (db.dbv(), raw.root);
		assert(old(self).a.flushed::<DB::Construct>(R::dangling(), d0, r0, m1, k1));
		assert(old(self).b.flushed::<DB::Construct>(R::dangling(), m1, k1, m2, k2));
		assert(old(self).c.flushed::<DB::Construct>(R::dangling(), m2, k2, m3, k3));
		assert(old(self).d.flushed::<DB::Construct>(R::dangling(), m3, k3, m4, k4));
		assert(old(self).e.flushed::<DB::Construct>(R::dangling(), m4, k4, m5, k5));
		assert(old(self).f.flushed::<DB::Construct>(R::dangling(), m5, k5, m6, k6));
		assert(old(self).g.flushed::<DB::Construct>(R::dangling(), m6, k6, m7, k7));
		assert(old(self).h.flushed::<DB::Construct>(R::dangling(), m7, k7, m8, k8));
		assert(old(self).i.flushed::<DB::Construct>(R::dangling(), m8, k8, d1, r1));
	}
//@ impl PartialItem for PartialOuter
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { self.f.bound_to(field_at(index, 0, 7)) && self.i.bound_to(field_at(index, 1, 7)) && self.g.bound_to(field_at(index, 2, 7)) && self.n.bound_to(field_at(index, 3, 7)) && self.t.bound_to(field_at(index, 4, 7)) && self.z.bound_to(field_at(index, 5, 7)) && self.q.bound_to(field_at(index, 6, 7)) }
	open spec fn okp(&self) -> bool { self.f.okp() && self.i.okp() && self.g.okp() && self.n.okp() && self.t.okp() && self.z.okp() && self.q.okp() }
	open spec fn ready(&self) -> bool { self.f.ready() && self.i.ready() && self.g.ready() && self.n.ready() && self.t.ready() && self.z.ready() && self.q.ready() }
	open spec fn idle(&self) -> bool { self.f.idle() && self.i.idle() && self.g.idle() && self.n.idle() && self.t.idle() && self.z.idle() && self.q.idle() }
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool { exists|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value| #[trigger] self.f.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.i.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.g.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.n.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.t.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] self.z.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] self.q.flushed::<K>(dangling, m6, k6, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0) }
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4, m5, k5, m6, k6) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value| #[trigger] self.f.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.i.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.g.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.n.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.t.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] self.z.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] self.q.flushed::<K>(dangling, m6, k6, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0);
		self.f.idle_flush::<K>(dangling, d0, r0, m1, k1);
		self.i.idle_flush::<K>(dangling, m1, k1, m2, k2);
		self.g.idle_flush::<K>(dangling, m2, k2, m3, k3);
		self.n.idle_flush::<K>(dangling, m3, k3, m4, k4);
		self.t.idle_flush::<K>(dangling, m4, k4, m5, k5);
		self.z.idle_flush::<K>(dangling, m5, k5, m6, k6);
		self.q.idle_flush::<K>(dangling, m6, k6, d1, r1);
	}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4, m5, k5, m6, k6) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value| #[trigger] self.f.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.i.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.g.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.n.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.t.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] self.z.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] self.q.flushed::<K>(dangling, m6, k6, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0);
		self.f.flush_moves::<K>(dangling, d0, r0, m1, k1);
		self.i.flush_moves::<K>(dangling, m1, k1, m2, k2);
		lemma_moved_trans(dangling, d0, r0, m1, k1, m2, k2);
		self.g.flush_moves::<K>(dangling, m2, k2, m3, k3);
		lemma_moved_trans(dangling, d0, r0, m2, k2, m3, k3);
		self.n.flush_moves::<K>(dangling, m3, k3, m4, k4);
		lemma_moved_trans(dangling, d0, r0, m3, k3, m4, k4);
		self.t.flush_moves::<K>(dangling, m4, k4, m5, k5);
		lemma_moved_trans(dangling, d0, r0, m4, k4, m5, k5);
		self.z.flush_moves::<K>(dangling, m5, k5, m6, k6);
		lemma_moved_trans(dangling, d0, r0, m5, k5, m6, k6);
		self.q.flush_moves::<K>(dangling, m6, k6, d1, r1);
		lemma_moved_trans(dangling, d0, r0, m6, k6, d1, r1);
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (m1, k1, m2, k2, m3, k3, m4, k4, m5, k5, m6, k6) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value| #[trigger] self.f.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] self.i.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] self.g.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] self.n.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] self.t.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] self.z.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] self.q.flushed::<K>(dangling, m6, k6, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0);
		let place = index.place(d0.store, r0);
		lemma_local_refl(place, d0, r0);
		lemma_field_local::<_, K>(self.f, index, 0, 7, dangling, d0, r0, d0, r0, m1, k1);
		self.f.flush_moves::<K>(dangling, d0, r0, m1, k1);
		lemma_field_local::<_, K>(self.i, index, 1, 7, dangling, d0, r0, m1, k1, m2, k2);
		self.i.flush_moves::<K>(dangling, m1, k1, m2, k2);
		lemma_field_local::<_, K>(self.g, index, 2, 7, dangling, d0, r0, m2, k2, m3, k3);
		self.g.flush_moves::<K>(dangling, m2, k2, m3, k3);
		lemma_field_local::<_, K>(self.n, index, 3, 7, dangling, d0, r0, m3, k3, m4, k4);
		self.n.flush_moves::<K>(dangling, m3, k3, m4, k4);
		lemma_field_local::<_, K>(self.t, index, 4, 7, dangling, d0, r0, m4, k4, m5, k5);
		self.t.flush_moves::<K>(dangling, m4, k4, m5, k5);
		lemma_field_local::<_, K>(self.z, index, 5, 7, dangling, d0, r0, m5, k5, m6, k6);
		self.z.flush_moves::<K>(dangling, m5, k5, m6, k6);
		lemma_field_local::<_, K>(self.q, index, 6, 7, dangling, d0, r0, m6, k6, d1, r1);
		self.q.flush_moves::<K>(dangling, m6, k6, d1, r1);
	}
//@ fn PartialItem for PartialOuter::flush
//@ start
	let ghost d0 = db.dbv();
	let ghost r0 = raw.root;
//@ after-stmt #0 bm_le::PartialItem::flush
	let ghost m1 = db.dbv();
	let ghost k1 = raw.root;
//@ after-stmt #1 bm_le::PartialItem::flush
	let ghost m2 = db.dbv();
	let ghost k2 = raw.root;
//@ after-stmt #2 bm_le::PartialItem::flush
	let ghost m3 = db.dbv();
	let ghost k3 = raw.root;
//@ after-stmt #3 bm_le::PartialItem::flush
	let ghost m4 = db.dbv();
	let ghost k4 = raw.root;
//@ after-stmt #4 bm_le::PartialItem::flush
	let ghost m5 = db.dbv();
	let ghost k5 = raw.root;
//@ after-stmt #5 bm_le::PartialItem::flush
	let ghost m6 = db.dbv();
	let ghost k6 = raw.root;
//@ after-stmt #6 bm_le::PartialItem::flush
	proof {
		let (d1, r1) = (db.dbv(), raw.root);
		assert(old(self).f.flushed::<DB::Construct>(R::dangling(), d0, r0, m1, k1));
		assert(old(self).i.flushed::<DB::Construct>(R::dangling(), m1, k1, m2, k2));
		assert(old(self).g.flushed::<DB::Construct>(R::dangling(), m2, k2, m3, k3));
		assert(old(self).n.flushed::<DB::Construct>(R::dangling(), m3, k3, m4, k4));
		assert(old(self).t.flushed::<DB::Construct>(R::dangling(), m4, k4, m5, k5));
		assert(old(self).z.flushed::<DB::Construct>(R::dangling(), m5, k5, m6, k6));
		assert(old(self).q.flushed::<DB::Construct>(R::dangling(), m6, k6, d1, r1));
	}
//@ postlude
/// Flushing gives the structure with exactly these fields changed.
pub proof fn theorem_inner_flush<K: CompatibleConstruct>(x: PartialInner, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v0: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), x.bound_to(index),
		d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v0), v0.len() == 1, p.len() + depth_of(1) < 64,
	ensures
		fields_hold::<K>(d1.store, r1, p, w), w.len() == 1,
		walk(d1.store, r1, p) == Some(encv::<K>(w, None)),
		w[0] == (match x.x.value { Some(y) => y.enc::<K>(), None => v0[0] }),
{
		hide(fields_hold); hide(item_done); hide(walk); hide(bits_be); hide(encv);
		lemma2_to64_rest();
		let x0 = theorem_field_done::<_, K>(x.x, index, 0, dangling, d0, r0, d1, r1, p, v0);
		let v1 = v0.update(0, x0);
		theorem_value_done::<u8, K>(x.x, dangling, p + bits_be(0, depth_of(1)), v0[0], x0);
		v1
}
/// Flushing gives the structure with exactly these fields changed.
pub proof fn theorem_two_flush<K: CompatibleConstruct>(x: PartialTwo, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v0: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), x.bound_to(index),
		d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v0), v0.len() == 2, p.len() + depth_of(2) < 64,
	ensures
		fields_hold::<K>(d1.store, r1, p, w), w.len() == 2,
		walk(d1.store, r1, p) == Some(encv::<K>(w, None)),
		w[0] == (match x.s.value { Some(y) => y.enc::<K>(), None => v0[0] }),
		item_done::<PartialInner, K>(x.d, field_at(index, 1, 2), dangling, p + bits_be(1, depth_of(2)), v0[1], w[1]),
{
		hide(fields_hold); hide(item_done); hide(walk); hide(bits_be); hide(encv);
		lemma2_to64_rest();
		let (m1, k1) = choose|m1: DbView<K>, k1: Value| #[trigger] x.s.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] x.d.flushed::<K>(dangling, m1, k1, d1, r1) && m1.wf() && m1.same_flags(d0);
		let x0 = theorem_field_done::<_, K>(x.s, index, 0, dangling, d0, r0, m1, k1, p, v0);
		let v1 = v0.update(0, x0);
		theorem_value_done::<u64, K>(x.s, dangling, p + bits_be(0, depth_of(2)), v0[0], x0);
		let x1 = theorem_field_done::<_, K>(x.d, index, 1, dangling, m1, k1, d1, r1, p, v1);
		let v2 = v1.update(1, x1);
		v2
}
/// Flushing gives the structure with exactly these fields changed.
pub proof fn theorem_fields_flush<K: CompatibleConstruct>(x: PartialFields, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v0: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), x.bound_to(index),
		d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v0), v0.len() == 3, p.len() + depth_of(3) < 64,
	ensures
		fields_hold::<K>(d1.store, r1, p, w), w.len() == 3,
		walk(d1.store, r1, p) == Some(encv::<K>(w, None)),
		w[0] == (match x.a.value { Some(y) => y.enc::<K>(), None => v0[0] }),
		w[1] == (match x.b.value { Some(y) => y.enc::<K>(), None => v0[1] }),
		item_done::<PartialInner, K>(x.c, field_at(index, 2, 3), dangling, p + bits_be(2, depth_of(3)), v0[2], w[2]),
{
		hide(fields_hold); hide(item_done); hide(walk); hide(bits_be); hide(encv);
		lemma2_to64_rest();
		let (m1, k1, m2, k2) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value| #[trigger] x.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] x.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] x.c.flushed::<K>(dangling, m2, k2, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0);
		let x0 = theorem_field_done::<_, K>(x.a, index, 0, dangling, d0, r0, m1, k1, p, v0);
		let v1 = v0.update(0, x0);
		theorem_value_done::<u64, K>(x.a, dangling, p + bits_be(0, depth_of(3)), v0[0], x0);
		let x1 = theorem_field_done::<_, K>(x.b, index, 1, dangling, m1, k1, m2, k2, p, v1);
		let v2 = v1.update(1, x1);
		theorem_value_done::<u16, K>(x.b, dangling, p + bits_be(1, depth_of(3)), v1[1], x1);
		let x2 = theorem_field_done::<_, K>(x.c, index, 2, dangling, m2, k2, d1, r1, p, v2);
		let v3 = v2.update(2, x2);
		v3
}
/// Flushing gives the structure with exactly these fields changed.
pub proof fn theorem_five_flush<K: CompatibleConstruct>(x: PartialFive, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v0: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), x.bound_to(index),
		d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v0), v0.len() == 5, p.len() + depth_of(5) < 64,
	ensures
		fields_hold::<K>(d1.store, r1, p, w), w.len() == 5,
		walk(d1.store, r1, p) == Some(encv::<K>(w, None)),
		w[0] == (match x.v.value { Some(y) => y.enc::<K>(), None => v0[0] }),
		item_done::<PartialTwo, K>(x.w, field_at(index, 1, 5), dangling, p + bits_be(1, depth_of(5)), v0[1], w[1]),
		w[2] == (match x.x.value { Some(y) => y.enc::<K>(), None => v0[2] }),
		w[3] == (match x.y.value { Some(y) => y.enc::<K>(), None => v0[3] }),
		item_done::<PartialNil, K>(x.z, field_at(index, 4, 5), dangling, p + bits_be(4, depth_of(5)), v0[4], w[4]),
{
		hide(fields_hold); hide(item_done); hide(walk); hide(bits_be); hide(encv);
		lemma2_to64_rest();
		let (m1, k1, m2, k2, m3, k3, m4, k4) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value| #[trigger] x.v.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] x.w.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] x.x.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] x.y.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] x.z.flushed::<K>(dangling, m4, k4, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0);
		let x0 = theorem_field_done::<_, K>(x.v, index, 0, dangling, d0, r0, m1, k1, p, v0);
		let v1 = v0.update(0, x0);
		theorem_value_done::<u128, K>(x.v, dangling, p + bits_be(0, depth_of(5)), v0[0], x0);
		let x1 = theorem_field_done::<_, K>(x.w, index, 1, dangling, m1, k1, m2, k2, p, v1);
		let v2 = v1.update(1, x1);
		let x2 = theorem_field_done::<_, K>(x.x, index, 2, dangling, m2, k2, m3, k3, p, v2);
		let v3 = v2.update(2, x2);
		theorem_value_done::<u8, K>(x.x, dangling, p + bits_be(2, depth_of(5)), v2[2], x2);
		let x3 = theorem_field_done::<_, K>(x.y, index, 3, dangling, m3, k3, m4, k4, p, v3);
		let v4 = v3.update(3, x3);
		theorem_value_done::<u8, K>(x.y, dangling, p + bits_be(3, depth_of(5)), v3[3], x3);
		let x4 = theorem_field_done::<_, K>(x.z, index, 4, dangling, m4, k4, d1, r1, p, v4);
		let v5 = v4.update(4, x4);
		v5
}
/// Flushing gives the structure with exactly these fields changed.
pub proof fn theorem_nine_flush<K: CompatibleConstruct>(x: PartialNine, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v0: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), x.bound_to(index),
		d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v0), v0.len() == 9, p.len() + depth_of(9) < 64,
	ensures
		fields_hold::<K>(d1.store, r1, p, w), w.len() == 9,
		walk(d1.store, r1, p) == Some(encv::<K>(w, None)),
		w[0] == (match x.a.value { Some(y) => y.enc::<K>(), None => v0[0] }),
		w[1] == (match x.b.value { Some(y) => y.enc::<K>(), None => v0[1] }),
		w[2] == (match x.c.value { Some(y) => y.enc::<K>(), None => v0[2] }),
		w[3] == (match x.d.value { Some(y) => y.enc::<K>(), None => v0[3] }),
		item_done::<PartialTwo, K>(x.e, field_at(index, 4, 9), dangling, p + bits_be(4, depth_of(9)), v0[4], w[4]),
		w[5] == (match x.f.value { Some(y) => y.enc::<K>(), None => v0[5] }),
		w[6] == (match x.g.value { Some(y) => y.enc::<K>(), None => v0[6] }),
		w[7] == (match x.h.value { Some(y) => y.enc::<K>(), None => v0[7] }),
		w[8] == (match x.i.value { Some(y) => y.enc::<K>(), None => v0[8] }),
{
		hide(fields_hold); hide(item_done); hide(walk); hide(bits_be); hide(encv);
		lemma2_to64_rest();
		let (m1, k1, m2, k2, m3, k3, m4, k4, m5, k5, m6, k6, m7, k7, m8, k8) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value, m7: DbView<K>, k7: Value, m8: DbView<K>, k8: Value| #[trigger] x.a.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] x.b.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] x.c.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] x.d.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] x.e.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] x.f.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] x.g.flushed::<K>(dangling, m6, k6, m7, k7) && #[trigger] x.h.flushed::<K>(dangling, m7, k7, m8, k8) && #[trigger] x.i.flushed::<K>(dangling, m8, k8, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0) && m7.wf() && m7.same_flags(d0) && m8.wf() && m8.same_flags(d0);
		let x0 = theorem_field_done::<_, K>(x.a, index, 0, dangling, d0, r0, m1, k1, p, v0);
		let v1 = v0.update(0, x0);
		theorem_value_done::<u16, K>(x.a, dangling, p + bits_be(0, depth_of(9)), v0[0], x0);
		let x1 = theorem_field_done::<_, K>(x.b, index, 1, dangling, m1, k1, m2, k2, p, v1);
		let v2 = v1.update(1, x1);
		theorem_value_done::<u16, K>(x.b, dangling, p + bits_be(1, depth_of(9)), v1[1], x1);
		let x2 = theorem_field_done::<_, K>(x.c, index, 2, dangling, m2, k2, m3, k3, p, v2);
		let v3 = v2.update(2, x2);
		theorem_value_done::<u16, K>(x.c, dangling, p + bits_be(2, depth_of(9)), v2[2], x2);
		let x3 = theorem_field_done::<_, K>(x.d, index, 3, dangling, m3, k3, m4, k4, p, v3);
		let v4 = v3.update(3, x3);
		theorem_value_done::<u16, K>(x.d, dangling, p + bits_be(3, depth_of(9)), v3[3], x3);
		let x4 = theorem_field_done::<_, K>(x.e, index, 4, dangling, m4, k4, m5, k5, p, v4);
		let v5 = v4.update(4, x4);
		let x5 = theorem_field_done::<_, K>(x.f, index, 5, dangling, m5, k5, m6, k6, p, v5);
		let v6 = v5.update(5, x5);
		theorem_value_done::<u64, K>(x.f, dangling, p + bits_be(5, depth_of(9)), v5[5], x5);
		let x6 = theorem_field_done::<_, K>(x.g, index, 6, dangling, m6, k6, m7, k7, p, v6);
		let v7 = v6.update(6, x6);
		theorem_value_done::<u64, K>(x.g, dangling, p + bits_be(6, depth_of(9)), v6[6], x6);
		let x7 = theorem_field_done::<_, K>(x.h, index, 7, dangling, m7, k7, m8, k8, p, v7);
		let v8 = v7.update(7, x7);
		theorem_value_done::<u64, K>(x.h, dangling, p + bits_be(7, depth_of(9)), v7[7], x7);
		let x8 = theorem_field_done::<_, K>(x.i, index, 8, dangling, m8, k8, d1, r1, p, v8);
		let v9 = v8.update(8, x8);
		theorem_value_done::<u64, K>(x.i, dangling, p + bits_be(8, depth_of(9)), v8[8], x8);
		v9
}
/// Flushing gives the structure with exactly these fields changed.
pub proof fn theorem_outer_flush<K: CompatibleConstruct>(x: PartialOuter, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v0: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), x.bound_to(index),
		d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v0), v0.len() == 7, p.len() + depth_of(7) < 64,
	ensures
		fields_hold::<K>(d1.store, r1, p, w), w.len() == 7,
		walk(d1.store, r1, p) == Some(encv::<K>(w, None)),
		item_done::<PartialFields, K>(x.f, field_at(index, 0, 7), dangling, p + bits_be(0, depth_of(7)), v0[0], w[0]),
		item_done::<PartialInner, K>(x.i, field_at(index, 1, 7), dangling, p + bits_be(1, depth_of(7)), v0[1], w[1]),
		item_done::<PartialFields, K>(x.g, field_at(index, 2, 7), dangling, p + bits_be(2, depth_of(7)), v0[2], w[2]),
		w[3] == (match x.n.value { Some(y) => y.enc::<K>(), None => v0[3] }),
		w[4] == (match x.t.value { Some(y) => y.enc::<K>(), None => v0[4] }),
		item_done::<PartialNil, K>(x.z, field_at(index, 5, 7), dangling, p + bits_be(5, depth_of(7)), v0[5], w[5]),
		item_done::<PartialTwo, K>(x.q, field_at(index, 6, 7), dangling, p + bits_be(6, depth_of(7)), v0[6], w[6]),
{
		hide(fields_hold); hide(item_done); hide(walk); hide(bits_be); hide(encv);
		lemma2_to64_rest();
		let (m1, k1, m2, k2, m3, k3, m4, k4, m5, k5, m6, k6) = choose|m1: DbView<K>, k1: Value, m2: DbView<K>, k2: Value, m3: DbView<K>, k3: Value, m4: DbView<K>, k4: Value, m5: DbView<K>, k5: Value, m6: DbView<K>, k6: Value| #[trigger] x.f.flushed::<K>(dangling, d0, r0, m1, k1) && #[trigger] x.i.flushed::<K>(dangling, m1, k1, m2, k2) && #[trigger] x.g.flushed::<K>(dangling, m2, k2, m3, k3) && #[trigger] x.n.flushed::<K>(dangling, m3, k3, m4, k4) && #[trigger] x.t.flushed::<K>(dangling, m4, k4, m5, k5) && #[trigger] x.z.flushed::<K>(dangling, m5, k5, m6, k6) && #[trigger] x.q.flushed::<K>(dangling, m6, k6, d1, r1) && m1.wf() && m1.same_flags(d0) && m2.wf() && m2.same_flags(d0) && m3.wf() && m3.same_flags(d0) && m4.wf() && m4.same_flags(d0) && m5.wf() && m5.same_flags(d0) && m6.wf() && m6.same_flags(d0);
		let x0 = theorem_field_done::<_, K>(x.f, index, 0, dangling, d0, r0, m1, k1, p, v0);
		let v1 = v0.update(0, x0);
		let x1 = theorem_field_done::<_, K>(x.i, index, 1, dangling, m1, k1, m2, k2, p, v1);
		let v2 = v1.update(1, x1);
		let x2 = theorem_field_done::<_, K>(x.g, index, 2, dangling, m2, k2, m3, k3, p, v2);
		let v3 = v2.update(2, x2);
		let x3 = theorem_field_done::<_, K>(x.n, index, 3, dangling, m3, k3, m4, k4, p, v3);
		let v4 = v3.update(3, x3);
		theorem_value_done::<u128, K>(x.n, dangling, p + bits_be(3, depth_of(7)), v3[3], x3);
		let x4 = theorem_field_done::<_, K>(x.t, index, 4, dangling, m4, k4, m5, k5, p, v4);
		let v5 = v4.update(4, x4);
		theorem_value_done::<u32, K>(x.t, dangling, p + bits_be(4, depth_of(7)), v4[4], x4);
		let x5 = theorem_field_done::<_, K>(x.z, index, 5, dangling, m5, k5, m6, k6, p, v5);
		let v6 = v5.update(5, x5);
		let x6 = theorem_field_done::<_, K>(x.q, index, 6, dangling, m6, k6, d1, r1, p, v6);
		let v7 = v6.update(6, x6);
		v7
}
