//@ full-names
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest};
use crate::le_model::*;
use crate::le_lib::*;
use crate::index::IndexSelection;
use crate::traits::EmptyConstruct;
use crate::util_model::*;
use crate::vec_model::*;
use crate::raw_thm::*;
use crate::len_model::{left1, right1, lawful_len, val_len, len_val};
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::model::group_shift, crate::traits::wf_has_view, group_le_value, axiom_u256_of, axiom_u256_eq};
//@ item struct PartialIndex
//@ subst
#[derive(Debug, Eq, PartialEq, Clone)]
=====>

//@ after
/// Where a partial index leads: along a path from the root, to somewhere no
/// index can address or past the end of a list or vector, or through a list
/// that has no length.
pub ghost enum Place { At(Seq<IndexSelection>), Beyond, Corrupt }
/// The path `q` continued from `p`.
pub open spec fn below(p: Seq<IndexSelection>, q: Seq<IndexSelection>) -> Place {
	if p.len() + q.len() < 64 { Place::At(p + q) } else { Place::Beyond }
}
/// Item `i` of the `n` items of a tree at `p`.
pub open spec fn item(p: Seq<IndexSelection>, i: nat, n: nat) -> Place {
	if i >= n || n > pow2(63) { Place::Beyond } else { below(p, bits_be(i, crate::vec_model::depth_of(n))) }
}
/// Item `i` of the list at `p`.
pub open spec fn list_item(s: Store, root: Value, p: Seq<IndexSelection>, i: nat) -> Place {
	if p.len() + 1 >= 64 { Place::Beyond } else {
		match walk(s, root, p + right1()) {
			None => Place::Corrupt,
			Some(l) => if le_nat(vb(l)) > pow2(63) { Place::Corrupt } else { item(p + left1(), i, le_nat(vb(l))) },
		}
	}
}
impl PartialIndex {
	/// The place in the tree at `root`.
	pub open spec fn place(self, s: Store, root: Value) -> Place
		decreases self
	{
		let above = match self.parent { Some(p) => p.place(s, root), None => Place::At(Seq::empty()) };
		match above {
			Place::At(p) => match self.sub {
				PartialSubIndex::Raw(i) => below(p, path(i.v())),
				PartialSubIndex::Vector(i, n) => item(p, i as nat, n as nat),
				PartialSubIndex::List(i) => list_item(s, root, p, i as nat),
			},
			_ => above,
		}
	}
	pub open spec fn above(self, s: Store, root: Value) -> Place {
		match self.parent { Some(p) => p.place(s, root), None => Place::At(Seq::empty()) }
	}
	/// The indices in it are indices.
	pub open spec fn okp(self) -> bool
		decreases self
	{
		&&& self.parent matches Some(p) ==> p.okp()
		&&& self.sub matches PartialSubIndex::Raw(i) ==> i.v() >= 1
	}
}
impl Clone for PartialIndex {
	#[verifier::external_body]
	fn clone(&self) -> (r: Self)
		ensures r == *self,
	{ unimplemented!() }
}
//@ item enum PartialSubIndex
//@ subst
#[derive(Debug, Eq, PartialEq, Clone)]
=====>

//@ fn sub_index
//@ ret r
//@ spec
	requires parent.v() >= 1, sub.v() >= 1,
	ensures
		r matches Err(e) ==> e is AccessOverflowed,
		match r { Ok(i) => i.v() >= 1 && below(path(parent.v()), path(sub.v())) == Place::At(path(i.v())), Err(_) => below(path(parent.v()), path(sub.v())) is Beyond },
//@ start
	proof {
		lemma_index_below(parent.v());
		lemma2_to64_rest();
		let (a, b) = (path(parent.v()).len(), path(sub.v()).len());
		lemma_path_short(parent.v() , 64);
		lemma_path_short(sub.v(), 64);
		if a + b < 64 {
			lemma_pow2_adds(a + 1, b);
			lemma_pow2_mono(a + 1 + b, 64);
			assert((parent.v() + 1) * pow2(b) <= pow2(a + 1) * pow2(b)) by (nonlinear_arith) requires parent.v() + 1 <= pow2(a + 1);
		}
	}
//@ fn depth_of
//@ ret r
//@ spec
	requires index.v() >= 1,
	ensures r == path(index.v()).len(),
//@ fn PartialIndex::root
//@ ret r
//@ spec
	ensures r.okp(), forall|s: Store, k: Value| #[trigger] r.place(s, k) == Place::At(Seq::empty()),
//@ fn PartialIndex::raw
//@ ret r
//@ spec
	ensures r == (PartialIndex { parent: Some(Box::new(*self)), sub: PartialSubIndex::Raw(index) }),
//@ fn PartialIndex::vector
//@ ret r
//@ spec
	ensures r == (PartialIndex { parent: Some(Box::new(*self)), sub: PartialSubIndex::Vector(index, len) }),
//@ fn PartialIndex::list
//@ ret r
//@ spec
	ensures r == (PartialIndex { parent: Some(Box::new(*self)), sub: PartialSubIndex::List(index) }),
//@ fn PartialIndex::resolve
//@ ret r
//@ spec
	requires old(db).wf(), self.okp(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		resolved(r, self.place(old(db).dbv().store, raw.root), old(db).dbv().reads_ok),
	decreases self,
//@ start
	let ghost (s, k) = (db.dbv().store, raw.root);
	let ghost above = self.above(s, k);
	proof {
		lemma_path_child(1);
		lemma_path_len(1);
		assert(path(2) =~= left1() && path(3) =~= right1());
		lemma2_to64();
		lemma2_to64_rest();
	}
//@ after-stmt let parent
	let ghost p = path(parent.v());
	proof { assert(above == Place::At(p)); }
//@ after-stmt let len_index
	proof { assert(path(len_index.v()) == p + right1()); }
//@ after-stmt let len_root
	let ghost l = len_root;
	proof {
		lemma_le_back(vb(l));
		assert(u256_of(le_nat(vb(l)))@ == le_nat(vb(l)));
		assert(U256::decodes::<DB::Construct>(s, l, u256_of(le_nat(vb(l)))));
	}
//@ before-stmt let mut max_len
	proof {
		assert(self.place(s, k) == item(path(parent.v()), index as nat, len as nat));
	}
//@ loop 0 spec
	invariant
		len <= 0x8000_0000_0000_0000,
		0 <= depth,
		max_len == pow2(depth as nat), depth > 0 ==> pow2((depth - 1) as nat) < len, depth <= max_len, depth <= 63,
	decreases 0x1_0000_0000_0000_0000 - max_len,
//@ loop 0 start
	proof {
		lemma_half((depth + 1) as nat); lemma_pow2_pos(depth as nat);
		if depth >= 63 { lemma_pow2_le(63, depth as nat); lemma2_to64_rest(); }
	}
//@ loop 0 after
	proof {
		lemma_depth_of(depth as nat, len as nat);
		lemma_path_from_depth(index as nat, depth as nat);
		lemma_shl_pow2(depth as usize);
	}
//@ fn PartialValue<T>::fetch
//@ ret r
//@ spec
	requires old(db).wf(), old(self).index.okp(), T::limits(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		final(self).index == old(self).index,
		fetched::<T, DB::Construct, DB::Error>(*old(self), *final(self), r, old(db).dbv().store, raw.root, old(db).dbv().reads_ok),
//@ fn PartialValue<T>::get
//@ ret r
//@ spec
	requires old(db).wf(), old(self).index.okp(), T::limits(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		final(self).index == old(self).index,
		r matches Ok(x) ==> final(self).value == Some(*x),
		old(self).value is Some ==> r is Ok && *final(self) == *old(self),
		old(self).value is None ==> fetched::<T, DB::Construct, DB::Error>(*old(self), *final(self), match r { Ok(_) => Ok(()), Err(e) => Err(e) }, old(db).dbv().store, raw.root, old(db).dbv().reads_ok),
//@ fn PartialValue<T>::set
//@ spec
	ensures final(self).index == old(self).index, final(self).value == Some(value),
//@ trait PartialItem
//@ supertrait
Sized
//@ ghost
	/// This is for the part at `index`.
	spec fn bound_to(&self, index: PartialIndex) -> bool;
	/// The indices in it are indices.
	spec fn okp(&self) -> bool;
	/// The lengths and limits of the values staged are ones an index can address.
	spec fn ready(&self) -> bool;
	/// Nothing is staged.
	spec fn idle(&self) -> bool;
	/// What flushing does to the database and to the root.
	spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool;
	/// Nothing changes when nothing is staged.
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value)
		requires self.idle(), self.flushed::<K>(dangling, d0, r0, d1, r1),
		ensures d1 == d0, r1 == r0;
	/// No other tree is affected.
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value)
		requires self.flushed::<K>(dangling, d0, r0, d1, r1), d0.wf(), d1.wf(), d1.same_flags(d0), !dangling ==> d0.holds(r0),
		ensures moved(dangling, d0, r0, d1, r1);
	/// Nothing outside the part it is bound to is affected.
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value)
		requires
			self.flushed::<K>(dangling, d0, r0, d1, r1), d0.wf(), d1.wf(), d1.same_flags(d0), !dangling ==> d0.holds(r0),
			d0.retains, self.bound_to(index), self.okp(),
		ensures local(index.place(d0.store, r0), d0, r0, d1, r1);
//@ fn PartialItem::new
//@ ret r
//@ spec
	requires index.okp(),
	ensures r.bound_to(index), r.okp(), r.ready(), r.idle(),
//@ fn PartialItem::flush
//@ ret r
//@ spec
	requires old(db).wf(), old(self).okp(), old(self).ready(), !R::dangling() ==> old(db).dbv().holds(old(raw).root),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		forall|index: PartialIndex| #[trigger] old(self).bound_to(index) ==> final(self).bound_to(index),
		final(self).okp(),
		r is Ok ==> old(self).flushed::<DB::Construct>(R::dangling(), old(db).dbv(), old(raw).root, final(db).dbv(), final(raw).root),
		r is Ok ==> final(self).idle() && final(self).ready(),
		r is Ok && !R::dangling() ==> final(db).dbv().holds(final(raw).root),
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is InvalidParameter
			|| e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
//@ impl PartialItem for PartialValue<T>
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { self.index == index }
	open spec fn okp(&self) -> bool { self.index.okp() }
	open spec fn ready(&self) -> bool { self.value matches Some(v) ==> v.addr() }
	open spec fn idle(&self) -> bool { self.value is None }
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool {
		match self.value {
			None => d1 == d0 && r1 == r0,
			Some(v) => written::<T, K>(v, self.index.place(d0.store, r0), dangling, d0, r0, d1, r1),
		}
	}
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		if self.value is Some {
			let p = self.index.place(d0.store, r0)->At_0;
			let v = self.value->0;
			let dm = choose|dm: DbView<K>| grown(d0, dm) && (d0.retains ==> v.stored::<K>(dm.store)) && #[trigger] set_post::<K>(dangling, dm, r0, p, v.enc::<K>(), d1, r1);
			lemma_moved_more(dangling, d0, r0, dm);
			lemma_moved_set::<K>(dangling, dm, r0, p, v.enc::<K>(), d1, r1);
			lemma_moved_trans(dangling, d0, r0, dm, r0, d1, r1);
		} else { lemma_moved_refl(dangling, d0, r0); }
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		if self.value is Some { lemma_written_local::<T, K>(self.value->0, self.index.place(d0.store, r0), dangling, d0, r0, d1, r1); }
	}
//@ fn PartialItem for PartialValue<T>::flush
//@ start
	proof { lemma_grown_refl(db.dbv()); }
//@ tail-let r_
	proof {
		if old(self).value is Some && r_ is Ok {
			assert(exists|dm: DbView<DB::Construct>| grown(old(db).dbv(), dm) && (old(db).dbv().retains ==> old(self).value->0.stored::<DB::Construct>(dm.store))
				&& #[trigger] set_post::<DB::Construct>(R::dangling(), dm, old(raw).root, old(self).index.place(old(db).dbv().store, old(raw).root)->At_0, old(self).value->0.enc::<DB::Construct>(), db.dbv(), raw.root));
		}
	}
//@ item struct PartialVec
//@ after
/// These are the entries of the map, in some order.
pub open spec fn listing<V>(es: Seq<(usize, V)>, m: vstd::map::Map<usize, V>) -> bool {
	&&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0
	&&& forall|i: int| 0 <= i < es.len() ==> m.contains_key((#[trigger] es[i]).0) && m[es[i].0] == es[i].1
	&&& forall|k: usize| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k
}
/// The items are flushed one after the other.
pub open spec fn in_turn<V: PartialItem, K: CompatibleConstruct>(es: Seq<(usize, V)>, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool
	decreases es.len()
{
	if es.len() == 0 { d1 == d0 && r1 == r0 } else {
		exists|dm: DbView<K>, rm: Value| in_turn::<V, K>(es.drop_last(), dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && #[trigger] es.last().1.flushed::<K>(dangling, dm, rm, d1, r1)
	}
}
/// The end values of these values.
pub open spec fn encs<T: IntoTree, K: CompatibleConstruct>(v: Seq<T>) -> Seq<Value> { v.map_values(|x: T| x.enc::<K>()) }
/// The list at `l` with these values appended.
pub open spec fn appended<T: IntoTree, K: CompatibleConstruct>(pushed: Seq<T>, d0: DbView<K>, l: Value, d1: DbView<K>, l1: Value) -> bool {
	let n = val_len(d0.store[l].1) as nat;
	let m = n + pushed.len();
	&&& d0.store.contains_key(l) && m <= pow2(63)
	&&& d1.wf() && moved(true, d0, l, d1, l1)
	&&& d1.store.contains_key(l1) && d1.store[l1].1 == len_val::<Value>(m as usize)
	&&& forall|i: int| 0 <= i < pushed.len() ==> (#[trigger] pushed[i]).fits() && (d0.retains ==> pushed[i].stored::<K>(d1.store))
	&&& forall|v: Seq<Value>| v.len() == n && #[trigger] tree_ok::<K>(d0.store, d0.store[l].0, crate::vec_model::depth_of(n), v)
		==> tree_ok::<K>(d1.store, d1.store[l1].0, crate::vec_model::depth_of(m), v + encs::<T, K>(pushed))
}
/// The list at `place` with these values appended.
pub open spec fn pushes<T: IntoTree, K: CompatibleConstruct>(pushed: Seq<T>, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool {
	if pushed.len() == 0 { d1 == d0 && r1 == r0 } else {
		&&& index.place(d0.store, r0) is At
		&&& walk(d0.store, r0, index.place(d0.store, r0)->At_0) is Some
		&&& exists|dm: DbView<K>, l1: Value| #[trigger] appended::<T, K>(pushed, d0, walk(d0.store, r0, index.place(d0.store, r0)->At_0)->0, dm, l1)
			&& set_post::<K>(dangling, dm, r0, index.place(d0.store, r0)->At_0, l1, d1, r1)
	}
}
pub proof fn lemma_turn_moves<V: PartialItem, K: CompatibleConstruct>(es: Seq<(usize, V)>, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value)
	requires in_turn::<V, K>(es, dangling, d0, r0, d1, r1), d0.wf(), d1.wf(), d1.same_flags(d0), !dangling ==> d0.holds(r0),
	ensures moved(dangling, d0, r0, d1, r1),
	decreases es.len(),
{
	if es.len() == 0 { lemma_moved_refl(dangling, d0, r0); } else {
		let (dm, rm) = choose|dm: DbView<K>, rm: Value| in_turn::<V, K>(es.drop_last(), dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && #[trigger] es.last().1.flushed::<K>(dangling, dm, rm, d1, r1);
		lemma_turn_moves::<V, K>(es.drop_last(), dangling, d0, r0, dm, rm);
		es.last().1.flush_moves::<K>(dangling, dm, rm, d1, r1);
		lemma_moved_trans(dangling, d0, r0, dm, rm, d1, r1);
	}
}
proof fn lemma_turn_idle<V: PartialItem, K: CompatibleConstruct>(es: Seq<(usize, V)>, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value)
	requires in_turn::<V, K>(es, dangling, d0, r0, d1, r1), forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1.idle(),
	ensures d1 == d0, r1 == r0,
	decreases es.len(),
{
	if es.len() > 0 {
		let (dm, rm) = choose|dm: DbView<K>, rm: Value| in_turn::<V, K>(es.drop_last(), dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && #[trigger] es.last().1.flushed::<K>(dangling, dm, rm, d1, r1);
		assert forall|i: int| 0 <= i < es.drop_last().len() implies (#[trigger] es.drop_last()[i]).1.idle() by { assert(es[i].1.idle()); }
		lemma_turn_idle::<V, K>(es.drop_last(), dangling, d0, r0, dm, rm);
		assert(es[es.len() - 1].1.idle());
		es.last().1.idle_flush::<K>(dangling, dm, rm, d1, r1);
	}
}
/// Nothing outside the list at `p` is affected.
proof fn lemma_turn_local<V: PartialItem, K: CompatibleConstruct>(es: Seq<(usize, V)>, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value)
	requires
		in_turn::<V, K>(es, dangling, d0, r0, d1, r1), d0.wf(), d1.wf(), d1.same_flags(d0), !dangling ==> d0.holds(r0), d0.retains,
		forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1.okp() && es[i].1.bound_to(list_at(index, es[i].0)),
	ensures local(index.place(d0.store, r0), d0, r0, d1, r1),
	decreases es.len(),
{
	let place = index.place(d0.store, r0);
	if es.len() > 0 {
		let (dm, rm) = choose|dm: DbView<K>, rm: Value| in_turn::<V, K>(es.drop_last(), dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && #[trigger] es.last().1.flushed::<K>(dangling, dm, rm, d1, r1);
		assert forall|i: int| 0 <= i < es.drop_last().len() implies (#[trigger] es.drop_last()[i]).1.okp() && es.drop_last()[i].1.bound_to(list_at(index, es.drop_last()[i].0)) by {
			assert(es[i].1.okp());
		}
		lemma_turn_local::<V, K>(es.drop_last(), index, dangling, d0, r0, dm, rm);
		lemma_turn_moves::<V, K>(es.drop_last(), dangling, d0, r0, dm, rm);
		let e = es[es.len() - 1];
		let at = list_at(index, e.0);
		e.1.flush_local::<K>(at, dangling, dm, rm, d1, r1);
		if place is At {
			lemma_prefix_plus(place->At_0, place->At_0);
			lemma_place_stable(index, d0.store, r0, dm.store, rm, place->At_0, place->At_0);
			lemma_item_below(index, e.0, dm.store, rm);
			if at.place(dm.store, rm) is At { lemma_framed_wider(place->At_0, at.place(dm.store, rm)->At_0, dm.store, rm, d1.store, r1); }
			lemma_framed_trans(place->At_0, d0.store, r0, dm.store, rm, d1.store, r1);
		}
	}
}
/// The index of the item at `i` of the list at `index`.
pub open spec fn list_at(index: PartialIndex, i: usize) -> PartialIndex { PartialIndex { parent: Some(Box::new(index)), sub: PartialSubIndex::List(i) } }
impl<T: Partialable> PartialVec<T> {
	/// The index of the item at `i`.
	pub open spec fn at_index(self, i: usize) -> PartialIndex { list_at(self.index, i) }
	pub open spec fn items_ok(self) -> bool { forall|k: usize| #[trigger] self.values@.contains_key(k) ==> self.values@[k].okp() && self.values@[k].bound_to(self.at_index(k)) }
}
//@ fn PartialVec<T>::at
//@ ret r
//@ spec
	requires old(self).index.okp(),
	ensures
		final(self).index == old(self).index,
		final(self).pushed == old(self).pushed,
		final(self).values@ == old(self).values@.insert(index, *final(r)),
		old(self).values@.contains_key(index) ==> *r == old(self).values@[index],
		!old(self).values@.contains_key(index) ==> r.bound_to(old(self).at_index(index)) && r.okp() && r.ready() && r.idle(),
//@ subst
self.values.entry(index).or_insert(PartialItem::new(«x»))
=====>
entry_or_insert(&mut self.values, index, PartialItem::new(«x»))
//@ fn PartialVec<T>::push
//@ spec
	ensures final(self).index == old(self).index, final(self).values == old(self).values, final(self).pushed@ == old(self).pushed@.push(value),
//@ impl PartialItem for PartialVec<T>
//@ ghost
	open spec fn bound_to(&self, index: PartialIndex) -> bool { self.index == index }
	open spec fn okp(&self) -> bool { self.index.okp() && self.items_ok() }
	open spec fn ready(&self) -> bool {
		&&& forall|k: usize| #[trigger] self.values@.contains_key(k) ==> self.values@[k].ready()
		&&& forall|i: int| 0 <= i < self.pushed@.len() ==> (#[trigger] self.pushed@[i]).addr()
	}
	open spec fn idle(&self) -> bool {
		&&& forall|k: usize| #[trigger] self.values@.contains_key(k) ==> self.values@[k].idle()
		&&& self.pushed@.len() == 0
	}
	open spec fn flushed<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool {
		exists|es: Seq<(usize, T::Value)>, dm: DbView<K>, rm: Value| listing(es, self.values@) && #[trigger] in_turn::<T::Value, K>(es, dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && pushes::<T, K>(self.pushed@, self.index, dangling, dm, rm, d1, r1)
	}
	proof fn idle_flush<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (es, dm, rm) = choose|es: Seq<(usize, T::Value)>, dm: DbView<K>, rm: Value| listing(es, self.values@) && #[trigger] in_turn::<T::Value, K>(es, dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && pushes::<T, K>(self.pushed@, self.index, dangling, dm, rm, d1, r1);
		assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).1.idle() by { assert(self.values@.contains_key(es[i].0)); }
		lemma_turn_idle::<T::Value, K>(es, dangling, d0, r0, dm, rm);
	}
	proof fn flush_moves<K: CompatibleConstruct>(&self, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (es, dm, rm) = choose|es: Seq<(usize, T::Value)>, dm: DbView<K>, rm: Value| listing(es, self.values@) && #[trigger] in_turn::<T::Value, K>(es, dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && pushes::<T, K>(self.pushed@, self.index, dangling, dm, rm, d1, r1);
		lemma_turn_moves::<T::Value, K>(es, dangling, d0, r0, dm, rm);
		if self.pushed@.len() > 0 {
			let p = self.index.place(dm.store, rm)->At_0;
			let l = walk(dm.store, rm, p)->0;
			let (dp, l1) = choose|dp: DbView<K>, l1: Value| #[trigger] appended::<T, K>(self.pushed@, dm, l, dp, l1) && set_post::<K>(dangling, dp, rm, p, l1, d1, r1);
			lemma_rebase(dangling, dm, l, dp, l1, rm);
			lemma_moved_set::<K>(dangling, dp, rm, p, l1, d1, r1);
			lemma_moved_trans(dangling, dm, rm, dp, rm, d1, r1);
			lemma_moved_trans(dangling, d0, r0, dm, rm, d1, r1);
		}
	}
	proof fn flush_local<K: CompatibleConstruct>(&self, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) {
		let (es, dm, rm) = choose|es: Seq<(usize, T::Value)>, dm: DbView<K>, rm: Value| listing(es, self.values@) && #[trigger] in_turn::<T::Value, K>(es, dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && pushes::<T, K>(self.pushed@, self.index, dangling, dm, rm, d1, r1);
		assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).1.okp() && es[i].1.bound_to(list_at(index, es[i].0)) by {
			assert(self.values@.contains_key(es[i].0));
		}
		lemma_turn_local::<T::Value, K>(es, index, dangling, d0, r0, dm, rm);
		lemma_turn_moves::<T::Value, K>(es, dangling, d0, r0, dm, rm);
		if self.pushed@.len() > 0 {
			let q = self.index.place(dm.store, rm)->At_0;
			let l = walk(dm.store, rm, q)->0;
			let (dp, l1) = choose|dp: DbView<K>, l1: Value| #[trigger] appended::<T, K>(self.pushed@, dm, l, dp, l1) && set_post::<K>(dangling, dp, rm, q, l1, d1, r1);
			lemma_rebase(dangling, dm, l, dp, l1, rm);
			lemma_set_local::<K>(dangling, dm, rm, dp, q, l1, d1, r1);
			let place = index.place(d0.store, r0);
			match place {
				Place::At(p) => {
					lemma_prefix_plus(p, p);
					lemma_place_stable(index, d0.store, r0, dm.store, rm, p, p);
					lemma_framed_trans(p, d0.store, r0, dm.store, rm, d1.store, r1);
				}
				_ => {}
			}
		}
	}
//@ fn PartialItem for PartialVec<T>::flush
//@ loop 0 wrap-iter
entries($)
//@ loop 0 iter
it
//@ loop 0 spec
	invariant
		db.wf(),
		db.dbv().same_flags(d0),
		d0 == old(db).dbv(),
		it.seq() == es, listing(es, old(self).values@),
		old(self).okp(), old(self).ready(),
		self.index == old(self).index, self.pushed == old(self).pushed, self.values@ == vstd::map::Map::<usize, T::Value>::empty(),
		in_turn::<T::Value, DB::Construct>(es.take(it.index@ as int), R::dangling(), d0, old(raw).root, db.dbv(), raw.root),
		!R::dangling() ==> db.dbv().holds(raw.root),
//@ loop 0 before
	let ghost es = order_of(values);
//@ loop 0 start
	let ghost (dm, rm) = (db.dbv(), raw.root);
	let ghost e = es[it.index@ as int];
	proof { assert(old(self).values@.contains_key(e.0)); }
//@ loop 0 end
	proof {
		let done = es.take(it.index@ as int);
		let next = es.take(it.index@ + 1);
		assert(next.drop_last() =~= done && next.last() == e);
		assert(e.1.flushed::<DB::Construct>(R::dangling(), dm, rm, db.dbv(), raw.root));
	}
//@ start
	let ghost d0 = db.dbv();
	let ghost ps = self.pushed@;
//@ loop 0 after
	let ghost (dm, rm) = (db.dbv(), raw.root);
	proof { assert(es.take(es.len() as int) =~= es); lemma_lawful_value(); }
//@ after-stmt let mut list
	let ghost l = list_root;
	let ghost n = list.0.inner.len as nat;
	let ghost t = dm.store[l].0;
	proof {
		lemma_moved_refl(true, dm, l);
		assert forall|v: Seq<Value>| v + encs::<T, DB::Construct>(ps.take(0)) == v by { assert(v + encs::<T, DB::Construct>(ps.take(0)) =~= v); }
	}
//@ loop 1 iter
it
//@ loop 1 spec
	invariant
		db.wf(), db.dbv().same_flags(dm), d0 == old(db).dbv(), dm.same_flags(d0),
		lawful_len::<Value>(),
		it.seq() == ps, ps == old(self).pushed@, old(self).ready(),
		self.okp(), self.index == old(self).index,
		list.shape(), list.0.inner.max_len is None, list.0.inner.len == n + it.index@, n <= pow2(63),
		moved(true, dm, l, db.dbv(), list.rt()),
		it.index@ > 0 ==> list.0.linked(db.dbv()),
		forall|i: int| 0 <= i < it.index@ ==> (#[trigger] ps[i]).fits() && (dm.retains ==> ps[i].stored::<DB::Construct>(db.dbv().store)),
		forall|v: Seq<Value>| v.len() == n && #[trigger] tree_ok::<DB::Construct>(dm.store, t, crate::vec_model::depth_of(n), v)
			==> list.0.inner.holds_elems(db.dbv(), v + encs::<T, DB::Construct>(ps.take(it.index@ as int))),
//@ loop 1 start
	let ghost i = it.index@ as int;
	let ghost (da, ra, la) = (db.dbv(), list.rt(), list);
	proof { assert(ps[i].addr()); }
//@ after-stmt let value_root
	let ghost dv = db.dbv();
	proof {
		lemma_moved_more(true, da, ra, dv);
		lemma_moved_trans(true, dm, l, da, ra, dv, ra);
		assert forall|j: int| 0 <= j < i && dm.retains implies (#[trigger] ps[j]).stored::<DB::Construct>(dv.store) by { ps[j].stored_more::<DB::Construct>(da.store, dv.store); }
	}
//@ loop 1 end
	proof {
		lemma_moved_trans(true, dm, l, dv, ra, db.dbv(), list.rt());
		assert forall|j: int| 0 <= j < i + 1 && dm.retains implies (#[trigger] ps[j]).stored::<DB::Construct>(db.dbv().store) by { ps[j].stored_more::<DB::Construct>(dv.store, db.dbv().store); }
		assert forall|v: Seq<Value>| v.len() == n && #[trigger] tree_ok::<DB::Construct>(dm.store, t, crate::vec_model::depth_of(n), v)
			implies list.0.inner.holds_elems(db.dbv(), v + encs::<T, DB::Construct>(ps.take(i + 1))) by {
			let w = v + encs::<T, DB::Construct>(ps.take(i));
			assert(la.0.inner.holds_elems(da, w));
			lemma_kept_sub(da.store, dv.store, la.0.inner.rt());
			lemma_tree_kept::<DB::Construct>(da.store, dv.store, la.0.inner.rt(), la.0.inner.vd(), w);
			assert(la.0.inner.holds_elems(dv, w));
			assert(ps.take(i + 1) =~= ps.take(i).push(ps[i]));
			assert(v + encs::<T, DB::Construct>(ps.take(i + 1)) =~= w.push(value_root));
		}
	}
//@ loop 1 after
	let ghost (dp, l1) = (db.dbv(), list.rt());
	proof {
		lemma_rebase(R::dangling(), dm, l, dp, l1, rm);
		assert(ps.take(ps.len() as int) =~= ps);
		assert(appended::<T, DB::Construct>(ps, dm, l, dp, l1));
	}
//@ postlude
/// What resolving may answer.
pub open spec fn resolved<E>(r: Result<Index, Error<E>>, p: Place, reads_ok: bool) -> bool {
	match r {
		Ok(i) => i.v() >= 1 && p == Place::At(path(i.v())),
		Err(e) => e is AccessOverflowed && p is Beyond || e is CorruptedDatabase && p is Corrupt || e is Backend && !reads_ok,
	}
}
proof fn lemma_index_below(n: nat)
	requires n >= 1,
	ensures pow2(path(n).len()) <= n < pow2(path(n).len() + 1),
	decreases n,
{
	lemma2_to64();
	lemma_path_len(n);
	lemma_pow2_unfold(path(n).len() + 1);
	if n > 1 {
		lemma_index_below(n / 2);
		lemma_pow2_unfold(path(n).len());
	}
}
proof fn lemma_path_short(n: nat, d: nat)
	requires 1 <= n < pow2(d),
	ensures path(n).len() < d,
{
	lemma_index_below(n);
	if path(n).len() >= d { lemma_pow2_mono(d, path(n).len()); }
}

/// What fetching may answer.
pub open spec fn fetched<T: FromTree, K: CompatibleConstruct, E>(a: PartialValue<T>, b: PartialValue<T>, r: Result<(), Error<E>>, s: Store, root: Value, reads_ok: bool) -> bool {
	let p = a.index.place(s, root);
	match r {
		Ok(_) => p is At && walk(s, root, p->At_0) is Some && b.value is Some && T::decodes::<K>(s, walk(s, root, p->At_0)->0, b.value->0),
		Err(e) => b == a && (e is AccessOverflowed && p is Beyond || e is Backend && !reads_ok
			|| e is CorruptedDatabase && (p is At ==> walk(s, root, p->At_0) is None || nothing::<T, K>(s, walk(s, root, p->At_0)->0)) && !(p is Beyond)),
	}
}
/// Writing a value at a place.
pub open spec fn written<T: IntoTree, K: CompatibleConstruct>(v: T, p: Place, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool {
	&&& p is At
	&&& v.fits()
	&&& exists|dm: DbView<K>| grown(d0, dm) && (d0.retains ==> v.stored::<K>(dm.store)) && #[trigger] set_post::<K>(dangling, dm, r0, p->At_0, v.enc::<K>(), d1, r1)
}
/// Neither is at, above or below the other.
pub open spec fn apart(p: Seq<IndexSelection>, q: Seq<IndexSelection>) -> bool { !is_prefix(p, q) && !is_prefix(q, p) }
/// From one tree to the other, nothing changes outside `p`.
pub open spec fn framed(p: Seq<IndexSelection>, s: Store, r: Value, s1: Store, r1: Value) -> bool {
	&&& forall|q: Seq<IndexSelection>| is_prefix(q, p) && walk(s, r, q) is Some ==> #[trigger] walk(s1, r1, q) is Some
	&&& forall|q: Seq<IndexSelection>| apart(p, q) && walk(s, r, q) is Some ==> #[trigger] walk(s1, r1, q) == walk(s, r, q)
}
/// Nothing changes outside the place; nothing at all when there is none.
pub open spec fn local<K: CompatibleConstruct>(place: Place, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value) -> bool {
	match place { Place::At(p) => framed(p, d0.store, r0, d1.store, r1), _ => d1 == d0 && r1 == r0 }
}
pub proof fn lemma_prefix_trans(a: Seq<IndexSelection>, b: Seq<IndexSelection>, c: Seq<IndexSelection>)
	requires is_prefix(a, b), is_prefix(b, c),
	ensures is_prefix(a, c),
{
	assert(c.take(a.len() as int) =~= b.take(a.len() as int)) by {
		assert forall|i: int| 0 <= i < a.len() implies c[i] == b[i] by { assert(c.take(b.len() as int)[i] == b[i]); }
	}
}
/// Two prefixes of the same path are one above the other.
pub proof fn lemma_prefix_either(a: Seq<IndexSelection>, b: Seq<IndexSelection>, c: Seq<IndexSelection>)
	requires is_prefix(a, c), is_prefix(b, c),
	ensures is_prefix(a, b) || is_prefix(b, a),
{
	if a.len() <= b.len() { assert(b.take(a.len() as int) =~= a); } else { assert(a.take(b.len() as int) =~= b); }
}
pub proof fn lemma_prefix_plus(p: Seq<IndexSelection>, q: Seq<IndexSelection>)
	ensures is_prefix(p, p + q), is_prefix(p, p),
{
	assert((p + q).take(p.len() as int) =~= p);
	assert(p.take(p.len() as int) =~= p);
}
pub proof fn lemma_framed_trans(p: Seq<IndexSelection>, s: Store, r: Value, s1: Store, r1: Value, s2: Store, r2: Value)
	requires framed(p, s, r, s1, r1), framed(p, s1, r1, s2, r2),
	ensures framed(p, s, r, s2, r2),
{
	assert forall|q: Seq<IndexSelection>| is_prefix(q, p) && walk(s, r, q) is Some implies #[trigger] walk(s2, r2, q) is Some by { assert(walk(s1, r1, q) is Some); }
	assert forall|q: Seq<IndexSelection>| apart(p, q) && walk(s, r, q) is Some implies #[trigger] walk(s2, r2, q) == walk(s, r, q) by { assert(walk(s1, r1, q) == walk(s, r, q)); }
}
pub proof fn lemma_framed_wider(p: Seq<IndexSelection>, b: Seq<IndexSelection>, s: Store, r: Value, s1: Store, r1: Value)
	requires framed(b, s, r, s1, r1), is_prefix(p, b),
	ensures framed(p, s, r, s1, r1),
{
	assert forall|q: Seq<IndexSelection>| is_prefix(q, p) && walk(s, r, q) is Some implies #[trigger] walk(s1, r1, q) is Some by { lemma_prefix_trans(q, p, b); }
	assert forall|q: Seq<IndexSelection>| apart(p, q) && walk(s, r, q) is Some implies #[trigger] walk(s1, r1, q) == walk(s, r, q) by {
		if is_prefix(b, q) { lemma_prefix_trans(p, b, q); }
		if is_prefix(q, b) { lemma_prefix_either(p, q, b); }
	}
}
/// Setting affects only what is set.
pub proof fn lemma_set_local<K: CompatibleConstruct>(dangling: bool, d0: DbView<K>, r0: Value, dm: DbView<K>, p: Seq<IndexSelection>, v: Value, d1: DbView<K>, r1: Value)
	requires
		d0.wf(), d0.retains, d0.store.submap_of(dm.store), dm.wf(), dm.same_flags(d0), !dangling ==> dm.holds(r0),
		set_post::<K>(dangling, dm, r0, p, v, d1, r1),
	ensures framed(p, d0.store, r0, d1.store, r1), walk(d1.store, r1, p) == Some(v),
{
	theorem_set::<K>(dangling, dm, r0, p, v, d1, r1);
	assert forall|q: Seq<IndexSelection>| is_prefix(q, p) implies #[trigger] walk(d1.store, r1, q) is Some by {
		assert(p =~= q + p.skip(q.len() as int));
		lemma_walk_split(d1.store, r1, q, p.skip(q.len() as int));
	}
	assert forall|q: Seq<IndexSelection>| apart(p, q) && walk(d0.store, r0, q) is Some implies #[trigger] walk(d1.store, r1, q) == walk(d0.store, r0, q) by {
		lemma_walk_mono(d0.store, dm.store, r0, q);
	}
}
pub proof fn lemma_written_local<T: IntoTree, K: CompatibleConstruct>(v: T, p: Place, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value)
	requires written::<T, K>(v, p, dangling, d0, r0, d1, r1), d0.wf(), d0.retains, !dangling ==> d0.holds(r0),
	ensures p is At, framed(p->At_0, d0.store, r0, d1.store, r1), walk(d1.store, r1, p->At_0) == Some(v.enc::<K>()),
{
	let dm = choose|dm: DbView<K>| grown(d0, dm) && (d0.retains ==> v.stored::<K>(dm.store)) && #[trigger] set_post::<K>(dangling, dm, r0, p->At_0, v.enc::<K>(), d1, r1);
	lemma_set_local::<K>(dangling, d0, r0, dm, p->At_0, v.enc::<K>(), d1, r1);
}
/// An item of a list is below the left side of the list.
pub proof fn lemma_item_below(index: PartialIndex, i: usize, s: Store, r: Value)
	ensures
		list_at(index, i).place(s, r) is At ==> index.place(s, r) is At && is_prefix(index.place(s, r)->At_0, list_at(index, i).place(s, r)->At_0),
{
	if index.place(s, r) is At && list_at(index, i).place(s, r) is At {
		let p = index.place(s, r)->At_0;
		let q = bits_be(i as nat, crate::vec_model::depth_of(le_nat(vb(walk(s, r, p + right1())->0))));
		lemma_prefix_plus(p, left1() + q);
		assert(p + left1() + q =~= p + (left1() + q));
	}
}
/// Where an index leads does not change when nothing changes outside of there.
pub proof fn lemma_place_stable(index: PartialIndex, s: Store, r: Value, s1: Store, r1: Value, a: Seq<IndexSelection>, p: Seq<IndexSelection>)
	requires index.place(s, r) == Place::At(a), is_prefix(a, p), framed(p, s, r, s1, r1),
	ensures index.place(s1, r1) == Place::At(a),
	decreases index,
{
	let b = index.above(s, r)->At_0;
	match index.sub {
		PartialSubIndex::Raw(i) => { lemma_prefix_plus(b, path(i.v())); },
		PartialSubIndex::Vector(i, n) => { lemma_prefix_plus(b, bits_be(i as nat, crate::vec_model::depth_of(n as nat))); },
		PartialSubIndex::List(i) => {
			let l = b + right1();
			let q = bits_be(i as nat, crate::vec_model::depth_of(le_nat(vb(walk(s, r, l)->0))));
			assert(a =~= b + (left1() + q));
			lemma_prefix_plus(b, left1() + q);
			let k = b.len() as int;
			assert(a[k] == IndexSelection::Left && l[k] == IndexSelection::Right);
			assert(p.take(a.len() as int)[k] == p[k]);
			if is_prefix(l, p) { assert(p.take(l.len() as int)[k] == p[k]); }
			if is_prefix(p, l) { assert(l.take(p.len() as int)[k] == l[k]); }
			assert(walk(s1, r1, l) == walk(s, r, l));
		},
	}
	lemma_prefix_trans(b, a, p);
	if index.parent is Some { lemma_place_stable(*index.parent->0, s, r, s1, r1, b, p); }
}
pub proof fn lemma_rebase<K: CompatibleConstruct>(dangling: bool, d0: DbView<K>, l: Value, d1: DbView<K>, l1: Value, r: Value)
	requires moved(true, d0, l, d1, l1), !dangling ==> d0.holds(r),
	ensures moved(dangling, d0, r, d1, r), !dangling ==> d1.holds(r),
{ if d0.retains { lemma_moved_more(dangling, d0, r, d1); } }
