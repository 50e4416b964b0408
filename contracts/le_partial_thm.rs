//! What flushing does to the value in the tree: theorems over the contracts
//! of partial access.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use crate::model::*;
use crate::index::IndexSelection;
use crate::vec_model::*;
use crate::util_model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_model::*;
use crate::le_lib::*;
use crate::le_partial::*;
use crate::len_model::{left1, right1, lawful_len, val_len, len_val, lemma_walk1};
use crate::le_thm::*;
use crate::traits::*;
use crate::raw_thm::*;
verus! {
broadcast use {group_value, group_le_value, crate::traits::wf_has_view};

// ------------------------------------------------------- one place in a tree

/// What is under a value stays under it when it is set somewhere.
pub proof fn lemma_set_keeps<K: CompatibleConstruct>(dangling: bool, d0: DbView<K>, r0: Value, p: Seq<IndexSelection>, v: Value, d1: DbView<K>, r1: Value)
	requires d0.wf(), d1.wf(), d0.retains, d1.same_flags(d0), !dangling ==> d0.holds(r0), set_post::<K>(dangling, d0, r0, p, v, d1, r1),
	ensures kept(d0.store, d1.store, v), walk(d1.store, r1, p) == Some(v),
{
	theorem_set::<K>(dangling, d0, r0, p, v, d1, r1);
	lemma_moved_set::<K>(dangling, d0, r0, p, v, d1, r1);
	let ns = newstore::<K>(d0.store, r0, p, v);
	lemma_newstore::<K>(d0.store, r0, p, v);
	theorem_read_after_write::<K>(d0.store, r0, p, v);
	assert forall|q: Seq<IndexSelection>| walk(d0.store, v, q) is Some implies #[trigger] walk(d1.store, v, q) == walk(d0.store, v, q) by {
		lemma_walk_mono(d0.store, ns, v, q);
		lemma_walk_split(ns, r1, p, q);
		lemma_walk_split(d1.store, r1, p, q);
		assert(walk(d1.store, r1, p + q) == walk(ns, r1, p + q));
	}
}

/// A flushed value is what is at its place, with everything below it, and
/// nothing anywhere else is affected; the new root is the old one with the
/// value written at its place.
pub proof fn theorem_value_flush<T: IntoTree, K: CompatibleConstruct>(x: PartialValue<T>, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
	ensures
		x.value is None ==> d1 == d0 && r1 == r0,
		x.value matches Some(v) ==> {
			&&& x.index.place(d0.store, r0) is At && v.fits()
			&&& ({
				let p = x.index.place(d0.store, r0)->At_0;
				&&& framed(p, d0.store, r0, d1.store, r1)
				&&& walk(d1.store, r1, p) == Some(v.enc::<K>())
				&&& x.index.place(d1.store, r1) == Place::At(p)
				&&& exists|dm: DbView<K>| v.stored::<K>(dm.store) && #[trigger] kept(dm.store, d1.store, v.enc::<K>()) && dm.wf() && grown(d0, dm)
					&& r1 == newroot::<K>(dm.store, r0, p, v.enc::<K>())
				&&& dangling ==> v.stored::<K>(d1.store)
			})
		},
{
	if x.value is Some {
		let v = x.value->0;
		let p = x.index.place(d0.store, r0)->At_0;
		lemma_written_local::<T, K>(v, x.index.place(d0.store, r0), dangling, d0, r0, d1, r1);
		let dm = choose|dm: DbView<K>| grown(d0, dm) && (d0.retains ==> v.stored::<K>(dm.store)) && #[trigger] set_post::<K>(dangling, dm, r0, p, v.enc::<K>(), d1, r1);
		lemma_set_keeps::<K>(dangling, dm, r0, p, v.enc::<K>(), d1, r1);
		assert(kept(dm.store, d1.store, v.enc::<K>()));
		if dangling {
			lemma_newstore::<K>(dm.store, r0, p, v.enc::<K>());
			v.stored_more::<K>(dm.store, d1.store);
		}
		lemma_prefix_plus(p, p);
		lemma_place_stable(x.index, d0.store, r0, d1.store, r1, p, p);
	}
}

/// A value somewhere apart still is what it was, where it was.
pub proof fn theorem_others_untouched(p: Seq<IndexSelection>, q: Seq<IndexSelection>, s: Store, r: Value, s1: Store, r1: Value)
	requires framed(p, s, r, s1, r1), apart(p, q), walk(s, r, q) is Some,
	ensures walk(s1, r1, q) == walk(s, r, q), kept(s, s1, walk(s, r, q)->0),
{
	let k = walk(s, r, q)->0;
	assert(walk(s1, r1, q) == walk(s, r, q));
	assert forall|t: Seq<IndexSelection>| walk(s, k, t) is Some implies #[trigger] walk(s1, k, t) == walk(s, k, t) by {
		lemma_walk_split(s, r, q, t);
		lemma_walk_split(s1, r1, q, t);
		lemma_prefix_plus(q, t);
		assert(apart(p, q + t)) by {
			if is_prefix(q + t, p) { lemma_prefix_trans(q, q + t, p); }
			if is_prefix(p, q + t) { lemma_prefix_either(p, q, q + t); }
		}
		assert(walk(s1, r1, q + t) == walk(s, r, q + t));
	}
}

// ------------------------------------------------------------------- lists

/// At `p` there is a list of these end values.
pub open spec fn list_holds<K: CompatibleConstruct>(s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>) -> bool {
	&&& walk(s, r, p) matches Some(l) && list_node::<K>(s, l, v)
}
pub open spec fn list_node<K: CompatibleConstruct>(s: Store, l: Value, v: Seq<Value>) -> bool {
	&&& v.len() <= pow2(63) && s.contains_key(l) && s[l].1 == len_val::<Value>(v.len() as usize)
	&&& tree_ok::<K>(s, s[l].0, depth_of(v.len()), v)
}
pub proof fn lemma_len_val(n: nat)
	requires n <= pow2(63),
	ensures le_nat(vb(len_val::<Value>(n as usize))) == n, len_val::<Value>(n as usize) == bv(le_bytes(n, 32)), val_len(len_val::<Value>(n as usize)) == n,
{
	lemma2_to64_rest();
	lemma_maxes();
	lemma_lawful_value();
	lemma_le_len(n, 32);
	lemma_le_pad(n, 8, 32);
	lemma_le_round(n, 32);
}
/// The root of the list is the ssz root of a list of these.
pub proof fn theorem_list_root<K: CompatibleConstruct>(s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>)
	requires store_wf::<K>(s), list_holds::<K>(s, r, p, v),
	ensures walk(s, r, p) == Some(enc2::<K>(encv::<K>(v, None), v.len())),
{
	let l = walk(s, r, p)->0;
	lemma_len_val(v.len());
	theorem_root::<K>(s, s[l].0, depth_of(v.len()), v);
	let a = encv::<K>(v, None);
	let b = bv(le_bytes(v.len(), 32));
	let t = seq![a, b];
	lemma2_to64();
	lemma_depth_of(1, 2);
	lemma_half(1);
	assert(lo(t, 1) =~= seq![a] && hi(t, 1) =~= seq![b]);
	assert(mroot::<K>(lo(t, 1), 0) == a && mroot::<K>(hi(t, 1), 0) == b);
	assert(mroot::<K>(t, 1) == K::h(a, b));
}
/// Where the item at `i` of a list is.
pub proof fn lemma_item_place<K: CompatibleConstruct>(index: PartialIndex, i: usize, s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>)
	requires list_holds::<K>(s, r, p, v), index.place(s, r) == Place::At(p), p.len() + 1 + depth_of(v.len()) < 64,
	ensures list_at(index, i).place(s, r) == (if i < v.len() { Place::At(p + left1() + bits_be(i as nat, depth_of(v.len()))) } else { Place::Beyond }),
{
	let l = walk(s, r, p)->0;
	lemma_len_val(v.len());
	lemma_walk_split(s, r, p, right1());
	lemma_walk1(s, l);
	lemma_bits_len(i as nat, depth_of(v.len()));
	assert(list_at(index, i).above(s, r) == Place::At(p));
	assert(walk(s, r, p + right1()) == Some(len_val::<Value>(v.len() as usize)));
	assert(list_at(index, i).place(s, r) == list_item(s, r, p, i as nat));
}
/// The paths of what is below `p` and apart there are apart.
proof fn lemma_apart_below(p: Seq<IndexSelection>, a: Seq<IndexSelection>, b: Seq<IndexSelection>)
	requires apart(a, b),
	ensures apart(p + a, p + b),
{
	if is_prefix(p + a, p + b) {
		assert(b.take(a.len() as int) =~= a) by {
			assert forall|i: int| 0 <= i < a.len() implies b[i] == a[i] by {
				assert((p + b)[p.len() + i] == b[i] && (p + a)[p.len() + i] == a[i]);
				assert((p + b).take((p + a).len() as int)[p.len() + i] == (p + a)[p.len() + i]);
			}
		}
	}
	if is_prefix(p + b, p + a) {
		assert(a.take(b.len() as int) =~= b) by {
			assert forall|i: int| 0 <= i < b.len() implies b[i] == a[i] by {
				assert((p + b)[p.len() + i] == b[i] && (p + a)[p.len() + i] == a[i]);
				assert((p + a).take((p + b).len() as int)[p.len() + i] == (p + b)[p.len() + i]);
			}
		}
	}
}
/// A frame seen from below.
proof fn lemma_framed_below(p: Seq<IndexSelection>, a: Seq<IndexSelection>, s: Store, r: Value, s1: Store, r1: Value)
	requires framed(p + a, s, r, s1, r1), walk(s, r, p) is Some,
	ensures walk(s1, r1, p) is Some, framed(a, s, walk(s, r, p)->0, s1, walk(s1, r1, p)->0),
{
	lemma_prefix_plus(p, a);
	assert(walk(s1, r1, p) is Some);
	let (k, k1) = (walk(s, r, p)->0, walk(s1, r1, p)->0);
	assert forall|q: Seq<IndexSelection>| is_prefix(q, a) && walk(s, k, q) is Some implies #[trigger] walk(s1, k1, q) is Some by {
		lemma_walk_split(s, r, p, q);
		lemma_walk_split(s1, r1, p, q);
		assert((p + a).take((p + q).len() as int) =~= p + a.take(q.len() as int));
		assert(is_prefix(p + q, p + a));
		assert(walk(s1, r1, p + q) is Some);
	}
	assert forall|q: Seq<IndexSelection>| apart(a, q) && walk(s, k, q) is Some implies #[trigger] walk(s1, k1, q) == walk(s, k, q) by {
		lemma_walk_split(s, r, p, q);
		lemma_walk_split(s1, r1, p, q);
		lemma_apart_below(p, a, q);
		assert(walk(s1, r1, p + q) == walk(s, r, p + q));
	}
}
/// One item of a stored tree changed.
proof fn lemma_tree_at<K: CompatibleConstruct>(s: Store, k: Value, d: nat, v: Seq<Value>, i: nat, s1: Store, k1: Value, x: Value)
	requires
		store_wf::<K>(s), store_wf::<K>(s1), tree_ok::<K>(s, k, d, v), i < v.len(),
		framed(bits_be(i, d), s, k, s1, k1), walk(s1, k1, bits_be(i, d)) == Some(x),
	ensures tree_ok::<K>(s1, k1, d, v.update(i as int, x)),
	decreases d,
{
	let w = v.update(i as int, x);
	if d == 0 {
		lemma2_to64();
		assert(bits_be(i, d) =~= Seq::empty());
	} else {
		lemma_bits_first(i, d);
		lemma_cut(v, d);
		lemma_half(d);
		let b = bits_be(i, d);
		let e = (d - 1) as nat;
		assert(s.contains_key(k));
		assert(s1.contains_key(k1));
		lemma_walk1(s, k);
		lemma_walk1(s1, k1);
		if i < half(d) {
			let t = bits_be(i, e);
			assert(b =~= left1() + t);
			assert(right1()[0] == IndexSelection::Right);
			assert(apart(b, right1())) by {
				if is_prefix(b, right1()) { assert(right1().take(b.len() as int)[0] == b[0]); }
				if is_prefix(right1(), b) { assert(b.take(1)[0] == b[0]); }
			}
			theorem_others_untouched(b, right1(), s, k, s1, k1);
			assert(walk(s1, k1, right1()) == walk(s, k, right1()));
			lemma_framed_below(left1(), t, s, k, s1, k1);
			lemma_walk_split(s1, k1, left1(), t);
			lemma_tree_at::<K>(s, s[k].0, e, lo(v, d), i, s1, s1[k1].0, x);
			lemma_tree_kept::<K>(s, s1, s[k].1, e, hi(v, d));
			assert(lo(w, d) =~= lo(v, d).update(i as int, x));
			assert(hi(w, d) =~= hi(v, d));
		} else {
			let j = (i - half(d)) as nat;
			let t = bits_be(j, e);
			assert(b =~= right1() + t);
			assert(left1()[0] == IndexSelection::Left);
			assert(apart(b, left1())) by {
				if is_prefix(b, left1()) { assert(left1().take(b.len() as int)[0] == b[0]); }
				if is_prefix(left1(), b) { assert(b.take(1)[0] == b[0]); }
			}
			theorem_others_untouched(b, left1(), s, k, s1, k1);
			assert(walk(s1, k1, left1()) == walk(s, k, left1()));
			lemma_framed_below(right1(), t, s, k, s1, k1);
			lemma_walk_split(s1, k1, right1(), t);
			lemma_tree_at::<K>(s, s[k].1, e, hi(v, d), j, s1, s1[k1].1, x);
			lemma_tree_kept::<K>(s, s1, s[k].0, e, lo(v, d));
			assert(lo(w, d) =~= lo(v, d));
			assert(hi(w, d) =~= hi(v, d).update(j as int, x));
		}
	}
}
/// One item of a list changed.
pub proof fn lemma_list_at<K: CompatibleConstruct>(s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>, i: nat, s1: Store, r1: Value) -> (x: Value)
	requires
		store_wf::<K>(s), store_wf::<K>(s1), list_holds::<K>(s, r, p, v), i < v.len(),
		framed(p + left1() + bits_be(i, depth_of(v.len())), s, r, s1, r1),
	ensures
		walk(s1, r1, p + left1() + bits_be(i, depth_of(v.len()))) == Some(x),
		list_holds::<K>(s1, r1, p, v.update(i as int, x)),
{
	let l = walk(s, r, p)->0;
	let d = depth_of(v.len());
	let b = bits_be(i, d);
	assert(p + left1() + b =~= p + (left1() + b));
	lemma_framed_below(p, left1() + b, s, r, s1, r1);
	let l1 = walk(s1, r1, p)->0;
	lemma_walk1(s, l);
	lemma_walk1(s1, l1);
	assert(right1()[0] == IndexSelection::Right && (left1() + b)[0] == IndexSelection::Left);
	assert(apart(left1() + b, right1())) by {
		if is_prefix(left1() + b, right1()) { assert(right1().take((left1() + b).len() as int)[0] == (left1() + b)[0]); }
		if is_prefix(right1(), left1() + b) { assert((left1() + b).take(1)[0] == (left1() + b)[0]); }
	}
	assert(walk(s1, l1, right1()) == walk(s, l, right1()));
	lemma_framed_below(left1(), b, s, l, s1, l1);
	// the item itself is still there
	lemma_tree_get::<K>(s, s[l].0, d, v, i);
	lemma_prefix_plus(b, b);
	assert(walk(s1, s1[l1].0, b) is Some);
	let x = walk(s1, s1[l1].0, b)->0;
	lemma_walk_split(s1, l1, left1(), b);
	lemma_walk_split(s1, r1, p, left1() + b);
	lemma_tree_at::<K>(s, s[l].0, d, v, i, s1, s1[l1].0, x);
	x
}

/// What flushing item `e` of the list at `index` did: the item was `x` before and `y` after.
pub open spec fn item_done<V: PartialItem, K: CompatibleConstruct>(e: V, at: PartialIndex, dangling: bool, path: Seq<IndexSelection>, x: Value, y: Value) -> bool {
	exists|a: DbView<K>, ra: Value, b: DbView<K>, rb: Value| #[trigger] e.flushed::<K>(dangling, a, ra, b, rb)
		&& a.wf() && b.wf() && b.same_flags(a) && a.retains && (!dangling ==> a.holds(ra))
		&& at.place(a.store, ra) == Place::At(path)
		&& walk(a.store, ra, path) == Some(x) && walk(b.store, rb, path) == Some(y)
}
/// Item `e` is past the end of the list, and flushed nothing.
pub open spec fn item_void<V: PartialItem, K: CompatibleConstruct>(e: V, at: PartialIndex, dangling: bool) -> bool {
	exists|a: DbView<K>, ra: Value| #[trigger] e.flushed::<K>(dangling, a, ra, a, ra) && a.wf() && a.retains && at.place(a.store, ra) == Place::Beyond
}
/// What flushing these items in turn did to the list at `p`.
pub open spec fn turn_done<V: PartialItem, K: CompatibleConstruct>(es: Seq<(usize, V)>, index: PartialIndex, dangling: bool, p: Seq<IndexSelection>, v: Seq<Value>, w: Seq<Value>) -> bool {
	&&& w.len() == v.len()
	&&& forall|i: int| 0 <= i < v.len() && (forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).0 != i) ==> #[trigger] w[i] == v[i]
	&&& forall|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 < v.len() ==>
		item_done::<V, K>(es[j].1, list_at(index, es[j].0), dangling, p + left1() + bits_be(es[j].0 as nat, depth_of(v.len())), v[es[j].0 as int], w[es[j].0 as int])
	&&& forall|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 >= v.len() ==> item_void::<V, K>(es[j].1, list_at(index, es[j].0), dangling)
}
proof fn lemma_turn_done<V: PartialItem, K: CompatibleConstruct>(es: Seq<(usize, V)>, index: PartialIndex, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v: Seq<Value>) -> (w: Seq<Value>)
	requires
		in_turn::<V, K>(es, dangling, d0, r0, d1, r1), d0.wf(), d1.wf(), d1.same_flags(d0), !dangling ==> d0.holds(r0), d0.retains,
		forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1.okp() && es[i].1.bound_to(list_at(index, es[i].0)),
		forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0,
		index.place(d0.store, r0) == Place::At(p), list_holds::<K>(d0.store, r0, p, v), p.len() + 1 + depth_of(v.len()) < 64,
	ensures
		list_holds::<K>(d1.store, r1, p, w), index.place(d1.store, r1) == Place::At(p),
		turn_done::<V, K>(es, index, dangling, p, v, w),
	decreases es.len(),
{
	if es.len() == 0 { v } else {
		let (dm, rm) = choose|dm: DbView<K>, rm: Value| in_turn::<V, K>(es.drop_last(), dangling, d0, r0, dm, rm)
			&& dm.wf() && dm.same_flags(d0) && #[trigger] es.last().1.flushed::<K>(dangling, dm, rm, d1, r1);
		let n = (es.len() - 1) as int;
		let f = es.drop_last();
		assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).1.okp() && f[i].1.bound_to(list_at(index, f[i].0)) by { assert(es[i].1.okp()); }
		assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 != (#[trigger] f[j]).0 by { assert(es[i].0 != es[j].0); }
		let u = lemma_turn_done::<V, K>(f, index, dangling, d0, r0, dm, rm, p, v);
		lemma_turn_moves::<V, K>(f, dangling, d0, r0, dm, rm);
		let e = es[n];
		let at = list_at(index, e.0);
		let q = p + left1() + bits_be(e.0 as nat, depth_of(v.len()));
		e.1.flush_local::<K>(at, dangling, dm, rm, d1, r1);
		lemma_item_place::<K>(index, e.0, dm.store, rm, p, u);
		if e.0 < v.len() {
			let x = lemma_list_at::<K>(dm.store, rm, p, u, e.0 as nat, d1.store, r1);
			let w = u.update(e.0 as int, x);
			lemma_list_get::<K>(dm.store, rm, p, u, e.0 as nat);
			lemma_prefix_plus(p, left1() + bits_be(e.0 as nat, depth_of(v.len())));
			lemma_prefix_plus(p, p);
			assert(q =~= p + (left1() + bits_be(e.0 as nat, depth_of(v.len()))));
			lemma_framed_wider(p, q, dm.store, rm, d1.store, r1);
			lemma_place_stable(index, dm.store, rm, d1.store, r1, p, p);
			assert(forall|j: int| 0 <= j < n ==> (#[trigger] es[j]).0 != e.0 && f[j] == es[j]);
			assert(u[e.0 as int] == v[e.0 as int]) by { assert(forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).0 != e.0); }
			assert(item_done::<V, K>(e.1, at, dangling, q, v[e.0 as int], w[e.0 as int]));
			assert forall|i: int| 0 <= i < v.len() && (forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).0 != i) implies #[trigger] w[i] == v[i] by {
				assert(es[n].0 != i);
				assert forall|j: int| 0 <= j < f.len() implies (#[trigger] f[j]).0 != i by { assert(es[j].0 != i); }
				assert(u[i] == v[i]);
			}
			assert forall|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 < v.len() implies
				item_done::<V, K>(es[j].1, list_at(index, es[j].0), dangling, p + left1() + bits_be(es[j].0 as nat, depth_of(v.len())), v[es[j].0 as int], w[es[j].0 as int]) by {
				if j < n { assert(f[j] == es[j]); assert(es[j].0 != es[n].0); }
			}
			assert forall|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 >= v.len() implies item_void::<V, K>(es[j].1, list_at(index, es[j].0), dangling) by {
				if j < n { assert(f[j] == es[j]); }
			}
			w
		} else {
			assert(d1 == dm && r1 == rm);
			assert(item_void::<V, K>(e.1, at, dangling));
			assert forall|i: int| 0 <= i < v.len() && (forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).0 != i) implies #[trigger] u[i] == v[i] by {
				assert forall|j: int| 0 <= j < f.len() implies (#[trigger] f[j]).0 != i by { assert(es[j].0 != i); }
			}
			assert forall|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 < v.len() implies
				item_done::<V, K>(es[j].1, list_at(index, es[j].0), dangling, p + left1() + bits_be(es[j].0 as nat, depth_of(v.len())), v[es[j].0 as int], u[es[j].0 as int]) by {
				assert(j < n); assert(f[j] == es[j]);
			}
			assert forall|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 >= v.len() implies item_void::<V, K>(es[j].1, list_at(index, es[j].0), dangling) by {
				if j < n { assert(f[j] == es[j]); }
			}
			u
		}
	}
}
proof fn lemma_list_get<K: CompatibleConstruct>(s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>, i: nat)
	requires list_holds::<K>(s, r, p, v), i < v.len(),
	ensures walk(s, r, p + left1() + bits_be(i, depth_of(v.len()))) == Some(v[i as int]),
{
	let l = walk(s, r, p)->0;
	let b = bits_be(i, depth_of(v.len()));
	lemma_tree_get::<K>(s, s[l].0, depth_of(v.len()), v, i);
	lemma_walk1(s, l);
	lemma_walk_split(s, l, left1(), b);
	lemma_walk_split(s, r, p, left1() + b);
	assert(p + left1() + b =~= p + (left1() + b));
}

/// Flushing a list: the elements no item is staged for are untouched, each
/// item is flushed where its element is, an item past the end flushes
/// nothing, and the pushed values follow the elements there were.
pub proof fn theorem_list_flush<T: Partialable + IntoTree, K: CompatibleConstruct>(x: PartialVec<T>, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		x.index.place(d0.store, r0) == Place::At(p), list_holds::<K>(d0.store, r0, p, v), p.len() + 1 + depth_of(v.len()) < 64,
	ensures
		list_holds::<K>(d1.store, r1, p, w + encs::<T, K>(x.pushed@)),
		walk(d1.store, r1, p) == Some(enc2::<K>(encv::<K>(w + encs::<T, K>(x.pushed@), None), v.len() + x.pushed@.len())),
		framed(p, d0.store, r0, d1.store, r1),
		w.len() == v.len(),
		forall|i: usize| i < v.len() && !x.values@.contains_key(i) ==> #[trigger] w[i as int] == v[i as int],
		forall|k: usize| #[trigger] x.values@.contains_key(k) && k < v.len() ==>
			item_done::<T::Value, K>(x.values@[k], list_at(x.index, k), dangling, p + left1() + bits_be(k as nat, depth_of(v.len())), v[k as int], w[k as int]),
		forall|k: usize| #[trigger] x.values@.contains_key(k) && k >= v.len() ==> item_void::<T::Value, K>(x.values@[k], list_at(x.index, k), dangling),
		forall|i: int| 0 <= i < x.pushed@.len() ==> (#[trigger] x.pushed@[i]).fits(),
{
	let (es, dm, rm) = choose|es: Seq<(usize, T::Value)>, dm: DbView<K>, rm: Value| listing(es, x.values@) && #[trigger] in_turn::<T::Value, K>(es, dangling, d0, r0, dm, rm)
		&& dm.wf() && dm.same_flags(d0) && pushes::<T, K>(x.pushed@, x.index, dangling, dm, rm, d1, r1);
	let ps = x.pushed@;
	assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).1.okp() && es[i].1.bound_to(list_at(x.index, es[i].0)) by { assert(x.values@.contains_key(es[i].0)); }
	let w = lemma_turn_done::<T::Value, K>(es, x.index, dangling, d0, r0, dm, rm, p, v);
	lemma_turn_moves::<T::Value, K>(es, dangling, d0, r0, dm, rm);
	x.flush_local::<K>(x.index, dangling, d0, r0, d1, r1);
	assert forall|i: usize| i < v.len() && !x.values@.contains_key(i) implies #[trigger] w[i as int] == v[i as int] by {
		assert forall|j: int| 0 <= j < es.len() implies (#[trigger] es[j]).0 != i by { assert(x.values@.contains_key(es[j].0)); }
	}
	assert forall|k: usize| #[trigger] x.values@.contains_key(k) && k < v.len() implies
			item_done::<T::Value, K>(x.values@[k], list_at(x.index, k), dangling, p + left1() + bits_be(k as nat, depth_of(v.len())), v[k as int], w[k as int]) by {
		let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 == k;
		assert(x.values@[es[j].0] == es[j].1);
	}
	assert forall|k: usize| #[trigger] x.values@.contains_key(k) && k >= v.len() implies item_void::<T::Value, K>(x.values@[k], list_at(x.index, k), dangling) by {
		let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]).0 == k;
		assert(x.values@[es[j].0] == es[j].1);
	}
	let all = w + encs::<T, K>(ps);
	if ps.len() > 0 {
		let l = walk(dm.store, rm, p)->0;
		let (dp, l1) = choose|dp: DbView<K>, l1: Value| #[trigger] appended::<T, K>(ps, dm, l, dp, l1) && set_post::<K>(dangling, dp, rm, p, l1, d1, r1);
		lemma_len_val(w.len());
		assert(tree_ok::<K>(dm.store, dm.store[l].0, depth_of(w.len()), w));
		assert(tree_ok::<K>(dp.store, dp.store[l1].0, depth_of(all.len()), all));
		lemma_rebase(dangling, dm, l, dp, l1, rm);
		lemma_set_keeps::<K>(dangling, dp, rm, p, l1, d1, r1);
		lemma_kept_child(dp.store, d1.store, l1);
		lemma_tree_kept::<K>(dp.store, d1.store, dp.store[l1].0, depth_of(all.len()), all);
	} else { assert(all =~= w); }
	theorem_list_root::<K>(d1.store, r1, p, all);
	w
}

/// Flushing a list of basic values: exactly the staged elements are replaced
/// and the pushed values appended.
pub proof fn theorem_list_values<T: Partialable<Value = PartialValue<T>> + IntoTree, K: CompatibleConstruct>(x: PartialVec<T>, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v: Seq<Value>) -> (w: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), x.okp(), d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		x.index.place(d0.store, r0) == Place::At(p), list_holds::<K>(d0.store, r0, p, v), p.len() + 1 + depth_of(v.len()) < 64,
	ensures
		walk(d1.store, r1, p) == Some(enc2::<K>(encv::<K>(w + encs::<T, K>(x.pushed@), None), v.len() + x.pushed@.len())),
		list_holds::<K>(d1.store, r1, p, w + encs::<T, K>(x.pushed@)),
		w.len() == v.len(),
		forall|i: usize| i < v.len() ==> #[trigger] w[i as int] ==
			(if x.values@.contains_key(i) && x.values@[i].value is Some { (x.values@[i].value->0).enc::<K>() } else { v[i as int] }),
		forall|k: usize| #[trigger] x.values@.contains_key(k) && x.values@[k].value is Some ==> k < v.len(),
{
	let w = theorem_list_flush::<T, K>(x, dangling, d0, r0, d1, r1, p, v);
	assert forall|i: usize| i < v.len() implies #[trigger] w[i as int] ==
			(if x.values@.contains_key(i) && x.values@[i].value is Some { (x.values@[i].value->0).enc::<K>() } else { v[i as int] }) by {
		if x.values@.contains_key(i) {
			let e = x.values@[i];
			let at = list_at(x.index, i);
			let path = p + left1() + bits_be(i as nat, depth_of(v.len()));
			assert(item_done::<T::Value, K>(e, at, dangling, path, v[i as int], w[i as int]));
			let (a, ra, b, rb) = choose|a: DbView<K>, ra: Value, b: DbView<K>, rb: Value| #[trigger] e.flushed::<K>(dangling, a, ra, b, rb)
				&& a.wf() && b.wf() && b.same_flags(a) && a.retains && (!dangling ==> a.holds(ra))
				&& at.place(a.store, ra) == Place::At(path)
				&& walk(a.store, ra, path) == Some(v[i as int]) && walk(b.store, rb, path) == Some(w[i as int]);
			assert(e.bound_to(at));
			theorem_value_flush::<T, K>(e, dangling, a, ra, b, rb);
		}
	}
	assert forall|k: usize| #[trigger] x.values@.contains_key(k) && x.values@[k].value is Some implies k < v.len() by {
		if k >= v.len() {
			let e = x.values@[k];
			let at = list_at(x.index, k);
			assert(item_void::<T::Value, K>(e, at, dangling));
			assert(e.bound_to(at));
		}
	}
	w
}

// ------------------------------------------------------------------ fields

/// Where field `i` of the `n` fields (or items of a vector) at `index` is.
pub open spec fn field_at(index: PartialIndex, i: usize, n: usize) -> PartialIndex { PartialIndex { parent: Some(Box::new(index)), sub: PartialSubIndex::Vector(i, n) } }
/// At `p` there is a structure (or vector) with these fields.
pub open spec fn fields_hold<K: CompatibleConstruct>(s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>) -> bool {
	walk(s, r, p) matches Some(k) && tree_ok::<K>(s, k, depth_of(v.len()), v)
}
/// Each field has its own place, and what is there is the field.
pub proof fn theorem_field_place<K: CompatibleConstruct>(index: PartialIndex, i: usize, s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>)
	requires
		store_wf::<K>(s), index.place(s, r) == Place::At(p), fields_hold::<K>(s, r, p, v), i < v.len() <= pow2(63), p.len() + depth_of(v.len()) < 64,
	ensures
		walk(s, r, p) == Some(encv::<K>(v, None)),
		field_at(index, i, v.len() as usize).place(s, r) == Place::At(p + bits_be(i as nat, depth_of(v.len()))),
		walk(s, r, p + bits_be(i as nat, depth_of(v.len()))) == Some(v[i as int]),
		forall|j: usize| i != j && j < v.len() ==> apart(p + bits_be(i as nat, depth_of(v.len())), p + #[trigger] bits_be(j as nat, depth_of(v.len()))),
{
	let d = depth_of(v.len());
	let k = walk(s, r, p)->0;
	lemma2_to64_rest();
	theorem_root::<K>(s, k, d, v);
	lemma_tree_get::<K>(s, k, d, v, i as nat);
	lemma_walk_split(s, r, p, bits_be(i as nat, d));
	lemma_bits_len(i as nat, d);
	let at = field_at(index, i, v.len() as usize);
	assert(at.above(s, r) == Place::At(p));
	assert(at.place(s, r) == item(p, i as nat, v.len()));
	lemma_depth_exists(63, v.len());
	assert forall|j: usize| i != j && j < v.len() implies apart(p + bits_be(i as nat, d), p + #[trigger] bits_be(j as nat, d)) by {
		lemma_bits_len(j as nat, d);
		let (a, b) = (bits_be(i as nat, d), bits_be(j as nat, d));
		if a == b { lemma_bits_injective(i as nat, j as nat, d); }
		assert(a.take(d as int) =~= a && b.take(d as int) =~= b);
		lemma_apart_below(p, a, b);
	}
}
/// Changing a field gives the root of the structure with that field changed.
pub proof fn theorem_field_changed<K: CompatibleConstruct>(i: usize, s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>, s1: Store, r1: Value) -> (x: Value)
	requires
		store_wf::<K>(s), store_wf::<K>(s1), fields_hold::<K>(s, r, p, v), i < v.len(),
		framed(p + bits_be(i as nat, depth_of(v.len())), s, r, s1, r1),
	ensures
		walk(s1, r1, p + bits_be(i as nat, depth_of(v.len()))) == Some(x),
		fields_hold::<K>(s1, r1, p, v.update(i as int, x)),
		walk(s1, r1, p) == Some(encv::<K>(v.update(i as int, x), None)),
{
	let d = depth_of(v.len());
	let b = bits_be(i as nat, d);
	lemma_framed_below(p, b, s, r, s1, r1);
	let (k, k1) = (walk(s, r, p)->0, walk(s1, r1, p)->0);
	lemma_tree_get::<K>(s, k, d, v, i as nat);
	lemma_prefix_plus(b, b);
	let x = walk(s1, k1, b)->0;
	lemma_walk_split(s1, r1, p, b);
	lemma_tree_at::<K>(s, k, d, v, i as nat, s1, k1, x);
	theorem_root::<K>(s1, k1, d, v.update(i as int, x));
	x
}
/// Setting and flushing a field.
pub proof fn theorem_field_flush<T: IntoTree, K: CompatibleConstruct>(x: PartialValue<T>, index: PartialIndex, i: usize, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v: Seq<Value>)
	requires
		x.flushed::<K>(dangling, d0, r0, d1, r1), d0.wf(), d1.wf(), d1.same_flags(d0), d0.retains, !dangling ==> d0.holds(r0),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v), i < v.len() <= pow2(63), p.len() + depth_of(v.len()) < 64,
		x.index == field_at(index, i, v.len() as usize), x.value is Some,
	ensures
		walk(d1.store, r1, p) == Some(encv::<K>(v.update(i as int, (x.value->0).enc::<K>()), None)),
		fields_hold::<K>(d1.store, r1, p, v.update(i as int, (x.value->0).enc::<K>())),
		index.place(d1.store, r1) == Place::At(p),
{
	theorem_field_place::<K>(index, i, d0.store, r0, p, v);
	theorem_value_flush::<T, K>(x, dangling, d0, r0, d1, r1);
	let e = theorem_field_changed::<K>(i, d0.store, r0, p, v, d1.store, r1);
	let b = bits_be(i as nat, depth_of(v.len()));
	lemma_prefix_plus(p, b);
	lemma_prefix_plus(p, p);
	lemma_framed_wider(p, p + b, d0.store, r0, d1.store, r1);
	lemma_place_stable(index, d0.store, r0, d1.store, r1, p, p);
}
/// Reading a field gives the value that is encoded there.
pub proof fn theorem_read<T: RoundTrip, K: CompatibleConstruct, E>(a: PartialValue<T>, b: PartialValue<T>, res: Result<(), bm::Error<E>>, t: T, s: Store, r: Value, reads_ok: bool)
	requires
		fetched::<T, K, E>(a, b, res, s, r, reads_ok), store_wf::<K>(s), T::limits(),
		a.index.place(s, r) is At, walk(s, r, a.index.place(s, r)->At_0) == Some(t.enc::<K>()),
		t.stored::<K>(s), t.fits(), t.addr(),
	ensures
		res is Ok ==> b.value is Some && t.same(&b.value->0),
		reads_ok ==> res is Ok,
{
	t.complete::<K>(s);
	if res is Ok { t.round::<K>(s, b.value->0); }
}
/// The item at `i` of a list, read or flushed, is the element at `i`; there is none past the end.
pub proof fn theorem_item_place<K: CompatibleConstruct>(index: PartialIndex, i: usize, s: Store, r: Value, p: Seq<IndexSelection>, v: Seq<Value>)
	requires list_holds::<K>(s, r, p, v), index.place(s, r) == Place::At(p), p.len() + 1 + depth_of(v.len()) < 64,
	ensures
		i >= v.len() ==> list_at(index, i).place(s, r) == Place::Beyond,
		i < v.len() ==> list_at(index, i).place(s, r) is At && walk(s, r, list_at(index, i).place(s, r)->At_0) == Some(v[i as int]),
{
	lemma_item_place::<K>(index, i, s, r, p, v);
	if i < v.len() { lemma_list_get::<K>(s, r, p, v, i as nat); }
}

// ------------------------------------------------- structures, field by field

/// A field is below its structure.
pub proof fn lemma_field_below(index: PartialIndex, i: usize, n: usize, s: Store, r: Value)
	ensures
		field_at(index, i, n).place(s, r) is At ==> index.place(s, r) is At && is_prefix(index.place(s, r)->At_0, field_at(index, i, n).place(s, r)->At_0),
{
	if index.place(s, r) is At && field_at(index, i, n).place(s, r) is At {
		lemma_prefix_plus(index.place(s, r)->At_0, bits_be(i as nat, depth_of(n as nat)));
	}
}
/// Flushing one more field affects nothing outside the structure.
pub proof fn lemma_field_local<V: PartialItem, K: CompatibleConstruct>(e: V, index: PartialIndex, i: usize, n: usize, dangling: bool, d0: DbView<K>, r0: Value, dm: DbView<K>, rm: Value, d1: DbView<K>, r1: Value)
	requires
		d0.retains, dm.wf(), dm.same_flags(d0), d1.wf(), d1.same_flags(d0), !dangling ==> dm.holds(rm),
		local(index.place(d0.store, r0), d0, r0, dm, rm),
		e.flushed::<K>(dangling, dm, rm, d1, r1), e.okp(), e.bound_to(field_at(index, i, n)),
	ensures
		local(index.place(d0.store, r0), d0, r0, d1, r1),
{
	let place = index.place(d0.store, r0);
	let at = field_at(index, i, n);
	e.flush_local::<K>(at, dangling, dm, rm, d1, r1);
	if place is At {
		lemma_prefix_plus(place->At_0, place->At_0);
		lemma_place_stable(index, d0.store, r0, dm.store, rm, place->At_0, place->At_0);
		lemma_field_below(index, i, n, dm.store, rm);
		if at.place(dm.store, rm) is At { lemma_framed_wider(place->At_0, at.place(dm.store, rm)->At_0, dm.store, rm, d1.store, r1); }
		lemma_framed_trans(place->At_0, d0.store, r0, dm.store, rm, d1.store, r1);
	}
}
/// Nothing changes when nothing happens.
pub proof fn lemma_local_refl<K: CompatibleConstruct>(place: Place, d: DbView<K>, r: Value)
	ensures local(place, d, r, d, r),
{}
/// Flushing one field changes that field, as flushing it does, and no other.
pub proof fn theorem_field_done<V: PartialItem, K: CompatibleConstruct>(e: V, index: PartialIndex, i: usize, dangling: bool, d0: DbView<K>, r0: Value, d1: DbView<K>, r1: Value, p: Seq<IndexSelection>, v: Seq<Value>) -> (x: Value)
	requires
		d0.retains, d0.wf(), d1.wf(), d1.same_flags(d0), !dangling ==> d0.holds(r0),
		e.flushed::<K>(dangling, d0, r0, d1, r1), e.okp(), e.bound_to(field_at(index, i, v.len() as usize)),
		index.place(d0.store, r0) == Place::At(p), fields_hold::<K>(d0.store, r0, p, v), i < v.len() <= pow2(63), p.len() + depth_of(v.len()) < 64,
	ensures
		index.place(d1.store, r1) == Place::At(p),
		fields_hold::<K>(d1.store, r1, p, v.update(i as int, x)),
		walk(d1.store, r1, p) == Some(encv::<K>(v.update(i as int, x), None)),
		item_done::<V, K>(e, field_at(index, i, v.len() as usize), dangling, p + bits_be(i as nat, depth_of(v.len())), v[i as int], x),
		!dangling ==> d1.holds(r1),
{
	let at = field_at(index, i, v.len() as usize);
	let b = bits_be(i as nat, depth_of(v.len()));
	theorem_field_place::<K>(index, i, d0.store, r0, p, v);
	e.flush_local::<K>(at, dangling, d0, r0, d1, r1);
	e.flush_moves::<K>(dangling, d0, r0, d1, r1);
	let x = theorem_field_changed::<K>(i, d0.store, r0, p, v, d1.store, r1);
	lemma_prefix_plus(p, b);
	lemma_prefix_plus(p, p);
	lemma_framed_wider(p, p + b, d0.store, r0, d1.store, r1);
	lemma_place_stable(index, d0.store, r0, d1.store, r1, p, p);
	x
}
/// What flushing a basic field did to it.
pub proof fn theorem_value_done<T: IntoTree, K: CompatibleConstruct>(e: PartialValue<T>, dangling: bool, path: Seq<IndexSelection>, x: Value, y: Value)
	requires item_done::<PartialValue<T>, K>(e, e.index, dangling, path, x, y),
	ensures y == (match e.value { Some(v) => v.enc::<K>(), None => x }),
{
	let (a, ra, b, rb) = choose|a: DbView<K>, ra: Value, b: DbView<K>, rb: Value| #[trigger] e.flushed::<K>(dangling, a, ra, b, rb)
		&& a.wf() && b.wf() && b.same_flags(a) && a.retains && (!dangling ==> a.holds(ra))
		&& e.index.place(a.store, ra) == Place::At(path)
		&& walk(a.store, ra, path) == Some(x) && walk(b.store, rb, path) == Some(y);
	theorem_value_flush::<T, K>(e, dangling, a, ra, b, rb);
}

} // verus!
