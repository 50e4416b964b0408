//! Ghost model of trees with their length mixed in.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use crate::model::*;
use crate::index::*;
use crate::traits::*;
use crate::raw_thm::*;
use crate::vec_model::*;
verus! {
broadcast use group_value;

/// Lengths convert to values and back (for the real value types this is C11).
pub open spec fn lawful_len<V: From<usize> + Into<usize>>() -> bool {
	&&& <V as FromSpec<usize>>::obeys_from_spec()
	&&& <V as IntoSpec<usize>>::obeys_into_spec()
	&&& forall|n: usize| val_len::<V>(#[trigger] len_val::<V>(n)) == n
}
pub open spec fn len_val<V: From<usize>>(n: usize) -> V { <V as FromSpec<usize>>::from_spec(n) }
pub open spec fn val_len<V: Into<usize>>(v: V) -> usize { <V as IntoSpec<usize>>::into_spec(v) }

pub open spec fn left1() -> Seq<IndexSelection> { seq![IndexSelection::Left] }
pub open spec fn right1() -> Seq<IndexSelection> { seq![IndexSelection::Right] }

pub proof fn lemma_walk1<V>(s: Map<V, (V, V)>, k: V)
	ensures
		walk(s, k, left1()) == (if s.contains_key(k) { Some(s[k].0) } else { None::<V> }),
		walk(s, k, right1()) == (if s.contains_key(k) { Some(s[k].1) } else { None::<V> }),
{
	assert(left1().drop_first() =~= Seq::empty() && right1().drop_first() =~= Seq::empty());
	assert(left1().len() == 1 && right1().len() == 1);
	if s.contains_key(k) {
		assert(walk(s, s[k].0, left1().drop_first()) == Some(s[k].0));
		assert(walk(s, s[k].1, right1().drop_first()) == Some(s[k].1));
	}
}

pub proof fn lemma_write1<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, x: C::Value)
	ensures
		newroot::<C>(s, k, left1(), x) == C::h(x, cod(s, k).1),
		newroot::<C>(s, k, right1(), x) == C::h(cod(s, k).0, x),
		newstore::<C>(s, k, left1(), x) == s.insert(C::h(x, cod(s, k).1), (x, cod(s, k).1)),
		newstore::<C>(s, k, right1(), x) == s.insert(C::h(cod(s, k).0, x), (cod(s, k).0, x)),
{
	assert(left1().drop_first() =~= Seq::empty() && right1().drop_first() =~= Seq::empty());
	assert(left1().len() == 1 && right1().len() == 1);
	assert(newroot::<C>(s, pick(cod(s, k), left1()[0]), left1().drop_first(), x) == x);
	assert(newroot::<C>(s, pick(cod(s, k), right1()[0]), right1().drop_first(), x) == x);
	assert(newstore::<C>(s, pick(cod(s, k), left1()[0]), left1().drop_first(), x) == s);
	assert(newstore::<C>(s, pick(cod(s, k), right1()[0]), right1().drop_first(), x) == s);
}

/// Item root and length written in turn.
pub proof fn lemma_relink<C: Construct>(dg: bool, d0: DbView<C>, r0: C::Value, ir: C::Value, lv: C::Value, d1: DbView<C>, r1: C::Value, d2: DbView<C>, r2: C::Value)
	requires
		d0.wf(), d1.wf(), d2.wf(), d1.same_flags(d0), d2.same_flags(d1),
		!dg ==> d0.holds(r0),
		set_post::<C>(dg, d0, r0, left1(), ir, d1, r1),
		set_post::<C>(dg, d1, r1, right1(), lv, d2, r2),
	ensures
		d0.retains,
		moved(dg, d0, r0, d2, r2),
		r2 == C::h(ir, lv),
		d2.store.contains_key(r2), d2.store[r2] == (ir, lv),
		kept(d0.store, d2.store, ir),
{
	assert(left1().len() == 1);
	lemma_write1::<C>(d0.store, r0, ir);
	lemma_write1::<C>(d1.store, r1, lv);
	lemma_moved_set(dg, d0, r0, left1(), ir, d1, r1);
	lemma_moved_set(dg, d1, r1, right1(), lv, d2, r2);
	lemma_moved_trans(dg, d0, r0, d1, r1, d2, r2);
	let s1 = newstore::<C>(d0.store, r0, left1(), ir);
	let s2 = newstore::<C>(d1.store, r1, right1(), lv);
	lemma_newstore::<C>(d0.store, r0, left1(), ir);
	lemma_newstore::<C>(d1.store, r1, right1(), lv);
	lemma_kept_child(s1, d1.store, r1);
	lemma_kept_sub(d0.store, s1, ir);
	lemma_kept_trans(d0.store, s1, d1.store, ir);
	assert(cod(d1.store, r1).0 == ir);
	assert(s2.contains_key(r2) && s2[r2] == (ir, lv));
	lemma_kept_child(s2, d2.store, r2);
	lemma_kept_sub(d1.store, s2, ir);
	lemma_kept_trans(d1.store, s2, d2.store, ir);
	lemma_kept_trans(d0.store, d1.store, d2.store, ir);
}

/// A dangling change below, then a relink of the root above it.
pub proof fn lemma_moved_below<C: Construct>(dg: bool, d0: DbView<C>, r0: C::Value, x0: C::Value, dm: DbView<C>, x1: C::Value, d1: DbView<C>, r1: C::Value)
	requires moved(true, d0, x0, dm, x1), moved(dg, dm, r0, d1, r1), d0.retains,
	ensures moved(dg, d0, r0, d1, r1),
{
	if dg { lemma_submap_trans(d0.store, dm.store, d1.store); } else {
		assert(d1.roots =~= d0.with_root(r1, 1).with_root(r0, -1).roots);
		assert forall|q: C::Value| #[trigger] d0.with_root(r0, -1).live(q) implies kept(d0.store, d1.store, q) by {
			assert(dm.with_root(r0, -1).live(q));
			lemma_kept_sub(d0.store, dm.store, q);
			lemma_kept_trans(d0.store, dm.store, d1.store, q);
		}
	}
}

pub proof fn lemma_release_pre<C: Construct>(dg: bool, d0: DbView<C>, d1: DbView<C>, ir: C::Value, d2: DbView<C>, r2: C::Value)
	requires d0.wf(), d1.wf(), d2.wf(), d0.retains, moved(dg, d0, dflt(), d1, ir), moved(false, d1, dflt(), d2, r2),
	ensures !dg ==> d2.holds(ir),
{
	if !dg { assert((d1.roots)(ir) >= 0 && (d0.roots)(ir) >= 0); }
}

/// Giving up one of two references.
pub proof fn lemma_moved_release<C: Construct>(dg: bool, d0: DbView<C>, d1: DbView<C>, ir: C::Value, d2: DbView<C>, r2: C::Value, d3: DbView<C>)
	requires
		d0.wf(), d1.wf(), d2.wf(), d3.wf(), d0.retains,
		moved(dg, d0, dflt(), d1, ir),
		moved(false, d1, dflt(), d2, r2),
		dg ==> d3 == d2,
		!dg ==> d3.same_flags(d2) && collected(d2.with_root(ir, -1), d3),
	ensures moved(false, d0, dflt(), d3, r2), kept(d2.store, d3.store, r2), !dg ==> d2.holds(ir),
{
	assert((d0.pinned)(dflt()));
	if dg {
		assert(d3.roots =~= d0.with_root(r2, 1).with_root(dflt(), -1).roots);
		assert forall|q: C::Value| #[trigger] d0.with_root(dflt(), -1).live(q) implies kept(d0.store, d3.store, q) by {
			lemma_kept_sub(d0.store, d1.store, q);
			assert(d1.with_root(dflt(), -1).live(q));
			lemma_kept_trans(d0.store, d1.store, d3.store, q);
		}
		lemma_kept_sub(d2.store, d3.store, r2);
	} else {
		assert((d0.roots)(ir) >= 0);
		assert((d1.roots)(r2) >= 0 && (d0.roots)(r2) >= 0);
		assert(d3.roots =~= d0.with_root(r2, 1).with_root(dflt(), -1).roots);
		assert(d3.holds(r2));
		assert(d3.live(r2));
		lemma_collected_kept(d2.with_root(ir, -1), d3, r2);
		assert forall|q: C::Value| #[trigger] d0.with_root(dflt(), -1).live(q) implies kept(d0.store, d3.store, q) by {
			assert((d0.roots)(q) >= 0);
			assert(d1.with_root(dflt(), -1).live(q));
			lemma_kept_trans(d0.store, d1.store, d2.store, q);
			assert(d3.live(q));
			lemma_collected_kept(d2.with_root(ir, -1), d3, q);
			lemma_kept_trans(d0.store, d2.store, d3.store, q);
		}
	}
}

pub broadcast proof fn tree_survives<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, t: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>)
	requires store_wf::<C>(s), store_wf::<C>(t), #[trigger] kept(s, t, k), #[trigger] tree_ok::<C>(s, k, d, v),
	ensures tree_ok::<C>(t, k, d, v),
{ lemma_tree_kept::<C>(s, t, k, d, v); }

} // verus!
