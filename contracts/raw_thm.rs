//! Lemmas about walking trees, and the theorems C02/C03 state about reads and writes.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use crate::model::*;
use crate::index::*;
use crate::traits::*;
verus! {
broadcast use group_value;

pub proof fn lemma_walk_mono<V>(a: Map<V, (V, V)>, b: Map<V, (V, V)>, root: V, p: Seq<IndexSelection>)
	requires a.submap_of(b), walk(a, root, p) is Some,
	ensures walk(b, root, p) == walk(a, root, p),
	decreases p.len(),
{
	if p.len() > 0 { lemma_walk_mono(a, b, pick(a[root], p[0]), p.drop_first()); }
}

pub proof fn lemma_walk_split<V>(s: Map<V, (V, V)>, root: V, p: Seq<IndexSelection>, q: Seq<IndexSelection>)
	ensures walk(s, root, p + q) == (match walk(s, root, p) { Some(x) => walk(s, x, q), None => None }),
	decreases p.len(),
{
	if p.len() == 0 { assert(p + q =~= q); } else {
		assert((p + q).drop_first() =~= p.drop_first() + q);
		assert((p + q)[0] == p[0]);
		if s.contains_key(root) { lemma_walk_split(s, pick(s[root], p[0]), p.drop_first(), q); }
	}
}

/// The nodes a write adds; what was known stays, and stays the same.
pub proof fn lemma_newstore<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, p: Seq<IndexSelection>, v: C::Value)
	requires store_wf::<C>(s),
	ensures
		store_wf::<C>(newstore::<C>(s, root, p, v)),
		s.submap_of(newstore::<C>(s, root, p, v)),
		p.len() > 0 ==> newstore::<C>(s, root, p, v).contains_key(newroot::<C>(s, root, p, v)),
		p.len() > 0 ==> newroot::<C>(s, root, p, v) != dflt::<C::Value>(),
	decreases p.len(),
{
	if p.len() > 0 {
		let c = cod(s, root);
		lemma_newstore::<C>(s, pick(c, p[0]), p.drop_first(), v);
	}
}

pub proof fn lemma_newroot_pair<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, p: Seq<IndexSelection>, v: C::Value)
	requires store_wf::<C>(s), p.len() > 0,
	ensures ({
		let c = cod(s, root);
		let ns = newstore::<C>(s, root, p, v);
		let nr = newroot::<C>(s, root, p, v);
		let sub = newroot::<C>(s, pick(c, p[0]), p.drop_first(), v);
		let m = newstore::<C>(s, pick(c, p[0]), p.drop_first(), v);
		&&& ns.contains_key(nr)
		&&& m.submap_of(ns)
		&&& pick(ns[nr], p[0]) == sub
		&&& forall|b: IndexSelection| b != p[0] ==> pick(ns[nr], b) == pick(c, b)
	}),
{
	let c = cod(s, root);
	lemma_newstore::<C>(s, pick(c, p[0]), p.drop_first(), v);
	lemma_newstore::<C>(s, root, p, v);
}

/// Reading the index just written gives the value written.
pub proof fn theorem_read_after_write<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, p: Seq<IndexSelection>, v: C::Value)
	requires store_wf::<C>(s),
	ensures walk(newstore::<C>(s, root, p, v), newroot::<C>(s, root, p, v), p) == Some(v),
	decreases p.len(),
{
	if p.len() > 0 {
		let c = cod(s, root);
		let m = newstore::<C>(s, pick(c, p[0]), p.drop_first(), v);
		let sub = newroot::<C>(s, pick(c, p[0]), p.drop_first(), v);
		theorem_read_after_write::<C>(s, pick(c, p[0]), p.drop_first(), v);
		lemma_newroot_pair::<C>(s, root, p, v);
		lemma_walk_mono(m, newstore::<C>(s, root, p, v), sub, p.drop_first());
	}
}

pub open spec fn is_prefix(a: Seq<IndexSelection>, b: Seq<IndexSelection>) -> bool {
	a.len() <= b.len() && b.take(a.len() as int) == a
}

/// An index that is neither an ancestor nor a descendant of the one written
/// reads what it read; where it was unknown it is still unknown, or it is
/// the sibling of a node of the path that was unknown and reads as default,
/// or it lies below an opaque sibling that the new nodes happen to explain.
pub proof fn theorem_frame<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, p: Seq<IndexSelection>, v: C::Value, q: Seq<IndexSelection>)
	requires store_wf::<C>(s), !is_prefix(p, q), !is_prefix(q, p), walk(s, root, q) is Some,
	ensures walk(newstore::<C>(s, root, p, v), newroot::<C>(s, root, p, v), q) == walk(s, root, q),
	decreases p.len(),
{
	assert(q.len() > 0) by { if q.len() == 0 { assert(p.take(0) =~= q); } }
	assert(p.len() > 0) by { if p.len() == 0 { assert(q.take(0) =~= p); } }
	let c = cod(s, root);
	let ns = newstore::<C>(s, root, p, v);
	let m = newstore::<C>(s, pick(c, p[0]), p.drop_first(), v);
	let sub = newroot::<C>(s, pick(c, p[0]), p.drop_first(), v);
	lemma_newroot_pair::<C>(s, root, p, v);
	lemma_newstore::<C>(s, root, p, v);
	if p[0] == q[0] {
		let (pp, qq) = (p.drop_first(), q.drop_first());
		if is_prefix(pp, qq) { assert(q.take(p.len() as int) =~= p) by {
			assert(forall|i: int| 0 <= i < pp.len() ==> qq.take(pp.len() as int)[i] == pp[i]);
			assert(forall|i: int| 1 <= i < p.len() ==> p[i] == pp[i - 1] && q[i] == qq[i - 1] && qq[i - 1] == qq.take(pp.len() as int)[i - 1]);
		} }
		if is_prefix(qq, pp) { assert(p.take(q.len() as int) =~= q) by {
			assert(forall|i: int| 1 <= i < q.len() ==> q[i] == qq[i - 1] && p[i] == pp[i - 1] && pp[i - 1] == pp.take(qq.len() as int)[i - 1]);
		} }
		theorem_frame::<C>(s, pick(c, p[0]), pp, v, qq);
		lemma_walk_mono(m, ns, sub, qq);
	} else {
		lemma_walk_mono(s, ns, pick(c, q[0]), q.drop_first());
	}
}

/// The sibling of an unknown node on the path is the default value.
pub proof fn theorem_unknown_sibling<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, p: Seq<IndexSelection>, v: C::Value, i: int, q: Seq<IndexSelection>)
	requires store_wf::<C>(s), 0 <= i < p.len(), q.len() == i + 1, q.take(i) == p.take(i), q[i] != p[i],
		walk(s, root, q) is None,
	ensures walk(newstore::<C>(s, root, p, v), newroot::<C>(s, root, p, v), q) == Some(dflt::<C::Value>()),
	decreases p.len(),
{
	let c = cod(s, root);
	let ns = newstore::<C>(s, root, p, v);
	let m = newstore::<C>(s, pick(c, p[0]), p.drop_first(), v);
	let sub = newroot::<C>(s, pick(c, p[0]), p.drop_first(), v);
	lemma_newroot_pair::<C>(s, root, p, v);
	lemma_newstore::<C>(s, root, p, v);
	let (pp, qq) = (p.drop_first(), q.drop_first());
	if i == 0 {
		assert(qq.len() == 0);
		assert(walk(ns, pick(ns[newroot::<C>(s, root, p, v)], q[0]), qq) is Some);
		if s.contains_key(root) { assert(walk(s, pick(s[root], q[0]), qq) is Some); }
	} else {
		assert(q[0] == q.take(i)[0] && p[0] == p.take(i)[0]);
		assert(qq.take(i - 1) =~= pp.take(i - 1)) by {
			assert(forall|j: int| 0 <= j < i - 1 ==> qq[j] == q.take(i)[j + 1] && pp[j] == p.take(i)[j + 1]);
		}
		if s.contains_key(root) {
		} else {
			lemma_dflt_not_stored::<C>(s);
			assert(!s.contains_key(dflt::<C::Value>()));
			assert(pick(c, p[0]) == dflt::<C::Value>());
			assert(qq.len() > 0);
			assert(walk(s, pick(c, p[0]), qq) is None);
		}
		theorem_unknown_sibling::<C>(s, pick(c, p[0]), pp, v, i - 1, qq);
		lemma_walk_mono(m, ns, sub, qq);
	}
}

/// Collection keeps every read of a live tree.
pub proof fn lemma_walk_collected<C: Construct>(old: DbView<C>, new: DbView<C>, root: C::Value, p: Seq<IndexSelection>)
	requires collected(old, new), old.store.contains_key(root) ==> new.store.contains_key(root),
	ensures walk(new.store, root, p) == walk(old.store, root, p),
	decreases p.len(),
{
	if p.len() > 0 && old.store.contains_key(root) {
		lemma_walk_collected(old, new, pick(new.store[root], p[0]), p.drop_first());
	}
}

/// Everything C03 says about one write, from the contract of `Raw::set`.
pub proof fn theorem_set<C: Construct>(dangling: bool, d0: DbView<C>, root0: C::Value, p: Seq<IndexSelection>, v: C::Value, d1: DbView<C>, root1: C::Value)
	requires d0.wf(), d0.retains, set_post::<C>(dangling, d0, root0, p, v, d1, root1), !dangling ==> d0.holds(root0),
	ensures
		walk(d1.store, root1, p) == Some(v),
		forall|q: Seq<IndexSelection>| !is_prefix(p, q) && !is_prefix(q, p) && walk(d0.store, root0, q) is Some ==>
			#[trigger] walk(d1.store, root1, q) == walk(d0.store, root0, q),
		// other trees that are kept alive
		forall|r: C::Value, q: Seq<IndexSelection>| (dangling || d1.live(r)) && walk(d0.store, r, q) is Some ==>
			#[trigger] walk(d1.store, r, q) == walk(d0.store, r, q),
{
	lemma_newstore::<C>(d0.store, root0, p, v);
	let mid = d0.with_store(newstore::<C>(d0.store, root0, p, v));
	let acc = mid.with_root(root1, 1).with_root(root0, -1);
	theorem_read_after_write::<C>(d0.store, root0, p, v);
	if !dangling { lemma_walk_collected(acc, d1, root1, p); }
	assert forall|q: Seq<IndexSelection>| !is_prefix(p, q) && !is_prefix(q, p) && walk(d0.store, root0, q) is Some implies
			#[trigger] walk(d1.store, root1, q) == walk(d0.store, root0, q) by {
		theorem_frame::<C>(d0.store, root0, p, v, q);
		if !dangling { lemma_walk_collected(acc, d1, root1, q); }
	}
	assert forall|r: C::Value, q: Seq<IndexSelection>| (dangling || d1.live(r)) && walk(d0.store, r, q) is Some implies
			#[trigger] walk(d1.store, r, q) == walk(d0.store, r, q) by {
		lemma_walk_mono(d0.store, mid.store, r, q);
		if !dangling { lemma_walk_collected(acc, d1, r, q); }
	}
}

} // verus!
