//! What the in-memory backend's invariant means: nothing that is referred to
//! is missing, and nothing is kept that is not referred to.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::set_lib::*;
use crate::model::*;
use crate::index::*;
use crate::traits::*;
use crate::mem_model::*;
use crate::raw_thm::*;
verus! {
broadcast use group_value;

/// Every entry refers to entries: no reachable node is missing.
pub proof fn theorem_closed<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value, p: Seq<IndexSelection>)
	requires mem_inv::<C>(m), m.contains_key(k), walk(store_of(m), k, p) is Some,
	ensures m.contains_key(walk(store_of(m), k, p)->0),
	decreases p.len(),
{
	if p.len() > 0 {
		reveal(inv);
		theorem_closed::<C>(m, pick(store_of(m)[k], p[0]), p.drop_first());
	}
}

/// Outside references, pinned entries, and entries nothing ever referred to.
pub open spec fn is_source<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value) -> bool {
	pinned(m, k) || zero(m, k) || rc(m, Set::empty(), Set::empty(), k) > 0
}
pub open spec fn reaches<V>(s: Map<V, (V, V)>, r: V, k: V) -> bool {
	exists|p: Seq<IndexSelection>| #[trigger] walk(s, r, p) == Some(k)
}
/// Children have a smaller rank (nodes are hashes: the graph has no cycle).
pub open spec fn ranked<V>(s: Map<V, (V, V)>, rank: spec_fn(V) -> nat) -> bool {
	forall|k: V| #[trigger] s.contains_key(k) ==> rank(s[k].0) < rank(k) && rank(s[k].1) < rank(k)
}

proof fn lemma_bound<V>(s: Set<V>, rank: spec_fn(V) -> nat) -> (b: nat)
	ensures forall|k: V| #[trigger] s.contains(k) ==> rank(k) < b,
	decreases s.len(),
{
	if s.len() == 0 {
		assert(s =~= Set::empty());
		0
	} else {
		let x = s.choose();
		assert(s.contains(x));
		let b = lemma_bound(s.remove(x), rank);
		let r = if b > rank(x) { b } else { rank(x) + 1 };
		assert forall|k: V| #[trigger] s.contains(k) implies rank(k) < r by {
			if k != x { assert(s.remove(x).contains(k)); }
		}
		r
	}
}

/// An entry that is not a source has a parent.
proof fn lemma_parent<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value) -> (q: C::Value)
	requires mem_inv::<C>(m), m.contains_key(k), !is_source::<C>(m, k),
	ensures store_of(m).contains_key(q), store_of(m)[q].0 == k || store_of(m)[q].1 == k,
{
	reveal(inv);
	assert(counted(m, k));
	assert(slots(m, Set::empty(), Set::empty(), k) > 0);
	let l = lset(m, Set::empty(), k);
	let r = rset(m, Set::empty(), k);
	if l.len() > 0 {
		let q = l.choose();
		assert(l.contains(q)) by { if !exists|x: C::Value| l.contains(x) { assert(l =~= Set::empty()); } }
		assert(store_of(m).contains_key(q));
		q
	} else {
		let q = r.choose();
		assert(r.contains(q)) by { if !exists|x: C::Value| r.contains(x) { assert(r =~= Set::empty()); } }
		assert(store_of(m).contains_key(q));
		q
	}
}

proof fn lemma_live<C: Construct>(m: Map<C::Value, Ent<C::Value>>, rank: spec_fn(C::Value) -> nat, b: nat, k: C::Value) -> (r: C::Value)
	requires
		mem_inv::<C>(m), m.contains_key(k), ranked(store_of(m), rank),
		forall|x: C::Value| #[trigger] m.dom().contains(x) ==> rank(x) < b,
	ensures m.contains_key(r), is_source::<C>(m, r), reaches(store_of(m), r, k),
	decreases b - rank(k),
{
	let s = store_of(m);
	assert(m.dom().contains(k));
	if is_source::<C>(m, k) {
		assert(walk(s, k, Seq::<IndexSelection>::empty()) == Some(k));
		k
	} else {
		let q = lemma_parent::<C>(m, k);
		assert(m.contains_key(q));
		assert(m.dom().contains(q));
		let r = lemma_live::<C>(m, rank, b, q);
		let p = choose|p: Seq<IndexSelection>| #[trigger] walk(s, r, p) == Some(q);
		let sel = if s[q].0 == k { IndexSelection::Left } else { IndexSelection::Right };
		let one = seq![sel];
		lemma_walk_split(s, r, p, one);
		assert(one.drop_first() =~= Seq::<IndexSelection>::empty());
		assert(walk(s, pick(s[q], sel), one.drop_first()) == Some(k));
		assert(walk(s, q, one) == Some(k));
		assert(walk(s, r, p + one) == Some(k));
		r
	}
}

/// No garbage: every entry is reachable from a source.
pub proof fn theorem_no_garbage<C: Construct>(m: Map<C::Value, Ent<C::Value>>, rank: spec_fn(C::Value) -> nat, k: C::Value)
	requires mem_inv::<C>(m), m.contains_key(k), ranked(store_of(m), rank),
	ensures exists|r: C::Value| #[trigger] m.contains_key(r) && is_source::<C>(m, r) && reaches(store_of(m), r, k),
{
	let b = lemma_bound(m.dom(), rank);
	let r = lemma_live::<C>(m, rank, b, k);
}

/// With all roots released, only what is reachable from pinned entries is
/// left; where only the default value is pinned, nothing but it.
pub proof fn theorem_reclaimed<C: Construct>(m: Map<C::Value, Ent<C::Value>>, rank: spec_fn(C::Value) -> nat)
	requires
		mem_inv::<C>(m), ranked(store_of(m), rank),
		forall|k: C::Value| !#[trigger] zero(m, k),
		forall|k: C::Value| #[trigger] rc(m, Set::empty(), Set::empty(), k) <= 0,
		forall|k: C::Value| #[trigger] pinned(m, k) ==> k == dflt::<C::Value>(),
	ensures
		m =~= map![dflt::<C::Value>() => (None::<(C::Value, C::Value)>, None::<usize>)],
{
	let d = dflt::<C::Value>();
	reveal(inv);
	assert(m.contains_key(d) && m[d].1 is None && m[d].0 is None);
	assert forall|k: C::Value| #[trigger] m.contains_key(k) implies k == d by {
		theorem_no_garbage::<C>(m, rank, k);
		let r = choose|r: C::Value| #[trigger] m.contains_key(r) && is_source::<C>(m, r) && reaches(store_of(m), r, k);
		assert(r == d);
		let p = choose|p: Seq<IndexSelection>| #[trigger] walk(store_of(m), d, p) == Some(k);
		assert(!store_of(m).contains_key(d));
		assert(p.len() == 0);
	}
	assert(m.dom() =~= set![d]);
}

} // verus!
