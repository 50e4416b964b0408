//! Ghost model of the in-memory backend: slot counting.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::set_lib::*;
use core::hash::Hash;
use crate::model::*;
use crate::index::*;
use crate::traits::*;
verus! {
broadcast use group_value;

/// An entry: the children, if known, and the reference count, if counted.
pub type Ent<V> = (Option<(V, V)>, Option<usize>);

/// Node values are lawful hash map keys (their Eq and Hash are derived from the same data).
pub axiom fn axiom_key_model<C: Construct>() where C::Value: Eq + Hash + Ord
	ensures obeys_key_model::<C::Value>();

pub assume_specification<'a, K, V, S, A, Q> [std::collections::HashMap::<K, V, S, A>::get_mut] (m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: std::option::Option<&'a mut V>)
	where
		A: std::alloc::Allocator,
		K: std::cmp::Eq + std::hash::Hash + std::borrow::Borrow<Q>,
		Q: std::marker::MetaSized + std::hash::Hash + std::cmp::Eq + ?Sized,
		S: std::hash::BuildHasher,
	ensures
		obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> (match r {
			None => final(m)@ == old(m)@ && !contains_borrowed_key(old(m)@, k),
			Some(v) => {
				&&& contains_borrowed_key(old(m)@, k)
				&&& maps_borrowed_key_to_value(old(m)@, k, *v)
				&&& final(m)@.dom() == old(m)@.dom()
				&&& maps_borrowed_key_to_value(final(m)@, k, *final(v))
				&&& forall|x: K| #[trigger] old(m)@.contains_key(x) && !maps_borrowed_key_to_value(map![x => old(m)@[x]], k, old(m)@[x]) ==> final(m)@[x] == old(m)@[x]
			}
		});

/// The known inner nodes.
pub open spec fn store_of<V>(m: Map<V, Ent<V>>) -> Map<V, (V, V)> {
	Map::new(m.dom().filter(|k: V| m[k].0 is Some), |k: V| m[k].0->0)
}
pub open spec fn counted<V>(m: Map<V, Ent<V>>, k: V) -> bool { m.contains_key(k) && m[k].1 is Some }
pub open spec fn pinned<V>(m: Map<V, Ent<V>>, k: V) -> bool { m.contains_key(k) && m[k].1 is None }

/// Parents whose left (right) child is `k`, except those whose slot was already released.
pub open spec fn lset<V>(m: Map<V, Ent<V>>, xl: Set<V>, k: V) -> Set<V> {
	m.dom().filter(|p: V| m[p].0 is Some && !xl.contains(p) && (m[p].0->0).0 == k)
}
pub open spec fn rset<V>(m: Map<V, Ent<V>>, xr: Set<V>, k: V) -> Set<V> {
	m.dom().filter(|p: V| m[p].0 is Some && !xr.contains(p) && (m[p].0->0).1 == k)
}
/// Number of child slots that refer to `k`.
pub open spec fn slots<V>(m: Map<V, Ent<V>>, xl: Set<V>, xr: Set<V>, k: V) -> nat {
	lset(m, xl, k).len() + rset(m, xr, k).len()
}
/// Number of references from outside (roots).
pub open spec fn rc<V>(m: Map<V, Ent<V>>, xl: Set<V>, xr: Set<V>, k: V) -> int {
	if counted(m, k) { m[k].1->0 - slots(m, xl, xr, k) } else { 0 }
}

/// The invariant, while the slots of the nodes in `xl` (left) and `xr`
/// (right) are already released but the nodes not yet removed.
#[verifier::opaque]
pub open spec fn inv<C: Construct>(m: Map<C::Value, Ent<C::Value>>, xl: Set<C::Value>, xr: Set<C::Value>) -> bool {
	&&& forall|k: C::Value| #[trigger] m.contains_key(k) ==> {
		&&& m[k].0 is Some ==> k == C::h((m[k].0->0).0, (m[k].0->0).1)
		&&& m[k].0 is Some && !xl.contains(k) ==> m.contains_key((m[k].0->0).0)
		&&& m[k].0 is Some && !xr.contains(k) ==> m.contains_key((m[k].0->0).1)
		&&& m[k].1 is Some ==> m[k].1->0 >= slots(m, xl, xr, k)
	}
	&&& pinned(m, dflt::<C::Value>())
	&&& forall|k: C::Value| xl.contains(k) || xr.contains(k) ==> #[trigger] m.contains_key(k) && m[k].0 is Some && m[k].1 == Some(0usize)
}

/// What releasing one reference to `k` does.
#[verifier::opaque]
pub open spec fn released<V>(m: Map<V, Ent<V>>, m2: Map<V, Ent<V>>, xl: Set<V>, xr: Set<V>, k: V) -> bool {
	&&& forall|q: V| #[trigger] m2.contains_key(q) ==> m.contains_key(q) && m2[q].0 == m[q].0 && (m2[q].1 is None <==> m[q].1 is None)
	&&& forall|q: V| #[trigger] pinned(m, q) ==> m2.contains_key(q)
	&&& forall|q: V| #[trigger] rc(m2, xl, xr, q) == rc(m, xl, xr, q) - (if q == k && counted(m, k) { 1int } else { 0int })
	&&& forall|q: V| xl.contains(q) || xr.contains(q) ==> #[trigger] m2.contains_key(q) && m2[q] == m[q]
	&&& forall|q: V| #[trigger] m2.contains_key(q) && m2[q].1 is Some ==> m2[q].1->0 <= m[q].1->0
	&&& forall|q: V| #[trigger] m2.contains_key(q) && m2[q].1 == Some(0usize) ==> m[q].1 == Some(0usize)
}

/// Entries with a positive count: the measure of `remove`.
pub open spec fn positive<V>(m: Map<V, Ent<V>>) -> Set<V> {
	m.dom().filter(|q: V| m[q].1 is Some && m[q].1->0 > 0)
}

pub proof fn lemma_same_kids<V>(m: Map<V, Ent<V>>, m2: Map<V, Ent<V>>, xl: Set<V>, xr: Set<V>)
	requires m.dom() == m2.dom(), forall|k: V| #[trigger] m.contains_key(k) ==> m2[k].0 == m[k].0,
	ensures forall|k: V| #[trigger] slots(m2, xl, xr, k) == slots(m, xl, xr, k),
{
	assert forall|k: V| #[trigger] slots(m2, xl, xr, k) == slots(m, xl, xr, k) by {
		assert(lset(m2, xl, k) =~= lset(m, xl, k));
		assert(rset(m2, xr, k) =~= rset(m, xr, k));
	}
}

/// Releasing the left slot of `p`.
pub proof fn lemma_release_left<V>(m: Map<V, Ent<V>>, xl: Set<V>, xr: Set<V>, p: V)
	requires m.contains_key(p), m[p].0 is Some, !xl.contains(p),
	ensures forall|k: V| #[trigger] slots(m, xl.insert(p), xr, k) == slots(m, xl, xr, k) - (if k == (m[p].0->0).0 { 1int } else { 0int }),
{
	assert forall|k: V| #[trigger] slots(m, xl.insert(p), xr, k) == slots(m, xl, xr, k) - (if k == (m[p].0->0).0 { 1int } else { 0int }) by {
		if k == (m[p].0->0).0 {
			assert(lset(m, xl.insert(p), k) =~= lset(m, xl, k).remove(p));
			assert(lset(m, xl, k).contains(p));
		} else {
			assert(lset(m, xl.insert(p), k) =~= lset(m, xl, k));
		}
	}
}

pub proof fn lemma_release_right<V>(m: Map<V, Ent<V>>, xl: Set<V>, xr: Set<V>, p: V)
	requires m.contains_key(p), m[p].0 is Some, !xr.contains(p),
	ensures forall|k: V| #[trigger] slots(m, xl, xr.insert(p), k) == slots(m, xl, xr, k) - (if k == (m[p].0->0).1 { 1int } else { 0int }),
{
	assert forall|k: V| #[trigger] slots(m, xl, xr.insert(p), k) == slots(m, xl, xr, k) - (if k == (m[p].0->0).1 { 1int } else { 0int }) by {
		if k == (m[p].0->0).1 {
			assert(rset(m, xr.insert(p), k) =~= rset(m, xr, k).remove(p));
			assert(rset(m, xr, k).contains(p));
		} else {
			assert(rset(m, xr.insert(p), k) =~= rset(m, xr, k));
		}
	}
}

/// Removing an entry all of whose slots are released (or that has none).
pub proof fn lemma_remove_slots<V>(m: Map<V, Ent<V>>, xl: Set<V>, xr: Set<V>, p: V)
	requires m.contains_key(p), !xl.contains(p), !xr.contains(p),
	ensures
		m[p].0 is Some ==> forall|k: V| #[trigger] slots(m.remove(p), xl, xr, k) == slots(m, xl.insert(p), xr.insert(p), k),
		m[p].0 is None ==> forall|k: V| #[trigger] slots(m.remove(p), xl, xr, k) == slots(m, xl, xr, k),
{
	assert forall|k: V| m[p].0 is Some implies #[trigger] slots(m.remove(p), xl, xr, k) == slots(m, xl.insert(p), xr.insert(p), k) by {
		assert(lset(m.remove(p), xl, k) =~= lset(m, xl.insert(p), k));
		assert(rset(m.remove(p), xr, k) =~= rset(m, xr.insert(p), k));
	}
	assert forall|k: V| m[p].0 is None implies #[trigger] slots(m.remove(p), xl, xr, k) == slots(m, xl, xr, k) by {
		assert(lset(m.remove(p), xl, k) =~= lset(m, xl, k));
		assert(rset(m.remove(p), xr, k) =~= rset(m, xr, k));
	}
}

pub proof fn lemma_slot_positive<V>(m: Map<V, Ent<V>>, xl: Set<V>, xr: Set<V>, p: V)
	requires m.contains_key(p), m[p].0 is Some,
	ensures
		!xl.contains(p) ==> slots(m, xl, xr, (m[p].0->0).0) >= 1,
		!xr.contains(p) ==> slots(m, xl, xr, (m[p].0->0).1) >= 1,
{
	if !xl.contains(p) { assert(lset(m, xl, (m[p].0->0).0).contains(p)); lemma_nonempty(lset(m, xl, (m[p].0->0).0), p); }
	if !xr.contains(p) { assert(rset(m, xr, (m[p].0->0).1).contains(p)); lemma_nonempty(rset(m, xr, (m[p].0->0).1), p); }
}

pub proof fn lemma_nonempty<V>(s: Set<V>, x: V)
	requires s.contains(x),
	ensures s.len() >= 1,
{
	assert(s.remove(x).insert(x) =~= s);
	assert(s.remove(x).len() == s.len() - 1);
}

/// Step 1 of `remove`: the count of `k` goes down by one.
pub proof fn lemma_decrement<C: Construct>(m: Map<C::Value, Ent<C::Value>>, m1: Map<C::Value, Ent<C::Value>>, xl: Set<C::Value>, xr: Set<C::Value>, k: C::Value)
	requires inv::<C>(m, xl, xr), counted(m, k), m[k].1->0 >= slots(m, xl, xr, k) + 1,
		m1 == m.insert(k, (m[k].0, Some((m[k].1->0 - 1) as usize))),
	ensures
		inv::<C>(m1, xl, xr),
		!xl.contains(k), !xr.contains(k),
		m1[k].1->0 > 0 ==> released(m, m1, xl, xr, k),
		forall|q: C::Value| #[trigger] rc(m1, xl, xr, q) == rc(m, xl, xr, q) - (if q == k { 1int } else { 0int }),
		positive(m1).subset_of(positive(m)),
		m1[k].1->0 == 0 ==> positive(m1).len() < positive(m).len(),
{
	reveal(inv);
	reveal(released);
	assert(m1.dom() =~= m.dom());
	lemma_same_kids(m, m1, xl, xr);
	assert(forall|q: C::Value| m.contains_key(q) <==> #[trigger] m1.contains_key(q));
	assert forall|q: C::Value| #[trigger] m1.contains_key(q) implies {
		&&& m1[q].0 == m[q].0
		&&& m1[q].0 is Some ==> q == C::h((m1[q].0->0).0, (m1[q].0->0).1)
		&&& m1[q].0 is Some && !xl.contains(q) ==> m1.contains_key((m1[q].0->0).0)
		&&& m1[q].0 is Some && !xr.contains(q) ==> m1.contains_key((m1[q].0->0).1)
		&&& m1[q].1 is Some ==> m1[q].1->0 >= slots(m1, xl, xr, q)
	} by { assert(m.contains_key(q)); }
	assert(pinned(m1, dflt::<C::Value>())) by { assert(m.contains_key(dflt::<C::Value>())); }
	assert forall|q: C::Value| xl.contains(q) || xr.contains(q) implies #[trigger] m1.contains_key(q) && m1[q].0 is Some && m1[q].1 == Some(0usize) by {
		assert(m.contains_key(q));
	}
	if m1[k].1->0 == 0 {
		assert(positive(m1) =~= positive(m).remove(k));
		assert(positive(m).contains(k));
	}
}

/// Step 2 of `remove`: the slots of the dying node `k` are released.
pub proof fn lemma_dying_left<C: Construct>(m: Map<C::Value, Ent<C::Value>>, xl: Set<C::Value>, xr: Set<C::Value>, k: C::Value)
	requires inv::<C>(m, xl, xr), m.contains_key(k), m[k].0 is Some, m[k].1 == Some(0usize), !xl.contains(k),
	ensures ({
		let l = (m[k].0->0).0;
		&&& inv::<C>(m, xl.insert(k), xr)
		&&& counted(m, l) ==> m[l].1->0 >= slots(m, xl.insert(k), xr, l) + 1
		&&& forall|q: C::Value| #[trigger] rc(m, xl.insert(k), xr, q) == rc(m, xl, xr, q) + (if q == l && counted(m, l) { 1int } else { 0int })
	}),
{
	reveal(inv);
	lemma_release_left(m, xl, xr, k);
}

pub proof fn lemma_dying_right<C: Construct>(m: Map<C::Value, Ent<C::Value>>, xl: Set<C::Value>, xr: Set<C::Value>, k: C::Value)
	requires inv::<C>(m, xl, xr), m.contains_key(k), m[k].0 is Some, m[k].1 == Some(0usize), !xr.contains(k),
	ensures ({
		let r = (m[k].0->0).1;
		&&& inv::<C>(m, xl, xr.insert(k))
		&&& counted(m, r) ==> m[r].1->0 >= slots(m, xl, xr.insert(k), r) + 1
		&&& forall|q: C::Value| #[trigger] rc(m, xl, xr.insert(k), q) == rc(m, xl, xr, q) + (if q == r && counted(m, r) { 1int } else { 0int })
	}),
{
	reveal(inv);
	lemma_release_right(m, xl, xr, k);
}

/// Step 3 of `remove`: the dying node goes.
pub proof fn lemma_gone<C: Construct>(m: Map<C::Value, Ent<C::Value>>, xl: Set<C::Value>, xr: Set<C::Value>, k: C::Value)
	requires
		!xl.contains(k), !xr.contains(k),
		m.contains_key(k), m[k].1 == Some(0usize),
		m[k].0 is Some ==> inv::<C>(m, xl.insert(k), xr.insert(k)),
		m[k].0 is None ==> inv::<C>(m, xl, xr),
	ensures
		inv::<C>(m.remove(k), xl, xr),
		m[k].0 is Some ==> forall|q: C::Value| #[trigger] rc(m.remove(k), xl, xr, q) == rc(m, xl.insert(k), xr.insert(k), q),
		m[k].0 is None ==> forall|q: C::Value| #[trigger] rc(m.remove(k), xl, xr, q) == rc(m, xl, xr, q),
{
	reveal(inv);
	let (yl, yr) = if m[k].0 is Some { (xl.insert(k), xr.insert(k)) } else { (xl, xr) };
	let m2 = m.remove(k);
	lemma_remove_slots(m, xl, xr, k);
	assert(slots(m, yl, yr, k) == 0);
	assert forall|p: C::Value| #[trigger] m2.contains_key(p) implies {
		&&& m2[p].0 is Some && !xl.contains(p) ==> m2.contains_key((m2[p].0->0).0)
		&&& m2[p].0 is Some && !xr.contains(p) ==> m2.contains_key((m2[p].0->0).1)
	} by {
		if m[p].0 is Some { lemma_slot_positive(m, yl, yr, p); }
	}
}

// ------------------------------------------------------------ `remove` as a whole

/// One reference to `k` may be released.
pub open spec fn rem_pre<C: Construct>(m: Map<C::Value, Ent<C::Value>>, xl: Set<C::Value>, xr: Set<C::Value>, k: C::Value) -> bool {
	inv::<C>(m, xl, xr) && (counted(m, k) ==> m[k].1->0 >= slots(m, xl, xr, k) + 1)
}
#[verifier::opaque]
pub open spec fn rem_ok<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value) -> bool {
	exists|xl: Set<C::Value>, xr: Set<C::Value>| #[trigger] rem_pre::<C>(m, xl, xr, k)
}
/// The contract of `remove`, for every set of nodes being removed further up.
#[verifier::opaque]
pub open spec fn rem_post<C: Construct>(m: Map<C::Value, Ent<C::Value>>, m2: Map<C::Value, Ent<C::Value>>, k: C::Value) -> bool {
	forall|xl: Set<C::Value>, xr: Set<C::Value>| #[trigger] rem_pre::<C>(m, xl, xr, k) ==> inv::<C>(m2, xl, xr) && released(m, m2, xl, xr, k)
}

pub open spec fn decr<V>(m: Map<V, Ent<V>>, k: V) -> Map<V, Ent<V>> {
	m.insert(k, (m[k].0, match m[k].1 { Some(c) => Some((c - 1) as usize), None => None }))
}

/// An absent or pinned key, or one that keeps other references.
pub proof fn lemma_rem_keep<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value)
	ensures
		!m.contains_key(k) ==> rem_post::<C>(m, m, k),
		pinned(m, k) ==> rem_post::<C>(m, decr(m, k), k),
		counted(m, k) && m[k].1->0 > 1 ==> rem_post::<C>(m, decr(m, k), k),
{
	reveal(rem_post);
	reveal(inv);
	assert forall|xl: Set<C::Value>, xr: Set<C::Value>| #[trigger] rem_pre::<C>(m, xl, xr, k) && counted(m, k) && m[k].1->0 > 1 implies
		inv::<C>(decr(m, k), xl, xr) && released(m, decr(m, k), xl, xr, k) by {
		lemma_decrement::<C>(m, decr(m, k), xl, xr, k);
	}
	reveal(released);
	if pinned(m, k) { assert(decr(m, k) =~= m); }
}

pub proof fn lemma_rem_start<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value)
	requires rem_ok::<C>(m, k), counted(m, k),
	ensures
		m[k].1->0 >= 1,
		m[k].1->0 == 1 ==> positive(decr(m, k)).len() < positive(m).len(),
		m[k].1->0 == 1 && m[k].0 is Some ==> rem_ok::<C>(decr(m, k), (m[k].0->0).0),
{
	reveal(rem_ok);
	let (xl, xr) = choose|xl: Set<C::Value>, xr: Set<C::Value>| #[trigger] rem_pre::<C>(m, xl, xr, k);
	lemma_decrement::<C>(m, decr(m, k), xl, xr, k);
	if m[k].1->0 == 1 && m[k].0 is Some {
		lemma_dying_left::<C>(decr(m, k), xl, xr, k);
		assert(rem_pre::<C>(decr(m, k), xl.insert(k), xr, (m[k].0->0).0));
	}
}

pub proof fn lemma_rem_mid<C: Construct>(m: Map<C::Value, Ent<C::Value>>, m2: Map<C::Value, Ent<C::Value>>, k: C::Value)
	requires rem_ok::<C>(m, k), counted(m, k), m[k].1->0 == 1, m[k].0 is Some, rem_post::<C>(decr(m, k), m2, (m[k].0->0).0),
	ensures
		rem_ok::<C>(m2, (m[k].0->0).1),
		positive(m2).len() < positive(m).len(),
{
	reveal(rem_ok);
	reveal(rem_post);
	let (xl, xr) = choose|xl: Set<C::Value>, xr: Set<C::Value>| #[trigger] rem_pre::<C>(m, xl, xr, k);
	let m1 = decr(m, k);
	lemma_decrement::<C>(m, m1, xl, xr, k);
	lemma_dying_left::<C>(m1, xl, xr, k);
	assert(rem_pre::<C>(m1, xl.insert(k), xr, (m[k].0->0).0));
	assert(m2.contains_key(k) && m2[k] == m1[k] && positive(m2).subset_of(positive(m1))) by {
		reveal(released);
		assert(xl.insert(k).contains(k));
	}
	lemma_len_subset(positive(m2), positive(m1));
	lemma_dying_right::<C>(m2, xl.insert(k), xr, k);
	assert(rem_pre::<C>(m2, xl.insert(k), xr.insert(k), (m[k].0->0).1));
}

pub proof fn lemma_rem_leaf<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value)
	requires counted(m, k), m[k].1->0 == 1, m[k].0 is None,
	ensures rem_post::<C>(m, decr(m, k).remove(k), k),
{
	reveal(rem_post);
	let m1 = decr(m, k);
	assert forall|xl: Set<C::Value>, xr: Set<C::Value>| #[trigger] rem_pre::<C>(m, xl, xr, k) implies
		inv::<C>(m1.remove(k), xl, xr) && released(m, m1.remove(k), xl, xr, k) by {
		lemma_decrement::<C>(m, m1, xl, xr, k);
		lemma_gone::<C>(m1, xl, xr, k);
		reveal(released);
		reveal(inv);
	}
}

pub proof fn lemma_rem_node<C: Construct>(m: Map<C::Value, Ent<C::Value>>, m2: Map<C::Value, Ent<C::Value>>, m3: Map<C::Value, Ent<C::Value>>, k: C::Value)
	requires counted(m, k), m[k].1->0 == 1, m[k].0 is Some,
		rem_post::<C>(decr(m, k), m2, (m[k].0->0).0),
		rem_post::<C>(m2, m3, (m[k].0->0).1),
	ensures rem_post::<C>(m, m3.remove(k), k),
{
	let m1 = decr(m, k);
	let (l, r) = m[k].0->0;
	assert forall|xl: Set<C::Value>, xr: Set<C::Value>| #[trigger] rem_pre::<C>(m, xl, xr, k) implies
		inv::<C>(m3.remove(k), xl, xr) && released(m, m3.remove(k), xl, xr, k) by {
		reveal(rem_post);
		lemma_decrement::<C>(m, m1, xl, xr, k);
		lemma_dying_left::<C>(m1, xl, xr, k);
		assert(rem_pre::<C>(m1, xl.insert(k), xr, l));
		assert(inv::<C>(m2, xl.insert(k), xr));
		assert(m2.contains_key(k) && m2[k] == m1[k]) by { reveal(released); assert(xl.insert(k).contains(k)); }
		lemma_dying_right::<C>(m2, xl.insert(k), xr, k);
		assert(rem_pre::<C>(m2, xl.insert(k), xr.insert(k), r));
		assert(inv::<C>(m3, xl.insert(k), xr.insert(k)));
		assert(m3.contains_key(k) && m3[k] == m1[k]) by { reveal(released); assert(xr.insert(k).contains(k)); }
		lemma_gone::<C>(m3, xl, xr, k);
		lemma_rem_released::<C>(m, m1, m2, m3, xl, xr, k);
	}
	reveal(rem_post);
}

pub proof fn lemma_rem_released<C: Construct>(m: Map<C::Value, Ent<C::Value>>, m1: Map<C::Value, Ent<C::Value>>, m2: Map<C::Value, Ent<C::Value>>, m3: Map<C::Value, Ent<C::Value>>, xl: Set<C::Value>, xr: Set<C::Value>, k: C::Value)
	requires
		counted(m, k), m[k].1->0 == 1, m[k].0 is Some, m1 == decr(m, k), !xl.contains(k), !xr.contains(k),
		inv::<C>(m, xl, xr), inv::<C>(m1, xl, xr), inv::<C>(m2, xl.insert(k), xr),
		m2.contains_key(k), m3.contains_key(k), m2[k] == m1[k], m3[k] == m1[k],
		forall|q: C::Value| #[trigger] rc(m1, xl, xr, q) == rc(m, xl, xr, q) - (if q == k { 1int } else { 0int }),
		forall|q: C::Value| #[trigger] rc(m1, xl.insert(k), xr, q) == rc(m1, xl, xr, q) + (if q == (m[k].0->0).0 && counted(m1, (m[k].0->0).0) { 1int } else { 0int }),
		released(m1, m2, xl.insert(k), xr, (m[k].0->0).0),
		forall|q: C::Value| #[trigger] rc(m2, xl.insert(k), xr.insert(k), q) == rc(m2, xl.insert(k), xr, q) + (if q == (m[k].0->0).1 && counted(m2, (m[k].0->0).1) { 1int } else { 0int }),
		released(m2, m3, xl.insert(k), xr.insert(k), (m[k].0->0).1),
		forall|q: C::Value| #[trigger] rc(m3.remove(k), xl, xr, q) == rc(m3, xl.insert(k), xr.insert(k), q),
	ensures released(m, m3.remove(k), xl, xr, k),
{
	reveal(released);
	let m4 = m3.remove(k);
	assert forall|q: C::Value| #[trigger] m4.contains_key(q) implies m.contains_key(q) && m4[q].0 == m[q].0 && (m4[q].1 is None <==> m[q].1 is None)
		&& (m4[q].1 is Some ==> m4[q].1->0 <= m[q].1->0) && (m4[q].1 == Some(0usize) ==> m[q].1 == Some(0usize)) by {
		assert(m3.contains_key(q));
		assert(m2.contains_key(q));
		assert(m1.contains_key(q));
	}
	assert forall|q: C::Value| #[trigger] pinned(m, q) implies m4.contains_key(q) by {
		assert(pinned(m1, q));
		assert(m2.contains_key(q));
		assert(pinned(m2, q));
		assert(m3.contains_key(q));
	}
	assert forall|q: C::Value| xl.contains(q) || xr.contains(q) implies #[trigger] m4.contains_key(q) && m4[q] == m[q] by {
		assert(m.contains_key(q) && m[q].1 == Some(0usize)) by { reveal(inv); }
		assert(xl.insert(k).contains(q) || xr.contains(q));
		assert(m2.contains_key(q) && m2[q] == m1[q]);
		assert(xl.insert(k).contains(q) || xr.insert(k).contains(q));
		assert(m3.contains_key(q) && m3[q] == m2[q]);
	}
	assert forall|q: C::Value| #[trigger] rc(m4, xl, xr, q) == rc(m, xl, xr, q) - (if q == k && counted(m, k) { 1int } else { 0int }) by {
		assert(rc(m3, xl.insert(k), xr.insert(k), q) == rc(m2, xl.insert(k), xr.insert(k), q) - (if q == (m[k].0->0).1 && counted(m2, (m[k].0->0).1) { 1int } else { 0int }));
		assert(rc(m2, xl.insert(k), xr, q) == rc(m1, xl.insert(k), xr, q) - (if q == (m[k].0->0).0 && counted(m1, (m[k].0->0).0) { 1int } else { 0int }));
		assert(rc(m1, xl.insert(k), xr, q) == rc(m1, xl, xr, q) + (if q == (m[k].0->0).0 && counted(m1, (m[k].0->0).0) { 1int } else { 0int }));
	}
}

// ------------------------------------------------------------ the backend's view

pub open spec fn mem_view<C: Construct>(m: Map<C::Value, Ent<C::Value>>) -> DbView<C> {
	DbView {
		retains: true,
		reads_ok: true,
		writes_ok: true,
		store: store_of(m),
		roots: |k: C::Value| rc(m, Set::empty(), Set::empty(), k),
		pinned: |k: C::Value| pinned(m, k),
	}
}
/// The view of the discarding backend.
pub open spec fn noop_view<C: Construct>() -> DbView<C> {
	DbView { retains: false, reads_ok: false, writes_ok: true, store: Map::empty(), roots: |k: C::Value| 0int, pinned: |k: C::Value| true }
}
pub open spec fn mem_inv<C: Construct>(m: Map<C::Value, Ent<C::Value>>) -> bool {
	inv::<C>(m, Set::empty(), Set::empty())
}
pub open spec fn zero<V>(m: Map<V, Ent<V>>, k: V) -> bool { m.contains_key(k) && m[k].1 == Some(0usize) }

/// One more reference to `k`, which may be new.
pub open spec fn bump<V>(m: Map<V, Ent<V>>, k: V) -> Map<V, Ent<V>> {
	m.insert(k, if m.contains_key(k) {
		(m[k].0, match m[k].1 { Some(c) => Some((c + 1) as usize), None => None })
	} else { (None, Some(1usize)) })
}

pub proof fn lemma_view_wf<C: Construct>(m: Map<C::Value, Ent<C::Value>>)
	requires mem_inv::<C>(m),
	ensures mem_view::<C>(m).wf(),
{
	reveal(inv);
	assert forall|k: C::Value| #[trigger] (mem_view::<C>(m).roots)(k) >= 0 by {
		if counted(m, k) { assert(m.contains_key(k)); }
	}
	assert forall|k: C::Value| #[trigger] store_of(m).contains_key(k) implies k == C::h(store_of(m)[k].0, store_of(m)[k].1) by {
		assert(m.contains_key(k));
	}
}

pub proof fn lemma_default<C: Construct>(m: Map<C::Value, Ent<C::Value>>)
	requires m == map![dflt::<C::Value>() => (None::<(C::Value, C::Value)>, None::<usize>)],
	ensures
		mem_inv::<C>(m),
		mem_view::<C>(m).store =~= Map::empty(),
		forall|k: C::Value| !zero(m, k) && #[trigger] (mem_view::<C>(m).roots)(k) == 0 && ((mem_view::<C>(m).pinned)(k) <==> k == dflt::<C::Value>()),
{
	reveal(inv);
}

pub proof fn lemma_absent_no_slots<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value)
	requires mem_inv::<C>(m), !m.contains_key(k),
	ensures slots(m, Set::empty(), Set::empty(), k) == 0,
{
	reveal(inv);
	assert(lset(m, Set::empty(), k) =~= Set::empty()) by {
		assert forall|p: C::Value| !lset(m, Set::empty(), k).contains(p) by { if lset(m, Set::empty(), k).contains(p) { assert(m.contains_key(p)); } }
	}
	assert(rset(m, Set::empty(), k) =~= Set::empty()) by {
		assert forall|p: C::Value| !rset(m, Set::empty(), k).contains(p) by { if rset(m, Set::empty(), k).contains(p) { assert(m.contains_key(p)); } }
	}
}

/// `bump` changes no slots.
pub proof fn lemma_bump_slots<V>(m: Map<V, Ent<V>>, k: V)
	ensures forall|q: V| #[trigger] slots(bump(m, k), Set::empty(), Set::empty(), q) == slots(m, Set::empty(), Set::empty(), q),
{
	assert forall|q: V| #[trigger] slots(bump(m, k), Set::empty(), Set::empty(), q) == slots(m, Set::empty(), Set::empty(), q) by {
		assert(lset(bump(m, k), Set::empty(), q) =~= lset(m, Set::empty(), q));
		assert(rset(bump(m, k), Set::empty(), q) =~= rset(m, Set::empty(), q));
	}
}

pub proof fn lemma_rootify<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value)
	requires mem_inv::<C>(m), counted(m, k) ==> m[k].1->0 < usize::MAX,
	ensures
		mem_inv::<C>(bump(m, k)),
		mem_view::<C>(bump(m, k)) == mem_view::<C>(m).with_root(k, 1),
		forall|q: C::Value| #[trigger] zero(bump(m, k), q) ==> zero(m, q) && q != k,
{
	let m2 = bump(m, k);
	lemma_bump_slots(m, k);
	if !m.contains_key(k) { lemma_absent_no_slots::<C>(m, k); }
	assert(mem_inv::<C>(m2)) by {
		reveal(inv);
		assert forall|q: C::Value| #[trigger] m2.contains_key(q) implies {
			&&& m2[q].0 is Some ==> m.contains_key(q)
			&&& m2[q].1 is Some ==> m2[q].1->0 >= slots(m2, Set::empty(), Set::empty(), q)
		} by { if q != k { assert(m.contains_key(q)); } }
		assert(m.contains_key(dflt::<C::Value>()));
	}
	let (a, b) = (mem_view::<C>(m2), mem_view::<C>(m).with_root(k, 1));
	assert(a.store =~= b.store);
	assert(a.roots =~= b.roots);
	assert(a.pinned =~= b.pinned);
}

pub proof fn lemma_unrootify<C: Construct>(m: Map<C::Value, Ent<C::Value>>, k: C::Value)
	requires mem_inv::<C>(m), mem_view::<C>(m).holds(k),
	ensures
		rem_ok::<C>(m, k),
		forall|m2: Map<C::Value, Ent<C::Value>>| #[trigger] rem_post::<C>(m, m2, k) ==> {
			&&& mem_inv::<C>(m2)
			&&& collected(mem_view::<C>(m).with_root(k, -1), mem_view::<C>(m2))
			&&& forall|q: C::Value| #[trigger] zero(m2, q) ==> zero(m, q)
		},
{
	assert(rem_pre::<C>(m, Set::empty(), Set::empty(), k));
	assert(rem_ok::<C>(m, k)) by { reveal(rem_ok); }
	assert forall|m2: Map<C::Value, Ent<C::Value>>| #[trigger] rem_post::<C>(m, m2, k) implies {
			&&& mem_inv::<C>(m2)
			&&& collected(mem_view::<C>(m).with_root(k, -1), mem_view::<C>(m2))
			&&& forall|q: C::Value| #[trigger] zero(m2, q) ==> zero(m, q)
		} by {
		reveal(rem_post);
		lemma_released_collected::<C>(m, m2, k);
	}
}

pub proof fn lemma_released_collected<C: Construct>(m: Map<C::Value, Ent<C::Value>>, m2: Map<C::Value, Ent<C::Value>>, k: C::Value)
	requires mem_inv::<C>(m), mem_inv::<C>(m2), released(m, m2, Set::empty(), Set::empty(), k), mem_view::<C>(m).holds(k),
	ensures
		collected(mem_view::<C>(m).with_root(k, -1), mem_view::<C>(m2)),
		forall|q: C::Value| #[trigger] zero(m2, q) ==> zero(m, q),
{
	reveal(released);
	reveal(inv);
	let (a, b) = (mem_view::<C>(m).with_root(k, -1), mem_view::<C>(m2));
	assert(b.pinned =~= a.pinned) by {
		assert forall|q: C::Value| #[trigger] (b.pinned)(q) == (a.pinned)(q) by {
			if pinned(m, q) { assert(m2.contains_key(q)); }
			if pinned(m2, q) { assert(m2.contains_key(q)); }
		}
	}
	assert(b.roots =~= a.roots) by {
		assert forall|q: C::Value| #[trigger] (b.roots)(q) == (a.roots)(q) by {
			assert(rc(m2, Set::empty(), Set::empty(), q) == rc(m, Set::empty(), Set::empty(), q) - (if q == k && counted(m, k) { 1int } else { 0int }));
		}
	}
	assert forall|q: C::Value| #[trigger] b.store.contains_key(q) implies a.store.contains_key(q) && b.store[q] == a.store[q] by { assert(m2.contains_key(q)); }
	assert(b.store.submap_of(a.store));
	assert forall|q: C::Value| #[trigger] a.store.contains_key(q) && b.live(q) implies b.store.contains_key(q) by {
		assert(m.contains_key(q));
		assert(m2.contains_key(q)) by { if (b.pinned)(q) { assert(pinned(m, q)); } }
	}
	assert forall|p: C::Value| #[trigger] b.store.contains_key(p) implies {
		&&& a.store.contains_key(b.store[p].0) ==> b.store.contains_key(b.store[p].0)
		&&& a.store.contains_key(b.store[p].1) ==> b.store.contains_key(b.store[p].1)
	} by {
		assert(m2.contains_key(p));
		assert(m2.contains_key((m2[p].0->0).0));
		assert(m2.contains_key((m2[p].0->0).1));
	}
	assert forall|q: C::Value| #[trigger] zero(m2, q) implies zero(m, q) by { assert(m2.contains_key(q)); }
}

/// The map after `insert(key, (l, r))` of a node not known before.
pub open spec fn inserted<V>(m: Map<V, Ent<V>>, key: V, l: V, r: V) -> Map<V, Ent<V>> {
	let m3 = bump(bump(m, l), r);
	m3.insert(key, (Some((l, r)), if m3.contains_key(key) { m3[key].1 } else { Some(0usize) }))
}

pub proof fn lemma_inserted_slots<V>(m: Map<V, Ent<V>>, key: V, l: V, r: V)
	requires !(m.contains_key(key) && m[key].0 is Some),
	ensures forall|q: V| #[trigger] slots(inserted(m, key, l, r), Set::empty(), Set::empty(), q) ==
		slots(m, Set::empty(), Set::empty(), q) + (if q == l { 1int } else { 0int }) + (if q == r { 1int } else { 0int }),
{
	let m4 = inserted(m, key, l, r);
	assert forall|q: V| #[trigger] slots(m4, Set::empty(), Set::empty(), q) ==
		slots(m, Set::empty(), Set::empty(), q) + (if q == l { 1int } else { 0int }) + (if q == r { 1int } else { 0int }) by {
		if q == l {
			assert(lset(m4, Set::empty(), q) =~= lset(m, Set::empty(), q).insert(key));
			assert(!lset(m, Set::empty(), q).contains(key));
		} else { assert(lset(m4, Set::empty(), q) =~= lset(m, Set::empty(), q)); }
		if q == r {
			assert(rset(m4, Set::empty(), q) =~= rset(m, Set::empty(), q).insert(key));
			assert(!rset(m, Set::empty(), q).contains(key));
		} else { assert(rset(m4, Set::empty(), q) =~= rset(m, Set::empty(), q)); }
	}
}

pub proof fn lemma_inserted<C: Construct>(m: Map<C::Value, Ent<C::Value>>, key: C::Value, l: C::Value, r: C::Value)
	requires
		mem_inv::<C>(m), key == C::h(l, r), !(m.contains_key(key) && m[key].0 is Some),
		counted(m, l) ==> m[l].1->0 < usize::MAX,
		counted(bump(m, l), r) ==> bump(m, l)[r].1->0 < usize::MAX,
	ensures
		mem_inv::<C>(inserted(m, key, l, r)),
		mem_view::<C>(inserted(m, key, l, r)) == mem_view::<C>(m).with_insert(key, (l, r)),
		forall|q: C::Value| #[trigger] zero(inserted(m, key, l, r), q) ==> (zero(m, q) || q == key) && q != l && q != r,
{
	let m4 = inserted(m, key, l, r);
	lemma_inserted_slots(m, key, l, r);
	if !m.contains_key(l) { lemma_absent_no_slots::<C>(m, l); }
	if !m.contains_key(r) { lemma_absent_no_slots::<C>(m, r); }
	if !m.contains_key(key) { lemma_absent_no_slots::<C>(m, key); }
	assert(mem_inv::<C>(m4)) by {
		reveal(inv);
		assert forall|q: C::Value| #[trigger] m4.contains_key(q) implies {
			&&& m4[q].0 is Some ==> q == key || m.contains_key(q) && m[q].0 == m4[q].0
			&&& m4[q].1 is Some ==> m4[q].1->0 >= slots(m4, Set::empty(), Set::empty(), q)
		} by {
			if m.contains_key(q) { }
		}
		assert(m.contains_key(dflt::<C::Value>()));
		assert(forall|q: C::Value| #[trigger] m.contains_key(q) ==> m4.contains_key(q));
	}
	let (a, b) = (mem_view::<C>(m4), mem_view::<C>(m).with_insert(key, (l, r)));
	assert(a.store =~= b.store);
	assert(a.roots =~= b.roots);
	assert(a.pinned =~= b.pinned);
}

/// Inserting a known node changes nothing, and its children are referred to.
pub proof fn lemma_insert_known<C: Construct>(m: Map<C::Value, Ent<C::Value>>, key: C::Value, l: C::Value, r: C::Value)
	requires mem_inv::<C>(m), key == C::h(l, r), m.contains_key(key) && m[key].0 is Some,
	ensures
		mem_view::<C>(m) == mem_view::<C>(m).with_insert(key, (l, r)),
		forall|q: C::Value| #[trigger] zero(m, q) ==> q != l && q != r,
{
	reveal(inv);
	lemma_slot_positive(m, Set::empty(), Set::empty(), key);
	assert(m[key].0->0 == (l, r)) by {
		assert(C::h((m[key].0->0).0, (m[key].0->0).1) == C::h(l, r));
	}
	assert(mem_view::<C>(m).store =~= mem_view::<C>(m).with_insert(key, (l, r)).store);
	assert forall|q: C::Value| #[trigger] zero(m, q) implies q != l && q != r by { assert(m.contains_key(q)); }
}

// ------------------------------------------------------------ populate

pub open spec fn pin<V>(m: Map<V, Ent<V>>, k: V) -> Map<V, Ent<V>> {
	m.insert(k, (if m.contains_key(k) { m[k].0 } else { None }, None))
}
/// Loading one proof entry.
pub open spec fn loaded<V>(m: Map<V, Ent<V>>, key: V, l: V, r: V) -> Map<V, Ent<V>> {
	pin(pin(m.insert(key, (Some((l, r)), None)), l), r)
}

pub proof fn lemma_loaded<C: Construct>(m: Map<C::Value, Ent<C::Value>>, key: C::Value, l: C::Value, r: C::Value)
	requires mem_inv::<C>(m), key == C::h(l, r),
	ensures
		mem_inv::<C>(loaded(m, key, l, r)),
		mem_view::<C>(loaded(m, key, l, r)).store == mem_view::<C>(m).store.insert(key, (l, r)),
		forall|q: C::Value| #[trigger] pinned(loaded(m, key, l, r), q) <==> pinned(m, q) || q == key || q == l || q == r,
		forall|q: C::Value| #[trigger] rc(loaded(m, key, l, r), Set::empty(), Set::empty(), q) ==
			(if q == key || q == l || q == r { 0 } else { rc(m, Set::empty(), Set::empty(), q) }),
		forall|q: C::Value| #[trigger] zero(loaded(m, key, l, r), q) ==> zero(m, q),
{
	let m2 = loaded(m, key, l, r);
	reveal(inv);
	assert(m.contains_key(key) && m[key].0 is Some ==> m[key].0->0 == (l, r)) by {
		if m.contains_key(key) && m[key].0 is Some { assert(C::h((m[key].0->0).0, (m[key].0->0).1) == C::h(l, r)); }
	}
	assert forall|q: C::Value| q != l && q != r implies #[trigger] slots(m2, Set::empty(), Set::empty(), q) == slots(m, Set::empty(), Set::empty(), q) by {
		assert(lset(m2, Set::empty(), q) =~= lset(m, Set::empty(), q));
		assert(rset(m2, Set::empty(), q) =~= rset(m, Set::empty(), q));
	}
	assert forall|q: C::Value| #[trigger] m2.contains_key(q) implies {
		&&& m2[q].0 is Some ==> q == key && m2[q].0 == Some((l, r)) || m.contains_key(q) && m[q].0 == m2[q].0
		&&& m2[q].1 is Some ==> m2[q].1->0 >= slots(m2, Set::empty(), Set::empty(), q)
	} by {
		if m.contains_key(q) { }
	}
	assert(forall|q: C::Value| #[trigger] m.contains_key(q) ==> m2.contains_key(q));
	assert(m.contains_key(dflt::<C::Value>()));
	assert(mem_view::<C>(m2).store =~= mem_view::<C>(m).store.insert(key, (l, r)));
}

/// `k` is a key or a child of an entry.
pub open spec fn in_proofs<V>(p: Map<V, (V, V)>, k: V) -> bool {
	p.contains_key(k) || exists|j: V| #[trigger] p.contains_key(j) && (p[j].0 == k || p[j].1 == k)
}
pub open spec fn entries_of<V>(s: Seq<(V, (V, V))>, m: Map<V, (V, V)>) -> bool {
	&&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
	&&& forall|k: V| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// The first `n` entries, as a map.
pub open spec fn part<V>(s: Seq<(V, (V, V))>, n: int) -> Map<V, (V, V)>
	decreases n
{
	if n <= 0 { Map::empty() } else { part(s, n - 1).insert(s[n - 1].0, s[n - 1].1) }
}
pub proof fn lemma_part_sub<V>(s: Seq<(V, (V, V))>, m: Map<V, (V, V)>, n: int)
	requires entries_of(s, m), 0 <= n <= s.len(),
	ensures
		forall|k: V| #[trigger] part(s, n).contains_key(k) ==> m.contains_key(k) && part(s, n)[k] == m[k],
		forall|i: int| 0 <= i < n ==> part(s, n).contains_key((#[trigger] s[i]).0),
	decreases n,
{
	if n > 0 {
		lemma_part_sub(s, m, n - 1);
		let e = s[n - 1];
		assert(m.contains_key(e.0) && m[e.0] == e.1);
		assert(part(s, n) == part(s, n - 1).insert(e.0, e.1));
		assert forall|k: V| #[trigger] part(s, n).contains_key(k) implies m.contains_key(k) && part(s, n)[k] == m[k] by {
			if k != e.0 { assert(part(s, n - 1).contains_key(k)); }
		}
		assert forall|i: int| 0 <= i < n implies part(s, n).contains_key((#[trigger] s[i]).0) by {
			if i < n - 1 { assert(part(s, n - 1).contains_key(s[i].0)); }
		}
	} else {
		assert(part(s, n) == Map::<V, (V, V)>::empty());
	}
}
pub proof fn lemma_part_all<V>(s: Seq<(V, (V, V))>, m: Map<V, (V, V)>)
	requires entries_of(s, m),
	ensures part(s, s.len() as int) == m,
{
	lemma_part_sub(s, m, s.len() as int);
	assert(part(s, s.len() as int) =~= m) by {
		assert forall|k: V| #[trigger] m.contains_key(k) implies part(s, s.len() as int).contains_key(k) by {
			let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
			assert(part(s, s.len() as int).contains_key(s[i].0));
		}
		assert forall|k: V| #[trigger] part(s, s.len() as int).contains_key(k) implies m.contains_key(k) && part(s, s.len() as int)[k] == m[k] by {
			assert(part(s, s.len() as int).dom().contains(k));
		}
	}
}
pub proof fn lemma_part<C: Construct>(s: Seq<(C::Value, (C::Value, C::Value))>, m: Map<C::Value, (C::Value, C::Value)>, i: int)
	requires entries_of(s, m), 0 <= i < s.len(),
	ensures
		part(s, i + 1) == part(s, i).insert(s[i].0, s[i].1),
		m.contains_key(s[i].0), m[s[i].0] == s[i].1,
		forall|q: C::Value| #[trigger] in_proofs(part(s, i + 1), q) <==> in_proofs(part(s, i), q) || q == s[i].0 || q == s[i].1.0 || q == s[i].1.1,
{
	lemma_part_sub(s, m, i);
	let (a, b) = (part(s, i), part(s, i + 1));
	assert(b == a.insert(s[i].0, s[i].1));
	assert forall|q: C::Value| #[trigger] in_proofs(b, q) <==> in_proofs(a, q) || q == s[i].0 || q == s[i].1.0 || q == s[i].1.1 by {
		if in_proofs(b, q) && !b.contains_key(q) {
			let j = choose|j: C::Value| #[trigger] b.contains_key(j) && (b[j].0 == q || b[j].1 == q);
			if j != s[i].0 { assert(a.contains_key(j)); }
		}
		if in_proofs(a, q) && !a.contains_key(q) {
			let j = choose|j: C::Value| #[trigger] a.contains_key(j) && (a[j].0 == q || a[j].1 == q);
			assert(b.contains_key(j));
			assert(a.contains_key(j) && a[j] == m[j]);
		}
		assert(b.contains_key(s[i].0));
	}
}

pub uninterp spec fn entries_seq<V>(m: std::collections::HashMap<V, (V, V)>) -> Seq<(V, (V, V))>;

/// The entries of a map in some order (stands for the iteration over a `HashMap` by value).
#[verifier::external_body]
pub fn map_entries<V: Eq + Hash>(m: std::collections::HashMap<V, (V, V)>) -> (r: Vec<(V, (V, V))>)
	ensures r@ == entries_seq(m), entries_of(r@, m@),
{
	m.into_iter().collect()
}

} // verus!
