//! Ghost model of recorded proofs and of compact proofs.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use crate::model::*;
use crate::index::*;
use crate::traits::*;
use crate::raw_thm::*;
use crate::mem_thm::*;
use crate::mem_model::*;
use crate::stubs::*;
use crate::proving::*;
use core::hash::Hash;
use vstd::std_specs::hash::*;
verus! {
broadcast use group_value;

pub open spec fn no_proofs<V>() -> Map<V, (V, V)> { Map::empty() }
pub open spec fn no_keys<V>() -> Set<V> { Set::empty() }

/// What a read through the recorder does to the recorded proofs.
pub open spec fn read_step<V>(proofs: Map<V, (V, V)>, inserts: Set<V>, key: V, v: Option<(V, V)>, proofs2: Map<V, (V, V)>) -> bool {
	proofs2 == if v is Some && !inserts.contains(key) { proofs.insert(key, v->0) } else { proofs }
}


// ------------------------------------------------------------ compact proofs

/// Cloning a value gives an equal value.
pub open spec fn values_ok<V: Clone>() -> bool {
	forall|a: V, b: V| #[trigger] call_ensures(V::clone, (&a,), b) ==> b == a
}
/// The root of a compact proof: its hash fold.
pub open spec fn croot<C: Construct>(c: CompactValue<C::Value>) -> C::Value
	decreases c
{
	match c {
		CompactValue::Single(v) => v,
		CompactValue::Combined(b) => C::h(croot::<C>(b.0), croot::<C>(b.1)),
	}
}
/// Its number of leaves.
pub open spec fn leaves<V>(c: CompactValue<V>) -> nat
	decreases c
{
	match c {
		CompactValue::Single(v) => 1,
		CompactValue::Combined(b) => leaves(b.0) + leaves(b.1),
	}
}
/// Its interior nodes.
pub open spec fn cproofs<C: Construct>(c: CompactValue<C::Value>) -> Map<C::Value, (C::Value, C::Value)>
	decreases c
{
	match c {
		CompactValue::Single(v) => Map::empty(),
		CompactValue::Combined(b) => cproofs::<C>(b.0).union_prefer_right(cproofs::<C>(b.1)).insert(croot::<C>(c), (croot::<C>(b.0), croot::<C>(b.1))),
	}
}
/// What sits at a path of a compact proof.
pub open spec fn cat<V>(c: CompactValue<V>, p: Seq<IndexSelection>) -> Option<CompactValue<V>>
	decreases p.len()
{
	if p.len() == 0 { Some(c) } else {
		match c {
			CompactValue::Single(v) => None,
			CompactValue::Combined(b) => cat(if p[0] is Left { b.0 } else { b.1 }, p.drop_first()),
		}
	}
}
/// `c` is the unfolding of `root` by the proofs, down to what has none.
pub open spec fn compact_ok<V>(p: Map<V, (V, V)>, root: V, c: CompactValue<V>) -> bool
	decreases c
{
	match c {
		CompactValue::Single(v) => v == root && !p.contains_key(root),
		CompactValue::Combined(b) => p.contains_key(root) && compact_ok(p, p[root].0, b.0) && compact_ok(p, p[root].1, b.1),
	}
}
/// Some rank by which the proofs are acyclic.
pub open spec fn some_rank<V>(p: Map<V, (V, V)>) -> spec_fn(V) -> nat {
	choose|rank: spec_fn(V) -> nat| #[trigger] ranked(p, rank)
}
pub proof fn lemma_some_rank<V>(p: Map<V, (V, V)>)
	requires exists|rank: spec_fn(V) -> nat| #[trigger] ranked(p, rank),
	ensures ranked(p, some_rank(p)),
{}

/// What `fold` computes, in terms of what the folding function may return.
pub open spec fn folded<C: Construct, R: Default, F: Fn(C::Value, (R, C::Value), (R, C::Value)) -> R>(c: CompactValue<C::Value>, f: F, r: R) -> bool
	decreases c
{
	match c {
		CompactValue::Single(v) => call_ensures(R::default, (), r),
		CompactValue::Combined(b) => exists|x: R, y: R|
			folded::<C, R, F>(b.0, f, x) && folded::<C, R, F>(b.1, f, y)
			&& #[trigger] call_ensures(f, (croot::<C>(c), (x, croot::<C>(b.0)), (y, croot::<C>(b.1))), r),
	}
}
/// One step of expanding a compact proof.
pub open spec fn expand_step<V>(key: V, l: (Proofs<V>, V), r: (Proofs<V>, V), o: Proofs<V>) -> bool {
	o.0@ == l.0.0@.union_prefer_right(r.0.0@).insert(key, (l.1, r.1))
}
pub proof fn lemma_expand<C: Construct, F: Fn(C::Value, (Proofs<C::Value>, C::Value), (Proofs<C::Value>, C::Value)) -> Proofs<C::Value>>(c: CompactValue<C::Value>, f: F, r: Proofs<C::Value>)
	where C::Value: Eq + Hash + Ord
	requires
		obeys_key_model::<C::Value>(),
		forall|k: C::Value, x: (Proofs<C::Value>, C::Value), y: (Proofs<C::Value>, C::Value), o: Proofs<C::Value>| #[trigger] call_ensures(f, (k, x, y), o) ==> expand_step(k, x, y, o),
		folded::<C, Proofs<C::Value>, F>(c, f, r),
	ensures r.0@ == cproofs::<C>(c),
	decreases c,
{
	match c {
		CompactValue::Single(v) => { }
		CompactValue::Combined(b) => {
			let (x, y) = choose|x: Proofs<C::Value>, y: Proofs<C::Value>|
				folded::<C, Proofs<C::Value>, F>(b.0, f, x) && folded::<C, Proofs<C::Value>, F>(b.1, f, y)
				&& #[trigger] call_ensures(f, (croot::<C>(c), (x, croot::<C>(b.0)), (y, croot::<C>(b.1))), r);
			lemma_expand::<C, F>(b.0, f, x);
			lemma_expand::<C, F>(b.1, f, y);
		}
	}
}
/// The branch of a leaf: its siblings from bottom to top, along a path; `n` levels of it.
pub open spec fn plain<V>(leaf: V, sibs: Seq<V>, p: Seq<IndexSelection>, n: int) -> CompactValue<V>
	decreases n
{
	if n <= 0 { CompactValue::Single(leaf) } else {
		let below = plain(leaf, sibs, p, n - 1);
		let sib = CompactValue::Single(sibs[n - 1]);
		match p[p.len() - n] {
			IndexSelection::Left => CompactValue::Combined(Box::new((below, sib))),
			IndexSelection::Right => CompactValue::Combined(Box::new((sib, below))),
		}
	}
}

} // verus!
