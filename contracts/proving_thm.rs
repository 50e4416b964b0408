//! What the contracts on recording and on compact proofs amount to.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use core::hash::Hash;
use crate::model::*;
use crate::index::*;
use crate::traits::*;
use crate::mem_model::*;
use crate::mem_thm::*;
use crate::raw_thm::*;
use crate::proving::*;
use crate::proving_model::*;
use crate::memory::*;
use crate::stubs::*;
verus! {
broadcast use group_value;

// ------------------------------------------------------------ C14

/// The unfolding of a root by consistent proofs has that root, and its
/// interior nodes are exactly the proofs reachable from the root.
pub proof fn theorem_unfolding<C: Construct>(p: Map<C::Value, (C::Value, C::Value)>, root: C::Value, c: CompactValue<C::Value>)
	requires store_wf::<C>(p), compact_ok(p, root, c),
	ensures
		croot::<C>(c) == root,
		cproofs::<C>(c).submap_of(p),
		forall|k: C::Value| #[trigger] cproofs::<C>(c).contains_key(k) <==> p.contains_key(k) && reaches(p, root, k),
	decreases c,
{
	match c {
		CompactValue::Single(v) => {
			assert forall|k: C::Value| #[trigger] cproofs::<C>(c).contains_key(k) <==> p.contains_key(k) && reaches(p, root, k) by {
				if p.contains_key(k) && reaches(p, root, k) {
					let q = choose|q: Seq<IndexSelection>| #[trigger] walk(p, root, q) == Some(k);
					assert(q.len() == 0);
				}
			}
		}
		CompactValue::Combined(b) => {
			theorem_unfolding::<C>(p, p[root].0, b.0);
			theorem_unfolding::<C>(p, p[root].1, b.1);
			assert(croot::<C>(c) == root);
			assert forall|k: C::Value| #[trigger] cproofs::<C>(c).contains_key(k) <==> p.contains_key(k) && reaches(p, root, k) by {
				if cproofs::<C>(c).contains_key(k) {
					if k == root {
						assert(walk(p, root, Seq::<IndexSelection>::empty()) == Some(k));
					} else if cproofs::<C>(b.0).contains_key(k) {
						lemma_reaches_child(p, root, IndexSelection::Left, k);
					} else {
						lemma_reaches_child(p, root, IndexSelection::Right, k);
					}
				}
				if p.contains_key(k) && reaches(p, root, k) && k != root {
					let q = choose|q: Seq<IndexSelection>| #[trigger] walk(p, root, q) == Some(k);
					assert(q.len() > 0);
					assert(walk(p, pick(p[root], q[0]), q.drop_first()) == Some(k));
					if q[0] is Left { assert(reaches(p, p[root].0, k)); } else { assert(reaches(p, p[root].1, k)); }
				}
			}
			assert forall|k: C::Value| #[trigger] cproofs::<C>(c).contains_key(k) implies p[k] == cproofs::<C>(c)[k] by {
				if k != root {
					if cproofs::<C>(b.1).contains_key(k) { } else { assert(cproofs::<C>(b.0).contains_key(k)); }
				}
			}
		}
	}
}
proof fn lemma_reaches_child<V>(p: Map<V, (V, V)>, root: V, s: IndexSelection, k: V)
	requires p.contains_key(root), reaches(p, pick(p[root], s), k),
	ensures reaches(p, root, k),
{
	let q = choose|q: Seq<IndexSelection>| #[trigger] walk(p, pick(p[root], s), q) == Some(k);
	let r = seq![s] + q;
	assert(r.drop_first() =~= q);
	assert(walk(p, root, r) == Some(k));
}

/// Compacting and expanding, as code: nothing but the contracts is used.
pub fn compact_and_expand<C: EmptyConstruct>(proofs: &Proofs<C::Value>, root: C::Value) -> (r: (Proofs<C::Value>, C::Value)) where C::Value: Eq + Hash + Ord
	requires
		store_wf::<C>(proofs.0@),
		exists|rank: spec_fn(C::Value) -> nat| #[trigger] ranked(proofs.0@, rank),
	ensures
		r.1 == root,
		r.0.0@.submap_of(proofs.0@),
		forall|k: C::Value| #[trigger] r.0.0@.contains_key(k) <==> proofs.0@.contains_key(k) && reaches(proofs.0@, root, k),
{
	proof { axiom_key_model::<C>(); lemma_values_ok::<C>(); }
	let c = proofs.into_compact(root);
	proof { theorem_unfolding::<C>(proofs.0@, root, c); }
	Proofs::from_compact::<C>(c)
}
pub proof fn lemma_values_ok<C: Construct>()
	ensures values_ok::<C::Value>(),
{ }

/// The root of a branch: the siblings hashed onto the leaf along the path.
pub open spec fn branch_root<C: Construct>(leaf: C::Value, sibs: Seq<C::Value>, p: Seq<IndexSelection>) -> C::Value
	decreases p.len()
{
	if p.len() == 0 { leaf } else {
		let below = branch_root::<C>(leaf, sibs.drop_last(), p.drop_first());
		match p[0] {
			IndexSelection::Left => C::h(below, sibs.last()),
			IndexSelection::Right => C::h(sibs.last(), below),
		}
	}
}
proof fn lemma_plain_skip<V>(leaf: V, sibs: Seq<V>, p: Seq<IndexSelection>, n: int)
	requires 0 <= n < p.len(), sibs.len() == p.len(),
	ensures plain(leaf, sibs, p, n) == plain(leaf, sibs.drop_last(), p.drop_first(), n),
	decreases n,
{
	if n > 0 { lemma_plain_skip(leaf, sibs, p, n - 1); }
}
/// A branch's compact form has the branch's root, holds the leaf at the
/// index's path, and has one leaf per sibling and one for the leaf.
pub proof fn theorem_branch<C: Construct>(leaf: C::Value, sibs: Seq<C::Value>, p: Seq<IndexSelection>)
	requires sibs.len() == p.len(),
	ensures
		croot::<C>(plain(leaf, sibs, p, p.len() as int)) == branch_root::<C>(leaf, sibs, p),
		cat(plain(leaf, sibs, p, p.len() as int), p) == Some(CompactValue::Single(leaf)),
		leaves(plain(leaf, sibs, p, p.len() as int)) == sibs.len() + 1,
	decreases p.len(),
{
	reveal_with_fuel(croot, 3);
	reveal_with_fuel(leaves, 3);
	reveal_with_fuel(cat, 2);
	if p.len() > 0 {
		lemma_plain_skip(leaf, sibs, p, p.len() - 1);
		theorem_branch::<C>(leaf, sibs.drop_last(), p.drop_first());
	}
}
/// Where a node's proofs are known, `branch_root` of the siblings on a walk is the node.
pub open spec fn siblings<V>(s: Map<V, (V, V)>, root: V, p: Seq<IndexSelection>) -> Seq<V>
	decreases p.len()
{
	if p.len() == 0 { Seq::empty() } else {
		siblings(s, pick(s[root], p[0]), p.drop_first()).push(if p[0] is Left { s[root].1 } else { s[root].0 })
	}
}
pub proof fn theorem_branch_of_tree<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, p: Seq<IndexSelection>)
	requires store_wf::<C>(s), walk(s, root, p) is Some,
	ensures
		siblings(s, root, p).len() == p.len(),
		branch_root::<C>(walk(s, root, p)->0, siblings(s, root, p), p) == root,
	decreases p.len(),
{
	if p.len() > 0 {
		theorem_branch_of_tree::<C>(s, pick(s[root], p[0]), p.drop_first());
		assert(siblings(s, root, p).drop_last() =~= siblings(s, pick(s[root], p[0]), p.drop_first()));
	}
}

// ------------------------------------------------------------ C13

/// A call to a backend, with what a read returned.
pub ghost enum Ev<V> {
	Get(V, Option<(V, V)>),
	Insert(V, (V, V)),
	/// Reference counting: may collect nodes.
	Count,
}
/// The store before and after a call, and what it returns.
pub open spec fn store_step<C: Construct>(e: Ev<C::Value>, s: Map<C::Value, (C::Value, C::Value)>, s2: Map<C::Value, (C::Value, C::Value)>) -> bool {
	match e {
		Ev::Get(k, v) => v == lookup(s, k) && s2 == s,
		Ev::Insert(k, v) => k == C::h(v.0, v.1) && s2 == s.insert(k, v),
		Ev::Count => s2.submap_of(s),
	}
}
/// A state of a recording: the store, the proofs and the inserts.
pub ghost struct Rec<C: Construct> {
	pub s: Map<C::Value, (C::Value, C::Value)>,
	pub p: Map<C::Value, (C::Value, C::Value)>,
	pub i: Set<C::Value>,
}
pub open spec fn rec_step<C: Construct>(e: Ev<C::Value>, a: Rec<C>, b: Rec<C>) -> bool {
	&&& store_step::<C>(e, a.s, b.s)
	&&& match e {
		Ev::Get(k, v) => read_step(a.p, a.i, k, v, b.p) && b.i == a.i,
		Ev::Insert(k, v) => b.p == a.p && b.i == a.i.insert(k),
		Ev::Count => b.p == a.p && b.i == a.i,
	}
}
/// What holds all along a recording that began on the store `s0`.
pub open spec fn recorded<C: Construct>(s0: Map<C::Value, (C::Value, C::Value)>, a: Rec<C>) -> bool {
	&&& store_wf::<C>(a.s)
	&&& a.p.submap_of(s0)
	&&& forall|k: C::Value| #[trigger] a.s.contains_key(k) ==> a.i.contains(k) || s0.contains_key(k) && s0[k] == a.s[k]
}
pub proof fn lemma_recorded_step<C: Construct>(s0: Map<C::Value, (C::Value, C::Value)>, e: Ev<C::Value>, a: Rec<C>, b: Rec<C>)
	requires recorded(s0, a), rec_step(e, a, b),
	ensures recorded(s0, b), a.p.submap_of(b.p), a.i.subset_of(b.i),
		e matches Ev::Get(k, Some(v)) ==> b.i.contains(k) || (b.p.contains_key(k) && b.p[k] == v && s0.contains_key(k)),
{
	assert forall|k: C::Value| #[trigger] b.s.contains_key(k) implies k == C::h(b.s[k].0, b.s[k].1) && (b.i.contains(k) || s0.contains_key(k) && s0[k] == b.s[k]) by {
		match e {
			Ev::Get(x, v) => { }
			Ev::Insert(x, v) => { if k != x { assert(a.s.contains_key(k)); } }
			Ev::Count => { assert(a.s.contains_key(k)); }
		}
	}
	match e {
		Ev::Get(x, Some(v)) => { assert(a.s.contains_key(x)); }
		_ => { }
	}
	assert(b.p.submap_of(s0));
	assert(a.p.submap_of(b.p)) by {
		match e {
			Ev::Get(x, Some(v)) => { if a.p.contains_key(x) { assert(a.p[x] == s0[x]); } }
			_ => { }
		}
	}
}

/// A recording: `n + 1` states, one call between each two.
pub open spec fn recording<C: Construct>(evs: Seq<Ev<C::Value>>, rs: Seq<Rec<C>>) -> bool {
	&&& rs.len() == evs.len() + 1
	&&& forall|j: int| 0 <= j < evs.len() ==> #[trigger] rec_step(evs[j], rs[j], rs[j + 1])
}
/// The recorded proofs are true pairs of the initial store, and contain
/// every node read that the recorded calls had not written before.
pub proof fn theorem_recording<C: Construct>(evs: Seq<Ev<C::Value>>, rs: Seq<Rec<C>>, j: int)
	requires
		recording(evs, rs), 0 <= j < rs.len(),
		store_wf::<C>(rs[0].s), rs[0].p == no_proofs::<C::Value>(), rs[0].i == no_keys::<C::Value>(),
	ensures
		recorded(rs[0].s, rs[j]),
		forall|m: int| 0 <= m <= j ==> (#[trigger] rs[m]).p.submap_of(rs[j].p) && rs[m].i.subset_of(rs[j].i),
		forall|m: int| 0 <= m < j ==> (#[trigger] evs[m] matches Ev::Get(k, Some(v)) ==> !rs[m].i.contains(k) ==> rs[j].p.contains_key(k) && rs[j].p[k] == v),
	decreases j,
{
	if j > 0 {
		theorem_recording(evs, rs, j - 1);
		assert(rec_step(evs[j - 1], rs[j - 1], rs[j - 1 + 1]));
		lemma_recorded_step(rs[0].s, evs[j - 1], rs[j - 1], rs[j]);
	}
}

/// The stores of a replay of the same calls: `q[0]` holds the proofs, which
/// are pinned (never collected).
pub open spec fn replay<C: Construct>(evs: Seq<Ev<C::Value>>, f: Map<C::Value, (C::Value, C::Value)>, q: Seq<Map<C::Value, (C::Value, C::Value)>>) -> bool {
	&&& q.len() == evs.len() + 1
	&&& q[0] == f
	&&& forall|j: int| 0 <= j < evs.len() ==> match #[trigger] evs[j] {
		Ev::Get(k, v) => q[j + 1] == q[j],
		Ev::Insert(k, v) => q[j + 1] == q[j].insert(k, v),
		Ev::Count => q[j + 1].submap_of(q[j]) && forall|k: C::Value| #[trigger] f.contains_key(k) ==> q[j + 1].contains_key(k),
	}
}
/// No call reads a node that was known before but has been collected: a node
/// read as missing was never there, and a node written and read back is
/// still there in the replay.
pub open spec fn reads_live<C: Construct>(evs: Seq<Ev<C::Value>>, rs: Seq<Rec<C>>, q: Seq<Map<C::Value, (C::Value, C::Value)>>) -> bool {
	forall|j: int| 0 <= j < evs.len() ==> match #[trigger] evs[j] {
		Ev::Get(k, Some(v)) => rs[j].i.contains(k) ==> q[j].contains_key(k),
		Ev::Get(k, None) => !rs[0].s.contains_key(k) && !rs[j].i.contains(k),
		_ => true,
	}
}
proof fn lemma_replay<C: Construct>(evs: Seq<Ev<C::Value>>, rs: Seq<Rec<C>>, q: Seq<Map<C::Value, (C::Value, C::Value)>>, j: int)
	requires
		recording(evs, rs), 0 <= j <= evs.len(),
		store_wf::<C>(rs[0].s), rs[0].p == no_proofs::<C::Value>(), rs[0].i == no_keys::<C::Value>(),
		replay::<C>(evs, rs[evs.len() as int].p, q),
	ensures
		store_wf::<C>(q[j]),
		forall|k: C::Value| #[trigger] rs[evs.len() as int].p.contains_key(k) ==> q[j].contains_key(k),
		forall|k: C::Value| #[trigger] q[j].contains_key(k) ==> rs[j].i.contains(k) || rs[0].s.contains_key(k),
	decreases j,
{
	let n = evs.len() as int;
	theorem_recording(evs, rs, n);
	if j > 0 {
		lemma_replay(evs, rs, q, j - 1);
		assert(rec_step(evs[j - 1], rs[j - 1], rs[j - 1 + 1]));
		assert forall|k: C::Value| #[trigger] q[j].contains_key(k) implies k == C::h(q[j][k].0, q[j][k].1) && (rs[j].i.contains(k) || rs[0].s.contains_key(k)) by {
			match evs[j - 1] {
				Ev::Get(x, v) => { }
				Ev::Insert(x, v) => { if k != x { assert(q[j - 1].contains_key(k)); } }
				Ev::Count => { assert(q[j - 1].contains_key(k)); }
			}
		}
		assert forall|k: C::Value| #[trigger] rs[n].p.contains_key(k) implies q[j].contains_key(k) by {
			assert(q[j - 1].contains_key(k));
		}
	} else {
		assert forall|k: C::Value| #[trigger] q[j].contains_key(k) implies k == C::h(q[j][k].0, q[j][k].1) && rs[0].s.contains_key(k) by {
			assert(rs[n].p.contains_key(k) && rs[0].s.contains_key(k));
		}
	}
}
/// An empty backend populated with recorded proofs starts such a replay: it
/// holds exactly the proofs, none of which can be collected.
pub fn replayer<C: EmptyConstruct>(proofs: std::collections::HashMap<C::Value, (C::Value, C::Value)>) -> (db: InMemoryBackend<C>) where C::Value: Eq + Hash + Ord
	requires store_wf::<C>(proofs@),
	ensures
		db.wf(),
		db.dbv().store == proofs@,
		forall|k: C::Value| #[trigger] proofs@.contains_key(k) ==> (db.dbv().pinned)(k),
{
	let mut db: InMemoryBackend<C> = Default::default();
	let ghost p = proofs@;
	db.populate(proofs);
	proof {
		assert(db.dbv().store =~= p);
		assert forall|k: C::Value| #[trigger] p.contains_key(k) implies (db.dbv().pinned)(k) by {
			assert(in_proofs(p, k));
			assert(pinned(db.0@, k));
		}
	}
	db
}
/// Replaying the recorded calls on a store that holds just the proofs gives
/// every read the same result.
pub proof fn theorem_replay<C: Construct>(evs: Seq<Ev<C::Value>>, rs: Seq<Rec<C>>, q: Seq<Map<C::Value, (C::Value, C::Value)>>, j: int)
	requires
		recording(evs, rs), 0 <= j < evs.len(),
		store_wf::<C>(rs[0].s), rs[0].p == no_proofs::<C::Value>(), rs[0].i == no_keys::<C::Value>(),
		replay::<C>(evs, rs[evs.len() as int].p, q),
		reads_live(evs, rs, q),
	ensures
		evs[j] matches Ev::Get(k, v) ==> lookup(q[j], k) == v,
{
	let n = evs.len() as int;
	theorem_recording(evs, rs, n);
	theorem_recording(evs, rs, j);
	lemma_replay(evs, rs, q, j);
	assert(rec_step(evs[j], rs[j], rs[j + 1]));
	match evs[j] {
		Ev::Get(k, Some(v)) => {
			assert(store_wf::<C>(rs[j].s));
			assert(rs[j].s.contains_key(k) && rs[j].s[k] == v);
			if !rs[j].i.contains(k) { assert(rs[n].p.contains_key(k)); }
			assert(q[j].contains_key(k));
			assert(C::h(q[j][k].0, q[j][k].1) == C::h(v.0, v.1));
		}
		Ev::Get(k, None) => {
			assert(!q[j].contains_key(k));
		}
		_ => { }
	}
}


// The calls of a recorder are steps of a recording: from the contracts only.
pub open spec fn rec_of<'a, DB: Backend + ?Sized>(b: &ProvingBackend<'a, DB>) -> Rec<DB::Construct>
	where <DB::Construct as Construct>::Value: Eq + Hash + Ord
{
	Rec { s: b.dbv().store, p: b.state.proofs@, i: b.state.inserts@ }
}
pub fn record_get<'a, DB: ReadBackend + ?Sized>(b: &mut ProvingBackend<'a, DB>, key: &<DB::Construct as Construct>::Value)
	-> (r: Result<Option<(<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value)>, DB::Error>)
	where <DB::Construct as Construct>::Value: Eq + Hash + Ord
	requires old(b).wf(),
	ensures r matches Ok(v) ==> rec_step(Ev::Get(*key, v), rec_of(old(b)), rec_of(final(b))),
{ b.get(key) }
pub fn record_insert<'a, DB: WriteBackend + ?Sized>(b: &mut ProvingBackend<'a, DB>, key: <DB::Construct as Construct>::Value, value: (<DB::Construct as Construct>::Value, <DB::Construct as Construct>::Value))
	-> (r: Result<(), DB::Error>)
	where <DB::Construct as Construct>::Value: Eq + Hash + Ord
	requires old(b).wf(), old(b).dbv().retains, key == <DB::Construct as Construct>::h(value.0, value.1),
	ensures r is Ok ==> rec_step(Ev::Insert(key, value), rec_of(old(b)), rec_of(final(b))),
{ b.insert(key, value) }
pub fn record_rootify<'a, DB: WriteBackend + ?Sized>(b: &mut ProvingBackend<'a, DB>, key: &<DB::Construct as Construct>::Value)
	-> (r: Result<(), DB::Error>)
	where <DB::Construct as Construct>::Value: Eq + Hash + Ord
	requires old(b).wf(), old(b).dbv().retains,
	ensures r is Ok ==> rec_step(Ev::Count, rec_of(old(b)), rec_of(final(b))) && final(b).dbv() == old(b).dbv().with_root(*key, 1),
{ b.rootify(key) }
pub fn record_unrootify<'a, DB: WriteBackend + ?Sized>(b: &mut ProvingBackend<'a, DB>, key: &<DB::Construct as Construct>::Value)
	-> (r: Result<(), DB::Error>)
	where <DB::Construct as Construct>::Value: Eq + Hash + Ord
	requires old(b).wf(), old(b).dbv().retains, old(b).dbv().holds(*key),
	ensures r is Ok ==> rec_step(Ev::Count, rec_of(old(b)), rec_of(final(b))),
{ b.unrootify(key) }
/// Taking the state out and putting it back loses nothing of the recording,
/// and leaves the database as the recorder had it.
pub fn interrupted<DB: ReadBackend + ?Sized>(db: &mut DB, k1: &<DB::Construct as Construct>::Value, k2: &<DB::Construct as Construct>::Value)
	-> (r: ProvingState<<DB::Construct as Construct>::Value>)
	where <DB::Construct as Construct>::Value: Eq + Hash + Ord
	requires old(db).wf(),
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		old(db).dbv().reads_ok ==> forall|k: <DB::Construct as Construct>::Value| #[trigger] r.proofs@.contains_key(k) <==> (k == *k1 || k == *k2) && old(db).dbv().store.contains_key(k),
{
	let mut b = ProvingBackend::new(db);
	let _ = b.get(k1);
	let state = b.into_state();
	let mut b = ProvingBackend::from_state(state, db);
	let _ = b.get(k2);
	b.into_state()
}

} // verus!
