//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::mem_model::*;
use crate::mem_thm::*;
use crate::proving_model::*;
use crate::stubs::*;
use crate::traits::EmptyConstruct;
use vstd::std_specs::convert::*;
use vstd::std_specs::hash::*;
broadcast use {group_value, vstd::std_specs::hash::group_hash_axioms};
//@ item struct ProvingState
//@ subst
#[derive(Clone, Eq, PartialEq, Debug)]
=====>

//@ impl PartialEq for Proofs
//@ drop
//@ impl Eq for Proofs
//@ drop
//@ impl Debug for Proofs
//@ drop
//@ impl Deref for Proofs
//@ drop
//@ impl Into<Map<V,(V,V)>> for Proofs
//@ drop
//@ fn Clone for Proofs::clone
//@ external_body
//@ fn Default for ProvingState::default
//@ ret r
//@ spec
	ensures obeys_key_model::<V>() ==> r.proofs@ == no_proofs::<V>() && r.inserts@ == no_keys::<V>()
//@ fn Default for Proofs::default
//@ ret r
//@ spec
	ensures obeys_key_model::<V>() ==> r.0@ == no_proofs::<V>()
//@ fn ProvingBackend::new
//@ ret r
//@ spec
	ensures
		r.dbv() == old(db).dbv(), r.wf() == old(db).wf(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] r.loose(k) == old(db).loose(k),
		final(r.db).dbv() == final(db).dbv(), final(r.db).wf() == final(db).wf(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] final(r.db).loose(k) == final(db).loose(k),
		r.state.proofs@ == no_proofs::<<DB::Construct as Construct>::Value>(),
		r.state.inserts@ == no_keys::<<DB::Construct as Construct>::Value>(),
//@ start
	proof { axiom_key_model::<DB::Construct>(); }
//@ fn ProvingBackend::from_state
//@ ret r
//@ spec
	ensures
		r.dbv() == old(db).dbv(), r.wf() == old(db).wf(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] r.loose(k) == old(db).loose(k),
		final(r.db).dbv() == final(db).dbv(), final(r.db).wf() == final(db).wf(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] final(r.db).loose(k) == final(db).loose(k),
		r.state == state,
//@ fn ProvingBackend::into_state
//@ ret r
//@ spec
	ensures
		r == self.state,
		final(self.db).dbv() == self.dbv(), final(self.db).wf() == self.wf(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] final(self.db).loose(k) == self.loose(k),
//@ impl Backend for ProvingBackend
//@ ghost
	open spec fn dbv(&self) -> DbView<DB::Construct> { self.db.dbv() }
	open spec fn wf(&self) -> bool { self.db.wf() }
	open spec fn loose(&self, k: <DB::Construct as Construct>::Value) -> bool { self.db.loose(k) }
	proof fn wf_view(&self) { self.db.wf_view(); }
//@ fn ReadBackend for ProvingBackend::get
//@ subst
value.clone()
=====>
clone_pair(&value)
//@ ret r
//@ spec
	ensures
		final(final(self).db).dbv() == final(old(self).db).dbv(),
		final(final(self).db).wf() == final(old(self).db).wf(),
		r matches Ok(v) ==> v == lookup(old(self).dbv().store, *key) && read_step(old(self).state.proofs@, old(self).state.inserts@, *key, v, final(self).state.proofs@),
		r is Err ==> final(self).state.proofs@ == old(self).state.proofs@,
		final(self).state.inserts@ == old(self).state.inserts@,
//@ start
	proof { axiom_key_model::<DB::Construct>(); }
//@ fn WriteBackend for ProvingBackend::rootify
//@ ret r
//@ spec
	ensures
		final(final(self).db).dbv() == final(old(self).db).dbv(),
		final(final(self).db).wf() == final(old(self).db).wf(),
		final(self).state == old(self).state,
//@ fn WriteBackend for ProvingBackend::unrootify
//@ ret r
//@ spec
	ensures
		final(final(self).db).dbv() == final(old(self).db).dbv(),
		final(final(self).db).wf() == final(old(self).db).wf(),
		final(self).state == old(self).state,
//@ fn WriteBackend for ProvingBackend::insert
//@ ret r
//@ spec
	ensures
		final(final(self).db).dbv() == final(old(self).db).dbv(),
		final(final(self).db).wf() == final(old(self).db).wf(),
		final(self).state.proofs@ == old(self).state.proofs@,
		final(self).state.inserts@ == old(self).state.inserts@.insert(key),
//@ start
	proof { axiom_key_model::<DB::Construct>(); }
//@ fn From<ProvingState<V>> for Proofs::from
//@ ret r
//@ spec
	ensures r.0 == state.proofs
//@ item impl From<ProvingState<V>> for Proofs
//@ after
impl<V: Eq + Hash + Ord> FromSpecImpl<ProvingState<V>> for Proofs<V> {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(s: ProvingState<V>) -> Self { Proofs(s.proofs) }
}
//@ fn From<ProvingBackend<'a,DB>> for Proofs::from
//@ ret r
//@ spec
	ensures
		r.0 == backend.state.proofs,
		final(backend.db).dbv() == backend.dbv(), final(backend.db).wf() == backend.wf(),
//@ item impl From<ProvingBackend<'a,DB>> for Proofs
//@ after
impl<'a, DB: Backend + ?Sized> FromSpecImpl<ProvingBackend<'a, DB>> for Proofs<<DB::Construct as Construct>::Value> where
	<DB::Construct as Construct>::Value: Eq + Hash + Ord,
{
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(b: ProvingBackend<'a, DB>) -> Self { Proofs(b.state.proofs) }
}
//@ item enum CompactValue
//@ subst
#[derive(Clone, Eq, PartialEq, Debug)]
=====>

//@ fn Proofs::into_compact
//@ ret r
//@ spec
	requires
		values_ok::<V>(), obeys_key_model::<V>(),
		exists|rank: spec_fn(V) -> nat| #[trigger] ranked(self.0@, rank),
	ensures compact_ok(self.0@, root, r),
	decreases some_rank(self.0@)(root),
//@ start
	proof { lemma_some_rank(self.0@); }
//@ fn Proofs::from_compact
//@ ret r
//@ spec
	ensures
		r.1 == croot::<C>(compact),
		r.0.0@ == cproofs::<C>(compact),
//@ start
	proof { axiom_key_model::<C>(); }
//@ subst
left_proofs.0.into_iter()
				.chain(right_proofs.0.into_iter())
				.collect::<Map<V, (V, V)>>()
=====>
map_union(left_proofs.0, right_proofs.0)
//@ closure 0
param 0 V
param 1 (Proofs<V>, V)
param 2 (Proofs<V>, V)
-> (r: Proofs<V>) ensures expand_step(key, _c1, _c2, r)
//@ hoist 0 f res
	proof { lemma_expand::<C, _>(compact, f, res.0); }
//@ fn CompactValue::len
//@ ret r
//@ spec
	requires leaves(*self) <= usize::MAX,
	ensures r == leaves(*self),
	decreases self,
//@ fn CompactValue::fold
//@ ret r
//@ spec
	requires forall|k: V, a: (R, V), b: (R, V)| call_requires(*f, (k, a, b)),
	ensures
		r.1 == croot::<C>(self),
		folded::<C, R, F>(self, *f, r.0),
	decreases self,
//@ fn CompactValue::root
//@ ret r
//@ spec
	ensures r == croot::<C>(self),
//@ closure 0
param 0 V
param 1 ((), V)
param 2 ((), V)
//@ fn CompactValue::from_plain
//@ ret r
//@ spec
	requires index.v() >= 1,
	ensures
		r is Some <==> items_of(proofs).len() == path(index.v()).len(),
		r matches Some(c) ==> c == plain(leaf, items_of(proofs), path(index.v()), path(index.v()).len() as int),
//@ subst
proofs.into_iter()
=====>
iter_items(proofs)
//@ subst
selections.into_iter().rev()
=====>
items_rev(selections)
//@ start
	let ghost all = items_of(proofs);
	let ghost p = path(index.v());
	let ghost mut n: int = 0;
//@ attr
#[verifier::loop_isolation(false)]
//@ loop 0 before
	proof {
		assert(all.skip(0) =~= all);
		assert(p.reverse().skip(0) =~= p.reverse());
	}
//@ loop 0 spec
	invariant
		0 <= n <= all.len(), 0 <= n <= p.len(),
		proofs.left() == all.skip(n),
		selections.left() == p.reverse().skip(n),
		current == plain(leaf, all, p, n),
		p == path(index.v()),
	decreases p.len() - n,
//@ loop 0 end
	proof {
		n = n + 1;
		assert(all.skip(n - 1).skip(1) =~= all.skip(n));
		assert(p.reverse().skip(n - 1).skip(1) =~= p.reverse().skip(n));
	}
