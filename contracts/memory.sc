//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::mem_model::*;
use crate::stubs::*;
use crate::traits::EmptyConstruct;
use vstd::std_specs::hash::*;
broadcast use {group_value, vstd::std_specs::hash::group_hash_axioms, axiom_as_ref, axiom_from_digest, axiom_from_digest_obeys};

//@ item use generic_array::GenericArray;
//@ drop
//@ item use digest::Digest;
//@ drop
//@ item struct InheritedEmpty
//@ drop
//@ item struct UnitEmpty
//@ drop
//@ trait EmptyStatus
//@ drop
//@ impl EmptyStatus for InheritedEmpty
//@ drop
//@ impl EmptyStatus for UnitEmpty
//@ drop
//@ impl Display for InMemoryBackendError
//@ drop
//@ impl Error for InMemoryBackendError
//@ drop
//@ impl AsRef<Map<C::Value,(Option<(C::Value,C::Value)>,Option<usize>)>> for InMemoryBackend
//@ drop
//@ fn Construct for UnitDigestConstruct::intermediate_of
//@ start
	proof { lemma_bytes(); }
//@ impl Construct for UnitDigestConstruct
//@ ghost
	open spec fn h(left: V, right: V) -> V { value_of(digest_of::<D>(bytes_of(&left) + bytes_of(&right))) }
	open spec fn inherited() -> bool { false }
//@ fn Construct for InheritedDigestConstruct::intermediate_of
//@ start
	proof { lemma_bytes(); }
//@ impl Construct for InheritedDigestConstruct
//@ ghost
	open spec fn h(left: V, right: V) -> V { value_of(digest_of::<D>(bytes_of(&left) + bytes_of(&right))) }
	open spec fn inherited() -> bool { true }
//@ fn Clone for NoopBackend::clone
//@ external_body
//@ fn Clone for InMemoryBackend::clone
//@ external_body
//@ fn Construct for InheritedDigestConstruct::empty_at
//@ loop 0 iter
it
//@ loop 0 spec
	invariant
		db.wf(),
		db.dbv().same_flags(old(db).dbv()),
		db.dbv() == with_empties::<Self>(old(db).dbv(), it.index@ as nat),
		current == empty_spec::<Self>(it.index@ as nat),
		forall|k: V| #[trigger] db.loose(k) ==> old(db).loose(k) || (it.index@ > 0 && k == current),
//@ impl Backend for NoopBackend
//@ ghost
	open spec fn dbv(&self) -> DbView<C> { noop_view::<C>() }
	open spec fn wf(&self) -> bool { true }
	open spec fn loose(&self, k: C::Value) -> bool { false }
	proof fn wf_view(&self) { }
//@ impl Backend for InMemoryBackend
//@ ghost
	open spec fn dbv(&self) -> DbView<C> { mem_view::<C>(self.0@) }
	open spec fn wf(&self) -> bool { mem_inv::<C>(self.0@) }
	open spec fn loose(&self, k: C::Value) -> bool { zero(self.0@, k) }
	proof fn wf_view(&self) { lemma_view_wf::<C>(self.0@); }
//@ fn Default for InMemoryBackend::default
//@ ret r
//@ spec
	ensures
		r.wf(),
		r.0@ == map![dflt::<C::Value>() => (None::<(C::Value, C::Value)>, None::<usize>)],
//@ start
	proof { axiom_key_model::<C>(); }
//@ tail
	proof {
		assert(map@ =~= map![dflt::<C::Value>() => (None::<(C::Value, C::Value)>, None::<usize>)]);
		lemma_default::<C>(map@);
	}
//@ fn InMemoryBackend::remove
//@ ret r
//@ spec
	requires rem_ok::<C>(old(self).0@, *old_key),
	ensures
		r is Ok, rem_post::<C>(old(self).0@, final(self).0@, *old_key),
		pinned(old(self).0@, *old_key) ==> final(self).0@ == old(self).0@,
	decreases positive(old(self).0@).len(),
//@ before-stmt if to_remove
	proof {
		assert(self.0@ =~= decr(m0, *old_key));
		assert(pinned(m0, *old_key) ==> decr(m0, *old_key) =~= m0);
		if to_remove && m0[*old_key].0 is None { lemma_rem_leaf::<C>(m0, *old_key); }
	}
//@ before-stmt self.remove(&old_value.1)?
	let ghost m2 = self.0@;
	proof { lemma_rem_mid::<C>(m0, m2, *old_key); }
//@ after-stmt self.remove(&old_value.1)?
	proof { lemma_rem_node::<C>(m0, m2, self.0@, *old_key); }
//@ start
	let ghost m0 = self.0@;
	proof {
		axiom_key_model::<C>();
		lemma_rem_keep::<C>(self.0@, *old_key);
		if counted(self.0@, *old_key) { lemma_rem_start::<C>(self.0@, *old_key); }
	}
//@ closure 0 ~-= 1
param 0 &mut usize
requires *old(v) > 0 ensures *final(v) == *old(v) - 1
//@ closure 1 ~== 0
param 0 usize
-> (b: bool) ensures b == (v == 0)
//@ fn ReadBackend for InMemoryBackend::get
//@ start
	proof { axiom_key_model::<C>(); }
//@ closure 0
param 0 &(Option<(C::Value, C::Value)>, Option<usize>)
-> (o: Option<(C::Value, C::Value)>) ensures o == v.0
//@ fn WriteBackend for InMemoryBackend::rootify
//@ start
	proof {
		axiom_key_model::<C>();
		// A-CNT: no reference count reaches the machine's maximum.
		assume(counted(self.0@, *key) ==> self.0@[*key].1->0 < usize::MAX);
		lemma_rootify::<C>(self.0@, *key);
	}
//@ closure 0
param 0 &mut usize
requires *old(v) < usize::MAX ensures *final(v) == *old(v) + 1
//@ fn WriteBackend for InMemoryBackend::unrootify
//@ start
	proof { lemma_unrootify::<C>(self.0@, *key); }
//@ fn WriteBackend for InMemoryBackend::insert
//@ start
	proof {
		axiom_key_model::<C>();
		if self.0@.contains_key(key) && self.0@[key].0 is Some {
			lemma_insert_known::<C>(self.0@, key, value.0, value.1);
		} else {
			// A-CNT: no reference count reaches the machine's maximum.
			assume(counted(self.0@, value.0) ==> self.0@[value.0].1->0 < usize::MAX);
			assume(counted(bump(self.0@, value.0), value.1) ==> bump(self.0@, value.0)[value.1].1->0 < usize::MAX);
			lemma_inserted::<C>(self.0@, key, value.0, value.1);
		}
	}
//@ closure 0
param 0 &mut usize
requires *old(v) < usize::MAX ensures *final(v) == *old(v) + 1
//@ closure 1
param 0 &mut usize
requires *old(v) < usize::MAX ensures *final(v) == *old(v) + 1
//@ fn InMemoryBackend::populate
//@ start
	proof { axiom_key_model::<C>(); }
//@ subst
in proofs
=====>
in it: map_entries(proofs)
//@ spec
	requires
		mem_inv::<C>(old(self).0@),
		forall|k: C::Value| #[trigger] proofs@.contains_key(k) ==> k == C::h(proofs@[k].0, proofs@[k].1),
	ensures
		mem_inv::<C>(final(self).0@),
		mem_view::<C>(final(self).0@).store =~= mem_view::<C>(old(self).0@).store.union_prefer_right(proofs@),
		forall|q: C::Value| #[trigger] pinned(final(self).0@, q) <==> pinned(old(self).0@, q) || in_proofs(proofs@, q),
		forall|q: C::Value| #[trigger] rc(final(self).0@, Set::empty(), Set::empty(), q) ==
			(if in_proofs(proofs@, q) { 0 } else { rc(old(self).0@, Set::empty(), Set::empty(), q) }),
		forall|q: C::Value| #[trigger] zero(final(self).0@, q) ==> zero(old(self).0@, q),
//@ loop 0 spec
	invariant
		obeys_key_model::<C::Value>(),
		it.seq() == entries_seq(proofs),
		entries_of(it.seq(), proofs@),
		forall|k: C::Value| #[trigger] proofs@.contains_key(k) ==> k == C::h(proofs@[k].0, proofs@[k].1),
		mem_inv::<C>(self.0@),
		mem_view::<C>(self.0@).store =~= mem_view::<C>(old(self).0@).store.union_prefer_right(part(it.seq(), it.index@ as int)),
		forall|q: C::Value| #[trigger] pinned(self.0@, q) <==> pinned(old(self).0@, q) || in_proofs(part(it.seq(), it.index@ as int), q),
		forall|q: C::Value| #[trigger] rc(self.0@, Set::empty(), Set::empty(), q) ==
			(if in_proofs(part(it.seq(), it.index@ as int), q) { 0 } else { rc(old(self).0@, Set::empty(), Set::empty(), q) }),
		forall|q: C::Value| #[trigger] zero(self.0@, q) ==> zero(old(self).0@, q),
//@ loop 0 start
	proof {
		let i = it.index@ as int;
		lemma_part::<C>(it.seq(), proofs@, i);
		lemma_loaded::<C>(self.0@, key, left, right);
	}
	let ghost m0 = self.0@;
	let ghost (k0, l0, r0) = (key, left, right);
//@ loop 0 end
	proof {
		assert(self.0@ =~= loaded(m0, k0, l0, r0));
	}
//@ end-of-body
	proof {
		lemma_part_all(entries_seq(proofs), proofs@);
	}
