//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::traits::EmptyConstruct;
broadcast use group_value;
//@ impl Default for Raw
//@ fn Default for Raw::default
//@ ret r
//@ spec
	ensures r.root == dflt::<C::Value>()
//@ impl Tree for Raw
//@ ghost
	open spec fn root_s(&self) -> C::Value { self.root }
//@ impl Leak for Raw
//@ ghost
	open spec fn meta(&self) -> C::Value { self.root }
	open spec fn leak_ok(m: C::Value) -> bool { true }
	open spec fn leaked_form(&self) -> bool { true }
//@ fn Raw::new
//@ ret r
//@ spec
	ensures r.root == root
//@ fn Raw::as_dangling
//@ ret r
//@ spec
	ensures r.root == self.root
//@ fn Raw::subtree
//@ ret r
//@ spec
	requires old(db).wf(), index.v() >= 1,
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: C::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && walk(old(db).dbv().store, self.root, path(index.v())) is None,
		r matches Ok(t) ==> walk(old(db).dbv().store, self.root, path(index.v())) == Some(t.root)
//@ fn Raw::get
//@ ret r
//@ spec
	requires old(db).wf(), index.v() >= 1,
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: C::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok,
		r matches Ok(v) ==> v == walk(old(db).dbv().store, self.root, path(index.v())) && (index.v() > 1 ==> old(db).dbv().retains)
//@ start
	proof { assert(path(index.v()).skip(0) =~= path(index.v())); }
//@ loop 0 iter
it
//@ loop 0 spec
	invariant
		db.wf(),
		db.dbv() == old(db).dbv(),
		forall|k: C::Value| #[trigger] db.loose(k) == old(db).loose(k),
		it.seq() == path(index.v()),
		it.index@ > 0 ==> old(db).dbv().retains,
		walk(old(db).dbv().store, self.root, path(index.v())) == walk(old(db).dbv().store, current, path(index.v()).skip(it.index@ as int)),
//@ loop 0 start
	proof {
		assert(path(index.v()).skip(it.index@ as int).drop_first() =~= path(index.v()).skip(it.index@ + 1));
	}
//@ fn Raw::set
//@ ret r
//@ start
	proof {
		db.wf_view();
		lemma_dflt_not_stored::<C>(db.dbv().store);
		lemma_index_path_short(index);
		assert(path(index.v()).take(0) =~= Seq::empty());
		assert(path(index.v()).skip(0) =~= path(index.v()));
		assert(path(index.v()).take(path(index.v()).len() as int) =~= path(index.v()));
		assert(path(index.v()).skip(path(index.v()).len() as int) =~= Seq::empty());
	}
//@ spec
	requires old(db).wf(), index.v() >= 1, !R::dangling() ==> old(db).dbv().holds(old(self).root),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(e) ==> e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r is Ok ==> set_post::<C>(R::dangling(), old(db).dbv(), old(self).root, path(index.v()), set, final(db).dbv(), final(self).root),
		r is Ok ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> (old(db).loose(k) && k != set) || (R::dangling() && k == final(self).root)
//@ loop 0 spec
	invariant
		db.wf(),
		db.dbv() == old(db).dbv(),
		forall|k: C::Value| #[trigger] db.loose(k) == old(db).loose(k),
		route.sels() == path(index.v()),
		depth == values@.len() + 1,
		values@.len() <= path(index.v()).len(),
		values@.len() > 0 ==> old(db).dbv().retains,
		current is Some,
		cod(old(db).dbv().store, current->0) == cod(old(db).dbv().store, dn(old(db).dbv().store, self.root, path(index.v()).take(values@.len() as int))),
		self.root == old(self).root,
		path(index.v()).len() < usize::MAX,
		forall|j: int| 0 <= j < values@.len() ==> #[trigger] values@[j] ==
			(path(index.v())[j], cod(old(db).dbv().store, dn(old(db).dbv().store, self.root, path(index.v()).take(j)))),
	ensures values@.len() == path(index.v()).len(),
	decreases path(index.v()).len() - values@.len(),
//@ tail ok
		proof {
			let ghost d0 = old(db).dbv();
			let ghost root0 = old(self).root;
			let ghost mid = d0.with_store(newstore::<C>(d0.store, root0, path(index.v()), set));
			assert(self.root == newroot::<C>(d0.store, root0, path(index.v()), set));
			assert(R::dangling() ==> db.dbv() == mid);
			assert(!R::dangling() ==> db.dbv().holds(self.root));
			assert(!R::dangling() && d0.retains ==> collected(mid.with_root(self.root, 1).with_root(root0, -1), db.dbv()));
		}
//@ loop 0 start
	proof {
		if values@.len() < path(index.v()).len() {
			lemma_dn_step(old(db).dbv().store, self.root, path(index.v()), values@.len() as int);
		}
		db.wf_view();
		lemma_dflt_not_stored::<C>(db.dbv().store);
	}
//@ loop 1 start
	proof {
		if values@.len() > 0 {
			lemma_new_step::<C>(old(db).dbv().store, self.root, path(index.v()), values@.len() - 1, set);
		}
		if values@.len() < path(index.v()).len() {
			lemma_new_step::<C>(old(db).dbv().store, self.root, path(index.v()), values@.len() as int, set);
		}
	}
//@ loop 1 spec
	invariant
		db.wf(),
		forall|k: C::Value| #[trigger] db.loose(k) ==> (old(db).loose(k) && (values@.len() < path(index.v()).len() ==> k != set)) || k == update,
		values@.len() == path(index.v()).len() ==> update == set,
		values@.len() <= path(index.v()).len(),
		path(index.v()).len() > 0 ==> old(db).dbv().retains,
		forall|j: int| 0 <= j < values@.len() ==> #[trigger] values@[j] ==
			(path(index.v())[j], cod(old(db).dbv().store, dn(old(db).dbv().store, self.root, path(index.v()).take(j)))),
		self.root == old(self).root,
		update == newroot::<C>(old(db).dbv().store, dn(old(db).dbv().store, self.root, path(index.v()).take(values@.len() as int)), path(index.v()).skip(values@.len() as int), set),
		db.dbv() == old(db).dbv().with_store(newstore::<C>(old(db).dbv().store, dn(old(db).dbv().store, self.root, path(index.v()).take(values@.len() as int)), path(index.v()).skip(values@.len() as int), set)),
	ensures values@.len() == 0,
	decreases values@.len(),
//@ fn Leak for Raw::metadata
//@ fn Leak for Raw::from_leaked
