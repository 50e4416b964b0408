//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::vec_model::*;
use crate::len_model::*;
use crate::raw_thm::*;
use crate::index::IndexSelection;
use crate::traits::EmptyConstruct;
broadcast use {group_value, crate::model::group_shift, crate::traits::wf_has_view};
//@ item const LEN_INDEX
//@ const-spec
	ensures LEN_INDEX.v() == 3
//@ item const ITEM_ROOT_INDEX
//@ const-spec
	ensures ITEM_ROOT_INDEX.v() == 2
//@ item struct LengthMixed
//@ attr
#[verifier::reject_recursive_types(C)]
//@ after
impl<R: RootStatus, C: EmptyConstruct, S: Sequence<Construct=C, RootStatus=Dangling>> LengthMixed<R, C, S> {
	pub open spec fn rt(&self) -> C::Value { self.raw.root }
	pub open spec fn items(&self) -> S { self.inner }
	/// The root commits to the item root and the length.
	pub open spec fn linked(&self, db: DbView<C>) -> bool where C::Value: From<usize> {
		db.store.contains_key(self.raw.root) && db.store[self.raw.root] == (self.inner.root_s(), len_val::<C::Value>(self.inner.len_s() as usize))
	}
}
//@ fn LengthMixed::reconstruct
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(),
		forall|w: Raw<Dangling, C>, d: &mut DB, n: usize| d.wf() && d.dbv() == old(db).dbv() && n <= pow2(63) ==> #[trigger] f.requires((w, d, n)),
		forall|w: Raw<Dangling, C>, d: &mut DB, n: usize, x: Result<S, Error<DB::Error>>| d.wf() && d.dbv() == old(db).dbv() && #[trigger] f.ensures((w, d, n), x)
			==> final(d).wf() && final(d).dbv().same_flags(d.dbv()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		({
			let s = old(db).dbv().store;
			let sound = s.contains_key(root) && val_len(s[root].1) <= pow2(63);
			||| sound && exists|w: Raw<Dangling, C>, d: &mut DB, x: Result<S, Error<DB::Error>>| w.root == s[root].0 && d.dbv() == old(db).dbv() && d.wf()
				&& #[trigger] f.ensures((w, d, val_len(s[root].1)), x) && final(db).dbv() == final(d).dbv()
				&& (r matches Ok(t) ==> x == Ok::<S, Error<DB::Error>>(t.inner)) && (r matches Err(e) ==> x == Err::<S, Error<DB::Error>>(e))
			||| final(db).dbv() == old(db).dbv() && (r matches Err(e) && (e is CorruptedDatabase && !sound || e is Backend && !old(db).dbv().reads_ok))
		}),
		r matches Ok(t) ==> t.raw.root == root,
//@ start
	proof { lemma_ext_paths(); lemma_walk1(db.dbv().store, root); lemma2_to64_rest(); }
//@ fn LengthMixed::deconstruct
//@ ret r
//@ spec
	requires old(db).wf(),
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		r matches Ok(x) ==> x == self.raw.root,
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok,
//@ fn LengthMixed::with
//@ ret r
//@ spec
	requires old(db).wf(), forall|s: &S, d: &mut DB| *s == self.inner && d.wf() && d.dbv() == old(db).dbv() ==> #[trigger] f.requires((s, d)),
	ensures exists|s: &S, d: &mut DB| *s == self.inner && d.wf() && d.dbv() == old(db).dbv() && #[trigger] f.ensures((s, d), r) && final(db).dbv() == final(d).dbv() && (final(d).wf() ==> final(db).wf()),
//@ fn LengthMixed::with_mut
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(),
		!R::dangling() ==> old(db).dbv().holds(old(self).raw.root),
		forall|s: &mut S, d: &mut DB| *s == old(self).inner && d.wf() && d.dbv() == old(db).dbv() ==> #[trigger] f.requires((s, d)),
		forall|s: &mut S, d: &mut DB, x: Result<RT, Error<DB::Error>>| *s == old(self).inner && d.wf() && d.dbv() == old(db).dbv() && #[trigger] f.ensures((s, d), x)
			==> final(d).wf() && final(d).dbv().same_flags(d.dbv()) && (x is Ok ==> moved(true, d.dbv(), s.root_s(), final(d).dbv(), final(s).root_s())),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		exists|s: &mut S, d: &mut DB, x: Result<RT, Error<DB::Error>>| {
			&&& *s == old(self).inner && d.wf() && d.dbv() == old(db).dbv() && #[trigger] f.ensures((s, d), x)
			&&& final(self).inner == *final(s)
			&&& x is Err ==> r == x && final(self).raw == old(self).raw && final(db).dbv() == final(d).dbv() && (final(d).wf() ==> final(db).wf())
			&&& x is Ok ==> {
				&&& r matches Err(e) ==> e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok)
				&&& r is Ok ==> r == x && kept(final(d).dbv().store, final(db).dbv().store, final(self).inner.root_s())
			}
		},
		r is Ok ==> {
			&&& moved(R::dangling(), old(db).dbv(), old(self).raw.root, final(db).dbv(), final(self).raw.root)
			&&& final(self).linked(final(db).dbv())
			&&& final(self).raw.root == C::h(final(self).inner.root_s(), len_val::<C::Value>(final(self).inner.len_s() as usize))
			&&& old(db).dbv().retains
		},
//@ start
	proof { lemma_ext_paths(); }
	let ghost d0 = db.dbv();
	let ghost r0 = self.raw.root;
	let ghost x0 = self.inner.root_s();
//@ after-stmt let ret
	let ghost dm = db.dbv();
//@ after-stmt #0 self.raw.set
	let ghost d1 = db.dbv();
	let ghost r1 = self.raw.root;
//@ after-stmt #1 self.raw.set
	proof {
		lemma_relink::<C>(R::dangling(), dm, r0, self.inner.root_s(), len_val::<C::Value>(self.inner.len_s() as usize), d1, r1, db.dbv(), self.raw.root);
		lemma_moved_below::<C>(R::dangling(), d0, r0, x0, dm, self.inner.root_s(), db.dbv(), self.raw.root);
	}
//@ fn LengthMixed::create
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(),
		forall|d: &mut DB| d.wf() && d.dbv() == old(db).dbv() ==> #[trigger] f.requires((d,)),
		forall|d: &mut DB, x: Result<OS, Error<DB::Error>>| d.wf() && d.dbv() == old(db).dbv() && #[trigger] f.ensures((d,), x)
			==> final(d).wf() && final(d).dbv().same_flags(d.dbv()) && (x matches Ok(os) ==> S::leak_ok(os.meta()) && moved(OS::RootStatus::dangling(), d.dbv(), dflt(), final(d).dbv(), os.root_s())),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		exists|d: &mut DB, x: Result<OS, Error<DB::Error>>| {
			&&& d.wf() && d.dbv() == old(db).dbv() && #[trigger] f.ensures((d,), x)
			&&& x matches Err(e) ==> r == Err::<Self, Error<DB::Error>>(e) && final(db).dbv() == final(d).dbv() && (final(d).wf() ==> final(db).wf())
			&&& x matches Ok(os) ==> {
				&&& r matches Err(e) ==> e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok)
				&&& r matches Ok(t) ==> {
					&&& t.inner.meta() == os.meta() && t.inner.leaked_form()
					&&& t.raw.root == C::h(os.root_s(), len_val::<C::Value>(os.len_s() as usize))
					&&& final(db).dbv().store.contains_key(t.raw.root)
					&&& final(db).dbv().store[t.raw.root] == (os.root_s(), len_val::<C::Value>(os.len_s() as usize))
					&&& kept(final(d).dbv().store, final(db).dbv().store, os.root_s())
				}
			}
		},
		r matches Ok(t) ==> moved(false, old(db).dbv(), dflt(), final(db).dbv(), t.raw.root) && old(db).dbv().retains,
//@ start
	proof { lemma_ext_paths(); }
	let ghost d0 = db.dbv();
//@ after-stmt let inner
	let ghost dm = db.dbv();
	let ghost (ir, lv) = (inner.root_s(), len_val::<C::Value>(inner.len_s() as usize));
//@ after-stmt #0 raw.set
	let ghost d1 = db.dbv();
	let ghost r1 = raw.root;
//@ after-stmt #1 raw.set
	let ghost d2 = db.dbv();
	proof {
		lemma_relink::<C>(false, dm, dflt(), ir, lv, d1, r1, d2, raw.root);
		lemma_release_pre::<C>(OS::RootStatus::dangling(), d0, dm, ir, d2, raw.root);
	}
//@ after-stmt inner.drop
	proof {
		lemma_moved_release::<C>(OS::RootStatus::dangling(), d0, dm, ir, d2, raw.root, db.dbv());
		lemma_kept_child(d2.store, db.dbv().store, raw.root);
		lemma_kept_trans(dm.store, d2.store, db.dbv().store, ir);
	}
//@ impl Tree for LengthMixed
//@ ghost
	open spec fn root_s(&self) -> C::Value { self.raw.root }
//@ impl Sequence for LengthMixed
//@ ghost
	open spec fn len_s(&self) -> nat { self.inner.len_s() }
//@ impl Leak for LengthMixed
//@ ghost
	open spec fn meta(&self) -> (C::Value, S::Metadata) { (self.raw.root, self.inner.meta()) }
	open spec fn leak_ok(m: (C::Value, S::Metadata)) -> bool { S::leak_ok(m.1) }
	open spec fn leaked_form(&self) -> bool { self.inner.leaked_form() }
