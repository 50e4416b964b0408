//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::vec_model::*;
use crate::len_model::*;
use crate::raw_thm::*;
use crate::index::IndexSelection;
use crate::traits::EmptyConstruct;
broadcast use {group_value, crate::traits::wf_has_view, crate::len_model::tree_survives};
//@ item struct List
//@ attr
#[verifier::reject_recursive_types(C)]
//@ after
impl<R: RootStatus, C: EmptyConstruct> List<R, C> where C::Value: From<usize> + Into<usize> {
	pub open spec fn rt(&self) -> C::Value { self.0.raw.root }
	pub open spec fn items(&self) -> Vector<Dangling, C> { self.0.inner }
	pub open spec fn shape(&self) -> bool { self.0.inner.shape() }
	/// The database holds this list: its root commits to the length and to
	/// the root of a tree with these elements.
	pub open spec fn holds_list(&self, db: DbView<C>, v: Seq<C::Value>) -> bool {
		self.0.linked(db) && self.0.inner.holds_elems(db, v)
	}
}
//@ fn List::get
//@ ret r
//@ spec
	requires old(db).wf(), self.shape(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		r matches Err(Error::AccessOverflowed) <==> index >= self.0.inner.len,
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !old(db).dbv().reads_ok,
		forall|v: Seq<C::Value>| #[trigger] self.0.inner.holds_elems(old(db).dbv(), v) ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(x) ==> forall|v: Seq<C::Value>| #[trigger] self.0.inner.holds_elems(old(db).dbv(), v) ==> x == v[index as int],
//@ closure 0
param 0 &Vector<Dangling, C>
param 1 &mut DB
-> (r: Result<C::Value, Error<DB::Error>>)
	requires old(db).wf(), tuple.shape(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		r matches Err(Error::AccessOverflowed) <==> index >= tuple.len,
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !old(db).dbv().reads_ok,
		forall|v: Seq<C::Value>| #[trigger] tuple.holds_elems(old(db).dbv(), v) ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(x) ==> forall|v: Seq<C::Value>| #[trigger] tuple.holds_elems(old(db).dbv(), v) ==> x == v[index as int],
//@ fn List::set
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> index >= old(self).0.inner.len,
		r matches Err(Error::AccessOverflowed) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(_) ==> {
			&&& final(self).shape()
			&&& final(self).0.inner.len == old(self).0.inner.len && final(self).0.inner.max_len == old(self).0.inner.max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& final(self).0.linked(final(db).dbv())
			&&& forall|v: Seq<C::Value>| #[trigger] old(self).0.inner.holds_elems(old(db).dbv(), v)
				==> final(self).holds_list(final(db).dbv(), v.update(index as int, value))
		},
//@ closure 0
param 0 &mut Vector<Dangling, C>
param 1 &mut DB
-> (r: Result<(), Error<DB::Error>>)
	requires
		old(db).wf(), old(tuple).shape(),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> index >= old(tuple).len,
		r matches Err(Error::AccessOverflowed) ==> *final(tuple) == *old(tuple) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r is Ok ==> {
			&&& final(tuple).shape()
			&&& moved(true, old(db).dbv(), old(tuple).rt(), final(db).dbv(), final(tuple).rt())
		},
		r matches Ok(_) ==> {
			&&& final(tuple).len == old(tuple).len && final(tuple).max_len == old(tuple).max_len
			&&& forall|v: Seq<C::Value>| #[trigger] old(tuple).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
				==> final(tuple).holds_elems(final(db).dbv(), v.update(index as int, value))
		},
//@ start
	let ghost d0 = db.dbv();
	let ghost t0 = self.0.inner;
	proof { lemma_moved_refl::<C>(true, d0, t0.rt()); }
//@ fn List::push
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> full(old(self).0.inner.len as nat, old(self).0.inner.max_len),
		r matches Err(Error::AccessOverflowed) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(_) ==> {
			&&& final(self).shape()
			&&& final(self).0.inner.len == old(self).0.inner.len + 1 && final(self).0.inner.max_len == old(self).0.inner.max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& final(self).0.linked(final(db).dbv())
			&&& forall|v: Seq<C::Value>| #[trigger] old(self).0.inner.holds_elems(old(db).dbv(), v)
				==> final(self).holds_list(final(db).dbv(), v.push(value))
		},
//@ closure 0
param 0 &mut Vector<Dangling, C>
param 1 &mut DB
-> (r: Result<(), Error<DB::Error>>)
	requires
		old(db).wf(), old(tuple).shape(),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> full(old(tuple).len as nat, old(tuple).max_len),
		r matches Err(Error::AccessOverflowed) ==> *final(tuple) == *old(tuple) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r is Ok ==> {
			&&& final(tuple).shape()
			&&& moved(true, old(db).dbv(), old(tuple).rt(), final(db).dbv(), final(tuple).rt())
		},
		r matches Ok(_) ==> {
			&&& final(tuple).len == old(tuple).len + 1 && final(tuple).max_len == old(tuple).max_len
			&&& forall|v: Seq<C::Value>| #[trigger] old(tuple).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
				==> final(tuple).holds_elems(final(db).dbv(), v.push(value))
		},
//@ start
	let ghost d0 = db.dbv();
	let ghost t0 = self.0.inner;
	proof { lemma_moved_refl::<C>(true, d0, t0.rt()); }
//@ fn List::pop
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		
		r matches Err(e) ==> e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(None) <==> old(self).0.inner.len == 0 && r is Ok,
		forall|v: Seq<C::Value>| #[trigger] old(self).0.inner.holds_elems(old(db).dbv(), v) ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(Some(x)) ==> {
			&&& final(self).shape()
			&&& final(self).0.inner.len == old(self).0.inner.len - 1 && final(self).0.inner.max_len == old(self).0.inner.max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& final(self).0.linked(final(db).dbv())
			&&& forall|v: Seq<C::Value>| #[trigger] old(self).0.inner.holds_elems(old(db).dbv(), v)
				==> x == v.last() && final(self).holds_list(final(db).dbv(), v.drop_last())
		},
//@ closure 0
param 0 &mut Vector<Dangling, C>
param 1 &mut DB
-> (r: Result<Option<C::Value>, Error<DB::Error>>)
	requires
		old(db).wf(), old(tuple).shape(),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		
		r matches Err(e) ==> e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(None) <==> old(tuple).len == 0 && r is Ok,
		forall|v: Seq<C::Value>| #[trigger] old(tuple).holds_elems(old(db).dbv(), v) ==> !(r matches Err(Error::CorruptedDatabase)),
		r is Ok ==> {
			&&& final(tuple).shape()
			&&& moved(true, old(db).dbv(), old(tuple).rt(), final(db).dbv(), final(tuple).rt())
		},
		r matches Ok(Some(x)) ==> {
			&&& final(tuple).len == old(tuple).len - 1 && final(tuple).max_len == old(tuple).max_len
			&&& forall|v: Seq<C::Value>| #[trigger] old(tuple).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
				==> x == v.last() && final(tuple).holds_elems(final(db).dbv(), v.drop_last())
		},
//@ start
	let ghost d0 = db.dbv();
	let ghost t0 = self.0.inner;
	proof { lemma_moved_refl::<C>(true, d0, t0.rt()); }
//@ fn List::deconstruct
//@ ret r
//@ spec
	requires old(db).wf(),
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		r matches Ok(x) ==> x == self.rt(),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok,
//@ fn List::reconstruct
//@ ret r
//@ spec
	requires old(db).wf(), lawful_len::<C::Value>(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is CorruptedDatabase || e is Backend && !old(db).dbv().reads_ok,
		({
			let s = old(db).dbv().store;
			let n = val_len(s[root].1);
			let sound = s.contains_key(root) && n <= pow2(63) && (max_len matches Some(m) ==> n <= m);
			&&& r is Ok ==> sound
			&&& sound ==> !(r matches Err(Error::CorruptedDatabase))
		}),
		r matches Ok(t) ==> {
			let s = old(db).dbv().store;
			&&& t.rt() == root && t.0.inner.rt() == s[root].0
			&&& t.0.inner.len == val_len(s[root].1) && t.0.inner.max_len == max_len
		},
//@ closure 0 ~from_raw
param 0 Raw<Dangling, C>
param 1 &mut DB
param 2 usize
-> (r: Result<Vector<Dangling, C>, Error<DB::Error>>)
	requires old(_db).wf(),
	ensures
		final(_db).wf(), final(_db).dbv() == old(_db).dbv(),
		r matches Err(e) ==> e is CorruptedDatabase,
		r is Ok <==> (max_len matches Some(m) ==> len <= m),
		r matches Ok(t) ==> t.raw == tuple_raw && t.len == len && t.max_len == max_len,
//@ closure 1 ~as u64 >
param 0 u64
-> (b: bool)
	ensures b == (len as u64 > max_len),
//@ fn List::from_raw
//@ ret r
//@ spec
	ensures r.0.raw.root == raw.root, r.0.inner.len == len, r.0.inner.max_len == max_len,
//@ impl Tree for List
//@ ghost
	open spec fn root_s(&self) -> C::Value { self.rt() }
//@ impl Sequence for List
//@ ghost
	open spec fn len_s(&self) -> nat { self.0.inner.len as nat }
//@ impl Leak for List
//@ ghost
	open spec fn meta(&self) -> Self::Metadata { self.0.meta() }
	open spec fn leak_ok(m: Self::Metadata) -> bool { true }
	open spec fn leaked_form(&self) -> bool { true }
//@ fn List::create
//@ ret r
//@ spec
	requires old(db).wf(), lawful_len::<C::Value>(), max_len matches Some(m) ==> m <= pow2(63),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::InvalidParameter) <==> max_len == Some(0u64),
		r matches Err(Error::InvalidParameter) ==> final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is InvalidParameter || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(t) ==> {
			&&& t.shape() && t.0.inner.len == 0 && t.0.inner.max_len == max_len
			&&& moved(false, old(db).dbv(), dflt(), final(db).dbv(), t.rt())
			&&& t.holds_list(final(db).dbv(), Seq::empty())
		},
//@ closure 0
param 0 &mut DB
-> (r: Result<Vector<Owned, C>, Error<DB::Error>>)
	requires old(db).wf(), max_len matches Some(m) ==> m <= pow2(63),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::InvalidParameter) <==> max_len == Some(0u64),
		r matches Err(Error::InvalidParameter) ==> final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is InvalidParameter || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(t) ==> {
			&&& t.shape() && t.len == 0 && t.max_len == max_len
			&&& moved(false, old(db).dbv(), dflt(), final(db).dbv(), t.rt())
			&&& old(db).dbv().retains ==> t.holds_elems(final(db).dbv(), Seq::empty())
		},
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ postlude
/// A list's root depends only on its length and elements.
pub proof fn theorem_list_root<R: RootStatus, C: EmptyConstruct>(t: List<R, C>, db: DbView<C>, v: Seq<C::Value>) where C::Value: From<usize> + Into<usize>
	requires db.wf(), t.shape(), t.holds_list(db, v),
	ensures t.rt() == C::h(mroot::<C>(v, t.0.inner.vd()), len_val::<C::Value>(v.len() as usize)),
{
	theorem_root::<C>(db.store, t.0.inner.rt(), t.0.inner.vd(), v);
}
