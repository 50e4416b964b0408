//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use vstd::std_specs::convert::FromSpecImpl;
//@ trait Construct
//@ ghost
	/// The node hash as a mathematical function.
	spec fn h(left: Self::Value, right: Self::Value) -> Self::Value;
	/// Whether empty subtrees are hashes of empty subtrees (else the unit).
	spec fn inherited() -> bool;
//@ fn Construct::intermediate_of
//@ ret r
//@ spec
	ensures r == Self::h(*left, *right)
//@ fn Construct::empty_at
//@ ret r
//@ spec
	requires old(db).wf(),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r is Err ==> !old(db).dbv().writes_ok,
		r matches Ok(v) ==> {
			&&& v == empty_spec::<Self>(depth_to_bottom as nat)
			&&& final(db).dbv() == with_empties::<Self>(old(db).dbv(), depth_to_bottom as nat)
			&&& forall|k: Self::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k) || (depth_to_bottom > 0 && Self::inherited() && k == v)
		}
//@ trait RootStatus
//@ ghost
	spec fn dangling() -> bool;
//@ fn RootStatus::is_dangling
//@ ret r
//@ spec
	ensures r == Self::dangling()
//@ fn RootStatus::is_owned
//@ ret r
//@ spec
	ensures r == !Self::dangling()
//@ impl RootStatus for Dangling
//@ ghost
	open spec fn dangling() -> bool { true }
//@ impl RootStatus for Owned
//@ ghost
	open spec fn dangling() -> bool { false }
//@ item impl From<DBError> for Error
//@ after
impl<DBError> FromSpecImpl<DBError> for Error<DBError> {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(e: DBError) -> Self { Error::Backend(e) }
}
//@ fn From<DBError> for Error::from
//@ ret r
//@ spec
	ensures r == Error::Backend(err)
//@ trait Backend
//@ ghost
	/// What the backend holds.
	spec fn dbv(&self) -> DbView<Self::Construct>;
	/// Representation invariant of the backend.
	spec fn wf(&self) -> bool;
	/// Keys the backend keeps although nothing refers to them (yet).
	spec fn loose(&self, k: <Self::Construct as Construct>::Value) -> bool;
	proof fn wf_view(&self)
		requires self.wf(),
		ensures self.dbv().wf();
//@ fn ReadBackend::get
//@ ret r
//@ spec
	requires old(self).wf(),
	ensures
		final(self).wf(),
		final(self).dbv() == old(self).dbv(),
		forall|k: <Self::Construct as Construct>::Value| #[trigger] final(self).loose(k) == old(self).loose(k),
		r is Err ==> !old(self).dbv().reads_ok,
		r matches Ok(v) ==> old(self).dbv().retains && v == lookup(old(self).dbv().store, *key)
//@ fn WriteBackend::rootify
//@ ret r
//@ spec
	requires old(self).wf(),
	ensures
		final(self).wf(),
		final(self).dbv().same_flags(old(self).dbv()),
		r is Err ==> !old(self).dbv().writes_ok,
		r is Ok && old(self).dbv().retains ==> final(self).dbv() == old(self).dbv().with_root(*key, 1),
		r is Ok ==> forall|k: <Self::Construct as Construct>::Value| #[trigger] final(self).loose(k) ==> old(self).loose(k) && k != *key
//@ fn WriteBackend::unrootify
//@ ret r
//@ spec
	requires old(self).wf(), old(self).dbv().holds(*key),
	ensures
		final(self).wf(),
		final(self).dbv().same_flags(old(self).dbv()),
		r is Err ==> !old(self).dbv().writes_ok,
		r is Ok && old(self).dbv().retains ==> collected(old(self).dbv().with_root(*key, -1), final(self).dbv()),
		r is Ok && (old(self).dbv().pinned)(*key) ==> final(self).dbv().store == old(self).dbv().store,
		r is Ok ==> forall|k: <Self::Construct as Construct>::Value| #[trigger] final(self).loose(k) ==> old(self).loose(k)
//@ fn WriteBackend::insert
//@ ret r
//@ spec
	requires old(self).wf(), key == <Self::Construct as Construct>::h(value.0, value.1),
	ensures
		final(self).wf(),
		final(self).dbv().same_flags(old(self).dbv()),
		r is Err ==> !old(self).dbv().writes_ok,
		r is Ok ==> final(self).dbv() == old(self).dbv().with_insert(key, value),
		r is Ok ==> forall|k: <Self::Construct as Construct>::Value| #[trigger] final(self).loose(k) ==> (old(self).loose(k) || k == key) && k != value.0 && k != value.1
//@ trait Tree
//@ ghost
	/// The root of the tree, as a mathematical value.
	spec fn root_s(&self) -> <Self::Construct as Construct>::Value;
//@ fn Tree::root
//@ ret r
//@ spec
	ensures r == self.root_s()
//@ fn Tree::drop
//@ ret r
//@ spec
	requires old(db).wf(), !Self::RootStatus::dangling() ==> old(db).dbv().holds(self.root_s()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(e) ==> e is Backend && !old(db).dbv().writes_ok,
		r is Ok && Self::RootStatus::dangling() ==> final(db).dbv() == old(db).dbv(),
		r is Ok ==> forall|k: <Self::Construct as Construct>::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
		r is Ok && !Self::RootStatus::dangling() && old(db).dbv().retains ==>
			collected(old(db).dbv().with_root(self.root_s(), -1), final(db).dbv())
//@ fn Tree::into_raw
//@ ret r
//@ spec
	ensures r.root == self.root_s()
//@ trait Sequence
//@ ghost
	spec fn len_s(&self) -> nat;
//@ fn Sequence::len
//@ ret r
//@ spec
	ensures r == self.len_s()
//@ trait Leak
//@ supertrait
Sized
//@ ghost
	spec fn meta(&self) -> Self::Metadata;
	/// The lengths in the metadata are ones the layout can address.
	spec fn leak_ok(m: Self::Metadata) -> bool;
	/// What the metadata does not record is as it follows from the lengths.
	spec fn leaked_form(&self) -> bool;
//@ fn Leak::from_leaked
//@ ret r
//@ spec
	requires Self::leak_ok(metadata),
	ensures r.meta() == metadata, r.leaked_form()
//@ fn Leak::metadata
//@ ret r
//@ spec
	ensures r == self.meta()
//@ impl Backend for DynBackend
//@ ghost
	open spec fn dbv(&self) -> DbView<Ba::Construct> { self.0.dbv() }
	open spec fn wf(&self) -> bool { self.0.wf() }
	open spec fn loose(&self, k: <Ba::Construct as Construct>::Value) -> bool { self.0.loose(k) }
	proof fn wf_view(&self) { self.0.wf_view(); }
//@ postlude
/// A well-formed backend's view is well-formed.
pub broadcast proof fn wf_has_view<B: Backend + ?Sized>(b: &B)
	requires #[trigger] b.wf(),
	ensures b.dbv().wf(),
{ b.wf_view(); }
