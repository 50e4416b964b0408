//! Ghost model and lemmas.  Nothing here is executable.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
pub use vstd::arithmetic::power2::*;
use crate::index::{IndexSelection, IndexRoute, Index};
use crate::traits::*;
use vstd::std_specs::control_flow::*;
verus! {

// The machine this runs on: 64-bit (assumption A-64).
global size_of usize == 8;

// ---------------------------------------------------------------- std specs
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
	ensures final(s)@ == old(s)@.reverse();

// Library functions the present source does not call, so that an edit may.
pub assume_specification<T> [core::mem::replace] (dest: &mut T, src: T) -> (r: T)
	ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T: Default> [core::mem::take] (dest: &mut T) -> (r: T)
	ensures r == *old(dest), call_ensures(T::default, (), *final(dest));
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
	requires o is Some ==> call_requires(f, (o->0,)),
	ensures o is None ==> r == d, o is Some ==> call_ensures(f, (o->0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
	requires o is Some ==> call_requires(f, (o->0,)),
	ensures o is None ==> !r, o is Some ==> call_ensures(f, (o->0,), r);
pub assume_specification<T, F: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, f: F) -> (r: Option<T>)
	requires o is Some ==> call_requires(f, (&o->0,)),
	ensures r is Some ==> r == o, o is Some ==> call_ensures(f, (&o->0,), r is Some);
pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>)
	ensures o is Some <==> r is Some, o is Some ==> r->0 == *o->0;
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
	ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
	requires o is Ok ==> call_requires(f, (o->Ok_0,)),
	ensures o matches Err(e) ==> r == Err::<U, E>(e), o is Ok ==> call_ensures(f, (o->Ok_0,), r);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T)
	ensures r == (if o is Ok { o->Ok_0 } else { d });
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
	ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);

// -------------------------------------------- doubling and halving by shifts
pub broadcast proof fn u64_shl1(x: u64)
	requires x <= 0x7fff_ffff_ffff_ffff,
	ensures #[trigger] (x << 1u32) == 2 * x,
{ assert(x << 1u32 == mul(2, x)) by (bit_vector) requires x <= 0x7fff_ffff_ffff_ffff; }
pub broadcast proof fn u64_shr1(x: u64)
	ensures #[trigger] (x >> 1u32) == x / 2,
{ assert(x >> 1u32 == x / 2) by (bit_vector); }
pub broadcast proof fn u64_odd(x: u64)
	ensures #[trigger] (x & 1) == x % 2,
{ assert(x & 1 == x % 2) by (bit_vector); }
pub broadcast proof fn usize_shl1(x: usize)
	requires x <= 0x7fff_ffff_ffff_ffff,
	ensures #[trigger] (x << 1u32) == 2 * x,
{ assert(x << 1u32 == mul(2, x)) by (bit_vector) requires x <= 0x7fff_ffff_ffff_ffff; }
pub broadcast proof fn usize_shr1(x: usize)
	ensures #[trigger] (x >> 1u32) == x / 2,
{ assert(x >> 1u32 == x / 2) by (bit_vector); }
pub broadcast proof fn usize_odd(x: usize)
	ensures #[trigger] (x & 1) == x % 2,
{ assert(x & 1 == x % 2) by (bit_vector); }
pub broadcast group group_shift { u64_shl1, u64_shr1, u64_odd, usize_shl1, usize_shr1, usize_odd }

// ------------------------------------------------------------ index algebra
pub open spec fn last_sel(n: nat) -> IndexSelection {
	if n % 2 == 0 { IndexSelection::Left } else { IndexSelection::Right }
}

/// The path (root first) denoted by a generalized index.
pub open spec fn path(n: nat) -> Seq<IndexSelection>
	decreases n
{
	if n <= 1 { Seq::empty() } else { path(n / 2).push(last_sel(n)) }
}

/// The generalized index of a path.
pub open spec fn index_of(p: Seq<IndexSelection>) -> nat
	decreases p.len()
{
	if p.len() == 0 { 1 } else {
		2 * index_of(p.drop_last()) + if p.last() is Left { 0nat } else { 1nat }
	}
}

pub open spec fn is_proper_descendant(a: nat, b: nat) -> bool
	decreases b
{
	b > 1 && (b / 2 == a || is_proper_descendant(a, b / 2))
}

/// `d` bits of `i`, most significant first.
pub open spec fn bits_be(i: nat, d: nat) -> Seq<IndexSelection>
	decreases d
{
	if d == 0 { Seq::empty() } else { bits_be(i / 2, (d - 1) as nat).push(last_sel(i)) }
}

pub proof fn lemma_path_child(n: nat)
	ensures
		n >= 1 ==> path(2 * n) == path(n).push(IndexSelection::Left),
		n >= 1 ==> path(2 * n + 1) == path(n).push(IndexSelection::Right),
{
	if n >= 1 {
		assert((2 * n) / 2 == n && (2 * n + 1) / 2 == n);
	}
}

pub proof fn lemma_path_len(n: nat)
	ensures
		n > 1 ==> path(n) == path(n / 2).push(last_sel(n)) && path(n).len() == path(n / 2).len() + 1,
		n > 1 ==> n / 2 >= 1,
		n <= 1 ==> path(n).len() == 0,
{}

pub proof fn lemma_index_of_path(n: nat)
	requires n >= 1,
	ensures index_of(path(n)) == n,
	decreases n,
{
	if n > 1 {
		lemma_index_of_path(n / 2);
		assert(path(n).drop_last() =~= path(n / 2));
	}
}

pub proof fn lemma_path_of_index(p: Seq<IndexSelection>)
	ensures index_of(p) >= 1, path(index_of(p)) == p,
	decreases p.len(),
{
	if p.len() > 0 {
		lemma_path_of_index(p.drop_last());
		lemma_path_child(index_of(p.drop_last()));
		assert(p =~= p.drop_last().push(p.last()));
	}
}

/// Routes determine indices.
pub proof fn lemma_path_injective(a: nat, b: nat)
	requires a >= 1, b >= 1, path(a) == path(b),
	ensures a == b,
{
	lemma_index_of_path(a);
	lemma_index_of_path(b);
}

pub open spec fn is_proper_prefix<T>(a: Seq<T>, b: Seq<T>) -> bool {
	a.len() < b.len() && a == b.take(a.len() as int)
}

pub proof fn lemma_desc_prefix(a: nat, b: nat)
	requires a >= 1, b >= 1,
	ensures is_proper_descendant(a, b) <==> is_proper_prefix(path(a), path(b)),
	decreases b,
{
	if b > 1 {
		lemma_desc_prefix(a, b / 2);
		let pb = path(b);
		let ph = path(b / 2);
		assert(pb == ph.push(last_sel(b)));
		assert(pb.take(ph.len() as int) =~= ph);
		if is_proper_prefix(path(a), pb) {
			if path(a).len() == ph.len() {
				lemma_path_injective(a, b / 2);
			} else {
				assert(ph.take(path(a).len() as int) =~= pb.take(path(a).len() as int));
			}
		}
		if is_proper_prefix(path(a), ph) {
			assert(ph.take(path(a).len() as int) =~= pb.take(path(a).len() as int));
		}
	}
}

pub proof fn lemma_path_from_depth(i: nat, d: nat)
	requires i < pow2(d),
	ensures path(pow2(d) + i) == bits_be(i, d), pow2(d) + i >= 1, bits_be(i, d).len() == d,
	decreases d,
{
	lemma_pow2_pos(d);
	if d == 0 {
		lemma2_to64();
	} else {
		lemma_pow2_unfold(d);
		let dd = (d - 1) as nat;
		assert(i / 2 < pow2(dd));
		lemma_path_from_depth(i / 2, dd);
		assert((pow2(d) + i) / 2 == pow2(dd) + i / 2);
		assert((pow2(d) + i) % 2 == i % 2);
		assert(pow2(d) + i > 1);
	}
}

pub proof fn lemma_bits_injective(i: nat, j: nat, d: nat)
	requires i < pow2(d), j < pow2(d), bits_be(i, d) == bits_be(j, d),
	ensures i == j,
{
	lemma_path_from_depth(i, d);
	lemma_path_from_depth(j, d);
	lemma_path_injective(pow2(d) + i, pow2(d) + j);
}

pub proof fn lemma_pow2_mono(a: nat, b: nat)
	requires a <= b,
	ensures pow2(a) <= pow2(b),
{
	if a < b { lemma_pow2_strictly_increases(a, b); }
}

pub proof fn lemma_shl_pow2(d: usize)
	requires d < usize::BITS,
	ensures (1usize << d) == pow2(d as nat), pow2(d as nat) <= (usize::MAX as nat + 1) / 2, pow2(d as nat) >= 1,
{
	lemma2_to64();
	lemma2_to64_rest();
	lemma_pow2_mono(d as nat, 63);
	lemma_pow2_pos(d as nat);
	vstd::bits::lemma_usize_shl_is_mul(1, d);
}

pub proof fn lemma_route_step(value: usize, s: Seq<IndexSelection>)
	ensures
		value >> 1usize == value / 2,
		value & 1usize == value % 2,
		value > 1 ==> path(value as nat) + s.reverse() == path((value / 2) as nat) + s.push(last_sel(value as nat)).reverse(),
		value <= 1 ==> path(value as nat) + s.reverse() == s.reverse(),
{
	assert(value >> 1usize == value / 2) by (bit_vector);
	assert(value & 1usize == value % 2) by (bit_vector);
	if value > 1 {
		assert(path(value as nat) + s.reverse() =~= path((value / 2) as nat) + s.push(last_sel(value as nat)).reverse());
	} else {
		assert(path(value as nat) + s.reverse() =~= s.reverse());
	}
}


// ------------------------------------------------------------ database view

/// The default (empty leaf) value of a construct.
pub uninterp spec fn dflt<V>() -> V;

/// What a backend holds, as the trees above it can observe it.
pub ghost struct DbView<C: Construct> {
	/// Does the backend retain what is inserted (a no-op backend does not)?
	pub retains: bool,
	/// Reads never fail / writes never fail.
	pub reads_ok: bool,
	pub writes_ok: bool,
	/// The known internal nodes: key to (left, right).
	pub store: Map<C::Value, (C::Value, C::Value)>,
	/// Number of outstanding root references of a (counted) key.
	pub roots: spec_fn(C::Value) -> int,
	/// Keys that are never collected.
	pub pinned: spec_fn(C::Value) -> bool,
}

pub open spec fn store_wf<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>) -> bool {
	forall|k: C::Value| #[trigger] s.contains_key(k) ==> k == C::h(s[k].0, s[k].1)
}

impl<C: Construct> DbView<C> {
	pub open spec fn wf(self) -> bool {
		&&& store_wf::<C>(self.store)
		&&& (self.pinned)(dflt())
		&&& forall|k: C::Value| #[trigger] (self.roots)(k) >= 0
	}
	/// A tree may hold `k` as its owned root.
	pub open spec fn holds(self, k: C::Value) -> bool {
		self.retains ==> (self.pinned)(k) || (self.roots)(k) >= 1
	}
	pub open spec fn same_flags(self, o: Self) -> bool {
		self.retains == o.retains && self.reads_ok == o.reads_ok && self.writes_ok == o.writes_ok && self.pinned == o.pinned
	}
	pub open spec fn with_store(self, s: Map<C::Value, (C::Value, C::Value)>) -> Self {
		DbView { store: s, ..self }
	}
	pub open spec fn with_insert(self, k: C::Value, v: (C::Value, C::Value)) -> Self {
		if self.retains { DbView { store: self.store.insert(k, v), ..self } } else { self }
	}
	/// The view after adding `d` root references to `k`.
	pub open spec fn with_root(self, k: C::Value, d: int) -> Self {
		DbView { roots: |x: C::Value| if x == k && !(self.pinned)(k) { (self.roots)(x) + d } else { (self.roots)(x) }, ..self }
	}
	/// A key whose known descendants may not be collected.
	pub open spec fn live(self, k: C::Value) -> bool {
		(self.pinned)(k) || (self.roots)(k) >= 1
	}
}

/// `new` is `old` after some unreferenced nodes were collected: nothing is
/// added or altered, no rooted or pinned node goes, and no child that a
/// surviving node refers to goes.
pub open spec fn collected<C: Construct>(old: DbView<C>, new: DbView<C>) -> bool {
	&&& new.same_flags(old)
	&&& new.roots == old.roots
	&&& new.store.submap_of(old.store)
	&&& forall|k: C::Value| #[trigger] old.store.contains_key(k) && new.live(k) ==> new.store.contains_key(k)
	&&& forall|p: C::Value| #[trigger] new.store.contains_key(p) ==> {
		&&& old.store.contains_key(new.store[p].0) ==> new.store.contains_key(new.store[p].0)
		&&& old.store.contains_key(new.store[p].1) ==> new.store.contains_key(new.store[p].1)
	}
}


// ------------------------------------------------------------ walking trees

pub open spec fn lookup<V>(s: Map<V, (V, V)>, k: V) -> Option<(V, V)> {
	if s.contains_key(k) { Some(s[k]) } else { None }
}

/// The children of `k`, or two defaults when `k` is not a known node.
pub open spec fn cod<V>(s: Map<V, (V, V)>, k: V) -> (V, V) {
	if s.contains_key(k) { s[k] } else { (dflt(), dflt()) }
}

pub open spec fn pick<V>(p: (V, V), s: IndexSelection) -> V {
	match s { IndexSelection::Left => p.0, IndexSelection::Right => p.1 }
}

/// The node reached from `root` along `sels`, if every node on the way is known.
pub open spec fn walk<V>(s: Map<V, (V, V)>, root: V, sels: Seq<IndexSelection>) -> Option<V>
	decreases sels.len()
{
	if sels.len() == 0 { Some(root) }
	else if s.contains_key(root) { walk(s, pick(s[root], sels[0]), sels.drop_first()) }
	else { None }
}

/// As `walk`, but unknown nodes read as two defaults.
pub open spec fn dn<V>(s: Map<V, (V, V)>, root: V, sels: Seq<IndexSelection>) -> V
	decreases sels.len()
{
	if sels.len() == 0 { root } else { pick(cod(s, dn(s, root, sels.drop_last())), sels.last()) }
}


/// The root after writing `v` at `sels` under `root`.
pub open spec fn newroot<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, sels: Seq<IndexSelection>, v: C::Value) -> C::Value
	decreases sels.len()
{
	if sels.len() == 0 { v } else {
		let c = cod(s, root);
		let sub = newroot::<C>(s, pick(c, sels[0]), sels.drop_first(), v);
		match sels[0] {
			IndexSelection::Left => C::h(sub, c.1),
			IndexSelection::Right => C::h(c.0, sub),
		}
	}
}

/// The known nodes after that write.
pub open spec fn newstore<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, sels: Seq<IndexSelection>, v: C::Value) -> Map<C::Value, (C::Value, C::Value)>
	decreases sels.len()
{
	if sels.len() == 0 { s } else {
		let c = cod(s, root);
		let sub = newroot::<C>(s, pick(c, sels[0]), sels.drop_first(), v);
		let m = newstore::<C>(s, pick(c, sels[0]), sels.drop_first(), v);
		match sels[0] {
			IndexSelection::Left => m.insert(C::h(sub, c.1), (sub, c.1)),
			IndexSelection::Right => m.insert(C::h(c.0, sub), (c.0, sub)),
		}
	}
}

/// The effect of an indexed write on the database and the root.
pub open spec fn set_post<C: Construct>(dangling: bool, d0: DbView<C>, root0: C::Value, sels: Seq<IndexSelection>, v: C::Value, d1: DbView<C>, root1: C::Value) -> bool {
	let mid = d0.with_store(newstore::<C>(d0.store, root0, sels, v));
	&&& root1 == newroot::<C>(d0.store, root0, sels, v)
	&&& sels.len() > 0 ==> d0.retains
	&&& dangling ==> d1 == mid
	&&& !dangling ==> d1.holds(root1)
	&&& !dangling && d0.retains ==> collected(mid.with_root(root1, 1).with_root(root0, -1), d1)
	&&& !dangling && d0.retains && (d0.pinned)(root0) ==> d1.store == mid.store
}

/// Every known key's children are never inferred wrongly: a key fixes its children.
pub broadcast axiom fn axiom_h_injective<C: Construct>(a: C::Value, b: C::Value, c: C::Value, d: C::Value)
	ensures #![trigger C::h(a, b), C::h(c, d)] C::h(a, b) == C::h(c, d) ==> a == c && b == d;

/// No node hashes to the default value.
pub broadcast axiom fn axiom_h_not_default<C: Construct>(a: C::Value, b: C::Value)
	ensures #[trigger] C::h(a, b) != dflt::<C::Value>();

pub broadcast axiom fn axiom_value_clone<C: Construct>(a: C::Value, b: C::Value)
	ensures #[trigger] call_ensures(<C::Value as Clone>::clone, (&a,), b) ==> a == b;

pub broadcast axiom fn axiom_pair_clone<C: Construct>(a: (C::Value, C::Value), b: (C::Value, C::Value))
	ensures #[trigger] vstd::pervasive::cloned::<(C::Value, C::Value)>(a, b) ==> a == b;

pub broadcast axiom fn axiom_value_default<C: Construct>(a: C::Value)
	ensures #[trigger] call_ensures(<C::Value as Default>::default, (), a) ==> a == dflt::<C::Value>();

pub broadcast axiom fn axiom_pair_default<C: Construct>(a: (C::Value, C::Value))
	ensures #[trigger] call_ensures(<(C::Value, C::Value) as Default>::default, (), a) ==> a == (dflt::<C::Value>(), dflt::<C::Value>());

/// `?` converts an error with `From::from`, whose contract (on the real
/// `impl From<DBError> for Error<DBError>`) is `r == Error::Backend(err)`.
pub broadcast axiom fn axiom_question_mark<D>(e: D, r: Error<D>)
	ensures #[trigger] spec_from::<Error<D>, D>(e, r) ==> r == Error::Backend(e);

pub broadcast group group_value {
	axiom_question_mark,
	axiom_value_clone,
	axiom_pair_clone,
	axiom_value_default,
	axiom_pair_default,
	axiom_h_injective,
	axiom_h_not_default,
}

pub proof fn lemma_dflt_not_stored<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>)
	requires store_wf::<C>(s),
	ensures !s.contains_key(dflt::<C::Value>()), cod(s, dflt::<C::Value>()) == (dflt::<C::Value>(), dflt::<C::Value>()),
{
	broadcast use group_value;
}

pub proof fn lemma_path_len_bound(n: nat, k: nat)
	requires n < pow2(k),
	ensures path(n).len() <= k, k >= 1 ==> path(n).len() < k,
	decreases k,
{
	lemma2_to64();
	if n > 1 {
		if k <= 1 { } else {
			lemma_pow2_unfold(k);
			lemma_path_len_bound(n / 2, (k - 1) as nat);
		}
	}
}

pub proof fn lemma_index_path_short(i: Index)
	ensures path(i.v()).len() < 64,
{
	lemma2_to64_rest();
	lemma_path_len_bound(i.v(), 64);
}

pub proof fn lemma_dn_step<V>(s: Map<V, (V, V)>, root: V, p: Seq<IndexSelection>, i: int)
	requires 0 <= i < p.len(),
	ensures dn(s, root, p.take(i + 1)) == pick(cod(s, dn(s, root, p.take(i))), p[i]),
{
	assert(p.take(i + 1).drop_last() =~= p.take(i));
}

pub proof fn lemma_new_step<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, root: C::Value, p: Seq<IndexSelection>, i: int, v: C::Value)
	requires 0 <= i < p.len(),
	ensures ({
		let x = dn(s, root, p.take(i));
		let y = dn(s, root, p.take(i + 1));
		let sub = newroot::<C>(s, y, p.skip(i + 1), v);
		let pair = match p[i] { IndexSelection::Left => (sub, cod(s, x).1), IndexSelection::Right => (cod(s, x).0, sub) };
		&&& newroot::<C>(s, x, p.skip(i), v) == C::h(pair.0, pair.1)
		&&& newstore::<C>(s, x, p.skip(i), v) == newstore::<C>(s, y, p.skip(i + 1), v).insert(C::h(pair.0, pair.1), pair)
	}),
{
	lemma_dn_step(s, root, p, i);
	assert(p.skip(i).drop_first() =~= p.skip(i + 1));
}

// ------------------------------------------------------------ empty subtrees

pub open spec fn empty_spec<C: Construct>(d: nat) -> C::Value
	decreases d
{
	if d == 0 || !C::inherited() { dflt() } else {
		C::h(empty_spec::<C>((d - 1) as nat), empty_spec::<C>((d - 1) as nat))
	}
}

pub open spec fn with_empties<C: Construct>(v: DbView<C>, d: nat) -> DbView<C>
	decreases d
{
	if d == 0 || !C::inherited() { v } else {
		let e = empty_spec::<C>((d - 1) as nat);
		with_empties::<C>(v, (d - 1) as nat).with_insert(C::h(e, e), (e, e))
	}
}

} // verus!
