//! Ghost model of a padded binary tree over a sequence of values.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use crate::model::*;
use crate::index::*;
use crate::traits::*;
use crate::raw_thm::*;
verus! {
broadcast use group_value;

// ------------------------------------------------------------ depth

/// `d` is the least depth that holds `n` leaves.
pub open spec fn is_depth(d: nat, n: nat) -> bool { n <= pow2(d) && (d > 0 ==> pow2((d - 1) as nat) < n) }
pub open spec fn depth_of(n: nat) -> nat { choose|d: nat| #[trigger] is_depth(d, n) }

pub proof fn lemma_pow2_le(a: nat, b: nat)
	requires a <= b,
	ensures pow2(a) <= pow2(b),
	decreases b,
{
	if a < b { lemma_pow2_le(a, (b - 1) as nat); lemma_pow2_unfold(b); lemma_pow2_pos((b - 1) as nat); }
}
pub proof fn lemma_depth_of(d: nat, n: nat)
	requires is_depth(d, n),
	ensures depth_of(n) == d,
{
	let e = depth_of(n);
	assert(is_depth(e, n));
	if d < e { lemma_pow2_le(d, (e - 1) as nat); }
	if e < d { lemma_pow2_le(e, (d - 1) as nat); }
}
pub proof fn lemma_depth_exists(d: nat, n: nat)
	requires n <= pow2(d),
	ensures is_depth(depth_of(n), n), depth_of(n) <= d,
	decreases d,
{
	if d > 0 && n <= pow2((d - 1) as nat) { lemma_depth_exists((d - 1) as nat, n); }
	else { lemma_depth_of(d, n); }
}

// ------------------------------------------------------------ leading bit of a position

pub open spec fn half(d: nat) -> nat { pow2((d - 1) as nat) }

pub proof fn lemma_half(d: nat)
	requires d > 0,
	ensures pow2(d) == 2 * half(d), half(d) >= 1,
{
	lemma_pow2_unfold(d);
	lemma_pow2_pos((d - 1) as nat);
}

pub proof fn lemma_bits_first(i: nat, d: nat)
	requires i < pow2(d), d > 0,
	ensures
		bits_be(i, d).len() == d,
		i < half(d) ==> bits_be(i, d)[0] == IndexSelection::Left && bits_be(i, d).drop_first() == bits_be(i, (d - 1) as nat),
		i >= half(d) ==> bits_be(i, d)[0] == IndexSelection::Right && bits_be(i, d).drop_first() == bits_be((i - half(d)) as nat, (d - 1) as nat),
	decreases d,
{
	lemma_half(d);
	let dd = (d - 1) as nat;
	let hd = half(d);
	assert(bits_be(i, d) == bits_be(i / 2, dd).push(last_sel(i)));
	if dd == 0 {
		lemma2_to64();
		assert(pow2(0) == 1);
		assert(bits_be(i / 2, dd) =~= Seq::empty());
		assert(bits_be(i, d).drop_first() =~= Seq::empty());
	} else {
		lemma_half(dd);
		assert(i / 2 < pow2(dd));
		lemma_bits_first(i / 2, dd);
		let b = bits_be(i / 2, dd);
		assert(bits_be(i, d).drop_first() =~= b.drop_first().push(last_sel(i)));
		if i < hd {
			assert(i / 2 < half(dd));
		} else {
			assert(i / 2 >= half(dd));
			let j = (i - hd) as nat;
			assert(j / 2 == i / 2 - half(dd)) by (nonlinear_arith) requires hd == 2 * half(dd), i >= hd, j == i - hd;
			assert(j % 2 == i % 2) by (nonlinear_arith) requires hd == 2 * half(dd), i >= hd, j == i - hd;
		}
	}
}

// ------------------------------------------------------------ merkleization

pub open spec fn cut<V>(v: Seq<V>, d: nat) -> int { if v.len() < half(d) { v.len() as int } else { half(d) as int } }
pub open spec fn lo<V>(v: Seq<V>, d: nat) -> Seq<V> { v.take(cut(v, d)) }
pub open spec fn hi<V>(v: Seq<V>, d: nat) -> Seq<V> { v.skip(cut(v, d)) }

/// The merkle root of `v` padded to `2^d` leaves with empty subtrees.
pub open spec fn mroot<C: Construct>(v: Seq<C::Value>, d: nat) -> C::Value
	decreases d
{
	if v.len() == 0 { empty_spec::<C>(d) }
	else if d == 0 { v[0] }
	else { C::h(mroot::<C>(lo(v, d), (d - 1) as nat), mroot::<C>(hi(v, d), (d - 1) as nat)) }
}

/// `k` is the root of a stored tree of depth `d` that holds `v`.
pub open spec fn tree_ok<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>) -> bool
	decreases d
{
	&&& v.len() <= pow2(d)
	&&& v.len() == 0 ==> k == empty_spec::<C>(d)
	&&& d == 0 && v.len() > 0 ==> k == v[0]
	&&& d > 0 ==> {
		&&& v.len() > 0 || C::inherited() ==> s.contains_key(k)
		&&& tree_ok::<C>(s, cod(s, k).0, (d - 1) as nat, lo(v, d))
		&&& tree_ok::<C>(s, cod(s, k).1, (d - 1) as nat, hi(v, d))
	}
}

pub proof fn lemma_cut<V>(v: Seq<V>, d: nat)
	requires d > 0, v.len() <= pow2(d),
	ensures lo(v, d).len() == cut(v, d), hi(v, d).len() == v.len() - cut(v, d), lo(v, d).len() <= half(d), hi(v, d).len() <= half(d),
{ lemma_half(d); }

/// The root of a stored tree is a function of what it holds.
pub proof fn theorem_root<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>)
	requires store_wf::<C>(s), tree_ok::<C>(s, k, d, v),
	ensures k == mroot::<C>(v, d),
	decreases d,
{
	if v.len() > 0 && d > 0 {
		theorem_root::<C>(s, cod(s, k).0, (d - 1) as nat, lo(v, d));
		theorem_root::<C>(s, cod(s, k).1, (d - 1) as nat, hi(v, d));
	}
}

/// A stored tree reads back what it holds.
pub proof fn lemma_tree_get<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>, i: nat)
	requires tree_ok::<C>(s, k, d, v), i < v.len(),
	ensures walk(s, k, bits_be(i, d)) == Some(v[i as int]),
	decreases d,
{
	if d == 0 {
		lemma2_to64();
		assert(pow2(0) == 1);
	} else {
		lemma_bits_first(i, d);
		lemma_cut(v, d);
		if i < half(d) {
			lemma_tree_get::<C>(s, cod(s, k).0, (d - 1) as nat, lo(v, d), i);
		} else {
			lemma_tree_get::<C>(s, cod(s, k).1, (d - 1) as nat, hi(v, d), (i - half(d)) as nat);
		}
	}
}

/// `s` still knows what `old` knew of the tree under `k`.
pub open spec fn kept<V>(old: Map<V, (V, V)>, s: Map<V, (V, V)>, k: V) -> bool {
	forall|p: Seq<IndexSelection>| walk(old, k, p) is Some ==> #[trigger] walk(s, k, p) == walk(old, k, p)
}

pub proof fn lemma_kept_child<V>(old: Map<V, (V, V)>, s: Map<V, (V, V)>, k: V)
	requires kept(old, s, k), old.contains_key(k),
	ensures s.contains_key(k), s[k] == old[k], kept(old, s, old[k].0), kept(old, s, old[k].1),
{
	let l = seq![IndexSelection::Left];
	let r = seq![IndexSelection::Right];
	assert(l.drop_first() =~= Seq::<IndexSelection>::empty());
	assert(r.drop_first() =~= Seq::<IndexSelection>::empty());
	assert(walk(old, old[k].0, l.drop_first()) is Some);
	assert(walk(old, old[k].1, r.drop_first()) is Some);
	assert(walk(old, k, l) == Some(old[k].0));
	assert(walk(old, k, r) == Some(old[k].1));
	assert(walk(s, k, l) == walk(old, k, l));
	assert(walk(s, k, r) == walk(old, k, r));
	assert(walk(s, pick(s[k], l[0]), l.drop_first()) == Some(pick(s[k], l[0])));
	assert(walk(s, pick(s[k], r[0]), r.drop_first()) == Some(pick(s[k], r[0])));
	assert(s.contains_key(k) && s[k].0 == old[k].0 && s[k].1 == old[k].1);
	assert forall|p: Seq<IndexSelection>| walk(old, old[k].0, p) is Some implies #[trigger] walk(s, old[k].0, p) == walk(old, old[k].0, p) by {
		assert((l + p).drop_first() =~= p);
		assert((l + p)[0] == IndexSelection::Left);
		assert(walk(old, k, l + p) == walk(old, old[k].0, p));
		assert(walk(s, k, l + p) == walk(s, old[k].0, p));
	}
	assert forall|p: Seq<IndexSelection>| walk(old, old[k].1, p) is Some implies #[trigger] walk(s, old[k].1, p) == walk(old, old[k].1, p) by {
		assert((r + p).drop_first() =~= p);
		assert((r + p)[0] == IndexSelection::Right);
		assert(walk(old, k, r + p) == walk(old, old[k].1, p));
		assert(walk(s, k, r + p) == walk(s, old[k].1, p));
	}
}

pub proof fn lemma_kept_trans<V>(a: Map<V, (V, V)>, b: Map<V, (V, V)>, c: Map<V, (V, V)>, k: V)
	requires kept(a, b, k), kept(b, c, k),
	ensures kept(a, c, k),
{
	assert forall|p: Seq<IndexSelection>| walk(a, k, p) is Some implies #[trigger] walk(c, k, p) == walk(a, k, p) by {
		assert(walk(b, k, p) == walk(a, k, p));
	}
}

pub proof fn lemma_kept_sub<V>(a: Map<V, (V, V)>, b: Map<V, (V, V)>, k: V)
	requires a.submap_of(b),
	ensures kept(a, b, k),
{
	assert forall|p: Seq<IndexSelection>| walk(a, k, p) is Some implies #[trigger] walk(b, k, p) == walk(a, k, p) by {
		lemma_walk_mono(a, b, k, p);
	}
}

/// A tree that is kept still holds what it held.
pub proof fn lemma_tree_kept<C: Construct>(old: Map<C::Value, (C::Value, C::Value)>, s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>)
	requires store_wf::<C>(old), store_wf::<C>(s), tree_ok::<C>(old, k, d, v), kept(old, s, k),
	ensures tree_ok::<C>(s, k, d, v),
	decreases d,
{
	if d > 0 {
		if old.contains_key(k) {
			lemma_kept_child(old, s, k);
			lemma_tree_kept::<C>(old, s, cod(old, k).0, (d - 1) as nat, lo(v, d));
			lemma_tree_kept::<C>(old, s, cod(old, k).1, (d - 1) as nat, hi(v, d));
		} else {
			// an empty tree of the unit construct
			assert(k == dflt::<C::Value>());
			lemma_dflt_not_stored::<C>(s);
			lemma_dflt_not_stored::<C>(old);
			lemma_unit_empty::<C>(s, d);
			lemma_cut(v, d);
			assert(lo(v, d) =~= v && hi(v, d) =~= v);
			assert(v =~= Seq::empty());
		}
	}
}

pub proof fn lemma_unit_empty<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, d: nat)
	requires store_wf::<C>(s), !C::inherited(),
	ensures tree_ok::<C>(s, empty_spec::<C>(d), d, Seq::empty()), empty_spec::<C>(d) == dflt::<C::Value>(),
	decreases d,
{
	lemma_dflt_not_stored::<C>(s);
	if d > 0 {
		lemma_unit_empty::<C>(s, (d - 1) as nat);
		let e = Seq::<C::Value>::empty();
		lemma_half(d);
		assert(lo(e, d) =~= e && hi(e, d) =~= e);
	}
}

// ------------------------------------------------------------ what `empty_at` adds

pub proof fn lemma_empties_store<C: Construct>(v: DbView<C>, d: nat)
	requires v.wf(), v.retains,
	ensures ({
		let w = with_empties::<C>(v, d);
		&&& w.wf() && w.same_flags(v) && w.roots == v.roots
		&&& v.store.submap_of(w.store)
		&&& tree_ok::<C>(w.store, empty_spec::<C>(d), d, Seq::empty())
	}),
	decreases d,
{
	let e = Seq::<C::Value>::empty();
	if d == 0 || !C::inherited() {
		if !C::inherited() { lemma_unit_empty::<C>(v.store, d); } else { lemma2_to64(); assert(pow2(0) == 1); }
	} else {
		let dd = (d - 1) as nat;
		lemma_empties_store::<C>(v, dd);
		let u = with_empties::<C>(v, dd);
		let w = with_empties::<C>(v, d);
		let x = empty_spec::<C>(dd);
		assert(w.store == u.store.insert(C::h(x, x), (x, x)));
		assert(u.store.contains_key(C::h(x, x)) ==> u.store[C::h(x, x)] == (x, x)) by {
			if u.store.contains_key(C::h(x, x)) {
				let c = u.store[C::h(x, x)];
				assert(C::h(c.0, c.1) == C::h(x, x));
			}
		}
		assert(u.store.submap_of(w.store));
		lemma_kept_sub(u.store, w.store, x);
		lemma_tree_kept::<C>(u.store, w.store, x, dd, e);
		lemma_half(d);
		assert(lo(e, d) =~= e && hi(e, d) =~= e);
		assert(empty_spec::<C>(d) == C::h(x, x));
		assert(w.store.contains_key(C::h(x, x)) && cod(w.store, C::h(x, x)) == (x, x));
	}
}

// ------------------------------------------------------------ writing

/// `v` with position `i` set (or appended, when `i` is its length).
pub open spec fn put<V>(v: Seq<V>, i: int, x: V) -> Seq<V> { if i < v.len() { v.update(i, x) } else { v.push(x) } }

/// A node inserted on top of trees that are held.
proof fn lemma_tree_join<C: Construct>(m: Map<C::Value, (C::Value, C::Value)>, n: Map<C::Value, (C::Value, C::Value)>, a: C::Value, b: C::Value, d: nat, v: Seq<C::Value>)
	requires
		store_wf::<C>(m), n == m.insert(C::h(a, b), (a, b)), d > 0, v.len() > 0, v.len() <= pow2(d),
		tree_ok::<C>(m, a, (d - 1) as nat, lo(v, d)),
		tree_ok::<C>(m, b, (d - 1) as nat, hi(v, d)),
	ensures store_wf::<C>(n), m.submap_of(n), tree_ok::<C>(n, C::h(a, b), d, v),
{
	if m.contains_key(C::h(a, b)) {
		let c = m[C::h(a, b)];
		assert(C::h(c.0, c.1) == C::h(a, b));
	}
	assert(m.submap_of(n));
	lemma_kept_sub(m, n, a);
	lemma_kept_sub(m, n, b);
	lemma_tree_kept::<C>(m, n, a, (d - 1) as nat, lo(v, d));
	lemma_tree_kept::<C>(m, n, b, (d - 1) as nat, hi(v, d));
	assert(cod(n, C::h(a, b)) == (a, b));
}

/// Writing position `i` (which may be the next free one).
pub proof fn lemma_tree_put<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>, i: nat, x: C::Value)
	requires store_wf::<C>(s), tree_ok::<C>(s, k, d, v), i <= v.len(), i < pow2(d),
	ensures tree_ok::<C>(newstore::<C>(s, k, bits_be(i, d), x), newroot::<C>(s, k, bits_be(i, d), x), d, put(v, i as int, x)),
	decreases d,
{
	let w = put(v, i as int, x);
	if d == 0 {
		lemma2_to64();
		assert(pow2(0) == 1);
	} else {
		lemma_bits_first(i, d);
		lemma_cut(v, d);
		lemma_half(d);
		lemma_cut(w, d);
		let dd = (d - 1) as nat;
		let c = cod(s, k);
		let p = bits_be(i, d).drop_first();
		if i < half(d) {
			lemma_tree_put::<C>(s, c.0, dd, lo(v, d), i, x);
			let m = newstore::<C>(s, c.0, p, x);
			let sub = newroot::<C>(s, c.0, p, x);
			lemma_newstore::<C>(s, c.0, p, x);
			assert(lo(w, d) =~= put(lo(v, d), i as int, x));
			assert(hi(w, d) =~= hi(v, d));
			lemma_kept_sub(s, m, c.1);
			lemma_tree_kept::<C>(s, m, c.1, dd, hi(v, d));
			lemma_tree_join::<C>(m, newstore::<C>(s, k, bits_be(i, d), x), sub, c.1, d, w);
		} else {
			let j = (i - half(d)) as nat;
			lemma_tree_put::<C>(s, c.1, dd, hi(v, d), j, x);
			let m = newstore::<C>(s, c.1, p, x);
			let sub = newroot::<C>(s, c.1, p, x);
			lemma_newstore::<C>(s, c.1, p, x);
			assert(lo(w, d) =~= lo(v, d));
			assert(hi(w, d) =~= put(hi(v, d), j as int, x));
			lemma_kept_sub(s, m, c.0);
			lemma_tree_kept::<C>(s, m, c.0, dd, lo(v, d));
			lemma_tree_join::<C>(m, newstore::<C>(s, k, bits_be(i, d), x), c.0, sub, d, w);
		}
	}
}

/// Cutting off the last value: `j` is the height of the largest subtree that
/// starts at it.
pub open spec fn starts_subtree(i: nat, d: nat, j: nat) -> bool {
	&&& j <= d
	&&& i % pow2(j) == 0
	&&& j == d || (i / pow2(j)) % 2 == 1
}

pub proof fn lemma_tree_cut<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>, j: nat)
	requires
		store_wf::<C>(s), tree_ok::<C>(s, k, d, v), v.len() > 0,
		starts_subtree((v.len() - 1) as nat, d, j),
		tree_ok::<C>(s, empty_spec::<C>(j), j, Seq::empty()),
	ensures ({
		let i = (v.len() - 1) as nat;
		let p = bits_be(i, d).take(d - j);
		let e = empty_spec::<C>(j);
		tree_ok::<C>(newstore::<C>(s, k, p, e), newroot::<C>(s, k, p, e), d, v.drop_last())
	}),
	decreases d,
{
	let i = (v.len() - 1) as nat;
	let e = empty_spec::<C>(j);
	let w = v.drop_last();
	lemma_bits_len(i, d);
	let full = bits_be(i, d).take(d - j);
	lemma_pow2_pos(j);
	if j == d {
		assert(full =~= Seq::empty());
		vstd::arithmetic::div_mod::lemma_small_mod(i, pow2(j));
		assert(i == 0);
		assert(w =~= Seq::empty());
	} else {
		lemma_bits_first(i, d);
		lemma_cut(v, d);
		lemma_half(d);
		lemma_cut(w, d);
		let dd = (d - 1) as nat;
		let c = cod(s, k);
		let p = full.drop_first();
		assert(full[0] == bits_be(i, d)[0]);
		assert(p =~= bits_be(i, d).drop_first().take(dd - j));
		lemma_pow2_split(dd, j);
		let q = pow2((dd - j) as nat);
		let pj = pow2(j);
		assert(half(d) == q * pj);
		if i < half(d) {
			if j == dd {
				lemma2_to64();
				assert(pow2(0) == 1);
				assert(half(d) == pj);
				vstd::arithmetic::div_mod::lemma_basic_div(i as int, pj as int);
				assert(false);
			}
			assert(i > 0) by { if i == 0 { vstd::arithmetic::div_mod::lemma_basic_div(0int, pj as int); } }
			assert(lo(v, d) =~= v);
			lemma_tree_cut::<C>(s, c.0, dd, lo(v, d), j);
			let m = newstore::<C>(s, c.0, p, e);
			let sub = newroot::<C>(s, c.0, p, e);
			lemma_newstore::<C>(s, c.0, p, e);
			assert(lo(w, d) =~= w);
			assert(hi(w, d) =~= hi(v, d));
			lemma_kept_sub(s, m, c.1);
			lemma_tree_kept::<C>(s, m, c.1, dd, hi(v, d));
			lemma_tree_join::<C>(m, newstore::<C>(s, k, full, e), sub, c.1, d, w);
		} else {
			let i2 = (i - half(d)) as nat;
			// i2 = i - q*pj
			vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-(q as int), i as int, pj as int);
			assert(i2 as int == pj as int * (-(q as int)) + i as int) by (nonlinear_arith) requires i2 == i - q * pj;
			assert(i2 % pj == 0);
			if j < dd {
				lemma_half((dd - j) as nat);
				let qh = half((dd - j) as nat);
				vstd::arithmetic::div_mod::lemma_hoist_over_denominator(i2 as int, q as int, pj);
				assert(i as int == i2 as int + q as int * pj as int);
				assert(i / pj == i2 / pj + q);
				assert((i2 / pj) % 2 == 1);
			}
			assert(hi(v, d).len() == i2 + 1);
			lemma_tree_cut::<C>(s, c.1, dd, hi(v, d), j);
			let m = newstore::<C>(s, c.1, p, e);
			let sub = newroot::<C>(s, c.1, p, e);
			lemma_newstore::<C>(s, c.1, p, e);
			assert(lo(w, d) =~= lo(v, d));
			assert(hi(w, d) =~= hi(v, d).drop_last());
			lemma_kept_sub(s, m, c.0);
			lemma_tree_kept::<C>(s, m, c.0, dd, lo(v, d));
			lemma_tree_join::<C>(m, newstore::<C>(s, k, full, e), c.0, sub, d, w);
		}
	}
}

pub proof fn lemma_bits_len(i: nat, d: nat)
	ensures bits_be(i, d).len() == d,
	decreases d,
{ if d > 0 { lemma_bits_len(i / 2, (d - 1) as nat); } }

pub proof fn lemma_pow2_split(d: nat, j: nat)
	requires j <= d,
	ensures pow2(d) == pow2((d - j) as nat) * pow2(j),
{
	lemma_pow2_adds((d - j) as nat, j);
}

/// The first `d - j` bits of a position are the path of its ancestor at height `j`.
pub proof fn lemma_bits_take(i: nat, d: nat, j: nat)
	requires j <= d,
	ensures bits_be(i, d).take(d - j) == bits_be(i / pow2(j), (d - j) as nat),
	decreases j,
{
	lemma_bits_len(i, d);
	if j == 0 {
		lemma2_to64();
		assert(pow2(0) == 1);
		assert(i / 1 == i);
		assert(bits_be(i, d).take(d - j) =~= bits_be(i, d));
	} else {
		lemma_bits_take(i / 2, (d - 1) as nat, (j - 1) as nat);
		lemma_bits_len(i / 2, (d - 1) as nat);
		assert(bits_be(i, d).take(d - j) =~= bits_be(i / 2, (d - 1) as nat).take(d - j));
		lemma_half(j);
		vstd::arithmetic::div_mod::lemma_div_denominator(i as int, 2, pow2((j - 1) as nat) as int);
	}
}

// ------------------------------------------------------------ effects of operations on one tree

/// What an operation that takes a tree from root `r0` to root `r1` does to the
/// database: the tree's own reference moves (none for dangling trees), and no
/// node of any other tree is lost.
pub open spec fn moved<C: Construct>(dangling: bool, d0: DbView<C>, r0: C::Value, d1: DbView<C>, r1: C::Value) -> bool {
	&&& d1.same_flags(d0)
	&&& dangling && d0.retains ==> d0.store.submap_of(d1.store) && d1.roots == d0.roots
	&&& !dangling ==> d1.holds(r1)
	&&& !dangling && d0.retains ==> {
		&&& d1.roots == d0.with_root(r1, 1).with_root(r0, -1).roots
		&&& forall|q: C::Value| #[trigger] d0.with_root(r0, -1).live(q) ==> kept(d0.store, d1.store, q)
	}
}

pub proof fn lemma_moved_refl<C: Construct>(dangling: bool, d: DbView<C>, r: C::Value)
	requires !dangling ==> d.holds(r),
	ensures moved(dangling, d, r, d, r),
{
	assert(d.roots =~= d.with_root(r, 1).with_root(r, -1).roots);
}

pub proof fn lemma_submap_trans<K, V>(a: Map<K, V>, b: Map<K, V>, c: Map<K, V>)
	requires a.submap_of(b), b.submap_of(c),
	ensures a.submap_of(c),
{
	assert forall|k: K| #[trigger] a.dom().contains(k) implies c.dom().contains(k) && a[k] == c[k] by { assert(b.dom().contains(k)); }
}

pub proof fn lemma_moved_trans<C: Construct>(dangling: bool, d0: DbView<C>, r0: C::Value, d1: DbView<C>, r1: C::Value, d2: DbView<C>, r2: C::Value)
	requires moved(dangling, d0, r0, d1, r1), moved(dangling, d1, r1, d2, r2),
	ensures moved(dangling, d0, r0, d2, r2),
{
	if dangling && d0.retains {
		assert(d1.store.submap_of(d2.store));
		lemma_submap_trans(d0.store, d1.store, d2.store);
	}
	if !dangling && d0.retains {
		assert(d2.roots =~= d0.with_root(r2, 1).with_root(r0, -1).roots);
		assert forall|q: C::Value| #[trigger] d0.with_root(r0, -1).live(q) implies kept(d0.store, d2.store, q) by {
			assert(d1.with_root(r1, -1).live(q));
			lemma_kept_trans(d0.store, d1.store, d2.store, q);
		}
	}
}

/// Nodes were added, nothing else.
pub proof fn lemma_moved_more<C: Construct>(dangling: bool, d0: DbView<C>, r: C::Value, d1: DbView<C>)
	requires !dangling ==> d0.holds(r), d1.same_flags(d0), d1.roots == d0.roots, d0.store.submap_of(d1.store),
	ensures moved(dangling, d0, r, d1, r),
{
	assert(d1.roots =~= d0.with_root(r, 1).with_root(r, -1).roots);
	assert forall|q: C::Value| kept(d0.store, d1.store, q) by { lemma_kept_sub(d0.store, d1.store, q); }
}

pub proof fn lemma_collected_kept<C: Construct>(a: DbView<C>, b: DbView<C>, q: C::Value)
	requires collected(a, b), b.live(q),
	ensures kept(a.store, b.store, q),
{
	assert forall|p: Seq<IndexSelection>| walk(a.store, q, p) is Some implies #[trigger] walk(b.store, q, p) == walk(a.store, q, p) by {
		lemma_walk_collected(a, b, q, p);
	}
}

/// An indexed write, as a move; the new tree has all the nodes it was given.
pub proof fn lemma_moved_set<C: Construct>(dangling: bool, d0: DbView<C>, r0: C::Value, p: Seq<IndexSelection>, v: C::Value, d1: DbView<C>, r1: C::Value)
	requires d0.wf(), set_post::<C>(dangling, d0, r0, p, v, d1, r1), d1.same_flags(d0), !dangling ==> d0.holds(r0),
	ensures
		moved(dangling, d0, r0, d1, r1),
		d0.retains ==> kept(newstore::<C>(d0.store, r0, p, v), d1.store, r1),
{
	let mid = d0.with_store(newstore::<C>(d0.store, r0, p, v));
	lemma_newstore::<C>(d0.store, r0, p, v);
	if d0.retains {
		if dangling { lemma_kept_sub(mid.store, d1.store, r1); } else {
			let m2 = mid.with_root(r1, 1).with_root(r0, -1);
			assert(d1.roots =~= d0.with_root(r1, 1).with_root(r0, -1).roots);
			assert forall|q: C::Value| #[trigger] d0.with_root(r0, -1).live(q) implies kept(d0.store, d1.store, q) by {
				assert(d1.live(q));
				lemma_collected_kept(m2, d1, q);
				lemma_kept_sub(d0.store, m2.store, q);
				lemma_kept_trans(d0.store, m2.store, d1.store, q);
			}
			assert(d1.live(r1));
			lemma_collected_kept(m2, d1, r1);
		}
	}
}

/// What `empty_at` adds, as a move.
pub proof fn lemma_moved_empties<C: Construct>(dangling: bool, d0: DbView<C>, r: C::Value, d: nat)
	requires d0.wf(), !dangling ==> d0.holds(r),
	ensures
		moved(dangling, d0, r, with_empties::<C>(d0, d), r),
		with_empties::<C>(d0, d).wf(),
		with_empties::<C>(d0, d).roots == d0.roots,
		d0.retains ==> d0.store.submap_of(with_empties::<C>(d0, d).store),
		d0.retains ==> tree_ok::<C>(with_empties::<C>(d0, d).store, empty_spec::<C>(d), d, Seq::empty()),
{
	if d0.retains { lemma_empties_store::<C>(d0, d); } else { lemma_empties_noop::<C>(d0, d); }
	lemma_moved_more(dangling, d0, r, with_empties::<C>(d0, d));
}
proof fn lemma_empties_noop<C: Construct>(d0: DbView<C>, d: nat)
	requires !d0.retains,
	ensures with_empties::<C>(d0, d) == d0,
	decreases d,
{ if d > 0 && C::inherited() { lemma_empties_noop::<C>(d0, (d - 1) as nat); } }

// ------------------------------------------------------------ vectors

/// Lengths and maxima an index can address.
pub open spec fn shape_ok(len: nat, max: Option<u64>) -> bool {
	match max { Some(m) => 1 <= m && len <= m && m <= pow2(63), None => len <= pow2(63) }
}
/// Nothing more can be pushed: the maximum, or all that an index can address.
pub open spec fn full(len: nat, max: Option<u64>) -> bool {
	match max { Some(m) => len == m, None => len == pow2(63) }
}
pub open spec fn vdepth(len: nat, max: Option<u64>) -> nat {
	depth_of(match max { Some(m) => m as nat, None => len })
}
pub proof fn lemma_shape(len: nat, max: Option<u64>)
	requires shape_ok(len, max),
	ensures
		vdepth(len, max) <= 63,
		is_depth(vdepth(len, max), match max { Some(m) => m as nat, None => len }),
		len <= pow2(vdepth(len, max)),
		pow2(63) == 0x8000_0000_0000_0000, pow2(64) == 0x1_0000_0000_0000_0000,
		pow2(vdepth(len, max)) <= pow2(63),
{
	lemma2_to64();
	lemma2_to64_rest();
	let n = match max { Some(m) => m as nat, None => len };
	lemma_depth_exists(63, n);
	lemma_pow2_le(vdepth(len, max), 63);
}

/// Growing an untracked-maximum vector past a full tree.
pub proof fn lemma_depth_grow(n: nat)
	requires n < pow2(63), is_depth(depth_of(n), n),
	ensures
		n >= 1 && n == pow2(depth_of(n)) ==> depth_of(n + 1) == depth_of(n) + 1,
		n < pow2(depth_of(n)) ==> depth_of(n + 1) == depth_of(n),
{
	lemma2_to64();
	let d = depth_of(n);
	lemma_half(d + 1);
	lemma_pow2_pos(d);
	if n == pow2(d) { lemma_depth_of(d + 1, n + 1); } else { lemma_depth_of(d, n + 1); }
}
pub proof fn lemma_depth_shrink(n: nat)
	requires n >= 1, is_depth(depth_of(n), n),
	ensures
		depth_of(n) >= 1 && n - 1 == half(depth_of(n)) ==> depth_of((n - 1) as nat) == depth_of(n) - 1,
		depth_of(n) >= 1 && n - 1 > half(depth_of(n)) ==> depth_of((n - 1) as nat) == depth_of(n),
		depth_of(n) >= 1 ==> n - 1 >= half(depth_of(n)),
		depth_of(n) == 0 ==> n == 1 && depth_of(0) == 0,
{
	lemma2_to64();
	let d = depth_of(n);
	if d >= 1 {
		lemma_half(d);
		if n - 1 == half(d) {
			if d >= 2 { lemma_half((d - 1) as nat); }
			lemma_depth_of((d - 1) as nat, (n - 1) as nat);
		} else if n - 1 > half(d) { lemma_depth_of(d, (n - 1) as nat); }
	} else {
		lemma_depth_of(0, 0);
	}
}

/// A full tree becomes the left half of a tree of twice the size.
pub proof fn lemma_tree_grow<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, e: C::Value, n: C::Value, d: nat, v: Seq<C::Value>)
	requires
		store_wf::<C>(s), tree_ok::<C>(s, k, d, v), v.len() == pow2(d), tree_ok::<C>(s, e, d, Seq::empty()),
		s.contains_key(n), s[n] == (k, e),
	ensures tree_ok::<C>(s, n, d + 1, v),
{
	lemma_half(d + 1);
	lemma_pow2_pos(d);
	assert(half(d + 1) == pow2(d));
	assert(lo(v, d + 1) =~= v);
	assert(hi(v, d + 1) =~= Seq::empty());
}

pub proof fn lemma_tree_left<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>)
	requires tree_ok::<C>(s, k, d, v), d >= 1, 0 < v.len() <= half(d),
	ensures s.contains_key(k), tree_ok::<C>(s, s[k].0, (d - 1) as nat, v), walk(s, k, seq![IndexSelection::Left]) == Some(s[k].0),
{
	assert(lo(v, d) =~= v);
	let l = seq![IndexSelection::Left];
	assert(l.drop_first() =~= Seq::<IndexSelection>::empty());
	assert(walk(s, pick(s[k], l[0]), l.drop_first()) == Some(s[k].0));
}


// ------------------------------------------------------------ whole operations

/// A write into (or at the end of) a vector.
pub proof fn lemma_vec_write<C: Construct>(dg: bool, d0: DbView<C>, r0: C::Value, d: nat, i: nat, x: C::Value, d1: DbView<C>, r1: C::Value)
	requires d0.wf(), d1.wf(), d1.same_flags(d0), set_post::<C>(dg, d0, r0, bits_be(i, d), x, d1, r1), !dg ==> d0.holds(r0), i < pow2(d),
	ensures
		moved(dg, d0, r0, d1, r1),
		d0.retains ==> forall|v: Seq<C::Value>| #[trigger] tree_ok::<C>(d0.store, r0, d, v) && i <= v.len() ==> tree_ok::<C>(d1.store, r1, d, put(v, i as int, x)),
{
	let p = bits_be(i, d);
	lemma_moved_set(dg, d0, r0, p, x, d1, r1);
	lemma_newstore::<C>(d0.store, r0, p, x);
	if d0.retains {
		assert forall|v: Seq<C::Value>| #[trigger] tree_ok::<C>(d0.store, r0, d, v) && i <= v.len() implies tree_ok::<C>(d1.store, r1, d, put(v, i as int, x)) by {
			lemma_tree_put::<C>(d0.store, r0, d, v, i, x);
			lemma_tree_kept::<C>(newstore::<C>(d0.store, r0, p, x), d1.store, r1, d, put(v, i as int, x));
		}
	}
}

/// The steps of `Vector::extend` up to the release of the old root.
pub proof fn lemma_extend_mid<C: Construct>(dg: bool, d0: DbView<C>, r0: C::Value, d: nat, a: DbView<C>, b: DbView<C>, nb: C::Value, c: DbView<C>, nc: C::Value)
	requires
		d0.wf(), a == with_empties::<C>(d0, d), a.wf(), b.wf(), c.wf(),
		!dg ==> d0.holds(r0),
		b.same_flags(a), c.same_flags(b),
		set_post::<C>(dg, a, dflt(), seq![IndexSelection::Left], r0, b, nb),
		set_post::<C>(dg, b, nb, seq![IndexSelection::Right], empty_spec::<C>(d), c, nc),
	ensures
		d0.retains,
		!dg ==> c.holds(r0),
		!dg ==> c.roots == d0.with_root(nc, 1).roots,
		dg ==> c.roots == d0.roots && d0.store.submap_of(c.store),
		!dg ==> c.with_root(r0, -1).live(nc),
		!dg ==> forall|q: C::Value| #[trigger] d0.live(q) ==> kept(d0.store, c.store, q),
		forall|v: Seq<C::Value>| v.len() == pow2(d) && #[trigger] tree_ok::<C>(d0.store, r0, d, v) ==> tree_ok::<C>(c.store, nc, d + 1, v),
{
	let l = seq![IndexSelection::Left];
	let r = seq![IndexSelection::Right];
	let e = empty_spec::<C>(d);
	assert(l.len() == 1 && r.len() == 1);
	lemma_moved_empties::<C>(true, d0, r0, d);
	assert(d0.same_flags(a));
	assert(d0.retains);
	assert(l.drop_first() =~= Seq::empty() && r.drop_first() =~= Seq::empty());
	lemma_dflt_not_stored::<C>(a.store);
	let s1 = newstore::<C>(a.store, dflt(), l, r0);
	assert(newstore::<C>(a.store, pick(cod(a.store, dflt::<C::Value>()), l[0]), l.drop_first(), r0) == a.store);
	assert(s1 == a.store.insert(C::h(r0, dflt()), (r0, dflt())));
	assert(nb == C::h(r0, dflt()));
	lemma_newstore::<C>(a.store, dflt(), l, r0);
	assert(b.store == s1);
	assert(cod(b.store, nb) == (r0, dflt::<C::Value>()));
	let s2 = newstore::<C>(b.store, nb, r, e);
	assert(newstore::<C>(b.store, pick(cod(b.store, nb), r[0]), r.drop_first(), e) == b.store);
	assert(s2 == b.store.insert(C::h(r0, e), (r0, e)));
	assert(nc == C::h(r0, e));
	lemma_newstore::<C>(b.store, nb, r, e);
	lemma_submap_trans(d0.store, a.store, b.store);
	lemma_submap_trans(d0.store, b.store, s2);
	lemma_submap_trans(a.store, b.store, s2);
	assert(!dg ==> a.holds(dflt()));
	if !dg {
		assert(b.roots =~= a.with_root(nb, 1).with_root(dflt(), -1).roots);
		assert(c.roots =~= b.with_root(nc, 1).with_root(nb, -1).roots);
		assert(c.roots =~= d0.with_root(nc, 1).roots);
		assert(b.holds(nb));
		assert forall|q: C::Value| #[trigger] d0.live(q) implies kept(d0.store, c.store, q) by {
			assert((d0.roots)(q) >= 0);
			assert(c.live(q));
			lemma_collected_kept(b.with_store(s2).with_root(nc, 1).with_root(nb, -1), c, q);
			lemma_kept_sub(d0.store, s2, q);
			lemma_kept_trans(d0.store, s2, c.store, q);
		}
		assert(c.live(nc));
		assert((d0.roots)(nc) >= 0);
		lemma_collected_kept(b.with_store(s2).with_root(nc, 1).with_root(nb, -1), c, nc);
		assert(c.holds(r0));
	} else {
		lemma_kept_sub(s2, c.store, nc);
	}
	assert(kept(s2, c.store, nc));
	assert forall|v: Seq<C::Value>| v.len() == pow2(d) && #[trigger] tree_ok::<C>(d0.store, r0, d, v) implies tree_ok::<C>(c.store, nc, d + 1, v) by {
		lemma_kept_sub(d0.store, s2, r0);
		lemma_tree_kept::<C>(d0.store, s2, r0, d, v);
		lemma_kept_sub(a.store, s2, e);
		lemma_tree_kept::<C>(a.store, s2, e, d, Seq::empty());
		lemma_tree_grow::<C>(s2, r0, e, nc, d, v);
		lemma_tree_kept::<C>(s2, c.store, nc, d + 1, v);
	}
}

pub proof fn lemma_extend<C: Construct>(dg: bool, d0: DbView<C>, r0: C::Value, d: nat, a: DbView<C>, b: DbView<C>, nb: C::Value, c: DbView<C>, nc: C::Value, z: DbView<C>, rz: C::Value)
	requires
		d0.wf(), a == with_empties::<C>(d0, d), a.wf(), b.wf(), c.wf(), z.wf(),
		!dg ==> d0.holds(r0),
		b.same_flags(a), c.same_flags(b), z.same_flags(c),
		set_post::<C>(dg, a, dflt(), seq![IndexSelection::Left], r0, b, nb),
		set_post::<C>(dg, b, nb, seq![IndexSelection::Right], empty_spec::<C>(d), c, nc),
		set_post::<C>(dg, c, r0, Seq::empty(), dflt(), z, rz),
	ensures
		d0.retains,
		moved(dg, d0, r0, z, nc),
		forall|v: Seq<C::Value>| v.len() == pow2(d) && #[trigger] tree_ok::<C>(d0.store, r0, d, v) ==> tree_ok::<C>(z.store, nc, d + 1, v),
{
	lemma_extend_mid::<C>(dg, d0, r0, d, a, b, nb, c, nc);
	lemma_moved_empties::<C>(true, d0, r0, d);
	lemma_moved_set(dg, c, r0, Seq::empty(), dflt(), z, rz);
	if !dg {
		assert(c.with_root(r0, -1).live(nc));
		assert(kept(c.store, z.store, nc));
		assert(z.roots =~= d0.with_root(nc, 1).with_root(r0, -1).roots);
		assert forall|q: C::Value| #[trigger] d0.with_root(r0, -1).live(q) implies kept(d0.store, z.store, q) by {
			assert(d0.live(q));
			assert(c.with_root(r0, -1).live(q));
			lemma_kept_trans(d0.store, c.store, z.store, q);
		}
		assert(z.holds(nc));
	} else {
		lemma_kept_sub(c.store, z.store, nc);
		lemma_submap_trans(d0.store, c.store, z.store);
	}
	assert forall|v: Seq<C::Value>| v.len() == pow2(d) && #[trigger] tree_ok::<C>(d0.store, r0, d, v) implies tree_ok::<C>(z.store, nc, d + 1, v) by {
		assert(tree_ok::<C>(c.store, nc, d + 1, v));
		lemma_tree_kept::<C>(c.store, z.store, nc, d + 1, v);
	}
}

/// Cutting the last value off.
pub proof fn lemma_vec_cut<C: Construct>(dg: bool, d0: DbView<C>, r0: C::Value, d: nat, i: nat, j: nat, d1: DbView<C>, r1: C::Value)
	requires
		d0.wf(), d1.wf(), d1.same_flags(d0), !dg ==> d0.holds(r0), i < pow2(d), starts_subtree(i, d, j),
		set_post::<C>(dg, with_empties::<C>(d0, j), r0, bits_be(i, d).take(d - j), empty_spec::<C>(j), d1, r1),
	ensures
		moved(dg, d0, r0, d1, r1),
		d0.retains ==> forall|v: Seq<C::Value>| #[trigger] tree_ok::<C>(d0.store, r0, d, v) && v.len() == i + 1 ==> tree_ok::<C>(d1.store, r1, d, v.drop_last()),
{
	let a = with_empties::<C>(d0, j);
	let p = bits_be(i, d).take(d - j);
	let e = empty_spec::<C>(j);
	lemma_moved_empties::<C>(dg, d0, r0, j);
	lemma_moved_set(dg, a, r0, p, e, d1, r1);
	lemma_moved_trans(dg, d0, r0, a, r0, d1, r1);
	lemma_newstore::<C>(a.store, r0, p, e);
	if d0.retains {
		assert forall|v: Seq<C::Value>| #[trigger] tree_ok::<C>(d0.store, r0, d, v) && v.len() == i + 1 implies tree_ok::<C>(d1.store, r1, d, v.drop_last()) by {
			lemma_kept_sub(d0.store, a.store, r0);
			lemma_tree_kept::<C>(d0.store, a.store, r0, d, v);
			lemma_tree_cut::<C>(a.store, r0, d, v, j);
			lemma_tree_kept::<C>(newstore::<C>(a.store, r0, p, e), d1.store, r1, d, v.drop_last());
		}
	}
}

/// Defaults are what an empty tree holds.
pub proof fn lemma_tree_defaults<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, d: nat, n: nat)
	requires tree_ok::<C>(s, empty_spec::<C>(d), d, Seq::empty()), C::inherited() || n == 0, n <= pow2(d), store_wf::<C>(s),
	ensures tree_ok::<C>(s, empty_spec::<C>(d), d, Seq::new(n, |i: int| dflt::<C::Value>())),
	decreases d,
{
	let v = Seq::new(n, |i: int| dflt::<C::Value>());
	if n == 0 { assert(v =~= Seq::empty()); }
	else if d > 0 {
		let e = Seq::<C::Value>::empty();
		let k = empty_spec::<C>(d);
		let x = empty_spec::<C>((d - 1) as nat);
		lemma_half(d);
		lemma_cut(v, d);
		assert(lo(e, d) =~= e && hi(e, d) =~= e);
		assert(k == C::h(x, x));
		assert(s.contains_key(k));
		assert(C::h(s[k].0, s[k].1) == C::h(x, x));
		assert(lo(v, d) =~= Seq::new(lo(v, d).len(), |i: int| dflt::<C::Value>()));
		assert(hi(v, d) =~= Seq::new(hi(v, d).len(), |i: int| dflt::<C::Value>()));
		lemma_tree_defaults::<C>(s, (d - 1) as nat, lo(v, d).len());
		lemma_tree_defaults::<C>(s, (d - 1) as nat, hi(v, d).len());
	}
}

/// The next index up, and whether it is a left child.
pub proof fn lemma_climb(d: nat, i: nat, e: nat, n: nat)
	requires e <= d, i < pow2(d), n == pow2((d - e) as nat) + i / pow2(e),
	ensures
		n >= 1,
		e == d <==> n == 1,
		path(n) == bits_be(i, d).take(d - e),
		e < d ==> n / 2 == pow2((d - (e + 1)) as nat) + i / pow2(e + 1),
		i % pow2(e) == 0 && n % 2 == 0 && e < d ==> i % pow2(e + 1) == 0,
		n % 2 == 1 && e < d ==> (i / pow2(e)) % 2 == 1,
		i / pow2(e) < pow2((d - e) as nat),
{
	let q = pow2((d - e) as nat);
	let pe = pow2(e);
	lemma_pow2_pos(e);
	lemma_pow2_pos((d - e) as nat);
	lemma_pow2_split(d, e);
	assert(i / pe < q) by (nonlinear_arith) requires i < q * pe, pe > 0;
	lemma_bits_take(i, d, e);
	lemma_path_from_depth(i / pe, (d - e) as nat);
	if e == d { lemma2_to64(); } else {
		lemma_half((d - e) as nat);
		lemma_half(e + 1);
		assert(half((d - e) as nat) == pow2((d - (e + 1)) as nat));
		assert(half(e + 1) == pe);
		vstd::arithmetic::div_mod::lemma_div_denominator(i as int, pe as int, 2);
		assert(i / pow2(e + 1) == (i / pe) / 2);
		assert(n / 2 == q / 2 + (i / pe) / 2);
		vstd::arithmetic::div_mod::lemma_mod_breakdown(i as int, pe as int, 2);
		assert(i % (pe * 2) == pe * ((i / pe) % 2) + i % pe);
		if i % pe == 0 && n % 2 == 0 {
			assert((i / pe) % 2 == 0);
			assert(pe * ((i / pe) % 2) == 0) by (nonlinear_arith) requires (i / pe) % 2 == 0;
		}
	}
}


/// The indices an extension uses.
pub proof fn lemma_ext_paths()
	ensures path(1) == Seq::<IndexSelection>::empty(), path(2) == seq![IndexSelection::Left], path(3) == seq![IndexSelection::Right],
{
	assert(path(1) =~= Seq::empty());
	lemma_path_child(1);
	assert(path(2) =~= seq![IndexSelection::Left]);
	assert(path(3) =~= seq![IndexSelection::Right]);
}

pub proof fn lemma_pow2_63(d: nat)
	requires d <= 63,
	ensures d == 63 || pow2(d) < pow2(63),
{ if d < 63 { lemma_pow2_strictly_increases(d, 63); } }


/// Two stored trees of one depth hold the same values exactly when they have
/// the same root, wherever they are stored and however they came about.
pub proof fn theorem_same_root<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, t: Map<C::Value, (C::Value, C::Value)>, k: C::Value, l: C::Value, d: nat, v: Seq<C::Value>, w: Seq<C::Value>)
	requires store_wf::<C>(s), store_wf::<C>(t), tree_ok::<C>(s, k, d, v), tree_ok::<C>(t, l, d, w), v.len() == w.len(),
	ensures k == l <==> v == w,
	decreases d,
{
	if v == w {
		theorem_root::<C>(s, k, d, v);
		theorem_root::<C>(t, l, d, w);
	} else if k == l {
		if v.len() == 0 { assert(v =~= w); }
		else if d == 0 { lemma2_to64(); assert(pow2(0) == 1); assert(v =~= w); }
		else {
			lemma_cut(v, d);
			lemma_cut(w, d);
			assert(C::h(s[k].0, s[k].1) == C::h(t[l].0, t[l].1));
			theorem_same_root::<C>(s, t, s[k].0, t[l].0, (d - 1) as nat, lo(v, d), lo(w, d));
			theorem_same_root::<C>(s, t, s[k].1, t[l].1, (d - 1) as nat, hi(v, d), hi(w, d));
			assert(v =~= lo(v, d) + hi(v, d));
			assert(w =~= lo(w, d) + hi(w, d));
		}
	}
}

/// What a vector's depth is, by what it can hold.
pub proof fn theorem_depth(len: nat, max: Option<u64>)
	requires shape_ok(len, max),
	ensures ({
		let n = match max { Some(m) => m as nat, None => len };
		n <= pow2(vdepth(len, max)) && forall|e: nat| n <= #[trigger] pow2(e) ==> vdepth(len, max) <= e
	}),
{
	let n = match max { Some(m) => m as nat, None => len };
	lemma_shape(len, max);
	assert forall|e: nat| n <= #[trigger] pow2(e) implies vdepth(len, max) <= e by { lemma_depth_exists(e, n); }
}


/// Positions past the last value read as empty (for the unit construct an
/// empty subtree need not be stored at all).
pub proof fn lemma_tree_pad<C: Construct>(s: Map<C::Value, (C::Value, C::Value)>, k: C::Value, d: nat, v: Seq<C::Value>, i: nat)
	requires store_wf::<C>(s), tree_ok::<C>(s, k, d, v), v.len() <= i < pow2(d),
	ensures match walk(s, k, bits_be(i, d)) { Some(x) => x == dflt::<C::Value>(), None => !C::inherited() },
	decreases d,
{
	if d == 0 {
		lemma2_to64();
		assert(pow2(0) == 1);
	} else {
		lemma_bits_first(i, d);
		lemma_cut(v, d);
		lemma_half(d);
		if s.contains_key(k) {
			if i < half(d) {
				lemma_tree_pad::<C>(s, cod(s, k).0, (d - 1) as nat, lo(v, d), i);
			} else {
				lemma_tree_pad::<C>(s, cod(s, k).1, (d - 1) as nat, hi(v, d), (i - half(d)) as nat);
			}
		}
	}
}

} // verus!
