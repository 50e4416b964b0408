//! Ghost model of the one-shot tree builder.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use crate::model::*;
use crate::traits::*;
use crate::raw_thm::*;
use crate::vec_model::*;
use vstd::arithmetic::div_mod::*;
verus! {
broadcast use group_value;

pub open spec fn min_of(a: int, b: int) -> int { if a < b { a } else { b } }

/// The `i`-th run of `2^t` values.
pub open spec fn slice<V>(v: Seq<V>, t: nat, i: int) -> Seq<V> {
	v.subrange(min_of(i * pow2(t), v.len() as int), min_of((i + 1) * pow2(t), v.len() as int))
}

/// `k` is the root of `w` at depth `t`, and its nodes are stored.
pub open spec fn built<C: Construct>(db: DbView<C>, k: C::Value, t: nat, w: Seq<C::Value>) -> bool {
	k == mroot::<C>(w, t) && (db.retains ==> tree_ok::<C>(db.store, k, t, w))
}

/// Nodes were added, nothing else.
pub open spec fn grown<C: Construct>(a: DbView<C>, b: DbView<C>) -> bool {
	b.same_flags(a) && b.roots == a.roots && a.store.submap_of(b.store) && b.wf()
}

pub proof fn lemma_grown_refl<C: Construct>(a: DbView<C>)
	requires a.wf(),
	ensures grown(a, a),
{}
pub proof fn lemma_grown_trans<C: Construct>(a: DbView<C>, b: DbView<C>, c: DbView<C>)
	requires grown(a, b), grown(b, c),
	ensures grown(a, c),
{ lemma_submap_trans(a.store, b.store, c.store); }

pub proof fn lemma_grown_insert<C: Construct>(a: DbView<C>, l: C::Value, r: C::Value)
	requires a.wf(),
	ensures grown(a, a.with_insert(C::h(l, r), (l, r))),
{
	if a.store.contains_key(C::h(l, r)) {
		let c = a.store[C::h(l, r)];
		assert(C::h(c.0, c.1) == C::h(l, r));
	}
	assert(a.store.submap_of(a.store.insert(C::h(l, r), (l, r))));
}

pub proof fn lemma_grown_empties<C: Construct>(a: DbView<C>, d: nat)
	requires a.wf(),
	ensures grown(a, with_empties::<C>(a, d)), built::<C>(with_empties::<C>(a, d), empty_spec::<C>(d), d, Seq::empty()),
{
	lemma_moved_empties::<C>(true, a, dflt(), d);
	if !a.retains { assert(with_empties::<C>(a, d).store == a.store) by { lemma_noop_store::<C>(a, d); } }
}
proof fn lemma_noop_store<C: Construct>(d0: DbView<C>, d: nat)
	requires !d0.retains,
	ensures with_empties::<C>(d0, d) == d0,
	decreases d,
{ if d > 0 && C::inherited() { lemma_noop_store::<C>(d0, (d - 1) as nat); } }

pub proof fn lemma_built_grown<C: Construct>(a: DbView<C>, b: DbView<C>, k: C::Value, t: nat, w: Seq<C::Value>)
	requires built(a, k, t, w), a.wf(), grown(a, b),
	ensures built(b, k, t, w),
{
	if a.retains {
		lemma_kept_sub(a.store, b.store, k);
		lemma_tree_kept::<C>(a.store, b.store, k, t, w);
	}
}

/// All nodes at height `t`, left to right.
pub open spec fn level<C: Construct>(db: DbView<C>, cur: Seq<C::Value>, t: nat, v: Seq<C::Value>) -> bool {
	&&& v.len() <= cur.len() * pow2(t)
	&&& cur.len() > 0 ==> (cur.len() - 1) * pow2(t) < v.len()
	&&& forall|i: int| 0 <= i < cur.len() ==> built(db, #[trigger] cur[i], t, slice(v, t, i))
}

pub proof fn lemma_level_grown<C: Construct>(a: DbView<C>, b: DbView<C>, cur: Seq<C::Value>, t: nat, v: Seq<C::Value>)
	requires level(a, cur, t, v), a.wf(), grown(a, b),
	ensures level(b, cur, t, v),
{
	assert forall|i: int| 0 <= i < cur.len() implies built(b, #[trigger] cur[i], t, slice(v, t, i)) by {
		lemma_built_grown(a, b, cur[i], t, slice(v, t, i));
	}
}

pub proof fn lemma_level_0<C: Construct>(db: DbView<C>, v: Seq<C::Value>)
	ensures level(db, v, 0, v),
{
	lemma2_to64();
	assert(pow2(0) == 1);
	assert forall|i: int| 0 <= i < v.len() implies built(db, #[trigger] v[i], 0, slice(v, 0, i)) by {
		assert(slice(v, 0, i) =~= seq![v[i]]);
	}
}

pub proof fn lemma_slice_split<V>(v: Seq<V>, t: nat, i: int)
	requires 0 <= i,
	ensures
		slice(v, t + 1, i).len() <= pow2(t + 1),
		lo(slice(v, t + 1, i), t + 1) == slice(v, t, 2 * i),
		hi(slice(v, t + 1, i), t + 1) == slice(v, t, 2 * i + 1),
		i * pow2(t + 1) == (2 * i) * pow2(t),
		(i + 1) * pow2(t + 1) == (2 * i + 2) * pow2(t),
		(2 * i + 1) * pow2(t) == (2 * i) * pow2(t) + pow2(t),
		(2 * i + 2) * pow2(t) == (2 * i) * pow2(t) + 2 * pow2(t),
		(2 * i) * pow2(t) >= 0,
{
	lemma_half(t + 1);
	let p = pow2(t);
	assert(half(t + 1) == p);
	assert(i * pow2(t + 1) == (2 * i) * p) by (nonlinear_arith) requires pow2(t + 1) == 2 * p;
	assert((i + 1) * pow2(t + 1) == (2 * i + 2) * p) by (nonlinear_arith) requires pow2(t + 1) == 2 * p;
	assert((2 * i + 1) * p == (2 * i) * p + p) by (nonlinear_arith);
	assert((2 * i + 2) * p == (2 * i) * p + 2 * p) by (nonlinear_arith);
	assert((2 * i) * p >= 0) by (nonlinear_arith) requires i >= 0, p >= 0;
	assert(2 * i + 1 + 1 == 2 * i + 2);
	let w = slice(v, t + 1, i);
	assert(lo(w, t + 1) =~= slice(v, t, 2 * i));
	assert(hi(w, t + 1) =~= slice(v, t, 2 * i + 1));
}

/// Two neighbours joined.
pub proof fn lemma_join<C: Construct>(a: DbView<C>, b: DbView<C>, v: Seq<C::Value>, t: nat, i: int, l: C::Value, r: C::Value)
	requires
		a.wf(), 0 <= i, (2 * i) * pow2(t) < v.len(),
		b == a.with_insert(C::h(l, r), (l, r)),
		built(a, l, t, slice(v, t, 2 * i)), built(a, r, t, slice(v, t, 2 * i + 1)),
	ensures grown(a, b), built(b, C::h(l, r), t + 1, slice(v, t + 1, i)),
{
	lemma_grown_insert(a, l, r);
	lemma_slice_split(v, t, i);
	lemma_half(t + 1);
	lemma_pow2_pos(t);
	let w = slice(v, t + 1, i);
	assert(w.len() > 0);
	let k = C::h(l, r);
	assert((t + 1 - 1) as nat == t);
	assert(mroot::<C>(w, t + 1) == C::h(mroot::<C>(lo(w, t + 1), t), mroot::<C>(hi(w, t + 1), t)));
	if a.retains {
		lemma_built_grown(a, b, l, t, slice(v, t, 2 * i));
		lemma_built_grown(a, b, r, t, slice(v, t, 2 * i + 1));
		assert(cod(b.store, k) == (l, r));
		assert(tree_ok::<C>(b.store, k, t + 1, w));
	}
}

pub proof fn lemma_slice_past<V>(v: Seq<V>, t: nat, i: int)
	requires v.len() <= i * pow2(t), 0 <= i,
	ensures slice(v, t, i) == Seq::<V>::empty(),
{
	assert((i + 1) * pow2(t) >= i * pow2(t)) by (nonlinear_arith);
	assert(slice(v, t, i) =~= Seq::<V>::empty());
}

/// The inner loop: `next` has the joins of the pairs consumed so far.
pub open spec fn joining<C: Construct>(db: DbView<C>, cur: Seq<C::Value>, rest: Seq<C::Value>, next: Seq<C::Value>, t: nat, v: Seq<C::Value>) -> bool {
	&&& level(db, cur, t, v)
	&&& rest == cur.skip(min_of((2 * next.len()) as int, cur.len() as int))
	&&& 2 * next.len() <= cur.len() + 1
	&&& forall|i: int| 0 <= i < next.len() ==> built(db, #[trigger] next[i], t + 1, slice(v, t + 1, i))
}

pub proof fn lemma_joining_start<C: Construct>(db: DbView<C>, cur: Seq<C::Value>, t: nat, v: Seq<C::Value>)
	requires level(db, cur, t, v),
	ensures joining(db, cur, cur, Seq::empty(), t, v),
{ assert(cur.skip(0) =~= cur); }

pub proof fn lemma_joining_end<C: Construct>(db: DbView<C>, cur: Seq<C::Value>, rest: Seq<C::Value>, next: Seq<C::Value>, t: nat, v: Seq<C::Value>)
	requires joining(db, cur, rest, next, t, v), rest.len() == 0,
	ensures level(db, next, t + 1, v),
{
	lemma_half(t + 1);
	let n = next.len() as int;
	let p = pow2(t);
	let c = cur.len() as int;
	assert(2 * n >= c);
	assert(v.len() <= n * pow2(t + 1)) by (nonlinear_arith) requires v.len() <= c * p, 2 * n >= c, pow2(t + 1) == 2 * p, p >= 0;
	if n > 0 {
		assert((n - 1) * pow2(t + 1) < v.len()) by (nonlinear_arith) requires (c - 1) * p < v.len(), 2 * n <= c + 1, pow2(t + 1) == 2 * p, p >= 0;
	}
}

/// One round of the inner loop.
pub proof fn lemma_joining_step<C: Construct>(a: DbView<C>, e: DbView<C>, b: DbView<C>, cur: Seq<C::Value>, rest: Seq<C::Value>, next: Seq<C::Value>, t: nat, v: Seq<C::Value>, l: C::Value, r: C::Value)
	requires
		joining(a, cur, rest, next, t, v), rest.len() > 0, a.wf(), grown(a, e),
		built(e, empty_spec::<C>(t), t, Seq::empty()),
		l == rest[0], r == (if rest.len() > 1 { rest[1] } else { empty_spec::<C>(t) }),
		b == e.with_insert(C::h(l, r), (l, r)),
	ensures
		grown(a, b),
		joining(b, cur, rest.skip(if rest.len() > 1 { 2 } else { 1 }), next.push(C::h(l, r)), t, v),
{
	let n = next.len() as int;
	let p = pow2(t);
	let c = cur.len() as int;
	lemma_level_grown(a, e, cur, t, v);
	assert(l == cur[2 * n]);
	assert(built(e, cur[2 * n], t, slice(v, t, 2 * n)));
	if rest.len() > 1 {
		assert(r == cur[2 * n + 1]);
	} else {
		assert(2 * n + 1 == c);
		lemma_slice_past(v, t, 2 * n + 1);
	}
	assert(built(e, r, t, slice(v, t, 2 * n + 1)));
	assert((2 * n) * p < v.len()) by (nonlinear_arith) requires (c - 1) * p < v.len(), 2 * n <= c - 1, p >= 0;
	lemma_join(e, b, v, t, n, l, r);
	lemma_grown_trans(a, e, b);
	lemma_level_grown(e, b, cur, t, v);
	let nn = next.push(C::h(l, r));
	assert forall|i: int| 0 <= i < nn.len() implies built(b, #[trigger] nn[i], t + 1, slice(v, t + 1, i)) by {
		if i < n { assert(nn[i] == next[i]); lemma_built_grown(a, b, next[i], t + 1, slice(v, t + 1, i)); }
	}
	let k = if rest.len() > 1 { 2int } else { 1 };
	assert(rest.skip(k) =~= cur.skip(min_of((2 * nn.len()) as int, c)));
}

/// At the top there is one node, or none.
pub proof fn lemma_level_top<C: Construct>(db: DbView<C>, cur: Seq<C::Value>, d: nat, v: Seq<C::Value>)
	requires level(db, cur, d, v), v.len() <= pow2(d),
	ensures
		cur.len() == 0 ==> v == Seq::<C::Value>::empty(),
		cur.len() > 0 ==> built(db, cur[0], d, v),
{
	if cur.len() == 0 {
		assert(v.len() <= 0 * pow2(d));
		assert(v =~= Seq::<C::Value>::empty());
	} else {
		assert(slice(v, d, 0) =~= v);
	}
}

// ------------------------------------------------------------ host chunks

pub open spec fn cdiv(a: nat, b: nat) -> nat { ((a + b - 1) / (b as int)) as nat }

pub proof fn lemma_cdiv(a: nat, b: nat)
	requires b > 0,
	ensures cdiv(a, b) == a / b + if a % b == 0 { 0nat } else { 1nat }, a <= cdiv(a, b) * b, cdiv(a, b) > 0 ==> (cdiv(a, b) - 1) * b < a,
{
	lemma_fundamental_div_mod(a as int, b as int);
	let q = a as int / b as int;
	let m = a as int % b as int;
	let x = a + b - 1;
	if m == 0 {
		assert(x == q * (b as int) + (b - 1)) by (nonlinear_arith) requires x == a + b - 1, a == (b as int) * q + m, m == 0;
		lemma_fundamental_div_mod_converse(x, b as int, q, b - 1);
	} else {
		assert(x == (b as int) * (q + 1) + (m - 1)) by (nonlinear_arith) requires x == a + b - 1, a == (b as int) * q + m;
		lemma_fundamental_div_mod_converse(x, b as int, q + 1, m - 1);
	}
	assert(a <= cdiv(a, b) * b && (cdiv(a, b) > 0 ==> (cdiv(a, b) - 1) * b < a)) by (nonlinear_arith)
		requires a == (b as int) * q + m, 0 <= m < b, cdiv(a, b) == q + (if m == 0 { 0int } else { 1 });
}

pub proof fn lemma_host(n: nat, h: nat, v: nat)
	requires h > 0,
	ensures ({
		let bytes = (n % h) * v;
		cdiv(n * v, h) == (n / h) * v + bytes / h + if bytes % h == 0 { 0nat } else { 1nat }
	}), (n % h) * v <= h * v,
{
	let q = n as int / h as int;
	let m = n as int % h as int;
	lemma_fundamental_div_mod(n as int, h as int);
	let bytes = m * v;
	assert(n * v == (h as int) * (q * v) + bytes) by (nonlinear_arith) requires n == (h as int) * q + m, bytes == m * v;
	assert(m * v <= h * v) by (nonlinear_arith) requires 0 <= m < h;
	assert(m * v >= 0 && q * v >= 0) by (nonlinear_arith) requires m >= 0, v >= 0, q >= 0;
	lemma_cdiv((n * v) as nat, h);
	lemma_fundamental_div_mod(bytes, h as int);
	let (bq, bm) = (bytes / (h as int), bytes % (h as int));
	assert(n * v == (h as int) * (q * v + bq) + bm) by (nonlinear_arith) requires n * v == (h as int) * (q * v) + bytes, bytes == (h as int) * bq + bm;
	lemma_fundamental_div_mod_converse((n * v) as int, h as int, q * v + bq, bm);
}

/// What `(1..n + 1).rev()` counts down, stated for the terms the loop uses.
pub proof fn lemma_down(n: usize)
	requires n < usize::MAX,
	ensures
		({
			let rg = core::ops::Range::<usize> { start: 1, end: (n + 1) as usize };
			let rv = vstd::std_specs::iter::into_rev_spec(rg);
			vstd::std_specs::iter::rev_post(rg, rv) ==>
				vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&rv)
				&& vstd::std_specs::iter::IteratorSpec::remaining(&rv).len() == n
				&& (forall|k: int| 0 <= k < n ==> vstd::std_specs::iter::IteratorSpec::remaining(&rv)[k] == n - k)
		}),
{
	let rg = core::ops::Range::<usize> { start: 1, end: (n + 1) as usize };
	let rv = vstd::std_specs::iter::into_rev_spec(rg);
	if vstd::std_specs::iter::rev_post(rg, rv) { vstd::std_specs::iter::rev_postcondition(rg); }
}

} // verus!
