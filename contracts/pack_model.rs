//! Ghost model of packed vectors: byte strings cut into host chunks.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::div_mod::*;
use crate::model::*;
use crate::stubs::*;
use crate::util_model::*;
verus! {
broadcast use group_value;

pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }

/// Host values are their bytes.
pub open spec fn lawful_host<X, H: ArrayLength<u8>>() -> bool {
	&&& forall|x: X| (#[trigger] bytes_of(&x)).len() == H::n() && value_of::<X>(bytes_of(&x)) == x
	&&& forall|b: Seq<u8>| b.len() == H::n() ==> bytes_of(&#[trigger] value_of::<X>(b)) == b
	&&& bytes_of(&dflt::<X>()) == zeros(H::n())
}

pub open spec fn item_bytes<T: Into<GenericArray<u8, V>>, V>(t: T) -> Seq<u8> { <T as IntoSpec<GenericArray<u8, V>>>::into_spec(t)@ }

/// Items convert to bytes and back.
pub open spec fn lawful_item<T: Into<GenericArray<u8, V>>, V: ArrayLength<u8>>() -> bool {
	forall|b: Seq<u8>| b.len() == V::n() ==> item_bytes::<T, V>(#[trigger] value_of::<T>(b)) == b
}

pub open spec fn chunk(flat: Seq<u8>, h: nat, k: int) -> Seq<u8> { flat.subrange(k * h, (k + 1) * h) }

/// The bytes cut into `n` host values.
pub open spec fn chunks<X>(flat: Seq<u8>, h: nat, n: nat) -> Seq<X> {
	Seq::new(n, |k: int| value_of::<X>(chunk(flat, h, k)))
}

/// `b` written at `p`.
pub open spec fn over(flat: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
	Seq::new(flat.len(), |q: int| if p <= q < p + b.len() { b[q - p] } else { flat[q] })
}

/// The items one after the other, padded with zeros to whole hosts.
pub open spec fn padded(v: Seq<Seq<u8>>, h: nat, w: nat) -> Seq<u8> {
	Seq::new(cdiv(v.len() * w, h) * h, |p: int| if p < v.len() * w { v[p / (w as int)][p % (w as int)] } else { 0u8 })
}

pub open spec fn items(v: Seq<Seq<u8>>, w: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() == w }

// Which host bytes an item covers.
pub open spec fn cov_lo(s: nat, h: nat, k: int) -> int { let p = (s / h + k) * h; if k == 0 { s as int } else { p } }
pub open spec fn cov_hi(s: nat, w: nat, h: nat, k: int) -> int { min_of((s + w) as int, (s / h + k + 1) * h) }
pub open spec fn cov_n(s: nat, w: nat, h: nat) -> int { cdiv(s + w, h) - s / h }

pub proof fn lemma_base(s: nat, w: nat, h: nat)
	requires h > 0, w > 0,
	ensures
		(s / h) * h <= s < (s / h + 1) * h, s % h == s - (s / h) * h, s % h < h,
		cov_n(s, w, h) >= 1,
		s + w <= cdiv(s + w, h) * h, (cdiv(s + w, h) - 1) * h < s + w,
{
	lemma_fundamental_div_mod(s as int, h as int);
	let q = s as int / h as int;
	assert((q + 1) * h == q * h + h && (h as int) * q == q * (h as int)) by (nonlinear_arith);
	lemma_cdiv(s + w, h);
	let c = cdiv(s + w, h) as int;
	assert(c * h > 0);
	if c < q + 1 { assert(c * h <= q * h) by (nonlinear_arith) requires c <= q, h > 0; }
	assert(c > 0) by (nonlinear_arith) requires c * h > 0, h > 0;
}

/// How far the cover reaches.
pub proof fn lemma_cov_step(s: nat, w: nat, h: nat, k: int)
	requires h > 0, w > 0, 0 <= k < cov_n(s, w, h),
	ensures
		(s / h + k) * h <= cov_lo(s, h, k) < cov_hi(s, w, h, k) <= (s / h + k + 1) * h,
		s <= cov_lo(s, h, k), cov_hi(s, w, h, k) <= s + w,
		k + 1 < cov_n(s, w, h) ==> cov_hi(s, w, h, k) == cov_lo(s, h, k + 1),
		k + 1 == cov_n(s, w, h) ==> cov_hi(s, w, h, k) == s + w,
		(s / h + k + 1) * h == (s / h + k) * h + h,
{
	lemma_base(s, w, h);
	let q = (s / h) as int;
	let c = cdiv(s + w, h) as int;
	assert((q + k + 1) * h == (q + k) * h + h) by (nonlinear_arith);
	assert((q + k) * h <= (c - 1) * h) by (nonlinear_arith) requires q + k <= c - 1, h > 0;
	assert((q + k) * h >= q * h) by (nonlinear_arith) requires k >= 0, h > 0;
	if k > 0 { assert((q + k) * h >= (q + 1) * h) by (nonlinear_arith) requires k >= 1, h > 0; }
	if k + 1 < cov_n(s, w, h) {
		assert((q + k + 1) * h <= (c - 1) * h) by (nonlinear_arith) requires q + k + 1 <= c - 1, h > 0;
	} else {
		assert(q + k + 1 == c);
	}
}

pub proof fn lemma_cov_unique(s: nat, w: nat, h: nat, n: int)
	requires h > 0, w > 0, n >= 1, (s / h + n) * h >= s + w, (s / h + n - 1) * h < s + w,
	ensures n == cov_n(s, w, h),
{
	lemma_base(s, w, h);
	let q = (s / h) as int;
	let c = cdiv(s + w, h) as int;
	if q + n < c { assert((q + n) * h <= (c - 1) * h) by (nonlinear_arith) requires q + n <= c - 1, h > 0; }
	if q + n > c { assert((q + n - 1) * h >= c * h) by (nonlinear_arith) requires q + n - 1 >= c, h > 0; }
}

pub proof fn lemma_cdiv_mono(a: nat, b: nat, h: nat)
	requires h > 0, a <= b,
	ensures cdiv(a, h) <= cdiv(b, h),
{ lemma_div_is_ordered((a + h - 1) as int, (b + h - 1) as int, h as int); }

pub proof fn lemma_chunk_bounds(n: nat, h: nat, k: int)
	requires 0 <= k < n,
	ensures 0 <= k * h, k * h + h == (k + 1) * h, (k + 1) * h <= n * h,
{
	assert(0 <= k * h && k * h + h == (k + 1) * h && (k + 1) * h <= n * h) by (nonlinear_arith) requires 0 <= k, k + 1 <= n, h >= 0;
}

/// Writing within one chunk.
pub proof fn lemma_chunk_write<X>(flat: Seq<u8>, h: nat, n: nat, k: int, a: int, x: Seq<u8>)
	requires flat.len() == n * h, 0 <= k < n, 0 <= a, a + x.len() <= h,
	ensures
		over(flat, k * h + a, x).len() == flat.len(),
		chunk(flat, h, k).len() == h,
		chunks::<X>(over(flat, k * h + a, x), h, n) == chunks::<X>(flat, h, n).update(k, value_of::<X>(over(chunk(flat, h, k), a, x))),
{
	lemma_chunk_bounds(n, h, k);
	let g = over(flat, k * h + a, x);
	assert forall|j: int| 0 <= j < n implies chunk(g, h, j) == (if j == k { over(chunk(flat, h, k), a, x) } else { chunk(flat, h, j) }) by {
		lemma_chunk_bounds(n, h, j);
		if j < k { assert((j + 1) * h <= k * h) by (nonlinear_arith) requires j + 1 <= k, h >= 0; }
		if j > k { assert((k + 1) * h <= j * h) by (nonlinear_arith) requires k + 1 <= j, h >= 0; }
		assert(chunk(g, h, j) =~= (if j == k { over(chunk(flat, h, k), a, x) } else { chunk(flat, h, j) }));
	}
	assert(chunks::<X>(g, h, n) =~= chunks::<X>(flat, h, n).update(k, value_of::<X>(over(chunk(flat, h, k), a, x))));
}

pub proof fn lemma_over_more(flat: Seq<u8>, s: int, val: Seq<u8>, o: int, p: int)
	requires 0 <= o <= p <= val.len(),
	ensures over(over(flat, s, val.subrange(0, o)), s + o, val.subrange(o, p)) == over(flat, s, val.subrange(0, p)),
{ assert(over(over(flat, s, val.subrange(0, o)), s + o, val.subrange(o, p)) =~= over(flat, s, val.subrange(0, p))); }

pub proof fn lemma_over_none(flat: Seq<u8>, s: int, val: Seq<u8>)
	ensures over(flat, s, val.subrange(0, 0)) == flat, val.subrange(0, val.len() as int) == val,
{
	assert(over(flat, s, val.subrange(0, 0)) =~= flat);
	assert(val.subrange(0, val.len() as int) =~= val);
}

/// Another chunk of zeros.
pub proof fn lemma_flat_push<X, H: ArrayLength<u8>>(flat: Seq<u8>, h: nat, n: nat, m: nat)
	requires lawful_host::<X, H>(), h == H::n(), flat.len() + m * h == n * h,
	ensures
		(m + 1) * h == m * h + h, (n + 1) * h == n * h + h,
		chunks::<X>(flat + zeros(m * h), h, n).push(dflt::<X>()) == chunks::<X>(flat + zeros((m + 1) * h), h, n + 1),
{
	assert((m + 1) * h == m * h + h && (n + 1) * h == n * h + h) by (nonlinear_arith);
	let f = flat + zeros(m * h);
	let g = flat + zeros((m + 1) * h);
	assert forall|j: int| 0 <= j < n implies chunk(g, h, j) == chunk(f, h, j) by {
		lemma_chunk_bounds(n, h, j);
		assert(chunk(g, h, j) =~= chunk(f, h, j));
	}
	assert(chunk(g, h, n as int) =~= zeros(h));
	assert(value_of::<X>(bytes_of(&dflt::<X>())) == dflt::<X>());
	assert(chunks::<X>(g, h, n + 1) =~= chunks::<X>(f, h, n).push(dflt::<X>()));
}

/// The last chunk taken off.
pub proof fn lemma_flat_pop<X>(flat: Seq<u8>, h: nat, n: nat)
	requires n * h <= flat.len(), n > 0,
	ensures
		(n - 1) * h <= n * h, (n - 1) * h >= 0,
		flat.take((n * h) as int).take((n - 1) * h) == flat.take((n - 1) * h),
		chunks::<X>(flat.take((n * h) as int), h, n).drop_last() == chunks::<X>(flat.take((n - 1) * h), h, (n - 1) as nat),
{
	assert((n - 1) * h + h == n * h && (n - 1) * h >= 0) by (nonlinear_arith) requires n > 0;
	let f = flat.take((n * h) as int);
	let g = flat.take((n - 1) * h);
	assert(flat.take((n * h) as int).take((n - 1) * h) =~= g);
	assert forall|j: int| 0 <= j < n - 1 implies chunk(g, h, j) == chunk(f, h, j) by {
		lemma_chunk_bounds((n - 1) as nat, h, j);
		assert(chunk(g, h, j) =~= chunk(f, h, j));
	}
	assert(chunks::<X>(f, h, n).drop_last() =~= chunks::<X>(g, h, (n - 1) as nat));
}

pub proof fn lemma_pos(i: int, j: int, w: nat)
	requires 0 <= j < w,
	ensures (i * w + j) / (w as int) == i, (i * w + j) % (w as int) == j,
{ lemma_fundamental_div_mod_converse(i * w + j, w as int, i, j); }

/// Where byte `p` lies.
pub proof fn lemma_at(p: int, n: nat, w: nat)
	requires 0 <= p < n * w, w > 0,
	ensures 0 <= p / (w as int) < n, 0 <= p % (w as int) < w, p == (p / (w as int)) * w + p % (w as int),
{
	lemma_fundamental_div_mod(p, w as int);
	lemma_mod_bound(p, w as int);
	let (q, r) = (p / (w as int), p % (w as int));
	assert(0 <= q && q < n) by (nonlinear_arith) requires 0 <= p < n * w, p == (w as int) * q + r, 0 <= r < w;
	assert((w as int) * q == q * w) by (nonlinear_arith);
}

pub proof fn lemma_item_bounds(i: int, n: nat, w: nat)
	requires 0 <= i < n,
	ensures 0 <= i * w, i * w + w == (i + 1) * w, (i + 1) * w <= n * w,
{ lemma_chunk_bounds(n, w, i); }

/// Byte `p` is in item `i` exactly between its ends.
pub proof fn lemma_in_item(p: int, i: int, w: nat)
	requires 0 <= p, w > 0, 0 <= i,
	ensures i * w <= p < i * w + w <==> p / (w as int) == i,
{
	lemma_fundamental_div_mod(p, w as int);
	lemma_mod_bound(p, w as int);
	let (q, r) = (p / (w as int), p % (w as int));
	assert((w as int) * q == q * w) by (nonlinear_arith);
	if q == i { } else if q < i { assert(q * w + w <= i * w) by (nonlinear_arith) requires q + 1 <= i, w > 0; }
	else { assert(i * w + w <= q * w) by (nonlinear_arith) requires i + 1 <= q, w > 0; }
}

pub proof fn lemma_padded_len(v: Seq<Seq<u8>>, h: nat, w: nat)
	requires h > 0,
	ensures padded(v, h, w).len() == cdiv(v.len() * w, h) * h, v.len() * w <= padded(v, h, w).len(),
{ lemma_cdiv(v.len() * w, h); }

pub proof fn lemma_padded_get(v: Seq<Seq<u8>>, h: nat, w: nat, i: int)
	requires h > 0, w > 0, items(v, w), 0 <= i < v.len(),
	ensures padded(v, h, w).subrange(i * w, i * w + w) == v[i], i * w + w <= padded(v, h, w).len(), 0 <= i * w,
{
	lemma_padded_len(v, h, w);
	lemma_item_bounds(i, v.len(), w);
	assert forall|j: int| 0 <= j < w implies padded(v, h, w)[i * w + j] == v[i][j] by { lemma_pos(i, j, w); }
	assert(padded(v, h, w).subrange(i * w, i * w + w) =~= v[i]);
}

pub proof fn lemma_padded_set(v: Seq<Seq<u8>>, h: nat, w: nat, i: int, b: Seq<u8>)
	requires h > 0, w > 0, items(v, w), 0 <= i < v.len(), b.len() == w,
	ensures over(padded(v, h, w), i * w, b) == padded(v.update(i, b), h, w), items(v.update(i, b), w),
{
	lemma_padded_len(v, h, w);
	lemma_item_bounds(i, v.len(), w);
	let f = over(padded(v, h, w), i * w, b);
	let g = padded(v.update(i, b), h, w);
	assert forall|p: int| 0 <= p < f.len() implies f[p] == g[p] by {
		lemma_in_item(p, i, w);
		if p < v.len() * w { lemma_at(p, v.len(), w); }
	}
	assert(f =~= g);
}

pub proof fn lemma_padded_push(v: Seq<Seq<u8>>, h: nat, w: nat, b: Seq<u8>)
	requires h > 0, w > 0, items(v, w), b.len() == w,
	ensures ({
		let n0 = cdiv(v.len() * w, h);
		let n1 = cdiv((v.len() + 1) * w, h);
		&&& n0 <= n1
		&&& padded(v, h, w).len() == n0 * h
		&&& over(padded(v, h, w) + zeros(((n1 - n0) * h) as nat), (v.len() * w) as int, b) == padded(v.push(b), h, w)
		&&& items(v.push(b), w)
	}),
{
	let n0 = cdiv(v.len() * w, h);
	let n1 = cdiv((v.len() + 1) * w, h);
	assert((v.len() + 1) * w == v.len() * w + w) by (nonlinear_arith);
	lemma_cdiv_mono(v.len() * w, (v.len() + 1) * w, h);
	lemma_padded_len(v, h, w);
	lemma_padded_len(v.push(b), h, w);
	assert(n0 * h + (n1 - n0) * h == n1 * h && (n1 - n0) * h >= 0) by (nonlinear_arith) requires n0 <= n1;
	let f = over(padded(v, h, w) + zeros(((n1 - n0) * h) as nat), (v.len() * w) as int, b);
	let g = padded(v.push(b), h, w);
	assert forall|p: int| 0 <= p < f.len() implies f[p] == g[p] by {
		lemma_in_item(p, v.len() as int, w);
		if p < (v.len() + 1) * w { lemma_at(p, v.len() + 1, w); }
		if p < v.len() * w { lemma_at(p, v.len(), w); }
	}
	assert(f =~= g);
}

pub proof fn lemma_padded_pop(v: Seq<Seq<u8>>, h: nat, w: nat)
	requires h > 0, w > 0, items(v, w), v.len() > 0,
	ensures ({
		let n0 = cdiv(v.len() * w, h);
		let n1 = cdiv(((v.len() - 1) * w) as nat, h);
		&&& n1 <= n0
		&&& n1 * h <= n0 * h
		&&& over(padded(v, h, w), (v.len() - 1) * w, zeros(w)).take((n1 * h) as int) == padded(v.drop_last(), h, w)
		&&& items(v.drop_last(), w)
	}),
{
	let n0 = cdiv(v.len() * w, h);
	let n1 = cdiv(((v.len() - 1) * w) as nat, h);
	assert((v.len() - 1) * w + w == v.len() * w && (v.len() - 1) * w >= 0) by (nonlinear_arith) requires v.len() > 0;
	lemma_cdiv_mono(((v.len() - 1) * w) as nat, v.len() * w, h);
	lemma_padded_len(v, h, w);
	lemma_padded_len(v.drop_last(), h, w);
	assert(n1 * h <= n0 * h) by (nonlinear_arith) requires n1 <= n0;
	let f = over(padded(v, h, w), (v.len() - 1) * w, zeros(w)).take((n1 * h) as int);
	let g = padded(v.drop_last(), h, w);
	assert forall|p: int| 0 <= p < f.len() implies f[p] == g[p] by {
		lemma_in_item(p, v.len() - 1, w);
		if p < v.len() * w { lemma_at(p, v.len(), w); }
		if p < (v.len() - 1) * w { lemma_at(p, (v.len() - 1) as nat, w); }
	}
	assert(f =~= g);
}

pub proof fn lemma_padded_none(h: nat, w: nat)
	requires h > 0,
	ensures cdiv(0, h) == 0, padded(Seq::empty(), h, w) == Seq::<u8>::empty(), cdiv(0 * w, h) == 0, w > 0 ==> cdiv(w, h) > 0,
{
	assert(0 * w == 0) by (nonlinear_arith);
	lemma_cdiv(0, h);
	assert(cdiv(0, h) == 0) by { lemma_basic_div(h - 1, h as int); }
	let e = Seq::<Seq<u8>>::empty();
	assert(e.len() * w == 0) by (nonlinear_arith) requires e.len() == 0;
	assert(cdiv(0, h) * h == 0) by (nonlinear_arith) requires cdiv(0, h) == 0;
	assert(padded(e, h, w) =~= Seq::<u8>::empty());
	lemma_cdiv(w, h);
	if w > 0 && cdiv(w, h) == 0 { assert(cdiv(w, h) * h == 0) by (nonlinear_arith) requires cdiv(w, h) == 0; }
}


// ------------------------------------------------------- loops of get / set

/// Bytes of the item done before range `k`.
pub open spec fn done(s: nat, w: nat, h: nat, k: int) -> int {
	if k >= cov_n(s, w, h) { w as int } else { cov_lo(s, h, k) - s }
}

pub open spec fn covers(base: int, rs: Seq<core::ops::Range<usize>>, s: nat, w: nat, h: nat) -> bool {
	&&& base == s / h && rs.len() == cov_n(s, w, h)
	&&& forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).start == cov_lo(s, h, k) - (s / h + k) * h && rs[k].end == cov_hi(s, w, h, k) - (s / h + k) * h
}

/// The hosts an item covers exist.
pub proof fn lemma_cover_in(i: nat, len: nat, w: nat, h: nat)
	requires h > 0, w > 0, i < len,
	ensures (i * w) / h + cov_n(i * w, w, h) == cdiv((i + 1) * w, h), cdiv((i + 1) * w, h) <= cdiv(len * w, h), (i + 1) * w == i * w + w, (i + 1) * w <= len * w,
{
	assert((i + 1) * w == i * w + w && (i + 1) * w <= len * w) by (nonlinear_arith) requires i < len;
	lemma_cdiv_mono((i + 1) * w, len * w, h);
}

pub proof fn lemma_done(s: nat, w: nat, h: nat, k: int)
	requires h > 0, w > 0, 0 <= k < cov_n(s, w, h),
	ensures
		done(s, w, h, 0) == 0, done(s, w, h, cov_n(s, w, h)) == w,
		done(s, w, h, k + 1) == done(s, w, h, k) + cov_hi(s, w, h, k) - cov_lo(s, h, k),
		0 <= done(s, w, h, k) < done(s, w, h, k + 1) <= w,
{
	lemma_base(s, w, h);
	lemma_cov_step(s, w, h, k);
	lemma_cov_step(s, w, h, 0);
}

pub proof fn lemma_get_step<X, H: ArrayLength<u8>>(flat: Seq<u8>, n: nat, s: nat, w: nat, h: nat, k: int, x: X, r0: Seq<u8>, r1: Seq<u8>)
	requires
		lawful_host::<X, H>(), h == H::n(), h > 0, w > 0, 0 <= k < cov_n(s, w, h), s / h + cov_n(s, w, h) <= n, flat.len() == n * h, s + w <= flat.len(),
		x == chunks::<X>(flat, h, n)[s / h + k],
		r0.len() == w, r0.take(done(s, w, h, k)) == flat.subrange(s as int, s + done(s, w, h, k)),
		r1 == r0.take(done(s, w, h, k)) + bytes_of(&x).subrange(cov_lo(s, h, k) - (s / h + k) * h, cov_hi(s, w, h, k) - (s / h + k) * h) + r0.skip(done(s, w, h, k + 1)),
	ensures
		r1.len() == w, r1.take(done(s, w, h, k + 1)) == flat.subrange(s as int, s + done(s, w, h, k + 1)),
{
	lemma_done(s, w, h, k);
	lemma_cov_step(s, w, h, k);
	lemma_chunk_bounds(n, h, s / h + k);
	let c = chunk(flat, h, s / h + k);
	assert(x == value_of::<X>(c));
	assert(c.len() == h);
	assert(bytes_of(&x) == c);
	assert(r1.take(done(s, w, h, k + 1)) =~= flat.subrange(s as int, s + done(s, w, h, k + 1)));
}

pub proof fn lemma_set_step<X, H: ArrayLength<u8>>(flat: Seq<u8>, n: nat, s: nat, w: nat, h: nat, k: int, val: Seq<u8>, x: X, y: X)
	requires
		lawful_host::<X, H>(), h == H::n(), h > 0, w > 0, 0 <= k < cov_n(s, w, h), s / h + cov_n(s, w, h) <= n, flat.len() == n * h, s + w <= flat.len(), val.len() == w,
		x == chunks::<X>(over(flat, s as int, val.subrange(0, done(s, w, h, k))), h, n)[s / h + k],
		({
			let a = cov_lo(s, h, k) - (s / h + k) * h;
			let b = cov_hi(s, w, h, k) - (s / h + k) * h;
			bytes_of(&y) == bytes_of(&x).take(a) + val.subrange(done(s, w, h, k), done(s, w, h, k + 1)) + bytes_of(&x).skip(b)
		}),
	ensures
		chunks::<X>(over(flat, s as int, val.subrange(0, done(s, w, h, k))), h, n).update(s / h + k, y)
			== chunks::<X>(over(flat, s as int, val.subrange(0, done(s, w, h, k + 1))), h, n),
{
	lemma_done(s, w, h, k);
	lemma_cov_step(s, w, h, k);
	let a = cov_lo(s, h, k) - (s / h + k) * h;
	let b = cov_hi(s, w, h, k) - (s / h + k) * h;
	let f = over(flat, s as int, val.subrange(0, done(s, w, h, k)));
	let z = val.subrange(done(s, w, h, k), done(s, w, h, k + 1));
	lemma_over_more(flat, s as int, val, done(s, w, h, k), done(s, w, h, k + 1));
	lemma_chunk_bounds(n, h, s / h + k);
	lemma_chunk_write::<X>(f, h, n, s / h + k, a, z);
	assert(chunk(f, h, s / h + k).len() == h);
	assert(bytes_of(&x) == chunk(f, h, s / h + k));
	assert(bytes_of(&y) =~= over(chunk(f, h, s / h + k), a, z));
	assert(y == value_of::<X>(bytes_of(&y)));
}

/// Byte `p` of the hosts below `root`, and whether its host is known.
pub open spec fn hknown<X>(s: Map<X, (X, X)>, root: X, d: nat, h: nat, p: int) -> bool {
	walk(s, root, bits_be((p / (h as int)) as nat, d)) is Some
}
pub open spec fn hbyte<X>(s: Map<X, (X, X)>, root: X, d: nat, h: nat, p: int) -> u8 {
	bytes_of(&walk(s, root, bits_be((p / (h as int)) as nat, d))->0)[p % (h as int)]
}
/// `b` is in the hosts at `p`.
pub open spec fn hbytes<X>(s: Map<X, (X, X)>, root: X, d: nat, h: nat, p: int, b: Seq<u8>) -> bool {
	forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == hbyte(s, root, d, h, p + j) && hknown(s, root, d, h, p + j)
}
/// Some host of the `w` bytes at `p` is missing.
pub open spec fn hmissing<X>(s: Map<X, (X, X)>, root: X, d: nat, h: nat, p: int, w: nat) -> bool {
	exists|j: int| 0 <= j < w && !#[trigger] hknown(s, root, d, h, p + j)
}

pub proof fn lemma_hosts_step<X, H: ArrayLength<u8>>(st: Map<X, (X, X)>, root: X, d: nat, s: nat, w: nat, h: nat, k: int, x: X, r0: Seq<u8>, r1: Seq<u8>)
	requires
		lawful_host::<X, H>(), h == H::n(), h > 0, w > 0, 0 <= k < cov_n(s, w, h),
		walk(st, root, bits_be((s / h + k) as nat, d)) == Some(x),
		r0.len() == w, hbytes(st, root, d, h, s as int, r0.take(done(s, w, h, k))),
		r1 == r0.take(done(s, w, h, k)) + bytes_of(&x).subrange(cov_lo(s, h, k) - (s / h + k) * h, cov_hi(s, w, h, k) - (s / h + k) * h) + r0.skip(done(s, w, h, k + 1)),
	ensures
		r1.len() == w, hbytes(st, root, d, h, s as int, r1.take(done(s, w, h, k + 1))),
{
	lemma_done(s, w, h, k);
	lemma_cov_step(s, w, h, k);
	lemma_chunk_bounds((s / h + k + 1) as nat, h, s / h + k);
	let (m, n, q) = (done(s, w, h, k), done(s, w, h, k + 1), s / h + k);
	let b = r1.take(n);
	let (lo, hi) = (cov_lo(s, h, k) - q * h, cov_hi(s, w, h, k) - q * h);
	let c = bytes_of(&x);
	assert(c.len() == h && 0 <= lo <= hi <= h && n == m + hi - lo);
	assert(b.len() == n);
	assert forall|j: int| 0 <= j < n implies #[trigger] b[j] == hbyte(st, root, d, h, s + j) && hknown(st, root, d, h, s + j) by {
		if j < m { assert(b[j] == r0.take(m)[j]); }
		else {
			lemma_div_in(s + j, q, h);
			assert(b[j] == c[lo + j - m]);
		}
	}
	assert(hbytes(st, root, d, h, s as int, b));
}
pub proof fn lemma_div_in(p: int, q: int, h: nat)
	requires h > 0, q * h <= p < q * h + h,
	ensures p / (h as int) == q, p % (h as int) == p - q * h,
{ lemma_fundamental_div_mod_converse(p, h as int, q, p - q * h); }
/// The host of range `k` has bytes of the item.
pub proof fn lemma_hosts_missing<X>(st: Map<X, (X, X)>, root: X, d: nat, s: nat, w: nat, h: nat, k: int)
	requires
		h > 0, w > 0, 0 <= k < cov_n(s, w, h),
		walk(st, root, bits_be((s / h + k) as nat, d)) is None,
	ensures hmissing(st, root, d, h, s as int, w),
{
	lemma_done(s, w, h, k);
	lemma_cov_step(s, w, h, k);
	lemma_chunk_bounds((s / h + k + 1) as nat, h, s / h + k);
	let j = done(s, w, h, k);
	let p = s + j;
	let q = s / h + k;
	lemma_fundamental_div_mod_converse(p, h as int, q, p - q * h);
	assert(!hknown(st, root, d, h, s + j));
}

/// The arithmetic of `coverings` does not overflow.
pub proof fn lemma_cover_arith(i: nat, w: nat, h: nat)
	requires h > 0, w > 0,
	ensures ({
		let bytes = (i % h) * w;
		&&& (i * w) / h == (i / h) * w + bytes / h
		&&& (i * w) % h == bytes % h
		&&& (i / h) * w + bytes / h < cdiv((i + 1) * w, h)
		&&& bytes <= h * w
		&&& (h - 1) + w <= h * w
	}),
{
	let q = i as int / h as int;
	let m = i as int % h as int;
	lemma_fundamental_div_mod(i as int, h as int);
	let bytes = m * w;
	lemma_fundamental_div_mod(bytes, h as int);
	let (bq, bm) = (bytes / (h as int), bytes % (h as int));
	assert(i * w == (h as int) * (q * w + bq) + bm) by (nonlinear_arith) requires i == (h as int) * q + m, bytes == m * w, bytes == (h as int) * bq + bm;
	lemma_fundamental_div_mod_converse((i * w) as int, h as int, q * w + bq, bm);
	assert(bytes <= h * w) by (nonlinear_arith) requires bytes == m * w, 0 <= m < h;
	assert((h - 1) + w <= h * w) by (nonlinear_arith) requires h >= 1, w >= 1;
	lemma_base(i * w, w, h);
	assert((i + 1) * w == i * w + w) by (nonlinear_arith);
}
pub proof fn lemma_bounds_here(k: int, n: nat, h: nat)
	requires 0 <= k < n,
	ensures 0 <= k * h, k * h + h == (k + 1) * h, (k + 1) * h <= n * h,
{ lemma_chunk_bounds(n, h, k); }

pub proof fn lemma_zero_items<X, H: ArrayLength<u8>>(n: nat, w: nat)
	requires lawful_host::<X, H>(), H::n() > 0, w > 0,
	ensures ({
		let v = Seq::new(n, |i: int| zeros(w));
		let c = cdiv(n * w, H::n());
		items(v, w) && padded(v, H::n(), w).len() == c * H::n() && chunks::<X>(padded(v, H::n(), w), H::n(), c) == Seq::new(c, |i: int| dflt::<X>())
	}),
{
	let v = Seq::new(n, |i: int| zeros(w));
	let h = H::n();
	let c = cdiv(n * w, h);
	lemma_padded_len(v, h, w);
	let f = padded(v, h, w);
	assert forall|p: int| 0 <= p < f.len() implies f[p] == 0 by { if p < n * w { lemma_at(p, n, w); } }
	assert(value_of::<X>(bytes_of(&dflt::<X>())) == dflt::<X>());
	assert forall|k: int| 0 <= k < c implies chunk(f, h, k) == zeros(h) by { lemma_chunk_bounds(c, h, k); assert(chunk(f, h, k) =~= zeros(h)); }
	assert(chunks::<X>(f, h, c) =~= Seq::new(c, |i: int| dflt::<X>()));
}

/// One more item needs at most as many more hosts as an item has bytes.
pub proof fn lemma_cdiv_next(n: nat, w: nat, h: nat)
	requires h > 0, w > 0,
	ensures cdiv((n + 1) as nat * w, h) <= cdiv(n * w, h) + w,
{
	let (a, b) = (cdiv(n * w, h), cdiv((n + 1) as nat * w, h));
	assert((n + 1) as nat * w == n * w + w) by (nonlinear_arith);
	assert((n * w + h - 1) / (h as int) + w >= (n * w + w + h - 1) / (h as int)) by (nonlinear_arith) requires h > 0, w > 0;
}
} // verus!
