//! Ghost model of packed and composite sequences of the ssz encoding.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::power2::*;
use crate::model::*;
use crate::vec_model::*;
use crate::util_model::*;
use crate::pack_model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_model::*;
use crate::le_lib::*;
use crate::traits::*;
verus! {
broadcast use group_value;

/// A sequence of items.
pub trait Counted {
	spec fn count(&self) -> nat;
}

// ------------------------------------------------------------ composite

/// The roots of the items.
pub open spec fn roots<T: IntoTree, C: CompatibleConstruct>(v: Seq<T>) -> Seq<Value> { Seq::new(v.len(), |i: int| v[i].enc::<C>()) }

// --------------------------------------------------------------- packed

pub open spec fn bytes_u8(v: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| le_bytes(v[i] as nat, 1)) }
pub open spec fn bytes_u16(v: Seq<u16>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| le_bytes(v[i] as nat, 2)) }
pub open spec fn bytes_u32(v: Seq<u32>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| le_bytes(v[i] as nat, 4)) }
pub open spec fn bytes_u64(v: Seq<u64>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| le_bytes(v[i] as nat, 8)) }
pub open spec fn bytes_u128(v: Seq<u128>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| le_bytes(v[i] as nat, 16)) }

/// The end values of items of `w` bytes: one after the other, padded with zeros.
pub open spec fn hosts(v: Seq<Seq<u8>>, w: nat) -> Seq<Value> { chunks::<Value>(padded(v, 32, w), 32, cdiv(v.len() * w, 32)) }
pub open spec fn hmax(max: Option<u64>, w: nat) -> Option<u64> {
	match max { Some(m) => Some(cdiv(m as nat * w, 32) as u64), None => None }
}
/// Item `i` of the packed vector at `root` has the bytes `b`.
pub open spec fn item_at(s: Store, root: Value, len: nat, max: Option<u64>, w: nat, i: int, b: Seq<u8>) -> bool {
	hbytes(s, root, vdep(cdiv(len * w, 32), hmax(max, w)), 32, i * w, b)
}

pub open spec fn vals_u256(v: Seq<U256>) -> Seq<Value> { Seq::new(v.len(), |i: int| bv(le_bytes(v[i]@, 32))) }

pub open spec fn uval(x: U256) -> nat { x@ }

// ----------------------------------------------------------------- bits

pub open spec fn bit(b: u8, j: nat) -> bool { (b as int / pow2(j) as int) % 2 == 1 }
/// The number whose bits, least significant first, are these.
pub open spec fn bits_num(v: Seq<bool>) -> nat
	decreases v.len()
{ if v.len() == 0 { 0 } else { (if v[0] { 1nat } else { 0 }) + 2 * bits_num(v.drop_first()) } }
/// Eight bits a byte, least significant first.
pub open spec fn bits(v: Seq<bool>) -> Seq<u8> {
	Seq::new(cdiv(v.len(), 8), |k: int| bits_num(v.subrange(8 * k, min_of(8 * k + 8, v.len() as int))) as u8)
}
/// Byte `k` once the first `n` bits are in.
pub open spec fn bits_done(v: Seq<bool>, n: int, k: int) -> u8 {
	bits_num(v.subrange(8 * k, if n < 8 * k { 8 * k } else { min_of(8 * k + 8, n) })) as u8
}
pub proof fn lemma_bits_push(v: Seq<bool>, b: bool)
	ensures
		bits_num(v) < pow2(v.len()),
		bits_num(v.push(b)) == bits_num(v) + if b { pow2(v.len()) } else { 0 },
	decreases v.len(),
{
	if v.len() == 0 {
		lemma2_to64();
		assert(v.push(b).drop_first() =~= v);
		reveal_with_fuel(bits_num, 2);
	} else {
		lemma_bits_push(v.drop_first(), b);
		lemma_pow2_unfold(v.len());
		assert(v.push(b).drop_first() =~= v.drop_first().push(b));
		assert(v.push(b)[0] == v[0]);
	}
}
pub proof fn lemma_bits_step(v: Seq<bool>, i: int)
	requires 0 <= i < v.len(),
	ensures
		i / 8 < cdiv(v.len(), 8),
		({
			let (o, x) = (bits_done(v, i, i / 8) as int, pow2((i % 8) as nat) as int);
			&&& o < x <= 128
			&&& bits_done(v, i + 1, i / 8) == o + if v[i] { x } else { 0 }
		}),
		forall|k: int| 0 <= k < cdiv(v.len(), 8) && k != i / 8 ==> #[trigger] bits_done(v, i + 1, k) == bits_done(v, i, k),
{
	lemma_cdiv(v.len(), 8);
	lemma2_to64();
	let k = i / 8;
	let w = v.subrange(8 * k, i);
	assert(v.subrange(8 * k, i + 1) =~= w.push(v[i]));
	assert(w.len() == i % 8);
	lemma_bits_push(w, v[i]);
	let j = i % 8;
	assert(j == 0 || j == 1 || j == 2 || j == 3 || j == 4 || j == 5 || j == 6 || j == 7);
	assert forall|k: int| 0 <= k < cdiv(v.len(), 8) && k != i / 8 implies #[trigger] bits_done(v, i + 1, k) == bits_done(v, i, k) by {
		if k > i / 8 { assert(v.subrange(8 * k, 8 * k) =~= Seq::<bool>::empty()); }
	}
}
pub proof fn lemma_or_bit(o: u8, b: bool, j: u8)
	requires j < 8, o < pow2(j as nat),
	ensures (o | ((b as u8) << j)) == o + if b { pow2(j as nat) as int } else { 0 },
{
	lemma2_to64();
	assert(o < 1 && j == 0 || o < 2 && j == 1 || o < 4 && j == 2 || o < 8 && j == 3 || o < 16 && j == 4 || o < 32 && j == 5 || o < 64 && j == 6 || o < 128 && j == 7);
	assert(o < 1 ==> o | (1u8 << 0u8) == o + 1) by (bit_vector);
	assert(o < 2 ==> o | (1u8 << 1u8) == o + 2) by (bit_vector);
	assert(o < 4 ==> o | (1u8 << 2u8) == o + 4) by (bit_vector);
	assert(o < 8 ==> o | (1u8 << 3u8) == o + 8) by (bit_vector);
	assert(o < 16 ==> o | (1u8 << 4u8) == o + 16) by (bit_vector);
	assert(o < 32 ==> o | (1u8 << 5u8) == o + 32) by (bit_vector);
	assert(o < 64 ==> o | (1u8 << 6u8) == o + 64) by (bit_vector);
	assert(o < 128 ==> o | (1u8 << 7u8) == o + 128) by (bit_vector);
	assert(j < 8 ==> o | (0u8 << j) == o) by (bit_vector);
}
pub proof fn lemma_and_bit(b: u8, j: u8)
	requires j < 8,
	ensures
		(b & (1u8 << j) != 0) == bit(b, j as nat), (b & (1u8 << j) == 1u8 << j) == bit(b, j as nat),
		((1u8 << j) & b != 0) == bit(b, j as nat),
		((b >> j) & 1 == 1) == bit(b, j as nat), ((b >> j) & 1 != 0) == bit(b, j as nat), ((b >> j) % 2 == 1) == bit(b, j as nat),
{
	assert((b & (1u8 << j) == 1u8 << j) == (b & (1u8 << j) != 0)) by (bit_vector) requires j < 8;
	assert((1u8 << j) & b == b & (1u8 << j)) by (bit_vector);
	assert(((b >> j) & 1 == 1) == (b & (1u8 << j) != 0)) by (bit_vector) requires j < 8;
	assert(((b >> j) & 1 != 0) == (b & (1u8 << j) != 0)) by (bit_vector) requires j < 8;
	assert(((b >> j) % 2 == 1) == (b & (1u8 << j) != 0)) by (bit_vector) requires j < 8;
	lemma2_to64();
	assert(j == 0 || j == 1 || j == 2 || j == 3 || j == 4 || j == 5 || j == 6 || j == 7);
	assert((b & (1u8 << 0u8) != 0) == (b / 1 % 2 == 1)) by (bit_vector);
	assert((b & (1u8 << 1u8) != 0) == (b / 2 % 2 == 1)) by (bit_vector);
	assert((b & (1u8 << 2u8) != 0) == (b / 4 % 2 == 1)) by (bit_vector);
	assert((b & (1u8 << 3u8) != 0) == (b / 8 % 2 == 1)) by (bit_vector);
	assert((b & (1u8 << 4u8) != 0) == (b / 16 % 2 == 1)) by (bit_vector);
	assert((b & (1u8 << 5u8) != 0) == (b / 32 % 2 == 1)) by (bit_vector);
	assert((b & (1u8 << 6u8) != 0) == (b / 64 % 2 == 1)) by (bit_vector);
	assert((b & (1u8 << 7u8) != 0) == (b / 128 % 2 == 1)) by (bit_vector);
}
pub open spec fn bmax(max: Option<u64>) -> Option<u64> { match max { Some(m) => Some(cdiv(m as nat, 8) as u64), None => None } }
pub open spec fn byte_known(s: Store, root: Value, n: nat, max: Option<u64>, k: int) -> bool {
	hknown(s, root, vdep(cdiv(n * 1, 32), hmax(max, 1)), 32, k)
}
pub open spec fn byte_at(s: Store, root: Value, n: nat, max: Option<u64>, k: int) -> u8 {
	hbyte(s, root, vdep(cdiv(n * 1, 32), hmax(max, 1)), 32, k)
}

// ------------------------------------------------------------- chunking

/// The bytes of chunk `k` that the first `n` items fill.
pub open spec fn part(bs: Seq<Seq<u8>>, w: nat, n: nat, k: int) -> Seq<u8> {
	Seq::new(min_of(32, n * w - 32 * k) as nat, |j: int| bs[(32 * k + j) / (w as int)][(32 * k + j) % (w as int)])
}
/// Whole chunks, and what is left over.
pub proof fn lemma_parts(n: nat, w: nat, q: nat)
	requires w > 0, q > 0, q * w == 32,
	ensures ({
		let (a, b) = (n as int / q as int, n as int % q as int);
		&&& a >= 0 && 0 <= b < q && n * w == 32 * a + b * w && b * w + w <= 32 && b * w >= 0 && (b > 0 ==> b * w > 0)
		&&& cdiv(n * w, 32) == a + if b > 0 { 1int } else { 0 }
		&&& (n + 1) * w == n * w + w
	}),
{
	let (a, b) = (n as int / q as int, n as int % q as int);
	lemma_fundamental_div_mod(n as int, q as int);
	assert(n * w == 32 * a + b * w) by (nonlinear_arith) requires n == q * a + b, q * w == 32;
	assert(b * w + w <= 32) by (nonlinear_arith) requires b + 1 <= q, q * w == 32, w > 0;
	assert(b * w >= 0 && (b > 0 ==> b * w > 0)) by (nonlinear_arith) requires b >= 0, w > 0;
	assert((n + 1) * w == n * w + w) by (nonlinear_arith);
	assert((n * w) as int == a * 32 + b * w);
	lemma_fundamental_div_mod_converse((n * w) as int, 32, a, b * w);
	assert((n * w) as int / 32 == a && (n * w) as int % 32 == b * w);
	assert((b * w == 0) == (b == 0)) by (nonlinear_arith) requires b >= 0, w > 0;
	lemma_div_pos_is_pos(n as int, q as int);
	lemma_cdiv(n * w, 32);
}
/// One more item.
pub proof fn lemma_part_step(bs: Seq<Seq<u8>>, w: nat, q: nat, n: nat)
	requires w > 0, q > 0, q * w == 32, items(bs, w), n < bs.len(),
	ensures ({
		let c = cdiv(n * w, 32) as int;
		&&& forall|k: int| 0 <= k < c - 1 ==> #[trigger] part(bs, w, n + 1, k) == part(bs, w, n, k)
		&&& c > 0 && part(bs, w, n, c - 1).len() != 32 ==> cdiv((n + 1) * w, 32) == c && part(bs, w, n + 1, c - 1) == part(bs, w, n, c - 1) + bs[n as int]
		&&& c == 0 || part(bs, w, n, c - 1).len() == 32 ==> cdiv((n + 1) * w, 32) == c + 1 && part(bs, w, n + 1, c) == bs[n as int]
			&& (c > 0 ==> part(bs, w, n + 1, c - 1) == part(bs, w, n, c - 1))
	}),
{
	let c = cdiv(n * w, 32) as int;
	let (a, b) = (n as int / q as int, n as int % q as int);
	lemma_parts(n, w, q);
	lemma_parts(n + 1, w, q);
	assert forall|k: int| 0 <= k < c - 1 implies #[trigger] part(bs, w, n + 1, k) == part(bs, w, n, k) by {
		assert(part(bs, w, n + 1, k) =~= part(bs, w, n, k));
	}
	assert forall|p: int| n * w <= p < n * w + w implies #[trigger] (p / (w as int)) == n && p % (w as int) == p - n * w by {
		lemma_fundamental_div_mod_converse(p, w as int, n as int, p - n * w);
	}
	lemma_cdiv(n * w, 32);
	if c > 0 && part(bs, w, n, c - 1).len() != 32 {
		assert(b > 0);
		lemma_fundamental_div_mod_converse(((n + 1) * w) as int, 32, if b * w + w == 32 { a + 1 } else { a }, if b * w + w == 32 { 0 } else { b * w + w });
		lemma_cdiv((n + 1) * w, 32);
		let (x, y) = (part(bs, w, n + 1, c - 1), part(bs, w, n, c - 1) + bs[n as int]);
		assert(x.len() == y.len());
		assert forall|j: int| 0 <= j < x.len() implies x[j] == y[j] by {
			let p = 32 * (c - 1) + j;
			if j >= b * w { assert(p / (w as int) == n); }
		}
		assert(x =~= y);
	} else {
		assert(b == 0);
		lemma_fundamental_div_mod_converse(((n + 1) * w) as int, 32, if w == 32 { a + 1 } else { a }, if w == 32 { 0int } else { w as int });
		lemma_cdiv((n + 1) * w, 32);
		let x = part(bs, w, n + 1, c);
		assert(x.len() == w);
		assert forall|j: int| 0 <= j < w implies x[j] == bs[n as int][j] by {
			let p = 32 * c + j;
			assert(p / (w as int) == n);
		}
		assert(x =~= bs[n as int]);
		if c > 0 { assert(part(bs, w, n + 1, c - 1) =~= part(bs, w, n, c - 1)); }
	}
}
/// Padded chunks are the chunks of the padded items.
pub proof fn lemma_part_full(bs: Seq<Seq<u8>>, w: nat, k: int)
	requires w > 0, 0 <= k < cdiv(bs.len() * w, 32),
	ensures ({
		let x = part(bs, w, bs.len(), k);
		&&& x.len() <= 32 && (k < cdiv(bs.len() * w, 32) - 1 ==> x.len() == 32)
		&&& chunk(padded(bs, 32, w), 32, k) == x + zeros((32 - x.len()) as nat)
	}),
{
	let n = bs.len();
	lemma_padded_len(bs, 32, w);
	lemma_cdiv(n * w, 32);
	let x = part(bs, w, n, k);
	lemma_chunk_bounds(cdiv(n * w, 32), 32, k);
	let f = chunk(padded(bs, 32, w), 32, k);
	assert(f =~= x + zeros((32 - x.len()) as nat));
}
/// Few enough hosts.
pub proof fn lemma_hosts_le(n: nat, w: nat)
	requires 0 < w <= 32,
	ensures cdiv(n * w, 32) <= n,
{
	lemma_cdiv(n * w, 32);
	let c = cdiv(n * w, 32) as int;
	if c > n {
		assert((c - 1) * 32 >= n * 32) by (nonlinear_arith) requires c - 1 >= n;
		assert(n * w <= n * 32) by (nonlinear_arith) requires w <= 32;
	}
}
pub proof fn lemma_missing_item<X>(s: vstd::map::Map<X, (X, X)>, root: X, d: nat, h: nat, p: int, b: Seq<u8>)
	requires hmissing(s, root, d, h, p, b.len()),
	ensures !hbytes(s, root, d, h, p, b),
{
	let j = choose|j: int| 0 <= j < b.len() && !#[trigger] hknown(s, root, d, h, p + j);
	if hbytes(s, root, d, h, p, b) { assert(b[j] == hbyte(s, root, d, h, p + j)); }
}

/// What a decoding closure may have answered for the end value `v`.
pub open spec fn decoded<T, DB: ReadBackend, F: Fn(&Value, &mut DB) -> Result<T, Error<DB::Error>>>(f: F, db: &DB, v: Value, y: Result<T, Error<DB::Error>>) -> bool {
	exists|d: &mut DB| (*d).wf() && (*d).dbv() == db.dbv() && #[trigger] call_ensures(f, (&v, d), y)
}

} // verus!
