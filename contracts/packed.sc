//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::vec_model::*;
use crate::len_model::*;
use crate::raw_thm::*;
use crate::util_model::*;
use crate::pack_model::*;
use crate::stubs::*;
use crate::traits::EmptyConstruct;
broadcast use {group_value, crate::model::group_shift, crate::traits::wf_has_view, axiom_array_len, axiom_as_ref, axiom_from_digest_obeys, axiom_from_digest, axiom_into_array_obeys, crate::len_model::tree_survives};
//@ item use generic_array::{GenericArray, ArrayLength};
//@ drop
//@ fn coverings
//@ ret r
//@ spec
	requires
		Host::n() > 0, Value::n() > 0, Host::n() * Value::n() <= usize::MAX,
		cdiv((value_index + 1) as nat * Value::n(), Host::n()) <= usize::MAX,
	ensures
		covers(r.0 as int, r.1@, value_index as nat * Value::n(), Value::n(), Host::n()),
		r.0 + r.1.len() == cdiv((value_index + 1) as nat * Value::n(), Host::n()),
//@ start
	let ghost s = value_index as nat * Value::n();
	proof {
		lemma_cover_arith(value_index as nat, Value::n(), Host::n());
		lemma_base(s, Value::n(), Host::n());
		lemma_cover_in(value_index as nat, (value_index + 1) as nat, Value::n(), Host::n());
		lemma_cov_step(s, Value::n(), Host::n(), 0);
	}
//@ loop 0 spec
	invariant
		Host::n() > 0, Value::n() > 0, host_len == Host::n(), value_len == Value::n(), s == value_index as nat * Value::n(),
		host_index == s / Host::n(), (host_index + 1) * host_len == host_index * host_len + host_len,
		1 <= ranges@.len() <= cov_n(s, Value::n(), Host::n()),
		covered == done(s, Value::n(), Host::n(), ranges@.len() as int),
		forall|k: int| 0 <= k < ranges@.len() ==> (#[trigger] ranges@[k]).start == cov_lo(s, Host::n(), k) - (s / Host::n() + k) * Host::n() && ranges@[k].end == cov_hi(s, Value::n(), Host::n(), k) - (s / Host::n() + k) * Host::n(),
	decreases value_len - covered,
//@ loop 0 start
	proof {
		if ranges@.len() == cov_n(s, Value::n(), Host::n()) { assert(covered == Value::n()); }
		lemma_cov_step(s, Value::n(), Host::n(), ranges@.len() as int);
		lemma_done(s, Value::n(), Host::n(), ranges@.len() as int);
	}
//@ loop 0 after
	proof {
		if ranges@.len() < cov_n(s, Value::n(), Host::n()) { lemma_done(s, Value::n(), Host::n(), ranges@.len() as int); }
	}
//@ item struct PackedVector
//@ attr
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(H)]
#[verifier::reject_recursive_types(V)]
//@ after
/// Lengths whose host lengths are machine numbers.
pub open spec fn addressable<H: ArrayLength<u8>, V: ArrayLength<u8>>(len: usize, max_len: Option<u64>) -> bool {
	&&& H::n() > 0 && 0 < V::n() < 0x8000_0000_0000_0000 && H::n() * V::n() <= u64::MAX
	&&& cdiv(len as nat * V::n(), H::n()) <= u64::MAX
	&&& max_len matches Some(m) ==> cdiv(m as nat * V::n(), H::n()) <= u64::MAX
}
/// Nothing more can be pushed: the maximum, or all that an index can address.
pub open spec fn pfull<H: ArrayLength<u8>, V: ArrayLength<u8>>(len: nat, max_len: Option<u64>) -> bool {
	match max_len { Some(m) => len == m, None => len == usize::MAX || cdiv((len + 1) * V::n(), H::n()) > pow2(63) }
}
pub open spec fn hosts_max<H: ArrayLength<u8>, V: ArrayLength<u8>>(max_len: Option<u64>) -> Option<u64> {
	match max_len { Some(m) => Some(cdiv(m as nat * V::n(), H::n()) as u64), None => None }
}
impl<R: RootStatus, C: EmptyConstruct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedVector<R, C, T, H, V> {
	pub open spec fn rt(&self) -> C::Value { self.tuple.raw.root }
	/// The host vector has just the hosts the items need.
	pub open spec fn pshape(&self) -> bool {
		&&& addressable::<H, V>(self.len, self.max_len)
		&&& self.tuple.shape()
		&&& self.tuple.len == cdiv(self.len as nat * V::n(), H::n())
		&&& self.tuple.max_len == hosts_max::<H, V>(self.max_len)
		&&& self.max_len matches Some(m) ==> self.len <= m
	}
	/// The hosts hold these bytes.
	pub open spec fn holds_flat(&self, db: DbView<C>, flat: Seq<u8>) -> bool {
		&&& flat.len() == self.tuple.len * H::n()
		&&& self.tuple.holds_elems(db, chunks::<C::Value>(flat, H::n(), self.tuple.len as nat))
	}
	/// The items, one after the other, padded with zeros.
	pub open spec fn holds_items(&self, db: DbView<C>, v: Seq<Seq<u8>>) -> bool {
		&&& v.len() == self.len && items(v, V::n())
		&&& self.holds_flat(db, padded(v, H::n(), V::n()))
	}
}
pub proof fn lemma_holds_items<R: RootStatus, C: EmptyConstruct, T, H: ArrayLength<u8>, V: ArrayLength<u8>>(t: PackedVector<R, C, T, H, V>, db: DbView<C>, v: Seq<Seq<u8>>)
	requires t.pshape(), t.holds_items(db, v),
	ensures t.holds_flat(db, padded(v, H::n(), V::n())),
{}
//@ fn PackedVector::get
//@ ret r
//@ spec
	requires old(db).wf(), self.pshape(), lawful_host::<C::Value, H>(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: C::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Err(Error::AccessOverflowed) <==> index >= self.len,
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !old(db).dbv().reads_ok,
		forall|flat: Seq<u8>| #[trigger] self.holds_flat(old(db).dbv(), flat) ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(x) ==> {
			&&& forall|flat: Seq<u8>| #[trigger] self.holds_flat(old(db).dbv(), flat) ==> x == value_of::<T>(flat.subrange(index * V::n(), index * V::n() + V::n()))
			&&& forall|v: Seq<Seq<u8>>| #[trigger] self.holds_items(old(db).dbv(), v) ==> x == value_of::<T>(v[index as int])
			&&& exists|b: Seq<u8>| x == #[trigger] value_of::<T>(b) && b.len() == V::n() && hbytes(old(db).dbv().store, self.tuple.raw.root, self.tuple.vd(), H::n(), index * V::n(), b)
		},
		r matches Err(Error::CorruptedDatabase) ==> hmissing(old(db).dbv().store, self.tuple.raw.root, self.tuple.vd(), H::n(), index * V::n(), V::n()),
//@ subst
in covering_ranges.into_iter().enumerate()
=====>
in it: numbered(covering_ranges)
//@ start
	let ghost (h, w) = (H::n(), V::n());
	let ghost s = index as nat * w;
	proof {
		lemma_shape(self.tuple.len as nat, self.tuple.max_len); lemma2_to64(); lemma2_to64_rest();
		if index < self.len {
			lemma_cover_in(index as nat, self.len as nat, w, h);
			lemma_cdiv(self.len as nat * w, h);
			lemma_base(s, w, h);
			lemma_done(s, w, h, 0);
		}
	}
//@ after-stmt let (covering_base
	let ghost rs = covering_ranges@;
//@ loop 0 spec
	invariant
		it.seq().len() == rs.len(), forall|k: int| 0 <= k < rs.len() ==> #[trigger] it.seq()[k] == (k as usize, rs[k]),
		covers(covering_base as int, rs, s, w, h), covering_base + rs.len() <= self.tuple.len,
		w == V::n(), h == H::n(), w > 0, h > 0, lawful_host::<C::Value, H>(),
		s == index as nat * w, s + w <= self.tuple.len * h,
		value_offset == done(s, w, h, it.index@ as int),
		forall|k: C::Value| #[trigger] db.loose(k) == old(db).loose(k), h * w <= usize::MAX,
		db.wf(), db.dbv() == old(db).dbv(), self.pshape(), index < self.len,
		ret@.len() == w,
		forall|flat: Seq<u8>| #[trigger] self.holds_flat(old(db).dbv(), flat) ==> ret@.take(value_offset as int) == flat.subrange(s as int, s + value_offset),
		hbytes(old(db).dbv().store, self.tuple.raw.root, self.tuple.vd(), h, s as int, ret@.take(value_offset as int)),
//@ loop 0 start
	let ghost r0 = ret@;
	proof {
		let k = it.index@ as int;
		if walk(old(db).dbv().store, self.tuple.raw.root, bits_be((s / h + k) as nat, self.tuple.vd())) is None {
			lemma_hosts_missing(old(db).dbv().store, self.tuple.raw.root, self.tuple.vd(), s, w, h, k);
		}
		assert(it.seq()[k] == (i, range));
		lemma_done(s, w, h, k);
		lemma_cover_arith(0, w, h);
		lemma_cov_step(s, w, h, k);
		lemma_bounds_here(covering_base as int + k, self.tuple.len as nat, h);
	}
//@ loop 0 end
	proof {
		let k = it.index@ as int;
		lemma_hosts_step::<C::Value, H>(old(db).dbv().store, self.tuple.raw.root, self.tuple.vd(), s, w, h, k, host_value, r0, ret@);
		assert forall|flat: Seq<u8>| #[trigger] self.holds_flat(old(db).dbv(), flat) implies ret@.take(value_offset as int) == flat.subrange(s as int, s + value_offset) by {
			lemma_get_step::<C::Value, H>(flat, self.tuple.len as nat, s, w, h, k, host_value, r0, ret@);
		}
	}
//@ loop 0 after
	proof {
		assert(ret@.take(w as int) =~= ret@);
		assert forall|v: Seq<Seq<u8>>| #[trigger] self.holds_items(old(db).dbv(), v) implies ret@ == v[index as int] by {
			assert(self.holds_flat(old(db).dbv(), padded(v, h, w)));
			lemma_padded_get(v, h, w, index as int);
		}
	}
//@ fn PackedVector::set
//@ ret r
//@ spec
	requires
		old(db).wf(), old(self).pshape(), lawful_host::<C::Value, H>(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> index >= old(self).len,
		r matches Err(Error::AccessOverflowed) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r is Ok ==> {
			&&& final(self).len == old(self).len && final(self).max_len == old(self).max_len
			&&& final(self).pshape() && final(self).tuple.len == old(self).tuple.len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) && old(db).dbv().retains
				==> final(self).holds_flat(final(db).dbv(), over(flat, index * V::n(), item_bytes::<T, V>(value)))
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
				==> final(self).holds_items(final(db).dbv(), v.update(index as int, item_bytes::<T, V>(value)))
		},
		r is Ok && !R::dangling() ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ subst
in covering_ranges.into_iter().enumerate()
=====>
in it: numbered(covering_ranges)
//@ start
	let ghost (h, w) = (H::n(), V::n());
	let ghost s = index as nat * w;
	proof {
		lemma_shape(self.tuple.len as nat, self.tuple.max_len); lemma2_to64(); lemma2_to64_rest();
		if index < self.len {
			lemma_cover_in(index as nat, self.len as nat, w, h);
			lemma_cdiv(self.len as nat * w, h);
			lemma_base(s, w, h);
			lemma_done(s, w, h, 0);
		}
	}
	proof {
		axiom_as_mut::<C::Value>();
		lemma_moved_refl::<C>(R::dangling(), db.dbv(), self.tuple.raw.root);
	}
//@ after-stmt let (covering_base
	let ghost rs = covering_ranges@;
	proof {
		assert forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) implies self.holds_flat(db.dbv(), over(flat, s as int, value@.subrange(0, 0))) by {
			lemma_over_none(flat, s as int, value@);
		}
	}
//@ loop 0 spec
	invariant
		it.seq().len() == rs.len(), forall|k: int| 0 <= k < rs.len() ==> #[trigger] it.seq()[k] == (k as usize, rs[k]),
		covers(covering_base as int, rs, s, w, h), covering_base + rs.len() <= self.tuple.len,
		w == V::n(), h == H::n(), w > 0, h > 0, lawful_host::<C::Value, H>(),
		s == index as nat * w, s + w <= self.tuple.len * h,
		value_offset == done(s, w, h, it.index@ as int),
		old(db).wf(), db.wf(), db.dbv().same_flags(old(db).dbv()), old(self).pshape(), self.pshape(), index < self.len, value@.len() == w,
		self.len == old(self).len, self.max_len == old(self).max_len, self.tuple.len == old(self).tuple.len, self.tuple.max_len == old(self).tuple.max_len,
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
		moved(R::dangling(), old(db).dbv(), old(self).rt(), db.dbv(), self.rt()),
		!R::dangling() ==> forall|k: C::Value| #[trigger] db.loose(k) ==> old(db).loose(k),
		forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) && old(db).dbv().retains
			==> self.holds_flat(db.dbv(), over(flat, s as int, value@.subrange(0, value_offset as int))),
//@ loop 0 start
	let ghost t0 = *self;
	let ghost d0 = db.dbv();
	proof {
		axiom_as_mut::<C::Value>();
		let k = it.index@ as int;
		assert(it.seq()[k] == (i, range));
		lemma_done(s, w, h, k);
		lemma_cover_arith(0, w, h);
		lemma_cov_step(s, w, h, k);
		lemma_bounds_here(covering_base as int + k, self.tuple.len as nat, h);
		assert forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) && old(db).dbv().retains
			implies t0.tuple.holds_elems(d0, chunks::<C::Value>(over(flat, s as int, value@.subrange(0, value_offset as int)), h, self.tuple.len as nat)) by {
			assert(self.holds_flat(db.dbv(), over(flat, s as int, value@.subrange(0, value_offset as int))));
		}
	}
//@ after-stmt let mut host_value
	let ghost x0 = host_value;
//@ before-stmt self.tuple.set
	let ghost y0 = host_value;
//@ loop 0 end
	proof {
		let k = it.index@ as int;
		lemma_moved_trans::<C>(R::dangling(), old(db).dbv(), old(self).rt(), d0, t0.rt(), db.dbv(), self.rt());
		assert forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) && old(db).dbv().retains
			implies self.holds_flat(db.dbv(), over(flat, s as int, value@.subrange(0, value_offset as int))) by {
			lemma_set_step::<C::Value, H>(flat, self.tuple.len as nat, s, w, h, k, value@, x0, y0);
		}
	}
//@ loop 0 after
	proof {
		assert(value@.subrange(0, w as int) =~= value@);
		assert forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
			implies self.holds_items(db.dbv(), v.update(index as int, value@)) by {
			assert(old(self).holds_flat(old(db).dbv(), padded(v, h, w)));
			lemma_padded_set(v, h, w, index as int, value@);
			lemma_padded_len(v, h, w);
		}
	}
//@ fn PackedVector::push
//@ ret r
//@ spec
	requires
		old(db).wf(), old(self).pshape(), lawful_host::<C::Value, H>(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> pfull::<H, V>(old(self).len as nat, old(self).max_len),
		r matches Err(Error::AccessOverflowed) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r is Ok ==> {
			&&& final(self).pshape()
			&&& final(self).len == old(self).len + 1 && final(self).max_len == old(self).max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
				==> final(self).holds_items(final(db).dbv(), v.push(item_bytes::<T, V>(value)))
		},
		r is Ok && !R::dangling() ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ closure 0 ~>=
param 0 u64
-> (b: bool) ensures b == (index as u64 >= max_len)
//@ start
	let ghost (h, w) = (H::n(), V::n());
	let ghost n0 = self.tuple.len as nat;
	let ghost n1 = cdiv((self.len + 1) as nat * w, h);
	proof {
		lemma_cdiv_next(self.len as nat, w, h);
		lemma_shape(self.tuple.len as nat, self.tuple.max_len); lemma2_to64(); lemma2_to64_rest();
		lemma_moved_refl::<C>(R::dangling(), db.dbv(), self.tuple.raw.root);
		lemma_cover_in(self.len as nat, (self.len + 1) as nat, w, h);
		lemma_cdiv_mono(self.len as nat * w, (self.len + 1) as nat * w, h);
		if let Some(m) = self.max_len { if self.len < m { assert((self.len + 1) as nat * w <= m as nat * w) by (nonlinear_arith) requires self.len + 1 <= m; lemma_cdiv_mono((self.len + 1) as nat * w, m as nat * w, h); lemma_cover_in(self.len as nat, m as nat, w, h); } }
	}
//@ loop 0 spec
	invariant
		w == V::n(), h == H::n(), w > 0, h > 0, lawful_host::<C::Value, H>(),
		old(db).wf(), db.wf(), db.dbv().same_flags(old(db).dbv()), old(self).pshape(),
		addressable::<H, V>(old(self).len, old(self).max_len),
		!pfull::<H, V>(old(self).len as nat, old(self).max_len),
		n0 == old(self).tuple.len, n0 <= self.tuple.len <= n1, n1 <= pow2(63), n1 <= usize::MAX, n0 <= n1, covering_base + covering_ranges@.len() == n1,
		self.tuple.max_len matches Some(m) ==> n1 <= m,
		self.tuple.shape(), self.len == old(self).len, self.max_len == old(self).max_len, self.tuple.max_len == old(self).tuple.max_len,
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
		moved(R::dangling(), old(db).dbv(), old(self).rt(), db.dbv(), self.rt()),
		!R::dangling() ==> forall|k: C::Value| #[trigger] db.loose(k) ==> old(db).loose(k),
		forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) && old(db).dbv().retains
			==> self.holds_flat(db.dbv(), flat + zeros(((self.tuple.len - n0) * h) as nat)),
	decreases n1 - self.tuple.len,
//@ loop 0 before
	proof {
		assert forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat)
			implies self.holds_flat(db.dbv(), flat + zeros(((self.tuple.len - n0) * h) as nat)) by {
			assert(((self.tuple.len - n0) * h) == 0) by (nonlinear_arith) requires self.tuple.len == n0;
			assert(flat + zeros(0) =~= flat);
		}
	}
//@ loop 0 start
	let ghost t0 = *self;
	let ghost d0 = db.dbv();
	proof {
		assert forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) && old(db).dbv().retains
			implies t0.tuple.holds_elems(d0, chunks::<C::Value>(flat + zeros(((t0.tuple.len - n0) * h) as nat), h, t0.tuple.len as nat)) by {
			assert(self.holds_flat(db.dbv(), flat + zeros(((self.tuple.len - n0) * h) as nat)));
		}
	}
//@ loop 0 end
	proof {
		lemma_moved_trans::<C>(R::dangling(), old(db).dbv(), old(self).rt(), d0, t0.rt(), db.dbv(), self.rt());
		assert forall|flat: Seq<u8>| #[trigger] old(self).holds_flat(old(db).dbv(), flat) && old(db).dbv().retains
			implies self.holds_flat(db.dbv(), flat + zeros(((self.tuple.len - n0) * h) as nat)) by {
			let m = (t0.tuple.len - n0) as nat;
			assert(n0 * h + m * h == t0.tuple.len * h) by (nonlinear_arith) requires m == t0.tuple.len - n0;
			lemma_flat_push::<C::Value, H>(flat, h, t0.tuple.len as nat, m);
		}
	}
//@ loop 0 after
	let ghost t1 = *self;
	let ghost d1 = db.dbv();
	proof { assert(self.tuple.len == n1); }
//@ after-stmt self.len += 1
	let ghost t2 = *self;
	proof {
		assert(self.pshape());
		assert forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
			implies t2.holds_flat(d1, padded(v, h, w) + zeros(((n1 - n0) * h) as nat)) by {
			assert(old(self).holds_flat(old(db).dbv(), padded(v, h, w)));
			assert(t1.holds_flat(d1, padded(v, h, w) + zeros(((n1 - n0) * h) as nat)));
		}
	}
//@ after-stmt self.set
	proof {
		lemma_moved_trans::<C>(R::dangling(), old(db).dbv(), old(self).rt(), d1, t2.rt(), db.dbv(), self.rt());
		assert forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
			implies self.holds_items(db.dbv(), v.push(item_bytes::<T, V>(value))) by {
			assert(t2.holds_flat(d1, padded(v, h, w) + zeros(((n1 - n0) * h) as nat)));
			lemma_padded_push(v, h, w, item_bytes::<T, V>(value));
			lemma_padded_len(v.push(item_bytes::<T, V>(value)), h, w);
		}
	}
//@ fn PackedVector::pop
//@ ret r
//@ attr
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ spec
	requires
		old(db).wf(), old(self).pshape(), lawful_host::<C::Value, H>(), lawful_item::<T, V>(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(None) <==> old(self).len == 0,
		r matches Ok(None) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(Some(x)) ==> {
			&&& final(self).pshape()
			&&& final(self).len == old(self).len - 1 && final(self).max_len == old(self).max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
				==> x == value_of::<T>(v.last()) && final(self).holds_items(final(db).dbv(), v.drop_last())
		},
		r is Ok && !R::dangling() ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ start
	hide(hbytes); hide(hmissing);
	let ghost (h, w) = (H::n(), V::n());
	let ghost n1 = cdiv((self.len - 1) as nat * w, h);
	let ghost n0 = self.tuple.len as nat;
	proof {
		lemma_shape(self.tuple.len as nat, self.tuple.max_len); lemma2_to64(); lemma2_to64_rest();
		lemma_moved_refl::<C>(R::dangling(), db.dbv(), self.tuple.raw.root);
		lemma_padded_none(h, w);
		if self.len > 0 {
			assert((self.len - 1) * w + w == self.len * w) by (nonlinear_arith);
			lemma_cdiv_mono((self.len - 1) as nat * w, self.len as nat * w, h);
			assert forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) implies old(self).holds_flat(old(db).dbv(), padded(v, h, w)) by {}
		}
		if self.len > 1 { lemma_cover_in((self.len - 2) as nat, self.len as nat, w, h); }
	}
//@ loop 0 before
	let ghost ta = *self;
	let ghost da = db.dbv();
	proof {
		lemma_moved_refl::<C>(R::dangling(), db.dbv(), self.tuple.raw.root);
		assert forall|flat: Seq<u8>| #[trigger] self.holds_flat(db.dbv(), flat)
			implies self.holds_flat(da, flat.take((self.tuple.len * h) as int)) by { assert(flat.take((self.tuple.len * h) as int) =~= flat); }
	}
//@ loop 0 spec
	invariant
		w == V::n(), h == H::n(), w > 0, h > 0,
		da.wf(), db.wf(), db.dbv().same_flags(da),
		self.tuple.shape(), self.len == old(self).len, self.max_len == old(self).max_len, self.tuple.max_len == old(self).tuple.max_len,
		0 <= self.tuple.len <= n0, ta.tuple.len == n0, old(self).len > 0, 
		!R::dangling() ==> da.holds(ta.rt()),
		moved(R::dangling(), da, ta.rt(), db.dbv(), self.rt()),
		!R::dangling() ==> forall|k: C::Value| #[trigger] db.loose(k) ==> old(db).loose(k),
		forall|flat: Seq<u8>| #[trigger] ta.holds_flat(da, flat) && da.retains
			==> self.holds_flat(db.dbv(), flat.take((self.tuple.len * h) as int)),
		forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && da.retains ==> ta.holds_flat(da, padded(v, h, w)),
		da.same_flags(old(db).dbv()),
	decreases self.tuple.len,
//@ loop 0 start
	let ghost t0 = *self;
	let ghost d0 = db.dbv();
	proof {
		assert forall|flat: Seq<u8>| #[trigger] ta.holds_flat(da, flat) && da.retains
			implies t0.tuple.holds_elems(d0, chunks::<C::Value>(flat.take((t0.tuple.len * h) as int), h, t0.tuple.len as nat)) by {
			assert(self.holds_flat(db.dbv(), flat.take((self.tuple.len * h) as int)));
		}
	}
//@ loop 0 end
	proof {
		lemma_moved_trans::<C>(R::dangling(), da, ta.rt(), d0, t0.rt(), db.dbv(), self.rt());
		assert forall|flat: Seq<u8>| #[trigger] ta.holds_flat(da, flat) && da.retains
			implies self.holds_flat(db.dbv(), flat.take((self.tuple.len * h) as int)) by {
			assert(t0.tuple.len * h <= n0 * h) by (nonlinear_arith) requires t0.tuple.len <= n0;
			lemma_flat_pop::<C::Value>(flat, h, t0.tuple.len as nat);
		}
	}
//@ loop 1 before
	let ghost tb = *self;
	let ghost db1 = db.dbv();
	proof {
		lemma_moved_refl::<C>(R::dangling(), db.dbv(), self.tuple.raw.root);
		assert forall|flat: Seq<u8>| #[trigger] self.holds_flat(db.dbv(), flat)
			implies self.holds_flat(db1, flat.take((self.tuple.len * h) as int)) by { assert(flat.take((self.tuple.len * h) as int) =~= flat); }
	}
//@ loop 1 spec
	invariant
		w == V::n(), h == H::n(), w > 0, h > 0,
		db1.wf(), db.wf(), db.dbv().same_flags(db1),
		self.tuple.shape(), self.len == old(self).len, self.max_len == old(self).max_len, self.tuple.max_len == old(self).tuple.max_len,
		n1 <= self.tuple.len <= n0, tb.tuple.len == n0, old(self).len > 0, covering_base + covering_ranges@.len() == n1,
		!R::dangling() ==> db1.holds(tb.rt()),
		moved(R::dangling(), db1, tb.rt(), db.dbv(), self.rt()),
		!R::dangling() ==> forall|k: C::Value| #[trigger] db.loose(k) ==> old(db).loose(k),
		forall|flat: Seq<u8>| #[trigger] tb.holds_flat(db1, flat) && db1.retains
			==> self.holds_flat(db.dbv(), flat.take((self.tuple.len * h) as int)),
		forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && db1.retains ==> tb.holds_flat(db1, over(padded(v, h, w), (old(self).len - 1) * w, zeros(w))),
		db1.same_flags(old(db).dbv()),
	decreases self.tuple.len,
//@ loop 1 start
	let ghost t0 = *self;
	let ghost d0 = db.dbv();
	proof {
		assert forall|flat: Seq<u8>| #[trigger] tb.holds_flat(db1, flat) && db1.retains
			implies t0.tuple.holds_elems(d0, chunks::<C::Value>(flat.take((t0.tuple.len * h) as int), h, t0.tuple.len as nat)) by {
			assert(self.holds_flat(db.dbv(), flat.take((self.tuple.len * h) as int)));
		}
	}
//@ loop 1 end
	proof {
		lemma_moved_trans::<C>(R::dangling(), db1, tb.rt(), d0, t0.rt(), db.dbv(), self.rt());
		assert forall|flat: Seq<u8>| #[trigger] tb.holds_flat(db1, flat) && db1.retains
			implies self.holds_flat(db.dbv(), flat.take((self.tuple.len * h) as int)) by {
			assert(t0.tuple.len * h <= n0 * h) by (nonlinear_arith) requires t0.tuple.len <= n0;
			lemma_flat_pop::<C::Value>(flat, h, t0.tuple.len as nat);
		}
	}
//@ loop 0 after
	proof {
		let m = (old(self).len - 1) as nat; assert(m * w == 0) by (nonlinear_arith) requires m == 0; assert(n1 == 0);
		assert(self.tuple.len * h == 0) by (nonlinear_arith) requires self.tuple.len == 0;
		assert forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
			implies self.holds_flat(db.dbv(), padded(v.drop_last(), h, w)) by {
			lemma_padded_pop(v, h, w);
			lemma_padded_len(v, h, w);
			assert(ta.holds_flat(da, padded(v, h, w)));
			assert(self.holds_flat(db.dbv(), (padded(v, h, w)).take((self.tuple.len * h) as int)));
			assert((padded(v, h, w)).take((self.tuple.len * h) as int) =~= padded(v.drop_last(), h, w));
		}
	}
//@ loop 1 after
	proof {
		lemma_moved_trans::<C>(R::dangling(), old(db).dbv(), old(self).rt(), db1, tb.rt(), db.dbv(), self.rt());
		assert forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
			implies self.holds_flat(db.dbv(), padded(v.drop_last(), h, w)) by {
			lemma_padded_pop(v, h, w);
			lemma_padded_len(v, h, w);
			assert(tb.holds_flat(db1, over(padded(v, h, w), (old(self).len - 1) * w, zeros(w))));
			assert(self.holds_flat(db.dbv(), (over(padded(v, h, w), (old(self).len - 1) * w, zeros(w))).take((self.tuple.len * h) as int)));
			assert((over(padded(v, h, w), (old(self).len - 1) * w, zeros(w))).take((self.tuple.len * h) as int) =~= padded(v.drop_last(), h, w));
		}
	}
//@ before-stmt self.len -= 1
	let ghost te = *self;
	let ghost de = db.dbv();
	proof {
		assert(self.tuple.len == n1);
		assert(moved(R::dangling(), old(db).dbv(), old(self).rt(), de, te.rt()));
	}
//@ tail
	proof {
		assert(self.pshape());
		assert forall|v: Seq<Seq<u8>>| #[trigger] old(self).holds_items(old(db).dbv(), v) && old(db).dbv().retains
			implies ret == value_of::<T>(v.last()) && self.holds_items(db.dbv(), v.drop_last()) by {
			assert(te.holds_flat(de, padded(v.drop_last(), h, w)));
			lemma_padded_pop(v, h, w);
			lemma_padded_len(v.drop_last(), h, w);
		}
	}
//@ fn PackedVector::from_raw
//@ ret r
//@ spec
	requires addressable::<H, V>(len, max_len),
	ensures r.tuple.raw == raw, r.len == len, r.max_len == max_len, r.tuple.len == cdiv(len as nat * V::n(), H::n()), r.tuple.max_len == hosts_max::<H, V>(max_len),
//@ closure 0 ~host_max_len
param 0 u64
-> (b: u64) requires addressable::<H, V>(0, Some(l)) ensures b == cdiv(l as nat * V::n(), H::n())
//@ start
	proof { lemma_padded_none(H::n(), V::n()); }
//@ impl Tree for PackedVector
//@ ghost
	open spec fn root_s(&self) -> C::Value { self.rt() }
//@ impl Sequence for PackedVector
//@ ghost
	open spec fn len_s(&self) -> nat { self.len as nat }
//@ impl Leak for PackedVector
//@ ghost
	open spec fn meta(&self) -> (C::Value, usize, Option<u64>) { (self.rt(), self.len, self.max_len) }
	open spec fn leak_ok(m: (C::Value, usize, Option<u64>)) -> bool { addressable::<H, V>(m.1, m.2) }
	open spec fn leaked_form(&self) -> bool { self.tuple.len == cdiv(self.len as nat * V::n(), H::n()) && self.tuple.max_len == hosts_max::<H, V>(self.max_len) }
//@ fn Leak for PackedVector::from_leaked
//@ ret r
//@ closure 0 ~host_max_len
param 0 u64
-> (b: u64) requires addressable::<H, V>(0, Some(l)) ensures b == cdiv(l as nat * V::n(), H::n())
//@ start
	proof { lemma_padded_none(H::n(), V::n()); }
//@ fn PackedVector::create
//@ ret r
//@ spec
	requires
		old(db).wf(), addressable::<H, V>(value_len, value_max_len),
		value_max_len matches Some(m) ==> cdiv(m as nat * V::n(), H::n()) <= pow2(63),
		value_max_len is None ==> cdiv(value_len as nat * V::n(), H::n()) <= pow2(63),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::InvalidParameter) <==> (value_max_len matches Some(m) && (value_len > m || m == 0)),
		r matches Err(Error::InvalidParameter) ==> final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is InvalidParameter || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(t) ==> {
			&&& t.pshape() && t.len == value_len && t.max_len == value_max_len
			&&& moved(false, old(db).dbv(), dflt(), final(db).dbv(), t.rt())
			&&& lawful_host::<C::Value, H>() && (value_len == 0 || C::inherited()) && old(db).dbv().retains ==> t.holds_items(final(db).dbv(), Seq::new(value_len as nat, |i: int| zeros(V::n())))
			&&& value_len == 0 && old(db).dbv().retains ==> t.holds_items(final(db).dbv(), Seq::empty())
		},
		r is Ok ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ closure 0 ~as u64 >
param 0 u64
-> (b: bool) ensures b == (value_len as u64 > l)
//@ closure 1 ~host_max_len
param 0 u64
-> (b: u64) requires addressable::<H, V>(0, Some(l)) ensures b == cdiv(l as nat * V::n(), H::n())
//@ start
	proof {
		lemma2_to64(); lemma2_to64_rest();
		lemma_padded_none(H::n(), V::n());
		if let Some(m) = value_max_len {
			assert(m == 0 ==> m as nat * V::n() == 0) by (nonlinear_arith);
			if value_len <= m {
				assert(value_len as nat * V::n() <= m as nat * V::n()) by (nonlinear_arith) requires value_len <= m;
				lemma_cdiv_mono(value_len as nat * V::n(), m as nat * V::n(), H::n());
			}
			if m > 0 { lemma_cover_in(0, m as nat, V::n(), H::n()); }
		}
	}
//@ tail
	proof {
		if lawful_host::<C::Value, H>() { lemma_zero_items::<C::Value, H>(value_len as nat, V::n()); }
		assert(chunks::<C::Value>(Seq::empty(), H::n(), 0) =~= Seq::empty());
	}
//@ item struct PackedList
//@ attr
#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(H)]
#[verifier::reject_recursive_types(V)]
//@ after
impl<R: RootStatus, C: EmptyConstruct, T, H: ArrayLength<u8>, V: ArrayLength<u8>> PackedList<R, C, T, H, V> where C::Value: From<usize> + Into<usize> + From<GenericArray<u8, H>>, T: From<GenericArray<u8, V>> {
	pub open spec fn rt(&self) -> C::Value { self.0.raw.root }
	pub open spec fn shape(&self) -> bool { self.0.inner.pshape() }
	/// The database holds this list: its root commits to the length and to
	/// the root of a tree of hosts with these items' bytes.
	pub open spec fn holds_list(&self, db: DbView<C>, v: Seq<Seq<u8>>) -> bool {
		self.0.linked(db) && self.0.inner.holds_items(db, v)
	}
}
//@ fn PackedList::get
//@ ret r
//@ spec
	requires old(db).wf(), self.shape(), lawful_host::<C::Value, H>(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		r matches Err(Error::AccessOverflowed) <==> index >= self.0.inner.len,
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !old(db).dbv().reads_ok,
		forall|v: Seq<Seq<u8>>| #[trigger] self.0.inner.holds_items(old(db).dbv(), v) ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(x) ==> forall|v: Seq<Seq<u8>>| #[trigger] self.0.inner.holds_items(old(db).dbv(), v) ==> x == value_of::<T>(v[index as int]),
//@ closure 0
param 0 &PackedVector<Dangling, C, T, H, V>
param 1 &mut DB
bodystart proof { assert forall|v: Seq<Seq<u8>>| #[trigger] tuple.holds_items(db.dbv(), v) implies tuple.holds_flat(db.dbv(), padded(v, H::n(), V::n())) by {} }
-> (r: Result<T, Error<DB::Error>>)
	requires old(db).wf(), tuple.pshape(), lawful_host::<C::Value, H>(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		r matches Err(Error::AccessOverflowed) <==> index >= tuple.len,
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !old(db).dbv().reads_ok,
		forall|v: Seq<Seq<u8>>| #[trigger] tuple.holds_items(old(db).dbv(), v) ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(x) ==> forall|v: Seq<Seq<u8>>| #[trigger] tuple.holds_items(old(db).dbv(), v) ==> x == value_of::<T>(v[index as int]),
//@ fn PackedList::set
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(), lawful_host::<C::Value, H>(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> index >= old(self).0.inner.len,
		r matches Err(Error::AccessOverflowed) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<Seq<u8>>| #[trigger] old(self).0.inner.holds_items(old(db).dbv(), v) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(_) ==> {
			&&& final(self).shape()
			&&& final(self).0.inner.len == old(self).0.inner.len && final(self).0.inner.max_len == old(self).0.inner.max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& final(self).0.linked(final(db).dbv())
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(self).0.inner.holds_items(old(db).dbv(), v)
				==> final(self).holds_list(final(db).dbv(), v.update(index as int, item_bytes::<T, V>(value)))
		},
//@ closure 0
param 0 &mut PackedVector<Dangling, C, T, H, V>
param 1 &mut DB
-> (r: Result<(), Error<DB::Error>>)
	requires
		old(db).wf(), lawful_host::<C::Value, H>(), old(tuple).pshape(),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> index >= old(tuple).len,
		r matches Err(Error::AccessOverflowed) ==> *final(tuple) == *old(tuple) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<Seq<u8>>| #[trigger] old(tuple).holds_items(old(db).dbv(), v) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r is Ok ==> {
			&&& final(tuple).pshape()
			&&& moved(true, old(db).dbv(), old(tuple).rt(), final(db).dbv(), final(tuple).rt())
		},
		r matches Ok(_) ==> {
			&&& final(tuple).len == old(tuple).len && final(tuple).max_len == old(tuple).max_len
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(tuple).holds_items(old(db).dbv(), v) && old(db).dbv().retains
				==> final(tuple).holds_items(final(db).dbv(), v.update(index as int, item_bytes::<T, V>(value)))
		},
bodystart proof { lemma_moved_refl::<C>(true, db.dbv(), tuple.rt()); assert forall|v: Seq<Seq<u8>>| #[trigger] tuple.holds_items(db.dbv(), v) implies tuple.holds_flat(db.dbv(), padded(v, H::n(), V::n())) by {} }
//@ start
	let ghost d0 = db.dbv();
	let ghost t0 = self.0.inner;
	proof { lemma_moved_refl::<C>(true, d0, t0.rt()); }
//@ fn PackedList::push
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(), lawful_host::<C::Value, H>(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> pfull::<H, V>(old(self).0.inner.len as nat, old(self).0.inner.max_len),
		r matches Err(Error::AccessOverflowed) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<Seq<u8>>| #[trigger] old(self).0.inner.holds_items(old(db).dbv(), v) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(_) ==> {
			&&& final(self).shape()
			&&& final(self).0.inner.len == old(self).0.inner.len + 1 && final(self).0.inner.max_len == old(self).0.inner.max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& final(self).0.linked(final(db).dbv())
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(self).0.inner.holds_items(old(db).dbv(), v)
				==> final(self).holds_list(final(db).dbv(), v.push(item_bytes::<T, V>(value)))
		},
//@ closure 0
param 0 &mut PackedVector<Dangling, C, T, H, V>
param 1 &mut DB
-> (r: Result<(), Error<DB::Error>>)
	requires
		old(db).wf(), lawful_host::<C::Value, H>(), old(tuple).pshape(),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> pfull::<H, V>(old(tuple).len as nat, old(tuple).max_len),
		r matches Err(Error::AccessOverflowed) ==> *final(tuple) == *old(tuple) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<Seq<u8>>| #[trigger] old(tuple).holds_items(old(db).dbv(), v) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r is Ok ==> {
			&&& final(tuple).pshape()
			&&& moved(true, old(db).dbv(), old(tuple).rt(), final(db).dbv(), final(tuple).rt())
		},
		r matches Ok(_) ==> {
			&&& final(tuple).len == old(tuple).len + 1 && final(tuple).max_len == old(tuple).max_len
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(tuple).holds_items(old(db).dbv(), v) && old(db).dbv().retains
				==> final(tuple).holds_items(final(db).dbv(), v.push(item_bytes::<T, V>(value)))
		},
bodystart proof { lemma_moved_refl::<C>(true, db.dbv(), tuple.rt()); assert forall|v: Seq<Seq<u8>>| #[trigger] tuple.holds_items(db.dbv(), v) implies tuple.holds_flat(db.dbv(), padded(v, H::n(), V::n())) by {} }
//@ start
	let ghost d0 = db.dbv();
	let ghost t0 = self.0.inner;
	proof { lemma_moved_refl::<C>(true, d0, t0.rt()); }
//@ fn PackedList::pop
//@ ret r
//@ spec
	requires
		old(db).wf(), lawful_len::<C::Value>(), lawful_host::<C::Value, H>(), lawful_item::<T, V>(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(e) ==> e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<Seq<u8>>| #[trigger] old(self).0.inner.holds_items(old(db).dbv(), v) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(None) <==> old(self).0.inner.len == 0 && r is Ok,
		r matches Ok(Some(x)) ==> {
			&&& final(self).shape()
			&&& final(self).0.inner.len == old(self).0.inner.len - 1 && final(self).0.inner.max_len == old(self).0.inner.max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& final(self).0.linked(final(db).dbv())
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(self).0.inner.holds_items(old(db).dbv(), v)
				==> x == value_of::<T>(v.last()) && final(self).holds_list(final(db).dbv(), v.drop_last())
		},
//@ closure 0
param 0 &mut PackedVector<Dangling, C, T, H, V>
param 1 &mut DB
-> (r: Result<Option<T>, Error<DB::Error>>)
	requires
		old(db).wf(), lawful_host::<C::Value, H>(), lawful_item::<T, V>(), old(tuple).pshape(),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(e) ==> e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<Seq<u8>>| #[trigger] old(tuple).holds_items(old(db).dbv(), v) && old(db).dbv().retains ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(None) <==> old(tuple).len == 0 && r is Ok,
		r is Ok ==> {
			&&& final(tuple).pshape()
			&&& moved(true, old(db).dbv(), old(tuple).rt(), final(db).dbv(), final(tuple).rt())
		},
		r matches Ok(Some(x)) ==> {
			&&& final(tuple).len == old(tuple).len - 1 && final(tuple).max_len == old(tuple).max_len
			&&& forall|v: Seq<Seq<u8>>| #[trigger] old(tuple).holds_items(old(db).dbv(), v) && old(db).dbv().retains
				==> x == value_of::<T>(v.last()) && final(tuple).holds_items(final(db).dbv(), v.drop_last())
		},
bodystart proof { lemma_moved_refl::<C>(true, db.dbv(), tuple.rt()); assert forall|v: Seq<Seq<u8>>| #[trigger] tuple.holds_items(db.dbv(), v) implies tuple.holds_flat(db.dbv(), padded(v, H::n(), V::n())) by {} }
//@ start
	let ghost d0 = db.dbv();
	let ghost t0 = self.0.inner;
	proof { lemma_moved_refl::<C>(true, d0, t0.rt()); }
//@ impl Tree for PackedList
//@ ghost
	open spec fn root_s(&self) -> C::Value { self.rt() }
//@ impl Sequence for PackedList
//@ ghost
	open spec fn len_s(&self) -> nat { self.0.inner.len as nat }
//@ impl Leak for PackedList
//@ ghost
	open spec fn meta(&self) -> Self::Metadata { self.0.meta() }
	open spec fn leak_ok(m: Self::Metadata) -> bool { addressable::<H, V>(m.1.1, m.1.2) }
	open spec fn leaked_form(&self) -> bool { self.0.leaked_form() }
//@ fn PackedList::create
//@ ret r
//@ spec
	requires old(db).wf(), lawful_len::<C::Value>(), addressable::<H, V>(0, max_len), max_len matches Some(m) ==> cdiv(m as nat * V::n(), H::n()) <= pow2(63),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::InvalidParameter) <==> max_len == Some(0u64),
		r matches Err(Error::InvalidParameter) ==> final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is InvalidParameter || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(t) ==> {
			&&& t.shape() && t.0.inner.len == 0 && t.0.inner.max_len == max_len
			&&& moved(false, old(db).dbv(), dflt(), final(db).dbv(), t.rt())
			&&& t.holds_list(final(db).dbv(), Seq::empty())
		},
//@ closure 0
param 0 &mut DB
-> (r: Result<PackedVector<Owned, C, T, H, V>, Error<DB::Error>>)
	requires old(db).wf(), addressable::<H, V>(0, max_len), max_len matches Some(m) ==> cdiv(m as nat * V::n(), H::n()) <= pow2(63),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::InvalidParameter) <==> max_len == Some(0u64),
		r matches Err(Error::InvalidParameter) ==> final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is InvalidParameter || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(t) ==> {
			&&& t.pshape() && t.len == 0 && t.max_len == max_len
			&&& moved(false, old(db).dbv(), dflt(), final(db).dbv(), t.rt())
			&&& old(db).dbv().retains ==> t.holds_items(final(db).dbv(), Seq::empty())
		},
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); lemma_padded_none(H::n(), V::n()); }
//@ postlude
/// A packed vector's root is that of the plain vector of its padded chunks.
pub proof fn theorem_packed_root<R: RootStatus, C: EmptyConstruct, T, H: ArrayLength<u8>, V: ArrayLength<u8>>(t: PackedVector<R, C, T, H, V>, p: Vector<R, C>, db: DbView<C>, v: Seq<Seq<u8>>)
	requires
		db.wf(), t.pshape(), t.holds_items(db, v),
		p.shape(), p.vd() == t.tuple.vd(), p.holds_elems(db, chunks::<C::Value>(padded(v, H::n(), V::n()), H::n(), cdiv(v.len() * V::n(), H::n()))),
	ensures
		t.rt() == p.rt(),
		t.rt() == mroot::<C>(chunks::<C::Value>(padded(v, H::n(), V::n()), H::n(), cdiv(v.len() * V::n(), H::n())), t.tuple.vd()),
{
	let c = chunks::<C::Value>(padded(v, H::n(), V::n()), H::n(), cdiv(v.len() * V::n(), H::n()));
	theorem_root::<C>(db.store, t.rt(), t.tuple.vd(), c);
	theorem_root::<C>(db.store, p.rt(), t.tuple.vd(), c);
}
/// A packed list's root depends only on its length and items.
pub proof fn theorem_packed_list_root<R: RootStatus, C: EmptyConstruct, T, H: ArrayLength<u8>, V: ArrayLength<u8>>(t: PackedList<R, C, T, H, V>, db: DbView<C>, v: Seq<Seq<u8>>) where C::Value: From<usize> + Into<usize> + From<GenericArray<u8, H>>, T: From<GenericArray<u8, V>>
	requires db.wf(), t.shape(), t.holds_list(db, v),
	ensures t.rt() == C::h(mroot::<C>(chunks::<C::Value>(padded(v, H::n(), V::n()), H::n(), t.0.inner.tuple.len as nat), t.0.inner.tuple.vd()), len_val::<C::Value>(v.len() as usize)),
{
	theorem_root::<C>(db.store, t.0.inner.rt(), t.0.inner.tuple.vd(), chunks::<C::Value>(padded(v, H::n(), V::n()), H::n(), t.0.inner.tuple.len as nat));
}
