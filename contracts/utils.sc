//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::vec_model::*;
use crate::util_model::*;
use crate::stubs::*;
use crate::traits::EmptyConstruct;
broadcast use {group_value, crate::model::group_shift, crate::traits::wf_has_view};
//@ item use generic_array::ArrayLength;
//@ drop
//@ fn required_depth
//@ ret r
//@ spec
	requires len <= pow2(63),
	ensures r == depth_of(len as nat), r <= 63, len <= pow2(r as nat), r > 0 ==> pow2((r - 1) as nat) < len,
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ loop 0 spec
	invariant
		len <= 0x8000_0000_0000_0000, pow2(63) == 0x8000_0000_0000_0000,
		max_len == pow2(total_depth as nat), total_depth > 0 ==> pow2((total_depth - 1) as nat) < len, total_depth <= max_len,
	decreases 0x1_0000_0000_0000_0000 - max_len,
//@ loop 0 start
	proof { lemma_half((total_depth + 1) as nat); lemma_pow2_pos(total_depth as nat); }
//@ loop 0 after
	proof { lemma_depth_of(total_depth as nat, len as nat); lemma_depth_exists(63, len as nat); }
//@ fn vector_tree
//@ ret r
//@ where
DB::Construct: EmptyConstruct
//@ spec
	requires
		old(db).wf(),
		max_len matches Some(m) ==> m <= pow2(63),
		values.len() <= pow2(63),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::InvalidParameter) <==> (max_len matches Some(m) && values.len() > m),
		r matches Err(Error::InvalidParameter) ==> final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is InvalidParameter || e is Backend && !old(db).dbv().writes_ok,
		r matches Ok(k) ==> {
			let d = depth_of(match max_len { Some(m) => m as nat, None => values.len() as nat });
			&&& grown(old(db).dbv(), final(db).dbv())
			&&& built(final(db).dbv(), k, d, values@)
		},
//@ closure 0 ~as u64 >
param 0 u64
-> (b: bool) ensures b == (values.len() > max_len)
//@ subst
values.iter().cloned().collect::<VecDeque<_>>()
=====>
cloned_deque(values)
//@ start
	let ghost n = match max_len { Some(m) => m as nat, None => values.len() as nat };
	let ghost d = depth_of(n);
//@ before-stmt let mut next
	proof { lemma_level_0::<DB::Construct>(db.dbv(), values@); lemma_grown_refl::<DB::Construct>(db.dbv()); if total_depth < usize::MAX { lemma_down(total_depth); } }
//@ loop 0 iter
it
//@ loop 0 spec
	invariant
		total_depth == d, total_depth <= 63, values.len() <= pow2(d),
		it.seq().len() == total_depth,
		forall|k: int| 0 <= k < total_depth ==> it.seq()[k] == total_depth - k,
		db.wf(), old(db).dbv().wf(), max_len matches Some(m) ==> values.len() <= m,
		grown(old(db).dbv(), db.dbv()),
		next@.len() == 0,
		level(db.dbv(), current@, it.index@ as nat, values@),
//@ loop 0 start
	let ghost cur = current@;
	let ghost t = it.index@ as nat;
	proof { lemma_joining_start::<DB::Construct>(db.dbv(), current@, t, values@); assert(next@ =~= Seq::empty()); }
//@ loop 1 spec
	invariant
		db.wf(), old(db).dbv().wf(), max_len matches Some(m) ==> values.len() <= m,
		grown(old(db).dbv(), db.dbv()),
		depth_to_bottom == t,
		joining(db.dbv(), cur, current@, next@, t, values@),
	decreases current.len(),
//@ loop 1 start
	let ghost a = db.dbv();
	let ghost rest = current@;
	let ghost nx = next@;
	proof { lemma_grown_empties::<DB::Construct>(a, t); lemma_grown_empties::<DB::Construct>(with_empties::<DB::Construct>(a, t), t); }
//@ before-stmt let key
	let ghost e = db.dbv();
	let ghost (l, r) = (left, right);
	proof { lemma_grown_trans(a, with_empties::<DB::Construct>(a, t), e); }
//@ loop 1 end
	proof {
		lemma_joining_step::<DB::Construct>(a, e, db.dbv(), cur, rest, nx, t, values@, l, r);
		lemma_grown_trans(old(db).dbv(), a, db.dbv());
		assert(current@ =~= rest.skip(if rest.len() > 1 { 2 } else { 1 }));
	}
//@ loop 1 after
	proof { lemma_joining_end::<DB::Construct>(db.dbv(), cur, current@, next@, t, values@); }
//@ loop 0 after
	proof {
		lemma_level_top::<DB::Construct>(db.dbv(), current@, d, values@);
		lemma_grown_empties::<DB::Construct>(db.dbv(), d);
		lemma_grown_trans(old(db).dbv(), db.dbv(), with_empties::<DB::Construct>(db.dbv(), d));
	}
//@ fn host_max_len
//@ ret r
//@ spec
	requires Host::n() > 0, Host::n() * Value::n() <= u64::MAX, cdiv(value_len as nat * Value::n(), Host::n()) <= u64::MAX,
	ensures r == cdiv(value_len as nat * Value::n(), Host::n()),
//@ start
	proof { lemma_host(value_len as nat, Host::n(), Value::n()); }
//@ fn host_len
//@ ret r
//@ spec
	requires Host::n() > 0, Host::n() * Value::n() <= u64::MAX, cdiv(value_len as nat * Value::n(), Host::n()) <= u64::MAX,
	ensures r == cdiv(value_len as nat * Value::n(), Host::n()),
