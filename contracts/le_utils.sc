//@ full-names
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest};
use crate::le_model::*;
use crate::le_lib::*;
use crate::traits::EmptyConstruct;
use crate::util_model::{grown, lemma_grown_refl, lemma_grown_trans, lemma_grown_insert};
use crate::vec_model::*;
use vstd::arithmetic::power2::*;
use vstd::std_specs::convert::*;
broadcast use {group_value, crate::traits::wf_has_view, axiom_u256, axiom_u256_of};
//@ postlude
/// What decoding a value with its type may answer.
#[verifier::prophetic]
pub open spec fn typed<DB: ReadBackend, F: FnOnce(&Value, &mut DB, usize) -> Result<R, Error<DB::Error>>, R>(f: F, root: Value, d0: &DB, d1: &DB, r: Result<R, Error<DB::Error>>) -> bool where DB::Construct: CompatibleConstruct {
	let (a, b) = (elem(d0.dbv().store, root, 2, None, 0), elem(d0.dbv().store, root, 2, None, 1));
	let same = d1.wf() && d1.dbv() == d0.dbv() && forall|k: Value| #[trigger] d1.loose(k) == d0.loose(k);
	||| r matches Err(e) && e is Backend && !d0.dbv().reads_ok && same
	||| r matches Err(e) && e is CorruptedDatabase && same && !(a is Some && b is Some && le_nat(vb(b->0)) <= usize::MAX)
	||| a is Some && b is Some && le_nat(vb(b->0)) <= usize::MAX && exists|x: &Value, d: &mut DB, t: usize| {
		&&& #[trigger] call_ensures(f, (x, d, t), r)
		&&& *x == a->0 && t == le_nat(vb(b->0))
		&&& (*d).wf() && (*d).dbv() == d0.dbv() && *final(d) == *d1
		&&& forall|k: Value| #[trigger] (*d).loose(k) == d0.loose(k)
	}
}
//@ item pub use bm::utils::*;
//@ drop
//@ fn mix_in_type
//@ ret r
//@ spec
	requires old(db).wf(), value.addr(),
	ensures
		final(db).wf(),
		r matches Err(e) ==> e is InvalidParameter && !value.fits() || e is Backend && !old(db).dbv().writes_ok,
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(k) ==> {
			&&& value.fits()
			&&& k == enc2::<DB::Construct>(value.enc::<DB::Construct>(), ty as nat)
			&&& grown(old(db).dbv(), final(db).dbv())
			&&& old(db).dbv().retains ==> value.stored::<DB::Construct>(final(db).dbv().store) && stored2::<DB::Construct>(final(db).dbv().store, value.enc::<DB::Construct>(), ty as nat)
		},
//@ start
	let ghost d0 = db.dbv();
	proof { lemma_maxes(); lemma_le_pad(ty as nat, 8, 32); lemma_grown_refl(d0); }
//@ after-stmt let left
	let ghost d1 = db.dbv();
//@ after-stmt let right
	let ghost d2 = db.dbv();
//@ tail-let r_
	proof {
		lemma_grown_trans(d0, d1, d2);
		if r_ is Ok { lemma_grown_trans(d1, d2, db.dbv()); }
		if r_ is Ok {
			lemma_grown_trans(d0, d2, db.dbv());
			if d0.retains {
				value.stored_more::<DB::Construct>(d1.store, db.dbv().store);
			}
		}
	}
//@ fn mix_in_length
//@ ret r
//@ spec
	requires old(db).wf(), value.addr(),
	ensures
		final(db).wf(),
		r matches Err(e) ==> e is InvalidParameter && !value.fits() || e is Backend && !old(db).dbv().writes_ok,
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(k) ==> {
			&&& value.fits()
			&&& k == enc2::<DB::Construct>(value.enc::<DB::Construct>(), len as nat)
			&&& grown(old(db).dbv(), final(db).dbv())
			&&& old(db).dbv().retains ==> value.stored::<DB::Construct>(final(db).dbv().store) && stored2::<DB::Construct>(final(db).dbv().store, value.enc::<DB::Construct>(), len as nat)
		},
//@ start
	let ghost d0 = db.dbv();
	proof { lemma_maxes(); lemma_le_pad(len as nat, 8, 32); lemma_grown_refl(d0); }
//@ after-stmt let left
	let ghost d1 = db.dbv();
//@ after-stmt let right
	let ghost d2 = db.dbv();
//@ tail-let r_
	proof {
		lemma_grown_trans(d0, d1, d2);
		if r_ is Ok { lemma_grown_trans(d1, d2, db.dbv()); }
		if r_ is Ok {
			lemma_grown_trans(d0, d2, db.dbv());
			if d0.retains {
				value.stored_more::<DB::Construct>(d1.store, db.dbv().store);
			}
		}
	}
//@ fn decode_with_type
//@ ret r
//@ spec
	requires
		old(db).wf(),
		forall|x: &Value, d: &mut DB, t: usize| (*d).dbv() == old(db).dbv() && (*d).wf() ==> #[trigger] call_requires(f, (x, d, t)),
	ensures
		typed::<DB, F, R>(f, *root, old(db), final(db), r),
//@ start
	proof {
		lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); lemma_le_pad(usize::MAX as nat, 8, 32);
		let (a, b) = (elem(db.dbv().store, *root, 2, None, 0), elem(db.dbv().store, *root, 2, None, 1));
		if a is Some && b is Some {
			axiom_value_bytes(b->0);
			lemma_le_back(vb(b->0));
			let y = u256_of(le_nat(vb(b->0)));
			assert(<(Value, U256) as FromTree>::decodes::<DB::Construct>(db.dbv().store, *root, (a->0, y)));
		}
	}
//@ fn decode_with_length
//@ ret r
//@ spec
	requires old(db).wf(), T::limits(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok((x, n)) ==> len_decodes::<T, DB::Construct>(old(db).dbv().store, *root, x, n as nat),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && forall|x: T, n: nat| n <= pow2(63) ==> !#[trigger] len_decodes::<T, DB::Construct>(old(db).dbv().store, *root, x, n),
//@ start
	proof {
		lemma2_to64(); lemma2_to64_rest(); lemma_maxes(); lemma_le_pad(usize::MAX as nat, 8, 32);
		assert forall|x: T, n: nat| #[trigger] len_decodes::<T, DB::Construct>(db.dbv().store, *root, x, n)
			implies exists|y: U256| #[trigger] <(T, U256) as FromTree>::decodes::<DB::Construct>(db.dbv().store, *root, (x, y)) && y@ == n by {
			let v = elem(db.dbv().store, *root, 2, None, 1)->0;
			axiom_value_bytes(v);
			lemma_le_back(vb(v));
			let y = u256_of(n);
			assert(<(T, U256) as FromTree>::decodes::<DB::Construct>(db.dbv().store, *root, (x, y)));
		}
	}
