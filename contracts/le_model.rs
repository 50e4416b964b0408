//! Ghost model of the ssz encoding over end values.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use crate::model::*;
use crate::vec_model::*;
use crate::util_model::*;
use crate::pack_model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_lib::*;
use crate::traits::*;
use crate::raw_thm::*;
verus! {
broadcast use group_value;

pub type Store = Map<Value, (Value, Value)>;

// ------------------------------------------------------------- slices

/// The slice of these items.
pub open spec fn slice_of<'a, T>(v: Seq<T>) -> &'a [T] { choose|s: &'a [T]| s@ == v }
/// A slice is its items.
pub broadcast proof fn axiom_slice_of<T>(x: &[T])
	ensures slice_of(#[trigger] x@) == x,
{ let y = slice_of(x@); assert(y@ == x@); assert(y =~= x); }

// ---------------------------------------------------------- end values

pub proof fn lemma_lawful_value()
	ensures lawful_host::<Value, U32>(), crate::len_model::lawful_len::<Value>(),
{
	broadcast use {group_le_value, crate::stubs::axiom_array_len};
	lemma_maxes();
	assert forall|x: Value| (#[trigger] bytes_of(&x)).len() == 32nat && value_of::<Value>(bytes_of(&x)) == x by { axiom_value_bytes(x); }
	assert forall|b: Seq<u8>| b.len() == 32nat implies bytes_of(&#[trigger] value_of::<Value>(b)) == b by { axiom_value_bytes(value_of::<Value>(b)); }
	axiom_value_bytes(dflt::<Value>());
	assert(bytes_of(&dflt::<Value>()) =~= zeros(32));
	assert forall|n: usize| crate::len_model::val_len::<Value>(#[trigger] crate::len_model::len_val::<Value>(n)) == n by {
		lemma_le_len(n as nat, 32);
		lemma_le_pad(n as nat, 8, 32);
		lemma_le_round(n as nat, 8);
		assert(le_bytes(n as nat, 32).take(8) =~= le_bytes(n as nat, 8));
	}
}

// -------------------------------------------------------------- vectors

pub open spec fn vdep(n: nat, max: Option<u64>) -> nat { depth_of(match max { Some(m) => m as nat, None => n }) }
/// The root of these end values padded to the maximum.
pub open spec fn encv<C: CompatibleConstruct>(v: Seq<Value>, max: Option<u64>) -> Value { mroot::<C>(v, vdep(v.len(), max)) }
pub open spec fn storedv<C: CompatibleConstruct>(s: Store, v: Seq<Value>, max: Option<u64>) -> bool {
	tree_ok::<C>(s, encv::<C>(v, max), vdep(v.len(), max), v)
}
/// The end value at `i`.
pub open spec fn elem(s: Store, root: Value, n: nat, max: Option<u64>, i: int) -> Option<Value> {
	walk(s, root, bits_be(i as nat, vdep(n, max)))
}
pub open spec fn within(n: nat, max: Option<u64>) -> bool { max matches Some(m) ==> n <= m }
pub open spec fn addressed(n: nat, max: Option<u64>) -> bool { n <= pow2(63) && (max matches Some(m) ==> m <= pow2(63)) }

pub proof fn lemma_storedv<C: CompatibleConstruct>(s: Store, v: Seq<Value>, max: Option<u64>)
	requires storedv::<C>(s, v, max),
	ensures forall|i: int| 0 <= i < v.len() ==> #[trigger] elem(s, encv::<C>(v, max), v.len(), max, i) == Some(v[i]),
{
	assert forall|i: int| 0 <= i < v.len() implies #[trigger] elem(s, encv::<C>(v, max), v.len(), max, i) == Some(v[i]) by {
		lemma_tree_get::<C>(s, encv::<C>(v, max), vdep(v.len(), max), v, i as nat);
	}
}
pub proof fn lemma_storedv_more<C: CompatibleConstruct>(s: Store, t: Store, v: Seq<Value>, max: Option<u64>)
	requires storedv::<C>(s, v, max), s.submap_of(t), store_wf::<C>(s), store_wf::<C>(t),
	ensures storedv::<C>(t, v, max),
{
	lemma_kept_sub(s, t, encv::<C>(v, max));
	lemma_tree_kept::<C>(s, t, encv::<C>(v, max), vdep(v.len(), max), v);
}

// ------------------------------------------------- a value with a number

/// The root of a value (of root `l`) with the number `n` mixed in.
pub open spec fn enc2<C: CompatibleConstruct>(l: Value, n: nat) -> Value { encv::<C>(seq![l, bv(le_bytes(n, 32))], None) }
pub open spec fn stored2<C: CompatibleConstruct>(s: Store, l: Value, n: nat) -> bool { storedv::<C>(s, seq![l, bv(le_bytes(n, 32))], None) }
pub proof fn lemma_stored2_more<C: CompatibleConstruct>(s: Store, t: Store, l: Value, n: nat)
	requires stored2::<C>(s, l, n), s.submap_of(t), store_wf::<C>(s), store_wf::<C>(t),
	ensures stored2::<C>(t, l, n),
{ lemma_storedv_more::<C>(s, t, seq![l, bv(le_bytes(n, 32))], None); }

/// The tree at `root` is `x` with the length `n`.
pub open spec fn len_decodes<T: FromTree, C: CompatibleConstruct>(s: Store, root: Value, x: T, n: nat) -> bool {
	&&& (elem(s, root, 2, None, 0) matches Some(v) && T::decodes::<C>(s, v, x))
	&&& (elem(s, root, 2, None, 1) matches Some(v) && le_nat(vb(v)) == n)
	&&& n <= pow2(63)
}

/// The tree at `root` is no `T`.
pub open spec fn nothing<T: FromTree, C: CompatibleConstruct>(s: Store, root: Value) -> bool {
	forall|v: T| !#[trigger] T::decodes::<C>(s, root, v)
}

pub proof fn lemma_byte(v: Value)
	ensures vb(v).len() == 32, vb(v)[0] as nat == le_nat(vb(v).take(1)),
{
	broadcast use group_le_value;
	let b = vb(v).take(1);
	assert(b.drop_first() =~= Seq::empty());
	reveal_with_fuel(le_nat, 2);
}

} // verus!
