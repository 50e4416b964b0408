//@ full-names
//@ expand impl_builtin_fixed_uint_vector
//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_stubs::{typenum, generic_array, primitive_types, digest, vecarray};
use crate::le_model::*;
use crate::le_lib::*;
use crate::traits::EmptyConstruct;
use crate::util_model::*;
use crate::pack_model::*;
use crate::vec_model::*;
use crate::le_vecs::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
broadcast use {group_value, crate::traits::wf_has_view, axiom_array_len, axiom_array_value, axiom_slice_of, axiom_as_ref, axiom_from_digest_obeys, axiom_from_digest};
//@ item use bm::utils::{vector_tree, host_max_len};
//@ replace
use crate::utils::{vector_tree, host_max_len};
//@ trait IntoCompositeVectorTree
//@ ghost
	/// As for `IntoTree`, for the maximum given.
	spec fn venc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value;
	spec fn vstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool;
	spec fn vfits(&self, max: Option<u64>) -> bool;
	spec fn vaddr(&self, max: Option<u64>) -> bool;
	proof fn vstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>)
		requires self.vstored::<K>(s, max), s.submap_of(t), store_wf::<K>(s), store_wf::<K>(t),
		ensures self.vstored::<K>(t, max);
//@ fn IntoCompositeVectorTree::into_composite_vector_tree
//@ ret r
//@ spec
	requires old(db).wf(), self.vaddr(max_len),
	ensures
		final(db).wf(),
		r matches Err(e) ==> e is InvalidParameter && !self.vfits(max_len) || e is Backend && !old(db).dbv().writes_ok,
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(k) ==> {
			&&& self.vfits(max_len)
			&&& k == self.venc::<DB::Construct>(max_len)
			&&& grown(old(db).dbv(), final(db).dbv())
			&&& old(db).dbv().retains ==> self.vstored::<DB::Construct>(final(db).dbv().store, max_len)
		}
//@ trait IntoCompactVectorTree
//@ ghost
	/// As for `IntoTree`, for the maximum given.
	spec fn cenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value;
	spec fn cstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool;
	spec fn cfits(&self, max: Option<u64>) -> bool;
	spec fn caddr(&self, max: Option<u64>) -> bool;
	proof fn cstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>)
		requires self.cstored::<K>(s, max), s.submap_of(t), store_wf::<K>(s), store_wf::<K>(t),
		ensures self.cstored::<K>(t, max);
//@ fn IntoCompactVectorTree::into_compact_vector_tree
//@ ret r
//@ spec
	requires old(db).wf(), self.caddr(max_len),
	ensures
		final(db).wf(),
		r matches Err(e) ==> e is InvalidParameter && !self.cfits(max_len) || e is Backend && !old(db).dbv().writes_ok,
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(k) ==> {
			&&& self.cfits(max_len)
			&&& k == self.cenc::<DB::Construct>(max_len)
			&&& grown(old(db).dbv(), final(db).dbv())
			&&& old(db).dbv().retains ==> self.cstored::<DB::Construct>(final(db).dbv().store, max_len)
		}
//@ item struct ElementalFixedVec
//@ after
impl<T> Counted for ElementalFixedVec<T> { open spec fn count(&self) -> nat { self.0@.len() } }
//@ trait FromCompositeVectorTree
//@ supertrait
Counted
//@ ghost
	/// There are as many items as asked for.
	proof fn vdecodes_len<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self)
		requires Self::vdecodes::<K>(s, root, len, max, x),
		ensures x.count() == len;
	/// What the tree at `root` says about `x`, for the length and maximum given.
	spec fn vdecodes<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) -> bool;
	spec fn vlimits() -> bool;
//@ fn FromCompositeVectorTree::from_composite_vector_tree
//@ ret r
//@ spec
	requires old(db).wf(), Self::vlimits(), addressed(len as nat, max_len), within(len as nat, max_len),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> Self::vdecodes::<DB::Construct>(old(db).dbv().store, *root, len as nat, max_len, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && forall|x: Self| !#[trigger] Self::vdecodes::<DB::Construct>(old(db).dbv().store, *root, len as nat, max_len, x),
//@ trait FromCompactVectorTree
//@ supertrait
Counted
//@ ghost
	/// There are as many items as asked for.
	proof fn cdecodes_len<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self)
		requires Self::cdecodes::<K>(s, root, len, max, x),
		ensures x.count() == len;
	/// What the tree at `root` says about `x`, for the length and maximum given.
	spec fn cdecodes<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) -> bool;
//@ fn FromCompactVectorTree::from_compact_vector_tree
//@ ret r
//@ spec
	requires old(db).wf(), addressed(len as nat, max_len), within(len as nat, max_len),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: <DB::Construct as Construct>::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> Self::cdecodes::<DB::Construct>(old(db).dbv().store, *root, len as nat, max_len, x),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && forall|x: Self| !#[trigger] Self::cdecodes::<DB::Construct>(old(db).dbv().store, *root, len as nat, max_len, x),
//@ for T,N,Q: u8,1,32 u16,2,16 u32,4,8 u64,8,4 u128,16,2
//@ impl IntoCompactVectorTree for ElementalFixedVecRef<@T@>
//@ ghost
	open spec fn cenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { encv::<K>(hosts(bytes_@T@(self.0@), @N@), hmax(max, @N@)) }
	open spec fn cstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool { storedv::<K>(s, hosts(bytes_@T@(self.0@), @N@), hmax(max, @N@)) }
	open spec fn cfits(&self, max: Option<u64>) -> bool { within(self.0@.len(), max) }
	open spec fn caddr(&self, max: Option<u64>) -> bool { addressed(self.0@.len(), max) }
	proof fn cstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) { lemma_storedv_more::<K>(s, t, hosts(bytes_@T@(self.0@), @N@), hmax(max, @N@)); }
//@ fn IntoCompactVectorTree for ElementalFixedVecRef<@T@>::into_compact_vector_tree
//@ attr
#[verifier::loop_isolation(false)]
//@ start
	let ghost bs = bytes_@T@(self.0@);
	proof {
		lemma2_to64(); lemma2_to64_rest();
		assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).len() == @N@ by { lemma_le_len(self.0@[i] as nat, @N@); }
		lemma_hosts_le(self.0@.len(), @N@);
		if max_len is Some {
			lemma_hosts_le(max_len->0 as nat, @N@);
			if self.0@.len() <= max_len->0 { lemma_cdiv_mono(self.0@.len() * @N@, max_len->0 as nat * @N@, 32); }
		}
	}
//@ loop 0 iter
it
//@ loop 0 spec
	invariant
		bs == bytes_@T@(self.0@), items(bs, @N@), it.seq().len() == self.0@.len(),
		forall|i: int| 0 <= i < self.0@.len() ==> #[trigger] it.seq()[i] == &self.0@[i],
		chunks@.len() == cdiv(it.index@ as nat * @N@, 32),
		forall|k: int| 0 <= k < chunks@.len() ==> (#[trigger] chunks@[k])@ == part(bs, @N@, it.index@ as nat, k),
//@ loop 0 start
	let ghost c0 = chunks@;
	proof { lemma_part_step(bs, @N@, @Q@, it.index@ as nat); }
//@ before-stmt while
	let ghost p0 = last@;
//@ loop 1 spec
	invariant
		p0.len() <= last@.len() <= 32, last@ == p0 + zeros((last@.len() - p0.len()) as nat),
	decreases 32 - last@.len(),
//@ loop 1 end
	proof { assert(last@ =~= p0 + zeros((last@.len() - p0.len()) as nat)); }
//@ subst
value.to_le_bytes().into_iter().cloned().collect::<Vec<u8>>()
=====>
array_vec(to_le_@T@(*value))
//@ subst
chunks.into_iter().map(|c| {
	«body»
}).collect::<Vec<_>>()
=====>
{
					let ghost cs = chunks@;
					proof {
						assert forall|k: int| 0 <= k < cs.len() implies (#[trigger] cs[k])@ == chunk(padded(bs, 32, @N@), 32, k) && cs[k]@.len() == 32 by { lemma_part_full(bs, @N@, k); }
					}
					let mut v_: Vec<Value> = Vec::new();
					for c in it: chunks
						invariant
							it.seq() == cs, v_@.len() == it.index@,
							forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k])@.len() == 32,
							forall|k: int| 0 <= k < v_@.len() ==> #[trigger] v_@[k] == bv(cs[k]@),
					{
						v_.push({ «body» });
						proof { assert forall|h: H256| Value(h) == bv(#[trigger] h.0@) by { axiom_value_bytes(Value(h)); } }
					}
					proof { assert(v_@ =~= hosts(bs, @N@)); }
					v_
				}
//@ closure 0 ~len() == 32
param 0 &Vec<u8>
-> (b: bool) ensures b == (v@.len() == 32)
//@ closure 2 ~host_max_len
param 0 u64
-> (b: u64) requires max <= pow2(63) ensures b == cdiv(max as nat * @N@, 32)
//@ impl FromCompactVectorTree for ElementalFixedVec<@T@>
//@ ghost
	open spec fn cdecodes<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) -> bool {
		x.0@.len() == len && forall|i: int| 0 <= i < len ==> #[trigger] item_at(s, root, len, max, @N@, i, le_bytes(x.0@[i] as nat, @N@))
	}
	proof fn cdecodes_len<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) {}
//@ fn FromCompactVectorTree for ElementalFixedVec<@T@>::from_compact_vector_tree
//@ start
	let ghost s = db.dbv().store;
	proof {
		lemma2_to64(); lemma2_to64_rest(); lemma_lawful_value(); lemma_maxes();
		lemma_hosts_le(len as nat, @N@);
		lemma_cdiv(len as nat * @N@, 32);
		if max_len is Some { lemma_hosts_le(max_len->0 as nat, @N@); lemma_cdiv_mono(len as nat * @N@, max_len->0 as nat * @N@, 32); }
	}
//@ loop 0 spec
	invariant
		db.wf(), db.dbv() == old(db).dbv(), s == db.dbv().store,
		forall|k: Value| #[trigger] db.loose(k) == old(db).loose(k),
		lawful_host::<Value, U32>(), i <= len, within(len as nat, max_len), addressed(len as nat, max_len),
		len > 0 ==> packed.pshape(), packed.len == len, packed.max_len == max_len, packed.tuple.raw.root == *root,
		packed.tuple.vd() == vdep(cdiv(len as nat * @N@, 32), hmax(max_len, @N@)),
		ret@.len() == i,
		forall|k: int| 0 <= k < i ==> #[trigger] item_at(s, *root, len as nat, max_len, @N@, k, le_bytes(ret@[k] as nat, @N@)),
//@ loop 0 start
	let ghost d = vdep(cdiv(len as nat * @N@, 32), hmax(max_len, @N@));
	proof {
		if hmissing(s, *root, d, 32, i * @N@, @N@) {
			assert forall|x: Self| !#[trigger] Self::cdecodes::<DB::Construct>(s, *root, len as nat, max_len, x) by {
				if Self::cdecodes::<DB::Construct>(s, *root, len as nat, max_len, x) {
					let b = le_bytes(x.0@[i as int] as nat, @N@);
					lemma_le_len(x.0@[i as int] as nat, @N@);
					lemma_missing_item(s, *root, d, 32, i * @N@, b);
					assert(item_at(s, *root, len as nat, max_len, @N@, i as int, b));
				}
			}
		}
	}
//@ after-stmt let value
	let ghost b = choose|b: Seq<u8>| value == #[trigger] value_of::<GenericArray<u8, typenum::U@N@>>(b) && b.len() == @N@ && hbytes(s, *root, d, 32, i * @N@, b);
	proof { lemma_le_back(b); }
//@ loop 0 end
	proof { assert(item_at(s, *root, len as nat, max_len, @N@, i as int, le_bytes(ret@[i as int] as nat, @N@))); }
//@ subst
<@T@>::default().to_le_bytes()
=====>
to_le_@T@(<@T@>::default())
//@ subst
<@T@>::from_le_bytes(bytes)
=====>
from_le_@T@(bytes)
//@ endfor
//@ impl IntoCompactVectorTree for ElementalFixedVecRef<U256>
//@ ghost
	open spec fn cenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { encv::<K>(vals_u256(self.0@), max) }
	open spec fn cstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool { storedv::<K>(s, vals_u256(self.0@), max) }
	open spec fn cfits(&self, max: Option<u64>) -> bool { within(self.0@.len(), max) }
	open spec fn caddr(&self, max: Option<u64>) -> bool { addressed(self.0@.len(), max) }
	proof fn cstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) { lemma_storedv_more::<K>(s, t, vals_u256(self.0@), max); }
//@ fn IntoCompactVectorTree for ElementalFixedVecRef<U256>::into_compact_vector_tree
//@ subst
&mut ret.0.as_mut()
=====>
ret.0.as_mut()
//@ subst
&self.0.iter().map(|uint| {
			«body»
		}).collect::<Vec<_>>()
=====>
&{
			let mut v_: Vec<Value> = Vec::new();
			for uint in it: self.0.iter()
				invariant
					v_@.len() == it.index@, it.seq().len() == self.0@.len(),
					forall|i: int| 0 <= i < self.0@.len() ==> #[trigger] it.seq()[i] == &self.0@[i],
					forall|i: int| 0 <= i < v_@.len() ==> #[trigger] v_@[i] == vals_u256(self.0@)[i],
			{
				proof { assert(it.seq()[it.index@ as int] == &self.0@[it.index@ as int]); lemma_le_len(uint@, 32); }
				let ghost v0 = v_@;
				v_.push({ «body» });
				proof {
					assert(v_@.last().0.0@.len() == 32);
					axiom_value_bytes(v_@.last());
					assert(vb(v_@.last()) == v_@.last().0.0@);
					assert(v_@.last() == bv(le_bytes(uint@, 32)));
				}
			}
			proof { assert(v_@ =~= vals_u256(self.0@)); }
			v_
		}
//@ impl FromCompactVectorTree for ElementalFixedVec<U256>
//@ ghost
	open spec fn cdecodes<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) -> bool {
		x.0@.len() == len && forall|i: int| 0 <= i < len ==> (#[trigger] elem(s, root, len, max, i) matches Some(v) && x.0@[i]@ == le_nat(vb(v)))
	}
	proof fn cdecodes_len<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) {}
//@ fn FromCompactVectorTree for ElementalFixedVec<U256>::from_compact_vector_tree
//@ start
	let ghost s = db.dbv().store;
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ loop 0 spec
	invariant
		db.wf(), db.dbv() == old(db).dbv(), s == db.dbv().store,
		forall|k: Value| #[trigger] db.loose(k) == old(db).loose(k),
		i <= len, len > 0 ==> vector.shape(), vector.len == len, vector.max_len == max_len, vector.raw.root == *root,
		vector.vd() == vdep(len as nat, max_len),
		ret@.len() == i,
		forall|k: int| 0 <= k < i ==> (#[trigger] elem(s, *root, len as nat, max_len, k) matches Some(v) && uval(ret@[k]) == le_nat(vb(v))),
//@ loop 0 start
	proof { let e = elem(s, *root, len as nat, max_len, i as int); }
//@ after-stmt let value
	proof { assert(elem(s, *root, len as nat, max_len, i as int) == Some(value)); axiom_value_bytes(value); }
//@ impl IntoCompactVectorTree for ElementalFixedVecRef<bool>
//@ ghost
	open spec fn cenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { encv::<K>(hosts(bytes_u8(bits(self.0@)), 1), hmax(bmax(max), 1)) }
	open spec fn cstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool { storedv::<K>(s, hosts(bytes_u8(bits(self.0@)), 1), hmax(bmax(max), 1)) }
	open spec fn cfits(&self, max: Option<u64>) -> bool { within(self.0@.len(), max) }
	open spec fn caddr(&self, max: Option<u64>) -> bool { addressed(self.0@.len(), max) }
	proof fn cstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) { lemma_storedv_more::<K>(s, t, hosts(bytes_u8(bits(self.0@)), 1), hmax(bmax(max), 1)); }
//@ fn IntoCompactVectorTree for ElementalFixedVecRef<bool>::into_compact_vector_tree
//@ start
	let ghost v = self.0@;
	proof {
		lemma2_to64(); lemma2_to64_rest();
		if max_len is Some && v.len() <= max_len->0 { lemma_cdiv_mono(v.len(), max_len->0 as nat, 8); }
		lemma_cdiv(v.len(), 8);
	}
//@ loop 0 spec
	invariant
		v == self.0@, bytes@.len() == cdiv(v.len(), 8),
		forall|k: int| 0 <= k < bytes@.len() ==> #[trigger] bytes@[k] == bits_done(v, i as int, k),
//@ loop 0 start
	let ghost b0 = bytes@;
	proof { lemma_bits_step(v, i as int); }
//@ loop 0 end
	proof {
		lemma_or_bit(b0[i as int / 8], v[i as int], (i % 8) as u8);
		assert(b0[i as int / 8] == bits_done(v, i as int, i as int / 8));
		assert forall|k: int| 0 <= k < bytes@.len() implies #[trigger] bytes@[k] == bits_done(v, i + 1, k) by {
			assert(b0[k] == bits_done(v, i as int, k));
		}
	}
//@ loop 0 after
	proof { assert(bytes@ =~= bits(v)); }
//@ closure 0 ~+ 7) / 8
param 0 u64
bodystart proof { lemma2_to64_rest(); }
-> (b: u64) requires l <= pow2(63) ensures b == cdiv(l as nat, 8)
//@ impl FromCompactVectorTree for ElementalFixedVec<bool>
//@ ghost
	open spec fn cdecodes<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) -> bool {
		&&& x.0@.len() == len
		&&& forall|k: int| 0 <= k < cdiv(len, 8) ==> byte_known(s, root, cdiv(len, 8), bmax(max), k)
		&&& forall|i: int| 0 <= i < len ==> #[trigger] x.0@[i] == bit(byte_at(s, root, cdiv(len, 8), bmax(max), i / 8), (i % 8) as nat)
	}
	proof fn cdecodes_len<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) {}
//@ fn FromCompactVectorTree for ElementalFixedVec<bool>::from_compact_vector_tree
//@ start
	let ghost s = db.dbv().store;
	let ghost n = cdiv(len as nat, 8);
	proof {
		lemma2_to64(); lemma2_to64_rest(); lemma_lawful_value();
		lemma_cdiv(len as nat, 8);
		lemma_cdiv(n, 32);
		if max_len is Some {
			lemma_cdiv(max_len->0 as nat, 8); lemma_cdiv_mono(len as nat, max_len->0 as nat, 8);
			lemma_cdiv(bmax(max_len)->0 as nat, 32); lemma_cdiv_mono(n, bmax(max_len)->0 as nat, 32);
		}
	}
//@ closure 0 ~+ 7) / 8
param 0 u64
bodystart proof { lemma2_to64_rest(); }
-> (b: u64) requires l <= pow2(63) ensures b == cdiv(l as nat, 8)
//@ loop 0 spec
	invariant
		db.wf(), db.dbv() == old(db).dbv(), s == db.dbv().store,
		forall|k: Value| #[trigger] db.loose(k) == old(db).loose(k),
		lawful_host::<Value, U32>(), i <= n, n == cdiv(len as nat, 8),
		n > 0 ==> packed.pshape(), packed.len == n, packed.max_len == bmax(max_len), packed.tuple.raw.root == *root,
		packed.tuple.vd() == vdep(cdiv(n * 1, 32), hmax(bmax(max_len), 1)),
		bytes@.len() == i,
		forall|k: int| 0 <= k < i ==> byte_known(s, *root, n, bmax(max_len), k),
		forall|k: int| 0 <= k < i ==> #[trigger] bytes@[k] == byte_at(s, *root, n, bmax(max_len), k),
//@ loop 0 start
	proof {
		let d = vdep(cdiv(n * 1, 32), hmax(bmax(max_len), 1));
		assert(i * <U1 as ArrayLength<u8>>::n() == i && <U1 as ArrayLength<u8>>::n() == 1 && <U32 as ArrayLength<u8>>::n() == 32);
		assert forall|b: Seq<u8>| b.len() == 1 && #[trigger] hbytes(s, *root, d, 32, i as int, b)
			implies byte_known(s, *root, n, bmax(max_len), i as int) && b[0] == byte_at(s, *root, n, bmax(max_len), i as int) by { assert(b[0] == hbyte(s, *root, d, 32, i + 0) && hknown(s, *root, d, 32, i + 0)); }
		if !byte_known(s, *root, n, bmax(max_len), i as int) {
			assert forall|x: Self| !#[trigger] Self::cdecodes::<DB::Construct>(s, *root, len as nat, max_len, x) by {}
		}
	}
//@ loop 1 spec
	invariant
		n == cdiv(len as nat, 8), bytes@.len() == n, len <= 8 * n,
		forall|k: int| 0 <= k < n ==> #[trigger] bytes@[k] == byte_at(s, *root, n, bmax(max_len), k),
		ret@.len() == i,
		forall|k: int| 0 <= k < i ==> #[trigger] ret@[k] == bit(byte_at(s, *root, n, bmax(max_len), k / 8), (k % 8) as nat),
//@ loop 1 start
	proof { lemma_and_bit(bytes@[i as int / 8], (i % 8) as u8); }
//@ impl IntoCompositeVectorTree for ElementalFixedVecRef<T>
//@ ghost
	open spec fn venc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { encv::<K>(roots::<T, K>(self.0@), max) }
	open spec fn vstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool {
		&&& storedv::<K>(s, roots::<T, K>(self.0@), max)
		&&& forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).stored::<K>(s)
	}
	open spec fn vfits(&self, max: Option<u64>) -> bool { within(self.0@.len(), max) && forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).fits() }
	open spec fn vaddr(&self, max: Option<u64>) -> bool { addressed(self.0@.len(), max) && forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).addr() }
	proof fn vstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) {
		lemma_storedv_more::<K>(s, t, roots::<T, K>(self.0@), max);
		assert forall|i: int| 0 <= i < self.0@.len() implies (#[trigger] self.0@[i]).stored::<K>(t) by { self.0@[i].stored_more::<K>(s, t); }
	}
//@ fn IntoCompositeVectorTree for ElementalFixedVecRef<T>::into_composite_vector_tree
//@ start
	let ghost d0 = db.dbv();
	let ghost mut dm = d0;
//@ subst
&self.0.iter().map(|value| {
			«body»
		}).collect::<Result<Vec<_>, _>>()?
=====>
&{
			let mut v_: Vec<Value> = Vec::new();
			for value in it: self.0.iter()
				invariant
					d0 == old(db).dbv(), db.wf(), grown(d0, db.dbv()), self.vaddr(max_len),
					v_@.len() == it.index@, it.seq().len() == self.0@.len(),
					forall|i: int| 0 <= i < self.0@.len() ==> #[trigger] it.seq()[i] == &self.0@[i],
					forall|i: int| 0 <= i < v_@.len() ==> #[trigger] v_@[i] == self.0@[i].enc::<DB::Construct>(),
					forall|i: int| 0 <= i < v_@.len() ==> (#[trigger] self.0@[i]).fits(),
					d0.retains ==> forall|i: int| 0 <= i < v_@.len() ==> (#[trigger] self.0@[i]).stored::<DB::Construct>(db.dbv().store),
			{
				let ghost d1 = db.dbv();
				v_.push({ «body» }?);
				proof {
					lemma_grown_trans(d0, d1, db.dbv());
					if d0.retains {
						assert forall|i: int| 0 <= i < v_@.len() implies (#[trigger] self.0@[i]).stored::<DB::Construct>(db.dbv().store) by {
							if i < v_@.len() - 1 { self.0@[i].stored_more::<DB::Construct>(d1.store, db.dbv().store); }
						}
					}
				}
			}
			proof { dm = db.dbv(); assert(v_@ =~= roots::<T, DB::Construct>(self.0@)); }
			v_
		}
//@ tail-let r_
	proof {
		if r_ is Ok {
			lemma_grown_trans(d0, dm, db.dbv());
			if d0.retains {
				assert forall|i: int| 0 <= i < self.0@.len() implies (#[trigger] self.0@[i]).stored::<DB::Construct>(db.dbv().store) by {
					self.0@[i].stored_more::<DB::Construct>(dm.store, db.dbv().store);
				}
			}
		}
	}
//@ fn from_composite_vector_tree
//@ ret r
//@ spec
	requires
		old(db).wf(), addressed(len as nat, max_len), within(len as nat, max_len),
		forall|v: &Value, d: &mut DB| (*d).wf() && (*d).dbv() == old(db).dbv() ==> #[trigger] call_requires(f, (v, d)),
		forall|v: &Value, d: &mut DB, y: Result<T, Error<DB::Error>>| #[trigger] call_ensures(f, (v, d), y) && (*d).wf() && (*d).dbv() == old(db).dbv() ==> {
			&&& final(d).wf() && final(d).dbv() == (*d).dbv()
			&&& forall|k: Value| #[trigger] final(d).loose(k) == (*d).loose(k)
			&&& y matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok || e is CorruptedDatabase
		},
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		r matches Ok(x) ==> x.0@.len() == len && forall|i: int| 0 <= i < len ==> (#[trigger] elem(old(db).dbv().store, *root, len as nat, max_len, i) matches Some(v) && decoded(f, old(db), v, Ok(x.0@[i]))),
		r matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok
			|| e is CorruptedDatabase && exists|i: int| 0 <= i < len && (#[trigger] elem(old(db).dbv().store, *root, len as nat, max_len, i) matches Some(v) ==> decoded(f, old(db), v, Err(Error::CorruptedDatabase))),
//@ start
	let ghost s = db.dbv().store;
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ loop 0 spec
	invariant
		db.wf(), db.dbv() == old(db).dbv(), s == db.dbv().store,
		forall|k: Value| #[trigger] db.loose(k) == old(db).loose(k),
		i <= len, len > 0 ==> vector.shape(), vector.len == len, vector.max_len == max_len, vector.raw.root == *root,
		vector.vd() == vdep(len as nat, max_len),
		forall|v: &Value, d: &mut DB| (*d).wf() && (*d).dbv() == old(db).dbv() ==> #[trigger] call_requires(f, (v, d)),
		forall|v: &Value, d: &mut DB, y: Result<T, Error<DB::Error>>| #[trigger] call_ensures(f, (v, d), y) && (*d).wf() && (*d).dbv() == old(db).dbv() ==> {
			&&& final(d).wf() && final(d).dbv() == (*d).dbv()
			&&& forall|k: Value| #[trigger] final(d).loose(k) == (*d).loose(k)
			&&& y matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok || e is CorruptedDatabase
		},
		ret@.len() == i,
		forall|k: int| 0 <= k < i ==> (#[trigger] elem(s, *root, len as nat, max_len, k) matches Some(v) && decoded(f, old(db), v, Ok(ret@[k]))),
//@ loop 0 start
	proof { let e = elem(s, *root, len as nat, max_len, i as int); }
//@ after-stmt let value
	proof { assert(elem(s, *root, len as nat, max_len, i as int) == Some(value)); }
//@ impl FromCompositeVectorTree for ElementalFixedVec<T>
//@ ghost
	open spec fn vdecodes<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) -> bool {
		x.0@.len() == len && forall|i: int| 0 <= i < len ==> (#[trigger] elem(s, root, len, max, i) matches Some(v) && T::decodes::<K>(s, v, x.0@[i]))
	}
	open spec fn vlimits() -> bool { T::limits() }
	proof fn vdecodes_len<K: CompatibleConstruct>(s: Store, root: Value, len: nat, max: Option<u64>, x: Self) {}
//@ fn FromCompositeVectorTree for ElementalFixedVec<T>::from_composite_vector_tree
//@ closure 0
param 0 &Value
param 1 &mut DB
-> (y: Result<T, Error<DB::Error>>)
	requires old(db).wf(), T::limits()
	ensures
		final(db).wf(), final(db).dbv() == old(db).dbv(),
		forall|k: Value| #[trigger] final(db).loose(k) == old(db).loose(k),
		y matches Ok(x) ==> T::decodes::<DB::Construct>(old(db).dbv().store, *value, x),
		y matches Err(e) ==> e is Backend && !old(db).dbv().reads_ok || e is CorruptedDatabase && nothing::<T, DB::Construct>(old(db).dbv().store, *value)
//@ impl IntoCompactVectorTree for ElementalFixedVec<T>
//@ ghost
	open spec fn cenc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { ElementalFixedVecRef(slice_of(self.0@)).cenc::<K>(max) }
	open spec fn cstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool { ElementalFixedVecRef(slice_of(self.0@)).cstored::<K>(s, max) }
	open spec fn cfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(slice_of(self.0@)).cfits(max) }
	open spec fn caddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(slice_of(self.0@)).caddr(max) }
	proof fn cstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) { ElementalFixedVecRef(slice_of(self.0@)).cstored_more::<K>(s, t, max); }
//@ impl IntoCompositeVectorTree for ElementalFixedVec<T>
//@ ghost
	open spec fn venc<K: CompatibleConstruct>(&self, max: Option<u64>) -> Value { ElementalFixedVecRef(slice_of(self.0@)).venc::<K>(max) }
	open spec fn vstored<K: CompatibleConstruct>(&self, s: Store, max: Option<u64>) -> bool { ElementalFixedVecRef(slice_of(self.0@)).vstored::<K>(s, max) }
	open spec fn vfits(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(slice_of(self.0@)).vfits(max) }
	open spec fn vaddr(&self, max: Option<u64>) -> bool { ElementalFixedVecRef(slice_of(self.0@)).vaddr(max) }
	proof fn vstored_more<K: CompatibleConstruct>(&self, s: Store, t: Store, max: Option<u64>) { ElementalFixedVecRef(slice_of(self.0@)).vstored_more::<K>(s, t, max); }
