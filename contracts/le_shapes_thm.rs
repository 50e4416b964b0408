//! The round trip of the shapes with derived encodings. Written by
//! tools/mkshapes.py.
#![allow(unused_imports, dead_code, unused_variables)]
use vstd::prelude::*;
use crate::model::*;
use crate::util_model::*;
use crate::stubs::*;
use crate::le_stubs::*;
use crate::le_model::*;
use crate::le_lib::*;
use crate::le_vecs::*;
use crate::le_basic::*;
use crate::le_fixed::*;
use crate::le_elemental_fixed::*;
use crate::le_elemental_variable::*;
use crate::le_variable::*;
use crate::le_thm::*;
use crate::le_shapes::*;
use crate::traits::*;
verus! {
broadcast use {group_value, group_le_value, axiom_slice_of, crate::stubs::axiom_array_len, axiom_vecarray_len, crate::traits::wf_has_view};

/// No values encode as the empty value.
proof fn lemma_hollow<K: CompatibleConstruct>()
	ensures encv::<K>(Seq::<Value>::empty(), None) == dflt::<Value>(),
{ crate::vec_model::lemma_depth_of(0, 0); }
impl RoundTrip for Empty {
	open spec fn same(&self, y: &Self) -> bool { true }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			lemma_hollow::<K>();
	}
}
impl<A: RoundTrip> RoundTrip for One<A> {
	open spec fn same(&self, y: &Self) -> bool { self.a.same(&y.a) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.a.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.round::<K>(s, y.a);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.a.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.complete::<K>(s);
	}
}
impl<A: RoundTrip, B: RoundTrip> RoundTrip for Pair<A, B> {
	open spec fn same(&self, y: &Self) -> bool { self.0.same(&y.0) && self.1.same(&y.1) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.0.enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.0.round::<K>(s, y.0);
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.round::<K>(s, y.1);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.0.enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.0.complete::<K>(s);
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.complete::<K>(s);
	}
}
impl<A: RoundTrip, B: RoundTrip, C: RoundTrip> RoundTrip for Three<A, B, C> {
	open spec fn same(&self, y: &Self) -> bool { self.a.same(&y.a) && self.b.same(&y.b) && self.c.same(&y.c) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.a.enc::<K>(), self.b.enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.round::<K>(s, y.a);
			assert(v[1] == self.b.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.b.round::<K>(s, y.b);
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.round::<K>(s, y.c);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.a.enc::<K>(), self.b.enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.complete::<K>(s);
			assert(v[1] == self.b.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.b.complete::<K>(s);
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.complete::<K>(s);
	}
}
impl<A: RoundTrip, B: RoundTrip, C: RoundTrip, D: RoundTrip> RoundTrip for Four<A, B, C, D> {
	open spec fn same(&self, y: &Self) -> bool { self.w.same(&y.w) && self.x.same(&y.x) && self.y.same(&y.y) && self.z.same(&y.z) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.w.enc::<K>(), self.x.enc::<K>(), self.y.enc::<K>(), self.z.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.w.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.w.round::<K>(s, y.w);
			assert(v[1] == self.x.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.x.round::<K>(s, y.x);
			assert(v[2] == self.y.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.y.round::<K>(s, y.y);
			assert(v[3] == self.z.enc::<K>());
			assert(elem(s, k, v.len(), None, 3) == Some(v[3]));
			self.z.round::<K>(s, y.z);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.w.enc::<K>(), self.x.enc::<K>(), self.y.enc::<K>(), self.z.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.w.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.w.complete::<K>(s);
			assert(v[1] == self.x.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.x.complete::<K>(s);
			assert(v[2] == self.y.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.y.complete::<K>(s);
			assert(v[3] == self.z.enc::<K>());
			assert(elem(s, k, v.len(), None, 3) == Some(v[3]));
			self.z.complete::<K>(s);
	}
}
impl<A: RoundTrip, B: RoundTrip, C: RoundTrip, D: RoundTrip, E: RoundTrip, F: RoundTrip, G: RoundTrip, H: RoundTrip, I: RoundTrip> RoundTrip for Nine<A, B, C, D, E, F, G, H, I> {
	open spec fn same(&self, y: &Self) -> bool { self.a_.same(&y.a_) && self.b_.same(&y.b_) && self.c_.same(&y.c_) && self.d_.same(&y.d_) && self.e_.same(&y.e_) && self.f_.same(&y.f_) && self.g_.same(&y.g_) && self.h_.same(&y.h_) && self.i_.same(&y.i_) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.a_.enc::<K>(), self.b_.enc::<K>(), self.c_.enc::<K>(), self.d_.enc::<K>(), self.e_.enc::<K>(), self.f_.enc::<K>(), self.g_.enc::<K>(), self.h_.enc::<K>(), self.i_.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a_.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a_.round::<K>(s, y.a_);
			assert(v[1] == self.b_.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.b_.round::<K>(s, y.b_);
			assert(v[2] == self.c_.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c_.round::<K>(s, y.c_);
			assert(v[3] == self.d_.enc::<K>());
			assert(elem(s, k, v.len(), None, 3) == Some(v[3]));
			self.d_.round::<K>(s, y.d_);
			assert(v[4] == self.e_.enc::<K>());
			assert(elem(s, k, v.len(), None, 4) == Some(v[4]));
			self.e_.round::<K>(s, y.e_);
			assert(v[5] == self.f_.enc::<K>());
			assert(elem(s, k, v.len(), None, 5) == Some(v[5]));
			self.f_.round::<K>(s, y.f_);
			assert(v[6] == self.g_.enc::<K>());
			assert(elem(s, k, v.len(), None, 6) == Some(v[6]));
			self.g_.round::<K>(s, y.g_);
			assert(v[7] == self.h_.enc::<K>());
			assert(elem(s, k, v.len(), None, 7) == Some(v[7]));
			self.h_.round::<K>(s, y.h_);
			assert(v[8] == self.i_.enc::<K>());
			assert(elem(s, k, v.len(), None, 8) == Some(v[8]));
			self.i_.round::<K>(s, y.i_);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.a_.enc::<K>(), self.b_.enc::<K>(), self.c_.enc::<K>(), self.d_.enc::<K>(), self.e_.enc::<K>(), self.f_.enc::<K>(), self.g_.enc::<K>(), self.h_.enc::<K>(), self.i_.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a_.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a_.complete::<K>(s);
			assert(v[1] == self.b_.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.b_.complete::<K>(s);
			assert(v[2] == self.c_.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c_.complete::<K>(s);
			assert(v[3] == self.d_.enc::<K>());
			assert(elem(s, k, v.len(), None, 3) == Some(v[3]));
			self.d_.complete::<K>(s);
			assert(v[4] == self.e_.enc::<K>());
			assert(elem(s, k, v.len(), None, 4) == Some(v[4]));
			self.e_.complete::<K>(s);
			assert(v[5] == self.f_.enc::<K>());
			assert(elem(s, k, v.len(), None, 5) == Some(v[5]));
			self.f_.complete::<K>(s);
			assert(v[6] == self.g_.enc::<K>());
			assert(elem(s, k, v.len(), None, 6) == Some(v[6]));
			self.g_.complete::<K>(s);
			assert(v[7] == self.h_.enc::<K>());
			assert(elem(s, k, v.len(), None, 7) == Some(v[7]));
			self.h_.complete::<K>(s);
			assert(v[8] == self.i_.enc::<K>());
			assert(elem(s, k, v.len(), None, 8) == Some(v[8]));
			self.i_.complete::<K>(s);
	}
}
impl<A: RoundTrip, B: RoundTrip, C: RoundTrip, D: RoundTrip, E: RoundTrip> RoundTrip for Five<A, B, C, D, E> {
	open spec fn same(&self, y: &Self) -> bool { self.0.same(&y.0) && self.1.same(&y.1) && self.2.same(&y.2) && self.3.same(&y.3) && self.4.same(&y.4) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.0.round::<K>(s, y.0);
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.round::<K>(s, y.1);
			assert(v[2] == self.2.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.2.round::<K>(s, y.2);
			assert(v[3] == self.3.enc::<K>());
			assert(elem(s, k, v.len(), None, 3) == Some(v[3]));
			self.3.round::<K>(s, y.3);
			assert(v[4] == self.4.enc::<K>());
			assert(elem(s, k, v.len(), None, 4) == Some(v[4]));
			self.4.round::<K>(s, y.4);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.0.enc::<K>(), self.1.enc::<K>(), self.2.enc::<K>(), self.3.enc::<K>(), self.4.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.0.complete::<K>(s);
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.complete::<K>(s);
			assert(v[2] == self.2.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.2.complete::<K>(s);
			assert(v[3] == self.3.enc::<K>());
			assert(elem(s, k, v.len(), None, 3) == Some(v[3]));
			self.3.complete::<K>(s);
			assert(v[4] == self.4.enc::<K>());
			assert(elem(s, k, v.len(), None, 4) == Some(v[4]));
			self.4.complete::<K>(s);
	}
}
impl<A: RoundTrip, C: RoundTrip, ML: Unsigned> RoundTrip for Packed<A, MaxVec<u8, ML>, C> {
	open spec fn same(&self, y: &Self) -> bool { self.a.same(&y.a) && Compact(self.b).same(&Compact(y.b)) && self.c.same(&y.c) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.round::<K>(s, y.a);
			assert(v[1] == CompactRef(&self.b).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(self.b).round::<K>(s, Compact(y.b));
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.round::<K>(s, y.c);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.complete::<K>(s);
			assert(v[1] == CompactRef(&self.b).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(self.b).complete::<K>(s);
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.complete::<K>(s);
	}
}
impl<A: RoundTrip, C: RoundTrip, ML: Unsigned> RoundTrip for Packed<A, MaxVec<bool, ML>, C> {
	open spec fn same(&self, y: &Self) -> bool { self.a.same(&y.a) && Compact(self.b).same(&Compact(y.b)) && self.c.same(&y.c) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.round::<K>(s, y.a);
			assert(v[1] == CompactRef(&self.b).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(self.b).round::<K>(s, Compact(y.b));
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.round::<K>(s, y.c);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.complete::<K>(s);
			assert(v[1] == CompactRef(&self.b).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(self.b).complete::<K>(s);
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.complete::<K>(s);
	}
}
impl<A: RoundTrip, C: RoundTrip, L: ArrayLength<u64>> RoundTrip for Packed<A, GenericArray<u64, L>, C> {
	open spec fn same(&self, y: &Self) -> bool { self.a.same(&y.a) && Compact(self.b).same(&Compact(y.b)) && self.c.same(&y.c) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.round::<K>(s, y.a);
			assert(v[1] == CompactRef(&self.b).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(self.b).round::<K>(s, Compact(y.b));
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.round::<K>(s, y.c);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.complete::<K>(s);
			assert(v[1] == CompactRef(&self.b).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(self.b).complete::<K>(s);
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.complete::<K>(s);
	}
}
impl<A: RoundTrip, C: RoundTrip, L: Unsigned> RoundTrip for Packed<A, VecArray<bool, L>, C> {
	open spec fn same(&self, y: &Self) -> bool { self.a.same(&y.a) && Compact(self.b).same(&Compact(y.b)) && self.c.same(&y.c) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.round::<K>(s, y.a);
			assert(v[1] == CompactRef(&self.b).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(self.b).round::<K>(s, Compact(y.b));
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.round::<K>(s, y.c);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![self.a.enc::<K>(), CompactRef(&self.b).enc::<K>(), self.c.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == self.a.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			self.a.complete::<K>(s);
			assert(v[1] == CompactRef(&self.b).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(self.b).complete::<K>(s);
			assert(v[2] == self.c.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			self.c.complete::<K>(s);
	}
}
impl<B: RoundTrip, ML: Unsigned> RoundTrip for Bits<MaxVec<u8, ML>, B> {
	open spec fn same(&self, y: &Self) -> bool { Compact(self.0).same(&Compact(y.0)) && self.1.same(&y.1) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == CompactRef(&self.0).enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			Compact(self.0).round::<K>(s, Compact(y.0));
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.round::<K>(s, y.1);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == CompactRef(&self.0).enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			Compact(self.0).complete::<K>(s);
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.complete::<K>(s);
	}
}
impl<B: RoundTrip, ML: Unsigned> RoundTrip for Bits<MaxVec<bool, ML>, B> {
	open spec fn same(&self, y: &Self) -> bool { Compact(self.0).same(&Compact(y.0)) && self.1.same(&y.1) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == CompactRef(&self.0).enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			Compact(self.0).round::<K>(s, Compact(y.0));
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.round::<K>(s, y.1);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == CompactRef(&self.0).enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			Compact(self.0).complete::<K>(s);
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.complete::<K>(s);
	}
}
impl<B: RoundTrip, L: ArrayLength<u64>> RoundTrip for Bits<GenericArray<u64, L>, B> {
	open spec fn same(&self, y: &Self) -> bool { Compact(self.0).same(&Compact(y.0)) && self.1.same(&y.1) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == CompactRef(&self.0).enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			Compact(self.0).round::<K>(s, Compact(y.0));
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.round::<K>(s, y.1);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == CompactRef(&self.0).enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			Compact(self.0).complete::<K>(s);
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.complete::<K>(s);
	}
}
impl<B: RoundTrip, L: Unsigned> RoundTrip for Bits<VecArray<bool, L>, B> {
	open spec fn same(&self, y: &Self) -> bool { Compact(self.0).same(&Compact(y.0)) && self.1.same(&y.1) }
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
			let v = seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == CompactRef(&self.0).enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			Compact(self.0).round::<K>(s, Compact(y.0));
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.round::<K>(s, y.1);
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
			let v = seq![CompactRef(&self.0).enc::<K>(), self.1.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == CompactRef(&self.0).enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			Compact(self.0).complete::<K>(s);
			assert(v[1] == self.1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			self.1.complete::<K>(s);
	}
}
impl<A: RoundTrip> RoundTrip for Choice<A> {
	open spec fn same(&self, y: &Self) -> bool {
		match (self, y) {
			(Choice::Just(x0), Choice::Just(y0)) => x0.same(y0),

		}
	}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		lemma_maxes();
		match (self, &y) {
			(Choice::Just(x0), Choice::Just(y0)) => {
			lemma_two::<K>(s, encv::<K>(seq![x0.enc::<K>()], None), 0);
			let v = seq![x0.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == x0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			x0.round::<K>(s, *y0);
			},
		}
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		lemma_maxes();
		lemma_hollow::<K>();
		match (self, self) {
			(Choice::Just(x0), Choice::Just(y0)) => {
			lemma_two::<K>(s, encv::<K>(seq![x0.enc::<K>()], None), 0);
			let v = seq![x0.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == x0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			x0.complete::<K>(s);
			},

		}
	}
}
impl<A: RoundTrip, B: RoundTrip, C: RoundTrip> RoundTrip for Mixed<A, B, C> {
	open spec fn same(&self, y: &Self) -> bool {
		match (self, y) {
			(Mixed::Nothing, Mixed::Nothing) => true,
			(Mixed::Named { a: xa, b: xb }, Mixed::Named { a: ya, b: yb }) => xa.same(ya) && xb.same(yb),
			(Mixed::Tuple(x0, x1, x2), Mixed::Tuple(y0, y1, y2)) => x0.same(y0) && x1.same(y1) && x2.same(y2),
			(Mixed::Single(x0), Mixed::Single(y0)) => x0.same(y0),
			(Mixed::Last, Mixed::Last) => true,
			(Mixed::Braced {  }, Mixed::Braced {  }) => true,
			(Mixed::Round(), Mixed::Round()) => true,
			_ => false,
		}
	}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		lemma_maxes();
		match (self, &y) {
			(Mixed::Nothing, Mixed::Nothing) => {
			lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 0);
			
			},
			(Mixed::Named { a: xa, b: xb }, Mixed::Named { a: ya, b: yb }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>(), xb.enc::<K>()], None), 1);
			let v = seq![xa.enc::<K>(), xb.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.round::<K>(s, *ya);
			assert(v[1] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			xb.round::<K>(s, *yb);
			},
			(Mixed::Tuple(x0, x1, x2), Mixed::Tuple(y0, y1, y2)) => {
			lemma_two::<K>(s, encv::<K>(seq![x0.enc::<K>(), x1.enc::<K>(), x2.enc::<K>()], None), 2);
			let v = seq![x0.enc::<K>(), x1.enc::<K>(), x2.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == x0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			x0.round::<K>(s, *y0);
			assert(v[1] == x1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			x1.round::<K>(s, *y1);
			assert(v[2] == x2.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			x2.round::<K>(s, *y2);
			},
			(Mixed::Single(x0), Mixed::Single(y0)) => {
			lemma_two::<K>(s, encv::<K>(seq![x0.enc::<K>()], None), 3);
			let v = seq![x0.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == x0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			x0.round::<K>(s, *y0);
			},
			(Mixed::Last, Mixed::Last) => {
			lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 4);
			
			},
			(Mixed::Braced {  }, Mixed::Braced {  }) => {
			lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 5);
			
			},
			(Mixed::Round(), Mixed::Round()) => {
			lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 6);
			
			},
			_ => {
				// another variant has another selector
				match self {
					Mixed::Nothing => { lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 0); }
					Mixed::Named { a: _xa, b: _xb } => { lemma_two::<K>(s, encv::<K>(seq![_xa.enc::<K>(), _xb.enc::<K>()], None), 1); }
					Mixed::Tuple(_x0, _x1, _x2) => { lemma_two::<K>(s, encv::<K>(seq![_x0.enc::<K>(), _x1.enc::<K>(), _x2.enc::<K>()], None), 2); }
					Mixed::Single(_x0) => { lemma_two::<K>(s, encv::<K>(seq![_x0.enc::<K>()], None), 3); }
					Mixed::Last => { lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 4); }
					Mixed::Braced {  } => { lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 5); }
					Mixed::Round() => { lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 6); }
				}
			},
		}
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		lemma_maxes();
		lemma_hollow::<K>();
		match (self, self) {
			(Mixed::Nothing, Mixed::Nothing) => {
			lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 0);
			
			},
			(Mixed::Named { a: xa, b: xb }, Mixed::Named { a: ya, b: yb }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>(), xb.enc::<K>()], None), 1);
			let v = seq![xa.enc::<K>(), xb.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.complete::<K>(s);
			assert(v[1] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			xb.complete::<K>(s);
			},
			(Mixed::Tuple(x0, x1, x2), Mixed::Tuple(y0, y1, y2)) => {
			lemma_two::<K>(s, encv::<K>(seq![x0.enc::<K>(), x1.enc::<K>(), x2.enc::<K>()], None), 2);
			let v = seq![x0.enc::<K>(), x1.enc::<K>(), x2.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == x0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			x0.complete::<K>(s);
			assert(v[1] == x1.enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			x1.complete::<K>(s);
			assert(v[2] == x2.enc::<K>());
			assert(elem(s, k, v.len(), None, 2) == Some(v[2]));
			x2.complete::<K>(s);
			},
			(Mixed::Single(x0), Mixed::Single(y0)) => {
			lemma_two::<K>(s, encv::<K>(seq![x0.enc::<K>()], None), 3);
			let v = seq![x0.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == x0.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			x0.complete::<K>(s);
			},
			(Mixed::Last, Mixed::Last) => {
			lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 4);
			
			},
			(Mixed::Braced {  }, Mixed::Braced {  }) => {
			lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 5);
			
			},
			(Mixed::Round(), Mixed::Round()) => {
			lemma_two::<K>(s, encv::<K>(Seq::<Value>::empty(), None), 6);
			
			},
			_ => {},
		}
	}
}
impl<B: RoundTrip, ML: Unsigned> RoundTrip for Dense<MaxVec<u8, ML>, B> {
	open spec fn same(&self, y: &Self) -> bool {
		match (self, y) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => xa.same(ya),
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => xb.same(yb) && Compact(*xa).same(&Compact(*ya)),
			_ => false,
		}
	}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		lemma_maxes();
		match (self, &y) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>()], None), 0);
			let v = seq![xa.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.round::<K>(s, *ya);
			},
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()], None), 1);
			let v = seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xb.round::<K>(s, *yb);
			assert(v[1] == CompactRef(xa).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(*xa).round::<K>(s, Compact(*ya));
			},
			_ => {
				// another variant has another selector
				match self {
					Dense::Plain { a: _xa } => { lemma_two::<K>(s, encv::<K>(seq![_xa.enc::<K>()], None), 0); }
					Dense::Compact { b: _xb, a: _xa } => { lemma_two::<K>(s, encv::<K>(seq![_xb.enc::<K>(), CompactRef(_xa).enc::<K>()], None), 1); }
				}
			},
		}
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		lemma_maxes();
		lemma_hollow::<K>();
		match (self, self) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>()], None), 0);
			let v = seq![xa.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.complete::<K>(s);
			},
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()], None), 1);
			let v = seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xb.complete::<K>(s);
			assert(v[1] == CompactRef(xa).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(*xa).complete::<K>(s);
			},
			_ => {},
		}
	}
}
impl<B: RoundTrip, ML: Unsigned> RoundTrip for Dense<MaxVec<bool, ML>, B> {
	open spec fn same(&self, y: &Self) -> bool {
		match (self, y) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => xa.same(ya),
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => xb.same(yb) && Compact(*xa).same(&Compact(*ya)),
			_ => false,
		}
	}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		lemma_maxes();
		match (self, &y) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>()], None), 0);
			let v = seq![xa.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.round::<K>(s, *ya);
			},
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()], None), 1);
			let v = seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xb.round::<K>(s, *yb);
			assert(v[1] == CompactRef(xa).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(*xa).round::<K>(s, Compact(*ya));
			},
			_ => {
				// another variant has another selector
				match self {
					Dense::Plain { a: _xa } => { lemma_two::<K>(s, encv::<K>(seq![_xa.enc::<K>()], None), 0); }
					Dense::Compact { b: _xb, a: _xa } => { lemma_two::<K>(s, encv::<K>(seq![_xb.enc::<K>(), CompactRef(_xa).enc::<K>()], None), 1); }
				}
			},
		}
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		lemma_maxes();
		lemma_hollow::<K>();
		match (self, self) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>()], None), 0);
			let v = seq![xa.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.complete::<K>(s);
			},
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()], None), 1);
			let v = seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xb.complete::<K>(s);
			assert(v[1] == CompactRef(xa).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(*xa).complete::<K>(s);
			},
			_ => {},
		}
	}
}
impl<B: RoundTrip, L: ArrayLength<u64>> RoundTrip for Dense<GenericArray<u64, L>, B> {
	open spec fn same(&self, y: &Self) -> bool {
		match (self, y) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => xa.same(ya),
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => xb.same(yb) && Compact(*xa).same(&Compact(*ya)),
			_ => false,
		}
	}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		lemma_maxes();
		match (self, &y) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>()], None), 0);
			let v = seq![xa.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.round::<K>(s, *ya);
			},
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()], None), 1);
			let v = seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xb.round::<K>(s, *yb);
			assert(v[1] == CompactRef(xa).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(*xa).round::<K>(s, Compact(*ya));
			},
			_ => {
				// another variant has another selector
				match self {
					Dense::Plain { a: _xa } => { lemma_two::<K>(s, encv::<K>(seq![_xa.enc::<K>()], None), 0); }
					Dense::Compact { b: _xb, a: _xa } => { lemma_two::<K>(s, encv::<K>(seq![_xb.enc::<K>(), CompactRef(_xa).enc::<K>()], None), 1); }
				}
			},
		}
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		lemma_maxes();
		lemma_hollow::<K>();
		match (self, self) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>()], None), 0);
			let v = seq![xa.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.complete::<K>(s);
			},
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()], None), 1);
			let v = seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xb.complete::<K>(s);
			assert(v[1] == CompactRef(xa).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(*xa).complete::<K>(s);
			},
			_ => {},
		}
	}
}
impl<B: RoundTrip, L: Unsigned> RoundTrip for Dense<VecArray<bool, L>, B> {
	open spec fn same(&self, y: &Self) -> bool {
		match (self, y) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => xa.same(ya),
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => xb.same(yb) && Compact(*xa).same(&Compact(*ya)),
			_ => false,
		}
	}
	proof fn round<K: CompatibleConstruct>(&self, s: Store, y: Self) {
		lemma_maxes();
		match (self, &y) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>()], None), 0);
			let v = seq![xa.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.round::<K>(s, *ya);
			},
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()], None), 1);
			let v = seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xb.round::<K>(s, *yb);
			assert(v[1] == CompactRef(xa).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(*xa).round::<K>(s, Compact(*ya));
			},
			_ => {
				// another variant has another selector
				match self {
					Dense::Plain { a: _xa } => { lemma_two::<K>(s, encv::<K>(seq![_xa.enc::<K>()], None), 0); }
					Dense::Compact { b: _xb, a: _xa } => { lemma_two::<K>(s, encv::<K>(seq![_xb.enc::<K>(), CompactRef(_xa).enc::<K>()], None), 1); }
				}
			},
		}
	}
	proof fn complete<K: CompatibleConstruct>(&self, s: Store) {
		lemma_maxes();
		lemma_hollow::<K>();
		match (self, self) {
			(Dense::Plain { a: xa }, Dense::Plain { a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xa.enc::<K>()], None), 0);
			let v = seq![xa.enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xa.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xa.complete::<K>(s);
			},
			(Dense::Compact { b: xb, a: xa }, Dense::Compact { b: yb, a: ya }) => {
			lemma_two::<K>(s, encv::<K>(seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()], None), 1);
			let v = seq![xb.enc::<K>(), CompactRef(xa).enc::<K>()];
			lemma_storedv::<K>(s, v, None);
			let k = encv::<K>(v, None);
			assert(v[0] == xb.enc::<K>());
			assert(elem(s, k, v.len(), None, 0) == Some(v[0]));
			xb.complete::<K>(s);
			assert(v[1] == CompactRef(xa).enc::<K>());
			assert(elem(s, k, v.len(), None, 1) == Some(v[1]));
			Compact(*xa).complete::<K>(s);
			},
			_ => {},
		}
	}
}
} // verus!
