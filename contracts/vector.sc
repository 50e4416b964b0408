//@ split-trait Construct empty_at => EmptyConstruct
//@ prelude
use crate::model::*;
use crate::vec_model::*;
use crate::raw_thm::*;
use crate::index::IndexSelection;
use crate::traits::EmptyConstruct;
broadcast use {group_value, crate::model::group_shift, crate::traits::wf_has_view};
//@ item const ROOT_INDEX
//@ const-spec
	ensures ROOT_INDEX.v() == 1
//@ item const EXTEND_INDEX
//@ const-spec
	ensures EXTEND_INDEX.v() == 2
//@ item const EMPTY_INDEX
//@ const-spec
	ensures EMPTY_INDEX.v() == 3
//@ item struct Vector
//@ after
impl<R: RootStatus, C: EmptyConstruct> Vector<R, C> {
	/// Its length and maximum are ones an index can address.
	pub open spec fn shape(&self) -> bool { shape_ok(self.len as nat, self.max_len) }
	pub open spec fn vd(&self) -> nat { vdepth(self.len as nat, self.max_len) }
	pub open spec fn rt(&self) -> C::Value { self.raw.root }
	/// The database holds this vector, with these elements.
	pub open spec fn holds_elems(&self, db: DbView<C>, v: Seq<C::Value>) -> bool {
		v.len() == self.len && tree_ok::<C>(db.store, self.raw.root, self.vd(), v)
	}
}
//@ fn Vector::raw_index
//@ ret r
//@ spec
	requires self.shape(), i < pow2(self.vd()),
	ensures r.v() == pow2(self.vd()) + i, path(r.v()) == bits_be(i as nat, self.vd()), r.v() >= 1,
//@ start
	proof {
		lemma_shape(self.len as nat, self.max_len);
		lemma_path_from_depth(i as nat, self.vd());
	}
//@ fn Vector::extend
//@ ret r
//@ spec
	requires
		old(db).wf(), old(self).shape(), old(self).vd() < 63,
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(e) ==> e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r is Ok ==> {
			&&& final(self).len == old(self).len && final(self).max_len == old(self).max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& old(db).dbv().retains
			&&& forall|v: Seq<C::Value>| v.len() == pow2(old(self).vd()) && #[trigger] tree_ok::<C>(old(db).dbv().store, old(self).rt(), old(self).vd(), v)
				==> tree_ok::<C>(final(db).dbv().store, final(self).rt(), old(self).vd() + 1, v)
		},
		r is Ok && !R::dangling() ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ start
	proof { lemma_ext_paths(); }
	let ghost d0 = db.dbv();
	let ghost r0 = self.raw.root;
	let ghost vd = self.vd();
//@ after-stmt let empty
	let ghost da = db.dbv();
	proof { lemma_moved_empties::<C>(R::dangling(), d0, r0, vd); }
//@ after-stmt #0 new_raw.set
	let ghost dbb = db.dbv();
	let ghost nb = new_raw.root;
//@ after-stmt #1 new_raw.set
	let ghost dc = db.dbv();
	proof { lemma_extend_mid::<C>(R::dangling(), d0, r0, vd, da, dbb, nb, dc, new_raw.root); }
//@ after-stmt self.raw.set
	proof { lemma_extend::<C>(R::dangling(), d0, r0, vd, da, dbb, nb, dc, new_raw.root, db.dbv(), self.raw.root); }
//@ fn Vector::shrink
//@ ret r
//@ spec
	requires
		old(db).wf(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(e) ==> e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r is Ok ==> {
			let x = match walk(old(db).dbv().store, old(self).rt(), seq![IndexSelection::Left]) { Some(x) => x, None => dflt::<C::Value>() };
			&&& final(self).len == old(self).len && final(self).max_len == old(self).max_len
			&&& final(self).rt() == x
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& old(db).dbv().retains
			&&& kept(old(db).dbv().store, final(db).dbv().store, x)
		},
		r is Ok && !R::dangling() ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ start
	proof { lemma_ext_paths(); }
	let ghost d0 = db.dbv();
	let ghost r0 = self.raw.root;
//@ tail ok
	proof { lemma_moved_set::<C>(R::dangling(), d0, r0, Seq::empty(), self.raw.root, db.dbv(), self.raw.root); }
//@ fn Vector::current_max_len
//@ ret r
//@ spec
	requires self.shape(),
	ensures
		self.max_len matches Some(m) ==> r == m,
		self.max_len is None ==> r == pow2(self.vd()),
//@ start
	proof { lemma_shape(self.len as nat, self.max_len); lemma2_to64(); }
	let ghost mut k: nat = 0;
//@ loop 0 spec
	invariant
		max_len == pow2(k), k > 0 ==> pow2((k - 1) as nat) < self.len,
		self.len <= 0x8000_0000_0000_0000,
	decreases 0x1_0000_0000_0000_0000 - max_len,
//@ loop 0 start
	proof { lemma_half(k + 1); lemma_pow2_pos(k); k = k + 1; }
//@ loop 0 after
	proof { lemma_depth_of(k, self.len as nat); }
//@ fn Vector::max_len
//@ ret r
//@ spec
	ensures r == self.max_len,
//@ fn Vector::depth
//@ ret r
//@ spec
	requires self.shape(),
	ensures r == self.vd(),
//@ start
	proof {
		lemma_shape(self.len as nat, self.max_len); lemma2_to64();
		lemma_pow2_pos(self.vd());
		if self.vd() > 0 { lemma_half(self.vd()); }
		lemma_depth_of(self.vd(), pow2(self.vd()));
	}
	let ghost cap: nat = match self.max_len { Some(m) => m as nat, None => pow2(self.vd()) };
//@ loop 0 spec
	invariant
		self.shape(), cap <= 0x8000_0000_0000_0000, cap == (match self.max_len { Some(m) => m as nat, None => pow2(self.vd()) }),
		max_len == pow2(depth as nat), depth > 0 ==> pow2((depth - 1) as nat) < cap, depth <= max_len,
	decreases 0x1_0000_0000_0000_0000 - max_len,
//@ loop 0 start
	proof { lemma_half((depth + 1) as nat); lemma_pow2_pos(depth as nat); }
//@ loop 0 after
	proof { lemma_depth_of(depth as nat, cap); }
//@ fn Vector::get
//@ ret r
//@ spec
	requires old(db).wf(), self.shape(),
	ensures
		final(db).wf(),
		final(db).dbv() == old(db).dbv(),
		r matches Err(Error::AccessOverflowed) <==> index >= self.len,
		r matches Err(e) ==> e is AccessOverflowed || e is CorruptedDatabase || e is Backend && !old(db).dbv().reads_ok,
		forall|v: Seq<C::Value>| #[trigger] self.holds_elems(old(db).dbv(), v) ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(x) ==> forall|v: Seq<C::Value>| #[trigger] self.holds_elems(old(db).dbv(), v) ==> x == v[index as int],
		r matches Ok(x) ==> walk(old(db).dbv().store, self.raw.root, bits_be(index as nat, self.vd())) == Some(x),
		r matches Err(Error::CorruptedDatabase) ==> walk(old(db).dbv().store, self.raw.root, bits_be(index as nat, self.vd())) is None,
		forall|k: C::Value| #[trigger] final(db).loose(k) == old(db).loose(k),
//@ start
	proof {
		lemma_shape(self.len as nat, self.max_len);
		assert forall|v: Seq<C::Value>| #[trigger] self.holds_elems(db.dbv(), v) && index < self.len
			implies walk(db.dbv().store, self.raw.root, bits_be(index as nat, self.vd())) == Some(v[index as int]) by {
			lemma_tree_get::<C>(db.dbv().store, self.raw.root, self.vd(), v, index as nat);
		}
	}
//@ fn Vector::set
//@ ret r
//@ spec
	requires
		old(db).wf(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> index >= old(self).len,
		r matches Err(Error::AccessOverflowed) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r is Ok ==> {
			&&& final(self).len == old(self).len && final(self).max_len == old(self).max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& forall|v: Seq<C::Value>| #[trigger] old(self).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
				==> final(self).holds_elems(final(db).dbv(), v.update(index as int, value))
		},
		r is Ok && !R::dangling() ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ start
	proof { lemma_shape(self.len as nat, self.max_len); }
//@ after-stmt self.raw.set
	proof {
		lemma_vec_write::<C>(R::dangling(), old(db).dbv(), old(self).raw.root, old(self).vd(), index as nat, value, db.dbv(), self.raw.root);
		assert forall|v: Seq<C::Value>| #[trigger] old(self).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
			implies self.holds_elems(db.dbv(), v.update(index as int, value)) by {
			assert(put(v, index as int, value) == v.update(index as int, value));
		}
	}
//@ fn Vector::push
//@ ret r
//@ spec
	requires
		old(db).wf(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::AccessOverflowed) <==> full(old(self).len as nat, old(self).max_len),
		r matches Err(Error::AccessOverflowed) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is AccessOverflowed || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r is Ok ==> {
			&&& final(self).shape()
			&&& final(self).len == old(self).len + 1 && final(self).max_len == old(self).max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& forall|v: Seq<C::Value>| #[trigger] old(self).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
				==> final(self).holds_elems(final(db).dbv(), v.push(value))
		},
		r is Ok && !R::dangling() ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ start
	proof {
		lemma_shape(self.len as nat, self.max_len);
		if self.max_len is None && self.len < pow2(63) { lemma_depth_grow(self.len as nat); lemma_pow2_63(self.vd()); }
		lemma_moved_refl::<C>(R::dangling(), db.dbv(), self.raw.root);
	}
//@ before-stmt let raw_index
	let ghost dm = db.dbv();
	let ghost rm = self.raw.root;
	proof {
		lemma_shape(self.len as nat, self.max_len);
		assert(moved(R::dangling(), old(db).dbv(), old(self).raw.root, dm, rm));
		assert forall|v: Seq<C::Value>| #[trigger] old(self).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
			implies tree_ok::<C>(dm.store, rm, self.vd(), v) by {
			assert(tree_ok::<C>(old(db).dbv().store, old(self).rt(), old(self).vd(), v));
			assert(v.len() == old_len);
			if old(self).max_len is None && old_len as nat == pow2(old(self).vd()) {
				lemma_pow2_pos(old(self).vd());
				assert(self.vd() == old(self).vd() + 1);
			} else { assert(self.vd() == old(self).vd()); }
		}
	}
//@ after-stmt self.raw.set
	proof {
		lemma_vec_write::<C>(R::dangling(), dm, rm, self.vd(), index as nat, value, db.dbv(), self.raw.root);
		lemma_moved_trans::<C>(R::dangling(), old(db).dbv(), old(self).raw.root, dm, rm, db.dbv(), self.raw.root);
		assert forall|v: Seq<C::Value>| #[trigger] old(self).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
			implies self.holds_elems(db.dbv(), v.push(value)) by {
			assert(tree_ok::<C>(dm.store, rm, self.vd(), v));
			assert(put(v, index as int, value) == v.push(value));
		}
	}
//@ fn Vector::pop
//@ ret r
//@ spec
	requires
		old(db).wf(), old(self).shape(),
		!R::dangling() ==> old(db).dbv().holds(old(self).rt()),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Ok(None) <==> old(self).len == 0,
		r matches Ok(None) ==> *final(self) == *old(self) && final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is CorruptedDatabase || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		forall|v: Seq<C::Value>| #[trigger] old(self).holds_elems(old(db).dbv(), v) ==> !(r matches Err(Error::CorruptedDatabase)),
		r matches Ok(Some(x)) ==> {
			&&& final(self).shape()
			&&& final(self).len == old(self).len - 1 && final(self).max_len == old(self).max_len
			&&& moved(R::dangling(), old(db).dbv(), old(self).rt(), final(db).dbv(), final(self).rt())
			&&& forall|v: Seq<C::Value>| #[trigger] old(self).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
				==> x == v.last() && final(self).holds_elems(final(db).dbv(), v.drop_last())
		},
		r is Ok && !R::dangling() ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ start
	proof {
		lemma_shape(self.len as nat, self.max_len);
		lemma2_to64();
		if self.len > 0 && self.max_len is None { lemma_depth_shrink(self.len as nat); }
		if self.vd() > 0 { lemma_half(self.vd()); }
		assert forall|v: Seq<C::Value>| #[trigger] self.holds_elems(db.dbv(), v) && self.len > 0
			implies walk(db.dbv().store, self.raw.root, bits_be((self.len - 1) as nat, self.vd())) == Some(v.last()) by {
			lemma_tree_get::<C>(db.dbv().store, self.raw.root, self.vd(), v, (self.len - 1) as nat);
		}
		if self.len > 0 { lemma_climb(self.vd(), (self.len - 1) as nat, 0, pow2(self.vd()) + (self.len - 1) as nat); }
	}
//@ loop 0 spec
	invariant
		raw_index.v() == pow2(old(self).vd()) + index,
		empty_depth_to_bottom <= old(self).vd(), old(self).vd() <= 63, index < pow2(old(self).vd()),
		replace_index.v() == pow2((old(self).vd() - empty_depth_to_bottom) as nat) + index as nat / pow2(empty_depth_to_bottom as nat),
		index as nat % pow2(empty_depth_to_bottom as nat) == 0,
		replace_index.v() >= 1, replace_index.v() == 1 ==> empty_depth_to_bottom == old(self).vd(),
	ensures
		starts_subtree(index as nat, old(self).vd(), empty_depth_to_bottom as nat),
	decreases old(self).vd() - empty_depth_to_bottom,
//@ loop 0 start
	proof { lemma_climb(old(self).vd(), index as nat, empty_depth_to_bottom as nat, replace_index.v()); }
//@ loop 0 end
	proof { lemma_climb(old(self).vd(), index as nat, empty_depth_to_bottom as nat, replace_index.v()); }
//@ loop 0 after
	proof { lemma_climb(old(self).vd(), index as nat, empty_depth_to_bottom as nat, replace_index.v()); }
//@ after-stmt let empty
	let ghost da = db.dbv();
	proof { lemma_moved_empties::<C>(R::dangling(), old(db).dbv(), old(self).raw.root, empty_depth_to_bottom as nat); }
//@ after-stmt self.raw.set
	let ghost dw = db.dbv();
	let ghost rw = self.raw.root;
	proof {
		lemma_vec_cut::<C>(R::dangling(), old(db).dbv(), old(self).raw.root, old(self).vd(), index as nat, empty_depth_to_bottom as nat, dw, rw);
		lemma_dflt_not_stored::<C>(dw.store);
		lemma_ext_paths();
		lemma_moved_refl::<C>(R::dangling(), dw, rw);
	}
//@ after-stmt self.len = len
	proof {
		lemma_shape(self.len as nat, self.max_len);
		lemma_moved_trans::<C>(R::dangling(), old(db).dbv(), old(self).raw.root, dw, rw, db.dbv(), self.raw.root);
		assert forall|v: Seq<C::Value>| #[trigger] old(self).holds_elems(old(db).dbv(), v) && old(db).dbv().retains
			implies value == v.last() && self.holds_elems(db.dbv(), v.drop_last()) by {
			let d = old(self).vd();
			assert(tree_ok::<C>(dw.store, rw, d, v.drop_last()));
			if self.max_len is None && len as nat <= pow2(d) / 2 {
				if d == 0 { assert(v.drop_last() =~= Seq::empty()); }
				else {
					lemma_tree_left::<C>(dw.store, rw, d, v.drop_last());
					lemma_tree_kept::<C>(dw.store, db.dbv().store, self.raw.root, (d - 1) as nat, v.drop_last());
				}
			}
		}
	}
//@ fn Vector::len
//@ ret r
//@ spec
	ensures r == self.len,
//@ fn Vector::from_raw
//@ ret r
//@ spec
	ensures r.raw == raw, r.len == len, r.max_len == max_len,
//@ impl Tree for Vector
//@ ghost
	open spec fn root_s(&self) -> C::Value { self.raw.root }
//@ impl Sequence for Vector
//@ ghost
	open spec fn len_s(&self) -> nat { self.len as nat }
//@ impl Leak for Vector
//@ ghost
	open spec fn meta(&self) -> (C::Value, usize, Option<u64>) { (self.raw.root, self.len, self.max_len) }
	open spec fn leak_ok(m: (C::Value, usize, Option<u64>)) -> bool { true }
	open spec fn leaked_form(&self) -> bool { true }
//@ fn Vector::create
//@ ret r
//@ spec
	requires
		old(db).wf(),
		max_len matches Some(m) ==> m <= pow2(63),
		max_len is None ==> len <= pow2(63),
	ensures
		final(db).wf(),
		final(db).dbv().same_flags(old(db).dbv()),
		r matches Err(Error::InvalidParameter) <==> (max_len matches Some(m) && (len > m || m == 0)),
		r matches Err(Error::InvalidParameter) ==> final(db).dbv() == old(db).dbv(),
		r matches Err(e) ==> e is InvalidParameter || e is Backend && !(old(db).dbv().reads_ok && old(db).dbv().writes_ok),
		r matches Ok(t) ==> {
			&&& t.shape() && t.len == len && t.max_len == max_len
			&&& t.rt() == empty_spec::<C>(t.vd())
			&&& moved(false, old(db).dbv(), dflt(), final(db).dbv(), t.rt())
			&&& len == 0 || C::inherited() ==> old(db).dbv().retains ==> t.holds_elems(final(db).dbv(), Seq::new(len as nat, |i: int| dflt::<C::Value>()))
			&&& len == 0 && old(db).dbv().retains ==> t.holds_elems(final(db).dbv(), Seq::empty())
		},
		r is Ok ==> forall|k: C::Value| #[trigger] final(db).loose(k) ==> old(db).loose(k),
//@ start
	proof { lemma2_to64(); lemma2_to64_rest(); }
//@ loop 0 spec
	invariant
		target_len <= 0x8000_0000_0000_0000,
		current_max_len == pow2(depth as nat), depth > 0 ==> pow2((depth - 1) as nat) < target_len, depth <= current_max_len,
	decreases 0x1_0000_0000_0000_0000 - current_max_len,
//@ loop 0 start
	proof { lemma_half((depth + 1) as nat); lemma_pow2_pos(depth as nat); }
//@ loop 0 after
	proof { lemma_depth_of(depth as nat, target_len as nat); }
//@ after-stmt let empty
	let ghost da = db.dbv();
	proof { lemma_moved_empties::<C>(false, old(db).dbv(), dflt(), depth as nat); }
//@ after-stmt raw.set
	proof {
		lemma_moved_set::<C>(false, da, dflt(), Seq::empty(), raw.root, db.dbv(), raw.root);
		lemma_moved_trans::<C>(false, old(db).dbv(), dflt(), da, dflt(), db.dbv(), raw.root);
		if len == 0 || C::inherited() {
			if old(db).dbv().retains { lemma_tree_defaults::<C>(db.dbv().store, depth as nat, len as nat); }
			if len == 0 { assert(Seq::new(len as nat, |i: int| dflt::<C::Value>()) =~= Seq::empty()); }
		}
	}
//@ fn Raw::into_vector
//@ ret r
//@ spec
	ensures r.raw == self, r.len == len, r.max_len == max_len,
