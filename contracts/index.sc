//@ prelude
use crate::model::*;
broadcast use crate::model::group_shift;
//@ item enum IndexSelection
//@ attr
#[derive(Structural)]
//@ item struct Index
//@ attr
#[derive(Structural)]
//@ after
impl Index {
	/// The mathematical value of the generalized index.
	pub open spec fn v(self) -> nat { self.0 as nat }
}
//@ item enum IndexSelection
//@ after
impl IndexSelection {
	pub open spec fn is_left(self) -> bool { self is Left }
}
//@ item enum IndexRoute
//@ after
impl IndexRoute {
	/// The sequence of selections denoted by a route, root first.
	pub open spec fn sels(self) -> Seq<IndexSelection> {
		match self { IndexRoute::Root => Seq::empty(), IndexRoute::Select(s) => s@ }
	}
}
//@ fn IndexRoute::at_depth
//@ ret r
//@ spec
	ensures
		r is Some <==> 1 <= depth <= self.sels().len(),
		r matches Some(s) ==> s == self.sels()[depth - 1],
//@ fn Index::root
//@ ret r
//@ spec
	ensures r.v() == 1,
//@ fn Index::left
//@ ret r
//@ spec
	requires 2 * self.v() <= usize::MAX,
	ensures r.v() == 2 * self.v(), self.v() >= 1 ==> path(r.v()) == path(self.v()).push(IndexSelection::Left),
//@ start
	proof {
		lemma_path_child(self.v());
		let ghost x = self.0;
		assert(x <= 0x7fff_ffff_ffff_ffff ==> x << 1 == 2 * x) by (bit_vector);
	}
//@ fn Index::right
//@ ret r
//@ spec
	requires 2 * self.v() + 1 <= usize::MAX,
	ensures r.v() == 2 * self.v() + 1, self.v() >= 1 ==> path(r.v()) == path(self.v()).push(IndexSelection::Right),
//@ start
	proof {
		lemma_path_child(self.v());
		let ghost x = self.0;
		assert(x <= 0x7fff_ffff_ffff_ffff ==> x << 1 == 2 * x && (x << 1) | 1 == 2 * x + 1) by (bit_vector);
	}
//@ fn Index::parent
//@ ret r
//@ spec
	requires self.v() >= 1,
	ensures
		r is None <==> self.v() == 1,
		r matches Some(p) ==> p.v() == self.v() / 2 && p.v() >= 1 && path(self.v()) == path(p.v()).push(last_sel(self.v())),
//@ start
	proof {
		lemma_path_len(self.v());
		let ghost x = self.0;
		assert(x >> 1 == x / 2) by (bit_vector);
	}
//@ fn Index::has_descendant
//@ ret r
//@ spec
	requires self.v() >= 1, other.v() >= 1,
	ensures r == is_proper_descendant(self.v(), other.v()),
		r <==> (path(self.v()).len() < path(other.v()).len() && path(self.v()) == path(other.v()).take(path(self.v()).len() as int)),
	decreases other.v(),
//@ start
	proof { lemma_desc_prefix(self.v(), other.v()); }
//@ fn Index::from_one
//@ ret r
//@ spec
	ensures r is None <==> value == 0, r matches Some(i) ==> i.v() == value,
//@ fn Index::from_zero
//@ ret r
//@ spec
	requires value < usize::MAX,
	ensures r.v() == value + 1,
//@ fn Index::from_depth
//@ ret r
//@ spec
	requires depth < usize::BITS, index < pow2(depth as nat),
	ensures r.v() == pow2(depth as nat) + index, r.v() >= 1,
		path(r.v()) == bits_be(index as nat, depth as nat),
//@ start
	proof { lemma_shl_pow2(depth); lemma_path_from_depth(index as nat, depth as nat); }
//@ fn Index::route
//@ ret r
//@ spec
	requires self.v() >= 1,
	ensures r.sels() == path(self.v()), r is Root <==> self.v() == 1,
//@ loop 0 spec
	invariant
		value >= 1,
		path(self.v()) == path(value as nat) + selections@.reverse(),
		self.v() == 1 <==> value == 1 && selections.len() == 0,
		self.v() >= 1,
	ensures value >> 1 == 0,
	decreases value,
//@ loop 0 start
	proof { lemma_route_step(value, selections@); }
//@ loop 0 after
	proof { lemma_route_step(value, selections@); }
//@ fn Index::sub
//@ start
	proof { lemma2_to64(); }
//@ ret r
//@ spec
	requires self.v() >= 1, sub.v() >= 1, (self.v() + 1) * pow2(path(sub.v()).len()) <= usize::MAX + 1,
	ensures path(r.v()) == path(self.v()) + path(sub.v()), r.v() >= 1,
//@ loop 0 iter
it
//@ loop 0 spec
	invariant
		path(current.v()) == path(self.v()) + path(sub.v()).take(it.index@ as int),
		it.seq() == path(sub.v()),
		current.v() >= 1,
		current.v() + 1 <= (self.v() + 1) * pow2(it.index@ as nat),
		(self.v() + 1) * pow2(path(sub.v()).len()) <= usize::MAX + 1,
//@ loop 0 start
	proof {
		let ghost i = it.index@;
		assert(path(sub.v()).take(i + 1) =~= path(sub.v()).take(i as int).push(path(sub.v())[i as int]));
		lemma_pow2_unfold((i + 1) as nat);
		lemma_pow2_mono((i + 1) as nat, path(sub.v()).len());
		assert((self.v() + 1) * pow2((i + 1) as nat) == 2 * ((self.v() + 1) * pow2(i as nat))) by (nonlinear_arith)
			requires pow2((i + 1) as nat) == 2 * pow2(i as nat);
		assert((self.v() + 1) * pow2((i + 1) as nat) <= (self.v() + 1) * pow2(path(sub.v()).len())) by (nonlinear_arith)
			requires pow2((i + 1) as nat) <= pow2(path(sub.v()).len());
	}
