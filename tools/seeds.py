PRE = '''use bm::*;
use sha2::Sha256;
use generic_array::{GenericArray, typenum};
#[derive(Clone, PartialEq, Eq, Debug, Default, Ord, PartialOrd, Hash)]
pub struct V(pub [u8; 32]);
impl From<GenericArray<u8, typenum::U32>> for V { fn from(a: GenericArray<u8, typenum::U32>) -> V { let mut r = [0u8; 32]; r.copy_from_slice(a.as_slice()); V(r) } }
impl AsRef<[u8]> for V { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for V { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl From<usize> for V { fn from(v: usize) -> Self { let mut r = [0u8; 32]; r[..8].copy_from_slice(&(v as u64).to_le_bytes()); V(r) } }
impl Into<usize> for V { fn into(self) -> usize { let mut b = [0u8; 8]; b.copy_from_slice(&self.0[..8]); u64::from_le_bytes(b) as usize } }
#[allow(dead_code)] type Inh = InheritedDigestConstruct<Sha256, V>;
#[allow(dead_code)] type Uni = UnitDigestConstruct<Sha256, V>;
#[allow(dead_code)] type Db = InMemoryBackend<Inh>;
#[allow(dead_code)] fn v(n: usize) -> V { n.into() }
'''
LE = '''use bm_le::{IntoTree, FromTree, InMemoryBackend, DigestConstruct, Value};
use sha2::Sha256;
#[allow(dead_code)] type Db = InMemoryBackend<DigestConstruct<Sha256>>;
'''
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, le=False):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, le=le))

S("s01-sub-u32", "C01", "composing with a sub index 32 or more levels deep", "Index::sub keeps only the low 32 route bits, so composing does not concatenate the routes",
  [("src/index.rs", '''			IndexRoute::Select(selections) => {
				let mut current = self.clone();

				for selection in selections {
					match selection {
						IndexSelection::Left => { current = current.left(); }
						IndexSelection::Right => { current = current.right(); }
					}
				}
				current
			},''', '''			IndexRoute::Select(selections) => {
				// The route of `sub` is its value without the leading bit.
				let depth = selections.len();
				let offset = (sub.0 as u32) & !(u32::max_value().wrapping_shl(depth as u32));
				Index((self.0 << depth) | offset as usize)
			},''')],
  PRE + '''fn main() {
	for depth in 0..50usize {
		let s = Index::from_depth((1usize << depth) - 1, depth);
		let mut want = Index::root().right().left();
		for _ in 0..depth { want = want.right(); }
		assert_eq!(Index::root().right().left().sub(s), want, "depth {}", depth);
	}
	let _ = v(1);
}
''')
S("s02-get-inner-missing", "C02", "an index whose path passes a stored node and then one the backend does not know", "Raw::get reports a corrupted database instead of none when an inner node is unknown",
  [("src/raw.rs", '''				for selection in selections {
					let pair = match db.get(&current)? {
						Some(pair) => pair,
						None => return Ok(None),
					};''', '''				for (depth, selection) in selections.into_iter().enumerate() {
					let pair = match db.get(&current)? {
						Some(pair) => pair,
						// An absent root is an empty tree; below it, nodes must be there.
						None if depth < 2 => return Ok(None),
						None => return Err(Error::CorruptedDatabase),
					};''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut raw = OwnedRaw::<Inh>::default();
	raw.set(&mut db, Index::root().left().left(), v(7)).unwrap();
	let i = Index::root().left().left();
	assert_eq!(raw.get(&mut db, i).unwrap(), Some(v(7)));
	assert_eq!(raw.get(&mut db, i.right()).unwrap(), None);
	assert_eq!(raw.get(&mut db, i.right().left()).unwrap(), None);
}
''')
S("s03-set-stale-sibling", "C03", "a write two or more levels below the last node the backend knows, under a path that has stored nodes above", "the sibling written at an unknown level is copied from the level above instead of the default",
  [("src/raw.rs", '''							None => {
								values.push((sel, Default::default()));
							},
						}''', '''							None => {
								let pair = match values.last() {
									// Nothing known below: the last pair is all there is.
									Some((last, pair)) if *last == sel && values.len() > 1 => pair.clone(),
									_ => Default::default(),
								};
								values.push((sel, pair));
							},
						}''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut raw = OwnedRaw::<Inh>::default();
	let a = Index::root().left().left();
	raw.set(&mut db, a, v(1)).unwrap();
	raw.set(&mut db, Index::root().left().right(), v(2)).unwrap();
	raw.set(&mut db, a.left().left(), v(3)).unwrap();
	assert_eq!(raw.get(&mut db, a.left().left()).unwrap(), Some(v(3)));
	assert_eq!(raw.get(&mut db, a.left().right()).unwrap(), Some(V::default()));
	assert_eq!(raw.get(&mut db, a.right()).unwrap(), Some(V::default()));
}
''')
S("s04-extend-leaf-ref", "C04", "a vector without maximum growing from one element to two", "the root reference on the single element is not released when the vector is extended",
  [("src/vector.rs", '''		self.raw.set(db, ROOT_INDEX, Default::default())?;
		self.raw = new_raw;
		Ok(())''', '''		if self.depth() > 0 {
			// A leaf has no nodes below it to release.
			self.raw.set(db, ROOT_INDEX, Default::default())?;
		}
		self.raw = new_raw;
		Ok(())''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut x = OwnedVector::<Inh>::create(&mut db, 0, None).unwrap();
	x.push(&mut db, v(5)).unwrap();
	x.push(&mut db, v(6)).unwrap();
	x.drop(&mut db).unwrap();
	assert_eq!(db.as_ref().get(&v(5)), None, "a reference to the element is left");
}
''')
S("s05-saturating-root", "C05", "more than 255 owned trees with the same root, then dropping one of the later ones", "root references saturate at 255, so dropping all but one of 300 trees with equal roots frees the nodes of the last",
  [("src/memory.rs", """	fn rootify(&mut self, key: &C::Value) -> Result<(), Self::Error> {
		self.0.entry(key.clone()).or_insert((None, Some(0))).1
			.as_mut().map(|v| *v += 1);
		Ok(())""", """	fn rootify(&mut self, key: &C::Value) -> Result<(), Self::Error> {
		self.0.entry(key.clone()).or_insert((None, Some(0))).1
			.as_mut().map(|v| *v = (*v as u8).saturating_add(1).max(*v as u8) as usize);
		Ok(())""")],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut all = Vec::new();
	for _ in 0..300 {
		let mut x = OwnedRaw::<Inh>::default();
		x.set(&mut db, Index::root().left(), v(9)).unwrap();
		all.push(x);
	}
	let mut last = all.pop().unwrap();
	for x in all { x.drop(&mut db).unwrap(); }
	assert_eq!(last.get(&mut db, Index::root().left()).unwrap(), Some(v(9)));
	last.set(&mut db, Index::root().right(), v(1)).unwrap();
}
''')
S("s18-populate-keeps-count", "C05", "loading proofs for a node the backend already holds counted, then dropping the tree holding it", "populate keeps the reference count of nodes already stored, so nodes loaded from proofs are removed with the tree",
  [("src/memory.rs", """			self.0.insert(key, (Some((left.clone(), right.clone())), None));""",
    """			self.0.entry(key).or_insert((None, None)).0 = Some((left.clone(), right.clone()));""")],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut x = OwnedRaw::<Inh>::default();
	x.set(&mut db, Index::root().left(), v(9)).unwrap();
	let root = x.root();
	let pair = db.get(&root).unwrap().unwrap();
	let mut p = std::collections::HashMap::new();
	p.insert(root.clone(), pair.clone());
	db.populate(p);
	x.drop(&mut db).unwrap();
	assert_eq!(db.get(&root).unwrap(), Some(pair));
}
''')
S("s06-len-u32", "C06", "a vector longer than 2^32 elements", "the tree depth is computed from the low 32 bits of the length, so positions resolve to other nodes",
  [("src/vector.rs", '''			let mut max_len = 1;
			while max_len < self.len as u64 {
				max_len *= 2;
			}
			max_len
		})''', '''			(self.len as u32).max(1).next_power_of_two() as u64
		})''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut x = OwnedVector::<Inh>::create(&mut db, (1 << 32) + 3, None).unwrap();
	x.set(&mut db, 1 << 32, v(1)).unwrap();
	x.set(&mut db, 0, v(2)).unwrap();
	assert_eq!(x.get(&mut db, 1 << 32).unwrap(), v(1));
	assert_eq!(x.get(&mut db, 0).unwrap(), v(2));
}
''')
S("s07-pop-below-root", "C07", "a vector with a maximum, over the unit-empty construct, popped down to empty", "the emptied vector keeps a hashed empty pair at its root instead of the empty value",
  [("src/vector.rs", '''				if parent.left() == replace_index {
					replace_index = parent;''', '''				if parent != ROOT_INDEX && parent.left() == replace_index {
					replace_index = parent;''')],
  PRE + '''fn main() {
	let mut db = InMemoryBackend::<Uni>::default();
	for &max in &[2u64, 4, 5, 8] {
		let mut x = OwnedVector::<Uni>::create(&mut db, 0, Some(max)).unwrap();
		let fresh = x.root();
		x.push(&mut db, v(1)).unwrap();
		x.push(&mut db, v(2)).unwrap();
		assert_eq!(x.pop(&mut db).unwrap(), Some(v(2)));
		assert_eq!(x.pop(&mut db).unwrap(), Some(v(1)));
		assert_eq!(x.root(), fresh, "max {}", max);
	}
}
''')
S("s08-len-not-zeroed", "C08", "a list that had elements, emptied by pops", "the length value in the tree is not written when the list becomes empty, so reconstruction sees the old length",
  [("src/length.rs", '''		self.raw.set(db, LEN_INDEX, new_len.into())?;

		Ok(ret)''', '''		if new_len > 0 || self.raw.get(db, ITEM_ROOT_INDEX)?.is_none() {
			self.raw.set(db, LEN_INDEX, new_len.into())?;
		}

		Ok(ret)''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut x = OwnedList::<Inh>::create(&mut db, Some(6)).unwrap();
	x.push(&mut db, v(1)).unwrap();
	assert_eq!(x.pop(&mut db).unwrap(), Some(v(1)));
	let root = x.deconstruct(&mut db).unwrap();
	let y = List::<Owned, Inh>::reconstruct(root, &mut db, Some(6)).unwrap();
	assert_eq!(y.len(), 0);
}
''')
S("s09-pop-one-chunk", "C09", "values wider than two chunks", "popping a packed value gives back at most one of the chunks it occupied",
  [("src/packed.rs", '''			while self.tuple.len() > covering_base + covering_ranges.len() {
				self.tuple.pop(db)?;
			}
		}

		self.len -= 1;''', '''			if self.tuple.len() > covering_base + covering_ranges.len() {
				self.tuple.pop(db)?;
			}
		}

		self.len -= 1;''')],
  PRE + '''type P = OwnedPackedVector<Inh, GenericArray<u8, typenum::U96>, typenum::U32, typenum::U96>;
fn main() {
	let mut db = Db::default();
	let mut a = P::create(&mut db, 0, None).unwrap();
	let mut b = P::create(&mut db, 0, None).unwrap();
	let mut x = GenericArray::<u8, typenum::U96>::default();
	for i in 0..96 { x[i] = i as u8 + 1; }
	a.push(&mut db, x.clone()).unwrap();
	let root = a.root();
	b.push(&mut db, x.clone()).unwrap();
	b.push(&mut db, x.clone()).unwrap();
	assert_eq!(b.pop(&mut db).unwrap(), Some(x.clone()));
	assert_eq!(b.root(), root);
}
''')
S("s10-depth-float", "C10", "a length above 2^53 that is not a power of two, just above one", "the required depth is computed in floating point and one too small for large lengths",
  [("src/utils.rs", '''	let mut max_len = 1;
	let mut total_depth = 0;
	while max_len < len {
		max_len *= 2;
		total_depth += 1;
	}
	total_depth
}''', '''	if len <= 1 {
		return 0
	}
	(len as f64).log2().ceil() as usize
}''')],
  PRE + '''fn main() {
	for k in 0..63u32 {
		assert_eq!(bm::utils::required_depth(1 << k), k as usize);
		if k > 0 { assert_eq!(bm::utils::required_depth((1u64 << k) + 1), k as usize + 1, "2^{} + 1", k); }
	}
	let _ = v(0);
}
''')
S("s11-usize-u32", "C11", "a length of 2^32 or more", "converting an end value back to a length keeps only 32 bits",
  [("le/src/lib.rs", '''		let mut raw = [0u8; 8];
		(&mut raw).copy_from_slice(&self.0[0..8]);
		u64::from_le_bytes(raw) as usize''', '''		let mut raw = [0u8; 4];
		(&mut raw).copy_from_slice(&self.0[0..4]);
		u32::from_le_bytes(raw) as usize''')],
  LE + '''fn main() {
	for k in 0..64 {
		let n = 1usize << k;
		let x: usize = Value::from(n).into();
		assert_eq!(x, n);
	}
}
''', True)
S("s12-bitlist-limit", "C12", "a bit list whose limit is 1 to 7 bits above a multiple of 256", "the byte limit of a bit list is rounded down, so its tree is one level too shallow (decoding makes the same mistake)",
  [("le/src/elemental_fixed.rs", """		ElementalFixedVecRef(&bytes).into_compact_vector_tree(db, max_len.map(|l| {
			(l + 7) / 8
		}))""", """		ElementalFixedVecRef(&bytes).into_compact_vector_tree(db, max_len.map(|l| {
			(l / 8).max(1)
		}))"""), ("le/src/elemental_fixed.rs", """			(root.clone(), (len + 7) / 8, max_len.map(|l| (l + 7) / 8))""", """			(root.clone(), (len + 7) / 8, max_len.map(|l| (l / 8).max(1)))""")],
  LE + '''use bm_le::{Compact, MaxVec, Construct, WriteBackend};
fn main() {
	let mut db = Db::default();
	let x: Compact<MaxVec<bool, typenum::U257>> = Compact(vec![true, false, true].into());
	let r = x.into_tree(&mut db).unwrap();
	assert_eq!(Compact::<MaxVec<bool, typenum::U257>>::from_tree(&r, &mut db).unwrap(), x);
	// 257 bits are two chunks: the root is h(h(chunk, 0), length)
	let mut c = Value::default(); c.0.as_bytes_mut()[0] = 5;
	let h = DigestConstruct::<Sha256>::intermediate_of(&c, &Value::default());
	assert_eq!(r, DigestConstruct::<Sha256>::intermediate_of(&h, &Value::from(3)));
	let _ = db.rootify(&r);
}
''', True)
S("s13-insert-forgets-proof", "C13", "an operation that reads a node and later writes the very same node again", "writing a node that had been read before removes it from the proofs, so the replay misses it",
  [("src/proving.rs", '''		self.state.inserts.insert(key.clone());
		self.db.insert(key, value)''', '''		// What is written here needs no proof.
		self.state.proofs.remove(&key);
		self.state.inserts.insert(key.clone());
		self.db.insert(key, value)''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut raw = OwnedRaw::<Inh>::default();
	let i = Index::root().left().right();
	raw.set(&mut db, i, v(4)).unwrap();
	let root = raw.root();
	let ops = |raw: &mut DanglingRaw<Inh>, db: &mut dyn FnMut(&mut DanglingRaw<Inh>)| { db(raw); };
	let mut p = ProvingBackend::new(&mut db);
	let mut d = DanglingRaw::<Inh>::from_leaked(root.clone());
	ops(&mut d, &mut |d| {
		assert_eq!(d.get(&mut p, i).unwrap(), Some(v(4)));
		d.set(&mut p, i, v(4)).unwrap();
	});
	let proofs: Proofs<V> = p.into();
	let mut replay = Db::default();
	replay.populate(proofs.into());
	let d = DanglingRaw::<Inh>::from_leaked(root.clone());
	assert_eq!(d.get(&mut replay, i).unwrap(), Some(v(4)), "the node read is not in the proofs");
}
''')
S("s14-plain-extra", "C14", "a plain branch with more siblings than its index has levels", "surplus siblings are ignored instead of rejected",
  [("src/proving.rs", '''						(None, None) => return Some(current),
						_ => return None,''', '''						(None, _) => return Some(current),
						(Some(_), None) => return None,''')],
  PRE + '''fn main() {
	let i = Index::root().left().right();
	assert!(CompactValue::from_plain(v(1), vec![v(2), v(3)], i).is_some());
	assert!(CompactValue::from_plain(v(1), vec![v(2)], i).is_none());
	assert!(CompactValue::from_plain(v(1), vec![v(2), v(3), v(4)], i).is_none());
}
''')
S("s15-shrink-swallows", "C15", "a backend read error during the pop that halves the tree", "the error is swallowed and the vector replaced by the empty one",
  [("src/vector.rs", '''		match self.raw.get(db, EXTEND_INDEX)? {
			Some(extended_value) => { self.raw.set(db, ROOT_INDEX, extended_value)?; },
			None => { self.raw.set(db, ROOT_INDEX, Default::default())?; },
		}''', '''		if let Ok(Some(extended_value)) = self.raw.get(db, EXTEND_INDEX) {
			self.raw.set(db, ROOT_INDEX, extended_value)?;
		} else {
			self.raw.set(db, ROOT_INDEX, Default::default())?;
		}''')],
  PRE + '''struct F(Db, usize);
#[derive(Debug)] struct E;
impl Backend for F { type Construct = Inh; type Error = E; }
impl ReadBackend for F { fn get(&mut self, k: &V) -> Result<Option<(V, V)>, E> { if self.1 == 0 { return Err(E) } self.1 -= 1; self.0.get(k).map_err(|_| E) } }
impl WriteBackend for F {
	fn rootify(&mut self, k: &V) -> Result<(), E> { self.0.rootify(k).map_err(|_| E) }
	fn unrootify(&mut self, k: &V) -> Result<(), E> { self.0.unrootify(k).map_err(|_| E) }
	fn insert(&mut self, k: V, x: (V, V)) -> Result<(), E> { self.0.insert(k, x).map_err(|_| E) }
}
fn main() {
	for n in 0..40 {
		let mut db = F(Db::default(), 1000);
		let mut x = OwnedVector::<Inh>::create(&mut db, 0, None).unwrap();
		for i in 0..5 { x.push(&mut db, v(i + 1)).unwrap(); }
		db.1 = n;
		let r = x.pop(&mut db);
		db.1 = 1000;
		if let Ok(r) = r {
			assert_eq!(r, Some(v(5)));
			assert_eq!(x.get(&mut db, 3).map_err(|_| ()), Ok(v(4)), "with {} reads", n);
		}
	}
}
''')
S("s16-flush-order", "C16", "a partial list with both a write at the old length and a push staged", "pushes are flushed before the item writes, so a write beyond the list's length is accepted and overwrites the pushed item",
  [("le/src/partial.rs", '''		let mut values = Map::default();
		mem::swap(&mut values, &mut self.values);

		for (_, mut value) in values {
			value.flush(raw, db)?;
		}

		let mut pushed''', '''		let mut pushed'''),
   ("le/src/partial.rs", '''			raw.set(db, index, list.root())?;
		}

		Ok(())''', '''			raw.set(db, index, list.root())?;
		}

		let mut values = Map::default();
		mem::swap(&mut values, &mut self.values);

		for (_, mut value) in values {
			value.flush(raw, db)?;
		}

		Ok(())''')],
  LE + '''use bm_le::{OwnedRaw, Leak, PartialVec, PartialItem, PartialIndex};
fn main() {
	let mut db = Db::default();
	let root = vec![1u64, 2].into_tree(&mut db).unwrap();
	let mut raw = OwnedRaw::<DigestConstruct<Sha256>>::from_leaked(root);
	let mut p = PartialVec::<u64>::new(PartialIndex::root());
	p.push(7);
	p.at(2).set(9);
	assert!(p.flush(&mut raw, &mut db).is_err());
}
''', True)
S("s17-selector-low-bits", "C17", "a stored selector of 2^64 or more whose low 64 bits are a known selector", "the high bits of a selector are ignored, so a malformed option or enum is read as a valid one",
  [("le/src/utils.rs", '''	if ty > U256::from(usize::max_value()) {
		Err(Error::CorruptedDatabase)
	} else {
		f(&value, db, ty.as_usize())
	}''', '''	f(&value, db, ty.low_u64() as usize)''')],
  LE + '''use bm_le::{Construct, WriteBackend};
fn main() {
	let mut db = Db::default();
	let good = Some(5u64).into_tree(&mut db).unwrap();
	assert_eq!(Option::<u64>::from_tree(&good, &mut db).unwrap(), Some(5));
	let mut ty = Value::from(1); ty.0.as_bytes_mut()[20] = 1;
	let inner = 5u64.into_tree(&mut db).unwrap();
	let key = DigestConstruct::<Sha256>::intermediate_of(&inner, &ty);
	db.insert(key.clone(), (inner, ty)).unwrap();
	assert!(Option::<u64>::from_tree(&key, &mut db).is_err());
}
''', True)
S("s19-descendant-u32", "C01", "an index 32 or more levels below another", "descent is decided on the depth difference in a fixed 32-bit range, so deep descendants are denied",
  [("src/index.rs", '''		match other.parent() {
			Some(parent) => {
				if parent == *self {
					true
				} else {
					self.has_descendant(&parent)
				}
			}
			None => false,
		}''', '''		// A descendant's number starts with the bits of the ancestor's.
		let levels = self.0.leading_zeros().wrapping_sub(other.0.leading_zeros());
		levels > 0 && levels < u32::max_value().count_ones() && other.0 >> levels == self.0''')],
  PRE + '''fn main() {
	let a = Index::root().right();
	let mut b = a;
	for depth in 0..50 {
		assert_eq!(a.has_descendant(&b), depth > 0, "depth {}", depth);
		b = b.left();
	}
	let _ = v(1);
}
''')
S("s20-drop-empty", "C04", "dropping an owned vector that has a maximum and no elements", "an empty vector is taken to hold nothing, so its root reference is never released",
  [("src/vector.rs", '''		self.raw.drop(db)?;
		Ok(())
	}

	fn into_raw''', '''		// An empty vector does not hold any node.
		if self.len > 0 {
			self.raw.drop(db)?;
		}
		Ok(())
	}

	fn into_raw''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let before = db.as_ref().len();
	let mut x = OwnedVector::<Inh>::create(&mut db, 0, Some(4)).unwrap();
	x.push(&mut db, v(1)).unwrap();
	x.pop(&mut db).unwrap();
	x.drop(&mut db).unwrap();
	assert_eq!(db.as_ref().len(), before);
}
''')
S("s21-resume-forgets-inserts", "C13", "a proving session stopped after writing a node and resumed before reading it", "resuming keeps the proofs but forgets the inserts, so nodes the session itself wrote end up in the proofs",
  [("src/proving.rs", '''		Self { db, state }
	}''', '''		let mut backend = Self::new(db);
		backend.state.proofs.extend(state.proofs);
		backend
	}''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut p = ProvingBackend::new(&mut db);
	let mut raw = DanglingRaw::<Inh>::default();
	raw.set(&mut p, Index::root().left(), v(5)).unwrap();
	let state = p.into_state();
	let mut p = ProvingBackend::from_state(state, &mut db);
	assert_eq!(raw.get(&mut p, Index::root().left()).unwrap(), Some(v(5)));
	let proofs: Proofs<V> = p.into();
	assert_eq!(proofs.len(), 0);
}
''')
S("s22-equal-children", "C14", "a compact value with a node whose two children have the same root", "encoding a compact value does not write nodes with two equal children, taking them for empty ones",
  [("le/src/basic.rs", '''				let key = DB::Construct::intermediate_of(&left, &right);
				db.insert(key.clone(), (left, right))?;
				Ok(key)
			},
		}
	}
}

impl<T> FromTree for Option<T>''', '''				let key = DB::Construct::intermediate_of(&left, &right);
				// Empty subtrees are created on demand.
				if left != right {
					db.insert(key.clone(), (left, right))?;
				}
				Ok(key)
			},
		}
	}
}

impl<T> FromTree for Option<T>''')],
  LE + '''use bm::{CompactValue, ReadBackend};
fn main() {
	let mut db = Db::default();
	let a = CompactValue::Combined(Box::new((CompactValue::Single(Value::from(1)), CompactValue::Single(Value::from(2)))));
	let b = CompactValue::Combined(Box::new((a.clone(), a.clone())));
	let root = b.into_tree(&mut db).unwrap();
	let (left, right) = db.get(&root).unwrap().expect("the root's children are known");
	assert_eq!(left, right);
	assert_eq!(db.get(&left).unwrap(), Some((Value::from(1), Value::from(2))));
}
''', True)
S("s24-set-up-to-max", "C06", "a vector with a maximum, written between its length and the maximum", "writing beyond the length is accepted as long as it is below the maximum",
  [("src/vector.rs", '''		if index >= self.len() {
			return Err(Error::AccessOverflowed)
		}

		let raw_index = self.raw_index(index);
		self.raw.set(db, raw_index, value)?;
		Ok(())
	}

	/// Push''', '''		if index as u64 >= self.max_len.unwrap_or(self.len as u64) {
			return Err(Error::AccessOverflowed)
		}

		let raw_index = self.raw_index(index);
		self.raw.set(db, raw_index, value)?;
		Ok(())
	}

	/// Push''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut x = OwnedVector::<Inh>::create(&mut db, 2, Some(4)).unwrap();
	let root = x.root();
	assert!(x.set(&mut db, 2, v(1)).is_err());
	assert_eq!(x.root(), root);
}
''')
S("s25-create-depth", "C07", "creating a vector with a length or maximum that is not a power of two", "the new vector is as deep as the next lower power of two, so its root differs from that of the same contents pushed",
  [("src/vector.rs", '''		while current_max_len < target_len {
			current_max_len *= 2;
			depth += 1;
		}
''', '''		while current_max_len <= target_len / 2 {
			current_max_len *= 2;
			depth += 1;
		}
''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	for n in 1..10usize {
		let a = OwnedVector::<Inh>::create(&mut db, n, None).unwrap();
		let mut b = OwnedVector::<Inh>::create(&mut db, 0, None).unwrap();
		for _ in 0..n { b.push(&mut db, V::default()).unwrap(); }
		assert_eq!(a.root(), b.root(), "length {}", n);
	}
}
''')
S("s26-create-drops-first", "C08", "creating a list with a maximum on a backend that reclaims nodes", "the temporary item vector is dropped before the list refers to it, so its empty nodes are reclaimed and later pushes build a different tree",
  [("src/length.rs", '''		raw.set(db, ITEM_ROOT_INDEX, inner.root())?;
		raw.set(db, LEN_INDEX, len.into())?;
		let metadata = inner.metadata();
		inner.drop(db)?;
		let dangling_inner''', '''		let inner_root = inner.root();
		let metadata = inner.metadata();
		inner.drop(db)?;
		raw.set(db, ITEM_ROOT_INDEX, inner_root)?;
		raw.set(db, LEN_INDEX, len.into())?;
		let dangling_inner''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut x = OwnedList::<Inh>::create(&mut db, Some(8)).unwrap();
	x.push(&mut db, v(1)).unwrap();
	let mut d2 = Db::default();
	let mut y = OwnedVector::<Inh>::create(&mut d2, 0, Some(8)).unwrap();
	y.push(&mut d2, v(1)).unwrap();
	assert_eq!(x.root(), Inh::intermediate_of(&y.root(), &v(1)));
}
''')
S("s27-set-fresh-chunk", "C09", "values smaller than a chunk, one of which ends where its chunk ends", "a chunk whose end is overwritten is taken to be overwritten whole, so the values before it in the chunk are lost",
  [("src/packed.rs", '''			let mut host_value = self.tuple.get(db, covering_base + i)?;
			host_value.as_mut()''', '''			// No need to read a chunk that is overwritten.
			let mut host_value: C::Value = if range.end == H::to_usize() {
				GenericArray::<u8, H>::default().into()
			} else {
				self.tuple.get(db, covering_base + i)?
			};
			host_value.as_mut()''')],
  PRE + '''type P = OwnedPackedVector<Inh, GenericArray<u8, typenum::U24>, typenum::U32, typenum::U24>;
fn main() {
	let mut db = Db::default();
	let mut a = P::create(&mut db, 0, None).unwrap();
	for n in 0..4u8 {
		let mut x = GenericArray::<u8, typenum::U24>::default();
		for i in 0..24 { x[i] = i as u8 + 24 * n + 1; }
		a.push(&mut db, x).unwrap();
	}
	for n in 0..4u8 {
		let x = a.get(&mut db, n as usize).unwrap();
		for i in 0..24 { assert_eq!(x[i], i as u8 + 24 * n + 1); }
	}
}
''')
S("s28-wide-ints", "C11", "a 128-bit integer of 2^64 or more", "decoding an integer goes through a 64-bit word, so the high half of 128-bit integers is lost",
  [("le/src/basic.rs", '''						let mut bytes = Self::default().to_le_bytes();
						let bytes_len = bytes.len();
						bytes.copy_from_slice(&value.0[..bytes_len]);

						Ok(Self::from_le_bytes(bytes))''', '''						let mut word = [0u8; 8];
						word.copy_from_slice(&value.0[..8]);

						Ok(u64::from_le_bytes(word) as Self)''')],
  LE + '''fn main() {
	let mut db = Db::default();
	for &n in &[1u128, 1 << 63, 1 << 64, u128::max_value()] {
		let root = n.into_tree(&mut db).unwrap();
		assert_eq!(u128::from_tree(&root, &mut db).unwrap(), n);
	}
}
''', True)
S("s29-sorted-fields", "C12", "a derived struct whose fields are not declared in alphabetical order", "derived encoding and decoding take the fields in the order of their names, so values round-trip but the root is not the ssz one",
  [("le/derive/src/lib.rs", '''		let fields = normalized_fields(fs)
			.iter()
			.map(|f| {
				let ident = &f.0;''', '''		let mut fields = normalized_fields(fs);
		fields.sort_by_key(|f| f.1.ident.as_ref().map(|i| i.to_string()));
		let fields = fields
			.iter()
			.map(|f| {
				let ident = &f.0;'''),
   ("le/derive/src/lib.rs", '''		let fields = normalized_fields(fs)
			.iter()
			.enumerate()
			.map(|(i, f)| {
				let name = &f.0;
				let ty = &f.1.ty;
''', '''		let mut fields = normalized_fields(fs);
		fields.sort_by_key(|f| f.1.ident.as_ref().map(|i| i.to_string()));
		let fields = fields
			.iter()
			.enumerate()
			.map(|(i, f)| {
				let name = &f.0;
				let ty = &f.1.ty;
'''),
   ("le/derive/src/lib.rs", '''			let fields = normalized_fields(&data.fields);

			let struct_inner''', '''			let mut fields = normalized_fields(&data.fields);
			fields.sort_by_key(|f| f.1.ident.as_ref().map(|i| i.to_string()));

			let struct_inner''')],
  LE + '''#[derive(bm_le::IntoTree, bm_le::FromTree, Debug, PartialEq)]
struct S { slot: u64, parent: u16 }
fn main() {
	let mut db = Db::default();
	let s = S { slot: 5, parent: 6 };
	let root = s.into_tree(&mut db).unwrap();
	assert_eq!(S::from_tree(&root, &mut db).unwrap(), s);
	assert_eq!(root, (5u64, 6u16).into_tree(&mut db).unwrap());
}
''', True)
S("s30-insert-unless-known", "C15", "building a tree through a proving backend over a backend that knows its nodes", "the tree builder asks the backend for each node before writing it, so encoding reads the backend and pollutes proofs",
  [("src/utils.rs", '''			db.insert(key.clone(), (left, right))?;
			next''', '''			// Backends that cannot read are written to anyway.
			if !db.get(&key).map(|known| known.is_some()).unwrap_or(false) {
				db.insert(key.clone(), (left, right))?;
			}
			next''')],
  LE + '''use bm::{ProvingBackend, Proofs};
fn main() {
	let mut db = Db::default();
	let x = vec![1u64, 2, 3, 4, 5];
	let root = x.into_tree(&mut db).unwrap();
	let mut p = ProvingBackend::new(&mut db);
	assert_eq!(x.into_tree(&mut p).unwrap(), root);
	let proofs: Proofs<Value> = p.into();
	assert_eq!(proofs.len(), 0);
}
''', True)
S("s31-flush-keeps", "C16", "flushing a partial value, changing the tree another way, and flushing again", "a flushed value stays staged, so the second flush writes it again over the newer one",
  [("le/src/partial.rs", '''		if let Some(value) = self.value.take() {''', '''		if let Some(value) = self.value.as_ref() {''')],
  LE + '''use bm_le::{DanglingRaw, Leak, PartialValue, PartialItem, PartialIndex};
fn main() {
	let mut db = Db::default();
	let root = (1u64, 2u64).into_tree(&mut db).unwrap();
	let mut raw = DanglingRaw::<DigestConstruct<Sha256>>::from_leaked(root);
	let mut a = PartialValue::<u64>::new(PartialIndex::root().vector(0, 2));
	let mut b = PartialValue::<u64>::new(PartialIndex::root().vector(0, 2));
	a.set(7);
	a.flush(&mut raw, &mut db).unwrap();
	b.set(8);
	b.flush(&mut raw, &mut db).unwrap();
	a.flush(&mut raw, &mut db).unwrap();
	let mut c = PartialValue::<u64>::new(PartialIndex::root().vector(0, 2));
	assert_eq!(c.get(&raw, &mut db).unwrap(), &8);
}
''', True)
S("s32-absent-default", "C17", "a tree some of whose nodes below a known one are missing", "an element whose node is missing is read as the default value instead of reported",
  [("src/vector.rs", '''		let raw_index = self.raw_index(index);
		self.raw.get(db, raw_index)?.ok_or(Error::CorruptedDatabase)
	}''', '''		let raw_index = self.raw_index(index);
		Ok(self.raw.get(db, raw_index)?.unwrap_or_default())
	}''')],
  LE + '''fn main() {
	let mut db = Db::default();
	assert!(<[u64; 2]>::from_tree(&Value::from(77), &mut db).is_err());
}
''', True)
S("s34-host-len-u32", "C10", "a packed length of 2^32 or more", "the number of chunks is computed from the low 32 bits of the length",
  [("src/utils.rs", '''	host_max_len::<Host, Value>(value_len as u64) as usize''', '''	host_max_len::<Host, Value>((value_len as u32).into()) as usize''')],
  PRE + '''fn main() {
	for &n in &[0usize, 1, 5, 1 << 20, (1 << 32) + 3, 1 << 40] {
		assert_eq!(bm::utils::host_len::<typenum::U32, typenum::U8>(n), (n * 8 + 31) / 32);
	}
	let _ = v(1);
}
''')
S("s35-subtree-past-leaf", "C02", "taking a subtree at an index with an unknown node on the way", "a subtree handle on an absent position is silently the empty tree",
  [("src/raw.rs", '''		let subroot = self.get(db, index)?.ok_or(Error::CorruptedDatabase)?;''', '''		let subroot = self.get(db, index)?.unwrap_or_default();''')],
  PRE + '''fn main() {
	let mut db = Db::default();
	let mut raw = OwnedRaw::<Inh>::default();
	raw.set(&mut db, Index::root().left(), v(7)).unwrap();
	assert!(raw.subtree(&mut db, Index::root().left().right()).is_err());
	assert_eq!(raw.subtree(&mut db, Index::root().left()).unwrap().root(), v(7));
}
''')
