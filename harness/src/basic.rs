//! C01..C05
use crate::util::*;
use crate::{ensure, ensure_eq};
use bm::*;
use bm_le::Value;
use std::collections::{HashMap, HashSet};

fn ref_index(path: &[bool]) -> u64 { path.iter().fold(1u64, |a, b| 2 * a + *b as u64) }

fn sel(s: IndexSelection) -> bool { s == IndexSelection::Right }
fn route_bits(r: &IndexRoute) -> Vec<bool> {
	match r { IndexRoute::Root => vec![], IndexRoute::Select(s) => s.iter().map(|x| sel(*x)).collect() }
}

fn check_one(i: u64) -> Result<(), String> {
	let ix = Index::from_one(i as usize).ok_or("from_one(nonzero) is None")?;
	let b = bits(i);
	let r = ix.route();
	ensure_eq!(route_bits(&r), b, "route of {}", i);
	ensure_eq!(r == IndexRoute::Root, b.is_empty(), "root route iff root index, {}", i);
	ensure_eq!(r.at_depth(0), None, "at_depth(0) of {}", i);
	for d in 1..=b.len() { ensure_eq!(r.at_depth(d).map(sel), Some(b[d - 1]), "at_depth({}) of {}", d, i); }
	for d in &[b.len() + 1, b.len() + 2, 64, 1000, usize::max_value()] {
		if *d > b.len() { ensure_eq!(r.at_depth(*d), None, "at_depth({}) of {}", d, i); }
	}
	ensure_eq!(Index::from_zero((i - 1) as usize), ix, "from_zero({})", i - 1);
	ensure_eq!(ix.parent(), if i == 1 { None } else { Index::from_one((i / 2) as usize) }, "parent of {}", i);
	if i < (1 << 63) {
		ensure_eq!(ix.left().parent(), Some(ix), "left().parent() of {}", i);
		ensure_eq!(ix.right().parent(), Some(ix), "right().parent() of {}", i);
		let mut l = b.clone(); l.push(false);
		let mut rr = b.clone(); rr.push(true);
		ensure_eq!(route_bits(&ix.left().route()), l, "left() of {}", i);
		ensure_eq!(route_bits(&ix.right().route()), rr, "right() of {}", i);
	}
	let mut p = Index::root();
	for x in &b { p = if *x { p.right() } else { p.left() } }
	ensure_eq!(p, ix, "path rebuilds index {}", i);
	let d = b.len();
	ensure_eq!(Index::from_depth((i - (1u64 << d)) as usize, d), ix, "from_depth of {}", i);
	Ok(())
}
fn check_pair(a: u64, b: u64) -> Result<(), String> {
	let (x, y) = (Index::from_one(a as usize).unwrap(), Index::from_one(b as usize).unwrap());
	let (ba, bb) = (bits(a), bits(b));
	let desc = bb.len() > ba.len() && bb[..ba.len()] == ba[..];
	ensure_eq!(x.has_descendant(&y), desc, "{} has_descendant {}", a, b);
	ensure_eq!(x == y, a == b, "equality {} {}", a, b);
	if ba.len() + bb.len() < 64 {
		let mut c = ba.clone(); c.extend(bb.iter());
		ensure_eq!(route_bits(&x.sub(y).route()), c, "{} sub {}", a, b);
		ensure_eq!(x.sub(y), Index::from_one(ref_index(&c) as usize).unwrap(), "{} sub {}", a, b);
	}
	Ok(())
}
pub fn c01(c: &mut Ctx) {
	c.rule = "single indexes: 1..N exhaustively plus random/extreme 64-bit; pairs: all below M plus random with shared prefixes; non-trivial: not the root".into();
	c.case("from_one(0)", false, || { ensure_eq!(Index::from_one(0), None, "from_one(0)"); ensure_eq!(Index::root(), Index::from_one(1).unwrap(), "root"); Ok(()) });
	let n = c.n(3000, 40000) as u64;
	for i in 1..n { c.case(("one", i), i > 1, || check_one(i)); }
	for k in 1..64 { for d in &[-2i64, -1, 0, 1, 2] {
		let i = (1u64 << k).wrapping_add(*d as u64);
		if i != 0 { c.case(("one", i), true, || check_one(i)); }
	} }
	c.case(("one", u64::max_value()), true, || check_one(u64::max_value()));
	for _ in 0..c.n(2000, 50000) { let s = c.rng.us(63); let i = (c.rng.next() >> s).max(1); c.case(("one", i), true, || check_one(i)); }
	let m = c.n(130, 520) as u64;
	for a in 1..m { for b in 1..m { c.case(("pair", a, b), a > 1 || b > 1, || check_pair(a, b)); } }
	for _ in 0..c.n(5000, 100000) {
		let s = c.rng.us(60); let a = (c.rng.next() >> s).max(1);
		let b = if c.rng.bool() { let la = 64 - a.leading_zeros() as u64; let k = c.rng.below(64 - la + 1); if k == 0 { a } else { (a << (k % 64)) | (c.rng.next() & ((1u64 << k) - 1)) } }
			else { let s = c.rng.us(63); (c.rng.next() >> s).max(1) };
		let b = b.max(1);
		c.case(("pair", a, b), true, || check_pair(a, b));
		c.case(("pair", b, a), true, || check_pair(b, a));
	}
}

fn random_store(r: &mut Rng, n: usize) -> (HashMap<Value, (Value, Value)>, Vec<Value>) {
	// acyclic random DAG, keys need not be hashes for reading
	let mut vals: Vec<Value> = (0..3).map(|i| val(i)).collect();
	vals.push(zero());
	let mut m = HashMap::new();
	for k in 0..n {
		let pick = |r: &mut Rng, v: &Vec<Value>| { let lo = if r.bool() && v.len() > 4 { v.len() - 4 } else { 0 }; let w = v.len() - lo; v[lo + r.us(w)].clone() };
		let (a, b) = (pick(r, &vals), pick(r, &vals));
		let key = val(100 + k as u64);
		m.insert(key.clone(), (a, b));
		vals.push(key);
	}
	(m, vals)
}

pub fn c02(c: &mut Ctx) {
	c.rule = "random acyclic stores of up to 24 nodes, roots from them, all indexes to depth 5 and random deeper ones, owned and dangling, with and without one failing read; non-trivial: index below the root".into();
	let n = c.n(300, 4000);
	for it in 0..n {
		if c.over() { break }
		let sz = c.rng.us(24);
		let (m, vals) = random_store(&mut c.rng, sz);
		let root = vals[vals.len() - 1 - c.rng.us(2.min(vals.len()))].clone();
		let mut idx: Vec<u64> = (1..64).collect();
		for _ in 0..20 { let s = c.rng.us(62); idx.push((c.rng.next() >> s).max(1)) }
		// a chain that keeps right/left to get deep
		for i in idx {
			let (m1, root1) = (m.clone(), root.clone());
			let own = c.rng.bool();
			let fail = if c.rng.below(4) == 0 { Some(c.rng.below(6)) } else { None };
			c.case((it, sz, i, own, fail), i > 1, || {
				let b = bits(i);
				let exp = walk(&m1, &root1, &b);
				let reach = { let mut k = 0; let mut cur = root1.clone(); for x in &b { k += 1; match m1.get(&cur) { Some(p) => cur = if *x { p.1.clone() } else { p.0.clone() }, None => break } } k };
				let mut db = Rec::<Inh>::default();
				db.store = m1.clone(); db.fail_at = fail;
				let ix = Index::from_one(i as usize).unwrap();
				let (g, s, root_after) = if own {
					let t = OwnedRaw::<Inh>::new(root1.clone());
					let g = t.get(&mut db, ix); db.calls = 0;
					let s = t.subtree(&mut db, ix).map(|x| x.root());
					(g, s, t.root())
				} else {
					let t = DanglingRaw::<Inh>::new(root1.clone());
					let g = t.get(&mut db, ix); db.calls = 0;
					let s = t.subtree(&mut db, ix).map(|x| x.root());
					(g, s, t.root())
				};
				ensure_eq!(root_after, root1, "root after reads");
				match fail {
					Some(f) if f < reach => {
						ensure_eq!(g, Err(Error::Backend(Injected(f))), "get({}) with failing read {}", i, f);
						ensure_eq!(s, Err(Error::Backend(Injected(f))), "subtree({}) with failing read {}", i, f);
					},
					_ => {
						ensure_eq!(g, Ok(exp.clone()), "get({})", i);
						ensure_eq!(s, exp.ok_or(Error::CorruptedDatabase), "subtree({})", i);
					},
				}
				ensure_eq!(db.store, m1, "store after reads");
				ensure!(db.log.iter().all(|x| if let Call::Get(_) = x { true } else { false }), "read wrote to the backend: {:?}", db.log);
				Ok(())
			});
		}
	}
	// deep indexes
	for it in 0..c.n(60, 600) {
		let depth = 1 + c.rng.us(63);
		let i = (1u64 << depth) | (c.rng.next() & ((1u64 << depth) - 1));
		let cut = c.rng.us(depth + 2);
		c.case((it, "deep", i, cut), true, || {
			let b = bits(i);
			let mut m = HashMap::new();
			for k in 0..b.len().min(cut) {
				let (n, o) = (val(1000 + k as u64 + 1), val(5000 + k as u64));
				m.insert(val(1000 + k as u64), if b[k] { (o, n) } else { (n, o) });
			}
			let mut db = Rec::<Inh>::default(); db.store = m.clone();
			let t = DanglingRaw::<Inh>::new(val(1000));
			ensure_eq!(t.get(&mut db, Index::from_one(i as usize).unwrap()), Ok(if cut >= b.len() { Some(val(1000 + b.len() as u64)) } else { None }), "deep get");
			Ok(())
		});
	}
}

/// expected root and inserted pairs of a write
fn ref_set(store: &HashMap<Value, (Value, Value)>, root: &Value, path: &[bool], v: &Value, ins: &mut Vec<(Value, (Value, Value))>, known: bool) -> Value {
	if path.is_empty() { return v.clone() }
	let pair = if known { store.get(root).cloned() } else { None };
	let k = pair.is_some();
	let (l, r) = pair.unwrap_or((zero(), zero()));
	let (l, r) = if path[0] { let x = ref_set(store, &r, &path[1..], v, ins, k); (l, x) } else { let x = ref_set(store, &l, &path[1..], v, ins, k); (x, r) };
	let h = rh(&l, &r);
	ins.push((h.clone(), (l, r)));
	h
}

#[derive(Debug, Hash, Clone)]
enum Op { Set(usize, u64, u64), SetRoot(usize, u64, usize), Fork(usize), Drop(usize), SetNode(usize, u64, usize, u64), }

fn gen_ops(r: &mut Rng, n: usize, maxi: u64) -> Vec<Op> {
	(0..n).map(|_| { let t = r.us(4); match r.below(12) {
		0 | 1 | 2 | 3 | 4 | 5 | 6 => Op::Set(t, 1 + r.below(maxi), r.below(4)),
		7 | 8 => Op::SetRoot(t, 1 + r.below(maxi), r.us(4)),
		9 => Op::SetNode(t, 1 + r.below(maxi), r.us(4), 1 + r.below(7)),
		10 => Op::Fork(t),
		_ => Op::Drop(t),
	} }).collect()
}
fn small(x: u64) -> Value { if x == 0 { zero() } else { val(x) } }

/// Multi-tree history; `S` is everything ever inserted while `store_of` tells what the backend knows now.
fn raw_history<R: RootStatus, DB: WriteBackend<Construct = Inh>>(
	db: &mut DB, ops: &[Op], known: &dyn Fn(&mut DB, &Value) -> Option<(Value, Value)>, maxi: u64,
) -> Result<(), String> where DB::Error: std::fmt::Debug + PartialEq {
	let mut trees: Vec<Raw<R, Inh>> = (0..4).map(|_| Raw::default()).collect();
	// reachable snapshot of the backend below a root, depth-limited
	fn snap<DB>(db: &mut DB, known: &dyn Fn(&mut DB, &Value) -> Option<(Value, Value)>, root: &Value, i: u64, maxi: u64, out: &mut Vec<(u64, Value)>) {
		out.push((i, root.clone()));
		if 2 * i > maxi { return }
		if let Some((l, r)) = known(db, root) { snap(db, known, &l, 2 * i, maxi, out); snap(db, known, &r, 2 * i + 1, maxi, out); }
	}
	for (n, op) in ops.iter().enumerate() {
		let before: Vec<Vec<(u64, Value)>> = trees.iter().map(|t| { let mut o = vec![]; snap(db, known, &t.root(), 1, 4 * maxi, &mut o); o }).collect();
		let (t, i, v) = match op {
			Op::Set(t, i, v) => (*t, *i, small(*v)),
			Op::SetRoot(t, i, s) => (*t, *i, trees[*s].root()),
			Op::SetNode(t, i, s, j) => { let j = *j; let v = before[*s].iter().find(|x| x.0 == j).map(|x| x.1.clone()).unwrap_or(zero()); (*t, *i, v) },
			Op::Fork(_) => continue,
			Op::Drop(t) => {
				let old = std::mem::replace(&mut trees[*t], Raw::default());
				old.drop(db).map_err(|e| format!("drop: {:?}", e))?;
				for (k, tr) in trees.iter().enumerate() { if k != *t {
					let mut o = vec![]; snap(db, known, &tr.root(), 1, 4 * maxi, &mut o);
					ensure_eq!(o, before[k], "tree {} changed by dropping tree {} (step {})", k, t, n);
				} }
				continue
			},
		};
		let mut store = HashMap::new();
		// what the walk sees
		fn coll<DB>(db: &mut DB, known: &dyn Fn(&mut DB, &Value) -> Option<(Value, Value)>, root: &Value, d: usize, s: &mut HashMap<Value, (Value, Value)>) {
			if d == 0 || s.contains_key(root) { return }
			if let Some((l, r)) = known(db, root) { s.insert(root.clone(), (l.clone(), r.clone())); coll(db, known, &l, d - 1, s); coll(db, known, &r, d - 1, s); }
		}
		coll(db, known, &trees[t].root(), 12, &mut store);
		let mut ins = vec![];
		let p = bits(i);
		let exp = ref_set(&store, &trees[t].root(), &p, &v, &mut ins, true);
		trees[t].set(db, Index::from_one(i as usize).unwrap(), v.clone()).map_err(|e| format!("set failed at step {}: {:?}", n, e))?;
		ensure_eq!(trees[t].root(), exp, "root after step {} {:?}", n, op);
		let ix = |j: u64| Index::from_one(j as usize).unwrap();
		ensure_eq!(trees[t].get(db, ix(i)).map_err(|e| format!("{:?}", e))?, Some(v.clone()), "read after write, step {}", n);
		let bmap: HashMap<u64, Value> = before[t].iter().cloned().collect();
		for j in 1..=(2 * maxi) {
			let pj = bits(j);
			let m = pj.len().min(p.len());
			if pj[..m] == p[..m] { continue }
			let got = trees[t].get(db, ix(j)).map_err(|e| format!("{:?}", e))?;
			match bmap.get(&j) {
				Some(b) => ensure_eq!(got, Some(b.clone()), "frame: index {} after writing {} (step {})", j, i, n),
				None => {
					// previously unknown: now either still unknown or the default sibling of an unknown node
					let anc_known = { let mut a = j / 2; let mut k = false; while a > 0 { if bmap.contains_key(&a) { k = bmap.contains_key(&(2 * a)); break } a /= 2 } k };
					if !anc_known { ensure!(got.is_none() || got == Some(zero()), "frame: unknown index {} became {:?} (step {})", j, got, n); }
				},
			}
		}
		for (k, tr) in trees.iter().enumerate() { if k != t {
			let mut o = vec![]; snap(db, known, &tr.root(), 1, 4 * maxi, &mut o);
			let ob: HashMap<u64, Value> = o.iter().cloned().collect();
			for (j, b) in &before[k] { ensure_eq!(ob.get(j), Some(b), "tree {} index {} after writing tree {} (step {})", k, j, t, n); }
		} }
	}
	Ok(())
}

pub fn c03(c: &mut Ctx) {
	c.rule = "random histories of writes (leaf values, roots and inner nodes of other trees), drops over four trees sharing one backend; owned over the in-memory backend, owned and dangling over a non-collecting backend; non-trivial: at least three operations".into();
	// single write exhaustive over small prior shapes
	for a in 1..32u64 { for b in 1..32u64 {
		let ops = vec![Op::Set(0, a, 1), Op::Set(0, b, 2), Op::SetRoot(1, 3, 0), Op::Set(0, b, 3)];
		c.case((a, b), true, || { let mut db = Rec::<Inh>::default(); raw_history::<Owned, _>(&mut db, &ops, &|d, k| d.store.get(k).cloned(), 16) });
		if c.over() { return }
	} }
	let n = c.n(1200, 20000);
	for it in 0..n {
		if c.over() { break }
		let len = 1 + c.rng.us(14);
		let maxi = [3u64, 7, 15, 31][c.rng.us(4)];
		let ops = gen_ops(&mut c.rng, len, maxi);
		let nt = len >= 3;
		match it % 3 {
			0 => c.case(("owned/rec", &ops), nt, || { let mut db = Rec::<Inh>::default(); raw_history::<Owned, _>(&mut db, &ops, &|d, k| d.store.get(k).cloned(), maxi) }),
			1 => c.case(("dangling/rec", &ops), nt, || { let mut db = Rec::<Inh>::default(); raw_history::<Dangling, _>(&mut db, &ops, &|d, k| d.store.get(k).cloned(), maxi) }),
			_ => c.case(("owned/in-memory", &ops), nt, || { let mut db = InMemoryBackend::<Inh>::default(); raw_history::<Owned, _>(&mut db, &ops, &|d, k| d.as_ref().get(k).and_then(|v| v.0.clone()), maxi) }),
		};
	}
	// deep single writes, complete log
	for it in 0..c.n(100, 1000) {
		if c.over() { break }
		let depth = 1 + c.rng.us(63);
		let i = (1u64 << depth) | (c.rng.next() & ((1u64 << depth) - 1));
		let j = i ^ (1u64 << c.rng.us(depth));
		c.case((it, "deep", i, j), true, || {
			let mut db = Rec::<Inh>::default();
			let mut t = DanglingRaw::<Inh>::default();
			let mut st = HashMap::new();
			let mut root = zero();
			for (k, (x, v)) in [(i, val(1)), (j, val(2)), (i, val(3))].iter().enumerate() {
				let mut ins = vec![];
				root = ref_set(&st, &root, &bits(*x), v, &mut ins, true);
				for (a, b) in ins { st.insert(a, b); }
				t.set(&mut db, Index::from_one(*x as usize).unwrap(), v.clone()).map_err(|e| format!("{:?}", e))?;
				ensure_eq!(t.root(), root, "root after deep write {}", k);
			}
			ensure_eq!(t.get(&mut db, Index::from_one(i as usize).unwrap()), Ok(Some(val(3))), "deep read");
			ensure_eq!(t.get(&mut db, Index::from_one(j as usize).unwrap()), Ok(Some(val(2))), "deep read");
			Ok(())
		});
	}
}

// ---------------- C04 ----------------

struct Book { refs: i64 }
fn nonneg(log: &[Call], book: &mut HashMap<Value, i64>, total: &mut i64, floor: i64, what: &str) -> Result<(), String> {
	for x in log {
		match x {
			Call::Root(k) => { *book.entry(k.clone()).or_insert(0) += 1; *total += 1 },
			Call::Unroot(k) => {
				let e = book.entry(k.clone()).or_insert(0);
				*e -= 1; *total -= 1;
				ensure!(*e >= 0 || *k == zero(), "{}: released a root that was not registered: {:?}", what, k);
				ensure!(*total >= floor, "{}: released the old root before registering the new one", what);
			},
			_ => (),
		}
	}
	Ok(())
}
fn live(book: &HashMap<Value, i64>) -> HashMap<Value, i64> { book.iter().filter(|(k, n)| **n != 0 && **k != zero()).map(|(k, n)| (k.clone(), *n)).collect() }

#[derive(Debug, Clone, Hash)]
pub enum SOp { Push(u64), Pop, Set(usize, u64), Get(usize), Leak }

pub fn gen_sops(r: &mut Rng, n: usize, bias: u64) -> Vec<SOp> {
	let mut b = bias;
	(0..n).map(|k| { if k % 16 == 15 { b = r.below(3) } match r.below(10) {
		0..=3 => if b == 2 { SOp::Pop } else { SOp::Push(1 + r.below(1 << 40)) },
		4 | 5 => if b == 1 { SOp::Push(1 + r.below(1 << 40)) } else { SOp::Pop },
		6 | 7 => SOp::Set(r.us(2 + n), r.below(1 << 40)),
		8 => SOp::Get(r.us(2 + n)),
		_ => SOp::Leak,
	} }).collect()
}

type P8<R, C> = PackedVector<R, C, generic_array::GenericArray<u8, typenum::U8>, typenum::U32, typenum::U8>;
type PL8<R, C> = PackedList<R, C, generic_array::GenericArray<u8, typenum::U8>, typenum::U32, typenum::U8>;
fn p8(x: u64) -> generic_array::GenericArray<u8, typenum::U8> { generic_array::GenericArray::from(x.to_le_bytes()) }

macro_rules! own_hist {
	($name:ident, $create:expr, $ty:ty, $own:expr, $mk:expr, $c:ty, $exists:expr) => {
		fn $name(ops: &[SOp], max: Option<u64>) -> Result<(), String> {
			let mut db = Rec::<$c>::default();
			let mut book: HashMap<Value, i64> = HashMap::new();
			// owned: one reference on the implicit default root is assumed at creation
			let mut total: i64 = if $own { 1 } else { 0 };
			let floor: i64 = if $own { 1 } else { 0 };
			// creating a list builds a temporary inner vector, which is created and released in turn
			let created = $create(&mut db, max);
			let mut t: $ty = match created { Ok(t) => t, Err(_) => return Ok(()) };
			total = 0; for x in &db.log { match x { Call::Root(k) => { total += 1; *book.entry(k.clone()).or_insert(0) += 1 }, Call::Unroot(k) => { total -= 1; *book.entry(k.clone()).or_insert(0) -= 1 }, _ => () } }
			db.log.clear();
			total = if $own { 1 } else { total };
			let chk = |t: &$ty, book: &HashMap<Value, i64>, what: &str| -> Result<(), String> {
				let mut exp = HashMap::new();
				if $own && t.root() != zero() { exp.insert(t.root(), 1i64); }
				ensure_eq!(live(book), exp, "registered roots after {}", what);
				Ok(())
			};
			if $own { chk(&t, &book, "create")?; }
			for (n, op) in ops.iter().enumerate() {
				let w = format!("step {} {:?}", n, op);
				match op {
					SOp::Push(v) => { let _ = t.push(&mut db, $mk(*v)); },
					SOp::Pop => { let _ = t.pop(&mut db); },
					SOp::Set(i, v) => { let _ = t.set(&mut db, *i, $mk(*v)); },
					SOp::Get(i) => { let _ = t.get(&mut db, *i); ensure!(db.log.iter().all(|x| if let Call::Get(_) = x { true } else { false }), "{}: read wrote", w); },
					SOp::Leak => {
						let (r0, l0) = (t.root(), t.len());
						let m = t.metadata();
						t = <$ty>::from_leaked(m);
						ensure_eq!((t.root(), t.len()), (r0, l0), "{}: leaked and restored", w);
					},
				}
				let log = std::mem::replace(&mut db.log, vec![]);
				if !$own { ensure!(log.iter().all(|x| match x { Call::Root(_) | Call::Unroot(_) => $exists, _ => true }), "{}: dangling tree touched root references", w); }
				nonneg(&log, &mut book, &mut total, floor, &w)?;
				if $own { chk(&t, &book, &w)?; }
			}
			t.drop(&mut db).map_err(|e| format!("drop {:?}", e))?;
			for x in &db.log { match x { Call::Root(k) => *book.entry(k.clone()).or_insert(0) += 1, Call::Unroot(k) => *book.entry(k.clone()).or_insert(0) -= 1, _ => () } }
			if $own { ensure_eq!(live(&book), HashMap::new(), "registered roots after drop"); }
			else { ensure!(db.log.is_empty(), "dropping a dangling tree called the backend"); }
			Ok(())
		}
	}
}
fn w(x: u64) -> Value { val(x) }
own_hist!(oh_vec_i, (|db: &mut Rec<Inh>, m| Vector::<Owned, Inh>::create(db, 0, m)), OwnedVector<Inh>, true, w, Inh, false);
own_hist!(oh_vec_i3, (|db: &mut Rec<Inh>, m: Option<u64>| Vector::<Owned, Inh>::create(db, 3, m.map(|x| x + 3))), OwnedVector<Inh>, true, w, Inh, false);
own_hist!(oh_vec_u, (|db: &mut Rec<Unit>, m| Vector::<Owned, Unit>::create(db, 0, m)), OwnedVector<Unit>, true, w, Unit, false);
own_hist!(oh_list_i, (|db: &mut Rec<Inh>, m| List::<Owned, Inh>::create(db, m)), OwnedList<Inh>, true, w, Inh, false);
own_hist!(oh_list_u, (|db: &mut Rec<Unit>, m| List::<Owned, Unit>::create(db, m)), OwnedList<Unit>, true, w, Unit, false);
own_hist!(oh_pv_i, (|db: &mut Rec<Inh>, m| P8::<Owned, Inh>::create(db, 0, m)), P8<Owned, Inh>, true, p8, Inh, false);
own_hist!(oh_pl_i, (|db: &mut Rec<Inh>, m| PL8::<Owned, Inh>::create(db, m)), PL8<Owned, Inh>, true, p8, Inh, false);
own_hist!(dh_vec_i, (|_db: &mut Rec<Inh>, m| -> Result<_, ()> { Ok(DanglingRaw::<Inh>::default().into_vector(0, m)) }), DanglingVector<Inh>, false, w, Inh, false);
own_hist!(dh_pv_i, (|_db: &mut Rec<Inh>, m| -> Result<_, ()> { Ok(P8::<Dangling, Inh>::from_raw(Raw::default(), 0, m)) }), P8<Dangling, Inh>, false, p8, Inh, false);
own_hist!(dh_list_i, (|db: &mut Rec<Inh>, m| -> Result<_, ()> { let l = List::<Owned, Inh>::create(db, m).map_err(|_| ())?; db.log.clear(); Ok(DanglingList::<Inh>::from_leaked(l.metadata())) }), DanglingList<Inh>, false, w, Inh, false);

pub fn c04(c: &mut Ctx) {
	let _ = Book { refs: 0 }.refs;
	c.rule = "random operation sequences over raw trees, vectors, packed vectors, lists and packed lists of both ownership kinds with every backend call recorded; non-trivial: at least one write".into();
	// raw
	for it in 0..c.n(600, 8000) {
		if c.over() { break }
		let k = 1 + c.rng.us(8);
		let seq: Vec<(u64, u64)> = (0..k).map(|_| (1 + c.rng.below(31), c.rng.below(4))).collect();
		let own = it % 2 == 0;
		c.case(("raw", own, &seq), true, || {
			let mut db = Rec::<Inh>::default();
			let mut book = HashMap::new();
			fn go<R: RootStatus>(db: &mut Rec<Inh>, book: &mut HashMap<Value, i64>, seq: &[(u64, u64)], own: bool) -> Result<(), String> {
				let mut total = if own { 1 } else { 0 };
				let floor = total;
				let mut t = Raw::<R, Inh>::default();
				for (i, v) in seq {
					t.set(db, Index::from_one(*i as usize).unwrap(), small(*v)).map_err(|_| "set")?;
					if *v == 3 { let m = t.metadata(); t = Raw::from_leaked(m) }
					if *v == 2 { let s = t.subtree(db, Index::from_one(*i as usize).unwrap()).map_err(|_| "subtree")?; s.drop(db).map_err(|_| "drop")?; let _ = t.as_dangling().drop(db); }
					let log = std::mem::replace(&mut db.log, vec![]);
					if !own { ensure!(log.iter().all(|x| match x { Call::Root(_) | Call::Unroot(_) => false, _ => true }), "dangling tree touched root references"); }
					nonneg(&log, book, &mut total, floor, "raw set")?;
					let mut exp = HashMap::new();
					if own && t.root() != zero() { exp.insert(t.root(), 1i64); }
					ensure_eq!(live(book), exp, "registered roots");
				}
				let r = t.root();
				t.drop(db).map_err(|_| "drop")?;
				ensure_eq!(db.log, if own { vec![Call::Unroot(r)] } else { vec![] }, "calls made by drop");
				Ok(())
			}
			if own { go::<Owned>(&mut db, &mut book, &seq, true) } else { go::<Dangling>(&mut db, &mut book, &seq, false) }
		});
	}
	let fs: Vec<(&str, fn(&[SOp], Option<u64>) -> Result<(), String>)> = vec![
		("vector/inherited", oh_vec_i), ("vector3/inherited", oh_vec_i3), ("vector/unit", oh_vec_u), ("list/inherited", oh_list_i), ("list/unit", oh_list_u),
		("packed vector", oh_pv_i), ("packed list", oh_pl_i), ("dangling vector", dh_vec_i), ("dangling packed vector", dh_pv_i), ("dangling list", dh_list_i)];
	for _ in 0..c.n(120, 2500) {
		for (name, f) in &fs {
			if c.over() { return }
			let len = 1 + c.rng.us(40);
			let b = c.rng.below(3);
			let ops = gen_sops(&mut c.rng, len, b);
			let max = if c.rng.bool() { None } else { Some(1 + c.rng.below(20)) };
			c.case((*name, max, &ops), true, || f(&ops, max));
		}
	}
}

// ---------------- C05 ----------------

type Mem = InMemoryBackend<Inh>;
type Store = HashMap<Value, Option<(Value, Value)>>;

struct Gc { e: Store, roots: HashMap<Value, u64>, pinned: HashSet<Value>, counts: HashMap<Value, u64> }
impl Gc {
	fn new() -> Self { let mut g = Gc { e: HashMap::new(), roots: HashMap::new(), pinned: HashSet::new(), counts: HashMap::new() }; g.e.insert(zero(), None); g.pinned.insert(zero()); g }
	fn refs(&self, k: &Value) -> u64 {
		let mut n = *self.roots.get(k).unwrap_or(&0);
		n += *self.counts.get(k).unwrap_or(&0);
		n
	}
	fn add(&mut self, k: &Value) { self.e.entry(k.clone()).or_insert(None); }
	fn insert(&mut self, k: &Value, l: &Value, r: &Value) {
		if let Some(Some(_)) = self.e.get(k) { return }
		self.add(l); self.add(r);
		*self.counts.entry(l.clone()).or_insert(0) += 1;
		*self.counts.entry(r.clone()).or_insert(0) += 1;
		self.e.insert(k.clone(), Some((l.clone(), r.clone())));
	}
	fn rootify(&mut self, k: &Value) { self.add(k); *self.roots.entry(k.clone()).or_insert(0) += 1 }
	fn dead(&mut self, k: &Value) {
		if self.pinned.contains(k) || self.refs(k) > 0 { return }
		if let Some(Some((l, r))) = self.e.remove(k) {
			*self.counts.get_mut(&l).unwrap() -= 1; self.dead(&l);
			*self.counts.get_mut(&r).unwrap() -= 1; self.dead(&r);
		}
	}
	fn unrootify(&mut self, k: &Value) { if let Some(n) = self.roots.get_mut(k) { *n -= 1 } self.dead(k) }
	fn populate(&mut self, ps: &[(Value, Value, Value)]) {
		for (k, l, r) in ps {
			// a counted key that becomes pinned keeps its claims on its children for good, harmlessly: they are pinned too
			self.e.insert(k.clone(), Some((l.clone(), r.clone()))); self.add(l); self.add(r);
			for x in &[k, l, r] { self.pinned.insert((*x).clone()); }
			*self.counts.entry(l.clone()).or_insert(0) += 1; *self.counts.entry(r.clone()).or_insert(0) += 1;
		}
	}
}
fn mem_view(db: &Mem) -> Store { db.as_ref().iter().map(|(k, v)| (k.clone(), v.0.clone())).collect() }

#[derive(Debug, Clone, Hash)]
enum GOp { Ins(usize, usize), Root(usize), Unroot(usize), Pop(Vec<usize>) }

fn gc_run(ops: &[GOp]) -> Result<(), String> {
	let mut db = Mem::default();
	let mut g = Gc::new();
	// pool of values: leaves then every node made so far
	let mut pool = vec![zero(), val(1), val(2)];
	let mut made: HashMap<Value, (Value, Value)> = HashMap::new();
	let mut held: Vec<Value> = vec![];
	for (n, op) in ops.iter().enumerate() {
		match op {
			GOp::Ins(a, b) => {
				let (l, r) = (pool[a % pool.len()].clone(), pool[b % pool.len()].clone());
				let h = rh(&l, &r);
				db.insert(h.clone(), (l.clone(), r.clone())).map_err(|e| format!("{:?}", e))?;
				g.insert(&h, &l, &r);
				if !made.contains_key(&h) { pool.push(h.clone()); made.insert(h, (l, r)); }
			},
			GOp::Root(a) => { let k = pool[a % pool.len()].clone(); db.rootify(&k).map_err(|e| format!("{:?}", e))?; g.rootify(&k); held.push(k) },
			GOp::Unroot(a) => { if held.is_empty() { continue } let i = a % held.len(); let k = held.swap_remove(i); db.unrootify(&k).map_err(|e| format!("{:?}", e))?; g.unrootify(&k) },
			GOp::Pop(v) => {
				let mut ps = vec![];
				let mut m = HashMap::new();
				for a in v { let k = pool[a % pool.len()].clone(); if let Some((l, r)) = made.get(&k) { if m.insert(k.clone(), (l.clone(), r.clone())).is_none() { ps.push((k, l.clone(), r.clone())) } } }
				db.populate(m); g.populate(&ps);
			},
		}
		ensure_eq!(sorted(&mem_view(&db)), sorted(&g.e), "entries after step {} {:?}", n, op);
		for k in &pool {
			let got = db.get(k).map_err(|e| format!("{:?}", e))?;
			ensure_eq!(got, g.e.get(k).cloned().unwrap_or(None), "get after step {}", n);
		}
		// independent of the count model: everything below a held root whose children were ever known while held stays known
		ensure!(mem_view(&db).contains_key(&zero()), "default value lost");
	}
	Ok(())
}
fn sorted(s: &Store) -> Vec<(Value, Option<(Value, Value)>)> { let mut v: Vec<_> = s.iter().map(|(a, b)| (a.clone(), b.clone())).collect(); v.sort(); v }

pub fn c05(c: &mut Ctx) {
	c.rule = "sequences of insert/rootify/unrootify/populate over a growing pool of shared nodes: all sequences of a small alphabet to length 6, random to length 40, against a reference-counting oracle; plus histories of several owned trees and vectors dropped in random order; non-trivial: a node is inserted and a root released".into();
	let alpha: Vec<GOp> = vec![GOp::Ins(1, 2), GOp::Ins(3, 3), GOp::Ins(3, 1), GOp::Root(3), GOp::Root(4), GOp::Unroot(0), GOp::Unroot(1), GOp::Pop(vec![3, 4])];
	let len = c.n(5, 6);
	let mut st = vec![0usize; len];
	'ex: loop {
		let ops: Vec<GOp> = st.iter().map(|i| alpha[*i].clone()).collect();
		c.case(&ops, true, || gc_run(&ops));
		if c.over() { break }
		let mut k = 0;
		loop { if k == len { break 'ex } st[k] += 1; if st[k] < alpha.len() { break } st[k] = 0; k += 1; }
	}
	for _ in 0..c.n(4000, 60000) {
		if c.over() { break }
		let n = 2 + c.rng.us(38);
		let pop = c.rng.below(4) == 0;
		let ops: Vec<GOp> = (0..n).map(|_| { let r = &mut c.rng; match r.below(if pop { 11 } else { 10 }) { 0..=4 => GOp::Ins(r.us(12), r.us(12)), 5 | 6 => GOp::Root(r.us(16)), 7..=9 => GOp::Unroot(r.us(8)), _ => GOp::Pop(vec![r.us(12), r.us(12)]) } }).collect();
		c.case(&ops, true, || gc_run(&ops));
	}
	// whole trees: everything is reclaimed once dropped
	for _ in 0..c.n(400, 6000) {
		if c.over() { break }
		let nt = 1 + c.rng.us(4);
		let per = 1 + c.rng.us(20);
		let scripts: Vec<(bool, Option<u64>, Vec<SOp>)> = (0..nt).map(|_| { let b = c.rng.below(3); (c.rng.bool(), if c.rng.bool() { None } else { Some(1 + c.rng.below(17)) }, gen_sops(&mut c.rng, per, b)) }).collect();
		let raws: Vec<(usize, u64, u64)> = (0..per).map(|_| (c.rng.us(3), 1 + c.rng.below(40), c.rng.below(4))).collect();
		let order = c.rng.next();
		c.case(("drop-all", &scripts, &raws, order), true, || {
			let mut db = Mem::default();
			let init = sorted(&mem_view(&db));
			let mut vecs = vec![];
			for s in &scripts { vecs.push((OwnedVector::<Inh>::create(&mut db, 0, s.1).map_err(|e| format!("{:?}", e))?, Vec::<Value>::new())); }
			let mut rs: Vec<OwnedRaw<Inh>> = (0..3).map(|_| Raw::default()).collect();
			for k in 0..per {
				for (j, s) in scripts.iter().enumerate() {
					let (t, m) = &mut vecs[j];
					let e = |e: bm::Error<InMemoryBackendError>| format!("{:?}", e);
					match &s.2[k] {
						SOp::Push(v) => { if s.1.map(|x| (m.len() as u64) < x).unwrap_or(true) { t.push(&mut db, small(v % 3)).map_err(e)?; m.push(small(v % 3)) } },
						SOp::Pop => { let x = t.pop(&mut db).map_err(e)?; ensure_eq!(x, m.pop(), "pop"); },
						SOp::Set(i, v) => if *i < m.len() { t.set(&mut db, *i, small(v % 3)).map_err(e)?; m[*i] = small(v % 3) },
						_ => (),
					}
				}
				let (a, i, v) = raws[k];
				let x = if v == 3 && !vecs.is_empty() { vecs[0].0.root() } else { small(v) };
				rs[a].set(&mut db, Index::from_one(i as usize).unwrap(), x).map_err(|e| format!("{:?}", e))?;
				for (t, m) in &vecs { for (i, x) in m.iter().enumerate() { ensure_eq!(t.get(&mut db, i).map_err(|e| format!("{:?}", e))?, x.clone(), "live element {} after step {}", i, k); } }
			}
			let mut r = Rng(order);
			while !vecs.is_empty() || !rs.is_empty() {
				if !vecs.is_empty() && (rs.is_empty() || r.bool()) { let i = r.us(vecs.len()); let (t, _) = vecs.swap_remove(i); t.drop(&mut db).map_err(|e| format!("{:?}", e))?; }
				else { let i = r.us(rs.len()); rs.swap_remove(i).drop(&mut db).map_err(|e| format!("{:?}", e))?; }
				for (t, m) in &vecs { for (i, x) in m.iter().enumerate() { ensure_eq!(t.get(&mut db, i).map_err(|e| format!("{:?}", e))?, x.clone(), "live element {} while dropping", i); } }
			}
			ensure_eq!(sorted(&mem_view(&db)), init, "store after dropping every tree");
			Ok(())
		});
	}
	// very many references to one node, from roots and from parents
	for &n in &[2usize, 254, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 70000] {
		if c.over() { break }
		for mode in 0..3usize { c.case(("many-references", n, mode), true, || {
			let mut db = Mem::default();
			let init = sorted(&mem_view(&db));
			let e = |e: InMemoryBackendError| format!("{:?}", e);
			let (l, r) = (val(1), val(2));
			let k = rh(&l, &r);
			let parent = |i: usize| rh(&k, &val(10 + i as u64));
			for i in 0..n {
				db.insert(k.clone(), (l.clone(), r.clone())).map_err(e)?;
				if mode == 0 || (mode == 2 && i % 2 == 0) { db.rootify(&k).map_err(e)? }
				else { db.insert(parent(i), (k.clone(), val(10 + i as u64))).map_err(e)?; db.rootify(&parent(i)).map_err(e)? }
			}
			for i in 0..n {
				ensure_eq!(db.get(&k).map_err(e)?, Some((l.clone(), r.clone())), "node shared by {} references after releasing {}", n, i);
				if mode == 0 || (mode == 2 && i % 2 == 0) { db.unrootify(&k).map_err(e)? } else { db.unrootify(&parent(i)).map_err(e)? }
			}
			ensure_eq!(sorted(&mem_view(&db)), init, "store after releasing {} references", n);
			Ok(())
		}); }
	}
	// without limits or padding nothing at all may survive
	for _ in 0..c.n(300, 4000) {
		if c.over() { break }
		let k = 1 + c.rng.us(12);
		let seq: Vec<(usize, u64, u64)> = (0..k).map(|_| (c.rng.us(3), 1 + c.rng.below(40), c.rng.below(5))).collect();
		c.case(("raw-drop-all", &seq), true, || {
			let mut db = Mem::default();
			let init = sorted(&mem_view(&db));
			let mut rs: Vec<OwnedRaw<Inh>> = (0..3).map(|_| Raw::default()).collect();
			for (a, i, v) in &seq { let x = if *v == 4 { rs[(*a + 1) % 3].root() } else { small(*v) }; rs[*a].set(&mut db, Index::from_one(*i as usize).unwrap(), x).map_err(|e| format!("{:?}", e))?; }
			for t in rs { t.drop(&mut db).map_err(|e| format!("{:?}", e))?; }
			ensure_eq!(sorted(&mem_view(&db)), init, "store after dropping every tree");
			Ok(())
		});
	}
}
