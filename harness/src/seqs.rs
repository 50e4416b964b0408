//! C06..C10
use crate::util::*;
use crate::basic::{SOp, gen_sops};
use crate::{ensure, ensure_eq};
use bm::*;
use bm::utils::{vector_tree, required_depth, host_len, host_max_len};
use bm_le::Value;
use generic_array::{GenericArray, ArrayLength};
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::fmt::Debug;
use std::marker::PhantomData;

fn v(n: u64) -> Value { if n == 0 { zero() } else { val(n) } }

/// What a sequence under test offers, uniformly.
trait Seq<DB: WriteBackend> where DB::Construct: Kind {
	fn get(&self, db: &mut DB, i: usize) -> Result<Value, Error<DB::Error>>;
	fn set(&mut self, db: &mut DB, i: usize, x: Value) -> Result<(), Error<DB::Error>>;
	fn push(&mut self, db: &mut DB, x: Value) -> Result<(), Error<DB::Error>>;
	fn pop(&mut self, db: &mut DB) -> Result<Option<Value>, Error<DB::Error>>;
	fn length(&self) -> usize;
	fn root_(&self) -> Value;
	/// leak/restore (vectors), deconstruct/reconstruct (lists)
	fn reload(self, db: &mut DB, max: Option<u64>) -> Result<Self, Error<DB::Error>> where Self: Sized;
}
impl<R: RootStatus, C: Kind, DB: WriteBackend<Construct = C>> Seq<DB> for Vector<R, C> {
	fn get(&self, db: &mut DB, i: usize) -> Result<Value, Error<DB::Error>> { Vector::get(self, db, i) }
	fn set(&mut self, db: &mut DB, i: usize, x: Value) -> Result<(), Error<DB::Error>> { Vector::set(self, db, i, x) }
	fn push(&mut self, db: &mut DB, x: Value) -> Result<(), Error<DB::Error>> { Vector::push(self, db, x) }
	fn pop(&mut self, db: &mut DB) -> Result<Option<Value>, Error<DB::Error>> { Vector::pop(self, db) }
	fn length(&self) -> usize { assert_eq!(Vector::len(self), Sequence::len(self)); Vector::len(self) }
	fn root_(&self) -> Value { self.root() }
	fn reload(self, _db: &mut DB, max: Option<u64>) -> Result<Self, Error<DB::Error>> {
		assert_eq!(self.max_len(), max);
		let m = self.metadata();
		let x = Self::from_leaked(m);
		let (len, max) = (Vector::len(&x), x.max_len());
		Ok(x.into_raw().into_vector(len, max))
	}
}
impl<R: RootStatus, C: Kind, DB: WriteBackend<Construct = C>> Seq<DB> for List<R, C> {
	fn get(&self, db: &mut DB, i: usize) -> Result<Value, Error<DB::Error>> { List::get(self, db, i) }
	fn set(&mut self, db: &mut DB, i: usize, x: Value) -> Result<(), Error<DB::Error>> { List::set(self, db, i, x) }
	fn push(&mut self, db: &mut DB, x: Value) -> Result<(), Error<DB::Error>> { List::push(self, db, x) }
	fn pop(&mut self, db: &mut DB) -> Result<Option<Value>, Error<DB::Error>> { List::pop(self, db) }
	fn length(&self) -> usize { Sequence::len(self) }
	fn root_(&self) -> Value { self.root() }
	fn reload(self, db: &mut DB, max: Option<u64>) -> Result<Self, Error<DB::Error>> {
		let r = self.root();
		let h = self.deconstruct(db)?;
		assert_eq!(r, h, "deconstruct returns the root");
		List::reconstruct(h, db, max)
	}
}

fn snapshot<DB: WriteBackend, S: Seq<DB>>(s: &S, db: &mut DB) -> Result<Vec<Value>, String> where DB::Construct: Kind, DB::Error: Debug {
	(0..s.length()).map(|i| s.get(db, i).map_err(|e| format!("get({}) of {}: {:?}", i, s.length(), e))).collect()
}

/// check: returns expected root of contents
fn seq_run<DB: WriteBackend, S: Seq<DB>>(mut s: S, db: &mut DB, ops: &[SOp], max: Option<u64>, init: Vec<Value>, contents: bool, roots: &dyn Fn(&[Value], Option<u64>) -> Value, what: u8) -> Result<(), String>
where DB::Construct: Kind, DB::Error: Debug + PartialEq {
	let mut m: Vec<Value> = init;
	for (n, op) in ops.iter().enumerate() {
		let before = s.root_();
		let w = format!("step {} {:?} (len {})", n, op, m.len());
		match op {
			SOp::Push(x) => {
				let full = max.map(|k| m.len() as u64 >= k).unwrap_or(false);
				let r = s.push(db, v(*x));
				if full { ensure_eq!(r, Err(Error::AccessOverflowed), "push on full, {}", w); ensure_eq!(s.root_(), before, "root after failed push, {}", w); }
				else { ensure_eq!(r, Ok(()), "push, {}", w); m.push(v(*x)); }
			},
			SOp::Pop => { let e = m.pop(); let r = s.pop(db); ensure_eq!(r, Ok(e), "pop, {}", w); },
			SOp::Set(i, x) => {
				// half of the time aim inside the length, otherwise at and beyond the boundary
				let i = if *x % 4 != 0 && !m.is_empty() { i % m.len() } else { *i };
				let r = s.set(db, i, v(*x));
				if i >= m.len() { ensure_eq!(r, Err(Error::AccessOverflowed), "set({}) out of range, {}", i, w); ensure_eq!(s.root_(), before, "root after failed set, {}", w); }
				else { ensure_eq!(r, Ok(()), "set({}), {}", i, w); m[i] = v(*x); }
			},
			SOp::Get(i) => {
				for i in &[*i, m.len(), m.len() + 1, m.len().next_power_of_two(), usize::max_value(), usize::max_value() / 2 + 1] {
					let r = s.get(db, *i);
					if *i >= m.len() { ensure_eq!(r, Err(Error::AccessOverflowed), "get({}) out of range, {}", i, w); }
					else { ensure_eq!(r, Ok(m[*i].clone()), "get({}), {}", i, w); }
				}
				ensure_eq!(s.set(db, m.len(), v(9)), Err(Error::AccessOverflowed), "set at the length, {}", w);
				ensure_eq!(s.root_(), before, "root after reads and failed writes, {}", w);
			},
			SOp::Leak => { s = s.reload(db, max).map_err(|e| format!("reload: {:?}, {}", e, w))?; ensure_eq!(s.root_(), before, "root after reload, {}", w); },
		}
		ensure_eq!(s.length(), m.len(), "length, {}", w);
		if contents && what & 1 != 0 { ensure_eq!(snapshot(&s, db)?, m, "contents, {}", w); }
		if what & 2 != 0 { ensure_eq!(s.root_(), roots(&m, max), "root, {}", w); }
	}
	Ok(())
}

fn vec_roots(inh: bool) -> impl Fn(&[Value], Option<u64>) -> Value {
	move |m, max| merkle(m, max.unwrap_or((m.len() as u64).max(1)), inh)
}
fn list_roots(inh: bool) -> impl Fn(&[Value], Option<u64>) -> Value {
	move |m, max| rh(&merkle(m, max.unwrap_or((m.len() as u64).max(1)), inh), &lenval(m.len() as u64))
}

#[derive(Debug, Clone, Copy, Hash)]
enum Be { Mem, Rec }

fn vec_case<C: Kind>(own: bool, be: Be, len0: usize, max: Option<u64>, ops: &[SOp], what: u8) -> Result<(), String> {
	fn run<C: Kind, R: RootStatus, DB: WriteBackend<Construct = C>>(s: Vector<R, C>, db: &mut DB, len0: usize, max: Option<u64>, ops: &[SOp], what: u8) -> Result<(), String> where DB::Error: Debug + PartialEq {
		ensure_eq!(Vector::len(&s), len0, "length after create");
		ensure_eq!(s.max_len(), max, "max_len after create");
		let f = vec_roots(C::INH);
		if what & 2 != 0 { ensure_eq!(s.root(), f(&vec![zero(); len0], max), "root after create"); }
		seq_run(s, db, ops, max, vec![zero(); len0], true, &f, what)
	}
	match (be, own) {
		(Be::Mem, _) => { let mut db = InMemoryBackend::<C>::default(); let s = Vector::<Owned, C>::create(&mut db, len0, max).map_err(|e| format!("create: {:?}", e))?; run(s, &mut db, len0, max, ops, what) },
		(Be::Rec, true) => { let mut db = Rec::<C>::default(); let s = Vector::<Owned, C>::create(&mut db, len0, max).map_err(|e| format!("create: {:?}", e))?; run(s, &mut db, len0, max, ops, what) },
		(Be::Rec, false) => { let mut db = Rec::<C>::default(); let s = Vector::<Owned, C>::create(&mut db, len0, max).map_err(|e| format!("create: {:?}", e))?; let s = DanglingVector::<C>::from_leaked(s.metadata()); run(s, &mut db, len0, max, ops, what) },
	}
}

fn histories<F: Fn(&mut Ctx, &[SOp])>(c: &mut Ctx, exh: usize, rnd: usize, maxlen: usize, f: F) {
	// exhaustive small alphabet
	let alpha = vec![SOp::Push(1), SOp::Push(2), SOp::Pop, SOp::Set(0, 3), SOp::Set(1, 5), SOp::Leak];
	let mut st = vec![0usize; exh];
	'ex: loop {
		let ops: Vec<SOp> = st.iter().map(|i| alpha[*i].clone()).collect();
		f(c, &ops);
		if c.over() { return }
		let mut k = 0;
		loop { if k == exh { break 'ex } st[k] += 1; if st[k] < alpha.len() { break } st[k] = 0; k += 1; }
	}
	for _ in 0..rnd {
		if c.over() { return }
		let n = 1 + c.rng.us(maxlen);
		let b = c.rng.below(3);
		let ops = gen_sops(&mut c.rng, n, b);
		f(c, &ops);
	}
}

fn pick_max(r: &mut Rng) -> Option<u64> {
	match r.below(6) { 0 | 1 | 2 => None, 3 => Some(1 + r.below(9)), 4 => Some(1 + r.below(70)), _ => Some(1u64 << r.below(40)) }
}

pub fn vec_props(c: &mut Ctx, what: u8) {
	c.rule = "vector histories: all sequences over {push,pop,set,reload} to a small length and random ones to length 90 (growing, shrinking, mixed), inherited/unit empties, owned/dangling, in-memory and recording backends, no/small/large maxima, created empty or with length; non-trivial: every history".into();
	// creation limits
	for len in 0..c.n(70, 300) as u64 { for max in &[None, Some(0u64), Some(1), Some(len.saturating_sub(1)), Some(len), Some(len + 1), Some(2 * len + 1), Some(64), Some(1 << 40)] {
		c.case(("create", len, max), true, || {
			let mut db = Rec::<Inh>::default();
			let r = Vector::<Owned, Inh>::create(&mut db, len as usize, *max);
			let bad = max.map(|m| m == 0 || len > m).unwrap_or(false);
			match r {
				Err(e) => { ensure!(bad, "create({}, {:?}) rejected: {:?}", len, max, e); ensure_eq!(e, Error::InvalidParameter, "create error"); },
				Ok(t) => {
					ensure!(!bad, "create({}, {:?}) accepted", len, max);
					ensure_eq!(t.len(), len as usize, "len");
					if what & 2 != 0 { ensure_eq!(t.root(), vec_roots(true)(&vec![zero(); len as usize], *max), "root of created"); }
					if what & 1 != 0 { for i in 0..len as usize { ensure_eq!(t.get(&mut db, i), Ok(zero()), "created element {}", i); } }
				},
			}
			Ok(())
		});
	} }
	let (e, r) = (c.n(5, 7), c.n(1500, 25000));
	histories(c, e, r, 90, |c, ops| {
		let max = if ops.len() <= 7 { match c.rng.below(4) { 0 => None, k => Some(k) } } else { pick_max(&mut c.rng) };
		let own = c.rng.bool();
		let be = if own && c.rng.bool() { Be::Mem } else { Be::Rec };
		let inh = c.rng.bool();
		let len0 = if inh { let cap = max.unwrap_or(40).min(40); if c.rng.bool() { 0 } else { c.rng.below(cap + 1) as usize } } else { 0 };
		if inh { c.case(("vector", "inherited", own, be, len0, max, ops), true, || vec_case::<Inh>(own, be, len0, max, ops, what)); }
		else { c.case(("vector", "unit", own, be, len0, max, ops), true, || vec_case::<Unit>(own, be, len0, max, ops, what)); }
	});
	// large positions: maxima near the addressing limit
	for k in &[8u32, 31, 32, 33, 40, 53, 62, 63] {
		let max = 1u64 << k;
		c.case(("large", max), true, || {
			let mut db = Rec::<Inh>::default();
			let mut t = Vector::<Owned, Inh>::create(&mut db, max as usize, Some(max)).map_err(|e| format!("create {:?}", e))?;
			let mut exp: HashMap<usize, Value> = HashMap::new();
			for i in &[0usize, 1, (max / 2) as usize - 1, (max / 2) as usize, (max - 1) as usize] { t.set(&mut db, *i, v(*i as u64 % 1000 + 1)).map_err(|e| format!("{:?}", e))?; exp.insert(*i, v(*i as u64 % 1000 + 1)); }
			for (i, x) in &exp { ensure_eq!(t.get(&mut db, *i), Ok(x.clone()), "large get {}", i); }
			ensure_eq!(t.get(&mut db, max as usize), Err(Error::AccessOverflowed), "get at len");
			ensure_eq!(t.push(&mut db, v(1)), Err(Error::AccessOverflowed), "push on full");
			let r = t.root();
			let p = t.pop(&mut db).map_err(|e| format!("{:?}", e))?;
			ensure_eq!(p, Some(exp[&((max - 1) as usize)].clone()), "large pop");
			ensure_eq!(t.len() as u64, max - 1, "len");
			t.push(&mut db, p.unwrap()).map_err(|e| format!("{:?}", e))?;
			ensure_eq!(t.root(), r, "root after pop/push");
			Ok(())
		});
	}
	// the longest vector an index can address, without a maximum
	for d in 0..3usize { c.case(("longest", d), true, || {
		let top = 1usize << 63;
		let mut db = Rec::<Inh>::default();
		let mut t = Vector::<Owned, Inh>::create(&mut db, top - d, None).map_err(|e| format!("create {:?}", e))?;
		for k in 0..d { t.push(&mut db, v(k as u64 + 7)).map_err(|e| format!("push {}: {:?}", k, e))?; }
		let r = t.root();
		ensure_eq!(t.push(&mut db, v(1)), Err(Error::AccessOverflowed), "push on length 2^63");
		ensure_eq!((t.len(), t.root()), (top, r), "length and root after the rejected push");
		for k in 0..d { ensure_eq!(t.get(&mut db, top - d + k), Ok(v(k as u64 + 7)), "element {}", top - d + k); }
		ensure_eq!(t.get(&mut db, 0), Ok(zero()), "element 0");
		for k in (0..d).rev() { ensure_eq!(t.pop(&mut db), Ok(Some(v(k as u64 + 7))), "pop"); }
		ensure_eq!(t.len(), top - d, "length");
		Ok(())
	}); }
}
pub fn c06(c: &mut Ctx) { vec_props(c, 1) }
pub fn c07(c: &mut Ctx) {
	vec_props(c, 3);
	// same contents along different histories, and the builder
	for _ in 0..c.n(400, 5000) {
		if c.over() { break }
		let n = c.rng.us(40);
		let xs: Vec<u64> = (0..n).map(|_| c.rng.below(5)).collect();
		let max = if c.rng.bool() { None } else { Some(n as u64 + c.rng.below(20)) };
		let seed = c.rng.next();
		c.case(("same-contents", &xs, max), n > 0, || {
			let xv: Vec<Value> = xs.iter().map(|x| v(*x)).collect();
			if max == Some(0) { return Ok(()) }
			fn go<C: Kind>(xv: &[Value], max: Option<u64>, seed: u64) -> Result<(), String> {
				let mut r = Rng(seed);
				let mut db = InMemoryBackend::<C>::default();
				let e = |e: Error<InMemoryBackendError>| format!("{:?}", e);
				let built = vector_tree(xv, &mut db, max).map_err(e)?;
				for _ in 0..2 {
					let mut t = Vector::<Owned, C>::create(&mut db, 0, max).map_err(e)?;
					while Vector::len(&t) < xv.len() || r.below(4) == 0 {
						match r.below(5) {
							0 => { t.pop(&mut db).map_err(e)?; },
							1 if Vector::len(&t) > 0 => { let i = r.us(Vector::len(&t)); t.set(&mut db, i, v(r.below(5))).map_err(e)?; },
							_ => if max.map(|m| (Vector::len(&t) as u64) < m).unwrap_or(true) { t.push(&mut db, v(r.below(5))).map_err(e)? },
						}
					}
					while Vector::len(&t) > xv.len() { t.pop(&mut db).map_err(e)?; }
					for (i, x) in xv.iter().enumerate() { t.set(&mut db, i, x.clone()).map_err(e)?; }
					ensure_eq!(t.root(), built, "root of equal contents against the builder");
				}
				Ok(())
			}
			go::<Inh>(&xv, max, seed)?;
			go::<Unit>(&xv, max, seed)
		});
	}
}

type PL<C, const_v> = PackedList<Owned, C, GenericArray<u8, const_v>, typenum::U32, const_v>;

fn list_case<C: Kind>(own: bool, be: Be, max: Option<u64>, ops: &[SOp]) -> Result<(), String> {
	fn run<C: Kind, R: RootStatus, DB: WriteBackend<Construct = C>>(s: List<R, C>, db: &mut DB, max: Option<u64>, ops: &[SOp]) -> Result<(), String> where DB::Error: Debug + PartialEq {
		let f = list_roots(C::INH);
		ensure_eq!(s.root(), f(&[], max), "root after create");
		seq_run(s, db, ops, max, vec![], true, &f, 3)
	}
	match (be, own) {
		(Be::Mem, _) => { let mut db = InMemoryBackend::<C>::default(); let s = List::<Owned, C>::create(&mut db, max).map_err(|e| format!("create: {:?}", e))?; run(s, &mut db, max, ops) },
		(Be::Rec, true) => { let mut db = Rec::<C>::default(); let s = List::<Owned, C>::create(&mut db, max).map_err(|e| format!("create: {:?}", e))?; run(s, &mut db, max, ops) },
		(Be::Rec, false) => { let mut db = Rec::<C>::default(); let s = List::<Owned, C>::create(&mut db, max).map_err(|e| format!("create: {:?}", e))?; let s = DanglingList::<C>::from_leaked(s.metadata()); run(s, &mut db, max, ops) },
	}
}

pub fn c08(c: &mut Ctx) {
	c.rule = "list histories as for vectors plus deconstruct/reconstruct at random points, packed lists of 8-byte values, reconstruction from damaged or over-long trees; non-trivial: every history".into();
	c.case("create-zero-max", true, || { let mut db = Rec::<Inh>::default(); ensure_eq!(List::<Owned, Inh>::create(&mut db, Some(0)).map(|_| ()), Err(Error::InvalidParameter), "create with zero maximum"); Ok(()) });
	let (e, r) = (c.n(5, 7), c.n(1500, 25000));
	histories(c, e, r, 90, |c, ops| {
		let max = if ops.len() <= 7 { match c.rng.below(4) { 0 => None, k => Some(k) } } else { pick_max(&mut c.rng) };
		let own = c.rng.bool();
		let be = if own && c.rng.bool() { Be::Mem } else { Be::Rec };
		if c.rng.bool() { c.case(("list", "inherited", own, be, max, ops), true, || list_case::<Inh>(own, be, max, ops)); }
		else { c.case(("list", "unit", own, be, max, ops), true, || list_case::<Unit>(own, be, max, ops)); }
	});
	// packed lists
	for _ in 0..c.n(400, 5000) {
		if c.over() { break }
		let n = 1 + c.rng.us(60);
		let b = c.rng.below(3);
		let ops = gen_sops(&mut c.rng, n, b);
		let max = pick_max(&mut c.rng);
		c.case(("packed list", max, &ops), true, || {
			let mut db = InMemoryBackend::<Inh>::default();
			let mut t: PL<Inh, typenum::U8> = PackedList::create(&mut db, max).map_err(|e| format!("create {:?}", e))?;
			let mut m: Vec<[u8; 8]> = vec![];
			let exp = |m: &Vec<[u8; 8]>| { let bytes: Vec<u8> = m.iter().flat_map(|x| x.iter().cloned()).collect(); let ch: Vec<Value> = bytes.chunks(32).map(chunk).collect(); rh(&merkle(&ch, max.map(|x| (x + 3) / 4).unwrap_or((ch.len() as u64).max(1)), true), &lenval(m.len() as u64)) };
			for (k, op) in ops.iter().enumerate() {
				let before = t.root();
				match op {
					SOp::Push(x) => { let full = max.map(|q| m.len() as u64 >= q).unwrap_or(false); let r = t.push(&mut db, GenericArray::from(x.to_le_bytes())); if full { ensure_eq!(r, Err(Error::AccessOverflowed), "push full"); ensure_eq!(t.root(), before, "root after failed push") } else { ensure_eq!(r, Ok(()), "push"); m.push(x.to_le_bytes()) } },
					SOp::Pop => { let r = t.pop(&mut db).map(|x| x.map(|y| { let mut z = [0u8; 8]; z.copy_from_slice(&y); z })); ensure_eq!(r, Ok(m.pop()), "pop at {}", k) },
					SOp::Set(i, x) => { let r = t.set(&mut db, *i, GenericArray::from(x.to_le_bytes())); if *i < m.len() { ensure_eq!(r, Ok(()), "set"); m[*i] = x.to_le_bytes() } else { ensure_eq!(r, Err(Error::AccessOverflowed), "set {} of {}", i, m.len()) } },
					SOp::Get(i) => { let r = t.get(&mut db, *i).map(|y| y.to_vec()); if *i < m.len() { ensure_eq!(r, Ok(m[*i].to_vec()), "get") } else { ensure_eq!(r, Err(Error::AccessOverflowed), "get {} of {}", i, m.len()) } },
					SOp::Leak => (),
				}
				ensure_eq!(t.len(), m.len(), "len at {}", k);
				ensure_eq!(t.root(), exp(&m), "root at step {} {:?}", k, op);
			}
			for (i, x) in m.iter().enumerate() { ensure_eq!(t.get(&mut db, i).map(|y| y.to_vec()), Ok(x.to_vec()), "final get"); }
			Ok(())
		});
	}
	// generic length mixing: reconstruct passes item tree and length, create uses the inner sequence
	for n in 0..c.n(40, 150) {
		c.case(("mixed", n), n > 0, || {
			let mut db = Rec::<Inh>::default();
			let xs: Vec<Value> = (0..n as u64).map(|i| v(i + 1)).collect();
			let vr = vector_tree(&xs, &mut db, None).map_err(|e| format!("{:?}", e))?;
			let root = rh(&vr, &lenval(n as u64));
			db.insert(root.clone(), (vr.clone(), lenval(n as u64))).unwrap();
			let l = LengthMixed::<Dangling, Inh, Vector<Dangling, Inh>>::reconstruct(root.clone(), &mut db, |raw, _db, len| {
				assert_eq!(raw.root(), vr); assert_eq!(len, n);
				Ok(Vector::from_raw(raw, len, None))
			}).map_err(|e| format!("{:?}", e))?;
			ensure_eq!(l.root(), root, "root");
			ensure_eq!(l.len(), n, "len");
			let l = List::<Dangling, Inh>::reconstruct(root.clone(), &mut db, None).map_err(|e| format!("{:?}", e))?;
			ensure_eq!(snapshot(&l, &mut db)?, xs, "contents");
			// limits and damage
			for max in 1..(n as u64 + 3) {
				let r = List::<Dangling, Inh>::reconstruct(root.clone(), &mut db, Some(max)).map(|_| ());
				if (n as u64) > max { ensure_eq!(r, Err(Error::CorruptedDatabase), "reconstruct {} with max {}", n, max); } else { ensure_eq!(r, Ok(()), "reconstruct {} with max {}", n, max); }
			}
			ensure_eq!(List::<Dangling, Inh>::reconstruct(v(77), &mut db, None).map(|_| ()), Err(Error::CorruptedDatabase), "reconstruct from unknown root");
			// a failing backend is reported
			for k in 0..2 { db.calls = 0; db.fail_at = Some(k); ensure_eq!(List::<Dangling, Inh>::reconstruct(root.clone(), &mut db, None).map(|_| ()), Err(Error::Backend(Injected(k))), "reconstruct with failing read {}", k); }
			Ok(())
		});
	}
	// lengths up to the most an index can address are taken as stored, larger ones are refused
	for (n, good) in [(0u64, true), (1, true), (3, true), (1 << 32, true), ((1 << 63) - 2, true), ((1 << 63) - 1, true), (1 << 63, true), ((1 << 63) + 1, false), ((1 << 63) + 2, false), ((1 << 63) + (1 << 62), false), (u64::max_value() - 1, false), (u64::max_value(), false)].iter().cloned() {
		c.case(("stored length", n), true, || {
			let mut db = Rec::<Inh>::default();
			let root = rh(&v(5), &lenval(n));
			db.insert(root.clone(), (v(5), lenval(n))).unwrap();
			let max = |m: u64| if good && n <= m { Ok(n as usize) } else { Err(Error::CorruptedDatabase) };
			ensure_eq!(LengthMixed::<Dangling, Inh, Vector<Dangling, Inh>>::reconstruct(root.clone(), &mut db, |raw, _db, len| Ok(Vector::from_raw(raw, len, None))).map(|l| l.len()), max(u64::max_value()), "length mix of {}", n);
			for m in [1u64, 1 << 32, (1 << 63) - 1, 1 << 63, u64::max_value()].iter() { ensure_eq!(List::<Dangling, Inh>::reconstruct(root.clone(), &mut db, Some(*m)).map(|l| l.len()), max(*m), "list of {} with maximum {}", n, m); }
			ensure_eq!(List::<Dangling, Inh>::reconstruct(root.clone(), &mut db, None).map(|l| l.len()), max(u64::max_value()), "list of {}", n);
			Ok(())
		});
	}
	// recorded finding: a list built from a raw tree without its backend
	c.finding("list-from-raw", || {
		let mut db = Rec::<Inh>::default();
		let mut l = OwnedList::<Inh>::create(&mut db, None).map_err(|e| format!("{:?}", e))?;
		for i in 0..3 { l.push(&mut db, v(i + 1)).map_err(|e| format!("{:?}", e))?; }
		let l2 = l.into_raw().into_list(3, None);
		ensure_eq!(l2.get(&mut db, 0), Ok(v(1)), "Raw::into_list(3, None) of a 3-element list, element 0");
		Ok(())
	});
}

// ---------------- C09 ----------------

/// Value type of arbitrary width with truncated sha256 as the hash.
pub struct TV<H>(Vec<u8>, PhantomData<H>);
impl<H> Clone for TV<H> { fn clone(&self) -> Self { TV(self.0.clone(), PhantomData) } }
impl<H> PartialEq for TV<H> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<H> Eq for TV<H> {}
impl<H> Debug for TV<H> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl<H> std::hash::Hash for TV<H> { fn hash<S: std::hash::Hasher>(&self, s: &mut S) { self.0.hash(s) } }
impl<H> PartialOrd for TV<H> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<H> Ord for TV<H> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<H: ArrayLength<u8>> Default for TV<H> { fn default() -> Self { TV(vec![0; H::to_usize()], PhantomData) } }
impl<H> AsRef<[u8]> for TV<H> { fn as_ref(&self) -> &[u8] { &self.0 } }
impl<H> AsMut<[u8]> for TV<H> { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl<H: ArrayLength<u8>> From<GenericArray<u8, H>> for TV<H> { fn from(x: GenericArray<u8, H>) -> Self { TV(x.to_vec(), PhantomData) } }
pub struct TC<H>(PhantomData<H>);
fn th<H: ArrayLength<u8>>(l: &TV<H>, r: &TV<H>) -> TV<H> {
	let mut d = Sha256::new(); d.input(l.as_ref()); d.input(r.as_ref()); let o = d.result();
	let mut x = GenericArray::<u8, H>::default();
	for i in 0..x.len() { x[i] = o[i % 32] ^ (i / 32) as u8 }
	TV(x.to_vec(), PhantomData)
}
impl<H: ArrayLength<u8>> Construct for TC<H> {
	type Value = TV<H>;
	fn intermediate_of(l: &TV<H>, r: &TV<H>) -> TV<H> { th(l, r) }
	fn empty_at<DB: WriteBackend<Construct = Self> + ?Sized>(db: &mut DB, d: usize) -> Result<TV<H>, DB::Error> {
		let mut c = TV::default();
		for _ in 0..d { let k = th(&c, &c); db.insert(k.clone(), (c.clone(), c))?; c = k }
		Ok(c)
	}
}
fn tmerkle<H: ArrayLength<u8>>(ch: &[TV<H>], depth: usize) -> TV<H> {
	if depth == 0 { return ch.get(0).cloned().unwrap_or_default() }
	if ch.is_empty() { let e = tmerkle::<H>(&[], depth - 1); return th(&e, &e) }
	let half = 1u64 << (depth - 1);
	let cut = (ch.len() as u64).min(half) as usize;
	th(&tmerkle(&ch[..cut], depth - 1), &tmerkle(&ch[cut..], depth - 1))
}

fn packed_case<H: ArrayLength<u8>, V: ArrayLength<u8>>(ops: &[SOp], max: Option<u64>, len0: usize, seed: u64) -> Result<(), String> where GenericArray<u8, V>: Debug {
	let (h, w) = (H::to_usize(), V::to_usize());
	let mut db = InMemoryBackend::<TC<H>>::default();
	let e = |e: Error<InMemoryBackendError>| format!("{:?}", e);
	let mut t = PackedVector::<Owned, TC<H>, GenericArray<u8, V>, H, V>::create(&mut db, len0, max).map_err(|x| format!("create: {:?}", x))?;
	let mut m: Vec<Vec<u8>> = vec![vec![0u8; w]; len0];
	let mut r = Rng(seed);
	let mk = |r: &mut Rng| { let mut a = GenericArray::<u8, V>::default(); for i in 0..w { a[i] = 1 + (r.next() % 255) as u8 } a };
	for (n, op) in ops.iter().enumerate() {
		let before = t.root();
		let what = format!("step {} {:?} len {} H {} V {} max {:?}", n, op, m.len(), h, w, max);
		match op {
			SOp::Push(_) => {
				let full = max.map(|k| m.len() as u64 >= k).unwrap_or(false);
				let x = mk(&mut r);
				let res = t.push(&mut db, x.clone());
				if full { ensure_eq!(res, Err(Error::AccessOverflowed), "push full, {}", what); ensure_eq!(t.root(), before, "root after failed push, {}", what); } else { ensure_eq!(res, Ok(()), "push, {}", what); m.push(x.to_vec()) }
			},
			SOp::Pop => { let x = t.pop(&mut db).map_err(e)?; ensure_eq!(x.map(|y| y.to_vec()), m.pop(), "pop, {}", what); },
			SOp::Set(i, q) => {
				let i = if q % 4 != 0 && !m.is_empty() { i % m.len() } else { *i };
				let x = mk(&mut r);
				let res = t.set(&mut db, i, x.clone());
				if i < m.len() { ensure_eq!(res, Ok(()), "set {}, {}", i, what); m[i] = x.to_vec() } else { ensure_eq!(res, Err(Error::AccessOverflowed), "set {} out of range, {}", i, what); ensure_eq!(t.root(), before, "root after failed set, {}", what); }
			},
			SOp::Get(i) => for i in &[*i, m.len(), m.len() + 1] { if *i >= m.len() { ensure_eq!(t.get(&mut db, *i), Err(Error::AccessOverflowed), "get {} out of range, {}", i, what); } },
			SOp::Leak => { let md = t.metadata(); let rt = t.root(); t = PackedVector::from_leaked(md); ensure_eq!(t.root(), rt, "leak"); let l = t.len(); t = PackedVector::from_raw(t.into_raw(), l, max); },
		}
		ensure_eq!(t.len(), m.len(), "len, {}", what);
		for i in 0..m.len() { let g = t.get(&mut db, i).map_err(|x| format!("get {}: {:?}, {}", i, x, what))?; ensure_eq!(g.to_vec(), m[i], "value {}, {}", i, what); }
		let bytes: Vec<u8> = m.iter().flat_map(|x| x.iter().cloned()).collect();
		let ch: Vec<TV<H>> = bytes.chunks(h).map(|b| { let mut a = GenericArray::<u8, H>::default(); a[..b.len()].copy_from_slice(b); TV(a.to_vec(), PhantomData) }).collect();
		let cap = max.map(|k| ((k as u128 * w as u128 + h as u128 - 1) / h as u128) as u64).unwrap_or(ch.len() as u64);
		ensure_eq!(t.root(), tmerkle(&ch, ceil_log2(cap)), "layout (root of zero-padded chunks), {}", what);
	}
	Ok(())
}

/// A vector whose byte length does not fit a machine word.
fn packed_far<H: ArrayLength<u8>, V: ArrayLength<u8>>(len0: usize, max: u64, seed: u64) -> Result<(), String> where GenericArray<u8, V>: Debug {
	let (h, w) = (H::to_usize(), V::to_usize());
	let mut db = InMemoryBackend::<TC<H>>::default();
	let mut t = PackedVector::<Owned, TC<H>, GenericArray<u8, V>, H, V>::create(&mut db, len0, Some(max)).map_err(|x| format!("create: {:?}", x))?;
	let mut r = Rng(seed);
	let mut m: std::collections::BTreeMap<usize, Vec<u8>> = Default::default();
	let mut len = len0;
	let mk = |r: &mut Rng| { let mut a = GenericArray::<u8, V>::default(); for i in 0..w { a[i] = 1 + (r.next() % 255) as u8 } a };
	for step in 0..12 {
		let i = match r.below(4) { 0 => r.below(3) as usize, 1 => len - 1 - r.below(3) as usize, 2 => ((1u128 << (64 - r.below(8))) / w as u128) as usize + r.below(3) as usize, _ => (r.next() % len as u64) as usize } % len;
		let what = format!("step {} index {} len {} H {} V {}", step, i, len, h, w);
		match r.below(4) {
			0 => if (len as u64) < max { let x = mk(&mut r); ensure_eq!(t.push(&mut db, x.clone()), Ok(()), "push, {}", what); m.insert(len, x.to_vec()); len += 1 },
			1 => { let x = t.pop(&mut db).map_err(|e| format!("{:?}", e))?; len -= 1; ensure_eq!(x.map(|y| y.to_vec()), Some(m.remove(&len).unwrap_or(vec![0; w])), "pop, {}", what) },
			_ => { let x = mk(&mut r); ensure_eq!(t.set(&mut db, i, x.clone()), Ok(()), "set, {}", what); m.insert(i, x.to_vec()); },
		}
		ensure_eq!(t.len(), len, "len, {}", what);
		for k in m.keys().cloned().chain(0..3).chain(Some(i)) { if k < len { ensure_eq!(t.get(&mut db, k).map(|y| y.to_vec()), Ok(m.get(&k).cloned().unwrap_or(vec![0; w])), "value {}, {}", k, what); } }
		ensure_eq!(t.get(&mut db, len), Err(Error::AccessOverflowed), "get past the end, {}", what);
	}
	Ok(())
}

pub fn c09(c: &mut Ctx) {
	c.rule = "packed vector histories for 40+ (chunk size, value size) pairs, exhaustive to a small length for some pairs and random to length 60, with/without maximum, created empty or with length; contents, layout root and range errors after every step; non-trivial: every history".into();
	use typenum::*;
	type F = fn(&[SOp], Option<u64>, usize, u64) -> Result<(), String>;
	macro_rules! pairs { ($( ($h:ty, $($v:ty),*) ),*) => { vec![ $( $( (<$h>::to_usize(), <$v>::to_usize(), packed_case::<$h, $v> as F), )* )* ] } }
	let fs: Vec<(usize, usize, F)> = pairs![
		(U32, U1, U2, U3, U4, U5, U7, U8, U12, U16, U20, U24, U31, U32, U33, U40, U48, U63, U64, U65, U96, U100),
		(U8, U1, U3, U4, U5, U8, U9, U12, U16, U20, U32), (U16, U1, U3, U8, U16, U24, U33), (U20, U1, U7, U20, U32), (U64, U1, U8, U48, U64, U100)];
	let alpha = vec![SOp::Push(1), SOp::Push(2), SOp::Pop, SOp::Set(0, 3), SOp::Set(2, 3)];
	let exh = c.n(4, 6);
	for (h, w, f) in &fs {
		let mut st = vec![0usize; exh];
		'ex: loop {
			let mut ops: Vec<SOp> = vec![SOp::Push(1), SOp::Push(2), SOp::Push(3)];
			ops.extend(st.iter().map(|i| alpha[*i].clone()));
			let max = if c.rng.below(3) == 0 { Some(3 + c.rng.below(4)) } else { None };
			c.case((*h, *w, max, &ops), true, || f(&ops, max, 0, 1));
			if c.over() { return }
			let mut k = 0;
			loop { if k == exh { break 'ex } st[k] += 1; if st[k] < alpha.len() { break } st[k] = 0; k += 1; }
		}
	}
	for _ in 0..c.n(60, 600) {
		let (len, max) = (c.rng.us(40), c.rng.below(40));
		c.case(("create", len, max), true, || {
			let mut db = InMemoryBackend::<TC<U32>>::default();
			let r = PackedVector::<Owned, TC<U32>, GenericArray<u8, U5>, U32, U5>::create(&mut db, len, Some(max)).map(|t| t.len());
			if len as u64 > max || max == 0 { ensure_eq!(r, Err(Error::InvalidParameter), "create length {} maximum {}", len, max) } else { ensure_eq!(r, Ok(len), "create length {} maximum {}", len, max) }
			Ok(())
		});
	}
	type G = fn(usize, u64, u64) -> Result<(), String>;
	macro_rules! fars { ($( ($h:ty, $($v:ty),*) ),*) => { vec![ $( $( (<$h>::to_u64(), <$v>::to_u64(), packed_far::<$h, $v> as G), )* )* ] } }
	let gs: Vec<(u64, u64, G)> = fars![(U32, U1, U8, U31, U32, U33, U48, U64, U100), (U8, U3, U8, U9, U20), (U64, U48, U100)];
	for _ in 0..c.n(6, 60) { for (h, w, g) in &gs {
		if c.over() { return }
		let top = ((1u128 << 63) * *h as u128 / *w as u128).min(1 << 63) as u64;
		let max = top - c.rng.below(5);
		let len = (max - c.rng.below(3) - if c.rng.bool() { c.rng.next() % (max / 2) } else { 0 }) as usize;
		let seed = c.rng.next();
		c.case(("far", *h, *w, len, max), true, || g(len, max, seed));
	} }
	// the longest packed vectors, without a maximum
	fn packed_full<H: ArrayLength<u8>, V: ArrayLength<u8>>() -> Result<(), String> where GenericArray<u8, V>: Debug {
		let top = (1u128 << 63) * H::to_u64() as u128 / V::to_u64() as u128;
		let top = if top > usize::max_value() as u128 { usize::max_value() } else { top as usize };
		for d in 0..2 {
			let mut db = InMemoryBackend::<TC<H>>::default();
			let mut t = PackedVector::<Owned, TC<H>, GenericArray<u8, V>, H, V>::create(&mut db, top - d, None).map_err(|e| format!("create {:?}", e))?;
			let x = GenericArray::<u8, V>::from_exact_iter((0..V::to_usize()).map(|k| k as u8 + 1)).unwrap();
			for _ in 0..d { t.push(&mut db, x.clone()).map_err(|e| format!("push: {:?}", e))?; }
			let r = t.root();
			ensure_eq!(t.push(&mut db, x.clone()), Err(Error::AccessOverflowed), "push on the longest vector");
			ensure_eq!((t.len(), t.root()), (top, r), "length and root after the rejected push");
			ensure_eq!(t.get(&mut db, top - 1), Ok(if d > 0 { x } else { Default::default() }), "last value");
		}
		Ok(())
	}
	macro_rules! fulls { ($( ($h:ty, $($v:ty),*) ),*) => { $( $( c.case(("longest", <$h>::to_u64(), <$v>::to_u64()), true, || packed_full::<$h, $v>()); )* )* } }
	fulls!((U32, U1, U2, U5, U8, U31, U32, U33, U48, U64, U100), (U8, U1, U3, U8, U9, U20), (U64, U1, U48, U64, U100));
	for _ in 0..c.n(25, 600) { for (h, w, f) in &fs {
		if c.over() { return }
		let n = 1 + c.rng.us(60);
		let b = c.rng.below(3);
		let ops = gen_sops(&mut c.rng, n, b);
		let max = pick_max(&mut c.rng).map(|m| m.min(1 << 30));
		let len0 = if c.rng.bool() { 0 } else { c.rng.below(max.unwrap_or(20).min(20) + 1) as usize };
		let seed = c.rng.next();
		c.case((*h, *w, max, len0, &ops), true, || f(&ops, max, len0, seed));
	} }
}

// ---------------- C10 ----------------

fn vt_case<C: Kind>(xs: &[Value], max: Option<u64>) -> Result<(), String> {
	let mut db = Rec::<C>::default();
	let bad = max.map(|m| xs.len() as u64 > m).unwrap_or(false);
	let r = vector_tree(xs, &mut db, max);
	if bad { ensure_eq!(r, Err(Error::InvalidParameter), "vector_tree of {} values with maximum {:?}", xs.len(), max); return Ok(()) }
	let r = r.map_err(|e| format!("{:?}", e))?;
	let cap = max.unwrap_or(xs.len() as u64);
	let d = ceil_log2(cap);
	let e = empties(C::INH, d);
	ensure_eq!(r, merkle_at(xs, d, &e), "root of {} values, maximum {:?}", xs.len(), max);
	for (k, (a, b)) in &db.store { ensure_eq!(*k, rh(a, b), "stored pair"); }
	ensure!(db.log.iter().all(|x| if let Call::Insert(..) = x { true } else { false }), "builder did more than insert");
	let probe = |i: u64| -> Vec<bool> { (0..d).rev().map(|k| (i >> k) & 1 == 1).collect() };
	for i in 0..xs.len() as u64 { ensure_eq!(walk(&db.store, &r, &probe(i)), Some(xs[i as usize].clone()), "value {} readable", i); }
	if C::INH && d < 64 {
		let all = 1u64 << d;
		let ks: Vec<u64> = if d <= 7 { (xs.len() as u64..all).collect() } else { vec![xs.len() as u64, xs.len() as u64 + 1, all / 2, all / 2 + 1, all - 1] };
		for i in ks { if i >= xs.len() as u64 && i < all { ensure_eq!(walk(&db.store, &r, &probe(i)), Some(zero()), "padding {} readable", i); } }
	}
	// same through the in-memory backend
	let mut mem = InMemoryBackend::<C>::default();
	let r2 = vector_tree(xs, &mut mem, max).map_err(|e| format!("{:?}", e))?;
	ensure_eq!(r2, r, "root over the in-memory backend");
	mem.rootify(&r2).map_err(|e| format!("{:?}", e))?;
	for i in 0..xs.len() as u64 { ensure_eq!(DanglingRaw::<C>::new(r2.clone()).get(&mut mem, Index::from_depth(i as usize, d)), Ok(Some(xs[i as usize].clone())), "value {} readable in memory", i); }
	Ok(())
}

pub fn c10(c: &mut Ctx) {
	c.rule = "vector_tree for all counts to N and maxima around powers of two, over both empty constructs, stored nodes enumerated; required_depth/host_len exhaustively to M and at random 64-bit arguments; non-trivial: at least one value or one level".into();
	for n in 0..c.n(70, 260) as u64 {
		if c.over() { return }
		let xs: Vec<Value> = (0..n).map(|i| v(i % 7 + (i / 3) * 10)).collect();
		let mut maxes = vec![None, Some(n), Some(n + 1), Some(n + 2), Some(2 * n), Some(4 * n + 1), Some(1u64 << 20), Some(1u64 << 40), Some((1u64 << 40) + 1), Some(n.saturating_sub(1)), Some(n / 2), Some(0), Some(n.next_power_of_two()), Some(n.next_power_of_two() + 1)];
		maxes.dedup();
		for m in maxes {
			c.case(("tree", "inherited", n, m), n > 0, || vt_case::<Inh>(&xs, m));
			c.case(("tree", "unit", n, m), n > 0, || vt_case::<Unit>(&xs, m));
		}
	}
	for _ in 0..c.n(300, 4000) {
		if c.over() { return }
		let n = c.rng.us(200);
		let xs: Vec<u64> = (0..n).map(|_| c.rng.below(4)).collect();
		let max = match c.rng.below(3) { 0 => None, 1 => Some(n as u64 + c.rng.below(n as u64 + 2)), _ => Some(n as u64 + (1 << c.rng.below(50))) };
		c.case(("tree", &xs, max), n > 0, || { let xv: Vec<Value> = xs.iter().map(|x| v(*x)).collect(); vt_case::<Inh>(&xv, max)?; vt_case::<Unit>(&xv, max) });
	}
	c.case("depth0", false, || { ensure_eq!(required_depth(0), 0, "required_depth(0)"); Ok(()) });
	let mut ls: Vec<u64> = (1..c.n(5000, 200000) as u64).collect();
	for k in 1..64 { for d in 0..5 { let x = (1u64 << k).wrapping_add(d).wrapping_sub(2); if x <= 1 << 63 { ls.push(x) } } }
	for _ in 0..1000 { let s = 1 + c.rng.us(62); ls.push(c.rng.next() >> s) }
	for l in ls { c.case(("depth", l), l > 1, || { let d = required_depth(l); ensure!(d <= 63 && (1u64 << d) >= l && (d == 0 || (1u64 << (d - 1)) < l), "required_depth({}) = {}", l, d); Ok(()) }); }
	use typenum::*;
	macro_rules! hl { ($( ($h:ty, $v:ty) ),*) => { $( {
		let (h, w) = (<$h>::to_u64() as u128, <$v>::to_u64() as u128);
		let mut xs: Vec<u64> = (0..c.n(300, 5000) as u64).collect();
		for _ in 0..200 { let s = c.rng.us(64); xs.push(c.rng.next() >> s) }
		xs.push(u64::max_value());
		for x in xs { let e = (x as u128 * w + h - 1) / h; if e <= u64::max_value() as u128 { c.case(("host", h as u64, w as u64, x), x > 0, || {
			ensure_eq!(host_max_len::<$h, $v>(x) as u128, e, "host_max_len H {} V {} len {}", h, w, x);
			ensure_eq!(host_len::<$h, $v>(x as usize) as u128, e, "host_len H {} V {} len {}", h, w, x);
			Ok(()) }); } }
	} )* } }
	hl!((U32, U1), (U32, U2), (U32, U4), (U32, U8), (U32, U16), (U32, U32), (U32, U33), (U32, U48), (U32, U64), (U8, U1), (U8, U3), (U8, U32), (U1, U1), (U1, U5), (U20, U7), (U64, U48));
}
