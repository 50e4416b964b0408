//! C13, C14
use crate::util::*;
use crate::basic::{SOp, gen_sops};
use crate::{ensure, ensure_eq};
use bm::*;
use bm_le::{IntoTree, Value};
use std::collections::{HashMap, HashSet};

type Mem = InMemoryBackend<Inh>;
type Pairs = HashMap<Value, (Value, Value)>;
fn v(n: u64) -> Value { if n == 0 { zero() } else { val(n) } }
fn contents(db: &Mem) -> Vec<(Value, Option<(Value, Value)>)> { let mut x: Vec<_> = db.as_ref().iter().map(|(k, p)| (k.clone(), p.0.clone())).collect(); x.sort(); x }

#[derive(Debug, Clone, PartialEq)]
enum Out { U(Result<(), Error<()>>), V(Result<Value, Error<()>>), O(Result<Option<Value>, Error<()>>) }
fn me<T, E>(r: Result<T, Error<E>>) -> Result<T, Error<()>> { r.map_err(|e| match e { Error::Backend(_) => Error::Backend(()), Error::CorruptedDatabase => Error::CorruptedDatabase, Error::AccessOverflowed => Error::AccessOverflowed, Error::InvalidParameter => Error::InvalidParameter }) }

fn apply_list<DB: WriteBackend<Construct = Inh>>(t: &mut List<Owned, Inh>, db: &mut DB, op: &SOp) -> Out {
	let n = t.len();
	match op {
		SOp::Push(x) => Out::U(me(t.push(db, v(x % 50)))),
		SOp::Pop => Out::O(me(t.pop(db))),
		SOp::Set(i, x) => Out::U(me(t.set(db, if n > 0 && x % 5 > 0 { i % n } else { *i }, v(x % 50)))),
		SOp::Get(i) => Out::V(me(t.get(db, if n > 0 && i % 5 > 0 { i % n } else { *i }))),
		SOp::Leak => Out::U(Ok(())),
	}
}
fn apply_raw<DB: WriteBackend<Construct = Inh>>(t: &mut OwnedRaw<Inh>, db: &mut DB, op: &(u64, u64)) -> Out {
	let ix = Index::from_one(op.0 as usize).unwrap();
	if op.1 % 3 == 0 { Out::O(me(t.get(db, ix))) } else { Out::U(me(t.set(db, ix, v(op.1 % 4)))) }
}

fn prove_case<T, S: Fn(&mut Mem) -> T, F: Fn(&mut T, &mut dyn FnMut(&mut T, usize)), M>(_: S, _: F, _: M) {}

fn list_proof(pre: &[SOp], ops: &[SOp], cuts: u64) -> Result<(), String> {
	let _ = prove_case::<(), fn(&mut Mem) -> (), fn(&mut (), &mut dyn FnMut(&mut (), usize)), ()>;
	let e = |e: Error<InMemoryBackendError>| format!("{:?}", e);
	// three identical starting points
	let mk = || -> Result<(Mem, List<Owned, Inh>), String> { let mut db = Mem::default(); let mut t = List::<Owned, Inh>::create(&mut db, None).map_err(e)?; for op in pre { apply_list(&mut t, &mut db, op); } Ok((db, t)) };
	let (mut d1, mut t1) = mk()?;
	let (mut d2, t2) = mk()?;
	let before: Pairs = d2.as_ref().iter().filter_map(|(k, p)| p.0.clone().map(|q| (k.clone(), q))).collect();
	let root0 = t2.root();
	let direct: Vec<(Out, Value)> = ops.iter().map(|op| { let o = apply_list(&mut t1, &mut d1, op); (o, t1.root()) }).collect();
	let mut state: ProvingState<Value> = Default::default();
	// reconstructed inside the recording, so that the proof is self-contained
	let mut t2 = { let mut pr = ProvingBackend::from_state(state, &mut d2); let r = t2.deconstruct(&mut pr).map_err(e)?; let t = List::<Owned, Inh>::reconstruct(r, &mut pr, None).map_err(e)?; state = pr.into_state(); t };
	let mut i = 0;
	while i < ops.len() {
		let stop = if cuts & (1 << (i % 60)) != 0 { i + 1 } else { ops.len().min(i + 3) };
		let had = state.clone();
		let mut pr = ProvingBackend::from_state(state, &mut d2);
		for j in i..stop { let o = apply_list(&mut t2, &mut pr, &ops[j]); ensure_eq!((o, t2.root()), direct[j], "result {} through the proving backend", j); }
		state = pr.into_state();
		for (k, p) in &had.proofs { ensure_eq!(state.proofs.get(k), Some(p), "proof entry lost on resume"); }
		for k in &had.inserts { ensure!(state.inserts.contains(k), "insert record lost on resume"); }
		i = stop;
	}
	ensure_eq!(contents(&d2), contents(&d1), "underlying store");
	let proofs: Proofs<Value> = state.into();
	for (k, p) in proofs.iter() {
		ensure_eq!(*k, rh(&p.0, &p.1), "proof entry is a true pair");
		ensure_eq!(before.get(k), Some(p), "proof entry existed before recording");
	}
	let mut rep = Mem::default();
	rep.populate(proofs.into());
	let mut t3 = List::<Owned, Inh>::reconstruct(root0, &mut rep, None).map_err(|x| format!("replay reconstruct: {:?}", x))?;
	for (j, op) in ops.iter().enumerate() { let o = apply_list(&mut t3, &mut rep, op); ensure_eq!((o, t3.root()), direct[j], "replay of step {} {:?} from proofs", j, op); }
	Ok(())
}

fn raw_proof(pre: &[(u64, u64)], ops: &[(u64, u64)]) -> Result<(), String> {
	let mk = || { let mut db = Mem::default(); let mut t = OwnedRaw::<Inh>::default(); for op in pre { apply_raw(&mut t, &mut db, op); } (db, t) };
	let (mut d1, mut t1) = mk();
	let (mut d2, mut t2) = mk();
	let root0 = t2.root();
	let before: Pairs = d2.as_ref().iter().filter_map(|(k, p)| p.0.clone().map(|q| (k.clone(), q))).collect();
	let direct: Vec<(Out, Value)> = ops.iter().map(|op| { let o = apply_raw(&mut t1, &mut d1, op); (o, t1.root()) }).collect();
	let mut pr = ProvingBackend::new(&mut d2);
	for (j, op) in ops.iter().enumerate() { let o = apply_raw(&mut t2, &mut pr, op); ensure_eq!((o, t2.root()), direct[j], "result {} through the proving backend", j); }
	let proofs: Proofs<Value> = pr.into();
	ensure_eq!(contents(&d2), contents(&d1), "underlying store");
	for (k, p) in proofs.iter() { ensure_eq!(before.get(k), Some(p), "proof entry existed before recording"); }
	let mut rep = Mem::default();
	rep.populate(proofs.clone().into());
	let mut t3 = OwnedRaw::<Inh>::new(root0);
	for (j, op) in ops.iter().enumerate() { let o = apply_raw(&mut t3, &mut rep, op); ensure_eq!((o, t3.root()), direct[j], "replay of step {} {:?} from proofs", j, op); }
	// loaded proofs in a store that already counts some of the nodes
	let mut rep = Mem::default();
	let mut other = OwnedRaw::<Inh>::default();
	for op in pre.iter().take(pre.len() / 2) { apply_raw(&mut other, &mut rep, op); }
	rep.populate(proofs.into());
	let mut t3 = OwnedRaw::<Inh>::new(root0_clone(&mk().1));
	for (j, op) in ops.iter().enumerate() { let o = apply_raw(&mut t3, &mut rep, op); ensure_eq!((o, t3.root()), direct[j], "replay of step {} {:?} from proofs loaded into a used store", j, op); if j == ops.len() / 2 { let old = std::mem::replace(&mut other, OwnedRaw::default()); old.drop(&mut rep).map_err(|e| format!("{:?}", e))?; } }
	Ok(())
}
fn root0_clone(t: &OwnedRaw<Inh>) -> Value { t.root() }

pub fn c13(c: &mut Ctx) {
	c.rule = "random list and raw histories executed directly, through the proving backend (state taken out and put back at random points) and replayed from the collected proofs; non-trivial: at least two recorded operations".into();
	for _ in 0..c.n(1500, 25000) {
		if c.over() { return }
		let (a, b) = (c.rng.us(40), 1 + c.rng.us(15));
		let (x, y) = (c.rng.below(3), c.rng.below(3));
		let pre = gen_sops(&mut c.rng, a, if x == 2 { 1 } else { x });
		let ops = gen_sops(&mut c.rng, b, y);
		let cuts = c.rng.next();
		c.case(("list", &pre, &ops, cuts), b > 1, || list_proof(&pre, &ops, cuts));
		let (a, b) = (c.rng.us(12), 1 + c.rng.us(10));
		let m = [7u64, 15, 31][c.rng.us(3)];
		let pre: Vec<(u64, u64)> = (0..a).map(|_| (1 + c.rng.below(m), 1 + c.rng.below(12))).collect();
		let ops: Vec<(u64, u64)> = (0..b).map(|_| (1 + c.rng.below(m), c.rng.below(12))).collect();
		c.case(("raw", &pre, &ops), b > 1, || raw_proof(&pre, &ops));
	}
	// recording rules at the level of single calls
	for _ in 0..c.n(2000, 20000) {
		if c.over() { return }
		let n = 1 + c.rng.us(14);
		let ops: Vec<(u64, usize, usize)> = (0..n).map(|_| (c.rng.below(4), c.rng.us(10), c.rng.us(10))).collect();
		c.case(("calls", &ops), n > 1, || {
			let mut base = Rec::<Inh>::default();
			let mut pool = vec![zero(), val(1), val(2)];
			for i in 0..4 { let (l, r) = (pool[i % 3].clone(), pool[(i * 2 + 1) % pool.len()].clone()); let h = rh(&l, &r); base.store.insert(h.clone(), (l, r)); pool.push(h); }
			let orig = base.store.clone();
			let mut mirror = Rec::<Inh>::default(); mirror.store = orig.clone();
			let mut ins: HashSet<Value> = HashSet::new();
			let mut exp: Pairs = HashMap::new();
			let mut pr = ProvingBackend::new(&mut base);
			for (o, a, b) in &ops {
				let (x, y) = (pool[a % pool.len()].clone(), pool[b % pool.len()].clone());
				match o {
					0 => { let h = rh(&x, &y); pr.insert(h.clone(), (x.clone(), y.clone())).unwrap(); mirror.insert(h.clone(), (x, y)).unwrap(); ins.insert(h.clone()); pool.push(h) },
					1 => { pr.rootify(&x).unwrap(); mirror.rootify(&x).unwrap(); pr.unrootify(&y).unwrap(); mirror.unrootify(&y).unwrap() },
					_ => { let g = pr.get(&x).unwrap(); ensure_eq!(g, mirror.get(&x).unwrap(), "get"); if let Some(p) = g { if !ins.contains(&x) { exp.insert(x, p); } } },
				}
			}
			let st = pr.into_state();
			let mut got: Pairs = HashMap::new(); for (k, p) in &st.proofs { got.insert(k.clone(), p.clone()); }
			ensure_eq!(got, exp, "recorded proofs: exactly the pairs read that were not written during recording");
			ensure_eq!(base.log, mirror.log, "calls passed to the underlying backend");
			// errors pass through
			for k in 0..3u64 { let mut f = Rec::<Inh>::default(); f.fail_at = Some(0); let mut pr = ProvingBackend::new(&mut f); let x = val(1);
				let r = match k { 0 => pr.get(&x).map(|_| ()), 1 => pr.rootify(&x), _ => pr.unrootify(&x) }; ensure_eq!(r, Err(Injected(0)), "error of the underlying backend"); }
			Ok(())
		});
	}
}

// ---------------- C14 ----------------

#[derive(Clone, Debug, Hash)]
enum T { L(u64), N(Box<(T, T)>) }
fn gen_t(r: &mut Rng, d: usize) -> T { if d == 0 || r.below(4) == 0 { T::L(r.below(6)) } else { T::N(Box::new((gen_t(r, d - 1), gen_t(r, d - 1)))) } }
fn all_t(d: usize) -> Vec<T> { let mut o = vec![T::L(1), T::L(2)]; if d > 0 { let s = all_t(d - 1); for a in &s { for b in &s { o.push(T::N(Box::new((a.clone(), b.clone())))) } } } o }
fn t_root(t: &T) -> Value { match t { T::L(x) => v(*x), T::N(b) => rh(&t_root(&b.0), &t_root(&b.1)) } }
fn t_len(t: &T) -> usize { match t { T::L(_) => 1, T::N(b) => t_len(&b.0) + t_len(&b.1) } }
fn t_pairs(t: &T, o: &mut Pairs) { if let T::N(b) = t { o.insert(t_root(t), (t_root(&b.0), t_root(&b.1))); t_pairs(&b.0, o); t_pairs(&b.1, o); } }
fn t_compact(t: &T) -> CompactValue<Value> { match t { T::L(x) => CompactValue::Single(v(*x)), T::N(b) => CompactValue::Combined(Box::new((t_compact(&b.0), t_compact(&b.1)))) } }
fn ref_compact(p: &Pairs, r: &Value) -> CompactValue<Value> { match p.get(r) { Some((a, b)) => CompactValue::Combined(Box::new((ref_compact(p, a), ref_compact(p, b)))), None => CompactValue::Single(r.clone()) } }
fn to_proofs(p: &Pairs) -> Proofs<Value> { let mut s: ProvingState<Value> = Default::default(); for (k, x) in p { s.proofs.insert(k.clone(), x.clone()); } s.into() }
fn from_proofs(p: &Proofs<Value>) -> Pairs { p.iter().map(|(k, x)| (k.clone(), x.clone())).collect() }

fn compact_case(t: &T, extra: &T) -> Result<(), String> {
	let mut p = Pairs::new();
	t_pairs(t, &mut p);
	let r = t_root(t);
	let c = t_compact(t);
	ensure_eq!(c.len(), t_len(t), "length");
	ensure_eq!(c.clone().root::<Inh>(), r, "root");
	let (ps, root) = Proofs::from_compact::<Inh>(c.clone());
	ensure_eq!(root, r, "root of expanded");
	ensure_eq!(from_proofs(&ps), p, "entries of expanded");
	// through proofs with unrelated and unreachable entries
	let mut q = p.clone();
	let mut ep = Pairs::new(); t_pairs(extra, &mut ep);
	for (k, x) in ep { q.insert(k, x); }
	let cc = to_proofs(&q).into_compact(r.clone());
	ensure_eq!(cc, ref_compact(&q, &r), "compacted");
	let (ps, root) = Proofs::from_compact::<Inh>(cc.clone());
	ensure_eq!(root, r, "root after compact and expand");
	let mut reach = Pairs::new();
	fn rec(q: &Pairs, k: &Value, o: &mut Pairs) { if let Some((a, b)) = q.get(k) { if o.insert(k.clone(), (a.clone(), b.clone())).is_none() { rec(q, a, o); rec(q, b, o); } } }
	rec(&q, &r, &mut reach);
	ensure_eq!(from_proofs(&ps), reach, "entries after compact and expand: exactly those reachable from the root");
	ensure_eq!(cc.clone().root::<Inh>(), r, "root of compacted");
	// fold sees every combination with its children
	let log = std::cell::RefCell::new(vec![]);
	let (n, fr) = c.clone().fold::<Inh, usize, _>(&|k, (ln, l), (rn, rr)| { log.borrow_mut().push((k.clone(), l.clone(), rr.clone())); ln + rn + 1 });
	ensure_eq!(fr, r, "fold root"); ensure_eq!(n, t_len(t) - 1, "fold count");
	for (k, l, rr) in log.borrow().iter() { ensure_eq!(*k, rh(l, rr), "fold step"); }
	// encode into a backend
	let mut db = Rec::<Inh>::default();
	ensure_eq!(c.into_tree(&mut db).map_err(|e| format!("{:?}", e))?, r, "encoded root");
	ensure_eq!(db.store, p, "nodes written by encoding a compact value");
	Ok(())
}

fn plain_case(i: u64, n: usize, leaf: u64) -> Result<(), String> {
	let path = bits(i);
	let sib: Vec<Value> = (0..n).map(|k| v(100 + k as u64)).collect();
	let r = CompactValue::from_plain(v(leaf), sib.clone(), Index::from_one(i as usize).unwrap());
	if n != path.len() { ensure!(r.is_none(), "from_plain with {} siblings for depth {} accepted", n, path.len()); return Ok(()) }
	let c = r.ok_or(format!("from_plain with {} siblings for index {} rejected", n, i))?;
	let mut cur = v(leaf);
	for (k, b) in path.iter().rev().enumerate() { cur = if *b { rh(&sib[k], &cur) } else { rh(&cur, &sib[k]) } }
	ensure_eq!(c.clone().root::<Inh>(), cur, "root of plain branch at {}", i);
	ensure_eq!(c.len(), n + 1, "leaves of plain branch");
	let mut db = Rec::<Inh>::default();
	c.into_tree(&mut db).map_err(|e| format!("{:?}", e))?;
	ensure_eq!(walk(&db.store, &cur, &path), Some(v(leaf)), "leaf at the index");
	for (k, _) in path.iter().enumerate() { let mut q: Vec<bool> = path[..=k].to_vec(); q[k] = !q[k]; ensure_eq!(walk(&db.store, &cur, &q), Some(sib[n - 1 - k].clone()), "sibling at depth {}", k + 1); }
	Ok(())
}

pub fn c14(c: &mut Ctx) {
	c.rule = "all binary trees to depth 3 over two leaves and random deeper ones with shared subtrees, against structural oracles; plain branches for all indexes below N and random deep ones with right and wrong numbers of siblings; non-trivial: at least one interior node".into();
	let small = all_t(2);
	for t in all_t(if c.thorough { 3 } else { 2 }) { let nt = t_len(&t) > 1; c.case(&t, nt, || compact_case(&t, &T::L(0))); if c.over() { return } }
	for a in &small { for b in small.iter().step_by(3) { c.case((a, b), t_len(a) > 1, || compact_case(a, b)); } }
	for _ in 0..c.n(3000, 50000) {
		if c.over() { return }
		let d = 1 + c.rng.us(6);
		let (a, b) = (gen_t(&mut c.rng, d), gen_t(&mut c.rng, 4));
		c.case((&a, &b), t_len(&a) > 1, || compact_case(&a, &b));
	}
	for i in 1..c.n(260, 2100) as u64 { let d = bits(i).len(); for n in d.saturating_sub(2)..d + 3 { c.case(("plain", i, n), i > 1, || plain_case(i, n, i % 5)); } }
	for _ in 0..c.n(300, 4000) { let d = 1 + c.rng.us(63); let i = (1u64 << d) | (c.rng.next() & ((1u64 << d) - 1)); let n = if c.rng.bool() { d } else { c.rng.us(66) }; c.case(("plain", i, n), true, || plain_case(i, n, 3)); }
}
