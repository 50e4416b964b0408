//! C11, C12, C15, C16, C17
use crate::util::*;
use crate::shapes::*;
use crate::{ensure, ensure_eq};
use bm::{Backend, ReadBackend, WriteBackend, Construct, Error, InMemoryBackend, NoopBackend, DynBackend, ProvingBackend, Index, Tree, Vector, List, Owned, Raw, Sequence, OwnedRaw, DanglingRaw, PackedVector, PackedList};
use bm_le::*;
use generic_array::GenericArray;
use primitive_types::{H256, H512, U256};
use sha2::Sha256;
use std::collections::HashMap;
use std::fmt::Debug;
use typenum::*;
use vecarray::VecArray;

/// encode in both constructs, compare root, decode back
fn rt<T: Ssz + IntoTree + FromTree>(x: &T) -> Result<(), String> {
	fn go<C: Kind, T: Ssz + IntoTree + FromTree>(x: &T) -> Result<(), String> {
		let mut db = Rec::<C>::default();
		let r = x.into_tree(&mut db).map_err(|e| format!("encode: {:?}", e))?;
		ensure_eq!(r, x.oracle(C::INH), "root of {:?} ({})", x, C::NAME);
		let y = T::from_tree(&r, &mut db).map_err(|e| format!("decode: {:?} of {:?} ({})", e, x, C::NAME))?;
		ensure_eq!(y, *x, "round trip ({})", C::NAME);
		let mut mem = InMemoryBackend::<C>::default();
		let r2 = x.into_tree(&mut mem).map_err(|e| format!("encode: {:?}", e))?;
		ensure_eq!(r2, r, "in-memory root");
		mem.rootify(&r2).map_err(|e| format!("{:?}", e))?;
		let y = T::from_tree(&r2, &mut mem).map_err(|e| format!("decode: {:?} of {:?} ({}, in memory)", e, x, C::NAME))?;
		ensure_eq!(y, *x, "in-memory round trip ({})", C::NAME);
		Ok(())
	}
	go::<Inh, T>(x)?;
	go::<Unit, T>(x)?;
	ensure_eq!(tree_root::<Sha256, T>(x), x.oracle(true).0, "tree_root");
	Ok(())
}
fn run<T: Ssz + IntoTree + FromTree>(c: &mut Ctx, name: &'static str, n: usize) {
	for _ in 0..n { if c.over() { return } let x = T::gen(&mut c.rng); c.case((name, format!("{:?}", x)), true, || rt(&x)); }
}
fn fixed<T: Ssz + IntoTree + FromTree>(c: &mut Ctx, name: &'static str, x: T) { c.case((name, format!("{:?}", x)), true, || rt(&x)); }

pub fn c11(c: &mut Ctx) {
	c.rule = "every u8, u16 and bool value, powers of two and neighbours and random values of the wider integers and hashes, through encode/root/decode over both constructs; lengths converted to end values and back; non-trivial: every value".into();
	for i in 0..=255u8 { fixed(c, "u8", i) }
	for i in 0..=65535u16 { if c.thorough || i % 7 == 0 || i < 300 { fixed(c, "u16", i) } }
	fixed(c, "bool", false); fixed(c, "bool", true); fixed(c, "unit", ());
	for k in 0..128u32 { for d in &[0u128, 1, 2] {
		let x = (1u128 << k).wrapping_sub(1).wrapping_add(*d);
		fixed(c, "u128", x);
		if k < 64 { fixed(c, "u64", x as u64) }
		if k < 32 { fixed(c, "u32", x as u32) }
	} }
	for k in 0..256usize { for d in 0..3u64 { let x = (U256::one() << k).overflowing_sub(U256::one()).0.overflowing_add(U256::from(d)).0; fixed(c, "U256", x); } }
	fixed(c, "u32", u32::max_value()); fixed(c, "u64", u64::max_value()); fixed(c, "u128", u128::max_value()); fixed(c, "U256", U256::max_value());
	for i in 0..64 { let mut b = [0u8; 64]; b[i] = 1 + i as u8; fixed(c, "H512", H512::from_slice(&b)); if i < 32 { fixed(c, "H256", H256::from_slice(&b[..32])); fixed(c, "Value", Value(H256::from_slice(&b[..32]))) } }
	let n = c.n(500, 20000);
	run::<u16>(c, "u16", n); run::<u32>(c, "u32", n); run::<u64>(c, "u64", n); run::<u128>(c, "u128", n);
	run::<U256>(c, "U256", n); run::<H256>(c, "H256", n); run::<H512>(c, "H512", n); run::<Value>(c, "Value", n);
	// decoding depends on the whole chunk of the type only
	for _ in 0..n { let b = c.rng.bytes(32); c.case(("chunk", &b), true, || {
		let v = chunk(&b);
		let mut db = read_only::<Inh>(HashMap::new());
		let e = |x: u128, n: usize| { let mut y = 0u128; for i in 0..n { y |= (b[i] as u128) << (8 * i) } ensure_eq!(x, y, "decode of chunk, {} bytes", n); Ok(()) as Result<(), String> };
		e(u8::from_tree(&v, &mut db).unwrap() as u128, 1)?; e(u16::from_tree(&v, &mut db).unwrap() as u128, 2)?; e(u32::from_tree(&v, &mut db).unwrap() as u128, 4)?; e(u64::from_tree(&v, &mut db).unwrap() as u128, 8)?; e(u128::from_tree(&v, &mut db).unwrap(), 16)?;
		ensure_eq!(U256::from_tree(&v, &mut db).unwrap().oracle(true), v, "U256 of chunk"); ensure_eq!(H256::from_tree(&v, &mut db).unwrap(), v.0, "H256 of chunk");
		Ok(())
	}); }
	// lengths
	let mut ls: Vec<usize> = (0..300).collect();
	for k in 0..64 { for d in 0..3usize { ls.push((1usize << k).wrapping_sub(1).wrapping_add(d)) } }
	for _ in 0..n { let s = c.rng.us(64); ls.push((c.rng.next() >> s) as usize) }
	for l in ls { c.case(("len", l), l > 0, || { let v = Value::from(l); ensure_eq!(v, lenval(l as u64), "length {} as value", l); let k: usize = v.into(); ensure_eq!(k, l, "length back"); Ok(()) }); }
	c.case("value from array", true, || { for i in 0..32 { let mut a = GenericArray::<u8, U32>::default(); a[i] = 7; a[31 - i] = 9; let v = Value::from(a.clone()); ensure_eq!(v.as_ref(), &a[..], "bytes"); let mut w = v.clone(); w.as_mut()[i] = 1; ensure_eq!(w.as_ref()[i], 1, "as_mut"); } ensure_eq!(Value::default(), zero(), "default"); Ok(()) });
}

fn elemental<T: Ssz + Packed + Clone>(c: &mut Ctx, name: &'static str, n: usize) where
	for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree + IntoCompositeVectorTree,
	for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree + IntoCompositeListTree,
	ElementalFixedVec<T>: FromCompactVectorTree + FromCompositeVectorTree,
{
	for k in 0..n {
		if c.over() { return }
		let len = if k < 140 { k } else { gen_len(&mut c.rng) * if c.rng.below(4) == 0 { 5 } else { 1 } };
		let xs: Vec<T> = (0..len).map(|_| T::gen(&mut c.rng)).collect();
		let max = match c.rng.below(4) { 0 | 1 => None, 2 => Some(len as u64 + c.rng.below(len as u64 + 3)), _ => Some(len as u64 + (1 << c.rng.below(36))) };
		c.case((name, max, format!("{:?}", xs)), len > 0, || {
			fn go<C: Kind, T: Ssz + Packed + Clone>(xs: &Vec<T>, max: Option<u64>) -> Result<(), String> where
				for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree + IntoCompositeVectorTree,
				for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree + IntoCompositeListTree,
				ElementalFixedVec<T>: FromCompactVectorTree + FromCompositeVectorTree,
			{
				let mut db = Rec::<C>::default();
				let e = |e: Error<Injected>| format!("{:?}", e);
				let (cr, pr) = (comp_root(xs, max, C::INH), packed_root(xs, max, C::INH));
				let l = lenval(xs.len() as u64);
				ensure_eq!(ElementalFixedVecRef(&xs[..]).into_compact_vector_tree(&mut db, max).map_err(e)?, pr, "compact vector root");
				ensure_eq!(ElementalFixedVec(xs.clone()).into_compact_vector_tree(&mut db, max).map_err(e)?, pr, "compact vector root (owned)");
				ensure_eq!(ElementalFixedVec::<T>::from_compact_vector_tree(&pr, &mut db, xs.len(), max).map_err(e)?.0, *xs, "compact vector round trip");
				let lr = ElementalVariableVecRef(&xs[..]).into_compact_list_tree(&mut db, max).map_err(e)?;
				ensure_eq!(lr, rh(&pr, &l), "compact list root");
				ensure_eq!(ElementalVariableVec(xs.clone()).into_compact_list_tree(&mut db, max).map_err(e)?, lr, "compact list root (owned)");
				ensure_eq!(ElementalVariableVec::<T>::from_compact_list_tree(&lr, &mut db, max).map_err(e)?.0, *xs, "compact list round trip");
				ensure_eq!(ElementalFixedVecRef(&xs[..]).into_composite_vector_tree(&mut db, max).map_err(e)?, cr, "composite vector root");
				ensure_eq!(ElementalFixedVec::<T>::from_composite_vector_tree(&cr, &mut db, xs.len(), max).map_err(e)?.0, *xs, "composite vector round trip");
				let lr = ElementalVariableVecRef(&xs[..]).into_composite_list_tree(&mut db, max).map_err(e)?;
				ensure_eq!(lr, rh(&cr, &l), "composite list root");
				ensure_eq!(ElementalVariableVec::<T>::from_composite_list_tree(&lr, &mut db, max).map_err(e)?.0, *xs, "composite list round trip");
				// nothing longer than its limit encodes
				for d in &[1usize, 2, 7, 100] { if *d <= xs.len() {
					let over = Some((xs.len() - d) as u64);
					let mut db = Rec::<C>::default();
					ensure_eq!(ElementalFixedVecRef(&xs[..]).into_compact_vector_tree(&mut db, over), Err(Error::InvalidParameter), "compact vector {} over its limit", d);
					ensure_eq!(ElementalVariableVecRef(&xs[..]).into_compact_list_tree(&mut db, over), Err(Error::InvalidParameter), "compact list {} over its limit", d);
					ensure_eq!(ElementalFixedVecRef(&xs[..]).into_composite_vector_tree(&mut db, over), Err(Error::InvalidParameter), "composite vector {} over its limit", d);
					ensure_eq!(ElementalVariableVecRef(&xs[..]).into_composite_list_tree(&mut db, over), Err(Error::InvalidParameter), "composite list {} over its limit", d);
				} }
				Ok(())
			}
			go::<Inh, T>(&xs, max)?;
			go::<Unit, T>(&xs, max)
		});
	}
}

macro_rules! all_types { ($f:ident, $c:expr, $n:expr) => { {
	let (c, n) = ($c, $n);
	$f::<(u8, u64)>(c, "(u8,u64)", n); $f::<(u16, H256, bool)>(c, "(u16,H256,bool)", n); $f::<(u8, u16, u32, u64)>(c, "tuple4", n); $f::<(Vec<u8>, U256, Three, u8, Option<u16>)>(c, "tuple5", n);
	$f::<(u8, u16, u32, u64, u128, U256)>(c, "tuple6", n); $f::<(u8, u16, u32, u64, u128, U256, bool)>(c, "tuple7", n); $f::<(u8, u16, u32, u64, u128, U256, bool, H256)>(c, "tuple8", n); $f::<(u8, u16, u32, u64, u128, U256, bool, H256, H512)>(c, "tuple9", n);
	$f::<[u8; 1]>(c, "[u8;1]", n); $f::<[u16; 2]>(c, "[u16;2]", n); $f::<[u64; 3]>(c, "[u64;3]", n); $f::<[U256; 5]>(c, "[U256;5]", n); $f::<[u128; 8]>(c, "[u128;8]", n); $f::<[bool; 17]>(c, "[bool;17]", n); $f::<[u8; 32]>(c, "[u8;32]", n); $f::<[[u8; 3]; 9]>(c, "[[u8;3];9]", n); $f::<[H256; 31]>(c, "[H256;31]", n);
	$f::<GenericArray<u16, U6>>(c, "GenericArray<u16,U6>", n); $f::<GenericArray<Vec<u8>, U3>>(c, "GenericArray<Vec<u8>,U3>", n); $f::<GenericArray<u8, U33>>(c, "GenericArray<u8,U33>", n);
	$f::<VecArray<u32, U5>>(c, "VecArray<u32,U5>", n); $f::<VecArray<Three, U4>>(c, "VecArray<Three,U4>", n);
	$f::<Compact<GenericArray<u8, U1>>>(c, "Compact<[u8;1]>", n); $f::<Compact<GenericArray<u8, U33>>>(c, "Compact<[u8;33]>", n); $f::<Compact<GenericArray<u64, U64>>>(c, "Compact<[u64;64]>", n); $f::<Compact<GenericArray<u128, U5>>>(c, "Compact<[u128;5]>", n); $f::<Compact<GenericArray<U256, U3>>>(c, "Compact<[U256;3]>", n);
	$f::<Compact<GenericArray<bool, U7>>>(c, "bitvector 7", n); $f::<Compact<GenericArray<bool, typenum::consts::U256>>>(c, "bitvector 256", n); $f::<Compact<GenericArray<bool, U257>>>(c, "bitvector 257", n);
	$f::<Compact<VecArray<u16, U17>>>(c, "Compact<VecArray<u16,U17>>", n); $f::<Compact<VecArray<bool, U9>>>(c, "Compact<VecArray<bool,U9>>", n);
	$f::<MaxVec<u8, U1>>(c, "MaxVec<u8,1>", n); $f::<MaxVec<u64, U5>>(c, "MaxVec<u64,5>", n); $f::<MaxVec<Three, U33>>(c, "MaxVec<Three,33>", n); $f::<MaxVec<Vec<u16>, U7>>(c, "MaxVec<Vec<u16>,7>", n); $f::<MaxVec<U256, U1048576>>(c, "MaxVec<U256,2^20>", n);
	$f::<Compact<MaxVec<u8, U1>>>(c, "Compact<MaxVec<u8,1>>", n); $f::<Compact<MaxVec<u8, U65>>>(c, "Compact<MaxVec<u8,65>>", n); $f::<Compact<MaxVec<u16, U33>>>(c, "Compact<MaxVec<u16,33>>", n); $f::<Compact<MaxVec<u64, U1048576>>>(c, "Compact<MaxVec<u64,2^20>>", n); $f::<Compact<MaxVec<u128, U3>>>(c, "Compact<MaxVec<u128,3>>", n); $f::<Compact<MaxVec<U256, U6>>>(c, "Compact<MaxVec<U256,6>>", n);
	$f::<Compact<MaxVec<bool, U8>>>(c, "bitlist 8", n); $f::<Compact<MaxVec<bool, U255>>>(c, "bitlist 255", n); $f::<Compact<MaxVec<bool, U257>>>(c, "bitlist 257", n); $f::<Compact<MaxVec<bool, U2048>>>(c, "bitlist 2048", n); $f::<Compact<MaxVec<u32, U9>>>(c, "Compact<MaxVec<u32,9>>", n);
	$f::<Vec<u8>>(c, "Vec<u8>", n); $f::<Vec<Vec<u16>>>(c, "Vec<Vec<u16>>", n); $f::<Vec<Option<u64>>>(c, "Vec<Option<u64>>", n); $f::<Vec<(u8, bool)>>(c, "Vec<(u8,bool)>", n); $f::<Vec<()>>(c, "Vec<()>", n);
	$f::<Option<u8>>(c, "Option<u8>", n); $f::<Option<Option<Vec<u8>>>>(c, "Option<Option<Vec<u8>>>", n); $f::<Option<()>>(c, "Option<()>", n); $f::<Box<Three>>(c, "Box<Three>", n); $f::<Option<Box<(u8, u8)>>>(c, "Option<Box<(u8,u8)>>", n);
	$f::<Three>(c, "Three", n); $f::<One>(c, "One", n); $f::<Tup>(c, "Tup", n); $f::<Config>(c, "Config", n); $f::<En>(c, "En", n); $f::<Vec<En>>(c, "Vec<En>", n); $f::<Nest>(c, "Nest", n); $f::<Deep>(c, "Deep", n); $f::<(En, Config)>(c, "(En,Config)", n);
	$f::<u8>(c, "u8", n); $f::<bool>(c, "bool", n); $f::<u64>(c, "u64", n); $f::<U256>(c, "U256", n); $f::<H256>(c, "H256", n); $f::<H512>(c, "H512", n); $f::<()>(c, "()", n);
} } }

pub fn c12(c: &mut Ctx) {
	c.rule = "random values of 75 composite types (tuples, arrays, fixed/limited/unlimited vectors, composite and compact, bit vectors/lists, options, boxes, derived structs and enums, nested), roots compared with an independent ssz merkleization, decoded back over two constructs and two backends; elemental vectors of every length to 139 with and without limits; non-trivial: non-empty values".into();
	let n = c.n(40, 800);
	all_types!(run, &mut *c, n);
	let n = c.n(160, 2000);
	elemental::<bool>(c, "bits", n); elemental::<u8>(c, "u8s", n); elemental::<u16>(c, "u16s", n); elemental::<u32>(c, "u32s", n); elemental::<u64>(c, "u64s", n); elemental::<u128>(c, "u128s", n); elemental::<U256>(c, "U256s", n);
	// large limits and refs
	for _ in 0..c.n(60, 600) {
		if c.over() { return }
		let x: MaxVec<u64, U1099511627776> = MaxVec::gen(&mut c.rng);
		let y = Compact(MaxVec::<u16, U1099511627776>::gen(&mut c.rng));
		c.case(("limit 2^40", format!("{:?} {:?}", x, y)), true, || { rt(&x)?; rt(&y)?;
			let mut db = Rec::<Inh>::default();
			ensure_eq!(CompactRef(&y.0).into_tree(&mut db).map_err(|e| format!("{:?}", e))?, y.oracle(true), "CompactRef root");
			Ok(()) });
	}
}

// ---------------- C15 ----------------

fn indep<T: Ssz + IntoTree + FromTree>(c: &mut Ctx, name: &'static str, n: usize) {
	for _ in 0..n {
		if c.over() { return }
		let x = T::gen(&mut c.rng);
		let y = T::gen(&mut c.rng);
		let seed = c.rng.next();
		c.case((name, format!("{:?}", x)), true, || {
			let o = x.oracle(true);
			let mut rec = Rec::<Inh>::default();
			ensure_eq!(x.into_tree(&mut rec).map_err(|e| format!("{:?}", e))?, o, "recording backend");
			ensure!(rec.log.iter().all(|k| if let Call::Insert(..) = k { true } else { false }), "encoding did something else than inserting: {:?}", rec.log.iter().find(|k| if let Call::Insert(..) = k { false } else { true }));
			for (k, (l, r)) in &rec.store { ensure_eq!(*k, rh(l, r), "inserted pair hashes to its key"); }
			ensure_eq!(x.into_tree(&mut NoopBackend::<Inh>::default()).map_err(|e| format!("{:?}", e))?, o, "noop backend");
			ensure_eq!(tree_root::<Sha256, T>(&x), o.0, "tree_root");
			let mut mem = InMemoryBackend::<Inh>::default();
			// arbitrary prior content, including other trees over the same nodes
			let oy = y.into_tree(&mut mem).map_err(|e| format!("{:?}", e))?;
			let mut r = Rng(seed);
			let ks: Vec<Value> = rec.store.keys().cloned().collect();
			for _ in 0..3 { if !ks.is_empty() { let k = ks[r.us(ks.len())].clone(); mem.rootify(&k).map_err(|e| format!("{:?}", e))?; } }
			ensure_eq!(x.into_tree(&mut mem).map_err(|e| format!("{:?}", e))?, o, "in-memory backend with prior content");
			for (k, p) in &rec.store { ensure_eq!(mem.get(k).map_err(|e| format!("{:?}", e))?, Some(p.clone()), "node written by encoding is readable in memory"); }
			ensure_eq!(T::from_tree(&o, &mut mem).map_err(|e| format!("{:?}", e))?, x, "decoded from shared store");
			ensure_eq!(T::from_tree(&oy, &mut mem).map_err(|e| format!("{:?}", e))?, y, "other value intact");
			let mut dy = DynBackend(Rec::<Inh>::default());
			ensure_eq!(x.into_tree(&mut dy).map_err(|e| format!("{:?}", e))?, o, "error-stripping backend");
			ensure_eq!(dy.0.store, rec.store, "nodes written through the error-stripping backend");
			ensure_eq!(T::from_tree(&o, &mut dy).map_err(|e| format!("{:?}", e))?, x, "decode through the error-stripping backend");
			let mut inner = Rec::<Inh>::default();
			{ let mut pr = ProvingBackend::new(&mut inner); ensure_eq!(x.into_tree(&mut pr).map_err(|e| format!("{:?}", e))?, o, "proving backend"); }
			ensure_eq!(inner.store, rec.store, "nodes written through the proving backend");
			// every interior node under the root of the value is stored: decoding from a read-only copy works
			let mut ro = read_only::<Inh>(rec.store.clone());
			ensure_eq!(T::from_tree(&o, &mut ro).map_err(|e| format!("{:?}", e))?, x, "decode from the inserted nodes");
			// faults
			let total = rec.calls;
			let pts: Vec<u64> = if total <= 24 { (0..total).collect() } else { (0..24).map(|_| r.below(total)).collect() };
			for k in pts {
				let mut f = Rec::<Inh>::default(); f.fail_at = Some(k);
				ensure_eq!(x.into_tree(&mut f).map(|_| ()), Err(Error::Backend(Injected(k))), "encode with failing write {}", k);
				let mut f = DynBackend(Rec::<Inh>::default()); f.0.fail_at = Some(k);
				ensure_eq!(x.into_tree(&mut f).map(|_| ()), Err(Error::Backend(())), "encode with failing write {} through the error-stripping backend", k);
			}
			let total = ro.gets;
			let pts: Vec<u64> = if total <= 24 { (0..total).collect() } else { (0..24).map(|_| r.below(total)).collect() };
			for k in pts {
				let mut f = read_only::<Inh>(rec.store.clone()); f.fail_at = Some(k);
				ensure_eq!(T::from_tree(&o, &mut f).map(|_| ()), Err(Error::Backend(Injected(k))), "decode with failing read {}", k);
			}
			Ok(())
		});
	}
}

pub fn c15(c: &mut Ctx) {
	c.rule = "random values of 75 types encoded over discarding, recording, in-memory (with prior shared content), proving and error-stripping backends, and with each backend call failing in turn; vector/list/raw operations with each call failing in turn; non-trivial: every value".into();
	let n = c.n(12, 200);
	all_types!(indep, &mut *c, n);
	for it in 0..c.n(700, 8000) {
		if c.over() { return }
		let k = c.rng.us(20);
		let op = c.rng.us(8);
		let pos = c.rng.us(k + 1);
		c.case(("op-fault", it, k, op, pos), true, || {
			fn one<F: Fn(&mut Rec<Inh>) -> Result<(), Error<Injected>>>(base: &HashMap<Value, (Value, Value)>, f: F, w: &str) -> Result<(), String> {
				let mut db = Rec::<Inh>::default(); db.store = base.clone();
				f(&mut db).map_err(|e| format!("{}: {:?}", w, e))?;
				let total = db.calls;
				for j in 0..total {
					let mut db = Rec::<Inh>::default(); db.store = base.clone(); db.fail_at = Some(j);
					ensure_eq!(f(&mut db), Err(Error::Backend(Injected(j))), "{} with failing call {} of {}", w, j, total);
				}
				Ok(())
			}
			let mut db = Rec::<Inh>::default();
			let mut l = List::<Owned, Inh>::create(&mut db, None).map_err(|e| format!("{:?}", e))?;
			let mut v = Vector::<Owned, Inh>::create(&mut db, 0, None).map_err(|e| format!("{:?}", e))?;
			for i in 0..k { l.push(&mut db, val(i as u64)).unwrap(); v.push(&mut db, val(i as u64)).unwrap(); }
			type Pv<V> = PackedVector<Owned, Inh, GenericArray<u8, V>, U32, V>;
			type Pl<V> = PackedList<Owned, Inh, GenericArray<u8, V>, U32, V>;
			fn packed<V: generic_array::ArrayLength<u8>, F: Fn(&HashMap<Value, (Value, Value)>, &dyn Fn(&mut Rec<Inh>) -> Result<(), Error<Injected>>, &str) -> Result<(), String>>(k: usize, op: usize, pos: usize, one: F) -> Result<(), String> {
				let it = |x: u8| -> GenericArray<u8, V> { let mut a = GenericArray::default(); for b in a.iter_mut() { *b = x } a };
				let mut db = Rec::<Inh>::default();
				let mut v = Pv::<V>::create(&mut db, 0, None).map_err(|e| format!("{:?}", e))?;
				let mut l = Pl::<V>::create(&mut db, None).map_err(|e| format!("{:?}", e))?;
				for i in 0..k { v.push(&mut db, it(i as u8 + 1)).map_err(|e| format!("{:?}", e))?; l.push(&mut db, it(i as u8 + 1)).map_err(|e| format!("{:?}", e))?; }
				let (vm, lm) = (v.metadata(), l.metadata());
				let mkv = || Pv::<V>::from_leaked(vm.clone());
				let mkl = || Pl::<V>::from_leaked(lm.clone());
				match op {
					0 => { one(&db.store, &|db| mkv().push(db, it(99)), "packed push")?; one(&db.store, &|db| mkl().push(db, it(99)), "packed list push") },
					1 => { one(&db.store, &|db| mkv().pop(db).map(|_| ()), "packed pop")?; one(&db.store, &|db| mkl().pop(db).map(|_| ()), "packed list pop") },
					2 if pos < k => { one(&db.store, &|db| mkv().set(db, pos, it(98)), "packed set")?; one(&db.store, &|db| mkl().set(db, pos, it(98)), "packed list set") },
					3 if pos < k => { one(&db.store, &|db| mkv().get(db, pos).map(|_| ()), "packed get")?; one(&db.store, &|db| mkl().get(db, pos).map(|_| ()), "packed list get") },
					4 => { one(&db.store, &|db| Pv::<V>::create(db, k, None).map(|_| ()), "packed create")?; one(&db.store, &|db| Pl::<V>::create(db, Some(1 + k as u64)).map(|_| ()), "packed list create") },
					_ => { one(&db.store, &|db| mkv().drop(db), "packed drop")?; one(&db.store, &|db| mkl().drop(db), "packed list drop") },
				}
			}
			match it % 4 {
				0 => return packed::<U8, _>(k, op, pos, |b, f, w| one(b, f, w)),
				1 => return packed::<U5, _>(k, op, pos, |b, f, w| one(b, f, w)),
				2 => return packed::<U40, _>(k, op, pos, |b, f, w| one(b, f, w)),
				_ => (),
			}
			let (lm, vm) = (l.metadata(), v.metadata());
			let base = db.store.clone();
			let mkl = || List::<Owned, Inh>::from_leaked(lm.clone());
			let mkv = || Vector::<Owned, Inh>::from_leaked(vm.clone());
			match op {
				0 => { one(&base, |db| mkl().push(db, val(99)), "list push")?; one(&base, |db| mkv().push(db, val(99)), "vector push") },
				1 => { one(&base, |db| mkl().pop(db).map(|_| ()), "list pop")?; one(&base, |db| mkv().pop(db).map(|_| ()), "vector pop") },
				2 if pos < k => { one(&base, |db| mkl().set(db, pos, val(98)), "list set")?; one(&base, |db| mkv().set(db, pos, val(98)), "vector set") },
				3 if pos < k => { one(&base, |db| mkl().get(db, pos).map(|_| ()), "list get")?; one(&base, |db| mkv().get(db, pos).map(|_| ()), "vector get") },
				4 => { one(&base, |db| List::<Owned, Inh>::create(db, Some(1 + k as u64)).map(|_| ()), "list create")?; one(&base, |db| Vector::<Owned, Inh>::create(db, k, None).map(|_| ()), "vector create") },
				5 => { let r = lm.0.clone(); one(&base, |db| List::<Owned, Inh>::reconstruct(r.clone(), db, None).map(|_| ()), "list reconstruct")?; one(&base, |db| mkl().deconstruct(db).map(|_| ()), "list deconstruct") },
				6 => { one(&base, |db| mkl().drop(db), "list drop")?; one(&base, |db| mkv().drop(db), "vector drop") },
				_ => { let r = vm.0.clone(); one(&base, |db| OwnedRaw::<Inh>::new(r.clone()).set(db, Index::from_one(1 + pos).unwrap(), val(7)), "raw set")?; let r = vm.0.clone(); one(&base, |db| DanglingRaw::<Inh>::new(r.clone()).get(db, Index::from_one(1 + pos).unwrap()).map(|_| ()), "raw get") },
			}
		});
	}
}

// ---------------- C16 ----------------

#[derive(Debug, Clone, Hash)]
enum PEdit { D(u16), A(u32), B(u64), C(u128), H(u8), Z(u64), T(u8), PAt(usize, u64), QAt(usize, u64), PPush(u64), QPush(u64), Flush, Reads, }

fn partial_run<R: bm::RootStatus>(mut x: Deep, edits: &[PEdit]) -> Result<(), String> {
	let mut db = InMemoryBackend::<Inh>::default();
	let e = |e: Error<bm::InMemoryBackendError>| format!("{:?}", e);
	let root = x.into_tree(&mut db).map_err(e)?;
	let mut raw = Raw::<R, Inh>::default();
	raw.set(&mut db, Index::root(), root.clone()).map_err(e)?;
	let mut p = PartialDeep::new(PartialIndex::root());
	// staged edits, applied in flush order: fields in declaration order, list items before pushes
	let mut staged = x.clone();
	let mut pushes: (Vec<u64>, Vec<u64>) = (vec![], vec![]);
	for (n, ed) in edits.iter().enumerate() {
		match ed {
			PEdit::D(v) => { p.nest.d.set(*v); staged.nest.d = *v },
			PEdit::A(v) => { p.nest.basic.a.set(*v); staged.nest.basic.a = *v },
			PEdit::B(v) => { p.nest.basic.b.set(*v); staged.nest.basic.b = *v },
			PEdit::C(v) => { p.nest.basic.c.set(*v); staged.nest.basic.c = *v },
			PEdit::H(v) => { let h = H256::repeat_byte(*v); p.nest.h.set(h); staged.nest.h = h },
			PEdit::Z(v) => { p.z.set(U256::from(*v)); staged.z = U256::from(*v) },
			PEdit::T(v) => { p.t.set(*v); staged.t = *v },
			PEdit::PAt(i, v) => if !x.p.0.is_empty() { let i = i % x.p.0.len(); p.p.at(i).set(*v); staged.p.0[i] = *v },
			PEdit::QAt(i, v) => if !x.q.0.is_empty() { let i = i % x.q.0.len(); p.q.at(i).set(*v); staged.q.0[i] = *v },
			PEdit::PPush(v) => { p.p.push(*v); pushes.0.push(*v) },
			PEdit::QPush(v) => { p.q.push(*v); pushes.1.push(*v) },
			PEdit::Reads => {
				// unset fields read from the tree; reading an element beyond the list is an error
				let mut q = PartialDeep::new(PartialIndex::root());
				ensure_eq!(*q.nest.d.get(&raw, &mut db).map_err(e)?, x.nest.d, "read nest.d");
				ensure_eq!(*q.nest.basic.a.get(&raw, &mut db).map_err(e)?, x.nest.basic.a, "read nest.basic.a");
				ensure_eq!(*q.nest.basic.b.get(&raw, &mut db).map_err(e)?, x.nest.basic.b, "read nest.basic.b");
				ensure_eq!(*q.nest.basic.c.get(&raw, &mut db).map_err(e)?, x.nest.basic.c, "read nest.basic.c");
				ensure_eq!(*q.nest.h.get(&raw, &mut db).map_err(e)?, x.nest.h, "read nest.h");
				ensure_eq!(*q.z.get(&raw, &mut db).map_err(e)?, x.z, "read z");
				ensure_eq!(*q.t.get(&raw, &mut db).map_err(e)?, x.t, "read t");
				for (i, v) in x.p.0.iter().enumerate() { ensure_eq!(*q.p.at(i).get(&raw, &mut db).map_err(e)?, *v, "read p[{}]", i); }
				for (i, v) in x.q.0.iter().enumerate() { ensure_eq!(*q.q.at(i).get(&raw, &mut db).map_err(e)?, *v, "read q[{}]", i); }
				for (k, l) in &[(0, x.p.0.len()), (1, x.q.0.len())] { for d in &[0usize, 1, 7] {
					let mut q = PartialDeep::new(PartialIndex::root());
					let f = if *k == 0 { q.p.at(l + d) } else { q.q.at(l + d) };
					ensure!(f.get(&raw, &mut db).is_err(), "reading position {} of a list of length {} succeeded", l + d, l);
					f.set(1);
					let before = raw.root();
					ensure!(f.flush(&mut raw, &mut db).is_err(), "writing position {} of a list of length {} succeeded", l + d, l);
					ensure_eq!(raw.root(), before, "root after rejected write");
				} }
				// a staged write beyond the stored list is rejected also when pushes are staged
				for k in 0..2 {
					let mut q = PartialDeep::new(PartialIndex::root());
					let l = if k == 0 { x.p.0.len() } else { x.q.0.len() };
					let list = if k == 0 { &mut q.p } else { &mut q.q };
					for d in 0..3u64 { list.push(d) }
					list.at(l + n % 3).set(9);
					let mut scratch = bm::DanglingRaw::<Inh>::new(raw.root());
					ensure!(q.flush(&mut scratch, &mut db).is_err(), "writing position {} of a list of length {} with 3 staged pushes succeeded", l + n % 3, l);
				}
				// flushing fetched but unchanged values keeps the root
				let before = raw.root();
				q.flush(&mut raw, &mut db).map_err(e)?;
				ensure_eq!(raw.root(), before, "root after flushing unchanged values (step {})", n);
			},
			PEdit::Flush => {
				p.flush(&mut raw, &mut db).map_err(e)?;
				staged.p.0.append(&mut pushes.0); staged.q.0.append(&mut pushes.1);
				x = staged.clone();
				ensure_eq!(raw.root(), x.oracle(true), "root after flush (step {})", n);
				ensure_eq!(Deep::from_tree(&raw.root(), &mut db).map_err(e)?, x, "value after flush (step {})", n);
				let before = raw.root();
				p.flush(&mut raw, &mut db).map_err(e)?;
				ensure_eq!(raw.root(), before, "root after flushing again (step {})", n);
				// what another partial wrote since is neither undone by a further flush nor hidden from a read
				let mut q = PartialDeep::new(PartialIndex::root());
				let v = n as u64 * 77 + 1;
				q.t.set(v as u8); x.t = v as u8;
				q.nest.basic.b.set(v); x.nest.basic.b = v;
				q.nest.d.set(v as u16); x.nest.d = v as u16;
				q.z.set(U256::from(v)); x.z = U256::from(v);
				if !x.p.0.is_empty() { let i = n % x.p.0.len(); q.p.at(i).set(v); x.p.0[i] = v; }
				if !x.q.0.is_empty() { let i = n % x.q.0.len(); q.q.at(i).set(v); x.q.0[i] = v; }
				q.flush(&mut raw, &mut db).map_err(e)?;
				ensure_eq!(raw.root(), x.oracle(true), "root after another partial's flush (step {})", n);
				p.flush(&mut raw, &mut db).map_err(e)?;
				ensure_eq!(raw.root(), x.oracle(true), "root after flushing an already flushed partial over another's writes (step {})", n);
				ensure_eq!(*p.t.get(&raw, &mut db).map_err(e)?, x.t, "t read after another partial's flush (step {})", n);
				ensure_eq!(*p.nest.basic.b.get(&raw, &mut db).map_err(e)?, x.nest.basic.b, "nest.basic.b read after another partial's flush (step {})", n);
				p.flush(&mut raw, &mut db).map_err(e)?;
				ensure_eq!(raw.root(), x.oracle(true), "root after flushing what was read (step {})", n);
				staged = x.clone();
			},
		}
	}
	Ok(())
}

pub fn c16(c: &mut Ctx) {
	c.rule = "random struct values with nested structs and two lists, random sequences of set/at/push/read/flush over every field, owned and dangling roots; raw index resolution for all positions; chains of up to 70 raw, vector and list links at random depths and lengths to and beyond what an index can address; non-trivial: at least one flush".into();
	for it in 0..c.n(1500, 20000) {
		if c.over() { return }
		let x = Deep::gen(&mut c.rng);
		let n = 1 + c.rng.us(12);
		let mut eds: Vec<PEdit> = (0..n).map(|_| { let r = &mut c.rng; match r.below(14) { 0 => PEdit::D(r.next() as u16), 1 => PEdit::A(r.next() as u32), 2 => PEdit::B(r.next()), 3 => PEdit::C(r.next() as u128), 4 => PEdit::H(r.next() as u8), 5 => PEdit::Z(r.next()), 6 => PEdit::T(r.next() as u8), 7 => PEdit::PAt(r.us(200), r.next()), 8 => PEdit::QAt(r.us(200), r.next()), 9 => PEdit::PPush(r.next()), 10 => PEdit::QPush(r.next()), 11 => PEdit::Reads, _ => PEdit::Flush } }).collect();
		eds.push(PEdit::Flush); eds.push(PEdit::Reads);
		if it % 2 == 0 { c.case(("owned", format!("{:?}", x), &eds), true, || partial_run::<bm::Owned>(x.clone(), &eds)); }
		else { c.case(("dangling", format!("{:?}", x), &eds), true, || partial_run::<bm::Dangling>(x.clone(), &eds)); }
	}
	// a failing backend: what cannot be read or written is reported, whichever call fails
	for it in 0..c.n(60, 1500) {
		if c.over() { return }
		let x = Deep::gen(&mut c.rng);
		let seed = c.rng.next();
		c.case(("fault", it, format!("{:?}", x), seed), true, || {
			let mut base = Rec::<Inh>::default();
			let root = x.into_tree(&mut base).map_err(|e| format!("{:?}", e))?;
			let mk = || {
				let mut r = Rng(seed);
				let mut p = PartialDeep::new(PartialIndex::root());
				if r.bool() { p.nest.d.set(r.next() as u16) }
				if r.bool() { p.nest.h.set(H256::repeat_byte(7)) }
				if r.bool() { p.z.set(U256::from(r.next())) }
				if r.bool() { p.t.set(5) }
				for _ in 0..r.us(3) { if !x.p.0.is_empty() { let i = r.us(x.p.0.len()); p.p.at(i).set(r.next()) } }
				for _ in 0..r.us(3) { if !x.q.0.is_empty() { let i = r.us(x.q.0.len()); p.q.at(i).set(r.next()) } }
				for _ in 0..r.us(3) { p.p.push(r.next()) }
				for _ in 0..r.us(3) { p.q.push(r.next()) }
				p
			};
			let run = |fail: Option<u64>, read: bool| -> (Result<(), Error<Injected>>, u64) {
				let mut db = Rec::<Inh>::default(); db.store = base.store.clone(); db.fail_at = fail;
				let mut raw = DanglingRaw::<Inh>::new(root.clone());
				let mut p = if read { PartialDeep::new(PartialIndex::root()) } else { mk() };
				let r = if read {
					p.nest.basic.b.get(&raw, &mut db).map(|_| ()).and_then(|_| p.z.get(&raw, &mut db).map(|_| ())).and_then(|_| if x.q.0.is_empty() { Ok(()) } else { p.q.at(x.q.0.len() - 1).get(&raw, &mut db).map(|_| ()) })
				} else { p.flush(&mut raw, &mut db) };
				(r, db.calls)
			};
			for read in [true, false].iter() {
				let (r, total) = run(None, *read);
				r.map_err(|e| format!("{:?}", e))?;
				for j in 0..total { if total < 60 || j % (total / 50) == seed % (total / 50) { ensure_eq!(run(Some(j), *read).0, Err(Error::Backend(Injected(j))), "{} with failing call {} of {}", if *read { "read" } else { "flush" }, j, total); } }
			}
			Ok(())
		});
	}
	// index resolution
	for n in 0..c.n(40, 130) { c.case(("resolve", n), n > 0, || {
		let mut db = Rec::<Inh>::default();
		let xs: Vec<u64> = (0..n as u64).map(|i| i * 3 + 1).collect();
		let lr = xs.into_tree(&mut db).map_err(|e| format!("{:?}", e))?;
		let raw = DanglingRaw::<Inh>::new(lr);
		for i in 0..n { 
			let ix = PartialIndex::root().list(i).resolve(&raw, &mut db).map_err(|e| format!("{:?}", e))?;
			ensure_eq!(raw.get(&mut db, ix), Ok(Some(xs[i].oracle(true))), "list item {} of {}", i, n);
		}
		ensure!(PartialIndex::root().list(n).resolve(&raw, &mut db).is_err(), "list position {} of {} resolved", n, n);
		for k in 1..(n + 1) { for i in 0..k {
			let d = ceil_log2(k as u64);
			ensure_eq!(PartialIndex::root().vector(i, k).resolve(&raw, &mut db), Ok(Index::from_depth(i, d)), "vector item {} of {}", i, k);
			let nested = PartialIndex::root().raw(Index::from_one(5).unwrap()).vector(i, k).resolve(&raw, &mut db);
			ensure_eq!(nested, Ok(Index::from_one(5).unwrap().sub(Index::from_depth(i, d))), "nested vector item {} of {}", i, k);
		} }
		Ok(())
	}); }
	// chains of parents, to and beyond the depth an index can address, over a tree where every list has length `n`
	for it in 0..c.n(20000, 200000) {
		if c.over() { return }
		let r = &mut c.rng;
		let pick = |r: &mut Rng| -> u64 { match r.below(6) { 0 => r.below(6), 1 => { let s = r.below(64); (1u64 << s).wrapping_sub(1).wrapping_add(r.below(3)) }, 2 => (1 << 63) + r.below(2), 3 => u64::max_value() - r.below(2), _ => { let s = r.below(64); r.next() >> s } } };
		let n = pick(r);
		let gap = r.below(4) == 0;
		let chain: Vec<Link> = (0..r.us(if it % 3 == 0 { 70 } else { 6 })).map(|_| match r.below(4) {
			0 | 1 => Link::Raw(if it % 3 == 0 { 1 + r.below(7) } else { pick(r).max(1) }),
			2 => { let len = if it % 3 == 0 { r.below(9) } else { pick(r) }; let i = match r.below(8) { 0 => pick(r), 1 => len, _ => if len > 0 { r.next() % len } else { 0 } }; Link::Vector(i, len) },
			_ => Link::List(match r.below(8) { 0 => pick(r), 1 => n, _ => if n > 0 { r.next() % n } else { 0 } }),
		}).collect();
		c.case(("chain", n, gap, &chain), true, || chain_case(n, gap, &chain));
	}
}

#[derive(Debug, Clone, Hash)]
enum Link { Raw(u64), Vector(u64, u64), List(u64) }

/// Resolve a chain of links in a tree whose every left child is X = (X, n) and every right child is n = (X, n);
/// with `gap` the node n is missing, so only X, the root's leftmost spine, can be entered.
fn chain_case(n: u64, gap: bool, chain: &[Link]) -> Result<(), String> {
	let (x, l) = (chunk(&[0xee; 32]), lenval(n));
	let mut db = Rec::<Inh>::default();
	db.store.insert(x.clone(), (x.clone(), l.clone()));
	if !gap { db.store.insert(l.clone(), (x.clone(), l.clone())); }
	let mut p = PartialIndex::root();
	// a position: bits from the root, or the error
	let mut want: Result<Vec<bool>, Error<Injected>> = Ok(vec![]);
	fn below(p: Vec<bool>, q: Vec<bool>) -> Result<Vec<bool>, Error<Injected>> { let mut p = p; p.extend(q); if p.len() < 64 { Ok(p) } else { Err(Error::AccessOverflowed) } }
	fn item(p: Vec<bool>, i: u64, n: u64) -> Result<Vec<bool>, Error<Injected>> {
		if i >= n || n > 1 << 63 { return Err(Error::AccessOverflowed) }
		below(p, (0..ceil_log2(n)).rev().map(|k| (i >> k) & 1 == 1).collect())
	}
	for k in chain {
		p = match k { Link::Raw(i) => p.raw(Index::from_one(*i as usize).unwrap()), Link::Vector(i, n) => p.vector(*i as usize, *n as usize), Link::List(i) => p.list(*i as usize) };
		want = want.and_then(|w| match k {
			Link::Raw(i) => below(w, bits(*i)),
			Link::Vector(i, n) => item(w, *i, *n),
			Link::List(i) => {
				let len = below(w.clone(), vec![true])?;
				if walk(&db.store, &x, &len).is_none() || n > 1 << 63 { return Err(Error::CorruptedDatabase) }
				item(below(w, vec![false])?, *i, n)
			},
		});
	}
	let want = want.map(|w| { let mut one = 1usize; for b in &w { one = one * 2 + *b as usize } Index::from_one(one).unwrap() });
	let got = p.resolve(&DanglingRaw::<Inh>::new(x.clone()), &mut db);
	ensure_eq!(got, want, "resolved index");
	// reading and writing through the index
	let mut raw = DanglingRaw::<Inh>::new(x.clone());
	let read = bm_le::PartialValue::<u8>::new(p.clone()).get(&raw, &mut db).map(|v| *v);
	match &got {
		Err(e) => { let w = format!("{:?}", e); ensure_eq!(read.map_err(|e| format!("{:?}", e)), Err(w), "read at an index that does not resolve") },
		Ok(i) => ensure_eq!(read, raw.get(&mut db, i.clone()).map_err(|e| format!("{:?}", e))?.map(|v| v.as_ref()[0]).ok_or(Error::CorruptedDatabase), "value read through the index"),
	}
	let mut q = bm_le::PartialValue::<u8>::new(p);
	q.set(9);
	let before = db.store.len();
	let r = q.flush(&mut raw, &mut db);
	match got {
		Err(e) => { ensure_eq!(r, Err(e), "flush at an index that does not resolve"); ensure_eq!((raw.root(), db.store.len()), (x, before), "tree after the rejected flush"); },
		Ok(i) if r.is_ok() => { ensure_eq!(raw.get(&mut db, i), Ok(Some(9u8.oracle(true))), "value written through the index"); },
		Ok(_) => ensure_eq!(r, Err(Error::CorruptedDatabase), "flush through a missing node"),
	}
	Ok(())
}

// ---------------- C17 ----------------

fn corrupt<T: Ssz + IntoTree + FromTree>(c: &mut Ctx, name: &'static str, n: usize) {
	for _ in 0..n {
		if c.over() { return }
		let x = T::gen(&mut c.rng);
		let seed = c.rng.next();
		c.case((name, format!("{:?}", x), seed), true, || {
			let mut db = Rec::<Inh>::default();
			let r = x.into_tree(&mut db).map_err(|e| format!("{:?}", e))?;
			let mut rng = Rng(seed);
			// a node that decoding reads is missing: must be reported
			let mut ro = read_only::<Inh>(db.store.clone());
			T::from_tree(&r, &mut ro).map_err(|e| format!("{:?}", e))?;
			let ks: Vec<Value> = db.store.keys().cloned().collect();
			for _ in 0..6 {
				if ks.is_empty() { break }
				let k = ks[rng.us(ks.len())].clone();
				let mut s = db.store.clone(); s.remove(&k);
				// does decoding look at k?
				struct Spy { inner: ReadOnly<Inh>, want: Value, hit: bool }
				impl Backend for Spy { type Construct = Inh; type Error = Injected; }
				impl ReadBackend for Spy { fn get(&mut self, k: &Value) -> Result<Option<(Value, Value)>, Injected> { if *k == self.want { self.hit = true } self.inner.get(k) } }
				let mut spy = Spy { inner: read_only(s), want: k.clone(), hit: false };
				let res = T::from_tree(&r, &mut spy);
				if spy.hit { ensure_eq!(res.map(|_| ()), Err(Error::CorruptedDatabase), "decode with node {:?} missing", k); }
				else { ensure_eq!(res, Ok(T::from_tree(&r, &mut read_only::<Inh>(db.store.clone())).unwrap()), "decode with an unrelated node missing"); }
			}
			// arbitrary stores: never a panic; a successful decode must be justified by the tree
			for _ in 0..6 {
				let mut s = db.store.clone();
				if !ks.is_empty() { for _ in 0..1 + rng.us(3) {
					let k = ks[rng.us(ks.len())].clone();
					let mut pick = |rng: &mut Rng| match rng.below(6) { 0 => zero(), 1 => lenval(rng.below(5)), 2 => { let s = rng.below(63); lenval(1 << s) }, 3 => Value(H256::from_slice(&rng.bytes(32))), _ => ks[rng.us(ks.len())].clone() };
					let (a, b) = s[&k].clone();
					let p = if rng.bool() { (pick(&mut rng), b) } else { (a, pick(&mut rng)) };
					s.insert(k, p);
				} }
				// bound runaway lengths: decoding stops at the first missing node or when the read budget is used up
				let mut ro = read_only::<Inh>(s); ro.fail_at = Some(20000);
				let _ = T::from_tree(&r, &mut ro);
			}
			// wrong root
			let mut ro = read_only::<Inh>(HashMap::new());
			ro.fail_at = Some(20000);
			for root in &[Value(H256::from_slice(&rng.bytes(32))), zero()] { let _ = T::from_tree(root, &mut ro); }
			Ok(())
		});
	}
}

fn must_fail<T: FromTree + Debug + PartialEq>(db: &mut Rec<Inh>, root: &Value, w: &str) -> Result<(), String> {
	db.calls = 0; db.fail_at = Some(100000);
	ensure_eq!(T::from_tree(root, db).map(|_| ()), Err(Error::CorruptedDatabase), "{}", w);
	Ok(())
}

#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
struct Hollow {}
#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
enum Husk { A(u8), B {}, C() }

pub fn c17(c: &mut Ctx) {
	c.rule = "selectors, lengths and unit payloads outside the format (all small, boundary and random 256-bit values) for options, enums and lists with and without limits; encodings of 75 types with nodes removed or replaced; random trees; non-trivial: every case".into();
	let mix = |db: &mut Rec<Inh>, l: &Value, r: &Value| { let h = rh(l, r); db.store.insert(h.clone(), (l.clone(), r.clone())); h };
	// the words mixed in: any usize as a selector, up to 2^63 as a length, nothing above
	for k in 0..c.n(300, 5000) {
		let big = match k { 0 => U256::zero(), 1 => U256::from(u64::max_value()), 2 => U256::from(u64::max_value()) + U256::one(), 3 => U256::from(1u64 << 63), 4 => U256::from((1u64 << 63) - 1), 5 => U256::from((1u64 << 63) + 1), 6 => U256::max_value(), _ => U256::from_little_endian(&c.rng.bytes(32)) >> c.rng.us(256) };
		c.case(("word", format!("{}", big)), true, || {
			let mut db = Rec::<Inh>::default();
			let mut w = [0u8; 32]; big.to_little_endian(&mut w);
			let root = mix(&mut db, &val(3), &chunk(&w));
			let want = |m: u64| if big <= U256::from(m) { Ok((val(3), big.low_u64() as usize)) } else { Err(Error::CorruptedDatabase) };
			ensure_eq!(bm_le::utils::decode_with_length::<Value, _>(&root, &mut db), want(1 << 63), "length");
			ensure_eq!(bm_le::utils::decode_with_type(&root, &mut db, |v, _, t| Ok((v.clone(), t))), want(u64::max_value()), "selector");
			if let Ok((x, n)) = want(u64::max_value()) {
				let mut out = Rec::<Inh>::default();
				ensure_eq!(bm_le::utils::mix_in_length(&x, &mut out, n), Ok(root.clone()), "length mixed in");
				ensure_eq!(bm_le::utils::mix_in_type(&x, &mut out, n), Ok(root.clone()), "selector mixed in");
				ensure_eq!(out.store.get(&root).cloned(), Some((val(3), chunk(&w))), "stored pair");
			}
			Ok(())
		});
	}
	let mut sels: Vec<[u8; 32]> = vec![];
	for i in 0..12u64 { let mut b = [0u8; 32]; b[..8].copy_from_slice(&i.to_le_bytes()); sels.push(b) }
	for k in 0..32 { for x in 0..3u8 { for lo in 0..8u8 { let mut b = [0u8; 32]; b[0] = lo; b[k] = b[k].wrapping_add(1 << (x * 3)); sels.push(b) } } }
	for _ in 0..200 { let mut b = [0u8; 32]; let v = c.rng.bytes(32); b.copy_from_slice(&v); sels.push(b) }
	for s in sels { c.case(("selector", s), true, || {
		let small = if s[1..].iter().all(|x| *x == 0) { Some(s[0]) } else { None };
		let mut db = Rec::<Inh>::default();
		let sv = Value(s.into());
		let payload = 7u8.oracle(true);
		let r0 = mix(&mut db, &zero(), &sv);
		let r1 = mix(&mut db, &payload, &sv);
		match small {
			Some(0) => { ensure_eq!(Option::<u8>::from_tree(&r0, &mut db), Ok(None), "none"); must_fail::<Option<u8>>(&mut db, &r1, "none with payload")?; },
			Some(1) => { ensure_eq!(Option::<u8>::from_tree(&r1, &mut db), Ok(Some(7)), "some"); },
			_ => { must_fail::<Option<u8>>(&mut db, &r0, "option selector")?; must_fail::<Option<u8>>(&mut db, &r1, "option selector")?; must_fail::<Option<()>>(&mut db, &r0, "option selector")?; },
		}
		match small {
			Some(2) => { ensure_eq!(En::from_tree(&r0, &mut db), Ok(En::E), "unit variant"); must_fail::<En>(&mut db, &r1, "unit variant with payload")?; },
			Some(5) => { ensure_eq!(En::from_tree(&r0, &mut db), Ok(En::H), "unit variant"); must_fail::<En>(&mut db, &r1, "unit variant with payload")?; },
			Some(0) => { ensure_eq!(En::from_tree(&r1, &mut db), Ok(En::A(7)), "variant 0"); },
			Some(1) | Some(3) | Some(4) => { must_fail::<En>(&mut db, &r1, "variant with missing nodes")?; },
			_ => { must_fail::<En>(&mut db, &r0, "enum selector")?; must_fail::<En>(&mut db, &r1, "enum selector")?; },
		}
		// lengths
		let n = if s[8..].iter().all(|x| *x == 0) { let mut a = [0u8; 8]; a.copy_from_slice(&s[..8]); Some(u64::from_le_bytes(a)) } else { None };
		let xs = [1u64, 2, 3, 4, 5];
		let leaves: Vec<Value> = xs.iter().map(|x| x.oracle(true)).collect();
		let vr = bm::utils::vector_tree(&leaves, &mut db, Some(8)).map_err(|e| format!("{:?}", e))?;
		let lr = mix(&mut db, &vr, &sv);
		match n { Some(k) if k <= 8 => {
			let mut e = xs.to_vec(); e.resize(8, 0); e.truncate(k as usize);
			ensure_eq!(MaxVec::<u64, U8>::from_tree(&lr, &mut db).map(|x| x.0), Ok(e), "length {}", k);
			if k > 7 { must_fail::<MaxVec<u64, U7>>(&mut db, &lr, "length above the limit")?; }
			if k > 5 { must_fail::<MaxVec<u64, U5>>(&mut db, &lr, "length above the limit")?; }
		}, _ => {
			must_fail::<MaxVec<u64, U8>>(&mut db, &lr, "length above the limit")?;
			must_fail::<Vec<u64>>(&mut db, &lr, "length without nodes")?;
		} }
		let pr = bm::utils::vector_tree(&[chunk(&[0xff; 32]), chunk(&[0xff; 32])], &mut db, Some(2)).map_err(|e| format!("{:?}", e))?;
		let plr = mix(&mut db, &pr, &sv);
		match n { Some(k) if k <= 64 => { ensure_eq!(Compact::<MaxVec<u8, U64>>::from_tree(&plr, &mut db).map(|x| (x.0).0), Ok(vec![0xffu8; k as usize]), "compact length {}", k); if k > 33 { must_fail::<Compact<MaxVec<u8, U33>>>(&mut db, &plr, "compact length above the limit")?; } },
			_ => { must_fail::<Compact<MaxVec<u8, U64>>>(&mut db, &plr, "compact length above the limit")?; must_fail::<Compact<MaxVec<u128, U4>>>(&mut db, &plr, "compact length above the limit")?; } }
		match n { Some(k) if k <= 300 => (), _ => { must_fail::<Compact<MaxVec<bool, U300>>>(&mut db, &plr, "bitlist length above the limit")?; } }
		match n { Some(k) if k <= (1 << 40) => (), _ => {
			db.calls = 0;
			let r = ElementalVariableVec::<u128>::from_compact_list_tree(&plr, &mut db, None).map(|_| ()); ensure_eq!(r, Err(Error::CorruptedDatabase), "unlimited compact list of absurd length");
			let r = ElementalVariableVec::<u8>::from_compact_list_tree(&plr, &mut db, None).map(|_| ()); ensure_eq!(r, Err(Error::CorruptedDatabase), "unlimited compact list of absurd length");
			let r = ElementalVariableVec::<bool>::from_compact_list_tree(&plr, &mut db, None).map(|_| ()); ensure_eq!(r, Err(Error::CorruptedDatabase), "unlimited bitlist of absurd length");
			let r = ElementalVariableVec::<U256>::from_compact_list_tree(&plr, &mut db, None).map(|_| ()); ensure_eq!(r, Err(Error::CorruptedDatabase), "unlimited compact list of absurd length");
		} }
		if s != [0u8; 32] { must_fail::<()>(&mut db, &sv, "unit payload")?; must_fail::<Hollow>(&mut db, &sv, "payload of a struct without fields")?; }
		else { ensure_eq!(Hollow::from_tree(&sv, &mut db), Ok(Hollow {}), "struct without fields"); }
		if small.map_or(false, |x| x == 1) { ensure_eq!(Husk::from_tree(&r0, &mut db), Ok(Husk::B {}), "variant without fields"); must_fail::<Husk>(&mut db, &r1, "variant without fields, with payload")?; }
		if small.map_or(false, |x| x == 2) { ensure_eq!(Husk::from_tree(&r0, &mut db), Ok(Husk::C()), "variant without fields"); must_fail::<Husk>(&mut db, &r1, "variant without fields, with payload")?; }
		Ok(())
	}); }
	let n = c.n(15, 300);
	all_types!(corrupt, c, n);
}
#[allow(dead_code)]
fn _t(x: &dyn Fn()) { x() }
