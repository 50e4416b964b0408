//! Shared machinery of the replay / bounded stand-in harness: case runner,
//! random source, reference merkleization, instrumented backends.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, hash_map::DefaultHasher};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

use bm::{Backend, Construct, ReadBackend, WriteBackend, InheritedDigestConstruct, UnitDigestConstruct};
use bm_le::Value;
use sha2::{Digest, Sha256};

pub type Inh = InheritedDigestConstruct<Sha256, Value>;
pub type Unit = UnitDigestConstruct<Sha256, Value>;

pub struct Rng(pub u64);
impl Rng {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
	pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
	pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
	pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn silence_panics() {
	std::panic::set_hook(Box::new(|i| {
		let s = format!("{}", i);
		PANIC.with(|p| *p.borrow_mut() = s);
	}));
}

pub struct Ctx {
	pub id: String,
	pub seed: u64,
	pub thorough: bool,
	pub rng: Rng,
	pub evals: u64,
	distinct: HashSet<u64>,
	pub samples: Vec<String>,
	pub rule: String,
	pub fail: Option<(String, String)>,
	pub known: Vec<(String, bool, String)>,
	pub start: Instant,
	pub budget: f64,
	/// Where to note the case being run (set when looking for one that hangs or crashes).
	pub trace: Option<String>,
}

/// When the running case started (ms since the start, 0: none running).
pub static CASE_START: AtomicU64 = AtomicU64::new(0);

impl Ctx {
	pub fn new(id: &str, seed: u64, thorough: bool, budget: f64) -> Self {
		let mut h = DefaultHasher::new();
		id.hash(&mut h);
		Self {
			id: id.into(), seed, thorough, rng: Rng(seed.wrapping_mul(0x1000193) ^ h.finish()), evals: 0,
			distinct: HashSet::new(), samples: vec![], rule: String::new(), fail: None, known: vec![],
			start: Instant::now(), budget, trace: std::env::var("BM_TRACE").ok(),
		}
	}
	pub fn over(&self) -> bool { self.fail.is_some() || self.start.elapsed().as_secs_f64() > self.budget }
	pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
	/// Run one case; `key` identifies it, `nontrivial` says whether it counts.
	pub fn case<K: Hash + Debug, F: FnOnce() -> Result<(), String>>(&mut self, key: K, nontrivial: bool, f: F) -> bool {
		if self.fail.is_some() { return false }
		self.evals += 1;
		if let Some(p) = &self.trace { let _ = std::fs::write(p, format!("{:?}", key)); }
		CASE_START.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
		if nontrivial {
			let mut h = DefaultHasher::new();
			key.hash(&mut h);
			if self.distinct.insert(h.finish()) {
				let n = self.distinct.len();
				if n == 1 || n == 10 || n == 100 || n == 1000 || n == 10000 {
					let mut s = format!("{:?}", key);
					if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k); s.push_str("...") }
					self.samples.push(s);
				}
			}
		}
		let r = match catch_unwind(AssertUnwindSafe(f)) {
			Ok(r) => r,
			Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
		};
		CASE_START.store(0, Ordering::Relaxed);
		if let Err(m) = r {
			self.fail = Some((format!("{:?}", key), m));
			return false
		}
		true
	}
	/// A recorded finding: `f` returns Ok(()) when the property holds there now.
	pub fn finding<F: FnOnce() -> Result<(), String>>(&mut self, key: &str, f: F) {
		let r = match catch_unwind(AssertUnwindSafe(f)) {
			Ok(r) => r,
			Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
		};
		self.known.push((key.into(), r.is_err(), r.err().unwrap_or_default()));
	}
	pub fn json(&self) -> String {
		let mut s = String::from("{");
		s += &format!("\"property\":{},\"seed\":{},\"tier\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
			esc(&self.id), self.seed, esc(if self.thorough { "thorough" } else { "quick" }), self.evals, self.distinct.len(), esc(&self.rule));
		s += &format!("\"samples\":[{}],", self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
		s += &format!("\"known\":[{}],", self.known.iter().map(|(k, r, m)| format!("{{\"key\":{},\"reproduced\":{},\"message\":{}}}", esc(k), r, esc(m))).collect::<Vec<_>>().join(","));
		s += &match &self.fail {
			None => "\"violation\":null".to_string(),
			Some((c, m)) => format!("\"violation\":{{\"case\":{},\"message\":{}}}", esc(c), esc(m)),
		};
		s += &format!(",\"wall_s\":{:.3}}}", self.start.elapsed().as_secs_f64());
		s
	}
}

pub fn esc(s: &str) -> String {
	let mut r = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => r += "\\\"",
			'\\' => r += "\\\\",
			'\n' => r += "\\n",
			'\t' => r += "\\t",
			c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
			c => r.push(c),
		}
	}
	r.push('"');
	r
}

#[macro_export]
macro_rules! ensure {
	($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)) } }
}
#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($m:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b {
		return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)) } }}
}

// ---------- reference hashing / merkleization (independent of /repo) ----------

pub fn rh(l: &Value, r: &Value) -> Value {
	let mut d = Sha256::new();
	d.input(&(l.0).0[..]);
	d.input(&(r.0).0[..]);
	let o = d.result();
	let mut x = [0u8; 32];
	x.copy_from_slice(&o[..]);
	Value(x.into())
}

pub fn zero() -> Value { Value([0u8; 32].into()) }
pub fn val(n: u64) -> Value {
	let mut x = [0u8; 32];
	x[..8].copy_from_slice(&n.to_le_bytes());
	x[31] = 0xAA;
	Value(x.into())
}
pub fn lenval(n: u64) -> Value {
	let mut x = [0u8; 32];
	x[..8].copy_from_slice(&n.to_le_bytes());
	Value(x.into())
}
pub fn chunk(b: &[u8]) -> Value {
	let mut x = [0u8; 32];
	x[..b.len()].copy_from_slice(b);
	Value(x.into())
}
pub fn empties(inh: bool, depth: usize) -> Vec<Value> {
	let mut v = vec![zero()];
	for i in 0..depth { let n = if inh { rh(&v[i], &v[i]) } else { zero() }; v.push(n) }
	v
}
/// Merkle root of `leaves` in a tree of `depth`, padded with empty subtrees.
pub fn merkle_at(leaves: &[Value], depth: usize, e: &[Value]) -> Value {
	if leaves.is_empty() { return e[depth].clone() }
	if depth == 0 { return leaves[0].clone() }
	let half: u64 = 1u64 << (depth - 1);
	let cut = (leaves.len() as u64).min(half) as usize;
	rh(&merkle_at(&leaves[..cut], depth - 1, e), &merkle_at(&leaves[cut..], depth - 1, e))
}
pub fn ceil_log2(n: u64) -> usize {
	let mut d = 0;
	while d < 63 && (1u64 << d) < n { d += 1 }
	d
}
pub fn merkle(leaves: &[Value], cap: u64, inh: bool) -> Value {
	let d = ceil_log2(cap);
	merkle_at(leaves, d, &empties(inh, d))
}
/// Bits of the path of a generalized index, root first; true = right.
pub fn bits(i: u64) -> Vec<bool> {
	let top = 63 - i.leading_zeros();
	(0..top).rev().map(|k| (i >> k) & 1 == 1).collect()
}

// ---------- constructs usable generically ----------

pub trait Kind: Construct<Value = Value> + 'static { const INH: bool; const NAME: &'static str; }
impl Kind for Inh { const INH: bool = true; const NAME: &'static str = "inherited"; }
impl Kind for Unit { const INH: bool = false; const NAME: &'static str = "unit"; }

// ---------- recording, fault-injecting, non-collecting backend ----------

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Call { Get(Value), Root(Value), Unroot(Value), Insert(Value, Value, Value) }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Injected(pub u64);

pub struct Rec<C: Construct<Value = Value>> {
	pub store: HashMap<Value, (Value, Value)>,
	pub log: Vec<Call>,
	pub calls: u64,
	pub fail_at: Option<u64>,
	pub _m: std::marker::PhantomData<C>,
}
impl<C: Construct<Value = Value>> Default for Rec<C> {
	fn default() -> Self { Rec { store: HashMap::new(), log: vec![], calls: 0, fail_at: None, _m: Default::default() } }
}
impl<C: Construct<Value = Value>> Rec<C> {
	fn tick(&mut self) -> Result<(), Injected> {
		let n = self.calls;
		self.calls += 1;
		if self.fail_at == Some(n) { Err(Injected(n)) } else { Ok(()) }
	}
}
impl<C: Construct<Value = Value>> Backend for Rec<C> { type Construct = C; type Error = Injected; }
impl<C: Construct<Value = Value>> ReadBackend for Rec<C> {
	fn get(&mut self, key: &Value) -> Result<Option<(Value, Value)>, Injected> {
		self.log.push(Call::Get(key.clone()));
		self.tick()?;
		Ok(self.store.get(key).cloned())
	}
}
impl<C: Construct<Value = Value>> WriteBackend for Rec<C> {
	fn rootify(&mut self, key: &Value) -> Result<(), Injected> {
		self.log.push(Call::Root(key.clone()));
		self.tick()
	}
	fn unrootify(&mut self, key: &Value) -> Result<(), Injected> {
		self.log.push(Call::Unroot(key.clone()));
		self.tick()
	}
	fn insert(&mut self, key: Value, value: (Value, Value)) -> Result<(), Injected> {
		self.log.push(Call::Insert(key.clone(), value.0.clone(), value.1.clone()));
		self.tick()?;
		self.store.insert(key, value);
		Ok(())
	}
}

/// Read-only view over a map of nodes.
pub struct ReadOnly<C: Construct<Value = Value>> {
	pub store: HashMap<Value, (Value, Value)>,
	pub gets: u64,
	pub fail_at: Option<u64>,
	pub _m: std::marker::PhantomData<C>,
}
impl<C: Construct<Value = Value>> Backend for ReadOnly<C> { type Construct = C; type Error = Injected; }
impl<C: Construct<Value = Value>> ReadBackend for ReadOnly<C> {
	fn get(&mut self, key: &Value) -> Result<Option<(Value, Value)>, Injected> {
		let n = self.gets;
		self.gets += 1;
		if self.fail_at == Some(n) { return Err(Injected(n)) }
		Ok(self.store.get(key).cloned())
	}
}
pub fn read_only<C: Construct<Value = Value>>(store: HashMap<Value, (Value, Value)>) -> ReadOnly<C> {
	ReadOnly { store, gets: 0, fail_at: None, _m: Default::default() }
}

/// Path walk over a map.
pub fn walk(store: &HashMap<Value, (Value, Value)>, root: &Value, path: &[bool]) -> Option<Value> {
	let mut c = root.clone();
	for b in path {
		let p = store.get(&c)?;
		c = if *b { p.1.clone() } else { p.0.clone() };
	}
	Some(c)
}
