//! Contract primitives.  In the verifier these are interpreted symbolically; natively (replay) they read
//! the values of a counterexample and evaluate the same contract text on the real, compiled code.
use parity_scale_codec::Decode;
use std::cell::RefCell;

#[derive(Default)]
pub struct Trace {
	pub anys: Vec<Vec<u8>>,
	pub next: usize,
	pub params: Vec<u128>,
	pub assumed_false: Option<String>,
	pub failed: Vec<String>,
	pub passed: usize,
	pub covers: Vec<String>,
}
thread_local! { pub static TRACE: RefCell<Trace> = RefCell::new(Trace::default()); }

pub struct AssumeFailed;

/// An arbitrary value: universally quantified contract variable.
#[inline(never)]
pub fn any<T: Decode>() -> T {
	TRACE.with(|t| {
		let mut t = t.borrow_mut();
		let i = t.next;
		t.next += 1;
		let b = t.anys.get(i).cloned().unwrap_or_default();
		T::decode(&mut &b[..]).unwrap_or_else(|_| std::panic::panic_any(AssumeFailed))
	})
}
/// Precondition / requires clause.
#[inline(never)]
pub fn assume(c: bool) {
	if !c {
		std::panic::panic_any(AssumeFailed)
	}
}
/// Postcondition / ensures clause: one named proof obligation.
#[inline(never)]
pub fn check(label: &'static str, c: bool) {
	TRACE.with(|t| {
		let mut t = t.borrow_mut();
		if c {
			t.passed += 1
		} else {
			t.failed.push(label.into())
		}
	})
}
/// Reachability guard: must be reachable on some path or the contract is vacuous.
#[inline(never)]
pub fn cover(label: &'static str) {
	TRACE.with(|t| t.borrow_mut().covers.push(label.into()))
}
/// Universally quantified index: for all i in 0..n.
#[inline(never)]
pub fn forall<F: Fn(usize) -> bool>(n: usize, f: F) -> bool {
	(0..n).all(|i| f(i))
}
/// Existentially quantified index: for some i in 0..n.
#[inline(never)]
pub fn exists<F: Fn(usize) -> bool>(n: usize, f: F) -> bool {
	(0..n).any(|i| f(i))
}
/// Non-forking logical connectives.
#[inline(never)]
pub fn imp(a: bool, b: bool) -> bool {
	!a || b
}
#[inline(never)]
pub fn and(a: bool, b: bool) -> bool {
	a & b
}
#[inline(never)]
pub fn or(a: bool, b: bool) -> bool {
	a | b
}
#[inline(never)]
pub fn ite_u128(c: bool, a: u128, b: u128) -> u128 {
	if c { a } else { b }
}
#[inline(never)]
pub fn ite_u64(c: bool, a: u64, b: u64) -> u64 {
	if c { a } else { b }
}
/// Mathematical equality of two values of the same type (sequences element-wise).
#[inline(never)]
pub fn same<T: parity_scale_codec::Encode>(a: &T, b: &T) -> bool {
	a.encode() == b.encode()
}
/// A runtime configuration constant: arbitrary but fixed.
#[inline(never)]
pub fn param(i: usize) -> u128 {
	TRACE.with(|t| t.borrow().params.get(i).copied().unwrap_or(0))
}
/// Number of elements in the longest sequence considered by the bounded stand-in (unused natively).
#[inline(never)]
pub fn note(_label: &'static str) {}

#[inline(never)]
pub fn iff(a: bool, b: bool) -> bool {
	a == b
}
/// Fork the proof on a condition.
#[inline(never)]
pub fn split(a: bool) -> bool {
	a
}
#[inline(never)]
pub fn ite_u32(c: bool, a: u32, b: u32) -> u32 {
	if c { a } else { b }
}
/// Does the computation panic?
#[inline(never)]
pub fn panics<F: FnOnce()>(f: F) -> bool {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
/// Mathematical natural number (no overflow) for contract text.
#[derive(Clone, Copy)]
pub struct Math(sp_core::U512);
#[inline(never)]
pub fn m(x: u128) -> Math {
	Math(sp_core::U512::from(x))
}
impl Math {
	#[inline(never)]
	pub fn add(self, o: Math) -> Math { Math(self.0 + o.0) }
	#[inline(never)]
	pub fn mul(self, o: Math) -> Math { Math(self.0 * o.0) }
	#[inline(never)]
	pub fn eq(self, o: Math) -> bool { self.0 == o.0 }
	#[inline(never)]
	pub fn le(self, o: Math) -> bool { self.0 <= o.0 }
	#[inline(never)]
	pub fn lt(self, o: Math) -> bool { self.0 < o.0 }
}
/// The fields of a value as a tuple (same SCALE layout): contract text may look at private fields.
#[inline(never)]
pub fn view<T: parity_scale_codec::Encode, U: Decode>(x: &T) -> U {
	U::decode(&mut &x.encode()[..]).unwrap()
}
/// Number of indices in 0..n satisfying the predicate.
#[inline(never)]
pub fn count<F: Fn(usize) -> bool>(n: usize, f: F) -> u128 {
	(0..n).filter(|i| f(*i)).count() as u128
}
/// Saturating sum of f(i) for i in 0..k, where f is defined on 0..n.
#[inline(never)]
pub fn sum<F: Fn(usize) -> u128>(n: usize, k: usize, f: F) -> u128 {
	let _ = n;
	(0..k).fold(0u128, |a, i| a.saturating_add(f(i)))
}
/// Integer square root, mathematically.
#[inline(never)]
pub fn isqrt(x: u128) -> u128 {
	let (mut lo, mut hi) = (0u128, 1u128 << 64);
	while hi - lo > 1 {
		let m = lo + (hi - lo) / 2;
		if m.checked_mul(m).map_or(false, |s| s <= x) { lo = m } else { hi = m }
	}
	lo
}
/// Loop invariant for every loop over a sequence of `T`: `f(k)` holds when `k` elements are done.
#[inline(never)]
pub fn invariant<T, F: Fn(usize) -> bool>(f: F) {
	let _ = f;
}

/// the same for a loop or fold that also accumulates an `A`
#[inline(never)]
pub fn invariant_acc<T, A, F: Fn(usize, A) -> bool>(f: F) {
	let _ = f;
}
/// Loop invariant over the parameters of the function containing the loop
#[inline(never)]
pub fn invariant_args1<A, F: Fn(A) -> bool>(f: F) {
	let _ = f;
}
#[inline(never)]
pub fn invariant_args4<A, F: Fn(A, A, A, A) -> bool>(f: F) {
	let _ = f;
}
#[inline(never)]
pub fn ite(c: bool, a: bool, b: bool) -> bool {
	if c { a } else { b }
}

thread_local! {
	/// (raw key -> value) at the start of the replay
	pub static START: RefCell<std::collections::BTreeMap<Vec<u8>, Vec<u8>>> = Default::default();
	/// (Pallet.Item, 32-byte prefix)
	pub static ITEMS: RefCell<Vec<(String, Vec<u8>)>> = Default::default();
}
pub fn snapshot() -> std::collections::BTreeMap<Vec<u8>, Vec<u8>> {
	let mut m = std::collections::BTreeMap::new();
	let mut k: Vec<u8> = vec![];
	if let Some(v) = sp_io::storage::get(&k) {
		m.insert(k.clone(), v.to_vec());
	}
	while let Some(n) = sp_io::storage::next_key(&k) {
		m.insert(n.clone(), sp_io::storage::get(&n).unwrap_or_default().to_vec());
		k = n;
	}
	m
}
fn diff() -> Vec<Vec<u8>> {
	let now = snapshot();
	START.with(|s| {
		let s = s.borrow();
		let mut d: Vec<Vec<u8>> = now.iter().filter(|(k, v)| s.get(*k) != Some(*v)).map(|(k, _)| k.clone()).collect();
		d.extend(s.keys().filter(|k| !now.contains_key(*k)).cloned());
		d
	})
}
/// Frame condition on one storage map: at most the listed keys changed.
#[inline(never)]
pub fn changed_only_at<G: frame_support::storage::StorageMap<K, Val> + frame_support::storage::StoragePrefixedMap<Val>, K: parity_scale_codec::FullCodec, Val: parity_scale_codec::FullCodec>(keys: &[K]) -> bool
where K: Clone {
	let p = G::final_prefix();
	let allowed: Vec<Vec<u8>> = keys.iter().map(|k| G::hashed_key_for(k.clone())).collect();
	diff().iter().all(|k| !k.starts_with(&p) || allowed.contains(k))
}
/// Frame condition: no storage item outside the listed ones (`Pallet.Item`) was written.
#[inline(never)]
pub fn frame(items: &str) -> bool {
	use sp_io::hashing::twox_128;
	let ok: Vec<Vec<u8>> = items
		.split_whitespace()
		.map(|n| {
			let (p, i) = n.split_once('.').unwrap();
			[twox_128(p.as_bytes()), twox_128(i.as_bytes())].concat()
		})
		.collect();
	let mut ok = ok;
	for i in ["Events", "EventCount", "EventTopics", "ExecutionPhase"] {
		ok.push([twox_128(b"System"), twox_128(i.as_bytes())].concat());
	}
	diff().iter().all(|k| ok.iter().any(|p| k.starts_with(p)))
}

/// The number in the name of a scheduled task: names are the encoding of (8-byte module id, number).
#[inline(never)]
pub fn task_index(id: [u8; 32]) -> u32 {
	u32::from_le_bytes([id[8], id[9], id[10], id[11]])
}
/// Calls of the named function are replaced by its contract: it is a function of its arguments.
#[inline(never)]
pub fn by_contract(_function: &'static str) {}
/// The named function is pure: the cases of its result are explored once.
#[inline(never)]
pub fn by_cases(_function: &'static str) {}

/// `a * b / c` in exact arithmetic, rounded down, at most `u128::MAX`
#[inline(never)]
pub fn muldiv(a: u128, b: u128, c: u128) -> u128 {
	let q = sp_core::U512::from(a) * sp_core::U512::from(b) / sp_core::U512::from(c);
	if q > sp_core::U512::from(u128::MAX) { u128::MAX } else { q.low_u128() }
}

/// An arbitrary number above zero.
#[inline(never)]
pub fn positive() -> u128 {
	let x: u128 = any();
	assume(x > 0);
	x
}

/// The number of an account as bytes: an injective function.
#[inline(never)]
pub fn account_bytes(a: u128) -> [u8; 32] {
	let mut b = [0; 32];
	b[..16].copy_from_slice(&a.to_le_bytes());
	b
}
