//! Contracts of `on-slash-vesting`: what a slash does to the vesting schedules of an account.
use crate::ghost::*;
use crate::rt::*;
use crate::{System, VOrigin, V};
use frame_support::traits::{
	tokens::{ExistenceRequirement, WithdrawReasons},
	Currency, LockIdentifier, LockableCurrency, SignedImbalance, TryDrop,
};
use on_slash_vesting::OnSlash;
use pallet_vesting::{Vesting, VestingInfo};
use sp_runtime::{BoundedVec, DispatchError, DispatchResult};

// ------------------------------------------------------------------ ghost currency with locks
use frame_support::pallet_prelude::{OptionQuery, StorageMap, ValueQuery};
use frame_support::{storage_alias, Identity, StorageMap as _};
/// the vesting lock of an account
#[storage_alias]
pub type GLock = StorageMap<Ghost, Identity, Acc, Bal, ValueQuery>;
/// what a slash recorder was told: key (recorder, account)
#[storage_alias]
pub type GTold = StorageMap<Ghost, Identity, (u8, Acc), Bal, ValueQuery>;
pub struct Cur;
impl Currency<Acc> for Cur {
	type Balance = Bal;
	type PositiveImbalance = ();
	type NegativeImbalance = ();
	fn total_balance(who: &Acc) -> Bal { total(*who) }
	fn can_slash(_who: &Acc, _value: Bal) -> bool { false }
	fn total_issuance() -> Bal { GIssuance::get() }
	fn minimum_balance() -> Bal { param(P_ED) }
	fn burn(_amount: Bal) {}
	fn issue(_amount: Bal) {}
	fn free_balance(who: &Acc) -> Bal { free(*who) }
	fn ensure_can_withdraw(_w: &Acc, _a: Bal, _r: WithdrawReasons, _n: Bal) -> DispatchResult { Err(DispatchError::Unavailable) }
	fn transfer(_s: &Acc, _d: &Acc, _v: Bal, _e: ExistenceRequirement) -> DispatchResult { Err(DispatchError::Unavailable) }
	fn slash(_who: &Acc, value: Bal) -> ((), Bal) { ((), value) }
	fn deposit_into_existing(_who: &Acc, _value: Bal) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) }
	fn deposit_creating(_who: &Acc, _value: Bal) {}
	fn withdraw(_w: &Acc, _v: Bal, _r: WithdrawReasons, _l: ExistenceRequirement) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) }
	fn make_free_balance_be(_who: &Acc, _balance: Bal) -> SignedImbalance<Bal, ()> { SignedImbalance::Positive(()) }
}
impl LockableCurrency<Acc> for Cur {
	type Moment = Bn;
	type MaxLocks = frame_support::traits::ConstU32<50>;
	fn set_lock(_id: LockIdentifier, who: &Acc, amount: Bal, _reasons: WithdrawReasons) { GLock::insert(who, amount) }
	fn extend_lock(_id: LockIdentifier, who: &Acc, amount: Bal, _reasons: WithdrawReasons) {
		let l = GLock::get(who);
		GLock::insert(who, if l < amount { amount } else { l })
	}
	fn remove_lock(_id: LockIdentifier, who: &Acc) { GLock::insert(who, 0) }
}
pub struct Allowed;
impl frame_support::traits::Get<WithdrawReasons> for Allowed {
	fn get() -> WithdrawReasons { WithdrawReasons::except(WithdrawReasons::TRANSFER) }
}
impl pallet_vesting::Config for V {
	type RuntimeEvent = crate::VEvent;
	type Currency = Cur;
	type BlockNumberToBalance = sp_runtime::traits::ConvertInto;
	type MinVestedTransfer = MinimumDeposit;
	type WeightInfo = ();
	type UnvestedFundsAllowedWithdrawReasons = Allowed;
	type BlockNumberProvider = System;
	const MAX_VESTING_SCHEDULES: u32 = 28;
}
pub struct Recorder<const K: u8>;
impl<const K: u8> OnSlash<Acc, Bal> for Recorder<K> {
	fn on_slash(who: &Acc, amount: Bal) {
		let t = GTold::get((K, *who));
		GTold::insert((K, *who), t.saturating_add(amount))
	}
}

// ------------------------------------------------------------------ specification
pub type Pv = pallet_vesting::Pallet<V>;
type Info = VestingInfo<Bal, Bn>;
/// (locked, per block, starting block)
use crate::spec::{end_of, locked_at, Raw};
fn schedules(who: Acc) -> Vec<Raw> {
	match Vesting::<V>::get(who) {
		Some(s) => s.iter().map(|i| (i.locked(), i.per_block(), i.starting_block())).collect(),
		None => vec![],
	}
}
/// what is left of a schedule after a slash of `amount` at block `now`
fn after(s: Raw, now: Bn, amount: Bal) -> Option<Raw> {
	let start = if now < s.2 { s.2 } else { now };
	let left = locked_at(s, now).saturating_sub(amount);
	let end = end_of(s);
	if end <= start as u128 {
		return None;
	}
	let rate = left / (end - start as u128);
	if rate == 0 { None } else { Some((left, rate, start)) }
}
const SUPPLY: u128 = 100_000_000_000_000_000_000;
/// amounts of the token's supply, and blocks of the next hundred thousand years
fn sane(s: Raw) -> bool {
	and(and(and(s.0 >= 1, s.0 <= SUPPLY), and(s.1 >= 1, s.1 <= SUPPLY)), and(s.2 <= 1 << 40, end_of(s) <= 1 << 41))
}

// ================================================================ S01: a slash and the vesting schedules
fn info() -> Info { VestingInfo::new(any(), any(), any()) }
fn raw(i: &Info) -> Raw { (i.locked(), i.per_block(), i.starting_block()) }
pub fn vc_s01_slash() {
	let who: u64 = any();
	let other: u64 = any();
	let amount: u128 = any();
	let now = System::block_number();
	assume(and(now <= 1 << 40, who != other));
	cover("bounded: lists of one or two schedules");
	let (i, j) = (info(), info());
	let two: bool = any();
	let list = if two { vec![i, j] } else { vec![i] };
	let (a, b) = (raw(&i), raw(&j));
	assume(and(sane(a), sane(b)));
	Vesting::<V>::insert(who, BoundedVec::truncate_from(list));
	let (o0, ol0) = (Vesting::<V>::get(other), GLock::get(other));
	<Pv as OnSlash<u64, u128>>::on_slash(&who, amount);
	let mut want: Vec<Raw> = vec![];
	let mut lock = 0u128;
	if let Some(x) = after(a, now, amount) {
		want.push(x);
		lock += x.0;
	}
	if two {
		if let Some(x) = after(b, now, amount) {
			want.push(x);
			lock += x.0;
		}
	}
	cover("schedules");
	check("every schedule loses the slashed amount and keeps its end", same(&schedules(who), &want));
	check("no schedules are kept when nothing is left to vest", iff(Vesting::<V>::get(who).is_none(), want.is_empty()));
	check("the vesting lock is what the schedules still lock", GLock::get(who) == lock);
	check("other accounts untouched", and(same(&Vesting::<V>::get(other), &o0), GLock::get(other) == ol0));
	check("nothing else is written", frame("Vesting.Vesting Ghost.GLock"));
}
pub fn vc_s01_no_schedules() {
	let who: u64 = any();
	let amount: u128 = any();
	assume(Vesting::<V>::get(who).is_none());
	<Pv as OnSlash<u64, u128>>::on_slash(&who, amount);
	cover("no schedules");
	check("an account without schedules is not affected", frame(""));
}
/// one schedule: what is locked at any later block falls by the slashed amount at most
pub fn vc_s01_never_faster() {
	let who: u64 = any();
	let amount: u128 = any();
	let now = System::block_number();
	let i = info();
	Vesting::<V>::insert(who, BoundedVec::truncate_from(vec![i]));
	let s = raw(&i);
	assume(and(now <= 1 << 40, sane(s)));
	<Pv as OnSlash<u64, u128>>::on_slash(&who, amount);
	let new = schedules(who);
	let left = locked_at(s, now).saturating_sub(amount);
	let start = if now < s.2 { s.2 } else { now } as u128;
	if new.is_empty() {
		cover("gone");
		check("a schedule goes only with less than one unit per block left", or(left == 0, left < end_of(s).saturating_sub(start)));
		return;
	}
	cover("kept");
	check("one schedule stays", new.len() == 1);
	let x = new[0];
	check("what is locked falls by exactly the slashed amount", and(left > 0, x.0 == left));
	check("vesting starts no earlier", and(x.2 >= s.2, x.2 >= now));
	let rest = end_of(s).saturating_sub(start);
	let even = x.1 == left / rest;
	check("the rate spreads what is left over the blocks left", even);
	assume(even);
	check("not everything is vested before the old end", x.1.saturating_mul(rest) <= x.0);
	check("vesting is no faster", x.1 <= s.1);
}
/// several handlers: each is told, once
pub fn vc_s01_every_handler() {
	let who: u64 = any();
	let other: u64 = any();
	let amount: u128 = any();
	let (a, b, c) = (GTold::get((0, who)), GTold::get((1, who)), GTold::get((1, other)));
	assume(and(and(a <= MAXB, b <= MAXB), and(amount <= MAXB, who != other)));
	<(Recorder<0>, Recorder<1>) as OnSlash<u64, u128>>::on_slash(&who, amount);
	cover("told");
	check("every handler is told of the slash", and(GTold::get((0, who)) == a + amount, GTold::get((1, who)) == b + amount));
	check("of this account only", GTold::get((1, other)) == c);
}
const MAXB: u128 = 1 << 120;
