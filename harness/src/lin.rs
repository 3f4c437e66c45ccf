//! Contracts of `linear-release`: release schedules over balances held for a reason.
use crate::ghost::*;
use crate::rt::*;
use crate::spec::{end_of, locked_at, Raw};
use crate::{System, VOrigin, V};
use pallet_linear_release::{Pallet, Vesting, VestingInfo};
use polimec_common::ReleaseSchedule;
use sp_runtime::{BoundedVec, DispatchResult};

pub struct Withdraw;
impl frame_support::traits::Get<frame_support::traits::WithdrawReasons> for Withdraw {
	fn get() -> frame_support::traits::WithdrawReasons { frame_support::traits::WithdrawReasons::empty() }
}
/// the value of the runtimes
pub const MAX: u32 = 100;
impl pallet_linear_release::Config for V {
	type RuntimeEvent = crate::VEvent;
	type Balance = Bal;
	type RuntimeHoldReason = Reason;
	type Currency = Fung;
	type BlockNumberToBalance = sp_runtime::traits::ConvertInto;
	type UnvestedFundsAllowedWithdrawReasons = Withdraw;
	type MinVestedTransfer = MinimumDeposit;
	const MAX_VESTING_SCHEDULES: u32 = MAX;
	type WeightInfo = ();
}
pub type Lr = Pallet<V>;
type Info = VestingInfo<Bal, Bn>;

// ------------------------------------------------------------------ specification
fn info() -> Info { VestingInfo::new(any(), any(), any()) }
/// stored schedules lock something and release something every block (L02, L03 keep it so)
fn stored() -> Info { VestingInfo::new(positive(), positive(), any()) }
/// (locked, per block (at least one unit), starting block)
fn raw(i: &Info) -> Raw { (i.locked, std::cmp::max(i.per_block, 1), i.starting_block) }
fn exact(i: &Info) -> Raw { (i.locked, i.per_block, i.starting_block) }
fn list(who: Acc, r: Reason) -> Vec<Raw> {
	match Vesting::<V>::get(who, r) {
		Some(s) => s.iter().map(exact).collect(),
		None => vec![],
	}
}
/// what a schedule locks at a block, and the block it ends at: the code's own functions, which `vc_l01_schedule`
/// proves equal to the specification; other contracts use them as functions of their arguments
fn modular() {
	by_contract("pallet_linear_release::VestingInfo::<Balance, BlockNumber>::locked_at");
	by_contract("pallet_linear_release::VestingInfo::<Balance, BlockNumber>::ending_block_as_balance");
}
fn lock(i: &Info, now: Bn) -> u128 { i.locked_at::<ConvertInto>(now) }
fn end(i: &Info) -> u128 { i.ending_block_as_balance::<ConvertInto>() }
use sp_runtime::traits::ConvertInto;
/// what is left after block `now` of the schedules that are not dropped: the ones that still lock something, and how much
pub struct Left {
	pub kept: Vec<Raw>,
	pub total: u128,
}
fn left_but(all: &[Info], now: Bn, drop: impl Fn(usize) -> bool + Copy) -> Left {
	Left {
		kept: all.iter().enumerate().filter(|(k, i)| and(!drop(*k), lock(i, now) != 0)).map(|(_, i)| exact(i)).collect(),
		total: sum(all.len(), all.len(), |k| ite_u128(drop(k), 0, lock(&all[k], now))),
	}
}
fn left(all: &[Info], now: Bn) -> Left { left_but(all, now, |_| false) }
/// invariant of going through the schedules once, adding up what they lock
fn adding_up(all: &[Info], now: Bn, drop: impl Fn(usize) -> bool + Copy) {
	let (all, n) = (all.to_vec(), all.len());
	let x = move |k: usize| ite_u128(drop(k), 0, lock(&all[k], now));
	invariant_acc::<Info, u128, _>(move |k, a| and(a == sum(n, k, &x), iff(a == 0, forall(k, |i| x(i) == 0))));
}
/// other accounts and reasons, to state what is left alone
#[derive(Clone)]
struct Rest {
	who: Acc,
	r: Reason,
	list: Vec<Raw>,
	held: Bal,
	free: Bal,
}
fn rest() -> Rest {
	let (who, r) = (any(), Reason(any()));
	Rest { who, r, list: list(who, r), held: held(r.0, who), free: free(who) }
}
impl Rest {
	fn same(&self, who: Acc, r: Reason) -> bool {
		let hit = and(self.who == who, self.r.0 == r.0);
		let list = or(hit, same(&list(self.who, self.r), &self.list));
		and(and(list, or(hit, held(self.r.0, self.who) == self.held)), or(self.who == who, free(self.who) == self.free))
	}
	fn untouched(&self, who: Acc, r: Reason) {
		let hit = and(self.who == who, self.r.0 == r.0);
		check("other schedules untouched", or(hit, same(&list(self.who, self.r), &self.list)));
		check("other holds untouched", or(hit, held(self.r.0, self.who) == self.held));
		check("other balances untouched", or(self.who == who, free(self.who) == self.free));
	}
}
const WRITES: &str = "LinearRelease.Vesting Ghost.GHeld Ghost.GFree";
/// the account holds for this reason what its schedules still lock, and the rest of what was held is free
fn released(who: Acc, r: Reason, l: &Left, h0: Bal, f0: Bal) {
	let want = if l.total < h0 { l.total } else { h0 };
	check("exactly what has vested is released", held(r.0, who) == want);
	check("what is released is free to use", m(free(who)).add(m(want)).eq(m(f0).add(m(h0))));
	check("the schedules that still lock something are kept as they are", same(&list(who, r), &l.kept));
	check("no schedules are stored when nothing is left", iff(Vesting::<V>::get(who, r).is_none(), l.kept.is_empty()));
}
/// an account with schedules: any number up to the maximum
fn vesting(who: Acc, r: Reason) -> Vec<Info> {
	modular();
	let Some(l) = Vesting::<V>::get(who, r) else {
		assume(false);
		return vec![];
	};
	let all = l.into_inner();
	assume(and(all.len() > 0, all.len() <= MAX as usize));
	assume(forall(all.len(), |k| running(&all[k])));
	all
}
/// stored schedules lock something and release something every block (L02, L03 keep it so)
fn running(i: &Info) -> bool { and(i.locked > 0, i.per_block > 0) }
/// the account that signed, if any
fn signer(o: &VOrigin, otherwise: Acc) -> Acc { if let VOrigin::Signed(who) = o { *who } else { otherwise } }
fn small(who: Acc, r: Reason) { assume(and(free(who) <= MAXB, held(r.0, who) <= MAXB)); }
const MAXB: u128 = 1 << 120;

// ================================================================ L01: releasing what has vested
/// a schedule releases linearly: the specification of what it locks and when it ends
pub fn vc_l01_schedule() {
	let (i, n) = (stored(), any::<u64>());
	let l = lock(&i, n);
	let e = end(&i);
	cover("schedule");
	check("what is locked falls by the rate every block from the start", l == locked_at(raw(&i), n));
	check("a schedule locks no more than its amount", l <= i.locked);
	check("what is not locked can be released", i.releaseble_at::<ConvertInto>(n) == i.locked.saturating_sub(l));
	check("a schedule ends with the first block that leaves nothing", e == end_of(raw(&i)));
	check("a schedule has ended when it locks nothing", iff(e <= n as u128, l == 0));
	check("everything is locked until the start", imp(n <= i.starting_block, l == i.locked));
	let k: u64 = any();
	assume(k <= n);
	check("what is locked never grows", l <= lock(&i, k));
}
pub fn vc_l01_vest() {
	let (r, o, target) = (Reason(any()), any::<VOrigin>(), any::<Acc>());
	let other: bool = any();
	let who = if other { target } else { signer(&o, target) };
	small(who, r);
	let all = vesting(who, r);
	let x = rest();
	let (h0, f0) = (held(r.0, who), free(who));
	adding_up(&all, System::block_number(), |_| false);
	let res = if other { Lr::vest_other(o.clone(), who, r) } else { Lr::vest(o.clone(), r) };
	if res.is_err() {
		return;
	}
	cover("vested");
	check("signed origin required", matches!(o, VOrigin::Signed(_)));
	released(who, r, &left(&all, System::block_number()), h0, f0);
	x.untouched(who, r);
	check("nothing else is written", frame(WRITES));
}
pub fn vc_l01_amount() {
	let (who, r) = (any::<Acc>(), Reason(any()));
	small(who, r);
	let all = vesting(who, r);
	let (h0, f0) = (held(r.0, who), free(who));
	adding_up(&all, System::block_number(), |_| false);
	let Ok(amount) = <Lr as ReleaseSchedule<Acc, Reason>>::vest(who, r) else {
		check("releasing what has vested does not fail", false);
		return;
	};
	cover("vested");
	released(who, r, &left(&all, System::block_number()), h0, f0);
	check("the amount reported is the amount released", amount == h0 - held(r.0, who));
}
pub fn vc_l01_no_schedules() {
	let (who, r, o) = (any::<Acc>(), Reason(any()), any::<VOrigin>());
	assume(Vesting::<V>::get(who, r).is_none());
	cover("no schedules");
	check("an account without schedules cannot vest", Lr::vest_other(o, who, r).is_err());
	check("nothing is written", frame(""));
}

// ================================================================ L02: new schedules
/// an account with or without schedules
fn some_schedules(who: Acc, r: Reason) -> Vec<Info> {
	if split(Vesting::<V>::get(who, r).is_none()) {
		modular();
		return vec![];
	}
	vesting(who, r)
}
pub fn vc_l02_transfer() {
	let (who, source, r, o) = (any::<Acc>(), any::<Acc>(), Reason(any()), any::<VOrigin>());
	let force: bool = any();
	let from = if force { source } else { signer(&o, source) };
	assume(who != from);
	small(who, r);
	small(from, r);
	let new = info();
	let mut all = some_schedules(who, r);
	let x = rest();
	let (h0, f0, s0, sh0) = (held(r.0, who), free(who), free(from), held(r.0, from));
	let full = all.len() >= MAX as usize;
	all.push(new);
	adding_up(&all, System::block_number(), |_| false);
	let res = if force { Lr::force_vested_transfer(o.clone(), from, who, new, r) } else { Lr::vested_transfer(o.clone(), who, new, r) };
	if res.is_err() {
		return;
	}
	cover("transferred");
	if force {
		check("a forced transfer needs root", o == VOrigin::Root);
	} else {
		check("signed origin required", matches!(o, VOrigin::Signed(_)));
	}
	check("no transfer below the minimum", new.locked >= param(5));
	check("a schedule releases something every block", and(new.locked > 0, new.per_block > 0));
	check("no more schedules than allowed", !full);
	check("the source pays exactly the amount", and(m(free(from)).add(m(new.locked)).eq(m(s0)), held(r.0, from) == sh0));
	released(who, r, &left(&all, System::block_number()), h0 + new.locked, f0);
	check("other schedules untouched", or(and(x.who == who, x.r.0 == r.0), same(&list(x.who, x.r), &x.list)));
	check("other holds untouched", or(and(x.who == who, x.r.0 == r.0), held(x.r.0, x.who) == x.held));
	check("other balances untouched", or(or(x.who == who, x.who == from), free(x.who) == x.free));
	check("nothing else is written", frame(WRITES));
}
pub fn vc_l02_add() {
	let (who, r) = (any::<Acc>(), Reason(any()));
	let (locked, per, start) = (any::<u128>(), any::<u128>(), any::<u64>());
	let new: Info = VestingInfo::new(locked, per, start);
	let mut all = some_schedules(who, r);
	let full = all.len() >= MAX as usize;
	let before = list(who, r);
	all.push(new);
	adding_up(&all, System::block_number(), |_| false);
	let x = rest();
	let can = <Lr as ReleaseSchedule<Acc, Reason>>::can_add_release_schedule(&who, locked, per, start, r).is_ok();
	check("a schedule can be added when it locks and releases something and there is room", can == and(and(locked > 0, per > 0), !full));
	check("asking writes nothing", frame("LinearRelease.Vesting"));
	let res = <Lr as ReleaseSchedule<Acc, Reason>>::add_release_schedule(&who, locked, per, start, r);
	if locked == 0 {
		cover("nothing to lock");
		check("locking nothing is no error", res.is_ok());
		check("locking nothing changes nothing", same(&list(who, r), &before));
		return;
	}
	check("adding works exactly when it can", res.is_ok() == can);
	if res.is_err() {
		return;
	}
	cover("added");
	let l = left(&all, System::block_number());
	check("the new schedule joins the ones that still lock something", same(&list(who, r), &l.kept));
	x.untouched(who, r);
	check("no balance changes", frame("LinearRelease.Vesting"));
}
pub fn vc_l02_set() {
	let (who, r) = (any::<Acc>(), Reason(any()));
	let (locked, per, start) = (any::<u128>(), any::<u128>(), any::<u64>());
	small(who, r);
	let mut all = some_schedules(who, r);
	let x = rest();
	let (h0, f0) = (held(r.0, who), free(who));
	assume(locked > 0);
	let full = all.len() >= MAX as usize;
	all.push(VestingInfo::new(locked, per, start));
	adding_up(&all, System::block_number(), |_| false);
	if <Lr as ReleaseSchedule<Acc, Reason>>::set_release_schedule(&who, locked, per, start, r).is_err() {
		return;
	}
	cover("set");
	check("a schedule releases something every block", per > 0);
	check("no more schedules than allowed", !full);
	released(who, r, &left(&all, System::block_number()), h0, f0);
	x.untouched(who, r);
	check("nothing else is written", frame(WRITES));
}

// ================================================================ L03: merging schedules
pub fn vc_l03_merge() {
	let (r, o, anyone) = (Reason(any()), any::<VOrigin>(), any::<Acc>());
	let who = signer(&o, anyone);
	let (p, q) = (any::<u32>(), any::<u32>());
	let now = System::block_number();
	small(who, r);
	let all = vesting(who, r);
	let n = all.len();
	let x = rest();
	let (h0, f0) = (held(r.0, who), free(who));
	let before = list(who, r);
	let fits = and((p as usize) < n, (q as usize) < n);
	let (pi, qi) = (p as usize, q as usize);
	let drop = move |k: usize| or(k == pi, k == qi);
	adding_up(&all, now, drop);
	let merged = if split(fits) { merge(&all[pi], &all[qi], now) } else { None };
	if Lr::merge_schedules(o.clone(), p, q, r).is_err() {
		return;
	}
	check("signed origin required", matches!(o, VOrigin::Signed(_)));
	if p == q {
		cover("same schedule");
		check("merging a schedule with itself changes nothing", and(same(&list(who, r), &before), held(r.0, who) == h0));
		return;
	}
	check("both schedules exist", fits);
	let mut l = left_but(&all, now, drop);
	cover("merged");
	if let Some(x) = merged {
		l.kept.push(exact(&x));
		l.total = l.total.saturating_add(lock(&all[pi], now).saturating_add(lock(&all[qi], now)));
	}
	released(who, r, &l, h0, f0);
	x.untouched(who, r);
	check("nothing else is written", frame(WRITES));
}
/// one schedule in place of two: what they lock, from the later start to the later end
fn merge(a: &Info, b: &Info, now: Bn) -> Option<Info> {
	let t = now as u128;
	// proved by vc_l01_schedule
	assume(and(iff(end(a) <= t, lock(a, now) == 0), iff(end(b) <= t, lock(b, now) == 0)));
	if end(a) <= t {
		return if end(b) <= t { None } else { Some(*b) };
	}
	if end(b) <= t {
		return Some(*a);
	}
	let locked = lock(a, now).saturating_add(lock(b, now));
	let start = max64(now, max64(a.starting_block, b.starting_block));
	let blocks = max(max(end(a), end(b)).saturating_sub(start as u128), 1);
	let x = VestingInfo::new(locked, max(locked / blocks, 1), start);
	// proved by vc_l01_schedule
	assume(lock(&x, now) == locked);
	cover("both are running");
	Some(x)
}
use crate::spec::{max, max64};

// ================================================================ L04: asking about and dropping schedules
pub fn vc_l04_amounts() {
	let (who, r) = (any::<Acc>(), Reason(any()));
	let all = vesting(who, r);
	let now = System::block_number();
	let gone = |k: usize| all[k].locked.saturating_sub(lock(&all[k], now));
	// proved by vc_l01_schedule
	assume(forall(all.len(), |k| and(all[k].releaseble_at::<ConvertInto>(now) == gone(k), lock(&all[k], now) <= all[k].locked)));
	cover("schedules");
	let a2 = all.clone();
	invariant_acc::<Info, u128, _>(move |k, a| a == sum(a2.len(), k, |i| a2[i].locked.saturating_sub(lock(&a2[i], now))));
	let v = <Lr as ReleaseSchedule<Acc, Reason>>::vesting_balance(&who, r);
	check("the amount that has vested is what is no longer locked", v == Some(sum(all.len(), all.len(), gone)));
	check("asking writes nothing", frame("LinearRelease.Vesting"));
}
pub fn vc_l04_scheduled() {
	let (who, r) = (any::<Acc>(), Reason(any()));
	let all = vesting(who, r);
	let a2 = all.clone();
	invariant_acc::<Info, u128, _>(move |k, a| a == sum(a2.len(), k, |i| a2[i].locked));
	cover("schedules");
	check("the scheduled amount is the sum of the schedules",
		<Lr as ReleaseSchedule<Acc, Reason>>::total_scheduled_amount(&who, r) == Some(sum(all.len(), all.len(), |k| all[k].locked)));
	check("asking writes nothing", frame("LinearRelease.Vesting"));
}
pub fn vc_l04_amounts_none() {
	let (who, r) = (any::<Acc>(), Reason(any()));
	assume(Vesting::<V>::get(who, r).is_none());
	cover("no schedules");
	let v = <Lr as ReleaseSchedule<Acc, Reason>>::vesting_balance(&who, r);
	check("no amount without schedules", and(v.is_none(), <Lr as ReleaseSchedule<Acc, Reason>>::total_scheduled_amount(&who, r).is_none()));
	check("no schedules to remove", <Lr as ReleaseSchedule<Acc, Reason>>::remove_vesting_schedule(&who, any(), r).is_err());
	check("no schedules to drop", <Lr as ReleaseSchedule<Acc, Reason>>::remove_all_vesting_schedules(&who, r).is_err());
	check("nothing is written", frame(""));
}
pub fn vc_l04_remove() {
	let (who, r) = (any::<Acc>(), Reason(any()));
	let p: u32 = any();
	small(who, r);
	let all = vesting(who, r);
	assume((p as usize) < all.len());
	let x = rest();
	let (h0, f0) = (held(r.0, who), free(who));
	let drop = move |k: usize| k == p as usize;
	adding_up(&all, System::block_number(), drop);
	let res = <Lr as ReleaseSchedule<Acc, Reason>>::remove_vesting_schedule(&who, p, r);
	cover("removed");
	check("a schedule can be removed", res.is_ok());
	released(who, r, &left_but(&all, System::block_number(), drop), h0, f0);
	x.untouched(who, r);
	check("nothing else is written", frame(WRITES));
}
pub fn vc_l04_remove_all() {
	let (who, r) = (any::<Acc>(), Reason(any()));
	small(who, r);
	let all = vesting(who, r);
	let x = rest();
	let (y, n) = (x.clone(), all.len());
	let (h0, f0) = (held(r.0, who), free(who));
	// every turn drops the first schedule and the ended ones
	let now = System::block_number();
	invariant::<usize, _>(move |j| {
		let funds = m(free(who)).add(m(held(r.0, who))).eq(m(f0).add(m(h0)));
		let left = match Vesting::<V>::get(who, r) {
			None => held(r.0, who) == 0,
			Some(l) => and(l.len() > 0, l.len() + j <= n),
		};
		and(and(left, funds), y.same(who, r))
	});
	invariant_acc::<Info, u128, _>(move |k, a| {
		let l = Vesting::<V>::get(who, r).map(|l| l.into_inner()).unwrap_or_default();
		let f = |i: usize| ite_u128(i == 0, 0, lock(&l[i], now));
		and(a == sum(l.len(), k, f), iff(a == 0, forall(k, |i| f(i) == 0)))
	});
	let res = <Lr as ReleaseSchedule<Acc, Reason>>::remove_all_vesting_schedules(&who, r);
	cover("removed");
	check("all schedules can be dropped", res.is_ok());
	check("no schedule is left", Vesting::<V>::get(who, r).is_none());
	check("nothing stays held", and(held(r.0, who) == 0, free(who) == f0 + h0));
	x.untouched(who, r);
	check("nothing else is written", frame(WRITES));
}
