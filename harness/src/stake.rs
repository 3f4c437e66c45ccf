//! Contracts of `pallet-parachain-staking`: settings, collators.
use crate::ghost::*;
use crate::rt::*;
use crate::{Gov, System, VCall, VEvent, VOrigin, V};
use frame_support::traits::Get;
use frame_support::{StorageMap as _, StorageValue as _};
use pallet_parachain_staking::{Bond, CandidateMetadata, CapacityStatus, CollatorStatus, Config, HoldReason, Pallet, Range};
use sp_runtime::{Perbill, Percent};

pub const R_COLLATOR: u8 = 0;
pub const R_DELEGATOR: u8 = 1;
impl From<HoldReason> for Reason {
	fn from(r: HoldReason) -> Self {
		match r {
			HoldReason::StakingCollator => Reason(R_COLLATOR),
			HoldReason::StakingDelegator => Reason(R_DELEGATOR),
		}
	}
}
macro_rules! constant {
	($($name:ident : $t:ty = $e:expr;)*) => { $(
		pub struct $name;
		impl Get<$t> for $name {
			fn get() -> $t { $e }
		}
	)* };
}
constant! {
	PayMaster: Acc = param(1);
	MinBlocks: u32 = param(2) as u32;
	LeaveDelay: u32 = param(3) as u32;
	LessDelay: u32 = param(4) as u32;
	LeaveDelegators: u32 = param(5) as u32;
	RevokeDelay: u32 = param(6) as u32;
	DelegationLess: u32 = param(7) as u32;
	RewardDelay: u32 = param(8) as u32;
	MinSelected: u32 = param(9) as u32;
	MaxTop: u32 = param(10) as u32;
	MaxBottom: u32 = param(11) as u32;
	MaxDelegations: u32 = param(12) as u32;
	MinCandidate: Bal = param(13);
	MinDelegation_: Bal = param(14);
	MinDelegator: Bal = param(15);
}
pub const MAXB: u128 = 1 << 120;
pub const O_MONETARY: u8 = 40;
impl Config for V {
	type RuntimeEvent = VEvent;
	type RuntimeHoldReason = Reason;
	type Currency = Fung;
	type Balance = Bal;
	type PayMaster = PayMaster;
	type MonetaryGovernanceOrigin = Gov<O_MONETARY>;
	type MinBlocksPerRound = MinBlocks;
	type LeaveCandidatesDelay = LeaveDelay;
	type CandidateBondLessDelay = LessDelay;
	type LeaveDelegatorsDelay = LeaveDelegators;
	type RevokeDelegationDelay = RevokeDelay;
	type DelegationBondLessDelay = DelegationLess;
	type RewardPaymentDelay = RewardDelay;
	type MinSelectedCandidates = MinSelected;
	type MaxTopDelegationsPerCandidate = MaxTop;
	type MaxBottomDelegationsPerCandidate = MaxBottom;
	type MaxDelegationsPerDelegator = MaxDelegations;
	type MinCandidateStk = MinCandidate;
	type MinDelegation = MinDelegation_;
	type MinDelegatorStk = MinDelegator;
	type OnCollatorPayout = ();
	type PayoutCollatorReward = ();
	type OnNewRound = ();
	type WeightInfo = ();
}
type Stk = Pallet<V>;
type Bond_ = Bond<Acc, Bal>;
type Meta = CandidateMetadata<Bal>;

// ------------------------------------------------------------------ K01: settings
pub fn vc_k01_expectations() {
	let (o, r) = (any::<VOrigin>(), any::<Range<Bal>>());
	let c = Stk::inflation_config();
	let res = Stk::set_staking_expectations(o.clone().into(), r);
	let ok = and(matches!(o, VOrigin::Gov(O_MONETARY, _)), and(and(r.max >= r.ideal, r.ideal >= r.min), c.expect != r));
	check("monetary governance, and nobody else, sets other valid expectations", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("set");
	let d = Stk::inflation_config();
	check("exactly the expectations change", and(d.expect == r, and(d.annual == c.annual, d.round == c.round)));
	check("nothing else is written", frame("ParachainStaking.InflationConfig"));
}
pub fn vc_k01_inflation() {
	by_contract("pallet_parachain_staking::inflation::perbill_annual_to_perbill_round");
	let (o, r) = (any::<VOrigin>(), any::<Range<Perbill>>());
	assume(Stk::round().length > 0);
	let c = Stk::inflation_config();
	let res = Stk::set_inflation(o.clone().into(), r);
	let ok = and(matches!(o, VOrigin::Gov(O_MONETARY, _)), and(and(r.max >= r.ideal, r.ideal >= r.min), c.annual != r));
	check("monetary governance, and nobody else, sets another valid inflation", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("set");
	let d = Stk::inflation_config();
	check("expectations stay", and(d.expect == c.expect, d.annual == r));
	check("the rate of a round follows from the yearly one", d.round == pallet_parachain_staking::inflation::perbill_annual_to_perbill_round(r, 2_629_800 / Stk::round().length));
	check("nothing else is written", frame("ParachainStaking.InflationConfig"));
}
pub fn vc_k01_blocks() {
	by_contract("pallet_parachain_staking::inflation::perbill_annual_to_perbill_round");
	let (o, n) = (any::<VOrigin>(), any::<u32>());
	assume(param(2) > 0);
	let (c, r, t) = (Stk::inflation_config(), Stk::round(), Stk::total_selected());
	let res = Stk::set_blocks_per_round(o.clone().into(), n);
	let ok = and(o == VOrigin::Root, and(n >= param(2) as u32, and(r.length != n, n > t)));
	check("root, and nobody else, sets another length of rounds", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("set");
	let (d, s) = (Stk::inflation_config(), Stk::round());
	check("exactly the length of rounds changes", and(s.length == n, and(s.current == r.current, s.first == r.first)));
	check("the yearly inflation stays", and(d.expect == c.expect, d.annual == c.annual));
	check("the rate of a round follows from the yearly one", d.round == pallet_parachain_staking::inflation::perbill_annual_to_perbill_round(c.annual, 2_629_800 / n));
	check("nothing else is written", frame("ParachainStaking.InflationConfig ParachainStaking.Round"));
}
pub fn vc_k01_selected() {
	let (o, n) = (any::<VOrigin>(), any::<u32>());
	let t = Stk::total_selected();
	let res = Stk::set_total_selected(o.clone().into(), n);
	let ok = and(o == VOrigin::Root, and(n >= param(9) as u32, and(t != n, n < Stk::round().length)));
	check("root, and nobody else, sets another number of collators, below the length of rounds", iff(ok, res.is_ok()));
	check("the number is what was set", Stk::total_selected() == ite_u32(ok, n, t));
	check("nothing else is written", frame("ParachainStaking.TotalSelected"));
}
pub fn vc_k01_commission() {
	let (o, n) = (any::<VOrigin>(), any::<Perbill>());
	let t = Stk::collator_commission();
	let res = Stk::set_collator_commission(o.clone().into(), n);
	check("root, and nobody else, sets another commission", iff(and(o == VOrigin::Root, t != n), res.is_ok()));
	check("the commission is what was set", or(res.is_err(), Stk::collator_commission() == n));
	check("nothing else is written", frame("ParachainStaking.CollatorCommission"));
}
pub fn vc_k01_bond() {
	let (o, p, w) = (any::<VOrigin>(), any::<Percent>(), any::<Acc>());
	let (c, account) = (Stk::parachain_bond_info(), any::<bool>());
	let gov = matches!(o, VOrigin::Gov(O_MONETARY, _));
	if account {
		let res = Stk::set_parachain_bond_account(o.into(), w);
		check("monetary governance, and nobody else, sets another account", iff(and(gov, c.account != w), res.is_ok()));
		let d = Stk::parachain_bond_info();
		check("exactly the account changes", and(d.percent == c.percent, or(res.is_err(), d.account == w)));
	} else {
		let res = Stk::set_parachain_bond_reserve_percent(o.into(), p);
		check("monetary governance, and nobody else, sets another share", iff(and(gov, c.percent != p), res.is_ok()));
		let d = Stk::parachain_bond_info();
		check("exactly the share changes", and(d.account == c.account, or(res.is_err(), d.percent == p)));
	}
	check("nothing else is written", frame("ParachainStaking.ParachainBondInfo"));
}

// ------------------------------------------------------------------ K02: collators
/// the pool is ordered by account, each account once
fn sorted(s: &Vec<Bond_>) -> bool { forall(s.len(), |i| forall(i, |j| s[j].owner < s[i].owner)) }
fn seek(s: &Vec<Bond_>, w: Acc) -> Option<usize> { s.binary_search_by_key(&w, |x| x.owner).ok() }
fn equal(a: &Bond_, b: &Bond_) -> bool { and(a.owner == b.owner, a.amount == b.amount) }
/// the pool `s` becomes the pool of now: `w` is in it with `now` or not at all, and was or was not in it
fn pooled(s: &Vec<Bond_>, was: bool, w: Acc, now: Option<Bal>) {
	let t = pool();
	check("the pool stays ordered", sorted(&t));
	match (seek(&t, w), now) {
		(Some(q), Some(amount)) => check("the collator is in the pool with its counted stake", t[q].amount == amount),
		(None, None) => {},
		(_, n) => check("the collator is in the pool exactly when it is online", false),
	}
	let (a, b) = (was as usize, now.is_some() as usize);
	check("no other collator enters or leaves the pool", t.len() + a == s.len() + b);
	let at = match s.binary_search_by_key(&w, |x| x.owner) {
		Ok(q) => q,
		Err(q) => q,
	};
	check("the others stay in the pool as they were", forall(s.len(), |i| {
		if i < at {
			equal(&s[i], &t[i])
		} else if i >= at + a {
			equal(&s[i], &t[i + b - a])
		} else {
			true
		}
	}));
}
fn pool() -> Vec<Bond_> { Stk::candidate_pool().0 }
fn info(w: Acc) -> Option<Meta> { Stk::candidate_info(w) }
fn round() -> u32 { Stk::round().current }
fn active(m: &Meta) -> bool { m.status == CollatorStatus::Active }
fn leaving(m: &Meta) -> bool { matches!(m.status, CollatorStatus::Leaving(_)) }
struct Before {
	pool: Vec<Bond_>,
	was: bool,
	x: Acc,
	r: u8,
	free: Bal,
	held: Bal,
	other: Option<Meta>,
	total: Bal,
}
impl Before {
	fn any(who: Acc) -> Before {
		let (x, r) = (any::<Acc>(), any::<u8>());
		let pool = pool();
		assume(and(sorted(&pool), pool.len() < u32::MAX as usize));
		let was = seek(&pool, who).is_some();
		Before { was, pool, x, r, free: free(x), held: held(r, x), other: info(x), total: Stk::total() }
	}
	/// `more` is held from the free balance of `who`, `less` of what was held is free again
	fn moved(&self, who: Acc, more: Bal, less: Bal) {
		let (own, bond) = (self.x == who, and(self.x == who, self.r == R_COLLATOR));
		check("exactly the bond is held", m(held(self.r, self.x)).add(m(ite_u128(bond, less, 0))).eq(m(self.held).add(m(ite_u128(bond, more, 0)))));
		check("exactly the bond leaves the free balance", m(free(self.x)).add(m(ite_u128(own, more, 0))).eq(m(self.free).add(m(ite_u128(own, less, 0)))));
		check("other collators stay", or(self.x == who, same(&info(self.x), &self.other)));
	}
}
const COLLATOR: &str = "ParachainStaking.CandidateInfo ParachainStaking.CandidatePool";
const BONDED: &str = "ParachainStaking.CandidateInfo ParachainStaking.CandidatePool ParachainStaking.Total Ghost.GFree Ghost.GHeld";
fn signer(o: &VOrigin) -> Acc {
	match o {
		VOrigin::Signed(w) => *w,
		_ => any(),
	}
}
fn signed(o: &VOrigin) -> bool { matches!(o, VOrigin::Signed(_)) }
pub fn vc_k02_offline() {
	let o = any::<VOrigin>();
	let who = signer(&o);
	let (b, c) = (Before::any(who), info(who));
	let res = Stk::go_offline(o.clone().into());
	let ok = match &c {
		Some(c) => and(signed(&o), active(c)),
		None => false,
	};
	check("an active collator, and nobody else, goes offline", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("offline");
	let (Some(c), Some(d)) = (c, info(who)) else {
		check("a collator is on record", false);
		return;
	};
	check("the collator is idle", d.status == CollatorStatus::Idle);
	check("nothing else of it changes", same(&Meta { status: c.status.clone(), ..d }, &c));
	pooled(&b.pool, b.was, who, None);
	b.moved(who, 0, 0);
	check("nothing else is written", frame(COLLATOR));
}
pub fn vc_k02_online() {
	let o = any::<VOrigin>();
	let who = signer(&o);
	let (b, c) = (Before::any(who), info(who));
	let res = Stk::go_online(o.clone().into());
	let ok = match &c {
		Some(c) => and(and(signed(&o), !b.was), c.status == CollatorStatus::Idle),
		None => false,
	};
	check("an idle collator, and nobody else, goes online", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("online");
	let (Some(c), Some(d)) = (c, info(who)) else {
		check("a collator is on record", false);
		return;
	};
	check("the collator is active", active(&d));
	check("nothing else of it changes", same(&Meta { status: CollatorStatus::Idle, ..d }, &c));
	pooled(&b.pool, b.was, who, Some(c.total_counted));
	b.moved(who, 0, 0);
	check("nothing else is written", frame(COLLATOR));
}
pub fn vc_k02_leave() {
	let (o, n) = (any::<VOrigin>(), any::<u32>());
	let who = signer(&o);
	let (b, c, now) = (Before::any(who), info(who), round());
	assume(and(now < 1 << 30, param(3) < 1 << 30));
	let res = Stk::schedule_leave_candidates(o.clone().into(), n);
	let ok = match &c {
		Some(c) => and(and(signed(&o), !leaving(c)), n as usize >= b.pool.len()),
		None => false,
	};
	check("a collator that is not leaving yet, and nobody else, starts to leave", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("leaving");
	let (Some(c), Some(d)) = (c, info(who)) else {
		check("a collator is on record", false);
		return;
	};
	check("it may leave after the configured rounds", d.status == CollatorStatus::Leaving(now + param(3) as u32));
	check("nothing else of it changes", same(&Meta { status: c.status.clone(), ..d }, &c));
	pooled(&b.pool, b.was, who, None);
	b.moved(who, 0, 0);
	check("nothing else is written", frame(COLLATOR));
}
pub fn vc_k02_stay() {
	let (o, n) = (any::<VOrigin>(), any::<u32>());
	let who = signer(&o);
	let (b, c) = (Before::any(who), info(who));
	let res = Stk::cancel_leave_candidates(o.clone().into(), n);
	let ok = match &c {
		Some(c) => and(and(signed(&o), leaving(c)), and(!b.was, n as usize >= b.pool.len())),
		None => false,
	};
	check("a leaving collator, and nobody else, stays after all", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("stays");
	let (Some(c), Some(d)) = (c, info(who)) else {
		check("a collator is on record", false);
		return;
	};
	check("the collator is active", active(&d));
	check("nothing else of it changes", same(&Meta { status: c.status.clone(), ..d }, &c));
	pooled(&b.pool, b.was, who, Some(c.total_counted));
	b.moved(who, 0, 0);
	check("nothing else is written", frame(COLLATOR));
}
pub fn vc_k02_more() {
	let (o, more) = (any::<VOrigin>(), any::<Bal>());
	let who = signer(&o);
	let (b, c) = (Before::any(who), info(who));
	let (f, h) = (free(who), held(R_COLLATOR, who));
	assume(h <= MAXB);
	let res = Stk::candidate_bond_more(o.clone().into(), more);
	let ok = match &c {
		Some(_) => and(signed(&o), and(more <= f, more <= MAXB)),
		None => false,
	};
	check("a collator, and nobody else, bonds more of its free balance", and(or(ok, or(res.is_err(), more > MAXB)), or(!ok, res.is_ok())));
	if res.is_err() {
		return;
	}
	cover("more");
	let (Some(c), Some(d)) = (c, info(who)) else {
		check("a collator is on record", false);
		return;
	};
	check("its bond and counted stake grow by it", and(d.bond == c.bond.saturating_add(more), d.total_counted == c.total_counted.saturating_add(more)));
	check("the total grows by it", Stk::total() == b.total.saturating_add(more));
	pooled(&b.pool, b.was, who, if active(&c) { Some(d.total_counted) } else if b.was { return } else { None });
	check("nothing else of it changes", same(&Meta { bond: c.bond, total_counted: c.total_counted, ..d }, &c));
	b.moved(who, more, 0);
	check("nothing else is written", frame(BONDED));
}
pub fn vc_k02_less() {
	let (o, less) = (any::<VOrigin>(), any::<Bal>());
	let who = signer(&o);
	let (b, c, now) = (Before::any(who), info(who), round());
	assume(and(now < 1 << 30, param(4) < 1 << 30));
	let res = Stk::schedule_candidate_bond_less(o.clone().into(), less);
	let ok = match &c {
		Some(c) => and(and(signed(&o), c.request.is_none()), and(c.bond > less, c.bond.saturating_sub(less) >= param(13))),
		None => false,
	};
	check("a collator without a pending request asks to bond less, but not below the minimum", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("asked");
	let (Some(c), Some(d)) = (c, info(who)) else {
		check("a collator is on record", false);
		return;
	};
	let Some(q) = &d.request else {
		check("the request is pending", false);
		return;
	};
	check("the request waits for the configured rounds", and(q.amount == less, q.when_executable == now + param(4) as u32));
	check("nothing else of it changes", same(&Meta { request: None, ..d }, &c));
	b.moved(who, 0, 0);
	check("nothing else is written", frame("ParachainStaking.CandidateInfo"));
}
pub fn vc_k02_lessened() {
	let (o, who) = (any::<VOrigin>(), any::<Acc>());
	let (b, c) = (Before::any(who), info(who));
	let (f, h) = (free(who), held(R_COLLATOR, who));
	assume(and(f <= MAXB, h <= MAXB));
	let due = match &c {
		Some(c) => match &c.request {
			Some(q) => {
				// requests are for less than the bond, which is held
				assume(and(q.amount < c.bond, c.bond <= h));
				q.when_executable <= round()
			},
			None => false,
		},
		None => false,
	};
	let res = Stk::execute_candidate_bond_less(o.clone().into(), who);
	check("a request is executed when it is due", iff(and(due, signed(&o)), res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("executed");
	let (Some(c), Some(d)) = (c, info(who)) else {
		check("a collator is on record", false);
		return;
	};
	let Some(q) = &c.request else {
		check("a request is pending", false);
		return;
	};
	check("it is executed once", d.request.is_none());
	check("its bond and counted stake shrink by it", and(d.bond == c.bond.saturating_sub(q.amount), d.total_counted == c.total_counted.saturating_sub(q.amount)));
	check("the total shrinks by it", Stk::total() == b.total.saturating_sub(q.amount));
	pooled(&b.pool, b.was, who, if active(&c) { Some(d.total_counted) } else if b.was { return } else { None });
	check("nothing else of it changes", same(&Meta { bond: c.bond, total_counted: c.total_counted, request: c.request.clone(), ..d }, &c));
	b.moved(who, 0, q.amount);
	check("nothing else is written", frame(BONDED));
}
pub fn vc_k02_cancel() {
	let o = any::<VOrigin>();
	let who = signer(&o);
	let (b, c) = (Before::any(who), info(who));
	let res = Stk::cancel_candidate_bond_less(o.clone().into());
	let ok = match &c {
		Some(c) => and(signed(&o), c.request.is_some()),
		None => false,
	};
	check("a collator cancels its own pending request", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("cancelled");
	let (Some(c), Some(d)) = (c, info(who)) else {
		check("a collator is on record", false);
		return;
	};
	check("the request is gone", d.request.is_none());
	check("nothing else of it changes", same(&Meta { request: c.request.clone(), ..d }, &c));
	b.moved(who, 0, 0);
	check("nothing else is written", frame("ParachainStaking.CandidateInfo"));
}
pub fn vc_k02_join() {
	let (o, bond, n) = (any::<VOrigin>(), any::<Bal>(), any::<u32>());
	let who = signer(&o);
	let b = Before::any(who);
	let (f, h) = (free(who), held(R_COLLATOR, who));
	assume(h <= MAXB);
	let is = or(info(who).is_some(), Stk::delegator_state(who).is_some());
	let res = Stk::join_candidates(o.clone().into(), bond, n);
	let ok = and(and(signed(&o), !is), and(and(bond >= param(13), and(bond <= f, bond <= MAXB)), and(!b.was, n as usize >= b.pool.len())));
	check("who is neither collator nor delegator joins with at least the minimum of its free balance", and(or(ok, or(res.is_err(), bond > MAXB)), or(!ok, res.is_ok())));
	if res.is_err() {
		return;
	}
	cover("joined");
	let Some(d) = info(who) else {
		check("a collator is on record", false);
		return;
	};
	check("collators and delegators do not join", !is);
	pooled(&b.pool, b.was, who, Some(bond));
	check("the collator has its own bond, and no delegations", same(&d, &Meta::new(bond)));
	check("nobody delegates to it", match (Stk::top_delegations(who), Stk::bottom_delegations(who)) {
		(Some(t), Some(l)) => and(and(t.delegations.len() == 0, t.total == 0), and(l.delegations.len() == 0, l.total == 0)),
		_ => false,
	});
	b.moved(who, bond, 0);
	check("the total grows by the bond", Stk::total() == b.total.saturating_add(bond));
	check("nothing else is written", frame("ParachainStaking.CandidateInfo ParachainStaking.TopDelegations ParachainStaking.BottomDelegations ParachainStaking.CandidatePool ParachainStaking.Total Ghost.GFree Ghost.GHeld"));
}

// ------------------------------------------------------------------ K03: requests of delegators
type Requests = Vec<pallet_parachain_staking::ScheduledRequest<Acc, Bal>>;
type State = pallet_parachain_staking::Delegator<Acc, Bal>;
use pallet_parachain_staking::DelegationAction::{Decrease, Revoke};
fn state(w: Acc) -> Option<State> { Stk::delegator_state(w) }
fn requests(c: Acc) -> Requests { Stk::delegation_scheduled_requests(c) }
fn pending(r: &Requests, w: Acc) -> Option<usize> { r.iter().position(|q| q.delegator == w) }
fn bonded(s: &Option<State>, c: Acc) -> Option<Bal> {
	match s {
		Some(s) => s.delegations.0.iter().find(|b| b.owner == c).map(|b| b.amount),
		None => None,
	}
}
const ASKED: &str = "ParachainStaking.DelegationScheduledRequests ParachainStaking.DelegatorState";
/// the last of `t` is new, the others are `s`
fn appended(s: &Requests, t: &Requests, w: Acc, amount: Bal, revoke: bool, at: u32) {
	check("one request more waits", t.len() == s.len() + 1);
	check("the others wait as before", forall(s.len(), |i| same(&s[i], &t[i])));
	let q = &t[s.len()];
	check("it is for the delegator, after the configured rounds", and(q.delegator == w, q.when_executable == at));
	check("it is for the amount", match &q.action {
		Revoke(a) => and(revoke, *a == amount),
		Decrease(a) => and(!revoke, *a == amount),
	});
}
fn remembered(s: &State, t: &State, less: Bal) {
	check("what is pending is remembered", t.less_total == less);
	check("no delegation changes yet", and(and(t.id == s.id, t.total == s.total), same(&t.delegations, &s.delegations)));
}
pub fn vc_k03_revoke() {
	let (o, c, x) = (any::<VOrigin>(), any::<Acc>(), any::<Acc>());
	let who = signer(&o);
	let (r, s, now, other, others) = (requests(c), state(who), round(), requests(x), state(x));
	assume(and(now < 1 << 30, param(6) < 1 << 30));
	assume(r.len() < u32::MAX as usize);
	let bond = bonded(&s, c);
	let res = Stk::schedule_revoke_delegation(o.clone().into(), c);
	let ok = and(signed(&o), and(bond.is_some(), pending(&r, who).is_none()));
	check("who delegates, and has nothing pending there, may ask for all of it", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("asked");
	let (Some(s), Some(t), Some(bond)) = (s, state(who), bond) else {
		check("a delegator is on record", false);
		return;
	};
	appended(&r, &requests(c), who, bond, true, now + param(6) as u32);
	remembered(&s, &t, s.less_total.saturating_add(bond));
	check("requests to other collators, and other delegators, stay", and(or(x == c, same(&requests(x), &other)), or(x == who, same(&state(x), &others))));
	check("nothing else is written", frame(ASKED));
}
pub fn vc_k03_less() {
	let (o, c, x, less) = (any::<VOrigin>(), any::<Acc>(), any::<Acc>(), any::<Bal>());
	let who = signer(&o);
	let (r, s, now, other, others) = (requests(c), state(who), round(), requests(x), state(x));
	assume(and(now < 1 << 30, and(param(6) < 1 << 30, param(7) < 1 << 30)));
	assume(r.len() < u32::MAX as usize);
	let bond = bonded(&s, c);
	let res = Stk::schedule_delegator_bond_less(o.clone().into(), c, less);
	let ok = match (&s, &bond) {
		(Some(s), Some(b)) => and(
			and(signed(&o), pending(&r, who).is_none()),
			and(and(*b > less, b.saturating_sub(less) >= param(14)), less <= s.total.saturating_sub(s.less_total).saturating_sub(param(15))),
		),
		_ => false,
	};
	check("who delegates, and has nothing pending there, may ask for less, keeping both minima", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("asked");
	let (Some(s), Some(t)) = (s, state(who)) else {
		check("a delegator is on record", false);
		return;
	};
	appended(&r, &requests(c), who, less, false, now + param(7) as u32);
	remembered(&s, &t, s.less_total.saturating_add(less));
	check("requests to other collators, and other delegators, stay", and(or(x == c, same(&requests(x), &other)), or(x == who, same(&state(x), &others))));
	check("nothing else is written", frame(ASKED));
}
pub fn vc_k03_cancel() {
	let (o, c, x) = (any::<VOrigin>(), any::<Acc>(), any::<Acc>());
	let who = signer(&o);
	let (r, s, other, others) = (requests(c), state(who), requests(x), state(x));
	let at = pending(&r, who);
	let res = Stk::cancel_delegation_request(o.clone().into(), c);
	check("a delegator cancels its own pending request", iff(and(signed(&o), and(at.is_some(), s.is_some())), res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("cancelled");
	let (Some(s), Some(t), Some(at)) = (s, state(who), at) else {
		check("a delegator is on record", false);
		return;
	};
	let now = requests(c);
	check("one request less waits", now.len() + 1 == r.len());
	check("the others wait as before", forall(now.len(), |i| {
		if i < at {
			same(&now[i], &r[i])
		} else {
			same(&now[i], &r[i + 1])
		}
	}));
	remembered(&s, &t, s.less_total.saturating_sub(r[at].action.amount()));
	check("requests to other collators, and other delegators, stay", and(or(x == c, same(&requests(x), &other)), or(x == who, same(&state(x), &others))));
	check("nothing else is written", frame(ASKED));
}

// ------------------------------------------------------------------ K04: delegations (bounded: two of each kind)
type List = pallet_parachain_staking::Delegations<Acc, Bal>;
fn least(l: &List) -> Bal { l.delegations.last().map_or(0, |b| b.amount) }
fn most(l: &List) -> Bal { l.delegations.first().map_or(0, |b| b.amount) }
fn descending(l: &List) -> bool { forall(l.delegations.len(), |i| forall(i, |j| l.delegations[j].amount >= l.delegations[i].amount)) }
fn total(l: &List) -> Bal { sum(l.delegations.len(), l.delegations.len(), |i| l.delegations[i].amount) }
fn has(l: &List, w: Acc, a: Bal) -> bool { exists(l.delegations.len(), |i| and(l.delegations[i].owner == w, l.delegations[i].amount == a)) }
fn capacity(s: &CapacityStatus, n: usize, max: usize) -> bool {
	match s {
		CapacityStatus::Full => n >= max,
		CapacityStatus::Empty => and(n < max, n == 0),
		CapacityStatus::Partial => and(n < max, n > 0),
	}
}
struct Lists {
	info: Meta,
	top: List,
	bottom: List,
}
impl Lists {
	fn get(c: Acc) -> Option<Lists> {
		match (info(c), Stk::top_delegations(c), Stk::bottom_delegations(c)) {
			(Some(info), Some(top), Some(bottom)) => Some(Lists { info, top, bottom }),
			_ => None,
		}
	}
	fn ordered(&self) -> bool {
		and(and(descending(&self.top), descending(&self.bottom)), or(self.bottom.delegations.len() == 0, least(&self.top) >= most(&self.bottom)))
	}
	fn full(&self) -> bool {
		let (t, l) = (self.top.delegations.len(), self.bottom.delegations.len());
		and(and(t <= param(10) as usize, l <= param(11) as usize), or(l == 0, t == param(10) as usize))
	}
	fn totals(&self) -> bool { and(self.top.total == total(&self.top), self.bottom.total == total(&self.bottom)) }
	fn counted(&self) -> bool {
		and(
			self.info.total_counted == self.info.bond.saturating_add(self.top.total),
			self.info.delegation_count as usize == self.top.delegations.len() + self.bottom.delegations.len(),
		)
	}
	fn known(&self) -> bool {
		and(
			and(self.info.lowest_top_delegation_amount == least(&self.top), self.info.lowest_bottom_delegation_amount == least(&self.bottom)),
			and(
				self.info.highest_bottom_delegation_amount == most(&self.bottom),
				and(
					capacity(&self.info.top_capacity, self.top.delegations.len(), param(10) as usize),
					capacity(&self.info.bottom_capacity, self.bottom.delegations.len(), param(11) as usize),
				),
			),
		)
	}
	fn once(&self) -> bool {
		let (t, l) = (&self.top.delegations, &self.bottom.delegations);
		and(
			forall(t.len(), |i| and(forall(i, |j| t[j].owner != t[i].owner), forall(l.len(), |j| l[j].owner != t[i].owner))),
			forall(l.len(), |i| forall(i, |j| l[j].owner != l[i].owner)),
		)
	}
	fn has(&self, w: Acc, a: Bal) -> bool { or(has(&self.top, w, a), has(&self.bottom, w, a)) }
	fn names(&self, w: Acc) -> bool {
		let (t, l) = (&self.top.delegations, &self.bottom.delegations);
		or(exists(t.len(), |i| t[i].owner == w), exists(l.len(), |i| l[i].owner == w))
	}
}
fn kept(c: Acc, was: &Meta) -> Option<Lists> {
	let l = Lists::get(c);
	let Some(n) = &l else {
		check("the collator stays on record", false);
		return None;
	};
	check("delegations are ordered, the counted ones before the others", n.ordered());
	check("as many are counted as possible", n.full());
	check("the totals are the sums", n.totals());
	check("the counted stake is the bond and the counted delegations", n.counted());
	check("what is known of the delegations is so", n.known());
	check("nobody delegates twice to one collator", n.once());
	check("the pool has the counted stake", pooled_as(c, n));
	check("bond, status and requests of the collator stay", and(n.info.bond == was.bond, and(same(&n.info.request, &was.request), n.info.status == was.status)));
	l
}
fn pooled_as(c: Acc, l: &Lists) -> bool {
	let p = pool();
	let one = active(&l.info) as usize;
	and(p.len() == one, forall(p.len(), |i| and(p[i].owner == c, p[i].amount == l.info.total_counted)))
}
/// a collator with at most two counted and two other delegations, and its delegator
fn begin(c: Acc, who: Acc, most: usize) -> Option<(Lists, Option<State>)> {
	let l = Lists::get(c)?;
	let s = state(who);
	assume(and(and(0 < param(10), param(10) <= 2), and(0 < param(11), param(11) <= 2)));
	assume(and(l.top.delegations.len() <= 2, l.bottom.delegations.len() <= 2));
	assume(and(l.top.total <= MAXB, and(l.bottom.total <= MAXB, l.info.bond <= MAXB)));
	assume(and(and(l.ordered(), l.full()), and(l.totals(), and(l.counted(), and(l.known(), l.once())))));
	assume(pooled_as(c, &l));
	delegates(who, &s, most);
	Some((l, s))
}
fn delegates(who: Acc, s: &Option<State>, most: usize) {
	match s {
		Some(s) => {
			let d = &s.delegations.0;
			assume(and(s.id == who, and(d.len() <= most, and(0 < d.len(), s.total <= MAXB))));
			assume(s.total == sum(d.len(), d.len(), |i| d[i].amount));
			assume(forall(d.len(), |i| forall(i, |j| d[j].owner < d[i].owner)));
			assume(held(R_DELEGATOR, who) == s.total);
		},
		None => assume(held(R_DELEGATOR, who) == 0),
	}
}
pub fn vc_k04_decreased() {
	cover("bounded: at most two counted and two other delegations to a collator");
	let (c, who, z, by, a) = (any::<Acc>(), any::<Acc>(), any::<Acc>(), any::<Acc>(), any::<Bal>());
	let Some((l, Some(s))) = begin(c, who, 1) else {
		return;
	};
	let all = Stk::total();
	let (Some(bond), r) = (bonded(&Some(s.clone()), c), requests(c)) else {
		return;
	};
	assume(l.has(who, bond));
	assume(r.len() == 1);
	let Decrease(less) = r[0].action else {
		return;
	};
	let res = Stk::execute_delegation_request(VOrigin::Signed(by).into(), who, c);
	if res.is_err() {
		return;
	}
	cover("decreased");
	check("a request is executed when it is due", and(r[0].delegator == who, r[0].when_executable <= round()));
	let (Some(n), Some(t)) = (kept(c, &l.info), state(who)) else {
		check("delegator and collator stay on record", false);
		return;
	};
	check("exactly the delegation shrinks", and(n.has(who, bond.saturating_sub(less)), or(z == who, n.has(z, a) == l.has(z, a))));
	check("the delegator remembers it", and(t.total == s.total.saturating_sub(less), t.less_total == s.less_total.saturating_sub(less)));
	check("the delegator remembers the new delegation", bonded(&Some(t.clone()), c) == Some(bond.saturating_sub(less)));
	check("the minima are kept", and(bond > less, and(t.total >= param(14), t.total >= param(15))));
	check("what it delegates stays on hold", held(R_DELEGATOR, who) == t.total);
	check("the total shrinks by it", Stk::total() == all.saturating_sub(less));
	check("the request is gone", requests(c).len() == 0);
}
pub fn vc_k04_increased() {
	cover("bounded: at most two counted and two other delegations to a collator");
	let (c, who, z, a, more) = (any::<Acc>(), any::<Acc>(), any::<Acc>(), any::<Bal>(), any::<Bal>());
	let Some((l, Some(s))) = begin(c, who, 1) else {
		return;
	};
	let (all, f, r) = (Stk::total(), free(who), requests(c));
	assume(r.len() <= 1);
	let Some(bond) = bonded(&Some(s.clone()), c) else {
		return;
	};
	assume(l.has(who, bond));
	assume(more <= MAXB);
	let leaves = r.len() == 1 && r[0].delegator == who && matches!(r[0].action, Revoke(_));
	let res = Stk::delegator_bond_more(VOrigin::Signed(who).into(), c, more);
	check("a delegator that is not leaving delegates more of its free balance", iff(and(!leaves, more <= f), res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("increased");
	let (Some(n), Some(t)) = (kept(c, &l.info), state(who)) else {
		check("delegator and collator stay on record", false);
		return;
	};
	check("exactly the delegation grows", and(n.has(who, bond.saturating_add(more)), or(z == who, n.has(z, a) == l.has(z, a))));
	check("the delegator remembers it", and(t.total == s.total.saturating_add(more), t.less_total == s.less_total));
	check("the delegator remembers the new delegation", bonded(&Some(t.clone()), c) == Some(bond.saturating_add(more)));
	check("what it delegates is on hold", held(R_DELEGATOR, who) == t.total);
	check("the total grows by it", Stk::total() == all.saturating_add(more));
}
pub fn vc_k04_revoked() {
	cover("bounded: at most two counted and two other delegations to a collator");
	let (c, who, z, by, a) = (any::<Acc>(), any::<Acc>(), any::<Acc>(), any::<Acc>(), any::<Bal>());
	let Some((l, Some(s))) = begin(c, who, 2) else {
		return;
	};
	let all = Stk::total();
	let (Some(bond), r) = (bonded(&Some(s.clone()), c), requests(c)) else {
		return;
	};
	assume(l.has(who, bond));
	assume(r.len() == 1);
	let Revoke(amount) = r[0].action else {
		return;
	};
	assume(amount == bond);
	let res = Stk::execute_delegation_request(VOrigin::Signed(by).into(), who, c);
	if res.is_err() {
		return;
	}
	cover("revoked");
	check("a request is executed when it is due", and(r[0].delegator == who, r[0].when_executable <= round()));
	let Some(n) = kept(c, &l.info) else {
		return;
	};
	check("exactly the delegation is gone", and(!n.names(who), or(z == who, n.has(z, a) == l.has(z, a))));
	match state(who) {
		Some(t) => {
			check("the delegator keeps the others", and(s.delegations.0.len() == 2, and(t.delegations.0.len() == 1, bonded(&Some(t.clone()), c).is_none())));
			check("the delegator remembers it", and(t.total == s.total.saturating_sub(bond), t.less_total == s.less_total.saturating_sub(bond)));
			check("what it delegates stays on hold", held(R_DELEGATOR, who) == t.total);
		},
		None => {
			check("who revokes the last delegation leaves", s.delegations.0.len() == 1);
			check("nothing stays on hold", held(R_DELEGATOR, who) == 0);
		},
	}
	check("the total shrinks by it", Stk::total() == all.saturating_sub(bond));
	check("the request is gone", requests(c).len() == 0);
}
pub fn vc_k04_delegate() {
	cover("bounded: a new delegator, at most two counted and two other delegations, none to be replaced");
	let (c, who, z, a, amount) = (any::<Acc>(), any::<Acc>(), any::<Acc>(), any::<Bal>(), any::<Bal>());
	let (n1, n2) = (any::<u32>(), any::<u32>());
	let Some((l, None)) = begin(c, who, 1) else {
		return;
	};
	assume(and(!l.names(who), or(l.top.delegations.len() < param(10) as usize, l.bottom.delegations.len() < param(11) as usize)));
	let (all, f) = (Stk::total(), free(who));
	assume(and(amount <= MAXB, all <= MAXB));
	let is = info(who).is_some();
	let res = Stk::delegate(VOrigin::Signed(who).into(), c, amount, n1, n2);
	if res.is_err() {
		return;
	}
	cover("delegated");
	check("who is no collator delegates at least the minimum of its free balance", and(amount >= param(15), and(!is, and(amount <= f, n1 >= l.info.delegation_count))));
	let (Some(n), Some(t)) = (kept(c, &l.info), state(who)) else {
		check("delegator and collator are on record", false);
		return;
	};
	check("exactly the delegation is new", and(n.has(who, amount), or(z == who, n.has(z, a) == l.has(z, a))));
	check("the delegator remembers it", and(t.total == amount, bonded(&Some(t.clone()), c) == Some(amount)));
	check("what it delegates is on hold", held(R_DELEGATOR, who) == t.total);
	check("the total grows by it", Stk::total() == all.saturating_add(amount));
}
pub fn vc_k04_replace() {
	cover("bounded: a new delegator, one counted and one other delegation, which is replaced");
	let (c, who, amount) = (any::<Acc>(), any::<Acc>(), any::<Bal>());
	let (n1, n2) = (any::<u32>(), any::<u32>());
	let Some((l, None)) = begin(c, who, 1) else {
		return;
	};
	assume(and(param(10) == 1, param(11) == 1));
	assume(and(!l.names(who), and(l.top.delegations.len() == 1, l.bottom.delegations.len() == 1)));
	let (all, f, r) = (Stk::total(), free(who), requests(c));
	assume(r.len() == 0);
	assume(and(amount <= MAXB, all <= MAXB));
	let (k, lost) = (l.bottom.delegations[0].owner, l.bottom.delegations[0].amount);
	let t = state(k);
	delegates(k, &t, 1);
	assume(bonded(&t, c) == Some(lost));
	let res = Stk::delegate(VOrigin::Signed(who).into(), c, amount, n1, n2);
	if res.is_err() {
		return;
	}
	cover("replaced");
	check("it delegates more than who it replaces, of its free balance", and(amount > lost, amount <= f));
	let (Some(n), Some(t)) = (kept(c, &l.info), state(who)) else {
		check("delegator and collator are on record", false);
		return;
	};
	let (o, b) = (l.top.delegations[0].owner, l.top.delegations[0].amount);
	check("exactly the delegation is new", and(n.has(who, amount), n.has(o, b)));
	check("the delegator remembers it", and(t.total == amount, bonded(&Some(t.clone()), c) == Some(amount)));
	check("what it delegates is on hold", held(R_DELEGATOR, who) == t.total);
	check("the least delegation makes place", and(!n.names(k), and(state(k).is_none(), held(R_DELEGATOR, k) == 0)));
	check("the total is what is delegated and bonded", Stk::total() == all.saturating_add(amount.saturating_sub(lost)));
}
