//! Contracts of pallet-democracy: proposals, referendum life cycle, privileged operations, metadata.
use crate::{*, dem::*, ghost::*, rt::*};
use frame_support::{traits::{Bounded, Hooks}, BoundedVec};
use pallet_democracy as pd;
use pallet_democracy::{Approved, MetadataOwner, PropIndex, ReferendumInfo, ReferendumStatus, Tally, VoteThreshold};

pub type Props = BoundedVec<(u32, Call, u64), MaxProposals>;
pub type Deposit = (BoundedVec<u64, MaxDeposits>, u128);
pub fn props() -> Props { pd::PublicProps::<V>::get() }
pub fn deposit(p: u32) -> Option<Deposit> { pd::DepositOf::<V>::get(p) }
pub fn meta(o: &MetadataOwner) -> Option<H256> { pd::MetadataOf::<V>::get(o) }
pub fn next_external() -> Option<(Call, VoteThreshold)> { pd::NextExternal::<V>::get() }
pub fn refs() -> u32 { pd::ReferendumCount::<V>::get() }
pub const SOME_LEN: usize = 1 << 31;

/// queued proposals have distinct indices below the next free one, and fit the bound
pub fn wf_props(p: &Props, next: u32) -> bool {
	let n = p.len();
	and(n <= param(9) as usize, forall(n, |i| and(p[i].0 < next, forall(i, |j| p[j].0 != p[i].0))))
}

// ================================================================ D07: proposing and seconding
pub fn vc_d07_propose() {
	let o: VOrigin = any();
	let call: Call = any();
	let value: u128 = any();
	let n0 = pd::PublicPropCount::<V>::get();
	assume(n0 < u32::MAX);
	assume(param(10) >= 1);
	let p0 = props();
	assume(wf_props(&p0, n0));
	let h = call.hash();
	let bl = pd::Blacklist::<V>::get(h);
	let r = Democracy::propose(o.clone(), call.clone(), value);
	let VOrigin::Gov(O_SUBMIT, who) = o else {
		check("only the submit origin may propose", r.is_err());
		return;
	};
	if r.is_err() {
		return;
	}
	cover("proposes");
	check("the deposit is at least the minimum", value >= param(5));
	check("the queue had room", p0.len() < param(9) as usize);
	check("a blacklisted proposal is refused", match bl {
		Some((until, _)) => now() >= until,
		None => true,
	});
	check("other deposits untouched", changed_only_at::<pd::DepositOf<V>, _, _>(&[n0]));
	check("other accounts' balances untouched", and(changed_only_at::<GFree, _, _>(&[who]), changed_only_at::<GHeld, _, _>(&[(R_PROPOSAL, who)])));
	check("nothing else is written", frame("Democracy.DepositOf Democracy.PublicPropCount Democracy.PublicProps Ghost.GFree Ghost.GHeld"));
	check("proposal indices are never reused", pd::PublicPropCount::<V>::get() == n0 + 1);
	let p1 = props();
	check("the proposal is queued behind the others", and(p1.len() == p0.len() + 1, forall(p0.len(), |i| same(&p0[i], &p1[i]))));
	let l = &p1[p0.len()];
	check("the queued proposal is the one submitted", l.0 == n0 && l.2 == who && same(&l.1, &call));
	match deposit(n0) {
		Some((w, d)) => check("the proposer's deposit is recorded", d == value && w.len() == 1 && w[0] == who),
		None => check("the proposer's deposit is recorded", false),
	}
	check("the queue stays well-formed", wf_props(&p1, n0 + 1));
}
pub fn vc_d07_propose_deposit() {
	let who: u64 = any();
	let call: Call = any();
	let value: u128 = any();
	assume(pd::PublicPropCount::<V>::get() < u32::MAX);
	let (f0, h0) = (free(who), held(R_PROPOSAL, who));
	assume(h0 <= MAXB);
	let p0 = props();
	assume(p0.len() <= param(9) as usize);
	let black = match pd::Blacklist::<V>::get(call.hash()) {
		Some((until, _)) => now() < until,
		None => false,
	};
	let r = Democracy::propose(VOrigin::Gov(O_SUBMIT, who), call, value);
	let legit = and(and(value >= param(5), p0.len() < param(9) as usize), and(!black, value <= f0));
	assume(value <= MAXB);
	check("a legitimate proposal is accepted, nothing else is", iff(r.is_ok(), legit));
	if r.is_ok() {
		cover("proposes");
		check("exactly the deposit moves from free to held", and(m(free(who)).add(m(value)).eq(m(f0)), m(held(R_PROPOSAL, who)).eq(m(h0).add(m(value)))));
	}
}
pub fn vc_d07_second() {
	let o: VOrigin = any();
	let p: u32 = any();
	let d0 = deposit(p);
	let r = Democracy::second(o.clone(), p);
	let VOrigin::Signed(who) = o else {
		check("only a signed account can second", r.is_err());
		return;
	};
	let Some((w0, value)) = d0 else {
		check("only an existing proposal can be seconded", r.is_err());
		return;
	};
	if r.is_err() {
		return;
	}
	cover("seconds");
	check("the list of depositors is bounded", w0.len() < param(10) as usize);
	check("other deposits untouched", changed_only_at::<pd::DepositOf<V>, _, _>(&[p]));
	check("other accounts' balances untouched", and(changed_only_at::<GFree, _, _>(&[who]), changed_only_at::<GHeld, _, _>(&[(R_PROPOSAL, who)])));
	check("nothing else is written", frame("Democracy.DepositOf Ghost.GFree Ghost.GHeld"));
	match deposit(p) {
		Some((w1, d1)) => {
			check("the deposit asked of each depositor stays the same", d1 == value);
			check("the seconder is added behind the other depositors", and(w1.len() == w0.len() + 1, and(forall(w0.len(), |i| w0[i] == w1[i]), w1[w0.len()] == who)));
		},
		None => check("the proposal keeps its deposits", false),
	}
}
pub fn vc_d07_second_deposit() {
	let who: u64 = any();
	let p: u32 = any();
	let Some((w0, value)) = deposit(p) else { return };
	let (f0, h0) = (free(who), held(R_PROPOSAL, who));
	assume(and(h0 <= MAXB, value <= MAXB));
	assume(w0.len() <= param(10) as usize);
	let r = Democracy::second(VOrigin::Signed(who), p);
	check("who can pay can second, nobody else", iff(r.is_ok(), and(value <= f0, w0.len() < param(10) as usize)));
	if r.is_ok() {
		cover("seconds");
		check("exactly the deposit moves from free to held", and(m(free(who)).add(m(value)).eq(m(f0)), m(held(R_PROPOSAL, who)).eq(m(h0).add(m(value)))));
	}
}

// ================================================================ D08: launching referenda
/// every queued proposal has its deposits recorded
fn backed(p: &Props) -> bool { forall(p.len(), |i| deposit(p[i].0).is_some()) }
fn backing(p: u32) -> u128 {
	match deposit(p) {
		Some((w, d)) => d.saturating_mul(w.len() as u128),
		None => 0,
	}
}
fn launch_due(n: u64) {
	assume(refs() < u32::MAX);
	assume(and(param(2) > 0, param(2) <= u64::MAX as u128));
	assume(n % (param(2) as u64) == 0);
	// nothing is up for tallying: that is D09
	assume(pd::LowestUnbaked::<V>::get() == refs());
}
/// nothing but a launched referendum changes
fn launch_frame() {
	check(
		"nothing else is written",
		frame("Democracy.NextExternal Democracy.PublicProps Democracy.DepositOf Democracy.ReferendumCount Democracy.ReferendumInfoOf Democracy.MetadataOf Democracy.LastTabledWasExternal Democracy.LowestUnbaked Ghost.GFree Ghost.GHeld"),
	);
}
pub fn vc_d08_external() {
	let n: u64 = any();
	launch_due(n);
	let n0 = refs();
	let Some((call, thr)) = next_external() else { return };
	let p0 = props();
	assume(backed(&p0));
	assume(or(p0.len() == 0, !pd::LastTabledWasExternal::<V>::get()));
	let m0 = meta(&MetadataOwner::External);
	let m1 = meta(&MetadataOwner::Referendum(n0));
	Democracy::on_initialize(n);
	cover("launches");
	injected(n0, n.saturating_add(param(3) as u64), &call, thr, param(1) as u64);
	check("the external slot is empty", next_external().is_none());
	check("the queue gets its turn next", pd::LastTabledWasExternal::<V>::get());
	check("metadata moves along", and(meta(&MetadataOwner::External).is_none(), match m0 {
		Some(_) => meta(&MetadataOwner::Referendum(n0)) == m0,
		None => meta(&MetadataOwner::Referendum(n0)) == m1,
	}));
	check("other metadata untouched", changed_only_at::<pd::MetadataOf<V>, _, _>(&[MetadataOwner::External, MetadataOwner::Referendum(n0)]));
	check("the queue is untouched", same(&p0, &props()));
	check("nothing else is written", frame("Democracy.NextExternal Democracy.ReferendumCount Democracy.ReferendumInfoOf Democracy.MetadataOf Democracy.LastTabledWasExternal Democracy.LowestUnbaked Democracy.PublicProps"));
}
fn is_at(p: &Props, j: usize, l: &(u32, Call, u64)) -> bool {
	if j < p.len() { same(&p[j], l) } else { false }
}
/// which proposal is launched, when the queue has its turn
pub fn vc_d08_public() {
	let n: u64 = any();
	launch_due(n);
	let n0 = refs();
	let p0 = props();
	assume(and(wf_props(&p0, u32::MAX), backed(&p0)));
	assume(p0.len() > 0);
	let x0 = next_external();
	assume(or(x0.is_none(), pd::LastTabledWasExternal::<V>::get()));
	invariant::<u64, _>(|_| true);
	let q: u32 = any();
	let q = q as usize;
	// the proposal with the highest backing, when there is exactly one
	assume(q < p0.len());
	assume(forall(p0.len(), |i| or(i == q, backing(p0[i].0) < backing(p0[q].0))));
	let (p, call, _) = p0[q].clone();
	let m0 = meta(&MetadataOwner::Proposal(p));
	let m1 = meta(&MetadataOwner::Referendum(n0));
	Democracy::on_initialize(n);
	cover("launches");
	injected(n0, n.saturating_add(param(3) as u64), &call, VoteThreshold::SuperMajorityApprove, param(1) as u64);
	check("the external slot gets its turn next", !pd::LastTabledWasExternal::<V>::get());
	check("the external proposal stays", same(&x0, &next_external()));
	let p1 = props();
	check("the launched proposal leaves the queue", forall(p1.len(), |i| p1[i].0 != p));
	check("one proposal leaves the queue", p1.len() + 1 == p0.len());
	// the candidates spell out what the existential says, for the usual ways of removing an element
	check(
		"the other proposals stay queued",
		forall(p0.len(), |i| or(or(i == q, is_at(&p1, i, &p0[i])), or(or(is_at(&p1, q, &p0[i]), and(i > 0, is_at(&p1, i.wrapping_sub(1), &p0[i]))), exists(p1.len(), |j| same(&p1[j], &p0[i]))))),
	);
	check("its deposits are gone", deposit(p).is_none());
	check("other deposits untouched", changed_only_at::<pd::DepositOf<V>, _, _>(&[p]));
	check("metadata moves along", and(meta(&MetadataOwner::Proposal(p)).is_none(), match m0 {
		Some(_) => meta(&MetadataOwner::Referendum(n0)) == m0,
		None => meta(&MetadataOwner::Referendum(n0)) == m1,
	}));
	check("other metadata untouched", changed_only_at::<pd::MetadataOf<V>, _, _>(&[MetadataOwner::Proposal(p), MetadataOwner::Referendum(n0)]));
	launch_frame();
}
/// the depositors of the launched proposal get their deposits back
pub fn vc_d08_refund() {
	let n: u64 = any();
	launch_due(n);
	let p0 = props();
	assume(and(and(wf_props(&p0, u32::MAX), backed(&p0)), p0.len() > 0));
	assume(or(next_external().is_none(), pd::LastTabledWasExternal::<V>::get()));
	let q: u32 = any();
	let q = q as usize;
	assume(q < p0.len());
	assume(forall(p0.len(), |i| or(i == q, backing(p0[i].0) < backing(p0[q].0))));
	let Some((w, d)) = deposit(p0[q].0) else { return };
	let x: u64 = any();
	let (f0, h0) = (free(x), held(R_PROPOSAL, x));
	assume(and(and(h0 <= MAXB, d <= MAXB), f0 <= MAXB));
	let done = |k: usize| {
		let c = count(k, |i| w[i] == x);
		and(
			ite(m(d).mul(m(c)).le(m(h0)), m(held(R_PROPOSAL, x)).add(m(d).mul(m(c))).eq(m(h0)), held(R_PROPOSAL, x) == 0),
			m(free(x)).add(m(held(R_PROPOSAL, x))).eq(m(f0).add(m(h0))),
		)
	};
	invariant::<u64, _>(done);
	Democracy::on_initialize(n);
	cover("refunds");
	check("every depositor gets back one deposit per signature", done(w.len()));
}
/// a proposal with the highest backing is launched, also when several share it
pub fn vc_d08_highest() {
	let n: u64 = any();
	launch_due(n);
	let p0 = props();
	assume(and(wf_props(&p0, u32::MAX), backed(&p0)));
	assume(p0.len() > 0);
	assume(or(next_external().is_none(), pd::LastTabledWasExternal::<V>::get()));
	invariant::<u64, _>(|_| true);
	let q: u32 = any();
	let r: u32 = any();
	let (q, r) = (q as usize, r as usize);
	assume(and(q < p0.len(), r < p0.len()));
	let (bq, br) = (backing(p0[q].0), backing(p0[r].0));
	assume(bq < br);
	let p = p0[q].0;
	Democracy::on_initialize(n);
	cover("launches");
	check("a proposal with lower backing than another is not launched", deposit(p).is_some());
}
/// without anything waiting, or between launch blocks, nothing is launched
pub fn vc_d08_none() {
	let n: u64 = any();
	assume(and(param(2) > 0, param(2) <= u64::MAX as u128));
	assume(pd::LowestUnbaked::<V>::get() == refs());
	let due = n % (param(2) as u64) == 0;
	let p0 = props();
	assume(backed(&p0));
	let x0 = next_external();
	assume(or(!due, and(p0.len() == 0, x0.is_none())));
	let n0 = refs();
	Democracy::on_initialize(n);
	cover("nothing to launch");
	check("no referendum is started", refs() == n0);
	check("the external proposal stays", same(&x0, &next_external()));
	check("the queue is untouched", same(&p0, &props()));
	if !due {
		check("nothing else is written", frame("Democracy.LowestUnbaked"));
	} else {
		check("nothing else is written", frame("Democracy.LowestUnbaked Democracy.LastTabledWasExternal Democracy.NextExternal Democracy.PublicProps"));
	}
}

// ================================================================ D09: tallying referenda
pub fn vc_d09_tally() {
	let n: u64 = any();
	let (lo, hi) = (pd::LowestUnbaked::<V>::get(), refs());
	assume(lo <= hi);
	assume(and(param(2) > 0, param(2) <= u64::MAX as u128));
	assume(n % (param(2) as u64) != 0);
	invariant_args1::<u32, _>(move |i| and(lo <= i, i <= hi));
	by_contract("<pallet_democracy::VoteThreshold as pallet_democracy::Approved<Balance>>::approved");
	assume(!GSchedFails::get());
	assume(GIssuance::get() > 0);
	let e = GIssuance::get();
	let i: u32 = any();
	let i0 = info(i);
	let t0 = GScheduled::get(i);
	Democracy::on_initialize(n);
	let unbaked = and(lo <= i, i < hi);
	let (i1, t1) = (info(i), GScheduled::get(i));
	match i0 {
		Some(ReferendumInfo::Ongoing(s)) if s.end == n && unbaked => {
			cover("tallies");
			match i1 {
				Some(ReferendumInfo::Finished { approved, end }) => {
					check("the outcome is the one the votes give", approved == s.threshold.approved(s.tally, e));
					check("voting ended now", end == n);
					if approved {
						cover("schedules");
						match t1 {
							Some(t) => {
								check("an approved proposal is scheduled", t.call_hash == s.proposal.hash());
								check("enactment waits for the delay, one block at least", t.at == n.saturating_add(spec::max64(s.delay, 1)) && !t.after);
								check("enactment happens once, with root origin", t.root && !t.periodic);
							},
							None => check("an approved proposal is scheduled", false),
						}
					} else {
						check("a rejected proposal is not scheduled", same(&t0, &t1));
					}
				},
				_ => check("the referendum is finished", false),
			}
		},
		i0 => {
			cover("not due");
			check("a referendum that does not end now is untouched", same(&i0, &i1));
			check("nothing is scheduled for it", same(&t0, &t1));
		},
	}
	check("nothing else is written", frame("Democracy.ReferendumInfoOf Democracy.LowestUnbaked Ghost.GScheduled"));
}
/// the same when an external proposal is launched in the same block
pub fn vc_d09_launch_block() {
	let n: u64 = any();
	let (lo, hi) = (pd::LowestUnbaked::<V>::get(), refs());
	assume(and(lo <= hi, hi < u32::MAX));
	assume(and(param(2) > 0, param(2) <= u64::MAX as u128));
	assume(n % (param(2) as u64) == 0);
	assume(next_external().is_some());
	assume(!pd::LastTabledWasExternal::<V>::get());
	invariant_args1::<u32, _>(move |i| and(lo <= i, i <= hi));
	by_contract("<pallet_democracy::VoteThreshold as pallet_democracy::Approved<Balance>>::approved");
	assume(!GSchedFails::get());
	assume(GIssuance::get() > 0);
	let e = GIssuance::get();
	let i: u32 = any();
	assume(and(lo <= i, i < hi));
	let i0 = info(i);
	Democracy::on_initialize(n);
	let i1 = info(i);
	match i0 {
		Some(ReferendumInfo::Ongoing(s)) if s.end == n => {
			cover("tallies");
			match i1 {
				Some(ReferendumInfo::Finished { approved, end }) => check("tallied as in any other block", end == n && approved == s.threshold.approved(s.tally, e)),
				_ => check("tallied as in any other block", false),
			}
		},
		i0 => check("a referendum that does not end now is untouched", same(&i0, &i1)),
	}
}
/// no referendum is skipped: everything below the mark is finished or gone
pub fn vc_d09_mark() {
	let n: u64 = any();
	let (lo, hi) = (pd::LowestUnbaked::<V>::get(), refs());
	assume(lo <= hi);
	assume(and(param(2) > 0, param(2) <= u64::MAX as u128));
	assume(n % (param(2) as u64) != 0);
	assume(GIssuance::get() > 0);
	let i: u32 = any();
	by_contract("<pallet_democracy::VoteThreshold as pallet_democracy::Approved<Balance>>::approved");
	invariant_args1::<u32, _>(move |k| {
		and(and(lo <= k, k <= hi), match info(i) {
			Some(ReferendumInfo::Ongoing(_)) => or(i < lo, k <= i),
			_ => true,
		})
	});
	Democracy::on_initialize(n);
	cover("marks");
	let k = pd::LowestUnbaked::<V>::get();
	check("the mark only moves up", and(lo <= k, k <= hi));
	match info(i) {
		Some(ReferendumInfo::Ongoing(_)) => check("no ongoing referendum is skipped", or(i < lo, or(i >= hi, k <= i))),
		_ => (),
	}
}

// ================================================================ D10: external proposals
fn external(kind: u8) {
	let o: VOrigin = any();
	let call: Call = any();
	let x0 = next_external();
	let black = match pd::Blacklist::<V>::get(call.hash()) {
		Some((until, _)) => now() < until,
		None => false,
	};
	let (r, origin, thr) = match kind {
		0 => (Democracy::external_propose(o.clone(), call.clone()), O_EXTERNAL, VoteThreshold::SuperMajorityApprove),
		1 => (Democracy::external_propose_majority(o.clone(), call.clone()), O_MAJORITY, VoteThreshold::SimpleMajority),
		_ => (Democracy::external_propose_default(o.clone(), call.clone()), O_DEFAULT, VoteThreshold::SuperMajorityAgainst),
	};
	let authorised = match o {
		VOrigin::Gov(k, _) => k == origin,
		_ => false,
	};
	if kind == 0 {
		check("accepted exactly from its origin, into an empty slot, unless blacklisted", iff(r.is_ok(), and(authorised, and(x0.is_none(), !black))));
	} else {
		check("accepted exactly from its origin", iff(r.is_ok(), authorised));
	}
	if r.is_err() {
		return;
	}
	cover("proposes externally");
	check("nothing else is written", frame("Democracy.NextExternal"));
	match next_external() {
		Some((c, t)) => check("the proposal waits with the threshold of its origin", and(same(&c, &call), t == thr)),
		None => check("the proposal waits with the threshold of its origin", false),
	}
}
pub fn vc_d10_external_propose() { external(0) }
pub fn vc_d10_external_propose_majority() { external(1) }
pub fn vc_d10_external_propose_default() { external(2) }

pub fn vc_d10_veto() {
	let o: VOrigin = any();
	let h: H256 = any();
	let x0 = next_external();
	let b0 = pd::Blacklist::<V>::get(h);
	let n = match &b0 {
		Some((_, v)) => v.len(),
		None => 0,
	};
	if let Some((_, v)) = &b0 {
		assume(and(v.len() <= param(11) as usize, forall(v.len(), |i| forall(i, |j| v[j] < v[i]))));
	}
	let r = Democracy::veto_external(o.clone(), h);
	let VOrigin::Gov(O_VETO, who) = o else {
		check("only the veto origin may veto", r.is_err());
		return;
	};
	let Some((call, _)) = x0 else {
		check("there is nothing to veto", r.is_err());
		return;
	};
	let again = match &b0 {
		Some((_, v)) => exists(v.len(), |i| v[i] == who),
		None => false,
	};
	check("one veto per proposal and vetoer", iff(r.is_ok(), and(call.hash() == h, and(!again, n < param(11) as usize))));
	if r.is_err() {
		return;
	}
	cover("vetoes");
	check("the external slot is empty", next_external().is_none());
	check("its metadata is gone", meta(&MetadataOwner::External).is_none());
	check("other blacklist entries untouched", changed_only_at::<pd::Blacklist<V>, _, _>(&[h]));
	check("other metadata untouched", changed_only_at::<pd::MetadataOf<V>, _, _>(&[MetadataOwner::External]));
	check("nothing else is written", frame("Democracy.NextExternal Democracy.Blacklist Democracy.MetadataOf"));
	let Some((until, v1)) = pd::Blacklist::<V>::get(h) else {
		check("the proposal is blacklisted", false);
		return;
	};
	check("the proposal is blacklisted for the cool-off period", until == now().saturating_add(param(7) as u64));
	check("vetoers stay ordered", forall(v1.len(), |i| forall(i, |j| v1[j] < v1[i])));
	check("the vetoer is remembered", v1.len() == n + 1);
	if let Some((_, v0)) = &b0 {
		match v0.binary_search(&who) {
			Err(k) => check("the vetoer is remembered", v1[k] == who),
			Ok(_) => check("nobody vetoes twice", false),
		}
		check("earlier vetoers are remembered", forall(v0.len(), |i| ite(v0[i] < who, v0[i] == v1[i], v0[i] == v1[i + 1])));
	} else {
		check("the vetoer is remembered", v1[0] == who);
	}
}

// ================================================================ D11: fast track
/// a new referendum with the next index, terms as given and an empty tally
pub fn injected(n0: u32, end: u64, call: &Call, thr: VoteThreshold, delay: u64) {
	check("referendum indices are never reused", refs() == n0 + 1);
	check("other referenda untouched", changed_only_at::<pd::ReferendumInfoOf<V>, _, _>(&[n0]));
	match info(n0) {
		Some(ReferendumInfo::Ongoing(s)) => {
			check("voting ends as announced", s.end == end);
			check("enactment delay as announced", s.delay == delay);
			check("the referendum is on the proposal, with its threshold", and(same(&s.proposal, call), s.threshold == thr));
			check("nobody has voted yet", and(s.tally.ayes == 0, and(s.tally.nays == 0, s.tally.turnout == 0)));
		},
		_ => check("a referendum is started", false),
	}
}
pub fn vc_d11_fast_track() {
	let o: VOrigin = any();
	let h: H256 = any();
	let (period, delay): (u64, u64) = (any(), any());
	let n0 = refs();
	assume(n0 < u32::MAX);
	let x0 = next_external();
	let m0 = meta(&MetadataOwner::External);
	let m1 = meta(&MetadataOwner::Referendum(n0));
	let r = Democracy::fast_track(o.clone(), h, period, delay);
	let fast = match o {
		VOrigin::Gov(k, _) => k == O_FAST,
		_ => false,
	};
	let instant = match o {
		VOrigin::Gov(k, _) => k == O_INSTANT,
		_ => false,
	};
	let allowed = or(and(fast, period >= param(6) as u64), and(instant, param(20) != 0));
	let Some((call, thr)) = x0 else {
		check("there is nothing to fast-track", r.is_err());
		return;
	};
	check(
		"only a matching majority-carried proposal, from an origin entitled to so short a period",
		iff(r.is_ok(), and(and(allowed, period > 0), and(thr != VoteThreshold::SuperMajorityApprove, call.hash() == h))),
	);
	if r.is_err() {
		return;
	}
	cover("fast-tracks");
	injected(n0, now().saturating_add(period), &call, thr, delay);
	check("the external slot is empty", next_external().is_none());
	check("metadata moves along", and(meta(&MetadataOwner::External).is_none(), match m0 {
		Some(_) => meta(&MetadataOwner::Referendum(n0)) == m0,
		None => meta(&MetadataOwner::Referendum(n0)) == m1,
	}));
	check("other metadata untouched", changed_only_at::<pd::MetadataOf<V>, _, _>(&[MetadataOwner::External, MetadataOwner::Referendum(n0)]));
	check("nothing else is written", frame("Democracy.NextExternal Democracy.ReferendumCount Democracy.ReferendumInfoOf Democracy.MetadataOf"));
}

// ================================================================ D12: cancelling and blacklisting
pub fn vc_d12_cancel_referendum() {
	let o: VOrigin = any();
	let i: u32 = any();
	let root = match o {
		VOrigin::Root => true,
		_ => false,
	};
	let r = Democracy::cancel_referendum(o, i);
	check("only root cancels a referendum", iff(r.is_ok(), root));
	if r.is_ok() {
		cover("cancels");
		cancelled(i);
		check("nothing else is written", frame("Democracy.ReferendumInfoOf Democracy.MetadataOf"));
	}
}
fn cancelled(i: u32) {
	check("the referendum is gone", info(i).is_none());
	check("its metadata is gone", meta(&MetadataOwner::Referendum(i)).is_none());
	check("other referenda untouched", changed_only_at::<pd::ReferendumInfoOf<V>, _, _>(&[i]));
	check("other metadata untouched", changed_only_at::<pd::MetadataOf<V>, _, _>(&[MetadataOwner::Referendum(i)]));
}
pub fn vc_d12_emergency_cancel() {
	let o: VOrigin = any();
	let i: u32 = any();
	let i0 = info(i);
	let authorised = match o {
		VOrigin::Gov(k, _) => k == O_CANCEL,
		_ => false,
	};
	let Some(ReferendumInfo::Ongoing(s)) = i0 else {
		check("only an ongoing referendum can be cancelled", Democracy::emergency_cancel(o, i).is_err());
		return;
	};
	let h = s.proposal.hash();
	let before = pd::Cancellations::<V>::contains_key(h);
	let r = Democracy::emergency_cancel(o, i);
	check("a proposal can be cancelled at most once, by the cancellation origin", iff(r.is_ok(), and(authorised, !before)));
	if r.is_ok() {
		cover("cancels");
		cancelled(i);
		check("the cancellation is remembered", pd::Cancellations::<V>::contains_key(h));
		check("other cancellations untouched", changed_only_at::<pd::Cancellations<V>, _, _>(&[h]));
		check("nothing else is written", frame("Democracy.ReferendumInfoOf Democracy.MetadataOf Democracy.Cancellations"));
	}
}
pub fn vc_d12_clear_public_proposals() {
	let o: VOrigin = any();
	let root = match o {
		VOrigin::Root => true,
		_ => false,
	};
	let r = Democracy::clear_public_proposals(o);
	check("only root clears the queue", iff(r.is_ok(), root));
	if r.is_ok() {
		cover("clears");
		check("the queue is empty", props().len() == 0);
		check("nothing else is written", frame("Democracy.PublicProps"));
	}
}
/// what slashing every depositor of `d` means, seen from an arbitrary account: the loop invariant
fn slash_invariant(w: &BoundedVec<u64, MaxDeposits>, d: u128, x: u64) {
	let h0 = held(R_PROPOSAL, x);
	let leak = GLeak::get();
	invariant::<u64, _>(move |k| {
		let c = count(k, |i| w[i] == x);
		and(
			ite(m(d).mul(m(c)).le(m(h0)), m(held(R_PROPOSAL, x)).add(m(d).mul(m(c))).eq(m(h0)), held(R_PROPOSAL, x) == 0),
			GLeak::get() == leak,
		)
	});
}
pub fn vc_d12_cancel_proposal() {
	let o: VOrigin = any();
	let p: u32 = any();
	let authorised = match o {
		VOrigin::Gov(k, _) => k == O_CANCEL_PROP,
		_ => false,
	};
	let p0 = props();
	assume(wf_props(&p0, u32::MAX));
	let d0 = deposit(p);
	let x: u64 = any();
	let (f0, h0) = (free(x), held(R_PROPOSAL, x));
	assume(and(h0 <= MAXB, GSlashed::get() <= MAXB));
	if let Some((w, d)) = &d0 {
		assume(*d <= MAXB);
		slash_invariant(w, *d, x);
	}
	let leak = GLeak::get();
	let r = Democracy::cancel_proposal(o, p);
	check("only the cancel-proposal origin removes proposals", iff(r.is_ok(), authorised));
	if r.is_err() {
		return;
	}
	cover("cancels");
	let p1 = props();
	check("the proposal is no longer queued", forall(p1.len(), |i| p1[i].0 != p));
	check("the other proposals stay queued", forall(p0.len(), |i| or(p0[i].0 == p, exists(p1.len(), |j| same(&p1[j], &p0[i])))));
	check("its deposits are gone", deposit(p).is_none());
	check("its metadata is gone", meta(&MetadataOwner::Proposal(p)).is_none());
	check("other metadata untouched", changed_only_at::<pd::MetadataOf<V>, _, _>(&[MetadataOwner::Proposal(p)]));
	check("other deposits untouched", changed_only_at::<pd::DepositOf<V>, _, _>(&[p]));
	slashed(&d0, x, f0, h0, leak);
	check("nothing else is written", frame("Democracy.PublicProps Democracy.DepositOf Democracy.MetadataOf Ghost.GHeld Ghost.GLeak Ghost.GSlashed Ghost.GIssuance"));
}
fn slashed(d0: &Option<Deposit>, x: u64, f0: u128, h0: u128, leak: u128) {
	check("free balances are untouched", free(x) == f0);
	check("what the depositors lose goes to the slash handler", GLeak::get() == leak);
	match d0 {
		Some((w, d)) => {
			let c = count(w.len(), |i| w[i] == x);
			check(
				"every depositor loses one deposit per signature",
				ite(m(*d).mul(m(c)).le(m(h0)), m(held(R_PROPOSAL, x)).add(m(*d).mul(m(c))).eq(m(h0)), held(R_PROPOSAL, x) == 0),
			);
		},
		None => check("without deposits nobody is slashed", held(R_PROPOSAL, x) == h0),
	}
}
pub fn vc_d12_blacklist() {
	let o: VOrigin = any();
	let h: H256 = any();
	let ri: Option<u32> = any();
	let authorised = match o {
		VOrigin::Gov(k, _) => k == O_BLACKLIST,
		_ => false,
	};
	let p0 = props();
	assume(wf_props(&p0, u32::MAX));
	// a queued proposal with this hash is the subject of vc_d12_blacklist_queued
	assume(forall(p0.len(), |i| p0[i].1.hash() != h));
	let x0 = next_external();
	let i0 = match ri {
		Some(i) => info(i),
		None => None,
	};
	let r = Democracy::blacklist(o, h, ri);
	check("only the blacklist origin blacklists", iff(r.is_ok(), authorised));
	if r.is_err() {
		return;
	}
	cover("blacklists");
	match pd::Blacklist::<V>::get(h) {
		Some((until, _)) => check("the proposal is banned for good", until == u64::MAX),
		None => check("the proposal is banned for good", false),
	}
	check("other blacklist entries untouched", changed_only_at::<pd::Blacklist<V>, _, _>(&[h]));
	match x0 {
		Some((c, _)) if c.hash() == h => {
			check("the external proposal is withdrawn", next_external().is_none());
			check("its metadata is gone", meta(&MetadataOwner::External).is_none());
		},
		_ => check("another external proposal stays", same(&x0, &next_external())),
	}
	if let Some(i) = ri {
		check("other referenda untouched", changed_only_at::<pd::ReferendumInfoOf<V>, _, _>(&[i]));
		match &i0 {
			Some(ReferendumInfo::Ongoing(s)) if s.proposal.hash() == h => check("the ongoing referendum is cancelled", info(i).is_none()),
			_ => check("other referenda are not cancelled", same(&i0, &info(i))),
		}
	} else {
		check("no referendum is touched unless named", changed_only_at::<pd::ReferendumInfoOf<V>, u32, _>(&[]));
	}
	check("the queue is untouched", same(&p0, &props()));
	check("nothing else is written", frame("Democracy.PublicProps Democracy.MetadataOf Democracy.Blacklist Democracy.NextExternal Democracy.ReferendumInfoOf"));
}
/// blacklisting a queued proposal: the first queued proposal with that hash is removed and its depositors slashed
pub fn vc_d12_blacklist_queued() {
	let h: H256 = any();
	let p0 = props();
	assume(wf_props(&p0, u32::MAX));
	let w: u32 = any();
	let q = w as usize;
	assume(q < p0.len());
	assume(and(p0[q].1.hash() == h, forall(q, |i| p0[i].1.hash() != h)));
	let p = p0[q].0;
	let d0 = deposit(p);
	let x: u64 = any();
	let (f0, h0) = (free(x), held(R_PROPOSAL, x));
	assume(and(h0 <= MAXB, GSlashed::get() <= MAXB));
	if let Some((w, d)) = &d0 {
		assume(*d <= MAXB);
		slash_invariant(w, *d, x);
	}
	let leak = GLeak::get();
	let r = Democracy::blacklist(VOrigin::Gov(O_BLACKLIST, 0), h, any());
	check("accepted", r.is_ok());
	cover("blacklists a queued proposal");
	let p1 = props();
	check("exactly this proposal leaves the queue", and(p1.len() + 1 == p0.len(), forall(p1.len(), |i| ite(i < q, same(&p1[i], &p0[i]), same(&p1[i], &p0[i + 1])))));
	check("its deposits are gone", deposit(p).is_none());
	check("other deposits untouched", changed_only_at::<pd::DepositOf<V>, _, _>(&[p]));
	check("its metadata is gone", meta(&MetadataOwner::Proposal(p)).is_none());
	slashed(&d0, x, f0, h0, leak);
}

// ================================================================ D13: origins
fn not_signed(o: &VOrigin) {
	assume(match o {
		VOrigin::Signed(_) => false,
		_ => true,
	});
}
pub fn vc_d13_signed_only() {
	let o: VOrigin = any();
	not_signed(&o);
	let k: u8 = any();
	let (a, i, to): (u64, u32, u64) = (any(), any(), any());
	let r = match k {
		0 => Democracy::second(o, i),
		1 => Democracy::vote(o, i, any()),
		2 => Democracy::remove_vote(o, i),
		3 => Democracy::remove_other_vote(o, a, i),
		4 => Democracy::unlock(o, a),
		5 => Democracy::delegate(o, to, any(), any()).map(|_| ()).map_err(|e| e.error),
		_ => Democracy::undelegate(o).map(|_| ()).map_err(|e| e.error),
	};
	check("voting, delegating, seconding and unlocking need a signature", r.is_err());
	cover("refused");
}

// ================================================================ D14: metadata
pub fn vc_d14_set_metadata() {
	let o: VOrigin = any();
	let owner: MetadataOwner = any();
	let hash: Option<H256> = any();
	let x0 = next_external();
	let p0 = props();
	assume(wf_props(&p0, u32::MAX));
	let m0 = meta(&owner);
	let (signer, root) = match o {
		VOrigin::Signed(w) => (Some(w), false),
		VOrigin::Root => (None, true),
		_ => (None, false),
	};
	let gov = match o {
		VOrigin::Gov(k, _) => Some(k),
		_ => None,
	};
	let entitled = match &owner {
		MetadataOwner::External => match (x0, gov) {
			(Some((_, VoteThreshold::SuperMajorityApprove)), Some(k)) => k == O_EXTERNAL,
			(Some((_, VoteThreshold::SuperMajorityAgainst)), Some(k)) => k == O_DEFAULT,
			(Some((_, VoteThreshold::SimpleMajority)), Some(k)) => k == O_MAJORITY,
			_ => false,
		},
		MetadataOwner::Proposal(i) => match signer {
			Some(w) => exists(p0.len(), |j| and(p0[j].0 == *i, p0[j].2 == w)),
			None => false,
		},
		MetadataOwner::Referendum(i) => match info(*i) {
			Some(ReferendumInfo::Ongoing(_)) => root,
			_ => or(root, and(signer.is_some(), hash.is_none())),
		},
	};
	let stored = match &hash {
		Some(h) => GPreimageLen::get(h).is_some(),
		None => true,
	};
	let r = Democracy::set_metadata(o, owner.clone(), hash);
	check("metadata is set or cleared exactly by those entitled, to a stored preimage", iff(r.is_ok(), and(entitled, stored)));
	if r.is_err() {
		return;
	}
	cover("metadata");
	check("the metadata is as asked", meta(&owner) == hash);
	check("other metadata untouched", changed_only_at::<pd::MetadataOf<V>, _, _>(&[owner]));
	check("nothing else is written", frame("Democracy.MetadataOf"));
}
