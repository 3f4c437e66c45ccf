//! Contracts of pallet-democracy.
use crate::{*, ghost::*, rt::*};
use frame_support::{traits::Bounded, BoundedVec};
use pallet_democracy::{AccountVote, Conviction, Delegations, ReferendumInfo, ReferendumStatus, Tally, Vote, Voting};
use pallet_democracy as pd;

pub type Call = Bounded<VCall, BlakeTwo256>;
pub type RInfo = ReferendumInfo<u64, Call, u128>;
pub type RStatus = ReferendumStatus<u64, Call, u128>;
pub type Vot = Voting<u128, u64, u64, MaxVotes>;
pub type VList = BoundedVec<(u32, AccountVote<u128>), MaxVotes>;
pub const MAXB: u128 = 1 << 120;

pub fn info(i: u32) -> Option<RInfo> { pd::ReferendumInfoOf::<V>::get(i) }
pub fn voting(w: u64) -> Vot { pd::VotingOf::<V>::get(w) }

/// representation invariant of a direct voter's list: strictly ordered by referendum, within the bound
pub fn sorted(v: &VList) -> bool {
	let n = v.len();
	forall(n, |i| forall(i, |j| v[j].0 < v[i].0))
}
pub fn wf(v: &Vot) -> bool {
	match v {
		Voting::Direct { votes, .. } => and(votes.len() <= param(8) as usize, sorted(votes)),
		_ => true,
	}
}

/// vote(): backed by own balance, replaces exactly this voter's previous contribution, nothing else changes.
pub fn vc_d01_vote() {
	let who: u64 = any();
	let idx: u32 = any();
	let v: AccountVote<u128> = any();
	let s0 = info(idx);
	let v0 = voting(who);
	assume(wf(&v0));
	let f0 = frozen(F_VOTE, who);
	let t0 = total(who);
	assume(t0 <= MAXB);
	let r = Democracy::vote(VOrigin::Signed(who), idx, v);
	if r.is_err() {
		return;
	}
	cover("vote succeeds");
	check("a vote is backed by the voter's total balance", spec::bal(v) <= t0);
	check("the committed balance is frozen", frozen(F_VOTE, who) == spec::max(f0, spec::bal(v)));
	let v1 = voting(who);
	check("other referenda untouched", changed_only_at::<pd::ReferendumInfoOf<V>, _, _>(&[idx]));
	check("other accounts' votes untouched", changed_only_at::<pd::VotingOf<V>, _, _>(&[who]));
	check("other accounts' freezes untouched", changed_only_at::<GFrozen, _, _>(&[(F_VOTE, who)]));
	check("nothing else is written", frame("Democracy.ReferendumInfoOf Democracy.VotingOf Ghost.GFrozen"));
	let (Some(ReferendumInfo::Ongoing(s0)), Some(ReferendumInfo::Ongoing(s1))) = (s0, info(idx)) else {
		check("only an ongoing referendum can be voted on, and it stays ongoing", false);
		return;
	};
	let (Voting::Direct { votes: l0, delegations: d0, prior: p0 }, Voting::Direct { votes: l1, delegations: d1, prior: p1 }) = (v0, v1) else {
		check("only a direct voter can vote", false);
		return;
	};
	check("referendum terms unchanged", s1.end == s0.end && s1.delay == s0.delay && s1.threshold == s0.threshold && same(&s1.proposal, &s0.proposal));
	check("delegations and prior lock unchanged", and(same(&d0, &d1), same(&p0, &p1)));
	check("the vote list stays ordered and bounded", and(l1.len() <= param(8) as usize, sorted(&l1)));
	let pos = l1.binary_search_by_key(&idx, |x| x.0);
	let Ok(pos) = pos else {
		check("the vote is recorded", false);
		return;
	};
	check("the vote is recorded", same(&l1[pos].1, &v));
	assume(and(and(s0.tally.ayes <= MAXB, s0.tally.nays <= MAXB), s0.tally.turnout <= MAXB));
	assume(and(d0.votes <= MAXB, d0.capital <= MAXB));
	let (na, nn, nt) = spec::weight(v, d0.votes, d0.capital);
	match l0.binary_search_by_key(&idx, |x| x.0) {
		Ok(q) => {
			cover("replaces an earlier vote");
			check("no other vote of the account changes", and(l1.len() == l0.len(), forall(l0.len(), |i| or(l0[i].0 == idx, same(&l0[i], &l1[i])))));
			let (oa, on, ot) = spec::weight(l0[q].1, d0.votes, d0.capital);
			assume(and(and(oa <= s0.tally.ayes, on <= s0.tally.nays), ot <= s0.tally.turnout));
			check("ayes", m(s1.tally.ayes).add(m(oa)).eq(m(s0.tally.ayes).add(m(na))));
			check("nays", m(s1.tally.nays).add(m(on)).eq(m(s0.tally.nays).add(m(nn))));
			check("turnout", m(s1.tally.turnout).add(m(ot)).eq(m(s0.tally.turnout).add(m(nt))));
		},
		Err(q) => {
			cover("a new vote");
			check("no other vote of the account changes", and(l1.len() == l0.len() + 1, forall(l0.len(), |i| ite(l0[i].0 < idx, same(&l0[i], &l1[i]), same(&l0[i], &l1[i + 1])))));
			check("ayes", m(s1.tally.ayes).eq(m(s0.tally.ayes).add(m(na))));
			check("nays", m(s1.tally.nays).eq(m(s0.tally.nays).add(m(nn))));
			check("turnout", m(s1.tally.turnout).eq(m(s0.tally.turnout).add(m(nt))));
		},
	}
}

pub fn now() -> u64 { System::block_number() }
/// (until, amount) of a prior lock
pub fn prior<T: parity_scale_codec::Encode>(p: &T) -> (u64, u128) { view(p) }
pub fn tally_of(i: &Option<RInfo>) -> (u128, u128, u128) {
	match i {
		Some(ReferendumInfo::Ongoing(s)) => (s.tally.ayes, s.tally.nays, s.tally.turnout),
		_ => (0, 0, 0),
	}
}

// ================================================================ D02: removing a vote
fn removal(target: u64, idx: u32, own: bool, call: impl FnOnce() -> bool) {
	let s0 = info(idx);
	let v0 = voting(target);
	assume(wf(&v0));
	let ok = call();
	let v1 = voting(target);
	let s1 = info(idx);
	if let (Voting::Direct { votes: l0, delegations: d0, .. }, Some(ReferendumInfo::Ongoing(s))) = (&v0, &s0) {
		if let Ok(q) = l0.binary_search_by_key(&idx, |x| x.0) {
			let (oa, on, ot) = spec::weight(l0[q].1, d0.votes, d0.capital);
			assume(and(d0.votes <= MAXB, d0.capital <= MAXB));
			assume(spec::bal(l0[q].1) <= MAXB);
			assume(and(and(oa <= s.tally.ayes, on <= s.tally.nays), ot <= s.tally.turnout));
			check("a vote on an ongoing referendum can always be taken back by its owner, and only by its owner", iff(ok, own));
		}
	}
	if !ok {
		return;
	}
	cover("a vote is removed");
	check("other referenda untouched", changed_only_at::<pd::ReferendumInfoOf<V>, _, _>(&[idx]));
	check("other accounts' votes untouched", changed_only_at::<pd::VotingOf<V>, _, _>(&[target]));
	check("nothing else is written", frame("Democracy.ReferendumInfoOf Democracy.VotingOf"));
	let (Voting::Direct { votes: l0, delegations: d0, prior: p0 }, Voting::Direct { votes: l1, delegations: d1, prior: p1 }) = (&v0, &v1) else {
		check("a delegating account is left alone", and(same(&v0, &v1), same(&s0, &s1)));
		return;
	};
	let Ok(q) = l0.binary_search_by_key(&idx, |x| x.0) else {
		check("only an existing vote can be removed", false);
		return;
	};
	let old = l0[q].1;
	check("exactly this vote disappears", and(l1.len() + 1 == l0.len(), forall(l1.len(), |i| ite(l0[i].0 < idx, same(&l0[i], &l1[i]), same(&l0[i + 1], &l1[i])))));
	check("the vote list stays ordered", sorted(l1));
	check("delegations to the voter unchanged", same(d0, d1));
	let (pu, pa) = prior(p0);
	match (&s0, &s1) {
		(Some(ReferendumInfo::Ongoing(s0)), Some(ReferendumInfo::Ongoing(s1))) => {
			cover("removed while the referendum is ongoing");
			let (oa, on, ot) = spec::weight(old, d0.votes, d0.capital);
			check("ayes", m(s1.tally.ayes).add(m(oa)).eq(m(s0.tally.ayes)));
			check("nays", m(s1.tally.nays).add(m(on)).eq(m(s0.tally.nays)));
			check("turnout", m(s1.tally.turnout).add(m(ot)).eq(m(s0.tally.turnout)));
			check("referendum terms unchanged", and(and(s1.end == s0.end, s1.delay == s0.delay), and(s1.threshold == s0.threshold, same(&s1.proposal, &s0.proposal))));
			check("no lock arises from an undecided vote", same(p0, p1));
		},
		(Some(ReferendumInfo::Finished { end, approved }), Some(ReferendumInfo::Finished { end: e1, approved: a1 })) => {
			check("the outcome is unchanged", end == e1 && approved == a1);
			if let AccountVote::Standard { vote, balance } = old {
				let until = spec::unlock_at(*end, param(4) as u64, vote.conviction);
				if vote.aye == *approved && now() < until {
					cover("removed while still locked");
					check("a winning vote is not removed by others before its lock expires", own);
					let (qu, qa) = prior(p1);
					check("the lock of a winning vote survives its removal", and(qu == spec::max64(pu, until), qa == spec::max(pa, balance)));
					return;
				}
			}
			check("no lock arises from a losing, split or expired vote", same(p0, p1));
		},
		(None, None) => check("no lock arises from a cancelled referendum", same(p0, p1)),
		_ => check("the referendum's state is unchanged", false),
	}
}
pub fn vc_d02_remove_vote() {
	let who: u64 = any();
	let idx: u32 = any();
	removal(who, idx, true, || Democracy::remove_vote(VOrigin::Signed(who), idx).is_ok());
}
pub fn vc_d02_remove_other_vote() {
	let who: u64 = any();
	let target: u64 = any();
	let idx: u32 = any();
	removal(target, idx, who == target, || Democracy::remove_other_vote(VOrigin::Signed(who), target, idx).is_ok());
}

// ================================================================ D03: conviction
pub fn vc_d03_conviction() {
	let c: Conviction = any();
	let cap: u128 = any();
	let d = c.votes(cap);
	check("votes are capital times conviction, a tenth without conviction", d.votes == spec::votes(c, cap));
	check("the capital behind a vote is the capital itself", d.capital == cap);
	check("lock periods double with each conviction step", c.lock_periods() as u64 == spec::periods(c));
	cover("conviction");
}
pub fn vc_d03_locked_if() {
	let v: AccountVote<u128> = any();
	let approved: bool = any();
	check("balance of a vote", v.balance() == spec::bal(v));
	let l = v.locked_if(approved);
	match v {
		AccountVote::Standard { vote, balance } if vote.aye == approved => {
			cover("winning side");
			check("the winning side is locked for its conviction", match l {
				Some((p, b)) => p as u64 == spec::periods(vote.conviction) && b == balance,
				None => false,
			});
		},
		_ => check("losing and split votes are not locked", l.is_none()),
	}
}
pub fn vc_d03_vote_codec() {
	use parity_scale_codec::{Decode, Encode};
	let aye: bool = any();
	let c: Conviction = any();
	let v = Vote { aye, conviction: c };
	let b = v.encode();
	check("a vote is one byte", b.len() == 1);
	check("the byte is conviction plus the aye bit", b[0] == u8::from(c) + if aye { 128 } else { 0 });
	let w = Vote::decode(&mut &b[..]);
	check("decoding inverts encoding", match w {
		Ok(w) => w.aye == aye && w.conviction == c,
		Err(_) => false,
	});
	cover("codec");
}
pub fn vc_d03_vote_decode() {
	use parity_scale_codec::{Decode, Encode};
	let b: u8 = any();
	let w = Vote::decode(&mut &[b][..]);
	match w {
		Ok(w) => {
			cover("decodes");
			check("only valid bytes decode, to the vote they stand for", u8::from(w.conviction) + (if w.aye { 128 } else { 0 }) == b);
		},
		Err(_) => check("valid bytes decode", b % 128 > 6),
	}
}

// ================================================================ D04: approval
/// comparing two fractions by Euclid's algorithm keeps the comparison
fn compare_invariant(n1: u128, d1: u128, n2: u128, d2: u128) {
	invariant_args4::<u128, _>(move |a, b, c, d| and(and(b > 0, d > 0), iff(m(a).mul(m(d)).lt(m(c).mul(m(b))), m(n1).mul(m(d2)).lt(m(n2).mul(m(d1))))));
}
pub fn vc_d04_super_majority_approve() {
	use pallet_democracy::{Approved, VoteThreshold};
	let (ayes, nays, turnout, electorate): (u128, u128, u128, u128) = (any(), any(), any(), any());
	assume(and(and(ayes <= MAXB, nays <= MAXB), and(turnout <= MAXB, electorate <= MAXB)));
	assume(electorate > 0);
	let t = Tally { ayes, nays, turnout };
	let (sv, se) = (isqrt(turnout), isqrt(electorate));
	compare_invariant(nays, sv, ayes, se);
	let r = VoteThreshold::SuperMajorityApprove.approved(t, electorate);
	check("nobody turned out: not approved", or(sv > 0, !r));
	if sv > 0 {
		cover("turnout");
		check("nays/sqrt(turnout) < ayes/sqrt(electorate)", iff(r, m(nays).mul(m(se)).lt(m(ayes).mul(m(sv)))));
	}
}
pub fn vc_d04_super_majority_against() {
	use pallet_democracy::{Approved, VoteThreshold};
	let (ayes, nays, turnout, electorate): (u128, u128, u128, u128) = (any(), any(), any(), any());
	assume(and(and(ayes <= MAXB, nays <= MAXB), and(turnout <= MAXB, electorate <= MAXB)));
	assume(electorate > 0);
	let t = Tally { ayes, nays, turnout };
	let (sv, se) = (isqrt(turnout), isqrt(electorate));
	compare_invariant(nays, se, ayes, sv);
	let r = VoteThreshold::SuperMajorityAgainst.approved(t, electorate);
	check("nobody turned out: not approved", or(sv > 0, !r));
	if sv > 0 {
		cover("turnout");
		check("nays/sqrt(electorate) < ayes/sqrt(turnout)", iff(r, m(nays).mul(m(sv)).lt(m(ayes).mul(m(se)))));
	}
}
pub fn vc_d04_simple_majority() {
	use pallet_democracy::{Approved, VoteThreshold};
	let (ayes, nays, turnout, electorate): (u128, u128, u128, u128) = (any(), any(), any(), any());
	let t = Tally { ayes, nays, turnout };
	let r = VoteThreshold::SimpleMajority.approved(t, electorate);
	cover("decided");
	check("more ayes than nays, with some turnout", iff(r, and(ayes > nays, isqrt(turnout) > 0)));
}

// ================================================================ D05: delegation
fn upstream(j: u32, t: &Vot) -> Option<bool> {
	// does this voter have a standard vote on j, and on which side
	if let Voting::Direct { votes, .. } = t {
		if let Ok(p) = votes.binary_search_by_key(&j, |x| x.0) {
			if let AccountVote::Standard { vote, .. } = votes[p].1 {
				return Some(vote.aye);
			}
		}
	}
	None
}
fn deleg_of(t: &Vot) -> (u128, u128) {
	match t {
		Voting::Direct { delegations, .. } => (delegations.votes, delegations.capital),
		Voting::Delegating { delegations, .. } => (delegations.votes, delegations.capital),
	}
}
/// everything but the delegations received
fn same_but_deleg(a: &Vot, b: &Vot) -> bool {
	match (a, b) {
		(Voting::Direct { votes: l0, prior: p0, .. }, Voting::Direct { votes: l1, prior: p1, .. }) => and(same(l0, l1), same(p0, p1)),
		(
			Voting::Delegating { balance: b0, target: t0, conviction: c0, prior: p0, .. },
			Voting::Delegating { balance: b1, target: t1, conviction: c1, prior: p1, .. },
		) => and(and(b0 == b1, t0 == t1), and(same(c0, c1), same(p0, p1))),
		_ => false,
	}
}
/// tally of referendum j moved by exactly `sub` (taken away) and `add`, each on the side given (None: not at all)
fn tally_moved(i0: &Option<RInfo>, i1: &Option<RInfo>, sub: (Option<bool>, u128, u128), add: (Option<bool>, u128, u128)) -> bool {
	match (i0, i1) {
		(Some(ReferendumInfo::Ongoing(s0)), Some(ReferendumInfo::Ongoing(s1))) => {
			let terms = and(and(s1.end == s0.end, s1.delay == s0.delay), and(s1.threshold == s0.threshold, same(&s1.proposal, &s0.proposal)));
			let side = |x: (Option<bool>, u128, u128)| match x.0 {
				Some(true) => (x.1, 0, x.2),
				Some(false) => (0, x.1, x.2),
				None => (0, 0, 0),
			};
			let (sa, sn, st) = side(sub);
			let (aa, an, at) = side(add);
			and(
				terms,
				and(
					m(s1.tally.ayes).add(m(sa)).eq(m(s0.tally.ayes).add(m(aa))),
					and(m(s1.tally.nays).add(m(sn)).eq(m(s0.tally.nays).add(m(an))), m(s1.tally.turnout).add(m(st)).eq(m(s0.tally.turnout).add(m(at)))),
				),
			)
		},
		(Some(ReferendumInfo::Finished { .. }), Some(ReferendumInfo::Finished { .. })) => same(i0, i1),
		(None, None) => true,
		_ => false,
	}
}
fn bounded_tally(i: &Option<RInfo>) {
	let (a, n, t) = tally_of(i);
	assume(and(and(a <= MAXB, n <= MAXB), t <= MAXB));
}
/// the tally contains at least the delegated amount being taken away
fn contains(i: &Option<RInfo>, side: Option<bool>, v: u128, c: u128) {
	if let (Some(ReferendumInfo::Ongoing(s)), Some(aye)) = (i, side) {
		assume(and(ite_u128(aye, s.tally.ayes, s.tally.nays) >= v, s.tally.turnout >= c));
	}
}
/// first delegation of an account
pub fn vc_d05_delegate() {
	let (who, to): (u64, u64) = (any(), any());
	let c: Conviction = any();
	let bal: u128 = any();
	let v0 = voting(who);
	if let Voting::Delegating { .. } = v0 {
		return;
	}
	let t0 = voting(to);
	assume(wf(&v0));
	assume(wf(&t0));
	let j: u32 = any();
	let i0 = info(j);
	bounded_tally(&i0);
	let f0 = frozen(F_VOTE, who);
	let tb = total(who);
	assume(tb <= MAXB);
	let (dv, dc) = deleg_of(&t0);
	assume(and(dv <= MAXB, dc <= MAXB));
	let r = Democracy::delegate(VOrigin::Signed(who), to, c, bal);
	if r.is_err() {
		return;
	}
	cover("delegates");
	check("nobody delegates to themselves", who != to);
	check("the delegated balance is backed", bal <= tb);
	check("the delegated balance is frozen", frozen(F_VOTE, who) == spec::max(f0, bal));
	check("other accounts' freezes untouched", changed_only_at::<GFrozen, _, _>(&[(F_VOTE, who)]));
	check("only the delegator and the delegate change", changed_only_at::<pd::VotingOf<V>, _, _>(&[who, to]));
	check("nothing else is written", frame("Democracy.ReferendumInfoOf Democracy.VotingOf Ghost.GFrozen"));
	if who == to {
		return;
	}
	let (av, ac) = spec::deleg(c, bal);
	let (Voting::Direct { votes: l0, delegations: d0, prior: p0 }, Voting::Delegating { balance, target, conviction, delegations: d1, prior: p1 }) = (&v0, &voting(who)) else {
		check("the account is delegating now", false);
		return;
	};
	check("an account with votes cannot delegate", l0.len() == 0);
	check("the delegation is recorded as asked", *balance == bal && *target == to && *conviction == c);
	check("delegations to and prior lock of the delegator kept", and(same(d0, d1), same(p0, p1)));
	let t1 = voting(to);
	let (ev, ec) = deleg_of(&t1);
	check("the delegate gains the delegated votes", and(m(ev).eq(m(dv).add(m(av))), m(ec).eq(m(dc).add(m(ac)))));
	check("the delegate's own votes and locks are untouched", same_but_deleg(&t0, &t1));
	check("delegated votes follow the delegate's standard votes", tally_moved(&i0, &info(j), (None, 0, 0), (upstream(j, &t0), av, ac)));
}
/// changing an existing delegation; `part` 0: everything but tallies, otherwise one case of who voted on referendum j
fn redelegate(same_target: bool, part: u8) {
	let who: u64 = any();
	let c: Conviction = any();
	let bal: u128 = any();
	let v0 = voting(who);
	let Voting::Delegating { balance: ob, target: ot, conviction: oc, delegations: d0, prior: p0 } = v0 else { return };
	let to: u64 = if same_target { ot } else { any() };
	assume(and(ot != who, ob <= MAXB));
	if !same_target {
		assume(to != ot);
	}
	assume(to != who);
	let t0 = voting(to);
	let o0 = voting(ot);
	assume(wf(&t0));
	assume(wf(&o0));
	let f0 = frozen(F_VOTE, who);
	let tb = total(who);
	assume(tb <= MAXB);
	let (dv, dc) = deleg_of(&t0);
	let (odv, odc) = deleg_of(&o0);
	assume(and(and(dv <= MAXB, dc <= MAXB), and(odv <= MAXB, odc <= MAXB)));
	let (ov, ocap) = spec::deleg(oc, ob);
	assume(and(ov <= odv, ocap <= odc));
	let (av, ac) = spec::deleg(c, bal);
	if part > 0 {
		let j: u32 = any();
		let i0 = info(j);
		bounded_tally(&i0);
		let side0 = upstream(j, &o0);
		let side1 = upstream(j, &t0);
		if part == 1 {
			assume(side1.is_none());
		} else if part == 2 {
			assume(side0.is_none());
			assume(side1.is_some());
		} else if part == 3 {
			assume(side0.is_some());
			assume(side1.is_some());
		}
		contains(&i0, side0, ov, ocap);
		if Democracy::delegate(VOrigin::Signed(who), to, c, bal).is_err() {
			return;
		}
		cover("redelegates");
		check("delegated votes follow the delegates' standard votes", tally_moved(&i0, &info(j), (side0, ov, ocap), (side1, av, ac)));
		return;
	}
	if Democracy::delegate(VOrigin::Signed(who), to, c, bal).is_err() {
		return;
	}
	cover("redelegates");
	check("the delegated balance is backed", bal <= tb);
	check("the delegated balance is frozen", frozen(F_VOTE, who) == spec::max(f0, bal));
	check("only the delegator and the delegates change", changed_only_at::<pd::VotingOf<V>, _, _>(&[who, to, ot]));
	check("nothing else is written", frame("Democracy.ReferendumInfoOf Democracy.VotingOf Ghost.GFrozen"));
	let Voting::Delegating { balance, target, conviction, delegations: d1, prior: p1 } = voting(who) else {
		check("the account is delegating now", false);
		return;
	};
	check("the delegation is recorded as asked", balance == bal && target == to && conviction == c);
	check("delegations to the delegator kept", same(&d0, &d1));
	let (pu, pa) = prior(&p0);
	let (qu, qa) = prior(&p1);
	let until = spec::unlock_at(now(), param(4) as u64, oc);
	check("the former delegation stays locked for its conviction", and(qu == spec::max64(pu, until), qa == spec::max(pa, ob)));
	let t1 = voting(to);
	let o1 = voting(ot);
	let (ev, ec) = deleg_of(&t1);
	let (fv, fc) = deleg_of(&o1);
	if same_target {
		check("the delegate's delegations are replaced", and(m(ev).add(m(ov)).eq(m(dv).add(m(av))), m(ec).add(m(ocap)).eq(m(dc).add(m(ac)))));
	} else {
		check("the new delegate gains the delegated votes", and(m(ev).eq(m(dv).add(m(av))), m(ec).eq(m(dc).add(m(ac)))));
		check("the former delegate loses the delegated votes", and(m(fv).add(m(ov)).eq(m(odv)), m(fc).add(m(ocap)).eq(m(odc))));
	}
	check("the delegates' own votes and locks are untouched", and(same_but_deleg(&t0, &t1), same_but_deleg(&o0, &o1)));
}
pub fn vc_d05_redelegate_same() { redelegate(true, 0) }
pub fn vc_d05_redelegate_same_tally() { redelegate(true, 4) }
pub fn vc_d05_redelegate_move() { redelegate(false, 0) }
pub fn vc_d05_redelegate_move_tally_from() { redelegate(false, 1) }
pub fn vc_d05_redelegate_move_tally_to() { redelegate(false, 2) }
pub fn vc_d05_redelegate_move_tally_both() { redelegate(false, 3) }
pub fn vc_d05_not_to_oneself() {
	let who: u64 = any();
	check("nobody delegates to themselves", Democracy::delegate(VOrigin::Signed(who), who, any(), any()).is_err());
	cover("refused");
}
pub fn vc_d05_undelegate() {
	let who: u64 = any();
	let v0 = voting(who);
	let Voting::Delegating { balance: ob, target: ot, conviction: oc, delegations: d0, prior: p0 } = v0 else {
		let r = Democracy::undelegate(VOrigin::Signed(who));
		check("only a delegating account can undelegate", r.is_err());
		return;
	};
	assume(and(ot != who, ob <= MAXB));
	let o0 = voting(ot);
	assume(wf(&o0));
	let j: u32 = any();
	let i0 = info(j);
	bounded_tally(&i0);
	let (odv, odc) = deleg_of(&o0);
	assume(and(odv <= MAXB, odc <= MAXB));
	let (ov, ocap) = spec::deleg(oc, ob);
	assume(and(ov <= odv, ocap <= odc));
	let side0 = upstream(j, &o0);
	contains(&i0, side0, ov, ocap);
	let r = Democracy::undelegate(VOrigin::Signed(who));
	check("a delegation can always be taken back", r.is_ok());
	if r.is_err() {
		return;
	}
	cover("undelegates");
	check("only the delegator and the delegate change", changed_only_at::<pd::VotingOf<V>, _, _>(&[who, ot]));
	check("the freeze is not lifted", frame("Democracy.ReferendumInfoOf Democracy.VotingOf"));
	let Voting::Direct { votes: l1, delegations: d1, prior: p1 } = voting(who) else {
		check("the account votes directly now", false);
		return;
	};
	check("the account starts without votes", l1.len() == 0);
	check("delegations to the delegator kept", same(&d0, &d1));
	let (pu, pa) = prior(&p0);
	let (qu, qa) = prior(&p1);
	let until = spec::unlock_at(now(), param(4) as u64, oc);
	check("the former delegation stays locked for its conviction", and(qu == spec::max64(pu, until), qa == spec::max(pa, ob)));
	let o1 = voting(ot);
	let (fv, fc) = deleg_of(&o1);
	check("the former delegate loses the delegated votes", and(m(fv).add(m(ov)).eq(m(odv)), m(fc).add(m(ocap)).eq(m(odc))));
	check("the delegate's own votes and locks are untouched", same_but_deleg(&o0, &o1));
	check("delegated votes leave with the delegation", tally_moved(&i0, &info(j), (side0, ov, ocap), (None, 0, 0)));
}

// ================================================================ D06: unlocking
pub fn vc_d06_unlock() {
	let (who, target): (u64, u64) = (any(), any());
	let v0 = voting(target);
	assume(and(wf(&v0), !GNoFreeze::get()));
	let n = now();
	if let Voting::Direct { votes, prior: p, .. } = &v0 {
		let (pu, pa) = prior(p);
		let a0 = ite_u128(n >= pu, 0, pa);
		invariant_acc::<(u32, AccountVote<u128>), u128, _>(|k, a| and(and(a0 <= a, forall(k, |i| spec::bal(votes[i].1) <= a)), or(a == a0, exists(k, |i| spec::bal(votes[i].1) == a))));
	}
	let r = Democracy::unlock(VOrigin::Signed(who), target);
	check("anyone may have an account's expired locks lifted", r.is_ok());
	if r.is_err() {
		return;
	}
	cover("unlocks");
	let v1 = voting(target);
	check("other accounts' votes untouched", changed_only_at::<pd::VotingOf<V>, _, _>(&[target]));
	check("other accounts' freezes untouched", changed_only_at::<GFrozen, _, _>(&[(F_VOTE, target)]));
	check("nothing else is written", frame("Democracy.VotingOf Ghost.GFrozen"));
	let f1 = frozen(F_VOTE, target);
	let keep = |p: (u64, u128)| if n >= p.0 { (0, 0) } else { p };
	match (&v0, &v1) {
		(Voting::Direct { votes: l0, delegations: d0, prior: p0 }, Voting::Direct { votes: l1, delegations: d1, prior: p1 }) => {
			cover("direct voter");
			let q = keep(prior(p0));
			check("votes and delegations unchanged", and(same(l0, l1), same(d0, d1)));
			check("a prior lock lapses exactly when its time has come", prior(p1) == q);
			check("every standing vote stays covered by the freeze", forall(l0.len(), |i| spec::bal(l0[i].1) <= f1));
			check("an unexpired prior lock stays covered by the freeze", q.1 <= f1);
			check("nothing more than that stays frozen", or(f1 == q.1, exists(l0.len(), |i| spec::bal(l0[i].1) == f1)));
		},
		(Voting::Delegating { balance, prior: p0, .. }, Voting::Delegating { prior: p1, .. }) => {
			cover("delegator");
			let q = keep(prior(p0));
			check("a prior lock lapses exactly when its time has come", prior(p1) == q);
			check("exactly the delegated balance and an unexpired prior lock stay frozen", f1 == spec::max(*balance, q.1));
			match (&v0, &v1) {
				(Voting::Delegating { balance: b0, target: t0, conviction: c0, delegations: d0, .. }, Voting::Delegating { balance: b1, target: t1, conviction: c1, delegations: d1, .. }) =>
					check("the delegation is unchanged", and(and(b0 == b1, t0 == t1), and(same(c0, c1), same(d0, d1)))),
				_ => (),
			}
		},
		_ => check("the kind of voter is unchanged", false),
	}
}
