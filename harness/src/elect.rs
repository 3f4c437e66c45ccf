//! Contracts of pallet-elections-phragmen.
use crate::{*, dem::MAXB, ghost::*, rt::*};
use pallet_elections_phragmen as pe;
use pallet_elections_phragmen::{Renouncing, SeatHolder, Voter};

pub type Seat = SeatHolder<u64, u128>;
pub fn members() -> Vec<Seat> { pe::Members::<V>::get() }
pub fn runners() -> Vec<Seat> { pe::RunnersUp::<V>::get() }
pub fn candidates() -> Vec<(u64, u128)> { pe::Candidates::<V>::get() }
pub fn voter(x: u64) -> Voter<u64, u128, u64> { pe::Voting::<V>::get(x) }

pub fn signer(o: &VOrigin) -> Option<u64> {
	match o {
		VOrigin::Signed(w) => Some(*w),
		_ => None,
	}
}
/// seats ordered by account, each account once
pub fn sorted_seats(s: &Vec<Seat>) -> bool { forall(s.len(), |i| forall(i, |j| s[j].who < s[i].who)) }
pub fn sorted_cands(s: &Vec<(u64, u128)>) -> bool { forall(s.len(), |i| forall(i, |j| s[j].0 < s[i].0)) }
pub fn distinct_seats(s: &Vec<Seat>) -> bool { forall(s.len(), |i| forall(i, |j| s[j].who != s[i].who)) }
pub fn seated(s: &Vec<Seat>, x: u64) -> bool { exists(s.len(), |i| s[i].who == x) }
pub fn runs(s: &Vec<(u64, u128)>, x: u64) -> bool { exists(s.len(), |i| s[i].0 == x) }
pub const SMALL: usize = 1 << 30;

// ================================================================ E01: voting
pub fn vc_e01_vote() {
	let o: VOrigin = any();
	let votes: Vec<u64> = any();
	let value: u128 = any();
	let n = votes.len();
	let room = candidates().len() as u128 + members().len() as u128 + runners().len() as u128;
	let now = System::block_number();
	let period = param(16) as u64;
	assume(now <= u64::MAX - period);
	let r = Elections::vote(o.clone(), votes.clone(), value);
	let Some(who) = signer(&o) else {
		check("only a signed account votes", r.is_err());
		return;
	};
	if r.is_err() {
		return;
	}
	cover("votes");
	let t = total(who);
	check("between one and the allowed number of votes", and(n > 0, n as u128 <= param(19)));
	check("no more votes than candidates, members and runners-up", n as u128 <= room);
	let v = voter(who);
	check("the stake is the value, at most the total balance", v.stake == spec::min(value, t));
	check("exactly the stake is frozen", frozen(F_ELECT, who) == v.stake);
	check("the vote is recorded as given", same(&v.votes, &votes));
	check("the stake is locked for the voting lock period", v.lockup_till == now + period);
	check("other votes untouched", changed_only_at::<pe::Voting<V>, _, _>(&[who]));
	check("other freezes untouched", changed_only_at::<GFrozen, _, _>(&[(F_ELECT, who)]));
	check("nothing else is written", frame("Elections.Voting Ghost.GFrozen"));
}
pub fn vc_e01_vote_accepted() {
	let who: u64 = any();
	let votes: Vec<u64> = any();
	let value: u128 = any();
	let n = votes.len();
	let room = candidates().len() as u128 + members().len() as u128 + runners().len() as u128;
	let now = System::block_number();
	assume(and(now <= u64::MAX - param(16) as u64, !GNoFreeze::get()));
	let v0 = voter(who);
	let enough = ite(now < v0.lockup_till, value >= v0.stake, value > param(P_ED));
	let r = Elections::vote(VOrigin::Signed(who), votes, value);
	check(
		"a vote is accepted exactly within the limits, and never for less than a stake still locked",
		iff(r.is_ok(), and(and(n > 0, n as u128 <= param(19)), and(n as u128 <= room, enough))),
	);
	cover("votes");
}
pub fn vc_e01_remove_voter() {
	let o: VOrigin = any();
	let Some(who) = signer(&o) else {
		check("only a signed account withdraws its vote", Elections::remove_voter(o).is_err());
		return;
	};
	let is = pe::Voting::<V>::contains_key(who);
	let v0 = voter(who);
	let r = Elections::remove_voter(o);
	check("a vote is withdrawn exactly once its lock has run out", iff(r.is_ok(), and(is, v0.lockup_till <= System::block_number())));
	if r.is_ok() {
		cover("withdraws");
		check("the vote is gone", !pe::Voting::<V>::contains_key(who));
		check("nothing stays frozen", frozen(F_ELECT, who) == 0);
		check("other votes untouched", changed_only_at::<pe::Voting<V>, _, _>(&[who]));
		check("other freezes untouched", changed_only_at::<GFrozen, _, _>(&[(F_ELECT, who)]));
		check("nothing else is written", frame("Elections.Voting Ghost.GFrozen"));
	}
}

// ================================================================ E02: candidacy
pub fn vc_e02_submit() {
	let o: VOrigin = any();
	let count: u32 = any();
	let c0 = candidates();
	let (m0, r0) = (members(), runners());
	assume(and(sorted_cands(&c0), sorted_seats(&m0)));
	let bond = param(12);
	let Some(who) = signer(&o) else {
		check("only a signed account runs", Elections::submit_candidacy(o, count).is_err());
		return;
	};
	let (f0, h0) = (free(who), held(R_CANDIDACY, who));
	assume(and(h0 <= MAXB, bond <= MAXB));
	let fresh = and(!runs(&c0, who), and(!seated(&m0, who), !seated(&r0, who)));
	let r = Elections::submit_candidacy(o, count);
	check(
		"whoever is not yet running or seated can run, paying the bond, while there is room",
		iff(r.is_ok(), and(and(c0.len() as u128 <= count as u128, c0.len() as u128 <= param(17)), and(fresh, bond <= f0))),
	);
	if r.is_err() {
		return;
	}
	cover("runs");
	check("exactly the bond moves from free to held", and(m(free(who)).add(m(bond)).eq(m(f0)), m(held(R_CANDIDACY, who)).eq(m(h0).add(m(bond)))));
	let c1 = candidates();
	check("one candidate more", c1.len() == c0.len() + 1);
	check("candidates stay ordered", sorted_cands(&c1));
	match c1.binary_search_by_key(&who, |x| x.0) {
		Ok(q) => check("the candidate is recorded with the bond", c1[q].1 == bond),
		Err(_) => check("the candidate is recorded with the bond", false),
	}
	check("other candidates untouched", forall(c0.len(), |i| ite(c0[i].0 < who, same(&c0[i], &c1[i]), same(&c0[i], &c1[i + 1]))));
	check("other balances untouched", and(changed_only_at::<GFree, _, _>(&[who]), changed_only_at::<GHeld, _, _>(&[(R_CANDIDACY, who)])));
	check("nothing else is written", frame("Elections.Candidates Ghost.GFree Ghost.GHeld"));
}
/// exactly `d` is released to `who`
fn released(who: u64, d: u128, f0: u128, h0: u128) {
	check("exactly the recorded deposit is released", and(m(free(who)).eq(m(f0).add(m(d))), m(held(R_CANDIDACY, who)).add(m(d)).eq(m(h0))));
	check("other balances untouched", and(changed_only_at::<GFree, _, _>(&[who]), changed_only_at::<GHeld, _, _>(&[(R_CANDIDACY, who)])));
}
pub fn vc_e02_renounce_candidate() {
	let who: u64 = any();
	let count: u32 = any();
	let c0 = candidates();
	assume(sorted_cands(&c0));
	assume(c0.len() <= SMALL);
	let (f0, h0) = (free(who), held(R_CANDIDACY, who));
	assume(and(f0 <= MAXB, h0 <= MAXB));
	// the deposits of the candidates are held
	assume(forall(c0.len(), |i| or(c0[i].0 != who, c0[i].1 <= h0)));
	let r = Elections::renounce_candidacy(VOrigin::Signed(who), Renouncing::Candidate(count));
	let Ok(q) = c0.binary_search_by_key(&who, |x| x.0) else {
		check("only a candidate withdraws as one", r.is_err());
		return;
	};
	check("a candidate can always withdraw", iff(r.is_ok(), c0.len() as u128 <= count as u128));
	if r.is_err() {
		return;
	}
	cover("withdraws");
	released(who, c0[q].1, f0, h0);
	let c1 = candidates();
	check("only this candidate leaves", and(c1.len() + 1 == c0.len(), forall(c1.len(), |i| ite(i < q, same(&c1[i], &c0[i]), same(&c1[i], &c0[i + 1])))));
	check("nothing else is written", frame("Elections.Candidates Ghost.GFree Ghost.GHeld"));
}
pub fn vc_e02_renounce_runner_up() {
	let who: u64 = any();
	let r0 = runners();
	assume(distinct_seats(&r0));
	let (f0, h0) = (free(who), held(R_CANDIDACY, who));
	assume(and(f0 <= MAXB, h0 <= MAXB));
	assume(forall(r0.len(), |i| or(r0[i].who != who, r0[i].deposit <= h0)));
	let r = Elections::renounce_candidacy(VOrigin::Signed(who), Renouncing::RunnerUp);
	let Some(q) = r0.iter().position(|s| s.who == who) else {
		check("only a runner-up withdraws as one", r.is_err());
		return;
	};
	check("a runner-up can always withdraw", r.is_ok());
	if r.is_err() {
		return;
	}
	cover("withdraws");
	released(who, r0[q].deposit, f0, h0);
	let r1 = runners();
	check("only this runner-up leaves, the others keep their rank", and(r1.len() + 1 == r0.len(), forall(r1.len(), |i| ite(i < q, same(&r1[i], &r0[i]), same(&r1[i], &r0[i + 1])))));
	check("nothing else is written", frame("Elections.RunnersUp Ghost.GFree Ghost.GHeld"));
}
pub fn vc_e02_renounce_signed() {
	let o: VOrigin = any();
	assume(signer(&o).is_none());
	let what: Renouncing = any();
	check("only a signed account renounces", Elections::renounce_candidacy(o, what).is_err());
	cover("refused");
}

// ================================================================ E03: a member leaves
pub struct Before {
	m0: Vec<Seat>,
	r0: Vec<Seat>,
	q: usize,
	prime: Option<u64>,
}
fn seat_at(s: &Vec<Seat>, j: usize, x: &Seat) -> bool {
	if j < s.len() { same(&s[j], x) } else { false }
}
fn replaced(who: u64, b: Before) {
	let Before { m0, r0, q, prime } = b;
	let (m1, r1) = (members(), runners());
	check("members stay ordered, each once", sorted_seats(&m1));
	check("the member is out", !seated(&m1, who));
	if r0.len() == 0 {
		cover("nobody to step up");
		check("no runner-up appears", r1.len() == 0);
		check("only the member leaves", and(m1.len() + 1 == m0.len(), forall(m1.len(), |i| ite(i < q, same(&m1[i], &m0[i]), same(&m1[i], &m0[i + 1])))));
		check("the new membership is announced", and(GIncoming::get().len() == 0, GOutgoing::get().len() == 1));
	} else {
		cover("the best runner-up steps up");
		let best = &r0[r0.len() - 1];
		check("exactly the best runner-up steps up", and(r1.len() + 1 == r0.len(), forall(r1.len(), |i| same(&r1[i], &r0[i]))));
		check("the number of members stays the same", m1.len() == m0.len());
		match m1.binary_search_by_key(&best.who, |s| s.who) {
			Ok(k) => {
				check("the runner-up becomes a member with stake and deposit", same(&m1[k], best));
				check(
					"no other member changes",
					forall(m1.len(), |i| {
						let j = ite_u64(i < k, i as u64, (i as u64).wrapping_sub(1)) as usize;
						or(i == k, ite(j < q, seat_at(&m0, j, &m1[i]), seat_at(&m0, j.wrapping_add(1), &m1[i])))
					}),
				);
			},
			Err(_) => check("the runner-up becomes a member with stake and deposit", false),
		}
		check("the new membership is announced", and(GIncoming::get().len() == 1, GOutgoing::get().len() == 1));
		check("the new membership is announced", GIncoming::get()[0] == best.who);
	}
	check("the new membership is announced", GOutgoing::get()[0] == who);
	let g = GMembers::get();
	check("the new membership is announced", and(g.len() == m1.len(), forall(g.len(), |i| g[i] == m1[i].who)));
	let keep = match prime {
		Some(p) => if p == who { None } else { Some(p) },
		None => None,
	};
	check("the prime stays unless it is the one leaving", GPrime::get() == keep);
}
fn before(who: u64) -> Option<Before> {
	let (m0, r0) = (members(), runners());
	assume(and(sorted_seats(&m0), distinct_seats(&r0)));
	assume(and(m0.len() <= SMALL, r0.len() <= SMALL));
	// members and runners-up are different accounts
	assume(forall(r0.len(), |i| forall(m0.len(), |j| r0[i].who != m0[j].who)));
	let prime = GPrime::get();
	match m0.binary_search_by_key(&who, |s| s.who) {
		Ok(q) => Some(Before { m0, r0, q, prime }),
		Err(_) => None,
	}
}
pub fn vc_e03_renounce_member() {
	let who: u64 = any();
	let (f0, h0) = (free(who), held(R_CANDIDACY, who));
	assume(and(f0 <= MAXB, h0 <= MAXB));
	let b = before(who);
	if let Some(b) = &b {
		assume(b.m0[b.q].deposit <= h0);
	}
	let r = Elections::renounce_candidacy(VOrigin::Signed(who), Renouncing::Member);
	let Some(b) = b else {
		check("only a member leaves as one", r.is_err());
		return;
	};
	check("a member can always leave", r.is_ok());
	if r.is_err() {
		return;
	}
	cover("leaves");
	released(who, b.m0[b.q].deposit, f0, h0);
	replaced(who, b);
	check("nothing else is written", frame("Elections.Members Elections.RunnersUp Ghost.GFree Ghost.GHeld Ghost.GMembers Ghost.GIncoming Ghost.GOutgoing Ghost.GPrime Ghost.GChanges"));
}
pub fn vc_e03_remove_member() {
	let o: VOrigin = any();
	let who: u64 = any();
	let slash: bool = any();
	let (f0, h0) = (free(who), held(R_CANDIDACY, who));
	let (s0, leak) = (GSlashed::get(), GLeak::get());
	assume(and(and(f0 <= MAXB, h0 <= MAXB), s0 <= MAXB));
	let b = before(who);
	if let Some(b) = &b {
		assume(b.m0[b.q].deposit <= h0);
	}
	let root = match o {
		VOrigin::Root => true,
		_ => false,
	};
	let r = Elections::remove_member(o, who, slash, false);
	let Some(b) = b else {
		check("only a member can be removed", r.is_err());
		return;
	};
	check("only root removes members", iff(r.is_ok(), root));
	if r.is_err() {
		return;
	}
	cover("removed");
	let d = b.m0[b.q].deposit;
	if slash {
		cover("slashed");
		check("exactly the recorded deposit is slashed", and(free(who) == f0, m(held(R_CANDIDACY, who)).add(m(d)).eq(m(h0))));
		check("what is slashed goes to the slash handler", and(GLeak::get() == leak, m(GSlashed::get()).eq(m(s0).add(m(d)))));
		check("other balances untouched", and(changed_only_at::<GFree, _, _>(&[who]), changed_only_at::<GHeld, _, _>(&[(R_CANDIDACY, who)])));
	} else {
		released(who, d, f0, h0);
		check("nothing is slashed", GSlashed::get() == s0);
	}
	replaced(who, b);
	check("nothing else is written", frame("Elections.Members Elections.RunnersUp Ghost.GFree Ghost.GHeld Ghost.GMembers Ghost.GIncoming Ghost.GOutgoing Ghost.GPrime Ghost.GChanges Ghost.GLeak Ghost.GSlashed Ghost.GIssuance"));
}

// ================================================================ E04: defunct voters
fn defunct(votes: &Vec<u64>, m0: &Vec<Seat>, r0: &Vec<Seat>, c0: &Vec<(u64, u128)>) -> bool {
	forall(votes.len(), |i| and(!seated(m0, votes[i]), and(!seated(r0, votes[i]), !runs(c0, votes[i]))))
}
pub fn vc_e04_clean() {
	let o: VOrigin = any();
	let (a, b): (u32, u32) = (any(), any());
	let (m0, r0, c0) = (members(), runners(), candidates());
	assume(and(sorted_cands(&c0), sorted_seats(&m0)));
	let x: u64 = any();
	let is = pe::Voting::<V>::contains_key(x);
	let v0 = voter(x);
	let f0 = frozen(F_ELECT, x);
	let root = match o {
		VOrigin::Root => true,
		_ => false,
	};
	let r = Elections::clean_defunct_voters(o, a, b);
	check("only root removes defunct voters", iff(r.is_ok(), root));
	if r.is_err() {
		return;
	}
	cover("cleans");
	let gone = defunct(&v0.votes, &m0, &r0, &c0);
	if pe::Voting::<V>::contains_key(x) {
		cover("stays");
		check("nobody becomes a voter", is);
		check("who stays keeps vote and freeze", and(same(&v0, &voter(x)), frozen(F_ELECT, x) == f0));
		check("every defunct voter goes", !and(and(a == u32::MAX, b == u32::MAX), gone));
	} else if is {
		cover("goes");
		check("only a defunct voter goes", gone);
		check("nothing stays frozen", frozen(F_ELECT, x) == 0);
	} else {
		check("nobody else's freeze changes", frozen(F_ELECT, x) == f0);
	}
	check("nothing else is written", frame("Elections.Voting Ghost.GFrozen"));
}
