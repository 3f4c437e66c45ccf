//! Specification functions: written from the property statements, independent of the code.
#[cfg(feature = "gov")]
use pallet_democracy::{AccountVote, Conviction};
/// votes carried by `cap` with conviction `c`: a tenth without conviction, otherwise the multiplier, saturating
#[cfg(feature = "gov")]
pub fn mult(c: Conviction) -> u128 {
	match c {
		Conviction::None => 0,
		Conviction::Locked1x => 1,
		Conviction::Locked2x => 2,
		Conviction::Locked3x => 3,
		Conviction::Locked4x => 4,
		Conviction::Locked5x => 5,
		Conviction::Locked6x => 6,
	}
}
#[cfg(feature = "gov")]
pub fn periods(c: Conviction) -> u64 {
	match c {
		Conviction::None => 0,
		Conviction::Locked1x => 1,
		Conviction::Locked2x => 2,
		Conviction::Locked3x => 4,
		Conviction::Locked4x => 8,
		Conviction::Locked5x => 16,
		Conviction::Locked6x => 32,
	}
}
#[cfg(feature = "gov")]
pub fn votes(c: Conviction, cap: u128) -> u128 {
	if c == Conviction::None { cap / 10 } else { cap.saturating_mul(mult(c)) }
}
/// (ayes, nays, turnout) a vote contributes to a tally by itself
#[cfg(feature = "gov")]
pub fn contrib(v: AccountVote<u128>) -> (u128, u128, u128) {
	match v {
		AccountVote::Standard { vote, balance } =>
			if vote.aye { (votes(vote.conviction, balance), 0, balance) } else { (0, votes(vote.conviction, balance), balance) },
		AccountVote::Split { aye, nay } => (aye / 10, nay / 10, aye.saturating_add(nay)),
	}
}
/// (ayes, nays, turnout) a vote contributes together with delegations (votes, capital) following it
#[cfg(feature = "gov")]
pub fn weight(v: AccountVote<u128>, dv: u128, dc: u128) -> (u128, u128, u128) {
	let (a, n, t) = contrib(v);
	match v {
		AccountVote::Standard { vote, .. } =>
			if vote.aye { (a.saturating_add(dv), n, t.saturating_add(dc)) } else { (a, n.saturating_add(dv), t.saturating_add(dc)) },
		AccountVote::Split { .. } => (a, n, t),
	}
}
#[cfg(feature = "gov")]
pub fn bal(v: AccountVote<u128>) -> u128 {
	match v {
		AccountVote::Standard { balance, .. } => balance,
		AccountVote::Split { aye, nay } => aye.saturating_add(nay),
	}
}
pub fn max(a: u128, b: u128) -> u128 { if a < b { b } else { a } }
pub fn max64(a: u64, b: u64) -> u64 { if a < b { b } else { a } }
pub fn min(a: u128, b: u128) -> u128 { if a < b { a } else { b } }
/// block until which a voter on the winning side stays locked
#[cfg(feature = "gov")]
pub fn unlock_at(end: u64, period: u64, c: Conviction) -> u64 { end.saturating_add(period.saturating_mul(periods(c))) }
/// delegation carried by `cap` at conviction `c`: (votes, capital)
#[cfg(feature = "gov")]
pub fn deleg(c: Conviction, cap: u128) -> (u128, u128) { (votes(c, cap), cap) }

// ------------------------------------------------------------------ vesting schedules
/// (locked, per block, starting block)
pub type Raw = (u128, u128, u64);
/// amount still locked at block `n`
pub fn locked_at(s: Raw, n: u64) -> u128 {
	let gone = if n < s.2 { 0 } else { ((n - s.2) as u128).saturating_mul(s.1) };
	s.0.saturating_sub(gone)
}
/// block at which everything is vested
pub fn end_of(s: Raw) -> u128 {
	let blocks = if s.1 >= s.0 { 1 } else { s.0 / s.1 + if s.0 % s.1 == 0 { 0 } else { 1 } };
	(s.2 as u128).saturating_add(blocks)
}
