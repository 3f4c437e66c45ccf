//! Ghost environment: the traits the pallets are generic over, given their documented contracts.
//! The ghost state lives in ordinary FRAME storage so the verifier and the native replay share it.
use crate::rt::param;
use crate::V;
use frame_support::traits::{
	fungible::{self, Dust},
	tokens::{
		DepositConsequence, Fortitude, Precision, Preservation, Provenance, Restriction, WithdrawConsequence,
	},
};
use frame_support::{storage_alias, Blake2_128Concat, Identity, StorageMap as _, StorageValue as _};
use frame_support::pallet_prelude::{StorageMap, StorageValue, ValueQuery, OptionQuery};
use sp_runtime::{DispatchError, DispatchResult, TokenError};

#[cfg(feature = "gov")]
pub type Acc = u64;
/// wide enough for the accounts pallets derive (`modl`, eight-byte id, number)
#[cfg(not(any(feature = "gov", feature = "recv")))]
pub type Acc = u128;
#[cfg(feature = "recv")]
pub type Acc = crate::recv::Id32;
pub type Bal = u128;
pub type Bn = u64;

#[storage_alias]
pub type GFree = StorageMap<Ghost, Identity, Acc, Bal, ValueQuery>;
/// key: (reason, account)
#[storage_alias]
pub type GHeld = StorageMap<Ghost, Identity, (u8, Acc), Bal, ValueQuery>;
/// balance taken out of holds and not (yet) handed to the slash handler
#[storage_alias]
pub type GLeak = StorageValue<Ghost, Bal, ValueQuery>;
#[storage_alias]
pub type GFrozen = StorageMap<Ghost, Identity, (u8, Acc), Bal, ValueQuery>;
/// accounts have no room for another freeze
#[storage_alias]
pub type GNoFreeze = StorageValue<Ghost, bool, ValueQuery>;
#[storage_alias]
pub type GIssuance = StorageValue<Ghost, Bal, ValueQuery>;
/// everything handed to the slash handler
#[storage_alias]
pub type GSlashed = StorageValue<Ghost, Bal, ValueQuery>;

pub const R_PROPOSAL: u8 = 0;
pub const R_CANDIDACY: u8 = 1;
pub const F_VOTE: u8 = 0;
pub const F_ELECT: u8 = 1;

#[derive(Clone, Copy, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, parity_scale_codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct Reason(pub u8);
#[cfg(feature = "gov")]
impl From<pallet_democracy::HoldReason> for Reason {
	fn from(_: pallet_democracy::HoldReason) -> Self { Reason(R_PROPOSAL) }
}
#[cfg(feature = "gov")]
impl From<pallet_elections_phragmen::HoldReason> for Reason {
	fn from(_: pallet_elections_phragmen::HoldReason) -> Self { Reason(R_CANDIDACY) }
}
#[cfg(feature = "gov")]
impl From<pallet_democracy::FreezeReason> for Reason {
	fn from(_: pallet_democracy::FreezeReason) -> Self { Reason(F_VOTE) }
}
#[cfg(feature = "gov")]
impl From<pallet_elections_phragmen::FreezeReason> for Reason {
	fn from(_: pallet_elections_phragmen::FreezeReason) -> Self { Reason(F_ELECT) }
}

#[cfg(feature = "fund")]
impl From<pallet_funding::HoldReason> for Reason {
	fn from(r: pallet_funding::HoldReason) -> Self {
		match r {
			pallet_funding::HoldReason::Evaluation => Reason(R_EVALUATION),
			pallet_funding::HoldReason::Participation => Reason(R_PARTICIPATION),
		}
	}
}
#[cfg(feature = "fund")]
impl frame_support::traits::VariantCount for Reason {
	const VARIANT_COUNT: u32 = 2;
}
pub const R_EVALUATION: u8 = 0;
pub const R_PARTICIPATION: u8 = 1;

pub fn held(r: u8, who: Acc) -> Bal { GHeld::get((r, who)) }
pub fn frozen(r: u8, who: Acc) -> Bal { GFrozen::get((r, who)) }
pub fn free(who: Acc) -> Bal { GFree::get(who) }
pub fn total(who: Acc) -> Bal {
	let f = GFree::get(who);
	f.saturating_add(held(R_PROPOSAL, who)).saturating_add(held(R_CANDIDACY, who))
}

pub struct Fung;
impl fungible::Inspect<Acc> for Fung {
	type Balance = Bal;
	fn total_issuance() -> Bal { GIssuance::get() }
	fn minimum_balance() -> Bal { param(P_ED) }
	fn total_balance(who: &Acc) -> Bal { total(*who) }
	fn balance(who: &Acc) -> Bal { GFree::get(who) }
	fn reducible_balance(who: &Acc, _p: Preservation, _f: Fortitude) -> Bal { GFree::get(who) }
	fn can_deposit(_who: &Acc, _amount: Bal, _p: Provenance) -> DepositConsequence { DepositConsequence::Success }
	fn can_withdraw(_who: &Acc, _amount: Bal) -> WithdrawConsequence<Bal> { WithdrawConsequence::Success }
}
impl fungible::Unbalanced<Acc> for Fung {
	fn handle_dust(_d: Dust<Acc, Self>) {}
	fn write_balance(who: &Acc, amount: Bal) -> Result<Option<Bal>, DispatchError> {
		GFree::insert(who, amount);
		Ok(None)
	}
	fn set_total_issuance(amount: Bal) { GIssuance::put(amount) }
}
/// transfers fail (an account that may not be created, a destination that cannot hold more reasons, ...)
#[storage_alias]
pub type GNoTransfer = StorageValue<Ghost, bool, ValueQuery>;
/// the free balance of `who` that may leave it
fn spendable(who: &Acc, p: Preservation) -> Bal {
	let f = GFree::get(who);
	match p {
		Preservation::Expendable => f,
		Preservation::Protect | Preservation::Preserve => f.saturating_sub(param(P_ED)),
	}
}
impl fungible::Mutate<Acc> for Fung {
	/// contract: fails without effect or moves exactly `amount` of the free balance; the source keeps the
	/// minimum balance unless it is expendable (the dust of an emptied account is not modelled)
	fn transfer(source: &Acc, dest: &Acc, amount: Bal, p: Preservation) -> Result<Bal, DispatchError> {
		if GNoTransfer::get() || spendable(source, p) < amount {
			return Err(DispatchError::Token(TokenError::FundsUnavailable));
		}
		if source != dest {
			let d = GFree::get(dest);
			if Bal::MAX - d < amount {
				return Err(DispatchError::Token(TokenError::FundsUnavailable));
			}
			GFree::insert(source, GFree::get(source) - amount);
			GFree::insert(dest, d + amount);
		}
		Ok(amount)
	}
}
pub struct NoDrop;
impl fungible::HandleImbalanceDrop<Bal> for NoDrop {
	fn handle(_a: Bal) {}
}
impl fungible::Balanced<Acc> for Fung {
	type OnDropCredit = NoDrop;
	type OnDropDebt = NoDrop;
}
impl fungible::InspectHold<Acc> for Fung {
	type Reason = Reason;
	fn total_balance_on_hold(who: &Acc) -> Bal {
		held(R_PROPOSAL, *who).saturating_add(held(R_CANDIDACY, *who))
	}
	fn balance_on_hold(reason: &Reason, who: &Acc) -> Bal { GHeld::get((reason.0, *who)) }
}
impl fungible::UnbalancedHold<Acc> for Fung {
	fn set_balance_on_hold(reason: &Reason, who: &Acc, amount: Bal) -> DispatchResult {
		let h = GHeld::get((reason.0, *who));
		GHeld::insert((reason.0, *who), amount);
		GLeak::put(GLeak::get().wrapping_add(h.wrapping_sub(amount)));
		Ok(())
	}
}
impl fungible::MutateHold<Acc> for Fung {
	/// contract: fails without effect unless the free balance covers `amount`; otherwise moves exactly
	/// `amount` from free to held-for-`reason`.
	fn hold(reason: &Reason, who: &Acc, amount: Bal) -> DispatchResult {
		let f = GFree::get(who);
		let h = GHeld::get((reason.0, *who));
		if f < amount || Bal::MAX - h < amount {
			return Err(DispatchError::Token(TokenError::FundsUnavailable));
		}
		GFree::insert(who, f - amount);
		GHeld::insert((reason.0, *who), h + amount);
		Ok(())
	}
	/// contract: fails without effect or moves exactly `amount` (BestEffort: what there is, up to `amount`) from the
	/// free balance of `source` to the balance of `dest` held for `reason`
	fn transfer_and_hold(reason: &Reason, source: &Acc, dest: &Acc, amount: Bal, precision: Precision, p: Preservation, _f: Fortitude) -> Result<Bal, DispatchError> {
		let s = spendable(source, p);
		let a = if s < amount {
			match precision {
				Precision::Exact => return Err(DispatchError::Token(TokenError::FundsUnavailable)),
				Precision::BestEffort => s,
			}
		} else {
			amount
		};
		let h = GHeld::get((reason.0, *dest));
		if GNoTransfer::get() || Bal::MAX - h < a {
			return Err(DispatchError::Token(TokenError::FundsUnavailable));
		}
		GFree::insert(source, GFree::get(source) - a);
		GHeld::insert((reason.0, *dest), h + a);
		Ok(a)
	}
	/// contract: fails without effect or moves exactly `amount` (BestEffort: what is held, up to `amount`) held for
	/// `reason` to the free balance, or to the balance held for `reason`, of `dest`
	fn transfer_on_hold(reason: &Reason, source: &Acc, dest: &Acc, amount: Bal, precision: Precision, mode: Restriction, _f: Fortitude) -> Result<Bal, DispatchError> {
		let h = GHeld::get((reason.0, *source));
		let a = if h < amount {
			match precision {
				Precision::Exact => return Err(DispatchError::Token(TokenError::FundsUnavailable)),
				Precision::BestEffort => h,
			}
		} else {
			amount
		};
		let d = match mode {
			Restriction::Free => GFree::get(dest),
			Restriction::OnHold => GHeld::get((reason.0, *dest)),
		};
		if GNoTransfer::get() || Bal::MAX - d < a {
			return Err(DispatchError::Token(TokenError::FundsUnavailable));
		}
		GHeld::insert((reason.0, *source), h - a);
		match mode {
			Restriction::Free => GFree::insert(dest, d + a),
			Restriction::OnHold => GHeld::insert((reason.0, *dest), GHeld::get((reason.0, *dest)) + a),
		}
		Ok(a)
	}
	/// contract: moves `amount` (Exact: fails if less is held; BestEffort: whatever is held up to `amount`)
	/// from held-for-`reason` back to free.
	fn release(reason: &Reason, who: &Acc, amount: Bal, precision: Precision) -> Result<Bal, DispatchError> {
		let f = GFree::get(who);
		let h = GHeld::get((reason.0, *who));
		let a = if h < amount {
			match precision {
				Precision::Exact => return Err(DispatchError::Token(TokenError::FundsUnavailable)),
				Precision::BestEffort => h,
			}
		} else {
			amount
		};
		GHeld::insert((reason.0, *who), h - a);
		GFree::insert(who, f.saturating_add(a));
		Ok(a)
	}
}
impl fungible::BalancedHold<Acc> for Fung {}
impl fungible::InspectFreeze<Acc> for Fung {
	type Id = Reason;
	fn balance_frozen(id: &Reason, who: &Acc) -> Bal { GFrozen::get((id.0, *who)) }
	fn can_freeze(_id: &Reason, _who: &Acc) -> bool { true }
}
impl fungible::MutateFreeze<Acc> for Fung {
	/// contract: freezes exactly `amount`; a new freeze fails without effect when the account has too many
	fn set_freeze(id: &Reason, who: &Acc, amount: Bal) -> DispatchResult {
		if amount > 0 && GNoFreeze::get() && GFrozen::get((id.0, *who)) == 0 {
			return Err(DispatchError::Exhausted);
		}
		GFrozen::insert((id.0, *who), amount);
		Ok(())
	}
	fn extend_freeze(id: &Reason, who: &Acc, amount: Bal) -> DispatchResult {
		let cur = GFrozen::get((id.0, *who));
		if amount > cur {
			if cur == 0 && GNoFreeze::get() {
				return Err(DispatchError::Exhausted);
			}
			GFrozen::insert((id.0, *who), amount);
		}
		Ok(())
	}
	fn thaw(id: &Reason, who: &Acc) -> DispatchResult {
		GFrozen::insert((id.0, *who), 0);
		Ok(())
	}
}
pub struct SlashTo;
impl frame_support::traits::tokens::imbalance::OnUnbalanced<fungible::Credit<Acc, Fung>> for SlashTo {
	fn on_unbalanced(amount: fungible::Credit<Acc, Fung>) {
		use frame_support::traits::Imbalance;
		let s = GSlashed::get();
		GSlashed::put(s.saturating_add(amount.peek()));
		GLeak::put(GLeak::get().wrapping_sub(amount.peek()));
		std::mem::forget(amount);
	}
}

// ------------------------------------------------------------------ configuration constants
pub const P_ED: usize = 0;
macro_rules! params {
	($($name:ident : $t:ty = $i:expr;)*) => { $(
		pub struct $name;
		impl frame_support::traits::Get<$t> for $name {
			fn get() -> $t { param($i) as $t }
		}
		impl frame_support::traits::TypedGet for $name {
			type Type = $t;
			fn get() -> $t { param($i) as $t }
		}
	)* };
}
params! {
	EnactmentPeriod: Bn = 1;
	LaunchPeriod: Bn = 2;
	VotingPeriod: Bn = 3;
	VoteLockingPeriod: Bn = 4;
	MinimumDeposit: Bal = 5;
	FastTrackVotingPeriod: Bn = 6;
	CooloffPeriod: Bn = 7;
	MaxVotes: u32 = 8;
	MaxProposals: u32 = 9;
	MaxDeposits: u32 = 10;
	MaxBlacklisted: u32 = 11;
	CandidacyBond: Bal = 12;
	DesiredMembers: u32 = 13;
	DesiredRunnersUp: u32 = 14;
	TermDuration: Bn = 15;
	VotingLockPeriod: Bn = 16;
	MaxCandidates: u32 = 17;
	MaxVoters: u32 = 18;
	MaxVotesPerVoter: u32 = 19;
}
pub struct InstantAllowed;
impl frame_support::traits::Get<bool> for InstantAllowed {
	fn get() -> bool { param(20) != 0 }
}
pub struct Electorate;
#[cfg(feature = "gov")]
impl pallet_democracy::GetElectorate<Bal> for Electorate {
	fn get_electorate() -> Bal { GIssuance::get() }
}

// ------------------------------------------------------------------ scheduler and preimages
use frame_support::traits::{
	schedule::{v3, DispatchTime, Period, Priority},
	Bounded, QueryPreimage, StorePreimage, FetchResult,
};
use sp_core::H256;
use sp_runtime::traits::BlakeTwo256;
/// a named task
#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, parity_scale_codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct Sched {
	pub at: Bn,
	pub after: bool,
	pub priority: u8,
	pub periodic: bool,
	pub root: bool,
	pub call_hash: H256,
}
#[storage_alias]
pub type GScheduled = StorageMap<Ghost, Identity, u32, Sched, OptionQuery>;
#[storage_alias]
pub type GSchedFails = StorageValue<Ghost, bool, ValueQuery>;
#[storage_alias]
pub type GPreimageLen = StorageMap<Ghost, Identity, H256, u32, OptionQuery>;
#[storage_alias]
pub type GPreimageDropped = StorageMap<Ghost, Identity, H256, bool, ValueQuery>;
#[storage_alias]
pub type GPreimageRequested = StorageMap<Ghost, Identity, H256, bool, ValueQuery>;

pub struct Scheduler;
impl v3::Named<Bn, crate::VCall, crate::VOrigin> for Scheduler {
	type Address = u32;
	type Hasher = BlakeTwo256;
	fn schedule_named(
		id: v3::TaskName,
		when: DispatchTime<Bn>,
		maybe_periodic: Option<Period<Bn>>,
		priority: Priority,
		origin: crate::VOrigin,
		call: Bounded<crate::VCall, BlakeTwo256>,
	) -> Result<u32, DispatchError> {
		if GSchedFails::get() {
			return Err(DispatchError::Exhausted);
		}
		let (at, after) = match when {
			DispatchTime::At(b) => (b, false),
			DispatchTime::After(b) => (b, true),
		};
		let root = origin == crate::VOrigin::Root;
		GScheduled::insert(crate::rt::task_index(id), Sched { at, after, priority, periodic: maybe_periodic.is_some(), root, call_hash: call.hash() });
		Ok(0)
	}
	fn cancel_named(_id: v3::TaskName) -> Result<(), DispatchError> { Ok(()) }
	fn reschedule_named(_id: v3::TaskName, _when: DispatchTime<Bn>) -> Result<u32, DispatchError> { Ok(0) }
	fn next_dispatch_time(_id: v3::TaskName) -> Result<Bn, DispatchError> { Ok(0) }
}
pub struct Preimages;
impl QueryPreimage for Preimages {
	type H = BlakeTwo256;
	fn len(hash: &H256) -> Option<u32> { GPreimageLen::get(hash) }
	fn fetch(_hash: &H256, _len: Option<u32>) -> FetchResult { Err(DispatchError::Unavailable) }
	fn is_requested(hash: &H256) -> bool { GPreimageRequested::get(hash) }
	fn request(hash: &H256) { GPreimageRequested::insert(hash, true) }
	fn unrequest(hash: &H256) { GPreimageRequested::insert(hash, false) }
	fn drop<T>(bounded: &Bounded<T, BlakeTwo256>) { GPreimageDropped::insert(bounded.hash(), true) }
}
impl StorePreimage for Preimages {
	const MAX_LENGTH: usize = 1 << 20;
	fn note(_bytes: std::borrow::Cow<[u8]>) -> Result<H256, DispatchError> { Err(DispatchError::Unavailable) }
}

// ------------------------------------------------------------------ membership sink
#[storage_alias]
pub type GMembers = StorageValue<Ghost, Vec<Acc>, ValueQuery>;
#[storage_alias]
pub type GIncoming = StorageValue<Ghost, Vec<Acc>, ValueQuery>;
#[storage_alias]
pub type GOutgoing = StorageValue<Ghost, Vec<Acc>, ValueQuery>;
#[storage_alias]
pub type GPrime = StorageValue<Ghost, Option<Acc>, ValueQuery>;
#[storage_alias]
pub type GChanges = StorageValue<Ghost, u32, ValueQuery>;
pub struct Members;
impl frame_support::traits::ChangeMembers<Acc> for Members {
	fn change_members_sorted(incoming: &[Acc], outgoing: &[Acc], new: &[Acc]) {
		GMembers::put(new.to_vec());
		GIncoming::put(incoming.to_vec());
		GOutgoing::put(outgoing.to_vec());
		GPrime::put(None::<Acc>);
		GChanges::put(GChanges::get().wrapping_add(1));
	}
	fn set_prime(p: Option<Acc>) { GPrime::put(p) }
	fn get_prime() -> Option<Acc> { GPrime::get() }
}
impl frame_support::traits::InitializeMembers<Acc> for Members {
	fn initialize_members(m: &[Acc]) { GMembers::put(m.to_vec()) }
}
