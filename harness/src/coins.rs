//! Ghost contracts of the currency and the vesting pallet, as the dispenser and the receiver of migrations use them.
use crate::ghost::*;
use crate::rt::*;
use frame_support::pallet_prelude::{OptionQuery, ValueQuery};
use frame_support::traits::{
	tokens::{currency::VestingSchedule, imbalance::SignedImbalance},
	Currency, ExistenceRequirement, WithdrawReasons,
};
use frame_support::{storage_alias, Identity, StorageMap as _, StorageValue as _};
use sp_runtime::{DispatchError, DispatchResult};

/// free balances
pub struct Coins;
impl Currency<Acc> for Coins {
	type Balance = Bal;
	type PositiveImbalance = ();
	type NegativeImbalance = ();
	fn total_balance(who: &Acc) -> Bal { GFree::get(who) }
	fn can_slash(_who: &Acc, _value: Bal) -> bool { false }
	fn total_issuance() -> Bal { GIssuance::get() }
	fn minimum_balance() -> Bal { param(P_ED) }
	fn burn(_amount: Bal) {}
	fn issue(_amount: Bal) {}
	fn free_balance(who: &Acc) -> Bal { GFree::get(who) }
	fn ensure_can_withdraw(_w: &Acc, _a: Bal, _r: WithdrawReasons, _n: Bal) -> DispatchResult { Err(DispatchError::Unavailable) }
	/// contract: fails without effect or moves exactly `amount` of the free balance
	fn transfer(source: &Acc, dest: &Acc, amount: Bal, e: ExistenceRequirement) -> DispatchResult {
		let f = GFree::get(source);
		let keep = if e == ExistenceRequirement::KeepAlive { param(P_ED) } else { 0 };
		if GNoTransfer::get() || f.saturating_sub(keep) < amount {
			return Err(DispatchError::Unavailable);
		}
		if source != dest {
			let d = GFree::get(dest);
			if Bal::MAX - d < amount {
				return Err(DispatchError::Unavailable);
			}
			GFree::insert(source, f - amount);
			GFree::insert(dest, d + amount);
		}
		Ok(())
	}
	fn slash(_who: &Acc, value: Bal) -> ((), Bal) { ((), value) }
	fn deposit_into_existing(_who: &Acc, _value: Bal) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) }
	fn deposit_creating(_who: &Acc, _value: Bal) {}
	fn withdraw(_w: &Acc, _v: Bal, _r: WithdrawReasons, _l: ExistenceRequirement) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) }
	fn make_free_balance_be(_who: &Acc, _balance: Bal) -> SignedImbalance<Bal, ()> { SignedImbalance::Positive(()) }
}
/// the account may not get another vesting schedule
#[storage_alias]
pub type GNoVesting = StorageMap<Ghost, Identity, Acc, bool, ValueQuery>;
/// number of vesting schedules, and the last one: locked, per block, first block
#[storage_alias]
pub type GVestings = StorageMap<Ghost, Identity, Acc, u32, ValueQuery>;
#[storage_alias]
pub type GVesting = StorageMap<Ghost, Identity, Acc, (Bal, Bal, Bn), OptionQuery>;
pub struct Vests;
impl VestingSchedule<Acc> for Vests {
	type Currency = Coins;
	type Moment = Bn;
	fn vesting_balance(_who: &Acc) -> Option<Bal> { None }
	/// contract: nothing is locked, or the schedule is there from then on
	fn add_vesting_schedule(who: &Acc, locked: Bal, per_block: Bal, start: Bn) -> DispatchResult {
		Self::can_add_vesting_schedule(who, locked, per_block, start)?;
		GVestings::insert(who, GVestings::get(who).wrapping_add(1));
		GVesting::insert(who, (locked, per_block, start));
		Ok(())
	}
	fn can_add_vesting_schedule(who: &Acc, _locked: Bal, _per_block: Bal, _start: Bn) -> DispatchResult {
		if GNoVesting::get(who) {
			return Err(DispatchError::Unavailable);
		}
		Ok(())
	}
	fn remove_vesting_schedule(_who: &Acc, _index: u32) -> DispatchResult { Err(DispatchError::Unavailable) }
}
