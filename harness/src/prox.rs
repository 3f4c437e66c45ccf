//! Contracts of `proxy-bonding`: treasury tokens bonded on behalf of users against a fee.
use crate::ghost::*;
use crate::rt::*;
use crate::{System, VOrigin, V};
use frame_support::traits::{
	fungibles, ConstU32, ConstU8,
	tokens::{DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
};
use pallet_proxy_bonding::{Pallet, ReleaseType, Releases};
use polimec_common::ProvideAssetPrice;
use sp_runtime::{traits::Saturating, DispatchError, DispatchResult, FixedPointNumber, FixedU128, Perbill, TokenError};

// ------------------------------------------------------------------ ghost fee tokens and prices
use frame_support::pallet_prelude::{OptionQuery, StorageMap, StorageValue, ValueQuery};
use frame_support::{storage_alias, Identity, StorageMap as _, StorageValue as _};
/// key: (asset, account)
#[storage_alias]
pub type GFee = StorageMap<Ghost, Identity, (u32, Acc), Bal, ValueQuery>;
#[storage_alias]
pub type GMin = StorageMap<Ghost, Identity, u32, Bal, ValueQuery>;
#[storage_alias]
pub type GDecimals = StorageMap<Ghost, Identity, u32, u8, ValueQuery>;
#[storage_alias]
pub type GPrice = StorageMap<Ghost, Identity, u32, u128, OptionQuery>;
pub struct Fees;
impl fungibles::Inspect<Acc> for Fees {
	type AssetId = u32;
	type Balance = Bal;
	fn total_issuance(_a: u32) -> Bal { Bal::MAX }
	fn minimum_balance(a: u32) -> Bal { GMin::get(a) }
	fn total_balance(a: u32, who: &Acc) -> Bal { GFee::get((a, *who)) }
	fn balance(a: u32, who: &Acc) -> Bal { GFee::get((a, *who)) }
	fn reducible_balance(a: u32, who: &Acc, p: Preservation, _f: Fortitude) -> Bal { spendable(a, who, p) }
	fn can_deposit(_a: u32, _who: &Acc, _amount: Bal, _p: Provenance) -> DepositConsequence { DepositConsequence::Success }
	fn can_withdraw(_a: u32, _who: &Acc, _amount: Bal) -> WithdrawConsequence<Bal> { WithdrawConsequence::Success }
	fn asset_exists(_a: u32) -> bool { true }
}
impl fungibles::Unbalanced<Acc> for Fees {
	fn handle_dust(_d: fungibles::Dust<Acc, Self>) {}
	fn write_balance(a: u32, who: &Acc, amount: Bal) -> Result<Option<Bal>, DispatchError> {
		GFee::insert((a, *who), amount);
		Ok(None)
	}
	fn set_total_issuance(_a: u32, _amount: Bal) {}
}
fn spendable(a: u32, who: &Acc, p: Preservation) -> Bal {
	let f = GFee::get((a, *who));
	match p {
		Preservation::Expendable => f,
		Preservation::Protect | Preservation::Preserve => f.saturating_sub(GMin::get(a)),
	}
}
impl fungibles::Mutate<Acc> for Fees {
	/// contract: fails without effect or moves exactly `amount`; the source keeps the minimum balance unless expendable
	fn transfer(a: u32, source: &Acc, dest: &Acc, amount: Bal, p: Preservation) -> Result<Bal, DispatchError> {
		let full = and(source != dest, Bal::MAX - GFee::get((a, *dest)) < amount);
		if or(or(GNoTransfer::get(), spendable(a, source, p) < amount), full) {
			return Err(DispatchError::Token(TokenError::FundsUnavailable));
		}
		GFee::insert((a, *source), GFee::get((a, *source)) - amount);
		GFee::insert((a, *dest), GFee::get((a, *dest)) + amount);
		Ok(amount)
	}
}
impl fungibles::metadata::Inspect<Acc> for Fees {
	fn name(_a: u32) -> Vec<u8> { vec![] }
	fn symbol(_a: u32) -> Vec<u8> { vec![] }
	fn decimals(a: u32) -> u8 { GDecimals::get(a) }
}
pub struct Prices;
impl ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;
	fn get_price(a: u32) -> Option<FixedU128> { GPrice::get(a).map(FixedU128::from_inner) }
}
/// the sub-account of path `n` is the number `TAG + (n << 32)`
#[derive(Clone, Copy, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
pub struct Id;
impl sp_runtime::TypeId for Id {
	const TYPE_ID: [u8; 4] = *b"prox";
}
pub struct Root;
impl frame_support::traits::Get<Id> for Root {
	fn get() -> Id { Id }
}
macro_rules! constant {
	($($name:ident : $t:ty = $e:expr;)*) => { $(
		pub struct $name;
		impl frame_support::traits::Get<$t> for $name {
			fn get() -> $t { $e }
		}
	)* };
}
constant! {
	Treasury: Acc = param(21);
	FeeRecipient: Acc = param(22);
	Percent: Perbill = Perbill::from_parts(param(23) as u32);
}
impl pallet_proxy_bonding::Config for V {
	type RuntimeEvent = crate::VEvent;
	type RuntimeHoldReason = Reason;
	type BondingToken = Fung;
	type BondingTokenDecimals = ConstU8<{ polimec_common::PLMC_DECIMALS }>;
	type UsdDecimals = ConstU8<{ polimec_common::USD_DECIMALS }>;
	type BondingTokenId = ConstU32<{ polimec_common::PLMC_FOREIGN_ID }>;
	type FeeToken = Fees;
	type FeePercentage = Percent;
	type PriceProvider = Prices;
	type Treasury = Treasury;
	type FeeRecipient = FeeRecipient;
	type Id = Id;
	type RootId = Root;
}
pub type Px = Pallet<V>;

// ------------------------------------------------------------------ specification
fn sub(path: u32) -> Acc { 0x786f_7270 + ((path as Acc + 1) << 32) }
pub fn fee(asset: u32, who: Acc) -> Bal { GFee::get((asset, who)) }
fn tr() -> Acc { param(21) }
fn rcp() -> Acc { param(22) }
const MAXB: u128 = 1 << 120;
/// balances of any account, hold and asset, to state what is left alone
struct Rest {
	who: Acc,
	r: u8,
	asset: u32,
	free: Bal,
	held: Bal,
	fee: Bal,
}
fn rest() -> Rest {
	let (who, r, asset) = (any(), any(), any());
	Rest { who, r, asset, free: free(who), held: held(r, who), fee: fee(asset, who) }
}
fn small(accounts: &[Acc], r: Reason, asset: u32) {
	for a in accounts {
		assume(and(and(free(*a) <= MAXB, held(r.0, *a) <= MAXB), fee(asset, *a) <= MAXB));
	}
}

// ================================================================ P02: release of bonds and fees
pub fn vc_p02_bonds() {
	let (path, r, o) = (any::<u32>(), Reason(any()), any::<VOrigin>());
	let now = System::block_number();
	let acc = sub(path);
	assume(and(path < u32::MAX, acc != tr()));
	small(&[acc, tr()], r, 0);
	let x = rest();
	let rel = Releases::<V>::get(path, r);
	let (h0, f0, t0) = (held(r.0, acc), free(acc), free(tr()));
	if Px::transfer_bonds_back_to_treasury(o.clone(), path, r).is_err() {
		return;
	}
	cover("released");
	check("signed origin required", matches!(o, VOrigin::Signed(_)));
	match rel {
		None => check("bonds stay until a release is set", false),
		Some(ReleaseType::Locked(b)) => check("bonds stay until the release block", b <= now),
		Some(ReleaseType::Refunded) => cover("refunded"),
	}
	check("all the bonds of the reason are released", held(r.0, acc) == 0);
	check("the treasury gets exactly the bonds back", and(free(tr()) == t0 + h0, free(acc) == f0));
	check("other balances untouched", or(or(x.who == acc, x.who == tr()), free(x.who) == x.free));
	check("other holds untouched", or(and(x.who == acc, x.r == r.0), held(x.r, x.who) == x.held));
	check("nothing else is written", frame("Ghost.GFree Ghost.GHeld"));
}
pub fn vc_p02_release_due() {
	let (path, r, who) = (any::<u32>(), Reason(any()), any::<Acc>());
	let now = System::block_number();
	let acc = sub(path);
	assume(and(path < u32::MAX, acc != tr()));
	small(&[acc, tr()], r, 0);
	let due = match Releases::<V>::get(path, r) {
		None => false,
		Some(ReleaseType::Locked(b)) => b <= now,
		Some(ReleaseType::Refunded) => true,
	};
	assume(and(due, !GNoTransfer::get()));
	cover("due");
	check("once due, anyone can send the bonds back", Px::transfer_bonds_back_to_treasury(VOrigin::Signed(who), path, r).is_ok());
}
pub fn vc_p02_fees() {
	let (path, r, o, asset) = (any::<u32>(), Reason(any()), any::<VOrigin>(), any::<u32>());
	let acc = sub(path);
	assume(and(path < u32::MAX, acc != rcp()));
	small(&[acc, rcp()], r, asset);
	let x = rest();
	let rel = Releases::<V>::get(path, r);
	let (a0, r0) = (fee(asset, acc), fee(asset, rcp()));
	if Px::transfer_fees_to_recipient(o.clone(), path, r, asset).is_err() {
		return;
	}
	cover("fees paid out");
	check("signed origin required", matches!(o, VOrigin::Signed(_)));
	check("fees are paid out only when the bonds are kept", matches!(rel, Some(ReleaseType::Locked(_))));
	check("the recipient gets all the fees", and(fee(asset, acc) == 0, fee(asset, rcp()) == r0 + a0));
	check("other fee balances untouched", or(and(or(x.who == acc, x.who == rcp()), x.asset == asset), fee(x.asset, x.who) == x.fee));
	check("nothing else is written", frame("Ghost.GFee"));
}
pub fn vc_p02_set_release() {
	let (path, r, b) = (any::<u32>(), Reason(any()), any::<u64>());
	let (p2, r2) = (any::<u32>(), Reason(any()));
	let other = Releases::<V>::get(p2, r2);
	let refund: bool = any();
	Px::set_release_type(path, r, if refund { ReleaseType::Refunded } else { ReleaseType::Locked(b) });
	cover("set");
	match Releases::<V>::get(path, r) {
		Some(ReleaseType::Locked(c)) => check("the release is recorded", and(!refund, c == b)),
		Some(ReleaseType::Refunded) => check("the release is recorded", refund),
		None => check("the release is recorded", false),
	}
	check("other releases untouched", or(and(p2 == path, r2.0 == r.0), same(&Releases::<V>::get(p2, r2), &other)));
	check("nothing else is written", frame("ProxyBonding.Releases"));
}

// ================================================================ P01: bonding against a fee
pub fn vc_p01_bond() {
	let (path, who, amount, asset, r) = (any::<u32>(), any::<Acc>(), any::<u128>(), any::<u32>(), Reason(any()));
	let acc = sub(path);
	let ed = param(P_ED);
	assume(and(and(path < u32::MAX, acc != tr()), and(acc != who, ed <= MAXB)));
	small(&[acc, tr(), who], r, asset);
	by_contract("pallet_proxy_bonding::functions::<impl pallet_proxy_bonding::Pallet<T>>::calculate_fee");
	let x = rest();
	let cost = Px::calculate_fee(amount, asset);
	let (h0, f0, t0, u0, a0) = (held(r.0, acc), free(acc), free(tr()), fee(asset, who), fee(asset, acc));
	if Px::bond_on_behalf_of(path, who, amount, asset, r).is_err() {
		return;
	}
	cover("bonded");
	let Ok(cost) = cost else {
		check("no bond without a fee", false);
		return;
	};
	let top = if f0 < ed { ed } else { 0 };
	check("the amount is bonded", held(r.0, acc) == h0 + amount);
	check("the treasury pays exactly the bond and the existential deposit of the sub-account",
		and(m(free(tr())).add(m(amount)).add(m(top)).eq(m(t0)), free(acc) == f0 + top));
	check("the treasury is not emptied", or(free(tr()) >= ed, and(amount == 0, top == 0)));
	check("the user pays exactly the fee", and(m(fee(asset, who)).add(m(cost)).eq(m(u0)), fee(asset, acc) == a0 + cost));
	check("the user keeps the minimum balance of the fee asset", or(fee(asset, who) >= GMin::get(asset), cost == 0));
	check("other balances untouched", or(or(x.who == acc, x.who == tr()), free(x.who) == x.free));
	check("other holds untouched", or(and(x.who == acc, x.r == r.0), held(x.r, x.who) == x.held));
	check("other fee balances untouched", or(and(or(x.who == acc, x.who == who), x.asset == asset), fee(x.asset, x.who) == x.fee));
	check("nothing else is written", frame("Ghost.GFee Ghost.GFree Ghost.GHeld"));
}
pub fn vc_p01_refund() {
	let (path, who, amount, asset) = (any::<u32>(), any::<Acc>(), any::<u128>(), any::<u32>());
	let acc = sub(path);
	assume(and(path < u32::MAX, acc != who));
	small(&[acc, who], Reason(0), asset);
	by_contract("pallet_proxy_bonding::functions::<impl pallet_proxy_bonding::Pallet<T>>::calculate_fee");
	let x = rest();
	let cost = Px::calculate_fee(amount, asset);
	let (u0, a0) = (fee(asset, who), fee(asset, acc));
	if Px::refund_fee(path, &who, amount, asset).is_err() {
		return;
	}
	cover("refunded");
	let Ok(cost) = cost else {
		check("no refund without a fee", false);
		return;
	};
	check("exactly the fee is returned", and(fee(asset, who) == u0 + cost, m(fee(asset, acc)).add(m(cost)).eq(m(a0))));
	check("other fee balances untouched", or(and(or(x.who == acc, x.who == who), x.asset == asset), fee(x.asset, x.who) == x.fee));
	check("nothing else is written", frame("Ghost.GFee"));
}

/// the fee: the configured share of the bond's value, in the fee asset at the current prices
pub fn vc_p01_fee() {
	let (amount, asset) = (any::<u128>(), any::<u32>());
	let dec = GDecimals::get(asset);
	// prices below 2^86 (in units of 10^-18), assets of up to 18 decimals, amounts below 2^100
	assume(and(and(dec <= 18, amount <= 1 << 100), param(23) <= 1_000_000_000));
	let (pb, pf) = (GPrice::get(3344), GPrice::get(asset));
	assume(and(pb.unwrap_or(0) <= 1 << 86, pf.unwrap_or(0) <= 1 << 86));
	let res = Px::calculate_fee(amount, asset);
	let (Some(pb), Some(pf)) = (pb, pf) else {
		cover("no price");
		check("no fee without prices", res.is_err());
		return;
	};
	const ONE: u128 = 1_000_000_000_000_000_000;
	// price of one base unit in base units of the reference currency, times 10^18
	let unit = 10u128.pow(dec as u32);
	let b = muldiv(muldiv(pb, 1_000_000, ONE), ONE, 10_000_000_000);
	let f = muldiv(muldiv(pf, 1_000_000, ONE), ONE, unit);
	if f == 0 {
		check("no fee without a usable price", res.is_err());
		return;
	}
	let Ok(fee) = res else {
		check("a fee whenever there are prices", false);
		return;
	};
	cover("fee");
	let usd = muldiv(b, amount, ONE);
	let share = percent_of(param(23), usd);
	let want = muldiv(muldiv(ONE, ONE, f), share, ONE);
	check("the fee is the share of the value of the bond at current prices", fee == want);
	check("nothing is written", frame(""));
}
/// parts per billion of `x`, rounded to nearest (a half down)
fn percent_of(parts: u128, x: u128) -> u128 { (x / 1_000_000_000) * parts + muldiv_near(x % 1_000_000_000, parts, 1_000_000_000) }
fn muldiv_near(a: u128, b: u128, c: u128) -> u128 { let p = a * b; p / c + if p % c > c / 2 { 1 } else { 0 } }
