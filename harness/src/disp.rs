//! Contracts of the credentials of `polimec-common` and of `pallet-dispenser`.
use crate::coins::*;
use crate::ghost::*;
use crate::rt::*;
use crate::{Gov, System, VCall, VEvent, VOrigin, V};
use frame_support::pallet_prelude::{OptionQuery, ValueQuery};
use frame_support::traits::{
	tokens::{currency::VestingSchedule, imbalance::SignedImbalance},
	Currency, ExistenceRequirement, Get, IsSubType, WithdrawReasons,
};
use frame_support::{storage_alias, Identity, PalletId, StorageMap as _, StorageValue as _};
use pallet_dispenser::{extensions::CheckNonce, Call, Config, DispenseAmount, Dispensed, Pallet};
use polimec_common::credentials::{Cid, Did, EnsureInvestor, EnsureOriginWithCredentials, InvestorType, SampleClaims, UntrustedToken};
use sp_runtime::{
	traits::{ConvertInto, SignedExtension},
	DispatchError, DispatchResult,
};

impl pallet_timestamp::Config for V {
	type Moment = u64;
}
/// what the credential of the caller says
#[storage_alias]
pub type GCitizen = StorageValue<Ghost, Option<(Did, InvestorType, Cid)>, ValueQuery>;
pub struct Citizen;
impl EnsureOriginWithCredentials<VOrigin> for Citizen {
	type Success = (Acc, Did, InvestorType, Cid);
	type Claims = ();
	/// contract: a signed origin with a valid credential (C01)
	fn try_origin(o: VOrigin, _t: &UntrustedToken, _k: [u8; 32]) -> Result<Self::Success, VOrigin> {
		match (o, GCitizen::get()) {
			(VOrigin::Signed(who), Some((did, kind, cid))) => Ok((who, did, kind, cid)),
			(o, _) => Err(o),
		}
	}
}
/// the policy the dispenser accepts
#[storage_alias]
pub type GAccepted = StorageValue<Ghost, Cid, ValueQuery>;
macro_rules! constant {
	($($name:ident : $t:ty = $e:expr;)*) => { $(
		pub struct $name;
		impl Get<$t> for $name {
			fn get() -> $t { $e }
		}
	)* };
}
constant! {
	Free: Bal = param(40);
	Initial: Bal = param(41);
	Lock: Bn = param(42) as u64;
	Vest: Bn = param(43) as u64;
	Id: PalletId = PalletId(*b"plmc/fau");
	Key: [u8; 32] = [0; 32];
	Policy: Cid = GAccepted::get();
}
pub const O_ADMIN: u8 = 30;
impl Config for V {
	type AdminOrigin = Gov<O_ADMIN>;
	type BlockNumberToBalance = ConvertInto;
	type FreeDispenseAmount = Free;
	type InitialDispenseAmount = Initial;
	type InvestorOrigin = Citizen;
	type LockPeriod = Lock;
	type PalletId = Id;
	type RuntimeEvent = VEvent;
	type VestingSchedule = Vests;
	type VestPeriod = Vest;
	type VerifierPublicKey = Key;
	type WeightInfo = ();
	type WhitelistedPolicy = Policy;
}
/// call 2 is the one that dispenses
impl IsSubType<Call<V>> for VCall {
	fn is_sub_type(&self) -> Option<&Call<V>> {
		match self.0 {
			2 => Some(Box::leak(Box::new(Call::dispense { jwt: token() }))),
			3 => Some(Box::leak(Box::new(Call::set_dispense_amount { amount: 0 }))),
			_ => None,
		}
	}
}
fn token() -> UntrustedToken { UntrustedToken(vec![]) }
type Disp = Pallet<V>;

// ------------------------------------------------------------------ C01: credentials
pub fn vc_c01_credential() {
	by_contract("polimec_common::credentials::Validator::<T>::validate");
	let (o, key, t) = (any::<VOrigin>(), [any::<u8>(); 32], token());
	let now = pallet_timestamp::Now::<V>::get();
	let claims = EnsureInvestor::<V>::verify_token(&t, key);
	let got = EnsureInvestor::<V>::ensure_origin(o.clone(), &t, key);
	let ok = match (&o, &claims) {
		(VOrigin::Signed(w), Ok(c)) => and(c.claims().custom.subject == *w, match c.claims().expiration {
			Some(e) => and(e.0 >= 0, e.0 as u64 >= now),
			None => false,
		}),
		_ => false,
	};
	check("a credential counts exactly when it is valid, the caller's own and not expired", iff(ok, got.is_ok()));
	let (Ok((w, did, kind, cid)), Ok(c)) = (got, claims) else { return };
	cover("accepted");
	check("the caller is who signed", o == VOrigin::Signed(w));
	let c = &c.claims().custom;
	check("it says what was issued", and(did == c.did, and(kind == c.investor_type, cid == c.ipfs_cid)));
}

// ------------------------------------------------------------------ G01: the dispenser
pub fn vc_g01_dispense() {
	let o = any::<VOrigin>();
	let x = any::<Acc>();
	let (did, q) = (any::<Did>(), GCitizen::get());
	let now = System::block_number();
	assume(and(param(42) < 1 << 60, and(param(43) < 1 << 60, now < 1 << 60)));
	let amount = DispenseAmount::<V>::get();
	let from = Disp::dispense_account();
	let (f0, x0) = (GFree::get(from), GFree::get(x));
	let had = Dispensed::<V>::get(&did).is_some();
	let n = GVestings::get(x);
	let before = match &q {
		Some((did, ..)) => Dispensed::<V>::get(did).is_some(),
		None => false,
	};
	let ok = match (&o, &q) {
		(VOrigin::Signed(who), Some((_, _, cid))) => and(
			and(!before, *cid == GAccepted::get()),
			and(and(f0 >= amount, !GNoTransfer::get()), and(!GNoVesting::get(who), or(*who == from, Bal::MAX - GFree::get(who) >= amount))),
		),
		_ => false,
	};
	let res = Disp::dispense(o.clone().into(), token());
	check("whoever has a new credential of the policy is dispensed tokens, and nobody else", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("dispensed");
	let (VOrigin::Signed(who), Some((id, _, cid))) = (o, q) else {
		check("a signed origin with a credential is required", false);
		return;
	};
	check("a person is dispensed tokens once", !before);
	check("the credential is of the policy", cid == GAccepted::get());
	check("this is on record", iff(Dispensed::<V>::get(&did).is_some(), or(had, did == id)));
	check("exactly the amount is dispensed", and(
		f0 >= amount,
		m(GFree::get(x)).add(m(ite_u128(x == from, amount, 0))).eq(m(x0).add(m(ite_u128(x == who, amount, 0)))),
	));
	let locked = amount.saturating_sub(param(40));
	let period = ite_u128(param(43) == 0, 1, param(43));
	check("all but the free part is vested over the period, after the time it is locked", GVesting::get(who) == Some((locked, locked / period, now + param(42) as u64)));
	check("one schedule is added", GVestings::get(x) == ite_u32(x == who, n.wrapping_add(1), n));
	check("nothing else is written", frame("Dispenser.Dispensed Ghost.GFree Ghost.GVestings Ghost.GVesting"));
}
pub fn vc_g01_amount() {
	let (o, a) = (any::<VOrigin>(), any::<Bal>());
	let before = DispenseAmount::<V>::get();
	let res = Disp::set_dispense_amount(o.clone().into(), a);
	let ok = and(matches!(o, VOrigin::Gov(O_ADMIN, _)), a > param(40));
	check("the administrator, and nobody else, sets an amount above the free part", iff(ok, res.is_ok()));
	check("the amount is what was set", DispenseAmount::<V>::get() == ite_u128(ok, a, before));
	check("nothing else is written", frame("Dispenser.DispenseAmount"));
}

// ------------------------------------------------------------------ G02: replay protection
pub fn vc_g02_dispatch() {
	let (who, call, n) = (any::<Acc>(), any::<VCall>(), any::<u32>());
	let a = frame_system::Account::<V>::get(who);
	assume(a.nonce < u32::MAX);
	let res = CheckNonce::<V>::from(n).pre_dispatch(&who, &call, &Default::default(), 0);
	let exists = or(a.providers > 0, a.sufficients > 0);
	let ok = and(or(exists, call.0 == 2), n == a.nonce);
	check("a transaction runs once, in order, for an account that exists or asks to be dispensed tokens", iff(ok, res.is_ok()));
	let b = frame_system::Account::<V>::get(who);
	check("the next transaction has the next number", b.nonce == ite_u32(ok, a.nonce.saturating_add(1), a.nonce));
	check("nothing else of the account changes", and(and(b.providers == a.providers, b.sufficients == a.sufficients), b.consumers == a.consumers));
	check("only this account", changed_only_at::<frame_system::Account<V>, _, _>(&[who]));
	check("nothing else is written", frame("System.Account"));
}
pub fn vc_g02_validate() {
	let (who, call, n) = (any::<Acc>(), any::<VCall>(), any::<u32>());
	let a = frame_system::Account::<V>::get(who);
	let res = CheckNonce::<V>::from(n).validate(&who, &call, &Default::default(), 0);
	let exists = or(a.providers > 0, a.sufficients > 0);
	let ok = and(or(exists, call.0 == 2), n >= a.nonce);
	check("a transaction that ran is not valid again", iff(ok, res.is_ok()));
	let Ok(v) = res else { return };
	cover("valid");
	check("it waits for the one before it", iff(n > a.nonce, v.requires.len() == 1));
	check("nothing is written", frame(""));
}
