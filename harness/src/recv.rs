//! Contracts of `polimec-receiver`.
use crate::coins::*;
use crate::ghost::*;
use crate::rt::*;
use crate::{VEvent, VOrigin, V};
use cumulus_pallet_xcm::Origin as ParaOrigin;
use frame_support::pallet_prelude::ValueQuery;
use frame_support::traits::Get;
use frame_support::{storage_alias, StorageMap as _, StorageValue as _};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use polimec_common::migration_types::{Migration, MigrationInfo, MigrationOrigin, Migrations, ParticipationType};
use polimec_receiver::{Config, ExecutedMigrations, Pallet};
use polkadot_parachain_primitives::primitives::{Id as ParaId, Sibling};
use scale_info::TypeInfo;
use sp_runtime::traits::{AccountIdConversion, Convert};
use staging_xcm::v4::{Junction::AccountId32, Junctions, Location};

/// an account of the receiving chain
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Id32(pub [u8; 32]);
impl From<[u8; 32]> for Id32 {
	fn from(x: [u8; 32]) -> Self { Id32(x) }
}
impl core::fmt::Display for Id32 {
	fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl serde::Serialize for Id32 {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u8(0) }
}
impl<'de> serde::Deserialize<'de> for Id32 {
	fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { Ok(Id32([0; 32])) }
}
/// the sibling chain that calls
#[storage_alias]
pub type GSibling = StorageValue<Ghost, u32, ValueQuery>;
pub const O_SIBLING: u8 = 40;
pub const O_RELAY: u8 = 41;
impl From<VOrigin> for Result<ParaOrigin, VOrigin> {
	fn from(o: VOrigin) -> Self {
		match o {
			VOrigin::Gov(O_SIBLING, _) => Ok(ParaOrigin::SiblingParachain(GSibling::get().into())),
			VOrigin::Gov(O_RELAY, _) => Ok(ParaOrigin::Relay),
			o => Err(o),
		}
	}
}
pub struct Polimec;
impl Get<ParaId> for Polimec {
	fn get() -> ParaId { 3344.into() }
}
pub struct Genesis;
impl Get<Bn> for Genesis {
	fn get() -> Bn { (param(45) % (1 << 64)) as u64 }
}
pub struct PerBlock;
impl Convert<MigrationInfo, Bal> for PerBlock {
	fn convert(i: MigrationInfo) -> Bal { rate(i.contribution_token_amount, i.vesting_time) }
}
/// any function of amount and time will do
fn rate(amount: Bal, time: u64) -> Bal { if amount > time as u128 { amount - time as u128 } else { 1 } }
impl Config for V {
	type Balance = Bal;
	type Balances = Coins;
	type GenesisMoment = Genesis;
	type MaxMigrations = MaxM;
	type MigrationInfoToPerBlockBalance = PerBlock;
	type PolimecParaId = Polimec;
	type RuntimeEvent = VEvent;
	type RuntimeOrigin = VOrigin;
	type Vesting = Vests;
}
pub struct MaxM;
impl Get<u128> for MaxM {
	fn get() -> u128 { param(46) }
}
type Recv = Pallet<V>;
const MAXB: u128 = 1 << 120;
fn done(m: &MigrationOrigin) -> bool { ExecutedMigrations::<V>::get((&m.user, &m.participation_type, &m.id)) }
fn user(m: &MigrationOrigin) -> Option<Acc> {
	match (m.user.parents, &m.user.interior) {
		(0, Junctions::X1([AccountId32 { id, .. }])) => Some(Id32(*id)),
		_ => None,
	}
}
fn treasury() -> Acc { Sibling(Polimec::get()).into_account_truncating() }
fn polimec(o: &VOrigin) -> bool { matches!(o, VOrigin::Gov(O_SIBLING, _)) && GSibling::get() == u32::from(Polimec::get()) }
const MOVED: &str = "PolimecReceiver.ExecutedMigrations Ghost.GFree Ghost.GVestings Ghost.GVesting";

/// any migration for an account of this chain
fn migration() -> Migration {
	let user = Location { parents: 0, interior: Junctions::X1([AccountId32 { network: any(), id: any() }]) };
	Migration::new(MigrationOrigin { user, id: any(), participation_type: any() }, MigrationInfo::from((any::<Bal>(), any::<u64>())))
}
// ------------------------------------------------------------------ R01: executing migrations
pub fn vc_r01_one() {
	let o = any::<VOrigin>();
	let from_polimec = polimec(&o);
	let (m, x, k) = (migration(), any::<Acc>(), migration().origin);
	let (from, before) = (treasury(), done(&m.origin));
	let who = user(&m.origin);
	let a = m.info.contribution_token_amount;
	let (f, other, known, n) = (GFree::get(from), GFree::get(x), done(&k), GVestings::get(x));
	let old = GVesting::get(x);
	assume(and(f <= MAXB, and(other <= MAXB, n < u32::MAX)));
	let to = who.map_or(0, |w| GFree::get(w));
	assume(to <= MAXB);
	let res = Recv::execute_migrations(o.into(), Migrations::from(vec![m.clone()]));
	check("only the migrations of Polimec are executed", imp(res.is_ok(), from_polimec));
	if res.is_err() {
		return;
	}
	cover("run");
	let Some(who) = who else {
		check("migrations are for accounts of this chain", false);
		return;
	};
	check("it is on record", done(&m.origin));
	check("no other migration is recorded", or(same(&k, &m.origin), done(&k) == known));
	let moved = if before || who == from { 0 } else { a };
	check("its tokens are paid out of the account of Polimec, once", and(GFree::get(from) == f - moved, or(who == from, GFree::get(who) == to + moved)));
	check("nobody else is paid", or(x == from, or(x == who, GFree::get(x) == other)));
	check("what is paid stays an account's minimum for Polimec", or(before, f.saturating_sub(param(P_ED)) >= a));
	if before {
		cover("again");
		check("nothing vests twice", and(GVestings::get(x) == n, GVesting::get(x) == old));
	} else {
		cover("new");
		check("it vests as sent", GVesting::get(who) == Some((a, rate(a, m.info.vesting_time), Genesis::get())));
		check("nothing else vests", and(GVestings::get(x) == n + if x == who { 1 } else { 0 }, or(x == who, GVesting::get(x) == old)));
	}
	check("nothing else is written", frame(MOVED));
}
pub fn vc_r01_two() {
	cover("bounded: two migrations in one message");
	let (m, n, x) = (migration(), migration(), any::<Acc>());
	let from = treasury();
	let (Some(v), Some(w)) = (user(&m.origin), user(&n.origin)) else {
		return;
	};
	let (a, b) = (m.info.contribution_token_amount, n.info.contribution_token_amount);
	let (first, second) = (!done(&m.origin), !done(&n.origin));
	let (f, other, k) = (GFree::get(from), GFree::get(x), GVestings::get(x));
	assume(and(and(f <= MAXB, GFree::get(v) <= MAXB), and(and(other <= MAXB, GFree::get(w) <= MAXB), k < u32::MAX - 1)));
	assume(and(and(x != from, GVestings::get(v) < u32::MAX - 1), and(v != from, and(w != from, GVestings::get(w) < u32::MAX - 1))));
	let again = same(&m.origin, &n.origin);
	GSibling::put(3344);
	let res = Recv::execute_migrations(VOrigin::Gov(O_SIBLING, from).into(), Migrations::from(vec![m.clone(), n.clone()]));
	if res.is_err() {
		return;
	}
	cover("run");
	let (a, b) = (if first { a } else { 0 }, if second && !again { b } else { 0 });
	check("both are on record", and(done(&m.origin), done(&n.origin)));
	check("Polimec pays each of them once", GFree::get(from) == f - a - b);
	check("everyone is paid what is for it", GFree::get(x) == other + if x == v { a } else { 0 } + if x == w { b } else { 0 });
	check("each vests once", GVestings::get(x) == k + (x == v && first) as u32 + (x == w && second && !again) as u32);
}
pub fn vc_r01_foreign() {
	let (o, m) = (any::<VOrigin>(), any::<Migration>());
	assume(user(&m.origin).is_none());
	cover("foreign");
	check("a migration for no account of this chain fails", Recv::execute_migrations(o.into(), Migrations::from(vec![m])).is_err());
}
