#![allow(dead_code, unused_imports, unused_variables)]
pub mod rt;
pub mod ghost;
pub mod models;
pub mod spec;
#[cfg(feature = "gov")]
pub mod dem;
#[cfg(feature = "gov")]
pub mod dem2;
#[cfg(feature = "gov")]
pub mod elect;
#[cfg(feature = "gov")]
pub mod slash;
#[cfg(feature = "polimec")]
pub mod lin;
#[cfg(feature = "polimec")]
pub mod prox;
#[cfg(any(feature = "polimec", feature = "recv"))]
pub mod coins;
#[cfg(feature = "polimec")]
pub mod disp;
#[cfg(feature = "recv")]
pub mod recv;
#[cfg(feature = "fund")]
pub mod fund;
#[cfg(feature = "stake")]
pub mod stake;
#[cfg(not(verif_mir))]
pub mod table;

use frame_support::traits::{EnsureOrigin, OriginTrait, PalletInfo as PalletInfoT};
use frame_system::RawOrigin;
use ghost::*;
use sp_core::H256;
use sp_runtime::traits::{BlakeTwo256, IdentityLookup};

#[cfg(feature = "gov")]
pub type Democracy = pallet_democracy::Pallet<V>;
#[cfg(feature = "gov")]
pub type Elections = pallet_elections_phragmen::Pallet<V>;
pub type System = frame_system::Pallet<V>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct V;

#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
pub struct VCall(pub u32);
impl From<frame_system::Call<V>> for VCall {
	fn from(_: frame_system::Call<V>) -> Self { VCall(0) }
}
#[cfg(feature = "fund")]
impl From<pallet_funding::Call<V>> for VCall {
	fn from(_: pallet_funding::Call<V>) -> Self { VCall(1) }
}
impl sp_runtime::traits::Dispatchable for VCall {
	type RuntimeOrigin = VOrigin;
	type Config = ();
	type Info = frame_support::dispatch::DispatchInfo;
	type PostInfo = ();
	fn dispatch(self, _o: VOrigin) -> sp_runtime::DispatchResultWithInfo<()> { Ok(()) }
}
#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo)]
pub enum VEvent { E }
impl From<frame_system::Event<V>> for VEvent { fn from(_: frame_system::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "gov")]
impl From<pallet_democracy::Event<V>> for VEvent { fn from(_: pallet_democracy::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "gov")]
impl From<pallet_vesting::Event<V>> for VEvent { fn from(_: pallet_vesting::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "gov")]
impl From<pallet_elections_phragmen::Event<V>> for VEvent { fn from(_: pallet_elections_phragmen::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "polimec")]
impl From<pallet_linear_release::Event<V>> for VEvent { fn from(_: pallet_linear_release::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "polimec")]
impl From<pallet_dispenser::Event<V>> for VEvent { fn from(_: pallet_dispenser::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "polimec")]
impl From<pallet_proxy_bonding::Event<V>> for VEvent { fn from(_: pallet_proxy_bonding::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "recv")]
impl From<polimec_receiver::Event<V>> for VEvent { fn from(_: polimec_receiver::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "stake")]
impl From<pallet_parachain_staking::Event<V>> for VEvent { fn from(_: pallet_parachain_staking::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "fund")]
impl From<pallet_funding::Event<V>> for VEvent { fn from(_: pallet_funding::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "fund")]
impl From<pallet_balances::Event<V>> for VEvent { fn from(_: pallet_balances::Event<V>) -> Self { VEvent::E } }
#[cfg(feature = "fund")]
impl TryInto<pallet_funding::Event<V>> for VEvent {
	type Error = ();
	fn try_into(self) -> Result<pallet_funding::Event<V>, ()> { Err(()) }
}
impl TryInto<frame_system::Event<V>> for VEvent {
	type Error = ();
	fn try_into(self) -> Result<frame_system::Event<V>, ()> { Err(()) }
}

/// Caller of an extrinsic.  `Gov(k)` stands for the governance origin of kind `k` (see the `O_*` constants).
#[derive(Clone, PartialEq, Eq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, parity_scale_codec::MaxEncodedLen, scale_info::TypeInfo)]
pub enum VOrigin {
	Root,
	Signed(Acc),
	None,
	Gov(u8, Acc),
}
pub const O_EXTERNAL: u8 = 0;
pub const O_MAJORITY: u8 = 1;
pub const O_DEFAULT: u8 = 2;
pub const O_FAST: u8 = 3;
pub const O_INSTANT: u8 = 4;
pub const O_CANCEL: u8 = 5;
pub const O_BLACKLIST: u8 = 6;
pub const O_CANCEL_PROP: u8 = 7;
pub const O_VETO: u8 = 8;
pub const O_SUBMIT: u8 = 9;

impl From<RawOrigin<Acc>> for VOrigin {
	fn from(o: RawOrigin<Acc>) -> Self {
		match o {
			RawOrigin::Root => VOrigin::Root,
			RawOrigin::Signed(w) => VOrigin::Signed(w),
			RawOrigin::None => VOrigin::None,
		}
	}
}
impl From<VOrigin> for Result<RawOrigin<Acc>, VOrigin> {
	fn from(o: VOrigin) -> Self {
		match o {
			VOrigin::Root => Ok(RawOrigin::Root),
			VOrigin::Signed(w) => Ok(RawOrigin::Signed(w)),
			VOrigin::None => Ok(RawOrigin::None),
			o => Err(o),
		}
	}
}
impl frame_support::traits::CallerTrait<Acc> for VOrigin {
	fn into_system(self) -> Option<RawOrigin<Acc>> {
		<Result<RawOrigin<Acc>, VOrigin>>::from(self).ok()
	}
	fn as_system_ref(&self) -> Option<&RawOrigin<Acc>> { None }
}
impl OriginTrait for VOrigin {
	type Call = VCall;
	type PalletsOrigin = VOrigin;
	type AccountId = Acc;
	fn add_filter(&mut self, _f: impl Fn(&VCall) -> bool + 'static) {}
	fn reset_filter(&mut self) {}
	fn set_caller_from(&mut self, other: impl Into<Self>) { *self = other.into() }
	fn filter_call(&self, _c: &VCall) -> bool { true }
	fn caller(&self) -> &VOrigin { self }
	fn into_caller(self) -> VOrigin { self }
	fn try_with_caller<R>(self, f: impl FnOnce(VOrigin) -> Result<R, VOrigin>) -> Result<R, Self> { f(self) }
	fn none() -> Self { VOrigin::None }
	fn root() -> Self { VOrigin::Root }
	fn signed(by: Acc) -> Self { VOrigin::Signed(by) }
	fn as_signed(self) -> Option<Acc> { if let VOrigin::Signed(w) = self { Some(w) } else { None } }
	fn as_system_ref(&self) -> Option<&RawOrigin<Acc>> { None }
}
pub struct Gov<const K: u8>;
impl<const K: u8> EnsureOrigin<VOrigin> for Gov<K> {
	type Success = Acc;
	fn try_origin(o: VOrigin) -> Result<Acc, VOrigin> {
		match o {
			VOrigin::Gov(k, w) if k == K => Ok(w),
			o => Err(o),
		}
	}
}
pub struct Info;
impl PalletInfoT for Info {
	fn index<P: 'static>() -> Option<usize> { Some(0) }
	fn name<P: 'static>() -> Option<&'static str> {
		let n = std::any::type_name::<P>();
		Some(if n.contains("democracy") { "Democracy" } else if n.contains("elections") { "Elections" } else if n.contains("vesting") { "Vesting" } else if n.contains("linear_release") { "LinearRelease" } else if n.contains("polimec_receiver") { "PolimecReceiver" } else if n.contains("parachain_staking") { "ParachainStaking" } else if n.contains("dispenser") { "Dispenser" } else if n.contains("funding") { "Funding" } else if n.contains("balances") { "Balances" } else if n.contains("proxy_bonding") { "ProxyBonding" } else { "System" })
	}
	fn name_hash<P: 'static>() -> Option<[u8; 16]> { Self::name::<P>().map(|n| sp_io::hashing::twox_128(n.as_bytes())) }
	fn module_name<P: 'static>() -> Option<&'static str> { Some("m") }
	fn crate_version<P: 'static>() -> Option<frame_support::traits::CrateVersion> { None }
}

impl frame_system::Config for V {
	type RuntimeEvent = VEvent;
	type BaseCallFilter = frame_support::traits::Everything;
	type BlockWeights = ();
	type BlockLength = ();
	type RuntimeOrigin = VOrigin;
	type RuntimeCall = VCall;
	type RuntimeTask = ();
	type Nonce = u32;
	type Hash = H256;
	type Hashing = BlakeTwo256;
	type AccountId = Acc;
	type Lookup = IdentityLookup<Acc>;
	type Block = sp_runtime::generic::Block<sp_runtime::generic::Header<u64, BlakeTwo256>, sp_runtime::OpaqueExtrinsic>;
	type BlockHashCount = frame_support::traits::ConstU64<250>;
	type DbWeight = ();
	type Version = ();
	type PalletInfo = Info;
	#[cfg(not(feature = "fund"))]
	type AccountData = ();
	#[cfg(feature = "fund")]
	type AccountData = pallet_balances::AccountData<u128>;
	type OnNewAccount = ();
	type OnKilledAccount = ();
	type SystemWeightInfo = ();
	type SS58Prefix = frame_support::traits::ConstU16<0>;
	type OnSetCode = ();
	type MaxConsumers = frame_support::traits::ConstU32<16>;
	type SingleBlockMigrations = ();
	type MultiBlockMigrator = ();
	type PreInherents = ();
	type PostInherents = ();
	type PostTransactions = ();
}

#[cfg(feature = "gov")]
impl pallet_democracy::Config for V {
	type WeightInfo = ();
	type RuntimeEvent = VEvent;
	type Scheduler = Scheduler;
	type Preimages = Preimages;
	type RuntimeHoldReason = Reason;
	type RuntimeFreezeReason = Reason;
	type Fungible = Fung;
	type EnactmentPeriod = EnactmentPeriod;
	type LaunchPeriod = LaunchPeriod;
	type VotingPeriod = VotingPeriod;
	type VoteLockingPeriod = VoteLockingPeriod;
	type MinimumDeposit = MinimumDeposit;
	type InstantAllowed = InstantAllowed;
	type FastTrackVotingPeriod = FastTrackVotingPeriod;
	type CooloffPeriod = CooloffPeriod;
	type MaxVotes = MaxVotes;
	type MaxProposals = MaxProposals;
	type MaxDeposits = MaxDeposits;
	type MaxBlacklisted = MaxBlacklisted;
	type ExternalOrigin = Gov<O_EXTERNAL>;
	type ExternalMajorityOrigin = Gov<O_MAJORITY>;
	type ExternalDefaultOrigin = Gov<O_DEFAULT>;
	type SubmitOrigin = Gov<O_SUBMIT>;
	type FastTrackOrigin = Gov<O_FAST>;
	type InstantOrigin = Gov<O_INSTANT>;
	type CancellationOrigin = Gov<O_CANCEL>;
	type BlacklistOrigin = Gov<O_BLACKLIST>;
	type CancelProposalOrigin = Gov<O_CANCEL_PROP>;
	type VetoOrigin = Gov<O_VETO>;
	type PalletsOrigin = VOrigin;
	type Slash = SlashTo;
	type Electorate = Electorate;
}
#[cfg(feature = "gov")]
impl pallet_elections_phragmen::Config for V {
	type RuntimeEvent = VEvent;
	type Currency = Fung;
	type Balance = u128;
	type RuntimeHoldReason = Reason;
	type RuntimeFreezeReason = Reason;
	type ChangeMembers = Members;
	type InitializeMembers = Members;
	type CurrencyToVote = sp_staking::currency_to_vote::SaturatingCurrencyToVote;
	type CandidacyBond = CandidacyBond;
	type LoserCandidate = SlashTo;
	type DesiredMembers = DesiredMembers;
	type DesiredRunnersUp = DesiredRunnersUp;
	type TermDuration = TermDuration;
	type VotingLockPeriod = VotingLockPeriod;
	type MaxCandidates = MaxCandidates;
	type MaxVoters = MaxVoters;
	type MaxVotesPerVoter = MaxVotesPerVoter;
	type WeightInfo = ();
}
