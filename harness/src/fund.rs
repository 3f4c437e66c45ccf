//! Contracts of `pallet-funding`: the life of a project, from application to the migration of its tokens.
use crate::ghost::*;
use crate::prox::{fee, Fees, GDecimals, GPrice, Prices, Px};
use crate::rt::*;
use crate::{System, VCall, VEvent, VOrigin, V};
use frame_support::pallet_prelude::{OptionQuery, StorageDoubleMap, StorageMap, StorageValue, ValueQuery};
use frame_support::storage::KeyPrefixIterator;
use frame_support::traits::{
	fungibles,
	tokens::{DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
	AccountTouch, ConstU128, ConstU32, ContainsPair, Get, StoredMap,
};
use frame_support::{storage_alias, Identity, PalletId, StorageMap as _, StorageValue as _};
use pallet_funding::{types::*, *};
use polimec_common::credentials::{Cid, Did, EnsureOriginWithCredentials, InvestorType, UntrustedToken};
use polimec_common::migration_types::{Migration, MigrationStatus, ParticipationType};
use polimec_common::ProvideAssetPrice;
use sp_runtime::{
	traits::{ConvertBack, Saturating},
	DispatchError, DispatchResult, FixedPointNumber, FixedU128, Percent, Perquintill, TokenError,
};
use staging_xcm::v4::prelude::*;

pub type Fund = Pallet<V>;

// ------------------------------------------------------------------ ghost environment
/// key: (asset, account)
#[storage_alias]
pub type GTok = StorageMap<Ghost, Identity, (u32, Acc), Bal, ValueQuery>;
/// the account may hold the asset
#[storage_alias]
pub type GTokAccount = StorageMap<Ghost, Identity, (u32, Acc), bool, ValueQuery>;
/// the account that administers the asset, when there is such an asset
#[storage_alias]
pub type GTokAdmin = StorageMap<Ghost, Identity, u32, Acc, OptionQuery>;
#[storage_alias]
pub type GTokDecimals = StorageMap<Ghost, Identity, u32, u8, ValueQuery>;
/// accounts may not be opened
#[storage_alias]
pub type GNoTouch = StorageValue<Ghost, bool, ValueQuery>;
/// contribution tokens
pub struct Toks;
impl fungibles::Inspect<Acc> for Toks {
	type AssetId = u32;
	type Balance = Bal;
	fn total_issuance(_a: u32) -> Bal { Bal::MAX }
	fn minimum_balance(_a: u32) -> Bal { 1 }
	fn total_balance(a: u32, who: &Acc) -> Bal { GTok::get((a, *who)) }
	fn balance(a: u32, who: &Acc) -> Bal { GTok::get((a, *who)) }
	fn reducible_balance(a: u32, who: &Acc, _p: Preservation, _f: Fortitude) -> Bal { GTok::get((a, *who)) }
	fn can_deposit(_a: u32, _who: &Acc, _amount: Bal, _p: Provenance) -> DepositConsequence { DepositConsequence::Success }
	fn can_withdraw(_a: u32, _who: &Acc, _amount: Bal) -> WithdrawConsequence<Bal> { WithdrawConsequence::Success }
	fn asset_exists(a: u32) -> bool { GTokAdmin::get(a).is_some() }
}
impl fungibles::Unbalanced<Acc> for Toks {
	fn handle_dust(_d: fungibles::Dust<Acc, Self>) {}
	fn write_balance(a: u32, who: &Acc, amount: Bal) -> Result<Option<Bal>, DispatchError> {
		GTok::insert((a, *who), amount);
		Ok(None)
	}
	fn set_total_issuance(_a: u32, _amount: Bal) {}
}
impl fungibles::Mutate<Acc> for Toks {
	/// contract: fails without effect (no such asset, an account that may not hold it, too much) or creates exactly `amount`
	fn mint_into(a: u32, who: &Acc, amount: Bal) -> Result<Bal, DispatchError> {
		let b = GTok::get((a, *who));
		if GTokAdmin::get(a).is_none() || !GTokAccount::get((a, *who)) || Bal::MAX - b < amount {
			return Err(DispatchError::Token(TokenError::CannotCreate));
		}
		GTok::insert((a, *who), b + amount);
		Ok(amount)
	}
}
impl fungibles::Create<Acc> for Toks {
	/// contract: an asset is created once
	fn create(a: u32, admin: Acc, _sufficient: bool, _min: Bal) -> DispatchResult {
		if GTokAdmin::get(a).is_some() {
			return Err(DispatchError::Token(TokenError::CannotCreate));
		}
		GTokAdmin::insert(a, admin);
		Ok(())
	}
}
impl fungibles::Destroy<Acc> for Toks {
	fn start_destroy(_a: u32, _o: Option<Acc>) -> DispatchResult { Err(DispatchError::Unavailable) }
	fn destroy_accounts(_a: u32, _n: u32) -> Result<u32, DispatchError> { Err(DispatchError::Unavailable) }
	fn destroy_approvals(_a: u32, _n: u32) -> Result<u32, DispatchError> { Err(DispatchError::Unavailable) }
	fn finish_destroy(_a: u32) -> DispatchResult { Err(DispatchError::Unavailable) }
}
impl fungibles::InspectEnumerable<Acc> for Toks {
	type AssetsIterator = KeyPrefixIterator<u32>;
	fn asset_ids() -> KeyPrefixIterator<u32> { GTokAdmin::iter_keys() }
}
impl fungibles::metadata::Inspect<Acc> for Toks {
	fn name(_a: u32) -> Vec<u8> { vec![] }
	fn symbol(_a: u32) -> Vec<u8> { vec![] }
	fn decimals(a: u32) -> u8 { GTokDecimals::get(a) }
}
impl fungibles::metadata::Mutate<Acc> for Toks {
	/// contract: the administrator of the asset describes it
	fn set(a: u32, from: &Acc, _name: Vec<u8>, _symbol: Vec<u8>, decimals: u8) -> DispatchResult {
		if GTokAdmin::get(a) != Some(*from) {
			return Err(DispatchError::BadOrigin);
		}
		GTokDecimals::insert(a, decimals);
		Ok(())
	}
}
impl fungibles::metadata::MetadataDeposit<Bal> for Toks {
	fn calc_metadata_deposit(_n: &[u8], _s: &[u8]) -> Bal { 0 }
}
impl fungibles::roles::Inspect<Acc> for Toks {
	fn owner(a: u32) -> Option<Acc> { GTokAdmin::get(a) }
	fn issuer(a: u32) -> Option<Acc> { GTokAdmin::get(a) }
	fn admin(a: u32) -> Option<Acc> { GTokAdmin::get(a) }
	fn freezer(a: u32) -> Option<Acc> { GTokAdmin::get(a) }
}
impl AccountTouch<u32, Acc> for Toks {
	type Balance = Bal;
	fn deposit_required(_a: u32) -> Bal { 0 }
	fn should_touch(a: u32, who: &Acc) -> bool { !GTokAccount::get((a, *who)) }
	fn touch(a: u32, who: &Acc, _depositor: &Acc) -> DispatchResult {
		if GNoTouch::get() || GTokAccount::get((a, *who)) {
			return Err(DispatchError::Token(TokenError::CannotCreate));
		}
		GTokAccount::insert((a, *who), true);
		Ok(())
	}
}
impl ContainsPair<u32, Acc> for Toks {
	fn contains(a: &u32, who: &Acc) -> bool { GTokAccount::get((*a, *who)) }
}
impl fungibles::InspectEnumerable<Acc> for Fees {
	type AssetsIterator = std::vec::IntoIter<u32>;
	fn asset_ids() -> std::vec::IntoIter<u32> { vec![].into_iter() }
}
impl fungibles::metadata::Mutate<Acc> for Fees {
	fn set(_a: u32, _from: &Acc, _name: Vec<u8>, _symbol: Vec<u8>, _decimals: u8) -> DispatchResult { Err(DispatchError::Unavailable) }
}

/// what the credential of the caller says
#[storage_alias]
pub type GDid = StorageValue<Ghost, Did, ValueQuery>;
#[storage_alias]
pub type GPolicy = StorageValue<Ghost, Cid, ValueQuery>;
/// 0: retail, 1: professional, 2: institutional
#[storage_alias]
pub type GInvestor = StorageValue<Ghost, u8, ValueQuery>;
#[storage_alias]
pub type GNoCredential = StorageValue<Ghost, bool, ValueQuery>;
pub struct Investor;
impl EnsureOriginWithCredentials<VOrigin> for Investor {
	type Success = (Acc, Did, InvestorType, Cid);
	type Claims = ();
	/// contract: a signed origin with a valid credential
	fn try_origin(o: VOrigin, _t: &UntrustedToken, _k: [u8; 32]) -> Result<Self::Success, VOrigin> {
		match o {
			VOrigin::Signed(who) if !GNoCredential::get() => Ok((who, GDid::get(), investor(), GPolicy::get())),
			o => Err(o),
		}
	}
}
fn investor() -> InvestorType {
	match GInvestor::get() {
		0 => InvestorType::Retail,
		1 => InvestorType::Professional,
		_ => InvestorType::Institutional,
	}
}
/// number of slashes reported, and the last one
#[storage_alias]
pub type GSlashes = StorageValue<Ghost, u32, ValueQuery>;
#[storage_alias]
pub type GLastSlash = StorageValue<Ghost, (Acc, Bal), OptionQuery>;
pub struct Slashes;
impl on_slash_vesting::OnSlash<Acc, Bal> for Slashes {
	fn on_slash(who: &Acc, amount: Bal) {
		GSlashes::put(GSlashes::get().wrapping_add(1));
		GLastSlash::put((*who, amount));
	}
}
pub struct Router;
#[storage_alias]
pub type GSent = StorageValue<Ghost, u32, ValueQuery>;
impl SendXcm for Router {
	type Ticket = ();
	fn validate(_d: &mut Option<Location>, _m: &mut Option<Xcm<()>>) -> SendResult<()> { Ok(((), Assets::default())) }
	fn deliver(_t: ()) -> Result<XcmHash, SendError> {
		GSent::put(GSent::get().wrapping_add(1));
		Ok([0; 32])
	}
}
/// the number of an account in the first sixteen bytes
pub struct AsBytes;
impl sp_runtime::traits::Convert<Acc, [u8; 32]> for AsBytes {
	fn convert(a: Acc) -> [u8; 32] { crate::rt::account_bytes(a) }
}
impl ConvertBack<Acc, [u8; 32]> for AsBytes {
	fn convert_back(b: [u8; 32]) -> Acc { u128::from_le_bytes(b[..16].try_into().unwrap()) }
}
macro_rules! constant {
	($($name:ident : $t:ty = $e:expr;)*) => { $(
		pub struct $name;
		impl Get<$t> for $name {
			fn get() -> $t { $e }
		}
	)* };
}
constant! {
	CommunityDuration: u64 = param(24) as u64;
	RemainderDuration: u64 = param(25) as u64;
	AuctionDuration: u64 = param(26) as u64;
	EvaluationDuration: u64 = param(27) as u64;
	EvaluationSuccess: Percent = Percent::from_percent(10);
	EvaluatorSlash: Percent = Percent::from_percent(20);
	FundingSuccess: Perquintill = Perquintill::from_percent(33);
	MaxBids: u32 = param(28) as u32;
	MaxBidsUser: u32 = param(29) as u32;
	MaxContributionsUser: u32 = param(30) as u32;
	MaxEvaluations: u32 = param(31) as u32;
	MaxEvaluationsUser: u32 = param(32) as u32;
	MinEvaluation: u128 = param(33);
	CapacityThresholds: std::ops::RangeInclusive<u32> = 8..=1000;
	SizeThresholds: std::ops::RangeInclusive<u32> = 102_300..=102_500;
	Brackets: Vec<(Percent, u128)> = vec![(Percent::from_percent(10), 1_000_000_000_000), (Percent::from_percent(8), 4_000_000_000_000), (Percent::from_percent(6), u128::MAX)];
	Operations: Acc = param(34);
	Contributions_: Acc = param(35);
	Key: [u8; 32] = [0; 32];
	FundId: PalletId = PalletId(*b"plmc/fun");
	Deposit: u128 = param(P_ED);
}
pub struct NoStore;
impl StoredMap<Acc, pallet_balances::AccountData<u128>> for NoStore {
	fn get(_k: &Acc) -> pallet_balances::AccountData<u128> { Default::default() }
	fn try_mutate_exists<R, E: From<DispatchError>>(_k: &Acc, _f: impl FnOnce(&mut Option<pallet_balances::AccountData<u128>>) -> Result<R, E>) -> Result<R, E> {
		Err(DispatchError::Unavailable.into())
	}
}
/// only its existential deposit is used
impl pallet_balances::Config for V {
	type RuntimeEvent = VEvent;
	type RuntimeHoldReason = Reason;
	type RuntimeFreezeReason = Reason;
	type WeightInfo = ();
	type Balance = u128;
	type DustRemoval = ();
	type ExistentialDeposit = Deposit;
	type AccountStore = NoStore;
	type ReserveIdentifier = [u8; 8];
	type FreezeIdentifier = Reason;
	type MaxLocks = ConstU32<0>;
	type MaxReserves = ConstU32<0>;
	type MaxFreezes = ConstU32<0>;
}
impl pallet_xcm::Config for V {
	type RuntimeCall = VCall;
	type XcmRouter = Router;
}
/// `Gov(O_PARACHAIN, n)`: a response from parachain `n`
pub const O_PARACHAIN: u8 = 20;
impl From<VOrigin> for Result<pallet_xcm::Origin, VOrigin> {
	fn from(o: VOrigin) -> Self {
		match o {
			VOrigin::Gov(O_PARACHAIN, n) => Ok(pallet_xcm::Origin::Response(Location::new(1, Parachain(n as u32)))),
			o => Err(o),
		}
	}
}
impl Config for V {
	type AccountId32Conversion = AsBytes;
	type AllPalletsWithoutSystem = ();
	type BlockNumber = u64;
	type CommunityRoundDuration = CommunityDuration;
	type ContributionTokenCurrency = Toks;
	type DaysToBlocks = DaysToBlocks;
	type AuctionRoundDuration = AuctionDuration;
	type EvaluationRoundDuration = EvaluationDuration;
	type EvaluationSuccessThreshold = EvaluationSuccess;
	type EvaluatorSlash = EvaluatorSlash;
	type FeeBrackets = Brackets;
	type FundingCurrency = Fees;
	type FundingSuccessThreshold = FundingSuccess;
	type InvestorOrigin = Investor;
	type MaxBidsPerProject = MaxBids;
	type MaxBidsPerUser = MaxBidsUser;
	type MaxCapacityThresholds = CapacityThresholds;
	type MaxContributionsPerUser = MaxContributionsUser;
	type MaxEvaluationsPerProject = MaxEvaluations;
	type MaxEvaluationsPerUser = MaxEvaluationsUser;
	type MinUsdPerEvaluation = MinEvaluation;
	type MaxMessageSizeThresholds = SizeThresholds;
	type Multiplier = Multiplier;
	type NativeCurrency = Fung;
	type PalletId = FundId;
	type Price = FixedU128;
	type PriceProvider = Prices;
	type RemainderRoundDuration = RemainderDuration;
	type RequiredMaxCapacity = ConstU32<8>;
	type RequiredMaxMessageSize = ConstU32<102_400>;
	type RuntimeCall = VCall;
	type RuntimeEvent = VEvent;
	type RuntimeHoldReason = Reason;
	type RuntimeOrigin = VOrigin;
	type StringLimit = ConstU32<64>;
	type BlockchainOperationTreasury = Operations;
	type ContributionTreasury = Contributions_;
	type VerifierPublicKey = Key;
	type WeightInfo = ();
	type OnSlash = Slashes;
}

// ------------------------------------------------------------------ specification
pub type Details = ProjectDetailsOf<V>;
fn details(id: u32) -> Option<Details> { ProjectsDetails::<V>::get(id) }
fn signed(o: &VOrigin) -> bool { matches!(o, VOrigin::Signed(_)) }
fn now() -> u64 { System::block_number() }
fn over(d: &Details) -> bool {
	match d.round_duration.end {
		Some(e) => e <= now(),
		None => true,
	}
}

// ------------------------------------------------------------------ F06: the end of the sale
pub fn vc_f06_end_funding() {
	let (id, o) = (any::<u32>(), any::<VOrigin>());
	let d = details(id);
	let (target, reached) = match &d {
		Some(d) => (d.fundraising_target_usd, d.funding_amount_reached_usd),
		None => (1, 0),
	};
	assume(target > 0);
	let res = Fund::end_funding(o.clone().into(), id);
	if res.is_err() {
		return;
	}
	cover("ended");
	let (Some(d), Some(e)) = (d, details(id)) else {
		check("only a project ends", false);
		return;
	};
	check("signed origin required", signed(&o));
	check("only the last round of a project ends this way", matches!(d.status, ProjectStatus::CommunityRound(_)));
	check("it ends when its time is over or everything is sold", or(d.remaining_contribution_tokens == 0, over(&d)));
	let enough = m(33).mul(m(target)).le(m(100).mul(m(reached)));
	check("it succeeds with a third of the target", iff(enough, e.status == ProjectStatus::FundingSuccessful));
	check("it fails otherwise", iff(!enough, e.status == ProjectStatus::FundingFailed));
	check("evaluators are slashed when it fails", iff(!enough, e.evaluation_round_info.evaluators_outcome == Some(EvaluatorsOutcome::Slashed)));
	check("settlement may start at once", and(e.round_duration.start == Some(now()), e.round_duration.end.is_none()));
	check("the issuer may start another project", DidWithActiveProjects::<V>::get(&d.issuer_did).is_none());
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.DidWithActiveProjects"));
}

// ------------------------------------------------------------------ F08: migration of the tokens
pub fn vc_f08_finish() {
	let (id, o) = (any::<u32>(), any::<VOrigin>());
	let (d, left) = (details(id), UnmigratedCounter::<V>::get(id));
	let res = Fund::mark_project_ct_migration_as_finished(o.clone().into(), id);
	let ok = match &d {
		Some(d) => and(and(signed(&o), left == 0), d.status == ProjectStatus::CTMigrationStarted),
		None => false,
	};
	check("finished exactly when every participant has migrated", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("finished");
	let (Some(d), Some(e)) = (d, details(id)) else {
		check("a project", false);
		return;
	};
	check("the status is all that changes", and(e.status == ProjectStatus::CTMigrationFinished, same(&Details { status: d.status.clone(), ..e.clone() }, &d)));
	check("only this project", changed_only_at::<ProjectsDetails<V>, _, _>(&[id]));
	check("nothing else is written", frame("Funding.ProjectsDetails"));
}

/// the caller, when it shows a credential of an institution
fn institution(o: &VOrigin) -> Option<Acc> {
	match o {
		VOrigin::Signed(who) if !GNoCredential::get() && GInvestor::get() >= 2 => Some(*who),
		_ => None,
	}
}
/// balances of any account, hold and asset, to state what is left alone
struct Rest {
	who: Acc,
	r: u8,
	asset: u32,
	free: Bal,
	held: Bal,
	fee: Bal,
	tok: Bal,
}
fn rest() -> Rest {
	let (who, r, asset) = (any(), any(), any());
	Rest { who, r, asset, free: free(who), held: held(r, who), fee: fee(asset, who), tok: GTok::get((asset, who)) }
}
const MAXB: u128 = 1 << 120;
/// room for sums: balances below 2^120, fewer than 2^20 participations
fn small(accounts: &[Acc]) {
	for a in accounts {
		assume(and(free(*a) <= MAXB, and(held(R_EVALUATION, *a) <= MAXB, held(R_PARTICIPATION, *a) <= MAXB)));
	}
	for k in 28..33 {
		assume(param(k) <= 1 << 20);
	}
}
fn token() -> UntrustedToken { UntrustedToken(vec![]) }
/// sub-account of "plmc/fun"
fn pot(id: u32) -> Acc {
	0x6c64_6f6d + (7959380270164831344 << 32) + ((id as Acc + 1) << 96)
}
/// the bonding tokens worth `usd`
fn plmc(usd: Bal) -> Option<Bal> {
	Prices::get_decimals_aware_price(polimec_common::PLMC_FOREIGN_ID, polimec_common::USD_DECIMALS, polimec_common::PLMC_DECIMALS)?
		.reciprocal()?
		.checked_mul_int(usd)
}
/// the funding tokens worth `usd`
fn funding(usd: Bal, a: AcceptedFundingAsset) -> Option<Bal> {
	Prices::get_decimals_aware_price(a.id(), polimec_common::USD_DECIMALS, GDecimals::get(a.id()))?.reciprocal()?.checked_mul_int(usd)
}

// ------------------------------------------------------------------ F02: evaluation
pub fn vc_f02_start() {
	let (id, o) = (any::<u32>(), any::<VOrigin>());
	let (d, meta) = (details(id), ProjectsMetadata::<V>::get(id));
	let who = institution(&o);
	let res = Fund::start_evaluation(o.clone().into(), token(), id);
	let ok = match (&d, &meta, who) {
		(Some(d), Some(meta), Some(who)) => and(
			and(and(d.issuer_account == who, !d.is_frozen), meta.policy_ipfs_cid.is_some()),
			and(d.status == ProjectStatus::Application, over(d)),
		),
		_ => false,
	};
	check("the issuer of a complete project in application, and nobody else, starts its evaluation", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("started");
	let (Some(d), Some(e)) = (d, details(id)) else {
		check("a project", false);
		return;
	};
	let end = now().saturating_add(param(27) as u64).saturating_sub(1);
	check("evaluation lasts its period from now on", e.round_duration == BlockNumberPair::new(Some(now()), Some(end)));
	check("the project is frozen and under evaluation", and(e.is_frozen, e.status == ProjectStatus::EvaluationRound));
	check("nothing else of it changes", same(&Details { status: d.status.clone(), is_frozen: d.is_frozen, round_duration: d.round_duration.clone(), ..e.clone() }, &d));
	check("only this project", changed_only_at::<ProjectsDetails<V>, _, _>(&[id]));
	check("nothing else is written", frame("Funding.ProjectsDetails"));
}
pub fn vc_f02_end() {
	let (id, o) = (any::<u32>(), any::<VOrigin>());
	let d = details(id);
	let res = Fund::end_evaluation(o.clone().into(), id);
	let ok = match &d {
		Some(d) => and(signed(&o), and(d.status == ProjectStatus::EvaluationRound, over(d))),
		None => false,
	};
	check("an evaluation ends exactly when its time is over", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("ended");
	let (Some(d), Some(e)) = (d, details(id)) else {
		check("a project", false);
		return;
	};
	let enough = d.evaluation_round_info.total_bonded_usd >= Percent::from_percent(10) * d.fundraising_target_usd;
	check("a tenth of the target in evaluations opens the auction", iff(enough, e.status == ProjectStatus::AuctionRound));
	check("a project without it fails", iff(!enough, e.status == ProjectStatus::FundingFailed));
	let lasts = ite_u64(enough, param(26) as u64, 1);
	let end = now().saturating_add(lasts).saturating_sub(1);
	check("the next round starts now", e.round_duration == BlockNumberPair::new(Some(now()), Some(end)));
	check("nothing else of it changes", same(&Details { status: d.status.clone(), round_duration: d.round_duration.clone(), ..e.clone() }, &d));
	check("a failed project frees its issuer", or(enough, DidWithActiveProjects::<V>::get(&d.issuer_did).is_none()));
	check("issuers stay bound otherwise", or(!enough, frame("Funding.ProjectsDetails")));
	check("only this project", changed_only_at::<ProjectsDetails<V>, _, _>(&[id]));
	check("only this issuer", changed_only_at::<DidWithActiveProjects<V>, _, _>(&[d.issuer_did.clone()]));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.DidWithActiveProjects"));
}
pub fn vc_f02_evaluate() {
	let (id, o, usd) = (any::<u32>(), any::<VOrigin>(), any::<u128>());
	let (d, meta) = (details(id), ProjectsMetadata::<V>::get(id));
	let n = NextEvaluationId::<V>::get();
	let (did, policy) = (GDid::get(), GPolicy::get());
	let x = rest();
	let (k0, k1, k2) = (any::<u32>(), any::<Acc>(), any::<u32>());
	let other = Evaluations::<V>::get((k0, k1, k2));
	let counts = EvaluationCounts::<V>::get(id);
	let VOrigin::Signed(who) = o.clone() else {
		check("signed origin required", Fund::evaluate(o.into(), token(), id, usd).is_err());
		return;
	};
	let mine = Evaluations::<V>::iter_prefix((id, who)).count() as u32;
	let (h0, f0) = (held(R_EVALUATION, who), free(who));
	if Fund::evaluate(o.clone().into(), token(), id, usd).is_err() {
		return;
	}
	cover("evaluated");
	let (Some(d), Some(e), Some(meta), Some(v)) = (d, details(id), meta, Evaluations::<V>::get((id, who, n))) else {
		check("an evaluation of a project is kept", false);
		return;
	};
	let round = d.round_duration.clone();
	check("a credential is required", !GNoCredential::get());
	check("projects are evaluated during their evaluation", and(d.status == ProjectStatus::EvaluationRound, and(round.start.map_or(true, |s| s <= now()), round.end.map_or(false, |e| now() < e))));
	check("the evaluator knows the policy of the project", meta.policy_ipfs_cid == Some(policy));
	check("issuers do not evaluate their own project", d.issuer_did != did);
	check("an evaluation has a minimum", usd >= param(33));
	check("so many evaluations per project", counts < param(31) as u32);
	check("so many evaluations per user", mine < param(32) as u32);
	let Some(bond) = plmc(usd) else {
		check("the bonding token has a price", false);
		return;
	};
	let goal = Percent::from_percent(10) * d.fundraising_target_usd;
	let old = d.evaluation_round_info.total_bonded_usd;
	let early = ite_u128(old >= goal, 0, ite_u128(goal.saturating_sub(old) <= usd, goal.saturating_sub(old), usd));
	check("what is bonded is worth the evaluation", and(v.original_plmc_bond == bond, v.current_plmc_bond == bond));
	check("exactly the bond is held", and(held(R_EVALUATION, who) == h0 + bond, free(who) + bond == f0));
	check("evaluations are early up to a tenth of the target", and(v.early_usd_amount == early, v.late_usd_amount == usd - early));
	check("the evaluation is its evaluator's", and(and(v.id == n, v.evaluator == who), and(v.project_id == id, and(v.did == did, v.when == now()))));
	check("the project counts it", and(
		and(e.evaluation_round_info.total_bonded_usd == old.saturating_add(usd), e.evaluation_round_info.total_bonded_plmc == d.evaluation_round_info.total_bonded_plmc.saturating_add(bond)),
		EvaluationCounts::<V>::get(id) == counts + 1,
	));
	check("nothing else of the project changes", same(&Details { evaluation_round_info: d.evaluation_round_info.clone(), ..e.clone() }, &d));
	check("evaluations are numbered", NextEvaluationId::<V>::get() == n.saturating_add(1));
	check("other evaluations stay", or(and(k0 == id, and(k1 == who, k2 == n)), same(&Evaluations::<V>::get((k0, k1, k2)), &other)));
	check("other balances untouched", or(x.who == who, and(free(x.who) == x.free, held(x.r, x.who) == x.held)));
	check("other holds untouched", or(x.r == R_EVALUATION, held(x.r, x.who) == x.held));
	check("only this project", and(changed_only_at::<ProjectsDetails<V>, _, _>(&[id]), changed_only_at::<EvaluationCounts<V>, _, _>(&[id])));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.Evaluations Funding.NextEvaluationId Funding.EvaluationCounts Ghost.GFree Ghost.GHeld"));
}

// ------------------------------------------------------------------ F07: settlement
/// blocks of vesting a multiplier stands for: 2.167 weeks for each above one
fn weeks(multiplier: u8) -> u64 { max64(1, (multiplier as u64 - 1) * 15169 * 36 / 5) }
fn max64(a: u64, b: u64) -> u64 { ite_u64(a > b, a, b) }
/// the tokens kept for fees: 10% of the first million raised, 8% of the next four, 6% of the rest, as a share of what was sold
fn fees_of(d: &Details, allocation: Bal) -> Bal {
	const M: Bal = 1_000_000_000_000;
	let reached = d.funding_amount_reached_usd;
	let (a, b) = (reached.min(M), reached.saturating_sub(M).min(4 * M));
	let usd = (Percent::from_percent(10) * a).saturating_add(Percent::from_percent(8) * b).saturating_add(Percent::from_percent(6) * reached.saturating_sub(5 * M));
	let sold = ite_u128(d.remaining_contribution_tokens <= allocation, allocation.saturating_sub(d.remaining_contribution_tokens), allocation);
	Perquintill::from_rational(usd, reached) * sold
}
pub fn vc_f07_start() {
	let (id, o) = (any::<u32>(), any::<VOrigin>());
	let (d, meta) = (details(id), ProjectsMetadata::<V>::get(id));
	let (who, asset) = (any::<Acc>(), any::<u32>());
	let before = GTok::get((asset, who));
	assume(id < u32::MAX);
	let (none, releases) = (GTokAdmin::get(id).is_none(), pallet_proxy_bonding::Releases::<V>::get(asset, Reason(R_PARTICIPATION)));
	let res = Fund::start_settlement(o.clone().into(), id);
	let (Some(d), Some(meta)) = (d, meta) else {
		check("only a project is settled", res.is_err());
		return;
	};
	let (won, lost) = (d.status == ProjectStatus::FundingSuccessful, d.status == ProjectStatus::FundingFailed);
	let due = and(signed(&o), and(or(won, lost), over(&d)));
	check("settlement starts when the outcome is known", imp(res.is_ok(), due));
	check("the settlement of a failed project can start", imp(and(due, lost), res.is_ok()));
	if res.is_err() {
		return;
	}
	let Some(e) = details(id) else {
		check("a project", false);
		return;
	};
	let outcome = if won { FundingOutcome::Success } else { FundingOutcome::Failure };
	check("settlement starts now with the outcome of the project", and(e.status == ProjectStatus::SettlementStarted(outcome), and(e.round_duration == BlockNumberPair::new(Some(now()), None), e.funding_end_block == Some(now()))));
	check("nothing else of it changes", same(&Details { status: d.status.clone(), round_duration: d.round_duration.clone(), funding_end_block: d.funding_end_block, ..e.clone() }, &d));
	check("only this project", changed_only_at::<ProjectsDetails<V>, _, _>(&[id]));
	let release = pallet_proxy_bonding::Releases::<V>::get(id, Reason(R_PARTICIPATION));
	check("the bonds of other projects stay", or(asset == id, same(&pallet_proxy_bonding::Releases::<V>::get(asset, Reason(R_PARTICIPATION)), &releases)));
	if !won {
		cover("failed");
		check("the bonds made for users go back", matches!(release, Some(pallet_proxy_bonding::ReleaseType::Refunded)));
		check("no tokens for a failed project", frame("Funding.ProjectsDetails ProxyBonding.Releases"));
		return;
	}
	cover("successful");
	check("the bonds made for users stay for the time of their multiplier", matches!(release, Some(pallet_proxy_bonding::ReleaseType::Locked(b)) if b == now().saturating_add(weeks(5))));
	check("the token is created for the project", and(none, and(GTokAdmin::get(id) == Some(pot(id)), GTokDecimals::get(id) == meta.token_information.decimals)));
	let fees = fees_of(&d, meta.total_allocation_size);
	let half = Perquintill::from_percent(50) * fees;
	let fifth = Perquintill::from_percent(20) * fees;
	check("half the fees to liquidity, a fifth to long term holders, and nobody else gets tokens", m(GTok::get((asset, who))).eq(m(before).add(m(ite_u128(and(asset == id, who == param(35)), half, 0))).add(m(ite_u128(and(asset == id, who == param(35)), fifth, 0)))));
	check("nothing else is written", frame("Funding.ProjectsDetails ProxyBonding.Releases Ghost.GTok Ghost.GTokAdmin Ghost.GTokDecimals Ghost.GTokAccount"));
}
type Migs = Option<(MigrationStatus, sp_runtime::BoundedVec<Migration, MaxParticipationsPerUser<V>>)>;
fn migs(id: u32, who: Acc) -> Migs { UserMigrations::<V>::get((id, who)) }
/// the participant's tokens are queued for migration, and the participant is counted once
fn queued(id: u32, who: Acc, before: &Migs, count: u32, kind: ParticipationType, n: u32, amount: Bal, vesting: u64) {
	let location = Location::new(0, AccountId32 { network: None, id: account_bytes(who) });
	let new = Migration::new(polimec_common::migration_types::MigrationOrigin { user: location, id: n, participation_type: kind }, (amount, vesting).into());
	let Some((status, list)) = migs(id, who) else {
		check("the tokens are queued for migration", false);
		return;
	};
	let left = UnmigratedCounter::<V>::get(id);
	match before {
		Some((s, l)) => {
			let mut want = l.to_vec();
			want.push(new);
			check("the tokens are queued for migration", and(same(&list.to_vec(), &want), status == *s));
			check("a participant is counted once", left == count);
		},
		None => {
			check("the tokens are queued for migration", and(same(&list.to_vec(), &vec![new]), status == MigrationStatus::NotStarted));
			check("a participant is counted once", left == count.saturating_add(1));
		},
	}
}
pub fn vc_f07_evaluation() {
	let (id, o, who, n) = (any::<u32>(), any::<VOrigin>(), any::<Acc>(), any::<u32>());
	let (d, v) = (details(id), Evaluations::<V>::get((id, who, n)));
	let (x, queue, count) = (rest(), migs(id, who), UnmigratedCounter::<V>::get(id));
	let (k0, k1, k2) = (any::<u32>(), any::<Acc>(), any::<u32>());
	let other = Evaluations::<V>::get((k0, k1, k2));
	let (j0, j1) = (any::<u32>(), any::<Acc>());
	let others = migs(j0, j1);
	let slashes = GSlashes::get();
	small(&[who, param(34)]);
	if let Some(v) = &v {
		// F02: an evaluation is stored under its own key; F05: bonds are used for participations down to the slash
		assume(and(and(v.project_id == id, v.evaluator == who), and(v.id == n, v.current_plmc_bond <= v.original_plmc_bond)));
		assume(v.current_plmc_bond >= Percent::from_percent(20) * v.original_plmc_bond);
	}
	if Fund::settle_evaluation(o.clone().into(), id, who, n).is_err() {
		return;
	}
	let (Some(d), Some(v)) = (d, v) else {
		check("an evaluation is settled", false);
		return;
	};
	check("signed origin required", signed(&o));
	check("evaluations are settled during settlement", matches!(d.status, ProjectStatus::SettlementStarted(_)));
	check("an evaluation is settled once", Evaluations::<V>::get((id, who, n)).is_none());
	check("other evaluations stay", or(and(k0 == id, and(k1 == who, k2 == n)), same(&Evaluations::<V>::get((k0, k1, k2)), &other)));
	check("other migrations stay", or(and(j0 == id, j1 == who), same(&migs(j0, j1), &others)));
	let slash = match d.evaluation_round_info.evaluators_outcome {
		Some(EvaluatorsOutcome::Slashed) => Percent::from_percent(20) * v.original_plmc_bond,
		_ => 0,
	};
	let bond = v.current_plmc_bond;
	check("the whole bond ends", m(held(x.r, x.who)).add(m(ite_u128(and(x.r == R_EVALUATION, x.who == who), bond, 0))).eq(m(x.held)));
	check(
		"a fifth of the bond goes to the treasury when evaluators are slashed, the rest is free again",
		m(free(x.who)).add(m(ite_u128(x.who == who, slash, 0))).eq(m(x.free).add(m(ite_u128(x.who == who, bond, 0))).add(m(ite_u128(x.who == param(34), slash, 0)))),
	);
	match d.evaluation_round_info.evaluators_outcome {
		Some(EvaluatorsOutcome::Slashed) => {
			cover("slashed");
			check("a slash is reported", and(GSlashes::get() == slashes.wrapping_add(1), GLastSlash::get() == Some((who, slash))));
			check("no reward", frame("Funding.Evaluations Ghost.GFree Ghost.GHeld Ghost.GSlashes Ghost.GLastSlash"));
		},
		Some(EvaluatorsOutcome::Rewarded(i)) => {
			let early = Perquintill::from_rational(v.early_usd_amount, i.early_evaluator_total_bonded_usd) * i.early_evaluator_reward_pot;
			let all = Perquintill::from_rational(v.late_usd_amount.saturating_add(v.early_usd_amount), i.normal_evaluator_total_bonded_usd) * i.normal_evaluator_reward_pot;
			let reward = early.saturating_add(all);
			check("the reward is the share in the early and in all evaluations", m(GTok::get((x.asset, x.who))).eq(m(x.tok).add(m(ite_u128(and(x.asset == id, x.who == who), reward, 0)))));
			if reward > 0 {
				cover("rewarded");
				queued(id, who, &queue, count, ParticipationType::Evaluation, n, reward, 1);
			} else {
				cover("nothing earned");
			}
			check("nothing else is written", frame("Funding.Evaluations Funding.UserMigrations Funding.UnmigratedCounter Ghost.GFree Ghost.GHeld Ghost.GTok Ghost.GTokAccount"));
		},
		None => {
			cover("no outcome");
			check("no reward", frame("Funding.Evaluations Ghost.GFree Ghost.GHeld"));
		},
	}
	check("only this project", changed_only_at::<UnmigratedCounter<V>, _, _>(&[id]));
}
pub fn vc_f07_done() {
	let (id, o) = (any::<u32>(), any::<VOrigin>());
	let d = details(id);
	let open = or(or(Evaluations::<V>::iter_prefix((id,)).next().is_some(), Bids::<V>::iter_prefix((id,)).next().is_some()), Contributions::<V>::iter_prefix((id,)).next().is_some());
	let res = Fund::mark_project_as_settled(o.clone().into(), id);
	let Some(d) = d else {
		check("only a project is settled", res.is_err());
		return;
	};
	let ok = and(signed(&o), and(and(matches!(d.status, ProjectStatus::SettlementStarted(_)), over(&d)), !open));
	check("settlement is over exactly when every participation is settled", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("settled");
	let Some(e) = details(id) else {
		check("a project", false);
		return;
	};
	let won = d.status == ProjectStatus::SettlementStarted(FundingOutcome::Success);
	check("the outcome stays", and(iff(won, e.status == ProjectStatus::SettlementFinished(FundingOutcome::Success)), iff(!won, e.status == ProjectStatus::SettlementFinished(FundingOutcome::Failure))));
	check("migration may start at once", e.round_duration == BlockNumberPair::new(Some(now()), None));
	check("nothing else of it changes", same(&Details { status: d.status.clone(), round_duration: d.round_duration.clone(), ..e.clone() }, &d));
	check("only this project", changed_only_at::<ProjectsDetails<V>, _, _>(&[id]));
	check("nothing else is written", frame("Funding.ProjectsDetails"));
}

// ------------------------------------------------------------------ F07: participations
fn price_of(p: u128, amount: Bal) -> Option<Bal> { FixedU128::from_inner(p).checked_mul_int(amount) }
/// what the settlement of a participation does
struct Settled {
	id: u32,
	who: Acc,
	dest: Acc,
	n: u32,
	kind: ParticipationType,
	otm: bool,
	multiplier: u8,
	asset: AcceptedFundingAsset,
	/// funding tokens returned to the participant and paid out to the project
	back: Bal,
	out: Bal,
	/// bond returned, and bond that is released over time
	unbond: Bal,
	vest: Bal,
	won: bool,
	tokens: Bal,
	fee_back: Bal,
	end: u64,
}
type Info = pallet_linear_release::VestingInfo<Bal, u64>;
fn vesting(who: Acc) -> Option<Vec<Info>> { pallet_linear_release::Vesting::<V>::get(who, Reason(R_PARTICIPATION)).map(|l| l.to_vec()) }
fn bonding(id: u32) -> Acc { 0x786f_7270 + ((id as Acc + 1) << 32) }
impl Settled {
	fn check(&self, x: &Rest, queue: &Migs, count: u32) {
		let (who, id) = (self.who, self.id);
		let (a, is) = (self.asset.id(), x.who == who);
		// funding tokens
		let gets = m(ite_u128(is, self.back, 0)).add(m(ite_u128(x.who == self.dest, self.out, 0)));
		let fees = m(ite_u128(is, self.fee_back, 0));
		let pays = m(ite_u128(x.who == pot(id), self.back, 0)).add(m(ite_u128(x.who == pot(id), self.out, 0))).add(m(ite_u128(x.who == bonding(id), self.fee_back, 0)));
		let here = x.asset == a;
		check("the funding tokens go to the project or back to the participant", or(!here, m(fee(x.asset, x.who)).add(pays).eq(m(x.fee).add(gets).add(fees))));
		check("other funding tokens stay", or(here, fee(x.asset, x.who) == x.fee));
		// bond: released at once, or over the time of the multiplier
		let per = self.vest / weeks(self.multiplier) as u128;
		let i: Info = pallet_linear_release::VestingInfo::new(self.vest, per, self.end);
		let classic = !self.otm;
		let once = or(weeks(self.multiplier) == 1, i.locked_at::<sp_runtime::traits::ConvertInto>(now()) == 0);
		let free_now = if classic { self.unbond + ite_u128(once, self.vest, 0) } else { 0 };
		check("the bond that is not kept is free again", and(m(held(x.r, x.who)).add(m(ite_u128(and(is, x.r == R_PARTICIPATION), free_now, 0))).eq(m(x.held)), m(free(x.who)).eq(m(x.free).add(m(ite_u128(is, free_now, 0))))));
		if classic && self.vest > 0 && !once {
			cover("vesting");
			check("the bond is released over the time of its multiplier from the end of the sale", same(&vesting(who), &Some(vec![i])));
		} else {
			check("no schedule without a bond", vesting(who).is_none());
		}
		// tokens
		check("the participant gets the tokens of a successful sale", m(GTok::get((x.asset, x.who))).eq(m(x.tok).add(m(ite_u128(and(and(x.asset == id, is), self.won), self.tokens, 0)))));
		if self.won {
			queued(id, who, queue, count, self.kind.clone(), self.n, self.tokens, weeks(self.multiplier));
		} else {
			check("nothing to migrate otherwise", and(same(&migs(id, who), queue), UnmigratedCounter::<V>::get(id) == count));
		}
	}
}
fn multiplier(mode: ParticipationMode) -> u8 { mode.multiplier() }
fn modular() {
	by_contract("pallet_proxy_bonding::functions::<impl pallet_proxy_bonding::Pallet<T>>::calculate_fee");
	by_contract("pallet_linear_release::VestingInfo::<Balance, BlockNumber>::locked_at");
	by_contract("polimec_common::ProvideAssetPrice::calculate_decimals_aware_price");
	by_contract("<sp_runtime::FixedU128 as sp_runtime::FixedPointNumber>::checked_mul_int::<u128>");
	by_contract("sp_runtime::FixedPointNumber::reciprocal");
	by_cases("pallet_funding::AcceptedFundingAsset::id");
	by_cases("<sp_runtime::FixedU128 as std::cmp::Ord>::cmp");
	by_cases("pallet_funding::BidInfo::<ProjectId, Did, Price, AccountId, BlockNumber>::final_ct_amount");
}
pub fn vc_f07_contribution() {
	let (id, o, who, n) = (any::<u32>(), any::<VOrigin>(), any::<Acc>(), any::<u32>());
	assume(id < u32::MAX);
	modular();
	small(&[who]);
	let (d, meta, c) = (details(id), ProjectsMetadata::<V>::get(id), Contributions::<V>::get((id, who, n)));
	let (x, queue, count) = (rest(), migs(id, who), UnmigratedCounter::<V>::get(id));
	let (k0, k1, k2) = (any::<u32>(), any::<Acc>(), any::<u32>());
	let other = Contributions::<V>::get((k0, k1, k2));
	// bonds of the participant in other projects: L02 covers accounts with schedules
	assume(vesting(who).is_none());
	if let Some(c) = &c {
		// F05: a contribution is stored under its own key, with a multiplier that is allowed
		assume(and(and(c.project_id == id, c.contributor == who), and(c.id == n, c.plmc_bond <= MAXB)));
		let k = multiplier(c.mode);
		assume(and(1 <= k, k <= 25));
	}
	let fee = match &c {
		Some(c) => Px::calculate_fee(c.plmc_bond, c.funding_asset.id()),
		None => Ok(0),
	};
	if Fund::settle_contribution(o.clone().into(), id, who, n).is_err() {
		return;
	}
	let (Some(d), Some(meta), Some(c)) = (d, meta, c) else {
		check("a contribution is settled", false);
		return;
	};
	check("signed origin required", signed(&o));
	check("contributions are settled during settlement", matches!(d.status, ProjectStatus::SettlementStarted(_)));
	check("a contribution is settled once", Contributions::<V>::get((id, who, n)).is_none());
	let won = d.status == ProjectStatus::SettlementStarted(FundingOutcome::Success);
	let otm = c.mode == ParticipationMode::OTM;
	let fee_back = match fee {
		Ok(f) => ite_u128(and(otm, !won), f, 0),
		Err(_) => {
			check("a fee cannot be returned without prices", or(won, !otm));
			0
		},
	};
	let Some(end) = d.funding_end_block else {
		check("the sale has ended", false);
		return;
	};
	cover("settled");
	let (a, b) = (c.funding_asset_amount, c.plmc_bond);
	Settled {
		id, who, n, otm, won, end, fee_back,
		dest: meta.funding_destination_account,
		kind: ParticipationType::Contribution,
		multiplier: multiplier(c.mode),
		asset: c.funding_asset,
		back: ite_u128(won, 0, a),
		out: ite_u128(won, a, 0),
		unbond: ite_u128(won, 0, b),
		vest: ite_u128(won, b, 0),
		tokens: c.ct_amount,
	}.check(&x, &queue, count);
	check("nothing else is written", frame("Funding.Contributions Funding.UserMigrations Funding.UnmigratedCounter LinearRelease.Vesting Ghost.GFree Ghost.GHeld Ghost.GTok Ghost.GTokAccount Ghost.GFee"));
	check("other contributions stay", or(and(k0 == id, and(k1 == who, k2 == n)), same(&Contributions::<V>::get((k0, k1, k2)), &other)));
}

pub fn vc_f07_bid_won() { bid(true, Some(false)) }
pub fn vc_f07_bid_otm() { bid(true, Some(true)) }
pub fn vc_f07_bid_lost() { bid(false, None) }
fn bid(won: bool, otm: Option<bool>) {
	let (id, o, who, n) = (any::<u32>(), any::<VOrigin>(), any::<Acc>(), any::<u32>());
	assume(id < u32::MAX);
	modular();
	small(&[who]);
	let (d, meta, c) = (details(id), ProjectsMetadata::<V>::get(id), Bids::<V>::get((id, who, n)));
	let (x, queue, count) = (rest(), migs(id, who), UnmigratedCounter::<V>::get(id));
	let (k0, k1, k2) = (any::<u32>(), any::<Acc>(), any::<u32>());
	let other = Bids::<V>::get((k0, k1, k2));
	// bonds of the participant in other projects: L02 covers accounts with schedules
	assume(vesting(who).is_none());
	if let Some(c) = &c {
		// F03: a bid is stored under its own key, with a multiplier that is allowed
		assume(and(and(c.project_id == id, c.bidder == who), and(c.id == n, c.plmc_bond <= MAXB)));
		let k = multiplier(c.mode);
		assume(and(1 <= k, k <= 25));
	}
	let rejected = match &c {
		Some(c) => c.status == BidStatus::Rejected,
		None => false,
	};
	let success = match &d {
		Some(d) => d.status == ProjectStatus::SettlementStarted(FundingOutcome::Success),
		None => false,
	};
	assume(won == and(!rejected, success));
	if let (Some(c), Some(otm)) = (&c, otm) {
		assume(otm == (c.mode == ParticipationMode::OTM));
	}
	// the accounts of projects do not participate
	assume(and(who != pot(id), who != bonding(id)));
	if Fund::settle_bid(o.clone().into(), id, who, n).is_err() {
		return;
	}
	let (Some(d), Some(meta), Some(c)) = (d, meta, c) else {
		check("a bid is settled", false);
		return;
	};
	check("signed origin required", signed(&o));
	check("bids are settled during settlement, rejected bids before", or(rejected, matches!(d.status, ProjectStatus::SettlementStarted(_))));
	check("a bid is settled once", Bids::<V>::get((id, who, n)).is_none());
	let otm = c.mode == ParticipationMode::OTM;
	let (paid, bond) = (c.funding_asset_amount_locked, c.plmc_bond);
	let (mut back, mut unbond, mut tokens, mut end) = (paid, bond, 0, 0);
	if won {
		tokens = match c.status {
			BidStatus::Accepted => c.original_ct_amount,
			BidStatus::PartiallyAccepted(k) => k,
			_ => 0,
		};
		let (Some(w), Some(b)) = (d.weighted_average_price, d.funding_end_block) else {
			check("the auction has a price and an end", false);
			return;
		};
		end = b;
		let price = if c.original_ct_usd_price > w { w } else { c.original_ct_usd_price };
		let due = match price.checked_mul_int(tokens) {
			Some(usd) => match plmc(usd / multiplier(c.mode) as Bal) {
				Some(p) => match funding(usd, c.funding_asset) {
					Some(f) => Some((p, f)),
					None => None,
				},
				None => None,
			},
			None => None,
		};
		let Some((p, f)) = due else {
			check("a successful bid has a value", false);
			return;
		};
		back = paid.saturating_sub(f);
		unbond = bond.saturating_sub(p);
	}
	let mut fee_back = 0;
	if otm && unbond > param(P_ED) {
		match Px::calculate_fee(unbond, c.funding_asset.id()) {
			Ok(f) => fee_back = f,
			Err(_) => check("a fee cannot be returned without prices", false),
		}
	}
	cover("settled");
	Settled {
		id, who, n, otm, won, end, fee_back, back, unbond, tokens,
		dest: meta.funding_destination_account,
		kind: ParticipationType::Bid,
		multiplier: multiplier(c.mode),
		asset: c.funding_asset,
		out: ite_u128(won, paid - back, 0),
		vest: ite_u128(won, bond - unbond, 0),
	}.check(&x, &queue, count);
	check("nothing else is written", frame("Funding.Bids Funding.UserMigrations Funding.UnmigratedCounter LinearRelease.Vesting Ghost.GFree Ghost.GHeld Ghost.GTok Ghost.GTokAccount Ghost.GFee"));
	check("other bids stay", or(and(k0 == id, and(k1 == who, k2 == n)), same(&Bids::<V>::get((k0, k1, k2)), &other)));
}

// ------------------------------------------------------------------ F05: contributions
const CONTRIBUTED: &str = "Funding.ProjectsDetails Funding.Contributions Funding.NextContributionId Funding.ContributionBoughtUSD Ghost.GFree Ghost.GHeld Ghost.GFee";
/// everything but where the bond comes from
struct Contribute {
	id: u32,
	o: VOrigin,
	amount: Bal,
	mode: ParticipationMode,
	asset: AcceptedFundingAsset,
}
impl Contribute {
	fn any(otm: bool) -> Contribute {
		let mode = if otm { ParticipationMode::OTM } else { ParticipationMode::Classic(any()) };
		let asset = match any::<u8>() {
			0 => AcceptedFundingAsset::USDT,
			1 => AcceptedFundingAsset::USDC,
			_ => AcceptedFundingAsset::DOT,
		};
		Contribute { id: any(), o: any(), amount: any(), mode, asset }
	}
	/// one participation moves the sum of an investor by less than 2^120
	fn small(&self) {
		if let Some(d) = details(self.id) {
			if let Some(p) = d.weighted_average_price {
				let tokens = ite_u128(self.amount <= d.remaining_contribution_tokens, self.amount, d.remaining_contribution_tokens);
				assume(and(ContributionBoughtUSD::<V>::get((self.id, GDid::get())) <= MAXB, match p.checked_mul_int(tokens) { Some(v) => v <= MAXB, None => true }));
			}
		}
	}
	/// the bond and the price in funding tokens, when the contribution was accepted
	fn run(self) -> Option<(Acc, Bal, Bal)> {
		let (id, n) = (self.id, NextContributionId::<V>::get());
		let (d, meta) = (details(id), ProjectsMetadata::<V>::get(id));
		let (did, policy) = (GDid::get(), GPolicy::get());
		let VOrigin::Signed(who) = self.o.clone() else {
			check("signed origin required", Fund::contribute(self.o.into(), token(), id, self.amount, self.mode, self.asset).is_err());
			return None;
		};
		let mine = Contributions::<V>::iter_prefix((id, who)).count() as u32;
		let (won, bought) = (DidWithWinningBids::<V>::get(id, &did), ContributionBoughtUSD::<V>::get((id, did.clone())));
		self.small();
		if Fund::contribute(self.o.clone().into(), token(), id, self.amount, self.mode, self.asset).is_err() {
			return None;
		}
		let (Some(d), Some(e), Some(meta), Some(c)) = (d, details(id), meta, Contributions::<V>::get((id, who, n))) else {
			check("a contribution to a project is kept", false);
			return None;
		};
		let round = d.round_duration.clone();
		check("a credential is required", !GNoCredential::get());
		let ProjectStatus::CommunityRound(remainder) = d.status else {
			check("contributions are made in the community round", false);
			return None;
		};
		check("contributions are made in the community round", and(round.start.map_or(true, |s| s <= now()), round.end.map_or(false, |e| now() < e)));
		check("winners of the auction wait for the remainder", or(!won, now() >= remainder));
		check("the contributor knows the policy of the project", meta.policy_ipfs_cid == Some(policy));
		check("issuers do not buy their own tokens", d.issuer_did != did);
		check("the project accepts the asset", meta.participation_currencies.contains(&self.asset));
		check("so many contributions per user", mine < param(30) as u32);
		let k = multiplier(self.mode);
		let (sizes, most) = match investor() {
			InvestorType::Retail => (meta.contributing_ticket_sizes.retail, 5),
			InvestorType::Professional => (meta.contributing_ticket_sizes.professional, 10),
			InvestorType::Institutional => (meta.contributing_ticket_sizes.institutional, 25),
		};
		check("multipliers up to what the kind of investor may use", and(1 <= k, k <= most));
		let tokens = ite_u128(self.amount <= d.remaining_contribution_tokens, self.amount, d.remaining_contribution_tokens);
		let usd = match d.weighted_average_price {
			Some(p) => p.checked_mul_int(tokens),
			None => None,
		};
		let Some(usd) = usd else {
			check("the auction has a price", false);
			return None;
		};
		check("something is bought", tokens > 0);
		check("a contribution has a minimum, except for the last tokens", or(usd >= sizes.usd_minimum_per_participation, tokens == d.remaining_contribution_tokens));
		check("an investor has a maximum", match sizes.usd_maximum_per_did {
			Some(most) => m(bought).add(m(usd)).le(m(most)),
			None => true,
		});
		let (Some(bond), Some(price)) = (plmc(usd / k as Bal), funding(usd, self.asset)) else {
			check("the tokens have a price", false);
			return None;
		};
		check("exactly what is bought leaves the sale", e.remaining_contribution_tokens == d.remaining_contribution_tokens - tokens);
		check("the project counts what it is worth", e.funding_amount_reached_usd == d.funding_amount_reached_usd.saturating_add(usd));
		check("nothing else of the project changes", same(&Details { remaining_contribution_tokens: d.remaining_contribution_tokens, funding_amount_reached_usd: d.funding_amount_reached_usd, ..e.clone() }, &d));
		check("the contribution is its contributor's", and(and(c.id == n, c.contributor == who), and(c.project_id == id, and(c.did == did, c.when == now()))));
		check("what is bought is kept", and(and(c.ct_amount == tokens, c.usd_contribution_amount == usd), and(c.mode == self.mode, c.funding_asset == self.asset)));
		check("what is paid and bonded is worth what is bought", and(c.plmc_bond == bond, c.funding_asset_amount == price));
		check("what the investor bought is added up", ContributionBoughtUSD::<V>::get((id, did.clone())) == bought.saturating_add(usd));
		check("contributions are numbered", NextContributionId::<V>::get() == n.saturating_add(1));
		check("only this project", changed_only_at::<ProjectsDetails<V>, _, _>(&[id]));
		Some((who, bond, price))
	}
}
fn paid(id: u32, who: Acc, a: u32, price: Bal, fee_paid: Bal, x: &Rest) {
	let pays = m(ite_u128(x.who == who, price, 0)).add(m(ite_u128(x.who == who, fee_paid, 0)));
	let gets = m(ite_u128(x.who == pot(id), price, 0)).add(m(ite_u128(x.who == bonding(id), fee_paid, 0)));
	check("the price goes to the project, the fee to the bonding account", or(x.asset != a, m(fee(x.asset, x.who)).add(pays).eq(m(x.fee).add(gets))));
	check("other funding tokens stay", or(x.asset == a, fee(x.asset, x.who) == x.fee));
}
pub fn vc_f05_classic() {
	modular();
	let c = Contribute::any(false);
	let (id, a) = (c.id, c.asset.id());
	assume(id < u32::MAX);
	if let VOrigin::Signed(who) = c.o.clone() {
		small(&[who]);
		// without evaluations, whose bond would count: the next contract
		assume(Evaluations::<V>::iter_prefix((id, who)).next().is_none());
	}
	let x = rest();
	let Some((who, bond, price)) = c.run() else { return };
	cover("contributed");
	check("exactly the bond is held", and(
		m(held(x.r, x.who)).eq(m(x.held).add(m(ite_u128(and(x.r == R_PARTICIPATION, x.who == who), bond, 0)))),
		m(free(x.who)).add(m(ite_u128(x.who == who, bond, 0))).eq(m(x.free)),
	));
	paid(id, who, a, price, 0, &x);
	check("nothing else is written", frame(CONTRIBUTED));
}
pub fn vc_f05_otm() {
	modular();
	let c = Contribute::any(true);
	let (id, a) = (c.id, c.asset.id());
	let tr = param(21);
	assume(and(id < u32::MAX, param(P_ED) <= MAXB));
	small(&[tr, bonding(id)]);
	assume(bonding(id) != tr);
	if let VOrigin::Signed(who) = c.o.clone() {
		small(&[who]);
		assume(and(who != bonding(id), who != pot(id)));
	}
	let x = rest();
	let b0 = free(bonding(id));
	let Some((who, bond, price)) = c.run() else { return };
	cover("contributed");
	let Ok(cost) = Px::calculate_fee(bond, a) else {
		check("the fee has a price", false);
		return;
	};
	let top = ite_u128(b0 < param(P_ED), param(P_ED), 0);
	check("the treasury bonds for the user", and(
		m(held(x.r, x.who)).eq(m(x.held).add(m(ite_u128(and(x.r == R_PARTICIPATION, x.who == bonding(id)), bond, 0)))),
		m(free(x.who)).add(m(ite_u128(x.who == tr, bond, 0))).add(m(ite_u128(x.who == tr, top, 0))).eq(m(x.free).add(m(ite_u128(x.who == bonding(id), top, 0)))),
	));
	paid(id, who, a, price, cost, &x);
	check("nothing else is written", frame(CONTRIBUTED));
}
/// bonds of evaluations count for contributions, except for what may be slashed
pub fn vc_f05_convert() {
	cover("bounded: an account has at most two evaluations of a project");
	modular();
	let c = Contribute::any(false);
	let (id, j) = (c.id, any::<u32>());
	let VOrigin::Signed(who) = c.o.clone() else { return };
	small(&[who]);
	c.small();
	let x = rest();
	let before = Evaluations::<V>::get((id, who, j));
	let (h0, p0, f0) = (held(R_EVALUATION, who), held(R_PARTICIPATION, who), free(who));
	assume(Evaluations::<V>::iter_prefix((id, who)).count() <= 2);
	// F02: evaluations are stored under their own key
	for (k, v) in Evaluations::<V>::iter_prefix((id, who)) {
		assume(and(and(v.id == k, v.evaluator == who), and(v.current_plmc_bond <= v.original_plmc_bond, v.original_plmc_bond <= MAXB)));
	}
	if let Some(v) = &before {
		assume(v.id == j);
	}
	let n = NextContributionId::<V>::get();
	if Fund::contribute(c.o, token(), id, c.amount, c.mode, c.asset).is_err() {
		return;
	}
	let Some(bond) = Contributions::<V>::get((id, who, n)).map(|c| c.plmc_bond) else { return };
	let h1 = held(R_EVALUATION, who);
	check("what is not bonded for an evaluation is held from free balance", and(h1 <= h0, and(held(R_PARTICIPATION, who) == p0 + bond, m(free(who)).add(m(bond)).eq(m(f0).add(m(h0 - h1))))));
	let (Some(v), Some(w)) = (before, Evaluations::<V>::get((id, who, j))) else { return };
	cover("an evaluation");
	let least = Percent::from_percent(20) * v.original_plmc_bond;
	check("what may be slashed stays bonded", w.current_plmc_bond >= ite_u128(v.current_plmc_bond <= least, v.current_plmc_bond, least));
	check("the bond of an evaluation only shrinks", w.current_plmc_bond <= v.current_plmc_bond);
	check("nothing else of it changes", same(&EvaluationInfoOf::<V> { current_plmc_bond: v.current_plmc_bond, ..w.clone() }, &v));
	check("other balances untouched", or(x.who == who, and(free(x.who) == x.free, held(x.r, x.who) == x.held)));
}

// ------------------------------------------------------------------ F08: migration of the tokens
fn migration(d: &Details, e: &Details, t: MigrationType) {
	check("the migration starts now", and(e.status == ProjectStatus::CTMigrationStarted, and(e.round_duration == BlockNumberPair::new(Some(now()), None), e.migration_type == Some(t))));
	check("nothing else of it changes", same(&Details { status: d.status.clone(), round_duration: d.round_duration.clone(), migration_type: d.migration_type.clone(), ..e.clone() }, d));
	check("nothing else is written", frame("Funding.ProjectsDetails"));
}
pub fn vc_f08_start() {
	let (id, o) = (any::<u32>(), any::<VOrigin>());
	let d = details(id);
	let (who, chain, offchain) = (institution(&o), any::<u32>(), any::<bool>());
	let res = if offchain { Fund::start_offchain_migration(o.clone().into(), token(), id) } else { Fund::start_pallet_migration(o.clone().into(), token(), id, chain.into()) };
	let ok = match (&d, who) {
		(Some(d), Some(who)) => and(d.issuer_account == who, and(d.status == ProjectStatus::SettlementFinished(FundingOutcome::Success), over(d))),
		_ => false,
	};
	check("the issuer of a settled successful project, and nobody else, starts the migration", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("started");
	let (Some(d), Some(e)) = (d, details(id)) else {
		check("a project", false);
		return;
	};
	check("only this project", changed_only_at::<ProjectsDetails<V>, _, _>(&[id]));
	if offchain {
		migration(&d, &e, MigrationType::Offchain);
		return;
	}
	let closed = HRMPChannelStatus { project_to_polimec: ChannelStatus::Closed, polimec_to_project: ChannelStatus::Closed };
	migration(&d, &e, MigrationType::Pallet(PalletMigrationInfo { parachain_id: chain.into(), hrmp_channel_status: closed, migration_readiness_check: None }));
}
pub fn vc_f08_confirm() {
	let (id, o, who) = (any::<u32>(), any::<VOrigin>(), any::<Acc>());
	let (d, q, left) = (details(id), migs(id, who), UnmigratedCounter::<V>::get(id));
	let (j0, j1) = (any::<u32>(), any::<Acc>());
	let others = migs(j0, j1);
	if Fund::confirm_offchain_migration(o.clone().into(), id, who).is_err() {
		return;
	}
	cover("confirmed");
	let (Some(d), Some((s, l)), Some((t, k))) = (d, q, migs(id, who)) else {
		check("the tokens of a participant", false);
		return;
	};
	check("the issuer confirms, while the migration runs", and(o == VOrigin::Signed(d.issuer_account), d.status == ProjectStatus::CTMigrationStarted));
	check("the migration is confirmed", and(t == MigrationStatus::Confirmed, same(&l, &k)));
	check("a participant is confirmed once", s != MigrationStatus::Confirmed);
	check("one participant less to wait for", UnmigratedCounter::<V>::get(id) == left.saturating_sub(1));
	check("other migrations stay", or(and(j0 == id, j1 == who), same(&migs(j0, j1), &others)));
	check("only this project", and(changed_only_at::<UnmigratedCounter<V>, _, _>(&[id]), changed_only_at::<ProjectsDetails<V>, _, _>(&[id])));
	check("the project stays", same(&details(id), &Some(d)));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.UserMigrations Funding.UnmigratedCounter"));
}
pub fn vc_f08_response() {
	let (o, n, kind) = (any::<VOrigin>(), any::<u64>(), any::<u8>());
	let response = match kind {
		0 => Response::DispatchResult(MaybeErrorCode::Success),
		1 => Response::DispatchResult(MaybeErrorCode::Error(Default::default())),
		2 => Response::DispatchResult(MaybeErrorCode::TruncatedError(Default::default())),
		_ => Response::Null,
	};
	let asked = ActiveMigrationQueue::<V>::get(n);
	let (id, who) = asked.unwrap_or((0, 0));
	let (d, q, left) = (details(id), migs(id, who), UnmigratedCounter::<V>::get(id));
	let (j0, j1) = (any::<u32>(), any::<Acc>());
	let others = migs(j0, j1);
	if Fund::confirm_pallet_migrations(o.clone().into(), n, response).is_err() {
		return;
	}
	cover("answered");
	check("a migration that was sent is answered", asked.is_some());
	let (Some(d), Some((s, l)), Some((t, k))) = (d, q, migs(id, who)) else {
		check("the tokens of a participant", false);
		return;
	};
	check("the chain of the project answers", match (&o, &d.migration_type) {
		(VOrigin::Gov(O_PARACHAIN, c), Some(MigrationType::Pallet(i))) => u32::from(i.parachain_id) == *c as u32,
		_ => false,
	});
	check("an answer is an outcome", kind <= 2);
	check("a migration is answered while it is sent", matches!(s, MigrationStatus::Sent(_)));
	check("the outcome is recorded", and(iff(kind == 0, t == MigrationStatus::Confirmed), and(iff(kind != 0, t == MigrationStatus::Failed), same(&l, &k))));
	check("one participant less to wait for after success", UnmigratedCounter::<V>::get(id) == if kind == 0 { left.saturating_sub(1) } else { left });
	check("a migration is answered once", ActiveMigrationQueue::<V>::get(n).is_none());
	check("other migrations stay", or(and(j0 == id, j1 == who), same(&migs(j0, j1), &others)));
	check("only this query", and(changed_only_at::<ActiveMigrationQueue<V>, _, _>(&[n]), changed_only_at::<UnmigratedCounter<V>, _, _>(&[id])));
	check("the project stays", and(same(&details(id), &Some(d)), changed_only_at::<ProjectsDetails<V>, _, _>(&[id])));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.UserMigrations Funding.UnmigratedCounter Funding.ActiveMigrationQueue"));
}
pub fn vc_f08_send() {
	let (id, o, who) = (any::<u32>(), any::<VOrigin>(), any::<Acc>());
	by_contract("pallet_funding::functions::misc::<impl pallet_funding::Pallet<T>>::construct_migration_xcm_message");
	let (d, q, sent) = (details(id), migs(id, who), GSent::get());
	let n = pallet_xcm::QueryCounter::get();
	assume(now() <= u64::MAX >> 1);
	let open = or(or(Evaluations::<V>::iter_prefix((id, who)).next().is_some(), Bids::<V>::iter_prefix((id, who)).next().is_some()), Contributions::<V>::iter_prefix((id, who)).next().is_some());
	let (j0, j1) = (any::<u32>(), any::<Acc>());
	let others = migs(j0, j1);
	if Fund::send_pallet_migration_for(o.clone().into(), id, who).is_err() {
		return;
	}
	cover("sent");
	let (Some(d), Some((s, l)), Some((t, k))) = (d, q, migs(id, who)) else {
		check("the tokens of a participant", false);
		return;
	};
	check("signed origin required", signed(&o));
	check("everything of the participant is settled", !open);
	check("the chain of the project is ready", match &d.migration_type {
		Some(MigrationType::Pallet(i)) => match &i.migration_readiness_check {
			Some(c) => and(matches!(c.holding_check.1, CheckOutcome::Passed(_)), matches!(c.pallet_check.1, CheckOutcome::Passed(Some(_)))),
			None => false,
		},
		_ => false,
	});
	check("tokens are sent once, or again after a failure", or(s == MigrationStatus::NotStarted, s == MigrationStatus::Failed));
	check("the migration is sent", and(t == MigrationStatus::Sent(n), same(&l, &k)));
	check("the answer will be about this participant", ActiveMigrationQueue::<V>::get(n) == Some((id, who)));
	check("one message is sent", GSent::get() == sent.wrapping_add(1));
	check("other migrations stay", or(and(j0 == id, j1 == who), same(&migs(j0, j1), &others)));
	check("only this query", changed_only_at::<ActiveMigrationQueue<V>, _, _>(&[n]));
	check("the project stays", and(same(&details(id), &Some(d)), changed_only_at::<ProjectsDetails<V>, _, _>(&[id])));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.UserMigrations Funding.ActiveMigrationQueue PolkadotXcm.QueryCounter Ghost.GSent"));
}

// ------------------------------------------------------------------ F01: applications
type Meta = ProjectMetadataOf<V>;
/// what is known of a project that was just created
fn fresh(id: u32, who: Acc, did: &Did, meta: &Meta) {
	let (Some(e), Some(f), Some(b)) = (details(id), ProjectsMetadata::<V>::get(id), Buckets::<V>::get(id)) else {
		check("the project is kept", false);
		return;
	};
	check("its description is kept", same(&f, meta));
	check("only a valid description makes a project", meta.is_valid().is_ok());
	check("the target is what all its tokens cost", meta.minimum_price.checked_mul_int(meta.total_allocation_size) == Some(e.fundraising_target_usd));
	check("nothing is sold or evaluated yet", and(
		and(e.remaining_contribution_tokens == meta.total_allocation_size, e.funding_amount_reached_usd == 0),
		and(e.evaluation_round_info.total_bonded_usd == 0, e.evaluation_round_info.total_bonded_plmc == 0),
	));
	check("the project is in application", and(and(e.status == ProjectStatus::Application, !e.is_frozen), e.round_duration == BlockNumberPair::new(None, None)));
	check("nothing is decided yet", and(
		and(e.weighted_average_price.is_none(), e.funding_end_block.is_none()),
		and(e.evaluation_round_info.evaluators_outcome.is_none(), and(e.migration_type.is_none(), e.usd_bid_on_oversubscription.is_none())),
	));
	check("the project is its issuer's", and(e.issuer_account == who, e.issuer_did == *did));
	let auction = meta.auction_round_allocation_percentage * meta.total_allocation_size;
	check("the auction starts at the lowest price with its share of the tokens", and(b.amount_left == auction, and(b.current_price == meta.minimum_price, b.initial_price == meta.minimum_price)));
	check("it continues a tenth dearer for every further tenth of its share", and(
		b.delta_amount == Percent::from_percent(10) * auction,
		Some(b.delta_price) == FixedU128::checked_from_rational(1, 10).map(|t| meta.minimum_price.saturating_mul(t)),
	));
}
/// shares above 100% cannot be decoded
fn description() -> Meta {
	let meta = any::<Meta>();
	assume(meta.auction_round_allocation_percentage.deconstruct() <= 100);
	meta
}
fn described() {
	by_contract("pallet_funding::ProjectMetadata::<BoundedString, Price, AccountId, Cid>::is_valid");
	by_contract("<sp_runtime::FixedU128 as sp_runtime::FixedPointNumber>::checked_mul_int::<u128>");
}
pub fn vc_f01_create() {
	described();
	let (o, meta) = (any::<VOrigin>(), description());
	let (id, did) = (NextProjectId::<V>::get(), GDid::get());
	assume(id < u32::MAX);
	let (active, x) = (DidWithActiveProjects::<V>::get(did.clone()), rest());
	let who = institution(&o);
	if Fund::create_project(o.clone().into(), token(), meta.clone()).is_err() {
		return;
	}
	cover("created");
	let Some(who) = who else {
		check("an institution is required", false);
		return;
	};
	check("an issuer has one project at a time", active.is_none());
	check("the issuer is bound to it", DidWithActiveProjects::<V>::get(did.clone()) == Some(id));
	check("projects are numbered", NextProjectId::<V>::get() == id + 1);
	fresh(id, who, &did, &meta);
	let ed = param(P_ED);
	check("the issuer opens the account of the project", m(free(x.who)).add(m(ite_u128(x.who == who, ed, 0))).eq(m(x.free).add(m(ite_u128(x.who == pot(id), ed, 0)))));
	check("other issuers and projects stay", and(
		and(changed_only_at::<DidWithActiveProjects<V>, _, _>(&[did.clone()]), changed_only_at::<ProjectsDetails<V>, _, _>(&[id])),
		and(changed_only_at::<ProjectsMetadata<V>, _, _>(&[id]), changed_only_at::<Buckets<V>, _, _>(&[id])),
	));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.ProjectsMetadata Funding.Buckets Funding.NextProjectId Funding.DidWithActiveProjects Ghost.GFree"));
}
pub fn vc_f01_edit() {
	described();
	let (id, o, meta) = (any::<u32>(), any::<VOrigin>(), description());
	let (who, d) = (institution(&o), details(id));
	if Fund::edit_project(o.clone().into(), token(), id, meta.clone()).is_err() {
		return;
	}
	cover("edited");
	let (Some(who), Some(d)) = (who, d) else {
		check("an institution edits a project", false);
		return;
	};
	check("only the issuer, before its evaluation", and(d.issuer_account == who, !d.is_frozen));
	fresh(id, who, &d.issuer_did, &meta);
	check("other projects stay", and(changed_only_at::<ProjectsDetails<V>, _, _>(&[id]), and(changed_only_at::<ProjectsMetadata<V>, _, _>(&[id]), changed_only_at::<Buckets<V>, _, _>(&[id]))));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.ProjectsMetadata Funding.Buckets"));
}
pub fn vc_f01_remove() {
	let (id, o) = (any::<u32>(), any::<VOrigin>());
	let (who, d) = (institution(&o), details(id));
	let res = Fund::remove_project(o.clone().into(), token(), id);
	let ok = match (&d, who) {
		(Some(d), Some(who)) => and(d.issuer_account == who, !d.is_frozen),
		_ => false,
	};
	check("the issuer, and nobody else, removes a project before its evaluation", iff(ok, res.is_ok()));
	if res.is_err() {
		return;
	}
	cover("removed");
	let Some(d) = d else { return };
	check("the project is gone", and(details(id).is_none(), and(ProjectsMetadata::<V>::get(id).is_none(), Buckets::<V>::get(id).is_none())));
	check("its issuer may create another", DidWithActiveProjects::<V>::get(d.issuer_did.clone()).is_none());
	check("other issuers stay bound", changed_only_at::<DidWithActiveProjects<V>, _, _>(&[d.issuer_did.clone()]));
	check("other projects stay", and(changed_only_at::<ProjectsDetails<V>, _, _>(&[id]), and(changed_only_at::<ProjectsMetadata<V>, _, _>(&[id]), changed_only_at::<Buckets<V>, _, _>(&[id]))));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.ProjectsMetadata Funding.Buckets Funding.DidWithActiveProjects"));
}
#[inline(never)]
fn size(t: &TicketSize, least: Bal) -> bool {
	and(t.usd_minimum_per_participation >= least, match t.usd_maximum_per_did {
		Some(most) => t.usd_minimum_per_participation <= most,
		None => true,
	})
}
pub fn vc_f01_valid() {
	by_cases("fund::size");
	by_cases("<sp_runtime::FixedU128 as std::cmp::Ord>::cmp");
	by_cases("pallet_funding::BiddingTicketSizes::<Price>::is_valid");
	by_cases("pallet_funding::ContributingTicketSizes::<Price>::is_valid");
	let mut meta = description();
	let (x, y, z) = (any::<AcceptedFundingAsset>(), any::<AcceptedFundingAsset>(), any::<AcceptedFundingAsset>());
	// any list: there are three assets
	let (list, differ) = match any::<u8>() {
		0 => (vec![], true),
		1 => (vec![x], true),
		2 => (vec![x, y], x != y),
		_ => (vec![x, y, z], and(x != y, and(x != z, y != z))),
	};
	meta.participation_currencies = list.try_into().unwrap();
	let k = meta.token_information.decimals;
	if meta.is_valid().is_err() {
		return;
	}
	let (b, c) = (&meta.bidding_ticket_sizes, &meta.contributing_ticket_sizes);
	let bids = and(size(&b.professional, 5_000_000_000), size(&b.institutional, 5_000_000_000));
	let contributions = and(size(&c.retail, 1_000_000), and(size(&c.professional, 1_000_000), size(&c.institutional, 1_000_000)));
	check("tokens have a price", meta.minimum_price.into_inner() > 0);
	check("bids start at 5000 USD, contributions at one", and(bids, contributions));
	check("tokens have 6 to 18 decimals", and(6 <= k, k <= 18));
	check("some tokens are sold, at most all", and(meta.total_allocation_size > 0, meta.total_allocation_size <= meta.mainnet_token_max_supply));
	check("some tokens are auctioned", !meta.auction_round_allocation_percentage.is_zero());
	check("accepted assets differ", differ);
	let target = meta.minimum_price.saturating_mul_int(meta.total_allocation_size);
	check("targets are from a thousand to a billion USD", and(1_000_000_000 <= target, target <= 1_000_000_000_000_000));
	let (Some(whole), Some(unit)) = (10u128.checked_pow(k as u32), 10u128.checked_pow(k as u32 - 6)) else { return };
	check("at least one whole token is sold", meta.total_allocation_size >= whole);
	let price = m(meta.minimum_price.into_inner()).mul(m(unit));
	check("a whole token costs from 0.00001 to 1000 USD", and(m(10_000_000_000_000).le(price), price.le(m(1_000_000_000_000_000_000_000))));
	cover("valid");
}

// ------------------------------------------------------------------ F03: bids
const BID: &str = "Funding.Buckets Funding.Bids Funding.NextBidId Funding.BidCounts Funding.AuctionBoughtUSD Ghost.GFree Ghost.GHeld Ghost.GFee";
type Bucket_ = Bucket<FixedU128>;
/// what is left of a bucket that is used up is the next one, a step dearer
fn after(b: &Bucket_, taken: Bal) -> Bucket_ {
	let over = b.amount_left == taken;
	let mut c = b.clone();
	c.amount_left = ite_u128(over, b.delta_amount, b.amount_left.saturating_sub(taken));
	c.current_price = FixedU128::from_inner(ite_u128(over, b.current_price.into_inner().saturating_add(b.delta_price.into_inner()), b.current_price.into_inner()));
	c
}
struct Bidding {
	c: Contribute,
	bucket: Bucket_,
	/// tokens and prices of the bids it is made of
	first: (Bal, FixedU128),
	second: Option<(Bal, FixedU128)>,
}
impl Bidding {
	fn any(otm: bool, spill: bool) -> Option<Bidding> {
		let c = Contribute::any(otm);
		let Some(b) = Buckets::<V>::get(c.id) else { return None };
		assume(and(b.amount_left > 0, b.delta_amount > 0));
		let (first, second) = if spill {
			assume(and(c.amount > b.amount_left, c.amount.saturating_sub(b.amount_left) <= b.delta_amount));
			((b.amount_left, b.current_price), Some((c.amount - b.amount_left, after(&b, b.amount_left).current_price)))
		} else {
			assume(c.amount <= b.amount_left);
			((c.amount, b.current_price), None)
		};
		Some(Bidding { c, bucket: b, first, second })
	}
	/// the bonds and the prices in funding tokens, when the bid was accepted
	fn run(self) -> Option<(Acc, Math, Math)> {
		let (id, n, c) = (self.c.id, NextBidId::<V>::get(), self.c);
		assume(n < u32::MAX - 2);
		let (d, meta) = (details(id), ProjectsMetadata::<V>::get(id));
		if let Some(meta) = &meta {
			assume(meta.auction_round_allocation_percentage.deconstruct() <= 100);
		}
		let (did, policy) = (GDid::get(), GPolicy::get());
		let VOrigin::Signed(who) = c.o.clone() else {
			check("signed origin required", Fund::bid(c.o.into(), token(), id, c.amount, c.mode, c.asset).is_err());
			return None;
		};
		let (mine, count) = (Bids::<V>::iter_prefix((id, who)).count() as u32, BidCounts::<V>::get(id));
		assume(and(mine < u32::MAX - 2, count < u32::MAX - 2));
		let bought = AuctionBoughtUSD::<V>::get((id, did.clone()));
		if Fund::bid(c.o.clone().into(), token(), id, c.amount, c.mode, c.asset).is_err() {
			return None;
		}
		let (Some(d), Some(meta)) = (d, meta) else {
			check("a bid is for a project", false);
			return None;
		};
		let round = d.round_duration.clone();
		check("a credential is required", !GNoCredential::get());
		check("bids are made during the auction", and(d.status == ProjectStatus::AuctionRound, and(round.start.map_or(true, |s| s <= now()), round.end.map_or(false, |e| now() < e))));
		check("the bidder knows the policy of the project", meta.policy_ipfs_cid == Some(policy));
		check("issuers do not bid for their own tokens", d.issuer_did != did);
		check("the project accepts the asset", meta.participation_currencies.contains(&c.asset));
		let parts = if self.second.is_some() { 2 } else { 1 };
		check("so many bids per user and project", and(mine + parts <= param(29) as u32, count + parts <= param(28) as u32));
		let k = multiplier(c.mode);
		let (sizes, most) = match investor() {
			InvestorType::Retail => {
				check("retail investors do not bid", false);
				return None;
			},
			InvestorType::Professional => (meta.bidding_ticket_sizes.professional, 10),
			InvestorType::Institutional => (meta.bidding_ticket_sizes.institutional, 25),
		};
		check("multipliers up to what the kind of investor may use", and(1 <= k, k <= most));
		check("bids are for some tokens of the auction", and(c.amount > 0, c.amount <= meta.auction_round_allocation_percentage * meta.total_allocation_size));
		let Some(whole) = self.bucket.current_price.checked_mul_int(c.amount) else {
			check("a bid has a value", false);
			return None;
		};
		check("a bid has a minimum", whole >= sizes.usd_minimum_per_participation);
		let (tokens, price) = self.first;
		let Some((usd, bond, cost)) = bid_part(&c, who, n, tokens, price, &did) else { return None };
		let (mut sum, mut bonds, mut costs, mut bucket) = (bought.saturating_add(usd), m(bond), m(cost), after(&self.bucket, tokens));
		if let Some((tokens, price)) = self.second {
			let Some((usd, bond, cost)) = bid_part(&c, who, n + 1, tokens, price, &did) else { return None };
			sum = sum.saturating_add(usd);
			bonds = bonds.add(m(bond));
			costs = costs.add(m(cost));
			bucket = after(&bucket, tokens);
		}
		check("an investor has a maximum", match sizes.usd_maximum_per_did {
			Some(most) => sum <= most,
			None => true,
		});
		check("the bid leaves its buckets", Buckets::<V>::get(id) == Some(bucket));
		check("what the investor bid is added up", AuctionBoughtUSD::<V>::get((id, did.clone())) == sum);
		check("bids are numbered and counted", and(NextBidId::<V>::get() == n + parts, BidCounts::<V>::get(id) == count + parts));
		check("only this project", and(changed_only_at::<Buckets<V>, _, _>(&[id]), changed_only_at::<BidCounts<V>, _, _>(&[id])));
		check("nothing else is written", frame(BID));
		Some((who, bonds, costs))
	}
}
/// one bid as it is kept: its value, bond and price in funding tokens
fn bid_part(c: &Contribute, who: Acc, n: u32, tokens: Bal, price: FixedU128, did: &Did) -> Option<(Bal, Bal, Bal)> {
	let (Some(b), Some(usd)) = (Bids::<V>::get((c.id, who, n)), price.checked_mul_int(tokens)) else {
		check("a bid is kept", false);
		return None;
	};
	let (Some(bond), Some(cost)) = (plmc(usd / multiplier(c.mode) as Bal), funding(usd, c.asset)) else {
		check("the tokens have a price", false);
		return None;
	};
	check("the bid is its bidder's", and(and(b.id == n, b.bidder == who), and(b.project_id == c.id, and(b.did == *did, b.when == now()))));
	check("what is bid for is kept, at the price of its bucket", and(and(b.original_ct_amount == tokens, b.original_ct_usd_price == price), and(b.mode == c.mode, b.funding_asset == c.asset)));
	check("what is paid and bonded is worth what is bid for", and(b.plmc_bond == bond, b.funding_asset_amount_locked == cost));
	check("nothing is won yet", b.status == BidStatus::YetUnknown);
	Some((usd, bond, cost))
}
fn bid_classic(spill: bool) {
	modular();
	let Some(b) = Bidding::any(false, spill) else { return };
	let (id, a) = (b.c.id, b.c.asset.id());
	assume(id < u32::MAX);
	if let VOrigin::Signed(who) = b.c.o.clone() {
		small(&[who]);
		// without evaluations, whose bond would count (F05)
		assume(Evaluations::<V>::iter_prefix((id, who)).next().is_none());
	}
	let x = rest();
	let Some((who, bond, price)) = b.run() else { return };
	cover("bid");
	let (is, pays, gets) = (x.who == who, x.who == who, x.who == pot(id));
	check("exactly the bond is held", and(
		or(and(is, x.r == R_PARTICIPATION), held(x.r, x.who) == x.held),
		and(or(!is, m(free(x.who)).add(bond).eq(m(x.free))), and(or(is, free(x.who) == x.free), or(!and(is, x.r == R_PARTICIPATION), m(held(x.r, x.who)).eq(m(x.held).add(bond))))),
	));
	let f = fee(x.asset, x.who);
	check("the price goes to the project", or(x.asset != a, and(and(or(pays == gets, or(!pays, m(f).add(price).eq(m(x.fee)))), or(pays == gets, or(!gets, m(f).eq(m(x.fee).add(price))))), or(pays != gets, f == x.fee))));
	check("other funding tokens stay", or(x.asset == a, f == x.fee));
}
pub fn vc_f03_bid() { bid_classic(false) }
pub fn vc_f03_spill() {
	cover("bounded: a bid reaches into the next bucket at most");
	bid_classic(true)
}
pub fn vc_f03_otm() {
	modular();
	let Some(b) = Bidding::any(true, false) else { return };
	let (id, a) = (b.c.id, b.c.asset.id());
	let tr = param(21);
	assume(and(id < u32::MAX, param(P_ED) <= MAXB));
	small(&[tr, bonding(id)]);
	assume(bonding(id) != tr);
	if let VOrigin::Signed(who) = b.c.o.clone() {
		small(&[who]);
		assume(and(who != bonding(id), who != pot(id)));
	}
	let x = rest();
	let (b0, n) = (free(bonding(id)), NextBidId::<V>::get());
	let Some((who, ..)) = b.run() else { return };
	cover("bid");
	let Some(v) = Bids::<V>::get((id, who, n)) else { return };
	let bond = v.plmc_bond;
	let Ok(cost) = Px::calculate_fee(bond, a) else {
		check("the fee has a price", false);
		return;
	};
	let top = ite_u128(b0 < param(P_ED), param(P_ED), 0);
	check("the treasury bonds for the user", and(
		m(held(x.r, x.who)).eq(m(x.held).add(m(ite_u128(and(x.r == R_PARTICIPATION, x.who == bonding(id)), bond, 0)))),
		m(free(x.who)).add(m(ite_u128(x.who == tr, bond, 0))).add(m(ite_u128(x.who == tr, top, 0))).eq(m(x.free).add(m(ite_u128(x.who == bonding(id), top, 0)))),
	));
	paid(id, who, a, v.funding_asset_amount_locked, cost, &x);
}

// ------------------------------------------------------------------ F04: the end of the auction
type Bid_ = BidInfoOf<V>;
fn tokens(b: &Option<Bid_>) -> Bal {
	match b {
		Some(b) => b.original_ct_amount,
		None => 0,
	}
}
/// dearer bids win first, of equally dear ones the earlier
fn beats(a: &Option<Bid_>, b: &Option<Bid_>) -> bool {
	match (a, b) {
		(Some(a), Some(b)) => {
			let (p, q) = (a.original_ct_usd_price.into_inner(), b.original_ct_usd_price.into_inner());
			or(p > q, and(p == q, a.id < b.id))
		},
		_ => false,
	}
}
/// what a bid wins of `left` tokens, and what that is worth at the price to pay
fn wins(id: u32, who: Acc, n: u32, b: &Option<Bid_>, left: Bal, wap: FixedU128) -> (Bal, Option<Bal>) {
	let Some(b) = b else { return (0, Some(0)) };
	let Some(c) = Bids::<V>::get((id, who, n)) else {
		check("bids are kept", false);
		return (0, None);
	};
	let won = ite_u128(b.original_ct_amount <= left, b.original_ct_amount, left);
	check("a bid is rejected exactly when nothing is left for it", iff(c.status == BidStatus::Rejected, left == 0));
	check("a bid wins all that is left for it", or(left == 0, ite_u128(b.original_ct_amount <= left, 1, 0) == ite_u128(c.status == BidStatus::Accepted, 1, 0)));
	check("a bid that is not won whole wins the rest", or(or(left == 0, b.original_ct_amount <= left), c.status == BidStatus::PartiallyAccepted(left)));
	check("nothing else of a bid changes", same(&Bid_ { status: b.status.clone(), ..c }, b));
	let price = FixedU128::from_inner(ite_u128(b.original_ct_usd_price.into_inner() > wap.into_inner(), wap.into_inner(), b.original_ct_usd_price.into_inner()));
	(won, if left == 0 { Some(0) } else { price.checked_mul_int(won) })
}
fn own(b: &Option<Bid_>, id: u32, who: Acc, n: u32) {
	if let Some(b) = b {
		assume(and(and(b.id == n, b.bidder == who), b.project_id == id));
	}
}
fn winner(b: &Option<Bid_>, won: bool, did: &Did) -> bool {
	match b {
		Some(b) => and(won, b.did == *did),
		None => false,
	}
}
pub fn vc_f04_end() {
	cover("bounded: a project has at most two bids");
	by_contract("pallet_funding::Bucket::<Price>::calculate_wap");
	by_contract("<sp_runtime::FixedU128 as sp_runtime::FixedPointNumber>::checked_mul_int::<u128>");
	by_cases("pallet_funding::BidInfo::<ProjectId, Did, Price, AccountId, BlockNumber>::final_ct_amount");
	let (id, o, who, whu, n, k, did) = (any::<u32>(), any::<VOrigin>(), any::<Acc>(), any::<Acc>(), any::<u32>(), any::<u32>(), any::<Did>());
	assume(and(param(24) < 1 << 60, and(param(25) < 1 << 60, now() < 1 << 60)));
	let (d, meta, bucket) = (details(id), ProjectsMetadata::<V>::get(id), Buckets::<V>::get(id));
	if let Some(meta) = &meta {
		assume(meta.auction_round_allocation_percentage.deconstruct() <= 100);
	}
	// F03: bids are numbered and stored under their own key
	assume(n < k);
	let (a, b) = (Bids::<V>::get((id, who, n)), Bids::<V>::get((id, whu, k)));
	own(&a, id, who, n);
	own(&b, id, whu, k);
	assume(Bids::<V>::iter_prefix_values((id,)).count() as u32 == a.is_some() as u32 + b.is_some() as u32);
	let flag = DidWithWinningBids::<V>::get(id, did.clone());
	let q = (any::<u32>(), any::<Acc>(), any::<u32>());
	let kept = Bids::<V>::get(q);
	let res = Fund::end_auction(o.clone().into(), id);
	if res.is_err() {
		return;
	}
	cover("ended");
	let (Some(d), Some(meta), Some(bucket), Some(e)) = (d, meta, bucket, details(id)) else {
		check("a project", false);
		return;
	};
	check("signed origin required", signed(&o));
	check("an auction ends when its time is over", and(d.status == ProjectStatus::AuctionRound, over(&d)));
	let lasts = (param(24) + param(25)) as u64;
	let end = now().saturating_add(lasts).saturating_sub(1);
	check("the community round starts now, the remainder round follows", and(
		e.status == ProjectStatus::CommunityRound(now().saturating_add(param(24) as u64)),
		e.round_duration == BlockNumberPair::new(Some(now()), Some(end)),
	));
	let auction = meta.auction_round_allocation_percentage * meta.total_allocation_size;
	let wap = bucket.calculate_wap(auction);
	check("the price to pay at most is the weighted average", e.weighted_average_price == Some(wap));
	let left_a = auction.saturating_sub(ite_u128(beats(&b, &a), tokens(&b), 0));
	let left_b = auction.saturating_sub(ite_u128(beats(&a, &b), tokens(&a), 0));
	let (x, usd_x) = wins(id, who, n, &a, left_a, wap);
	let (y, usd_y) = wins(id, whu, k, &b, left_b, wap);
	check("winners are on record", DidWithWinningBids::<V>::get(id, did.clone()) == or(flag, or(winner(&a, left_a > 0, &did), winner(&b, left_b > 0, &did))));
	check("no more is won than is auctioned", m(x).add(m(y)).le(m(auction)));
	check("what is won is no longer for sale", e.remaining_contribution_tokens == d.remaining_contribution_tokens.saturating_sub(x.saturating_add(y)));
	let (Some(u), Some(v)) = (usd_x, usd_y) else {
		check("what is won has a value", false);
		return;
	};
	check("what is won is raised", e.funding_amount_reached_usd == d.funding_amount_reached_usd.saturating_add(u.saturating_add(v)));
	check("nothing else of the project changes", same(&Details {
		status: d.status.clone(), round_duration: d.round_duration.clone(), weighted_average_price: d.weighted_average_price,
		remaining_contribution_tokens: d.remaining_contribution_tokens, funding_amount_reached_usd: d.funding_amount_reached_usd, ..e.clone()
	}, &d));
	check("only this project", changed_only_at::<ProjectsDetails<V>, _, _>(&[id]));
	let other = and(or(or(q.0 != id, q.1 != who), q.2 != n), or(or(q.0 != id, q.1 != whu), q.2 != k));
	check("only these bids", or(!other, same(&Bids::<V>::get(q), &kept)));
	check("nothing else is written", frame("Funding.ProjectsDetails Funding.Bids Funding.DidWithWinningBids"));
}
pub fn vc_f04_wap() {
	let (b, amount) = (any::<Bucket_>(), any::<Bal>());
	assume(b.current_price == b.initial_price);
	check("an auction that stays in its first bucket sells at the lowest price", b.calculate_wap(amount) == b.initial_price);
}
