//! Stand-in for the interface of staging-xcm (not available offline) which the code under verification names.
//! Data types keep the shape of XCM v4; instructions the code does not build are left out.
pub mod v4 {
	use frame_support::{traits::ConstU32, weights::Weight, BoundedVec};
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;

	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum NetworkId {
		Polkadot,
		Kusama,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Junction {
		Parachain(u32),
		AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
		PalletInstance(u8),
		GeneralIndex(u128),
	}
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Junctions {
		Here,
		X1([Junction; 1]),
		X2([Junction; 2]),
	}
	impl Junctions {
		pub fn as_slice(&self) -> &[Junction] {
			match self {
				Junctions::Here => &[],
				Junctions::X1(x) => x,
				Junctions::X2(x) => x,
			}
		}
	}
	impl From<Junction> for Junctions {
		fn from(x: Junction) -> Self { Junctions::X1([x]) }
	}
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct Location {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self { Location { parents, interior: interior.into() } }
		pub const fn here() -> Self { Location { parents: 0, interior: Junctions::Here } }
		pub fn unpack(&self) -> (u8, &[Junction]) { (self.parents, self.interior.as_slice()) }
	}
	pub struct ParentThen(pub Junctions);
	impl Clone for ParentThen {
		fn clone(&self) -> Self { ParentThen(self.0.clone()) }
	}
	impl From<ParentThen> for Location {
		fn from(x: ParentThen) -> Self { Location { parents: 1, interior: x.0 } }
	}
	impl From<Junctions> for Location {
		fn from(x: Junctions) -> Self { Location { parents: 0, interior: x } }
	}
	impl From<Junction> for Location {
		fn from(x: Junction) -> Self { Location { parents: 0, interior: x.into() } }
	}

	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct AssetId(pub Location);
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub enum Fungibility {
		Fungible(u128),
		NonFungible(u32),
	}
	#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct Asset {
		pub id: AssetId,
		pub fun: Fungibility,
	}
	impl From<(Location, u128)> for Asset {
		fn from((l, x): (Location, u128)) -> Self { Asset { id: AssetId(l), fun: Fungibility::Fungible(x) } }
	}
	#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
	pub struct Assets(Vec<Asset>);
	impl Assets {
		pub fn into_inner(self) -> Vec<Asset> { self.0 }
	}
	impl From<Vec<Asset>> for Assets {
		fn from(x: Vec<Asset>) -> Self { Assets(x) }
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum WildAsset {
		All,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum AssetFilter {
		Definite(Assets),
		Wild(WildAsset),
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum WeightLimit {
		Unlimited,
		Limited(Weight),
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum OriginKind {
		Native,
		SovereignAccount,
		Superuser,
		Xcm,
	}
	pub type QueryId = u64;
	pub type XcmHash = [u8; 32];
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct QueryResponseInfo {
		pub destination: Location,
		pub query_id: QueryId,
		pub max_weight: Weight,
	}
	pub type MaxPalletNameLen = ConstU32<48>;
	pub type MaxDispatchErrorLen = ConstU32<128>;
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct PalletInfo {
		pub index: u32,
		pub name: BoundedVec<u8, MaxPalletNameLen>,
		pub module_name: BoundedVec<u8, MaxPalletNameLen>,
		pub major: u32,
		pub minor: u32,
		pub patch: u32,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum MaybeErrorCode {
		Success,
		Error(BoundedVec<u8, MaxDispatchErrorLen>),
		TruncatedError(BoundedVec<u8, MaxDispatchErrorLen>),
	}
	#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum Response {
		#[default]
		Null,
		Assets(Assets),
		Version(u32),
		PalletsInfo(BoundedVec<PalletInfo, ConstU32<64>>),
		DispatchResult(MaybeErrorCode),
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct DoubleEncoded(pub Vec<u8>);
	impl From<Vec<u8>> for DoubleEncoded {
		fn from(x: Vec<u8>) -> Self { DoubleEncoded(x) }
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub enum Instruction<Call> {
		WithdrawAsset(Assets),
		BuyExecution { fees: Asset, weight_limit: WeightLimit },
		Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded },
		RefundSurplus,
		DepositAsset { assets: AssetFilter, beneficiary: Location },
		UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
		ReportTransactStatus(QueryResponseInfo),
		ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
		QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
		Marker(core::marker::PhantomData<Call>),
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum SendError {
		NotApplicable,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum Error {
		BadOrigin,
		ExceedsMaxMessageSize,
		Transport(&'static str),
		Unimplemented,
		NotFound,
	}
	impl From<SendError> for Error {
		fn from(_: SendError) -> Self { Error::Transport("send") }
	}
	pub type XcmResult = Result<(), Error>;
	pub type SendResult<T> = Result<(T, Assets), SendError>;
	pub trait SendXcm {
		type Ticket;
		fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
		fn deliver(ticket: Self::Ticket) -> Result<XcmHash, SendError>;
	}
	pub mod opaque {
		pub type Xcm = super::Xcm<()>;
	}
	pub mod prelude {
		pub use super::{
			Asset, AssetFilter::{self, *},
			AssetId, Assets,
			Error as XcmError,
			Fungibility::{self, *},
			Instruction::*,
			Junction::{self, *},
			Junctions::{self, Here},
			Location,
			MaybeErrorCode, OriginKind, PalletInfo, ParentThen, QueryId, QueryResponseInfo, Response, SendError, SendResult, SendXcm,
			WeightLimit::{self, *},
			WildAsset::{self, *},
			Xcm, XcmHash, XcmResult,
		};
	}
}
