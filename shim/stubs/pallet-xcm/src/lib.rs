//! Stand-in for the interface of pallet-xcm (not available offline) which the code under verification names.
//! Queries are numbered consecutively and messages go through the configured router, as in pallet-xcm.
use frame_support::{pallet_prelude::ValueQuery, sp_runtime::traits::BadOrigin, traits::StorageInstance};
use xcm::v4::{prelude::*, Junctions};
pub trait Config: frame_system::Config {
	type RuntimeCall;
	type XcmRouter: SendXcm;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Origin {
	Xcm(Location),
	Response(Location),
}
/// pallet-xcm's own: the origin must be a response
pub fn ensure_response<OuterOrigin>(o: OuterOrigin) -> Result<Location, BadOrigin>
where
	OuterOrigin: Into<Result<Origin, OuterOrigin>>,
{
	match o.into() {
		Ok(Origin::Response(location)) => Ok(location),
		_ => Err(BadOrigin),
	}
}
pub struct _GeneratedPrefixForStorageQueryCounter;
impl StorageInstance for _GeneratedPrefixForStorageQueryCounter {
	fn pallet_prefix() -> &'static str { "PolkadotXcm" }
	const STORAGE_PREFIX: &'static str = "QueryCounter";
}
pub type QueryCounter = frame_support::storage::types::StorageValue<_GeneratedPrefixForStorageQueryCounter, QueryId, ValueQuery>;
pub struct Pallet<T>(core::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
	pub fn new_notify_query(
		_responder: impl Into<Location>,
		_notify: impl Into<<T as Config>::RuntimeCall>,
		_timeout: frame_system::pallet_prelude::BlockNumberFor<T>,
		_match_querier: impl Into<Location>,
	) -> QueryId {
		let id = QueryCounter::get();
		QueryCounter::put(id.wrapping_add(1));
		id
	}
	pub fn send_xcm(_interior: impl Into<Junctions>, dest: impl Into<Location>, message: Xcm<()>) -> Result<XcmHash, SendError> {
		let (ticket, _) = T::XcmRouter::validate(&mut Some(dest.into()), &mut Some(message))?;
		T::XcmRouter::deliver(ticket)
	}
}
