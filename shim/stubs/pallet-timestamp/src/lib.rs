//! Stand-in for the interface of pallet-timestamp (not available offline) which the code under verification names.
use frame_support::pallet_prelude::ValueQuery;
pub trait Config: frame_system::Config {
	type Moment: parity_scale_codec::FullCodec + Default + Copy + TryInto<u64> + scale_info::TypeInfo;
}
pub struct NowPrefix;
impl frame_support::traits::StorageInstance for NowPrefix {
	fn pallet_prefix() -> &'static str { "Timestamp" }
	const STORAGE_PREFIX: &'static str = "Now";
}
pub struct Now<T>(core::marker::PhantomData<T>);
impl<T: Config> Now<T> {
	pub fn get() -> T::Moment {
		frame_support::storage::types::StorageValue::<NowPrefix, T::Moment, ValueQuery>::get()
	}
}
