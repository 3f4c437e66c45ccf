//! Stand-in for the interface of polkadot-parachain-primitives (not available offline) which the code under verification names.
pub mod primitives {
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
	pub struct Id(u32);
	impl From<u32> for Id {
		fn from(x: u32) -> Self { Id(x) }
	}
	impl From<Id> for u32 {
		fn from(x: Id) -> Self { x.0 }
	}
	#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
	pub struct Sibling(pub Id);
	impl sp_runtime::TypeId for Sibling {
		const TYPE_ID: [u8; 4] = *b"sibl";
	}
}
