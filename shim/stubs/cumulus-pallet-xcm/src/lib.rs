//! Stand-in for the interface of cumulus-pallet-xcm (not available offline) which the code under verification names.
use polkadot_parachain_primitives::primitives::Id as ParaId;
use sp_runtime::traits::BadOrigin;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Origin {
	Relay,
	SiblingParachain(ParaId),
}
/// contract: the identity of a sibling chain, as the original documents it
pub fn ensure_sibling_para<O: Into<Result<Origin, O>>>(o: O) -> Result<ParaId, BadOrigin> {
	match o.into() {
		Ok(Origin::SiblingParachain(id)) => Ok(id),
		_ => Err(BadOrigin),
	}
}
