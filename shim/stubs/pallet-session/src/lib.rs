//! Stand-in for the interface of pallet-session (not available offline) which the code under verification names.
use sp_staking::SessionIndex;
pub trait Config: frame_system::Config {}
pub trait SessionManager<ValidatorId> {
	fn new_session(new_index: SessionIndex) -> Option<Vec<ValidatorId>>;
	fn new_session_genesis(new_index: SessionIndex) -> Option<Vec<ValidatorId>> { Self::new_session(new_index) }
	fn end_session(end_index: SessionIndex);
	fn start_session(start_index: SessionIndex);
}
pub trait ShouldEndSession<BlockNumber> {
	fn should_end_session(now: BlockNumber) -> bool;
}
