//! Stand-in for the interface of staging-xcm-executor (not available offline) which the code under verification names.
pub mod traits {
	use xcm::v4::XcmResult;
	pub trait HandleHrmpNewChannelOpenRequest {
		fn handle(sender: u32, max_message_size: u32, max_capacity: u32) -> XcmResult;
	}
	pub trait HandleHrmpChannelAccepted {
		fn handle(recipient: u32) -> XcmResult;
	}
}
