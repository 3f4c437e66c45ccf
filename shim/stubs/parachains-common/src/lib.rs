//! Stand-in for the interface of parachains-common (not available offline) which the code under verification names.
/// blocks of 12 seconds, as in parachains-common
pub const MINUTES: u32 = 60_000 / 12_000;
pub const HOURS: u32 = MINUTES * 60;
pub const DAYS: u32 = HOURS * 24;
