//! Stand-in for the interface of pallet-authorship (not available offline) which the code under verification names.
pub trait Config: frame_system::Config {}
pub trait EventHandler<Author, BlockNumber> {
	fn note_author(author: Author);
}
