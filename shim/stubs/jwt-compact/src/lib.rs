//! Stand-in for the interface of jwt-compact (not available offline) which the code under verification names.
//! Nothing here is executed: contracts never validate a token.
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct UntrustedToken(pub Vec<u8>);
#[derive(Clone, Copy, Debug)]
pub struct Timestamp(pub i64);
impl Timestamp {
	pub fn timestamp_millis(&self) -> i64 { self.0 }
}
pub struct Claims<T> {
	pub expiration: Option<Timestamp>,
	pub custom: T,
}
pub struct Token<T>(pub Claims<T>);
impl<T> Token<T> {
	pub fn claims(&self) -> &Claims<T> { &self.0 }
}
#[derive(Debug)]
pub struct ValidationError;
pub struct Validator<T>(core::marker::PhantomData<T>);
impl<T> Validator<T> {
	pub fn validate(&self, _: &UntrustedToken) -> Result<Token<T>, ValidationError> { Err(ValidationError) }
}
pub trait Algorithm {
	type VerifyingKey;
}
pub trait AlgorithmExt: Algorithm {
	fn validator<T>(&self, _: &Self::VerifyingKey) -> Validator<T> { Validator(Default::default()) }
}
pub mod alg {
	pub struct Ed25519;
	pub struct Key(pub [u8; 32]);
	pub trait VerifyingKey: Sized {
		fn from_slice(raw: &[u8]) -> Result<Self, ()>;
	}
	impl VerifyingKey for Key {
		fn from_slice(raw: &[u8]) -> Result<Self, ()> { raw.try_into().map(Key).map_err(|_| ()) }
	}
	impl super::Algorithm for Ed25519 {
		type VerifyingKey = Key;
	}
	impl super::AlgorithmExt for Ed25519 {}
}
