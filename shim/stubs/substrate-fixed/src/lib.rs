//! Stand-in for the interface of substrate-fixed (not available offline) which the code under verification names:
//! the rate of a round derived from a yearly rate is a function of its arguments in every contract.
pub mod types {
	#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
	pub struct I64F64(pub f64);
	pub trait Num {
		fn to(self) -> f64;
		fn of(x: f64) -> Self;
	}
	macro_rules! num { ($($t:ty)*) => { $(impl Num for $t { fn to(self) -> f64 { self as f64 } fn of(x: f64) -> Self { x as $t } })* } }
	num! { i32 u32 u64 i64 u128 }
	impl I64F64 {
		pub fn from_num<T: Num>(x: T) -> Self { I64F64(x.to()) }
		pub fn to_num<T: Num>(self) -> T { T::of(self.0) }
		pub fn ceil(self) -> Self { I64F64(self.0.ceil()) }
	}
	impl core::ops::Add for I64F64 { type Output = Self; fn add(self, o: Self) -> Self { I64F64(self.0 + o.0) } }
	impl core::ops::Sub for I64F64 { type Output = Self; fn sub(self, o: Self) -> Self { I64F64(self.0 - o.0) } }
	impl core::ops::Mul for I64F64 { type Output = Self; fn mul(self, o: Self) -> Self { I64F64(self.0 * o.0) } }
	impl core::ops::Div for I64F64 { type Output = Self; fn div(self, o: Self) -> Self { I64F64(self.0 / o.0) } }
}
pub mod transcendental {
	use crate::types::I64F64;
	pub fn pow(x: I64F64, e: I64F64) -> Result<I64F64, ()> { Ok(I64F64(x.0.powf(e.0))) }
}
