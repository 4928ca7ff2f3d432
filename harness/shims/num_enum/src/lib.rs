//! Stand-in for `num_enum` (not available offline).
pub use num_enum_derive::{IntoPrimitive, TryFromPrimitive};
use std::fmt;

pub trait TryFromPrimitive: Sized {
    type Primitive: Copy + Eq + fmt::Debug;
    const NAME: &'static str;
    fn try_from_primitive(number: Self::Primitive) -> Result<Self, TryFromPrimitiveError<Self>>;
}
pub struct TryFromPrimitiveError<E: TryFromPrimitive> {
    pub number: E::Primitive,
}
impl<E: TryFromPrimitive> fmt::Debug for TryFromPrimitiveError<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TryFromPrimitiveError {{ number: {:?} }}", self.number)
    }
}
impl<E: TryFromPrimitive> fmt::Display for TryFromPrimitiveError<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "No discriminant in enum `{}` matches the value `{:?}`", E::NAME, self.number)
    }
}
impl<E: TryFromPrimitive> std::error::Error for TryFromPrimitiveError<E> {}
impl<E: TryFromPrimitive> Clone for TryFromPrimitiveError<E> {
    fn clone(&self) -> Self {
        Self { number: self.number }
    }
}
impl<E: TryFromPrimitive> PartialEq for TryFromPrimitiveError<E> {
    fn eq(&self, o: &Self) -> bool {
        self.number == o.number
    }
}
