// ---------------------------------------------------------------- error conversions

/// `From<S>` for the crate's generic error types, with the target fixed by the source.
global size_of usize == 8;   // the target the checks build for
pub trait VfErr<S>: Sized {
    spec fn of(s: S) -> Self;
    spec fn can(s: S) -> bool;
    fn from(value: S) -> (r: Self) requires Self::can(value) ensures r == Self::of(value);
}
/// The value of a discriminant's bits, zero-extended.
pub trait SealedPrimitiveDiscriminant: Sized {
    spec fn zext(self) -> u128;
    fn to_u128(self) -> (r: u128) ensures r == self.zext();
}
pub trait PrimitiveDiscriminant: SealedPrimitiveDiscriminant { }
