use ark_ff::{Field, PrimeField, SquareRootField};
pub mod short_weierstrass_jacobian;
pub trait ModelParameters: Send + Sync + 'static {
    type BaseField: Field + SquareRootField + PrimeField;
    type ScalarField: PrimeField + SquareRootField;
}
pub trait SWModelParameters: ModelParameters {
    const B: u64;
    fn generator() -> (Self::BaseField, Self::BaseField);
}
