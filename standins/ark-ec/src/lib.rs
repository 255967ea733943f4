//! Stand-in for ark-ec 0.3: short Weierstrass curves with a = 0, affine arithmetic.
pub mod models;
pub use models::short_weierstrass_jacobian;
pub use models::*;
use ark_ff::BigInteger256;
pub trait AffineCurve: Copy + Eq {
    fn prime_subgroup_generator() -> Self;
}
pub trait ProjectiveCurve: Copy + Eq {
    type Affine;
    fn into_affine(&self) -> Self::Affine;
}
pub type Repr = BigInteger256;
