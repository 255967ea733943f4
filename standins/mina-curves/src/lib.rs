//! Stand-in for mina-curves: the Pasta fields and curves.
pub mod pasta {
    use ark_ec::short_weierstrass_jacobian::{GroupAffine, GroupProjective};
    use ark_ec::{ModelParameters, SWModelParameters};
    use ark_ff::{BigInteger256, Fp256, Fp256Parameters, FpParameters};

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct FpParams;
    impl FpParameters for FpParams {
        type BigInt = BigInteger256;
        const MODULUS: BigInteger256 = BigInteger256::new([0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000]);
    }
    impl Fp256Parameters for FpParams {}
    pub type Fp = Fp256<FpParams>;

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct FqParams;
    impl FpParameters for FqParams {
        type BigInt = BigInteger256;
        const MODULUS: BigInteger256 = BigInteger256::new([0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000]);
    }
    impl Fp256Parameters for FqParams {}
    pub type Fq = Fp256<FqParams>;

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct PallasParameters;
    impl ModelParameters for PallasParameters {
        type BaseField = Fp;
        type ScalarField = Fq;
    }
    impl SWModelParameters for PallasParameters {
        const B: u64 = 5;
        fn generator() -> (Fp, Fp) {
            use std::str::FromStr;
            (
                Fp::from(1u64),
                Fp::from_str("12418654782883325593414442427049395787963493412651469444558597405572177144507").unwrap(),
            )
        }
    }
    pub type Pallas = GroupAffine<PallasParameters>;
    pub type ProjectivePallas = GroupProjective<PallasParameters>;

    #[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
    pub struct VestaParameters;
    impl ModelParameters for VestaParameters {
        type BaseField = Fq;
        type ScalarField = Fp;
    }
    impl SWModelParameters for VestaParameters {
        const B: u64 = 5;
        fn generator() -> (Fq, Fq) {
            use std::str::FromStr;
            (
                Fq::from(1u64),
                Fq::from_str("11426906929455361843568202299992114520848200991084027513389447476559454104162").unwrap(),
            )
        }
    }
    pub type Vesta = GroupAffine<VestaParameters>;
    pub type ProjectiveVesta = GroupProjective<VestaParameters>;
    pub mod fp {
        pub use super::{Fp, FpParams};
    }
    pub mod fq {
        pub use super::{Fq, FqParams};
    }
    pub mod pallas {
        pub use super::{Pallas, PallasParameters, ProjectivePallas};
    }
    pub mod vesta {
        pub use super::{ProjectiveVesta, Vesta, VestaParameters};
    }
}
