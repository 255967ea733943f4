//! Stand-in for mina-hasher. The random oracle input (fields, bits, packing) is the real
//! construction; the sponge is the real one (width 3, rate 2) around a stand-in permutation
//! (SHA-256) instead of Poseidon, whose constants are not available here.
pub mod domain;
pub mod poseidon;
pub mod roinput;
pub use domain::DomainParameter;
pub use mina_curves::pasta::Fp;
pub use poseidon::{PoseidonHasherKimchi, PoseidonHasherLegacy};
pub use roinput::ROInput;

pub trait Hashable: Clone {
    type D: DomainParameter;
    fn to_roinput(&self) -> ROInput;
    fn domain_string(domain_param: Self::D) -> Option<String>;
}

pub trait Hasher<H: Hashable> {
    fn reset(&mut self) -> &mut dyn Hasher<H>;
    fn init(&mut self, domain_param: H::D) -> &mut dyn Hasher<H>;
    fn update(&mut self, input: &H) -> &mut dyn Hasher<H>;
    fn digest(&mut self) -> Fp;
    fn hash(&mut self, input: &H) -> Fp {
        self.reset();
        self.update(input);
        let output = self.digest();
        self.reset();
        output
    }
    fn init_and_hash(&mut self, domain_param: H::D, input: &H) -> Fp {
        self.init(domain_param);
        self.update(input);
        let output = self.digest();
        self.reset();
        output
    }
}

const MAX_DOMAIN_STRING_LEN: usize = 20;

pub(crate) fn domain_prefix_to_field(prefix: String) -> Fp {
    use o1_utils::FieldHelpers;
    assert!(prefix.len() <= MAX_DOMAIN_STRING_LEN);
    let prefix = &prefix[..std::cmp::min(prefix.len(), MAX_DOMAIN_STRING_LEN)];
    let mut bytes = format!("{:*<MAX_DOMAIN_STRING_LEN$}", prefix).as_bytes().to_vec();
    bytes.resize(32, 0);
    Fp::from_bytes(&bytes).expect("invalid domain bytes")
}

pub fn create_legacy<H: Hashable>(domain_param: H::D) -> PoseidonHasherLegacy<H> {
    poseidon::new_legacy(domain_param)
}
pub fn create_kimchi<H: Hashable>(domain_param: H::D) -> PoseidonHasherKimchi<H> {
    poseidon::new_kimchi(domain_param)
}
