//! Stand-in for mina-signer: the real Pallas keys, addresses and Schnorr signature equation; the
//! nonce and the challenge hash come from the stand-in sponge of the stand-in mina-hasher.
use mina_hasher::{DomainParameter, Hashable, ROInput};
pub mod keypair;
pub mod pubkey;
pub mod schnorr;
pub mod seckey;
pub mod signature;
pub use keypair::Keypair;
pub use mina_curves::pasta::Pallas as CurvePoint;
pub use pubkey::{CompressedPubKey, PubKey};
pub use schnorr::Schnorr;
pub use seckey::SecKey;
pub use signature::Signature;
pub type BaseField = mina_curves::pasta::Fp;
pub type ScalarField = mina_curves::pasta::Fq;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NetworkId {
    TESTNET = 0x00,
    MAINNET = 0x01,
}
impl From<NetworkId> for u8 {
    fn from(id: NetworkId) -> u8 {
        id as u8
    }
}
impl DomainParameter for NetworkId {
    fn into_bytes(self) -> Vec<u8> {
        vec![self as u8]
    }
}

pub trait Signer<H: Hashable> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature;
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool;
}

pub fn create_legacy<H: Hashable<D = NetworkId>>(domain_param: NetworkId) -> impl Signer<H> {
    Schnorr::<H>::new(0, domain_param)
}
pub fn create_kimchi<H: Hashable<D = NetworkId>>(domain_param: NetworkId) -> impl Signer<H> {
    Schnorr::<H>::new(1, domain_param)
}
#[allow(unused)]
fn _unused(_: ROInput) {}
