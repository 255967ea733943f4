use crate::{pubkey::PubKeyError, seckey::SecKeyError, CompressedPubKey, PubKey, ScalarField, SecKey};
use std::fmt;
use thiserror::Error;
#[derive(Error, Debug, Clone, PartialEq, Eq)]
pub enum KeypairError {
    #[error(transparent)]
    SecretKey(#[from] SecKeyError),
    #[error(transparent)]
    PublicKey(#[from] PubKeyError),
    #[error("point not on curve")]
    NonCurvePoint,
}
#[derive(Clone, PartialEq, Eq)]
pub struct Keypair {
    secret: SecKey,
    pub public: PubKey,
}
impl fmt::Debug for Keypair {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.public)
    }
}
impl Keypair {
    pub fn from_secret_key(secret: SecKey) -> Result<Self, KeypairError> {
        let public = PubKey::from_secret_key(&secret)?;
        Ok(Self { secret, public })
    }
    pub fn from_hex(h: &str) -> Result<Self, KeypairError> {
        Self::from_secret_key(SecKey::from_hex(h)?)
    }
    pub fn get_address(&self) -> String {
        self.public.into_address()
    }
    pub fn to_hex(&self) -> String {
        self.secret.to_hex()
    }
    pub(crate) fn scalar(&self) -> &ScalarField {
        self.secret.scalar()
    }
}
#[allow(unused)]
fn _f(_: CompressedPubKey) {}
