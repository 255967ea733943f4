use crate::ScalarField;
use o1_utils::FieldHelpers;
use thiserror::Error;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SecKey(ScalarField);
#[derive(Error, Debug, Clone, PartialEq, Eq)]
pub enum SecKeyError {
    #[error("Invalid secret key hex")]
    SecretKeyHex,
    #[error("Invalid secret key bytes")]
    SecretKeyBytes,
    #[error("Invalid secret key length")]
    SecretKeyLength,
}
impl SecKey {
    pub fn new(s: ScalarField) -> Self {
        SecKey(s)
    }
    pub fn scalar(&self) -> &ScalarField {
        &self.0
    }
    pub fn into_scalar(self) -> ScalarField {
        self.0
    }
    /// big-endian hex
    pub fn from_hex(h: &str) -> Result<Self, SecKeyError> {
        let mut bytes: Vec<u8> = hex::decode(h).map_err(|_| SecKeyError::SecretKeyHex)?;
        bytes.reverse();
        if bytes.len() != 32 {
            return Err(SecKeyError::SecretKeyLength);
        }
        Ok(SecKey(ScalarField::from_bytes(&bytes).map_err(|_| SecKeyError::SecretKeyBytes)?))
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut b = self.0.to_bytes();
        b.reverse();
        b
    }
    pub fn to_hex(&self) -> String {
        hex::encode(self.to_bytes())
    }
}
