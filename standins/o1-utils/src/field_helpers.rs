use ark_ff::{BigInteger, FromBytes, PrimeField, ToBytes};
use num_bigint::BigUint;
use thiserror::Error;

#[derive(Error, Debug, Clone, PartialEq, Eq)]
pub enum FieldHelpersError {
    #[error("failed to deserialize field bytes")]
    DeserializeBytes,
    #[error("failed to deserialize field bits")]
    DeserializeBits,
    #[error("failed to decode hex")]
    DecodeHex,
    #[error("failed to convert BigUint into field element")]
    FromBigToField,
}
pub type Result<T> = std::result::Result<T, FieldHelpersError>;

pub trait FieldHelpers<F> {
    fn from_bytes(bytes: &[u8]) -> Result<F>;
    fn from_hex(hex: &str) -> Result<F>;
    fn from_bits(bits: &[bool]) -> Result<F>;
    fn from_biguint(big: &BigUint) -> Result<F>;
    fn to_bytes(&self) -> Vec<u8>;
    fn to_hex(&self) -> String;
    fn to_bits(&self) -> Vec<bool>;
    fn to_biguint(&self) -> BigUint;
    fn size_in_bytes() -> usize
    where
        F: PrimeField,
    {
        F::size_in_bits() / 8 + (F::size_in_bits() % 8 != 0) as usize
    }
}

impl<F: PrimeField> FieldHelpers<F> for F {
    fn from_bytes(bytes: &[u8]) -> Result<F> {
        F::read(&mut &bytes[..]).map_err(|_| FieldHelpersError::DeserializeBytes)
    }
    fn from_hex(h: &str) -> Result<F> {
        let bytes: Vec<u8> = hex::decode(h).map_err(|_| FieldHelpersError::DecodeHex)?;
        F::read(&mut &bytes[..]).map_err(|_| FieldHelpersError::DeserializeBytes)
    }
    fn from_bits(bits: &[bool]) -> Result<F> {
        let bytes = bits.iter().enumerate().fold(F::zero().to_bytes(), |mut bytes, (i, bit)| {
            bytes[i / 8] |= (*bit as u8) << (i % 8);
            bytes
        });
        F::read(&mut &bytes[..]).map_err(|_| FieldHelpersError::DeserializeBytes)
    }
    fn from_biguint(big: &BigUint) -> Result<F> {
        let mut b = big.to_bytes_le();
        b.resize(<F as FieldHelpers<F>>::size_in_bytes(), 0);
        F::read(&mut &b[..]).map_err(|_| FieldHelpersError::FromBigToField)
    }
    fn to_bytes(&self) -> Vec<u8> {
        let mut bytes = vec![];
        self.write(&mut bytes).expect("Failed to serialize field");
        bytes
    }
    fn to_hex(&self) -> String {
        hex::encode(self.to_bytes())
    }
    fn to_bits(&self) -> Vec<bool> {
        self.to_bytes().iter().fold(vec![], |mut bits, byte| {
            let mut b = *byte;
            for _ in 0..8 {
                bits.push(b & 1 == 1);
                b >>= 1;
            }
            bits
        })
    }
    fn to_biguint(&self) -> BigUint {
        BigUint::from_bytes_le(&self.into_repr().to_bytes_le())
    }
}
