use crate::{BaseField, CurvePoint, ScalarField, SecKey};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger, PrimeField};
use o1_utils::FieldHelpers;
use std::fmt;
use thiserror::Error;

#[derive(Error, Debug, Clone, PartialEq, Eq)]
pub enum PubKeyError {
    #[error("Invalid address length")]
    AddressLength,
    #[error("Invalid address base58 encoding")]
    AddressBase58,
    #[error("Invalid raw address bytes length")]
    AddressRawByteLength,
    #[error("Invalid address checksum")]
    AddressChecksum,
    #[error("Invalid address version")]
    AddressVersion,
    #[error("Invalid x-coordinate bytes")]
    XCoordinateBytes,
    #[error("Invalid x-coordinate")]
    XCoordinate,
    #[error("Point not on curve")]
    YCoordinateParity,
    #[error("Invalid hex")]
    Hex,
    #[error("Non-existent point")]
    NonCurvePoint,
}
pub const MINA_ADDRESS_LEN: usize = 55;
const MINA_ADDRESS_RAW_LEN: usize = 40;

#[derive(Clone, PartialEq, Eq)]
pub struct PubKey(CurvePoint);

impl fmt::Debug for PubKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "PubKey({})", self.into_address())
    }
}

impl PubKey {
    pub fn from_point_unsafe(p: CurvePoint) -> Self {
        PubKey(p)
    }
    pub fn from_secret_key(sk: &SecKey) -> Result<Self, PubKeyError> {
        let pt = CurvePoint::prime_subgroup_generator().mul(*sk.scalar()).into_affine();
        if !pt.is_on_curve() || pt.is_zero() {
            return Err(PubKeyError::NonCurvePoint);
        }
        Ok(PubKey(pt))
    }
    pub fn from_address(address: &str) -> Result<Self, PubKeyError> {
        let c = CompressedPubKey::from_address(address)?;
        let mut pt = CurvePoint::get_point_from_x(c.x, c.is_odd).ok_or(PubKeyError::XCoordinate)?;
        if pt.y.into_repr().is_odd() != c.is_odd {
            pt = -pt;
        }
        if pt.y.into_repr().is_odd() != c.is_odd {
            return Err(PubKeyError::YCoordinateParity);
        }
        Ok(PubKey(pt))
    }
    pub fn point(&self) -> &CurvePoint {
        &self.0
    }
    pub fn into_point(self) -> CurvePoint {
        self.0
    }
    pub fn into_compressed(&self) -> CompressedPubKey {
        CompressedPubKey { x: self.0.x, is_odd: self.0.y.into_repr().is_odd() }
    }
    pub fn into_address(&self) -> String {
        into_address(&self.0.x, self.0.y.into_repr().is_odd())
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct CompressedPubKey {
    pub x: BaseField,
    pub is_odd: bool,
}
impl fmt::Debug for CompressedPubKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "CompressedPubKey({})", self.into_address())
    }
}
fn into_address(x: &BaseField, is_odd: bool) -> String {
    let mut raw: Vec<u8> = vec![0xcb, 0x01, 0x01];
    raw.extend(x.to_bytes());
    raw.push(is_odd as u8);
    let ck = bs58::sha256d(&raw);
    raw.extend(&ck[..4]);
    bs58::encode(raw).into_string()
}
impl CompressedPubKey {
    pub fn from_secret_key(sk: SecKey) -> Self {
        PubKey::from_secret_key(&sk).unwrap().into_compressed()
    }
    pub fn from_address(address: &str) -> Result<Self, PubKeyError> {
        if address.len() != MINA_ADDRESS_LEN {
            return Err(PubKeyError::AddressLength);
        }
        let bytes = bs58::decode(address).into_vec().map_err(|_| PubKeyError::AddressBase58)?;
        if bytes.len() != MINA_ADDRESS_RAW_LEN {
            return Err(PubKeyError::AddressRawByteLength);
        }
        let (raw, ck) = bytes.split_at(bytes.len() - 4);
        if bs58::sha256d(raw)[..4] != ck[..] {
            return Err(PubKeyError::AddressChecksum);
        }
        if raw[..3] != [0xcb, 0x01, 0x01] {
            return Err(PubKeyError::AddressVersion);
        }
        let x = BaseField::from_bytes(&raw[3..raw.len() - 1]).map_err(|_| PubKeyError::XCoordinateBytes)?;
        let is_odd = match raw[raw.len() - 1] {
            0 => false,
            1 => true,
            _ => return Err(PubKeyError::YCoordinateParity),
        };
        Ok(Self { x, is_odd })
    }
    pub fn into_address(&self) -> String {
        into_address(&self.x, self.is_odd)
    }
    pub fn empty() -> Self {
        Self { x: BaseField::from(0u64), is_odd: false }
    }
}
#[allow(unused)]
fn _f(_: ScalarField) {}
