use crate::*;
use std::fmt;
use std::marker::PhantomData;
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
#[non_exhaustive]
pub enum Error {
    BufferTooSmall,
    InvalidCharacter { character: char, index: usize },
    NonAsciiCharacter { index: usize },
    InvalidChecksum { checksum: [u8; 4], expected_checksum: [u8; 4] },
    InvalidVersion { ver: u8, expected_ver: u8 },
    NoChecksum,
}
pub type Result<T> = std::result::Result<T, Error>;
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::BufferTooSmall => write!(f, "buffer provided to decode base58 encoded string into was too small"),
            Error::InvalidCharacter { character, index } => write!(f, "provided string contained invalid character {:?} at byte {}", character, index),
            Error::NonAsciiCharacter { index } => write!(f, "provided string contained non-ascii character starting at byte {}", index),
            Error::InvalidChecksum { checksum, expected_checksum } => write!(f, "invalid checksum, calculated checksum: '{:?}', expected checksum: {:?}", checksum, expected_checksum),
            Error::InvalidVersion { ver, expected_ver } => write!(f, "invalid version, payload version: '{:?}', expected version: {:?}", ver, expected_ver),
            Error::NoChecksum => write!(f, "provided string is too small to contain a checksum"),
        }
    }
}
pub struct DecodeBuilder<'a, I: AsRef<[u8]>> {
    input: I,
    check: Option<Option<u8>>,
    _p: PhantomData<&'a ()>,
}
impl<'a, I: AsRef<[u8]>> DecodeBuilder<'a, I> {
    pub(crate) fn new(input: I) -> Self {
        Self { input, check: None, _p: PhantomData }
    }
    pub fn with_check(self, expected_ver: Option<u8>) -> Self {
        Self { check: Some(expected_ver), ..self }
    }
    pub fn into_vec(self) -> Result<Vec<u8>> {
        let mut out = decode_plain(self.input.as_ref())?;
        if let Some(ver) = self.check {
            if out.len() < CHECKSUM_LEN {
                return Err(Error::NoChecksum);
            }
            let n = out.len() - CHECKSUM_LEN;
            let expected = sha256d(&out[..n]);
            let (a, b) = (&out[n..], &expected[..CHECKSUM_LEN]);
            if a != b {
                return Err(Error::InvalidChecksum { checksum: a.try_into().unwrap(), expected_checksum: b.try_into().unwrap() });
            }
            if let Some(ver) = ver {
                if out[0] != ver {
                    return Err(Error::InvalidVersion { ver: out[0], expected_ver: ver });
                }
            }
            out.truncate(n);
        }
        Ok(out)
    }
}
fn decode_plain(input: &[u8]) -> Result<Vec<u8>> {
    let mut le: Vec<u8> = vec![];
    for (i, c) in input.iter().enumerate() {
        if *c > 127 {
            return Err(Error::NonAsciiCharacter { index: i });
        }
        let v = ALPHABET.iter().position(|a| a == c).ok_or(Error::InvalidCharacter { character: *c as char, index: i })?;
        let mut carry = v as u32;
        for b in le.iter_mut() {
            carry += *b as u32 * 58;
            *b = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            le.push(carry as u8);
            carry >>= 8;
        }
    }
    let zeros = input.iter().take_while(|c| **c == b'1').count();
    le.extend(std::iter::repeat(0).take(zeros));
    le.reverse();
    Ok(le)
}
