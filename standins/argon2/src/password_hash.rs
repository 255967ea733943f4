//! The part of password-hash 0.4 that argon2 re-exports.
use std::fmt;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
    B64Encoding,
    SaltInvalid(&'static str),
    Argon2(crate::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::B64Encoding => f.write_str("B64 encoding error"),
            Error::SaltInvalid(s) => write!(f, "salt invalid: {s}"),
            Error::Argon2(e) => write!(f, "{e}"),
        }
    }
}
impl std::error::Error for Error {}
impl From<crate::Error> for Error {
    fn from(e: crate::Error) -> Self {
        Error::Argon2(e)
    }
}
pub type Result<T> = std::result::Result<T, Error>;

const CHARS: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(input: &[u8]) -> String {
    let mut out = String::new();
    for c in input.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            out.push(CHARS[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    out
}
fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    for c in s.as_bytes().chunks(4) {
        if c.len() == 1 {
            return None;
        }
        let mut n = 0u32;
        for i in 0..4 {
            let v = match c.get(i) {
                Some(x) => CHARS.iter().position(|y| y == x)? as u32,
                None => 0,
            };
            n = n << 6 | v;
        }
        let b = n.to_be_bytes();
        out.extend_from_slice(&b[1..c.len()]);
        if b[c.len()..].iter().any(|x| *x != 0) {
            return None;
        }
    }
    Some(out)
}

/// B64-encoded salt of at most 64 characters
#[derive(Clone, PartialEq, Eq)]
pub struct SaltString(String);
impl SaltString {
    pub fn new(s: &str) -> Result<Self> {
        check(s)?;
        Ok(Self(s.to_string()))
    }
    pub fn b64_encode(input: &[u8]) -> Result<Self> {
        let s = b64(input);
        if s.len() > 64 {
            return Err(Error::B64Encoding);
        }
        Ok(Self(s))
    }
    pub fn b64_decode<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8]> {
        check(&self.0)?;
        let v = unb64(&self.0).ok_or(Error::B64Encoding)?;
        let out = buf.get_mut(..v.len()).ok_or(Error::B64Encoding)?;
        out.copy_from_slice(&v);
        Ok(out)
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn as_bytes(&self) -> &[u8] {
        self.0.as_bytes()
    }
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
impl AsRef<str> for SaltString {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for SaltString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for SaltString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SaltString({:?})", self.0)
    }
}
fn check(s: &str) -> Result<()> {
    if s.len() < 4 {
        return Err(Error::SaltInvalid("too short"));
    }
    if s.len() > 64 {
        return Err(Error::SaltInvalid("too long"));
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Output(Vec<u8>);
impl Output {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
#[derive(Clone, Debug)]
pub struct PasswordHash {
    pub hash: Option<Output>,
}
pub trait PasswordHasher {
    fn hash_password<S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &S) -> Result<PasswordHash>;
}
impl<'k> PasswordHasher for crate::Argon2<'k> {
    fn hash_password<S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &S) -> Result<PasswordHash> {
        check(salt.as_ref())?;
        let salt = unb64(salt.as_ref()).ok_or(Error::B64Encoding)?;
        let mut out = vec![0; self.params().output_len().unwrap_or(crate::Params::DEFAULT_OUTPUT_LEN)];
        self.hash_password_into(password, &salt, &mut out)?;
        Ok(PasswordHash { hash: Some(Output(out)) })
    }
}
