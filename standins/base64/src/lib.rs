//! Stand-in for base64 0.13.
use std::fmt;
#[derive(Clone, Copy, Debug)]
pub struct Config {
    url: bool,
    pad: bool,
}
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match *self {
            Self::InvalidByte(index, byte) => write!(f, "Invalid byte {}, offset {}.", byte, index),
            Self::InvalidLength => write!(f, "Encoded text cannot have a 6-bit remainder."),
            Self::InvalidLastSymbol(index, byte) => write!(f, "Invalid last symbol {}, offset {}.", byte, index),
        }
    }
}
impl std::error::Error for DecodeError {}
fn sym(c: Config, v: u8) -> u8 {
    match v {
        0..=25 => b'A' + v,
        26..=51 => b'a' + v - 26,
        52..=61 => b'0' + v - 52,
        62 => if c.url { b'-' } else { b'+' },
        _ => if c.url { b'_' } else { b'/' },
    }
}
pub fn encode<T: AsRef<[u8]>>(i: T) -> String {
    encode_config(i, STANDARD)
}
pub fn decode<T: AsRef<[u8]>>(i: T) -> Result<Vec<u8>, DecodeError> {
    decode_config(i, STANDARD)
}
pub fn encode_config<T: AsRef<[u8]>>(i: T, c: Config) -> String {
    let mut o = String::new();
    for ch in i.as_ref().chunks(3) {
        let mut b = [0u8; 3];
        b[..ch.len()].copy_from_slice(ch);
        let n = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
        for k in 0..=ch.len() {
            o.push(sym(c, (n >> (18 - 6 * k)) as u8 & 63) as char);
        }
        if c.pad {
            for _ in ch.len()..3 {
                o.push('=');
            }
        }
    }
    o
}
/// As base64 0.13: padding is optional on decode (but at most two, and only at the end of the text,
/// completing a group), trailing bits of the last symbol have to be zero.
pub fn decode_config<T: AsRef<[u8]>>(i: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let i = i.as_ref();
    let mut out = vec![];
    let mut acc = 0u32;
    let mut n = 0usize;
    let mut pads = 0usize;
    let mut last = (0usize, 0u8);
    for (k, &b) in i.iter().enumerate() {
        if b == b'=' {
            // padding may stand only at positions 2 and 3 of the last group
            if k % 4 < 2 || i.len() > (k / 4 + 1) * 4 {
                return Err(DecodeError::InvalidByte(k, b));
            }
            pads += 1;
            continue;
        }
        if pads > 0 {
            return Err(DecodeError::InvalidByte(k - pads, b'='));
        }
        let v = (0..64u8).find(|v| sym(c, *v) == b).ok_or(DecodeError::InvalidByte(k, b))?;
        last = (k, b);
        acc = acc << 6 | v as u32;
        n += 1;
        if n % 4 == 0 {
            out.extend_from_slice(&acc.to_be_bytes()[1..]);
            acc = 0;
        }
    }
    match n % 4 {
        0 => {}
        1 => return Err(DecodeError::InvalidLength),
        2 => {
            if acc & 0xf != 0 {
                return Err(DecodeError::InvalidLastSymbol(last.0, last.1));
            }
            out.push((acc >> 4) as u8);
        }
        _ => {
            if acc & 3 != 0 {
                return Err(DecodeError::InvalidLastSymbol(last.0, last.1));
            }
            out.push((acc >> 10) as u8);
            out.push((acc >> 2) as u8);
        }
    }
    Ok(out)
}
