//! Independent text encodings: base58check, base64 (URL alphabet, padded), hex.
use num_bigint::BigUint;
use sha2::{Digest, Sha256};

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn b58(data: &[u8]) -> String {
    let mut n = BigUint::from_bytes_be(data);
    let base = BigUint::from(58u32);
    let zero = BigUint::from(0u32);
    let mut out = vec![];
    while n > zero {
        let d = (&n % &base).to_u32_digits().first().copied().unwrap_or(0);
        out.push(B58[d as usize]);
        n = n / &base;
    }
    for b in data {
        if *b != 0 {
            break;
        }
        out.push(b'1');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}
pub fn unb58(s: &str) -> Option<Vec<u8>> {
    let mut n = BigUint::from(0u32);
    let mut zeros = 0;
    let mut lead = true;
    for c in s.bytes() {
        let d = B58.iter().position(|x| *x == c)?;
        if lead && d == 0 {
            zeros += 1;
        } else {
            lead = false;
        }
        n = n * 58u32 + d as u32;
    }
    let mut v = vec![0; zeros];
    if n > BigUint::from(0u32) {
        v.extend(n.to_bytes_be());
    }
    Some(v)
}
fn sum(b: &[u8]) -> [u8; 4] {
    let h = Sha256::digest(Sha256::digest(b));
    [h[0], h[1], h[2], h[3]]
}
pub fn check(version: u8, payload: &[u8]) -> String {
    let mut v = vec![version];
    v.extend_from_slice(payload);
    let s = sum(&v);
    v.extend_from_slice(&s);
    b58(&v)
}
/// payload of a base58check text of that version
pub fn uncheck(version: u8, s: &str) -> Option<Vec<u8>> {
    let v = unb58(s)?;
    if v.len() < 5 {
        return None;
    }
    let (d, c) = v.split_at(v.len() - 4);
    if sum(d)[..] != *c || d[0] != version {
        return None;
    }
    Some(d[1..].to_vec())
}
pub fn b64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut bits: Vec<bool> = b.iter().flat_map(|x| (0..8).rev().map(move |i| x >> i & 1 == 1)).collect();
    while bits.len() % 6 != 0 {
        bits.push(false);
    }
    let mut s: String = bits.chunks(6).map(|c| A[c.iter().fold(0, |a, b| a << 1 | *b as usize)] as char).collect();
    while s.len() % 4 != 0 {
        s.push('=');
    }
    s
}
pub fn hex0x(b: &[u8]) -> String {
    format!("0x{}", crate::core::hex_full(b))
}
/// address of a compressed public key
pub fn address(x: &[u8], odd: bool) -> String {
    let mut p = vec![1, 1];
    p.extend_from_slice(x);
    p.push(odd as u8);
    check(0xcb, &p)
}
/// decimal text of nanounits; trimmed: no trailing zeros of the fraction
pub fn decimal(n: u64, trimmed: bool) -> String {
    let d = format!("{:010}", n);
    let (q, r) = d.split_at(d.len() - 9);
    if trimmed {
        let r = r.trim_end_matches('0');
        if r.is_empty() {
            return q.into();
        }
        return format!("{q}.{r}");
    }
    format!("{q}.{r}")
}
