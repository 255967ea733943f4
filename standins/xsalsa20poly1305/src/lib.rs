//! Stand-in for xsalsa20poly1305 0.9 (NaCl secretbox).
use generic_array::{typenum::{U24, U32}, ArrayLength, GenericArray};
pub mod aead {
    pub use generic_array;
    use generic_array::GenericArray;
    use std::fmt;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error;
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("aead::Error")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub struct Payload<'m, 'a> {
        pub msg: &'m [u8],
        pub aad: &'a [u8],
    }
    impl<'m> From<&'m [u8]> for Payload<'m, '_> {
        fn from(msg: &'m [u8]) -> Self {
            Self { msg, aad: &[] }
        }
    }
    pub trait Aead {
        type NonceSize: generic_array::ArrayLength<u8>;
        fn encrypt<'m, 'a>(&self, nonce: &GenericArray<u8, Self::NonceSize>, plaintext: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>>;
        fn decrypt<'m, 'a>(&self, nonce: &GenericArray<u8, Self::NonceSize>, ciphertext: impl Into<Payload<'m, 'a>>) -> Result<Vec<u8>>;
    }
}
pub use aead::{Aead, Error};
pub const KEY_SIZE: usize = 32;
pub const NONCE_SIZE: usize = 24;
pub const TAG_SIZE: usize = 16;
pub type Key = GenericArray<u8, U32>;
pub type Nonce = GenericArray<u8, U24>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct InvalidLength;
impl std::fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Invalid Length")
    }
}
pub trait KeyInit: Sized {
    type KeySize: ArrayLength<u8>;
    fn new(key: &GenericArray<u8, Self::KeySize>) -> Self;
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength>;
}
#[derive(Clone)]
pub struct XSalsa20Poly1305 {
    key: [u8; 32],
}
impl KeyInit for XSalsa20Poly1305 {
    type KeySize = U32;
    fn new(key: &Key) -> Self {
        Self { key: (*key).into() }
    }
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
        Ok(Self { key: key.try_into().map_err(|_| InvalidLength)? })
    }
}
fn le(b: &[u8]) -> u32 {
    u32::from_le_bytes(b.try_into().unwrap())
}
fn core(key: &[u8; 32], input: &[u8; 16]) -> ([u32; 16], [u32; 16]) {
    let c = [0x61707865u32, 0x3320646e, 0x79622d32, 0x6b206574];
    let k: Vec<u32> = key.chunks(4).map(le).collect();
    let n: Vec<u32> = input.chunks(4).map(le).collect();
    let x = [c[0], k[0], k[1], k[2], k[3], c[1], n[0], n[1], n[2], n[3], c[2], k[4], k[5], k[6], k[7], c[3]];
    let mut z = x;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        z[b] ^= z[a].wrapping_add(z[d]).rotate_left(7);
        z[c] ^= z[b].wrapping_add(z[a]).rotate_left(9);
        z[d] ^= z[c].wrapping_add(z[b]).rotate_left(13);
        z[a] ^= z[d].wrapping_add(z[c]).rotate_left(18);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(5, 9, 13, 1);
        q(10, 14, 2, 6);
        q(15, 3, 7, 11);
        q(0, 1, 2, 3);
        q(5, 6, 7, 4);
        q(10, 11, 8, 9);
        q(15, 12, 13, 14);
    }
    (x, z)
}
fn stream(key: &[u8; 32], nonce: &[u8; 24], n: usize) -> Vec<u8> {
    let (_, z) = core(key, nonce[..16].try_into().unwrap());
    let mut sub = [0u8; 32];
    for (i, w) in [0, 5, 10, 15, 6, 7, 8, 9].into_iter().enumerate() {
        sub[4 * i..4 * i + 4].copy_from_slice(&z[w].to_le_bytes());
    }
    let mut out = vec![];
    let mut ctr = 0u64;
    while out.len() < n {
        let mut input = [0u8; 16];
        input[..8].copy_from_slice(&nonce[16..]);
        input[8..].copy_from_slice(&ctr.to_le_bytes());
        let (x, z) = core(&sub, &input);
        for i in 0..16 {
            out.extend(x[i].wrapping_add(z[i]).to_le_bytes());
        }
        ctr += 1;
    }
    out.truncate(n);
    out
}
fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    // plain big-number arithmetic in 26-bit limbs
    const M: u64 = (1 << 26) - 1;
    let split = |b: &[u8; 17]| -> [u64; 5] {
        let g = |bit: usize| {
            let mut w = 0u64;
            for i in 0..26 {
                let k = bit + i;
                if k < 136 && b[k / 8] >> (k % 8) & 1 == 1 {
                    w |= 1 << i;
                }
            }
            w
        };
        [g(0), g(26), g(52), g(78), g(104)]
    };
    let mut r = [0u8; 17];
    r[..16].copy_from_slice(&key[..16]);
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let r = split(&r);
    let mut h = [0u64; 5];
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        for (x, y) in h.iter_mut().zip(split(&b)) {
            *x += y;
        }
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                let t = h[i] * r[j];
                if i + j < 5 {
                    d[i + j] += t;
                } else {
                    d[i + j - 5] += 5 * t;
                }
            }
        }
        let mut carry = 0;
        for x in d.iter_mut() {
            *x += carry;
            carry = *x >> 26;
            *x &= M;
        }
        d[0] += 5 * carry;
        let c0 = d[0] >> 26;
        d[0] &= M;
        d[1] += c0;
        h = d;
    }
    // full carry, then subtract the modulus when not below it
    for _ in 0..2 {
        let mut carry = 0;
        for x in h.iter_mut() {
            *x += carry;
            carry = *x >> 26;
            *x &= M;
        }
        h[0] += 5 * carry;
    }
    let mut g = h;
    g[0] += 5;
    let mut carry = 0;
    for x in g.iter_mut() {
        *x += carry;
        carry = *x >> 26;
        *x &= M;
    }
    if carry == 1 {
        h = g;
    }
    let mut low = 0u128;
    for i in 0..5 {
        low = low.wrapping_add((h[i] as u128).wrapping_shl(26 * i as u32));
    }
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    low.wrapping_add(s).to_le_bytes()
}
impl Aead for XSalsa20Poly1305 {
    type NonceSize = U24;
    fn encrypt<'m, 'a>(&self, nonce: &Nonce, plaintext: impl Into<aead::Payload<'m, 'a>>) -> aead::Result<Vec<u8>> {
        let p = plaintext.into();
        if !p.aad.is_empty() {
            return Err(Error);
        }
        let s = stream(&self.key, nonce.as_slice().try_into().unwrap(), 32 + p.msg.len());
        let body: Vec<u8> = p.msg.iter().zip(&s[32..]).map(|(a, b)| a ^ b).collect();
        let mut out = poly1305(&s[..32], &body).to_vec();
        out.extend(body);
        Ok(out)
    }
    fn decrypt<'m, 'a>(&self, nonce: &Nonce, ciphertext: impl Into<aead::Payload<'m, 'a>>) -> aead::Result<Vec<u8>> {
        let p = ciphertext.into();
        if !p.aad.is_empty() || p.msg.len() < TAG_SIZE {
            return Err(Error);
        }
        let (tag, body) = p.msg.split_at(TAG_SIZE);
        let s = stream(&self.key, nonce.as_slice().try_into().unwrap(), 32 + body.len());
        if poly1305(&s[..32], body) != tag {
            return Err(Error);
        }
        Ok(body.iter().zip(&s[32..]).map(|(a, b)| a ^ b).collect())
    }
}
