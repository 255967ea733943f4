//! Stand-in for argon2 0.4: Argon2i/d/id, versions 0x10 and 0x13 (RFC 9106), one lane or more.
use blake2::blake2b;
use std::fmt;
pub mod password_hash;
pub use password_hash::{PasswordHash, PasswordHasher};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Algorithm {
    Argon2d = 0,
    Argon2i = 1,
    Argon2id = 2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u32)]
pub enum Version {
    V0x10 = 0x10,
    V0x13 = 0x13,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    MemoryTooLittle,
    MemoryTooMuch,
    OutputTooShort,
    OutputTooLong,
    PwdTooLong,
    SaltTooShort,
    SaltTooLong,
    ThreadsTooFew,
    ThreadsTooMany,
    TimeTooSmall,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Error::MemoryTooLittle => "memory cost is too small",
            Error::MemoryTooMuch => "memory cost is too large",
            Error::OutputTooShort => "output is too short",
            Error::OutputTooLong => "output is too long",
            Error::PwdTooLong => "password is too long",
            Error::SaltTooShort => "salt is too short",
            Error::SaltTooLong => "salt is too long",
            Error::ThreadsTooFew => "not enough threads",
            Error::ThreadsTooMany => "too many threads",
            Error::TimeTooSmall => "time cost is too small",
        })
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Params {
    m_cost: u32,
    t_cost: u32,
    p_cost: u32,
    output_len: Option<usize>,
}
impl Params {
    pub const DEFAULT_M_COST: u32 = 4096;
    pub const MIN_M_COST: u32 = 8;
    pub const DEFAULT_T_COST: u32 = 3;
    pub const MIN_T_COST: u32 = 1;
    pub const DEFAULT_P_COST: u32 = 1;
    pub const MIN_P_COST: u32 = 1;
    pub const MAX_P_COST: u32 = 0xFF_FFFF;
    pub const DEFAULT_OUTPUT_LEN: usize = 32;
    pub const MIN_OUTPUT_LEN: usize = 4;
    pub fn new(m_cost: u32, t_cost: u32, p_cost: u32, output_len: Option<usize>) -> Result<Self> {
        let mut b = ParamsBuilder::new();
        b.m_cost(m_cost)?.t_cost(t_cost)?.p_cost(p_cost)?;
        if let Some(n) = output_len {
            b.output_len(n)?;
        }
        b.params()
    }
    pub fn m_cost(&self) -> u32 {
        self.m_cost
    }
    pub fn t_cost(&self) -> u32 {
        self.t_cost
    }
    pub fn p_cost(&self) -> u32 {
        self.p_cost
    }
    pub fn output_len(&self) -> Option<usize> {
        self.output_len
    }
}
impl Default for Params {
    fn default() -> Self {
        ParamsBuilder::new().params().unwrap()
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ParamsBuilder {
    p: Params,
}
impl Default for ParamsBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ParamsBuilder {
    pub fn new() -> Self {
        Self { p: Params { m_cost: Params::DEFAULT_M_COST, t_cost: Params::DEFAULT_T_COST, p_cost: Params::DEFAULT_P_COST, output_len: None } }
    }
    pub fn m_cost(&mut self, m_cost: u32) -> Result<&mut Self> {
        if m_cost < Params::MIN_M_COST {
            return Err(Error::MemoryTooLittle);
        }
        self.p.m_cost = m_cost;
        Ok(self)
    }
    pub fn t_cost(&mut self, t_cost: u32) -> Result<&mut Self> {
        if t_cost < Params::MIN_T_COST {
            return Err(Error::TimeTooSmall);
        }
        self.p.t_cost = t_cost;
        Ok(self)
    }
    pub fn p_cost(&mut self, p_cost: u32) -> Result<&mut Self> {
        if p_cost < Params::MIN_P_COST {
            return Err(Error::ThreadsTooFew);
        }
        if p_cost > Params::MAX_P_COST {
            return Err(Error::ThreadsTooMany);
        }
        self.p.p_cost = p_cost;
        Ok(self)
    }
    pub fn output_len(&mut self, n: usize) -> Result<&mut Self> {
        if n < Params::MIN_OUTPUT_LEN {
            return Err(Error::OutputTooShort);
        }
        self.p.output_len = Some(n);
        Ok(self)
    }
    pub fn params(self) -> Result<Params> {
        if self.p.m_cost < self.p.p_cost * 8 {
            return Err(Error::MemoryTooLittle);
        }
        Ok(self.p)
    }
}

#[derive(Clone)]
pub struct Argon2<'key> {
    algorithm: Algorithm,
    version: Version,
    params: Params,
    secret: Option<&'key [u8]>,
}
impl<'key> Default for Argon2<'key> {
    fn default() -> Self {
        Self::new(Algorithm::Argon2id, Version::V0x13, Params::default())
    }
}
impl<'key> Argon2<'key> {
    pub fn new(algorithm: Algorithm, version: Version, params: Params) -> Self {
        Self { algorithm, version, params, secret: None }
    }
    pub fn params(&self) -> &Params {
        &self.params
    }
    pub fn hash_password_into(&self, pwd: &[u8], salt: &[u8], out: &mut [u8]) -> Result<()> {
        if salt.len() < 8 {
            return Err(Error::SaltTooShort);
        }
        if out.len() < Params::MIN_OUTPUT_LEN {
            return Err(Error::OutputTooShort);
        }
        let k = argon2(self.algorithm, self.version, &self.params, pwd, salt, self.secret.unwrap_or(&[]), out.len());
        out.copy_from_slice(&k);
        Ok(())
    }
}

fn long_hash(input: &[u8], n: usize) -> Vec<u8> {
    let mut buf = (n as u32).to_le_bytes().to_vec();
    buf.extend_from_slice(input);
    if n <= 64 {
        return blake2b(&buf, n);
    }
    let r = n.div_ceil(32) - 2;
    let mut v = blake2b(&buf, 64);
    let mut out = v[..32].to_vec();
    for _ in 1..r {
        v = blake2b(&v, 64);
        out.extend_from_slice(&v[..32]);
    }
    out.extend(blake2b(&v, n - 32 * r));
    out
}
type Block = [u64; 128];
fn mix(v: &mut Block, i: [usize; 16]) {
    fn f(x: u64, y: u64) -> u64 {
        x.wrapping_add(y).wrapping_add(2u64.wrapping_mul((x as u32 as u64).wrapping_mul(y as u32 as u64)))
    }
    let mut g = |a: usize, b: usize, c: usize, d: usize| {
        let (a, b, c, d) = (i[a], i[b], i[c], i[d]);
        v[a] = f(v[a], v[b]);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = f(v[c], v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = f(v[a], v[b]);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = f(v[c], v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    };
    g(0, 4, 8, 12);
    g(1, 5, 9, 13);
    g(2, 6, 10, 14);
    g(3, 7, 11, 15);
    g(0, 5, 10, 15);
    g(1, 6, 11, 12);
    g(2, 7, 8, 13);
    g(3, 4, 9, 14);
}
fn compress(x: &Block, y: &Block) -> Block {
    let mut r = [0u64; 128];
    for i in 0..128 {
        r[i] = x[i] ^ y[i];
    }
    let mut q = r;
    for row in 0..8 {
        mix(&mut q, std::array::from_fn(|j| 16 * row + j));
    }
    for col in 0..8 {
        mix(&mut q, std::array::from_fn(|j| 16 * (j / 2) + 2 * col + j % 2));
    }
    for i in 0..128 {
        q[i] ^= r[i];
    }
    q
}
fn block(bytes: &[u8]) -> Block {
    std::array::from_fn(|i| u64::from_le_bytes(bytes[8 * i..8 * i + 8].try_into().unwrap()))
}

fn argon2(alg: Algorithm, ver: Version, p: &Params, pwd: &[u8], salt: &[u8], key: &[u8], n: usize) -> Vec<u8> {
    let lanes = p.p_cost as usize;
    let mut h = vec![];
    for w in [p.p_cost, n as u32, p.m_cost, p.t_cost, ver as u32, alg as u32] {
        h.extend(w.to_le_bytes());
    }
    for s in [pwd, salt, key, &[]] {
        h.extend((s.len() as u32).to_le_bytes());
        h.extend_from_slice(s);
    }
    let h0 = blake2b(&h, 64);
    let seg = (p.m_cost as usize / (4 * lanes)).max(2);
    let q = seg * 4;
    let mut b = vec![[0u64; 128]; q * lanes];
    for l in 0..lanes {
        for j in 0..2 {
            let mut x = h0.clone();
            x.extend((j as u32).to_le_bytes());
            x.extend((l as u32).to_le_bytes());
            b[l * q + j] = block(&long_hash(&x, 1024));
        }
    }
    let zero = [0u64; 128];
    for pass in 0..p.t_cost as usize {
        for slice in 0..4 {
            for lane in 0..lanes {
                let indep = alg == Algorithm::Argon2i || (alg == Algorithm::Argon2id && pass == 0 && slice < 2);
                let mut input = zero;
                let mut addr = zero;
                if indep {
                    input[..6].copy_from_slice(&[pass as u64, lane as u64, slice as u64, (q * lanes) as u64, p.t_cost as u64, alg as u64]);
                }
                let first = if pass == 0 && slice == 0 { 2 } else { 0 };
                for i in 0..seg {
                    if indep && (i % 128 == 0 || (i == first && first == 2)) && !(first == 2 && i == 0) {
                        input[6] += 1;
                        addr = compress(&zero, &compress(&zero, &input));
                    }
                    if i < first {
                        continue;
                    }
                    let cur = slice * seg + i;
                    let prev = if cur == 0 { q - 1 } else { cur - 1 };
                    let rand = if indep { addr[i % 128] } else { b[lane * q + prev][0] };
                    let (j1, j2) = (rand as u32 as u64, (rand >> 32) as usize);
                    let rl = if pass == 0 && slice == 0 { lane } else { j2 % lanes };
                    let area = if pass == 0 {
                        if slice == 0 {
                            i - 1
                        } else if rl == lane {
                            slice * seg + i - 1
                        } else {
                            slice * seg - usize::from(i == 0)
                        }
                    } else if rl == lane {
                        q - seg + i - 1
                    } else {
                        q - seg - usize::from(i == 0)
                    };
                    let x = (j1 * j1) >> 32;
                    let rel = area - 1 - ((area as u64 * x) >> 32) as usize;
                    let start = if pass != 0 && slice != 3 { (slice + 1) * seg } else { 0 };
                    let refi = (start + rel) % q;
                    let mut new = compress(&b[lane * q + prev], &b[rl * q + refi]);
                    if pass > 0 && ver == Version::V0x13 {
                        for (n, o) in new.iter_mut().zip(&b[lane * q + cur]) {
                            *n ^= o;
                        }
                    }
                    b[lane * q + cur] = new;
                }
            }
        }
    }
    let mut c = b[q - 1];
    for l in 1..lanes {
        for (x, y) in c.iter_mut().zip(&b[l * q + q - 1]) {
            *x ^= y;
        }
    }
    let bytes: Vec<u8> = c.iter().flat_map(|w| w.to_le_bytes()).collect();
    long_hash(&bytes, n)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn known() {
        // from the reference implementation's test.c: argon2i v0x13, t=2 m=256 p=1
        let p = Params::new(256, 2, 1, Some(32)).unwrap();
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        let mut o = [0; 32];
        Argon2::new(Algorithm::Argon2i, Version::V0x13, p).hash_password_into(b"password", b"somesalt", &mut o).unwrap();
        assert_eq!(hex(&o), "89e9029f4637b295beb027056a7336c414fadd43f6b208645281cb214a56452f");
    }
}
