use crate::bytes::{FromBytes, ToBytes};
use num_bigint::BigUint;
use std::cmp::Ordering;
use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
use std::io::{Read, Result as IoResult, Write};

pub trait BigInteger:
    ToBytes + FromBytes + Copy + Clone + Debug + Default + Display + Eq + Ord + Send + Sized + Sync + 'static + AsMut<[u64]> + AsRef<[u64]> + From<u64>
{
    const NUM_LIMBS: usize;
    fn add_nocarry(&mut self, other: &Self) -> bool;
    fn sub_noborrow(&mut self, other: &Self) -> bool;
    fn mul2(&mut self);
    fn muln(&mut self, amt: u32);
    fn div2(&mut self);
    fn divn(&mut self, amt: u32);
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool;
    fn is_zero(&self) -> bool;
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
    fn from_bits_be(bits: &[bool]) -> Self;
    fn from_bits_le(bits: &[bool]) -> Self;
    fn to_bits_be(&self) -> Vec<bool>;
    fn to_bits_le(&self) -> Vec<bool>;
    fn to_bytes_be(&self) -> Vec<u8>;
    fn to_bytes_le(&self) -> Vec<u8>;
}

#[derive(Copy, Clone, PartialEq, Eq, Default, Hash)]
pub struct BigInteger256(pub [u64; 4]);

impl BigInteger256 {
    pub const fn new(value: [u64; 4]) -> Self {
        BigInteger256(value)
    }
}

impl BigInteger for BigInteger256 {
    const NUM_LIMBS: usize = 4;
    fn add_nocarry(&mut self, other: &Self) -> bool {
        let mut c = 0u128;
        for i in 0..4 {
            let t = self.0[i] as u128 + other.0[i] as u128 + c;
            self.0[i] = t as u64;
            c = t >> 64;
        }
        c != 0
    }
    fn sub_noborrow(&mut self, other: &Self) -> bool {
        let mut b = 0i128;
        for i in 0..4 {
            let t = self.0[i] as i128 - other.0[i] as i128 - b;
            b = (t < 0) as i128;
            self.0[i] = t as u64;
        }
        b != 0
    }
    fn mul2(&mut self) {
        self.muln(1)
    }
    fn muln(&mut self, mut n: u32) {
        if n >= 256 {
            self.0 = [0; 4];
            return;
        }
        while n >= 64 {
            self.0 = [0, self.0[0], self.0[1], self.0[2]];
            n -= 64;
        }
        if n > 0 {
            let mut t = 0;
            for i in 0..4 {
                let hi = self.0[i] >> (64 - n);
                self.0[i] = self.0[i] << n | t;
                t = hi;
            }
        }
    }
    fn div2(&mut self) {
        self.divn(1)
    }
    fn divn(&mut self, mut n: u32) {
        if n >= 256 {
            self.0 = [0; 4];
            return;
        }
        while n >= 64 {
            self.0 = [self.0[1], self.0[2], self.0[3], 0];
            n -= 64;
        }
        if n > 0 {
            let mut t = 0;
            for i in (0..4).rev() {
                let lo = self.0[i] << (64 - n);
                self.0[i] = self.0[i] >> n | t;
                t = lo;
            }
        }
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn num_bits(&self) -> u32 {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return i as u32 * 64 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
    fn get_bit(&self, i: usize) -> bool {
        i < 256 && self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn from_bits_be(bits: &[bool]) -> Self {
        let mut v = bits.to_vec();
        v.reverse();
        Self::from_bits_le(&v)
    }
    fn from_bits_le(bits: &[bool]) -> Self {
        let mut r = Self::default();
        for (i, b) in bits.iter().enumerate().take(256) {
            r.0[i / 64] |= (*b as u64) << (i % 64);
        }
        r
    }
    fn to_bits_be(&self) -> Vec<bool> {
        let mut v = self.to_bits_le();
        v.reverse();
        v
    }
    fn to_bits_le(&self) -> Vec<bool> {
        (0..256).map(|i| self.get_bit(i)).collect()
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.iter().flat_map(|l| l.to_le_bytes()).collect()
    }
}

impl ToBytes for BigInteger256 {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        w.write_all(&self.to_bytes_le())
    }
}
impl FromBytes for BigInteger256 {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let mut o = [0u64; 4];
        for l in o.iter_mut() {
            let mut b = [0u8; 8];
            r.read_exact(&mut b)?;
            *l = u64::from_le_bytes(b);
        }
        Ok(Self(o))
    }
}
impl Debug for BigInteger256 {
    fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
        Display::fmt(self, f)
    }
}
impl Display for BigInteger256 {
    fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
        for i in self.0.iter().rev() {
            write!(f, "{:016X}", *i)?;
        }
        Ok(())
    }
}
impl Ord for BigInteger256 {
    fn cmp(&self, o: &Self) -> Ordering {
        for i in (0..4).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                c => return c,
            }
        }
        Ordering::Equal
    }
}
impl PartialOrd for BigInteger256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl AsMut<[u64]> for BigInteger256 {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl AsRef<[u64]> for BigInteger256 {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl From<u64> for BigInteger256 {
    fn from(v: u64) -> Self {
        Self([v, 0, 0, 0])
    }
}
impl TryFrom<BigUint> for BigInteger256 {
    type Error = String;
    fn try_from(val: BigUint) -> Result<Self, String> {
        let bytes = val.to_bytes_le();
        if bytes.len() > 32 {
            return Err(format!("A BigUint of {} bytes cannot fit into a 4-limb BigInteger256", bytes.len()));
        }
        let mut b = [0u8; 32];
        b[..bytes.len()].copy_from_slice(&bytes);
        Ok(Self::read(&b[..]).unwrap())
    }
}
impl From<BigInteger256> for BigUint {
    fn from(v: BigInteger256) -> BigUint {
        BigUint::from_bytes_le(&v.to_bytes_le())
    }
}
