use crate::biginteger::*;
use crate::bytes::{FromBytes, ToBytes};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
use std::hash::Hash;
use std::io::{Read, Result as IoResult, Write};
use std::marker::PhantomData;
use std::ops::*;
use std::str::FromStr;

pub trait Field:
    'static + Copy + Clone + Debug + Display + Default + Send + Sync + Eq + Ord + Hash + Zero + One
    + Neg<Output = Self> + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self>
    + ToBytes + FromBytes + From<u64> + From<u32> + From<bool>
{
    fn double(&self) -> Self;
    fn square(&self) -> Self;
    fn inverse(&self) -> Option<Self>;
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self;
}
pub trait SquareRootField: Field {
    fn sqrt(&self) -> Option<Self>;
}
pub trait FpParameters: 'static + Copy + Clone + Debug + Default + Send + Sync + Eq + Ord + Hash {
    type BigInt: BigInteger;
    const MODULUS: Self::BigInt;
    const MODULUS_BITS: u32 = 255;
    const CAPACITY: u32 = 254;
    /// a quadratic non-residue, and the 2-adicity of p - 1 (for square roots)
    const GENERATOR: u64 = 5;
    const TWO_ADICITY: u32 = 32;
}
pub trait PrimeField: Field + FromStr + From<<Self as PrimeField>::BigInt> + Into<<Self as PrimeField>::BigInt> + Into<BigUint> + From<BigUint> {
    type Params: FpParameters<BigInt = Self::BigInt>;
    type BigInt: BigInteger;
    fn from_repr(repr: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self;
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut v = bytes.to_vec();
        v.reverse();
        Self::from_le_bytes_mod_order(&v)
    }
    fn size_in_bits() -> usize {
        Self::Params::MODULUS_BITS as usize
    }
}

/// Element of a 255-bit prime field, kept as its canonical representative.
pub struct Fp256<P>(BigInteger256, PhantomData<P>);
pub trait Fp256Parameters: FpParameters<BigInt = BigInteger256> {}

impl<P> Copy for Fp256<P> {}
impl<P> Clone for Fp256<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P> Default for Fp256<P> {
    fn default() -> Self {
        Fp256(BigInteger256::default(), PhantomData)
    }
}
impl<P> PartialEq for Fp256<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P> Eq for Fp256<P> {}
impl<P> Hash for Fp256<P> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<P> Ord for Fp256<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl<P> PartialOrd for Fp256<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<P> Debug for Fp256<P> {
    fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
        write!(f, "Fp256 \"({})\"", self.0)
    }
}
impl<P> Display for Fp256<P> {
    fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
        write!(f, "Fp256 \"({})\"", self.0)
    }
}

fn reduce_wide<P: Fp256Parameters>(mut w: [u64; 8]) -> BigInteger256 {
    // p = 2^254 + c: fold the part above bit 254: x = hi*2^254 + lo = lo - hi*c (mod p)
    // c < 2^126, so three folds suffice; done with signed accumulation by adding multiples of p
    let p = P::MODULUS.0;
    let c = [p[0], p[1]];
    debug_assert!(p[2] == 0 && p[3] == 1 << 62);
    let mut neg = false;
    loop {
        // split
        let mut hi = [0u64; 5];
        for i in 0..5 {
            let lo = w.get(i + 3).copied().unwrap_or(0) >> 62;
            let up = w.get(i + 4).copied().unwrap_or(0) << 2;
            hi[i] = lo | up;
        }
        if hi == [0; 5] {
            break;
        }
        let mut lo = [w[0], w[1], w[2], w[3] & ((1 << 62) - 1), 0, 0, 0, 0];
        let mut m = [0u64; 8];
        for i in 0..5 {
            let mut carry = 0u128;
            for j in 0..2 {
                let t = hi[i] as u128 * c[j] as u128 + m[i + j] as u128 + carry;
                m[i + j] = t as u64;
                carry = t >> 64;
            }
            let mut k = i + 2;
            while carry > 0 && k < 8 {
                let t = m[k] as u128 + carry;
                m[k] = t as u64;
                carry = t >> 64;
                k += 1;
            }
        }
        // w = |lo - m|
        let less = {
            let mut r = false;
            for i in (0..8).rev() {
                if lo[i] != m[i] {
                    r = lo[i] < m[i];
                    break;
                }
            }
            r
        };
        let (a, b) = if less { (&mut m, lo) } else { (&mut lo, m) };
        let mut borrow = 0i128;
        for i in 0..8 {
            let t = a[i] as i128 - b[i] as i128 - borrow;
            borrow = (t < 0) as i128;
            a[i] = t as u64;
        }
        w = *a;
        neg ^= less;
    }
    let r = BigInteger256([w[0], w[1], w[2], w[3]]);
    if neg && !r.is_zero() {
        let mut q = P::MODULUS;
        q.sub_noborrow(&r);
        q
    } else {
        r
    }
}

impl<P: Fp256Parameters> Fp256<P> {
    fn mul_impl(&self, o: &Self) -> Self {
        let mut w = [0u64; 8];
        for i in 0..4 {
            let mut carry = 0u128;
            for j in 0..4 {
                let t = self.0 .0[i] as u128 * o.0 .0[j] as u128 + w[i + j] as u128 + carry;
                w[i + j] = t as u64;
                carry = t >> 64;
            }
            w[i + 4] = carry as u64;
        }
        Fp256(reduce_wide::<P>(w), PhantomData)
    }
    fn add_impl(&self, o: &Self) -> Self {
        let mut r = self.0;
        r.add_nocarry(&o.0);
        if r >= P::MODULUS {
            r.sub_noborrow(&P::MODULUS);
        }
        Fp256(r, PhantomData)
    }
    fn neg_impl(&self) -> Self {
        if self.0.is_zero() {
            *self
        } else {
            let mut q = P::MODULUS;
            q.sub_noborrow(&self.0);
            Fp256(q, PhantomData)
        }
    }
}
impl<P: Fp256Parameters> Zero for Fp256<P> {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<P: Fp256Parameters> One for Fp256<P> {
    fn one() -> Self {
        Fp256(BigInteger256::from(1), PhantomData)
    }
}
impl<P: Fp256Parameters> Neg for Fp256<P> {
    type Output = Self;
    fn neg(self) -> Self {
        self.neg_impl()
    }
}
macro_rules! op {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, $e:expr) => {
        impl<P: Fp256Parameters> $t<Fp256<P>> for Fp256<P> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let g: fn(&Self, &Self) -> Self = $e;
                g(&self, &o)
            }
        }
        impl<'a, P: Fp256Parameters> $t<&'a Fp256<P>> for Fp256<P> {
            type Output = Self;
            fn $f(self, o: &Self) -> Self {
                let g: fn(&Self, &Self) -> Self = $e;
                g(&self, o)
            }
        }
        impl<P: Fp256Parameters> $ta<Fp256<P>> for Fp256<P> {
            fn $fa(&mut self, o: Self) {
                *self = $t::$f(*self, o);
            }
        }
        impl<'a, P: Fp256Parameters> $ta<&'a Fp256<P>> for Fp256<P> {
            fn $fa(&mut self, o: &Self) {
                *self = $t::$f(*self, *o);
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign, |a, b| a.add_impl(b));
op!(Sub, sub, SubAssign, sub_assign, |a, b| a.add_impl(&b.neg_impl()));
op!(Mul, mul, MulAssign, mul_assign, |a, b| a.mul_impl(b));
op!(Div, div, DivAssign, div_assign, |a, b| a.mul_impl(&b.inverse().unwrap()));
impl<P: Fp256Parameters> std::iter::Sum for Fp256<P> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}

impl<P: Fp256Parameters> Field for Fp256<P> {
    fn double(&self) -> Self {
        *self + *self
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn inverse(&self) -> Option<Self> {
        if self.0.is_zero() {
            return None;
        }
        let mut e = P::MODULUS;
        e.sub_noborrow(&BigInteger256::from(2));
        Some(self.pow(e))
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let e = exp.as_ref();
        let mut r = Self::one();
        for i in (0..e.len() * 64).rev() {
            r = r.square();
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r *= *self;
            }
        }
        r
    }
}
impl<P: Fp256Parameters> SquareRootField for Fp256<P> {
    fn sqrt(&self) -> Option<Self> {
        if self.is_zero() {
            return Some(*self);
        }
        // Tonelli-Shanks, p - 1 = t * 2^s
        let s = P::TWO_ADICITY;
        let mut t = P::MODULUS;
        t.sub_noborrow(&BigInteger256::from(1));
        t.divn(s);
        let mut t1 = t;
        t1.add_nocarry(&BigInteger256::from(1));
        t1.divn(1);
        let mut c = Self::from(P::GENERATOR).pow(t);
        let mut r = self.pow(t1);
        let mut u = self.pow(t);
        let mut m = s;
        while !u.is_one() {
            let mut i = 0;
            let mut v = u;
            while !v.is_one() {
                v = v.square();
                i += 1;
                if i == m {
                    return None;
                }
            }
            let mut b = c;
            for _ in 0..(m - i - 1) {
                b = b.square();
            }
            m = i;
            c = b.square();
            u *= c;
            r *= b;
        }
        (r.square() == *self).then_some(r)
    }
}
impl<P: Fp256Parameters> PrimeField for Fp256<P> {
    type Params = P;
    type BigInt = BigInteger256;
    fn from_repr(r: BigInteger256) -> Option<Self> {
        (r < P::MODULUS).then_some(Fp256(r, PhantomData))
    }
    fn into_repr(&self) -> BigInteger256 {
        self.0
    }
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
        let m: BigUint = P::MODULUS.into();
        let v = BigUint::from_bytes_le(bytes) % m;
        Fp256(v.try_into().unwrap(), PhantomData)
    }
}
impl<P: Fp256Parameters> From<BigInteger256> for Fp256<P> {
    /// # Panics
    /// This method panics if `int` is larger than `P::MODULUS`.
    fn from(int: BigInteger256) -> Self {
        Self::from_repr(int).unwrap()
    }
}
impl<P: Fp256Parameters> From<Fp256<P>> for BigInteger256 {
    fn from(f: Fp256<P>) -> Self {
        f.0
    }
}
impl<P: Fp256Parameters> From<BigUint> for Fp256<P> {
    fn from(v: BigUint) -> Self {
        Self::from_le_bytes_mod_order(&v.to_bytes_le())
    }
}
impl<P: Fp256Parameters> From<Fp256<P>> for BigUint {
    fn from(f: Fp256<P>) -> BigUint {
        f.0.into()
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$(
        impl<P: Fp256Parameters> From<$t> for Fp256<P> {
            fn from(v: $t) -> Self { Fp256(BigInteger256([v as u64, 0, 0, 0]), PhantomData) }
        }
    )*};
}
from_int!(u64, u32, u16, u8, bool);
impl<P: Fp256Parameters> From<u128> for Fp256<P> {
    fn from(v: u128) -> Self {
        Fp256(BigInteger256([v as u64, (v >> 64) as u64, 0, 0]), PhantomData)
    }
}
impl<P: Fp256Parameters> FromStr for Fp256<P> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let v = BigUint::from_str(s).map_err(|_| ())?;
        let m: BigUint = P::MODULUS.into();
        if v >= m {
            return Err(());
        }
        Ok(v.into())
    }
}
impl<P: Fp256Parameters> ToBytes for Fp256<P> {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.0.write(w)
    }
}
impl<P: Fp256Parameters> FromBytes for Fp256<P> {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        BigInteger256::read(r).and_then(|b| match Self::from_repr(b) {
            Some(f) => Ok(f),
            None => Err(std::io::Error::new(std::io::ErrorKind::Other, "FromBytes::read failed")),
        })
    }
}
