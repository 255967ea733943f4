use super::SWModelParameters as Parameters;
use crate::{AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger, Field, One, PrimeField, SquareRootField, Zero};
use std::fmt;
use std::ops::{Add, Neg};

pub struct GroupAffine<P: Parameters> {
    pub x: P::BaseField,
    pub y: P::BaseField,
    pub infinity: bool,
}
impl<P: Parameters> Copy for GroupAffine<P> {}
impl<P: Parameters> Clone for GroupAffine<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P: Parameters> PartialEq for GroupAffine<P> {
    fn eq(&self, o: &Self) -> bool {
        if self.infinity || o.infinity {
            self.infinity == o.infinity
        } else {
            self.x == o.x && self.y == o.y
        }
    }
}
impl<P: Parameters> Eq for GroupAffine<P> {}
impl<P: Parameters> fmt::Debug for GroupAffine<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.infinity {
            write!(f, "GroupAffine(Infinity)")
        } else {
            write!(f, "GroupAffine(x={}, y={})", self.x, self.y)
        }
    }
}
impl<P: Parameters> Default for GroupAffine<P> {
    fn default() -> Self {
        Self::zero()
    }
}
impl<P: Parameters> GroupAffine<P> {
    pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
        Self { x, y, infinity }
    }
    pub fn zero() -> Self {
        Self::new(P::BaseField::zero(), P::BaseField::one(), true)
    }
    pub fn is_zero(&self) -> bool {
        self.infinity
    }
    pub fn is_on_curve(&self) -> bool {
        self.infinity || self.y.square() == self.x.square() * self.x + P::BaseField::from(P::B)
    }
    pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
        (x.square() * x + P::BaseField::from(P::B)).sqrt().map(|y| {
            let n = -y;
            Self::new(x, if (y < n) ^ greatest { y } else { n }, false)
        })
    }
    pub fn mul(&self, s: P::ScalarField) -> GroupProjective<P> {
        let bits = s.into_repr().to_bits_le();
        let mut acc = GroupProjective::<P>::zero();
        for b in bits.iter().rev() {
            acc = acc.double();
            if *b {
                acc = acc + *self;
            }
        }
        acc
    }
}
impl<P: Parameters> Neg for GroupAffine<P> {
    type Output = Self;
    fn neg(self) -> Self {
        if self.infinity {
            self
        } else {
            Self::new(self.x, -self.y, false)
        }
    }
}
impl<P: Parameters> AffineCurve for GroupAffine<P> {
    fn prime_subgroup_generator() -> Self {
        let (x, y) = P::generator();
        Self::new(x, y, false)
    }
}

pub struct GroupProjective<P: Parameters> {
    pub x: P::BaseField,
    pub y: P::BaseField,
    pub z: P::BaseField,
}
impl<P: Parameters> Copy for GroupProjective<P> {}
impl<P: Parameters> Clone for GroupProjective<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P: Parameters> PartialEq for GroupProjective<P> {
    fn eq(&self, o: &Self) -> bool {
        self.into_affine() == o.into_affine()
    }
}
impl<P: Parameters> Eq for GroupProjective<P> {}
impl<P: Parameters> GroupProjective<P> {
    pub fn zero() -> Self {
        Self { x: P::BaseField::one(), y: P::BaseField::one(), z: P::BaseField::zero() }
    }
    pub fn double(&self) -> Self {
        if self.z.is_zero() {
            return *self;
        }
        let a = self.x.square();
        let b = self.y.square();
        let c = b.square();
        let d = ((self.x + b).square() - a - c).double();
        let e = a + a.double();
        let f = e.square();
        let x = f - d.double();
        let y = (d - x) * e - c.double().double().double();
        let z = (self.y * self.z).double();
        Self { x, y, z }
    }
}
impl<P: Parameters> From<GroupAffine<P>> for GroupProjective<P> {
    fn from(a: GroupAffine<P>) -> Self {
        if a.infinity {
            Self::zero()
        } else {
            Self { x: a.x, y: a.y, z: P::BaseField::one() }
        }
    }
}
impl<P: Parameters> Add<GroupAffine<P>> for GroupProjective<P> {
    type Output = Self;
    fn add(self, o: GroupAffine<P>) -> Self {
        self + GroupProjective::from(o)
    }
}
impl<P: Parameters> Neg for GroupProjective<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Self { x: self.x, y: -self.y, z: self.z }
    }
}
impl<P: Parameters> Add for GroupProjective<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.z.is_zero() {
            return o;
        }
        if o.z.is_zero() {
            return self;
        }
        let z1z1 = self.z.square();
        let z2z2 = o.z.square();
        let u1 = self.x * z2z2;
        let u2 = o.x * z1z1;
        let s1 = self.y * o.z * z2z2;
        let s2 = o.y * self.z * z1z1;
        if u1 == u2 {
            return if s1 == s2 { self.double() } else { Self::zero() };
        }
        let h = u2 - u1;
        let i = h.double().square();
        let j = h * i;
        let r = (s2 - s1).double();
        let v = u1 * i;
        let x = r.square() - j - v.double();
        let y = r * (v - x) - (s1 * j).double();
        let z = ((self.z + o.z).square() - z1z1 - z2z2) * h;
        Self { x, y, z }
    }
}
impl<P: Parameters> ProjectiveCurve for GroupProjective<P> {
    type Affine = GroupAffine<P>;
    fn into_affine(&self) -> GroupAffine<P> {
        if self.z.is_zero() {
            return GroupAffine::zero();
        }
        let zi = self.z.inverse().unwrap();
        let z2 = zi.square();
        GroupAffine::new(self.x * z2, self.y * z2 * zi, false)
    }
}
