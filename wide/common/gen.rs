//! Random values of any wire type: a serde deserializer that reads its choices from the tape.
//! Version fields are 1 (every wire type of the repository), 32-byte arrays are field elements
//! (below 2^254), sequences are short.
use crate::core::Src;
use serde::de::{self, DeserializeOwned, DeserializeSeed, EnumAccess, SeqAccess, VariantAccess, Visitor};
use std::fmt;

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

pub struct G<'a> {
    pub s: &'a mut Src,
    /// sequences longer than this are not made
    pub max_len: u64,
    /// bytes of `Vec<u8>` and single bytes stay below 0x80
    pub ascii: bool,
    /// 32-byte arrays need not be field elements
    pub any_field: bool,
}

pub fn value<T: DeserializeOwned>(s: &mut Src) -> T {
    value_with(s, 3, false, false)
}
pub fn value_with<T: DeserializeOwned>(s: &mut Src, max_len: u64, ascii: bool, any_field: bool) -> T {
    let mut g = G { s, max_len, ascii, any_field };
    T::deserialize(&mut g).expect("generator")
}

impl<'a> G<'a> {
    fn int(&mut self, lo: i128, hi: i128) -> i128 {
        match self.s.below(4) {
            0 => self.s.below(4) as i128 + lo.max(0),
            _ => self.s.int(lo, hi),
        }
    }
    fn len(&mut self) -> usize {
        if self.max_len == 0 {
            0
        } else {
            self.s.range(0, self.max_len) as usize
        }
    }
    fn u8(&mut self) -> u8 {
        let b = self.s.byte();
        if self.ascii {
            b & 0x7f
        } else {
            b
        }
    }
}

macro_rules! ints {
    ($($f:ident $v:ident $t:ty),*) => { $(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            let x = self.int(<$t>::MIN as i128, <$t>::MAX as i128);
            v.$v(x as $t)
        }
    )* };
}

impl<'de, 'a, 'b> de::Deserializer<'de> for &'b mut G<'a> {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        false
    }
    ints! {deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64}
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let x = self.u8();
        v.visit_u8(x)
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let b = self.s.bool();
        v.visit_bool(b)
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("any".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("ignored_any".into()))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("identifier".into()))
    }
    fn deserialize_f32<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("f32".into()))
    }
    fn deserialize_f64<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("f64".into()))
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let b = self.s.byte() & 0x7f;
        v.visit_char(b as char)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_string(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len();
        let t: String = (0..n).map(|_| (self.s.byte() & 0x7f) as char).collect();
        v.visit_string(t)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_byte_buf(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len();
        let t = (0..n).map(|_| self.u8()).collect();
        v.visit_byte_buf(t)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.s.bool() {
            v.visit_some(self)
        } else {
            v.visit_none()
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len();
        v.visit_seq(Sq { g: self, left: n, bytes: None })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        if n == 32 {
            let mut b = match self.s.below(8) {
                0 => vec![0; 32],
                1 => vec![self.s.byte(); 32],
                2 => {
                    let mut x = vec![0; 32];
                    x[self.s.usz(32)] = self.s.byte();
                    x
                }
                _ => self.s.bytes(32),
            };
            if !self.any_field || self.s.bool() {
                b[31] &= 0x3f;
            }
            return v.visit_seq(Sq { g: self, left: 32, bytes: Some(b) });
        }
        v.visit_seq(Sq { g: self, left: n, bytes: None })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Sq { g: self, left: n, bytes: None })
    }
    fn deserialize_map<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("map".into()))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, E> {
        if name == "Versioned" {
            return v.visit_seq(Ver { g: self, at: 0 });
        }
        v.visit_seq(Sq { g: self, left: fields.len(), bytes: None })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, variants: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let i = self.s.usz(variants.len());
        v.visit_enum(En { g: self, i: i as u32 })
    }
}

struct Sq<'a, 'b> {
    g: &'b mut G<'a>,
    left: usize,
    bytes: Option<Vec<u8>>,
}
impl<'de, 'a, 'b> SeqAccess<'de> for Sq<'a, 'b> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        if let Some(b) = &self.bytes {
            let x = b[31 - self.left];
            return seed.deserialize(de::value::U8Deserializer::new(x)).map(Some);
        }
        seed.deserialize(&mut *self.g).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
struct Ver<'a, 'b> {
    g: &'b mut G<'a>,
    at: u8,
}
impl<'de, 'a, 'b> SeqAccess<'de> for Ver<'a, 'b> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        self.at += 1;
        match self.at {
            1 => seed.deserialize(de::value::U16Deserializer::new(1)).map(Some),
            2 => seed.deserialize(&mut *self.g).map(Some),
            _ => Ok(None),
        }
    }
}
struct En<'a, 'b> {
    g: &'b mut G<'a>,
    i: u32,
}
impl<'de, 'a, 'b> EnumAccess<'de> for En<'a, 'b> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Self), E> {
        let d: de::value::U32Deserializer<E> = de::IntoDeserializer::into_deserializer(self.i);
        Ok((seed.deserialize(d)?, self))
    }
}
impl<'de, 'a, 'b> VariantAccess<'de> for En<'a, 'b> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self.g)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(Sq { g: self.g, left: n, bytes: None })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(Sq { g: self.g, left: f.len(), bytes: None })
    }
}
