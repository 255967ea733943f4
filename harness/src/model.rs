//! Types and values as data, an independent bin_prot encoder and decoder for them, and the glue
//! that drives the crate's Serializer / Deserializer with them the way derived code does.
use crate::core::{dict, Src};
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Unit,
    UnitStruct,
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Char,
    Str,
    /// i64-like field annotated with the integer module (i8..i64 by width)
    Ann(u8),
    Option(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Newtype(Box<Ty>),
    Struct(Vec<(String, Ty)>),
    Enum { poly: bool, vars: Vec<(String, VTy)> },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum VTy {
    Unit,
    Newtype(Box<Ty>),
    Tuple(Vec<Ty>),
    Struct(Vec<(String, Ty)>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Unit,
    Bool(bool),
    I(i64),
    U(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Opt(Option<Box<Val>>),
    /// sequences, tuples, structs
    Seq(Vec<Val>),
    Var(u32, Vec<Val>),
}

impl Ty {
    /// can a value of this type take no byte at all on the wire?
    pub fn min_len(&self) -> usize {
        match self {
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Tuple(v) | Ty::TupleStruct(v) => v.iter().map(|t| t.min_len()).sum(),
            Ty::Newtype(t) => t.min_len(),
            Ty::Struct(v) => v.iter().map(|t| t.1.min_len()).sum(),
            Ty::Enum { poly, .. } => {
                if *poly {
                    4
                } else {
                    1
                }
            }
            _ => 1,
        }
    }
    pub fn compound(&self) -> bool {
        matches!(self, Ty::Option(_) | Ty::Seq(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Newtype(_) | Ty::Struct(_) | Ty::Enum { .. })
    }
}

// ---------------------------------------------------------------- generators

pub const NAMES: &[&str] = &["a", "b", "version", "t", "x", "y", "first", "second", "inner", "hash", "value", "state", "data", "len", "index", "name", "fee", "nonce", "Some", "None", "A", "B", "C"];

pub fn gen_name(s: &mut Src) -> String {
    let n = plain_name(s);
    if s.chance(1, 4) {
        vary_name(s, n)
    } else {
        n
    }
}
/// a name that differs from `n` in something a careless comparison overlooks
fn vary_name(s: &mut Src, n: String) -> String {
    match s.below(12) {
        0 | 1 => format!("{}{n}", "_".repeat(s.range(1, 2) as usize)),
        2 => format!("{n}_"),
        3 => n.to_uppercase(),
        4 => n.chars().take(1).flat_map(|c| c.to_uppercase()).chain(n.chars().skip(1)).collect(),
        5 => format!("{n}{}", s.below(12)),
        6 => n.replace('_', "-"),
        7 => format!("{n}{}", s.pick(&["'", ".t", " ", "é", "ß", "\u{0}", "/", "\u{130}", "::t"])),
        8 => format!("{}{n}", s.pick(&["r#", " ", "`", "t."])),
        9 => n.chars().rev().collect(),
        10 => n.repeat(s.range(2, 60) as usize),
        _ => n.chars().skip(1).collect(),
    }
}
fn plain_name(s: &mut Src) -> String {
    match s.below(6) {
        0..=3 => NAMES[s.usz(NAMES.len())].to_string(),
        4 if !dict().strs.is_empty() => dict().strs[s.usz(dict().strs.len())].clone(),
        _ => {
            let n = s.range(1, 6);
            (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
        }
    }
}
fn uniq(s: &mut Src, n: usize, mut f: impl FnMut(&mut Src) -> String) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let mut x = if i > 0 && s.chance(1, 10) {
            let k = s.usz(v.len());
            vary_name(s, v[k].clone())
        } else {
            f(s)
        };
        if v.contains(&x) {
            x = format!("{x}_{i}");
            while v.contains(&x) {
                x.push('_')
            }
        }
        v.push(x)
    }
    v
}
/// ASCII polyvar label whose hash the current implementation can compute (see known finding
/// polyvar-label-overflow: labels of five or more characters)
pub fn gen_label(s: &mut Src) -> String {
    match s.below(4) {
        0 => s.pick(&["One", "Two", "None", "Some", "A", "B", "Ok"]).to_string(),
        1 if dict().strs.iter().any(|x| short_ascii(x)) => {
            let c: Vec<&String> = dict().strs.iter().filter(|x| short_ascii(x)).collect();
            c[s.usz(c.len())].clone()
        }
        _ => {
            let n = s.range(1, 4);
            (0..n)
                .map(|_| {
                    if s.chance(1, 6) {
                        s.range(1, 127) as u8 as char
                    } else {
                        *s.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_'") as char
                    }
                })
                .collect()
        }
    }
}
fn short_ascii(x: &str) -> bool {
    !x.is_empty() && x.len() <= 4 && x.is_ascii()
}
fn gen_poly_labels(s: &mut Src, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let mut x = if s.chance(1, 10) { s.pick(&["é", "ßa", "Ünï", "日本語のラベル"]).to_string() } else { gen_label(s) };
        if v.contains(&x) {
            x = format!("{:x}", i + 16);
            while v.contains(&x) {
                x = format!("{:x}", u32::from_str_radix(&x, 16).unwrap() + 16)
            }
        }
        v.push(x)
    }
    if !v.iter().any(|x| x.is_ascii()) {
        v[0] = "One".into()
    }
    v
}

pub struct TyOpts {
    pub depth: u32,
    /// types whose decoding under a layout is defined (see C13)
    pub loose_ok: bool,
    pub poly: bool,
    pub ann: bool,
}
impl Default for TyOpts {
    fn default() -> Self {
        TyOpts { depth: 4, loose_ok: false, poly: true, ann: true }
    }
}

pub fn gen_ty(s: &mut Src, o: &TyOpts, depth: u32) -> Ty {
    let leaf = depth == 0 || s.below(5) < 2;
    if leaf {
        if o.loose_ok {
            return s.pick(&[Ty::Unit, Ty::Bool, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::U16, Ty::U32, Ty::U64, Ty::F64, Ty::Char, Ty::Str]).clone();
        }
        let k = s.below(17);
        return match k {
            0 => Ty::Unit,
            1 => Ty::Bool,
            2 => Ty::I64,
            3 => Ty::I8,
            4 => Ty::I16,
            5 => Ty::I32,
            6 => Ty::U8,
            7 => Ty::U16,
            8 => Ty::U32,
            9 | 10 => Ty::U64,
            11 => Ty::F32,
            12 => Ty::F64,
            13 => Ty::Char,
            14 => Ty::Str,
            15 => Ty::UnitStruct,
            _ => {
                if o.ann {
                    Ty::Ann(*s.pick(&[64, 32, 16, 8]))
                } else {
                    Ty::I64
                }
            }
        };
    }
    let d = depth - 1;
    if s.chance(1, 100) {
        // nesting far beyond the depth of ordinary types
        let mut t = gen_ty(s, o, 0);
        for _ in 0..s.range(6, 40) {
            t = match s.below(if o.loose_ok { 3 } else { 4 }) {
                0 => Ty::Option(Box::new(t)),
                1 => Ty::Tuple(vec![t, Ty::Bool]),
                2 => Ty::Seq(Box::new(if t.min_len() == 0 { Ty::Tuple(vec![t, Ty::Bool]) } else { t })),
                _ => Ty::Newtype(Box::new(t)),
            };
        }
        return t;
    }
    match s.below(if o.loose_ok { 5 } else { 8 }) {
        0 => Ty::Option(Box::new(gen_ty(s, o, d))),
        1 => {
            let mut t = gen_ty(s, o, d);
            if t.min_len() == 0 {
                t = Ty::Tuple(vec![t, Ty::Bool]);
            }
            Ty::Seq(Box::new(t))
        }
        2 => Ty::Tuple(gen_tys(s, o, d)),
        3 => Ty::Struct(gen_fields(s, o, d)),
        4 if o.loose_ok => Ty::TupleStruct(gen_tys(s, o, d)),
        4 => Ty::TupleStruct(gen_tys(s, o, d)),
        5 => Ty::Newtype(Box::new(gen_ty(s, o, d))),
        _ => gen_enum(s, o, d),
    }
}
fn gen_tys(s: &mut Src, o: &TyOpts, d: u32) -> Vec<Ty> {
    if s.chance(1, 40) {
        // many parts, all leaves
        let n = *s.pick(&[6usize, 8, 9, 12, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257]);
        return (0..n).map(|_| gen_ty(s, o, 0)).collect();
    }
    let n = *s.pick(&[2usize, 1, 3, 4, 0, 5]);
    (0..n).map(|_| gen_ty(s, o, d)).collect()
}
fn gen_fields(s: &mut Src, o: &TyOpts, d: u32) -> Vec<(String, Ty)> {
    let t = gen_tys(s, o, d);
    uniq(s, t.len(), gen_name).into_iter().zip(t).collect()
}
pub fn gen_enum(s: &mut Src, o: &TyOpts, d: u32) -> Ty {
    let poly = o.poly && s.bool();
    let n = if !poly && s.chance(1, 12) {
        s.pick(&[256usize, 255, 129, 128, 127, 200]).to_owned()
    } else {
        s.range(1, 6) as usize
    };
    let names = if poly {
        gen_poly_labels(s, n)
    } else if n > 100 {
        (0..n).map(|i| format!("V{i}")).collect()
    } else {
        uniq(s, n, gen_name)
    };
    let vars = names
        .into_iter()
        .map(|name| {
            let v = if n > 100 {
                // a payload now and then
                match s.below(40) {
                    0 => VTy::Newtype(Box::new(gen_ty(s, o, 0))),
                    1 => VTy::Tuple(vec![gen_ty(s, o, 0), gen_ty(s, o, 0)]),
                    2 => VTy::Struct(vec![("a".into(), gen_ty(s, o, 0)), ("b".into(), gen_ty(s, o, 0))]),
                    _ => VTy::Unit,
                }
            } else {
                match s.below(4) {
                    0 => VTy::Unit,
                    1 => VTy::Newtype(Box::new(gen_ty(s, o, d))),
                    2 => {
                        // one-field tuple variants are newtype variants in serde
                        let mut t = gen_tys(s, o, d);
                        if t.len() == 1 {
                            t.push(Ty::Bool)
                        }
                        VTy::Tuple(t)
                    }
                    _ => VTy::Struct(gen_fields(s, o, d)),
                }
            };
            (name, v)
        })
        .collect();
    Ty::Enum { poly, vars }
}

pub fn gen_len(s: &mut Src, budget: &mut i64) -> usize {
    let n = match s.below(24) {
        0..=19 => s.below(5) as usize,
        20 | 21 => s.below(20) as usize,
        22 => *s.pick(&[127usize, 128, 129, 126, 255, 256, 300]),
        _ => s.below(200) as usize,
    };
    let n = n.min((*budget).max(0) as usize);
    *budget -= n as i64;
    n
}
/// sizes around every length-encoding and buffering boundary
pub fn gen_big_len(s: &mut Src) -> usize {
    match s.below(6) {
        0 => *s.pick(&[128usize, 127, 129, 255, 256, 257]),
        1 => *s.pick(&[8192usize, 8191, 8190, 8189, 8193, 8188, 16384, 16383, 16381, 24576]),
        2 => *s.pick(&[65535usize, 65536, 65534, 65537, 70000]),
        3 => *s.pick(&[32767usize, 32768, 32769, 4096, 4095, 4097, 1024]),
        4 => {
            let c: Vec<usize> = dict().ints.iter().filter(|x| **x > 0 && **x < 100_000).map(|x| *x as usize).collect();
            if c.is_empty() {
                s.below(70000) as usize
            } else {
                (c[s.usz(c.len())] + s.usz(3)).saturating_sub(1)
            }
        }
        _ => s.below(70000) as usize,
    }
}
pub fn gen_string(s: &mut Src, budget: &mut i64) -> String {
    if s.chance(1, 24) && *budget > 0 {
        let n = gen_big_len(s);
        *budget -= n as i64;
        let c = s.byte();
        if s.chance(1, 3) {
            // of n bytes, with characters of several bytes in it
            let mut x = "a".repeat(s.usz(4).min(n));
            let m = *s.pick(&["é", "日", "😀", "aé"]);
            while x.len() + m.len() <= n {
                x.push_str(m)
            }
            while x.len() < n {
                x.push('z')
            }
            return x;
        }
        return (0..n).map(|i| (b' ' + ((c as usize + i * 7) % 94) as u8) as char).collect();
    }
    if s.chance(1, 6) && !dict().strs.is_empty() {
        return dict().strs[s.usz(dict().strs.len())].clone();
    }
    let n = gen_len(s, budget);
    (0..n)
        .map(|_| match s.below(8) {
            0..=5 => (b'a' + s.below(26) as u8) as char,
            6 => s.below(128) as u8 as char,
            _ => *s.pick(&['\u{0}', 'é', '日', '\u{10ffff}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '😀', '\u{feff}', ' ', '\n', '\u{fffd}']),
        })
        .collect()
}
pub fn gen_f64(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => (s.below(1000) as f64).to_bits(),
        1 => *s.pick(&[0f64.to_bits(), (-0f64).to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits(), 1, 0x7ff8000000000000, 0xfff8000000000001, 0x7ff0000000000001]),
        2 => (s.wide() as f64 / 8.0).to_bits(),
        _ => s.u64(),
    }
}
pub fn gen_val(s: &mut Src, t: &Ty, budget: &mut i64) -> Val {
    *budget -= 1;
    match t {
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Bool => Val::Bool(s.bool()),
        Ty::I8 => Val::I(s.int(i8::MIN as i128, i8::MAX as i128) as i64),
        Ty::I16 => Val::I(s.int(i16::MIN as i128, i16::MAX as i128) as i64),
        Ty::I32 => Val::I(s.int(i32::MIN as i128, i32::MAX as i128) as i64),
        Ty::I64 => Val::I(s.int(i64::MIN as i128, i64::MAX as i128) as i64),
        Ty::Ann(w) => {
            let h = 1i128 << (w - 1);
            Val::I(s.int(-h, h - 1) as i64)
        }
        Ty::U8 => Val::U(s.int(0, 255) as u64),
        Ty::U16 => Val::U(s.int(0, u16::MAX as i128) as u64),
        Ty::U32 => Val::U(s.int(0, u32::MAX as i128) as u64),
        Ty::U64 => Val::U(s.int(0, u64::MAX as i128) as u64),
        Ty::F32 => Val::F32(if s.bool() { s.u64() as u32 } else { (f64::from_bits(gen_f64(s)) as f32).to_bits() }),
        Ty::F64 => Val::F64(gen_f64(s)),
        Ty::Char => Val::Char(s.below(256) as u8 as char),
        Ty::Str => Val::Str(gen_string(s, budget)),
        Ty::Option(t) => {
            if s.below(3) == 0 {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(gen_val(s, t, budget))))
            }
        }
        Ty::Seq(t) => {
            if matches!(**t, Ty::U8 | Ty::Bool | Ty::Unit | Ty::Char | Ty::I64 | Ty::U16) && s.chance(1, 16) && *budget > 0 {
                // long sequences by repetition, so that the tape stays short
                let n = gen_big_len(s);
                *budget -= n as i64;
                let mut b2 = 10;
                let pat: Vec<Val> = (0..3).map(|_| gen_val(s, t, &mut b2)).collect();
                return Val::Seq((0..n).map(|i| pat[i % 3].clone()).collect());
            }
            let n = gen_len(s, budget);
            Val::Seq((0..n).map(|_| gen_val(s, t, budget)).collect())
        }
        Ty::Tuple(v) | Ty::TupleStruct(v) => Val::Seq(v.iter().map(|t| gen_val(s, t, budget)).collect()),
        Ty::Newtype(t) => gen_val(s, t, budget),
        Ty::Struct(v) => Val::Seq(v.iter().map(|t| gen_val(s, &t.1, budget)).collect()),
        Ty::Enum { poly, vars } => {
            let mut i = if s.chance(1, 4) { vars.len() - 1 } else { s.usz(vars.len()) };
            if *poly && !vars[i].0.is_ascii() {
                i = vars.iter().position(|v| v.0.is_ascii()).unwrap();
            }
            let f = match &vars[i].1 {
                VTy::Unit => vec![],
                VTy::Newtype(t) => vec![gen_val(s, t, budget)],
                VTy::Tuple(v) => v.iter().map(|t| gen_val(s, t, budget)).collect(),
                VTy::Struct(v) => v.iter().map(|t| gen_val(s, &t.1, budget)).collect(),
            };
            Val::Var(i as u32, f)
        }
    }
}

// ---------------------------------------------------------------- reference encoder

pub fn enc_int(n: i64, o: &mut Vec<u8>) {
    // https://github.com/janestreet/bin_prot, write.ml: bin_write_int
    if (0..0x80).contains(&n) {
        o.push(n as u8)
    } else if (-0x80..0).contains(&n) {
        o.push(0xff);
        o.push(n as i8 as u8)
    } else if (-0x8000..0x8000).contains(&n) {
        o.push(0xfe);
        o.extend_from_slice(&(n as i16).to_le_bytes())
    } else if (-0x8000_0000..0x8000_0000).contains(&n) {
        o.push(0xfd);
        o.extend_from_slice(&(n as i32).to_le_bytes())
    } else {
        o.push(0xfc);
        o.extend_from_slice(&n.to_le_bytes())
    }
}
pub fn enc_nat0(n: u64, o: &mut Vec<u8>) {
    if n < 0x80 {
        o.push(n as u8)
    } else if n <= 0xffff {
        o.push(0xfe);
        o.extend_from_slice(&(n as u16).to_le_bytes())
    } else if n <= 0xffff_ffff {
        o.push(0xfd);
        o.extend_from_slice(&(n as u32).to_le_bytes())
    } else {
        o.push(0xfc);
        o.extend_from_slice(&n.to_le_bytes())
    }
}
/// OCaml's hash of a polymorphic variant label (typing/btype.ml hash_variant, 31 bits)
pub fn ocaml_hash(label: &str) -> u32 {
    let mut accu: u64 = 0;
    for b in label.bytes() {
        accu = (223u64.wrapping_mul(accu).wrapping_add(b as u64)) & 0x7fff_ffff;
    }
    accu as u32
}
pub fn enc_tag(h: u32, o: &mut Vec<u8>) {
    o.extend_from_slice(&(((h as u64) * 2 + 1) as u32).to_le_bytes())
}
pub fn enc(t: &Ty, v: &Val, o: &mut Vec<u8>) {
    match (t, v) {
        (Ty::Unit | Ty::UnitStruct, Val::Unit) => o.push(0),
        (Ty::Bool, Val::Bool(b)) => o.push(*b as u8),
        (Ty::U8, Val::U(n)) => o.push(*n as u8),
        (Ty::U16 | Ty::U32 | Ty::U64, Val::U(n)) => enc_int(*n as i64, o),
        (Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::Ann(_), Val::I(n)) => enc_int(*n, o),
        (Ty::F32, Val::F32(b)) => o.extend_from_slice(&b.to_le_bytes()),
        (Ty::F64, Val::F64(b)) => o.extend_from_slice(&b.to_le_bytes()),
        (Ty::Char, Val::Char(c)) => o.push(*c as u32 as u8),
        (Ty::Str, Val::Str(x)) => {
            enc_nat0(x.len() as u64, o);
            o.extend_from_slice(x.as_bytes())
        }
        (Ty::Option(_), Val::Opt(None)) => o.push(0),
        (Ty::Option(t), Val::Opt(Some(v))) => {
            o.push(1);
            enc(t, v, o)
        }
        (Ty::Seq(t), Val::Seq(vs)) => {
            enc_nat0(vs.len() as u64, o);
            for v in vs {
                enc(t, v, o)
            }
        }
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), Val::Seq(vs)) => {
            for (t, v) in ts.iter().zip(vs) {
                enc(t, v, o)
            }
        }
        (Ty::Newtype(t), v) => enc(t, v, o),
        (Ty::Struct(ts), Val::Seq(vs)) => {
            for (t, v) in ts.iter().zip(vs) {
                enc(&t.1, v, o)
            }
        }
        (Ty::Enum { poly, vars }, Val::Var(i, vs)) => {
            let (name, vt) = &vars[*i as usize];
            if *poly {
                enc_tag(ocaml_hash(name), o)
            } else {
                o.push(*i as u8)
            }
            match vt {
                VTy::Unit => {}
                VTy::Newtype(t) => enc(t, &vs[0], o),
                VTy::Tuple(ts) => {
                    for (t, v) in ts.iter().zip(vs) {
                        enc(t, v, o)
                    }
                }
                VTy::Struct(ts) => {
                    for (t, v) in ts.iter().zip(vs) {
                        enc(&t.1, v, o)
                    }
                }
            }
        }
        _ => panic!("harness: value {v:?} is not of type {t:?}"),
    }
}
pub fn encode(t: &Ty, v: &Val) -> Vec<u8> {
    let mut o = vec![];
    enc(t, v, &mut o);
    o
}

// ---------------------------------------------------------------- reference decoder

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Rej {
    /// not an encoding of any value of the type
    Bad,
    /// the input ends too early
    Eof,
    /// the format's specification and this implementation differ; no claim is made
    Unspec,
}
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// how many sequence elements may still be decoded (hostile lengths with tiny elements)
    pub fuel: u64,
}
type D<T> = Result<T, Rej>;
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0, fuel: u64::MAX }
    }
    pub fn take(&mut self, n: u64) -> D<&'a [u8]> {
        if ((self.b.len() - self.p) as u64) < n {
            return Err(Rej::Eof);
        }
        let r = &self.b[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(r)
    }
    pub fn u8(&mut self) -> D<u8> {
        Ok(self.take(1)?[0])
    }
}
pub fn dec_int(c: &mut Cur) -> D<i64> {
    Ok(match c.u8()? {
        b @ 0..=0x7f => b as i64,
        0xff => {
            let x = c.u8()? as i8;
            if x >= 0 {
                return Err(Rej::Unspec);
            }
            x as i64
        }
        0xfe => i16::from_le_bytes(c.take(2)?.try_into().unwrap()) as i64,
        0xfd => i32::from_le_bytes(c.take(4)?.try_into().unwrap()) as i64,
        0xfc => i64::from_le_bytes(c.take(8)?.try_into().unwrap()),
        _ => return Err(Rej::Bad),
    })
}
pub fn dec_nat0(c: &mut Cur) -> D<u64> {
    Ok(match c.u8()? {
        b @ 0..=0x7f => b as u64,
        0xfe => u16::from_le_bytes(c.take(2)?.try_into().unwrap()) as u64,
        0xfd => u32::from_le_bytes(c.take(4)?.try_into().unwrap()) as u64,
        0xfc => u64::from_le_bytes(c.take(8)?.try_into().unwrap()),
        _ => return Err(Rej::Bad),
    })
}
fn ranged(n: i64, lo: i64, hi: i64) -> D<i64> {
    if n < lo || n > hi {
        Err(Rej::Bad)
    } else {
        Ok(n)
    }
}
pub fn dec(t: &Ty, c: &mut Cur) -> D<Val> {
    Ok(match t {
        Ty::Unit | Ty::UnitStruct => match c.u8()? {
            0 => Val::Unit,
            _ => return Err(Rej::Bad),
        },
        Ty::Bool => match c.u8()? {
            0 => Val::Bool(false),
            1 => Val::Bool(true),
            _ => return Err(Rej::Bad),
        },
        Ty::U8 => Val::U(c.u8()? as u64),
        Ty::U16 => Val::U(ranged(dec_int(c)?, 0, u16::MAX as i64)? as u64),
        Ty::U32 => Val::U(ranged(dec_int(c)?, 0, u32::MAX as i64)? as u64),
        Ty::U64 => Val::U(dec_int(c)? as u64),
        Ty::I8 | Ty::Ann(8) => Val::I(ranged(dec_int(c)?, i8::MIN as i64, i8::MAX as i64)?),
        Ty::I16 | Ty::Ann(16) => Val::I(ranged(dec_int(c)?, i16::MIN as i64, i16::MAX as i64)?),
        Ty::I32 | Ty::Ann(32) => Val::I(ranged(dec_int(c)?, i32::MIN as i64, i32::MAX as i64)?),
        Ty::I64 | Ty::Ann(_) => Val::I(dec_int(c)?),
        Ty::F32 => Val::F32(u32::from_le_bytes(c.take(4)?.try_into().unwrap())),
        Ty::F64 => Val::F64(u64::from_le_bytes(c.take(8)?.try_into().unwrap())),
        Ty::Char => Val::Char(c.u8()? as char),
        Ty::Str => {
            let n = dec_nat0(c)?;
            let b = c.take(n)?;
            Val::Str(std::str::from_utf8(b).map_err(|_| Rej::Bad)?.to_string())
        }
        Ty::Option(t) => match c.u8()? {
            0 => Val::Opt(None),
            1 => Val::Opt(Some(Box::new(dec(t, c)?))),
            _ => return Err(Rej::Bad),
        },
        Ty::Seq(t) => {
            let n = dec_nat0(c)?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(dec(t, c)?)
            }
            Val::Seq(v)
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => {
            let mut v = vec![];
            for t in ts {
                v.push(dec(t, c)?)
            }
            Val::Seq(v)
        }
        Ty::Newtype(t) => dec(t, c)?,
        Ty::Struct(ts) => {
            let mut v = vec![];
            for t in ts {
                v.push(dec(&t.1, c)?)
            }
            Val::Seq(v)
        }
        Ty::Enum { poly, vars } => {
            let i = if *poly {
                let w = u32::from_le_bytes(c.take(4)?.try_into().unwrap());
                if w & 1 == 0 {
                    return Err(Rej::Unspec);
                }
                vars.iter().position(|v| v.0.is_ascii() && ocaml_hash(&v.0) == w >> 1).ok_or(Rej::Bad)?
            } else {
                let i = c.u8()? as usize;
                if i >= vars.len() {
                    return Err(Rej::Bad);
                }
                i
            };
            let mut v = vec![];
            match &vars[i].1 {
                VTy::Unit => {}
                VTy::Newtype(t) => v.push(dec(t, c)?),
                VTy::Tuple(ts) => {
                    for t in ts {
                        v.push(dec(t, c)?)
                    }
                }
                VTy::Struct(ts) => {
                    for t in ts {
                        v.push(dec(&t.1, c)?)
                    }
                }
            }
            Val::Var(i as u32, v)
        }
    })
}

// ---------------------------------------------------------------- serde glue

/// The strings live as long as the case; the crate under test does not keep them.
fn st(s: &str) -> &'static str {
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}
fn names<'a, T>(v: &'a [(String, T)]) -> Vec<&'static str> {
    v.iter().map(|x| st(&x.0)).collect()
}
fn st_slice(s: &[&'static str]) -> &'static [&'static str] {
    unsafe { std::mem::transmute::<&[&'static str], &'static [&'static str]>(s) }
}

pub struct Ser<'a>(pub &'a Ty, pub &'a Val);
struct AnnSer(u8, i64);
impl Serialize for AnnSer {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use bin_prot::integers::integer;
        match self.0 {
            8 => integer::serialize(&(self.1 as i8), s),
            16 => integer::serialize(&(self.1 as i16), s),
            32 => integer::serialize(&(self.1 as i32), s),
            _ => integer::serialize(&self.1, s),
        }
    }
}
impl<'a> Serialize for Ser<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("U"),
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::I8, Val::I(n)) => s.serialize_i8(*n as i8),
            (Ty::I16, Val::I(n)) => s.serialize_i16(*n as i16),
            (Ty::I32, Val::I(n)) => s.serialize_i32(*n as i32),
            (Ty::I64, Val::I(n)) => s.serialize_i64(*n),
            (Ty::Ann(w), Val::I(n)) => AnnSer(*w, *n).serialize(s),
            (Ty::U8, Val::U(n)) => s.serialize_u8(*n as u8),
            (Ty::U16, Val::U(n)) => s.serialize_u16(*n as u16),
            (Ty::U32, Val::U(n)) => s.serialize_u32(*n as u32),
            (Ty::U64, Val::U(n)) => s.serialize_u64(*n),
            (Ty::F32, Val::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (Ty::F64, Val::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c),
            (Ty::Str, Val::Str(x)) => s.serialize_str(x),
            (Ty::Option(_), Val::Opt(None)) => s.serialize_none(),
            (Ty::Option(t), Val::Opt(Some(v))) => s.serialize_some(&Ser(t, v)),
            (Ty::Seq(t), Val::Seq(vs)) => {
                let mut q = s.serialize_seq(Some(vs.len()))?;
                for v in vs {
                    q.serialize_element(&Ser(t, v))?
                }
                q.end()
            }
            (Ty::Tuple(ts), Val::Seq(vs)) => {
                let mut q = s.serialize_tuple(vs.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_element(&Ser(t, v))?
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::Seq(vs)) => {
                let mut q = s.serialize_tuple_struct("T", vs.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_field(&Ser(t, v))?
                }
                q.end()
            }
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("N", &Ser(t, v)),
            (Ty::Struct(ts), Val::Seq(vs)) => {
                let mut q = s.serialize_struct("S", vs.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_field(st(&t.0), &Ser(&t.1, v))?
                }
                q.end()
            }
            (Ty::Enum { poly, vars }, Val::Var(i, vs)) => {
                let en = enum_name(*poly, vars.iter().map(|v| v.0.len()).sum());
                let (name, vt) = &vars[*i as usize];
                match vt {
                    VTy::Unit => s.serialize_unit_variant(en, *i, st(name)),
                    VTy::Newtype(t) => s.serialize_newtype_variant(en, *i, st(name), &Ser(t, &vs[0])),
                    VTy::Tuple(ts) => {
                        let mut q = s.serialize_tuple_variant(en, *i, st(name), ts.len())?;
                        for (t, v) in ts.iter().zip(vs) {
                            q.serialize_field(&Ser(t, v))?
                        }
                        q.end()
                    }
                    VTy::Struct(ts) => {
                        let mut q = s.serialize_struct_variant(en, *i, st(name), ts.len())?;
                        for (t, v) in ts.iter().zip(vs) {
                            q.serialize_field(st(&t.0), &Ser(&t.1, v))?
                        }
                        q.end()
                    }
                }
            }
            (t, v) => panic!("harness: value {v:?} is not of type {t:?}"),
        }
    }
}

/// Decodes a value of a type given as data, asking the Deserializer for exactly what derived code
/// asks for.
pub struct Seed<'a>(pub &'a Ty);
struct Vis<'a>(&'a Ty);

impl<'de, 'a> DeserializeSeed<'de> for Seed<'a> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let v = Vis(self.0);
        match self.0 {
            Ty::Unit => d.deserialize_unit(v),
            Ty::UnitStruct => d.deserialize_unit_struct("U", v),
            Ty::Bool => d.deserialize_bool(v),
            Ty::I8 => d.deserialize_i8(v),
            Ty::I16 => d.deserialize_i16(v),
            Ty::I32 => d.deserialize_i32(v),
            Ty::I64 => d.deserialize_i64(v),
            Ty::Ann(8) => bin_prot::integers::integer::deserialize::<D, i8>(d).map(|x| Val::I(x as i64)),
            Ty::Ann(16) => bin_prot::integers::integer::deserialize::<D, i16>(d).map(|x| Val::I(x as i64)),
            Ty::Ann(32) => bin_prot::integers::integer::deserialize::<D, i32>(d).map(|x| Val::I(x as i64)),
            Ty::Ann(_) => bin_prot::integers::integer::deserialize::<D, i64>(d).map(Val::I),
            Ty::U8 => d.deserialize_u8(v),
            Ty::U16 => d.deserialize_u16(v),
            Ty::U32 => d.deserialize_u32(v),
            Ty::U64 => d.deserialize_u64(v),
            Ty::F32 => d.deserialize_f32(v),
            Ty::F64 => d.deserialize_f64(v),
            Ty::Char => d.deserialize_char(v),
            Ty::Str => d.deserialize_string(v),
            Ty::Option(_) => d.deserialize_option(v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), v),
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("T", t.len(), v),
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", v),
            Ty::Struct(f) => {
                let n = names(f);
                d.deserialize_struct("S", st_slice(&n), v)
            }
            Ty::Enum { poly, vars } => {
                let n = names(vars);
                d.deserialize_enum(enum_name(*poly, vars.iter().map(|v| v.0.len()).sum()), st_slice(&n), v)
            }
        }
    }
}
/// what the code under test gave the visitor must be of the requested kind
fn kind<E: de::Error>(t: &Ty, got: &str) -> E {
    E::custom(format!("unexpected {got} for {t:?}"))
}
macro_rules! vint {
    ($f:ident, $ty:ty) => {
        fn $f<E: de::Error>(self, x: $ty) -> Result<Val, E> {
            let n = x as i128;
            let fits = |lo: i128, hi: i128| n >= lo && n <= hi;
            let (ok, signed) = match self.0 {
                Ty::I8 => (fits(i8::MIN as i128, i8::MAX as i128), true),
                Ty::I16 => (fits(i16::MIN as i128, i16::MAX as i128), true),
                Ty::I32 => (fits(i32::MIN as i128, i32::MAX as i128), true),
                Ty::I64 => (fits(i64::MIN as i128, i64::MAX as i128), true),
                Ty::U8 => (fits(0, 255), false),
                Ty::U16 => (fits(0, u16::MAX as i128), false),
                Ty::U32 => (fits(0, u32::MAX as i128), false),
                Ty::U64 => (fits(0, u64::MAX as i128), false),
                _ => return Err(kind(self.0, stringify!($f))),
            };
            if !ok {
                return Err(E::custom("integer out of range"));
            }
            Ok(if signed { Val::I(n as i64) } else { Val::U(n as u64) })
        }
    };
}
struct Ident(usize);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = u32;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = u32;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant identifier")
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<u32, E> {
        if n < self.0 as u64 {
            Ok(n as u32)
        } else {
            Err(E::invalid_value(de::Unexpected::Unsigned(n), &"variant index"))
        }
    }
}
struct Fields<'a>(Vec<&'a Ty>);
impl<'de, 'a> Visitor<'de> for Fields<'a> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("fields")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut v = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(t))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &"more fields")),
            }
        }
        Ok(v)
    }
}
impl<'de, 'a> Visitor<'de> for Vis<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::Unit | Ty::UnitStruct => Ok(Val::Unit),
            t => Err(kind(t, "unit")),
        }
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<Val, E> {
        match self.0 {
            Ty::Bool => Ok(Val::Bool(b)),
            t => Err(kind(t, "bool")),
        }
    }
    vint!(visit_i8, i8);
    vint!(visit_i16, i16);
    vint!(visit_i32, i32);
    vint!(visit_i64, i64);
    vint!(visit_u8, u8);
    vint!(visit_u16, u16);
    vint!(visit_u32, u32);
    vint!(visit_u64, u64);
    fn visit_f32<E: de::Error>(self, x: f32) -> Result<Val, E> {
        match self.0 {
            Ty::F32 => Ok(Val::F32(x.to_bits())),
            t => Err(kind(t, "f32")),
        }
    }
    fn visit_f64<E: de::Error>(self, x: f64) -> Result<Val, E> {
        match self.0 {
            Ty::F64 => Ok(Val::F64(x.to_bits())),
            t => Err(kind(t, "f64")),
        }
    }
    fn visit_char<E: de::Error>(self, c: char) -> Result<Val, E> {
        match self.0 {
            Ty::Char => Ok(Val::Char(c)),
            t => Err(kind(t, "char")),
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Val, E> {
        match self.0 {
            Ty::Str => Ok(Val::Str(s.to_string())),
            t => Err(kind(t, "str")),
        }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<Val, E> {
        match self.0 {
            // as serde's String visitor does
            Ty::Str => std::str::from_utf8(s).map(|x| Val::Str(x.to_string())).map_err(|_| E::custom("not utf-8")),
            t => Err(kind(t, "bytes")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::Option(_) => Ok(Val::Opt(None)),
            t => Err(kind(t, "none")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Option(t) => Ok(Val::Opt(Some(Box::new(Seed(t).deserialize(d)?)))),
            t => Err(kind(t, "some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Seed(t).deserialize(d),
            t => Err(kind(t, "newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut v = vec![];
                while let Some(x) = a.next_element_seed(Seed(t))? {
                    v.push(x)
                }
                Ok(Val::Seq(v))
            }
            Ty::Tuple(t) | Ty::TupleStruct(t) => Fields(t.iter().collect()).visit_seq(a).map(Val::Seq),
            Ty::Struct(f) => Fields(f.iter().map(|x| &x.1).collect()).visit_seq(a).map(Val::Seq),
            t => Err(kind(t, "seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Struct(f) => {
                let mut v: Vec<Option<Val>> = vec![None; f.len()];
                while let Some(k) = a.next_key::<String>()? {
                    let i = f.iter().position(|x| x.0 == k).ok_or_else(|| de::Error::custom(format!("unknown field {k}")))?;
                    if v[i].is_some() {
                        return Err(de::Error::custom(format!("duplicate field {k}")));
                    }
                    v[i] = Some(a.next_value_seed(Seed(&f[i].1))?);
                }
                let v: Option<Vec<Val>> = v.into_iter().collect();
                v.map(Val::Seq).ok_or_else(|| de::Error::custom("missing field"))
            }
            t => Err(kind(t, "map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Enum { vars, .. } => {
                let (i, va) = a.variant_seed(Ident(vars.len()))?;
                let f = match &vars[i as usize].1 {
                    VTy::Unit => {
                        va.unit_variant()?;
                        vec![]
                    }
                    VTy::Newtype(t) => vec![va.newtype_variant_seed(Seed(t))?],
                    VTy::Tuple(ts) => va.tuple_variant(ts.len(), Fields(ts.iter().collect()))?,
                    VTy::Struct(ts) => {
                        let n = names(ts);
                        va.struct_variant(st_slice(&n), Fields(ts.iter().map(|x| &x.1).collect()))?
                    }
                };
                Ok(Val::Var(i, f))
            }
            t => Err(kind(t, "enum")),
        }
    }
}

/// The name of an enum type: names near the one of polymorphic variants are ordinary names.
fn enum_name(poly: bool, k: usize) -> &'static str {
    if poly {
        "Polyvar"
    } else {
        ["E", "Polyvar2", "polyvar", "Poly", "PolyVariant", "APolyvar", "Tag", "Option"][k % 8]
    }
}
