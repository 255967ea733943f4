//! What a wire value is made of (captured through serde), and an independent rendering of it in
//! Mina's JSON.
use crate::text::*;
use serde::ser::{self, Serialize};
use serde_json::{json, Map, Value};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Tr {
    Bool(bool),
    U8(u8),
    U(u64),
    I32(i32),
    I64(i64),
    Str(String),
    Unit,
    None,
    Newtype(&'static str, Box<Tr>),
    Seq(Vec<Tr>),
    Tuple(Vec<Tr>),
    TupleStruct(&'static str, Vec<Tr>),
    Struct(&'static str, Vec<(&'static str, Tr)>),
    /// enum, variant, and what the variant holds
    UnitVar(&'static str, &'static str),
    NewVar(&'static str, &'static str, Box<Tr>),
    TupleVar(&'static str, &'static str, Vec<Tr>),
    StructVar(&'static str, &'static str, Vec<(&'static str, Tr)>),
}

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

pub fn tree<T: Serialize>(t: &T) -> Tr {
    t.serialize(S).expect("tree")
}
struct S;
pub struct Many {
    v: Vec<Tr>,
    f: Vec<(&'static str, Tr)>,
    name: &'static str,
    variant: &'static str,
    kind: u8,
}
impl Many {
    fn new(kind: u8, name: &'static str, variant: &'static str) -> Result<Self, E> {
        Ok(Many { v: vec![], f: vec![], name, variant, kind })
    }
}
impl ser::Serializer for S {
    type Ok = Tr;
    type Error = E;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = ser::Impossible<Tr, E>;
    type SerializeStruct = Many;
    type SerializeStructVariant = Many;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> Result<Tr, E> {
        Ok(Tr::Bool(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Tr, E> {
        Ok(Tr::U8(v))
    }
    fn serialize_u16(self, v: u16) -> Result<Tr, E> {
        Ok(Tr::U(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Tr, E> {
        Ok(Tr::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Tr, E> {
        Ok(Tr::U(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Tr, E> {
        Ok(Tr::I64(v as i64))
    }
    fn serialize_i16(self, v: i16) -> Result<Tr, E> {
        Ok(Tr::I64(v as i64))
    }
    fn serialize_i32(self, v: i32) -> Result<Tr, E> {
        Ok(Tr::I32(v))
    }
    fn serialize_i64(self, v: i64) -> Result<Tr, E> {
        Ok(Tr::I64(v))
    }
    fn serialize_f32(self, _: f32) -> Result<Tr, E> {
        Err(E("f32".into()))
    }
    fn serialize_f64(self, _: f64) -> Result<Tr, E> {
        Err(E("f64".into()))
    }
    fn serialize_char(self, v: char) -> Result<Tr, E> {
        Ok(Tr::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Tr, E> {
        Ok(Tr::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tr, E> {
        Ok(Tr::Seq(v.iter().map(|b| Tr::U8(*b)).collect()))
    }
    fn serialize_none(self) -> Result<Tr, E> {
        Ok(Tr::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tr, E> {
        v.serialize(S)
    }
    fn serialize_unit(self) -> Result<Tr, E> {
        Ok(Tr::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tr, E> {
        Ok(Tr::Unit)
    }
    fn serialize_unit_variant(self, n: &'static str, _: u32, v: &'static str) -> Result<Tr, E> {
        Ok(Tr::UnitVar(n, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<Tr, E> {
        Ok(Tr::Newtype(n, Box::new(v.serialize(S)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, _: u32, var: &'static str, v: &T) -> Result<Tr, E> {
        Ok(Tr::NewVar(n, var, Box::new(v.serialize(S)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, E> {
        Many::new(0, "", "")
    }
    fn serialize_tuple(self, _: usize) -> Result<Many, E> {
        Many::new(1, "", "")
    }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Many, E> {
        Many::new(2, n, "")
    }
    fn serialize_tuple_variant(self, n: &'static str, _: u32, v: &'static str, _: usize) -> Result<Many, E> {
        Many::new(3, n, v)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E("map".into()))
    }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<Many, E> {
        Many::new(4, n, "")
    }
    fn serialize_struct_variant(self, n: &'static str, _: u32, v: &'static str, _: usize) -> Result<Many, E> {
        Many::new(5, n, v)
    }
}
impl Many {
    fn done(self) -> Result<Tr, E> {
        Ok(match self.kind {
            0 => Tr::Seq(self.v),
            1 => Tr::Tuple(self.v),
            2 => Tr::TupleStruct(self.name, self.v),
            3 => Tr::TupleVar(self.name, self.variant, self.v),
            4 => Tr::Struct(self.name, self.f),
            _ => Tr::StructVar(self.name, self.variant, self.f),
        })
    }
}
macro_rules! many {
    ($($t:ident $f:ident),*) => { $(
        impl ser::$t for Many {
            type Ok = Tr;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.v.push(v.serialize(S)?);
                Ok(())
            }
            fn end(self) -> Result<Tr, E> {
                self.done()
            }
        }
    )* };
}
many! {SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field}
macro_rules! fields {
    ($($t:ident),*) => { $(
        impl ser::$t for Many {
            type Ok = Tr;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                self.f.push((k, v.serialize(S)?));
                Ok(())
            }
            fn end(self) -> Result<Tr, E> {
                self.done()
            }
        }
    )* };
}
fields! {SerializeStruct, SerializeStructVariant}

fn bytes(t: &Tr) -> Vec<u8> {
    match t {
        Tr::Seq(v) | Tr::Tuple(v) => v.iter().map(|b| if let Tr::U8(b) = b { *b } else { panic!("{b:?}") }).collect(),
        Tr::Newtype(_, t) => bytes(t),
        Tr::Struct("Versioned", f) => bytes(&f[1].1),
        t => panic!("{t:?}"),
    }
}
fn bare(t: &Tr) -> &Tr {
    match t {
        Tr::Newtype(_, t) => bare(t),
        Tr::Struct("Versioned", f) => bare(&f[1].1),
        t => t,
    }
}

/// Hashes are shown in base 58, with a version that depends on what they are the hash of
fn hash_version(owner: &str, key: &str) -> Option<u8> {
    Some(match (owner, key) {
        ("Statement", "source") | ("Statement", "target") => 0x05,
        ("EpochLedger", "hash") => 0x05,
        ("NonSnarkStagedLedgerHash", "ledger_hash") | ("BlockchainState", "snarked_ledger_hash") | ("BlockchainState", "genesis_ledger_hash") => 0x05,
        ("DeltaTransitionChainProof", _) => 0x05,
        ("StagedLedgerHash", "pending_coinbase_hash") => 0x0c,
        ("EpochData", "seed") => 0x0d,
        ("EpochData", "start_checkpoint") | ("EpochData", "lock_checkpoint") => 0x10,
        ("ProtocolState", "previous_state_hash") | ("ProtocolStateBody", "genesis_state_hash") => 0x10,
        ("PendingCoinbase", "data_stack") => 0x17,
        ("StateStack", "init") | ("StateStack", "curr") => 0x18,
        _ => return None,
    })
}
fn key_name(owner: &str, key: &'static str) -> &'static str {
    match (owner, key) {
        ("TransactionSnark", "transaction_snark_proof") => "proof",
        ("PendingCoinbase", "data_stack") => "data",
        ("PendingCoinbase", "state_stack") => "state",
        (_, k) => k,
    }
}
fn variant_name(owner: &str, v: &'static str) -> &'static str {
    match (owner, v) {
        ("UserCommand", "SignedCommand") => "Signed_command",
        ("SignedCommandPayloadBody", "PaymentPayload") => "Payment",
        ("SignedCommandPayloadBody", "StakeDelegation") => "Stake_delegation",
        ("StakeDelegation", "SetDelegate") => "Set_delegate",
        ("BulletproofPreChallenge", "ScalarChallenge") => "Scalar_challenge",
        ("ShiftedValue", "ShiftedValue") => "Shifted_value",
        ("InternalCommandBalanceData", "CoinBase") => "Coinbase",
        ("InternalCommandBalanceData", "FeeTransfer") => "Fee_transfer",
        (_, v) => v,
    }
}

/// `owner`, `key`: the nearest struct this is a field of, and the field
pub fn render(t: &Tr, owner: &'static str, key: &'static str) -> Value {
    match t {
        Tr::Bool(b) => json!(b),
        Tr::U8(b) => json!((*b as char).to_string()),
        Tr::U(n) => match (owner, key) {
            ("SignedCommandPayloadCommon", "fee") | ("TransactionSnarkWork", "fee") | ("CoinBaseFeeTransfer", "fee") | ("Signed", "magnitude") => json!(decimal(*n, true)),
            _ => json!(n.to_string()),
        },
        Tr::I32(n) => json!((*n as u32).to_string()),
        Tr::I64(n) => json!(n),
        Tr::Str(s) => json!(s),
        Tr::Unit | Tr::None => Value::Null,
        Tr::Struct("Versioned", f) => render(&f[1].1, owner, key),
        Tr::Newtype("SignatureV1", v) => {
            let Tr::Tuple(v) = bare(v) else { panic!("{v:?}") };
            let mut p = vec![1];
            p.extend(bytes(&v[0]));
            p.extend(bytes(&v[1]));
            json!(check(0x9a, &p))
        }
        Tr::Newtype("VrfOutputTruncated", v) => json!(b64(&bytes(v))),
        Tr::Newtype("SignedCommandMemo", v) => json!(check(0x14, &bytes(v))),
        Tr::Newtype("ByteVec", v) => match key {
            "aux_hash" => json!(check(0x0e, &bytes(v))),
            "pending_coinbase_aux" => json!(check(0x0f, &bytes(v))),
            _ => json!(String::from_utf8_lossy(&bytes(v))),
        },
        Tr::Newtype(_, v) => render(v, owner, key),
        Tr::Tuple(v) if v.len() == 32 && matches!(v[0], Tr::U8(_)) => match hash_version(owner, key) {
            Some(ver) => {
                let mut p = vec![1];
                p.extend(bytes(t));
                json!(check(ver, &p))
            }
            None => json!(hex0x(&bytes(t))),
        },
        Tr::Seq(v) | Tr::Tuple(v) => Value::Array(v.iter().map(|x| render(x, owner, key)).collect()),
        Tr::TupleStruct(name, v) => {
            let n = v.len() - (v.last() == Some(&Tr::Unit)) as usize;
            Value::Array(v[..n].iter().map(|x| render(x, name, key)).collect())
        }
        Tr::Struct("CompressedCurvePoint", f) => json!(address(&bytes(&f[0].1), f[1].1 == Tr::Bool(true))),
        Tr::Struct(name, f) => Value::Object(object(name, f)),
        Tr::UnitVar("TransactionStatusFailedType", v) => json!(v),
        Tr::UnitVar(e, v) => json!([variant_name(e, v)]),
        Tr::NewVar(e, v, x) => {
            let x = render(x, owner, key);
            let mut out = vec![json!(variant_name(e, v))];
            match x {
                // the arguments of these stay in one list
                Value::Array(a) if !["ECPoint", "BulletproofPreChallenge", "SignedCommandPayloadBody"].contains(e) => out.extend(a),
                x => out.push(x),
            }
            Value::Array(out)
        }
        Tr::TupleVar(e, v, x) => {
            let mut out = vec![json!(variant_name(e, v))];
            out.extend(x.iter().map(|x| render(x, owner, key)));
            Value::Array(out)
        }
        Tr::StructVar(e, v, f) => json!([variant_name(e, v), Value::Object(object(e, f))]),
    }
}
fn object(name: &'static str, f: &[(&'static str, Tr)]) -> Map<String, Value> {
    f.iter().map(|(k, v)| (key_name(name, k).to_string(), render(v, name, k))).collect()
}

/// leaves that are not zero, empty or absent
pub fn weight(t: &Tr) -> usize {
    let all = |v: &[Tr]| v.iter().map(weight).sum::<usize>();
    let f = |v: &[(&'static str, Tr)]| v.iter().filter(|(k, _)| *k != "version").map(|(_, t)| weight(t)).sum::<usize>();
    match t {
        Tr::Bool(b) => *b as usize,
        Tr::U8(n) => (*n != 0) as usize,
        Tr::U(n) => (*n != 0) as usize,
        Tr::I32(n) => (*n != 0) as usize,
        Tr::I64(n) => (*n != 0) as usize,
        Tr::Str(s) => (!s.is_empty()) as usize,
        Tr::Unit | Tr::None => 0,
        Tr::Newtype(_, t) => weight(t),
        Tr::Seq(v) | Tr::Tuple(v) | Tr::TupleStruct(_, v) => all(v),
        Tr::Struct(_, v) => f(v),
        Tr::UnitVar(..) => 1,
        Tr::NewVar(_, _, t) => 1 + weight(t),
        Tr::TupleVar(_, _, v) => 1 + all(v),
        Tr::StructVar(_, _, v) => 1 + f(v),
    }
}
