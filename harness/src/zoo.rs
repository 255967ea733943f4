//! Derived Rust types, as a user of the crate writes them.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Block {
    pub version: u16,
    pub hash: [u8; 32],
    pub height: u32,
    pub slot: i64,
    pub cmds: Vec<Cmd>,
    pub memo: Option<String>,
    pub weight: f64,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Cmd {
    Noop,
    Pay(i64, u64, String),
    Delegate { from: Key, to: Key, fee: Option<u32> },
    Wrap(Box<Cmd>),
    Poly(Poly),
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Key(pub [u8; 4], pub bool);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(rename = "Polyvar")]
pub enum Poly {
    One(bool),
    Two(Vec<char>),
    #[serde(rename = "None")]
    Nothing,
    Rec { a: i8, b: () },
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Marker;
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Wrap<T>(pub T);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Nested {
    pub a: Wrap<Wrap<i32>>,
    pub m: Marker,
    pub rows: Vec<Vec<Option<(u8, i16)>>>,
    pub f: f32,
    pub u: (),
    pub t: (bool, char, String),
    #[serde(with = "bin_prot::integers::integer")]
    pub n: i32,
}
