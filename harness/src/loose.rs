//! Layout-driven ("loose") decoding: C09..C14, C19 and the loose facet of C06.
//! `L` is a layout as data, with its own JSON rendering, its own generator of values with their
//! encodings, and its own decoder; none of it uses the crate's layout code.
use crate::core::*;
use crate::io::*;
use crate::model::*;
use crate::typed::{gen_value, hostile};
use crate::{alloc, ensure, fail};
use bin_prot::value::layout::{BinProtRule, Layout};
use bin_prot::{Deserializer, Value};
use serde::Deserialize;
use std::io::Read;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum L {
    Unit,
    Bool,
    Str,
    Char,
    /// Int, Int32, Int64, Native_int
    Int(&'static str),
    Float,
    Opt(Box<L>),
    Record(Vec<(String, L)>),
    Tuple(Vec<L>),
    Sum(Vec<(String, i64, Vec<L>)>),
    /// None: an Inherited entry, which no tag selects
    Poly(Vec<Option<(String, u32, Vec<L>)>>),
    List(Box<L>),
    Ref { decl: String, path: Option<String>, derived: Option<bool>, rule: Box<L> },
    /// a fixed-length vector of Pickles, by its custom path
    CVec { path: &'static str, n: usize, rule: Box<L> },
    /// a 32 byte number, by its custom path
    CBig { path: &'static str },
    /// rules the crate parses but says it does not support
    Unsup(U),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum U {
    Nat0,
    Bigstring,
    Vec(u64, Box<L>),
    Hashtable(Box<L>, Box<L>),
    TypeVar(String),
    SelfRef(Vec<L>),
    Abs(Vec<String>, Box<L>),
    Closure(Vec<(String, L)>, Box<L>),
    Unresolved(Vec<L>, String),
    CustomUnknown(String, Vec<L>),
    /// a vector path without an element rule
    CustomEmpty(&'static str),
}

pub const VECS: &[(&str, usize)] = &[
    ("Pickles_type.Vector.Vector2", 2),
    ("Pickles_types.Vector.Vector2", 2),
    ("Pickles_types.Vector.Vector4", 4),
    ("Pickles_types.Vector.Vector8", 8),
    ("Pickles_types.Vector.Vector17", 17),
    ("Pickles_types.Vector.Vector18", 18),
];
pub const BIGS: &[&str] = &[
    "Ledger_hash0",
    "State_hash",
    "Pending_coinbase.Stack_hash",
    "State_body_hash",
    "Pending_coinbase.Hash_builder",
    "Snark_params.Make_inner_curve_scalar",
    "Snark_params.Tick",
    "Epoch_seed",
    "Zexe_backend.Zexe_backend_common.Stable.Field",
    "Pending_coinbase.Coinbase_stack",
];
const INTS: &[&str] = &["Int", "Int64", "Int32", "Native_int"];

impl L {
    pub fn min_len(&self) -> usize {
        match self {
            L::Float => 8,
            L::Record(f) => f.iter().map(|x| x.1.min_len()).sum(),
            L::Tuple(f) => f.iter().map(|x| x.min_len()).sum(),
            L::Poly(_) => 4,
            L::Ref { rule, .. } => rule.min_len(),
            L::CVec { n, rule, .. } => n * rule.min_len() + 1,
            L::CBig { .. } => 32,
            L::Unsup(_) => 1,
            _ => 1,
        }
    }
    pub fn compound(&self) -> bool {
        matches!(self, L::Opt(_) | L::Record(_) | L::Tuple(_) | L::Sum(_) | L::Poly(_) | L::List(_) | L::Ref { .. } | L::CVec { .. } | L::CBig { .. })
    }
    fn has_unsup(&self) -> bool {
        match self {
            L::Unsup(_) => true,
            L::Opt(x) | L::List(x) => x.has_unsup(),
            L::Ref { rule, .. } | L::CVec { rule, .. } => rule.has_unsup(),
            L::Record(f) => f.iter().any(|x| x.1.has_unsup()),
            L::Tuple(f) => f.iter().any(|x| x.has_unsup()),
            L::Sum(f) => f.iter().any(|x| x.2.iter().any(|y| y.has_unsup())),
            L::Poly(f) => f.iter().flatten().any(|x| x.2.iter().any(|y| y.has_unsup())),
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- generator

pub struct LOpts {
    pub unsup: bool,
}
fn gen_str(s: &mut Src) -> String {
    match s.below(5) {
        0 => String::new(),
        1 => "\"\\\u{1}é日".into(),
        _ => gen_name(s),
    }
}
pub fn gen_l(s: &mut Src, o: &LOpts, depth: u32) -> L {
    if o.unsup && s.chance(1, 9) {
        return L::Unsup(gen_u(s, depth.saturating_sub(1)));
    }
    if depth == 0 || s.below(6) < 2 {
        return match s.below(10) {
            0 => L::Unit,
            1 => L::Bool,
            2 => L::Str,
            3 => L::Char,
            4 => L::Float,
            5 => L::CBig { path: *s.pick(BIGS) },
            _ => L::Int(*s.pick(INTS)),
        };
    }
    let d = depth - 1;
    match s.below(10) {
        0 => L::Opt(Box::new(gen_l(s, o, d))),
        1 | 2 => {
            let v = gen_ls(s, o, d);
            let mut names = vec![];
            for i in 0..v.len() {
                let mut n = gen_name(s);
                // OCaml records have distinct fields
                while names.contains(&n) {
                    n = format!("{n}{i}")
                }
                names.push(n)
            }
            L::Record(names.into_iter().zip(v).collect())
        }
        3 => L::Tuple(gen_ls(s, o, d)),
        4 => {
            let n = *s.pick(&[2usize, 1, 3, 5, 9, 2, 3, 256]);
            let shuffle = s.chance(1, 5);
            let off = s.range(1, 37) as i64;
            L::Sum(
                (0..n)
                    .map(|i| {
                        let idx = if !shuffle { i as i64 } else { (i as i64 * 7 + off) % 256 };
                        let name = if n > 20 { format!("V{i}") } else { gen_str(s) };
                        (name, idx, if n > 20 && s.chance(9, 10) { vec![] } else { gen_ls(s, o, d.min(if n > 20 { 1 } else { 9 })) })
                    })
                    .collect(),
            )
        }
        5 => {
            let n = if s.chance(1, 16) { *s.pick(&[17usize, 40, 129]) } else { *s.pick(&[2usize, 1, 3, 4]) };
            let d = if n > 4 { 0 } else { d };
            let mut tags: Vec<u32> = vec![];
            L::Poly(
                (0..n)
                    .map(|i| {
                        if i > 0 && s.chance(1, 8) {
                            return None;
                        }
                        let name = gen_label(s);
                        let mut tag = if s.bool() { ocaml_hash(&name) } else { s.int(0, 0x7fff_ffff) as u32 };
                        while tags.contains(&tag) {
                            tag = (tag + 1) & 0x7fff_ffff
                        }
                        tags.push(tag);
                        Some((name, tag, gen_ls(s, o, d)))
                    })
                    .collect(),
            )
        }
        6 => L::List(Box::new(nonzero(gen_l(s, o, d)))),
        7 => {
            let (path, n) = *s.pick(VECS);
            L::CVec { path, n, rule: Box::new(nonzero(gen_l(s, o, d.min(if n > 4 { 1 } else { 3 })))) }
        }
        _ => L::Ref {
            decl: gen_str(s),
            path: if s.chance(1, 6) { None } else { Some(if s.chance(1, 4) { s.pick(BIGS).to_string() } else { gen_str(s) }) },
            derived: if s.bool() { Some(s.bool()) } else { None },
            rule: Box::new(gen_l(s, o, d)),
        },
    }
}
fn nonzero(l: L) -> L {
    if l.min_len() == 0 {
        L::Tuple(vec![l, L::Bool])
    } else {
        l
    }
}
fn gen_ls(s: &mut Src, o: &LOpts, d: u32) -> Vec<L> {
    if s.chance(1, 40) {
        // many parts, mostly leaves
        let n = *s.pick(&[5usize, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257]);
        return (0..n).map(|_| gen_l(s, o, 0)).collect();
    }
    let n = *s.pick(&[2usize, 1, 3, 0, 4, 2]);
    (0..n).map(|_| gen_l(s, o, d)).collect()
}
/// a module path no decoder is registered for
fn unknown_path(s: &mut Src) -> String {
    let known = if s.bool() { s.pick(BIGS).to_string() } else { s.pick(VECS).0.to_string() };
    let p = match s.below(7) {
        0 | 1 => String::new(),
        2 => format!("{known}{}", s.pick(&[".Stable", " ", "0", "2", "s"])),
        3 => known[..known.len() - 1].to_string(),
        4 => known.to_lowercase(),
        5 => format!("Mina_base.{known}"),
        _ => format!("X{}", gen_str(s)),
    };
    if BIGS.contains(&&p[..]) || VECS.iter().any(|v| v.0 == p) {
        return "X".into();
    }
    p
}
fn gen_u(s: &mut Src, d: u32) -> U {
    let o = LOpts { unsup: false };
    let d = d.min(2);
    let b = |s: &mut Src| Box::new(gen_l(s, &o, d));
    match s.below(11) {
        0 => U::Nat0,
        1 => U::Bigstring,
        2 => U::Vec(s.int(0, 1 << 40) as u64, b(s)),
        3 => U::Hashtable(b(s), b(s)),
        4 => U::TypeVar(gen_str(s)),
        5 => U::SelfRef(gen_ls(s, &o, d)),
        6 => U::Abs((0..s.below(3)).map(|_| gen_str(s)).collect(), b(s)),
        7 => U::Closure((0..s.below(3)).map(|_| (gen_str(s), gen_l(s, &o, d))).collect(), b(s)),
        8 => U::Unresolved(gen_ls(s, &o, d), gen_str(s)),
        9 => U::CustomUnknown(unknown_path(s), gen_ls(s, &o, d)),
        _ => U::CustomEmpty(s.pick(VECS).0),
    }
}

// ---------------------------------------------------------------- JSON text of a layout

pub enum J {
    S(String),
    N(String),
    B(bool),
    Null,
    A(Vec<J>),
    O(Vec<(String, J)>),
}
fn js(x: &str) -> J {
    J::S(x.to_string())
}
fn tag(t: &str, mut args: Vec<J>) -> J {
    let mut v = vec![js(t)];
    v.append(&mut args);
    J::A(v)
}
fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn jl(v: &[L]) -> J {
    J::A(v.iter().map(|x| x.json()).collect())
}
fn resolved(decl: &str, path: Option<&str>, derived: Option<bool>, rule: J) -> J {
    let mut f = vec![("source_type_decl", js(decl))];
    if let Some(p) = path {
        f.push(("source_module_path", js(p)))
    }
    if let Some(b) = derived {
        f.push(("bin_io_derived", J::B(b)))
    }
    f.push(("ref_rule", rule));
    tag("Reference", vec![tag("Resolved", vec![obj(f)])])
}
impl L {
    pub fn json(&self) -> J {
        match self {
            L::Unit => tag("Unit", vec![]),
            L::Bool => tag("Bool", vec![]),
            L::Str => tag("String", vec![]),
            L::Char => tag("Char", vec![]),
            L::Int(n) => tag(n, vec![]),
            L::Float => tag("Float", vec![]),
            L::Opt(x) => tag("Option", vec![x.json()]),
            L::Record(f) => tag("Record", vec![J::A(f.iter().map(|(n, x)| obj(vec![("field_name", js(n)), ("field_rule", x.json())])).collect())]),
            L::Tuple(v) => tag("Tuple", vec![jl(v)]),
            L::Sum(v) => tag("Sum", vec![J::A(v.iter().map(|(n, i, a)| obj(vec![("ctor_name", js(n)), ("index", J::N(i.to_string())), ("ctor_args", jl(a))])).collect())]),
            L::Poly(v) => tag(
                "Polyvar",
                vec![J::A(
                    v.iter()
                        .map(|x| match x {
                            Some((n, h, a)) => tag("Tagged", vec![obj(vec![("polyvar_name", js(n)), ("hash", J::N(h.to_string())), ("polyvar_args", jl(a))])]),
                            None => tag("Inherited", vec![tag("Unit", vec![])]),
                        })
                        .collect(),
                )],
            ),
            L::List(x) => tag("List", vec![x.json()]),
            L::Ref { decl, path, derived, rule } => resolved(decl, path.as_deref(), *derived, rule.json()),
            L::CVec { path, rule, .. } => resolved("t", Some(path), None, tag("Custom", vec![J::A(vec![rule.json()])])),
            L::CBig { path } => resolved("t", Some(path), Some(true), tag("Custom", vec![J::A(vec![])])),
            L::Unsup(u) => match u {
                U::Nat0 => tag("Nat0", vec![]),
                U::Bigstring => tag("Bigstring", vec![]),
                U::Vec(n, x) => tag("Vec", vec![J::N(n.to_string()), x.json()]),
                U::Hashtable(a, b) => tag("Hashtable", vec![obj(vec![("key_rule", a.json()), ("value_rule", b.json())])]),
                U::TypeVar(n) => tag("Type_var", vec![js(n)]),
                U::SelfRef(v) => tag("Self_reference", vec![jl(v)]),
                U::Abs(v, x) => tag("Type_abstraction", vec![J::A(v.iter().map(|x| js(x)).collect()), x.json()]),
                U::Closure(v, x) => tag("Type_closure", vec![J::A(v.iter().map(|(n, y)| J::A(vec![js(n), y.json()])).collect()), x.json()]),
                U::Unresolved(p, n) => tag("Reference", vec![tag("Unresolved", vec![obj(vec![("params", jl(p)), ("layout_id", js(n))])])]),
                U::CustomUnknown(p, v) => resolved("t", Some(p), None, tag("Custom", vec![jl(v)])),
                U::CustomEmpty(p) => resolved("t", Some(p), None, tag("Custom", vec![J::A(vec![])])),
            },
        }
    }
    /// what the crate's own (derived) Serialize of the parsed rule must show
    pub fn shown(&self) -> serde_json::Value {
        use serde_json::{json, Value as V};
        let all = |v: &[L]| V::Array(v.iter().map(|x| x.shown()).collect());
        let res = |d: &str, p: &str, b: bool, r: V| json!({"Reference": {"Resolved": {"source_type_decl": d, "source_module_path": p, "bin_io_derived": b, "ref_rule": r}}});
        match self {
            L::Unit => json!("Unit"),
            L::Bool => json!("Bool"),
            L::Str => json!("String"),
            L::Char => json!("Char"),
            L::Int("Native_int") => json!("NativeInt"),
            L::Int(n) => json!(n),
            L::Float => json!("Float"),
            L::Opt(x) => json!({ "Option": x.shown() }),
            L::Record(f) => json!({"Record": f.iter().map(|(n, x)| json!({"field_name": n, "field_rule": x.shown()})).collect::<Vec<_>>()}),
            L::Tuple(v) => json!({ "Tuple": all(v) }),
            L::Sum(v) => json!({"Sum": v.iter().map(|(n, i, a)| json!({"ctor_name": n, "index": i, "ctor_args": all(a)})).collect::<Vec<_>>()}),
            L::Poly(v) => json!({"Polyvar": v.iter().map(|x| match x {
                Some((n, h, a)) => json!({"Tagged": {"polyvar_name": n, "hash": h, "polyvar_args": all(a)}}),
                None => json!({"Inherited": "Unit"}),
            }).collect::<Vec<_>>()}),
            L::List(x) => json!({ "List": x.shown() }),
            L::Ref { decl, path, derived, rule } => res(decl, path.as_deref().unwrap_or(""), derived.unwrap_or(false), rule.shown()),
            L::CVec { path, rule, .. } => res("t", path, false, json!({ "Custom": [rule.shown()] })),
            L::CBig { path } => res("t", path, true, json!({ "Custom": [] })),
            L::Unsup(u) => match u {
                U::Nat0 => json!("Nat0"),
                U::Bigstring => json!("Bigstring"),
                U::Vec(n, x) => json!({"Vec": [n, x.shown()]}),
                U::Hashtable(a, b) => json!({"Hashtable": {"key_rule": a.shown(), "value_rule": b.shown()}}),
                U::TypeVar(n) => json!({ "TypeVar": n }),
                U::SelfRef(v) => json!({ "SelfReference": all(v) }),
                U::Abs(v, x) => json!({"TypeAbstraction": [v, x.shown()]}),
                U::Closure(v, x) => json!({"TypeClosure": [v.iter().map(|(n, y)| json!([n, y.shown()])).collect::<Vec<_>>(), x.shown()]}),
                U::Unresolved(p, n) => json!({"Reference": {"Unresolved": {"params": all(p), "layout_id": n}}}),
                U::CustomUnknown(p, v) => res("t", p, false, json!({ "Custom": all(v) })),
                U::CustomEmpty(p) => res("t", p, false, json!({ "Custom": [] })),
            },
        }
    }
}
impl J {
    /// `order` permutes object keys and adds white space
    pub fn text(&self, order: &mut Src, o: &mut String) {
        match self {
            J::S(x) => o.push_str(&serde_json::to_string(x).unwrap()),
            J::N(x) => o.push_str(x),
            J::B(x) => o.push_str(if *x { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.text(order, o)
                }
                o.push(']')
            }
            J::O(v) => {
                let mut idx: Vec<usize> = (0..v.len()).collect();
                for i in 0..v.len() {
                    let j = i + order.usz(v.len() - i);
                    idx.swap(i, j)
                }
                o.push('{');
                for (k, i) in idx.into_iter().enumerate() {
                    if k > 0 {
                        o.push_str(", ")
                    }
                    o.push_str(&serde_json::to_string(&v[i].0).unwrap());
                    o.push_str(": ");
                    v[i].1.text(order, o)
                }
                o.push('}')
            }
        }
    }
}
pub fn plain_text(j: &J) -> String {
    let mut o = String::new();
    j.text(&mut Src::replay(vec![]), &mut o);
    o
}
pub fn layout_text(rule: &str, version: Option<i32>) -> String {
    let v = version.map_or("null".to_string(), |x| x.to_string());
    format!("{{\"layout_loc\":\"src/a.ml:1:2\",\"version_opt\":{v},\"type_decl\":\"type t = int\",\"bin_io_derived\":true,\"bin_prot_rule\":{rule}}}")
}
pub fn parse_rule(l: &L) -> Result<BinProtRule, Fail> {
    let text = layout_text(&plain_text(&l.json()), Some(1));
    match guard(|| serde_json::from_str::<Layout>(&text))? {
        Ok(x) => Ok(x.bin_prot_rule),
        Err(e) => Err(Fail(format!("layout {text} is well formed but was rejected: {e}"))),
    }
}

// ---------------------------------------------------------------- values of a layout

/// Result of generating: the value and encoding, or the encoding up to an unsupported rule
pub struct Gen {
    pub bytes: Vec<u8>,
    pub hit_unsup: bool,
    pub budget: i64,
}
pub fn gen_lval(s: &mut Src, l: &L, g: &mut Gen) -> Value {
    g.budget -= 1;
    if g.hit_unsup {
        return Value::Unit;
    }
    match l {
        L::Unit => {
            g.bytes.push(0);
            Value::Unit
        }
        L::Bool => {
            let b = s.bool();
            g.bytes.push(b as u8);
            Value::Bool(b)
        }
        L::Str => {
            let b = if s.bool() {
                gen_string(s, &mut g.budget).into_bytes()
            } else {
                let n = s.below(6) as usize;
                s.bytes(n)
            };
            enc_nat0(b.len() as u64, &mut g.bytes);
            g.bytes.extend_from_slice(&b);
            str_value(&b)
        }
        L::Char => {
            let c = s.byte();
            g.bytes.push(c);
            Value::Char(c)
        }
        L::Int(k) => {
            let n = if *k == "Int32" { s.int(i32::MIN as i128, i32::MAX as i128) } else { s.int(i64::MIN as i128, i64::MAX as i128) } as i64;
            enc_int(n, &mut g.bytes);
            Value::Int(n)
        }
        L::Float => {
            let f = gen_f64(s);
            g.bytes.extend_from_slice(&f.to_le_bytes());
            Value::Float(f64::from_bits(f))
        }
        L::Opt(x) => {
            if g.budget < 0 || s.below(3) == 0 {
                g.bytes.push(0);
                Value::Option(None)
            } else {
                g.bytes.push(1);
                Value::Option(Some(Box::new(gen_lval(s, x, g))))
            }
        }
        L::Record(f) => Value::Record(f.iter().map(|(n, x)| (n.clone(), gen_lval(s, x, g))).collect()),
        L::Tuple(v) => Value::Tuple(v.iter().map(|x| gen_lval(s, x, g)).collect()),
        L::Sum(v) => {
            let k = if s.chance(1, 4) { v.len() - 1 } else { s.usz(v.len()) };
            let (n, i, a) = &v[k];
            g.bytes.push(*i as u8);
            let body = Value::Tuple(a.iter().map(|x| gen_lval(s, x, g)).collect());
            Value::Sum { name: n.clone(), index: *i as u8, value: Box::new(body) }
        }
        L::Poly(v) => {
            let c: Vec<_> = v.iter().flatten().collect();
            let (n, h, a) = c[s.usz(c.len())];
            enc_tag(*h, &mut g.bytes);
            let body = Value::Tuple(a.iter().map(|x| gen_lval(s, x, g)).collect());
            Value::Polyvar { name: n.clone(), tag: *h, value: Box::new(body) }
        }
        L::List(x) if matches!(**x, L::Unit | L::Bool | L::Char | L::Int(_) | L::Float) && g.budget > 0 && s.chance(1, 24) => {
            // a long list by repetition, so that the tape stays short
            let n = gen_big_len(s);
            g.budget -= n as i64;
            enc_nat0(n as u64, &mut g.bytes);
            let pat: Vec<(Value, Vec<u8>)> = (0..3)
                .map(|_| {
                    let mut h = Gen { bytes: vec![], hit_unsup: false, budget: 4 };
                    let v = gen_lval(s, x, &mut h);
                    (v, h.bytes)
                })
                .collect();
            Value::List(
                (0..n)
                    .map(|i| {
                        let (v, b) = &pat[i % pat.len()];
                        g.bytes.extend_from_slice(b);
                        v.clone()
                    })
                    .collect(),
            )
        }
        L::List(x) => {
            let mut n = gen_len(s, &mut g.budget);
            if x.compound() && n > 20 {
                n %= 20
            }
            enc_nat0(n as u64, &mut g.bytes);
            Value::List((0..n).map(|_| gen_lval(s, x, g)).collect())
        }
        L::Ref { rule, .. } => gen_lval(s, rule, g),
        L::CVec { n, rule, .. } => {
            let mut v: Vec<Value> = (0..*n).map(|_| gen_lval(s, rule, g)).collect();
            if !g.hit_unsup {
                g.bytes.push(0);
            }
            v.push(Value::Unit);
            Value::Tuple(v)
        }
        L::CBig { .. } => {
            let b = s.bytes(4);
            let b: Vec<u8> = (0..32).map(|i| b[i % 4].wrapping_mul(i as u8 + 1)).collect();
            g.bytes.extend_from_slice(&b);
            Value::Tuple(b.into_iter().map(Value::Char).collect())
        }
        L::Unsup(_) => {
            g.hit_unsup = true;
            // whatever follows must not matter
            let n = s.range(0, 12) as usize;
            let b = s.bytes(n);
            g.bytes.extend_from_slice(&b);
            Value::Unit
        }
    }
}
/// an OCaml string is presented as the list of its chars
fn str_value(b: &[u8]) -> Value {
    Value::List(b.iter().map(|x| Value::Char(*x)).collect())
}
type D<T> = Result<T, Rej>;
pub fn ldec(l: &L, c: &mut Cur) -> D<Value> {
    Ok(match l {
        L::Unit => {
            if c.u8()? != 0 {
                return Err(Rej::Bad);
            }
            Value::Unit
        }
        L::Bool => match c.u8()? {
            0 => Value::Bool(false),
            1 => Value::Bool(true),
            _ => return Err(Rej::Bad),
        },
        L::Str => {
            let n = dec_nat0(c)?;
            str_value(c.take(n)?)
        }
        L::Char => Value::Char(c.u8()?),
        L::Int(k) => {
            let n = dec_int(c)?;
            if *k == "Int32" && i32::try_from(n).is_err() {
                return Err(Rej::Unspec);
            }
            Value::Int(n)
        }
        L::Float => Value::Float(f64::from_bits(u64::from_le_bytes(c.take(8)?.try_into().unwrap()))),
        L::Opt(x) => match c.u8()? {
            0 => Value::Option(None),
            1 => Value::Option(Some(Box::new(ldec(x, c)?))),
            _ => return Err(Rej::Bad),
        },
        L::Record(f) => {
            let mut o = vec![];
            for (n, x) in f {
                o.push((n.clone(), ldec(x, c)?))
            }
            Value::Record(o)
        }
        L::Tuple(v) => Value::Tuple(ldecs(v, c)?),
        L::Sum(v) => {
            let i = c.u8()?;
            let (n, _, a) = v.iter().find(|x| x.1 == i as i64).ok_or(Rej::Bad)?;
            Value::Sum { name: n.clone(), index: i, value: Box::new(Value::Tuple(ldecs(a, c)?)) }
        }
        L::Poly(v) => {
            let w = u32::from_le_bytes(c.take(4)?.try_into().unwrap());
            if w & 1 == 0 {
                return Err(Rej::Unspec);
            }
            let (n, h, a) = v.iter().flatten().find(|x| x.1 == w >> 1).ok_or(Rej::Bad)?;
            Value::Polyvar { name: n.clone(), tag: *h, value: Box::new(Value::Tuple(ldecs(a, c)?)) }
        }
        L::List(x) => {
            let n = dec_nat0(c)?;
            let mut o = vec![];
            for _ in 0..n {
                o.push(ldec(x, c)?)
            }
            Value::List(o)
        }
        L::Ref { rule, .. } => ldec(rule, c)?,
        L::CVec { n, rule, .. } => {
            let mut o = vec![];
            for _ in 0..*n {
                o.push(ldec(rule, c)?)
            }
            o.push(ldec(&L::Unit, c)?);
            Value::Tuple(o)
        }
        L::CBig { .. } => Value::Tuple(c.take(32)?.iter().map(|x| Value::Char(*x)).collect()),
        L::Unsup(_) => return Err(Rej::Bad),
    })
}
fn ldecs(v: &[L], c: &mut Cur) -> D<Vec<Value>> {
    let mut o = vec![];
    for x in v {
        o.push(ldec(x, c)?)
    }
    Ok(o)
}
/// equality that tells NaNs apart by their bits
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Option(Some(x)), Value::Option(Some(y))) => same(x, y),
        (Value::Record(x), Value::Record(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1)),
        (Value::Tuple(x), Value::Tuple(y)) | (Value::List(x), Value::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Sum { name: n, index: i, value: x }, Value::Sum { name: m, index: j, value: y }) => n == m && i == j && same(x, y),
        (Value::Polyvar { name: n, tag: i, value: x }, Value::Polyvar { name: m, tag: j, value: y }) => n == m && i == j && same(x, y),
        _ => a == b,
    }
}
pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 900 {
        let mut n = 900;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        s.truncate(n);
        s.push_str("...")
    }
    s
}
pub fn loose<R: Read>(rule: &BinProtRule, r: R) -> Result<Value, bin_prot::error::Error> {
    let mut d = Deserializer::from_reader(r).with_layout(rule);
    Value::deserialize(&mut d)
}
/// also what the deserializer leaves unread
fn loose_rest<R: Read>(rule: &BinProtRule, r: R) -> Result<(Value, Vec<u8>), bin_prot::error::Error> {
    let mut d = Deserializer::from_reader(r).with_layout(rule);
    let v = Value::deserialize(&mut d)?;
    let mut rest = vec![];
    loop {
        match d.rdr.read_to_end(&mut rest) {
            Ok(_) => break,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e.into()),
        }
    }
    Ok((v, rest))
}
pub fn encode_value(v: &Value) -> Result<Vec<u8>, Fail> {
    let mut o = vec![];
    match guard(|| bin_prot::to_writer(&mut o, v))? {
        Ok(()) => Ok(o),
        Err(e) => Err(Fail(format!("encoding {} failed: {e}", short(v)))),
    }
}
pub fn gen_case(s: &mut Src, unsup: bool) -> (L, Value, Gen) {
    let d = *s.pick(&[2u32, 1, 3, 4, 3, 5]);
    let o = LOpts { unsup };
    let mut l = gen_l(s, &o, d);
    if !l.compound() && s.below(3) > 0 {
        l = L::Record(vec![("a".into(), l), ("b".into(), gen_l(s, &o, d)), ("c".into(), gen_l(s, &o, d))])
    }
    let mut g = Gen { bytes: vec![], hit_unsup: false, budget: *s.pick(&[40i64, 150, 400]) };
    let v = gen_lval(s, &l, &mut g);
    (l, v, g)
}
fn label(c: &mut Ctx, l: &L) {
    c.label(match l {
        L::Record(_) => "top:record",
        L::Sum(_) => "top:sum",
        L::Poly(_) => "top:polyvar",
        L::List(_) => "top:list",
        L::Ref { .. } => "top:reference",
        L::CVec { .. } | L::CBig { .. } => "top:custom",
        L::Tuple(_) => "top:tuple",
        L::Opt(_) => "top:option",
        _ => "top:scalar",
    })
}

// ---------------------------------------------------------------- C09

fn c09_decode(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, v, g) = gen_case(s, false);
    let rule = parse_rule(&l)?;
    let tail = s.bytes(3);
    let mut data = g.bytes.clone();
    data.extend(&tail);
    let r = ChunkReader::gen(s, data);
    label(c, &l);
    c.case(hash_of(&(&l, &g.bytes)), l.compound() && g.bytes.len() > 1);
    c.sample(|| format!("layout {} bytes {} -> {}", short(&l), hex(&g.bytes), short(&v)));
    match guard(|| loose_rest(&rule, r))? {
        Ok((w, rest)) => {
            ensure!(same(&v, &w), "{} under {} decoded as {}, it is {}", hex(&g.bytes), short(&l), short(&w), short(&v));
            ensure!(rest == tail, "decoding {} under {} left {} unread instead of {}", hex(&g.bytes), short(&l), hex(&rest), hex(&tail));
        }
        Err(e) => fail!("{} is {} under {} but was rejected: {e}", hex(&g.bytes), short(&v), short(&l)),
    }
    Ok(())
}
fn c09_language(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, _, g) = gen_case(s, false);
    let rule = parse_rule(&l)?;
    let b = hostile(s, g.bytes);
    let want = ldec(&l, &mut Cur::new(&b));
    c.label(match &want {
        Ok(_) => "in the language",
        Err(Rej::Bad) => "malformed",
        Err(Rej::Eof) => "truncated",
        Err(Rej::Unspec) => "unspecified",
    });
    c.case(hash_of(&(&l, &b)), l.compound() && !matches!(want, Err(Rej::Unspec)));
    c.sample(|| format!("{} under {} -> {}", hex(&b), short(&l), short(&want)));
    match (guard(|| loose(&rule, &b[..]))?, want) {
        (_, Err(Rej::Unspec)) => {}
        (Ok(w), Ok(v)) => ensure!(same(&v, &w), "{} under {} decoded as {}, it is {}", hex(&b), short(&l), short(&w), short(&v)),
        (Err(e), Ok(v)) => fail!("{} is {} under {} but was rejected: {e}", hex(&b), short(&v), short(&l)),
        (Ok(w), Err(r)) => fail!("{} is not acceptable under {} ({r:?}) but decoded as {}", hex(&b), short(&l), short(&w)),
        (Err(_), Err(_)) => {}
    }
    Ok(())
}

/// custom types are read by the path of the reference they stand behind, whatever other references are around
fn c09_paths(s: &mut Src, c: &mut Ctx) -> Res {
    let any_path = |s: &mut Src| match s.below(4) {
        0 => None,
        1 => Some(unknown_path(s)),
        2 => Some(s.pick(BIGS).to_string()),
        _ => Some(s.pick(VECS).0.to_string()),
    };
    let n = s.range(1, 4);
    let mut parts = vec![];
    for _ in 0..n {
        let mut l = match s.below(6) {
            0 => L::Int("Int"),
            1 => L::Unsup(U::CustomUnknown(unknown_path(s), vec![L::Bool])),
            2 | 3 => {
                let (path, n) = *s.pick(VECS);
                L::CVec { path, n, rule: Box::new(if s.bool() { L::Int("Int") } else { L::CBig { path: *s.pick(BIGS) } }) }
            }
            _ => L::CBig { path: *s.pick(BIGS) },
        };
        for _ in 0..s.below(4) {
            l = match s.below(6) {
                0 => L::Opt(Box::new(l)),
                1 => L::List(Box::new(l)),
                2 => L::Record(vec![(gen_name(s), l)]),
                _ => L::Ref { decl: "t".into(), path: any_path(s), derived: None, rule: Box::new(l) },
            }
        }
        parts.push(l)
    }
    let l = L::Tuple(parts);
    let rule = parse_rule(&l)?;
    let mut g = Gen { bytes: vec![], hit_unsup: false, budget: 20 };
    let v = gen_lval(s, &l, &mut g);
    if g.hit_unsup {
        g.bytes.extend(vec![0; 600]);
    }
    c.label(if g.hit_unsup { "custom type of an unknown path" } else { "known paths" });
    c.case(hash_of(&(&l, &g.bytes)), true);
    c.sample(|| format!("{} under {}", hex(&g.bytes), short(&l)));
    match guard(|| loose_rest(&rule, &g.bytes[..]))? {
        Ok((w, rest)) => {
            ensure!(!g.hit_unsup, "{} under {} holds a custom type nothing is known about but decoded as {}", hex(&g.bytes), short(&l), short(&w));
            ensure!(same(&v, &w), "{} under {} decoded as {}, it is {}", hex(&g.bytes), short(&l), short(&w), short(&v));
            ensure!(rest.is_empty(), "decoding {} under {} left {} unread", hex(&g.bytes), short(&l), hex(&rest));
        }
        Err(e) => ensure!(g.hit_unsup, "{} is {} under {} but was rejected: {e}", hex(&g.bytes), short(&v), short(&l)),
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10_reencode(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, v, g) = gen_case(s, false);
    let rule = parse_rule(&l)?;
    label(c, &l);
    c.case(hash_of(&(&l, &g.bytes)), l.compound() && g.bytes.len() > 1);
    c.sample(|| format!("layout {} bytes {} value {}", short(&l), hex(&g.bytes), short(&v)));
    let w = match guard(|| loose(&rule, &g.bytes[..]))? {
        Ok(w) => w,
        Err(e) => fail!("{} under {} was rejected: {e}", hex(&g.bytes), short(&l)),
    };
    let b = encode_value(&w)?;
    ensure!(b == g.bytes, "{} under {} re-encodes as {} (value {})", hex(&g.bytes), short(&l), hex(&b), short(&w));
    Ok(())
}
/// whatever decodes, decodes to the same value again after re-encoding
fn c10_stable(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, _, g) = gen_case(s, false);
    let rule = parse_rule(&l)?;
    let b = hostile(s, g.bytes);
    let v = match guard(|| loose(&rule, &b[..]))? {
        Ok(v) => v,
        Err(_) => {
            c.label("rejected");
            return Ok(());
        }
    };
    c.label("decoded");
    c.case(hash_of(&(&l, &b)), l.compound());
    c.sample(|| format!("{} under {}", hex(&b), short(&l)));
    let b2 = encode_value(&v)?;
    match guard(|| loose_rest(&rule, &b2[..]))? {
        Ok((w, rest)) => ensure!(same(&v, &w) && rest.is_empty(), "{} decodes to {} which re-encodes to {} which decodes to {} leaving {}", hex(&b), short(&v), hex(&b2), short(&w), hex(&rest)),
        Err(e) => fail!("{} decodes to {} but its re-encoding {} is rejected: {e}", hex(&b), short(&v), hex(&b2)),
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11_bound(input: usize, layout: usize) -> u64 {
    (4 << 20) + 4096 * input as u64 + 2048 * layout as u64
}
fn c11_bytes(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, _, g) = gen_case(s, false);
    let text = plain_text(&l.json());
    let rule = parse_rule(&l)?;
    let b = hostile(s, g.bytes);
    let (r, peak) = alloc::peak(|| guard(|| loose(&rule, &b[..]).is_ok()));
    let ok = r?;
    c.label(if ok { "decoded" } else { "rejected" });
    c.case(hash_of(&(&l, &b)), !ok && l.compound());
    c.sample(|| format!("{} under {} -> {}", hex(&b), short(&l), if ok { "Ok" } else { "Err" }));
    ensure!(peak <= c11_bound(b.len(), text.len()), "decoding {} bytes ({}) under {} allocated {peak} bytes", b.len(), hex(&b), short(&l));
    Ok(())
}
fn c11_layouts(s: &mut Src, c: &mut Ctx) -> Res {
    let (mut l, v, g) = gen_case(s, true);
    // extra oddities: sums with indices that no byte can hold, empty sums and polyvars
    let odd = s.below(6);
    let (mut bytes, mut reject) = (g.bytes.clone(), g.hit_unsup);
    match odd {
        0 => {
            let k = s.below(3);
            let bad = match k {
                0 => L::Sum(vec![]),
                1 => L::Poly(vec![]),
                _ => L::Sum(vec![("A".into(), *s.pick(&[-1i64, 256, 300, i32::MIN as i64, i32::MAX as i64, 512]), vec![L::Bool])]),
            };
            c.label("sum or polyvar without a selectable variant");
            l = L::Tuple(vec![l, bad]);
            if !reject {
                bytes.extend(s.bytes(9));
            }
            reject = true;
        }
        1 => {
            let u = gen_u(s, 2);
            c.label("unsupported rule behind the value");
            l = L::Tuple(vec![l, L::Unsup(u)]);
            bytes.extend(s.bytes(9));
            reject = true;
        }
        _ => {}
    }
    let text = plain_text(&l.json());
    let rule = parse_rule(&l)?;
    c.label(if reject { "reaches an unsupported rule" } else if l.has_unsup() { "has an unsupported rule, not reached" } else { "supported" });
    c.case(hash_of(&(&l, &bytes)), reject || l.has_unsup());
    c.sample(|| format!("{} under {}", hex(&bytes), short(&l)));
    let (r, peak) = alloc::peak(|| guard(|| loose(&rule, &bytes[..])));
    match r? {
        Ok(w) => {
            ensure!(!reject, "decoding {} under {} met a rule that is not supported but returned {}", hex(&bytes), short(&l), short(&w));
            ensure!(same(&w, &v), "{} under {} decoded as {}, it is {}", hex(&bytes), short(&l), short(&w), short(&v));
        }
        Err(e) => ensure!(reject, "{} is {} under {} but was rejected: {e}", hex(&bytes), short(&v), short(&l)),
    }
    ensure!(peak <= c11_bound(bytes.len(), text.len()), "decoding {} bytes under {} allocated {peak} bytes", bytes.len(), short(&l));
    Ok(())
}
/// the reader fails or ends inside the value
fn c11_faults(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, v, g) = gen_case(s, false);
    if g.bytes.is_empty() {
        return Ok(());
    }
    let rule = parse_rule(&l)?;
    let at = s.usz(g.bytes.len());
    let fault = s.bool();
    let mut r = ChunkReader::gen(s, if fault { g.bytes.clone() } else { g.bytes[..at].to_vec() });
    if fault {
        r.fault(s, at)
    }
    c.label(if fault { "read fault" } else { "truncated" });
    c.case(hash_of(&(&l, &g.bytes, at, fault)), at > 0);
    c.sample(|| format!("{} under {} cut at {at}", hex(&g.bytes), short(&l)));
    match guard(|| loose(&rule, r))? {
        Err(_) => Ok(()),
        Ok(w) => fail!("only {at} of {} bytes of {} were readable under {}, yet {} came back", g.bytes.len(), short(&v), short(&l), short(&w)),
    }
}
/// one deserializer decodes one layout; a second value must not be made up
fn c11_end(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, v, g) = gen_case(s, false);
    let rule = parse_rule(&l)?;
    let mut data = g.bytes.clone();
    data.extend(&g.bytes);
    c.case(hash_of(&(&l, &g.bytes)), l.compound());
    c.sample(|| format!("{} twice under {}", hex(&g.bytes), short(&l)));
    let mut d = Deserializer::from_reader(&data[..]).with_layout(&rule);
    match guard(|| Value::deserialize(&mut d))? {
        Ok(w) => ensure!(same(&v, &w), "decoded as {}, it is {}", short(&w), short(&v)),
        Err(e) => fail!("{} under {}: {e}", hex(&g.bytes), short(&l)),
    }
    if let Ok(w) = guard(|| Value::deserialize(&mut d))? {
        fail!("the layout {} is used up, yet another value was decoded: {}", short(&l), short(&w))
    }
    Ok(())
}

fn c06_loose(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, v, g) = gen_case(s, false);
    let b = g.bytes;
    let rule = parse_rule(&l)?;
    c.case(hash_of(&(&l, &b)), b.len() > 1);
    c.sample(|| format!("prefixes of {} under {}", hex(&b), short(&l)));
    let cuts: Vec<usize> = if b.len() <= 40 { (0..b.len()).collect() } else { (0..16).map(|_| s.usz(b.len())).chain([b.len() - 1]).collect() };
    c.extra_evals += cuts.len() as u64;
    for k in cuts {
        if let Ok(w) = guard(|| loose(&rule, &b[..k]))? {
            fail!("the first {k} of {} bytes of {} under {} decoded as {}", b.len(), short(&v), short(&l), short(&w))
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn c12_parse(s: &mut Src, c: &mut Ctx) -> Res {
    let d = *s.pick(&[2u32, 3, 1, 4, 5]);
    let l = gen_l(s, &LOpts { unsup: true }, d);
    let mut t = String::new();
    l.json().text(s, &mut t);
    c.case(hash_of(&t), l.compound());
    c.sample(|| t.clone());
    let whole = layout_text(&t, if s.bool() { Some(s.wide() as i32) } else { None });
    let want = l.shown();
    // by every way of handing over the text
    let rule = match guard(|| serde_json::from_str::<Layout>(&whole))? {
        Ok(x) => x.bin_prot_rule,
        Err(e) => fail!("well formed layout {whole} was rejected: {e}"),
    };
    let got = serde_json::to_value(&rule).map_err(|e| Fail(e.to_string()))?;
    ensure!(got == want, "layout {t} was read as {got}, it is {want}");
    match guard(|| serde_json::from_reader::<_, BinProtRule>(ChunkReader::plain(t.clone().into_bytes())))? {
        Ok(r) => ensure!(serde_json::to_value(&r).unwrap() == want, "rule {t} was read differently from a reader"),
        Err(e) => fail!("well formed rule {t} was rejected from a reader: {e}"),
    }
    Ok(())
}
/// breaks one place of the JSON; the result describes no rule
fn c12_malformed(s: &mut Src, c: &mut Ctx) -> Res {
    let d = *s.pick(&[2u32, 3, 1, 4]);
    let l = gen_l(s, &LOpts { unsup: true }, d);
    let mut j = l.json();
    let mut sites = 0;
    count(&j, &mut sites);
    let at = s.usz(sites);
    let mut k = at as i64;
    let mut what = String::new();
    break_at(&mut j, &mut k, s, &mut what);
    if what.is_empty() {
        return Ok(());
    }
    let t = plain_text(&j);
    c.label(&what);
    c.case(hash_of(&t), true);
    c.sample(|| format!("{what}: {t}"));
    if let Ok(x) = guard(|| serde_json::from_str::<Layout>(&layout_text(&t, Some(1))))? {
        fail!("malformed layout ({what}) {t} was accepted as {}", short(&x.bin_prot_rule))
    }
    Ok(())
}
/// every array starting with a known tag, and every object, is a place to break
fn is_tagged(v: &[J]) -> bool {
    matches!(v.first(), Some(J::S(t)) if TAGS.contains(&t.as_str()))
}
const TAGS: &[&str] = &["Nat0", "Unit", "Bool", "String", "Char", "Int", "Int32", "Int64", "Native_int", "Float", "Bigstring", "Option", "Record", "Tuple", "Sum", "Polyvar", "List", "Hashtable", "Reference", "Type_var", "Self_reference", "Custom", "Vec", "Type_abstraction", "Type_closure", "Tagged", "Inherited", "Unresolved", "Resolved"];
/// only structural positions are counted: strings that are data may look like a tag
fn count(j: &J, n: &mut usize) {
    match j {
        J::A(v) if is_tagged(v) => {
            *n += 1;
            if let J::S(t) = &v[0] {
                if t == "Type_var" {
                    return;
                }
                if t == "Type_abstraction" {
                    if let Some(x) = v.get(2) {
                        count(x, n)
                    }
                    return;
                }
                if t == "Type_closure" {
                    if let Some(J::A(b)) = v.get(1) {
                        for x in b {
                            if let J::A(p) = x {
                                count(&p[1], n)
                            }
                        }
                    }
                    if let Some(x) = v.get(2) {
                        count(x, n)
                    }
                    return;
                }
            }
            for x in &v[1..] {
                count(x, n)
            }
        }
        J::A(v) => {
            for x in v {
                count(x, n)
            }
        }
        J::O(v) => {
            *n += 1;
            for x in v {
                count(&x.1, n)
            }
        }
        _ => {}
    }
}
fn break_at(j: &mut J, k: &mut i64, s: &mut Src, what: &mut String) {
    if !what.is_empty() || *k < 0 {
        return;
    }
    let mut subs: Vec<&mut J> = vec![];
    let tagged = matches!(j, J::A(v) if is_tagged(v));
    match j {
        J::A(v) => {
            if !tagged {
                subs.extend(v.iter_mut())
            } else {
            if *k == 0 {
                *k = -1;
                break_tagged(v, s, what);
                return;
            }
            *k -= 1;
            let t = match &v[0] {
                J::S(t) => t.clone(),
                _ => unreachable!(),
            };
            match t.as_str() {
                "Type_var" => {}
                "Type_abstraction" => {
                    if let Some(x) = v.get_mut(2) {
                        subs.push(x)
                    }
                }
                "Type_closure" => {
                    let (a, b) = v.split_at_mut(2);
                    if let Some(J::A(bs)) = a.get_mut(1) {
                        for x in bs {
                            if let J::A(p) = x {
                                subs.push(&mut p[1])
                            }
                        }
                    }
                    subs.extend(b.iter_mut())
                }
                _ => subs.extend(v[1..].iter_mut()),
            }
            }
        }
        J::O(v) => {
            if *k == 0 {
                *k = -1;
                break_obj(v, s, what);
                return;
            }
            *k -= 1;
            subs.extend(v.iter_mut().map(|x| &mut x.1))
        }
        _ => {}
    }
    for x in subs {
        break_at(x, k, s, what)
    }
}
fn break_tagged(v: &mut Vec<J>, s: &mut Src, what: &mut String) {
    match s.below(5) {
        0 => {
            let t = s.pick(&["unit", "Foo", "Integer", "Int16", "Option ", "", "record", "Type_Var", "Bytes", "resolved", "Array"]).to_string();
            *what = "unknown tag".into();
            v[0] = J::S(t)
        }
        1 => {
            *what = "too many parts".into();
            v.push(tag("Unit", vec![]));
            // Option/List with two parts, leaves with one and so on: never a rule
            if v.len() == 3 {
                v.push(J::Null)
            }
        }
        2 if v.len() > 1 => {
            *what = "too few parts".into();
            v.pop();
        }
        3 => {
            *what = "tag is not a string".into();
            v[0] = J::N("3".into())
        }
        4 if v.len() > 1 => {
            *what = "part of the wrong kind".into();
            let n = v.len() - 1;
            v[n] = if s.bool() { J::Null } else { J::B(true) }
        }
        _ => {
            *what = "no tag".into();
            v.clear()
        }
    }
}
fn break_obj(v: &mut Vec<(String, J)>, s: &mut Src, what: &mut String) {
    // two keys of a resolved reference are optional
    let need: Vec<usize> = (0..v.len()).filter(|i| v[*i].0 != "source_module_path" && v[*i].0 != "bin_io_derived").collect();
    let i = need[s.usz(need.len())];
    match s.below(4) {
        0 => {
            *what = format!("missing {}", v[i].0);
            v.remove(i);
        }
        1 => {
            *what = format!("misspelt {}", v[i].0);
            v[i].0.push('s')
        }
        2 => {
            let bad = match v[i].0.as_str() {
                "hash" => s.pick(&["-1", "4294967296", "1.5", "\"7\""]).to_string(),
                "index" => s.pick(&["2147483648", "1.5", "\"0\"", "null", "-2147483649"]).to_string(),
                "field_name" | "ctor_name" | "polyvar_name" | "source_type_decl" | "layout_id" => s.pick(&["1", "null", "[]"]).to_string(),
                _ => s.pick(&["1", "null", "\"Unit\"", "{}"]).to_string(),
            };
            *what = format!("{} is {}", v[i].0, if bad.starts_with('"') { "text" } else { &bad });
            v[i].1 = J::N(bad)
        }
        _ => {
            *what = format!("duplicate {}", v[i].0);
            let k = v[i].0.clone();
            v.push((k, J::Null));
        }
    }
}
/// the layout file around the rule
fn c12_file(s: &mut Src, c: &mut Ctx) -> Res {
    let l = gen_l(s, &LOpts { unsup: true }, 2);
    let mut f = vec![
        ("layout_loc".to_string(), J::S(gen_str(s))),
        ("version_opt".to_string(), if s.bool() { J::Null } else { J::N((s.wide() as i32).to_string()) }),
        ("type_decl".to_string(), J::S(gen_str(s))),
        ("bin_io_derived".to_string(), J::B(s.bool())),
        ("bin_prot_rule".to_string(), l.json()),
    ];
    let k = s.below(4);
    let i = s.usz(5);
    let mut bad = None;
    match k {
        0 => {}
        1 => {
            if f[i].0 != "version_opt" {
                bad = Some(format!("missing {}", f[i].0));
                f.remove(i);
            }
        }
        2 => {
            bad = Some(format!("{} of the wrong kind", f[i].0));
            f[i].1 = match f[i].0.as_str() {
                "version_opt" => J::N(s.pick(&["2147483648", "1.5", "-3000000000"]).to_string()),
                _ => J::N("1".into()),
            };
        }
        _ => f.push(("comment".into(), js("x"))),
    }
    let mut t = String::new();
    J::O(f).text(s, &mut t);
    if k != 3 && s.chance(1, 5) {
        bad = Some("text cut short".into());
        t.truncate(t.len() - 1);
    }
    c.label(bad.as_deref().unwrap_or("well formed"));
    c.case(hash_of(&t), true);
    c.sample(|| t.clone());
    match (guard(|| serde_json::from_str::<Layout>(&t))?, bad) {
        (Ok(x), None) => {
            let got = serde_json::to_value(&x.bin_prot_rule).unwrap();
            ensure!(got == l.shown(), "layout {t} was read as {got}");
        }
        (Err(e), None) => fail!("well formed layout {t} was rejected: {e}"),
        (Ok(_), Some(w)) => fail!("malformed layout ({w}) {t} was accepted"),
        (Err(_), Some(_)) => {}
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn layout_of(t: &Ty) -> L {
    match t {
        Ty::Unit | Ty::UnitStruct => L::Unit,
        Ty::Bool => L::Bool,
        Ty::I8 | Ty::I16 | Ty::I32 => L::Int("Int32"),
        Ty::I64 | Ty::U64 => L::Int("Int64"),
        Ty::U16 => L::Int("Native_int"),
        Ty::U32 | Ty::U8 | Ty::Ann(_) => L::Int("Int"),
        Ty::F32 | Ty::F64 => L::Float,
        Ty::Char => L::Char,
        Ty::Str => L::Str,
        Ty::Option(t) => L::Opt(Box::new(layout_of(t))),
        Ty::Seq(t) => L::List(Box::new(layout_of(t))),
        Ty::Tuple(v) | Ty::TupleStruct(v) => L::Tuple(v.iter().map(layout_of).collect()),
        Ty::Newtype(t) => layout_of(t),
        Ty::Struct(f) => L::Record(f.iter().map(|(n, t)| (n.clone(), layout_of(t))).collect()),
        Ty::Enum { .. } => L::Unit,
    }
}
fn fix_u64(t: &Ty, v: Val) -> Val {
    // under a layout an integer is read as a signed one
    match (t, v) {
        (Ty::U64, Val::U(n)) => Val::U(n & (i64::MAX as u64)),
        (Ty::Option(t), Val::Opt(Some(v))) => Val::Opt(Some(Box::new(fix_u64(t, *v)))),
        (Ty::Seq(t), Val::Seq(v)) => Val::Seq(v.into_iter().map(|x| fix_u64(t, x)).collect()),
        (Ty::Tuple(t) | Ty::TupleStruct(t), Val::Seq(v)) => Val::Seq(t.iter().zip(v).map(|(t, x)| fix_u64(t, x)).collect()),
        (Ty::Struct(t), Val::Seq(v)) => Val::Seq(t.iter().zip(v).map(|(t, x)| fix_u64(&t.1, x)).collect()),
        (_, v) => v,
    }
}
/// decode a type with a layout for it; `perm` says the fields of the type are declared in another order
fn c13_hybrid(s: &mut Src, c: &mut Ctx) -> Res {
    use serde::de::DeserializeSeed;
    let o = TyOpts { loose_ok: true, poly: false, ann: false, ..Default::default() };
    let d = *s.pick(&[2u32, 1, 3, 4]);
    let t = gen_ty(s, &o, d);
    let mut bud = 80;
    let v = fix_u64(&t, gen_val(s, &t, &mut bud));
    let b = encode(&t, &v);
    let l = wrap_refs(s, layout_of(&t));
    let rule = parse_rule(&l)?;
    let (t2, v2) = permute(s, &t, &v);
    c.label(if t2 == t { "same field order" } else { "fields declared in another order" });
    c.case(hash_of(&(&t2, &b)), t.compound() && b.len() > 1);
    c.sample(|| format!("{t2:?} from {} under {}", hex(&b), short(&l)));
    let r = ChunkReader::gen(s, b.clone());
    let got = guard(|| {
        let mut d = Deserializer::from_reader(r).with_layout(&rule);
        Seed(&t2).deserialize(&mut d)
    })?;
    match got {
        Ok(w) => ensure!(w == v2, "{} under its layout decoded into {t2:?} as {w:?}, it is {v2:?}", hex(&b)),
        Err(e) => fail!("{} (value {v2:?}) under its layout could not be decoded into {t2:?}: {e}", hex(&b)),
    }
    // without the layout
    match guard(|| crate::dynde::lenient(&t, &b[..]))? {
        Ok(w) => ensure!(w == v, "{} decoded without the layout as {w:?}", hex(&b)),
        Err(e) => fail!("{} could not be decoded without the layout: {e}", hex(&b)),
    }
    Ok(())
}
fn wrap_refs(s: &mut Src, l: L) -> L {
    let l = match l {
        L::Opt(x) => L::Opt(Box::new(wrap_refs(s, *x))),
        L::List(x) => L::List(Box::new(wrap_refs(s, *x))),
        L::Tuple(v) => L::Tuple(v.into_iter().map(|x| wrap_refs(s, x)).collect()),
        L::Record(v) => L::Record(v.into_iter().map(|(n, x)| (n, wrap_refs(s, x))).collect()),
        l => l,
    };
    if s.chance(1, 4) {
        L::Ref { decl: "t".into(), path: Some(gen_str(s)), derived: None, rule: Box::new(l) }
    } else {
        l
    }
}
fn permute(s: &mut Src, t: &Ty, v: &Val) -> (Ty, Val) {
    match (t, v) {
        (Ty::Option(t), Val::Opt(Some(v))) => {
            let (t, v) = permute(s, t, v);
            (Ty::Option(Box::new(t)), Val::Opt(Some(Box::new(v))))
        }
        (Ty::Tuple(ts), Val::Seq(vs)) => {
            let (a, b) = ts.iter().zip(vs).map(|(t, v)| permute(s, t, v)).unzip();
            (Ty::Tuple(a), Val::Seq(b))
        }
        (Ty::Struct(f), Val::Seq(vs)) => {
            let mut x: Vec<((String, Ty), Val)> = f
                .iter()
                .zip(vs)
                .map(|((n, t), v)| {
                    let (t, v) = permute(s, t, v);
                    ((n.clone(), t), v)
                })
                .collect();
            for i in 0..x.len() {
                let j = i + s.usz(x.len() - i);
                x.swap(i, j)
            }
            let (a, b) = x.into_iter().unzip();
            (Ty::Struct(a), Val::Seq(b))
        }
        _ => (t.clone(), v.clone()),
    }
}
/// a derived type with loosely typed holes
fn c13_holes(s: &mut Src, c: &mut Ctx) -> Res {
    #[derive(Deserialize, Debug)]
    struct Outer {
        tail: Option<Value>,
        id: i64,
        hole: Value,
        name: String,
        rows: Vec<Inner>,
        pair: (bool, Value),
    }
    #[derive(Deserialize, Debug)]
    struct Inner {
        n: u32,
        any: Value,
    }
    let o = LOpts { unsup: false };
    let (h, r, p, t) = (gen_l(s, &o, 3), gen_l(s, &o, 2), gen_l(s, &o, 2), gen_l(s, &o, 2));
    let l = L::Record(vec![
        ("id".into(), L::Int("Int")),
        ("hole".into(), h),
        ("name".into(), L::Str),
        ("rows".into(), L::List(Box::new(L::Record(vec![("n".into(), L::Int("Int32")), ("any".into(), r)])))),
        ("pair".into(), L::Tuple(vec![L::Bool, p])),
        ("tail".into(), L::Opt(Box::new(t))),
    ]);
    let mut g = Gen { bytes: vec![], hit_unsup: false, budget: 120 };
    // typed leaves must hold what the type can hold
    let id = s.wide() as i64;
    enc_int(id, &mut g.bytes);
    let f = match &l {
        L::Record(f) => f,
        _ => unreachable!(),
    };
    let hole = gen_lval(s, &f[1].1, &mut g);
    let mut bud = 60;
    let name = gen_string(s, &mut bud);
    enc_nat0(name.len() as u64, &mut g.bytes);
    g.bytes.extend_from_slice(name.as_bytes());
    let n = s.below(4);
    enc_nat0(n, &mut g.bytes);
    let mut rows = vec![];
    if let L::List(row) = &f[3].1 {
        if let L::Record(rf) = &**row {
            for _ in 0..n {
                let k = s.int(0, u32::MAX as i128) as u32;
                enc_int(k as i64, &mut g.bytes);
                rows.push((k, gen_lval(s, &rf[1].1, &mut g)));
            }
        }
    }
    let flag = s.bool();
    g.bytes.push(flag as u8);
    let pv = match &f[4].1 {
        L::Tuple(v) => gen_lval(s, &v[1], &mut g),
        _ => unreachable!(),
    };
    let tail = gen_lval(s, &f[5].1, &mut g);
    let rule = parse_rule(&l)?;
    c.case(hash_of(&(&l, &g.bytes)), true);
    c.sample(|| format!("struct with loosely typed fields from {} under {}", hex(&g.bytes), short(&l)));
    let got = guard(|| {
        let mut d = Deserializer::from_reader(&g.bytes[..]).with_layout(&rule);
        Outer::deserialize(&mut d)
    })?;
    match got {
        Err(e) => fail!("{} under {}: {e}", hex(&g.bytes), short(&l)),
        Ok(x) => {
            let tail2 = Value::Option(x.tail.clone().map(Box::new));
            let ok = x.id == id && same(&x.hole, &hole) && x.name == name && x.rows.len() == rows.len() && x.rows.iter().zip(&rows).all(|(a, b)| a.n == b.0 && same(&a.any, &b.1)) && x.pair.0 == flag && same(&x.pair.1, &pv) && same(&tail2, &tail);
            ensure!(ok, "{} under {} decoded as {}", hex(&g.bytes), short(&l), short(&x));
        }
    }
    Ok(())
}
/// a type that does not fit the layout is refused, not filled with something else
fn c13_mismatch(s: &mut Src, c: &mut Ctx) -> Res {
    use serde::de::DeserializeSeed;
    let o = TyOpts { loose_ok: true, poly: false, ann: false, ..Default::default() };
    let fields = |s: &mut Src| {
        let n = s.range(1, 4) as usize;
        (0..n).map(|i| (format!("f{i}"), gen_ty(s, &o, 2))).collect::<Vec<_>>()
    };
    let f = fields(s);
    let t = Ty::Struct(f.clone());
    let mut bud = 60;
    let v = fix_u64(&t, gen_val(s, &t, &mut bud));
    let b = encode(&t, &v);
    let l = layout_of(&t);
    let rule = parse_rule(&l)?;
    let mut f2 = f;
    let what = match s.below(3) {
        0 => {
            f2.push(("extra".into(), Ty::Bool));
            "a field the layout does not have"
        }
        1 => {
            let i = s.usz(f2.len());
            f2[i].0 = "other".into();
            "a field of another name"
        }
        _ => {
            let i = s.usz(f2.len());
            f2[i].1 = if matches!(f2[i].1, Ty::Bool) { Ty::Str } else { Ty::Bool };
            "a field of another kind"
        }
    };
    c.label(what);
    c.case(hash_of(&(&f2, &b)), true);
    let t2 = Ty::Struct(f2);
    c.sample(|| format!("{what}: {t2:?} from {} under {}", hex(&b), short(&l)));
    let got = guard(|| {
        let mut d = Deserializer::from_reader(&b[..]).with_layout(&rule);
        Seed(&t2).deserialize(&mut d)
    })?;
    if let Ok(w) = got {
        fail!("{what}: decoding {} under {} into {t2:?} gave {w:?}", hex(&b), short(&l))
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14_lookup(s: &mut Src, c: &mut Ctx) -> Res {
    use bin_prot::value::Index;
    let mut v = gen_value(s, 3).0;
    if s.chance(1, 3) {
        v = Value::Sum { name: gen_name(s), index: s.byte(), value: Box::new(v) }
    }
    if has_polyvar_top(&v) {
        return Ok(());
    }
    let inner = match &v {
        Value::Sum { value, .. } => value,
        _ => &v,
    };
    c.case(hash_of(&format!("{v:?}")), matches!(inner, Value::Record(_) | Value::List(_) | Value::Tuple(_)));
    c.sample(|| format!("lookups in {}", short(&v)));
    let seq: &[Value] = match inner {
        Value::List(x) | Value::Tuple(x) => x,
        _ => &[],
    };
    let rec: &[(String, Value)] = match inner {
        Value::Record(x) => x,
        _ => &[],
    };
    for i in (0..seq.len() + 2).chain([usize::MAX, seq.len() + 256, 1 << 32]) {
        let want = seq.get(i);
        let got = guard(|| i.index_into(&v))?;
        ensure!(ptr(got) == ptr(want), "index {i} of {} gave {}, it is {}", short(&v), short(&got), short(&want));
        let got = guard(|| (&&i).index_into(&v))?;
        ensure!(ptr(got) == ptr(want), "index &{i} of {} differs", short(&v));
        match (guard(|| &v[i]), want) {
            (Ok(g), Some(w)) => ensure!(std::ptr::eq(g, w), "[{i}] of {} gave {}", short(&v), short(g)),
            (Ok(g), None) => fail!("[{i}] of {} gave {} although there is no such element", short(&v), short(g)),
            (Err(e), Some(_)) => fail!("[{i}] of {} panicked: {}", short(&v), e.0),
            (Err(_), None) => {}
        }
    }
    let mut keys: Vec<String> = rec.iter().map(|x| x.0.clone()).collect();
    keys.extend([gen_name(s), String::new(), "0".into()]);
    for k in keys.clone() {
        keys.push(k.to_uppercase());
        keys.push(format!("{k} "));
        if k.len() > 1 && k.is_ascii() {
            keys.push(k[..k.len() - 1].to_string());
        }
    }
    for k in keys {
        let want = rec.iter().find(|x| x.0 == k).map(|x| &x.1);
        let got = guard(|| k.as_str().index_into(&v))?;
        ensure!(ptr(got) == ptr(want), "field {k:?} of {} gave {}, it is {}", short(&v), short(&got), short(&want));
        let got = guard(|| k.index_into(&v))?;
        ensure!(ptr(got) == ptr(want), "field String {k:?} of {} differs", short(&v));
        match (guard(|| &v[k.as_str()]), want) {
            (Ok(g), Some(w)) => ensure!(std::ptr::eq(g, w), "[{k:?}] of {} gave {}", short(&v), short(g)),
            (Ok(g), None) => fail!("[{k:?}] of {} gave {} although there is no such field", short(&v), short(g)),
            (Err(e), Some(_)) => fail!("[{k:?}] of {} panicked: {}", short(&v), e.0),
            (Err(_), None) => {}
        }
    }
    // inner
    match (&v, guard(|| v.inner())) {
        (Value::Option(None), Ok(None)) => {}
        (Value::Option(Some(x)), Ok(Some(y))) => ensure!(same(x, &y), "inner of {} is {}", short(&v), short(&y)),
        (Value::Option(_), r) => fail!("inner of {} gave {}", short(&v), short(&r)),
        (_, Ok(r)) => fail!("inner of {} which is no option gave {}", short(&v), short(&r)),
        (_, Err(_)) => {}
    }
    Ok(())
}
fn ptr(x: Option<&Value>) -> Option<*const Value> {
    x.map(|x| x as *const Value)
}
fn has_polyvar_top(v: &Value) -> bool {
    matches!(v, Value::Polyvar { .. })
}
/// a path through a value decoded from bytes finds what the bytes hold there
fn c14_path(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, v, g) = gen_case(s, false);
    let rule = parse_rule(&l)?;
    let w = match guard(|| loose(&rule, &g.bytes[..]))? {
        Ok(w) => w,
        Err(e) => fail!("{} under {}: {e}", hex(&g.bytes), short(&l)),
    };
    let (mut a, mut b) = (&v, &w);
    let mut path = String::new();
    let mut steps = 0;
    loop {
        // descend in the model by hand, in the decoded value by indexing
        let body = match a {
            Value::Sum { value, .. } => value,
            x => x,
        };
        match body {
            Value::Record(f) if !f.is_empty() => {
                let i = s.usz(f.len());
                let k = &f[i].0;
                path.push_str(&format!("[{k:?}]"));
                a = &f[i].1;
                b = guard(|| &b[k.as_str()])?;
            }
            Value::Tuple(x) | Value::List(x) if !x.is_empty() => {
                let i = s.usz(x.len());
                path.push_str(&format!("[{i}]"));
                a = &x[i];
                b = guard(|| &b[i])?;
            }
            _ => break,
        }
        steps += 1;
    }
    c.case(hash_of(&(&l, &g.bytes, &path)), steps > 1);
    c.sample(|| format!("{path} in {}", short(&v)));
    ensure!(same(a, b), "{path} of {} is {} but looking it up gave {}", short(&v), short(a), short(b));
    Ok(())
}

// ---------------------------------------------------------------- C19: the shipped layouts and blocks

struct Shipped {
    name: String,
    l: L,
    rule: BinProtRule,
    text_len: usize,
}
fn read_json(path: &std::path::Path) -> (serde_json::Value, String) {
    let t = std::fs::read_to_string(path).expect("shipped layout");
    let mut d = serde_json::Deserializer::from_str(&t);
    d.disable_recursion_limit();
    let v = serde_json::Value::deserialize(serde_stacker::Deserializer::new(&mut d)).expect("shipped layout is JSON");
    (v, t)
}
/// the layout by its documented JSON form, independently of the crate
fn l_of_json(v: &serde_json::Value, path: Option<&str>) -> L {
    let a = v.as_array().expect("rule");
    let t = a[0].as_str().expect("tag");
    let all = |v: &serde_json::Value| v.as_array().unwrap().iter().map(|x| l_of_json(x, path)).collect::<Vec<_>>();
    let st = |v: &serde_json::Value| v.as_str().unwrap().to_string();
    match t {
        "Unit" => L::Unit,
        "Bool" => L::Bool,
        "String" => L::Str,
        "Char" => L::Char,
        "Float" => L::Float,
        "Int" => L::Int("Int"),
        "Int32" => L::Int("Int32"),
        "Int64" => L::Int("Int64"),
        "Native_int" => L::Int("Native_int"),
        "Option" => L::Opt(Box::new(l_of_json(&a[1], path))),
        "List" => L::List(Box::new(l_of_json(&a[1], path))),
        "Tuple" => L::Tuple(all(&a[1])),
        "Record" => L::Record(a[1].as_array().unwrap().iter().map(|f| (st(&f["field_name"]), l_of_json(&f["field_rule"], path))).collect()),
        "Sum" => L::Sum(a[1].as_array().unwrap().iter().map(|f| (st(&f["ctor_name"]), f["index"].as_i64().unwrap(), all(&f["ctor_args"]))).collect()),
        "Polyvar" => L::Poly(
            a[1].as_array()
                .unwrap()
                .iter()
                .map(|p| {
                    let x = &p[1];
                    match p[0].as_str().unwrap() {
                        "Tagged" => Some((st(&x["polyvar_name"]), x["hash"].as_u64().unwrap() as u32, all(&x["polyvar_args"]))),
                        _ => None,
                    }
                })
                .collect(),
        ),
        "Reference" => {
            assert_eq!(a[1][0], "Resolved");
            let p = &a[1][1];
            let path = p["source_module_path"].as_str().unwrap_or("");
            let rule = &p["ref_rule"];
            if rule[0] == "Custom" {
                if let Some((q, n)) = VECS.iter().find(|x| x.0 == path) {
                    return L::CVec { path: q, n: *n, rule: Box::new(l_of_json(&rule[1][0], Some(path))) };
                }
                if let Some(q) = BIGS.iter().find(|x| **x == path) {
                    return L::CBig { path: q };
                }
                return L::Unsup(U::CustomUnknown(path.to_string(), vec![]));
            }
            L::Ref { decl: st(&p["source_type_decl"]), path: Some(path.to_string()), derived: None, rule: Box::new(l_of_json(rule, Some(path))) }
        }
        other => panic!("harness: rule {other} in a shipped layout"),
    }
}
fn shipped() -> &'static Result<Vec<Shipped>, String> {
    static S: OnceLock<Result<Vec<Shipped>, String>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        let mut files: Vec<_> = std::fs::read_dir("/repo/protocol/layouts").unwrap().map(|x| x.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "json")).collect();
        files.sort();
        for p in files {
            let (j, text) = read_json(&p);
            let l = l_of_json(&j["bin_prot_rule"], None);
            let mut d = serde_json::Deserializer::from_str(&text);
            d.disable_recursion_limit();
            let name = p.file_stem().unwrap().to_string_lossy().to_string();
            match guard(|| Layout::deserialize(serde_stacker::Deserializer::new(&mut d))) {
                Ok(Ok(x)) => v.push(Shipped { name, l, rule: x.bin_prot_rule, text_len: text.len() }),
                Ok(Err(e)) => return Err(format!("shipped layout {name} is rejected: {e}")),
                Err(e) => return Err(format!("shipped layout {name}: {}", e.0)),
            }
        }
        Ok(v)
    })
}
fn pick_layout(s: &mut Src) -> Result<&'static Shipped, Fail> {
    match shipped() {
        Ok(v) => Ok(&v[*s.pick(&[0usize, 1, 2, 3, 1, 2, 3, 1]) % v.len()]),
        Err(e) => Err(Fail(e.clone())),
    }
}
fn c19_values(s: &mut Src, c: &mut Ctx) -> Res {
    let x = pick_layout(s)?;
    c.label(&x.name);
    c19_one(s, c, x)
}
fn c19_one(s: &mut Src, c: &mut Ctx, x: &'static Shipped) -> Res {
    let mut g = Gen { bytes: vec![], hit_unsup: false, budget: 60 };
    let v = gen_lval(s, &x.l, &mut g);
    if g.hit_unsup {
        c.label("reaches a custom type without a decoder");
    }
    c.case(hash_of(&(&x.name, &g.bytes)), true);
    c.sample(|| format!("{}: {} bytes {}", x.name, g.bytes.len(), hex(&g.bytes)));
    let tail = s.bytes(2);
    let mut data = g.bytes.clone();
    data.extend(&tail);
    match guard(|| loose_rest(&x.rule, ChunkReader::gen(s, data)))? {
        Ok((w, rest)) => {
            ensure!(!g.hit_unsup, "{}: a custom type without a decoder was decoded", x.name);
            ensure!(same(&v, &w), "{}: {} decoded as {}, it is {}", x.name, hex(&g.bytes), short(&w), short(&v));
            ensure!(rest == tail, "{}: decoding {} bytes left {} unread", x.name, g.bytes.len(), hex(&rest));
            let b = encode_value(&w)?;
            ensure!(b == g.bytes, "{}: {} re-encodes as {}", x.name, hex(&g.bytes), hex(&b));
        }
        Err(e) => ensure!(g.hit_unsup, "{}: {} ({} bytes) is {} but was rejected: {e}", x.name, hex(&g.bytes), g.bytes.len(), short(&v)),
    }
    Ok(())
}
/// every distinct type a shipped layout refers to, as a layout of its own
fn parts() -> &'static Vec<Shipped> {
    static S: OnceLock<Vec<Shipped>> = OnceLock::new();
    S.get_or_init(|| {
        fn walk(v: &serde_json::Value, seen: &mut std::collections::BTreeMap<String, serde_json::Value>) {
            if v[0] == "Reference" {
                let p = &v[1][1];
                let key = format!("{} {} {:016x}", p["source_module_path"].as_str().unwrap_or(""), p["source_type_decl"].as_str().unwrap_or(""), hash_of(&v.to_string()));
                if seen.insert(key, v.clone()).is_some() {
                    return;
                }
            }
            match v {
                serde_json::Value::Array(a) => a.iter().for_each(|x| walk(x, seen)),
                serde_json::Value::Object(o) => o.values().for_each(|x| walk(x, seen)),
                _ => {}
            }
        }
        let mut seen = Default::default();
        let mut files: Vec<_> = std::fs::read_dir("/repo/protocol/layouts").unwrap().map(|x| x.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "json")).collect();
        files.sort();
        for p in files {
            walk(&read_json(&p).0["bin_prot_rule"], &mut seen)
        }
        seen.into_iter()
            .filter_map(|(k, v)| {
                let l = l_of_json(&v, None);
                let text = v.to_string();
                if text.len() > 300_000 {
                    return None;
                }
                let mut d = serde_json::Deserializer::from_str(&text);
                d.disable_recursion_limit();
                let rule = guard(|| BinProtRule::deserialize(serde_stacker::Deserializer::new(&mut d)));
                match rule {
                    Ok(Ok(rule)) => Some(Shipped { name: k.rsplit_once(' ').unwrap().0.to_string(), l, rule, text_len: text.len() }),
                    // the layout facets report it
                    _ => None,
                }
            })
            .collect()
    })
}
fn c19_parts(s: &mut Src, c: &mut Ctx) -> Res {
    let all = parts();
    let i = s.usz(all.len());
    let x = &all[i];
    c.label(if x.text_len < 500 { "small type" } else if x.text_len < 20_000 { "medium type" } else { "large type" });
    c19_one(s, c, x)
}
fn c19_hostile(s: &mut Src, c: &mut Ctx) -> Res {
    let x = pick_layout(s)?;
    let mut g = Gen { bytes: vec![], hit_unsup: false, budget: 40 };
    gen_lval(s, &x.l, &mut g);
    let b = hostile(s, g.bytes);
    let want = ldec(&x.l, &mut Cur::new(&b));
    c.label(match &want {
        Ok(_) => "in the language",
        Err(Rej::Bad) => "malformed",
        Err(Rej::Eof) => "truncated",
        Err(Rej::Unspec) => "unspecified",
    });
    c.case(hash_of(&(&x.name, &b)), !matches!(want, Err(Rej::Unspec)));
    c.sample(|| format!("{}: {}", x.name, hex(&b)));
    let (r, peak) = alloc::peak(|| guard(|| loose(&x.rule, &b[..])));
    match (r?, want) {
        (_, Err(Rej::Unspec)) => {}
        (Ok(w), Ok(v)) => ensure!(same(&v, &w), "{}: {} decoded as {}, it is {}", x.name, hex(&b), short(&w), short(&v)),
        (Err(e), Ok(_)) => fail!("{}: {} was rejected: {e}", x.name, hex(&b)),
        (Ok(_), Err(r)) => fail!("{}: {} is not acceptable ({r:?}) but was decoded", x.name, hex(&b)),
        (Err(_), Err(_)) => {}
    }
    ensure!(peak <= (64 << 20) + 4096 * b.len() as u64 + 64 * x.text_len as u64, "{}: decoding {} bytes allocated {peak}", x.name, b.len());
    Ok(())
}
fn blocks() -> &'static Vec<(String, Vec<u8>)> {
    static S: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut files: Vec<_> = std::fs::read_dir("/repo/protocol/test-fixtures/src/data").unwrap().map(|x| x.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "hex")).collect();
        files.sort();
        files
            .into_iter()
            .map(|p| {
                let t: String = std::fs::read_to_string(&p).unwrap().chars().filter(|c| c.is_ascii_hexdigit()).collect();
                (p.file_name().unwrap().to_string_lossy().to_string(), unhex(&t))
            })
            .collect()
    })
}
/// recorded main-net blocks: as they are, and with a change somewhere
fn c19_blocks(s: &mut Src, c: &mut Ctx) -> Res {
    let sh = match shipped() {
        Ok(v) => v,
        Err(e) => fail!("{e}"),
    };
    let x = sh.iter().find(|x| x.name == "external_transition").expect("layout");
    let bl = blocks();
    let (name, orig) = &bl[s.usz(bl.len())];
    let mut b = orig.clone();
    let k = s.below(4);
    let what = match k {
        0 => "as recorded",
        1 => {
            let n = s.usz(b.len());
            b.truncate(n);
            "cut"
        }
        2 => {
            let i = s.usz(b.len());
            b[i] = s.byte();
            "one byte changed"
        }
        _ => {
            let i = s.usz(b.len());
            let mut l = vec![];
            enc_nat0(s.int(0, u64::MAX as i128) as u64, &mut l);
            b.splice(i..i + 1, l);
            "a length put in"
        }
    };
    let mut cur = Cur::new(&b);
    let want = ldec(&x.l, &mut cur);
    let used = cur.p;
    c.label(what);
    c.label(if want.is_ok() { "decodable" } else { "not decodable" });
    c.case(hash_of(&b), true);
    c.sample(|| format!("{name} {what}, {} bytes", b.len()));
    let (r, peak) = alloc::peak(|| guard(|| loose_rest(&x.rule, &b[..])));
    match (r?, want) {
        (_, Err(Rej::Unspec)) => {}
        (Ok((w, rest)), Ok(v)) => {
            ensure!(same(&v, &w), "block {name} ({what}) decoded differently from the layout");
            ensure!(rest.len() == b.len() - used, "block {name} ({what}) left {} bytes", rest.len());
            if k == 0 {
                ensure!(rest.is_empty(), "block {name} left {} bytes unread", rest.len());
                let e = encode_value(&w)?;
                ensure!(e == b, "block {name} re-encodes differently");
            }
        }
        (Err(e), Ok(_)) => fail!("block {name} ({what}) was rejected: {e}"),
        (Ok(_), Err(r)) => fail!("block {name} ({what}) is not acceptable ({r:?}) but was decoded"),
        (Err(e), Err(_)) => ensure!(k != 0, "recorded block {name} was rejected: {e}"),
    }
    ensure!(peak <= (64 << 20) + 4096 * b.len() as u64 + 64 * x.text_len as u64, "block {name} ({what}): decoding {} bytes allocated {peak}", b.len());
    Ok(())
}

const RL: &str = "random layout (all supported rules incl. references, Pickles vectors, 32 byte numbers; depth <= 5) with a random value and its encoding; non-trivial: compound, more than one byte";
pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C06", name: "loose-prefix", quick: 120_000, thorough: 2_500_000, f: c06_loose, rule: "strict prefixes of an encoding under a random layout" },
        Facet { prop: "C09", name: "decode", quick: 500_000, thorough: 10_000_000, f: c09_decode, rule: RL },
        Facet { prop: "C09", name: "language", quick: 500_000, thorough: 10_000_000, f: c09_language, rule: "mutated encodings judged by an independent layout decoder; non-trivial: compound layout, specified outcome" },
        Facet { prop: "C09", name: "paths", quick: 100_000, thorough: 2_000_000, f: c09_paths, rule: "custom types behind chains of references with known, unknown and missing module paths" },
        Facet { prop: "C10", name: "reencode", quick: 500_000, thorough: 10_000_000, f: c10_reencode, rule: RL },
        Facet { prop: "C10", name: "stable", quick: 300_000, thorough: 6_000_000, f: c10_stable, rule: "mutated encodings that still decode; non-trivial: compound layout" },
        Facet { prop: "C11", name: "bytes", quick: 500_000, thorough: 12_000_000, f: c11_bytes, rule: "mutated or random bytes under a random layout; non-trivial: rejected" },
        Facet { prop: "C11", name: "layouts", quick: 400_000, thorough: 10_000_000, f: c11_layouts, rule: "layouts with rules the crate does not support and sums without selectable variants; non-trivial: such a rule is present" },
        Facet { prop: "C11", name: "faults", quick: 200_000, thorough: 4_000_000, f: c11_faults, rule: "input cut or reader failing inside the value" },
        Facet { prop: "C11", name: "end", quick: 150_000, thorough: 2_000_000, f: c11_end, rule: "two encodings, one layout" },
        Facet { prop: "C12", name: "parse", quick: 250_000, thorough: 5_000_000, f: c12_parse, rule: "random layout JSON (all rules), key order permuted; non-trivial: compound" },
        Facet { prop: "C12", name: "malformed", quick: 300_000, thorough: 6_000_000, f: c12_malformed, rule: "layout JSON broken in one place" },
        Facet { prop: "C12", name: "file", quick: 150_000, thorough: 2_000_000, f: c12_file, rule: "layout file with a missing, wrong or additional key" },
        Facet { prop: "C13", name: "hybrid", quick: 400_000, thorough: 8_000_000, f: c13_hybrid, rule: "random type without enums and newtypes, its layout, fields declared in another order; non-trivial: compound" },
        Facet { prop: "C13", name: "holes", quick: 200_000, thorough: 4_000_000, f: c13_holes, rule: "derived struct with loosely typed fields under a random layout" },
        Facet { prop: "C13", name: "mismatch", quick: 200_000, thorough: 4_000_000, f: c13_mismatch, rule: "type with a field the layout lacks or has under another kind" },
        Facet { prop: "C14", name: "lookup", quick: 200_000, thorough: 4_000_000, f: c14_lookup, rule: "random value, every valid and several invalid keys and indices; non-trivial: a container" },
        Facet { prop: "C14", name: "path", quick: 300_000, thorough: 6_000_000, f: c14_path, rule: "random path through a decoded value; non-trivial: at least two steps" },
        Facet { prop: "C19", name: "values", quick: 2_500, thorough: 60_000, f: c19_values, rule: "random value of a shipped Mina layout" },
        Facet { prop: "C19", name: "parts", quick: 60_000, thorough: 1_500_000, f: c19_parts, rule: "random value of one of the distinct types the shipped layouts refer to" },
        Facet { prop: "C19", name: "hostile", quick: 2_500, thorough: 60_000, f: c19_hostile, rule: "mutated encoding under a shipped Mina layout" },
        Facet { prop: "C19", name: "blocks", quick: 300, thorough: 6_000, f: c19_blocks, rule: "recorded main-net blocks, unchanged and changed" },
    ]
}
