//! C26: external input that is not what it should be is refused, or read as a value that is written
//! and read back unchanged; nothing panics.
use crate::conv::bin;
use crate::core::*;
use crate::gen;
use crate::text::*;
use crate::tree::*;
use mina_rs_base::account::{Account, Permissions, Timing};
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::types as d;
use mina_rs_base::{BinProtSerializationType, JsonSerializationType};
use mina_serialization_types as st;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use st::json as j;
use st::v1 as w;
use std::fmt::Debug;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C26", name: "json-shape", quick: 150_000, thorough: 5_000_000, f: json_shape, rule: "the JSON of a generated value (state, command, status, coinbase, snark work, proof, diff) with one to three nodes removed, renamed, doubled, or put in place by values of another shape, or with the text cut or edited; non-trivial: the document differs from the original" },
        Facet { prop: "C26", name: "block-json", quick: 10_000, thorough: 300_000, f: block_json, rule: "the JSON of a generated block with one to three nodes spoiled in the same way; non-trivial: the document differs" },
        Facet { prop: "C26", name: "binary", quick: 150_000, thorough: 6_000_000, f: binary, rule: "the binary form of a generated block or account, some of its 32-byte elements not canonical, one to three bytes changed, a piece removed, doubled or cut off; non-trivial: not the bytes of a regular value" },
        Facet { prop: "C26", name: "graphql-shape", quick: 150_000, thorough: 6_000_000, f: graphql, rule: "a GraphQL protocol state, account, permissions or timing document with one to three nodes spoiled; non-trivial: the document differs" },
    ]
}

type Res = Result<(), Fail>;

fn pointers(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| pointers(x, format!("{at}/{i}"), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| pointers(x, format!("{at}/{k}"), out)),
        _ => {}
    }
    out.push(at);
}
fn odd_value(s: &mut Src, doc: &Value, ps: &[String]) -> Value {
    match s.below(16) {
        0 => Value::Null,
        1 => json!(s.bool()),
        2 => json!(*s.pick(&[0i64, 1, -1, i64::MIN, i64::MAX, 1_000_000_007])),
        3 => json!(*s.pick(&[0u64, u64::MAX, 1 << 63, 1 << 32])),
        4 => json!(*s.pick(&[0.5f64, -0.0, 1e300, 1e-300])),
        5 => json!(""),
        6 => json!(*s.pick(&["0", "-1", "18446744073709551615", "18446744073709551616", "99999999999999999999999.9999999999", "1.", ".1", "é", "\0", "=", "0x", "0xZZ", "None", "One", "Two", "Zero", "Applied", "Failed", "Payment"])),
        7 => {
            let n = s.usz(80);
            json!((0..n).map(|_| (s.byte() & 0x7f) as char).collect::<String>())
        }
        8 => json!([]),
        9 => json!({}),
        10 => json!([[]]),
        11 => json!([null]),
        12 => json!({"a": 1, "b": []}),
        13 => {
            let n = s.usz(40);
            let b = s.bytes(n);
            let v = *s.pick(&[0x05u8, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x14, 0x15, 0x17, 0x18, 0x9a, 0xcb]);
            json!(check(v, &b))
        }
        14 => {
            let n = s.usz(70);
            let b = s.bytes(n);
            json!(if s.bool() { b64(&b) } else { hex0x(&b) })
        }
        // some other part of the document
        _ => doc.pointer(&ps[s.usz(ps.len())]).cloned().unwrap_or(Value::Null),
    }
}
/// one to three nodes spoiled
pub(crate) fn spoil(s: &mut Src, doc: &mut Value) -> String {
    let n = *s.pick(&[1, 1, 1, 2, 3]);
    let mut what = String::new();
    for _ in 0..n {
        let mut ps = vec![];
        pointers(doc, String::new(), &mut ps);
        let p = ps[s.usz(ps.len())].clone();
        let odd = odd_value(s, doc, &ps);
        let op = s.below(8);
        let node = doc.pointer_mut(&p).unwrap();
        what = format!("{what} {p}({op})");
        match (op, &mut *node) {
            (0, Value::Object(o)) if !o.is_empty() => {
                let k = o.keys().nth(s.usz(o.len())).unwrap().clone();
                o.remove(&k);
            }
            (1, Value::Object(o)) if !o.is_empty() => {
                let k = o.keys().nth(s.usz(o.len())).unwrap().clone();
                let x = o.remove(&k).unwrap();
                o.insert(format!("{k}_"), x);
            }
            (0, Value::Array(a)) if !a.is_empty() => {
                let i = s.usz(a.len());
                a.remove(i);
            }
            (1, Value::Array(a)) if !a.is_empty() => {
                let i = s.usz(a.len());
                let x = a[i].clone();
                a.insert(i, x);
            }
            (2, Value::Array(a)) => a.push(odd),
            (3, Value::Array(a)) if a.len() > 1 => a.reverse(),
            (2 | 3 | 4, Value::String(t)) => {
                let mut v: Vec<char> = t.chars().collect();
                match s.below(4) {
                    0 => v.clear(),
                    1 if !v.is_empty() => {
                        let i = s.usz(v.len());
                        v.remove(i);
                    }
                    2 if !v.is_empty() => {
                        let i = s.usz(v.len());
                        v[i] = *s.pick(&['0', '9', 'f', 'g', 'Z', '.', '-', '+', ' ', 'é', '\u{fffd}', '\0']);
                    }
                    _ => {
                        let i = s.usz(v.len() + 1);
                        v.insert(i, *s.pick(&['0', '9', 'f', 'x', '.', '-', 'é', ' ']));
                    }
                }
                *t = v.into_iter().collect();
            }
            (_, n) => *n = odd,
        }
    }
    what
}
/// the document as text, now and then cut or edited
fn text_of(s: &mut Src, doc: &Value, ctx: &mut Ctx) -> String {
    let t = if s.bool() { doc.to_string() } else { serde_json::to_string_pretty(doc).unwrap() };
    if !s.chance(1, 8) {
        return t;
    }
    ctx.label("text edited");
    let mut b = t.into_bytes();
    match s.below(3) {
        0 => b.truncate(s.usz(b.len() + 1)),
        1 => {
            let i = s.usz(b.len());
            b[i] = *s.pick(b"\"{}[]:,0n\\ ");
        }
        _ => {
            let i = s.usz(b.len());
            b.remove(i);
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}
fn short(t: &str) -> String {
    let mut t: String = t.chars().take(1200).collect();
    if t.len() == 1200 {
        t.push('…');
    }
    t
}

/// JSON of a wire value, spoiled, read and, if it is read, written and read again
fn one<W, T, J>(s: &mut Src, ctx: &mut Ctx, name: &'static str) -> Res
where
    W: DeserializeOwned + Serialize,
    T: Clone + Debug + PartialEq + From<J>,
    J: From<T> + Serialize + DeserializeOwned,
{
    ctx.label(name);
    let max = s.below(3);
    let x: W = gen::value_with(s, max, true, false);
    let doc = render(&tree(&x), "", "");
    json_case::<T, J>(s, ctx, name, doc)
}
fn json_case<T, J>(s: &mut Src, ctx: &mut Ctx, name: &'static str, mut doc: Value) -> Res
where
    T: Clone + Debug + PartialEq + From<J>,
    J: From<T> + Serialize + DeserializeOwned,
{
    let before = doc.clone();
    let what = spoil(s, &mut doc);
    let text = text_of(s, &doc, ctx);
    ctx.case(hash_of(&text), doc != before);
    ctx.sample(|| format!("{name}, spoiled at{what}: {}", short(&text)));
    let at = |f: Fail| Fail(format!("{name}, spoiled at{what}: {}; {}", f.0, short(&text)));
    let Ok(js) = guard(|| serde_json::from_str::<J>(&text)).map_err(at)? else {
        ctx.label("refused");
        return Ok(());
    };
    ctx.label("read");
    let dom: T = guard(|| js.into()).map_err(at)?;
    let js: J = guard(|| dom.clone().into()).map_err(at)?;
    let again = guard(|| serde_json::to_string(&js)).map_err(at)?.map_err(|e| at(Fail(format!("read, but cannot be written: {e}"))))?;
    let js2: J = guard(|| serde_json::from_str(&again)).map_err(at)?.map_err(|e| at(Fail(format!("read, but what is written for it is refused: {e}"))))?;
    let dom2: T = guard(|| js2.into()).map_err(at)?;
    if dom2 != dom {
        return Err(at(Fail("read, but written as something that is read as another value".into())));
    }
    Ok(())
}

fn json_shape(s: &mut Src, c: &mut Ctx) -> Res {
    use st::staged_ledger_diff as l;
    match s.below(16) {
        0 => one::<w::BlockchainStateV1, d::BlockchainStateLegacy, j::BlockchainStateJson>(s, c, "blockchain state"),
        1 => one::<w::ConsensusStateV1, d::ConsensusState, j::ConsensusStateJson>(s, c, "consensus state"),
        2 => one::<w::ProtocolConstantsV1, d::ProtocolConstants, j::ProtocolConstantsJson>(s, c, "protocol constants"),
        3 => one::<w::ProtocolStateV1, d::ProtocolStateLegacy, j::ProtocolStateJson>(s, c, "protocol state"),
        4 | 5 => one::<l::UserCommand, d::UserCommand, j::UserCommandJson>(s, c, "user command"),
        6 => one::<l::UserCommandWithStatus, d::UserCommandWithStatus, j::UserCommandWithStatusJson>(s, c, "user command with status"),
        7 => one::<l::TransactionStatus, d::TransactionStatus, j::TransactionStatusJson>(s, c, "status"),
        8 => one::<l::CoinBase, d::CoinBase, j::CoinBaseJson>(s, c, "coinbase"),
        9 => one::<l::InternalCommandBalanceData, d::InternalCommandBalanceData, j::InternalCommandBalanceDataJson>(s, c, "internal command balance"),
        10 => one::<st::snark_work::Statement, d::Statement, j::StatementJson>(s, c, "statement"),
        11 if s.chance(1, 4) => one::<st::snark_work::TransactionSnarkWork, d::TransactionSnarkWork, j::TransactionSnarkWorkJson>(s, c, "snark work"),
        12 if s.chance(1, 3) => one::<w::ProtocolStateProofV1, d::ProtocolStateProof, j::ProtocolStateProofJson>(s, c, "proof"),
        13 => one::<w::ProofStatementV1, d::ProofStatement, j::ProofStatementJson>(s, c, "proof statement"),
        14 => {
            let x: w::ProtocolStateProofV1 = gen::value_with(s, 1, true, false);
            c.label("proof as base 64");
            let b = break_bytes(s, bin(&x)?);
            json_case::<d::ProtocolStateProof, j::ProtocolStateProofBase64Json>(s, c, "proof as base 64", json!(b64(&b)))
        }
        _ => one::<w::DeltaTransitionChainProof, d::DeltaTransitionChainProof, j::DeltaTransitionChainProofJson>(s, c, "delta transition chain proof"),
    }
}

fn block_json(s: &mut Src, c: &mut Ctx) -> Res {
    let max = s.below(2);
    let x: w::ExternalTransitionV1 = gen::value_with(s, max, true, false);
    let mut doc = render(&tree(&x), "", "");
    let o = doc.as_object_mut().ok_or(Fail("not an object".into()))?;
    for k in ["current_protocol_version", "proposed_protocol_version_opt", "validation_callback"] {
        o.remove(k);
    }
    o.insert("protocol_state_proof".into(), json!(b64(&bin(&x.t.protocol_state_proof)?)));
    let before = doc.clone();
    let what = spoil(s, &mut doc);
    let text = text_of(s, &doc, c);
    c.case(hash_of(&text), doc != before);
    c.sample(|| format!("block, spoiled at{what}"));
    let at = |f: Fail| Fail(format!("block, spoiled at{what}: {}", f.0));
    let Ok(b) = guard(|| d::ExternalTransition::try_from_json(&text)).map_err(at)? else {
        c.label("refused");
        return Ok(());
    };
    c.label("read");
    let again = guard(|| b.clone().try_into_json()).map_err(at)?.map_err(|e| at(Fail(format!("read, but cannot be written: {e}"))))?;
    let b2 = guard(|| d::ExternalTransition::try_from_json(&again)).map_err(at)?.map_err(|e| at(Fail(format!("read, but what is written for it is refused: {e}"))))?;
    ensure!(b2 == b, "block, spoiled at{what}: read, but written as something that is read as another value");
    Ok(())
}

pub(crate) fn break_bytes(s: &mut Src, mut b: Vec<u8>) -> Vec<u8> {
    for _ in 0..s.below(4) {
        if b.is_empty() {
            break;
        }
        let i = s.usz(b.len());
        match s.below(8) {
            0..=3 => b[i] = *s.pick(&[0, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff]),
            4 => b[i] = s.byte(),
            5 => {
                b.remove(i);
            }
            6 => {
                let x = s.byte();
                b.insert(i, x);
            }
            // 32 bytes that are no field element
            _ => (i..(i + 32).min(b.len())).for_each(|k| b[k] = 0xff),
        }
    }
    if s.chance(1, 10) {
        b.truncate(s.usz(b.len() + 1));
    }
    b
}
/// 32 bytes that are at or above one of the two moduli, or just below
fn edge(s: &mut Src) -> [u8; 32] {
    let p = *s.pick(&["40000000000000000000000000000000224698fc094cf91b992d30ed00000001", "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"]);
    let mut b = unhex(p);
    b.reverse();
    match s.below(4) {
        0 => b[0] = 0,
        1 => b[0] = 2,
        2 => b = vec![0xff; 32],
        _ => {}
    }
    b.try_into().unwrap()
}
fn block(s: &mut Src) -> w::ExternalTransitionV1 {
    let max = s.below(2);
    let mut x: w::ExternalTransitionV1 = gen::value_with(s, max, false, false);
    if s.bool() {
        let d = &mut x.t.staged_ledger_diff.t.diff.t.0.t.t;
        if d.commands.is_empty() {
            d.commands.push(gen::value_with(s, 1, false, false));
        }
        let i = s.usz(d.commands.len());
        let st::staged_ledger_diff::UserCommand::SignedCommand(cmd) = &mut d.commands[i].t.data.t.t;
        let cmd = &mut cmd.t.t;
        let e = edge(s);
        match s.below(5) {
            0 => cmd.signature.0.t.t.0 = e,
            1 => cmd.signature.0.t.t.1 = e,
            2 => cmd.signer.0.t.0.t.t.x = e,
            3 => cmd.payload.t.t.common.t.t.t.fee_payer_pk.0.t.t.x = e,
            _ => x.t.protocol_state.t.t.body.t.t.consensus_state.t.t.block_creator.0.t.t.x = e,
        }
    }
    x
}
fn binary(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(16);
    let max = s.below(2);
    let spoilt = kind == 0 || s.chance(1, 4);
    let raw = match kind {
        0 | 1 => bin(&block(s))?,
        x if x % 2 == 0 => {
            let mut a: st::account::AccountV1 = gen::value_with(s, max, false, false);
            if spoilt {
                a.t.t.t.public_key.0.t.0.t.t.x = edge(s);
            }
            bin(&a)?
        }
        _ => {
            let mut a: st::account::AccountV0 = gen::value_with(s, max, false, false);
            if spoilt {
                a.delegate = Some(st::signatures::CompressedCurvePoint { x: edge(s), is_odd: s.bool() });
            }
            bin(&a)?
        }
    };
    let b = break_bytes(s, raw.clone());
    c.case(hash_of(&b), spoilt || b != raw);
    match kind {
        0 | 1 => binary_of::<d::ExternalTransition>(c, "block", &b),
        x if x % 2 == 0 => binary_of::<d::AccountLegacy>(c, "account", &b),
        _ => binary_of::<d::Account>(c, "account of the next protocol version", &b),
    }
}
fn binary_of<A>(c: &mut Ctx, name: &'static str, b: &[u8]) -> Res
where
    A: Clone + for<'a> BinProtSerializationType<'a>,
{
    c.label(name);
    c.sample(|| format!("{name} {}", hex(b)));
    let at = |f: Fail| Fail(format!("{name} of {} bytes: {}; {}", b.len(), f.0, short(&hex_full(b))));
    let Ok(dom) = guard(|| A::try_from_binprot(b)).map_err(at)? else {
        c.label("refused");
        return Ok(());
    };
    c.label("read");
    let out = guard(|| dom.clone().try_into_binprot()).map_err(at)?.map_err(|e| at(Fail(format!("read, but cannot be written: {e}"))))?;
    ensure!(out.len() == b.len() || b.len() > out.len(), "{name}: read from {} bytes, written as {}", b.len(), out.len());
    let dom2 = guard(|| A::try_from_binprot(out.as_slice())).map_err(at)?.map_err(|e| at(Fail(format!("read, but what is written for it is refused: {e}"))))?;
    let out2 = guard(|| dom2.try_into_binprot()).map_err(at)?.map_err(|e| at(Fail(format!("read, but cannot be written: {e}"))))?;
    if out2 != out {
        return Err(at(Fail("read, but written as bytes that are read as another value".into())));
    }
    Ok(())
}

fn graphql(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.below(4);
    let mut doc = match kind {
        0 => crate::human::state_document(s, c),
        _ => crate::human::account_document(s, c),
    };
    match kind {
        2 => doc = doc["permissions"].take(),
        3 => doc = doc["timing"].take(),
        _ => {}
    }
    let before = doc.clone();
    let what = spoil(s, &mut doc);
    c.case(hash_of(&doc.to_string()), doc != before);
    c.sample(|| format!("spoiled at{what}: {doc}"));
    let ok = guard(|| match kind {
        0 => d::ProtocolState::from_graphql_json(&doc).is_ok(),
        1 => Account::from_graphql_json(&doc).is_ok(),
        2 => Permissions::from_graphql_json(&doc).is_ok(),
        _ => Timing::from_graphql_json(&doc).is_ok(),
    })
    .map_err(|f| Fail(format!("document spoiled at{what}: {}; {doc}", f.0)))?;
    c.label(if ok { "read" } else { "refused" });
    Ok(())
}
