//! C25: the wire form, the domain type and the JSON form of every value hold the same information.
use crate::core::*;
use crate::gen;
use crate::text::*;
use crate::tree::*;
use mina_rs_base::types as d;
use mina_rs_base::{BinProtSerializationType, JsonSerializationType};
use mina_serialization_types as st;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use st::json as j;
use st::v1 as w;
use std::fmt::Debug;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C25", name: "states", quick: 60_000, thorough: 2_000_000, f: states, rule: "a generated blockchain state, consensus state, protocol constants, protocol state or its body taken from the wire type to the domain type, to JSON and back; non-trivial: at least three leaves are not zero" },
        Facet { prop: "C25", name: "commands", quick: 100_000, thorough: 4_000_000, f: commands, rule: "a generated user command, with or without its status, coinbase, fee transfer, balance data or status, the same; non-trivial: at least one leaf is not zero" },
        Facet { prop: "C25", name: "proofs", quick: 3_000, thorough: 100_000, f: proofs, rule: "a generated snark work, statement or protocol state proof (as JSON and as base 64), the same; non-trivial: at least three leaves are not zero" },
        Facet { prop: "C25", name: "blocks", quick: 500, thorough: 20_000, f: blocks, rule: "a generated block or staged ledger diff: binary form, JSON form, domain type and each way between them; non-trivial: at least ten leaves are not zero" },
        Facet { prop: "C25", name: "accounts", quick: 100_000, thorough: 4_000_000, f: accounts, rule: "a generated account of either layout: binary form to domain type and back; non-trivial: at least three leaves are not zero" },
    ]
}

/// the first place where two JSON values differ
fn differ(a: &Value, b: &Value, at: String) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => {
                        if let Some(r) = differ(p, q, format!("{at}.{k}")) {
                            return Some(r);
                        }
                    }
                    (p, q) => return Some(format!("{at}.{k}: {p:?} instead of {q:?}")),
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{at}: {} elements instead of {}: {a} instead of {b}", x.len(), y.len()));
            }
            (0..x.len()).find_map(|i| differ(&x[i], &y[i], format!("{at}[{i}]")))
        }
        _ if a == b => None,
        _ => Some(format!("{at}: {a} instead of {b}")),
    }
}

fn wire<W: DeserializeOwned + Serialize>(s: &mut Src, c: &mut Ctx, name: &'static str, min: usize) -> Result<(W, Tr), Fail> {
    c.label(name);
    let max = s.range(0, 3);
    let x: W = gen::value_with(s, max, true, false);
    let t = tree(&x);
    c.case(hash_of(&bin(&x)?), weight(&t) >= min);
    Ok((x, t))
}
pub fn bin<W: Serialize>(x: &W) -> Result<Vec<u8>, Fail> {
    let mut v = vec![];
    guard(|| bin_prot::to_writer(&mut v, x))?.map_err(|e| Fail(format!("a wire value cannot be written: {e}")))?;
    Ok(v)
}

/// wire to domain and back; then the JSON of the domain value, against `expect`, and back
fn there_and_back<W, T, J>(x: W, name: &str, expect: Value) -> Result<(), Fail>
where
    W: Clone + Debug + PartialEq + From<T> + Serialize,
    T: Clone + Debug + PartialEq + From<W> + From<J>,
    J: From<T> + Serialize + DeserializeOwned,
{
    let dom: T = guard(|| x.clone().into())?;
    let back: W = guard(|| dom.clone().into())?;
    if back != x {
        let (a, b) = (format!("{back:?}"), format!("{x:?}"));
        fail!("{name}: wire to domain to wire gives another value ({})", text_diff(&a, &b));
    }
    let js: J = guard(|| dom.clone().into())?;
    let v = guard(|| serde_json::to_value(&js))?.map_err(|e| Fail(format!("{name}: no JSON: {e}")))?;
    if let Some(r) = differ(&v, &expect, String::new()) {
        fail!("{name}: JSON differs at {r}");
    }
    let text = guard(|| serde_json::to_string_pretty(&js))?.map_err(|e| Fail(format!("{name}: no JSON text: {e}")))?;
    let js2: J = guard(|| serde_json::from_str(&text))?.map_err(|e| Fail(format!("{name}: its own JSON is refused: {e}")))?;
    let dom2: T = guard(|| js2.into())?;
    if dom2 != dom {
        fail!("{name}: domain to JSON to domain gives another value ({})", text_diff(&format!("{dom2:?}"), &format!("{dom:?}")));
    }
    // the expected text is read to the same value too
    let js3: J = guard(|| serde_json::from_value(expect))?.map_err(|e| Fail(format!("{name}: the expected JSON is refused: {e}")))?;
    let dom3: T = guard(|| js3.into())?;
    ensure!(dom3 == dom, "{name}: the expected JSON is read as another value");
    let x2: W = guard(|| dom2.into())?;
    ensure!(x2 == x, "{name}: JSON to wire gives another value");
    Ok(())
}
fn text_diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[n.saturating_sub(60).min(s.len())..(n + 40).min(s.len())]).into_owned();
    format!("…{} instead of …{}", cut(a), cut(b))
}
/// W -> J directly, where that conversion exists
fn direct<W, J>(x: W, name: &str, expect: &Value) -> Result<(), Fail>
where
    W: Clone + Debug + PartialEq + From<J>,
    J: From<W> + Serialize + DeserializeOwned,
{
    let js: J = guard(|| x.clone().into())?;
    let v = guard(|| serde_json::to_value(&js))?.map_err(|e| Fail(format!("{name}: no JSON: {e}")))?;
    if let Some(r) = differ(&v, expect, String::new()) {
        fail!("{name}: JSON of the wire value differs at {r}");
    }
    let back: W = guard(|| js.into())?;
    ensure!(back == x, "{name}: wire to JSON to wire gives another value");
    Ok(())
}

macro_rules! one {
    ($c:ident $s:ident $name:literal $min:literal $w:ty, $d:ty, $j:ty) => {{
        let (x, t) = wire::<$w>($s, $c, $name, $min)?;
        let e = render(&t, "", "");
        $c.sample(|| format!("{} {}", $name, { let mut t = e.to_string(); t.truncate(400); t }));
        direct::<$w, $j>(x.clone(), $name, &e)?;
        there_and_back::<$w, $d, $j>(x, $name, e)
    }};
}

fn states(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    match s.below(5) {
        0 => one!(c s "blockchain state" 3 w::BlockchainStateV1, d::BlockchainStateLegacy, j::BlockchainStateJson),
        1 => one!(c s "consensus state" 3 w::ConsensusStateV1, d::ConsensusState, j::ConsensusStateJson),
        2 => one!(c s "protocol constants" 3 w::ProtocolConstantsV1, d::ProtocolConstants, j::ProtocolConstantsJson),
        3 => one!(c s "protocol state" 3 w::ProtocolStateV1, d::ProtocolStateLegacy, j::ProtocolStateJson),
        _ => one!(c s "protocol state body" 3 w::ProtocolStateBodyV1, d::ProtocolStateBodyLegacy, j::ProtocolStateBodyJson),
    }
}
fn commands(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    use st::staged_ledger_diff as l;
    match s.below(7) {
        0 | 1 => one!(c s "user command" 1 l::UserCommand, d::UserCommand, j::UserCommandJson),
        2 => one!(c s "user command with status" 1 l::UserCommandWithStatus, d::UserCommandWithStatus, j::UserCommandWithStatusJson),
        3 => one!(c s "status" 1 l::TransactionStatus, d::TransactionStatus, j::TransactionStatusJson),
        4 => one!(c s "failure" 1 l::TransactionStatusFailedType, d::TransactionStatusFailedType, j::TransactionStatusFailedTypeJson),
        5 => one!(c s "coinbase" 1 l::CoinBase, d::CoinBase, j::CoinBaseJson),
        _ => one!(c s "internal command balance" 1 l::InternalCommandBalanceData, d::InternalCommandBalanceData, j::InternalCommandBalanceDataJson),
    }
}
fn proofs(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    match s.below(6) {
        0 => one!(c s "snark work" 3 st::snark_work::TransactionSnarkWork, d::TransactionSnarkWork, j::TransactionSnarkWorkJson),
        1 => one!(c s "statement" 3 st::snark_work::Statement, d::Statement, j::StatementJson),
        2 => one!(c s "proof" 3 w::ProtocolStateProofV1, d::ProtocolStateProof, j::ProtocolStateProofJson),
        3 => one!(c s "proof statement" 3 w::ProofStatementV1, d::ProofStatement, j::ProofStatementJson),
        4 => one!(c s "delta transition chain proof" 3 w::DeltaTransitionChainProof, d::DeltaTransitionChainProof, j::DeltaTransitionChainProofJson),
        _ => {
            let (x, _) = wire::<w::ProtocolStateProofV1>(s, c, "proof as base 64", 3)?;
            let e = json!(b64(&bin(&x)?));
            direct::<w::ProtocolStateProofV1, j::ProtocolStateProofBase64Json>(x.clone(), "proof as base 64", &e)?;
            there_and_back::<w::ProtocolStateProofV1, d::ProtocolStateProof, j::ProtocolStateProofBase64Json>(x, "proof as base 64", e)
        }
    }
}

fn blocks(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.chance(1, 3) {
        return one!(c s "staged ledger diff" 10 w::StagedLedgerDiffV1, d::StagedLedgerDiff, j::StagedLedgerDiffJson);
    }
    let (mut x, t) = wire::<w::ExternalTransitionV1>(s, c, "block", 10)?;
    let raw = bin(&x)?;
    // the binary form is read to the same block, and the block written as the same bytes
    let dom: d::ExternalTransition = guard(|| d::ExternalTransition::try_from_binprot(raw.as_slice()))?.map_err(|e| Fail(format!("a block is refused: {e}")))?;
    let direct_dom: d::ExternalTransition = guard(|| x.clone().into())?;
    ensure!(dom == direct_dom, "try_from_binprot gives another block than the wire value does");
    let out = guard(|| dom.clone().try_into_binprot())?.map_err(|e| Fail(format!("a block cannot be written: {e}")))?;
    if out != raw {
        let n = out.iter().zip(&raw).take_while(|(a, b)| a == b).count();
        fail!("a block is written as other bytes than it was read from: {} bytes instead of {}, first difference at {n}", out.len(), raw.len());
    }
    // bytes that follow the block do not belong to it
    let mut longer = raw.clone();
    longer.push(s.byte());
    ensure!(guard(|| d::ExternalTransition::try_from_binprot(longer.as_slice()).is_err())?, "bytes after the block are not noticed");

    // the JSON form leaves out the versions and the callback; they read as their defaults
    let mut e = render(&t, "", "");
    let o = e.as_object_mut().ok_or(Fail("not an object".into()))?;
    for k in ["current_protocol_version", "proposed_protocol_version_opt", "validation_callback"] {
        o.remove(k);
    }
    o.insert("protocol_state_proof".into(), json!(b64(&bin(&x.t.protocol_state_proof)?)));
    let text = guard(|| dom.clone().try_into_json())?.map_err(|e| Fail(format!("a block has no JSON: {e}")))?;
    let v: Value = serde_json::from_str(&text).map_err(|e| Fail(format!("a block's JSON is not JSON: {e}")))?;
    if let Some(r) = differ(&v, &e, String::new()) {
        fail!("block: JSON differs at {r}");
    }
    let back = guard(|| d::ExternalTransition::try_from_json(&text))?.map_err(|e| Fail(format!("a block's JSON is refused: {e}")))?;
    let same_version = x.t.current_protocol_version.clone();
    let dv: w::ProtocolVersionV1 = d::ExternalTransition::from(x.clone()).current_protocol_version.into();
    ensure!(dv == same_version, "the protocol version changes");
    let def: w::ProtocolVersionV1 = d::ProtocolVersion::default().into();
    x.t.current_protocol_version = def;
    x.t.proposed_protocol_version_opt = None;
    let x2: w::ExternalTransitionV1 = guard(|| back.into())?;
    if x2 != x {
        fail!("block: JSON to wire gives another value ({})", text_diff(&format!("{x2:?}"), &format!("{x:?}")));
    }
    Ok(())
}

fn accounts(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    if s.bool() {
        account::<d::AccountLegacy>(s, c, "account")
    } else {
        account::<d::Account>(s, c, "account of the next protocol version")
    }
}
fn account<A>(s: &mut Src, c: &mut Ctx, name: &'static str) -> Result<(), Fail>
where
    A: Clone + for<'a> BinProtSerializationType<'a>,
    for<'a> <A as BinProtSerializationType<'a>>::T: DeserializeOwned + Clone + PartialEq + Debug,
{
    let (x, _) = wire::<<A as BinProtSerializationType<'static>>::T>(s, c, name, 3)?;
    let raw = bin(&x)?;
    let dom: A = guard(|| A::try_from_binprot(raw.as_slice()))?.map_err(|e| Fail(format!("{name}: refused: {e}")))?;
    c.sample(|| format!("{name} {}", hex(&raw)));
    let out = guard(|| dom.clone().try_into_binprot())?.map_err(|e| Fail(format!("{name}: cannot be written: {e}")))?;
    if out != raw {
        let n = out.iter().zip(&raw).take_while(|(a, b)| a == b).count();
        fail!("{name}: written as other bytes than it was read from: {} bytes instead of {}, first difference at {n}", out.len(), raw.len());
    }
    Ok(())
}
