//! C30: the naive transition frontier. Histories of blocks against a model of the tip and of the
//! sparse ledger that came with it; GraphQL documents against their independent reading.
use crate::core::*;
use crate::fork::{replaces, row, state, Row};
use crate::gen;
use crate::human;
use crate::malformed::spoil;
use crate::processor::{MerkleProofBerkeleyNet, MerkleProofMainnet, NaiveTransitionFrontier, ProtocolStateWithSparseMerkleLedger, TransitionFrontier};
use crate::sign;
use crate::text::address;
use ark_ff::PrimeField;
use mina_merkle::MerkleProof;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::protocol_state::{ProtocolState, ProtocolStateHeader, ProtocolStateLegacy};
use mina_rs_base::types::ExternalTransition;
use mina_serialization_types::v1::ExternalTransitionV1;
use num_bigint::BigUint;
use proof_systems::mina_hasher::{create_kimchi, Fp, Hashable, Hasher, ROInput};
use proof_systems::mina_signer::CompressedPubKey;
use serde_json::{json, Value};
use std::future::Future;
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll, Wake, Waker};

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C30", name: "berkeley", quick: 30_000, thorough: 1_000_000, f: berkeley, rule: "0-7 blocks with their merkle proofs added one after another, new ones, variants and repetitions of earlier ones; non-trivial: at least two blocks" },
        Facet { prop: "C30", name: "mainnet", quick: 8_000, thorough: 200_000, f: mainnet, rule: "0-5 blocks with signed commands, some with a command that does not verify or is signed for another network; non-trivial: at least two blocks" },
        Facet { prop: "C30", name: "document", quick: 40_000, thorough: 1_500_000, f: document, rule: "a GraphQL response with a protocol state, 0-4 accounts with their merkle paths and other members; non-trivial: at least one account" },
        Facet { prop: "C30", name: "live", quick: 20_000, thorough: 800_000, f: live, rule: "two responses read and added to one frontier; non-trivial: all hashes of both are field elements" },
        Facet { prop: "C30", name: "malformed", quick: 60_000, thorough: 2_500_000, f: malformed, rule: "such a response with one to three nodes spoiled; every case non-trivial" },
    ]
}

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
/// adding a block waits for nothing here
fn now<F: Future>(f: F) -> Result<F::Output, Fail> {
    let w = Waker::from(Arc::new(Noop));
    let mut f = Box::pin(f);
    for _ in 0..64 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Ok(x);
        }
    }
    fail!("adding a block does not come to an end")
}

// ------------------------------------------------------------------ proofs

#[derive(Clone)]
struct Pair(Fp, Fp);
impl Hashable for Pair {
    type D = u32;
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_field(self.0).append_field(self.1)
    }
    fn domain_string(level: u32) -> Option<String> {
        Some(format!("CodaMklTree{level:03}"))
    }
}
fn dec(x: Fp) -> String {
    BigUint::from(x.into_repr()).to_string()
}
/// an account member of the document, its root and its position among the leaves
pub fn account(s: &mut Src, max: u64) -> (Value, Fp, usize) {
    let n = s.range(1, max) as usize;
    let leaf = Fp::from(s.u64());
    let (mut at, mut h, mut nodes) = (0, leaf, vec![]);
    for k in 0..n {
        let sib = if s.chance(1, 4) { h } else { Fp::from(s.u64()) };
        let right = s.bool();
        // "left": the account is the left child, and the hash is its sibling's
        nodes.push(if right { json!({"left": null, "right": dec(sib)}) } else { json!({"left": dec(sib), "right": null}) });
        at |= (right as usize) << k;
        let p = if right { Pair(sib, h) } else { Pair(h, sib) };
        h = create_kimchi::<Pair>(k as u32).hash(&p);
    }
    (json!({"merklePath": nodes, "leafHash": dec(leaf)}), h, (1 << n) - 1 + at)
}
fn state_json() -> &'static Value {
    static V: OnceLock<Value> = OnceLock::new();
    V.get_or_init(|| human::state_document(&mut Src::replay(vec![]), &mut Ctx::default()))
}
fn key(s: &mut Src) -> String {
    let k = sign::key(s);
    k.public.into_address()
}
/// the members of a response, keys and what follows from their proofs
fn proofs(s: &mut Src, most: u64, max: u64) -> (serde_json::Map<String, Value>, Vec<(Fp, usize)>) {
    let (mut m, mut want) = (serde_json::Map::new(), vec![]);
    for _ in 0..s.below(most + 1) {
        let (v, root, at) = account(s, max);
        let k = key(s);
        if m.contains_key(&k) {
            continue;
        }
        m.insert(k, v);
        want.push((root, at));
    }
    (m, want)
}
pub fn seen(p: &[MerkleProofBerkeleyNet]) -> Result<Vec<(Fp, usize)>, Fail> {
    let mut v = vec![];
    for p in p {
        match guard(|| p.root_hash())? {
            Ok(h) => v.push((h, p.index)),
            Err(e) => fail!("a proof of the sparse ledger has no root: {e}"),
        }
    }
    Ok(sorted(v))
}
pub fn sorted(mut v: Vec<(Fp, usize)>) -> Vec<(Fp, usize)> {
    v.sort_by_key(|(h, i)| (BigUint::from(h.into_repr()), *i));
    v
}

// ------------------------------------------------------------------ histories

/// blocks of a history: mostly close to an earlier one
pub fn history(s: &mut Src, n: u64) -> Vec<Row> {
    let mut v: Vec<Row> = vec![];
    for _ in 0..n {
        let mut r = if v.is_empty() || s.chance(1, 6) {
            row(s, None)
        } else {
            let k = if s.bool() { v.len() - 1 } else { s.usz(v.len()) };
            match s.below(5) {
                0 => v[k].clone(),
                1 | 2 => {
                    // a successor
                    let mut r = v[k].clone();
                    r.len = r.len.saturating_add(1);
                    r.slot = r.slot.saturating_add(1 + s.below(4) as u32);
                    r
                }
                _ => row(s, Some(&v[k])),
            }
        };
        // the VRF output must be hashable
        r.vrf.resize(32, 0);
        r.vrf[31] &= 0x1f;
        v.push(r);
    }
    v
}
pub fn brief(v: &[Row]) -> String {
    v.iter().map(|r| format!("(length {}, epoch {}, slot {}, density {}, window {:?}, locks {}/{}, vrf {})", r.len, r.epoch, r.slot, r.min, r.win, r.stake_lock, r.next_lock, hex(&r.vrf[..4]))).collect::<Vec<_>>().join(", ")
}

fn berkeley(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.below(8);
    let rows = history(s, n);
    let mk = |r: &Row| {
        let mut p = ProtocolState::default();
        p.body.consensus_state = state(r);
        p
    };
    let hash = |r: &Row| mk(r).state_hash_fp();
    ctx.case(hash_of(&rows), n >= 2);
    let mut f: NaiveTransitionFrontier<ProtocolState, MerkleProofBerkeleyNet> = NaiveTransitionFrontier::new();
    ensure!(f.get_best_chain().top().is_none() && f.get_sparse_merkle_ledger().is_empty(), "a new frontier has a block");
    let mut tip: Option<Row> = None;
    // what came with blocks of the tip's state hash
    let mut ledgers: Vec<Vec<(Fp, usize)>> = vec![vec![]];
    let mut log = String::new();
    for (i, r) in rows.iter().enumerate() {
        let (mut doc, want) = proofs(s, 2, 3);
        let want = sorted(want);
        doc.insert("bestChain".into(), json!([{"protocolState": state_json()}]));
        let mut b = match guard(|| ProtocolStateWithSparseMerkleLedger::try_from(&Value::Object(doc.clone())))? {
            Ok(b) => b,
            Err(e) => fail!("a response is refused: {e}: {}", Value::Object(doc)),
        };
        ensure!(seen(&b.1)? == want, "the proofs of a response are not its own: {}", Value::Object(doc));
        b.0 = mk(r);
        let got = guard(|| now(f.add_block(b)))??;
        let was = tip.clone();
        let refused = match &tip {
            None => {
                tip = Some(r.clone());
                ledgers = vec![want];
                false
            }
            Some(t) => match replaces(t, r, &hash) {
                Ok((true, _)) => {
                    ctx.label("replaced");
                    ledgers = if hash(t) == hash(r) { ledgers.into_iter().chain([want]).collect() } else { vec![want] };
                    tip = Some(r.clone());
                    false
                }
                Ok((false, _)) => {
                    ctx.label("kept");
                    if hash(t) == hash(r) {
                        ctx.label("the tip again");
                        ledgers.push(want);
                    }
                    false
                }
                Err(_) => {
                    ctx.label("no choice possible");
                    true
                }
            },
        };
        log = brief(&rows[..=i]);
        ensure!(got.is_err() == refused, "block {i} is {}: {log}", if refused { "taken although the tip has no window to compare" } else { "refused" });
        let chain = f.get_best_chain();
        ensure!(chain.0.len() == 1, "the best chain has {} blocks after {log}", chain.0.len());
        let want_tip = mk(tip.as_ref().unwrap());
        if chain.top() != Some(&want_tip) {
            let k = rows[..=i].iter().position(|r| chain.top() == Some(&mk(r)));
            let w = rows[..=i].iter().position(|r| Some(r) == tip.as_ref());
            fail!("the tip is block {k:?}, fork choice has {w:?}, after {log}")
        }
        let now = seen(f.get_sparse_merkle_ledger())?;
        ensure!(ledgers.contains(&now), "the sparse ledger is not the one that came with the tip, after {log} (the tip {})", if was == tip { "stayed" } else { "changed" });
    }
    ctx.sample(|| log);
    Ok(())
}

fn mainnet(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.below(6);
    let rows = history(s, n);
    let mk = |r: &Row| {
        let mut p = ProtocolStateLegacy::default();
        p.body.consensus_state = state(r);
        p
    };
    let hash = |r: &Row| mk(r).state_hash_fp();
    ctx.case(hash_of(&rows), n >= 2);
    let mut f: NaiveTransitionFrontier<ProtocolStateLegacy, MerkleProofMainnet> = NaiveTransitionFrontier::new();
    let mut tip: Option<Row> = None;
    let mut log = vec![];
    let w: ExternalTransitionV1 = gen::value_with(s, 1, false, false);
    let template: ExternalTransition = w.into();
    for (i, r) in rows.iter().enumerate() {
        let main = !s.chance(1, 6);
        let broken_at = if s.chance(1, 3) { s.below(4) } else { 99 };
        let (two, one, shape) = sign::diffs(s, main, broken_at);
        // a command broken by signing it for the other network is one for this
        let good = match main {
            true => !shape.iter().any(|x| x.0),
            false => shape.is_empty(),
        };
        if !main && shape.len() == 1 && shape[0].0 {
            continue;
        }
        let mut b = template.clone();
        b.staged_ledger_diff = sign::staged(&two, &one);
        b.protocol_state = mk(r);
        let got = guard(|| now(f.add_block(b)))??;
        let refused = match (&tip, good) {
            (_, false) => {
                ctx.label("does not verify");
                true
            }
            (None, true) => {
                tip = Some(r.clone());
                false
            }
            (Some(t), true) => match replaces(t, r, &hash) {
                Ok((true, _)) => {
                    ctx.label("replaced");
                    tip = Some(r.clone());
                    false
                }
                Ok(_) => {
                    ctx.label("kept");
                    false
                }
                Err(_) => {
                    ctx.label("no choice possible");
                    true
                }
            },
        };
        log.push(format!("{} {} for mainnet: {main}, (broken, applied) {shape:?}", brief(&rows[i..=i]), if got.is_ok() { "taken" } else { "refused" }));
        ensure!(got.is_err() == refused, "block {i} should be {}: {log:?}", if refused { "refused" } else { "taken" });
        let chain = f.get_best_chain();
        ensure!(chain.0.len() <= 1 && f.get_sparse_merkle_ledger().is_empty(), "the best chain has {} blocks after {log:?}", chain.0.len());
        ensure!(chain.top().cloned() == tip.as_ref().map(mk), "the tip is block {:?}, fork choice among the blocks that verify has {:?}: {log:?}", rows.iter().position(|r| chain.top() == Some(&mk(r))), rows.iter().position(|r| Some(r) == tip.as_ref()));
    }
    ctx.sample(|| format!("{log:?}"));
    Ok(())
}

// ------------------------------------------------------------------ documents

fn response(s: &mut Src, ctx: &mut Ctx) -> (Value, Value, Vec<(Fp, usize)>) {
    let st = human::state_document(s, ctx);
    let (mut m, want) = proofs(s, 4, 21);
    let mut best = vec![json!({"protocolState": st})];
    for _ in 0..s.below(3) {
        best.push(s.pick(&[json!(null), json!({"protocolState": null}), json!({"protocolState": state_json()})]).clone());
    }
    m.insert("bestChain".into(), Value::Array(best));
    for _ in 0..s.below(4) {
        let k = match s.below(4) {
            0 => "genesisBlock".to_string(),
            1 => "daemonStatus".to_string(),
            2 => {
                // no address: another version, a cut or a changed one
                let x = s.bytes(32);
                let mut k = address(&x, false);
                k.pop();
                k
            }
            _ => format!("{}x", key(s)),
        };
        let v = match s.below(3) {
            0 => json!(null),
            1 => account(s, 3).0,
            _ => json!({"protocolState": st}),
        };
        if CompressedPubKey::from_address(&k).is_err() {
            m.insert(k, v);
        }
    }
    (Value::Object(m), st, sorted(want))
}

fn document(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (doc, st, want) = response(s, ctx);
    ctx.case(hash_of(&doc.to_string()), !want.is_empty());
    let own = if s.bool() { guard(|| ProtocolStateWithSparseMerkleLedger::try_from(&doc))? } else { guard(|| ProtocolStateWithSparseMerkleLedger::try_from(doc.clone()))? };
    let ProtocolStateWithSparseMerkleLedger(p, proofs) = match own {
        Ok(x) => x,
        Err(e) => fail!("a response is refused: {e}: {doc}"),
    };
    let w = guard(|| ProtocolState::from_graphql_json(&st))?.map_err(|e| Fail(format!("the protocol state alone is refused: {e}")))?;
    ensure!(p == w, "the protocol state of a response is not its first: {doc}");
    let got = seen(&proofs)?;
    ensure!(got == want, "the proofs of a response have the roots and positions {got:?} instead of {want:?}: {doc}");
    for (p, (h, _)) in proofs.iter().map(|p| (p, p.root_hash().unwrap())).map(|(p, h)| (p, (h, 0))) {
        ensure!(p.verify(&h) && !p.verify(&(h + Fp::from(1u64))), "a proof does not tell its root: {doc}");
    }
    ctx.label(["no account", "one account", "more accounts"][want.len().min(2)]);
    ctx.sample(|| format!("{doc}"));
    Ok(())
}

/// the hashes in a document that are no field elements
fn odd_hashes(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::String(t) => {
            if let Ok(b) = bs58::decode(t).with_check(None).into_vec() {
                if b.len() == 34 && b[1] == 1 {
                    let n = BigUint::from_bytes_le(&b[2..]);
                    if n.try_into().ok().and_then(Fp::from_repr).is_none() {
                        out.push(t.clone())
                    }
                }
            }
        }
        Value::Array(a) => a.iter().for_each(|v| odd_hashes(v, out)),
        Value::Object(o) => o.values().for_each(|v| odd_hashes(v, out)),
        _ => {}
    }
}
/// cuts them down
pub fn fit(v: &mut Value) {
    match v {
        Value::String(t) => {
            if let Ok(mut b) = bs58::decode(&*t).with_check(None).into_vec() {
                if b.len() == 34 && b[1] == 1 {
                    b[33] &= 0x1f;
                    *t = bs58::encode(b).with_check().into_string();
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(fit),
        Value::Object(o) => o.values_mut().for_each(fit),
        _ => {}
    }
}
fn live(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut a, mut b) = (human::state_document(s, ctx), human::state_document(s, ctx));
    if !s.chance(1, 8) {
        fit(&mut a);
        fit(&mut b);
    }
    let mut odd = vec![];
    odd_hashes(&a, &mut odd);
    odd_hashes(&b, &mut odd);
    ctx.case(hash_of(&(a.to_string(), b.to_string())), odd.is_empty());
    let mut f: NaiveTransitionFrontier<ProtocolState, MerkleProofBerkeleyNet> = NaiveTransitionFrontier::new();
    let mut tops = vec![];
    for d in [&a, &b] {
        let doc = json!({"bestChain": [{"protocolState": d}]});
        let p = guard(|| ProtocolStateWithSparseMerkleLedger::try_from(&doc))?.map_err(|e| Fail(format!("a response is refused: {e}: {doc}")))?;
        tops.push(p.0.clone());
        match guard(|| now(f.add_block(p))) {
            // an answer of either kind: the windows of a response are the defaults
            Ok(r) => {
                let _ = r?;
            }
            Err(e) if !odd.is_empty() => {
                ctx.label("panics on a hash that is no field element");
                ctx.known("noncanonical-hash-panics", format!("adding a block whose hashes include {}, which is no field element: {}", odd[0], e.0.lines().next().unwrap_or("")));
                return Ok(());
            }
            Err(e) => fail!("{}: adding {doc}", e.0),
        }
        let top = f.get_best_chain().top().cloned();
        ensure!(top.is_some() && tops.iter().any(|t| Some(t) == top.as_ref()), "the tip is no block that was added: {doc}");
    }
    ctx.label(if odd.is_empty() { "field elements" } else { "other hashes, unused" });
    ctx.sample(|| a.to_string());
    Ok(())
}

fn malformed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut doc, _, _) = response(s, ctx);
    let what = spoil(s, &mut doc);
    ctx.case(hash_of(&doc.to_string()), true);
    let got = guard(|| ProtocolStateWithSparseMerkleLedger::try_from(&doc)).map_err(|f| Fail(format!("spoiled{what}: {}: {doc}", f.0)))?;
    // the state is read exactly when it is one alone, and every account has to be one
    let alone = guard(|| ProtocolState::from_graphql_json(&doc["bestChain"][0]["protocolState"]))?;
    let mut want = vec![];
    let mut sound = true;
    if let Some(m) = doc.as_object() {
        for (k, v) in m {
            if CompressedPubKey::from_address(k).is_ok() {
                match read_account(v) {
                    Some(x) => want.push(x),
                    None => sound = false,
                }
            }
        }
    }
    let want = sorted(want);
    match got {
        Ok(ProtocolStateWithSparseMerkleLedger(p, proofs)) => {
            ctx.label("read");
            ensure!(alone.is_ok(), "a response is read although its protocol state is not ({what}): {doc}");
            ensure!(sound, "a response is read although an account of it is not ({what}): {doc}");
            ensure!(alone.ok() == Some(p), "the protocol state is not the one of the response ({what}): {doc}");
            let got = seen(&proofs)?;
            ensure!(got == want, "the proofs have the roots and positions {got:?} instead of {want:?} ({what}): {doc}");
        }
        Err(e) => {
            ctx.label("refused");
            ensure!(alone.is_err() || !sound, "a response is refused although all of it is well-formed: {e} ({what}): {doc}");
        }
    }
    ctx.sample(|| format!("{what}: {doc}"));
    Ok(())
}
/// an account member, independently
fn read_account(v: &Value) -> Option<(Fp, usize)> {
    let fp = |v: &Value| -> Option<Fp> {
        let b: BigUint = v.as_str()?.parse().ok()?;
        Fp::from_repr(b.try_into().ok()?)
    };
    let path = v.get("merklePath")?.as_array()?;
    if path.is_empty() || path.len() > 60 {
        return None;
    }
    let mut h = fp(v.get("leafHash")?)?;
    let mut at = 0;
    for (k, n) in path.iter().enumerate() {
        let side = |name| match n.get(name) {
            None | Some(Value::Null) => Some(None),
            Some(x) => fp(x).map(Some),
        };
        let p = match (side("left")?, side("right")?) {
            (Some(x), None) => Pair(h, x),
            (None, Some(x)) => {
                at |= 1usize << k;
                Pair(x, h)
            }
            _ => return None,
        };
        h = create_kimchi::<Pair>(k as u32).hash(&p);
    }
    Some((h, (1 << path.len()) - 1 + at))
}
