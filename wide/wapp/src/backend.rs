//! C34: the GraphQL backends of the web node, Rust and JavaScript together, against servers that
//! answer what is asked of a document.
use crate::core::*;
use crate::frontier::{account, seen, sorted};
use crate::gen;
use crate::gql::{request, run, Val};
use crate::human;
use crate::net::{int, select, serve, Reply};
use crate::processor::js::{graphql_api_berkeley as berkeley_api, graphql_api_v1 as v1};
use crate::processor::{NonConsensusNetworkingOps, ProtocolStateWithSparseMerkleLedger, QueryBlockRequest};
use crate::fork::{replaces, Row};
use crate::{sign, web};
use mina_rs_base::protocol_state::ProtocolState;
use mina_rs_base::types::ExternalTransition;
use mina_serialization_types::json::ExternalTransitionJson;
use mina_serialization_types::v1::ExternalTransitionV1;
use proof_systems::mina_hasher::Fp;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tokio::sync::mpsc;
use wasm_bindgen::JsValue;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C34", name: "berkeley", quick: 24_000, thorough: 400_000, f: berkeley, rule: "a backend with 0-3 endpoints and 0-4 tracked accounts, set one or more times, polled or asked for a block; every endpoint answers, fails or sends something else, in turn; non-trivial: at least one endpoint" },
        Facet { prop: "C34", name: "mainnet", quick: 24_000, thorough: 400_000, f: mainnet, rule: "a list of 0-14 latest blocks, whose documents are there, fail at first, fail or are no blocks; polled, asked for a block, a list or a previous hash; non-trivial: at least one block or failure" },
        Facet { prop: "C34", name: "node", quick: 4_000, thorough: 60_000, f: node, rule: "settings of the running web node, some refused, and polls of it; non-trivial: at least one endpoint" },
    ]
}

const ENDPOINTS: [&str; 6] = ["http://localhost:3085/graphql", "http://10.0.0.1/graphql", "https://x.example/a?b=c", "http://[::1]:1/", "https://proxy.berkeley.minaexplorer.com/", "https://x.example/a?b=d"];

// ------------------------------------------------------------------ berkeley

#[derive(Clone, Debug, Hash)]
enum Try {
    Fail,
    Other(u16, String),
    Good,
}
/// a chain as a server sees it
struct World {
    doc: Value,
    state: Value,
    accounts: BTreeMap<String, Value>,
}
fn keys() -> &'static [String] {
    static K: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    K.get_or_init(|| (0..24).map(|i| sign::key(&mut Src::random(i)).public.into_address()).collect())
}
fn fitting(s: &mut Src, ctx: &mut Ctx) -> Value {
    let mut st = human::state_document(s, ctx);
    crate::frontier::fit(&mut st);
    st
}
fn chain(s: &mut Src, ctx: &mut Ctx, accounts: &BTreeMap<String, Value>) -> World {
    let state = fitting(s, ctx);
    chain_of(state, s, ctx, accounts)
}
fn chain_of(state: Value, s: &mut Src, ctx: &mut Ctx, accounts: &BTreeMap<String, Value>) -> World {
    let mut served = state.clone();
    let genesis = served["blockchainState"].as_object_mut().and_then(|o| o.remove("genesisLedgerHash")).unwrap_or_default();
    let mut best = vec![json!({"protocolState": served})];
    if s.chance(1, 4) {
        best.push(json!({"protocolState": fitting(s, ctx)}));
    }
    let doc = json!({"bestChain": best, "genesisBlock": {"protocolState": {"blockchainState": {"snarkedLedgerHash": genesis}}}});
    World { doc, state, accounts: accounts.clone() }
}
struct Server {
    url: String,
    tries: Vec<Try>,
    world: World,
    asked: RefCell<Vec<String>>,
}
impl Server {
    fn good_at(&self) -> Option<usize> {
        self.tries.iter().take(3).position(|t| matches!(t, Try::Good))
    }
}
fn server(s: &mut Src, ctx: &mut Ctx, url: &str, accounts: &BTreeMap<String, Value>) -> Server {
    let n = if s.bool() { 0 } else { 1 + s.below(3) };
    let mut tries: Vec<Try> = (0..n)
        .map(|_| match s.below(6) {
            0 | 1 => Try::Fail,
            2 => Try::Other(502, "<html>Bad Gateway</html>".into()),
            3 => Try::Other(200, "".into()),
            4 => Try::Other(400, json!({"errors": [{"message": "no"}], "data": null}).to_string()),
            _ => Try::Other(200, json!({"data": {"bestChain": [], "genesisBlock": {"protocolState": {"blockchainState": {"snarkedLedgerHash": "x"}}}}}).to_string()),
        })
        .collect();
    tries.push(Try::Good);
    Server { url: url.into(), tries, world: chain(s, ctx, accounts), asked: Default::default() }
}
/// what the servers make of a request, or what is wrong with it
fn answer(servers: &[Rc<Server>], tracked: &BTreeSet<String>, q: &Value) -> Result<Reply, String> {
    let url = q["url"].as_str().unwrap_or_default();
    let sv = servers.iter().find(|s| s.url == url).ok_or(format!("{url} is no endpoint"))?;
    if q["method"] != "POST" || !q["headers"]["content-type"].as_str().unwrap_or_default().starts_with("application/json") {
        return Err("the request is no POST of JSON".into());
    }
    let body = q["body"].as_str().unwrap_or_default();
    let op = request(body.as_bytes())?;
    if op.kind != "query" {
        return Err(format!("a {}", op.kind));
    }
    let mut asked = vec![];
    for f in op.sel.iter().filter(|f| f.name == "account") {
        match f.args.get("publicKey") {
            Some(Val::Str(k)) if f.args.len() == 1 => asked.push(k.clone()),
            a => return Err(format!("an account {a:?}")),
        }
    }
    asked.sort();
    if !asked.iter().eq(tracked) {
        return Err(format!("the accounts {asked:?} are asked for instead of {tracked:?}"));
    }
    let data = select(&op.sel, &sv.world.doc, &|f| match f.name.as_str() {
        "account" => Some(match f.args.get("publicKey") {
            Some(Val::Str(k)) => sv.world.accounts.get(k).cloned().unwrap_or_default(),
            _ => Value::Null,
        }),
        "bestChain" if f.args.len() == 1 && int(f.args.get("maxLength")).is_some_and(|n| n > 0) => Some(sv.world.doc["bestChain"].clone()),
        _ => None,
    })?;
    let mut n = sv.asked.borrow_mut();
    n.push(body.into());
    Ok(match sv.tries.get(n.len() - 1).unwrap_or(&Try::Good) {
        Try::Fail => Reply::Fail,
        Try::Other(s, t) => Reply::Body(*s, t.clone()),
        Try::Good => Reply::Body(200, json!({ "data": data }).to_string()),
    })
}
type Wrong = Rc<RefCell<Option<String>>>;
fn listen(servers: Vec<Rc<Server>>, tracked: BTreeSet<String>) -> Wrong {
    let wrong: Wrong = Default::default();
    let w = wrong.clone();
    serve(move |q| {
        answer(&servers, &tracked, q).unwrap_or_else(|e| {
            w.borrow_mut().get_or_insert(format!("{e}: {q}"));
            Reply::Fail
        })
    });
    wrong
}
type Want = (ProtocolState, Vec<(Fp, usize)>);
fn read(v: &Value) -> Result<Want, Fail> {
    let ProtocolStateWithSparseMerkleLedger(p, l) = guard(|| ProtocolStateWithSparseMerkleLedger::try_from(v))?.map_err(|e| Fail(format!("a block that is passed on is refused: {e}: {v}")))?;
    Ok((p, seen(&l)?))
}
fn world_accounts(s: &mut Src, n: usize) -> (BTreeMap<String, Value>, BTreeMap<String, (Fp, usize)>) {
    let (mut docs, mut roots) = (BTreeMap::new(), BTreeMap::new());
    for _ in 0..n {
        let k = s.pick(keys()).clone();
        let (mut v, h, at) = account(s, 4);
        v["balance"] = json!({"total": "1"});
        docs.insert(k.clone(), v);
        roots.insert(k, (h, at));
    }
    (docs, roots)
}
/// some of a list, possibly some of it twice
fn some(s: &mut Src, of: &[String], most: u64) -> Vec<String> {
    if of.is_empty() {
        return vec![];
    }
    (0..s.below(most + 1)).map(|_| s.pick(of).clone()).collect()
}

fn berkeley(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usz(6);
    let (accounts, roots) = world_accounts(s, n);
    let all: Vec<String> = accounts.keys().cloned().collect();
    let urls: Vec<String> = ENDPOINTS.iter().map(|u| u.to_string()).collect();
    let mut b = berkeley_api::NonConsensusGraphQLBerkeleyBackend::new();
    let (mut list, mut track) = (vec![], vec![]);
    let mut set = false;
    for _ in 0..1 + s.below(2) {
        if s.chance(7, 8) {
            list = some(s, &urls, 3);
            b.set_api_list(list.clone().into_iter());
        }
        if s.chance(7, 8) {
            track = some(s, &all, 4);
            b.set_tracking_accounts(track.clone().into_iter());
        }
        set = true;
    }
    let _ = set;
    let wired = !s.chance(1, 16);
    let (tx, mut rx) = mpsc::channel(64);
    if wired {
        b.set_block_responder(tx);
    }
    let ends: BTreeSet<String> = list.iter().cloned().collect();
    let tracked: BTreeSet<String> = track.iter().cloned().collect();
    let servers: Vec<Rc<Server>> = urls.iter().map(|u| Rc::new(if ends.contains(u) { server(s, ctx, u, &accounts) } else { Server { url: u.clone(), tries: vec![], world: World { doc: Value::Null, state: Value::Null, accounts: BTreeMap::new() }, asked: Default::default() } })).collect();
    let polls = s.chance(2, 3);
    wasm_bindgen::set_wait(s.below(3) as u32);
    let wrong = listen(servers.clone(), tracked.clone());
    let log = format!("endpoints {list:?}, accounts {track:?}, answers {:?}", servers.iter().filter(|v| ends.contains(&v.url)).map(|v| &v.tries).collect::<Vec<_>>());
    ctx.case(hash_of(&(&log, polls, wired)), !ends.is_empty());
    let got = guard(|| {
        run(async {
            if polls {
                b.poll_latest_once().await
            } else {
                b.query_block(&QueryBlockRequest { height: 1, state_hash: "x".into() }).await
            }
        })
    })
    .map_err(|e| Fail(format!("{log}: {}", e.0)))?;
    let Some(got) = got else { fail!("{log}: polling does not come to an end") };
    if let Some(w) = wrong.borrow_mut().take() {
        fail!("{log}: {w}")
    }
    let mut want: Vec<(String, Want)> = vec![];
    let mut failing = false;
    for v in &servers {
        let n = v.asked.borrow().len();
        let should = if !wired || !ends.contains(&v.url) { 0 } else { v.good_at().map_or(3, |k| k + 1) };
        ensure!(n == should, "{log}: {} is asked {n} times instead of {should}", v.url);
        if should == 0 {
            continue;
        }
        match v.good_at() {
            None => failing = true,
            Some(_) => {
                let mut r: Vec<(Fp, usize)> = tracked.iter().map(|k| roots[k]).collect();
                r = sorted(r);
                let p = <ProtocolState as mina_rs_base::from_graphql_json::FromGraphQLJson>::from_graphql_json(&v.world.state).map_err(|e| Fail(format!("the state {} is refused: {e}", v.world.state)))?;
                want.push((v.url.clone(), (p, r)));
            }
        }
    }
    ensure!(got.is_err() == failing, "{log}: the result is {got:?}");
    let mut blocks = vec![];
    while let Ok(v) = rx.try_recv() {
        blocks.push(v);
    }
    ensure!(blocks.len() == want.len(), "{log}: {} blocks are passed on instead of {}", blocks.len(), want.len());
    for v in &blocks {
        let b = read(v).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
        let Some(i) = want.iter().position(|w| w.1 == b) else {
            fail!("{log}: the block that is passed on is that of no endpoint: its accounts are {:?} instead of {:?}; {v}", b.1, want.iter().map(|w| &w.1 .1).collect::<Vec<_>>())
        };
        want.remove(i);
    }
    ctx.label(if failing { "an endpoint fails" } else { "all answer" });
    ctx.sample(|| log.clone());
    Ok(())
}

// ------------------------------------------------------------------ v1

/// blocks as the storage has them
pub fn blocks() -> &'static [Value] {
    static B: std::sync::OnceLock<Vec<Value>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        (0..12)
            .map(|i| {
                let mut s = Src::random(i);
                let w: ExternalTransitionV1 = gen::value_with(&mut s, 1, true, false);
                let j: ExternalTransitionJson = ExternalTransition::from(w).into();
                serde_json::to_value(&j).unwrap()
            })
            .collect()
    })
}
fn normal(v: &Value) -> Option<String> {
    serde_json::from_value::<ExternalTransitionJson>(v.clone()).ok().map(|b| serde_json::to_string(&b).unwrap())
}
struct File {
    height: u64,
    hash: String,
    tries: Vec<Reply>,
    /// the block, when an answer to one of the first three tries has one
    block: Option<Value>,
    /// how many tries there should be
    should: usize,
    asked: RefCell<usize>,
}
/// the answers of a server: a number of bad ones, then one that may be good
fn tries(s: &mut Src, good: String) -> (Vec<Reply>, usize) {
    let n = if s.chance(2, 3) { 0 } else { 1 + s.usz(3) };
    let mut t: Vec<Reply> = (0..n)
        .map(|_| match s.below(3) {
            0 => Reply::Fail,
            1 => Reply::Body(404, "<?xml version='1.0'?><Error><Code>NoSuchKey</Code></Error>".into()),
            _ => Reply::Body(200, good[..good.len() / 2].trim_end_matches(|c: char| !c.is_ascii()).to_string() + "\u{1}"),
        })
        .collect();
    t.push(Reply::Body(200, good));
    (t, n)
}
fn file(s: &mut Src, i: usize) -> File {
    let mut v = blocks()[s.usz(blocks().len())].clone();
    let id = s.below(1 << 40);
    v["protocol_state"]["body"]["consensus_state"]["blockchain_length"] = json!((id & 0xffff_ffff).to_string());
    let block = !s.chance(1, 8);
    if !block {
        match s.below(3) {
            0 => v = json!({}),
            1 => {
                v.as_object_mut().unwrap().remove("staged_ledger_diff");
            }
            _ => v["protocol_state"]["body"]["consensus_state"]["blockchain_length"] = json!("-1"),
        }
    } else if s.bool() {
        v["scheduled_time"] = json!("1650000000000");
    }
    let (tries, bad) = tries(s, v.to_string());
    let hash = if s.chance(1, 4) { format!("3N{}", "x".repeat(s.usz(9))) } else { format!("3N{:x}", id) };
    let bits = s.range(1, 31);
    File { height: s.below(1 << bits), hash: format!("{hash}{i}"), block: (block && bad < 3).then_some(v), tries, should: (bad + 1).min(3), asked: RefCell::new(0) }
}
struct Explorer {
    files: Vec<File>,
    /// the latest, latest first
    latest: Vec<usize>,
    list_tries: Vec<Reply>,
    list_bad: usize,
    asked: RefCell<Vec<u64>>,
}
impl Explorer {
    fn answer(&self, q: &Value) -> Result<Reply, String> {
        let url = q["url"].as_str().unwrap_or_default();
        if let Some(f) = self.files.iter().find(|f| url == format!("https://storage.googleapis.com/mina_network_block_data/mainnet-{}-{}.json", f.height, f.hash)) {
            if q["method"] != "GET" {
                return Err("a block is not asked for with GET".into());
            }
            let mut n = f.asked.borrow_mut();
            *n += 1;
            return Ok(f.tries.get(*n - 1).unwrap_or(f.tries.last().unwrap()).clone());
        }
        if url.trim_end_matches('/') != "https://graphql.minaexplorer.com" || q["method"] != "POST" || !q["headers"]["content-type"].as_str().unwrap_or_default().starts_with("application/json") {
            return Err(format!("a request to {url}"));
        }
        let op = request(q["body"].as_str().unwrap_or_default().as_bytes())?;
        if op.kind != "query" || op.sel.len() != 1 || op.sel[0].name != "blocks" {
            return Err("the request is not the query of blocks".into());
        }
        let f = &op.sel[0];
        let Some(limit) = int(f.args.get("limit")) else { return Err(format!("the limit {:?}", f.args.get("limit"))) };
        if f.args.len() != 2 || f.args.get("sortBy") != Some(&Val::Name("RECEIVEDTIME_DESC".into())) {
            return Err(format!("the arguments {:?}", f.args));
        }
        let list: Vec<Value> = self.latest.iter().take(limit as usize).map(|i| json!({"blockHeight": self.files[*i].height, "stateHash": self.files[*i].hash, "canonical": true})).collect();
        let data = json!({"data": {f.alias.clone(): select(&f.sel, &Value::Array(list), &|_| None)?}});
        let mut n = self.asked.borrow_mut();
        n.push(limit);
        Ok(if n.len() > self.list_bad { Reply::Body(200, data.to_string()) } else { self.list_tries[n.len() - 1].clone() })
    }
}

fn mainnet(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usz(15);
    let files: Vec<File> = (0..n + 1).map(|i| file(s, i)).collect();
    let (list_tries, list_bad) = tries(s, "{\"data\": 1}".into());
    let x = Rc::new(Explorer { latest: (0..n).collect(), files, list_tries, list_bad, asked: Default::default() });
    let wrong: Wrong = Default::default();
    let (w, y) = (wrong.clone(), x.clone());
    serve(move |q| {
        y.answer(q).unwrap_or_else(|e| {
            w.borrow_mut().get_or_insert(format!("{e}: {q}"));
            Reply::Fail
        })
    });
    wasm_bindgen::set_wait(s.below(3) as u32);
    let what = *s.pick(&["poll", "query", "fetch", "list", "previous", "idle"]);
    let limit = s.below(20);
    let log = format!("{what}: {:?}, list fails {list_bad} times, limit {limit}", x.files.iter().map(|f| (f.height, &f.hash, f.should, f.block.is_some())).collect::<Vec<_>>());
    let bad = |e: Fail| Fail(format!("{log}: {}", e.0));
    ctx.case(hash_of(&(&log, x.files.iter().map(|f| &f.tries).collect::<Vec<_>>())), n > 0 || list_bad > 0);
    ctx.label(what);
    let mut b = v1::NonConsensusGraphQLV1Backend::new();
    let (tx, mut rx) = mpsc::channel(64);
    if what != "idle" {
        b.set_block_responder(tx);
    }
    let f = &x.files[n];
    let q = QueryBlockRequest { height: f.height as usize, state_hash: f.hash.clone() };
    let mut passed: Vec<usize> = vec![];
    let (mut list_should, mut ok) = (0, true);
    let mut touched = vec![];
    let end = || Fail(format!("{log}: it does not come to an end"));
    match what {
        "poll" | "idle" => {
            let r = guard(|| run(b.poll_latest_once())).map_err(bad)?.ok_or_else(end)?;
            if what == "poll" {
                list_should = (list_bad + 1).min(3);
                ok = list_bad < 3;
                if ok {
                    touched = (0..n.min(10)).collect();
                    passed = touched.iter().copied().filter(|i| x.files[*i].block.is_some()).collect();
                }
            }
            ensure!(r.is_ok() == ok, "{log}: the result is {r:?}");
        }
        "query" => {
            let r = guard(|| run(b.query_block(&q))).map_err(bad)?.ok_or_else(end)?;
            touched = vec![n];
            ok = f.block.is_some();
            if ok {
                passed = vec![n];
            }
            ensure!(r.is_ok() == ok, "{log}: the result is {r:?}");
        }
        "fetch" => {
            let r = guard(|| run(v1::fetch_block(f.height as usize, &f.hash))).map_err(bad)?.ok_or_else(end)?;
            touched = vec![n];
            match (&f.block, r) {
                (Some(v), Ok(r)) => ensure!(Some(serde_json::to_string(&r).unwrap()) == normal(v), "{log}: the block is not the one that is served"),
                (None, Err(_)) => {}
                (_, r) => fail!("{log}: the result is {:?} for {:?}", r.map(|r| serde_json::to_string(&r).unwrap()), f.block.as_ref().map(|b| b.to_string())),
            }
        }
        "previous" => {
            let r = crate::req::call("mina-rs-wasm-mvp::fetch_block_previous_state_hash", vec![JsValue::from_f64(f.height as f64), f.hash.as_str().into()]).map_err(bad)?;
            touched = vec![n];
            match (&f.block, r) {
                (Some(v), Ok(r)) => ensure!(r.as_string().as_deref() == v["protocol_state"]["previous_state_hash"].as_str(), "{log}: the hash is {r:?} instead of {}", v["protocol_state"]["previous_state_hash"]),
                (None, Err(_)) => {}
                (_, r) => fail!("{log}: the result is {r:?}"),
            }
        }
        _ => {
            let r = guard(|| run(v1::query_latest_blocks(limit as usize))).map_err(bad)?.ok_or_else(end)?;
            list_should = (list_bad + 1).min(3);
            match r {
                Ok(r) => {
                    ensure!(list_bad < 3, "{log}: the list is {r:?}");
                    let want: Vec<(usize, &str)> = x.files[..n].iter().take(limit as usize).map(|f| (f.height as usize, f.hash.as_str())).collect();
                    let got: Vec<(usize, &str)> = r.iter().map(|b| (b.block_height, b.state_hash.as_str())).collect();
                    ensure!(got == want, "{log}: the list is {got:?}");
                }
                Err(e) => ensure!(list_bad >= 3, "{log}: the list fails: {e}"),
            }
        }
    }
    if let Some(w) = wrong.borrow_mut().take() {
        fail!("{log}: {w}")
    }
    let lists = x.asked.borrow();
    ensure!(lists.len() == list_should, "{log}: the list is asked for {} times instead of {list_should}", lists.len());
    let asked_limit = if what == "list" { limit } else { 10 };
    ensure!(lists.iter().all(|l| *l == asked_limit), "{log}: {lists:?} blocks are asked for");
    for (i, f) in x.files.iter().enumerate() {
        let (n, should) = (*f.asked.borrow(), if touched.contains(&i) { f.should } else { 0 });
        ensure!(n == should, "{log}: the block {}-{} is asked for {n} times instead of {should}", f.height, f.hash);
    }
    let mut got = vec![];
    while let Ok(v) = rx.try_recv() {
        got.push(serde_json::to_string(&v).unwrap());
    }
    let want: Vec<String> = passed.iter().map(|i| normal(x.files[*i].block.as_ref().unwrap()).unwrap()).collect();
    ensure!(got == want, "{log}: {} blocks are passed on instead of {}, or others", got.len(), want.len());
    ctx.sample(|| log.clone());
    Ok(())
}

// ------------------------------------------------------------------ the running node

fn node(s: &mut Src, ctx: &mut Ctx) -> Res {
    // there is one node
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let n = s.usz(6);
    let (accounts, _) = world_accounts(s, n);
    let all: Vec<String> = accounts.keys().cloned().collect();
    let urls: Vec<String> = ENDPOINTS.iter().map(|u| u.to_string()).collect();
    let mut log = vec![];
    let call = |n: &str, a: Vec<JsValue>| crate::req::call(&format!("mina-berkeley::{n}"), a);
    let list = |v: &[String], odd: Option<JsValue>, at: usize| {
        let mut v: Vec<JsValue> = v.iter().map(|t| t.as_str().into()).collect();
        if let Some(o) = odd {
            v.insert(at.min(v.len()), o);
        }
        let a = js_sys::Array::new();
        v.iter().for_each(|v| {
            a.push(v);
        });
        JsValue::from(a)
    };
    let mut cur: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for k in ["setApiList", "setTrackingAccounts"] {
        for round in 0..1 + s.below(2) {
            let v = if k == "setApiList" { some(s, &urls, 3) } else { some(s, &all, 4) };
            let odd = if round > 0 && s.bool() { Some(s.pick(&[JsValue::UNDEFINED, JsValue::NULL, JsValue::from_f64(1.0), JsValue::from_bool(true), JsValue::object(vec![])]).clone()) } else { None };
            let at = s.usz(4);
            log.push(format!("{k} {v:?} with {odd:?}"));
            let r = call(k, vec![list(&v, odd.clone(), at)]).map_err(|e| Fail(format!("{log:?}: {}", e.0)))?;
            ensure!(r.is_err() == odd.is_some(), "{log:?}: the result is {r:?}");
            ensure!(r.as_ref().map_or(true, |v| v.as_bool() == Some(true)), "{log:?}: the result is {r:?}");
            if odd.is_none() {
                cur.insert(k, v);
            }
        }
    }
    let ends: BTreeSet<String> = cur["setApiList"].iter().cloned().collect();
    let tracked: BTreeSet<String> = cur["setTrackingAccounts"].iter().cloned().collect();
    let servers: Vec<Rc<Server>> = ends.iter().map(|u| Rc::new(server(s, ctx, u, &accounts))).collect();
    ctx.case(hash_of(&log), !ends.is_empty());
    let wrong = listen(servers.clone(), tracked);
    wasm_bindgen::set_wait(s.below(3) as u32);
    let (poll, proc) = (crate::req::export("mina-berkeley::pollLatestBlocks")?, crate::req::export("mina-berkeley::runProcessor")?);
    // the node's loop goes on until the poll is through
    let got = guard(|| {
        run(async {
            let (mut p, mut l) = (poll(vec![]), proc(vec![]));
            std::future::poll_fn(|cx| {
                let _ = l.as_mut().poll(cx);
                let r = p.as_mut().poll(cx);
                let _ = l.as_mut().poll(cx);
                r
            })
            .await
        })
    })
    .map_err(|e| Fail(format!("{log:?}: {}", e.0)))?;
    let Some(got) = got else { fail!("{log:?}: a poll does not come to an end") };
    if let Some(w) = wrong.borrow_mut().take() {
        fail!("{log:?}: {w}")
    }
    for v in &servers {
        let (n, should) = (v.asked.borrow().len(), v.good_at().map_or(3, |k| k + 1));
        ensure!(n == should, "{log:?}: {} is asked {n} times instead of {should}", v.url);
    }
    let failing = servers.iter().any(|v| v.good_at().is_none());
    ensure!(got.is_err() == failing, "{log:?}: the result is {got:?}");
    for k in ["getBestChainStateHash", "getSparseMerkleLedger", "getBestChainState"] {
        let v = call(k, vec![]).map_err(|e| Fail(format!("{log:?}: {}", e.0)))?;
        ensure!(v.is_ok(), "{log:?}: {k} is {v:?}");
        if servers.iter().any(|v| v.good_at().is_some()) {
            ensure!(!v.as_ref().unwrap().is_undefined(), "{log:?}: after a block there is no {k}");
        }
    }
    ctx.label(if failing { "an endpoint fails" } else { "all answer" });
    ctx.sample(|| format!("{log:?}"));
    Ok(())
}

// ------------------------------------------------------------------ the running node, a process of its own

/// a state near another one
fn near(s: &mut Src, of: &Value) -> Value {
    let mut v = of.clone();
    let c = &mut v["consensusState"];
    let (here, next) = (c["stakingEpochData"]["lockCheckpoint"].clone(), c["nextEpochData"]["lockCheckpoint"].clone());
    let add = |s: &mut Src, c: &mut Value, k: &str, most: u64| {
        let n = c[k].as_str().and_then(|t| t.parse::<u64>().ok()).unwrap_or(0);
        let d = s.below(2 * most + 1);
        c[k] = json!((n + d).saturating_sub(most).min(u32::MAX as u64).to_string());
    };
    if s.bool() {
        add(s, c, "blockHeight", 2);
        c["blockchainLength"] = c["blockHeight"].clone();
    }
    if s.chance(1, 3) {
        add(s, c, "epochCount", 1);
    }
    if s.bool() {
        add(s, c, "slot", 3000);
    }
    if s.chance(1, 3) {
        c["minWindowDensity"] = json!(s.below(78).to_string());
    }
    for k in ["stakingEpochData", "nextEpochData"] {
        if s.chance(1, 4) {
            c[k]["lockCheckpoint"] = if s.bool() { here.clone() } else { next.clone() };
        }
    }
    v
}
fn row(at: usize, p: &ProtocolState, locks: &mut Vec<String>) -> Row {
    let c = &p.body.consensus_state;
    let mut lock = |h: String| match locks.iter().position(|l| *l == h) {
        Some(i) => i as u8,
        None => {
            locks.push(h);
            locks.len() as u8 - 1
        }
    };
    Row {
        len: c.blockchain_length.0,
        epoch: c.epoch_count.0,
        min: c.min_window_density.0,
        win: c.sub_window_densities.iter().map(|l| l.0).collect(),
        vrf: c.last_vrf_output.0.clone(),
        slot: c.curr_global_slot.slot_number.0,
        spe: c.curr_global_slot.slots_per_epoch.0,
        stake_lock: lock(c.staking_epoch_data.lock_checkpoint.to_string()),
        next_lock: lock(c.next_epoch_data.lock_checkpoint.to_string()),
        hash: [at as u64; 4],
        noise: [0; 4],
    }
}
/// every order of a list
fn orders(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    (0..v.len())
        .flat_map(|i| {
            let mut rest = v.to_vec();
            let x = rest.remove(i);
            orders(&rest).into_iter().map(move |mut o| {
                o.insert(0, x);
                o
            })
        })
        .collect()
}
pub fn whole(s: &mut Src, labels: &mut Vec<&'static str>, log: &mut Vec<String>) -> Result<usize, Fail> {
    let mut ctx = Ctx::default();
    let n = s.usz(6);
    let (accounts, _) = world_accounts(s, n);
    let all: Vec<String> = accounts.keys().cloned().collect();
    let urls: Vec<String> = ENDPOINTS.iter().map(|u| u.to_string()).collect();
    let list = |v: &[String]| {
        let a = js_sys::Array::new();
        v.iter().for_each(|v| {
            a.push(&v.as_str().into());
        });
        JsValue::from(a)
    };
    let call = |n: &str, a: Vec<JsValue>| -> Result<JsValue, Fail> { crate::req::call(&format!("mina-berkeley::{n}"), a)?.map_err(|e| Fail(format!("{n} fails: {e:?}"))) };
    // the states that the endpoints come to serve
    let mut docs: Vec<Value> = vec![fitting(s, &mut ctx)];
    for _ in 0..s.below(7) {
        let k = s.usz(docs.len());
        let d = if s.chance(1, 8) { fitting(s, &mut ctx) } else { near(s, &docs[k]) };
        docs.push(d);
    }
    let mut locks = vec![];
    let mut states: Vec<(ProtocolState, Row)> = vec![];
    for d in &docs {
        let p = <ProtocolState as mina_rs_base::from_graphql_json::FromGraphQLJson>::from_graphql_json(d).map_err(|e| Fail(format!("the state {d} is refused: {e}")))?;
        let r = row(states.len(), &p, &mut locks);
        states.push((p, r));
    }
    let hash = |r: &Row| states.iter().find(|x| x.1 == *r).unwrap().0.state_hash_fp();
    let mut node: web::Fut = crate::req::export("mina-berkeley::runProcessor")?(vec![]);
    let (mut ends, mut tracked): (BTreeSet<String>, BTreeSet<String>) = Default::default();
    let mut tip: Option<usize> = None;
    // the numbers of accounts that came with a state of this hash since it is the tip
    let mut came: BTreeSet<usize> = BTreeSet::new();
    let mut good = 0;
    for round in 0..1 + s.below(5) {
        if round == 0 || s.chance(1, 3) {
            let v = some(s, &urls, 3);
            call("setApiList", vec![list(&v)])?;
            ends = v.into_iter().collect();
        }
        if round == 0 || s.chance(1, 3) {
            let v = some(s, &all, 4);
            call("setTrackingAccounts", vec![list(&v)])?;
            tracked = v.into_iter().collect();
        }
        let (mut served, mut answers) = (vec![], 0);
        let servers: Vec<Rc<Server>> = ends
            .iter()
            .map(|u| {
                let mut v = server(s, &mut ctx, u, &accounts);
                let k = s.usz(docs.len());
                let mut d = docs[k].clone();
                let broken = s.chance(1, 10);
                if broken {
                    d["consensusState"]["blockHeight"] = json!(*s.pick(&["", "x", "-1", "4294967296"]));
                }
                v.world = chain_of(d, s, &mut ctx, &accounts);
                if v.good_at().is_some() {
                    answers += 1;
                    if broken {
                        labels.push("not a block");
                    } else {
                        served.push(k);
                    }
                }
                Rc::new(v)
            })
            .collect();
        log.push(format!("{} endpoints, {} accounts, states {served:?}, {} broken", ends.len(), tracked.len(), answers - served.len()));
        good += served.len();
        let wrong = listen(servers.clone(), tracked.clone());
        wasm_bindgen::set_wait(s.below(3) as u32);
        let mut p: web::Fut = crate::req::export("mina-berkeley::pollLatestBlocks")?(vec![]);
        let Some(got) = web::drive(&mut p, &mut node) else { fail!("a poll does not come to an end") };
        if let Some(w) = wrong.borrow_mut().take() {
            fail!("{w}")
        }
        ensure!(got.is_ok() == (answers == ends.len()), "the result of the poll is {got:?}");
        // the endpoints answer in any order
        let mut ways: Vec<(Option<usize>, BTreeSet<usize>)> = vec![];
        for o in orders(&served) {
            let (mut t, mut n) = (tip, came.clone());
            for k in o {
                let new = match t {
                    None => true,
                    Some(t) => match replaces(&states[t].1, &states[k].1, &hash) {
                        Ok((r, _)) => r,
                        Err(_) => false,
                    },
                };
                let same = t.map_or(false, |t| states[t].0 == states[k].0);
                if new {
                    t = Some(k);
                }
                if new && !same {
                    n.clear();
                }
                if new || same {
                    n.insert(tracked.len());
                }
            }
            ways.push((t, n));
        }
        let h = call("getBestChainStateHash", vec![])?.as_string();
        let l = js_sys::Array::from(call("getSparseMerkleLedger", vec![])?).into_iter().count();
        let fits = |t: &Option<usize>| match (t, &h) {
            (None, None) => true,
            // as the node prints field elements, or in base58
            (Some(t), Some(h)) => *h == states[*t].0.state_hash_fp().to_string() || *h == states[*t].0.state_hash().to_string(),
            _ => false,
        };
        ways.retain(|w| fits(&w.0));
        ensure!(!ways.is_empty(), "after {log:?} the best chain has the state hash {h:?}, the tip was {tip:?} of {:?}", states.iter().map(|x| (&x.1, x.0.state_hash_fp().to_string())).collect::<Vec<_>>());
        labels.push(if ways[0].0 == tip { "kept" } else if tip.is_none() { "the first block" } else { "replaced" });
        tip = ways[0].0;
        came = ways.iter().flat_map(|w| w.1.clone()).collect();
        ensure!(if tip.is_none() { l == 0 } else { came.contains(&l) }, "after {log:?} the best chain has {l} accounts instead of {came:?}");
        let v = call("getBestChainState", vec![])?;
        ensure!(v.is_undefined() == tip.is_none(), "after {log:?} the state of the best chain is {v:?}");
    }
    Ok(good)
}
