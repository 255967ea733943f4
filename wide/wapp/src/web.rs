//! C38: the web node as a whole: rounds of polls of an explorer, and the best chain that the node's
//! exports show. The node is one per process, so a case is a process of its own.
use crate::core::*;
use crate::fork::{replaces, state, Row};
use crate::{frontier, gen, sign};
use mina_rs_base::types::*;
use mina_serialization_types::json::{ExternalTransitionJson, ProtocolStateJson};
use mina_serialization_types::v1::ExternalTransitionV1;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use wasm_bindgen::JsValue;

pub fn facets() -> Vec<Facet> {
    vec![Facet { prop: "C38", name: "berkeley", quick: 1_200, thorough: 60_000, f: berkeley, rule: "1-5 polls of 0-3 endpoints that serve the same or near states, or no block, with 0-4 tracked accounts, where endpoints, accounts and what is served change between polls; non-trivial: at least two blocks that come" },
        Facet { prop: "C38", name: "mainnet", quick: 3_000, thorough: 300_000, f: mainnet, rule: "1-3 polls of an explorer that lists 0-4 blocks each, near each other, some again, some that cannot be fetched, are malformed or have a command that does not verify; non-trivial: at least two blocks that verify" }
    ]
}

const SIZE: usize = 24_000;
fn mainnet(s: &mut Src, ctx: &mut Ctx) -> Res {
    child(s, ctx, "web-node")
}
fn berkeley(s: &mut Src, ctx: &mut Ctx) -> Res {
    child(s, ctx, "web-node-berkeley")
}
fn child(s: &mut Src, ctx: &mut Ctx, kind: &str) -> Res {
    let tape = s.bytes(SIZE);
    let mut c = Command::new(std::env::current_exe().unwrap()).arg(kind).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("a process");
    {
        use std::io::Write;
        let _ = c.stdin.take().unwrap().write_all(&tape);
    }
    let out = c.wait_with_output().expect("a process");
    let t = String::from_utf8_lossy(&out.stdout);
    let v: Value = match serde_json::from_str(t.trim()) {
        Ok(v) => v,
        Err(_) => fail!("the node ends with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>()),
    };
    ctx.case(v["hash"].as_u64().unwrap_or(0), v["good"].as_u64().unwrap_or(0) >= 2);
    for l in v["labels"].as_array().into_iter().flatten() {
        for k in LABELS {
            if l == k {
                ctx.label(k);
            }
        }
    }
    if let Some(m) = v["failure"].as_str() {
        fail!("{m}");
    }
    ctx.sample(|| v["log"].to_string().chars().take(700).collect());
    Ok(())
}
const LABELS: [&str; 10] = ["not a block", "the first block", "same in JSON", "another block in JSON", "replaced", "kept", "no choice possible", "does not verify", "not fetched", "no block at all"];

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
pub type Fut = Pin<Box<dyn Future<Output = Result<JsValue, JsValue>>>>;
/// polls both until the first is through and the second waits
pub fn drive(p: &mut Fut, l: &mut Fut) -> Option<Result<JsValue, JsValue>> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut done = None;
    for _ in 0..1_000_000 {
        if !flag.0.swap(false, Ordering::SeqCst) {
            return done;
        }
        if done.is_none() {
            if let Poll::Ready(r) = p.as_mut().poll(&mut cx) {
                done = Some(r);
                flag.0.store(true, Ordering::SeqCst);
            }
        }
        let _ = l.as_mut().poll(&mut cx);
    }
    None
}

/// The process of a case: a tape comes in, a report goes out.
pub fn process(berkeley: bool) {
    let mut tape = vec![];
    use std::io::Read;
    let _ = std::io::stdin().read_to_end(&mut tape);
    let mut s = Src::replay(tape);
    let mut r = Report { labels: vec![], log: vec![], good: 0 };
    let got = guard(|| {
        if !berkeley {
            return run(&mut s, &mut r);
        }
        r.good = crate::backend::whole(&mut s, &mut r.labels, &mut r.log)?;
        Ok(())
    }).and_then(|x| x);
    println!("{}", json!({"hash": hash_of(&r.log), "good": r.good, "labels": r.labels, "log": r.log, "failure": got.err().map(|e| format!("{}: {:?}", e.0, r.log))}));
}
struct Report {
    labels: Vec<&'static str>,
    log: Vec<String>,
    good: usize,
}
fn mk(r: &Row) -> ProtocolStateLegacy {
    let mut p = ProtocolStateLegacy::default();
    p.body.consensus_state = state(r);
    p
}
fn run(s: &mut Src, rep: &mut Report) -> Res {
    let rounds = 1 + s.below(3);
    let n = if s.chance(1, 12) { 0 } else { 1 + s.below(7) };
    // the polls, and which blocks they find
    let plan: Vec<Vec<(bool, usize)>> = (0..rounds)
        .map(|_| {
            let m = if s.chance(1, 10) { 0 } else { 1 + s.below(5) };
            (0..m).map(|_| (s.chance(2, 3), s.usz(1 << 16))).collect()
        })
        .collect();
    let fates: Vec<(u64, bool, u64)> = (0..n).map(|_| (s.below(10), !s.chance(1, 6), if s.chance(1, 4) { s.below(4) } else { 99 })).collect();
    let wait = s.below(3) as u32;
    let template = s.below(1 << 16);
    let mut rows = frontier::history(s, n);
    // JSON holds no bytes beyond ASCII
    for r in &mut rows {
        r.vrf.iter_mut().for_each(|b| *b &= 0x7f);
    }
    let hash = |r: &Row| mk(r).state_hash_fp();
    let w: ExternalTransitionV1 = gen::value_with(&mut Src::random(template), 1, true, false);
    let template: ExternalTransition = w.into();
    // the blocks, as the storage has them, and whether they are taken
    let mut blocks: Vec<(String, bool, String)> = vec![];
    for (r, (fate, main, broken_at)) in rows.iter().zip(fates) {
        let mut v = Value::Null;
        let (mut same, mut shape) = (false, vec![]);
        for _ in 0..4 {
            let (two, one, sh) = sign::diffs(s, main, broken_at);
            shape = sh;
            let mut b = template.clone();
            b.staged_ledger_diff = sign::staged(&two, &one);
            b.protocol_state = mk(r);
            let j: ExternalTransitionJson = b.clone().into();
            // JSON holds no bytes beyond ASCII; a block that is another one without them is not served
            v = serde_json::from_str(&serde_json::to_string(&j).unwrap().replace('\u{fffd}', "~")).unwrap();
            let back: Option<ExternalTransition> = serde_json::from_str::<ExternalTransitionJson>(&v.to_string()).ok().map(Into::into);
            same = back.map_or(false, |x| x.protocol_state == b.protocol_state && x.staged_ledger_diff == b.staged_ledger_diff);
            if same {
                break;
            }
        }
        let good = match main {
            true => !shape.iter().any(|x| x.0),
            false => shape.is_empty(),
        };
        rep.labels.push(if same { "same in JSON" } else { "another block in JSON" });
        let fate = if same { fate } else { 1 };
        // a command broken by signing it for the other network is one for this
        let unclear = !main && shape.len() == 1 && shape[0].0;
        let (t, what) = match if unclear { 1 } else { fate } {
            9 => (String::new(), "not fetched"),
            1 => {
                let mut v = v;
                v.as_object_mut().unwrap().remove("protocol_state");
                (v.to_string(), "malformed")
            }
            _ => (v.to_string(), if good { "verifies" } else { "does not verify" }),
        };
        rep.good += (what == "verifies") as usize;
        blocks.push((t, what == "verifies", format!("{} {what}", frontier::brief(std::slice::from_ref(r)))));
        if what == "does not verify" {
            rep.labels.push("does not verify");
        }
        if what == "not fetched" {
            rep.labels.push("not fetched");
        }
    }
    let lists: Rc<RefCell<Value>> = Rc::new(RefCell::new(json!([])));
    let (l, texts) = (lists.clone(), blocks.iter().enumerate().map(|(i, b)| ((i as f64 + 7.0, format!("3N{i}")), b.0.clone())).collect::<Vec<_>>());
    wasm_bindgen::provide_modules(move |_, name, args| match name {
        "query_latest_blocks_json_str" => Ok(l.borrow().to_string().as_str().into()),
        "fetch_block_json_str" => match texts.iter().find(|t| Some(t.0 .0) == args[0].as_f64() && Some(&t.0 .1) == args[1].as_string().as_ref()) {
            Some(t) if !t.1.is_empty() => Ok(t.1.as_str().into()),
            _ => Err("not found".into()),
        },
        _ => Err("no such function".into()),
    });
    wasm_bindgen::set_wait(wait);
    let get = |n: &str| -> Result<Option<String>, Fail> {
        match crate::req::call(&format!("mina-rs-wasm-mvp::{n}"), vec![])? {
            Ok(v) => Ok(v.as_string()),
            Err(e) => fail!("{n} fails: {e:?}"),
        }
    };
    let mut node: Fut = crate::req::export("mina-rs-wasm-mvp::run_processor")?(vec![]);
    let mut tip: Option<usize> = None;
    for (k, p) in plan.iter().enumerate() {
        let list: Vec<usize> = if blocks.is_empty() { vec![] } else { p.iter().enumerate().map(|(i, x)| if x.0 { (k * 2 + i) % blocks.len() } else { x.1 % blocks.len() }).collect() };
        *lists.borrow_mut() = list.iter().map(|i| json!({"blockHeight": i + 7, "stateHash": format!("3N{i}")})).collect();
        rep.log.push(format!("a poll finds {:?}", list.iter().map(|i| &blocks[*i].2).collect::<Vec<_>>()));
        let mut p: Fut = crate::req::export("mina-rs-wasm-mvp::poll_latest_blocks_once")?(vec![]);
        let Some(got) = drive(&mut p, &mut node) else { fail!("a poll does not come to an end") };
        ensure!(got.is_ok(), "a poll fails: {got:?}");
        for i in list {
            if !blocks[i].1 {
                continue;
            }
            tip = match tip {
                None => Some(i),
                Some(t) => match replaces(&rows[t], &rows[i], &hash) {
                    Ok((true, _)) => {
                        rep.labels.push("replaced");
                        Some(i)
                    }
                    Ok(_) => {
                        rep.labels.push("kept");
                        Some(t)
                    }
                    Err(_) => {
                        rep.labels.push("no choice possible");
                        Some(t)
                    }
                },
            };
        }
        let (h, j) = (get("get_best_chain_state_hash")?, get("get_best_chain_state_json")?);
        match tip {
            None => {
                rep.labels.push("no block at all");
                ensure!(h.is_none() && j.is_none(), "a node without blocks has the best chain {h:?}");
            }
            Some(t) => {
                let p = mk(&rows[t]);
                let want: ProtocolStateJson = p.clone().into();
                let got: Option<Value> = j.as_deref().and_then(|j| serde_json::from_str(j).ok());
                ensure!(got.is_some() && got == serde_json::to_value(&want).ok(), "after poll {k} the best chain is instead of {}: {} of block {t}", serde_json::to_value(&want).map_or_else(|e| e.to_string(), |v| v.to_string().chars().take(600).collect()), j.unwrap_or_default().chars().take(600).collect::<String>());
                // as the node prints field elements, or in base58
                let want = [p.state_hash_fp().to_string(), p.state_hash().to_string()];
                ensure!(want.iter().any(|w| h.as_deref() == Some(w)), "after poll {k} the state hash is {h:?} instead of {want:?} of block {t}");
            }
        }
    }
    Ok(())
}
