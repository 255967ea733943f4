//! C35: the blocks crawler, run as a program in a folder of its own, against a scripted server.
use crate::backend::blocks;
use crate::core::*;
use mina_rs_base::types::ExternalTransition;
use mina_rs_base::JsonSerializationType;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn facets() -> Vec<Facet> {
    vec![Facet { prop: "C35", name: "crawl", quick: 1_500, thorough: 60_000, f: crawl, rule: "1-2 runs of the crawler over 0-12 listed blocks, good, malformed, absent or failing, some of them filed before; non-trivial: at least two listed blocks" }]
}

/// A folder that goes away with the value.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("VH_SCRATCH").map_or_else(std::env::temp_dir, PathBuf::from);
        let d = base.join(format!("mina-crawl-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Does it parse as a block, by the types alone?
fn parses(v: &Value) -> bool {
    serde_json::from_value::<<ExternalTransition as JsonSerializationType>::T>(v.clone()).map(|j| ExternalTransition::from(j)).is_ok()
}

#[derive(Clone, Debug)]
enum Served {
    Json(Value),
    NoJson(String),
    Fail,
    Cut,
}
#[derive(Clone, Debug)]
struct Block {
    height: u64,
    hash: String,
    served: Served,
    wait: u64,
    listed: bool,
    /// what there is in output/succeeded and in output/failed
    ok: Option<Value>,
    bad: Option<Value>,
}
impl Block {
    fn name(&self) -> String {
        format!("mainnet-{}-{}.json", self.height, self.hash)
    }
    fn url(&self) -> String {
        format!("https://storage.googleapis.com/mina_network_block_data/{}", self.name())
    }
    /// what the file holds: the block without the time at which it was scheduled
    fn content(&self) -> Option<Value> {
        match &self.served {
            Served::Json(v) => {
                let mut v = v.clone();
                if let Some(o) = v.as_object_mut() {
                    o.remove("scheduled_time");
                }
                Some(v)
            }
            _ => None,
        }
    }
}
fn served(s: &mut Src) -> Served {
    let mut v = blocks()[s.usz(blocks().len())].clone();
    v["protocol_state"]["body"]["consensus_state"]["blockchain_length"] = json!(s.below(1 << 32).to_string());
    if s.bool() {
        v["scheduled_time"] = json!(s.u64().to_string());
    }
    match s.below(12) {
        0..=5 => {}
        6 => drop(v.as_object_mut().unwrap().remove("staged_ledger_diff")),
        7 => v["protocol_state"]["body"]["consensus_state"]["blockchain_length"] = json!(*s.pick(&["-1", "", "4294967296", "x"])),
        8 => v = s.pick(&[json!({}), json!([]), json!("scheduled_time"), json!(null), json!(7), json!({"scheduled_time": "1"})]).clone(),
        9 => {
            return Served::NoJson(match s.below(4) {
                0 => String::new(),
                1 => "<?xml version='1.0' encoding='UTF-8'?><Error><Code>NoSuchKey</Code></Error>".into(),
                2 => v.to_string()[..200].to_string(),
                _ => v.to_string() + "}",
            })
        }
        10 => return Served::Fail,
        _ => return Served::Cut,
    }
    Served::Json(v)
}
fn block(s: &mut Src, i: usize) -> Block {
    let served = served(s);
    let hash = match s.below(4) {
        0 => format!("3N{i}"),
        1 => format!("3NK{:x}_{i}", s.u64()),
        2 => format!("3N {i}.json"),
        _ => format!("3NKwrze6FvGQCCF6L7Q2JLvwgnsm56hwSny9kUyjbSUr8oqu1MG{i}"),
    };
    let bits = s.range(1, 40);
    let mut b = Block { height: s.below(1 << bits), hash, served, wait: if s.bool() { 0 } else { s.below(40) }, listed: s.chance(7, 8), ok: None, bad: None };
    match s.below(6) {
        0 => b.ok = Some(json!({"old": i})),
        1 => b.bad = Some(json!({"old": i})),
        _ => {}
    }
    b
}
fn read(p: &Path) -> Result<Option<Value>, Fail> {
    match std::fs::read(p) {
        Err(_) => Ok(None),
        Ok(b) => match serde_json::from_slice(&b) {
            Ok(v) => Ok(Some(v)),
            Err(e) => fail!("{} holds no JSON: {e}", p.file_name().unwrap().to_string_lossy()),
        },
    }
}
fn names(p: &Path) -> Vec<String> {
    let mut v: Vec<_> = std::fs::read_dir(p).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    v.sort();
    v
}

const EXPLORER: &str = "https://graphql.minaexplorer.com/";

fn crawl(s: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = Dir::new();
    let n = s.usz(13);
    let mut all: Vec<Block> = (0..n).map(|i| block(s, i)).collect();
    let old = all.iter().any(|b| b.ok.is_some() || b.bad.is_some());
    if old {
        for (k, f) in [("succeeded", true), ("failed", false)] {
            let d = dir.0.join("output").join(k);
            std::fs::create_dir_all(&d).unwrap();
            for b in &all {
                if let Some(v) = if f { &b.ok } else { &b.bad } {
                    std::fs::write(d.join(b.name()), v.to_string()).unwrap();
                }
            }
        }
    }
    let runs = 1 + s.usz(2);
    ctx.case(hash_of(&format!("{all:?}{runs}")), all.iter().filter(|b| b.listed).count() > 1);
    for run in 0..runs {
        if run > 0 {
            for b in &mut all {
                if s.bool() {
                    b.served = served(s);
                }
                b.listed = s.chance(3, 4);
            }
        }
        // the explorer decides the order
        let mut order: Vec<usize> = (0..n).filter(|i| all[*i].listed).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, s.usz(i + 1));
        }
        let conc = s.chance(2, 3).then(|| 1 + s.usz(5));
        let limit = s.below(1000).to_string();
        let mut script = serde_json::Map::new();
        script.insert(EXPLORER.into(), json!({"status": 200, "body": json!({"data": {"blocks": order.iter().map(|i| json!({"blockHeight": all[*i].height, "stateHash": all[*i].hash})).collect::<Vec<_>>()}}).to_string()}));
        for b in &all {
            script.insert(
                b.url(),
                match &b.served {
                    Served::Json(v) => json!({"status": 200, "body": v.to_string(), "wait": b.wait}),
                    Served::NoJson(t) => json!({"status": if t.starts_with('<') { 404 } else { 200 }, "body": t, "wait": b.wait}),
                    Served::Fail => json!({"kind": "fail", "wait": b.wait}),
                    Served::Cut => json!({"kind": "cut", "wait": b.wait}),
                },
            );
        }
        let (sp, lp) = (dir.0.join(format!("script{run}")), dir.0.join(format!("log{run}")));
        std::fs::write(&sp, Value::Object(script).to_string()).unwrap();
        let exe = std::env::current_exe().unwrap().with_file_name("blocks-crawler");
        let mut c = Command::new(exe);
        c.args([if s.bool() { "-l" } else { "--limit" }, &limit]);
        if let Some(k) = conc {
            c.args([if s.bool() { "-c" } else { "--concurrency" }, &k.to_string()]);
        }
        let out = c.current_dir(&dir.0).env("REQWEST_SCRIPT", &sp).env("REQWEST_LOG", &lp).env_remove("RUST_LOG").stdin(Stdio::null()).output().expect("the crawler does not start");
        let log = format!(
            "run {run} --limit {limit} --concurrency {conc:?} over {:?}",
            order.iter().map(|i| { let b = &all[*i]; format!("{} {} was {}{}", b.name(), match &b.served { Served::Json(v) => if parses(&b.content().unwrap()) { "a block".into() } else { v.to_string().chars().take(40).collect::<String>() }, o => format!("{o:?}").chars().take(40).collect() }, if b.ok.is_some() { "S" } else { "-" }, if b.bad.is_some() { "F" } else { "-" }) }).collect::<Vec<_>>()
        );
        ensure!(out.status.success(), "{log}: the crawler ends with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>());
        // what it asked for
        let lines: Vec<Value> = std::fs::read_to_string(&lp).unwrap_or_default().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
        let (mut open, mut most, mut asked) = (0usize, 0, vec![]);
        for l in &lines {
            if l.get("done").is_some() {
                open -= 1;
                continue;
            }
            open += 1;
            most = most.max(open);
            if l["u"] == EXPLORER {
                let q: Value = l["b"].as_str().and_then(|b| serde_json::from_str(b).ok()).unwrap_or(Value::Null);
                let q = q["query"].as_str().unwrap_or_default();
                let flat: String = q.chars().filter(|c| !c.is_whitespace()).collect();
                ensure!(l["m"] == "POST" && (flat.contains(&format!("limit:{limit},")) || flat.contains(&format!("limit:{limit})"))) && flat.contains("RECEIVEDTIME_DESC") && flat.contains("blockHeight") && flat.contains("stateHash"), "{log}: the explorer is asked {l}");
            } else {
                ensure!(l["m"] == "GET", "{log}: a block is asked for with {l}");
            }
            asked.push(l["u"].as_str().unwrap().to_string());
        }
        let lim = conc.unwrap_or(8);
        ensure!(most <= lim, "{log}: {most} requests at once");
        let mut want: Vec<String> = order.iter().filter(|i| all[**i].ok.is_none()).map(|i| all[*i].url()).collect();
        want.push(EXPLORER.into());
        want.sort();
        asked.sort();
        ensure!(asked == want, "{log}: asks for {asked:?} instead of {want:?}");
        // what it filed
        let (good, bad) = (dir.0.join("output/succeeded"), dir.0.join("output/failed"));
        for b in &mut all {
            let (gs, gf) = (read(&good.join(b.name()))?, read(&bad.join(b.name()))?);
            let (mut ws, mut wf) = (b.ok.clone(), b.bad.clone());
            if b.listed && b.ok.is_none() {
                match b.content() {
                    Some(v) if parses(&v) => (ws, wf) = (Some(v), None),
                    Some(v) => wf = Some(v),
                    // nothing is known of the block: an old file may go
                    None if gf.is_none() => wf = None,
                    None => {}
                }
            }
            ensure!(gs == ws && gf == wf, "{log}: {} is filed {}{} instead of {}{}", b.name(), show("succeeded", &gs), show("failed", &gf), show("succeeded", &ws), show("failed", &wf));
            (b.ok, b.bad) = (gs, gf);
        }
        let mut f: Vec<String> = all.iter().filter(|b| b.ok.is_some()).map(|b| b.name()).collect();
        f.sort();
        ensure!(names(&good) == f, "{log}: output/succeeded has {:?} instead of {f:?}", names(&good));
        let mut f: Vec<String> = all.iter().filter(|b| b.bad.is_some()).map(|b| b.name()).collect();
        f.sort();
        ensure!(names(&bad) == f, "{log}: output/failed has {:?} instead of {f:?}", names(&bad));
        if most > 1 {
            ctx.label("requests at once");
        }
        ctx.sample(|| log.chars().take(600).collect());
    }
    Ok(())
}
fn show(k: &str, v: &Option<Value>) -> String {
    v.as_ref().map_or(String::new(), |v| format!("{k} ({}) ", v.to_string().chars().take(80).collect::<String>()))
}
