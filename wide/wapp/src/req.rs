//! C33: what the web node sends for a payment, a lock, an unlock or a look at an account, against an
//! independent reading of the GraphQL document, and what it makes of the answer.
use crate::core::*;
use crate::gql::{request, run, text, Field, Val};
use reqwest::{Answer, Asked};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{JsValue, Kind};

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C33", name: "payment", quick: 600_000, thorough: 30_000_000, f: payment, rule: "a payment with a fee, an amount, and possibly a nonce, a memo and a last slot, as numbers, big integers or strings, in and out of range, and an answer of the server; non-trivial: an optional setting, a text with special characters or a failure" },
        Facet { prop: "C33", name: "account", quick: 600_000, thorough: 30_000_000, f: account, rule: "locking, unlocking or looking at an account with any texts as key and password, and an answer of the server; non-trivial: a text with special characters or a failure" },
    ]
}

pub const CRATES: [&str; 2] = ["mina-berkeley", "mina-rs-wasm-mvp"];
/// Where the older web node's daemon is.
const LOCAL: &str = "http://localhost:3085/graphql";

pub fn export(name: &str) -> Result<wasm_bindgen::Export, Fail> {
    wasm_bindgen::export(name).ok_or_else(|| Fail(format!("{name} is not exported")))
}
/// Calls an export and waits for what it returns.
pub fn call(name: &str, args: Vec<JsValue>) -> Result<Result<JsValue, JsValue>, Fail> {
    let f = export(name)?;
    match guard(|| run(f(args)))? {
        Some(r) => Ok(r),
        None => fail!("{name} does not come to an end"),
    }
}

struct World {
    asked: Rc<RefCell<Vec<Asked>>>,
    /// the JSON of the answer, if it is one
    json: Option<Value>,
    what: String,
}
fn small_json(s: &mut Src, d: u32) -> Value {
    match s.below(if d == 0 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => json!(s.bool()),
        2 => json!(s.u64() >> s.below(64)),
        3 => json!(text(s)),
        4 => json!(-(s.below(1 << 40) as i64)),
        5 => Value::Array((0..s.below(3)).map(|_| small_json(s, d - 1)).collect()),
        _ => Value::Object((0..s.below(4)).map(|_| (text(s), small_json(s, d - 1))).collect()),
    }
}
fn world(s: &mut Src) -> World {
    let asked = Rc::new(RefCell::new(vec![]));
    let (mut json, what);
    let ans = match s.below(8) {
        0 => {
            (json, what) = (None, "no answer");
            Answer::Fail("connection refused".into())
        }
        1 => {
            (json, what) = (None, "an answer that breaks off");
            Answer::Cut(200)
        }
        2 => {
            what = "an answer that is no JSON";
            json = None;
            let full = small_json(s, 2).to_string();
            let t = match s.below(4) {
                0 => String::new(),
                1 => "<html>502</html>".into(),
                2 => format!("{full} x"),
                _ => full[..full.char_indices().map(|x| x.0).nth(full.chars().count() / 2).unwrap_or(0)].to_string(),
            };
            if serde_json::from_str::<Value>(&t).is_ok() {
                json = serde_json::from_str(&t).ok();
            }
            Answer::Body(*s.pick(&[200, 502]), t.into_bytes())
        }
        k => {
            what = "an answer";
            let d = if k == 3 { json!({"errors": [{"message": text(s)}]}) } else { json!({"data": small_json(s, 3)}) };
            json = Some(d.clone());
            Answer::Body(if k == 3 { 400 } else { 200 }, if s.bool() { serde_json::to_vec_pretty(&d) } else { serde_json::to_vec(&d) }.unwrap())
        }
    };
    let wait = s.below(3) as u32;
    let (a, w) = (asked.clone(), ans.clone());
    reqwest::serve(move |q| {
        a.borrow_mut().push(q.clone());
        (w.clone(), wait)
    });
    World { asked, json, what: format!("{what} {ans:?}") }
}
impl World {
    /// The one request: a mutation or query of one field, with the arguments as expected.
    fn check(&self, url: &str, kind: &str, field: &str, ok: impl Fn(&Field) -> Result<(), String>) -> Res {
        let q = self.asked.borrow();
        ensure!(q.len() == 1, "{} requests instead of one: {q:?}", q.len());
        let shown = || String::from_utf8_lossy(q[0].body.as_deref().unwrap_or_default()).into_owned();
        ensure!(q[0].url == url && q[0].method == "POST", "{} {} instead of a POST to {url:?}", q[0].method, q[0].url);
        let op = match request(q[0].body.as_deref().unwrap_or_default()) {
            Ok(o) => o,
            Err(e) => fail!("the request is no GraphQL document of one operation: {e}: {}", shown()),
        };
        ensure!(op.kind == kind && op.sel.len() == 1 && op.sel[0].name == field, "the request is not the {kind} {field}: {}", shown());
        if let Err(e) = ok(&op.sel[0]) {
            fail!("{e}: {}", shown())
        }
        Ok(())
    }
    fn answer(&self, got: Result<JsValue, JsValue>) -> Res {
        match (&self.json, got) {
            (Some(j), Ok(v)) => {
                let t = v.as_string().unwrap_or_default();
                let back: Option<Value> = serde_json::from_str(&t).ok();
                ensure!(back.as_ref() == Some(j), "the answer {j} is handed on as {t}");
            }
            (None, Err(_)) => {}
            (Some(_), Err(e)) => fail!("{} is handed on as the error {e:?}", self.what),
            (None, Ok(v)) => fail!("{} is handed on as {v:?}", self.what),
        }
        Ok(())
    }
}
fn input(f: &Field) -> Result<std::collections::BTreeMap<String, Val>, String> {
    match (f.args.get("input"), f.args.len()) {
        (Some(Val::Obj(o)), 1) => Ok(o.clone()),
        _ => Err(format!("the arguments are {:?}", f.args)),
    }
}
/// the selection holds that path
fn selects(f: &Field, path: &[&str]) -> bool {
    path.split_first().map_or(true, |(h, t)| f.sel.iter().any(|g| g.name == *h && selects(g, t)))
}

/// A setting as JavaScript has it, and the number it stands for (None: no number of that size).
fn number(s: &mut Src, bits: u32) -> (JsValue, Option<u64>, String) {
    let max = if bits == 32 { u32::MAX as u64 } else { u64::MAX };
    let n = s.int(0, max as i128) as u64;
    match s.below(8) {
        0 | 1 => (JsValue::bigint(&n.to_string()), Some(n), format!("{n}n")),
        2 | 3 => (n.to_string().into(), Some(n), format!("{:?}", n.to_string())),
        4 | 5 => {
            let n = n & ((1 << 53) - 1);
            (JsValue::from_f64(n as f64), Some(n), n.to_string())
        }
        6 => {
            let big = (max as u128 + 1 + s.below(1000) as u128).to_string();
            match s.below(3) {
                0 => (JsValue::bigint(&big), None, format!("{big}n")),
                1 => (big.as_str().into(), None, format!("{big:?}")),
                _ => (JsValue::from_f64(max as f64 + 1.0), None, format!("{}.0", max as f64 + 1.0)),
            }
        }
        _ => {
            let v = match s.below(6) {
                0 => JsValue::from_f64(*s.pick(&[-1.0, 0.5, 1e21, f64::NAN, f64::INFINITY, -0.25])),
                1 => JsValue::bigint("-1"),
                2 => s.pick(&["abc", "1.5", "-1", "1e3", "0x10", " 1", "1 ", "1_000", "१", "12\"", "1,000"]).to_string().into(),
                3 => JsValue::from_bool(true),
                4 => JsValue::object(vec![]),
                _ => JsValue::from("NaN"),
            };
            (v.clone(), None, format!("{v:?}"))
        }
    }
}

fn key(s: &mut Src) -> String {
    match s.below(4) {
        0 => text(s),
        1 => s.pick(&["B62qncQVG8FULDcgM82Yg659yiwESbLWQ39ALVakbCktqtEQwmpRk6n", "B62qkCGtRNQ41gXbD8eXwUfY6w7bkPCUbHF18wzRFYxs9tErnchdDcr"]).to_string(),
        _ => format!("B62q{}", (0..51).map(|_| *s.pick(&b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[..]) as char).collect::<String>()),
    }
}
fn odd(t: &str) -> bool {
    t.chars().any(|c| !c.is_ascii_alphanumeric() && c != ' ')
}
fn place(s: &mut Src, krate: &str) -> (String, Vec<JsValue>) {
    if krate == CRATES[0] {
        let e = s.pick(&[LOCAL, "http://10.0.0.1/graphql", "https://x.example/a?b=c", "http://[::1]:1/"]).to_string();
        (e.clone(), vec![e.into()])
    } else {
        (LOCAL.into(), vec![])
    }
}

fn payment(s: &mut Src, ctx: &mut Ctx) -> Res {
    let krate = *s.pick(&CRATES);
    let (url, mut args) = place(s, krate);
    let (to, from) = (key(s), key(s));
    let (fee, fee_n, fee_t) = number(s, 64);
    let (amount, amount_n, amount_t) = number(s, 64);
    let mut f: Vec<(&str, JsValue)> = vec![("to", to.as_str().into()), ("from", from.as_str().into()), ("fee", fee), ("amount", amount)];
    let mut log = format!("{krate} to {to:?} from {from:?} fee {fee_t} amount {amount_t}");
    // a setting that is not there
    fn none(s: &mut Src, f: &mut Vec<(&str, JsValue)>, k: &'static str, empty: bool) {
        match s.below(if empty { 4 } else { 3 }) {
            0 => {}
            1 => f.push((k, JsValue::UNDEFINED)),
            2 => f.push((k, JsValue::NULL)),
            _ => f.push((k, "".into())),
        }
    }
    let mut opt = |s: &mut Src, k: &'static str| -> Option<Option<u64>> {
        if s.bool() {
            let (v, n, t) = number(s, 32);
            f.push((k, v));
            log = format!("{log} {k} {t}");
            Some(n)
        } else {
            none(s, &mut f, k, true);
            None
        }
    };
    let nonce = opt(s, "nonce");
    let until = opt(s, "validUntil");
    let memo = if s.bool() {
        let m = text(s);
        f.push(("memo", m.as_str().into()));
        log = format!("{log} memo {m:?}");
        Some(m)
    } else {
        none(s, &mut f, "memo", false);
        None
    };
    let w = world(s);
    let bad = fee_n.is_none() || amount_n.is_none() || nonce == Some(None) || until == Some(None);
    ctx.case(hash_of(&(&log, &w.what)), bad || nonce.is_some() || until.is_some() || memo.is_some() || odd(&to) || odd(&from) || w.json.is_none());
    ctx.label(if bad { "bad setting" } else if w.json.is_none() { "no JSON answer" } else { "answered" });
    args.push(JsValue(Kind::Object(Rc::new(RefCell::new(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())))));
    let got = call(&format!("{krate}::sendPayment"), args).map_err(|e| Fail(format!("{log}: {}: {}", w.what, e.0)))?;
    if bad {
        ensure!(got.is_err(), "{log}: a setting is no number of its size, and the result is {got:?}");
        ensure!(w.asked.borrow().is_empty(), "{log}: a setting is no number of its size, and {:?} is sent", w.asked.borrow());
        return Ok(());
    }
    let num = |o: &std::collections::BTreeMap<String, Val>, k: &str, n: Option<u64>| -> Result<(), String> {
        let got = o.get(k).and_then(|v| v.scalar());
        if got.map(str::to_string) != n.map(|n| n.to_string()) {
            return Err(format!("{log}: {k} is sent as {:?}", o.get(k)));
        }
        Ok(())
    };
    w.check(&url, "mutation", "sendPayment", |f| {
        let mut o = input(f)?;
        num(&o, "fee", fee_n)?;
        num(&o, "amount", amount_n)?;
        num(&o, "nonce", nonce.flatten())?;
        num(&o, "validUntil", until.flatten())?;
        for (k, v) in [("to", &to), ("from", &from)] {
            if o.get(k) != Some(&Val::Str(v.clone())) {
                return Err(format!("{log}: {k} is sent as {:?}", o.get(k)));
            }
        }
        match (&memo, o.get("memo")) {
            (Some(m), Some(Val::Str(x))) if m == x => {}
            (None, None) => {}
            // no memo and an empty one are the same
            (Some(m), None) if m.is_empty() => {}
            (_, x) => return Err(format!("{log}: memo is sent as {x:?}")),
        }
        for k in ["fee", "amount", "nonce", "validUntil", "to", "from", "memo"] {
            o.remove(k);
        }
        if !o.is_empty() {
            return Err(format!("{log}: more is sent: {o:?}"));
        }
        if !selects(f, &["payment", "id"]) {
            return Err(format!("{log}: the payment's id is not asked for"));
        }
        Ok(())
    })?;
    w.answer(got).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
    ctx.sample(|| format!("{log}: {}", w.what));
    Ok(())
}

fn account(s: &mut Src, ctx: &mut Ctx) -> Res {
    let krate = *s.pick(&CRATES);
    let what = *s.pick(if krate == CRATES[0] { &["lockAccount", "unlockAccount"][..] } else { &["lockAccount", "unlockAccount", "accountInfo"] });
    let (url, mut args) = place(s, krate);
    let k = key(s);
    args.push(k.as_str().into());
    let password = if what == "unlockAccount" { Some(text(s)) } else { None };
    if let Some(p) = &password {
        args.push(p.as_str().into());
    }
    let w = world(s);
    let log = format!("{krate} {what} {k:?} {password:?}");
    ctx.case(hash_of(&(&log, &w.what)), odd(&k) || password.as_ref().is_some_and(|p| odd(p)) || w.json.is_none());
    ctx.label(what);
    let got = call(&format!("{krate}::{what}"), args).map_err(|e| Fail(format!("{log}: {}: {}", w.what, e.0)))?;
    let (kind, field) = if what == "accountInfo" { ("query", "account") } else { ("mutation", what) };
    w.check(&url, kind, field, |f| {
        let mut o = if what == "accountInfo" { f.args.clone() } else { input(f)? };
        if o.remove("publicKey") != Some(Val::Str(k.clone())) {
            return Err(format!("{log}: the key is not the one sent"));
        }
        if o.remove("password") != password.clone().map(Val::Str) {
            return Err(format!("{log}: the password is not the one sent"));
        }
        if !o.is_empty() {
            return Err(format!("{log}: more is sent: {o:?}"));
        }
        let all = if what == "accountInfo" { selects(f, &["balance", "total"]) && selects(f, &["inferredNonce"]) && selects(f, &["locked"]) } else { selects(f, &["account", "locked"]) };
        if !all {
            return Err(format!("{log}: not everything is asked for"));
        }
        Ok(())
    })?;
    w.answer(got).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
    ctx.sample(|| format!("{log}: {}", w.what));
    Ok(())
}
