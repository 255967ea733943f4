//! C36: the layers of the p2p transport under any sequence of settings. C37: the node status
//! stream of the web node against the lines that its peer sends.
use crate::core::*;
use crate::gql::{run, text};
use libp2p::swarm::{peer, Fin, Peer};
use libp2p::{Layer, PeerId};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use wasm_bindgen::{JsValue, Kind};

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C36", name: "transport", quick: 400_000, thorough: 30_000_000, f: transport, rule: "a builder with a given or a random identity, an initial configuration or none, and 0-5 further settings, natively and for the web; non-trivial: at least one setting" },
        Facet { prop: "C37", name: "stream", quick: 60_000, thorough: 4_000_000, f: stream, rule: "a peer that sends 0-8 lines, statuses and others, cut into pieces anywhere, then ends, fails or falls silent; non-trivial: at least one status" },
        Facet { prop: "C37", name: "dial", quick: 40_000, thorough: 2_000_000, f: dial, rule: "a connect request with a good, a bad or a refused address, or one that is no request at all; non-trivial: not a plain success" },
    ]
}

// ------------------------------------------------------------------ transport

const MAINNET: &str = "/coda/0.0.1/5f704cc0c82e0ed70e873f0893d7e06f148524e3f0bdae2afb02e7819a0c24d1";
const MPLEX: &str = "/coda/mplex/1.0.0";
fn psk(rendezvous: &[u8]) -> [u8; 32] {
    crate::fork::blake2b_32(rendezvous)
}
/// The layers over the sockets.
fn stack(base: Layer, rendezvous: &[u8], mplex: &[u8], timeout: Duration, id: PeerId) -> Vec<Layer> {
    vec![base, Layer::Psk(psk(rendezvous)), Layer::Upgrade(libp2p::core::upgrade::Version::V1), Layer::Noise("XX", id), Layer::Mplex(mplex.to_vec(), vec![]), Layer::Timeout(timeout)]
}
fn native() -> Layer {
    let tcp = || vec![Layer::Tcp { nodelay: true }, Layer::Dns];
    let mut ws = tcp();
    ws.push(Layer::WebSocket);
    Layer::Either(tcp(), ws)
}
#[derive(Clone, Debug, Hash)]
enum Step {
    Config(Vec<u8>, &'static [u8]),
    Default,
    Mainnet,
    Timeout(Duration),
    Clone,
}
const NAMES: [&[u8]; 5] = [b"/coda/mplex/1.0.0", b"/mplex/6.7.0", b"", b"/x", b"/coda/mplex/1.0.1"];
fn step(s: &mut Src) -> Step {
    match s.below(6) {
        0 | 1 => {
            let n = *s.pick(&[0, 1, 7, 64, 79, 127, 128, 129, 200, 256]);
            let v = if s.chance(1, 6) { MAINNET.as_bytes().to_vec() } else { s.bytes(n) };
            Step::Config(v, s.pick(&NAMES))
        }
        2 => Step::Mainnet,
        3 => Step::Default,
        4 => Step::Timeout(*s.pick(&[Duration::ZERO, Duration::from_secs(1), Duration::from_secs(60), Duration::from_millis(1500), Duration::MAX])),
        _ => Step::Clone,
    }
}
macro_rules! build {
    ($m:ident, $start:expr, $key:expr, $steps:expr) => {{
        use $m::p2p::{TransportBuilder, TransportConfig, MAINNET_CONFIG};
        let key = $key;
        let mut b = match ($start, key) {
            (0, _) => TransportBuilder::new(),
            (1, _) => TransportBuilder::default(),
            (2, k) => TransportBuilder::new_with_key(libp2p::identity::Keypair::from_seed(k)),
            (3, k) => TransportBuilder::new_with_key_and_config(libp2p::identity::Keypair::from_seed(k), &MAINNET_CONFIG),
            (_, k) => TransportBuilder::new_with_key_and_config(libp2p::identity::Keypair::from_seed(k), &TransportConfig { rendezvous_string: b"start", mplex_protocol_name: b"/start" }),
        };
        let mut old = vec![];
        for s in $steps {
            b = match s {
                Step::Config(r, n) => b.with_config(&TransportConfig { rendezvous_string: r, mplex_protocol_name: n }),
                Step::Default => b.with_config(&TransportConfig::default()),
                Step::Mainnet => b.with_mainnet_config(),
                Step::Timeout(d) => b.with_timeout(*d),
                Step::Clone => {
                    old.push(b.clone());
                    b
                }
            };
        }
        // a clone is a transport of its own
        drop(old);
        b.build().map(|(t, id)| (t.layers().to_vec(), id))
    }};
}
fn transport(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (web, start, key) = (s.bool(), s.below(5), s.below(1 << 31));
    let n = s.below(6);
    let steps: Vec<Step> = (0..n).map(|_| step(s)).collect();
    let log = format!("{} start {start} key {key} then {steps:?}", if web { "web" } else { "native" });
    ctx.case(hash_of(&log), n > 0);
    ctx.label(if web { "web" } else { "native" });
    let got = guard(|| if web { build!(mina_network, start, key, &steps) } else { build!(mina_network_native, start, key, &steps) }).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
    let (layers, id) = match got {
        Ok(x) => x,
        Err(e) => fail!("{log}: no transport: {e}"),
    };
    let (mut rdv, mut mplex): (Vec<u8>, Vec<u8>) = match start {
        3 => (MAINNET.into(), MPLEX.into()),
        4 => (b"start".to_vec(), b"/start".to_vec()),
        _ => (vec![], MPLEX.into()),
    };
    let mut timeout = Duration::from_secs(60);
    for s in &steps {
        match s {
            Step::Config(r, n) => (rdv, mplex) = (r.clone(), n.to_vec()),
            Step::Default => (rdv, mplex) = (vec![], MPLEX.into()),
            Step::Mainnet => (rdv, mplex) = (MAINNET.into(), MPLEX.into()),
            Step::Timeout(d) => timeout = *d,
            Step::Clone => {}
        }
    }
    if start >= 2 {
        let own = PeerId::from(libp2p::identity::Keypair::from_seed(key).public());
        ensure!(id == own, "{log}: the peer id is {id} instead of {own}");
    }
    let want = stack(if web { Layer::External } else { native() }, &rdv, &mplex, timeout, id);
    ensure!(layers == want, "{log}: the layers are {layers:?} instead of {want:?}");
    ctx.sample(|| log.clone());
    Ok(())
}

// ------------------------------------------------------------------ protocol buffers

fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n > 127 {
        out.push(n as u8 | 128);
        n >>= 7;
    }
    out.push(n as u8);
}
fn pb_str(field: u64, t: &str) -> Vec<u8> {
    let mut v = vec![];
    varint(field << 3 | 2, &mut v);
    varint(t.len() as u64, &mut v);
    v.extend(t.as_bytes());
    v
}
#[derive(Clone, Debug, PartialEq)]
enum Pb {
    Int(u64),
    Str(String),
}
/// The fields of a message, defaults left out.
fn pb_read(b: &[u8]) -> Option<Vec<(u64, Pb)>> {
    let (mut i, mut v) = (0, vec![]);
    let num = |i: &mut usize| -> Option<u64> {
        let mut n = 0;
        for k in 0..10 {
            let x = *b.get(*i)?;
            *i += 1;
            n |= ((x & 127) as u64) << (7 * k);
            if x < 128 {
                return Some(n);
            }
        }
        None
    };
    while i < b.len() {
        let tag = num(&mut i)?;
        v.push((
            tag >> 3,
            match tag & 7 {
                0 => Pb::Int(num(&mut i)?),
                2 => {
                    let n = num(&mut i)? as usize;
                    let t = String::from_utf8(b.get(i..i + n)?.to_vec()).ok()?;
                    i += n;
                    Pb::Str(t)
                }
                _ => return None,
            },
        ));
    }
    v.retain(|(_, x)| *x != Pb::Int(0) && *x != Pb::Str(String::new()));
    v.sort_by_key(|x| x.0);
    Some(v)
}
fn bytes(v: &JsValue) -> Option<Vec<u8>> {
    match &v.0 {
        Kind::Bytes(b) => Some(b.borrow().clone()),
        _ => None,
    }
}
fn u8a(b: &[u8]) -> JsValue {
    JsValue(Kind::Bytes(Rc::new(RefCell::new(b.to_vec()))))
}

// ------------------------------------------------------------------ stream

fn b64(b: &[u8]) -> String {
    crate::text::b64(b).replace('-', "+").replace('_', "/")
}
/// a line, and the status that it is
fn status_line(s: &mut Src) -> (Vec<u8>, Option<Vec<(u64, Pb)>>) {
    let mut j = json!({
        "connected": s.bool(),
        "peer_id": text(s),
        "sync_status": *s.pick(&["Synced", "Catchup", "Bootstrap", "Listening", "Offline", ""]),
        "protocol_state_hash": text(s),
        "git_commit": format!("{:x}", s.u64()),
        "uptime_minutes": s.int(i64::MIN as i128, i64::MAX as i128) as i64,
    });
    let mut want: Vec<(u64, Pb)> = ["peer_id", "sync_status", "protocol_state_hash", "git_commit"].iter().enumerate().map(|(i, k)| (i as u64 + 2, Pb::Str(j[k].as_str().unwrap().into()))).collect();
    want.push((1, Pb::Int(j["connected"].as_bool().unwrap() as u64)));
    want.push((6, Pb::Int(j["uptime_minutes"].as_i64().unwrap() as u64)));
    want.retain(|(_, x)| *x != Pb::Int(0) && *x != Pb::Str(String::new()));
    want.sort_by_key(|x| x.0);
    let kind = s.below(10);
    match kind {
        0..=5 => {
            if kind == 0 {
                j["more"] = json!([1, null]);
            }
            let t = if s.bool() { serde_json::to_vec_pretty(&j) } else { serde_json::to_vec(&j) }.unwrap();
            let l = b64(&t);
            let l = match s.below(6) {
                0 => format!("  {l}"),
                1 => format!("{l}\t "),
                _ => l,
            };
            (l.into_bytes(), Some(want))
        }
        6 => (s.pick(&["", "   ", "\t"]).as_bytes().to_vec(), None),
        7 => {
            // base64 of something else
            let o = j.as_object_mut().unwrap();
            let k = s.pick(&["connected", "peer_id", "sync_status", "protocol_state_hash", "git_commit", "uptime_minutes"]).to_string();
            match s.below(4) {
                0 => drop(o.remove(&k)),
                1 => drop(o.insert(k, Value::Null)),
                2 => drop(o.insert(k, json!([]))),
                _ => j = json!([1, 2]),
            }
            (b64(j.to_string().as_bytes()).into_bytes(), None)
        }
        8 => {
            let t = j.to_string();
            (match s.below(3) {
                0 => b64(&t.as_bytes()[..t.len() - 1]),
                1 => b64(&[0xff, 0xfe]),
                _ => t,
            }
            .into_bytes(), None)
        }
        _ => {
            let t = b64(j.to_string().as_bytes());
            (match s.below(3) {
                0 => format!("*{t}"),
                1 => format!("{t}é"),
                _ => "node status:".into(),
            }
            .into_bytes(), None)
        }
    }
}

/// There is one web node, and one emitter.
static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
type Events = Rc<RefCell<Vec<(String, Option<Vec<u8>>)>>>;
fn emitter() -> Result<Events, Fail> {
    let ev: Events = Default::default();
    let e = ev.clone();
    let f = JsValue(Kind::Func(Rc::new(move |a: Vec<JsValue>| {
        e.borrow_mut().push((a[0].as_string().unwrap_or_default(), a.get(1).and_then(bytes)));
        JsValue::TRUE
    })));
    crate::req::call("mina-rs-wasm-mvp::set_event_emitter", vec![JsValue::object(vec![("emit", f)])])?.map_err(|e| Fail(format!("the emitter is refused: {e:?}")))?;
    Ok(ev)
}
/// connects, and comes back when there is a response or when the node waits
fn connect(request: &[u8]) -> Result<Option<Result<JsValue, JsValue>>, Fail> {
    let f = crate::req::export("mina-rs-wasm-mvp::connect")?;
    guard(|| run(f(vec![u8a(request)])))
}
const ADDRESSES: [&str; 4] = ["/ip4/127.0.0.1/tcp/2345/ws", "/dns4/seed-1.mainnet.o1test.net/tcp/10000/ws/p2p/12D3KooWCa1d7G3SkRxy846qTvdAFX69NnoYZ32orWVLqJcDVGHW", "/ip6/::1/tcp/1/ws", "/dns4/x/tcp/443/wss"];

fn stream(s: &mut Src, ctx: &mut Ctx) -> Res {
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let n = s.below(9);
    let (mut all, mut want, mut log) = (vec![], vec![], vec![]);
    let mut cut = None;
    let mut seen: Vec<(Vec<u8>, Option<Vec<(u64, Pb)>>)> = vec![];
    for i in 0..n {
        // a line may come again, at once or later
        let (mut l, st) = match seen.len() {
            0 => status_line(s),
            m if s.chance(1, 3) => seen[if s.bool() { m - 1 } else { s.usz(m) }].clone(),
            _ => status_line(s),
        };
        seen.push((l.clone(), st.clone()));
        if st.is_none() && cut.is_none() && s.chance(1, 12) {
            // no text at all: nothing is said about what follows
            l = vec![b'x', 0xff, 0xfe];
            cut = Some(want.len());
        }
        log.push(String::from_utf8_lossy(&l).into_owned());
        all.extend(l);
        want.extend(st);
        if i + 1 < n || !s.chance(1, 3) {
            all.extend(if s.chance(1, 4) { &b"\r\n"[..] } else { b"\n" });
        }
    }
    let ended = all.last().map_or(true, |b| *b == b'\n');
    let fin = *s.pick(&[Fin::End, Fin::End, Fin::Fail, Fin::Silent]);
    let mut chunks = vec![];
    let mut rest = &all[..];
    while !rest.is_empty() {
        let k = match s.below(4) {
            0 => 1,
            1 => 1 + s.usz(40),
            2 => 1 + s.usz(400),
            _ => rest.len(),
        }
        .min(rest.len());
        if s.chance(1, 4) {
            chunks.push(None);
        }
        chunks.push(Some(rest[..k].to_vec()));
        rest = &rest[k..];
    }
    let noise = s.usz(4);
    let address = *s.pick(&ADDRESSES);
    ctx.case(hash_of(&(&all, &chunks, fin, noise)), !want.is_empty());
    ctx.label(match fin {
        Fin::End => "ends",
        Fin::Fail => "fails",
        Fin::Silent => "falls silent",
    });
    *peer().borrow_mut() = Peer { chunks, fin, noise, ..Default::default() };
    let ev = emitter()?;
    let log = format!("{log:?}, then {fin:?}");
    let got = connect(&pb_str(1, address)).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
    if let Some(Err(e)) = &got {
        fail!("{log}: connecting fails: {e:?}")
    }
    let p = peer();
    let p = p.borrow();
    ensure!(p.dialled == [address], "{log}: {:?} is dialled", p.dialled);
    ensure!(p.protocols.iter().any(|p| p == b"/mina-proxy/node-status"), "{log}: the protocols are {:?}", p.protocols.iter().map(|p| String::from_utf8_lossy(p)).collect::<Vec<_>>());
    ensure!(p.requests == 1, "{log}: {} requests are sent", p.requests);
    ensure!(p.transport.len() == 1 && p.transport[0].contains(&Layer::Psk(psk(MAINNET.as_bytes()))) && p.transport[0].contains(&Layer::Mplex(MPLEX.into(), vec![])), "{log}: the transport is not that of the network: {:?}", p.transport);
    if fin != Fin::Silent && cut.is_none() {
        ensure!(p.done == 1, "{log}: the stream is over, and the request is not");
    }
    let mut seen = vec![];
    for (name, b) in ev.borrow().iter() {
        ensure!(name == "update", "{log}: the event {name}");
        match b.as_deref().and_then(pb_read) {
            Some(x) => seen.push(x),
            None => fail!("{log}: an update is no status: {b:?}"),
        }
    }
    // a line without an end counts when the stream ends there
    let mut ok = vec![want.clone()];
    if !ended && fin != Fin::End {
        ok.push(want[..want.len().saturating_sub(1)].to_vec());
    }
    if let Some(k) = cut {
        ok.push(want[..k].to_vec());
    }
    ensure!(ok.contains(&seen), "{log}: the updates are {seen:?} instead of {want:?}");
    ctx.sample(|| log.chars().take(600).collect());
    Ok(())
}

fn dial(s: &mut Src, ctx: &mut Ctx) -> Res {
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let kind = s.below(4);
    let (req, log) = match kind {
        0 => {
            let a = *s.pick(&ADDRESSES);
            (pb_str(1, a), format!("the address {a}"))
        }
        1 => {
            let a = *s.pick(&ADDRESSES);
            (pb_str(1, a), format!("the address {a}, which cannot be dialled"))
        }
        2 => {
            let t = text(s);
            let a = match s.below(4) {
                0 => "127.0.0.1:80".to_string(),
                1 => String::new(),
                2 => format!("{} {t}", ADDRESSES[0]),
                _ => format!("{t} "),
            };
            (pb_str(1, &a), format!("the bad address {a:?}"))
        }
        _ => {
            let mut b = pb_str(1, ADDRESSES[0]);
            match s.below(3) {
                0 => drop(b.pop()),
                1 => b[3] = 0xff,
                _ => b = vec![0xff; 12],
            }
            (b.clone(), format!("the request {}", hex(&b)))
        }
    };
    ctx.case(hash_of(&log), kind > 0);
    *peer().borrow_mut() = Peer { refuse: kind == 1, ..Default::default() };
    let _ev = emitter()?;
    let got = connect(&req).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
    let dialled = peer().borrow().dialled.len();
    ensure!(dialled == (kind < 2) as usize, "{log}: {dialled} dials");
    // success, and a message
    let resp = match &got {
        None => None,
        Some(Err(_)) => Some((false, true)),
        Some(Ok(v)) => {
            let Some(f) = bytes(v).as_deref().and_then(pb_read) else { fail!("{log}: the response is {v:?}") };
            Some((f.iter().any(|x| *x == (1, Pb::Int(1))), f.iter().any(|x| x.0 == 2)))
        }
    };
    match (kind, resp) {
        // the connection stays, or was reported as good
        (0, None | Some((true, _))) => {}
        (1..=3, Some((false, true))) => {}
        (_, r) => fail!("{log}: the response is {got:?}: success and message {r:?}"),
    }
    ctx.label(["good", "refused", "bad address", "no request"][kind as usize]);
    ctx.sample(|| log.clone());
    Ok(())
}
