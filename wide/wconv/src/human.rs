//! C24: human-readable forms against independent encoders, and the GraphQL readers against an
//! independent rendering.
use crate::core::*;
use crate::gen;
use crate::text::*;
use mina_crypto::hash::*;
use mina_crypto::prelude::HexEncodable;
use mina_rs_base::account::{Account, Permissions, Timing};
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::types::*;
use mina_serialization_types as st;
use mina_serialization_types::json::*;
use mina_serialization_types::v1::HashV1;
use num_bigint::BigUint;
use serde_json::{json, Value};
use st::common::{DecimalJson, U32Json, U64Json};
use st::signatures::CompressedCurvePoint;
use std::str::FromStr;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C24", name: "hashes", quick: 60_000, thorough: 2_500_000, f: hashes, rule: "a hash of one of the eight kinds: rendered, read back, and its text altered, cut, re-versioned or of another kind; every case non-trivial" },
        Facet { prop: "C24", name: "byte-strings", quick: 60_000, thorough: 2_500_000, f: byte_strings, rule: "auxiliary hashes, memos, VRF outputs, signatures and public keys rendered, read back and altered; non-trivial: at least one byte of payload" },
        Facet { prop: "C24", name: "decimals", quick: 400_000, thorough: 20_000_000, f: decimals, rule: "amount, fee and integer texts, valid ones and edited ones, against exact arithmetic; non-trivial: the text is not the canonical form of a number" },
        Facet { prop: "C24", name: "hex", quick: 200_000, thorough: 8_000_000, f: hexes, rule: "field elements, 256-bit integers and body references from hexadecimal texts of any length and prefix, field elements from numbers in any radix; non-trivial: not a 64 digit text" },
        Facet { prop: "C24", name: "memo", quick: 200_000, thorough: 8_000_000, f: memo, rule: "memos from texts of 0-40 bytes and from arbitrary bytes; non-trivial: not empty" },
        Facet { prop: "C24", name: "chars", quick: 60_000, thorough: 2_000_000, f: chars, rule: "single characters and byte strings from texts of 0-4 characters and to text from arbitrary bytes; non-trivial: not a single ASCII character" },
        Facet { prop: "C24", name: "graphql", quick: 25_000, thorough: 1_000_000, f: graphql, rule: "a protocol state or an account rendered as GraphQL JSON and read back, one leaf of it spoiled in half of the cases; every case non-trivial" },
    ]
}

fn bytes32(s: &mut Src) -> [u8; 32] {
    let mut b = [0u8; 32];
    match s.below(5) {
        0 => {}
        1 => b = [s.byte(); 32],
        2 => b[s.usz(32)] = s.byte(),
        _ => b.copy_from_slice(&s.bytes(32)),
    }
    b
}

/// the text changed in one of several ways
fn alter(s: &mut Src, t: &str, other: Option<String>) -> String {
    let mut v: Vec<char> = t.chars().collect();
    match s.below(8) {
        0 if !v.is_empty() => {
            let i = s.usz(v.len());
            v.remove(i);
        }
        1 => {
            let i = s.usz(v.len() + 1);
            let c = *s.pick(&['1', '2', 'z', '0', 'O', 'l', ' ', '=', '-', 'é', '\0']);
            v.insert(i, c);
        }
        2 if v.len() > 1 => {
            let i = s.usz(v.len() - 1);
            v.swap(i, i + 1);
        }
        3 => {
            let n = s.usz(v.len() + 1);
            v.truncate(n);
        }
        4 => {
            if let Some(o) = other {
                return o;
            }
        }
        _ if !v.is_empty() => {
            let i = s.usz(v.len());
            v[i] = (b'!' + s.below(93) as u8) as char;
        }
        _ => {}
    }
    v.into_iter().collect()
}

type Parse = fn(&str) -> Option<[u8; 32]>;
struct Kind {
    name: &'static str,
    version: u8,
    show: fn([u8; 32]) -> String,
    json: fn([u8; 32]) -> String,
    parse: Parse,
    unjson: Parse,
}
macro_rules! kind {
    ($t:ty, $j:ty, $v:expr) => {
        Kind {
            name: stringify!($t),
            version: $v,
            show: |b| <$t>::from(HashV1::from(b)).to_string(),
            json: |b| serde_json::to_string(&<$j>::from(<$t>::from(HashV1::from(b)))).unwrap(),
            parse: |t| <$t>::from_str(t).ok().map(|h| HashV1::from(h).t),
            unjson: |t| serde_json::from_str::<$j>(t).ok().map(|h| HashV1::from(<$t>::from(h)).t),
        }
    };
}
fn kinds() -> Vec<Kind> {
    vec![
        kind!(LedgerHash, LedgerHashV1Json, 0x05),
        kind!(ChainHash, ChainHashV1Json, 0x05),
        kind!(CoinBaseHash, CoinBaseHashV1Json, 0x0c),
        kind!(EpochSeed, EpochSeedHashV1Json, 0x0d),
        kind!(StateHash, StateHashV1Json, 0x10),
        kind!(StateBodyHash, StateBodyHashV1Json, 0x11),
        kind!(VrfOutputHash, VrfOutputHashV1Json, 0x15),
    ]
}

fn hashes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ks = kinds();
    let k = &ks[s.usz(ks.len())];
    let b = bytes32(s);
    let mut payload = vec![1u8];
    payload.extend_from_slice(&b);
    let want = check(k.version, &payload);
    ctx.case(hash_of(&(k.name, b, s.u64() & 0xff)), true);
    ctx.sample(|| format!("{} {} = {want}", k.name, hex(&b)));
    let got = guard(|| (k.show)(b)).map_err(|f| Fail(format!("{} {} is not rendered: {}", k.name, hex(&b), f.0)))?;
    ensure!(got == want, "{} {} is shown as {got}, expected {want}", k.name, hex(&b));
    let j = (k.json)(b);
    ensure!(j == format!("\"{want}\""), "{} {} is {j} in JSON, expected \"{want}\"", k.name, hex(&b));
    ensure!((k.parse)(&want) == Some(b), "{want} is read as {:?} by {}, it stands for {}", (k.parse)(&want).map(|x| hex(&x)), k.name, hex(&b));
    ensure!((k.unjson)(&j) == Some(b), "{j} is read as {:?} by {} in JSON, it stands for {}", (k.unjson)(&j).map(|x| hex(&x)), k.name, hex(&b));
    // another text
    let other = match s.below(4) {
        0 => Some(check(ks[s.usz(ks.len())].version, &payload)),
        1 => Some(check(s.byte(), &payload)),
        2 => {
            let n = s.usz(70);
            let p = s.bytes(n);
            Some(check(k.version, &p))
        }
        _ => {
            payload.push(s.byte());
            Some(check(k.version, &payload))
        }
    };
    let t = alter(s, &want, other);
    let stands = uncheck(k.version, &t);
    // the version byte in front of the 32 bytes is not claimed
    let clear = !matches!(&stands, Some(p) if p.len() == 33 && p[0] != 1) && !matches!(&stands, Some(p) if p.first() == Some(&0xfe) || p.first() == Some(&0xfd) || p.first() == Some(&0xfc));
    let want2 = stands.as_ref().filter(|p| p.len() == 33).map(|p| <[u8; 32]>::try_from(&p[1..]).unwrap());
    let got = guard(|| (k.parse)(&t)).map_err(|f| Fail(format!("{} from {t:?}: {}", k.name, f.0)))?;
    let got_j = guard(|| (k.unjson)(&serde_json::to_string(&t).unwrap())).map_err(|f| Fail(format!("{} from JSON {t:?}: {}", k.name, f.0)))?;
    ctx.label(if want2.is_some() { "other text stands for a hash" } else { "other text stands for nothing" });
    if clear {
        ensure!(got == want2, "{} from {t:?}: {:?}, it stands for {:?}", k.name, got.map(|x| hex(&x)), want2.map(|x| hex(&x)));
        ensure!(got_j == want2, "{} from JSON {t:?}: {:?}, it stands for {:?}", k.name, got_j.map(|x| hex(&x)), want2.map(|x| hex(&x)));
    }
    Ok(())
}

fn byte_strings(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match s.below(4) {
        0 => s.usz(4),
        1 => 32,
        2 => 34,
        _ => s.usz(80),
    };
    let mut b = s.bytes(n);
    if s.chance(1, 5) {
        for x in b.iter_mut().take(n / 2) {
            *x = 0;
        }
    }
    let kind = s.below(6);
    ctx.label(["aux hash", "pending coinbase aux hash", "memo", "vrf output", "signature", "public key"][kind as usize]);
    ctx.case(hash_of(&(kind, &b)), n > 0);
    ctx.sample(|| format!("kind {kind}, {}", hex(&b)));
    type Show = fn(&[u8]) -> String;
    type Read = fn(&str) -> Option<Vec<u8>>;
    if kind < 3 {
        let (v, show, json, read): (u8, Show, Show, Read) = match kind {
            0 => (0x0e, |b| AuxHash(b.to_vec()).to_string(), |b| serde_json::to_string(&AuxHashJson::from(AuxHash(b.to_vec()))).unwrap(), |t| AuxHash::from_str(t).ok().map(|x| x.0)),
            1 => (0x0f, |b| PendingCoinbaseAuxHash(b.to_vec()).to_string(), |b| serde_json::to_string(&PendingCoinbaseAuxHashJson::from(b.to_vec())).unwrap(), |t| PendingCoinbaseAuxHash::from_str(t).ok().map(|x| x.0)),
            _ => (0x14, |b| SignedCommandMemo(b.to_vec()).to_string(), |b| serde_json::to_string(&SignedCommandMemoJson(b.to_vec())).unwrap(), |t| SignedCommandMemo::from_str(t).ok().map(|x| x.0)),
        };
        let want = check(v, &b);
        ensure!(show(&b) == want, "{} is shown as {}, expected {want}", hex(&b), show(&b));
        ensure!(json(&b) == format!("\"{want}\""), "{} is {} in JSON, expected {want}", hex(&b), json(&b));
        ensure!(read(&want) == Some(b.clone()), "{want} is read as {:?}, it stands for {}", read(&want).map(|x| hex(&x)), hex(&b));
        let other = Some(check(*s.pick(&[0x0e, 0x0f, 0x14, 0x15, 0x05, 0x9a]), &b));
        let t = alter(s, &want, other);
        let stands = uncheck(v, &t);
        let got = guard(|| read(&t)).map_err(|f| Fail(format!("from {t:?}: {}", f.0)))?;
        ensure!(got == stands, "{t:?} is read as {:?}, it stands for {:?}", got.map(|x| hex(&x)), stands.map(|x| hex(&x)));
        return Ok(());
    }
    match kind {
        3 => {
            let v = VrfOutputTruncated(b.clone());
            let want = b64(&b);
            let got = v.to_base64_string().map_err(|e| Fail(e.to_string()))?;
            ensure!(got == want && v.to_string() == want, "VRF output {} is {got} in base 64, expected {want}", hex(&b));
            let back = VrfOutputTruncated::from_base64_str(&want).map_err(|e| Fail(format!("{want}: {e}")))?;
            ensure!(back.0 == b, "{want} is read as {}, it stands for {}", hex(&back.0), hex(&b));
            let mut p = vec![b.len() as u8];
            p.extend_from_slice(&b);
            let want58 = check(0x15, &p);
            let got = v.to_base58_string().map_err(|e| Fail(e.to_string()))?;
            ensure!(got == want58, "VRF output {} is {got} in base 58, expected {want58}", hex(&b));
            let back = VrfOutputTruncated::from_base58_str(&want58).map_err(|e| Fail(format!("{want58}: {e}")))?;
            ensure!(back.0 == b, "{want58} is read as {}, it stands for {}", hex(&back.0), hex(&b));
            // altered
            let t = alter(s, &want, Some(want58.clone()));
            let got = guard(|| VrfOutputTruncated::from_base64_str(&t).ok()).map_err(|f| Fail(format!("from {t:?}: {}", f.0)))?;
            if let Some(g) = got {
                ensure!(b64(&g.0).trim_end_matches('=') == t.trim_end_matches('='), "{t:?} is read as {}", hex(&g.0));
            } else {
                let ok = unb64(&t);
                ensure!(ok.is_none(), "{t:?} is refused, it stands for {}", hex(&ok.unwrap()));
            }
            let t = alter(s, &want58, Some(want));
            let stands = uncheck(0x15, &t);
            let got = guard(|| VrfOutputTruncated::from_base58_str(&t).ok()).map_err(|f| Fail(format!("from {t:?}: {}", f.0)))?;
            match stands {
                None => ensure!(got.is_none(), "{t:?} is read as {}, its check fails", hex(&got.unwrap().0)),
                Some(p) if p.len() > 0 && p[0] as usize == p.len() - 1 => ensure!(got.as_ref().map(|g| &g.0[..]) == Some(&p[1..]), "{t:?} is read as {got:?}, it stands for {}", hex(&p[1..])),
                _ => {}
            }
        }
        4 => {
            let (mut rx, mut sc) = (bytes32(s), bytes32(s));
            rx[31] &= 0x3f;
            sc[31] &= 0x3f;
            let w = st::v1::SignatureV1((rx, sc).into());
            let mut p = vec![1u8];
            p.extend_from_slice(&rx);
            p.extend_from_slice(&sc);
            let want = check(0x9a, &p);
            let j = serde_json::to_string(&SignatureJson::from(w.clone())).unwrap();
            ensure!(j == format!("\"{want}\""), "signature ({}, {}) is {j}, expected {want}", hex(&rx), hex(&sc));
            let back: SignatureJson = serde_json::from_str(&j).map_err(|e| Fail(format!("{j}: {e}")))?;
            ensure!(st::v1::SignatureV1::from(back) == w, "{j} is not read as the signature it stands for");
            let other = match s.below(3) {
                0 => Some(check(s.byte(), &p)),
                1 => {
                    p.push(0);
                    Some(check(0x9a, &p))
                }
                _ => {
                    p.pop();
                    Some(check(0x9a, &p))
                }
            };
            let t = alter(s, &want, other);
            let stands = uncheck(0x9a, &t).filter(|p| p.len() == 65 && p[0] == 1);
            if uncheck(0x9a, &t).map_or(false, |p| p.first() != Some(&1)) {
                return Ok(());
            }
            let got = guard(|| serde_json::from_value::<SignatureJson>(json!(t)).ok()).map_err(|f| Fail(format!("from {t:?}: {}", f.0)))?;
            ensure!(got.is_some() == stands.is_some(), "signature text {t:?} is {}, expected {}", if got.is_some() { "read" } else { "refused" }, if stands.is_some() { "read" } else { "refused" });
        }
        _ => {
            let mut x = bytes32(s);
            x[31] &= 0x3f;
            let odd = s.bool();
            let want = address(&x, odd);
            let w = CompressedCurvePoint { x, is_odd: odd };
            ensure!(w.to_string() == want, "public key {w:?} is shown as {w}, expected {want}");
            let back = CompressedCurvePoint::from_str(&want).map_err(|e| Fail(format!("{want}: {e}")))?;
            ensure!(back == w, "{want} is read as {back:?}, it stands for {w:?}");
            let j = serde_json::to_string(&PublicKeyJson::from(w.clone())).unwrap();
            ensure!(j == format!("\"{want}\""), "public key {w:?} is {j} in JSON, expected {want}");
            let other = Some(check(s.byte(), &s.bytes(35)));
            let t = alter(s, &want, other);
            let stands = uncheck(0xcb, &t).filter(|p| p.len() == 35 && p[..2] == [1, 1] && p[34] < 2);
            let got = guard(|| CompressedCurvePoint::from_str(&t).ok()).map_err(|f| Fail(format!("from {t:?}: {}", f.0)))?;
            match stands {
                None => ensure!(got.is_none(), "address {t:?} is read as {got:?}"),
                Some(p) => {
                    if let Some(g) = got {
                        ensure!(g.x[..] == p[2..34] && g.is_odd == (p[34] == 1), "address {t:?} is read as {g:?}");
                    }
                }
            }
        }
    }
    Ok(())
}
/// strictly padded text
fn unb64(t: &str) -> Option<Vec<u8>> {
    if t.len() % 4 != 0 || !t.is_ascii() {
        return None;
    }
    let mut out = vec![];
    let mut acc = 0u32;
    let body = t.trim_end_matches('=');
    if t.len() - body.len() > 2 {
        return None;
    }
    for (i, c) in body.bytes().enumerate() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        } as u32;
        acc = acc << 6 | v;
        if i % 4 == 3 {
            out.extend_from_slice(&acc.to_be_bytes()[1..]);
            acc = 0;
        }
    }
    match body.len() % 4 {
        1 => return None,
        2 => out.push((acc >> 4) as u8),
        3 => {
            out.push((acc >> 10) as u8);
            out.push((acc >> 2) as u8);
        }
        _ => {}
    }
    (b64(&out) == t).then_some(out)
}

/// What a text stands for in a fixed-point format with nine decimals
enum Dec {
    /// a plain number: it has to be read, as exactly this
    Must(u64),
    /// readers may differ on whether they take it, but not on its value
    May(u64),
    No,
}
fn dec(t: &str, fraction: bool) -> Dec {
    let mut may = false;
    let u = match t.strip_prefix('+') {
        Some(u) => {
            may = true;
            u
        }
        None => t,
    };
    let (q, r) = match u.split_once('.') {
        Some(_) if !fraction => return Dec::No,
        Some((q, r)) => {
            if q.is_empty() || r.is_empty() {
                may = true;
            }
            if q.is_empty() && r.is_empty() {
                return Dec::No;
            }
            (q, r)
        }
        None if u.is_empty() => return Dec::No,
        None => (u, ""),
    };
    if !q.bytes().chain(r.bytes()).all(|c| c.is_ascii_digit()) {
        return Dec::No;
    }
    let mut r = r.to_string();
    if r.len() > 9 {
        if r[9..].bytes().any(|c| c != b'0') {
            return Dec::No;
        }
        r.truncate(9);
        may = true;
    }
    let digits = if fraction { format!("0{q}{r:0<9}") } else { format!("0{q}") };
    match digits.trim_start_matches('0') {
        "" => if may { Dec::May(0) } else { Dec::Must(0) },
        d => match d.parse::<u64>() {
            Ok(n) if may => Dec::May(n),
            Ok(n) => Dec::Must(n),
            _ => Dec::No,
        },
    }
}
fn judge(what: &str, t: &str, d: Dec, got: Option<u64>) -> Res {
    match (d, got) {
        (Dec::Must(n), Some(g)) | (Dec::May(n), Some(g)) => ensure!(n == g, "{what} {t:?} is read as {g}, it stands for {n}"),
        (Dec::Must(n), None) => fail!("{what} {t:?} is refused, it stands for {n}"),
        (Dec::No, Some(g)) => fail!("{what} {t:?} is read as {g}, it stands for no such number"),
        _ => {}
    }
    Ok(())
}

fn decimals(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match s.below(6) {
        0 => s.below(20),
        1 => s.below(30) * 1_000_000_000,
        2 => 10u64.pow(s.below(20) as u32),
        3 => u64::MAX - s.below(3),
        4 => u32::MAX as u64 + s.below(3),
        _ => s.u64() >> s.below(64),
    };
    // the canonical forms
    let full = decimal(n, false);
    let trimmed = decimal(n, true);
    let a = Amount(n);
    ensure!(a.to_string() == full, "amount {n} is shown as {a}, expected {full}");
    ensure!(serde_json::to_string(&DecimalJson(n)).unwrap() == format!("\"{trimmed}\""), "decimal {n} is {} in JSON, expected {trimmed}", serde_json::to_string(&DecimalJson(n)).unwrap());
    ensure!(serde_json::to_string(&U64Json(n)).unwrap() == format!("\"{n}\""), "{n} is not itself in JSON");
    ensure!(serde_json::to_string(&U32Json(n as u32)).unwrap() == format!("\"{}\"", n as u32), "{} is not itself in JSON", n as u32);
    let mut t = match s.below(4) {
        0 => full,
        1 => trimmed,
        2 => n.to_string(),
        _ => {
            // digits anywhere
            let a = s.usz(22);
            let b = s.usz(13);
            let mut t: String = (0..a).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            if s.bool() {
                t.push('.');
                t.extend((0..b).map(|_| (b'0' + s.below(10) as u8) as char));
            }
            t
        }
    };
    let edits = s.below(3);
    for _ in 0..edits {
        let mut v: Vec<char> = t.chars().collect();
        let i = s.usz(v.len() + 1);
        match s.below(4) {
            0 => v.insert(i, (b'0' + s.below(10) as u8) as char),
            1 => v.insert(i, *s.pick(&['.', '+', '-', ' ', 'e', '_', ',', '٣', 'x', '\0'])),
            2 if !v.is_empty() => {
                v.remove(i.min(v.len() - 1));
            }
            _ => v.push('0'),
        }
        t = v.into_iter().collect();
    }
    ctx.case(hash_of(&t), edits > 0);
    ctx.sample(|| format!("{t:?}"));
    match dec(&t, true) {
        Dec::Must(_) => ctx.label("number"),
        Dec::May(_) => ctx.label("number in a loose form"),
        Dec::No => ctx.label("no number"),
    }
    let j = json!(t);
    let got = guard(|| Amount::from_str(&t).ok()).map_err(|f| Fail(format!("amount {t:?}: {}", f.0)))?;
    judge("amount", &t, dec(&t, true), got.map(|a| a.0))?;
    let got = guard(|| serde_json::from_value::<DecimalJson>(j.clone()).ok()).map_err(|f| Fail(format!("decimal {t:?}: {}", f.0)))?;
    judge("decimal", &t, dec(&t, true), got.map(|a| a.0))?;
    let got = guard(|| serde_json::from_value::<U64Json>(j.clone()).ok()).map_err(|f| Fail(format!("u64 {t:?}: {}", f.0)))?;
    judge("64-bit integer", &t, dec(&t, false), got.map(|a| a.0))?;
    let got = guard(|| serde_json::from_value::<U32Json>(j.clone()).ok()).map_err(|f| Fail(format!("u32 {t:?}: {}", f.0)))?;
    let d = match dec(&t, false) {
        Dec::Must(n) | Dec::May(n) if n > u32::MAX as u64 => Dec::No,
        d => d,
    };
    judge("32-bit integer", &t, d, got.map(|a| a.0 as u64))?;
    // a block time as a date
    let ms = s.below(253_402_300_800_000);
    let got = guard(|| BlockTime::from_unix_epoch_millis(ms).datetime().unix_timestamp_nanos())?;
    ensure!(got == ms as i128 * 1_000_000, "the block time {ms} is the date {got} ns after the epoch");
    Ok(())
}

fn hexes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bytes32(s);
    let json = serde_json::to_string(&FieldElementJson(b)).unwrap();
    ensure!(json == format!("\"{}\"", hex0x(&b)), "{} is {json} in JSON", hex(&b));
    let h = BigInt256(b).to_hex_string();
    ensure!(h == hex_full(&b), "{} is {h}", hex(&b));
    // a text
    let n = match s.below(5) {
        0 => s.usz(80),
        1 => 31,
        2 => 33,
        _ => 32,
    };
    let mut v = b.to_vec();
    v.resize(n, 0x5a);
    let mut t = hex_full(&v);
    if s.bool() {
        t = t.to_uppercase();
    }
    let prefix = *s.pick(&["", "0x", "\\x", "0X", "x", "0", "\\"]);
    let mut t = format!("{prefix}{t}");
    let edited = s.chance(1, 3);
    if edited {
        t = alter(s, &t, None);
    }
    ctx.case(hash_of(&t), n != 32 || edited || !prefix.is_empty());
    ctx.sample(|| t.clone());
    let body = t.strip_prefix("0x").or_else(|| t.strip_prefix("\\x")).unwrap_or(&t);
    let plain = |u: &str| (u.len() == 64 && u.bytes().all(|c| c.is_ascii_hexdigit())).then(|| unhex(u));
    let want = plain(body);
    ctx.label(if want.is_some() { "32 bytes" } else { "not 32 bytes" });
    let show = |x: &Option<Vec<u8>>| x.as_ref().map(|x| hex(x));
    let got = guard(|| serde_json::from_value::<FieldElementJson>(json!(t)).ok().map(|x| x.0.to_vec())).map_err(|f| Fail(format!("field element from {t:?}: {}", f.0)))?;
    ensure!(got == want, "field element from {t:?}: {:?}, it stands for {:?}", show(&got), show(&want));
    let got = guard(|| BigInt256::try_from_hex(&t).ok().map(|x| x.0.to_vec())).map_err(|f| Fail(format!("256-bit integer from {t:?}: {}", f.0)))?;
    ensure!(got == want, "256-bit integer from {t:?}: {:?}, it stands for {:?}", show(&got), show(&want));
    let want = plain(&t);
    let got = guard(|| BodyReference::from_hex(&t).ok().map(|x| x.0.to_vec())).map_err(|f| Fail(format!("body reference from {t:?}: {}", f.0)))?;
    if want.is_some() || !t.starts_with("0x") {
        ensure!(got == want, "body reference from {t:?}: {:?}, it stands for {:?}", show(&got), show(&want));
    }
    // numbers in a radix
    let p = BigUint::parse_bytes(b"40000000000000000000000000000000224698fc094cf91b992d30ed00000001", 16).unwrap();
    let x = match s.below(4) {
        0 => BigUint::from(s.u64()),
        1 => &p - BigUint::from(1u32) + BigUint::from(s.below(3)),
        _ => BigUint::from_bytes_le(&b),
    };
    let radix = *s.pick(&[16u32, 10, 2, 36, 7]);
    let t = x.to_str_radix(radix);
    let got = guard(|| Field::from_str_radix(&t, radix).ok()).map_err(|f| Fail(format!("field element from {t} in base {radix}: {}", f.0)))?;
    let mut le = x.to_bytes_le();
    let canonical = x < p;
    le.resize(32.max(le.len()), 0);
    let got: Option<[u8; 32]> = got.map(|f| f.into());
    if canonical {
        ensure!(got.map(|g| g.to_vec()) == Some(le), "field element from {t} in base {radix}: {:?}", got.map(|x| hex(&x)));
    } else {
        ctx.label("not below the modulus");
        ensure!(got.is_none(), "field element from {t} in base {radix}, which is not below the modulus: {:?}", got.map(|x| hex(&x)));
    }
    Ok(())
}

fn memo(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usz(41);
    let t: Vec<u8> = if s.bool() { s.bytes(n) } else { (0..n).map(|_| b' ' + s.below(95) as u8).collect() };
    ctx.case(hash_of(&t), n > 0);
    ctx.sample(|| hex(&t));
    let m = guard(|| SignedCommandMemo::try_from_text(&t).ok()).map_err(|f| Fail(format!("memo from {}: {}", hex(&t), f.0)))?;
    if n > 32 {
        ensure!(m.is_none(), "a memo takes {n} bytes");
    } else {
        let mut want = vec![1, n as u8];
        want.extend_from_slice(&t);
        want.resize(34, 0);
        let Some(m) = m else { fail!("no memo of {n} bytes: {}", hex(&t)) };
        ensure!(m.0 == want, "memo of {}: {}", hex(&t), hex(&m.0));
        let text = guard(|| m.to_text()).map_err(|f| Fail(format!("text of memo {}: {}", hex(&m.0), f.0)))?;
        ensure!(text == String::from_utf8_lossy(&t), "text of memo {}: {text:?}", hex(&m.0));
        let back = SignedCommandMemo::from_str(&m.to_string()).map_err(|e| Fail(e.to_string()))?;
        ensure!(back == m, "memo {} comes back as {}", hex(&m.0), hex(&back.0));
    }
    // memos arrive from the network as arbitrary bytes
    let k = if s.bool() { 34 } else { s.usz(40) };
    let mut raw = s.bytes(k);
    if k > 1 && s.bool() {
        raw[1] = s.below(40) as u8;
    }
    let text = guard(|| SignedCommandMemo(raw.clone()).to_text()).map_err(|f| Fail(format!("text of memo {}: {}", hex(&raw), f.0)))?;
    if k > 1 && raw[1] as usize + 2 <= k {
        let want = String::from_utf8_lossy(&raw[2..2 + raw[1] as usize]).to_string();
        ensure!(text == want, "text of memo {}: {text:?}, expected {want:?}", hex(&raw));
    } else {
        ctx.label("memo shorter than it says");
    }
    Ok(())
}

fn chars(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = if s.bool() { 1 } else { s.usz(5) };
    let mut t = String::new();
    for _ in 0..n {
        t.push(match s.below(6) {
            0 => *s.pick(&['\0', '\u{7f}', '\u{80}', 'é', 'ÿ', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{10ffff}', '"', '\\']),
            1 => char::from_u32(s.below(0x300) as u32).unwrap(),
            _ => (s.byte() & 0x7f) as char,
        });
    }
    ctx.case(hash_of(&t), t.len() != 1);
    ctx.sample(|| format!("{t:?}"));
    let want = (t.len() == 1).then(|| t.as_bytes()[0]);
    let j = json!(t);
    let got = guard(|| serde_json::from_value::<CharJson>(j.clone()).ok().map(|c| c.0)).map_err(|f| Fail(format!("character from {t:?}: {}", f.0)))?;
    ensure!(got == want, "character from {t:?}: {got:?}, it stands for {want:?}");
    let got = guard(|| Char::from_str(&t).ok().map(|c| c.0)).map_err(|f| Fail(format!("character from {t:?}: {}", f.0)))?;
    ensure!(got == want, "character from {t:?}: {got:?}, it stands for {want:?}");
    let got = guard(|| serde_json::from_value::<ByteVecJson>(j).ok().map(|c| c.0)).map_err(|f| Fail(format!("byte string from {t:?}: {}", f.0)))?;
    ensure!(got.as_deref() == Some(t.as_bytes()), "byte string from {t:?}: {got:?}");
    // arbitrary bytes are at least written as a valid text, ASCII ones as themselves
    let n = s.usz(6);
    let b = s.bytes(n);
    let v = guard(|| serde_json::to_string(&ByteVecJson(b.clone())).ok()).map_err(|f| Fail(format!("text of {}: {}", hex(&b), f.0)))?;
    let v = v.and_then(|v| String::from_utf8(v.into_bytes()).ok());
    let want = serde_json::to_string(&String::from_utf8_lossy(&b)).unwrap();
    ensure!(v.as_ref() == Some(&want), "text of bytes {}: {v:?}, expected {want}", hex(&b));
    let c = s.byte();
    let v = guard(|| serde_json::to_string(&CharJson(c)).ok()).map_err(|f| Fail(format!("text of {c:#x}: {}", f.0)))?;
    let v = v.and_then(|v| String::from_utf8(v.into_bytes()).ok());
    let want = serde_json::to_string(&String::from_utf8_lossy(&[c])).unwrap();
    ensure!(v.as_ref() == Some(&want), "text of character {c:#x}: {v:?}, expected {want}");
    Ok(())
}

// ---- GraphQL

fn h(v: u8, h: &HashV1) -> Value {
    let mut p = vec![1];
    p.extend_from_slice(&h.t);
    json!(check(v, &p))
}
fn pk_json(p: &CompressedCurvePoint) -> Value {
    json!(address(&p.x, p.is_odd))
}
fn num<T: ToString>(t: T) -> Value {
    json!(t.to_string())
}
fn epoch_ledger(w: &st::epoch_data::EpochLedger) -> Value {
    json!({"hash": h(0x05, &w.hash), "totalCurrency": num(w.total_currency.t.t)})
}
fn epoch_data(w: &st::epoch_data::EpochData) -> Value {
    json!({
        "epochLength": num(w.epoch_length.t.t),
        "lockCheckpoint": h(0x10, &w.lock_checkpoint),
        "startCheckpoint": h(0x10, &w.start_checkpoint),
        "seed": h(0x0d, &w.seed),
        "ledger": epoch_ledger(&w.ledger.t.t),
    })
}
fn hash(b: [u8; 32]) -> HashV1 {
    HashV1::from(b)
}

fn spoil(s: &mut Src, j: &mut Value, skip: &[&str]) -> Option<String> {
    // the leaves that hold a number, a hash or a key
    fn paths(j: &Value, at: String, out: &mut Vec<String>) {
        match j {
            Value::Object(m) => {
                for (k, v) in m {
                    paths(v, format!("{at}/{k}"), out);
                }
            }
            Value::String(_) => out.push(at),
            _ => {}
        }
    }
    let mut ps = vec![];
    paths(j, String::new(), &mut ps);
    ps.retain(|p| !skip.iter().any(|k| p.ends_with(k) || k.ends_with('/') && p.contains(k)));
    let p = s.pick(&ps).clone();
    let leaf = j.pointer_mut(&p).unwrap();
    let old = leaf.as_str().unwrap().to_string();
    *leaf = match s.below(4) {
        0 => Value::Null,
        1 => json!(format!("{old}!")),
        2 => json!({ "v": old }),
        _ => json!("-1"),
    };
    Some(p)
}

fn graphql(s: &mut Src, ctx: &mut Ctx) -> Res {
    let bad = s.bool();
    if s.chance(1, 3) {
        return account(s, ctx, bad, None);
    }
    state(s, ctx, bad, None)
}
/// a GraphQL protocol state
pub fn state_document(s: &mut Src, ctx: &mut Ctx) -> Value {
    let mut v = Value::Null;
    let _ = state(s, ctx, false, Some(&mut v));
    v
}
/// a GraphQL account
pub fn account_document(s: &mut Src, ctx: &mut Ctx) -> Value {
    let mut v = Value::Null;
    let _ = account(s, ctx, false, Some(&mut v));
    v
}
fn state(s: &mut Src, ctx: &mut Ctx, bad: bool, only: Option<&mut Value>) -> Res {
    let cs: st::consensus_state::ConsensusState = gen::value(s);
    let mut x = |s: &mut Src| hash(bytes32(s));
    let (prev, ledger, snarked, genesis, pending) = (x(s), x(s), x(s), x(s), x(s));
    let (n, m) = (s.usz(40), s.usz(40));
    let (aux, paux) = (s.bytes(n), s.bytes(m));
    let time = s.u64() >> s.below(64);
    let body_ref = bytes32(s);
    let bc_json = json!({
        "date": num(time), "utcDate": num(time),
        "snarkedLedgerHash": h(0x05, &snarked), "stagedLedgerHash": h(0x05, &ledger),
        "stagedLedgerAuxHash": check(0x0e, &aux), "stagedLedgerPendingCoinbaseAux": check(0x0f, &paux),
        "stagedLedgerPendingCoinbaseHash": h(0x0c, &pending), "stagedLedgerProofEmitted": s.bool(),
        "genesisLedgerHash": h(0x05, &genesis), "bodyReference": hex_full(&body_ref),
    });
    let mut vrf = vec![cs.last_vrf_output.t.0.len() as u8];
    vrf.extend_from_slice(&cs.last_vrf_output.t.0);
    let cs_json = json!({
        "blockCreator": pk_json(&cs.block_creator.0.t.t), "blockStakeWinner": pk_json(&cs.block_stake_winner.0.t.t),
        "coinbaseReceiever": pk_json(&cs.coinbase_receiver.0.t.t),
        "blockHeight": num(cs.blockchain_length.t.t), "blockchainLength": num(cs.blockchain_length.t.t),
        "epoch": "0", "epochCount": num(cs.epoch_count.t.t),
        "hasAncestorInSameCheckpointWindow": cs.has_ancestor_in_same_checkpoint_window,
        "lastVrfOutput": check(0x15, &vrf),
        "minWindowDensity": num(cs.min_window_density.t.t),
        "slot": num(cs.curr_global_slot.t.t.slot_number.t.t), "slotSinceGenesis": num(cs.global_slot_since_genesis.t.t),
        "superchargedCoinbase": cs.supercharge_coinbase, "totalCurrency": num(cs.total_currency.t.t),
        "nextEpochData": epoch_data(&cs.next_epoch_data.t.t), "stakingEpochData": epoch_data(&cs.staking_epoch_data.t.t),
    });
    let mut j = json!({"previousStateHash": h(0x10, &prev), "blockchainState": bc_json, "consensusState": cs_json});
    if let Some(o) = only {
        *o = j;
        return Ok(());
    }
    ctx.case(hash_of(&j.to_string()), true);
    ctx.sample(|| j.to_string());
    if bad {
        let p = spoil(s, &mut j, &["/date", "/blockchainLength", "/epoch"]);
        let Some(p) = p else { return Ok(()) };
        ctx.label("spoiled protocol state");
        let got = guard(|| ProtocolState::from_graphql_json(&j).is_ok()).map_err(|f| Fail(format!("protocol state with {p} = {}: {}", j.pointer(&p).unwrap(), f.0)))?;
        ensure!(!got, "a protocol state with {p} = {} is read", j.pointer(&p).unwrap());
        return Ok(());
    }
    ctx.label("protocol state");
    let got = guard(|| ProtocolState::from_graphql_json(&j)).map_err(|f| Fail(format!("protocol state {j}: {}", f.0)))?.map_err(|e| Fail(format!("protocol state {j} is refused: {e}")))?;
    ensure!(HashV1::from(got.previous_state_hash.clone()) == prev, "previous state hash of {j}: {}", got.previous_state_hash);
    let b = &got.body.blockchain_state;
    let f = |what: &str, got: HashV1, want: &HashV1| -> Res {
        ensure!(got == *want, "{what} of {j}: {}", hex(&got.t));
        Ok(())
    };
    f("staged ledger hash", b.staged_ledger_hash.non_snark.ledger_hash.clone().into(), &ledger)?;
    f("pending coinbase hash", b.staged_ledger_hash.pending_coinbase_hash.clone().into(), &pending)?;
    f("genesis ledger hash", b.genesis_ledger_hash.clone().into(), &genesis)?;
    f("snarked ledger hash", b.registers.ledger.clone().into(), &snarked)?;
    ensure!(b.staged_ledger_hash.non_snark.aux_hash.0 == aux, "aux hash of {j}: {}", hex(&b.staged_ledger_hash.non_snark.aux_hash.0));
    ensure!(b.staged_ledger_hash.non_snark.pending_coinbase_aux.0 == paux, "pending coinbase aux hash of {j}: {}", hex(&b.staged_ledger_hash.non_snark.pending_coinbase_aux.0));
    ensure!(b.timestamp.0 == time, "timestamp of {j}: {:?}", b.timestamp);
    ensure!(b.body_reference.0 == body_ref, "body reference of {j}: {}", hex(&b.body_reference.0));
    let c = &got.body.consensus_state;
    let pairs: Vec<(&str, u64, u64)> = vec![
        ("blockchain length", c.blockchain_length.0 as u64, cs.blockchain_length.t.t as u64),
        ("epoch count", c.epoch_count.0 as u64, cs.epoch_count.t.t as u64),
        ("minimum window density", c.min_window_density.0 as u64, cs.min_window_density.t.t as u64),
        ("total currency", c.total_currency.0, cs.total_currency.t.t),
        ("slot", c.curr_global_slot.slot_number.0 as u64, cs.curr_global_slot.t.t.slot_number.t.t as u64),
        ("slot since genesis", c.global_slot_since_genesis.0 as u64, cs.global_slot_since_genesis.t.t as u64),
        ("ancestor flag", c.has_ancestor_in_same_checkpoint_window as u64, cs.has_ancestor_in_same_checkpoint_window as u64),
        ("supercharge flag", c.supercharge_coinbase as u64, cs.supercharge_coinbase as u64),
    ];
    for (what, g, w) in pairs {
        ensure!(g == w, "{what} of {j}: {g}");
    }
    ensure!(c.last_vrf_output.0 == cs.last_vrf_output.t.0, "VRF output of {j}: {}", hex(&c.last_vrf_output.0));
    for (what, g, w) in [("block creator", &c.block_creator, &cs.block_creator), ("stake winner", &c.block_stake_winner, &cs.block_stake_winner), ("coinbase receiver", &c.coinbase_receiver, &cs.coinbase_receiver)] {
        ensure!(CompressedCurvePoint::from(g) == w.0.t.t, "{what} of {j}: {g:?}");
    }
    for (what, g, w) in [("next epoch", &c.next_epoch_data, &cs.next_epoch_data.t.t), ("staking epoch", &c.staking_epoch_data, &cs.staking_epoch_data.t.t)] {
        f(&format!("{what} seed"), g.seed.clone().into(), &w.seed)?;
        f(&format!("{what} start checkpoint"), g.start_checkpoint.clone().into(), &w.start_checkpoint)?;
        f(&format!("{what} lock checkpoint"), g.lock_checkpoint.clone().into(), &w.lock_checkpoint)?;
        f(&format!("{what} ledger"), g.ledger.hash.clone().into(), &w.ledger.t.t.hash)?;
        ensure!(g.ledger.total_currency.0 == w.ledger.t.t.total_currency.t.t, "{what} currency of {j}: {:?}", g.ledger.total_currency);
        ensure!(g.epoch_length.0 == w.epoch_length.t.t, "{what} length of {j}: {:?}", g.epoch_length);
    }
    // the parts on their own
    let part = EpochData::from_graphql_json(&j["consensusState"]["nextEpochData"]).map_err(|e| Fail(e.to_string()))?;
    ensure!(part == c.next_epoch_data, "epoch data on its own: {part:?}");
    let part = ConsensusState::from_graphql_json(&j["consensusState"]).map_err(|e| Fail(e.to_string()))?;
    ensure!(part == *c, "consensus state on its own: {part:?}");
    let part = BlockchainState::from_graphql_json(&j["blockchainState"]).map_err(|e| Fail(e.to_string()))?;
    ensure!(part == *b, "blockchain state on its own: {part:?}");
    Ok(())
}

fn account(s: &mut Src, ctx: &mut Ctx, bad: bool, only: Option<&mut Value>) -> Res {
    let pk: CompressedCurvePoint = gen::value(s);
    let delegate: Option<CompressedCurvePoint> = gen::value(s);
    let (token, balance, nonce) = (s.u64() >> s.below(64), s.u64() >> s.below(64), s.u64() as u32);
    let (rc, vf) = (hash(bytes32(s)), hash(bytes32(s)));
    let (owner, disabled, timed) = (s.bool(), s.bool(), s.bool());
    let t: Vec<u64> = (0..5).map(|_| s.u64() >> s.below(64)).collect();
    const AUTH: [&str; 6] = ["None", "Either", "Proof", "Signature", "Both", "Impossible"];
    const PERM: [&str; 11] = ["editState", "send", "receive", "setDelegate", "setPermissions", "setVerificationKey", "setZkappUri", "editSequenceState", "setTokenSymbol", "incrementNonce", "setVotingFor"];
    let perms: Vec<&str> = PERM.iter().map(|_| *s.pick(&AUTH)).collect();
    let mut p = serde_json::Map::new();
    for (k, v) in PERM.iter().zip(&perms) {
        p.insert(k.to_string(), json!(v));
    }
    let mut j = json!({
        "publicKey": pk_json(&pk), "token": num(token), "balance": {"total": num(balance)}, "nonce": num(nonce),
        "receiptChainHash": h(0x05, &rc), "votingFor": h(0x10, &vf), "delegate": delegate.as_ref().map(pk_json),
        "isTokenOwner": owner, "isDisabled": disabled, "permissions": p,
        "timing": if timed { json!({"initialMinimumBalance": num(t[0]), "cliffTime": num(t[1]), "cliffAmount": num(t[2]), "vestingPeriod": num(t[3]), "vestingIncrement": num(t[4])}) } else {
            json!({"initialMinimumBalance": null, "cliffTime": null, "cliffAmount": null, "vestingPeriod": null, "vestingIncrement": null})
        },
    });
    if let Some(o) = only {
        *o = j;
        return Ok(());
    }
    ctx.case(hash_of(&j.to_string()), true);
    ctx.sample(|| j.to_string());
    if bad && timed && s.chance(1, 4) {
        // a part of the timing that is not there: nothing stands in for it
        let k = *s.pick(&["initialMinimumBalance", "cliffTime", "cliffAmount", "vestingPeriod", "vestingIncrement"]);
        j["timing"][k] = s.pick(&[Value::Null, json!(""), json!("x"), json!("-1")]).clone();
        ctx.label("spoiled timing");
        let got = guard(|| Account::from_graphql_json(&j).ok()).map_err(|f| Fail(format!("account {j}: {}", f.0)))?;
        if let Some(a) = got {
            ensure!(matches!(a.timing, Timing::Untimed), "an account with the timing {} is read as {:?}", j["timing"], a.timing);
        }
        return Ok(());
    }
    if bad {
        let Some(p) = spoil(s, &mut j, &["/timing/", "/delegate"]) else { return Ok(()) };
        ctx.label("spoiled account");
        let got = guard(|| Account::from_graphql_json(&j).is_ok()).map_err(|f| Fail(format!("account with {p} = {}: {}", j.pointer(&p).unwrap(), f.0)))?;
        ensure!(!got, "an account with {p} = {} is read", j.pointer(&p).unwrap());
        return Ok(());
    }
    ctx.label("account");
    let a = guard(|| Account::from_graphql_json(&j)).map_err(|f| Fail(format!("account {j}: {}", f.0)))?.map_err(|e| Fail(format!("account {j} is refused: {e}")))?;
    ensure!(CompressedCurvePoint::from(&a.public_key) == pk, "public key of {j}: {:?}", a.public_key);
    ensure!(a.delegate.as_ref().map(CompressedCurvePoint::from) == delegate, "delegate of {j}: {:?}", a.delegate);
    ensure!(a.token_id.0 == token && a.balance.0 == balance && a.nonce.0 == nonce, "token, balance, nonce of {j}: {:?} {:?} {:?}", a.token_id, a.balance, a.nonce);
    ensure!(HashV1::from(a.receipt_chain_hash.clone()) == rc, "receipt chain hash of {j}: {}", a.receipt_chain_hash);
    ensure!(HashV1::from(a.voting_for.clone()) == vf, "voting_for of {j}: {}", a.voting_for);
    use mina_rs_base::account::TokenPermissions as T;
    let tp = match &a.token_permissions {
        T::NotOwned { account_disabled } => (false, *account_disabled),
        T::TokenOwned { disable_new_accounts } => (true, *disable_new_accounts),
    };
    ensure!(tp == (owner, disabled), "token permissions of {j}: {:?}", a.token_permissions);
    match &a.timing {
        Timing::Untimed => ensure!(!timed, "{j} is untimed"),
        Timing::Timed(d) => {
            ensure!(timed, "{j} is timed: {d:?}");
            let g = vec![d.initial_minimum_balance.0, d.cliff_time.0, d.cliff_amount.0, d.vesting_period.0, d.vesting_increment.0];
            ensure!(g == t, "timing of {j}: {d:?}");
        }
    }
    let q: &Permissions = &a.permissions;
    let got = [&q.edit_state, &q.send, &q.receive, &q.set_delegate, &q.set_permissions, &q.set_verification_key, &q.set_zkapp_uri, &q.edit_sequence_state, &q.set_token_symbol, &q.increment_nonce, &q.set_voting_for];
    for ((k, w), g) in PERM.iter().zip(&perms).zip(got) {
        ensure!(format!("{g:?}") == *w, "permission {k} of {j}: {g:?}");
    }
    Ok(())
}
