//! C31: wallet files. What is opened with the password is what was sealed under it; anything else
//! is refused; a wallet is written back as the file it was read from.
use crate::core::*;
use argon2::{Algorithm, Argon2, Params, Version};
use mina_secrets::secret_box::*;
use serde_json::{json, Value};
use xsalsa20poly1305::{aead::generic_array::GenericArray, Aead, KeyInit, XSalsa20Poly1305};

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C31", name: "open", quick: 40_000, thorough: 2_000_000, f: open, rule: "a sealed wallet opened with its password and written back; every case non-trivial" },
        Facet { prop: "C31", name: "wrong", quick: 40_000, thorough: 2_000_000, f: wrong, rule: "a sealed wallet with the password or one field of the file changed; every case non-trivial" },
        Facet { prop: "C31", name: "malformed", quick: 200_000, thorough: 8_000_000, f: malformed, rule: "a wallet file with fields of another length, value, shape or encoding; every case non-trivial" },
        Facet { prop: "C31", name: "fields", quick: 100_000, thorough: 4_000_000, f: fields, rule: "a wallet file with any limits, salt, nonce and contents, read and written back; non-trivial: an operations limit above 3" },
        Facet { prop: "C31", name: "recorded", quick: 4, thorough: 8, f: recorded, rule: "the wallet recorded from mina-keypair-gen and a wrong password; every case non-trivial" },
    ]
}

/// The recorded wallet: also what shows that the cryptographic stand-ins are the real functions.
fn recorded(s: &mut Src, ctx: &mut Ctx) -> Res {
    let text = include_str!("../../../fixtures/test-wallet");
    let (password, address) = (include_bytes!("../../../fixtures/test-wallet.pswd"), include_str!("../../../fixtures/test-wallet.pub"));
    let good = s.bool();
    ctx.case(good as u64, true);
    let b = match guard(|| SecretBox::try_from(text))? {
        Ok(b) => b,
        Err(e) => fail!("the recorded wallet is refused: {e}"),
    };
    if good {
        match guard(|| b.get_keypair(password))? {
            Ok(k) => ensure!(k.get_address() == address.trim(), "the recorded wallet gives the address {} instead of {address}", k.get_address()),
            Err(e) => fail!("the recorded wallet does not open: {e}"),
        }
    } else {
        ensure!(guard(|| b.get_keypair([&password[..], b"x"].concat()))?.is_err(), "the recorded wallet opens with another password");
    }
    Ok(())
}

const ORDER: [u64; 4] = [0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000];

#[derive(Clone, Debug)]
struct Parts {
    nonce: Vec<u8>,
    salt: Vec<u8>,
    mem: i64,
    ops: i64,
    plain: Vec<u8>,
    password: Vec<u8>,
}

fn b58(b: &[u8]) -> String {
    bs58::encode(b).with_check_version(2).into_string()
}

fn password(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => s.below(4),
        1 => s.range(60, 70),
        2 => s.range(120, 200),
        _ => s.range(4, 30),
    };
    let mut p = s.bytes(n as usize);
    if s.bool() {
        for b in &mut p {
            *b = b' ' + *b % 95;
        }
    }
    p
}

/// little-endian scalar below the order of the curve, not zero
fn scalar(s: &mut Src) -> Vec<u8> {
    let mut k = match s.below(6) {
        0 => {
            let mut k = vec![0; 32];
            k[0] = s.byte().max(1);
            k
        }
        1 => {
            // just below the order
            let d = 1 + s.byte() as u64;
            let mut w = ORDER;
            let (v, b) = w[0].overflowing_sub(d);
            w[0] = v;
            if b {
                w[1] -= 1;
            }
            w.iter().flat_map(|x| x.to_le_bytes()).collect()
        }
        _ => {
            let mut k = s.bytes(32);
            k[31] &= 0x3f;
            k
        }
    };
    if k.iter().all(|x| *x == 0) {
        k[31] = 1;
    }
    k
}

fn parts(s: &mut Src) -> Parts {
    let mem = match s.below(3) {
        0 => 8192 + s.below(8192) as i64,
        _ => 8192 + 1024 * s.below(24) as i64,
    };
    let ops = 1 + s.below(3) as i64;
    let mut plain = vec![if s.chance(1, 4) { s.byte() } else { 1 }];
    plain.extend(scalar(s));
    let mut salt = s.bytes(16);
    if s.chance(1, 6) {
        let z = s.usz(16);
        salt[..z].fill(0);
    }
    if s.chance(1, 10) {
        salt[s.usz(16)..].fill(0);
    }
    let mut nonce = s.bytes(24);
    if s.chance(1, 6) {
        let z = s.usz(25);
        nonce[..z].fill(0);
    }
    if s.chance(1, 10) {
        nonce[s.usz(24)..].fill(0xff);
    }
    Parts { nonce, salt, mem, ops, plain, password: password(s) }
}

fn seal(p: &Parts) -> Vec<u8> {
    let mut key = [0; 32];
    let params = Params::new((p.mem / 1024) as u32, p.ops as u32, 1, None).unwrap();
    Argon2::new(Algorithm::Argon2i, Version::V0x13, params).hash_password_into(&p.password, &p.salt, &mut key).unwrap();
    XSalsa20Poly1305::new(GenericArray::from_slice(&key)).encrypt(GenericArray::from_slice(&p.nonce), p.plain.as_slice()).unwrap()
}

fn file(p: &Parts, sealed: &[u8]) -> Value {
    json!({"box_primitive": "xsalsa20poly1305", "pw_primitive": "argon2i", "nonce": b58(&p.nonce), "pwsalt": b58(&p.salt), "pwdiff": [p.mem, p.ops], "ciphertext": b58(sealed)})
}

fn read(v: &Value) -> Result<SecretBox, Error> {
    SecretBox::try_from(v.to_string().as_str())
}

fn open(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = parts(s);
    let v = file(&p, &seal(&p));
    ctx.case(hash_of(&v.to_string()), true);
    let text = match s.below(3) {
        0 => v.to_string(),
        1 => serde_json::to_string_pretty(&v).unwrap(),
        _ => {
            // the fields in another order
            let mut f: Vec<_> = v.as_object().unwrap().iter().map(|(k, v)| format!("{k:?}: {v}")).collect();
            let n = s.usz(f.len());
            f.rotate_left(n);
            format!("{{{}}}", f.join(" ,\n"))
        }
    };
    let b = guard(|| SecretBox::try_from(text.as_str()))?;
    let b = match b {
        Ok(b) => b,
        Err(e) => fail!("a wallet file is refused: {e}: {text}"),
    };
    let got = guard(|| b.get_private_key_bytes(&p.password))?;
    match got {
        Ok(k) => ensure!(k == p.plain[1..], "opening a wallet gives {} instead of {}: {text}, password {:?}", hex_full(&k), hex_full(&p.plain[1..]), p.password),
        Err(e) => fail!("a wallet does not open with its password: {e}: {text}, password {:?}", p.password),
    }
    let kp = match guard(|| b.get_keypair(&p.password))? {
        Ok(k) => k,
        Err(e) => fail!("a wallet gives no key pair: {e}: {text}"),
    };
    let mut be = p.plain[1..].to_vec();
    be.reverse();
    ensure!(kp.to_hex() == hex_full(&be), "the key pair of a wallet is of another private key: {} instead of {}", kp.to_hex(), hex_full(&be));
    // again, and after writing it
    ensure!(guard(|| b.get_private_key_bytes(&p.password))?.ok().as_deref() == Some(&p.plain[1..]), "a wallet opens only once");
    let c = b.clone();
    let out: Value = match guard(|| b.try_into())? {
        Ok(v) => v,
        Err(e) => fail!("a wallet is not written: {e}: {text}"),
    };
    ensure!(out == v, "a wallet is written as {out} instead of {v}");
    let txt: String = match guard(|| c.try_into())? {
        Ok(t) => t,
        Err(e) => fail!("a wallet is not written: {e}: {text}"),
    };
    ensure!(serde_json::from_str::<Value>(&txt).ok().as_ref() == Some(&v), "a wallet is written as {txt} instead of {v}");
    ctx.label(if p.salt[0] == 0 || p.nonce[0] == 0 { "leading zeros" } else { "plain" });
    ctx.sample(|| format!("{v} password {}", hex(&p.password)));
    Ok(())
}

fn flip(s: &mut Src, b: &mut Vec<u8>) {
    let i = s.usz(b.len());
    b[i] ^= 1 << s.below(8);
}

fn wrong(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = parts(s);
    let mut sealed = seal(&p);
    let mut q = p.clone();
    let what = match s.below(8) {
        0 | 1 => {
            match s.below(5) {
                0 if !q.password.is_empty() => {
                    q.password.pop();
                }
                1 => q.password.push(*s.pick(&[0u8, b' ', b'\n', b'a'])),
                2 if !q.password.is_empty() => flip(s, &mut q.password),
                3 => q.password.insert(0, *s.pick(&[0u8, b' '])),
                _ => {
                    q.password = password(s);
                    if q.password == p.password {
                        q.password.push(1);
                    }
                }
            }
            "password"
        }
        2 => {
            flip(s, &mut q.nonce);
            "nonce"
        }
        3 => {
            flip(s, &mut q.salt);
            "salt"
        }
        4 => {
            q.mem = if s.bool() { q.mem + 1024 * s.range(1, 8) as i64 } else { 8192 + 1024 * s.below(24) as i64 };
            if q.mem / 1024 == p.mem / 1024 {
                q.mem += 1024;
            }
            "memory limit"
        }
        5 => {
            q.ops = 1 + (p.ops + s.below(3) as i64) % 4;
            if q.ops == p.ops {
                q.ops += 1;
            }
            "operations limit"
        }
        6 => {
            flip(s, &mut sealed);
            "ciphertext"
        }
        _ => {
            match s.below(4) {
                0 => {
                    sealed.pop();
                }
                1 => sealed.push(s.byte()),
                2 => {
                    let n = s.usz(sealed.len());
                    sealed.truncate(n);
                }
                _ => {
                    sealed.remove(0);
                }
            }
            "length of the ciphertext"
        }
    };
    let v = file(&q, &sealed);
    ctx.case(hash_of(&(v.to_string(), &q.password)), true);
    ctx.label(what);
    let b = match guard(|| read(&v))? {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    match guard(|| b.get_private_key_bytes(&q.password))? {
        Err(_) => {}
        Ok(k) => fail!("a wallet opens although its {what} changed: {} for {v}, password {:?}, sealed as {p:?}", hex_full(&k), q.password),
    }
    if guard(|| b.get_keypair(&q.password))?.is_ok() {
        fail!("a wallet gives a key pair although its {what} changed: {v}")
    }
    let out: Value = match guard(|| b.try_into())? {
        Ok(v) => v,
        Err(e) => fail!("a wallet is not written: {e}: {v}"),
    };
    ensure!(out == v, "a wallet is written as {out} instead of {v}");
    ctx.sample(|| format!("{what}: {v}"));
    Ok(())
}

/// files that would take long to open, or that nothing opens
fn fields(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut p = parts(s);
    p.mem = 8192 + (s.u64() >> (24 + s.below(40))) as i64;
    p.ops = 1 + (s.u64() >> (32 + s.below(32))).min(u32::MAX as u64 - 1) as i64;
    let n = 16 + s.usz(60);
    let v = file(&p, &s.bytes(n));
    ctx.case(hash_of(&v.to_string()), p.ops > 3);
    let b = match guard(|| read(&v))? {
        Ok(b) => b,
        Err(e) => fail!("a wallet file is refused: {e}: {v}"),
    };
    match guard(|| TryInto::<String>::try_into(b.clone()))? {
        Ok(t) => ensure!(serde_json::from_str::<Value>(&t).ok().as_ref() == Some(&v), "a wallet is written back as {t} instead of {v}"),
        Err(e) => fail!("a wallet is not written back: {e}: {v}"),
    }
    ctx.sample(|| v.to_string());
    Ok(())
}

fn malformed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut p = parts(s);
    p.mem = 8192;
    p.ops = 1;
    let mut openable = true;
    // contents that are sealed properly but are no private key
    let mut what = vec![];
    if s.chance(1, 3) {
        let n = match s.below(4) {
            0 => 0,
            1 => 1,
            2 => s.range(2, 40),
            _ => 33,
        } as usize;
        p.plain = s.bytes(n);
        what.push("contents");
    }
    let sealed = seal(&p);
    let mut v = file(&p, &sealed);
    for _ in 0..s.below(3) {
        let name = *s.pick(&["nonce", "pwsalt", "ciphertext", "pwdiff", "primitive", "shape"]);
        what.push(name);
        openable = false;
        match name {
            "pwdiff" => {
                let big = |s: &mut Src| match s.below(8) {
                    0 => Value::from(i64::MIN),
                    1 => Value::from(-(s.u64() as i64 >> 1).abs()),
                    2 => Value::from((1i64 << 42) + 8192 + 1024 * s.below(64) as i64),
                    3 => Value::from(-(1i64 << 42) + 8192),
                    // (a limit that fits is honoured: 4 GiB and more would be)
                    4 => Value::from(((1 + s.below(1 << 19) as i64) << 42) + 8192),
                    5 => Value::from(s.u64() | 1 << 63),
                    6 => Value::from(s.below(8000)),
                    _ => json!(1.5),
                };
                let x = big(s);
                match s.below(4) {
                    _ if !v["pwdiff"].as_array().map_or(false, |a| a.len() > 1) => {}
                    0 | 1 => v["pwdiff"][0] = x,
                    // many operations with a valid memory limit would run for long
                    2 => v["pwdiff"][1] = s.pick(&[json!(0), json!(-1), json!(i64::MIN), json!((1i64 << 32) + 1), json!((1i64 << 32) + 2), json!(-(1i64 << 32) + 1), json!(1u64 << 63), json!("6"), json!(null)]).clone(),
                    _ => v["pwdiff"] = s.pick(&[json!([]), json!([8192]), json!([8192, 1, 1]), json!({}), json!(8192), json!("8192")]).clone(),
                }
            }
            "primitive" => {
                let k = *s.pick(&["box_primitive", "pw_primitive"]);
                v[k] = s.pick(&[json!(""), json!("argon2id"), json!("xsalsa20poly1305 "), json!("argon2i"), json!("xsalsa20poly1305"), json!("Argon2i"), json!(null), json!(1)]).clone();
            }
            "shape" => {
                let o = v.as_object_mut().unwrap();
                let k = s.pick(&["box_primitive", "pw_primitive", "nonce", "pwsalt", "pwdiff", "ciphertext"]).to_string();
                match s.below(3) {
                    0 => {
                        o.remove(&k);
                    }
                    1 => {
                        o.insert(k, s.pick(&[json!(null), json!([]), json!({}), json!(7), json!("")]).clone());
                    }
                    _ => v = s.pick(&[json!(null), json!([]), json!(""), json!(1), json!([v])]).clone(),
                }
            }
            k => {
                let n = match s.below(6) {
                    0 => s.below(4),
                    1 => *s.pick(&[15, 16, 17, 23, 24, 25, 31, 32, 33]),
                    2 => s.below(70),
                    _ => s.below(30),
                } as usize;
                let b = s.bytes(n);
                let t = match s.below(8) {
                    0 => {
                        // another version byte
                        let ver = s.byte();
                        bs58::encode(&b).with_check_version(ver).into_string()
                    }
                    1 => bs58::encode(&b).into_string(),
                    2 => {
                        let mut t = b58(&b).into_bytes();
                        let i = s.usz(t.len());
                        t[i] = s.byte() & 0x7f;
                        String::from_utf8(t).unwrap()
                    }
                    3 => s.pick(&["", "1", "0", "é", "11111", "2"]).to_string(),
                    _ => b58(&b),
                };
                if v.is_object() {
                    v[k] = t.into();
                }
            }
        }
        if !v.is_object() {
            break;
        }
    }
    ctx.case(hash_of(&v.to_string()), true);
    for w in &what {
        ctx.label(w);
    }
    let whole = v["box_primitive"] == "xsalsa20poly1305" && v["pw_primitive"] == "argon2i" && ["nonce", "pwsalt", "ciphertext"].iter().all(|k| v[k].as_str().map_or(false, |t| bs58::decode(t).with_check(Some(2)).into_vec().is_ok())) && v["pwdiff"].as_array().map_or(false, |a| a.len() == 2 && a[0].is_i64() && a[1].is_i64());
    let b = match guard(|| read(&v))? {
        Ok(b) => b,
        Err(e) => {
            ensure!(!openable, "a well-formed wallet file is refused: {e}: {v}");
            return Ok(());
        }
    };
    ctx.label("read");
    ensure!(whole, "a file that is no wallet is read: {v}");
    match guard(|| b.get_private_key_bytes(&p.password))? {
        Ok(k) => {
            // only what is still the sealed wallet may open
            let same = file(&p, &sealed);
            ensure!(v == same, "a wallet opens although its file changed: {v} was {same}");
            ensure!(!p.plain.is_empty() && k == p.plain[1..], "a wallet opens as {} instead of what follows the version byte of {}", hex_full(&k), hex_full(&p.plain));
        }
        Err(e) => ensure!(!openable || p.plain.is_empty(), "a wallet does not open: {e}: {v}"),
    }
    match guard(|| b.get_keypair(&p.password))? {
        Ok(_) => ensure!(p.plain.len() == 33, "a key pair out of {} bytes", p.plain.len()),
        Err(_) => {}
    }
    if let Ok(out) = guard(|| -> Result<Value, Error> { b.try_into() })? {
        ensure!(out == v, "a wallet is written as {out} instead of {v}");
    } else {
        // with the version byte
        let salt = v["pwsalt"].as_str().and_then(|t| bs58::decode(t).with_check(Some(2)).into_vec().ok()).unwrap_or_default();
        ensure!(!(4..=17).contains(&salt.len()), "a wallet is not written: {v}");
    }
    ctx.sample(|| format!("{what:?}: {v}"));
    Ok(())
}
