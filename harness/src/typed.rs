//! C01..C08, C20: strongly typed encoding and decoding.
use crate::core::*;
use crate::dynde::*;
use crate::io::*;
use crate::model::*;
use crate::{alloc, ensure, fail};
use bin_prot::{ReadBinProtExt, WriteBinProtExt};

pub fn gen_case(s: &mut Src) -> (Ty, Val) {
    let o = TyOpts::default();
    let d = *s.pick(&[1u32, 2, 3, 4, 4, 3, 0, 2]);
    let mut t = gen_ty(s, &o, d);
    if !t.compound() && d > 1 && s.below(4) > 0 {
        t = Ty::Struct(vec![("x".into(), t), ("y".into(), gen_ty(s, &o, d - 1)), ("z".into(), gen_ty(s, &o, d - 1))]);
    }
    let mut b = *s.pick(&[40i64, 150, 600]);
    let v = gen_val(s, &t, &mut b);
    (t, v)
}
fn case_with_bytes(s: &mut Src) -> (Ty, Val, Vec<u8>) {
    let (t, v) = gen_case(s);
    let b = encode(&t, &v);
    (t, v, b)
}
fn note(c: &mut Ctx, t: &Ty, v: &Val, b: &[u8], nontrivial: bool) {
    c.case(hash_of(&(t, b)), nontrivial);
    let l = match t {
        Ty::Enum { poly: true, .. } => "top:polyvar",
        Ty::Enum { .. } => "top:enum",
        Ty::Struct(_) => "top:struct",
        Ty::Seq(_) => "top:seq",
        Ty::Option(_) => "top:option",
        Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Newtype(_) => "top:tuple/newtype",
        _ => "top:scalar",
    };
    c.label(l);
    if b.len() >= 128 {
        c.label("encoding>=128 bytes")
    }
    if b.len() >= 8192 {
        c.label("encoding>=8192 bytes")
    }
    c.sample(|| format!("type {t:?} value {v:?} bytes {}", hex(b)));
}

// ------------------------------------------------------------------ C01

fn c01_roundtrip(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, v) = gen_case(s);
    let b = match guard(|| to_vec(&t, &v))? {
        Ok(b) => b,
        Err(e) => fail!("encoding {v:?} of {t:?} failed: {e}"),
    };
    note(c, &t, &v, &b, t.compound() && b.len() > 1);
    match guard(|| lenient(&t, &b[..]))? {
        Ok(w) => ensure!(w == v, "{v:?} of {t:?} came back as {w:?} from {}", hex(&b)),
        Err(e) => fail!("decoding own encoding {} of {v:?}: {t:?} failed: {e}", hex(&b)),
    }
    match guard(|| strict(&t, &b[..]))? {
        Ok(w) => ensure!(w == v, "strict: {v:?} of {t:?} came back as {w:?} from {}", hex(&b)),
        Err(e) => fail!("strict decoding of own encoding {} of {v:?}: {t:?} failed: {e}", hex(&b)),
    }
    // the decoder consumes exactly what the encoder wrote: a marker after it is the next value
    let mut b2 = b.clone();
    b2.extend_from_slice(&[0xfd, 0x78, 0x56, 0x34, 0x12]);
    match guard(|| stream(&[&t, &Ty::I64], &b2[..]))? {
        Ok(w) => ensure!(w[0] == v && w[1] == Val::I(0x12345678), "after {v:?} of {t:?} the marker decoded as {:?}", w[1]),
        Err(e) => fail!("value followed by a marker: {e} ({t:?} {v:?})"),
    }
    Ok(())
}

fn c01_refused(s: &mut Src, c: &mut Ctx) -> Res {
    // values the format cannot carry: chars beyond one byte
    let ch = loop {
        let n = match s.below(3) {
            0 => 0x100 + s.below(0x700) as u32,
            1 => 0x100 * s.range(1, 0x10ff) as u32 + s.below(256) as u32,
            _ => s.range(0x100, 0x10ffff) as u32,
        };
        if let Some(ch) = char::from_u32(n) {
            break ch;
        }
    };
    let o = TyOpts { ann: false, ..Default::default() };
    let inner = gen_ty(s, &o, 1);
    let mut b = 20;
    let iv = gen_val(s, &inner, &mut b);
    let t = Ty::Tuple(vec![inner, Ty::Char]);
    let v = Val::Seq(vec![iv, Val::Char(ch)]);
    c.case(hash_of(&(ch, &t)), true);
    c.sample(|| format!("char {:#x} inside {t:?}", ch as u32));
    match guard(|| to_vec(&t, &v))? {
        Err(_) => Ok(()),
        Ok(b) => fail!("char {:#x} has no one-byte encoding but was written as {}", ch as u32, hex(&b)),
    }
}

fn c01_seq_unknown_len(s: &mut Src, c: &mut Ctx) -> Res {
    struct Unsized(Vec<i64>);
    impl serde::Serialize for Unsized {
        fn serialize<S: serde::Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeSeq;
            let mut q = z.serialize_seq(None)?;
            for x in &self.0 {
                q.serialize_element(x)?
            }
            q.end()
        }
    }
    let n = s.below(5);
    let v = Unsized((0..n).map(|_| s.wide() as i64).collect());
    c.case(hash_of(&v.0), true);
    c.sample(|| format!("sequence of unknown length {:?}", v.0));
    let mut o = vec![];
    match guard(|| bin_prot::to_writer(&mut o, &v))? {
        Err(_) => {
            ensure!(o.is_empty(), "a refused sequence left bytes behind: {}", hex(&o));
            Ok(())
        }
        Ok(()) => fail!("a sequence of unknown length was written as {}", hex(&o)),
    }
}

// ------------------------------------------------------------------ C02

fn c02_bytes(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, v, want) = case_with_bytes(s);
    note(c, &t, &v, &want, want.len() > 1);
    match guard(|| to_vec(&t, &v))? {
        Ok(b) => ensure!(b == want, "{v:?} of {t:?}: written {} but bin_prot says {}", hex(&b), hex(&want)),
        Err(e) => fail!("encoding {v:?} of {t:?} failed: {e}"),
    }
    Ok(())
}
fn c02_prims(s: &mut Src, c: &mut Ctx) -> Res {
    let mut o: Vec<u8> = vec![];
    let mut w: Vec<u8> = vec![];
    let k = s.below(9);
    let before = s.bytes(2);
    o.extend(&before);
    w.extend(&before);
    let (n, d): (Option<usize>, String) = match k {
        0 | 1 => {
            let n = s.int(i64::MIN as i128, i64::MAX as i128) as i64;
            enc_int(n, &mut w);
            let r = guard(|| o.bin_write_integer(n))?;
            (Some(r.map_err(|e| Fail(format!("integer {n}: {e}")))?), format!("integer {n}"))
        }
        2 | 3 => {
            let n = s.int(0, u64::MAX as i128) as u64;
            enc_nat0(n, &mut w);
            let r = guard(|| o.bin_write_nat0(n))?;
            (Some(r.map_err(|e| Fail(format!("nat0 {n}: {e}")))?), format!("nat0 {n}"))
        }
        4 => {
            let f = f64::from_bits(gen_f64(s));
            w.extend(f.to_bits().to_le_bytes());
            (Some(guard(|| o.bin_write_float64(&f))?.unwrap_or(0)), format!("f64 {f:?}"))
        }
        5 => {
            let f = f32::from_bits(s.u64() as u32);
            w.extend(f.to_bits().to_le_bytes());
            (Some(guard(|| o.bin_write_float32(&f))?.unwrap_or(0)), format!("f32 {f:?}"))
        }
        6 => {
            let h = s.int(0, 0x7fff_ffff) as u32;
            enc_tag(h, &mut w);
            (Some(guard(|| o.bin_write_polyvar_tag(h))?.unwrap_or(0)), format!("polyvar tag {h}"))
        }
        7 => {
            let i = s.byte();
            w.push(i);
            (Some(guard(|| o.bin_write_variant_index(i))?.unwrap_or(0)), format!("variant {i}"))
        }
        _ => {
            let b = s.bool();
            let ch = s.byte();
            w.push(b as u8);
            w.push(0);
            w.push(ch);
            guard(|| {
                o.bin_write_bool(b).unwrap();
                o.bin_write_unit().unwrap();
                o.bin_write_char(ch as char).unwrap();
            })?;
            (None, format!("bool {b} unit char {ch:#x}"))
        }
    };
    c.case(hash_of(&(k, &w)), w.len() > 3);
    c.label(["integer", "integer", "nat0", "nat0", "f64", "f32", "tag", "variant", "bool/unit/char"][k as usize]);
    c.sample(|| format!("{d} -> {}", hex(&w[2..])));
    ensure!(o == w, "{d}: written {} but bin_prot says {}", hex(&o[2.min(o.len())..]), hex(&w[2..]));
    if let Some(n) = n {
        ensure!(n == w.len() - 2, "{d}: reported {n} bytes but wrote {}", w.len() - 2);
    }
    Ok(())
}
/// fields annotated with the nat0 / integer modules
fn c02_annotated(s: &mut Src, c: &mut Ctx) -> Res {
    use bin_prot::integers::{integer, nat0};
    #[derive(serde::Serialize, Debug)]
    struct Ann {
        #[serde(with = "nat0")]
        a: u8,
        #[serde(with = "nat0")]
        b: u16,
        #[serde(with = "nat0")]
        c: u32,
        #[serde(with = "nat0")]
        d: u64,
        #[serde(with = "integer")]
        e: i8,
        #[serde(with = "integer")]
        f: i16,
        #[serde(with = "integer")]
        g: u32,
        #[serde(with = "integer")]
        h: i64,
    }
    let x = Ann {
        a: s.int(0, 255) as u8,
        b: s.int(0, 65535) as u16,
        c: s.int(0, u32::MAX as i128) as u32,
        d: s.int(0, u64::MAX as i128) as u64,
        e: s.int(-128, 127) as i8,
        f: s.int(-32768, 32767) as i16,
        g: s.int(0, u32::MAX as i128) as u32,
        h: s.int(i64::MIN as i128, i64::MAX as i128) as i64,
    };
    let mut w = vec![];
    enc_nat0(x.a as u64, &mut w);
    enc_nat0(x.b as u64, &mut w);
    enc_nat0(x.c as u64, &mut w);
    enc_nat0(x.d, &mut w);
    enc_int(x.e as i64, &mut w);
    enc_int(x.f as i64, &mut w);
    enc_int(x.g as i64, &mut w);
    enc_int(x.h, &mut w);
    c.case(hash_of(&w), true);
    c.sample(|| format!("{x:?} -> {}", hex(&w)));
    let mut o = vec![];
    if let Err(e) = guard(|| bin_prot::to_writer(&mut o, &x))? {
        fail!("{x:?}: {e}")
    }
    ensure!(o == w, "{x:?}: written {} but bin_prot says {}", hex(&o), hex(&w));
    Ok(())
}
/// loosely typed values are written with the same encoding
fn c02_value(s: &mut Src, c: &mut Ctx) -> Res {
    let (v, w) = gen_value(s, 3);
    c.case(hash_of(&w), w.len() > 1);
    c.sample(|| format!("{v:?} -> {}", hex(&w)));
    let mut o = vec![];
    if let Err(e) = guard(|| bin_prot::to_writer(&mut o, &v))? {
        fail!("{v:?}: {e}")
    }
    ensure!(o == w, "{v:?}: written {} but bin_prot says {}", hex(&o), hex(&w));
    Ok(())
}
/// any loosely typed value with its encoding
pub fn gen_value(s: &mut Src, depth: u32) -> (bin_prot::Value, Vec<u8>) {
    use bin_prot::Value as V;
    let mut o = vec![];
    let v = match s.below(if depth == 0 { 7 } else { 13 }) {
        0 => {
            o.push(0);
            V::Unit
        }
        1 => {
            let n = s.int(0, u32::MAX as i128) as u32;
            enc_nat0(n as u64, &mut o);
            V::Nat0(n)
        }
        2 => {
            let b = s.bool();
            o.push(b as u8);
            V::Bool(b)
        }
        3 => {
            let mut bud = 300;
            let b = if s.bool() { gen_string(s, &mut bud).into_bytes() } else { let n = s.below(6) as usize; s.bytes(n) };
            enc_nat0(b.len() as u64, &mut o);
            o.extend(&b);
            V::String(b)
        }
        4 => {
            let b = s.byte();
            o.push(b);
            V::Char(b)
        }
        5 => {
            let n = s.int(i64::MIN as i128, i64::MAX as i128) as i64;
            enc_int(n, &mut o);
            V::Int(n)
        }
        6 => {
            let f = gen_f64(s);
            o.extend(f.to_le_bytes());
            V::Float(f64::from_bits(f))
        }
        7 => {
            if s.bool() {
                o.push(1);
                let (v, b) = gen_value(s, depth - 1);
                o.extend(b);
                V::Option(Some(Box::new(v)))
            } else {
                o.push(0);
                V::Option(None)
            }
        }
        8 => {
            let n = s.below(4);
            let mut fs = vec![];
            for _ in 0..n {
                let k = gen_name(s);
                let (v, b) = gen_value(s, depth - 1);
                o.extend(b);
                fs.push((k, v));
            }
            V::Record(fs)
        }
        9 => {
            let n = s.below(4);
            let mut fs = vec![];
            for _ in 0..n {
                let (v, b) = gen_value(s, depth - 1);
                o.extend(b);
                fs.push(v);
            }
            V::Tuple(fs)
        }
        10 => {
            let index = s.byte();
            o.push(index);
            let (v, b) = gen_value(s, depth - 1);
            o.extend(b);
            V::Sum { name: gen_name(s), index, value: Box::new(v) }
        }
        11 => {
            let (name, tag) = if s.bool() {
                let l = gen_label(s);
                let h = ocaml_hash(&l);
                (l, h)
            } else {
                (gen_name(s), s.int(0, 0x7fff_ffff) as u32)
            };
            enc_tag(tag, &mut o);
            let (v, b) = gen_value(s, depth - 1);
            o.extend(b);
            V::Polyvar { name, tag, value: Box::new(v) }
        }
        _ => {
            let mut bud = 100;
            let n = gen_len(s, &mut bud);
            enc_nat0(n as u64, &mut o);
            let mut fs = vec![];
            for _ in 0..n {
                let (v, b) = gen_value(s, if n > 5 { 0 } else { depth - 1 });
                o.extend(b);
                fs.push(v);
            }
            V::List(fs)
        }
    };
    (v, o)
}

// ------------------------------------------------------------------ C03

const INT_TYS: &[Ty] = &[Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::U16, Ty::U32, Ty::U64, Ty::Ann(8), Ty::Ann(16), Ty::Ann(32), Ty::Ann(64)];

fn int_bytes(s: &mut Src) -> Vec<u8> {
    let mut b = vec![];
    match s.below(6) {
        // canonical
        0 | 1 => enc_int(s.int(i64::MIN as i128, i64::MAX as i128) as i64, &mut b),
        // a number in a chosen width, often wider than needed
        2 | 3 => {
            let n = s.int(i64::MIN as i128, i64::MAX as i128);
            match s.below(4) {
                0 => {
                    b.push(0xfc);
                    b.extend((n as i64).to_le_bytes())
                }
                1 => {
                    b.push(0xfd);
                    b.extend((n as i32).to_le_bytes())
                }
                2 => {
                    b.push(0xfe);
                    b.extend((n as i16).to_le_bytes())
                }
                _ => {
                    b.push(0xff);
                    b.push(n as u8)
                }
            }
        }
        4 => {
            b.push(s.byte());
            b.extend(s.bytes(8));
        }
        _ => {
            b.push(*s.pick(&[0xff, 0xfe, 0xfd, 0xfc, 0xfb, 0x80, 0x81, 0x7f]));
            b.extend(s.bytes(8));
        }
    }
    if s.chance(1, 6) {
        let n = s.usz(b.len() + 1);
        b.truncate(n)
    }
    b
}
fn judge<T: PartialEq + std::fmt::Debug, E: std::fmt::Display>(what: &str, b: &[u8], got: Result<T, E>, want: Result<T, Rej>) -> Res {
    match (got, want) {
        (_, Err(Rej::Unspec)) => Ok(()),
        (Ok(g), Ok(w)) => {
            ensure!(g == w, "{what}: {} decoded as {g:?}, it is {w:?}", hex(b));
            Ok(())
        }
        (Err(e), Ok(w)) => fail!("{what}: {} is {w:?} but was rejected: {e}", hex(b)),
        (Ok(g), Err(r)) => fail!("{what}: {} is not acceptable ({r:?}) but decoded as {g:?}", hex(b)),
        (Err(_), Err(_)) => Ok(()),
    }
}
fn c03_typed(s: &mut Src, c: &mut Ctx) -> Res {
    let t = s.pick(INT_TYS).clone();
    let b = int_bytes(s);
    let want = dec(&t, &mut Cur::new(&b));
    c.label(match &want {
        Ok(_) => "accepted",
        Err(Rej::Bad) => "rejected",
        Err(Rej::Eof) => "truncated",
        Err(Rej::Unspec) => "unspecified",
    });
    c.case(hash_of(&(&t, &b)), b.len() > 1 && want != Err(Rej::Unspec));
    c.sample(|| format!("{} as {t:?} -> {want:?}", hex(&b)));
    let got = guard(|| lenient(&t, &b[..]))?;
    judge(&format!("{t:?}"), &b, got, want)
}
fn c03_prims(s: &mut Src, c: &mut Ctx) -> Res {
    let b = int_bytes(s);
    let k = s.below(12);
    c.case(hash_of(&(k, &b)), b.len() > 1);
    c.sample(|| format!("primitive reader {k} on {}", hex(&b)));
    macro_rules! int {
        ($t:ty) => {{
            let mut r = &b[..];
            let mut cur = Cur::new(&b);
            let want = dec_int(&mut cur).and_then(|n| <$t>::try_from(n).map_err(|_| Rej::Bad));
            let ok = want.is_ok();
            let got = guard(|| r.bin_read_integer::<$t>())?;
            judge(concat!("integer ", stringify!($t)), &b, got, want)?;
            ensure!(!ok || b.len() - r.len() == cur.p, "integer {}: consumed {} bytes of {}, not {}", stringify!($t), b.len() - r.len(), hex(&b), cur.p);
        }};
    }
    macro_rules! nat {
        ($t:ty) => {{
            let mut r = &b[..];
            let mut cur = Cur::new(&b);
            let want = dec_nat0(&mut cur).and_then(|n| <$t>::try_from(n).map_err(|_| Rej::Bad));
            let ok = want.is_ok();
            let got = guard(|| r.bin_read_nat0::<$t>())?;
            judge(concat!("nat0 ", stringify!($t)), &b, got, want)?;
            ensure!(!ok || b.len() - r.len() == cur.p, "nat0 {}: consumed {} bytes of {}, not {}", stringify!($t), b.len() - r.len(), hex(&b), cur.p);
        }};
    }
    match k {
        0 => int!(i8),
        1 => int!(i16),
        2 => int!(i32),
        3 => int!(i64),
        4 => int!(u16),
        5 => int!(u32),
        6 => int!(u64),
        7 => int!(u8),
        8 => nat!(u8),
        9 => nat!(u16),
        10 => nat!(u32),
        _ => nat!(u64),
    }
    Ok(())
}
/// every one-byte and three-byte integer encoding, for every target type
fn c03_exhaustive(s: &mut Src, c: &mut Ctx) -> Res {
    let blk = s.below(256) as u8;
    let t = s.pick(INT_TYS).clone();
    c.case(hash_of(&(blk, &t)), true);
    c.sample(|| format!("all 256 encodings fe {blk:02x} xx and ff xx / xx as {t:?}"));
    for x in 0..=255u8 {
        for b in [vec![0xfe, x, blk], vec![x, blk], vec![x], vec![0xfd, x, blk, 0, 0], vec![0xfd, x, blk, 0xff, 0xff], vec![0xfc, x, blk, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]] {
            let want = dec(&t, &mut Cur::new(&b));
            let got = guard(|| lenient(&t, &b[..]))?;
            c.extra_evals += 1;
            judge(&format!("{t:?}"), &b, got, want)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

fn c04_strict(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, v) = if s.chance(1, 4) {
        // a value whose encoding ends around a buffering boundary
        let n = match s.below(3) {
            0 => (8192 * s.range(1, 3) as usize + s.usz(8)).saturating_sub(6),
            _ => gen_big_len(s),
        };
        if s.bool() {
            (Ty::Str, Val::Str("x".repeat(n)))
        } else {
            (Ty::Seq(Box::new(Ty::Bool)), Val::Seq(vec![Val::Bool(true); n]))
        }
    } else {
        gen_case(s)
    };
    let b = encode(&t, &v);
    let extra = match s.below(4) {
        0 => 0,
        1 => s.range(1, 8) as usize,
        2 => gen_big_len(s),
        _ => (8192usize.wrapping_sub(b.len() % 8192)) % 8192 + s.usz(3),
    };
    let mut data = b.clone();
    let fill = s.byte();
    data.extend(std::iter::repeat(fill).take(extra));
    let r = ChunkReader::gen(s, data);
    c.label(if extra == 0 { "exact" } else { "trailing bytes" });
    if extra > 0 && b.len() % 8192 == 0 {
        c.label("value ends on a buffer boundary, bytes follow")
    }
    c.case(hash_of(&(&t, &b, extra, &r.sizes)), extra > 0);
    c.sample(|| format!("{} bytes of {t:?} + {extra} bytes, chunks {:?}", b.len(), r.sizes));
    match guard(|| strict(&t, r))? {
        Ok(w) => {
            ensure!(extra == 0, "strict decoding accepted {extra} trailing bytes after {} bytes of {t:?}", b.len());
            ensure!(w == v, "strict decoding changed {v:?} into {w:?}");
        }
        Err(e) => {
            ensure!(extra > 0, "strict decoding rejected an exactly consumed input of {} bytes ({t:?}): {e}", b.len());
        }
    }
    Ok(())
}

fn strict_rest<T: serde::de::DeserializeOwned + std::fmt::Debug>(s: &mut Src, c: &mut Ctx, name: &str, b: Vec<u8>) -> Res {
    let got = guard(|| {
        let mut d = bin_prot::Deserializer::from_reader(&b[..]);
        T::deserialize(&mut d).ok().map(|v| {
            let mut rest = vec![];
            let _ = std::io::Read::read_to_end(&mut d.rdr, &mut rest);
            (format!("{v:?}"), b.len() - rest.len())
        })
    })?;
    c.label(name);
    c.case(hash_of(&(name, &b)), matches!(&got, Some((_, n)) if *n < b.len()));
    c.sample(|| format!("{} as {name}: {got:?}", hex(&b)));
    let run = |s: &mut Src, b: &[u8]| {
        let r = ChunkReader::gen(s, b.to_vec());
        guard(|| bin_prot::from_reader_strict::<_, T>(r).map(|v| format!("{v:?}")))
    };
    match got {
        None => {
            if let Ok(v) = run(s, &b)? {
                fail!("{} as {name}: ordinary decoding fails, strict decoding gives {v}", hex(&b))
            }
        }
        Some((v, n)) => {
            match run(s, &b[..n])? {
                Ok(w) => ensure!(v == w, "{} as {name}: {v} ordinarily, {w} strictly", hex(&b[..n])),
                Err(e) => fail!("{} as {name}: {v} ordinarily, rejected strictly: {e}", hex(&b[..n])),
            }
            if n < b.len() {
                if let Ok(w) = run(s, &b)? {
                    fail!("{} as {name}: strict decoding gave {w} although {} bytes follow", hex(&b), b.len() - n)
                }
            }
        }
    }
    Ok(())
}
fn c04_static(s: &mut Src, c: &mut Ctx) -> Res {
    use crate::zoo::*;
    let mut b = match s.below(3) {
        0 => {
            let n = s.range(0, 6) as usize;
            (0..n).map(|_| *s.pick(&[0u8, 1, 0, 2, 0xff])).collect()
        }
        _ => {
            let (_, _, seed) = case_with_bytes(s);
            if s.bool() { seed } else { hostile(s, seed) }
        }
    };
    if s.bool() {
        let n = s.range(1, 9) as usize;
        b.extend(s.bytes(n));
    }
    macro_rules! go {
        ($($t:ty),*) => {{
            let k = s.usz([$(stringify!($t)),*].len());
            let mut i = 0;
            $( if i == k { return strict_rest::<$t>(s, c, stringify!($t), b); } #[allow(unused_assignments)] { i += 1; } )*
            unreachable!()
        }};
    }
    go!((), Marker, Wrap<Marker>, (Marker, ()), [u8; 0], [(); 2], Option<()>, Vec<bool>, bool, u8, i64, u32, char, f32, f64, String, Vec<u8>, Option<String>, (String, Vec<bool>), Block, Cmd, Vec<Cmd>, Poly, Nested, Key, Box<str>, std::collections::BTreeSet<i64>, [u8; 32])
}

// ------------------------------------------------------------------ C05

/// bytes that look like an encoding for a while
pub fn hostile(s: &mut Src, mut b: Vec<u8>) -> Vec<u8> {
    match s.below(8) {
        0 => {
            let n = s.below(40) as usize;
            return s.bytes(n);
        }
        1 => {}
        _ => {
            let k = s.range(1, 3);
            for _ in 0..k {
                if b.is_empty() {
                    b.push(s.byte());
                    continue;
                }
                let i = s.usz(b.len());
                match s.below(7) {
                    0 => b[i] = s.byte(),
                    1 => b[i] = *s.pick(&[0xff, 0xfe, 0xfd, 0xfc, 0x80, 0x7f, 0, 1, 2]),
                    2 => {
                        b.truncate(i);
                    }
                    3 => {
                        // a huge length
                        let n = s.int(0, u64::MAX as i128) as u64;
                        let mut l = vec![];
                        enc_nat0(n, &mut l);
                        b.splice(i..i + 1, l);
                    }
                    4 => {
                        b.splice(i..i, vec![0xfc, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, *s.pick(&[0xff, 0x7f, 0, 0x3f])]);
                    }
                    5 => {
                        b.remove(i);
                    }
                    _ => {
                        let x = s.byte();
                        b.insert(i, x)
                    }
                }
            }
        }
    }
    b
}
fn mem_bound(input: usize) -> u64 {
    (1 << 20) + 4096 * input as u64
}
fn c05_dynamic(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, _v, b) = case_with_bytes(s);
    let b = hostile(s, b);
    let (r, peak) = alloc::peak(|| guard(|| lenient(&t, &b[..])));
    let r = r?;
    c.label(if r.is_ok() { "decoded" } else { "rejected" });
    c.case(hash_of(&(&t, &b)), r.is_err() && !b.is_empty());
    c.sample(|| format!("{} as {t:?} -> {}", hex(&b), if r.is_ok() { "Ok" } else { "Err" }));
    ensure!(peak <= mem_bound(b.len()), "decoding {} bytes ({}) as {t:?} allocated {peak} bytes", b.len(), hex(&b));
    Ok(())
}
macro_rules! hostile_static {
    ($s:expr, $c:expr, $b:expr, $($t:ty),*) => {{
        let b = $b;
        let k = $s.below([$(stringify!($t)),*].len() as u64);
        let mut i = 0;
        $(
            if i == k {
                let (r, peak) = alloc::peak(|| guard(|| bin_prot::from_reader::<_, $t>(&b[..]).is_ok()));
                let ok = r?;
                $c.label(stringify!($t));
                $c.case(hash_of(&(k, &b)), !ok && !b.is_empty());
                $c.sample(|| format!("{} as {} -> {}", hex(&b), stringify!($t), if ok { "Ok" } else { "Err" }));
                ensure!(peak <= mem_bound(b.len()), "decoding {} bytes ({}) as {} allocated {peak} bytes", b.len(), hex(&b), stringify!($t));
            }
            #[allow(unused_assignments)]
            { i += 1; }
        )*
    }};
}
fn c05_static(s: &mut Src, c: &mut Ctx) -> Res {
    use crate::zoo::*;
    let (_, _, seed) = case_with_bytes(s);
    let b = hostile(s, seed);
    hostile_static!(s, c, b, String, Vec<u8>, Vec<String>, Vec<Vec<u64>>, Option<Vec<i32>>, (String, Vec<bool>), Block, Cmd, Vec<Cmd>, Poly, Nested, Box<str>, std::collections::VecDeque<u16>, std::collections::BTreeSet<i64>, [u8; 32], bin_prot::Value);
    Ok(())
}

// ------------------------------------------------------------------ C06

fn c06_prefix(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, v, b) = case_with_bytes(s);
    note(c, &t, &v, &b, b.len() > 1);
    if b.is_empty() {
        return Ok(());
    }
    // all prefixes of short encodings, a sample of long ones
    let mut cuts: Vec<usize> = if b.len() <= 64 { (0..b.len()).collect() } else { (0..24).map(|_| s.usz(b.len())).chain([b.len() - 1, b.len() - 2]).collect() };
    cuts.dedup();
    c.extra_evals += cuts.len() as u64;
    for k in cuts {
        let r = ChunkReader::plain(b[..k].to_vec());
        if let Ok(w) = guard(|| lenient(&t, r))? {
            fail!("the first {k} of {} bytes {} of {v:?}: {t:?} decoded as {w:?}", b.len(), hex(&b))
        }
        if let Ok(w) = guard(|| strict(&t, &b[..k]))? {
            fail!("strict: the first {k} of {} bytes {} of {v:?}: {t:?} decoded as {w:?}", b.len(), hex(&b))
        }
    }
    Ok(())
}
fn c06_stream(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.range(1, 6) as usize;
    let mut all = vec![];
    let mut cases = vec![];
    for _ in 0..n {
        let (t, v, b) = case_with_bytes(s);
        all.extend(&b);
        cases.push((t, v));
    }
    let tail = s.usz(12);
    all.extend(s.bytes(tail));
    let r = ChunkReader::gen(s, all.clone());
    let ts: Vec<&Ty> = cases.iter().map(|x| &x.0).collect();
    c.case(hash_of(&(&all, n)), n > 1);
    c.sample(|| format!("{n} values back to back, {} bytes, {tail} stray bytes after: {}", all.len(), hex(&all)));
    match guard(|| stream(&ts, r))? {
        Ok(vs) => {
            for (i, (w, (t, v))) in vs.iter().zip(&cases).enumerate() {
                ensure!(w == v, "value {i} of a stream: {v:?}: {t:?} came back as {w:?}")
            }
        }
        Err(e) => fail!("a stream of {n} values failed to decode: {e}; {cases:?}"),
    }
    // the first value alone, with everything else as trailing data, by the lenient entry point
    match guard(|| lenient(&cases[0].0, &all[..]))? {
        Ok(w) => ensure!(w == cases[0].1, "trailing data changed {:?} into {w:?}", cases[0].1),
        Err(e) => fail!("trailing data made decoding {:?} fail: {e}", cases[0]),
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

fn c07_read(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, v, b) = case_with_bytes(s);
    let r = ChunkReader::gen(s, b.clone());
    c.case(hash_of(&(&t, &b, &r.sizes, &r.intr)), b.len() > 2 && (r.sizes != [usize::MAX] || !r.intr.is_empty()));
    c.sample(|| format!("{t:?} {} chunks {:?} interruptions {:?}", hex(&b), r.sizes, r.intr));
    let strictly = s.bool();
    match guard(|| if strictly { strict(&t, r) } else { lenient(&t, r) })? {
        Ok(w) => ensure!(w == v, "chunked reads changed {v:?} into {w:?}"),
        Err(e) => fail!("chunked reads made decoding {v:?} of {t:?} fail: {e}"),
    }
    Ok(())
}
fn c07_read_fault(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, v, b) = case_with_bytes(s);
    if b.is_empty() {
        return Ok(());
    }
    let mut r = ChunkReader::gen(s, b.clone());
    let at = s.usz(b.len());
    r.fault(s, at);
    c.case(hash_of(&(&t, &b, at)), at > 0);
    c.sample(|| format!("{t:?} {} read fault {:?} at {at}", hex(&b), r.kind));
    if s.chance(1, 8) {
        // the fault lies behind the value: the value is there, but nobody can say that nothing follows
        let mut r = ChunkReader::gen(s, b.clone());
        r.fault(s, b.len());
        c.label("fault right after the value");
        return match guard(|| strict(&t, r))? {
            Err(_) => Ok(()),
            Ok(_) => fail!("strict decoding reported the end of the input although the reader failed there ({t:?} {})", hex(&b)),
        };
    }
    match guard(|| lenient(&t, r))? {
        Err(_) => Ok(()),
        Ok(w) => fail!("the reader failed at byte {at} of {}, yet decoding returned {w:?} (value {v:?})", b.len()),
    }
}
fn c07_write(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, v, b) = case_with_bytes(s);
    let mut w = ChunkWriter::gen(s);
    c.case(hash_of(&(&t, &b, &w.sizes, &w.intr)), b.len() > 2);
    c.sample(|| format!("{t:?} {} write chunks {:?} interruptions {:?}", hex(&b), w.sizes, w.intr));
    match guard(|| write(&mut w, &t, &v))? {
        Ok(()) => ensure!(w.out == b, "a writer that takes part of a buffer received {} instead of {} ({v:?}: {t:?})", hex(&w.out), hex(&b)),
        Err(e) => fail!("a writer that takes part of a buffer made encoding {v:?} fail: {e}"),
    }
    Ok(())
}
fn c07_write_fault(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, v, b) = case_with_bytes(s);
    if b.is_empty() {
        return Ok(());
    }
    let mut w = ChunkWriter::gen(s);
    let at = s.usz(b.len());
    w.fault(s, at);
    c.case(hash_of(&(&t, &b, at)), at > 0);
    c.sample(|| format!("{t:?} {} write fault {:?} at {at}", hex(&b), w.kind));
    match guard(|| write(&mut w, &t, &v))? {
        Ok(()) => fail!("the writer failed at byte {at} of {}, yet encoding {v:?} reported success", b.len()),
        Err(_) => ensure!(b.starts_with(&w.out), "before the fault at {at} the writer received {} which is not the start of {}", hex(&w.out), hex(&b)),
    }
    Ok(())
}
/// the same for the loosely typed path
fn c07_value(s: &mut Src, c: &mut Ctx) -> Res {
    let (v, b) = gen_value(s, 3);
    let mut w = ChunkWriter::gen(s);
    let at = if s.bool() && !b.is_empty() { Some(s.usz(b.len())) } else { None };
    if let Some(at) = at {
        w.fault(s, at);
    }
    c.case(hash_of(&(&b, &w.sizes, at)), b.len() > 2);
    c.sample(|| format!("{v:?} write chunks {:?} fault {at:?}", w.sizes));
    match (guard(|| bin_prot::to_writer(&mut w, &v))?, at) {
        (Ok(()), None) => ensure!(w.out == b, "{v:?}: writer received {} instead of {}", hex(&w.out), hex(&b)),
        (Err(_), Some(_)) => ensure!(b.starts_with(&w.out), "{v:?}: before the fault the writer received {}", hex(&w.out)),
        (Ok(()), Some(at)) => fail!("{v:?}: writer failed at {at} but success was reported"),
        (Err(e), None) => fail!("{v:?}: {e}"),
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

fn c08_hash(s: &mut Src, c: &mut Ctx) -> Res {
    let l = gen_label(s);
    c.case(hash_of(&l), l.len() > 1);
    c.sample(|| format!("label {l:?} -> {}", ocaml_hash(&l)));
    let h = guard(|| bin_prot::caml_hash_variant(&l))?;
    ensure!(h == ocaml_hash(&l), "hash of label {l:?} is {h}, OCaml's is {}", ocaml_hash(&l));
    Ok(())
}
fn c08_enum(s: &mut Src, c: &mut Ctx) -> Res {
    let o = TyOpts { depth: 2, ..Default::default() };
    let t = loop {
        let t = gen_enum(s, &o, 2);
        if let Ty::Enum { poly: true, .. } = t {
            break t;
        }
        // the zero tape would loop
        if s.tape.len() < s.pos {
            break Ty::Enum { poly: true, vars: vec![("One".into(), VTy::Unit), ("Two".into(), VTy::Newtype(Box::new(Ty::Bool)))] };
        }
    };
    let mut bud = 60;
    let v = gen_val(s, &t, &mut bud);
    let b = encode(&t, &v);
    let (i, vars) = match (&t, &v) {
        (Ty::Enum { vars, .. }, Val::Var(i, _)) => (*i as usize, vars),
        _ => unreachable!(),
    };
    c.case(hash_of(&(&t, &b)), vars.len() > 1);
    if vars[..i].iter().any(|x| !x.0.is_ascii()) {
        c.label("a non-ASCII label precedes")
    }
    c.sample(|| format!("{t:?} {v:?} -> {}", hex(&b)));
    let got = guard(|| to_vec(&t, &v))?.map_err(|e| Fail(format!("encoding {v:?}: {e}")))?;
    ensure!(got == b, "{v:?} of {t:?}: written {}, should be {}", hex(&got), hex(&b));
    match guard(|| lenient(&t, &b[..]))? {
        Ok(w) => ensure!(w == v, "{v:?} came back as {w:?} ({t:?})"),
        Err(e) => fail!("decoding {v:?} of {t:?} failed: {e}"),
    }
    // a tag that belongs to no variant
    let mut x = b.clone();
    let h = if s.bool() {
        // one bit away from a real tag
        (u32::from_le_bytes(b[..4].try_into().unwrap()) >> 1) ^ (1 << s.below(31))
    } else {
        s.int(0, 0x7fff_ffff) as u32
    };
    if !vars.iter().any(|z| z.0.is_ascii() && ocaml_hash(&z.0) == h) {
        let mut w = vec![];
        enc_tag(h, &mut w);
        x[..4].copy_from_slice(&w);
        x.extend([0u8; 16]);
        c.label("unknown tag");
        if let Ok(w) = guard(|| lenient(&t, &x[..]))? {
            fail!("tag {h} belongs to no variant of {t:?} but decoded as {w:?}")
        }
    }
    Ok(())
}
/// an enum with few hundred short labels: none may be confused with another
fn c08_many(s: &mut Src, c: &mut Ctx) -> Res {
    let n = s.range(2, 250) as usize;
    let mut labels: Vec<String> = vec![];
    for i in 0..n {
        let mut l = gen_label(s);
        if labels.contains(&l) {
            l = format!("{i:x}");
        }
        while labels.contains(&l) {
            l = format!("{:x}", labels.len() * 7 + l.len());
            if l.len() > 4 || labels.contains(&l) {
                l = String::new();
                break;
            }
        }
        if !l.is_empty() {
            labels.push(l)
        }
    }
    let vars: Vec<_> = labels.iter().map(|l| (l.clone(), VTy::Unit)).collect();
    let k = s.usz(vars.len());
    let t = Ty::Enum { poly: true, vars };
    let v = Val::Var(k as u32, vec![]);
    c.case(hash_of(&(&t, k)), labels.len() > 10);
    c.sample(|| format!("variant {k} ({:?}) of {} labels", labels[k], labels.len()));
    let b = guard(|| to_vec(&t, &v))?.map_err(|e| Fail(format!("{e}")))?;
    ensure!(b == encode(&t, &v), "label {:?} written as {}", labels[k], hex(&b));
    match guard(|| strict(&t, &b[..]))? {
        Ok(w) => ensure!(w == v, "label {:?} came back as {w:?} of {labels:?}", labels[k]),
        Err(e) => fail!("label {:?}: {e}", labels[k]),
    }
    Ok(())
}
/// known finding: labels whose hash does not fit into 32 bits before reduction
fn c08_known(_s: &mut Src, c: &mut Ctx) -> Res {
    c.case(1, true);
    c.sample(|| "label \"Three\"".into());
    match guard(|| bin_prot::caml_hash_variant("Three")) {
        Ok(h) => ensure!(h == ocaml_hash("Three"), "hash of \"Three\" is {h}, OCaml's is {}", ocaml_hash("Three")),
        Err(e) if e.0.contains("overflow") => c.known("polyvar-label-overflow", format!("the hash of a label of five or more characters overflows: label \"Three\" {}", e.0.split(" at ").next().unwrap_or(""))),
        Err(e) => return Err(e),
    }
    Ok(())
}
/// known finding of C01: a field annotated with the nat0 module is written but cannot be read
fn c01_known(_s: &mut Src, c: &mut Ctx) -> Res {
    use bin_prot::integers::nat0;
    #[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq)]
    struct N {
        #[serde(with = "nat0")]
        n: u64,
    }
    c.case(1, true);
    c.sample(|| "struct with one #[serde(with = nat0)] field, value 300".into());
    let v = N { n: 300 };
    let mut o = vec![];
    bin_prot::to_writer(&mut o, &v).map_err(|e| Fail(format!("{e}")))?;
    match guard(|| bin_prot::from_reader::<_, N>(&o[..]))? {
        Ok(w) => ensure!(w == v, "{v:?} came back as {w:?}"),
        Err(bin_prot::error::Error::WontImplement) => c.known("nat0-field-not-decodable", "a field annotated with the nat0 module is encoded but decoding it always fails (WontImplement)".into()),
        Err(e) => fail!("{v:?}: {e}"),
    }
    Ok(())
}

// ------------------------------------------------------------------ C20

fn c20_language(s: &mut Src, c: &mut Ctx) -> Res {
    let (t, _v, b) = case_with_bytes(s);
    let b = hostile(s, b);
    let mut cur = Cur::new(&b);
    let want = dec(&t, &mut cur);
    c.label(match &want {
        Ok(_) => "in the language",
        Err(Rej::Bad) => "malformed",
        Err(Rej::Eof) => "truncated",
        Err(Rej::Unspec) => "unspecified",
    });
    c.case(hash_of(&(&t, &b)), want != Err(Rej::Unspec) && !b.is_empty() && t.compound());
    c.sample(|| format!("{} as {t:?} -> {want:?}", hex(&b)));
    let used = cur.p;
    let complete = want.is_ok() && used == b.len();
    let unspec = want == Err(Rej::Unspec);
    let got = guard(|| lenient(&t, &b[..]))?;
    judge(&format!("{t:?}"), &b, got, want.clone())?;
    if !unspec {
        let got = guard(|| strict(&t, &b[..]))?;
        judge(&format!("strict {t:?}"), &b, got, if complete { want } else { Err(Rej::Bad) })?;
    }
    Ok(())
}
/// one wrong byte where the format allows only a few
fn c20_bytes(s: &mut Src, c: &mut Ctx) -> Res {
    let t = match s.below(6) {
        0 => Ty::Bool,
        1 => Ty::Unit,
        2 => Ty::Option(Box::new(Ty::U8)),
        3 => Ty::UnitStruct,
        4 => {
            let n = *s.pick(&[1usize, 2, 3, 127, 128, 129, 255, 256]);
            Ty::Enum { poly: false, vars: (0..n).map(|i| (format!("V{i}"), VTy::Unit)).collect() }
        }
        _ => Ty::Char,
    };
    c.case(hash_of(&t), true);
    c.sample(|| format!("all 256 first bytes as {t:?}"));
    for x in 0..=255u8 {
        let b = [x, 7, 7];
        c.extra_evals += 1;
        let got = guard(|| lenient(&t, &b[..]))?;
        judge(&format!("{t:?}"), &b, got, dec(&t, &mut Cur::new(&b)))?;
    }
    // the primitive readers
    for x in 0..=255u8 {
        let b = [x];
        let mut r = &b[..];
        judge("bool", &b, guard(|| r.bin_read_bool())?, if x < 2 { Ok(x == 1) } else { Err(Rej::Bad) })?;
        let mut r = &b[..];
        judge("unit", &b, guard(|| r.bin_read_unit())?, if x == 0 { Ok(()) } else { Err(Rej::Bad) })?;
        let mut r = &b[..];
        judge("char", &b, guard(|| r.bin_read_char())?, Ok(x as char))?;
        let mut r = &b[..];
        judge("variant index", &b, guard(|| r.bin_read_variant_index())?, Ok(x))?;
    }
    Ok(())
}
fn c20_utf8(s: &mut Src, c: &mut Ctx) -> Res {
    // strings: exactly the valid UTF-8 ones
    let mut bud = 40;
    let mut b = gen_string(s, &mut bud).into_bytes();
    for _ in 0..s.below(3) {
        if !b.is_empty() {
            let i = s.usz(b.len());
            b[i] = *s.pick(&[0x80, 0xff, 0xc0, 0xed, 0xf5, 0xe0, 0xbf, 0x41]);
        }
    }
    let mut w = vec![];
    enc_nat0(b.len() as u64, &mut w);
    w.extend(&b);
    let want = std::str::from_utf8(&b).map(|x| x.to_string()).map_err(|_| Rej::Bad);
    c.label(if want.is_ok() { "utf-8" } else { "not utf-8" });
    c.case(hash_of(&b), b.len() > 1);
    c.sample(|| format!("string bytes {} -> {want:?}", hex(&b)));
    judge("String", &w, guard(|| bin_prot::from_reader::<_, String>(&w[..]))?, want.clone())?;
    let mut r = &w[..];
    judge("bin_read_string", &w, guard(|| r.bin_read_string())?, want)?;
    let mut r = &w[..];
    judge("bin_read_bytes", &w, guard(|| r.bin_read_bytes())?, Ok(b.clone()))?;
    Ok(())
}

const R: &str = "random type tree (all serde kinds, depth <= 4, <= 256 variants, ASCII polyvar labels of <= 4 characters) with a random boundary-biased value";

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C01", name: "roundtrip", quick: 4_800_000, thorough: 57_600_000, f: c01_roundtrip, rule: "random type tree over all serde kinds (depth <= 4) with a boundary-biased value, encoded and decoded by every entry point; non-trivial: compound type, more than one byte" },
        Facet { prop: "C01", name: "refused-char", quick: 320_000, thorough: 3_840_000, f: c01_refused, rule: "a char above 0xff inside a random tuple; all non-trivial" },
        Facet { prop: "C01", name: "refused-seq", quick: 4_000, thorough: 48_000, f: c01_seq_unknown_len, rule: "a sequence that does not know its length" },
        Facet { prop: "C01", name: "known", quick: 1, thorough: 1, f: c01_known, rule: "the recorded finding" },
        Facet { prop: "C02", name: "bytes", quick: 4_800_000, thorough: 57_600_000, f: c02_bytes, rule: R },
        Facet { prop: "C02", name: "primitives", quick: 12_000_000, thorough: 144_000_000, f: c02_prims, rule: "boundary-biased primitive; non-trivial: more than one byte" },
        Facet { prop: "C02", name: "annotated", quick: 1_200_000, thorough: 14_400_000, f: c02_annotated, rule: "struct of fields annotated nat0 / integer" },
        Facet { prop: "C02", name: "values", quick: 2_400_000, thorough: 28_800_000, f: c02_value, rule: "random loosely typed value" },
        Facet { prop: "C03", name: "typed", quick: 9_000_000, thorough: 108_000_000, f: c03_typed, rule: "integer encodings: canonical, wider than needed, arbitrary, truncated; into every integer type; non-trivial: more than one byte" },
        Facet { prop: "C03", name: "primitives", quick: 9_000_000, thorough: 108_000_000, f: c03_prims, rule: "the same through the primitive readers, also how many bytes they consume" },
        Facet { prop: "C03", name: "sweep", quick: 12_000, thorough: 144_000, f: c03_exhaustive, rule: "sweeps of all second bytes for one- to nine-byte encodings" },
        Facet { prop: "C04", name: "static", quick: 300_000, thorough: 6_000_000, f: c04_static, rule: "bytes read as one of 28 Rust types (zero-sized ones included), ordinarily and strictly; non-trivial: decodes and leaves bytes" },
        Facet { prop: "C04", name: "strict", quick: 960_000, thorough: 11_520_000, f: c04_strict, rule: "valid encoding plus 0..70000 trailing bytes through a reader with generated chunk sizes; non-trivial: trailing bytes present" },
        Facet { prop: "C05", name: "dynamic", quick: 4_800_000, thorough: 57_600_000, f: c05_dynamic, rule: "valid encoding of a random type, mutated (bytes, lengths up to 2^64, truncation, insertion) or random bytes; non-trivial: rejected" },
        Facet { prop: "C05", name: "static", quick: 3_200_000, thorough: 38_400_000, f: c05_static, rule: "the same bytes decoded into derived Rust types; non-trivial: rejected" },
        Facet { prop: "C06", name: "prefix", quick: 480_000, thorough: 5_760_000, f: c06_prefix, rule: "every (or 26 sampled) strict prefix of a valid encoding; non-trivial: encoding longer than one byte" },
        Facet { prop: "C06", name: "stream", quick: 600_000, thorough: 7_200_000, f: c06_stream, rule: "1..6 values back to back plus stray bytes, generated chunking; non-trivial: more than one value" },
        Facet { prop: "C07", name: "read-chunks", quick: 2_000_000, thorough: 24_000_000, f: c07_read, rule: "valid encoding through a reader with generated chunk sizes and interruptions" },
        Facet { prop: "C07", name: "read-faults", quick: 2_000_000, thorough: 24_000_000, f: c07_read_fault, rule: "valid encoding, reader fails at a generated offset" },
        Facet { prop: "C07", name: "write-chunks", quick: 2_000_000, thorough: 24_000_000, f: c07_write, rule: "value written to a writer that takes part of each buffer and interrupts" },
        Facet { prop: "C07", name: "write-faults", quick: 2_000_000, thorough: 24_000_000, f: c07_write_fault, rule: "value written to a writer that fails at a generated offset" },
        Facet { prop: "C07", name: "value-writes", quick: 1_200_000, thorough: 14_400_000, f: c07_value, rule: "loosely typed value written with generated chunking and faults" },
        Facet { prop: "C08", name: "hash", quick: 4_800_000, thorough: 57_600_000, f: c08_hash, rule: "random ASCII label of 1..4 characters" },
        Facet { prop: "C08", name: "enum", quick: 1_800_000, thorough: 21_600_000, f: c08_enum, rule: "random polyvar type (some labels non-ASCII), value, and an unknown tag; non-trivial: more than one variant" },
        Facet { prop: "C08", name: "many", quick: 120_000, thorough: 1_440_000, f: c08_many, rule: "polyvar with up to 250 labels" },
        Facet { prop: "C08", name: "known", quick: 1, thorough: 1, f: c08_known, rule: "the recorded finding" },
        Facet { prop: "C20", name: "language", quick: 5_400_000, thorough: 64_800_000, f: c20_language, rule: "mutated encodings judged by an independent decoder; non-trivial: compound type, specified outcome" },
        Facet { prop: "C20", name: "bytes", quick: 8_000, thorough: 96_000, f: c20_bytes, rule: "all 256 first bytes for types with few allowed ones" },
        Facet { prop: "C20", name: "utf8", quick: 1_800_000, thorough: 21_600_000, f: c20_utf8, rule: "string bytes, valid and invalid UTF-8" },
    ]
}
