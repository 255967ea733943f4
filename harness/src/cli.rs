//! C17, C18: the two command line tools, run as processes on generated files in the scratch folder.
use crate::core::*;
use crate::loose::*;
use crate::model::*;
use crate::typed::hostile;
use crate::{ensure, fail};
use bin_prot::Value;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = PathBuf::from(std::env::var("VH_SCRATCH").expect("VH_SCRATCH"));
        let d = base.join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch folder");
        Dir(d)
    }
    fn file(&self, name: &str, b: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, b).expect("scratch file");
        p
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn bin(var: &str) -> Command {
    let mut c = Command::new(std::env::var(var).expect("path of the tool"));
    c.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c
}
struct Out {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}
fn run(mut c: Command, stdin: Option<&[u8]>) -> Out {
    if stdin.is_some() {
        c.stdin(Stdio::piped());
    }
    let mut ch = c.spawn().expect("spawn");
    if let Some(b) = stdin {
        // the tool may stop reading early
        let _ = ch.stdin.take().unwrap().write_all(b);
    }
    let o = ch.wait_with_output().expect("wait");
    use std::os::unix::process::ExitStatusExt;
    Out { code: o.status.code(), signal: o.status.signal(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn tail(x: &str) -> String {
    x.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect()
}

/// hex text of the bytes, in generated case
fn hex_text(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let style = s.below(3);
    b.iter()
        .flat_map(|x| {
            let t = match style {
                0 => format!("{x:02x}"),
                1 => format!("{x:02X}"),
                _ => {
                    let t = format!("{x:02x}");
                    if s.bool() {
                        t.to_uppercase()
                    } else {
                        t
                    }
                }
            };
            t.into_bytes()
        })
        .collect()
}
fn is_hex(b: &[u8]) -> bool {
    b.len() % 2 == 0 && b.iter().all(|c| c.is_ascii_hexdigit())
}

fn c17(s: &mut Src, c: &mut Ctx) -> Res {
    let case = gen_case(s, false);
    c17_with(s, c, case)
}
/// layouts nested hundreds of levels deep, data of some hundred kilobytes
fn c17_large(s: &mut Src, c: &mut Ctx) -> Res {
    let mut l = L::List(Box::new(if s.bool() { L::Int("Int") } else { L::Str }));
    let deep = s.bool();
    let (mut v, mut g);
    if deep {
        for _ in 0..*s.pick(&[130u64, 126, 128, 200, 260, 300]) {
            l = match s.below(3) {
                0 => L::Opt(Box::new(l)),
                1 => L::Tuple(vec![L::Bool, l]),
                _ => L::Record(vec![("a".into(), l), ("b".into(), L::Bool)]),
            };
        }
        g = Gen { bytes: vec![], hit_unsup: false, budget: 2000 };
        v = gen_lval(s, &l, &mut g);
    } else {
        let n = *s.pick(&[3000u64, 4096, 8192, 70_000, 9000, 65_536]);
        g = Gen { bytes: vec![], hit_unsup: false, budget: 0 };
        enc_nat0(n, &mut g.bytes);
        l = L::List(Box::new(L::Int("Int")));
        let mut x = vec![];
        for i in 0..n {
            let k = if i % 97 == 0 { s.int(i64::MIN as i128, i64::MAX as i128) as i64 } else { (i % 300) as i64 };
            enc_int(k, &mut g.bytes);
            x.push(Value::Int(k));
        }
        v = Value::List(x);
        if s.chance(1, 4) {
            l = L::Tuple(vec![L::Bool, l]);
            g.bytes.insert(0, 1);
            v = Value::Tuple(vec![Value::Bool(true), v]);
        }
    }
    c17_with(s, c, (l, v, g))
}
fn c17_with(s: &mut Src, c: &mut Ctx, (l, v, g): (L, Value, Gen)) -> Res {
    let text = layout_text(&plain_text(&l.json()), Some(1));
    // the data: valid, valid with more behind it, or damaged
    let kind = s.below(6);
    let mut data = g.bytes.clone();
    match kind {
        0 | 1 | 2 => {}
        3 => {
            let n = s.range(1, 5) as usize;
            data.extend(s.bytes(n))
        }
        _ => data = hostile(s, data),
    }
    let as_hex = s.bool();
    let file = if as_hex { hex_text(s, &data) } else { data.clone() };
    // what the documentation says: hex if it is hex
    let bytes = if !as_hex && is_hex(&file) { unhex(std::str::from_utf8(&file).unwrap()) } else { data.clone() };
    let mut cur = Cur::new(&bytes);
    let want: Result<Value, Rej> = if kind < 4 && bytes == data { Ok(v.clone()) } else { ldec(&l, &mut cur) };
    let round = s.chance(1, 2);
    let to_file = s.chance(1, 3);
    let before = if s.bool() { Some(b"what was there before, somewhat longer than nothing at all\n".repeat(20)) } else { None };
    c.label(match (&want, kind) {
        (Ok(_), 0..=2) => "valid",
        (Ok(_), 3) => "valid, more behind",
        (Ok(_), _) => "damaged but decodable",
        (Err(Rej::Unspec), _) => "unspecified",
        _ => "damaged",
    });
    if as_hex {
        c.label("hex");
    }
    c.case(hash_of(&(&l, &bytes, as_hex, round, to_file)), l.compound() && !matches!(want, Err(Rej::Unspec)));
    c.sample(|| format!("layout {} data {} hex={as_hex} roundtrip={round} output file={to_file} -> {}", short(&l), hex(&bytes), short(&want)));
    let d = Dir::new();
    let lp = d.file("layout.json", text.as_bytes());
    let bp = d.file("data.bin", &file);
    let op = d.0.join("out.txt");
    if let Some(b) = &before {
        std::fs::write(&op, b).unwrap()
    }
    let mut cmd = bin("VH_LAYOUT_READER");
    cmd.arg(&lp).arg(&bp);
    if round {
        cmd.arg(if s.bool() { "-r" } else { "--roundtrip" });
    }
    if to_file {
        cmd.arg(if s.bool() { "-o" } else { "--output" }).arg(&op);
    }
    let o = run(cmd, None);
    let got_file = std::fs::read(&op).ok();
    let ctx = || format!("(layout {}, data {}, hex={as_hex}, roundtrip={round}, output file={to_file})", short(&l), hex(&bytes));
    ensure!(o.signal.is_none(), "the layout reader was killed by signal {:?} {}: {}", o.signal, ctx(), tail(&o.err));
    let failed = |o: &Out, why: &str| -> Res {
        ensure!(o.code != Some(0), "the layout reader succeeded although {why} {}", ctx());
        ensure!(o.out.is_empty(), "the layout reader failed but printed {} {}", String::from_utf8_lossy(&o.out), ctx());
        ensure!(got_file == before, "the layout reader failed but changed the output file {}", ctx());
        Ok(())
    };
    match want {
        Err(Rej::Unspec) => {}
        Err(r) => failed(&o, &format!("the data is {r:?}"))?,
        Ok(v) => {
            // canonical data is the encoding of its value and nothing else
            let exact = if kind < 3 && bytes == data {
                true
            } else {
                let b = encode_value(&v)?;
                b == bytes
            };
            if round && !exact {
                return failed(&o, "the data does not re-encode to itself");
            }
            ensure!(o.code == Some(0), "the layout reader failed with {:?} on {} {}: {}", o.code, short(&v), ctx(), tail(&o.err));
            let text = format!("{v:#?}");
            if to_file {
                ensure!(o.out.is_empty(), "a value was printed although an output file was asked for {}", ctx());
                let f = got_file.as_ref().map(|x| String::from_utf8_lossy(x).into_owned());
                ensure!(f.as_deref().map(|x| x.trim_end()) == Some(text.trim_end()), "the output file holds {f:?}, it should hold {text:?} {}", ctx());
            } else {
                let t = String::from_utf8_lossy(&o.out).into_owned();
                ensure!(t.trim_end() == text.trim_end(), "printed {t:?}, the value is {text:?} {}", ctx());
                ensure!(got_file == before, "the output file was written without being asked for {}", ctx());
            }
        }
    }
    Ok(())
}

/// bad layouts, missing files
fn c17_bad(s: &mut Src, c: &mut Ctx) -> Res {
    let (l, _, g) = gen_case(s, false);
    let text = layout_text(&plain_text(&l.json()), Some(1));
    let kind = s.below(5);
    let d = Dir::new();
    let before = if s.bool() { Some(b"before".to_vec()) } else { None };
    let op = d.0.join("out.txt");
    if let Some(b) = &before {
        std::fs::write(&op, b).unwrap()
    }
    let mut lp = d.file("layout.json", text.as_bytes());
    let mut bp = d.file("data.bin", &hex_text(&mut Src::replay(vec![]), &g.bytes));
    let what = match kind {
        0 => {
            lp = d.0.join("no-such-layout");
            "the layout file does not exist"
        }
        1 => {
            bp = d.0.join("no-such-data");
            "the data file does not exist"
        }
        2 => {
            let n = s.usz(text.len());
            lp = d.file("layout.json", &text.as_bytes()[..n]);
            "the layout is cut short"
        }
        3 => {
            let keys = ["layout_loc", "version_opt", "type_decl", "bin_io_derived", "bin_prot_rule"];
            let k = *s.pick(&["bin_prot_rule", "layout_loc", "type_decl", "bin_io_derived"]);
            assert!(keys.contains(&k));
            lp = d.file("layout.json", text.replacen(&format!("\"{k}\""), &format!("\"{k}_\""), 1).as_bytes());
            "a key of the layout is missing"
        }
        _ => {
            bp = d.0.clone();
            "the data file is a folder"
        }
    };
    c.label(what);
    c.case(hash_of(&(&l, kind, &text)), true);
    c.sample(|| format!("{what}: layout {}", short(&l)));
    let mut cmd = bin("VH_LAYOUT_READER");
    cmd.arg(&lp).arg(&bp);
    if s.bool() {
        cmd.arg("-o").arg(&op);
    }
    let o = run(cmd, None);
    ensure!(o.signal.is_none(), "killed by signal {:?} although only {what}: {}", o.signal, tail(&o.err));
    ensure!(o.code != Some(0) && o.out.is_empty(), "the layout reader succeeded or printed something although {what} (layout {})", short(&l));
    ensure!(std::fs::read(&op).ok() == before, "the layout reader failed but changed the output file");
    Ok(())
}

// ---------------------------------------------------------------- C18

const TESTS: [&str; 8] = ["bool", "int", "int32", "int64", "enum", "record", "variant", "nat0"];

fn default_of(t: &str) -> (Vec<u8>, &'static str) {
    let mut o = vec![];
    let txt = match t {
        "nat0" => {
            // a sequence of one unit
            enc_nat0(1, &mut o);
            o.push(0);
            "1"
        }
        "bool" => {
            o.push(1);
            "true"
        }
        "int" | "int32" | "int64" => {
            enc_int(12345, &mut o);
            "12345"
        }
        "enum" => {
            o.push(0);
            "A"
        }
        "record" => {
            enc_int(15, &mut o);
            o.extend([1, 2]);
            "S { a: 15, b: true, c: C }"
        }
        _ => {
            o.push(0);
            enc_int(15, &mut o);
            "A(15)"
        }
    };
    (o, txt)
}

fn c18_serialize(s: &mut Src, c: &mut Ctx) -> Res {
    let t = *s.pick(&TESTS);
    let (want, txt) = default_of(t);
    let file = s.bool();
    let before = if s.bool() {
        let n = *s.pick(&[1usize, 0, 7, 64, 5000]);
        Some(s.bytes(n))
    } else {
        None
    };
    c.label(t);
    c.case(hash_of(&(t, file, &before)), true);
    c.sample(|| format!("serialize {t} to {}", if file { "a file" } else { "stdout" }));
    let d = Dir::new();
    let p = d.0.join("out.bin");
    if let Some(b) = &before {
        std::fs::write(&p, b).unwrap()
    }
    let mut cmd = bin("VH_CHECKER");
    cmd.arg("--test").arg(t);
    if file {
        cmd.arg("--path").arg(&p);
    }
    cmd.arg("serialize");
    let o = run(cmd, None);
    ensure!(o.code == Some(0), "serialize {t} ended with {:?}: {}", o.code, tail(&o.err));
    if file {
        let b = std::fs::read(&p).unwrap_or_default();
        ensure!(b == want, "serialize {t} wrote {} to the file (which held {} bytes), bin_prot prescribes {}", hex(&b), before.map_or(0, |x| x.len()), hex(&want));
        let t2 = String::from_utf8_lossy(&o.out).into_owned();
        ensure!(t2.contains(&format!("Wrote {} bytes", want.len())), "serialize {t} wrote {} bytes but reported {t2:?}", want.len());
    } else {
        ensure!(o.out == want, "serialize {t} wrote {}, bin_prot prescribes {}", hex(&o.out), hex(&want));
    }
    // and its own output is read back
    let mut cmd = bin("VH_CHECKER");
    cmd.arg("--test").arg(t).arg("deserialize");
    let o = run(cmd, Some(&want));
    let out = String::from_utf8_lossy(&o.out).into_owned();
    ensure!(o.code == Some(0) && out.trim_end() == format!("Deserialized value: {txt}"), "deserialize {t} of {} ended with {:?} and printed {out:?}, the value is {txt}", hex(&want), o.code);
    Ok(())
}

fn ty_of(t: &str) -> Ty {
    let e = || Ty::Enum { poly: false, vars: vec![("A".into(), VTy::Unit), ("B".into(), VTy::Unit), ("C".into(), VTy::Unit)] };
    let nt = |n: &str, t: Ty| (n.to_string(), VTy::Newtype(Box::new(t)));
    match t {
        "bool" => Ty::Bool,
        "int" | "int32" => Ty::I32,
        "int64" => Ty::I64,
        "enum" => e(),
        "record" => Ty::Struct(vec![("a".into(), Ty::I32), ("b".into(), Ty::Bool), ("c".into(), e())]),
        "variant" => Ty::Enum { poly: false, vars: vec![nt("A", Ty::I32), nt("B", Ty::Bool), nt("C", e())] },
        _ => unreachable!(),
    }
}
fn show(v: &Val) -> String {
    match v {
        Val::Bool(b) => b.to_string(),
        Val::I(n) => n.to_string(),
        Val::Seq(f) => {
            let n = ["a", "b", "c"];
            format!("S {{ {} }}", f.iter().zip(n).map(|(x, n)| format!("{n}: {}", show(x))).collect::<Vec<_>>().join(", "))
        }
        Val::Var(i, x) => {
            let n = ["A", "B", "C"][*i as usize];
            match x.first() {
                None => n.to_string(),
                Some(x) => format!("{n}({})", show(x)),
            }
        }
        _ => format!("{v:?}"),
    }
}

fn c18_deserialize(s: &mut Src, c: &mut Ctx) -> Res {
    let t = *s.pick(&TESTS);
    let (data, want): (Vec<u8>, Result<String, Rej>) = if t == "nat0" {
        // a count of units; the count is bounded because every unit costs a byte
        let n = s.below(400);
        let mut o = vec![];
        enc_nat0(n, &mut o);
        o.extend(vec![0u8; n as usize]);
        match s.below(4) {
            0 if n > 0 => {
                let k = s.usz(n as usize);
                o.truncate(o.len() - 1 - k);
                (o, Err(Rej::Eof))
            }
            1 if n > 0 => {
                let k = s.usz(n as usize);
                let i = o.len() - 1 - k;
                o[i] = s.range(1, 255) as u8;
                (o, Err(Rej::Bad))
            }
            _ => (o, Ok(n.to_string())),
        }
    } else {
        let ty = ty_of(t);
        let v = gen_val(s, &ty, &mut 20);
        let mut b = encode(&ty, &v);
        if s.chance(1, 2) {
            b = hostile(s, b)
        } else if s.chance(1, 3) {
            let n = s.below(4) as usize;
            b.extend(s.bytes(n))
        }
        let w = dec(&ty, &mut Cur::new(&b)).map(|v| show(&v));
        (b, w)
    };
    let file = s.bool();
    c.label(match &want {
        Ok(_) => "value",
        Err(Rej::Unspec) => "unspecified",
        _ => "rejected",
    });
    c.label(t);
    c.case(hash_of(&(t, &data, file)), !matches!(want, Err(Rej::Unspec)));
    c.sample(|| format!("deserialize {t} from {} -> {want:?}", hex(&data)));
    let d = Dir::new();
    let mut cmd = bin("VH_CHECKER");
    cmd.arg("--test").arg(t);
    if file {
        let p = d.file("in.bin", &data);
        cmd.arg("--path").arg(p);
    }
    cmd.arg("deserialize");
    let o = run(cmd, if file { None } else { Some(&data) });
    let out = String::from_utf8_lossy(&o.out).into_owned();
    ensure!(o.signal.is_none(), "deserialize {t} of {} was killed by signal {:?}: {}", hex(&data), o.signal, tail(&o.err));
    match want {
        Err(Rej::Unspec) => {}
        Ok(w) => ensure!(o.code == Some(0) && out.trim_end() == format!("Deserialized value: {w}"), "deserialize {t} of {} ended with {:?} and printed {out:?}, the value is {w}: {}", hex(&data), o.code, tail(&o.err)),
        Err(r) => ensure!(o.code != Some(0) && !out.contains("Deserialized value"), "deserialize {t} of {} ended with {:?} and printed {out:?} although the bytes are {r:?}", hex(&data), o.code),
    }
    Ok(())
}

/// files that cannot be read or written, tests that do not exist
fn c18_bad(s: &mut Src, c: &mut Ctx) -> Res {
    let d = Dir::new();
    let t = *s.pick(&TESTS);
    let ser = s.bool();
    let mut cmd = bin("VH_CHECKER");
    let what = match s.below(3) {
        0 => {
            let name = gen_label(s);
            if TESTS.contains(&name.as_str()) || name.starts_with('-') || name.is_empty() || name.contains('\0') {
                return Ok(());
            }
            cmd.arg("--test").arg(format!("x{name}"));
            "an unknown test"
        }
        1 => {
            cmd.arg("--test").arg(t).arg("--path").arg(d.0.join("no").join("such").join("file"));
            "a path that does not exist"
        }
        _ => {
            cmd.arg("--test").arg(t).arg("--path").arg(&d.0);
            "a folder in place of a file"
        }
    };
    cmd.arg(if ser { "serialize" } else { "deserialize" });
    c.label(what);
    c.case(hash_of(&(what, t, ser)), true);
    c.sample(|| format!("{what}: {t} serialize={ser}"));
    let o = run(cmd, Some(&[]));
    let out = String::from_utf8_lossy(&o.out).into_owned();
    if o.code == Some(0) || o.signal.is_some() || out.contains("Wrote") || out.contains("Deserialized") {
        fail!("given {what} ({t}, serialize={ser}) the checker ended with {:?} and printed {out:?}", o.code)
    }
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C17", name: "read", quick: 24_000, thorough: 400_000, f: c17, rule: "random layout file and data file (raw or hex; exact, with trailing bytes, damaged), with and without round-trip test and output file; non-trivial: compound layout with a specified outcome" },
        Facet { prop: "C17", name: "large", quick: 400, thorough: 6_000, f: c17_large, rule: "layouts nested 126..300 levels deep or lists of up to 70000 elements" },
        Facet { prop: "C17", name: "bad-files", quick: 3_000, thorough: 30_000, f: c17_bad, rule: "missing, truncated or malformed layout and data files; all non-trivial" },
        Facet { prop: "C18", name: "serialize", quick: 3_000, thorough: 30_000, f: c18_serialize, rule: "every test value to stdout or over an existing file, and read back" },
        Facet { prop: "C18", name: "deserialize", quick: 24_000, thorough: 300_000, f: c18_deserialize, rule: "encodings of random values of the test's type, also damaged, from stdin or a file; non-trivial: specified outcome" },
        Facet { prop: "C18", name: "bad-files", quick: 1_000, thorough: 10_000, f: c18_bad, rule: "unknown tests and unusable paths" },
    ]
}
