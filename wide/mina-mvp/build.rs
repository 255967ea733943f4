//! What protobuf-codegen makes of the messages, for the stand-in of protobuf.
use std::fmt::Write;
fn main() {
    let dir = "/repo/apps/wasm/mvp/proto";
    println!("cargo:rerun-if-changed={dir}");
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("protobuf");
    std::fs::create_dir_all(&out).unwrap();
    let mut all = String::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map_or(true, |x| x != "proto") {
            continue;
        }
        println!("cargo:rerun-if-changed={}", p.display());
        let t: String = std::fs::read_to_string(&p).unwrap().lines().map(|l| l.split("//").next().unwrap().to_string() + "\n").collect();
        let mut s = String::new();
        for m in t.split("\nmessage ").skip(1) {
            let (name, body) = m.split_once('{').unwrap();
            let name = name.trim();
            let body = body.split_once('}').unwrap().0;
            let fields: Vec<(String, String, u32)> = body
                .split(';')
                .filter(|f| f.contains('='))
                .map(|f| {
                    let w: Vec<&str> = f.split(|c: char| c.is_whitespace() || c == '=').filter(|w| !w.is_empty()).collect();
                    (w[0].to_string(), w[1].to_string(), w[2].parse().unwrap())
                })
                .collect();
            writeln!(s, "#[derive(Clone, Debug, Default, PartialEq)]\npub struct {name} {{").unwrap();
            for (t, n, _) in &fields {
                let t = match t.as_str() {
                    "bool" => "bool",
                    "int64" => "i64",
                    "string" => "String",
                    t => panic!("{t}"),
                };
                writeln!(s, "pub {n}: {t},").unwrap();
            }
            writeln!(s, "}}\nimpl {name} {{ pub fn new() -> Self {{ Self::default() }} }}\nimpl ::protobuf::Message for {name} {{\nfn write_field(&self, out: &mut Vec<u8>) {{").unwrap();
            let mut sorted = fields.clone();
            sorted.sort_by_key(|f| f.2);
            for (t, n, i) in &sorted {
                match t.as_str() {
                    "bool" => writeln!(s, "if self.{n} {{ ::protobuf::put(out, {i} << 3); out.push(1); }}"),
                    "int64" => writeln!(s, "if self.{n} != 0 {{ ::protobuf::put(out, {i} << 3); ::protobuf::put(out, self.{n} as u64); }}"),
                    _ => writeln!(s, "if !self.{n}.is_empty() {{ ::protobuf::put(out, {i} << 3 | 2); ::protobuf::put(out, self.{n}.len() as u64); out.extend_from_slice(self.{n}.as_bytes()); }}"),
                }
                .unwrap();
            }
            writeln!(s, "}}\nfn set_field(&mut self, n: u64, f: ::protobuf::Field<'_>) -> ::protobuf::Result<()> {{ match (n, f) {{").unwrap();
            for (t, n, i) in &sorted {
                match t.as_str() {
                    "bool" => writeln!(s, "({i}, ::protobuf::Field::Varint(v)) => self.{n} = v != 0,"),
                    "int64" => writeln!(s, "({i}, ::protobuf::Field::Varint(v)) => self.{n} = v as i64,"),
                    _ => writeln!(s, "({i}, ::protobuf::Field::Bytes(b)) => self.{n} = ::protobuf::text(b)?,"),
                }
                .unwrap();
            }
            writeln!(s, "_ => {{}} }} Ok(()) }}\n}}").unwrap();
        }
        writeln!(all, "pub mod {} {{\n{s}}}", p.file_stem().unwrap().to_str().unwrap()).unwrap();
    }
    std::fs::write(out.join("mod.rs"), all).unwrap();
}
