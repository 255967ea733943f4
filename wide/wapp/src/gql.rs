//! A reader of GraphQL request documents, and a place to run futures.
use crate::core::*;
use serde_json::Value;
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    /// an integer, a float, a name: as written
    Num(String),
    Name(String),
    Obj(BTreeMap<String, Val>),
    List(Vec<Val>),
}
impl Val {
    /// the text of a scalar that may be written as a string or as a number
    pub fn scalar(&self) -> Option<&str> {
        match self {
            Val::Str(s) | Val::Num(s) => Some(s),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub alias: String,
    pub name: String,
    pub args: BTreeMap<String, Val>,
    pub sel: Vec<Field>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Operation {
    pub kind: String,
    pub sel: Vec<Field>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Punct(String),
    Name(String),
    Num(String),
    Str(String),
}
fn lex(t: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() || x == ',' || x == '\u{feff}' {
            i += 1;
        } else if x == '#' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x.is_ascii_alphabetic() || x == '_' {
            let a = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(Tok::Name(c[a..i].iter().collect()));
        } else if x.is_ascii_digit() || x == '-' {
            let a = i;
            i += 1;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || matches!(c[i], '.' | '+' | '-')) {
                i += 1;
            }
            out.push(Tok::Num(c[a..i].iter().collect()));
        } else if x == '"' {
            if c[i..].starts_with(&['"', '"', '"']) {
                return Err("a block string".into());
            }
            i += 1;
            let mut s = vec![];
            loop {
                let Some(&x) = c.get(i) else { return Err("a string without end".into()) };
                i += 1;
                match x {
                    '"' => break,
                    '\n' | '\r' => return Err("a line break in a string".into()),
                    '\\' => {
                        let Some(&e) = c.get(i) else { return Err("a string without end".into()) };
                        i += 1;
                        match e {
                            '"' | '\\' | '/' => s.push(e as u16),
                            'b' => s.push(8),
                            'f' => s.push(12),
                            'n' => s.push(10),
                            'r' => s.push(13),
                            't' => s.push(9),
                            'u' => {
                                let h: String = c.get(i..i + 4).ok_or("a string without end")?.iter().collect();
                                s.push(u16::from_str_radix(&h, 16).map_err(|_| format!("the escape \\u{h}"))?);
                                i += 4;
                            }
                            e => return Err(format!("the escape \\{e}")),
                        }
                    }
                    x if (x as u32) < 32 && x != '\t' => return Err("a control character in a string".into()),
                    x => s.extend(x.encode_utf16(&mut [0; 2]).iter()),
                }
            }
            out.push(Tok::Str(String::from_utf16(&s).map_err(|_| "half a character")?));
        } else if c[i..].starts_with(&['.', '.', '.']) {
            i += 3;
            out.push(Tok::Punct("...".into()));
        } else if "{}()[]:!$=@|&".contains(x) {
            i += 1;
            out.push(Tok::Punct(x.into()));
        } else {
            return Err(format!("the character {x:?}"));
        }
    }
    Ok(out)
}
struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    vars: &'a Value,
}
impl P<'_> {
    fn is(&self, p: &str) -> bool {
        self.t.get(self.i) == Some(&Tok::Punct(p.into()))
    }
    fn eat(&mut self, p: &str) -> Result<(), String> {
        if self.is(p) {
            self.i += 1;
            return Ok(());
        }
        Err(format!("{:?} instead of {p}", self.t.get(self.i)))
    }
    fn name(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(Tok::Name(n)) => {
                self.i += 1;
                Ok(n.clone())
            }
            x => Err(format!("{x:?} instead of a name")),
        }
    }
    fn value(&mut self) -> Result<Val, String> {
        let t = self.t.get(self.i).cloned();
        self.i += 1;
        Ok(match t {
            Some(Tok::Str(s)) => Val::Str(s),
            Some(Tok::Num(s)) => Val::Num(s),
            Some(Tok::Name(s)) => Val::Name(s),
            Some(Tok::Punct(p)) if p == "$" => {
                let n = self.name()?;
                from_json(self.vars.get(&n).unwrap_or(&Value::Null))
            }
            Some(Tok::Punct(p)) if p == "[" => {
                let mut v = vec![];
                while !self.is("]") {
                    v.push(self.value()?);
                }
                self.i += 1;
                Val::List(v)
            }
            Some(Tok::Punct(p)) if p == "{" => {
                let mut v = BTreeMap::new();
                while !self.is("}") {
                    let n = self.name()?;
                    self.eat(":")?;
                    let x = self.value()?;
                    // a member that is null is a member that is not there
                    if x != Val::Name("null".into()) && v.insert(n.clone(), x).is_some() {
                        return Err(format!("{n} twice"));
                    }
                }
                self.i += 1;
                Val::Obj(v)
            }
            t => return Err(format!("{t:?} instead of a value")),
        })
    }
    fn selection(&mut self) -> Result<Vec<Field>, String> {
        let mut v = vec![];
        self.eat("{")?;
        while !self.is("}") {
            let mut name = self.name()?;
            let alias = name.clone();
            if self.is(":") {
                self.i += 1;
                name = self.name()?;
            }
            let mut args = BTreeMap::new();
            if self.is("(") {
                self.i += 1;
                while !self.is(")") {
                    let n = self.name()?;
                    self.eat(":")?;
                    args.insert(n, self.value()?);
                }
                self.i += 1;
            }
            let sel = if self.is("{") { self.selection()? } else { vec![] };
            v.push(Field { alias, name, args, sel });
        }
        self.i += 1;
        Ok(v)
    }
}
fn from_json(v: &Value) -> Val {
    match v {
        Value::Null => Val::Name("null".into()),
        Value::Bool(b) => Val::Name(b.to_string()),
        Value::Number(n) => Val::Num(n.to_string()),
        Value::String(s) => Val::Str(s.clone()),
        Value::Array(a) => Val::List(a.iter().map(from_json).collect()),
        Value::Object(o) => Val::Obj(o.iter().filter(|x| !x.1.is_null()).map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}
/// The one operation of a request body.
pub fn request(body: &[u8]) -> Result<Operation, String> {
    let v: Value = serde_json::from_slice(body).map_err(|e| format!("the body is no JSON: {e}"))?;
    let q = v.get("query").and_then(|q| q.as_str()).ok_or("no query")?;
    let none = Value::Null;
    let mut p = P { t: lex(q)?, i: 0, vars: v.get("variables").unwrap_or(&none) };
    let mut kind = "query".to_string();
    if let Some(Tok::Name(_)) = p.t.first() {
        kind = p.name()?;
        if let Some(Tok::Name(n)) = p.t.get(p.i) {
            if let Some(o) = v.get("operationName").and_then(|o| o.as_str()) {
                if o != n {
                    return Err(format!("the operation {o} is not there"));
                }
            }
            p.i += 1;
        }
        if p.is("(") {
            while !p.is(")") {
                p.i += 1;
                if p.i >= p.t.len() {
                    return Err("variables without end".into());
                }
            }
            p.i += 1;
        }
    }
    let sel = p.selection()?;
    if p.i != p.t.len() {
        return Err(format!("more than one operation: {:?}", &p.t[p.i..]));
    }
    Ok(Operation { kind, sel })
}

// ------------------------------------------------------------------ futures

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
/// Runs a future to its end, or until it waits for something that does not come.
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = Waker::from(flag.clone());
    let mut f = Box::pin(f);
    for _ in 0..100_000 {
        if !flag.0.swap(false, Ordering::SeqCst) {
            return None;
        }
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Some(x);
        }
    }
    None
}
pub fn text(s: &mut Src) -> String {
    let n = s.usz(12);
    (0..n)
        .map(|_| match s.below(8) {
            0 => '"',
            1 => '\\',
            2 => *s.pick(&['\n', '\r', '\t', '\0', '\u{8}', '\u{1f}', '\u{7f}']),
            3 => *s.pick(&['{', '}', '(', ')', ':', '$', '#', ',', '/', '\'', '%', '&', '<', '`']),
            4 => *s.pick(&['é', '漢', '😀', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{300}']),
            5 => ' ',
            _ => (b'a' + s.below(26) as u8) as char,
        })
        .collect()
}
