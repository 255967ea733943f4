//! The repository's JavaScript modules, run by node, and the servers that answer them.
use crate::gql::{Field, Val};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use wasm_bindgen::{JsValue, Kind};

struct Node {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
type Host = Rc<dyn Fn(&Value) -> Reply>;
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
    static HOST: RefCell<Option<Host>> = const { RefCell::new(None) };
}
impl Node {
    fn start() -> Node {
        let mut child = Command::new("node")
            .arg(concat!(env!("CARGO_MANIFEST_DIR"), "/net.js"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("node runs");
        Node { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), _child: child }
    }
    fn put(&mut self, v: &Value) {
        let t = format!("{v}\n");
        self.to.write_all(t.as_bytes()).and_then(|_| self.to.flush()).expect("the JavaScript process reads");
    }
    fn line(&mut self) -> Value {
        let mut t = String::new();
        self.from.read_line(&mut t).expect("the JavaScript process answers");
        assert!(!t.is_empty(), "the JavaScript process has ended");
        serde_json::from_str(&t).expect("a line of JSON")
    }
}
/// What a server does with a request.
#[derive(Clone, Debug, Hash)]
pub enum Reply {
    Fail,
    Body(u16, String),
}
fn to_json(v: &JsValue) -> Value {
    match &v.0 {
        Kind::Undefined | Kind::Null => Value::Null,
        Kind::Bool(b) => json!(b),
        Kind::Num(n) if n.fract() == 0.0 && n.abs() < 9e15 => json!(*n as i64),
        Kind::Num(n) => json!(n),
        Kind::Str(t) => json!(t),
        Kind::Array(a) => Value::Array(a.borrow().iter().map(to_json).collect()),
        _ => panic!("an argument of another kind"),
    }
}
fn from_json(v: &Value) -> JsValue {
    match v {
        Value::Null => JsValue::NULL,
        Value::Bool(b) => JsValue::from_bool(*b),
        Value::Number(n) => JsValue::from_f64(n.as_f64().unwrap()),
        Value::String(t) => t.as_str().into(),
        Value::Array(a) => JsValue(Kind::Array(Rc::new(RefCell::new(a.iter().map(from_json).collect())))),
        Value::Object(o) => JsValue::object(o.iter().map(|(k, v)| (k.as_str(), from_json(v))).collect()),
    }
}
/// Sets the servers of this thread: a request is {url, method, headers, body}.
pub fn serve(f: impl Fn(&Value) -> Reply + 'static) {
    HOST.with(|h| *h.borrow_mut() = Some(Rc::new(f)));
    wasm_bindgen::provide_modules(|module, name, args| {
        let host = HOST.with(|h| h.borrow().clone()).unwrap();
        let mut n = NODE.with(|n| n.borrow_mut().take()).unwrap_or_else(Node::start);
        let args: Vec<Value> = args.iter().map(to_json).collect();
        n.put(&json!({"module": format!("/repo/network{module}"), "name": name, "args": args}));
        let mut k = 0;
        let done = loop {
            let mut v = n.line();
            if let Some(d) = v.get_mut("done") {
                break d.take();
            }
            k += 1;
            assert!(k <= 50, "{name} does not stop sending requests");
            n.put(&match host(&v) {
                Reply::Fail => json!({"fail": true, "wait": k % 2}),
                Reply::Body(status, body) => json!({"status": status, "body": body, "wait": k % 2}),
            });
        };
        NODE.with(|c| *c.borrow_mut() = Some(n));
        match done.get("ok") {
            Some(v) => Ok(from_json(v)),
            None => Err(from_json(&done["err"])),
        }
    });
}

/// What a server answers to a selection over a document; `call` answers the fields with arguments.
pub fn select(sel: &[Field], doc: &Value, call: &dyn Fn(&Field) -> Option<Value>) -> Result<Value, String> {
    match doc {
        Value::Array(a) => Ok(Value::Array(a.iter().map(|v| select(sel, v, call)).collect::<Result<_, _>>()?)),
        Value::Object(o) if !sel.is_empty() => {
            let mut out = serde_json::Map::new();
            for f in sel {
                let own = call(f);
                if own.is_none() && !f.args.is_empty() {
                    return Err(format!("{} has no such arguments: {:?}", f.name, f.args));
                }
                let v = own.or_else(|| o.get(&f.name).cloned()).unwrap_or(Value::Null);
                if out.insert(f.alias.clone(), select(&f.sel, &v, &|_| None)?).is_some() {
                    return Err(format!("{} is asked for twice", f.alias));
                }
            }
            Ok(Value::Object(out))
        }
        Value::Object(_) => Err("an object without a selection".into()),
        Value::Null => Ok(Value::Null),
        _ if sel.is_empty() => Ok(doc.clone()),
        _ => Err(format!("a selection of {doc}")),
    }
}
pub fn int(v: Option<&Val>) -> Option<u64> {
    match v {
        Some(Val::Num(n)) => n.parse().ok(),
        _ => None,
    }
}
