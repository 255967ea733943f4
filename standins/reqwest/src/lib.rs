//! Stand-in for reqwest: requests go to a function that a test sets on the thread, or to a script
//! in a file (REQWEST_SCRIPT), and are written down (REQWEST_LOG). Nothing touches a network.
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

/// What a server says to a request.
#[derive(Clone, Debug)]
pub enum Answer {
    Body(u16, Vec<u8>),
    /// no answer at all
    Fail(String),
    /// headers arrive, the body does not
    Cut(u16),
}
#[derive(Clone, Debug)]
pub struct Asked {
    pub method: String,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
}
type Server = Rc<dyn Fn(&Asked) -> (Answer, u32)>;
thread_local! { static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) }; }
/// The server of this thread: its answer, and how often the request gives way before it comes.
pub fn serve(f: impl Fn(&Asked) -> (Answer, u32) + 'static) {
    SERVER.with(|s| *s.borrow_mut() = Some(Rc::new(f)))
}

fn note(line: &str) {
    if let Ok(p) = std::env::var("REQWEST_LOG") {
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap();
        f.write_all(format!("{line}\n").as_bytes()).unwrap();
    }
}
/// {"url": [["GET"], status, "body", wait] ...}: see the crawler's check.
fn script(a: &Asked) -> (Answer, u32) {
    let p = std::env::var("REQWEST_SCRIPT").expect("no server");
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
    match v.get(&a.url) {
        None => (Answer::Fail(format!("no route to {}", a.url)), 0),
        Some(r) => {
            let wait = r["wait"].as_u64().unwrap_or(0) as u32;
            match r["kind"].as_str() {
                Some("fail") => (Answer::Fail("connection refused".into()), wait),
                Some("cut") => (Answer::Cut(200), wait),
                _ => (Answer::Body(r["status"].as_u64().unwrap_or(200) as u16, r["body"].as_str().unwrap_or("").as_bytes().to_vec()), wait),
            }
        }
    }
}

async fn give_way(n: u32) {
    let mut left = n;
    std::future::poll_fn(move |cx| {
        if left == 0 {
            return std::task::Poll::Ready(());
        }
        left -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    })
    .await
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
}
impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub trait IntoUrl {
    fn url(self) -> String;
}
impl IntoUrl for &str {
    fn url(self) -> String {
        self.into()
    }
}
impl IntoUrl for String {
    fn url(self) -> String {
        self
    }
}
impl IntoUrl for &String {
    fn url(self) -> String {
        self.clone()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client;
#[derive(Clone, Debug, Default)]
pub struct ClientBuilder;
impl ClientBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client)
    }
}
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder
    }
    fn request(&self, m: &str, u: impl IntoUrl) -> RequestBuilder {
        RequestBuilder { asked: Asked { method: m.into(), url: u.url(), headers: vec![], body: None }, err: None }
    }
    pub fn get(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request("GET", u)
    }
    pub fn post(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request("POST", u)
    }
}
pub struct RequestBuilder {
    asked: Asked,
    err: Option<String>,
}
impl RequestBuilder {
    pub fn json<T: Serialize + ?Sized>(mut self, v: &T) -> Self {
        match serde_json::to_vec(v) {
            Ok(b) => self.asked.body = Some(b),
            Err(e) => self.err = Some(e.to_string()),
        }
        self.asked.headers.push(("content-type".into(), "application/json".into()));
        self
    }
    pub fn header(mut self, k: impl ToString, v: impl ToString) -> Self {
        self.asked.headers.push((k.to_string().to_lowercase(), v.to_string()));
        self
    }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self {
        self.asked.body = Some(b.into());
        self
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub async fn send(self) -> Result<Response> {
        if let Some(e) = self.err {
            return Err(Error(e));
        }
        let a = self.asked;
        note(&serde_json::json!({"m": a.method, "u": a.url, "b": a.body.as_ref().map(|b| String::from_utf8_lossy(b).into_owned())}).to_string());
        let s = SERVER.with(|s| s.borrow().clone());
        let (ans, wait) = match s {
            Some(f) => f(&a),
            None => script(&a),
        };
        give_way(wait).await;
        note(&serde_json::json!({"done": a.url}).to_string());
        match ans {
            Answer::Fail(e) => Err(Error(format!("error sending request for url ({}): {e}", a.url))),
            Answer::Body(c, b) => Ok(Response { status: StatusCode(c), body: Some(b), url: a.url }),
            Answer::Cut(c) => Ok(Response { status: StatusCode(c), body: None, url: a.url }),
        }
    }
}
pub struct Response {
    status: StatusCode,
    body: Option<Vec<u8>>,
    url: String,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error(format!("HTTP status error ({}) for url ({})", self.status, self.url)));
        }
        Ok(self)
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        self.body.ok_or_else(|| Error("error reading a body from connection".into()))
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.bytes().await?).map_err(|e| Error(format!("error decoding response body: {e}")))
    }
}
pub async fn get(u: impl IntoUrl) -> Result<Response> {
    Client::new().get(u).send().await
}
