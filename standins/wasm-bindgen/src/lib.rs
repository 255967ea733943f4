//! Stand-in for wasm-bindgen on a native target: JavaScript values are a small tree, imported
//! functions are looked up in a table that a test fills.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub use wasm_bindgen_macros::wasm_bindgen;
pub mod prelude {
    pub use crate::{wasm_bindgen, Closure, JsCast, JsError, JsValue, UnwrapThrowExt};
}
/// Not used by the code under test.
pub struct Closure;
pub trait JsCast {}
pub trait UnwrapThrowExt<T> {
    fn unwrap_throw(self) -> T;
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
}

#[derive(Clone)]
pub enum Kind {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    /// decimal digits with an optional minus sign
    BigInt(String),
    Str(String),
    Object(Rc<RefCell<BTreeMap<String, JsValue>>>),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Bytes(Rc<RefCell<Vec<u8>>>),
    /// a method: gets its arguments
    Func(Rc<dyn Fn(Vec<JsValue>) -> JsValue>),
    Native(Rc<dyn Any>),
}
#[derive(Clone)]
pub struct JsValue(pub Kind);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Kind::Undefined);
    pub const NULL: JsValue = JsValue(Kind::Null);
    pub const TRUE: JsValue = JsValue(Kind::Bool(true));
    pub const FALSE: JsValue = JsValue(Kind::Bool(false));
    pub fn undefined() -> Self {
        Self::UNDEFINED
    }
    pub fn null() -> Self {
        Self::NULL
    }
    pub fn from_str(s: &str) -> Self {
        JsValue(Kind::Str(s.into()))
    }
    pub fn from_bool(b: bool) -> Self {
        JsValue(Kind::Bool(b))
    }
    pub fn from_f64(n: f64) -> Self {
        JsValue(Kind::Num(n))
    }
    pub fn native<T: 'static>(v: T) -> Self {
        JsValue(Kind::Native(Rc::new(v)))
    }
    pub fn object(fields: Vec<(&str, JsValue)>) -> Self {
        JsValue(Kind::Object(Rc::new(RefCell::new(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))))
    }
    pub fn bigint(digits: &str) -> Self {
        JsValue(Kind::BigInt(digits.into()))
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Kind::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Kind::Undefined)
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Kind::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Kind::Object(_) | Kind::Array(_) | Kind::Bytes(_) | Kind::Native(_))
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn is_falsy(&self) -> bool {
        match &self.0 {
            Kind::Undefined | Kind::Null => true,
            Kind::Bool(b) => !b,
            Kind::Num(n) => *n == 0.0 || n.is_nan(),
            Kind::BigInt(d) => d == "0",
            Kind::Str(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Kind::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Kind::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Kind::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_native<T: 'static>(&self) -> Option<&T> {
        match &self.0 {
            Kind::Native(a) => a.downcast_ref(),
            _ => None,
        }
    }
    /// What a template literal makes of the value; an error for what it throws for.
    pub fn template(&self) -> String {
        match &self.0 {
            Kind::Undefined => "undefined".into(),
            Kind::Null => "null".into(),
            Kind::Bool(b) => b.to_string(),
            Kind::Num(n) => num(*n),
            Kind::BigInt(d) => d.clone(),
            Kind::Str(s) => s.clone(),
            Kind::Array(a) => a.borrow().iter().map(|v| if v.is_null() || v.is_undefined() { String::new() } else { v.template() }).collect::<Vec<_>>().join(","),
            Kind::Bytes(b) => b.borrow().iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","),
            Kind::Func(_) => "function".into(),
            _ => "[object Object]".into(),
        }
    }
}
/// Number::toString.
fn num(n: f64) -> String {
    if n.is_nan() {
        return "NaN".into();
    }
    if n == 0.0 {
        return "0".into();
    }
    if n.is_infinite() {
        return if n > 0.0 { "Infinity".into() } else { "-Infinity".into() };
    }
    // the shortest digits that read back, as Rust's {:e} gives them
    let e = format!("{:e}", n.abs());
    let (m, x) = e.split_once('e').unwrap();
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let (k, n10) = (digits.len() as i32, x.parse::<i32>().unwrap() + 1);
    let s = if k <= n10 && n10 <= 21 {
        format!("{}{}", digits, "0".repeat((n10 - k) as usize))
    } else if 0 < n10 && n10 <= 21 {
        format!("{}.{}", &digits[..n10 as usize], &digits[n10 as usize..])
    } else if -6 < n10 && n10 <= 0 {
        format!("0.{}{}", "0".repeat(-n10 as usize), digits)
    } else {
        let x = n10 - 1;
        let sign = if x < 0 { '-' } else { '+' };
        if k == 1 {
            format!("{digits}e{sign}{}", x.abs())
        } else {
            format!("{}.{}e{sign}{}", &digits[..1], &digits[1..], x.abs())
        }
    };
    if n < 0.0 {
        format!("-{s}")
    } else {
        s
    }
}
impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JsValue({})", self.template())
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (&self.0, &o.0) {
            (Kind::Undefined, Kind::Undefined) | (Kind::Null, Kind::Null) => true,
            (Kind::Bool(a), Kind::Bool(b)) => a == b,
            (Kind::Num(a), Kind::Num(b)) => a == b,
            (Kind::Str(a), Kind::Str(b)) | (Kind::BigInt(a), Kind::BigInt(b)) => a == b,
            _ => false,
        }
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        Self::from_bool(b)
    }
}
impl<'a, T: Clone> From<&'a T> for JsValue
where
    JsValue: From<T>,
    T: Marker,
{
    fn from(v: &'a T) -> Self {
        v.clone().into()
    }
}
/// Types of JavaScript objects.
pub trait Marker {}
macro_rules! nums { ($($t:ty)*) => { $(
    impl From<$t> for JsValue { fn from(n: $t) -> Self { Self::from_f64(n as f64) } }
    impl FromJs for $t { fn from_js(v: JsValue) -> Self { to_number(&v) as i64 as $t } }
    impl IntoJs for $t { fn into_js(self) -> JsValue { self.into() } }
)* } }
nums!(u8 u16 u32 i8 i16 i32 f32 f64 usize isize);
macro_rules! bigs { ($($t:ty)*) => { $(
    impl From<$t> for JsValue { fn from(n: $t) -> Self { Self::bigint(&n.to_string()) } }
    impl IntoJs for $t { fn into_js(self) -> JsValue { self.into() } }
)* } }
bigs!(u64 i64 u128 i128);

/// What an import gets.
pub trait IntoJs {
    fn into_js(self) -> JsValue;
}
impl IntoJs for JsValue {
    fn into_js(self) -> JsValue {
        self
    }
}
impl IntoJs for String {
    fn into_js(self) -> JsValue {
        self.into()
    }
}
impl IntoJs for &str {
    fn into_js(self) -> JsValue {
        self.into()
    }
}
impl IntoJs for bool {
    fn into_js(self) -> JsValue {
        self.into()
    }
}
impl<T: AsRef<JsValue>> IntoJs for &T {
    fn into_js(self) -> JsValue {
        self.as_ref().clone()
    }
}
impl<T: Into<JsValue>> IntoJs for Vec<T> {
    fn into_js(self) -> JsValue {
        JsValue(Kind::Array(Rc::new(RefCell::new(self.into_iter().map(|v| v.into()).collect()))))
    }
}
impl<T: IntoJs> IntoJs for Option<T> {
    fn into_js(self) -> JsValue {
        self.map_or(JsValue::UNDEFINED, |v| v.into_js())
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

fn to_number(v: &JsValue) -> f64 {
    match &v.0 {
        Kind::Null => 0.0,
        Kind::Bool(b) => *b as u8 as f64,
        Kind::Num(n) => *n,
        Kind::Str(s) => {
            let t = s.trim();
            if t.is_empty() {
                0.0
            } else {
                t.parse().unwrap_or(f64::NAN)
            }
        }
        Kind::BigInt(_) => panic!("TypeError: a BigInt is no number"),
        _ => f64::NAN,
    }
}
/// What an import gives.
pub trait FromJs {
    fn from_js(v: JsValue) -> Self;
}
impl FromJs for JsValue {
    fn from_js(v: JsValue) -> Self {
        v
    }
}
impl FromJs for () {
    fn from_js(_: JsValue) -> Self {}
}
impl FromJs for bool {
    fn from_js(v: JsValue) -> Self {
        v.is_truthy()
    }
}
impl FromJs for String {
    fn from_js(v: JsValue) -> Self {
        v.as_string().unwrap_or_else(|| panic!("TypeError: {v:?} is no string"))
    }
}
impl<T: FromJs> FromJs for Option<T> {
    fn from_js(v: JsValue) -> Self {
        if v.is_null() || v.is_undefined() {
            None
        } else {
            Some(T::from_js(v))
        }
    }
}

pub fn get(obj: &JsValue, name: &str) -> JsValue {
    match &obj.0 {
        Kind::Object(m) => m.borrow().get(name).cloned().unwrap_or_default(),
        Kind::Undefined | Kind::Null => panic!("TypeError: {name} of {obj:?}"),
        _ => JsValue::UNDEFINED,
    }
}
pub fn call(obj: &JsValue, name: &str, args: Vec<JsValue>) -> JsValue {
    match get(obj, name).0 {
        Kind::Func(f) => f(args),
        _ => panic!("TypeError: {name} is no function"),
    }
}
type Import = Rc<dyn Fn(Vec<JsValue>) -> Result<JsValue, JsValue>>;
type Module = Rc<dyn Fn(&str, &str, Vec<JsValue>) -> Result<JsValue, JsValue>>;
thread_local! {
    static IMPORTS: RefCell<BTreeMap<String, Import>> = RefCell::new(BTreeMap::new());
    static MODULES: RefCell<Option<Module>> = const { RefCell::new(None) };
    static WAIT: Cell<u32> = const { Cell::new(0) };
}
/// Sets what an imported function does on this thread.
pub fn provide(name: &str, f: impl Fn(Vec<JsValue>) -> Result<JsValue, JsValue> + 'static) {
    IMPORTS.with(|m| m.borrow_mut().insert(name.into(), Rc::new(f)));
}
/// Sets what stands for JavaScript modules on this thread: gets the module's path, a name and arguments.
pub fn provide_modules(f: impl Fn(&str, &str, Vec<JsValue>) -> Result<JsValue, JsValue> + 'static) {
    MODULES.with(|m| *m.borrow_mut() = Some(Rc::new(f)));
}
/// How often asynchronous imports give way on this thread.
pub fn set_wait(n: u32) {
    WAIT.with(|w| w.set(n))
}
pub fn import(module: &str, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    let f = IMPORTS.with(|m| m.borrow().get(name).cloned());
    match f {
        Some(f) => f(args),
        None if name == "js_to_string" => Ok(args[0].template().into()),
        None if name == "get_log_text_js" => Ok("".into()),
        None if module.is_empty() => Ok(JsValue::UNDEFINED),
        None => match MODULES.with(|m| m.borrow().clone()) {
            Some(f) => f(module, name, args),
            None => Ok(JsValue::UNDEFINED),
        },
    }
}
pub async fn give_way() {
    let mut left = WAIT.with(|w| w.get());
    std::future::poll_fn(move |cx| {
        if left == 0 {
            return std::task::Poll::Ready(());
        }
        left -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    })
    .await
}

#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.into())
    }
    pub fn message(&self) -> &str {
        &self.0
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        JsValue::object(vec![("message", e.0.into())])
    }
}

// ------------------------------------------------------------------ exports

pub type Promise = std::pin::Pin<Box<dyn std::future::Future<Output = Result<JsValue, JsValue>>>>;
pub type Export = fn(Vec<JsValue>) -> Promise;
static EXPORTS: std::sync::Mutex<BTreeMap<&'static str, Export>> = std::sync::Mutex::new(BTreeMap::new());
pub fn enter(name: &'static str, f: Export) {
    EXPORTS.lock().unwrap().insert(name, f);
}
/// Calls what a crate exports under a JavaScript name: "crate::name".
pub fn export(name: &str) -> Option<Export> {
    EXPORTS.lock().unwrap().get(name).copied()
}
/// What an export returns.
pub trait Ret {
    fn ret(self) -> Result<JsValue, JsValue>;
}
impl<T: IntoJs> Ret for T {
    fn ret(self) -> Result<JsValue, JsValue> {
        Ok(self.into_js())
    }
}
impl<T: IntoJs, E: Into<JsValue>> Ret for Result<T, E> {
    fn ret(self) -> Result<JsValue, JsValue> {
        self.map(|v| v.into_js()).map_err(|e| e.into())
    }
}
impl IntoJs for () {
    fn into_js(self) -> JsValue {
        JsValue::UNDEFINED
    }
}
