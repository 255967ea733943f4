//! Stand-in for js-sys: the few types that the code under test uses.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{JsValue, Kind};

macro_rules! wrapper { ($n:ident) => {
    #[derive(Clone, Debug)]
    pub struct $n(JsValue);
    impl AsRef<JsValue> for $n { fn as_ref(&self) -> &JsValue { &self.0 } }
    impl From<$n> for JsValue { fn from(v: $n) -> Self { v.0 } }
    impl From<JsValue> for $n { fn from(v: JsValue) -> Self { $n(v) } }
    impl std::ops::Deref for $n { type Target = JsValue; fn deref(&self) -> &JsValue { &self.0 } }
    impl wasm_bindgen::FromJs for $n { fn from_js(v: JsValue) -> Self { $n(v) } }
    impl wasm_bindgen::Marker for $n {}
    impl wasm_bindgen::IntoJs for $n { fn into_js(self) -> JsValue { self.0 } }
} }
wrapper!(JsString);
wrapper!(Array);
wrapper!(Uint8Array);
wrapper!(Object);

impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsString(s.into())
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsString(s.into())
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        s.0.as_string().unwrap_or_default()
    }
}
impl Array {
    fn items(&self) -> Rc<RefCell<Vec<JsValue>>> {
        match &self.0 .0 {
            Kind::Array(a) => a.clone(),
            _ => panic!("TypeError: no array"),
        }
    }
    pub fn new() -> Self {
        Array(JsValue(Kind::Array(Default::default())))
    }
    pub fn length(&self) -> u32 {
        self.items().borrow().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().borrow().get(i as usize).cloned().unwrap_or_default()
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.items().borrow_mut().push(v.clone());
        self.length()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items().borrow().clone()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl Default for Array {
    fn default() -> Self {
        Self::new()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(it: T) -> Self {
        Array(JsValue(Kind::Array(Rc::new(RefCell::new(it.into_iter().map(|v| v.as_ref().clone()).collect())))))
    }
}
impl Uint8Array {
    fn items(&self) -> Rc<RefCell<Vec<u8>>> {
        match &self.0 .0 {
            Kind::Bytes(a) => a.clone(),
            _ => panic!("TypeError: no Uint8Array"),
        }
    }
    pub fn new_with_length(n: u32) -> Self {
        Uint8Array(JsValue(Kind::Bytes(Rc::new(RefCell::new(vec![0; n as usize])))))
    }
    pub fn length(&self) -> u32 {
        self.items().borrow().len() as u32
    }
    pub fn copy_from(&self, b: &[u8]) {
        self.items().borrow_mut().copy_from_slice(b)
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.items().borrow().clone()
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Self {
        Uint8Array(JsValue(Kind::Bytes(Rc::new(RefCell::new(b.to_vec())))))
    }
}
