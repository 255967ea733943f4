//! from_reader / from_reader_strict / to_writer for types given as data.
use crate::model::*;
use bin_prot::error::Error;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Deserializer};
use std::cell::Cell;
use std::io::{Read, Write};

thread_local! { static CUR: Cell<*const Ty> = const { Cell::new(std::ptr::null()) }; }
pub struct Dyn(pub Val);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = CUR.with(|c| c.get());
        assert!(!t.is_null(), "harness: no current type");
        Seed(unsafe { &*t }).deserialize(d).map(Dyn)
    }
}
struct Reset(*const Ty);
impl Drop for Reset {
    fn drop(&mut self) {
        CUR.with(|c| c.set(self.0))
    }
}
fn with<T>(t: &Ty, f: impl FnOnce() -> T) -> T {
    let _r = Reset(CUR.with(|c| c.replace(t)));
    f()
}
pub fn lenient<R: Read>(t: &Ty, r: R) -> Result<Val, Error> {
    with(t, || bin_prot::from_reader::<R, Dyn>(r).map(|d| d.0))
}
pub fn strict<R: Read>(t: &Ty, r: R) -> Result<Val, Error> {
    with(t, || bin_prot::from_reader_strict::<R, Dyn>(r).map(|d| d.0))
}
/// decode several values back to back from one deserializer; stops at the first error
pub fn stream<R: Read>(ts: &[&Ty], r: R) -> Result<Vec<Val>, Error> {
    let mut d = bin_prot::Deserializer::from_reader(r);
    ts.iter().map(|t| Seed(t).deserialize(&mut d)).collect()
}
pub fn write<W: Write>(w: &mut W, t: &Ty, v: &Val) -> Result<(), Error> {
    bin_prot::to_writer(w, &Ser(t, v))
}
pub fn to_vec(t: &Ty, v: &Val) -> Result<Vec<u8>, Error> {
    let mut o = vec![];
    write(&mut o, t, v)?;
    Ok(o)
}
