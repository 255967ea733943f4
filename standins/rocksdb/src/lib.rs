//! Stand-in for rocksdb 0.19: an ordered in-memory map whose iteration can be made to fail.
//! `prefix_iterator` on a database without a prefix extractor is a total-order iterator that starts
//! at the first key not below the prefix and runs on past it, as RocksDB's does.
use std::collections::BTreeMap;
use std::fmt;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn into_string(self) -> String {
        self.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
#[derive(Default)]
pub struct Options;
#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
#[derive(Default)]
pub struct DB {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    /// reads from this key on fail
    fail_at: Option<Vec<u8>>,
}
type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
impl DB {
    /// An in-memory database (stands in for opening one)
    pub fn stand_in(map: BTreeMap<Vec<u8>, Vec<u8>>, fail_at: Option<Vec<u8>>) -> Self {
        Self { map, fail_at }
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        Ok(self.map.get(k.as_ref()).cloned())
    }
    pub fn iterator<'a: 'b, 'b>(&'a self, mode: IteratorMode) -> DBIterator<'b> {
        let (items, fail): (Vec<_>, bool) = match mode {
            IteratorMode::Start => self.forward(&[]),
            IteratorMode::From(k, Direction::Forward) => self.forward(k),
            IteratorMode::End => (self.map.iter().rev().collect(), false),
            IteratorMode::From(k, Direction::Reverse) => (self.map.range(..=k.to_vec()).rev().collect(), false),
        };
        DBIterator { items: items.into_iter(), fail }
    }
    pub fn prefix_iterator<'a, P: AsRef<[u8]>>(&'a self, prefix: P) -> DBIterator<'a> {
        let (items, fail) = self.forward(prefix.as_ref());
        DBIterator { items: items.into_iter(), fail }
    }
    fn forward(&self, from: &[u8]) -> (Vec<(&Vec<u8>, &Vec<u8>)>, bool) {
        let all = self.map.range(from.to_vec()..);
        match &self.fail_at {
            None => (all.collect(), false),
            Some(f) => (all.take_while(|(k, _)| *k < f).collect(), true),
        }
    }
}
pub struct DBIterator<'a> {
    items: std::vec::IntoIter<(&'a Vec<u8>, &'a Vec<u8>)>,
    fail: bool,
}
impl Iterator for DBIterator<'_> {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        match self.items.next() {
            Some((k, v)) => Some(Ok((k.clone().into(), v.clone().into()))),
            None if std::mem::take(&mut self.fail) => Some(Err(Error { message: "Corruption: block checksum mismatch".into() })),
            None => None,
        }
    }
}
