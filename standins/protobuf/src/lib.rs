//! Stand-in for protobuf: proto3 messages of bool, int64 and string fields.
#[derive(Debug, PartialEq, Eq)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub enum Field<'a> {
    Varint(u64),
    Bytes(&'a [u8]),
    Other,
}
pub trait Message: Sized + Default {
    fn write_field(&self, out: &mut Vec<u8>);
    fn set_field(&mut self, n: u64, f: Field<'_>) -> Result<()>;
    fn write_to_bytes(&self) -> Result<Vec<u8>> {
        let mut v = vec![];
        self.write_field(&mut v);
        Ok(v)
    }
    fn parse_from_bytes(mut b: &[u8]) -> Result<Self> {
        let mut m = Self::default();
        while !b.is_empty() {
            let k = varint(&mut b)?;
            let f = match k & 7 {
                0 => Field::Varint(varint(&mut b)?),
                1 => take(&mut b, 8).map(|_| Field::Other)?,
                2 => {
                    let n = varint(&mut b)?;
                    Field::Bytes(take(&mut b, n as usize)?)
                }
                5 => take(&mut b, 4).map(|_| Field::Other)?,
                _ => return Err(Error("wire type".into())),
            };
            if k >> 3 == 0 {
                return Err(Error("field number".into()));
            }
            m.set_field(k >> 3, f)?;
        }
        Ok(m)
    }
}
fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8]> {
    if n > b.len() {
        return Err(Error("unexpected EOF".into()));
    }
    let (a, r) = b.split_at(n);
    *b = r;
    Ok(a)
}
fn varint(b: &mut &[u8]) -> Result<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = take(b, 1)?[0];
        v |= ((x & 127) as u64) << (7 * i);
        if x < 128 {
            return Ok(v);
        }
    }
    Err(Error("varint".into()))
}
pub fn put(out: &mut Vec<u8>, mut v: u64) {
    while v > 127 {
        out.push(v as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn text(b: &[u8]) -> Result<String> {
    String::from_utf8(b.to_vec()).map_err(|_| Error("invalid UTF-8".into()))
}
