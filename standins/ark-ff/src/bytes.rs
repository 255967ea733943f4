use std::io::{Read, Result as IoResult, Write};
pub trait ToBytes {
    fn write<W: Write>(&self, writer: W) -> IoResult<()>;
}
pub trait FromBytes: Sized {
    fn read<R: Read>(reader: R) -> IoResult<Self>;
}
#[macro_export]
macro_rules! to_bytes {
    ($($x:expr),*) => ({
        let mut buf = Vec::new();
        let r: std::io::Result<()> = (|| { $( $crate::ToBytes::write(&$x, &mut buf)?; )* Ok(()) })();
        r.map(|_| buf)
    });
}
