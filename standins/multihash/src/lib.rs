//! Stand-in for multihash 0.16: the hashers.
use sha2::Digest;

pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(&mut self) -> &[u8];
    fn reset(&mut self);
}
macro_rules! hasher { ($n:ident, $f:expr) => {
    #[derive(Clone, Debug, Default)]
    pub struct $n { data: Vec<u8>, out: Vec<u8> }
    impl Hasher for $n {
        fn update(&mut self, input: &[u8]) { self.data.extend_from_slice(input) }
        fn finalize(&mut self) -> &[u8] { self.out = $f(&self.data); &self.out }
        fn reset(&mut self) { *self = Self::default() }
    }
} }
hasher!(Blake2b256, |d: &[u8]| blake2::blake2b(d, 32));
hasher!(Blake2b512, |d: &[u8]| blake2::blake2b(d, 64));
hasher!(Sha2_256, |d: &[u8]| sha2::Sha256::digest(d).to_vec());
hasher!(Sha2_512, |d: &[u8]| sha2::Sha512::digest(d).to_vec());
