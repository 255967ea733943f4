pub trait DomainParameter: Clone {
    fn into_bytes(self) -> Vec<u8>;
}
impl DomainParameter for () {
    fn into_bytes(self) -> Vec<u8> {
        vec![]
    }
}
impl DomainParameter for u32 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}
impl DomainParameter for u64 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}
