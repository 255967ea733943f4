use crate::*;
use std::marker::PhantomData;
pub struct EncodeBuilder<'a, I: AsRef<[u8]>> {
    input: I,
    check: Option<Option<u8>>,
    _p: PhantomData<&'a ()>,
}
impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
    pub(crate) fn new(input: I) -> Self {
        Self { input, check: None, _p: PhantomData }
    }
    pub fn with_check(self) -> Self {
        Self { check: Some(None), ..self }
    }
    pub fn with_check_version(self, v: u8) -> Self {
        Self { check: Some(Some(v)), ..self }
    }
    pub fn into_vec(self) -> Vec<u8> {
        let mut data = vec![];
        if let Some(Some(v)) = self.check {
            data.push(v);
        }
        data.extend_from_slice(self.input.as_ref());
        if self.check.is_some() {
            let ck = sha256d(&data);
            data.extend_from_slice(&ck[..CHECKSUM_LEN]);
        }
        let mut le: Vec<u8> = vec![];
        for b in &data {
            let mut carry = *b as u32;
            for d in le.iter_mut() {
                carry += (*d as u32) << 8;
                *d = (carry % 58) as u8;
                carry /= 58;
            }
            while carry > 0 {
                le.push((carry % 58) as u8);
                carry /= 58;
            }
        }
        le.extend(data.iter().take_while(|b| **b == 0).map(|_| 0));
        le.iter().rev().map(|d| ALPHABET[*d as usize]).collect()
    }
    pub fn into_string(self) -> String {
        String::from_utf8(self.into_vec()).unwrap()
    }
}
