use crate::Hashable;
use ark_ff::{FpParameters, PrimeField};
use bitvec::{prelude::*, view::AsBits};
use mina_curves::pasta::{Fp, Fq};
use o1_utils::FieldHelpers;

/// Random oracle input: field elements, and bits packed into field elements after them.
#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct ROInput {
    fields: Vec<Fp>,
    bits: BitVec<u8>,
}

impl ROInput {
    pub fn new() -> Self {
        ROInput { fields: vec![], bits: BitVec::new() }
    }
    pub fn append_roinput(mut self, mut roi: ROInput) -> Self {
        self.fields.append(&mut roi.fields);
        self.bits.extend(roi.bits);
        self
    }
    pub fn append_hashable(self, input: &impl Hashable) -> Self {
        self.append_roinput(input.to_roinput())
    }
    pub fn append_field(mut self, f: Fp) -> Self {
        self.fields.push(f);
        self
    }
    pub fn append_scalar(mut self, s: Fq) -> Self {
        let bytes = s.to_bytes();
        let bits = &bytes.view_bits::<Lsb0>()[..Fq::size_in_bits()];
        self.bits.extend(bits);
        self
    }
    pub fn append_bool(mut self, b: bool) -> Self {
        self.bits.push(b);
        self
    }
    pub fn append_bytes(mut self, bytes: &[u8]) -> Self {
        self.bits.extend_from_bitslice(bytes.as_bits::<Lsb0>());
        self
    }
    pub fn append_u32(self, x: u32) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn append_u64(self, x: u64) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut bits: BitVec<u8> = self.fields.iter().fold(BitVec::new(), |mut acc, x| {
            acc.extend_from_bitslice(&x.to_bytes().as_slice().as_bits::<Lsb0>()[..Fp::size_in_bits()]);
            acc
        });
        bits.extend(&self.bits);
        bits.into()
    }
    pub fn to_fields(&self) -> Vec<Fp> {
        let mut fields: Vec<Fp> = self.fields.clone();
        const MAX_BITS: usize = <mina_curves::pasta::FpParams as FpParameters>::MODULUS_BITS as usize - 1;
        fields.extend(self.bits.chunks(MAX_BITS).map(|chunk| {
            // a copy of an unaligned slice keeps its offset: bit by bit
            let mut b: BitVec<u8> = BitVec::new();
            for x in chunk.iter().by_vals() {
                b.push(x);
            }
            b.resize(256, false);
            Fp::from_bytes(&b.into_vec()).expect("failed to create base field element")
        }));
        fields
    }
}
