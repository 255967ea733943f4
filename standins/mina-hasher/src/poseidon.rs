use crate::*;
use ark_ff::PrimeField;
use o1_utils::FieldHelpers;
use sha2::{Digest, Sha256};
use std::marker::PhantomData;

#[derive(Clone, Copy)]
struct Sponge {
    tag: u8,
    state: [Fp; 3],
    absorbed: usize,
}
impl Sponge {
    fn new(tag: u8) -> Self {
        Sponge { tag, state: Default::default(), absorbed: 0 }
    }
    fn permute(&mut self) {
        let mut all = vec![self.tag];
        for f in &self.state {
            all.extend(f.to_bytes());
        }
        for (i, o) in self.state.iter_mut().enumerate() {
            let mut h = Sha256::new();
            h.update([i as u8]);
            h.update(&all);
            *o = Fp::from_le_bytes_mod_order(&h.finalize());
        }
    }
    fn absorb(&mut self, fs: &[Fp]) {
        for f in fs {
            if self.absorbed == 2 {
                self.permute();
                self.absorbed = 0;
            }
            self.state[self.absorbed] += *f;
            self.absorbed += 1;
        }
    }
    fn squeeze(&mut self) -> Fp {
        self.permute();
        self.absorbed = 0;
        self.state[0]
    }
}

pub struct Poseidon<H, const TAG: u8> {
    sponge: Sponge,
    init: Sponge,
    phantom: PhantomData<H>,
}
pub type PoseidonHasherLegacy<H> = Poseidon<H, 0>;
pub type PoseidonHasherKimchi<H> = Poseidon<H, 1>;

impl<H: Hashable, const TAG: u8> Poseidon<H, TAG> {
    fn new(d: H::D) -> Self {
        let mut p = Poseidon { sponge: Sponge::new(TAG), init: Sponge::new(TAG), phantom: PhantomData };
        Hasher::<H>::init(&mut p, d);
        p
    }
}
pub(crate) fn new_legacy<H: Hashable>(d: H::D) -> PoseidonHasherLegacy<H> {
    Poseidon::new(d)
}
pub(crate) fn new_kimchi<H: Hashable>(d: H::D) -> PoseidonHasherKimchi<H> {
    Poseidon::new(d)
}
impl<H: Hashable, const TAG: u8> Hasher<H> for Poseidon<H, TAG> {
    fn reset(&mut self) -> &mut dyn Hasher<H> {
        self.sponge = self.init;
        self
    }
    fn init(&mut self, d: H::D) -> &mut dyn Hasher<H> {
        self.init = Sponge::new(TAG);
        if let Some(s) = H::domain_string(d) {
            self.init.absorb(&[domain_prefix_to_field(s)]);
            self.init.squeeze();
        }
        self.sponge = self.init;
        self
    }
    fn update(&mut self, input: &H) -> &mut dyn Hasher<H> {
        self.sponge.absorb(&input.to_roinput().to_fields());
        self
    }
    fn digest(&mut self) -> Fp {
        self.sponge.squeeze()
    }
}
