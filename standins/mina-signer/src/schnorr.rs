use crate::*;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger, PrimeField};
use mina_hasher::{create_kimchi, create_legacy, Hasher};
use o1_utils::FieldHelpers;
use sha2::{Digest, Sha256};

#[derive(Clone)]
struct Message<H: Hashable> {
    input: H,
    pub_key: PubKey,
    rx: BaseField,
}
impl<H: Hashable<D = NetworkId>> Hashable for Message<H> {
    type D = NetworkId;
    fn to_roinput(&self) -> ROInput {
        self.input
            .to_roinput()
            .append_field(self.pub_key.point().x)
            .append_field(self.pub_key.point().y)
            .append_field(self.rx)
    }
    fn domain_string(d: NetworkId) -> Option<String> {
        H::domain_string(d)
    }
}
pub struct Schnorr<H> {
    tag: u8,
    domain: NetworkId,
    _p: std::marker::PhantomData<H>,
}
impl<H: Hashable<D = NetworkId>> Schnorr<H> {
    pub fn new(tag: u8, domain: NetworkId) -> Self {
        Schnorr { tag, domain, _p: Default::default() }
    }
    fn challenge(&self, pub_key: &PubKey, rx: &BaseField, input: &H) -> ScalarField {
        let m = Message { input: input.clone(), pub_key: pub_key.clone(), rx: *rx };
        let f = match self.tag {
            0 => create_legacy::<Message<H>>(self.domain.clone()).hash(&m),
            _ => create_kimchi::<Message<H>>(self.domain.clone()).hash(&m),
        };
        ScalarField::from(f.into_repr())
    }
}
impl<H: Hashable<D = NetworkId>> Signer<H> for Schnorr<H> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature {
        let mut h = Sha256::new();
        h.update(input.to_roinput().to_bytes());
        h.update(kp.scalar().to_bytes());
        h.update([self.domain.clone() as u8]);
        let k = ScalarField::from_le_bytes_mod_order(&h.finalize());
        let r = CurvePoint::prime_subgroup_generator().mul(k).into_affine();
        let k = if r.y.into_repr().is_even() { k } else { -k };
        let e = self.challenge(&kp.public, &r.x, input);
        Signature::new(r.x, k + e * *kp.scalar())
    }
    fn verify(&mut self, sig: &Signature, pub_key: &PubKey, input: &H) -> bool {
        let ev = self.challenge(pub_key, &sig.rx, input);
        let sv = CurvePoint::prime_subgroup_generator().mul(sig.s);
        let rv = (sv + -pub_key.point().mul(ev)).into_affine();
        !rv.infinity && rv.y.into_repr().is_even() && rv.x == sig.rx
    }
}
