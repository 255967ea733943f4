//! C27: what the hash of a state, of a state body and of an account is taken over, against an
//! independent layout: field elements, then packed integers, in protocol order.
use crate::core::*;
use ark_ff::{BigInteger256, PrimeField};
use mina_crypto::hash::*;
use mina_rs_base::account::permissions::{AuthRequired, Permissions};
use mina_rs_base::account::timing::{TimedData, Timing};
use mina_rs_base::types::*;
use num_bigint::BigUint;
use proof_systems::bitvec::prelude::BitVec;
use proof_systems::mina_hasher::{create_kimchi, create_legacy, DomainParameter, Fp, Hashable, Hasher, ROInput};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::{ChunkedROInput, ToChunkedROInput};
use sha2::{Digest, Sha256};

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C27", name: "packing", quick: 400_000, thorough: 12_000_000, f: packing, rule: "sequences of appends to a chunked input; non-trivial: at least two packed items" },
        Facet { prop: "C27", name: "state", quick: 25_000, thorough: 1_200_000, f: state, rule: "a current-generation protocol state, and a copy differing in one leaf; every case non-trivial" },
        Facet { prop: "C27", name: "legacy", quick: 25_000, thorough: 1_200_000, f: legacy, rule: "a legacy protocol state, and a copy differing in one leaf; every case non-trivial" },
        Facet { prop: "C27", name: "account", quick: 100_000, thorough: 4_000_000, f: account, rule: "an account, and a copy differing in one leaf; every case non-trivial" },
    ]
}

// ---------------------------------------------------------------- model

pub fn big_fp(f: &Fp) -> BigUint {
    let b: BigInteger256 = f.into_repr();
    b.0.iter().rev().fold(BigUint::from(0u8), |a, x| (a << 64u32) + BigUint::from(*x))
}
pub fn fp_big(b: &BigUint) -> Fp {
    let d = b.to_u64_digits();
    let mut l = [0u64; 4];
    l[..d.len()].copy_from_slice(&d);
    Fp::from_repr(BigInteger256(l)).expect("below the modulus")
}
pub fn fp_bytes(b: &[u8; 32]) -> Fp {
    fp_big(&BigUint::from_bytes_le(b))
}

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Inp {
    pub fields: Vec<Fp>,
    pub packed: Vec<(BigUint, u32)>,
}
impl Inp {
    pub fn f(&mut self, f: Fp) -> &mut Self {
        self.fields.push(f);
        self
    }
    pub fn h(&mut self, b: &[u8; 32]) -> &mut Self {
        self.f(fp_bytes(b))
    }
    pub fn n(&mut self, v: u64, bits: u32) -> &mut Self {
        self.packed.push((BigUint::from(v), bits));
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.n(v as u64, 32)
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.n(v, 64)
    }
    pub fn b(&mut self, v: bool) -> &mut Self {
        self.n(v as u64, 1)
    }
    /// bytes, least significant bit first
    pub fn bytes(&mut self, v: &[u8]) -> &mut Self {
        for x in v {
            for i in 0..8 {
                self.b(x >> i & 1 == 1);
            }
        }
        self
    }
    pub fn pk(&mut self, k: &CompressedPubKey) -> &mut Self {
        self.f(k.x);
        self.b(k.is_odd)
    }
    /// chunked: whole items are packed, first item in the most significant place, into elements
    /// of at most 254 bits
    pub fn chunked(&self) -> Vec<Fp> {
        let mut out = self.fields.clone();
        let mut group: Vec<&(BigUint, u32)> = vec![];
        let close = |g: &[&(BigUint, u32)]| {
            let mut v = BigUint::from(0u8);
            let mut shift = 0;
            for (x, n) in g.iter().rev() {
                v += x << shift;
                shift += n;
            }
            fp_big(&v)
        };
        let mut used = 0;
        for p in &self.packed {
            if used + p.1 > 254 {
                out.push(close(&group));
                group.clear();
                used = 0;
            }
            used += p.1;
            group.push(p);
        }
        if !group.is_empty() {
            out.push(close(&group));
        }
        out
    }
    /// legacy: all items as bits, least significant first, in runs of 254
    pub fn legacy(&self) -> Vec<Fp> {
        let mut out = self.fields.clone();
        let bits: Vec<bool> = self.packed.iter().flat_map(|(v, n)| (0..*n as u64).map(move |i| v.bit(i))).collect();
        for c in bits.chunks(254) {
            let mut v = BigUint::from(0u8);
            for (i, b) in c.iter().enumerate() {
                v.set_bit(i as u64, *b);
            }
            out.push(fp_big(&v));
        }
        out
    }
}

/// field elements hashed under a given domain string
#[derive(Clone)]
struct Raw(Vec<Fp>);
#[derive(Clone)]
struct Dom(&'static str);
impl DomainParameter for Dom {
    fn into_bytes(self) -> Vec<u8> {
        self.0.as_bytes().to_vec()
    }
}
impl Hashable for Raw {
    type D = Dom;
    fn to_roinput(&self) -> ROInput {
        self.0.iter().fold(ROInput::new(), |r, f| r.append_field(*f))
    }
    fn domain_string(d: Dom) -> Option<String> {
        Some(d.0.to_string())
    }
}
fn kimchi(dom: &'static str, v: &[Fp]) -> Fp {
    create_kimchi::<Raw>(Dom(dom)).hash(&Raw(v.to_vec()))
}
fn legacy_hash(dom: &'static str, v: &[Fp]) -> Fp {
    create_legacy::<Raw>(Dom(dom)).hash(&Raw(v.to_vec()))
}

// ---------------------------------------------------------------- leaves

/// A value is a function of its leaves; one leaf can be replaced.
#[derive(Clone)]
pub struct Leaves {
    pub v: Vec<[u64; 4]>,
    pub at: usize,
}
impl Leaves {
    pub fn gen(s: &mut Src, n: usize) -> Self {
        let v = (0..n)
            .map(|_| match s.below(6) {
                0 => [s.below(3), 0, 0, 0],
                1 => [u64::MAX; 4],
                2 => {
                    let x = s.byte() as u64 * 0x0101_0101_0101_0101;
                    [x, x, x, x]
                }
                3 => {
                    let mut x = [0u64; 4];
                    x[s.usz(4)] = 1 << s.below(64);
                    x
                }
                _ => [s.wide() as u64, s.wide() as u64, s.wide() as u64, s.wide() as u64],
            })
            .collect();
        Leaves { v, at: 0 }
    }
    pub fn next(&mut self) -> [u64; 4] {
        let x = self.v.get(self.at).copied().unwrap_or([0; 4]);
        self.at += 1;
        x
    }
    pub fn u32(&mut self) -> u32 {
        self.next()[0] as u32
    }
    pub fn u64(&mut self) -> u64 {
        self.next()[0]
    }
    pub fn b(&mut self) -> bool {
        self.next()[0] & 1 == 1
    }
    /// a canonical field element: below 2^254, or one of the largest
    pub fn h(&mut self) -> [u8; 32] {
        let x = self.next();
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&x[i].to_le_bytes());
        }
        if x[3] >> 60 == 9 {
            // the modulus is 2^254 + 45560315531419706090280762371685220353
            o[16..].fill(0);
            o[31] = 0x40;
            o[15] &= 0x1f;
        } else {
            o[31] &= 0x3f;
        }
        o
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let mut o = vec![];
        for x in self.next() {
            o.extend(x.to_le_bytes());
        }
        o
    }
    pub fn len(&mut self, max: u64) -> usize {
        (self.next()[0] % (max + 1)) as usize
    }
    pub fn pk(&mut self) -> CompressedPubKey {
        let x = fp_bytes(&self.h());
        CompressedPubKey { x, is_odd: self.b() }
    }
    pub fn ledger(&mut self) -> LedgerHash {
        (&fp_bytes(&self.h())).into()
    }
    pub fn mutate(&self, s: &mut Src, used: usize) -> Self {
        let mut o = self.clone();
        let i = s.usz(used.max(1));
        if i < o.v.len() {
            match s.below(3) {
                0 => o.v[i][s.usz(4)] ^= 1 << s.below(64),
                1 => o.v[i][0] ^= 1 << s.below(33).min(32),
                _ => o.v[i] = [s.wide() as u64, s.wide() as u64, s.wide() as u64, s.wide() as u64],
            }
        }
        o.at = 0;
        o
    }
}

pub fn hash_v1<T: From<mina_serialization_types::v1::HashV1>>(b: [u8; 32]) -> T {
    let h: mina_serialization_types::v1::HashV1 = b.into();
    h.into()
}

// ---------------------------------------------------------------- generated values and layouts

fn consts(l: &mut Leaves, m: &mut Inp) -> ProtocolConstants {
    let (k, spe, sub, delta, ts) = (l.u32(), l.u32(), l.u32(), l.u32(), l.u64());
    m.u32(k).u32(delta).u32(spe).u32(sub).u64(ts);
    ProtocolConstants { k: Length(k), slots_per_epoch: Length(spe), slots_per_sub_window: Length(sub), delta: Length(delta), genesis_state_timestamp: BlockTime(ts) }
}
fn epoch(l: &mut Leaves, m: &mut Inp) -> EpochData {
    let (lh, cur, seed, start, lock, len) = (l.h(), l.u64(), l.h(), l.h(), l.h(), l.u32());
    m.h(&seed).h(&start).u32(len).h(&lh).u64(cur).h(&lock);
    EpochData { ledger: EpochLedger { hash: (&fp_bytes(&lh)).into(), total_currency: Amount(cur) }, seed: hash_v1(seed), start_checkpoint: start.into(), lock_checkpoint: lock.into(), epoch_length: Length(len) }
}
fn consensus(l: &mut Leaves, m: &mut Inp) -> ConsensusState {
    let (len, ep, min) = (l.u32(), l.u32(), l.u32());
    m.u32(len).u32(ep).u32(min);
    let n = l.len(12);
    let dens: Vec<Length> = (0..n).map(|_| Length(l.u32())).collect();
    for d in &dens {
        m.u32(d.0);
    }
    let mut vrf = l.bytes();
    let short = l.len(60);
    if short < 31 {
        vrf.truncate(short);
        m.bytes(&vrf);
    } else {
        // a 253-bit output
        vrf[31] &= 0x1f;
        m.bytes(&vrf[..31]);
        for i in 0..5 {
            m.b(vrf[31] >> i & 1 == 1);
        }
    }
    let (cur, slot, spe, since, anc, sup) = (l.u64(), l.u32(), l.u32(), l.u32(), l.b(), l.b());
    m.u64(cur).u32(slot).u32(spe).u32(since).b(anc).b(sup);
    let staking = epoch(l, m);
    let next = epoch(l, m);
    let (a, b, c) = (l.pk(), l.pk(), l.pk());
    m.pk(&a).pk(&b).pk(&c);
    ConsensusState {
        blockchain_length: Length(len),
        epoch_count: Length(ep),
        min_window_density: Length(min),
        sub_window_densities: dens,
        last_vrf_output: VrfOutputTruncated(vrf),
        total_currency: Amount(cur),
        curr_global_slot: GlobalSlot { slot_number: GlobalSlotNumber(slot), slots_per_epoch: Length(spe) },
        global_slot_since_genesis: GlobalSlotNumber(since),
        staking_epoch_data: staking,
        next_epoch_data: next,
        has_ancestor_in_same_checkpoint_window: anc,
        block_stake_winner: a,
        block_creator: b,
        coinbase_receiver: c,
        supercharge_coinbase: sup,
    }
}
fn staged(l: &mut Leaves, m: &mut Inp) -> StagedLedgerHash {
    let (ledger, aux, pca, pch) = (l.h(), l.bytes(), l.bytes(), l.h());
    let mut d = Sha256::new();
    d.update(ledger.iter().rev().copied().collect::<Vec<u8>>());
    d.update(&aux);
    d.update(&pca);
    m.bytes(&d.finalize()).h(&pch);
    StagedLedgerHash { non_snark: NonSnarkStagedLedgerHash { ledger_hash: (&fp_bytes(&ledger)).into(), aux_hash: AuxHash(aux), pending_coinbase_aux: PendingCoinbaseAuxHash(pca) }, pending_coinbase_hash: hash_v1(pch) }
}
fn blockchain(l: &mut Leaves, m: &mut Inp) -> BlockchainState {
    let sl = staged(l, m);
    let (gen, reg) = (l.h(), l.h());
    m.h(&gen).h(&reg);
    let (sf, cs, tc, ftc, tok, ex, exs, led, suc, idx) = (l.h(), l.h(), l.h(), l.h(), l.u64(), l.u64(), l.b(), l.h(), l.b(), l.u32());
    m.h(&sf).h(&cs).h(&tc).h(&ftc).f(tok.into()).u64(ex).b(exs).h(&led).u32(idx).b(suc);
    let (ts, body) = (l.u64(), l.bytes());
    m.u64(ts).bytes(&body);
    BlockchainState {
        staged_ledger_hash: sl,
        genesis_ledger_hash: (&fp_bytes(&gen)).into(),
        registers: BlockchainStateRegisters {
            ledger: (&fp_bytes(&reg)).into(),
            pending_coinbase_stack: (),
            local_state: BlockchainStateRegistersLocalState {
                stack_frame: (&fp_bytes(&sf)).into(),
                call_stack: cs.into(),
                transaction_commitment: tc.into(),
                full_transaction_commitment: ftc.into(),
                token_id: TokenId(tok),
                excess: SignedAmount(ex, exs),
                ledger: (&fp_bytes(&led)).into(),
                success: suc,
                party_index: MinaIndex(idx),
                failure_status_tbl: vec![],
            },
        },
        timestamp: BlockTime(ts),
        body_reference: BodyReference(body.try_into().unwrap()),
    }
}
fn blockchain_legacy(l: &mut Leaves, m: &mut Inp) -> BlockchainStateLegacy {
    let sl = staged(l, m);
    let (sn, gen, tok, ts) = (l.h(), l.h(), l.u64(), l.u64());
    m.h(&sn).h(&gen).u64(tok).u64(ts);
    BlockchainStateLegacy { staged_ledger_hash: sl, snarked_ledger_hash: (&fp_bytes(&sn)).into(), genesis_ledger_hash: (&fp_bytes(&gen)).into(), snarked_next_available_token: TokenId(tok), timestamp: BlockTime(ts) }
}

fn mk_state(l: &mut Leaves) -> (ProtocolState, Inp, Fp) {
    let mut m = Inp::default();
    let constants = consts(l, &mut m);
    let (gen, prev) = (l.h(), l.h());
    m.h(&gen);
    let blockchain_state = blockchain(l, &mut m);
    let consensus_state = consensus(l, &mut m);
    let p = ProtocolState { previous_state_hash: prev.into(), body: ProtocolStateBody { genesis_state_hash: gen.into(), blockchain_state, consensus_state, constants } };
    let body = kimchi("CodaProtoStateBody", &m.chunked());
    let h = kimchi("CodaProtoState", &[fp_bytes(&prev), body]);
    (p, m, h)
}
fn mk_legacy(l: &mut Leaves) -> (ProtocolStateLegacy, Inp, Fp) {
    let mut m = Inp::default();
    let constants = consts(l, &mut m);
    let (gen, prev) = (l.h(), l.h());
    m.h(&gen);
    let blockchain_state = blockchain_legacy(l, &mut m);
    let consensus_state = consensus(l, &mut m);
    let p = ProtocolStateLegacy { previous_state_hash: prev.into(), body: ProtocolStateBodyLegacy { genesis_state_hash: gen.into(), blockchain_state, consensus_state, constants } };
    let body = legacy_hash("CodaProtoStateBody", &m.legacy());
    let h = legacy_hash("CodaProtoState", &[fp_bytes(&prev), body]);
    (p, m, h)
}

fn show(v: &[Fp]) -> String {
    v.iter().map(|f| format!("{:x}", big_fp(f))).collect::<Vec<_>>().join(" ")
}
pub fn first_diff(a: &[Fp], b: &[Fp]) -> String {
    if a.len() != b.len() {
        return format!("{} elements instead of {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("element {i} is {:x} instead of {:x}", big_fp(&a[i]), big_fp(&b[i])),
        None => "equal".into(),
    }
}

fn state(s: &mut Src, ctx: &mut Ctx) -> Res {
    let leaves = Leaves::gen(s, 75);
    let mut l = leaves.clone();
    let (p, m, want) = mk_state(&mut l);
    ctx.case(hash_of(&leaves.v), true);
    let got = guard(|| p.body.to_chunked_roinput()).map_err(|e| Fail(format!("the input of a state body cannot be taken: {}", e.0)))?;
    let f = got.into_fields();
    ensure!(f == m.chunked(), "the hash input of a state body differs from its layout: {} for {:?}", first_diff(&f, &m.chunked()), p.body);
    let h = guard(|| p.state_hash_fp())?;
    ensure!(h == want, "the state hash is {:x} instead of {:x} (previous hash {:?}, body input {})", big_fp(&h), big_fp(&want), p.previous_state_hash, show(&m.chunked()));
    let sh: [u8; 32] = p.state_hash().into();
    ensure!(fp_bytes(&sh) == want, "the state hash in bytes is {} instead of {:x}", hex(&sh), big_fp(&want));
    ensure!(ProtocolStateHeader::state_hash_fp(&p) == want, "the header's state hash differs");
    let mut l2 = leaves.mutate(s, l.at);
    let (q, _, want2) = mk_state(&mut l2);
    if q != p {
        ctx.label("one leaf changed");
        // densities and a short VRF output have no length of their own in the input
        ensure!(want2 == want || q.state_hash_fp() != h, "two states that differ hash alike: {p:?} and {q:?}");
    }
    ctx.sample(|| format!("{} field elements, {} packed items -> {:x}", m.fields.len(), m.packed.len(), big_fp(&want)));
    Ok(())
}

fn legacy(s: &mut Src, ctx: &mut Ctx) -> Res {
    let leaves = Leaves::gen(s, 65);
    let mut l = leaves.clone();
    let (p, m, want) = mk_legacy(&mut l);
    ctx.case(hash_of(&leaves.v), true);
    let f = guard(|| p.body.to_roinput()).map_err(|e| Fail(format!("the input of a legacy state body cannot be taken: {}", e.0)))?.to_fields();
    ensure!(f == m.legacy(), "the hash input of a legacy state body differs from its layout: {} for {:?}", first_diff(&f, &m.legacy()), p.body);
    let h = guard(|| p.state_hash_fp())?;
    ensure!(h == want, "the legacy state hash is {:x} instead of {:x} (previous hash {:?})", big_fp(&h), big_fp(&want), p.previous_state_hash);
    let sh: [u8; 32] = p.state_hash().into();
    ensure!(fp_bytes(&sh) == want, "the legacy state hash in bytes is {} instead of {:x}", hex(&sh), big_fp(&want));
    let mut l2 = leaves.mutate(s, l.at);
    let (q, _, want2) = mk_legacy(&mut l2);
    if q != p {
        ctx.label("one leaf changed");
        // densities and a short VRF output have no length of their own in the input
        if want2 != want {
            ensure!(q.state_hash_fp() != h, "two legacy states that differ hash alike: {p:?} and {q:?}");
        }
    }
    ctx.sample(|| format!("{} field elements, {} packed items -> {:x}", m.fields.len(), m.packed.len(), big_fp(&want)));
    Ok(())
}

fn auth(l: &mut Leaves, m: &mut Inp) -> AuthRequired {
    // constant, signature necessary, signature sufficient
    let (a, bits) = match l.len(5) {
        0 => (AuthRequired::None, [true, false, true]),
        1 => (AuthRequired::Either, [false, false, true]),
        2 => (AuthRequired::Proof, [false, false, false]),
        3 => (AuthRequired::Signature, [false, true, true]),
        4 => (AuthRequired::Both, [false, true, false]),
        _ => (AuthRequired::Impossible, [true, true, false]),
    };
    for b in bits {
        m.b(b);
    }
    a
}
fn mk_account(l: &mut Leaves) -> (Account, Inp) {
    let mut m = Inp::default();
    let one = Inp { packed: vec![(1u8.into(), 1)], ..Default::default() };
    m.f(kimchi("MinaZkappUri", &one.chunked()));
    let dflt = "12935064460869035604753254773225484359407575580289870070671311469994328713165".parse::<BigUint>().unwrap();
    let dfl2 = "15836741414052211301983886193856353162526040956490609761139212467629447291325".parse::<BigUint>().unwrap();
    let mut z = Inp::default();
    for _ in 0..5 {
        z.f(fp_big(&dflt));
    }
    z.f(fp_big(&dfl2));
    for _ in 0..8 {
        z.f(Fp::from(0u64));
    }
    z.n(0, 1).n(0, 32).n(0, 32);
    m.f(kimchi("CodaZkappAccount", &z.chunked()));
    let permissions = Permissions {
        edit_state: auth(l, &mut m),
        send: auth(l, &mut m),
        receive: auth(l, &mut m),
        set_delegate: auth(l, &mut m),
        set_permissions: auth(l, &mut m),
        set_verification_key: auth(l, &mut m),
        set_zkapp_uri: auth(l, &mut m),
        edit_sequence_state: auth(l, &mut m),
        set_token_symbol: auth(l, &mut m),
        increment_nonce: auth(l, &mut m),
        set_voting_for: auth(l, &mut m),
    };
    let timed = l.b();
    let (imb, ct, ca, vp, vi) = (l.u64(), l.u32(), l.u64(), l.u32(), l.u64());
    let timing = if timed {
        m.b(true).u64(imb).u32(ct).u64(ca).u32(vp).u64(vi);
        Timing::Timed(TimedData { initial_minimum_balance: Amount(imb), cliff_time: BlockTime(ct as u64), cliff_amount: Amount(ca), vesting_period: BlockTime(vp as u64), vesting_increment: Amount(vi) })
    } else {
        m.b(false).u64(0).u32(0).u64(0).u32(1).u64(0);
        Timing::Untimed
    };
    let voting = l.h();
    m.h(&voting);
    let has_delegate = l.b();
    let d = l.pk();
    let delegate = if has_delegate {
        m.pk(&d);
        Some(d)
    } else {
        m.f(Fp::from(0u64)).b(false);
        None
    };
    let (rch, nonce, bal) = (l.h(), l.u32(), l.u64());
    m.h(&rch).u32(nonce).u64(bal);
    let mut sym = [0u8; 32];
    sym[..6].copy_from_slice(&l.bytes()[..6]);
    m.n(sym[..6].iter().rev().fold(0u64, |a, b| a << 8 | *b as u64), 48);
    let (owned, flag) = (l.b(), l.b());
    m.n(owned as u64 | (flag as u64) << 1, 2);
    let token_permissions = if owned { TokenPermissions::TokenOwned { disable_new_accounts: flag } } else { TokenPermissions::NotOwned { account_disabled: flag } };
    let tok = l.u64();
    m.f(tok.into());
    let pk = l.pk();
    m.pk(&pk);
    let zk = l.len(3);
    let a = Account {
        public_key: pk,
        token_id: TokenId(tok),
        balance: Amount(bal),
        token_permissions,
        token_symbol: sym.into(),
        nonce: AccountNonce(nonce),
        receipt_chain_hash: rch.into(),
        delegate,
        voting_for: voting.into(),
        timing,
        permissions,
        zkapp: (zk & 1 == 1).then(Default::default),
        zkapp_uri: (zk & 2 == 2).then(Default::default),
    };
    (a, m)
}

fn account(s: &mut Src, ctx: &mut Ctx) -> Res {
    let leaves = Leaves::gen(s, 32);
    let mut l = leaves.clone();
    let (a, m) = mk_account(&mut l);
    ctx.case(hash_of(&leaves.v), true);
    let f = guard(|| a.to_chunked_roinput().into_fields()).map_err(|e| Fail(format!("the input of an account cannot be taken: {}", e.0)))?;
    ensure!(f == m.chunked(), "the hash input of an account differs from its layout: {} for {:?}", first_diff(&f, &m.chunked()), a);
    let want = kimchi("CodaAccount", &m.chunked());
    let h = create_kimchi::<Account>(()).hash(&a);
    ensure!(h == want, "the account hash is {:x} instead of {:x}", big_fp(&h), big_fp(&want));
    let mut l2 = leaves.mutate(s, l.at);
    let (b, m2) = mk_account(&mut l2);
    if m2 != m {
        ctx.label("one leaf changed");
        ensure!(create_kimchi::<Account>(()).hash(&b) != h, "two accounts that differ hash alike: {a:?} and {b:?}");
    }
    ctx.sample(|| format!("{:?}", a.permissions));
    Ok(())
}

fn packing(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut real = ChunkedROInput::new();
    let mut m = Inp::default();
    let mut trace = String::new();
    let n = s.range(0, 24);
    for _ in 0..n {
        match s.below(7) {
            0 => {
                let f = fp_bytes(&Leaves::gen(s, 1).h());
                real = real.append_field(f);
                m.f(f);
                trace += "F";
            }
            1 => {
                let bits = if s.chance(1, 3) { *s.pick(&[1u32, 2, 31, 32, 48, 127, 128, 190, 191, 222, 253, 254]) } else { s.range(1, 254) as u32 };
                let mut v = BigUint::from_bytes_le(&s.bytes(32));
                if s.chance(1, 4) {
                    v = (BigUint::from(1u8) << bits) - 1u8;
                }
                v &= (BigUint::from(1u8) << bits) - 1u8;
                real = real.append_packed(fp_big(&v), bits);
                m.packed.push((v, bits));
                trace += &format!("P{bits} ");
            }
            2 => {
                let b = { let k = s.below(9) as usize; s.bytes(k) };
                real = real.append_bytes(&b);
                m.bytes(&b);
                trace += &format!("B{} ", b.len());
            }
            3 => {
                let b = s.bool();
                real = real.append_bool(b);
                m.b(b);
                trace += "b";
            }
            4 => {
                let x = s.wide() as u32;
                real = real.append_u32(x);
                m.u32(x);
                trace += "w";
            }
            5 => {
                let x = s.wide() as u64;
                real = real.append_u64(x);
                m.u64(x);
                trace += "q";
            }
            _ => {
                // append another input
                let x = s.wide() as u32;
                let f = fp_bytes(&Leaves::gen(s, 1).h());
                real = real.append(ChunkedROInput::new().append_u32(x).append_field(f));
                m.u32(x).f(f);
                trace += "A";
            }
        }
    }
    ctx.case(hash_of(&(&trace, real.packed.len())), m.packed.len() >= 2);
    let clone = real.clone();
    let got = guard(move || clone.into_fields()).map_err(|e| Fail(format!("{trace}: {}", e.0)))?;
    let want = m.chunked();
    ensure!(got == want, "{trace}: {} ({:?})", first_diff(&got, &want), m);
    let roi: ROInput = real.into();
    ensure!(roi.to_fields() == want, "{trace}: the random oracle input has other elements");
    // bits to an element
    let k = s.below(260) as usize;
    let mut bits: BitVec<u8> = BitVec::new();
    let mut v = BigUint::from(0u8);
    let ones = s.chance(1, 4);
    for i in 0..k {
        let b = ones || s.bool();
        bits.push(b);
        v.set_bit(i as u64, b);
    }
    let p: BigUint = (BigUint::from(1u8) << 254u32) + "45560315531419706090280762371685220353".parse::<BigUint>().unwrap();
    let r = guard(|| ChunkedROInput::bits_to_fp(bits.clone()))?;
    if v >= p || k > 255 {
        ensure!(r.is_err(), "{k} bits of value {v:x} become a field element");
        ctx.label("bits refused");
    } else {
        let r = r.map_err(|e| Fail(format!("{k} bits of value {v:x} are refused: {e}")))?;
        ensure!(big_fp(&r) == v, "{k} bits of value {v:x} become {:x}", big_fp(&r));
    }
    ctx.sample(|| format!("{trace} -> {} elements", want.len()));
    Ok(())
}
