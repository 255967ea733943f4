//! C23: fork choice against a reference written from the Samasika specification as the crate
//! states it (docs of consensus/src/common.rs), over generated chains and candidate lists.
use crate::core::*;
use ark_ff::{BigInteger256, PrimeField};
use mina_consensus::common::{ChainSelection, ConsensusConstants, ProtocolStateChain};
use mina_consensus::error::ConsensusError;
use mina_rs_base::consensus_state::{ConsensusState, VrfOutputTruncated};
use mina_rs_base::global_slot::GlobalSlot;
use mina_rs_base::protocol_state::{ProtocolState, ProtocolStateHeader, ProtocolStateLegacy};
use mina_rs_base::types::{BlockTime, Length, ProtocolConstants};
use proof_systems::mina_hasher::Fp;
use std::cmp::Ordering;
use std::sync::OnceLock;

const K: u32 = 290;
const SPE: u32 = 7140; // slots per epoch
const PER_SUB: u32 = 7; // slots per sub window
const SUBS: u32 = 11; // sub windows per window
const GRACE: u32 = 1440;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C23", name: "choice", quick: 1_500_000, thorough: 60_000_000, f: choice, rule: "a tip and 0-4 candidate chains of a test header with chosen fields; non-trivial: at least one candidate with a block" },
        Facet { prop: "C23", name: "density", quick: 700_000, thorough: 30_000_000, f: density, rule: "two chains with generated windows; relative minimum window density, short range test, both ways round; non-trivial: a slot past the grace period" },
        Facet { prop: "C23", name: "real", quick: 12_000, thorough: 400_000, f: real, rule: "fork choice on real protocol states (both generations), their computed state hashes break ties; non-trivial: at least one candidate with a block" },
        Facet { prop: "C23", name: "push", quick: 300_000, thorough: 10_000_000, f: push, rule: "histories of pushes and accessor calls against a list of heights; non-trivial: a push onto a non-empty chain" },
    ]
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Hdr {
    cs: ConsensusState,
    consts: ProtocolConstants,
    hash: Fp,
}
impl ProtocolStateHeader for Hdr {
    fn get_height(&self) -> Length {
        self.cs.blockchain_length
    }
    fn min_window_density(&self) -> Length {
        self.cs.min_window_density
    }
    fn sub_window_densities(&self) -> &Vec<Length> {
        &self.cs.sub_window_densities
    }
    fn consensus_state(&self) -> &ConsensusState {
        &self.cs
    }
    fn constants(&self) -> &ProtocolConstants {
        &self.consts
    }
    fn state_hash_fp(&self) -> Fp {
        self.hash
    }
}

/// the fields the rule may look at
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub(crate) struct Row {
    pub(crate) len: u32,
    pub(crate) epoch: u32,
    pub(crate) min: u32,
    pub(crate) win: Vec<u32>,
    pub(crate) vrf: Vec<u8>,
    pub(crate) slot: u32,
    pub(crate) spe: u32,
    pub(crate) stake_lock: u8,
    pub(crate) next_lock: u8,
    pub(crate) hash: [u64; 4],
    /// fields the rule must not look at
    pub(crate) noise: [u32; 4],
}

fn lock(n: u8) -> [u8; 32] {
    let mut b = [0u8; 32];
    // the pool has pairs that agree in all but one byte
    match n {
        0 => {}
        1 => b[0] = 1,
        2 => b[31] = 1,
        _ => {
            b = [7; 32];
            b[16] = n;
        }
    }
    b
}

fn base_state() -> &'static ConsensusState {
    static S: OnceLock<ConsensusState> = OnceLock::new();
    S.get_or_init(ConsensusState::default)
}

pub(crate) fn state(r: &Row) -> ConsensusState {
    let mut c = base_state().clone();
    c.blockchain_length = Length(r.len);
    c.epoch_count = Length(r.epoch);
    c.min_window_density = Length(r.min);
    c.sub_window_densities = r.win.iter().map(|x| Length(*x)).collect();
    c.last_vrf_output = VrfOutputTruncated(r.vrf.clone());
    c.curr_global_slot = GlobalSlot { slot_number: r.slot.into(), slots_per_epoch: Length(r.spe) };
    c.global_slot_since_genesis = r.noise[0].into();
    c.staking_epoch_data.lock_checkpoint = lock(r.stake_lock).into();
    c.next_epoch_data.lock_checkpoint = lock(r.next_lock).into();
    c.staking_epoch_data.epoch_length = Length(r.noise[1]);
    c.next_epoch_data.epoch_length = Length(r.noise[2]);
    c.staking_epoch_data.start_checkpoint = lock(r.noise[3] as u8 & 3).into();
    c.next_epoch_data.start_checkpoint = lock((r.noise[3] >> 2) as u8 & 3).into();
    c.supercharge_coinbase = r.noise[3] & 16 != 0;
    c.has_ancestor_in_same_checkpoint_window = r.noise[3] & 32 != 0;
    c
}

fn fp(h: &[u64; 4]) -> Fp {
    Fp::from_repr(BigInteger256(*h)).unwrap()
}

fn slot(s: &mut Src, near: Option<u32>) -> u32 {
    if let Some(n) = near {
        if s.chance(3, 5) {
            let d = match s.below(4) {
                0 => s.below(4) as i64,
                1 => s.below(30) as i64,
                2 => (s.below(4) * 7 + s.below(3)) as i64,
                _ => s.below(300) as i64,
            };
            let d = if s.bool() { -d } else { d };
            return (n as i64 + d).clamp(0, u32::MAX as i64) as u32;
        }
    }
    let base: i64 = match s.below(9) {
        0 => 0,
        1 => GRACE as i64,
        2 => (SPE as u64 * s.below(5)) as i64,
        3 => (SPE as u64 * s.below(3) + 4760) as i64,
        4 => s.below(40_000) as i64,
        5 => u32::MAX as i64,
        6 => 121 * s.below(40) as i64,
        7 => s.int(0, u32::MAX as i128) as i64,
        _ => GRACE as i64 + s.below(400) as i64,
    };
    let d = s.below(9) as i64 - 4;
    (base + d).clamp(0, u32::MAX as i64) as u32
}

pub(crate) fn row(s: &mut Src, near: Option<&Row>) -> Row {
    if let Some(n) = near {
        // often a copy that differs in a few fields: ties are where the rule is subtle
        if s.chance(1, 2) {
            let mut r = n.clone();
            let f = row(s, None);
            for _ in 0..s.range(0, 3) {
                match s.below(12) {
                    0 => r.len = r.len.saturating_add(s.below(3) as u32),
                    1 => r.len = r.len.saturating_sub(s.below(3) as u32),
                    2 => r.epoch = f.epoch,
                    3 => r.min = f.min,
                    4 => r.win = f.win.clone(),
                    5 => r.vrf = f.vrf.clone(),
                    6 => r.slot = slot(s, Some(n.slot)),
                    7 => r.stake_lock = f.stake_lock,
                    8 => r.next_lock = f.next_lock,
                    9 => r.hash = f.hash,
                    10 => {
                        if !r.win.is_empty() {
                            let i = s.usz(r.win.len());
                            r.win[i] = s.below(9) as u32;
                        }
                    }
                    _ => r.noise = f.noise,
                }
            }
            return r;
        }
    }
    let epoch = match s.below(8) {
        0 => u32::MAX,
        1 => u32::MAX - 1,
        2 => s.int(0, u32::MAX as i128) as u32,
        _ => s.below(4) as u32,
    };
    let n = if s.chance(1, 10) { s.range(0, 14) as usize } else { SUBS as usize };
    let style = s.below(5);
    let win = (0..n)
        .map(|_| match style {
            0 => 7,
            1 => s.below(8) as u32,
            2 => s.below(3) as u32,
            3 => s.below(8) as u32 + if s.chance(1, 30) { 1 } else { 0 },
            _ => match s.below(40) {
                0 => u32::MAX,
                1 => 8,
                2 => s.int(0, u32::MAX as i128) as u32,
                _ => s.below(8) as u32,
            },
        })
        .collect();
    let mut hash = [0u64; 4];
    for i in 0..4 {
        hash[i] = match s.below(3) {
            0 => 0,
            1 => s.below(3),
            _ => s.u64(),
        };
    }
    hash[3] >>= 2;
    Row {
        len: match s.below(6) {
            0 => s.int(0, u32::MAX as i128) as u32,
            1 => s.below(1000) as u32,
            _ => s.below(4) as u32,
        },
        epoch,
        min: match s.below(6) {
            0 => s.int(0, u32::MAX as i128) as u32,
            1 => 77,
            _ => s.below(80) as u32,
        },
        win,
        vrf: match s.below(5) {
            0 => vec![],
            1 | 2 => vec![s.below(4) as u8],
            3 => vec![0; s.usz(40)],
            _ => s.bytes(32),
        },
        slot: slot(s, near.map(|n| n.slot)),
        spe: match s.below(12) {
            0 => 0,
            1 => 1,
            2 => s.int(0, u32::MAX as i128) as u32,
            _ => SPE,
        },
        stake_lock: s.below(5) as u8,
        next_lock: s.below(5) as u8,
        hash,
        noise: [s.below(3) as u32, s.below(3) as u32, s.below(3) as u32, s.below(64) as u32],
    }
}

// ------------------------------------------------------------------ reference

fn digest(v: &[u8]) -> [u8; 32] {
    blake2b_32(v)
}

/// BLAKE2b-256 (RFC 7693)
pub fn blake2b_32(input: &[u8]) -> [u8; 32] {
    const IV: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let mut h = IV;
    h[0] ^= 0x01010000 ^ 32;
    let blocks = input.len().div_ceil(128).max(1);
    for b in 0..blocks {
        let mut m = [0u64; 16];
        let chunk = &input[b * 128..((b + 1) * 128).min(input.len())];
        let mut pad = [0u8; 128];
        pad[..chunk.len()].copy_from_slice(chunk);
        for i in 0..16 {
            m[i] = u64::from_le_bytes(pad[i * 8..i * 8 + 8].try_into().unwrap());
        }
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= (b * 128 + chunk.len()) as u64;
        if b + 1 == blocks {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        for r in 0..12 {
            let s = SIGMA[r % 10];
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}

fn epoch_slot(r: &Row) -> Option<u32> {
    if r.spe == 0 {
        None
    } else {
        Some(r.slot % r.spe)
    }
}

fn short_range(a: &Row, b: &Row) -> bool {
    if a.epoch == b.epoch {
        return a.stake_lock == b.stake_lock;
    }
    let (ahead, behind) = if a.epoch > b.epoch { (a, b) } else { (b, a) };
    ahead.epoch - behind.epoch == 1 && epoch_slot(behind).map_or(false, |x| x as u64 >= SPE as u64 * 2 / 3) && ahead.stake_lock == behind.next_lock
}

/// minimum window density of `a` had it reached the later of the two slots with no more blocks
fn rel_density(a: &Row, b: &Row) -> Result<u32, ConsensusError> {
    let at = a.slot.max(b.slot);
    if at < GRACE {
        return Ok(a.min);
    }
    let ahead = (at as u64 - (a.slot as u64).saturating_sub(1)).min(SUBS as u64);
    let here = (a.slot / SUBS) % SUBS;
    let mut gone = [false; SUBS as usize];
    for k in 1..=ahead {
        gone[((here as u64 + k) % SUBS as u64) as usize] = true;
    }
    if gone.iter().enumerate().any(|(i, g)| *g && i >= a.win.len()) {
        return Err(ConsensusError::CandidatesMissingSubWindowDensities);
    }
    let sum: u64 = a.win.iter().enumerate().filter(|(i, _)| *i >= SUBS as usize || !gone[*i]).map(|(_, x)| *x as u64).sum();
    Ok((a.min as u64).min(sum) as u32)
}

fn tie(tip: &Row, cand: &Row, hash: &dyn Fn(&Row) -> Fp) -> (bool, &'static str) {
    if tip.len != cand.len {
        return (cand.len > tip.len, "length decides");
    }
    match digest(&cand.vrf).cmp(&digest(&tip.vrf)) {
        Ordering::Greater => (true, "vrf decides"),
        Ordering::Less => (false, "vrf decides"),
        Ordering::Equal => (hash(cand) > hash(tip), if hash(cand) == hash(tip) { "full tie" } else { "state hash decides" }),
    }
}

/// Does `cand` replace `tip`?
pub(crate) fn replaces(tip: &Row, cand: &Row, hash: &dyn Fn(&Row) -> Fp) -> Result<(bool, &'static str), ConsensusError> {
    if short_range(tip, cand) {
        return Ok(tie(tip, cand, hash));
    }
    if cand.win.len() != SUBS as usize || cand.win.iter().any(|d| *d > PER_SUB) {
        return Ok((false, "malformed window"));
    }
    let t = rel_density(tip, cand)?;
    let c = rel_density(cand, tip)?;
    Ok(match c.cmp(&t) {
        Ordering::Greater => (true, "density decides"),
        Ordering::Less => (false, "density decides"),
        Ordering::Equal => {
            let (x, _) = tie(tip, cand, hash);
            (x, "long range, density tie")
        }
    })
}

/// chain indexes; (index of the chain that is the tip at the end, error that ended the selection)
fn reference(chains: &[Vec<Row>], hash: &dyn Fn(&Row) -> Fp, labels: &mut Vec<&'static str>) -> (usize, Option<ConsensusError>) {
    let mut tip = 0;
    for c in 1..chains.len() {
        let (Some(t), Some(k)) = (chains[tip].last(), chains[c].last()) else {
            labels.push("chain without blocks");
            return (tip, Some(ConsensusError::ConsensusStateNotFound));
        };
        match replaces(t, k, hash) {
            Ok((yes, l)) => {
                labels.push(l);
                if yes {
                    tip = c
                }
            }
            Err(e) => {
                labels.push("tip without window");
                return (tip, Some(e));
            }
        }
    }
    (tip, None)
}

// ------------------------------------------------------------------ facets

fn rows(s: &mut Src) -> Vec<Vec<Row>> {
    let n = match s.below(8) {
        0 => 0,
        1 | 2 | 3 => 1,
        4 | 5 => 2,
        6 => 3,
        _ => 4,
    };
    let mut out: Vec<Vec<Row>> = vec![];
    for i in 0..=n {
        let blocks = match s.below(20) {
            19 => 0,
            18 => 2,
            17 => 3,
            _ => 1,
        };
        let near: Option<Row> = if i == 0 { None } else { out[s.usz(i)].last().cloned() };
        out.push((0..blocks).map(|_| row(s, near.as_ref())).collect());
    }
    out
}

fn choice(s: &mut Src, ctx: &mut Ctx) -> Res {
    let chains = rows(s);
    run(&chains, |r| Hdr { cs: state(r), consts: ProtocolConstants::default(), hash: fp(&r.hash) }, &|r| fp(&r.hash), ctx)
}

fn real(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut chains = rows(s);
    // the VRF output must be hashable
    for r in chains.iter_mut().flatten() {
        r.vrf.resize(32, 0);
        r.vrf[31] &= 0x1f;
    }
    if s.bool() {
        let mk = |r: &Row| {
            let mut p = ProtocolStateLegacy::default();
            p.body.consensus_state = state(r);
            p
        };
        run(&chains, mk, &|r| mk(r).state_hash_fp(), ctx)
    } else {
        let mk = |r: &Row| {
            let mut p = ProtocolState::default();
            p.body.consensus_state = state(r);
            p
        };
        run(&chains, mk, &|r| mk(r).state_hash_fp(), ctx)
    }
}

fn run<T: ProtocolStateHeader + Clone + PartialEq + std::fmt::Debug>(chains: &[Vec<Row>], mk: impl Fn(&Row) -> T, hash: &dyn Fn(&Row) -> Fp, ctx: &mut Ctx) -> Res {
    let built: Vec<ProtocolStateChain<T>> = chains.iter().map(|c| ProtocolStateChain(c.iter().map(&mk).collect())).collect();
    let mut labels = vec![];
    let (want, err) = reference(chains, hash, &mut labels);
    let mut tip = built[0].clone();
    let got = guard(|| tip.select_secure_chain(built[1..].to_vec())).map_err(|e| Fail(format!("select_secure_chain {}: {chains:?}", e.0)))?;
    ensure!(got.as_ref().err() == err.as_ref(), "selection gives {got:?}, the rule {err:?}: {chains:?}");
    ensure!(tip == built[want], "selection ends with chain {:?}, the rule with {want}: {chains:?}", built.iter().position(|c| *c == tip));
    // one step, alone
    if let (Some(a), Some(b), true) = (chains[0].last(), chains.get(1).and_then(|c| c.last()), chains.len() > 1) {
        let mut t = built[0].clone();
        let got = guard(|| t.select_longer_chain(built[1].clone())).map_err(|e| Fail(format!("select_longer_chain {}: {chains:?}", e.0)))?;
        ensure!(got.is_ok(), "select_longer_chain fails with {got:?}: {chains:?}");
        let w = tie(a, b, hash).0;
        ensure!(t == built[w as usize], "select_longer_chain takes the candidate: {}, the rule says {w}: {:?}", t == built[1], &chains[..2]);
        // a full tie or a worse candidate keeps the tip; among two distinguishable chains the outcome does not depend on which is the tip
        if short_range(a, b) && (a.len, &a.vrf, hash(a)) != (b.len, &b.vrf, hash(b)) {
            let (mut x, mut y) = (built[0].clone(), built[1].clone());
            let r1 = guard(|| x.select_secure_chain(vec![built[1].clone()]))?;
            let r2 = guard(|| y.select_secure_chain(vec![built[0].clone()]))?;
            ensure!(r1.is_ok() && r2.is_ok() && x == y, "short range choice depends on which chain is the tip: {:?}", &chains[..2]);
        }
    }
    for l in &labels {
        ctx.label(l);
    }
    ctx.case(hash_of(chains), labels.iter().any(|l| *l != "chain without blocks"));
    ctx.sample(|| format!("{chains:?} -> {want} {err:?}"));
    Ok(())
}

fn density(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = row(s, None);
    let b = row(s, Some(&a));
    let mk = |r: &Row| ProtocolStateChain(vec![Hdr { cs: state(r), consts: ProtocolConstants::default(), hash: fp(&r.hash) }]);
    let (ca, cb) = (mk(&a), mk(&b));
    for (x, y, rx, ry) in [(&ca, &cb, &a, &b), (&cb, &ca, &b, &a)] {
        let got = guard(|| x.relative_min_window_density(y)).map_err(|e| Fail(format!("relative_min_window_density {}: {rx:?} {ry:?}", e.0)))?;
        let want = rel_density(rx, ry);
        ensure!(got == want, "relative density {got:?}, expected {want:?}: {rx:?} against {ry:?}");
        let got = guard(|| x.is_short_range(y)).map_err(|e| Fail(format!("is_short_range {}: {rx:?} {ry:?}", e.0)))?;
        let want = short_range(rx, ry);
        ensure!(got == Ok(want), "is_short_range {got:?}, expected {want}: {rx:?} against {ry:?}");
        ctx.label(if want { "short range" } else { "long range" });
    }
    let e: ProtocolStateChain<Hdr> = ProtocolStateChain(vec![]);
    if s.chance(1, 20) {
        ensure!(guard(|| ca.is_short_range(&e))?.is_err() && guard(|| e.is_short_range(&ca))?.is_err(), "an empty chain has a fork range");
        ensure!(guard(|| ca.relative_min_window_density(&e))?.is_err() && guard(|| e.relative_min_window_density(&ca))?.is_err(), "an empty chain has a density");
    }
    let c: ConsensusConstants = ca.config();
    ensure!(
        (c.k, c.slots_per_epoch, c.slots_per_sub_window, c.delta, c.sub_windows_per_window, c.grace_period_end, c.genesis_state_timestamp)
            == (Length(K), Length(SPE), Length(PER_SUB), Length(0), Length(SUBS), Length(GRACE), BlockTime(1615939200000)),
        "constants differ from mainnet"
    );
    ctx.case(hash_of(&(&a, &b)), a.slot.max(b.slot) >= GRACE);
    ctx.sample(|| format!("{a:?} against {b:?}: {:?} / {:?}", rel_density(&a, &b), rel_density(&b, &a)));
    Ok(())
}

fn push(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c: ProtocolStateChain<Hdr> = ProtocolStateChain(vec![]);
    let mut m: Vec<Row> = vec![];
    let mut log = String::new();
    for _ in 0..s.range(1, 8) {
        let mut r = row(s, m.last().cloned().as_ref());
        if let Some(t) = m.last() {
            match s.below(8) {
                0 => r.len = t.len,
                1 => r.len = t.len.wrapping_sub(1),
                2 => r.len = t.len.wrapping_add(2),
                3 => {}
                _ => r.len = t.len.wrapping_add(1),
            }
        } else if s.chance(1, 4) {
            r.len = u32::MAX - s.below(3) as u32;
        }
        let h = Hdr { cs: state(&r), consts: ProtocolConstants::default(), hash: fp(&r.hash) };
        let got = guard(|| c.push(h)).map_err(|e| Fail(format!("push of height {} {}: {log}", r.len, e.0)))?;
        let want = match m.last() {
            None => true,
            Some(t) => t.len.checked_add(1) == Some(r.len),
        };
        log.push_str(&format!("push {} -> {got:?}; ", r.len));
        ensure!(got == if want { Ok(()) } else { Err(ConsensusError::InvalidHeight) }, "push: {log}");
        if want {
            m.push(r)
        }
        ctx.label(if want { "accepted" } else { "rejected" });
        ensure!(c.0.len() == m.len() && c.0.iter().zip(&m).all(|(x, y)| x.cs == state(y)), "chain content after {log}");
        let top = m.last();
        ensure!(c.top().map(|x| x.cs.blockchain_length.0) == top.map(|t| t.len), "top after {log}");
        ensure!(c.genesis_block().map(|x| &x.cs) == m.first().map(state).as_ref(), "genesis_block after {log}");
        ensure!(c.consensus_state() == top.map(state).as_ref(), "consensus_state after {log}");
        ensure!(c.length() == top.map_or(0, |t| t.len as usize), "length after {log}");
        ensure!(c.global_slot().map(|g| (g.slot_number.0, g.slots_per_epoch.0)) == top.map(|t| (t.slot, t.spe)), "global_slot after {log}");
        let es = guard(|| c.epoch_slot()).map_err(|e| Fail(format!("epoch_slot {}: {:?}", e.0, top.map(|t| (t.slot, t.spe)))))?;
        ensure!(es == top.and_then(epoch_slot), "epoch_slot {es:?} after {log}: {top:?}");
        ensure!(c.state_hash() == top.map(|t| fp(&t.hash)), "state_hash after {log}");
        let d = c.last_vrf_hash_digest();
        ensure!(d == top.map(|t| hex_full(&digest(&t.vrf))).ok_or(ConsensusError::TopBlockNotFound), "last_vrf_hash_digest {d:?} after {log}");
    }
    ctx.case(hash_of(&log), log.matches("push").count() > 1);
    ctx.sample(|| log);
    Ok(())
}
