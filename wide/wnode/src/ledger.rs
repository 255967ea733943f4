//! C32: genesis ledgers. What the database holds is what the ledger and its tree hold.
use crate::conv::bin;
use crate::core::*;
use crate::gen;
use crate::malformed::break_bytes;
use ark_ff::{BigInteger256, PrimeField};
use bin_prot::from_reader_strict;
use mina_ledger::*;
use mina_merkle::*;
use mina_rs_base::account::{Account, AccountLegacy};
use mina_rs_base::BinProtSerializationType;
use mina_serialization_types::v1::AccountV1;
use mina_serialization_types::unversioned::AccountV0;
use num_bigint::BigUint;
use proof_systems::mina_hasher::{create_kimchi, create_legacy, Fp, Hashable, Hasher, ROInput};
use rocksdb::DB;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C32", name: "accounts", quick: 200_000, thorough: 8_000_000, f: accounts, rule: "a database of 0-12 accounts of either generation among records of other kinds, some undecodable, read to the end or to a read error; non-trivial: at least one account" },
        Facet { prop: "C32", name: "tree", quick: 20_000, thorough: 800_000, f: tree, rule: "the merkle ledger of such a database against a root computed from every position of a tree of height 20; non-trivial: at least one account" },
    ]
}

/// What `accounts()` has to give for a record.
enum Want<A> {
    Account(A),
    Undecodable(Vec<u8>, Vec<u8>),
}
struct Made {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    fail_at: Option<Vec<u8>>,
    log: String,
}

fn database<W: DeserializeOwned + Serialize>(s: &mut Src, damaged: bool, unreadable: bool) -> Result<Made, Fail> {
    let mut map = BTreeMap::new();
    let n = match s.below(4) {
        0 => s.below(3),
        1 => s.range(1, 20),
        _ => s.below(9),
    };
    let mut log = String::new();
    // a ledger keeps its accounts under 0xfe and the position; positions may have gaps
    let width = *s.pick(&[8usize, 8, 2, 1, 32]);
    let mut at = 0u64;
    for _ in 0..n {
        at += s.below(4) * s.below(100) + 1;
        let mut k = vec![0xfe];
        let p = if width < 8 { at.to_be_bytes()[8 - width..].to_vec() } else { [vec![0; width - 8], at.to_be_bytes().to_vec()].concat() };
        k.extend(p);
        if s.chance(1, 40) {
            k = vec![0xfe];
        }
        let w: W = gen::value(s);
        let mut b = bin(&w)?;
        if damaged && s.chance(1, 4) {
            b = match s.below(4) {
                0 => {
                    let n = s.usz(b.len());
                    b[..n].to_vec()
                }
                1 => {
                    b.push(s.byte());
                    b
                }
                2 => vec![],
                _ => break_bytes(s, b),
            };
        }
        map.insert(k, b);
    }
    // inner nodes (0 ..= 20), and whatever else a ledger database holds
    for _ in 0..s.below(12) {
        let p = *s.pick(&[0u8, 0, 1, 2, 19, 20, 30, 0xfc, 0xfd, 0xff, 0xff, 0xee]);
        let n = *s.pick(&[0, 1, 8, 8, 33]);
        let mut k = vec![p];
        k.extend(s.bytes(n));
        if s.chance(1, 6) {
            k.insert(1, 0xfe);
        }
        let v = if s.bool() { s.bytes(32) } else { bin(&gen::value::<W>(s))? };
        map.insert(k, v);
    }
    if s.chance(1, 10) {
        map.insert(vec![], s.bytes(3));
    }
    let fail_at = if unreadable {
        let keys: Vec<Vec<u8>> = map.keys().filter(|k| k.first() >= Some(&0xfe)).cloned().collect();
        Some(if keys.is_empty() || s.chance(1, 4) { vec![*s.pick(&[0xfe, 0xff, 0xff])] } else { keys[s.usz(keys.len())].clone() })
    } else {
        None
    };
    for (k, v) in &map {
        log.push_str(&format!("{}: {} bytes; ", hex(k), v.len()));
    }
    if let Some(f) = &fail_at {
        log.push_str(&format!("reads fail from {}", hex(f)));
    }
    Ok(Made { map, fail_at, log })
}

fn want<A, W>(m: &Made) -> Vec<Want<A>>
where
    A: From<W>,
    W: DeserializeOwned,
{
    m.map
        .iter()
        .filter(|(k, _)| k.first() == Some(&0xfe) && m.fail_at.as_ref().map_or(true, |f| *k < f))
        .map(|(k, v)| {
            let r: Result<W, _> = from_reader_strict(&v[..]);
            match r {
                Ok(w) => Want::Account(w.into()),
                Err(_) => Want::Undecodable(k.clone(), v.clone()),
            }
        })
        .collect()
}

fn accounts(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.bool() {
        accounts_of::<AccountLegacy, AccountV1>(s, ctx)
    } else {
        accounts_of::<Account, AccountV0>(s, ctx)
    }
}
fn accounts_of<A, W>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    A: Hashable + for<'b> BinProtSerializationType<'b, T = W> + From<W> + Debug,
    <A as Hashable>::D: Default,
    W: DeserializeOwned + Serialize,
{
    let (damaged, unreadable) = (s.chance(1, 3), s.chance(1, 3));
    let m = database::<W>(s, damaged, unreadable)?;
    let want = want::<A, W>(&m);
    ctx.case(hash_of(&(&m.map, &m.fail_at)), !want.is_empty());
    ctx.label(match (damaged, unreadable) {
        (false, false) => "sound",
        (true, false) => "damaged",
        (false, true) => "unreadable",
        _ => "damaged and unreadable",
    });
    let db = DB::stand_in(m.map.clone(), m.fail_at.clone());
    let ledger: RocksDbGenesisLedger<20, A> = RocksDbGenesisLedger::new(&db);
    ensure!(ledger.depth() == 20, "the depth of a ledger of depth 20 is {}", ledger.depth());
    // a read error among the accounts, or where the next account would be, cannot be told from the
    // end of the accounts by anything else
    for round in 0..2 {
        let got: Vec<_> = guard(|| ledger.accounts().take(want.len() + 5).collect())?;
        let reads_on = m.fail_at.is_some() && !m.map.range(vec![0xff]..).any(|(k, _)| m.fail_at.as_ref().map_or(true, |f| k < f));
        let n = want.len() + reads_on as usize;
        ensure!(got.len() == n, "{} items instead of {n} (pass {round}) in a ledger of {}", got.len(), m.log);
        for (i, g) in got.into_iter().enumerate() {
            match (g, want.get(i)) {
                (Ok(a), Some(Want::Account(b))) => {
                    let (a, b) = (format!("{a:?}"), format!("{b:?}"));
                    ensure!(a == b, "account {i} is read as {a} instead of {b}: {}", m.log);
                }
                (Err(e), Some(Want::Undecodable(k, v))) => {
                    let t = format!("{e}");
                    ensure!(t.contains(&format!("{k:?}")) && t.contains(&format!("{v:?}")), "the error for {} does not tell the record: {t}", hex(k));
                }
                (Err(e), None) => ensure!(format!("{e}").contains("checksum mismatch"), "the read error is {e}"),
                (g, w) => fail!(
                    "account {i} is {} although its record is {}: {}",
                    if g.is_ok() { "read" } else { "refused" },
                    match w {
                        Some(Want::Account(_)) => "sound",
                        Some(_) => "undecodable",
                        None => "unreadable",
                    },
                    m.log
                ),
            }
        }
    }
    ctx.sample(|| m.log);
    Ok(())
}

#[derive(Clone)]
struct Pair(Fp, Fp);
impl Hashable for Pair {
    type D = u32;
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_field(self.0).append_field(self.1)
    }
    fn domain_string(level: u32) -> Option<String> {
        Some(format!("CodaMklTree{level:03}"))
    }
}
fn merge(legacy: bool, l: Fp, r: Fp, level: u32) -> Fp {
    if legacy {
        create_legacy::<Pair>(level).hash(&Pair(l, r))
    } else {
        create_kimchi::<Pair>(level).hash(&Pair(l, r))
    }
}
fn root(legacy: bool, mut row: Vec<Fp>) -> Fp {
    // the hash of Mina's empty account, from the OCaml node
    let e = if legacy { "14604874247461951431777712543359658136906556694369689076707549712589474483312" } else { "9572980593872981109373931329129826339992116007886182568766828232902813999143" };
    let b: BigInteger256 = e.parse::<BigUint>().unwrap().try_into().unwrap();
    let mut e = Fp::from_repr(b).unwrap();
    for k in 0..20 {
        row = row.chunks(2).map(|c| merge(legacy, c[0], c.get(1).copied().unwrap_or(e), k)).collect();
        e = merge(legacy, e, e, k);
    }
    row.first().copied().unwrap_or(e)
}

fn tree(s: &mut Src, ctx: &mut Ctx) -> Res {
    let damaged = s.chance(1, 6);
    if s.bool() {
        let m = database::<AccountV1>(s, damaged, false)?;
        tree_of::<AccountLegacy, AccountV1, _>(ctx, m, true, |l| {
            let mut t = l.to_mina_merkle_ledger_legacy();
            (t.height(), t.count(), t.root())
        })
    } else {
        let m = database::<AccountV0>(s, damaged, false)?;
        tree_of::<Account, AccountV0, _>(ctx, m, false, |l| {
            let mut t = l.to_mina_merkle_ledger();
            (t.height(), t.count(), t.root())
        })
    }
}
fn tree_of<A, W, F>(ctx: &mut Ctx, m: Made, legacy: bool, f: F) -> Res
where
    A: Hashable + for<'b> BinProtSerializationType<'b, T = W> + From<W> + Debug,
    <A as Hashable>::D: Default,
    W: DeserializeOwned + Serialize,
    F: Fn(&RocksDbGenesisLedger<20, A>) -> (u32, usize, Option<Fp>),
{
    let want = want::<A, W>(&m);
    ctx.case(hash_of(&(&m.map, legacy)), !want.is_empty());
    let mut leaves = vec![];
    let mut skipped = 0;
    for w in &want {
        match w {
            Want::Account(a) => {
                let h = |d| if legacy { create_legacy::<A>(d).hash(a) } else { create_kimchi::<A>(d).hash(a) };
                let x = guard(|| h(Default::default()));
                match x {
                    Ok(x) => leaves.push(x),
                    // damaged contents may still decode, as hashes that are no field elements
                    Err(_) => return Ok(()),
                }
            }
            Want::Undecodable(..) => skipped += 1,
        }
    }
    let db = DB::stand_in(m.map.clone(), None);
    let ledger: RocksDbGenesisLedger<20, A> = RocksDbGenesisLedger::new(&db);
    let (height, count, got) = guard(|| f(&ledger))?;
    ensure!(height == 20, "the tree of a ledger has height {height}");
    if skipped > 0 && count == leaves.len() {
        ctx.known("undecodable-account-skipped", format!("{} of {} accounts are undecodable and missing from the merkle ledger, the others move up", skipped, want.len()));
    } else {
        ensure!(count == leaves.len(), "the tree of a ledger of {} accounts has {count}: {}", leaves.len(), m.log);
    }
    let r = if leaves.is_empty() { None } else { Some(root(legacy, leaves.clone())) };
    if leaves.is_empty() {
        ensure!(got.is_none() || got == Some(root(legacy, vec![])), "the root of an empty ledger is {got:?}");
    } else {
        ensure!(got == r, "the root of the merkle ledger is {got:?} instead of {r:?}, {} accounts: {}", leaves.len(), m.log);
    }
    ctx.label(if legacy { "legacy" } else { "current" });
    ctx.sample(|| format!("{} accounts, root {got:?}", leaves.len()));
    Ok(())
}
