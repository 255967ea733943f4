use crate::core::*;
use crate::trees::height_for;
use ark_ff::{BigInteger256, PrimeField};
use mina_merkle::prefixes::*;
use mina_merkle::*;
use num_bigint::BigUint;
use proof_systems::mina_hasher::{create_kimchi, create_legacy, Fp, Hashable, Hasher, ROInput};
use proof_systems::FpJson;
use std::str::FromStr;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C21", name: "mina", quick: 20_000, thorough: 400_000, f: mina, rule: "the repository's own leaf hashers and mergers (legacy and kimchi) against a root computed from every position of the fixed-height tree, empty ones included; non-trivial: at least two leaves" },
        Facet { prop: "C21", name: "prefixes", quick: 20_000, thorough: 400_000, f: prefixes, rule: "domain strings for random heights; non-trivial: height > 9" },
        Facet { prop: "C22", name: "path", quick: 100_000, thorough: 2_000_000, f: path, rule: "the path of a leaf as GraphQL gives it, through JSON, to a proof: verifies, equals the tree's own proof, and edits of it do not verify; non-trivial: at least two levels" },
        Facet { prop: "C22", name: "path-hostile", quick: 800_000, thorough: 16_000_000, f: path_hostile, rule: "paths with nodes that have both, neither or one hash, none to 80 levels, JSON with wrong shapes and out-of-range numbers; error or a proof of the stated shape; non-trivial: some node is malformed or the length is extreme" },
    ]
}

#[derive(Clone, Debug, PartialEq)]
struct Leaf(u64);
impl Hashable for Leaf {
    type D = ();
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_u64(self.0)
    }
    fn domain_string(_: ()) -> Option<String> {
        Some("VerifLeaf".into())
    }
}
#[derive(Clone)]
struct Pair(Fp, Fp);
impl Hashable for Pair {
    type D = u32;
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_field(self.0).append_field(self.1)
    }
    fn domain_string(level: u32) -> Option<String> {
        Some(format!("CodaMklTree{}{}{}", level / 100, level / 10 % 10, level % 10))
    }
}
fn fp(dec: &str) -> Fp {
    let b: BigInteger256 = BigUint::from_str(dec).unwrap().try_into().unwrap();
    Fp::from_repr(b).unwrap()
}
fn merge(legacy: bool, l: Fp, r: Fp, level: u32) -> Fp {
    if legacy {
        create_legacy::<Pair>(level).hash(&Pair(l, r))
    } else {
        create_kimchi::<Pair>(level).hash(&Pair(l, r))
    }
}
fn leaf(legacy: bool, x: u64) -> Fp {
    if legacy {
        create_legacy::<Leaf>(()).hash(&Leaf(x))
    } else {
        create_kimchi::<Leaf>(()).hash(&Leaf(x))
    }
}
/// The hash of Mina's empty account, from the OCaml node.
fn empty(legacy: bool) -> Fp {
    fp(if legacy {
        "14604874247461951431777712543359658136906556694369689076707549712589474483312"
    } else {
        "9572980593872981109373931329129826339992116007886182568766828232902813999143"
    })
}
/// rows[k] = hashes at height k above the leaves, only as far as leaves reach; `e[k]` = hash of an
/// empty subtree of height k.
fn rows(legacy: bool, items: &[u64], height: u32) -> (Vec<Vec<Fp>>, Vec<Fp>) {
    let mut e = vec![empty(legacy)];
    let mut rows = vec![items.iter().map(|x| leaf(legacy, *x)).collect::<Vec<_>>()];
    for k in 0..height {
        let last = &rows[k as usize];
        let next = last.chunks(2).map(|c| merge(legacy, c[0], c.get(1).copied().unwrap_or(e[k as usize]), k)).collect();
        rows.push(next);
        let x = e[k as usize];
        e.push(merge(legacy, x, x, k));
    }
    (rows, e)
}

fn mina(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.bool() {
        mina_of::<MinaPoseidonMerkleHasherLegacy<Leaf>, MinaPoseidonMerkleMergerLegacy>(true, s, ctx)
    } else {
        mina_of::<MinaPoseidonMerkleHasher<Leaf>, MinaPoseidonMerkleMerger>(false, s, ctx)
    }
}
fn mina_of<HA, ME>(legacy: bool, s: &mut Src, ctx: &mut Ctx) -> Res
where
    HA: MerkleHasher<Item = Leaf, Hash = Fp>,
    ME: MerkleMerger<Hash = Fp>,
{
    let n = s.range(1, 20) as usize;
    let items: Vec<u64> = (0..n).map(|_| s.below(8)).collect();
    let v = height_for(n);
    let fixed = s.bool();
    let total = if fixed { (v + s.below(6) as u32).max(1) + if s.chance(1, 10) { 25 } else { 0 } } else { v };
    let what = format!("{} tree, height {total}, leaves {items:?}", if legacy { "legacy" } else { "kimchi" });
    let (rows, e) = rows(legacy, &items, total);
    let want = rows[total as usize][0];
    let cut = s.usz(n + 1);
    let (a, b) = (items[..cut].iter().map(|x| Leaf(*x)).collect::<Vec<_>>(), items[cut..].iter().map(|x| Leaf(*x)).collect::<Vec<_>>());
    let root;
    let mut proofs = vec![];
    if fixed {
        let mut t = MinaMerkleTree::<Leaf, Fp, HA, ME, FixedHeightMode>::new(total);
        t.add_batch(a);
        if s.bool() && cut > 0 {
            t.root();
        }
        t.add_batch(b);
        root = t.root();
        for i in 0..n {
            proofs.push(guard(|| t.get_proof(i)).map_err(|e| Fail(format!("{what}: {}", e.0)))?)
        }
    } else {
        let mut t = MinaMerkleTree::<Leaf, Fp, HA, ME, VariableHeightMode>::new();
        t.add_batch(a);
        if s.bool() && cut > 0 {
            t.root();
        }
        t.add_batch(b);
        root = t.root();
        for i in 0..n {
            proofs.push(guard(|| t.get_proof(i)).map_err(|e| Fail(format!("{what}: {}", e.0)))?)
        }
    }
    ensure!(root == Some(want), "{what}: root {root:?} instead of {want}");
    for (i, p) in proofs.iter().enumerate() {
        let Some(p) = p else {
            ensure!(total == 0, "{what}: no proof for leaf {i}");
            continue;
        };
        ensure!(p.verify(&want), "{what}: proof of leaf {i} does not verify");
        for (k, hh) in p.peer_hashes.iter().enumerate() {
            if let Some(hh) = hh {
                let w = rows[k].get((i >> k) ^ 1).copied().unwrap_or(e[k]);
                ensure!(*hh == w, "{what}: sibling {k} of leaf {i} is {hh} instead of {w}");
            }
        }
        let q = DefaultMerkleProof::<Leaf, Fp, HA, ME>::new(p.index, Leaf(items[i] + 1), p.peer_indices.clone(), p.peer_hashes.clone());
        ensure!(!q.verify(&want), "{what}: the proof of leaf {i} verifies for another item");
    }
    ctx.label(if legacy { "legacy" } else { "kimchi" });
    ctx.case(hash_of(&what), n >= 2);
    ctx.sample(|| what);
    Ok(())
}

fn prefixes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let h = match s.below(3) {
        0 => s.below(1200) as u32,
        1 => s.below(64) as u32,
        _ => s.u64() as u32 >> s.below(32),
    };
    let mut d = h.to_string();
    while d.len() < 3 {
        d.insert(0, '0')
    }
    let (a, b) = (make_prefix_merkle_tree(h), make_prefix_coinbase_merkle_tree(h));
    ensure!(a == format!("CodaMklTree{d}"), "prefix of height {h} is {a}");
    ensure!(b == format!("CodaCbMklTree{d}"), "coinbase prefix of height {h} is {b}");
    ctx.case(h as u64, h > 9);
    ctx.sample(|| a);
    Ok(())
}

type KProof = DefaultMerkleProof<Leaf, Fp, MinaPoseidonMerkleHasher<Leaf>, MinaPoseidonMerkleMerger>;

fn path(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.range(1, 12) as usize;
    let items: Vec<u64> = (0..n).map(|_| s.below(8)).collect();
    let total = height_for(n).max(1) + s.below(6) as u32 + if s.chance(1, 10) { 24 } else { 0 };
    let i = s.usz(n);
    let (rows, e) = rows(false, &items, total);
    let root = rows[total as usize][0];
    let mut nodes = vec![];
    for k in 0..total as usize {
        let sib = rows[k].get((i >> k) ^ 1).copied().unwrap_or(e[k]);
        let dec = BigUint::from(sib.into_repr()).to_string();
        nodes.push(if (i >> k) & 1 == 0 { serde_json::json!({"left": dec, "right": null}) } else { serde_json::json!({"left": null, "right": dec}) });
    }
    let json = serde_json::Value::Array(nodes).to_string();
    let what = format!("leaf {i} of {items:?}, height {total}");
    let path: MerklePath = guard(|| serde_json::from_str(&json))?.map_err(|e| Fail(format!("{what}: {json}: {e}")))?;
    let back = serde_json::to_string(&path).map_err(|e| Fail(e.to_string()))?;
    ensure!(serde_json::from_str::<serde_json::Value>(&back).unwrap() == serde_json::from_str::<serde_json::Value>(&json).unwrap(), "{what}: path JSON {json} comes back as {back}");
    let p: KProof = guard(|| path.to_proof(Leaf(items[i])))?.map_err(|e| Fail(format!("{what}: {e}")))?;
    let index = (1usize << total) - 1 + i;
    ensure!(p.index == index, "{what}: node index {} instead of {index}", p.index);
    let mut at = index;
    for (k, x) in p.peer_indices.iter().enumerate() {
        let w = if at % 2 == 1 { at + 1 } else { at - 1 };
        ensure!(*x == w, "{what}: sibling {k} at {x} instead of {w}");
        at = (at - 1) / 2;
    }
    ensure!(guard(|| p.verify(&root))?, "{what}: the path does not verify");
    // edits
    let mut q = path.clone();
    let k = s.usz(total as usize);
    let edit = s.below(5);
    match edit {
        0 => {
            // a hash in the path
            let node = &mut q.0[k];
            let v = FpJson(Fp::from(s.u64()));
            if node.left.is_some() {
                node.left = Some(v)
            } else {
                node.right = Some(v)
            }
        }
        1 => {
            let node = &mut q.0[k];
            std::mem::swap(&mut node.left, &mut node.right);
        }
        2 => {
            q.0.remove(k);
        }
        3 => {
            let x = q.0[k].clone();
            q.0.insert(k, x);
        }
        _ => {}
    }
    let item = if edit == 4 { Leaf(items[i] + 1) } else { Leaf(items[i]) };
    let r: Result<KProof, _> = guard(|| q.to_proof(item))?;
    if let Ok(p2) = r {
        let ok = guard(|| p2.verify(&root))?;
        // swapping sides where both children are equal changes the position, not the root
        let same = edit == 1 && {
            let a = rows[k].get(i >> k).copied().unwrap_or(e[k]);
            let b = rows[k].get((i >> k) ^ 1).copied().unwrap_or(e[k]);
            a == b
        };
        ensure!(!ok || same, "{what}: the path with edit {edit} at level {k} still verifies");
    }
    ctx.label(&format!("edit {edit}"));
    ctx.case(hash_of(&(what.clone(), edit, k)), total >= 2);
    ctx.sample(|| format!("{what}, edit {edit} at level {k}"));
    Ok(())
}

fn path_hostile(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match s.below(6) {
        0 => 0,
        1 => s.range(58, 80),
        _ => s.range(1, 8),
    } as usize;
    let bad_rate = s.below(3);
    let mut nodes = vec![];
    let mut malformed_json = false;
    let mut malformed_node = false;
    const P: &str = "28948022309329048855892746252171976963363056481941560715954676764349967630337";
    for _ in 0..n {
        let mut hash = |s: &mut Src| -> (serde_json::Value, bool) {
            if bad_rate == 0 || !s.chance(1, 8) {
                return (serde_json::json!(s.u64().to_string()), false);
            }
            match s.below(9) {
                0 => (serde_json::json!(P), true),
                1 => (serde_json::json!(format!("{}", BigUint::from_str(P).unwrap() - 1u8)), false),
                2 => (serde_json::json!((BigUint::from(1u8) << (255 + s.below(40) as usize)).to_string()), true),
                3 => (serde_json::json!("9".repeat(1 + s.usz(200))), false),
                4 => (serde_json::json!("-1"), true),
                5 => (serde_json::json!("12a"), true),
                6 => (serde_json::json!(7), true),
                7 => (serde_json::json!([]), true),
                _ => (serde_json::json!(""), true),
            }
        };
        let mut put = |s: &mut Src, bad: &mut bool| {
            let (v, b) = hash(s);
            let too_big = v.as_str().map_or(false, |t| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) && BigUint::from_str(t).unwrap() >= BigUint::from_str(P).unwrap());
            *bad |= b || too_big;
            v
        };
        let shape = if bad_rate == 0 { s.below(2) } else { s.below(12) };
        nodes.push(match shape {
            8 => {
                malformed_node = true;
                serde_json::json!({"left": null, "right": null})
            }
            9 => {
                malformed_node = true;
                let (a, b) = (put(s, &mut malformed_json), put(s, &mut malformed_json));
                serde_json::json!({"left": a, "right": b})
            }
            x if x % 2 == 0 => serde_json::json!({"left": put(s, &mut malformed_json), "right": null}),
            _ => serde_json::json!({"left": null, "right": put(s, &mut malformed_json)}),
        });
    }
    let json = serde_json::Value::Array(nodes).to_string();
    let what = format!("path {}", &json[..json.len().min(2000)]);
    let r: Result<MerklePath, _> = guard(|| serde_json::from_str(&json)).map_err(|e| Fail(format!("{what}: {}", e.0)))?;
    ctx.case(hash_of(&json), malformed_json || malformed_node || n == 0 || n > 50);
    ctx.sample(|| what.clone());
    let p = match r {
        Err(e) => {
            ensure!(malformed_json, "{what}: rejected: {e}");
            ctx.label("JSON rejected");
            return Ok(());
        }
        Ok(p) => p,
    };
    ensure!(!malformed_json, "{what}: accepted although a hash is no field element");
    let r: Result<KProof, _> = guard(|| p.to_proof(Leaf(1))).map_err(|e| Fail(format!("{what}: to_proof {}", e.0)))?;
    match r {
        Err(_) => {
            ensure!(malformed_node || n == 0 || n >= 63, "{what}: a well formed path is refused");
            ctx.label("path refused");
        }
        Ok(p) => {
            ensure!(!malformed_node && n > 0, "{what}: a malformed path gives a proof");
            ensure!(p.peer_indices.len() == n && p.peer_hashes.len() == n && p.peer_hashes.iter().all(|x| x.is_some()), "{what}: proof of {} levels", p.peer_indices.len());
            guard(|| p.root_hash()).map_err(|e| Fail(format!("{what}: root_hash {}", e.0)))?.map_err(|e| Fail(format!("{what}: {e}")))?;
            ctx.label("proof");
        }
    }
    Ok(())
}
