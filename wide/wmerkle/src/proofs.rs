use crate::core::*;
use crate::trees::*;
use mina_merkle::*;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C22", name: "complete", quick: 400_000, thorough: 8_000_000, f: complete, rule: "every leaf of a tree grown in one or several batches; proof checked field by field and against the root; non-trivial: at least two levels" },
        Facet { prop: "C22", name: "tampered", quick: 3_000_000, thorough: 60_000_000, f: tampered, rule: "a genuine proof with one or two edits (item, index, sibling index or hash, level removed, added or swapped, lists of different length, other root); non-trivial: at least one edit changed the proof" },
        Facet { prop: "C22", name: "arbitrary", quick: 2_000_000, thorough: 40_000_000, f: arbitrary, rule: "proof fields built from random indices and hashes with no tree behind them, reference verifier; non-trivial: index > 0 and at least one level" },
    ]
}

type Proof<const F: u8> = DefaultMerkleProof<u64, H, Fam<F>, Fam<F>>;

fn tree_with<const F: u8>(s: &mut Src, max: usize) -> Result<(Tree<F>, Vec<u64>), Fail> {
    let mut t = Tree::<F>::make(s);
    let mut items = vec![];
    let parts = s.range(1, 4);
    for p in 0..parts {
        let mut k = s.usz(max / parts as usize + 1);
        if p == 0 {
            k += 1
        }
        let k = k.min(t.room());
        let b: Vec<u64> = (0..k).map(|_| s.below(5)).collect();
        items.extend(b.clone());
        t.add_batch(b);
        if s.bool() {
            guard(|| t.root())?;
        }
    }
    Ok((t, items))
}

fn depth_of(i: u64) -> u32 {
    63 - (i + 1).leading_zeros()
}

/// Reference: the root a proof denotes, None if it is malformed.
fn reference(f: u8, index: usize, item: u64, pi: &[usize], ph: &[Option<H>]) -> Option<Option<H>> {
    if index == 0 || pi.is_empty() || pi.len() != ph.len() || index == usize::MAX || depth_of(index as u64) as usize != pi.len() {
        return None;
    }
    let total = pi.len() as u32;
    let mut i = index;
    let mut cur = Some(leaf(f, item, total, 0));
    for (k, (p, hh)) in pi.iter().zip(ph).enumerate() {
        let left = i % 2 == 1;
        if *p != if left { i + 1 } else { i - 1 } {
            return None;
        }
        let c = if left { [cur, *hh] } else { [*hh, cur] };
        cur = node(f, c, total - k as u32 - 1, k as u32 + 1);
        i = (i - 1) / 2;
    }
    Some(cur)
}

fn complete(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(4) {
        0 => complete_of::<0>(s, ctx),
        1 => complete_of::<3>(s, ctx),
        2 => complete_of::<7>(s, ctx),
        _ => complete_of::<12>(s, ctx),
    }
}
fn complete_of<const F: u8>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut t, items) = tree_with::<F>(s, 40)?;
    let fixed = t.fixed();
    let total = fixed.unwrap_or(height_for(items.len()));
    let what = format!("family {F}, fixed height {fixed:?}, leaves {items:?}");
    let root = model_root(F, &items, fixed);
    let mut levels: Vec<Vec<Option<H>>> = vec![];
    let v = height_for(items.len());
    let mut row: Vec<Option<H>> = (0..1usize << v).map(|i| items.get(i).map(|x| leaf(F, *x, total, 0))).collect();
    for hh in 1..=v {
        let next = row.chunks(2).map(|c| node(F, [c[0], c[1]], total - hh, hh)).collect();
        levels.push(row);
        row = next;
    }
    for i in 0..items.len() {
        let p = guard(|| t.proof(i)).map_err(|e| Fail(format!("{what}: get_proof({i}) {}", e.0)))?;
        let Some(p) = p else {
            ensure!(total == 0, "{what}: no proof for leaf {i}");
            continue;
        };
        ensure!(total > 0, "{what}: a proof in a tree of height 0");
        let index = (1usize << total) - 1 + i;
        ensure!(p.index == index && p.item == items[i], "{what}: proof of leaf {i} is for node {} item {}", p.index, p.item);
        let mut at = index;
        let mut wi = vec![];
        let mut wh = vec![];
        let mut pos = i;
        for k in 0..total as usize {
            wi.push(if at % 2 == 1 { at + 1 } else { at - 1 });
            wh.push(if k < v as usize { levels[k][pos ^ 1] } else { None });
            at = (at - 1) / 2;
            pos /= 2;
        }
        ensure!(p.peer_indices == wi, "{what}: leaf {i}: siblings {:?} instead of {wi:?}", p.peer_indices);
        ensure!(p.peer_hashes == wh, "{what}: leaf {i}: sibling hashes {:x?} instead of {wh:x?}", p.peer_hashes);
        let got = guard(|| p.root_hash()).map_err(|e| Fail(format!("{what}: leaf {i}: {}", e.0)))?;
        ensure!(got.as_ref().ok() == root.as_ref(), "{what}: leaf {i}: root from the proof {got:x?}, root {root:x?}");
        if let Some(r) = root {
            ensure!(p.verify(&r), "{what}: leaf {i}: the proof does not verify");
            ensure!(!p.verify(&(r ^ 1)) && !p.verify(&(r ^ (1 << 127))), "{what}: leaf {i}: the proof verifies against another root");
        }
        ctx.extra_evals += 1;
    }
    let r2 = guard(|| t.root())?;
    ensure!(r2 == root, "{what}: root {r2:x?} after taking proofs, should be {root:x?}");
    ctx.label(&format!("family {F}"));
    ctx.case(hash_of(&what), total >= 2);
    ctx.sample(|| what);
    Ok(())
}

fn tampered(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(3) {
        0 => tampered_of::<0>(s, ctx),
        1 => tampered_of::<3>(s, ctx),
        _ => tampered_of::<12>(s, ctx),
    }
}
fn tampered_of<const F: u8>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut t, items) = tree_with::<F>(s, 24)?;
    let i = s.usz(items.len());
    let Some(mut p) = guard(|| t.proof(i))? else { return Ok(()) };
    let Some(mut root) = guard(|| t.root())? else { return Ok(()) };
    let snap = |p: &Proof<F>| (p.index, p.item, p.peer_indices.clone(), p.peer_hashes.clone());
    let before = (snap(&p), root);
    let mut edits = vec![];
    for _ in 0..s.range(1, 2) {
        let n = p.peer_indices.len().min(p.peer_hashes.len());
        let k = s.usz(n.max(1));
        let e = s.below(14);
        edits.push(e);
        match e {
            0 => p.item = p.item.wrapping_add(s.range(1, 4)),
            1 if n > 0 => p.peer_hashes[k] = p.peer_hashes[k].map(|x| x ^ (1 << s.below(128))),
            2 if n > 0 => p.peer_hashes[k] = Some(s.u64() as H),
            3 if n > 0 => p.peer_hashes[k] = None,
            4 if n > 0 => p.peer_indices[k] = s.usz(2 * p.index + 4),
            5 if n > 0 => p.peer_indices[k] = p.peer_indices[k].wrapping_add(2),
            6 => p.index = s.usz(2 * p.index + 4),
            7 => p.index ^= 1,
            8 if n > 0 => {
                p.peer_indices.remove(k);
                p.peer_hashes.remove(k);
            }
            9 => {
                // one more level, with indices that stay consistent
                p.index = 2 * p.index + 1 + s.usz(2);
                p.peer_indices.insert(0, if p.index % 2 == 1 { p.index + 1 } else { p.index - 1 });
                p.peer_hashes.insert(0, if s.bool() { None } else { Some(s.u64() as H) });
            }
            10 => {
                p.peer_hashes.pop();
            }
            11 => p.peer_hashes.push(None),
            12 if n > 1 => {
                let j = s.usz(n);
                p.peer_hashes.swap(k, j);
                if s.bool() {
                    p.peer_indices.swap(k, j)
                }
            }
            _ => root ^= 1 << s.below(128),
        }
    }
    judge::<F>(&p, root, &format!("family {F}, fixed height {:?}, leaves {items:?}, leaf {i}, edits {edits:?}", t.fixed()), Some(&before), &items, ctx)
}

fn judge<const F: u8>(p: &Proof<F>, root: H, what: &str, before: Option<&((usize, u64, Vec<usize>, Vec<Option<H>>), H)>, items: &[u64], ctx: &mut Ctx) -> Res {
    let now = ((p.index, p.item, p.peer_indices.clone(), p.peer_hashes.clone()), root);
    let what = format!("{what}: index {} item {} siblings {:?} hashes {:x?}", p.index, p.item, p.peer_indices, p.peer_hashes);
    let want = reference(F, p.index, p.item, &p.peer_indices, &p.peer_hashes);
    let got = guard(|| p.root_hash()).map_err(|e| Fail(format!("{what}: root_hash {}", e.0)))?;
    let ok = guard(|| p.verify(&root)).map_err(|e| Fail(format!("{what}: verify {}", e.0)))?;
    match want {
        Some(Some(w)) => ensure!(got == Ok(w), "{what}: root {got:x?} instead of {w:x}"),
        _ => ensure!(got.is_err(), "{what}: malformed, but gives the root {got:x?}"),
    }
    ensure!(ok == (want == Some(Some(root))), "{what}: verify says {ok}, root is {root:x}");
    if let Some(b) = before {
        // the families without pass-through are injective: what verifies is in the tree, there
        if F & 8 == 0 && ok {
            let first = (1usize << b.0 .2.len()) - 1;
            let there = p.index.checked_sub(first).and_then(|j| items.get(j));
            ensure!(b.1 == root && there == Some(&p.item), "{what}: the changed proof verifies, but the tree has {there:?} there");
        }
        ctx.label(if *b == now {
            "unchanged"
        } else if ok {
            "changed, still valid"
        } else if got.is_err() {
            "malformed"
        } else {
            "other root"
        });
        ctx.case(hash_of(&what), *b != now);
    } else {
        ctx.case(hash_of(&what), p.index > 0 && !p.peer_indices.is_empty());
        ctx.label(if got.is_err() { "malformed" } else { "well formed" });
    }
    ctx.sample(|| what);
    Ok(())
}

fn arbitrary(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.bool() {
        arbitrary_of::<3>(s, ctx)
    } else {
        arbitrary_of::<15>(s, ctx)
    }
}
fn arbitrary_of<const F: u8>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let index = match s.below(6) {
        0 => usize::MAX - s.usz(3),
        1 => (s.u64() >> s.range(0, 63)) as usize,
        _ => s.usz(200),
    };
    let mut pi = vec![];
    let mut i = index;
    for _ in 0..s.range(0, 4) + if s.bool() { depth_of((index as u64).min(u64::MAX - 1)) as u64 } else { 0 } {
        pi.push(match s.below(8) {
            0 => s.u64() as usize,
            1 => s.usz(50),
            _ => {
                if i % 2 == 1 {
                    i.wrapping_add(1)
                } else {
                    i.wrapping_sub(1)
                }
            }
        });
        i = i.wrapping_sub(1) / 2;
    }
    if s.bool() && index < usize::MAX {
        pi.truncate(depth_of(index as u64) as usize)
    }
    let mut ph: Vec<Option<H>> = pi.iter().map(|_| if s.bool() { Some(s.below(4) as H) } else { None }).collect();
    match s.below(10) {
        0 => ph.push(None),
        1 => {
            ph.pop();
        }
        _ => {}
    }
    let item = s.below(4);
    let root = match reference(F, index, item, &pi, &ph) {
        Some(Some(r)) if s.bool() => r,
        _ => s.u64() as H,
    };
    let p = Proof::<F> { index, item, peer_indices: pi, peer_hashes: ph, _hasher: Default::default(), _merger: Default::default() };
    judge::<F>(&p, root, "arbitrary proof", None, &[], ctx)
}
