use crate::core::*;
use mina_merkle::*;

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C21", name: "history", quick: 1_200_000, thorough: 24_000_000, f: history, rule: "random sequence of add, add_batch, root, get_proof on a variable or fixed height tree with one of eight hash families; non-trivial: at least one root after a change that followed a root" },
        Facet { prop: "C21", name: "large", quick: 20_000, thorough: 400_000, f: large, rule: "up to 6000 leaves in batches around powers of two, root compared after every batch; all non-trivial" },
        Facet { prop: "C21", name: "metadata", quick: 1_000_000, thorough: 20_000_000, f: metadata, rule: "node index up to 2^52 around powers of two; depth and height against integer arithmetic; non-trivial: index > 2" },
    ]
}

pub type H = u128;
pub fn h(tag: u64, parts: &[u128]) -> H {
    let mut a = mix(tag, 0x1234);
    let mut b = mix(tag, 0x9876);
    for p in parts {
        for w in [*p as u64, (*p >> 64) as u64] {
            a = mix(a, w);
            b = mix(b.rotate_left(17), w ^ a);
        }
    }
    (a as u128) << 64 | b as u128
}

/// Bits of F: 1 the hash depends on depth, 2 on height, 4 two absent children give an absent
/// parent, 8 an absent right child passes the left one on, 16 merging fails when the left child's
/// hash is odd and the right one is absent.
pub struct Fam<const F: u8>;
pub trait Family {
    const F: u8;
}
impl<const F: u8> Family for Fam<F> {
    const F: u8 = F;
}
pub fn leaf(f: u8, item: u64, depth: u32, height: u32) -> H {
    h(1, &[item as u128, if f & 1 != 0 { depth as u128 } else { 0 }, if f & 2 != 0 { height as u128 } else { 0 }])
}
pub fn node(f: u8, c: [Option<H>; 2], depth: u32, height: u32) -> Option<H> {
    if f & 4 != 0 && c[0].is_none() && c[1].is_none() {
        return None;
    }
    if let (Some(l), None) = (c[0], c[1]) {
        if f & 16 != 0 && l & 1 == 1 {
            return None;
        }
        if f & 8 != 0 {
            return Some(l);
        }
    }
    let o = |x: Option<H>| -> [u128; 2] { [x.is_some() as u128, x.unwrap_or(0)] };
    let (l, r) = (o(c[0]), o(c[1]));
    Some(h(2, &[l[0], l[1], r[0], r[1], if f & 1 != 0 { depth as u128 } else { 0 }, if f & 2 != 0 { height as u128 } else { 0 }]))
}
impl<const F: u8> MerkleHasher for Fam<F> {
    type Item = u64;
    type Hash = H;
    fn hash(item: &u64, m: MerkleTreeNodeMetadata) -> H {
        leaf(F, *item, m.depth(), m.height())
    }
}
impl<const F: u8> MerkleMerger for Fam<F> {
    type Hash = H;
    fn merge(c: [Option<H>; 2], m: MerkleTreeNodeMetadata) -> Option<H> {
        node(F, c, m.depth(), m.height())
    }
}

/// Height of the smallest complete tree that holds n leaves.
pub fn height_for(n: usize) -> u32 {
    let mut k = 0;
    while (1usize << k) < n {
        k += 1
    }
    k
}

/// Root from scratch. The complete tree over the leaves sits at the left edge of the tree of the
/// fixed height; to its right nothing exists.
pub fn model_root(f: u8, items: &[u64], fixed: Option<u32>) -> Option<H> {
    if items.is_empty() && fixed.map_or(true, |x| x == 0) {
        return None;
    }
    let v = height_for(items.len());
    let total = fixed.unwrap_or(v);
    let mut row: Vec<Option<H>> = (0..1usize << v).map(|i| items.get(i).map(|x| leaf(f, *x, total, 0))).collect();
    for height in 1..=v {
        row = row.chunks(2).map(|c| node(f, [c[0], c[1]], total - height, height)).collect();
    }
    let mut r = row[0];
    for height in v + 1..=total {
        r = node(f, [r, None], total - height, height);
    }
    r
}

pub enum Tree<const F: u8> {
    V(MinaMerkleTree<u64, H, Fam<F>, Fam<F>, VariableHeightMode>),
    X(MinaMerkleTree<u64, H, Fam<F>, Fam<F>, FixedHeightMode>, u32),
}
impl<const F: u8> Tree<F> {
    pub fn fixed(&self) -> Option<u32> {
        match self {
            Tree::V(_) => None,
            Tree::X(_, h) => Some(*h),
        }
    }
    pub fn root(&mut self) -> Option<H> {
        match self {
            Tree::V(t) => t.root(),
            Tree::X(t, _) => t.root(),
        }
    }
    pub fn height(&self) -> u32 {
        match self {
            Tree::V(t) => t.height(),
            Tree::X(t, _) => t.height(),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Tree::V(t) => t.count(),
            Tree::X(t, _) => t.count(),
        }
    }
    pub fn add(&mut self, i: u64) {
        match self {
            Tree::V(t) => t.add(i),
            Tree::X(t, _) => t.add(i),
        }
    }
    pub fn add_batch(&mut self, i: Vec<u64>) {
        match self {
            Tree::V(t) => t.add_batch(i),
            Tree::X(t, _) => t.add_batch(i),
        }
    }
    pub fn proof(&mut self, i: usize) -> Option<DefaultMerkleProof<u64, H, Fam<F>, Fam<F>>> {
        match self {
            Tree::V(t) => t.get_proof(i),
            Tree::X(t, _) => t.get_proof(i),
        }
    }
    pub fn make(s: &mut Src) -> Self {
        match s.below(4) {
            0 => Tree::V(MinaMerkleTree::<_, _, _, _, VariableHeightMode>::new()),
            1 => Tree::V(MinaMerkleTree::with_capacity(s.usz(70))),
            _ => {
                let h = if s.chance(1, 4) { s.range(0, 40) } else { s.range(0, 9) } as u32;
                Tree::X(MinaMerkleTree::<_, _, _, _, FixedHeightMode>::new(h), h)
            }
        }
    }
    pub fn room(&self) -> usize {
        self.fixed().map_or(usize::MAX, |h| if h < 40 { (1usize << h) - self.count() } else { usize::MAX })
    }
}

fn history(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(8) {
        0 => history_of::<0>(s, ctx),
        1 => history_of::<3>(s, ctx),
        2 => history_of::<4>(s, ctx),
        3 => history_of::<7>(s, ctx),
        4 => history_of::<12>(s, ctx),
        5 => history_of::<15>(s, ctx),
        6 => history_of::<20>(s, ctx),
        _ => history_of::<19>(s, ctx),
    }
}

fn history_of<const F: u8>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = Tree::<F>::make(s);
    let mut items: Vec<u64> = vec![];
    let mut log = format!("family {F}, fixed height {:?}:", t.fixed());
    let (mut rooted, mut changed_after_root, mut interesting) = (false, false, false);
    let n = s.range(1, 14);
    for step in 0..=n {
        let op = if step == n { 3 } else { s.below(8) };
        match op {
            0 | 1 => {
                if t.room() == 0 {
                    continue;
                }
                let x = s.below(6);
                log += &format!(" add {x}");
                guard(|| t.add(x)).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
                items.push(x);
                changed_after_root |= rooted;
            }
            2 => {
                let cap = if s.chance(1, 6) { 40 } else { 6 };
                let k = s.usz(cap).min(t.room());
                let b: Vec<u64> = (0..k).map(|_| s.below(6)).collect();
                log += &format!(" add_batch {b:?}");
                guard(|| t.add_batch(b.clone())).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
                items.extend(b);
                changed_after_root |= rooted && k > 0;
            }
            3 | 4 | 5 | 6 => {
                log += " root";
                let want = model_root(F, &items, t.fixed());
                let got = guard(|| t.root()).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
                ensure!(got == want, "{log}: root {got:x?}, from the leaves {items:?} it is {want:x?}");
                rooted = true;
                interesting |= changed_after_root;
            }
            _ => {
                if items.is_empty() {
                    continue;
                }
                let i = s.usz(items.len());
                log += &format!(" get_proof {i}");
                guard(|| {
                    t.proof(i);
                })
                .map_err(|e| Fail(format!("{log}: {}", e.0)))?;
                rooted = true;
            }
        }
        ensure!(t.count() == items.len(), "{log}: count {} for {} leaves", t.count(), items.len());
        let wh = t.fixed().unwrap_or(height_for(items.len()));
        ensure!(t.height() == wh, "{log}: height {} instead of {wh}", t.height());
    }
    ctx.label(&format!("family {F}"));
    ctx.label(if t.fixed().is_some() { "fixed height" } else { "variable height" });
    ctx.case(hash_of(&log), interesting);
    ctx.sample(|| log);
    Ok(())
}

fn large(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.bool() {
        large_of::<7>(s, ctx)
    } else {
        large_of::<0>(s, ctx)
    }
}
fn large_of<const F: u8>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fixed = s.bool();
    let mut t = if fixed {
        let h = s.range(13, 35) as u32;
        Tree::<F>::X(MinaMerkleTree::<_, _, _, _, FixedHeightMode>::new(h), h)
    } else {
        Tree::<F>::V(MinaMerkleTree::<_, _, _, _, VariableHeightMode>::new())
    };
    let mut items: Vec<u64> = vec![];
    let mut log = format!("family {F}, fixed height {:?}, leaves after each batch:", t.fixed());
    let seed = s.u64();
    for _ in 0..s.range(1, 4) {
        let target = match s.below(3) {
            0 => items.len() + s.usz(50),
            1 => ((1usize << s.range(4, 12)) + s.usz(5)).saturating_sub(2).max(items.len()),
            _ => (items.len() + s.usz(3000)).min(6000),
        };
        let b: Vec<u64> = (items.len()..target).map(|i| mix(seed, i as u64)).collect();
        log += &format!(" {target}");
        guard(|| t.add_batch(b.clone())).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
        items.extend(b);
        let want = model_root(F, &items, t.fixed());
        let got = guard(|| t.root()).map_err(|e| Fail(format!("{log}: {}", e.0)))?;
        ensure!(got == want, "{log}: root {got:x?} instead of {want:x?}");
        ensure!(t.count() == items.len() && t.height() == t.fixed().unwrap_or(height_for(items.len())), "{log}: count {} height {}", t.count(), t.height());
    }
    ctx.case(hash_of(&(log.clone(), seed)), true);
    ctx.sample(|| log);
    Ok(())
}

fn metadata(s: &mut Src, ctx: &mut Ctx) -> Res {
    let idx = match s.below(3) {
        0 => s.usz(4096),
        1 => ((1u64 << s.range(0, 52)) + s.below(5)).saturating_sub(3) as usize,
        _ => (s.u64() >> s.range(12, 63)) as usize,
    };
    let depth = 63 - ((idx as u64) + 1).leading_zeros();
    let height = depth + s.below(40) as u32;
    let m = guard(|| MerkleTreeNodeMetadata::new(idx, height))?;
    ensure!(m.depth() == depth, "node {idx}: depth {} instead of {depth}", m.depth());
    ensure!(m.height() == height - depth, "node {idx} in a tree of height {height}: height {} instead of {}", m.height(), height - depth);
    ctx.case(hash_of(&(idx, height)), idx > 2);
    ctx.sample(|| format!("node {idx}, tree height {height}"));
    Ok(())
}
