//! Generator tape, runner and shrinker.
//!
//! Every random choice of a case is read from a byte tape. In a search the tape is produced by a
//! PRNG seeded from (VERIF_SEED, facet, case number); a failing tape is shrunk (delete, zero,
//! decrease) and stored; replay reads the stored tape. An exhausted tape reads as zeros, and zero
//! is the simplest choice everywhere.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xd1342543de82ef95));
    r.next()
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV based, stable across runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

pub struct Src {
    pub tape: Vec<u8>,
    pub pos: usize,
    rng: Option<Rng>,
}

/// Integers and strings mined from the source under test; they only steer generation.
pub struct Dict {
    pub ints: Vec<i128>,
    pub strs: Vec<String>,
}
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict { ints: vec![], strs: vec![] };
        if let Ok(p) = std::env::var("VH_DICT") {
            if let Ok(t) = std::fs::read_to_string(p) {
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                    for x in v["ints"].as_array().into_iter().flatten() {
                        if let Some(i) = x.as_i64() {
                            d.ints.push(i as i128)
                        } else if let Some(i) = x.as_u64() {
                            d.ints.push(i as i128)
                        }
                    }
                    for x in v["strs"].as_array().into_iter().flatten() {
                        if let Some(s) = x.as_str() {
                            d.strs.push(s.to_string())
                        }
                    }
                }
            }
        }
        d
    })
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u8>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    pub fn byte(&mut self) -> u8 {
        if self.pos >= self.tape.len() {
            match &mut self.rng {
                Some(r) => {
                    let v = r.next().to_le_bytes();
                    self.tape.extend_from_slice(&v);
                }
                None => {
                    self.pos += 1;
                    return 0;
                }
            }
        }
        let b = self.tape[self.pos];
        self.pos += 1;
        b
    }
    pub fn u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        for x in b.iter_mut() {
            *x = self.byte()
        }
        u64::from_le_bytes(b)
    }
    /// 0 <= x < n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if n <= 256 {
            // two bytes would be less biased, one is easier to shrink
            (self.byte() as u64) % n
        } else if n <= 65536 {
            (self.byte() as u64 | (self.byte() as u64) << 8) % n
        } else {
            self.u64() % n
        }
    }
    pub fn usz(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo <= x <= hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability about num/den; the zero tape gives false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usz(xs.len())]
    }
    /// An integer anywhere in i128's u64/i64 ranges, biased to small numbers, powers of two and
    /// constants that occur in the code.
    pub fn wide(&mut self) -> i128 {
        match self.below(8) {
            0 => self.below(256) as i128 - if self.bool() { 128 } else { 0 },
            1 | 2 | 3 => {
                let k = self.below(65);
                let base = 1i128 << k;
                let d = self.below(7) as i128 - 3;
                let v = base + d;
                if self.bool() {
                    -v
                } else {
                    v
                }
            }
            4 => {
                let ints = &dict().ints;
                if ints.is_empty() {
                    return self.below(65536) as i128;
                }
                let c = ints[self.usz(ints.len())];
                let d = self.below(5) as i128 - 2;
                if self.chance(1, 8) {
                    -(c + d)
                } else {
                    c + d
                }
            }
            5 => {
                let bits = self.below(64) + 1;
                let v = (self.u64() >> (64 - bits)) as i128;
                if self.bool() {
                    -v
                } else {
                    v
                }
            }
            6 => self.u64() as i64 as i128,
            _ => self.u64() as i128,
        }
    }
    /// An integer in [lo, hi], boundary biased.
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        match self.below(12) {
            0 => lo,
            1 => hi,
            _ => {
                let v = self.wide();
                if v >= lo && v <= hi {
                    v
                } else {
                    let span = (hi - lo + 1) as u128;
                    lo + ((v - lo).rem_euclid(span as i128))
                }
            }
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}

#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return Err($crate::core::Fail(format!($($t)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::core::Fail(format!($($t)*))) } } }

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub hash: u64,
    pub sample: Option<String>,
    pub known: Vec<(String, String)>,
    pub want_sample: bool,
    /// print details while replaying
    pub extra_evals: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &str) {
        if let Some(x) = self.labels.get_mut(l) {
            *x += 1
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn case(&mut self, hash: u64, nontrivial: bool) {
        self.hash = hash;
        self.nontrivial = nontrivial;
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.sample = Some(s)
        }
    }
    pub fn known(&mut self, key: &str, what: String) {
        self.known.push((key.to_string(), what))
    }
}

pub type FacetFn = fn(&mut Src, &mut Ctx) -> Res;
pub struct Facet {
    pub prop: &'static str,
    pub name: &'static str,
    /// cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub f: FacetFn,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}
/// Run code under test; a panic becomes Err(message).
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| Fail(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))))
}

/// run one tape; Err on failure
pub fn run_tape(f: &Facet, src: &mut Src, ctx: &mut Ctx) -> Res {
    match guard(|| (f.f)(src, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

#[derive(Default)]
pub struct Summary {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, String>,
    pub failure: Option<(u64, Vec<u8>, String)>,
}

pub const HANG_SECS: u64 = 40;

pub fn case_seed(seed: u64, facet: &Facet, idx: u64) -> u64 {
    mix(mix(seed, hash_of(&(facet.prop, facet.name))), idx)
}

/// Search `cases` cases on all cores. `progress` is told the case each thread is about to run, so
/// that a crash of the process can be traced back.
pub fn search(f: &Facet, seed: u64, cases: u64, threads: usize, progress: Option<&std::fs::File>) -> Summary {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Summary::default());
    let block = (cases / (threads as u64 * 16)).clamp(1, 256);
    let at: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let live = AtomicU64::new(threads as u64);
    std::thread::scope(|s| {
        // a case that does not come back ends the process; the progress file says which one it was
        {
            let (at, live) = (&at, &live);
            s.spawn(move || {
                let mut seen: Vec<(u64, std::time::Instant)> = at.iter().map(|_| (0, std::time::Instant::now())).collect();
                while live.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for (a, w) in at.iter().zip(seen.iter_mut()) {
                        let v = a.load(Ordering::Relaxed);
                        if v != w.0 || v == u64::MAX {
                            *w = (v, std::time::Instant::now());
                        } else if v != 0 && w.1.elapsed().as_secs() >= HANG_SECS {
                            eprintln!("watchdog: case {} of {} still runs after {HANG_SECS} s", v - 1, f.name);
                            std::process::exit(97);
                        }
                    }
                }
            });
        }
        for t in 0..threads {
            let (next, stop, total, at, live) = (&next, &stop, &total, &at[t], &live);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut sum = Summary::default();
                    let mut ctx = Ctx::default();
                    'outer: loop {
                        let b0 = next.fetch_add(block, Ordering::SeqCst);
                        if b0 >= cases || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        for idx in b0..(b0 + block).min(cases) {
                            at.store(idx + 1, Ordering::Relaxed);
                            if let Some(p) = progress {
                                use std::os::unix::fs::FileExt;
                                let _ = p.write_at(&(idx + 1).to_le_bytes(), 8 * t as u64);
                            }
                            let mut src = Src::random(case_seed(seed, f, idx));
                            ctx.nontrivial = false;
                            ctx.hash = 0;
                            ctx.sample = None;
                            ctx.extra_evals = 0;
                            ctx.want_sample = sum.samples.len() < 2 && idx % 7 == 3;
                            let r = run_tape(f, &mut src, &mut ctx);
                            sum.evaluations += 1 + ctx.extra_evals;
                            if ctx.nontrivial {
                                sum.distinct.insert(ctx.hash);
                                if let Some(s) = ctx.sample.take() {
                                    sum.samples.push(s)
                                }
                            }
                            if let Err(e) = r {
                                stop.store(true, Ordering::SeqCst);
                                src.tape.truncate(src.pos);
                                sum.failure = Some((idx, src.tape, e.0));
                                break 'outer;
                            }
                        }
                    }
                    at.store(u64::MAX, Ordering::Relaxed);
                    live.fetch_sub(1, Ordering::SeqCst);
                    if let Some(p) = progress {
                        use std::os::unix::fs::FileExt;
                        let _ = p.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                    }
                    let mut g = total.lock().unwrap();
                    g.evaluations += sum.evaluations;
                    g.distinct.extend(sum.distinct);
                    for (k, v) in std::mem::take(&mut ctx.labels) {
                        *g.labels.entry(k).or_default() += v
                    }
                    g.samples.extend(sum.samples);
                    for (k, v) in ctx.known.drain(..) {
                        g.known.entry(k).or_insert(v);
                    }
                    if let Some(x) = sum.failure {
                        if g.failure.as_ref().map_or(true, |y| x.0 < y.0) {
                            g.failure = Some(x)
                        }
                    }
                })
                .unwrap();
        }
    });
    total.into_inner().unwrap()
}

/// Generic tape shrinker; `bad` says whether a tape still fails.
pub fn shrink<F: FnMut(&[u8]) -> Option<String>>(mut tape: Vec<u8>, mut msg: String, budget: usize, mut bad: F) -> (Vec<u8>, String) {
    let mut used = 0;
    let mut improved = true;
    while improved && used < budget {
        improved = false;
        // delete chunks
        let mut size = tape.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < tape.len() && used < budget {
                let mut c = tape.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                used += 1;
                if let Some(m) = bad(&c) {
                    tape = c;
                    msg = m;
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = tape.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < tape.len() && used < budget {
                let end = (i + size).min(tape.len());
                if tape[i..end].iter().any(|b| *b != 0) {
                    let mut c = tape.clone();
                    for b in &mut c[i..end] {
                        *b = 0
                    }
                    used += 1;
                    if let Some(m) = bad(&c) {
                        tape = c;
                        msg = m;
                        improved = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // decrease bytes
        for i in 0..tape.len() {
            for new in [tape[i] / 2, tape[i].wrapping_sub(1)] {
                if i < tape.len() && new < tape[i] && used < budget {
                    let mut c = tape.clone();
                    c[i] = new;
                    used += 1;
                    if let Some(m) = bad(&c) {
                        tape = c;
                        msg = m;
                        improved = true;
                    }
                }
            }
        }
        while tape.last() == Some(&0) {
            let mut c = tape.clone();
            c.pop();
            if let Some(m) = bad(&c) {
                tape = c;
                msg = m;
            } else {
                break;
            }
        }
    }
    (tape, msg)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn hex_full(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
