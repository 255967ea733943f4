//! C29: the message processor under generated schedules. Mock frontiers and networks log what
//! reaches them; a small executor decides, from the tape, which runnable task goes next.
use crate::core::*;
use crate::processor::{NetworkMessageProcessor, NonConsensusNetworkingOps, QueryBlockRequest, TransitionFrontier};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::sync::mpsc;

pub fn facets() -> Vec<Facet> {
    vec![Facet { prop: "C29", name: "schedule", quick: 400_000, thorough: 20_000_000, f: schedule, rule: "1-3 peers sending 0-6 blocks each, blocks that do not convert, that are refused or that need up to three queries, queries that fail or bring up to two blocks, tasks reading or polling either side, under a generated schedule; non-trivial: at least two blocks and one failure, query or guard" }]
}

// ------------------------------------------------------------------ executor

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
type Task = Pin<Box<dyn Future<Output = ()>>>;
#[derive(Clone, Default)]
struct Spawn(Rc<RefCell<Vec<(String, Task)>>>);
impl Spawn {
    fn task(&self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) {
        self.0.borrow_mut().push((name.into(), Box::pin(f)))
    }
}
/// Gives way `n` times.
async fn pause(n: u64) {
    let mut left = n;
    std::future::poll_fn(move |cx| {
        if left == 0 {
            return Poll::Ready(());
        }
        left -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

/// Runs until nothing can move; the names of the tasks that are not done.
fn drive(s: &mut Src, spawn: &Spawn, tasks: &mut Vec<(String, Task, Arc<Flag>)>, steps: &mut u64) -> Result<Vec<String>, Fail> {
    let mut last = 0;
    loop {
        for (n, t) in spawn.0.borrow_mut().drain(..) {
            tasks.push((n, t, Arc::new(Flag(AtomicBool::new(true)))));
        }
        let ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].2 .0.load(Ordering::SeqCst)).collect();
        if ready.is_empty() {
            return Ok(tasks.iter().map(|t| t.0.clone()).collect());
        }
        *steps += 1;
        ensure!(*steps < 200_000, "the processor does not come to rest");
        // a zero tape goes on with the task that ran last
        let i = match s.below(4) {
            0 if ready.contains(&last) => last,
            _ => ready[s.usz(ready.len())],
        };
        // being polled for no reason is allowed
        let i = if s.chance(1, 12) { s.usz(tasks.len()) } else { i };
        last = i;
        tasks[i].2 .0.store(false, Ordering::SeqCst);
        let w = Waker::from(tasks[i].2.clone());
        let mut cx = Context::from_waker(&w);
        if tasks[i].1.as_mut().poll(&mut cx).is_ready() {
            drop(tasks.remove(i));
            last = 0;
        }
    }
}

// ------------------------------------------------------------------ world

#[derive(Clone, Debug, Hash)]
struct Plan {
    /// the block does not convert
    broken: bool,
    /// the frontier refuses it
    refuse: bool,
    /// what the frontier asks for because of it
    queries: Vec<Query>,
    pause: u64,
}
#[derive(Clone, Debug, Hash)]
struct Query {
    id: usize,
    fail: bool,
    pause: u64,
    /// the blocks that the network sends back
    brings: Vec<(usize, Plan)>,
}
struct Net {
    id: usize,
    plan: Plan,
}
struct Block {
    id: usize,
    plan: Plan,
}
impl TryFrom<Net> for Block {
    type Error = String;
    fn try_from(b: Net) -> Result<Self, String> {
        if b.plan.broken {
            Err(format!("block {} does not convert", b.id))
        } else {
            Ok(Block { id: b.id, plan: b.plan })
        }
    }
}
#[derive(Default)]
struct World {
    added: RefCell<Vec<usize>>,
    asked: RefCell<Vec<(usize, String)>>,
    queries: RefCell<BTreeMap<usize, Query>>,
    in_frontier: Cell<bool>,
    in_network: Cell<bool>,
    overlap: Cell<bool>,
    requester: RefCell<Option<mpsc::Sender<QueryBlockRequest>>>,
}

struct Frontier {
    w: Rc<World>,
    spawn: Spawn,
    inline: bool,
}
impl TransitionFrontier for Frontier {
    type Block = Block;
    async fn add_block(&mut self, b: Block) -> anyhow::Result<()> {
        if self.w.in_frontier.replace(true) {
            self.w.overlap.set(true)
        }
        self.w.added.borrow_mut().push(b.id);
        pause(b.plan.pause).await;
        for q in b.plan.queries {
            let r = QueryBlockRequest { height: q.id, state_hash: format!("hash {}", q.id) };
            let pause_before = q.pause;
            self.w.queries.borrow_mut().insert(q.id, q);
            let to = self.w.requester.borrow().clone().expect("the frontier has no requester");
            if self.inline {
                let _ = to.send(r).await;
            } else {
                self.spawn.task("request", async move {
                    pause(pause_before).await;
                    let _ = to.send(r).await;
                });
            }
        }
        self.w.in_frontier.set(false);
        if b.plan.refuse {
            anyhow::bail!("block {} is refused", b.id)
        }
        Ok(())
    }
    fn set_block_requester(&mut self, sender: mpsc::Sender<QueryBlockRequest>) {
        *self.w.requester.borrow_mut() = Some(sender)
    }
}
struct Network {
    w: Rc<World>,
    spawn: Spawn,
    inline: bool,
    to: Rc<RefCell<Option<mpsc::Sender<Net>>>>,
}
impl NonConsensusNetworkingOps for Network {
    type Block = Net;
    fn set_block_responder(&mut self, sender: mpsc::Sender<Net>) {
        *self.to.borrow_mut() = Some(sender)
    }
    async fn query_block(&mut self, r: &QueryBlockRequest) -> anyhow::Result<()> {
        if self.w.in_network.replace(true) {
            self.w.overlap.set(true)
        }
        self.w.asked.borrow_mut().push((r.height, r.state_hash.clone()));
        let q = self.w.queries.borrow_mut().remove(&r.height);
        let Some(q) = q else {
            self.w.in_network.set(false);
            return Ok(());
        };
        pause(q.pause).await;
        for (id, plan) in q.brings {
            let to = self.to.borrow().clone().expect("the network has no responder");
            if self.inline {
                let _ = to.send(Net { id, plan }).await;
            } else {
                self.spawn.task("response", async move {
                    let _ = to.send(Net { id, plan }).await;
                });
            }
        }
        self.w.in_network.set(false);
        if q.fail {
            anyhow::bail!("query {} fails", q.id)
        }
        Ok(())
    }
}

struct Ids(usize);
fn plan(s: &mut Src, ids: &mut Ids, depth: u64) -> (usize, Plan) {
    ids.0 += 1;
    let id = ids.0;
    let broken = s.chance(1, 4);
    let n = if depth == 0 || broken { 0 } else { *s.pick(&[0, 0, 0, 1, 1, 2, 3]) };
    let queries = (0..n)
        .map(|_| {
            ids.0 += 1;
            let id = ids.0;
            let k = *s.pick(&[0, 0, 1, 1, 2]);
            Query { id, fail: s.chance(1, 4), pause: *s.pick(&[0, 0, 1, 3]), brings: (0..k).map(|_| plan(s, ids, depth - 1)).collect() }
        })
        .collect();
    (id, Plan { broken, refuse: s.chance(1, 4), queries, pause: *s.pick(&[0, 0, 0, 1, 2, 5]) })
}
/// what has to happen because of a block: converted blocks, queries, all blocks
fn expect(id: usize, p: &Plan, add: &mut Vec<usize>, ask: &mut Vec<usize>, all: &mut usize) {
    *all += 1;
    if p.broken {
        return;
    }
    add.push(id);
    for q in &p.queries {
        ask.push(q.id);
        for (i, b) in &q.brings {
            expect(*i, b, add, ask, all)
        }
    }
}

fn schedule(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut ids = Ids(0);
    let peers: Vec<Vec<(usize, Plan)>> = (0..s.range(1, 3)).map(|_| (0..s.below(7)).map(|_| plan(s, &mut ids, 2)).collect()).collect();
    // a frontier that waits for room for its queries and a network that waits for room for its
    // blocks may wait for each other: at most one of the two does
    let (inline_q, inline_b) = *s.pick(&[(false, false), (true, false), (false, true)]);
    let guards: Vec<u64> = (0..s.below(4)).map(|_| s.below(4)).collect();
    let w = Rc::new(World::default());
    let spawn = Spawn::default();
    let (mut add, mut ask, mut all) = (vec![], vec![], 0);
    for (i, p) in peers.iter().flatten() {
        expect(*i, p, &mut add, &mut ask, &mut all);
    }
    let shape = format!("peers {peers:?}, queries {}, blocks {}, guards {guards:?}", if inline_q { "sent in place" } else { "sent by tasks" }, if inline_b { "sent in place" } else { "sent by tasks" });
    ctx.case(hash_of(&(&shape, s.u64())), all >= 2 && (all > add.len() || !ask.is_empty() || !guards.is_empty()));
    let to = Rc::new(RefCell::new(None));
    let f = Frontier { w: w.clone(), spawn: spawn.clone(), inline: inline_q };
    let n = Network { w: w.clone(), spawn: spawn.clone(), inline: inline_b, to: to.clone() };
    let p = Rc::new(NetworkMessageProcessor::<Net, Block, Frontier, Network>::new(f, n));
    ensure!(to.borrow().is_some(), "the network is not given a responder");
    ensure!(w.requester.borrow().is_some(), "the frontier is not given a requester");
    for (k, blocks) in peers.iter().enumerate() {
        let tx = to.borrow().clone().unwrap();
        let blocks = blocks.clone();
        let gaps: Vec<u64> = blocks.iter().map(|_| *s.pick(&[0, 0, 1, 4])).collect();
        spawn.task(format!("peer {k}"), async move {
            for ((id, plan), g) in blocks.into_iter().zip(gaps) {
                pause(g).await;
                if tx.send(Net { id, plan }).await.is_err() {
                    return;
                }
            }
        });
    }
    {
        let p = p.clone();
        spawn.task("processor", async move { p.run().await });
    }
    for (k, g) in guards.iter().enumerate() {
        let (p, w, g) = (p.clone(), w.clone(), *g);
        let (a, b) = (s.below(12), s.below(4));
        spawn.task(format!("guard {k}"), async move {
            pause(a).await;
            match g {
                0 | 1 => {
                    let f = p.transition_frontier().await;
                    for _ in 0..=b {
                        if w.in_frontier.get() {
                            w.overlap.set(true)
                        }
                        pause(1).await;
                    }
                    drop(f);
                }
                2 => {
                    let n = p.nonconsensus_ops().await;
                    for _ in 0..=b {
                        if w.in_network.get() {
                            w.overlap.set(true)
                        }
                        pause(1).await;
                    }
                    drop(n);
                }
                _ => {
                    let n = p.nonconsensus_ops_mut().await;
                    for _ in 0..=b {
                        if w.in_network.get() {
                            w.overlap.set(true)
                        }
                        pause(1).await;
                    }
                    drop(n);
                }
            }
        });
    }
    let mut steps = 0;
    let mut tasks = vec![];
    let rest = guard(|| drive(s, &spawn, &mut tasks, &mut steps))??;
    ctx.label(if ask.is_empty() { "no queries" } else { "queries" });
    ctx.label(if all > add.len() { "some do not convert" } else { "all convert" });
    let (added, asked) = (w.added.borrow().clone(), w.asked.borrow().clone());
    let log = || format!("blocks added {added:?}, queries {:?}; {shape}", asked.iter().map(|a| a.0).collect::<Vec<_>>());
    ensure!(!w.overlap.get(), "two users of one side at the same time: {}", log());
    ensure!(rest.iter().all(|r| r == "processor"), "{:?} wait forever: {}", rest.iter().filter(|r| *r != "processor").collect::<Vec<_>>(), log());
    ensure!(rest.len() == 1, "the processor stops although both sides may still send: {}", log());
    let mut got = added.clone();
    got.sort();
    add.sort();
    ensure!(got == add, "the frontier gets the blocks {got:?}, not {add:?}: {}", log());
    let mut got: Vec<usize> = asked.iter().map(|a| a.0).collect();
    got.sort();
    ask.sort();
    ensure!(got == ask, "the network gets the queries {got:?}, not {ask:?}: {}", log());
    ensure!(asked.iter().all(|(i, h)| *h == format!("hash {i}")), "a query changed on its way: {asked:?}");
    // order: every peer's blocks as it sent them; the queries of a block in their order
    for p in &peers {
        let sent: Vec<usize> = p.iter().filter(|(_, p)| !p.broken).map(|(i, _)| *i).collect();
        let seen: Vec<usize> = added.iter().copied().filter(|i| sent.contains(i)).collect();
        ensure!(sent == seen, "a peer's blocks {sent:?} reach the frontier as {seen:?}: {}", log());
    }
    if inline_q {
        // queries are answered in the order in which the frontier makes them: block by block
        let mut plans = BTreeMap::new();
        fn index<'a>(id: usize, p: &'a Plan, m: &mut BTreeMap<usize, &'a Plan>) {
            m.insert(id, p);
            for q in &p.queries {
                for (i, b) in &q.brings {
                    index(*i, b, m)
                }
            }
        }
        for (i, p) in peers.iter().flatten() {
            index(*i, p, &mut plans)
        }
        let want: Vec<usize> = added.iter().flat_map(|b| plans[b].queries.iter().map(|q| q.id)).collect();
        let got: Vec<usize> = asked.iter().map(|a| a.0).collect();
        ensure!(got == want, "queries made in the order {want:?} reach the network as {got:?}: {}", log());
    }
    // one side hangs up, the other still works; then both have, and the processor comes to its end
    let blocks_first = s.bool();
    if blocks_first {
        to.borrow_mut().take();
        let tx = w.requester.borrow().clone().unwrap();
        spawn.task("late query", async move {
            let _ = tx.send(QueryBlockRequest { height: 0, state_hash: "late".into() }).await;
        });
    } else {
        w.requester.borrow_mut().take();
        let tx = to.borrow().clone().unwrap();
        spawn.task("late block", async move {
            let _ = tx.send(Net { id: 0, plan: Plan { broken: false, refuse: false, queries: vec![], pause: 1 } }).await;
        });
    }
    let rest = guard(|| drive(s, &spawn, &mut tasks, &mut steps))??;
    ensure!(rest == ["processor"], "{rest:?} left after the {} hung up: {}", if blocks_first { "network" } else { "frontier" }, log());
    if blocks_first {
        ensure!(w.asked.borrow().last() == Some(&(0, "late".into())), "no query is served after the network hung up: {}", log());
    } else {
        ensure!(w.added.borrow().last() == Some(&0), "no block is taken after the frontier hung up: {}", log());
    }
    to.borrow_mut().take();
    w.requester.borrow_mut().take();
    let rest = guard(|| drive(s, &spawn, &mut tasks, &mut steps))??;
    ensure!(rest.is_empty(), "the processor does not end when both sides hung up: {}", log());
    ctx.sample(|| format!("{steps} steps, {}", log()));
    Ok(())
}
