//! The parts around the node: wallets (C31), genesis ledgers (C32), the message processor (C29)
//! and the naive transition frontier (C30), compiled with stand-in dependencies.
#[path = "../../../harness/src/core.rs"]
#[macro_use]
mod core;
#[path = "../../../harness/src/runner.rs"]
mod runner;
#[path = "../../wconv/src/conv.rs"]
mod conv;
#[path = "../../wchain/src/fork.rs"]
mod fork;
mod frontier;
#[path = "../../common/gen.rs"]
mod gen;
#[path = "../../wchain/src/hash.rs"]
mod hash;
#[path = "../../wconv/src/human.rs"]
mod human;
mod ledger;
#[path = "../../wconv/src/malformed.rs"]
mod malformed;
mod net;
/// The repository's module, without the crate around it (which needs libp2p).
#[path = "/repo/network/src/processor/mod.rs"]
mod processor;
#[path = "../../wchain/src/sign.rs"]
mod sign;
#[path = "../../wconv/src/text.rs"]
mod text;
#[path = "../../wconv/src/tree.rs"]
mod tree;
mod wallet;

fn facets() -> Vec<core::Facet> {
    let mut v = wallet::facets();
    v.extend(ledger::facets());
    v.extend(net::facets());
    v.extend(frontier::facets());
    v
}
fn main() {
    runner::run(facets)
}
