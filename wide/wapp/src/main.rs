//! The web node and the tools around it: the requests of the web node (C33), the network backends
//! (C34), the blocks crawler (C35), the p2p transport (C36) and the node status stream (C37),
//! compiled with stand-in dependencies.
#[path = "../../../harness/src/core.rs"]
#[macro_use]
mod core;
#[path = "../../../harness/src/runner.rs"]
mod runner;
#[path = "../../wconv/src/conv.rs"]
mod conv;
#[path = "../../wchain/src/fork.rs"]
mod fork;
#[path = "../../wnode/src/frontier.rs"]
mod frontier;
#[path = "../../common/gen.rs"]
mod gen;
#[path = "../../wchain/src/hash.rs"]
mod hash;
#[path = "../../wconv/src/human.rs"]
mod human;
#[path = "../../wconv/src/malformed.rs"]
mod malformed;
#[path = "../../wchain/src/sign.rs"]
mod sign;
#[path = "../../wconv/src/text.rs"]
mod text;
#[path = "../../wconv/src/tree.rs"]
mod tree;
mod backend;
mod crawler;
mod gql;
mod net;
mod req;
mod stream;
mod web;
use mina_network::processor;

fn facets() -> Vec<core::Facet> {
    // the exports of the two web nodes are only there when they are linked
    let _ = (mina_berkeley::js_exports::init_logger as usize, mina_rs_wasm_mvp::js_exports::init_logger as usize);
    let mut v = req::facets();
    v.extend(backend::facets());
    v.extend(stream::facets());
    v.extend(crawler::facets());
    v.extend(web::facets());
    v
}
fn main() {
    let node = std::env::args().nth(1).filter(|a| a.starts_with("web-node"));
    if let Some(k) = node {
        let _ = facets();
        return web::process(k != "web-node");
    }
    runner::run(facets)
}
