//! Chain selection (C23), hash commitments (C27) and signatures (C28), compiled with stand-in
//! dependencies.
#[path = "../../../harness/src/core.rs"]
#[macro_use]
mod core;
#[path = "../../../harness/src/runner.rs"]
mod runner;
mod fork;
#[path = "../../common/gen.rs"]
mod gen;
mod hash;
mod sign;

fn facets() -> Vec<core::Facet> {
    let mut v = fork::facets();
    v.extend(hash::facets());
    v.extend(sign::facets());
    v
}
fn main() {
    runner::run(facets)
}
