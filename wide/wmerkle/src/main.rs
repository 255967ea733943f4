//! Merkle trees and proofs (C21, C22) of the `mina-merkle` crate, compiled with stand-in
//! dependencies.
#[path = "../../../harness/src/core.rs"]
#[macro_use]
mod core;
#[path = "../../../harness/src/runner.rs"]
mod runner;
mod poseidon;
mod proofs;
mod trees;

fn facets() -> Vec<core::Facet> {
    let mut v = trees::facets();
    v.extend(proofs::facets());
    v.extend(poseidon::facets());
    v
}
fn main() {
    runner::run(facets)
}
