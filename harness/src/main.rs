//! vh: generated-input checks for the bin_prot stack of mina-rs.
mod alloc;
mod cli;
#[macro_use]
mod core;
mod dynde;
mod io;
mod loose;
mod model;
mod runner;
mod typed;
mod vers;
mod zoo;

use crate::core::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn facets() -> Vec<Facet> {
    let mut v = vec![];
    v.extend(typed::facets());
    v.extend(loose::facets());
    v.extend(vers::facets());
    v.extend(cli::facets());
    v
}

fn main() {
    runner::run(facets)
}
