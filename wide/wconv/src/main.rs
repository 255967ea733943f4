//! Human-readable forms (C24), the wire/domain/JSON conversions (C25) and malformed external input
//! (C26), compiled with stand-in dependencies.
#[path = "../../../harness/src/core.rs"]
#[macro_use]
mod core;
#[path = "../../../harness/src/runner.rs"]
mod runner;
#[path = "../../common/gen.rs"]
mod gen;
mod conv;
mod human;
mod malformed;
mod text;
mod tree;

fn facets() -> Vec<core::Facet> {
    let mut v = human::facets();
    v.extend(conv::facets());
    v.extend(malformed::facets());
    v
}
fn main() {
    runner::run(facets)
}
