//! Resolver stand-in only: used on wasm targets.
