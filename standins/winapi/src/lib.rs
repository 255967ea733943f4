//! Resolver stand-in only.
