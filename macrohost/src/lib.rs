//! Only here so that cargo builds the two crates generated programs link against.
