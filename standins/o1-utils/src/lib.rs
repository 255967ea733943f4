//! Stand-in for o1-utils: FieldHelpers.
pub mod field_helpers;
pub use field_helpers::{FieldHelpers, FieldHelpersError};
