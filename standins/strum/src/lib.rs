//! Stand-in for strum 0.24: `EnumString` over unit variants (exact variant name).
pub use strum_macros_standin::EnumString;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum ParseError {
    VariantNotFound,
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Matching variant not found")
    }
}
impl std::error::Error for ParseError {}
