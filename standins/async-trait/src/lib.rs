//! Stand-in for async-trait: the compiler has async functions in traits, so the item is left as it is.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
