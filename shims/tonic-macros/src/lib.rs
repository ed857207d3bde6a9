//! Stand-in: async functions in traits are native, nothing to rewrite.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}
