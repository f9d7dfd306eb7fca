//! The trait of the stand-in declares its methods as returning futures, so nothing needs rewriting.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
