//! Stand-in for `async_trait`: the traits it is used with have native `async fn`s here.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}
