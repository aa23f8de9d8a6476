use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_func(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
#[proc_macro]
pub fn initiate_protocol(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
