//! Type-checking stand-in for `derive_builder` (not in the offline registry): generates only the
//! `<Name>Builder` type with a `Default` impl, which is all `puck_liveview` names.
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let mut name = None;
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            if i.to_string() == "struct" {
                if let Some(TokenTree::Ident(n)) = it.next() { name = Some(n.to_string()); }
                break;
            }
        }
    }
    let n = name.expect("Builder on a struct");
    format!("#[derive(Default)] #[allow(missing_debug_implementations)] pub struct {n}Builder {{ _private: () }}").parse().unwrap()
}
