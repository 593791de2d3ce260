//! `#[derive(Equivalence)]` for the MPI model: messages are plain bytes.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Equivalence)]
pub fn equivalence(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            if i.to_string() == "struct" {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    return format!("unsafe impl ::mpi::datatype::Equivalence for {} {{}}", n).parse().unwrap();
                }
            }
        }
    }
    panic!("Equivalence: struct expected")
}
