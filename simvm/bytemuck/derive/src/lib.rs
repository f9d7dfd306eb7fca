use proc_macro::{TokenStream, TokenTree};
fn name(t: TokenStream) -> String {
    let mut it = t.into_iter();
    while let Some(x) = it.next() {
        if matches!(&x, TokenTree::Ident(i) if i.to_string() == "struct") {
            return it.next().unwrap().to_string();
        }
    }
    panic!("not a struct")
}
#[proc_macro_derive(Zeroable)]
pub fn zeroable(t: TokenStream) -> TokenStream {
    format!("unsafe impl ::bytemuck::Zeroable for {} {{}}", name(t)).parse().unwrap()
}
#[proc_macro_derive(Pod)]
pub fn pod(t: TokenStream) -> TokenStream {
    format!("unsafe impl ::bytemuck::Pod for {} {{}}", name(t)).parse().unwrap()
}
