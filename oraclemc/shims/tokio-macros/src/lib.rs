use proc_macro::{Ident, TokenStream, TokenTree};

/// `#[tokio::main]`: the function becomes `pub async fn oracle_main`, run by the explorer
#[proc_macro_attribute]
pub fn main(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = "#[allow(dead_code)] pub".parse::<TokenStream>().unwrap().into_iter().collect();
    let mut after_fn = false;
    let mut done = false;
    let mut attrs: Vec<TokenTree> = vec![];
    for t in item {
        match &t {
            TokenTree::Ident(i) if !done && i.to_string() == "pub" => continue,
            TokenTree::Ident(i) if !done && i.to_string() == "fn" => {
                after_fn = true;
                out.push(t);
            }
            TokenTree::Ident(i) if after_fn && !done => {
                done = true;
                out.push(TokenTree::Ident(Ident::new("oracle_main", i.span())));
            }
            TokenTree::Punct(p) if !after_fn && p.as_char() == '#' => attrs.push(t),
            TokenTree::Group(_) if !after_fn && !attrs.is_empty() => attrs.push(t),
            _ => out.push(t),
        }
    }
    attrs.extend(out);
    attrs.into_iter().collect()
}
