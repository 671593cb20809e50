//! `dynpath::wrap!`: `#[dynpath("VAR", "file")]` becomes `#[path = "<value of VAR>/file"]`.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro]
pub fn wrap(input: TokenStream) -> TokenStream {
    input
        .into_iter()
        .map(|t| match &t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match &inner[..] {
                    [TokenTree::Ident(n), TokenTree::Group(a)] if n.to_string() == "dynpath" => {
                        let lits: Vec<String> = a.stream().into_iter().filter_map(|t| match t {
                            TokenTree::Literal(l) => Some(l.to_string().trim_matches('"').to_string()),
                            _ => None,
                        }).collect();
                        let dir = std::env::var(&lits[0]).expect("the variable of dynpath");
                        let s: TokenStream = format!("path = {:?}", format!("{dir}/{}", lits[1])).parse().unwrap();
                        TokenTree::Group(Group::new(Delimiter::Bracket, s))
                    }
                    _ => t,
                }
            }
            _ => t,
        })
        .collect()
}
