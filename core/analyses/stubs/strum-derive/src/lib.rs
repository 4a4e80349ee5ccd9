//! Derives the number of variants (`EnumCount`) and a list of them (`Enumerated`) of an enumeration without fields.
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn variants(input: TokenStream) -> (String, Vec<String>) {
    let (mut name, mut list, mut found) = (String::new(), vec![], false);
    for t in input {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => found = true,
            TokenTree::Ident(i) if found && name.is_empty() => name = i.to_string(),
            TokenTree::Group(g) if found && g.delimiter() == Delimiter::Brace => {
                let mut fresh = true;
                for t in g.stream() {
                    match t {
                        TokenTree::Ident(i) if fresh => {
                            list.push(i.to_string());
                            fresh = false;
                        }
                        TokenTree::Punct(p) if p.as_char() == ',' => fresh = true,
                        _ => (),
                    }
                }
            }
            _ => (),
        }
    }
    (name, list)
}

#[proc_macro_derive(EnumCount)]
pub fn count(input: TokenStream) -> TokenStream {
    let (name, list) = variants(input);
    format!("impl ::strum::EnumCount for {name} {{ const COUNT: usize = {}; }}", list.len()).parse().unwrap()
}

#[proc_macro_derive(Enumerated)]
pub fn enumerated(input: TokenStream) -> TokenStream {
    let (name, list) = variants(input);
    let all: String = list.iter().map(|v| format!("{name}::{v}, ")).collect();
    format!(
        "impl ::enum_collections::Enumerated for {name} {{
            const VARIANTS: &'static [Self] = &[{all}];
            fn position(self) -> usize {{ self as usize }}
        }}
        impl {name} {{ pub const SIZE: usize = {}; }}",
        list.len()
    )
    .parse()
    .unwrap()
}
