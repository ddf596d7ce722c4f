//! Stand-in for the num_enum crate, which is not available offline: derives
//! TryFrom<u32> for a field-less enum.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(TryFromPrimitive)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut body = None;
    let mut after_enum = false;
    for t in input {
        match t {
            TokenTree::Ident(i) if i.to_string() == "enum" => after_enum = true,
            TokenTree::Ident(i) if after_enum && name.is_empty() => name = i.to_string(),
            TokenTree::Group(g) if after_enum => body = Some(g.stream()),
            _ => {}
        }
    }
    // every variant is "Name = value ,"
    let mut arms = String::new();
    let (mut variant, mut value, mut eq) = (String::new(), String::new(), false);
    let mut flush = |variant: &mut String, value: &mut String, eq: &mut bool| {
        if !variant.is_empty() {
            arms.push_str(&format!("x if x == ({name}::{variant} as u32) => Ok({name}::{variant}),"));
        }
        variant.clear();
        value.clear();
        *eq = false;
    };
    for t in body.expect("enum body") {
        match t {
            TokenTree::Punct(p) if p.as_char() == ',' => flush(&mut variant, &mut value, &mut eq),
            TokenTree::Punct(p) if p.as_char() == '=' => eq = true,
            TokenTree::Ident(i) if !eq && variant.is_empty() => variant = i.to_string(),
            other if eq => value.push_str(&other.to_string()),
            _ => {}
        }
    }
    flush(&mut variant, &mut value, &mut eq);
    format!(
        "impl ::std::convert::TryFrom<u32> for {name} {{ type Error = u32; fn try_from(n: u32) -> Result<Self, u32> {{ match n {{ {arms} x => Err(x) }} }} }}"
    )
    .parse()
    .unwrap()
}
