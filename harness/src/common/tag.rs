//! Items and separators with content, so that positions can be told apart.
use parsel::{Parse, ToTokens, TokenStream};
use syn::parse::ParseStream;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Item(pub u32);
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Tag(pub u32);

impl Item {
    pub fn text(n: u32) -> String {
        n.to_string()
    }
}
impl Tag {
    pub fn text(n: u32) -> String {
        format!("s{n}")
    }
    pub fn read(s: &str) -> u32 {
        s[1..].parse().unwrap()
    }
}
impl ToTokens for Item {
    fn to_tokens(&self, ts: &mut TokenStream) {
        parsel::ast::LitUint::from(self.0 as u64).to_tokens(ts)
    }
}
impl ToTokens for Tag {
    fn to_tokens(&self, ts: &mut TokenStream) {
        proc_macro2::Ident::new(&Tag::text(self.0), proc_macro2::Span::call_site()).to_tokens(ts)
    }
}
impl Parse for Item {
    fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
        input.parse::<syn::LitInt>()?.base10_parse().map(Item)
    }
}
impl Parse for Tag {
    fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
        let i: proc_macro2::Ident = input.parse()?;
        let s = i.to_string();
        s.strip_prefix('s').and_then(|x| x.parse().ok()).map(Tag).ok_or_else(|| syn::Error::new(i.span(), "expected separator"))
    }
}
