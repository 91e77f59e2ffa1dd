//! Run-time support of generated modules: parameterized leaves, traits with associated types, and
//! the question whether a type has an impl.

use crate::gram::{G, V};
use crate::node::{Dump, Gram};
use crate::tok::Sp;
use parsel::{Parse, ToTokens, TokenStream};
use std::fmt::Debug;

pub const WORDS: [&str; 8] = ["zero", "one", "two", "three", "four", "five", "six", "seven"];

/// the word for the number N
#[derive(Clone, PartialEq, Debug)]
pub struct Nth<const N: usize>(proc_macro2::Ident);

impl<const N: usize> Parse for Nth<N> {
    fn parse(input: syn::parse::ParseStream<'_>) -> syn::Result<Self> {
        let i: proc_macro2::Ident = input.call(syn::ext::IdentExt::parse_any)?;
        if i == WORDS[N] { Ok(Nth(i)) } else { Err(syn::Error::new(i.span(), format!("expected keyword `{}`", WORDS[N]))) }
    }
}
impl<const N: usize> ToTokens for Nth<N> {
    fn to_tokens(&self, ts: &mut TokenStream) {
        self.0.to_tokens(ts)
    }
}
impl<const N: usize> Gram for Nth<N> {
    fn g() -> G {
        G::Kw(WORDS[N])
    }
}
impl<const N: usize> Dump for Nth<N> {
    fn v(&self) -> V {
        V::leaf(WORDS[N], Sp::of(self.0.span()))
    }
}

/// the word for the number N, for some of them; 4 can only be parsed, 5 only be printed
#[derive(Clone, PartialEq, Debug)]
pub struct Few<const N: usize>(proc_macro2::Ident);

macro_rules! few {
    (parse $($n:literal)*) => {$(
        impl Parse for Few<$n> {
            fn parse(input: syn::parse::ParseStream<'_>) -> syn::Result<Self> {
                input.parse::<Nth<$n>>().map(|x| Few(x.0))
            }
        }
    )*};
    (print $($n:literal)*) => {$(
        impl ToTokens for Few<$n> {
            fn to_tokens(&self, ts: &mut TokenStream) {
                self.0.to_tokens(ts)
            }
        }
    )*};
    (both $($n:literal)*) => {
        few!(parse $($n)*);
        few!(print $($n)*);
        $(
            impl Gram for Few<$n> {
                fn g() -> G {
                    Nth::<$n>::g()
                }
            }
            impl Dump for Few<$n> {
                fn v(&self) -> V {
                    V::leaf(WORDS[$n], Sp::of(self.0.span()))
                }
            }
        )*
    };
}
few!(both 1 3);
few!(parse 4);
few!(print 5);

/// a word that is bound to a lifetime
#[derive(Clone, PartialEq, Debug)]
pub struct Life<'a>(proc_macro2::Ident, std::marker::PhantomData<&'a u8>);

impl<'a> Parse for Life<'a> {
    fn parse(input: syn::parse::ParseStream<'_>) -> syn::Result<Self> {
        input.parse::<Nth<6>>().map(|x| Life(x.0, std::marker::PhantomData))
    }
}
impl<'a> ToTokens for Life<'a> {
    fn to_tokens(&self, ts: &mut TokenStream) {
        self.0.to_tokens(ts)
    }
}
impl<'a> Gram for Life<'a> {
    fn g() -> G {
        Nth::<6>::g()
    }
}
impl<'a> Dump for Life<'a> {
    fn v(&self) -> V {
        V::leaf(WORDS[6], Sp::of(self.0.span()))
    }
}

/// implemented for everything
pub trait Tr {}
impl<T: ?Sized> Tr for T {}
pub trait Tr2<'a, A> {}
impl<'a, A, T: ?Sized> Tr2<'a, A> for T {}

pub trait Lang {
    type Name: Clone + PartialEq + Debug;
    type Op: Clone + PartialEq + Debug;
}
macro_rules! langs {
    ($($n:ident $a:ty, $b:ty;)*) => {$(
        #[derive(Clone, PartialEq, Debug)]
        pub struct $n;
        impl Lang for $n { type Name = $a; type Op = $b; }
    )*}
}
langs! {
    LangA parsel::ast::Word, syn::Token![+];
    LangB parsel::ast::LitInt, syn::Token![::];
    LFull parsel::ast::Word, syn::Token![+];
    LParse OnlyParse, OnlyParse;
    LPrint OnlyPrint, OnlyPrint;
    LNeither Neither, Neither;
}

/// argument types for the question for which arguments a derived impl exists
#[derive(Clone, PartialEq, Debug, Default)]
pub struct OnlyParse;
#[derive(Clone, PartialEq, Debug, Default)]
pub struct OnlyPrint;
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Neither;
impl Parse for OnlyParse {
    fn parse(_: syn::parse::ParseStream<'_>) -> syn::Result<Self> {
        Ok(OnlyParse)
    }
}
impl ToTokens for OnlyPrint {
    fn to_tokens(&self, _: &mut TokenStream) {}
}

pub struct W<T: ?Sized>(std::marker::PhantomData<T>);
pub trait No {
    const PARSE: bool = false;
    const PRINT: bool = false;
    const READ: bool = false;
    const SHOW: bool = false;
}
impl<T: ?Sized> No for W<T> {}
impl<T: Parse> W<T> {
    pub const PARSE: bool = true;
}
impl<T: ?Sized + ToTokens> W<T> {
    pub const PRINT: bool = true;
}
impl<T: std::str::FromStr> W<T> {
    pub const READ: bool = true;
}
impl<T: ?Sized + std::fmt::Display> W<T> {
    pub const SHOW: bool = true;
}

pub type Probe = (&'static str, bool, bool);

/// (question, answer, expected answer)
#[macro_export]
macro_rules! has {
    ($t:ty : $p:expr, $q:expr) => {{
        #[allow(unused_imports)]
        use $crate::rt::No as _;
        ::std::vec![
            (::core::concat!(::core::stringify!($t), ": Parse"), $crate::rt::W::<$t>::PARSE, $p),
            (::core::concat!(::core::stringify!($t), ": ToTokens"), $crate::rt::W::<$t>::PRINT, $q),
            (::core::concat!(::core::stringify!($t), ": FromStr"), $crate::rt::W::<$t>::READ, $p),
            (::core::concat!(::core::stringify!($t), ": Display"), $crate::rt::W::<$t>::SHOW, $q),
        ]
    }};
}

/// the declared list of keywords and the one of the generated module
pub fn keywords<K: parsel::ast::KeywordList>(text: &'static str, want: &[&str]) -> Vec<Probe> {
    vec![(text, K::KEYWORDS == want, true)]
}

/// what a generated module offers for checking
pub type All = (Vec<crate::node::Ops>, Vec<Probe>, Vec<crate::kws::KwMod>);
