// shapes from the documentation, and shapes that the generator does not make
pub mod kw {
    ::parsel::custom_keyword!(null);
    ::parsel::custom_keyword!(kind);
}
::parsel::custom_punctuation!(Arrow3, ==>);
::parsel::define_keywords! { pub mod words { let => Let; t => T; bool => bool; r#fn => RawFn; _ => Hole; } }
pub use ::parsel::ast as a;
use ::vh::gram::{G, V};
use ::vh::node::{ops, Dump, Gram};
use ::vh::rt::*;
use ::vh::tok::Sp;
use ::parsel::{Display, FromStr, Parse, ToTokens};
use ::std::boxed::Box as Bx;

impl Gram for kw::null {
    fn g() -> G {
        G::RKw("null")
    }
}
impl Dump for kw::null {
    fn v(&self) -> V {
        V::leaf("null", Sp::of(self.span))
    }
}
macro_rules! words {
    ($($t:ty => $s:literal),*) => {$(
        impl Gram for $t { fn g() -> G { G::Kw($s) } }
        impl Dump for $t { fn v(&self) -> V { V::leaf($s, Sp::of(self.span())) } }
    )*}
}
words! { words::Let => "let", words::T => "t", words::bool => "bool", words::RawFn => "r#fn", words::Hole => "_" }

macro_rules! named {
    ($n:ident: $($f:ident $t:ty),*) => {
        impl Gram for $n { fn g() -> G { G::Struct(stringify!($n).into(), vec![$((stringify!($f).into(), G::Ref(<$t as Gram>::g))),*]) } }
        impl Dump for $n { fn v(&self) -> V { V::node(stringify!($n), vec![$(self.$f.v()),*]) } }
    };
}
macro_rules! choice {
    ($n:ident: $($v:ident $b:ident $t:ty),*) => {
        impl Gram for $n { fn g() -> G { G::Enum(stringify!($n).into(), vec![$((stringify!($v).into(), vec![("0".into(), G::Ref(<$t as Gram>::g))])),*]) } }
        impl Dump for $n { fn v(&self) -> V { match self { $($n::$v($b) => V::node(concat!(stringify!($n), "::", stringify!($v)), vec![$b.v()])),* } } }
    };
}

// the JSON-like example of the manual
#[derive(PartialEq, Clone, Debug, FromStr, Display, Parse, ToTokens)]
pub enum Value {
    Null(kw::null),
    Bool(a::LitBool),
    Num(a::LitFloat),
    Str(a::LitStr),
    Array(
        #[parsel(recursive)]
        a::Bracket<a::Punctuated<Value, a::Token![,]>>,
    ),
    Object(
        #[parsel(recursive)]
        a::Brace<a::Punctuated<KeyValue, a::Token![,]>>,
    ),
}
#[derive(PartialEq, Clone, Debug, FromStr, Display, Parse, ToTokens)]
pub struct KeyValue {
    pub key: a::LitStr,
    pub colon: a::Token![:],
    #[parsel(recursive)]
    pub value: Value,
}
choice! { Value: Null x kw::null, Bool x a::LitBool, Num x a::LitFloat, Str x a::LitStr, Array x a::Bracket<a::Punctuated<Value, a::token::Comma>>, Object x a::Brace<a::Punctuated<KeyValue, a::token::Comma>> }
named! { KeyValue: key a::LitStr, colon a::Token![:], value Value }

// a macro that makes definitions with repetition, and one that passes types and attributes through
macro_rules! ast {
    ($(#[$m:meta])* $v:vis struct $n:ident { $($(#[$fm:meta])* $fv:vis $f:ident: $t:ty),* $(,)? }) => {
        #[derive(PartialEq, Clone, Debug, FromStr, Display, Parse, ToTokens)]
        $(#[$m])*
        $v struct $n { $($(#[$fm])* $fv $f: $t),* }
        named! { $n: $($f $t),* }
    };
    ($(#[$m:meta])* $v:vis enum $n:ident { $($(#[$vm:meta])* $f:ident($(#[$fm:meta])* $t:ty)),* $(,)? }) => {
        #[derive(PartialEq, Clone, Debug, FromStr, Display, Parse, ToTokens)]
        $(#[$m])*
        $v enum $n { $($(#[$vm])* $f($(#[$fm])* $t)),* }
        choice! { $n: $($f x $t),* }
    };
}
ast! {
    /// documented
    #[allow(dead_code)]
    pub struct Stmt {
        pub let_: words::Let,
        /// a field
        pub(crate) name: a::Ident,
        eq: a::Token![=],
        #[parsel(recursive = true)]
        value: Bx<Term>,
        semi: a::Token![;],
    }
}
ast! {
    pub enum Term {
        #[doc = "x"]
        Num(a::LitInt),
        Not(a::Token![!]),
        Hole(words::Hole),
        Group(#[parsel(recursive)] #[doc(hidden)] a::Paren<Bx<Term>>),
        Block(#[parsel(recursive)] a::Brace<a::Any<Stmt>>),
    }
}
pub mod deep {
    pub mod er {
        pub type Alias<T> = ::parsel::ast::Paren<T>;
        #[derive(PartialEq, Clone, Debug, ::parsel::FromStr, ::parsel::Display, ::parsel::Parse, ::parsel::ToTokens)]
        pub struct Super(pub super::super::Tok1Alias, pub self::Alias<crate::documented::words::T>, pub(in crate::documented) super::super::words::bool);
    }
}
pub type Tok1Alias = a::token::Plus;
use deep::er::Super;
impl Gram for Super {
    fn g() -> G {
        G::Struct("Super".into(), vec![("0".into(), G::Ref(<a::token::Plus as Gram>::g)), ("1".into(), G::Ref(<a::Paren<words::T> as Gram>::g)), ("2".into(), G::Ref(<words::bool as Gram>::g))])
    }
}
impl Dump for Super {
    fn v(&self) -> V {
        V::node("Super", vec![self.0.v(), self.1.v(), self.2.v()])
    }
}

// some of the traits only
#[derive(Parse, Clone, PartialEq, Debug)]
pub struct P1(OnlyParse, a::Word);
#[derive(Parse, FromStr, Debug)]
pub enum P2<T> {
    A(T, OnlyParse),
    B { x: T },
}
#[derive(ToTokens)]
pub struct S1(OnlyPrint, a::Word);
#[derive(ToTokens, Display)]
pub enum S2<'l, 'm: 'l, T: ?Sized + 'm> {
    A(&'l T, &'m str),
    B { r#ref: &'l &'m T },
    C(::std::borrow::Cow<'l, str>, Option<u8>, (Box<str>)),
}
#[derive(ToTokens, Display)]
pub struct S3<'a, T: ?Sized, const N: usize>
where
    T: Tr,
{
    marker: W0<N>,
    last: &'a T,
}
pub struct W0<const N: usize>;
impl<const N: usize> ::parsel::ToTokens for W0<N> {
    fn to_tokens(&self, ts: &mut ::parsel::TokenStream) {
        (N as u64).to_tokens(ts)
    }
}
// an unsized last field
#[derive(ToTokens, Display)]
pub struct S4<T: ?Sized>(a::Word, T);
#[derive(Display)]
pub struct S5(a::Word);
impl ::parsel::ToTokens for S5 {
    fn to_tokens(&self, ts: &mut ::parsel::TokenStream) {
        self.0.to_tokens(ts)
    }
}
#[derive(FromStr)]
pub struct S6(a::Word);
impl ::parsel::Parse for S6 {
    fn parse(i: ::parsel::syn::parse::ParseStream<'_>) -> ::parsel::Result<Self> {
        i.parse().map(S6)
    }
}
// recursion through a parameter, and a type whose parameter is recursive
#[derive(PartialEq, Clone, Debug, FromStr, Display, Parse, ToTokens)]
pub struct Fix<F>(a::token::Pound, #[parsel(recursive)] a::Bracket<a::Any<Bx<Fix<F>>>>, F);
#[derive(PartialEq, Clone, Debug, FromStr, Display, Parse, ToTokens)]
pub struct Ph<T>(a::Word, ::core::marker::PhantomData<T>)
where
    ::core::marker::PhantomData<T>: Parse + ToTokens;
#[derive(PartialEq, Clone, Debug, FromStr, Display, Parse, ToTokens)]
pub struct Arr<const N: usize, T>(T, Nth<N>, Nth<{ 1 + 1 }>);

fn probe(q: &'static str, got: bool) -> Probe {
    (q, got, true)
}
fn show(t: impl ::parsel::ToTokens) -> String {
    t.to_token_stream().to_string()
}

pub fn all() -> ::vh::rt::All {
    use ::core::str::FromStr as _;
    use ::parsel::ToTokens as _;
    let w = |s: &str| a::Word::from_str(s).unwrap();
    let mut v: Vec<Probe> = vec![];
    v.extend(::vh::has!(P1: true, false).into_iter().take(2));
    v.extend(::vh::has!(P2<OnlyParse>: true, false));
    v.extend(::vh::has!(P2<OnlyPrint>: false, false));
    v.extend(::vh::has!(S1: false, true).into_iter().take(2));
    v.extend(::vh::has!(S2<'static, 'static, str>: false, true));
    v.extend(::vh::has!(S2<'static, 'static, OnlyPrint>: false, true));
    v.extend(::vh::has!(S2<'static, 'static, OnlyParse>: false, false));
    v.extend(::vh::has!(S3<'static, str, 3>: false, true));
    v.extend(::vh::has!(S3<'static, Neither, 3>: false, false));
    v.extend(::vh::has!(S4<str>: false, true));
    v.extend(::vh::has!(S4<OnlyParse>: false, false));
    v.extend(::vh::has!(Fix<a::Word>: true, true));
    v.extend(::vh::has!(Fix<OnlyParse>: true, false));
    v.extend(::vh::has!(Fix<OnlyPrint>: false, true));
    v.extend(::vh::has!(Arr<1, OnlyParse>: true, false));
    v.push(probe("S2::A", S2::A("x\"", "y").to_string() == "\"x\\\"\" \"y\"" && show(S2::A("x", "y")) == "\"x\" \"y\""));
    v.push(probe("S2::B", show(S2::B { r#ref: &&w("q") }) == "q"));
    v.push(probe("S2::C", show(S2::<a::Word>::C("c".into(), None, "d".into())) == "\"c\" \"d\"" && show(S2::<a::Word>::C("c".into(), Some(1), "d".into())) == "\"c\" 1u8 \"d\""));
    v.push(probe("S3", show(S3 { marker: W0::<7>, last: "z" }) == "7u64 \"z\""));
    v.push(probe("S4", {
        let s: Bx<S4<dyn ::parsel::ToTokens>> = Bx::new(S4(w("hello"), w("there")));
        s.to_token_stream().to_string() == "hello there" && s.to_string() == "hello there"
    }));
    v.push(probe("S5", S5(w("w")).to_string() == "w"));
    v.push(probe("S6", S6::from_str("w").map_or(false, |s| s.0 == "w") && S6::from_str("w w").is_err()));
    v.push(probe("P2", matches!(P2::<a::Word>::from_str("w"), Ok(P2::A(..))) && P2::<a::Word>::from_str("1").is_err()));
    (
        vec![ops::<Value>("Value"), ops::<KeyValue>("KeyValue"), ops::<Stmt>("Stmt"), ops::<Term>("Term"), ops::<Super>("Super"), ops::<words::T>("words::T"), ops::<words::RawFn>("words::RawFn"), ops::<words::bool>("words::bool")],
        v,
        vec![],
    )
}
