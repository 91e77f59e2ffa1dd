//! What the checks need to know about a node type: its grammar (`Gram`) and the parsed content of a
//! value (`Dump`). Implementations for all helper types; derived types get theirs from macros or
//! from the program generator.

use crate::gram::{G, V};
use crate::tok::Sp;
use parsel::ast::*;
use parsel::{Parse, ToTokens, TokenStream};
use std::any::Any as StdAny;
use std::cell::Cell;
use std::fmt::{Debug, Display};
use std::sync::Arc;

pub trait Gram {
    fn g() -> G;
}

pub trait Dump {
    fn v(&self) -> V;
}

fn r<T: Gram>() -> Arc<G> {
    Arc::new(G::Ref(T::g))
}

impl<T: Gram> Gram for Box<T> {
    fn g() -> G {
        T::g()
    }
}
impl<T: Dump> Dump for Box<T> {
    fn v(&self) -> V {
        (**self).v()
    }
}

macro_rules! leafs {
    ($($t:ty => $g:expr, |$x:ident| $v:expr;)*) => {$(
        impl Gram for $t { fn g() -> G { $g } }
        impl Dump for $t { fn v(&self) -> V { let $x = self; V::leaf($v, Sp::of($x.span())) } }
    )*}
}

leafs! {
    LitBool => G::LBool, |x| x.value().to_string();
    LitByte => G::LByte, |x| format!("b:{}", x.value());
    LitInt => G::LInt, |x| format!("int:{}", x.value());
    LitUint => G::LUint, |x| format!("uint:{}", x.value());
    LitFloat => G::LFloat, |x| format!("f:{:016x}", x.value().into_inner().to_bits());
    LitChar => G::LChar, |x| format!("c:{:?}", x.value());
    LitStr => G::LStr, |x| format!("s:{:?}", x.value());
    LitByteStr => G::LBStr, |x| format!("bs:{:?}", x.value());
    Ident => G::Ident, |x| x.to_string();
}

impl Gram for Lit {
    fn g() -> G {
        G::Lit
    }
}
impl Dump for Lit {
    fn v(&self) -> V {
        let (n, v) = match self {
            Lit::Bool(l) => ("Lit::Bool", l.v()),
            Lit::Byte(l) => ("Lit::Byte", l.v()),
            Lit::Int(l) => ("Lit::Int", l.v()),
            Lit::Uint(l) => ("Lit::Uint", l.v()),
            Lit::Float(l) => ("Lit::Float", l.v()),
            Lit::Char(l) => ("Lit::Char", l.v()),
            Lit::Str(l) => ("Lit::Str", l.v()),
            Lit::ByteStr(l) => ("Lit::ByteStr", l.v()),
        };
        V::node(n, vec![v])
    }
}

impl<K: KeywordList + 'static> Gram for CustomIdent<K> {
    fn g() -> G {
        if K::KEYWORDS.is_empty() { G::Word } else { G::Custom(K::KEYWORDS) }
    }
}
impl<K> Dump for CustomIdent<K> {
    fn v(&self) -> V {
        V::leaf(self.token().to_string(), Sp::of(self.span()))
    }
}

macro_rules! units {
    ($($t:ident)*) => {$(
        impl Gram for $t { fn g() -> G { G::$t } }
        impl Dump for $t { fn v(&self) -> V { V::node(stringify!($t), vec![]) } }
    )*}
}
units!(Empty Eof NotEof);

macro_rules! puncts {
    ($($t:tt)*) => {$(
        impl Gram for syn::Token![$t] { fn g() -> G { G::P(stringify!($t)) } }
        impl Dump for syn::Token![$t] { fn v(&self) -> V { V::leaf(stringify!($t), Sp::of(syn::spanned::Spanned::span(self))) } }
    )*}
}
puncts!(+ - * / % ^ ! & && | || << >> += -= *= /= %= ^= &= |= <<= >>= = == != > < >= <= @ . .. ... ..= , ; : :: -> => # $ ? ~);

macro_rules! kws {
    ($($t:tt)*) => {$(
        impl Gram for syn::Token![$t] { fn g() -> G { G::RKw(stringify!($t)) } }
        impl Dump for syn::Token![$t] { fn v(&self) -> V { V::leaf(stringify!($t), Sp::of(syn::spanned::Spanned::span(self))) } }
    )*}
}
kws!(fn let if else match type struct enum self Self for in where while loop return mut pub);

impl<P: Gram, T: Gram> Gram for Maybe<P, T> {
    fn g() -> G {
        G::Maybe(r::<P>(), r::<T>())
    }
}
impl<P: Dump, T: Dump> Dump for Maybe<P, T> {
    fn v(&self) -> V {
        match self.as_parts() {
            None => V::node("None", vec![]),
            Some((p, t)) => V::node("Some", vec![p.v(), t.v()]),
        }
    }
}

macro_rules! delims {
    ($($t:ident $d:literal $acc:ident;)*) => {$(
        impl<T: Gram> Gram for $t<T> { fn g() -> G { G::Delim($d, r::<T>()) } }
        impl<T: Dump> Dump for $t<T> {
            fn v(&self) -> V {
                let (d, inner) = self.as_parts();
                V::Grp($d, Some(Sp::of(d.span.join())), Box::new(inner.v()))
            }
        }
    )*}
}
delims! { Paren '(' as_parens; Bracket '[' as_brackets; Brace '{' as_braces; }

fn pairs<T: Dump, P: Dump>(p: syn::punctuated::Pairs<'_, T, P>) -> Vec<V> {
    let mut out = vec![];
    for x in p {
        let (t, p) = x.into_tuple();
        out.push(t.v());
        if let Some(p) = p {
            out.push(p.v());
        }
    }
    out
}

impl<T: Gram, P: Gram> Gram for Punctuated<T, P> {
    fn g() -> G {
        G::Punct(r::<T>(), r::<P>())
    }
}
impl<T: Dump, P: Dump> Dump for Punctuated<T, P> {
    fn v(&self) -> V {
        V::node("Punct", pairs(self.pairs()))
    }
}
impl<T: Gram, P: Gram> Gram for Separated<T, P> {
    fn g() -> G {
        G::Sep(r::<T>(), r::<P>())
    }
}
impl<T: Dump, P: Dump> Dump for Separated<T, P> {
    fn v(&self) -> V {
        V::node("Sep", pairs(self.pairs()))
    }
}
impl<T: Gram> Gram for Any<T> {
    fn g() -> G {
        G::Any(r::<T>())
    }
}
impl<T: Dump> Dump for Any<T> {
    fn v(&self) -> V {
        V::node("Any", self.iter().map(|x| x.v()).collect())
    }
}
impl<O: Gram, R: Gram> Gram for LeftAssoc<O, R> {
    fn g() -> G {
        G::Left(r::<O>(), r::<R>())
    }
}
impl<O: Dump, R: Dump> Dump for LeftAssoc<O, R> {
    fn v(&self) -> V {
        match self {
            LeftAssoc::Rhs(r) => V::node("Rhs", vec![r.v()]),
            LeftAssoc::Binary { lhs, op, rhs } => V::node("LBin", vec![lhs.v(), op.v(), rhs.v()]),
        }
    }
}
impl<O: Gram, R: Gram> Gram for RightAssoc<O, R> {
    fn g() -> G {
        G::Right(r::<O>(), r::<R>())
    }
}
impl<O: Dump, R: Dump> Dump for RightAssoc<O, R> {
    fn v(&self) -> V {
        match self {
            RightAssoc::Lhs(l) => V::node("Lhs", vec![l.v()]),
            RightAssoc::Binary { lhs, op, rhs } => V::node("RBin", vec![lhs.v(), op.v(), rhs.v()]),
        }
    }
}
impl<L: Gram, R: Gram> Gram for Either<L, R> {
    fn g() -> G {
        G::Either(r::<L>(), r::<R>())
    }
}
impl<L: Dump, R: Dump> Dump for Either<L, R> {
    fn v(&self) -> V {
        match self {
            Either::Left(l) => V::node("Left", vec![l.v()]),
            Either::Right(r) => V::node("Right", vec![r.v()]),
        }
    }
}

/// A leaf that counts its parse attempts, and panics when the budget of attempts is used up:
/// a deterministic stand-in for "does not terminate".
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fu<T>(pub T);

thread_local! {
    pub static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static USED: Cell<u64> = const { Cell::new(0) };
}

pub fn fuel(n: u64) {
    FUEL.with(|f| f.set(n));
    USED.with(|f| f.set(0));
}

pub fn used() -> u64 {
    USED.with(|f| f.get())
}

impl<T: Parse> Parse for Fu<T> {
    fn parse(input: syn::parse::ParseStream<'_>) -> syn::Result<Self> {
        USED.with(|f| f.set(f.get() + 1));
        FUEL.with(|f| {
            let n = f.get();
            if n == 0 {
                f.set(u64::MAX);
                panic!("parse attempts exceed the budget: no progress?");
            }
            f.set(n - 1);
        });
        input.parse().map(Fu)
    }
}
impl<T: ToTokens> ToTokens for Fu<T> {
    fn to_tokens(&self, ts: &mut TokenStream) {
        self.0.to_tokens(ts)
    }
}
impl<T: Display> Display for Fu<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Display::fmt(&self.0, f)
    }
}
impl<T: Gram> Gram for Fu<T> {
    fn g() -> G {
        T::g()
    }
}
impl<T: Dump> Dump for Fu<T> {
    fn v(&self) -> V {
        self.0.v()
    }
}

/// Words parsed by a hand-written parser that reports errors over several tokens.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Wide<const N: usize>(pub Vec<Ident>);

impl<const N: usize> Parse for Wide<N> {
    fn parse(input: syn::parse::ParseStream<'_>) -> syn::Result<Self> {
        let mut ts = vec![];
        for _ in 0..N {
            ts.push(input.parse::<proc_macro2::TokenTree>()?);
        }
        let words: Vec<Ident> = ts.iter().filter_map(|t| if let proc_macro2::TokenTree::Ident(i) = t { Some(i.clone()) } else { None }).collect();
        if words.len() == N {
            Ok(Wide(words))
        } else {
            Err(syn::Error::new_spanned(ts.into_iter().collect::<TokenStream>(), format!("expected {N} words")))
        }
    }
}
impl<const N: usize> ToTokens for Wide<N> {
    fn to_tokens(&self, ts: &mut TokenStream) {
        quote::TokenStreamExt::append_all(ts, &self.0)
    }
}
impl<const N: usize> Display for Wide<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        parsel::util::format_ast_node(self, f)
    }
}
impl<const N: usize> std::str::FromStr for Wide<N> {
    type Err = syn::Error;
    fn from_str(s: &str) -> syn::Result<Self> {
        syn::parse_str(s)
    }
}
impl<const N: usize> Gram for Wide<N> {
    fn g() -> G {
        G::Wide(N)
    }
}
impl<const N: usize> Dump for Wide<N> {
    fn v(&self) -> V {
        V::node("Wide", self.0.iter().map(|i| V::leaf(i.to_string(), Sp::of(i.span()))).collect())
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Places {
    pub bytes: std::ops::Range<usize>,
    pub chars: std::ops::Range<usize>,
    pub text: String,
    pub shown: String,
}

pub fn places<T: parsel::util::SpannedExt + ?Sized>(t: &T, src: &str) -> Places {
    Places { bytes: t.byte_range(src), chars: t.char_range(src), text: t.source_substring(src).to_string(), shown: t.format_span().to_string() }
}

/// What the places of the text from byte `a` to byte `b` are.
pub fn expected_places(src: &str, a: usize, b: usize) -> Places {
    let at = |i: usize| {
        let before = &src[..i];
        let line = before.matches('\n').count() + 1;
        let col = before.chars().rev().take_while(|c| *c != '\n').count();
        (line, col)
    };
    let ((l1, c1), (l2, c2)) = (at(a), at(b));
    Places {
        bytes: a..b,
        chars: src[..a].chars().count()..src[..b].chars().count(),
        text: src[a..b].to_string(),
        shown: format!("{l1}:{}..{l2}:{c2}", c1 + 1),
    }
}

/// Everything the engine does with a value, without knowing its type.
pub trait Ast: Send {
    fn v(&self) -> V;
    fn toks(&self) -> TokenStream;
    fn display(&self) -> String;
    fn alternate(&self) -> String;
    fn debug(&self) -> String;
    fn same(&self, o: &dyn Ast) -> bool;
    fn dup(&self) -> Box<dyn Ast>;
    fn any(&self) -> &dyn StdAny;
    fn span(&self) -> proc_macro2::Span;
    fn formatted(&self, mode: u32, indent: &str) -> String;
    /// byte range, character range, substring, displayed span
    fn places(&self, src: &str) -> Places;
}

/// displayed by the helpers that take a `Formatter`
struct Via<'a, T>(&'a T, bool);
impl<T: ToTokens> Display for Via<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.1 {
            parsel::util::format_tokens(self.0.to_token_stream(), f)
        } else {
            parsel::util::format_ast_node(self.0, f)
        }
    }
}
/// a writer that gets its text character by character
struct Dyn<'a>(&'a mut String);
impl std::fmt::Write for Dyn<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            self.0.push(c)
        }
        Ok(())
    }
}

struct Holder<T>(T);
// values never leave the thread they are made on; the bound only lets trait objects be boxed freely
unsafe impl<T> Send for Holder<T> {}

pub trait Node: 'static + Parse + ToTokens + Display + std::str::FromStr<Err = syn::Error> + Debug + PartialEq + Clone + Dump + Gram {}
impl<T: 'static + Parse + ToTokens + Display + std::str::FromStr<Err = syn::Error> + Debug + PartialEq + Clone + Dump + Gram> Node for T {}

impl<T: Node> Ast for Holder<T> {
    fn v(&self) -> V {
        self.0.v()
    }
    fn toks(&self) -> TokenStream {
        self.0.to_token_stream()
    }
    fn display(&self) -> String {
        format!("{}", self.0)
    }
    fn alternate(&self) -> String {
        format!("{:#}", self.0)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn same(&self, o: &dyn Ast) -> bool {
        o.any().downcast_ref::<T>().map_or(false, |o| self.0 == *o && *o == self.0 && !(self.0 != *o))
    }
    fn dup(&self) -> Box<dyn Ast> {
        Box::new(Holder(self.0.clone()))
    }
    fn any(&self) -> &dyn StdAny {
        &self.0
    }
    fn span(&self) -> proc_macro2::Span {
        parsel::Spanned::span(&self.0)
    }
    fn places(&self, src: &str) -> Places {
        places(&self.0, src)
    }
    fn formatted(&self, mode: u32, indent: &str) -> String {
        use parsel::util::*;
        use std::fmt::Write as _;
        let mut s = String::new();
        let r = match mode {
            0 => format_ast_node_pretty(&self.0, &mut s),
            1 => format_ast_node_compact(&self.0, &mut s),
            2 => TokenStreamFormatter::pretty(&mut s).write_ast_node(&self.0),
            3 => TokenStreamFormatter::compact(&mut s).write_ast_node(&self.0),
            4 => format_tokens_pretty(self.0.to_token_stream(), &mut s),
            5 => format_tokens_compact(self.0.to_token_stream(), &mut s),
            6 => TokenStreamFormatter::pretty(&mut s).write(self.0.to_token_stream()),
            7 => TokenStreamFormatter::compact(&mut s).write(self.0.to_token_stream()),
            8 => TokenStreamFormatter::with_indent(indent, &mut s).expect("indent").write_ast_node(&self.0),
            9 => TokenStreamFormatter::with_indent(indent, &mut s).expect("indent").write(self.0.to_token_stream()),
            10 => write!(s, "{}", Via(&self.0, false)),
            11 => write!(s, "{:#}", Via(&self.0, false)),
            12 => write!(s, "{}", Via(&self.0, true)),
            13 => write!(s, "{:#}", Via(&self.0, true)),
            14 => {
                // several nodes by one formatter: the second comes after the first
                let mut f = TokenStreamFormatter::compact(&mut s);
                f.write_ast_node(&parsel::ast::Empty).and_then(|_| f.write_ast_node(&self.0))
            }
            15 => write!(&mut Dyn(&mut s), "{}", self.0),
            _ => write!(&mut Dyn(&mut s), "{:#}", self.0),
        };
        r.expect("writing to a String cannot fail");
        s
    }
}

type Res<T> = Result<T, syn::Error>;

#[derive(Clone)]
pub struct Ops {
    pub name: &'static str,
    pub g: fn() -> G,
    pub from_str: fn(&str) -> Res<Box<dyn Ast>>,
    pub parse_str: fn(&str) -> Res<Box<dyn Ast>>,
    pub parse2: fn(TokenStream) -> Res<Box<dyn Ast>>,
    /// through try_parse_quote!
    pub quoted: fn(TokenStream) -> Res<Box<dyn Ast>>,
    /// through try_parse_quote_spanned!
    pub quoted_spanned: fn(proc_macro2::Span, TokenStream) -> Res<Box<dyn Ast>>,
    /// parses the node, then the rest of the stream
    pub prefix: fn(&str) -> Res<(Result<Box<dyn Ast>, syn::Error>, TokenStream)>,
}

fn bx<T: Node>(t: T) -> Box<dyn Ast> {
    Box::new(Holder(t))
}

pub fn ops<T: Node>(name: &'static str) -> Ops {
    Ops {
        name,
        g: T::g,
        from_str: |s| s.parse::<T>().map(bx),
        parse_str: |s| parsel::parse_str::<T>(s).map(bx),
        parse2: |t| parsel::parse2::<T>(t).map(bx),
        quoted: |t| {
            let v: T = parsel::try_parse_quote!(#t);
            Ok(bx(v))
        },
        quoted_spanned: |s, t| {
            let v: T = parsel::try_parse_quote_spanned!(s => #t);
            Ok(bx(v))
        },
        prefix: |s| {
            syn::parse::Parser::parse_str(
                |input: syn::parse::ParseStream<'_>| {
                    let t = input.parse::<T>();
                    let rest: TokenStream = input.parse()?;
                    Ok((t.map(bx), rest))
                },
                s,
            )
        },
    }
}

#[macro_export]
macro_rules! ops_list {
    ($($t:ty),* $(,)?) => { vec![$($crate::node::ops::<$t>(stringify!($t))),*] }
}

/// Struct with derives, plus its grammar and dump.
#[macro_export]
macro_rules! gstruct {
    ($n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, PartialEq, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
        pub struct $n { $(pub $f: $t),* }
        $crate::gstruct!(@imp $n { $($f : $t),* });
    };
    ($n:ident rec { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, PartialEq, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
        pub struct $n { $(#[parsel(recursive)] pub $f: $t),* }
        $crate::gstruct!(@imp $n { $($f : $t),* });
    };
    (@imp $n:ident { $($f:ident : $t:ty),* }) => {
        impl $crate::node::Gram for $n {
            fn g() -> $crate::gram::G {
                $crate::gram::G::Struct(stringify!($n).into(), vec![
                    $((stringify!($f).into(), $crate::gram::G::Ref(<$t as $crate::node::Gram>::g))),*
                ])
            }
        }
        impl $crate::node::Dump for $n {
            fn v(&self) -> $crate::gram::V {
                $crate::gram::V::node(stringify!($n), vec![$($crate::node::Dump::v(&self.$f)),*])
            }
        }
    };
}

/// Enum of tuple variants with derives, plus its grammar and dump. Every field carries
/// `#[parsel(recursive)]` with `rec`.
#[macro_export]
macro_rules! genum {
    ($n:ident { $($v:ident ( $($b:ident : $t:ty),* )),* $(,)? }) => {
        #[derive(Clone, PartialEq, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
        pub enum $n { $($v($($t),*)),* }
        $crate::genum!(@imp $n { $($v ( $($b : $t),* )),* });
    };
    ($n:ident rec { $($v:ident ( $($b:ident : $t:ty),* )),* $(,)? }) => {
        #[derive(Clone, PartialEq, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
        pub enum $n { $($v($(#[parsel(recursive)] $t),*)),* }
        $crate::genum!(@imp $n { $($v ( $($b : $t),* )),* });
    };
    ($n:ident named { $($v:ident { $($b:ident : $t:ty),* }),* $(,)? }) => {
        #[derive(Clone, PartialEq, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
        pub enum $n { $($v { $($b : $t),* }),* }
        impl $crate::node::Gram for $n {
            fn g() -> $crate::gram::G {
                $crate::gram::G::Enum(stringify!($n).into(), vec![
                    $((stringify!($v).into(), vec![$((stringify!($b).into(), $crate::gram::G::Ref(<$t as $crate::node::Gram>::g))),*])),*
                ])
            }
        }
        impl $crate::node::Dump for $n {
            fn v(&self) -> $crate::gram::V {
                match self {
                    $($n::$v { $($b),* } => $crate::gram::V::node(concat!(stringify!($n), "::", stringify!($v)), vec![$($crate::node::Dump::v($b)),*])),*
                }
            }
        }
    };
    (@imp $n:ident { $($v:ident ( $($b:ident : $t:ty),* )),* }) => {
        impl $crate::node::Gram for $n {
            fn g() -> $crate::gram::G {
                #[allow(unused_mut, unused_variables)]
                $crate::gram::G::Enum(stringify!($n).into(), vec![
                    $((stringify!($v).into(), {
                        let mut i = 0usize;
                        let mut v = vec![];
                        $({
                            v.push((i.to_string().into(), $crate::gram::G::Ref(<$t as $crate::node::Gram>::g)));
                            i += 1;
                        })*
                        let _ = i;
                        v
                    })),*
                ])
            }
        }
        impl $crate::node::Dump for $n {
            fn v(&self) -> $crate::gram::V {
                match self {
                    $($n::$v($($b),*) => $crate::gram::V::node(concat!(stringify!($n), "::", stringify!($v)), vec![$($crate::node::Dump::v($b)),*])),*
                }
            }
        }
    };
}

/// Tuple struct with derives, plus its grammar and dump.
#[macro_export]
macro_rules! gtuple {
    ($n:ident ( $($b:ident : $t:ty),* $(,)? )) => {
        #[derive(Clone, PartialEq, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
        pub struct $n($(pub $t),*);
        impl $crate::node::Gram for $n {
            fn g() -> $crate::gram::G {
                let v: Vec<fn() -> $crate::gram::G> = vec![$(<$t as $crate::node::Gram>::g),*];
                $crate::gram::G::Struct(stringify!($n).into(), v.into_iter().enumerate().map(|(i, g)| (i.to_string().into(), $crate::gram::G::Ref(g))).collect())
            }
        }
        impl $crate::node::Dump for $n {
            fn v(&self) -> $crate::gram::V {
                let $n($($b),*) = self;
                $crate::gram::V::node(stringify!($n), vec![$($crate::node::Dump::v($b)),*])
            }
        }
    };
}

/// Unit struct with derives, plus its grammar and dump.
#[macro_export]
macro_rules! gunit {
    ($n:ident) => {
        #[derive(Clone, PartialEq, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
        pub struct $n;
        impl $crate::node::Gram for $n {
            fn g() -> $crate::gram::G {
                $crate::gram::G::Struct(stringify!($n).into(), vec![])
            }
        }
        impl $crate::node::Dump for $n {
            fn v(&self) -> $crate::gram::V {
                $crate::gram::V::node(stringify!($n), vec![])
            }
        }
    };
}

/// Enum whose variants are all units and that ends with a tuple variant for everything else.
#[macro_export]
macro_rules! gmixed {
    ($n:ident { $($v:ident { $($b:ident : $t:ty),* }),* ; $($w:ident ( $($c:ident : $u:ty),* )),* ; $($z:ident),* }) => {
        #[derive(Clone, PartialEq, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
        pub enum $n { $($v { $($b: $t),* },)* $($w($($u),*),)* $($z),* }
        impl $crate::node::Gram for $n {
            fn g() -> $crate::gram::G {
                let mut vs: Vec<(std::sync::Arc<str>, Vec<(std::sync::Arc<str>, $crate::gram::G)>)> = vec![];
                $(vs.push((stringify!($v).into(), vec![$((stringify!($b).into(), $crate::gram::G::Ref(<$t as $crate::node::Gram>::g))),*]));)*
                $({
                    let v: Vec<fn() -> $crate::gram::G> = vec![$(<$u as $crate::node::Gram>::g),*];
                    vs.push((stringify!($w).into(), v.into_iter().enumerate().map(|(i, g)| (i.to_string().into(), $crate::gram::G::Ref(g))).collect()));
                })*
                $(vs.push((stringify!($z).into(), vec![]));)*
                $crate::gram::G::Enum(stringify!($n).into(), vs)
            }
        }
        impl $crate::node::Dump for $n {
            fn v(&self) -> $crate::gram::V {
                match self {
                    $($n::$v { $($b),* } => $crate::gram::V::node(concat!(stringify!($n), "::", stringify!($v)), vec![$($crate::node::Dump::v($b)),*]),)*
                    $($n::$w($($c),*) => $crate::gram::V::node(concat!(stringify!($n), "::", stringify!($w)), vec![$($crate::node::Dump::v($c)),*]),)*
                    $($n::$z => $crate::gram::V::node(concat!(stringify!($n), "::", stringify!($z)), vec![]),)*
                }
            }
        }
    };
}

/// Grammar and dump of a keyword declared with `define_keywords!`.
#[macro_export]
macro_rules! gkw {
    ($($t:ty => $s:literal),* $(,)?) => {$(
        impl $crate::node::Gram for $t { fn g() -> $crate::gram::G { $crate::gram::G::Kw($s) } }
        impl $crate::node::Dump for $t {
            fn v(&self) -> $crate::gram::V { $crate::gram::V::leaf($s, $crate::tok::Sp::of(self.span())) }
        }
    )*}
}
