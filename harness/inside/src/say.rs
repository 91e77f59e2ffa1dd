//! A small part of Rust as AST nodes, for macros whose output is compiled and evaluated.
use parsel::ast::{ident, word, Any, Bracket, Brace, CustomIdent, Either, Eof, Ident, LeftAssoc, Lit, LitBool, LitByte, LitByteStr, LitChar, LitFloat, LitInt, LitStr, LitUint, Maybe, Paren, Punctuated, RightAssoc, Separated, Token};
use parsel::syn::parse::Error;
use parsel::{Parse, Result, Span, ToTokens, TokenStream};
use std::cell::Cell;

parsel::define_keywords! {
    pub mod kw {
        let => Let;
        mut => Mut;
        if => If;
        else => Else;
        match => Match;
        self => This;
        _ => Wild;
    }
}

pub type Name = CustomIdent<kw::Keywords>;
type Sum = LeftAssoc<Either<Token![+], Token![-]>, Unary>;
type And = LeftAssoc<Token![&], Sum>;
type Xor = RightAssoc<Token![^], And>;
type Or = LeftAssoc<Token![|], Xor>;

#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::Display, parsel::FromStr)]
pub struct Expr(#[parsel(recursive)] Or);

#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::Display)]
pub enum Unary {
    Paren(#[parsel(recursive)] Paren<Box<Expr>>),
    Int(LitInt),
    Uint(LitUint),
    Neg(Token![-], #[parsel(recursive)] Box<Unary>),
    Not(Token![!], #[parsel(recursive)] Box<Unary>),
    If(#[parsel(recursive)] Box<Cond>),
    Match { by: kw::Match, what: Lit, #[parsel(recursive)] arms: Brace<Punctuated<Arm, Token![,]>> },
    Block(#[parsel(recursive)] Brace<Body>),
    Pick(#[parsel(recursive)] Bracket<Separated<Box<Expr>, Token![,]>>, Bracket<LitUint>),
    Field(kw::This, Token![.], Name),
    Call(Name, #[parsel(recursive)] Paren<Punctuated<Expr, Token![,]>>),
    Name(Name),
}

#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::Display)]
pub struct Cond {
    by: kw::If,
    #[parsel(recursive)]
    cond: LeftAssoc<Token![&&], Paren<Cmp>>,
    #[parsel(recursive)]
    yes: Brace<Body>,
    or: kw::Else,
    #[parsel(recursive)]
    no: Either<Box<Cond>, Brace<Body>>,
}

#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::Display)]
pub struct Cmp(#[parsel(recursive)] Expr, Rel, #[parsel(recursive)] Expr);

#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::Display)]
pub enum Rel {
    Eq(Token![==]),
    Ne(Token![!=]),
    Le(Token![<=]),
    Ge(Token![>=]),
    Lt(Token![<]),
    Gt(Token![>]),
}

#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::Display)]
pub struct Arm(Either<kw::Wild, Lit>, Token![=>], #[parsel(recursive)] Expr);

#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::Display)]
pub struct Body {
    #[parsel(recursive)]
    first: Any<Stmt>,
    #[parsel(recursive)]
    value: Box<Expr>,
}

#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::Display)]
pub enum Stmt {
    Let(kw::Let, Maybe<kw::Mut>, Name, Maybe<Token![:], Name>, Token![=], #[parsel(recursive)] Expr, Token![;]),
    Set(Name, Token![=], #[parsel(recursive)] Expr, Token![;]),
}

/// makes the same node anew from what it consists of, through constructors and conversions
pub trait Remake {
    fn remake(&self) -> Self;
}

thread_local! {
    static HOW: Cell<u32> = const { Cell::new(0) };
}

/// constructors are taken in turn
fn turn(n: u32) -> u32 {
    HOW.with(|h| {
        let x = h.get();
        h.set(x.wrapping_mul(5).wrapping_add(1));
        (x >> 3) % n
    })
}

macro_rules! by_default {
    ($($t:ty),*) => { $(impl Remake for $t { fn remake(&self) -> Self { Default::default() } })* };
}
by_default!(Token![+], Token![-], Token![&], Token![^], Token![|], Token![!], Token![,], Token![.], Token![&&], Token![==], Token![!=]);
by_default!(Token![<=], Token![>=], Token![<], Token![>], Token![=>], Token![=], Token![;], Token![:], parsel::ast::Empty);

macro_rules! keywords {
    ($($t:ty),*) => { $(impl Remake for $t {
        fn remake(&self) -> Self {
            match turn(3) {
                0 => Default::default(),
                1 => <$t>::new(Span::call_site()),
                _ => self.as_str().parse().expect("keyword"),
            }
        }
    })* };
}
keywords!(kw::Let, kw::Mut, kw::If, kw::Else, kw::Match, kw::This, kw::Wild);

impl Remake for Name {
    fn remake(&self) -> Self {
        let s = self.to_string();
        if let Some(raw) = s.strip_prefix("r#") {
            return Name::try_from(Ident::new_raw(raw, Span::call_site())).expect("raw name");
        }
        match turn(4) {
            0 => Name::try_from(ident(&s)).expect("name"),
            1 => Name::try_from(word(&s).token()).expect("name"),
            2 => s.parse().expect("name"),
            _ => Name::try_from(Ident::from(word(&s))).expect("name"),
        }
    }
}

macro_rules! literals {
    ($($t:ty),*) => { $(impl Remake for $t {
        fn remake(&self) -> Self {
            match turn(3) {
                0 => <$t>::from(self.value()),
                1 => <$t>::new(self.value(), Span::call_site()),
                _ => self.clone().into_inner().into(),
            }
        }
    })* };
}
literals!(LitBool, LitByte, LitInt, LitUint, LitFloat, LitChar, LitStr, LitByteStr);

impl Remake for Lit {
    fn remake(&self) -> Self {
        if turn(3) == 2 {
            // by way of syn
            return Lit::try_from(parsel::syn::Lit::from(self.clone())).expect("literal");
        }
        match self {
            Lit::Bool(l) => l.value().into(),
            Lit::Byte(l) => l.value().into(),
            Lit::Int(l) => l.value().into(),
            Lit::Uint(l) => l.value().into(),
            Lit::Float(l) => l.value().into(),
            Lit::Char(l) => l.value().into(),
            Lit::Str(l) => (&*l.value()).into(),
            Lit::ByteStr(l) => (&*l.value()).into(),
        }
    }
}

impl<T: Remake> Remake for Box<T> {
    fn remake(&self) -> Self {
        Box::new((**self).remake())
    }
}

impl<L: Remake, R: Remake> Remake for Either<L, R> {
    fn remake(&self) -> Self {
        self.as_ref().map(L::remake, R::remake)
    }
}

impl<O: Remake, T: Remake> Remake for LeftAssoc<O, T> {
    fn remake(&self) -> Self {
        match self {
            LeftAssoc::Binary { lhs, op, rhs } => LeftAssoc::Binary { lhs: lhs.remake(), op: op.remake(), rhs: rhs.remake() },
            LeftAssoc::Rhs(t) => t.remake().into(),
        }
    }
}

impl<O: Remake, T: Remake> Remake for RightAssoc<O, T> {
    fn remake(&self) -> Self {
        match self {
            RightAssoc::Binary { lhs, op, rhs } => RightAssoc::Binary { lhs: lhs.remake(), op: op.remake(), rhs: rhs.remake() },
            RightAssoc::Lhs(t) => t.remake().into(),
        }
    }
}

macro_rules! delimited {
    ($($t:ident),*) => { $(impl<T: Remake + ToTokens> Remake for $t<T> {
        fn remake(&self) -> Self {
            match turn(3) {
                0 => $t::new((**self).remake(), Span::call_site()),
                1 => $t::from((Default::default(), (**self).remake())),
                _ => $t::from((**self).remake()),
            }
        }
    })* };
}
delimited!(Paren, Bracket, Brace);

impl<P: Remake, T: Remake> Remake for Maybe<P, T> {
    fn remake(&self) -> Self {
        self.as_parts().map(|(p, t)| (p.remake(), t.remake())).into()
    }
}

impl<T: Remake> Remake for Any<T> {
    fn remake(&self) -> Self {
        let mut a: Any<T> = Any::new();
        a.extend(self.iter().map(T::remake));
        a
    }
}

impl<T: Remake, P: Default> Remake for Punctuated<T, P> {
    fn remake(&self) -> Self {
        let mut p: Punctuated<T, P> = self.iter().map(T::remake).collect();
        if self.trailing_punct() {
            p.push_punct(P::default());
        }
        p
    }
}

impl<T: Remake + ToTokens, P: Default + ToTokens> Remake for Separated<T, P> {
    fn remake(&self) -> Self {
        let mut s = Separated::try_from(self.iter().take(1).map(T::remake).collect::<parsel::syn::punctuated::Punctuated<T, P>>()).expect("one item");
        for t in self.iter().skip(1) {
            s.push_value(t.remake());
        }
        s
    }
}

macro_rules! parts {
    ($($t:ident $c:ident ($($x:ident),*) $({$($y:ident),*})?;)*) => { $(impl Remake for $t {
        fn remake(&self) -> Self {
            let $c($($x),*) = self;
            $c($($x.remake()),*)
        }
    })* };
}
parts! {
    Expr Expr(a);
    Cmp Cmp(a, b, c);
    Arm Arm(a, b, c);
}

impl Remake for Body {
    fn remake(&self) -> Self {
        Body { first: self.first.remake(), value: self.value.remake() }
    }
}

impl Remake for Cond {
    fn remake(&self) -> Self {
        Cond { by: self.by.remake(), cond: self.cond.remake(), yes: self.yes.remake(), or: self.or.remake(), no: self.no.remake() }
    }
}

impl Remake for Rel {
    fn remake(&self) -> Self {
        match self {
            Rel::Eq(a) => Rel::Eq(a.remake()),
            Rel::Ne(a) => Rel::Ne(a.remake()),
            Rel::Le(a) => Rel::Le(a.remake()),
            Rel::Ge(a) => Rel::Ge(a.remake()),
            Rel::Lt(a) => Rel::Lt(a.remake()),
            Rel::Gt(a) => Rel::Gt(a.remake()),
        }
    }
}

impl Remake for Stmt {
    fn remake(&self) -> Self {
        match self {
            Stmt::Let(a, b, c, d, e, f, g) => Stmt::Let(a.remake(), b.remake(), c.remake(), d.remake(), e.remake(), f.remake(), g.remake()),
            Stmt::Set(a, b, c, d) => Stmt::Set(a.remake(), b.remake(), c.remake(), d.remake()),
        }
    }
}

impl Remake for Unary {
    fn remake(&self) -> Self {
        use Unary::*;
        match self {
            Paren(a) => Paren(a.remake()),
            Int(a) => Int(a.remake()),
            Uint(a) => Uint(a.remake()),
            Neg(a, b) => Neg(a.remake(), b.remake()),
            Not(a, b) => Not(a.remake(), b.remake()),
            If(a) => If(a.remake()),
            Match { by, what, arms } => Match { by: by.remake(), what: what.remake(), arms: arms.remake() },
            Block(a) => Block(a.remake()),
            Pick(a, b) => Pick(a.remake(), b.remake()),
            Field(a, b, c) => Field(a.remake(), b.remake(), c.remake()),
            Call(a, b) => Call(a.remake(), b.remake()),
            Name(a) => Name(a.remake()),
        }
    }
}

fn emit<T: Parse + ToTokens + Remake + std::fmt::Display>(how: u64, ts: TokenStream) -> Result<TokenStream> {
    HOW.with(|h| h.set(how as u32 * 8));
    let t: T = parsel::parse2::<Whole<T>>(ts)?.0;
    let lex = |s: &str| s.parse::<TokenStream>().map_err(Error::from);
    Ok(match how % 8 {
        // the nodes as they are
        0 => t.into_token_stream(),
        // parsed again from the print
        1 => parsel::parse2::<T>(t.into_token_stream())?.into_token_stream(),
        // made anew
        2 | 3 => t.remake().into_token_stream(),
        // as text
        4 => lex(&t.to_string())?,
        5 => lex(&format!("{t:#}"))?,
        6 => {
            let mut s = String::new();
            let indent = "\t ";
            parsel::util::TokenStreamFormatter::with_indent(indent, &mut s)?.write_ast_node(&t).map_err(|e| Error::new(Span::call_site(), e))?;
            lex(&s)?
        }
        // made anew, as text, parsed
        _ => {
            let s = t.remake().to_string();
            parsel::parse_str::<T>(&s)?.into_token_stream()
        }
    })
}

#[derive(parsel::Parse)]
struct Whole<T>(T, #[allow(dead_code)] Eof);

#[derive(parsel::Parse)]
struct How(LitUint, TokenStream);

pub fn say(ts: TokenStream) -> Result<TokenStream> {
    let How(how, ts) = parsel::parse2(ts)?;
    emit::<Expr>(how.value(), ts)
}

pub fn lit(ts: TokenStream) -> Result<TokenStream> {
    let How(kind, ts) = parsel::parse2(ts)?;
    let How(how, ts) = parsel::parse2(ts)?;
    let how = how.value();
    match kind.value() {
        0 => emit::<Lit>(how, ts),
        1 => emit::<LitBool>(how, ts),
        2 => emit::<LitByte>(how, ts),
        3 => emit::<LitInt>(how, ts),
        4 => emit::<LitUint>(how, ts),
        5 => emit::<LitFloat>(how, ts),
        6 => emit::<LitChar>(how, ts),
        7 => emit::<LitStr>(how, ts),
        _ => emit::<LitByteStr>(how, ts),
    }
}
