//! C09: delimited nodes.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use parsel::ToTokens;
use std::ops::{Deref, DerefMut};
use types::*;
use vh::engine::*;
use vh::node::Ops;
use vh::run::*;
use vh::tok::{canon_of, some_spans, toks, Sp, K};
use vh::{ck, ck_eq, genum, gtuple, ops_list, Ch};

genum!(ByDelim { P(a: Paren<Ident>), K(a: Bracket<Ident>), B(a: Brace<Ident>), P2(a: Paren<LitInt>), K2(a: Bracket<Empty>), B2(a: Brace<Any<Lit>>, b: Semi) });
gtuple!(After(a: Paren<Any<Ident>>, b: Maybe<Comma, Ident>, c: Any<Bracket<LitInt>>, d: Any<Brace<Empty>>, e: Any<Ident>));
gtuple!(Deep(a: Paren<Bracket<Brace<Paren<Any<Lit>>>>>, b: Paren<Bracket<Brace<Empty>>>));
genum!(Tuple rec { T(a: Box<Paren<Punctuated<Tuple, Comma>>>), L(a: Box<Bracket<Any<Tuple>>>), S(a: Box<Brace<Tuple>>), I(a: Ident) });

fn list() -> Vec<Ops> {
    ops_list![
        Paren<Ident>, Bracket<Ident>, Brace<Ident>, Paren<LitInt>, Bracket<LitInt>, Brace<LitInt>, Paren<Empty>, Bracket<Empty>, Brace<Empty>,
        Paren<Eof>, Bracket<Eof>, Brace<Eof>, Paren<NotEof>, Bracket<NotEof>, Brace<NotEof>, Paren<Maybe<Plus, Ident>>, Bracket<Maybe<Plus, Ident>>, Brace<Maybe<Plus, Ident>>,
        Paren<Any<Word>>, Bracket<Any<Word>>, Brace<Any<Word>>, Paren<Punctuated<Ident, Comma>>, Bracket<Punctuated<Lit, Comma>>, Brace<Punctuated<Id, Semi>>,
        Paren<Separated<Ident, Comma>>, Bracket<Separated<LitInt, Semi>>, Brace<Separated<Word, Dot>>, Paren<Many<Lit>>, Bracket<Many<Ident>>, Brace<Many<Stmt>>,
        Paren<Paren<Paren<Lit>>>, Brace<Bracket<Paren<Empty>>>, Bracket<Brace<Any<Ident>>>, Paren<Either<Ident, LitInt>>, Bracket<Either<Any<Ident>, LitInt>>,
        Paren<LeftAssoc<Plus, Ident>>, Brace<RightAssoc<Eq_, Paren<Ident>>>, Paren<Far>, Brace<Stmt>, Bracket<Json>, Paren<Box<Bracket<Lit>>>,
        Any<Paren<Ident>>, Any<Either<Paren<Ident>, Bracket<Ident>>>, Maybe<Paren<Ident>, Ident>, Maybe<Bracket<Empty>, Brace<Any<Lit>>>, Either<Paren<Ident>, Brace<Ident>>,
        ByDelim, After, Deep, Tuple, GroupEof, FarGroup, Back, Tree,
    ]
}

const CONTENT: &[&str] = &["", "a", "1", "a b", "a , b", "1 ; 2", "(a)", "[1]", "{}", "+ a", "\"s\"", "a , ", "(", "- 1", "((1))", "[[a]]", "fn", "a b c d e f"];

/// every delimiter node against every delimiter, content and what follows
fn matrix(i: u64, ob: &mut Ob) -> R {
    let i = i as usize;
    let (c, rest) = (CONTENT[i % CONTENT.len()], i / CONTENT.len());
    let (d, rest) = (["(", "[", "{", ""][rest % 4], rest / 4);
    let (after, before) = (["", "x", "()", ","][rest % 4], ["", "y ", "() "][rest / 4 % 3]);
    let close = match d {
        "(" => ")",
        "[" => "]",
        "{" => "}",
        _ => "",
    };
    let src = format!("{before}{d}{c}{close} {after}");
    ob.case(true, src.clone());
    let Some((_, t)) = vh::tok::lex(&src) else {
        ob.discarded = true;
        return Ok(());
    };
    macro_rules! one {
        ($($w:ident $dc:literal),*) => {$(
            one!(@ $w, $dc, Any<Word>, |s: &str| s.parse::<Any<Word>>().is_ok());
            one!(@ $w, $dc, Empty, |s: &str| s.trim().is_empty());
            one!(@ $w, $dc, Any<proc_macro2::TokenTree>, |_: &str| true);
            one!(@ $w, $dc, LitInt, |s: &str| s.parse::<LitInt>().is_ok());
        )*};
        (@ $w:ident, $dc:literal, $t:ty, $inner:expr) => {{
            let want = t.len() == 1 && matches!(&t[0].k, K::Group(d, ..) if *d == $dc) && match &t[0].k {
                K::Group(_, v, ..) => $inner(&vh::tok::text_of(v)),
                _ => false,
            };
            let got = parsel::parse_str::<$w<$t>>(&src);
            ck!(got.is_ok() == want, "{}<{}>: {} expected {}", stringify!($w), stringify!($t), if got.is_ok() { "accepted," } else { "rejected," }, if want { "accepted" } else { "rejected" });
            if let Ok(g) = got {
                ck_eq!(canon_of(&toks(g.to_token_stream()), true), canon_of(&t, true), "printed {}", stringify!($w));
            }
        }};
    }
    one!(Paren '(', Bracket '[', Brace '{');
    Ok(())
}

macro_rules! accessors {
    ($fname:ident, $w:ident, $d:literal, $as_:ident, $into:ident) => {
        fn $fname(ch: &mut Ch, ob: &mut Ob) -> R {
            let n = stringify!($w);
            let spans = some_spans();
            let (s1, s2) = (*ch.pick(&spans), *ch.pick(&spans));
            let val = LitStr::new(vh::lits::string(ch, 4), s2);
            let spo = Sp::of;
            ob.case(true, format!("{n} {:?} {:?} {:?}", val.value(), spo(s1), spo(s2)));
            let check = |x: $w<LitStr>, v: &LitStr, s: proc_macro2::Span, how: &str| -> R {
                ck_eq!(spo(x.$as_().span.join()), spo(s), "{n}: delimiter span after {how}");
                let (d, i) = x.as_parts();
                ck_eq!(spo(d.span.join()), spo(s), "{n}: delimiter span of as_parts after {how}");
                ck!(i == v && *x == *v && *x.deref() == *v && *AsRef::<LitStr>::as_ref(&x) == *v, "{n}: inner value after {how}");
                ck_eq!(spo(i.span()), spo(v.span()), "{n}: span of the inner value after {how}");
                ck_eq!(x.clone().into_inner(), v.clone(), "{n}: into_inner after {how}");
                ck_eq!(spo(x.clone().$into().span.join()), spo(s), "{n}: {} after {how}", stringify!($into));
                let (d, i) = x.clone().into_parts();
                ck_eq!(spo(d.span.join()), spo(s), "{n}: delimiter span of into_parts after {how}");
                ck_eq!(i, v.clone(), "{n}: inner value of into_parts after {how}");
                let back = $w::from((d, i));
                ck!(back == x, "{n}: from(into_parts) differs after {how}");
                ck_eq!(spo(back.$as_().span.join()), spo(s), "{n}: delimiter span of from(into_parts) after {how}");
                let t = toks(x.to_token_stream());
                ck!(t.len() == 1, "{n}: printed {} tokens after {how}", t.len());
                match &t[0].k {
                    K::Group($d, inner, ..) => {
                        ck_eq!(t[0].sp, spo(s), "{n}: span of the printed group after {how}");
                        ck_eq!(inner.len(), 1, "{n}: tokens inside the printed group after {how}");
                        ck_eq!(inner[0].sp, spo(v.span()), "{n}: span of the printed content after {how}");
                    }
                    k => return Err(format!("{n}: printed {k:?} after {how}")),
                }
                ck!(x == x.clone(), "{n}: clone differs");
                Ok(())
            };
            check($w::new(val.clone(), s1), &val, s1, "new")?;
            check($w::from(val.clone()), &val, s2, "from the inner value")?;
            check($w::from((token::$w(s1), val.clone())), &val, s1, "from parts")?;
            let v2 = LitStr::new(vh::lits::string(ch, 4), s1);
            let mut m = $w::new(val.clone(), s1);
            *m.deref_mut() = v2.clone();
            check(m.clone(), &v2, s1, "deref_mut")?;
            *AsMut::<LitStr>::as_mut(&mut m) = val.clone();
            check(m, &val, s1, "as_mut")?;
            let d = $w::<LitStr>::default();
            ck_eq!(d.into_inner(), LitStr::default(), "{n}: default");
            Ok(())
        }
    };
}
accessors!(parens, Paren, '(', as_parens, into_parens);
accessors!(brackets, Bracket, '[', as_brackets, into_brackets);
accessors!(braces, Brace, '{', as_braces, into_braces);

fn main() {
    vh::run::main(Prop {
        id: "C09",
        rule: "parsing: at least one token; accessors: every case; distinct = different (type, text) or parameters",
        subs: vec![
            exh("matrix", (CONTENT.len() * 4 * 4 * 3) as u64, matrix),
            types_sub("groups", Typ::all(list()), 200_000, 10_000_000, accept),
            types_sub("what follows", Typ::all(list()), 120_000, 6_000_000, consumption),
            types_sub("printing", Typ::all(list()), 60_000, 3_000_000, print),
            types_sub("delimiter spans", Typ::all(list()), 60_000, 3_000_000, spans),
            text_sub("deep nesting", derived_types(), 5_000, 200_000, deep_text, accept_on),
            sub("accessors", 20_000, 500_000, (0, 24), |ch, ob| {
                match ch.below(3) {
                    0 => parens(ch, ob),
                    1 => brackets(ch, ob),
                    _ => braces(ch, ob),
                }
            }),
        ],
        probe: None,
        assumptions: vec![],
    })
}
