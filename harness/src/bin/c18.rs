//! C18: source locations.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use types::*;
use vh::engine::*;
use parsel::ast::*;
use parsel::{Span, ToTokens, TokenTree};
use vh::node::Dump;
use vh::run::*;
use vh::tok::{leaf_spans, some_spans, toks, Sp};
use vh::{ck, ck_eq, lits, Ch};

/// a setter moves the leaf, and changes nothing else
fn setters(ch: &mut Ch, ob: &mut Ob) -> R {
    let spans = some_spans();
    let (s, s2) = (*ch.pick(&spans), *ch.pick(&spans));
    let k = ch.below(20);
    let neg = |ch: &mut Ch| if ch.flag() { "-" } else { "" };
    let text = match k {
        0 => ch.flag().to_string(),
        1 => lits::byte_spelling(ch, 77),
        2 => format!("{}{}", neg(ch), lits::i64_val(ch).unsigned_abs() >> 1),
        3 => lits::u64_val(ch).to_string(),
        4 => format!("{}{}", neg(ch), lits::float(ch).0),
        5 => {
            let c = lits::chr(ch);
            lits::char_spelling(ch, c)
        }
        6 => {
            let v = lits::string(ch, 8);
            lits::str_spelling(ch, &v)
        }
        7 => {
            let v = lits::bytes(ch, 8);
            lits::bstr_spelling(ch, &v)
        }
        8 => "if".into(),
        9 => "_".into(),
        10 => vh::gen::ident(ch),
        11 => ["true", "false"][ch.idx(2)].into(),
        12 => format!("{}7.5", neg(ch)),
        13 => format!("{}12", neg(ch)),
        14 => "b'x'".into(),
        15 => "'y'".into(),
        16 => "\"z\"".into(),
        17 => "b\"w\"".into(),
        18 => "fn".into(),
        _ => "été".into(),
    };
    let src = format!("{}{text}", ch.pick(&["", " ", "\n\n  ", "/* é */"]));
    ob.case(true, format!("{k} {src:?} {:?} {:?}", Sp::of(s), Sp::of(s2)));
    macro_rules! leaf {
        ($t:ty, |$l:ident| $($more:expr),*) => {{
            let Ok(a) = src.parse::<$t>() else {
                ob.discarded = true;
                return Ok(());
            };
            let start = src.len() - text.len();
            let want = vh::node::expected_places(&src, start, src.len());
            ck_eq!(vh::node::places(&a.span(), &src), want, "location of {src:?}");
            let mut b = a.clone();
            for x in [s, s2, a.span(), s] {
                b.set_span(x);
                let n = stringify!($t);
                ck_eq!(Sp::of(b.span()), Sp::of(x), "{n}: span() after set_span");
                ck!(a.v().same(&b.v(), false), "{n}: set_span changes {} to {}", a.v().show(), b.v().show());
                ck!(a == b && a.to_string() == b.to_string(), "{n}: set_span changes the value");
                let mut l = vec![];
                leaf_spans(&toks(b.to_token_stream()), &mut l);
                ck!(!l.is_empty() && l.iter().all(|l| *l == Sp::of(x)), "{n}: printed spans after set_span: {l:?}, expected {:?}", Sp::of(x));
                ck_eq!(Sp::of(parsel::Spanned::span(&b)), Sp::of(x), "{n}: span of the node after set_span");
                let $l = b.clone();
                ck_eq!(Sp::of($l.span()), Sp::of(x), "{n}: span of a clone");
                for (k, y) in [$($more),*].into_iter().enumerate() {
                    let y: Span = y;
                    ck_eq!(Sp::of(y), Sp::of(x), "{n}: span after conversion {k}");
                }
            }
        }};
    }
    match k {
        0 => leaf!(LitBool, |l| l.token().span(), TokenTree::from(l.clone()).span(), syn::LitBool::from(l.clone()).span(), Lit::from(l.clone()).span(), syn::Lit::from(Lit::from(l.clone())).span()),
        1 => leaf!(LitByte, |l| l.token().span(), TokenTree::from(l.clone()).span(), syn::LitByte::from(l.clone()).span(), Lit::from(l.clone()).span(), syn::Lit::from(Lit::from(l.clone())).span()),
        2 => leaf!(LitInt, |l| l.token().span(), TokenTree::from(l.clone()).span(), syn::LitInt::from(l.clone()).span(), Lit::from(l.clone()).span(), syn::Lit::from(Lit::from(l.clone())).span()),
        3 => leaf!(LitUint, |l| l.token().span(), TokenTree::from(l.clone()).span(), syn::LitInt::from(l.clone()).span(), Lit::from(l.clone()).span(), syn::Lit::from(Lit::from(l.clone())).span()),
        4 => leaf!(LitFloat, |l| l.token().span(), TokenTree::from(l.clone()).span(), syn::LitFloat::from(l.clone()).span(), Lit::from(l.clone()).span(), syn::Lit::from(Lit::from(l.clone())).span()),
        5 => leaf!(LitChar, |l| l.token().span(), TokenTree::from(l.clone()).span(), syn::LitChar::from(l.clone()).span(), Lit::from(l.clone()).span(), syn::Lit::from(Lit::from(l.clone())).span()),
        6 => leaf!(LitStr, |l| l.token().span(), TokenTree::from(l.clone()).span(), syn::LitStr::from(l.clone()).span(), Lit::from(l.clone()).span(), syn::Lit::from(Lit::from(l.clone())).span()),
        7 => leaf!(LitByteStr, |l| l.token().span(), TokenTree::from(l.clone()).span(), syn::LitByteStr::from(l.clone()).span(), Lit::from(l.clone()).span(), syn::Lit::from(Lit::from(l.clone())).span()),
        8 => leaf!(kw::If, |l| l.token().span(), TokenTree::from(l).span()),
        9 => leaf!(kw::Under, |l| l.token().span(), TokenTree::from(l).span()),
        10 => leaf!(Id2, |l| l.token().span(), Ident::from(l.clone()).span()),
        11..=17 => leaf!(Lit, |l| syn::Lit::from(l.clone()).span()),
        18 => leaf!(Word, |l| l.token().span(), Ident::from(l.clone()).span()),
        _ => leaf!(kw::Ete, |l| l.token().span(), TokenTree::from(l).span()),
    }
    Ok(())
}

fn main() {
    vh::run::main(Prop {
        id: "C18",
        rule: "the parsed node has at least one token; setters: all; distinct = different (type, text) pairs",
        subs: vec![
            types_sub("derived", derived_types(), 200_000, 10_000_000, spans),
            types_sub("helpers", helper_types(), 200_000, 10_000_000, spans),
            types_sub("lookahead", lookahead_types(), 50_000, 2_000_000, spans),
            long_sub("long sequences", all_types(), 3000, 4_000, 200_000, spans_on),
            sub("setters", 60_000, 2_000_000, (0, 40), setters),
            text_sub("deep nesting", derived_types(), 4_000, 200_000, deep_text, spans_on),
        ],
        probe: None,
        assumptions: vec![],
    })
}
