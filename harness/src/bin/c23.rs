//! C23: entry points agree with each other.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use parsel::{try_parse_quote, try_parse_quote_spanned, Parse, Result as PR, ToTokens};
use proc_macro2::{Span, TokenStream};
use types::*;
use vh::engine::*;
use vh::gen::{render, Gen, Piece};
use vh::node::{fuel, Node};
use vh::run::*;
use vh::tok::{canon_of, leaf_spans, lex, some_spans, toks, Sp, Tok};
use vh::{ck, ck_eq, lits, Ch};

/// texts that do not even have tokens
fn unlexable(ts: &[Typ], ch: &mut Ch, ob: &mut Ob) -> R {
    const BAD: &[&str] = &["(", ")", "]", "}", "\"", "'", "/*", "b\"é\"", "'ab'", "r#\"", "\\", "`", "0x", "1_u8é", "\"\\q\"", "b'é'", "\u{0}", "r#self", "c\"\\0\"", "{]", "([)]", "0b2", "\u{200b}"];
    let t = &ts[ch.idx(ts.len())];
    let mut p: Vec<Piece> = vec![];
    Gen::new(&t.info, 12, 4).gen(&t.g, ch, 0, &mut p);
    let mut src = render(&p, ch);
    let b = ch.pick(BAD);
    let at = (0..=src.len()).filter(|k| src.is_char_boundary(*k)).collect::<Vec<_>>();
    src.insert_str(at[ch.idx(at.len())], b);
    fuel(FUEL);
    let (a, b) = ((t.ops.from_str)(&src), (t.ops.parse_str)(&src));
    let lexed = lex(&src);
    ob.case(lexed.is_none(), describe(t, &src));
    ob.class(if lexed.is_none() { "no tokens" } else { "tokens" });
    ck_eq!(a.is_ok(), b.is_ok(), "{}: from_str and parse_str", t.ops.name);
    ck!(lexed.is_some() || a.is_err(), "{}: a value from a text without tokens", t.ops.name);
    if let (Err(a), Err(b)) = (a, b) {
        ck_eq!(a.to_string(), b.to_string(), "{}: message", t.ops.name);
        ck_eq!(Sp::of(a.span()), Sp::of(b.span()), "{}: location", t.ops.name);
        ck!(!a.to_string().is_empty(), "{}: no message", t.ops.name);
    }
    Ok(())
}

fn same_outcome<T: PartialEq + ToTokens>(a: &PR<T>, b: &PR<T>, how: &str) -> R {
    match (a, b) {
        (Ok(x), Ok(y)) => ck!(x == y && canon_of(&toks(x.to_token_stream()), true) == canon_of(&toks(y.to_token_stream()), true), "{how}: values differ"),
        (Err(x), Err(y)) => {
            ck_eq!(x.to_string(), y.to_string(), "{how}: message");
            ck_eq!(Sp::of(x.span()), Sp::of(y.span()), "{how}: location");
        }
        _ => return Err(format!("{how}: {} against {}", if a.is_ok() { "a value" } else { "an error" }, if b.is_ok() { "a value" } else { "an error" })),
    }
    Ok(())
}

/// The bodies of quoting macros are program text: a fixed set of them, each with arbitrary
/// interpolated values. `x` is a parsed node, `y` a plain value, `z` a list of nodes.
macro_rules! bodies {
    ($($n:ident: |$x:ident, $y:ident, $z:ident| $body:tt = $text:tt;)*) => {
        const BODIES: &[(&str, fn(&TokenStream, u64, &[TokenStream]) -> (PR<TokenStream>, Vec<PartS>), fn(Span, &TokenStream, u64, &[TokenStream]) -> PR<TokenStream>)] = &[$((
            stringify!($n),
            |$x, $y, $z| {
                fn go($x: &TokenStream, $y: u64, $z: &[TokenStream]) -> PR<TokenStream> {
                    let _ = ($x, $y, $z);
                    let t: TokenStream = bodies!(@q $body);
                    Ok(t)
                }
                (go($x, $y, $z), $text.into_iter().collect())
            },
            |s, $x, $y, $z| {
                fn go(s: Span, $x: &TokenStream, $y: u64, $z: &[TokenStream]) -> PR<TokenStream> {
                    let _ = ($x, $y, $z);
                    let t: TokenStream = bodies!(@s s, $body);
                    Ok(t)
                }
                go(s, $x, $y, $z)
            },
        )),*];
    };
    (@q {$($t:tt)*}) => { try_parse_quote!($($t)*) };
    (@s $s:expr, {$($t:tt)*}) => { try_parse_quote_spanned!($s => $($t)*) };
}

/// what a body is made of
#[derive(Clone, Copy, Debug)]
enum PartS {
    Text(&'static str),
    X,
    Y,
    Z(usize),
    /// all of z with this between
    AllZ(&'static str),
}
use PartS::*;

bodies! {
    empty: |x, y, z| {} = [Text("")];
    plain: |x, y, z| { a + 1 , "lit" 'c' b'x' 2.5 -> } = [Text("a + 1 , \"lit\" 'c' b'x' 2.5 ->")];
    only: |x, y, z| { #x } = [X];
    around: |x, y, z| { a #x b } = [Text("a"), X, Text("b")];
    number: |x, y, z| { #y } = [Y];
    group: |x, y, z| { f(#x, [#y]) } = [Text("f ( "), X, Text(", ["), Y, Text("])")];
    nested: |x, y, z| { { ( [ #x ] ; ) } } = [Text("{ ( ["), X, Text("] ; ) }")];
    list: |x, y, z| { #(#z),* } = [AllZ(",")];
    glued: |x, y, z| { #(#z)* } = [AllZ("")];
    stmts: |x, y, z| { let #x = #y; #(#z;)* } = [Text("let"), X, Text("="), Y, Text(";"), AllZ(";!")];
    twice: |x, y, z| { #x += #x => { #y } } = [X, Text("+="), X, Text("=> {"), Y, Text("}")];
    keyword: |x, y, z| { if #x { } else if r#fn { _ } } = [Text("if"), X, Text("{ } else if r#fn { _ }")];
    lifetime: |x, y, z| { & 'a #x :: <#y> ... ..= } = [Text("& 'a"), X, Text(":: <"), Y, Text("> ... ..=")];
}

fn expand(parts: &[PartS], x: &TokenStream, y: u64, z: &[TokenStream]) -> String {
    let _ = Z(0);
    let mut s = String::new();
    let of = |t: &TokenStream| vh::tok::text_of(&toks(t.clone()));
    for p in parts {
        s.push(' ');
        match p {
            Text(t) => s.push_str(t),
            X => s.push_str(&of(x)),
            Y => s.push_str(&y.to_string()),
            Z(i) => s.push_str(&of(&z[*i])),
            AllZ(";!") => {
                for t in z {
                    s.push_str(&of(t));
                    s.push_str(" ; ");
                }
            }
            AllZ(sep) => {
                for (k, t) in z.iter().enumerate() {
                    if k > 0 {
                        s.push_str(sep);
                        s.push(' ');
                    }
                    s.push_str(&of(t));
                    s.push(' ');
                }
            }
        }
    }
    s
}

/// which leaves come from an interpolated stream, and their spans
fn expected_spans(parts: &[PartS], x: &TokenStream, z: &[TokenStream], rest: Option<Sp>) -> Vec<Option<Sp>> {
    let mut v = vec![];
    let keep = |t: &TokenStream, v: &mut Vec<Option<Sp>>| {
        let mut l = vec![];
        leaf_spans(&toks(t.clone()), &mut l);
        v.extend(l.into_iter().map(Some));
    };
    let _ = rest;
    // a text part may open a group that a later one closes: count leaves by characters of the text
    let text = |t: &str, v: &mut Vec<Option<Sp>>| {
        let clean: String = t.chars().map(|c| if "([{".contains(c) { '@' } else if ")]}".contains(c) { '#' } else { c }).collect();
        let n = vh::tok::count(&toks(clean.parse::<TokenStream>().expect("text part")));
        v.extend(std::iter::repeat(None).take(n));
    };
    for p in parts {
        match p {
            Text(t) => text(t, &mut v),
            X => keep(x, &mut v),
            Y => v.push(None),
            Z(i) => keep(&z[*i], &mut v),
            AllZ(sep) => {
                for (k, t) in z.iter().enumerate() {
                    if k > 0 && *sep == "," {
                        v.push(None);
                    }
                    keep(t, &mut v);
                    if *sep == ";!" {
                        v.push(None);
                    }
                }
            }
        }
    }
    v
}

/// what is interpolated repeatedly, now and then very often
fn parts(ch: &mut Ch, n: u32) -> Vec<TokenStream> {
    let v: Vec<TokenStream> = (0..ch.below(n)).map(|_| part(ch)).collect();
    let n = if ch.chance(1, 100) && !v.is_empty() { lits::length(ch, 10) } else { v.len() };
    (0..n).map(|i| v[i % v.len()].clone()).collect()
}

fn part(ch: &mut Ch) -> TokenStream {
    loop {
        let src = match ch.below(8) {
            0 => "a".to_string(),
            1 => vh::gen::ident(ch),
            2 => lits::u64_val(ch).to_string(),
            3 => {
                let s = lits::string(ch, 5);
                lits::str_spelling(ch, &s)
            }
            4 => "( b , [ c ] )".to_string(),
            5 => "\n\n  p . q".to_string(),
            6 => "-1 + { }".to_string(),
            _ => lits::float(ch).0,
        };
        if let Some((t, _)) = lex(&src) {
            return t;
        }
    }
}

/// the fixed bodies: tokens and spans
fn quoting(ch: &mut Ch, ob: &mut Ob) -> R {
    let (name, q, s) = &BODIES[ch.idx(BODIES.len())];
    let x = part(ch);
    let y = lits::u64_val(ch);
    let z = parts(ch, 5);
    let (got, parts) = q(&x, y, &z);
    let src = expand(&parts, &x, y, &z);
    ob.case(true, format!("{name}: {src}"));
    let (_, want) = lex(&src).ok_or("the expected text does not lex")?;
    let got = got.map_err(|e| format!("{name}: {e}"))?;
    ck_eq!(canon_of(&toks(got.clone()), true), canon_of(&want, true), "tokens of {name}");
    let spans = some_spans();
    let sp = *ch.pick(&spans);
    let got2 = s(sp, &x, y, &z).map_err(|e| format!("{name}, spanned: {e}"))?;
    ck_eq!(canon_of(&toks(got2.clone()), true), canon_of(&want, true), "tokens of spanned {name}");
    for (ts, own, how) in [(got, Sp::CALL_SITE, "call-site"), (got2, Sp::of(sp), "requested")] {
        let t: Vec<Tok> = toks(ts);
        let mut l = vec![];
        leaf_spans(&t, &mut l);
        let want = expected_spans(&parts, &x, &z, None);
        ck_eq!(l.len(), want.len(), "number of tokens of {name}");
        let mut k = 0;
        for (g, w) in l.iter().zip(&want) {
            match w {
                Some(w) => ck_eq!(g, w, "{name}: span of interpolated token {k}"),
                // the value interpolated by itself is not a token: quote gives it the call-site span
                None if is_number(&parts, &t, k, y) => {}
                None if how == "call-site" => {}
                None => {
                    // delimiters of a group share the requested span, or its first and last character
                    ck!(*g == own || is_delim(&t, k), "{name}: span of token {k} is {g:?}, the {how} one is {own:?}");
                }
            }
            k += 1;
        }
    }
    Ok(())
}

fn leaf_at(t: &[Tok], k: &mut usize) -> Option<String> {
    use vh::tok::K;
    for x in t {
        match &x.k {
            K::Group(d, i, ..) => {
                if *k == 0 {
                    return Some(d.to_string());
                }
                *k -= 1;
                if let Some(r) = leaf_at(i, k) {
                    return Some(r);
                }
                if *k == 0 {
                    return Some(vh::tok::close(*d).to_string());
                }
                *k -= 1;
            }
            K::Ident(s) | K::Lit(s) => {
                if *k == 0 {
                    return Some(s.clone());
                }
                *k -= 1;
            }
            K::Punct(c, _) => {
                if *k == 0 {
                    return Some(c.to_string());
                }
                *k -= 1;
            }
        }
    }
    None
}
fn is_number(parts: &[PartS], t: &[Tok], k: usize, y: u64) -> bool {
    parts.iter().any(|p| matches!(p, Y)) && leaf_at(t, &mut k.clone()).map_or(false, |s| s.starts_with(&y.to_string()))
}
fn is_delim(t: &[Tok], k: usize) -> bool {
    leaf_at(t, &mut k.clone()).map_or(false, |s| "()[]{}".contains(&s))
}

fn through<T: Parse>(x: &TokenStream, z: &[TokenStream], sp: Span) -> (PR<T>, PR<T>) {
    fn a<T: Parse>(x: &TokenStream, z: &[TokenStream]) -> PR<T> {
        let t: T = try_parse_quote!(#x #(, #z)*);
        Ok(t)
    }
    fn b<T: Parse>(x: &TokenStream, z: &[TokenStream], sp: Span) -> PR<T> {
        let t: T = try_parse_quote_spanned!(sp => #x #(, #z)*);
        Ok(t)
    }
    (a(x, z), b(x, z, sp))
}

fn typed_as<T: Node>(x: &TokenStream, z: &[TokenStream], sp: Span, ob: &mut Ob) -> R {
    let mut s = vh::tok::text_of(&toks(x.clone()));
    for t in z {
        s.push_str(" , ");
        s.push_str(&vh::tok::text_of(&toks(t.clone())));
    }
    fuel(FUEL);
    let want: PR<T> = s.parse();
    let (a, b) = through::<T>(x, z, sp);
    ob.class(if want.is_ok() { "accepted" } else { "rejected" });
    same_outcome(&a, &b, "plain and spanned quoting: ").or_else(|e| if matches!((&a, &b), (Err(x), Err(y)) if x.to_string() == y.to_string()) { Ok(()) } else { Err(e) })?;
    match (&a, &want) {
        (Ok(x), Ok(y)) => ck!(x == y, "quoting gives another value than the text {s:?}"),
        (Err(x), Err(y)) => ck_eq!(x.to_string(), y.to_string(), "message of quoting against that of the text"),
        _ => return Err(format!("quoting and the text {s:?}: {} against {}", a.is_ok(), want.is_ok())),
    }
    Ok(())
}

/// quoting into typed nodes: values or errors, never a panic
fn typed(ch: &mut Ch, ob: &mut Ob) -> R {
    let x = part(ch);
    let z = parts(ch, 4);
    let spans = some_spans();
    let sp = *ch.pick(&spans);
    let k = ch.below(10);
    ob.case(true, format!("{k}: {x} {}", z.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" , ")));
    match k {
        0 => typed_as::<Lit>(&x, &z, sp, ob),
        1 => typed_as::<Punctuated<Lit, Comma>>(&x, &z, sp, ob),
        2 => typed_as::<Separated<Word, Comma>>(&x, &z, sp, ob),
        3 => typed_as::<Separated<Either<Word, Lit>, Comma>>(&x, &z, sp, ob),
        4 => typed_as::<LitUint>(&x, &z, sp, ob),
        5 => typed_as::<Word>(&x, &z, sp, ob),
        6 => typed_as::<Punctuated<Either<Paren<Any<Either<Word, Either<Comma, Bracket<Word>>>>>, Either<Lit, Word>>, Comma>>(&x, &z, sp, ob),
        7 => typed_as::<Maybe<LitStr>>(&x, &z, sp, ob),
        8 => typed_as::<Separated<LongFirst, Comma>>(&x, &z, sp, ob),
        _ => typed_as::<LeftAssoc<Comma, Either<Lit, Id>>>(&x, &z, sp, ob),
    }
}

fn main() {
    vh::run::main(Prop {
        id: "C23",
        rule: "types: at least one token; texts without tokens: the text has no token stream; quoting: all; distinct = different (type, text) pairs or bodies and interpolated tokens",
        subs: vec![
            types_sub("derived", derived_types(), 160_000, 6_000_000, agree),
            types_sub("helpers", helper_types(), 160_000, 6_000_000, agree),
            types_sub("lookahead", lookahead_types(), 20_000, 1_000_000, agree),
            long_sub("long sequences", all_types(), 2000, 2_000, 100_000, agree_on),
            text_sub("deep nesting", derived_types(), 2_000, 100_000, deep_text, agree_on),
            {
                let ts = all_types();
                sub("texts without tokens", 160_000, 6_000_000, (0, 80), move |ch, ob| unlexable(&ts, ch, ob))
            },
            sub("quoting", 120_000, 4_000_000, (0, 60), quoting),
            sub("typed quoting", 160_000, 6_000_000, (0, 50), typed),
        ],
        probe: None,
        assumptions: vec!["the program text in the quoting macros is one of 14 bodies; what is interpolated is arbitrary"],
    })
}
