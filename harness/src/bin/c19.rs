//! C19: parsing is total and deterministic.
#[allow(dead_code)]
#[path = "../common/trees.rs"]
mod trees;
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, TokenStream, TokenTree};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use types::*;
use vh::engine::*;
use vh::gen::{render, Gen, Piece};
use vh::node::{fuel, used, Fu};
use vh::run::*;
use vh::tok::lex;
use vh::{ck, ck_eq, lits, Ch};

const BITS: &[&str] = &[
    "a", "b", "if", "_", "r#if", "r#fn", "1", "-1", "-", "0", "-0", "1.5", "1e999", "-1e999", "0x", "0xff", "0b2", "0b", "1e", "1e+", "1.", "1.foo", "1..2", "340282366920938463463374607431768211456",
    "99999999999999999999999999999999999999999999", "9223372036854775808", "-9223372036854775808", "18446744073709551616", "1u8", "300u8", "1_i128", "1f32", "1.5f16", "1e5_f64", "\"", "\"a\"", "\"\\\"",
    "\"\\u{110000}\"", "\"\\x80\"", "\"\\q\"", "\"a\"suf", "b\"", "b\"\\xff\"", "b\"é\"", "br#\"", "r#\"a\"#", "r##\"\"#", "c\"x\"", "c\"\\0\"", "'", "'a'", "''", "'ab'", "'a", "b'a'", "b'é'", "b''",
    "'\\''", "true", "false", "(", ")", "[", "]", "{", "}", "()", "[]", "{}", ",", ";", ":", "::", "=", "==", "=>", "->", "<<", "<", "...", "..", ".", "+", "*", "?", "@", "!", "#", "$", "~", "\\", "`",
    "//", "///", "/*", "*/", "/**/", "//!", "/*!x*/", "\n", " ", "\t", "\r", "\u{feff}", "\u{0}", "\u{200e}", "\u{85}", "é", "漢", "🦀", "\u{301}", "r#", "r#_", "r#self", "self", "Self", "crate", "let",
    "while", "select", "from", "fn", "null", "union", "été",
];

fn soup(ch: &mut Ch) -> String {
    let mut s = String::new();
    let n = ch.size(60);
    let spaced = ch.flag();
    for _ in 0..n {
        match ch.weighted(&[6, 1, 1]) {
            0 => s.push_str(ch.pick(BITS)),
            1 => s.push(char::from_u32(ch.below(128)).unwrap()),
            _ => s.push(lits::chr(ch)),
        }
        if spaced {
            s.push(' ')
        }
    }
    s
}

fn soups(ts: &[Typ], ch: &mut Ch, ob: &mut Ob) -> R {
    let t = &ts[ch.idx(ts.len())];
    let s = soup(ch);
    ob.case(!s.trim().is_empty(), describe(t, &s));
    ob.class_if(lex(&s).is_some(), "lexable");
    total(t, &s, None, ob)
}

/// a sentence with single characters dropped, doubled, replaced
fn garbled(ts: &[Typ], ch: &mut Ch, ob: &mut Ob) -> R {
    let t = &ts[ch.idx(ts.len())];
    let mut p: Vec<Piece> = vec![];
    Gen::new(&t.info, 40, 6).gen(&t.g, ch, 0, &mut p);
    let mut s: Vec<char> = render(&p, ch).chars().collect();
    for _ in 0..ch.below(5) {
        let at = ch.idx(s.len() + 1);
        match ch.below(4) {
            0 if at < s.len() => {
                s.remove(at);
            }
            1 if at < s.len() => {
                let c = s[at];
                s.insert(at, c);
            }
            2 if at < s.len() => {
                let b = ch.idx(s.len());
                s.swap(at, b);
            }
            _ => {
                let b = ch.pick(BITS);
                s.splice(at..at, b.chars());
            }
        }
    }
    let s: String = s.into_iter().collect();
    ob.case(!s.trim().is_empty(), describe(t, &s));
    ob.class_if(lex(&s).is_some(), "lexable");
    total(t, &s, None, ob)
}

/// token streams that no text gives
fn streams(ts: &[Typ], ch: &mut Ch, ob: &mut Ob) -> R {
    let t = &ts[ch.idx(ts.len())];
    let v = trees::gen(ch, trees::Opts { depth: 4, none: true, neg: true, any_joint: true }, 30);
    ob.case(!v.is_empty(), format!("{} <- {}", t.ops.name, trees::show(&v)));
    total(t, "", Some(trees::stream(&v)), ob)
}

fn wrap(ts: TokenStream, ch: &mut Ch, rate: u32, log: &mut Vec<&'static str>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut k = 0;
    while k < v.len() {
        let t = v[k].clone();
        k += 1;
        let t = match t {
            TokenTree::Group(g) => {
                let mut d = g.delimiter();
                if ch.chance(1, 20) {
                    d = Delimiter::None;
                    log.push("group made invisible");
                }
                let mut n = Group::new(d, wrap(g.stream(), ch, rate, log));
                n.set_span(g.span());
                n.into()
            }
            TokenTree::Punct(p) => {
                if p.as_char() == '-' && ch.flag() {
                    if let Some(TokenTree::Literal(l)) = v.get(k) {
                        let s = l.to_string();
                        if s.starts_with(|c: char| c.is_ascii_digit()) {
                            if let Ok(l) = Literal::from_str(&format!("-{s}")) {
                                k += 1;
                                log.push("sign in the literal");
                                out.push(l.into());
                                continue;
                            }
                        }
                    }
                }
                let joint = if ch.chance(1, 8) { p.spacing() == Spacing::Alone } else { p.spacing() == Spacing::Joint };
                Punct::new(p.as_char(), if joint { Spacing::Joint } else { Spacing::Alone }).into()
            }
            t => t,
        };
        if ch.chance(rate, 12) {
            // an invisible group over a run of tokens, possibly empty, possibly twice
            let n = ch.idx(3.min(v.len() - k) + 1);
            let mut run = vec![t];
            for _ in 0..n {
                run.push(v[k].clone());
                k += 1;
            }
            let mut g = Group::new(Delimiter::None, run.into_iter().collect());
            log.push("invisible group");
            if ch.chance(1, 3) {
                g = Group::new(Delimiter::None, std::iter::once(TokenTree::from(g)).collect());
            }
            out.push(g.into());
        } else {
            if ch.chance(rate, 60) {
                log.push("empty invisible group");
                out.push(Group::new(Delimiter::None, TokenStream::new()).into());
            }
            out.push(t);
        }
    }
    out.into_iter().collect()
}

/// sentences of the type as a macro would pass them on: with invisible groups, signed literal
/// tokens, other spacing
fn macro_like(ts: &[Typ], ch: &mut Ch, ob: &mut Ob) -> R {
    let t = &ts[ch.idx(ts.len())];
    let Some(i) = input(t, ch, Mode { mutate: 2, sentinel: 1, budget: 40, depth: 6 }) else {
        ob.discarded = true;
        return Ok(());
    };
    let rate = 1 + ch.below(6);
    let mut log = vec![];
    let w = wrap(i.ts.clone(), ch, rate, &mut log);
    ob.case(!log.is_empty(), format!("{} <- {}", t.ops.name, trees::show(&trees::model(&vh::tok::toks(w.clone())))));
    for l in log {
        ob.class(l);
    }
    total(t, "", Some(w), ob)
}

/// every use of a value of a leaf type
fn leaf<T>(src: &str, ts: Option<TokenStream>, ob: &mut Ob, same: fn(&T, &T) -> bool) -> R
where
    T: parsel::Parse + parsel::ToTokens + std::fmt::Display + std::fmt::Debug + Clone + Eq + Hash + FromStr<Err = syn::Error>,
{
    let get = || -> Result<T, syn::Error> {
        match &ts {
            Some(t) => parsel::parse2(t.clone()),
            None => src.parse(),
        }
    };
    match (get(), get()) {
        (Ok(a), Ok(b)) => {
            ob.class("accepted");
            ob.nontrivial = true;
            ck!(a == b && same(&a, &b), "parsing {src:?} twice gives different values");
            let h = |x: &T| {
                let mut h = DefaultHasher::new();
                x.hash(&mut h);
                h.finish()
            };
            ck_eq!(h(&a), h(&b), "hash of {src:?}");
            ck_eq!(h(&a), h(&a.clone()), "hash of a clone of {src:?}");
            let d = (a.to_string(), format!("{a:#}"), format!("{a:>40.3}"), format!("{a:?}"), format!("{a:#?}"), a.to_token_stream().to_string());
            ck!(!d.0.is_empty() && !d.1.is_empty() && !d.3.is_empty() && !d.5.is_empty(), "empty rendering of {src:?}: {d:?}");
        }
        (Err(a), Err(b)) => {
            ob.class("rejected");
            ck!(!a.to_string().trim().is_empty(), "empty message for {src:?}");
            ck_eq!(a.to_string(), b.to_string(), "message for {src:?}");
            let _ = (a.span().start(), a.span().end());
        }
        _ => return Err(format!("parsing {src:?} twice gives different outcomes")),
    }
    Ok(())
}

fn leaves(ch: &mut Ch, ob: &mut Ob) -> R {
    let mut src = String::new();
    match ch.below(4) {
        0 => {
            let m = lits::mag(ch);
            src = format!("{}{}", ch.pick(&["", "-", "- ", "--"]), lits::int(ch, m));
        }
        1 => src = format!("{}{}", ch.pick(&["", "-"]), lits::float(ch).0),
        2 => {
            for _ in 0..ch.range(1, 4) {
                src.push_str(ch.pick(BITS))
            }
        }
        _ => src = soup(ch),
    }
    let mut ts = None;
    if ch.chance(1, 3) {
        // as tokens, with a signed literal or an invisible group
        if let Some((t, _)) = lex(&src) {
            let mut log = vec![];
            let r = 1 + ch.below(8);
            ts = Some(wrap(t, ch, r, &mut log));
        }
    }
    fuel(FUEL);
    let k = ch.below(12);
    ob.case(false, format!("leaf {k} {src:?} {}", ts.as_ref().map_or(String::new(), |t| trees::show(&trees::model(&vh::tok::toks(t.clone()))))));
    match k {
        0 => leaf::<LitBool>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        1 => leaf::<LitByte>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        2 => leaf::<LitInt>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        3 => leaf::<LitUint>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        4 => leaf::<LitFloat>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        5 => leaf::<LitChar>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        6 => leaf::<LitStr>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        7 => leaf::<LitByteStr>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        8 => leaf::<Lit>(&src, ts, ob, |_, _| true),
        9 => leaf::<Word>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        10 => leaf::<Id>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
        _ => leaf::<kw::If>(&src, ts, ob, |a, b| a.cmp(b).is_eq()),
    }
}

fn with(ts: Vec<Typ>, f: fn(&[Typ], &mut Ch, &mut Ob) -> R) -> impl Fn(&mut Ch, &mut Ob) -> R {
    move |ch, ob| f(&ts, ch, ob)
}

fn on_text(t: &Typ, i: &Input, ob: &mut Ob) -> R {
    ob.nontrivial = !i.t.is_empty();
    total(t, &i.src, None, ob)
}

/// inputs without any nesting, but of very many tokens
fn very_long(i: u64, ob: &mut Ob) -> R {
    type Chain = LeftAssoc<Either<Plus, Comma>, Ident>;
    type Hang = RightAssoc<Either<Plus, Comma>, Ident>;
    #[derive(Debug, PartialEq, parsel::Parse, parsel::ToTokens, parsel::FromStr)]
    enum Token {
        Lit(Lit),
        Comma(Comma),
        Word(Word),
    }
    fn run<T: FromStr<Err = syn::Error> + PartialEq + parsel::ToTokens>(s: &str, ok: bool, n: usize) -> R {
        let a = s.parse::<T>();
        ck_eq!(a.is_ok(), ok, "{} on {n} times {:?}: {:?}", std::any::type_name::<T>(), &s[..12.min(s.len())], a.as_ref().err().map(|e| e.to_string()));
        match (a, s.parse::<T>()) {
            (Ok(a), Ok(b)) => {
                ck!(a == b, "not deterministic");
                ck!(!a.to_token_stream().is_empty(), "prints nothing");
                // dropping what is nested by construction is not part of this
                std::mem::forget((a, b));
                Ok(())
            }
            (Err(a), Err(b)) => {
                ck_eq!(a.to_string(), b.to_string(), "not deterministic");
                ck!(!a.to_string().is_empty(), "no message");
                Ok(())
            }
            _ => Err("not deterministic".into()),
        }
    }
    // printing and comparing a chain recurses over its tree, whose depth is bounded here
    fn chain<T: FromStr<Err = syn::Error>>(s: &str, ok: bool, n: usize) -> R {
        let a = s.parse::<T>();
        ck_eq!(a.is_ok(), ok, "{} on {n} operands: {:?}", std::any::type_name::<T>(), a.as_ref().err().map(|e| e.to_string()));
        std::mem::forget(a);
        Ok(())
    }
    let n = [5_000, 20_000, 65_537, 120_000][(i % 4) as usize];
    let k = i / 4;
    ob.case(true, format!("{k} n={n}"));
    ob.add("tokens", 2 * n as u64);
    let go = move || match k {
        0 => run::<Any<Ident>>(&"a ".repeat(n), true, n),
        1 => run::<Many<Ident>>(&"a ".repeat(n), true, n),
        2 => run::<Punctuated<Ident, Comma>>(&"a, ".repeat(n), true, n),
        3 => run::<Separated<Ident, Comma>>(&("a, ".repeat(n) + "a"), true, n),
        4 => run::<Separated<Ident, Comma>>(&"a, ".repeat(n), false, n),
        5 => run::<Any<Token>>(&"a, 1 ".repeat(n / 2), true, n),
        6 => run::<Many<Either<Comma, Token>>>(&(", a ".repeat(n) + "+"), false, n),
        7 => run::<Any<Maybe<Comma, Ident>>>(&(", a ".repeat(n) + ","), false, n),
        8 => run::<Brace<Any<Bracket<Maybe<Ident>>>>>(&format!("{{{}}}", "[a] [] ".repeat(n / 2)), true, n),
        9 => chain::<Chain>(&("a + a , ".repeat(n / 2) + "a"), true, n),
        10 => chain::<Hang>(&("a + a , ".repeat(n / 2) + "a"), true, n),
        11 => chain::<Hang>(&"a + a , ".repeat(n / 2), false, n),
        12 => run::<LitStr>(&format!("\"{}\"", "aé\\n".repeat(n)), true, n),
        _ => run::<LitUint>(&format!("{}1", "0_".repeat(n / 20)), true, n),
    };
    // the usual stack of a main thread
    on_stack(8 << 20, go)
}

/// A definition that contains itself in every position a helper type has. Each alternative begins
/// with another token, so that no more than a few attempts are made at each position of the input.
#[derive(Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr)]
enum Deep {
    Number(Fu<LitInt>),
    Prefix(Token![@], #[parsel(recursive)] Maybe<Box<Deep>, Ident>),
    Body(Plus, #[parsel(recursive)] Maybe<Minus, Box<Deep>>),
    Neither(Token![?], #[parsel(recursive)] Either<Box<Deep>, Ident>),
    Other(Token![!], #[parsel(recursive)] Either<Ident, Box<Deep>>),
    Items(#[parsel(recursive)] Bracket<Any<Box<Deep>>>),
    Between(#[parsel(recursive)] Brace<Separated<Box<Deep>, Box<Deep>>>),
    Ended(Token![$], #[parsel(recursive)] Paren<Punctuated<Box<Deep>, Semi>>),
    Left(Token![#], #[parsel(recursive)] Paren<LeftAssoc<Either<Star, Box<Deep>>, Box<Deep>>>),
    Right(Token![~], #[parsel(recursive)] Paren<RightAssoc<Comma, Maybe<Box<Deep>>>>),
    Fields { op: Token![%], #[parsel(recursive)] a: Box<Deep>, colon: Token![:], #[parsel(recursive)] b: Box<Deep> },
}

fn deep(ch: &mut Ch, d: u32, room: &mut u32, s: &mut String) {
    *room = room.saturating_sub(1);
    let k = if d == 0 || *room == 0 { 0 } else { 1 + ch.below(10) };
    // one way down, and perhaps short ones next to it
    let aside = |ch: &mut Ch| if ch.chance(1, 6) { (d - 1).min(4) } else { 0 };
    macro_rules! list {
        ($open:literal, $sep:literal, $close:literal, $($n:expr),*) => {{
            let n = *ch.pick(&[$($n),*]);
            let at = ch.idx(n);
            s.push_str($open);
            for i in 0..n {
                if i > 0 {
                    s.push_str($sep);
                }
                let d = if i == at { d - 1 } else { aside(ch) };
                deep(ch, d, room, s);
            }
            s.push_str($close);
        }};
    }
    match k {
        0 => s.push_str("7 "),
        1 => {
            s.push_str("@ ");
            deep(ch, d - 1, room, s);
            s.push_str("w ");
        }
        2 => {
            s.push_str("+ - ");
            deep(ch, d - 1, room, s);
        }
        3 | 4 => {
            s.push_str(if k == 3 { "? " } else { "! " });
            deep(ch, d - 1, room, s);
        }
        5 => list!("[", " ", "] ", 1usize, 1, 2, 3),
        6 => list!("{", " ", "} ", 1usize, 3, 3, 5),
        7 => list!("$(", ";", ") ", 1usize, 1, 2),
        8 => match ch.chance(1, 2) {
            true => list!("#(", "* ", ") ", 1usize, 2, 3),
            false => list!("#(", " ", ") ", 1usize, 3),
        },
        9 => list!("~(", ", ", ") ", 1usize, 2, 3),
        _ => list!("% ", ": ", "", 2usize),
    }
}

/// whatever contains itself is parsed in a time linear in the input
fn attempts(ch: &mut Ch, ob: &mut Ob) -> R {
    let d = match ch.weighted(&[1, 3, 2]) {
        0 => ch.range(0, 8),
        1 => ch.range(8, 40),
        _ => ch.range(40, 90),
    };
    let (mut s, mut room) = (String::new(), 4 * d + 10);
    deep(ch, d, &mut room, &mut s);
    let broken = ch.chance(1, 3);
    if broken {
        // junk somewhere: everything around it is abandoned
        let at: Vec<usize> = s.match_indices('7').map(|x| x.0).collect();
        let i = *ch.pick(&at);
        s.replace_range(i..i + 1, "=>");
    }
    ob.case(d > 0, s.clone());
    ob.class_if(d >= 20, "20+ levels");
    let tokens = s.chars().filter(|c| !c.is_whitespace()).count() as u64;
    let bound = 8 * tokens + 16;
    let (ok, u) = on_stack(64 << 20, || {
        fuel(bound);
        let r = s.parse::<Deep>();
        let u = used();
        fuel(u64::MAX);
        Ok((r.map(|_| ()).map_err(|e| e.to_string()), u))
    })?;
    ob.add("attempts", u);
    ck!(u <= bound, "{u} attempts for {tokens} tokens");
    if !broken {
        ck!(ok.is_ok(), "rejected: {ok:?}");
    }
    Ok(())
}

fn main() {
    vh::run::main(Prop {
        id: "C19",
        rule: "the input is not blank; macro-like: at least one invisible group or signed literal; leaves: accepted; distinct = different (type, input) pairs",
        subs: vec![
            sub("text soup", 300_000, 10_000_000, (0, 160), with(all_types(), soups)),
            sub("garbled sentences", 300_000, 10_000_000, (0, 220), with(all_types(), garbled)),
            sub("token streams", 300_000, 10_000_000, (0, 200), with(all_types(), streams)),
            sub("macro-like", 300_000, 10_000_000, (0, 260), with(all_types(), macro_like)),
            sub("leaves", 800_000, 20_000_000, (0, 60), leaves),
            long_sub("long sequences", all_types(), 3000, 6_000, 100_000, on_text),
            exh("very long", 56, very_long),
            sub("deep attempts", 6_000, 300_000, (0, 300), attempts),
            text_sub("deep nesting", derived_types(), 3_000, 100_000, deep_text, on_text),
        ],
        probe: None,
        assumptions: vec!["nesting up to 220 levels; repetition items that consume input"],
    })
}
