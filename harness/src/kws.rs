//! Checks of keyword types and identifiers of a declared keyword set against one source text.
use crate::gram::RUST_KW;
use crate::run::*;
use crate::tok::{lex, some_spans, Sp, K as TK};
use crate::{ck, ck_eq, Ch};
use parsel::ast::*;
use parsel::{Error, Parse, ToTokens};
use proc_macro2::{Ident as PIdent, Span, TokenStream, TokenTree};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

const SP: fn(Span) -> Sp = Sp::of;

/// what is known of one source text: its only word with its place, or that it is not a single word
pub struct Case<'a> {
    pub src: &'a str,
    pub ts: TokenStream,
    pub word: Option<(String, Sp)>,
}

fn outcome<T>(n: &str, r: Result<T, Error>, want: Result<(), Option<(&str, Sp)>>, how: &str, src: &str) -> Result<Option<T>, String> {
    match (r, want) {
        (Ok(t), Ok(())) => Ok(Some(t)),
        (Ok(_), Err(_)) => Err(format!("{n}: {how} accepts {src:?}")),
        (Err(e), Ok(())) => Err(format!("{n}: {how} rejects {src:?}: {e}")),
        (Err(e), Err(Some((m, sp)))) => {
            ck_eq!(e.to_string(), m, "{n}: message of {how} on {src:?}");
            ck_eq!(SP(e.span()), sp, "{n}: location of the error of {how} on {src:?}");
            Ok(None)
        }
        (Err(e), Err(None)) => {
            ck!(!e.to_string().is_empty(), "{n}: empty message on {src:?}");
            Ok(None)
        }
    }
}

fn all_ways<T: Parse + std::str::FromStr<Err = Error>>(n: &str, c: &Case, want: Result<(), Option<(&str, Sp)>>) -> Result<Vec<T>, String> {
    let mut v = vec![];
    v.extend(outcome(n, c.src.parse::<T>(), want, "from_str", c.src)?);
    v.extend(outcome(n, parsel::parse_str::<T>(c.src), want, "parse_str", c.src)?);
    v.extend(outcome(n, parsel::parse2::<T>(c.ts.clone()), want, "parse2", c.src)?);
    Ok(v)
}

fn one_token(n: &str, ts: TokenStream, w: &str, sp: Sp) -> R {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    match &t[..] {
        [TokenTree::Ident(i)] if i.to_string() == w => {
            ck_eq!(SP(i.span()), sp, "{n}: span of the printed word {w}");
            Ok(())
        }
        _ => Err(format!("{n}: {w} is printed as {t:?}")),
    }
}

pub fn set<K>(n: &str, declared: &[&str], c: &Case) -> R
where
    K: KeywordList + Default + Clone + PartialEq + Ord + Hash,
{
    let got: BTreeSet<&str> = K::KEYWORDS.iter().copied().collect();
    ck!(got == declared.iter().copied().collect() && K::KEYWORDS.len() == declared.len(), "{n}: keyword list is {:?}, declared {declared:?}", K::KEYWORDS);
    let want = match &c.word {
        None => Err(None),
        Some((w, sp)) if declared.contains(&w.as_str()) => Err(Some(("expected identifier, found keyword", *sp))),
        Some(_) => Ok(()),
    };
    for x in all_ways::<CustomIdent<K>>(n, c, want)? {
        let (w, sp) = c.word.as_ref().unwrap();
        reported(n, &x, w, *sp)?;
    }
    if let Some((w, sp)) = &c.word {
        let i = match w.strip_prefix("r#") {
            Some(r) => PIdent::new_raw(r, Span::call_site()),
            None => PIdent::new(w, Span::call_site()),
        };
        let want = want.map_err(|e| e.map(|(m, _)| (m, Sp::CALL_SITE)));
        if let Some(x) = outcome(n, CustomIdent::<K>::try_from(i), want, "try_from", c.src)? {
            reported(n, &x, w, Sp::CALL_SITE)?;
        }
        let _ = sp;
    }
    Ok(())
}

fn reported<K: Clone + PartialEq>(n: &str, x: &CustomIdent<K>, w: &str, sp: Sp) -> R {
    ck_eq!(x.token().to_string(), w, "{n}: token");
    ck_eq!(SP(x.span()), sp, "{n}: span of {w}");
    ck_eq!(SP(x.token().span()), sp, "{n}: span of the token of {w}");
    ck_eq!(x.to_string(), w, "{n}: display");
    ck_eq!(format!("{x:#}"), w, "{n}: alternate display");
    ck!(*x == w && *x == w.to_string() && !(*x != w), "{n}: {w} does not equal itself");
    let other = if w.starts_with("r#") { w[2..].to_string() } else { format!("r#{w}") };
    ck!(*x != other && *x != format!("{w}_") && *x != "", "{n}: {w} equals another word");
    one_token(n, x.to_token_stream(), w, sp)?;
    let i: PIdent = x.clone().into();
    ck!(i.to_string() == w && SP(i.span()) == sp, "{n}: {w} as an Ident");
    let mut y = x.clone();
    let s = *some_spans().last().unwrap();
    y.set_span(s);
    ck!(SP(y.span()) == SP(s) && SP(y.token().span()) == SP(s) && y.to_string() == w && y == *x, "{n}: {w} after set_span");
    Ok(())
}


/// the inherent functions of a keyword type
pub trait Kwd:
    Copy + Default + Parse + ToTokens + std::str::FromStr<Err = Error> + std::fmt::Display + std::fmt::Debug + Ord + Hash + AsRef<str> + Into<TokenTree> + PartialEq<&'static str> + PartialEq<String> + PartialOrd<String>
{
    const S: &'static str;
    fn mk(s: Span) -> Self;
    fn text(&self) -> &'static str;
    fn at(&self) -> Span;
    fn set(&mut self, s: Span);
    fn tok(&self) -> PIdent;
}

#[macro_export]
macro_rules! kwd {
    ($t:ty, $s:literal) => {
        impl $crate::kws::Kwd for $t {
            const S: &'static ::core::primitive::str = $s;
            fn mk(vh_span: ::parsel::Span) -> Self { <$t>::new(vh_span) }
            fn text(&self) -> &'static ::core::primitive::str { <$t>::as_str(self) }
            fn at(&self) -> ::parsel::Span { <$t>::span(self) }
            fn set(&mut self, vh_span: ::parsel::Span) { <$t>::set_span(self, vh_span) }
            fn tok(&self) -> ::parsel::ast::Ident { <$t>::token(self) }
        }
    };
}

fn hashed(t: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn keyword<T: Kwd>(n: &str, c: &Case) -> R {
    let s = T::S;
    let message = format!("expected keyword `{s}`");
    let want = match &c.word {
        None => Err(None),
        Some((w, _)) if w == s => Ok(()),
        Some((_, sp)) => Err(Some((&message[..], *sp))),
    };
    for x in all_ways::<T>(n, c, want)? {
        let sp = c.word.as_ref().unwrap().1;
        ck_eq!(SP(x.at()), sp, "{n}: span");
        one_token(n, x.to_token_stream(), s, sp)?;
        let other = some_spans()[0];
        let mut y = x;
        y.set(other);
        ck!(SP(y.at()) == SP(other) && y == x, "{n}: set_span");
        for k in [x, T::mk(x.at())] {
            ck_eq!(k.text(), s, "{n}: as_str");
            ck_eq!(AsRef::<str>::as_ref(&k), s, "{n}: as_ref");
            ck_eq!(k.to_string(), s, "{n}: display");
            ck_eq!(format!("{k:#}"), s, "{n}: alternate display");
            ck!(k == s && k == String::from(s) && k == x, "{n}: equality");
            ck!(k.cmp(&x) == std::cmp::Ordering::Equal, "{n}: order against itself");
            let t = k.tok();
            ck!(t.to_string() == s && SP(t.span()) == sp, "{n}: token");
            let t: TokenTree = k.into();
            ck!(matches!(&t, TokenTree::Ident(i) if i.to_string() == s) && SP(t.span()) == sp, "{n}: token tree");
        }
        let _ = format!("{x:?}");
    }
    // against the word, whatever it is
    let d = T::default();
    ck_eq!(SP(d.at()), Sp::CALL_SITE, "{n}: span of default");
    one_token(n, d.to_token_stream(), s, Sp::CALL_SITE)?;
    if let Some((w, _)) = &c.word {
        ck_eq!(d == *w, w == s, "{n}: equality with {w}");
        ck_eq!(Kwd::text(&d) == w, w == s, "{n}: equality with {w}");
        ck_eq!(PartialOrd::<String>::partial_cmp(&d, w), Some(s.cmp(w.as_str())), "{n}: order against {w}");
    }
    ck!(hashed(&d) == hashed(&T::mk(some_spans()[2])), "{n}: hash depends on the span");
    Ok(())
}

/// the text as a case, and how it is counted
pub fn case<'a>(src: &'a str, ob: &mut Ob, declared: &[&str]) -> Option<Case<'a>> {
    let Some((ts, t)) = lex(src) else {
        ob.discarded = true;
        return None;
    };
    let word = match &t[..] {
        [x] => match &x.k {
            TK::Ident(s) => Some((s.clone(), x.sp)),
            _ => None,
        },
        _ => None,
    };
    ob.case(word.is_some(), src);
    ob.class(if word.is_some() { "a single word" } else { "not a single word" });
    if let Some((w, _)) = &word {
        ob.class_if(declared.contains(&w.as_str()), "a keyword of some set");
        ob.class_if(w.starts_with("r#"), "raw");
        ob.class_if(RUST_KW.contains(&w.as_str()), "reserved by Rust");
    }
    Some(Case { src, ts, word })
}

/// the check of one generated keyword module
pub struct KwMod {
    pub name: &'static str,
    pub declared: &'static [&'static str],
    pub check: fn(&Case) -> R,
}

const A: &[char] = &['a', 'b', 'c', 'f', 'n', 's', 'x', 'A', 'S', '_', '1', 'é', '漢', 'i'];

/// a word that is one of the list, close to one, or another one
pub fn a_word(ch: &mut Ch, all: &[&str]) -> String {
    match ch.below(3) {
        0 => ch.pick(all).to_string(),
        1 => crate::gen::ident(ch),
        _ => {
            let w = *ch.pick(all);
            let mut v: Vec<char> = w.chars().collect();
            let i = ch.idx(v.len());
            match ch.below(6) {
                0 => v[i] = *ch.pick(A),
                1 => {
                    v.remove(i);
                }
                2 => v.insert(i, *ch.pick(A)),
                3 => v = format!("r#{w}").chars().collect(),
                4 => v = w.trim_start_matches("r#").chars().collect(),
                _ => v.push('\u{0301}'),
            }
            v.into_iter().collect()
        }
    }
}

/// a text that is mostly a single word with something around it
pub fn surrounded(ch: &mut Ch, all: &[&str]) -> String {
    let pre = *ch.pick(&["", " ", "\n", "/* é */", "// x\n  ", "\t", "\u{feff}", "/** d */", "+", "1 ", "'", "x "]);
    let post = *ch.pick(&["", "", "", " ", "\n", "// x", "/* fn */", " fn", ".", " 1", "()", "\"\"", "!", " r#fn"]);
    let core = match ch.weighted(&[8, 1, 1]) {
        0 => a_word(ch, all),
        1 => format!("({})", a_word(ch, all)),
        _ => ch.pick(&["", "1", "'a'", "\"fn\"", "b\"a\"", "'a", "1.0", "-", "()", "r\"a\"", "#", "r"]).to_string(),
    };
    format!("{pre}{core}{post}")
}
