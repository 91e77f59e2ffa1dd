//! A plain model of token trees with source positions, independent of the code under test.

use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Sp {
    pub sl: usize,
    pub sc: usize,
    pub el: usize,
    pub ec: usize,
}

impl Sp {
    pub fn of(s: Span) -> Sp {
        let (a, b) = (s.start(), s.end());
        Sp { sl: a.line, sc: a.column, el: b.line, ec: b.column }
    }
    pub fn join(self, o: Sp) -> Sp {
        Sp { sl: self.sl, sc: self.sc, el: o.el, ec: o.ec }
    }
    pub fn end(self) -> (usize, usize) {
        (self.el, self.ec)
    }
    pub fn start(self) -> (usize, usize) {
        (self.sl, self.sc)
    }
    pub const CALL_SITE: Sp = Sp { sl: 1, sc: 0, el: 1, ec: 0 };
}

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Ident(String),
    Punct(char, bool),
    Lit(String),
    /// delimiter ('(', '[', '{', ' ' for invisible), contents, open span, close span
    Group(char, Vec<Tok>, Sp, Sp),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Tok {
    pub k: K,
    pub sp: Sp,
}

pub fn delim_char(d: Delimiter) -> char {
    match d {
        Delimiter::Parenthesis => '(',
        Delimiter::Bracket => '[',
        Delimiter::Brace => '{',
        Delimiter::None => ' ',
    }
}

pub fn toks(ts: TokenStream) -> Vec<Tok> {
    ts.into_iter()
        .map(|t| {
            let sp = Sp::of(t.span());
            let k = match t {
                TokenTree::Ident(i) => K::Ident(i.to_string()),
                TokenTree::Punct(p) => K::Punct(p.as_char(), p.spacing() == Spacing::Joint),
                TokenTree::Literal(l) => K::Lit(l.to_string()),
                TokenTree::Group(g) => K::Group(
                    delim_char(g.delimiter()),
                    toks(g.stream()),
                    Sp::of(g.span_open()),
                    Sp::of(g.span_close()),
                ),
            };
            Tok { k, sp }
        })
        .collect()
}

pub fn lex(s: &str) -> Option<(TokenStream, Vec<Tok>)> {
    let ts = TokenStream::from_str(s).ok()?;
    let t = toks(ts.clone());
    Some((ts, t))
}

/// number of leaves and delimiters
pub fn count(t: &[Tok]) -> usize {
    t.iter()
        .map(|t| match &t.k {
            K::Group(_, i, ..) => 2 + count(i),
            _ => 1,
        })
        .sum()
}

pub fn depth(t: &[Tok]) -> usize {
    t.iter()
        .map(|t| match &t.k {
            K::Group(_, i, ..) => 1 + depth(i),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

/// Canonical text of a literal: kind and value, independent of its spelling.
pub fn lit_canon(repr: &str) -> String {
    let Ok(l) = proc_macro2::Literal::from_str(repr) else { return format!("?{repr}") };
    match syn::Lit::new(l) {
        syn::Lit::Str(s) => format!("s:{:?}", s.value()),
        syn::Lit::ByteStr(s) => format!("bs:{:?}", s.value()),
        syn::Lit::Byte(b) => format!("b:{}", b.value()),
        syn::Lit::Char(c) => format!("c:{:?}", c.value()),
        syn::Lit::Int(i) => format!("i:{}", i.base10_digits()),
        syn::Lit::Float(f) => match f.base10_digits().parse::<f64>() {
            Ok(x) => format!("f:{:016x}", x.to_bits()),
            Err(_) => format!("f?{repr}"),
        },
        syn::Lit::Bool(b) => format!("{}", b.value),
        _ => format!("?{repr}"),
    }
}

/// Linear canonical form: idents, punctuation characters, literal values, delimiters; invisible
/// groups flattened. With `glue`, punctuation directly glued to a following punctuation is marked.
pub fn canon(t: &[Tok], glue: bool, out: &mut Vec<String>) {
    for (i, x) in t.iter().enumerate() {
        match &x.k {
            K::Ident(s) => out.push(s.clone()),
            K::Lit(s) => out.push(lit_canon(s)),
            K::Punct(c, j) => {
                let next_punct = matches!(t.get(i + 1), Some(Tok { k: K::Punct(..), .. }));
                out.push(if glue && *j && next_punct { format!("{c}~") } else { c.to_string() })
            }
            K::Group(d, inner, ..) => {
                if *d != ' ' {
                    out.push(d.to_string());
                }
                canon(inner, glue, out);
                if *d != ' ' {
                    out.push(close(*d).to_string());
                }
            }
        }
    }
}

pub fn close(d: char) -> char {
    match d {
        '(' => ')',
        '[' => ']',
        '{' => '}',
        c => c,
    }
}

pub fn canon_of(t: &[Tok], glue: bool) -> Vec<String> {
    let mut v = vec![];
    canon(t, glue, &mut v);
    v
}

/// spans of all leaves (and, for groups, of open and close delimiters) in order
pub fn leaf_spans(t: &[Tok], out: &mut Vec<Sp>) {
    for x in t {
        match &x.k {
            K::Group(_, inner, o, c) => {
                out.push(*o);
                leaf_spans(inner, out);
                out.push(*c);
            }
            _ => out.push(x.sp),
        }
    }
}

/// number of leaves of the whole, for consumption checks: total minus rest
pub fn strip(t: &[Tok]) -> Vec<K> {
    t.iter().map(|t| t.k.clone()).collect()
}

/// Drops the sign of integer zeros: as a literal, `-0` is spelled canonically as `0`.
pub fn drop_zero_sign(v: Vec<String>) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for x in v {
        if x == "i:0" {
            while o.last().map_or(false, |l| l == "-") {
                o.pop();
            }
        }
        o.push(x);
    }
    o
}

/// The obvious text of a token list: single spaces everywhere except after glued punctuation.
pub fn text_of(t: &[Tok]) -> String {
    let mut o = String::new();
    let mut glue = true;
    for (i, x) in t.iter().enumerate() {
        if !glue {
            o.push(' ');
        }
        glue = false;
        match &x.k {
            K::Ident(s) | K::Lit(s) => o.push_str(s),
            K::Punct(c, j) => {
                o.push(*c);
                glue = *j && (*c == '\'' || matches!(t.get(i + 1), Some(Tok { k: K::Punct(..), .. })));
            }
            K::Group(' ', inner, ..) => o.push_str(&text_of(inner)),
            K::Group(d, inner, ..) => {
                o.push(*d);
                o.push_str(&text_of(inner));
                o.push(close(*d));
            }
        }
    }
    o
}

/// A few spans that can be told apart (each over a source of its own line structure).
pub fn some_spans() -> Vec<Span> {
    TokenStream::from_str("alpha beta\n  gamma /* c */ \"multi\nline\" 'c' (delta)\n\n 12345 é 漢字").expect("spans").into_iter().map(|t| t.span()).chain([Span::call_site()]).collect()
}
