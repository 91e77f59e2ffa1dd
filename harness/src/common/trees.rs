//! Token trees: a model with its own generator, conversion to a token stream, and canonical form.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::str::FromStr;
use vh::tok::{close, Tok, K};
use vh::{lits, Ch};

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    I(String),
    L(String),
    P(char, bool),
    /// '(', '[', '{' or ' ' for an invisible group
    G(char, Vec<T>),
}

const PUNCTS: &[char] = &['+', '-', '*', '/', '%', '^', '!', '&', '|', '=', '<', '>', '@', '.', ',', ';', ':', '#', '$', '?', '~'];
const WORDS: &[&str] = &["a", "b", "x1", "_", "fn", "self", "r#fn", "été", "r", "b", "br", "c", "e5", "r#type", "true", "漢字", "_0", "u8", "rb", "union", "Self", "v2", "f"];

fn literal(ch: &mut Ch, neg: bool) -> String {
    match ch.below(if neg { 12 } else { 11 }) {
        0 | 1 => {
            let m = lits::mag(ch);
            lits::int(ch, m)
        }
        2 => lits::float(ch).0,
        3 => {
            let s = lits::string(ch, 8);
            lits::str_spelling(ch, &s)
        }
        4 => {
            let c = lits::chr(ch);
            lits::char_spelling(ch, c)
        }
        5 => {
            let s = lits::bytes(ch, 8);
            lits::bstr_spelling(ch, &s)
        }
        6 => {
            let b = ch.below(256) as u8;
            lits::byte_spelling(ch, b)
        }
        7 => ch.pick(&["\"a\n   b\"", "\"\\\n   x\"", "r\"\n\n\"", "r##\"a\"# , ; ( \"##", "\"// no\"", "\"/* no\"", "b\"\n\"", "br#\"\"\"#", "\",\"", "';'", "b'{'", "\"\\\"\"", "'\\''", "'\"'"]).to_string(),
        8 => ch.pick(&["1", "0", "1.", "1.0", "1e5", "0x1f", "0b1", "1u8", "1.5f32", "1_000", "0_", "5usize", "2.0e-3"]).to_string(),
        9 => ch.pick(&["1foo", "\"a\"suf", "'a'x", "1.0bar", "b'a'z", "r\"a\"q"]).to_string(),
        10 => ch.pick(&["c\"abc\"", "cr\"x\"", "c\"\\xff\"", "cr#\"\"a\"\"#"]).to_string(),
        _ => ch.pick(&["-1", "-1.5", "-0", "-1e5", "-7i8", "-0.0f64"]).to_string(),
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub depth: u32,
    /// invisible groups
    pub none: bool,
    /// literal tokens with a sign of their own
    pub neg: bool,
    /// glued punctuation before anything, not only before punctuation
    pub any_joint: bool,
}

fn list(ch: &mut Ch, o: Opts, depth: u32, left: &mut i64, out: &mut Vec<T>) {
    let n = match ch.weighted(&[3, 4, 3, 1]) {
        0 => ch.below(2),
        1 => ch.range(1, 4),
        2 => ch.range(3, 9),
        _ => ch.range(8, 30),
    };
    for _ in 0..n {
        if *left <= 0 {
            return;
        }
        *left -= 1;
        match ch.weighted(&[4, 3, 5, 2, 4, 1]) {
            0 => out.push(T::I(ch.pick(WORDS).to_string())),
            1 => out.push(T::L(literal(ch, o.neg))),
            2 => {
                let k = 1 + ch.weighted(&[5, 2, 1]);
                for i in 0..k {
                    out.push(T::P(*ch.pick(PUNCTS), i + 1 < k || ch.chance(1, 3)));
                }
            }
            3 => out.push(T::P(*ch.pick(&[',', ';']), ch.chance(1, 5))),
            4 if depth < o.depth => {
                let d = if o.none && ch.chance(1, 5) { ' ' } else { *ch.pick(&['(', '[', '{']) };
                let mut v = vec![];
                list(ch, o, depth + 1, left, &mut v);
                out.push(T::G(d, v));
            }
            _ => {
                out.push(T::P('\'', true));
                out.push(T::I(ch.pick(&["a", "_", "static", "r", "b", "été", "fn"]).to_string()));
            }
        }
    }
}

/// makes the gluing such that the stream has a textual form, and only one
fn repair(v: &mut Vec<T>, o: Opts) {
    for i in 0..v.len() {
        let next = v.get(i + 1).cloned();
        match &mut v[i] {
            T::P('\'', j) => {
                *j = true;
            }
            T::P(c, j) if *j => {
                let comment = *c == '/' && matches!(next, Some(T::P('/' | '*', _)));
                let none = matches!(next, Some(T::G(' ', _)));
                let neg = matches!(&next, Some(T::L(s)) if s.starts_with('-'));
                let punct = matches!(next, Some(T::P(..)));
                if comment || none || neg || !(punct || o.any_joint) {
                    *j = false;
                }
            }
            T::G(d, inner) => {
                repair(inner, o);
                if *d == ' ' {
                    if let Some(T::P(_, j)) = inner.last_mut() {
                        *j = false;
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn gen(ch: &mut Ch, o: Opts, size: i64) -> Vec<T> {
    let mut v = vec![];
    let mut left = size;
    let k = 1 + ch.below(3);
    for _ in 0..k {
        list(ch, o, 0, &mut left, &mut v);
    }
    repair(&mut v, o);
    v
}

/// nesting and length far beyond what the other generators reach
#[allow(dead_code)]
pub fn gen_large(ch: &mut Ch) -> Vec<T> {
    let o = Opts { depth: 3, none: false, neg: false, any_joint: false };
    let mut v = gen(ch, o, 12);
    let d = ch.range(5, 90);
    for _ in 0..d {
        let mut w = if ch.chance(1, 3) { gen(ch, o, 3) } else { vec![] };
        if let Some(T::P(_, j)) = w.last_mut() {
            *j = false;
        }
        w.push(T::G(*ch.pick(&['(', '[', '{']), v));
        if ch.chance(1, 3) {
            w.extend(gen(ch, o, 3));
        }
        v = w;
    }
    let k = ch.below(40) as usize;
    let unit = gen(ch, o, 8);
    for _ in 0..k {
        if let Some(T::P(_, j)) = v.last_mut() {
            *j = false;
        }
        v.extend(unit.iter().cloned());
    }
    v
}

pub fn stream(v: &[T]) -> TokenStream {
    v.iter()
        .map(|t| -> TokenTree {
            match t {
                T::I(s) => match s.strip_prefix("r#") {
                    Some(r) => Ident::new_raw(r, Span::call_site()).into(),
                    None => Ident::new(s, Span::call_site()).into(),
                },
                T::L(s) => Literal::from_str(s).unwrap_or_else(|_| panic!("literal {s}")).into(),
                T::P(c, j) => Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone }).into(),
                T::G(d, inner) => {
                    let d = match d {
                        '(' => Delimiter::Parenthesis,
                        '[' => Delimiter::Bracket,
                        '{' => Delimiter::Brace,
                        _ => Delimiter::None,
                    };
                    Group::new(d, stream(inner)).into()
                }
            }
        })
        .collect()
}

/// the model of a stream that comes from a text
pub fn model(t: &[Tok]) -> Vec<T> {
    t.iter()
        .map(|t| match &t.k {
            K::Ident(s) => T::I(s.clone()),
            K::Lit(s) => T::L(s.clone()),
            K::Punct(c, j) => T::P(*c, *j),
            K::Group(d, i, ..) => T::G(*d, model(i)),
        })
        .collect()
}

/// the tokens one after the other: invisible groups flattened, signs taken off literals, gluing
/// marked where it is to another punctuation
pub fn canon(v: &[T]) -> Vec<String> {
    let mut o = vec![];
    put(v, &mut o);
    o
}

fn put(v: &[T], o: &mut Vec<String>) {
    for (i, t) in v.iter().enumerate() {
        match t {
            T::I(s) => o.push(s.clone()),
            T::L(s) => match s.strip_prefix('-') {
                Some(r) => o.extend(["-".to_string(), r.to_string()]),
                None => o.push(s.clone()),
            },
            T::P(c, j) => o.push(if *j && matches!(v.get(i + 1), Some(T::P(..))) { format!("{c}~") } else { c.to_string() }),
            T::G(' ', inner) => put(inner, o),
            T::G(d, inner) => {
                o.push(d.to_string());
                put(inner, o);
                o.push(close(*d).to_string());
            }
        }
    }
}

pub fn show(v: &[T]) -> String {
    v.iter()
        .map(|t| match t {
            T::I(s) | T::L(s) => s.clone(),
            T::P(c, true) => format!("{c}~"),
            T::P(c, false) => c.to_string(),
            T::G(' ', i) => format!("<{}>", show(i)),
            T::G(d, i) => format!("{d}{}{}", show(i), close(*d)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn depth(v: &[T]) -> usize {
    v.iter().map(|t| if let T::G(_, i) = t { 1 + depth(i) } else { 0 }).max().unwrap_or(0)
}

pub fn count(v: &[T]) -> usize {
    v.iter().map(|t| if let T::G(_, i) = t { 1 + count(i) } else { 1 }).sum()
}

/// every formatter output, by mode: 0 pretty, 1 compact, 2.. custom
pub fn format(ts: TokenStream, indent: Option<&str>) -> Result<String, String> {
    use parsel::util::TokenStreamFormatter as F;
    let mut s = String::new();
    match indent {
        None => F::compact(&mut s).write(ts),
        Some("    ") => F::pretty(&mut s).write(ts),
        Some(i) => F::with_indent(i, &mut s).map_err(|e| format!("indent {i:?}: {e}"))?.write(ts),
    }
    .map_err(|_| "the formatter fails on a string".to_string())?;
    Ok(s)
}
