//! C27: a helper type can do whatever its parts can, and asks for no more than that. Generated
//! programs use randomly composed helper types, over arguments which implement random sets of traits
//! or none; the compiler decides whether what has to be available is.
//! (A crate of its own, since the library of the other checks may not even compile if something
//! that has to be available is not.)
#[allow(dead_code)]
#[path = "../../src/ch.rs"]
mod ch;
#[allow(dead_code)]
#[path = "../../src/run.rs"]
mod run;
use std::collections::BTreeSet;
use std::process::{Command, Stdio};
use run::*;
use ch::Ch;

type Caps = u32;
const TRAITS: [&str; 20] = [
    "Clone", "Copy", "::core::fmt::Debug", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "::core::hash::Hash",
    "::core::fmt::Display", "::core::str::FromStr", "::parsel::Parse", "::parsel::ToTokens", "Send", "Sync", "Unpin",
    "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "::core::iter::FusedIterator",
];
const CLONE: Caps = 1;
const COPY: Caps = 1 << 1;
const DEBUG: Caps = 1 << 2;
const DEFAULT: Caps = 1 << 3;
const PEQ: Caps = 1 << 4;
const EQ: Caps = 1 << 5;
const PORD: Caps = 1 << 6;
const ORD: Caps = 1 << 7;
const HASH: Caps = 1 << 8;
const DISPLAY: Caps = 1 << 9;
const FROMSTR: Caps = 1 << 10;
const PARSE: Caps = 1 << 11;
const TOKENS: Caps = 1 << 12;
const SEND: Caps = 1 << 13;
const SYNC: Caps = 1 << 14;
const UNPIN: Caps = 1 << 15;
const ITER: Caps = 1 << 16;
const DEI: Caps = 1 << 17;
const ESI: Caps = 1 << 18;
const FUSED: Caps = 1 << 19;

const AUTO: Caps = SEND | SYNC | UNPIN;
const CMP: Caps = PEQ | EQ | PORD | ORD | HASH;
const NODE: Caps = DEBUG | DISPLAY | FROMSTR | PARSE | TOKENS;
const LEAF: Caps = CLONE | DEFAULT | CMP | NODE | UNPIN;

const KNOWN: &[(&str, Caps)] = &[
    ("LitBool", LEAF | COPY),
    ("LitByte", LEAF | COPY),
    ("LitInt", LEAF | COPY),
    ("LitUint", LEAF | COPY),
    ("LitFloat", LEAF | COPY),
    ("LitChar", LEAF | COPY),
    ("LitStr", LEAF),
    ("LitByteStr", LEAF),
    ("Lit", CLONE | PEQ | EQ | HASH | NODE | UNPIN),
    ("Ident", CLONE | CMP | DEBUG | DISPLAY | PARSE | TOKENS | UNPIN),
    ("Word", CLONE | CMP | NODE | UNPIN),
    ("kws::Alpha", LEAF | COPY),
    ("kws::BetaKw", LEAF | COPY),
    ("kws::Name", CLONE | CMP | NODE | UNPIN),
    ("token::Plus", CLONE | COPY | DEFAULT | DEBUG | PEQ | EQ | HASH | PARSE | TOKENS | UNPIN),
    ("token::Comma", CLONE | COPY | DEFAULT | DEBUG | PEQ | EQ | HASH | PARSE | TOKENS | UNPIN),
    ("token::FatArrow", CLONE | COPY | DEFAULT | DEBUG | PEQ | EQ | HASH | PARSE | TOKENS | UNPIN),
    ("token::Fn", CLONE | COPY | DEFAULT | DEBUG | PEQ | EQ | HASH | PARSE | TOKENS | UNPIN),
    ("Empty", LEAF | COPY | AUTO),
    ("Eof", LEAF | COPY | AUTO),
    ("NotEof", LEAF | COPY | AUTO),
    ("String", CLONE | DEFAULT | CMP | DEBUG | DISPLAY | FROMSTR | TOKENS | AUTO),
    ("u8", CLONE | COPY | DEFAULT | CMP | DEBUG | DISPLAY | FROMSTR | TOKENS | AUTO),
    ("TokenStream", CLONE | DEFAULT | DEBUG | DISPLAY | FROMSTR | PARSE | TOKENS | UNPIN),
    ("std::vec::IntoIter<u8>", CLONE | DEBUG | DEFAULT | AUTO | ITER | DEI | ESI | FUSED),
    ("core::ops::Range<u8>", CLONE | DEBUG | DEFAULT | PEQ | EQ | HASH | AUTO | ITER | DEI | ESI | FUSED),
];

/// literals and what they hold
const RAW: [(&str, &str); 8] = [
    ("LitBool", "bool"),
    ("LitByte", "u8"),
    ("LitInt", "i64"),
    ("LitUint", "u64"),
    ("LitFloat", "::parsel::NotNan<f64>"),
    ("LitChar", "char"),
    ("LitStr", "String"),
    ("LitByteStr", "Vec<u8>"),
];

/// heads, and how many arguments they have
#[derive(Clone, Copy, PartialEq, Debug)]
enum H {
    Maybe,
    Paren,
    Bracket,
    Brace,
    Punctuated,
    Separated,
    Any,
    Many,
    LeftAssoc,
    RightAssoc,
    Either,
    Box,
    CustomIdent,
    TokenStreamFormatter,
}
use H::*;
const HEADS: [(H, u32); 14] = [
    (Maybe, 5), (Paren, 2), (Bracket, 2), (Brace, 2), (Punctuated, 5), (Separated, 5), (Any, 5), (Many, 2),
    (LeftAssoc, 4), (RightAssoc, 4), (Either, 6), (Box, 2), (CustomIdent, 2),
    (TokenStreamFormatter, 1),
];

const NAMES: [&str; 14] = [
    "Maybe", "Paren", "Bracket", "Brace", "Punctuated", "Separated", "Any", "Many", "LeftAssoc", "RightAssoc", "Either", "Box", "CustomIdent",
    "TokenStreamFormatter",
];

/// what a helper can do with arguments that can do `a`
fn can(h: H, a: &[Caps]) -> Caps {
    let all = a.iter().fold(!0, |x, y| x & y);
    let text = |c: Caps| {
        (c & (PARSE | TOKENS)) | if c & PARSE != 0 { FROMSTR } else { 0 } | if c & TOKENS != 0 { DISPLAY } else { 0 }
    };
    let value = CLONE | DEBUG | PEQ | EQ | HASH;
    match h {
        Maybe => (all & (value | COPY | AUTO)) | DEFAULT | text(all),
        Paren | Bracket | Brace => (all & (value | COPY | DEFAULT | UNPIN)) | text(all),
        Punctuated | Any | Many => (all & (value | AUTO)) | DEFAULT | text(all),
        Separated | LeftAssoc | RightAssoc => (all & (value | AUTO)) | text(all),
        Either => {
            (all & (CLONE | COPY | DEBUG | CMP | DISPLAY | PARSE | TOKENS | AUTO | ITER | DEI | ESI | FUSED))
                | if all & PARSE != 0 { FROMSTR } else { 0 }
        }
        Box => (all & (CLONE | DEBUG | DEFAULT | CMP | DISPLAY | PARSE | TOKENS | SEND | SYNC | ITER | DEI | ESI | FUSED)) | UNPIN,
        CustomIdent => (all & (CLONE | CMP | UNPIN)) | DEBUG | DISPLAY | TOKENS | if all & DEFAULT != 0 { PARSE | FROMSTR } else { 0 },
        TokenStreamFormatter => all & (value | COPY | AUTO),
    }
}

#[derive(Clone)]
enum Ty {
    Own(usize, Caps),
    /// borrows a string, and can do nothing
    Ref,
    Known(usize),
    App(H, Vec<Ty>),
}

impl Ty {
    fn show(&self, life: &str) -> String {
        match self {
            Ty::Own(i, _) => format!("A{i}"),
            Ty::Ref => format!("R<{life}>"),
            Ty::Known(i) => KNOWN[*i].0.into(),
            Ty::App(h, a) => {
                let a: Vec<String> = a.iter().map(|a| a.show(life)).collect();
                format!("{h:?}<{}>", a.join(", "))
            }
        }
    }
    fn caps(&self) -> Caps {
        match self {
            Ty::Own(_, c) => *c,
            Ty::Ref => AUTO,
            Ty::Known(i) => KNOWN[*i].1,
            Ty::App(h, a) => can(*h, &a.iter().map(Ty::caps).collect::<Vec<_>>()),
        }
    }
    fn borrows(&self) -> bool {
        match self {
            Ty::Ref => true,
            Ty::App(_, a) => a.iter().any(Ty::borrows),
            _ => false,
        }
    }
}

/// a type of its own, which can do exactly this
fn own(ch: &mut Ch, i: usize) -> (Caps, String) {
    let mut c = match ch.below(6) {
        0 => 0,
        1 => 1 << ch.below(13),
        2 => !(1 << ch.below(13)),
        3 => [TOKENS, PARSE, CLONE | DEBUG | PEQ, DEFAULT, PARSE | TOKENS][ch.idx(5)],
        _ => ch.raw(),
    };
    if ch.chance(3, 4) {
        c &= !(ITER | DEI | ESI | FUSED);
    }
    for (t, needs) in [(ORD, EQ | PORD), (COPY, CLONE), (EQ, PEQ), (PORD, PEQ), (DEI, ITER), (ESI, ITER), (FUSED, ITER)] {
        if c & t != 0 {
            c |= needs;
        }
    }
    c &= (1 << 20) - 1;
    let field = match (c & SEND != 0, c & SYNC != 0) {
        (true, true) => "()",
        (true, false) => "::core::cell::Cell<u8>",
        _ => {
            c &= !(SEND | SYNC);
            "*const u8"
        }
    };
    // (what is not Sync but Copy: nothing simple)
    if field != "()" && c & COPY != 0 && field != "*const u8" {
        c &= !COPY;
    }
    let pin = if c & UNPIN != 0 { "()" } else { "::core::marker::PhantomPinned" };
    let mut s = format!("pub struct A{i}({field}, {pin});\n");
    s.push_str(&format!("impl KeywordList for A{i} {{ const KEYWORDS: &'static [&'static str] = &[\"one\"]; }}\n"));
    let bodies = [
        (CLONE, "Clone", "fn clone(&self) -> Self { loop {} }"),
        (COPY, "Copy", ""),
        (DEBUG, "::core::fmt::Debug", "fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { loop {} }"),
        (DEFAULT, "Default", "fn default() -> Self { loop {} }"),
        (PEQ, "PartialEq", "fn eq(&self, _: &Self) -> bool { loop {} }"),
        (EQ, "Eq", ""),
        (PORD, "PartialOrd", "fn partial_cmp(&self, _: &Self) -> Option<::core::cmp::Ordering> { loop {} }"),
        (ORD, "Ord", "fn cmp(&self, _: &Self) -> ::core::cmp::Ordering { loop {} }"),
        (HASH, "::core::hash::Hash", "fn hash<H: ::core::hash::Hasher>(&self, _: &mut H) { loop {} }"),
        (DISPLAY, "::core::fmt::Display", "fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { loop {} }"),
        (FROMSTR, "::core::str::FromStr", "type Err = (); fn from_str(_: &str) -> Result<Self, ()> { loop {} }"),
        (PARSE, "::parsel::Parse", "fn parse(_: ::parsel::syn::parse::ParseStream<'_>) -> ::parsel::Result<Self> { loop {} }"),
        (TOKENS, "::parsel::ToTokens", "fn to_tokens(&self, _: &mut TokenStream) { loop {} }"),
        (ITER, "Iterator", "type Item = u8; fn next(&mut self) -> Option<u8> { loop {} }"),
        (DEI, "DoubleEndedIterator", "fn next_back(&mut self) -> Option<u8> { loop {} }"),
        (ESI, "ExactSizeIterator", ""),
        (FUSED, "::core::iter::FusedIterator", ""),
    ];
    for (t, name, body) in bodies {
        if c & t != 0 {
            s.push_str(&format!("impl {name} for A{i} {{ {body} }}\n"));
        }
    }
    (c, s)
}

fn ty(ch: &mut Ch, owns: &[Caps], depth: u32) -> Ty {
    let leaf = |ch: &mut Ch| match ch.below(8) {
        0..=4 => {
            let i = ch.idx(owns.len());
            Ty::Own(i, owns[i])
        }
        5 => Ty::Ref,
        _ => Ty::Known(ch.idx(KNOWN.len())),
    };
    if depth == 0 {
        return leaf(ch);
    }
    let w: Vec<u32> = HEADS.iter().map(|h| h.1).collect();
    let h = HEADS[ch.weighted(&w)].0;
    if h == CustomIdent {
        // (a list of keywords)
        let i = ch.idx(owns.len());
        return Ty::App(h, vec![Ty::Own(i, owns[i])]);
    }
    let n = if matches!(h, Paren | Bracket | Brace | Any | Many | Box) { 1 } else { 2 };
    let a = (0..n).map(|_| if ch.chance(2, 5) { ty(ch, owns, depth - 1) } else { leaf(ch) }).collect();
    Ty::App(h, a)
}

/// uses of the type that its documentation promises, each of them an item of its own
fn uses(t: &Ty, n: usize) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let x = t.show("'static");
    let c = t.caps();
    let bounds: Vec<&str> = TRAITS.iter().enumerate().filter(|(i, _)| c & (1 << i) != 0).map(|(_, t)| *t).collect();
    o.push(format!("fn caps_{n}() {{ fn need<X: {}>() {{}} need::<{x}>() }}\n", bounds.join(" + ")));
    if t.borrows() {
        o.push(format!("fn shorter_{n}<'s>(x: {}) -> {} {{ x }}\n", t.show("'static"), t.show("'s")));
        o.push(format!("fn shorter_ref_{n}<'r, 's>(x: &'r {}) -> &'r {} {{ x }}\n", t.show("'static"), t.show("'s")));
    }
    if let Ty::Known(i) = t {
        let x = KNOWN[*i].0;
        if let Some((_, raw)) = RAW.iter().find(|r| r.0 == x) {
            o.push(format!("const fn made_{n}(v: {raw}, s: Span) -> {x} {{ {x}::new(v, s) }}\n"));
            o.push(format!("const fn seen_{n}(b: &{x}) -> Span {{ b.span() }}\n"));
            o.push(format!("fn raw_{n}(b: {x}, c: &{x}) -> ({raw}, {raw}) {{ let r: {raw} = b.clone().into(); (c.value(), if c == &r && c < &r {{ r }} else {{ b.into_inner() }}) }}\n"));
            o.push(format!("fn from_{n}(b: {raw}, c: {x}) -> ({x}, Lit, Lit, ::parsel::TokenTree) {{ let d: {raw} = b.clone(); (b.into(), d.into(), c.clone().into(), c.into()) }}\n"));
            o.push(format!("fn borrowed_{n}<'a>(b: &'a {x}) -> &'a {raw} {{ ::core::borrow::Borrow::borrow(b) }}\n"));
            if let Some(target) = [("LitStr", "str"), ("LitByteStr", "[u8]")].iter().find(|t| t.0 == x) {
                let t = target.1;
                o.push(format!("fn like_{n}<'a>(b: &'a {x}) -> [&'a {t}; 3] {{ [b, b.as_ref(), ::core::borrow::Borrow::borrow(b)] }}\n"));
                o.push(format!("fn other_{n}<'a>(b: &'a {t}, c: ::std::borrow::Cow<'a, {t}>, d: ::std::boxed::Box<{t}>) -> [{x}; 3] {{ [b.into(), c.into(), d.into()] }}\n"));
                o.push(format!("fn back_{n}(b: {x}) -> (::std::borrow::Cow<'static, {t}>, ::std::boxed::Box<{t}>) {{ (b.clone().into(), b.into()) }}\n"));
            }
        }
        if x.starts_with("kws::") && x != "kws::Name" {
            o.push(format!("const fn made_{n}(s: Span) -> ({x}, &'static str) {{ let k = {x}::new(s); let _ = k.span(); (k, k.as_str()) }}\n"));
            o.push(format!("fn like_{n}(b: {x}) -> (::parsel::TokenTree, Ident, bool) {{ (b.into(), b.token(), b == \"alpha\" && b < String::new() && b.as_ref() == \"\") }}\n"));
        }
        if matches!(x, "Empty" | "Eof" | "NotEof") {
            o.push(format!("const MADE_{n}: {x} = {x}::new();\nstatic ALSO_{n}: &(dyn ::core::any::Any + Send + Sync) = &{x};\n"));
        }
        return o;
    }
    let Ty::App(h, a) = t else { return o };
    let p = a[0].show("'static");
    let q = a.get(1).map_or(String::new(), |a| a.show("'static"));
    let (pc, qc) = (a[0].caps(), a.get(1).map_or(0, |a| a.caps()));
    let mut k = 0;
    // (what is taken, what is given, how)
    let mut f = |o: &mut Vec<String>, args: &str, ret: &str, body: &str| {
        let sub = |s: &str| s.replace("%X", &x).replace("%P", &p).replace("%Q", &q);
        o.push(format!("fn use_{n}_{k}<'a>({}) -> {} {{ {} }}\n", sub(args), sub(ret), sub(body)));
        k += 1;
    };
    const IT: &str = "+ DoubleEndedIterator + ExactSizeIterator + ::core::iter::FusedIterator";
    let it = |i: &str| format!("impl Iterator<Item = {i}> {IT}");
    let (b, m, v) = ("b: &'a %X", "b: &'a mut %X", "b: %X");
    match h {
        Maybe => {
            o.push(format!("const EMPTY_{n}: {x} = <{x}>::new();\n"));
            f(&mut o, b, "Option<&'a %P>", "b.as_prefix()");
            f(&mut o, m, "Option<&'a mut %P>", "b.as_prefix_mut()");
            f(&mut o, v, "Option<%P>", "b.into_prefix()");
            f(&mut o, b, "Option<&'a %Q>", "b.as_ref()");
            f(&mut o, m, "Option<&'a mut %Q>", "b.as_mut()");
            f(&mut o, v, "Option<%Q>", "b.into_inner()");
            f(&mut o, b, "Option<&'a (%P, %Q)>", "b.as_parts()");
            f(&mut o, m, "Option<&'a mut (%P, %Q)>", "b.as_parts_mut()");
            f(&mut o, v, "Option<(%P, %Q)>", "b.into_parts()");
            f(&mut o, v, &it("%P"), "b.into_prefix_iter()");
            f(&mut o, b, &it("&'a %P"), "b.prefix_iter()");
            f(&mut o, m, &it("&'a mut %P"), "b.prefix_iter_mut()");
            f(&mut o, b, &it("&'a %Q"), "b.iter()");
            f(&mut o, m, &it("&'a mut %Q"), "b.iter_mut()");
            f(&mut o, v, &it("(%P, %Q)"), "b.into_parts_iter()");
            f(&mut o, b, &it("&'a (%P, %Q)"), "b.parts_iter()");
            f(&mut o, m, &it("&'a mut (%P, %Q)"), "b.parts_iter_mut()");
            f(&mut o, v, &it("%Q"), "b.into_iter()");
            f(&mut o, b, &it("&'a %Q"), "b.into_iter()");
            f(&mut o, m, &it("&'a mut %Q"), "b.into_iter()");
            f(&mut o, b, "&'a Option<(%P, %Q)>", "b");
            f(&mut o, m, "&'a mut Option<(%P, %Q)>", "b");
            f(&mut o, "b: Option<(%P, %Q)>", "%X", "b.into()");
            f(&mut o, "b: (%P, %Q)", "%X", "b.into()");
            if pc & DEFAULT != 0 {
                f(&mut o, "b: %Q", "%X", "<%X as From<%Q>>::from(b)");
                f(&mut o, "b: Option<%Q>", "%X", "<%X as From<Option<%Q>>>::from(b)");
            }
        }
        Paren | Bracket | Brace => {
            let d = format!("{h:?}");
            let low = match h {
                Paren => "parens",
                Bracket => "brackets",
                _ => "braces",
            };
            f(&mut o, "b: %P, s: Span", "%X", "<%X>::new(b, s)");
            f(&mut o, v, "%P", "b.into_inner()");
            f(&mut o, b, &format!("&'a token::{d}"), &format!("b.as_{low}()"));
            f(&mut o, v, &format!("token::{d}"), &format!("b.into_{low}()"));
            f(&mut o, b, &format!("(&'a token::{d}, &'a %P)"), "b.as_parts()");
            f(&mut o, v, &format!("(token::{d}, %P)"), "b.into_parts()");
            o.push(format!("const fn part_{n}<'a>(b: &'a {x}) -> (&'a token::{d}, &'a {p}) {{ let _ = b.as_{low}(); b.as_parts() }}\n"));
            f(&mut o, &format!("b: (token::{d}, %P)"), "%X", &format!("<%X as From<(token::{d}, %P)>>::from(b)"));
            f(&mut o, b, "&'a %P", "::core::ops::Deref::deref(b)");
            f(&mut o, m, "&'a mut %P", "::core::ops::DerefMut::deref_mut(b)");
            f(&mut o, b, "&'a %P", "<%X as AsRef<%P>>::as_ref(b)");
            f(&mut o, m, "&'a mut %P", "<%X as AsMut<%P>>::as_mut(b)");
            if pc & TOKENS != 0 {
                f(&mut o, "b: %P", "%X", "<%X as From<%P>>::from(b)");
            }
        }
        Punctuated => {
            o.push(format!("const EMPTY_{n}: {x} = <{x}>::new();\n"));
            let inner = "syn::punctuated::Punctuated<%P, %Q>";
            lists(&mut o, &mut f, inner);
            f(&mut o, m, &format!("&'a mut {inner}"), "b");
            f(&mut o, m, &format!("&'a mut {inner}"), &format!("<%X as AsMut<{inner}>>::as_mut(b)"));
            f(&mut o, m, &format!("&'a mut {inner}"), &format!("<%X as ::core::borrow::BorrowMut<{inner}>>::borrow_mut(b)"));
            f(&mut o, &format!("b: {inner}"), "%X", &format!("<%X as From<{inner}>>::from(b)"));
            f(&mut o, b, "bool", "b.is_empty()");
            f(&mut o, b, "usize", "b.len()");
            f(&mut o, "b: Vec<syn::punctuated::Pair<%P, %Q>>", "%X", "b.into_iter().collect()");
            if qc & DEFAULT != 0 {
                f(&mut o, "b: Vec<%P>", "%X", "b.into_iter().collect()");
                f(&mut o, "b: &mut %X, c: Vec<%P>", "()", "b.extend(c)");
                f(&mut o, "b: &mut %X, c: Vec<syn::punctuated::Pair<%P, %Q>>", "()", "b.extend(c)");
                f(&mut o, "b: &mut %X, c: %P", "()", "b.push(c)");
            }
            f(&mut o, "b: &mut %X, c: %P", "()", "b.push_value(c)");
            f(&mut o, "b: &mut %X, c: %Q", "()", "b.push_punct(c)");
        }
        Separated => {
            let inner = "syn::punctuated::Punctuated<%P, %Q>";
            lists(&mut o, &mut f, inner);
            f(&mut o, b, "::core::num::NonZeroUsize", "b.len()");
            f(&mut o, b, "&'a %P", "b.first()");
            f(&mut o, b, "&'a %P", "b.last()");
            f(&mut o, m, "&'a mut %P", "b.first_mut()");
            f(&mut o, m, "&'a mut %P", "b.last_mut()");
            f(&mut o, "b: &mut %X, p: %Q, c: %P", "()", "b.push(p, c)");
            f(&mut o, v, "(%P, Vec<(%Q, %P)>)", "b.into_first_rest()");
            f(&mut o, v, "(%P, Vec<(%P, %Q)>)", "b.into_last_rest()");
            f(&mut o, "b: &mut %X, c: Vec<(%Q, %P)>", "()", "b.extend(c)");
            if qc & DEFAULT != 0 {
                f(&mut o, "b: &mut %X, c: Vec<%P>", "()", "b.extend(c)");
                f(&mut o, "b: &mut %X, c: %P", "()", "b.push_value(c)");
                f(&mut o, "b: &mut %X, c: %P", "()", "b.insert(0, c)");
            }
        }
        Any => {
            o.push(format!("const EMPTY_{n}: {x} = <{x}>::new();\n"));
            f(&mut o, v, "Vec<%P>", "b.into_inner()");
            f(&mut o, v, "Vec<%P>", "b.into()");
            f(&mut o, "b: Vec<%P>", "%X", "b.into()");
            f(&mut o, b, "(usize, bool)", "(b.len(), b.is_empty())");
            f(&mut o, b, "Option<&'a %P>", "b.get(1)");
            f(&mut o, b, "Option<&'a [%P]>", "b.get(1..)");
            f(&mut o, m, "Option<&'a mut %P>", "b.get_mut(1)");
            f(&mut o, m, "Option<&'a mut [%P]>", "b.get_mut(..=1)");
            f(&mut o, b, &it("&'a %P"), "b.iter()");
            f(&mut o, m, &it("&'a mut %P"), "b.iter_mut()");
            f(&mut o, v, &it("%P"), "b.into_iter()");
            f(&mut o, b, &it("&'a %P"), "b.into_iter()");
            f(&mut o, m, &it("&'a mut %P"), "b.into_iter()");
            f(&mut o, b, "&'a Vec<%P>", "b");
            f(&mut o, b, "&'a [%P]", "b");
            f(&mut o, m, "&'a mut Vec<%P>", "b");
            f(&mut o, b, "&'a %P", "&b[0]");
            f(&mut o, b, "&'a [%P]", "&b[..]");
            f(&mut o, m, "&'a mut %P", "&mut b[0]");
            f(&mut o, m, "&'a mut [%P]", "&mut b[1..2]");
            for t in ["[%P]", "Vec<%P>"] {
                f(&mut o, b, &format!("&'a {t}"), &format!("<%X as AsRef<{t}>>::as_ref(b)"));
                f(&mut o, b, &format!("&'a {t}"), &format!("<%X as ::core::borrow::Borrow<{t}>>::borrow(b)"));
                f(&mut o, m, &format!("&'a mut {t}"), &format!("<%X as AsMut<{t}>>::as_mut(b)"));
                f(&mut o, m, &format!("&'a mut {t}"), &format!("<%X as ::core::borrow::BorrowMut<{t}>>::borrow_mut(b)"));
            }
            f(&mut o, "b: [%P; 3]", "%X", "IntoIterator::into_iter(b).collect()");
            f(&mut o, "b: &mut %X, c: Option<%P>", "()", "b.extend(c)");
        }
        Many => {
            f(&mut o, "b: Vec<%P>", "%X", "b.into_iter().collect()");
            f(&mut o, "b: &mut %X, c: Vec<%P>", "()", "b.extend(c)");
            f(&mut o, b, "&'a %P", "&b[0]");
            f(&mut o, v, "Vec<%P>", "b.into_iter().collect()");
        }
        LeftAssoc => {
            f(&mut o, "b: %Q", "%X", "<%X as From<%Q>>::from(b)");
            f(&mut o, "b: %Q", "%X", "LeftAssoc::Rhs(b)");
            f(&mut o, "b: %X, c: %P, d: %Q", "%X", "LeftAssoc::Binary { lhs: Box::new(b), op: c, rhs: d }");
            f(&mut o, v, "Option<(%X, %P, %Q)>", "match b { LeftAssoc::Binary { lhs, op, rhs } => Some((*lhs, op, rhs)), LeftAssoc::Rhs(_) => None }");
            f(&mut o, b, "&'a %Q", "match b { LeftAssoc::Binary { rhs, .. } | LeftAssoc::Rhs(rhs) => rhs }");
        }
        RightAssoc => {
            f(&mut o, "b: %Q", "%X", "<%X as From<%Q>>::from(b)");
            f(&mut o, "b: %Q", "%X", "RightAssoc::Lhs(b)");
            f(&mut o, "b: %X, c: %P, d: %Q", "%X", "RightAssoc::Binary { lhs: d, op: c, rhs: Box::new(b) }");
            f(&mut o, v, "Option<(%X, %P, %Q)>", "match b { RightAssoc::Binary { lhs, op, rhs } => Some((*rhs, op, lhs)), RightAssoc::Lhs(_) => None }");
            f(&mut o, b, "&'a %Q", "match b { RightAssoc::Binary { lhs, .. } | RightAssoc::Lhs(lhs) => lhs }");
        }
        Either => {
            f(&mut o, v, "Option<%P>", "b.left()");
            f(&mut o, v, "Option<%Q>", "b.right()");
            o.push(format!("const fn side_{n}<'a>(b: &'a {x}) -> (bool, Either<&'a {p}, &'a {q}>) {{ (b.is_left() && !b.is_right(), b.as_ref()) }}\n"));
            f(&mut o, v, "Either<%Q, %P>", "b.flip()");
            f(&mut o, b, "Either<&'a %P, &'a %Q>", "b.as_ref()");
            f(&mut o, m, "Either<&'a mut %P, &'a mut %Q>", "b.as_mut()");
            f(&mut o, v, "Either<%Q, Vec<%P>>", "{ let once: Option<%Q> = None; let mut once = Some(once); b.map(move |_| once.take().flatten().unwrap(), |_| Vec::new()) }");
            f(&mut o, "b: Either<Option<%P>, Option<%Q>>", "Option<%X>", "b.transpose()");
            f(&mut o, "b: Either<::parsel::Result<%P>, ::parsel::Result<%Q>>", "::parsel::Result<%X>", "b.transpose()");
            f(&mut o, "b: Either<Vec<%P>, Option<%Q>>", "(Vec<%P>, Vec<%Q>)", "b.into_iter().fold((Vec::new(), Vec::new()), |mut a, x| { match x { Either::Left(x) => a.0.push(x), Either::Right(x) => a.1.push(x) } a })");
            f(&mut o, "mut b: Either<Vec<%P>, Any<%P>>, c: Option<%P>", "Either<Vec<%P>, Any<%P>>", "b.extend(c); b");
            f(&mut o, "b: Either<%P, %P>", "%P", "b.into_inner()");
            f(&mut o, "b: &'a Either<%P, %P>", "&'a %P", "b");
            f(&mut o, "b: &'a mut Either<%P, %P>", "&'a mut %P", "b");
            f(&mut o, "b: &'a Either<%P, %P>", "&'a %P", "<Either<%P, %P> as AsRef<%P>>::as_ref(b)");
            f(&mut o, "b: &'a mut Either<%P, %P>", "&'a mut %P", "<Either<%P, %P> as AsMut<%P>>::as_mut(b)");
        }
        CustomIdent => {
            f(&mut o, b, "Span", "b.span()");
            f(&mut o, "b: &mut %X, s: Span", "()", "b.set_span(s)");
            f(&mut o, b, "Ident", "b.token()");
            f(&mut o, v, "Ident", "b.into()");
            f(&mut o, b, "bool", "*b == \"one\" && *b == String::new()");
            if pc & DEFAULT != 0 {
                f(&mut o, "b: Ident", "::parsel::Result<%X>", "b.try_into()");
            }
        }
        TokenStreamFormatter => {
            o.push(format!("const fn pretty_{n}(b: {q}) -> TokenStreamFormatter<&'static str, {q}> {{ TokenStreamFormatter::pretty(b) }}\n"));
            o.push(format!("const fn compact_{n}(b: {q}) -> TokenStreamFormatter<&'static str, {q}> {{ TokenStreamFormatter::compact(b) }}\n"));
            f(&mut o, "b: String, c: %Q", "::parsel::Result<TokenStreamFormatter<String, %Q>>", "TokenStreamFormatter::with_indent(b, c)");
            f(&mut o, "b: &'a str, c: &'a mut %Q", "::parsel::Result<TokenStreamFormatter<&'a str, &'a mut %Q>>", "TokenStreamFormatter::with_indent(b, c)");
            f(&mut o, "b: &mut TokenStreamFormatter<::std::boxed::Box<str>, &'a mut dyn ::core::fmt::Write>, c: TokenStream, d: &dyn ::parsel::ToTokens", "::core::fmt::Result", "b.write(c)?; b.write_ast_node(&d)?; b.write_ast_node(d)");
        }
        Box => {}
    }
    if c & TOKENS != 0 {
        // printing and locations, of values and behind pointers, too
        f(&mut o, "b: &%X, w: &mut String", "::core::fmt::Result", "format_ast_node_pretty(b, &mut *w)?; format_ast_node_compact(b, w)");
        f(&mut o, "b: &dyn ::parsel::ToTokens, w: &mut dyn ::core::fmt::Write", "::core::fmt::Result", "format_ast_node_pretty(b, w)");
        f(&mut o, "b: &%X, f: &mut ::core::fmt::Formatter<'_>", "::core::fmt::Result", "format_ast_node(b, f)");
        f(&mut o, "b: &%X, mut w: TokenStreamFormatter<String, String>", "::core::fmt::Result", "w.write_ast_node(b)");
        f(&mut o, "b: &dyn ::parsel::ToTokens, f: &mut ::core::fmt::Formatter<'_>", "::core::fmt::Result", "format_ast_node(b, f)");
        f(&mut o, "b: &dyn ::parsel::ToTokens, mut w: TokenStreamFormatter<&str, &mut String>", "::core::fmt::Result", "w.write_ast_node(b)");
        f(&mut o, "b: &%X, s: &'a str", "&'a str", "SpannedExt::source_substring(b, s)");
        f(&mut o, "b: &%X, s: &str", "(Span, SpanDisplay, ::core::ops::Range<usize>, ::core::ops::Range<usize>)", "(SpannedExt::span(b), b.format_span(), b.byte_range(s), b.char_range(s))");
        f(&mut o, "b: &dyn ::parsel::ToTokens, s: &'a str", "&'a str", "SpannedExt::source_substring(b, s)");
        f(&mut o, "b: ::std::boxed::Box<%X>, s: &'a str", "&'a str", "b.source_substring(s)");
    }
    if c & PARSE != 0 {
        f(&mut o, "b: TokenStream, s: &str", "::parsel::Result<(%X, %X)>", "Ok((::parsel::parse2(b)?, ::parsel::parse_str(s)?))");
        // the fallible quoting macros: any error type that takes errors, any position, any scope
        o.push(format!("fn quoted_{n}<E: From<::parsel::Error>>(b: TokenStream, s: Span) -> Result<({x}, {x}), E> {{ let t: {x} = ::parsel::try_parse_quote!(#b, x #b); Ok((t, ::parsel::try_parse_quote_spanned!(s => #(#b)* [x]))) }}\n").replace("#(#b)*", "#b #b"));
        o.push(format!("fn boxed_{n}(b: &dyn ::parsel::ToTokens) -> Result<Vec<{x}>, ::std::boxed::Box<dyn ::std::error::Error>> {{ let f = |i: u8| -> Result<{x}, ::std::boxed::Box<dyn ::std::error::Error>> {{ Ok(::parsel::try_parse_quote!{{ #b #i }}) }}; (0..3).map(f).collect() }}\n"));
        o.push(format!("async fn later_{n}(b: Vec<Ident>) -> ::parsel::Result<{x}> {{ loop {{ if b.len() > 3 {{ break Ok(::parsel::try_parse_quote!(#(#b)*)); }} }} }}\n"));
        o.push(format!("mod hostile_{n} {{ #![no_implicit_prelude] use super::*; type T = {x}; struct Result; struct Ok; struct Err; mod parsel {{}} mod core {{}} fn parse2() {{}} fn quote() {{}} fn quoted(tokens: ::parsel::TokenStream, span: ::parsel::Span) -> ::core::result::Result<(T, T), ::parsel::Error> {{ ::core::result::Result::Ok((::parsel::try_parse_quote!(#tokens span), ::parsel::try_parse_quote_spanned!(span => #tokens span))) }} }}\n"));
        f(&mut o, "b: %P, s: Span", "(%X, %X)", "let _ = b; (::parsel::parse_quote!(a b), ::parsel::parse_quote_spanned!(s => a b))");
    }
    // everything that is derived follows from the fields
    let derives: Vec<&str> = [(CLONE, "Clone"), (DEBUG, "Debug"), (PEQ, "PartialEq"), (HASH, "Hash"), (PARSE, "::parsel::Parse"), (TOKENS, "::parsel::ToTokens")]
        .iter()
        .filter(|d| c & d.0 != 0)
        .map(|d| d.1)
        .collect();
    if !derives.is_empty() && !matches!(h, Box | TokenStreamFormatter) {
        o.push(format!("#[derive({})] struct Field{n} {{ a: {x}, b: ::std::boxed::Box<{x}> }}\n", derives.join(", ")));
        o.push(format!("#[derive({})] enum Variant{n}<T> {{ A({x}), B({x}, T) }}\n", derives.join(", ")));
    }
    o
}

/// what both kinds of separated lists offer
fn lists(o: &mut Vec<String>, f: &mut dyn FnMut(&mut Vec<String>, &str, &str, &str), inner: &str) {
    let it = |i: &str| format!("impl Iterator<Item = {i}> + DoubleEndedIterator + ExactSizeIterator");
    let (b, m, v) = ("b: &'a %X", "b: &'a mut %X", "b: %X");
    f(o, v, inner, "b.into_inner()");
    f(o, v, inner, "b.into()");
    f(o, b, &format!("&'a {inner}"), "b");
    f(o, b, &format!("&'a {inner}"), &format!("<%X as AsRef<{inner}>>::as_ref(b)"));
    f(o, b, &format!("&'a {inner}"), &format!("<%X as ::core::borrow::Borrow<{inner}>>::borrow(b)"));
    f(o, b, &it("&'a %P"), "b.iter()");
    f(o, m, &it("&'a mut %P"), "b.iter_mut()");
    f(o, v, &it("%P"), "b.into_iter()");
    f(o, b, &it("&'a %P"), "b.into_iter()");
    f(o, m, &it("&'a mut %P"), "b.into_iter()");
    f(o, v, &it("syn::punctuated::Pair<%P, %Q>"), "b.into_pairs()");
    f(o, b, &it("syn::punctuated::Pair<&'a %P, &'a %Q>"), "b.pairs()");
    f(o, m, &it("syn::punctuated::Pair<&'a mut %P, &'a mut %Q>"), "b.pairs_mut()");
    f(o, b, "&'a %P", "&b[0]");
    f(o, m, "&'a mut %P", "&mut b[0]");
}

const PRELUDE: &str = "
#![allow(warnings)]
pub use ::parsel::ast::*;
pub use ::parsel::util::*;
pub use ::parsel::{syn, Span, TokenStream};
pub use ::parsel::syn::{token, Token};
pub use ::std::boxed::Box;
pub use ::core::fmt::Debug;
pub use ::core::convert::TryInto;
pub use ::core::hash::Hash;
pub struct R<'r>(&'r str);
pub mod kws {
    ::parsel::define_keywords! { mod inner { alpha => Alpha; beta => BetaKw; } }
    pub use inner::*;
    pub type Name = ::parsel::ast::CustomIdent<inner::Keywords>;
}
";

/// what the compiler says about the program; None: it is fine
fn compile(edition: &str, program: &str) -> Option<String> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let fail = |e: std::io::Error| -> ! {
        eprintln!("check error: {e}");
        std::process::exit(2)
    };
    let root = std::env::current_exe().unwrap_or_else(|e| fail(e)).with_file_name("");
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let dir = std::env::temp_dir().join(format!("vh-face-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| fail(e));
    let file = dir.join("m.rs");
    std::fs::write(&file, program).unwrap_or_else(|e| fail(e));
    let out = Command::new("rustc")
        .arg(format!("--edition={edition}"))
        .args(["--crate-type=lib", "--crate-name=m", "--emit=metadata", "--cap-lints=allow", "--extern"])
        .arg(format!("parsel={}", root.join("libparsel.rlib").display()))
        .arg("-L")
        .arg(format!("dependency={}", root.join("deps").display()))
        .arg("--out-dir")
        .arg(&dir)
        .arg(&file)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| fail(e));
    let _ = std::fs::remove_dir_all(&dir);
    if out.status.success() {
        return None;
    }
    let e = String::from_utf8_lossy(&out.stderr).into_owned();
    if e.contains("can't find crate") {
        eprintln!("check error: {e}");
        std::process::exit(2);
    }
    Some(format!("{}\n{}", out.status, e.chars().take(1500).collect::<String>()))
}

fn composed(ch: &mut Ch, ob: &mut Ob) -> R {
    let edition = *ch.pick(&["2021", "2018", "2024"]);
    ob.class(edition);
    let mut owns = vec![];
    let mut decls = String::new();
    for i in 0..ch.range(1, 6) as usize {
        let (c, s) = own(ch, i);
        owns.push(c);
        decls.push_str(&s);
    }
    let mut items: Vec<String> = vec![];
    let mut seen = BTreeSet::new();
    let mut types = 0;
    while !ch.exhausted() && types < 24 {
        let d = ch.weighted(&[1, 5, 4, 4]) as u32;
        let t = ty(ch, &owns, d);
        if seen.insert(t.show("'_")) {
            if let Ty::App(h, _) = &t {
                ob.class(NAMES[HEADS.iter().position(|x| x.0 == *h).unwrap()]);
            }
            if t.borrows() {
                ob.class("holds a borrow");
            }
            items.extend(uses(&t, types));
            types += 1;
        }
    }
    ob.key = seen.iter().cloned().collect::<Vec<_>>().join(" ") + &decls;
    ob.nontrivial = types > 0;
    ob.add("types composed", types as u64);
    ob.add("uses compiled", items.len() as u64);
    let before = format!("{PRELUDE}{decls}");
    let Some(e) = compile(edition, &format!("{before}{}", items.concat())) else { return Ok(()) };
    // each item is a line; those mentioned first
    let lines = e.split("m.rs:").skip(1).filter_map(|l| l.split(':').next()?.parse::<usize>().ok());
    let mut blamed: Vec<&String> = lines.filter_map(|l| items.get(l.checked_sub(before.lines().count() + 1)?)).collect();
    blamed.extend(&items);
    for i in blamed {
        if let Some(e) = compile(edition, &format!("{PRELUDE}{decls}{i}")) {
            return Err(format!("{decls}{i}\nThis should compile in edition {edition}, as the arguments have what it takes: {e}"));
        }
    }
    Err("these compile one by one, but not together".into())
}

fn main() {
    run::main(Prop {
        id: "C27",
        rule: "at least one helper type is composed and used; distinct = different types and capabilities of their arguments",
        subs: vec![sub("composed types", 500, 40_000, (60, 500), composed)],
        probe: None,
        assumptions: vec!["the installed stable compiler decides trait bounds, lifetimes and constant functions correctly"],
    })
}
