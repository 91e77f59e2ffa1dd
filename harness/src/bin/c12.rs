//! C12: conversions between literals, raw values and syn's literals; spans of constructors.
use parsel::ast::*;
use parsel::{NotNan, ToTokens};
use proc_macro2::{Span, TokenTree};
use std::borrow::{Borrow, BorrowMut, Cow};
use std::ops::{Deref, DerefMut};
use vh::run::*;
use vh::tok::{some_spans, Sp};
use vh::{ck, ck_eq, lits, Ch};

parsel::define_keywords! {
    mod kw {
        alpha => Alpha;
        fn => Fn;
        _ => Under;
    }
}

fn sp(s: Span) -> Sp {
    Sp::of(s)
}

fn two(ch: &mut Ch) -> (Span, Span) {
    let s = some_spans();
    (*ch.pick(&s), *ch.pick(&s))
}

/// checks common to all eight literal types
macro_rules! common {
    ($ch:expr, $ob:expr, $t:ident, $raw:ty, $v:expr, $variant:ident $sv:ident, $syn:ident, |$s:ident| $sval:expr, $expect_variant:expr) => {{
        let n = stringify!($t);
        let v: $raw = $v;
        let (s1, s2) = two($ch);
        $ob.case(true, format!("{n} {v:?} {:?} {:?}", sp(s1), sp(s2)));
        $ob.class(n);
        let t = $t::new(v.clone(), s1);
        ck_eq!(t.value(), v, "{n}: value of new");
        ck_eq!(sp(t.span()), sp(s1), "{n}: span of new");
        ck_eq!(t.clone().into_inner(), v, "{n}: into_inner");
        ck_eq!(<$raw>::from(t.clone()), v, "{n}: into the raw value");
        ck_eq!(Borrow::<$raw>::borrow(&t), &v, "{n}: borrow as the raw value");
        let f = $t::from(v.clone());
        ck_eq!(f.value(), v, "{n}: value of from");
        ck_eq!(sp(f.span()), Sp::CALL_SITE, "{n}: span of from");
        ck!(f == t && t == v, "{n}: unequal to itself with another span");
        let mut u = t.clone();
        ck_eq!(sp(u.span()), sp(s1), "{n}: span of a clone");
        u.set_span(s2);
        ck_eq!(u.value(), v, "{n}: value after set_span");
        ck_eq!(sp(u.span()), sp(s2), "{n}: span after set_span");
        ck_eq!(t.token().to_string(), u.token().to_string(), "{n}: token after set_span");
        ck_eq!(sp(u.token().span()), sp(s2), "{n}: span of the token");
        let tt = TokenTree::from(u.clone());
        ck_eq!(sp(tt.span()), sp(s2), "{n}: span of the token tree");
        ck_eq!(tt.to_string(), u.token().to_string(), "{n}: text of the token tree");
        for x in u.to_token_stream() {
            ck_eq!(sp(x.span()), sp(s2), "{n}: span of a printed token");
        }
        // syn's counterpart
        let $s = syn::$syn::from(t.clone());
        ck_eq!($sval, v, "{n}: value as syn's literal");
        ck_eq!(sp($s.span()), sp(s1), "{n}: span as syn's literal");
        let back = $t::try_from($s).map_err(|e| format!("{n}: from syn's literal: {e:?}"))?;
        ck_eq!(back.value(), v, "{n}: value back from syn's literal");
        ck_eq!(sp(back.span()), sp(s1), "{n}: span back from syn's literal");
        // the general type
        let l = Lit::from(t.clone());
        match &l {
            Lit::$variant(x) => {
                ck_eq!(x.value(), v, "{n}: value as Lit");
                ck_eq!(sp(x.span()), sp(s1), "{n}: span as Lit");
            }
            x => return Err(format!("{n} becomes {x:?} as Lit")),
        }
        ck_eq!(sp(l.span()), sp(s1), "{n}: span of Lit");
        let mut m = l.clone();
        m.set_span(s2);
        ck_eq!(sp(m.span()), sp(s2), "{n}: span of Lit after set_span");
        ck!(m == l && m.to_string() == l.to_string(), "{n}: Lit changed by set_span");
        match &m {
            Lit::$variant(x) => ck!(sp(x.span()) == sp(s2) && x.value() == v, "{n}: literal in Lit after set_span"),
            x => return Err(format!("{n}: Lit becomes {x:?} after set_span")),
        }
        let sl = syn::Lit::from(l.clone());
        ck_eq!(sp(sl.span()), sp(s1), "{n}: span of Lit as syn::Lit");
        match &sl {
            syn::Lit::$sv($s) => {
                ck_eq!($sval, v, "{n}: value of Lit as syn::Lit");
            }
            x => return Err(format!("{n}: Lit becomes {x:?} as syn::Lit")),
        }
        let lb = Lit::try_from(sl).map_err(|e| format!("{n}: Lit back from syn::Lit: {e}"))?;
        let expect: Lit = $expect_variant(t.clone());
        ck!(lb == expect, "{n}: Lit back from syn::Lit is {lb:?}, expected {expect:?}");
        ck_eq!(sp(lb.span()), sp(s1), "{n}: span of Lit back from syn::Lit");
        let d = $t::default();
        ck_eq!(d.value(), <$raw>::default(), "{n}: default");
        ck_eq!(sp(d.span()), Sp::CALL_SITE, "{n}: span of default");
        (t, v, s1, s2)
    }};
}

macro_rules! lit_from {
    ($v:ident, $what:expr, $val:expr, $($raw:expr),* $(,)?) => {$(
        match Lit::from($raw) {
            Lit::$v(x) => {
                ck_eq!(x.value(), $val, "Lit from {} ({})", $what, stringify!($raw));
                ck_eq!(sp(x.span()), Sp::CALL_SITE, "span of Lit from {}", $what);
            }
            x => return Err(format!("Lit from {} ({}) is {x:?}", $what, stringify!($raw))),
        }
    )*}
}

fn string(ch: &mut Ch) -> String {
    if ch.chance(1, 60) { lits::long_string(ch, 14) } else { lits::string(ch, 12) }
}
fn bytes(ch: &mut Ch) -> Vec<u8> {
    if ch.chance(1, 60) { lits::long_bytes(ch, 14) } else { lits::bytes(ch, 12) }
}

fn literals(ch: &mut Ch, ob: &mut Ob) -> R {
    match ch.below(8) {
        0 => {
            let (_, v, ..) = common!(ch, ob, LitBool, bool, ch.flag(), Bool Bool, LitBool, |s| s.value(), Lit::Bool);
            lit_from!(Bool, "bool", v, v);
        }
        1 => {
            let (_, v, ..) = common!(ch, ob, LitByte, u8, ch.below(256) as u8, Byte Byte, LitByte, |s| s.value(), Lit::Byte);
            lit_from!(Byte, "u8", v, v);
        }
        2 => {
            let again = |t: LitInt| if t.value() < 0 { Lit::Int(t) } else { Lit::Uint(LitUint::new(t.value() as u64, t.span())) };
            let (_, v, ..) = common!(ch, ob, LitInt, i64, lits::i64_val(ch), Int Int, LitInt, |s| s.base10_parse::<i64>().map_err(|e| e.to_string())?, again);
            lit_from!(Int, "i64", v, v);
        }
        3 => {
            let (_, v, ..) = common!(ch, ob, LitUint, u64, lits::u64_val(ch), Uint Int, LitInt, |s| s.base10_parse::<u64>().map_err(|e| e.to_string())?, Lit::Uint);
            lit_from!(Uint, "u64", v, v);
        }
        4 => {
            let x = NotNan::new(lits::f64_val(ch)).unwrap();
            let (t, v, s1, _) = common!(ch, ob, LitFloat, NotNan<f64>, x, Float Float, LitFloat, |s| s.base10_parse::<NotNan<f64>>().map_err(|e| e.to_string())?, Lit::Float);
            lit_from!(Float, "NotNan<f64>", v, v);
            let bits = v.into_inner().to_bits();
            ck_eq!(f64::from(t).to_bits(), bits, "f64 from LitFloat");
            let f = LitFloat::try_from(v.into_inner()).map_err(|e| format!("LitFloat from f64: {e}"))?;
            ck!(f.value().into_inner().to_bits() == bits && sp(f.span()) == Sp::CALL_SITE, "LitFloat from f64");
            match Lit::try_from(v.into_inner()) {
                Ok(Lit::Float(f)) => ck!(f.value().into_inner().to_bits() == bits && sp(f.span()) == Sp::CALL_SITE, "Lit from f64"),
                x => return Err(format!("Lit from f64: {x:?}")),
            }
            let back = LitFloat::try_from(syn::LitFloat::from(LitFloat::new(v, s1))).map_err(|e| e.to_string())?;
            ck_eq!(back.value().into_inner().to_bits(), bits, "bits back from syn::LitFloat");
            let nan = f64::from_bits(0x7ff8_0000_0000_0000 | (ch.u64() >> 13) | (ch.below(2) as u64) << 63);
            ck!(LitFloat::try_from(nan).is_err(), "LitFloat from NaN");
            ck!(Lit::try_from(nan).is_err(), "Lit from NaN");
        }
        5 => {
            let (_, v, ..) = common!(ch, ob, LitChar, char, lits::chr(ch), Char Char, LitChar, |s| s.value(), Lit::Char);
            lit_from!(Char, "char", v, v);
        }
        6 => {
            let (t, v, s1, _) = common!(ch, ob, LitStr, String, string(ch), Str Str, LitStr, |s| s.value(), Lit::Str);
            let bx: Box<str> = v.as_str().into();
            lit_from!(Str, "string", v, v.clone(), v.as_str(), bx.clone(), Cow::Borrowed(v.as_str()), Cow::<str>::Owned(v.clone()));
            for x in [LitStr::from(v.as_str()), LitStr::from(bx.clone()), LitStr::from(Cow::Borrowed(v.as_str())), LitStr::from(Cow::<str>::Owned(v.clone()))] {
                ck_eq!(x.value(), v, "LitStr from a kind of string");
                ck_eq!(sp(x.span()), Sp::CALL_SITE, "span of LitStr from a kind of string");
            }
            ck_eq!(Box::<str>::from(t.clone()), bx, "boxed");
            ck_eq!(Cow::<str>::from(t.clone()), Cow::Borrowed(v.as_str()), "borrowed or owned");
            ck_eq!(AsRef::<str>::as_ref(&t), v.as_str(), "as_ref");
            ck_eq!(t.deref(), v.as_str(), "deref");
            ck_eq!(Borrow::<str>::borrow(&t), v.as_str(), "borrow");
            ck_eq!(sp(t.span()), sp(s1), "span after borrowing");
            ck!(t == *v.as_str(), "eq str");
        }
        _ => {
            let (t, v, s1, _) = common!(ch, ob, LitByteStr, Vec<u8>, bytes(ch), ByteStr ByteStr, LitByteStr, |s| s.value(), Lit::ByteStr);
            let bx: Box<[u8]> = v.as_slice().into();
            lit_from!(ByteStr, "bytes", v, v.clone(), v.as_slice(), bx.clone(), Cow::Borrowed(v.as_slice()), Cow::<[u8]>::Owned(v.clone()));
            for x in [LitByteStr::from(v.as_slice()), LitByteStr::from(bx.clone()), LitByteStr::from(Cow::Borrowed(v.as_slice())), LitByteStr::from(Cow::<[u8]>::Owned(v.clone()))] {
                ck_eq!(x.value(), v, "LitByteStr from a kind of bytes");
                ck_eq!(sp(x.span()), Sp::CALL_SITE, "span of LitByteStr from a kind of bytes");
            }
            ck_eq!(Box::<[u8]>::from(t.clone()), bx, "boxed");
            ck_eq!(Cow::<[u8]>::from(t.clone()), Cow::Borrowed(v.as_slice()), "borrowed or owned");
            ck_eq!(AsRef::<[u8]>::as_ref(&t), v.as_slice(), "as_ref");
            ck_eq!(t.deref(), v.as_slice(), "deref");
            ck_eq!(Borrow::<[u8]>::borrow(&t), v.as_slice(), "borrow");
            ck!(t == *v.as_slice(), "eq bytes");
            for how in 0..3 {
                let (mut m, mut w) = (t.clone(), v.clone());
                for b in match how {
                    0 => m.deref_mut(),
                    1 => AsMut::<[u8]>::as_mut(&mut m),
                    _ => BorrowMut::<[u8]>::borrow_mut(&mut m),
                } {
                    *b = b.wrapping_add(3);
                }
                w.iter_mut().for_each(|b| *b = b.wrapping_add(3));
                ck_eq!(m.value(), w, "mutated in place ({how})");
                ck_eq!(sp(m.span()), sp(s1), "span after mutation");
            }
        }
    }
    Ok(())
}

/// syn's literals as they come out of a source text
fn from_source(ch: &mut Ch, ob: &mut Ob) -> R {
    let k = ch.below(8);
    let lead = *ch.pick(&["", " ", "\n\n  ", "/* é */ ", "// x\n\t"]);
    let (text, check): (String, Box<dyn Fn(syn::Lit) -> R>) = match k {
        0 | 1 => {
            let m = lits::mag(ch);
            let neg = ch.chance(2, 5);
            let s = format!("{}{}", if neg { "-" } else { "" }, lits::int(ch, m));
            let i = if neg { if m <= 1 << 63 { Some((-(m as i128)) as i64) } else { None } } else { i64::try_from(m).ok() };
            let u = if neg { None } else { u64::try_from(m).ok() };
            (
                s,
                Box::new(move |l| {
                    let syn::Lit::Int(l) = l else { return Err("not an integer".into()) };
                    let (a, b) = (LitInt::try_from(l.clone()), LitUint::try_from(l.clone()));
                    ck_eq!(a.as_ref().ok().map(|x| x.value()), i, "LitInt from syn::LitInt");
                    ck_eq!(b.as_ref().ok().map(|x| x.value()), u, "LitUint from syn::LitInt");
                    if let Ok(a) = a {
                        ck_eq!(sp(a.span()), sp(l.span()), "span of LitInt");
                    }
                    if let Ok(a) = b {
                        ck_eq!(sp(a.span()), sp(l.span()), "span of LitUint");
                    }
                    let g = Lit::try_from(syn::Lit::Int(l.clone()));
                    match (&g, neg) {
                        (Ok(Lit::Int(x)), true) => ck_eq!(Some(x.value()), i, "Lit from syn::Lit"),
                        (Ok(Lit::Uint(x)), false) => ck_eq!(Some(x.value()), u, "Lit from syn::Lit"),
                        (Err(_), _) => ck!(if neg { i.is_none() } else { u.is_none() }, "Lit from syn::Lit fails"),
                        (x, _) => return Err(format!("Lit from syn::Lit: {x:?}")),
                    }
                    if let Ok(g) = g {
                        ck_eq!(sp(g.span()), sp(l.span()), "span of Lit");
                    }
                    Ok(())
                }),
            )
        }
        2 => {
            let (s, x) = lits::float(ch);
            let neg = ch.flag();
            let x = if neg { -x } else { x };
            (
                format!("{}{s}", if neg { "-" } else { "" }),
                Box::new(move |l| {
                    let syn::Lit::Float(l) = l else { return Err("not a float".into()) };
                    let a = LitFloat::try_from(l.clone()).map_err(|e| e.to_string())?;
                    ck_eq!(a.value().into_inner().to_bits(), x.to_bits(), "LitFloat from syn::LitFloat");
                    ck_eq!(sp(a.span()), sp(l.span()), "span of LitFloat");
                    let g = Lit::try_from(syn::Lit::Float(l.clone())).map_err(|e| e.to_string())?;
                    ck!(g == Lit::Float(a) && sp(g.span()) == sp(l.span()), "Lit from syn::Lit");
                    Ok(())
                }),
            )
        }
        _ => {
            macro_rules! other {
                ($t:ident, $v:ident, $x:expr, $spell:expr) => {{
                    let x = $x;
                    let s = $spell(&mut *ch, &x);
                    (
                        s,
                        Box::new(move |l| {
                            let syn::Lit::$v(l) = l else { return Err(format!("not a {}", stringify!($v))) };
                            let a = $t::from(l.clone());
                            ck_eq!(a.value(), x, "{} from syn's", stringify!($t));
                            ck_eq!(sp(a.span()), sp(l.span()), "span of {}", stringify!($t));
                            let g = Lit::try_from(syn::Lit::$v(l.clone())).map_err(|e| e.to_string())?;
                            ck!(g == Lit::$v(a) && sp(g.span()) == sp(l.span()), "Lit from syn::Lit");
                            Ok(())
                        }),
                    )
                }};
            }
            match k {
                3 => other!(LitStr, Str, lits::string(ch, 10), |c: &mut Ch, x: &String| lits::str_spelling(c, x)),
                4 => other!(LitByteStr, ByteStr, lits::bytes(ch, 10), |c: &mut Ch, x: &Vec<u8>| lits::bstr_spelling(c, x)),
                5 => other!(LitChar, Char, lits::chr(ch), |c: &mut Ch, x: &char| lits::char_spelling(c, *x)),
                6 => other!(LitByte, Byte, ch.below(256) as u8, |c: &mut Ch, x: &u8| lits::byte_spelling(c, *x)),
                _ => other!(LitBool, Bool, ch.flag(), |_: &mut Ch, x: &bool| x.to_string()),
            }
        }
    };
    let src = format!("{lead}{text}");
    ob.case(true, src.clone());
    let l = syn::parse_str::<syn::Lit>(&src).map_err(|e| format!("syn does not parse {src:?}: {e}"))?;
    check(l)
}

/// literals that Lit cannot represent are errors
fn verbatim(ch: &mut Ch, ob: &mut Ob) -> R {
    let s = *ch.pick(&["c\"x\"", "cr\"x\"", "c\"\""]);
    let l = if ch.flag() {
        syn::parse_str::<syn::Lit>(s).map_err(|e| e.to_string())?
    } else {
        let l: proc_macro2::Literal = s.parse().map_err(|_| "literal".to_string())?;
        syn::Lit::Verbatim(l)
    };
    ob.case(true, s);
    ck!(Lit::try_from(l).is_err(), "Lit made of {s}");
    Ok(())
}

/// identifiers and keywords store the span they are given
fn words(ch: &mut Ch, ob: &mut Ob) -> R {
    let (s1, s2) = two(ch);
    let w = *ch.pick(&["a", "foo", "fn", "_", "été", "漢字", "alpha", "self", "Self_"]);
    ob.case(true, format!("{w} {:?} {:?}", sp(s1), sp(s2)));
    let mut x = Word::new(w, s1);
    ck_eq!(sp(x.span()), sp(s1), "span of Word::new");
    ck_eq!(x.to_string(), w, "text of Word::new");
    x.set_span(s2);
    ck!(sp(x.span()) == sp(s2) && x.to_string() == w && x == w, "Word after set_span");
    ck_eq!(sp(x.token().span()), sp(s2), "span of the token");
    let y = word(w);
    ck!(sp(y.span()) == Sp::CALL_SITE && y == x && y.to_string() == w, "word()");
    let z = ident(w);
    ck!(sp(z.span()) == Sp::CALL_SITE && z == w, "ident()");
    let i = Ident::from(x.clone());
    ck!(sp(i.span()) == sp(s2) && i == w, "Ident from Word");
    let b = Word::try_from(i).map_err(|e| e.to_string())?;
    ck!(sp(b.span()) == sp(s2) && b == x, "Word from Ident");
    macro_rules! kws { ($($k:ident $s:literal),*) => {$({
        let mut k = kw::$k::new(s1);
        ck!(sp(k.span()) == sp(s1) && k.as_str() == $s, "keyword new");
        k.set_span(s2);
        ck!(sp(k.span()) == sp(s2) && k.as_str() == $s && k.to_string() == $s, "keyword after set_span");
        ck!(sp(k.token().span()) == sp(s2) && k.token() == $s, "keyword token");
        ck!(sp(TokenTree::from(k).span()) == sp(s2), "keyword token tree");
        ck!(sp(kw::$k::default().span()) == Sp::CALL_SITE, "keyword default");
    })*} }
    kws!(Alpha "alpha", Fn "fn", Under "_");
    Ok(())
}

fn main() {
    vh::run::main(Prop {
        id: "C12",
        rule: "every case; distinct = different (type, value, spans) or source texts",
        subs: vec![
            sub("literals", 300_000, 10_000_000, (0, 40), literals),
            sub("from source", 150_000, 6_000_000, (0, 40), from_source),
            sub("unrepresentable", 200, 2_000, (0, 4), verbatim),
            sub("words and keywords", 20_000, 500_000, (0, 6), words),
        ],
        probe: None,
        assumptions: vec!["spans are told apart by their line and column"],
    })
}
