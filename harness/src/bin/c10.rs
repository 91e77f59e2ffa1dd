//! C10: literal values survive printing and re-parsing.
use parsel::ast::*;
use parsel::{NotNan, ToTokens};
use std::fmt::{Debug, Display};
use std::str::FromStr;
use vh::run::*;
use vh::tok::{lex, toks, Tok, K};
use vh::{ck, ck_eq, lits, Ch};

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Bool(bool),
    Byte(u8),
    Int(i64),
    Uint(u64),
    Float(u64),
    Char(char),
    Str(String),
    BStr(Vec<u8>),
}

trait L: Clone + Debug + PartialEq + Display + FromStr<Err = parsel::Error> + parsel::Parse + ToTokens + Into<Lit> {
    fn val(&self) -> Val;
    const NAME: &'static str;
}
macro_rules! l {
    ($($t:ident $v:ident |$x:ident| $e:expr;)*) => {$(
        impl L for $t { const NAME: &'static str = stringify!($t); fn val(&self) -> Val { let $x = self.value(); Val::$v($e) } }
    )*}
}
l! {
    LitBool Bool |x| x; LitByte Byte |x| x; LitInt Int |x| x; LitUint Uint |x| x;
    LitFloat Float |x| x.into_inner().to_bits(); LitChar Char |x| x; LitStr Str |x| x; LitByteStr BStr |x| x;
}

fn lit_val(l: &Lit) -> Val {
    match l {
        Lit::Bool(x) => x.val(),
        Lit::Byte(x) => x.val(),
        Lit::Int(x) => x.val(),
        Lit::Uint(x) => x.val(),
        Lit::Float(x) => x.val(),
        Lit::Char(x) => x.val(),
        Lit::Str(x) => x.val(),
        Lit::ByteStr(x) => x.val(),
    }
}

/// the kind of token that a spelling must have, told from its first characters
fn spelled_as(s: &str, v: &Val) -> bool {
    match v {
        Val::Bool(b) => s == if *b { "true" } else { "false" },
        Val::Byte(_) => s.starts_with("b'"),
        Val::Int(_) | Val::Uint(_) => !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()),
        Val::Float(_) => s.starts_with(|c: char| c.is_ascii_digit()) && s.contains(|c| c == '.' || c == 'e') && s.chars().all(|c| c.is_ascii_digit() || ".eE+-".contains(c)),
        Val::Char(_) => s.starts_with('\''),
        Val::Str(_) => s.starts_with('"') || s.starts_with('r'),
        Val::BStr(_) => s.starts_with("b\"") || s.starts_with("br"),
    }
}

fn negative(v: &Val) -> bool {
    match v {
        Val::Int(i) => *i < 0,
        Val::Float(b) => f64::from_bits(*b).is_sign_negative(),
        _ => false,
    }
}

fn form(t: &[Tok], v: &Val, how: &str) -> R {
    let rest = match (negative(v), &t) {
        (true, [Tok { k: K::Punct('-', _), .. }, rest @ ..]) => rest,
        (false, rest) => rest,
        _ => return Err(format!("{how}: negative value without a minus sign: {t:?}")),
    };
    match rest {
        [Tok { k: K::Lit(s) | K::Ident(s), .. }] if spelled_as(s, v) => Ok(()),
        _ => Err(format!("{how} is not one literal of the kind: {t:?}")),
    }
}

fn round<T: L>(x: &T) -> R {
    let n = T::NAME;
    let v = x.val();
    let as_lit = match &v {
        Val::Int(i) if *i >= 0 => Val::Uint(*i as u64),
        v => v.clone(),
    };
    let lit: Lit = x.clone().into();
    ck_eq!(lit_val(&lit), v, "{n} into Lit");
    for (text, how) in [(x.to_string(), "display"), (format!("{x:#}"), "alternate display"), (lit.to_string(), "display as Lit"), (format!("{lit:#}"), "alternate display as Lit")] {
        let Some((_, t)) = lex(&text) else { return Err(format!("{n}: {how} does not lex: {text:?}")) };
        form(&t, &v, how)?;
        match text.parse::<T>() {
            Ok(y) => {
                ck_eq!(y.val(), v, "{n}: {how} {text:?} parses to another value");
                ck!(y == *x, "{n}: {how} {text:?} parses to an unequal literal");
            }
            Err(e) => return Err(format!("{n}: {how} {text:?} does not parse back: {e}")),
        }
        match text.parse::<Lit>() {
            Ok(y) => ck_eq!(lit_val(&y), as_lit, "Lit: {how} {text:?} of {n} parses to another value"),
            Err(e) => return Err(format!("Lit: {how} {text:?} does not parse back: {e}")),
        }
    }
    for (ts, how) in [(x.to_token_stream(), "tokens"), (lit.to_token_stream(), "tokens as Lit")] {
        form(&toks(ts.clone()), &v, how)?;
        match parsel::parse2::<T>(ts.clone()) {
            Ok(y) => ck!(y.val() == v && y == *x, "{n}: {how} parse to {:?}, expected {v:?}", y.val()),
            Err(e) => return Err(format!("{n}: {how} do not parse back: {e}")),
        }
        match parsel::parse2::<Lit>(ts) {
            Ok(y) => ck_eq!(lit_val(&y), as_lit, "Lit: {how} of {n} parse to another value"),
            Err(e) => return Err(format!("Lit: {how} do not parse back: {e}")),
        }
    }
    let _ = format!("{x:?} {lit:?}");
    Ok(())
}

fn float(x: f64) -> R {
    round(&LitFloat::from(NotNan::new(x).expect("not NaN")))
}

const CHUNK: u64 = 256;

fn main() {
    vh::run::main(Prop {
        id: "C10",
        rule: "every case; distinct = different (type, value)",
        subs: vec![
            exh("bool", 2, |i, ob| {
                ob.case(true, format!("{i}"));
                round(&LitBool::from(i == 1))
            }),
            exh("byte", 256, |i, ob| {
                ob.case(true, format!("{i}"));
                round(&LitByte::from(i as u8))
            }),
            exh("one-byte strings", 256, |i, ob| {
                ob.case(true, format!("{i}"));
                round(&LitByteStr::from(vec![i as u8]))?;
                round(&LitByteStr::from(vec![b'0', i as u8, b'1']))
            }),
            // every character, in blocks
            exh("char", 0x110000 / CHUNK, |i, ob| {
                ob.case(true, format!("U+{:04X}..", i * CHUNK));
                for c in (i * CHUNK..(i + 1) * CHUNK).filter_map(|c| char::from_u32(c as u32)) {
                    ob.add("characters", 1);
                    round(&LitChar::from(c))?;
                }
                Ok(())
            }),
            exh("char in string", 0x110000 / CHUNK, |i, ob| {
                ob.case(true, format!("U+{:04X}..", i * CHUNK));
                let all: String = (i * CHUNK..(i + 1) * CHUNK).filter_map(|c| char::from_u32(c as u32)).collect();
                ob.add("characters", all.chars().count() as u64);
                let digits: String = all.chars().flat_map(|c| [c, '7', 'f']).collect();
                round(&LitStr::from(digits))?;
                round(&LitStr::from(all))
            }),
            // the neighbourhood of every power of two
            exh("integers near powers of two", 65 * 9, |i, ob| {
                let (sh, d) = (i / 9, i as i128 % 9 - 4);
                let m = (1i128 << sh) + d;
                ob.case(true, format!("2^{sh}{d:+}"));
                if let Ok(x) = u64::try_from(m) {
                    round(&LitUint::from(x))?;
                }
                for m in [m, -m] {
                    if let Ok(x) = i64::try_from(m) {
                        round(&LitInt::from(x))?;
                    }
                }
                Ok(())
            }),
            exh("floats by exponent", 2048 * 8, |i, ob| {
                let (e, m) = (i / 8, i % 8);
                let m = [0, 1, 0xfffffffffffff, 0x8000000000000, 0x5555555555555, 0xaaaaaaaaaaaab, 2, 0xffffffffffffe][m as usize];
                let x = f64::from_bits(e << 52 | m);
                ob.case(!x.is_nan(), format!("{x:e}"));
                if x.is_nan() {
                    return Ok(());
                }
                float(x)?;
                float(-x)
            }),
            sub("int", 60_000, 5_000_000, (0, 12), |ch, ob| {
                let x = lits::i64_val(ch);
                ob.case(true, format!("{x}"));
                ob.class_if(x < 0, "negative");
                round(&LitInt::from(x))
            }),
            sub("uint", 40_000, 4_000_000, (0, 12), |ch, ob| {
                let x = lits::u64_val(ch);
                ob.case(true, format!("{x}"));
                round(&LitUint::from(x))
            }),
            sub("float", 60_000, 6_000_000, (0, 12), |ch, ob| {
                let x = lits::f64_val(ch);
                ob.case(true, format!("{x:e}"));
                ob.class_if(x < 0.0, "negative");
                ob.class_if(x.is_infinite(), "infinite");
                ob.class_if(x != 0.0 && !x.is_normal() && x.is_finite(), "subnormal");
                float(x)
            }),
            sub("decimal floats", 30_000, 3_000_000, (0, 12), |ch, ob| {
                // values with short decimal forms and their neighbours
                let m = lits::mag(ch) % 1_000_000;
                let e = ch.range(0, 640) as i32 - 325;
                let x: f64 = format!("{m}e{e}").parse().unwrap();
                let d = ch.below(3) as u64;
                let x = f64::from_bits((x.to_bits() + d).saturating_sub(1));
                let x = if x.is_nan() { 1.0 } else { x };
                let x = if ch.flag() { -x } else { x };
                ob.case(true, format!("{x:e}"));
                float(x)
            }),
            sub("str", 60_000, 4_000_000, (0, 60), |ch, ob| {
                let s = lits::string(ch, 200);
                ob.case(true, format!("{s:?}"));
                ob.class_if(s.len() > 60, "long");
                round(&LitStr::from(s))
            }),
            sub("byte str", 60_000, 4_000_000, (0, 60), |ch, ob| {
                let s = lits::bytes(ch, 200);
                ob.case(true, format!("{s:?}"));
                ob.class_if(s.len() > 60, "long");
                round(&LitByteStr::from(s))
            }),
            sub("long str", 600, 30_000, (4, 16), |ch, ob| {
                let s = lits::long_string(ch, 17);
                ob.case(true, format!("{} bytes: {:?}...", s.len(), s.chars().take(16).collect::<String>()));
                ob.class_if(s.len() > 65_536, "more than 65536 bytes");
                round(&LitStr::from(s))
            }),
            sub("long byte str", 600, 30_000, (4, 16), |ch, ob| {
                let s = lits::long_bytes(ch, 17);
                ob.case(true, format!("{} bytes: {:?}...", s.len(), &s[..s.len().min(16)]));
                ob.class_if(s.len() > 65_536, "more than 65536 bytes");
                round(&LitByteStr::from(s))
            }),
            sub("in context", 20_000, 1_000_000, (0, 80), context),
        ],
        probe: None,
        assumptions: vec![],
    })
}

/// a list of literals survives as a whole
fn context(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = ch.size(30);
    let mut v: Vec<Lit> = vec![];
    for _ in 0..n {
        v.push(match ch.below(8) {
            0 => Lit::from(lits::u64_val(ch)),
            1 => Lit::from(lits::i64_val(ch)),
            2 => Lit::from(lits::string(ch, 6)),
            3 => Lit::from(lits::bytes(ch, 6)),
            4 => Lit::from(lits::chr(ch)),
            5 => Lit::from(ch.below(256) as u8),
            6 => Lit::from(ch.flag()),
            _ => Lit::from(NotNan::new(lits::f64_val(ch)).unwrap()),
        });
    }
    let want: Vec<Val> = v
        .iter()
        .map(|l| match lit_val(l) {
            Val::Int(i) if i >= 0 => Val::Uint(i as u64),
            v => v,
        })
        .collect();
    let m: Punctuated<Lit, Token![,]> = v.clone().into_iter().collect();
    let many: Any<Lit> = v.into();
    ob.case(n > 1, format!("{m:#}"));
    for t in [m.to_string(), format!("{m:#}")] {
        let got = t.parse::<Punctuated<Lit, Token![,]>>().map_err(|e| format!("list does not parse back: {e}: {t}"))?;
        ck_eq!(got.iter().map(lit_val).collect::<Vec<_>>(), want, "list");
    }
    for t in [many.to_string(), format!("{many:#}")] {
        let got = t.parse::<Any<Lit>>().map_err(|e| format!("sequence does not parse back: {e}: {t}"))?;
        ck_eq!(got.iter().map(lit_val).collect::<Vec<_>>(), want, "sequence");
    }
    Ok(())
}
