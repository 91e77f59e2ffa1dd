//! C11: spellings of literals.
use parsel::ast::*;
use vh::run::*;
use vh::{ck, ck_eq, lits, Ch};

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Bool(bool),
    Byte(u8),
    /// sign, magnitude
    Int(bool, u128),
    Float(u64),
    Char(char),
    Str(String),
    BStr(Vec<u8>),
    /// a literal that none of the types can represent
    Other,
    /// no literal at all
    None,
}

/// what every type must make of a spelling with the given value
fn check(s: &str, v: &Val) -> R {
    macro_rules! one {
        ($t:ident, $want:expr, |$x:ident| $get:expr) => {{
            let want = $want;
            match (s.parse::<$t>(), &want) {
                (Ok($x), Some(w)) => {
                    let g = $get;
                    ck!(g == *w, "{} reads {s:?} as {g:?}, expected {w:?}", stringify!($t));
                }
                (Ok($x), None) => return Err(format!("{} accepts {s:?} as {:?}", stringify!($t), $get)),
                (Err(e), Some(w)) => return Err(format!("{} rejects {s:?} ({e}), expected {w:?}", stringify!($t))),
                (Err(_), None) => {}
            }
            let p = parsel::parse_str::<$t>(s).is_ok();
            ck_eq!(p, want.is_some(), "{} through parse_str on {s:?}", stringify!($t));
        }};
    }
    one!(LitBool, if let Val::Bool(b) = v { Some(*b) } else { None }, |x| x.value());
    one!(LitByte, if let Val::Byte(b) = v { Some(*b) } else { None }, |x| x.value());
    one!(LitChar, if let Val::Char(b) = v { Some(*b) } else { None }, |x| x.value());
    one!(LitStr, if let Val::Str(b) = v { Some(b.clone()) } else { None }, |x| x.value());
    one!(LitByteStr, if let Val::BStr(b) = v { Some(b.clone()) } else { None }, |x| x.value());
    one!(LitFloat, if let Val::Float(b) = v { Some(*b) } else { None }, |x| x.value().into_inner().to_bits());
    let int: Option<i64> = match v {
        Val::Int(true, m) if *m <= 1 << 63 => Some((-(*m as i128)) as i64),
        Val::Int(false, m) => i64::try_from(*m).ok(),
        _ => None,
    };
    let uint: Option<u64> = match v {
        Val::Int(false, m) => u64::try_from(*m).ok(),
        _ => None,
    };
    one!(LitInt, int, |x| x.value());
    one!(LitUint, uint, |x| x.value());
    let lit = match v {
        Val::Bool(b) => Some(format!("Bool {b}")),
        Val::Byte(b) => Some(format!("Byte {b}")),
        Val::Int(true, _) => int.map(|i| format!("Int {i}")),
        Val::Int(false, _) => uint.map(|i| format!("Uint {i}")),
        Val::Float(b) => Some(format!("Float {b:x}")),
        Val::Char(c) => Some(format!("Char {c:?}")),
        Val::Str(s) => Some(format!("Str {s:?}")),
        Val::BStr(s) => Some(format!("ByteStr {s:?}")),
        Val::Other | Val::None => None,
    };
    one!(Lit, lit.clone(), |x| match &x {
        Lit::Bool(x) => format!("Bool {}", x.value()),
        Lit::Byte(x) => format!("Byte {}", x.value()),
        Lit::Int(x) => format!("Int {}", x.value()),
        Lit::Uint(x) => format!("Uint {}", x.value()),
        Lit::Float(x) => format!("Float {:x}", x.value().into_inner().to_bits()),
        Lit::Char(x) => format!("Char {:?}", x.value()),
        Lit::Str(x) => format!("Str {:?}", x.value()),
        Lit::ByteStr(x) => format!("ByteStr {:?}", x.value()),
    });
    Ok(())
}

fn minus(ch: &mut Ch, s: String) -> (bool, String) {
    if ch.chance(2, 5) {
        (true, format!("-{}{s}", ch.pick(&["", " ", "\n", "/* - */"])))
    } else {
        (false, s)
    }
}

fn around(ch: &mut Ch, s: String) -> String {
    if ch.chance(1, 6) {
        format!("{}{s}{}", ch.pick(&["", " ", "\n\t", "/* 1 */ ", "// x\n"]), ch.pick(&["", " ", "\r\n", " /* \"2\" */", " // 3"]))
    } else {
        s
    }
}

fn spelling(ch: &mut Ch, ob: &mut Ob) -> R {
    let (v, s) = match ch.below(9) {
        0 | 1 => {
            let m = lits::mag(ch);
            let s = lits::int(ch, m);
            let (n, s) = minus(ch, s);
            ob.class(match (n, m) {
                (true, m) if m == 1 << 63 || m == (1 << 63) + 1 => "at the lower boundary of i64",
                (false, m) if m == (1 << 63) - 1 || m == 1 << 63 => "at the upper boundary of i64",
                (false, m) if m == u64::MAX as u128 || m == 1 << 64 => "at the boundary of u64",
                _ => "integer",
            });
            (Val::Int(n, m), s)
        }
        2 => {
            let (s, x) = lits::float(ch);
            let (n, s) = minus(ch, s);
            ob.class_if(x.is_infinite(), "overflowing float");
            (Val::Float(if n { -x } else { x }.to_bits()), s)
        }
        3 => {
            let c = lits::chr(ch);
            (Val::Char(c), lits::char_spelling(ch, c))
        }
        4 => {
            let b = ch.below(256) as u8;
            (Val::Byte(b), lits::byte_spelling(ch, b))
        }
        5 => {
            let v = lits::string(ch, 30);
            let s = lits::str_spelling(ch, &v);
            ob.class_if(s.starts_with('r'), "raw string");
            ob.class_if(s.contains("\\\n"), "line continuation");
            (Val::Str(v), s)
        }
        6 => {
            let v = lits::bytes(ch, 30);
            let s = lits::bstr_spelling(ch, &v);
            ob.class_if(s.starts_with("br"), "raw byte string");
            (Val::BStr(v), s)
        }
        7 => {
            let b = ch.flag();
            (Val::Bool(b), b.to_string())
        }
        _ => match ch.below(4) {
            0 => {
                // a sign in front of anything else, or twice
                let s = match ch.below(6) {
                    0 => lits::str_spelling(ch, "a"),
                    1 => lits::char_spelling(ch, 'x'),
                    2 => lits::byte_spelling(ch, 7),
                    3 => "true".into(),
                    4 => format!("-{}", lits::int(ch, 5)),
                    _ => format!("-{}", lits::float(ch).0),
                };
                (Val::None, format!("-{s}"))
            }
            1 => {
                let s = if ch.flag() { let m = lits::mag(ch); lits::int(ch, m) } else { lits::float(ch).0 };
                (Val::None, format!("{}{s}", ch.pick(&["+", "!", "~", "- + ", "= ", "&"])))
            }
            2 => {
                // two literals
                let a = lits::int(ch, 3);
                (Val::None, format!("{a} {}", ch.pick(&["1", "\"s\"", "true", "-", "-1", "1.0", ";", ",", "()"])))
            }
            _ => (
                if ch.flag() { Val::Other } else { Val::None },
                String::new(),
            ),
        },
    };
    let (v, s) = match (v, s) {
        (Val::Other, _) => (Val::Other, ch.pick(&["c\"abc\"", "cr\"abc\"", "c\"\"", "cr#\"x\"#"]).to_string()),
        (Val::None, s) if s.is_empty() => (
            Val::None,
            ch.pick(&["", "True", "FALSE", "r#true", "tru", "'a", "'static", "_1", "x1", "(1)", "[true]", "{'c'}", "e5", "fn", "_", "b", "r", "inf", "nan", "NaN", "-inf", ".5", "-", "b 'x'"]).to_string(),
        ),
        x => x,
    };
    let s = around(ch, s);
    ob.case(true, s.clone());
    ob.class(match v {
        Val::Bool(_) => "kind: bool",
        Val::Byte(_) => "kind: byte",
        Val::Int(..) => "kind: int",
        Val::Float(_) => "kind: float",
        Val::Char(_) => "kind: char",
        Val::Str(_) => "kind: str",
        Val::BStr(_) => "kind: byte str",
        Val::Other => "kind: unrepresentable",
        Val::None => "kind: no literal",
    });
    check(&s, &v)
}

/// every radix, sign and boundary offset
fn boundary(i: u64, ob: &mut Ob) -> R {
    let (r, i) = (i % 4, i / 4);
    let (neg, i) = (i % 2 == 1, i / 2);
    let (d, i) = (i % 7, i / 7);
    let base = [0u128, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 62, 1 << 63, 1 << 64, 1 << 65, 1 << 126][i as usize];
    let m = (base + d as u128).saturating_sub(3);
    let s = match r {
        0 => format!("{m}"),
        1 => format!("0x{m:x}"),
        2 => format!("0o{m:o}"),
        _ => format!("0b{m:b}"),
    };
    let s = if neg { format!("-{s}") } else { s };
    ob.case(true, s.clone());
    check(&s, &Val::Int(neg, m))
}

/// literals too long for any machine type
fn huge(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = ch.range(38, 300);
    let mut s = String::from("1");
    for _ in 0..n {
        s.push((b'0' + ch.below(10) as u8) as char);
    }
    let float = ch.chance(1, 3);
    let neg = ch.flag();
    let mut want = Val::Other;
    if float {
        s.push_str(ch.pick(&[".0", ".5e10", "e0", "e-200", "."]));
        let x: f64 = s.parse().unwrap();
        want = Val::Float(if neg { -x } else { x }.to_bits());
    }
    if neg {
        s.insert(0, '-');
    }
    ob.case(true, s.clone());
    check(&s, &want)
}

/// long literals: strings, and numbers made long by zeros and underscores
fn long(ch: &mut Ch, ob: &mut Ob) -> R {
    let (v, s) = match ch.below(4) {
        0 => {
            let v = lits::long_string(ch, 14);
            let s = lits::str_spelling(ch, &v);
            (Val::Str(v), s)
        }
        1 => {
            let v = lits::long_bytes(ch, 14);
            let s = lits::bstr_spelling(ch, &v);
            (Val::BStr(v), s)
        }
        2 => {
            let m = lits::mag(ch);
            let n = lits::length(ch, 13);
            let fill = ch.pick(&["0", "_", "0_", "_0"]).repeat(n);
            let s = match ch.below(4) {
                0 => format!("0{fill}{m}"),
                1 => format!("0x{fill}{m:x}"),
                2 => format!("0o{fill}{m:o}"),
                _ => format!("0b{fill}{m:b}"),
            };
            let (neg, s) = minus(ch, s);
            (Val::Int(neg, m), s)
        }
        _ => {
            // zeros in front, behind the point, at the end, in the exponent
            let m = lits::mag(ch);
            let n = lits::length(ch, 10);
            let z = "0".repeat(n);
            let s = match ch.below(4) {
                0 => format!("{z}{m}.5"),
                1 => format!("0.{z}{m}"),
                2 => format!("{m}.25{z}"),
                _ => format!("{m}e-{z}3"),
            };
            let x: f64 = s.parse().unwrap();
            let (neg, s) = minus(ch, s);
            (Val::Float(if neg { -x } else { x }.to_bits()), s)
        }
    };
    ob.case(true, format!("{} bytes: {}", s.len(), s.chars().take(24).collect::<String>()));
    ob.class_if(s.len() > 1_000, "more than 1000 bytes");
    check(&s, &v)
}

fn main() {
    vh::run::main(Prop {
        id: "C11",
        rule: "every case; distinct = different spellings",
        subs: vec![
            exh("integer boundaries", 4 * 2 * 7 * 13, boundary),
            sub("spellings", 400_000, 20_000_000, (0, 60), spelling),
            sub("huge numbers", 10_000, 500_000, (10, 320), huge),
            sub("long spellings", 4_000, 200_000, (8, 40), long),
        ],
        probe: None,
        assumptions: vec!["the value of a spelling is known by construction of the spelling; decimal floats are read by Rust's own correctly rounded parser"],
    })
}
