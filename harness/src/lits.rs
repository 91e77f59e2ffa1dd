//! Literal values and spellings, generated together so that the value of a spelling is known by
//! construction.

use crate::ch::Ch;

fn underscores(ch: &mut Ch, s: &str, out: &mut String) {
    // never before the first digit
    for (i, c) in s.chars().enumerate() {
        if i > 0 && ch.chance(1, 6) {
            out.push('_');
        }
        out.push(c);
    }
    if ch.chance(1, 12) {
        out.push('_');
    }
}

/// A spelling of the given magnitude.
pub fn int(ch: &mut Ch, mag: u128) -> String {
    let mut o = String::new();
    let fancy = ch.chance(1, 2);
    if !fancy {
        return mag.to_string();
    }
    let radix = ch.weighted(&[4, 3, 2, 2]);
    let digits = match radix {
        0 => mag.to_string(),
        1 => {
            o.push_str("0x");
            if ch.flag() { format!("{mag:x}") } else { format!("{mag:X}") }
        }
        2 => {
            o.push_str("0o");
            format!("{mag:o}")
        }
        _ => {
            o.push_str("0b");
            format!("{mag:b}")
        }
    };
    if radix > 0 && ch.chance(1, 5) {
        o.push('_');
    }
    if ch.chance(1, 6) {
        o.push_str(ch.pick(&["0", "00", "0_0"]));
    }
    if ch.chance(2, 3) {
        o.push_str(&digits);
    } else {
        underscores(ch, &digits, &mut o);
    }
    if ch.chance(1, 4) {
        let s = *ch.pick(&["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "_u8", "px", "r"]);
        o.push_str(s);
    }
    o
}

/// Magnitudes concentrated at the boundaries of the integer types.
pub fn mag(ch: &mut Ch) -> u128 {
    match ch.weighted(&[6, 4, 4, 3, 2]) {
        0 => ch.below(12) as u128,
        1 => ch.u64() as u128 >> ch.below(64),
        2 => {
            let b = *ch.pick(&[
                1u128 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 1 << 64, 10_u128.pow(18), 10_u128.pow(19),
            ]);
            let d = ch.below(5) as u128;
            (b + d).saturating_sub(2)
        }
        3 => {
            let sh = 62 + ch.below(5);
            let d = ch.below(3) as u128;
            ((1u128 << sh) + d).saturating_sub(1)
        }
        _ => (ch.u64() as u128) << ch.below(20),
    }
}

/// A float spelling (non-negative) and its value.
pub fn float(ch: &mut Ch) -> (String, f64) {
    let mut o = String::new();
    let n = ch.range(1, 5);
    let digits = |ch: &mut Ch, n: u32, o: &mut String| {
        let mut s = String::new();
        for _ in 0..n {
            s.push((b'0' + ch.below(10) as u8) as char);
        }
        if ch.chance(1, 4) {
            underscores(ch, &s, o);
        } else {
            o.push_str(&s);
        }
    };
    digits(ch, n, &mut o);
    let form = ch.weighted(&[5, 1, 3, 3]);
    match form {
        0 => {
            o.push('.');
            let n = ch.range(1, 6);
            digits(ch, n, &mut o);
        }
        1 => o.push('.'),
        _ => {
            if form == 3 {
                o.push('.');
                let n = ch.range(1, 4);
                digits(ch, n, &mut o);
            }
            o.push(*ch.pick(&['e', 'E']));
            o.push_str(ch.pick(&["", "-", "+"]));
            let e = *ch.pick(&[0u32, 1, 5, 17, 300, 308, 309, 320, 325, 400]);
            o.push_str(&e.to_string());
        }
    }
    let clean: String = o.chars().filter(|c| *c != '_').collect();
    let v: f64 = clean.parse().expect("float spelling");
    if form != 1 && ch.chance(1, 4) {
        o.push_str(ch.pick(&["f32", "f64", "_f64"]));
    }
    (o, v)
}

/// Characters with trouble potential.
pub fn chr(ch: &mut Ch) -> char {
    match ch.weighted(&[8, 6, 4, 4]) {
        0 => (b'a' + ch.below(26) as u8) as char,
        1 => *ch.pick(&[
            ' ', '"', '\'', '\\', '\n', '\t', '\r', '\0', '/', '*', '#', '{', '}', '%', '\u{7f}', '\u{1b}', '\u{1}', '0', '_', '$',
        ]),
        2 => *ch.pick(&[
            'é', 'ű', '\u{80}', '\u{a0}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}',
            '\u{10000}', '😀', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{301}', '漢', '\u{202e}', '\u{ad}',
        ]),
        _ => {
            let x = ch.below(0x110000 - 0x800);
            char::from_u32(if x >= 0xd800 { x + 0x800 } else { x }).unwrap()
        }
    }
}

pub fn string(ch: &mut Ch, max: usize) -> String {
    let n = ch.size(max);
    (0..n).map(|_| chr(ch)).collect()
}

pub fn bytes(ch: &mut Ch, max: usize) -> Vec<u8> {
    let n = ch.size(max);
    (0..n)
        .map(|_| match ch.weighted(&[3, 3, 2]) {
            0 => b'a' + ch.below(26) as u8,
            1 => *ch.pick(&[b'"', b'\'', b'\\', b'\n', b'\r', b'\t', 0, 0x7f, 0x80, 0xff, b' ', b'#', 0x1b, b'0', b'9']),
            _ => ch.below(256) as u8,
        })
        .collect()
}

/// a length near a power of two, mostly small
pub fn length(ch: &mut Ch, top: u32) -> usize {
    let k = match ch.below(8) {
        0 => ch.range(top - 3, top),
        1..=5 => ch.range(3, 10),
        _ => ch.range(7, 12),
    };
    (1usize << k) + ch.idx(4) - 2
}

/// a pattern repeated to a length around a power of two, with one other item somewhere
fn stretch<T: Clone>(ch: &mut Ch, top: u32, item: impl Fn(&mut Ch) -> T) -> Vec<T> {
    let n = length(ch, top);
    let pat: Vec<T> = (0..1 + ch.below(4)).map(|_| item(ch)).collect();
    let mut v: Vec<T> = (0..n).map(|i| pat[i % pat.len()].clone()).collect();
    let x = item(ch);
    let i = match ch.below(3) {
        0 => n - 1,
        1 => 0,
        _ => ch.idx(n),
    };
    v[i] = x;
    v
}

pub fn long_string(ch: &mut Ch, top: u32) -> String {
    stretch(ch, top, chr).into_iter().collect()
}

pub fn long_bytes(ch: &mut Ch, top: u32) -> Vec<u8> {
    stretch(ch, top, |ch| bytes_item(ch))
}

fn bytes_item(ch: &mut Ch) -> u8 {
    match ch.below(3) {
        0 => b'a' + ch.below(26) as u8,
        1 => *ch.pick(&[b'"', b'\'', b'\\', b'\n', b'\r', 0, 0x7f, 0x80, 0xff, b'#']),
        _ => ch.below(256) as u8,
    }
}

fn esc_char(ch: &mut Ch, c: char, quote: char, o: &mut String) {
    let must = c == '\\' || c == quote || c == '\r' || (quote == '\'' && matches!(c, '\n' | '\t'));
    if !must && ch.chance(3, 4) {
        o.push(c);
        return;
    }
    let simple = match c {
        '\n' => Some("\\n"),
        '\r' => Some("\\r"),
        '\t' => Some("\\t"),
        '\\' => Some("\\\\"),
        '\0' => Some("\\0"),
        '\'' => Some("\\'"),
        '"' => Some("\\\""),
        _ => None,
    };
    match ch.below(3) {
        0 if simple.is_some() => o.push_str(simple.unwrap()),
        1 if (c as u32) < 0x80 => {
            let x = c as u32;
            o.push_str(&if ch.flag() { format!("\\x{x:02x}") } else { format!("\\x{x:02X}") });
        }
        _ => {
            let h = format!("{:x}", c as u32);
            let h = match ch.below(4) {
                0 => h,
                1 => h.to_uppercase(),
                2 => format!("{h:0>6}"),
                _ => {
                    let mut t = String::new();
                    for (i, d) in h.chars().enumerate() {
                        if i > 0 {
                            t.push('_');
                        }
                        t.push(d);
                    }
                    t
                }
            };
            o.push_str(&format!("\\u{{{h}}}"));
        }
    }
}

fn raw_ok(v: &str) -> bool {
    !v.contains('\r')
}

fn raw(ch: &mut Ch, pre: &str, v: &str) -> String {
    let mut n = 0;
    while v.contains(&format!("\"{}", "#".repeat(n))) {
        n += 1;
    }
    n += ch.below(2) as usize;
    let h = "#".repeat(n);
    format!("{pre}{h}\"{v}\"{h}")
}

pub fn str_spelling(ch: &mut Ch, v: &str) -> String {
    if raw_ok(v) && ch.chance(1, 4) {
        return raw(ch, "r", v);
    }
    let mut o = String::from("\"");
    let cs: Vec<char> = v.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        esc_char(ch, c, '"', &mut o);
        // a line continuation swallows following ASCII whitespace
        if ch.chance(1, 20) && !cs.get(i + 1).map_or(false, |n| n.is_whitespace()) {
            o.push_str(ch.pick(&["\\\n", "\\\n  \t ", "\\\n\n "]));
        }
    }
    o.push('"');
    o
}

pub fn char_spelling(ch: &mut Ch, c: char) -> String {
    let mut o = String::from("'");
    esc_char(ch, c, '\'', &mut o);
    o.push('\'');
    o
}

fn esc_byte(ch: &mut Ch, b: u8, quote: u8, o: &mut String) {
    let plain = b.is_ascii() && b != b'\\' && b != quote && b != b'\r' && !(quote == b'\'' && (b == b'\n' || b == b'\t'));
    if plain && ch.chance(3, 4) {
        o.push(b as char);
        return;
    }
    let simple = match b {
        b'\n' => Some("\\n"),
        b'\r' => Some("\\r"),
        b'\t' => Some("\\t"),
        b'\\' => Some("\\\\"),
        0 => Some("\\0"),
        b'\'' => Some("\\'"),
        b'"' => Some("\\\""),
        _ => None,
    };
    match simple {
        Some(s) if ch.flag() => o.push_str(s),
        _ => o.push_str(&if ch.flag() { format!("\\x{b:02x}") } else { format!("\\x{b:02X}") }),
    }
}

pub fn bstr_spelling(ch: &mut Ch, v: &[u8]) -> String {
    if v.is_ascii() && ch.chance(1, 4) {
        let s = std::str::from_utf8(v).unwrap();
        if raw_ok(s) {
            return raw(ch, "br", s);
        }
    }
    let mut o = String::from("b\"");
    for &b in v {
        esc_byte(ch, b, b'"', &mut o);
    }
    o.push('"');
    o
}

pub fn byte_spelling(ch: &mut Ch, b: u8) -> String {
    let mut o = String::from("b'");
    esc_byte(ch, b, b'\'', &mut o);
    o.push('\'');
    o
}

/// f64 values concentrated at the extremes
pub fn f64_val(ch: &mut Ch) -> f64 {
    let x = match ch.weighted(&[4, 4, 3, 3]) {
        0 => ch.below(1000) as f64 / 8.0,
        1 => *ch.pick(&[
            0.0,
            1.0,
            f64::MIN_POSITIVE,
            f64::MAX,
            f64::EPSILON,
            5e-324,
            1e-320,
            2.2250738585072011e-308,
            1e16,
            123456789012345680.0,
            9007199254740993.0,
            9007199254740992.0,
            0.1,
            0.30000000000000004,
            1e21,
            1e22,
            1e23,
            4.35,
            f64::INFINITY,
            1.7976931348623157e308,
            1e100,
        ]),
        2 => f64::from_bits(ch.u64()),
        _ => (ch.u64() >> 11) as f64 * 10f64.powi(ch.below(40) as i32 - 20),
    };
    let x = if x.is_nan() { 0.5 } else { x };
    if ch.chance(1, 3) { -x } else { x }
}

pub fn i64_val(ch: &mut Ch) -> i64 {
    let m = mag(ch);
    let m = if m > (1 << 63) { (m as u64 >> 1) as u128 } else { m };
    if ch.chance(2, 5) {
        (-(m as i128)) as i64
    } else {
        m.min(i64::MAX as u128) as i64
    }
}

pub fn u64_val(ch: &mut Ch) -> u64 {
    let m = mag(ch);
    if m > u64::MAX as u128 { m as u64 } else { m as u64 }
}
