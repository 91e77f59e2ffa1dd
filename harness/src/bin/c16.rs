//! C16: the layout of formatted output, and failures of the sink.
#[allow(dead_code)]
#[path = "../common/trees.rs"]
mod trees;
use parsel::util::*;
use parsel::ToTokens;
use proc_macro2::TokenStream;
use std::fmt::{self, Write};
use trees::*;
use vh::run::*;
use vh::tok::{close, lex};
use vh::{ck, ck_eq, Ch};

/// the documented layout, from the model
fn layout(v: &[T], ind: Option<&str>) -> String {
    let mut o = String::new();
    lay(v, ind, 0, &mut o);
    o
}

fn br(ind: Option<&str>, level: usize, o: &mut String) {
    match ind {
        Some(s) => {
            o.push('\n');
            for _ in 0..level {
                o.push_str(s);
            }
        }
        None => o.push(' '),
    }
}

fn lay(v: &[T], ind: Option<&str>, level: usize, o: &mut String) {
    for (i, t) in v.iter().enumerate() {
        if i > 0 {
            match &v[i - 1] {
                T::P(_, true) => {}
                T::P(',' | ';', _) | T::G(..) => br(ind, level, o),
                _ => o.push(' '),
            }
        }
        match t {
            T::I(s) | T::L(s) => o.push_str(s),
            T::P(c, _) => o.push(*c),
            T::G(d, inner) => {
                o.push(*d);
                if !inner.is_empty() {
                    if ind.is_some() {
                        br(ind, level + 1, o);
                    }
                    lay(inner, ind, level + 1, o);
                    if ind.is_some() {
                        br(ind, level, o);
                    }
                }
                o.push(close(*d));
            }
        }
    }
}

/// a sink that fails at one call (and, if so told, works again afterwards)
struct Sink {
    text: String,
    calls: usize,
    fail_at: usize,
    forever: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = self.calls;
        self.calls += 1;
        if k == self.fail_at || (self.forever && k > self.fail_at) {
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// a sink that fails when its room is used up
struct Room {
    text: String,
    room: usize,
}
impl Write for Room {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            if self.room < c.len_utf8() {
                self.room = 0;
                return Err(fmt::Error);
            }
            self.room -= c.len_utf8();
            self.text.push(c);
        }
        Ok(())
    }
}

struct Node(TokenStream);
impl ToTokens for Node {
    fn to_tokens(&self, ts: &mut TokenStream) {
        ts.extend(self.0.clone())
    }
}
struct ByTokens<'a>(&'a TokenStream);
impl fmt::Display for ByTokens<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        format_tokens(self.0.clone(), f)
    }
}
struct ByNode<'a>(&'a Node);
impl fmt::Display for ByNode<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        format_ast_node(self.0, f)
    }
}

/// every way to have a stream formatted: 0-4 four spaces, 5-9 compact, 10-11 custom
fn write_by(how: u32, ts: &TokenStream, ind: &str, w: &mut dyn Write) -> fmt::Result {
    let node = Node(ts.clone());
    match how {
        0 => format_tokens_pretty(ts.clone(), w),
        1 => format_ast_node_pretty(&node, w),
        2 => TokenStreamFormatter::pretty(w).write(ts.clone()),
        3 => write!(w, "{}", ByTokens(ts)),
        4 => write!(w, "{}", ByNode(&node)),
        5 => format_tokens_compact(ts.clone(), w),
        6 => format_ast_node_compact(&node, w),
        7 => TokenStreamFormatter::compact(w).write(ts.clone()),
        8 => write!(w, "{:#}", ByTokens(ts)),
        9 => write!(w, "{:#}", ByNode(&node)),
        10 => TokenStreamFormatter::with_indent(ind, w).map_err(|_| fmt::Error)?.write(ts.clone()),
        _ => TokenStreamFormatter::with_indent(ind.to_string(), w).map_err(|_| fmt::Error)?.write_ast_node(&node),
    }
}

const INDENTS: &[&str] = &["    ", "", " ", "\t", "  ", " \t ", "\u{a0}", "\u{3000}", "\n", "\r\n  ", "            ", "\u{2028}", "\u{b}\u{c}", "\u{85}"];

fn wanted(how: u32, v: &[T], ind: &str) -> String {
    match how {
        0..=4 => layout(v, Some("    ")),
        5..=9 => layout(v, None),
        _ => layout(v, Some(ind)),
    }
}

fn tree(ch: &mut Ch) -> Vec<T> {
    let o = Opts { depth: 6, none: false, neg: false, any_joint: ch.chance(1, 3) };
    let size = *ch.pick(&[6, 15, 40, 100]);
    gen(ch, o, size)
}

fn layouts(ch: &mut Ch, ob: &mut Ob) -> R {
    let v = tree(ch);
    layouts_of(v, ch, ob)
}

/// deep nesting and many tokens
fn large(ch: &mut Ch, ob: &mut Ob) -> R {
    let v = gen_large(ch);
    layouts_of(v, ch, ob)
}

fn layouts_of(v: Vec<T>, ch: &mut Ch, ob: &mut Ob) -> R {
    let ts = stream(&v);
    let ind = *ch.pick(INDENTS);
    ob.case(count(&v) > 0, format!("{} {ind:?}", show(&v)));
    ob.class_if(depth(&v) >= 3, "nesting of 3 or more");
    ob.class_if(depth(&v) >= 20, "nesting of 20 or more");
    ob.class_if(count(&v) >= 30, "30+ tokens");
    for how in 0..12 {
        let mut s = String::new();
        ck!(write_by(how, &ts, ind, &mut s).is_ok(), "entry point {how} fails on a string");
        let want = wanted(how, &v, ind);
        ck!(s == want, "entry point {how}, indent {ind:?}: layout differs\n  got      {s:?}\n  expected {want:?}");
    }
    // the formatter can be used again: each stream starts over at the outer level
    let w = tree(ch);
    let m = match ch.below(3) {
        0 => Some("    "),
        1 => None,
        _ => Some(ind),
    };
    let mut s = String::new();
    macro_rules! twice {
        ($f:expr) => {{
            let mut f = $f;
            (f.write(ts.clone()).is_ok(), f.write_ast_node(&Node(stream(&w))).is_ok(), f.write(TokenStream::new()).is_ok(), f.write(ts.clone()).is_ok())
        }};
    }
    let r = match m {
        Some("    ") => twice!(TokenStreamFormatter::pretty(&mut s)),
        None => twice!(TokenStreamFormatter::compact(&mut s)),
        Some(i) => twice!(TokenStreamFormatter::with_indent(i, &mut s).map_err(|e| e.to_string())?),
    };
    ck_eq!(r, (true, true, true, true), "writing several streams with one formatter");
    let want = [layout(&v, m), layout(&w, m), layout(&v, m)].concat();
    ck!(s == want, "indent {m:?}: several streams written with one formatter\n  got      {s:?}\n  expected {want:?}");
    Ok(())
}

/// very deep nesting, with levels around the sizes at which narrow counters overflow
fn deep(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = match ch.below(40) {
        0 => ch.range(65_530, 65_545),
        1..=8 => ch.range(1_000, 2_000),
        9..=20 => ch.range(250, 260),
        _ => ch.range(100, 600),
    } as usize;
    let ds: Vec<char> = (0..1 + ch.below(4)).map(|_| *ch.pick(&['(', '[', '{'])).collect();
    let few = *ch.pick(&[2, 20, n as u32]);
    let word = |ch: &mut Ch| ch.pick(&[T::I("x".into()), T::P(',', false), T::P(';', false), T::P('+', true), T::L("5".into())]).clone();
    let mut v = if ch.flag() { vec![word(ch)] } else { vec![] };
    for i in 0..n {
        v = vec![T::G(ds[i % ds.len()], v)];
        if ch.chance(1, few) {
            v.insert(0, T::I("a".into()));
        }
        if ch.chance(1, few) {
            v.push(word(ch));
        }
        if matches!(v.last(), Some(T::P(_, true))) {
            v.push(T::P('-', false));
        }
    }
    let ind = *ch.pick(&["\t", "", " "]);
    ob.case(true, format!("{n} {ds:?} {few} {ind:?} {}", count(&v)));
    ob.class_if(n > 255, "nesting of 256 or more");
    ob.class_if(n > 65_535, "nesting of 65536 or more");
    let wide = n <= 3_000;
    on_stack(1 << 30, move || {
        let ts = stream(&v);
        for m in [None, Some(ind), Some("    ")] {
            if m.is_some() && !wide {
                continue;
            }
            let (got, want) = (format(ts.clone(), m)?, layout(&v, m));
            ck!(got == want, "nesting of {n}, indent {m:?}: layout differs from line {}", got.lines().zip(want.lines()).position(|(a, b)| a != b).unwrap_or(0));
        }
        Ok(())
    })
}

/// display with width, precision, fill and sign flags does not disturb the layout
fn flags(ch: &mut Ch, ob: &mut Ob) -> R {
    let v = tree(ch);
    let ts = stream(&v);
    ob.case(count(&v) > 0, show(&v));
    let (p, c) = (layout(&v, Some("    ")), layout(&v, None));
    let (t, n) = (ByTokens(&ts), Node(ts.clone()));
    let n = ByNode(&n);
    for (got, want) in [(t.to_string(), &p), (n.to_string(), &p), (format!("{t:#}"), &c), (format!("{n:#}"), &c), (format!("[{t}]")[1..][..p.len()].to_string(), &p)] {
        ck!(got == *want, "display differs\n  got      {got:?}\n  expected {want:?}");
    }
    Ok(())
}

fn faults(ch: &mut Ch, ob: &mut Ob) -> R {
    let o = Opts { depth: 4, none: ch.chance(1, 5), neg: false, any_joint: ch.chance(1, 3) };
    let size = *ch.pick(&[4, 10, 25]);
    let v = gen(ch, o, size);
    let ts = stream(&v);
    let ind = *ch.pick(INDENTS);
    let how = ch.below(12);
    ob.case(count(&v) > 0, format!("{how} {ind:?} {}", show(&v)));
    let mut full = Sink { text: String::new(), calls: 0, fail_at: usize::MAX, forever: false };
    ck!(write_by(how, &ts, ind, &mut full).is_ok(), "entry point {how} fails");
    let n = full.calls;
    let at: Vec<usize> = if n <= 60 { (0..n).collect() } else { (0..60).map(|_| ch.idx(n)).collect() };
    for k in at {
        for forever in [true, false] {
            ob.add("failures injected", 1);
            let mut s = Sink { text: String::new(), calls: 0, fail_at: k, forever };
            let r = write_by(how, &ts, ind, &mut s);
            ck!(r.is_err(), "entry point {how}, indent {ind:?}: the failure of write {k} of {n} is not returned");
            ck!(full.text.starts_with(&s.text), "entry point {how}, indent {ind:?}: after the failure of write {k} of {n}, {:?} is written, not a prefix of {:?}", s.text, full.text);
        }
    }
    for _ in 0..6 {
        let room = ch.idx(full.text.len() + 2);
        let mut s = Room { text: String::new(), room };
        let r = write_by(how, &ts, ind, &mut s);
        ck_eq!(r.is_ok(), room >= full.text.len(), "entry point {how}, indent {ind:?}: success with room for {room} of {} bytes", full.text.len());
        ck!(full.text.starts_with(&s.text), "entry point {how}: with room for {room} bytes, {:?} is written, not a prefix of {:?}", s.text, full.text);
        ob.add("failures injected", 1);
    }
    Ok(())
}

fn white(c: char) -> bool {
    matches!(c as u32, 9..=13 | 32 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}

fn indent_ok(s: &str) -> R {
    let want = s.chars().all(white);
    let mut o = String::new();
    let r = TokenStreamFormatter::with_indent(s, &mut o).map(|_| ());
    ck_eq!(r.is_ok(), want, "indentation {s:?} accepted");
    if let Err(e) = r {
        ck!(!e.to_string().is_empty(), "no message for indentation {s:?}");
    }
    ck!(o.is_empty(), "the constructor writes {o:?}");
    Ok(())
}

fn indents(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = ch.below(7);
    let bad = ch.flag();
    let s: String = (0..n)
        .map(|_| if bad && ch.chance(1, 4) { *ch.pick(&['x', '\0', '\u{200b}', '\u{feff}', '.', '\u{180e}', '\u{200e}', '\u{1f}', '\u{7f}', '\u{2060}', '-', '/']) } else { *ch.pick(&[' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2003}', '\u{2028}', '\u{3000}']) })
        .collect();
    ob.case(n > 0, format!("{s:?}"));
    indent_ok(&s)
}

fn each_char(i: u64, ob: &mut Ob) -> R {
    let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
    ob.case(true, format!("{c:?}"));
    indent_ok(&c.to_string())?;
    if white(c) || i < 0x3100 {
        indent_ok(&format!(" {c}"))?;
        indent_ok(&format!("{c}\t"))?;
        indent_ok(&format!("\n{c} "))?;
    }
    Ok(())
}

/// streams from texts, laid out from the model of what the lexer says
fn from_text(ch: &mut Ch, ob: &mut Ob) -> R {
    let v = gen(ch, Opts { depth: 4, none: false, neg: false, any_joint: false }, 40);
    let src = show(&v).replace("~ ", "");
    let Some((ts, t)) = lex(&src) else {
        ob.discarded = true;
        return Ok(());
    };
    let v = model(&t);
    ob.case(count(&v) > 0, src);
    for m in [Some("    "), None, Some(*ch.pick(INDENTS))] {
        let (got, want) = (format(ts.clone(), m)?, layout(&v, m));
        ck!(got == want, "indent {m:?}: layout differs\n  got      {got:?}\n  expected {want:?}");
    }
    Ok(())
}

fn main() {
    vh::run::main(Prop {
        id: "C16",
        rule: "layouts and faults: at least one token; indentations: at least one character; distinct = different token trees, modes and texts",
        subs: vec![
            sub("layouts", 60_000, 4_000_000, (0, 220), layouts),
            sub("large layouts", 2_000, 120_000, (0, 300), large),
            sub("deep layouts", 400, 20_000, (0, 60), deep),
            sub("layouts of texts", 40_000, 2_000_000, (0, 120), from_text),
            sub("display", 20_000, 1_000_000, (0, 200), flags),
            sub("sink failures", 20_000, 1_000_000, (0, 90), faults),
            sub("indentations", 20_000, 1_000_000, (0, 10), indents),
            exh("every character as indentation", 0x110000, each_char),
        ],
        probe: None,
        assumptions: vec!["streams with invisible groups have no layout of their own and are only used with failing sinks"],
    })
}
