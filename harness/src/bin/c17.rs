//! C17: from spans to offsets, substrings and line:column texts.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use parsel::util::{SpanDisplay, SpannedExt};
use proc_macro2::{TokenStream, TokenTree};
use std::str::FromStr;
use syn::Token;
use types::*;
use vh::engine::*;
use vh::gen::{render_at, Gen, Piece};
use vh::node::{expected_places, fuel, places, Gram, Places};
use vh::run::*;
use vh::{ck, genum, lits, Ch};

const BEFORE: &[&str] = &[
    "", "", " ", "\n", "\r\n", "\n\n\n", "\t", "\u{feff}", "\u{feff}\n", "// é 漢字 😀\n", "/* a\r\n é */", "/* 😀😀 */ ", "\r\n\r\n  ", "\u{2028}", "\u{85}\t", "/**//**/", "//\r\n//\r\n", "/* /* 漢 */\n */\n\n",
];
const AFTER: &[&str] = &["", "", "\n", "\r\n", " ", "// end", "// é", "/* 😀 */", "\n\n", "\t\r\n", "\n// x\n", "\u{2029}"];

/// sometimes other sources come first, so that positions are not those of the first file
fn other_sources(ch: &mut Ch) {
    let n = ch.below(3);
    for _ in 0..n {
        let _ = TokenStream::from_str(ch.pick(&["x", "", "é\n\n漢", "\"a\nb\" 1\r\n", "((("]));
    }
}

fn compare(what: &str, got: Places, src: &str, a: usize, b: usize) -> R {
    let want = expected_places(src, a, b);
    ck!(got == want, "{what} of {src:?} (bytes {a}..{b})\n  got      {got:?}\n  expected {want:?}");
    Ok(())
}

fn classes(src: &str, ob: &mut Ob) {
    ob.class_if(!src.is_ascii(), "not ASCII");
    ob.class_if(src.contains("\r\n"), "CRLF");
    ob.class_if(src.contains('\n'), "several lines");
    ob.class_if(src.chars().any(|c| c.len_utf16() == 2), "characters outside the basic plane");
}

/// a node of any type that takes up the whole text
fn whole(t: &Typ, ch: &mut Ch, ob: &mut Ob) -> R {
    other_sources(ch);
    let mut p: Vec<Piece> = vec![];
    let mut gen = Gen::new(&t.info, 40, 6);
    gen.gen(&t.g, ch, 0, &mut p);
    let pre = ch_pick(ch, BEFORE);
    let (mut src, at) = render_at(&p, ch, pre);
    src.push_str(ch.pick(AFTER));
    ob.key = describe(t, &src);
    if at.is_empty() {
        ob.discarded = true;
        return Ok(());
    }
    fuel(FUEL);
    let Ok(a) = (t.ops.from_str)(&src) else {
        ob.discarded = true;
        ob.class("discarded: rejected");
        return Ok(());
    };
    if a.toks().is_empty() {
        ob.discarded = true;
        return Ok(());
    }
    ob.nontrivial = true;
    classes(&src, ob);
    compare(t.ops.name, a.places(&src), &src, at[0].0, at[at.len() - 1].1)
}

fn ch_pick(ch: &mut Ch, xs: &[&str]) -> String {
    ch.pick(xs).to_string()
}

type Plus = Token![+];
type Comma = Token![,];
genum!(Item {
    Call(a: Ident, b: Paren<Punctuated<Lit, Comma>>),
    Sum(a: At, b: LeftAssoc<Plus, LitUint>),
    Rs(a: Q, b: RightAssoc<Arrow, Lit>),
    Path(a: Colon, b: Separated<Word, Dot>),
    Opt(a: Bracket<Maybe<Plus, Lit>>),
    Blk(a: Brace<Any<Word>>),
    L(a: Lit)
});

/// many nodes in one text, each with its own place, and the nodes within them
fn items(ch: &mut Ch, ob: &mut Ob) -> R {
    other_sources(ch);
    let g = Item::g();
    let info = vh::gram::Info::of(&g);
    let mut gen = Gen::new(&info, 1000, 4);
    let n = 1 + ch.size(25);
    let mut p: Vec<Piece> = vec![];
    let mut firsts = vec![];
    for _ in 0..n {
        firsts.push(leaves(&p));
        gen.budget = 20;
        gen.gen(&g, ch, 0, &mut p);
    }
    firsts.push(leaves(&p));
    let pre = ch_pick(ch, BEFORE);
    let (mut src, at) = render_at(&p, ch, pre);
    src.push_str(ch.pick(AFTER));
    ob.key = src.clone();
    let Ok(v) = src.parse::<Many<Item>>() else {
        ob.discarded = true;
        ob.class("discarded: rejected");
        return Ok(());
    };
    if v.len() != n {
        ob.discarded = true;
        return Ok(());
    }
    ob.nontrivial = true;
    classes(&src, ob);
    compare("the list", places(&*v, &src), &src, at[0].0, at[at.len() - 1].1)?;
    for (i, x) in v.iter().enumerate() {
        let (f, l) = (firsts[i], firsts[i + 1] - 1);
        let r = |a: usize, b: usize| (at[a].0, at[b].1);
        let (a, b) = r(f, l);
        compare("an item", places(x, &src), &src, a, b)?;
        macro_rules! one {
            ($x:expr, $a:expr, $b:expr) => {{
                let (a, b) = r($a, $b);
                compare(stringify!($x), places($x, &src), &src, a, b)?;
            }};
        }
        match x {
            Item::Call(i, p) => {
                one!(i, f, f);
                one!(p, f + 1, l);
                one!(&p.as_parts().0.span.open(), f + 1, f + 1);
                one!(&p.as_parts().0.span.close(), l, l);
                one!(&p.as_parts().0.span.join(), f + 1, l);
            }
            Item::Sum(i, p) => {
                one!(i, f, f);
                one!(p, f + 1, l);
            }
            Item::Rs(i, p) => {
                one!(i, f, f);
                one!(p, f + 1, l);
            }
            Item::Path(i, p) => {
                one!(i, f, f);
                one!(p, f + 1, l);
                one!(p.first(), f + 1, f + 1);
                one!(p.last(), l, l);
            }
            Item::Opt(p) => {
                one!(p, f, l);
                if p.is_some() {
                    one!(&**p, f + 1, l - 1);
                }
            }
            Item::Blk(p) => {
                one!(p, f, l);
                for (k, w) in p.iter().enumerate() {
                    one!(w, f + 1 + k, f + 1 + k);
                }
            }
            Item::L(p) => one!(p, f, l),
        }
    }
    Ok(())
}

fn leaves(p: &[Piece]) -> usize {
    p.iter()
        .map(|x| match x {
            Piece::T(..) => 1,
            Piece::Grp(_, i) => 2 + leaves(i),
        })
        .sum()
}

/// single tokens of every kind between arbitrary trivia, through every kind of thing with a span
fn tokens(ch: &mut Ch, ob: &mut Ob) -> R {
    other_sources(ch);
    let n = 1 + ch.size(20);
    let mut src = ch_pick(ch, BEFORE);
    let mut at = vec![];
    for _ in 0..n {
        let t = match ch.below(9) {
            0 => vh::gen::ident(ch),
            1 => lits::float(ch).0,
            2 => {
                let s = lits::string(ch, 8);
                lits::str_spelling(ch, &s)
            }
            3 => {
                let c = lits::chr(ch);
                lits::char_spelling(ch, c)
            }
            4 => {
                let b = lits::bytes(ch, 6);
                lits::bstr_spelling(ch, &b)
            }
            5 => ch.pick(&["\"\n\"", "\"é\r\n漢\"", "\"\n\n\n\"", "r\"\r\n😀\r\n\"", "r#\"\n\"\n\"#", "b\"\n\"", "\"\\\n   é\"", "\"\r\n\"", "r\"\n\"", "\"\t\""]).to_string(),
            6 => ch.pick(&["+", "-", ";", ",", "#", "?"]).to_string(),
            7 => {
                let m = lits::mag(ch);
                lits::int(ch, m)
            }
            _ => ch.pick(&["é", "漢字", "ß1", "_", "r#fn", "true"]).to_string(),
        };
        at.push((src.len(), src.len() + t.len()));
        src.push_str(&t);
        src.push_str(ch.pick(&[" ", "\n", "\r\n", "\t", " // é\n", "/* 漢\r\n */ ", "  ", "\n\r\n", " /**/ ", "\u{2028}"]));
    }
    if ch.flag() {
        // the last token at the very end
        src.truncate(at[n - 1].1);
    }
    ob.case(true, src.clone());
    classes(&src, ob);
    let Ok(ts) = TokenStream::from_str(&src) else {
        ob.discarded = true;
        return Ok(());
    };
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    if v.len() != n {
        ob.discarded = true;
        return Ok(());
    }
    for (t, (a, b)) in v.iter().zip(&at) {
        compare("a token", places(t, &src), &src, *a, *b)?;
        let s = t.span();
        compare("the span of a token", places(&s, &src), &src, *a, *b)?;
        let want = expected_places(&src, *a, *b).shown;
        ck!(SpanDisplay::new(s).to_string() == want && SpanDisplay::from(s).to_string() == want && t.format_span().to_string() == want, "display of the span {s:?}: expected {want}");
    }
    compare("the stream", places(&ts, &src), &src, at[0].0, at[n - 1].1)?;
    if let Ok(l) = parsel::parse_str::<Any<LitOrTok>>(&src) {
        if l.len() == n {
            for (t, (a, b)) in l.iter().zip(&at) {
                compare("a leaf", places(t, &src), &src, *a, *b)?;
            }
        }
    }
    // any stretch of tokens
    let (i, j) = (ch.idx(n), ch.idx(n));
    let (i, j) = (i.min(j), i.max(j));
    let part: TokenStream = v[i..=j].iter().cloned().collect();
    compare("a stretch of tokens", places(&part, &src), &src, at[i].0, at[j].1)?;
    Ok(())
}
/// few tokens in long texts: lines, columns, characters and bytes beyond 8 and 16 bits
fn large(ch: &mut Ch, ob: &mut Ob) -> R {
    other_sources(ch);
    let n = 1 + ch.idx(5);
    let mut src = String::new();
    let mut at = vec![];
    for i in 0..=n {
        for _ in 0..1 + ch.below(2) {
            let k = match ch.below(12) {
                0 => ch.range(15, 17),
                1..=6 => ch.range(5, 9),
                _ => ch.range(8, 13),
            };
            let k = (1usize << k) + ch.idx(5) - 2;
            match ch.below(9) {
                0 => src.push_str(&"\n".repeat(k)),
                1 => src.push_str(&" ".repeat(k)),
                2 => src.push_str(&"\r\n".repeat(k)),
                3 => src.push_str(&format!("// {}\n", ch.pick(&["x", "é", "漢", "😀", "\t"]).repeat(k))),
                4 => src.push_str(&format!("/*{}*/", ch.pick(&["x", "é", "漢", "😀", "é\n", "\r\n", "\n😀"]).repeat(k))),
                5 => src.push_str(&format!("/*{}*/", ch.pick(&["x", "é", "漢", "😀"]).repeat(k))),
                6 => src.push_str(&"// é\r\n".repeat(k / 4)),
                7 => src.push_str(&"\t\n".repeat(k)),
                _ => src.push_str(&"/* */".repeat(k / 8)),
            }
        }
        if i == n {
            break;
        }
        let t = match ch.below(5) {
            0 => "x".to_string(),
            1 => "漢字".to_string(),
            2 => format!("\"{}\"", ch.pick(&["a", "é", "😀", "a\n", "\r\n"]).repeat(1 << ch.range(4, 11))),
            3 => "w".repeat(1 << ch.range(4, 11)),
            _ => format!("{}", 1 + ch.below(9)),
        };
        at.push((src.len(), src.len() + t.len()));
        src.push_str(&t);
        src.push_str(ch.pick(&[" ", "\n"]));
    }
    if ch.flag() {
        src.truncate(at[n - 1].1);
    }
    let cut = at.iter().map(|(a, b)| &src[*a..*b]).map(|t| t.chars().take(4).collect::<String>()).collect::<Vec<_>>();
    ob.case(true, format!("{} bytes, {} lines, tokens {cut:?} at {at:?}", src.len(), src.matches('\n').count()));
    classes(&src, ob);
    ob.class_if(src.len() > 65_536, "more than 65536 bytes");
    let short = |e: String| if src.len() > 5_000 { e.replace(&format!("{src:?}"), "(long text)") } else { e };
    let Ok(l) = parsel::parse_str::<Any<LitOrTok>>(&src) else {
        ob.discarded = true;
        return Ok(());
    };
    if l.len() != n {
        ob.discarded = true;
        return Ok(());
    }
    compare("the list", places(&l, &src), &src, at[0].0, at[n - 1].1).map_err(short)?;
    for (t, (a, b)) in l.iter().zip(&at) {
        compare("a leaf", places(t, &src), &src, *a, *b).map_err(short)?;
    }
    Ok(())
}
genum!(LitOrTok { L(l: Lit), W(w: Word), P(p: Plus), S(s: Semi), C(c: Comma), Q(q: Q), M(m: Minus), H(h: Token![#]) });

fn main() {
    let mut all = derived_types();
    all.extend(helper_types());
    vh::run::main(Prop {
        id: "C17",
        rule: "the node has at least one token and the text parses; distinct = different texts",
        subs: vec![
            types_sub("whole texts", all, 150_000, 8_000_000, whole),
            sub("items", 40_000, 2_000_000, (0, 300), items),
            sub("tokens", 80_000, 4_000_000, (0, 300), tokens),
            sub("long texts", 1_200, 40_000, (8, 60), large),
        ],
        probe: None,
        assumptions: vec!["the positions of tokens are recorded while the text is put together"],
    })
}
