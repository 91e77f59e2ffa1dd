//! C15: formatting loses nothing.
#[allow(dead_code)]
#[path = "../common/trees.rs"]
mod trees;
use proc_macro2::TokenStream;
use trees::*;
use vh::gen::{render, Gen, Piece};
use vh::gram::{Info, G};
use vh::run::*;
use vh::tok::{lex, toks};
use vh::{ck, Ch};

const INDENTS: &[Option<&str>] = &[Some("    "), None, Some(""), Some(" "), Some("\t"), Some(" \t "), Some("\n"), Some("\r\n  "), Some("          ")];

fn roundtrip(v: &[T], ts: TokenStream, textual: bool, ch: &mut Ch, ob: &mut Ob) -> R {
    let n = count(v);
    ob.case(n > 0, show(v));
    ob.class_if(depth(v) >= 3, "nesting of 3 or more");
    ob.class_if(n >= 30, "30+ tokens");
    let want = canon(v);
    let mut modes = vec![Some("    "), None];
    modes.push(*ch.pick(INDENTS));
    for m in modes {
        let text = format(ts.clone(), m)?;
        let Some((ts2, t2)) = lex(&text) else { return Err(format!("indent {m:?}: the output does not lex: {text:?}")) };
        let got = canon(&model(&t2));
        ck!(got == want, "indent {m:?}: tokens differ\n  got      {}\n  expected {}\n  text {text:?}", got.join(" "), want.join(" "));
        let again = format(ts2, m)?;
        // gluing to something else than punctuation, and invisible groups, are gone once written out
        if textual {
            ck!(again == text, "indent {m:?}: formatting again gives another text\n  first  {text:?}\n  second {again:?}");
        } else {
            let Some((ts3, _)) = lex(&again) else { return Err(format!("indent {m:?}: the second output does not lex: {again:?}")) };
            let third = format(ts3, m)?;
            ck!(again == third, "indent {m:?}: formatting again gives another text\n  second {again:?}\n  third  {third:?}");
        }
    }
    Ok(())
}

fn built(ch: &mut Ch, ob: &mut Ob) -> R {
    let o = Opts { depth: 6, none: ch.chance(1, 3), neg: ch.chance(1, 3), any_joint: ch.chance(1, 3) };
    let v = gen(ch, o, 120);
    let ts = stream(&v);
    roundtrip(&v, ts, !(o.none || o.neg || o.any_joint), ch, ob)
}

fn from_text(ch: &mut Ch, ob: &mut Ob) -> R {
    let info = Info::of(&G::Empty);
    let mut gen = Gen::new(&info, 60, 5);
    let mut p: Vec<Piece> = vec![];
    let n = ch.size(60);
    for _ in 0..n {
        gen.any_piece(ch, &mut p);
    }
    let src = if ch.flag() { render(&p, ch) } else { show(&trees::gen(ch, Opts { depth: 4, none: false, neg: false, any_joint: false }, 40)).replace("~ ", "") };
    let Some((ts, t)) = lex(&src) else {
        ob.discarded = true;
        return Ok(());
    };
    roundtrip(&model(&t), ts, true, ch, ob)
}

/// arbitrary characters that happen to lex
fn soup(ch: &mut Ch, ob: &mut Ob) -> R {
    const BITS: &[&str] = &[
        "a", "'a", "'", "\"", "1", "1.", ".", "..", "-", "->", "=", "==", "/", "//", "/*", "*/", "\n", " ", "(", ")", "[", "]", "{", "}", "#", "r#", "r", "b", "\"x\"", "'x'", "b'", "e1", "_", "é", ",", ";", ":", "::", "<", "<<=", "&&", "!",
        "///", "//!", "/** d */", "$", "?", "~", "\\", "@", "0x", "c\"", "\r\n", "\t", "\u{200e}", "r\"", "r#\"", "\"#", "1e", "1u8", "'\\n'", "漢",
    ];
    let n = ch.range(1, 24);
    let src: String = (0..n).map(|_| *ch.pick(BITS)).collect();
    let Some((ts, t)) = lex(&src) else {
        ob.discarded = true;
        return Ok(());
    };
    ob.class("lexes");
    roundtrip(&model(&t), ts, true, ch, ob)
}

fn large(ch: &mut Ch, ob: &mut Ob) -> R {
    let v = gen_large(ch);
    let ts = stream(&v);
    let back = model(&toks(ts.clone()));
    ck!(back == v, "stream and model differ");
    roundtrip(&v, ts, true, ch, ob)
}

fn main() {
    vh::run::main(Prop {
        id: "C15",
        rule: "at least one token; distinct = different token trees",
        subs: vec![
            sub("built streams", 150_000, 8_000_000, (0, 260), built),
            sub("streams from text", 60_000, 4_000_000, (0, 260), from_text),
            sub("soup", 200_000, 10_000_000, (0, 26), soup),
            sub("large", 3_000, 200_000, (0, 300), large),
        ],
        probe: None,
        assumptions: vec![
            "gluing of punctuation across the boundary of an invisible group is not compared",
            "streams that would read differently once written (`/` glued to `/` or `*`, a quote not glued to a word) are not generated",
        ],
    })
}
