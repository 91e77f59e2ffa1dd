//! C14: identifiers and keywords.
#[path = "../common/bigkw.rs"]
mod bigkw;
use bigkw::BIG;
use parsel::ast::*;
use vh::gram::RUST_KW;
use vh::kws::{case, keyword, set, surrounded};
use vh::run::*;
use vh::Ch;

// a set of ordinary words, a set of words that Rust reserves, a set with raw identifiers, sets with
// one word, none, and only the underscore
parsel::define_keywords! {
    mod plain { select => Select; from => From; a => A; ab => Ab; abc => Abc; b => B; été => Ete; 漢字 => Kanji; A => UpA; x1 => X1; _x => UnderX; }
}
parsel::define_keywords! {
    mod rust { fn => Fn; self => Slf; Self => BigSelf; crate => Crate; super => Super; true => True; false => False; if => If; async => Async; r#dyn => RawDyn; union => Union; _ => Under; }
}
parsel::define_keywords! {
    pub(crate) mod raw { r#fn => RawFn; r#match => RawMatch; match => Match; r#a => RawA; aa => Aa; r#union => RawUnion; }
}
parsel::define_keywords! { mod one { only => Only; } }
parsel::define_keywords! { mod none { } }
parsel::define_keywords! { mod under { _ => Under; } }

const PLAIN: &[&str] = &["select", "from", "a", "ab", "abc", "b", "été", "漢字", "A", "x1", "_x"];
const RUST: &[&str] = &["fn", "self", "Self", "crate", "super", "true", "false", "if", "async", "r#dyn", "union", "_"];
const RAW: &[&str] = &["r#fn", "r#match", "match", "r#a", "aa", "r#union"];

vh::kwd!(one::Only, "only");
vh::kwd!(under::Under, "_");
vh::kwd!(plain::Select, "select");
vh::kwd!(plain::From, "from");
vh::kwd!(plain::A, "a");
vh::kwd!(plain::Ab, "ab");
vh::kwd!(plain::Abc, "abc");
vh::kwd!(plain::B, "b");
vh::kwd!(plain::Ete, "été");
vh::kwd!(plain::Kanji, "漢字");
vh::kwd!(plain::UpA, "A");
vh::kwd!(plain::X1, "x1");
vh::kwd!(plain::UnderX, "_x");
vh::kwd!(rust::Fn, "fn");
vh::kwd!(rust::Slf, "self");
vh::kwd!(rust::BigSelf, "Self");
vh::kwd!(rust::Crate, "crate");
vh::kwd!(rust::Super, "super");
vh::kwd!(rust::True, "true");
vh::kwd!(rust::False, "false");
vh::kwd!(rust::If, "if");
vh::kwd!(rust::Async, "async");
vh::kwd!(rust::RawDyn, "r#dyn");
vh::kwd!(rust::Union, "union");
vh::kwd!(rust::Under, "_");
vh::kwd!(raw::RawFn, "r#fn");
vh::kwd!(raw::RawMatch, "r#match");
vh::kwd!(raw::Match, "match");
vh::kwd!(raw::RawA, "r#a");
vh::kwd!(raw::Aa, "aa");
vh::kwd!(raw::RawUnion, "r#union");

fn check(src: &str, ob: &mut Ob) -> R {
    let Some(c) = &case(src, ob, &[PLAIN, RUST, RAW].concat()) else { return Ok(()) };
    set::<AllowAll>("Word", &[], c)?;
    set::<none::Keywords>("none", &[], c)?;
    set::<one::Keywords>("one", &["only"], c)?;
    set::<under::Keywords>("under", &["_"], c)?;
    set::<plain::Keywords>("plain", PLAIN, c)?;
    set::<rust::Keywords>("rust", RUST, c)?;
    set::<raw::Keywords>("raw", RAW, c)?;
    keyword::<one::Only>("one::Only", c)?;
    keyword::<under::Under>("under::Under", c)?;
    keyword::<plain::Select>("plain::Select", c)?;
    keyword::<plain::From>("plain::From", c)?;
    keyword::<plain::A>("plain::A", c)?;
    keyword::<plain::Ab>("plain::Ab", c)?;
    keyword::<plain::Abc>("plain::Abc", c)?;
    keyword::<plain::B>("plain::B", c)?;
    keyword::<plain::Ete>("plain::Ete", c)?;
    keyword::<plain::Kanji>("plain::Kanji", c)?;
    keyword::<plain::UpA>("plain::UpA", c)?;
    keyword::<plain::X1>("plain::X1", c)?;
    keyword::<plain::UnderX>("plain::UnderX", c)?;
    keyword::<rust::Fn>("rust::Fn", c)?;
    keyword::<rust::Slf>("rust::Slf", c)?;
    keyword::<rust::BigSelf>("rust::BigSelf", c)?;
    keyword::<rust::Crate>("rust::Crate", c)?;
    keyword::<rust::Super>("rust::Super", c)?;
    keyword::<rust::True>("rust::True", c)?;
    keyword::<rust::False>("rust::False", c)?;
    keyword::<rust::If>("rust::If", c)?;
    keyword::<rust::Async>("rust::Async", c)?;
    keyword::<rust::RawDyn>("rust::RawDyn", c)?;
    keyword::<rust::Union>("rust::Union", c)?;
    keyword::<rust::Under>("rust::Under", c)?;
    keyword::<raw::RawFn>("raw::RawFn", c)?;
    keyword::<raw::RawMatch>("raw::RawMatch", c)?;
    keyword::<raw::Match>("raw::Match", c)?;
    keyword::<raw::RawA>("raw::RawA", c)?;
    keyword::<raw::Aa>("raw::Aa", c)?;
    keyword::<raw::RawUnion>("raw::RawUnion", c)?;
    Ok(())
}

/// the words of a large set, and their neighbours
fn large(i: u64, ob: &mut Ob) -> R {
    let w = BIG[i as usize % BIG.len()];
    let n = w.chars().count();
    let s = match i as usize / BIG.len() {
        0 => w.to_string(),
        1 => format!("r#{w}"),
        2 => format!("{w}w"),
        3 => w[..n - 1].to_string(),
        4 => w.to_uppercase(),
        5 => w.to_lowercase(),
        _ => format!("{}x", &w[..n - 1]),
    };
    let Some(c) = &case(&s, ob, BIG) else { return Ok(()) };
    bigkw::check(c)
}

const A: &[char] = &['a', 'b', 'c', 'f', 'n', 's', 'x', 'A', 'S', '_', '1', 'é', '漢', 'i'];

/// every word of up to three characters over a small alphabet, plain and raw
fn short(i: u64, ob: &mut Ob) -> R {
    let raw = i % 2 == 1;
    let mut i = i / 2;
    let mut s = String::new();
    loop {
        s.insert(0, A[(i % A.len() as u64) as usize]);
        i /= A.len() as u64;
        if i == 0 {
            break;
        }
        i -= 1;
    }
    check(&if raw { format!("r#{s}") } else { s }, ob)
}

/// every word reserved by Rust or declared, each in several variations
fn reserved(i: u64, ob: &mut Ob) -> R {
    let all: Vec<&str> = [RUST_KW, PLAIN, RUST, RAW, &["only", "union", "default", "auto", "raw", "safe", "gen", "macro_rules", "static_"]].concat();
    let w = all[i as usize % all.len()];
    let n = w.chars().count();
    let cut: String = w.chars().take(n - 1).collect();
    let v = [w.to_string(), format!("r#{w}"), format!("{w}_"), format!("_{w}"), w.to_uppercase(), w.to_lowercase(), cut, w.trim_start_matches("r#").to_string(), format!("{w}{w}"), format!("{w}1")];
    check(&v[i as usize / all.len() % v.len()], ob)
}

/// words in their surroundings, and things that are not a single word
fn around(ch: &mut Ch, ob: &mut Ob) -> R {
    let all: Vec<&str> = [RUST_KW, PLAIN, RUST, RAW].concat();
    check(&surrounded(ch, &all), ob)
}

fn main() {
    let n = A.len() as u64;
    vh::run::main(Prop {
        id: "C14",
        rule: "the text is a single word; each is checked against seven keyword sets (or one of 299 words) and all of their keyword types; distinct = different texts",
        subs: vec![
            exh("short words", 2 * (n + n * n + n * n * n), short),
            exh("reserved words", 10 * (RUST_KW.len() + PLAIN.len() + RUST.len() + RAW.len() + 9) as u64, reserved),
            exh("large set", 7 * BIG.len() as u64, large),
            sub("surroundings", 40_000, 3_000_000, (0, 14), around),
        ],
        probe: None,
        assumptions: vec!["which characters form a word is decided by proc_macro2's lexer"],
    })
}
