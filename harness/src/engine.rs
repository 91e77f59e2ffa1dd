//! Checks of one node type (given as `Ops`) against the reference interpreter.

use crate::ch::Ch;
use crate::gen::{render, Gen, Piece};
use crate::gram::{Cand, Info, Ref, Top, G, V};
use crate::node::{fuel, Ast, Ops};
use crate::run::{Ob, R};
use crate::tok::{canon_of, count, drop_zero_sign, lex, toks, Sp, Tok, K};
use crate::{ck, ck_eq};
use proc_macro2::TokenStream;

pub struct Typ {
    pub ops: Ops,
    pub g: G,
    pub info: Info,
    /// text of the definition, for reports
    pub def: &'static str,
}

impl Typ {
    pub fn new(ops: Ops) -> Typ {
        let g = (ops.g)();
        let info = Info::of(&g);
        Typ { ops, g, info, def: "" }
    }
    pub fn all(ops: Vec<Ops>) -> Vec<Typ> {
        ops.into_iter().map(Typ::new).collect()
    }
}

pub const REF_LIMIT: u64 = 60_000;
/// parse attempts granted to the code under test: far above anything the reference needs
pub const FUEL: u64 = 40 * REF_LIMIT;

pub struct Input {
    pub src: String,
    pub ts: TokenStream,
    pub t: Vec<Tok>,
    pub mutated: bool,
}

#[derive(Clone, Copy)]
pub struct Mode {
    /// probability (out of 8) of mutating the sentence
    pub mutate: u32,
    /// append a sentinel after the sentence (out of 8)
    pub sentinel: u32,
    pub budget: i64,
    pub depth: u32,
}

pub fn input(t: &Typ, ch: &mut Ch, m: Mode) -> Option<Input> {
    let mut p: Vec<Piece> = vec![];
    let mut gen = Gen::new(&t.info, m.budget, m.depth);
    gen.gen(&t.g, ch, 0, &mut p);
    let mutated = ch.chance(m.mutate, 8);
    if mutated {
        let n = 1 + ch.weighted(&[5, 2, 1]);
        for _ in 0..n {
            gen.mutate(ch, &mut p);
        }
    }
    if ch.chance(m.sentinel, 8) {
        gen.any_piece(ch, &mut p);
    }
    let src = render(&p, ch);
    let (ts, toks) = lex(&src)?;
    Some(Input { src, ts, t: toks, mutated })
}

pub fn describe(t: &Typ, src: &str) -> String {
    if t.def.is_empty() {
        format!("{} <- {:?}", t.ops.name, src)
    } else {
        format!("{} <- {:?}\n{}", t.ops.name, src, t.def)
    }
}

fn setup<'a>(t: &'a Typ, ch: &mut Ch, ob: &mut Ob, m: Mode) -> Option<Input> {
    let Some(i) = input(t, ch, m) else {
        ob.discarded = true;
        ob.class("discarded: no token stream");
        return None;
    };
    ob.key = describe(t, &i.src);
    fuel(FUEL);
    Some(i)
}

fn observe(ob: &mut Ob, i: &Input, rf: &Ref, ok: bool) {
    ob.class(if ok { "accepted" } else { "rejected" });
    ob.class_if(rf.alt_fail_deep > 0, "an attempt failed after reading tokens");
    ob.class_if(rf.committed_fail, "a committed part failed");
    ob.class_if(rf.eof_rank, "alternatives ranked at end of input");
    ob.class_if(rf.alts >= 2, "two or more alternatives tried");
    let n = count(&i.t);
    ob.class_if(n >= 16, "16+ tokens");
    ob.class_if(n >= 100, "100+ tokens");
    ob.nontrivial = n > 0;
}

macro_rules! reference {
    ($rf:ident, $t:expr, $i:expr, $ob:expr) => {
        match $rf.top(&$t.g, &$i.t) {
            Some(t) => t,
            None => {
                if std::env::var_os("VH_GAVE_UP").is_some() { eprintln!("gave up: {} {}", $t.ops.name, $ob.key); }
                $ob.discarded = true;
                $ob.class("discarded: reference gave up");
                return Ok(());
            }
        }
    };
}

/// C01: acceptance and value agree with the reference.
pub fn accept(t: &Typ, ch: &mut Ch, ob: &mut Ob) -> R {
    let Some(i) = setup(t, ch, ob, Mode { mutate: 4, sentinel: 1, budget: 60, depth: 7 }) else { return Ok(()) };
    accept_on(t, &i, ob)
}

pub fn accept_on(t: &Typ, i: &Input, ob: &mut Ob) -> R {
    let mut rf = Ref::new(REF_LIMIT);
    let want = reference!(rf, t, i, ob);
    let got = (t.ops.from_str)(&i.src);
    observe(ob, i, &rf, matches!(want, Top::Ok(_)));
    match (&want, &got) {
        (Top::Ok(w), Ok(g)) => {
            let g = g.v();
            ck!(g.same(w, false), "{}: parsed value differs\n  got      {}\n  expected {}", t.ops.name, g.show(), w.show());
        }
        (Top::Ok(w), Err(e)) => return Err(format!("{}: rejected ({e}) but the grammar accepts it as {}", t.ops.name, w.show())),
        (_, Ok(g)) => return Err(format!("{}: accepted as {} but the grammar rejects it", t.ops.name, g.v().show())),
        (_, Err(_)) => {}
    }
    Ok(())
}

/// C02: tokens in, tokens out; text out parses to an equal value.
pub fn print(t: &Typ, ch: &mut Ch, ob: &mut Ob) -> R {
    let Some(i) = setup(t, ch, ob, Mode { mutate: 1, sentinel: 0, budget: 90, depth: 8 }) else { return Ok(()) };
    print_on(t, &i, ob)
}

pub fn print_on(t: &Typ, i: &Input, ob: &mut Ob) -> R {
    let mut rf = Ref::new(REF_LIMIT);
    let reading = reference!(rf, t, i, ob);
    let Ok(a) = (t.ops.from_str)(&i.src) else {
        ob.class("rejected");
        ob.discarded = true;
        return Ok(());
    };
    let Top::Ok(_) = reading else { return Ok(()) };
    observe(ob, i, &rf, true);
    let out = crate::tok::toks(a.toks());
    let (want, got) = (drop_zero_sign(canon_of(&i.t, false)), drop_zero_sign(canon_of(&out, false)));
    ck!(want == got, "{}: printed tokens differ\n  got      {}\n  expected {}", t.ops.name, got.join(" "), want.join(" "));
    let va = a.v();
    // whether the printed tokens mean the same when written out is a matter of the grammar (gluing
    // of punctuation, -0): ask the reference, on a text that is not made by the code under test
    let Some((_, ideal)) = lex(&crate::tok::text_of(&out)) else { return Err(format!("{}: printed tokens have no textual form", t.ops.name)) };
    let mut rf = Ref::new(REF_LIMIT);
    let means_same = matches!(rf.top(&t.g, &ideal), Some(Top::Ok(w)) if w.same(&va, false));
    ob.class_if(!means_same, "excluded: the grammar reads the printed form differently");
    let stream_text = a.toks().to_string();
    for (how, text) in [("default display", a.display()), ("alternate display", a.alternate()), ("token stream text", stream_text)] {
        let Some((_, tk)) = lex(&text) else { return Err(format!("{}: {how} does not lex: {text:?}", t.ops.name)) };
        let got = drop_zero_sign(canon_of(&tk, false));
        ck!(want == got, "{}: {how} lost tokens\n  got      {}\n  expected {}\n  text {text:?}", t.ops.name, got.join(" "), want.join(" "));
        if !means_same {
            continue;
        }
        fuel(FUEL);
        match (t.ops.from_str)(&text) {
            Err(e) => return Err(format!("{}: {how} does not parse back ({e}): {text:?}", t.ops.name)),
            Ok(b) => {
                ck!(
                    a.same(&*b) && b.v().same(&va, false),
                    "{}: {how} parses back to something else\n  got      {}\n  expected {}",
                    t.ops.name,
                    b.v().show(),
                    va.show()
                );
            }
        }
    }
    // and straight from the tokens
    let mut rf = Ref::new(REF_LIMIT);
    if let Some(Top::Ok(w)) = rf.top(&t.g, &out) {
        if w.same(&va, false) {
            fuel(FUEL);
            match (t.ops.parse2)(a.toks()) {
                Err(e) => return Err(format!("{}: printed tokens do not parse back ({e})", t.ops.name)),
                Ok(b) => ck!(a.same(&*b), "{}: printed tokens parse back to {}", t.ops.name, b.v().show()),
            }
        }
    }
    Ok(())
}

fn chain(path: &[String]) -> String {
    path.iter().map(|p| format!("error parsing {p}, caused by:\n")).collect()
}

pub fn cand_fits(c: &Cand, sp: Sp, msg: &str) -> bool {
    let want = c.sp.unwrap_or(Sp::CALL_SITE);
    if want != sp {
        return false;
    }
    let Some(rest) = msg.strip_prefix(&chain(&c.path)) else { return false };
    match &c.msg {
        Some(m) => rest == m || rest == format!("unexpected end of input, {m}"),
        None => !rest.is_empty() && !rest.starts_with("error parsing "),
    }
}

pub fn show_cands(cs: &[Cand]) -> String {
    cs.iter()
        .take(6)
        .map(|c| match c.sp {
            Some(s) => format!("[{}:{}-{}:{} in {} {}]", s.sl, s.sc, s.el, s.ec, c.path.join(" > "), c.msg.as_deref().unwrap_or("")),
            None => format!("[end of input in {} {}]", c.path.join(" > "), c.msg.as_deref().unwrap_or("")),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// C03: the error is one of those admissible by the furthest-alternative rule.
pub fn errors(t: &Typ, ch: &mut Ch, ob: &mut Ob) -> R {
    let Some(i) = setup(t, ch, ob, Mode { mutate: 7, sentinel: 5, budget: 40, depth: 6 }) else { return Ok(()) };
    errors_on(t, &i, ob)
}

pub fn errors_on(t: &Typ, i: &Input, ob: &mut Ob) -> R {
    let mut rf = Ref::new(REF_LIMIT);
    let want = reference!(rf, t, i, ob);
    let got = (t.ops.from_str)(&i.src);
    observe(ob, i, &rf, matches!(want, Top::Ok(_)));
    ob.nontrivial = false;
    if let (Top::Err(cs), Err(e)) = (&want, &got) {
        ob.nontrivial = rf.alts >= 2;
        ob.class_if(!rf.eof_rank && rf.alts >= 2, "ranked by location");
        ob.class_if(cs.len() == 1, "one admissible error");
        let sp = Sp::of(e.span());
        let msg = e.to_string();
        ck!(
            cs.iter().any(|c| cand_fits(c, sp, &msg)),
            "{}: reported error is not that of the furthest alternative\n  got      {}:{}-{}:{} {msg:?}\n  expected {}",
            t.ops.name,
            sp.sl,
            sp.sc,
            sp.el,
            sp.ec,
            show_cands(cs)
        );
    }
    Ok(())
}

/// C04: consumption.
pub fn consumption(t: &Typ, ch: &mut Ch, ob: &mut Ob) -> R {
    let Some(mut i) = setup(t, ch, ob, Mode { mutate: 3, sentinel: 0, budget: 40, depth: 6 }) else { return Ok(()) };
    // arbitrary tokens after the node
    let mut tail: Vec<Piece> = vec![];
    let mut gen = Gen::new(&t.info, 20, 3);
    let n = ch.below(5);
    for _ in 0..n {
        gen.any_piece(ch, &mut tail);
    }
    if ch.chance(1, 4) {
        gen.gen(&t.g, ch, 2, &mut tail);
    }
    let src = format!("{} {}", i.src, render(&tail, ch));
    let Some((ts, toks)) = lex(&src) else {
        ob.discarded = true;
        return Ok(());
    };
    i = Input { src, ts, t: toks, mutated: i.mutated };
    ob.key = describe(t, &i.src);
    consumption_on(t, &i, ob)
}

pub fn consumption_on(t: &Typ, i: &Input, ob: &mut Ob) -> R {
    let mut rf = Ref::new(REF_LIMIT);
    let Some(want) = rf.prefix(&t.g, &i.t) else {
        ob.discarded = true;
        return Ok(());
    };
    observe(ob, i, &rf, want.is_ok());
    let got = (t.ops.prefix)(&i.src);
    match (want, got) {
        (Ok((v, n, poison)), Ok((Ok(a), rest))) => {
            ck!(!poison, "{}: left-over tokens in a group were accepted", t.ops.name);
            let rest = crate::tok::toks(rest);
            let (w, g) = (canon_of(&i.t[n..], true), canon_of(&rest, true));
            ck!(
                w == g,
                "{}: consumed a different part of the input\n  remaining {:?}\n  expected  {:?}\n  value {}",
                t.ops.name,
                g.join(" "),
                w.join(" "),
                a.v().show()
            );
            ck!(a.v().same(&v, false), "{}: value differs: got {}, expected {}", t.ops.name, a.v().show(), v.show());
            ob.class_if(!g.is_empty(), "tokens remain after the node");
            ob.nontrivial = !g.is_empty() || rf.alt_fail_deep > 0;
        }
        (Ok((_, _, true)), Err(_)) => {}
        (Ok((v, ..)), Ok((Err(e), _)) | Err(e)) => return Err(format!("{}: failed ({e}) but the grammar accepts a prefix as {}", t.ops.name, v.show())),
        (Err(_), Ok((Ok(a), _))) => return Err(format!("{}: accepted a prefix as {} but the grammar does not", t.ops.name, a.v().show())),
        // each of the alternatives was tried and did not parse
        (Err(_), got) if choice(&t.g) => {
            let rest = match got {
                Ok((_, rest)) => crate::tok::toks(rest),
                Err(e) => return Err(format!("{}: a failed choice made what follows fail: {e}", t.ops.name)),
            };
            let (w, g) = (canon_of(&i.t, true), canon_of(&rest, true));
            ck!(w == g, "{}: a failed choice consumed tokens\n  remaining {:?}\n  expected  {:?}", t.ops.name, g.join(" "), w.join(" "));
            ob.class("failed choice");
            ob.nontrivial |= rf.alt_fail_deep > 0;
        }
        (Err(_), _) => {}
    }
    Ok(())
}

/// is this an enum, or an Either?
fn choice(g: &G) -> bool {
    match g {
        G::Ref(f) => choice(&f()),
        G::Enum(..) | G::Either(..) => true,
        _ => false,
    }
}

/// C18: spans of leaves and of nodes.
pub fn spans(t: &Typ, ch: &mut Ch, ob: &mut Ob) -> R {
    let Some(i) = setup(t, ch, ob, Mode { mutate: 1, sentinel: 0, budget: 60, depth: 7 }) else { return Ok(()) };
    spans_on(t, &i, ob)
}

pub fn spans_on(t: &Typ, i: &Input, ob: &mut Ob) -> R {
    let mut rf = Ref::new(REF_LIMIT);
    let Top::Ok(w) = reference!(rf, t, i, ob) else {
        ob.discarded = true;
        return Ok(());
    };
    let Ok(a) = (t.ops.from_str)(&i.src) else { return Ok(()) };
    observe(ob, i, &rf, true);
    let v = a.v();
    if !v.same(&w, false) {
        return Ok(()); // not a matter of spans
    }
    ck!(v.same(&w, true), "{}: spans of leaves differ\n  got      {}\n  expected {}", t.ops.name, v.show_sp(), w.show_sp());
    // spans of printed tokens
    let out = crate::tok::toks(a.toks());
    let (mut got, mut want) = (vec![], vec![]);
    emitted_spans(&out, &mut got);
    source_spans(&i.t, &mut want);
    if got.len() != want.len() {
        let c = canon_of(&i.t, false);
        ob.class("excluded: the sign of an integer zero is not printed");
        ck!(c.len() != drop_zero_sign(c.clone()).len(), "{}: {} tokens printed for {}", t.ops.name, got.len(), want.len());
        return Ok(());
    }
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        ck!(w.contains(g), "{}: printed token {k} has span {g:?}, its source token {w:?}", t.ops.name);
    }
    if let Some(e) = w.extent() {
        let s = Sp::of(a.span());
        ck!(s == e, "{}: span of the node is {s:?}, its tokens cover {e:?}", t.ops.name);
    }
    Ok(())
}

fn emitted_spans(t: &[Tok], out: &mut Vec<Sp>) {
    crate::tok::leaf_spans(t, out)
}

/// admissible spans of each printed token: its own, or, for a negative number, that of sign and digits
fn source_spans(t: &[Tok], out: &mut Vec<Vec<Sp>>) {
    use crate::tok::K;
    let mut k = 0;
    while k < t.len() {
        match &t[k].k {
            K::Group(_, inner, o, c) => {
                out.push(vec![*o]);
                source_spans(inner, out);
                out.push(vec![*c]);
            }
            K::Punct('-', _) if matches!(t.get(k + 1).map(|x| &x.k), Some(K::Lit(s)) if s.starts_with(|c: char| c.is_ascii_digit())) => {
                let j = t[k].sp.join(t[k + 1].sp);
                out.push(vec![t[k].sp, j]);
                out.push(vec![t[k + 1].sp, j]);
                k += 1;
            }
            _ => out.push(vec![t[k].sp]),
        }
        k += 1;
    }
}

/// C19: nothing panics, errors are usable, results are deterministic.
pub fn total(t: &Typ, src: &str, ts: Option<TokenStream>, ob: &mut Ob) -> R {
    fuel(FUEL);
    let a = match &ts {
        None => (t.ops.from_str)(src),
        Some(ts) => (t.ops.parse2)(ts.clone()),
    };
    fuel(FUEL);
    let b = match &ts {
        None => (t.ops.from_str)(src),
        Some(ts) => (t.ops.parse2)(ts.clone()),
    };
    match (a, b) {
        (Err(a), Err(b)) => {
            ob.class("rejected");
            let m = a.to_string();
            ck!(!m.trim().is_empty(), "{}: empty error message", t.ops.name);
            ck_eq!(m, b.to_string(), "{}: error message of a second parse", t.ops.name);
            let _ = a.span().start();
            let _ = a.to_compile_error();
            let _ = format!("{a:?}");
        }
        (Ok(a), Ok(b)) => {
            ob.class("accepted");
            use_value(t, &*a, &*b)?;
        }
        _ => return Err(format!("{}: parsing twice gives different outcomes", t.ops.name)),
    }
    Ok(())
}

fn use_value(t: &Typ, a: &dyn Ast, b: &dyn Ast) -> R {
    let (d, e) = (a.display(), a.alternate());
    ck_eq!(d, b.display(), "{}: display of a second parse", t.ops.name);
    ck_eq!(e, b.alternate(), "{}: alternate display of a second parse", t.ops.name);
    let g = a.debug();
    ck!(g.is_empty() == b.debug().is_empty(), "{}: debug", t.ops.name);
    let _ = a.toks().to_string();
    let _ = Sp::of(a.span());
    let c = a.dup();
    ck!(a.same(&*c), "{}: a clone is not equal to its original", t.ops.name);
    ck!(a.same(b), "{}: parsing twice gives different values", t.ops.name);
    ck!(a.v().same(&b.v(), false), "{}: parsing twice gives different values", t.ops.name);
    Ok(())
}

fn outcome(r: &Result<Box<dyn Ast>, syn::Error>) -> (Option<V>, String, Sp) {
    match r {
        Ok(a) => (Some(a.v()), String::new(), Sp::CALL_SITE),
        Err(e) => (None, e.to_string(), Sp::of(e.span())),
    }
}

/// puts runs of tokens into invisible groups and changes nothing else
pub fn veil(ts: TokenStream, ch: &mut Ch, rate: u32, n: &mut [u32; 4]) -> TokenStream {
    use proc_macro2::{Delimiter, Group, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut k = 0;
    while k < v.len() {
        let mut run = vec![];
        let len = match ch.below(8) {
            0 => v.len() - k,
            1..=4 => 1,
            x => x as usize - 3,
        };
        for t in v[k..].iter().take(len) {
            run.push(match t {
                TokenTree::Group(g) => {
                    let mut h = Group::new(g.delimiter(), veil(g.stream(), ch, rate, n));
                    h.set_span(g.span());
                    h.into()
                }
                t => t.clone(),
            });
        }
        k += run.len();
        if ch.chance(rate, 12) {
            n[0] += 1;
            n[1] += (run.len() > 1) as u32;
            n[2] += run.iter().any(|t| matches!(t, TokenTree::Group(_))) as u32;
            let run: TokenStream = if ch.chance(1, 4) {
                n[3] += 1;
                veil(run.into_iter().collect(), ch, rate, n)
            } else {
                run.into_iter().collect()
            };
            out.push(Group::new(Delimiter::None, run).into());
        } else {
            out.extend(run);
        }
    }
    out.into_iter().collect()
}

/// C24: invisible groups, as macros leave them behind, make no difference.
pub fn veiled(t: &Typ, ch: &mut Ch, ob: &mut Ob) -> R {
    let Some(i) = setup(t, ch, ob, Mode { mutate: 2, sentinel: 1, budget: 50, depth: 6 }) else { return Ok(()) };
    if !t.def.is_empty() && Ref::new(REF_LIMIT).top(&t.g, &i.t).is_none() {
        ob.discarded = true;
        ob.class("discarded: reference gave up");
        return Ok(());
    }
    let rate = 1 + ch.below(8);
    let mut n = [0; 4];
    let w = veil(i.ts.clone(), ch, rate, &mut n);
    ob.key = format!("{} <- {}{}", t.ops.name, show_groups(&toks(w.clone())), if t.def.is_empty() { String::new() } else { format!("\n{}", t.def) });
    ob.nontrivial = n[0] > 0;
    ob.class_if(n[1] > 0, "invisible group around several tokens");
    ob.class_if(n[2] > 0, "invisible group around a visible one");
    ob.class_if(n[3] > 0, "invisible groups in each other");
    fuel(FUEL);
    let a = (t.ops.parse2)(i.ts.clone());
    let quoted = ch.flag();
    fuel(FUEL);
    let b = if quoted { (t.ops.quoted)(w) } else { (t.ops.parse2)(w) };
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ob.class("accepted");
            let (x, y) = (a.v(), b.v());
            ck!(x.same(&y, true), "{}: {} with invisible groups, {} without", t.ops.name, y.show_sp(), x.show_sp());
            ck!(a.same(&*b) && b.same(&*a), "{}: unequal values with and without invisible groups", t.ops.name);
            ck_eq!(canon_of(&toks(b.toks()), true), canon_of(&toks(a.toks()), true), "{}: printed tokens", t.ops.name);
            Ok(())
        }
        // which of the failures is reported may differ, since a group has one location
        (Err(_), Err(_)) => {
            ob.class("rejected");
            Ok(())
        }
        (Ok(a), Err(e)) => Err(format!("{}: rejected with invisible groups ({e}), {} without", t.ops.name, a.v().show())),
        (Err(e), Ok(b)) => Err(format!("{}: {} with invisible groups, rejected without ({e})", t.ops.name, b.v().show())),
    }
}

/// a token stream with its invisible groups shown in angle quotes
fn show_groups(t: &[Tok]) -> String {
    let mut o = String::new();
    for x in t {
        match &x.k {
            K::Group(d, i, ..) => {
                let (a, b) = if *d == ' ' { ("\u{ab}".to_string(), "\u{bb}".to_string()) } else { (d.to_string(), crate::tok::close(*d).to_string()) };
                o += &format!("{a} {} {b} ", show_groups(i).trim_end());
            }
            K::Ident(s) | K::Lit(s) => o += &format!("{s} "),
            K::Punct(c, joint) => {
                o.push(*c);
                if !*joint {
                    o.push(' ');
                }
            }
        }
    }
    o
}

/// C23: entry points agree.
pub fn agree(t: &Typ, ch: &mut Ch, ob: &mut Ob) -> R {
    let Some(i) = setup(t, ch, ob, Mode { mutate: 4, sentinel: 1, budget: 50, depth: 6 }) else { return Ok(()) };
    if !t.def.is_empty() && Ref::new(REF_LIMIT).top(&t.g, &i.t).is_none() {
        // a generated grammar that takes too long on this input
        ob.discarded = true;
        ob.class("discarded: reference gave up");
        return Ok(());
    }
    let spans = crate::tok::some_spans();
    let pick = (*ch.pick(&spans), *ch.pick(INDENTS));
    agree_with(t, &i, pick, ob)
}

const INDENTS: &[&str] = &["\t", "", " ", "   \t"];

/// the same on a given input
pub fn agree_on(t: &Typ, i: &Input, ob: &mut Ob) -> R {
    let spans = crate::tok::some_spans();
    let n = i.src.len();
    agree_with(t, i, (spans[n % spans.len()], INDENTS[n % INDENTS.len()]), ob)
}

fn agree_with(t: &Typ, i: &Input, (span, ind): (proc_macro2::Span, &str), ob: &mut Ob) -> R {
    fuel(FUEL);
    let a = (t.ops.from_str)(&i.src);
    fuel(FUEL);
    let b = (t.ops.parse_str)(&i.src);
    fuel(FUEL);
    let c = (t.ops.parse2)(i.ts.clone());
    fuel(FUEL);
    let d = (t.ops.quoted)(i.ts.clone());
    fuel(FUEL);
    let e = (t.ops.quoted_spanned)(span, i.ts.clone());
    let (va, ma, sa) = outcome(&a);
    ob.class(if va.is_some() { "accepted" } else { "rejected" });
    ob.nontrivial = count(&i.t) > 0;
    for (how, x) in [("parse_str", &b), ("parse2", &c), ("try_parse_quote!", &d), ("try_parse_quote_spanned!", &e)] {
        let (vx, mx, sx) = outcome(x);
        match (&va, &vx) {
            (Some(p), Some(q)) => {
                ck!(p.same(q, false), "{}: from_str gives {}, {how} gives {}", t.ops.name, p.show(), q.show());
                // the token stream was lexed from a text of its own: positions within it are the same
                ck!(p.same(q, true), "{}: from_str gives {}, {how} gives {}", t.ops.name, p.show_sp(), q.show_sp());
                ck!(a.as_ref().ok().unwrap().same(&**x.as_ref().ok().unwrap()), "{}: from_str and {how} values are not equal", t.ops.name);
            }
            (None, None) => {
                ck_eq!(mx, ma, "{}: error of {how} against from_str", t.ops.name);
                ck_eq!(sx, sa, "{}: error location of {how} against from_str", t.ops.name);
            }
            _ => return Err(format!("{}: from_str {}, {how} {}", t.ops.name, if va.is_some() { "accepts" } else { "rejects" }, if vx.is_some() { "accepts" } else { "rejects" })),
        }
    }
    if let Ok(a) = &a {
        let pretty = a.formatted(0, "");
        let compact = a.formatted(1, "");
        // a number by itself is displayed with its sign attached
        let number = |s: &str| match s.strip_prefix("- ") {
            Some(r) if i.t.len() == 2 => format!("-{r}"),
            _ => s.to_string(),
        };
        for (shown, helper, how) in [(a.alternate(), &compact, "compact"), (a.display(), &pretty, "pretty"), (a.formatted(16, ""), &compact, "compact"), (a.formatted(15, ""), &pretty, "pretty")] {
            ck!(shown == *helper || shown == number(helper), "{}: display {shown:?} against the {how} helper {helper:?}", t.ops.name);
        }
        for m in [2, 4, 6, 10, 12] {
            ck_eq!(a.formatted(m, ""), pretty, "{}: pretty entry point {m}", t.ops.name);
        }
        for m in [3, 5, 7, 11, 13, 14] {
            ck_eq!(a.formatted(m, ""), compact, "{}: compact entry point {m}", t.ops.name);
        }
        for m in [8, 9] {
            ck_eq!(a.formatted(m, "    "), pretty, "{}: four-space entry point {m}", t.ops.name);
        }
        ck_eq!(a.formatted(8, ind), a.formatted(9, ind), "{}: node and token formatting with indent {ind:?}", t.ops.name);
    }
    Ok(())
}

fn expand(g: &G) -> G {
    let mut g = g.clone();
    while let G::Ref(f) = g {
        g = f();
    }
    g
}

/// Input for a repetition type: `n` items, with separators where the type wants them, sometimes
/// broken at one place.
pub fn long_input(t: &Typ, ch: &mut Ch, n: usize) -> Option<Input> {
    let mut p: Vec<Piece> = vec![];
    let mut gen = Gen::new(&t.info, 4, 4);
    let g = expand(&t.g);
    let (item, sep, open) = match &g {
        G::Any(i) => (i.clone(), None, true),
        G::Punct(i, s) => (i.clone(), Some(s.clone()), true),
        G::Sep(i, s) | G::Left(s, i) | G::Right(s, i) => (i.clone(), Some(s.clone()), false),
        _ => return None,
    };
    let trailing = match ch.weighted(&[3, 1]) {
        0 => false,
        _ => true,
    };
    let mut starts = vec![];
    for k in 0..n {
        starts.push(p.len());
        // a few distinct items are enough to tell positions apart
        gen.budget = 4;
        gen.gen(&item, ch, 2, &mut p);
        if let Some(s) = &sep {
            if k + 1 < n || (trailing && (open || ch.flag())) {
                gen.budget = 4;
                gen.gen(s, ch, 2, &mut p);
            }
        }
    }
    let mutated = ch.chance(1, 3) && !p.is_empty();
    if mutated {
        let at = match ch.weighted(&[2, 2, 1]) {
            0 => p.len() - 1,
            1 => starts[ch.idx(starts.len())].min(p.len() - 1),
            _ => ch.idx(p.len()),
        };
        let mut v = vec![];
        gen.any_piece(ch, &mut v);
        match ch.below(3) {
            0 => {
                p.remove(at);
            }
            1 => {
                p.splice(at..at + 1, v);
            }
            _ => {
                p.splice(at..at, v);
            }
        }
    }
    let src = crate::gen::plain(&p);
    let (ts, toks) = lex(&src)?;
    Some(Input { src, ts, t: toks, mutated })
}

/// sizes of long sequences: powers of two and their neighbours, and others
pub fn long_n(ch: &mut Ch, max: usize) -> usize {
    let n = match ch.weighted(&[3, 3, 3, 1]) {
        0 => ch.range(0, 40) as usize,
        1 => ((1usize << ch.range(3, 10)) + ch.below(3) as usize).saturating_sub(1),
        2 => ch.range(30, 400) as usize,
        _ => ch.range(400, 3000) as usize,
    };
    n.min(max)
}

pub fn is_repetition(t: &Typ) -> bool {
    matches!(expand(&t.g), G::Any(_) | G::Punct(..) | G::Sep(..) | G::Left(..) | G::Right(..))
}

pub type CheckOn = fn(&Typ, &Input, &mut Ob) -> R;

/// a subcheck over random inputs of random types of the list
pub fn types_sub(name: &str, ts: Vec<Typ>, quick: u32, thorough: u32, f: fn(&Typ, &mut Ch, &mut Ob) -> R) -> crate::run::Sub {
    crate::run::sub(name, quick, thorough, (0, 220), move |ch, ob| {
        let t = &ts[ch.idx(ts.len())];
        f(t, ch, ob)
    })
}

/// a subcheck over long sequences of the repetition types of the list
pub fn long_sub(name: &str, ts: Vec<Typ>, max: usize, quick: u32, thorough: u32, f: CheckOn) -> crate::run::Sub {
    let ts: Vec<Typ> = ts.into_iter().filter(is_repetition).collect();
    crate::run::sub(name, quick, thorough, (0, 800), move |ch, ob| {
        let t = &ts[ch.idx(ts.len())];
        let n = long_n(ch, max);
        let Some(i) = long_input(t, ch, n) else {
            ob.discarded = true;
            return Ok(());
        };
        ob.key = describe(t, &i.src);
        ob.class_if(n >= 256, "256+ items");
        fuel(FUEL);
        f(t, &i, ob)
    })
}

/// a subcheck on given texts of the types of the list: `f(ch)` yields a type's name and a text
pub fn text_sub(
    name: &str,
    ts: Vec<Typ>,
    quick: u32,
    thorough: u32,
    text: fn(&mut Ch) -> (&'static str, String),
    f: CheckOn,
) -> crate::run::Sub {
    crate::run::sub(name, quick, thorough, (0, 60), move |ch, ob| {
        let (n, src) = text(ch);
        let t = ts.iter().find(|t| t.ops.name == n).expect("type of the list");
        let Some((tstream, toks)) = lex(&src) else {
            ob.discarded = true;
            return Ok(());
        };
        let i = Input { src, ts: tstream, t: toks, mutated: false };
        ob.key = describe(t, &i.src);
        ob.class_if(crate::tok::depth(&i.t) >= 50, "nesting of 50 or more");
        fuel(FUEL);
        f(t, &i, ob)
    })
}
