//! C25: inside a procedural macro, with the compiler's tokens, everything is as it is outside.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use proc_macro2::{Group, Punct, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;
use std::sync::OnceLock;
use types::*;
use vh::engine::*;
use vh::gram::{Ref, Top};
use vh::inside::*;
use vh::node::{fuel, Places};
use vh::run::*;
use vh::tok::*;
use vh::{ck, ck_eq, Ch};

/// locations and places of the tokens of the pool, and its text
fn pool() -> &'static (Vec<Sp>, Vec<Places>) {
    static P: OnceLock<(Vec<Sp>, Vec<Places>)> = OnceLock::new();
    P.get_or_init(|| {
        let src = program();
        let (_, t) = lex(&src).expect("pool");
        let K::Group(_, inner, ..) = &t.last().unwrap().k else { panic!("no pool") };
        let lines: Vec<&str> = src.split_inclusive('\n').collect();
        let at = |(l, c): (usize, usize)| -> (usize, usize) {
            let (b, n) = lines[..l - 1].iter().fold((0, 0), |a, x| (a.0 + x.len(), a.1 + x.chars().count()));
            (b + lines[l - 1].chars().take(c).map(char::len_utf8).sum::<usize>(), n + c)
        };
        let sps: Vec<Sp> = inner.iter().map(|t| t.sp).collect();
        let places = sps
            .iter()
            .map(|s| {
                let (a, b) = (at(s.start()), at(s.end()));
                Places { bytes: a.0..b.0, chars: a.1..b.1, text: src[a.0..b.0].into(), shown: format!("{}:{}..{}:{}", s.sl, s.sc + 1, s.el, s.ec) }
            })
            .collect();
        (sps, places)
    })
}

/// number of each token by where it begins and by where it ends; groups have the number of their opening delimiter
fn numbers(t: &[Tok], n: &mut usize, starts: &mut HashMap<(usize, usize), usize>, ends: &mut HashMap<(usize, usize), usize>) {
    for t in t {
        let k = *n;
        *n += 1;
        match &t.k {
            K::Group(_, inner, open, close) => {
                starts.insert(open.start(), k);
                ends.insert(open.end(), k);
                numbers(inner, n, starts, ends);
                starts.insert(close.start(), k);
                ends.insert(close.end(), k);
            }
            // compilers glue punctuation together, and then it has one location
            K::Punct(..) => {}
            _ => {
                starts.insert(t.sp.start(), k);
                ends.insert(t.sp.end(), k);
            }
        }
    }
}

/// as the compiler does it: punctuation is joint only to punctuation
fn spaced(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let joint: Vec<bool> = (0..v.len()).map(|i| matches!(v.get(i + 1), Some(TokenTree::Punct(_)))).collect();
    let life: Vec<bool> = (0..v.len()).map(|i| matches!((&v[i], v.get(i + 1)), (TokenTree::Punct(p), Some(TokenTree::Ident(_))) if p.as_char() == '\'')).collect();
    v.into_iter()
        .enumerate()
        .map(|(i, t)| match t {
            TokenTree::Punct(p) if p.spacing() == Spacing::Joint && !joint[i] && !life[i] => Punct::new(p.as_char(), Spacing::Alone).into(),
            TokenTree::Group(g) => Group::new(g.delimiter(), spaced(g.stream())).into(),
            t => t,
        })
        .collect()
}

fn literals(t: &[Tok], o: &mut Vec<(Sp, String)>) {
    for t in t {
        match &t.k {
            K::Lit(s) => o.push((t.sp, lit_canon(s))),
            K::Group(_, i, ..) => literals(i, o),
            _ => {}
        }
    }
}

/// the text with its literals replaced by their values: compilers have spellings of their own
fn skeleton(s: &str) -> String {
    let Some((_, t)) = lex(s) else { return format!("? {s}") };
    let mut l = vec![];
    literals(&t, &mut l);
    let starts: Vec<usize> = std::iter::once(0).chain(s.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let at = |(l, c): (usize, usize)| starts[l - 1] + s[starts[l - 1]..].chars().take(c).map(char::len_utf8).sum::<usize>();
    let (mut o, mut k) = (String::new(), 0);
    for (sp, c) in l {
        o.push_str(&s[k..at(sp.start())]);
        o.push_str(&c);
        k = at(sp.end());
    }
    o + &s[k..]
}

fn alike(got: &str, want: &str, what: &str) -> R {
    ck!(got == want || skeleton(got) == skeleton(want), "{what}: got {got:?}, expected {want:?}");
    Ok(())
}

fn sp(s: &str) -> Sp {
    let v: Vec<usize> = s.split(' ').map(|x| x.parse().unwrap()).collect();
    Sp { sl: v[0], sc: v[1], el: v[2], ec: v[3] }
}

fn inside(ts: &[Typ], base: usize, ch: &mut Ch, ob: &mut Ob) -> R {
    let k = ch.idx(ts.len());
    let t = &ts[k];
    let how = ch.weighted(&[6, 2, 1, 2, 1]) as u32;
    // (types of the harness that take raw token trees see invisible groups)
    let veils: Vec<u32> = if how < 3 && !t.ops.name.contains("Wide") && ch.chance(1, 4) { (0..ch.range(1, 40)).map(|_| ch.raw()).collect() } else { vec![] };
    let Some(i) = input(t, ch, Mode { mutate: 2, sentinel: 1, budget: 50, depth: 6 }) else {
        ob.discarded = true;
        ob.class("discarded: no token stream");
        return Ok(());
    };
    ob.key = format!("{}{}", describe(t, &i.src), if veils.is_empty() { String::new() } else { format!(" in invisible groups {veils:x?}") });
    let n = count(&i.t);
    if n > POOL {
        ob.discarded = true;
        ob.class("discarded: too many tokens");
        return Ok(());
    }
    let mut rf = Ref::new(REF_LIMIT);
    let Some(reading) = rf.top(&t.g, &i.t) else {
        ob.discarded = true;
        ob.class("discarded: reference gave up");
        return Ok(());
    };
    fuel(FUEL);
    let out = (t.ops.from_str)(&i.src);
    let f = match ask((base + k) as u32, how, &veils, &i.src) {
        Reply::Fields(f) => f,
        Reply::NoTokens => {
            ob.discarded = true;
            ob.class("discarded: the compiler does not lex it");
            return Ok(());
        }
        Reply::Dead(e) => return Err(format!("{}: the compiler ends or does not answer: {e}", t.ops.name)),
        Reply::NoServer(e) => {
            eprintln!("check error: {e}");
            std::process::exit(2);
        }
    };
    ck!(f.len() > 1, "{}: inside a macro: {}", t.ops.name, f[0]);
    if f[0] != canon_of(&i.t, true).join(" ") {
        ob.discarded = true;
        ob.class("discarded: the compiler lexes it differently");
        return Ok(());
    }
    ob.nontrivial = n > 0;
    ob.class_if(!veils.is_empty(), "with invisible groups");
    let name = format!("{} inside a macro", t.ops.name);
    let formats = |ts: &proc_macro2::TokenStream| {
        let mut o = [String::new(), String::new()];
        parsel::util::format_tokens_compact(ts.clone(), &mut o[0]).expect("format");
        parsel::util::format_tokens_pretty(ts.clone(), &mut o[1]).expect("format");
        o
    };
    if veils.is_empty() {
        let o = formats(&spaced(i.ts.clone()));
        alike(&f[1], &o[0], &format!("{name}: input formatted compactly"))?;
        alike(&f[2], &o[1], &format!("{name}: input formatted"))?;
    }
    match (&out, f[3].as_str()) {
        (Ok(a), "accepted") => {
            ob.class("accepted");
            let v = a.v();
            ck!(f[4] == v.show(), "{name}: the value is {}, but outside it is {}", f[4], v.show());
            let p = a.toks();
            ck_eq!(f[6], canon_of(&toks(p.clone()), true).join(" "), "{name}: printed tokens");
            let o = formats(&p);
            alike(&f[7], &o[0], &format!("{name}: formatted compactly"))?;
            alike(&f[8], &o[1], &format!("{name}: formatted"))?;
            alike(&f[9], &a.display(), &format!("{name}: displayed"))?;
            alike(&f[10], &a.alternate(), &format!("{name}: displayed in the alternate form"))?;
            let again = match (t.ops.parse2)(p) {
                Ok(b) => format!("{}", a.same(&*b)),
                Err(e) => format!("rejected: {e}"),
            };
            ck_eq!(f[13], again, "{name}: printed tokens parsed again");
            if how < 2 {
                // each token has a known location there
                let (mut starts, mut ends) = (HashMap::new(), HashMap::new());
                numbers(&i.t, &mut 0, &mut starts, &mut ends);
                let (at, places) = pool();
                let want = vh::inside::spans(&v);
                let got: Vec<Sp> = f[5].split(';').filter(|s| !s.is_empty()).map(sp).collect();
                ck_eq!(got.len(), want.len(), "{name}: number of leaves");
                for (k, (g, w)) in got.iter().zip(&want).enumerate() {
                    let (Some(a), Some(b)) = (starts.get(&w.start()), ends.get(&w.end())) else { continue };
                    // several locations are joined only by unstable compilers
                    let ok = g.start() == at[*a].start() && (g.end() == at[*a].end() || g.end() == at[*b].end());
                    ck!(ok, "{name}: leaf {k} is at {g:?}, expected {:?} to {:?} ({w:?})", at[*a], at[*b]);
                    ob.add("locations compared", 1);
                }
                if let Some(a) = v.extent().filter(|_| veils.is_empty()).and_then(|w| starts.get(&w.start())) {
                    let s = sp(&f[11]);
                    if s.end() == at[*a].end() {
                        ck!(s == at[*a], "{name}: the node is at {s:?}, expected {:?}", at[*a]);
                        ck_eq!(f[12], format!("{:?}", places[*a]), "{name}: places of the node");
                        ob.add("places compared", 1);
                    }
                }
            }
        }
        (Err(e), "rejected") => {
            ob.class("rejected");
            ck!(!f[4].is_empty(), "{name}: an error without a message");
            ck_eq!(f[6], "false", "{name}: no tokens for the error");
            // where alternatives are ranked, the locations of the compiler decide
            let one = matches!(&reading, Top::Err(c) if c.len() == 1) && !rf.eof_rank && rf.alts < 2;
            if one && veils.is_empty() {
                ob.class("errors compared");
                ck_eq!(f[4], e.to_string(), "{name}: message");
                let mut starts = HashMap::new();
                numbers(&i.t, &mut 0, &mut starts, &mut HashMap::new());
                let w = Sp::of(e.span());
                if w != Sp::CALL_SITE && how < 2 {
                    if let Some(a) = starts.get(&w.start()) {
                        let g = sp(&f[5]);
                        ck!(g.start() == pool().0[*a].start(), "{name}: the error is at {g:?}, expected {:?}", pool().0[*a]);
                    }
                }
            }
        }
        (Ok(a), _) => return Err(format!("{name}: rejected ({}), but outside it is {}", f[4], a.v().show())),
        (Err(e), _) => return Err(format!("{name}: {}, but outside it is rejected ({e})", f[4])),
    }
    Ok(())
}

/// a minus sign and a literal, which is one node with one location
fn signed(t: &[Tok]) -> bool {
    t.windows(2).any(|w| matches!((&w[0].k, &w[1].k), (K::Punct('-', _), K::Lit(_)))) || t.iter().any(|t| matches!(&t.k, K::Group(_, i, ..) if signed(i)))
}

/// texts that are part of the program: tokens with their true locations
fn own(ts: &[Typ], ch: &mut Ch, ob: &mut Ob) -> R {
    let (mut cases, mut k) = (vec![], 0);
    while !ch.exhausted() && cases.len() < 60 {
        let t = ch.idx(ts.len());
        let part: Vec<u32> = (0..ch.range(5, 100)).map(|_| ch.raw()).collect();
        let Some(i) = input(&ts[t], &mut Ch::new(&part), Mode { mutate: 5, sentinel: 1, budget: 40, depth: 6 }) else { continue };
        if !i.src.contains('\r') {
            cases.push((t, i));
        }
    }
    ob.key = format!("{:?}", cases.iter().map(|c| (ts[c.0].ops.name, &c.1.src)).collect::<Vec<_>>());
    let texts: Vec<&str> = cases.iter().map(|c| c.1.src.as_str()).collect();
    let (program, lines) = program_of(&texts);
    let mut server = match Server::start(&program) {
        Ok(s) => s,
        Err(e) => {
            if !e.contains("error") || e.contains("can't find crate") {
                eprintln!("check error: {e}");
                std::process::exit(2);
            }
            ob.discarded = true;
            ob.class("discarded: the compiler does not lex it");
            return Ok(());
        }
    };
    for ((t, i), line) in cases.iter().zip(lines) {
        let ty = &ts[*t];
        let name = format!("{} <- {:?} inside a macro", ty.ops.name, i.src);
        let mut rf = Ref::new(REF_LIMIT);
        let Some(reading) = rf.top(&ty.g, &i.t) else { continue };
        fuel(FUEL);
        let out = (ty.ops.parse2)(i.ts.clone());
        let how = OWN + k % 2;
        let f = match server.ask(*t as u32, how, &[], &k.to_string(), &mut false) {
            Ok(Some(f)) => f,
            Ok(None) => return Err(format!("{name}: no answer")),
            Err(e) => return Err(format!("{name}: the compiler ends or does not answer: {e}\n{}", server.log())),
        };
        k += 1;
        ck!(f.len() > 1, "{name}: {}", f[0]);
        if f[0] != canon_of(&i.t, true).join(" ") {
            ob.class("lexed differently");
            continue;
        }
        let here = |s: Sp| Sp { sl: s.sl + line - 1, el: s.el + line - 1, ..s };
        match (&out, f[3].as_str()) {
            (Ok(a), "accepted") => {
                ob.add("accepted", 1);
                let v = a.v();
                ck!(f[4] == v.show(), "{name}: the value is {}, but outside it is {}", f[4], v.show());
                let (want, got) = (vh::inside::spans(&v), f[5].split(';').filter(|s| !s.is_empty()).map(sp).collect::<Vec<_>>());
                ck_eq!(got.len(), want.len(), "{name}: number of leaves");
                for (g, w) in got.iter().zip(want) {
                    // locations are joined only by unstable compilers
                    ck!(w.start() == w.end() || g.start() == here(w).start() && g.end() <= here(w).end(), "{name}: a leaf is at {g:?}, expected {:?}", here(w));
                    ob.add("locations compared", 1);
                }
            }
            (Err(e), "rejected") => {
                ob.add("rejected", 1);
                if rf.eof_rank || signed(&i.t) {
                    continue;
                }
                let one = match &reading {
                    Top::Err(c) => c.len() == 1,
                    Top::Left => true,
                    // C01 says so
                    Top::Ok(_) => continue,
                };
                let w = Sp::of(e.span());
                ob.add("errors compared", 1);
                ob.add("errors of ranked alternatives compared", (rf.alts > 1) as u64);
                if one {
                    ck_eq!(f[4], e.to_string(), "{name}: message");
                }
                if w != Sp::CALL_SITE {
                    let g = sp(&f[5]);
                    ck!(g.start() == here(w).start() && g.end() <= here(w).end(), "{name}: the error is at {g:?}, expected {:?}", here(w));
                }
            }
            (Ok(a), _) => return Err(format!("{name}: rejected ({}), but outside it is {}", f[4], a.v().show())),
            (Err(e), _) => return Err(format!("{name}: {}, but outside it is rejected ({e})", f[4])),
        }
    }
    ob.nontrivial = k > 0;
    Ok(())
}

fn main() {
    let (all, every) = (all_types(), all_types());
    let (d, h) = (derived_types().len(), helper_types().len());
    let mut it = all.into_iter();
    let derived: Vec<Typ> = it.by_ref().take(d).collect();
    let helpers: Vec<Typ> = it.by_ref().take(h).collect();
    let lookahead: Vec<Typ> = it.collect();
    vh::run::main(Prop {
        id: "C25",
        rule: "at least one token; distinct = different (type, text, invisible groups)",
        subs: vec![
            sub("derived", 100_000, 2_000_000, (0, 220), move |ch, ob| inside(&derived, 0, ch, ob)),
            sub("helpers", 100_000, 2_000_000, (0, 220), move |ch, ob| inside(&helpers, d, ch, ob)),
            sub("lookahead", 40_000, 800_000, (0, 220), move |ch, ob| inside(&lookahead, d + h, ch, ob)),
            sub("texts of the program", 240, 10_000, (200, 3_000), move |ch, ob| own(&every, ch, ob)),
        ],
        probe: None,
        assumptions: vec!["the installed stable compiler, which does not join locations"],
    })
}
