//! C05: optional parts, and the empty, end and not-end markers.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use parsel::ToTokens;
use types::*;
use vh::engine::*;
use vh::node::Ops;
use vh::run::*;
use vh::{ck, ck_eq, genum, gstruct, gtuple, ops_list, Ch};

gtuple!(MbAny(a: Maybe<Plus, Ident>, b: Any<Word>, c: Maybe<Minus, LitInt>, d: Any<Plus>));
gtuple!(MbSame(a: Maybe<Ident, Plus>, b: Maybe<Ident, Minus>, c: Any<Ident>));
gtuple!(MbPre(a: Maybe<Pre3, Semi>, b: Maybe<Pre3, Semi>, c: Any<Ident>, d: Any<Plus>));
gtuple!(MbKw(a: Maybe<kw::If, Paren<Lit>>, b: Maybe<kw::Select>, c: Id, d: Maybe<kw2::While, Maybe<kw2::A, kw2::B>>));
gstruct!(MbGroup { a: Paren<Maybe<Plus, Ident>>, b: Maybe<Paren<Maybe<Ident>>, Bracket<Empty>>, c: Maybe<Comma> });
genum!(MbAlt { A(a: Maybe<Plus, Ident>, b: LitInt), B(a: Maybe<Plus, LitInt>, b: Ident), C(a: Plus, b: Maybe<Plus>, c: Semi), D(a: Maybe<Comma, NotEof>, b: Any<Lit>) });
gstruct!(MbNullable { a: Maybe<Empty, Maybe<Plus>>, b: Maybe<Any<Ident>, Maybe<Minus, LitInt>>, c: Maybe<NotEof, LitStr>, d: Maybe<Eof> });
gstruct!(MkEnd { a: Any<Ident>, e: Eof });
gstruct!(MkInGroups { a: Paren<MkEnd>, b: NotEof, c: Bracket<MkNot>, d: Brace<Empty>, e: Maybe<Comma, Eof>, f: Any<Comma> });
gstruct!(MkNot { n: NotEof, m: NotEof, i: Any<Ident>, e: Empty, f: Maybe<Eof> });
genum!(MkAlt { End(e: Eof), Sep(c: Comma, e: Eof), More(n: NotEof, i: Ident), Stop(i: LitInt, e: Eof), Not(i: LitInt, n: NotEof, s: Semi) });
gtuple!(MbMarks(a: Maybe<Plus, Eof>, b: Maybe<Minus, NotEof>, c: Any<Ident>, d: Empty));
gtuple!(MbMb(a: Maybe<Maybe1_, Ident>, b: Any<LitStr>));
gtuple!(Maybe1_(a: Comma, b: Maybe<Plus, LitInt>, c: Comma));

fn list() -> Vec<Ops> {
    ops_list![
        Maybe<Plus, Ident>, Maybe<Plus>, Maybe<kw::If, LitInt>, Maybe<Paren<Ident>, Ident>, Maybe<Separated<Ident, Dot>, LitInt>, Maybe<Eof>, Maybe<NotEof, Word>,
        Maybe<Plus, Maybe<Minus, Maybe<Star, Ident>>>, Maybe<LitInt, Empty>, Maybe<Pre3, LitInt>, Maybe<Ident, Paren<Any<Lit>>>, Maybe<LitStr, Separated<Ident, Comma>>,
        Maybe<Far, Semi>, Maybe<Either<Pre3, Sep2>, Either<LitInt, Ident>>, Maybe<Any<Plus>, Ident>, Maybe<Plus, Eof>, Maybe<Maybe<Plus>, Ident>,
        Empty, Eof, NotEof, Paren<Eof>, Bracket<NotEof>, Brace<Empty>, Paren<Maybe<Plus, Ident>>,
        MbAny, MbSame, MbPre, MbKw, MbGroup, MbAlt, MbNullable, MkEnd, MkInGroups, MkNot, MkAlt, MbMarks, MbMb, Opts, Markers, GroupEof, Look, Nullable,
        Any<Paren<Maybe<Plus, Ident>>>, Punctuated<Maybe<Plus, Ident>, Comma>, Any<MkCommit>, Separated<MkCommit, Semi>, Maybe<MkCommit, MkCommit>,
    ]
}
gtuple!(MkCommit(a: Ident, b: Maybe<Plus, LitInt>));

type M = Maybe<u32, String>;
type O = Option<(u32, String)>;

fn draw(ch: &mut Ch) -> (u32, String) {
    (ch.below(100), vh::lits::string(ch, 3))
}

fn compare(m: &mut M, o: &O, how: &str) -> R {
    let (p, t) = (o.as_ref().map(|x| &x.0), o.as_ref().map(|x| &x.1));
    ck_eq!(m.as_prefix(), p, "as_prefix after {how}");
    ck_eq!(m.as_ref(), t, "as_ref after {how}");
    ck_eq!(m.as_parts(), o.as_ref(), "as_parts after {how}");
    ck_eq!(**m, *o, "deref after {how}");
    ck_eq!(m.is_some(), o.is_some(), "is_some after {how}");
    ck_eq!(m.prefix_iter().collect::<Vec<_>>(), p.into_iter().collect::<Vec<_>>(), "prefix_iter after {how}");
    ck_eq!(m.iter().collect::<Vec<_>>(), t.into_iter().collect::<Vec<_>>(), "iter after {how}");
    ck_eq!((&*m).into_iter().collect::<Vec<_>>(), t.into_iter().collect::<Vec<_>>(), "&into_iter after {how}");
    ck_eq!(m.parts_iter().collect::<Vec<_>>(), o.iter().collect::<Vec<_>>(), "parts_iter after {how}");
    ck_eq!(m.clone().into_prefix(), o.clone().map(|x| x.0), "into_prefix after {how}");
    ck_eq!(m.clone().into_inner(), o.clone().map(|x| x.1), "into_inner after {how}");
    ck_eq!(m.clone().into_parts(), o.clone(), "into_parts after {how}");
    ck_eq!(m.clone().into_prefix_iter().collect::<Vec<_>>(), o.clone().map(|x| x.0).into_iter().collect::<Vec<_>>(), "into_prefix_iter after {how}");
    ck_eq!(m.clone().into_iter().collect::<Vec<_>>(), o.clone().map(|x| x.1).into_iter().collect::<Vec<_>>(), "into_iter after {how}");
    ck_eq!(m.clone().into_parts_iter().collect::<Vec<_>>(), o.clone().into_iter().collect::<Vec<_>>(), "into_parts_iter after {how}");
    let (mut q, mut u, mut w) = (p.cloned(), t.cloned(), o.clone());
    ck_eq!(m.as_prefix_mut(), q.as_mut(), "as_prefix_mut after {how}");
    ck_eq!(m.as_mut(), u.as_mut(), "as_mut after {how}");
    ck_eq!(m.as_parts_mut(), w.as_mut(), "as_parts_mut after {how}");
    ck_eq!(m.prefix_iter_mut().map(|x| *x).collect::<Vec<_>>(), q.into_iter().collect::<Vec<_>>(), "prefix_iter_mut after {how}");
    ck_eq!(m.iter_mut().map(|x| x.clone()).collect::<Vec<_>>(), u.clone().into_iter().collect::<Vec<_>>(), "iter_mut after {how}");
    ck_eq!((&mut *m).into_iter().map(|x| x.clone()).collect::<Vec<_>>(), u.into_iter().collect::<Vec<_>>(), "&mut into_iter after {how}");
    ck_eq!(m.parts_iter_mut().map(|x| x.clone()).collect::<Vec<_>>(), w.into_iter().collect::<Vec<_>>(), "parts_iter_mut after {how}");
    ck_eq!(format!("{m:?}"), format!("{o:?}"), "debug after {how}");
    let n = Maybe::from(o.clone());
    ck!(*m == n, "not equal to one built from the model after {how}");
    Ok(())
}

fn history(ch: &mut Ch, ob: &mut Ob) -> R {
    let (mut m, mut o): (M, O) = match ch.below(7) {
        0 => (M::new(), None),
        1 => (M::default(), None),
        2 => {
            let x = draw(ch);
            (M::from(Some(x.clone())), Some(x))
        }
        3 => {
            let x = draw(ch);
            (M::from(x.clone()), Some(x))
        }
        4 => {
            let t = draw(ch).1;
            (M::from(t.clone()), Some((0, t)))
        }
        5 => {
            let t = draw(ch).1;
            (M::from(Some(t.clone())), Some((0, t)))
        }
        _ => (M::from(None::<String>), None),
    };
    compare(&mut m, &o, "construction")?;
    let n = ch.below(10);
    let mut log = vec![];
    for _ in 0..n {
        let (p, t) = draw(ch);
        let k = ch.below(12);
        log.push(k);
        match k {
            0 => {
                if let Some(x) = m.as_prefix_mut() {
                    *x = p
                }
                if let Some(x) = &mut o {
                    x.0 = p
                }
            }
            1 => {
                if let Some(x) = m.as_mut() {
                    *x = t.clone()
                }
                if let Some(x) = &mut o {
                    x.1 = t
                }
            }
            2 => {
                if let Some(x) = m.as_parts_mut() {
                    *x = (p, t.clone())
                }
                if let Some(x) = &mut o {
                    *x = (p, t)
                }
            }
            3 => {
                for x in m.prefix_iter_mut() {
                    *x = p
                }
                for x in &mut o {
                    x.0 = p
                }
            }
            4 => {
                for x in m.iter_mut() {
                    x.push_str(&t)
                }
                for x in &mut o {
                    x.1.push_str(&t)
                }
            }
            5 => {
                for x in &mut m {
                    x.insert_str(0, &t)
                }
                for x in &mut o {
                    x.1.insert_str(0, &t)
                }
            }
            6 => {
                for x in m.parts_iter_mut() {
                    x.0 = p;
                    x.1.clear();
                }
                for x in &mut o {
                    x.0 = p;
                    x.1.clear();
                }
            }
            7 => {
                *m = Some((p, t.clone()));
                o = Some((p, t));
            }
            8 => {
                ck_eq!(m.take(), o.take(), "take");
            }
            9 => {
                let a = m.replace((p, t.clone()));
                ck_eq!(a, o.replace((p, t)), "replace");
            }
            10 => {
                m = M::from(m.into_parts());
            }
            _ => {
                m = M::from(m.into_inner());
                o = o.map(|x| (0, x.1));
            }
        }
        compare(&mut m, &o, &format!("operation {k}"))?;
    }
    ob.case(n > 0 && o.is_some(), format!("{log:?} -> {o:?}"));
    ob.class(if o.is_some() { "present" } else { "absent" });
    Ok(())
}

fn markers(ch: &mut Ch, ob: &mut Ob) -> R {
    let k = ch.below(3);
    let src = if ch.chance(1, 3) {
        ch.pick(&["", " ", "\n", "// c", "/* x */ \t"]).to_string()
    } else {
        let t = Typ::new(vh::node::ops::<Many<Lit>>("Many<Lit>"));
        match input(&t, ch, Mode { mutate: 4, sentinel: 4, budget: 6, depth: 3 }) {
            Some(i) => i.src,
            None => String::new(),
        }
    };
    let Some((_, toks)) = vh::tok::lex(&src) else {
        ob.discarded = true;
        return Ok(());
    };
    ob.case(true, format!("{k} {src:?}"));
    let none = toks.is_empty();
    ob.class(if none { "at end" } else { "not at end" });
    use syn::parse::Parser;
    macro_rules! one {
        ($t:ident, $ok:expr) => {{
            let f = |input: syn::parse::ParseStream<'_>| -> syn::Result<(bool, proc_macro2::TokenStream)> {
                let r = input.parse::<$t>();
                Ok((r.is_ok(), input.parse()?))
            };
            let (ok, rest) = f.parse_str(&src).map_err(|e| e.to_string())?;
            ck_eq!(ok, $ok, "{} on {src:?}", stringify!($t));
            ck_eq!(vh::tok::canon_of(&vh::tok::toks(rest), true), vh::tok::canon_of(&toks, true), "{} consumed input", stringify!($t));
            // the end of a group counts as the end
            let inner = format!("({src}) x");
            let g = |input: syn::parse::ParseStream<'_>| -> syn::Result<bool> {
                let c;
                syn::parenthesized!(c in input);
                let r = c.parse::<$t>();
                let _: proc_macro2::TokenStream = c.parse()?;
                let _: proc_macro2::TokenStream = input.parse()?;
                Ok(r.is_ok())
            };
            ck_eq!(g.parse_str(&format!("({src}\n) x")).map_err(|e| format!("{e} {inner}"))?, $ok, "{} in a group {src:?}", stringify!($t));
            ck!($t.to_token_stream().is_empty() && $t::new().to_token_stream().is_empty(), "{} prints something", stringify!($t));
            ck!(format!("{}{:#}", $t, $t::default()).is_empty(), "{} displays something", stringify!($t));
            ck!($t::new() == $t && $t::default() == $t && $t.cmp(&$t::new()) == std::cmp::Ordering::Equal, "{} is not equal to itself", stringify!($t));
            ck_eq!(src.parse::<$t>().is_ok(), none && stringify!($t) != "NotEof", "{} as the whole input", stringify!($t));
        }};
    }
    match k {
        0 => one!(Empty, true),
        1 => one!(Eof, none),
        _ => one!(NotEof, !none),
    }
    Ok(())
}

fn main() {
    vh::run::main(Prop {
        id: "C05",
        rule: "parsing: at least one token, distinct (type, text); consumption: tokens remain or an attempt failed midway; histories: present at the end after at least one operation",
        subs: vec![
            types_sub("presence", Typ::all(list()), 300_000, 15_000_000, accept),
            types_sub("position", Typ::all(list()), 200_000, 10_000_000, consumption),
            types_sub("printing", Typ::all(list()), 60_000, 3_000_000, print),
            sub("accessors", 60_000, 3_000_000, (0, 80), history),
            sub("markers", 60_000, 3_000_000, (0, 60), markers),
        ],
        probe: None,
        assumptions: vec![],
    })
}
