//! C07: a separated sequence against a plain list model, over histories of operations.
#[allow(dead_code)]
#[path = "../common/tag.rs"]
mod tag;
use parsel::ast::*;
use parsel::{parse_str, ToTokens};
use std::borrow::Borrow;
use std::convert::TryFrom;
use syn::punctuated::{Pair, Punctuated as SP};
use tag::{Item, Tag};
use vh::run::*;
use vh::{ck, ck_eq, Ch};

type S = Separated<Item, Tag>;

#[derive(Clone, Debug, PartialEq)]
struct Model {
    first: u32,
    rest: Vec<(u32, u32)>,
}

impl Model {
    fn items(&self) -> Vec<u32> {
        std::iter::once(self.first).chain(self.rest.iter().map(|r| r.1)).collect()
    }
    fn seps(&self) -> Vec<u32> {
        self.rest.iter().map(|r| r.0).collect()
    }
    fn of(items: &[u32], seps: &[u32]) -> Model {
        Model { first: items[0], rest: seps.iter().copied().zip(items[1..].iter().copied()).collect() }
    }
}

fn split(p: Pair<Item, Tag>) -> (u32, Option<u32>) {
    let (a, b) = p.into_tuple();
    (a.0, b.map(|b| b.0))
}

fn compare(s: &mut S, m: &Model, how: &str) -> R {
    let items = m.items();
    let seps = m.seps();
    let n = items.len();
    ck_eq!(s.len().get(), n, "len after {how}");
    ck_eq!(s.first().0, items[0], "first after {how}");
    ck_eq!(s.last().0, items[n - 1], "last after {how}");
    ck_eq!(s.first_mut().0, items[0], "first_mut after {how}");
    ck_eq!(s.last_mut().0, items[n - 1], "last_mut after {how}");
    ck_eq!(s.iter().map(|x| x.0).collect::<Vec<_>>(), items, "iter after {how}");
    ck_eq!(s.iter().len(), n, "iter().len() after {how}");
    ck_eq!(s.iter().rev().map(|x| x.0).collect::<Vec<_>>(), items.iter().rev().copied().collect::<Vec<_>>(), "reverse iter after {how}");
    ck_eq!(s.iter_mut().map(|x| x.0).collect::<Vec<_>>(), items, "iter_mut after {how}");
    ck_eq!((&*s).into_iter().map(|x| x.0).collect::<Vec<_>>(), items, "&into_iter after {how}");
    ck_eq!((&mut *s).into_iter().map(|x| x.0).collect::<Vec<_>>(), items, "&mut into_iter after {how}");
    ck_eq!(s.clone().into_iter().map(|x| x.0).collect::<Vec<_>>(), items, "into_iter after {how}");
    for i in 0..n {
        ck_eq!(s[i].0, items[i], "index {i} after {how}");
    }
    let want: Vec<(u32, Option<u32>)> = (0..n).map(|i| (items[i], seps.get(i).copied())).collect();
    ck_eq!(s.pairs().map(|p| (p.value().0, p.punct().map(|t| t.0))).collect::<Vec<_>>(), want, "pairs after {how}");
    ck_eq!(s.pairs_mut().map(|p| (p.value().0, p.punct().map(|t| t.0))).collect::<Vec<_>>(), want, "pairs_mut after {how}");
    ck_eq!(s.clone().into_pairs().map(split).collect::<Vec<_>>(), want, "into_pairs after {how}");
    ck_eq!(s.clone().into_inner().into_pairs().map(split).collect::<Vec<_>>(), want, "into_inner after {how}");
    ck_eq!(SP::from(s.clone()).into_pairs().map(split).collect::<Vec<_>>(), want, "into syn after {how}");
    let r: &SP<Item, Tag> = s.as_ref();
    ck_eq!(r.pairs().map(|p| p.value().0).collect::<Vec<_>>(), items, "as_ref after {how}");
    let r: &SP<Item, Tag> = (&*s).borrow();
    ck_eq!(r.len(), n, "borrow after {how}");
    ck!(!s.trailing_punct() && !s.is_empty(), "empty or trailing after {how}");
    let (f, rest) = s.clone().into_first_rest();
    ck_eq!(f.0, m.first, "first of into_first_rest after {how}");
    ck_eq!(rest.into_iter().map(|(a, b)| (a.0, b.0)).collect::<Vec<_>>(), m.rest, "rest of into_first_rest after {how}");
    let (l, rest) = s.clone().into_last_rest();
    ck_eq!(l.0, items[n - 1], "last of into_last_rest after {how}");
    ck_eq!(
        rest.into_iter().map(|(a, b)| (a.0, b.0)).collect::<Vec<_>>(),
        (0..n - 1).map(|i| (items[i], seps[i])).collect::<Vec<_>>(),
        "rest of into_last_rest after {how}"
    );
    let back = S::try_from(s.clone().into_inner()).map_err(|e| format!("try_from(into_inner) after {how}: {e}"))?;
    ck!(back == *s && !(back != *s), "try_from(into_inner) is not the same after {how}");
    let mut text = vec![];
    for i in 0..n {
        if i > 0 {
            text.push(Tag::text(seps[i - 1]));
        }
        text.push(Item::text(items[i]));
    }
    let got = vh::tok::canon_of(&vh::tok::toks(s.to_token_stream()), false).join(" ");
    let want = vh::tok::canon_of(&vh::tok::lex(&text.join(" ")).unwrap().1, false).join(" ");
    ck_eq!(got, want, "printed tokens after {how}");
    Ok(())
}

/// a value equal to the model, by one of the ways to make one
fn build(ch: &mut Ch, m: &Model) -> Result<S, String> {
    let items = m.items();
    let seps = m.seps();
    match ch.below(3) {
        0 => {
            let mut p = SP::new();
            for (i, x) in items.iter().enumerate() {
                p.push_value(Item(*x));
                if i < seps.len() {
                    p.push_punct(Tag(seps[i]));
                }
            }
            S::try_from(p).map_err(|e| format!("try_from: {e}"))
        }
        1 => {
            let mut t = vec![];
            for i in 0..items.len() {
                if i > 0 {
                    t.push(Tag::text(seps[i - 1]));
                }
                t.push(Item::text(items[i]));
            }
            let t = t.join(" ");
            if ch.flag() { t.parse().map_err(|e| format!("from_str: {e}")) } else { parse_str(&t).map_err(|e| format!("parse_str: {e}")) }
        }
        _ => {
            let mut p = SP::new();
            p.push_value(Item(items[0]));
            let mut s = S::try_from(p).map_err(|e| format!("try_from: {e}"))?;
            s.extend(m.rest.iter().map(|(a, b)| (Tag(*a), Item(*b))));
            Ok(s)
        }
    }
}

/// Ways into the list inside that a separated sequence must not offer, since they could empty it or leave
/// a separator at the end: where the crate does not implement them, these are not called.
#[allow(dead_code)]
mod doors {
    use super::*;
    pub struct W<T>(pub T);
    macro_rules! door {
        ($m:ident, $yes:ident, $no:ident, [$($b:tt)*], |$s:ident, $k:ident| $e:expr) => {
            pub trait $no {
                fn $m(&mut self, _: u32) -> bool {
                    false
                }
            }
            pub trait $yes {
                fn $m(&mut self, k: u32) -> bool;
            }
            impl<T> $no for &mut W<T> {}
            impl<T: $($b)*> $yes for W<T> {
                fn $m(&mut self, $k: u32) -> bool {
                    let $s = &mut self.0;
                    $e;
                    true
                }
            }
        };
    }
    fn upset(p: &mut SP<Item, Tag>, k: u32) {
        match k % 4 {
            0 => p.clear(),
            1 => p.push_punct(Tag(k)),
            2 => {
                p.pop_punct();
                while p.pop().is_some() {}
            }
            _ => {
                p.pop();
            }
        }
    }
    door!(deref_mut, DerefYes, DerefNo, [std::ops::DerefMut<Target = SP<Item, Tag>>], |s, k| upset(s, k));
    door!(as_mut, AsYes, AsNo, [AsMut<SP<Item, Tag>>], |s, k| upset(s.as_mut(), k));
    door!(borrow_mut, BorrowYes, BorrowNo, [std::borrow::BorrowMut<SP<Item, Tag>>], |s, k| upset(s.borrow_mut(), k));
    door!(default, DefYes, DefNo, [Default], |s, _k| *s = T::default());
    door!(collect, FromYes, FromNo, [std::iter::FromIterator<Item>], |s, k| *s = (0..k % 2).map(Item).collect());
    door!(collect_pairs, FromPairsYes, FromPairsNo, [std::iter::FromIterator<Pair<Item, Tag>>], |s, k| *s =
        (0..k % 3).map(|i| Pair::Punctuated(Item(i), Tag(i))).collect());
    door!(extend_pairs, ExtendYes, ExtendNo, [Extend<Pair<Item, Tag>>], |s, k| s.extend((0..1 + k % 3).map(|i| Pair::Punctuated(Item(i), Tag(i)))));
    door!(extend_seps, ExtendSepYes, ExtendSepNo, [Extend<(Item, Tag)>], |s, k| s.extend((0..1 + k % 3).map(|i| (Item(i), Tag(i)))));
    /// tries one of them
    pub fn knock(s: &mut S, k: u32, which: u32) -> (bool, &'static str) {
        let mut w = W(s.clone());
        let r = match which {
            0 => ((&mut w).deref_mut(k), "DerefMut"),
            1 => ((&mut w).as_mut(k), "AsMut"),
            2 => ((&mut w).borrow_mut(k), "BorrowMut"),
            3 => ((&mut w).default(k), "Default"),
            4 => ((&mut w).collect(k), "FromIterator<T>"),
            5 => ((&mut w).collect_pairs(k), "FromIterator<Pair>"),
            6 => ((&mut w).extend_pairs(k), "Extend<Pair>"),
            _ => ((&mut w).extend_seps(k), "Extend<(T, P)>"),
        };
        *s = w.0;
        r
    }
    pub const ALL: u32 = 8;
}

fn history(ch: &mut Ch, ob: &mut Ob) -> R {
    let (n, ops) = (ch.size(200).max(1), ch.below(14));
    history_of(n, ops, ch, ob)
}

/// lengths around powers of two, up to beyond 16 bits
fn long_history(ch: &mut Ch, ob: &mut Ob) -> R {
    let k = match ch.below(16) {
        0 => ch.range(15, 17),
        1..=9 => ch.range(5, 10),
        _ => ch.range(8, 13),
    };
    let n = ((1usize << k) + ch.idx(4)).saturating_sub(2);
    let ops = ch.below(4);
    history_of(n, ops, ch, ob)
}

fn history_of(n: usize, ops: u32, ch: &mut Ch, ob: &mut Ob) -> R {
    let items: Vec<u32> = (0..n as u32).map(|i| ch.below(1000) + i % 64_999).collect();
    let seps: Vec<u32> = (1..n as u32).map(|i| (ch.below(40) + i) % 40).collect();
    let mut m = Model::of(&items, &seps);
    let mut s = build(ch, &m)?;
    compare(&mut s, &m, "construction")?;
    let mut log = vec![format!("start {n}")];
    for _ in 0..ops {
        let v = ch.below(1000);
        let t = ch.below(40);
        let len = m.rest.len() + 1;
        let k = ch.below(19);
        log.push(format!("op{k}"));
        match k {
            0 => {
                s.push(Tag(t), Item(v));
                m.rest.push((t, v));
            }
            1 => {
                s.push_value(Item(v));
                m.rest.push((0, v));
            }
            2 | 3 => {
                let i = match ch.below(3) {
                    0 => 0,
                    1 => len,
                    _ => ch.idx(len + 1),
                };
                s.insert(i, Item(v));
                let (mut it, mut se) = (m.items(), m.seps());
                it.insert(i, v);
                se.insert(i.min(se.len()), 0);
                m = Model::of(&it, &se);
            }
            4 => {
                let k = ch.size(20);
                let it = (0..k as u32).map(|i| Item(v + i));
                // the size hint of an iterator need not say how many items there are
                match ch.below(4) {
                    0 => s.extend(it),
                    1 => s.extend(it.chain(std::iter::once(Item(u32::MAX))).filter(|x| x.0 != u32::MAX)),
                    2 => {
                        let mut it = it;
                        s.extend(std::iter::from_fn(|| it.next()))
                    }
                    _ => s.extend(it.collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().into_iter().rev()),
                }
                m.rest.extend((0..k as u32).map(|i| (0, v + i)));
            }
            5 => {
                let k = ch.size(20) as u32;
                let it = (0..k).map(|i| (Tag(t + i), Item(v + i)));
                match ch.below(3) {
                    0 => s.extend(it),
                    1 => s.extend(it.chain(std::iter::once((Tag(0), Item(u32::MAX)))).filter(|x| x.1 .0 != u32::MAX)),
                    _ => {
                        let mut it = it;
                        s.extend(std::iter::from_fn(|| it.next()))
                    }
                }
                m.rest.extend((0..k).map(|i| (t + i, v + i)));
            }
            6 => {
                let i = ch.idx(len);
                s[i] = Item(v);
                if i == 0 {
                    m.first = v
                } else {
                    m.rest[i - 1].1 = v
                }
            }
            7 => {
                s.first_mut().0 = v;
                m.first = v;
            }
            8 => {
                s.last_mut().0 = v;
                match m.rest.last_mut() {
                    Some(x) => x.1 = v,
                    None => m.first = v,
                }
            }
            9 => {
                for (i, x) in s.iter_mut().enumerate() {
                    x.0 += i as u32
                }
                for (i, x) in m.rest.iter_mut().enumerate() {
                    x.1 += i as u32 + 1
                }
            }
            10 => {
                for p in s.pairs_mut() {
                    if let Pair::Punctuated(x, p) = p {
                        x.0 += 3;
                        p.0 = (p.0 + t) % 40;
                    }
                }
                let k = m.rest.len();
                if k > 0 {
                    m.first += 3;
                }
                for (i, x) in m.rest.iter_mut().enumerate() {
                    x.0 = (x.0 + t) % 40;
                    if i + 1 < k {
                        x.1 += 3;
                    }
                }
            }
            11 => {
                // take apart and put together again
                let (f, r) = s.into_first_rest();
                let mut p = SP::new();
                p.push_value(f);
                s = S::try_from(p).map_err(|e| e.to_string())?;
                s.extend(r);
            }
            12 => {
                let (l, r) = s.into_last_rest();
                let mut p = SP::new();
                for (a, b) in r {
                    p.push_value(a);
                    p.push_punct(b);
                }
                p.push_value(l);
                s = S::try_from(p).map_err(|e| e.to_string())?;
            }
            13 => {
                s = s.to_string().parse().map_err(|e| format!("reparse of the display: {e}"))?;
            }
            14 => {
                let mut rev = SP::new();
                let mut ps: Vec<_> = s.into_pairs().map(|p| p.into_tuple()).collect();
                let se: Vec<Tag> = ps.iter_mut().filter_map(|p| p.1.take()).collect();
                let mut se = se.into_iter();
                for (a, _) in ps.into_iter().rev() {
                    rev.push_value(a);
                    if let Some(x) = se.next() {
                        rev.push_punct(x);
                    }
                }
                s = S::try_from(rev).map_err(|e| e.to_string())?;
                let (mut it, se) = (m.items(), m.seps());
                it.reverse();
                m = Model::of(&it, &se);
            }
            15 => {
                // an iterator that panics after some items: a prefix of them may have been added
                let c = ch.size(12) as u32;
                let with_seps = ch.flag();
                let items = (0..=c).map(move |i| if i == c { panic!("injected fault") } else { (Tag(t + i), Item(v + i)) });
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if with_seps { s.extend(items) } else { s.extend(items.map(|x| x.1)) }));
                ck!(r.is_err(), "extending swallowed the panic of the iterator");
                ck!(!s.is_empty() && !s.trailing_punct(), "empty or trailing after a panic while extending");
                let added = s.len().get().checked_sub(len).filter(|k| *k <= c as usize);
                ck!(added.is_some(), "{} items after a panic while extending {len} by {c}", s.len());
                for i in 0..added.unwrap() as u32 {
                    m.rest.push((if with_seps { t + i } else { 0 }, v + i));
                }
                ob.class("panicking iterator");
            }
            17 => {
                // not offered on this tree; where it is, the sequence has to stay a separated one
                let which = ch.below(doors::ALL);
                let before = s.clone();
                let (open, name) = doors::knock(&mut s, t, which);
                if open {
                    ob.class("other ways in");
                    ck!(!s.is_empty() && !s.trailing_punct(), "empty or trailing after {name}");
                    s = before;
                }
            }
            16 => {
                // out of range: refused, and nothing is changed
                let i = len + ch.size(5);
                let what = ch.below(3);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match what {
                    0 => s.insert(i + 1, Item(v)),
                    1 => s[i] = Item(v),
                    _ => drop(s[i].clone()),
                }));
                ck!(r.is_err(), "operation {what} at {i} of {len} items is accepted");
                ob.class("out of range");
            }
            _ => {
                for x in &mut s {
                    x.0 ^= 1;
                }
                m.first ^= 1;
                for x in &mut m.rest {
                    x.1 ^= 1;
                }
            }
        }
        compare(&mut s, &m, &log.last().cloned().unwrap())?;
    }
    let log = log.join(" ");
    ob.case(ops > 0 && m.rest.len() > 0, if m.rest.len() > 300 { format!("{log} -> {} items", m.rest.len() + 1) } else { format!("{log} -> {m:?}") });
    ob.class_if(m.rest.len() >= 100, "100+ items");
    Ok(())
}

/// conversion from a general list: any shape
fn convert(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = ch.size(60);
    let trailing = n > 0 && ch.flag();
    let mut p: SP<Item, Tag> = SP::new();
    for i in 0..n {
        p.push_value(Item(ch.below(1000)));
        if i + 1 < n || trailing {
            p.push_punct(Tag(ch.below(40)));
        }
    }
    ob.case(true, format!("{n} {trailing} {}", p.to_token_stream()));
    let through = ch.flag();
    let r = if through { S::try_from(SP::from(Punctuated::from(p.clone()))) } else { S::try_from(p.clone()) };
    ck_eq!(r.is_ok(), n > 0 && !trailing, "conversion of {n} items, trailing separator: {trailing}");
    match r {
        Ok(s) => {
            ob.class("converted");
            ck_eq!(
                s.into_pairs().map(split).collect::<Vec<_>>(),
                p.into_pairs().map(split).collect::<Vec<_>>(),
                "pairs of the conversion"
            );
        }
        Err(e) => {
            ob.class("refused");
            ck!(!e.to_string().is_empty(), "no message");
        }
    }
    Ok(())
}

/// parsing never yields an empty sequence or a trailing separator
fn parsing(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = ch.size(60);
    let mut t = vec![];
    let mut ok = true;
    let mut item_next = true;
    let broken = ch.flag();
    for _ in 0..2 * n {
        if item_next {
            t.push(Item::text(ch.below(100)));
        } else {
            t.push(Tag::text(ch.below(40)));
        }
        item_next = !item_next;
        if broken && ch.chance(1, 12) {
            item_next = !item_next;
            ok = false;
        }
    }
    // an odd number of alternating tokens, starting and ending with an item
    if ok && t.len() % 2 == 0 {
        if ch.flag() && !t.is_empty() {
            t.pop();
        } else {
            ok = false
        }
    }
    let src = t.join(" ");
    ob.case(n > 0, src.clone());
    let toks: Vec<bool> = t.iter().map(|x| x.starts_with(|c: char| c.is_ascii_digit())).collect();
    let want = !toks.is_empty() && toks.len() % 2 == 1 && toks.iter().enumerate().all(|(i, x)| *x == (i % 2 == 0));
    let _ = ok;
    match src.parse::<S>() {
        Ok(mut s) => {
            ob.class("accepted");
            ck!(want, "accepted {src:?}");
            let items: Vec<u32> = t.iter().step_by(2).map(|x| x.parse().unwrap()).collect();
            let seps: Vec<u32> = t.iter().skip(1).step_by(2).map(|x| Tag::read(x)).collect();
            compare(&mut s, &Model::of(&items, &seps), "parsing")?;
        }
        Err(_) => {
            ob.class("rejected");
            ck!(!want, "rejected {src:?}");
        }
    }
    Ok(())
}

fn main() {
    vh::run::main(Prop {
        id: "C07",
        rule: "histories: at least one operation and two items at the end; conversions: all; parsing: at least one token; distinct = different histories and contents",
        subs: vec![
            sub("histories", 40_000, 2_000_000, (0, 120), history),
            sub("long histories", 240, 6_000, (6, 60), long_history),
            sub("conversions", 40_000, 2_000_000, (0, 80), convert),
            sub("parsing", 40_000, 2_000_000, (0, 120), parsing),
        ],
        probe: None,
        assumptions: vec![],
    })
}
