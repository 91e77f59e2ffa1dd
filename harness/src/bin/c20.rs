//! C20: the sequence wrappers against plain lists, over histories of operations.
#[allow(dead_code)]
#[path = "../common/tag.rs"]
mod tag;
use parsel::ast::*;
use parsel::{parse2, parse_str, ToTokens};
use std::borrow::{Borrow, BorrowMut};
use std::fmt::Write as _;
use syn::punctuated::{Pair, Punctuated as SP};
use tag::{Item, Tag};
use vh::run::*;
use vh::tok::{canon_of, lex, toks};
use vh::{ck, ck_eq, Ch};

type A = Any<Item>;
type S = Punctuated<Item, Tag>;

fn ends<I, X>(mut it: I, want: &[u32], f: impl Fn(X) -> u32, ch: &mut Ch, how: &str) -> R
where
    I: DoubleEndedIterator<Item = X> + ExactSizeIterator,
{
    let (mut lo, mut hi) = (0, want.len());
    while lo < hi {
        ck_eq!(it.len(), hi - lo, "{how}: length with {lo} taken from the front of {}", want.len());
        ck_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "{how}: size hint");
        match ch.below(4) {
            0 => {
                ck_eq!(it.next().map(&f), Some(want[lo]), "{how}: item {lo}");
                lo += 1;
            }
            1 => {
                hi -= 1;
                ck_eq!(it.next_back().map(&f), Some(want[hi]), "{how}: item {hi} from the back");
            }
            2 => {
                let k = ch.idx(hi - lo);
                ck_eq!(it.nth(k).map(&f), Some(want[lo + k]), "{how}: nth({k})");
                lo += k + 1;
            }
            _ => {
                // the rest at once
                ck_eq!(it.map(&f).collect::<Vec<_>>(), want[lo..hi], "{how}: from {lo} to {hi}");
                return Ok(());
            }
        }
    }
    ck!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "{how}: more than {} items", want.len());
    Ok(())
}

fn nums(v: &[Item]) -> Vec<u32> {
    v.iter().map(|x| x.0).collect()
}

fn printed(t: &(impl ToTokens + std::fmt::Display), want: &str, how: &str) -> R {
    let want = canon_of(&lex(want).unwrap().1, false);
    let out = t.to_token_stream();
    ck_eq!(canon_of(&toks(out.clone()), false), want, "printed tokens after {how}");
    let mut more = parsel::quote::quote!(before);
    t.to_tokens(&mut more);
    ck_eq!(canon_of(&toks(more), false)[1..], want[..], "tokens appended to others after {how}");
    for s in [t.to_string(), format!("{t:#}"), out.to_string()] {
        let Some((_, k)) = lex(&s) else { return Err(format!("{s:?} does not lex")) };
        ck_eq!(canon_of(&k, false), want, "display {s:?} after {how}");
    }
    Ok(())
}

fn compare_any(a: &mut A, m: &Vec<u32>, ch: &mut Ch, how: &str) -> R {
    let n = m.len();
    ck_eq!((a.len(), a.is_empty()), (n, n == 0), "len and is_empty after {how}");
    ck_eq!(nums(a), *m, "contents (deref) after {how}");
    let s: &[Item] = a.as_ref();
    ck_eq!(nums(s), *m, "as_ref slice after {how}");
    let s: &Vec<Item> = a.as_ref();
    ck_eq!(nums(s), *m, "as_ref vec after {how}");
    let s: &[Item] = (&*a).borrow();
    ck_eq!(nums(s), *m, "borrow slice after {how}");
    let s: &Vec<Item> = (&*a).borrow();
    ck_eq!(nums(s), *m, "borrow vec after {how}");
    let s: &mut [Item] = a.as_mut();
    ck_eq!(nums(s), *m, "as_mut slice after {how}");
    let s: &mut Vec<Item> = a.as_mut();
    ck_eq!(nums(s), *m, "as_mut vec after {how}");
    let s: &mut [Item] = (&mut *a).borrow_mut();
    ck_eq!(nums(s), *m, "borrow_mut slice after {how}");
    let s: &mut Vec<Item> = (&mut *a).borrow_mut();
    ck_eq!(nums(s), *m, "borrow_mut vec after {how}");
    match ch.below(6) {
        0 => ends(a.iter(), m, |x| x.0, ch, "iter")?,
        1 => ends(a.iter_mut(), m, |x| x.0, ch, "iter_mut")?,
        2 => ends((&*a).into_iter(), m, |x| x.0, ch, "&into_iter")?,
        3 => ends((&mut *a).into_iter(), m, |x| x.0, ch, "&mut into_iter")?,
        4 => ends(a.clone().into_iter(), m, |x| x.0, ch, "into_iter")?,
        _ => {
            ck_eq!(nums(&a.clone().into_inner()), *m, "into_inner after {how}");
            ck_eq!(nums(&Vec::from(a.clone())), *m, "into vec after {how}");
        }
    }
    let i = ch.idx(n + 3);
    ck_eq!(a.get(i).map(|x| x.0), m.get(i).copied(), "get({i}) after {how}");
    ck_eq!(a.get_mut(i).map(|x| x.0), m.get(i).copied(), "get_mut({i}) after {how}");
    let lo = ch.idx(n + 2);
    let hi = ch.idx(n + 2);
    ck_eq!(a.get(lo..hi).map(nums), m.get(lo..hi).map(|x| x.to_vec()), "get({lo}..{hi}) after {how}");
    ck_eq!(a.get_mut(..=hi).map(|x| nums(x)), m.get(..=hi).map(|x| x.to_vec()), "get_mut(..={hi}) after {how}");
    if i < n {
        ck_eq!(a[i].0, m[i], "index {i} after {how}");
        ck_eq!(nums(&a[i..]), m[i..], "index {i}.. after {how}");
        ck_eq!(nums(&a[..i]), m[..i], "index ..{i} after {how}");
        ck_eq!(nums(&a[..=i]), m[..=i], "index ..={i} after {how}");
    }
    if lo <= hi && hi <= n {
        ck_eq!(nums(&a[lo..hi]), m[lo..hi], "index {lo}..{hi} after {how}");
        ck_eq!(nums(&mut a[lo..hi]), m[lo..hi], "index_mut {lo}..{hi} after {how}");
    }
    ck_eq!(nums(&a[..]), *m, "index .. after {how}");
    let plain: Vec<Item> = m.iter().map(|x| Item(*x)).collect();
    ck_eq!(format!("{a:?}"), format!("{plain:?}"), "debug after {how}");
    ck_eq!(format!("{a:#?}"), format!("{plain:#?}"), "alternate debug after {how}");
    let other = A::from(plain);
    ck!(*a == other && !(*a != other), "not equal to a fresh one with the same contents after {how}");
    if n > 0 {
        let mut shorter = other.clone();
        shorter.pop();
        ck!(*a != shorter, "equal to its own prefix after {how}");
        let mut changed = other;
        changed[i % n].0 ^= 1;
        ck!(*a != changed, "equal to a different one after {how}");
    }
    printed(a, &m.iter().map(|x| Item::text(*x)).collect::<Vec<_>>().join(" "), how)
}

/// runs something that has to panic
fn refused(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

/// yields the items and then panics
fn faulty<T>(v: Vec<T>) -> impl Iterator<Item = T> {
    let mut v = v.into_iter();
    std::iter::from_fn(move || Some(v.next().unwrap_or_else(|| panic!("injected fault"))))
}

/// iterators that tell nothing, or too little, about their length
fn shy<T: 'static>(v: Vec<T>, kind: u32) -> Box<dyn Iterator<Item = T>> {
    match kind {
        0 => Box::new(v.into_iter()),
        1 => Box::new(v.into_iter().filter(|_| true)),
        2 => {
            let mut i = v.into_iter();
            Box::new(std::iter::from_fn(move || i.next()))
        }
        3 => {
            let mut v = v;
            let r = v.split_off(v.len() / 2);
            Box::new(v.into_iter().chain(r))
        }
        // no more than any number of items
        4 => Box::new(Loose(v.into_iter(), usize::MAX)),
        _ => Box::new(Loose(v.into_iter(), usize::MAX / 2 + 1)),
    }
}

/// an iterator with a lawful upper bound that says nothing
struct Loose<I>(I, usize);

impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.1))
    }
}

fn any(ch: &mut Ch, ob: &mut Ob) -> R {
    let (n, ops) = (ch.size(200), ch.below(12));
    any_of(n, ops, ch, ob)
}

/// lengths around powers of two, up to beyond 16 bits
fn many(ch: &mut Ch) -> usize {
    let k = match ch.below(16) {
        0 => ch.range(15, 17),
        1..=9 => ch.range(5, 10),
        _ => ch.range(8, 13),
    };
    ((1usize << k) + ch.idx(4)).saturating_sub(2)
}

fn long_any(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = many(ch);
    let ops = ch.below(4);
    any_of(n, ops, ch, ob)
}

fn any_of(n: usize, ops: u32, ch: &mut Ch, ob: &mut Ob) -> R {
    let mut m: Vec<u32> = (0..n as u32).map(|i| ch.below(1000) + i % 64_999).collect();
    let items = |m: &[u32]| m.iter().map(|x| Item(*x)).collect::<Vec<_>>();
    let text = |m: &[u32]| m.iter().map(|x| Item::text(*x)).collect::<Vec<_>>().join(" ");
    let how = ch.below(7);
    let mut a: A = match how {
        0 => A::from(items(&m)),
        1 => shy(items(&m), ch.below(6)).collect(),
        2 => text(&m).parse().map_err(|e| format!("{e}"))?,
        3 => parse_str(&text(&m)).map_err(|e| format!("{e}"))?,
        4 => parse2(lex(&text(&m)).unwrap().0).map_err(|e| format!("{e}"))?,
        5 => {
            let mut a = A::new();
            a.extend(items(&m));
            a
        }
        _ => {
            let mut a = A::default();
            for x in &m {
                a.push(Item(*x))
            }
            a
        }
    };
    let mut log = format!("any/{how} {n}");
    compare_any(&mut a, &m, ch, "construction")?;
    for _ in 0..ops {
        let n = m.len();
        let v = ch.below(1000);
        let k = ch.below(20);
        let i = ch.idx(n + 1);
        let op = match k {
            0 => {
                a.push(Item(v));
                m.push(v);
                "push"
            }
            1 => {
                ck_eq!(a.pop().map(|x| x.0), m.pop(), "pop");
                "pop"
            }
            2 => {
                a.insert(i, Item(v));
                m.insert(i, v);
                "insert"
            }
            3 if i < n => {
                ck_eq!(a.remove(i).0, m.remove(i), "remove({i})");
                "remove"
            }
            4 => {
                let c = ch.size(20);
                let x: Vec<u32> = (0..c as u32).map(|j| v + j).collect();
                a.extend(shy(items(&x), ch.below(6)));
                m.extend(x);
                "extend"
            }
            5 if i < n => {
                a[i] = Item(v);
                m[i] = v;
                "index_mut"
            }
            6 => {
                for x in a.iter_mut() {
                    x.0 = x.0.wrapping_mul(3) % 1000
                }
                for x in &mut m {
                    *x = x.wrapping_mul(3) % 1000
                }
                "iter_mut"
            }
            7 => {
                for (j, x) in (&mut a).into_iter().enumerate() {
                    x.0 += j as u32
                }
                for (j, x) in m.iter_mut().enumerate() {
                    *x += j as u32
                }
                "&mut into_iter"
            }
            8 => {
                a.reverse();
                m.reverse();
                "reverse"
            }
            9 => {
                a.truncate(i);
                m.truncate(i);
                "truncate"
            }
            10 => {
                let s: &mut [Item] = a.as_mut();
                s.rotate_left(i);
                m.rotate_left(i);
                "as_mut rotate"
            }
            11 => {
                let s: &mut Vec<Item> = a.borrow_mut();
                s.retain(|x| x.0 % 3 != 0);
                m.retain(|x| x % 3 != 0);
                "borrow_mut retain"
            }
            12 => {
                for x in &mut a[i..] {
                    x.0 += 1
                }
                for x in &mut m[i..] {
                    *x += 1
                }
                "range index_mut"
            }
            13 => {
                if let Some(x) = a.get_mut(i) {
                    x.0 = v
                }
                if let Some(x) = m.get_mut(i) {
                    *x = v
                }
                "get_mut"
            }
            14 => {
                a = Vec::from(a).into_iter().rev().collect();
                m = m.into_iter().rev().collect();
                "through vec"
            }
            15 => {
                a = a.to_string().parse().map_err(|e| format!("reparse: {e}"))?;
                "display and parse"
            }
            16 => {
                let t = a.split_off(i);
                a = A::from(a.into_inner());
                a.extend(t);
                "split and extend"
            }
            17 => {
                let c = ch.size(12) as u32;
                let x: Vec<u32> = (0..c).map(|j| v + j).collect();
                ck!(refused(|| a.extend(faulty(items(&x)))), "extend swallowed the panic of the iterator");
                let k = a.len().checked_sub(n).filter(|k| *k <= x.len());
                ck!(k.is_some(), "{} items after a panic while extending {n} by {c}", a.len());
                m.extend(&x[..k.unwrap()]);
                "panicking extend"
            }
            18 => {
                let j = n + ch.size(4);
                match ch.below(4) {
                    0 => ck!(refused(|| a[j] = Item(v)), "index_mut {j} of {n} items"),
                    1 => ck!(refused(|| drop(a[j].clone())), "index {j} of {n} items"),
                    2 => ck!(refused(|| drop(a[i..j + 1].to_vec())), "index {i}..{} of {n} items", j + 1),
                    _ => ck!(refused(|| a[j + 1..].reverse()), "index_mut {}.. of {n} items", j + 1),
                }
                "out of range"
            }
            _ => {
                a = a.into_inner().into();
                a.sort_by_key(|x| x.0);
                m.sort();
                "sort"
            }
        };
        write!(log, " {op}").unwrap();
        compare_any(&mut a, &m, ch, op)?;
    }
    ob.case(ops > 0, if m.len() > 300 { format!("{log} -> {} items", m.len()) } else { format!("{log} -> {m:?}") });
    ob.class_if(m.len() >= 100, "100+ items");
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
struct M {
    v: Vec<(u32, Option<u32>)>,
}

impl M {
    fn items(&self) -> Vec<u32> {
        self.v.iter().map(|x| x.0).collect()
    }
    fn trailing(&self) -> bool {
        self.v.last().map_or(false, |x| x.1.is_some())
    }
    fn put(&mut self, x: u32) {
        if let Some(l) = self.v.last_mut() {
            l.1.get_or_insert(0);
        }
        self.v.push((x, None));
    }
}

fn split(p: Pair<Item, Tag>) -> (u32, Option<u32>) {
    let (a, b) = p.into_tuple();
    (a.0, b.map(|b| b.0))
}
fn split_ref(p: Pair<&Item, &Tag>) -> (u32, Option<u32>) {
    (p.value().0, p.punct().map(|t| t.0))
}
fn pairs(m: &[(u32, Option<u32>)]) -> Vec<Pair<Item, Tag>> {
    m.iter().map(|(a, b)| Pair::new(Item(*a), b.map(Tag))).collect()
}

fn compare_punct(s: &mut S, m: &M, ch: &mut Ch, how: &str) -> R {
    let n = m.v.len();
    let items = m.items();
    ck_eq!((s.len(), s.is_empty()), (n, n == 0), "len and is_empty after {how}");
    ck_eq!(s.trailing_punct(), m.trailing(), "trailing separator after {how}");
    ck_eq!(s.pairs().map(split_ref).collect::<Vec<_>>(), m.v, "pairs after {how}");
    ck_eq!(s.iter().map(|x| x.0).collect::<Vec<_>>(), items, "iter after {how}");
    match ch.below(9) {
        0 => ends(s.iter(), &items, |x| x.0, ch, "iter")?,
        1 => ends(s.iter_mut(), &items, |x| x.0, ch, "iter_mut")?,
        2 => ends((&*s).into_iter(), &items, |x| x.0, ch, "&into_iter")?,
        3 => ends((&mut *s).into_iter(), &items, |x| x.0, ch, "&mut into_iter")?,
        4 => ends(s.clone().into_iter(), &items, |x| x.0, ch, "into_iter")?,
        5 => ends(s.pairs(), &items, |x| x.value().0, ch, "pairs")?,
        6 => ends(s.pairs_mut(), &items, |x| x.value().0, ch, "pairs_mut")?,
        7 => ends(s.clone().into_pairs(), &items, |x| x.into_value().0, ch, "into_pairs")?,
        _ => {
            ck_eq!(s.clone().into_pairs().map(split).collect::<Vec<_>>(), m.v, "into_pairs after {how}");
            ck_eq!(s.pairs_mut().map(|p| (p.value().0, p.punct().map(|t| t.0))).collect::<Vec<_>>(), m.v, "pairs_mut after {how}");
            ck_eq!(s.clone().into_inner().into_pairs().map(split).collect::<Vec<_>>(), m.v, "into_inner after {how}");
            ck_eq!(SP::from(s.clone()).into_pairs().map(split).collect::<Vec<_>>(), m.v, "into syn after {how}");
        }
    }
    let r: &SP<Item, Tag> = (*s).as_ref();
    ck_eq!(r.pairs().map(split_ref).collect::<Vec<_>>(), m.v, "as_ref after {how}");
    let r: &SP<Item, Tag> = (&*s).borrow();
    ck_eq!(r.pairs().map(split_ref).collect::<Vec<_>>(), m.v, "borrow after {how}");
    let r: &mut SP<Item, Tag> = s.as_mut();
    ck_eq!(r.pairs().map(split_ref).collect::<Vec<_>>(), m.v, "as_mut after {how}");
    let r: &mut SP<Item, Tag> = s.borrow_mut();
    ck_eq!(r.pairs().map(split_ref).collect::<Vec<_>>(), m.v, "borrow_mut after {how}");
    if n > 0 {
        let i = ch.idx(n);
        ck_eq!(s[i].0, items[i], "index {i} after {how}");
    }
    let plain: SP<Item, Tag> = pairs(&m.v).into_iter().collect();
    ck_eq!(format!("{s:?}"), format!("{plain:?}"), "debug after {how}");
    ck_eq!(format!("{s:#?}"), format!("{plain:#?}"), "alternate debug after {how}");
    let other = S::from(plain);
    ck!(*s == other && !(*s != other), "not equal to a fresh one with the same contents after {how}");
    if n > 0 {
        let mut changed = m.clone();
        let i = ch.idx(n);
        match changed.v[i].1.as_mut() {
            Some(t) if ch.flag() => *t ^= 1,
            _ => changed.v[i].0 ^= 1,
        }
        ck!(*s != pairs(&changed.v).into_iter().collect::<S>(), "equal to a different one after {how}");
        let mut changed = m.clone();
        let l = changed.v.last_mut().unwrap();
        l.1 = if l.1.is_some() { None } else { Some(0) };
        ck!(*s != pairs(&changed.v).into_iter().collect::<S>(), "equal to one with another trailing separator after {how}");
    }
    let text: Vec<String> = m.v.iter().flat_map(|(a, b)| std::iter::once(Item::text(*a)).chain(b.map(Tag::text))).collect();
    printed(s, &text.join(" "), how)
}

fn punctuated(ch: &mut Ch, ob: &mut Ob) -> R {
    let (n, ops) = (ch.size(120), ch.below(12));
    punctuated_of(n, ops, ch, ob)
}

fn long_punctuated(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = many(ch);
    let ops = ch.below(4);
    punctuated_of(n, ops, ch, ob)
}

fn punctuated_of(n: usize, ops: u32, ch: &mut Ch, ob: &mut Ob) -> R {
    let how = ch.below(7);
    let trailing = n > 0 && ch.flag();
    let mut m = M { v: (0..n).map(|i| (ch.below(1000) + i as u32 % 64_999, (i + 1 < n || trailing).then(|| (ch.below(40) + i as u32) % 40))).collect() };
    let text = |m: &M| m.v.iter().flat_map(|(a, b)| std::iter::once(Item::text(*a)).chain(b.map(Tag::text))).collect::<Vec<_>>().join(" ");
    let mut s: S = match how {
        0 => shy(pairs(&m.v), ch.below(6)).collect(),
        1 => text(&m).parse().map_err(|e| format!("{e}"))?,
        2 => parse2(lex(&text(&m)).unwrap().0).map_err(|e| format!("{e}"))?,
        3 => {
            // default separators
            let items = m.items();
            m = M { v: vec![] };
            for x in &items {
                m.put(*x)
            }
            shy(items.into_iter().map(Item).collect(), ch.below(6)).collect()
        }
        4 => S::from(pairs(&m.v).into_iter().collect::<SP<_, _>>()),
        5 => {
            let mut s = S::default();
            s.extend(pairs(&m.v));
            s
        }
        _ => {
            let mut s = S::new();
            for (a, b) in &m.v {
                s.push_value(Item(*a));
                if let Some(b) = b {
                    s.push_punct(Tag(*b))
                }
            }
            s
        }
    };
    let mut log = format!("punctuated/{how} {n}");
    compare_punct(&mut s, &m, ch, "construction")?;
    for _ in 0..ops {
        let n = m.v.len();
        let v = ch.below(1000);
        let t = ch.below(40);
        let i = ch.idx(n + 1);
        let op = match ch.below(21) {
            0 => {
                s.push(Item(v));
                m.put(v);
                "push"
            }
            1 if n == 0 || m.trailing() => {
                s.push_value(Item(v));
                m.v.push((v, None));
                "push_value"
            }
            1 | 2 if n > 0 && !m.trailing() => {
                s.push_punct(Tag(t));
                m.v.last_mut().unwrap().1 = Some(t);
                "push_punct"
            }
            3 => {
                ck_eq!(s.pop().map(split), m.v.pop(), "pop");
                "pop"
            }
            4 => {
                ck_eq!(s.pop_punct().map(|t| t.0), m.v.last_mut().and_then(|l| l.1.take()), "pop_punct");
                "pop_punct"
            }
            5 | 6 => {
                s.insert(i, Item(v));
                if i == n {
                    m.put(v)
                } else {
                    m.v.insert(i, (v, Some(0)))
                }
                "insert"
            }
            7 | 8 => {
                let c = ch.size(20);
                let x: Vec<u32> = (0..c as u32).map(|j| v + j).collect();
                s.extend(shy(x.iter().map(|x| Item(*x)).collect(), ch.below(6)));
                for x in x {
                    m.put(x)
                }
                "extend with items"
            }
            9 | 10 => {
                let c = ch.size(20);
                let end = ch.flag();
                let x: Vec<(u32, Option<u32>)> = (0..c).map(|j| (v + j as u32, (j + 1 < c || end).then_some(t))).collect();
                s.extend(shy(pairs(&x), ch.below(6)));
                if c > 0 {
                    if let Some(l) = m.v.last_mut() {
                        l.1.get_or_insert(0);
                    }
                }
                m.v.extend(x);
                "extend with pairs"
            }
            11 if i < n => {
                s[i] = Item(v);
                m.v[i].0 = v;
                "index_mut"
            }
            12 => {
                for (j, x) in s.iter_mut().enumerate() {
                    x.0 += j as u32
                }
                for (j, x) in m.v.iter_mut().enumerate() {
                    x.0 += j as u32
                }
                "iter_mut"
            }
            13 => {
                for x in &mut s {
                    x.0 ^= 1
                }
                for x in &mut m.v {
                    x.0 ^= 1
                }
                "&mut into_iter"
            }
            14 => {
                for p in s.pairs_mut() {
                    if let Pair::Punctuated(x, p) = p {
                        x.0 += 2;
                        p.0 = (p.0 + t) % 40;
                    }
                }
                for x in m.v.iter_mut() {
                    if let Some(p) = &mut x.1 {
                        *p = (*p + t) % 40;
                        x.0 += 2;
                    }
                }
                "pairs_mut"
            }
            15 => {
                s = s.to_string().parse().map_err(|e| format!("reparse: {e}"))?;
                "display and parse"
            }
            16 => {
                let b: &mut SP<Item, Tag> = if ch.flag() { s.as_mut() } else { s.borrow_mut() };
                b.push(Item(v));
                m.put(v);
                "push through the inner list"
            }
            18 => {
                let c = ch.size(12);
                let x: Vec<(u32, Option<u32>)> = (0..c).map(|j| (v + j as u32, Some(t))).collect();
                let with_seps = ch.flag();
                let r = refused(|| if with_seps { s.extend(faulty(pairs(&x))) } else { s.extend(faulty(x.iter().map(|x| Item(x.0)).collect())) });
                ck!(r, "extend swallowed the panic of the iterator");
                let k = s.len().checked_sub(n).filter(|k| *k <= c);
                ck!(k.is_some(), "{} items after a panic while extending {n} by {c}", s.len());
                let k = k.unwrap();
                for (j, y) in x[..k].iter().enumerate() {
                    m.put(y.0);
                    if with_seps && j + 1 < k {
                        m.v.last_mut().unwrap().1 = y.1;
                    }
                }
                // there may be a separator in the end already, since an item was to follow
                if let Some(l) = m.v.last_mut() {
                    let now = s.pairs().last().unwrap().punct().map(|t| t.0);
                    if now != l.1 {
                        ck!(l.1.is_none() && now == Some(if with_seps && k > 0 { t } else { 0 }), "separator {now:?} after a panic while extending");
                        l.1 = now;
                    }
                }
                "panicking extend"
            }
            19 => {
                let j = n + ch.size(4);
                if ch.flag() {
                    ck!(refused(|| s[j] = Item(v)), "index_mut {j} of {n} items");
                } else {
                    ck!(refused(|| drop(s[j].clone())), "index {j} of {n} items");
                }
                "out of range"
            }
            17 => {
                s = s.into_pairs().collect();
                "pairs and collect"
            }
            _ => {
                s = s.into_iter().rev().collect();
                let items = m.items();
                m = M { v: vec![] };
                for x in items.into_iter().rev() {
                    m.put(x)
                }
                "reverse and collect"
            }
        };
        write!(log, " {op}").unwrap();
        compare_punct(&mut s, &m, ch, op)?;
    }
    ob.case(ops > 0, if m.v.len() > 300 { format!("{log} -> {} items", m.v.len()) } else { format!("{log} -> {:?}", m.v) });
    ob.class_if(m.v.len() >= 100, "100+ items");
    ob.class_if(m.trailing(), "ends in a separator");
    Ok(())
}

fn main() {
    vh::run::main(Prop {
        id: "C20",
        rule: "at least one operation after the construction; distinct = different histories and final contents",
        subs: vec![
            sub("zero or more", 60_000, 2_000_000, (0, 160), any),
            sub("punctuated", 60_000, 2_000_000, (0, 160), punctuated),
            sub("long zero or more", 240, 6_000, (6, 60), long_any),
            sub("long punctuated", 240, 6_000, (6, 60), long_punctuated),
        ],
        probe: None,
        assumptions: vec!["a pair without a separator is followed by no other pair (as the underlying list demands)"],
    })
}
