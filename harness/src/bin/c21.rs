//! C21: the two-way choice as a tagged union, as an iterator and as a production.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use parsel::{Error, Parse, Result as PR, ToTokens};
use std::collections::{BTreeSet, VecDeque};
use std::fmt::{Debug, Display};
use std::iter::FusedIterator;
use std::ops::{Deref, DerefMut};
use syn::parse::{ParseStream, Parser};
use types::*;
use vh::engine::*;
use vh::gen::{render, Gen, Piece};
use vh::node::{fuel, Node};
use vh::run::*;
use vh::tok::{canon_of, lex, toks, Sp};
use vh::{ck, ck_eq, lits, Ch};

type E = Either<u32, String>;

/// the tagged union it has to be
#[derive(Clone, PartialEq, Debug)]
enum U {
    L(u32),
    R(String),
}

fn both(ch: &mut Ch) -> (E, U) {
    if ch.flag() {
        let s = lits::string(ch, 6);
        (Either::Right(s.clone()), U::R(s))
    } else {
        let n = ch.raw();
        (Either::Left(n), U::L(n))
    }
}
fn is(e: &E, u: &U) -> bool {
    match (e, u) {
        (Either::Left(a), U::L(b)) => a == b,
        (Either::Right(a), U::R(b)) => a == b,
        _ => false,
    }
}

fn union(ch: &mut Ch, ob: &mut Ob) -> R {
    let (mut e, mut u) = both(ch);
    let (o, p) = both(ch);
    let mut log = format!("{u:?} {p:?}");
    ck_eq!(e == o, u == p, "equality of {u:?} and {p:?}");
    ck_eq!(e != o, u != p, "inequality of {u:?} and {p:?}");
    let ops = 1 + ch.below(8);
    for _ in 0..ops {
        let k = ch.below(12);
        let v = ch.below(1000);
        log += &format!(" {k}");
        // tests and projections
        let l = matches!(u, U::L(_));
        ck_eq!((e.is_left(), e.is_right()), (l, !l), "is_left and is_right of {u:?}");
        let (want_l, want_r) = match &u {
            U::L(x) => (Some(*x), None),
            U::R(s) => (None, Some(s.clone())),
        };
        ck_eq!(e.clone().left(), want_l, "left of {u:?}");
        ck_eq!(e.clone().right(), want_r, "right of {u:?}");
        ck_eq!(e.as_ref().left(), want_l.as_ref(), "as_ref left of {u:?}");
        ck_eq!(e.as_ref().right(), want_r.as_ref(), "as_ref right of {u:?}");
        ck_eq!(e.as_mut().left().map(|x| *x), want_l, "as_mut left of {u:?}");
        ck_eq!(e.as_mut().right().map(|x| x.clone()), want_r, "as_mut right of {u:?}");
        match &u {
            U::L(x) => {
                ck_eq!(format!("{e} {e:>9} {e:<3}"), format!("{x} {x:>9} {x:<3}"), "display");
                ck_eq!(format!("{e:?} {e:#?}"), format!("{x:?} {x:#?}"), "debug");
            }
            U::R(x) => {
                ck_eq!(format!("{e} {e:>9.2} {e:<3}"), format!("{x} {x:>9.2} {x:<3}"), "display");
                ck_eq!(format!("{e:?} {e:#?}"), format!("{x:?} {x:#?}"), "debug");
            }
        }
        match k {
            0 => {
                let f: Either<String, u32> = e.clone().flip();
                ck_eq!((f.is_left(), f.is_right()), (!l, l), "side of the flip of {u:?}");
                ck_eq!((f.as_ref().right(), f.as_ref().left()), (want_l.as_ref(), want_r.as_ref()), "flip of {u:?}");
                e = f.flip();
            }
            1 => {
                let (mut cl, mut cr) = (0, 0);
                e = e.map(
                    |x| {
                        cl += 1;
                        x.wrapping_add(v)
                    },
                    |s| {
                        cr += 1;
                        format!("{s}{v}")
                    },
                );
                ck_eq!((cl, cr), (l as i32, !l as i32), "calls made by map on {u:?}");
                u = match u {
                    U::L(x) => U::L(x.wrapping_add(v)),
                    U::R(s) => U::R(format!("{s}{v}")),
                };
            }
            2 => {
                // onto other types
                let m: Either<String, usize> = e.clone().map(|x| x.to_string(), |s| s.len());
                match (&u, &m) {
                    (U::L(x), Either::Left(s)) => ck_eq!(*s, x.to_string(), "map"),
                    (U::R(s), Either::Right(n)) => ck_eq!(*n, s.len(), "map"),
                    _ => return Err(format!("map changes the side of {u:?}")),
                }
            }
            3 => {
                match e.as_mut() {
                    Either::Left(x) => *x = v,
                    Either::Right(s) => s.push('x'),
                }
                match &mut u {
                    U::L(x) => *x = v,
                    U::R(s) => s.push('x'),
                }
            }
            4 => {
                // options
                let some = ch.flag();
                let o: Either<Option<u32>, Option<String>> = e.clone().map(|x| some.then_some(x), |s| some.then_some(s));
                ck_eq!(o.transpose(), some.then(|| e.clone()), "transpose of an option in {u:?}");
            }
            5 => {
                // results
                let fail = ch.flag();
                let msg = lits::string(ch, 8) + "!";
                let spans = vh::tok::some_spans();
                let sp = *ch.pick(&spans);
                let r: Either<PR<u32>, PR<String>> = e.clone().map(
                    |x| if fail { Err(Error::new(sp, &msg)) } else { Ok(x) },
                    |s| if fail { Err(Error::new(sp, &msg)) } else { Ok(s) },
                );
                match r.transpose() {
                    Ok(x) => ck!(!fail && x == e, "transpose of an ok result in {u:?}"),
                    Err(x) => ck!(fail && x.to_string() == msg && Sp::of(x.span()) == Sp::of(sp), "transpose of an error in {u:?}: {x}"),
                }
            }
            6 | 7 => {
                // both sides of one type
                let mut t: Either<String, String> = e.clone().map(|x| x.to_string(), |s| s);
                let mut want = match &u {
                    U::L(x) => x.to_string(),
                    U::R(s) => s.clone(),
                };
                let r: &String = AsRef::<String>::as_ref(&t);
                ck_eq!(*r, want, "as_ref");
                ck_eq!(*t, want, "deref");
                ck_eq!(t.deref().len(), want.len(), "deref");
                match ch.below(3) {
                    0 => t.push_str("yz"),
                    1 => AsMut::<String>::as_mut(&mut t).push_str("yz"),
                    _ => t.deref_mut().push_str("yz"),
                }
                want.push_str("yz");
                ck_eq!(t.is_left(), l, "side after a mutation");
                ck_eq!(*t, want, "deref after a mutation");
                ck_eq!(t.to_string(), want, "display");
                ck_eq!(t.clone().flip().into_inner(), want, "into_inner of the flip");
                ck_eq!(t.clone().into_inner(), want, "into_inner");
                let bytes: Vec<u8> = Iterator::map(t.map(|s| s.into_bytes(), |s| s.into_bytes()).into_iter(), Either::into_inner).collect();
                ck_eq!(bytes, want.into_bytes(), "into_iter");
            }
            8 => {
                let c = e.clone();
                ck!(c == e, "clone of {u:?}");
                e = c;
            }
            9 => {
                // extension of what is held
                let xs: Vec<char> = (0..ch.size(12)).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
                let mut t: Either<VecDeque<char>, String> = match &u {
                    U::L(x) => Either::Left(x.to_string().chars().collect()),
                    U::R(s) => Either::Right(s.clone()),
                };
                t.extend(xs.iter().copied().filter(|_| true));
                let want: String = match &u {
                    U::L(x) => x.to_string(),
                    U::R(s) => s.clone(),
                } + &xs.iter().collect::<String>();
                match (&t, l) {
                    (Either::Left(d), true) => ck_eq!(d.iter().collect::<String>(), want, "extension"),
                    (Either::Right(s), false) => ck_eq!(*s, want, "extension"),
                    _ => return Err("extension changes the side".into()),
                }
            }
            10 => {
                let (n, q) = both(ch);
                e = n;
                u = q;
            }
            _ => {
                // nesting and borrowed forms
                let b: Either<&u32, &str> = e.as_ref().map(|x| x, |s| s.as_str());
                let c = b;
                let d: Either<u32, String> = c.map(|x| *x, |s| s.to_string());
                ck!(is(&d, &u) && b == c, "borrowed and copied {u:?}");
            }
        }
        ck!(is(&e, &u), "{e:?} instead of {u:?} after operation {k}");
    }
    ob.case(true, log);
    Ok(())
}

/// An iterator with gaps (it goes on after None) and a loose size hint.
#[derive(Clone, Debug)]
struct Odd {
    front: VecDeque<Option<u32>>,
    hint: (usize, Option<usize>),
}
impl Iterator for Odd {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        self.front.pop_front().flatten()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
impl DoubleEndedIterator for Odd {
    fn next_back(&mut self) -> Option<u32> {
        self.front.pop_back().flatten()
    }
}

fn tag<T>(left: bool, x: T) -> Either<T, T> {
    if left {
        Either::Left(x)
    } else {
        Either::Right(x)
    }
}

/// two iterators, one bare, one held
fn walk<I>(bare: I, left: bool, exact: bool, fused: bool, ch: &mut Ch, ob: &mut Ob, what: &str) -> R
where
    I: DoubleEndedIterator<Item = u32> + Clone + Debug,
{
    let mut bare = bare;
    let mut held: Either<I, I> = tag(left, bare.clone());
    let steps = ch.size(40);
    let mut log = format!("{what} {left} {bare:?}:");
    let mut nones = 0;
    for _ in 0..steps {
        ck_eq!(held.size_hint(), bare.size_hint(), "size hint ({log})");
        let k = ch.below(8);
        log += &format!(" {k}");
        let (got, want) = match k {
            0 | 1 => (held.next(), bare.next()),
            2 | 3 => (held.next_back(), bare.next_back()),
            4 => {
                let n = if ch.chance(1, 30) { vh::lits::length(ch, 13) } else { ch.size(6) };
                log += &format!("({n})");
                (held.nth(n), bare.nth(n))
            }
            5 => {
                let n = if ch.chance(1, 30) { vh::lits::length(ch, 13) } else { ch.size(3) };
                log += &format!("({n})");
                (held.nth_back(n), bare.nth_back(n))
            }
            6 => {
                let n = ch.size(4);
                let a: Vec<_> = held.by_ref().take(n).map(Either::into_inner).collect();
                let b: Vec<_> = bare.by_ref().take(n).collect();
                ck_eq!(a, b, "take({n}) ({log})");
                continue;
            }
            _ => {
                let a = held.find(|x| **x % 3 == 0);
                (a, bare.find(|x| x % 3 == 0))
            }
        };
        nones += want.is_none() as u32;
        ck_eq!(got, want.map(|x| tag(left, x)), "step {k} ({log})");
        let inner = match &held {
            Either::Left(i) if left => i,
            Either::Right(i) if !left => i,
            _ => return Err(format!("the side changes ({log})")),
        };
        ck_eq!(inner.clone().collect::<Vec<_>>(), bare.clone().collect::<Vec<_>>(), "what is left ({log})");
        ck_eq!(inner.clone().rev().collect::<Vec<_>>(), bare.clone().rev().collect::<Vec<_>>(), "what is left, backwards ({log})");
        if fused && nones > 2 {
            break;
        }
    }
    let _ = exact;
    // what a method that takes the iterator leaves in one that was lent
    {
        let (mut a, mut b) = (bare.clone(), bare.clone());
        let lent: Either<&mut I, &mut I> = tag(left, &mut a);
        let t = |x: Option<u32>| x.map(|x| tag(left, x));
        let m = 2 + ch.below(3);
        let what = match ch.below(12) {
            0 => {
                ck_eq!(lent.count(), b.by_ref().count(), "count of a lent iterator ({log})");
                "count"
            }
            1 => {
                ck_eq!(lent.last(), t(b.by_ref().last()), "last of a lent iterator ({log})");
                "last"
            }
            2 => {
                ck_eq!(lent.size_hint(), b.by_ref().size_hint(), "size hint of a lent iterator ({log})");
                "nothing"
            }
            3 => {
                ck_eq!(Iterator::map(lent, Either::into_inner).collect::<Vec<_>>(), b.by_ref().collect::<Vec<_>>(), "collect of a lent iterator ({log})");
                "collect"
            }
            4 => {
                ck_eq!(Iterator::map(lent, Either::into_inner).partition::<Vec<_>, _>(|x| x % 2 == 0), b.by_ref().partition::<Vec<_>, _>(|x| x % 2 == 0), "partition of a lent iterator ({log})");
                "partition"
            }
            5 => {
                let mut lent = lent;
                ck_eq!(lent.any(|x| x.into_inner() % m == 0), b.by_ref().any(|x| x % m == 0), "any of a lent iterator ({log})");
                "any"
            }
            6 => {
                let mut lent = lent;
                ck_eq!(lent.all(|x| x.into_inner() % m != 1), b.by_ref().all(|x| x % m != 1), "all of a lent iterator ({log})");
                "all"
            }
            7 => {
                let mut lent = lent;
                ck_eq!(lent.position(|x| x.into_inner() % m == 1), b.by_ref().position(|x| x % m == 1), "position of a lent iterator ({log})");
                "position"
            }
            8 => {
                let mut lent = lent;
                ck_eq!(lent.find_map(|x| (*x % m == 1).then_some(x)), t(b.by_ref().find(|x| x % m == 1)), "find_map of a lent iterator ({log})");
                "find_map"
            }
            9 => {
                let mut lent = lent;
                ck_eq!(lent.rfind(|x| **x % m == 1), t(b.by_ref().rfind(|x| x % m == 1)), "rfind of a lent iterator ({log})");
                "rfind"
            }
            10 => {
                let mut lent = lent;
                let f = |n: u32, x: u32| n.checked_add(1).filter(|n| *n < m && x % 5 != 0);
                ck_eq!(lent.try_fold(0, |n, x| f(n, x.into_inner())), b.by_ref().try_fold(0, f), "try_fold of a lent iterator ({log})");
                "try_fold"
            }
            _ => {
                let mut lent = lent;
                let f = |n: u32, x: u32| n.checked_add(1).filter(|n| *n < m && x % 5 != 0);
                ck_eq!(lent.try_rfold(0, |n, x| f(n, x.into_inner())), b.by_ref().try_rfold(0, f), "try_rfold of a lent iterator ({log})");
                "try_rfold"
            }
        };
        ck_eq!(a.collect::<Vec<_>>(), b.collect::<Vec<_>>(), "what {what} leaves in a lent iterator ({log})");
    }
    // and what it does on the way
    {
        let seen: [std::cell::RefCell<Vec<u32>>; 2] = Default::default();
        let it = |k: usize| {
            let seen = &seen[k];
            bare.clone().inspect(move |x| seen.borrow_mut().push(*x))
        };
        let a = it(0);
        let (a, b): (Either<_, _>, _) = (tag(left, a), it(1));
        let t = |x: Option<u32>| x.map(|x| tag(left, x));
        match ch.below(4) {
            0 => ck_eq!(a.count(), b.count(), "count with effects ({log})"),
            1 => ck_eq!(a.last(), t(b.last()), "last with effects ({log})"),
            2 => {
                let n = ch.size(4);
                let (mut a, mut b) = (a, b);
                ck_eq!(a.nth(n), t(b.nth(n)), "nth with effects ({log})");
            }
            _ => {
                let n = ch.size(4);
                let (mut a, mut b) = (a, b);
                ck_eq!(a.nth_back(n), t(b.nth_back(n)), "nth_back with effects ({log})");
            }
        }
        ck_eq!(*seen[0].borrow(), *seen[1].borrow(), "the elements that are computed ({log})");
    }
    let rest: Vec<Either<u32, u32>> = bare.clone().map(|x| tag(left, x)).collect();
    match ch.below(9) {
        0 => ck_eq!(held.count(), bare.count(), "count ({log})"),
        1 => ck_eq!(held.last(), bare.last().map(|x| tag(left, x)), "last ({log})"),
        2 => ck_eq!(held.collect::<Vec<_>>(), rest, "the rest ({log})"),
        3 => ck_eq!(held.rev().collect::<Vec<_>>(), bare.rev().map(|x| tag(left, x)).collect::<Vec<_>>(), "the rest backwards ({log})"),
        4 => ck_eq!(held.fold(7u32, |a, x| a.wrapping_mul(31) ^ x.into_inner()), bare.fold(7u32, |a, x| a.wrapping_mul(31) ^ x), "fold ({log})"),
        5 => ck_eq!(held.rfold(7u32, |a, x| a.wrapping_mul(31) ^ x.into_inner()), bare.rfold(7u32, |a, x| a.wrapping_mul(31) ^ x), "rfold ({log})"),
        6 => {
            let mut v = vec![];
            held.for_each(|x| v.push(x));
            ck_eq!(v, rest, "for_each ({log})");
        }
        7 => {
            let r: Vec<_> = held.by_ref().step_by(2).collect();
            ck_eq!(r, rest.into_iter().step_by(2).collect::<Vec<_>>(), "step_by ({log})");
        }
        _ => {
            // through into_iter of the collection
            let c: Vec<u32> = bare.collect();
            let e: Either<Vec<u32>, BTreeSet<u32>> = if left { Either::Left(c.clone()) } else { Either::Right(c.iter().copied().collect()) };
            let want: Vec<u32> = if left { c } else { c.into_iter().collect::<BTreeSet<_>>().into_iter().collect() };
            let it = e.into_iter();
            ck_eq!(it.size_hint(), (want.len(), Some(want.len())), "size hint of into_iter");
            ck_eq!(Iterator::map(it, Either::into_inner).collect::<Vec<_>>(), want, "into_iter");
        }
    }
    ob.case(steps > 0, log);
    ob.class_if(left, "left");
    ob.class_if(nones > 0, "went beyond the end");
    Ok(())
}

fn exact<I: ExactSizeIterator + Clone, J: ExactSizeIterator + Clone>(e: &Either<I, J>, want: usize) -> R {
    ck_eq!(e.len(), want, "len");
    ck_eq!(e.clone().count(), want, "count");
    Ok(())
}
fn fused<T: FusedIterator>(_: &T) {}

fn iterators(ch: &mut Ch, ob: &mut Ob) -> R {
    let n = if ch.chance(1, 200) { vh::lits::length(ch, 14) } else { ch.size(60) };
    let v: Vec<u32> = (0..n as u32).map(|i| ch.below(1000) + i).collect();
    let left = ch.flag();
    match ch.below(6) {
        0 => {
            let e: Either<std::vec::IntoIter<u32>, std::ops::Range<u32>> = if left { Either::Left(v.clone().into_iter()) } else { Either::Right(5..5 + n as u32) };
            exact(&e, n)?;
            fused(&e);
            walk(v.into_iter(), left, true, true, ch, ob, "vec")
        }
        1 => walk(0..n as u32, left, true, true, ch, ob, "range"),
        2 => walk(v.clone().into_boxed_slice().into_vec().into_iter().take(n / 2), left, true, true, ch, ob, "take"),
        3 => {
            fn odd(x: &u32) -> bool {
                x % 2 == 1
            }
            walk(v.into_iter().filter(odd as fn(&u32) -> bool).map((|x| x + 1) as fn(u32) -> u32).collect::<Vec<_>>().into_iter().chain(3..6), left, false, false, ch, ob, "filter and chain")
        }
        4 => {
            let d: VecDeque<u32> = v.into();
            walk(d.into_iter().skip(1), left, true, true, ch, ob, "deque")
        }
        _ => {
            let o = Odd {
                front: v.into_iter().map(|x| (x % 4 != 0).then_some(x)).collect(),
                hint: (0, ch.flag().then_some(100 + ch.below(1000) as usize)),
            };
            walk(o, left, false, false, ch, ob, "odd")
        }
    }
}

fn run<T: Parse>(src: &str) -> Option<(PR<T>, String, bool)> {
    let mut rest = None;
    let r = (|input: ParseStream<'_>| {
        let r = input.parse::<T>();
        let left = input.cursor().token_stream();
        let empty = input.is_empty();
        rest = Some((r, left.to_string(), empty));
        // take the rest
        input.parse::<proc_macro2::TokenStream>().map(|_| ())
    })
    .parse_str(src);
    let _ = r;
    rest
}

/// left first, right only if left fails; printing is that of what was parsed
fn choice<L: Node, Rt: Node>(ch: &mut Ch, ob: &mut Ob) -> R {
    let t = Typ::new(vh::node::ops::<Either<L, Rt>>("either"));
    let mut p: Vec<Piece> = vec![];
    let mut gen = Gen::new(&t.info, 30, 5);
    gen.gen(&t.g, ch, 0, &mut p);
    for _ in 0..ch.below(3) {
        gen.mutate(ch, &mut p);
    }
    let src = render(&p, ch);
    ob.case(!p.is_empty(), format!("Either<{}, {}> <- {src:?}", std::any::type_name::<L>(), std::any::type_name::<Rt>()));
    fuel(FUEL);
    let (Some((e, er, _)), Some((l, lr, _)), Some((r, rr, _))) = (run::<Either<L, Rt>>(&src), run::<L>(&src), run::<Rt>(&src)) else {
        ob.discarded = true;
        return Ok(());
    };
    let same = |x: &dyn ToTokens, y: &dyn ToTokens| canon_of(&toks(x.to_token_stream()), true) == canon_of(&toks(y.to_token_stream()), true);
    match (e, l, r) {
        (Ok(Either::Left(x)), Ok(y), _) => {
            ob.class("left");
            ck!(x == y, "left gives another value than the type itself");
            ck_eq!(er, lr, "what is left of the input");
            let debug = (format!("{x:?}"), format!("{x:#?}"));
            let e: Either<L, Rt> = Either::Left(x);
            shows(&e, &y, debug)?;
            ck!(same(&e, &y), "printed tokens");
        }
        (Ok(Either::Right(x)), Err(_), Ok(y)) => {
            ob.class("right");
            ck!(x == y, "right gives another value than the type itself");
            ck_eq!(er, rr, "what is left of the input");
            let debug = (format!("{x:?}"), format!("{x:#?}"));
            let e: Either<L, Rt> = Either::Right(x);
            shows(&e, &y, debug)?;
            ck!(same(&e, &y), "printed tokens");
        }
        (Err(e), Err(a), Err(b)) => {
            ob.class("neither");
            let f = |e: &Error| (e.to_string(), Sp::of(e.span()));
            ck!(f(&e) == f(&a) || f(&e) == f(&b), "an error of neither side: {e}");
        }
        (e, l, r) => {
            let side = match &e {
                Ok(Either::Left(_)) => "left",
                Ok(Either::Right(_)) => "right",
                Err(_) => "an error",
            };
            return Err(format!("{side}, though left {} and right {}", if l.is_ok() { "parses" } else { "fails" }, if r.is_ok() { "parses" } else { "fails" }));
        }
    }
    Ok(())
}

fn shows<A: Display + Debug, B: Display>(a: &A, b: &B, debug: (String, String)) -> R {
    ck_eq!(format!("{a}"), format!("{b}"), "display");
    ck_eq!(format!("{a:#}"), format!("{b:#}"), "alternate display");
    ck_eq!((format!("{a:?}"), format!("{a:#?}")), debug, "debug");
    ck!(lex(&a.to_string()).is_some(), "display does not lex");
    Ok(())
}

fn parsing(ch: &mut Ch, ob: &mut Ob) -> R {
    match ch.below(16) {
        0 => choice::<Word, LitInt>(ch, ob),
        1 => choice::<LitInt, Lit>(ch, ob),
        2 => choice::<Lit, LitInt>(ch, ob),
        3 => choice::<Id, Word>(ch, ob),
        4 => choice::<Separated<Ident, Plus>, Word>(ch, ob),
        5 => choice::<Word, Separated<Ident, Plus>>(ch, ob),
        6 => choice::<Paren<Ident>, Paren<LitInt>>(ch, ob),
        7 => choice::<LongFirst, ShortFirst>(ch, ob),
        8 => choice::<Far, FarRev>(ch, ob),
        9 => choice::<Empty, Word>(ch, ob),
        10 => choice::<Eof, Any<Ident>>(ch, ob),
        11 => choice::<Maybe<Plus, Ident>, Maybe<Minus, LitInt>>(ch, ob),
        12 => choice::<Either<LitStr, Id>, Either<Word, Lit>>(ch, ob),
        13 => choice::<kw::If, Id>(ch, ob),
        14 => choice::<Json, Expr>(ch, ob),
        _ => choice::<Stmt, Any<Word>>(ch, ob),
    }
}

fn main() {
    vh::run::main(Prop {
        id: "C21",
        rule: "union laws: all; iterators: at least one step; parsing: at least one token; distinct = different values and histories, or texts",
        subs: vec![
            sub("union laws", 400_000, 10_000_000, (0, 80), union),
            sub("iterators", 500_000, 20_000_000, (0, 160), iterators),
            sub("parsing", 250_000, 8_000_000, (0, 120), parsing),
        ],
        probe: None,
        assumptions: vec![],
    })
}
