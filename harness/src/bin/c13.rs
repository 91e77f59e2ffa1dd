//! C13: equality, ordering and hashing of literals, words and nodes.
#[allow(dead_code)]
#[path = "../common/types.rs"]
mod types;
use parsel::ast::*;
use parsel::NotNan;
use std::any::Any as StdAny;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use syn::Token;
use types::*;
use vh::engine::*;
use vh::gen::{plain, render, Gen, Piece};
use vh::gram::V;
use vh::node::{fuel, ops, Node, Ops};
use vh::run::*;
use vh::tok::{lex, some_spans};
use vh::{ck, ck_eq, lits, Ch};

/// records everything a value feeds to the hasher, call by call
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
}

fn rec<T: Hash + ?Sized>(t: &T) -> Rec {
    let mut r = Rec::default();
    t.hash(&mut r);
    r
}
fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn order<T: Ord + std::fmt::Debug>(n: &str, a: &T, b: &T, want: Ordering) -> R {
    ck_eq!(a.cmp(b), want, "{n}: cmp of {a:?} and {b:?}");
    ck_eq!(b.cmp(a), want.reverse(), "{n}: cmp of {b:?} and {a:?}");
    ck_eq!(a.partial_cmp(b), Some(want), "{n}: partial_cmp of {a:?} and {b:?}");
    ck_eq!(b.partial_cmp(a), Some(want.reverse()), "{n}: partial_cmp of {b:?} and {a:?}");
    ck!((a < b) == (want == Ordering::Less) && (a <= b) == (want != Ordering::Greater) && (a > b) == (want == Ordering::Greater) && (a >= b) == (want != Ordering::Less), "{n}: operators on {a:?} and {b:?}");
    ck!((a == b) == (want == Ordering::Equal) && (b == a) == (want == Ordering::Equal) && (a != b) == (want != Ordering::Equal), "{n}: equality of {a:?} and {b:?}");
    if a == b {
        // equal things hash equally: checked by the caller where T: Hash
    }
    Ok(())
}

/// value, and a second one equal to it or close to it
fn near<T: Clone>(ch: &mut Ch, gen: impl Fn(&mut Ch) -> T, tweak: impl Fn(&mut Ch, &T) -> T) -> (T, T) {
    let a = gen(ch);
    let b = match ch.weighted(&[3, 3, 2]) {
        0 => a.clone(),
        1 => tweak(ch, &a),
        _ => gen(ch),
    };
    (a, b)
}

macro_rules! pair {
    ($ch:expr, $ob:expr, $t:ident, $raw:ty, $p:expr $(, $slice:ty)?) => {{
        let n = stringify!($t);
        let (a, b): ($raw, $raw) = $p;
        let s = some_spans();
        let (x, y) = ($t::new(a.clone(), *$ch.pick(&s)), $t::new(b.clone(), *$ch.pick(&s)));
        $ob.case(true, format!("{n} {a:?} {b:?}"));
        $ob.class_if(a == b, "equal values");
        let want = a.cmp(&b);
        order(n, &x, &y, want)?;
        ck!((x == b) == (a == b) && (x != b) == (a != b), "{n}: {x:?} == raw {b:?}");
        ck_eq!(PartialOrd::<$raw>::partial_cmp(&x, &b), Some(want), "{n}: partial_cmp with the raw value");
        ck_eq!(rec(&x), rec(&a), "{n}: what {a:?} feeds to the hasher");
        ck_eq!(hash(&x), hash(&a), "{n}: hash of {a:?}");
        if a == b {
            ck_eq!(hash(&x), hash(&y), "{n}: hash of equal values");
        }
        // look up by the raw value
        let m: HashMap<$t, u8> = [(x.clone(), 1)].into_iter().collect();
        ck_eq!(m.get(&a), Some(&1), "{n}: lookup of {a:?} in a map");
        ck_eq!(m.get(&b).is_some(), a == b, "{n}: lookup of {b:?} in a map with {a:?}");
        ck_eq!(m.get(&y).is_some(), a == b, "{n}: lookup of the literal {b:?} in a map with {a:?}");
        let mut raws: Vec<$raw> = vec![a.clone(), b.clone(), <$raw>::default()];
        let o: BTreeMap<$t, usize> = raws.iter().cloned().enumerate().map(|(i, v)| ($t::new(v, *$ch.pick(&s)), i)).collect();
        for v in &raws {
            ck!(o.contains_key(v), "{n}: lookup of {v:?} in an ordered map");
        }
        $(for v in &raws {
            let q: &$slice = v.as_ref();
            ck!(o.contains_key(q), "{n}: lookup of {v:?} as a slice in an ordered map");
            ck_eq!(hash(q), hash(v), "{n}: hash of the slice");
            ck!((x == *q) == (a == *v), "{n}: equality with a slice");
            ck_eq!(PartialOrd::<$slice>::partial_cmp(&x, q), Some(a.cmp(v)), "{n}: partial_cmp with a slice");
        }
        ck_eq!(m.get::<$slice>(a.as_ref()), Some(&1), "{n}: lookup by slice");)?
        raws.sort();
        raws.dedup();
        ck_eq!(o.keys().map(|k| k.value()).collect::<Vec<_>>(), raws, "{n}: order of an ordered map");
        let h: HashSet<$t> = [x.clone(), y.clone()].into_iter().collect();
        ck_eq!(h.len(), if a == b { 1 } else { 2 }, "{n}: set of {a:?} and {b:?}");
        (Lit::from(x), Lit::from(y), a == b)
    }};
}

fn literals(ch: &mut Ch, ob: &mut Ob) -> R {
    let k = ch.below(8);
    let (x, y, eq) = match k {
        0 => pair!(ch, ob, LitBool, bool, (ch.flag(), ch.flag())),
        1 => pair!(ch, ob, LitByte, u8, near(ch, |c| c.below(256) as u8, |c, v| v ^ (1 << c.below(8)))),
        2 => pair!(ch, ob, LitInt, i64, near(ch, lits::i64_val, |c, v| if c.flag() { v.wrapping_neg() } else { v ^ (1 << c.below(64)) })),
        3 => pair!(ch, ob, LitUint, u64, near(ch, lits::u64_val, |c, v| v ^ (1 << c.below(64)))),
        4 => pair!(ch, ob, LitFloat, NotNan<f64>, {
            let f = |c: &mut Ch| NotNan::new(lits::f64_val(c)).unwrap();
            near(ch, f, |c, v| {
                if c.flag() { -*v } else { NotNan::new(f64::from_bits(v.into_inner().to_bits() ^ (1 << c.below(63)))).unwrap_or(*v) }
            })
        }),
        5 => pair!(ch, ob, LitChar, char, near(ch, lits::chr, |c, v| char::from_u32(*v as u32 ^ (1 << c.below(16))).unwrap_or(*v))),
        6 => pair!(ch, ob, LitStr, String, near(ch, |c| if c.chance(1, 50) { lits::long_string(c, 12) } else { lits::string(c, 6) }, |c, v| {
            let mut v: Vec<char> = v.chars().collect();
            match c.below(4) {
                0 => { v.pop(); }
                1 => v.push(*c.pick(&['\0', 'a', 'é'])),
                2 => v.reverse(),
                _ => if !v.is_empty() { let i = c.idx(v.len()); v[i] = lits::chr(c) },
            }
            v.into_iter().collect()
        }), str),
        _ => pair!(ch, ob, LitByteStr, Vec<u8>, near(ch, |c| if c.chance(1, 50) { lits::long_bytes(c, 12) } else { lits::bytes(c, 6) }, |c, v| {
            let mut v = v.clone();
            match c.below(4) {
                0 => { v.pop(); }
                1 => v.push(*c.pick(&[0, b'a', 0xff])),
                2 => v.reverse(),
                _ => if !v.is_empty() { let i = c.idx(v.len()); v[i] = c.below(256) as u8 },
            }
            v
        }), [u8]),
    };
    ck!((x == y) == eq && (x != y) == !eq && (y == x) == eq, "Lit equality of {x:?} and {y:?}");
    if eq {
        ck_eq!(hash(&x), hash(&y), "hash of equal Lits");
    }
    // the same number as another kind
    let others = [Lit::from(5u8), Lit::from(5i64), Lit::from(5u64), Lit::from(NotNan::new(5.0).unwrap()), Lit::from('5'), Lit::from("5"), Lit::from(&b"5"[..]), Lit::from(true)];
    for (i, a) in others.iter().enumerate() {
        for (j, b) in others.iter().enumerate() {
            ck_eq!(a == b, i == j, "equality of Lits of kinds {i} and {j}");
        }
        let same_kind = i == [7, 0, 1, 2, 3, 4, 5, 6][k as usize];
        ck!(same_kind || *a != x, "{a:?} equals {x:?}");
    }
    Ok(())
}

/// words, keywords, markers, the choice type
fn words(ch: &mut Ch, ob: &mut Ob) -> R {
    let s = some_spans();
    let gen = |c: &mut Ch| vh::gen::ident(c);
    let (a, b) = near(ch, gen, |c, v| match c.below(3) {
        0 => v.strip_prefix("r#").map(String::from).unwrap_or_else(|| if ["self", "Self", "super", "crate", "_"].contains(&v.as_str()) { v.clone() } else { format!("r#{v}") }),
        1 => format!("{v}_"),
        _ => v.to_uppercase(),
    });
    let (Ok(x), Ok(y)) = (format!("\n {a}").parse::<Word>(), b.parse::<Word>()) else {
        ob.discarded = true;
        return Ok(());
    };
    let (a, b) = (a.trim_start().to_string(), b);
    ob.case(true, format!("{a} {b}"));
    ob.class_if(a == b, "equal words");
    order("Word", &x, &y, a.cmp(&b))?;
    ck!((x == a) && (x == b) == (a == b) && (x == a.as_str()), "Word {a} against {b}");
    if a == b {
        ck_eq!(hash(&x), hash(&y), "hash of equal words");
    }
    let set: HashSet<Word> = [x.clone(), y.clone()].into_iter().collect();
    ck_eq!(set.len(), if a == b { 1 } else { 2 }, "set of words {a} {b}");
    let set: BTreeSet<Word> = [x.clone(), y.clone()].into_iter().collect();
    ck_eq!(set.len(), if a == b { 1 } else { 2 }, "ordered set of words {a} {b}");
    let mut z = x.clone();
    z.set_span(*ch.pick(&s));
    ck!(z == x && hash(&z) == hash(&x), "word changed by set_span");
    // keywords
    let (k, l) = (kw::If::new(*ch.pick(&s)), kw::If::new(*ch.pick(&s)));
    order("kw::If", &k, &l, Ordering::Equal)?;
    ck_eq!(hash(&k), hash(&l), "hash of a keyword");
    ck!((k == a.as_str()) == (a == "if") && (k == a) == (a == "if"), "keyword `if` against {a}");
    ck_eq!(PartialOrd::<&str>::partial_cmp(&k, &a.as_str()), Some("if".cmp(a.as_str())), "ordering of keyword `if` against {a}");
    // markers
    order("Empty", &Empty::new(), &Empty::new(), Ordering::Equal)?;
    order("Eof", &Eof::new(), &Eof::new(), Ordering::Equal)?;
    order("NotEof", &NotEof::new(), &NotEof::new(), Ordering::Equal)?;
    ck!(hash(&Empty) == hash(&Empty::default()) && hash(&Eof) == hash(&Eof::default()) && hash(&NotEof) == hash(&NotEof::default()), "hash of markers");
    // the choice
    type E = Either<Word, Word>;
    let (p, q) = (ch.flag(), ch.flag());
    let mk = |left: bool, w: &Word| -> E { if left { Either::Left(w.clone()) } else { Either::Right(w.clone()) } };
    let (e, f) = (mk(p, &x), mk(q, &y));
    ck_eq!(e == f, p == q && a == b, "Either {e:?} == {f:?}");
    ck_eq!(e.cmp(&f) == Ordering::Equal, p == q && a == b, "Either {e:?} cmp {f:?}");
    order("Either", &e, &f, e.cmp(&f))?;
    if p == q {
        ck_eq!(e.cmp(&f), a.cmp(&b), "Either {e:?} cmp {f:?}");
    }
    if e == f {
        ck_eq!(hash(&e), hash(&f), "hash of equal choices");
    }
    Ok(())
}

struct HOps {
    t: Typ,
    hash: Option<fn(&dyn StdAny) -> u64>,
}

fn hops<T: Node + Hash + Eq>(name: &'static str) -> (Ops, Option<fn(&dyn StdAny) -> u64>) {
    (ops::<T>(name), Some(|x| hash(x.downcast_ref::<T>().expect("type"))))
}
macro_rules! hops_list {
    ($($t:ty),* $(,)?) => { vec![$(hops::<$t>(stringify!($t))),*] }
}

type Plus = Token![+];
type Minus = Token![-];
type Comma = Token![,];
type Semi = Token![;];
type Star = Token![*];

fn hashed() -> Vec<HOps> {
    let v = hops_list![
        Word, Id, Id2, kw::If, Lit, LitInt, LitFloat, LitStr, Empty, Eof, NotEof,
        Maybe<Plus, Ident>, Maybe<Either<Plus, Minus>, Maybe<Minus, LitInt>>, Maybe<Word, LitInt>, Maybe<Lit>, Maybe<Plus>,
        Paren<Maybe<Plus, Ident>>, Bracket<Lit>, Brace<Any<Bracket<Any<Lit>>>>, Paren<Either<LitInt, Ident>>,
        Punctuated<Ident, Comma>, Punctuated<Lit, Either<Comma, Semi>>, Punctuated<Maybe<Plus, Ident>, Comma>, Punctuated<Either<LitInt, Ident>, Either<Comma, Semi>>,
        Many<Lit>, Many<Either<Separated<Ident, Plus>, LitInt>>,
        Separated<Ident, Comma>, Separated<Lit, Either<Comma, Plus>>, Separated<Separated<Ident, Plus>, Comma>, Separated<Word, NotEof>,
        Any<Ident>, Any<LitInt>, Any<Either<LitInt, Ident>>, Any<Paren<Any<Ident>>>, Any<Either<LitInt, Lit>>,
        LeftAssoc<Plus, Ident>, LeftAssoc<Either<Plus, Minus>, LitUint>, LeftAssoc<Plus, LeftAssoc<Star, Ident>>,
        RightAssoc<Plus, Ident>, RightAssoc<Either<Plus, Minus>, LitUint>, RightAssoc<Plus, RightAssoc<Star, Ident>>,
        Either<Ident, LitInt>, Either<LitInt, Lit>, Either<Separated<Ident, Plus>, Separated<Ident, Minus>>, Either<Either<LitStr, Ident>, Either<Word, Lit>>,
        LeftAssoc<Plus, Paren<RightAssoc<Minus, Ident>>>,
    ];
    v.into_iter().map(|(o, hash)| HOps { t: Typ::new(o), hash }).collect()
}

/// floats compare by value: both zeros are equal
fn canon(v: &V) -> V {
    match v {
        V::Leaf(s, p) if s == "f:8000000000000000" => V::Leaf("f:0000000000000000".into(), *p),
        V::Leaf(..) => v.clone(),
        V::Node(n, k) => V::Node(n.clone(), k.iter().map(canon).collect()),
        V::Grp(d, p, i) => V::Grp(*d, *p, Box::new(canon(i))),
    }
}

/// two values of a type: the same in another place, one edit apart, or unrelated
fn nodes(h: &HOps, ch: &mut Ch, ob: &mut Ob) -> R {
    let t = &h.t;
    let budget = *ch.pick(&[4i64, 12, 30, 60]);
    let mut p: Vec<Piece> = vec![];
    let mut gen = Gen::new(&t.info, budget, 6);
    gen.gen(&t.g, ch, 0, &mut p);
    let mut q = p.clone();
    let mode = ch.weighted(&[2, 5, 3]);
    match mode {
        0 => {}
        1 => {
            let n = 1 + ch.weighted(&[6, 2, 1]);
            for _ in 0..n {
                if q.len() >= 2 && ch.chance(1, 4) {
                    // exchange two pieces
                    let (i, j) = (ch.idx(q.len()), ch.idx(q.len()));
                    q.swap(i, j);
                } else {
                    gen.mutate(ch, &mut q);
                }
            }
        }
        _ => {
            q.clear();
            gen.budget = budget;
            gen.gen(&t.g, ch, 0, &mut q);
        }
    }
    let (s1, s2) = (render(&p, ch), format!("{}{}", ch.pick(&["", "\n\n", "/* é */ \n  ", " "]), if ch.flag() { render(&q, ch) } else { plain(&q) }));
    ob.key = format!("{} {s1:?} {s2:?}", t.ops.name);
    if lex(&s1).is_none() || lex(&s2).is_none() {
        ob.discarded = true;
        return Ok(());
    }
    fuel(FUEL);
    let (Ok(a), Ok(b)) = ((t.ops.from_str)(&s1), (t.ops.from_str)(&s2)) else {
        ob.discarded = true;
        ob.class("discarded: one of the texts is rejected");
        return Ok(());
    };
    ob.nontrivial = true;
    let (va, vb) = (canon(&a.v()), canon(&b.v()));
    let same = va.same(&vb, false);
    ob.class(if same { "equal pairs" } else { "unequal pairs" });
    ob.class_if(same && mode == 0 && !a.v().same(&b.v(), true), "equal pairs from different places");
    ck!(a.same(&*b) == same && b.same(&*a) == same, "{}: compared {}, contents are {}\n  {}\n  {}", t.ops.name, if same { "unequal" } else { "equal" }, if same { "equal" } else { "different" }, va.show(), vb.show());
    ck!(a.same(&*a) && a.same(&*a.dup()), "{}: not equal to itself", t.ops.name);
    if let (Some(hash), true) = (h.hash, same) {
        ck_eq!(hash(a.any()), hash(b.any()), "{}: hashes of equal nodes", t.ops.name);
        ck_eq!(hash(a.any()), hash(a.dup().any()), "{}: hash of a clone", t.ops.name);
    }
    Ok(())
}

fn nodes_sub(name: &str, hs: Vec<HOps>, quick: u32, thorough: u32) -> Sub {
    sub(name, quick, thorough, (0, 260), move |ch, ob| {
        let h = &hs[ch.idx(hs.len())];
        nodes(h, ch, ob)
    })
}

fn main() {
    vh::run::main(Prop {
        id: "C13",
        rule: "literals and words: all pairs; nodes: both texts parse; distinct = different pairs of values or texts",
        subs: vec![
            sub("literals", 300_000, 20_000_000, (0, 40), literals),
            sub("words", 150_000, 6_000_000, (0, 24), words),
            nodes_sub("hashable nodes", hashed(), 300_000, 20_000_000),
            nodes_sub("derived nodes", derived().into_iter().map(|o| HOps { t: Typ::new(o), hash: None }).collect(), 150_000, 10_000_000),
        ],
        probe: None,
        assumptions: vec!["which nodes differ is decided on the contents read through the public accessors"],
    })
}
