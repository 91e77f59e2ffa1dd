//! Grammar model and reference interpreter: what a type definition means as a grammar, computed on
//! the token model without using the code under test.

use crate::tok::{close, Sp, Tok, K};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone)]
pub enum G {
    Ident,
    Word,
    /// identifier of a keyword set
    Custom(&'static [&'static str]),
    /// keyword declared with define_keywords!
    Kw(&'static str),
    /// syn keyword or punctuation token
    RKw(&'static str),
    P(&'static str),
    LBool,
    LByte,
    LInt,
    LUint,
    LFloat,
    LChar,
    LStr,
    LBStr,
    Lit,
    Empty,
    Eof,
    NotEof,
    /// that many words; anything else among as many tokens is an error that covers all of them
    Wide(usize),
    Struct(Arc<str>, Vec<(Arc<str>, G)>),
    Enum(Arc<str>, Vec<(Arc<str>, Vec<(Arc<str>, G)>)>),
    Maybe(Arc<G>, Arc<G>),
    Any(Arc<G>),
    /// items, separators; up to the end of the group
    Punct(Arc<G>, Arc<G>),
    Sep(Arc<G>, Arc<G>),
    Delim(char, Arc<G>),
    /// operator, operand
    Left(Arc<G>, Arc<G>),
    Right(Arc<G>, Arc<G>),
    Either(Arc<G>, Arc<G>),
    /// a named type, expanded on demand
    Ref(fn() -> G),
}

/// A parsed value.
#[derive(Clone, Debug)]
pub enum V {
    Leaf(String, Option<Sp>),
    Node(String, Vec<V>),
    /// delimiter, span from open to close
    Grp(char, Option<Sp>, Box<V>),
}

impl V {
    pub fn leaf(s: impl Into<String>, sp: Sp) -> V {
        V::Leaf(s.into(), Some(sp))
    }
    pub fn node(s: impl Into<String>, v: Vec<V>) -> V {
        V::Node(s.into(), v)
    }
    /// equality; spans are compared only if `spans`
    pub fn same(&self, o: &V, spans: bool) -> bool {
        // iterative, because operator chains can be very deep
        let mut st = vec![(self, o)];
        while let Some((a, b)) = st.pop() {
            match (a, b) {
                (V::Leaf(x, p), V::Leaf(y, q)) => {
                    if x != y || (spans && p != q) {
                        return false;
                    }
                }
                (V::Node(x, p), V::Node(y, q)) => {
                    if x != y || p.len() != q.len() {
                        return false;
                    }
                    st.extend(p.iter().zip(q));
                }
                (V::Grp(x, p, i), V::Grp(y, q, j)) => {
                    if x != y || (spans && p != q) {
                        return false;
                    }
                    st.push((i, j));
                }
                _ => return false,
            }
        }
        true
    }
    pub fn show(&self) -> String {
        match self {
            V::Leaf(s, _) => s.clone(),
            V::Node(s, v) => format!("{s}<{}>", v.iter().map(|v| v.show()).collect::<Vec<_>>().join(" ")),
            V::Grp(d, _, v) => format!("{d}{}{}", v.show(), close(*d)),
        }
    }
    pub fn show_sp(&self) -> String {
        let p = |s: &Option<Sp>| s.map(|s| format!("@{}:{}-{}:{}", s.sl, s.sc, s.el, s.ec)).unwrap_or_default();
        match self {
            V::Leaf(s, sp) => format!("{s}{}", p(sp)),
            V::Node(s, v) => format!("{s}<{}>", v.iter().map(|v| v.show_sp()).collect::<Vec<_>>().join(" ")),
            V::Grp(d, sp, v) => format!("{d}{}{}{}", v.show_sp(), close(*d), p(sp)),
        }
    }
    /// span from the first to the last token, if there is any
    pub fn extent(&self) -> Option<Sp> {
        match self {
            V::Leaf(_, s) => *s,
            V::Grp(_, s, _) => *s,
            V::Node(_, v) => {
                let mut r: Option<Sp> = None;
                for x in v {
                    if let Some(s) = x.extent() {
                        r = Some(match r {
                            None => s,
                            Some(a) => a.join(s),
                        });
                    }
                }
                r
            }
        }
    }
}

/// One admissible error.
#[derive(Clone, PartialEq, Debug)]
pub struct Cand {
    /// None: at the end of the whole input, no location
    pub sp: Option<Sp>,
    /// innermost production last
    pub path: Vec<String>,
    pub msg: Option<String>,
}

pub struct Cur<'a> {
    pub t: &'a [Tok],
    pub pos: usize,
    /// span of the closing delimiter, None at top level
    pub scope: Option<Sp>,
}

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.pos)
    }
    fn fork(&self) -> Cur<'a> {
        Cur { t: self.t, pos: self.pos, scope: self.scope }
    }
    fn at_end(&self) -> bool {
        self.pos >= self.t.len()
    }
    fn here(&self) -> Option<Sp> {
        match self.peek() {
            None => self.scope,
            Some(t) => Some(match &t.k {
                K::Group(_, _, o, _) => *o,
                _ => t.sp,
            }),
        }
    }
}

pub const RUST_KW: &[&str] = &[
    "_", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn",
    "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match",
    "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super",
    "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
];

pub enum Top {
    Ok(V),
    /// some tokens were left over, in the input or in an inner group
    Left,
    Err(Vec<Cand>),
}

pub struct Ref {
    pub steps: u64,
    pub limit: u64,
    /// an alternative failed at the end of the whole input and was ranked against others
    pub eof_rank: bool,
    /// classes seen
    pub alt_fail_deep: u64,
    pub committed_fail: bool,
    pub alts: u64,
}

pub struct TooLong;
type P = Result<Result<V, Vec<Cand>>, TooLong>;

macro_rules! sub {
    ($e:expr) => {
        match $e? {
            Ok(v) => v,
            Err(c) => return Ok(Err(c)),
        }
    };
}

impl Ref {
    pub fn new(limit: u64) -> Self {
        Ref { steps: 0, limit, eof_rank: false, alt_fail_deep: 0, committed_fail: false, alts: 0 }
    }

    /// None: the reference gave up (too much work)
    pub fn top(&mut self, g: &G, t: &[Tok]) -> Option<Top> {
        let mut c = Cur { t, pos: 0, scope: None };
        let mut poison = false;
        match self.parse(g, &mut c, &mut poison) {
            Err(TooLong) => None,
            Ok(Err(e)) => Some(Top::Err(e)),
            Ok(Ok(v)) => Some(if poison || !c.at_end() { Top::Left } else { Top::Ok(v) }),
        }
    }

    /// prefix mode: value, number of top-level tokens consumed, poison
    pub fn prefix(&mut self, g: &G, t: &[Tok]) -> Option<Result<(V, usize, bool), Vec<Cand>>> {
        let mut c = Cur { t, pos: 0, scope: None };
        let mut poison = false;
        match self.parse(g, &mut c, &mut poison) {
            Err(TooLong) => None,
            Ok(Err(e)) => Some(Err(e)),
            Ok(Ok(v)) => Some(Ok((v, c.pos, poison))),
        }
    }

    fn err(&self, sp: Option<Sp>, msg: Option<String>) -> P {
        Ok(Err(vec![Cand { sp, path: vec![], msg }]))
    }

    fn lit_at(&self, c: &Cur) -> Option<(syn::Lit, Sp, usize, String)> {
        use std::str::FromStr;
        match &c.peek()?.k {
            K::Lit(s) => {
                let l = syn::Lit::new(proc_macro2::Literal::from_str(s).ok()?);
                Some((l, c.peek()?.sp, 1, s.clone()))
            }
            K::Punct('-', _) => {
                let n = c.t.get(c.pos + 1)?;
                let K::Lit(s) = &n.k else { return None };
                if !s.starts_with(|c: char| c.is_ascii_digit()) {
                    return None;
                }
                let r = format!("-{s}");
                let l = syn::Lit::new(proc_macro2::Literal::from_str(&r).ok()?);
                Some((l, c.peek()?.sp.join(n.sp), 2, r))
            }
            _ => None,
        }
    }

    fn lit(&mut self, g: &G, c: &mut Cur) -> P {
        let here = c.here();
        let bool_at = match c.peek().map(|t| &t.k) {
            Some(K::Ident(s)) if s == "true" || s == "false" => Some(s.clone()),
            _ => None,
        };
        if let Some(b) = bool_at {
            let sp = c.peek().unwrap().sp;
            return match g {
                G::LBool => {
                    c.pos += 1;
                    Ok(Ok(V::leaf(b, sp)))
                }
                G::Lit => {
                    c.pos += 1;
                    Ok(Ok(V::node("Lit::Bool", vec![V::leaf(b, sp)])))
                }
                _ => self.err(here, None),
            };
        }
        let Some((l, sp, n, _)) = self.lit_at(c) else { return self.err(here, None) };
        let general = matches!(g, G::Lit);
        let leaf = match (&l, g) {
            (syn::Lit::Str(s), G::LStr | G::Lit) => ("Lit::Str", format!("s:{:?}", s.value())),
            (syn::Lit::ByteStr(s), G::LBStr | G::Lit) => ("Lit::ByteStr", format!("bs:{:?}", s.value())),
            (syn::Lit::Byte(b), G::LByte | G::Lit) => ("Lit::Byte", format!("b:{}", b.value())),
            (syn::Lit::Char(b), G::LChar | G::Lit) => ("Lit::Char", format!("c:{:?}", b.value())),
            (syn::Lit::Int(i), G::LInt | G::LUint | G::Lit) => {
                let d = i.base10_digits();
                let neg = d.starts_with('-');
                let signed = matches!(g, G::LInt) || (general && neg);
                let v: Option<i128> = d.parse().ok();
                let ok = match v {
                    None => false,
                    Some(v) if signed => v >= i64::MIN as i128 && v <= i64::MAX as i128,
                    Some(v) => !neg && v >= 0 && v <= u64::MAX as i128,
                };
                if !ok {
                    return self.err(Some(sp), None);
                }
                let v = v.unwrap();
                (if signed { "Lit::Int" } else { "Lit::Uint" }, if signed { format!("int:{v}") } else { format!("uint:{v}") })
            }
            (syn::Lit::Float(f), G::LFloat | G::Lit) => match f.base10_digits().parse::<f64>() {
                Ok(x) if !x.is_nan() => ("Lit::Float", format!("f:{:016x}", x.to_bits())),
                _ => return self.err(Some(sp), None),
            },
            (_, G::Lit) => return self.err(Some(sp), None),
            _ => return self.err(here, None),
        };
        c.pos += n;
        let v = V::leaf(leaf.1, sp);
        Ok(Ok(if general { V::node(leaf.0, vec![v]) } else { v }))
    }

    fn fields(&mut self, fs: &[(Arc<str>, G)], ctor: &str, c: &mut Cur, poison: &mut bool) -> Result<Result<Vec<V>, Vec<Cand>>, TooLong> {
        let mut out = Vec::with_capacity(fs.len());
        for (name, g) in fs {
            match self.parse(g, c, poison)? {
                Ok(v) => out.push(v),
                Err(mut e) => {
                    for x in &mut e {
                        x.path.insert(0, format!("{ctor}::{name}"));
                    }
                    return Ok(Err(e));
                }
            }
        }
        Ok(Ok(out))
    }

    /// furthest-alternative rule over the candidate sets of the alternatives
    fn furthest(&mut self, sets: Vec<Vec<Cand>>) -> Vec<Cand> {
        if sets.iter().flatten().any(|c| c.sp.is_none()) && sets.len() > 1 {
            self.eof_rank = true;
            return sets.into_iter().flatten().collect();
        }
        let all: Vec<Cand> = sets.into_iter().flatten().collect();
        let max = all.iter().filter_map(|c| c.sp).map(|s| s.end()).max();
        all.into_iter().filter(|c| c.sp.map(|s| s.end()) == max).collect()
    }

    fn seq(&mut self, item: &G, sep: &G, c: &mut Cur, poison: &mut bool) -> Result<Result<Vec<V>, Vec<Cand>>, TooLong> {
        let mut out = vec![match self.parse(item, c, poison)? {
            Ok(v) => v,
            Err(e) => return Ok(Err(e)),
        }];
        loop {
            let mut f = c.fork();
            let mut p = false;
            match self.parse(sep, &mut f, &mut p)? {
                Err(_) => return Ok(Ok(out)),
                Ok(s) => {
                    c.pos = f.pos;
                    *poison |= p;
                    match self.parse(item, c, poison)? {
                        Ok(v) => {
                            out.push(s);
                            out.push(v);
                        }
                        Err(e) => {
                            self.committed_fail = true;
                            return Ok(Err(e));
                        }
                    }
                }
            }
        }
    }

    pub fn parse(&mut self, g: &G, c: &mut Cur, poison: &mut bool) -> P {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(TooLong);
        }
        match g {
            G::Ref(f) => self.parse(&f(), c, poison),
            G::Ident => match c.peek().map(|t| (&t.k, t.sp)) {
                Some((K::Ident(s), sp)) if !RUST_KW.contains(&s.as_str()) => {
                    c.pos += 1;
                    Ok(Ok(V::leaf(s.clone(), sp)))
                }
                _ => self.err(c.here(), None),
            },
            G::Word => match c.peek().map(|t| (&t.k, t.sp)) {
                Some((K::Ident(s), sp)) => {
                    c.pos += 1;
                    Ok(Ok(V::leaf(s.clone(), sp)))
                }
                _ => self.err(c.here(), None),
            },
            G::Custom(kws) => match c.peek().map(|t| (&t.k, t.sp)) {
                Some((K::Ident(s), sp)) => {
                    if kws.contains(&s.as_str()) {
                        self.err(Some(sp), Some("expected identifier, found keyword".into()))
                    } else {
                        c.pos += 1;
                        Ok(Ok(V::leaf(s.clone(), sp)))
                    }
                }
                _ => self.err(c.here(), None),
            },
            G::Kw(k) => match c.peek().map(|t| (&t.k, t.sp)) {
                Some((K::Ident(s), sp)) => {
                    if s == k {
                        c.pos += 1;
                        Ok(Ok(V::leaf(*k, sp)))
                    } else {
                        self.err(Some(sp), Some(format!("expected keyword `{k}`")))
                    }
                }
                _ => self.err(c.here(), None),
            },
            G::RKw(k) => match c.peek().map(|t| (&t.k, t.sp)) {
                Some((K::Ident(s), sp)) if s == k => {
                    c.pos += 1;
                    Ok(Ok(V::leaf(*k, sp)))
                }
                _ => self.err(c.here(), None),
            },
            G::P(p) => {
                let n = p.len();
                let mut sp: Option<Sp> = None;
                for (i, ch) in p.chars().enumerate() {
                    match c.t.get(c.pos + i) {
                        Some(Tok { k: K::Punct(d, joint), sp: s }) if *d == ch && (*joint || i + 1 == n) => {
                            sp = Some(sp.map_or(*s, |a| a.join(*s)));
                        }
                        _ => return self.err(c.here(), None),
                    }
                }
                c.pos += n;
                Ok(Ok(V::leaf(*p, sp.unwrap())))
            }
            G::LBool | G::LByte | G::LInt | G::LUint | G::LFloat | G::LChar | G::LStr | G::LBStr | G::Lit => self.lit(g, c),
            G::Empty => Ok(Ok(V::node("Empty", vec![]))),
            G::Eof => {
                if c.at_end() {
                    Ok(Ok(V::node("Eof", vec![])))
                } else {
                    self.err(c.here(), Some("expected end of input or group, found garbage".into()))
                }
            }
            G::NotEof => {
                if c.at_end() {
                    self.err(c.here(), None)
                } else {
                    Ok(Ok(V::node("NotEof", vec![])))
                }
            }
            G::Wide(n) => {
                let Some(ts) = c.t.get(c.pos..c.pos + n) else {
                    let end = Cur { t: c.t, pos: c.t.len(), scope: c.scope };
                    return self.err(end.here(), None);
                };
                if ts.iter().all(|t| matches!(t.k, K::Ident(_))) {
                    c.pos += n;
                    Ok(Ok(V::node("Wide", ts.iter().map(|t| V::leaf(if let K::Ident(s) = &t.k { s.clone() } else { unreachable!() }, t.sp)).collect())))
                } else {
                    self.err(Some(ts[0].sp.join(ts[n - 1].sp)), Some(format!("expected {n} words")))
                }
            }
            G::Struct(name, fs) => {
                let v = sub!(self.fields(fs, name, c, poison));
                Ok(Ok(V::node(&**name, v)))
            }
            G::Enum(name, vs) => {
                let start = c.pos;
                let mut sets = vec![];
                for (vn, fs) in vs {
                    let mut f = c.fork();
                    let mut p = false;
                    let ctor = format!("{name}::{vn}");
                    self.alts += 1;
                    match self.fields(fs, &ctor, &mut f, &mut p)? {
                        Ok(v) => {
                            c.pos = f.pos;
                            *poison |= p;
                            return Ok(Ok(V::node(ctor, v)));
                        }
                        Err(e) => {
                            if f.pos > start {
                                self.alt_fail_deep += 1;
                            }
                            sets.push(e)
                        }
                    }
                }
                if sets.is_empty() {
                    return self.err(c.here(), None);
                }
                Ok(Err(self.furthest(sets)))
            }
            G::Maybe(p, t) => {
                let mut f = c.fork();
                let mut po = false;
                match self.parse(p, &mut f, &mut po)? {
                    Err(_) => {
                        if f.pos > c.pos {
                            self.alt_fail_deep += 1;
                        }
                        Ok(Ok(V::node("None", vec![])))
                    }
                    Ok(pv) => {
                        c.pos = f.pos;
                        *poison |= po;
                        match self.parse(t, c, poison)? {
                            Ok(v) => Ok(Ok(V::node("Some", vec![pv, v]))),
                            Err(e) => {
                                self.committed_fail = true;
                                Ok(Err(e))
                            }
                        }
                    }
                }
            }
            G::Any(t) => {
                let mut out = vec![];
                loop {
                    let mut f = c.fork();
                    let mut po = false;
                    match self.parse(t, &mut f, &mut po)? {
                        Err(_) => {
                            if f.pos > c.pos {
                                self.alt_fail_deep += 1;
                            }
                            return Ok(Ok(V::node("Any", out)));
                        }
                        Ok(v) => {
                            c.pos = f.pos;
                            *poison |= po;
                            out.push(v);
                        }
                    }
                }
            }
            G::Punct(t, p) => {
                let mut out = vec![];
                loop {
                    if c.at_end() {
                        break;
                    }
                    out.push(sub!(self.parse(t, c, poison)));
                    if c.at_end() {
                        break;
                    }
                    out.push(sub!(self.parse(p, c, poison)));
                }
                Ok(Ok(V::node("Punct", out)))
            }
            G::Sep(t, p) => {
                let v = sub!(self.seq(t, p, c, poison));
                Ok(Ok(V::node("Sep", v)))
            }
            G::Left(o, r) => {
                let v = sub!(self.seq(r, o, c, poison));
                let mut it = v.into_iter();
                let mut acc = V::node("Rhs", vec![it.next().unwrap()]);
                while let (Some(o), Some(r)) = (it.next(), it.next()) {
                    acc = V::node("LBin", vec![acc, o, r]);
                }
                Ok(Ok(acc))
            }
            G::Right(o, l) => {
                let mut v = sub!(self.seq(l, o, c, poison));
                let mut acc = V::node("Lhs", vec![v.pop().unwrap()]);
                while let Some(o) = v.pop() {
                    let l = v.pop().unwrap();
                    acc = V::node("RBin", vec![l, o, acc]);
                }
                Ok(Ok(acc))
            }
            G::Either(l, r) => {
                let mut sets = vec![];
                for (tag, g) in [("Left", l), ("Right", r)] {
                    let mut f = c.fork();
                    let mut po = false;
                    self.alts += 1;
                    match self.parse(g, &mut f, &mut po)? {
                        Ok(v) => {
                            c.pos = f.pos;
                            *poison |= po;
                            return Ok(Ok(V::node(tag, vec![v])));
                        }
                        Err(e) => {
                            if f.pos > c.pos {
                                self.alt_fail_deep += 1;
                            }
                            sets.push(e);
                        }
                    }
                }
                Ok(Err(self.furthest(sets)))
            }
            G::Delim(d, t) => match c.peek() {
                Some(Tok { k: K::Group(e, inner, _, cl), sp }) if e == d => {
                    let mut ic = Cur { t: inner, pos: 0, scope: Some(*cl) };
                    let v = sub!(self.parse(t, &mut ic, poison));
                    if !ic.at_end() {
                        *poison = true;
                    }
                    c.pos += 1;
                    Ok(Ok(V::Grp(*d, Some(*sp), Box::new(v))))
                }
                _ => self.err(c.here(), None),
            },
        }
    }
}

// ---- static facts about grammars ----

fn key(f: fn() -> G) -> usize {
    f as usize
}

pub const INF: u32 = 1000;

/// heights of derivation (number of nested named types) for every reachable named type
#[derive(Default, Clone)]
pub struct Info {
    pub height: HashMap<usize, u32>,
    /// literal texts of keywords and punctuation
    pub words: Vec<&'static str>,
    pub puncts: Vec<&'static str>,
    pub delims: Vec<char>,
}

impl Info {
    pub fn of(g: &G) -> Info {
        let mut refs: Vec<fn() -> G> = vec![];
        let mut inf = Info::default();
        collect(g, &mut refs, &mut inf);
        let mut i = 0;
        while i < refs.len() {
            let g = (refs[i])();
            collect(&g, &mut refs, &mut inf);
            i += 1;
        }
        for f in &refs {
            inf.height.insert(key(*f), INF);
        }
        loop {
            let mut changed = false;
            for f in &refs {
                let h = (inf.height(&f()) + 1).min(INF);
                let e = inf.height.get_mut(&key(*f)).unwrap();
                if h < *e {
                    *e = h;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        inf
    }
    pub fn height(&self, g: &G) -> u32 {
        match g {
            G::Ref(f) => self.height.get(&key(*f)).copied().unwrap_or(INF),
            G::Struct(_, fs) => self.height_fields(fs),
            G::Enum(_, vs) => vs.iter().map(|(_, fs)| self.height_fields(fs)).min().unwrap_or(INF),
            G::Maybe(..) | G::Any(_) | G::Punct(..) => 0,
            G::Sep(t, _) | G::Left(_, t) | G::Right(_, t) | G::Delim(_, t) => self.height(t),
            G::Either(l, r) => self.height(l).min(self.height(r)),
            _ => 0,
        }
    }
    pub fn height_fields(&self, fs: &[(Arc<str>, G)]) -> u32 {
        fs.iter().map(|(_, g)| self.height(g)).max().unwrap_or(0)
    }
}

fn collect(g: &G, refs: &mut Vec<fn() -> G>, inf: &mut Info) {
    match g {
        G::Ref(f) => {
            if !refs.iter().any(|r| key(*r) == key(*f)) {
                refs.push(*f);
            }
        }
        G::Kw(k) | G::RKw(k) => {
            if !inf.words.contains(k) {
                inf.words.push(k)
            }
        }
        G::Custom(ks) => {
            for k in ks.iter() {
                if !inf.words.contains(k) {
                    inf.words.push(k)
                }
            }
        }
        G::P(p) => {
            if !inf.puncts.contains(p) {
                inf.puncts.push(p)
            }
        }
        G::Struct(_, fs) => fs.iter().for_each(|(_, g)| collect(g, refs, inf)),
        G::Enum(_, vs) => vs.iter().for_each(|(_, fs)| fs.iter().for_each(|(_, g)| collect(g, refs, inf))),
        G::Maybe(a, b) | G::Punct(a, b) | G::Sep(a, b) | G::Left(a, b) | G::Right(a, b) | G::Either(a, b) => {
            collect(a, refs, inf);
            collect(b, refs, inf);
        }
        G::Any(t) => collect(t, refs, inf),
        G::Delim(d, t) => {
            if !inf.delims.contains(d) {
                inf.delims.push(*d);
            }
            collect(t, refs, inf)
        }
        _ => {}
    }
}
