//! Sentences of grammars: generation from the grammar model, mutation, rendering as source text.

use crate::ch::Ch;
use crate::gram::{Info, G, INF, RUST_KW};
use crate::lits;
use crate::tok::close;

#[derive(Clone, Debug)]
pub enum Piece {
    /// token text; true: must be glued to the next piece
    T(String, bool),
    Grp(char, Vec<Piece>),
}

pub struct Gen<'i> {
    pub info: &'i Info,
    pub budget: i64,
    pub max_depth: u32,
}

pub const IDENTS: &[&str] = &["a", "b", "foo", "x1", "_y", "r#fn", "été", "Zed", "union", "a_rather_long_identifier_name", "r#type", "i", "漢字"];

pub fn ident(ch: &mut Ch) -> String {
    match ch.weighted(&[6, 1]) {
        0 => ch.pick(IDENTS).to_string(),
        _ => format!("v{}", ch.below(100000)),
    }
}

fn word(ch: &mut Ch, info: &Info) -> String {
    match ch.weighted(&[4, 3, 2]) {
        1 => ch.pick(RUST_KW).to_string(),
        2 if !info.words.is_empty() => ch.pick(&info.words).to_string(),
        _ => ident(ch),
    }
}

fn near(ch: &mut Ch, kws: &[&'static str]) -> String {
    if kws.is_empty() {
        return ident(ch);
    }
    let k = *ch.pick(kws);
    let s = match ch.below(5) {
        0 => format!("{k}_"),
        1 => k.to_uppercase(),
        2 if !matches!(k, "_" | "self" | "Self" | "super" | "crate") => format!("r#{k}"),
        3 if k.chars().count() > 1 => k.chars().take(k.chars().count() - 1).collect(),
        _ => format!("x{k}"),
    };
    if kws.contains(&s.as_str()) { format!("{s}9x") } else { s }
}

pub fn neg(ch: &mut Ch, num: u32, den: u32, out: &mut Vec<Piece>) -> bool {
    if ch.chance(num, den) {
        let glue = ch.flag();
        out.push(Piece::T("-".into(), glue));
        true
    } else {
        false
    }
}

impl<'i> Gen<'i> {
    pub fn new(info: &'i Info, budget: i64, max_depth: u32) -> Self {
        Gen { info, budget, max_depth }
    }

    fn t(&mut self, s: impl Into<String>, out: &mut Vec<Piece>) {
        self.budget -= 1;
        out.push(Piece::T(s.into(), false));
    }

    fn choose(&self, ch: &mut Ch, hs: &[u32], depth: u32) -> usize {
        let min = hs.iter().copied().min().unwrap();
        if depth >= self.max_depth || self.budget <= 0 {
            let c: Vec<usize> = (0..hs.len()).filter(|i| hs[*i] == min).collect();
            return c[ch.idx(c.len())];
        }
        let c: Vec<usize> = (0..hs.len()).filter(|i| hs[*i] < INF).collect();
        if c.is_empty() {
            return 0;
        }
        c[ch.idx(c.len())]
    }

    fn count(&mut self, ch: &mut Ch, depth: u32) -> usize {
        if self.budget <= 0 {
            return 0;
        }
        let m = if depth <= 1 { 40 } else if depth <= 3 { 6 } else { 3 };
        ch.size(m)
    }

    pub fn gen(&mut self, g: &G, ch: &mut Ch, depth: u32, out: &mut Vec<Piece>) {
        match g {
            G::Ref(f) => {
                if self.info.height(g) >= INF {
                    // has no sentence: leave it incomplete
                    self.budget -= 1;
                    if depth >= self.max_depth || self.budget <= 0 {
                        return;
                    }
                }
                self.gen(&f(), ch, depth + 1, out)
            }
            G::Ident => {
                let s = ident(ch);
                self.t(s, out)
            }
            G::Word => {
                let s = word(ch, self.info);
                self.t(s, out)
            }
            G::Custom(ks) => {
                let s = if ch.flag() { near(ch, ks) } else { word(ch, self.info) };
                self.t(s, out)
            }
            G::Kw(k) | G::RKw(k) => self.t(*k, out),
            G::P(p) => {
                let n = p.chars().count();
                for (i, c) in p.chars().enumerate() {
                    out.push(Piece::T(c.to_string(), i + 1 < n));
                }
                self.budget -= 1;
            }
            G::LBool => {
                let s = *ch.pick(&["true", "false"]);
                self.t(s, out)
            }
            G::LByte => {
                let b = ch.below(256) as u8;
                let s = lits::byte_spelling(ch, b);
                self.t(s, out)
            }
            G::LInt => {
                neg(ch, 1, 3, out);
                let v = lits::i64_val(ch).unsigned_abs() as u128;
                let s = lits::int(ch, v.min(i64::MAX as u128));
                self.t(s, out)
            }
            G::LUint => {
                let v = lits::u64_val(ch) as u128;
                let s = lits::int(ch, v);
                self.t(s, out)
            }
            G::LFloat => {
                neg(ch, 1, 3, out);
                let s = lits::float(ch).0;
                self.t(s, out)
            }
            G::LChar => {
                let c = lits::chr(ch);
                let s = lits::char_spelling(ch, c);
                self.t(s, out)
            }
            G::LStr => {
                let v = lits::string(ch, 8);
                let s = lits::str_spelling(ch, &v);
                self.t(s, out)
            }
            G::LBStr => {
                let v = lits::bytes(ch, 8);
                let s = lits::bstr_spelling(ch, &v);
                self.t(s, out)
            }
            G::Lit => {
                let k = [G::LUint, G::LStr, G::LInt, G::LFloat, G::LBool, G::LChar, G::LByte, G::LBStr];
                let g = ch.pick(&k).clone();
                self.gen(&g, ch, depth, out)
            }
            G::Wide(n) => {
                for _ in 0..*n {
                    let s = word(ch, self.info);
                    self.t(s, out)
                }
            }
            G::Empty | G::Eof | G::NotEof => {}
            G::Struct(_, fs) => {
                for (_, g) in fs {
                    self.gen(g, ch, depth, out);
                }
            }
            G::Enum(_, vs) => {
                if vs.is_empty() {
                    return;
                }
                let hs: Vec<u32> = vs.iter().map(|(_, fs)| self.info.height_fields(fs)).collect();
                let i = self.choose(ch, &hs, depth);
                for (_, g) in &vs[i].1 {
                    self.gen(g, ch, depth, out);
                }
            }
            G::Maybe(p, t) => {
                let h = self.info.height(p).max(self.info.height(t));
                if h < INF && depth < self.max_depth && self.budget > 0 && ch.chance(3, 5) {
                    self.gen(p, ch, depth + 1, out);
                    self.gen(t, ch, depth + 1, out);
                }
            }
            G::Any(t) => {
                if self.info.height(t) >= INF || depth >= self.max_depth {
                    return;
                }
                for _ in 0..self.count(ch, depth) {
                    self.gen(t, ch, depth + 1, out);
                }
            }
            G::Punct(t, p) => {
                if self.info.height(t) >= INF || depth >= self.max_depth {
                    return;
                }
                let n = self.count(ch, depth);
                for i in 0..n {
                    self.gen(t, ch, depth + 1, out);
                    if i + 1 < n || ch.chance(1, 3) {
                        self.gen(p, ch, depth + 1, out);
                    }
                }
            }
            G::Sep(t, p) | G::Left(p, t) | G::Right(p, t) => {
                let n = if depth >= self.max_depth { 1 } else { self.count(ch, depth).max(1) };
                for i in 0..n {
                    if i > 0 {
                        self.gen(p, ch, depth + 1, out);
                    }
                    self.gen(t, ch, depth + 1, out);
                }
            }
            G::Delim(d, t) => {
                let mut inner = vec![];
                self.gen(t, ch, depth, &mut inner);
                self.budget -= 2;
                out.push(Piece::Grp(*d, inner));
            }
            G::Either(l, r) => {
                let hs = [self.info.height(l), self.info.height(r)];
                let i = self.choose(ch, &hs, depth);
                self.gen(if i == 0 { l } else { r }, ch, depth, out);
            }
        }
    }

    /// a token that could matter to the grammar, or not
    pub fn any_piece(&mut self, ch: &mut Ch, out: &mut Vec<Piece>) {
        match ch.weighted(&[3, 4, 4, 3, 3, 1]) {
            0 => {
                let s = ident(ch);
                self.t(s, out)
            }
            1 if !self.info.words.is_empty() => {
                let s = *ch.pick(&self.info.words);
                self.t(s, out)
            }
            2 if !self.info.puncts.is_empty() => {
                let p = *ch.pick(&self.info.puncts);
                self.gen(&G::P(p), ch, 99, out)
            }
            3 if ch.chance(1, 10) => {
                // out of range, alone or with a sign
                neg(ch, 1, 2, out);
                let s = *ch.pick(&["9223372036854775808", "9223372036854775809", "18446744073709551616", "0xffff_ffff_ffff_ffff_f", "99999999999999999999999i8", "1", "0"]);
                self.t(s, out)
            }
            3 => self.gen(&G::Lit, ch, 99, out),
            4 => {
                let d = if !self.info.delims.is_empty() && ch.chance(2, 3) { *ch.pick(&self.info.delims) } else { *ch.pick(&['(', '[', '{']) };
                let mut inner = vec![];
                let n = ch.below(3);
                for _ in 0..n {
                    self.any_piece(ch, &mut inner);
                }
                out.push(Piece::Grp(d, inner));
            }
            _ => {
                let s = *ch.pick(&["-", "+", ",", ";", ":", "=", "<", ">", "&", "|", "!", "?", "@", "#", "$", ".", "%", "^", "~", "*", "fn", "_", "true"]);
                let glue = ch.flag();
                out.push(Piece::T(s.into(), glue));
            }
        }
    }

    pub fn mutate(&mut self, ch: &mut Ch, p: &mut Vec<Piece>) {
        // descend into a random group, sometimes
        let groups: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Piece::Grp(..))).collect();
        if !groups.is_empty() && ch.chance(1, 2) {
            let i = groups[ch.idx(groups.len())];
            if let Piece::Grp(_, inner) = &mut p[i] {
                self.mutate(ch, inner);
            }
            return;
        }
        if p.is_empty() {
            self.any_piece(ch, p);
            return;
        }
        let i = ch.idx(p.len());
        match ch.below(9) {
            0 => p.truncate(i),
            1 => {
                p.remove(i);
            }
            2 => {
                let mut v = vec![];
                self.any_piece(ch, &mut v);
                p.splice(i..i + 1, v);
            }
            3 => {
                let mut v = vec![];
                self.any_piece(ch, &mut v);
                p.splice(i..i, v);
            }
            4 => {
                let x = p[i].clone();
                p.insert(i, x);
            }
            5 => {
                let j = ch.idx(p.len());
                p.swap(i, j);
            }
            6 => {
                let g = groups.first().copied();
                match g {
                    Some(g) => {
                        if let Piece::Grp(d, _) = &mut p[g] {
                            *d = *ch.pick(&['(', '[', '{']);
                        }
                    }
                    None => self.any_piece(ch, p),
                }
            }
            7 => self.any_piece(ch, p),
            _ => {
                if let Piece::T(_, g) = &mut p[i] {
                    *g = !*g;
                }
            }
        }
    }
}

const WS: &[&str] = &[
    " ", "  ", "\n", "\t", "\r\n", "\n\n   ", " /* c */ ", " /* é\n 漢 */ ", " // line\n", "\n\t  ", " /**/ ", "  \r\n \t", "\u{85}", "\u{2028}",
];

pub struct Style {
    pub fancy: bool,
    pub lead: bool,
}

fn is_wordish(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '"' || c == '\'' || c == '#' || (c as u32) > 127
}

/// many spaces or line ends, around the sizes at which narrow counters overflow
fn broad_gap(ch: &mut Ch, out: &mut String) {
    let n = match ch.below(12) {
        0 => ch.range(65_530, 65_545),
        1..=3 => ch.range(500, 5_000),
        _ => ch.range(100, 270),
    };
    let c = *ch.pick(&[' ', ' ', '\n']);
    out.extend(std::iter::repeat(c).take(n as usize));
}

/// `fancy`: 0 is plain, 1 has all kinds of white space and comments, 2 has broad gaps, too
fn emit(p: &[Piece], ch: &mut Ch, fancy: u8, out: &mut String, rec: &mut Vec<(usize, usize)>) {
    let mut glue = true;
    for x in p {
        if !glue {
            let prev = out.chars().last().unwrap_or(' ');
            let next = match x {
                Piece::T(s, _) => s.chars().next().unwrap_or(' '),
                Piece::Grp(d, _) => *d,
            };
            // no separation is needed next to delimiters, nor between , ; and anything
            let free = "()[]{},;".contains(prev) || "()[]{}".contains(next) || (next == ',' && is_wordish(prev) && prev != '#');
            if free && ch.chance(1, 2) {
            } else if fancy == 2 && ch.chance(1, 4) {
                broad_gap(ch, out);
            } else if fancy > 0 {
                let w = if ch.chance(1, 3) { ch.pick(WS) } else { " " };
                out.push_str(w);
            } else {
                out.push(' ');
            }
        }
        match x {
            Piece::T(s, g) => {
                rec.push((out.len(), out.len() + s.len()));
                out.push_str(s);
                glue = *g;
            }
            Piece::Grp(d, inner) => {
                rec.push((out.len(), out.len() + 1));
                out.push(*d);
                if fancy > 0 && ch.chance(1, 4) {
                    out.push_str(ch.pick(WS));
                }
                emit(inner, ch, fancy, out, rec);
                if inner.last().map_or(false, |l| matches!(l, Piece::T(_, true))) || (fancy > 0 && ch.chance(1, 4)) {
                    out.push(' ');
                }
                rec.push((out.len(), out.len() + 1));
                out.push(close(*d));
                glue = false;
            }
        }
    }
}

pub fn render(p: &[Piece], ch: &mut Ch) -> String {
    render_at(p, ch, String::new()).0
}

/// Renders after the given text; also tells where in the text each piece and delimiter is.
pub fn render_at(p: &[Piece], ch: &mut Ch, mut s: String) -> (String, Vec<(usize, usize)>) {
    let fancy = if ch.chance(1, 2) { 1 + ch.chance(1, 40) as u8 } else { 0 };
    let mut rec = vec![];
    if fancy > 0 && ch.chance(1, 3) {
        s.push_str(ch.pick(WS));
    }
    emit(p, ch, fancy, &mut s, &mut rec);
    if fancy > 0 && ch.chance(1, 3) {
        s.push_str(ch.pick(WS));
    }
    (s, rec)
}

/// Plain rendering with single spaces, no choices.
pub fn plain(p: &[Piece]) -> String {
    let mut c = Ch::new(&[]);
    let mut s = String::new();
    emit(p, &mut c, 0, &mut s, &mut vec![]);
    s
}
