//! Hand-written node types used by several checks: helper types in many combinations, and derived
//! types with overlapping alternatives, recursion, many fields and many variants.

use parsel::ast::*;
use vh::engine::Typ;
use vh::node::{Fu, Ops, Wide};
use vh::{genum, gkw, gmixed, gstruct, gtuple, gunit, ops_list};

parsel::define_keywords! {
    pub mod kw {
        if => If;
        select => Select;
        from => From;
        fn => Fn;
        null => Null;
        union => Union;
        été => Ete;
        _ => Under;
    }
}
parsel::define_keywords! {
    pub mod kw2 {
        while => While;
        a => A;
        b => B;
    }
}
gkw! {
    kw::If => "if", kw::Select => "select", kw::From => "from", kw::Fn => "fn", kw::Null => "null",
    kw::Union => "union", kw::Ete => "été", kw::Under => "_",
    kw2::While => "while", kw2::A => "a", kw2::B => "b",
}

pub type Id = CustomIdent<kw::Keywords>;
pub type Id2 = CustomIdent<kw2::Keywords>;
pub type Comma = Token![,];
pub type Semi = Token![;];
pub type Plus = Token![+];
pub type Minus = Token![-];
pub type Star = Token![*];
pub type Dot = Token![.];
pub type Colon = Token![:];
pub type Colon2 = Token![::];
pub type Eq_ = Token![=];
pub type EqEq = Token![==];
pub type Arrow = Token![->];
pub type Fat = Token![=>];
pub type Shl = Token![<<];
pub type Lt = Token![<];
pub type Q = Token![?];
pub type At = Token![@];
pub type Dots = Token![...];

// ---- plain structs ----
gunit!(Unit);
gtuple!(T0());
gstruct!(N0 {});
gstruct!(Header { name: Separated<Word, Minus>, colon: Colon, value: Any<Lit> });
gtuple!(Wide12(a: Ident, b: Plus, c: LitInt, d: Comma, e: Word, f: Maybe<At, LitStr>, g: Paren<Any<Ident>>, h: Semi, i: Id, j: kw::If, k: Lit, l: Token![!]));
gstruct!(Wide24 {
    f0: Ident, f1: LitInt, f2: Ident, f3: LitInt, f4: Ident, f5: LitInt, f6: Ident, f7: LitInt,
    f8: Ident, f9: LitInt, f10: Ident, f11: LitInt, f12: Ident, f13: LitInt, f14: Ident, f15: LitInt,
    f16: Ident, f17: LitInt, f18: Ident, f19: LitInt, f20: Ident, f21: LitInt, f22: Ident, f23: LitStr,
});
gstruct!(SameTypes { first: Ident, second: Ident, third: Ident, fourth: Ident });
gstruct!(Opts { a: Maybe<kw2::A>, b: Maybe<kw2::B>, c: Maybe<Plus, Ident>, d: Maybe<Minus, Maybe<Minus, LitInt>>, e: Any<LitStr>, end: Eof });
gstruct!(Markers { e0: Empty, n0: NotEof, w: Word, e1: Empty, rest: Any<Word>, eof: Eof, e2: Empty });
gtuple!(GroupEof(a: Paren<EofStruct>, b: Maybe<Comma, Ident>));
gstruct!(EofStruct { x: Any<LitInt>, eof: Eof });
gstruct!(Nested { head: Header, semi: Semi, tail: SameTypes });
gtuple!(Wrapper(a: Box<Brace<Nested>>));

// ---- alternatives ----
genum!(LongFirst { Long(a: Ident, b: Plus, c: Ident, d: Plus, e: Ident), Mid(a: Ident, b: Plus, c: Ident), Short(a: Ident) });
genum!(ShortFirst { Short(a: Ident), Mid(a: Ident, b: Plus, c: Ident), Long(a: Ident, b: Plus, c: Ident, d: Plus, e: Ident) });
genum!(Overlap { A(a: Ident, b: Comma, c: LitInt), B(a: Word, b: Comma, c: LitStr), C(a: Lit, b: Semi), D(a: Any<Word>, b: Token![!]), E(a: Paren<Ident>), F(a: Paren<LitInt>, b: Q) });
genum!(Far { A(a: Ident, b: LitInt, c: Plus, d: Ident), B(a: Ident, b: LitStr), C(a: LitInt), D(a: Ident, b: LitInt, c: Minus, d: LitStr, e: Semi) });
genum!(FarRev { D(a: Ident, b: LitInt, c: Minus, d: LitStr, e: Semi), C(a: LitInt), B(a: Ident, b: LitStr), A(a: Ident, b: LitInt, c: Plus, d: Ident) });
genum!(FarGroup { A(a: Paren<Far>, b: Semi), B(a: Paren<Overlap>, b: Comma), C(a: Bracket<Any<Ident>>, b: LitInt), D(a: Ident, b: Brace<LongFirst>) });
genum!(Kws { If(k: kw::If, c: Paren<Lit>), Sel(k: kw::Select, w: Separated<Id, Comma>, f: Maybe<kw::From, Id>), Fun(k: kw::Fn, n: Id, a: Paren<Punctuated<Id, Comma>>), Null(k: kw::Null), Under(u: kw::Under), Ete(e: kw::Ete), Other(i: Id) });
genum!(Nullable { A(a: Maybe<Plus, Ident>, b: Maybe<Minus, LitInt>, c: Semi), B(a: Any<LitStr>, b: Any<Ident>, e: Eof), C(e: Empty) });
genum!(NeverReached { A(a: Any<Ident>), B(a: Ident, b: LitInt), C(a: LitInt) });
genum!(Named named { Call { name: Ident, args: Paren<Punctuated<Lit, Comma>> }, Index { base: Ident, idx: Bracket<LitInt> }, Field { base: Ident, dot: Dot, field: Ident }, Just { name: Ident } });
genum!(MixPunct { A(a: Lt, b: Eq_, c: Ident), B(a: Token![<=], b: LitInt), C(a: Shl, b: Ident), D(a: Dot, b: Dot, c: Dot), E(a: Dots, b: Ident), F(a: Token![..], b: LitInt), G(a: Arrow), H(a: Fat, b: EqEq) });
gmixed!(Mixed { Rec { a: Ident, b: Eq_, c: Lit }, Rec2 { k: kw::If, x: Mixed2 }; Tup(a: LitInt, b: LitInt), Tup1(a: LitStr); Nothing });
gmixed!(Mixed2 { R { p: Paren<Mixed3> }; T(a: At, b: Word); });
gmixed!(Mixed3 { ; V(x: Comma, y: LitChar), W(x: Comma, y: LitByte), X(x: LitBool); });
genum!(Lits { U(a: LitUint), I(a: LitInt), F(a: LitFloat), S(a: LitStr), B(a: LitByteStr), Y(a: LitByte), C(a: LitChar), T(a: LitBool) });
genum!(LitOrder { S(a: LitStr, b: Semi), I(a: LitInt, b: Semi), U(a: LitUint, b: Comma), L(a: Lit) });
genum!(Inner { P(a: Ident, b: Eq_, c: Ident), Q(a: Ident, b: Colon, c: LitInt), R(a: Ident, b: EqEq, c: LitStr) });
genum!(Outer { X(a: Inner, b: Semi), Y(a: Inner, b: Comma), Z(a: Ident, b: Inner), W(a: Maybe<Q, Inner>, b: At) });
genum!(Wides { A(a: Wide<3>, b: Semi), B(a: Wide<2>, b: LitInt, c: Comma), C(a: Ident, b: Wide<2>), D(a: LitInt, b: Wide<1>), E(a: Lit, b: Wide<4>) });
genum!(WideIn { A(a: Paren<Wides>, b: Semi), B(a: Wide<2>), C(a: Paren<Either<Wide<4>, Far>>), D(a: Wides) });
genum!(One { Only(a: Ident, b: Semi) });

genum!(Many40 {
    V0(a: Ident, b: Plus, c: LitInt), V1(a: Ident, b: Minus, c: LitInt), V2(a: Ident, b: Star, c: LitInt), V3(a: Ident, b: Colon, c: LitInt),
    V4(a: Ident, b: Colon2, c: LitInt), V5(a: Ident, b: Eq_, c: LitInt), V6(a: Ident, b: EqEq, c: LitInt), V7(a: Ident, b: Arrow, c: LitInt),
    V8(a: Ident, b: Fat, c: LitInt), V9(a: Ident, b: Shl, c: LitInt), V10(a: Ident, b: Lt, c: LitInt), V11(a: Ident, b: Q, c: LitInt),
    V12(a: Ident, b: At, c: LitInt), V13(a: Ident, b: Plus, c: LitStr), V14(a: Ident, b: Minus, c: LitStr), V15(a: Ident, b: Star, c: LitStr),
    V16(a: Ident, b: Colon, c: LitStr), V17(a: Ident, b: Colon2, c: LitStr), V18(a: Ident, b: Eq_, c: LitStr), V19(a: Ident, b: EqEq, c: LitStr),
    V20(a: Ident, b: Comma, c: LitStr), V21(a: Ident, b: Semi, c: LitStr), V22(a: Ident, b: Dot, c: LitStr), V23(a: Ident, b: At, c: LitStr),
    V24(a: Ident, b: Comma, c: LitInt), V25(a: Ident, b: Semi, c: LitInt), V26(a: Ident, b: Dot, c: LitInt), V27(a: Ident, b: Comma, c: LitChar),
    V28(a: Ident, b: Semi, c: LitChar), V29(a: Ident, b: Dot, c: LitChar), V30(a: Ident, b: Plus, c: LitChar), V31(a: LitStr, b: Plus, c: LitInt),
    V32(a: LitStr, b: Minus, c: LitInt), V33(a: LitStr, b: Star), V34(a: LitStr, b: Semi, c: Ident), V35(a: LitStr, b: Semi, c: LitInt),
    V36(a: Ident, b: Paren<Ident>), V37(a: Ident, b: Bracket<Ident>), V38(a: Ident, b: Brace<Ident>), V39(a: Ident)
});

// ---- recursion ----
genum!(Json rec {
    Null(n: kw::Null), Bool(b: LitBool), Num(n: LitFloat), Int(n: LitInt), Str(s: LitStr),
    Arr(a: Bracket<Punctuated<Json, Comma>>), Obj(o: Brace<Punctuated<Entry, Comma>>)
});
gstruct!(Entry rec { key: LitStr, colon: Colon, value: Json });
genum!(Expr rec { Add(e: LeftAssoc<Plus, Term>), });
genum!(Term rec { Mul(e: LeftAssoc<Star, Factor>), });
genum!(Factor rec { Call(f: Ident, a: Paren<Punctuated<Expr, Comma>>), Neg(m: Token![!], f: Box<Factor>), Group(p: Box<Paren<Expr>>), Var(i: Ident), Num(l: LitInt) });
genum!(Assign rec { A(e: RightAssoc<Eq_, Simple>), });
genum!(Simple rec { P(p: Box<Paren<Assign>>), I(i: Ident), });
genum!(Stmt rec {
    If(k: kw::If, c: Paren<Expr>, b: Brace<Any<Stmt>>, e: Maybe<kw::Select, Brace<Any<Stmt>>>),
    While(k: kw2::While, c: Expr, b: Brace<Any<Stmt>>),
    Let(k: Token![let], n: Ident, e: Eq_, v: Expr, s: Semi),
    Block(b: Brace<Any<Stmt>>),
    Ex(e: Expr, s: Semi),
});
genum!(ListA rec { Cons(i: Ident, c: Comma, t: Box<ListB>), Nil(e: Empty) });
genum!(ListB rec { Cons(i: LitInt, c: Semi, t: Box<ListA>), Last(i: LitInt) });
gstruct!(Tree rec { name: Word, kids: Maybe<Colon, Box<Bracket<Any<Tree>>>> });
genum!(Back rec { A(a: Box<Paren<Back>>, b: Plus), B(a: Box<Paren<Back>>, b: Minus), C(a: Ident) });

/// helper types over leaves and over each other
pub fn helpers() -> Vec<Ops> {
    ops_list![
        Word, Id, Id2, kw::If, kw::Under, kw::Ete, LitBool, LitByte, LitInt, LitUint, LitFloat, LitChar, LitStr,
        LitByteStr, Lit, Empty, Eof, NotEof,
        Maybe<Plus, Ident>, Maybe<Plus>, Maybe<kw::If, LitInt>, Maybe<Paren<Ident>, Ident>, Maybe<Separated<Ident, Dot>, LitInt>,
        Maybe<Plus, Maybe<Minus, Maybe<Star, Ident>>>, Maybe<LitInt, Empty>, Maybe<Eof>, Maybe<NotEof, Word>,
        Paren<Ident>, Bracket<LitInt>, Brace<Word>, Paren<Empty>, Bracket<Eof>, Brace<NotEof>, Paren<Paren<Paren<Lit>>>,
        Paren<Maybe<Plus, Ident>>, Brace<Any<Bracket<Any<Lit>>>>, Bracket<Punctuated<Ident, Comma>>,
        Punctuated<Ident, Comma>, Punctuated<LitInt, Semi>, Punctuated<Lit, Arrow>, Punctuated<Separated<Ident, Dot>, Comma>,
        Punctuated<Paren<Any<Word>>, Comma>, Punctuated<Maybe<Plus, Ident>, Comma>, Punctuated<Either<LitInt, Ident>, Either<Comma, Semi>>,
        Punctuated<Word, kw::If>, Punctuated<Either<LitStr, Punctuated<Ident, Comma>>, Semi>,
        Many<Lit>, Many<Id>, Many<Paren<Word>>, Many<Either<Separated<Ident, Plus>, LitInt>>,
        Separated<Ident, Comma>, Separated<LitInt, Plus>, Separated<Lit, Colon2>,
        Separated<Word, NotEof>, Separated<Separated<Ident, Dot>, Comma>, Separated<Maybe<Plus, Ident>, Comma>, Separated<Paren<Ident>, Either<Comma, Semi>>,
        Any<Ident>, Any<LitInt>, Any<Paren<Ident>>, Any<Separated<Ident, Comma>>, Any<Either<LitInt, Ident>>, Any<Either<Either<Ident, LitStr>, Paren<Lit>>>,
        Any<Bracket<Maybe<Plus, Ident>>>, Any<kw::If>, Any<Id>,
        LeftAssoc<Plus, Ident>, LeftAssoc<Either<Plus, Minus>, LitUint>, LeftAssoc<Dot, Paren<Lit>>, LeftAssoc<Plus, LeftAssoc<Star, Ident>>,
        RightAssoc<Plus, Ident>, RightAssoc<Either<Plus, Shl>, LitUint>, RightAssoc<Eq_, Bracket<Lit>>, RightAssoc<Arrow, LeftAssoc<Plus, RightAssoc<Star, Ident>>>,
        Either<Ident, LitInt>, Either<LitInt, Lit>, Either<Separated<Ident, Plus>, Ident>, Either<Paren<Ident>, Paren<LitInt>>, Either<Either<LitStr, Ident>, Either<Word, Lit>>,
        Either<Maybe<Plus, Ident>, LitInt>, Either<kw::If, Id>, Either<Empty, Ident>, Either<Any<Ident>, LitInt>,
        Either<Separated<Ident, Plus>, Separated<Ident, Minus>>, Maybe<Box<Plus>, Box<Paren<Box<Lit>>>>,
        Any<Fu<Ident>>, Punctuated<Fu<LitInt>, Fu<Comma>>, Any<Plus>, Any<Minus>, Separated<LitInt, Minus>, LeftAssoc<Minus, LitInt>,
    ]
}

pub fn derived() -> Vec<Ops> {
    ops_list![
        Unit, T0, N0, Header, Wide12, Wide24, SameTypes, Opts, Markers, GroupEof, EofStruct, Nested, Wrapper, LongFirst, ShortFirst, Overlap, Far,
        FarRev, FarGroup, Kws, Nullable, NeverReached, Named, MixPunct, Mixed, Lits, LitOrder, Outer, One, Many40, Json, Entry, Expr,
        Assign, Stmt, ListA, ListB, Tree, Back,
        Any<Overlap>, Punctuated<Far, Comma>, Separated<Named, Semi>, Maybe<Inner, Outer>, Either<LongFirst, Far>, Either<Inner, Kws>, LeftAssoc<Inner, Named>,
        RightAssoc<Comma, Kws>, Many<One>, Many<Named>, Paren<Far>, Bracket<Any<One>>, Any<Either<One, Inner>>, Punctuated<Tree, Comma>,
    ]
}

/// the derived types that involve alternatives
pub fn choices() -> Vec<Ops> {
    ops_list![
        Wides, WideIn, Either<Wide<3>, Wide<2>>, Either<Wide<1>, Wide<3>>, Either<Wide<2>, Far>, Either<Far, Wide<3>>, Either<Either<Wide<1>, LitInt>, Either<Wide<2>, LitUint>>, Either<LitInt, Ident>, Either<Lit, Word>,
        LongFirst, ShortFirst, Overlap, Far, FarRev, FarGroup, Kws, Nullable, Named, MixPunct, Mixed, Lits, LitOrder, Outer, Many40, Json, Expr, Stmt, ListB, Back,
        Any<Overlap>, Punctuated<Far, Comma>, Separated<Named, Semi>, Maybe<Inner, Outer>, Either<LongFirst, Far>, Either<Far, LongFirst>, Either<Inner, Kws>,
        LeftAssoc<Comma, Named>, RightAssoc<Comma, Kws>, Many<Named>, Paren<Far>, Brace<Punctuated<Outer, Comma>>,
        Either<Ident, LitInt>, Either<Separated<Ident, Plus>, Separated<Ident, Minus>>, Either<Paren<Ident>, Paren<LitInt>>, Either<Either<LitStr, One>, Either<Inner, Named>>, Either<kw::If, Id>,
        Nested, Header, Wide12, SameTypes, Wrapper, GroupEof, Opts,
    ]
}

pub fn helper_types() -> Vec<Typ> {
    Typ::all(helpers())
}
pub fn derived_types() -> Vec<Typ> {
    Typ::all(derived())
}
pub fn choice_types() -> Vec<Typ> {
    Typ::all(choices())
}

/// deeply nested texts
pub fn deep_text(ch: &mut vh::Ch) -> (&'static str, String) {
    let d = match ch.weighted(&[3, 2, 1]) {
        0 => ch.range(1, 12),
        1 => ch.range(10, 60),
        _ => ch.range(60, 220),
    } as usize;
    let broken = ch.chance(1, 3);
    let at = ch.idx(d + 1);
    let x = *ch.pick(&["1", "\"s\"", "true", "null", "", "2.5"]);
    match ch.below(8) {
        0 => {
            let mut s = String::new();
            for k in 0..d {
                s.push_str(if broken && k == at { "(" } else { "[" });
                if ch.chance(1, 4) {
                    s.push_str("1,");
                }
            }
            s.push_str(x);
            for k in (0..d).rev() {
                s.push_str(if broken && k == at { ")" } else { "]" });
            }
            ("Json", s)
        }
        1 => {
            let mut s = String::new();
            for k in 0..d {
                s.push_str(&format!("{{\"k{k}\"{}", if broken && k == at { ";" } else { ":" }));
            }
            s.push_str(if x.is_empty() { "0" } else { x });
            s.push_str(&"}".repeat(d));
            ("Json", s)
        }
        2 => {
            let mut s = "(".repeat(d);
            s.push_str("a + b");
            for k in 0..d {
                s.push_str(if broken && k == at { "* )" } else { ")" });
                if ch.chance(1, 4) {
                    s.push_str(" * c");
                }
            }
            ("Expr", s)
        }
        3 => {
            let mut s = String::new();
            for k in 0..d {
                s.push_str(if broken && k == at { "f {" } else { "f(x," });
            }
            s.push('1');
            for k in (0..d).rev() {
                s.push_str(if broken && k == at { "}" } else { ")" });
            }
            ("Expr", s)
        }
        4 => {
            let mut s = String::new();
            for k in 0..d {
                s.push_str(if broken && k == at { "{ let x 1;" } else { "{ let x = 1; " });
            }
            s.push_str(&"}".repeat(d));
            ("Stmt", s)
        }
        5 => {
            // every level tries two alternatives on the same group
            let d = d.min(9);
            let mut s = "(".repeat(d);
            s.push('a');
            for k in 0..d {
                s.push_str(if broken && k == at { ")" } else if ch.flag() { ")+" } else { ")-" });
            }
            ("Back", s)
        }
        6 => {
            let mut s = String::new();
            for k in 0..d {
                s.push_str(if broken && k == at { "n:(" } else { "n:[ m " });
            }
            s.push('z');
            for k in (0..d).rev() {
                s.push_str(if broken && k == at { ")" } else { "]" });
            }
            ("Tree", s)
        }
        _ => {
            let mut s = String::new();
            for k in 0..d {
                s.push_str(&if k % 2 == 0 { format!("a{k},") } else { format!("{k};") });
            }
            if d % 2 == 1 {
                s.push('9');
            }
            if broken {
                s.push_str(" 8");
            }
            ("ListA", s)
        }
    }
}
gtuple!(Sep2(a: Comma, b: Semi));
gtuple!(Pre3(a: Ident, b: Plus, c: Ident));
genum!(SepAlt { A(a: Comma, b: Semi), B(a: Comma, b: Comma, c: Comma), C(a: Plus) });

/// types whose attempts read several tokens before they fail
pub fn lookahead() -> Vec<Ops> {
    ops_list![
        Maybe<Pre3, LitInt>, Maybe<Pre3>, Any<Pre3>, Separated<Ident, Sep2>, Separated<LitInt, SepAlt>, LeftAssoc<Sep2, Ident>, RightAssoc<SepAlt, Ident>,
        Punctuated<Ident, Sep2>, Any<Maybe1>, Maybe<Separated<Ident, Sep2>, Comma>, Any<Either<Pre3, Sep2>>, Either<Pre3, Ident>, Either<Any<Pre3>, Ident>, Any<Far>, Any<FarGroup>,
        Any<Paren<Pre3>>, Separated<Pre3, Comma>, Any<Separated<Ident, Sep2>>, Look, Look2, Separated<Ident, Either<Sep2, Pre3>>,
        Any<Wide<2>>, Any<Wides>, Separated<Wide<2>, Comma>, Maybe<Wide<3>, Wide<2>>, Either<Wide<3>, Any<Ident>>,
        Any<Named>, Any<Kws>, Separated<Kws, Sep2>, LeftAssoc<SepAlt, Far>, Punctuated<Any<Pre3>, Semi>, Punctuated<Maybe<Pre3, Semi>, Semi>,
    ]
}
gtuple!(Maybe1(a: Maybe<Pre3>, b: LitStr));
gtuple!(Look(a: Maybe<Pre3, Semi>, b: Any<Ident>, c: Maybe<Sep2, Ident>, d: Any<Sep2>, e: Any<Comma>));
gtuple!(Look2(a: Separated<Ident, Sep2>, b: Comma, c: Any<Pre3>, d: Any<Ident>, e: Any<Plus>));

pub fn lookahead_types() -> Vec<Typ> {
    Typ::all(lookahead())
}
pub fn all_types() -> Vec<Typ> {
    let mut v = derived_types();
    v.extend(helper_types());
    v.extend(lookahead_types());
    v
}
