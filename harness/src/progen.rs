//! Generates modules of type definitions that derive parsel's traits, together with their grammar
//! (`Gram`), content dump (`Dump`) and expectations about which impls exist.

use crate::ch::Ch;
use std::collections::BTreeSet;

/// A generated module.
#[derive(Clone, Default)]
pub struct Module {
    /// whole text of the file
    pub text: String,
    /// the definitions alone, for reports
    pub defs: String,
    pub features: Vec<&'static str>,
    pub types: usize,
}

#[derive(Clone, Debug)]
struct Ty {
    text: String,
    /// consumes at least one token whenever it parses
    nn: bool,
    /// type parameters (by index) on which the existence of the impls depends
    uses: BTreeSet<usize>,
}

#[derive(Clone)]
struct Field {
    attrs: Vec<String>,
    vis: String,
    name: String,
    ty: Ty,
    rec: bool,
    /// removed by cfg: not part of the type
    gone: bool,
}

#[derive(Clone, PartialEq)]
enum Shape {
    Unit,
    Tuple,
    Named,
}

#[derive(Clone)]
struct Var {
    attrs: Vec<String>,
    name: String,
    shape: Shape,
    fields: Vec<Field>,
    disc: Option<u32>,
    gone: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum PK {
    Type,
    Lang,
    Usize,
    Bool,
    Char,
    Life,
}

#[derive(Clone)]
struct Param {
    name: String,
    kind: PK,
    bounds: Vec<String>,
    default: Option<String>,
    /// spell constants so that no other item can be meant
    full: bool,
}

impl Param {
    fn arg(&self) -> String {
        match self.kind {
            PK::Type | PK::Lang | PK::Life => self.name.clone(),
            _ if self.full => format!("{{ {} }}", self.name),
            _ => self.name.clone(),
        }
    }
}

#[derive(Clone)]
struct Def {
    name: String,
    attrs: Vec<String>,
    vis: String,
    is_enum: bool,
    params: Vec<Param>,
    wh: Vec<String>,
    wh_comma: bool,
    /// it restricts the arguments
    real_wh: bool,
    /// a struct has one, with an empty name
    vars: Vec<Var>,
    nn: bool,
    via_macro: bool,
    derive_style: u32,
}

const RAW: &[&str] = &[
    "r#type", "r#fn", "r#match", "r#struct", "r#enum", "r#if", "r#else", "r#let", "r#for", "r#where", "r#async", "r#await", "r#dyn", "r#impl",
    "r#move", "r#mod", "r#use", "r#pub", "r#ref", "r#mut", "r#return", "r#static", "r#trait", "r#true", "r#false", "r#try", "r#gen", "r#abstract", "r#yield", "r#box", "r#in", "r#loop",
    "r#unsafe", "r#const", "r#continue", "r#break", "r#extern", "r#as", "r#while", "r#macro", "r#become", "r#priv", "r#typeof", "r#unsized", "r#virtual", "r#final", "r#override", "r#do",
];
/// names the derived code itself might use
const INTERNAL: &[&str] = &[
    "input", "error", "result", "tokens", "ast_node", "cause", "err", "string", "formatter", "fork", "value", "parser", "fmt", "parse", "to_tokens", "from_str", "span", "index", "field", "fields",
    "inner", "body", "node", "this", "other", "f", "s", "e", "x", "t", "kw", "lit", "ident", "stream", "buffer", "content", "message", "output", "ret", "res", "val", "acc", "error_acc", "name",
    "enum_", "ctor", "variant", "self_", "_self", "__self", "arg0", "__arg0", "__field0", "field_0", "_0", "parsel_field_A_0", "item", "tt", "ts", "iter",
];
const PRELUDE: &[&str] = &[
    "Option", "Some", "None", "Result", "Ok", "Err", "Vec", "String", "Box", "Default", "Clone", "Copy", "Debug", "Iterator", "IntoIterator", "Into", "From", "ToString", "ToOwned", "Drop", "Fn",
    "Send", "Sync", "Sized", "PartialEq", "Eq", "Error", "Span", "TokenStream", "TokenTree", "Ident", "Word", "Lit", "Maybe", "Paren", "Punctuated", "Token", "Formatter", "ParseStream", "ParseBuffer",
    "Item", "Iter", "Type", "Target", "Output", "Self_", "ParseTrait", "Infallible", "Box_", "AsRef", "Extend", "FromIterator",
];
const DERIVED_NAMES: &[&str] = &["Parse", "ToTokens", "FromStr", "Display"];
const LOWER: &[&str] = &["str", "bool", "usize", "u8", "u32", "char", "i64", "f64", "core", "std", "alloc", "syn", "quote", "parsel", "proc_macro2", "main", "vec", "format", "println", "union", "auto", "default", "raw", "macro_rules", "dyn_", "crate_", "super_"];
const UNI: &[&str] = &["été", "名前", "Ünï", "переменная", "ñ", "_é", "ΑΒΓ", "a1_2", "__", "___x", "_x1", "X", "ABC_DEF", "camelCase", "a_very_long_name_of_a_thing_that_goes_on_and_on_for_more_than_sixty_four_characters_in_total"];
const PLAIN_T: &[&str] = &["Foo", "Bar", "Baz", "Node", "Expr", "Stmt", "Item_", "Decl", "Block", "Value", "Entry", "Pair", "List", "Tree", "Leaf", "Atom", "Call", "Access", "Rule", "Clause", "Term", "Factor"];
const PLAIN_F: &[&str] = &["a", "b", "c", "d", "left", "right", "op", "head", "tail", "key", "colon", "semi", "comma", "first", "second", "third", "lhs", "rhs", "items", "args", "ty", "expr", "cond", "then", "otherwise"];
const PARAMS: &[&str] = &["T", "U", "V", "K", "A", "P", "Inner", "_T", "Ty", "X1", "Err", "Ok", "Error", "Result", "Parse", "ToTokens", "input", "tokens", "error", "F", "R", "S", "W", "Output", "Some", "None", "str", "parsel"];
const LIVES: &[&str] = &["'a", "'b", "'input", "'de", "'ident", "'_x", "'parsel", "'tokens"];
const CPARAMS: &[&str] = &["N", "M", "LEN", "input", "error", "tokens", "result", "formatter", "string", "n", "IDX", "cause", "ast_node", "err"];

/// (type, consumes)
const LEAVES: &[&str] = &[
    "::parsel::ast::Ident", "::parsel::ast::Word", "::parsel::ast::LitInt", "::parsel::ast::LitStr", "::parsel::ast::Lit", "::parsel::ast::LitBool", "::parsel::ast::LitChar",
    "::parsel::ast::LitFloat", "::parsel::ast::LitUint", "::parsel::ast::LitByte", "::parsel::ast::LitByteStr",
    "::parsel::ast::Token![+]", "::parsel::ast::Token![,]", "::parsel::ast::Token![=]", "::parsel::ast::Token![::]", "::parsel::ast::Token![fn]", "::parsel::ast::Token![if]",
    "::parsel::ast::token::Comma", "::parsel::ast::token::Semi", "::parsel::ast::token::Let", "::parsel::ast::Token![->]", "::parsel::ast::Token![;]", "::parsel::ast::Token![.]",
];
const PUNCT: &[&str] = &["::parsel::ast::Token![,]", "::parsel::ast::Token![;]", "::parsel::ast::token::Plus", "::parsel::ast::Token![::]", "::parsel::ast::Token![=>]", "::parsel::ast::token::Dot"];

/// A `define_keywords!` block.
#[derive(Clone)]
struct Kws {
    name: String,
    vis: String,
    words: Vec<(String, String)>,
    underscore: Option<String>,
}

const KW_WORDS: &[&str] = &[
    "select", "from", "a", "ab", "abc", "if", "fn", "crate", "self", "Self", "super", "r#type", "r#foo", "true", "false", "union", "été", "名前", "x1", "__", "_a", "gen", "async", "dyn", "try", "macro_rules",
    "auto", "default", "str", "u8", "NULL", "Null", "null", "a_long_keyword_that_nobody_would_want_to_type", "static", "where", "r#a", "r#if", "move", "e", "b", "r", "c", "i32", "safe", "raw", "static_", "selec", "selects",
];
const KW_NAMES: &[&str] = &[
    "If", "Select", "From", "Null", "A", "B", "Kw", "T", "U", "H", "S", "Span", "String", "Result", "Option", "Some", "None", "Ok", "Err", "Ident", "Word", "TokenStream", "Clone", "Copy", "Default", "PartialEq", "Ord",
    "Debug", "Hash", "Display", "Parse", "ToTokens", "Error", "Box", "r#type", "r#fn", "span", "string", "input", "ident", "message", "other", "formatter", "tokens", "core", "parsel", "std", "str", "bool", "usize", "u8", "Été", "X_1",
    "lower", "raw", "AsRef", "Eq", "KeywordList", "Formatter", "TokenTree", "keywords", "KEYWORDS", "IdentExt", "_state", "From_", "Sync", "Drop", "_X",
];

impl Kws {
    fn text(&self) -> String {
        let mut s = format!("::parsel::define_keywords! {{\n{}mod {} {{\n", self.vis, self.name);
        for (w, n) in &self.words {
            s.push_str(&format!("    {w} => {n};\n"));
        }
        if let Some(n) = &self.underscore {
            s.push_str(&format!("    _ => {n};\n"));
        }
        s.push_str("}\n}\n");
        s
    }
    fn all(&self) -> Vec<(String, String)> {
        let mut v = self.words.clone();
        v.extend(self.underscore.iter().map(|n| ("_".to_string(), n.clone())));
        v
    }
    fn meaning(&self) -> String {
        self.all()
            .iter()
            .map(|(w, n)| {
                let t = format!("{}::{n}", self.name);
                format!(
                    "impl ::vh::node::Gram for {t} {{ fn g() -> ::vh::gram::G {{ ::vh::gram::G::Kw({w:?}) }} }}\nimpl ::vh::node::Dump for {t} {{ fn v(&self) -> ::vh::gram::V {{ ::vh::gram::V::leaf({w:?}, ::vh::tok::Sp::of(self.span())) }} }}\n"
                )
            })
            .collect()
    }
    fn types(&self) -> Vec<String> {
        let mut v: Vec<String> = self.all().iter().map(|(_, n)| format!("{}::{n}", self.name)).collect();
        v.push(format!("::parsel::ast::CustomIdent<{}::Keywords>", self.name));
        v
    }
}

struct Gen<'a, 'b> {
    ch: &'a mut Ch<'b>,
    kws: Vec<Kws>,
    taken: BTreeSet<String>,
    defs: Vec<Def>,
    feats: BTreeSet<&'static str>,
    plain_names: bool,
    in_fn: bool,
    bare: bool,
}

fn leaf(t: &str) -> Ty {
    Ty { text: t.to_string(), nn: true, uses: BTreeSet::new() }
}
fn wrap(text: String, nn: bool, parts: &[&Ty]) -> Ty {
    let mut uses = BTreeSet::new();
    for p in parts {
        uses.extend(p.uses.iter().copied());
    }
    Ty { text, nn, uses }
}

/// scope in which a field type is generated
struct Sc<'s> {
    params: &'s [Param],
    /// text by which the type itself can be named
    own: String,
    /// its rank in the module
    at: usize,
    /// other types that are being defined together with it: (name with arguments, rank)
    group: &'s [(String, usize)],
}

impl Gen<'_, '_> {
    fn feat(&mut self, f: &'static str) {
        self.feats.insert(f);
    }
    fn name(&mut self, plain: &[&str], kind: u32) -> String {
        // kind 0: type, 1: variant, 2: field
        if self.plain_names {
            return self.ch.pick(plain).to_string();
        }
        match self.ch.weighted(&[6, 2, 3, 2, 2, 2, 1]) {
            0 => self.ch.pick(plain).to_string(),
            1 => {
                self.feat("raw names");
                self.ch.pick(RAW).to_string()
            }
            2 => {
                self.feat("names used in derived code");
                self.ch.pick(INTERNAL).to_string()
            }
            3 if kind != 2 => {
                self.feat("names of the prelude");
                self.ch.pick(PRELUDE).to_string()
            }
            4 => {
                self.feat("names of crates, primitives, contextual keywords");
                self.ch.pick(LOWER).to_string()
            }
            5 => {
                self.feat("unusual names");
                self.ch.pick(UNI).to_string()
            }
            6 if kind == 1 => {
                self.feat("variants named like the derived traits");
                self.ch.pick(DERIVED_NAMES).to_string()
            }
            _ => self.ch.pick(plain).to_string(),
        }
    }
    /// a name that is not in the set, which it joins
    fn fresh(&mut self, plain: &[&str], kind: u32, set: &mut BTreeSet<String>) -> String {
        let n = self.name(plain, kind);
        // a raw identifier is the same name as the plain one for the compiler
        let bare = |s: &str| s.trim_start_matches("r#").to_string();
        let n = if kind == 0 && (n == "Self_" && false) { "X".into() } else { n };
        if set.insert(bare(&n)) {
            return n;
        }
        for k in 0.. {
            let m = format!("{}{k}", bare(&n));
            if set.insert(m.clone()) {
                return m;
            }
        }
        unreachable!()
    }

    fn keywords(&mut self) -> Kws {
        self.feat("keyword modules");
        let pool = ["kw", "keyword", "tok", "r#mod", "core_", "syntax", "K", "kw_"];
        let mut name = self.ch.pick(&pool).to_string();
        while !self.taken.insert(name.trim_start_matches("r#").to_string()) {
            name.push('_');
        }
        let n = match self.ch.weighted(&[1, 6, 2, 1]) {
            0 => 0,
            1 => self.ch.range(1, 4),
            2 => self.ch.range(4, 9),
            _ => self.ch.range(10, 40),
        };
        let mut words: Vec<(String, String)> = vec![];
        let mut set: BTreeSet<String> = ["Keywords".to_string()].into();
        for _ in 0..n {
            let w = self.ch.pick(KW_WORDS).to_string();
            if words.iter().any(|(x, _)| *x == w) {
                continue;
            }
            let n = loop {
                let mut n = if self.plain_names { self.ch.pick(&KW_NAMES[..7]).to_string() } else { self.ch.pick(KW_NAMES).to_string() };
                if set.contains(n.trim_start_matches("r#")) {
                    n = format!("{}{}", n.trim_start_matches("r#"), set.len());
                }
                if set.insert(n.trim_start_matches("r#").to_string()) {
                    break n;
                }
            };
            words.push((w, n));
        }
        let underscore = if self.ch.chance(1, 4) { Some(format!("Under{}", set.len())) } else { None };
        let vis = if self.in_fn { "pub ".into() } else { self.ch.pick(&["pub ", "", "pub(crate) ", "pub(super) "]).to_string() };
        Kws { name, vis, words, underscore }
    }

    fn leaf(&mut self, sc: &Sc) -> Ty {
        match self.ch.weighted(&[8, if sc.params.is_empty() { 3 } else { 8 }, 2, 4]) {
            3 if !self.kws.is_empty() => {
                let k = self.ch.idx(self.kws.len());
                let ts = self.kws[k].types();
                let t = self.ch.pick(&ts).clone();
                leaf(&t)
            }
            0 | 3 => {
                let t = *self.ch.pick(LEAVES);
                leaf(t)
            }
            1 if !sc.params.is_empty() => {
                let i = self.ch.idx(sc.params.len());
                let p = &sc.params[i];
                let mut t = match p.kind {
                    PK::Type => leaf(&p.name),
                    PK::Lang => {
                        self.feat("associated types");
                        let a = *self.ch.pick(&["Name", "Op"]);
                        leaf(&match self.ch.below(2) {
                            0 => format!("{}::{a}", p.name),
                            _ => format!("<{} as ::vh::rt::Lang>::{a}", p.name),
                        })
                    }
                    PK::Life => {
                        self.feat("lifetime parameters");
                        leaf(&format!("::vh::rt::Life<{}>", p.name))
                    }
                    PK::Usize if sc.group.is_empty() && self.ch.chance(1, 3) => {
                        self.feat("impls that exist for some constants only");
                        let mut t = leaf(&format!("::vh::rt::Few<{}>", p.arg()));
                        t.uses.insert(i);
                        t
                    }
                    PK::Usize => {
                        self.feat("const parameters");
                        leaf(&match self.ch.below(2) {
                            0 => format!("::vh::rt::Nth<{}>", p.arg()),
                            _ => format!("::vh::rt::Nth<{{ {} }}>", p.name),
                        })
                    }
                    _ => return leaf("::parsel::ast::Word"),
                };
                if matches!(p.kind, PK::Type | PK::Lang) {
                    t.uses.insert(i);
                }
                t
            }
            _ => {
                let n = self.ch.below(8);
                leaf(&format!("::vh::rt::Nth<{n}>"))
            }
        }
    }

    /// a type that is defined before rank `at`, instantiated in the scope
    fn earlier(&mut self, sc: &Sc) -> Option<Ty> {
        let n = sc.at.min(self.defs.len());
        if n == 0 {
            return None;
        }
        let d = self.defs[self.ch.idx(n)].clone();
        // bounds that only the leaves are known to satisfy
        let strict = d.params.iter().any(|p| p.bounds.iter().any(|b| !b.contains("vh::rt::")) || p.kind == PK::Lang) || d.real_wh;
        let mut uses = BTreeSet::new();
        let mut args = vec![];
        let used = used_params(&d);
        for (i, p) in d.params.iter().enumerate() {
            let arg = match p.kind {
                PK::Type => {
                    let of_scope: Vec<usize> = (0..sc.params.len()).filter(|k| sc.params[*k].kind == PK::Type).collect();
                    if !strict && !of_scope.is_empty() && self.ch.flag() {
                        let k = *self.ch.pick(&of_scope);
                        if used.contains(&i) {
                            uses.insert(k);
                        }
                        sc.params[k].name.clone()
                    } else {
                        self.ch.pick(LEAVES).to_string()
                    }
                }
                PK::Lang => {
                    let of_scope: Vec<usize> = (0..sc.params.len()).filter(|k| sc.params[*k].kind == PK::Lang).collect();
                    if !d.real_wh && !of_scope.is_empty() && self.ch.flag() && d.params.iter().all(|p| p.bounds.iter().all(|b| b.contains("vh::rt::"))) {
                        let k = *self.ch.pick(&of_scope);
                        if used.contains(&i) {
                            uses.insert(k);
                        }
                        sc.params[k].name.clone()
                    } else {
                        self.ch.pick(&["::vh::rt::LangA", "::vh::rt::LangB"]).to_string()
                    }
                }
                PK::Usize => {
                    let of_scope: Vec<usize> = (0..sc.params.len()).filter(|k| sc.params[*k].kind == PK::Usize).collect();
                    // the members of a group would have to imply each other's bounds
                    if !of_scope.is_empty() && !d.real_wh && !(used.contains(&i) && !sc.group.is_empty()) && self.ch.flag() {
                        let k = *self.ch.pick(&of_scope);
                        if used.contains(&i) {
                            uses.insert(k);
                        }
                        sc.params[k].arg()
                    } else if used.contains(&i) {
                        self.ch.pick(&["1", "3"]).to_string()
                    } else {
                        self.ch.below(8).to_string()
                    }
                }
                PK::Life => {
                    let of_scope: Vec<usize> = (0..sc.params.len()).filter(|k| sc.params[*k].kind == PK::Life).collect();
                    of_scope.first().map_or("'static".into(), |k| sc.params[*k].name.clone())
                }
                PK::Bool => "true".into(),
                PK::Char => "'x'".into(),
            };
            args.push(arg);
        }
        // arguments that equal a default may be left out at the end
        let path = match self.ch.below(if self.in_fn { 1 } else { 3 }) {
            0 => d.name.clone(),
            1 => format!("self::{}", d.name),
            _ => d.name.clone(),
        };
        Some(Ty { text: if args.is_empty() { path } else { format!("{path}<{}>", args.join(", ")) }, nn: d.nn, uses })
    }

    /// a field type without recursion
    fn ty(&mut self, sc: &Sc, depth: u32, need_nn: bool) -> Ty {
        let w: &[u32] = if depth == 0 { &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0] } else { &[10, 3, 2, 2, 2, 2, 1, 1, 2, 1] };
        let t = match self.ch.weighted(w) {
            0 => self.leaf(sc),
            1 => match self.earlier(sc) {
                Some(t) => t,
                None => self.leaf(sc),
            },
            2 => {
                let p = self.ty(sc, depth - 1, true);
                if self.ch.chance(1, 3) {
                    wrap(format!("::parsel::ast::Maybe<{}>", p.text), false, &[&p])
                } else {
                    let b = self.ty(sc, depth - 1, false);
                    wrap(format!("::parsel::ast::Maybe<{}, {}>", p.text, b.text), false, &[&p, &b])
                }
            }
            3 => {
                let i = self.ty(sc, depth - 1, false);
                let d = *self.ch.pick(&["Paren", "Bracket", "Brace"]);
                wrap(format!("::parsel::ast::{d}<{}>", i.text), true, &[&i])
            }
            4 => {
                let i = self.ty(sc, depth - 1, true);
                let k = *self.ch.pick(&["Any", "Many"]);
                wrap(format!("::parsel::ast::{k}<{}>", i.text), false, &[&i])
            }
            5 => {
                let i = self.ty(sc, depth - 1, false);
                let s = *self.ch.pick(PUNCT);
                let k = *self.ch.pick(&["Punctuated", "Separated"]);
                let nn = k == "Separated" && i.nn;
                wrap(format!("::parsel::ast::{k}<{}, {s}>", i.text), nn, &[&i])
            }
            6 => {
                let i = self.ty(sc, depth - 1, true);
                let s = *self.ch.pick(PUNCT);
                let k = *self.ch.pick(&["LeftAssoc", "RightAssoc"]);
                wrap(format!("::parsel::ast::{k}<{s}, {}>", i.text), true, &[&i])
            }
            7 => {
                let a = self.ty(sc, depth - 1, need_nn);
                let b = self.ty(sc, depth - 1, need_nn);
                wrap(format!("::parsel::ast::Either<{}, {}>", a.text, b.text), a.nn && b.nn, &[&a, &b])
            }
            8 => {
                let i = self.ty(sc, depth - 1, need_nn);
                wrap(if self.ch.flag() { format!("::std::boxed::Box<{}>", i.text) } else { format!("({})", i.text) }, i.nn, &[&i])
            }
            _ => {
                let n = *self.ch.pick(&["Empty", "NotEof", "Eof"]);
                Ty { text: format!("::parsel::ast::{n}"), nn: false, uses: BTreeSet::new() }
            }
        };
        if need_nn && !t.nn {
            wrap(format!("::parsel::ast::Bracket<{}>", t.text), true, &[&t])
        } else {
            t
        }
    }

    /// a field type that mentions the type itself or another one of its group; `guarded`: something
    /// has been consumed before it
    fn rec_ty(&mut self, sc: &Sc, guarded: bool, in_enum: bool) -> (Ty, bool) {
        let mut names = vec![(sc.own.clone(), sc.at)];
        if !sc.group.is_empty() && self.ch.flag() {
            names = sc.group.to_vec();
            self.feat("mutual recursion");
        } else {
            self.feat("direct recursion");
            if self.ch.chance(1, 4) {
                names = vec![("Self".into(), sc.at)];
            }
        }
        let (n, rank) = names[self.ch.idx(names.len())].clone();
        let op = *self.ch.pick(PUNCT);
        let b = |s: &str| format!("::std::boxed::Box<{s}>");
        let d = *self.ch.pick(&["Paren", "Bracket", "Brace"]);
        let k = self.ch.below(if in_enum { 10 } else { 6 });
        let (text, nn) = match k {
            0 => (format!("::parsel::ast::{d}<::parsel::ast::Any<{}>>", if self.ch.flag() { b(&n) } else { n.clone() }), true),
            1 => (format!("::parsel::ast::{d}<::parsel::ast::Punctuated<{}, {op}>>", if self.ch.flag() { b(&n) } else { n.clone() }), true),
            2 => (format!("::parsel::ast::Maybe<{op}, {}>", b(&n)), false),
            3 => (format!("::std::boxed::Box<::parsel::ast::Maybe<{op}, {n}>>"), false),
            4 => (format!("::parsel::ast::{d}<::parsel::ast::Maybe<{op}, {}>>", b(&n)), true),
            5 => (format!("::parsel::ast::Maybe<{op}, ::parsel::ast::{d}<{}>>", b(&n)), false),
            6 => (format!("::parsel::ast::{d}<{}>", b(&n)), true),
            7 => (format!("::std::boxed::Box<::parsel::ast::{d}<{n}>>"), true),
            8 if guarded => (b(&n), true),
            9 if guarded => (format!("::parsel::ast::Any<{n}>"), false),
            _ => (format!("::parsel::ast::{d}<{}>", b(&n)), true),
        };
        // every cycle contains a reference to the type itself or to one of lower rank
        let must = rank <= sc.at;
        (Ty { text, nn, uses: BTreeSet::new() }, must)
    }

    fn field_attrs(&mut self) -> Vec<String> {
        let mut v = vec![];
        for _ in 0..self.ch.weighted(&[12, 2, 1]) {
            self.feat("other attributes on fields");
            v.push(
                self.ch
                    .pick(&[
                        "/// documentation of \"this\" field #[parsel(recursive)]", "#[allow(dead_code)]", "#[doc = \"x\"]", "#[cfg(all())]", "#[cfg_attr(all(), doc = \"y\")]", "#[cfg_attr(any(), nonsense)]",
                        "#[doc(hidden)]", "/** block */", "#[allow(unused, non_snake_case)]", "#[parsel(recursive = false)]", "#[cfg(not(any()))]",
                    ])
                    .to_string(),
            );
        }
        let mut seen = false;
        v.retain(|a| !a.starts_with("#[parsel") || !std::mem::replace(&mut seen, true));
        v
    }

    fn fields(&mut self, sc: &Sc, n: usize, shape: &Shape, in_enum: bool, rec: bool, vis: bool, last_variant: bool) -> Vec<Field> {
        let mut set = BTreeSet::new();
        let mut out: Vec<Field> = vec![];
        let mut guarded = false;
        for _ in 0..n {
            let mut f = Field { attrs: self.field_attrs(), vis: String::new(), name: String::new(), ty: leaf(""), rec: false, gone: false };
            if self.ch.chance(1, 24) {
                self.feat("fields removed by cfg");
                f.gone = true;
                f.attrs = vec!["#[cfg(any())]".into()];
                f.ty = leaf("does::not::Exist");
            } else if rec && self.ch.chance(2, 5) {
                // the last variant ends the recursion
                let (t, must) = self.rec_ty(sc, guarded, in_enum && !last_variant);
                f.ty = t;
                f.attrs.retain(|a| !a.contains("= false"));
                if must || self.ch.flag() {
                    f.rec = true;
                    let a = if self.ch.flag() { "#[parsel(recursive)]" } else { "#[parsel(recursive = true)]" };
                    let at = self.ch.idx(f.attrs.len() + 1);
                    f.attrs.insert(at, a.into());
                }
            } else {
                let depth = self.ch.weighted(&[5, 3, 2, 1]) as u32;
                f.ty = self.ty(sc, depth, false);
                if self.ch.chance(1, 20) && f.ty.uses.is_empty() && !self.mentions_generic(&f.ty.text) {
                    // the attribute merely omits the bound
                    f.rec = true;
                    f.attrs.retain(|a| !a.contains("= false"));
                    f.attrs.push("#[parsel(recursive)]".into());
                    self.feat("recursive attribute without recursion");
                }
            }
            guarded |= f.ty.nn && !f.gone;
            if *shape == Shape::Named {
                f.name = if f.gone { format!("gone_{}", out.len()) } else { self.fresh(PLAIN_F, 2, &mut set) };
            }
            if vis {
                f.vis = self.ch.pick(&["", "pub ", "pub(crate) ", "pub(self) ", "pub(super) "]).to_string();
                if self.in_fn && f.vis == "pub(super) " {
                    f.vis = "pub ".into();
                }
                if !f.vis.is_empty() {
                    self.feat("visibility");
                }
            }
            out.push(f);
        }
        out
    }

    fn mentions_generic(&self, t: &str) -> bool {
        self.defs.iter().any(|d| t.contains(&d.name))
    }

    fn shape(&mut self) -> (Shape, usize) {
        let n = match self.ch.weighted(&[2, 10, 3, 1]) {
            0 => 0,
            1 => self.ch.range(1, 4) as usize,
            2 => self.ch.range(3, 8) as usize,
            _ => {
                self.feat("more than ten fields");
                self.ch.range(11, 27) as usize
            }
        };
        let s = match self.ch.weighted(&[4, 4, 1]) {
            0 => Shape::Named,
            1 => Shape::Tuple,
            _ if n == 0 => Shape::Unit,
            _ => Shape::Tuple,
        };
        (s, n)
    }

    fn params(&mut self) -> Vec<Param> {
        let n = match self.ch.weighted(&[6, 3, 2, 1]) {
            0 => return vec![],
            n => n,
        };
        let mut set: BTreeSet<String> = self.taken.clone();
        let mut v: Vec<Param> = vec![];
        for _ in 0..n {
            let mut kind = *self.ch.pick(&[PK::Type, PK::Type, PK::Type, PK::Lang, PK::Usize, PK::Usize, PK::Usize, PK::Bool, PK::Char, PK::Life]);
            // where clauses that differ in lifetimes only are ambiguous to the compiler
            if kind == PK::Life && v.iter().any(|p| p.kind == PK::Life) {
                kind = PK::Usize;
            }
            let is_const = !matches!(kind, PK::Type | PK::Lang | PK::Life);
            let pool = if kind == PK::Life {
                LIVES
            } else if is_const {
                CPARAMS
            } else {
                PARAMS
            };
            let mut name = if self.plain_names { pool[self.ch.idx(4)] } else { *self.ch.pick(pool) }.to_string();
            while !set.insert(name.clone()) {
                name.push('0');
            }
            let mut bounds = vec![];
            if kind == PK::Lang {
                bounds.push("::vh::rt::Lang".to_string());
            }
            if kind == PK::Type {
                for _ in 0..self.ch.weighted(&[4, 2, 1]) {
                    self.feat("bounds");
                    bounds.push(self.ch.pick(&["::vh::rt::Tr", "::vh::rt::Tr2<'static, ::core::primitive::u8>", "for<'x> ::vh::rt::Tr2<'x, &'x ::core::primitive::u8>", "::core::clone::Clone", "::core::fmt::Debug", "?Sized"]).to_string());
                }
                if bounds.iter().any(|b| b == "?Sized") {
                    // inline fields need a sized type
                    bounds.retain(|b| b != "?Sized");
                }
                bounds.dedup();
            }
            let full = !self.plain_names;
            v.push(Param { name, kind, bounds, default: None, full });
        }
        v.sort_by_key(|p| p.kind != PK::Life);
        // types before constants is no longer required, but defaults only at the end
        let mut with = self.ch.below(v.len() as u32 + 1) as usize;
        if self.ch.flag() {
            with = 0;
        }
        let k = v.len();
        for p in v.iter_mut().skip(k - with).filter(|p| p.kind != PK::Life) {
            self.feats.insert("default arguments");
            p.default = Some(match p.kind {
                PK::Type => "::parsel::ast::LitStr".into(),
                PK::Lang => "::vh::rt::LangA".into(),
                PK::Usize => "3".into(),
                PK::Bool => "true".into(),
                PK::Char => "'c'".into(),
                PK::Life => unreachable!(),
            });
        }
        self.feat("generic types");
        v
    }

    fn item_attrs(&mut self) -> Vec<String> {
        let mut v = vec![];
        for _ in 0..self.ch.weighted(&[10, 3, 1]) {
            self.feat("other attributes on types");
            v.push(self.ch.pick(&["/// documented", "#[allow(dead_code)]", "#[must_use]", "#[non_exhaustive]", "#[cfg(all())]", "#[cfg_attr(all(), doc = \"z\")]", "#[repr(C)]"]).to_string());
        }
        let had = v.iter().any(|a| a == "#[repr(C)]");
        v.retain(|a| a != "#[repr(C)]");
        if had {
            v.push("#[repr(C)]".into());
        }
        v.dedup();
        if let Some(i) = v.iter().position(|a| a == "#[non_exhaustive]") {
            if v.iter().rposition(|a| a == "#[non_exhaustive]") != Some(i) {
                v.remove(i);
            }
        }
        if let Some(i) = v.iter().position(|a| a == "#[must_use]") {
            if v.iter().rposition(|a| a == "#[must_use]") != Some(i) {
                v.remove(i);
            }
        }
        v
    }

    fn def(&mut self, name: String, params: Vec<Param>, at: usize, group: &[(String, usize)], rec: bool) -> Def {
        let own = with_args(&name, &params.iter().map(|p| p.arg()).collect::<Vec<_>>());
        let is_enum = self.ch.chance(3, 5);
        let mut attrs = self.item_attrs();
        let vis = if self.in_fn { String::new() } else { self.ch.pick(&["pub ", "", "pub(crate) ", "pub(super) ", "pub(in crate) "]).to_string() };
        let sc = Sc { params: &params, own, at, group };
        let mut vars = vec![];
        if is_enum {
            let n = match self.ch.weighted(&[1, 2, 8, 3, 1]) {
                0 => 0,
                1 => 1,
                2 => self.ch.range(2, 4) as usize,
                3 => self.ch.range(4, 8) as usize,
                _ => {
                    self.feat("more than ten variants");
                    self.ch.range(11, 20) as usize
                }
            };
            let mut set = BTreeSet::new();
            set.insert("Self".to_string());
            for k in 0..n {
                let (mut shape, nf) = self.shape();
                let nf = if n > 8 { nf.min(3) } else { nf.min(13) };
                if nf == 0 && self.ch.flag() {
                    shape = Shape::Unit;
                }
                let last = k + 1 == n;
                let fields = self.fields(&sc, nf, &shape, true, rec, false, last);
                let mut vattrs = vec![];
                if self.ch.chance(1, 10) {
                    self.feat("attributes on variants");
                    vattrs.push(self.ch.pick(&["/// a variant", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]", "#[non_exhaustive]"]).to_string());
                }
                let gone = self.ch.chance(1, 24);
                let name = if gone { format!("Gone{k}") } else { self.fresh(PLAIN_T, 1, &mut set) };
                if gone {
                    vattrs = vec!["#[cfg(any())]".into()];
                    self.feat("variants removed by cfg");
                }
                vars.push(Var { attrs: vattrs, name, shape, fields, disc: None, gone });
            }
            if vars.iter().all(|v| v.gone) {
                self.feat("enum without variants");
            }
            let all_unit = vars.iter().all(|v| v.fields.is_empty() && v.shape == Shape::Unit);
            if !vars.is_empty() && vars.iter().any(|v| !v.gone) && params.iter().all(|_| true) && self.ch.chance(1, 6) {
                self.feat("explicit discriminants");
                attrs.retain(|a| !a.starts_with("#[repr"));
                if !all_unit || self.ch.flag() {
                    attrs.push("#[repr(u8)]".into());
                }
                let mut d = 0;
                for v in vars.iter_mut() {
                    d += 1 + self.ch.below(5);
                    if self.ch.flag() {
                        v.disc = Some(d);
                    } else {
                        v.disc = None;
                        d += 0;
                    }
                }
                // implicit ones count on from the one before: keep increasing
                let mut cur = 0u32;
                for v in vars.iter_mut() {
                    if let Some(x) = v.disc {
                        if x < cur {
                            v.disc = Some(cur);
                        }
                        cur = v.disc.unwrap();
                    }
                    cur += 1;
                }
            } else if vars.iter().all(|v| v.gone) {
                attrs.retain(|a| !a.starts_with("#[repr"));
            }
        } else {
            let (mut shape, nf) = self.shape();
            if nf == 0 && self.ch.flag() {
                shape = Shape::Unit;
            }
            let fields = self.fields(&sc, nf, &shape, false, rec, true, false);
            vars.push(Var { attrs: vec![], name: String::new(), shape, fields, disc: None, gone: false });
        }
        // every type parameter has to be used
        for (i, p, k) in params.iter().enumerate().flat_map(|(i, p)| [(i, p, 0), (i, p, 1)]) {
            // the bounds that a field without the recursive attribute contributes; the members of a
            // group have to imply each other's
            let each = !group.is_empty();
            if !matches!(p.kind, PK::Type | PK::Lang | PK::Life) || (k == 1 && !(each && p.kind == PK::Lang)) {
                continue;
            }
            let life = p.kind == PK::Life;
            if life && k == 1 {
                continue;
            }
            let live = format!("Life<{}>", p.name);
            let mentioned = if life { vars.iter().any(|v| !v.gone && v.fields.iter().any(|f| !f.gone && f.ty.text.contains(&live))) } else { false } || !life && !each && vars.iter().any(|v| !v.gone && v.fields.iter().any(|f| !f.gone && f.ty.uses.contains(&i) && mentions(&f.ty.text, &p.name)));
            if !mentioned {
                let mut t = match p.kind {
                    PK::Type => leaf(&p.name),
                    PK::Life => leaf(&format!("::vh::rt::{live}")),
                    _ => leaf(&format!("{}::{}", p.name, ["Name", "Op"][k])),
                };
                if !life {
                    t.uses.insert(i);
                }
                let f = |name: String| Field { attrs: vec![], vis: String::new(), name, ty: t.clone(), rec: false, gone: false };
                match vars.iter_mut().rev().find(|v| !v.gone && v.shape != Shape::Unit) {
                    Some(v) if v.shape == Shape::Named => v.fields.push(f(format!("use_{i}_{k}"))),
                    Some(v) => v.fields.push(f(String::new())),
                    None if is_enum => vars.push(Var { attrs: vec![], name: format!("Use{i}_{k}"), shape: Shape::Tuple, fields: vec![f(String::new())], disc: None, gone: false }),
                    None => {
                        vars[0].shape = Shape::Tuple;
                        vars[0].fields.push(f(String::new()));
                    }
                }
            }
        }
        // the attribute omits the bound of that field only, not of others that have the same type
        if self.ch.chance(1, 5) {
            let at: Vec<(usize, usize)> = vars.iter().enumerate().filter(|(_, v)| !v.gone).flat_map(|(i, v)| v.fields.iter().enumerate().map(move |(k, f)| (i, k, f))).filter(|(_, _, f)| !f.gone && !f.rec && !f.ty.uses.is_empty()).map(|(i, k, _)| (i, k)).collect();
            let to: Vec<usize> = (0..vars.len()).filter(|&i| !vars[i].gone && vars[i].shape != Shape::Unit).collect();
            if !at.is_empty() && !to.is_empty() {
                self.feat("recursive attribute on one of two fields of a type");
                let (i, k) = at[self.ch.idx(at.len())];
                let o = to[self.ch.idx(to.len())];
                let mut f = Field { attrs: vec![], vis: String::new(), name: String::new(), ty: vars[i].fields[k].ty.clone(), rec: false, gone: false };
                if vars[o].shape == Shape::Named {
                    f.name = "same_again".into();
                }
                vars[o].fields.push(f);
                let f = if self.ch.flag() { vars[o].fields.last_mut().unwrap() } else { &mut vars[i].fields[k] };
                f.rec = true;
                f.attrs.retain(|a| !a.contains("= false"));
                f.attrs.push("#[parsel(recursive)]".into());
            }
        }
        let mut wh = vec![];
        let mut real_wh = false;
        if self.ch.chance(if params.is_empty() { 1 } else { 2 }, 5) {
            self.feat("where clauses");
            for _ in 0..self.ch.range(1, 2) {
                let p: Vec<&Param> = params.iter().filter(|p| matches!(p.kind, PK::Type | PK::Lang)).collect();
                let subject = if p.is_empty() { "::parsel::ast::Word".to_string() } else { p[self.ch.idx(p.len())].name.clone() };
                // bounds that do not hold for everything
                let lang = |n: &str| params.iter().any(|p| p.name == n && p.kind == PK::Lang);
                let size = params.iter().find(|p| p.kind == PK::Usize);
                if group.is_empty() && self.ch.flag() {
                    let w = match (self.ch.below(3), size) {
                        (0, Some(n)) | (_, Some(n)) if p.is_empty() => format!("[::core::primitive::u8; {}]: ::core::default::Default", n.arg()),
                        (0, Some(n)) => format!("[(); {}]: ::core::default::Default", n.arg()),
                        (1, _) if !p.is_empty() => format!("{subject}: ::core::clone::Clone"),
                        (2, _) if lang(&subject) => format!("{subject}::Op: ::core::fmt::Debug"),
                        (_, _) if !p.is_empty() => format!("::std::vec::Vec<{subject}>: ::core::fmt::Debug"),
                        _ => continue,
                    };
                    self.feats.insert("where clauses that matter");
                    real_wh = true;
                    wh.push(w);
                    continue;
                }
                wh.push(match self.ch.below(5) {
                    0 => format!("{subject}: ::vh::rt::Tr"),
                    1 => format!("for<'q> {subject}: ::vh::rt::Tr2<'q, &'q ::core::primitive::u8>"),
                    2 => format!("for<'q> &'q {subject}: ::vh::rt::Tr"),
                    3 => "Self: ::core::marker::Sized".to_string(),
                    _ => format!("::std::vec::Vec<{subject}>: ::vh::rt::Tr"),
                });
            }
            wh.dedup();
        }
        let empty_wh = wh.is_empty() && self.ch.chance(1, 20);
        if empty_wh {
            wh.push(String::new());
        }
        let via_macro = self.ch.chance(1, 5);
        if via_macro {
            self.feat("generated by a macro");
        }
        // repetitions of a recursive type need it to consume something
        if rec {
            for (k, v) in vars.iter_mut().enumerate().filter(|(_, v)| !v.gone) {
                if v.fields.iter().any(|f| !f.gone && f.ty.nn) {
                    continue;
                }
                if v.shape == Shape::Unit {
                    v.shape = Shape::Tuple;
                }
                let name = if v.shape == Shape::Named { "guard_".to_string() } else { String::new() };
                let at = if self.ch.flag() { v.fields.len() } else { 0 };
                v.fields.insert(at, Field { attrs: vec![], vis: String::new(), name, ty: leaf(&format!("::vh::rt::Nth<{}>", k % 8)), rec: false, gone: false });
            }
        }
        // the derives of the standard library reject type macros in generic types
        if params.iter().any(|p| matches!(p.kind, PK::Type | PK::Lang)) {
            for v in vars.iter_mut() {
                for f in v.fields.iter_mut() {
                    f.ty.text = without_macros(&f.ty.text);
                }
            }
        }
        if vars.iter().any(|v| v.disc.is_some()) && vars.iter().any(|v| v.shape != Shape::Unit) && !attrs.iter().any(|a| a == "#[repr(u8)]") {
            attrs.push("#[repr(u8)]".into());
        }
        // nonnullable unless some variant can be empty
        let nn = vars.iter().filter(|v| !v.gone).all(|v| v.fields.iter().any(|f| !f.gone && f.ty.nn)) && (is_enum || !vars[0].fields.is_empty());
        Def { name, attrs, vis, is_enum, params, wh, wh_comma: self.ch.flag(), real_wh, vars, nn, via_macro, derive_style: self.ch.below(4) }
    }
}

/// names the tokens by path
fn without_macros(t: &str) -> String {
    let mut t = t.to_string();
    for (a, b) in [("+", "Plus"), (",", "Comma"), ("=", "Eq"), ("::", "PathSep"), ("fn", "Fn"), ("if", "If"), ("->", "RArrow"), (";", "Semi"), (".", "Dot"), ("=>", "FatArrow")] {
        t = t.replace(&format!("::parsel::ast::Token![{a}]"), &format!("::parsel::ast::token::{b}"));
    }
    t
}

/// whether the word occurs in the text by itself
fn mentions(text: &str, word: &str) -> bool {
    text.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '#')).any(|w| w == word)
}

fn with_args(name: &str, args: &[String]) -> String {
    if args.is_empty() { name.to_string() } else { format!("{name}<{}>", args.join(", ")) }
}

/// parameters on which the existence of the impls depends
fn used_params(d: &Def) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    for v in d.vars.iter().filter(|v| !v.gone) {
        for f in v.fields.iter().filter(|f| !f.gone && !f.rec) {
            s.extend(f.ty.uses.iter().copied());
        }
    }
    s
}

const STD: [&str; 3] = ["::core::clone::Clone", "::core::cmp::PartialEq", "::core::fmt::Debug"];
const OURS: [&str; 4] = ["::parsel::Parse", "::parsel::ToTokens", "::parsel::FromStr", "::parsel::Display"];

impl Def {
    fn derives(&self, short: bool) -> String {
        let ours: Vec<String> = OURS.iter().map(|s| if short { s.trim_start_matches("::parsel::").to_string() } else { s.to_string() }).collect();
        let std: Vec<String> = STD.iter().map(|s| s.to_string()).collect();
        match self.derive_style {
            0 => format!("#[derive({}, {})]\n", std.join(", "), ours.join(", ")),
            1 => format!("#[derive({})]\n#[derive({})]\n", ours.join(", "), std.join(", ")),
            2 => format!("#[derive({}, {})]\n#[derive({}, {}, {})]\n", ours[3], ours[1], ours[0], std.join(", "), ours[2]),
            _ => {
                let mut o = ours.clone();
                o.reverse();
                format!("#[derive({}, {},)]\n", o.join(", "), std.join(", "))
            }
        }
    }

    fn gparams(&self, defaults: bool) -> String {
        if self.params.is_empty() {
            return String::new();
        }
        let v: Vec<String> = self
            .params
            .iter()
            .map(|p| {
                let d = match (&p.default, defaults) {
                    (Some(d), true) => format!(" = {d}"),
                    _ => String::new(),
                };
                let b = if p.bounds.is_empty() { String::new() } else { format!(": {}", p.bounds.join(" + ")) };
                let prim = if p.full { "::core::primitive::" } else { "" };
                match p.kind {
                    PK::Type | PK::Lang | PK::Life => format!("{}{b}{d}", p.name),
                    PK::Usize => format!("const {}: {prim}usize{d}", p.name),
                    PK::Bool => format!("const {}: {prim}bool{d}", p.name),
                    PK::Char => format!("const {}: {prim}char{d}", p.name),
                }
            })
            .collect();
        format!("<{}>", v.join(", "))
    }

    fn ty(&self) -> String {
        with_args(&self.name, &self.params.iter().map(|p| p.arg()).collect::<Vec<_>>())
    }

    fn body(&self, v: &Var, ph: &mut dyn FnMut(&str, &str) -> String) -> String {
        let f: Vec<String> = v
            .fields
            .iter()
            .map(|f| {
                let a: String = f.attrs.iter().map(|a| format!("{a}\n    ")).collect();
                let ty = if f.gone { f.ty.text.clone() } else { ph("ty", &f.ty.text) };
                match v.shape {
                    Shape::Named => format!("    {a}{}{}: {ty},\n", f.vis, if f.gone { f.name.clone() } else { ph("ident", &f.name) }),
                    _ => format!("    {a}{}{ty},\n", f.vis),
                }
            })
            .collect();
        match v.shape {
            Shape::Unit => String::new(),
            Shape::Named => format!(" {{\n{}}}", f.concat()),
            Shape::Tuple => format!("(\n{})", f.concat()),
        }
    }

    fn wh_text(&self) -> String {
        if self.wh.is_empty() {
            String::new()
        } else if self.wh[0].is_empty() {
            " where".into()
        } else {
            format!(" where {}{}", self.wh.join(", "), if self.wh_comma { "," } else { "" })
        }
    }

    fn item(&self, short: bool, ph: &mut dyn FnMut(&str, &str) -> String) -> String {
        let mut s = String::new();
        let (a, b) = self.attrs.split_at(self.attrs.len() / 2);
        for x in a {
            s.push_str(x);
            s.push('\n');
        }
        s.push_str(&self.derives(short));
        for x in b {
            s.push_str(x);
            s.push('\n');
        }
        let name = ph("ident", &self.name);
        let g = self.gparams(true);
        let vis = ph("vis", self.vis.trim());
        let vis = if vis.is_empty() { vis } else { format!("{vis} ") };
        if self.is_enum {
            s.push_str(&format!("{vis}enum {name}{g}{} {{\n", self.wh_text()));
            for v in &self.vars {
                let at: String = v.attrs.iter().map(|a| format!("{a}\n")).collect();
                let vn = if v.gone { v.name.clone() } else { ph("ident", &v.name) };
                let d = v.disc.map(|d| format!(" = {d}")).unwrap_or_default();
                let mut b = self.body(v, ph);
                if v.gone {
                    b = "(does::not::Exist)".into();
                }
                s.push_str(&format!("{at}{vn}{b}{d},\n"));
            }
            s.push_str("}\n");
        } else {
            let v = &self.vars[0];
            let b = self.body(v, ph);
            match v.shape {
                Shape::Named => s.push_str(&format!("{vis}struct {name}{g}{}{b}\n", self.wh_text())),
                _ => s.push_str(&format!("{vis}struct {name}{g}{b}{};\n", self.wh_text())),
            }
        }
        s
    }

    fn text(&self, short: bool, k: usize) -> String {
        if !self.via_macro {
            return self.item(short, &mut |_, t| t.to_string());
        }
        let mut args: Vec<(String, String)> = vec![];
        let body = self.item(short, &mut |kind, t| {
            args.push((kind.to_string(), t.to_string()));
            format!("$m{}", args.len())
        });
        // a visibility can be empty and needs something after it
        let pat: Vec<String> = args.iter().enumerate().map(|(i, (k, _))| format!("$m{}:{k}", i + 1)).collect();
        let val: Vec<String> = args.iter().map(|(_, t)| t.clone()).collect();
        format!("macro_rules! make_{k} {{\n({}) => {{\n{body}}}\n}}\nmake_{k}! {{ {} }}\n", pat.join(", ") + ",", val.join(", ") + ",")
    }

    fn fields_of<'v>(&self, v: &'v Var) -> Vec<&'v Field> {
        v.fields.iter().filter(|f| !f.gone).collect()
    }

    /// impls of Gram and Dump
    fn meaning(&self) -> String {
        let g = self.gparams(false);
        let ty = self.ty();
        let mut preds: Vec<String> = self.wh.iter().filter(|w| !w.is_empty()).cloned().collect();
        for p in &self.params {
            if matches!(p.kind, PK::Type | PK::Lang) {
                preds.push(format!("{}: 'static", p.name));
            }
        }
        let bound = |tr: &str| {
            let mut p = preds.clone();
            for v in self.vars.iter().filter(|v| !v.gone) {
                for f in self.fields_of(v) {
                    if !f.rec {
                        p.push(format!("{}: {tr}", f.ty.text));
                    }
                }
            }
            p.dedup();
            if p.is_empty() { String::new() } else { format!(" where {}", p.join(", ")) }
        };
        let gf = |v: &Var| {
            let x: Vec<String> = self
                .fields_of(v)
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let n = if v.shape == Shape::Named { f.name.clone() } else { i.to_string() };
                    format!("(::core::convert::From::from({n:?}), ::vh::gram::G::Ref(<{} as ::vh::node::Gram>::g))", f.ty.text)
                })
                .collect();
            format!("::std::vec![{}]", x.join(", "))
        };
        let name = &self.name;
        let (gram, dump);
        if self.is_enum {
            let vs: Vec<String> = self.vars.iter().filter(|v| !v.gone).map(|v| format!("(::core::convert::From::from({:?}), {})", v.name, gf(v))).collect();
            gram = format!("::vh::gram::G::Enum(::core::convert::From::from({name:?}), ::std::vec![{}])", vs.join(", "));
            let arms: Vec<String> = self
                .vars
                .iter()
                .filter(|v| !v.gone)
                .map(|v| {
                    let fs = self.fields_of(v);
                    let b: Vec<String> = fs.iter().enumerate().map(|(i, f)| if v.shape == Shape::Named { format!("{}: parsel_b{i}", f.name) } else { format!("parsel_b{i}") }).collect();
                    let pat = match v.shape {
                        Shape::Unit => String::new(),
                        Shape::Named => format!("{{ {} }}", b.join(", ")),
                        Shape::Tuple => format!("({})", b.join(", ")),
                    };
                    let d: Vec<String> = (0..fs.len()).map(|i| format!("::vh::node::Dump::v(parsel_b{i})")).collect();
                    format!("{name}::{}{pat} => ::vh::gram::V::node({:?}, ::std::vec![{}])", v.name, format!("{name}::{}", v.name), d.join(", "))
                })
                .collect();
            dump = if arms.is_empty() { "match *self {}".to_string() } else { format!("match self {{ {} }}", arms.join(", ")) };
        } else {
            let v = &self.vars[0];
            gram = format!("::vh::gram::G::Struct(::core::convert::From::from({name:?}), {})", gf(v));
            let d: Vec<String> = self
                .fields_of(v)
                .iter()
                .enumerate()
                .map(|(i, f)| format!("::vh::node::Dump::v(&self.{})", if v.shape == Shape::Named { f.name.clone() } else { i.to_string() }))
                .collect();
            dump = format!("::vh::gram::V::node({name:?}, ::std::vec![{}])", d.join(", "));
        }
        format!(
            "impl{g} ::vh::node::Gram for {ty}{} {{ fn g() -> ::vh::gram::G {{ {gram} }} }}\nimpl{g} ::vh::node::Dump for {ty}{} {{ fn v(&self) -> ::vh::gram::V {{ {dump} }} }}\n",
            bound("::vh::node::Gram"),
            bound("::vh::node::Dump")
        )
    }
}

const NOISE: &[&str] = &[
    "pub const input: ::core::primitive::u8 = 0;", "pub struct error;", "pub struct tokens;", "pub struct result;", "pub struct ast_node(pub ::core::primitive::u8);", "pub const cause: ::core::primitive::u8 = 1;", "pub static err: ::core::primitive::u8 = 0;", "pub const string: ::core::primitive::u8 = 3;",
    "pub struct formatter;", "pub mod core {}", "pub mod std {}", "pub mod parsel {}", "pub mod syn {}", "pub mod quote {}", "pub trait Parse { fn parse(&self) {} }", "pub trait ToTokens { fn to_tokens(&self) {} }",
    "pub struct Result;", "pub struct Error;", "pub struct TokenStream;", "pub trait MapErr { fn map_err(&self) {} fn parse(&self) {} fn unwrap_or_else(&self) {} }\nimpl<X> MapErr for X {}",
    "pub fn Ok() {}", "pub fn Err() {}", "pub const None: ::core::primitive::u8 = 0;", "pub fn Some() {}", "pub enum Option {}", "pub struct str;", "pub struct usize;", "pub type Self_ = ::core::primitive::u8;", "pub const field: ::core::primitive::u8 = 0;", "pub struct this;",
    "macro_rules! quote { () => {} }", "macro_rules! concat { () => {} }",
];

fn noise_names(s: &str) -> Vec<String> {
    let mut out = vec![];
    for l in s.lines() {
        let w: Vec<&str> = l.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect();
        if w.len() > 2 && w[0] == "pub" {
            out.push(w[2].to_string());
        }
    }
    out
}

/// only keyword modules
pub static ONLY_KEYWORDS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Generates one module.
pub fn module(ch: &mut Ch) -> Module {
    let plain_names = ch.chance(1, 4);
    let in_fn = ch.chance(1, 10);
    let bare = !in_fn && ch.chance(1, 6);
    let strict = ch.chance(1, 12);
    let mut g = Gen { ch, kws: vec![], taken: BTreeSet::new(), defs: vec![], feats: BTreeSet::new(), plain_names, in_fn, bare };
    if in_fn {
        g.feat("types inside a function");
    }
    if bare {
        g.feat("no prelude");
    }
    for n in ["ops", "probes", "Self", "self", "super", "crate", "vh", "does", "_"] {
        g.taken.insert(n.to_string());
    }
    let mut noise: Vec<&str> = vec![];
    if !plain_names && !strict && g.ch.chance(1, 3) {
        g.feat("other items in scope");
        for _ in 0..g.ch.range(1, 3) {
            let n = *g.ch.pick(NOISE);
            if !noise.contains(&n) && noise_names(n).iter().all(|x| !g.taken.contains(x)) {
                for x in noise_names(n) {
                    g.taken.insert(x);
                }
                noise.push(n);
            }
        }
    }
    let only = ONLY_KEYWORDS.load(std::sync::atomic::Ordering::Relaxed);
    for _ in 0..if only { g.ch.range(1, 4) as usize } else { g.ch.weighted(&[4, 2, 1]) } {
        let kws = g.keywords();
        g.kws.push(kws);
    }
    if only {
        return glob_and_emit(g, noise.iter().map(|s| s.to_string()).collect(), false, strict);
    }
    let short = !g.in_fn && g.ch.chance(1, 3) && DERIVED_NAMES.iter().all(|n| !g.taken.contains(*n));
    if short {
        for n in DERIVED_NAMES {
            g.taken.insert(n.to_string());
        }
    }
    let n = 1 + g.ch.weighted(&[4, 4, 3, 1]);
    while g.defs.len() < n {
        let at = g.defs.len();
        let mut taken = std::mem::take(&mut g.taken);
        let rec = g.ch.weighted(&[5, 3, 3]);
        let names: Vec<String> = (0..if rec == 2 { g.ch.range(2, 3) as usize } else { 1 }).map(|_| g.fresh(PLAIN_T, 0, &mut taken)).collect();
        g.taken = taken;
        let params = g.params();
        // the standard derives name constant parameters in a way that means types first
        for p in params.iter().filter(|p| !matches!(p.kind, PK::Type | PK::Lang)) {
            g.taken.insert(p.name.clone());
        }
        // members of a group share the parameters
        let args: Vec<String> = params.iter().map(|p| p.arg()).collect();
        let all: Vec<(String, usize)> = names.iter().enumerate().map(|(k, n)| (with_args(n, &args), at + k)).collect();
        let mut made = vec![];
        for (k, name) in names.iter().enumerate() {
            let others: Vec<(String, usize)> = all.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, x)| x.clone()).collect();
            // earlier types only: members of the group are mentioned by recursion
            let mut d = g.def(name.clone(), params.clone(), at + k, if rec == 2 { &others } else { &[] }, rec > 0);
            d.params = params.clone();
            made.push(d);
        }
        // the existence of the impls of a member depends on what it mentions without the attribute
        g.defs.extend(made);
    }
    // constants that are named like fields
    let mut noise: Vec<String> = noise.iter().map(|s| s.to_string()).collect();
    if !plain_names && !strict && g.ch.chance(1, 3) {
        let names: Vec<String> = g.defs.iter().flat_map(|d| d.vars.iter()).filter(|v| v.shape == Shape::Named && !v.gone).flat_map(|v| v.fields.iter()).filter(|f| !f.gone && !g.taken.contains(&f.name) && PLAIN_F.contains(&f.name.as_str())).map(|f| f.name.clone()).collect();
        if !names.is_empty() {
            g.feat("constants with names of fields");
            let n = g.ch.pick(&names).clone();
            noise.push(format!("pub const {n}: ::core::primitive::u8 = 0;"));
            g.taken.insert(n);
        }
    }
    glob_and_emit(g, noise, short, strict)
}

fn glob_and_emit(mut g: Gen, noise: Vec<String>, short: bool, strict: bool) -> Module {
    let mut items = String::new();
    if short {
        items.push_str("use ::parsel::{Parse, ToTokens, FromStr, Display};\n");
        g.feat("derives by short name");
    }
    for x in &noise {
        items.push_str(x);
        items.push('\n');
    }
    let mut meaning = String::new();
    let mut ops: Vec<String> = vec![];
    let mut probes = String::new();
    let mut kwmods: Vec<String> = vec![];
    for k in &g.kws {
        items.push_str(&k.text());
        meaning.push_str(&k.meaning());
        ops.extend(k.types());
        let list: Vec<String> = k.all().iter().map(|(w, _)| format!("{w:?}")).collect();
        let want = format!("[{}]", list.join(", "));
        probes.push_str(&format!("v.extend(::vh::rt::keywords::<{}::Keywords>({want:?}, &{want}));\n", k.name));
        let mut check = format!("::vh::kws::set::<{0}::Keywords>({0:?}, &{want}, vh_case)?;", k.name);
        for (w, n) in k.all() {
            let t = format!("{}::{n}", k.name);
            meaning.push_str(&format!("::vh::kwd!({t}, {w:?});\n"));
            check.push_str(&format!("\n::vh::kws::keyword::<{t}>({t:?}, vh_case)?;"));
        }
        kwmods.push(format!("{{ fn vh_check(vh_case: &::vh::kws::Case<'_>) -> ::vh::R {{ {check}\n::core::result::Result::Ok(()) }}\n::vh::kws::KwMod {{ name: {:?}, declared: &{want}, check: vh_check }} }}", k.name));
    }
    // names of the group members resolve to the impl's conditions: see `needs`
    let needs = needs(&g.defs);
    for k in 0..g.defs.len() {
        let d = g.defs[k].clone();
        items.push_str(&d.text(short, k));
        let clash = d.vars.iter().any(|v| g.defs.iter().any(|e| e.params.iter().any(|p| p.name == v.name)));
        if d.is_enum && !g.in_fn && !strict && !clash && g.ch.chance(1, 6) && d.vars.iter().any(|v| !v.gone) {
            g.feat("variants in scope");
            items.push_str(&format!("pub use self::{}::*;\n", d.name));
        }
        meaning.push_str(&d.meaning());
        // instances
        let mut inst = vec![];
        for round in 0..if d.params.is_empty() { 1 } else { 2 } {
            let mut args: Vec<String> = d
                .params
                .iter()
                .enumerate()
                .map(|(i, p)| match p.kind {
                    PK::Type => g.ch.pick(&["::parsel::ast::Word", "::parsel::ast::LitInt", "::parsel::ast::Paren<::parsel::ast::Ident>", "::parsel::ast::Token![+]", "::parsel::ast::Either<::parsel::ast::LitStr, ::vh::rt::Nth<2>>"]).to_string(),
                    PK::Lang => g.ch.pick(&["::vh::rt::LangA", "::vh::rt::LangB"]).to_string(),
                    PK::Usize if used_params(&d).contains(&i) => g.ch.pick(&["1", "3"]).to_string(),
                    PK::Usize => g.ch.below(8).to_string(),
                    PK::Life => "'static".into(),
                    PK::Bool => g.ch.pick(&["true", "false"]).to_string(),
                    PK::Char => "'x'".into(),
                })
                .collect();
            if round == 1 {
                while d.params[..args.len()].last().map_or(false, |p| p.default.is_some()) {
                    args.pop();
                }
            }
            let t = with_args(&d.name, &args);
            if !inst.contains(&t) {
                inst.push(t);
            }
        }
        for t in &inst {
            ops.push(t.clone());
        }
        if d.nn && g.ch.chance(1, 4) {
            let w = *g.ch.pick(&["::parsel::ast::Any<{}>", "::parsel::ast::Punctuated<{}, ::parsel::ast::Token![,]>", "::parsel::ast::Many<{}>", "::parsel::ast::Separated<{}, ::parsel::ast::Token![;]>", "::parsel::ast::LeftAssoc<::parsel::ast::Token![+], {}>"]);
            ops.push(w.replace("{}", &inst[0]));
        }
        // which impls exist
        let tps: Vec<usize> = (0..d.params.len()).filter(|i| matches!(d.params[*i].kind, PK::Type | PK::Lang | PK::Usize)).collect();
        if !tps.is_empty() {
            for _ in 0..3 {
                let kinds: Vec<u32> = tps.iter().map(|_| g.ch.below(4)).collect();
                let args: Vec<String> = (0..d.params.len())
                    .map(|i| match d.params[i].kind {
                        PK::Type => ["::parsel::ast::Word", "::vh::rt::OnlyParse", "::vh::rt::OnlyPrint", "::vh::rt::Neither"][kinds[tps.iter().position(|x| *x == i).unwrap()] as usize].to_string(),
                        PK::Lang => ["::vh::rt::LFull", "::vh::rt::LParse", "::vh::rt::LPrint", "::vh::rt::LNeither"][kinds[tps.iter().position(|x| *x == i).unwrap()] as usize].to_string(),
                        PK::Usize => ["1", "4", "5", "2"][kinds[tps.iter().position(|x| *x == i).unwrap()] as usize].to_string(),
                        PK::Bool => "true".into(),
                        PK::Char => "'c'".into(),
                        PK::Life => "'static".into(),
                    })
                    .collect();
                let ok = |good: [u32; 2]| tps.iter().zip(&kinds).all(|(i, k)| !needs[d_index(&g.defs, &d.name)].contains(i) || good.contains(k));
                probes.push_str(&format!("v.extend(::vh::has!({}: {}, {}));\n", with_args(&d.name, &args), ok([0, 1]), ok([0, 2])));
            }
            g.feats.insert("existence of impls asked");
        }
    }
    let list: Vec<String> = ops.iter().map(|t| format!("::vh::node::ops::<{t}>({t:?})")).collect();
    let fns = (
        format!("::std::vec![{}]", list.join(",\n")),
        if probes.is_empty() { "::std::vec![]".to_string() } else { format!("{{ let mut v: ::std::vec::Vec<::vh::rt::Probe> = ::std::vec![]; {probes} v }}") },
    );
    let all = "::vh::rt::All";
    let kwmods = format!("::std::vec![{}]", kwmods.join(",\n"));
    let mut head = String::new();
    if g.bare {
        head.push_str("#![no_implicit_prelude]\n");
    }
    if strict {
        head.push_str("#![deny(warnings)]\n#![allow(dead_code, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_parens, unused_imports, unused_macros, private_interfaces, private_bounds, trivial_bounds, deprecated, unused_braces, unused_doc_comments)]\n");
        g.feat("warnings denied");
    }
    // Extend is in no prelude without one
    let probes_fn = if g.bare { format!("use ::core::iter::Extend as _;\n{}", fns.1) } else { fns.1.clone() };
    let text = if g.in_fn {
        format!("{head}pub fn all() -> {all} {{\n{items}\n{meaning}\nlet probes = {};\n({}, probes, {kwmods})\n}}\n", probes_fn, fns.0)
    } else {
        format!("{head}{items}\n{meaning}\npub fn all() -> {all} {{\nlet probes = {{ {} }};\n({}, probes, {kwmods})\n}}\n", probes_fn, fns.0)
    };
    Module { text, defs: items, features: g.feats.into_iter().collect(), types: ops.len() }
}

fn d_index(ds: &[Def], name: &str) -> usize {
    ds.iter().position(|d| d.name == name).unwrap()
}

/// For every type, the parameters whose argument needs the impl. A field of a type of the same group
/// without the attribute brings in the needs of that type.
fn needs(ds: &[Def]) -> Vec<BTreeSet<usize>> {
    let mut n: Vec<BTreeSet<usize>> = ds.iter().map(used_params).collect();
    loop {
        let mut changed = false;
        for i in 0..ds.len() {
            for v in ds[i].vars.iter().filter(|v| !v.gone) {
                for f in v.fields.iter().filter(|f| !f.gone && !f.rec) {
                    for j in i + 1..ds.len() {
                        let own = ds[j].ty();
                        if !ds[j].params.is_empty() && f.ty.text.contains(&own) && f.ty.uses.is_empty() {
                            let add: Vec<usize> = n[j].iter().copied().collect();
                            for a in add {
                                changed |= n[i].insert(a);
                            }
                        }
                    }
                }
            }
        }
        if !changed {
            return n;
        }
    }
}
