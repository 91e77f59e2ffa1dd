//! C26: code that a macro emits through AST nodes means what its tokens mean.
use std::process::{Command, Stdio};
use vh::run::*;
use vh::{ck, lits, Ch};

/// a small part of Rust, of which the compiler knows the meaning
struct Src<'c, 'd> {
    ch: &'c mut Ch<'d>,
    s: String,
    /// names in scope, and whether they can be assigned to
    names: Vec<(String, bool)>,
    this: bool,
    budget: i32,
}

const NAMES: [&str; 9] = ["x", "y", "z", "été", "r#fn", "r#x", "r#type", "union", "_u"];

impl Src<'_, '_> {
    fn gap(&mut self, need: bool) {
        let g = match self.ch.weighted(&[12, 4, 1, 1]) {
            0 => "",
            1 => " ",
            2 => "\n\t ",
            _ => "/* é */",
        };
        self.s.push_str(if need && g.is_empty() { " " } else { g });
    }

    /// words and numbers are kept apart
    fn put(&mut self, t: &str) {
        let word = |c: char| c.is_alphanumeric() || "_\"'#".contains(c);
        let need = self.s.chars().last().map_or(false, word) && t.starts_with(word);
        self.gap(need);
        self.s.push_str(t);
    }

    fn number(&mut self) {
        let v = match self.ch.below(3) {
            0 => self.ch.below(20) as u128,
            _ => lits::mag(self.ch) & 0xff_ffff_ffff,
        };
        // (suffixes are not kept)
        let s = loop {
            let s = lits::int(self.ch, v);
            if parsel::syn::parse_str::<parsel::syn::LitInt>(&s).map_or(false, |l| l.suffix().is_empty()) {
                break s;
            }
            if self.ch.exhausted() {
                break v.to_string();
            }
        };
        self.put(&s);
    }

    fn name(&mut self) -> Option<String> {
        if self.names.is_empty() {
            return None;
        }
        let i = self.ch.idx(self.names.len());
        Some(self.names[i].0.clone())
    }

    fn expr(&mut self, d: u32) {
        let n = match self.ch.weighted(&[6, 5, 3, 1]) {
            0 => 1,
            1 => 2,
            2 => 3,
            _ => self.ch.range(3, 12),
        };
        for i in 0..n {
            if i > 0 {
                let op = *self.ch.pick(&["+", "-", "&", "|", "^", "-"]);
                self.put(op);
            }
            self.unary(d);
        }
    }

    fn unary(&mut self, d: u32) {
        self.budget -= 1;
        let k = if d == 0 || self.budget < 0 { self.ch.weighted(&[4, 6, 1, 1, 1]) } else { self.ch.weighted(&[3, 6, 2, 2, 1, 3, 2, 2, 2, 2, 2]) };
        match k {
            0 => self.number(),
            1 => match self.name() {
                Some(n) => self.put(&n),
                None => self.number(),
            },
            2 if self.s.len() < 60_000 => {
                self.put("-");
                self.unary(d.saturating_sub(1));
            }
            3 if self.s.len() < 60_000 => {
                self.put("!");
                self.unary(d.saturating_sub(1));
            }
            4 if self.this => {
                self.put("self");
                self.put(".");
                let f = *self.ch.pick(&["p", "q", "r#if"]);
                self.put(f);
            }
            5 => {
                self.put("(");
                self.expr(d - 1);
                self.put(")");
            }
            6 => {
                self.put("(");
                self.cond(d - 1);
                self.put(")");
            }
            7 => {
                self.put("(");
                self.choose(d - 1);
                self.put(")");
            }
            8 => {
                self.put("(");
                self.block(d - 1);
                self.put(")");
            }
            9 => {
                self.put("[");
                let n = self.ch.range(1, 4);
                for i in 0..n {
                    if i > 0 {
                        self.put(",");
                    }
                    self.expr(d - 1);
                }
                self.put("]");
                self.put("[");
                let k = self.ch.below(n);
                self.put(&k.to_string());
                self.put("]");
            }
            10 => {
                let (f, n) = *self.ch.pick(&[("nil", 0), ("minus", 2), ("r#pick", 3)]);
                self.put(f);
                self.put("(");
                for i in 0..n {
                    if i > 0 {
                        self.put(",");
                    }
                    self.expr(d - 1);
                }
                if n > 0 && self.ch.chance(1, 3) {
                    self.put(",");
                }
                self.put(")");
            }
            _ => self.number(),
        }
    }

    fn cond(&mut self, d: u32) {
        self.put("if");
        let n = self.ch.range(1, 3);
        for i in 0..n {
            if i > 0 {
                self.put("&&");
            }
            self.put("(");
            self.expr(d.min(1));
            let r = *self.ch.pick(&["==", "!=", "<=", ">=", "<", ">"]);
            self.s.push(' ');
            self.s.push_str(r);
            self.s.push(' ');
            self.expr(d.min(1));
            self.put(")");
        }
        self.block(d);
        self.put("else");
        if d > 0 && self.ch.chance(1, 3) {
            self.cond(d - 1);
        } else {
            self.block(d);
        }
    }

    fn block(&mut self, d: u32) {
        let scope = self.names.len();
        self.put("{");
        while self.budget > 0 && self.ch.chance(1, 2) {
            let set: Vec<usize> = (0..self.names.len()).filter(|i| self.names[*i].1 && !self.names[i + 1..].iter().any(|n| n.0.trim_start_matches("r#") == self.names[*i].0.trim_start_matches("r#"))).collect();
            if !set.is_empty() && self.ch.chance(1, 3) {
                let n = self.names[*self.ch.pick(&set)].0.clone();
                self.put(&n);
                self.put("=");
                self.expr(d.saturating_sub(1));
            } else {
                self.put("let");
                let m = self.ch.flag();
                if m {
                    self.put("mut");
                }
                let n = *self.ch.pick(&NAMES);
                self.put(n);
                if self.ch.flag() {
                    self.put(":");
                    self.put("i64");
                }
                self.put("=");
                self.expr(d.saturating_sub(1));
                self.names.push((n.into(), m));
            }
            self.put(";");
            self.budget -= 1;
        }
        self.expr(d.saturating_sub(1));
        self.put("}");
        self.names.truncate(scope);
    }

    /// spellings of literals of one type, of which some have the same value
    fn choose(&mut self, d: u32) {
        self.put("match");
        let k = self.ch.below(5);
        let len = self.ch.idx(5);
        let v: Vec<[u32; 10]> = (0..2).map(|_| std::array::from_fn(|_| self.ch.raw())).collect();
        let spell = |me: &mut Self, which: usize| {
            let mut val = Ch::new(&v[which]);
            match k {
                0 => ["true", "false"][val.idx(2)].to_string(),
                1 => lits::byte_spelling(me.ch, val.below(256) as u8),
                2 => {
                    let c = lits::chr(&mut val);
                    lits::char_spelling(me.ch, c)
                }
                3 => {
                    // (strings can't be matched in constants)
                    let b: Vec<u8> = (0..len).map(|_| *val.pick(&[b'a', b'"', b'\\', 0, 10, 13, 0x7f, 0xff, b'\''])).collect();
                    lits::bstr_spelling(me.ch, &b)
                }
                _ => {
                    let n = val.below(1 << 31);
                    format!("{}{n}", if val.flag() { "-" } else { "" })
                }
            }
        };
        let w = self.ch.idx(2);
        let s = spell(self, w);
        self.put(&s);
        self.put("{");
        for _ in 0..self.ch.below(4) {
            let w = self.ch.idx(2);
            let s = spell(self, w);
            self.put(&s);
            self.put("=>");
            self.expr(d);
            self.put(",");
        }
        self.put("_");
        self.put("=>");
        self.expr(d);
        if self.ch.flag() {
            self.put(",");
        }
        self.put("}");
    }

    fn any(&mut self) {
        let d = self.ch.below(4) + 1;
        match self.ch.weighted(&[4, 2, 2, 2]) {
            0 => self.expr(d),
            1 => self.block(d),
            2 => self.cond(d),
            _ => self.choose(d),
        }
    }
}

const PRELUDE: &str = "
const fn nil() -> i64 { 17 }
const fn minus(a: i64, b: i64) -> i64 { (a >> 2) - (b >> 3) }
const fn r#pick(a: i64, b: i64, c: i64) -> i64 { if a & 1 == 0 { b } else { c } }
const fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
struct S { p: i64, q: i64, r#if: i64 }
";

/// what the compiler says about the program; None: it is fine
fn compile(program: &str) -> Option<String> {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let fail = |e: std::io::Error| -> ! {
        eprintln!("check error: {e}");
        std::process::exit(2)
    };
    let lib = std::env::current_exe().unwrap_or_else(|e| fail(e)).with_file_name("libvh_inside.so");
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let dir = std::env::temp_dir().join(format!("vh-said-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| fail(e));
    let file = dir.join("m.rs");
    std::fs::write(&file, program).unwrap_or_else(|e| fail(e));
    let out = Command::new("rustc")
        .args(["--edition=2021", "--crate-type=lib", "--crate-name=m", "--emit=metadata", "--cap-lints=allow", "--extern"])
        .arg(format!("vh_inside={}", lib.display()))
        .arg("--out-dir")
        .arg(&dir)
        .arg(&file)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| fail(e));
    let _ = std::fs::remove_dir_all(&dir);
    if out.status.success() {
        return None;
    }
    let e = String::from_utf8_lossy(&out.stderr).into_owned();
    if e.contains("can't find crate") {
        eprintln!("check error: {e}");
        std::process::exit(2);
    }
    Some(format!("{}\n{}", out.status, e.chars().take(1500).collect::<String>()))
}

/// the same program without AST nodes
fn control(program: &str) -> String {
    format!(
        "macro_rules! say {{ ($h:literal $($t:tt)*) => {{ $($t)* }} }}\nmacro_rules! lit {{ ($k:literal $h:literal $($t:tt)*) => {{ $($t)* }} }}\n{}",
        program.replace("vh_inside::", "")
    )
}

fn decide(items: &[String], ob: &mut Ob) -> R {
    ob.key = items.concat();
    ob.nontrivial = !items.is_empty();
    let program = format!("{PRELUDE}{}", items.concat());
    if compile(&program).is_some() {
        // the items that are not to blame are left out
        for i in items {
            let program = format!("{PRELUDE}{i}");
            let Some(e) = compile(&program) else { continue };
            if let Some(c) = compile(&control(&program)) {
                ob.discarded = true;
                ob.class("discarded: not a program");
                if std::env::var_os("VH_SHOW").is_some() {
                    eprintln!("not a program: {i}\n{c}");
                }
                return Ok(());
            }
            ck!(false, "{i}\nWithout macros this compiles and all is equal, but through AST nodes: {e}");
        }
        ck!(false, "these are equal one by one, but not together");
    }
    ob.add("pairs of expressions with the same meaning", items.len() as u64);
    Ok(())
}

fn point(ch: &mut Ch) -> String {
    let mut n = || ch.below(1 << 20) as i64 - (1 << 19);
    let (a, b, c, p, q, r) = (n(), n(), n(), n(), n(), n());
    format!("(&S {{ p: {p}, q: {q}, r#if: {r} }}, {a}, {b}, {c})")
}

fn params() -> Vec<(String, bool)> {
    [("x", false), ("été", true), ("r#fn", false)].map(|(a, b)| (a.to_string(), b)).to_vec()
}

const SIGNATURE: &str = "(&self, x: i64, mut été: i64, r#fn: i64) -> i64";

fn expressions(ch: &mut Ch, ob: &mut Ob) -> R {
    let mut o: Vec<String> = vec![];
    while !ch.exhausted() && o.len() < 40 {
        let n = o.len();
        let how = ch.below(64);
        let mut s = Src { ch, s: String::new(), names: params(), this: true, budget: 60 };
        s.any();
        let t = s.s;
        let mut item = format!("impl S {{\nconst fn d{n}{SIGNATURE} {{ let r = {t}; r }}\nconst fn m{n}{SIGNATURE} {{ let r = vh_inside::say!({how} {t}); r }}\n}}\n");
        for _ in 0..ch.range(1, 2) {
            let p = point(ch);
            item.push_str(&format!("const _: () = assert!(S::d{n}{p} == S::m{n}{p});\n"));
        }
        o.push(item);
    }
    decide(&o, ob)
}

/// names from within a macro, from its arguments and from around it, which may be spelled alike
fn hygiene(ch: &mut Ch, ob: &mut Ob) -> R {
    let mut o: Vec<String> = vec![];
    while !ch.exhausted() && o.len() < 40 {
        let n = o.len();
        let how = *ch.pick(&[0, 1, 8, 9]);
        let mut names: Vec<(String, bool)> = vec![];
        let mut locals = String::new();
        for _ in 0..ch.range(1, 3) {
            let (name, m) = (*ch.pick(&NAMES), ch.flag());
            locals.push_str(&format!("let {}{name}: i64 = {}; ", if m { "mut " } else { "" }, ch.below(1000)));
            names.push((name.into(), m));
        }
        let (mut pats, mut args) = (vec![], vec![]);
        for a in ["$a", "$b"] {
            let (kind, arg) = match ch.below(6) {
                0 => ("ident", ch.pick(&["x", "été", "r#fn"]).to_string()),
                1 => ("tt", ch.pick(&["x", "été", "r#fn", "(x-été)", "[5, x][1]", "7"]).to_string()),
                2 => ("expr", ch.pick(&["x", "été", "(x - r#fn)", "self.p", "minus(x, été)", "[x][0]", "if (x < été) { 1 } else { x }"]).to_string()),
                3 => ("literal", ch.pick(&["5", "-5", "0xff"]).to_string()),
                4 => ("block", ch.pick(&["{ x }", "{ let x = 5; x - été }"]).to_string()),
                _ => ("ident", "x".to_string()),
            };
            let arg = if kind == "tt" { arg.replace("[5, x][1]", "été") } else { arg };
            pats.push(format!("{a}:{kind}"));
            args.push(arg);
            // (the operators around an argument do not know that it is one)
            let whole = !matches!(kind, "expr" | "block") && !args.last().map_or(false, |a| a.starts_with('-'));
            let shown = if whole { a.to_string() } else { format!("({a})") };
            names.push((shown, false));
        }
        let mut s = Src { ch, s: String::new(), names, this: false, budget: 40 };
        s.any();
        let t = s.s;
        let (p, a) = (pats.join(", "), args.join(", "));
        let mut item = format!(
            "macro_rules! d{n} {{ ({p}) => {{{{ {locals}let r = {t}; r }}}} }}\nmacro_rules! m{n} {{ ({p}) => {{{{ {locals}let r = vh_inside::say!({how} {t}); r }}}} }}\n\
             impl S {{\nconst fn d{n}{SIGNATURE} {{ d{n}!({a}) }}\nconst fn m{n}{SIGNATURE} {{ m{n}!({a}) }}\n}}\n"
        );
        let p = point(ch);
        item.push_str(&format!("const _: () = assert!(S::d{n}{p} == S::m{n}{p});\n"));
        o.push(item);
    }
    decide(&o, ob)
}

/// an integer type that has the value
fn fits(ch: &mut Ch, v: i128) -> &'static str {
    let mut t = vec!["i128"];
    macro_rules! add {
        ($($t:ident),*) => { $(if $t::try_from(v).is_ok() { t.push(stringify!($t)); })* };
    }
    add!(i64, u64, u128, i64, u64, isize, usize, i32, u32, i16, u16, i8, u8);
    ch.pick(&t)
}

fn literals(ch: &mut Ch, ob: &mut Ob) -> R {
    let mut o: Vec<String> = vec![];
    while !ch.exhausted() && o.len() < 100 {
        let how = ch.below(64);
        let k = ch.range(1, 8);
        let minus = |ch: &mut Ch| if ch.flag() { "-" } else { "" };
        let unsuffixed = |ch: &mut Ch, m: u128| {
            let s = lits::int(ch, m);
            match parsel::syn::parse_str::<parsel::syn::LitInt>(&s) {
                Ok(l) if l.suffix().is_empty() => s,
                _ => m.to_string(),
            }
        };
        let (t, ty, eq) = match k {
            1 => (ch.flag().to_string(), "bool", "A == B"),
            2 => {
                let b = ch.below(256) as u8;
                (lits::byte_spelling(ch, b), "u8", "A == B")
            }
            3 => {
                let v = lits::i64_val(ch);
                let s = unsuffixed(ch, v.unsigned_abs() as u128);
                (format!("{}{s}", if v < 0 { "-" } else { "" }), fits(ch, v as i128), "A == B")
            }
            4 => {
                let v = lits::u64_val(ch);
                (unsuffixed(ch, v as u128), fits(ch, v as i128), "A == B")
            }
            5 => {
                let s = match ch.below(4) {
                    0 => format!("{:?}", lits::f64_val(ch).abs()),
                    3 => format!("{:?}", (lits::f64_val(ch) as f32).abs() as f64),
                    1 => format!("{:e}.", lits::f64_val(ch).abs()),
                    _ => lits::float(ch).0,
                };
                let s = if s.starts_with("inf") { "1e400".into() } else { s };
                let s = match parsel::syn::parse_str::<parsel::syn::LitFloat>(&s) {
                    Ok(l) if l.suffix().is_empty() => s,
                    _ => "0.1".into(),
                };
                // (where rounding to double precision first makes no difference)
                let v = parsel::syn::parse_str::<parsel::syn::LitFloat>(&s).and_then(|l| l.base10_parse::<f64>()).unwrap();
                let t = if (v as f32) as f64 == v && ch.flag() { "f32" } else { "f64" };
                (format!("{}{s}", minus(ch)), t, "A.to_bits() == B.to_bits()")
            }
            6 => {
                let c = lits::chr(ch);
                (lits::char_spelling(ch, c), "char", "A == B")
            }
            7 => {
                let s = lits::string(ch, 30);
                (lits::str_spelling(ch, &s), "&str", "same(A.as_bytes(), B.as_bytes())")
            }
            _ => {
                let s = lits::bytes(ch, 30);
                (lits::bstr_spelling(ch, &s), "&[u8]", "same(A, B)")
            }
        };
        let as_lit = if ch.chance(1, 3) { 0 } else { k };
        o.push(format!("const _: () = {{ const A: {ty} = {t}; const B: {ty} = vh_inside::lit!({as_lit} {how} {t}); assert!({eq}); }};\n"));
    }
    decide(&o, ob)
}

fn main() {
    vh::run::main(Prop {
        id: "C26",
        rule: "at least one pair of an expression and what a macro makes of it; distinct = different programs",
        subs: vec![
            sub("expressions", 600, 60_000, (50, 1_500), expressions),
            sub("hygiene", 400, 40_000, (50, 1_500), hygiene),
            sub("literals", 300, 30_000, (100, 2_000), literals),
        ],
        probe: None,
        assumptions: vec!["the installed stable compiler evaluates constant expressions correctly"],
    })
}
