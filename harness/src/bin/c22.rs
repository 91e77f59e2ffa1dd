//! C22: derived impls for generated type definitions. This program writes the definitions, builds
//! them against the crate under test, and then runs the built program, which checks what the derived
//! impls do. `c22 --as C01` and the like run only that property's check on the generated types.
use std::collections::{BTreeMap, BTreeSet};
use std::process::{exit, Command};
use std::time::Instant;
use vh::genprog::*;
use vh::progen::Module;
use vh::run::*;

const RULE: &str = "a definition counts when it has been compiled and used; distinct by text";

fn shapes() -> Vec<(&'static str, String)> {
    vec![("documented", include_str!("../../shapes/documented.rs").to_string())]
}

/// definitions with very many fields and variants
fn wide() -> String {
    let mut t = String::from(
        "pub use ::parsel::ast as a;\nuse ::vh::gram::{G, V};\nuse ::vh::node::{ops, Dump, Gram};\nuse ::parsel::{Display, FromStr, Parse, ToTokens};\nuse ::std::{vec, format};\nuse ::std::string::ToString as _;\nuse ::core::convert::Into as _;\n",
    );
    let ty = ["a::Word", "a::LitUint", "a::LitStr", "a::Maybe<a::token::Semi, a::Word>"];
    let derives = "#[derive(PartialEq, Clone, Debug, FromStr, Display, Parse, ToTokens)]\n";
    let mut all = String::new();
    for n in [12usize, 70, 257] {
        let each = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(", ");
        let of = |i: usize| ty[i * 7 / 3 % 4];
        // named, tuple
        for (s, def, at) in [
            (format!("N{n}"), format!("{{ {} }}", each(&|i| format!("pub f{i}: {}", of(i)))), "f"),
            (format!("T{n}"), format!("({});", each(&|i| format!("pub {}", of(i)))), ""),
        ] {
            t.push_str(&format!("{derives}pub struct {s} {def}\n"));
            t.push_str(&format!("impl Gram for {s} {{ fn g() -> G {{ G::Struct({s:?}.into(), vec![{}]) }} }}\n", each(&|i| format!("(\"{at}{i}\".into(), G::Ref(<{} as Gram>::g))", of(i)))));
            t.push_str(&format!("impl Dump for {s} {{ fn v(&self) -> V {{ V::node({s:?}, vec![{}]) }} }}\n", each(&|i| format!("self.{at}{i}.v()"))));
            all.push_str(&format!("ops::<{s}>({s:?}), "));
        }
        // a variant with many fields behind one that is like its beginning
        t.push_str(&format!("{derives}pub enum L{n} {{ A({}, a::Eof), B({}) }}\n", each(&|i| of(i).to_string()), each(&|i| of(i).to_string())));
        t.push_str(&format!(
            "impl Gram for L{n} {{ fn g() -> G {{ G::Enum(\"L{n}\".into(), vec![(\"A\".into(), vec![{0}, (\"{n}\".into(), G::Ref(<a::Eof as Gram>::g))]), (\"B\".into(), vec![{0}])]) }} }}\n",
            each(&|i| format!("(\"{i}\".into(), G::Ref(<{} as Gram>::g))", of(i)))
        ));
        let names = each(&|i| format!("x{i}"));
        let vs = each(&|i| format!("x{i}.v()"));
        t.push_str(&format!("impl Dump for L{n} {{ fn v(&self) -> V {{ match self {{ L{n}::A({names}, e) => V::node(\"L{n}::A\", vec![{vs}, e.v()]), L{n}::B({names}) => V::node(\"L{n}::B\", vec![{vs}]) }} }} }}\n"));
        // as many variants, with as many keywords
        t.push_str(&format!("::parsel::define_keywords! {{ pub mod k{n} {{ {} }} }}\n", (0..n).map(|i| format!("w{i} => W{i};")).collect::<String>()));
        for i in 0..n {
            t.push_str(&format!("impl Gram for k{n}::W{i} {{ fn g() -> G {{ G::Kw(\"w{i}\") }} }} impl Dump for k{n}::W{i} {{ fn v(&self) -> V {{ V::leaf(\"w{i}\", ::vh::tok::Sp::of(self.span())) }} }}\n"));
        }
        t.push_str(&format!("{derives}pub enum V{n} {{ {} }}\n", each(&|i| format!("U{i}(k{n}::W{i}, {})", of(i)))));
        t.push_str(&format!(
            "impl Gram for V{n} {{ fn g() -> G {{ G::Enum(\"V{n}\".into(), vec![{}]) }} }}\n",
            each(&|i| format!("(\"U{i}\".into(), vec![(\"0\".into(), G::Ref(<k{n}::W{i} as Gram>::g)), (\"1\".into(), G::Ref(<{} as Gram>::g))])", of(i)))
        ));
        t.push_str(&format!("impl Dump for V{n} {{ fn v(&self) -> V {{ match self {{ {} }} }} }}\n", each(&|i| format!("V{n}::U{i}(k, x) => V::node(\"V{n}::U{i}\", vec![k.v(), x.v()])"))));
        all.push_str(&format!("ops::<L{n}>(\"L{n}\"), ops::<V{n}>(\"V{n}\"), "));
    }
    t.push_str(&format!("pub fn all() -> ::vh::rt::All {{ (vec![{all}], vec![], vec![]) }}\n"));
    t
}

/// definitions that have to be rejected
fn rejected() -> Vec<String> {
    let mut v = vec![];
    for body in ["pub union U { a: u8, b: u16 }", "pub union r#type<T: Copy> { t: T }", "#[repr(C)] pub union U<const N: usize> { a: [u8; N] }", "/// doc\n union U { #[parsel(recursive)] a: () }"] {
        // the other two only ask for these
        for d in ["Parse", "ToTokens"] {
            v.push(format!("#[derive(::parsel::{d})]\n{body}\n"));
        }
    }
    v
}

fn violation(id: &'static str, sub: &str, choices: Vec<u32>, case: String, message: String, seed: u64, tier: &str, replaying: Option<&String>) -> ! {
    println!("{sub}: {message}\n  case:\n{}", case.chars().take(3000).collect::<String>());
    let path = match replaying {
        Some(p) => p.clone(),
        None => {
            let v = Violation { sub: sub.into(), choices, key: case, message };
            let path = write_replay(id, "", &v, &format!(",\n \"seed\": \"{seed}\",\n \"tier\": \"{tier}\""));
            let rep = Report { evals: 1, discarded: 0, nontrivial: 0, per_sub: BTreeMap::new(), samples: vec![], violation: Some(v), exhaustive: vec![] };
            write_evidence(id, RULE, &rep, &[], "", &[], 0.0);
            path
        }
    };
    println!("VIOLATION property={id} replay={path}");
    exit(1)
}

fn broken(why: &str) -> ! {
    println!("check error: {why}");
    exit(2)
}

/// every rejected definition in a package of its own
fn check_rejected() -> Result<usize, (String, String)> {
    let list = rejected();
    let sp = Space::new("c22r");
    let mut names = vec![];
    for (k, t) in list.iter().enumerate() {
        let n = format!("r{k}");
        sp.package(&n, "2021", "", &[("lib.rs".into(), format!("{ALLOW}pub mod m;\n")), ("m.rs".into(), t.clone())]);
        names.push(n);
    }
    sp.workspace(&names);
    let b = sp.cargo("check");
    for (k, t) in list.iter().enumerate() {
        let e = b.all.iter().filter(|(f, _)| f.starts_with(&format!("r{k}/"))).map(|(_, e)| e.as_str()).collect::<Vec<_>>().join("\n");
        if e.is_empty() {
            return Err((t.clone(), "a union is accepted".into()));
        }
        if e.contains("panicked") || !e.contains("union") || e.contains("error[E") {
            return Err((t.clone(), format!("a union is not rejected with a message: {e}")));
        }
    }
    Ok(list.len())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let id: &'static str = Box::leak(arg("--as").unwrap_or_else(|| "C22".into()).into_boxed_str());
    let own = id == "C22";
    // a keyword module that does not compile is a matter of C14
    let decides = own || id == "C14";
    if id == "C14" {
        vh::progen::ONLY_KEYWORDS.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let replay = arg("--replay");
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let mut thorough = is_thorough();
    let mut replay_choices: Option<Vec<u32>> = None;
    if let Some(p) = &replay {
        let t = std::fs::read_to_string(p).unwrap_or_else(|_| broken("no replay file"));
        seed = json_str(&t, "\"seed\": \"").and_then(|s| s.parse().ok()).unwrap_or(seed);
        thorough = json_str(&t, "\"tier\": \"").map_or(thorough, |t| t == "thorough");
        let sub = json_str(&t, "\"sub\": \"").unwrap_or_default();
        if sub == "gen: unions are rejected" {
            match check_rejected() {
                Ok(_) => exit(0),
                Err((t, m)) => violation(id, &sub, vec![], t, m, seed, "", replay.as_ref()),
            }
        }
        if sub.starts_with("gen: compiles") {
            let c = t.split("\"choices\": [").nth(1).and_then(|x| x.split(']').next()).unwrap_or("");
            replay_choices = Some(c.split(',').filter_map(|x| x.trim().parse().ok()).collect());
        }
    }
    let tier = if thorough { "thorough" } else { "quick" };
    let (modules, packages) = match (own, thorough) {
        (true, false) => (192, 16),
        (true, true) => (2400, 120),
        (false, false) => (64, 16),
        (false, true) => (800, 80),
    };
    if let Some(c) = replay_choices {
        // one module that failed to compile
        for e in ["2021", "2024", "2018"] {
            let m = render(&c);
            if let Some(err) = compiles_alone(&c, e) {
                violation(id, "gen: compiles", c, m.defs, err, seed, tier, replay.as_ref());
            }
        }
        println!("replay: no violation");
        exit(0);
    }
    let t0 = Instant::now();
    let plan = Plan { seed, modules, packages };
    let choices = plan.choices();
    let mods: Vec<Module> = choices.iter().map(|c| render(c)).collect();
    let sp = Space::new(if own { "c22" } else if decides { "c22k" } else { "c22g" });
    let mut shapes = if own { shapes() } else { vec![] };
    if id != "C14" {
        shapes.push(("wide", wide()));
    }
    lay_out(&sp, &mods, packages, &shapes);
    let b = sp.cargo("build");
    let built = t0.elapsed().as_secs_f64();
    if !b.ok {
        if !decides {
            broken("the generated definitions could not be built (C22 decides whether they should)");
        }
        // the first module that is to blame, by number
        let mut bad: BTreeSet<usize> = BTreeSet::new();
        for f in b.errors.keys() {
            if let Some(k) = f.rsplit('/').next().and_then(|f| f.strip_prefix('m')).and_then(|f| f.strip_suffix(".rs")).and_then(|f| f.parse().ok()) {
                bad.insert(k);
            }
        }
        if let Some(k) = bad.iter().next().copied() {
            let (c, m) = shrink(choices[k].clone(), edition_of(k, packages), 150);
            let m = if m.is_empty() { b.errors.iter().find(|(f, _)| f.ends_with(&format!("/m{k}.rs"))).unwrap().1.clone() } else { m };
            let text = render(&c).defs;
            violation(id, "gen: compiles", c, text, format!("{} of {modules} generated modules fail to compile; a smallest one:\n{m}", bad.len()), seed, tier, None);
        }
        if let Some((f, e)) = b.errors.iter().find(|(f, _)| f.starts_with("shapes/")) {
            let n = f.rsplit('/').next().unwrap().trim_end_matches(".rs").to_string();
            let text = shapes.iter().find(|(s, _)| *s == n).map_or(String::new(), |(_, t)| t.clone());
            violation(id, "gen: shapes", vec![], text, e.clone(), seed, tier, None);
        }
        println!("{}", b.other);
        broken("the generated program could not be built");
    }
    let mut cover = format!(",\n  \"generated_modules\": {modules},\n  \"types_checked_at_run_time\": {}", mods.iter().map(|m| m.types).sum::<usize>());
    if own {
        let n = match check_rejected() {
            Ok(n) => n,
            Err((t, m)) => violation(id, "gen: unions are rejected", vec![], t, m, seed, tier, replay.as_ref()),
        };
        let mut feats: BTreeMap<&str, u32> = BTreeMap::new();
        for m in &mods {
            for f in &m.features {
                *feats.entry(f).or_default() += 1;
            }
        }
        let distinct: BTreeSet<&str> = mods.iter().map(|m| m.defs.as_str()).collect();
        let list: Vec<String> = feats.iter().map(|(f, n)| format!("{}: {n}", js(f))).collect();
        let samples: Vec<String> = mods.iter().filter(|m| m.defs.len() < 900).take(6).map(|m| js(&m.defs)).collect();
        cover = format!(
            ",\n  \"generated_modules\": {modules},\n  \"distinct_modules\": {},\n  \"types_checked_at_run_time\": {},\n  \"packages\": {packages},\n  \"build_seconds\": {built:.1},\n  \"rejected_unions\": {n},\n  \"modules_with_feature\": {{{}}},\n  \"definition_samples\": [{}]",
            distinct.len(),
            mods.iter().map(|m| m.types).sum::<usize>(),
            list.join(", "),
            samples.join(",\n   ")
        );
    }
    let extra = format!("{}/target/c22-extra-{id}", sp.root);
    std::fs::write(&extra, cover).expect("scratch file");
    let st = Command::new(format!("{}/debug/gmain", sp.target))
        .env("VH_AS", id)
        .env("VH_EXTRA", extra)
        .env("VH_REPLAY_EXTRA", format!(",\n \"seed\": \"{seed}\",\n \"tier\": \"{tier}\""))
        .env("VERIF_TIER", tier)
        .env("VERIF_SEED", seed.to_string())
        .args(replay.iter().flat_map(|p| ["--replay".to_string(), p.clone()]))
        .status()
        .expect("generated program");
    exit(st.code().unwrap_or(2));
}
