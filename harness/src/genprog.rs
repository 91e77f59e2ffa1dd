//! Generated programs: writes modules of generated type definitions into scratch packages that
//! depend on the crate under test, builds them, and runs the checks on the types.

use crate::ch::Ch;
use crate::engine::*;
use crate::progen::{module, Module};
use crate::rt::{self, Probe};
use crate::run::*;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Plan {
    pub seed: u64,
    pub modules: usize,
    pub packages: usize,
}

/// editions of the packages, in turn
const EDITIONS: [&str; 4] = ["2021", "2024", "2021", "2018"];

impl Plan {
    pub fn choices(&self) -> Vec<Vec<u32>> {
        (0..self.modules)
            .map(|k| {
                let mut bytes = [0u8; 32];
                for (i, b) in bytes.chunks_mut(8).enumerate() {
                    b.copy_from_slice(&fnv(&format!("{}/modules/{k}/{i}", self.seed)).to_le_bytes());
                }
                let mut r = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
                let top = [60, 150, 300, 700][k % 4];
                proptest::collection::vec(proptest::prelude::any::<u32>(), top / 3..=top).new_tree(&mut r).unwrap().current()
            })
            .collect()
    }
}

pub fn render(choices: &[u32]) -> Module {
    module(&mut Ch::new(choices))
}

pub struct Space {
    pub dir: PathBuf,
    pub root: String,
    pub target: String,
}

fn put(p: &Path, text: &str) {
    // an unchanged file keeps its time
    if std::fs::read_to_string(p).map_or(true, |t| t != text) {
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch folder");
        std::fs::write(p, text).expect("scratch file");
    }
}

pub struct Built {
    pub ok: bool,
    /// file -> first message about it
    pub errors: BTreeMap<String, String>,
    /// every (file, message)
    pub all: Vec<(String, String)>,
    /// messages about no generated file
    pub other: String,
}

impl Space {
    /// an empty scratch workspace
    pub fn new(name: &str) -> Space {
        let root = root();
        let dir = PathBuf::from(format!("{root}/target/{name}"));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch workspace");
        // nothing built earlier under the same package names counts
        if let Ok(l) = std::fs::read_dir(format!("{root}/target/debug/.fingerprint")) {
            for e in l.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                let p = n.split('-').next().unwrap_or("");
                let numbered = p.len() > 1 && p[1..].bytes().all(|b| b.is_ascii_digit()) && "grs".contains(&p[..1]);
                if numbered || p == "gmain" || p == "shapes" {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        Space { target: format!("{root}/target"), root, dir }
    }

    fn manifest(&self, name: &str, edition: &str, deps: &str) -> String {
        format!(
            "[package]\nname = \"{name}\"\nversion = \"0.0.0\"\nedition = \"{edition}\"\npublish = false\n\n[dependencies]\nparsel = {{ path = \"/repo/parsel\" }}\nvh = {{ path = \"{}/harness\" }}\nsyn = {{ version = \"2.0.66\", features = [\"extra-traits\"] }}\nproc-macro2 = {{ version = \"1.0.85\", features = [\"span-locations\"] }}\n{deps}",
            self.root
        )
    }

    pub fn workspace(&self, members: &[String]) {
        let list: Vec<String> = members.iter().map(|m| format!("{m:?}")).collect();
        put(
            &self.dir.join("Cargo.toml"),
            &format!(
                "[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\noverflow-checks = true\n\n[profile.dev.package.\"*\"]\nopt-level = 1\n\n[profile.dev.package.proptest]\nopt-level = 2\n",
                list.join(", ")
            ),
        );
        let lock = std::fs::read_to_string(format!("{}/harness/Cargo.lock", self.root)).expect("lock file");
        std::fs::write(self.dir.join("Cargo.lock"), lock).expect("lock file");
    }

    pub fn package(&self, name: &str, edition: &str, deps: &str, files: &[(String, String)]) {
        let d = self.dir.join(name);
        put(&d.join("Cargo.toml"), &self.manifest(name, edition, deps));
        for (f, t) in files {
            put(&d.join("src").join(f), t);
        }
    }

    /// `cargo build` or `cargo check` of the workspace
    pub fn cargo(&self, what: &str) -> Built {
        let out = Command::new("cargo")
            .args([what, "--offline", "--quiet", "--keep-going", "--message-format=json", "--target-dir", &self.target, "--manifest-path"])
            .arg(self.dir.join("Cargo.toml"))
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null())
            .output()
            .expect("cargo");
        let mut errors = BTreeMap::new();
        let mut other = String::new();
        let mut all = vec![];
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            if !l.contains("\"reason\":\"compiler-message\"") || !l.contains("\"level\":\"error\"") {
                continue;
            }
            let text = json_str(l, "\"rendered\":\"").unwrap_or_default();
            if text.starts_with("error: aborting") || text.starts_with("error: could not compile") || text.is_empty() {
                continue;
            }
            // the primary file of the message: `--> file:line:column`
            let file = text.split("--> ").nth(1).and_then(|x| x.split(':').next()).unwrap_or("").to_string();
            // an error inside a macro defined elsewhere still names a generated file somewhere
            let file = if file.contains("/src/") && self.names(&file) {
                file
            } else {
                text.split("::: ").skip(1).filter_map(|x| x.split(':').next()).find(|f| self.names(f)).unwrap_or(&file).to_string()
            };
            if self.names(&file) {
                all.push((file.clone(), text.clone()));
                errors.entry(file).or_insert(text);
            } else {
                other.push_str(&text);
            }
        }
        if !out.status.success() && errors.is_empty() && other.is_empty() {
            other = String::from_utf8_lossy(&out.stderr).into_owned();
        }
        Built { ok: out.status.success(), errors, all, other }
    }

    fn names(&self, f: &str) -> bool {
        let mut it = f.split('/');
        it.next().map_or(false, |p| self.dir.join(p).is_dir()) && it.next() == Some("src")
    }
}

/// decodes the JSON string that starts after `key`
pub fn json_str(l: &str, key: &str) -> Option<String> {
    let mut it = l.split(key).nth(1)?.chars();
    let mut o = String::new();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(o),
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'u' => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}

pub const ALLOW: &str = "#![allow(warnings)]\n";

/// Package number, file and text of every module.
pub fn lay_out(sp: &Space, mods: &[Module], packages: usize, extra_mods: &[(&str, String)]) -> Vec<String> {
    let mut names: Vec<String> = vec![];
    for p in 0..packages {
        let name = format!("g{p}");
        let mut files = vec![];
        let mut lib = String::from(ALLOW);
        for (k, m) in mods.iter().enumerate().filter(|(k, _)| k % packages == p) {
            lib.push_str(&format!("pub mod m{k};\n"));
            files.push((format!("m{k}.rs"), m.text.clone()));
        }
        files.push(("lib.rs".to_string(), lib));
        sp.package(&name, EDITIONS[p % EDITIONS.len()], "", &files);
        names.push(name);
    }
    if !extra_mods.is_empty() {
        let mut lib = String::from(ALLOW);
        let mut files = vec![];
        for (n, t) in extra_mods {
            lib.push_str(&format!("pub mod {n};\n"));
            files.push((format!("{n}.rs"), t.clone()));
        }
        files.push(("lib.rs".to_string(), lib));
        sp.package("shapes", "2021", "", &files);
        names.push("shapes".into());
    }
    // the program that runs the checks on all types
    let mut deps = String::new();
    for n in &names {
        deps.push_str(&format!("{n} = {{ path = \"../{n}\" }}\n"));
    }
    let mut list = String::new();
    for (k, _) in mods.iter().enumerate() {
        list.push_str(&format!("  (\"m{k}\", g{}::m{k}::all as fn() -> _, include_str!(\"m{k}.txt\")),\n", k % packages));
    }
    for (n, _) in extra_mods {
        list.push_str(&format!("  (\"{n}\", shapes::{n}::all as fn() -> _, \"\"),\n"));
    }
    let main = format!("{ALLOW}fn main() {{ vh::genprog::main(vec![\n{list}]) }}\n");
    let mut files: Vec<(String, String)> = mods.iter().enumerate().map(|(k, m)| (format!("m{k}.txt"), m.defs.clone())).collect();
    files.push(("main.rs".into(), main));
    sp.package("gmain", "2021", &deps, &files);
    names.push("gmain".into());
    sp.workspace(&names);
    names
}

/// the error, if the module does not compile
pub fn compiles_alone(choices: &[u32], edition: &str) -> Option<String> {
    let sp = Space::new("c22s");
    sp.package("s0", edition, "", &[("lib.rs".into(), format!("{ALLOW}pub mod m;\n")), ("m.rs".into(), render(choices).text)]);
    sp.workspace(&["s0".into()]);
    sp.cargo("check").errors.into_iter().next().map(|(_, e)| e)
}

/// Shrinks the choices of a module that does not compile; every round checks many candidates at
/// once, each in a package of its own.
pub fn shrink(mut choices: Vec<u32>, edition: &str, seconds: u64) -> (Vec<u32>, String) {
    const WIDTH: usize = 24;
    let t0 = std::time::Instant::now();
    let size = |c: &[u32]| render(c).text.len();
    let fails = |cands: &[Vec<u32>]| -> Vec<Option<String>> {
        let sp = Space::new("c22s");
        let mut names = vec![];
        for (k, c) in cands.iter().enumerate() {
            let n = format!("s{k}");
            sp.package(&n, edition, "", &[("lib.rs".into(), format!("{ALLOW}pub mod m;\n")), ("m.rs".into(), render(c).text)]);
            names.push(n);
        }
        sp.workspace(&names);
        let b = sp.cargo("check");
        (0..cands.len()).map(|k| b.errors.iter().find(|(f, _)| f.starts_with(&format!("s{k}/"))).map(|(_, e)| e.clone())).collect()
    };
    let mut message = match fails(&[choices.clone()]).remove(0) {
        Some(m) => m,
        // it does not fail by itself under `check`
        None => return (choices, String::new()),
    };
    'outer: loop {
        let now = size(&choices);
        let mut cands: Vec<Vec<u32>> = vec![];
        let n = choices.len();
        let mut seen = std::collections::BTreeSet::new();
        let mut add = |c: Vec<u32>, cands: &mut Vec<Vec<u32>>| {
            let t = render(&c).text;
            if t.len() < now && seen.insert(t) {
                cands.push(c);
            }
        };
        let mut w = n;
        while w > 0 {
            let mut i = 0;
            while i < n {
                let j = (i + w).min(n);
                let mut c = choices[..i].to_vec();
                c.extend_from_slice(&choices[j..]);
                add(c, &mut cands);
                let mut c = choices.clone();
                c[i..j].iter_mut().for_each(|x| *x = 0);
                add(c, &mut cands);
                i += w;
            }
            w /= 2;
        }
        for i in 0..n {
            let mut c = choices.clone();
            c[i] /= 2;
            add(c, &mut cands);
        }
        // smallest first
        cands.sort_by_key(|c| size(c));
        for chunk in cands.chunks(WIDTH) {
            if t0.elapsed().as_secs() > seconds {
                break 'outer;
            }
            let r = fails(chunk);
            if let Some(k) = r.iter().position(|x| x.is_some()) {
                choices = chunk[k].clone();
                message = r[k].clone().unwrap();
                continue 'outer;
            }
        }
        break;
    }
    (choices, message)
}

pub fn edition_of(module: usize, packages: usize) -> &'static str {
    EDITIONS[(module % packages) % EDITIONS.len()]
}

type All = fn() -> rt::All;

/// Entry point of the generated program: runs the checks of the property named by VH_AS.
pub fn main(mods: Vec<(&'static str, All, &'static str)>) {
    let id: &'static str = Box::leak(std::env::var("VH_AS").unwrap_or_else(|_| "C22".into()).into_boxed_str());
    if let Ok(p) = std::env::var("VH_EXTRA") {
        *EXTRA_COVERAGE.lock().unwrap() = std::fs::read_to_string(p).unwrap_or_default();
    }
    if let Ok(p) = std::env::var("VH_REPLAY_EXTRA") {
        *EXTRA_REPLAY.lock().unwrap() = p;
    }
    let mut probes: Vec<(String, Probe)> = vec![];
    let types = || {
        let mut ts: Vec<Typ> = vec![];
        for (n, f, defs) in &mods {
            for o in f().0 {
                let mut t = Typ::new(o);
                t.def = Box::leak(format!("// generated module {n}\n{defs}").into_boxed_str());
                ts.push(t);
            }
        }
        ts
    };
    for (n, f, _) in &mods {
        for p in f().1 {
            probes.push((n.to_string(), p));
        }
    }
    let total = types().len() as u32;
    let mut subs = vec![];
    if id == "C14" || id == "C22" {
        let kw: Vec<(&'static str, crate::kws::KwMod)> = mods.iter().flat_map(|(n, f, _)| f().2.into_iter().map(move |k| (*n, k))).collect();
        if !kw.is_empty() {
            let q = kw.len() as u32 * if id == "C14" { 500 } else { 200 };
            subs.push(sub("gen: keyword modules", q, q * 8, (0, 24), move |ch, ob| {
                let (m, k) = &kw[ch.idx(kw.len())];
                let mut words = k.declared.to_vec();
                words.extend(["x", "_", "fn"]);
                let src = crate::kws::surrounded(ch, &words);
                let Some(c) = crate::kws::case(&src, ob, k.declared) else { return Ok(()) };
                (k.check)(&c).map_err(|e| format!("{m}: {}: {e}", k.name))?;
                ob.key = format!("{m} {}: {src:?}", k.name);
                Ok(())
            }));
        }
    }
    let n = |q: u32| (q * total, q * total * 8);
    if id == "C22" {
        let count = probes.len() as u64;
        subs.push(exh("gen: existence of impls", count, move |i, ob| {
            let (m, (q, got, want)) = &probes[i as usize];
            ob.case(true, format!("{m}: {q}"));
            ob.class(if *want { "impl expected" } else { "no impl expected" });
            crate::ck_eq!(got, want, "whether there is an impl for {q} (module {m})");
            Ok(())
        }));
    }
    type F = fn(&Typ, &mut Ch, &mut Ob) -> R;
    let all: [(&str, &str, F, u32); 7] = [
        ("C01", "gen: language and values", accept, 250),
        ("C02", "gen: printing", print, 150),
        ("C03", "gen: errors", errors, 250),
        ("C04", "gen: consumption", consumption, 150),
        ("C18", "gen: spans", spans, 150),
        ("C23", "gen: entry points agree", agree, 100),
        ("C24", "gen: invisible groups", veiled, 100),
    ];
    for (p, name, f, q) in all {
        if id == p || id == "C22" {
            let (q, t) = n(if id == p { q * 2 } else { q });
            subs.push(types_sub(name, types(), q, t, f));
        }
    }
    crate::run::main(Prop {
        id,
        rule: "the input has at least one token; distinct = different (type, text) pairs; questions about impls: all",
        subs,
        probe: None,
        assumptions: vec![],
    })
}
