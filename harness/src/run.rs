//! Drives the subchecks of one property with proptest: fixed seeds derived from VERIF_SEED, fixed
//! shards, shrinking, replay files, evidence, known findings.

use crate::ch::Ch;
use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

/// What one case observed about itself.
#[derive(Default)]
pub struct Ob {
    pub nontrivial: bool,
    /// canonical rendering of the generated case (distinctness, samples, replay files)
    pub key: String,
    pub classes: Vec<(&'static str, u64)>,
    pub discarded: bool,
}

impl Ob {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push((c, 1));
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push((c, 1));
        }
    }
    pub fn add(&mut self, c: &'static str, n: u64) {
        self.classes.push((c, n));
    }
    pub fn case(&mut self, nontrivial: bool, key: impl Into<String>) {
        self.nontrivial |= nontrivial;
        self.key = key.into();
    }
}

pub enum Kind {
    /// quick cases, thorough cases, (min, max) number of choices
    Rand(u32, u32, (usize, usize)),
    /// every index below n, once
    Exh(u64),
}

pub struct Sub {
    pub name: String,
    pub kind: Kind,
    pub f: Box<dyn Fn(&mut Ch, &mut Ob) -> R + Send + Sync>,
}

pub fn sub(
    name: &str,
    quick: u32,
    thorough: u32,
    len: (usize, usize),
    f: impl Fn(&mut Ch, &mut Ob) -> R + Send + Sync + 'static,
) -> Sub {
    Sub { name: name.to_string(), kind: Kind::Rand(quick, thorough, len), f: Box::new(f) }
}

/// An exhaustive enumeration of 0..n; the case gets its index from `idx_of`.
pub fn exh(name: &str, n: u64, f: impl Fn(u64, &mut Ob) -> R + Send + Sync + 'static) -> Sub {
    Sub {
        name: name.to_string(),
        kind: Kind::Exh(n),
        f: Box::new(move |ch, ob| {
            let hi = ch.raw() as u64;
            let lo = ch.raw() as u64;
            f(hi << 32 | lo, ob)
        }),
    }
}

#[derive(Default)]
struct Acc {
    evals: u64,
    discarded: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

pub struct Violation {
    pub sub: String,
    pub choices: Vec<u32>,
    pub key: String,
    pub message: String,
}

pub struct Report {
    pub evals: u64,
    pub discarded: u64,
    pub nontrivial: u64,
    pub per_sub: BTreeMap<String, BTreeMap<String, u64>>,
    pub samples: Vec<(String, String)>,
    pub violation: Option<Violation>,
    pub exhaustive: Vec<String>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// the case each shard is working on
static SLOTS: [Mutex<Option<(String, Vec<u32>, Instant)>>; SHARDS + 1] = [const { Mutex::new(None) }; SHARDS + 1];
static ABORTED: AtomicU64 = AtomicU64::new(u64::MAX);
thread_local! {
    static SHARD: std::cell::Cell<usize> = const { std::cell::Cell::new(SHARDS) };
}

extern "C" {
    fn signal(sig: i32, handler: extern "C" fn(i32)) -> usize;
    fn pause() -> i32;
}

/// The runtime ends the process on a stack overflow or an abort; hand the case over to the watcher.
extern "C" fn on_abort(_: i32) {
    ABORTED.store(SHARD.with(|s| s.get()) as u64, Ordering::SeqCst);
    loop {
        unsafe { pause() };
    }
}

const CASE_SECONDS: u64 = 100;
const MEMORY: u64 = 10 << 30;

fn resident() -> u64 {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

/// Reports cases that never end, exhaust the memory, or end the process.
fn watch(id: &'static str, rule: &'static str, replaying: Option<String>) {
    const SIGABRT: i32 = 6;
    unsafe { signal(SIGABRT, on_abort) };
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let mut found: Option<(usize, &str)> = None;
        let a = ABORTED.load(Ordering::SeqCst);
        if a != u64::MAX {
            found = Some((a as usize, "the process is aborted (stack overflow, or a panic that cannot unwind)"));
        } else {
            let mut oldest: Option<(usize, Instant)> = None;
            for (i, s) in SLOTS.iter().enumerate() {
                if let Some((_, _, t)) = &*s.lock().unwrap() {
                    if oldest.map_or(true, |o| *t < o.1) {
                        oldest = Some((i, *t));
                    }
                }
            }
            if let Some((i, t)) = oldest {
                if t.elapsed().as_secs() > CASE_SECONDS {
                    found = Some((i, "no result after 100 seconds"));
                } else if t.elapsed().as_millis() > 1500 && resident() > MEMORY {
                    found = Some((i, "no result, and more than 10 GB of memory in use"));
                }
            }
        }
        let Some((i, what)) = found else { continue };
        let (sub, choices) = match &*SLOTS[i].lock().unwrap() {
            Some((s, c, _)) => (s.clone(), c.clone()),
            None => (String::new(), vec![]),
        };
        let path = match &replaying {
            Some(p) => p.clone(),
            None => {
                let v = Violation { sub, choices, key: String::from("(not shrunk)"), message: what.to_string() };
                let path = write_replay(id, "", &v, "");
                let rep = Report { evals: 1, discarded: 0, nontrivial: 0, per_sub: BTreeMap::new(), samples: vec![], violation: Some(v), exhaustive: vec![] };
                write_evidence(id, rule, &rep, &[], "", &[], 0.0);
                path
            }
        };
        println!("{id}: {what}");
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    });
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + " …"
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {l}: {m}"));
    }));
}

/// Runs one case on the given choices; a panic counts as a failure of the case.
pub fn run_case(s: &Sub, choices: &[u32], ob: &mut Ob) -> R {
    proc_macro2::extra::invalidate_current_thread_spans();
    let slot = &SLOTS[SHARD.with(|s| s.get())];
    *slot.lock().unwrap() = Some((s.name.clone(), choices.to_vec(), Instant::now()));
    let mut ch = Ch::new(choices);
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut ch, ob)));
    *slot.lock().unwrap() = None;
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

/// Runs `f` on a thread with a stack of the given size; an overflow counts as a failure of the case.
pub fn on_stack<T: Send>(size: usize, f: impl FnOnce() -> Result<T, String> + Send) -> Result<T, String> {
    let shard = SHARD.with(|s| s.get());
    std::thread::scope(|sc| {
        let run = move || {
            SHARD.with(|s| s.set(shard));
            guard(f)?
        };
        let t = std::thread::Builder::new().stack_size(size).spawn_scoped(sc, run).expect("thread");
        t.join().unwrap_or_else(|_| Err("panic".into()))
    })
}

/// Runs `f`, turning a panic into an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

const SHARDS: usize = 8;

fn run_shard(prop: &str, s: &Sub, shard: usize, seed: u64, thorough: bool, stop: &AtomicBool, stop_below: &AtomicU64) -> (Acc, Option<(Vec<u32>, String)>) {
    let acc = RefCell::new(Acc::default());
    let note = |ob: Ob| {
        let mut a = acc.borrow_mut();
        a.evals += 1;
        for (c, n) in ob.classes {
            *a.classes.entry(c).or_default() += n;
        }
        if ob.discarded {
            a.discarded += 1;
            return;
        }
        if ob.nontrivial {
            let fresh = a.nontrivial.insert(fnv(&ob.key));
            let n = a.nontrivial.len();
            if fresh && (n == 1 || n == 40 || n == 400) && shard < 3 {
                let k = clip(&ob.key, 500);
                a.samples.push(k);
            }
        }
    };
    let _ = stop;
    match s.kind {
        Kind::Exh(n) => {
            let mut i = shard as u64;
            while i < n {
                if stop_below.load(Ordering::Relaxed) < shard as u64 {
                    break;
                }
                let c = [(i >> 32) as u32, i as u32];
                let mut ob = Ob::default();
                if let Err(e) = run_case(s, &c, &mut ob) {
                    stop_below.fetch_min(shard as u64, Ordering::Relaxed);
                    return (acc.into_inner(), Some((c.to_vec(), e)));
                }
                note(ob);
                i += SHARDS as u64;
            }
            (acc.into_inner(), None)
        }
        Kind::Rand(q, t, (lo, hi)) => {
            let total = if thorough { t } else { q } as usize / std::env::var("VH_DIVIDE").ok().and_then(|d| d.parse().ok()).unwrap_or(1);
            let cases = total / SHARDS + usize::from(shard < total % SHARDS);
            if cases == 0 {
                return (acc.into_inner(), None);
            }
            let mut bytes = [0u8; 32];
            for (i, b) in bytes.chunks_mut(8).enumerate() {
                let h = fnv(&format!("{seed}/{prop}/{}/{shard}/{i}", s.name));
                b.copy_from_slice(&h.to_le_bytes());
            }
            let cfg = Config {
                cases: cases as u32,
                failure_persistence: None,
                max_shrink_iters: 3000,
                max_shrink_time: 60_000,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
            let failed = RefCell::new(false);
            let res = runner.run(&vec(any::<u32>(), lo..=hi), |choices| {
                if !*failed.borrow() && stop_below.load(Ordering::Relaxed) < shard as u64 {
                    return Ok(()); // a lower shard has already failed: its failure is the one reported
                }
                let mut ob = Ob::default();
                match run_case(s, &choices, &mut ob) {
                    Ok(()) => {
                        if !*failed.borrow() {
                            note(ob);
                        }
                        Ok(())
                    }
                    Err(e) => {
                        *failed.borrow_mut() = true;
                        stop_below.fetch_min(shard as u64, Ordering::Relaxed);
                        Err(TestCaseError::fail(e))
                    }
                }
            });
            match res {
                Ok(()) => (acc.into_inner(), None),
                Err(TestError::Fail(reason, choices)) => (acc.into_inner(), Some((choices, reason.to_string()))),
                Err(TestError::Abort(reason)) => {
                    eprintln!("check error: proptest aborted: {reason}");
                    std::process::exit(3);
                }
            }
        }
    }
}

pub fn run_subs(prop: &str, subs: &[Sub], seed: u64, thorough: bool) -> Report {
    quiet_panics();
    let mut rep = Report {
        evals: 0,
        discarded: 0,
        nontrivial: 0,
        per_sub: BTreeMap::new(),
        samples: vec![],
        violation: None,
        exhaustive: vec![],
    };
    let stop = AtomicBool::new(false);
    for s in subs {
        let t0 = Instant::now();
        let stop_below = AtomicU64::new(u64::MAX);
        let results = Mutex::new(Vec::new());
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let (results, stop, stop_below) = (&results, &stop, &stop_below);
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, move || {
                        SHARD.with(|s| s.set(shard));
                        let r = run_shard(prop, s, shard, seed, thorough, stop, stop_below);
                        results.lock().unwrap().push((shard, r));
                    })
                    .unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for (_, (acc, fail)) in results {
            *m.entry("evaluations".into()).or_default() += acc.evals;
            rep.evals += acc.evals;
            rep.discarded += acc.discarded;
            for (c, n) in acc.classes {
                *m.entry(c.to_string()).or_default() += n;
            }
            distinct.extend(acc.nontrivial);
            for x in acc.samples {
                if rep.samples.iter().filter(|y| y.0 == s.name).count() < 3 {
                    rep.samples.push((s.name.clone(), x));
                }
            }
            if let (Some((choices, message)), None) = (fail, &rep.violation) {
                let mut ob = Ob::default();
                let again = run_case(s, &choices, &mut ob);
                rep.violation = Some(Violation {
                    sub: s.name.clone(),
                    choices,
                    key: ob.key,
                    message: again.err().unwrap_or(message),
                });
            }
        }
        m.insert("distinct_nontrivial".into(), distinct.len() as u64);
        rep.nontrivial += distinct.len() as u64;
        if std::env::var_os("VH_TIMES").is_some() {
            eprintln!("{prop} {} {:.2}s {:?}", s.name, t0.elapsed().as_secs_f64(), m);
        }
        rep.per_sub.insert(s.name.clone(), m);
        if matches!(s.kind, Kind::Exh(_)) {
            rep.exhaustive.push(s.name.clone());
        }
        if rep.violation.is_some() {
            break;
        }
    }
    rep
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn is_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// Entries `known: property=<id> key=<key> <what fails>` of the known-findings file.
pub fn known(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if p == format!("property={prop}") {
            out.push((k.trim_start_matches("key=").to_string(), w.to_string()));
        }
    }
    out
}

/// additional JSON members for the evidence's coverage and for replay files (each starts with a comma)
pub static EXTRA_COVERAGE: Mutex<String> = Mutex::new(String::new());
pub static EXTRA_REPLAY: Mutex<String> = Mutex::new(String::new());

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    /// reproduces a known finding: Some(true) it still fails as listed, Some(false) it no longer does
    pub probe: Option<fn(&str) -> bool>,
    pub assumptions: Vec<&'static str>,
}

pub fn write_replay(prop: &str, part: &str, v: &Violation, extra: &str) -> String {
    let dir = format!("{}/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let name: String = v.sub.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let path = format!("{dir}/{prop}-{name}{part}.json");
    let more = EXTRA_REPLAY.lock().unwrap().clone();
    let extra = &format!("{extra}{more}");
    let text = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"choices\": {:?},\n \"case\": {},\n \"message\": {}{}\n}}\n",
        js(prop),
        js(&v.sub),
        v.choices,
        js(&v.key),
        js(&v.message),
        extra
    );
    std::fs::write(&path, text).expect("replay file");
    path
}

fn parse_replay(path: &str) -> (String, Vec<u32>) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let sub = t.split("\"sub\": \"").nth(1).expect("sub").split('"').next().unwrap().to_string();
    let ch = t.split("\"choices\": [").nth(1).expect("choices").split(']').next().unwrap();
    let ch = ch.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    (sub, ch)
}

/// Evidence body shared by in-process checks and checks that merge several processes.
pub fn write_evidence(
    prop: &str,
    rule: &str,
    rep: &Report,
    known_excluded: &[String],
    extra_cov: &str,
    assumptions: &[&str],
    wall: f64,
) {
    let tier = if is_thorough() { "thorough" } else { "quick" };
    let mut o = String::new();
    // the part about generated types, which another process has written
    let part = std::env::var("VH_MERGE").ok().and_then(|p| std::fs::read_to_string(p).ok());
    let num = |k: &str| -> u64 {
        let v = part.as_ref().and_then(|t| t.split(&format!("\"{k}\": ")).nth(1)).unwrap_or("");
        v.split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok()).unwrap_or(0)
    };
    let generated = match part.as_ref().and_then(|t| t.split("\"coverage\": ").nth(1)).and_then(|t| t.split("\n \"assumptions\"").next()) {
        Some(c) => format!(",\n  \"generated_types\": {}", c.trim_end_matches(',')),
        None => String::new(),
    };
    let _ = write!(
        o,
        "{{\n \"property\": {}, \"tier\": \"{tier}\", \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"rule\": {},\n  \"samples\": [",
        js(prop),
        env_seed(),
        rep.evals + num("evaluations"),
        rep.nontrivial + num("distinct_nontrivial"),
        rep.discarded + num("discarded"),
        js(rule)
    );
    for (i, (s, x)) in rep.samples.iter().enumerate() {
        let _ = write!(o, "{}{{\"sub\": {}, \"case\": {}}}", if i > 0 { ",\n   " } else { "\n   " }, js(s), js(x));
    }
    o.push_str("],\n  \"subchecks\": {");
    for (i, (s, m)) in rep.per_sub.iter().enumerate() {
        let _ = write!(o, "{}{}: {{", if i > 0 { ",\n   " } else { "\n   " }, js(s));
        for (j, (c, n)) in m.iter().enumerate() {
            let _ = write!(o, "{}{}: {n}", if j > 0 { ", " } else { "" }, js(c));
        }
        o.push('}');
    }
    let _ = write!(
        o,
        "}},\n  \"exhaustive_subchecks\": [{}],\n  \"known_findings_reproduced\": [{}]{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        rep.exhaustive.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        known_excluded.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        EXTRA_COVERAGE.lock().unwrap().clone() + &generated + extra_cov,
        assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        wall,
        u32::from(rep.violation.is_some())
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = std::env::var("VH_EVIDENCE").unwrap_or_else(|_| format!("{dir}/{prop}.json"));
    std::fs::write(path, o).expect("evidence");
}

pub fn main(p: Prop) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        quiet_panics();
        watch(p.id, p.rule, Some(args[i + 1].clone()));
        let (sub, choices) = parse_replay(&args[i + 1]);
        let me = std::env::current_exe().expect("own path");
        if sub.starts_with("gen: ") && !me.ends_with("gmain") {
            // generated types belong to another program
            let st = std::process::Command::new(me.with_file_name("c22")).args(["--as", p.id, "--replay", &args[i + 1]]).status();
            std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(2));
        }
        let Some(s) = p.subs.iter().find(|s| s.name == sub) else {
            eprintln!("no subcheck {sub}");
            std::process::exit(3);
        };
        let r = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, || {
                    let mut ob = Ob::default();
                    let r = run_case(s, &choices, &mut ob);
                    println!("case: {}", ob.key);
                    r
                })
                .unwrap()
                .join()
                .unwrap()
        });
        match r {
            Ok(()) => {
                println!("replay: no violation");
                std::process::exit(0);
            }
            Err(e) => {
                println!("replay: {e}");
                println!("VIOLATION property={} replay={}", p.id, args[i + 1]);
                std::process::exit(1);
            }
        }
    }
    let t0 = Instant::now();
    let only = std::env::var("VH_ONLY").ok();
    let mut subs = p.subs;
    if let Some(o) = only {
        subs.retain(|s| s.name.contains(&o));
    }
    watch(p.id, p.rule, None);
    let rep = run_subs(p.id, &subs, env_seed(), is_thorough());
    let mut reproduced = vec![];
    if let Some(probe) = p.probe {
        for (key, what) in known(p.id) {
            let hit = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn({
                    let key = key.clone();
                    move || guard(|| probe(&key)).unwrap_or(true)
                })
                .unwrap()
                .join()
                .unwrap();
            if hit {
                println!("KNOWN-FINDING: property={} {}", p.id, what);
                reproduced.push(key);
            }
        }
    }
    write_evidence(p.id, p.rule, &rep, &reproduced, "", &p.assumptions, t0.elapsed().as_secs_f64());
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s", p.id, rep.evals, rep.nontrivial, t0.elapsed().as_secs_f64());
    match &rep.violation {
        None => std::process::exit(0),
        Some(v) => {
            let path = write_replay(p.id, "", v, "");
            println!("{}: {}\n  case: {}", v.sub, clip(&v.message, 3000), clip(&v.key, 3000));
            println!("VIOLATION property={} replay={}", p.id, path);
            std::process::exit(1);
        }
    }
}
