//! Compiles batches of generated modules against the derive_builder of the current tree, runs the
//! histories, compares traces with the model, and shrinks failures.
use crate::{emit, model, spec::*};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// An error of the machinery, never a violation.
pub fn infra(msg: &str) -> ! {
    eprintln!("ERROR (no verdict): {}", msg);
    std::process::exit(2)
}

pub struct Env {
    pub rustc: String,
    pub flavors: BTreeMap<&'static str, Flavor>,
    pub work: PathBuf,
    pub jobs: usize,
    pub seed: u64,
    pub thorough: bool,
    pub verif: PathBuf,
    pub start: Instant,
}
/// How generated crates are compiled: against which builds of derive_builder, and with what above their modules.
#[derive(Clone)]
pub struct Flavor {
    pub externs: Vec<(String, String)>,
    pub deps: Vec<String>,
    pub head: String,
    /// macros of the modules are in a crate of their own
    pub up: bool,
    /// the compiler, if not the usual one
    pub rustc: Option<String>,
}
impl Env {
    pub fn flavor(&self, n: &str) -> &Flavor {
        self.flavors.get(n).unwrap_or_else(|| infra(&format!("no build for flavour {}", n)))
    }
    pub fn new() -> Env {
        let v = |k: &str| std::env::var(k).unwrap_or_else(|_| infra(&format!("{} is not set", k)));
        let mut flavors = BTreeMap::new();
        let x = |n: &str, p: String| (n.to_string(), p);
        let facade = "pub mod facade { pub use ::rt::derive_builder as dbl; pub mod deep { pub use ::rt::derive_builder::*; } pub mod r#use { pub use ::rt::derive_builder::{export, Builder, UninitializedFieldError}; } }\n";
        let std = |ext: Vec<(String, String)>, head: String| Flavor { externs: ext, deps: vec![v("DBV_DEPS")], head, up: false, rustc: None };
        flavors.insert("std", std(vec![x("rt", v("DBV_RT")), x("derive_builder", v("DBV_DB"))], String::new()));
        flavors.insert("macro", flavors["std"].clone());
        flavors.insert("facade", std(vec![x("rt", v("DBV_RT")), x("derive_builder", v("DBV_DB"))], facade.into()));
        flavors.insert("renamed", std(vec![x("rt", v("DBV_RT")), x("dbx", v("DBV_DB"))], facade.into()));
        flavors.insert("nostd", std(vec![x("rt", v("DBV_RT")), x("derive_builder", v("DBV_DB"))], "#![no_std]\n".into()));
        flavors.insert("upstream", Flavor { up: true, ..std(vec![x("rt", v("DBV_RT")), x("dbx", v("DBV_DB"))], String::new()) });
        for f in ["alloc", "none"] {
            if let (Ok(rt), Ok(db), Ok(deps)) = (std::env::var(format!("DBV_RT_{}", f)), std::env::var(format!("DBV_DB_{}", f)), std::env::var(format!("DBV_DEPS_{}", f))) {
                flavors.insert(f, Flavor { externs: vec![x("rt", rt), x("derive_builder", db)], deps: deps.split(':').map(|d| d.to_string()).collect(), head: "#![no_std]\n".into(), up: false, rustc: None });
            }
        }
        // clippy comes with another compiler
        if let (Ok(rt), Ok(db), Ok(deps), Ok(c)) = (std::env::var("DBV_RT_stable"), std::env::var("DBV_DB_stable"), std::env::var("DBV_DEPS_stable"), std::env::var("DBV_CLIPPY")) {
            let mut fl = flavors["std"].clone();
            fl.externs = vec![x("rt", rt), x("derive_builder", db)];
            fl.deps = vec![deps];
            fl.rustc = Some(c);
            flavors.insert("clippy", fl);
        }
        Env {
            rustc: v("DBV_RUSTC"),
            flavors,
            work: PathBuf::from(v("DBV_WORK")),
            jobs: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: std::env::args().nth(2).as_deref() == Some("thorough"),
            verif: PathBuf::from(v("DBV_VERIF")),
            start: Instant::now(),
        }
    }
}

pub fn rng_for(seed: u64, id: &str) -> TestRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    for (i, b) in id.bytes().enumerate() {
        s[8 + i % 24] = s[8 + i % 24].wrapping_mul(31).wrapping_add(b);
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}
pub fn runner_for(seed: u64, id: &str, cases: u32) -> TestRunner {
    let cfg = Config { failure_persistence: None, cases, max_shrink_iters: 20000, ..Config::default() };
    TestRunner::new_with_rng(cfg, rng_for(seed, id))
}

#[derive(Clone, Debug)]
pub struct Span {
    pub file: String,
    pub line: usize,
    pub col: usize,
    pub end_line: usize,
    pub end_col: usize,
    pub primary: bool,
}
#[derive(Clone, Debug)]
pub struct Diag {
    pub level: String,
    pub msg: String,
    pub code: String,
    pub spans: Vec<Span>,
    pub rendered: String,
}

pub struct Out {
    pub ok: bool,
    pub diags: Vec<Diag>,
}

/// The chain of spans of a diagnostic: where it is reported, and the macro invocations behind it.
fn spans_of(v: &Value, out: &mut Vec<Span>) {
    for s in v["spans"].as_array().into_iter().flatten() {
        let mut cur = s;
        let primary = s["is_primary"].as_bool().unwrap_or(false);
        loop {
            out.push(Span {
                file: cur["file_name"].as_str().unwrap_or("").to_string(),
                line: cur["line_start"].as_u64().unwrap_or(0) as usize,
                col: cur["column_start"].as_u64().unwrap_or(0) as usize,
                end_line: cur["line_end"].as_u64().unwrap_or(0) as usize,
                end_col: cur["column_end"].as_u64().unwrap_or(0) as usize,
                primary,
            });
            let e = &cur["expansion"]["span"];
            if e.is_object() {
                cur = e;
            } else {
                break;
            }
        }
    }
}

pub fn rustc(env: &Env, fl: &Flavor, dir: &Path, main: &str, edition: &str, args: &[&str]) -> Out {
    let mut c = Command::new(fl.rustc.as_ref().unwrap_or(&env.rustc));
    c.current_dir(dir)
        .arg(main)
        .args(["--edition", edition, "--error-format=json", "-C", "debuginfo=0", "-C", "opt-level=0"])
        .args(args)
        .env("LC_ALL", "C");
    for d in &fl.deps {
        c.args(["-L", &format!("dependency={}", d)]);
    }
    for (n, p) in &fl.externs {
        c.arg("--extern").arg(format!("{}={}", n, p));
    }
    let o = c.output().unwrap_or_else(|e| infra(&format!("cannot run rustc: {}", e)));
    let err = String::from_utf8_lossy(&o.stderr);
    let mut diags = vec![];
    let mut ice = false;
    for line in err.lines() {
        if let Ok(v) = serde_json::from_str::<Value>(line) {
            if v["$message_type"].as_str().unwrap_or("diagnostic") != "diagnostic" {
                continue;
            }
            let mut spans = vec![];
            spans_of(&v, &mut spans);
            diags.push(Diag {
                level: v["level"].as_str().unwrap_or("").to_string(),
                msg: v["message"].as_str().unwrap_or("").to_string(),
                code: v["code"]["code"].as_str().unwrap_or("").to_string(),
                spans,
                rendered: v["rendered"].as_str().unwrap_or("").to_string(),
            });
        } else if line.contains("internal compiler error") {
            ice = true;
        }
    }
    let ok = o.status.success();
    if ice || (!ok && !diags.iter().any(|d| d.level == "error")) {
        let tail: String = err.chars().take(2000).collect();
        infra(&format!("rustc ended abnormally ({:?}): {}", o.status, tail));
    }
    if !ok && diags.iter().any(|d| d.level == "error" && d.msg.starts_with("linking with")) {
        infra(&format!("linking failed: {}", diags.iter().map(|d| d.msg.as_str()).collect::<Vec<_>>().join("; ")));
    }
    Out { ok, diags }
}

/// Runs `f` over the items on all cores, results in order.
pub fn parallel<T: Sync, R: Send, F: Fn(usize, &T) -> R + Sync>(jobs: usize, items: &[T], f: F) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Option<R>>> = Mutex::new(items.iter().map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..jobs.min(items.len().max(1)) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() {
                    break;
                }
                let r = f(i, &items[i]);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

#[derive(Clone, Debug)]
pub struct Tapes {
    pub st: Vec<u16>,
    pub ft: Vec<Vec<u16>>,
    pub hist: Vec<Vec<Vec<u16>>>,
}

pub const ST: usize = 96;
pub const FT: usize = 72;
/// cells of `st` that are read as sets of bits
pub const MASKS: usize = 68;

/// Now and then a struct without fields.
pub fn some_empty(min: usize, st: &[u16], ft: Vec<Vec<u16>>) -> Vec<Vec<u16>> {
    if min <= 1 && st[ST - 1] > 64_200 { vec![] } else { ft }
}
pub fn tapes(p: &Prof) -> impl Strategy<Value = Tapes> {
    let min = p.fields.0;
    (
        prop::collection::vec(any::<u16>(), ST),
        prop::collection::vec(prop::collection::vec(any::<u16>(), FT), p.fields.0..=p.fields.1),
        prop::collection::vec(prop::collection::vec(prop::collection::vec(any::<u16>(), 9), 0..=p.ops), p.hist),
    )
        .prop_map(move |(st, ft, hist)| Tapes { ft: some_empty(min, &st, ft), st, hist })
}

#[derive(Clone)]
pub struct Case {
    pub tapes: Tapes,
    pub spec: Spec,
    pub hists: Vec<Hist>,
}
/// Weights of operations: NEW SET TRY EACH CLONE DUMP BUILD DIRECT FLAGS
pub type OpW = [u32; 9];
pub const OPW: OpW = [2, 16, 3, 4, 2, 2, 5, 2, 2];

pub struct RunCfg {
    pub id: &'static str,
    pub prof: Prof,
    pub opw: OpW,
    pub crates: usize,
    pub per_crate: usize,
    pub editions: &'static [&'static str],
    pub flavor: &'static str,
    pub rule: &'static str,
    /// which cases exercise the property
    pub nontrivial: fn(&Spec, &model::Stats) -> bool,
    /// adjusts the decoded spec (profile-specific); must be idempotent
    pub tweak: fn(&mut Spec, &Tapes),
    /// histories beyond the random ones (for instance all subsets of set fields)
    pub extra: fn(&Spec) -> Vec<Hist>,
}

pub fn to_case(cfg: &RunCfg, t: Tapes) -> Case {
    let mut spec = decode(&cfg.prof, &t.st, &t.ft);
    (cfg.tweak)(&mut spec, &t);
    let mut probe = vec![[NEW, 0, 0, 0, 0], [PROBE, 0, 0, 0, 0]];
    if model::gen_err(&spec) {
        let w = t.st[0] as u32 % 97;
        probe.extend([[ERR, 0, 0, w, 0], [ERR, 0, 0, w / 9, 0]]);
    }
    if spec.own_build {
        probe.push([OWN, 0, 0, 0, 0]);
    }
    let mut hists = vec![Hist { ops: probe }];
    hists.extend((cfg.extra)(&spec));
    hists.extend(t.hist.iter().map(|h| decode_hist(&spec, &cfg.opw, h)));
    Case { tapes: t, spec, hists }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Compile(String),
    Trace { hist: usize, want: String, got: String },
}

fn ops_text(cases: &[&Case]) -> String {
    let mut s = String::new();
    for (i, c) in cases.iter().enumerate() {
        for h in &c.hists {
            s.push_str(&format!("case m{}\n", i));
            for o in &h.ops {
                s.push_str(&format!("{} {} {} {} {}\n", o[0], o[1], o[2], o[3], o[4]));
            }
        }
    }
    s
}

/// Without `extern crate core`, `::core` means nothing in the 2015 edition.
fn module_src(sp: &Spec, edition: &str) -> String {
    let s = emit::module(sp);
    if edition != "2015" {
        return s;
    }
    let mut o = String::new();
    let mut rest = s.as_str();
    while let Some(i) = rest.find("::core::") {
        let path = rest[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_');
        o.push_str(&rest[..i]);
        o.push_str(if path { "::core::" } else { "::std::" });
        rest = &rest[i + 8..];
    }
    o + rest
}

fn main_src(fl: &Flavor, edition: &str, n: &[usize]) -> String {
    let mut s = format!("#![allow(warnings)]\n{}", fl.head);
    if edition == "2015" {
        for (x, _) in &fl.externs {
            s.push_str(&format!("extern crate {};\n", x));
        }
    }
    for i in n {
        s.push_str(&format!("#[path = \"m{0}.rs\"] mod m{0};\n", i));
    }
    s.push_str("fn main() { ::rt::drive(&[");
    for i in n {
        s.push_str(&format!("(\"m{0}\", m{0}::run as fn(&[::rt::Op])), ", i));
    }
    s.push_str("]) }\n");
    s
}

fn up_src(specs: &[&Spec]) -> String {
    let macros: BTreeSet<String> = specs.iter().map(|s| emit::struct_parts(s).1).collect();
    let mut s = "#![allow(warnings)]\npub extern crate rt;\npub use rt::derive_builder;\npub mod deep { pub use ::rt::derive_builder::*; pub mod r#use { pub use ::rt::derive_builder::{export, Builder, UninitializedFieldError}; } }\n".to_string();
    s.extend(macros);
    s
}
/// Compiles the crate of macros, in another edition; the flavour that has it.
fn with_up(env: &Env, fl: &Flavor, dir: &Path, edition: &str, src: &str) -> Flavor {
    std::fs::write(dir.join("up.rs"), src).unwrap_or_else(|e| infra(&e.to_string()));
    let ed = match edition {
        "2021" => "2015",
        "2018" => "2024",
        "2024" => "2018",
        _ => "2021",
    };
    let o = rustc(env, fl, dir, "up.rs", ed, &["--crate-type", "lib", "--crate-name", "up", "-o", "libup.rlib", "--cap-lints", "allow"]);
    if !o.ok {
        infra(&format!("the crate of macros does not compile: {}", o.diags.iter().map(|d| d.rendered.as_str()).collect::<String>()));
    }
    let mut fl = fl.clone();
    fl.externs.push(("up".into(), dir.join("libup.rlib").display().to_string()));
    fl
}

/// Compiles and runs the cases as one crate; the failure of each case.
pub fn eval_crate(env: &Env, fl: &Flavor, tag: &str, edition: &str, cases: &[&Case]) -> Vec<Option<Fail>> {
    let dir = env.work.join(tag);
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| infra(&format!("{}: {}", dir.display(), e)));
    let mut res: Vec<Option<Fail>> = vec![None; cases.len()];
    let up;
    let (fl0, mut fl) = (fl, fl);
    if fl.up {
        let specs: Vec<&Spec> = cases.iter().map(|c| &c.spec).collect();
        up = with_up(env, fl, &dir, edition, &up_src(&specs));
        fl = &up;
    }
    for (i, c) in cases.iter().enumerate() {
        std::fs::write(dir.join(format!("m{}.rs", i)), module_src(&c.spec, edition)).unwrap_or_else(|e| infra(&e.to_string()));
    }
    loop {
        let live: Vec<usize> = (0..cases.len()).filter(|&i| res[i].is_none()).collect();
        if live.is_empty() {
            break;
        }
        std::fs::write(dir.join("main.rs"), main_src(fl, edition, &live)).unwrap_or_else(|e| infra(&e.to_string()));
        let o = rustc(env, fl, &dir, "main.rs", edition, &["-o", "prog", "-A", "warnings", "--cap-lints", "allow"]);
        if !o.ok {
            let mut hit = false;
            for d in o.diags.iter().filter(|d| d.level == "error") {
                for s in &d.spans {
                    if let Some(k) = s.file.rsplit('/').next().and_then(|f| f.strip_prefix('m')).and_then(|f| f.strip_suffix(".rs")) {
                        if let Ok(k) = k.parse::<usize>() {
                            if res[k].is_none() {
                                res[k] = Some(Fail::Compile(d.rendered.clone()));
                            }
                            hit = true;
                        }
                    }
                }
            }
            if !hit {
                if live.len() == 1 {
                    let m = o.diags.iter().find(|d| d.level == "error").map(|d| d.rendered.clone()).unwrap_or_default();
                    res[live[0]] = Some(Fail::Compile(m));
                    break;
                }
                // not attributed to a module: try each one alone
                for &i in &live {
                    let r = eval_crate(env, fl0, &format!("{}_{}", tag, i), edition, &[cases[i]]);
                    res[i] = r.into_iter().next().unwrap();
                    if res[i].is_none() {
                        // nothing wrong with it alone
                    }
                }
                if live.iter().all(|&i| res[i].is_none()) {
                    infra(&format!("modules compile alone but not together: {}", o.diags.iter().map(|d| d.rendered.as_str()).collect::<String>()));
                }
                break;
            }
            continue;
        }
        let sub: Vec<&Case> = cases.to_vec();
        let mut text = String::new();
        let mut order: Vec<(usize, usize)> = vec![];
        for &i in &live {
            let one = ops_text(&[sub[i]]).replace("case m0\n", &format!("case m{}\n", i));
            text.push_str(&one);
            for h in 0..sub[i].hists.len() {
                order.push((i, h));
            }
        }
        std::fs::write(dir.join("ops"), text).unwrap_or_else(|e| infra(&e.to_string()));
        let out = Command::new("timeout")
            .args(["120", "./prog", "ops"])
            .current_dir(&dir)
            .output()
            .unwrap_or_else(|e| infra(&format!("cannot run the program: {}", e)));
        if out.status.code() == Some(124) {
            infra("generated program ran out of time");
        }
        let got = String::from_utf8_lossy(&out.stdout).to_string();
        let lines: Vec<&str> = got.lines().collect();
        if !out.status.success() || lines.len() != order.len() {
            use std::os::unix::process::ExitStatusExt;
            // `timeout` passes a crash of the program on as its own
            let sig = out.status.signal().or(out.status.code().filter(|c| *c > 128).map(|c| c - 128));
            if !matches!(sig, Some(4 | 6 | 11)) || lines.len() >= order.len() {
                infra(&format!("generated program ended with {:?} after {} of {} cases: {}", out.status, lines.len(), order.len(), String::from_utf8_lossy(&out.stderr)));
            }
            let (i, h) = order[lines.len()];
            let mut st = model::Stats::default();
            let want = model::trace(&cases[i].spec, &cases[i].hists[h], &mut st).join(" | ");
            res[i] = Some(Fail::Trace { hist: h, want, got: format!("the program dies (signal {})", sig.unwrap()) });
            continue;
        }
        let mut st = model::Stats::default();
        for (k, (i, h)) in order.iter().enumerate() {
            if res[*i].is_some() {
                continue;
            }
            let want = model::trace(&cases[*i].spec, &cases[*i].hists[*h], &mut st).join(" | ");
            if want != lines[k] {
                res[*i] = Some(Fail::Trace { hist: *h, want, got: lines[k].to_string() });
            }
        }
        break;
    }
    let _ = std::fs::remove_dir_all(&dir);
    res
}

fn same_kind(a: &Fail, b: &Fail) -> bool {
    matches!((a, b), (Fail::Compile(_), Fail::Compile(_)) | (Fail::Trace { .. }, Fail::Trace { .. }))
}

/// Candidates one step simpler than the tapes.
pub fn simpler(t: &Tapes) -> Vec<Tapes> {
    let mut v = vec![];
    for i in 0..t.ft.len() {
        if t.ft.len() > 1 {
            let mut c = t.clone();
            c.ft.remove(i);
            v.push(c);
        }
    }
    let mut zero_field = |range: std::ops::Range<usize>| {
        for i in 0..t.ft.len() {
            if t.ft[i][range.clone()].iter().any(|x| *x != 0) {
                let mut c = t.clone();
                c.ft[i][range.clone()].fill(0);
                v.push(c);
            }
        }
    };
    zero_field(0..FT);
    zero_field(0..FT / 2);
    zero_field(FT / 2..FT);
    let mut c = t.clone();
    c.st.fill(0);
    if c.st != t.st {
        v.push(c);
    }
    for w in [16usize, 4] {
        for k in (0..ST).step_by(w) {
            if t.st[k..k + w].iter().any(|x| *x != 0) {
                let mut c = t.clone();
                c.st[k..k + w].fill(0);
                v.push(c);
            }
        }
    }
    for k in 0..ST {
        if t.st[k] != 0 {
            let mut c = t.clone();
            c.st[k] = 0;
            v.push(c);
        }
    }
    // the last cells are sets of bits
    for k in MASKS..ST {
        for b in 0..16 {
            if t.st[k] >> b & 1 == 1 && t.st[k] != 1 << b {
                let mut c = t.clone();
                c.st[k] &= !(1 << b);
                v.push(c);
            }
        }
    }
    for i in 0..t.ft.len() {
        for k in 0..FT {
            if t.ft[i][k] != 0 {
                let mut c = t.clone();
                c.ft[i][k] = 0;
                v.push(c);
            }
        }
    }
    // operations: shorter histories and simpler operations
    for h in 0..t.hist.len() {
        let n = t.hist[h].len();
        for w in [n / 2, n / 4, 1] {
            if w == 0 {
                continue;
            }
            let mut k = 0;
            while k < n {
                let mut c = t.clone();
                let e = (k + w).min(n);
                c.hist[h].drain(k..e);
                v.push(c);
                k += w;
            }
        }
        for k in 0..n {
            if t.hist[h][k].iter().any(|x| *x != 0) {
                for j in 0..t.hist[h][k].len() {
                    if t.hist[h][k][j] != 0 {
                        let mut c = t.clone();
                        c.hist[h][k][j] = 0;
                        v.push(c);
                    }
                }
            }
        }
    }
    v
}

pub fn shrink(env: &Env, cfg: &RunCfg, edition: &str, case: &Case, fail: &Fail) -> (Case, Fail) {
    let t0 = Instant::now();
    let mut cur = case.clone();
    let mut cf = fail.clone();
    let extra = 1 + (cfg.extra)(&cur.spec).len();
    if let Fail::Trace { hist, .. } = fail {
        let t = if *hist >= extra { vec![cur.tapes.hist[hist - extra].clone()] } else { vec![] };
        cur.tapes.hist = t;
    } else {
        cur.tapes.hist = vec![];
    }
    cur = to_case(cfg, cur.tapes);
    let budget = if env.thorough { 240 } else { 100 };
    let mut round = 0;
    'outer: while t0.elapsed().as_secs() < budget {
        round += 1;
        let mut seen = BTreeSet::new();
        seen.insert(format!("{:?}{:?}", cur.spec, cur.hists));
        let cands: Vec<Case> = simpler(&cur.tapes)
            .into_iter()
            .map(|t| to_case(cfg, t))
            .filter(|c| seen.insert(format!("{:?}{:?}", c.spec, c.hists)))
            .collect();
        for (k, chunk) in cands.chunks(env.jobs * 2).enumerate() {
            if t0.elapsed().as_secs() >= budget {
                break 'outer;
            }
            let r = parallel(env.jobs, chunk, |i, c| {
                eval_crate(env, env.flavor(cfg.flavor), &format!("s{}_{}_{}", round, k, i), edition, &[c]).into_iter().next().unwrap()
            });
            for (i, f) in r.into_iter().enumerate() {
                if let Some(f) = f {
                    if same_kind(&f, &cf) {
                        cur = chunk[i].clone();
                        cf = f;
                        continue 'outer;
                    }
                }
            }
        }
        break;
    }
    // only the history that fails is reported
    if let Fail::Trace { hist, want, got } = cf.clone() {
        cur.hists = vec![cur.hists[hist].clone()];
        cf = Fail::Trace { hist: 0, want, got };
    }
    (cur, cf)
}

pub struct Evidence {
    pub id: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub rule: String,
    pub samples: Vec<Value>,
    pub extra: BTreeMap<String, Value>,
    pub violations: u64,
}
impl Evidence {
    pub fn new(id: &str, rule: &str) -> Self {
        Evidence { id: id.into(), evaluations: 0, nontrivial: 0, rule: rule.into(), samples: vec![], extra: BTreeMap::new(), violations: 0 }
    }
    pub fn merge(&mut self, o: Evidence, label: &str) {
        self.extra.insert(format!("{}_cases", label), json!([o.evaluations, o.nontrivial]));
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.rule = format!("{} // {}: {}", self.rule, label, o.rule);
        self.samples.extend(o.samples);
        for (k, v) in o.extra {
            self.extra.insert(format!("{}_{}", label, k), v);
        }
        self.violations += o.violations;
    }
    pub fn write(&self, env: &Env) {
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.nontrivial));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples));
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        let v = json!({
            "property": self.id,
            "tier": if env.thorough { "thorough" } else { "quick" },
            "seed": env.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": ["generated programs are compiled with the pinned rustc 1.88.0 without optimisation"],
            "wall_s": env.start.elapsed().as_secs_f64(),
            "violations": self.violations,
        });
        let dir = env.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&v).unwrap())
            .unwrap_or_else(|e| infra(&format!("evidence: {}", e)));
    }
}

/// Writes a replay file and prints the VIOLATION line.
pub fn violation(env: &Env, id: &str, what: Value) {
    let dir = env.verif.join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", id));
    std::fs::write(&path, serde_json::to_string_pretty(&what).unwrap()).unwrap_or_else(|e| infra(&format!("replay: {}", e)));
    let mut shown = what.clone();
    if let Some(o) = shown.as_object_mut() {
        o.remove("input");
        for (k, v) in o.iter() {
            println!("{}: {}", k, v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string()).chars().take(3000).collect::<String>());
        }
    }
    println!("VIOLATION property={} replay={}", id, path.display());
}

pub fn no_tweak(_: &mut Spec, _: &Tapes) {}
pub fn no_extra(_: &Spec) -> Vec<Hist> {
    vec![]
}

/// What one generated crate contributed to the evidence.
#[derive(Default)]
struct Sum {
    hists: u64,
    ops: u64,
    nonh: BTreeSet<u64>,
    nons: BTreeSet<u64>,
    st: model::Stats,
    shape: BTreeMap<&'static str, u64>,
    sample: Option<Value>,
    bad: Option<(Case, Fail)>,
}

pub fn hash64<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The cases of crate k, a function of seed, property and k alone.
fn cases_of(env: &Env, cfg: &RunCfg, k: usize) -> Vec<Case> {
    let mut runner = runner_for(env.seed, &format!("{}#{}{}", cfg.id, k, if cfg.prof.fields.0 > 9 { "wide" } else if cfg.flavor == "std" { "" } else { cfg.flavor }), 1);
    let strat = tapes(&cfg.prof);
    (0..cfg.per_crate).map(|_| to_case(cfg, strat.new_tree(&mut runner).expect("tree").current())).collect()
}

fn one_crate(env: &Env, cfg: &RunCfg, k: usize) -> Sum {
    let cases = cases_of(env, cfg, k);
    let refs: Vec<&Case> = cases.iter().collect();
    let ed = cfg.editions[k % cfg.editions.len()];
    let res = eval_crate(env, env.flavor(cfg.flavor), &format!("c{}", k), ed, &refs);
    let mut s = Sum::default();
    for c in &cases {
        let src = emit::struct_src(&c.spec);
        let sh = hash64(&src);
        let mut any = false;
        for hh in &c.hists {
            let mut one = model::Stats::default();
            let tr = model::trace(&c.spec, hh, &mut one);
            s.hists += 1;
            s.ops += hh.ops.len() as u64;
            if (cfg.nontrivial)(&c.spec, &one) {
                s.nonh.insert(hash64(&(sh, &hh.ops)));
                any = true;
                if s.sample.is_none() && k < 3 {
                    s.sample = Some(json!({"struct": src, "history": format!("{:?}", hh.ops), "trace": tr.join(" | ")}));
                }
            }
            s.st.add(&one);
        }
        if any {
            s.nons.insert(sh);
        }
        count_shape(&c.spec, &mut s.shape);
    }
    for (i, f) in res.into_iter().enumerate() {
        if let Some(f) = f {
            s.bad = Some((cases[i].clone(), f));
            break;
        }
    }
    s
}

/// The run engine: generate, compile, run, compare. A replay record if something failed.
pub fn run_engine(env: &Env, cfg: &RunCfg) -> (Evidence, Option<Value>) {
    let mut ev = Evidence::new(cfg.id, cfg.rule);
    let scale = if env.thorough { 12 } else { 1 };
    let crates = cfg.crates * scale;
    let mut made = 0;
    let mut nonh: BTreeSet<u64> = BTreeSet::new();
    let mut nons: BTreeSet<u64> = BTreeSet::new();
    let mut ops = 0u64;
    let mut total = model::Stats::default();
    let mut shape: BTreeMap<&'static str, u64> = BTreeMap::new();
    // in rounds, so that memory stays bounded and a failure ends the run early
    while made < crates {
        let k = (crates - made).min(env.jobs * 8);
        let idx: Vec<usize> = (made..made + k).collect();
        let sums = parallel(env.jobs, &idx, |_, k| one_crate(env, cfg, *k));
        for (i, s) in sums.into_iter().enumerate() {
            made += 1;
            ev.evaluations += s.hists;
            ops += s.ops;
            nonh.extend(s.nonh);
            nons.extend(s.nons);
            total.add(&s.st);
            for (a, b) in s.shape {
                *shape.entry(a).or_default() += b;
            }
            ev.samples.extend(s.sample);
            ev.nontrivial = nonh.len() as u64;
            if let Some((case, f)) = s.bad {
                let ed = cfg.editions[idx[i] % cfg.editions.len()];
                // confirm alone, in a fresh crate
                let again = eval_crate(env, env.flavor(cfg.flavor), "confirm", ed, &[&case]).into_iter().next().unwrap();
                let f = match again {
                    Some(x) => x,
                    None => infra(&format!("a failure did not reproduce alone: {:?}", f)),
                };
                let (c, f) = shrink(env, cfg, ed, &case, &f);
                ev.violations = 1;
                let v = replay_json(cfg, ed, &c, &f);
                ev.samples.push(v.clone());
                return (ev, Some(v));
            }
        }
    }
    ev.extra.insert("structs".into(), json!(made * cfg.per_crate));
    ev.extra.insert("distinct_nontrivial_structs".into(), json!(nons.len()));
    ev.extra.insert("operations".into(), json!(ops));
    ev.extra.insert("operation_counts".into(), total.json());
    ev.extra.insert("struct_shapes".into(), json!(shape));
    (ev, None)
}

fn count_shape(sp: &Spec, m: &mut BTreeMap<&'static str, u64>) {
    let mut add = |k: &'static str, c: bool| {
        if c {
            *m.entry(k).or_default() += 1
        }
    };
    let n = sp.fields.len();
    add("owned", model::spat(sp) == Pat::Owned);
    add("immutable", model::spat(sp) == Pat::Immutable);
    add("mixed_patterns", (0..n).any(|i| model::pat(sp, i) != model::spat(sp)));
    add("generic", !sp.gens.tys.is_empty() || sp.gens.lt || sp.gens.n);
    add("struct_default", sp.def.is_some());
    add("field_default", sp.fields.iter().any(|f| f.def.is_some()));
    add("hidden", (0..n).any(|i| model::hidden(sp, i)));
    add("custom_setter", (0..n).any(|i| sp.fields[i].set.custom == Some(true)));
    add("into", (0..n).any(|i| model::into(sp, i)));
    add("strip_option", (0..n).any(|i| model::strip(sp, i)));
    add("each", (0..n).any(|i| sp.fields[i].set.each.is_some()));
    add("try_setter", (0..n).any(|i| model::has_try(sp, i)));
    add("validate", sp.validate.is_some());
    add("custom_error", !matches!(sp.err, ErrK::Gen | ErrK::GenTrue | ErrK::NoVal));
    add("custom_type", sp.fields.iter().any(|f| f.cty.is_some()));
    add("custom_build", sp.fields.iter().any(|f| f.cbuild.is_some()));
    add("custom_constructor", sp.custom_ctor);
    add("required_field", (0..n).any(|i| model::required(sp, i)));
    add("non_clone_type", sp.fields.iter().any(|f| !f.ty.is_clone()));
}

pub fn replay_json(cfg: &RunCfg, edition: &str, c: &Case, f: &Fail) -> Value {
    let src = module_src(&c.spec, edition);
    let (id, fl) = (cfg.id, cfg.flavor);
    let mut v = match f {
        Fail::Compile(m) => json!({"property": id, "engine": "run", "flavor": fl, "edition": edition, "kind": "does not compile", "source": src, "struct": emit::struct_src(&c.spec), "rustc": m}),
        Fail::Trace { want, got, .. } => json!({"property": id, "engine": "run", "flavor": fl, "edition": edition, "kind": "behaves differently from the model",
            "struct": emit::struct_src(&c.spec), "source": src, "ops": c.hists[0].ops, "expected": want, "observed": got}),
    };
    if c.spec.up {
        v["up"] = json!(up_src(&[&c.spec]));
    }
    v
}

/// Replays a file written by `replay_json` without the generator.
pub fn replay(env: &Env, v: &Value) -> bool {
    let dir = env.work.join("replay");
    let fl = env.flavor(v["flavor"].as_str().unwrap_or("std"));
    std::fs::create_dir_all(&dir).unwrap();
    let mut fl = fl.clone();
    if let Some(u) = v["up"].as_str() {
        fl = with_up(env, &fl, &dir, v["edition"].as_str().unwrap(), u);
    }
    let fl = &fl;
    std::fs::write(dir.join("m0.rs"), v["source"].as_str().unwrap()).unwrap();
    std::fs::write(dir.join("main.rs"), main_src(fl, v["edition"].as_str().unwrap(), &[0])).unwrap();
    let o = rustc(env, fl, &dir, "main.rs", v["edition"].as_str().unwrap(), &["-o", "prog", "-A", "warnings", "--cap-lints", "allow"]);
    if !o.ok {
        for d in o.diags {
            print!("{}", d.rendered);
        }
        return false;
    }
    if v["ops"].is_null() {
        return true;
    }
    let mut t = String::from("case m0\n");
    for o in v["ops"].as_array().unwrap() {
        let x: Vec<String> = o.as_array().unwrap().iter().map(|x| x.to_string()).collect();
        t.push_str(&(x.join(" ") + "\n"));
    }
    std::fs::write(dir.join("ops"), t).unwrap();
    let out = Command::new("./prog").arg("ops").current_dir(&dir).output().unwrap();
    let got = String::from_utf8_lossy(&out.stdout).trim_end_matches('\n').to_string();
    println!("expected: {}\nobserved: {}", v["expected"].as_str().unwrap(), got);
    got == v["expected"].as_str().unwrap()
}
