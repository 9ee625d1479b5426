//! The compile engine: generated modules are compiled (not run) with the real derive, and the
//! compiler's diagnostics are judged. Used for C22 (no warnings) and C23 (places of errors).
use crate::{drive::*, emit, inproc, model as m, spec::*};
use proptest::strategy::{Strategy, ValueTree};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fmt::Write;

pub struct Src {
    pub text: String,
    /// the same module without the derive; must be silent for the case to count
    pub base: Option<String>,
    /// each must enclose the primary span of an error: what it is, (line, column) from and to, columns from 1
    pub want: Vec<(String, [(usize, usize); 2])>,
}
pub struct CCfg {
    pub id: &'static str,
    pub label: &'static str,
    pub rule: &'static str,
    pub prof: Prof,
    pub crates: usize,
    pub per_crate: usize,
    pub head: &'static str,
    /// None: the case does not apply
    pub make: fn(Spec, &Tapes) -> Option<Src>,
    pub judge: fn(&Src, &[&Diag]) -> Result<(), String>,
    pub flavor: &'static str,
}
const EDS: &[&str] = &["2021", "2018", "2024"];

fn module_of(d: &Diag) -> BTreeSet<usize> {
    d.spans
        .iter()
        .filter_map(|s| s.file.rsplit('/').next()?.strip_prefix('m')?.strip_suffix(".rs")?.parse().ok())
        .collect()
}

/// Diagnostics of each module; None for those of `texts` that are None.
fn compile(env: &Env, cfg: &CCfg, tag: &str, ed: &str, texts: &[Option<&str>]) -> Vec<Option<Vec<Diag>>> {
    let dir = env.work.join(tag);
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| infra(&format!("{}: {}", dir.display(), e)));
    let mut main = format!("//! c\n{}\n", cfg.head);
    for (i, t) in texts.iter().enumerate() {
        if let Some(t) = t {
            std::fs::write(dir.join(format!("m{}.rs", i)), t).unwrap_or_else(|e| infra(&e.to_string()));
            let _ = write!(main, "#[path = \"m{0}.rs\"]\n/// m\npub mod m{0};\n", i);
        }
    }
    std::fs::write(dir.join("lib.rs"), main).unwrap_or_else(|e| infra(&e.to_string()));
    let o = rustc(env, env.flavor(cfg.flavor), &dir, "lib.rs", ed, &["--crate-type", "lib", "--emit", "metadata", "-o", "out.rmeta"]);
    let _ = std::fs::remove_dir_all(&dir);
    let mut out: Vec<Option<Vec<Diag>>> = texts.iter().map(|t| t.map(|_| vec![])).collect();
    let live: Vec<usize> = (0..texts.len()).filter(|&i| texts[i].is_some()).collect();
    for d in o.diags {
        if d.msg.starts_with("aborting due to") || d.level == "failure-note" || d.msg.contains("warning emitted") || d.msg.contains("warnings emitted") {
            continue;
        }
        let of = module_of(&d);
        if of.is_empty() {
            // nothing to attribute it to: it counts for a module on its own
            if live.len() == 1 {
                out[live[0]].as_mut().unwrap().push(d);
            }
            continue;
        }
        for i in of {
            if let Some(Some(v)) = out.get_mut(i) {
                v.push(d.clone());
            }
        }
    }
    out
}

/// The failure of each case; Ok(false) for one that does not count.
fn eval(env: &Env, cfg: &CCfg, tag: &str, ed: &str, cases: &[Option<Src>]) -> Vec<Result<bool, String>> {
    let mut live: Vec<bool> = cases.iter().map(|c| c.is_some()).collect();
    if cases.iter().any(|c| c.as_ref().map_or(false, |c| c.base.is_some())) {
        // an error keeps later lints from running: again without the modules that have one
        loop {
          let b: Vec<Option<&str>> = cases.iter().zip(&live).map(|(c, l)| c.as_ref().filter(|_| *l).and_then(|c| c.base.as_deref())).collect();
          let mut errors = false;
          for (i, d) in compile(env, cfg, &format!("{}b", tag), ed, &b).iter().enumerate() {
            errors |= d.as_ref().map_or(false, |d| d.iter().any(|d| d.level == "error"));
            if d.as_ref().map_or(false, |d| !d.is_empty()) {
                if std::env::var("DBV_SHOW_BASE").is_ok() {
                    for d in d.as_ref().unwrap() {
                        eprintln!("base: {}\n{}", d.msg, d.rendered);
                    }
                }
                live[i] = false;
            }
          }
          if !errors {
              break;
          }
        }
    }
    let t: Vec<Option<&str>> = cases.iter().enumerate().map(|(i, c)| c.as_ref().filter(|_| live[i]).map(|c| c.text.as_str())).collect();
    compile(env, cfg, tag, ed, &t)
        .iter()
        .enumerate()
        .map(|(i, d)| match d {
            None => Ok(false),
            Some(d) => (cfg.judge)(cases[i].as_ref().unwrap(), &d.iter().collect::<Vec<_>>()).map(|_| true),
        })
        .collect()
}

fn make(cfg: &CCfg, t: &Tapes) -> Option<Src> {
    (cfg.make)(decode(&cfg.prof, &t.st, &t.ft), t)
}

fn shrink(env: &Env, cfg: &CCfg, ed: &str, t: Tapes, msg: String) -> (Tapes, String) {
    let t0 = std::time::Instant::now();
    let (mut cur, mut msg) = (t, msg);
    let budget = if env.thorough { 240 } else { 60 };
    let mut round = 0;
    'outer: while t0.elapsed().as_secs() < budget {
        round += 1;
        let mut seen = BTreeSet::new();
        seen.insert(make(cfg, &cur).map(|s| s.text));
        let cands: Vec<Tapes> = simpler(&cur).into_iter().filter(|t| seen.insert(make(cfg, t).map(|s| s.text))).collect();
        for (k, chunk) in cands.chunks(env.jobs * 2).enumerate() {
            if t0.elapsed().as_secs() >= budget {
                break 'outer;
            }
            let r = parallel(env.jobs, chunk, |i, t| eval(env, cfg, &format!("s{}_{}_{}", round, k, i), ed, &[make(cfg, t)]).remove(0));
            for (i, f) in r.into_iter().enumerate() {
                if let Err(f) = f {
                    cur = chunk[i].clone();
                    msg = f;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (cur, msg)
}

pub fn run(env: &Env, cfg: &CCfg) -> (Evidence, Option<Value>) {
    let mut ev = Evidence::new(cfg.id, cfg.rule);
    let n = cfg.crates * if env.thorough { 12 } else { 1 };
    let mut distinct = BTreeSet::new();
    let mut at = 0;
    while at < n {
        let idx: Vec<usize> = (at..n.min(at + env.jobs * 8)).collect();
        at += idx.len();
        let tapes_of = |k: usize| -> Vec<Tapes> {
            let mut r = runner_for(env.seed, &format!("{}{}#{}", cfg.id, cfg.label, k), 1);
            let s = tapes(&cfg.prof);
            (0..cfg.per_crate).map(|_| s.new_tree(&mut r).expect("tree").current()).collect()
        };
        let res = parallel(env.jobs, &idx, |_, &k| {
            let t = tapes_of(k);
            let cases: Vec<Option<Src>> = t.iter().map(|t| make(cfg, t)).collect();
            let r = eval(env, cfg, &format!("c{}", k), EDS[k % 3], &cases);
            (t, cases, r)
        });
        for (k, (t, cases, r)) in idx.iter().zip(res) {
            for (i, r) in r.into_iter().enumerate() {
                ev.evaluations += 1;
                match r {
                    Ok(false) => {}
                    Ok(true) => {
                        let s = &cases[i].as_ref().unwrap().text;
                        if distinct.insert(hash64(s)) && ev.samples.len() < 2 {
                            ev.samples.push(json!(s));
                        }
                    }
                    Err(first) => {
                        let ed = EDS[k % 3];
                        let msg = match eval(env, cfg, "confirm", ed, &[make(cfg, &t[i])]).remove(0) {
                            Err(e) => e,
                            Ok(_) => infra(&format!("a failure did not reproduce alone: {}\n{}", first, cases[i].as_ref().unwrap().text)),
                        };
                        let (t, msg) = shrink(env, cfg, ed, t[i].clone(), msg);
                        let s = make(cfg, &t).unwrap();
                        ev.violations = 1;
                        ev.nontrivial = distinct.len() as u64;
                        let v = json!({"property": cfg.id, "engine": "compile", "label": cfg.label, "edition": ed, "source": s.text, "base": s.base, "want": s.want, "failure": msg});
                        ev.samples.push(v.clone());
                        return (ev, Some(v));
                    }
                }
            }
        }
    }
    ev.nontrivial = distinct.len() as u64;
    (ev, None)
}
pub fn replay(env: &Env, cfg: &CCfg, v: &Value) -> bool {
    let s = |k: &str| v[k].as_str().map(|x| x.to_string());
    let want = serde_json::from_value(v["want"].clone()).unwrap_or_default();
    let src = Src { text: s("source").unwrap(), base: s("base"), want };
    let ed = s("edition").unwrap();
    match eval(env, cfg, "replay", &ed, &[Some(src)]).remove(0) {
        Ok(x) => {
            if !x {
                println!("the case does not apply: the module itself has diagnostics");
            }
            true
        }
        Err(e) => {
            println!("{}", e);
            false
        }
    }
}

// ---- C22: no warnings ----

fn silent(_: &Src, d: &[&Diag]) -> Result<(), String> {
    match d.first() {
        None => Ok(()),
        Some(d) => Err(format!("the expansion adds a diagnostic: {}: {}\n{}", d.level, d.msg, d.rendered)),
    }
}
/// A name for which no lint could fire.
fn plain(s: &str) -> bool {
    let s = unraw(s);
    s.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'_') && !s.contains("__") && !s.ends_with('_') && s != "_"
}
/// A derived PartialEq may compare what should not be compared; that is the user's choice.
fn c22_clippy(mut sp: Spec, t: &Tapes) -> Option<Src> {
    sp.derives.retain(|d| *d != "PartialEq");
    c22_make(sp, t)
}
fn c22_make(mut sp: Spec, t: &Tapes) -> Option<Src> {
    let mut x = Tape::new(&t.st[MASKS - 6..]);
    let deny = x.below(3);
    // names that no lint reports
    for (i, f) in sp.fields.iter_mut().enumerate() {
        if !plain(&f.name) && !f.name.starts_with('_') {
            f.name = format!("f{}", i);
        }
        if let Some(d) = &f.set.name {
            if !plain(d) {
                f.set.name = Some(format!("set{}", i));
            }
        }
    }
    let docs = [
        vec!["/// Text of the field."],
        vec!["#[doc = \"Text\"]"],
        vec!["/** Text. */"],
        vec!["/// One.", "///", "/// Two `x`."],
        vec!["/// Text.", "#[allow(dead_code)]"],
        vec!["#[cfg(all())]", "/// Text."],
    ];
    for f in &mut sp.fields {
        f.attrs = docs[x.pick(&[6, 2, 1, 2, 1, 1])].iter().map(|s| s.to_string()).collect();
    }
    sp.attrs = docs[x.below(4)].iter().map(|s| s.to_string()).collect();
    // uses in generated code are not the user's
    let old = ["#[deprecated]", "#[deprecated = \"old\"]", "#[deprecated(since = \"1\", note = \"old\")]", "#[must_use]"];
    // (a bound on `Self` is also on impls that no attribute of the struct gets to)
    let g = emit::generics(&sp);
    let k = x.below(4);
    if x.chance(100) && !format!("{} {}", g.decl, g.swher).contains("Self") {
        sp.attrs.push(old[k].into());
    }
    for f in &mut sp.fields {
        if x.chance(100) {
            f.attrs.push(old[x.below(3)].into());
        }
    }
    if deny == 1 {
        sp.attrs.push("#[deny(warnings, missing_docs)]".into());
    }
    // the struct's own visibility; the builder must not be wider
    let vis = ["pub ", "pub ", "pub ", "pub(crate) ", "", "pub(super) "][x.below(6)];
    sp.vis = vis.into();
    if vis != "pub " {
        sp.bvis = match &sp.bvis {
            VisOpt::Private => VisOpt::Private,
            _ => VisOpt::None,
        };
    }
    let names: Vec<String> = (0..sp.fields.len()).filter(|&i| m::has_setter(&sp, i)).map(|i| m::setter_name(&sp, i)).collect();
    if names.iter().any(|n| n.contains("__") || n.ends_with('_')) {
        return None;
    }
    let mut base = sp.clone();
    for f in &mut base.fields {
        *f = Field { set: SetOpts::default(), pat: None, def: None, try_setter: false, setter_vis: VisOpt::None, field_vis: VisOpt::None, cty: None, cbuild: None, inj: vec![], ..f.clone() };
    }
    let g = emit::generics(&sp);
    let n = &sp.name;
    let mut user = String::new();
    let args = if g.args.is_empty() { String::new() } else { g.args.clone() };
    let reads: Vec<String> = sp.fields.iter().map(|f| format!("let _ = &s.{};", f.name)).collect();
    let sets: Vec<String> = sp.fields.iter().map(|f| format!("{}: ::core::todo!()", f.name)).collect();
    let _ = write!(user, "fn read_{}(s: &{}{}){} {{ {} }}\n", g.imp, n, args, g.fwher, reads.concat());
    let _ = write!(user, "fn make_{}() -> {}{}{} {{ {} {{ {} }} }}\n", g.imp, n, args, g.fwher, n, sets.join(", "));
    let mut touch = user.clone();
    // one way of obtaining a builder is used
    let mut w = g.fwher.clone();
    if m::is_clone(&sp) {
        for q in &sp.gens.tys {
            w.push_str(if w.is_empty() { " where " } else { ", " });
            w.push_str(&format!("{}: ::core::clone::Clone", q.name));
        }
    }
    let b = m::builder_name(&sp);
    let _ = write!(touch, "fn touch_{}(){} {{ let _ = {}{}::{}(); }}\n", g.imp, w, b, if args.is_empty() { String::new() } else { format!("::{}", args) }, m::create_empty(&sp));
    // reading what the generated build does not read is the user's part
    {
        let reads: Vec<String> = (0..sp.fields.len()).filter(|&i| !m::hidden(&sp, i) && (sp.build_skip || sp.fields[i].cbuild.is_some())).map(|i| format!("let _ = &b.{};", sp.fields[i].name)).collect();
        let _ = write!(touch, "fn build_{}(b: &{}{}){} {{ {} }}\n", g.imp, b, args, w, reads.concat());
    }
    let mut down = vec![];
    if matches!(sp.validate, Some(ValK::Free | ValK::FreeOwnErr)) {
        down.push("free_validate");
    }
    match sp.def.as_ref().map(|d| &d.kind) {
        None | Some(DKind::Word) => {}
        Some(DKind::Q) => down.push("mk_sq"),
        _ => down.push("mk_s"),
    }
    if matches!(sp.validate, Some(ValK::ModFree)) {
        down.push("sub_");
    }
    let import = if down.is_empty() { String::new() } else { format!("#[allow(unused_imports)] use self::i_::{{{}}};\n", down.join(", ")) };
    let text = format!(
        "{}{}#[allow(warnings)] mod i_ {{ use super::*;\n{}\n{} }}\n",
        emit::struct_src(&sp),
        import,
        emit::user_code(&sp),
        touch
    );
    let mut bt = emit::struct_src(&Spec {
        pat: None, bname: None, bvis: VisOpt::None, prefix: None, into: None, strip: None, skip: None, try_setter: false, def: None, build_name: None, build_skip: false,
        build_vis: VisOpt::None, validate: None, err: ErrK::Gen, derives: vec![], custom_ctor: false, create_empty: None, field_vis: VisOpt::None, no_std: false,
        preset: None, own_build: false, own_default: false, crate_root: None, inj: vec![], ..base
    });
    bt = bt.replacen("#[derive(::derive_builder::Builder)]\n", "", 1);
    if bt.contains("#[builder") {
        infra(&format!("the struct without its options has options: {}", bt));
    }
    let base = format!("{}#[allow(warnings)] mod i_ {{ use super::*;\n{} }}\n", bt, user);
    Some(Src { text, base: Some(base), want: vec![] })
}

// ---- C23: places of errors ----

fn located(s: &Src, d: &[&Diag]) -> Result<(), String> {
    let errs: Vec<&&Diag> = d.iter().filter(|d| d.level == "error").collect();
    for (what, [from, to]) in &s.want {
        let hit = errs.iter().any(|d| d.spans.iter().any(|p| p.primary && (p.line, p.col) >= *from && (p.end_line, p.end_col) <= *to));
        if !hit {
            return Err(format!(
                "no error is located in {} (lines and columns {:?} to {:?}); errors: {}",
                what,
                from,
                to,
                errs.iter().map(|d| d.rendered.as_str()).collect::<Vec<_>>().join("\n")
            ));
        }
    }
    Ok(())
}
fn c23_make(mut sp: Spec, t: &Tapes) -> Option<Src> {
    let mut x = Tape::new(&t.st[MASKS - 8..]);
    let bads = inproc::offend(&mut sp, &mut x);
    let text = emit::struct_src(&sp);
    let mut want = vec![];
    for (b, mark) in &bads {
        // the end of an attribute that breaks off has no location in darling
        if b.what == "malformed builder attribute" {
            return None;
        }
        let r = inproc::marked_attrs(&text, mark);
        if r.len() != 1 {
            return None;
        }
        let [a, e] = r[0];
        want.push((format!("the offending attribute ({})", b.what), [(a.0, a.1 + 1), (e.0, e.1 + 1)]));
    }
    Some(Src { text, base: None, want })
}
/// The user's error type lacks the conversion.
fn c23_conv(mut sp: Spec, t: &Tapes) -> Option<Src> {
    let mut x = Tape::new(&t.st[MASKS - 8..]);
    sp.def = None;
    sp.build_skip = false;
    sp.err = ErrK::Plain;
    if !(0..sp.fields.len()).any(|i| m::required(&sp, i)) {
        return None;
    }
    let mut text = emit::struct_src(&sp);
    let at = text.find("error = \"")?;
    let name = ["::rt::PErr", "self::MyErr", "MyErr", "crate::m::PErr"][x.below(3)];
    text = text.replacen("error = \"::rt::PErr\"", &format!("error = \"{}\"", name), 1);
    let line = text[..at].matches('\n').count() + 1;
    let col = text[..at].chars().rev().take_while(|c| *c != '\n').count() + 1;
    let end = col + format!("error = \"{}\"", name).chars().count();
    let def = if name.contains("MyErr") { "#[derive(Debug)] pub struct MyErr;\nimpl From<String> for MyErr { fn from(_: String) -> MyErr { MyErr } }\nimpl From<::rt::VErr> for MyErr { fn from(_: ::rt::VErr) -> MyErr { MyErr } }\nimpl From<::rt::QErr> for MyErr { fn from(_: ::rt::QErr) -> MyErr { MyErr } }\n" } else { "" };
    let user = emit::user_code(&sp).replace("::rt::PErr", name);
    Some(Src { text: format!("{}{}{}", text, def, user), base: None, want: vec![("the error option".into(), [(line, col), (line, end)])] })
}

/// Code and paths in options that the compiler, not the macro, finds fault with.
fn c23_code(sp: Spec, t: &Tapes, class: usize) -> Option<Src> {
    let mut sp = sp;
    let mut x = Tape::new(&t.st[MASKS - 8..]);
    let n = sp.fields.len();
    let open: Vec<usize> = (0..n).filter(|&i| sp.fields[i].cty.is_none() && sp.fields[i].cbuild.is_none()).collect();
    let stored: Vec<usize> = open.iter().copied().filter(|&i| !m::hidden(&sp, i)).collect();
    sp.def = None;
    sp.build_skip = false;
    let mut extra = String::new();
    // (on which field, which list, what)
    let bad = |i: Option<usize>, list: &str, what: &str| Some((i, list.to_string(), what.to_string()));
    let some = |v: &[usize], x: &mut Tape| if v.is_empty() { None } else { Some(v[x.below(v.len())]) };
    let quoted = |x: &mut Tape, s: &[&str]| { let s = s[x.below(s.len())]; if x.below(2) == 0 { format!("{:?}", s) } else { s.to_string() } };
    let wrong = ["zz_mk()", "{ zz_mk }", "{ let a = zz_mk::X; a }", "::rt::zz_mk(1)", "zz_mk::default()", "zz_mk { a: 1 }", "self.zz_mk_fn(zz_mk)"];
    let mistyped = ["{ let _zz_mk = (); [(), (), ()] }", "{ fn zz_mk() {} zz_mk() }", "{ let zz_mk: () = 1u8; ::core::todo!() }", "{ let zz_mk = 1u8; zz_mk.nothing() }"];
    let (field, list, what) = match (class, x.below(7)) {
        (0, 0 | 1) => {
            let i = some(&open, &mut x)?;
            sp.fields[i].def = None;
            let w = format!("default = {}", quoted(&mut x, &wrong));
            bad(Some(i), "", &w)
        }
        (0, 2) => {
            let i = some(&stored, &mut x)?;
            sp.fields[i].def = None;
            let w = format!("build = {}", quoted(&mut x, &wrong));
            bad(Some(i), "field", &w)
        }
        (0, 3) => {
            let i = some(&stored, &mut x)?;
            sp.fields[i].def = None;
            bad(Some(i), "field", ["ty = \"zz_mk\"", "ty = \"Vec<zz_mk::T>\"", "ty = \"zz_mk<u8>\""][x.below(3)])
        }
        (0, 4) => {
            sp.validate = None;
            bad(None, "build_fn", ["validate = \"zz_mk\"", "validate = \"self::zz_mk::f\"", "validate = \"::rt::zz_mk\""][x.below(3)])
        }
        (0, 5) => {
            sp.validate = None;
            sp.err = ErrK::Gen;
            bad(None, "build_fn", ["error = \"zz_mk\"", "error = \"zz_mk::Error\"", "error = \"::rt::zz_mk::Error<u8>\""][x.below(3)])
        }
        (0, _) => {
            let w = format!("default = {}", quoted(&mut x, &wrong));
            bad(None, "", &w)
        }
        (1, 0..=2) => {
            let i = some(&open, &mut x)?;
            sp.fields[i].def = None;
            let w = format!("default = {}", quoted(&mut x, &mistyped));
            bad(Some(i), "", &w)
        }
        (1, 3) => {
            let i = some(&stored, &mut x)?;
            sp.fields[i].def = None;
            let w = format!("build = {}", quoted(&mut x, &mistyped));
            bad(Some(i), "field", &w)
        }
        (1, 4 | 5) => {
            sp.validate = None;
            let v = x.below(3);
            extra = ["fn zz_mk<B: ?::core::marker::Sized>(_: &B) -> ::core::result::Result<(), Unrelated> { ::core::panic!() } pub struct Unrelated;\n", "fn zz_mk(_: u8) -> ::core::result::Result<(), ::rt::VErr> { ::core::panic!() }\n", "#[allow(non_upper_case_globals)] const zz_mk: u8 = 3;\n"][v].to_string();
            bad(None, "build_fn", ["validate = \"zz_mk\"", "validate = \"self::zz_mk\""][x.below(2)])
        }
        (1, _) => {
            let w = format!("default = {}", quoted(&mut x, &mistyped));
            bad(None, "", &w)
        }
        _ => return None,
    }?;
    if list == "build_fn" && sp.err == ErrK::NoVal {
        sp.err = ErrK::Gen;
    }
    match field {
        Some(i) => sp.fields[i].inj.push((list, what.clone())),
        None => sp.inj.push((list, what.clone())),
    }
    let text = emit::struct_src(&sp);
    let r = inproc::marked_attrs(&text, "zz_mk");
    if r.len() != 1 {
        return None;
    }
    let [a, e] = r[0];
    let text = format!("{}{}{}", text, extra, emit::user_code(&sp));
    Some(Src { text, base: None, want: vec![(format!("the attribute that says {}", what), [(a.0, a.1 + 1), (e.0, e.1 + 1)])] })
}
fn c23_names(sp: Spec, t: &Tapes) -> Option<Src> {
    c23_code(sp, t, 0)
}
fn c23_types(sp: Spec, t: &Tapes) -> Option<Src> {
    c23_code(sp, t, 1)
}

// ---- C18: what cannot be without alloc ----

fn c18_make(mut sp: Spec, t: &Tapes) -> Option<Src> {
    crate::hosts::no_std(&mut sp, t);
    sp.def = None;
    sp.validate = None;
    sp.no_std = t.st[MASKS] % 2 == 0;
    Some(Src { text: emit::struct_src(&sp), base: None, want: vec![] })
}
fn told(_: &Src, d: &[&Diag]) -> Result<(), String> {
    let errs: Vec<&&Diag> = d.iter().filter(|d| d.level == "error").collect();
    if errs.iter().any(|d| d.msg.contains("alloc")) {
        return Ok(());
    }
    Err(format!("no error says that alloc is missing; errors: {}", errs.iter().map(|d| d.rendered.as_str()).collect::<Vec<_>>().join("\n")))
}

pub fn configs(id: &str) -> Vec<CCfg> {
    let b = Prof { odd_ty: 300, weird_names: 150, ..base() };
    let (b1, b2) = (b.clone(), b.clone());
    match id {
        "C22" => vec![CCfg {
            id: "C22",
            label: "warn",
            rule: "random documented structs with all options, compiled under the default lints and missing_docs beside the same module without the derive; non-trivial: a distinct module that is silent without the derive",
            prof: Prof { user_ctor: 0, vis: 300, no_std: 100, build_skip: 40, ..b },
            crates: 120,
            per_crate: 24,
            head: "#![warn(missing_docs)]",
            make: c22_make,
            judge: silent,
            flavor: "std",
        }, CCfg {
            id: "C22",
            label: "clippy",
            rule: "the same under clippy's default lints, with a newer compiler",
            prof: Prof { user_ctor: 0, vis: 300, no_std: 100, build_skip: 40, ..b2 },
            crates: 40,
            per_crate: 24,
            head: "#![warn(missing_docs, clippy::all)]",
            make: c22_clippy,
            judge: silent,
            flavor: "clippy",
        }],
        "C23" => vec![
            CCfg {
                id: "C23",
                label: "rustc",
                rule: "random valid structs with offending options, through the compiler; non-trivial: a distinct module",
                prof: Prof { fields: (0, 5), ..b.clone() },
                crates: 60,
                per_crate: 24,
                head: "#![allow(warnings)]",
                make: c23_make,
                judge: located,
                flavor: "std",
            },
            CCfg {
                id: "C23",
                label: "conversion",
                rule: "random structs with a required field and an error type without the conversion from UninitializedFieldError; non-trivial: a distinct module",
                prof: Prof { ..b },
                crates: 60,
                per_crate: 24,
                head: "#![allow(warnings)]",
                make: c23_conv,
                judge: located,
                flavor: "std",
            },
            CCfg {
                id: "C23",
                label: "names",
                rule: "random structs with a name in the code or path of one option that cannot be resolved; non-trivial: a distinct module",
                prof: Prof { ..b1 },
                crates: 40,
                per_crate: 24,
                head: "#![allow(warnings)]",
                make: c23_names,
                judge: located,
                flavor: "std",
            },
            CCfg {
                id: "C23",
                label: "types",
                rule: "random structs with code in one option that does not type-check; non-trivial: a distinct module",
                prof: Prof { ..b2 },
                crates: 40,
                per_crate: 24,
                head: "#![allow(warnings)]",
                make: c23_types,
                judge: located,
                flavor: "std",
            },
        ],
        "C18" => vec![CCfg {
            id: "C18",
            label: "noalloc",
            rule: "random structs whose generated error has a String, without std and alloc; non-trivial: a distinct module",
            prof: Prof { validate: 0, build_skip: 0, err: [3, 1, 0, 0, 0, 0], spat: [3, 2, 3, 3], ..b },
            crates: 20,
            per_crate: 12,
            head: "#![no_std]",
            make: c18_make,
            judge: told,
            flavor: "none",
        }],
        _ => vec![],
    }
}
