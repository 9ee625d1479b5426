//! In-process engine: `builder_for_struct` on generated inputs, judged on the parsed output.
use crate::drive::{infra, runner_for, Env, Evidence, Tapes};
use proptest::prelude::*;
use proptest::test_runner::TestError;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub struct Exp {
    pub text: String,
    pub file: syn::File,
    /// messages of `compile_error!` items
    pub errors: Vec<String>,
    /// where they are reported: (line, column) of start and end in the input
    pub places: Vec<[(usize, usize); 2]>,
}

/// Expands an item; Err for a panic or output that is not a list of items.
pub fn expand(src: &str) -> Result<Exp, String> {
    // locations of earlier inputs are not needed any more
    proc_macro2::extra::invalidate_current_thread_spans();
    let ast = match syn::parse_str::<syn::DeriveInput>(src) {
        Ok(x) => x,
        Err(e) => infra(&format!("generated input is not an item: {}\n{}", e, src)),
    };
    expand_ast(ast)
}
pub fn expand_ast(ast: syn::DeriveInput) -> Result<Exp, String> {
    let ts = match catch_unwind(AssertUnwindSafe(|| derive_builder_core::builder_for_struct(ast))) {
        Ok(t) => t,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return Err(format!("the macro panicked: {}", m));
        }
    };
    let text = ts.to_string();
    let file: syn::File = syn::parse2(ts).map_err(|e| format!("the output is not a list of items: {}\n{}", e, text))?;
    let mut errors = vec![];
    let mut places = vec![];
    for it in &file.items {
        if let syn::Item::Macro(m) = it {
            if m.mac.path.segments.last().map_or(false, |s| s.ident == "compile_error") {
                errors.push(m.mac.tokens.to_string());
                use quote::ToTokens;
                let mut sp = m.mac.path.to_token_stream().into_iter().map(|t| t.span());
                let first = sp.next().expect("path").start();
                let last = m.mac.delimiter.span().close().end();
                places.push([(first.line, first.column), (last.line, last.column)]);
            }
        }
    }
    Ok(Exp { text, file, errors, places })
}

pub fn unraw_s(i: &syn::Ident) -> String {
    use syn::ext::IdentExt;
    i.unraw().to_string()
}
pub fn ty_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) if p.qself.is_none() => p.path.segments.last().map(|s| unraw_s(&s.ident)),
        _ => None,
    }
}
impl Exp {
    pub fn accepted(&self) -> Result<(), String> {
        if self.errors.is_empty() {
            Ok(())
        } else {
            Err(format!("rejected: {}", self.errors.join("; ")))
        }
    }
    pub fn structs(&self) -> Vec<&syn::ItemStruct> {
        self.file.items.iter().filter_map(|i| if let syn::Item::Struct(s) = i { Some(s) } else { None }).collect()
    }
    pub fn the_struct(&self, name: &str) -> Result<&syn::ItemStruct, String> {
        let v: Vec<_> = self.structs().into_iter().filter(|s| unraw_s(&s.ident) == name).collect();
        if v.len() == 1 {
            Ok(v[0])
        } else {
            Err(format!("{} structs named {}", v.len(), name))
        }
    }
    pub fn enums(&self) -> Vec<&syn::ItemEnum> {
        self.file.items.iter().filter_map(|i| if let syn::Item::Enum(s) = i { Some(s) } else { None }).collect()
    }
    pub fn impls(&self, name: &str) -> Vec<&syn::ItemImpl> {
        self.file
            .items
            .iter()
            .filter_map(|i| if let syn::Item::Impl(s) = i { Some(s) } else { None })
            .filter(|i| i.trait_.is_none() && ty_name(&i.self_ty).as_deref() == Some(name))
            .collect()
    }
    pub fn methods(&self, name: &str) -> Vec<&syn::ImplItemFn> {
        self.impls(name)
            .into_iter()
            .flat_map(|i| i.items.iter())
            .filter_map(|i| if let syn::ImplItem::Fn(f) = i { Some(f) } else { None })
            .collect()
    }
    pub fn method(&self, builder: &str, name: &str) -> Result<&syn::ImplItemFn, String> {
        let v: Vec<_> = self.methods(builder).into_iter().filter(|m| unraw_s(&m.sig.ident) == name).collect();
        if v.len() == 1 {
            Ok(v[0])
        } else {
            Err(format!("{} methods named {}", v.len(), name))
        }
    }
}

/// The generated input of every in-process check.
#[derive(Clone, Debug)]
pub struct Input {
    pub t: Tapes,
    pub ex: Vec<u16>,
}
pub struct Obs {
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
}
impl Obs {
    pub fn new(src: &str, nontrivial: bool) -> Obs {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        src.hash(&mut h);
        Obs { nontrivial, key: h.finish(), sample: src.to_string() }
    }
}
pub struct ExpCfg {
    pub id: &'static str,
    pub label: &'static str,
    pub rule: &'static str,
    pub fields: (usize, usize),
    pub ex: usize,
    pub cases: u32,
    pub check: fn(&Input) -> Result<Obs, String>,
}

fn strategy(cfg: &ExpCfg) -> impl Strategy<Value = Input> {
    let min = cfg.fields.0;
    (
        prop::collection::vec(any::<u16>(), crate::drive::ST),
        prop::collection::vec(prop::collection::vec(any::<u16>(), crate::drive::FT), cfg.fields.0..=cfg.fields.1),
        prop::collection::vec(any::<u16>(), cfg.ex),
    )
        .prop_map(move |(st, ft, ex)| Input { t: Tapes { ft: crate::drive::some_empty(min, &st, ft), st, hist: vec![] }, ex })
}

fn to_json(i: &Input) -> Value {
    json!({"st": i.t.st, "ft": i.t.ft, "ex": i.ex})
}
pub fn from_json(v: &Value) -> Input {
    let u = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect::<Vec<u16>>();
    Input { t: Tapes { st: u(&v["st"]), ft: v["ft"].as_array().unwrap().iter().map(u).collect(), hist: vec![] }, ex: u(&v["ex"]) }
}

/// Random search on all cores, shrinking by proptest; a replay record if something failed.
pub fn search(env: &Env, cfg: &ExpCfg) -> (Evidence, Option<Value>) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut ev = Evidence::new(cfg.id, cfg.rule);
    let total = cfg.cases * if env.thorough { 25 } else { 1 };
    let jobs = env.jobs.max(1);
    let idx: Vec<usize> = (0..jobs).collect();
    let current: Vec<Mutex<Option<(Instant, Value)>>> = (0..jobs).map(|_| Mutex::new(None)).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    type R = (u64, BTreeSet<u64>, Vec<String>, Option<(String, Input)>);
    let mut res: Vec<R> = vec![];
    std::thread::scope(|s| {
        // an expansion that does not end is a violation of its own
        s.spawn(|| {
            while !done.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for c in &current {
                    if let Some((t, v)) = &*c.lock().unwrap() {
                        if t.elapsed().as_secs() > 60 {
                            crate::drive::violation(env, cfg.id, json!({"property": cfg.id, "engine": "expand", "label": cfg.label, "kind": "an expansion did not end within 60 s", "input": v}));
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        res = crate::drive::parallel(jobs, &idx, |_, &k| {
            // deep recursion of syn on nested input is not what is tested
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut runner = runner_for(env.seed, &format!("{}-{}#{}", cfg.id, cfg.label, k), total / jobs as u32);
                        let mut n = 0u64;
                        let non = std::cell::RefCell::new(BTreeSet::new());
                        let samples = std::cell::RefCell::new(vec![]);
                        let nc = std::cell::RefCell::new(&mut n);
                        let r = runner.run(&strategy(cfg), |inp| {
                            **nc.borrow_mut() += 1;
                            *current[k].lock().unwrap() = Some((Instant::now(), to_json(&inp)));
                            let r = (cfg.check)(&inp);
                            *current[k].lock().unwrap() = None;
                            match r {
                                Ok(o) => {
                                    if o.nontrivial {
                                        non.borrow_mut().insert(o.key);
                                        if samples.borrow().len() < 2 {
                                            samples.borrow_mut().push(o.sample);
                                        }
                                    }
                                    Ok(())
                                }
                                Err(e) => Err(TestCaseError::fail(e)),
                            }
                        });
                        let bad = match r {
                            Ok(()) => None,
                            Err(TestError::Fail(why, inp)) => Some((why.message().to_string(), inp)),
                            Err(TestError::Abort(e)) => infra(&format!("proptest: {}", e)),
                        };
                        let (non, samples) = (non.into_inner(), samples.into_inner());
                        (n, non, samples, bad)
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            })
        });
        done.store(true, std::sync::atomic::Ordering::SeqCst);
    });
    let _ = std::panic::take_hook();
    let mut non = BTreeSet::new();
    let mut bad = None;
    for (k, (n, s, sm, b)) in res.into_iter().enumerate() {
        ev.evaluations += n;
        non.extend(s);
        if k == 0 {
            ev.samples.extend(sm.into_iter().map(|x| json!(x)));
        }
        if bad.is_none() {
            bad = b;
        }
    }
    ev.nontrivial = non.len() as u64;
    let v = bad.map(|(why, inp)| {
        ev.violations = 1;
        json!({"property": cfg.id, "engine": "expand", "label": cfg.label, "failure": why, "input": to_json(&inp)})
    });
    (ev, v)
}

pub fn replay(cfg: &ExpCfg, v: &Value) -> bool {
    match (cfg.check)(&from_json(&v["input"])) {
        Ok(_) => true,
        Err(e) => {
            println!("{}", e);
            false
        }
    }
}
