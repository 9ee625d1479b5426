//! Fixed programs: inputs of recorded findings. They must compile; while they do not, the finding is reported.
use crate::drive::*;
use serde_json::{json, Value};

struct Known {
    id: &'static str,
    key: &'static str,
    src: &'static str,
}
const KNOWN: &[Known] = &[
    Known {
        id: "C17",
        key: "user-module-std",
        src: "pub mod std {}\n#[derive(::derive_builder::Builder)] pub struct S { pub a: u32 }\n",
    },
    Known {
        id: "C17",
        key: "user-value-None",
        src: "#[derive(Clone)] pub struct None;\n#[derive(::derive_builder::Builder)] pub struct S { pub a: u32 }\n",
    },
    Known {
        id: "C17",
        key: "user-value-Ok",
        src: "#[derive(Clone)] pub struct Ok;\n#[derive(::derive_builder::Builder)] #[builder(try_setter)] pub struct S { pub a: u32 }\n",
    },
    Known {
        id: "C17",
        key: "user-type-VALUE",
        src: "#[derive(Clone)] pub struct VALUE;\n#[derive(::derive_builder::Builder)] #[builder(setter(into))] pub struct S { pub a: VALUE }\n",
    },
    Known {
        id: "C17",
        key: "user-blanket-trait-with-fn-from",
        src: "pub trait Make { fn from(_: u8) -> u8 { 0 } }\nimpl<T> Make for T {}\n#[derive(::derive_builder::Builder)] pub struct S { pub a: u32 }\n",
    },
    Known {
        id: "C22",
        key: "deprecated-struct",
        src: "/// s\n#[derive(::derive_builder::Builder)] #[deprecated] pub struct S { /** f */ pub a: u32 }\n",
    },
    Known {
        id: "C22",
        key: "allowed-type-name",
        src: "/// s\n#[derive(::derive_builder::Builder)] #[allow(non_camel_case_types)] pub struct my_s { /** f */ pub a: u32 }\n",
    },
];

/// The program as a library; for C22 warnings are errors.
fn compile(env: &Env, tag: &str, id: &str, src: &str) -> Out {
    let dir = env.work.join(tag);
    let _ = std::fs::create_dir_all(&dir);
    let (head, lint) = if id == "C22" { ("//! d\n#![deny(warnings, missing_docs)]\n", "-Dwarnings") } else { ("#![allow(warnings)]\n", "-Awarnings") };
    std::fs::write(dir.join("lib.rs"), format!("{}{}", head, src)).unwrap_or_else(|e| infra(&e.to_string()));
    rustc(env, env.flavor("std"), &dir, "lib.rs", "2021", &["--crate-type", "lib", "--emit", "metadata", lint])
}

pub fn any(id: &str) -> bool {
    KNOWN.iter().any(|k| k.id == id)
}
/// Reports the listed findings that still fail; a replay record for an unlisted one.
pub fn run(env: &Env, id: &str) -> (Evidence, Option<Value>) {
    let mut ev = Evidence::new(id, "fixed programs of recorded findings");
    let listed = std::fs::read_to_string(env.verif.join("known_findings.txt")).unwrap_or_else(|e| infra(&format!("known_findings.txt: {}", e)));
    let of: Vec<&Known> = KNOWN.iter().filter(|k| k.id == id).collect();
    let res = parallel(env.jobs, &of, |i, k| {
        let o = compile(env, &format!("known{}", i), id, k.src);
        if o.ok { None } else { Some(o.diags.iter().find(|d| d.level == "error").map(|d| d.rendered.clone()).unwrap_or_default()) }
    });
    ev.evaluations = of.len() as u64;
    for (k, r) in of.iter().zip(res) {
        if let Some(msg) = r {
            let tag = format!("finding: property={} key={} ", id, k.key);
            match listed.lines().find(|l| l.starts_with(&tag)) {
                Some(l) => println!("KNOWN-FINDING: property={} {}: {}", id, k.key, &l[tag.len()..]),
                None => {
                    ev.violations = 1;
                    return (ev, Some(json!({"property": id, "engine": "known", "key": k.key, "source": k.src, "rustc": msg})));
                }
            }
        }
    }
    (ev, None)
}
/// Replays a recorded program: true if it compiles now.
pub fn replay(env: &Env, v: &Value) -> bool {
    let o = compile(env, "known", v["property"].as_str().unwrap_or(""), v["source"].as_str().unwrap_or(""));
    for d in &o.diags {
        print!("{}", d.rendered);
    }
    o.ok
}
