//! Modules around the struct for C17 (names that generated code might refer to) and C18 (no_std).
use crate::drive::{Tapes, MASKS};
use crate::spec::{Ty::*, *};

const TYPES: [&str; 40] = [
    "Option", "Result", "Clone", "Default", "From", "Into", "TryInto", "TryFrom", "String", "Vec", "ToString", "Box", "PhantomData", "Error", "Debug",
    "Display", "Formatter", "UninitializedFieldError", "Some", "None", "Ok", "Err", "Copy", "Iterator", "IntoIterator", "Fn", "AsRef", "Drop", "Send",
    "Sized", "Builder", "BuilderError", "Infallible", "Borrow", "Extend", "Write", "Cow", "Any", "Sync", "FnOnce",
];
const MODS: [&str; 24] = [
    "core", "alloc", "std", "derive_builder", "derive_builder_core", "derive_builder_macro", "rt", "export", "convert", "default", "clone", "option",
    "result", "marker", "string", "fmt", "iter", "error", "str", "u32", "prelude", "dbx", "dbl", "facade",
];

fn rename(t: &mut Ty, from: &str, to: &str) {
    match t {
        W(t) | Vec(t) | Deque(t) | Opt(_, t) | OptAlias(t) | Mine(t, _) | Arr(t, _) | Ph(t) | Ref(t) => rename(t, from, to),
        Param(n, _) if n == from => *n = to.to_string(),
        _ => {}
    }
}
/// Calls `f` on all types written in the struct.
fn types(sp: &mut Spec, f: &mut dyn FnMut(&mut Ty)) {
    for x in &mut sp.fields {
        f(&mut x.ty);
        if let Some(t) = &mut x.cty {
            f(t);
        }
    }
}
fn spell(t: &mut Ty, f: &dyn Fn(OptSp) -> OptSp) {
    match t {
        Opt(s, t) => {
            *s = f(*s);
            spell(t, f)
        }
        W(t) | Vec(t) | Deque(t) | OptAlias(t) | Mine(t, _) | Arr(t, _) | Ph(t) | Ref(t) => spell(t, f),
        _ => {}
    }
}

fn type_def(n: &str, kind: usize) -> String {
    // a tuple struct is also a value; those names are values of the prelude
    let value = ["Some", "None", "Ok", "Err"].contains(&n);
    match kind % 7 {
        0 if !value => format!("pub struct {}(());", n),
        1 => format!("pub trait {} {{}}", n),
        2 => format!(
            "pub trait {} {{ fn clone(&self) -> u8 {{ 0 }} fn into(self) -> u8 where Self: ::core::marker::Sized {{ 0 }} fn try_into(self) -> u8 where Self: ::core::marker::Sized {{ 0 }} fn default() -> u8 {{ 0 }} }} impl<T_: ?::core::marker::Sized> {0} for T_ {{}}",
            n
        ),
        3 => format!("pub mod {} {{ pub struct {0}; }}", n),
        4 => format!("pub type {} = u8;", n),
        5 => format!("pub use ::rt::Tr as {};", n).replace("use ::rt::Tr as", if value { "use ::rt::mine::Option as" } else { "use ::rt::Tr as" }),
        _ => format!("pub enum {} {{}}", n),
    }
}
fn mod_def(n: &str, kind: usize) -> String {
    match kind % 3 {
        0 => format!("pub mod {} {{}}", n),
        1 => format!(
            "pub mod {} {{ pub mod export {{ pub mod core {{ pub mod option {{ pub struct Option; }} pub mod clone {{ pub trait Clone {{}} }} }} }} pub mod option {{ pub enum Option {{}} }} pub mod clone {{ pub trait Clone {{}} }} pub mod error {{ pub struct Error; }} pub struct UninitializedFieldError; }}",
            n
        ),
        // a module may have the name of a primitive type, another type may not
        _ if ["str", "u32"].contains(&n) => format!("pub mod {} {{ pub fn x() {{}} }}", n),
        _ => format!("pub enum {} {{}}", n),
    }
}

fn hostile(sp: &mut Spec, t: &Tapes, renamed: bool) {
    let mask = (0..4).fold(0u64, |m, k| m << 16 | t.st[MASKS + k] as u64);
    let kinds = t.st[MASKS + 4] as usize;
    let pick = t.st[MASKS - 1] as usize;
    let mut h = Host { defs: vec![], std: "::std", derive: "::derive_builder::Builder".into(), user: "" };
    let roots: &[(&str, &str)] = if renamed {
        &[
            ("::dbx", "::dbx::Builder"), ("dbx", "dbx::Builder"), ("\"::dbx\"", "::dbx::Builder"), ("::rt::derive_builder", "::rt::derive_builder::Builder"),
            ("crate::facade::dbl", "::dbx::Builder"), ("\"crate::facade::deep\"", "crate::facade::deep::Builder"), ("crate::facade::r#use", "crate::facade::r#use::Builder"),
            ("super::facade::dbl", "super::facade::dbl::Builder"), ("\"dbx\"", "::dbx::Builder"),
        ]
    } else {
        &[
            ("", "::derive_builder::Builder"), ("", "::rt::derive_builder::Builder"), ("::derive_builder", "::derive_builder::Builder"),
            ("\"crate::facade::deep\"", "crate::facade::deep::Builder"), ("::rt::derive_builder", "::derive_builder::Builder"),
        ]
    };
    let root = roots[pick % roots.len()];
    sp.crate_root = if root.0.is_empty() { None } else { Some(root.0.to_string()) };
    h.derive = root.1.to_string();
    let mut taken: Vec2 = vec![];
    // fields of the module's own types
    types(sp, &mut |t| spell(t, &|s| if matches!(s, OptSp::AbsStd | OptSp::Std) { OptSp::AbsStd } else { OptSp::AbsCore }));
    let owns = ["String", "Result", "Box", "Option", "Vec", "Error", "Default", "core", "PhantomData"];
    let bits = t.st[MASKS + 5] as usize;
    for (i, f) in sp.fields.iter_mut().enumerate() {
        let ok = f.cty.is_none() && f.set.each.is_none() && matches!(f.ty, U32 | Str | Tr | Cp | Nd | Nc | Nn | Coll | Bool);
        let n = owns[(i + (bits >> 8)) % owns.len()];
        if ok && bits >> i & 1 == 1 && !taken.contains(&n) {
            taken.push(n);
            set_std("::std");
            h.defs.push(format!("pub type {} = {};", n, f.ty.text("'static", true)));
            set_std("");
            f.ty = Alias(n.to_string(), Box::new(f.ty.clone()));
            // literals are written for the type itself
            if let Some(Def { kind: k @ DKind::Lit(..), .. }) = &mut f.def {
                *k = DKind::Call;
            }
        }
    }
    // type parameters
    let params = [["T", "U"], ["Into", "Default"], ["Option", "Clone"], ["From", "TryInto"], ["core", "std"], ["Error", "PhantomData"]][(pick >> 8) % 6];
    let old: std::vec::Vec<String> = sp.gens.tys.iter().map(|q| q.name.clone()).collect();
    for (i, o) in old.iter().enumerate() {
        if !taken.contains(&params[i]) {
            // in two steps, so that names may be exchanged
            types(sp, &mut |t| rename(t, o, &format!("#{}", i)));
            types(sp, &mut |t| rename(t, &format!("#{}", i), params[i]));
            sp.gens.tys[i].name = params[i].to_string();
        }
    }
    if bits >> 12 & 3 == 3 {
        let n = ["TryInto", "PhantomData", "Iterator", "core", "Display", "UninitializedFieldError"][(pick >> 3) % 6];
        if !taken.contains(&n) && !sp.gens.tys.iter().any(|q| q.name == n) {
            taken.push(n);
            sp.name = n.to_string();
        }
    }
    let own = [sp.name.clone(), crate::model::builder_name(sp), crate::model::error_name(sp)];
    let own: std::vec::Vec<&str> = own.iter().map(|n| unraw(n)).collect();
    for (i, n) in TYPES.iter().enumerate() {
        if mask >> i & 1 == 0 || taken.contains(n) || own.contains(n) {
            continue;
        }
        h.defs.push(type_def(n, kinds / (i + 1) + i));
    }
    for (i, n) in MODS.iter().enumerate() {
        if mask >> (40 + i) & 1 == 0 || taken.contains(n) || own.contains(n) || (*n == "dbx" && (root.0 == "dbx" || root.0 == "\"dbx\"")) {
            continue;
        }
        // `impl std::error::Error`: a known finding
        if *n == "std" && crate::model::gen_err(sp) && !sp.no_std {
            continue;
        }
        h.defs.push(mod_def(n, kinds / (i + 2) + i));
    }
    sp.host = Some(h);
}
pub fn hostile_visible(sp: &mut Spec, t: &Tapes) {
    hostile(sp, t, false)
}
pub fn hostile_renamed(sp: &mut Spec, t: &Tapes) {
    hostile(sp, t, true)
}

/// A struct in a `#![no_std]` crate.
pub fn no_std(sp: &mut Spec, _: &Tapes) {
    sp.no_std = true;
    types(sp, &mut |t| spell(t, &|s| match s {
        OptSp::Std => OptSp::Core,
        OptSp::AbsStd => OptSp::AbsCore,
        s => s,
    }));
    sp.host = Some(Host { defs: vec![], std: "::rt::a", derive: "::derive_builder::Builder".into(), user: "#[allow(unused_imports)] use ::rt::a::*;" });
}
/// ... that has no alloc either
pub fn no_alloc(sp: &mut Spec, t: &Tapes) {
    no_std(sp, t);
    if matches!(sp.err, ErrK::Gen | ErrK::GenTrue) {
        sp.err = if sp.validate.is_some() || t.st[MASKS] % 3 == 0 { ErrK::Custom } else { ErrK::NoVal };
    }
}
/// A struct written by a macro.
pub fn by_macro(sp: &mut Spec, t: &Tapes) {
    let k = MASKS - 4;
    sp.mac = Some((0..4).fold(0, |m, i| m << 16 | t.st[k + i] as u64));
}
/// ... of another crate, which also has derive_builder.
pub fn by_upstream(sp: &mut Spec, t: &Tapes) {
    by_macro(sp, t);
    sp.up = true;
    let k = t.st[MASKS - 5] as usize;
    sp.crate_root = Some(["$crate::derive_builder", "$crate::deep", "$crate::deep::r#use"][k % 3].into());
}
