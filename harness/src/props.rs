//! One configuration per property.
use crate::drive::*;
use crate::model as m;
use crate::spec::*;
use serde_json::{json, Value};

const EDS: &[&str] = &["2021", "2018", "2024", "2015"];

/// Stores something in a field, through its setter if it has one.
fn put(sp: &Spec, f: usize, n: u32) -> [u32; 5] {
    [if m::has_setter(sp, f) { SET } else { DIRECT }, 0, f as u32, n, 0]
}
fn stored(sp: &Spec) -> Vec<usize> {
    (0..sp.fields.len()).filter(|&i| !m::hidden(sp, i)).collect()
}

/// All subsets of set fields (for up to six fields, else a spread of them), each built, completed, and built again.
fn subsets(sp: &Spec) -> Vec<Hist> {
    let fs = stored(sp);
    let k = fs.len();
    let mut out = vec![];
    let mut masks: Vec<u64> = (0..1u64 << k.min(6)).collect();
    if k > 6 {
        // every subset of six fields with a spread of the others, then nothing missing, and one field missing
        for s in &mut masks {
            *s |= s.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 8 & !63;
        }
        masks.push(!0);
        masks.extend((0..k as u32).map(|j| !(1 << j)));
    }
    for (s, mask) in masks.into_iter().enumerate() {
        let s = s as u32;
        let mut sub: Vec<usize> = (0..k).filter(|j| mask >> j & 1 == 1).map(|j| fs[j]).collect();
        if s % 2 == 1 {
            sub.reverse();
        }
        let mut ops = vec![[NEW, 0, 0, 0, 0]];
        for &f in &sub {
            ops.push(put(sp, f, 1 + s % 5 + f as u32));
        }
        ops.push([DUMP, 0, 0, 0, 0]);
        if !sp.build_skip {
            ops.push([BUILD, 0, 0, 0, 0]);
            if m::spat(sp) == Pat::Owned {
                ops.push([NEW, 0, 1, 0, 0]);
                for &f in &sub {
                    ops.push(put(sp, f, 1 + s % 5 + f as u32));
                }
            }
            for &f in &fs {
                if m::required(sp, f) && !sub.contains(&f) {
                    ops.push(put(sp, f, 10 + f as u32));
                }
            }
            ops.push([DUMP, 0, 0, 0, 0]);
            ops.push([BUILD, 0, 0, 0, 0]);
        }
        out.push(Hist { ops });
    }
    out
}

/// Every order of setting all fields (up to four fields, else a spread), overwriting afterwards.
fn orders(sp: &Spec) -> Vec<Hist> {
    let fs = stored(sp);
    let k = fs.len();
    let mut perms: Vec<Vec<usize>> = vec![];
    if k <= 4 {
        perms.push(vec![]);
        for &f in &fs {
            let mut next = vec![];
            for p in &perms {
                for at in 0..=p.len() {
                    let mut q = p.clone();
                    q.insert(at, f);
                    next.push(q);
                }
            }
            perms = next;
        }
    } else {
        for r in 0..k {
            let mut p = fs.clone();
            p.rotate_left(r);
            perms.push(p.clone());
            p.reverse();
            perms.push(p.clone());
            p.swap(0, k / 2);
            perms.push(p);
        }
    }
    let mut out = vec![];
    for (pi, p) in perms.iter().enumerate() {
        let mut ops = vec![[NEW, 0, 0, 0, 0]];
        for (j, &f) in p.iter().enumerate() {
            ops.push(put(sp, f, 1 + j as u32));
            ops.push([DUMP, 0, 0, 0, 0]);
        }
        let owned = m::spat(sp) == Pat::Owned;
        if !owned {
            ops.push([BUILD, 0, 0, 0, 0]);
        }
        for j in 0..=pi % (k + 1) {
            if k > 0 {
                ops.push(put(sp, p[(j + pi) % k], 13 + j as u32));
            }
        }
        ops.push([DUMP, 0, 0, 0, 0]);
        ops.push([BUILD, 0, 0, 0, 0]);
        if !owned {
            ops.push([BUILD, 0, 0, 0, 0]);
        }
        out.push(Hist { ops });
    }
    out
}

fn has<F: Fn(usize) -> bool>(sp: &Spec, f: F) -> bool {
    (0..sp.fields.len()).any(f)
}

pub fn run_cfgs(id: &str) -> Vec<RunCfg> {
    let b = base();
    // few options of any kind
    let bare = Prof {
        into_s: 40, into_f: 60, strip_s: 40, strip_f: 60, try_s: 30, try_f: 30, skip_s: 20, skip_f: 30, word_f: 50, custom: 20, each: 40,
        prefix_s: 40, prefix_f: 40, name_f: 40, def_f: 60, def_s: 30, validate: 40, err: [12, 1, 1, 1, 1, 1], cty: 20, cbuild: 20, ctor: 20,
        empty: 20, bname: 20, build_name: 20, vis: 30, derive: 60, no_std: 20, generics: 100, weird_names: 100, user_ctor: 20, rich: 100, ..base()
    };
    let mixed = Prof { fields: (1, 6), vis: 40, rich: 0, generics: 200, hist: 24, spat: [3, 2, 3, 3], ..b.clone() };
    let mut cfgs = vec![match id {
        "C01" => RunCfg {
            id: "C01",
            prof: Prof { fields: (1, 9), weird_names: 500, odd_ty: 500, opt_ty: 200, coll_ty: 200, generics: 150, ops: 18, ..bare },
            opw: [1, 22, 1, 1, 2, 3, 4, 0, 0], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs (1-9 fields, all types and odd names); random histories and all/many orders of setting every field, with overwrites; non-trivial: a distinct (struct, history) that builds successfully after at least two setter calls",
            nontrivial: |_, s| s.ok > 0 && s.sets >= 2,
            tweak: no_tweak, extra: orders,
        },
        "C02" => RunCfg {
            id: "C02",
            prof: Prof { fields: (1, 8), def_f: 200, def_s: 60, skip_f: 80, custom: 60, validate: 60, err: [6, 1, 2, 2, 1, 0], hist: 40, spat: [3, 2, 3, 3], weird_names: 300, generics: 150, ..bare },
            opw: [3, 14, 1, 1, 2, 2, 7, 1, 0], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with required and optional fields; every subset of set fields (up to 6 fields), built, completed and built again, and random histories; non-trivial: a distinct (struct, history) in which a build reports a missing field",
            nontrivial: |_, s| s.missing > 0,
            tweak: no_tweak, extra: subsets,
        },
        "C03" => RunCfg {
            id: "C03",
            prof: Prof { fields: (1, 6), def_f: 600, def_s: 400, skip_f: 150, err: [6, 1, 2, 2, 1, 1], hist: 50, spat: [3, 2, 3, 3], validate: 60, cbuild: 60, odd_ty: 300, ..bare },
            opw: [2, 12, 1, 1, 2, 1, 7, 1, 4], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with field and struct defaults of all forms (some failing on demand); every subset of set fields and random histories; non-trivial: a distinct (struct, history) in which default code is evaluated and a build succeeds",
            nontrivial: |_, s| s.defaults > 0 && s.ok > 0,
            tweak: no_tweak, extra: subsets,
        },
        "C04" => RunCfg {
            id: "C04",
            prof: Prof { cty: 100, fields: (1, 6), skip_s: 450, skip_f: 300, custom: 250, word_f: 200, into_f: 120, strip_f: 120, prefix_f: 120, name_f: 120, each: 120, try_s: 150, try_f: 150, def_f: 350, def_s: 250, hist: 40, spat: [3, 2, 3, 3], generics: 200, ..bare },
            opw: [2, 12, 2, 2, 2, 2, 6, 4, 1], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs mixing struct-level and field-level skip, custom and other setter properties; every subset of set fields and random histories, and a probe for each setter name that must not exist; non-trivial: a distinct (struct, history) of a struct with a hidden or custom-setter field that builds or probes",
            nontrivial: |sp, s| has(sp, |i| m::hidden(sp, i) || !m::has_setter(sp, i)) && (s.ok + s.probes > 0),
            tweak: no_tweak, extra: subsets,
        },
        "C05" => RunCfg {
            id: "C05",
            prof: Prof { fields: (1, 6), spat: [2, 2, 3, 3], fpat: [3, 2, 2, 2], odd_ty: 600, try_s: 200, try_f: 100, each: 200, def_f: 150, cty: 100, cbuild: 60, custom: 60, ops: 20, hist: 70, generics: 200, into_f: 150, ..bare },
            opw: [2, 14, 4, 4, 4, 3, 6, 1, 1], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random assignments of patterns to struct and fields with Copy, Clone and non-Clone types; random histories that keep older builders and build repeatedly; non-trivial: a distinct (struct, history) with a setter call and a build, under a pattern other than the default or repeated builds",
            nontrivial: |sp, s| s.sets + s.eachs + s.tries > 0 && s.ok + s.err > 0 && (has(sp, |i| m::pat(sp, i) != Pat::Mutable) || s.rebuild > 0),
            tweak: no_tweak, extra: no_extra,
        },
        "C06" => RunCfg {
            id: "C06",
            prof: Prof { fields: (1, 6), into_s: 400, into_f: 500, strip_s: 450, strip_f: 500, opt_ty: 650, odd_ty: 400, coll_ty: 200, cty: 200, cbuild: 40, def_f: 200, try_s: 60, each: 60, hist: 40, word_f: 100, generics: 200, ..bare },
            opw: [2, 18, 2, 1, 2, 3, 5, 1, 0], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with into/strip_option on or off at both levels over all types, options in all spellings and nestings; the setter argument's type is left to inference without into, and converted sources are passed with it; non-trivial: a distinct (struct, history) calling a setter of a struct with an into or stripped field",
            nontrivial: |sp, s| s.sets > 0 && has(sp, |i| m::has_setter(sp, i) && (m::into(sp, i) || m::strip(sp, i))),
            tweak: no_tweak, extra: subsets,
        },
        "C07" => RunCfg {
            id: "C07",
            prof: Prof { fields: (1, 6), try_s: 500, try_f: 450, into_s: 200, into_f: 200, strip_s: 250, strip_f: 250, opt_ty: 400, odd_ty: 400, each: 120, skip_f: 100, custom: 100, prefix_s: 200, prefix_f: 150, name_f: 150, spat: [3, 2, 3, 3], fpat: [8, 1, 1, 1], cty: 100, hist: 60, vis: 100, generics: 200, weird_names: 300, ..bare },
            opw: [2, 6, 16, 3, 2, 3, 4, 1, 0], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with fallible setters under all patterns; histories of plain and fallible calls, a third of them failing; probes for try_ names that must not exist; non-trivial: a distinct (struct, history) with a fallible call",
            nontrivial: |_, s| s.tries > 0,
            tweak: no_tweak, extra: no_extra,
        },
        "C08" => RunCfg {
            id: "C08",
            prof: Prof { fields: (1, 5), each: 800, into_s: 200, into_f: 150, strip_s: 350, strip_f: 350, coll_ty: 500, spat: [3, 2, 3, 3], fpat: [8, 1, 1, 1], cty: 200, def_f: 350, def_s: 100, try_s: 100, prefix_s: 100, prefix_f: 100, hist: 60, odd_ty: 200, generics: 250, ..bare },
            opw: [3, 5, 1, 16, 2, 3, 5, 4, 0], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with item setters over all collection types; histories interleaving item setters, whole-collection setters, direct stores (None included), clones and builds; non-trivial: a distinct (struct, history) with an item setter call and a build or dump",
            nontrivial: |_, s| s.eachs > 0,
            tweak: no_tweak, extra: no_extra,
        },
        "C09" => RunCfg {
            id: "C09",
            prof: Prof { fields: (1, 6), validate: 1000, err: [6, 2, 0, 3, 2, 1], def_f: 400, def_s: 250, spat: [3, 2, 3, 3], cty: 60, cbuild: 60, skip_f: 80, hist: 50, build_name: 100, generics: 300, ..bare },
            opw: [2, 10, 1, 1, 2, 1, 9, 1, 5], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with validators of all forms that veto on demand with arbitrary messages; all subsets of set fields and random histories; non-trivial: a distinct (struct, history) with a build under a validator, vetoed or followed by a missing field, a default or success",
            nontrivial: |sp, s| sp.validate.is_some() && s.ok + s.err > 0,
            tweak: no_tweak, extra: subsets,
        },
        "C10" => RunCfg {
            id: "C10",
            prof: Prof { fields: (1, 4), err: [3, 2, 4, 3, 3, 3], validate: 400, def_f: 300, weird_names: 500, bname: 250, no_std: 300, hist: 30, build_name: 100, generics: 200, vis: 200, build_skip: 60, ..bare },
            opw: [2, 8, 1, 1, 1, 1, 8, 1, 4], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs under all error configurations; probes of the error's traits, conversions and text for arbitrary messages, and random histories with failing builds; non-trivial: a distinct (struct, history) with a failing build or a probe of the error",
            nontrivial: |_, s| s.err + s.probes > 0,
            tweak: no_tweak, extra: no_extra,
        },
        "C11" => RunCfg {
            id: "C11",
            prof: Prof { fields: (1, 7), prefix_s: 400, prefix_f: 300, name_f: 300, each: 300, try_s: 300, try_f: 200, weird_names: 700, bname: 300, build_name: 300, empty: 300, custom: 150, skip_f: 150, word_f: 150, build_skip: 50, hist: 16, spat: [3, 2, 3, 3], coll_ty: 300, ..bare },
            opw: [2, 8, 4, 4, 2, 2, 4, 1, 0], crates: 60, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with naming options and odd names, compiled: every expected method is called, a trait method of each name that must not exist is reached; non-trivial: a distinct (struct, history) of a struct with a naming option",
            nontrivial: |sp, s| s.probes + s.sets + s.tries + s.eachs > 0 && (sp.prefix.is_some() || sp.bname.is_some() || sp.build_name.is_some() || has(sp, |i| { let s = &sp.fields[i].set; s.prefix.is_some() || s.name.is_some() || s.each.is_some() })),
            tweak: no_tweak, extra: no_extra,
        },
        "C13" => RunCfg {
            id: "C13",
            prof: Prof { fields: (1, 6), generics: 1000, rich: 700, spat: [2, 2, 4, 3], fpat: [8, 1, 2, 1], hist: 20, odd_ty: 400, derive: 350, ctor: 150, cty: 100, cbuild: 60, def_f: 200, def_s: 80, into_f: 150, strip_f: 150, opt_ty: 300, each: 100, try_f: 100, skip_f: 120, validate: 100, err: [6, 1, 2, 2, 2, 1], ..bare },
            opw: [2, 10, 2, 2, 2, 2, 6, 1, 1], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random generic structs (lifetimes, types, consts, bounds, where clauses, defaults), instantiated with Clone, non-Clone and non-Default types; random histories, trait probes, and generic functions with only the struct's bounds (and Clone where documented) naming, constructing, setting, cloning and building; non-trivial: a distinct (struct, history) of a generic struct that sets or builds",
            nontrivial: |sp, s| (!sp.gens.tys.is_empty() || sp.gens.lt || sp.gens.n) && s.ok + s.err + s.sets > 0,
            tweak: no_tweak, extra: no_extra,
        },
        "C14" => RunCfg {
            id: "C14",
            prof: Prof { fields: (1, 6), cty: 550, cbuild: 450, opt_ty: 300, into_s: 150, into_f: 250, strip_s: 200, strip_f: 250, each: 200, try_s: 150, custom: 100, err: [5, 1, 1, 2, 1, 1], validate: 100, spat: [3, 2, 3, 3], fpat: [8, 1, 1, 1], def_f: 200, ctor: 80, odd_ty: 400, hist: 50, generics: 150, ..bare },
            opw: [3, 12, 2, 3, 2, 3, 6, 2, 3], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with custom builder field types and conversions of all forms; random histories; non-trivial: a distinct (struct, history) building a struct that has a custom field type or conversion",
            nontrivial: |sp, s| s.ok + s.err > 0 && sp.fields.iter().any(|f| f.cty.is_some() || f.cbuild.is_some()),
            tweak: no_tweak, extra: subsets,
        },
        "C20" => RunCfg {
            id: "C20", prof: b, opw: OPW, crates: 200, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with random combinations of all documented options, random histories; non-trivial: a distinct (struct, history) that builds at least once",
            nontrivial: |_, s| s.ok + s.err > 0,
            tweak: no_tweak, extra: no_extra,
        },
        "C21" => RunCfg {
            id: "C21",
            prof: Prof { fields: (1, 5), ctor: 500, empty: 400, bname: 200, build_name: 300, build_skip: 200, user_ctor: 600, cty: 300, cbuild: 100, skip_f: 100, custom: 100, def_f: 250, def_s: 100, spat: [3, 2, 3, 3], hist: 40, generics: 250, no_std: 60, odd_ty: 400, ..bare },
            opw: [6, 10, 1, 1, 1, 5, 5, 2, 0], crates: 130, per_crate: 12, editions: EDS, flavor: "std",
            rule: "random structs with constructor and build options, user constructors starting from the empty builder, user `build` and `Default`; random histories mixing all ways to construct; non-trivial: a distinct (struct, history) of a struct with such an option",
            nontrivial: |sp, _| sp.custom_ctor || sp.create_empty.is_some() || sp.build_name.is_some() || sp.build_skip || sp.preset.is_some(),
            tweak: no_tweak, extra: no_extra,
        },
        "C17" => {
            let prof = Prof { weird_names: 100, user_ctor: 60, ..mixed.clone() };
            let rule = "random structs with all options, in modules that define types, traits, aliases and modules named like what generated code refers to, with type parameters, own field types and structs of such names; support crate visible, re-exported or renamed (without an extern derive_builder); non-trivial: a distinct (struct, history) with at least five such definitions that sets or builds";
            let nontrivial = |sp: &Spec, s: &m::Stats| s.ok + s.err + s.sets > 0 && sp.host.as_ref().map_or(false, |h| h.defs.len() >= 5);
            return vec![
                RunCfg { id: "C17", prof: prof.clone(), opw: OPW, crates: 90, per_crate: 12, editions: EDS, flavor: "facade", rule, nontrivial, tweak: crate::hosts::hostile_visible, extra: no_extra },
                RunCfg { id: "C17", prof, opw: OPW, crates: 90, per_crate: 12, editions: EDS, flavor: "renamed", rule, nontrivial, tweak: crate::hosts::hostile_renamed, extra: no_extra },
                RunCfg { id: "C17", prof: mixed, opw: OPW, crates: 36, per_crate: 12, editions: EDS, flavor: "upstream", rule: "random structs with all options, written by a macro of another crate of another edition, with the support crate found by $crate, and any parts passed as fragments; non-trivial: a distinct (struct, history) that sets or builds", nontrivial: |_, s| s.ok + s.err + s.sets > 0, tweak: crate::hosts::by_upstream, extra: no_extra },
            ];
        }
        "C18" => {
            let rule = "random structs with all options in #![no_std] crates, against derive_builder with std, with alloc only, and with neither (then with a user-defined error or without the validation variant); non-trivial: a distinct (struct, history) that builds";
            let nontrivial = |_: &Spec, s: &m::Stats| s.ok + s.err > 0;
            let f = |flavor: &'static str, crates, tweak| RunCfg { id: "C18", prof: Prof { err: [4, 1, 3, 3, 2, 1], validate: 200, ..mixed.clone() }, opw: OPW, crates, per_crate: 12, editions: &EDS[..3], flavor, rule, nontrivial, tweak, extra: no_extra };
            return vec![f("nostd", 30, crate::hosts::no_std), f("alloc", 60, crate::hosts::no_std), f("none", 60, crate::hosts::no_alloc)];
        }
        "C19" => {
            let rule = "random structs with all options, written by a macro_rules macro that is given any of the types, names, visibilities, literals and expressions as fragments of the specific kinds or as tokens; random histories; non-trivial: a distinct (struct, history) that sets or builds";
            return vec![RunCfg { id: "C19", prof: Prof { opt_ty: 400, strip_s: 250, strip_f: 250, ..b }, opw: OPW, crates: 60, per_crate: 12, editions: EDS, flavor: "macro", rule, nontrivial: |_, s| s.ok + s.err + s.sets > 0, tweak: crate::hosts::by_macro, extra: no_extra }];
        }
        _ => return vec![],
    }];
    if matches!(id, "C01" | "C02" | "C03" | "C05" | "C13" | "C20") {
        // structs of many fields
        let c = &cfgs[0];
        let w = RunCfg { crates: 12, per_crate: 4, prof: Prof { fields: (12, 44), ops: 40, hist: c.prof.hist / 2, ..c.prof.clone() }, ..*c };
        cfgs.push(w);
    }
    if matches!(id, "C06" | "C20" | "C14") {
        let c = &cfgs[0];
        let m = RunCfg { crates: 24, flavor: "macro", tweak: crate::hosts::by_macro, prof: c.prof.clone(), ..*c };
        cfgs.push(m);
    }
    cfgs
}

/// `UninitializedFieldError` itself, in process: the name comes back unchanged.
fn field_error(env: &Env) -> (Evidence, Option<Value>) {
    use derive_builder::UninitializedFieldError as E;
    use proptest::prelude::*;
    let mut ev = Evidence::new("C10", "random strings through UninitializedFieldError; non-trivial: non-empty");
    let cases = if env.thorough { 200_000 } else { 20_000 };
    let mut r = runner_for(env.seed, "C10-uninit", cases);
    let seen = std::cell::RefCell::new(std::collections::BTreeSet::new());
    let res = r.run(&prop_oneof![".{0,20}", "[a-z_#]{0,8}", proptest::collection::vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>())], |s| {
        if !s.is_empty() {
            seen.borrow_mut().insert(s.clone());
        }
        let st: &'static str = Box::leak(s.clone().into_boxed_str());
        let (a, b) = (E::new(st), E::from(st));
        prop_assert_eq!(a.field_name(), st);
        prop_assert_eq!(b.field_name(), st);
        prop_assert_eq!(a.to_string(), format!("Field not initialized: {}", s));
        prop_assert_eq!(b.to_string(), format!("Field not initialized: {}", s));
        prop_assert_eq!(a.clone().field_name(), st);
        Ok(())
    });
    ev.evaluations = cases as u64;
    ev.nontrivial = seen.borrow().len() as u64;
    ev.samples = seen.borrow().iter().skip(3).take(2).map(|s| json!(s)).collect();
    let bad = match res {
        Ok(()) => None,
        Err(e) => {
            ev.violations = 1;
            Some(json!({"property": "C10", "engine": "field_error", "failure": e.to_string()}))
        }
    };
    (ev, bad)
}

/// derive_builder itself, with a sysroot in which std (and alloc) do not exist.
fn own_sysroot(env: &Env) -> (Evidence, Option<Value>) {
    let mut ev = Evidence::new("C18", "derive_builder compiled against a sysroot of core alone, and of core and alloc");
    let real = std::path::Path::new(&env.rustc).parent().and_then(|p| p.parent()).unwrap_or_else(|| infra("sysroot"));
    for f in ["none", "alloc"] {
        let lib: Value = match std::env::var(format!("DBV_LIB_{}", f)) {
            Ok(s) => serde_json::from_str(&s).unwrap_or_else(|e| infra(&e.to_string())),
            Err(_) => infra("DBV_LIB is not set"),
        };
        let dir = env.work.join(format!("sysroot_{}", f));
        let rl = real.join("lib/rustlib");
        let host = std::fs::read_dir(&rl)
            .unwrap_or_else(|e| infra(&e.to_string()))
            .filter_map(|e| Some(e.ok()?.file_name().to_str()?.to_string()))
            .find(|n| rl.join(n).join("lib").read_dir().map_or(false, |mut d| d.any(|e| e.map_or(false, |e| e.file_name().to_string_lossy().starts_with("libcore-")))))
            .unwrap_or_else(|| infra("no libcore in the sysroot"));
        let to = dir.join("lib/rustlib").join(&host).join("lib");
        std::fs::create_dir_all(&to).unwrap_or_else(|e| infra(&e.to_string()));
        for e in rl.join(&host).join("lib").read_dir().unwrap_or_else(|e| infra(&e.to_string())).flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if n.starts_with("libcore-") || n.contains("compiler_builtins") || n.contains("workspace_core") || (f == "alloc" && n.starts_with("liballoc-")) {
                std::os::unix::fs::symlink(e.path(), to.join(&n)).unwrap_or_else(|e| infra(&e.to_string()));
            }
        }
        let compile = |src: &str, features: bool, ext: bool| {
            let mut fl = Flavor { externs: vec![], deps: vec![], head: String::new(), up: false, rustc: None };
            if ext {
                fl.externs.push(("derive_builder_macro".into(), lib["macro"].as_str().unwrap().into()));
            }
            let mut args: Vec<String> = ["--crate-type", "lib", "--emit", "metadata", "-o", "o.rmeta", "--crate-name", "probe", "--cap-lints", "warn", "--sysroot"].iter().map(|s| s.to_string()).collect();
            args.push(dir.display().to_string());
            if features {
                for x in lib["features"].as_array().into_iter().flatten() {
                    args.push("--cfg".into());
                    args.push(format!("feature={}", x));
                }
            }
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            rustc(env, &fl, &dir, src, lib["edition"].as_str().unwrap(), &a)
        };
        // the sysroot is what it should be
        let probe = |text: &str| {
            std::fs::write(dir.join("p.rs"), text).unwrap_or_else(|e| infra(&e.to_string()));
            compile("p.rs", false, false).ok
        };
        if !probe("#![no_std]\npub fn f() -> core::option::Option<u8> { None }\n") || probe("pub fn f() {}\n") || probe("#![no_std]\nextern crate alloc;\n") != (f == "alloc") {
            infra("the sysroot without std is not as expected");
        }
        ev.evaluations += 1;
        let o = compile(lib["src"].as_str().unwrap(), true, true);
        if !o.ok {
            ev.violations = 1;
            let m = o.diags.iter().filter(|d| d.level == "error").map(|d| d.rendered.as_str()).collect::<String>();
            return (ev, Some(json!({"property": "C18", "engine": "sysroot", "failure": format!("derive_builder ({}) does not compile where only core{} exists", f, if f == "alloc" { " and alloc" } else { "" }), "rustc": m})));
        }
        ev.nontrivial += 1;
    }
    ev.samples.push(json!("cfg(not(feature = \"std\")), core alone"));
    (ev, None)
}

pub fn run(env: &Env, id: &str) -> i32 {
    if id == "replay" {
        let p = std::env::args().nth(2).unwrap_or_default();
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&p).expect("replay file")).expect("json");
        let ok = match v["engine"].as_str() {
            Some("expand") => {
                let id = v["property"].as_str().unwrap();
                let cfgs = crate::inproc::configs(id);
                let cfg = cfgs.iter().find(|c| Some(c.label) == v["label"].as_str()).expect("check");
                crate::expand::replay(cfg, &v)
            }
            Some("compile") => {
                let cfgs = crate::compile::configs(v["property"].as_str().unwrap());
                crate::compile::replay(env, cfgs.iter().find(|c| Some(c.label) == v["label"].as_str()).expect("check"), &v)
            }
            Some("sysroot") => match own_sysroot(env).1 {
                Some(v) => {
                    println!("{}", v["failure"]);
                    false
                }
                None => true,
            },
            Some("build") => true,
            Some("known") => crate::known::replay(env, &v),
            _ => replay(env, &v),
        };
        return if ok { 0 } else { 1 };
    }
    type Part<'a> = (&'static str, Box<dyn Fn() -> (Evidence, Option<Value>) + 'a>);
    let mut parts: Vec<Part> = vec![];
    if id == "C10" {
        parts.push(("unit", Box::new(|| field_error(env))));
    }
    if id == "C18" {
        parts.push(("sysroot", Box::new(|| own_sysroot(env))));
    }
    if crate::known::any(id) {
        parts.push(("known", Box::new(move || crate::known::run(env, id))));
    }
    for cfg in crate::inproc::configs(id) {
        parts.push((cfg.label, Box::new(move || crate::expand::search(env, &cfg))));
    }
    for cfg in crate::compile::configs(id) {
        if cfg.flavor == "clippy" && !env.flavors.contains_key("clippy") {
            continue;
        }
        parts.push((cfg.label, Box::new(move || crate::compile::run(env, &cfg))));
    }
    for cfg in run_cfgs(id) {
        let label = if cfg.prof.fields.0 > 9 { "wide" } else if cfg.flavor == "std" { "run" } else { cfg.flavor };
        parts.push((label, Box::new(move || run_engine(env, &cfg))));
    }
    if parts.is_empty() {
        infra("no such property");
    }
    let mut total: Option<Evidence> = None;
    let mut found = None;
    for (label, p) in &parts {
        let (ev, bad) = p();
        match &mut total {
            None => total = Some(ev),
            Some(t) => t.merge(ev, label),
        }
        if bad.is_some() {
            found = bad;
            break;
        }
    }
    let ev = total.unwrap();
    ev.write(env);
    if let Some(v) = found {
        violation(env, id, v);
        return 1;
    }
    println!("{}: {} cases, {} non-trivial, {:.1} s", id, ev.evaluations, ev.nontrivial, env.start.elapsed().as_secs_f64());
    0
}
