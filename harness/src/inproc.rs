//! The in-process checks: names (C11), visibilities (C12), forwarded attributes (C15),
//! acceptance and rejection (C16), spelling and inheritance laws (C19).
use crate::expand::*;
use crate::model as m;
use crate::spec::*;
use crate::{drive, emit};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};

pub fn prof() -> Prof {
    Prof {
        fields: (1, 6), hist: 0, into_s: 200, into_f: 250, strip_s: 200, strip_f: 250, try_s: 200, try_f: 250, skip_s: 200, skip_f: 150,
        word_f: 150, custom: 120, each: 250, prefix_s: 250, prefix_f: 250, name_f: 250, def_f: 300, def_s: 150, validate: 150,
        err: [6, 1, 2, 2, 1, 1], cty: 120, cbuild: 120, ctor: 150, empty: 200, bname: 250, build_name: 250, build_skip: 100, vis: 300,
        derive: 200, no_std: 150, generics: 300, weird_names: 400, opt_ty: 300, coll_ty: 200, odd_ty: 300, ..base()
    }
}
pub fn spec_of(i: &Input) -> Spec {
    decode(&prof(), &i.t.st, &i.t.ft)
}

const KEYWORDS: [&str; 46] = [
    "as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod",
    "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await",
    "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield",
];

/// A random identifier: plain, with underscores and digits, a raw keyword or raw plain name, or non-ASCII.
pub fn ident(t: &mut Tape, upper: bool) -> String {
    let kind = t.pick(&[5, 3, 3, 1, 3]);
    let head: Vec<char> = if upper { "ABCXYZÄΩ".chars().collect() } else { "abcxyzré".chars().collect() };
    let tail: Vec<char> = "abcdefgrtyAB019_".chars().collect();
    let uni: Vec<char> = "äßøλжשあ名字한ꙮé".chars().collect();
    let n = t.below(8);
    let mut s = String::new();
    match kind {
        0 => {
            s.push(head[t.below(6)]);
            for _ in 0..n {
                s.push(tail[t.below(tail.len())]);
            }
        }
        1 => {
            for _ in 0..1 + t.below(3) {
                s.push('_');
            }
            s.push(tail[t.below(9)]);
            for _ in 0..n {
                s.push(['_', 'a', 't', '_', 'r', 'y', '3'][t.below(7)]);
            }
        }
        2 => s = format!("r#{}", KEYWORDS[t.below(KEYWORDS.len())]),
        3 => {
            s = String::from("r#");
            s.push(head[t.below(6)]);
            for _ in 0..n {
                s.push(tail[t.below(tail.len())]);
            }
        }
        _ => {
            for _ in 0..=n {
                s.push(if t.next() % 2 == 0 { uni[t.below(uni.len())] } else { tail[t.below(9)] });
            }
        }
    }
    if syn::parse_str::<syn::Ident>(&s).is_err() {
        s = format!("r#{}", s);
    }
    if syn::parse_str::<syn::Ident>(&s).is_err() {
        s = "q".into();
    }
    s
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
fn differ(what: &str, want: &[String], got: &[String]) -> String {
    let miss: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
    let more: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
    format!("{}: expected {:?}, found {:?} (missing {:?}, unexpected {:?})", what, want, got, miss, more)
}

/// Gives every name of the spec a random identifier.
fn rename_all(sp: &mut Spec, t: &mut Tape) {
    sp.name = ident(t, true);
    let mut seen = BTreeSet::new();
    for f in &mut sp.fields {
        let mut n = ident(t, false);
        while !seen.insert(unraw(&n).to_string()) {
            n = format!("{}_{}", unraw(&n), seen.len());
        }
        f.name = n;
        if f.set.prefix.is_some() {
            f.set.prefix = Some(ident(t, false));
        }
        if f.set.name.is_some() {
            f.set.name = Some(ident(t, false));
        }
        if let Some(e) = &mut f.set.each {
            e.name = ident(t, false);
        }
    }
    if sp.prefix.is_some() {
        sp.prefix = Some(ident(t, false));
    }
    if sp.bname.is_some() {
        sp.bname = Some(ident(t, true));
    }
    if sp.build_name.is_some() {
        sp.build_name = Some(ident(t, false));
    }
    if sp.create_empty.is_some() {
        sp.create_empty = Some(ident(t, false));
    }
}

pub fn c11(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    if t.chance(850) {
        rename_all(&mut sp, &mut t);
    }
    let src = emit::struct_src(&sp);
    let e = expand(&src)?;
    let r = (|| {
        e.accepted()?;
        let b = m::builder_name(&sp);
        let b = unraw(&b);
        let st = e.the_struct(b)?;
        let names: Vec<String> = e.structs().iter().map(|s| unraw_s(&s.ident)).collect();
        if names.len() != 1 {
            return Err(format!("structs {:?}", names));
        }
        let en: Vec<String> = e.enums().iter().map(|s| unraw_s(&s.ident)).collect();
        let gen = matches!(sp.err, ErrK::Gen | ErrK::GenTrue | ErrK::NoVal);
        let want: Vec<String> = if gen { vec![unraw(&m::error_name(&sp)).to_string()] } else { vec![] };
        if en != want && !(sp.build_skip && en.is_empty()) {
            return Err(differ("error types", &want, &en));
        }
        let got: Vec<String> = st.fields.iter().map(|f| f.ident.as_ref().map(unraw_s).unwrap_or_default()).collect();
        let want: Vec<String> = sp.fields.iter().map(|f| unraw(&f.name).to_string()).collect();
        if sorted(got.clone()) != sorted(want.clone()) {
            return Err(differ("builder fields", &want, &got));
        }
        let mut want = vec![unraw(m::create_empty(&sp)).to_string()];
        if !sp.build_skip {
            want.push(unraw(m::build_name(&sp)).to_string());
        }
        for k in 0..sp.fields.len() {
            if m::has_setter(&sp, k) {
                want.push(unraw(&m::setter_name(&sp, k)).to_string());
                if m::has_try(&sp, k) {
                    want.push(m::try_name(&sp, k));
                }
                if let Some(x) = &sp.fields[k].set.each {
                    want.push(unraw(&x.name).to_string());
                }
            }
        }
        let got: Vec<String> = e.methods(b).iter().map(|x| unraw_s(&x.sig.ident)).collect();
        if sorted(got.clone()) != sorted(want.clone()) {
            return Err(differ("methods", &want, &got));
        }
        Ok(())
    })();
    r.map_err(|x: String| format!("{}\n{}\nexpansion: {}", x, src, e.text))?;
    let non = sp.bname.is_some() || sp.prefix.is_some() || sp.fields.iter().any(|f| f.set.prefix.is_some() || f.set.name.is_some() || f.name.starts_with("r#") || !f.name.is_ascii());
    Ok(Obs::new(&src, non))
}

// ---- visibilities ----

/// A canonical form: "" private, "pub", "pub(crate)", "pub(super)", "pub(in a::b)".
pub fn norm_vis(v: &syn::Visibility) -> String {
    match v {
        syn::Visibility::Public(_) => "pub".into(),
        syn::Visibility::Inherited => String::new(),
        syn::Visibility::Restricted(r) => {
            let p = r.path.to_token_stream().to_string().replace(' ', "");
            match p.as_str() {
                "self" => String::new(),
                "crate" | "super" => format!("pub({})", p),
                _ => format!("pub(in {})", p.trim_start_matches("self::")),
            }
        }
    }
}
fn norm_vis_str(s: &str) -> String {
    norm_vis(&syn::parse_str::<syn::Visibility>(s.trim()).unwrap_or_else(|e| drive::infra(&format!("visibility {:?}: {}", s, e))))
}
fn vis_of(v: &VisOpt) -> Option<String> {
    match v {
        VisOpt::None => None,
        VisOpt::Public => Some("pub".into()),
        VisOpt::Private => Some(String::new()),
        VisOpt::Vis(s) => Some(norm_vis_str(s)),
    }
}
pub fn vis_builder(sp: &Spec) -> String {
    vis_of(&sp.bvis).unwrap_or_else(|| norm_vis_str(&sp.vis))
}
pub fn vis_build(sp: &Spec) -> String {
    vis_of(&sp.build_vis).unwrap_or_else(|| vis_builder(sp))
}
pub fn vis_setter(sp: &Spec, i: usize) -> String {
    vis_of(&sp.fields[i].setter_vis).or_else(|| vis_of(&sp.bvis)).unwrap_or_else(|| "pub".into())
}
pub fn vis_field(sp: &Spec, i: usize) -> String {
    vis_of(&sp.fields[i].field_vis)
        .or_else(|| if m::hidden(sp, i) { Some(String::new()) } else { None })
        .or_else(|| vis_of(&sp.field_vis))
        .unwrap_or_default()
}

const VISES: [&str; 12] = [
    "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)", "pub(in super)", "pub(in self)", "pub(in crate::a)", "pub(in crate::a::b)",
    "pub(in super::super)", "", "pub(in crate::r#type)",
];
fn any_vis(t: &mut Tape) -> VisOpt {
    match t.pick(&[3, 2, 2, 4]) {
        0 => VisOpt::None,
        1 => VisOpt::Public,
        2 => VisOpt::Private,
        _ => VisOpt::Vis(VISES[t.below(VISES.len())].into()),
    }
}

pub fn c12(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    sp.vis = format!("{} ", VISES[(t.next() as usize * VISES.len()) >> 16]);
    if t.next() == 0 {
        sp.vis = String::new();
    }
    sp.bvis = any_vis(&mut t);
    sp.build_vis = any_vis(&mut t);
    sp.field_vis = any_vis(&mut t);
    for f in &mut sp.fields {
        f.setter_vis = any_vis(&mut t);
        f.field_vis = any_vis(&mut t);
        f.vis = format!("{} ", VISES[t.below(VISES.len())]);
    }
    let src = emit::struct_src(&sp);
    let e = expand(&src)?;
    let r = (|| {
        e.accepted()?;
        let b = m::builder_name(&sp);
        let b = unraw(&b);
        let eq = |what: String, want: String, got: &syn::Visibility| {
            let g = norm_vis(got);
            if g == want { Ok(()) } else { Err(format!("visibility of {}: expected {:?}, found {:?}", what, want, g)) }
        };
        let st = e.the_struct(b)?;
        eq("the builder".into(), vis_builder(&sp), &st.vis)?;
        for x in e.enums() {
            eq(format!("{}", x.ident), vis_builder(&sp), &x.vis)?;
        }
        if !sp.build_skip {
            eq("build".into(), vis_build(&sp), &e.method(b, unraw(m::build_name(&sp)))?.vis)?;
        }
        eq("the empty constructor".into(), String::new(), &e.method(b, unraw(m::create_empty(&sp)))?.vis)?;
        for k in 0..sp.fields.len() {
            let f = &sp.fields[k];
            let bf = st.fields.iter().find(|x| x.ident.as_ref().map_or(false, |i| unraw_s(i) == unraw(&f.name))).ok_or("no builder field")?;
            eq(format!("builder field {}", f.name), vis_field(&sp, k), &bf.vis)?;
            if m::has_setter(&sp, k) {
                let mut names = vec![unraw(&m::setter_name(&sp, k)).to_string()];
                if m::has_try(&sp, k) {
                    names.push(m::try_name(&sp, k));
                }
                if let Some(x) = &f.set.each {
                    names.push(unraw(&x.name).to_string());
                }
                for n in names {
                    eq(format!("method {}", n), vis_setter(&sp, k), &e.method(b, &n)?.vis)?;
                }
            }
        }
        Ok(())
    })();
    r.map_err(|x: String| format!("{}\n{}\nexpansion: {}", x, src, e.text))?;
    let non = sp.bvis != VisOpt::None || sp.field_vis != VisOpt::None || sp.fields.iter().any(|f| f.setter_vis != VisOpt::None || f.field_vis != VisOpt::None);
    Ok(Obs::new(&src, non))
}

// ---- forwarded attributes ----

/// One attribute of the input: as written, what it becomes, and where.
#[derive(Clone)]
struct At {
    src: String,
    /// normalised text of the forwarded attribute
    out: String,
    field: bool,
    setter: bool,
    strct: bool,
    imp: bool,
}
fn norm_attr(s: &str) -> String {
    // a doc comment is the same as a `doc` attribute
    let f: syn::ItemStruct = syn::parse_str(&format!("{}\nstruct X;", s)).unwrap_or_else(|e| drive::infra(&format!("attribute {:?}: {}", s, e)));
    f.attrs[0].to_token_stream().to_string()
}
fn any_at(t: &mut Tape, k: usize, on_struct: bool) -> At {
    let mk = format!("mk{}_", k);
    // contents of an attribute
    let inner = match t.below(9) {
        0 => mk.clone(),
        1 => format!("doc = \"{}\"", mk),
        2 => format!("{}(a, b = \"c\", d(e))", mk),
        3 => format!("allow({})", mk),
        4 => format!("cfg({})", mk),
        5 => format!("path::{}::x(\"y\", 3)", mk),
        6 => format!("{} = 1", mk),
        7 => format!("serde(rename = \"{}\")", mk),
        _ => format!("builder_field_attr({})", mk),
    };
    let kind = t.pick(&[4, 4, 3, 3, 3, 4, 4, 1, 1, 2]);
    let (mut src, mut f, mut s, mut st, mut im) = (String::new(), false, false, false, false);
    let mut out = None;
    match kind {
        0 => {
            src = match t.below(12) {
                0..=4 => format!("/// {}", mk),
                5..=6 => format!("#[doc = \"{}\"]", mk),
                7 => format!("#[doc(alias = \"{}\")]", mk),
                8 => format!("#[doc = concat!(\"{}\", \" x\")]", mk),
                9 => format!("/** {} */", mk),
                10 => format!("#[doc = include_str!(\"{}\")]", mk),
                _ => format!("#[doc(hidden, {})]", mk),
            };
            if !on_struct { f = true; s = true; }
        }
        1 => {
            src = format!("#[allow({}, unused)]", mk);
            f = true; s = true; st = true; im = true;
        }
        2 => {
            src = format!("#[cfg({})]", mk);
            f = true; s = true; st = true; im = true;
        }
        // not forwarded at all
        3 => {
            src = match t.below(12) {
                0 => format!("#[serde(rename = \"{}\")]", mk),
                1 => format!("#[deny({})]", mk),
                2 => format!("#[must_use = \"{}\"]", mk),
                3 => format!("#[{}]", mk),
                4 => format!("#[x::allow({})]", mk),
                5 => format!("#[deprecated(note = \"{}\")]", mk),
                6 => format!("#[warn({})]", mk),
                7 => format!("#[cfg_attr(x, {})]", mk),
                8 => format!("#[expect({})]", mk),
                9 => format!("#[docs({})]", mk),
                10 => format!("#[inline({})]", mk),
                _ => format!("#[a::b({})]", mk),
            };
        }
        4 if on_struct => {
            // options of fields mean nothing on the struct
            src = format!("#[builder_field_attr({})]", inner);
        }
        4 => {
            src = format!("#[builder_struct_attr({})]", inner);
        }
        5 | 7 => {
            let p = if on_struct { "builder_struct_attr" } else { "builder_field_attr" };
            src = format!("#[{}({})]", p, inner);
            out = Some(format!("#[{}]", inner));
            if on_struct { st = true } else { f = true }
        }
        6 | 8 => {
            let p = if on_struct { "builder_impl_attr" } else { "builder_setter_attr" };
            src = format!("#[{}({})]", p, inner);
            out = Some(format!("#[{}]", inner));
            if on_struct { im = true } else { s = true }
        }
        _ => {
            src = format!("#[{}({})]", if on_struct { "builder_setter_attr" } else { "builder_impl_attr" }, inner);
        }
    }
    if on_struct {
        f = false;
        s = false;
    } else {
        st = false;
        im = false;
    }
    let out = norm_attr(&out.unwrap_or_else(|| src.clone()));
    At { src, out, field: f, setter: s, strct: st, imp: im }
}
fn marked(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs.iter().map(|a| a.to_token_stream().to_string()).filter(|s| s.contains("mk") && s.split("mk").skip(1).any(|x| x.trim_start_matches(|c: char| c.is_ascii_digit()).starts_with('_'))).collect()
}

pub fn c15(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    for (k, f) in sp.fields.iter_mut().enumerate() {
        // unique names, so that artefacts can be told apart
        f.name = format!("fld{}", k);
        if f.set.name.is_some() {
            f.set.name = Some(format!("set{}", k));
        }
    }
    let mut k = 0;
    let mut on = |t: &mut Tape, st: bool| {
        let n = [0, 1, 2, 3, 4, 6][t.below(6)];
        let mut all: Vec<At> = vec![];
        for _ in 0..n {
            k += 1;
            // the same attribute may be written twice, and is then there twice
            let a = if t.chance(150) && !all.is_empty() { all[t.below(all.len())].clone() } else { any_at(t, k, st) };
            all.push(a);
        }
        all
    };
    let sa = on(&mut t, true);
    let fa: Vec<Vec<At>> = sp.fields.iter().map(|_| on(&mut t, false)).collect();
    sp.attrs = sa.iter().map(|a| a.src.clone()).collect();
    for (f, a) in sp.fields.iter_mut().zip(&fa) {
        f.attrs = a.iter().map(|a| a.src.clone()).collect();
    }
    let src = emit::struct_src(&sp);
    let e = expand(&src)?;
    let r = (|| {
        e.accepted()?;
        let b = m::builder_name(&sp);
        let b = unraw(&b);
        let mut places = 0usize;
        let mut eq = |what: String, want: Vec<String>, got: Vec<String>| {
            places += want.len();
            if want == got { Ok(()) } else { Err(differ(&format!("attributes of {}", what), &want, &got)) }
        };
        let st = e.the_struct(b)?;
        eq("the builder struct".into(), sa.iter().filter(|a| a.strct).map(|a| a.out.clone()).collect(), marked(&st.attrs))?;
        // attributes for derived traits come after the derives
        let first = st.attrs.iter().position(|a| !marked(std::slice::from_ref(a)).is_empty());
        let derive = st.attrs.iter().rposition(|a| a.path().is_ident("derive") && marked(std::slice::from_ref(a)).is_empty());
        if let (Some(f), Some(d)) = (first, derive) {
            if f < d && sa.iter().any(|a| a.strct && a.src.starts_with("#[builder_struct_attr")) {
                return Err("an attribute of the builder struct comes before its derives".into());
            }
        }
        let imps = e.impls(b);
        if imps.is_empty() {
            return Err("no impl block".into());
        }
        for im in &imps {
            eq("the impl block".into(), sa.iter().filter(|a| a.imp).map(|a| a.out.clone()).collect(), marked(&im.attrs))?;
        }
        for k in 0..sp.fields.len() {
            let f = &sp.fields[k];
            let bf = st.fields.iter().find(|x| x.ident.as_ref().map_or(false, |i| unraw_s(i) == unraw(&f.name))).ok_or("no builder field")?;
            eq(format!("builder field {}", f.name), fa[k].iter().filter(|a| a.field).map(|a| a.out.clone()).collect(), marked(&bf.attrs))?;
            if m::has_setter(&sp, k) {
                let mut names = vec![unraw(&m::setter_name(&sp, k)).to_string()];
                if m::has_try(&sp, k) {
                    names.push(m::try_name(&sp, k));
                }
                if let Some(x) = &f.set.each {
                    names.push(unraw(&x.name).to_string());
                }
                for n in names {
                    eq(format!("method {}", n), fa[k].iter().filter(|a| a.setter).map(|a| a.out.clone()).collect(), marked(&e.method(b, &n)?.attrs))?;
                }
            }
        }
        // and nowhere else
        let all: Vec<&At> = sa.iter().chain(fa.iter().flatten()).collect();
        let total: usize = (1..=all.len()).map(|k| {
            let mk = format!("mk{}_", k);
            e.text.matches(&mk).count()
        }).sum();
        if total != places {
            return Err(format!("forwarded attributes occur {} times in the expansion, expected {}", total, places));
        }
        Ok(())
    })();
    r.map_err(|x: String| format!("{}\n{}\nexpansion: {}", x, src, e.text))?;
    let n = sa.len() + fa.iter().map(|x| x.len()).sum::<usize>();
    Ok(Obs::new(&src, n >= 2))
}

// ---- acceptance and rejection ----

/// A complete builder for the spec, not only part of one.
fn complete(e: &Exp) -> Result<(), String> {
    if !e.errors.is_empty() {
        if e.errors.len() == e.file.items.len() {
            return Ok(());
        }
        return Err(format!("compile errors next to generated code: {}", e.errors.join("; ")));
    }
    let s = e.structs();
    if s.len() != 1 || e.impls(&unraw_s(&s[0].ident)).is_empty() {
        return Err("neither a complete builder nor compile errors".into());
    }
    Ok(())
}
fn twice(src: &str) -> Result<Exp, String> {
    let a = expand(src)?;
    let b = expand(src)?;
    if a.text != b.text {
        return Err(format!("expansion is not deterministic:\n{}\n{}", a.text, b.text));
    }
    complete(&a).map_err(|x| format!("{}\nexpansion: {}", x, a.text))?;
    Ok(a)
}

const OPTS: [&str; 34] = [
    "name", "pattern", "setter", "prefix", "into", "strip_option", "skip", "custom", "each", "build_fn", "validate", "error", "validation_error",
    "derive", "custom_constructor", "create_empty", "default", "vis", "public", "private", "no_std", "try_setter", "field", "ty", "build", "crate",
    "bogus", "r#type", "a::b", "attrs", "ident", "generics", "doc", "builder",
];
const VALS: [&str; 30] = [
    "\"x\"", "\"\"", "\"owned\"", "\"mutable\"", "true", "false", "\"true\"", "1", "-1", "'c'", "b\"x\"", "1.5", "x", "a::b", "::x::y", "{ 1 }", "{ }",
    "[1, 2]", "(1, 2)", "|x| x", "\"let x = 1; x\"", "\"pub(crate)\"", "\"pub(in a)\"", "\"Option<u32>\"", "vec![1, 2]", "Default::default()",
    "\"a b\"", "r#\"raw\"#", "return Err(1)", "if x { 1 } else { 2 }",
];
fn soup_meta(t: &mut Tape, depth: u32) -> String {
    let name = OPTS[t.below(OPTS.len())];
    match t.pick(&[3, 4, if depth > 0 { 4 } else { 0 }]) {
        0 => name.to_string(),
        1 => format!("{} = {}", name, VALS[t.below(VALS.len())]),
        _ => {
            let n = t.below(4);
            let v: Vec<String> = (0..n).map(|_| soup_meta(t, depth - 1)).collect();
            format!("{}({})", name, v.join(", "))
        }
    }
}
fn soup_tokens(t: &mut Tape, depth: u32) -> String {
    let n = t.below(6);
    let mut s = String::new();
    for _ in 0..n {
        match t.pick(&[4, 3, 3, if depth > 0 { 3 } else { 0 }]) {
            0 => s.push_str(OPTS[t.below(OPTS.len())]),
            1 => s.push_str(VALS[t.below(VALS.len())]),
            2 => s.push_str([",", "=", "::", "+", "#", "!", "->", "'a", ";", "$", "..", "@", "_", "crate"][t.below(14)]),
            _ => {
                let (a, b) = [("(", ")"), ("[", "]"), ("{", "}")][t.below(3)];
                s.push_str(a);
                s.push_str(&soup_tokens(t, depth - 1));
                s.push_str(b);
            }
        }
        s.push(' ');
    }
    s
}
fn soup_attr(t: &mut Tape) -> String {
    let path = ["builder", "builder_field_attr", "builder_setter_attr", "builder_struct_attr", "builder_impl_attr", "doc", "cfg", "allow", "other"]
        [t.pick(&[12, 2, 2, 2, 2, 1, 1, 1, 1])];
    match t.pick(&[8, 3, 1, 1]) {
        0 => {
            let n = 1 + t.below(4);
            let v: Vec<String> = (0..n).map(|_| soup_meta(t, 2)).collect();
            format!("#[{}({})]", path, v.join(", "))
        }
        1 => {
            let (a, b) = [("(", ")"), ("[", "]"), ("{", "}")][t.pick(&[6, 1, 1])];
            format!("#[{}{}{}{}]", path, a, soup_tokens(t, 2), b)
        }
        2 => format!("#[{}]", path),
        _ => format!("#[{} = {}]", path, VALS[t.below(12)]),
    }
}
const TYS: [&str; 18] = [
    "u32", "Option<u32>", "&'a str", "[u8; 3]", "(u8, T)", "fn(u8) -> u8", "*const u8", "impl X", "dyn X + 'static", "!", "Vec<Option<T>>", "_", "::a::B<'a, 1>",
    "<T as X>::Y", "std::option::Option<()>", "m!(x)", "Option", "Option<u8, u8>",
];
fn soup_item(t: &mut Tape) -> String {
    let mut s = String::new();
    let mut at = |t: &mut Tape, max: usize, s: &mut String| {
        for _ in 0..t.below(max) {
            s.push_str(&soup_attr(t));
            s.push('\n');
        }
    };
    at(t, 4, &mut s);
    s.push_str(["", "pub ", "pub(crate) ", "pub(in a::b) "][t.below(4)]);
    let shape = t.pick(&[12, 1, 1, 1, 1]);
    let gens = ["", "<T>", "<'a, T: 'a + Clone>", "<const N: usize>", "<'a: 'b, 'b, T = u8, const N: usize = 3>", "<T: ?Sized + X<Y = Z>>"][t.below(6)];
    let wher = ["", " where T: Clone", " where T: X, Vec<T>: Y, for<'b> &'b T: Z,"][t.below(3)];
    let name = ["S", "r#type", "Größe", "Builder", "Option", "Self_", "u32"][t.below(7)];
    match shape {
        1 => {
            s.push_str(&format!("enum {}{}{} {{ A, B(u8), C {{ x: u8 }} }}", name, gens, wher));
            return s;
        }
        2 => {
            s.push_str(&format!("union {}{}{} {{ a: u8, b: u32 }}", name, gens, wher));
            return s;
        }
        3 => {
            s.push_str(&format!("struct {}{}(", name, gens));
            for _ in 0..t.below(3) {
                let mut x = String::new();
                at(t, 2, &mut x);
                s.push_str(&format!("{} {}, ", x, TYS[t.below(TYS.len())]));
            }
            s.push_str(&format!("){};", wher));
            return s;
        }
        4 => {
            s.push_str(&format!("struct {}{}{};", name, gens, wher));
            return s;
        }
        _ => {}
    }
    s.push_str(&format!("struct {}{}{} {{\n", name, gens, wher));
    for _ in 0..t.below(5) {
        at(t, 4, &mut s);
        let f = ident(t, false);
        s.push_str(&format!("{}{}: {},\n", ["", "pub ", "pub(super) "][t.below(3)], f, TYS[t.below(TYS.len())]));
    }
    s.push('}');
    s
}

/// Arbitrary attributes on arbitrary items.
pub fn c16_soup(i: &Input) -> Result<Obs, String> {
    let mut t = Tape::new(&i.ex);
    let src = soup_item(&mut t);
    if syn::parse_str::<syn::DeriveInput>(&src).is_err() {
        // not an item (a `$` or unusual type)
        return Ok(Obs::new(&src, false));
    }
    let e = twice(&src).map_err(|x| format!("{}\n{}", x, src))?;
    let named = src.contains("struct ") && src.ends_with('}');
    if !named && e.errors.is_empty() {
        return Err(format!("accepted, but only structs with named fields are supported\n{}", src));
    }
    Ok(Obs::new(&src, src.contains("#[builder")))
}

/// Documented options in documented places are accepted.
pub fn c16_accept(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    if t.chance(500) {
        rename_all(&mut sp, &mut t);
    }
    if t.chance(200) {
        sp.crate_root = Some(["::db", "\"::db\"", "crate::x::y", "\"crate::r#mod\"", "super::d"][t.below(5)].into());
    }
    let src = emit::struct_src(&sp);
    let e = twice(&src).map_err(|x| format!("{}\n{}", x, src))?;
    e.accepted().map_err(|x| format!("{}\n{}", x, src))?;
    Ok(Obs::new(&src, true))
}

/// An option list and an item for it that the macro must reject, with a name for evidence and the
/// adjustments that keep the rest of the struct free of errors.
#[derive(Clone, Debug)]
pub struct Bad {
    pub what: String,
    /// field index, or none for the struct
    pub at: Option<usize>,
}

/// misspells an option without arriving at another one
fn misspell(t: &mut Tape, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let k = t.below(c.len());
    match t.below(4) {
        0 => c.insert(k, 'x'),
        1 if c.len() > 2 => {
            c.remove(k);
        }
        2 => c[k] = if c[k] == 'z' { 'y' } else { 'z' },
        _ => c.push('s'),
    }
    let r: String = c.into_iter().collect();
    if OPTS.contains(&r.as_str()) || syn::parse_str::<syn::Ident>(&r).is_err() {
        format!("{}_x", s)
    } else {
        r
    }
}

pub const S_TOP: [&str; 16] = [
    "name", "pattern", "setter", "build_fn", "derive", "custom_constructor", "create_empty", "default", "vis", "public", "private", "no_std",
    "try_setter", "field", "crate", "setter",
];
pub const F_TOP: [&str; 8] = ["pattern", "setter", "default", "vis", "public", "private", "try_setter", "field"];

/// Injects one error into an otherwise valid spec. `mark` is written before every offending item.
pub fn inject(sp: &mut Spec, t: &mut Tape, mark: &str) -> Bad {
    let nf = sp.fields.len();
    let on_field = nf > 0 && t.next() % 3 != 1;
    let at = if on_field { Some(t.below(nf)) } else { None };
    let kind = t.below(10);
    inject_at(sp, t, mark, at, kind)
}

fn push(sp: &mut Spec, at: Option<usize>, list: &str, item: String) {
    match at {
        Some(i) => sp.fields[i].inj.push((list.into(), item)),
        None => sp.inj.push((list.into(), item)),
    }
}

pub fn inject_at(sp: &mut Spec, t: &mut Tape, mark: &str, at: Option<usize>, kind: usize) -> Bad {
    let bad = |w: &str| Bad { what: w.to_string(), at };
    let lists: &[&str] = if at.is_some() { &["", "setter", "field"] } else { &["", "setter", "build_fn", "field"] };
    match kind {
        // an unknown option
        0 => {
            let l = lists[t.below(lists.len())];
            let n = ["bogus", "skip_all", "attrs", "ident", "Into", "data", "visibility", "builder", "build_fn_", "r#pub", "nested", "a::into"][t.below(12)];
            let v = ["", " = true", " = \"x\"", "(x)", "(into)", " = 3"][t.below(6)];
            push(sp, at, l, format!("{}{}{}", mark, n, v));
            bad("unknown option")
        }
        // a misspelt one
        1 => {
            let l = lists[t.below(lists.len())];
            let pool: &[&str] = match (l, at.is_some()) {
                ("", false) => &S_TOP,
                ("", true) => &F_TOP,
                ("setter", false) => &["prefix", "into", "strip_option", "skip"],
                ("setter", true) => &["prefix", "name", "into", "strip_option", "skip", "custom", "each"],
                ("build_fn", _) => &["skip", "name", "validate", "public", "private", "vis", "error"],
                (_, false) => &["public", "private", "vis"],
                (_, true) => &["public", "private", "vis", "ty", "build"],
            };
            let right = pool[t.below(pool.len())];
            let n = misspell(t, right);
            let v = ["", " = true", " = \"x\"", "(into)"][t.below(4)];
            push(sp, at, l, format!("{}{}{}", mark, n, v));
            bad("misspelt option")
        }
        // a known option in the wrong place
        2 => {
            let (l, it) = if at.is_some() {
                [
                    ("", "name = \"x\""), ("", "build_fn(skip)"), ("", "derive(Debug)"), ("", "custom_constructor"), ("", "create_empty = \"x\""),
                    ("", "no_std"), ("", "crate = \"::x\""), ("", "into"), ("", "strip_option"), ("", "skip"), ("", "each = \"x\""), ("", "prefix = \"x\""),
                    ("", "validate = \"x\""), ("setter", "public"), ("setter", "private"), ("setter", "vis = \"pub\""), ("setter", "default"), ("setter", "try_setter"),
                    ("setter", "pattern = \"owned\""), ("field", "into"), ("field", "default"), ("field", "skip"), ("field", "name = \"x\""), ("", "ty = \"u8\""), ("", "build = \"1\""),
                    ("", "error = \"X\""), ("", "custom"),
                ][t.below(27)]
            } else {
                [
                    ("", "into"), ("", "strip_option"), ("", "skip"), ("", "prefix = \"x\""), ("", "each = \"x\""), ("", "validate = \"x\""), ("", "error = \"X\""),
                    ("setter", "name = \"x\""), ("setter", "custom"), ("setter", "each = \"x\""), ("setter", "public"), ("setter", "private"), ("setter", "vis = \"pub\""),
                    ("field", "ty = \"u8\""), ("field", "build = \"1\""), ("field", "into"), ("build_fn", "pattern = \"owned\""), ("build_fn", "default"),
                    ("build_fn", "into"), ("build_fn", "prefix = \"x\""), ("build_fn", "create_empty = \"x\""), ("build_fn", "validation_error = true"), ("", "ty = \"u8\""),
                    ("", "build = \"1\""), ("", "custom"), ("build_fn", "derive(Debug)"),
                ][t.below(26)]
            };
            push(sp, at, l, format!("{}{}", mark, it));
            bad("misplaced option")
        }
        // an option twice
        3 => {
            let (l, a, b): (&str, &str, &str) = if let Some(i) = at {
                let f = &mut sp.fields[i];
                match t.below(12) {
                    0 => { f.pat = None; ("", "pattern = \"owned\"", "pattern = \"owned\"") }
                    1 => { f.try_setter = false; ("", "try_setter", "try_setter") }
                    2 => { f.def = None; f.cty = None; f.cbuild = None; ("", "default", "default = \"1\"") }
                    3 => { f.set.into = None; f.set.word = false; ("setter", "into", "into = false") }
                    4 => { f.set.skip = None; f.set.word = false; ("setter", "skip = false", "skip = false") }
                    5 => { f.set.name = None; f.set.word = false; ("setter", "name = \"a\"", "name = \"b\"") }
                    6 => { f.set.each = None; f.set.word = false; ("setter", "each = \"a\"", "each(name = \"a\")") }
                    7 => { f.setter_vis = VisOpt::None; ("", "public", "public") }
                    8 => { f.setter_vis = VisOpt::None; ("", "vis = \"pub\"", "vis = \"pub\"") }
                    9 => { f.cty = None; f.def = None; ("field", "ty = \"u8\"", "ty = \"u8\"") }
                    10 => { f.set = SetOpts::default(); ("", "setter(into)", "setter(strip_option)") }
                    _ => { f.cty = None; f.cbuild = None; f.field_vis = VisOpt::None; ("", "field(public)", "field(public)") }
                }
            } else {
                match t.below(14) {
                    0 => { sp.pat = None; ("", "pattern = \"owned\"", "pattern = \"owned\"") }
                    1 => { sp.try_setter = false; ("", "try_setter", "try_setter") }
                    2 => { sp.def = None; ("", "default", "default") }
                    3 => { sp.into = None; ("setter", "into", "into = false") }
                    4 => { sp.skip = None; ("setter", "skip = false", "skip = false") }
                    5 => { sp.bname = None; ("", "name = \"A\"", "name = \"A\"") }
                    6 => { sp.prefix = None; ("setter", "prefix = \"a\"", "prefix = \"a\"") }
                    7 => { sp.bvis = VisOpt::None; ("", "private", "private") }
                    8 => { sp.create_empty = None; ("", "create_empty = \"e\"", "create_empty = \"e\"") }
                    9 => { sp.custom_ctor = false; ("", "custom_constructor", "custom_constructor") }
                    10 => { sp.derives = vec![]; ("", "derive(Debug)", "derive(Hash)") }
                    11 => { sp.build_name = None; ("build_fn", "name = \"e\"", "name = \"e\"") }
                    12 => { sp.validate = None; sp.err = ErrK::Gen; ("build_fn", "validate = \"v\"", "validate = \"v\"") }
                    _ => { sp.no_std = false; ("", "no_std", "no_std") }
                }
            };
            // Layout may put the two in different lists; either is offending
            push(sp, at, l, format!("{}{}", mark, a));
            push(sp, at, l, format!("{}{}", mark, b));
            bad("duplicate option")
        }
        // an ill-typed value
        4 => {
            let (l, it): (&str, &str) = if let Some(i) = at {
                let f = &mut sp.fields[i];
                match t.below(26) {
                    0 => { f.pat = None; ("", "pattern = \"mutabel\"") }
                    1 => { f.pat = None; ("", "pattern = 3") }
                    2 => { f.pat = None; ("", "pattern = \"Owned\"") }
                    3 => { f.try_setter = false; ("", "try_setter = true") }
                    4 => { f.try_setter = false; ("", "try_setter(x)") }
                    5 => { f.set.into = None; ("setter", "into = \"yes\"") }
                    6 => { f.set.into = None; ("setter", "into = 1") }
                    7 => { f.set.into = None; ("setter", "into(x)") }
                    8 => { f.set.skip = None; ("setter", "skip = \"no\"") }
                    9 => { f.set.name = None; ("setter", "name = \"a b\"") }
                    10 => { f.set.name = None; ("setter", "name = \"\"") }
                    11 => { f.set.name = None; ("setter", "name") }
                    12 => { f.set.each = None; ("setter", "each") }
                    13 => { f.set.each = None; ("setter", "each = \"1x\"") }
                    14 => { f.set.each = None; ("setter", "each(into)") }
                    15 => { f.set.each = None; ("setter", "each(name = \"a\", bogus)") }
                    16 => { f.setter_vis = VisOpt::None; ("", "vis = \"pub(\"") }
                    17 => { f.setter_vis = VisOpt::None; ("", "vis = \"public\"") }
                    18 => { f.setter_vis = VisOpt::None; ("", "public = true") }
                    19 => { f.cty = None; f.def = None; ("field", "ty = \"Vec<\"") }
                    20 => { f.cty = None; f.def = None; ("field", "ty = 3") }
                    21 => { f.cbuild = None; f.def = None; ("field", "build = 3") }
                    22 => { f.set = SetOpts::default(); ("", "setter = \"x\"") }
                    23 => { f.set.strip = None; ("setter", "strip_option = \"Option\"") }
                    24 => { f.set.custom = None; ("setter", "custom = \"maybe\"") }
                    _ => { f.set.prefix = None; ("setter", "prefix = \"with-\"") }
                }
            } else {
                match t.below(28) {
                    0 => { sp.pat = None; ("", "pattern = \"mutabel\"") }
                    1 => { sp.pat = None; ("", "pattern") }
                    2 => { sp.pat = None; ("", "pattern = \"\"") }
                    3 => { sp.try_setter = false; ("", "try_setter = true") }
                    4 => { sp.no_std = false; ("", "no_std = true") }
                    5 => { sp.custom_ctor = false; ("", "custom_constructor = true") }
                    6 => { sp.into = None; ("setter", "into = \"yes\"") }
                    7 => { sp.strip = None; ("setter", "strip_option = 0") }
                    8 => { sp.skip = None; ("setter", "skip(x)") }
                    9 => { sp.prefix = None; ("setter", "prefix = \"a b\"") }
                    10 => { sp.prefix = None; ("setter", "prefix") }
                    11 => { sp.bname = None; ("", "name = \"1A\"") }
                    12 => { sp.bname = None; ("", "name") }
                    13 => { sp.bname = None; ("", "name = \"A<T>\"") }
                    14 => { sp.create_empty = None; ("", "create_empty") }
                    15 => { sp.create_empty = None; ("", "create_empty = \"a::b\"") }
                    16 => { sp.derives = vec![]; ("", "derive = \"Clone\"") }
                    17 => { sp.derives = vec![]; ("", "derive(\"Clone\")") }
                    18 => { sp.derives = vec![]; ("", "derive(Clone = 1)") }
                    19 => { sp.bvis = VisOpt::None; ("", "vis = \"crate\"") }
                    20 => { sp.bvis = VisOpt::None; ("", "vis") }
                    21 => { sp.build_name = None; ("build_fn", "name = \"a b\"") }
                    22 => { sp.build_skip = false; ("build_fn", "skip = \"no\"") }
                    23 => { sp.validate = None; ("build_fn", "validate = \"a b\"") }
                    24 => { sp.err = ErrK::Gen; ("build_fn", "error") }
                    25 => { sp.err = ErrK::Gen; ("build_fn", "error(bogus = true)") }
                    26 => { sp.err = ErrK::Gen; sp.validate = None; ("build_fn", "error(validation_error = \"x\")") }
                    _ => { sp.crate_root = None; ("", "crate = \"a b\"") }
                }
            };
            if l == "setter" {
                if let Some(i) = at {
                    sp.fields[i].set.word = false;
                }
            }
            push(sp, at, l, format!("{}{}", mark, it));
            bad("ill-typed value")
        }
        // conflicting visibilities
        5 => {
            let c = [("public", "private"), ("public", "vis = \"pub(crate)\""), ("vis = \"pub(crate)\"", "private"), ("private", "vis = \"\"")][t.below(4)];
            let l = if at.is_some() { ["", "field"][t.below(2)] } else { ["", "build_fn", "field"][t.below(3)] };
            match (at, l) {
                (Some(i), "") => sp.fields[i].setter_vis = VisOpt::None,
                (Some(i), _) => sp.fields[i].field_vis = VisOpt::None,
                (None, "") => sp.bvis = VisOpt::None,
                (None, "build_fn") => sp.build_vis = VisOpt::None,
                (None, _) => sp.field_vis = VisOpt::None,
            }
            push(sp, at, l, format!("{}{}", mark, c.0));
            push(sp, at, l, format!("{}{}", mark, c.1));
            bad("conflicting visibilities")
        }
        // default together with a custom type or conversion; validate without the variant
        6 => {
            if let Some(i) = at {
                let f = &mut sp.fields[i];
                f.cty = None;
                f.cbuild = None;
                f.def = None;
                let d = ["default", "default = \"1\"", "default = 1", "default = \"return Err(x)\""][t.below(4)];
                push(sp, at, "", format!("{}{}", mark, d));
                let k = t.below(3);
                if k != 1 {
                    push(sp, at, "field", format!("{}ty = \"Vec<u8>\"", mark));
                }
                if k != 0 {
                    push(sp, at, "field", format!("{}build = \"x\"", mark));
                }
                bad("default with field(ty) or field(build)")
            } else {
                sp.validate = None;
                sp.err = ErrK::Gen;
                push(sp, at, "build_fn", format!("{}validate = \"Self::v\"", mark));
                push(sp, at, "build_fn", format!("{}error(validation_error = false)", mark));
                bad("validate with validation_error = false")
            }
        }
        // empty or malformed code
        7 => {
            let code = ["\"\"", "\"   \"", "\"// nothing\"", "\"let\"", "\"1 +\"", "\"}\"", "\"{\"", "\"a b\"", "\")\"", "\"1; }; {\""][t.below(10)];
            let code = if t.chance(200) { "\"/* c */\"" } else { code };
            if let Some(i) = at {
                let f = &mut sp.fields[i];
                f.def = None;
                f.cbuild = None;
                if t.next() % 2 == 0 {
                    f.cty = None;
                    push(sp, at, "", format!("{}default = {}", mark, code));
                } else {
                    push(sp, at, "field", format!("{}build = {}", mark, code));
                }
            } else {
                sp.def = None;
                push(sp, at, "", format!("{}default = {}", mark, code));
            }
            bad("empty or malformed code")
        }
        // malformed pass-through attributes
        8 => {
            let p = if at.is_some() { ["builder_field_attr", "builder_setter_attr"] } else { ["builder_struct_attr", "builder_impl_attr"] }[t.below(2)];
            let x = ["", " = \"x\"", "()", "(a, b)", "(+)", "(a = )", "(3)", "(\"x\")", "(a b)", "(#[x])"][t.below(10)];
            let a = format!("{}#[{}{}]", if mark.is_empty() { String::new() } else { format!("{} ", mark) }, p, x);
            let v = match at {
                Some(i) => &mut sp.fields[i].attrs,
                None => &mut sp.attrs,
            };
            let k = t.below(v.len() + 1);
            v.insert(k, a);
            bad("malformed pass-through attribute")
        }
        // a malformed `builder` attribute
        _ => {
            let x = [" = \"x\"", "(\"x\")", "(3)", "(pattern = )", "(,)", "(setter(into)(skip))", "(= 1)", "(setter(,))", "(a b)", "(true)"][t.below(10)];
            let a = format!("{}#[builder{}]", if mark.is_empty() { String::new() } else { format!("{} ", mark) }, x);
            match at {
                Some(i) => sp.fields[i].attrs.push(a),
                None => sp.attrs.push(a),
            }
            bad("malformed builder attribute")
        }
    }
}

/// One error anywhere in an otherwise valid struct makes it rejected.
pub fn c16_reject(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    let shape = t.pick(&[20, 1]);
    let b = if shape == 0 {
        inject(&mut sp, &mut t, "")
    } else {
        Bad { what: "not a struct with named fields".into(), at: None }
    };
    let mut src = emit::struct_src(&sp);
    if shape == 1 {
        // the same attributes on something else
        let (head, _) = src.split_at(src.find("struct ").unwrap());
        let rest = ["enum S { A, B }", "enum S { A { x: u8 } }", "union S { a: u8 }", "struct S(u8, u16);", "struct S;", "struct S();", "enum S {}"][t.below(7)];
        src = format!("{}{}", head, rest);
    }
    let e = twice(&src).map_err(|x| format!("{}\n{}", x, src))?;
    if e.errors.is_empty() {
        return Err(format!("accepted despite: {}\n{}", b.what, src));
    }
    Ok(Obs::new(&src, true))
}

/// Ranges of the attributes that contain the mark, or stand right behind it.
pub fn marked_attrs(src: &str, mark: &str) -> Vec<[(usize, usize); 2]> {
    let ast: syn::DeriveInput = syn::parse_str(src).expect("item");
    let mut all: Vec<[(usize, usize); 2]> = vec![];
    let mut add = |a: &[syn::Attribute]| {
        for a in a {
            use syn::spanned::Spanned;
            let (s, e) = (a.pound_token.span().start(), a.bracket_token.span.close().end());
            all.push([(s.line, s.column), (e.line, e.column)]);
        }
    };
    add(&ast.attrs);
    if let syn::Data::Struct(d) = &ast.data {
        for f in &d.fields {
            add(&f.attrs);
        }
    }
    all.sort();
    let mut out = vec![];
    for (ln, l) in src.lines().enumerate() {
        for (k, _) in l.match_indices(mark) {
            let at = (ln + 1, l[..k].chars().count());
            // the first attribute that ends behind the mark
            if let Some(r) = all.iter().find(|r| r[1] > at) {
                out.push(*r);
            }
        }
    }
    out
}

/// Rejections point at the offending attributes.
/// Adds one offending option to the struct or to some fields; what was added, with its mark.
pub fn offend(sp: &mut Spec, t: &mut Tape) -> Vec<(Bad, String)> {
    let nf = sp.fields.len();
    let k = t.pick(&[5, 2, 1]);
    let mut bads = vec![];
    if nf == 0 || t.next() % 4 == 1 {
        let kind = t.below(10);
        bads.push((inject_at(sp, t, "/*M0*/", None, kind), "/*M0*/".to_string()));
    } else {
        let first = t.below(nf);
        for j in 0..=k.min(nf - 1) {
            let kind = t.below(10);
            let m = format!("/*M{}*/", j);
            bads.push((inject_at(sp, t, &m, Some((first + j) % nf), kind), m));
        }
    }
    bads
}
pub fn c23_spans(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    let bads = offend(&mut sp, &mut t);
    let src = emit::struct_src(&sp);
    let e = expand(&src).map_err(|x| format!("{}\n{}", x, src))?;
    // the end of an attribute that breaks off has no location in darling
    if e.errors.iter().any(|x| x.contains("unexpected end of input")) && bads.iter().any(|b| b.0.what == "malformed builder attribute") {
        return Ok(Obs::new(&src, false));
    }
    for (b, m) in &bads {
        let r = marked_attrs(&src, m);
        if r.is_empty() {
            drive::infra(&format!("mark not found: {:?}\n{}", b, src));
        }
        if !e.places.iter().any(|p| r.iter().any(|r| r[0] <= p[0] && p[0] < r[1])) {
            return Err(format!("no error is located in the offending attribute (marked {}: {}): attributes at {:?}, errors {:?} at {:?}\n{}", m, b.what, r, e.errors, e.places, src));
        }
    }
    Ok(Obs::new(&src, true))
}

// ---- spelling and inheritance ----

struct Norm;
impl syn::visit_mut::VisitMut for Norm {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        loop {
            let inner = match e {
                syn::Expr::Paren(p) if p.attrs.is_empty() => (*p.expr).clone(),
                syn::Expr::Group(p) if p.attrs.is_empty() => (*p.expr).clone(),
                // `{ e }` in expression position
                syn::Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                    syn::Stmt::Expr(x, None) => x.clone(),
                    _ => break,
                },
                _ => break,
            };
            *e = inner;
        }
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        let n = norm_vis(v);
        *v = if n.is_empty() { syn::Visibility::Inherited } else { syn::parse_str(&n).unwrap() };
    }
}
/// Text of the expansion with redundant blocks and spellings of visibilities removed.
fn canon(src: &str) -> Result<(String, Exp), String> {
    let mut e = expand(src)?;
    e.accepted()?;
    syn::visit_mut::VisitMut::visit_file_mut(&mut Norm, &mut e.file);
    Ok((e.file.to_token_stream().to_string(), e))
}

fn all_visible_explicit(sp: &Spec, i: usize) -> bool {
    // adding setter properties does not change whether the field is stored
    !m::hidden(sp, i) && (sp.skip != Some(true) || { let s = &sp.fields[i].set; s.skip.is_some() || s.word || s.prefix.is_some() || s.name.is_some() || s.into.is_some() || s.strip.is_some() || s.each.is_some() })
}

/// Rewrites the spec to another one that must mean the same; false if it does not apply.
fn rewrite(sp: &mut Spec, t: &mut Tape) -> Option<&'static str> {
    let n = sp.fields.len();
    let pick = t.below(n.max(1)).min(n.saturating_sub(1));
    let law = t.below(26);
    let word_off = |f: &mut Field| {
        if f.set.word {
            f.set.word = false;
            f.set.skip = Some(false);
        }
    };
    Some(match law {
        0 | 1 => {
            sp.lay = t.next();
            for f in &mut sp.fields {
                f.lay = t.next();
            }
            "order, splitting and flag spelling"
        }
        2 => {
            for f in &mut sp.fields {
                if let Some(d) = &mut f.def {
                    d.quoted = !d.quoted;
                }
                if let Some((_, q)) = &mut f.cbuild {
                    *q = !*q;
                }
            }
            if let Some(d) = &mut sp.def {
                d.quoted = !d.quoted;
            }
            "quoting"
        }
        3 => {
            let mut any = false;
            for f in &mut sp.fields {
                if let Some(e) = &mut f.set.each {
                    if e.into.is_none() {
                        e.short = !e.short;
                        any = true;
                    }
                }
            }
            if !any {
                return None;
            }
            "each spelling"
        }
        4 => {
            let mut any = false;
            for f in &mut sp.fields {
                if let Some(e) = &mut f.set.each {
                    if e.into.is_none() {
                        e.into = Some(false);
                        e.short = false;
                        any = true;
                    }
                }
            }
            if !any {
                return None;
            }
            "each(into = false)"
        }
        5 if sp.pat.is_none() => {
            sp.pat = Some(Pat::Mutable);
            "pattern default"
        }
        6 if sp.bname.is_none() => {
            sp.bname = Some(m::builder_name(sp));
            "name default"
        }
        7 if sp.into.is_none() => {
            sp.into = Some(false);
            "into default"
        }
        8 if sp.strip.is_none() => {
            sp.strip = Some(false);
            "strip_option default"
        }
        9 if sp.skip.is_none() => {
            sp.skip = Some(false);
            "skip default"
        }
        10 if sp.build_name.is_none() => {
            sp.build_name = Some("build".into());
            "build_fn(name) default"
        }
        11 if sp.create_empty.is_none() => {
            sp.create_empty = Some("create_empty".into());
            "create_empty default"
        }
        12 if sp.err == ErrK::Gen => {
            sp.err = ErrK::GenTrue;
            "error(validation_error = true) default"
        }
        13 if sp.build_vis == VisOpt::None => {
            sp.build_vis = VisOpt::Vis(vis_builder(sp));
            "build_fn(vis) default"
        }
        14 if sp.field_vis == VisOpt::None => {
            sp.field_vis = VisOpt::Private;
            "field(private) default"
        }
        15 if sp.crate_root.is_none() => {
            sp.crate_root = Some(["::derive_builder", "\"::derive_builder\""][t.below(2)].into());
            "crate default"
        }
        16 if n > 0 && sp.fields[pick].pat.is_none() => {
            sp.fields[pick].pat = Some(m::spat(sp));
            "field pattern inherited"
        }
        17 if n > 0 && sp.fields[pick].set.into.is_none() && all_visible_explicit(sp, pick) => {
            let v = m::into(sp, pick);
            word_off(&mut sp.fields[pick]);
            sp.fields[pick].set.into = Some(v);
            "field into inherited"
        }
        18 if n > 0 && sp.fields[pick].set.strip.is_none() && all_visible_explicit(sp, pick) => {
            let v = m::strip_on(sp, pick);
            word_off(&mut sp.fields[pick]);
            sp.fields[pick].set.strip = Some(v);
            "field strip_option inherited"
        }
        19 if n > 0 && sp.fields[pick].set.skip.is_none() => {
            let v = m::hidden(sp, pick);
            sp.fields[pick].set.word = false;
            sp.fields[pick].set.skip = Some(v);
            "field skip inherited"
        }
        20 if n > 0 && sp.fields[pick].set.prefix.is_none() && sp.prefix.is_some() && all_visible_explicit(sp, pick) => {
            word_off(&mut sp.fields[pick]);
            sp.fields[pick].set.prefix = sp.prefix.clone();
            "field prefix inherited"
        }
        21 if n > 0 && sp.fields[pick].set.name.is_none() && all_visible_explicit(sp, pick) => {
            let v = m::setter_name(sp, pick);
            word_off(&mut sp.fields[pick]);
            sp.fields[pick].set.name = Some(v);
            "setter name default"
        }
        22 if n > 0 && sp.fields[pick].setter_vis == VisOpt::None => {
            sp.fields[pick].setter_vis = VisOpt::Vis(vis_setter(sp, pick));
            "setter visibility inherited"
        }
        23 if n > 0 && sp.fields[pick].field_vis == VisOpt::None => {
            sp.fields[pick].field_vis = VisOpt::Vis(vis_field(sp, pick));
            "field visibility inherited"
        }
        // the struct-level value moved to every field that does not say otherwise
        24 => {
            if sp.skip == Some(true) || n == 0 {
                return None;
            }
            match t.below(5) {
                0 => {
                    sp.into?;
                    for i in 0..n {
                        if sp.fields[i].set.skip == Some(true) {
                            continue;
                        }
                        let v = m::into(sp, i);
                        word_off(&mut sp.fields[i]);
                        sp.fields[i].set.into = Some(v);
                    }
                    sp.into = [None, Some(false), Some(true)][t.below(3)];
                    "into moved to the fields"
                }
                1 => {
                    sp.strip?;
                    for i in 0..n {
                        if sp.fields[i].set.skip == Some(true) {
                            continue;
                        }
                        let v = m::strip_on(sp, i);
                        word_off(&mut sp.fields[i]);
                        sp.fields[i].set.strip = Some(v);
                    }
                    sp.strip = [None, Some(false), Some(true)][t.below(3)];
                    "strip_option moved to the fields"
                }
                2 => {
                    let p = sp.prefix.clone()?;
                    for f in &mut sp.fields {
                        if f.set.skip == Some(true) || f.set.prefix.is_some() {
                            continue;
                        }
                        word_off(f);
                        f.set.prefix = Some(p.clone());
                    }
                    sp.prefix = [None, Some("zz".to_string())][t.below(2)].clone();
                    if sp.prefix.is_some() && sp.fields.iter().any(|f| f.set.skip == Some(true)) {
                        sp.prefix = None;
                    }
                    "prefix moved to the fields"
                }
                3 => {
                    if !sp.try_setter {
                        return None;
                    }
                    sp.try_setter = false;
                    for f in &mut sp.fields {
                        f.try_setter = true;
                    }
                    "try_setter moved to the fields"
                }
                _ => {
                    if sp.field_vis == VisOpt::None {
                        return None;
                    }
                    for i in 0..n {
                        sp.fields[i].field_vis = VisOpt::Vis(vis_field(sp, i));
                    }
                    sp.field_vis = any_vis(t);
                    "field(..) visibility moved to the fields"
                }
            }
        }
        // struct-level skip written out on every field
        25 if n > 0 => {
            for i in 0..n {
                let v = m::hidden(sp, i);
                sp.fields[i].set.word = false;
                sp.fields[i].set.skip = Some(v);
            }
            sp.skip = [None, Some(false), Some(true)][t.below(3)];
            "skip moved to the fields"
        }
        _ => return None,
    })
}

pub fn c19_laws(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    if t.chance(300) {
        rename_all(&mut sp, &mut t);
    }
    let mut sp2 = sp.clone();
    let mut laws = vec![];
    for _ in 0..1 + t.below(4) {
        if let Some(l) = rewrite(&mut sp2, &mut t) {
            laws.push(l);
        }
    }
    let (a, mut b) = (emit::struct_src(&sp), emit::struct_src(&sp2));
    if t.chance(300) {
        b = emit::respell(&b, &mut || t.below(5));
        laws.push("string literals");
    }
    let (x, y) = (canon(&a).map_err(|e| format!("{}\n{}", e, a))?.0, canon(&b).map_err(|e| format!("{}\n{}", e, b))?.0);
    if x != y {
        return Err(format!("laws {:?}: these structs give different builders\n{}\n{}\nfirst: {}\nsecond: {}", laws, a, b, x, y));
    }
    Ok(Obs::new(&format!("{}=={}", a, b), a != b))
}

/// What is generated for field k: its builder field, its methods, its initializers.
fn artefacts(sp: &Spec, e: &Exp, k: usize) -> Result<BTreeMap<String, String>, String> {
    use syn::visit::Visit;
    let mut out = BTreeMap::new();
    let b = m::builder_name(sp);
    let b = unraw(&b);
    let name = unraw(&sp.fields[k].name).to_string();
    let st = e.the_struct(b)?;
    for f in &st.fields {
        if f.ident.as_ref().map_or(false, |i| unraw_s(i) == name) {
            out.insert("builder field".into(), f.to_token_stream().to_string());
        }
    }
    if m::has_setter(sp, k) {
        let mut names = vec![unraw(&m::setter_name(sp, k)).to_string()];
        if m::has_try(sp, k) {
            names.push(m::try_name(sp, k));
        }
        if let Some(x) = &sp.fields[k].set.each {
            names.push(unraw(&x.name).to_string());
        }
        for n in names {
            out.insert(format!("method {}", n), e.method(b, &n)?.to_token_stream().to_string());
        }
    }
    struct V<'a> {
        name: &'a str,
        out: Vec<String>,
    }
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_expr_struct(&mut self, x: &'b syn::ExprStruct) {
            for f in &x.fields {
                if let syn::Member::Named(i) = &f.member {
                    if unraw_s(i) == self.name {
                        self.out.push(f.expr.to_token_stream().to_string());
                    }
                }
            }
            syn::visit::visit_expr_struct(self, x);
        }
    }
    let mut v = V { name: &name, out: vec![] };
    if !sp.build_skip {
        v.visit_impl_item_fn(e.method(b, unraw(m::build_name(sp)))?);
    }
    out.insert("initializers".into(), v.out.join(" ;; "));
    Ok(out)
}

/// Options of one field do not change what is generated for another.
pub fn c19_fields(i: &Input) -> Result<Obs, String> {
    if i.t.ft.len() < 2 {
        return Ok(Obs::new("", false));
    }
    let mut t = Tape::new(&i.ex);
    let mut sp = spec_of(i);
    // the other options for a field come from another decoding
    let mut t2 = i.t.clone();
    for f in &mut t2.ft {
        for x in f.iter_mut() {
            if t.next() % 2 == 0 {
                *x = t.next();
            }
        }
    }
    let mut other = decode(&prof(), &t2.st, &t2.ft);
    for s in [&mut sp, &mut other] {
        // code that names another field would differ in text
        for f in &mut s.fields {
            if let Some(Def { kind: k @ DKind::SelfRead(_), .. }) = &mut f.def {
                *k = DKind::Call;
            }
            if let Some((k @ CBuild::Other(_), _)) = &mut f.cbuild {
                *k = CBuild::Q;
            }
        }
        for (k, f) in s.fields.iter_mut().enumerate() {
            f.name = format!("fld{}", k);
            if f.set.name.is_some() {
                f.set.name = Some(format!("set{}", k));
            }
            if let Some(e) = &mut f.set.each {
                e.name = format!("each{}", k);
            }
        }
    }
    let n = sp.fields.len().min(other.fields.len());
    if n < 2 {
        return Ok(Obs::new("", false));
    }
    let j = t.below(n);
    let mut sp2 = sp.clone();
    let (nm, ty) = (sp.fields[j].name.clone(), sp.fields[j].ty.clone());
    sp2.fields[j] = other.fields[j].clone();
    sp2.fields[j].name = nm;
    if t.next() % 2 == 0 {
        sp2.fields[j].ty = ty;
    }
    if sp2.fields[j].set.name.is_some() {
        sp2.fields[j].set.name = Some("setother".into());
    }
    if let Some(e) = &mut sp2.fields[j].set.each {
        e.name = "eachother".into();
    }
    let (a, b) = (emit::struct_src(&sp), emit::struct_src(&sp2));
    let (_, x) = canon(&a).map_err(|e| format!("{}\n{}", e, a))?;
    let (_, y) = canon(&b).map_err(|e| format!("{}\n{}", e, b))?;
    for k in (0..sp.fields.len()).filter(|k| *k != j) {
        let p = artefacts(&sp, &x, k).map_err(|e| format!("{}\n{}", e, a))?;
        let q = artefacts(&sp2, &y, k).map_err(|e| format!("{}\n{}", e, b))?;
        if p != q {
            return Err(format!("options of field {} change what is generated for field {}\n{}\n{}\n{:?}\n{:?}", j, k, a, b, p, q));
        }
    }
    Ok(Obs::new(&format!("{}=={}", a, b), a != b))
}

pub fn configs(id: &str) -> Vec<ExpCfg> {
    let c = |id, label, rule, fields, ex, cases, check: fn(&Input) -> Result<Obs, String>| ExpCfg { id, label, rule, fields, ex, cases, check };
    match id {
        "C11" => vec![c("C11", "names", "random structs with random identifiers in every place that takes a name; non-trivial: distinct struct with a renaming option or an unusual identifier", (0, 6), 260, 16000, c11)],
        "C12" => vec![c("C12", "visibilities", "random structs with random visibilities of all forms at every level; non-trivial: distinct struct with an explicit visibility", (0, 6), 60, 16000, c12)],
        "C06" => vec![c("C06", "types", "random structs with random types, among them `Option` in and out of all sorts of places; non-trivial: distinct struct with a stripped one", (1, 6), 160, 12000, c06_types)],
        "C13" => vec![c("C13", "forward", "random structs with random parameters of all kinds, bounds, where clauses, defaults and derives; non-trivial: distinct struct with parameters or derives", (0, 6), 120, 16000, c13_forward)],
        "C15" => vec![c("C15", "forwarding", "random structs with uniquely marked attributes of all kinds on the struct and fields; non-trivial: distinct struct with at least two", (0, 5), 240, 16000, c15)],
        "C16" => vec![
            c("C16", "reject", "random valid structs with one injected error of ten kinds anywhere; non-trivial: every distinct one", (0, 5), 40, 12000, c16_reject),
            c("C16", "accept", "random valid structs; non-trivial: every distinct one", (0, 6), 260, 8000, c16_accept),
            c("C16", "soup", "random attribute contents (option grammar and token soup) on random items; non-trivial: distinct item with a builder attribute", (0, 1), 400, 24000, c16_soup),
        ],
        "C22" => vec![c("C22", "docs", "random documented structs with all options; documentation of each generated item that is not private; non-trivial: distinct, with a field", (0, 5), 40, 8000, c22_docs)],
        "C23" => vec![c("C23", "spans", "random valid structs with one offending option on the struct or on one to three fields; the location of each compile_error in the input; non-trivial: every distinct one", (0, 5), 80, 16000, c23_spans)],
        "C19" => vec![
            c("C19", "laws", "random structs and a rewriting by up to four laws; non-trivial: distinct pair that differs in text", (1, 6), 320, 14000, c19_laws),
            c("C19", "fields", "random structs with the options of one field replaced; non-trivial: distinct pair that differs in text", (2, 5), 900, 7000, c19_fields),
        ],
        _ => vec![],
    }
}

// ---- types as written ----

fn any_type(t: &mut Tape, d: usize) -> String {
    let k = if d == 0 { t.below(6) } else { t.below(24) };
    let inner = |t: &mut Tape| any_type(t, d - 1);
    match k {
        0 => "u8".into(),
        1 => "String".into(),
        2 => "T".into(),
        3 => "&'a str".into(),
        4 => "()".into(),
        5 => ["Option", "T::Option", "std::option::Option", "r#type"][t.below(4)].into(),
        6..=9 => format!("Option<{}>", inner(t)),
        10 => format!("{}<{}>", ["std::option::Option", "core::option::Option", "::std::option::Option", "::core::option::Option"][t.below(4)], inner(t)),
        11 => format!("{}<{}>", ["Options", "Optional", "MyOption", "option", "Some", "OptionAlias"][t.below(6)], inner(t)),
        12 => format!("{}<{}>", ["my::Option", "option::Option", "std::Option", "core::option::option::Option", "alloc::option::Option", "std::option::Option::Option", "self::Option", "crate::Option", "super::std::option::Option"][t.below(9)], inner(t)),
        13 => format!("Option<{}>::Item", inner(t)),
        14 => format!("<T>::Option<{}>", inner(t)),
        15 => format!("<Option<{}> as Tr>::Option<{}>", inner(t), inner(t)),
        16 => format!("Vec<{}>", inner(t)),
        17 => format!("({}, {})", inner(t), inner(t)),
        18 => format!("[{}; 3]", inner(t)),
        19 => format!("&'a mut {}", inner(t)),
        20 => format!("fn({}) -> {}", inner(t), inner(t)),
        21 => format!("Box<dyn Fn({}) -> {} + 'a>", inner(t), inner(t)),
        22 => format!("Result<{}, {}>", inner(t), inner(t)),
        _ => format!("*const {}", inner(t)),
    }
}
/// What setters take is read off the type as it is written.
pub fn c06_types(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    for (k, f) in sp.fields.iter_mut().enumerate() {
        f.name = format!("fld{}", k);
        if f.set.name.is_some() {
            f.set.name = Some(format!("set{}", k));
        }
        f.set.each = None;
        f.cty = None;
        f.cbuild = None;
    }
    let plain = emit::struct_src(&sp);
    let mut item: syn::ItemStruct = syn::parse_str(&plain).unwrap_or_else(|e| drive::infra(&format!("{}\n{}", e, plain)));
    let tys: Vec<String> = sp.fields.iter().map(|_| any_type(&mut t, 3)).collect();
    for (f, s) in item.fields.iter_mut().zip(&tys) {
        f.ty = syn::parse_str(s).unwrap_or_else(|e| drive::infra(&format!("{}: {}", e, s)));
    }
    let src = item.to_token_stream().to_string();
    let e = expand(&src)?;
    let mut n = 0;
    let r = (|| {
        e.accepted()?;
        let b = m::builder_name(&sp);
        let b = unraw(&b);
        for k in 0..sp.fields.len() {
            if !m::has_setter(&sp, k) {
                continue;
            }
            let whole: syn::Type = syn::parse_str(&tys[k]).unwrap();
            // the documented spellings of the prelude's Option
            let value = match &whole {
                syn::Type::Path(p) if p.qself.is_none() && m::strip_on(&sp, k) => {
                    let l = p.path.segments.last().unwrap();
                    let path: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    match (&path.join("::")[..], &l.arguments) {
                        ("Option" | "std::option::Option" | "core::option::Option", syn::PathArguments::AngleBracketed(a)) if a.args.len() == 1 => match &a.args[0] {
                            syn::GenericArgument::Type(t) => {
                                n += 1;
                                t.clone()
                            }
                            _ => whole.clone(),
                        },
                        _ => whole.clone(),
                    }
                }
                _ => whole.clone(),
            };
            let want = value.to_token_stream().to_string();
            let bf = e.the_struct(b)?.fields.iter().find(|x| x.ident.as_ref().map_or(false, |i| unraw_s(i) == unraw(&sp.fields[k].name))).ok_or("no builder field")?;
            match &bf.ty {
                syn::Type::Path(p) if path_args(&p.path).replace(' ', "") == whole.to_token_stream().to_string().replace(' ', "") => {}
                other => return Err(format!("builder field {} for the type {}: {}", k, tys[k], other.to_token_stream())),
            }
            let name = m::setter_name(&sp, k);
            let mut names = vec![(unraw(&name).to_string(), m::into(&sp, k), "Into")];
            if m::has_try(&sp, k) {
                names.push((format!("try_{}", unraw(&name)), true, "TryInto"));
            }
            for (name, conv, tr) in names {
                let f = e.method(b, &name)?;
                let ty = match f.sig.inputs.last() {
                    Some(syn::FnArg::Typed(x)) if f.sig.inputs.len() == 2 => &*x.ty,
                    _ => return Err(format!("{} does not take one value", name)),
                };
                let got = if conv {
                    // the argument of Into, wherever the bound is written
                    struct F<'a>(&'a str, Vec<String>);
                    impl<'a, 'b> syn::visit::Visit<'b> for F<'a> {
                        fn visit_trait_bound(&mut self, t: &'b syn::TraitBound) {
                            if t.path.segments.last().unwrap().ident == self.0 {
                                self.1.push(path_args(&t.path));
                            }
                        }
                    }
                    let mut v = F(tr, vec![]);
                    syn::visit::Visit::visit_signature(&mut v, &f.sig);
                    if v.1.len() != 1 {
                        return Err(format!("{} bounds by {} on {}", v.1.len(), tr, name));
                    }
                    v.1.remove(0)
                } else {
                    ty.to_token_stream().to_string()
                };
                if got.replace(' ', "") != want.replace(' ', "") {
                    return Err(format!("{} of a field of type {} takes {}, expected {}", name, tys[k], got, want));
                }
            }
        }
        Ok(())
    })();
    r.map_err(|x: String| format!("{}\n{}", x, src))?;
    Ok(Obs::new(&src, n > 0))
}

// ---- generics and derives ----

/// Parameters, as `kind name [type] [default]`, and bounds, one by one as `what: bound`.
fn generics_of(g: &syn::Generics, defaults: bool) -> (Vec<String>, std::collections::BTreeSet<String>) {
    let s = |t: &dyn ToTokens| t.to_token_stream().to_string();
    // parentheses around a bound say nothing
    let bound = |b: &syn::TypeParamBound| {
        let mut b = b.clone();
        if let syn::TypeParamBound::Trait(t) = &mut b {
            t.paren_token = None;
        }
        s(&b)
    };
    let mut preds = std::collections::BTreeSet::new();
    let mut ps = vec![];
    for p in &g.params {
        match p {
            syn::GenericParam::Lifetime(l) => {
                ps.push(format!("lifetime {}", l.lifetime));
                preds.extend(l.bounds.iter().map(|b| format!("{}: {}", s(&l.lifetime), s(b))));
            }
            syn::GenericParam::Type(t) => {
                ps.push(format!("type {} {}", t.ident, t.default.as_ref().filter(|_| defaults).map_or(String::new(), |d| s(d))));
                preds.extend(t.bounds.iter().map(|b| format!("{}: {}", s(&t.ident), bound(b))));
            }
            syn::GenericParam::Const(c) => {
                ps.push(format!("const {} {} {}", c.ident, s(&c.ty), c.default.as_ref().filter(|_| defaults).map_or(String::new(), |d| s(d))));
            }
        }
    }
    for w in g.where_clause.iter().flat_map(|w| &w.predicates) {
        match w {
            syn::WherePredicate::Lifetime(l) => preds.extend(l.bounds.iter().map(|b| format!("{}: {}", s(&l.lifetime), s(b)))),
            syn::WherePredicate::Type(t) => {
                let f = t.lifetimes.as_ref().map_or(String::new(), |l| s(l) + " ");
                preds.extend(t.bounds.iter().map(|b| format!("{}{}: {}", f, s(&t.bounded_ty), bound(b))));
            }
            _ => {}
        }
    }
    (ps, preds)
}
fn args_of(g: &syn::Generics) -> String {
    let v: Vec<String> = g
        .params
        .iter()
        .map(|p| match p {
            syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
            syn::GenericParam::Type(t) => t.ident.to_string(),
            syn::GenericParam::Const(c) => c.ident.to_string(),
        })
        .collect();
    v.join(", ")
}
fn path_args(p: &syn::Path) -> String {
    match &p.segments.last().unwrap().arguments {
        syn::PathArguments::AngleBracketed(a) => a.args.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>().join(", "),
        _ => String::new(),
    }
}
fn any_generics(t: &mut Tape) -> (String, String) {
    let lts: Vec<&str> = ["'a", "'b", "'long", "'_x"][..t.below(5)].to_vec();
    let n = t.below(5);
    let (mut tys, mut cs): (Vec<&str>, Vec<&str>) = (vec![], vec![]);
    let mut params = vec![];
    for (i, l) in lts.iter().enumerate() {
        let b = if i > 0 && t.chance(300) { if t.chance(500) && i > 1 { format!(": {} + {}", lts[0], lts[1]) } else { format!(": {}", lts[0]) } } else { String::new() };
        params.push(format!("{}{}", l, b));
    }
    let mut dflt = false;
    let mut rest = vec![];
    for i in 0..n {
        dflt |= t.chance(150);
        if t.chance(650) {
            let name = ["T", "U", "Item", "r#Raw", "Tä"][i];
            tys.push(name);
            rest.push((name, true, dflt));
        } else {
            let name = ["N", "M", "LEN", "K", "COUNT"][i];
            cs.push(name);
            rest.push((name, false, dflt));
        }
    }
    let lt = |t: &mut Tape| if lts.is_empty() { "'static" } else { lts[t.below(lts.len())] };
    let cn = |t: &mut Tape| if cs.is_empty() { "3" } else { cs[t.below(cs.len())] };
    let ty = |t: &mut Tape| if tys.is_empty() { "u8" } else { tys[t.below(tys.len())] };
    let bound = |t: &mut Tape| match t.below(18) {
        16 => "Tr<Self>".to_string(),
        17 => format!("Fn(&Self) -> Option<(Self, {})>", ty(t)),
        0 => "Clone".to_string(),
        1 => "::core::fmt::Debug".into(),
        2 => "Into<String>".into(),
        3 => "for<'x> Fn(&'x u8) -> &'x u8".into(),
        4 => format!("Iterator<Item = {}>", ty(t)),
        5 => lt(t).to_string(),
        6 => "(Send)".into(),
        7 => format!("Tr<{}, {}>", lt(t), cn(t)),
        8 => format!("FnMut({}) -> {}", ty(t), ty(t)),
        9 => "AsRef<[u8]>".into(),
        10 => "Default".into(),
        11 => format!("self::sub::Tr<[u8; {}]>", cn(t)),
        12 => "Copy".into(),
        13 => "Iterator<Item: Send>".into(),
        14 => "(for<'x> PartialEq<&'x str>)".into(),
        _ => format!("PartialEq<{}>", ty(t)),
    };
    let bounds = |t: &mut Tape, q: bool| {
        let mut v: Vec<String> = (0..t.below(4)).map(|_| bound(t)).collect();
        if q && t.chance(200) {
            v.insert(t.below(v.len() + 1), "?Sized".into());
        }
        v.join(" + ")
    };
    for (name, is_ty, d) in rest {
        if is_ty {
            let b = bounds(t, true);
            let colon = if b.is_empty() { if t.chance(60) { ":" } else { "" } } else { ": " };
            let d = if d { [" = u8", " = Vec<u8>", " = (u8, &'static str)", " = fn(u8) -> u8"][t.below(4)] } else { "" };
            params.push(format!("{}{}{}{}", name, colon, b, d));
        } else {
            let k = t.below(4);
            let d = if d { [" = 3", " = true", " = 'x'", " = { 1 + 2 }"][k] } else { "" };
            params.push(format!("const {}: {}{}", name, ["usize", "bool", "char", "i32"][k], d));
        }
    }
    let mut wh = vec![];
    for _ in 0..t.below(4) {
        wh.push(match t.below(9) {
            0 => format!("{}: {}", ty(t), bounds(t, false)),
            1 => format!("Vec<{}>: ::core::fmt::Debug", ty(t)),
            2 => format!("for<'x> &'x {}: IntoIterator", ty(t)),
            3 => format!("{}: {}", lt(t), lt(t)),
            4 => format!("[u8; {}]: Default", cn(t)),
            5 => format!("<{} as Iterator>::Item: {}", ty(t), bounds(t, false)),
            6 => format!("{}::Item: Copy", ty(t)),
            7 => format!("({}, u8): {}", ty(t), bounds(t, false)),
            _ => format!("u8: {}", bounds(t, false)),
        });
    }
    let comma = |t: &mut Tape, v: &[String]| if !v.is_empty() && t.chance(200) { "," } else { "" };
    let c = comma(t, &params);
    let a = if params.is_empty() { if t.chance(100) { "<>".into() } else { String::new() } } else { format!("<{}{}>", params.join(", "), c) };
    let c = comma(t, &wh);
    let w = if wh.is_empty() { if t.chance(60) { " where".into() } else { String::new() } } else { format!(" where {}{}", wh.join(", "), c) };
    (a, w)
}
/// The builder has the struct's generics and the derives that were asked for.
pub fn c13_forward(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    sp.gens = Default::default();
    let pool = ["Debug", "PartialEq", "Eq", "::core::hash::Hash", "PartialOrd", "serde::Serialize", "r#Type", "std::cmp::Ord", "Builder2", "a::b::C"];
    let mut want = vec![];
    for _ in 0..t.below(5) {
        let d = pool[t.below(pool.len())];
        if !want.contains(&d) {
            want.push(d);
        }
    }
    if !m::is_clone(&sp) && t.chance(300) {
        want.insert(t.below(want.len() + 1), ["Clone", "::core::clone::Clone"][t.below(2)]);
    }
    sp.derives = want.clone();
    let (a, w) = any_generics(&mut t);
    let plain = emit::struct_src(&sp);
    let head = format!("struct {} {{", sp.name);
    if !plain.contains(&head) {
        return Ok(Obs::new(&plain, false));
    }
    let src = plain.replacen(&head, &format!("struct {}{}{} {{", sp.name, a, w), 1);
    let item: syn::ItemStruct = syn::parse_str(&src).unwrap_or_else(|e| drive::infra(&format!("{}\n{}", e, src)));
    let e = expand(&src)?;
    let r = (|| {
        e.accepted()?;
        let b = m::builder_name(&sp);
        let b = unraw(&b);
        let st = e.the_struct(b)?;
        // in the builder, `Self` would be the builder
        let this = if args_of(&item.generics).is_empty() { sp.name.clone() } else { format!("{}<{}>", sp.name, args_of(&item.generics)) };
        let norm = |x: (Vec<String>, std::collections::BTreeSet<String>)| -> (Vec<String>, std::collections::BTreeSet<String>) {
            (x.0, x.1.iter().map(|s| s.replace("Self", &this).replace(' ', "").replace(",>", ">")).collect())
        };
        let own = norm(generics_of(&item.generics, true));
        let got = generics_of(&st.generics, true);
        if !sp.name.contains("Self") && got.1.iter().any(|p| p.contains("Self")) {
            return Err("Self in the bounds of the builder".into());
        }
        let got = norm(got);
        if own != got {
            return Err(format!("generics of the builder\nexpected {:?}\nfound    {:?}", own, got));
        }
        let own = norm(generics_of(&item.generics, false));
        let args = args_of(&item.generics);
        for im in e.file.items.iter().filter_map(|i| if let syn::Item::Impl(s) = i { Some(s) } else { None }) {
            if ty_name(&im.self_ty).as_deref() != Some(b) {
                if !im.generics.params.is_empty() {
                    return Err("an impl for another type than the builder is generic".into());
                }
                continue;
            }
            let what = im.trait_.as_ref().map_or("the impl".to_string(), |x| x.1.to_token_stream().to_string());
            let (ps, preds) = norm(generics_of(&im.generics, false));
            if ps != own.0 {
                return Err(format!("parameters of {}\nexpected {:?}\nfound    {:?}", what, own.0, ps));
            }
            if let Some(p) = own.1.iter().find(|p| !preds.contains(*p)) {
                return Err(format!("{} lacks the bound {}", what, p));
            }
            for p in preds.iter().filter(|p| !own.1.contains(*p)) {
                let clone = p.rsplit(':').next().map_or(false, |x| x.trim() == "Clone") && item.generics.type_params().any(|q| p.starts_with(&format!("{}:", q.ident)));
                if !(clone && m::is_clone(&sp)) {
                    return Err(format!("{} has a bound of its own: {}", what, p));
                }
            }
            if let syn::Type::Path(p) = &*im.self_ty {
                if path_args(&p.path) != args {
                    return Err(format!("arguments of {}: expected {}, found {}", what, args, path_args(&p.path)));
                }
            }
        }
        if e.enums().iter().any(|x| !x.generics.params.is_empty()) {
            return Err("the error type is generic".into());
        }
        let mut got: Vec<String> = vec![];
        for a in st.attrs.iter().filter(|a| a.path().is_ident("derive")) {
            let l = a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated).map_err(|e| format!("derive: {}", e))?;
            got.extend(l.iter().map(|p| p.to_token_stream().to_string().replace(' ', "")));
        }
        let is_clone = |s: &String| s.rsplit(':').next() == Some("Clone");
        let mut exp: Vec<String> = want.iter().map(|s| s.to_string()).collect();
        // however it is spelt
        let n = got.iter().filter(|s| is_clone(s)).count();
        let implemented = e.file.items.iter().any(|i| matches!(i, syn::Item::Impl(s) if ty_name(&s.self_ty).as_deref() == Some(b) && s.trait_.as_ref().map_or(false, |x| x.1.segments.last().unwrap().ident == "Clone")));
        if n + implemented as usize != (m::is_clone(&sp) || exp.iter().any(is_clone)) as usize {
            return Err(format!("Clone is derived {} times; patterns ask for it: {}", n, m::is_clone(&sp)));
        }
        exp.retain(|s| !is_clone(s));
        got.retain(|s| !is_clone(s));
        exp.sort();
        got.sort();
        if exp != got {
            return Err(format!("derives: expected {:?}, found {:?}", exp, got));
        }
        Ok(())
    })();
    r.map_err(|x: String| format!("{}\n{}", x, src))?;
    Ok(Obs::new(&src, !a.is_empty() || !want.is_empty()))
}

// ---- documentation ----

fn docs_of(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("doc"))
        .filter_map(|a| match &a.meta {
            syn::Meta::NameValue(v) => Some(match &v.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
                e => e.to_token_stream().to_string(),
            }),
            _ => None,
        })
        .collect()
}
/// Every generated item that may be visible is documented; what belongs to a field carries its documentation.
pub fn c22_docs(i: &Input) -> Result<Obs, String> {
    let mut sp = spec_of(i);
    let mut t = Tape::new(&i.ex);
    let mut own = vec![];
    for (k, f) in sp.fields.iter_mut().enumerate() {
        f.name = format!("fld{}", k);
        if f.set.name.is_some() {
            f.set.name = Some(format!("set{}", k));
        }
        let n = 1 + t.below(3);
        let (mut src, mut out) = (vec![], vec![]);
        for j in 0..n {
            let x = format!("Text {} of {}.", j, k);
            match t.below(6) {
                0 | 1 => {
                    src.push(format!("/// {}", x));
                    out.push(format!(" {}", x));
                }
                2 => {
                    src.push(format!("#[doc = \"{}\"]", x));
                    out.push(x);
                }
                3 => {
                    src.push(format!("/** {} */", x));
                    out.push(format!(" {} ", x));
                }
                4 => {
                    src.push(format!("#[doc = r#\"a \"{}\" b\"#]", x));
                    out.push(format!("a \"{}\" b", x));
                }
                _ => {
                    src.push(format!("/// {}", x));
                    src.push("#[doc(alias = \"z\")]".into());
                    src.push("///".into());
                    out.push(format!(" {}", x));
                    out.push("".into());
                }
            }
        }
        f.attrs = src;
        own.push(out);
    }
    sp.attrs = vec!["/// Text of the struct.".into()];
    let src = emit::struct_src(&sp);
    let e = expand(&src)?;
    let r = (|| {
        e.accepted()?;
        let bn = m::builder_name(&sp);
        let b = unraw(&bn);
        let bare = |what: &str, a: &[syn::Attribute]| if docs_of(a).iter().any(|d| !d.trim().is_empty()) { Ok(()) } else { Err(format!("{} has no documentation", what)) };
        let public = |v: &syn::Visibility| !matches!(v, syn::Visibility::Inherited);
        for s in e.structs() {
            if public(&s.vis) {
                bare(&format!("struct {}", s.ident), &s.attrs)?;
            }
        }
        for s in e.enums() {
            if public(&s.vis) {
                bare(&format!("enum {}", s.ident), &s.attrs)?;
                for v in &s.variants {
                    bare(&format!("variant {}", v.ident), &v.attrs)?;
                }
            }
        }
        for f in e.methods(b) {
            if public(&f.vis) {
                bare(&format!("method {}", f.sig.ident), &f.attrs)?;
            }
        }
        let carries = |what: &str, k: usize, a: &[syn::Attribute]| {
            let d = docs_of(a);
            let mut at = d.iter();
            if own[k].iter().all(|x| at.any(|y| y == x)) { Ok(()) } else { Err(format!("{} does not carry the documentation of field fld{}: {:?}", what, k, d)) }
        };
        let st = e.the_struct(b)?;
        for f in &st.fields {
            if public(&f.vis) {
                bare(&format!("builder field {}", f.ident.as_ref().unwrap()), &f.attrs)?;
            }
        }
        for k in 0..sp.fields.len() {
            let f = &sp.fields[k];
            if m::hidden(&sp, k) {
                continue;
            }
            let bf = st.fields.iter().find(|x| x.ident.as_ref().map_or(false, |i| unraw_s(i) == unraw(&f.name))).ok_or("no builder field")?;
            carries("the builder field", k, &bf.attrs)?;
            if m::has_setter(&sp, k) {
                let n = unraw(&m::setter_name(&sp, k)).to_string();
                carries("the setter", k, &e.method(b, &n)?.attrs)?;
                if m::has_try(&sp, k) {
                    carries("the fallible setter", k, &e.method(b, &m::try_name(&sp, k))?.attrs)?;
                }
                if let Some(x) = &f.set.each {
                    carries("the item setter", k, &e.method(b, unraw(&x.name))?.attrs)?;
                }
            }
        }
        Ok(())
    })();
    r.map_err(|x: String| format!("{}\n{}\nexpansion: {}", x, src, e.text))?;
    Ok(Obs::new(&src, !sp.fields.is_empty()))
}
