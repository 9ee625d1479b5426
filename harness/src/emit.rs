//! Rust source of a generated module: the struct with its options, the user code the options
//! refer to, and an interpreter for operation histories.
use crate::model as m;
use crate::spec::*;
use std::fmt::Write;

/// deterministic choices of spelling and order; 0 gives the plain layout
pub struct Lay(u32);
impl Lay {
    pub fn new(x: u16) -> Self {
        Lay(x as u32)
    }
    pub fn n(&mut self, k: u32) -> u32 {
        if self.0 == 0 {
            return 0;
        }
        self.0 = (self.0 * 1103 + 12345) % 65521;
        if self.0 == 0 {
            self.0 = 1;
        }
        (self.0 >> 3) % k
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = if self.0 == 0 { i } else { self.n(i as u32 + 1) as usize };
            v.swap(i, j);
        }
    }
}

pub fn flag(name: &str, v: Option<bool>, l: &mut Lay) -> Option<String> {
    match v {
        None => None,
        Some(true) => Some(if l.n(2) == 0 { name.to_string() } else { format!("{} = true", name) }),
        Some(false) => Some(format!("{} = false", name)),
    }
}
pub fn vis_items(v: &VisOpt) -> Vec<String> {
    match v {
        VisOpt::None => vec![],
        VisOpt::Public => vec!["public".into()],
        VisOpt::Private => vec!["private".into()],
        VisOpt::Vis(s) => vec![format!("vis = \"{}\"", s)],
    }
}
pub fn quote_str(s: &str) -> String {
    // Raw or plain: the source is still edited as text (placeholders, paths),
    // so what the code says has to stay readable here.
    spell_str(s, [0, 3, 3][crate::drive::hash64(&s) as usize % 3])
}
/// Ways to write a string literal.
pub fn spell_str(s: &str, how: usize) -> String {
    match how {
        0 => {
            let mut h = "#".repeat(s.contains('"') as usize);
            while s.contains(&format!("\"{}", h)) && !h.is_empty() {
                h.push('#');
            }
            format!("r{1}\"{0}\"{1}", s, h)
        }
        1 => {
            let mut o = String::from("\"");
            for (i, c) in s.chars().enumerate() {
                match i % 3 {
                    0 => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
                    1 if (c as u32) < 128 => o.push_str(&format!("\\x{:02x}", c as u32)),
                    _ => o.extend(c.escape_default()),
                }
            }
            o.push('"');
            o
        }
        // the line break and what follows it are no part of the string
        2 if !s.starts_with(char::is_whitespace) => format!("\"\\\n   {}", &format!("{:?}", s)[1..]),
        _ => format!("{:?}", s),
    }
}
/// Writes the values of name-value options in other ways.
pub fn respell(src: &str, pick: &mut dyn FnMut() -> usize) -> String {
    let mut o = String::new();
    let bs = src.as_bytes();
    let (mut i, mut from) = (0, 0);
    while i < bs.len() {
        let ident_before = i > 0 && (bs[i - 1].is_ascii_alphanumeric() || bs[i - 1] == b'_');
        if bs[i] == b'"' {
            let mut end = i + 1;
            while bs[end] != b'"' {
                end += if bs[end] == b'\\' { 2 } else { 1 };
            }
            if src[..i].ends_with("= ") {
                if let Ok(l) = syn::parse_str::<syn::LitStr>(&src[i..=end]) {
                    o.push_str(&src[from..i]);
                    o.push_str(&spell_str(&l.value(), pick() % 5));
                    from = end + 1;
                }
            }
            i = end + 1;
        } else if bs[i] == b'r' && !ident_before && src[i + 1..].trim_start_matches('#').starts_with('"') {
            let h = src[i + 1..].len() - src[i + 1..].trim_start_matches('#').len();
            let close = format!("\"{}", "#".repeat(h));
            let start = i + 2 + h;
            i = start + src[start..].find(&close).expect("raw string ends") + close.len();
        } else if src[i..].starts_with("'\"'") {
            i += 3;
        } else {
            i += 1;
            while !src.is_char_boundary(i) {
                i += 1;
            }
        }
    }
    o.push_str(&src[from..]);
    o
}
fn list(name: &str, mut items: Vec<String>, inj: &[(String, String)], l: &mut Lay) -> Option<String> {
    items.extend(inj.iter().filter(|x| x.0 == name).map(|x| x.1.clone()));
    if items.is_empty() {
        return None;
    }
    l.shuffle(&mut items);
    Some(format!("{}({})", name, items.join(", ")))
}
/// Distributes the items over one or more attributes.
pub fn attrs(path: &str, mut items: Vec<String>, l: &mut Lay) -> String {
    l.shuffle(&mut items);
    let mut out = String::new();
    let mut cur: Vec<String> = vec![];
    for it in items {
        cur.push(it);
        if l.n(4) == 3 {
            let _ = write!(out, "#[{}({})]\n", path, cur.join(", "));
            cur.clear();
        }
    }
    if !cur.is_empty() {
        let comma = if l.n(3) == 2 { "," } else { "" };
        let _ = write!(out, "#[{}({}{})]\n", path, cur.join(", "), comma);
    }
    out
}

pub fn err_expr(sp: &Spec, i: u32) -> String {
    match sp.err {
        ErrK::Gen | ErrK::GenTrue => format!("::core::convert::Into::into(::rt::st(\"q{}\"))", i),
        ErrK::NoVal => format!("::core::convert::Into::into(::rt::derive_builder::UninitializedFieldError::new(::rt::qname({})))", i),
        _ => format!("::core::convert::Into::into(::rt::QErr({}))", i),
    }
}
pub fn dq(sp: &Spec) -> &'static str {
    match sp.err {
        ErrK::Gen | ErrK::GenTrue => "dq_s",
        ErrK::NoVal => "dq_u",
        _ => "dq_c",
    }
}
fn peek(sp: &Spec, g: usize) -> String {
    let f = &sp.fields[g];
    format!("::rt::{}(&self.{})", if f.cty.is_some() { "sh" } else { "so" }, f.name)
}
/// Code of the default of field i: (statements, is it a single expression)
pub fn def_code(sp: &Spec, i: usize, k: &DKind) -> (String, bool) {
    let n = m::dn(i);
    match k {
        DKind::Word => unreachable!(),
        DKind::Call => (format!("::rt::d({}, {})", i, n), true),
        DKind::Q => (format!("::rt::{}({}, {})?", dq(sp), i, n), true),
        DKind::Ret => (
            format!("if ::rt::fail({0}) {{ ::rt::ev(\"d{0}\"); return ::core::result::Result::Err({1}); }} ::rt::d({0}, {2})", i, err_expr(sp, i as u32), n),
            false,
        ),
        DKind::Stmts => (format!("let x = ::rt::d({}, {}); let y = x; y", i, n), false),
        DKind::If => (format!("if true {{ ::rt::d({}, {}) }} else {{ unreachable!() }}", i, n), true),
        DKind::SelfRead(g) => (format!("::rt::ds({}, {})", i, peek(sp, *g)), true),
        DKind::SelfCall => (format!("self.helper_{}()", i), true),
        DKind::Lit(s, _) => (s.clone(), true),
    }
}
pub fn cbuild_code(sp: &Spec, i: usize, k: &CBuild) -> (String, bool) {
    let n = m::dn(i);
    match k {
        CBuild::Own => (format!("::rt::ds({}, {})", i, peek(sp, i)), true),
        CBuild::Other(g) => (format!("::rt::ds({}, {})", i, peek(sp, *g)), true),
        CBuild::Q => (format!("::rt::{}({}, {})?", dq(sp), i, n), true),
        CBuild::Ret => def_code(sp, i, &DKind::Ret),
    }
}
/// Writes code as an option value.
fn code_value((code, single): (String, bool), quoted: bool) -> String {
    if quoted {
        quote_str(&code)
    } else if single {
        code
    } else {
        format!("{{ {} }}", code)
    }
}

pub fn struct_items(sp: &Spec, l: &mut Lay) -> Vec<String> {
    let mut v = vec![];
    if let Some(p) = sp.pat {
        v.push(format!("pattern = \"{}\"", p.text()));
    }
    if let Some(n) = &sp.bname {
        v.push(format!("name = \"{}\"", n));
    }
    v.extend(vis_items(&sp.bvis));
    let mut s = vec![];
    if let Some(p) = &sp.prefix {
        s.push(format!("prefix = \"{}\"", p));
    }
    s.extend(flag("into", sp.into, l));
    s.extend(flag("strip_option", sp.strip, l));
    s.extend(flag("skip", sp.skip, l));
    v.extend(list("setter", s, &sp.inj, l));
    if sp.try_setter {
        v.push("try_setter".into());
    }
    if let Some(d) = &sp.def {
        v.push(match &d.kind {
            DKind::Word => "default".to_string(),
            k => {
                let c = match k {
                    DKind::Call => ("mk_s()".to_string(), true),
                    DKind::Q => ("mk_sq()?".to_string(), true),
                    DKind::Stmts => ("let x = mk_s(); x".to_string(), false),
                    _ => (format!("if ::rt::fail(62) {{ ::rt::ev(\"sd\"); return ::core::result::Result::Err({}); }} mk_s()", err_expr(sp, 62)), false),
                };
                format!("default = {}", code_value(c, d.quoted))
            }
        });
    }
    let mut b = vec![];
    if let Some(n) = &sp.build_name {
        b.push(format!("name = \"{}\"", n));
    }
    if sp.build_skip {
        b.extend(flag("skip", Some(true), l));
    }
    b.extend(vis_items(&sp.build_vis));
    if let Some(k) = &sp.validate {
        let p = match k {
            ValK::SelfFn => "Self::user_validate".to_string(),
            ValK::BuilderFn => format!("{}::user_validate", m::builder_name(sp)),
            ValK::Free | ValK::FreeOwnErr => "free_validate".to_string(),
            ValK::ModFree => if sp.host.is_some() { "self::i_::sub_::free_validate" } else { "self::sub_::free_validate" }.to_string(),
        };
        b.push(format!("validate = \"{}\"", p));
    }
    match sp.err {
        ErrK::Gen => {}
        ErrK::GenTrue => b.push("error(validation_error = true)".into()),
        ErrK::NoVal => b.push("error(validation_error = false)".into()),
        _ => b.push(format!("error = \"{}\"", err_ty(sp))),
    }
    v.extend(list("build_fn", b, &sp.inj, l));
    if !sp.derives.is_empty() {
        v.push(format!("derive({})", sp.derives.join(", ")));
    }
    if sp.custom_ctor {
        v.push("custom_constructor".into());
    }
    if let Some(n) = &sp.create_empty {
        v.push(format!("create_empty = \"{}\"", n));
    }
    v.extend(list("field", vis_items(&sp.field_vis), &sp.inj, l));
    if sp.no_std {
        v.push("no_std".into());
    }
    if let Some(c) = &sp.crate_root {
        v.push(format!("crate = {}", c));
    }
    v.extend(sp.inj.iter().filter(|x| x.0.is_empty()).map(|x| x.1.clone()));
    v
}

/// `lt` is how references in types are written ("'a" or "'static")
pub fn field_items(sp: &Spec, i: usize, lt: &str, l: &mut Lay) -> Vec<String> {
    let f = &sp.fields[i];
    let mut v = vec![];
    if let Some(p) = f.pat {
        v.push(format!("pattern = \"{}\"", p.text()));
    }
    v.extend(vis_items(&f.setter_vis));
    let s = &f.set;
    if s.word && !f.inj.iter().any(|x| x.0 == "setter") {
        v.push("setter".into());
    } else {
        let mut it = vec![];
        if let Some(p) = &s.prefix {
            it.push(format!("prefix = \"{}\"", p));
        }
        if let Some(p) = &s.name {
            it.push(format!("name = \"{}\"", p));
        }
        it.extend(flag("into", s.into, l));
        it.extend(flag("strip_option", s.strip, l));
        it.extend(flag("skip", s.skip, l));
        it.extend(flag("custom", s.custom, l));
        if let Some(e) = &s.each {
            if e.short {
                it.push(format!("each = \"{}\"", e.name));
            } else {
                let mut x = vec![format!("name = \"{}\"", e.name)];
                x.extend(flag("into", e.into, l));
                l.shuffle(&mut x);
                it.push(format!("each({})", x.join(", ")));
            }
        }
        v.extend(list("setter", it, &f.inj, l));
    }
    if let Some(d) = &f.def {
        v.push(match &d.kind {
            DKind::Word => "default".to_string(),
            k => format!("default = {}", code_value(def_code(sp, i, k), d.quoted)),
        });
    }
    if f.try_setter {
        v.push("try_setter".into());
    }
    let mut x = vis_items(&f.field_vis);
    if let Some(t) = &f.cty {
        x.push(format!("ty = {}", quote_str(&t.text(lt, false))));
    }
    if let Some((k, q)) = &f.cbuild {
        x.push(format!("build = {}", code_value(cbuild_code(sp, i, k), *q)));
    }
    v.extend(list("field", x, &f.inj, l));
    v.extend(f.inj.iter().filter(|x| x.0.is_empty()).map(|x| x.1.clone()));
    v
}

/// Merges the lines of the `builder` attributes with further attributes, each kept in its order.
fn merged(own: &str, more: &[String], l: &mut Lay, pad: &str) -> String {
    let mut a: Vec<&str> = own.lines().collect();
    let mut b: Vec<&str> = more.iter().map(|x| x.as_str()).collect();
    let mut o = String::new();
    while !a.is_empty() || !b.is_empty() {
        let from_b = a.is_empty() || (!b.is_empty() && l.n(2) == 1);
        let x = if from_b { b.remove(0) } else { a.remove(0) };
        let _ = write!(o, "{}{}\n", pad, x);
    }
    o
}

pub fn err_ty(sp: &Spec) -> String {
    match sp.err {
        ErrK::Gen | ErrK::GenTrue | ErrK::NoVal => m::error_name(sp),
        ErrK::Custom => "::rt::CErr".into(),
        ErrK::Generic => "::rt::GErr<u32>".into(),
        ErrK::Plain => "::rt::PErr".into(),
    }
}

pub struct G {
    /// `<'a, T: Bound = D, const N: usize>` for the struct
    pub decl: String,
    /// the same without defaults, for impls and functions
    pub imp: String,
    pub args: String,
    pub inst: String,
    pub wher: String,
    /// for the struct
    pub swher: String,
    /// for functions, where there is no Self
    pub fwher: String,
}
pub fn generics(sp: &Spec) -> G {
    let g = &sp.gens;
    let (mut d, mut i, mut a, mut n, mut w) = (vec![], vec![], vec![], vec![], vec![]);
    if g.lt {
        d.push("'a".to_string());
        i.push("'a".to_string());
        a.push("'a".to_string());
        n.push("'static".to_string());
        if g.lt2 {
            d.push("'b".to_string());
            i.push("'b".to_string());
            a.push("'b".to_string());
            n.push("'static".to_string());
        }
    }
    for q in &g.tys {
        let b = q.bounds.join(" + ");
        let inl = if q.where_bound || b.is_empty() { q.name.clone() } else { format!("{}: {}", q.name, b) };
        if q.where_bound && !b.is_empty() {
            w.push(format!("{}: {}", q.name, b));
        }
        d.push(if q.dflt { format!("{} = {}", inl, q.inst.text("'static", true)) } else { inl.clone() });
        i.push(inl);
        a.push(q.name.clone());
        n.push(q.inst.text("'static", true));
    }
    if g.c {
        d.push("const C: char".into());
        i.push("const C: char".into());
        a.push("C".into());
        n.push("'x'".into());
    }
    w.extend(g.wher.iter().cloned());
    if g.n {
        d.push(if g.ndef { "const N: usize = 2".into() } else { "const N: usize".to_string() });
        i.push("const N: usize".into());
        a.push("N".into());
        n.push("2".into());
    }
    let wrap = |v: Vec<String>| if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) };
    G {
        decl: wrap(d),
        imp: wrap(i),
        args: wrap(a),
        inst: wrap(n),
        fwher: {
            let w: Vec<String> = w.iter().filter(|x| !x.starts_with("Self")).cloned().collect();
            if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) }
        },
        swher: if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) },
        wher: {
            let w: Vec<String> = w.iter().filter(|x| !x.contains("Own__")).cloned().collect();
            if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) }
        },
    }
}

/// Parts of a struct that a macro gets as arguments.
struct Mac {
    on: bool,
    bits: u64,
    n: u32,
    args: Vec<(&'static str, String)>,
}
impl Mac {
    fn pick(&mut self) -> bool {
        self.n += 1;
        self.on && self.bits >> (self.n % 64) & 1 == 1
    }
    fn arg(&mut self, frag: &'static str, v: String) -> String {
        // any argument may also be declared as tokens
        let tts = frag == "tts" || self.bits >> ((self.n * 11 + 5) % 64) & 3 == 3;
        self.args.push((if tts { "tts" } else { frag }, v));
        if !tts { format!("$p{}", self.args.len()) } else { format!("$($p{})*", self.args.len()) }
    }
    fn some(&mut self, frag: &'static str, v: &str) -> String {
        if self.pick() { self.arg(frag, v.to_string()) } else { v.to_string() }
    }
    /// Values of options: literals, and code that does not mention `self`.
    fn attr(&mut self, s: String) -> String {
        if !self.on {
            return s;
        }
        let mut out = String::new();
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i] == '"' {
                let mut j = i + 1;
                while b[j] != '"' {
                    j += if b[j] == '\\' { 2 } else { 1 };
                }
                let lit: String = b[i..=j].iter().collect();
                let value = out.ends_with("= ");
                // code in a literal fragment is a string, not code
                let code = out.ends_with("default = ") || out.ends_with("build = ");
                // `self` is resolved where it is written
                let value = value && !(code && lit.contains("self"));
                let r = if value { self.some(if code { "tts" } else { "literal" }, &lit) } else { lit };
                out.push_str(&r);
                i = j + 1;
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        out
    }
    /// Unquoted code.
    fn code(&mut self, s: String, code: &str) -> String {
        let at = format!("= {}", code);
        if self.on && !code.starts_with('"') && !code.contains("self") && s.matches(&at).count() == 1 && self.pick() {
            let a = self.arg(if code.starts_with('{') { "block" } else { "expr" }, code.to_string());
            s.replacen(&at, &format!("= {}", a), 1)
        } else {
            s
        }
    }
    /// What is written in the struct's place, and the macro if it belongs elsewhere.
    fn wrap(self, body: String, up: bool) -> (String, String) {
        if !self.on {
            return (body, String::new());
        }
        let decl: Vec<String> = self.args.iter().enumerate().map(|(i, (f, _))| if *f == "tts" { format!("[$($p{}:tt)*]", i + 1) } else { format!("[$p{}:{},]", i + 1, f) }).collect();
        let args: Vec<String> = self.args.iter().map(|(f, v)| if *f == "tts" { format!("[{}]", v) } else { format!("[{},]", v) }).collect();
        let (decl, args) = (decl.join(" "), args.join(" "));
        if up {
            let n = crate::drive::hash64(&(&decl, &body));
            (format!("::up::make_{:x}! {{ {} }}\n", n, args), format!("#[macro_export] macro_rules! make_{:x} {{ ({}) => {{\n{}}} }}\n", n, decl, body))
        } else {
            (format!("macro_rules! make_ {{ ({}) => {{\n{}}} }}\nmake_! {{ {} }}\n", decl, body, args), String::new())
        }
    }
}

pub fn struct_src(sp: &Spec) -> String {
    struct_parts(sp).0
}
pub fn struct_parts(sp: &Spec) -> (String, String) {
    let g = generics(sp);
    let mut mac = Mac { on: sp.mac.is_some(), bits: sp.mac.unwrap_or(0), n: 0, args: vec![] };
    let lt = if sp.gens.lt { "'a" } else { "'static" };
    let mut l = Lay::new(sp.lay);
    let mut o = String::new();
    let items = struct_items(sp, &mut l);
    let own = attrs("builder", items, &mut l);
    let dp = if sp.up { "$crate::derive_builder::Builder" } else { sp.host.as_ref().map_or("::derive_builder::Builder", |h| &h.derive) };
    set_std(sp.host.as_ref().map_or("", |h| h.std));
    let own = mac.attr(own);
    let _ = write!(o, "#[derive({})]\n{}", dp, merged(&own, &sp.attrs, &mut l, ""));
    let vis = mac.some("vis", sp.vis.trim_end());
    let name = mac.some("ident", &sp.name);
    let _ = write!(o, "{}{}struct {}{}{} {{\n", vis, if vis.is_empty() { "" } else { " " }, name, g.decl, g.swher);
    for i in 0..sp.fields.len() {
        let f = &sp.fields[i];
        let mut l = Lay::new(f.lay);
        let items = field_items(sp, i, lt, &mut l);
        let mut own = no_self(sp, attrs("builder", items, &mut l));
        if let Some(d) = f.def.as_ref().filter(|d| d.kind != DKind::Word && !d.quoted) {
            own = mac.code(own, &no_self(sp, code_value(def_code(sp, i, &d.kind), false)));
        }
        if let Some((k, false)) = &f.cbuild {
            own = mac.code(own, &no_self(sp, code_value(cbuild_code(sp, i, k), false)));
        }
        own = mac.attr(own);
        o.push_str(&merged(&own, &f.attrs, &mut l, "    "));
        let (vis, name, ty) = (mac.some("vis", f.vis.trim_end()), mac.some("ident", &f.name), mac.some("ty", &f.ty.text(lt, false)));
        let _ = write!(o, "    {}{}{}: {},\n", vis, if vis.is_empty() { "" } else { " " }, name, ty);
    }
    o.push_str("}\n");
    set_std("");
    let (s, up) = mac.wrap(o, sp.up);
    let f = |s: String| s.replace("Self__", "Self").replace("Own__", &format!("{}{}", sp.name, g.args));
    (f(s), f(up))
}

/// Writes out the struct's type for the `Self` of its field types.
fn no_self(sp: &Spec, s: String) -> String {
    if !s.contains("Self__") && !s.contains("SelfI__") {
        return s;
    }
    let g = generics(sp);
    s.replace("Self__", &format!("{}{}", sp.name, g.args)).replace("SelfI__", &format!("{}{}", sp.name, g.inst))
}

/// Functions the options refer to.
pub fn user_code(sp: &Spec) -> String {
    let k = if sp.fields.iter().any(|f| f.ty.text("", false).contains("Self__::SZ")) {
        format!("#[allow(dead_code)] impl {} {{ pub(crate) const SZ: usize = 2; }}\n", sp.name)
    } else {
        String::new()
    };
    no_self(sp, k + &user_code_(sp))
}
fn user_code_(sp: &Spec) -> String {
    let g = generics(sp);
    let b = m::builder_name(sp);
    let mut o = String::new();
    if let Some(k) = &sp.validate {
        let gen_err = matches!(sp.err, ErrK::Gen | ErrK::GenTrue);
        let (ety, e) = match (k, gen_err) {
            (ValK::FreeOwnErr, true) => (m::error_name(sp), format!("{}::ValidationError(::rt::vmsg())", m::error_name(sp))),
            (_, true) => ("String".to_string(), "::rt::vmsg()".to_string()),
            (ValK::FreeOwnErr, false) => (err_ty(sp), "::rt::VErr(::rt::vmsg()).into()".to_string()),
            _ => ("::rt::VErr".to_string(), "::rt::VErr(::rt::vmsg())".to_string()),
        };
        let parts: Vec<String> = (0..sp.fields.len())
            .filter(|&i| !m::hidden(sp, i))
            .map(|i| {
                let f = &sp.fields[i];
                if f.cty.is_some() {
                    format!("::rt::sh(&b.{})", f.name)
                } else if f.ty.has_param() {
                    format!("(if b.{}.is_some() {{ \"S\" }} else {{ \"N\" }}).to_string()", f.name)
                } else {
                    format!("::rt::so(&b.{})", f.name)
                }
            })
            .collect();
        let body = format!(
            "let p: Vec<String> = vec![{}]; ::rt::ev(format!(\"v{{{{{{}}}}}}\", p.join(\";\"))); if ::rt::fail(63) {{ return Err({}); }} Ok(())",
            parts.join(", "),
            e
        );
        match k {
            ValK::SelfFn | ValK::BuilderFn => {
                let _ = write!(
                    o,
                    "impl{} {}{}{} {{ pub(crate) fn user_validate(&self) -> Result<(), {}> {{ let b = self; {} }} }}\n",
                    g.imp, b, g.args, g.wher, ety, body
                );
            }
            ValK::Free | ValK::FreeOwnErr => {
                let _ = write!(
                    o,
                    "pub(crate) fn free_validate{}(b: &{}{}) -> Result<(), {}>{} {{ {} }}\n",
                    g.imp, b, g.args, ety, g.fwher, body
                );
            }
            ValK::ModFree => {
                let _ = write!(
                    o,
                    "pub(crate) mod sub_ {{ #[allow(unused_imports)] use super::*; pub(crate) fn free_validate{}(b: &{}{}) -> Result<(), {}>{} {{ {} }} }}\n",
                    g.imp, b, g.args, ety, g.fwher, body
                );
            }
        }
    }
    if let Some(d) = &sp.def {
        let vals: Vec<String> =
            (0..sp.fields.len()).map(|i| format!("{}: ::rt::mk({})", sp.fields[i].name, m::sdn(i))).collect();
        let body = format!("::rt::ev(\"sd\"); {} {{ {} }}", sp.name, vals.join(", "));
        let (n, ga) = (&sp.name, &g.args);
        let _ = match d.kind {
            DKind::Word => write!(
                o,
                "impl{} ::core::default::Default for {}{}{} {{ fn default() -> Self {{ {} }} }}\n",
                g.imp, n, ga, g.wher, body
            ),
            DKind::Q => {
                let (qt, qe) = match sp.err {
                    ErrK::Gen | ErrK::GenTrue => ("String", "\"q62\".to_string()"),
                    ErrK::NoVal => ("::rt::derive_builder::UninitializedFieldError", "::rt::qname(62).into()"),
                    _ => ("::rt::QErr", "::rt::QErr(62)"),
                };
                write!(
                    o,
                    "pub(crate) fn mk_sq{}() -> Result<{}{}, {}>{} {{ if ::rt::fail(62) {{ ::rt::ev(\"sd\"); return Err({}); }} Ok({{ {} }}) }}\n",
                    g.imp, n, ga, qt, g.fwher, qe, body
                )
            }
            _ => write!(o, "pub(crate) fn mk_s{}() -> {}{}{} {{ {} }}\n", g.imp, n, ga, g.fwher, body),
        };
    }
    if let Some(v) = &sp.preset {
        let val = |i: usize| {
            let n = 100 + i;
            if sp.fields[i].cty.is_some() { format!("::rt::mk({})", n) } else { format!("Some(::rt::mk({}))", n) }
        };
        let ce = m::create_empty(sp);
        // the constructors of a cloneable builder need Clone parameters
        let mut wc = g.wher.clone();
        if m::is_clone(sp) {
            for q in &sp.gens.tys {
                wc.push_str(if wc.is_empty() { " where " } else { ", " });
                wc.push_str(&format!("{}: ::core::clone::Clone", q.name));
            }
        }
        let body = if sp.lay % 2 == 0 {
            let sets: Vec<String> = v.iter().map(|&i| format!("e.{} = {}; ", sp.fields[i].name, val(i))).collect();
            format!("let mut e = Self::{}(); {}e", ce, sets.concat())
        } else {
            let sets: Vec<String> = v.iter().map(|&i| format!("{}: {}, ", sp.fields[i].name, val(i))).collect();
            format!("Self {{ {}..Self::{}() }}", sets.concat(), ce)
        };
        let _ = write!(o, "impl{} {}{}{} {{ pub(crate) fn preset_user() -> Self {{ {} }} }}\n", g.imp, b, g.args, wc, body);
        if sp.own_default {
            let _ = write!(
                o,
                "impl{} ::core::default::Default for {}{}{} {{ fn default() -> Self {{ Self::preset_user() }} }}\n",
                g.imp, b, g.args, wc
            );
        }
    }
    if sp.own_build {
        let _ = write!(o, "impl{} {}{}{} {{ pub fn build(&self) -> u32 {{ 77 }} }}\n", g.imp, b, g.args, g.wher);
    }
    for i in 0..sp.fields.len() {
        if matches!(sp.fields[i].def, Some(Def { kind: DKind::SelfCall, .. })) {
            let _ = write!(
                o,
                "impl{} {}{}{} {{ pub(crate) fn helper_{}<R_: ::rt::Mk>(&self) -> R_ {{ ::rt::d({}, {}) }} }}\n",
                g.imp, b, g.args, g.wher, i, i, m::dn(i)
            );
        }
    }
    o
}

pub fn interpreter(sp: &Spec) -> String {
    no_self(sp, interpreter_(sp))
}
fn interpreter_(sp: &Spec) -> String {
    let g = generics(sp);
    let mut o = String::new();
    let _ = write!(o, "type B_ = {}{};\ntype S_ = {}{};\n", m::builder_name(sp), g.inst, sp.name, g.inst);
    if !sp.build_skip {
        let shows: Vec<String> = sp.fields.iter().map(|f| format!("::rt::sh(&v.{})", f.name)).collect();
        let _ = write!(o, "fn show_s(v: &S_) -> String {{ let p: Vec<String> = vec![{}]; format!(\"Ok[{{}}]\", p.join(\";\")) }}\n", shows.join(", "));
        let en = m::error_name(sp);
        let _ = match sp.err {
            ErrK::Gen | ErrK::GenTrue => write!(
                o,
                "fn show_e(e: {0}) -> String {{ ::rt::disp(&e.to_string(), match &e {{ {0}::UninitializedField(n) => Ok(*n), {0}::ValidationError(s) => Err(s.as_str()), _ => Err(\"?\") }}) }}\n",
                en
            ),
            ErrK::NoVal => write!(
                o,
                "fn show_e(e: {0}) -> String {{ ::rt::disp(&e.to_string(), match &e {{ {0}::UninitializedField(n) => Ok(*n), _ => Err(\"?\") }}) }}\n",
                en
            ),
            _ => write!(o, "fn show_e(e: {}) -> String {{ ::rt::sh(&e) }}\n", err_ty(sp)),
        };
    }
    if sp.host.is_none() {
        o.push_str(&generic_uses(sp));
    }
    o.push_str("pub fn run(ops: &[::rt::Op]) {\n    let mut s: [Option<B_>; 3] = [None, None, None];\n");
    o.push_str("    for op in ops { let (a, b) = ((op[1] >> 8) as usize, (op[1] & 255) as usize); let n = op[3]; let _ = (a, b, n);\n");
    o.push_str("    match (op[0], op[2], op[4]) {\n");
    let ce = m::create_empty(sp);
    if sp.preset.is_some() {
        o.push_str("    (0, 2, _) => s[b] = Some(B_::preset_user()),\n");
    }
    if sp.own_build {
        o.push_str("    (11, _, _) => match &s[a] { Some(x) => ::rt::ev(format!(\"own{}\", B_::build(x))), None => ::rt::ev(\"-\") },\n");
    }
    if m::gen_err(sp) {
        let e = m::error_name(sp);
        let v = if sp.err == ErrK::NoVal { "None".to_string() } else { format!("Some(<{} as From<String>>::from(::rt::wild(n)))", e) };
        let _ = write!(
            o,
            "    (10, _, _) => ::rt::ev(::rt::gen_err::<{0}>({1}, <{0} as From<::rt::derive_builder::UninitializedFieldError>>::from(::rt::derive_builder::UninitializedFieldError::new(::rt::ustr(n))), n)),\n",
            e, v
        );
    }
    if !sp.custom_ctor || sp.own_default {
        o.push_str("    (0, 0, _) => s[b] = Some(<B_ as ::core::default::Default>::default()),\n");
    }
    let _ = write!(o, "    (0, _, _) => s[b] = Some(B_::{}()),\n", ce);
    for i in 0..sp.fields.len() {
        let f = &sp.fields[i];
        if !m::hidden(sp, i) {
            let v = if f.cty.is_some() { "::rt::mk(n)" } else { "Some(::rt::mk(n))" };
            let _ = write!(o, "    (7, {}, _) => match &mut s[a] {{ Some(x) => x.{} = {}, None => ::rt::ev(\"-\") }},\n", i, f.name, v);
        }
        if !m::has_setter(sp, i) {
            continue;
        }
        let vt = m::value_ty(sp, i).text("'static", true);
        let mut arm = |code: u32, k: &str, name: &str, arg: String| {
            let call = format!("B_::{}(x, {})", name, arg);
            let body = match (m::pat(sp, i), code) {
                (Pat::Mutable, 2) => format!(
                    "match s[a].as_mut() {{ Some(x) => {{ let p = x as *const B_; match {} {{ Ok(r) => {{ let r: &mut B_ = r; ::rt::ev(\"tok\"); ::rt::same(p, r) }} Err(e) => ::rt::ev(::rt::sh::<::rt::TErr>(&e)) }} }} None => ::rt::ev(\"-\") }}",
                    call
                ),
                (Pat::Mutable, _) => format!(
                    "match s[a].as_mut() {{ Some(x) => {{ let p = x as *const B_; let r: &mut B_ = {}; ::rt::same(p, r) }} None => ::rt::ev(\"-\") }}",
                    call
                ),
                (Pat::Owned, 2) => format!(
                    "match s[a].take() {{ Some(x) => match {} {{ Ok(r) => {{ ::rt::ev(\"tok\"); let r: B_ = r; s[b] = Some(r) }} Err(e) => ::rt::ev(::rt::sh::<::rt::TErr>(&e)) }}, None => ::rt::ev(\"-\") }}",
                    call
                ),
                (Pat::Owned, _) => format!("match s[a].take() {{ Some(x) => {{ let r: B_ = {}; s[b] = Some(r) }} None => ::rt::ev(\"-\") }}", call),
                (Pat::Immutable, 2) => format!(
                    "match &s[a] {{ Some(x) => match {} {{ Ok(r) => {{ ::rt::ev(\"tok\"); let r: B_ = r; s[b] = Some(r) }} Err(e) => ::rt::ev(::rt::sh::<::rt::TErr>(&e)) }}, None => ::rt::ev(\"-\") }}",
                    call
                ),
                (Pat::Immutable, _) => format!("match &s[a] {{ Some(x) => {{ let r: B_ = {}; s[b] = Some(r) }} None => ::rt::ev(\"-\") }}", call),
            };
            let _ = write!(o, "    ({}, {}, {}) => {},\n", code, i, k, body);
        };
        let nm = m::setter_name(sp, i);
        if m::into(sp, i) {
            arm(1, "1", &nm, "::rt::Src(n)".into());
            arm(1, "_", &nm, format!("<{} as ::rt::Mk>::mk(n)", vt));
        } else {
            // the argument's type is inferred, so this only compiles if the setter takes exactly one type
            arm(1, "_", &nm, "::rt::mk(n)".into());
        }
        if m::has_try(sp, i) {
            arm(2, "_", &m::try_name(sp, i), "::rt::TSrc(n)".into());
        }
        if let Some(e) = &f.set.each {
            let (it, _) = each_items(m::value_ty(sp, i)).expect("collection");
            let it = it.text("'static", true);
            if e.into == Some(true) {
                arm(3, "_", &e.name, "::rt::Src(n)".into());
            } else {
                arm(3, "_", &e.name, format!("<{} as ::rt::Mk>::mk(n)", it));
            }
        }
    }
    if m::is_clone(sp) {
        o.push_str("    (4, _, _) => { let c: Option<B_> = s[a].as_ref().map(|x| <B_ as ::core::clone::Clone>::clone(x)); match c { Some(c) => s[b] = Some(c), None => ::rt::ev(\"-\") } }\n");
    }
    let dumps: Vec<String> = (0..sp.fields.len())
        .filter(|&i| !m::hidden(sp, i))
        .map(|i| format!("::rt::{}(&x.{})", if sp.fields[i].cty.is_some() { "sh" } else { "so" }, sp.fields[i].name))
        .collect();
    let _ = write!(o, "    (5, _, _) => match &s[a] {{ Some(x) => {{ let _ = x; let p: Vec<String> = vec![{}]; ::rt::ev(format!(\"D[{{}}]\", p.join(\";\"))) }} None => ::rt::ev(\"-\") }},\n", dumps.join(", "));
    if !sp.build_skip {
        let owned = m::spat(sp) == Pat::Owned;
        let _ = write!(
            o,
            "    (6, _, _) => match {} {{ Some(x) => match B_::{}(x) {{ Ok(v) => {{ let v: S_ = v; ::rt::ev(show_s(&v)) }} Err(e) => ::rt::ev(format!(\"Err {{}}\", show_e(e))) }}, None => ::rt::ev(\"-\") }},\n",
            if owned { "s[a].take()" } else { "&s[a]" },
            m::build_name(sp)
        );
    }
    o.push_str(&probes(sp));
    o.push_str("    (8, _, _) => ::rt::set_fail((op[2] as u64) | ((op[3] & 1) as u64) << 62 | ((op[3] >> 1 & 1) as u64) << 63 | {::rt::set_vmsg(op[4]); 0}),\n");
    o.push_str("    _ => ::rt::ev(\"?op\"),\n    } }\n}\n");
    o
}

/// Uses of a generic builder by generic code with the struct's own bounds, and Clone where it is needed.
fn generic_uses(sp: &Spec) -> String {
    let g = generics(sp);
    let mut o = String::new();
    if g.imp.is_empty() {
        return o;
    }
    let b = format!("{}{}", m::builder_name(sp), g.args);
    // a where clause on Self means something else in a function
    let wher: Vec<String> = sp.gens.wher.iter().filter(|w| !w.starts_with("Self")).cloned().collect();
    let mut w: Vec<String> = sp.gens.tys.iter().filter(|q| q.where_bound && !q.bounds.is_empty()).map(|q| format!("{}: {}", q.name, q.bounds.join(" + "))).collect();
    w.extend(wher);
    let mut wc = w.clone();
    if m::is_clone(sp) {
        wc.extend(sp.gens.tys.iter().map(|q| format!("{}: ::core::clone::Clone", q.name)));
    }
    let wh = |v: &Vec<String>| if v.is_empty() { String::new() } else { format!(" where {}", v.join(", ")) };
    // naming the type takes no more than the struct does
    let _ = write!(o, "#[allow(dead_code)] fn g_name_{}(_: ::core::option::Option<&{}>){} {{}}\n", g.imp, b, wh(&w));
    let _ = write!(o, "#[allow(dead_code)] fn g_empty_{}() -> {}{} {{ <{}>::{}() }}\n", g.imp, b, wh(&wc), b, m::create_empty(sp));
    if !sp.custom_ctor {
        let _ = write!(o, "#[allow(dead_code)] fn g_default_{}() -> {}{} {{ ::core::default::Default::default() }}\n", g.imp, b, wh(&wc));
    }
    if m::is_clone(sp) {
        let _ = write!(o, "#[allow(dead_code)] fn g_clone_{}(x: &{}) -> {}{} {{ ::core::clone::Clone::clone(x) }}\n", g.imp, b, b, wh(&wc));
    }
    if !sp.build_skip {
        let _ = write!(
            o,
            "#[allow(dead_code)] fn g_build_{}(x: {}) -> ::core::result::Result<{}{}, {}>{} {{ x.{}() }}\n",
            g.imp, b, sp.name, g.args, err_ty(sp), wh(&wc), m::build_name(sp)
        );
    }
    let lt = if sp.gens.lt { "'a" } else { "'static" };
    for i in 0..sp.fields.len() {
        if m::has_setter(sp, i) {
            let amp = match m::pat(sp, i) { Pat::Mutable => "&mut ", Pat::Owned => "", Pat::Immutable => "&" };
            let _ = write!(
                o,
                "#[allow(dead_code)] fn g_set{}_{}(x: {}{}, v: {}){} {{ let _ = x.{}(v); }}\n",
                i, g.imp, amp, b, m::value_ty(sp, i).text(lt, false), wh(&wc), m::setter_name(sp, i)
            );
        }
    }
    // a parameter left to its default
    let mut args: Vec<String> = vec![];
    if sp.gens.lt {
        args.push("'static".into());
    }
    if sp.gens.lt2 {
        args.push("'static".into());
    }
    args.extend(sp.gens.tys.iter().filter(|q| !q.dflt).map(|q| q.inst.text("'static", true)));
    if sp.gens.c {
        args.push("'x'".into());
    }
    let left_out = sp.gens.tys.iter().any(|q| q.dflt) || sp.gens.ndef;
    if left_out && (!sp.gens.n || sp.gens.ndef) {
        let a = if args.is_empty() { String::new() } else { format!("<{}>", args.join(", ")) };
        let _ = write!(o, "#[allow(dead_code)] fn g_dflt_(x: {}{}) -> B_ {{ x }}\n", m::builder_name(sp), a);
    }
    o
}

/// Method names that generated code would have if an option were misread, and must not have.
pub fn absent_names(sp: &Spec) -> Vec<String> {
    let mut have: Vec<String> = vec![unraw(m::create_empty(sp)).to_string()];
    if !sp.build_skip {
        have.push(unraw(m::build_name(sp)).to_string());
    }
    if matches!(sp.validate, Some(ValK::SelfFn | ValK::BuilderFn)) {
        have.push("user_validate".into());
    }
    if sp.own_build {
        have.push("build".into());
    }
    have.push("preset_user".into());
    let mut cand: Vec<String> = vec!["build".into(), "create_empty".into(), "try_build".into(), "new".into(), "validate".into()];
    for i in 0..sp.fields.len() {
        let f = &sp.fields[i];
        if m::has_setter(sp, i) {
            have.push(unraw(&m::setter_name(sp, i)).to_string());
            if m::has_try(sp, i) {
                have.push(m::try_name(sp, i));
            }
            if let Some(e) = &f.set.each {
                have.push(unraw(&e.name).to_string());
            }
        }
        if let Some(e) = &f.set.each {
            cand.push(unraw(&e.name).to_string());
            cand.push(format!("try_{}", unraw(&e.name)));
            cand.push(format!("with_{}", unraw(&e.name)));
        }
        let u = unraw(&f.name);
        cand.push(u.to_string());
        cand.push(format!("try_{}", u));
        cand.push(unraw(&m::setter_name(sp, i)).to_string());
        cand.push(m::try_name(sp, i));
        for p in [&sp.prefix, &f.set.prefix].into_iter().flatten() {
            cand.push(format!("{}_{}", unraw(p), u));
            cand.push(format!("try_{}_{}", unraw(p), u));
            cand.push(format!("{}_try_{}", unraw(p), u));
            if let Some(e) = &f.set.each {
                cand.push(format!("{}_{}", unraw(p), unraw(&e.name)));
            }
        }
    }
    cand.sort();
    cand.dedup();
    // methods of traits in scope would be found too
    let reserved = [
        "clone", "into", "try_into", "from", "try_from", "default", "fmt", "eq", "ne", "extend", "self_", "cmp", "clone_from", "to_owned",
        "clone_into", "type_id", "borrow", "borrow_mut", "clone_to_uninit", "to_string", "partial_cmp", "lt", "le", "gt", "ge", "max", "min",
        "clamp", "drop", "as_ref", "as_mut", "into_iter", "into_future", "poll", "next", "call", "hash", "Self", "super", "crate",
    ];
    cand.retain(|c| !have.contains(c) && !reserved.contains(&c.as_str()) && c != "core");
    cand
}
fn ident(s: &str) -> String {
    if syn::parse_str::<syn::Ident>(s).is_ok() { s.to_string() } else { format!("r#{}", s) }
}

/// Which traits the builder and its error have, and that no further methods exist.
fn probes(sp: &Spec) -> String {
    let mut o = String::new();
    let abs = absent_names(sp);
    o.push_str("    (9, _, _) => {\n");
    o.push_str("      #[allow(non_snake_case)] trait Absent_ { ");
    for a in &abs {
        let _ = write!(o, "fn {}(&self) -> u8 {{ 1 }} ", ident(a));
    }
    o.push_str("}\n      impl Absent_ for B_ {}\n      let mut sum = 0u32; let _ = &mut sum;\n");
    o.push_str("      if let Some(x) = &s[a] { let x: &B_ = x; let _ = x;\n");
    for a in &abs {
        let _ = write!(o, "        sum += u32::from(B_::{}(x));\n", ident(a));
    }
    let _ = write!(o, "      ::rt::ev(format!(\"absent:{{}}\", sum)); }}\n");
    let probe = |t: &str, bound: &str| {
        format!(
            "{{ struct H_<T>(::core::marker::PhantomData<T>); trait N_ {{ const V: bool = false; }} impl<T> N_ for H_<T> {{}} impl<T: {}> H_<T> {{ const V: bool = true; }} H_::<{}>::V }}",
            bound, t
        )
    };
    let mut list = vec![];
    for b in ["Clone", "Default", "::core::fmt::Debug", "PartialEq", "Copy", "Eq", "::core::hash::Hash", "PartialOrd", "Drop"] {
        list.push(probe("B_", b));
    }
    // what the struct is, the builder is as well, unless fields have types of their own
    if sp.fields.iter().all(|f| f.cty.is_none()) {
        for b in ["Send", "Sync", "Unpin", "::core::panic::UnwindSafe", "::core::panic::RefUnwindSafe"] {
            list.push(format!("!{} || {}", probe("S_", b), probe("B_", b)));
        }
    }
    if m::gen_err(sp) {
        for b in ["Send + Sync + Unpin + 'static"] {
            list.push(probe(&m::error_name(sp), b));
        }
        for b in ["::rt::StdError", "::core::fmt::Debug", "::core::fmt::Display", "From<String>", "From<::rt::derive_builder::UninitializedFieldError>"] {
            list.push(probe(&m::error_name(sp), b));
        }
    }
    let _ = write!(o, "      let t: Vec<&str> = vec![{}].into_iter().map(|x| if x {{ \"y\" }} else {{ \"n\" }}).collect(); ::rt::ev(format!(\"traits:{{}}\", t.concat())); }}\n", list.join(", "));
    o
}

pub fn module(sp: &Spec) -> String {
    if let Some(h) = &sp.host {
        let mut up = vec![sp.name.clone(), m::builder_name(sp)];
        if m::gen_err(sp) {
            up.push(m::error_name(sp));
        }
        let mut down = vec!["run"];
        if matches!(sp.validate, Some(ValK::Free | ValK::FreeOwnErr)) {
            down.push("free_validate");
        }
        match sp.def.as_ref().map(|d| &d.kind) {
            None | Some(DKind::Word) => {}
            Some(DKind::Q) => down.push("mk_sq"),
            _ => down.push("mk_s"),
        }
        set_std(h.std);
        let r = format!(
            "{}{}\n#[allow(unused_imports)] pub(crate) use self::i_::{{{}}};\npub(crate) mod i_ {{\n{}\nuse super::{{{}}};\n{}\n{}\n}}\n",
            h.defs.iter().map(|d| format!("{}\n", d)).collect::<String>(),
            struct_src(sp),
            down.join(", "),
            h.user,
            up.join(", "),
            { set_std(h.std); user_code(sp) },
            interpreter(sp)
        );
        set_std("");
        return r;
    }
    format!("{}\n{}\n{}", struct_src(sp), user_code(sp), interpreter(sp))
}
