//! The reference model, written from the crate documentation: how options resolve, and
//! what a history of calls on the generated builder observes. A builder is one stored
//! value per field; nothing here looks at generated code.
use crate::spec::*;

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    L(String),
    None,
    Some(Box<V>),
    List(Vec<V>),
}
impl V {
    pub fn show(&self) -> String {
        match self {
            V::L(s) => s.clone(),
            V::None => "None".into(),
            V::Some(v) => format!("Some({})", v.show()),
            V::List(l) => format!("[{}]", l.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
        }
    }
}
fn l(s: String) -> V {
    V::L(s)
}

/// What `rt::Mk::mk(n)` gives for the type.
pub fn mk(t: &Ty, n: u32) -> V {
    use Ty::*;
    let list = |t: &Ty| V::List((0..n % 3).map(|i| mk(t, n + i)).collect());
    match t {
        U8 => l(format!("{}u8", n as u8)),
        U32 => l(format!("{}u32", n)),
        I64 => l(format!("{}i64", -(n as i64))),
        Usize => l(format!("{}us", n)),
        Bool => l(format!("{}", n % 2 == 1)),
        Char => l(format!("'{}'", (b'a' + (n % 26) as u8) as char)),
        Str => l(format!("\"s{}\"", n)),
        Sstr => l(format!("'r{}'", n % 8)),
        Unit => l("()".into()),
        Tr => l(format!("Tr{}", n)),
        Ct => l(format!("Ct{}", n)),
        Mine(..) if n % 4 == 3 => l("No".into()),
        Mine(t, _) => l(format!("Yes({})", mk(t, n).show())),
        Cp => l(format!("Cp{}", n)),
        Me => l(format!("Me{}", n)),
        Nd => l(format!("Nd{}", n)),
        Nc => l(format!("Nc{}", n)),
        Nn => l(format!("Nn{}", n)),
        Coll => list(&U32),
        NcColl => list(&Nc),
        W(t) => l(format!("W({})", mk(t, n).show())),
        Vec(t) | Deque(t) => list(t),
        Set => list(&U32),
        Map => V::List((0..n % 3).map(|i| l(format!("({}u32,\"s{}\")", n + i, n))).collect()),
        HMap => V::List((0..n % 3).map(|i| l(format!("({}u32,{}u32)", n + i, n))).collect()),
        Opt(_, t) | OptAlias(t) => {
            if n % 4 == 3 {
                V::None
            } else {
                V::Some(Box::new(mk(t, n)))
            }
        }
        Tup => l(format!("({}u32,\"s{}\")", n, n)),
        Arr(t, _) => l(format!("[{},{}]", mk(t, n).show(), mk(t, n + 1).show())),
        BoxU32 => l(format!("Box({}u32)", n)),
        BoxTr => l(format!("Box(Tr{})", n)),
        BoxNc => l(format!("Box(Nc{})", n)),
        RcNn => l(format!("Rc(Nn{})", n)),
        Fnp => l(format!("fn{}", n % 2)),
        Life(_) => unreachable!(),
        Ext(k) => l((EXT[*k].mk)(n)),
        Ph(_) => l("Ph".into()),
        // `Sh` prints references as what they refer to
        Ref(t) => mk(t, n % 4),
        Param(_, t) | Alias(_, t) => mk(t, n),
    }
}

/// `Default::default()` of the type.
pub fn dflt(t: &Ty) -> V {
    use Ty::*;
    match t {
        Char => l("'\0'".into()),
        Str => l("\"\"".into()),
        Sstr => l("''".into()),
        Tr => l("Tr999".into()),
        Ct => l("Ct997".into()),
        Nc => l("Nc998".into()),
        Coll => V::List(vec![l("777u32".into())]),
        NcColl => V::List(vec![l("Nc776".into())]),
        W(t) => l(format!("W({})", dflt(t).show())),
        Vec(_) | Deque(_) | Set | Map | HMap => V::List(vec![]),
        Opt(..) | OptAlias(_) => V::None,
        Mine(t, _) => l(format!("Yes({})", mk(t, 1).show())),
        Tup => l("(0u32,\"\")".into()),
        Arr(t, _) => l(format!("[{},{}]", dflt(t).show(), dflt(t).show())),
        BoxTr => l("Box(Tr999)".into()),
        Ext(k) => l(EXT[*k].dflt.unwrap().to_string()),
        BoxNc => l("Box(Nc998)".into()),
        Param(_, t) | Alias(_, t) => dflt(t),
        t => mk(t, 0),
    }
}

// ---- how options resolve ----

pub fn hidden_f(struct_skip: Option<bool>, f: &Field) -> bool {
    let s = &f.set;
    if let Some(x) = s.skip {
        return x;
    }
    if s.word || s.prefix.is_some() || s.name.is_some() || s.into.is_some() || s.strip.is_some() || s.each.is_some() {
        return false;
    }
    struct_skip == Some(true)
}
pub fn hidden(sp: &Spec, i: usize) -> bool {
    hidden_f(sp.skip, &sp.fields[i])
}
pub fn has_setter(sp: &Spec, i: usize) -> bool {
    !hidden(sp, i) && sp.fields[i].set.custom != Some(true)
}
pub fn has_try(sp: &Spec, i: usize) -> bool {
    has_setter(sp, i) && (sp.try_setter || sp.fields[i].try_setter)
}
pub fn spat(sp: &Spec) -> Pat {
    sp.pat.unwrap_or(Pat::Mutable)
}
pub fn pat(sp: &Spec, i: usize) -> Pat {
    sp.fields[i].pat.unwrap_or(spat(sp))
}
pub fn is_clone(sp: &Spec) -> bool {
    spat(sp) != Pat::Owned || (0..sp.fields.len()).any(|i| pat(sp, i) != Pat::Owned)
}
pub fn into(sp: &Spec, i: usize) -> bool {
    sp.fields[i].set.into.or(sp.into).unwrap_or(false)
}
/// The builder field's type as written (before the builder's own Option).
pub fn decl_ty(sp: &Spec, i: usize) -> &Ty {
    sp.fields[i].cty.as_ref().unwrap_or(&sp.fields[i].ty)
}
pub fn strip_on(sp: &Spec, i: usize) -> bool {
    sp.fields[i].set.strip.or(sp.strip).unwrap_or(false)
}
/// strip_option is on and has something to strip
pub fn strip(sp: &Spec, i: usize) -> bool {
    strip_on(sp, i) && matches!(decl_ty(sp, i), Ty::Opt(..))
}
pub fn value_ty(sp: &Spec, i: usize) -> &Ty {
    match decl_ty(sp, i) {
        Ty::Opt(_, t) if strip(sp, i) => t,
        t => t,
    }
}
pub fn setter_name(sp: &Spec, i: usize) -> String {
    let f = &sp.fields[i];
    if let Some(n) = &f.set.name {
        return n.clone();
    }
    match f.set.prefix.as_ref().or(sp.prefix.as_ref()) {
        Some(p) => format!("{}_{}", unraw(p), unraw(&f.name)),
        None => f.name.clone(),
    }
}
pub fn try_name(sp: &Spec, i: usize) -> String {
    format!("try_{}", unraw(&setter_name(sp, i)))
}
pub fn builder_name(sp: &Spec) -> String {
    match &sp.bname {
        Some(n) => n.clone(),
        None => format!("{}Builder", unraw(&sp.name)),
    }
}
pub fn error_name(sp: &Spec) -> String {
    format!("{}Error", unraw(&builder_name(sp)))
}
pub fn build_name(sp: &Spec) -> &str {
    sp.build_name.as_deref().unwrap_or("build")
}
pub fn create_empty(sp: &Spec) -> &str {
    sp.create_empty.as_deref().unwrap_or("create_empty")
}
/// unset is reported as missing
pub fn required(sp: &Spec, i: usize) -> bool {
    let f = &sp.fields[i];
    !hidden(sp, i) && f.def.is_none() && sp.def.is_none() && f.cty.is_none() && f.cbuild.is_none()
}

// ---- what a history observes ----

#[derive(Clone)]
pub struct B(pub Vec<V>);

pub fn empty(sp: &Spec) -> B {
    B((0..sp.fields.len())
        .map(|i| match &sp.fields[i].cty {
            Some(t) if !hidden(sp, i) => dflt(t),
            _ => V::None,
        })
        .collect())
}
fn stored(sp: &Spec, i: usize, v: V) -> V {
    let v = if strip(sp, i) { V::Some(Box::new(v)) } else { v };
    if sp.fields[i].cty.is_some() {
        v
    } else {
        V::Some(Box::new(v))
    }
}
pub fn extend(t: &Ty, v: V, item: V) -> V {
    let mut x = match v {
        V::List(x) => x,
        _ => unreachable!("collections are lists"),
    };
    let key = |v: &V| -> u32 {
        let s = v.show();
        let s: String = s.trim_start_matches('(').chars().take_while(|c| c.is_ascii_digit()).collect();
        s.parse().unwrap()
    };
    match t {
        Ty::Set | Ty::Map | Ty::HMap => {
            x.retain(|y| key(y) != key(&item));
            x.push(item);
            x.sort_by_key(|y| key(y));
        }
        _ => x.push(item),
    }
    V::List(x)
}
pub fn hash(s: &str) -> u32 {
    s.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 500
}

pub fn dump(sp: &Spec, b: &B) -> String {
    let v: Vec<String> = (0..sp.fields.len()).filter(|&i| !hidden(sp, i)).map(|i| b.0[i].show()).collect();
    format!("D[{}]", v.join(";"))
}

/// Argument n of the default of field i; of field i in the struct default
pub fn dn(i: usize) -> u32 {
    3000 + 10 * i as u32
}
pub fn sdn(i: usize) -> u32 {
    5000 + 10 * i as u32
}

/// How a user expression shows what is stored in field g.
pub fn peek(b: &B, g: usize) -> String {
    b.0[g].show()
}

fn qerr(sp: &Spec, i: u32) -> String {
    match sp.err {
        ErrK::Gen | ErrK::GenTrue => format!("V(q{})", i),
        ErrK::NoVal => format!("U(q{})", i),
        _ => format!("Q(q{})", i),
    }
}

/// What the validator logs: everything for plain field types, presence for those with parameters.
pub fn vdump(sp: &Spec, b: &B) -> String {
    let v: Vec<String> = (0..sp.fields.len())
        .filter(|&i| !hidden(sp, i))
        .map(|i| {
            if sp.fields[i].ty.has_param() && sp.fields[i].cty.is_none() {
                (if b.0[i] == V::None { "N" } else { "S" }).to_string()
            } else {
                b.0[i].show()
            }
        })
        .collect();
    v.join(";")
}

/// `dflt`, with the events of evaluating it
fn eval_dflt(t: &Ty, log: &mut Vec<String>) -> V {
    if *t == Ty::Ct {
        log.push("df".into());
    }
    dflt(t)
}
pub fn build(sp: &Spec, b: &B, fail: u64, vmsg: &str, log: &mut Vec<String>) -> Result<Vec<V>, String> {
    let failing = |i: u32| fail >> i & 1 == 1;
    if sp.validate.is_some() {
        log.push(format!("v{{{}}}", vdump(sp, b)));
        if failing(63) {
            return Err(format!("V({})", vmsg));
        }
    }
    if let Some(d) = &sp.def {
        log.push("sd".into());
        if failing(62) {
            match d.kind {
                DKind::Q | DKind::Ret => return Err(qerr(sp, 62)),
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for i in 0..sp.fields.len() {
        let f = &sp.fields[i];
        let eval_def = |d: &Def, log: &mut Vec<String>| -> Result<V, String> {
            match &d.kind {
                DKind::Word => Ok(eval_dflt(&f.ty, log)),
                DKind::Lit(_, v) => Ok(match f.ty {
                    Ty::Opt(..) => V::None,
                    _ => l(v.clone()),
                }),
                DKind::Q | DKind::Ret => {
                    log.push(format!("d{}", i));
                    if failing(i as u32) {
                        Err(qerr(sp, i as u32))
                    } else {
                        Ok(mk(&f.ty, dn(i)))
                    }
                }
                DKind::SelfRead(g) => {
                    let s = peek(b, *g);
                    log.push(format!("d{}:{}", i, s));
                    Ok(mk(&f.ty, hash(&s)))
                }
                _ => {
                    log.push(format!("d{}", i));
                    Ok(mk(&f.ty, dn(i)))
                }
            }
        };
        let v = if hidden(sp, i) {
            match (&f.def, &sp.def) {
                (Some(d), _) => eval_def(d, log)?,
                (None, Some(_)) => sdval(sp, i),
                (None, None) => eval_dflt(&f.ty, log),
            }
        } else if let Some((k, _)) = &f.cbuild {
            match k {
                CBuild::Own | CBuild::Other(_) => {
                    let g = if let CBuild::Other(g) = k { *g } else { i };
                    let s = peek(b, g);
                    log.push(format!("d{}:{}", i, s));
                    mk(&f.ty, hash(&s))
                }
                CBuild::Q | CBuild::Ret => {
                    log.push(format!("d{}", i));
                    if failing(i as u32) {
                        return Err(qerr(sp, i as u32));
                    }
                    mk(&f.ty, dn(i))
                }
            }
        } else if f.cty.is_some() {
            b.0[i].clone()
        } else {
            match (&b.0[i], &f.def, &sp.def) {
                (V::Some(v), _, _) => (**v).clone(),
                (_, Some(d), _) => eval_def(d, log)?,
                (_, None, Some(_)) => sdval(sp, i),
                _ => return Err(format!("U({})", unraw(&f.name))),
            }
        };
        out.push(v);
    }
    Ok(out)
}
pub fn sdval(sp: &Spec, i: usize) -> V {
    mk(&sp.fields[i].ty, sdn(i))
}

/// y/n for Clone Default Debug PartialEq Copy Eq Hash PartialOrd Drop of the builder, and
/// Error Debug Display From<String> From<UninitializedFieldError> of the generated error.
pub fn gen_err(sp: &Spec) -> bool {
    matches!(sp.err, ErrK::Gen | ErrK::GenTrue | ErrK::NoVal) && !sp.build_skip
}
pub fn traits(sp: &Spec) -> String {
    let yn = |b: bool| if b { 'y' } else { 'n' };
    let mut t = String::new();
    t.push(yn(is_clone(sp)));
    t.push(yn(!sp.custom_ctor || sp.own_default));
    t.push(yn(sp.derives.contains(&"Debug")));
    t.push(yn(sp.derives.contains(&"PartialEq")));
    t.push_str("nnnnn");
    if sp.fields.iter().all(|f| f.cty.is_none()) {
        t.push_str("yyyyy");
    }
    if gen_err(sp) {
        t.push('y');
    }
    if matches!(sp.err, ErrK::Gen | ErrK::GenTrue | ErrK::NoVal) && !sp.build_skip {
        t.push(yn(!sp.no_std));
        t.push_str("yy");
        t.push(yn(sp.err != ErrK::NoVal));
        t.push('y');
    }
    t
}

macro_rules! stats {
    ($($f:ident)*) => {
        #[derive(Default)]
        pub struct Stats { $(pub $f: usize,)* }
        impl Stats {
            pub fn add(&mut self, o: &Stats) { $(self.$f += o.$f;)* }
            pub fn json(&self) -> serde_json::Value { serde_json::json!({ $(stringify!($f): self.$f,)* }) }
        }
    };
}
// over: overwrites of a set field; rebuild: builds of a builder built before; reset: each setters on unset fields;
// after_missing: successful builds of a builder that failed before
stats! { ok err sets tries try_err eachs clones defaults vetoes missing over rebuild reset after_missing directs probes }

/// The trace that running the history must print.
pub fn trace(sp: &Spec, h: &Hist, st: &mut Stats) -> Vec<String> {
    let mut log: Vec<String> = vec![];
    let mut s: [Option<B>; 3] = [None, None, None];
    let mut fail = 0u64;
    let mut vmsg = rt::wild(0);
    let mut built = [false; 3];
    let mut failed = [false; 3];
    for op in &h.ops {
        let (a, b) = ((op[1] >> 8) as usize, (op[1] & 255) as usize);
        let f = op[2] as usize;
        let n = op[3];
        match op[0] {
            NEW => {
                let mut e = empty(sp);
                if op[2] == 2 || (op[2] == 0 && sp.own_default) {
                    for &i in sp.preset.iter().flatten() {
                        let v = mk(decl_ty(sp, i), 100 + i as u32);
                        e.0[i] = if sp.fields[i].cty.is_some() { v } else { V::Some(Box::new(v)) };
                    }
                }
                built[b] = false;
                failed[b] = false;
                s[b] = Some(e)
            }
            SET | EACH | TRY => {
                let cur = match &s[a] {
                    Some(x) => x.clone(),
                    None => {
                        log.push("-".into());
                        continue;
                    }
                };
                let mut new = cur.clone();
                let vt = value_ty(sp, f).clone();
                let p = pat(sp, f);
                if cur.0[f] != V::None {
                    st.over += 1;
                } else if op[0] == EACH {
                    st.reset += 1;
                }
                match op[0] {
                    SET => {
                        st.sets += 1;
                        new.0[f] = stored(sp, f, mk(&vt, if op[4] == 1 { n + 1000 } else { n }));
                    }
                    TRY => {
                        st.tries += 1;
                        if n % 3 == 2 {
                            st.try_err += 1;
                            log.push(format!("TErr{}", n));
                            if p == Pat::Owned {
                                s[a] = None;
                            }
                            continue;
                        }
                        log.push("tok".into());
                        new.0[f] = stored(sp, f, mk(&vt, n + 2000));
                    }
                    _ => {
                        st.eachs += 1;
                        let (it, _) = each_items(&vt).expect("collection");
                        let item = mk(&it, if op[4] == 1 { n + 1000 } else { n });
                        let inner = if sp.fields[f].cty.is_some() {
                            match (new.0[f].clone(), strip(sp, f)) {
                                (V::Some(x), true) => *x,
                                (_, true) => dflt(&vt),
                                (x, false) => x,
                            }
                        } else {
                            match new.0[f].clone() {
                                V::Some(x) => match (*x, strip(sp, f)) {
                                    (V::Some(y), true) => *y,
                                    (_, true) => dflt(&vt),
                                    (y, false) => y,
                                },
                                _ => dflt(&vt),
                            }
                        };
                        new.0[f] = stored(sp, f, extend(&vt, inner, item));
                    }
                }
                match p {
                    Pat::Mutable => {
                        log.push("same".into());
                        s[a] = Some(new);
                    }
                    Pat::Owned => {
                        s[a] = None;
                        s[b] = Some(new);
                    }
                    Pat::Immutable => s[b] = Some(new),
                }
            }
            CLONE => {
                st.clones += 1;
                match s[a].clone() {
                    Some(x) => s[b] = Some(x),
                    None => log.push("-".into()),
                }
            }
            DUMP => match &s[a] {
                Some(x) => log.push(dump(sp, x)),
                None => log.push("-".into()),
            },
            BUILD => match s[a].clone() {
                Some(x) => {
                    let before = log.len();
                    if built[a] {
                        st.rebuild += 1;
                    }
                    built[a] = true;
                    match build(sp, &x, fail, &vmsg, &mut log) {
                        Ok(v) => {
                            st.ok += 1;
                            if failed[a] {
                                st.after_missing += 1;
                            }
                            st.defaults += log.len() - before;
                            log.push(format!("Ok[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(";")))
                        }
                        Err(e) => {
                            st.err += 1;
                            if e.starts_with("U(") && !e.starts_with("U(q") {
                                st.missing += 1;
                                failed[a] = true;
                            }
                            if sp.validate.is_some() && fail >> 63 & 1 == 1 {
                                st.vetoes += 1;
                            }
                            log.push(format!("Err {}", e))
                        }
                    }
                    if spat(sp) == Pat::Owned {
                        s[a] = None;
                    }
                }
                None => log.push("-".into()),
            },
            DIRECT => match &mut s[a] {
                Some(x) => {
                    st.directs += 1;
                    let v = mk(decl_ty(sp, f), n);
                    x.0[f] = if sp.fields[f].cty.is_some() { v } else { V::Some(Box::new(v)) };
                }
                None => log.push("-".into()),
            },
            PROBE => {
                if s[a].is_some() {
                    st.probes += 1;
                    log.push(format!("absent:{}", crate::emit::absent_names(sp).len()));
                }
                log.push(format!("traits:{}", traits(sp)));
            }
            FLAGS => {
                fail = (op[2] as u64) | ((op[3] & 1) as u64) << 62 | ((op[3] >> 1 & 1) as u64) << 63;
                vmsg = rt::wild(op[4]);
            }
            ERR => log.push(format!("e{}{}", if sp.err == ErrK::NoVal { String::new() } else { format!("{};", rt::wild(n)) }, rt::ustr(n))),
            OWN => log.push(if s[a].is_some() { "own77".into() } else { "-".to_string() }),
            _ => unreachable!(),
        }
    }
    log
}
