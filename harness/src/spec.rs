//! The generated input: a struct with `#[builder(..)]` options, and the operation
//! histories run against its builder. Specs and histories are decoded from
//! "tapes" of u16 drawn by proptest; a zero cell always means the simplest choice,
//! so that shrinking is zeroing cells and dropping tapes.
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pat {
    Mutable,
    Owned,
    Immutable,
}
impl Pat {
    pub fn text(self) -> &'static str {
        match self {
            Pat::Mutable => "mutable",
            Pat::Owned => "owned",
            Pat::Immutable => "immutable",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OptSp {
    Short,
    Std,
    Core,
    AbsStd,
    AbsCore,
    Comma,
    Turbo,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    U8,
    U32,
    I64,
    Usize,
    Bool,
    Char,
    Str,
    Sstr,
    Unit,
    Tr,
    Cp,
    Nd,
    Nc,
    Nn,
    Coll,
    NcColl,
    W(Box<Ty>),
    Vec(Box<Ty>),
    Deque(Box<Ty>),
    Set,
    Map,
    HMap,
    Opt(OptSp, Box<Ty>),
    OptAlias(Box<Ty>),
    /// a user's own type called Option; the flag picks one of two paths
    Mine(Box<Ty>, bool),
    /// its Default is an event
    Ct,
    Tup,
    Arr(Box<Ty>, bool), // [T; 2], or [T; N] when the flag is set
    BoxU32,
    BoxTr,
    BoxNc,
    RcNn,
    Fnp,
    Ph(Box<Ty>),
    /// `&'b ()`, whatever it is in
    Life(String),
    Ref(Box<Ty>), // &'static (or &'a) of U32, Tr, Nn
    Param(String, Box<Ty>),
    /// a type with the struct itself as its argument, written Self
    Me,
    /// a type of the struct's own module, by its name there
    Alias(String, Box<Ty>),
    /// one of `EXT`
    Ext(usize),
}
use Ty::*;

/// Types of unusual syntax. In `text`, `$` names a type of std by module and name, and `'!` is a lifetime.
pub struct Ext {
    pub text: &'static str,
    pub mk: fn(u32) -> String,
    pub dflt: Option<&'static str>,
    pub clone: bool,
    /// has Debug and PartialEq
    pub traits: bool,
}
pub const EXT: &[Ext] = &[
    Ext { text: "&'! [u8]", mk: |n| format!("sl{}", n % 4), dflt: Some("sl-"), clone: true, traits: true },
    Ext { text: "&'! dyn for<'zz> ::rt::Tell", mk: |n| format!("tell{}", n % 4), dflt: None, clone: true, traits: false },
    Ext { text: "&'! (dyn for<'zz> ::rt::Tell + ::core::marker::Sync)", mk: |n| format!("tells{}", n % 4), dflt: None, clone: true, traits: false },
    Ext { text: "(::rt::Tr,)", mk: |n| format!("(Tr{},)", n), dflt: Some("(Tr999,)"), clone: true, traits: true },
    Ext { text: "$boxed::Box<dyn for<'zz> ::core::ops::Fn(u32) -> u32>", mk: |n| format!("bf{}", n), dflt: None, clone: false, traits: false },
    Ext { text: "$rc::Rc<dyn for<'zz> ::core::ops::Fn(u32) -> u32 + '!>", mk: |n| format!("rf{}", n), dflt: None, clone: true, traits: false },
    Ext { text: "::core::result::Result<u32, $string::String>", mk: |n| if n % 2 == 0 { format!("Ok{}", n) } else { format!("Err{}", n) }, dflt: None, clone: true, traits: true },
    Ext { text: "::core::cell::Cell<u32>", mk: |n| format!("Cell{}", n), dflt: Some("Cell0"), clone: true, traits: true },
    Ext { text: "*const u8", mk: |n| format!("ptr{}", n), dflt: None, clone: true, traits: true },
    Ext { text: "for<'x> fn(&'x u32) -> &'x u32", mk: |_| "id".into(), dflt: None, clone: true, traits: true },
    Ext { text: "::core::ops::Range<u32>", mk: |n| format!("{}..", n), dflt: Some("0.."), clone: true, traits: true },
    Ext { text: "<::rt::Cp as ::rt::As>::Out", mk: |n| format!("Cp{}", n), dflt: Some("Cp0"), clone: true, traits: true },
    Ext { text: "(::core::option::Option<u32>, bool)", mk: |n| format!("(o{})", n), dflt: Some("(o-)"), clone: true, traits: true },
    Ext { text: "[[u8; 2]; { 1 + 1 }]", mk: |n| format!("[[{0}u8,{1}u8],[{1}u8,{2}u8]]", n as u8, (n + 1) as u8, (n + 2) as u8), dflt: Some("[[0u8,0u8],[0u8,0u8]]"), clone: true, traits: true },
    Ext { text: "(::rt::Tr)", mk: |n| format!("Tr{}", n), dflt: Some("Tr999"), clone: true, traits: true },
    Ext { text: "f64", mk: |n| format!("f{}", n), dflt: Some("f0"), clone: true, traits: true },
    Ext { text: "::core::marker::PhantomData<fn(&[u8]) -> *mut u8>", mk: |_| "Ph".into(), dflt: Some("Ph"), clone: true, traits: true },
    Ext { text: "&'! mut u32", mk: |n| format!("mut{}", n), dflt: None, clone: false, traits: true },
    Ext { text: "$boxed::Box<[u8]>", mk: |n| format!("bs{}", n % 4), dflt: Some("bs-"), clone: true, traits: true },
    Ext { text: "$borrow::Cow<'!, str>", mk: |n| format!("cow{}", n), dflt: Some("cow-"), clone: true, traits: true },
    Ext { text: "::rt::Cg<{ 3 - 1 }, -1, 'x'>", mk: |n| format!("Cg{}", n), dflt: Some("Cg0"), clone: true, traits: true },
    Ext { text: "$boxed::Box<dyn for<'zz> ::core::iter::Iterator<Item = u32> + '!>", mk: |n| format!("it{}", n), dflt: None, clone: false, traits: false },
    Ext { text: "unsafe extern \"C\" fn(*const u8, u32) -> u32", mk: |_| "uf".into(), dflt: None, clone: true, traits: true },
];
fn ext_text(s: &str, lt: &str) -> String {
    let mut o = s.replace("'!", lt);
    while let Some(i) = o.find('$') {
        let e = i + 1 + o[i + 1..].find("::").unwrap();
        let m = o[i + 1..e].to_string();
        let n: String = o[e + 2..].chars().take_while(|c| c.is_alphanumeric()).collect();
        let full = if ["Box", "String"].contains(&n.as_str()) { std_ty(&m, &n) } else { std_mod(&m, &n) };
        o.replace_range(i..e + 2 + n.len(), &full);
    }
    o
}

thread_local! { static STD: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") }; }
/// How types of std are written: `""` plainly, else through this path.
pub fn set_std(p: &'static str) {
    STD.with(|s| s.set(p))
}
fn std_ty(module: &str, n: &str) -> String {
    match STD.with(|s| s.get()) {
        "" => n.to_string(),
        "::std" => format!("::std::{}::{}", module, n),
        p => format!("{}::{}", p, n),
    }
}
fn std_mod(module: &str, n: &str) -> String {
    match STD.with(|s| s.get()) {
        "" | "::std" => format!("::std::{}::{}", module, n),
        p => format!("{}::{}", p, n),
    }
}

impl Ty {
    pub fn is_clone(&self) -> bool {
        match self {
            Nc | Nn | NcColl | BoxNc => false,
            Ext(k) => EXT[*k].clone,
            W(t) | Vec(t) | Deque(t) | Opt(_, t) | OptAlias(t) | Mine(t, _) | Arr(t, _) | Param(_, t) | Alias(_, t) => t.is_clone(),
            _ => true,
        }
    }
    pub fn is_default(&self) -> bool {
        match self {
            Nd | Nn | RcNn | Fnp | Ref(_) => false,
            Ext(k) => EXT[*k].dflt.is_some(),
            Mine(t, _) => !t.has_param(),
            W(t) | Param(_, t) | Alias(_, t) => t.is_default(),
            Arr(t, n) => !*n && t.is_default(),
            _ => true,
        }
    }
    /// Has Debug and PartialEq.
    pub fn traits(&self) -> bool {
        match self {
            Ext(k) => EXT[*k].traits,
            W(t) | Vec(t) | Deque(t) | Opt(_, t) | OptAlias(t) | Mine(t, _) | Arr(t, _) | Param(_, t) | Alias(_, t) => t.traits(),
            _ => true,
        }
    }
    pub fn params(&self, out: &mut BTreeSet<String>) {
        match self {
            W(t) | Vec(t) | Deque(t) | Opt(_, t) | OptAlias(t) | Mine(t, _) | Arr(t, _) | Ph(t) | Ref(t) => t.params(out),
            Param(n, _) => {
                out.insert(n.clone());
            }
            _ => {}
        }
    }
    pub fn has_param(&self) -> bool {
        let mut s = BTreeSet::new();
        self.params(&mut s);
        !s.is_empty() || self.has_n()
    }
    pub fn has_n(&self) -> bool {
        match self {
            Arr(t, n) => *n || t.has_n(),
            W(t) | Vec(t) | Deque(t) | Opt(_, t) | OptAlias(t) | Mine(t, _) | Ph(t) => t.has_n(),
            _ => false,
        }
    }
    /// Text of the type; `lt` is the lifetime to write for references, `inst` replaces parameters.
    pub fn text(&self, lt: &str, inst: bool) -> String {
        let g = |t: &Ty| t.text(lt, inst);
        match self {
            U8 => "u8".into(),
            U32 => "u32".into(),
            I64 => "i64".into(),
            Usize => "usize".into(),
            Bool => "bool".into(),
            Char => "char".into(),
            Str => std_ty("string", "String"),
            Sstr => format!("&{} str", lt),
            Unit => "()".into(),
            // see `emit::no_self`
            Me => format!("::rt::Me<{}>", if inst { "SelfI__" } else { "Self__" }),
            Tr => "::rt::Tr".into(),
            Cp => "::rt::Cp".into(),
            Nd => "::rt::Nd".into(),
            Nc => "::rt::Nc".into(),
            Nn => "::rt::Nn".into(),
            Coll => "::rt::Coll".into(),
            NcColl => "::rt::NcColl".into(),
            W(t) => format!("::rt::W<{}>", g(t)),
            Vec(t) => format!("{}<{}>", std_ty("vec", "Vec"), g(t)),
            Deque(t) => format!("{}<{}>", std_mod("collections", "VecDeque"), g(t)),
            Set => format!("{}<u32>", std_mod("collections", "BTreeSet")),
            Map => format!("{}<u32, {}>", std_mod("collections", "BTreeMap"), g(&Str)),
            HMap => format!("{}<u32, u32>", std_mod("collections", "HashMap")),
            Opt(OptSp::Short, t) => format!("Option<{}>", g(t)),
            Opt(OptSp::Comma, t) => format!("Option<{},>", g(t)),
            Opt(OptSp::Turbo, t) => format!("Option::<{}>", g(t)),
            Opt(OptSp::Std, t) => format!("std::option::Option<{}>", g(t)),
            Opt(OptSp::Core, t) => format!("core::option::Option<{}>", g(t)),
            Opt(OptSp::AbsStd, t) => format!("::std::option::Option<{}>", g(t)),
            Opt(OptSp::AbsCore, t) => format!("::core::option::Option<{}>", g(t)),
            Alias(n, t) => if inst { g(t) } else { n.clone() },
            OptAlias(t) => format!("::rt::MyOpt<{}>", g(t)),
            Mine(t, q) => format!("::rt::{}::Option<{}>", if *q { "mine" } else { "option" }, g(t)),
            Ct => "::rt::Ct".into(),
            Life(b) => format!("&{} ()", if inst { "'static" } else { b }),
            Tup => format!("(u32, {})", g(&Str)),
            Arr(t, n) => format!("[{}; {}]", g(t), if *n && !inst { "N" } else { "2" }),
            BoxU32 => format!("{}<u32>", std_ty("boxed", "Box")),
            BoxTr => format!("{}<::rt::Tr>", std_ty("boxed", "Box")),
            BoxNc => format!("{}<::rt::Nc>", std_ty("boxed", "Box")),
            RcNn => format!("{}<::rt::Nn>", std_mod("rc", "Rc")),
            Fnp => "fn(u32) -> u32".into(),
            Ph(t) => format!("::core::marker::PhantomData<{}>", g(t)),
            Ext(k) => ext_text(EXT[*k].text, lt),
            Ref(t) => format!("&{} {}", lt, g(t)),
            Param(n, t) => {
                if inst {
                    g(t)
                } else {
                    n.clone()
                }
            }
        }
    }
    pub fn uses_lt(&self) -> bool {
        match self {
            Sstr | Ref(_) | Life(_) => true,
            Ext(k) => EXT[*k].text.contains("'!"),
            W(t) | Vec(t) | Deque(t) | Opt(_, t) | OptAlias(t) | Mine(t, _) | Arr(t, _) | Ph(t) => t.uses_lt(),
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub enum VisOpt {
    #[default]
    None,
    Public,
    Private,
    Vis(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Each {
    pub name: String,
    pub into: Option<bool>,
    /// written `each = "n"` (only without `into`)
    pub short: bool,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct SetOpts {
    /// `#[builder(setter)]`
    pub word: bool,
    pub prefix: Option<String>,
    pub name: Option<String>,
    pub into: Option<bool>,
    pub strip: Option<bool>,
    pub skip: Option<bool>,
    pub custom: Option<bool>,
    pub each: Option<Each>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum DKind {
    /// `default`
    Word,
    Call,
    Q,
    Ret,
    Stmts,
    If,
    SelfRead(usize),
    SelfCall,
    Lit(String, String), // source, shown value
}
#[derive(Clone, PartialEq, Debug)]
pub struct Def {
    pub kind: DKind,
    pub quoted: bool,
}
#[derive(Clone, PartialEq, Debug)]
pub enum CBuild {
    /// computed from what is stored in the field itself
    Own,
    Q,
    Ret,
    /// reads another field
    Other(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Field {
    pub name: String,
    pub vis: String,
    pub ty: Ty,
    pub pat: Option<Pat>,
    pub set: SetOpts,
    pub def: Option<Def>,
    pub try_setter: bool,
    pub setter_vis: VisOpt,
    pub field_vis: VisOpt,
    pub cty: Option<Ty>,
    pub cbuild: Option<(CBuild, bool)>,
    pub lay: u16,
    /// further attributes, written among the `builder` ones
    pub attrs: std::vec::Vec<String>,
    /// injected options: (list, item), the list empty for the top level
    pub inj: std::vec::Vec<(String, String)>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum ErrK {
    /// none given
    Gen,
    /// `error(validation_error = true)`
    GenTrue,
    /// `error(validation_error = false)`
    NoVal,
    Custom,
    Generic,
    /// user-provided, without the conversion from UninitializedFieldError
    Plain,
}
#[derive(Clone, PartialEq, Debug)]
pub enum ValK {
    SelfFn,
    BuilderFn,
    Free,
    ModFree,
    /// ends in the builder's own error type
    FreeOwnErr,
}

#[derive(Clone, PartialEq, Debug)]
pub struct TParam {
    pub name: String,
    pub inst: Ty,
    pub where_bound: bool,
    pub dflt: bool,
    pub bounds: Vec2,
}
pub type Vec2 = std::vec::Vec<&'static str>;

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Gens {
    pub lt: bool,
    pub tys: std::vec::Vec<TParam>,
    pub n: bool,
    /// a second lifetime
    pub lt2: bool,
    /// further where clauses
    pub wher: std::vec::Vec<String>,
    /// `const C: char`
    pub c: bool,
    /// N has a default
    pub ndef: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Spec {
    pub name: String,
    pub vis: String,
    pub gens: Gens,
    pub fields: std::vec::Vec<Field>,
    pub pat: Option<Pat>,
    pub bname: Option<String>,
    pub bvis: VisOpt,
    pub prefix: Option<String>,
    pub into: Option<bool>,
    pub strip: Option<bool>,
    pub skip: Option<bool>,
    pub try_setter: bool,
    pub def: Option<Def>,
    pub build_name: Option<String>,
    pub build_skip: bool,
    pub build_vis: VisOpt,
    pub validate: Option<ValK>,
    pub err: ErrK,
    pub derives: std::vec::Vec<&'static str>,
    pub custom_ctor: bool,
    pub create_empty: Option<String>,
    pub field_vis: VisOpt,
    pub no_std: bool,
    /// user code: a constructor that starts from the empty builder and presets these fields
    pub preset: Option<std::vec::Vec<usize>>,
    /// user code: a method called `build` beside a renamed or skipped one
    pub own_build: bool,
    /// user code: `Default` through the user's constructor
    pub own_default: bool,
    pub lay: u16,
    pub crate_root: Option<String>,
    pub attrs: std::vec::Vec<String>,
    pub inj: std::vec::Vec<(String, String)>,
    /// the struct's module stands apart from the user code and the interpreter
    pub host: Option<Host>,
    /// the struct is written by a macro_rules macro; which of its parts are arguments
    pub mac: Option<u64>,
    /// the macro is in another crate
    pub up: bool,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Host {
    /// what the struct's module defines
    pub defs: std::vec::Vec<String>,
    /// path of std's types in that module
    pub std: &'static str,
    /// path of the derive macro
    pub derive: String,
    /// attributes and imports of the user's module
    pub user: &'static str,
}

pub struct Tape<'a> {
    v: &'a [u16],
    i: usize,
}
impl<'a> Tape<'a> {
    pub fn new(v: &'a [u16]) -> Self {
        Tape { v, i: 0 }
    }
    pub fn next(&mut self) -> u16 {
        let x = self.v.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        x
    }
    /// true with probability p/1000; a zero cell is false
    pub fn chance(&mut self, p: u32) -> bool {
        let x = self.next() as u32;
        x * 1000 >= (1000 - p.min(1000)) * 65536 && x > 0
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() as usize * n) >> 16
    }
    pub fn pick(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = ((self.next() as u64 * t as u64) >> 16) as u32;
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        0
    }
    /// None with 1000-p, else Some(true) mostly
    pub fn tri(&mut self, p: u32) -> Option<bool> {
        let c = self.chance(p);
        let f = self.chance(300);
        if c {
            Some(!f)
        } else {
            None
        }
    }
}

/// Probabilities (per mille) and weights of a property's generator.
#[derive(Clone)]
pub struct Prof {
    pub fields: (usize, usize),
    pub hist: usize,
    pub ops: usize,
    /// weights: none, mutable, owned, immutable
    pub spat: [u32; 4],
    pub fpat: [u32; 4],
    pub into_s: u32,
    pub into_f: u32,
    pub strip_s: u32,
    pub strip_f: u32,
    pub try_s: u32,
    pub try_f: u32,
    pub skip_s: u32,
    pub skip_f: u32,
    pub word_f: u32,
    pub custom: u32,
    pub each: u32,
    pub prefix_s: u32,
    pub prefix_f: u32,
    pub name_f: u32,
    pub def_f: u32,
    pub def_s: u32,
    pub validate: u32,
    /// weights: Gen, GenTrue, NoVal, Custom, Generic, Plain
    pub err: [u32; 6],
    pub cty: u32,
    pub cbuild: u32,
    pub ctor: u32,
    pub empty: u32,
    pub bname: u32,
    pub build_name: u32,
    pub build_skip: u32,
    pub vis: u32,
    pub derive: u32,
    pub no_std: u32,
    pub generics: u32,
    pub weird_names: u32,
    pub opt_ty: u32,
    pub coll_ty: u32,
    pub odd_ty: u32,
    /// bounds, where clauses, further lifetimes and const parameters
    pub rich: u32,
    pub user_ctor: u32,
}

pub fn base() -> Prof {
    Prof {
        fields: (1, 6),
        hist: 60,
        ops: 14,
        spat: [3, 2, 4, 3],
        fpat: [12, 1, 1, 1],
        into_s: 150,
        into_f: 200,
        strip_s: 150,
        strip_f: 200,
        try_s: 100,
        try_f: 150,
        skip_s: 60,
        skip_f: 100,
        word_f: 100,
        custom: 60,
        each: 150,
        prefix_s: 100,
        prefix_f: 100,
        name_f: 100,
        def_f: 300,
        def_s: 120,
        validate: 150,
        err: [8, 1, 1, 2, 1, 1],
        cty: 80,
        cbuild: 80,
        ctor: 80,
        empty: 80,
        bname: 80,
        build_name: 80,
        build_skip: 0,
        vis: 80,
        derive: 150,
        no_std: 60,
        generics: 250,
        weird_names: 200,
        opt_ty: 250,
        coll_ty: 200,
        odd_ty: 300,
        rich: 250,
        user_ctor: 100,
    }
}

const PLAIN: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];
/// Names that generated code might use itself, keywords as raw identifiers, non-ASCII names.
const WEIRD: [&str; 56] = [
    "value", "new", "item", "converted", "clone", "into", "try_into", "extend", "default", "from", "builder",
    "build_", "field", "field_name", "error", "validation_error", "create", "s", "x", "_x", "__y", "self_", "this",
    "r#type", "r#fn", "r#match", "r#struct", "r#loop", "r#move", "r#async", "r#impl", "r#where", "r#use", "größe",
    "名前", "é", "ключ", "a1", "aa_b", "get_or_insert_with", "some", "none", "ok", "err", "result", "option", "core",
    "std", "alloc", "derive_builder", "export", "string", "u32", "str", "fmt", "write",
];

fn any_leaf(t: &mut Tape, p: &Prof, clone: bool, default: bool) -> Ty {
    let odd = t.chance(p.odd_ty);
    let pool: std::vec::Vec<Ty> = if !odd {
        vec![U32, Str, Tr, Cp, Bool, U8, I64, Sstr]
    } else {
        let mut pool = vec![
            Nd, Nc, Nn, Unit, Char, Tup, Arr(Box::new(U32), false), BoxU32, BoxTr, BoxNc, RcNn, Fnp, Ph(Box::new(Nn)),
            Ref(Box::new(U32)), Ref(Box::new(Nn)), W(Box::new(Tr)), W(Box::new(Str)), Usize, W(Box::new(Nd)),
            Arr(Box::new(Str), false), Ct, Ct, Me, Me,
        ];
        pool.extend((0..EXT.len()).map(Ext));
        pool
    };
    let pool: std::vec::Vec<Ty> =
        pool.into_iter().filter(|x| (!clone || x.is_clone()) && (!default || x.is_default())).collect();
    pool[t.below(pool.len())].clone()
}

fn coll(t: &mut Tape, clone: bool, params: &[TParam]) -> Ty {
    let mut pool = vec![
        Vec(Box::new(U32)), Vec(Box::new(Str)), Coll, Deque(Box::new(U32)), Set, Map, Vec(Box::new(Tr)), HMap, NcColl,
        Vec(Box::new(Nc)), Vec(Box::new(Me)), Str, Vec(Box::new(Vec(Box::new(U8)))), Vec(Box::new(Opt(OptSp::Short, Box::new(U32)))),
    ];
    for q in params {
        pool.push(Vec(Box::new(Param(q.name.clone(), Box::new(q.inst.clone())))));
    }
    let pool: std::vec::Vec<Ty> = pool.into_iter().filter(|x| !clone || x.is_clone()).collect();
    pool[t.below(pool.len())].clone()
}

/// Types for which rt has `Option<T>: Mk` (see the list there).
pub fn opt_ok(t: &Ty) -> bool {
    match t {
        U8 | U32 | Usize | Bool | Str | Sstr | Unit | Tr | Cp | Nd | Nc | Nn | Me | Coll | NcColl | W(_) | Vec(_)
        | Deque(_) | Set | Map | Tup | Arr(..) | Ext(_) => true,
        Opt(_, t) => matches!(**t, U32 | Tr | Str),
        Param(_, t) => opt_ok(t),
        _ => false,
    }
}

fn any_ty(t: &mut Tape, p: &Prof, clone: bool, default: bool, params: &[TParam], n: bool) -> Ty {
    let up = t.next();
    let leaf = if !params.is_empty() && up > 32768 {
        let q = &params[(up as usize) % params.len()];
        let prm = Param(q.name.clone(), Box::new(q.inst.clone()));
        let shape = t.pick(&[5, 1, 1, 1, 1]);
        let x = match shape {
            0 => prm,
            1 => Vec(Box::new(prm)),
            2 => W(Box::new(prm)),
            3 if n => Arr(Box::new(prm), true),
            _ => Ph(Box::new(prm)),
        };
        if (clone && !x.is_clone()) || (default && !x.is_default()) {
            Ph(Box::new(Param(q.name.clone(), Box::new(q.inst.clone()))))
        } else {
            x
        }
    } else {
        let _ = t.next();
        any_leaf(t, p, clone, default)
    };
    let wrap = t.chance(p.opt_ty);
    let c = t.chance(p.coll_ty);
    let sp = t.pick(&[5, 1, 1, 1, 2, 1, 1, 1]);
    let leaf = if c { coll(t, clone, params) } else { leaf };
    if wrap && sp >= 6 && !(default && leaf.has_param()) {
        return Mine(Box::new(leaf), sp == 6);
    }
    if wrap && opt_ok(&leaf) && (!default || true) {
        match sp {
            0 => Opt([OptSp::Short, OptSp::Short, OptSp::Short, OptSp::Comma, OptSp::Turbo][up as usize % 5], Box::new(leaf)),
            1 => Opt(OptSp::Std, Box::new(leaf)),
            2 => Opt(OptSp::Core, Box::new(leaf)),
            3 => Opt(OptSp::AbsStd, Box::new(leaf)),
            4 => {
                // two layers, exactly one of which is stripped
                if matches!(leaf, U32 | Tr | Str) {
                    Opt(OptSp::Short, Box::new(Opt(OptSp::Short, Box::new(leaf))))
                } else {
                    Opt(OptSp::Short, Box::new(leaf))
                }
            }
            _ => OptAlias(Box::new(leaf)),
        }
    } else {
        leaf
    }
}

/// Collections that an each setter can be generated for, and whether item conversion can be inferred.
pub fn each_items(t: &Ty) -> Option<(Ty, bool)> {
    match t {
        Vec(i) | Deque(i) => {
            let conv = matches!(**i, Str | Nc | Nd) || matches!(**i, Tr);
            Some(((**i).clone(), conv))
        }
        Coll => Some((U32, true)),
        NcColl => Some((Nc, true)),
        Set => Some((U32, false)),
        Map => Some((Tup, true)),
        HMap => None,
        Str => None,
        _ => None,
    }
}

fn vis_opt(t: &mut Tape, p: u32) -> VisOpt {
    let c = t.chance(p);
    let k = t.below(4);
    if !c {
        return VisOpt::None;
    }
    match k {
        0 => VisOpt::Public,
        1 => VisOpt::Private,
        2 => VisOpt::Vis("pub(crate)".into()),
        _ => VisOpt::Vis("pub(super)".into()),
    }
}

/// Decodes a struct. Everything decoded is inside the documented domain: the field types meet the
/// requirements of the options, and no options conflict.
pub fn decode(p: &Prof, st: &[u16], ft: &[std::vec::Vec<u16>]) -> Spec {
    let mut t = Tape::new(st);
    let t = &mut t;
    let spat = [None, Some(Pat::Mutable), Some(Pat::Owned), Some(Pat::Immutable)][t.pick(&p.spat)];
    let name = if t.chance(p.weird_names / 2) { ["Größe", "r#S", "Builder", "Value", "T1"][t.below(5)] } else { t.next(); "S" };
    let bname = {
        let c = t.chance(p.bname);
        let k = t.below(4);
        if c { Some(["MyB", "Bld", "r#Qb", "SB"][k].to_string()) } else { None }
    };
    let bvis = vis_opt(t, p.vis);
    let prefix = {
        let c = t.chance(p.prefix_s);
        let k = t.below(5);
        if c { Some(["with", "set", "r#use", "with_", "é"][k].to_string()) } else { None }
    };
    let into = t.tri(p.into_s);
    let strip = t.tri(p.strip_s);
    let skip = t.tri(p.skip_s);
    let try_s = t.chance(p.try_s);
    let def_s = t.chance(p.def_s);
    let def_k = t.pick(&[3, 3, 2, 2, 1]);
    let def_quoted = t.next() % 2 == 1;
    let build_name = {
        let c = t.chance(p.build_name);
        let k = t.below(4);
        if c { Some(["finish", "create", "into_target", "r#final"][k].to_string()) } else { None }
    };
    let build_vis = vis_opt(t, p.vis);
    let validate = {
        let c = t.chance(p.validate);
        let k = t.pick(&[2, 1, 2, 1, 1]);
        if c { Some([ValK::SelfFn, ValK::BuilderFn, ValK::Free, ValK::ModFree, ValK::FreeOwnErr][k].clone()) } else { None }
    };
    let mut err = [ErrK::Gen, ErrK::GenTrue, ErrK::NoVal, ErrK::Custom, ErrK::Generic, ErrK::Plain][t.pick(&p.err)].clone();
    if validate.is_some() && err == ErrK::NoVal {
        err = ErrK::Gen;
    }
    let derives = {
        let a = t.chance(p.derive);
        let b = t.chance(p.derive);
        let mut v = vec![];
        if a { v.push("Debug") }
        if b { v.push("PartialEq") }
        v
    };
    let custom_ctor = t.chance(p.ctor);
    let create_empty = {
        let c = t.chance(p.empty);
        let k = t.below(3);
        if c { Some(["blank", "r#static", "void_"][k].to_string()) } else { None }
    };
    let field_vis = vis_opt(t, p.vis);
    let no_std = t.chance(p.no_std);
    let build_skip = t.chance(p.build_skip);
    let lay = t.next();
    let gens_on = t.chance(p.generics);
    let g_lt = t.next() > 40000;
    let g_n = t.next() > 50000;
    let g_k = t.pick(&[2, 4, 2]);
    let g_insts = [t.next(), t.next(), t.next(), t.next()];
    let sty_vis = ["", "pub ", "pub(crate) "][t.pick(&[2, 4, 1])].to_string();
    let user_ctor = t.chance(p.user_ctor);
    let preset_mask = t.next();
    let own_build = t.chance(p.user_ctor);
    let own_default = t.chance(500);
    let name = name.to_string();
    let rich = t.chance(p.rich) && gens_on;
    let rc: [u16; 6] = [t.next(), t.next(), t.next(), t.next(), t.next(), t.next()];

    // first pass: patterns and hiding, on which the admissible types depend
    let nf = ft.len();
    let mut fpat = vec![];
    let mut sets = vec![];
    for f in ft {
        let mut t = Tape::new(f);
        let t = &mut t;
        fpat.push([None, Some(Pat::Mutable), Some(Pat::Owned), Some(Pat::Immutable)][t.pick(&p.fpat)]);
        let mut s = SetOpts::default();
        if t.chance(p.word_f) {
            s.word = true;
        }
        s.into = t.tri(p.into_f);
        s.strip = t.tri(p.strip_f);
        s.skip = if t.chance(p.skip_f) { Some(true) } else { None };
        let unskip = t.chance(100);
        if unskip && skip == Some(true) {
            s.skip = Some(false);
        }
        let c = t.chance(p.custom);
        let cf = t.chance(200);
        if c {
            s.custom = Some(!cf);
        }
        let c = t.chance(p.prefix_f);
        let k = t.below(4);
        if c {
            s.prefix = Some(["my", "put", "r#in", "名"][k].to_string());
        }
        let c = t.chance(p.name_f);
        if c {
            s.name = Some(String::new()); // named below
        }
        if s.word {
            s = SetOpts { word: true, ..SetOpts::default() };
        }
        sets.push(s);
    }
    let eff: std::vec::Vec<Pat> = fpat.iter().map(|x| x.or(spat).unwrap_or(Pat::Mutable)).collect();
    let needs_clone = spat.unwrap_or(Pat::Mutable) != Pat::Owned || eff.iter().any(|x| *x != Pat::Owned);

    let mut gens = Gens::default();
    if gens_on {
        gens.lt = g_lt;
        gens.n = g_n;
        for i in 0..g_k {
            let pool: &[Ty] = if needs_clone { &[Tr, Nd, Str, U32] } else { &[Tr, Nn, Nc, Str, Nd] };
            let inst = pool[(g_insts[i] as usize * pool.len()) >> 16].clone();
            gens.tys.push(TParam {
                name: (if rich && rc[5] % 3 == 1 { ["Item", "E"] } else if rich && rc[5] % 3 == 2 { ["r#Type", "Übung"] } else { ["T", "U"] })[i].to_string(),
                inst,
                where_bound: g_insts[2] % 2 == 1,
                dflt: g_insts[3] % 4 == 1 && i + 1 == g_k && !g_n,
                bounds: vec![],
            });
        }
    }

    if rich {
        gens.lt2 = gens.lt && rc[0] % 2 == 1;
        gens.c = rc[0] >> 1 & 3 == 3;
        gens.ndef = gens.n && rc[0] >> 3 & 1 == 1;
        for (i, q) in gens.tys.iter_mut().enumerate() {
            q.dflt = rc[0] >> 4 & 3 != 0 && i + 1 == g_k && (!gens.n || gens.ndef) && !gens.c;
        }
    }

    let mut used_names: BTreeSet<String> = BTreeSet::new();
    let mut fields: std::vec::Vec<Field> = vec![];
    for (i, f) in ft.iter().enumerate() {
        let mut t = Tape::new(f);
        t.i = 20;
        let t = &mut t;
        let mut s = sets[i].clone();
        let wname = t.chance(p.weird_names);
        let k = t.below(WEIRD.len());
        let mut nm = if wname { WEIRD[k].to_string() } else { PLAIN[i % 8].to_string() };
        while !used_names.insert(unraw(&nm).to_string()) {
            nm = format!("{}{}", unraw(&nm), i);
        }
        let fvis = ["", "pub ", "pub(crate) "][t.pick(&[3, 2, 1])].to_string();
        // an each setter forces the field to be shown
        let want_each = t.chance(p.each) && !s.word && s.skip.is_none();
        let e_into = t.tri(400);
        let e_short = t.next() % 2 == 0;
        let want_def = t.chance(p.def_f);
        let want_cty = t.chance(p.cty);
        let want_cb = t.chance(p.cbuild);
        let cb_k = t.pick(&[3, 2, 1, 2]);
        let cb_q = t.next() % 2 == 0;
        let dk = t.pick(&[3, 2, 2, 1, 1, 1, 2, 1, 2]);
        let d_arg = t.next();
        let dq = t.next() % 2 == 0;
        let cty_same = t.next() % 2 == 0;
        let tryf = t.chance(p.try_f);
        let setter_vis = vis_opt(t, p.vis);
        let field_vis_f = vis_opt(t, p.vis);
        let lay = t.next();

        let hidden_pre = {
            // C04's rule, applied while generating so that types can be chosen
            if let Some(x) = s.skip { x }
            else if s.word || s.prefix.is_some() || s.name.is_some() || s.into.is_some() || s.strip.is_some() || want_each { false }
            else { skip == Some(true) }
        };
        // struct-level skip together with field-level custom is left out
        if skip == Some(true) && s.custom == Some(true) {
            s.custom = None;
        }
        if s.skip == Some(true) && s.custom == Some(true) {
            s.custom = None;
        }
        let hidden = hidden_pre;
        let need_default_ty = hidden && (!want_def || want_cty) && !def_s;
        let mut ty = any_ty(t, p, needs_clone && !hidden, need_default_ty, &gens.tys, gens.n);
        // an own `default` word also needs Default; handled by picking another kind
        let mut each = None;
        if want_each && !hidden {
            let stripf = s.strip.or(strip).unwrap_or(false);
            let mut c = coll(t, needs_clone, &gens.tys);
            if each_items(&c).is_none() {
                c = Vec(Box::new(Str));
            }
            let opt = t.chance(if stripf { 600 } else { 0 });
            let (_, conv) = each_items(&c).unwrap();
            ty = if opt { Opt(OptSp::Short, Box::new(c)) } else { c };
            let into = if conv { e_into } else { None };
            each = Some(Each { name: String::new(), into, short: e_short && into.is_none() });
        }
        s.each = each;
        let mut def = None;
        let mut cty = None;
        let mut cbuild = None;
        if want_cty && hidden {
            // never used, whatever it is
            cty = Some(any_ty(t, p, false, false, &[], false));
        }
        if want_cty && !hidden {
            if cty_same {
                cty = Some(ty.clone());
            } else if s.each.is_none() {
                cty = Some(any_ty(t, p, needs_clone, true, &[], false));
                cbuild = Some((CBuild::Own, cb_q));
            } else {
                cty = Some(ty.clone());
            }
            if !cty.as_ref().unwrap().is_default() || cty == Some(Ct) || cty.as_ref().unwrap().has_param() {
                cty = None;
                cbuild = None;
            }
        }
        if want_cb && !hidden && cbuild.is_none() {
            cbuild = Some((CBuild::Own, cb_q));
        }
        if let Some((k, _)) = &mut cbuild {
            *k = match cb_k { 0 => CBuild::Own, 1 => CBuild::Q, 2 => CBuild::Ret, _ => CBuild::Other(d_arg as usize) };
        }
        if cty.is_none() && cbuild.is_none() && want_def {
            let kind = match dk {
                0 => DKind::Call,
                1 => DKind::Word,
                2 => DKind::Q,
                3 => DKind::Ret,
                4 => DKind::Stmts,
                5 => DKind::If,
                6 => DKind::SelfRead(d_arg as usize),
                7 => DKind::SelfCall,
                _ => match ty {
                    U32 => DKind::Lit(format!("{}", 40 + i), format!("{}u32", 40 + i)),
                    Bool => DKind::Lit("true".into(), "true".into()),
                    Str => DKind::Lit(format!("::rt::st(\"l{}\")", i), format!("\"l{}\"", i)),
                    I64 => DKind::Lit("-7".into(), "-7i64".into()),
                    Opt(OptSp::Short, _) => DKind::Lit("::core::option::Option::None".into(), "None".into()),
                    _ => DKind::Call,
                },
            };
            let kind = if kind == DKind::Word && !ty.is_default() { DKind::Call } else { kind };
            def = Some(Def { kind, quoted: dq });
        }
        fields.push(Field {
            name: nm,
            vis: fvis,
            ty,
            pat: fpat[i],
            set: s,
            def,
            try_setter: tryf,
            setter_vis,
            field_vis: field_vis_f,
            cty,
            cbuild,
            lay,
            attrs: vec![],
            inj: vec![],
        });
    }

    // resolve references to other fields: fields with a stored value that is readable in that place
    let spat_eff = spat.unwrap_or(Pat::Mutable);
    let hid: std::vec::Vec<bool> = fields.iter().map(|f| crate::model::hidden_f(skip, f)).collect();
    for i in 0..nf {
        let readable = |g: usize| !hid[g] && g > i && !fields[g].ty.has_param() && fields[g].cty.as_ref().map_or(true, |c| !c.has_param());
        let cands: std::vec::Vec<usize> = (0..nf)
            .filter(|&g| {
                if spat_eff == Pat::Owned { readable(g) } else { g != i && !hid[g] && !fields[g].ty.has_param() }
            })
            .collect();
        let self_call_ok = spat_eff != Pat::Owned && !gens_on;
        if let Some(d) = &mut fields[i].def {
            if let DKind::SelfRead(a) = d.kind {
                d.kind = if cands.is_empty() { DKind::Call } else { DKind::SelfRead(cands[a % cands.len()]) };
            }
            if d.kind == DKind::SelfCall && !self_call_ok {
                d.kind = DKind::Call;
            }
        }
        if let Some((CBuild::Other(a), q)) = fields[i].cbuild.clone() {
            fields[i].cbuild = Some((if cands.is_empty() { CBuild::Q } else { CBuild::Other(cands[a % cands.len()]) }, q));
        }
        if let Some((CBuild::Own, q)) = fields[i].cbuild.clone() {
            if fields[i].ty.has_param() {
                fields[i].cbuild = Some((CBuild::Q, q));
            }
        }
    }

    // every parameter must be used
    for q in gens.tys.clone() {
        let mut u = BTreeSet::new();
        // a builder field with a type of its own does not mention the parameter
        for f in fields.iter().filter(|f| f.cty.is_none()) {
            f.ty.params(&mut u);
        }
        if !u.contains(&q.name) {
            fields.push(extra_field(&mut used_names, &format!("p{}", unraw(&q.name).to_lowercase()), Ph(Box::new(Param(q.name.clone(), Box::new(q.inst))))));
        }
    }
    if gens.lt && !fields.iter().any(|f| f.ty.uses_lt() && f.cty.is_none()) {
        fields.push(extra_field(&mut used_names, "plt", Ref(Box::new(U32))));
    }
    if gens.lt2 {
        fields.push(extra_field(&mut used_names, "plt2", Ph(Box::new(Life("'b".into())))));
    }
    // a const parameter may stay unused
    let def = if def_s {
        Some(Def {
            kind: [DKind::Call, DKind::Word, DKind::Q, DKind::Stmts, DKind::Ret][def_k].clone(),
            quoted: def_quoted,
        })
    } else {
        None
    };

    let mut sp = Spec {
        name, vis: sty_vis, gens, fields, pat: spat, bname, bvis, prefix, into, strip, skip, try_setter: try_s, def,
        build_name, build_skip, build_vis, validate, err, derives, custom_ctor, create_empty, field_vis, no_std,
        preset: if user_ctor { Some(vec![preset_mask as usize]) } else { None }, own_build, own_default, lay,
        crate_root: None, attrs: vec![], inj: vec![], host: None, mac: None, up: false,
    };
    finish(&mut sp);
    if sp.gens == Gens::default() {
        for f in &mut sp.fields {
            if f.ty == Arr(Box::new(U32), false) && f.lay & 1 == 1 {
                f.ty = Alias("[u32; Self__::SZ]".into(), Box::new(f.ty.clone()));
            }
        }
    }
    if rich {
        enrich(&mut sp, &rc);
    }
    sp
}

/// Bounds and where clauses that hold for every instance.
fn enrich(sp: &mut Spec, rc: &[u16; 6]) {
    const B: [&str; 8] = [
        "::rt::Any_", "for<'x> ::rt::Hr<'x>", "::rt::As", "::rt::G2<u8>", "::core::marker::Sized", "::rt::As<Out = ::rt::Cp>", "::rt::G2<::rt::Nn, ::rt::Nn>",
        "::rt::G2<*const Self__>",
    ];
    let n = sp.gens.n;
    let lt = sp.gens.lt;
    for (i, q) in sp.gens.tys.iter_mut().enumerate() {
        let r = (rc[1 + i % 2] >> 2) as usize;
        for k in 0..r % 4 {
            let b = B[(r >> (2 + 3 * k)) % B.len()];
            if !q.bounds.contains(&b) {
                q.bounds.push(b);
            }
        }
        if r >> 11 & 3 == 3 {
            q.bounds.push(if lt { "'a" } else { "'static" });
        }
        let w = (rc[3 + i % 2] >> 1) as usize;
        let t = &q.name;
        let pool = [
            format!("Vec<{}>: ::rt::Any_", t), format!("for<'x> &'x {}: ::rt::Any_", t), "u32: Copy".to_string(), format!("Option<{}>: Sized", t),
            format!("{}: ::rt::Any_ + ::rt::As", t), format!("{}: for<'x, 'y> ::rt::G2<&'x u8, &'y str>", t), "Self: ::rt::Any_".to_string(), "Self: ::rt::Same<Own__>".to_string(),
            if n { format!("[{}; N]: Sized", t) } else { format!("(): ::rt::G2<{}>", t) },
        ];
        for k in 0..w % 4 {
            sp.gens.wher.push(pool[(w >> (2 + 3 * k)) % pool.len()].clone());
        }
        // only mentioned in PhantomData: may be unsized
        let only_ph = sp.fields.iter().all(|f| {
            let mut u = BTreeSet::new();
            f.ty.params(&mut u);
            !u.contains(t) || f.ty == Ph(Box::new(Param(t.clone(), Box::new(q.inst.clone()))))
        });
        if only_ph && !q.bounds.contains(&"::core::marker::Sized") && !sp.gens.wher.iter().any(|w| w.contains(&format!("<{}>", t)) || w.contains(&format!("[{}", t)))
            && w >> 12 & 1 == 1
        {
            q.bounds.push("?Sized");
            // the user's own expressions might need a sized type
            if q.bounds.iter().any(|b| *b == "::rt::Mk" || b.ends_with("Default")) {
                q.bounds.pop();
            }
        }
    }
    if sp.gens.lt2 && rc[3] % 2 == 1 {
        sp.gens.wher.push("'b: 'a".into());
    }
}

fn extra_field(used: &mut BTreeSet<String>, n: &str, ty: Ty) -> Field {
    let mut nm = n.to_string();
    while !used.insert(nm.clone()) {
        nm.push('_');
    }
    Field {
        name: nm, vis: String::new(), ty, pat: None, set: SetOpts { word: true, ..Default::default() }, def: None,
        try_setter: false, setter_vis: VisOpt::None, field_vis: VisOpt::None, cty: None, cbuild: None, lay: 0,
        attrs: vec![], inj: vec![],
    }
}

pub fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}

/// Gives unique method names, drops what the final combination does not admit and computes bounds.
fn finish(sp: &mut Spec) {
    let mut taken: BTreeSet<String> = BTreeSet::new();
    for r in ["user_validate", "helper_", "preset_user"] {
        taken.insert(r.to_string());
    }
    taken.insert(unraw(sp.build_name.as_deref().unwrap_or("build")).to_string());
    taken.insert(unraw(sp.create_empty.as_deref().unwrap_or("create_empty")).to_string());
    // `build` is taken by user code of its own when the build method is renamed or skipped
    taken.insert("build".to_string());
    let n = sp.fields.len();
    for i in 0..n {
        if crate::model::hidden(sp, i) {
            sp.fields[i].set.each = None;
        }
        let mut f = sp.fields[i].clone();
        if f.set.name.is_some() {
            f.set.name = Some(["put_it", "r#yield", "ünï", "value_of", "named"][i % 5].to_string());
        }
        let mut tries = 0;
        loop {
            sp.fields[i] = f.clone();
            let nm = crate::model::setter_name(sp, i);
            let tn = format!("try_{}", unraw(&nm));
            if !crate::model::has_setter(sp, i) || (!taken.contains(unraw(&nm)) && !taken.contains(&tn)) {
                if crate::model::has_setter(sp, i) {
                    taken.insert(unraw(&nm).to_string());
                    taken.insert(tn);
                }
                break;
            }
            tries += 1;
            f.set.name = Some(format!("n{}_{}", tries, i));
            f.set.word = false;
        }
        if let Some(e) = &mut f.set.each {
            let mut nm = ["add", "push_one", "r#mod", "和"][i % 4].to_string();
            while !taken.insert(unraw(&nm).to_string()) || !taken.insert(format!("try_{}", unraw(&nm))) {
                nm = format!("{}{}", unraw(&nm), i);
            }
            e.name = nm;
            sp.fields[i] = f;
        }
    }
    // each setters need the collection to be reached: with strip_option off, an Option is not extended
    for i in 0..n {
        if sp.fields[i].set.each.is_some() && crate::model::has_setter(sp, i) {
            let st = crate::model::strip(sp, i);
            let decl = crate::model::decl_ty(sp, i).clone();
            let coll = match (&decl, st) {
                (Opt(_, t), true) => (**t).clone(),
                (t, _) => t.clone(),
            };
            if each_items(&coll).is_none() {
                sp.fields[i].set.each = None;
                if !sp.fields[i].set.word {
                    sp.fields[i].set.skip = Some(false);
                }
            }
        }
    }
    // bounds that the user's own expressions need
    let mut need: std::collections::BTreeMap<String, BTreeSet<&'static str>> = Default::default();
    let gens = sp.gens.clone();
    let mut add = |t: &Ty, b: &[&'static str]| {
        let mut u = BTreeSet::new();
        t.params(&mut u);
        for x in u {
            need.entry(x).or_default().extend(b.iter().copied());
        }
    };
    for i in 0..n {
        let f = &sp.fields[i];
        let hid = crate::model::hidden(sp, i);
        if let Some(d) = &f.def {
            match d.kind {
                DKind::Word => if !matches!(f.ty, Ph(_) | Vec(_) | Deque(_) | Opt(..) | OptAlias(_)) { add(&f.ty, &["::core::default::Default"]) },
                DKind::Lit(..) => {}
                _ => add(&f.ty, &["::rt::Mk", "::rt::Sh"]),
            }
        } else if hid && sp.def.is_none() && !matches!(f.ty, Ph(_) | Vec(_) | Deque(_) | Opt(..) | OptAlias(_)) {
            add(&f.ty, &["::core::default::Default"]);
        }
        if f.cbuild.is_some() {
            add(&f.ty, &["::rt::Mk", "::rt::Sh"]);
        }
        if sp.def.is_some() {
            add(&f.ty, &["::rt::Mk", "::rt::Sh"]);
        }
    }
    for q in &mut sp.gens.tys {
        if let Some(b) = need.get(&q.name) {
            q.bounds = b.iter().copied().collect();
        }
        if q.dflt && !q.bounds.is_empty() {
            q.dflt = false;
        }
    }
    // [T; N] has no Mk for a symbolic N, so user expressions of such a type are left out
    if gens.n {
        for i in 0..n {
            if sp.fields[i].ty.has_n() {
                let hid = crate::model::hidden(sp, i);
                if sp.fields[i].def.is_some() || sp.def.is_some() || sp.fields[i].cbuild.is_some() || hid {
                    if let Arr(t, _) = sp.fields[i].ty.clone() {
                        sp.fields[i].ty = Arr(t, false);
                    } else if let Opt(s, t) = sp.fields[i].ty.clone() {
                        if let Arr(u, _) = *t {
                            sp.fields[i].ty = Opt(s, Box::new(Arr(u, false)));
                        }
                    } else if let Mine(t, _) = sp.fields[i].ty.clone() {
                        sp.fields[i].ty = *t;
                        if let Arr(u, _) = sp.fields[i].ty.clone() {
                            sp.fields[i].ty = Arr(u, false);
                        }
                    } else if let OptAlias(t) = sp.fields[i].ty.clone() {
                        if let Arr(u, _) = *t {
                            sp.fields[i].ty = OptAlias(Box::new(Arr(u, false)));
                        }
                    }
                }
            }
        }
    }
    if let Some(m) = sp.preset.clone() {
        let mask = m[0];
        let v = (0..n)
            .filter(|&i| {
                mask >> (i % 16) & 1 == 1 && !crate::model::hidden(sp, i) && !sp.fields[i].ty.has_param()
                    && !sp.fields[i].cty.as_ref().map_or(false, |c| c.has_param())
            })
            .collect();
        sp.preset = Some(v);
    }
    if sp.fields.iter().any(|f| !f.ty.traits() || f.cty.as_ref().map_or(false, |t| !t.traits())) {
        sp.derives.clear();
    }
    sp.own_build &= sp.build_skip || sp.build_name.is_some();
    sp.own_default &= sp.custom_ctor && sp.preset.is_some();
    // a user error type without the conversion is only usable when no field can be missing
    if sp.err == ErrK::Plain && (0..n).any(|i| crate::model::required(sp, i)) {
        sp.err = ErrK::Custom;
    }
}

/// Source and target slot, and so on.
#[derive(Clone, PartialEq, Debug)]
pub struct Hist {
    pub ops: std::vec::Vec<[u32; 5]>,
}
pub const NEW: u32 = 0;
pub const SET: u32 = 1;
pub const TRY: u32 = 2;
pub const EACH: u32 = 3;
pub const CLONE: u32 = 4;
pub const DUMP: u32 = 5;
pub const BUILD: u32 = 6;
pub const DIRECT: u32 = 7;
pub const FLAGS: u32 = 8;
pub const PROBE: u32 = 9;
/// conversions into the generated error and its text
pub const ERR: u32 = 10;
/// the user's own `build`
pub const OWN: u32 = 11;

pub fn decode_hist(sp: &Spec, w: &[u32; 9], tape: &[std::vec::Vec<u16>]) -> Hist {
    let n = sp.fields.len();
    let setters: std::vec::Vec<usize> = (0..n).filter(|&i| crate::model::has_setter(sp, i)).collect();
    let trys: std::vec::Vec<usize> = setters.iter().copied().filter(|&i| crate::model::has_try(sp, i)).collect();
    let eachs: std::vec::Vec<usize> = setters.iter().copied().filter(|&i| sp.fields[i].set.each.is_some()).collect();
    let directs: std::vec::Vec<usize> = (0..n).filter(|&i| !crate::model::hidden(sp, i)).collect();
    let mut w = *w;
    if setters.is_empty() { w[SET as usize] = 0 }
    if trys.is_empty() { w[TRY as usize] = 0 }
    if eachs.is_empty() { w[EACH as usize] = 0 }
    if directs.is_empty() { w[DIRECT as usize] = 0 }
    if !crate::model::is_clone(sp) { w[CLONE as usize] = 0 }
    if sp.build_skip { w[BUILD as usize] = 0 }
    // the order of the weights makes zero decode to a plain set (or a dump)
    let order = [SET, EACH, TRY, DIRECT, DUMP, BUILD, CLONE, NEW, FLAGS];
    let ww: std::vec::Vec<u32> = order.iter().map(|o| w[*o as usize]).collect();
    let c8 = tape.first().map_or(0, |o| o.get(8).copied().unwrap_or(0));
    let mut ops = vec![[NEW, 0, if sp.preset.is_some() { (c8 as u32 >> 1) % 3 } else { 0 }, 0, 0]];
    let mut live = 0u32;
    // often start from a builder that has everything it needs
    if tape.first().map_or(false, |o| o.get(8).copied().unwrap_or(0) > 26000) {
        let k = tape[0][8] as usize;
        let req: std::vec::Vec<usize> = (0..n).filter(|&i| crate::model::required(sp, i)).collect();
        for j in 0..req.len() {
            let f = req[(j + k) % req.len()];
            let nn = ((k >> 3) as u32 + 7 * j as u32) % 24;
            let code = if crate::model::has_setter(sp, f) { SET } else { DIRECT };
            ops.push([code, 0, f as u32, nn, 0]);
        }
    }
    for o in tape {
        let mut t = Tape::new(o);
        let code = order[t.pick(&ww)];
        let a = if t.chance(150) { t.below(3) as u32 } else { t.next(); live };
        let b = if t.chance(300) { t.below(3) as u32 } else { t.next(); a };
        let fi = t.next() as usize;
        let nn = t.below(24) as u32;
        let k = t.next();
        let slot = a << 8 | b;
        let sel = |v: &std::vec::Vec<usize>| v[fi * v.len() >> 16] as u32;
        match code {
            SET => {
                let f = sel(&setters);
                let into = crate::model::into(sp, f as usize);
                ops.push([SET, slot, f, nn, if into && k > 20000 { 1 } else { 0 }]);
                live = b;
            }
            TRY => {
                ops.push([TRY, slot, sel(&trys), nn, 0]);
                live = b;
            }
            EACH => {
                let f = sel(&eachs);
                let into = sp.fields[f as usize].set.each.as_ref().unwrap().into == Some(true);
                ops.push([EACH, slot, f, nn, into as u32]);
                live = b;
            }
            CLONE => ops.push([CLONE, slot, 0, 0, 0]),
            DUMP => ops.push([DUMP, slot, 0, 0, 0]),
            BUILD => ops.push([BUILD, slot, 0, 0, 0]),
            DIRECT => ops.push([DIRECT, slot, sel(&directs), nn, 0]),
            FLAGS => ops.push([FLAGS, 0, fi as u32 & k as u32, k as u32 & 3, if k as u32 >> 8 & 1 == 1 { nn } else { 0 }]),
            _ => {
                ops.push([NEW, b, (k % if sp.preset.is_some() { 3 } else { 2 }) as u32, 0, 0]);
                live = b;
            }
        }
    }
    // finally look at every builder and build it
    for s in 0..3u32 {
        ops.push([DUMP, s << 8 | s, 0, 0, 0]);
        if !sp.build_skip {
            ops.push([BUILD, s << 8 | s, 0, 0, 0]);
        }
    }
    Hist { ops }
}
