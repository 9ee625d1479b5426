//! Runtime linked into every generated program: tracked field types, value
//! construction (`Mk`), canonical printing (`Sh`), convertible sources, the
//! event log and the driver that feeds operation histories to the interpreters.
#![allow(clippy::all)]
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::convert::TryFrom;
use std::marker::PhantomData;

pub use derive_builder;
pub use std::error::Error as StdError;
/// What a no_std user finds in alloc.
pub mod a {
    pub use std::borrow::{Cow, ToOwned};
    pub use std::boxed::Box;
    pub use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
    pub use std::rc::Rc;
    pub use std::string::{String, ToString};
    pub use std::vec::Vec;
    pub use std::{format, vec};
}
pub fn st(s: &str) -> String {
    s.to_string()
}

thread_local! {
    static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static FAIL: Cell<u64> = Cell::new(0);
}

pub fn ev<S: Into<String>>(s: S) {
    LOG.with(|l| l.borrow_mut().push(s.into()))
}
pub fn set_fail(m: u64) {
    FAIL.with(|f| f.set(m))
}
/// bit i: field i; 62: struct default; 63: validator
pub fn fail(i: u32) -> bool {
    FAIL.with(|f| f.get() >> i & 1 == 1)
}

thread_local! { static VMSG: Cell<u32> = Cell::new(0); }
/// What failing validators say.
pub fn set_vmsg(n: u32) {
    VMSG.with(|v| v.set(n))
}
pub fn vmsg() -> String {
    wild(VMSG.with(|v| v.get()))
}
/// Messages of all sorts, without line ends (traces are lines).
pub fn wild(n: u32) -> String {
    const T: [&str; 12] = [
        "vmsg", "", "{}", "a {b} `c` {{}} %s \\n", "größe 名前", "  x  ", "`f` must be initialized", "\u{1f980}\t\u{0}\"'", "{0:?} {1}", "ValidationError",
        "q", "r#type",
    ];
    if n < 12 { T[n as usize].to_string() } else { format!("{}-{}{}", T[(n % 12) as usize], n, T[(n / 12 % 12) as usize]) }
}
pub fn ustr(n: u32) -> &'static str {
    ["x", "", "r#type", "größe", "{}", "a b", "`"][(n % 7) as usize]
}
/// Conversions of a generated error: its text must be the one documented.
pub fn gen_err<E: std::fmt::Display + std::fmt::Debug>(v: Option<E>, u: E, n: u32) -> String {
    let mut s = String::from("e");
    if let Some(v) = v {
        s.push_str(&v.to_string());
        s.push(';');
    }
    let t = u.to_string();
    let t = t.strip_prefix('`').and_then(|t| t.strip_suffix("` must be initialized")).map(|t| t.to_string()).unwrap_or(format!("??{:?}", t));
    s.push_str(&t);
    let _ = n;
    s
}

pub trait Mk {
    fn mk(n: u32) -> Self;
}
pub fn mk<T: Mk>(n: u32) -> T {
    T::mk(n)
}
pub trait Sh {
    fn sh(&self) -> String;
}
pub fn sh<T: Sh + ?Sized>(t: &T) -> String {
    t.sh()
}

/// Converts into every `Mk` type, to the value `mk(n + 1000)`.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Src(pub u32);
/// Converts fallibly: error when n % 3 == 2, else `mk(n + 2000)`.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct TSrc(pub u32);
#[derive(Debug, Clone, PartialEq)]
pub struct TErr(pub u32);

macro_rules! conv {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> From<Src> for $t { fn from(s: Src) -> Self { <$t as Mk>::mk(s.0.wrapping_add(1000)) } }
        impl<$($g)*> TryFrom<TSrc> for $t {
            type Error = TErr;
            fn try_from(s: TSrc) -> Result<Self, TErr> {
                if s.0 % 3 == 2 { Err(TErr(s.0)) } else { Ok(<$t as Mk>::mk(s.0.wrapping_add(2000))) }
            }
        }
    };
}

macro_rules! leaf {
    ($([$($g:tt)*] $t:ty, |$n:ident| $mk:expr, |$s:ident| $sh:expr;)*) => {$(
        impl<$($g)*> Mk for $t { fn mk($n: u32) -> Self { $mk } }
        impl<$($g)*> Sh for $t { fn sh(&self) -> String { let $s = self; $sh } }
        conv!([$($g)*] $t);
    )*};
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tr(pub u32);
impl Default for Tr {
    fn default() -> Self {
        Tr(999)
    }
}
/// Copy type
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Cp(pub u32);
/// A type that mentions the struct.
pub struct Me<T: ?Sized>(pub u32, pub PhantomData<fn() -> *const T>);
impl<T: ?Sized> Clone for Me<T> { fn clone(&self) -> Self { Me(self.0, PhantomData) } }
impl<T: ?Sized> Default for Me<T> { fn default() -> Self { Me(0, PhantomData) } }
impl<T: ?Sized> PartialEq for Me<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: ?Sized> Eq for Me<T> {}
impl<T: ?Sized> PartialOrd for Me<T> { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T: ?Sized> Ord for Me<T> { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T: ?Sized> core::hash::Hash for Me<T> { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T: ?Sized> core::fmt::Debug for Me<T> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "Me{}", self.0) } }
/// Its `Default` is an event.
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ct(pub u32);
impl Default for Ct {
    fn default() -> Self {
        ev("df");
        Ct(997)
    }
}
/// A user's own types that are called Option.
pub mod mine {
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Option<T> {
        Yes(T),
        No,
    }
}
pub mod option {
    pub use crate::mine::Option;
}
/// no Default
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Nd(pub u32);
/// no Clone
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Nc(pub u32);
impl Default for Nc {
    fn default() -> Self {
        Nc(998)
    }
}
/// neither
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Nn(pub u32);
/// generic wrapper; derives put bounds on T
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct W<T>(pub T);
/// A collection whose `Default` is not empty.
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Coll(pub Vec<u32>);
impl Default for Coll {
    fn default() -> Self {
        Coll(vec![777])
    }
}
/// Not what an `each` setter should call.
impl Coll {
    pub fn extend(&mut self, _: &Coll) -> ! {
        panic!("the collection's own method")
    }
}
impl Extend<u32> for Coll {
    fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
/// Like `Coll`, neither Clone nor Debug-derived collections of non-Clone items.
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NcColl(pub Vec<Nc>);
impl Default for NcColl {
    fn default() -> Self {
        NcColl(vec![Nc(776)])
    }
}
impl NcColl {
    pub fn extend<T>(&self, _: T) {}
}
impl Extend<Nc> for NcColl {
    fn extend<I: IntoIterator<Item = Nc>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
pub type MyOpt<T> = Option<T>;
/// A type that merely is called Option when reached through this module.
pub mod opts {
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
    pub struct Optional<T>(pub Vec<T>);
}

/// Bounds that everything satisfies.
pub trait Any_ {}
impl<T: ?Sized> Any_ for T {}
pub trait Hr<'x> {}
impl<'x, T: ?Sized> Hr<'x> for T {}
pub trait As {
    type Out: Clone;
}
impl<T: ?Sized> As for T {
    type Out = Cp;
}
pub trait Same<A: ?Sized> {}
impl<A: ?Sized> Same<A> for A {}
pub trait G2<A, B = u32> {}
impl<A, B, T: ?Sized> G2<A, B> for T {}

fn list<'a, T: Sh + 'a, I: IntoIterator<Item = &'a T>>(i: I) -> String {
    format!("[{}]", i.into_iter().map(|x| x.sh()).collect::<Vec<_>>().join(","))
}

leaf! {
    [] u8, |n| n as u8, |s| format!("{}u8", s);
    [] u32, |n| n, |s| format!("{}u32", s);
    [] i64, |n| -(n as i64), |s| format!("{}i64", s);
    [] usize, |n| n as usize, |s| format!("{}us", s);
    [] bool, |n| n % 2 == 1, |s| format!("{}", s);
    [] char, |n| (b'a' + (n % 26) as u8) as char, |s| format!("'{}'", s);
    [] String, |n| format!("s{}", n), |s| format!("\"{}\"", s);
    [] (), |_n| (), |_s| "()".to_string();
    [] Tr, |n| Tr(n), |s| format!("Tr{}", s.0);
    [] Ct, |n| Ct(n), |s| format!("Ct{}", s.0);
    [] Cp, |n| Cp(n), |s| format!("Cp{}", s.0);
    [] Nd, |n| Nd(n), |s| format!("Nd{}", s.0);
    [] Nc, |n| Nc(n), |s| format!("Nc{}", s.0);
    [] Nn, |n| Nn(n), |s| format!("Nn{}", s.0);
    [] Coll, |n| Coll((0..n % 3).map(|i| n + i).collect()), |s| list(&s.0);
    [] NcColl, |n| NcColl((0..n % 3).map(|i| Nc(n + i)).collect()), |s| list(&s.0);
    [T: Mk + Sh] W<T>, |n| W(T::mk(n)), |s| format!("W({})", s.0.sh());
    [T: Mk + Sh] Vec<T>, |n| (0..n % 3).map(|i| T::mk(n + i)).collect(), |s| list(s);
    [T: Mk + Sh] VecDeque<T>, |n| (0..n % 3).map(|i| T::mk(n + i)).collect(), |s| list(s);
    [] BTreeSet<u32>, |n| (0..n % 3).map(|i| n + i).collect(), |s| list(s);
    [] BTreeMap<u32, String>, |n| (0..n % 3).map(|i| (n + i, String::mk(n))).collect(),
        |s| format!("[{}]", s.iter().map(|(k, v)| format!("({},{})", k.sh(), v.sh())).collect::<Vec<_>>().join(","));
    [] HashMap<u32, u32>, |n| (0..n % 3).map(|i| (n + i, n)).collect(),
        |s| { let m: BTreeMap<u32, u32> = s.iter().map(|(a, b)| (*a, *b)).collect(); format!("[{}]", m.iter().map(|(k, v)| format!("({},{})", k.sh(), v.sh())).collect::<Vec<_>>().join(",")) };
    [] (u32, String), |n| (n, String::mk(n)), |s| format!("({},{})", s.0.sh(), s.1.sh());
    [T: Mk + Sh] [T; 2], |n| [T::mk(n), T::mk(n + 1)], |s| list(s);
    [] Box<u32>, |n| Box::new(n), |s| format!("Box({})", s.as_ref().sh());
    [] Box<Tr>, |n| Box::new(Tr(n)), |s| format!("Box({})", s.as_ref().sh());
    [] Box<Nc>, |n| Box::new(Nc(n)), |s| format!("Box({})", s.as_ref().sh());
    [] std::rc::Rc<Nn>, |n| std::rc::Rc::new(Nn(n)), |s| format!("Rc({})", s.as_ref().sh());
    [] fn(u32) -> u32, |n| if n % 2 == 0 { f0 as fn(u32) -> u32 } else { f1 }, |s| format!("fn{}", s(0));
    [T] Me<T>, |n| Me(n, PhantomData), |s| format!("Me{}", s.0);
    [T] PhantomData<T>, |_n| PhantomData, |_s| "Ph".to_string();
}
impl<T: Mk> Mk for Option<T> { fn mk(n: u32) -> Self { opt(n) } }
impl<T: Sh> Sh for Option<T> { fn sh(&self) -> String { sopt(self) } }
impl<T: Mk> Mk for mine::Option<T> { fn mk(n: u32) -> Self { if n % 4 == 3 { mine::Option::No } else { mine::Option::Yes(T::mk(n)) } } }
// not the empty value
impl<T: Mk> Default for mine::Option<T> { fn default() -> Self { mine::Option::Yes(T::mk(1)) } }
impl<T: Sh> Sh for mine::Option<T> { fn sh(&self) -> String { match self { mine::Option::No => "No".into(), mine::Option::Yes(x) => format!("Yes({})", x.sh()) } } }
conv!([T: Mk] mine::Option<T>);
conv!([] Option<u8>);
conv!([] Option<u32>);
conv!([] Option<usize>);
conv!([] Option<bool>);
conv!([] Option<String>);
conv!([] Option<&'static str>);
conv!([] Option<()>);
conv!([] Option<Tr>);
conv!([] Option<Cp>);
conv!([] Option<Nd>);
conv!([] Option<Nc>);
conv!([] Option<Nn>);
conv!([T] Option<Me<T>>);
conv!([] Option<Coll>);
conv!([] Option<NcColl>);
conv!([T: Mk + Sh] Option<W<T>>);
conv!([T: Mk + Sh] Option<Vec<T>>);
conv!([T: Mk + Sh] Option<VecDeque<T>>);
conv!([] Option<BTreeSet<u32>>);
conv!([] Option<BTreeMap<u32, String>>);
conv!([] Option<(u32, String)>);
conv!([T: Mk + Sh] Option<[T; 2]>);
conv!([] Option<Option<u32>>);
conv!([] Option<Option<Tr>>);
conv!([] Option<Option<String>>);
/// Types of unusual syntax.
#[macro_export]
pub trait Tell { fn tell(&self) -> u32; }
impl Tell for Tr { fn tell(&self) -> u32 { self.0 } }
impl PartialEq for dyn Tell { fn eq(&self, o: &Self) -> bool { self.tell() == o.tell() } }
impl core::fmt::Debug for dyn Tell { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "tell{}", self.tell()) } }
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Cg<const N: usize, const M: i8, const C: char>(pub u32);
static TR: [Tr; 4] = [Tr(0), Tr(1), Tr(2), Tr(3)];
static SL: [[u8; 1]; 4] = [[0], [1], [2], [3]];
unsafe extern "C" fn uf(_: *const u8, n: u32) -> u32 { n }
fn idf(x: &u32) -> &u32 { x }
macro_rules! ext {
    ($([$($l:lifetime)?] $t:ty, $st:ty, |$n:ident| $mk:expr, |$s:ident| $sh:expr;)*) => {$(
        impl Mk for $st { fn mk($n: u32) -> Self { $mk } }
        impl$(<$l>)? Sh for $t { fn sh(&self) -> String { let $s = self; $sh } }
        conv!([] $st);
        conv!([] Option<$st>);
    )*};
}
ext! {
    ['a] &'a [u8], &'static [u8], |n| &SL[n as usize % 4], |s| s.first().map_or("sl-".into(), |x| format!("sl{}", x));
    ['a] &'a (dyn Tell + 'a), &'static (dyn Tell + 'static), |n| &TR[n as usize % 4], |s| format!("tell{}", s.tell());
    ['a] &'a (dyn Tell + Sync + 'a), &'static (dyn Tell + Sync + 'static), |n| &TR[n as usize % 4], |s| format!("tells{}", s.tell());
    [] (Tr,), (Tr,), |n| (Tr(n),), |s| format!("(Tr{},)", (s.0).0);
    [] Box<dyn Fn(u32) -> u32>, Box<dyn Fn(u32) -> u32>, |n| Box::new(move |x| x + n), |s| format!("bf{}", s(0));
    ['a] std::rc::Rc<dyn Fn(u32) -> u32 + 'a>, std::rc::Rc<dyn Fn(u32) -> u32>, |n| std::rc::Rc::new(move |x| x + n), |s| format!("rf{}", s(0));
    [] Result<u32, String>, Result<u32, String>, |n| if n % 2 == 0 { Ok(n) } else { Err(n.to_string()) },
        |s| match s { Ok(n) => format!("Ok{}", n), Err(n) => format!("Err{}", n) };
    [] Cell<u32>, Cell<u32>, |n| Cell::new(n), |s| format!("Cell{}", s.get());
    [] *const u8, *const u8, |n| n as usize as *const u8, |s| format!("ptr{}", *s as usize);
    [] for<'x> fn(&'x u32) -> &'x u32, for<'x> fn(&'x u32) -> &'x u32, |_n| idf, |s| { s(&1); "id".into() };
    [] std::ops::Range<u32>, std::ops::Range<u32>, |n| n..n + 1, |s| format!("{}..", s.start);
    [] (Option<u32>, bool), (Option<u32>, bool), |n| (Some(n), true), |s| s.0.map_or("(o-)".into(), |n| format!("(o{})", n));
    [] f64, f64, |n| n as f64, |s| format!("f{}", s);
    ['a] &'a mut u32, &'static mut u32, |n| Box::leak(Box::new(n)), |s| format!("mut{}", s);
    [] Box<[u8]>, Box<[u8]>, |n| Box::new([n as u8 % 4]), |s| s.first().map_or("bs-".into(), |x| format!("bs{}", x));
    ['a] std::borrow::Cow<'a, str>, std::borrow::Cow<'static, str>, |n| format!("{}", n).into(), |s| if s.is_empty() { "cow-".into() } else { format!("cow{}", s) };
    [] Cg<2, -1, 'x'>, Cg<2, -1, 'x'>, |n| Cg(n), |s| format!("Cg{}", s.0);
    ['a] Box<dyn Iterator<Item = u32> + 'a>, Box<dyn Iterator<Item = u32>>, |n| Box::new(0..n), |s| format!("it{}", s.size_hint().0);
    [] unsafe extern "C" fn(*const u8, u32) -> u32, unsafe extern "C" fn(*const u8, u32) -> u32, |_n| uf, |_s| "uf".into();
}
conv!([T] Option<PhantomData<T>>);
fn opt<T: Mk>(n: u32) -> Option<T> {
    if n % 4 == 3 { None } else { Some(T::mk(n)) }
}
fn sopt<T: Sh>(o: &Option<T>) -> String {
    match o { None => "None".into(), Some(x) => format!("Some({})", x.sh()) }
}
pub fn f0(_: u32) -> u32 { 0 }
pub fn f1(_: u32) -> u32 { 1 }
impl Mk for &'static str {
    fn mk(n: u32) -> Self {
        // a bounded table, so that nothing leaks without end
        static T: [&str; 8] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7"];
        T[(n % 8) as usize]
    }
}
impl<'a> Sh for &'a str { fn sh(&self) -> String { format!("'{}'", self) } }
impl From<Src> for &'static str { fn from(s: Src) -> Self { Mk::mk(s.0.wrapping_add(1000)) } }
impl TryFrom<TSrc> for &'static str {
    type Error = TErr;
    fn try_from(s: TSrc) -> Result<Self, TErr> {
        if s.0 % 3 == 2 { Err(TErr(s.0)) } else { Ok(Mk::mk(s.0.wrapping_add(2000))) }
    }
}
impl Sh for TErr { fn sh(&self) -> String { format!("TErr{}", self.0) } }
impl<'a, T: Sh> Sh for &'a T { fn sh(&self) -> String { (**self).sh() } }
/// `&'static u32` and `&'static Tr`
macro_rules! stref { ($($t:ty, $tab:expr;)*) => {$(
    impl Mk for &'static $t { fn mk(n: u32) -> Self { static T: [$t; 4] = $tab; &T[(n % 4) as usize] } }
    conv!([] &'static $t);
)*}}
stref! { u32, [0, 1, 2, 3]; Tr, [Tr(0), Tr(1), Tr(2), Tr(3)]; Nn, [Nn(0), Nn(1), Nn(2), Nn(3)]; }

/// Sources for item setters with `into`.
impl From<Src> for (u32, u32) { fn from(s: Src) -> Self { (s.0 + 1000, s.0) } }
impl Mk for (u32, u32) { fn mk(n: u32) -> Self { (n, n) } }
impl Sh for (u32, u32) { fn sh(&self) -> String { format!("({},{})", self.0.sh(), self.1.sh()) } }

/// Default-expression helpers: `i` is the field index; the event records that and when it ran.
pub fn d<T: Mk>(i: u32, n: u32) -> T {
    ev(format!("d{}", i));
    T::mk(n)
}
pub fn dq_s<T: Mk>(i: u32, n: u32) -> Result<T, String> {
    ev(format!("d{}", i));
    if fail(i) { Err(format!("q{}", i)) } else { Ok(T::mk(n)) }
}
pub fn dq_c<T: Mk>(i: u32, n: u32) -> Result<T, QErr> {
    ev(format!("d{}", i));
    if fail(i) { Err(QErr(i)) } else { Ok(T::mk(n)) }
}
static QN: [&str; 16] = [
    "q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8", "q9", "q10", "q11", "q12", "q13", "q14", "q15",
];
pub fn qname(i: u32) -> &'static str {
    if i == 62 { "q62" } else if i == 63 { "q63" } else { QN[i as usize] }
}
pub fn dq_u<T: Mk>(i: u32, n: u32) -> Result<T, derive_builder::UninitializedFieldError> {
    ev(format!("d{}", i));
    if fail(i) { Err(qname(i).into()) } else { Ok(T::mk(n)) }
}
/// A value derived from something the expression read through `self`.
pub fn ds<T: Mk>(i: u32, s: String) -> T {
    ev(format!("d{}:{}", i, s));
    T::mk(hash(&s))
}
pub fn hash(s: &str) -> u32 {
    s.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 500
}
/// Error of fallible default code under a user-provided error type.
#[derive(Debug, Clone, PartialEq)]
pub struct QErr(pub u32);
/// Error of validators under a user-provided error type.
#[derive(Debug, Clone, PartialEq)]
pub struct VErr(pub String);

/// user-provided error type
#[derive(Debug, Clone, PartialEq)]
pub enum CErr {
    U(&'static str),
    V(String),
    Q(String),
}
impl From<derive_builder::UninitializedFieldError> for CErr {
    fn from(e: derive_builder::UninitializedFieldError) -> Self { CErr::U(e.field_name()) }
}
impl From<VErr> for CErr { fn from(e: VErr) -> Self { CErr::V(e.0) } }
impl From<QErr> for CErr { fn from(e: QErr) -> Self { CErr::Q(format!("q{}", e.0)) } }
/// generic user-provided error type
#[derive(Debug, Clone, PartialEq)]
pub struct GErr<T>(pub CErr, pub PhantomData<T>);
impl<T> From<derive_builder::UninitializedFieldError> for GErr<T> {
    fn from(e: derive_builder::UninitializedFieldError) -> Self { GErr(e.into(), PhantomData) }
}
impl<T> From<VErr> for GErr<T> { fn from(e: VErr) -> Self { GErr(e.into(), PhantomData) } }
impl<T> From<QErr> for GErr<T> { fn from(e: QErr) -> Self { GErr(e.into(), PhantomData) } }
/// user-provided error type without the conversion from missing fields
#[derive(Debug, Clone, PartialEq)]
pub struct PErr(pub CErr);
impl From<VErr> for PErr { fn from(e: VErr) -> Self { PErr(e.into()) } }
impl From<QErr> for PErr { fn from(e: QErr) -> Self { PErr(e.into()) } }

fn norm(s: &str) -> String { s.strip_prefix("r#").unwrap_or(s).to_string() }
pub fn show_u(n: &str) -> String { format!("U({})", norm(n)) }
impl Sh for CErr {
    fn sh(&self) -> String {
        match self { CErr::U(n) => show_u(n), CErr::V(s) => format!("V({})", s), CErr::Q(s) => format!("Q({})", s) }
    }
}
impl<T> Sh for GErr<T> { fn sh(&self) -> String { self.0.sh() } }
impl Sh for PErr { fn sh(&self) -> String { self.0.sh() } }

pub type Op = [u32; 5];

/// `prog OPS-FILE`: the file holds lines `case <module>` followed by operation
/// lines of five numbers; one line per case is printed.
pub fn drive(mods: &[(&str, fn(&[Op]))]) {
    use std::io::Write;
    let path = std::env::args().nth(1).expect("ops file");
    let text = std::fs::read_to_string(path).expect("ops file");
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::BufWriter::new(std::io::stdout());
    let mut cases: Vec<(String, Vec<Op>)> = Vec::new();
    for l in text.lines() {
        if let Some(m) = l.strip_prefix("case ") {
            cases.push((m.to_string(), Vec::new()));
        } else {
            let mut op = [0u32; 5];
            for (i, x) in l.split(' ').enumerate() {
                op[i] = x.parse().expect("number");
            }
            cases.last_mut().expect("case").1.push(op);
        }
    }
    for (m, ops) in &cases {
        LOG.with(|l| l.borrow_mut().clear());
        set_fail(0);
        set_vmsg(0);
        let f = mods.iter().find(|x| x.0 == m).expect("module").1;
        let r = std::panic::catch_unwind(|| f(ops));
        if let Err(p) = r {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            ev(format!("PANIC:{}", msg.replace('\n', " ")));
        }
        LOG.with(|l| writeln!(out, "{}", l.borrow().join(" | ")).unwrap());
        // a later case that crashes the program must not take this line with it
        out.flush().unwrap();
    }
}

/// Shows a builder field that the builder wraps in an Option.
pub fn so<T: Sh>(o: &Option<T>) -> String {
    sopt(o)
}
pub fn same<T>(p: *const T, r: &mut T) {
    ev(if std::ptr::eq(p, r as *const T) { "same" } else { "OTHER" })
}
/// Shows a generated error after comparing its Display text with the documented one.
pub fn disp(text: &str, e: Result<&str, &str>) -> String {
    let (want, show) = match e {
        Ok(n) => (format!("`{}` must be initialized", n), show_u(n)),
        Err(s) => (s.to_string(), format!("V({})", s)),
    };
    if want == text { show } else { format!("{} but displays as {:?}", show, text) }
}
