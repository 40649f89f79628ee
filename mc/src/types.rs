//! The alphabet: operations on an artifact, their text form (for replay files), and cases.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fmt { Elf, Macho }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Scope { Local, Global, Weak }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Vis { Default, Hidden, Protected }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Dt { Bytes, Str }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum SecKind { Data, Debug, Text }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ik { Func, Data }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Decl {
    Import(Ik),
    Func { scope: Scope, vis: Vis, align: Option<u64> },
    Data { scope: Scope, vis: Vis, writable: bool, dt: Dt, align: Option<u64> },
    Section { kind: SecKind, dt: Dt, align: Option<u64> },
}
pub const SCOPES: [Scope; 3] = [Scope::Local, Scope::Global, Scope::Weak];
pub const VISES: [Vis; 3] = [Vis::Default, Vis::Hidden, Vis::Protected];
pub const SECKINDS: [SecKind; 3] = [SecKind::Data, SecKind::Debug, SecKind::Text];

impl Decl {
    pub fn func() -> Decl { Decl::Func { scope: Scope::Local, vis: Vis::Default, align: None } }
    pub fn data() -> Decl { Decl::Data { scope: Scope::Local, vis: Vis::Default, writable: false, dt: Dt::Bytes, align: None } }
    pub fn wdata() -> Decl { Decl::data().writable(true) }
    pub fn cstr() -> Decl { Decl::data().dt(Dt::Str) }
    pub fn sec(kind: SecKind) -> Decl { Decl::Section { kind, dt: Dt::Bytes, align: None } }
    pub fn scope(mut self, s: Scope) -> Decl {
        match &mut self { Decl::Func { scope, .. } | Decl::Data { scope, .. } => *scope = s, _ => {} }
        self
    }
    pub fn vis(mut self, v: Vis) -> Decl {
        match &mut self { Decl::Func { vis, .. } | Decl::Data { vis, .. } => *vis = v, _ => {} }
        self
    }
    pub fn align(mut self, a: Option<u64>) -> Decl {
        match &mut self { Decl::Func { align, .. } | Decl::Data { align, .. } | Decl::Section { align, .. } => *align = a, _ => {} }
        self
    }
    pub fn writable(mut self, w: bool) -> Decl {
        if let Decl::Data { writable, .. } = &mut self { *writable = w }
        self
    }
    pub fn dt(mut self, d: Dt) -> Decl {
        match &mut self { Decl::Data { dt, .. } | Decl::Section { dt, .. } => *dt = d, _ => {} }
        self
    }
    pub fn is_import(&self) -> bool { matches!(self, Decl::Import(_)) }
    pub fn is_section(&self) -> bool { matches!(self, Decl::Section { .. }) }
    pub fn is_func(&self) -> bool { matches!(self, Decl::Func { .. }) }
    pub fn is_data(&self) -> bool { matches!(self, Decl::Data { .. }) }
    pub fn get_align(&self) -> Option<u64> {
        match *self { Decl::Func { align, .. } | Decl::Data { align, .. } | Decl::Section { align, .. } => align, _ => None }
    }
    pub fn get_scope(&self) -> Scope {
        match *self { Decl::Func { scope, .. } | Decl::Data { scope, .. } => scope, _ => Scope::Local }
    }
    pub fn get_vis(&self) -> Vis {
        match *self { Decl::Func { vis, .. } | Decl::Data { vis, .. } => vis, _ => Vis::Default }
    }
}

/// Contents, kept symbolic so that cases stay small
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Bytes { Raw(Vec<u8>), Pat(u32, usize), /* like Pat, but no NUL except as the last byte */ Str(u32, usize), /* n times a byte */ Fill(u8, usize) }
impl Bytes {
    pub fn len(&self) -> usize { match self { Bytes::Raw(v) => v.len(), Bytes::Pat(_, n) | Bytes::Str(_, n) | Bytes::Fill(_, n) => *n } }
    pub fn get(&self) -> Vec<u8> {
        match self {
            Bytes::Raw(v) => v.clone(),
            Bytes::Fill(x, n) => vec![*x; *n],
            Bytes::Pat(s, n) => (0..*n).map(|i| pat(*s, i)).collect(),
            Bytes::Str(s, n) => (0..*n).map(|i| if i + 1 == *n { 0 } else { pat(*s, i) % 0x5e + 0x21 }).collect(),
        }
    }
}
fn pat(s: u32, i: usize) -> u8 {
    let x = (s.wrapping_mul(0x9E37_79B9)).wrapping_add((i as u32).wrapping_mul(0x85EB_CA6B));
    let x = (x ^ (x >> 15)).wrapping_mul(0x2C1B_3C6D);
    (x >> 24) as u8
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Payload { Blob(Bytes), Zero(usize) }
impl Payload {
    pub fn size(&self) -> u64 { match self { Payload::Blob(b) => b.len() as u64, Payload::Zero(n) => *n as u64 } }
    pub fn is_zero(&self) -> bool { matches!(self, Payload::Zero(_)) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Reloc { Auto, Raw { reloc: u32, addend: i32 }, Debug { size: u8, addend: i32 } }

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    Declare(String, Decl),
    Import(String, Ik),
    Declarations(Vec<(String, Decl)>),
    DeclareWith(String, Decl, Bytes),
    Define(String, Bytes),
    DefineZero(String, usize),
    DefineSyms(String, Payload, BTreeMap<String, u64>),
    /// `link` (which is always Auto)
    Link(String, String, u64),
    LinkWith(String, String, u64, Reloc),
    /// emit and ignore the result
    Emit(Fmt),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Scenario { pub target: String, pub name: String, pub ops: Vec<Op> }

pub const ELF64: &str = "x86_64-unknown-linux-gnu";
pub const MACHO64: &str = "x86_64-apple-darwin";

impl Scenario {
    pub fn new(target: &str) -> Scenario { Scenario { target: target.into(), name: "t.o".into(), ops: vec![] } }
    pub fn declare(mut self, n: &str, d: Decl) -> Self { self.ops.push(Op::Declare(n.into(), d)); self }
    pub fn define(mut self, n: &str, b: Bytes) -> Self { self.ops.push(Op::Define(n.into(), b)); self }
    pub fn zero(mut self, n: &str, s: usize) -> Self { self.ops.push(Op::DefineZero(n.into(), s)); self }
    pub fn payload(self, n: &str, p: &Payload) -> Self { match p { Payload::Blob(b) => self.define(n, b.clone()), Payload::Zero(z) => self.zero(n, *z) } }
    pub fn syms(mut self, n: &str, p: Payload, s: BTreeMap<String, u64>) -> Self { self.ops.push(Op::DefineSyms(n.into(), p, s)); self }
    pub fn import(mut self, n: &str, k: Ik) -> Self { self.ops.push(Op::Import(n.into(), k)); self }
    pub fn link(mut self, f: &str, t: &str, at: u64) -> Self { self.ops.push(Op::Link(f.into(), t.into(), at)); self }
    pub fn link_with(mut self, f: &str, t: &str, at: u64, r: Reloc) -> Self { self.ops.push(Op::LinkWith(f.into(), t.into(), at, r)); self }
}

/// What a check is run on: scenarios, plus check-specific parameters
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Case { pub sc: Scenario, pub more: Vec<Scenario>, pub params: BTreeMap<String, String> }
impl Case {
    pub fn new(sc: Scenario) -> Case { Case { sc, more: vec![], params: BTreeMap::new() } }
    pub fn with(mut self, k: &str, v: impl ToString) -> Case { self.params.insert(k.into(), v.to_string()); self }
    pub fn param(&self, k: &str) -> &str { self.params.get(k).map(|s| s.as_str()).unwrap_or("") }
    pub fn fmt(&self) -> Fmt { match self.param("fmt") { "macho" => Fmt::Macho, _ => Fmt::Elf } }
    pub fn on(self, f: Fmt) -> Case { self.with("fmt", match f { Fmt::Elf => "elf", Fmt::Macho => "macho" }) }
}

// ---------------------------------------------------------------- text form

pub fn esc(s: &str) -> String {
    if s.is_empty() { return "%".into(); }
    let mut o = String::new();
    for &b in s.as_bytes() {
        if b > 0x20 && b < 0x7f && b != b'%' && b != b'=' && b != b',' { o.push(b as char) } else { write!(o, "%{:02x}", b).unwrap() }
    }
    o
}
pub fn unesc(s: &str) -> Option<String> {
    if s == "%" { return Some(String::new()); }
    let (b, mut o, mut i) = (s.as_bytes(), vec![], 0);
    while i < b.len() {
        if b[i] == b'%' { o.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?); i += 3 } else { o.push(b[i]); i += 1 }
    }
    String::from_utf8(o).ok()
}
fn put_bytes(b: &Bytes) -> String {
    match b {
        Bytes::Raw(v) => { let mut s = String::from("hex:"); for x in v { write!(s, "{:02x}", x).unwrap() } s }
        Bytes::Pat(s, n) => format!("pat:{}:{}", s, n),
        Bytes::Str(s, n) => format!("str:{}:{}", s, n),
        Bytes::Fill(x, n) => format!("fill:{}:{}", x, n),
    }
}
fn get_bytes(s: &str) -> Option<Bytes> {
    if let Some(h) = s.strip_prefix("hex:") {
        return Some(Bytes::Raw((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16)).collect::<Result<_, _>>().ok()?));
    }
    let mut p = s.split(':');
    let (k, a, n): (_, u32, _) = (p.next()?, p.next()?.parse().ok()?, p.next()?.parse().ok()?);
    match k { "pat" => Some(Bytes::Pat(a, n)), "str" => Some(Bytes::Str(a, n)), "fill" => Some(Bytes::Fill(a as u8, n)), _ => None }
}
pub fn put_decl(d: &Decl) -> String {
    let al = |a: &Option<u64>| match a { None => String::new(), Some(a) => format!(",align:{}", a) };
    match d {
        Decl::Import(Ik::Func) => "import-function".into(),
        Decl::Import(Ik::Data) => "import-data".into(),
        Decl::Func { scope, vis, align } => format!("function,{:?},{:?}{}", scope, vis, al(align)),
        Decl::Data { scope, vis, writable, dt, align } => format!("data,{:?},{:?},{},{:?}{}", scope, vis, if *writable { "rw" } else { "ro" }, dt, al(align)),
        Decl::Section { kind, dt, align } => format!("section,Kind{:?},{:?}{}", kind, dt, al(align)),
    }
}
pub fn get_decl(s: &str) -> Option<Decl> {
    let mut d: Option<Decl> = None;
    for w in s.split(',') {
        let cur = d;
        d = Some(match w {
            "import-function" => Decl::Import(Ik::Func),
            "import-data" => Decl::Import(Ik::Data),
            "function" => Decl::func(),
            "data" => Decl::data(),
            "section" => Decl::sec(SecKind::Data),
            "Local" => cur?.scope(Scope::Local), "Global" => cur?.scope(Scope::Global), "Weak" => cur?.scope(Scope::Weak),
            "Default" => cur?.vis(Vis::Default), "Hidden" => cur?.vis(Vis::Hidden), "Protected" => cur?.vis(Vis::Protected),
            "rw" => cur?.writable(true), "ro" => cur?.writable(false),
            "Bytes" => cur?.dt(Dt::Bytes), "Str" => cur?.dt(Dt::Str),
            "KindData" | "KindDebug" | "KindText" => match cur? {
                Decl::Section { dt, align, .. } => Decl::Section { kind: match w { "KindData" => SecKind::Data, "KindDebug" => SecKind::Debug, _ => SecKind::Text }, dt, align },
                _ => return None,
            },
            _ => cur?.align(Some(w.strip_prefix("align:")?.parse().ok()?)),
        });
    }
    d
}
fn put_payload(p: &Payload) -> String { match p { Payload::Blob(b) => put_bytes(b), Payload::Zero(n) => format!("zero:{}", n) } }
fn get_payload(s: &str) -> Option<Payload> {
    match s.strip_prefix("zero:") { Some(n) => Some(Payload::Zero(n.parse().ok()?)), None => get_bytes(s).map(Payload::Blob) }
}
fn put_reloc(r: &Reloc) -> String {
    match r { Reloc::Auto => "auto".into(), Reloc::Raw { reloc, addend } => format!("raw:{}:{}", reloc, addend), Reloc::Debug { size, addend } => format!("debug:{}:{}", size, addend) }
}
fn get_reloc(s: &str) -> Option<Reloc> {
    let p: Vec<&str> = s.split(':').collect();
    Some(match p[0] {
        "auto" => Reloc::Auto,
        "raw" => Reloc::Raw { reloc: p.get(1)?.parse().ok()?, addend: p.get(2)?.parse().ok()? },
        "debug" => Reloc::Debug { size: p.get(1)?.parse().ok()?, addend: p.get(2)?.parse().ok()? },
        _ => return None,
    })
}
pub fn put_op(op: &Op) -> String {
    match op {
        Op::Declare(n, d) => format!("declare {} {}", esc(n), put_decl(d)),
        Op::Import(n, k) => format!("import {} {:?}", esc(n), k),
        Op::Declarations(v) => format!("declarations{}", v.iter().map(|(n, d)| format!(" {} {}", esc(n), put_decl(d))).collect::<String>()),
        Op::DeclareWith(n, d, b) => format!("declare_with {} {} {}", esc(n), put_decl(d), put_bytes(b)),
        Op::Define(n, b) => format!("define {} {}", esc(n), put_bytes(b)),
        Op::DefineZero(n, z) => format!("define_zero_init {} {}", esc(n), z),
        Op::DefineSyms(n, p, s) => format!("define_with_symbols {} {}{}", esc(n), put_payload(p), s.iter().map(|(k, v)| format!(" {}={}", esc(k), v)).collect::<String>()),
        Op::Link(f, t, at) => format!("link {} {} {}", esc(f), esc(t), at),
        Op::LinkWith(f, t, at, r) => format!("link_with {} {} {} {}", esc(f), esc(t), at, put_reloc(r)),
        Op::Emit(f) => format!("emit {:?}", f),
    }
}
pub fn get_op(l: &str) -> Option<Op> {
    let w: Vec<&str> = l.split_whitespace().collect();
    let n = |i: usize| w.get(i).and_then(|s| unesc(s));
    Some(match *w.first()? {
        "declare" => Op::Declare(n(1)?, get_decl(w.get(2)?)?),
        "import" => Op::Import(n(1)?, if *w.get(2)? == "Func" { Ik::Func } else { Ik::Data }),
        "declarations" => Op::Declarations(w[1..].chunks(2).map(|c| Some((unesc(c[0])?, get_decl(c.get(1)?)?))).collect::<Option<_>>()?),
        "declare_with" => Op::DeclareWith(n(1)?, get_decl(w.get(2)?)?, get_bytes(w.get(3)?)?),
        "define" => Op::Define(n(1)?, get_bytes(w.get(2)?)?),
        "define_zero_init" => Op::DefineZero(n(1)?, w.get(2)?.parse().ok()?),
        "define_with_symbols" => Op::DefineSyms(n(1)?, get_payload(w.get(2)?)?, w[3..].iter().map(|s| { let (k, v) = s.split_once('=')?; Some((unesc(k)?, v.parse().ok()?)) }).collect::<Option<_>>()?),
        "link" => Op::Link(n(1)?, n(2)?, w.get(3)?.parse().ok()?),
        "link_with" => Op::LinkWith(n(1)?, n(2)?, w.get(3)?.parse().ok()?, get_reloc(w.get(4)?)?),
        "emit" => Op::Emit(if *w.get(1)? == "Elf" { Fmt::Elf } else { Fmt::Macho }),
        _ => return None,
    })
}
fn put_sc(s: &Scenario, o: &mut String) {
    writeln!(o, "artifact {} {}", esc(&s.target), esc(&s.name)).unwrap();
    for op in &s.ops { writeln!(o, "  {}", put_op(op)).unwrap() }
}
pub fn put_case(c: &Case) -> String {
    let mut o = String::new();
    for (k, v) in &c.params { writeln!(o, "param {} {}", k, esc(v)).unwrap() }
    put_sc(&c.sc, &mut o);
    for m in &c.more { put_sc(m, &mut o) }
    o
}
pub fn get_case(text: &str) -> Option<Case> {
    let (mut scs, mut params): (Vec<Scenario>, _) = (vec![], BTreeMap::new());
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[0] {
            "param" => { params.insert(w.get(1)?.to_string(), unesc(w.get(2)?)?); }
            "artifact" => scs.push(Scenario { target: unesc(w.get(1)?)?, name: unesc(w.get(2)?)?, ops: vec![] }),
            _ => scs.last_mut()?.ops.push(get_op(l)?),
        }
    }
    let mut it = scs.into_iter();
    Some(Case { sc: it.next()?, more: it.collect(), params })
}

/// The case as Rust statements that use only faerie: "a plain unit test that replays it"
pub fn rust_snippet(c: &Case) -> String {
    let mut o = String::new();
    for (i, s) in std::iter::once(&c.sc).chain(&c.more).enumerate() {
        writeln!(o, "let mut a{} = Artifact::new({:?}.parse().unwrap(), {:?}.to_string());", i, s.target, s.name).unwrap();
        for op in &s.ops {
            let d = |d: &Decl| match d {
                Decl::Import(Ik::Func) => "Decl::function_import()".to_string(),
                Decl::Import(Ik::Data) => "Decl::data_import()".to_string(),
                Decl::Func { scope, vis, align } => format!("Decl::function().with_scope(Scope::{:?}).with_visibility(Visibility::{:?}).with_align({:?})", scope, vis, align),
                Decl::Data { scope, vis, writable, dt, align } => format!("Decl::data().with_scope(Scope::{:?}).with_visibility(Visibility::{:?}).with_writable({}).with_datatype(DataType::{}).with_align({:?})", scope, vis, writable, if *dt == Dt::Str { "String" } else { "Bytes" }, align),
                Decl::Section { kind, dt, align } => format!("Decl::section(SectionKind::{:?}).with_datatype(DataType::{}).with_align({:?})", kind, if *dt == Dt::Str { "String" } else { "Bytes" }, align),
            };
            let b = |b: &Bytes| { let v = b.get(); if let Bytes::Fill(x, n) = b { format!("vec![{:#x}; {}]", x, n) } else if v.len() > 64 { format!("vec![0x5a; {}] /* or any */", v.len()) } else { format!("vec!{:?}", v) } };
            let l = match op {
                Op::Declare(n, x) => format!("declare({:?}, {})", n, d(x)),
                Op::Import(n, k) => format!("import({:?}, ImportKind::{})", n, if *k == Ik::Func { "Function" } else { "Data" }),
                Op::Declarations(v) => format!("declarations(vec![{}].into_iter())", v.iter().map(|(n, x)| format!("({:?}, {}.into())", n, d(x))).collect::<Vec<_>>().join(", ")),
                Op::DeclareWith(n, x, y) => format!("declare_with({:?}, {}, {})", n, d(x), b(y)),
                Op::Define(n, y) => format!("define({:?}, {})", n, b(y)),
                Op::DefineZero(n, z) => format!("define_zero_init({:?}, {})", n, z),
                Op::DefineSyms(n, p, s) => format!("define_with_symbols({:?}, {}, vec!{:?}.into_iter().collect())", n, match p { Payload::Zero(z) => format!("Data::ZeroInit({})", z), Payload::Blob(y) => format!("Data::Blob({})", b(y)) }, s.iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>()),
                Op::Link(f, t, at) => format!("link(Link {{ from: {:?}, to: {:?}, at: {} }})", f, t, at),
                Op::LinkWith(f, t, at, r) => format!("link_with(Link {{ from: {:?}, to: {:?}, at: {} }}, Reloc::{:?})", f, t, at, r),
                Op::Emit(f) => format!("emit_as(BinaryFormat::{:?})", f),
            };
            writeln!(o, "let _ = a{}.{};", i, l).unwrap();
        }
    }
    o
}
