//! The only place that knows faerie: makes real artifacts do what the alphabet says.
use crate::model::Err as E;
use crate::types as t;
use crate::types::{Dt, Fmt, Ik, Op, SecKind};
use faerie::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn decl(d: t::Decl) -> Decl {
    fn sc(s: t::Scope) -> Scope { match s { t::Scope::Local => Scope::Local, t::Scope::Global => Scope::Global, t::Scope::Weak => Scope::Weak } }
    fn vi(v: t::Vis) -> Visibility { match v { t::Vis::Default => Visibility::Default, t::Vis::Hidden => Visibility::Hidden, t::Vis::Protected => Visibility::Protected } }
    fn dt(d: Dt) -> DataType { match d { Dt::Bytes => DataType::Bytes, Dt::Str => DataType::String } }
    match d {
        t::Decl::Import(Ik::Func) => Decl::function_import().into(),
        t::Decl::Import(Ik::Data) => Decl::data_import().into(),
        t::Decl::Func { scope, vis, align } => Decl::function().with_scope(sc(scope)).with_visibility(vi(vis)).with_align(align).into(),
        t::Decl::Data { scope, vis, writable, dt: ty, align } => Decl::data().with_scope(sc(scope)).with_visibility(vi(vis)).with_writable(writable).with_datatype(dt(ty)).with_align(align).into(),
        t::Decl::Section { kind, dt: ty, align } => Decl::section(match kind { SecKind::Data => SectionKind::Data, SecKind::Debug => SectionKind::Debug, SecKind::Text => SectionKind::Text }).with_datatype(dt(ty)).with_align(align).into(),
    }
}
fn undt(d: DataType) -> Dt { match d { DataType::Bytes => Dt::Bytes, DataType::String => Dt::Str } }
fn unsc(s: Scope) -> t::Scope { match s { Scope::Local => t::Scope::Local, Scope::Global => t::Scope::Global, Scope::Weak => t::Scope::Weak } }
fn unvi(v: Visibility) -> t::Vis { match v { Visibility::Default => t::Vis::Default, Visibility::Hidden => t::Vis::Hidden, Visibility::Protected => t::Vis::Protected } }
pub fn undefd(d: &artifact::DefinedDecl) -> t::Decl {
    use artifact::DefinedDecl as D;
    match d {
        D::Function(f) => t::Decl::Func { scope: unsc(f.get_scope()), vis: unvi(f.get_visibility()), align: f.get_align() },
        D::Data(f) => t::Decl::Data { scope: unsc(f.get_scope()), vis: unvi(f.get_visibility()), writable: f.is_writable(), dt: undt(f.get_datatype()), align: f.get_align() },
        D::Section(s) => t::Decl::Section { kind: match s.kind() { SectionKind::Data => SecKind::Data, SectionKind::Debug => SecKind::Debug, SectionKind::Text => SecKind::Text }, dt: undt(s.get_datatype()), align: s.get_align() },
    }
}
pub fn undecl(d: &Decl) -> t::Decl {
    match d { Decl::Import(k) => t::Decl::Import(unik(k)), Decl::Defined(d) => undefd(d) }
}
pub fn unik(k: &ImportKind) -> Ik { match k { ImportKind::Function => Ik::Func, ImportKind::Data => Ik::Data } }
pub fn ik(k: Ik) -> ImportKind { match k { Ik::Func => ImportKind::Function, Ik::Data => ImportKind::Data } }
pub fn data(p: &t::Payload) -> Data { match p { t::Payload::Blob(b) => Data::Blob(b.get()), t::Payload::Zero(n) => Data::ZeroInit(*n) } }
pub fn reloc(r: t::Reloc) -> Reloc {
    match r { t::Reloc::Auto => Reloc::Auto, t::Reloc::Raw { reloc, addend } => Reloc::Raw { reloc, addend }, t::Reloc::Debug { size, addend } => Reloc::Debug { size, addend } }
}
pub fn bf(f: Fmt) -> BinaryFormat { match f { Fmt::Elf => BinaryFormat::Elf, Fmt::Macho => BinaryFormat::Macho } }
pub fn err(e: ArtifactError) -> E {
    use ArtifactError::*;
    // what is said names what it is about
    let text = e.to_string();
    let told = match &e {
        Undeclared(s) | ImportDefined(s) | RelocateImport(s) | DuplicateDefinition(s) => text.contains(s.as_str()),
        IncompatibleDeclaration { old, new } => { let (o, n) = (format!("{:?}", old), format!("{:?}", new)); text.match_indices(&o).any(|(i, _)| text[i + o.len()..].contains(&n)) }
        UndefinedSymbols(v) => v.iter().all(|s| text.contains(s.as_str()) || text.contains(&format!("{:?}", s))),
        UnsupportedBinaryFormat(f) => text.contains(&f.to_string()) || text.contains(&format!("{:?}", f)),
        _ => !text.is_empty(),
    };
    if !told { return E::Other(format!("the error {:?} says \"{}\"", e, text)); }
    match e {
        Undeclared(s) => E::Undeclared(s),
        ImportDefined(s) => E::ImportDefined(s),
        RelocateImport(s) => E::RelocateImport(s),
        IncompatibleDeclaration { old, new } => E::Incompatible(undecl(&old), undecl(&new)),
        DuplicateDefinition(s) => E::Duplicate(s),
        InvalidZeroInit(d) => E::InvalidZeroInit(undefd(&d)),
        NonSectionCustomSymbols(d, s) => E::NonSectionSymbols(undefd(&d), s),
        UnsupportedBinaryFormat(f) => E::Unsupported(format!("{:?}", f)),
        UndefinedSymbols(mut v) => { v.sort(); E::Undefined(v) }
        Goblin(e) => E::Other(format!("goblin: {}", e)),
        Io(_) => E::Io,
    }
}
pub fn new(s: &t::Scenario) -> Artifact {
    Artifact::new(s.target.parse().expect("target triple"), s.name.clone())
}
pub fn apply(a: &mut Artifact, op: &Op) -> Result<(), E> {
    match op {
        Op::Declare(n, d) => a.declare(n, decl(*d)),
        Op::Import(n, k) => a.import(n, ik(*k)),
        Op::Declarations(v) => a.declarations(v.iter().map(|(n, d)| (n, decl(*d)))),
        Op::DeclareWith(n, d, b) => a.declare_with(n, decl(*d), b.get()),
        Op::Define(n, b) => a.define(n, b.get()),
        Op::DefineZero(n, z) => a.define_zero_init(n, *z),
        Op::DefineSyms(n, p, s) => a.define_with_symbols(n, data(p), s.clone()),
        Op::Link(f, t, at) => a.link(Link { from: f, to: t, at: *at }),
        Op::LinkWith(f, t, at, r) => a.link_with(Link { from: f, to: t, at: *at }, reloc(*r)),
        Op::Emit(f) => { let _ = a.emit_as(bf(*f)); Ok(()) }
    }
    .map_err(err)
}
pub fn imports(a: &Artifact) -> Vec<(String, Ik)> {
    let mut v: Vec<_> = a.imports().map(|(n, k)| (n.to_string(), unik(k))).collect();
    v.sort();
    v
}
pub fn undefined(a: &Artifact) -> Vec<String> { let mut v = a.undefined_symbols(); v.sort(); v }

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Out { Bytes(Vec<u8>), Err(E), Panic(String) }
pub fn emit(a: &Artifact, f: BinaryFormat) -> Out {
    match catch_unwind(AssertUnwindSafe(|| a.emit_as(f))) {
        Ok(Ok(b)) => Out::Bytes(b),
        Ok(Err(e)) => Out::Err(err(e)),
        Err(p) => Out::Panic(panic_text(p)),
    }
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(panic_text) }
