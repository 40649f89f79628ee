//! The reference model: what an artifact is after a sequence of calls. Deliberately boring.
use crate::types::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Err {
    Undeclared(String),
    ImportDefined(String),
    RelocateImport(String),
    Incompatible(Decl, Decl),
    Duplicate(String),
    InvalidZeroInit(Decl),
    NonSectionSymbols(Decl, BTreeMap<String, u64>),
    Unsupported(String),
    Undefined(Vec<String>), // sorted
    Io,
    Other(String),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct MDecl { pub name: String, pub decl: Decl, pub def: Option<(Payload, BTreeMap<String, u64>)> }
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct MLink { pub from: String, pub to: String, pub at: u64, pub reloc: Reloc }

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Model { pub decls: Vec<MDecl>, idx: BTreeMap<String, usize>, pub links: Vec<MLink> }

impl Model {
    pub fn find(&self, n: &str) -> Option<&MDecl> { self.idx.get(n).map(|&i| &self.decls[i]) }
    fn find_mut(&mut self, n: &str) -> Option<&mut MDecl> { let i = *self.idx.get(n)?; Some(&mut self.decls[i]) }
    /// rules 1-4 of Decl::absorb; None: incompatible
    pub fn absorb(old: Decl, new: Decl) -> Option<Decl> {
        if old == new { return Some(old); }
        match (old, new) {
            (Decl::Import(Ik::Func), Decl::Func { .. }) | (Decl::Import(Ik::Data), Decl::Data { .. }) => Some(new),
            (Decl::Func { .. }, Decl::Import(Ik::Func)) | (Decl::Data { .. }, Decl::Import(Ik::Data)) => Some(old),
            _ => None,
        }
    }
    fn declare(&mut self, n: &str, d: Decl) -> Result<(), Vec<Err>> {
        if let Some(m) = self.find_mut(n) {
            match Self::absorb(m.decl, d) {
                Some(x) => m.decl = x,
                None => return Err(vec![Err::Incompatible(m.decl, d)]),
            }
        } else {
            self.idx.insert(n.into(), self.decls.len());
            self.decls.push(MDecl { name: n.into(), decl: d, def: None });
        }
        Ok(())
    }
    fn define(&mut self, n: &str, p: &Payload, syms: &BTreeMap<String, u64>) -> Result<(), Vec<Err>> {
        let m = match self.find_mut(n) { None => return Err(vec![Err::Undeclared(n.into())]), Some(m) => m };
        // whichever of the rules that are broken may be reported
        let mut e = vec![];
        if m.decl.is_import() { e.push(Err::ImportDefined(n.into())) } else {
            if m.def.is_some() { e.push(Err::Duplicate(n.into())) }
            if !m.decl.is_section() && !syms.is_empty() { e.push(Err::NonSectionSymbols(m.decl, syms.clone())) }
            if !m.decl.is_data() && p.is_zero() { e.push(Err::InvalidZeroInit(m.decl)) }
        }
        if !e.is_empty() { return Err(e); }
        m.def = Some((p.clone(), syms.clone()));
        Ok(())
    }
    fn link(&mut self, f: &str, t: &str, at: u64, reloc: Reloc) -> Result<(), Vec<Err>> {
        let mut e = vec![];
        match self.find(f) { None => e.push(Err::Undeclared(f.into())), Some(m) if m.decl.is_import() => e.push(Err::RelocateImport(f.into())), _ => {} }
        if self.find(t).is_none() { e.push(Err::Undeclared(t.into())) }
        if !e.is_empty() { return Err(e); }
        self.links.push(MLink { from: f.into(), to: t.into(), at, reloc });
        Ok(())
    }
    /// Ok, or the errors of which one has to be reported
    pub fn step(&mut self, op: &Op) -> Result<(), Vec<Err>> {
        match op {
            Op::Declare(n, d) => self.declare(n, *d),
            Op::Import(n, k) => self.declare(n, Decl::Import(*k)),
            Op::Declarations(v) => { for (n, d) in v { self.declare(n, *d)? } Ok(()) }
            Op::DeclareWith(n, d, b) => { self.declare(n, *d)?; self.define(n, &Payload::Blob(b.clone()), &BTreeMap::new()) }
            Op::Define(n, b) => self.define(n, &Payload::Blob(b.clone()), &BTreeMap::new()),
            Op::DefineZero(n, z) => self.define(n, &Payload::Zero(*z), &BTreeMap::new()),
            Op::DefineSyms(n, p, s) => self.define(n, p, s),
            Op::Link(f, t, at) => self.link(f, t, *at, Reloc::Auto),
            Op::LinkWith(f, t, at, r) => self.link(f, t, *at, *r),
            Op::Emit(_) => Ok(()),
        }
    }
    pub fn imports(&self) -> Vec<(String, Ik)> {
        let mut v: Vec<_> = self.decls.iter().filter_map(|d| match d.decl { Decl::Import(k) => Some((d.name.clone(), k)), _ => None }).collect();
        v.sort();
        v
    }
    pub fn undefined(&self) -> Vec<String> {
        let mut v: Vec<_> = self.decls.iter().filter(|d| !d.decl.is_import() && d.def.is_none()).map(|d| d.name.clone()).collect();
        v.sort();
        v
    }
    /// names of custom symbols that clash with another symbol
    pub fn clashes(&self) -> Vec<String> {
        let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
        for d in &self.decls {
            if !d.decl.is_section() { *seen.entry(&d.name).or_default() += 2; }
            if let Some((_, s)) = &d.def { for k in s.keys() { *seen.entry(k).or_default() += 1 } }
        }
        let custom: Vec<&String> = self.decls.iter().filter_map(|d| d.def.as_ref()).flat_map(|d| d.1.keys()).collect();
        let mut v: Vec<String> = custom.into_iter().filter(|k| seen[k.as_str()] > 1).cloned().collect();
        v.sort();
        v.dedup();
        v
    }
    /// The errors emission has to report one of; none if it has to succeed.
    /// `supported`: the format is ELF or Mach-O
    pub fn emit_errors(&self, format: &str, supported: bool) -> Vec<Err> {
        let mut e = vec![];
        let u = self.undefined();
        if !u.is_empty() { e.push(Err::Undefined(u)) }
        if !supported { e.push(Err::Unsupported(format.into())) }
        for c in self.clashes() { e.push(Err::Duplicate(c)) }
        e
    }
    pub fn prog(&self, sc: &Scenario) -> Prog {
        let mut p = Prog { target: sc.target.clone(), name: sc.name.clone(), defs: vec![], imports: vec![], links: self.links.clone() };
        for d in &self.decls {
            match (&d.decl, &d.def) {
                (Decl::Import(k), _) => p.imports.push((d.name.clone(), *k)),
                (_, Some((pl, s))) => p.defs.push(PDef { name: d.name.clone(), decl: d.decl, data: pl.clone(), syms: s.clone() }),
                _ => {}
            }
        }
        p
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct PDef { pub name: String, pub decl: Decl, pub data: Payload, pub syms: BTreeMap<String, u64> }
/// The program a complete artifact describes
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Prog { pub target: String, pub name: String, pub defs: Vec<PDef>, pub imports: Vec<(String, Ik)>, pub links: Vec<MLink> }
impl Prog {
    pub fn def(&self, n: &str) -> Option<&PDef> { self.defs.iter().find(|d| d.name == n) }
    pub fn import(&self, n: &str) -> Option<Ik> { self.imports.iter().find(|d| d.0 == n).map(|x| x.1) }
}
