//! A common view of ELF and Mach-O objects, and the oracles: does an object say what a program says?
use crate::model::*;
use crate::types::*;
use crate::{elf, macho};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Viol { pub key: String, pub msg: String }
pub fn viol(key: impl Into<String>, msg: impl Into<String>) -> Viol { Viol { key: key.into(), msg: msg.into() } }

#[derive(Clone, Debug)]
pub struct VSec { pub name: Vec<u8>, pub seg: Vec<u8>, pub nobits: bool, pub progbits: bool, pub alloc: bool, pub write: bool, pub exec: bool, pub mergestr: bool, pub size: u64, pub align: u64, pub addr: u64, pub off: usize, pub flags: u64, pub rels: Vec<VRel> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RType { pub typ: u32, pub pcrel: bool, pub len: u8 }
#[derive(Clone, Debug)]
pub struct VRel { pub off: u64, pub typ: RType, pub sym: Option<usize>, pub addend: i64 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place { Undef, Abs, At(usize, u64) }
#[derive(Clone, Debug)]
pub struct VSym { pub name: Vec<u8>, pub place: Place, pub scope: Scope, pub vis: Vis, pub typ: u8, pub size: u64, pub prefix_ok: bool }
pub struct View<'a> { pub fmt: Fmt, pub bytes: &'a [u8], pub is64: bool, pub le: bool, pub machine: u32, pub secs: Vec<VSec>, pub syms: Vec<VSym>, pub by_name: HashMap<Vec<u8>, Vec<usize>> }

const T_SECTION: u8 = 3;
const T_FILE: u8 = 4;

impl<'a> View<'a> {
    pub fn read(fmt: Fmt, bytes: &'a [u8]) -> Result<View<'a>, Viol> {
        Self::read_as(fmt, bytes, false)
    }
    pub fn read_as(fmt: Fmt, bytes: &'a [u8], own: bool) -> Result<View<'a>, Viol> {
        let v = match fmt { Fmt::Elf => Self::elf(bytes, own), Fmt::Macho => Self::macho(bytes, own) };
        v.map_err(|e| viol("malformed", format!("malformed {:?} object: {}", fmt, e)))
    }
    fn elf(b: &'a [u8], own: bool) -> Result<View<'a>, String> {
        let e = elf::read_as(b, own)?;
        let secs = e.secs.into_iter().map(|s| VSec {
            seg: vec![], nobits: s.typ == elf::SHT_NOBITS, progbits: s.typ == elf::SHT_PROGBITS,
            alloc: s.flags & elf::SHF_ALLOC != 0, write: s.flags & elf::SHF_WRITE != 0, exec: s.flags & elf::SHF_EXEC != 0,
            mergestr: s.flags & (elf::SHF_MERGE | elf::SHF_STRINGS) != 0, size: s.size, align: s.align.max(1), addr: 0, off: s.off as usize, flags: s.flags,
            rels: s.rels.into_iter().map(|r| VRel { off: r.off, typ: RType { typ: r.typ, pcrel: false, len: 0 }, sym: Some(r.sym), addend: r.addend }).collect(),
            name: s.name,
        }).collect();
        let syms: Vec<VSym> = e.syms.into_iter().map(|s| VSym {
            place: match s.shndx { elf::Shndx::Undef => Place::Undef, elf::Shndx::Abs => Place::Abs, elf::Shndx::Sec(i) => Place::At(i, s.value) },
            scope: match s.bind { 0 => Scope::Local, 1 => Scope::Global, _ => Scope::Weak },
            vis: match s.other { 0 => Vis::Default, 3 => Vis::Protected, _ => Vis::Hidden },
            typ: s.typ, size: s.size, prefix_ok: true, name: s.name,
        }).collect();
        let mut by_name: HashMap<Vec<u8>, Vec<usize>> = HashMap::new();
        for (i, s) in syms.iter().enumerate().skip(1) { if s.typ != T_SECTION && s.typ != T_FILE { by_name.entry(s.name.clone()).or_default().push(i) } }
        Ok(View { fmt: Fmt::Elf, bytes: b, is64: e.is64, le: e.le, machine: e.machine as u32, secs, syms, by_name })
    }
    fn macho(b: &'a [u8], own: bool) -> Result<View<'a>, String> {
        let m = macho::read_as(b, own)?;
        let addrs: Vec<u64> = m.secs.iter().map(|s| s.addr).collect();
        let secs = m.secs.into_iter().map(|s| VSec {
            nobits: s.flags & macho::S_TYPE == macho::S_ZEROFILL, progbits: s.flags & macho::S_TYPE == 0, alloc: s.flags & macho::S_ATTR_DEBUG == 0,
            write: s.seg == b"__DATA", exec: s.flags & macho::S_ATTR_SOME != 0, mergestr: s.flags & macho::S_TYPE == macho::S_CSTRINGS,
            size: s.size, align: 1 << s.align, addr: s.addr, off: s.off as usize, flags: s.flags as u64,
            rels: s.rels.into_iter().map(|r| VRel { off: r.off, typ: RType { typ: r.typ as u32, pcrel: r.pcrel, len: r.len }, sym: if r.ext { Some(r.sym) } else { None }, addend: 0 }).collect(),
            name: s.name, seg: s.seg,
        }).collect();
        let syms: Vec<VSym> = m.syms.into_iter().map(|s| VSym {
            prefix_ok: s.name.first() == Some(&b'_'),
            place: if s.typ & macho::N_TYPE == 0 { Place::Undef } else { Place::At(s.sect as usize - 1, s.value - addrs[s.sect as usize - 1]) },
            scope: if s.typ & macho::N_EXT == 0 { Scope::Local } else if s.desc & 0x80 != 0 { Scope::Weak } else { Scope::Global },
            vis: if s.typ & macho::N_PEXT != 0 { Vis::Hidden } else { Vis::Default },
            typ: (s.desc & !0x80 != 0) as u8, size: 0,
            name: s.name.get(1..).unwrap_or(&[]).to_vec(),
        }).collect();
        let mut by_name: HashMap<Vec<u8>, Vec<usize>> = HashMap::new();
        for (i, s) in syms.iter().enumerate() { by_name.entry(s.name.clone()).or_default().push(i) }
        Ok(View { fmt: Fmt::Macho, bytes: b, is64: m.is64, le: m.le, machine: m.cputype, secs, syms, by_name })
    }
    fn data(&self, sec: usize, off: u64, len: u64) -> Option<&'a [u8]> {
        let s = &self.secs[sec];
        if s.nobits || off.checked_add(len)? > s.size { return None; }
        self.bytes.get(s.off + off as usize..s.off + off as usize + len as usize)
    }
    fn sym(&self, name: &str) -> &[usize] { self.by_name.get(name.as_bytes()).map(|v| v.as_slice()).unwrap_or(&[]) }
    pub fn is_real_symbol(&self, i: usize) -> bool {
        let s = &self.syms[i];
        !(self.fmt == Fmt::Elf && (i == 0 || s.typ == T_SECTION || s.typ == T_FILE))
    }
}

pub fn show(n: &[u8]) -> String { String::from_utf8_lossy(n).chars().take(80).collect() }

/// the name a custom section has in the object
pub fn section_name(fmt: Fmt, n: &str) -> Vec<u8> {
    match (fmt, n.strip_prefix(".debug")) { (Fmt::Macho, Some(r)) => format!("__debug{}", r).into_bytes(), _ => n.as_bytes().to_vec() }
}
pub fn seg_of(k: SecKind) -> &'static [u8] { match k { SecKind::Data => b"__DATA", SecKind::Debug => b"__DWARF", SecKind::Text => b"__TEXT" } }

/// Where each definition of a program is: (section, offset), in the order of prog.defs
pub struct Locs { pub at: Vec<Option<(usize, u64)>>, pub idx: HashMap<String, usize>, pub claimed: Vec<bool> }

pub fn locate(p: &Prog, v: &View) -> Locs {
    let mut at = vec![None; p.defs.len()];
    let mut claimed = vec![false; v.secs.len()];
    let idx: HashMap<String, usize> = p.defs.iter().enumerate().map(|(i, d)| (d.name.clone(), i)).collect();
    for (i, d) in p.defs.iter().enumerate() {
        if d.decl.is_section() { continue; }
        for &s in v.sym(&d.name) {
            if let Place::At(sec, off) = v.syms[s].place { if at[i].is_none() { at[i] = Some((sec, off)); claimed[sec] = true; } }
        }
    }
    if p.defs.iter().any(|d| d.decl.is_section()) {
        // the default sections of Mach-O are never custom ones, even if nothing is in them
        let mut free: HashMap<(Vec<u8>, Vec<u8>), Vec<usize>> = HashMap::new();
        for (i, s) in v.secs.iter().enumerate() {
            if claimed[i] || (v.fmt == Fmt::Elf && !s.progbits && !s.nobits) { continue; }
            free.entry((s.seg.clone(), s.name.clone())).or_default().push(i);
        }
        // most specific first: custom symbols say which section it is, then the contents, then whatever is left
        for pass in 0..3 {
            for (i, d) in p.defs.iter().enumerate() {
                let kind = match d.decl { Decl::Section { kind, .. } if at[i].is_none() => kind, _ => continue };
                let name = section_name(v.fmt, &d.name);
                let seg: &[u8] = if v.fmt == Fmt::Macho { seg_of(kind) } else { b"" };
                let cands = match free.get_mut(&(seg.to_vec(), name.to_vec())) { Some(c) => c, None => continue };
                let pick = match pass {
                    0 => d.syms.keys().find_map(|k| match v.sym(k) { [s] => match v.syms[*s].place { Place::At(sec, _) => cands.iter().position(|&c| c == sec), _ => None }, _ => None }),
                    1 => match &d.data { Payload::Blob(b) => { let b = b.get(); cands.iter().position(|&c| v.secs[c].size == b.len() as u64 && v.data(c, 0, b.len() as u64) == Some(&b[..])) } _ => None },
                    _ => if cands.is_empty() { None } else { Some(0) },
                };
                if let Some(k) = pick { let c = cands.remove(k); at[i] = Some((c, 0)); claimed[c] = true; }
            }
        }
    }
    Locs { at, idx, claimed }
}

// ------------------------------------------------------------------ symbols

pub fn chk_symbols(p: &Prog, v: &View) -> Vec<Viol> {
    let mut e = vec![];
    let mut used = vec![false; v.syms.len()];
    let mut one = |n: &str, what: &str, e: &mut Vec<Viol>| -> Option<usize> {
        match v.sym(n) {
            [s] => { used[*s] = true; Some(*s) }
            l => {
                for &s in l { used[s] = true }
                e.push(viol("symbol-count", format!("{} symbols for {} {:?}", l.len(), what, n)));
                None
            }
        }
    };
    for d in &p.defs {
        if d.decl.is_section() {
            for (k, _) in &d.syms {
                if let Some(s) = one(k, "custom symbol", &mut e) { if !matches!(v.syms[s].place, Place::At(..)) { e.push(viol("custom-undefined", format!("custom symbol {:?} is not in a section", k))) } }
            }
            continue;
        }
        let Some(s) = one(&d.name, "definition", &mut e) else { continue };
        let y = &v.syms[s];
        let (sec, off) = match y.place { Place::At(sec, off) => (sec, off), x => { e.push(viol("definition-undefined", format!("definition {:?} is {:?}", d.name, x))); continue } };
        if off.checked_add(d.data.size()).map_or(true, |end| end > v.secs[sec].size) { e.push(viol("symbol-beyond-section", format!("{:?} extends beyond its section: {:#x}+{:#x} of {:#x}", d.name, off, d.data.size(), v.secs[sec].size))) }
        if y.scope != d.decl.get_scope() { e.push(viol("scope", format!("{:?} is {:?} instead of {:?}", d.name, y.scope, d.decl.get_scope()))) }
        let want_vis = match v.fmt {
            Fmt::Elf => d.decl.get_vis(),
            // no protected symbols; hidden only matters for what is external
            Fmt::Macho => if d.decl.get_vis() == Vis::Hidden && d.decl.get_scope() != Scope::Local { Vis::Hidden } else { Vis::Default },
        };
        if y.vis != want_vis { e.push(viol("visibility", format!("{:?} is {:?} instead of {:?}", d.name, y.vis, want_vis))) }
        if v.fmt == Fmt::Elf {
            let t = if d.decl.is_func() { 2 } else { 1 };
            if y.typ != t { e.push(viol("symbol-type", format!("{:?} has symbol type {} instead of {}", d.name, y.typ, t))) }
        } else if y.typ != 0 { e.push(viol("symbol-desc", format!("{:?} has an unexpected n_desc", d.name))) }
    }
    for (n, _) in &p.imports {
        if let Some(s) = one(n, "import", &mut e) {
            let y = &v.syms[s];
            if y.place != Place::Undef { e.push(viol("import-defined", format!("import {:?} is {:?}", n, y.place))) }
            if y.scope != Scope::Global || y.vis != Vis::Default { e.push(viol("import-binding", format!("import {:?} is {:?} {:?}", n, y.scope, y.vis))) }
        }
    }
    let mut files = 0;
    for (i, y) in v.syms.iter().enumerate() {
        if v.is_real_symbol(i) {
            if !used[i] { e.push(viol("extra-symbol", format!("extra symbol {:?} {:?}", show(&y.name), y.place))) }
            if !y.prefix_ok { e.push(viol("no-underscore", format!("symbol {:?} has no underscore", show(&y.name)))) }
        } else if y.typ == T_FILE {
            files += 1;
            if y.name != p.name.as_bytes() { e.push(viol("file-symbol", format!("file symbol {:?} instead of {:?}", show(&y.name), p.name))) }
        }
    }
    if v.fmt == Fmt::Elf && files != 1 { e.push(viol("file-symbol", format!("{} file symbols", files))) }
    e
}

// ------------------------------------------------------------------ contents

pub fn chk_contents(p: &Prog, v: &View, l: &Locs) -> Vec<Viol> {
    let mut e = vec![];
    let mut spans: Vec<(usize, u64, u64, usize)> = vec![];
    for (i, d) in p.defs.iter().enumerate() {
        let Some((sec, off)) = l.at[i] else { e.push(viol("missing", format!("{:?} is not in the object", d.name))); continue };
        let len = d.data.size();
        let s = &v.secs[sec];
        if d.decl.is_section() && s.size != len { e.push(viol("section-size", format!("section {:?} has {} bytes instead of {}", d.name, s.size, len))) }
        match &d.data {
            Payload::Blob(b) => {
                if s.nobits { e.push(viol("contents", format!("{:?} has no contents", d.name))) } else {
                    match v.data(sec, off, len) {
                        None => e.push(viol("contents", format!("contents of {:?} are beyond its section", d.name))),
                        Some(x) => { let b = b.get(); if x != &b[..] { let k = x.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(0); e.push(viol("contents", format!("contents of {:?} differ at {} of {}: {:#x} instead of {:#x}", d.name, k, len, x[k], b[k]))) } }
                    }
                }
            }
            Payload::Zero(_) => {
                if !s.nobits { match v.data(sec, off, len) { Some(x) if x.iter().all(|&c| c == 0) => {} _ => e.push(viol("contents", format!("{:?} is not zero", d.name))) } }
                else if off.checked_add(len).map_or(true, |x| x > s.size) { e.push(viol("contents", format!("{:?} extends beyond its section: {:#x}+{:#x} of {:#x}", d.name, off, len, s.size))) }
            }
        }
        if v.fmt == Fmt::Elf && !d.decl.is_section() {
            if let [y] = v.sym(&d.name) { if v.syms[*y].size != len { e.push(viol("symbol-size", format!("symbol {:?} has size {:#x} instead of {:#x}", d.name, v.syms[*y].size, len))) } }
        }
        spans.push((sec, off, len, i));
    }
    spans.sort();
    for w in spans.windows(2) {
        let (a, b) = (w[0], w[1]);
        if a.0 == b.0 && (a.1 + a.2 > b.1 && b.2 > 0) { e.push(viol("overlap", format!("{:?} and {:?} overlap", p.defs[a.3].name, p.defs[b.3].name))) }
        if a.0 == b.0 && (p.defs[a.3].decl.is_section() || p.defs[b.3].decl.is_section()) { e.push(viol("shared-section", format!("{:?} and {:?} are in the same section", p.defs[a.3].name, p.defs[b.3].name))) }
    }
    // nothing else that is loaded
    if v.fmt == Fmt::Elf {
        for (i, s) in v.secs.iter().enumerate() { if s.alloc && s.size > 0 && !l.claimed[i] { e.push(viol("extra-contents", format!("section {:?} belongs to nothing", show(&s.name)))) } }
    }
    let mut i = 0;
    while i < spans.len() {
        let sec = spans[i].0;
        let mut end = 0;
        while i < spans.len() && spans[i].0 == sec {
            if spans[i].1 > end && spans[i].1 - end >= v.secs[sec].align { e.push(viol("gap", format!("{} bytes before {:?} belong to nothing", spans[i].1 - end, p.defs[spans[i].3].name))) }
            end = end.max(spans[i].1 + spans[i].2);
            i += 1;
        }
        if v.secs[sec].size > end && v.secs[sec].size - end >= v.secs[sec].align.max(16) { e.push(viol("gap", format!("{} bytes at the end of section {:?} belong to nothing", v.secs[sec].size - end, show(&v.secs[sec].name)))) }
    }
    e
}

// ------------------------------------------------------------------ sections

pub fn chk_attrs(p: &Prog, v: &View, l: &Locs) -> Vec<Viol> {
    let mut e = vec![];
    for (i, d) in p.defs.iter().enumerate() {
        let Some((sec, off)) = l.at[i] else { e.push(viol("missing", format!("{:?} is not in the object", d.name))); continue };
        let s = &v.secs[sec];
        let mut want = |c: bool, key: &str, what: &str| if !c { e.push(viol(key, format!("{:?} ({}): {}; section {:?} {:?} flags {:#x} align {}", d.name, put_decl(&d.decl), what, show(&s.seg), show(&s.name), s.flags, s.align))) };
        if let Some(a) = d.decl.get_align() {
            want(s.align >= a, "section-align", "its section is not aligned enough");
            want((s.addr + off) % a == 0, "align", &format!("address {:#x} is not aligned", s.addr + off));
        }
        match (v.fmt, d.decl) {
            (Fmt::Elf, Decl::Func { .. } | Decl::Data { .. }) => {
                want(s.alloc, "alloc", "not loaded");
                let (prefix, exec, write, str) = match d.decl {
                    Decl::Func { .. } => (".text", true, false, false),
                    Decl::Data { .. } if d.data.is_zero() => (".bss", false, true, false),
                    Decl::Data { writable: true, .. } => (".data", false, true, false),
                    Decl::Data { dt, .. } => (".rodata", false, false, dt == Dt::Str),
                    _ => unreachable!(),
                };
                want(s.exec == exec, "exec", "wrong executability");
                want(s.write == write, "write", "wrong writability");
                want(s.nobits == d.data.is_zero() && s.progbits != s.nobits, "nobits", "wrong section type");
                let m = s.flags & 0x30;
                want(m == if str { 0x30 } else { 0 }, "merge", "wrong MERGE/STRINGS flags");
                want(s.name == [prefix.as_bytes(), b".", d.name.as_bytes()].concat(), "section-name", "wrong section name");
                want(s.flags & !0x37 == 0, "flags", "other flags");
            }
            (Fmt::Elf, Decl::Section { kind, dt, .. }) => {
                let f = s.flags & 7;
                let w = match kind { SecKind::Data => 3, SecKind::Text => 6, SecKind::Debug => 0 };
                want(f == w, &format!("elf-custom-access kind={:?} access={}", kind, f), "wrong access");
                if kind != SecKind::Data {
                    let str = dt == Dt::Str || d.name == ".debug_str" || d.name == ".debug_line_str";
                    want(s.flags & 0x30 == if str { 0x30 } else { 0 }, "merge", "wrong MERGE/STRINGS flags");
                }
                want(s.progbits, "nobits", "wrong section type");
                want(s.flags & !0x37 == 0, "flags", "other flags");
            }
            (Fmt::Macho, Decl::Func { .. }) => {
                want(s.seg == b"__TEXT" && s.name == b"__text", "section-name", "wrong section");
                want(s.progbits && s.flags as u32 & macho::S_ATTR_PURE != 0 && s.exec, "exec", "not an instruction section");
            }
            (Fmt::Macho, Decl::Data { writable, dt, .. }) => {
                want(!s.exec && s.flags as u32 & macho::S_ATTR_PURE == 0, "exec", "in an instruction section");
                if d.data.is_zero() { want(s.nobits && s.seg == b"__DATA", "nobits", "not in zero-fill data") }
                else if dt == Dt::Str && !writable { want(s.mergestr && s.seg == b"__TEXT", "cstring", "not among the C strings") }
                else { want(s.progbits && s.seg == b"__DATA", "data", "not in regular data") }
            }
            (Fmt::Macho, Decl::Section { kind, .. }) => {
                want(s.seg == seg_of(kind), "segment", "wrong segment");
                want(s.flags as u32 == if kind == SecKind::Debug { macho::S_ATTR_DEBUG } else { 0 }, "flags", "wrong flags");
            }
            _ => {}
        }
    }
    if v.fmt == Fmt::Macho {
        // linkers take C strings apart at the NULs: anything else between them would belong to the following one, and move it
        let mut strs: Vec<(usize, u64, usize)> = l.at.iter().enumerate().filter_map(|(i, a)| a.filter(|a| v.secs[a.0].mergestr).map(|a| (a.0, a.1, i))).collect();
        strs.sort();
        let (mut sec, mut end) = (usize::MAX, 0);
        for &(s, off, i) in &strs {
            if s != sec { sec = s; end = 0 }
            if end < off && !v.data(s, end, off - end).map_or(false, |x| x.iter().all(|&c| c == 0)) { e.push(viol("cstring-padding", format!("the bytes before the string {:?} are not NULs", p.defs[i].name))); break; }
            end = end.max(off + p.defs[i].data.size());
        }
    }
    if v.fmt == Fmt::Elf {
        let notes: Vec<&VSec> = v.secs.iter().enumerate().filter(|(i, s)| s.name == b".note.GNU-stack" && !l.claimed[*i]).map(|x| x.1).collect();
        if notes.len() != 1 || notes[0].flags != 0 || !notes[0].progbits { e.push(viol("gnu-stack", "the stack is not marked as not executable")) }
    }
    e
}

pub fn chk_custom(p: &Prog, v: &View, l: &Locs) -> Vec<Viol> {
    let mut e = vec![];
    for (i, d) in p.defs.iter().enumerate() {
        if !d.decl.is_section() { continue; }
        let Some((sec, _)) = l.at[i] else { e.push(viol("missing", format!("section {:?} is not in the object", d.name))); continue };
        for (k, off) in &d.syms {
            match v.sym(k) {
                [s] => match v.syms[*s].place {
                    Place::At(a, o) => if (a, o) != (sec, *off) { e.push(viol("custom-place", format!("custom symbol {:?} of {:?} is at {:#x} of section {:?} instead of {:#x}", k, d.name, o, show(&v.secs[a].name), off))) },
                    x => e.push(viol("custom-place", format!("custom symbol {:?} is {:?}", k, x))),
                },
                x => e.push(viol("custom-count", format!("{} symbols for custom symbol {:?}", x.len(), k))),
            }
        }
    }
    // as many sections of a name as there should be (Mach-O has a few of its own, ELF a note)
    let mut n: BTreeMap<(Vec<u8>, Vec<u8>), i64> = BTreeMap::new();
    for d in &p.defs { if let Decl::Section { kind, .. } = d.decl { *n.entry((if v.fmt == Fmt::Macho { seg_of(kind).to_vec() } else { vec![] }, section_name(v.fmt, &d.name))).or_default() -= 1 } }
    for (i, s) in v.secs.iter().enumerate() {
        if let Some(c) = n.get_mut(&(s.seg.clone(), s.name.clone())) { if l.claimed[i] && !(v.fmt == Fmt::Elf && !s.progbits && !s.nobits) { *c += 1 } }
    }
    // claimed ones include those of functions and data objects, which may have the same name
    for ((_, n), c) in n { if c < 0 { e.push(viol("custom-section-count", format!("{} sections {:?} missing", -c, show(&n)))) } }
    e
}

// ------------------------------------------------------------------ links

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Target { Named(Vec<u8>, i64), Loc(usize, i64) }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Eff { pub sec: usize, pub off: u64, pub typ: RType, pub target: Target, pub sym: Option<usize> }

pub fn actual_effects(v: &View) -> Vec<Eff> {
    let mut o = vec![];
    for (i, s) in v.secs.iter().enumerate() {
        for r in &s.rels {
            let target = match r.sym {
                None => Target::Named(b"<section>".to_vec(), 0),
                Some(k) => {
                    let y = &v.syms[k];
                    match y.place {
                        Place::At(sec, off) if y.scope != Scope::Weak => Target::Loc(sec, off as i64 + r.addend),
                        _ => Target::Named(y.name.clone(), r.addend),
                    }
                }
            };
            o.push(Eff { sec: i, off: r.off, typ: r.typ, target, sym: r.sym });
        }
    }
    o
}
/// relocation types that mean what the link means, and the addend
pub fn wanted(p: &Prog, v: &View, l: &Locs, k: &MLink) -> Option<(Vec<RType>, i64)> {
    let e = |t: u32| RType { typ: t, pcrel: false, len: 0 };
    let m = |t: u32, pcrel, len| RType { typ: t, pcrel, len };
    let from = &p.defs[*l.idx.get(&k.from)?];
    let to = l.idx.get(&k.to).map(|&i| &p.defs[i]);
    Some(match (v.fmt, k.reloc) {
        (Fmt::Elf, Reloc::Raw { reloc, addend }) => (vec![e(reloc)], addend as i64),
        (Fmt::Elf, Reloc::Debug { size, addend }) => (vec![e(if size == 4 { 10 } else { 1 })], addend as i64),
        (Fmt::Macho, Reloc::Raw { reloc, .. }) => (vec![if reloc == 0 { m(0, false, 3) } else { m(reloc, true, 2) }], 0),
        (Fmt::Macho, Reloc::Debug { size, .. }) => (vec![m(0, false, if size == 4 { 2 } else { 3 })], 0),
        (f, Reloc::Auto) => {
            let elf = f == Fmt::Elf;
            if from.decl.is_section() || to.map_or(false, |t| t.decl.is_section()) { return Some((vec![], 0)); }
            if from.decl.is_data() { return Some((vec![if elf { e(1) } else { m(0, false, 3) }], 0)); }
            let func = match to { Some(t) => t.decl.is_func(), None => p.import(&k.to)? == Ik::Func };
            match (to, func) {
                (Some(t), true) => if elf { (if t.decl.get_scope() == Scope::Weak { vec![e(4)] } else { vec![e(4), e(2)] }, -4) } else { (vec![m(2, true, 2)], 0) },
                (Some(_), false) => if elf { (vec![e(2)], -4) } else { (vec![m(1, true, 2)], 0) },
                (None, true) => if elf { (vec![e(4)], -4) } else { (vec![m(2, true, 2)], 0) },
                (None, false) => if elf { (vec![e(9), e(41), e(42)], -4) } else { (vec![m(3, true, 2)], 0) },
            }
        }
    })
}
pub fn chk_links(p: &Prog, v: &View, l: &Locs) -> Vec<Viol> { links(p, v, l, false) }
/// as many relocations as there should be, where they should be, to what they should be to; of whatever type
pub fn chk_link_places(p: &Prog, v: &View, l: &Locs) -> Vec<Viol> { links(p, v, l, true) }
fn links(p: &Prog, v: &View, l: &Locs, any: bool) -> Vec<Viol> {
    let mut e = vec![];
    // per site, in order
    let mut act: HashMap<(usize, u64), Vec<Eff>> = HashMap::new();
    for a in actual_effects(v) { act.entry((a.sec, a.off)).or_default().push(a) }
    let mut exp: BTreeMap<(usize, u64), Vec<(&MLink, Vec<RType>, Target)>> = BTreeMap::new();
    for k in &p.links {
        let Some(&fi) = l.idx.get(&k.from) else { continue };
        let Some((sec, off)) = l.at[fi] else { e.push(viol("missing", format!("{:?} is not in the object", k.from))); continue };
        let Some((types, addend)) = wanted(p, v, l, k) else { continue };
        let to = l.idx.get(&k.to).copied();
        let target = match to {
            Some(t) if p.defs[t].decl.get_scope() != Scope::Weak => match l.at[t] { Some((s, o)) => Target::Loc(s, o as i64 + addend), None => continue },
            _ => Target::Named(k.to.as_bytes().to_vec(), addend),
        };
        // Mach-O has no relocations to debug sections: what refers to them are plain offsets
        if v.fmt == Fmt::Macho && matches!(k.reloc, Reloc::Debug { .. }) && to.map_or(false, |t| p.defs[t].decl.is_section()) { continue; }
        exp.entry((sec, off + k.at)).or_default().push((k, types, target));
    }
    for (site, list) in &exp {
        let got = act.remove(site).unwrap_or_default();
        let name = |k: &MLink| format!("link {:?} -> {:?} at {} {:?}", k.from, k.to, k.at, k.reloc);
        if got.len() != list.len() { e.push(viol("reloc-count", format!("{}: {} relocations there instead of {}", name(list[0].0), got.len(), list.len()))); continue }
        for (g, (k, types, target)) in got.iter().zip(list) {
            if any || types.is_empty() {
                // any type, but to the right place
                let ok = match (&g.target, target) { (Target::Named(a, _), Target::Named(b, _)) => a == b, (Target::Loc(a, _), Target::Loc(b, _)) => a == b, _ => false };
                if !ok { e.push(viol("reloc-target", format!("{}: relocation to {:?} instead of {:?}", name(k), g.target, target))) }
                continue;
            }
            if !types.contains(&g.typ) { e.push(viol("reloc-type", format!("{}: relocation {:?} instead of {:?}", name(k), g.typ, types))) }
            if g.target != *target { e.push(viol("reloc-target", format!("{}: relocation to {:?} instead of {:?}", name(k), g.target, target))) }
        }
    }
    let mut rest: Vec<_> = act.into_iter().collect();
    rest.sort();
    for ((s, o), g) in rest.into_iter().take(3) { e.push(viol("extra-reloc", format!("relocation at {:#x} of section {:?} that belongs to no link: {:?}", o, show(&v.secs[s].name), g[0]))) }
    e
}

// ------------------------------------------------------------------ zero-initialized data

pub fn chk_zero(p: &Prog, v: &View, l: &Locs) -> Vec<Viol> {
    let mut e = vec![];
    let mut spans: Vec<(usize, u64, u64, usize)> = vec![];
    for (i, d) in p.defs.iter().enumerate() { if let Some((s, o)) = l.at[i] { spans.push((s, o, d.data.size(), i)) } }
    spans.sort();
    for w in spans.windows(2) { if w[0].0 == w[1].0 && w[0].1 + w[0].2 > w[1].1 && w[1].2 > 0 { e.push(viol("overlap", format!("{:?} and {:?} overlap", p.defs[w[0].3].name, p.defs[w[1].3].name))) } }
    let mut filed = 0u64;
    for (i, d) in p.defs.iter().enumerate() {
        if !d.data.is_zero() { filed += d.data.size(); continue }
        let Some((sec, off)) = l.at[i] else { e.push(viol("missing", format!("{:?} is not in the object", d.name))); continue };
        let s = &v.secs[sec];
        let mut want = |c: bool, key: &str, what: &str| if !c { e.push(viol(key, format!("{:?}: {}; size {:#x} at {:#x} of section {:?} of size {:#x}", d.name, what, d.data.size(), off, show(&s.name), s.size))) };
        want(s.nobits, "nobits", "not in a zero-fill section");
        want(s.write && s.alloc && !s.exec, "access", "not in writable memory");
        want(off.checked_add(d.data.size()).map_or(false, |x| x <= s.size), "reserved", "not all of it is reserved");
        if v.fmt == Fmt::Elf {
            want(s.size == d.data.size() || spans.iter().filter(|x| x.0 == sec).count() > 1, "exact", "section of another size");
            if let [y] = v.sym(&d.name) { want(v.syms[*y].size == d.data.size(), "symbol-size", "symbol of another size") }
        }
        if let Some(a) = d.decl.get_align() { want(s.align >= a && (s.addr + off) % a == 0, "align", "not aligned") }
    }
    // Nothing in the file for it: everything there but the definitions is within a generous bound
    // that doesn't depend on sizes, other than padding for alignment
    let pad: u64 = p.defs.iter().map(|d| d.decl.get_align().unwrap_or(16) + 16).sum();
    let names: u64 = p.defs.iter().map(|d| 16 * d.name.len() as u64 + d.syms.keys().map(|k| 2 * k.len() as u64 + 64).sum::<u64>()).sum::<u64>() + p.imports.iter().map(|i| 4 * i.0.len() as u64 + 64).sum::<u64>();
    let bound = filed + pad + names + 512 * p.defs.len() as u64 + 128 * p.links.len() as u64 + 4096 + p.name.len() as u64;
    if v.bytes.len() as u64 > bound { e.push(viol("file-size", format!("the file has {} bytes", v.bytes.len()))) }
    e
}

// ------------------------------------------------------------------ facts: a normal form, for comparisons

fn h(b: &[u8]) -> u64 { b.iter().fold(0xcbf2_9ce4_8422_2325, |h, &x| (h ^ x as u64).wrapping_mul(0x100_0000_01b3)) }

/// What an object says about a program, in a form that doesn't depend on order or layout.
/// `portable`: only what both formats can say
pub fn facts(p: &Prog, v: &View, portable: bool) -> Vec<String> {
    let l = locate(p, v);
    let mut f = vec![];
    for (i, d) in p.defs.iter().enumerate() {
        let Some((sec, off)) = l.at[i] else { f.push(format!("def {} missing", esc(&d.name))); continue };
        let s = &v.secs[sec];
        let a = d.decl.get_align().unwrap_or(1);
        let aligned = s.align >= a && (s.addr + off) % a == 0;
        let contents = if s.nobits { if off.checked_add(d.data.size()).map_or(false, |x| x <= s.size) { format!("zero {}", d.data.size()) } else { "beyond its section".into() } } else { match v.data(sec, off, d.data.size()) { None => "out of the file".into(), Some(x) => format!("{} {:x}", x.len(), h(x)) } };
        let class = if s.exec { "code" } else if s.nobits { "zero" } else if s.mergestr && !d.decl.is_section() { "strings" } else { "data" };
        let y = v.sym(&d.name).first().map(|&k| &v.syms[k]);
        let sym = match y { Some(y) if !d.decl.is_section() => format!("{:?} {}", y.scope, if y.vis == Vis::Hidden && y.scope != Scope::Local { "hidden" } else { "" }), _ => String::new() };
        if portable {
            let class = if d.decl.is_section() { "section" } else { class };
            f.push(format!("def {} {} {} {} aligned={}", esc(&d.name), sym, class, contents, aligned));
        } else {
            let sy = y.map(|y| format!("{} {} {:?}", y.typ, y.size, y.vis)).unwrap_or_default();
            let (fl, nm) = (s.flags, show(&s.name));
            f.push(format!("def {} {} {} {} aligned={} sym={} flags={:x} in={} {} align={}", esc(&d.name), sym, class, contents, aligned, sy, fl, show(&s.seg), nm, s.align));
        }
        for (k, o) in &d.syms {
            let pl: Vec<String> = v.sym(k).iter().map(|&y| match v.syms[y].place { Place::At(q, r) => format!("{} {:#x}{}", if q == sec { "there" } else { "elsewhere" }, r, if portable { String::new() } else { format!(" {:?}", v.syms[y].scope) }), x => format!("{:?}", x) }).collect();
            f.push(format!("custom {} of {} ({}): {:?}", esc(k), esc(&d.name), o, pl));
        }
    }
    for (n, _) in &p.imports { f.push(format!("import {} {:?}", esc(n), v.sym(n).iter().map(|&y| (v.syms[y].place, v.syms[y].scope)).collect::<Vec<_>>())) }
    f.push(format!("{} symbols", (0..v.syms.len()).filter(|&i| v.is_real_symbol(i)).count()));
    // links: by definition they are in, target by definition
    let mut spans: Vec<(usize, u64, u64, usize)> = p.defs.iter().enumerate().filter_map(|(i, d)| l.at[i].map(|(s, o)| (s, o, d.data.size(), i))).collect();
    spans.sort();
    let find = |sec: usize, off: i64| -> String {
        // the definition at or before; of empty ones at the same place the last one
        let k = spans.partition_point(|x| (x.0, x.1 as i64) <= (sec, off));
        match k.checked_sub(1).map(|k| spans[k]) {
            Some((s, o, _, i)) if s == sec => format!("{}+{}", esc(&p.defs[i].name), off - o as i64),
            _ => format!("? {}", off),
        }
    };
    let mut sites: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for x in actual_effects(v) {
        let (kind, fix) = match (v.fmt, portable) {
            (Fmt::Elf, true) => match x.typ.typ { 4 => ("call".to_string(), 4), 2 => ("pc".into(), 4), 9 | 41 | 42 => ("got".into(), 4), 1 => ("abs8".into(), 0), 10 => ("abs4".into(), 0), t => (format!("elf {}", t), 0) },
            (Fmt::Macho, true) => match (x.typ.typ, x.typ.pcrel, x.typ.len) { (2, true, 2) => ("call".to_string(), 0), (1, true, 2) => ("pc".into(), 0), (3, true, 2) => ("got".into(), 0), (0, false, 3) => ("abs8".into(), 0), (0, false, 2) => ("abs4".into(), 0), t => (format!("macho {:?}", t), 0) },
            _ => (format!("{:?}", x.typ), if v.fmt == Fmt::Elf && matches!(x.typ.typ, 4 | 2 | 9) { 4 } else { 0 }),
        };
        let t = match &x.target { Target::Named(n, a) => { let n = std::str::from_utf8(n).map(esc).unwrap_or_else(|_| show(n)); format!("{}+{}", n, a + fix) } Target::Loc(s, o) => match x.sym.filter(|&k| v.is_real_symbol(k)).map(|k| &v.syms[k]) {
            // by name if it has one: that is not ambiguous next to empty definitions
            Some(y) => match y.place { Place::At(_, p) => format!("{}+{}", std::str::from_utf8(&y.name).map(esc).unwrap_or_else(|_| show(&y.name)), o + fix - p as i64), _ => find(*s, o + fix) },
            None => find(*s, o + fix),
        } };
        sites.entry(find(x.sec, x.off as i64)).or_default().push(format!("{} {}", kind, t));
    }
    for (k, x) in sites { f.push(format!("link at {}: {}", k, x.join(", "))) }
    f.sort();
    f
}
pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a == b { return None; }
    let x = a.iter().find(|x| !b.contains(x));
    let y = b.iter().find(|x| !a.contains(x));
    Some(format!("{} vs. {}", x.map(|s| s.as_str()).unwrap_or("-"), y.map(|s| s.as_str()).unwrap_or("-")))
}
