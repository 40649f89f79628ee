//! Emission checks: build the real artifact in step with the model, emit it, read the object with an
//! independent reader, and compare what it says with what the model says the program is.
use crate::drive::{self, Out};
use crate::targets;
use crate::model::*;
use crate::runner::{Found, Stats};
use crate::types::*;
use crate::view::*;
use faerie::Artifact;

pub enum Dom {
    /// has to be emitted, and right
    In,
    /// cannot be represented: must not be emitted
    Loud(&'static str),
    /// must either fail or be right
    LoudOrRight,
    /// nothing is claimed
    Out(&'static str),
}

fn odd(n: &str) -> bool { n.is_empty() || n.contains('\0') }

pub fn domain(p: &Prog, f: Fmt) -> Dom {
    if p.defs.iter().any(|d| odd(&d.name) || d.syms.keys().any(|k| odd(k))) || p.imports.iter().any(|i| odd(&i.0)) || p.name.contains('\0') { return Dom::Out("empty names and NULs"); }
    if p.defs.iter().any(|d| d.decl.get_align().map_or(false, |a| !a.is_power_of_two())) { return Dom::Out("alignments that are no powers of two"); }
    let mut lor = false;
    let is32 = targets::bits(&p.target) == 32;
    let too_large = |v: u64| v > u32::MAX as u64;
    // what has a field of its own
    if is32 && p.defs.iter().any(|d| too_large(d.data.size()) || (f == Fmt::Elf && too_large(d.decl.get_align().unwrap_or(1))) || d.syms.values().any(|&o| too_large(o))) { return Dom::Loud("more than 32 bits"); }
    if f == Fmt::Macho {
        if p.defs.iter().any(|d| d.decl.is_section() && !d.name.starts_with(".debug") && d.name.len() > 16) { return Dom::Loud("Mach-O section names have 16 bytes"); }
        if p.defs.iter().any(|d| d.decl.is_section() && section_name(f, &d.name).len() > 16) { return Dom::Out("names of more than 16 bytes of debug sections"); }
        match space(p, is32) { Fits::Yes => {} Fits::No => return Dom::Loud("larger than the address space, or the file offsets"), Fits::Maybe => lor = true }
    }
    let idx: std::collections::HashMap<&str, &PDef> = if p.links.is_empty() { Default::default() } else { p.defs.iter().map(|d| (d.name.as_str(), d)).collect() };
    for l in &p.links {
        let Some(from) = idx.get(l.from.as_str()) else { return Dom::Out("links from imports") };
        if from.data.is_zero() { return Dom::Out("links from zero-initialized data"); }
        if l.at > from.data.size() { return Dom::Out("links beyond contents"); }
        // (the top bit says that it is another kind of relocation)
        if f == Fmt::Macho && l.at > i32::MAX as u64 { return Dom::Loud("Mach-O relocations have 31-bit offsets"); }
        let to_sec = idx.get(l.to.as_str()).map_or(false, |d| d.decl.is_section());
        match l.reloc {
            Reloc::Auto => lor |= from.decl.is_section() || to_sec,
            Reloc::Debug { size, addend } => {
                if size != 4 && size != 8 { return Dom::Loud("debug relocation of that size"); }
                if f == Fmt::Macho { if !from.decl.is_section() { lor = true } if addend != 0 && !to_sec { lor = true } }
            }
            Reloc::Raw { reloc, addend } => {
                if f == Fmt::Elf && is32 && reloc > 255 { return Dom::Loud("ELF32 relocation types have 8 bits"); }
                if f == Fmt::Macho {
                    if reloc > 15 { return Dom::Loud("Mach-O relocation types have 4 bits"); }
                    if addend != 0 { return Dom::Loud("Mach-O relocations have no addend"); }
                    // (sections have no symbol there)
                    lor |= from.decl.is_section() || to_sec;
                }
            }
        }
    }
    if f == Fmt::Macho && p.defs.iter().filter(|d| d.decl.is_section()).count() > 255 { return Dom::Loud("more than 255 Mach-O sections"); }
    // (how many default sections there are is up to the emitter)
    if f == Fmt::Macho && p.defs.iter().filter(|d| d.decl.is_section()).count() > 250 { return Dom::LoudOrRight; }
    if lor { Dom::LoudOrRight } else { Dom::In }
}

enum Fits { Yes, No, Maybe }
/// Do the definitions fit into the address space of a Mach-O object, and its contents into its 32-bit file offsets?
fn space(p: &Prog, is32: bool) -> Fits {
    let top = if is32 { u32::MAX as u128 } else { u64::MAX as u128 };
    let (mut low, mut high, mut flow, mut fhigh) = (0u128, 4096u128, 0u128, 4096u128);
    // those of a kind are in one section, with padding for alignments in between
    let mut kinds = [0u32; 5];
    let kind = |d: &PDef| match d.decl { _ if d.data.is_zero() => 3, Decl::Section { .. } => 4, Decl::Func { .. } => 0, Decl::Data { dt: Dt::Str, writable: false, .. } => 1, _ => 2 };
    for d in &p.defs { kinds[kind(d)] += 1 }
    for d in &p.defs {
        let (n, a) = (d.data.size() as u128, d.decl.get_align().unwrap_or(1).max(16) as u128);
        low += n;
        // before the section, and before the definition
        high += n + a + if kind(d) < 4 && kinds[kind(d)] > 1 { a } else { 0 };
        // (custom symbols may be far beyond the end)
        high += d.syms.values().max().copied().unwrap_or(0) as u128;
        if !d.data.is_zero() { flow += n; fhigh += n + 512 + 4 * d.name.len() as u128; if kind(d) < 4 && kinds[kind(d)] > 1 { fhigh += a } }
        fhigh += d.syms.keys().map(|k| 64 + k.len() as u128).sum::<u128>();
    }
    fhigh += p.imports.iter().map(|i| 64 + i.0.len() as u128).sum::<u128>() + 8 * p.links.len() as u128;
    if low > top || flow > u32::MAX as u128 { Fits::No } else if high > top || fhigh > u32::MAX as u128 { Fits::Maybe } else { Fits::Yes }
}

/// The artifact and what it should be; Err: nothing to compare (or what is wrong already)
pub fn build(sc: &Scenario, st: &mut Stats) -> Result<(Model, Artifact), Found> {
    let mut m = Model::default();
    let mut a = drive::new(sc);
    for op in &sc.ops {
        st.transitions += 1;
        let want = m.step(op);
        match drive::guarded(|| drive::apply(&mut a, op)) {
            Err(e) => return Err(vec![(None, viol("api-panic", format!("{} panics: {}", put_op(op), e)))]),
            Ok(Err(e)) if want.is_ok() => return Err(vec![(None, viol("api-rejected", format!("{} is rejected: {:?}", put_op(op), e)))]),
            Ok(Ok(())) if want.is_err() => { st.skip("a call was accepted that should not be"); return Err(vec![]); }
            _ => {}
        }
    }
    Ok((m, a))
}

/// The object of a program that has to be emitted
pub fn object(c: &Case, f: Fmt, st: &mut Stats) -> Result<(Prog, Vec<u8>), Found> {
    let (m, a) = build(&c.sc, st)?;
    if !m.emit_errors("", true).is_empty() { st.skip("not emittable"); return Err(vec![]); }
    let p = m.prog(&c.sc);
    let d = domain(&p, f);
    if let Dom::Out(w) = d { st.skip(&format!("outside of the domain: {}", w)); return Err(vec![]); }
    st.state(&p);
    let out = drive::emit(&a, drive::bf(f));
    st.traces += 1;
    match (d, out) {
        (Dom::In, Out::Bytes(b)) => { st.outcome(&(b.len(), &b[..b.len().min(1 << 16)])); Ok((p, b)) }
        (Dom::In, o) => Err(vec![(None, viol("emission-failed", format!("emission as {:?} fails: {:?}", f, o)))]),
        (Dom::Loud(w), Out::Bytes(_)) => Err(vec![(None, viol("not-loud", format!("emission as {:?} succeeds, but: {}", f, w)))]),
        (Dom::LoudOrRight, Out::Bytes(b)) => { st.outcome(&(b.len(), &b[..b.len().min(1 << 16)])); Ok((p, b)) }
        (_, _) => {
            st.count("loud failures");
            st.outcome("loud");
            if let Some(n) = room(c, &p, f) { return Err(vec![(None, viol("emission-failed", format!("emission as {:?} fails, but without the last custom section, it succeeds and has {} of 255 sections", f, n)))]); }
            Err(vec![])
        }
    }
}
/// Mach-O objects have 255 sections, however many of them are default ones: if there is one less than that without the last
/// custom section, then it is needless to refuse it (and the number of those that there are then).
fn room(c: &Case, p: &Prog, f: Fmt) -> Option<usize> {
    let customs: Vec<&PDef> = p.defs.iter().filter(|d| d.decl.is_section()).collect();
    if f != Fmt::Macho || customs.len() <= 250 || customs.len() > 255 || !p.links.is_empty() { return None; }
    let last = &customs[customs.len() - 1].name;
    let mut sc = c.sc.clone();
    sc.ops.retain(|op| !matches!(op, Op::Declare(n, ..) | Op::Define(n, ..) | Op::DeclareWith(n, ..) | Op::DefineSyms(n, ..) | Op::DefineZero(n, ..) if n == last));
    let mut a = drive::new(&sc);
    for op in &sc.ops { if !matches!(drive::guarded(|| drive::apply(&mut a, op)), Ok(Ok(()))) { return None; } }
    match drive::emit(&a, drive::bf(f)) {
        Out::Bytes(b) => match crate::macho::read(&b) { Ok(m) if m.secs.len() < 255 => Some(m.secs.len()), _ => None },
        _ => None,
    }
}

fn all(v: Vec<Viol>) -> Found { v.into_iter().map(|x| (None, x)).collect() }
fn with(c: &Case, st: &mut Stats, f: impl Fn(&Prog, &View, &Locs) -> Vec<Viol>) -> Found {
    let fmt = c.fmt();
    let (p, b) = match object(c, fmt, st) { Ok(x) => x, Err(e) => return e };
    match View::read(fmt, &b) {
        Err(v) => all(vec![v]),
        Ok(v) => { let l = locate(&p, &v); all(f(&p, &v, &l)) }
    }
}

pub fn wellformed(c: &Case, st: &mut Stats) -> Found { with(c, st, |_, _, _| vec![]) }
pub fn contents(c: &Case, st: &mut Stats) -> Found { with(c, st, chk_contents) }
pub fn symbols(c: &Case, st: &mut Stats) -> Found { with(c, st, |p, v, _| chk_symbols(p, v)) }
pub fn attrs(c: &Case, st: &mut Stats) -> Found { with(c, st, chk_attrs) }
pub fn links(c: &Case, st: &mut Stats) -> Found {
    if c.param("foreign") != "" { return foreign(c, st); }
    with(c, st, chk_links)
}
pub fn everything(c: &Case, st: &mut Stats) -> Found {
    with(c, st, |p, v, l| { let mut e = chk_symbols(p, v); e.extend(chk_contents(p, v, l)); e.extend(chk_links(p, v, l)); e.truncate(8); e })
}
/// What `Data` says about itself
fn chk_data(d: &Payload) -> Option<Viol> {
    // (large contents are none of the interesting ones here)
    if !d.is_zero() && d.size() > 1 << 16 { return None; }
    let x = drive::data(d);
    let got = (x.file_size() as u64, x.is_empty(), x.is_zero_init());
    let want = (if d.is_zero() { 0 } else { d.size() }, d.size() == 0, d.is_zero());
    if got == want { None } else { Some(viol("data-report", format!("(file_size, is_empty, is_zero_init) of {} bytes{} is {:?} instead of {:?}", d.size(), if d.is_zero() { " of zero-initialized data" } else { "" }, got, want))) }
}
pub fn zero(c: &Case, st: &mut Stats) -> Found {
    for op in &c.sc.ops {
        let d = match op { Op::DefineZero(_, n) => Payload::Zero(*n), Op::Define(_, b) | Op::DeclareWith(_, _, b) => Payload::Blob(b.clone()), _ => continue };
        if let Some(v) = chk_data(&d) { return all(vec![v]); }
    }
    with(c, st, |p, v, l| { let mut e = chk_zero(p, v, l); e.extend(chk_links(p, v, l)); e })
}
pub fn custom(c: &Case, st: &mut Stats) -> Found {
    with(c, st, |p, v, l| {
        let mut e = chk_custom(p, v, l);
        // contents and alignment; access flags are another property's
        e.extend(chk_contents(p, v, l));
        e.extend(chk_attrs(p, v, l).into_iter().filter(|x| !x.key.starts_with("elf-custom-access")));
        e.extend(chk_symbols(p, v));
        e
    })
}
pub fn names(c: &Case, st: &mut Stats) -> Found {
    with(c, st, |p, v, l| {
        let mut e = chk_symbols(p, v);
        e.extend(chk_custom(p, v, l));
        e.extend(chk_contents(p, v, l));
        e.extend(chk_attrs(p, v, l).into_iter().filter(|x| x.key == "section-name" || x.key == "missing" || x.key == "gnu-stack"));
        e.extend(chk_links(p, v, l));
        e
    })
}
pub fn verbatim(c: &Case, st: &mut Stats) -> Found {
    with(c, st, |p, v, l| {
        let mut e = chk_links(p, v, l);
        for k in &p.links {
            if let (Fmt::Macho, Reloc::Debug { addend, .. }) = (v.fmt, k.reloc) {
                let to_sec = p.def(&k.to).map_or(false, |d| d.decl.is_section());
                // there are no addends in relocations there: it would have to be in the contents
                if addend != 0 && !to_sec { e.push(viol("macho-debug-addend", format!("the addend {} of the debug link {:?} -> {:?} is nowhere", addend, k.from, k.to))); break; }
            }
        }
        e
    })
}

/// All of it, in full
pub fn in_full(c: &Case, st: &mut Stats) -> Found {
    static HEAVY: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one_at_a_time = if c.param("heavy") != "" { Some(HEAVY.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
    with(c, st, |p, v, l| {
        let mut e = chk_symbols(p, v);
        e.extend(chk_custom(p, v, l));
        e.extend(chk_contents(p, v, l));
        e.extend(chk_attrs(p, v, l).into_iter().filter(|x| !x.key.starts_with("elf-custom-access")));
        e.extend(chk_links(p, v, l));
        e
    })
}

/// ELF and Mach-O say the same
pub fn same(c: &Case, st: &mut Stats) -> Found {
    let (p, b1) = match object(c, Fmt::Elf, st) { Ok(x) => x, Err(e) => return e };
    let (_, b2) = match object(c, Fmt::Macho, st) { Ok(x) => x, Err(e) => return e };
    if p.links.iter().any(|k| matches!(k.reloc, Reloc::Raw { .. }) || (matches!(k.reloc, Reloc::Debug { .. }) && p.def(&k.to).map_or(false, |d| d.decl.is_section())) || matches!(k.reloc, Reloc::Debug { addend, .. } if addend != 0)) { st.skip("relocations that one of the formats does not have"); return vec![]; }
    let (v1, v2) = match (View::read(Fmt::Elf, &b1), View::read(Fmt::Macho, &b2)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return all(vec![e]) };
    let (f1, f2) = (facts(&p, &v1, true), facts(&p, &v2, true));
    st.count("pairs compared");
    match diff(&f1, &f2) { None => vec![], Some(d) => all(vec![viol("formats-differ", format!("ELF and Mach-O differ: {}", d))]) }
}

// ------------------------------------------------- links of machines other than x86_64

/// relocation types that mean what the link means, for each machine
fn foreign_types(f: Fmt, machine: &str, kind: &str) -> Vec<u32> {
    match (f, machine, kind) {
        (Fmt::Elf, "i686", "call") => vec![2, 4],
        (Fmt::Elf, "i686", "pc") => vec![2],
        (Fmt::Elf, "i686", "got") => vec![3, 43],
        (Fmt::Elf, "i686", "abs") | (Fmt::Elf, "i686", "debug4") => vec![1],
        (Fmt::Elf, "aarch64", "call") => vec![283],
        (Fmt::Elf, "aarch64", "pc") => vec![261, 274, 275],
        (Fmt::Elf, "aarch64", "got") => vec![309, 311, 312],
        (Fmt::Elf, "aarch64", "abs") | (Fmt::Elf, "aarch64", "debug8") => vec![257],
        (Fmt::Elf, "aarch64", "debug4") => vec![258],
        (Fmt::Elf, "arm", "call") => vec![28, 27, 1],
        (Fmt::Elf, "arm", "pc") => vec![3],
        (Fmt::Elf, "arm", "got") => vec![26, 96],
        (Fmt::Elf, "arm", "abs") | (Fmt::Elf, "arm", "debug4") => vec![2],
        (Fmt::Elf, "powerpc64", "call") => vec![10],
        (Fmt::Elf, "powerpc64", "pc") => vec![26],
        (Fmt::Elf, "powerpc64", "got") => vec![14, 15, 16, 17],
        (Fmt::Elf, "powerpc64", "abs") | (Fmt::Elf, "powerpc64", "debug8") => vec![38],
        (Fmt::Elf, "powerpc64", "debug4") => vec![1],
        (Fmt::Elf, "riscv64", "call") => vec![18, 19],
        (Fmt::Elf, "riscv64", "pc") => vec![23, 57],
        (Fmt::Elf, "riscv64", "got") => vec![20],
        (Fmt::Elf, "riscv64", "abs") | (Fmt::Elf, "riscv64", "debug8") => vec![2],
        (Fmt::Elf, "riscv64", "debug4") => vec![1],
        // GENERIC_RELOC_VANILLA; ARM64_RELOC_*, ARM_RELOC_*
        (Fmt::Macho, "i686", _) => vec![0],
        (Fmt::Macho, "aarch64", "call") => vec![2],
        (Fmt::Macho, "aarch64", "pc") => vec![3, 4],
        (Fmt::Macho, "aarch64", "got") => vec![5, 6],
        (Fmt::Macho, "aarch64", _) => vec![0],
        (Fmt::Macho, "arm", "call") => vec![5, 6],
        (Fmt::Macho, "arm", _) => vec![0],
        _ => vec![],
    }
}
fn foreign(c: &Case, st: &mut Stats) -> Found {
    let (fmt, machine, kind) = (c.fmt(), c.param("foreign").to_string(), c.param("kind").to_string());
    let (m, a) = match build(&c.sc, st) { Ok(x) => x, Err(e) => return e };
    let p = m.prog(&c.sc);
    st.state(&(&p, c.param("fmt")));
    st.traces += 1;
    let b = match drive::emit(&a, drive::bf(fmt)) { Out::Bytes(b) => b, _ => { st.count("loud failures"); return vec![]; } };
    let v = match View::read(fmt, &b) { Ok(v) => v, Err(e) => return all(vec![e]) };
    let l = locate(&p, &v);
    let eff = actual_effects(&v);
    st.outcome(&(c.param("fmt"), &machine, &kind, eff.iter().map(|e| e.typ).collect::<Vec<_>>()));
    // whatever the type: one relocation, there, to the target
    let mut e: Vec<Viol> = chk_links(&p, &v, &l).into_iter().filter(|x| x.key == "reloc-count" || x.key == "extra-reloc" || x.key == "missing").collect();
    // the psABI of i386 only has relocations without addends: ld ignores those of others
    if fmt == Fmt::Elf && machine == "i686" { if let Ok(x) = crate::elf::read(&b) { if x.secs.iter().any(|s| s.typ == crate::elf::SHT_RELA && s.size > 0) { e.push(viol("foreign-rela i686", "relocations with addends, which i386 does not have")) } } }
    let ok = foreign_types(fmt, &machine, &kind);
    // one key per machine, kind of link and wrong type, so that a listed one does not hide another
    for x in &eff {
        let width_ok = fmt == Fmt::Elf || kind != "abs" || x.typ.len == if machine == "aarch64" { 3 } else { 2 };
        if !ok.contains(&x.typ.typ) || !width_ok { e.push(viol(format!("foreign-reloc {:?} {} {} type={}{}", fmt, machine, kind, x.typ.typ, if width_ok { String::new() } else { format!(" length={}", x.typ.len) }), format!("{} link on {} gets relocation {:?}, which means something else there", kind, machine, x.typ))) }
    }
    all(e)
}
pub fn foreign_case(f: Fmt, machine: &str, kind: &str, variant: usize) -> Option<Case> {
    let t = match f { Fmt::Elf => format!("{}-unknown-linux-gnu", if machine == "riscv64" { "riscv64gc" } else { machine }), Fmt::Macho => format!("{}-apple-darwin", machine) };
    let s = [Scope::Local, Scope::Global, Scope::Weak][variant % 3];
    let sc = Scenario::new(&t).declare("f", Decl::func()).define("f", Bytes::Pat(1, 24)).declare("g", Decl::func().scope(s)).define("g", Bytes::Pat(2, 24))
        .declare("d", Decl::wdata().scope(s)).define("d", Bytes::Pat(3, 24)).import("i", Ik::Func).import("j", Ik::Data).declare(".debug_x", Decl::sec(SecKind::Debug)).define(".debug_x", Bytes::Pat(4, 24));
    let at = [0, 4, 8, 13][variant / 3 % 4];
    let sc = match kind {
        "call" => sc.link("f", if variant % 2 == 0 { "g" } else { "i" }, at),
        "pc" => sc.link("f", "d", at),
        "got" => sc.link("f", "j", at),
        "abs" => sc.link("d", if variant % 2 == 0 { "g" } else { "i" }, at),
        "debug4" => sc.link_with(".debug_x", "g", at, Reloc::Debug { size: 4, addend: 0 }),
        _ => sc.link_with(".debug_x", "g", at, Reloc::Debug { size: 8, addend: 0 }),
    };
    let mut c = Case::new(sc).on(f).with("foreign", machine).with("kind", kind);
    c.params.entry("fmt".into()).or_default();
    Some(c)
}
pub const FOREIGN: [(&str, &[&str]); 2] = [("elf", &["i686", "aarch64", "arm", "powerpc64", "riscv64"]), ("macho", &["i686", "aarch64", "arm"])];
pub const KINDS: [&str; 6] = ["call", "pc", "got", "abs", "debug4", "debug8"];
