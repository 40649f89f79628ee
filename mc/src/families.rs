//! The spaces that are enumerated: each family maps 0..len to cases, completely and without chance.
use crate::types::*;
use std::collections::BTreeMap;

pub struct Family { pub name: String, pub len: u64, pub gen: Box<dyn Fn(u64) -> Option<Case> + Send + Sync> }
pub fn family(name: impl Into<String>, len: u64, gen: impl Fn(u64) -> Option<Case> + Send + Sync + 'static) -> Family { Family { name: name.into(), len, gen: Box::new(gen) } }

/// mixed radix digits of an index
pub struct Ix(pub u64);
impl Ix {
    pub fn n(&mut self, n: usize) -> usize { let r = self.0 % n as u64; self.0 /= n as u64; r as usize }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
}
pub fn fmts() -> [Fmt; 2] { [Fmt::Elf, Fmt::Macho] }
pub fn tgt(f: Fmt) -> &'static str { match f { Fmt::Elf => ELF64, Fmt::Macho => MACHO64 } }
/// x86_64 alone, or also a 32-bit and a big-endian target (for artifacts without links)
pub fn tgts(f: Fmt) -> &'static [&'static str] { match f { Fmt::Elf => &[ELF64, "i686-unknown-linux-gnu", "powerpc64-unknown-linux-gnu"], Fmt::Macho => &[MACHO64, "i686-apple-darwin"] } }

/// A definition with its contents, as an alternative in products
#[derive(Clone)]
pub struct Item { pub decl: Decl, pub data: Payload, pub syms: Vec<(String, u64)> }
pub fn item(decl: Decl, data: Payload) -> Item { Item { decl, data, syms: vec![] } }
pub fn blob(s: u32, n: usize) -> Payload { Payload::Blob(Bytes::Pat(s, n)) }
pub fn add(sc: Scenario, name: &str, it: &Item, seed: u32) -> Scenario {
    let data = match &it.data { Payload::Blob(Bytes::Pat(_, n)) => Payload::Blob(Bytes::Pat(seed, *n)), Payload::Blob(Bytes::Str(_, n)) => Payload::Blob(Bytes::Str(seed, *n)), x => x.clone() };
    let sc = sc.declare(name, it.decl);
    if it.syms.is_empty() { sc.payload(name, &data) } else { sc.syms(name, data, it.syms.iter().map(|(k, v)| (format!("{}{}", name, k), *v)).collect()) }
}
pub fn name_of(i: usize) -> String { format!("{}", (b'a' + i as u8) as char) }

pub const ALIGNS: [Option<u64>; 13] = [None, Some(1), Some(2), Some(4), Some(8), Some(16), Some(32), Some(64), Some(128), Some(512), Some(4096), Some(16384), Some(65536)];

pub fn all_decls(aligns: &[Option<u64>]) -> Vec<Decl> {
    let mut v = vec![];
    for &a in aligns {
        for s in SCOPES { for x in VISES {
            v.push(Decl::func().scope(s).vis(x).align(a));
            for w in [false, true] { for d in [Dt::Bytes, Dt::Str] { v.push(Decl::data().scope(s).vis(x).writable(w).dt(d).align(a)) } }
        } }
        for k in SECKINDS { for d in [Dt::Bytes, Dt::Str] { v.push(Decl::sec(k).dt(d).align(a)) } }
    }
    v
}
pub fn items(decls: &[Decl], lens: &[usize], zeros: &[usize]) -> Vec<Item> {
    let mut v = vec![];
    for &d in decls {
        for &n in lens {
            v.push(item(d, Payload::Blob(match d { Decl::Data { dt: Dt::Str, .. } => Bytes::Str(0, n), _ => Bytes::Pat(0, n) })));
            if d.is_section() {
                let mut it = item(d, blob(0, n));
                it.syms = vec![("0".into(), 0), ("1".into(), n as u64 / 2), ("2".into(), n as u64)];
                v.push(it);
            }
        }
        if d.is_data() { for &n in zeros { v.push(item(d, Payload::Zero(n))) } }
    }
    v
}
fn section_safe(i: usize, it: &Item) -> String { if it.decl.is_section() { format!(".s{}", i) } else { name_of(i) } }

/// every declaration there is, with every length around the relevant boundaries
pub fn single(f: Fmt, which: fn(&Decl) -> bool) -> Family {
    let d: Vec<Decl> = all_decls(&ALIGNS).into_iter().filter(which).collect();
    let its = items(&d, &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100], &[0, 1, 7, 8, 16, 100, 4096, 65537, (1 << 32) - 1, 1 << 32, (1 << 40) + 3]);
    let n = its.len();
    let ts = tgts(f);
    family("single", (n * ts.len()) as u64, move |i| {
        let mut x = Ix(i);
        let it = x.of(&its).clone();
        let t = *x.of(ts);
        if let Payload::Zero(z) = it.data { if z > 0xffff_0000 && t.starts_with("i686") { return None; } }
        Some(Case::new(add(Scenario::new(t), &section_safe(0, &it), &it, 1)).on(f))
    })
}
/// all tuples of n definitions out of a set
pub fn tuples(name: &str, f: Fmt, its: Vec<Item>, n: usize, imports: usize) -> Family {
    let len = (its.len() as u64).pow(n as u32);
    family(format!("{} {}^{}", name, its.len(), n), len, move |i| {
        let mut x = Ix(i);
        let mut sc = Scenario::new(tgt(f));
        for k in 0..imports { sc = sc.import(&format!("imp{}", k), if k % 2 == 0 { Ik::Func } else { Ik::Data }) }
        for k in 0..n { let it = x.of(&its); sc = add(sc, &section_safe(k, it), it, k as u32 + 1) }
        Some(Case::new(sc).on(f))
    })
}
pub fn medium_items() -> Vec<Item> {
    let mut d = vec![];
    for s in SCOPES {
        for a in [None, Some(1), Some(32)] { d.push(Decl::func().scope(s).align(a)) }
        for (w, t) in [(false, Dt::Bytes), (true, Dt::Bytes), (false, Dt::Str)] { for a in [None, Some(32)] { d.push(Decl::data().scope(s).writable(w).dt(t).align(a)) } }
    }
    d.push(Decl::func().scope(Scope::Global).vis(Vis::Hidden));
    d.push(Decl::func().scope(Scope::Weak).vis(Vis::Protected));
    d.push(Decl::wdata().scope(Scope::Global).vis(Vis::Protected));
    d.push(Decl::wdata().scope(Scope::Weak).vis(Vis::Hidden));
    for k in SECKINDS { d.push(Decl::sec(k)) }
    d.push(Decl::sec(SecKind::Debug).align(Some(16)));
    items(&d, &[0, 5], &[5])
}
pub fn small_items() -> Vec<Item> {
    let mut v = vec![];
    for s in SCOPES {
        v.push(item(Decl::func().scope(s), blob(0, 5)));
        v.push(item(Decl::wdata().scope(s).align(Some(8)), blob(0, 3)));
        v.push(item(Decl::data().scope(s), blob(0, 6)));
        v.push(item(Decl::cstr().scope(s), Payload::Blob(Bytes::Str(0, 4))));
        v.push(item(Decl::wdata().scope(s).align(Some(16)), Payload::Zero(9)));
    }
    v.push(item(Decl::func().align(Some(64)), blob(0, 0)));
    let mut c = item(Decl::sec(SecKind::Data), blob(0, 7));
    c.syms = vec![("x".into(), 0), ("y".into(), 3)];
    v.push(c.clone());
    c.decl = Decl::sec(SecKind::Debug);
    c.syms.truncate(1);
    v.push(c);
    v.push(item(Decl::sec(SecKind::Text).align(Some(32)), blob(0, 2)));
    v
}
/// all tuples of n definitions that all refer to each other, to themselves, and to imports
pub fn meshes(f: Fmt, decls: Vec<Decl>, n: usize) -> Family {
    let k = decls.len();
    family(format!("meshes {}^{}", k, n), (k as u64).pow(n as u32) * 4, move |i| {
        let mut x = Ix(i);
        let imports = x.n(4);
        let mut sc = Scenario::new(tgt(f));
        let ds: Vec<Decl> = (0..n).map(|_| *x.of(&decls)).collect();
        let name = |j: usize| if ds[j].is_section() { format!(".debug_{}", j) } else { name_of(j) };
        let imp: Vec<String> = (0..imports).map(|j| format!("{}imp", ["", "z", "a"][j])).collect();
        for (j, m) in imp.iter().enumerate().take(1) { sc = sc.import(m, if j % 2 == 0 { Ik::Func } else { Ik::Data }) }
        for (j, d) in ds.iter().enumerate() {
            let b = if *d == Decl::cstr() { Bytes::Str(j as u32 + 1, 64) } else { Bytes::Pat(j as u32 + 1, 64) };
            sc = sc.declare(&name(j), *d);
            sc = if d.is_data() && d.get_align() == Some(2) { sc.zero(&name(j), 64) } else { sc.define(&name(j), b) };
        }
        for (j, m) in imp.iter().enumerate().skip(1) { sc = sc.import(m, if j % 2 == 0 { Ik::Func } else { Ik::Data }) }
        for (j, d) in ds.iter().enumerate() {
            if d.is_data() && d.get_align() == Some(2) { continue; }
            let mut at = 1 + j as u64;
            for k in 0..n {
                if d.is_section() { if !ds[k].is_section() { sc = sc.link_with(&name(j), &name(k), at, Reloc::Debug { size: if k % 2 == 0 { 8 } else { 4 }, addend: 0 }) } }
                else if !ds[k].is_section() { sc = sc.link(&name(j), &name(k), at) }
                at += 8;
            }
            for m in &imp { if !d.is_section() { sc = sc.link(&name(j), m, at) } at += 8; }
        }
        Some(Case::new(sc).on(f))
    })
}
pub fn mesh_decls() -> Vec<Decl> {
    let mut d = vec![];
    for s in SCOPES { for v in [Vis::Default, Vis::Hidden] {
        d.push(Decl::func().scope(s).vis(v));
        d.push(Decl::wdata().scope(s).vis(v));
        d.push(Decl::data().scope(s).vis(v));
        d.push(Decl::wdata().scope(s).vis(v).align(Some(2))); // zero-initialized
    } }
    d.push(Decl::cstr());
    d.push(Decl::cstr().writable(true).scope(Scope::Global));
    d.push(Decl::func().align(Some(64)));
    d.push(Decl::wdata().align(Some(128)));
    d.push(Decl::func().scope(Scope::Global).vis(Vis::Protected));
    d.push(Decl::sec(SecKind::Debug));
    d
}
/// pairs with every attribute there is
pub fn full_items() -> Vec<Item> { items(&all_decls(&[None, Some(16)]), &[0, 5], &[5]) }
/// n relocations, at the same or at few places, in an order that matters; for every n up to a bound
pub fn many_relocs(f: Fmt, upto: usize, extra: &'static [usize]) -> Family {
    let mut ns: Vec<usize> = (1..=upto).collect();
    ns.extend(extra);
    family(format!("many relocations, up to {}", ns.iter().max().unwrap()), (ns.len() * 8 * 4) as u64, move |i| {
        let mut x = Ix(i);
        let (k, spread, n) = (x.n(8), [1usize, 2, 5, 1 << 30][x.n(4)], *x.of(&ns));
        let mut sc = Scenario::new(tgt(f)).declare("f", Decl::func().scope(Scope::Global)).define("f", Bytes::Pat(1, 8 * n + 16)).declare("d", Decl::wdata()).define("d", Bytes::Pat(2, 8 * n + 16))
            .declare(".debug_x", Decl::sec(SecKind::Debug)).define(".debug_x", Bytes::Pat(3, 8 * n + 16)).import("i", Ik::Func).import("j", Ik::Data);
        for t in 0..5 { sc = sc.declare(&format!("t{}", t), if t % 2 == 0 { Decl::func().scope(SCOPES[t % 3]) } else { Decl::wdata().scope(SCOPES[t % 3]) }).define(&format!("t{}", t), Bytes::Pat(10 + t as u32, 9)) }
        for j in 0..n {
            // descending, ascending, or all over the place
            let at = match k % 4 { 0 => (n - 1 - j) % spread, 1 => j % spread, _ => (j * 7 + 3) % n.max(1) % spread } as u64 * 8;
            let (t, a) = (format!("t{}", j % 5), if f == Fmt::Elf { j as i32 * 3 - 40 } else { 0 });
            sc = match k {
                0 | 1 => sc.link("f", &t, at),
                2 => sc.link("d", if j % 3 == 0 { "i" } else { &t }, at),
                3 => sc.link("f", ["i", "j"][j % 2], at),
                4 | 5 => sc.link_with("f", &t, at, Reloc::Raw { reloc: if f == Fmt::Elf { [2, 24, 10][j % 3] } else { [1, 5, 8][j % 3] }, addend: a }),
                6 => sc.link_with(".debug_x", &t, at, Reloc::Debug { size: [4, 8][j % 2], addend: a }),
                // from several sources in turn
                _ => match j % 4 { 0 => sc.link("f", &t, at), 1 => sc.link("d", &t, at), 2 => sc.link_with(".debug_x", &t, at, Reloc::Debug { size: 8, addend: a }), _ => sc.link("f", "i", at) },
            };
        }
        Some(Case::new(sc).on(f))
    })
}
/// all sequences of (length, alignment) within one kind of section, after something that misaligns
pub fn layout(f: Fmt, n: usize, lens: &'static [usize], aligns: &'static [Option<u64>]) -> Family {
    let kinds = 6;
    let per = (lens.len() * aligns.len()) as u64;
    family(format!("layout {}^{}", per, n), kinds * per.pow(n as u32), move |i| {
        let mut x = Ix(i);
        let k = x.n(kinds as usize);
        let mut sc = Scenario::new(tgt(f));
        // what precedes the section
        if k != 0 { sc = sc.declare("zz", Decl::func().align(Some(1))).define("zz", Bytes::Pat(9, 3)) }
        for j in 0..n {
            let (l, a) = (*x.of(lens), *x.of(aligns));
            let it = match k {
                0 => item(Decl::func().align(a), blob(0, l)),
                1 => item(Decl::wdata().align(a), blob(0, l)),
                2 => item(Decl::cstr().align(a), Payload::Blob(Bytes::Str(0, l))),
                3 => item(Decl::wdata().align(a), Payload::Zero(l)),
                4 => item(Decl::sec(SecKind::Debug).align(a), blob(0, l)),
                _ => item([Decl::func(), Decl::wdata(), Decl::cstr(), Decl::sec(SecKind::Data)][j % 4].align(a), blob(0, l)),
            };
            // the order of definitions in the object is by declaration, then name: vary the names' order as well
            sc = add(sc, &section_safe(j, &it), &it, j as u32 + 1);
        }
        Some(Case::new(sc).on(f))
    })
}
/// one definition of each length in a range, alone and after another one: buffer boundaries
pub fn lengths(f: Fmt, upto: usize, around: &'static [usize]) -> Family {
    let mut ls: Vec<usize> = (0..upto).collect();
    for &c in around { ls.extend(c.saturating_sub(40)..c + 40) }
    let n = ls.len() as u64;
    family(format!("lengths {}", n), n * 5, move |i| {
        let mut x = Ix(i);
        let k = x.n(5);
        let l = *x.of(&ls);
        let d = match k { 0 => Decl::func(), 1 => Decl::wdata(), 2 => Decl::cstr(), 3 => Decl::sec(SecKind::Debug), _ => Decl::data() };
        let mut sc = Scenario::new(tgt(f));
        let it = item(d, if k == 2 { Payload::Blob(Bytes::Str(0, l)) } else { blob(0, l) });
        if k == 4 { sc = sc.declare("b", Decl::func()).define("b", Bytes::Pat(7, 11)) }
        sc = add(sc, &section_safe(0, &it), &it, 3);
        sc = sc.declare("z", Decl::wdata().scope(Scope::Global)).define("z", Bytes::Pat(8, 5));
        Some(Case::new(sc).on(f))
    })
}
/// n definitions (and imports, and links) of a kind, for every n up to a bound
pub fn counts(f: Fmt, upto: usize, extra: Vec<usize>) -> Family {
    let mut ns: Vec<usize> = (0..upto).collect();
    ns.extend(extra);
    let len = ns.len() as u64 * 9;
    family(format!("counts 0..{}", upto), len, move |i| {
        let mut x = Ix(i);
        let (k, n) = (x.n(9), *x.of(&ns));
        let mut sc = Scenario::new(tgt(f));
        for j in 0..n {
            let s = SCOPES[j % 3];
            let nm = format!("n{}", j);
            sc = match k {
                0 => sc.declare(&nm, Decl::func().scope(s)).define(&nm, Bytes::Pat(j as u32, j % 5)),
                1 => sc.declare(&nm, Decl::wdata().scope(s)).define(&nm, Bytes::Pat(j as u32, 1 + j % 5)),
                2 => sc.declare(&nm, Decl::cstr().scope(s)).define(&nm, Bytes::Str(j as u32, 1 + j % 5)),
                3 => sc.declare(&nm, Decl::wdata().scope(s)).zero(&nm, 1 + j % 5),
                4 => sc.import(&nm, if j % 2 == 0 { Ik::Func } else { Ik::Data }),
                5 => sc.declare(&nm, Decl::sec(SECKINDS[j % 3])).syms(&nm, blob(j as u32, j % 5), BTreeMap::from([(format!("y{}", j), j as u64 % 5)])),
                6 => { let it = &small_items()[j % 15]; add(sc, &nm, it, j as u32) }
                // a chain of links: each function calls the one before and an import
                7 => { let mut sc = sc.declare(&nm, Decl::func().scope(s)).define(&nm, Bytes::Pat(j as u32, 16)); if j > 0 { sc = sc.link(&nm, &format!("n{}", j - 1), 1).link(&nm, "ext", 9) } else { sc = sc.import("ext", Ik::Func) } sc }
                // n links from one object to the same or different places
                _ => { let mut sc = sc; if j == 0 { sc = sc.declare("tab", Decl::wdata()).define("tab", Bytes::Pat(1, 8 * n)) } sc.declare(&nm, Decl::func().scope(s)).define(&nm, Bytes::Pat(j as u32, 3)).link("tab", &nm, 8 * (n - 1 - j) as u64) }
            };
        }
        Some(Case::new(sc).on(f))
    })
}

// ------------------------------------------------------------------ links

pub const NODE_KINDS: usize = 13;
/// nodes a link can be from or to: (declaration, import?)
pub fn node(k: usize) -> Decl {
    match k {
        0 => Decl::func(), 1 => Decl::func().scope(Scope::Global), 2 => Decl::func().scope(Scope::Weak),
        3 => Decl::wdata(), 4 => Decl::wdata().scope(Scope::Global), 5 => Decl::wdata().scope(Scope::Weak),
        6 => Decl::data().scope(Scope::Global), 7 => Decl::cstr(), 8 => Decl::Import(Ik::Func), 9 => Decl::Import(Ik::Data),
        10 => Decl::func().scope(Scope::Global).vis(Vis::Hidden), 11 => Decl::wdata().scope(Scope::Weak).vis(Vis::Hidden), 12 => Decl::data().align(Some(32)),
        // targets and sources only of raw and debug relocations
        13 => Decl::sec(SecKind::Debug), 14 => Decl::sec(SecKind::Data), 15 => Decl::sec(SecKind::Text),
        _ => Decl::wdata(), // zero-initialized
    }
}
pub fn nname(j: usize, k: usize) -> String { if (13..16).contains(&k) { format!(".debug_{}", name_of(j)) } else { name_of(j) } }
pub fn add_node(sc: Scenario, j: usize, k: usize, len: usize) -> Scenario {
    let n = nname(j, k);
    let sc = sc.declare(&n, node(k));
    match k { 8 | 9 => sc, 7 => sc.define(&n, Bytes::Str(j as u32 + 1, len)), 16 => sc.zero(&n, len), _ => sc.define(&n, Bytes::Pat(j as u32 + 1, len)) }
}
/// all graphs of m nodes of any kind with every sequence of l links between them at given offsets
pub fn graphs(f: Fmt, m: usize, l: usize, ats: &'static [u64], kinds: &'static [usize]) -> Family {
    let per = (m * m * ats.len()) as u64;
    let len = (kinds.len() as u64).pow(m as u32) * per.pow(l as u32);
    family(format!("graphs {} nodes of {} kinds, {} links at {:?}", m, kinds.len(), l, ats), len, move |i| {
        let mut x = Ix(i);
        let ls: Vec<(usize, usize, u64)> = (0..l).map(|_| (x.n(m), x.n(m), *x.of(ats))).collect();
        let ks: Vec<usize> = (0..m).map(|_| *x.of(kinds)).collect();
        if ls.iter().any(|l| matches!(ks[l.0], 8 | 9)) { return None; }
        let mut sc = Scenario::new(tgt(f));
        for j in 0..m { sc = add_node(sc, j, ks[j], 24) }
        for (a, b, at) in ls { sc = sc.link(&nname(a, ks[a]), &nname(b, ks[b]), at) }
        Some(Case::new(sc).on(f))
    })
}
/// each offset within (long) contents; types, addends and sizes at each
pub fn offsets(f: Fmt, upto: u64, around: &'static [u64]) -> Family {
    let mut at: Vec<u64> = (0..upto).collect();
    for &c in around { at.extend(c.saturating_sub(12)..c + 12) }
    let n = at.len() as u64;
    family(format!("offsets {}", n), n * 6, move |i| {
        let mut x = Ix(i);
        let k = x.n(6);
        let a = *x.of(&at);
        let len = a as usize + 8 + (a as usize % 3);
        let sc = Scenario::new(tgt(f)).declare("f", Decl::func()).define("f", Bytes::Pat(1, if k == 0 || k == 1 || k == 5 { len } else { 9 }))
            .declare("d", Decl::wdata().scope(Scope::Global)).define("d", Bytes::Pat(2, if k == 2 || k == 3 { len } else { 9 }))
            .declare(".debug_x", Decl::sec(SecKind::Debug)).define(".debug_x", Bytes::Pat(3, if k == 4 { len } else { 9 }))
            .declare("g", Decl::func()).define("g", Bytes::Pat(4, 7)).import("i", Ik::Func).import("j", Ik::Data);
        let sc = match k { 0 => sc.link("f", "g", a), 1 => sc.link("f", "i", a).link("f", "d", 0), 2 => sc.link("d", "g", a), 3 => sc.link("d", "j", a), 4 => sc.link_with(".debug_x", "f", a, Reloc::Debug { size: 8, addend: 0 }), _ => sc.link("f", "j", a).link("f", "i", a / 2) };
        Some(Case::new(sc).on(f))
    })
}
pub const ADDENDS: [i32; 21] = [0, 1, -1, 4, -4, 8, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 65535, 65536, 1 << 24, i32::MAX, i32::MIN, i32::MIN + 1];
pub fn raws(f: Fmt) -> Family {
    let kinds: Vec<usize> = (0..17).collect();
    let types: Vec<u32> = match f { Fmt::Elf => (0..=300).chain([0x7fff, 0x8000, 0xffff, 0x10000, 0xff_ffff, 0x100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]).collect(), Fmt::Macho => (0..=300).chain([0xffff, 0x10000, 0xffff_ffff]).collect() };
    let nk = kinds.len();
    // every type with one addend, and every addend with one type, for all kinds of sources and targets
    let len = nk * nk * (types.len() + ADDENDS.len()) * 2;
    family("raw relocations", len as u64, move |i| {
        let mut x = Ix(i);
        let (a, b) = (*x.of(&kinds), *x.of(&kinds));
        let second = x.n(2) == 1;
        let r = x.n(types.len() + ADDENDS.len());
        let r = if r < types.len() { Reloc::Raw { reloc: types[r], addend: if f == Fmt::Elf { -4 } else { 0 } } } else { Reloc::Raw { reloc: if f == Fmt::Elf { 24 } else { 6 }, addend: ADDENDS[r - types.len()] } };
        if matches!(a, 8 | 9 | 16) { return None; }
        let mut sc = add_node(add_node(Scenario::new(tgt(f)), 0, a, 24), 1, b, 24);
        let (na, nb) = (nname(0, a), nname(1, b));
        sc = sc.link_with(&na, &nb, 5, r);
        if second { sc = sc.link_with(&na, &na, 12, Reloc::Raw { reloc: 5, addend: 0 }).link_with(&na, &nb, 5, r) }
        Some(Case::new(sc).on(f))
    })
}
pub fn debugs(f: Fmt) -> Family {
    let n = 17;
    let len = n * n * 2 * ADDENDS.len() * 2;
    family("debug relocations", len as u64, move |i| {
        let mut x = Ix(i);
        let (a, b, size, addend, second) = (x.n(n), x.n(n), [4u8, 8][x.n(2)], ADDENDS[x.n(ADDENDS.len())], x.n(2) == 1);
        if matches!(a, 8 | 9 | 16) { return None; }
        let mut sc = add_node(add_node(Scenario::new(tgt(f)), 0, a, 24), 1, b, 24);
        let (na, nb) = (nname(0, a), nname(1, b));
        sc = sc.link_with(&na, &nb, 3, Reloc::Debug { size, addend });
        if second { sc = sc.link_with(&na, &nb, 3, Reloc::Debug { size: 12 - size, addend: 0 }).link_with(&na, &na, 11, Reloc::Debug { size, addend: 0 }) }
        Some(Case::new(sc).on(f))
    })
}
/// sequences of relocations of different kinds, several of them at one place
pub fn reloc_sequences(f: Fmt, n: usize) -> Family {
    // from, to, at, reloc
    let rs: Vec<(&str, &str, u64, Reloc)> = if f == Fmt::Elf {
        vec![("f", "g", 0, Reloc::Auto), ("f", "g", 4, Reloc::Auto), ("f", "d", 4, Reloc::Auto), ("f", "i", 4, Reloc::Auto), ("f", "g", 4, Reloc::Raw { reloc: 2, addend: -5 }), ("f", "w", 4, Reloc::Raw { reloc: 2, addend: 7 }),
            ("d", "f", 8, Reloc::Auto), ("d", "w", 8, Reloc::Raw { reloc: 24, addend: 1 }), (".debug_x", "f", 0, Reloc::Debug { size: 8, addend: 5 }), (".debug_x", "w", 0, Reloc::Debug { size: 4, addend: -5 }), (".debug_x", ".debug_y", 4, Reloc::Debug { size: 4, addend: 3 }), (".debug_y", ".debug_x", 4, Reloc::Raw { reloc: 10, addend: 3 })]
    } else {
        vec![("f", "g", 0, Reloc::Auto), ("f", "g", 4, Reloc::Auto), ("f", "d", 4, Reloc::Auto), ("f", "i", 4, Reloc::Auto), ("f", "g", 4, Reloc::Raw { reloc: 2, addend: 0 }), ("f", "w", 4, Reloc::Raw { reloc: 8, addend: 0 }),
            ("d", "f", 8, Reloc::Auto), ("d", "w", 8, Reloc::Raw { reloc: 5, addend: 0 }), ("d", "f", 8, Reloc::Raw { reloc: 0, addend: 0 }), (".debug_x", "f", 0, Reloc::Debug { size: 8, addend: 0 }), (".debug_x", "w", 0, Reloc::Debug { size: 4, addend: 0 }), (".debug_y", "i", 4, Reloc::Debug { size: 4, addend: 0 })]
    };
    let k = rs.len() as u64;
    family(format!("relocation sequences {}^{}", k, n), k.pow(n as u32), move |i| {
        let mut x = Ix(i);
        let mut sc = Scenario::new(tgt(f)).declare("f", Decl::func()).define("f", Bytes::Pat(1, 16)).declare("g", Decl::func().scope(Scope::Global)).define("g", Bytes::Pat(4, 7))
            .declare("w", Decl::func().scope(Scope::Weak)).define("w", Bytes::Pat(5, 9)).declare("d", Decl::wdata()).define("d", Bytes::Pat(2, 16))
            .declare(".debug_x", Decl::sec(SecKind::Debug)).define(".debug_x", Bytes::Pat(3, 12)).declare(".debug_y", Decl::sec(SecKind::Debug)).define(".debug_y", Bytes::Pat(6, 12)).import("i", Ik::Func);
        for _ in 0..n { let r = x.of(&rs); sc = sc.link_with(r.0, r.1, r.2, r.3) }
        Some(Case::new(sc).on(f))
    })
}

// ------------------------------------------------------------------ names

pub fn tricky(f: Fmt) -> Vec<String> {
    let mut v: Vec<String> = ["a", "b", "ab", "aa", "aab", "_a", "__a", "a_", "0", "a b", " ", "\t", "a\nb", "\u{e9}", "\u{fe}\u{ff}", "名前", "😀", "e\u{301}", "\"", "'", "\\", "%s", "$a", "a@b", "a@@V1", "a:b", ".", "..", "/", "a/b", ".L1", ".Ltmp", "L1", "l_1",
        ".text", ".data", ".rodata", ".bss", ".text.a", ".data.a", ".rodata.a", ".bss.a", ".symtab", ".strtab", ".shstrtab", ".symtab_shndx", ".rela", ".rela.text", ".rela.text.a", ".rela.data.b", ".rel.text.a", ".rela.rela.text.a", ".note.GNU-stack", ".comment",
        "text", "strtab", "symtab", "tab", "stack", "GNU-stack", ".text.", "t.o", "faerie.o", "__text", "__data", "__cstring", "__bss", "__TEXT", "_main", "main", "_GLOBAL_OFFSET_TABLE_", "\u{7f}", "\u{1}", "UPPER", "upper"].iter().map(|s| s.to_string()).collect();
    v.push("x".repeat(15));
    v.push("x".repeat(16));
    v.push("x".repeat(17));
    v.push("long".repeat(64));
    v.push("long".repeat(64) + "a");
    v.push("é".repeat(200));
    let _ = f;
    v
}
/// every word over a small alphabet, and words of every shape that some code might treat specially
pub fn shapes(deep: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let al = ["a", "_", ".", "1", "é"];
    let mut level = vec![String::new()];
    for _ in 0..(if deep { 6 } else { 4 }) { level = level.iter().flat_map(|p| al.iter().map(move |c| format!("{}{}", p, c))).collect(); v.extend(level.clone()) }
    for k in (1..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        for c in ["_", ".", "a", "0", "x1", " ", "é", "名", "😀", "$", "@", ".debug", "__debug", "_debug"] {
            v.push(c.repeat(k));
            v.push(format!("{}n", c.repeat(k)));
            v.push(format!("n{}", c.repeat(k)));
            v.push(format!("n{}m", c.repeat(k)));
        }
    }
    for p in ["", "_", "__", ".", ".text", ".text.", ".data.", ".rodata.", ".bss.", ".rela", ".rela.", ".rel.", ".debug", ".debug_", ".note", ".init_array", ".group", ".L", "L", "l", "$", "__TEXT,", "__DATA,__", "__", "_OBJC_", "llvm.", "?", "@", "x.", "x.debug_", "x__debug_"] {
        for q in ["", "f", "foo", "text", "data", "bss", "info", "str", "abbrev", "line_str", "debug", ".debug", "_debug_info", "foo.cold", "foo@PLT", "foo@GOTPCREL", "foo@@V2", "foo@V1", "foo$stub", "ZN3foo3barE", "foo::bar", "foo<T>", "operator new[](unsigned long)", "0", "a b c", "\u{7f}", "~"] { v.push(format!("{}{}", p, q)) }
    }
    for c in 1..128u8 { v.push(format!("{}", c as char)); v.push(format!("n{}m", c as char)); v.push(format!("{}n", c as char)); v.push(format!("n{}", c as char)) }
    for j in 0..30 { v.push(format!("a{}", j)); v.push(format!("{}", j)); v.push(format!("{:08x}", j * 0x1234567)) }
    for w in ["malloc", "_start", "_init", "_fini", "_end", "_etext", "_edata", "__bss_start", "__dso_handle", "_DYNAMIC", "__tls_get_addr", "_tlv_bootstrap", "dyld_stub_binder", "___stack_chk_fail", "environ", "errno", "memcpy", "main.0", "null", "*UND*", "*ABS*", "*COM*", "SHN_UNDEF", "section", "file", "import", "export"] { v.push(w.into()) }
    v.retain(|n| !n.is_empty());
    let mut seen = std::collections::HashSet::new();
    v.retain(|n| seen.insert(n.clone()));
    v
}
pub fn name_shapes(f: Fmt, deep: bool) -> Family {
    let t = shapes(deep);
    let n = t.len();
    family(format!("{} shapes of names in {} roles", n, ROLES), (n * ROLES * 3) as u64, move |i| {
        let mut x = Ix(i);
        let (k, r, a) = (x.n(3), x.n(ROLES), x.of(&t));
        // before, after and between other names
        let mut sc = Scenario::new(tgt(f));
        if k != 0 { sc = role(sc, 1, "q~", 3) }
        sc = role(sc, r, a, 1);
        if k != 1 { sc = role(role(sc, 6, "after~", 2), 0, "a~", 4) }
        if linkable(r) && k == 2 { sc = sc.link("a~", a, 1).link(a, "q~", 2).link(a, a, 3) }
        Some(Case::new(sc).on(f))
    })
}
pub const ROLES: usize = 11;
/// give `name` a role
pub fn role(sc: Scenario, r: usize, n: &str, j: u32) -> Scenario {
    match r {
        0 => sc.declare(n, Decl::func()).define(n, Bytes::Pat(j, 9)),
        1 => sc.declare(n, Decl::func().scope(Scope::Global)).define(n, Bytes::Pat(j, 9)),
        2 => sc.declare(n, Decl::wdata().scope(Scope::Weak)).define(n, Bytes::Pat(j, 9)),
        3 => sc.declare(n, Decl::data()).define(n, Bytes::Pat(j, 9)),
        4 => sc.declare(n, Decl::cstr()).define(n, Bytes::Str(j, 9)),
        5 => sc.declare(n, Decl::wdata()).zero(n, 9),
        6 => sc.import(n, Ik::Func),
        7 => sc.declare(n, Decl::sec(SecKind::Data)).define(n, Bytes::Pat(j, 9)),
        8 => sc.declare(n, Decl::sec(SecKind::Debug)).define(n, Bytes::Pat(j, 9)),
        9 => { let s = format!(".c{}", j); sc.declare(&s, Decl::sec(SecKind::Data)).syms(&s, blob(j, 9), BTreeMap::from([(n.to_string(), 4)])) }
        _ => { let mut sc = sc; sc.name = n.into(); sc }
    }
}
fn linkable(r: usize) -> bool { r <= 4 }
pub fn names2(f: Fmt) -> Family {
    let t = tricky(f);
    let len = (t.len() * t.len() * ROLES * ROLES * 2) as u64;
    family(format!("two names of {} in {} roles", t.len(), ROLES), len, move |i| {
        let mut x = Ix(i);
        let (r, s, l, a, b) = (x.n(ROLES), x.n(ROLES), x.n(2) == 1, x.n(t.len()), x.n(t.len()));
        // the same name twice only where one of the roles makes no symbol
        if a == b && !(r >= 7 || s >= 7) { return None; }
        let mut sc = role(role(Scenario::new(tgt(f)), r, &t[a], 1), s, &t[b], 2);
        if l {
            if !linkable(r) || s >= 7 { return None; }
            sc = sc.link(&t[a], &t[b], 1);
        }
        Some(Case::new(sc).on(f))
    })
}
/// Pairs of names that some comparison, abbreviation or hash might take for the same one
pub fn similar(deep: bool) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut bases: Vec<String> = ["a", "f", "foo", "Foo", "é", "_", "__", ".text", ".data.x", ".debug_x", "x1", "a b", "名前", "operator new", "f@V1", "f@@V2", "f@PLT", "f.1", "f$1", "ZN3foo3barE", "L1", ".L1", "0"].iter().map(|s| s.to_string()).collect();
    for k in [7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65] { bases.push("n".repeat(k)) }
    for b in &bases {
        for t in ["_", ".", " ", "\n", "\t", "0", "1", "a", "$", "@", "@V1", "@@V1", "@PLT", "\u{301}", "\u{1}", "\u{7f}", "\u{feff}", "\u{200b}", ".0", ".1", ".cold", ".part.0", ".llvm.1", "$stub", "_1", "()", "/", ":", "\\", "-"] {
            v.push((b.clone(), format!("{}{}", b, t)));
            v.push((b.clone(), format!("{}{}", t, b)));
            v.push((format!("{}a", b), format!("{}{}a", b, t)));
            v.push((format!("{}{}", b, t), format!("{}{}{}", b, t, t)));
        }
        v.push((b.clone(), b.to_uppercase()));
        v.push((b.clone(), b.to_lowercase()));
        v.push((b.clone(), b.repeat(2)));
        v.push((b.clone(), b.chars().rev().collect()));
        v.push((format!("{}xy", b), format!("{}yx", b)));
        v.push((format!("{}ac", b), format!("{}bb", b)));
        v.push((format!("{}.a", b), format!("{}_a", b)));
        v.push((format!("{}-a", b), format!("{}_a", b)));
        v.push((format!("{}::a", b), format!("{}__a", b)));
    }
    // é as one character and as two, and other spellings of the same
    v.extend([("\u{e9}", "e\u{301}"), ("\u{212b}", "\u{c5}"), ("ﬁ", "fi"), ("\u{130}", "i"), ("ß", "SS"), ("ß", "ss"), ("\u{3c3}", "\u{3c2}"), ("１", "1"), ("\u{a0}", " "), ("a", "\u{430}"),
        // which are the same to well-known hashes: Java's, CRC-32, FNV-1, FNV-1a, djb2, sdbm's relatives, Adler-32, the ELF and GNU ones
        ("Aa", "BB"), ("AaAa", "BBBB"), ("AaBB", "BBAa"), ("plumless", "buckeroo"), ("costarring", "liquid"), ("declinate", "macallums"), ("altarage", "zinke"), ("creamwove", "quists"), ("hetairas", "mentioner"), ("heliotropes", "neurospora"), ("depravement", "serafins"), ("stylist", "subgenera"), ("joyful", "synaphea"), ("redescribed", "urites"), ("dram", "vivency"), ("playwright", "snush"), ("codding", "gnu"), ("exhibiters", "schlager"), ("ab", "ba"), ("abc", "cba"), ("adb", "bca"), ("az", "by"), ("az", "bY")].iter().map(|(a, b)| (a.to_string(), b.to_string())));
    // that differ in one place only
    let mut ls = vec![1usize, 2, 3, 7, 8, 15, 16, 17, 24, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 65534, 65535, 65536];
    if deep { ls.extend(4..200); ls.extend([2047, 2048, 8191, 8192, 16383, 16384, 32767, 32768, 131071, 131072, 1 << 20]) }
    for l in ls {
        let c = "c".repeat(l);
        v.push((format!("{}a", c), format!("{}b", c)));
        v.push((format!("a{}", c), format!("b{}", c)));
        v.push((format!("{}a{}", c, c), format!("{}b{}", c, c)));
        v.push((c.clone(), format!("{}a", c)));
        v.push((c.clone(), format!("a{}", c)));
        // the same length in characters, or in bytes
        v.push((c.clone(), "é".repeat(l)));
        v.push((c.repeat(2), "é".repeat(l)));
    }
    v.retain(|(a, b)| a != b && !a.is_empty() && !b.is_empty());
    v.extend(v.clone().into_iter().map(|(a, b)| (b, a)));
    let mut seen = std::collections::HashSet::new();
    v.retain(|n| seen.insert(n.clone()));
    v
}
pub fn similar_names(f: Fmt, deep: bool) -> Family {
    let v = similar(deep);
    const PAIRS: [(usize, usize); 10] = [(0, 0), (1, 2), (1, 6), (6, 6), (3, 4), (5, 0), (7, 8), (9, 1), (9, 9), (10, 1)];
    family(format!("{} pairs of similar names in {} pairs of roles", v.len(), PAIRS.len()), (v.len() * PAIRS.len() * 2) as u64, move |i| {
        let mut x = Ix(i);
        let (l, (r, s), (a, b)) = (x.n(2) == 1, *x.of(&PAIRS), x.of(&v));
        let mut sc = role(role(role(Scenario::new(tgt(f)), 0, "before~", 3), r, a, 1), s, b, 2);
        if l {
            if r == 6 { sc = sc.link("before~", a, 1).link("before~", b, 3) }
            else if linkable(r) && s <= 6 { sc = sc.link(a, b, 1).link("before~", a, 3).link("before~", b, 5) }
            else { return None; }
        }
        Some(Case::new(sc).on(f))
    })
}
pub fn name_lengths(f: Fmt, upto: usize) -> Family {
    let mut ls: Vec<usize> = (1..upto).collect();
    ls.extend([1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]);
    let len = (ls.len() * ROLES) as u64;
    family("name lengths", len, move |i| {
        let mut x = Ix(i);
        let r = x.n(ROLES);
        let n: String = "nameOfLen".chars().cycle().take(*x.of(&ls)).collect();
        let sc = role(role(Scenario::new(tgt(f)), 1, "q", 3), r, &n, 1);
        Some(Case::new(role(sc, 6, "after", 2)).on(f))
    })
}
/// names that fall in the same place of a table, by being of all lengths one after the other
pub fn name_ladders(f: Fmt) -> Family {
    family("name ladders", (ROLES * 40) as u64, move |i| {
        let mut x = Ix(i);
        let (r, n) = (x.n(ROLES), x.n(40));
        let mut sc = Scenario::new(tgt(f));
        for j in 0..n { let nm = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrst"[..j + 1].to_string(); sc = role(sc, if r == ROLES - 1 { j % 7 } else { r }, &nm, j as u32 + 1) }
        Some(Case::new(sc).on(f))
    })
}

// ------------------------------------------------------------------ custom sections

pub fn customs(f: Fmt) -> Family {
    let kinds = 3;
    let names: Vec<&'static str> = match f { Fmt::Elf => vec![".s", ".text", ".text.f", ".data.d", ".bss.z", ".rela.s", ".debug_info", ".debug_str", ".debug_line_str", ".symtab", ".note.GNU-stack", "plain", ".rela.text.f", ".debug.debug", ".debug"], Fmt::Macho => vec![".s", ".debug.debug", ".debug", "x.debug_y", "__debug_info", "__text", "__data", "__bss", "__cstring", ".debug_info", ".debug_str", "plain", "__debug_abbrev", "f", "x"] };
    let nn = names.len();
    // two sections, with 0..3 custom symbols each, before, between or after other definitions
    let len = (nn * nn * kinds * kinds * 4 * 4 * 3 * 3) as u64;
    family("custom sections", len, move |i| {
        let mut x = Ix(i);
        let (n1, n2, k1, k2, s1, s2, pos, al) = (names[x.n(nn)], names[x.n(nn)], x.n(3), x.n(3), x.n(4), x.n(4), x.n(3), [None, Some(1), Some(64)][x.n(3)]);
        if n1 == n2 { return None; }
        let mut sc = Scenario::new(tgt(f));
        let others = |sc: Scenario| sc.declare("f", Decl::func().scope(Scope::Global)).define("f", Bytes::Pat(1, 9)).declare("d", Decl::wdata()).define("d", Bytes::Pat(2, 5)).declare("z", Decl::wdata()).zero("z", 10).import("i", Ik::Data);
        let sec = |sc: Scenario, n: &str, k: usize, s: usize, t: &str, l: usize, al: Option<u64>| {
            let m: BTreeMap<String, u64> = (0..s).map(|j| (format!("{}{}", t, j), (j as u64 * l as u64) / 2)).collect();
            sc.declare(n, Decl::sec(SECKINDS[k]).align(al)).syms(n, blob(l as u32, l), m)
        };
        if pos == 0 { sc = others(sc) }
        sc = sec(sc, n1, k1, s1, "p", 6, al);
        if pos == 1 { sc = others(sc) }
        sc = sec(sc, n2, k2, s2, "q", 11, None);
        if pos == 2 { sc = others(sc) }
        Some(Case::new(sc).on(f))
    })
}

// ------------------------------------------------------------------ zero-initialized data

pub fn zeros(f: Fmt) -> Family {
    let sizes: [usize; 12] = [0, 1, 2, 7, 8, 9, 4095, 4096, 65536, (1 << 31) + 1, (1 << 32) + 5, 1 << 45];
    let al = [None, Some(1), Some(8), Some(4096)];
    let per = sizes.len() * al.len();
    let len = (per * per * 6 * 4) as u64;
    family("zero-initialized", len, move |i| {
        let mut x = Ix(i);
        let (w, other) = (x.n(6), x.n(4));
        let mut sc = Scenario::new(tgt(f));
        if other & 1 == 1 { sc = sc.declare("f", Decl::func().align(Some(1))).define("f", Bytes::Pat(1, 3)).declare("e", Decl::wdata().scope(Scope::Global)).define("e", Bytes::Pat(1, 3)) }
        for j in 0..2 {
            let d = match (w + j) % 6 { 0 => Decl::wdata(), 1 => Decl::data(), 2 => Decl::cstr(), 3 => Decl::cstr().writable(true), 4 => Decl::wdata().scope(Scope::Weak), _ => Decl::wdata().scope(Scope::Global) };
            let (s, a) = (*x.of(&sizes), *x.of(&al));
            sc = sc.declare(&name_of(j), d.align(a)).zero(&name_of(j), s);
        }
        if other & 2 == 2 { sc = sc.declare("g", Decl::data()).define("g", Bytes::Pat(4, 3)).declare(".s", Decl::sec(SecKind::Data)).syms(".s", blob(5, 5), BTreeMap::from([("y".to_string(), 1)])).declare("h", Decl::func()).define("h", Bytes::Pat(3, 20)).link("h", "a", 0).link("g", "b", 0) }
        Some(Case::new(sc).on(f))
    })
}

// ------------------------------------------------------------------ histories

/// every sequence of n calls out of an alphabet, emitted at the end if complete
pub fn histories(name: &str, f: Fmt, alphabet: Vec<Op>, n: usize) -> Family {
    let k = alphabet.len() as u64;
    family(format!("{} {}^{}", name, k, n), k.pow(n as u32), move |i| {
        let mut x = Ix(i);
        let mut sc = Scenario::new(tgt(f));
        for _ in 0..n { sc.ops.push(x.of(&alphabet).clone()) }
        sc.ops.reverse();
        Some(Case::new(sc).on(f))
    })
}
/// after a fixed beginning
pub fn histories_from(name: &str, f: Fmt, start: Vec<Op>, alphabet: Vec<Op>, n: usize) -> Family {
    let fam = histories(name, f, alphabet, n);
    let (nm, len, gen) = (fam.name, fam.len, fam.gen);
    family(nm, len, move |i| { let mut c = gen(i)?; let mut o = start.clone(); o.append(&mut c.sc.ops); c.sc.ops = o; Some(c) })
}
pub fn s(x: &str) -> String { x.into() }
/// calls in any order around imports that get upgraded, links and definitions
pub fn upgrade_alphabet() -> Vec<Op> {
    let mut v = vec![];
    for n in ["a", "b"] {
        v.push(Op::Import(s(n), Ik::Func));
        v.push(Op::Declare(s(n), Decl::func().scope(Scope::Global)));
        v.push(Op::Define(s(n), Bytes::Pat(n.as_bytes()[0] as u32, 16)));
        v.push(Op::Import(s(n), Ik::Data));
        v.push(Op::Declare(s(n), Decl::wdata().scope(Scope::Weak)));
    }
    v.push(Op::Link(s("a"), s("b"), 4));
    v.push(Op::Link(s("b"), s("a"), 8));
    v.push(Op::Link(s("a"), s("a"), 0));
    v
}
/// three imports first, so that upgrades happen at each position
pub fn imports_start() -> Vec<Op> { ["a", "b", "c", "d"].iter().enumerate().map(|(i, n)| Op::Import(s(n), if i % 2 == 0 { Ik::Func } else { Ik::Data })).collect() }
pub fn imports_alphabet() -> Vec<Op> {
    let mut v = vec![];
    for (i, n) in ["a", "b", "c", "d"].iter().enumerate() {
        v.push(Op::DeclareWith(s(n), if i % 2 == 0 { Decl::func() } else { Decl::wdata().scope(Scope::Global) }, Bytes::Pat(i as u32, 12)));
        v.push(Op::Import(s(n), if i % 2 == 0 { Ik::Func } else { Ik::Data }));
        for m in ["a", "b", "c", "d"] { if m != *n { v.push(Op::Link(s(n), s(m), 2)) } }
    }
    v.push(Op::Import(s("e"), Ik::Func));
    v
}

// ------------------------------------------------------------------ contents and alignments that some code might treat specially

pub fn content_list(long: bool) -> Vec<Bytes> {
    let mut v: Vec<Bytes> = vec![];
    let lens: &[usize] = if long { &[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 64, 100, 255, 256, 257, 512, 1000, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 1 << 20] } else { &[1, 4, 8, 16] };
    for &n in lens { for b in [0u8, 0xff, 0xcc, 0xaa, 0x90] { v.push(Bytes::Fill(b, n)) } }
    let raw: [&[u8]; 44] = [b"", b"abc", b"abc\0", b"bc\0", b"c\0", b"abc\0\0", b"\0abc", b"\0abc\0", b"\0\0abc", b"ab\0c", b"ab\0c\0", b"hello\0hello\0", b"\0\0\0\0a", b"a\0\0\0\0\0\0\0", b"\0a\0", b"A", b"\n", b"\r\n", b"a\n", b" ", b"%s%n\0",
        b"\x7fELF\x02\x01\x01\0", b"\xcf\xfa\xed\xfe", b"!<arch>\n", b"\xc3\xa9\0", b"\xff\xfe\x80", b"\xef\xbb\xbfabc\0", b"\xcc", b"\xcc\xcc\xc3", b"\xc3", b"\xe8\0\0\0\0\xc3", b"\xe8\xfc\xff\xff\xff", b"\x0f\x0b", b"\x55\x48\x89\xe5\x5d\xc3", b"\x90\x90\x90\xc3", b"\xc3\xcc\xcc\xcc\xcc\xcc",
        b"ZLIB\0\0\0\0\0\0\0\x10x\x9c", b"\x01\0\0\0\0\0\0\0", b"\0\0\0\0\0\0\0\x80", b"\xff\xff\xff\xff\xff\xff\xff\x7f", b"\xef\xbe\xad\xde", b"abcdefgh\0", b"abcdefg\0h", b"_\0"];
    v.extend(raw.iter().map(|r| Bytes::Raw(r.to_vec())));
    // zeros before, after, and around something
    for n in [1usize, 7, 8, 16, 64, 300, 5000] {
        let (mut a, mut b) = (vec![0u8; n], vec![1u8, 2, 3, 4, 5, 6, 7, 8, 9]);
        a.extend(&b);
        b.extend(vec![0u8; n]);
        let mut c = a.clone();
        c.extend(vec![0u8; n]);
        v.extend([Bytes::Raw(a), Bytes::Raw(b), Bytes::Raw(c)]);
    }
    v
}
fn content_decls() -> Vec<Decl> {
    let mut d = vec![];
    for s in SCOPES { d.extend([Decl::func().scope(s), Decl::data().scope(s), Decl::wdata().scope(s), Decl::cstr().scope(s), Decl::cstr().writable(true).scope(s)]) }
    for k in SECKINDS { for t in [Dt::Bytes, Dt::Str] { d.push(Decl::sec(k).dt(t)) } }
    d
}
/// each special content in each kind of definition, alone or with others, with or without a link in it
pub fn contents1(f: Fmt) -> Family {
    let (c, ds) = (content_list(true), content_decls());
    family(format!("{} special contents", c.len()), (c.len() * ds.len() * 4 * ALIGN3.len()) as u64, move |i| {
        let mut x = Ix(i);
        let (w, d, a, b) = (x.n(4), *x.of(&ds), *x.of(&ALIGN3), x.of(&c));
        let n = section_safe(0, &item(d, blob(0, 0)));
        let mut sc = Scenario::new(tgt(f));
        if w & 1 == 1 { sc = sc.declare("Q", d_like(d)).define("Q", Bytes::Raw(b"before\0".to_vec())) }
        sc = sc.declare(&n, d.align(a)).define(&n, b.clone());
        if w & 1 == 1 { sc = sc.declare("z", d_like(d)).define("z", Bytes::Raw(b"after\0".to_vec())).declare("y", Decl::wdata()).zero("y", 5) }
        if w & 2 == 2 {
            if d.is_section() || b.len() < 8 { return None; }
            sc = sc.import("i", Ik::Func).import("j", Ik::Data).link(&n, "i", 0).link(&n, "j", b.len() as u64 - 4).link(&n, &n, 3);
        }
        Some(Case::new(sc).on(f))
    })
}
const ALIGN3: [Option<u64>; 3] = [None, Some(1), Some(64)];
/// another definition that goes where the first goes
fn d_like(d: Decl) -> Decl { if d.is_section() { Decl::wdata() } else { d.scope(Scope::Global) } }
/// all pairs of special contents: equal ones, prefixes and suffixes of each other, ...
pub fn contents2(f: Fmt) -> Family {
    let c = content_list(false);
    let n = c.len();
    let kinds: [(Decl, Decl); 14] = [
        (Decl::data(), Decl::data()), (Decl::data().scope(Scope::Global), Decl::data()), (Decl::data().scope(Scope::Weak), Decl::data().scope(Scope::Weak)), (Decl::cstr(), Decl::cstr()), (Decl::cstr().scope(Scope::Global), Decl::cstr().scope(Scope::Global)), (Decl::cstr(), Decl::cstr().align(Some(16))), (Decl::cstr(), Decl::data()),
        (Decl::wdata(), Decl::wdata()), (Decl::wdata(), Decl::data()), (Decl::func(), Decl::func()), (Decl::func().scope(Scope::Global), Decl::func().scope(Scope::Weak)), (Decl::func(), Decl::data()), (Decl::sec(SecKind::Debug), Decl::sec(SecKind::Debug)), (Decl::sec(SecKind::Data).dt(Dt::Str), Decl::cstr()),
    ];
    family(format!("pairs of {} special contents", n), (n * n * kinds.len() * 2) as u64, move |i| {
        let mut x = Ix(i);
        let ((k, l), a, b, refer) = (*x.of(&kinds), x.n(n), x.n(n), x.n(2) == 1);
        let (na, nb) = (section_safe(0, &item(k, blob(0, 0))), section_safe(1, &item(l, blob(0, 0))));
        let mut sc = Scenario::new(tgt(f)).declare(&na, k).define(&na, c[a].clone()).declare(&nb, l).define(&nb, c[b].clone());
        if refer { if k.is_section() { return None; } sc = sc.declare("p", Decl::wdata()).define("p", Bytes::Fill(0, 16)).link("p", &na, 0).link("p", &nb, 8) }
        Some(Case::new(sc).on(f))
    })
}
/// each alignment there is, up to what the format can say
pub fn alignments(f: Fmt) -> Family {
    let ds: Vec<Decl> = { let mut d = content_decls(); d.truncate(5); d.extend([Decl::func().scope(Scope::Weak), Decl::wdata().scope(Scope::Global)]); for k in SECKINDS { d.push(Decl::sec(k)) } d };
    family("alignments 2^0..2^62", (63 * (ds.len() + 1) * 3 * 3) as u64, move |i| {
        let mut x = Ix(i);
        let (len, w, k, p) = ([0usize, 1, 40][x.n(3)], x.n(3), x.n(ds.len() + 1), x.n(63));
        let zero = k == ds.len();
        let d = if zero { Decl::wdata() } else { ds[k] }.align(Some(1u64 << p));
        let n = section_safe(0, &item(d, blob(0, 0)));
        let mut sc = Scenario::new(tgt(f));
        // others, but before it in memory only if that leaves no huge hole in a file
        if w >= 1 { sc = sc.declare("o", Decl::data().align(Some(2))).define("o", Bytes::Pat(3, 7)) }
        if w == 2 { sc = sc.declare("q", if d.is_func() { Decl::wdata() } else { Decl::func() }.scope(Scope::Global)).define("q", Bytes::Pat(2, 9)) }
        if w >= 1 && d.is_data() && f == Fmt::Macho && p > 20 && !zero { return None; }
        sc = sc.declare(&n, d).payload(&n, &if zero { Payload::Zero(len) } else { Payload::Blob(if let Decl::Data { dt: Dt::Str, .. } = d { Bytes::Str(1, len) } else { Bytes::Pat(1, len) }) });
        Some(Case::new(sc).on(f))
    })
}
/// all pairs of alignments in one section or in different ones, after a length that misaligns
pub fn alignment_pairs(f: Fmt) -> Family {
    let kinds = 6;
    family("pairs of alignments 2^0..2^16", (18 * 18 * kinds * 4 * 2) as u64, move |i| {
        let mut x = Ix(i);
        let (k, len, l, p, q) = (x.n(kinds), [1usize, 8, 24, 129][x.n(4)], x.n(2), x.n(18), x.n(18));
        let al = |p: usize| if p == 17 { None } else { Some(1u64 << p) };
        let d = |k: usize, a| [Decl::func(), Decl::wdata(), Decl::cstr(), Decl::wdata(), Decl::sec(SecKind::Data), Decl::data()][k].align(a);
        let mut sc = Scenario::new(tgt(f));
        for (j, a) in [al(p), al(q), None].into_iter().enumerate() {
            let kk = if k == 5 && j == 1 { 0 } else { k };
            let dd = d(kk, a);
            let it = item(dd, if kk == 3 { Payload::Zero(len) } else if kk == 2 { Payload::Blob(Bytes::Str(0, len)) } else { blob(0, len) });
            sc = add(sc, &section_safe(j, &it), &it, j as u32 + 1);
        }
        if l == 1 { if matches!(k, 3 | 4) || len < 8 { return None; } sc = sc.link("b", "a", 0).link("a", "c", len as u64 - 8).link("c", "b", 4) }
        Some(Case::new(sc).on(f))
    })
}
/// definitions of all kinds, lengths and alignments that refer to each other from their first, middle and last places
pub fn linked_layout(f: Fmt, lens: &'static [usize], aligns: &'static [Option<u64>]) -> Family {
    let kinds: Vec<Decl> = vec![Decl::func(), Decl::func().scope(Scope::Weak), Decl::wdata().scope(Scope::Global), Decl::data(), Decl::cstr(), Decl::wdata()];
    let per = kinds.len() * lens.len() * aligns.len();
    family(format!("linked layouts {}^3", per), (per * per * per) as u64, move |i| {
        let mut x = Ix(i);
        let mut sc = Scenario::new(tgt(f));
        let mut len = vec![];
        for j in 0..3 {
            let (k, l, a) = (x.n(kinds.len()), *x.of(lens), *x.of(aligns));
            let it = item(kinds[k].align(a), if k == 5 { Payload::Zero(l) } else if k == 4 { Payload::Blob(Bytes::Str(0, l)) } else { blob(0, l) });
            sc = add(sc, &name_of(j), &it, j as u32 + 1);
            len.push(if k == 5 { 0 } else { l });
        }
        sc = sc.import("i", Ik::Func);
        for j in 0..3 {
            if len[j] < 8 { continue; }
            let l = len[j] as u64;
            sc = sc.link(&name_of(j), &name_of((j + 1) % 3), 0).link(&name_of(j), &name_of((j + 2) % 3), l - 8).link(&name_of(j), &name_of(j), (l - 8) / 2).link(&name_of(j), "i", l - 4);
        }
        Some(Case::new(sc).on(f))
    })
}
