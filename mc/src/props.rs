//! Which check decides which property, and over which families.
use crate::families::*;
use crate::runner::{CheckFn, Prop};
use crate::types::*;
use crate::view::section_name;
use std::collections::BTreeMap;
use crate::{api, emission, files, limits, linker, pure, targets};

pub fn ids() -> Vec<&'static str> {
    vec!["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "E01", "E02", "E03", "E04", "E05", "E06", "M01", "M02", "M03", "M04", "M05", "M06", "X01", "X02", "X03", "X04", "X05", "X06", "X07", "X08", "X09"]
}

const READER: &str = "the object is judged by this framework's own ELF and Mach-O readers (validated against readelf, ld, ld.lld, llvm-readobj and llvm-objdump; see DESIGN.md)";
const MODEL: &str = "expectations come from the reference model of the API (mc/src/model.rs), a restatement of the documentation";
const BOUND: &str = "exhaustive within the families listed; nothing is claimed about inputs outside of them";
const DOMAIN: &str = "names are non-empty and NUL-free, links are within contents, Mach-O section names have at most 16 bytes";

fn any(_: &Decl) -> bool { true }
fn sections(d: &Decl) -> bool { d.is_section() }
const LONG: &[usize] = &[5, 9, 17, 33, 34, 65, 130, 260];
const LONG3: &[usize] = &[5, 8, 9, 16, 17, 32, 33, 34, 64, 65, 100, 128, 130, 256, 260, 520, 1030];
const LAYOUT_LENS: &[usize] = &[0, 1, 3, 8, 17];
const LAYOUT_ALIGNS: &[Option<u64>] = &[None, Some(1), Some(4), Some(16), Some(64)];
const LAYOUT_LENS3: &[usize] = &[0, 1, 2, 5, 8, 16, 33];
const LAYOUT_ALIGNS3: &[Option<u64>] = &[None, Some(1), Some(2), Some(8), Some(32), Some(256), Some(4096)];
const LONG_LENS: &[usize] = &[0, 1, 255, 256, 257, 1000, 4095, 4096, 4097, 10001];
const LONG_ALIGNS: &[Option<u64>] = &[None, Some(1), Some(16), Some(128), Some(256), Some(512), Some(1024), Some(4096), Some(8192), Some(65536)];
const MORE_LONG_LENS: &[usize] = &[0, 1, 257, 4097];
const MORE_LONG_ALIGNS: &[Option<u64>] = &[None, Some(1), Some(128), Some(512), Some(4096), Some(32768)];
const EDGES: &[usize] = &[512, 1024, 4096, 8192, 65536];
const ALL_KINDS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
const FEW_KINDS: &[usize] = &[0, 1, 2, 3, 5, 7, 8, 9];
const CORE_KINDS: &[usize] = &[0, 2, 4, 8, 9];
const SEC_KINDS: &[usize] = &[0, 2, 4, 8, 9, 13, 14, 15];

/// What the properties of emitted objects of one format are decided on: all there is, as any part of it may be what
/// makes some other part of the object go wrong
fn universe(f: Fmt, deep: bool) -> Vec<Family> {
    let which = if f == Fmt::Elf { 0 } else { 1 };
    let machines = emission::FOREIGN[which].1;
    let d = |q: usize, t: usize| if deep { t } else { q };
    let mut v = vec![
        single(f, any), tuples("full", f, full_items(), 2, 1), tuples("full", f, full_items(), 2, 3), tuples("medium", f, medium_items(), 2, 0), tuples("medium", f, medium_items(), 3, 2),
        tuples("small", f, small_items(), 3, 2), tuples("small", f, small_items(), 4, 1), meshes(f, mesh_decls(), 2), meshes(f, mesh_decls(), 3),
        layout(f, 2, LAYOUT_LENS3, LAYOUT_ALIGNS3), layout(f, 2, LONG_LENS, LONG_ALIGNS), layout(f, 3, LAYOUT_LENS, LAYOUT_ALIGNS), layout(f, 3, MORE_LONG_LENS, MORE_LONG_ALIGNS),
        lengths(f, d(2500, 9000), if deep { &[16384, 32768, 65536, 131072, 1 << 20, 1 << 24] } else { EDGES }), zeros(f), customs(f),
        counts(f, d(310, 600), if deep { vec![1000, 1023, 1024, 1025, 2000, 4097] } else { vec![511, 512, 513, 1000, 1023, 1024, 1025] }),
        graphs(f, 2, 1, &[0, 1, 5, 20], ALL_KINDS), graphs(f, 2, 2, &[0, 9], ALL_KINDS), graphs(f, 3, 2, &[0, 9], FEW_KINDS), graphs(f, 2, 3, &[0, 9], FEW_KINDS), graphs(f, 2, 1, &[0, 5], SEC_KINDS),
        offsets(f, d(2000, 9000) as u64, if deep { &[16384, 65536, 1 << 20, 1 << 24] } else { &[4096, 8192, 32768, 65536, 1 << 20] }),
        many_relocs(f, d(70, 300), if deep { &[511, 512, 513, 1000, 1024, 4096, 4097] } else { &[127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1025] }),
        reloc_sequences(f, d(3, 4)), shared_names(f), few("raw relocations", raws(f), 7), few("debug relocations", debugs(f), 5),
        histories("histories with upgrades", f, upgrade_alphabet(), 4), histories("histories with upgrades", f, upgrade_alphabet(), 5),
        histories_from("histories after imports", f, imports_start(), imports_alphabet(), 3), histories_from("histories after imports", f, imports_start(), imports_alphabet(), 4),
        contents1(f), contents2(f), alignments(f), alignment_pairs(f), linked_layout(f, if deep { &[8, 13, 32] } else { &[8, 13] }, if deep { &[None, Some(1), Some(4), Some(32), Some(512)] } else { &[None, Some(1), Some(64)] }),
        names_few(f), few("names", name_shapes(f, deep), 2), few("similar names", similar_names(f, deep), 5),
        family("links on other machines", (machines.len() * emission::KINDS.len() * 12) as u64, move |i| {
            let mut x = Ix(i);
            let (m, k, n) = (*x.of(machines), *x.of(&emission::KINDS), x.n(12));
            if k == "debug8" && matches!(m, "i686" | "arm") { return None; }
            emission::foreign_case(f, m, k, n)
        }),
        scale_of(f, deep, if deep { vec![300, 1025, 5000, 33000, 65537, 70000] } else { vec![300, 5000, 65537] }),
    ];
    // on other machines: everything that needs no links
    for t in elsewhere(f) {
        v.push(on(tuples("full", f, full_items(), 2, 1), t));
        v.push(on(layout(f, 2, LAYOUT_LENS3, LAYOUT_ALIGNS3), t));
        v.push(on(customs_few(f), t));
        v.push(on(few("names", name_shapes(f, deep), 11), t));
    }
    if deep {
        v.push(tuples("full", f, full_items(), 3, 1));
        v.push(tuples("small", f, small_items(), 5, 3));
        v.push(meshes(f, mesh_decls(), 4));
        v.push(layout(f, 3, LAYOUT_LENS3, LAYOUT_ALIGNS3));
        v.push(layout(f, 4, LAYOUT_LENS, LAYOUT_ALIGNS));
        v.push(graphs(f, 3, 2, &[0, 9], ALL_KINDS));
        v.push(graphs(f, 3, 3, &[0, 9], CORE_KINDS));
        v.push(graphs(f, 4, 2, &[3], ALL_KINDS));
        v.push(histories("histories with upgrades", f, upgrade_alphabet(), 6));
        v.push(histories_from("histories after imports", f, imports_start(), imports_alphabet(), 5));
    }
    v
}
/// every k-th case of a family
fn few(name: &str, fam: Family, k: u64) -> Family {
    let (len, g) = (fam.len, fam.gen);
    family(format!("{}, every {}th", name, k), len / k, move |i| g(i * k))
}
/// the same on another target, without what has links (which have the relocation types of x86_64 wherever they are; see E05 and M05)
fn on(fam: Family, t: &'static str) -> Family {
    let (name, len, g) = (fam.name, fam.len, fam.gen);
    family(format!("{} on {}", name, t), len, move |i| g(i).and_then(|mut c| { if c.sc.ops.iter().any(|o| matches!(o, Op::Link(..) | Op::LinkWith(..))) { return None; } c.sc.target = t.into(); Some(c) }))
}
fn elsewhere(f: Fmt) -> &'static [&'static str] { match f { Fmt::Elf => &["i686-unknown-linux-gnu", "powerpc64-unknown-linux-gnu", "mips-unknown-linux-gnu"], Fmt::Macho => &["i686-apple-darwin", "powerpc64-apple-darwin"] } }
/// around the numbers of sections at which ELF changes its mind
fn huge(deep: bool) -> Vec<Family> {
    // section header n is the n-th of: null, strtab, symtab, ..., so the interesting counts are a few less than 0xff00 and 0x10000
    let mut ns: Vec<usize> = vec![1, 100, 0xfef0, 0xfef8];
    let near = if deep { 14 } else { 5 };
    for c in [0xff00usize, 0x10000] { ns.extend(c - near - 4..=c + 2) }
    ns.extend([0x10100, 70000]);
    if deep { ns.extend([0x1ff00, 0x20000, 0x20001]) }
    let k = ns.len();
    let shapes = 5;
    vec![family("around extended section numbering", (k * shapes) as u64, move |i| {
        let mut x = Ix(i);
        let (n, shape) = (*x.of(&ns), x.n(shapes));
        let mut sc = Scenario::new(ELF64);
        for j in 0..n {
            let nm = format!("n{}", j);
            sc = match shape {
                // all local, all global, some of each with zero-initialized data, ...
                0 => sc.declare(&nm, Decl::func()).define(&nm, Bytes::Pat(j as u32, 1 + j % 3)),
                1 => sc.declare(&nm, Decl::func().scope(Scope::Global)).define(&nm, Bytes::Pat(j as u32, 1 + j % 3)),
                2 => { let sc = sc.declare(&nm, Decl::wdata().scope(SCOPES[j % 3])); if j % 5 == 0 { sc.zero(&nm, 4) } else { sc.define(&nm, Bytes::Pat(j as u32, 1 + j % 3)) } }
                3 => if j + 20 > n { sc.declare(&nm, Decl::sec(SecKind::Data)).syms(&nm, blob(j as u32, 4), [(format!("y{}", j), 2u64)].into_iter().collect()) } else { sc.declare(&nm, Decl::cstr()).define(&nm, Bytes::Str(j as u32, 3)) },
                _ => sc.declare(&nm, Decl::func().scope(SCOPES[j % 3])).define(&nm, Bytes::Pat(j as u32, 16)),
            };
        }
        // links from and to both ends, and to what is in between; each of them needs a section of its own
        if shape == 4 || shape == 0 {
            sc = sc.import("imp", Ik::Func);
            let at = if shape == 4 { 3 } else { 0 };
            for (a, b) in [(0, n - 1), (n - 1, 0), (n / 2, n - 1), (n - 2.min(n), n / 3), (n - 1, n - 1)] { sc = sc.link(&format!("n{}", a.min(n - 1)), &format!("n{}", b), at).link(&format!("n{}", a.min(n - 1)), "imp", at) }
        }
        Some(Case::new(sc).on(Fmt::Elf))
    })]
}
fn huge_elsewhere() -> Vec<Family> {
    // (function of the shape: without links)
    let pick = |t: &'static str| { let fam = huge(false).remove(0); let g = fam.gen; let n = fam.len; on(family(format!("{}, every 3rd", fam.name), n / 3, move |i| g(3 * i)), t) };
    vec![pick("i686-unknown-linux-gnu"), pick("powerpc64-unknown-linux-gnu")]
}

/// many of everything: links in one place, definitions, imports, bytes, characters of names
fn scale(f: Fmt, deep: bool) -> Family {
    let mut ns: Vec<usize> = vec![127, 128, 255, 256, 257, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 70000];
    if deep { ns.extend([131071, 131072, 131073, 200_000, 262_143, 262_145]) }
    scale_of(f, deep, ns)
}
fn scale_of(f: Fmt, deep: bool, ns: Vec<usize>) -> Family {
    let k = ns.len();
    let shapes = 12;
    family(format!("{} sizes up to {}, {:?}", k, ns[k - 1], f), (k * shapes) as u64, move |i| {
        let mut x = Ix(i);
        let (shape, n) = (x.n(shapes), *x.of(&ns));
        let mut sc = Scenario::new(tgt(f));
        let nm = |j: usize| format!("n{}", j);
        // a few that come after the many
        let tail = |sc: Scenario, first: &str| sc.declare("y", Decl::wdata().scope(Scope::Global).align(Some(16))).define("y", Bytes::Pat(7, 24)).declare("z", Decl::func().scope(Scope::Weak)).define("z", Bytes::Pat(8, 33)).declare("w", Decl::cstr()).define("w", Bytes::Str(9, 5)).declare("v", Decl::wdata()).zero("v", 40)
            .link("z", "y", 4).link("y", "z", 8).link("z", first, 12).link("y", first, 0).link("z", "w", 20).link("z", "v", 28);
        match shape {
            // imports, and a table of links to them
            0 => { sc = sc.declare("t", Decl::wdata()).define("t", Bytes::Pat(1, 8 * n)); for j in 0..n { sc = sc.import(&nm(j), if j % 3 == 0 { Ik::Func } else { Ik::Data }).link("t", &nm(j), 8 * j as u64) } sc = tail(sc, &nm(n - 1)) }
            // data, each pointing to one far away
            1 => {
                // (each has two sections in ELF)
                let n = if f == Fmt::Elf && !deep { n.min(16384) } else { n };
                for j in 0..n { sc = sc.declare(&nm(j), Decl::wdata().scope(SCOPES[j % 3])).define(&nm(j), Bytes::Pat(j as u32, 8 + j % 3)) }
                for j in 0..n { sc = sc.link(&nm(j), &nm(n - 1 - j), (j % 3) as u64) }
                sc = tail(sc, &nm(0))
            }
            2 => { for j in 0..n { sc = sc.declare(&nm(j), Decl::wdata().scope(SCOPES[j % 3])); sc = if j % 2 == 0 { sc.zero(&nm(j), 1 + j % 9) } else { sc.define(&nm(j), Bytes::Pat(j as u32, j % 5)) } } sc = tail(sc, &nm(n / 2)) }
            3 => { for j in 0..n { sc = sc.declare(&nm(j), Decl::cstr().scope(SCOPES[j % 3])).define(&nm(j), Bytes::Str(j as u32, j % 4)) } sc = tail(sc, &nm(n - 1)) }
            // many bytes
            4 => { sc = sc.declare("f", Decl::func().scope(Scope::Global)).define("f", Bytes::Pat(1, 256 * n)).declare("g", Decl::func()).define("g", Bytes::Pat(2, 9)).link("f", "g", 256 * n as u64 - 4).link("g", "f", 1).link("f", "y", n as u64); sc = tail(sc, "f") }
            5 => { sc = sc.declare("f", Decl::wdata()).zero("f", 256 * n + 1).declare("g", Decl::wdata().scope(Scope::Global)).zero("g", n); sc = tail(sc, "g") }
            // many characters: one name of them, and many that sum up to that
            6 => { let a = format!("a{}", "x".repeat(n - 1)); sc = sc.import(&a, Ik::Func).declare("f", Decl::func()).define("f", Bytes::Pat(1, 9)).link("f", &a, 2); sc = tail(sc, &a) }
            // custom symbols of one section, in another order than their names
            8 => { sc = sc.declare(".s", Decl::sec(SECKINDS[n % 3])).syms(".s", blob(3, n + 9), (0..n).map(|j| (format!("y{}", j), (j * 7 % (n + 9)) as u64)).collect()).import("i", Ik::Func); sc = tail(sc, "i") }
            // custom sections
            9 => { let n = if f == Fmt::Elf { n.min(30000) } else { 240 + n % 8 }; for j in 0..n { let nm = format!(".s{}", j); sc = sc.declare(&nm, Decl::sec(SECKINDS[j % 3]).align([None, Some(16)][j % 2])).syms(&nm, blob(j as u32, 3 + j % 9), if j % 3 == 0 { [(format!("y{}", j), 2u64)].into_iter().collect() } else { BTreeMap::new() }) } sc = tail(sc.import("i", Ik::Data), "i") }
            // debug and raw relocations of one section
            10 => { sc = sc.declare(".debug_x", Decl::sec(SecKind::Debug)).define(".debug_x", Bytes::Pat(1, 8 * n + 8)).declare("f", Decl::func()).define("f", Bytes::Pat(2, 9)).declare("d", Decl::wdata().scope(Scope::Weak)).define("d", Bytes::Pat(3, 8 * n + 8)).import("i", Ik::Data); for j in 0..n { sc = sc.link_with(".debug_x", ["f", "d", "i"][j % 3], 8 * j as u64, Reloc::Debug { size: [8, 4][j % 2], addend: 0 }).link_with("d", ["i", "f", "d"][j % 3], 8 * j as u64, Reloc::Raw { reloc: [1, 2][j / 2 % 2], addend: 0 }) } sc = tail(sc, "d") }
            // links from many functions to a few things
            11 => { let n = if f == Fmt::Elf { n.min(16384) } else { n }; sc = sc.declare("g", Decl::wdata().scope(Scope::Weak)).define("g", Bytes::Pat(1, 5)).import("i", Ik::Func); for j in 0..n { sc = sc.declare(&nm(j), Decl::func().scope(SCOPES[j % 3])).define(&nm(j), Bytes::Pat(j as u32, 9 + j % 4)).link(&nm(j), ["g", "i"][j % 2], 1).link(&nm(j), &nm(j / 2), 5) } sc = tail(sc, "i") }
            _ => { for j in 0..n / 64 { sc = sc.declare(&format!("m{:062}", j), Decl::func().scope(SCOPES[j % 3])).define(&format!("m{:062}", j), Bytes::Pat(j as u32, 8)) } sc = tail(sc.import("i", Ik::Data), "i") }
        }
        Some(Case::new(sc).on(f))
    })
}

fn both(f: impl Fn(Fmt) -> Vec<Family>) -> Vec<Family> { fmts().iter().flat_map(|&x| f(x)).collect() }
fn renamed(f: Fmt, v: Vec<Family>) -> Vec<Family> { v.into_iter().map(|x| Family { name: format!("{:?}: {}", f, x.name), ..x }).collect() }

pub fn get(id: &str, tier: &str) -> Option<Prop> {
    let deep = tier == "thorough";
    let id = ids().into_iter().find(|x| *x == id)?;
    let d = |q: usize, t: usize| if deep { t } else { q };
    let api_assumptions = vec![MODEL, BOUND];
    let obj = vec![READER, MODEL, DOMAIN, BOUND];
    let (level, check, families, assumptions, patience): (&'static str, CheckFn, Vec<Family>, Vec<&'static str>, u64) = match id {
        "C01" => ("model_checking", api::c01, {
            let mut v = vec![
                api::tree("one", "", 2, 6, ELF64), api::tree("imports", "", 2, d(5, 6), ELF64), api::tree("imports", "imported", 2, d(4, 5), ELF64), api::tree("mixed", "", 2, d(5, 6), ELF64), api::tree("imports", "many", 2, d(4, 5), ELF64), api::tree("mixed", "many", 2, d(3, 4), ELF64),
                api::absorb_pairs(), api::absorb_triples(), api::similar_names(deep), api::long(if deep { LONG3 } else { LONG }, d(12, 40), 1), api::long(&[66_000], 1, 100_000), api::many_imports(d(24, 40), if deep { &[64, 65, 100, 128, 129, 200, 256, 257, 300, 600] } else { &[32, 33, 64, 65, 128, 130] }),
            ];
            if deep { v.push(api::tree("imports", "imported", 2, 6, ELF64)) }
            v
        }, api_assumptions, 120),
        "C02" => ("model_checking", api::c02, vec![
            api::tree("define", "", 2, 6, ELF64), api::tree("define2", "", 2, d(5, 6), ELF64), api::tree("sections", "", 2, 5, ELF64), api::tree("mixed", "", 2, d(5, 6), ELF64), api::define_pairs(), api::tree("define2", "many", 2, d(3, 4), ELF64), api::tree("define", "many", 2, d(3, 4), ELF64), api::similar_names(deep), api::long(if deep { LONG3 } else { LONG }, d(12, 40), 1), api::long(&[66_000], 1, 100_000),
        ], api_assumptions, 120),
        "C03" => ("model_checking", api::c03, vec![
            api::tree("link", "", 2, 6, ELF64), api::tree("link", "declared", 2, d(5, 6), ELF64), api::tree("reject", "", 2, 5, ELF64), api::link_pairs(), api::tree("link", "many", 2, d(4, 5), ELF64), api::tree("reject", "many", 2, d(3, 4), ELF64), api::similar_names(deep), api::long(if deep { LONG3 } else { LONG }, d(12, 40), 1), api::long(&[66_000], 1, 100_000),
        ], api_assumptions, 120),
        "C04" => ("model_checking", api::c04, vec![
            api::tree("reject", "", 2, d(4, 5), ELF64), api::tree("intern", "", 2, d(4, 5), ELF64), api::tree("sections", "", 2, 4, ELF64), api::tree("mixed", "defined", 2, 4, ELF64), api::tree("define2", "", 2, d(4, 5), ELF64), api::define_pairs(), api::tree("link", "declared", 2, 4, ELF64), api::tree("imports", "imported", 2, d(3, 4), ELF64), api::tree("reject", "many", 2, d(2, 3), ELF64), api::similar_names(deep), api::long(if deep { LONG3 } else { LONG }, d(6, 30), 37), api::long(&[5000], 1, 100_000),
        ], vec![READER, MODEL, BOUND], 300),
        "C05" => ("model_checking", api::c05, vec![
            api::tree("emit", "", 2, d(4, 5), ELF64), api::tree("emit", "", 2, 4, MACHO64), api::tree("emit", "", 2, d(3, 4), "x86_64-pc-windows-msvc"), api::tree("sections", "", 2, d(4, 5), ELF64), api::tree("define2", "", 2, d(4, 5), ELF64), api::clash_cases(), api::tree("emit", "many", 2, d(2, 3), ELF64), api::similar_names(deep), api::long(if deep { LONG3 } else { LONG }, d(5, 20), 11), api::long(&[66_000], 1, 100_000),
        ], api_assumptions, 300),
        "C06" => ("model_checking", pure::pure, pure_families(deep), vec!["hash seeds are enumerated by interposing getrandom, not all 2^128 of them", "other processes are represented by other threads with other hash seeds, clones and separately made artifacts", BOUND], 300),
        "C07" => ("model_checking", pure::order, both(|f| { let mut v = pure::order_programs(f, d(3, 3)); v.push(pure::long_orders(f, if deep { &[2, 4, 8, 16, 21, 33, 64, 130, 300] } else { &[4, 12, 21, 33, 64, 130] }, d(48, 400))); v.push(pure::long_orders(f, if deep { &[1000, 5000] } else { &[1000] }, d(3, 8))); if deep { v.extend(pure::order_programs(f, 4)) } v }), vec![READER, MODEL, BOUND], 600),
        "C08" => ("fault_enumeration", files::check, vec![
            files::family_of(d(4, 7), vec![0, 3, 100, 3000]), files::family_of(d(3, 5), vec![9000, 20000, 70000]), files::family_of(d(2, 3), vec![200_000, 1_100_000]),
        ], vec!["the operating system's answers to write(2), writev(2) and pwrite(2) are enumerated at the C library's boundary; the file is a memory file", BOUND], 600),
        "E01" => ("model_checking", emission::wellformed, universe(Fmt::Elf, deep), obj, 120),
        "E02" => ("model_checking", emission::contents, universe(Fmt::Elf, deep), obj, 120),
        "E03" => ("model_checking", emission::symbols, universe(Fmt::Elf, deep), obj, 120),
        "E04" => ("model_checking", emission::attrs, universe(Fmt::Elf, deep), obj, 120),
        "E05" => ("model_checking", emission::links, universe(Fmt::Elf, deep), obj, 120),
        "E06" => ("model_checking", emission::everything, { let mut v = huge(deep); v.extend(huge_elsewhere()); v.push(scale(Fmt::Elf, deep)); v }, obj, 600),
        "M01" => ("model_checking", emission::wellformed, universe(Fmt::Macho, deep), obj, 120),
        "M02" => ("model_checking", emission::contents, universe(Fmt::Macho, deep), obj, 120),
        "M03" => ("model_checking", emission::symbols, universe(Fmt::Macho, deep), obj, 120),
        "M04" => ("model_checking", emission::attrs, universe(Fmt::Macho, deep), obj, 120),
        "M05" => ("model_checking", emission::links, universe(Fmt::Macho, deep), obj, 120),
        "M06" => ("model_checking", emission::everything, vec![scale(Fmt::Macho, deep)], obj, 600),
        "X01" => ("model_checking", targets::header, vec![targets::all_targets(), targets::all_systems()], vec![READER, "the table of machines is taken from the ELF and Mach-O specifications and target-lexicon's word sizes and byte orders", BOUND], 60),
        "X02" => ("model_checking", emission::same, {
            // the universe of ELF, and what else that of Mach-O has, on targets of both
            let here = |v: Vec<Family>, t: &'static str| -> Vec<Family> { v.into_iter().map(|x| { let g = x.gen; Family { name: format!("{} ({})", x.name, t), len: x.len, gen: Box::new(move |i| { let mut c = g(i)?; if c.sc.target != ELF64 && c.sc.target != MACHO64 { return None; } c.sc.target = t.into(); Some(c.on(Fmt::Elf)) }) } }).collect() };
            let mut v = here(universe(Fmt::Elf, deep), ELF64);
            v.extend(here(vec![customs(Fmt::Macho), few("debug relocations", debugs(Fmt::Macho), 3), reloc_sequences(Fmt::Macho, 3), few("names", name_shapes(Fmt::Macho, deep), 3)], ELF64));
            v.extend(here(vec![single(Fmt::Elf, any), tuples("full", Fmt::Elf, full_items(), 2, 1), tuples("small", Fmt::Elf, small_items(), 3, 2), meshes(Fmt::Elf, mesh_decls(), 2), graphs(Fmt::Elf, 2, 1, &[0, 5], ALL_KINDS), graphs(Fmt::Elf, 2, 2, &[0, 9], ALL_KINDS), zeros(Fmt::Elf), counts(Fmt::Elf, 60, vec![128, 240]), histories("histories with upgrades", Fmt::Elf, upgrade_alphabet(), d(4, 5))], MACHO64));
            v
        }, obj, 120),
        "X03" => ("model_checking", emission::names, both(|f| { let mut v = vec![names2(f), similar_names(f, deep), name_shapes(f, true), shape_pairs(f, d(60, 300)), name_lengths(f, d(1200, 9000)), name_ladders(f), counts(f, d(100, 300), vec![1000]), scale_of(f, deep, if deep { vec![300, 5000, 65537, 70000] } else { vec![300, 65537] })]; if deep { v.push(names3(f)) } renamed(f, v) }), obj, 120),
        "X04" => ("model_checking", emission::verbatim, both(|f| {
            let mut v = vec![raws(f), debugs(f), shared_names(f), reloc_sequences(f, 3), reloc_sequences(f, d(4, 5)), offsets(f, d(1000, 9000) as u64, &[4096, 65536, 1 << 20]), many_relocs(f, d(130, 300), &[255, 256, 257, 511, 512, 1025]), meshes(f, mesh_decls(), 2), raw_meshes(f), addend_sweep(f, deep), scale_of(f, deep, if deep { vec![300, 5000, 65537, 70000] } else { vec![300, 65537] })];
            if deep { v.push(meshes(f, mesh_decls(), 3)) }
            renamed(f, v)
        }), obj, 120),
        "X05" => ("model_checking", emission::zero, both(|f| {
            let mut v = vec![zeros(f), single(f, zero_able), layout(f, 2, LAYOUT_LENS3, LAYOUT_ALIGNS3), layout(f, 2, LONG_LENS, LONG_ALIGNS), zeros3(f), tuples("full", f, full_items(), 2, 1), tuples("medium", f, medium_items(), 3, 1), tuples("small", f, small_items(), 4, 1), meshes(f, mesh_decls(), 3), zero_sizes(f, d(3000, 70000)), counts(f, 200, vec![256, 300, 1000]), few("names", name_shapes(f, false), 3), scale_of(f, deep, if deep { vec![300, 5000, 65537, 70000] } else { vec![300, 65537] })];
            for t in elsewhere(f) { v.push(on(few("zero-initialized", zeros(f), 7), t)); v.push(on(tuples("full", f, full_items(), 2, 1), t)) }
            if deep { v.push(layout(f, 3, LAYOUT_LENS3, LAYOUT_ALIGNS3)); v.push(tuples("full", f, full_items(), 3, 1)) }
            renamed(f, v)
        }), obj, 120),
        "X06" => ("model_checking", emission::custom, both(|f| {
            let mut v = vec![customs(f), single(f, sections), tuples("medium", f, medium_items(), 2, 1), tuples("full", f, full_items(), 2, 1), tuples("medium", f, medium_items(), 3, 0), tuples("small", f, small_items(), 4, 1), custom_many(f, d(130, 250)), customs3(f), section_names(f), shared_names(f), few("similar names", similar_names(f, deep), 2), symbol_offsets(f, d(400, 5000)), symbol_counts(f, d(60, 300)), lengths(f, d(700, 5000), EDGES), layout(f, 2, LONG_LENS, LONG_ALIGNS), scale_of(f, deep, if deep { vec![300, 5000, 65537, 70000] } else { vec![300, 65537] })];
            for t in elsewhere(f) { v.push(on(customs_few(f), t)); v.push(on(custom_many(f, 40), t)) }
            if deep { v.push(tuples("full", f, full_items(), 3, 1)); v.push(tuples("small", f, small_items(), 5, 1)) }
            renamed(f, v)
        }), obj, 120),
        "X07" => ("model_checking", linker::link, both(|f| { let mut v = vec![linker::one_name(f, 2, false), linker::one_name(f, 3, true), linker::two_names(f, 2)]; if deep { v.push(linker::one_name(f, 3, false)); v.push(linker::one_name(f, 4, true)); } v }), vec![READER, MODEL, "symbol resolution is modelled by the rules of ELF and Mach-O static linking (mc/src/linker.rs), compared with ld and ld.lld during development (DESIGN.md)", BOUND], 120),
        "X08" => ("model_checking", targets::declarations, vec![targets::builders(2, d(4, 5))], vec!["setters are only called with powers of two as alignments", BOUND], 120),
        "X09" => ("model_checking", emission::in_full, both(|f| renamed(f, limits::families(f, deep))), obj, 600),
        _ => return None,
    };
    Some(Prop { id, level, families, check, assumptions, patience })
}
fn zero_able(d: &Decl) -> bool { d.is_data() }
impl Family {
    /// the same artifacts, whatever format they were meant for
    fn into_elf(self) -> Family { let g = self.gen; Family { name: self.name, len: self.len, gen: Box::new(move |i| g(i).map(|c| c.on(Fmt::Elf))) } }
}
/// pairs of names in a few roles, for the properties that aren't about names
fn names_few(f: Fmt) -> Family {
    let fam = names2(f);
    let (name, len, g) = (fam.name, fam.len, fam.gen);
    // every 7th, which is coprime to the number of roles and names: all names and all roles, not all combinations
    family(format!("{}, every 7th", name), len / 7, move |i| g(i * 7))
}
fn names3(f: Fmt) -> Family {
    let t = tricky(f);
    let n = t.len();
    let roles = [0usize, 2, 5, 6, 7, 9];
    family(format!("three names of {} in {} roles", n, roles.len()), (n * n * n * roles.len()) as u64, move |i| {
        let mut x = Ix(i);
        let (r, a, b, c) = (x.n(roles.len()), x.n(n), x.n(n), x.n(n));
        if a == b || b == c || a == c { return None; }
        let mut sc = Scenario::new(tgt(f));
        for (j, k) in [a, b, c].iter().enumerate() { sc = role(sc, roles[(r + j) % roles.len()], &t[*k], j as u32 + 1) }
        Some(Case::new(sc).on(f))
    })
}
fn zeros3(f: Fmt) -> Family {
    let sizes = [0usize, 1, 8, 4097, (1 << 32) - 1, 1 << 33];
    let al = [None, Some(1), Some(32), Some(1 << 16)];
    let k = 6 * 4 * 2;
    family("three of them", (k * k * k) as u64, move |i| {
        let mut x = Ix(i);
        let mut sc = Scenario::new(tgt(f)).declare("m", Decl::func().align(Some(1))).define("m", Bytes::Pat(1, 3));
        for j in 0..3 {
            let d = [Decl::wdata().scope(Scope::Global), Decl::data()][x.n(2)];
            sc = sc.declare(&name_of(j), d.align(*x.of(&al))).zero(&name_of(j), *x.of(&sizes));
        }
        Some(Case::new(sc).on(f))
    })
}
/// every size up to a bound, next to others
fn zero_sizes(f: Fmt, upto: usize) -> Family {
    let mut ns: Vec<usize> = (0..upto).collect();
    for p in 12..46 { ns.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]) }
    family(format!("zero-initialized sizes up to {}, and around powers of two", upto), (ns.len() * 4) as u64, move |i| {
        let mut x = Ix(i);
        let (k, n) = (x.n(4), *x.of(&ns));
        let d = [Decl::wdata(), Decl::wdata().scope(Scope::Global).align(Some(8)), Decl::data().scope(Scope::Weak).align(Some(1)), Decl::cstr().align(Some(64))][k];
        let mut sc = Scenario::new(tgt(f)).declare("m", Decl::wdata().align(Some(1))).zero("m", 3).declare("a", d).zero("a", n).declare("z", Decl::wdata().scope(Scope::Global)).zero("z", 5);
        if k % 2 == 1 { sc = sc.declare("g", Decl::func()).define("g", Bytes::Pat(3, 20)).link("g", "a", 1).link("g", "z", 9) }
        Some(Case::new(sc).on(f))
    })
}
/// custom sections of every shape of name, alone and two at a time
fn section_names(f: Fmt) -> Family {
    let t: Vec<String> = shapes(false).into_iter().filter(|n| f == Fmt::Elf || section_name(f, n).len() <= 16).collect();
    let n = t.len();
    family(format!("{} names of sections", n), (n * 6 * 3) as u64, move |i| {
        let mut x = Ix(i);
        let (k, w, a) = (x.n(6), x.n(3), x.of(&t));
        let m: BTreeMap<String, u64> = if k >= 3 { [("y~".to_string(), 3u64), ("w~".to_string(), 9)].into_iter().collect() } else { BTreeMap::new() };
        let mut sc = Scenario::new(tgt(f)).declare("f~", Decl::func().scope(Scope::Global)).define("f~", Bytes::Pat(1, 9)).declare("s~", Decl::sec(SecKind::Debug)).define("s~", Bytes::Pat(4, 5));
        sc = sc.declare(a, Decl::sec(SECKINDS[k % 3]).align([None, Some(16)][w % 2])).syms(a, blob(2, 9), m);
        if w == 2 { sc = sc.declare("d~", Decl::wdata()).define("d~", Bytes::Pat(5, 4)).link_with(a, "f~", 1, Reloc::Debug { size: 8, addend: 0 }) }
        Some(Case::new(sc).on(f))
    })
}
/// custom symbols at each offset, and beyond
fn symbol_offsets(f: Fmt, upto: usize) -> Family {
    family(format!("custom symbols at offsets up to {}", upto), (upto * 9) as u64, move |i| {
        let mut x = Ix(i);
        let (k, l, at) = (x.n(3), x.n(3), x.n(upto) as u64);
        let len = [at as usize, at as usize + 1, 2 * at as usize + 7][l];
        let at = if at % 50 == 49 && f == Fmt::Elf { at * 1000 } else { at };
        let sc = Scenario::new(tgt(f)).declare("g", Decl::wdata().scope(Scope::Global)).define("g", Bytes::Pat(1, 3)).declare(".s", Decl::sec(SECKINDS[k])).syms(".s", blob(2, len), BTreeMap::from([("p".to_string(), at.min(len as u64)), ("q".to_string(), at.min(len as u64) / 2), ("o".to_string(), 0)])).declare(".t", Decl::sec(SecKind::Debug)).define(".t", Bytes::Pat(3, 3));
        Some(Case::new(sc).on(f))
    })
}
/// many custom symbols in one section, in any order of names and offsets, several at one place
fn symbol_counts(f: Fmt, upto: usize) -> Family {
    family(format!("up to {} custom symbols in a section", upto), (upto * 5 * 3) as u64, move |i| {
        let mut x = Ix(i);
        let (o, k, n) = (x.n(5), x.n(3), x.n(upto));
        let m: BTreeMap<String, u64> = (0..n).map(|j| (format!("{}{}", ["y", "", "_", ".", "Z"][(j + o) % 5], j), match o { 0 => j, 1 => n - j, 2 => j * 7 % (n + 1), 3 => j / 3, _ => 5 } as u64)).collect();
        let sc = Scenario::new(tgt(f)).import("i~", Ik::Func).declare(".s", Decl::sec(SECKINDS[k])).syms(".s", blob(2, n + 6), m).declare("f~", Decl::func().scope(Scope::Global)).define("f~", Bytes::Pat(1, 9)).link("f~", "i~", 1);
        Some(Case::new(sc).on(f))
    })
}
/// pairs of names of related shapes
fn shape_pairs(f: Fmt, upto: usize) -> Family {
    let base = ["f", ".text", "foo", "_", "a.b", "x__debug_y", ".debug_info", "é"];
    let fix = |n: &str, k: usize| -> String { match k { 0 => format!("_{}", n), 1 => format!("{}_", n), 2 => format!(".{}", n), 3 => format!("{}.", n), 4 => format!("{}0", n), 5 => format!(".text.{}", n), 6 => format!(".data.{}", n), 7 => format!(".rodata.{}", n), 8 => format!(".bss.{}", n), 9 => format!(".rela.text.{}", n), 10 => n.to_uppercase(), 11 => n.repeat(2), 12 => format!("{} ", n), 13 => format!(" {}", n), 14 => n.chars().rev().collect::<String>() + "r", 15 => format!(".rela{}", n), 16 => format!("{}.text", n), k => format!("{}{}", n, "q".repeat(k - 16)) } };
    let ks = upto;
    family(format!("pairs of {} names with {} modifications of them", base.len(), ks), (base.len() * ks * ROLES * ROLES) as u64, move |i| {
        let mut x = Ix(i);
        let (r, s, n, k) = (x.n(ROLES), x.n(ROLES), *x.of(&base), x.n(ks));
        let m = fix(n, k);
        if m == n { return None; }
        let mut sc = role(role(Scenario::new(tgt(f)), r, n, 1), s, &m, 2);
        if matches!(r, 0..=2) && s <= 6 { sc = sc.link(n, &m, 1) }
        Some(Case::new(sc).on(f))
    })
}
/// custom symbols with the names of sections (the only names that two things can share), and links from and to these
fn shared_names(f: Fmt) -> Family {
    let types: [u32; 2] = match f { Fmt::Elf => [1, 2], Fmt::Macho => [0, 1] };
    family("custom symbols with names of sections", (125 * 9 * 2 * 2 * 2 * 17 * 2) as u64, move |i| {
        let mut x = Ix(i);
        let (r, k, to, from, nm, o) = (x.n(2), x.n(17), x.n(2), x.n(2), x.n(2), x.n(9));
        let pool = [["s", "t", "u"], [".debug_s", ".debug_t", "__debug_s"]][nm];
        let mut syms: [BTreeMap<String, u64>; 2] = Default::default();
        for n in pool { match x.n(5) { 0 => {} j => { syms[(j - 1) / 2].insert(n.to_string(), [0u64, 4][(j - 1) % 2]); } } }
        let mut sc = Scenario::new(tgt(f)).declare("f", Decl::func()).define("f", Bytes::Pat(1, 20)).import("i", Ik::Data).declare("d", Decl::wdata().scope(Scope::Global)).define("d", Bytes::Pat(2, 16));
        for (j, m) in syms.iter().enumerate() { sc = sc.declare(pool[j], Decl::sec(SECKINDS[[o / 3, o % 3][j]])).syms(pool[j], blob(j as u32 + 3, 20 + j), m.clone()) }
        let reloc = |j: usize| match j { 0 | 1 => Reloc::Raw { reloc: types[j], addend: 0 }, 2 => Reloc::Debug { size: 4, addend: 0 }, _ => Reloc::Debug { size: 8, addend: 0 } };
        // between each section, the other section, and the function, the data and the import
        let (a, b) = (pool[from], pool[to]);
        sc = match k {
            0..=3 => sc.link_with(a, b, 1, reloc(k)),
            4..=7 => sc.link_with(a, ["f", "i"][to], 1, reloc(k - 4)),
            8 | 9 => sc.link_with("f", b, 1 + from as u64, reloc(k - 8)),
            10 | 11 => sc.link_with("d", b, 1 + from as u64, reloc(k - 10)),
            12 => sc.link(a, b, 1),
            13 => sc.link(["f", "d"][from], b, 1),
            14 => sc.link(a, ["f", "i"][to], 1),
            15 => sc.link_with(a, "f", 1, reloc(3)).link_with(b, "i", 9, reloc(3)).link_with(a, "d", 9, reloc(2)),
            _ => sc.link("f", "d", 1).link("d", "i", 0),
        };
        if r == 1 { sc = sc.link("f", "d", 8).link("f", "i", 12).link("d", "f", 8) }
        Some(Case::new(sc).on(f))
    })
}
/// raw and debug relocations between all kinds of things that also have other ones
fn raw_meshes(f: Fmt) -> Family {
    let types: &'static [u32] = match f { Fmt::Elf => &[1, 2, 4, 9, 10, 11, 24, 25, 41, 42], Fmt::Macho => &[0, 1, 2, 3, 4, 5, 8] };
    family("mixed raw relocations", (17 * 17 * types.len() * types.len() * 4) as u64, move |i| {
        let mut x = Ix(i);
        let (a, b, t, u, w) = (x.n(17), x.n(17), *x.of(types), *x.of(types), x.n(4));
        if matches!(a, 8 | 9 | 16) { return None; }
        let mut sc = add_node(add_node(Scenario::new(tgt(f)), 0, a, 24), 1, b, 24).import("i", Ik::Func).import("j", Ik::Data);
        let (na, nb) = (nname(0, a), nname(1, b));
        let raw = |t: u32, k: i32| Reloc::Raw { reloc: t, addend: if f == Fmt::Elf { k } else { 0 } };
        sc = sc.link_with(&na, &nb, 0, raw(t, -4)).link_with(&na, "i", if w & 1 == 0 { 0 } else { 8 }, raw(u, -4)).link_with(&na, "j", if w & 2 == 0 { 0 } else { 16 }, raw(t, 8));
        if !matches!(b, 8 | 9 | 16) { sc = sc.link_with(&nb, &na, 4, raw(u, 0)) }
        if !(13..16).contains(&a) { sc = sc.link(&na, "i", 12).link(&na, "j", 12) }
        Some(Case::new(sc).on(f))
    })
}
/// every addend around zero and around powers of two, with a few types
fn addend_sweep(f: Fmt, deep: bool) -> Family {
    let mut a: Vec<i32> = (-600..=600).collect();
    for p in 9..31 { for k in -3..=3 { a.extend([(1i64 << p) + k, -(1i64 << p) + k].iter().filter_map(|&v| i32::try_from(v).ok())) } }
    a.extend([i32::MAX, i32::MIN, i32::MIN + 1]);
    if deep { a.extend((601..40000).flat_map(|k| [k, -k])) }
    let types: &'static [u32] = match f { Fmt::Elf => &[1, 2, 4, 9, 10, 11, 24, 42], Fmt::Macho => &[0, 1, 2] };
    family(format!("{} addends", a.len()), (a.len() * (types.len() + 2) * 4) as u64, move |i| {
        let mut x = Ix(i);
        let (k, t, v) = (x.n(4), x.n(types.len() + 2), *x.of(&a));
        let sc = Scenario::new(tgt(f)).declare("f", Decl::func()).define("f", Bytes::Pat(1, 20)).declare("g", Decl::func().scope(Scope::Global)).define("g", Bytes::Pat(2, 20)).declare("d", Decl::wdata().scope(Scope::Weak)).define("d", Bytes::Pat(3, 20)).import("i", Ik::Data).declare(".debug_x", Decl::sec(SecKind::Debug)).define(".debug_x", Bytes::Pat(4, 20));
        let r = if t < types.len() { Reloc::Raw { reloc: types[t], addend: v } } else { Reloc::Debug { size: [4, 8][t - types.len()], addend: v } };
        Some(Case::new(sc.link_with(if t < types.len() { "f" } else { ".debug_x" }, ["g", "d", "i", "f"][k], 7, r)).on(f))
    })
}
fn custom_many(f: Fmt, upto: usize) -> Family {
    family(format!("up to {} custom sections", upto), (upto * 4) as u64, move |i| {
        let mut x = Ix(i);
        let (n, k) = (x.n(upto), x.n(4));
        let mut sc = Scenario::new(tgt(f));
        for j in 0..n {
            let nm = if k == 0 { format!(".debug_{}", j) } else { format!("s{}", j) };
            let syms = (0..j % 4).map(|q| (format!("y{}_{}", j, q), (q * 2) as u64)).collect();
            sc = sc.declare(&nm, Decl::sec(if k == 0 { SecKind::Debug } else { SECKINDS[j % 3] }).align([None, Some(8), Some(1)][j % 3])).syms(&nm, blob(j as u32, 7 + j % 5), syms);
            if k >= 2 { let g = format!("g{}", j); sc = sc.declare(&g, if k == 2 { Decl::func() } else { Decl::wdata().scope(Scope::Weak) }).define(&g, Bytes::Pat(j as u32, 3)) }
        }
        Some(Case::new(sc).on(f))
    })
}
fn customs3(f: Fmt) -> Family {
    let its: Vec<Item> = {
        let mut d = vec![Decl::func(), Decl::wdata().scope(Scope::Global), Decl::cstr()];
        for k in SECKINDS { for a in [None, Some(1), Some(32)] { d.push(Decl::sec(k).align(a)) } }
        items(&d, &[0, 6, 9], &[7])
    };
    tuples("sections", f, its, 3, 1)
}
fn pure_families(deep: bool) -> Vec<Family> {
    let with = |x: Family, mode: &'static str, seeds: usize| -> Family { let g = x.gen; Family { name: format!("{} ({})", x.name, mode), len: x.len, gen: Box::new(move |i| g(i).map(|c| c.with("mode", mode).with("seeds", seeds))) } };
    let f = Fmt::Elf;
    let mut v = vec![
        with(tuples("small", f, small_items(), 2, 1), "full", 3),
        with(graphs(f, 2, 1, &[0, 5], ALL_KINDS), "full", 3),
        with(customs_few(f), "brief", 4),
        with(counts(f, 40, vec![64, 130, 300, 1000]), "brief", 4),
        with(histories("histories with upgrades", f, upgrade_alphabet(), 3), "full", 2),
        with(reloc_sequences(f, 2), "brief", 3),
        with(counts(f, 0, vec![5000]), "brief", 1),
        merges(deep),
    ];
    if deep {
        v.push(with(tuples("small", f, small_items(), 3, 1), "brief", 8));
        v.push(with(histories("histories with upgrades", f, upgrade_alphabet(), 4), "full", 3));
        v.push(with(customs(f), "brief", 8));
        v.push(with(graphs(f, 3, 2, &[0, 9], CORE_KINDS), "brief", 4));
    }
    v
}
fn customs_few(f: Fmt) -> Family { few("custom sections", customs(f), 13) }
/// two artifacts that are made at the same time: all interleavings of their calls
fn merges(deep: bool) -> Family {
    let s = |x: &str| x.to_string();
    let a: Vec<Vec<Op>> = vec![
        vec![Op::DeclareWith(s("f"), Decl::func(), Bytes::Pat(1, 9)), Op::Import(s("i"), Ik::Func), Op::Link(s("f"), s("i"), 1), Op::DeclareWith(s("d"), Decl::wdata(), Bytes::Pat(2, 3))],
        vec![Op::Declare(s("z"), Decl::wdata().scope(Scope::Global)), Op::DefineZero(s("z"), 9), Op::DeclareWith(s("g"), Decl::func().scope(Scope::Weak), Bytes::Pat(1, 9)), Op::Link(s("g"), s("z"), 2)],
        vec![Op::Import(s("a"), Ik::Data), Op::DeclareWith(s("a"), Decl::data(), Bytes::Pat(4, 4)), Op::DeclareWith(s(".s"), Decl::sec(SecKind::Debug), Bytes::Pat(3, 9)), Op::DeclareWith(s("b"), Decl::cstr(), Bytes::Str(1, 5))],
    ];
    let k = a.len();
    let orders = if deep { 256 } else { 256 };
    family("two artifacts, all interleavings of their calls", (k * k * orders) as u64, move |i| {
        let mut x = Ix(i);
        let (p, q, m) = (x.n(k), x.n(k), x.n(orders));
        // each way to take eight calls, four from each
        if (m as u32).count_ones() != 4 { return None; }
        let mut sc = Scenario::new(ELF64);
        sc.ops = a[p].clone();
        let mut o = Scenario::new(ELF64);
        o.ops = a[q].clone();
        let mut c = Case::new(sc).with("mode", "brief").with("seeds", 1).with("merge", m);
        c.more = vec![o];
        Some(c)
    })
}
