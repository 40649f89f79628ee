//! X09: values at and beyond the limits of the formats. Which of them have to be refused is decided in `emission::domain`.
use crate::families::*;
use crate::types::*;

const ELFS: [&str; 7] = [ELF64, "i686-unknown-linux-gnu", "arm-unknown-linux-gnueabi", "mips-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "powerpc64-unknown-linux-gnu", "riscv32-unknown-none-elf"];
const MACHOS: [&str; 5] = [MACHO64, "i686-apple-darwin", "armv7-apple-ios", "aarch64-apple-darwin", "powerpc-apple-darwin"];
fn targets(f: Fmt) -> &'static [&'static str] { match f { Fmt::Elf => &ELFS, Fmt::Macho => &MACHOS } }
/// (big-endian Mach-O relocations are another matter, see X01)
fn links_ok(f: Fmt, t: &str) -> bool { f == Fmt::Elf || !t.starts_with("powerpc") }
fn raw(f: Fmt, k: u32) -> Reloc { Reloc::Raw { reloc: k, addend: if f == Fmt::Elf { -4 } else { 0 } } }

/// around all powers of two from 2^lo on
fn around(lo: u32, deep: bool) -> Vec<u64> {
    let r = if deep { 9i128 } else { 2 };
    let mut v: Vec<u64> = (lo..=64).flat_map(|p| (-r..=r).map(move |k| (1i128 << p) + k)).filter_map(|x| u64::try_from(x).ok()).collect();
    // sums that exceed a power of two only together, or wrap around to something small
    for p in [31u32, 32, 33, 40, 48, 63, 64] { for k in [3i128, 16, 24, 100, 4096, 65536, 1 << 24] { v.extend([(1i128 << p) - k, (1i128 << p) + k].iter().filter_map(|&x| u64::try_from(x).ok())) } }
    for p in [31u32, 32, 63] { v.extend([3u64 << (p - 1), (3u64 << (p - 1)) + 5]) }
    v.sort();
    v.dedup();
    v
}
pub fn families(f: Fmt, deep: bool) -> Vec<Family> {
    let ts = targets(f);
    let mut out = vec![];
    let vs = around(24, deep);
    let als = [None, Some(1u64), Some(16), Some(4096), Some(1 << 31), Some(1 << 32), Some(1 << 40)];
    out.push(family(format!("{} zero-initialized sizes x alignments x neighbours", vs.len()), (vs.len() * als.len() * 6 * ts.len()) as u64, { let vs = vs.clone(); move |i| {
        let mut x = Ix(i);
        let (t, w, a, n) = (*x.of(ts), x.n(6), *x.of(&als), *x.of(&vs) as usize);
        let z = Decl::wdata().scope([Scope::Local, Scope::Global, Scope::Weak][w % 3]).align(a);
        let mut sc = Scenario::new(t);
        if w & 1 == 1 { sc = sc.declare("a", Decl::wdata().scope(Scope::Global)).zero("a", 5) }
        sc = sc.declare("m", z).zero("m", n);
        if w >= 2 { sc = sc.declare("z", Decl::wdata().align(Some(8))).zero("z", 7).declare("f", Decl::func()).define("f", Bytes::Pat(1, 33)) }
        if w >= 4 && links_ok(f, t) { sc = sc.link_with("f", "m", 9, raw(f, 1)).link_with("f", "z", 21, raw(f, 2)) }
        Some(Case::new(sc).on(f))
    } }));
    // sizes of several that only together are too large
    let few: Vec<u64> = { let mut v = vec![1, 4096, 1 << 20]; for p in [30u32, 31, 32, 33, 62, 63] { v.extend([(1u64 << p) - 1, 1 << p, (1 << p) + 1]) } v.extend([(1 << 32) - 16, u64::MAX - 4096, u64::MAX - 16, u64::MAX]); v };
    let k = few.len();
    out.push(family(format!("triples of {} zero-initialized sizes", k), (k * k * k * ts.len() * 2) as u64, { let few = few.clone(); move |i| {
        let mut x = Ix(i);
        let (t, w) = (*x.of(ts), x.n(2));
        let mut sc = Scenario::new(t);
        if w == 1 { sc = sc.declare("f", Decl::func()).define("f", Bytes::Pat(1, 33)).declare(".debug_x", Decl::sec(SecKind::Debug)).syms(".debug_x", blob(2, 20), [("y".to_string(), 7u64)].into_iter().collect()) }
        for j in 0..3 { sc = sc.declare(&name_of(j), Decl::wdata().scope(SCOPES[j])).zero(&name_of(j), *x.of(&few) as usize) }
        if w == 1 && links_ok(f, t) { sc = sc.link_with("f", &name_of(1), 4, raw(f, 1)) }
        Some(Case::new(sc).on(f))
    } }));
    // custom symbols far beyond their section
    out.push(family(format!("{} offsets of custom symbols", vs.len()), (vs.len() * 3 * 3 * ts.len()) as u64, { let vs = vs.clone(); move |i| {
        let mut x = Ix(i);
        let (t, s, w, n) = (*x.of(ts), SECKINDS[x.n(3)], x.n(3), *x.of(&vs));
        let mut sc = Scenario::new(t);
        if w >= 1 { sc = sc.declare("f", Decl::func().scope(Scope::Global)).define("f", Bytes::Pat(1, 33)) }
        let mut m: std::collections::BTreeMap<String, u64> = [("y".to_string(), n)].into_iter().collect();
        if w == 2 { m.insert("x".into(), 3); m.insert("w".into(), n / 2); }
        sc = sc.declare("s", Decl::sec(s).align(if w == 1 { Some(16) } else { None })).syms("s", blob(2, 20), m);
        Some(Case::new(sc).on(f))
    } }));
    // alignments, where only the first of a section can be so aligned without huge padding
    out.push(family("alignments 2^16..2^63 on all targets", (48 * 8 * ts.len()) as u64, move |i| {
        let mut x = Ix(i);
        let (t, k, p) = (*x.of(ts), x.n(8), 16 + x.n(48));
        let a = Some(1u64 << p);
        let sc = Scenario::new(t);
        let sc = match k {
            0 => sc.declare("m", Decl::func().align(a)).define("m", Bytes::Pat(1, 9)),
            1 => sc.declare("m", Decl::wdata().align(a)).define("m", Bytes::Pat(1, 9)),
            2 => sc.declare("m", Decl::cstr().align(a)).define("m", Bytes::Str(1, 9)),
            3 => sc.declare("m", Decl::wdata().align(a)).zero("m", 9),
            4 => sc.declare("s", Decl::sec(SecKind::Data).align(a)).define("s", Bytes::Pat(1, 9)),
            5 => sc.declare("a", Decl::func()).define("a", Bytes::Pat(2, 3)).declare("m", Decl::wdata().align(a)).define("m", Bytes::Pat(1, 9)),
            // padding in memory only
            6 => sc.declare("a", Decl::wdata()).zero("a", 3).declare("m", Decl::wdata().align(a)).zero("m", 9).declare("z", Decl::wdata().align(a)).zero("z", 9),
            // padding in the file: it either fits easily, or has to be refused
            _ => { if f == Fmt::Macho && (25..32).contains(&p) { return None; } sc.declare("a", Decl::wdata()).define("a", Bytes::Pat(2, 3)).declare("m", Decl::wdata().align(a)).define("m", Bytes::Pat(1, 9)) }
        };
        Some(Case::new(sc).on(f))
    }));
    // relocation types
    let types: Vec<u32> = (0..=300u32).chain(around(9, deep).into_iter().filter_map(|v| u32::try_from(v).ok())).collect();
    out.push(family(format!("{} relocation types on all targets", types.len()), (types.len() * 4 * ts.len()) as u64, move |i| {
        let mut x = Ix(i);
        let (t, k, r) = (*x.of(ts), x.n(4), *x.of(&types));
        if !links_ok(f, t) { return None; }
        let sc = Scenario::new(t).declare("f", Decl::func()).define("f", Bytes::Pat(1, 33)).declare("g", Decl::wdata().scope(SCOPES[k % 3])).define("g", Bytes::Pat(2, 9)).import("i", Ik::Func).declare("h", Decl::func()).define("h", Bytes::Pat(3, 33));
        Some(Case::new(sc.link_with("f", if k == 3 { "i" } else { "g" }, 7, raw(f, r)).link_with("h", "i", 3, raw(f, 1))).on(f))
    }));
    if f == Fmt::Macho {
        out.push(family("lengths of section names", (40 * 3 * 4 * ts.len()) as u64, move |i| {
            let mut x = Ix(i);
            let (t, s, w, n) = (*x.of(ts), SECKINDS[x.n(3)], x.n(4), 1 + x.n(40));
            let nm = match w { 3 if n > 8 => format!(".debug_{}", "x".repeat(n - 7)), 3 => return None, 2 => "é".repeat(n / 2 + 1), _ => "s".repeat(n) };
            let mut sc = Scenario::new(t).declare(&nm, Decl::sec(s)).define(&nm, Bytes::Pat(1, 9));
            if w == 1 { sc = sc.declare("ssss", Decl::func()).define("ssss", Bytes::Pat(2, 9)).declare("s", Decl::data()).define("s", Bytes::Pat(2, 9)); if n == 1 || n == 4 { return None; } }
            Some(Case::new(sc).on(f))
        }));
        out.push(family("numbers of sections", (60 * ts.len()) as u64, move |i| {
            let mut x = Ix(i);
            let (t, n) = (*x.of(ts), 240 + x.n(60));
            let mut sc = Scenario::new(t);
            for j in 0..n { let nm = format!("s{}", j); sc = sc.declare(&nm, Decl::sec(SECKINDS[j % 3])).define(&nm, Bytes::Pat(j as u32, 3)) }
            Some(Case::new(sc).on(f))
        }));
    }
    // gigabytes of contents
    let heavy: Vec<(usize, u64)> = if deep { vec![((1 << 31) - 8, (1 << 31) - 16), ((1 << 31) + 40, (1 << 31) - 1), ((1 << 31) + 40, 1 << 31), ((1 << 31) + 40, (1 << 31) + 30), ((1 << 32) - 4096, 5), ((1 << 32) - 4096, (1 << 32) - 5000), (1 << 32, 5), ((1 << 32) + 40, (1 << 32) + 20)] } else { vec![((1 << 31) + 40, 1 << 31), ((1 << 31) + 40, (1 << 31) - 1)] };
    let ht: &'static [&'static str] = if deep { &ts[..2] } else { &ts[..1] };
    out.push(family("gigabytes of contents", (heavy.len() * ht.len()) as u64, move |i| {
        let mut x = Ix(i);
        let (t, (n, at)) = (*x.of(ht), *x.of(&heavy));
        let sc = Scenario::new(t).declare("m", Decl::wdata().scope(Scope::Global)).define("m", Bytes::Fill(0x5a, n)).declare("z", Decl::func()).define("z", Bytes::Pat(1, 33)).import("i", Ik::Data).link_with("m", "i", at, raw(f, 1)).link_with("m", "z", 8, raw(f, 1)).link_with("z", "m", 8, raw(f, 2));
        Some(Case::new(sc).on(f).with("heavy", 1))
    }));
    out
}
