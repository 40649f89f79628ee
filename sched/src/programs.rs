//! What the threads do.
use crate::types::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act { /// make the artifact, with all its calls, and emit it
    Build(usize, Fmt), /// the shared one
    Emit(usize, Fmt), Query(usize), Clone(usize, Fmt), File(usize, Fmt) }
impl Act {
    pub fn shared(&self) -> Option<usize> { match *self { Act::Build(..) => None, Act::Emit(i, _) | Act::Query(i) | Act::Clone(i, _) | Act::File(i, _) => Some(i) } }
    pub fn put(&self) -> String {
        let f = |f: &Fmt| if *f == Fmt::Elf { "elf" } else { "macho" };
        match self { Act::Build(i, x) => format!("build:{}:{}", i, f(x)), Act::Emit(i, x) => format!("emit:{}:{}", i, f(x)), Act::Query(i) => format!("query:{}", i), Act::Clone(i, x) => format!("clone:{}:{}", i, f(x)), Act::File(i, x) => format!("file:{}:{}", i, f(x)) }
    }
    pub fn get(s: &str) -> Option<Act> {
        let mut w = s.split(':');
        let (k, i) = (w.next()?, w.next()?.parse().ok()?);
        let f = if w.next() == Some("macho") { Fmt::Macho } else { Fmt::Elf };
        Some(match k { "build" => Act::Build(i, f), "emit" => Act::Emit(i, f), "query" => Act::Query(i), "clone" => Act::Clone(i, f), "file" => Act::File(i, f), _ => return None })
    }
}
#[derive(Clone, Debug)]
pub struct Test { pub threads: Vec<Vec<Act>>, /// before the threads start
    pub before: Vec<Act>, pub log: bool, pub fine: bool, /// preemptions anywhere
    pub bound: u32, /// preemptions altogether
    pub deep: u32, /// most schedules of the test
    pub limit: u64 }
impl Test {
    pub fn put(&self) -> String {
        let l = |v: &Vec<Act>| v.iter().map(|a| format!(" {}", a.put())).collect::<String>();
        let mut o = String::new();
        if !self.before.is_empty() { o += &format!("before{}\n", l(&self.before)) }
        for t in &self.threads { o += &format!("thread{}\n", l(t)) }
        o + &format!("options bound:{}:{}:{}{}{}\n", self.bound, self.deep, self.limit, if self.log { " log" } else { "" }, if self.fine { " fine" } else { "" })
    }
    pub fn get(text: &str) -> Option<(Test, Vec<(u32, u32)>)> {
        let (mut t, mut s) = (Test { threads: vec![], before: vec![], log: false, fine: false, bound: 0, deep: 0, limit: 0 }, vec![]);
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let acts = || w[1..].iter().map(|x| Act::get(x)).collect::<Option<Vec<_>>>();
            match w.first().copied() {
                Some("before") => t.before = acts()?,
                Some("thread") => t.threads.push(acts()?),
                Some("options") => { t.log = w.contains(&"log"); t.fine = w.contains(&"fine"); let mut b = w[1].split(':').skip(1); t.bound = b.next()?.parse().ok()?; t.deep = b.next()?.parse().ok()?; t.limit = b.next()?.parse().ok()? }
                Some("schedule") => for x in &w[1..] { let (a, b) = x.split_once(':')?; s.push((a.parse().ok()?, b.parse().ok()?)) },
                _ => {}
            }
        }
        if t.threads.is_empty() { None } else { Some((t, s)) }
    }
}

/// artifacts of all kinds, with names in common
pub fn scenarios() -> Vec<Scenario> {
    let sc = |t| Scenario::new(t);
    let pat = |s, n| Bytes::Pat(s, n);
    let f = Decl::func();
    let g = |d: Decl| d.scope(Scope::Global);
    vec![
        sc(ELF64).declare("f", g(f)).declare("g", f).import("h", Ik::Func).define("f", pat(1, 24)).define("g", pat(2, 9)).link("f", "g", 3).link("f", "h", 12).link("g", "f", 2),
        sc(MACHO64).import("h", Ik::Data).declare("s", Decl::cstr()).declare("d", g(Decl::wdata()).align(Some(32))).declare("w", Decl::data().scope(Scope::Weak).vis(Vis::Hidden)).declare("f", f.scope(Scope::Weak))
            .define("s", Bytes::Str(3, 8)).define("d", pat(4, 40)).define("w", pat(5, 3)).define("f", pat(6, 16)).link("d", "s", 0).link("d", "h", 8).link("f", "w", 4).link("f", "d", 8),
        sc(ELF64).declare(".custom", Decl::sec(SecKind::Data)).declare(".debug_info", Decl::sec(SecKind::Debug)).declare("f", f).declare(".debug_str", Decl::sec(SecKind::Debug).dt(Dt::Str))
            .syms(".custom", Payload::Blob(pat(7, 30)), [("c0".to_string(), 0), ("c1".to_string(), 17)].into_iter().collect::<BTreeMap<_, _>>()).define(".debug_info", pat(8, 40)).define("f", pat(9, 8)).define(".debug_str", Bytes::Str(2, 12))
            .link_with(".debug_info", ".debug_str", 4, Reloc::Debug { size: 4, addend: 7 }).link_with(".debug_info", "f", 16, Reloc::Debug { size: 8, addend: 0 }).link_with("f", ".custom", 0, Reloc::Raw { reloc: 2, addend: 0 }),
        sc(ELF64).declare("z", g(Decl::wdata()).align(Some(64))).declare("f", g(f).align(Some(32))).declare("d", Decl::data()).zero("z", 1000).define("f", pat(1, 33)).define("d", pat(2, 16)).link("d", "z", 0).link("f", "z", 7).link("d", "f", 8),
        sc("powerpc64-unknown-linux-gnu").declare("f", f).declare("g", g(f).vis(Vis::Protected)).import("d", Ik::Data).define("f", pat(11, 20)).define("g", pat(12, 20)).link_with("f", "d", 4, Reloc::Raw { reloc: 10, addend: -4 }).link_with("g", "f", 8, Reloc::Raw { reloc: 26, addend: 100 }),
        // calls that fail, and emissions
        sc(ELF64).declare("f", f).import("f", Ik::Func).declare("f", Decl::data()).define("f", pat(1, 4)).define("f", pat(2, 4)).link("f", "nobody", 0).link("h", "f", 0).declare("g", f).define("h", pat(1, 1)),
        {
            let mut s = sc("i386-unknown-linux-gnu").import("i0", Ik::Func).import("i1", Ik::Data);
            for k in 0..5 { s = s.declare(&format!("f{}", k), if k % 3 == 0 { g(f) } else { f }).declare(&format!("d{}", k), Decl::data().writable(k % 2 == 0)) }
            for k in 0..5 { s = s.define(&format!("f{}", k), pat(k, 17 + k as usize)).define(&format!("d{}", k), pat(50 + k, 9)) }
            for k in 0..5 { s = s.link(&format!("f{}", k), &format!("d{}", (k + 3) % 5), 4).link(&format!("d{}", k), if k % 4 == 0 { "i1" } else { "f3" }, 0) }
            s
        },
    ]
}

pub fn tests(thorough: bool) -> Vec<Test> {
    let n = scenarios().len();
    let mut v = vec![];
    let fm = [Fmt::Elf, Fmt::Macho];
    let t = |threads, before: &[Act], bound| Test { threads, before: before.to_vec(), log: false, fine: false, bound, deep: 3, limit: 60_000 };
    // one artifact, two threads
    for i in 0..n {
        for f in fm { for w in [vec![], vec![Act::Emit(i, f)], vec![Act::Emit((i + 1) % n, Fmt::Elf), Act::Emit((i + 2) % n, Fmt::Macho)]] {
            for g in fm { if f <= g { v.push(t(vec![vec![Act::Emit(i, f)], vec![Act::Emit(i, g)]], &w, if thorough && i < 6 { 2 } else { 1 })) } }
            v.push(t(vec![vec![Act::Emit(i, f)], vec![Act::Query(i), Act::Clone(i, f)]], &w, 1));
            v.push(t(vec![vec![Act::Emit(i, f)], vec![Act::File(i, f)]], &w, 1));
            v.push(t(vec![vec![Act::File(i, f)], vec![Act::File(i, f)]], &w, 1));
        } }
    }
    // two artifacts
    for i in 0..n { for j in 0..n { for f in fm { for g in fm {
        // (many points)
        if !thorough && (i == 6 || j == 6) && (i + j != 9 || f != g) { continue; }
        for w in [vec![], vec![Act::Build(j, f)]] {
            if !thorough && !w.is_empty() && (f == g || i == j) { continue; }
            if (i, f) <= (j, g) { v.push(t(vec![vec![Act::Build(i, f)], vec![Act::Build(j, g)]], &w, 1)); }
            v.push(t(vec![vec![Act::Emit(i, f)], vec![Act::Build(j, g)]], &w, 1));
        }
        if (i, f) <= (j, g) && (thorough || (i + j) % 2 == 1) { v.push(Test { deep: 2, ..t(vec![vec![Act::Emit(i, f), Act::Emit(j, g)], vec![Act::Emit(j, g), Act::Emit(i, f)]], &[], 1) }) }
    } } } }
    // three threads
    for i in 0..n { for f in fm {
        let j = (i + 1) % n;
        if !thorough && (i > 3 || j == 6) { continue; }
        v.push(Test { deep: 1, ..t(vec![vec![Act::Emit(i, f)], vec![Act::Emit(i, f)], vec![Act::Emit(j, f)]], &[], 1) });
        v.push(Test { deep: 1, ..t(vec![vec![Act::Build(i, f)], vec![Act::Emit(i, f)], vec![Act::Emit(j, Fmt::Elf)]], &[], 1) });
    } }
    // with somebody listening to the log, and with all calls of functions as points
    for i in 0..n { for j in [i, (i + 3) % n] { for f in fm {
        v.push(Test { log: true, ..t(vec![vec![Act::Emit(i, f)], vec![Act::Emit(j, f)]], &[], 1) });
        v.push(Test { log: true, ..t(vec![vec![Act::Build(i, f)], vec![Act::Emit(j, f)]], &[], 1) });
        // (many calls)
        if !thorough && (i == 6 || j == 6) { continue; }
        if i == j { for w in [vec![], vec![Act::Emit(j, f)]] { v.push(Test { fine: true, deep: 1, ..t(vec![vec![Act::Emit(i, f)], vec![Act::Emit(j, f)]], &w, 1) }); } }
        if i != j { v.push(Test { fine: true, deep: 1, ..t(vec![vec![Act::Build(i, f)], vec![Act::Build(j, f)]], &[], 1) }); }
    } } }
    // the largest first
    v.sort_by_key(|t| std::cmp::Reverse((t.bound, t.fine, t.threads.len())));
    v
}
