//! Call histories: every sequence of calls out of an alphabet, against the reference model, step by step.
use crate::drive::{self, Out};
use crate::families::*;
use crate::model::*;
use crate::runner::{Found, Stats};
use crate::types::*;
use crate::view::*;
use faerie::{Artifact, BinaryFormat};
use std::collections::BTreeMap;

fn st(x: &str) -> String { x.into() }
fn dec(n: &str, d: Decl) -> Op { Op::Declare(st(n), d) }
fn def(n: &str, k: u32) -> Op { Op::Define(st(n), Bytes::Pat(k, 8)) }
fn sy(v: &[(&str, u64)]) -> BTreeMap<String, u64> { v.iter().map(|(k, v)| (k.to_string(), *v)).collect() }

/// the calls that are combined
pub fn alphabet(name: &str) -> Vec<Op> {
    let gfunc = Decl::func().scope(Scope::Global);
    match name {
        // everything that can be said about one name
        "one" => vec![
            Op::Import(st("a"), Ik::Func), dec("a", gfunc), dec("a", Decl::func()), dec("a", Decl::wdata()), Op::Import(st("a"), Ik::Data), def("a", 1),
            dec("a", Decl::func().align(Some(16))), dec("a", gfunc.vis(Vis::Hidden)), dec("a", Decl::data()), dec("a", Decl::data().scope(Scope::Weak)), dec("a", Decl::sec(SecKind::Data)), dec("a", Decl::sec(SecKind::Debug)), dec("a", Decl::cstr()),
        ],
        // several names, imports and upgrades: positions within the list of imports
        "imports" => ["a", "b", "c"].iter().flat_map(|n| vec![Op::Import(st(n), Ik::Func), Op::Import(st(n), Ik::Data), dec(n, Decl::func()), dec(n, Decl::wdata())]).collect(),
        "mixed" => vec![
            Op::Import(st("a"), Ik::Func), dec("a", Decl::func()), def("a", 1), Op::Import(st("b"), Ik::Data), dec("b", Decl::wdata()), def("b", 2),
            Op::Declarations(vec![(st("a"), Decl::func()), (st("b"), Decl::func()), (st("c"), Decl::Import(Ik::Func))]),
            Op::Declarations(vec![(st("c"), Decl::Import(Ik::Data)), (st("b"), Decl::Import(Ik::Data))]),
            Op::DeclareWith(st("c"), Decl::data(), Bytes::Pat(3, 4)), Op::DeclareWith(st("a"), gfunc, Bytes::Pat(4, 4)), Op::Link(st("a"), st("b"), 0), Op::Emit(Fmt::Elf), Op::Emit(Fmt::Macho),
        ],
        "define" => vec![
            dec("a", Decl::func()), Op::Import(st("a"), Ik::Func), dec("a", Decl::wdata()), dec("a", Decl::sec(SecKind::Data)), Op::Import(st("a"), Ik::Data),
            def("a", 1), Op::DefineZero(st("a"), 3), Op::DefineSyms(st("a"), blob(2, 4), sy(&[("y", 1)])), Op::DefineSyms(st("a"), Payload::Zero(4), sy(&[])), Op::DefineSyms(st("a"), Payload::Zero(4), sy(&[("y", 1)])), Op::DefineSyms(st("a"), blob(3, 0), sy(&[])),
            Op::DeclareWith(st("a"), Decl::func(), Bytes::Pat(5, 5)), Op::DeclareWith(st("a"), Decl::wdata(), Bytes::Pat(5, 0)),
        ],
        "define2" => ["a", "b"].iter().flat_map(|n| vec![dec(n, Decl::func()), dec(n, Decl::wdata()), Op::Import(st(n), Ik::Func), def(n, 1), Op::DefineZero(st(n), 2), Op::DefineSyms(st(n), blob(1, 3), sy(&[("a", 0)])), dec(n, Decl::sec(SecKind::Debug))]).collect(),
        "link" => {
            let mut v = vec![dec("a", Decl::func()), Op::Import(st("a"), Ik::Func), dec("b", Decl::wdata()), Op::Import(st("b"), Ik::Data), def("a", 1), Op::DeclareWith(st("c"), Decl::sec(SecKind::Debug), Bytes::Pat(1, 16))];
            for (f, t) in [("a", "b"), ("b", "a"), ("a", "a"), ("a", "c"), ("b", "b")] { v.push(Op::Link(st(f), st(t), 3)) }
            v.push(Op::LinkWith(st("c"), st("a"), 1, Reloc::Debug { size: 8, addend: 1 }));
            v.push(Op::LinkWith(st("b"), st("a"), u64::MAX, Reloc::Raw { reloc: 7, addend: -1 }));
            v
        }
        // calls that get rejected at one time or another, with few names
        "reject" => vec![
            dec("a", gfunc), Op::Import(st("a"), Ik::Func), dec("a", Decl::wdata()), def("a", 1), Op::DefineSyms(st("a"), blob(2, 9), sy(&[("y", 1)])), Op::DefineZero(st("a"), 5),
            dec("b", Decl::wdata()), Op::Import(st("b"), Ik::Data), dec("b", Decl::sec(SecKind::Data)), def("b", 3), Op::DefineZero(st("b"), 7),
            Op::Link(st("a"), st("b"), 1), Op::Link(st("b"), st("a"), 0), Op::Link(st("a"), st("c"), 2),
            Op::Declarations(vec![(st("c"), Decl::Import(Ik::Func)), (st("a"), Decl::data()), (st("d"), Decl::Import(Ik::Data))]), Op::DeclareWith(st("b"), Decl::data(), Bytes::Pat(4, 4)),
        ],
        // names that are first seen in a rejected call
        "intern" => vec![
            def("b", 1), Op::Link(st("b"), st("a"), 0), dec("a", Decl::func()), dec("b", Decl::func()), dec("c", Decl::func()), def("a", 2), def("c", 3), Op::Import(st("z"), Ik::Func), def("z", 4), Op::Link(st("a"), st("z"), 1), Op::Link(st("c"), st("a"), 1), Op::DefineZero(st("c"), 1),
        ],
        "sections" => vec![
            dec(".s", Decl::sec(SecKind::Data)), dec(".t", Decl::sec(SecKind::Debug)), dec("a", Decl::func()), Op::Import(st("i"), Ik::Func), def("a", 1),
            Op::DefineSyms(st(".s"), blob(1, 4), sy(&[("y", 1)])), Op::DefineSyms(st(".s"), blob(1, 4), sy(&[("a", 1), ("q", 2)])), Op::DefineSyms(st(".t"), blob(2, 4), sy(&[("y", 1), (".s", 0)])), Op::DefineSyms(st(".t"), blob(2, 4), sy(&[("i", 3)])),
            def(".t", 4), dec("y", Decl::wdata()), Op::DefineZero(st("y"), 3), Op::DefineZero(st(".s"), 3), Op::Import(st("y"), Ik::Data),
        ],
        // (no links to and from sections, which not every backend has)
        "emit" => vec![
            dec("a", gfunc), Op::Import(st("a"), Ik::Func), def("a", 1), dec("b", Decl::wdata()), def("b", 2), Op::DefineZero(st("b"), 9), dec(".s", Decl::sec(SecKind::Data)), def(".s", 3), Op::DefineSyms(st(".s"), blob(1, 4), sy(&[("b", 1), ("q", 0)])),
            Op::Import(st("q"), Ik::Data), Op::Link(st("a"), st("b"), 1), Op::Import(st("b"), Ik::Data),
        ],
        _ => panic!("no alphabet {}", name),
    }
}
pub fn start_ops(name: &str) -> Vec<Op> {
    match name {
        "imported" => ["a", "b", "c", "d"].iter().enumerate().map(|(i, n)| Op::Import(st(n), if i % 2 == 0 { Ik::Func } else { Ik::Data })).collect(),
        "defined" => vec![dec("a", Decl::func().scope(Scope::Global)), def("a", 1), dec("b", Decl::wdata()), def("b", 2), Op::Import(st("c"), Ik::Func)],
        "declared" => vec![dec("a", Decl::func().scope(Scope::Global)), dec("b", Decl::wdata()), Op::Import(st("c"), Ik::Func), Op::Link(st("a"), st("b"), 0)],
        // among many others
        "many" => {
            let mut v = vec![];
            for j in 0..70 {
                let n = format!("m{}", j);
                if j == 20 { v.push(Op::Import(st("b"), Ik::Func)) }
                if j == 40 { v.push(Op::Import(st("a"), Ik::Func)) }
                match j % 5 { 0 => v.push(Op::Import(n, Ik::Func)), 1 => v.push(Op::Import(n, Ik::Data)), 2 => v.push(Op::DeclareWith(n, Decl::func().scope(SCOPES[j % 3]), Bytes::Pat(j as u32, 9))), 3 => { v.push(Op::Import(n.clone(), Ik::Data)); v.push(Op::DeclareWith(n, Decl::wdata(), Bytes::Pat(j as u32, 9))) } _ => { v.push(dec(&n, Decl::sec(SecKind::Data))); v.push(def(&n, j as u32)) } }
                if j % 7 == 2 { v.push(Op::Link(format!("m{}", j / 5 * 5 + 2), st("b"), 1)) }
            }
            // (only those that make sense)
            let mut m = Model::default();
            v.retain(|o| m.step(o).is_ok());
            v
        }
        _ => vec![],
    }
}

/// all sequences of exactly `prefix` calls, each of which is explored further to `depth`
pub fn tree(name: &'static str, start: &'static str, prefix: usize, depth: usize, target: &'static str) -> Family {
    let al = alphabet(name);
    let k = al.len() as u64;
    family(format!("all sequences of up to {} of {} calls ({}{}{}), on {}", depth, k, name, if start.is_empty() { "" } else { " after " }, start, target), k.pow(prefix as u32), move |i| {
        let mut x = Ix(i);
        let mut sc = Scenario::new(target);
        sc.ops = start_ops(start);
        let mut v: Vec<Op> = (0..prefix).map(|_| x.of(&al).clone()).collect();
        v.reverse();
        sc.ops.extend(v);
        Some(Case::new(sc).with("tree", name).with("more", depth - prefix).with("first", if i % k.pow(prefix as u32 - 1) == 0 { "1" } else { "" }).with("prefix", prefix))
    })
}
/// single sequences, checked as they are
pub fn seqs(name: &str, len: u64, gen: impl Fn(u64) -> Option<Vec<Op>> + Send + Sync + 'static) -> Family {
    family(name, len, move |i| { let mut sc = Scenario::new(ELF64); sc.ops = gen(i)?; Some(Case::new(sc)) })
}
/// pairs of names that are easily taken for the same one
pub fn similar_names(deep: bool) -> Family {
    let v = similar(deep);
    seqs(&format!("histories about {} pairs of similar names", v.len()), (v.len() * 4) as u64, move |i| {
        let mut x = Ix(i);
        let (w, (a, b)) = (x.n(4), x.of(&v));
        let f = Decl::func().scope(Scope::Global);
        // (which Mach-O cannot have)
        if w == 2 && section_name(Fmt::Macho, a).len() > 16 { return None; }
        Some(match w {
            0 => vec![Op::Import(a.clone(), Ik::Func), dec(b, f), def(b, 1), def(a, 2), Op::Import(b.clone(), Ik::Data), dec(a, Decl::data()), Op::Link(b.clone(), a.clone(), 1), Op::Link(a.clone(), b.clone(), 2), dec(a, f), def(a, 2), Op::Link(a.clone(), b.clone(), 3), def(b, 3)],
            1 => vec![dec(a, f), Op::Link(a.clone(), b.clone(), 1), Op::Link(b.clone(), a.clone(), 2), def(b, 1), Op::DefineZero(b.clone(), 2), dec(b, Decl::wdata()), Op::Link(a.clone(), b.clone(), 3), Op::DefineZero(b.clone(), 2), def(a, 3), Op::Link(b.clone(), a.clone(), 0)],
            2 => vec![dec(a, Decl::sec(SecKind::Data)), Op::DefineSyms(a.clone(), blob(1, 4), [(b.clone(), 1)].into_iter().collect()), dec("z", f), def("z", 2), Op::Import(b.clone(), Ik::Func)],
            _ => vec![dec("s", Decl::sec(SecKind::Debug)), Op::DefineSyms("s".into(), blob(1, 4), [(a.clone(), 1)].into_iter().collect()), dec(b, Decl::data()), def(b, 2), Op::Import(a.clone(), Ik::Data)],
        })
    })
}
/// every declaration after every declaration (after every one of a few)
pub fn absorb_pairs() -> Family {
    let mut d = all_decls(&[None, Some(1), Some(16)]);
    d.extend([Decl::Import(Ik::Func), Decl::Import(Ik::Data)]);
    let firsts = vec![None, Some(Decl::Import(Ik::Func)), Some(Decl::Import(Ik::Data))];
    let n = d.len() as u64;
    seqs(&format!("all pairs of {} declarations, also after imports, defined or not", n), n * n * 3 * 3, move |i| {
        let mut x = Ix(i);
        let (a, b, f, df) = (*x.of(&d), *x.of(&d), *x.of(&firsts), x.n(3));
        let mut v = vec![];
        if let Some(f) = f { v.push(dec("n", f)) }
        v.push(dec("n", a));
        if df == 1 { v.push(def("n", 1)) }
        v.push(dec("n", b));
        if df == 2 { v.push(def("n", 1)); v.push(dec("n", a)); }
        Some(v)
    })
}
pub fn absorb_triples() -> Family {
    let mut d = all_decls(&[None]);
    d.extend([Decl::Import(Ik::Func), Decl::Import(Ik::Data), Decl::func().align(Some(2)), Decl::data().align(Some(2)), Decl::sec(SecKind::Data).align(Some(2))]);
    let n = d.len() as u64;
    seqs(&format!("all triples of {} declarations", n), n * n * n, move |i| { let mut x = Ix(i); Some((0..3).map(|_| dec("n", *x.of(&d))).collect()) })
}
/// every definition of every declaration, twice
pub fn define_pairs() -> Family {
    let mut d: Vec<Option<Decl>> = all_decls(&[None, Some(16)]).into_iter().map(Some).collect();
    d.extend([None, Some(Decl::Import(Ik::Func)), Some(Decl::Import(Ik::Data))]);
    let defs: Vec<Op> = vec![
        Op::Define(st("n"), Bytes::Raw(vec![])), Op::Define(st("n"), Bytes::Pat(1, 3)), Op::DefineZero(st("n"), 0), Op::DefineZero(st("n"), 5),
        Op::DefineSyms(st("n"), blob(1, 0), sy(&[])), Op::DefineSyms(st("n"), blob(1, 4), sy(&[("x", 0), ("z", 9)])), Op::DefineSyms(st("n"), Payload::Zero(4), sy(&[("x", 0)])), Op::DefineSyms(st("n"), blob(2, 4), sy(&[("n", 0)])),
    ];
    let (n, k) = (d.len(), defs.len());
    seqs("all pairs of definitions of all declarations", (n * k * k * 3) as u64, move |i| {
        let mut x = Ix(i);
        let (d, a, b, c) = (*x.of(&d), x.of(&defs).clone(), x.of(&defs).clone(), x.n(3));
        let mut v = vec![];
        if c == 1 { v.push(dec("m", Decl::wdata())) }
        if let Some(d) = d { if c == 2 { if let Decl::Func { .. } | Decl::Data { .. } = d { v.push(Op::Import(st("n"), if d.is_func() { Ik::Func } else { Ik::Data })) } } v.push(dec("n", d)) }
        v.push(a);
        v.push(b);
        Some(v)
    })
}
/// links between everything, in every state
pub fn link_pairs() -> Family {
    let relocs = [Reloc::Auto, Reloc::Raw { reloc: 0, addend: 0 }, Reloc::Raw { reloc: u32::MAX, addend: i32::MIN }, Reloc::Debug { size: 8, addend: 4 }, Reloc::Debug { size: 3, addend: 0 }];
    let ats = [0u64, 1, 7, 8, 1 << 32, u64::MAX];
    let k = 18; // 17 kinds of nodes, and undeclared
    seqs("links between all kinds of nodes", (k * k * 3 * 3 * 5 * 6 * 2) as u64, move |i| {
        let mut x = Ix(i);
        let (a, b, da, db, r, at, order) = (x.n(k), x.n(k), x.n(3), x.n(3), *x.of(&relocs), *x.of(&ats), x.n(2));
        let mut v = vec![];
        let mk = |v: &mut Vec<Op>, n: &str, k: usize, d: usize| {
            if k == 17 { return; }
            // undefined, defined, or upgraded from an import where that's possible
            let nd = node(k);
            if d == 2 { match nd { Decl::Func { .. } => v.push(Op::Import(st(n), Ik::Func)), Decl::Data { .. } => v.push(Op::Import(st(n), Ik::Data)), _ => {} } }
            v.push(dec(n, nd));
            if d == 1 && !nd.is_import() { v.push(if k == 16 { Op::DefineZero(st(n), 8) } else { def(n, k as u32) }) }
        };
        if order == 0 { mk(&mut v, "a", a, da); mk(&mut v, "b", b, db) } else { mk(&mut v, "b", b, db); mk(&mut v, "a", a, da) }
        let l = |f: &str, t: &str| if r == Reloc::Auto { Op::Link(st(f), st(t), at) } else { Op::LinkWith(st(f), st(t), at, r) };
        v.push(l("a", "b"));
        v.push(l("a", "a"));
        v.push(l("b", "a"));
        Some(v)
    })
}
/// long histories: many names, so that lists and maps grow; imports upgraded, declared again, or both, in several orders
pub fn many_imports(upto: usize, extra: &'static [usize]) -> Family {
    let mut ns: Vec<usize> = (1..=upto).collect();
    ns.extend(extra);
    let top = *ns.iter().max().unwrap();
    let k = |j: usize| if j % 2 == 0 { Ik::Func } else { Ik::Data };
    seqs(&format!("up to {} imports, upgraded and declared again in all rotations", top), (ns.len() * top.min(40) * 7) as u64, move |i| {
        let mut x = Ix(i);
        let (n, r, mode) = (*x.of(&ns), x.n(top.min(40)), x.n(7));
        if r >= n { return None; }
        // (of many, every so many-th)
        let r = r * ((n + 39) / 40);
        if r >= n { return None; }
        let mut v: Vec<Op> = (0..n).map(|j| Op::Import(format!("i{}", j), k(j))).collect();
        let up = |j: usize| dec(&format!("i{}", j), if j % 2 == 0 { Decl::func() } else { Decl::wdata() });
        match mode {
            // again, without an upgrade: one of them, then all of them
            4 => { v.push(Op::Import(format!("i{}", r), k(r))); v.push(Op::Import(format!("i{}", r), k(r + 1))); for j in 0..n { v.push(Op::Import(format!("i{}", (r + j) % n), k((r + j) % n))) } }
            // one of them upgraded, all of them again
            5 => { v.push(up(r)); for j in 0..n { v.push(dec(&format!("i{}", j), Decl::Import(k(j)))) } v.push(def(&format!("i{}", r), 1)); v.push(Op::Import(s_("late"), Ik::Func)) }
            // others in between
            6 => { for j in 0..n { v.push(Op::DeclareWith(format!("d{}", j), Decl::func(), Bytes::Pat(1, 2))); if j % 3 == r % 3 { v.push(up(j)) } v.push(Op::Import(format!("i{}", (j * 5 + r) % n), k((j * 5 + r) % n))) } }
            _ => for j in 0..n {
                let j = match mode { 0 => (r + j) % n, 1 => (r + n - j) % n, 2 => (r + j * 7) % n, _ => (r + j / 2) % n };
                v.push(up(j));
                if mode == 3 { v.push(Op::Import(format!("i{}", j), Ik::Func)) }
            },
        }
        Some(v)
    })
}
/// long histories with a bit of everything: declarations, definitions and links of many names, most of them accepted
pub fn long(sizes: &'static [usize], rots: usize, every: usize) -> Family {
    const MODES: usize = 8;
    seqs_every(&format!("histories about up to {} names in {} orders", sizes.iter().max().unwrap(), rots), (sizes.len() * rots * MODES) as u64, every, move |i| {
        let mut x = Ix(i);
        let (n, r, mode) = (*x.of(sizes), x.n(rots), x.n(MODES));
        if r >= n { return None; }
        let r = r * (n / rots).max(1) % n;
        let nm = |j: usize| if mode == 5 && j % 4 == 3 { format!(".s{}", j) } else { format!("{}{}", ["a", "z", "n", "_"][j % 4], j) };
        let d = |j: usize| match (mode, j % 4) { (5, 3) => Decl::sec(SECKINDS[j % 3]), (_, 0) => Decl::func().scope(SCOPES[j % 3]), (_, 1) => Decl::wdata().align([None, Some(8)][j / 4 % 2]), (_, 2) => Decl::data().scope(SCOPES[j / 4 % 3]), _ => Decl::cstr() };
        let imp = |j: usize| if d(j).is_func() { Ik::Func } else { Ik::Data };
        let body = |j: usize| if j % 5 == 1 && d(j).is_data() { Op::DefineZero(nm(j), j % 40) } else { Op::Define(nm(j), Bytes::Str(j as u32, 9 + j % 9)) };
        let order = |k: usize| match (mode + r) % 3 { 0 => (r + k) % n, 1 => (r + n - k) % n, _ => (r + 7 * k) % n };
        let mut v = vec![];
        match mode {
            // all declarations, all definitions, and all of them again
            0 => { for j in 0..n { v.push(Op::Declare(nm(j), d(j))) } for k in 0..n { v.push(body(order(k))) } for k in 0..n { v.push(Op::Declare(nm(order(k)), d(order(k)))); if k % 3 == 0 { v.push(body(order(k))) } } }
            // each on its own, with links to what was before
            1 => for k in 0..n { let j = order(k); v.push(Op::DeclareWith(nm(j), d(j), Bytes::Str(j as u32, 20))); if k > 0 { v.push(Op::Link(nm(j), nm(order(k - 1)), 1)); v.push(Op::Link(nm(order(k / 2)), nm(j), 4)) } v.push(Op::Link(nm(j), nm(order((k + 1) % n)), 8)) },
            // imported first
            2 => { for j in 0..n { v.push(Op::Import(nm(j), imp(j))) } for k in 0..n { let j = order(k); if k % 3 != 2 { v.push(Op::Declare(nm(j), d(j))); v.push(body(j)) } else { v.push(body(j)) } v.push(Op::Link(nm(j), nm(order(k * 5 % n)), (k % 9) as u64)) } for j in 0..n { v.push(Op::Import(nm(j), imp(j))) } }
            // imported last
            3 => { for k in 0..n { let j = order(k); v.push(Op::DeclareWith(nm(j), d(j), Bytes::Str(j as u32, 20))) } for k in 0..n { let j = order(k); v.push(Op::Import(nm(j), imp(j + k % 2))); v.push(body(j)) } }
            // a sequence at once, which fails somewhere
            4 => { v.push(Op::Declarations((0..n).map(|k| (nm(order(k)), d(order(k)))).chain([(nm(r), Decl::Import(Ik::Func)), (nm(r), d(r + 1)), (st("never"), d(0))]).collect())); for k in 0..n { if k % 10 != 9 { v.push(body(order(k))) } } v.push(body(n)); v.push(Op::Declare(nm(n), d(n))); v.push(body(n)) }
            // sections with symbols
            5 => { for k in 0..n { let j = order(k); v.push(Op::Declare(nm(j), d(j))); v.push(if j % 4 == 3 { Op::DefineSyms(nm(j), blob(j as u32, 9), sy(&[(&format!("y{}", j), 2), (&format!("b{}", j / 2), 3)])) } else { Op::DefineSyms(nm(j), blob(j as u32, 9), if k % 7 == 0 { sy(&[("no", 1)]) } else { sy(&[]) }) }) } }
            // many links between few
            6 => { for j in 0..4 { v.push(Op::DeclareWith(nm(j), d(j), Bytes::Str(j as u32, 64))) } v.push(Op::Import(st("i"), Ik::Func)); v.push(Op::Import(st("j"), Ik::Data)); for k in 0..n { let (f, t) = (["a0", "z1", "n2", "i"][order(k) % 4], ["a0", "i", "n2", "j", "u", "_3", "z1"][k % 7]); v.push(Op::Link(st(f), st(t), (k % 60) as u64)) } v.push(Op::Declare(st("i"), Decl::func())); v.push(Op::Link(st("i"), st("a0"), 0)); v.push(Op::Define(st("i"), Bytes::Pat(1, 9))); v.push(Op::Link(st("i"), st("a0"), 0)) }
            // much that is rejected
            _ => for k in 0..n { let j = order(k); v.push(body(j)); v.push(Op::Link(nm(j), nm(order(k / 2)), 2)); v.push(Op::Declare(nm(j), d(j))); v.push(Op::Declare(nm(j), d(j + 1))); v.push(Op::Import(nm(j), imp(j + 1))); if k % 4 != 3 { v.push(body(j)); v.push(Op::DeclareWith(nm(j), d(j), Bytes::Pat(9, 9))) } v.push(Op::Link(nm(j), nm(n + j), 2)); v.push(Op::Link(nm(order(k / 2)), nm(j), 2)) },
        }
        Some(v)
    })
}
fn seqs_every(name: &str, len: u64, every: usize, gen: impl Fn(u64) -> Option<Vec<Op>> + Send + Sync + 'static) -> Family {
    let fam = seqs(name, len, gen);
    let (name, len, g) = (fam.name, fam.len, fam.gen);
    family(name, len, move |i| g(i).map(|c| c.with("every", every)))
}
fn s_(x: &str) -> String { x.into() }

struct Tree<'a> { case: &'a Case, al: Vec<Op>, visit: fn(&Case, &[Op], &Model, &Artifact, &[bool], &mut Stats) -> Option<Viol>, what: u8, found: Option<(Case, Viol)> }
pub const RESULTS: u8 = 1;
pub const IMPORTS: u8 = 2;
pub const UNDEF: u8 = 4;

fn fail(case: &Case, ops: &[Op], v: Viol) -> (Case, Viol) {
    let mut c = case.clone();
    c.params.remove("tree");
    c.params.remove("more");
    c.sc.ops = ops.to_vec();
    (c, v)
}
/// one call on both; None: go on, Some(Err): violation. `ok` tells whether it was accepted
fn step(op: &Op, m: &mut Model, a: &mut Artifact, what: u8, st: &mut Stats) -> Result<Option<bool>, Viol> {
    st.transitions += 1;
    let want = m.step(op);
    let kind = put_op(op).split(' ').next().unwrap().to_string();
    let got = match drive::guarded(|| drive::apply(a, op)) { Ok(r) => r, Err(e) => return Err(viol(format!("panic {}", kind), format!("{} panics: {}", put_op(op), e))) };
    match (&want, &got) {
        (Ok(()), Ok(())) => Ok(Some(true)),
        (Err(w), Err(g)) if w.contains(g) => Ok(Some(false)),
        (w, g) => if what & RESULTS != 0 && relevant(what, op) { Err(viol(format!("result {}", kind), format!("{} gives {:?} instead of {:?}", put_op(op), g, w))) } else { Ok(None) },
    }
}
// C01, C02 and C03 each watch the results of their own kind of calls
pub const DECLS: u8 = 8;
pub const DEFS: u8 = 16;
pub const LINKS: u8 = 32;
fn relevant(what: u8, op: &Op) -> bool {
    match op {
        Op::Declare(..) | Op::Import(..) | Op::Declarations(..) => what & DECLS != 0,
        Op::DeclareWith(..) => what & (DECLS | DEFS) != 0,
        Op::Define(..) | Op::DefineZero(..) | Op::DefineSyms(..) => what & DEFS != 0,
        Op::Link(..) | Op::LinkWith(..) => what & LINKS != 0,
        Op::Emit(_) => false,
    }
}
fn observe(m: &Model, a: &Artifact, what: u8) -> Result<(), Viol> {
    if what & IMPORTS != 0 {
        let (g, w) = (drive::imports(a), m.imports());
        if g != w { return Err(viol("imports", format!("imports() gives {:?} instead of {:?}", g, w))); }
    }
    if what & UNDEF != 0 {
        let (g, w) = (drive::undefined(a), m.undefined());
        if g != w { return Err(viol("undefined", format!("undefined_symbols() gives {:?} instead of {:?}", g, w))); }
    }
    Ok(())
}
impl<'a> Tree<'a> {
    fn go(&mut self, ops: &mut Vec<Op>, oks: &mut Vec<bool>, m: &Model, a: &Artifact, more: usize, st: &mut Stats) {
        if more == 0 { return; }
        for k in 0..self.al.len() {
            let (mut m2, mut a2) = (m.clone(), a.clone());
            let op = self.al[k].clone();
            let r = step(&op, &mut m2, &mut a2, self.what, st);
            ops.push(op);
            let r = r.and_then(|ok| match ok { None => Ok(None), Some(b) => { observe(&m2, &a2, self.what)?; Ok(Some(b)) } });
            match r {
                Err(v) => { self.found = Some(fail(self.case, ops, v)); return; }
                // the implementation and the model disagree about something that is not this property's: no way to go on
                Ok(None) => st.skip("another property's disagreement"),
                Ok(Some(ok)) => {
                    st.state(&m2);
                    oks.push(ok);
                    if more == 1 { st.traces += 1 }
                    if let Some(v) = (self.visit)(self.case, ops, &m2, &a2, oks, st) { self.found = Some(fail(self.case, ops, v)); return; }
                    self.go(ops, oks, &m2, &a2, more - 1, st);
                    if self.found.is_some() { return; }
                    oks.pop();
                }
            }
            ops.pop();
        }
    }
}
pub fn histories(c: &Case, what: u8, visit: fn(&Case, &[Op], &Model, &Artifact, &[bool], &mut Stats) -> Option<Viol>, st: &mut Stats) -> Found {
    let mut m = Model::default();
    let mut a = drive::new(&c.sc);
    let mut oks = vec![];
    let is_tree = c.param("tree") != "";
    for (i, op) in c.sc.ops.iter().enumerate() {
        let done = &c.sc.ops[..=i];
        match step(op, &mut m, &mut a, what, st) {
            Err(v) => return vec![{ let (c, v) = fail(c, done, v); (Some(c), v) }],
            Ok(None) => { st.skip("another property's disagreement"); return vec![]; }
            Ok(Some(ok)) => oks.push(ok),
        }
        // (long ones are only looked at every now and then)
        let every: usize = c.param("every").parse().unwrap_or(1);
        let last = i + 1 == c.sc.ops.len();
        if every > 1000 && (i + 1) % (every / 8) != 0 && !last { continue; }
        if let Err(v) = observe(&m, &a, what) { let (c, v) = fail(c, done, v); return vec![(Some(c), v)]; }
        st.state(&m);
        if (i + 1) % every != 0 && i + 1 != c.sc.ops.len() { continue; }
        if let Some(v) = visit(c, done, &m, &a, &oks, st) { let (c, v) = fail(c, done, v); return vec![(Some(c), v)]; }
    }
    if !is_tree { st.traces += 1; st.outcome(&(&oks, m.imports(), m.undefined())); return vec![]; }
    let mut t = Tree { case: c, al: alphabet(c.param("tree")), visit, what, found: None };
    let mut ops = c.sc.ops.clone();
    t.go(&mut ops, &mut oks, &m, &a, c.param("more").parse().unwrap_or(0), st);
    t.found.into_iter().map(|(c, v)| (Some(c), v)).collect()
}
fn nothing(_: &Case, _: &[Op], m: &Model, _: &Artifact, oks: &[bool], st: &mut Stats) -> Option<Viol> { st.outcome(&(m.imports(), m.undefined(), oks.last())); None }
pub fn c01(c: &Case, st: &mut Stats) -> Found { histories(c, RESULTS | IMPORTS | DECLS, nothing, st) }
pub fn c02(c: &Case, st: &mut Stats) -> Found { histories(c, RESULTS | UNDEF | DEFS, nothing, st) }
pub fn c03(c: &Case, st: &mut Stats) -> Found { histories(c, RESULTS | LINKS, nothing, st) }

/// make an artifact emittable
fn complete(m: &mut Model, a: &mut Artifact, sc: &mut Vec<Op>) -> bool {
    for n in m.undefined() {
        let op = Op::Define(n, Bytes::Pat(99, 16));
        let w = m.step(&op).is_ok();
        match drive::guarded(|| drive::apply(a, &op)) { Ok(r) if r.is_ok() == w => {} _ => return false }
        sc.push(op);
    }
    true
}
/// what both formats say about it
fn said(c: &Case, m: &Model, a: &Artifact, st: &mut Stats) -> Vec<Result<Vec<String>, String>> {
    let p = m.prog(&c.sc);
    [Fmt::Elf, Fmt::Macho].iter().map(|&f| {
        st.traces += 1;
        match drive::emit(a, drive::bf(f)) {
            Out::Bytes(b) => match View::read(f, &b) { Ok(v) => Ok(facts(&p, &v, false)), Err(e) => Err(e.msg) },
            Out::Err(e) => Err(format!("{:?}", e)),
            Out::Panic(_) => Err("panic".into()),
        }
    }).collect()
}
fn trace_free(c: &Case, ops: &[Op], m: &Model, a: &Artifact, oks: &[bool], st: &mut Stats) -> Option<Viol> {
    // (a rejected sequence of declarations has the effect of those before the rejected one)
    if oks.iter().all(|x| *x) { return None; }
    let mut m1 = m.clone();
    let mut a1 = a.clone();
    let mut more = vec![];
    let mut m2 = Model::default();
    let mut a2 = drive::new(&c.sc);
    for (op, ok) in ops.iter().zip(oks) {
        let sub: Vec<Op> = if *ok { vec![op.clone()] } else {
            match op {
                Op::Declarations(v) => { let mut t = m2.clone(); v.iter().map(|(n, d)| Op::Declare(n.clone(), *d)).take_while(|o| t.step(o).is_ok()).collect() }
                // (declare_with is sugar for declare and then define)
                Op::DeclareWith(n, d, _) => { let o = Op::Declare(n.clone(), *d); if m2.clone().step(&o).is_ok() { vec![o] } else { vec![] } }
                _ => vec![],
            }
        };
        for o in sub { if m2.step(&o).is_err() || drive::apply(&mut a2, &o).is_err() { return None; } }
    }
    if drive::imports(a) != drive::imports(&a2) || drive::undefined(a) != drive::undefined(&a2) {
        return Some(viol("trace", format!("imports {:?}, undefined {:?} instead of {:?}, {:?} without the rejected calls", drive::imports(a), drive::undefined(a), drive::imports(&a2), drive::undefined(&a2))));
    }
    if !complete(&mut m1, &mut a1, &mut more) { return None; }
    for o in &more { let _ = m2.step(o); if drive::apply(&mut a2, o).is_err() { return Some(viol("trace", format!("{} is rejected without the rejected calls", put_op(o)))); } }
    st.count("compared with the history without rejected calls");
    let (x, y) = (said(c, &m1, &a1, st), said(c, &m2, &a2, st));
    st.outcome(&x);
    if x == y { return None; }
    let d = x.iter().zip(&y).find_map(|(x, y)| match (x, y) { (Ok(x), Ok(y)) => diff(x, y), (x, y) if x != y => Some(format!("{:?} vs. {:?}", x.as_ref().map(|_| ()), y.as_ref().map(|_| ()))), _ => None });
    Some(viol("trace", format!("the emitted object differs from the one without the rejected calls: {}", d.unwrap_or_default())))
}
pub fn c04(c: &Case, st: &mut Stats) -> Found { histories(c, RESULTS | IMPORTS | UNDEF | DECLS | DEFS | LINKS, trace_free, st) }

pub const FORMATS: [BinaryFormat; 5] = [BinaryFormat::Elf, BinaryFormat::Macho, BinaryFormat::Coff, BinaryFormat::Wasm, BinaryFormat::Unknown];
fn memfile() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe { let fd = libc::memfd_create(b"sink\0".as_ptr() as *const _, 0); assert!(fd >= 0, "memfd_create"); std::fs::File::from_raw_fd(fd) }
}
/// an empty file, one that has something in it already and is at its end, or somewhere within
fn sink(k: usize) -> (std::fs::File, std::fs::File, (Vec<u8>, usize)) {
    use std::io::{Seek, SeekFrom, Write};
    let mut f = memfile();
    let old: Vec<u8> = if k == 0 { vec![] } else { (0..200u8).map(|x| x | 1).collect() };
    f.write_all(&old).unwrap();
    let pos = if k == 2 { f.seek(SeekFrom::Start(50)).unwrap() as usize } else { old.len() };
    let g = f.try_clone().unwrap();
    (f, g, (old, pos))
}
fn content(f: &std::fs::File) -> (u64, Vec<u8>) {
    use std::os::unix::fs::FileExt;
    let n = f.metadata().unwrap().len();
    let mut v = vec![0; n as usize];
    f.read_exact_at(&mut v, 0).unwrap();
    (n, v)
}
fn over(before: &(Vec<u8>, usize), b: &[u8]) -> Vec<u8> {
    let mut v = before.0.clone();
    if v.len() < before.1 + b.len() { v.resize(before.1 + b.len(), 0) }
    v[before.1..before.1 + b.len()].copy_from_slice(b);
    v
}
fn gate(c: &Case, _: &[Op], m: &Model, a: &Artifact, _: &[bool], st: &mut Stats) -> Option<Viol> {
    for f in FORMATS {
        let want = m.emit_errors(&format!("{:?}", f), matches!(f, BinaryFormat::Elf | BinaryFormat::Macho));
        st.traces += 1;
        let got = drive::emit(a, f);
        let bad = match &got { Out::Bytes(b) => !want.is_empty() || b.is_empty(), Out::Err(e) => !want.contains(e), Out::Panic(_) => true };
        let show = |o: &Out| match o { Out::Bytes(b) => format!("an object of {} bytes", b.len()), o => format!("{:?}", o) };
        if bad { return Some(viol(format!("gate {:?}", f), format!("emit_as({:?}) gives {} instead of {}", f, show(&got), if want.is_empty() { "an object".into() } else { format!("{:?}", want) }))); }
        if let Out::Err(e) = &got { st.outcome(e) } else { st.outcome("object") }
        // the same through a file, and nothing in it if there's nothing to write
        for kind in 0..3 {
        let (sink, other, before) = sink(kind);
        let r = drive::guarded(|| a.write_as(sink, f));
        let (len, now) = content(&other);
        let ok = match (&r, &got) {
            (Ok(Ok(())), Out::Bytes(b)) => now == over(&before, b),
            (Ok(Err(_)), Out::Err(_)) => now == before.0,
            _ => false,
        };
        if !ok { return Some(viol("sink", format!("write_as({:?}) gives {:?} and leaves {} bytes in the file, but emit_as {}", f, r.map(|r| r.map_err(|e| e.to_string())), len, show(&got)))); }
        if let Ok(Err(e)) = r { let e = drive::err(e); if !want.contains(&e) { return Some(viol("sink-error", format!("write_as({:?}) fails with {:?} instead of one of {:?}", f, e, want))); } }
        }
    }
    // the target's own format
    let own = a.target.binary_format;
    let want = drive::emit(a, own);
    let got = match drive::guarded(|| a.emit()) { Ok(Ok(b)) => Out::Bytes(b), Ok(Err(e)) => Out::Err(drive::err(e)), Err(p) => Out::Panic(p) };
    if got != want { return Some(viol("own-format", format!("emit() differs from emit_as({:?})", own))); }
    for kind in 0..3 {
    let (sink, other, before) = sink(kind);
    let r = drive::guarded(|| a.write(sink));
    let (len, now) = content(&other);
    let ok = match (&r, &got) { (Ok(Ok(())), Out::Bytes(b)) => now == over(&before, b), (Ok(Err(_)), Out::Err(_)) => now == before.0, _ => false };
    if !ok { return Some(viol("sink", format!("write() leaves {} bytes, but emit() {:?}", len, matches!(got, Out::Bytes(_))))); }
    }
    let _ = c;
    None
}
pub fn c05(c: &Case, st: &mut Stats) -> Found { histories(c, UNDEF | IMPORTS, gate, st) }
pub fn clash_cases() -> Family {
    // custom symbols against everything that has, or might have, the same name
    let roles = 9;
    seqs("custom symbols that clash", (roles * roles * 3 * 2) as u64, move |i| {
        let mut x = Ix(i);
        let (r1, r2, n, o) = (x.n(roles), x.n(roles), x.n(3), x.n(2));
        let mut v = vec![];
        let mut add = |r: usize, name: &str, sec: &str| match r {
            0 => { v.push(dec(name, Decl::func())); v.push(def(name, 1)) }
            1 => { v.push(dec(name, Decl::wdata().scope(Scope::Weak))); v.push(Op::DefineZero(st(name), 4)) }
            2 => v.push(Op::Import(st(name), Ik::Func)),
            3 => { v.push(Op::Import(st(name), Ik::Data)); v.push(dec(name, Decl::data())); v.push(def(name, 1)) }
            4 => { v.push(dec(name, Decl::sec(SecKind::Data))); v.push(def(name, 1)) }
            5 => { v.push(dec(sec, Decl::sec(SecKind::Data))); v.push(Op::DefineSyms(st(sec), blob(1, 4), sy(&[(name, 1)]))) }
            6 => { v.push(dec(sec, Decl::sec(SecKind::Debug))); v.push(Op::DefineSyms(st(sec), blob(1, 4), sy(&[("other", 1), (name, 1), ("zother", 2)]))) }
            7 => v.push(def(name, 4)), // rejected, if nothing else is there
            _ => {}
        };
        let (a, b) = match n { 0 => ("x", "x"), 1 => ("x", ".s1"), _ => (".s2", ".s2") };
        if o == 0 { add(r1, a, ".s1"); add(r2, b, ".s2") } else { add(r2, b, ".s2"); add(r1, a, ".s1") }
        Some(v)
    })
}
