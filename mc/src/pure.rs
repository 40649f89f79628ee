//! C06 and C07: emission is a function of the calls, and not of anything else; nor of their order.
use crate::drive::{self, Out};
use crate::emission::build;
use crate::families::*;
use crate::model::*;
use crate::runner::{Found, Stats};
use crate::types::*;
use crate::view::*;
use std::cell::Cell;
use std::collections::HashMap;

thread_local! { static SEED: Cell<Option<u64>> = const { Cell::new(None) }; }
/// std's hash seeds come from here
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: usize, flags: u32) -> isize {
    if let Ok(Some(s)) = SEED.try_with(|s| s.get()) {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        let mut x = s.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678;
        for c in b { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *c = (x >> 24) as u8 }
        return n as isize;
    }
    libc::syscall(libc::SYS_getrandom, buf, n, flags) as isize
}
/// in a thread of its own, whose hash maps are seeded with `seed`
fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| s.spawn(move || { SEED.with(|x| x.set(Some(seed))); f() }).join().unwrap())
}

/// what listens to the log, if anything does
struct Listener;
thread_local! { static LISTENS: Cell<Option<log::Level>> = const { Cell::new(None) }; static HEARD: Cell<u64> = const { Cell::new(0) }; }
impl log::Log for Listener {
    fn enabled(&self, m: &log::Metadata) -> bool { LISTENS.with(|l| l.get()).map_or(false, |l| m.level() <= l) }
    fn log(&self, r: &log::Record) {
        if !self.enabled(r.metadata()) { return; }
        let n = r.args().to_string().len();
        HEARD.with(|h| h.set(h.get() + n as u64 + 1));
        // one that emits, too
        let (left, a, f) = WITHIN.with(|w| w.get());
        if !a.is_null() {
            WITHIN.with(|w| w.set((left.wrapping_sub(1), if left == 0 { std::ptr::null() } else { a }, f)));
            if left == 0 { let o = drive::emit(unsafe { &*a }, drive::bf(f)); MADE.with(|m| *m.borrow_mut() = Some(o)) }
        }
    }
    fn flush(&self) {}
}
thread_local! { static WITHIN: Cell<(u64, *const faerie::Artifact, Fmt)> = const { Cell::new((0, std::ptr::null(), Fmt::Elf)) }; }
thread_local! { static MADE: std::cell::RefCell<Option<Out>> = const { std::cell::RefCell::new(None) }; }
/// with a listener that, at the k-th message, emits another artifact; what each of them is; None if there aren't so many messages
fn within(k: u64, a: &faerie::Artifact, f: Fmt, emit: impl FnOnce() -> Out) -> Option<(Out, Out)> {
    WITHIN.with(|w| w.set((k, a, f)));
    let (r, _) = listening(log::Level::Trace, emit);
    if WITHIN.with(|w| w.replace((0, std::ptr::null(), Fmt::Elf))).1.is_null() { Some((r, MADE.with(|m| m.borrow_mut().take())?)) } else { None }
}
/// with a listener to messages up to a level
fn listening<T>(l: log::Level, f: impl FnOnce() -> T) -> (T, u64) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| { log::set_logger(&Listener).expect("no other logger"); log::set_max_level(log::LevelFilter::Trace) });
    LISTENS.with(|x| x.set(Some(l)));
    HEARD.with(|h| h.set(0));
    let r = f();
    LISTENS.with(|x| x.set(None));
    (r, HEARD.with(|h| h.get()))
}

const BOTH: [Fmt; 2] = [Fmt::Elf, Fmt::Macho];
fn emitted(a: &faerie::Artifact, f: Fmt, st: &mut Stats) -> Out { st.traces += 1; drive::emit(a, drive::bf(f)) }
fn v(key: &str, msg: String) -> Found { vec![(None, viol(key, msg))] }
fn at(x: &Out, y: &Out) -> String {
    match (x, y) {
        (Out::Bytes(a), Out::Bytes(b)) => format!("{} and {} bytes, first different at {:#x}", a.len(), b.len(), a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))),
        (a, b) => { let s = |o: &Out| match o { Out::Bytes(b) => format!("{} bytes", b.len()), o => format!("{:?}", o) }; format!("{} and {}", s(a), s(b)) }
    }
}

/// artifacts of all kinds
fn strangers() -> Vec<(&'static str, Scenario)> {
    let mut big = Scenario::new("powerpc-unknown-linux-gnu").import("~i", Ik::Func);
    for j in 0..40 { let n = format!("~{}", j); big = big.declare(&n, [Decl::func(), Decl::wdata(), Decl::cstr()][j % 3].scope(SCOPES[j % 3])).define(&n, Bytes::Pat(j as u32, 100)).link(&n, "~i", 5) }
    big = big.declare("~s", Decl::sec(SecKind::Debug)).syms("~s", blob(1, 99), [("~y".to_string(), 3u64)].into_iter().collect());
    vec![
        ("something larger", big),
        ("nothing", Scenario::new(ELF64)),
        ("something undefined", Scenario::new(ELF64).declare("a", Decl::func()).define("a", Bytes::Pat(1, 9)).declare("b", Decl::wdata())),
        ("a clash of symbols", Scenario::new(MACHO64).declare("a", Decl::func()).define("a", Bytes::Pat(1, 9)).declare(".s", Decl::sec(SecKind::Data)).syms(".s", blob(1, 9), [("a".to_string(), 3u64)].into_iter().collect())),
        ("what does not fit", Scenario::new("i686-unknown-linux-gnu").declare("a", Decl::func()).define("a", Bytes::Pat(1, 9)).declare("b", Decl::wdata()).zero("b", 1 << 40).link("a", "b", 1)),
        ("links that can't be", Scenario::new(ELF64).declare("a", Decl::func()).define("a", Bytes::Pat(1, 9)).declare(".s", Decl::sec(SecKind::Data)).define(".s", Bytes::Pat(2, 9)).link("a", "a", 1).link(".s", "a", 1).link_with("a", "a", 2, Reloc::Raw { reloc: 300, addend: 5 })),
    ]
}

pub fn pure(c: &Case, st: &mut Stats) -> Found {
    let (m, a) = match build(&c.sc, st) { Ok(x) => x, Err(e) => return e };
    st.state(&(c.param("mode"), &m));
    let seeds: u64 = c.param("seeds").parse().unwrap_or(3);
    // the reference: an artifact of its own, made with fixed seeds, that is emitted once in each format
    let sc = &c.sc;
    let fresh = |seed: u64, f: Fmt| -> Option<Out> { seeded(seed, || { let mut a = drive::new(sc); for op in &sc.ops { if drive::guarded(|| drive::apply(&mut a, op)).is_err() { return None } } Some(drive::emit(&a, drive::bf(f))) }) };
    let reference: Vec<Out> = match BOTH.iter().map(|&f| fresh(1, f)).collect::<Option<Vec<_>>>() { Some(x) => x, None => return vec![] };
    st.traces += 2;
    for o in &reference { st.outcome(&match o { Out::Bytes(b) => crate::runner::hash(&b[..b.len().min(4096)]), _ => 0 }); }
    let is = |x: &Out, i: usize, how: &str| -> Found { if *x == reference[i] || (matches!(x, Out::Panic(_)) && matches!(reference[i], Out::Panic(_))) { vec![] } else { v("bytes", format!("{:?} {}: {}", BOTH[i], how, at(&reference[i], x))) } };
    macro_rules! must { ($e:expr) => { { let r = $e; if !r.is_empty() { return r } } } }
    let before = format!("{:?}", a);
    let stranger = strangers().swap_remove(0).1;
    for (i, &f) in BOTH.iter().enumerate() {
        must!(is(&emitted(&a, f, st), i, "from another artifact, made by the same calls"));
        must!(is(&emitted(&a, f, st), i, "a second time"));
        let b = a.clone();
        must!(is(&emitted(&b, f, st), i, "from a clone"));
        let _ = emitted(&b, BOTH[1 - i], st);
        must!(is(&emitted(&b, f, st), i, "after the other format"));
        must!(is(&emitted(&a, f, st), i, "after a clone was emitted"));
        for s in 0..seeds {
            must!(is(&seeded(s + 2, || drive::emit(&a, drive::bf(f))), i, &format!("in another thread, with hash seed {}", s + 2)));
            st.traces += 1;
        }
        // with somebody listening to the log, all the time or only to the emission
        for l in [log::Level::Trace, log::Level::Debug, log::Level::Info, log::Level::Error] {
            let (o, n) = listening(l, || emitted(&a, f, st));
            st.add("characters of log messages", n);
            must!(is(&o, i, &format!("with the log at {}", l)));
        }
        let (o, _) = listening(log::Level::Trace, || { let mut b = drive::new(sc); for op in &sc.ops { let _ = drive::guarded(|| drive::apply(&mut b, op)); } emitted(&b, f, st) });
        must!(is(&o, i, "made and emitted with the log on"));
        // with somebody who, whenever something is logged, emits something
        if c.param("mode") != "brief" {
            for (w, o) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                let other = if w == 0 { a.clone() } else { let mut o = drive::new(&stranger); for op in &stranger.ops { let _ = drive::guarded(|| drive::apply(&mut o, op)); } o };
                let other = if w == 0 && o == 0 { &a } else { &other };
                let alone = if w == 0 { reference[o].clone() } else { emitted(other, BOTH[o], st) };
                for k in 0.. {
                    let Some((x, y)) = within(k, other, BOTH[o], || emitted(&a, f, st)) else { break };
                    st.count("emissions within emissions");
                    if y != alone && !(matches!(y, Out::Panic(_)) && matches!(alone, Out::Panic(_))) { return v("bytes", format!("{:?} of {}, at log message {} of an emission: {}", BOTH[o], if w == 0 { "the same" } else { "another artifact" }, k, at(&alone, &y))); }
                    must!(is(&x, i, &format!("with an emission ({:?}) of {} at log message {}", BOTH[o], if w == 0 { "the same" } else { "another artifact" }, k)));
                }
            }
        }
        for s in 0..seeds.min(2) { if let Some(o) = fresh(s + 77, f) { st.traces += 1; must!(is(&o, i, "made and emitted elsewhere")) } }
        // to a file
        if let Out::Bytes(want) = &reference[i] {
            use std::os::fd::FromRawFd;
            use std::os::unix::fs::FileExt;
            let file = unsafe { std::fs::File::from_raw_fd(libc::memfd_create(b"c\0".as_ptr() as *const _, 0)) };
            let keep = file.try_clone().unwrap();
            let r = drive::guarded(|| if drive::bf(f) == a.target.binary_format { a.write(file) } else { a.write_as(file, drive::bf(f)) });
            let mut got = vec![0; keep.metadata().unwrap().len() as usize];
            let _ = keep.read_exact_at(&mut got, 0);
            if !matches!(r, Ok(Ok(()))) || got != *want { return v("file", format!("{:?}: writing gives {:?} and {} bytes instead of {}", f, r.map(|r| r.map_err(|e| e.to_string())), got.len(), want.len())); }
        }
    }
    if format!("{:?}", a) != before { return v("changed", "emission changes the artifact".into()); }
    // emissions in between the calls: after each one, after every one, of either format
    if c.param("mode") != "brief" {
        let n = sc.ops.len();
        let full = c.param("mode") == "full" && n <= 8;
        let patterns: Vec<u64> = if full { (0..3u64.pow(n as u32)).collect() } else { (0..n as u32).flat_map(|i| [3u64.pow(i), 2 * 3u64.pow(i)]).chain([(3u64.pow(n as u32) - 1) / 2, 3u64.pow(n as u32) - 1]).collect() };
        for pat in patterns {
            let mut b = drive::new(sc);
            let mut m2 = Model::default();
            let mut x = pat;
            let mut results = true;
            for op in &sc.ops {
                if x % 3 > 0 { let _ = emitted(&b, BOTH[(x % 3 - 1) as usize], st); }
                x /= 3;
                st.transitions += 1;
                results &= m2.step(op).is_ok() == drive::guarded(|| drive::apply(&mut b, op)).map_or(false, |r| r.is_ok());
            }
            if !results { return v("later-calls", format!("emissions in between (pattern {} in base 3) change the results of calls", pat)); }
            for (i, &f) in BOTH.iter().enumerate() { must!(is(&emitted(&b, f, st), i, &format!("with emissions in between (pattern {} in base 3)", pat))) }
        }
    }
    // one that is cloned in the middle: both go on on their own, and whichever gets ahead doesn't matter to the other
    let n = sc.ops.len();
    let cuts: Vec<usize> = if c.param("mode") == "brief" { if n > 40 { vec![n - 1] } else { vec![n / 2, n - n.min(1)] } } else { (0..=n).collect() };
    for k in cuts {
        for pat in 0..4u32 {
            let run = |b: &mut faerie::Artifact, ops: &[Op], st: &mut Stats| for op in ops { st.transitions += 1; let _ = drive::guarded(|| drive::apply(b, op)); };
            let mut b = drive::new(sc);
            run(&mut b, &sc.ops[..k], st);
            let early = |b: &faerie::Artifact, st: &mut Stats| BOTH.iter().map(|&f| emitted(b, f, st)).collect::<Vec<_>>();
            let first = early(&b, st);
            let mut d = b.clone();
            if pat & 1 != 0 { let _ = early(&d, st); }
            // the clone also gets what the original never gets
            run(&mut d, &sc.ops[k..], st);
            if pat & 2 != 0 { run(&mut d, &[Op::DeclareWith("only here".into(), Decl::wdata(), Bytes::Pat(5, 11)), Op::Import("nor there".into(), Ik::Func)], st) }
            for (i, &f) in BOTH.iter().enumerate() {
                let o = emitted(&d, f, st);
                if pat & 2 == 0 { must!(is(&o, i, &format!("from a clone made after {} calls", k))) }
                let again = emitted(&b, f, st);
                if again != first[i] && !(matches!(again, Out::Panic(_)) && matches!(first[i], Out::Panic(_))) { return v("bytes", format!("{:?} of what a clone was made of after {} calls, before and after the clone is emitted: {}", f, k, at(&first[i], &again))); }
            }
            run(&mut b, &sc.ops[k..], st);
            for (i, &f) in BOTH.iter().enumerate() { must!(is(&emitted(&b, f, st), i, &format!("after a clone was made after {} calls, which went its own way", k))) }
            drop(b);
            if pat & 2 == 0 { for (i, &f) in BOTH.iter().enumerate() { must!(is(&emitted(&d, f, st), i, &format!("from a clone made after {} calls, which is all that's left", k))) } }
        }
    }
    // with another name or for another target in between, or as a library
    {
        let mut b = drive::new(sc);
        for op in &sc.ops { let _ = drive::guarded(|| drive::apply(&mut b, op)); }
        let tweaks = [("a/longer name.o", sc.target.as_str()), ("", sc.target.as_str()), (sc.name.as_str(), "aarch64-unknown-linux-gnu"), (sc.name.as_str(), "i686-unknown-linux-gnu"), ("x", "powerpc64-unknown-linux-gnu"), (sc.name.as_str(), sc.target.as_str())];
        for early in 0..2 {
            for (name, target) in tweaks {
                let mut o = sc.clone();
                o.name = name.into();
                o.target = target.into();
                for (i, &f) in BOTH.iter().enumerate() {
                    if early == 1 { must!(is(&emitted(&b, f, st), i, "when its name and target are what they were again")) }
                    b.name = name.into();
                    b.target = target.parse().unwrap();
                    let want = { let mut a = drive::new(&o); for op in &sc.ops { let _ = drive::guarded(|| drive::apply(&mut a, op)); } emitted(&a, f, st) };
                    let got = emitted(&b, f, st);
                    if got != want && !(matches!(got, Out::Panic(_)) && matches!(want, Out::Panic(_))) { return v("renamed", format!("{:?} when the artifact is renamed to {:?} for {} and when it was so from the start: {}", f, name, target, at(&want, &got))); }
                    b.name = sc.name.clone();
                    b.target = sc.target.parse().unwrap();
                }
            }
        }
        b.is_library = true;
        for (i, &f) in BOTH.iter().enumerate() { must!(is(&emitted(&b, f, st), i, "as a library")) }
        let mut l = faerie::ArtifactBuilder::new(sc.target.parse().unwrap()).library(true).name(sc.name.clone()).finish();
        for op in &sc.ops { let _ = drive::guarded(|| drive::apply(&mut l, op)); }
        for (i, &f) in BOTH.iter().enumerate() { must!(is(&emitted(&l, f, st), i, "made by the builder, as a library")) }
    }
    // after emissions of others: much larger ones, ones that fail, ones that panic
    for (what, o) in strangers() {
        let mut b = drive::new(&o);
        for op in &o.ops { let _ = drive::guarded(|| drive::apply(&mut b, op)); }
        for &g in &BOTH {
            for (i, &f) in BOTH.iter().enumerate() {
                let _ = emitted(&b, g, st);
                must!(is(&emitted(&a, f, st), i, &format!("after {:?} of {}", g, what)));
            }
        }
    }
    // other artifacts, alive and being made in between
    for (k, o) in c.more.iter().enumerate() {
        let merge = crate::families::Ix(c.param("merge").parse().unwrap_or(0));
        let mut x = merge;
        let (mut p, mut q) = (drive::new(sc), drive::new(o));
        let (mut i, mut j) = (0, 0);
        while i < sc.ops.len() || j < o.ops.len() {
            let first = j >= o.ops.len() || (i < sc.ops.len() && x.n(2) == 0);
            st.transitions += 1;
            if first { let _ = drive::guarded(|| drive::apply(&mut p, &sc.ops[i])); i += 1 } else { let _ = drive::guarded(|| drive::apply(&mut q, &o.ops[j])); j += 1 }
        }
        for round in 0..2 {
            for (i, &f) in BOTH.iter().enumerate() {
                if round == 0 { let _ = emitted(&q, f, st); }
                must!(is(&emitted(&p, f, st), i, &format!("with another artifact (number {}) made at the same time", k)));
            }
        }
        // and at once
        for (i, &f) in BOTH.iter().enumerate() {
            let outs: Vec<Out> = std::thread::scope(|s| {
                let h = s.spawn(|| { let _ = drive::emit(&q, drive::bf(f)); drive::emit(&p, drive::bf(f)) });
                let b = drive::emit(&p, drive::bf(f));
                vec![h.join().unwrap(), b]
            });
            st.traces += 3;
            for o in &outs { must!(is(o, i, "from two threads at once")) }
        }
    }
    vec![]
}

// ------------------------------------------------------------------ order

/// Which earlier calls each call has to stay behind of: what it needs, what it's combined with, and links at the same place
fn needs(ops: &[Op]) -> Vec<Vec<usize>> {
    let mut decls: HashMap<&str, Vec<usize>> = HashMap::new();
    let mut sites: HashMap<(&str, u64), usize> = HashMap::new();
    let mut v = vec![];
    for (j, o) in ops.iter().enumerate() {
        let mut d = vec![];
        match o {
            Op::Declare(n, _) | Op::Import(n, _) | Op::DeclareWith(n, ..) => { let e = decls.entry(n).or_default(); d.extend(e.last()); e.push(j) }
            Op::Define(n, ..) | Op::DefineZero(n, ..) | Op::DefineSyms(n, ..) => d.extend(decls.get(n.as_str()).and_then(|x| x.last())),
            Op::Link(f, t, at) | Op::LinkWith(f, t, at, _) => {
                for n in [f, t] { d.extend(decls.get(n.as_str()).and_then(|x| x.first())) }
                d.extend(sites.insert((f, *at), j));
            }
            _ => {}
        }
        v.push(d);
    }
    v
}
pub const PERMS: usize = 8;
/// the k-th permutation of class `class` of n things, as priorities
fn perm(class: usize, k: usize, n: usize) -> Vec<usize> {
    let mut order: Vec<usize> = (0..n).collect();
    let k = k % n.max(1);
    match class {
        0 => order.rotate_left(k),
        1 => { order.reverse(); order.rotate_left(k) }
        2 => if k + 1 < n { order.swap(k, k + 1) },
        3 => { let x = order.remove(k); order.insert(0, x) }
        4 => { let x = order.remove(k); order.push(x) }
        // strides, which mix all of them
        5 => order.sort_by_key(|&i| (i % (k + 1), i / (k + 1))),
        6 => order.sort_by_key(|&i| (std::cmp::Reverse(i % (k + 1)), i / (k + 1))),
        _ => order[k / 2..n - k / 3].reverse(),
    }
    let mut prio = vec![0; n];
    for (r, &i) in order.iter().enumerate() { prio[i] = r }
    prio
}
/// the order closest to the priorities that respects what has to stay behind what
fn linear(needs: &[Vec<usize>], prio: &[usize]) -> Vec<usize> {
    let n = needs.len();
    let mut left: Vec<usize> = needs.iter().map(|d| d.len()).collect();
    let mut after: Vec<Vec<usize>> = vec![vec![]; n];
    for (j, d) in needs.iter().enumerate() { for &k in d { after[k].push(j) } }
    let mut heap: std::collections::BinaryHeap<std::cmp::Reverse<(usize, usize)>> = (0..n).filter(|&j| left[j] == 0).map(|j| std::cmp::Reverse((prio[j], j))).collect();
    let mut v = vec![];
    while let Some(std::cmp::Reverse((_, j))) = heap.pop() {
        v.push(j);
        for &a in &after[j] { left[a] -= 1; if left[a] == 0 { heap.push(std::cmp::Reverse((prio[a], a))) } }
    }
    v
}
fn said(f: Fmt, p: &Prog, a: &faerie::Artifact, st: &mut Stats) -> Result<Vec<String>, String> {
    match emitted(a, f, st) { Out::Bytes(b) => match View::read(f, &b) { Ok(v) => Ok(facts(p, &v, false)), Err(e) => Err(e.msg) }, o => Err(format!("{:?}", o)) }
}
/// one long program in one other order
fn reordered(c: &Case, st: &mut Stats) -> Found {
    let get = |k: &str| c.param(k).parse::<usize>().unwrap_or(0);
    let (m, a) = match build(&c.sc, st) { Ok(x) => x, Err(e) => return e };
    if !m.emit_errors("", true).is_empty() { st.skip("not emittable"); return vec![]; }
    let p = m.prog(&c.sc);
    let order = linear(&needs(&c.sc.ops), &perm(get("class"), get("perm"), c.sc.ops.len()));
    let mut sc = c.sc.clone();
    sc.ops = order.iter().map(|&i| c.sc.ops[i].clone()).collect();
    if sc.ops == c.sc.ops { st.skip("the same order"); return vec![]; }
    st.state(&sc);
    let (m2, b) = match build(&sc, st) { Ok(x) => x, Err(e) => return e };
    let q = m2.prog(&sc);
    let (mut x, mut y, mut i, mut j) = (p.defs.clone(), q.defs.clone(), p.imports.clone(), q.imports.clone());
    x.sort_by(|a, b| a.name.cmp(&b.name)); y.sort_by(|a, b| a.name.cmp(&b.name)); i.sort(); j.sort();
    if x != y || i != j || !m2.emit_errors("", true).is_empty() { st.skip("orders with another result"); return vec![]; }
    st.count("orders");
    let (want, got) = (said(c.fmt(), &p, &a, st), said(c.fmt(), &p, &b, st));
    st.outcome(&want);
    if want == got { return vec![]; }
    let d = match (&want, &got) { (Ok(a), Ok(b)) => diff(a, b).unwrap_or_default(), (a, b) => format!("{:?} vs. {:?}", a.as_ref().err(), b.as_ref().err()) };
    let mut d2 = c.clone();
    d2.params.insert("order".into(), order.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
    vec![(Some(d2), viol("order", format!("in another order: {}", d)))]
}
/// programs of n definitions or links
fn long_program(kind: usize, n: usize, f: Fmt) -> Scenario {
    let mut sc = Scenario::new(tgt(f));
    let sd = |j: usize| SCOPES[j % 3];
    match kind {
        // definitions of all kinds, each function calls the next thing
        0 => {
            let ds = [Decl::func(), Decl::wdata(), Decl::data(), Decl::cstr(), Decl::func().align(Some(32)), Decl::wdata().align(Some(2))];
            for j in 0..n { let nm = format!("n{}", j); sc = sc.declare(&nm, ds[j % 6].scope(sd(j / 2))); if j % 9 == 7 && ds[j % 6].is_data() { sc = sc.zero(&nm, j) } else { sc = sc.define(&nm, Bytes::Str(j as u32, 12 + j % 5)) } }
            for j in 0..n { if j % 6 == 0 || j % 6 == 4 { sc = sc.link(&format!("n{}", j), &format!("n{}", (j + 1) % n), 4).link(&format!("n{}", j), &format!("n{}", (j * 7 + 3) % n), 0) } }
        }
        // links from one thing: at places of their own
        1 => { sc = sc.declare("f", Decl::func()).define("f", Bytes::Pat(1, 8 * n + 8)); for j in 0..6 { let nm = format!("t{}", j); sc = match j { 0 | 1 => sc.import(&nm, [Ik::Func, Ik::Data][j]), _ => sc.declare(&nm, if j % 2 == 0 { Decl::func() } else { Decl::wdata() }.scope(sd(j))).define(&nm, Bytes::Pat(j as u32, 5)) } } for j in 0..n { sc = sc.link("f", &format!("t{}", j * 5 % 6), ((j * 3) % n * 8) as u64) } }
        // links from one thing, several at each place
        2 => { sc = sc.declare("f", Decl::wdata().scope(Scope::Global)).define("f", Bytes::Pat(1, 64)); for j in 0..7 { let nm = format!("t{}", j); sc = sc.declare(&nm, Decl::func().scope(sd(j))).define(&nm, Bytes::Pat(j as u32, 5)) } for j in 0..n { sc = sc.link("f", &format!("t{}", j % 7), ((j * 5 + j / 4) % 6 * 8) as u64) } }
        // links from several things, some at the same places
        3 => { for j in 0..5 { let nm = format!("f{}", j); sc = sc.declare(&nm, if j == 3 { Decl::wdata() } else { Decl::func().scope(sd(j)) }).define(&nm, Bytes::Pat(j as u32, 40)) } sc = sc.import("i", Ik::Func).import("j", Ik::Data); for j in 0..n { sc = sc.link(&format!("f{}", j % 5), &["f0", "f1", "i", "f3", "j"][j * 3 / 2 % 5], (j % 8 * 4) as u64) } }
        // custom sections with symbols
        4 => for j in 0..n { let nm = format!(".s{}", j); sc = sc.declare(&nm, Decl::sec(SECKINDS[j % 3]).align([None, Some(8)][j % 2])).syms(&nm, blob(j as u32, 6 + j % 3), (0..j % 3).map(|q| (format!("y{}_{}", j, q), q as u64 * 2)).collect()); if j % 4 == 1 { sc = sc.declare(&format!("g{}", j), Decl::func().scope(sd(j))).define(&format!("g{}", j), Bytes::Pat(j as u32, 9)) } },
        // imports, some of which are upgraded
        5 => { sc = sc.declare("f", Decl::func()).define("f", Bytes::Pat(1, 8 * n + 8)); for j in 0..n { let nm = format!("i{}", j); sc = sc.import(&nm, if j % 2 == 0 { Ik::Func } else { Ik::Data }).link("f", &nm, 8 * j as u64); if j % 3 == 0 { sc = sc.declare(&nm, if j % 2 == 0 { Decl::func().scope(sd(j)) } else { Decl::wdata().scope(sd(j)) }).define(&nm, Bytes::Pat(j as u32, 7)) } } }
        // debug sections that refer to each other and to code
        _ => { for j in 0..n { let nm = format!(".debug_{}", j); sc = sc.declare(&nm, Decl::sec(SecKind::Debug)).define(&nm, Bytes::Pat(j as u32, 40)); let g = format!("g{}", j); sc = sc.declare(&g, Decl::func().scope(sd(j))).define(&g, Bytes::Pat(j as u32, 9)) } for j in 0..n { for q in 0..3 { sc = sc.link_with(&format!(".debug_{}", j), &format!("g{}", (j * 3 + q) % n), (q * 8) as u64, Reloc::Debug { size: [8, 4][q % 2], addend: 0 }) } if f == Fmt::Elf { sc = sc.link_with(&format!(".debug_{}", j), &format!(".debug_{}", (j + 1) % n), 32, Reloc::Debug { size: 4, addend: 3 }) } } }
    }
    sc
}
pub fn long_orders(f: Fmt, sizes: &'static [usize], perms: usize) -> Family {
    family(format!("{} x {} orders of long programs of 7 kinds, up to {:?}, {:?}", PERMS, perms, sizes.iter().max(), f), (sizes.len() * 7 * PERMS * perms) as u64, move |i| {
        let mut x = Ix(i);
        let (class, k, kind, n) = (x.n(PERMS), x.n(perms), x.n(7), *x.of(sizes));
        let sc = long_program(kind, n, f);
        // (of many, every so many-th)
        let len = sc.ops.len();
        let k = if len > perms { (k * len + perms - 1) / perms } else if k >= len { return None } else { k };
        Some(Case::new(sc).on(f).with("class", class).with("perm", k))
    })
}

/// all admissible orders of the calls of a case, each of which has to say the same
pub fn order(c: &Case, st: &mut Stats) -> Found {
    if c.param("class") != "" { return reordered(c, st); }
    let n = c.sc.ops.len();
    // the reference is the given order
    let (m, a) = match build(&c.sc, st) { Ok(x) => x, Err(e) => return e };
    let mut t = Model::default();
    if c.sc.ops.iter().any(|o| t.step(o).is_err()) || !m.emit_errors("", true).is_empty() { st.skip("not emittable"); return vec![]; }
    let p = m.prog(&c.sc);
    st.state(&p);
    let f = c.fmt();
    let say = |p: &Prog, a: &faerie::Artifact, st: &mut Stats| -> Result<Vec<String>, String> {
        match emitted(a, f, st) { Out::Bytes(b) => match View::read(f, &b) { Ok(v) => Ok(facts(p, &v, false)), Err(e) => Err(e.msg) }, o => Err(format!("{:?}", o)) }
    };
    let want = say(&p, &a, st);
    // the definitions (and their declarations) of the program are the same whatever the order
    let mut sorted = p.defs.clone();
    sorted.sort_by(|a, b| a.name.cmp(&b.name));
    // an explicit order is replayed, otherwise all of them are explored
    struct S<'a> { c: &'a Case, n: usize, sorted: Vec<PDef> }
    fn same_program(s: &S, p: &Prog) -> bool { let mut d = p.defs.clone(); d.sort_by(|a, b| a.name.cmp(&b.name)); d == s.sorted }
    fn go(s: &S, used: &mut Vec<usize>, m: &Model, a: &faerie::Artifact, out: &mut dyn FnMut(&[usize], &Model, &faerie::Artifact) -> Found, st: &mut Stats) -> Found {
        if used.len() == s.n { return out(used, m, a); }
        for k in 0..s.n {
            if used.contains(&k) { continue; }
            // links at the same place keep their order: that's part of what they say
            let op = &s.c.sc.ops[k];
            if let Some((f, at)) = site(op) { if (0..k).any(|j| !used.contains(&j) && site(&s.c.sc.ops[j]) == Some((f, at))) { continue; } }
            let mut m2 = m.clone();
            if m2.step(op).is_err() { continue; }
            let mut a2 = a.clone();
            st.transitions += 1;
            match drive::guarded(|| drive::apply(&mut a2, op)) { Ok(Ok(())) => {} r => return vec![(None, viol("api-rejected", format!("{} fails in another order: {:?}", put_op(op), r)))] }
            used.push(k);
            let r = go(s, used, &m2, &a2, out, st);
            used.pop();
            if !r.is_empty() { return r; }
        }
        vec![]
    }
    fn site(op: &Op) -> Option<(&str, u64)> { match op { Op::Link(f, _, a) | Op::LinkWith(f, _, a, _) => Some((f, *a)), _ => None } }
    let s = S { c, n, sorted };
    let mut local = Stats::default();
    let sp: *const S = &s;
    let mut outf = |used: &[usize], m: &Model, a: &faerie::Artifact| -> Found {
        let s = unsafe { &*sp };
        // what an import was declared with last may differ, and so does what it is then
        let q = m.prog(&c.sc);
        if !m.emit_errors("", true).is_empty() || !same_program(s, &q) || { let (mut x, mut y) = (q.imports.clone(), p.imports.clone()); x.sort(); y.sort(); x != y } { local.skip("orders with another result"); return vec![]; }
        let got = say(&p, a, &mut local);
        local.count("orders");
        if got != want {
            let d = match (&want, &got) { (Ok(a), Ok(b)) => diff(a, b).unwrap_or_default(), (a, b) => format!("{:?} vs. {:?}", a.as_ref().err(), b.as_ref().err()) };
            return vec![(None, viol("order", format!("in the order {:?}: {}", used, d)))];
        }
        vec![]
    };
    let r = go(&s, &mut vec![], &Model::default(), &drive::new(&c.sc), &mut outf, st);
    st.traces += local.traces;
    for (k, v) in local.counts { st.add(&k, v) }
    for (k, v) in local.skips { for _ in 0..v { st.skip(&k) } }
    st.outcome(&want);
    r
}

/// programs whose calls get permuted
pub fn order_programs(f: Fmt, size: usize) -> Vec<Family> {
    let its = small_items();
    let mut v = vec![];
    let n = its.len();
    // pairs of definitions of any kind
    v.push(family(format!("orders of 2 of {} definitions, a link or an import, {:?}", n, f), (n * n * 4) as u64, move |i| {
        let mut x = Ix(i);
        let (a, b, k) = (x.of(&its).clone(), x.of(&its).clone(), x.n(4));
        let mut sc = Scenario::new(tgt(f));
        let (na, nb) = (nm(0, &a), nm(1, &b));
        sc = add(add(sc, &na, &a, 1), &nb, &b, 2);
        let ok = |it: &Item| !it.decl.is_section() && it.data.size() > 0 && !it.data.is_zero();
        match k { 1 => { if !ok(&a) || b.decl.is_section() { return None; } sc = sc.link(&na, &nb, 1) } 2 => { sc = sc.import("i", Ik::Func); if ok(&b) { sc = sc.link(&nb, "i", 0) } } 3 => { if !ok(&b) || !ok(&a) { return None; } sc = sc.link(&nb, &na, 1).link(&na, &nb, 0) } _ => {} }
        Some(Case::new(sc).on(f))
    }));
    fn nm(i: usize, it: &Item) -> String { if it.decl.is_section() { format!(".s{}", i) } else { name_of(i) } }
    // three or four definitions of a kind or of different ones
    let few: Vec<Item> = { let s = small_items(); [0usize, 1, 4, 6, 7, 10, 15, 16].iter().map(|&i| s[i % s.len()].clone()).collect() };
    let k = few.len();
    v.push(family(format!("orders of {} of {} definitions, {:?}", size, k, f), (k.pow(size as u32)) as u64, move |i| {
        let mut x = Ix(i);
        let mut sc = Scenario::new(tgt(f));
        for j in 0..size { let it = x.of(&few); sc = add(sc, &nm(j, it), it, j as u32 + 1) }
        Some(Case::new(sc).on(f))
    }));
    // upgraded imports, redundant declarations, links to all of them
    let progs: Vec<Vec<Op>> = {
        let s = |x: &str| x.to_string();
        let syms = |v: &[(&str, u64)]| v.iter().map(|(n, o)| (n.to_string(), *o)).collect::<std::collections::BTreeMap<String, u64>>();
        let g = Decl::func().scope(Scope::Global);
        vec![
            vec![Op::Import(s("a"), Ik::Func), Op::Declare(s("a"), g), Op::Declare(s("b"), Decl::func()), Op::Define(s("b"), Bytes::Pat(1, 9)), Op::Link(s("b"), s("a"), 1), Op::Define(s("a"), Bytes::Pat(2, 5))],
            vec![Op::Import(s("a"), Ik::Data), Op::Declare(s("a"), Decl::wdata()), Op::Declare(s("b"), Decl::func()), Op::Define(s("b"), Bytes::Pat(1, 9)), Op::Link(s("b"), s("a"), 1), Op::DefineZero(s("a"), 5)],
            vec![Op::Import(s("i"), Ik::Func), Op::Import(s("j"), Ik::Data), Op::Import(s("k"), Ik::Func), Op::Declare(s("j"), Decl::wdata()), Op::Define(s("j"), Bytes::Pat(1, 8)), Op::Link(s("j"), s("k"), 0)],
            vec![Op::Declare(s("a"), g), Op::Declare(s("b"), Decl::func()), Op::Define(s("a"), Bytes::Pat(1, 16)), Op::Define(s("b"), Bytes::Pat(2, 16)), Op::Link(s("a"), s("b"), 1), Op::Link(s("a"), s("b"), 9), Op::Link(s("b"), s("a"), 5)],
            vec![Op::Declare(s("a"), g), Op::Declare(s("w"), Decl::func().scope(Scope::Weak)), Op::Define(s("a"), Bytes::Pat(1, 16)), Op::Define(s("w"), Bytes::Pat(2, 16)), Op::Link(s("a"), s("w"), 1), Op::Link(s("a"), s("a"), 1), Op::Link(s("w"), s("w"), 5)],
            vec![Op::Declare(s(".debug_x"), Decl::sec(SecKind::Debug)), Op::Declare(s("b"), Decl::func()), Op::Define(s(".debug_x"), Bytes::Pat(1, 16)), Op::Define(s("b"), Bytes::Pat(2, 16)), Op::LinkWith(s(".debug_x"), s("b"), 0, Reloc::Debug { size: 8, addend: 0 }), Op::LinkWith(s(".debug_x"), s("b"), 8, Reloc::Debug { size: 4, addend: 0 })],
            vec![Op::Declare(s("d"), Decl::wdata()), Op::Define(s("d"), Bytes::Pat(1, 16)), Op::Import(s("i"), Ik::Func), Op::Link(s("d"), s("i"), 0), Op::Link(s("d"), s("i"), 8), Op::Import(s("i"), Ik::Func)],
            vec![Op::DeclareWith(s("a"), g, Bytes::Pat(1, 7)), Op::DeclareWith(s("b"), Decl::wdata().align(Some(32)), Bytes::Pat(2, 7)), Op::DeclareWith(s("c"), Decl::cstr(), Bytes::Str(2, 7)), Op::DeclareWith(s("e"), Decl::func().align(Some(64)), Bytes::Pat(3, 1)), Op::DeclareWith(s("h"), Decl::wdata().align(Some(2)), Bytes::Pat(4, 3)), Op::Import(s("i"), Ik::Data), Op::Link(s("b"), s("a"), 1)],
            vec![Op::DeclareWith(s("a"), g, Bytes::Pat(1, 7)), Op::DeclareWith(s("b"), g, Bytes::Pat(2, 7)), Op::DeclareWith(s("c"), g, Bytes::Pat(2, 7)), Op::DeclareWith(s("d"), g, Bytes::Pat(3, 1)), Op::DeclareWith(s("e"), g, Bytes::Pat(4, 0)), Op::Link(s("b"), s("a"), 1), Op::Link(s("c"), s("d"), 1)],
            vec![Op::Declare(s(".debug_x"), Decl::sec(SecKind::Debug)), Op::Declare(s("s"), Decl::sec(SecKind::Data)), Op::DefineSyms(s(".debug_x"), blob(1, 16), syms(&[("s", 4), (".debug_x", 8), ("__debug_x", 12)])), Op::DefineSyms(s("s"), blob(2, 9), syms(&[("t", 3)])), Op::DeclareWith(s("b"), Decl::func(), Bytes::Pat(2, 16)), Op::LinkWith(s(".debug_x"), s("b"), 0, Reloc::Debug { size: 8, addend: 0 }), Op::LinkWith(s(".debug_x"), s("b"), 0, Reloc::Debug { size: 4, addend: 0 })],
        ]
    };
    let np = progs.len() as u64;
    v.push(family(format!("orders of {} programs with upgrades and links, {:?}", np, f), np, move |i| { let mut sc = Scenario::new(tgt(f)); sc.ops = progs[i as usize].clone(); Some(Case::new(sc).on(f)) }));
    v
}
