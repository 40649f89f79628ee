//! C09: what threads do with artifacts at the same time. The programs of a few threads run under every schedule with a bounded
//! number of preemptions, each in a process of its own (whatever is static starts afresh); everything a thread gets has to be
//! what it gets alone.
#[allow(dead_code)]
#[path = "../../mc/src/drive.rs"]
mod drive;
#[allow(dead_code)]
#[path = "../../mc/src/model.rs"]
mod model;
mod programs;
mod sched;
#[allow(dead_code)]
#[path = "../../mc/src/types.rs"]
mod types;

use faerie::Artifact;
use programs::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::{Read, Seek, Write as _};
use std::os::fd::FromRawFd;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};
use types::*;

#[derive(Clone, Copy)]
struct Fnv(u64);
impl Default for Fnv { fn default() -> Fnv { Fnv(0xcbf2_9ce4_8422_2325) } }
impl Hasher for Fnv {
    fn finish(&self) -> u64 { let x = (self.0 ^ (self.0 >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93); x ^ (x >> 32) }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3) } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0 ^ x).wrapping_mul(0x100_0000_01b3); self.0 ^= self.0 >> 29 }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fnv>>;
type Set = HashSet<u64, BuildHasherDefault<Fnv>>;

// ---------------------------------------------------------------- what threads do

struct Listener;
static LISTENING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata) -> bool { LISTENING.load(SeqCst) }
    fn log(&self, r: &log::Record) {
        if !self.enabled(r.metadata()) { return; }
        sched::point(sched::LOG);
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}

/// threads that share what they must not are found out before
struct Shares<T>(T);
unsafe impl<T> Sync for Shares<T> {}
unsafe impl<T> Send for Shares<T> {}

struct Has<T>(std::marker::PhantomData<T>);
trait No { fn shareable(&self) -> bool { false } }
impl<T> No for Has<T> {}
impl<T: Send + Sync> Has<T> { fn shareable(&self) -> bool { true } }

/// (kept as bytes: this is the bulk of what there is to compare)
#[derive(Hash, Debug)]
struct Got(String, Vec<u8>);
impl Got { fn around(self, a: String, b: String) -> Got { Got(a + &self.0 + &b, self.1) } }
fn emitted(a: &Artifact, f: Fmt) -> Got { match drive::emit(a, drive::bf(f)) { drive::Out::Bytes(b) => Got(String::new(), b), o => Got(format!("{:?}", o), vec![]) } }
fn report(a: &Artifact) -> String { format!("{:?} {:?}", drive::imports(a), drive::undefined(a)) }
fn file() -> std::fs::File { unsafe { std::fs::File::from_raw_fd(libc::memfd_create(c"o".as_ptr(), 0)) } }

fn act(what: Act, scs: &[Scenario], shared: &[Shares<Artifact>]) -> Got {
    match what {
        Act::Build(i, f) => {
            let mut a = drive::new(&scs[i]);
            let mut o = String::new();
            for op in &scs[i].ops { write!(o, "{:?}\n", drive::guarded(|| drive::apply(&mut a, op))).unwrap() }
            emitted(&a, f).around(o + &report(&a), report(&a))
        }
        Act::Emit(i, f) => emitted(&shared[i].0, f),
        Act::Query(i) => Got(report(&shared[i].0) + &report(&shared[i].0), vec![]),
        Act::Clone(i, f) => {
            let mut a = shared[i].0.clone();
            let r = format!("{:?}", drive::guarded(|| a.declare_with("of_the_clone", faerie::Decl::function(), vec![0x90; 5]).map_err(drive::err)));
            let l = format!("{:?}", drive::guarded(|| a.link(faerie::Link { from: "of_the_clone", to: "of_the_clone", at: 1 }).map_err(drive::err)));
            emitted(&a, f).around(r, l)
        }
        Act::File(i, f) => {
            let mut o = file();
            let r = drive::guarded(|| shared[i].0.write_as(o.try_clone().unwrap(), drive::bf(f)).map_err(drive::err));
            let mut v = vec![];
            o.seek(std::io::SeekFrom::Start(0)).unwrap();
            o.read_to_end(&mut v).unwrap();
            Got(format!("{:?}", r), v)
        }
    }
}
fn digest<T: Hash + ?Sized>(s: &T) -> u64 { let mut h = Fnv::default(); s.hash(&mut h); h.finish() }

// ---------------------------------------------------------------- executions

/// always the same
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
    for i in 0..n { *p.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a }
    n as isize
}

struct Exec { how: u32, trace: Vec<u64>, results: Vec<u64> }
const TEXT: usize = 32;

/// runs in a child
fn execute(t: &Test, scs: &[Scenario], schedule: &[(u32, u32)], only: Option<usize>, show: bool) -> Exec {
    let sh = sched::shared();
    sh.end.store(0, SeqCst);
    sh.steps.store(0, SeqCst);
    for r in &sh.results { r.store(0, SeqCst) }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        let shared: Vec<Shares<Artifact>> = scs.iter().enumerate().map(|(i, s)| {
            let mut a = drive::new(s);
            if t.threads.iter().flatten().chain(&t.before).any(|x| x.shared() == Some(i)) { for op in &s.ops { let _ = drive::guarded(|| drive::apply(&mut a, op)); } }
            Shares(a)
        }).collect();
        if t.log { LISTENING.store(true, SeqCst); log::set_max_level(log::LevelFilter::Trace) }
        if only.is_none() { for b in &t.before { act(*b, scs, &shared); } }
        // the results of a thread, and of doing the same again when all are done
        let (n, mut at) = (t.threads.len(), vec![0]);
        for p in &t.threads { at.push(at.last().unwrap() + p.len()) }
        let store = |k: usize, again: bool, s: Got| {
            sh.results[k + if again { TEXT } else { 0 }].store(digest(&s) | 1, SeqCst);
            if show { if let Ok(to) = std::env::var("SCHED_OUT") { let _ = std::fs::write(format!("{}.{}{}", to, k, if again { "b" } else { "" }), format!("{:?}", s)); } }
        };
        match only {
            Some(i) => for (k, a) in t.threads[i].iter().enumerate() { store(at[i] + k, false, act(*a, scs, &shared)) },
            None => {
                sched::arm(schedule.to_vec(), n as u32, t.fine);
                std::thread::scope(|s| {
                    for (i, p) in t.threads.iter().enumerate() {
                        let (shared, store, at) = (&shared, &store, &at);
                        let _ = std::thread::Builder::new().stack_size(1 << 18).spawn_scoped(s, move || {
                            let r: Vec<Got> = sched::body(i as u32 + 1, || p.iter().map(|a| act(*a, scs, shared)).collect());
                            for (k, r) in r.into_iter().enumerate() { store(at[i] + k, false, r) }
                        });
                    }
                    sched::release();
                });
                // (each of them once)
                for (i, p) in t.threads.iter().enumerate() { for (k, a) in p.iter().enumerate() {
                    let first = t.threads[..i].iter().flatten().chain(&p[..k]).all(|b| b != a);
                    if first { store(at[i] + k, true, act(*a, scs, &shared)) }
                } }
            }
        }
        sh.end.store(if sched::freed() { sched::ENDED | 0x100 } else { sched::ENDED }, SeqCst);
        unsafe { libc::_exit(0) }
    }
    let mut st = 0;
    unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
    let n = (sh.steps.load(SeqCst) as usize).min(sched::MAX_STEPS);
    let how = sh.end.load(SeqCst);
    Exec { how: if how == 0 { 0x1000 | (st as u32 & 0x7f) } else { how }, trace: sh.trace[..n].iter().map(|x| x.load(SeqCst)).collect(), results: sh.results.iter().map(|x| x.load(SeqCst)).collect() }
}

struct Alone { results: Vec<u64> }
fn alone(t: &Test, scs: &[Scenario]) -> Result<Alone, String> {
    let mut r = vec![0; TEXT];
    let mut k = 0;
    for (i, p) in t.threads.iter().enumerate() {
        let e = execute(t, scs, &[], Some(i), false);
        if e.how != sched::ENDED { return Err(format!("thread {} does not end when it is alone: {}", i + 1, ending(e.how))); }
        for j in 0..p.len() { r[k + j] = e.results[k + j] }
        k += p.len();
    }
    Ok(Alone { results: r })
}
fn ending(h: u32) -> String {
    match h { sched::DEADLOCK => "the threads wait for each other".into(), sched::STUCK => "it does not end".into(), h if h & 0x1000 != 0 => format!("it is killed by signal {}", h & 0xff), h => format!("ends as {}", h) }
}
fn judge(t: &Test, e: &Exec, al: &Alone) -> Option<String> {
    if e.how & 0xff != sched::ENDED || e.how & 0x1000 != 0 { return Some(ending(e.how)); }
    let mut k = 0;
    for (i, p) in t.threads.iter().enumerate() {
        for a in p {
            if e.results[k] != al.results[k] { return Some(format!("thread {} gets something else from \"{}\" than alone", i + 1, a.put())); }
            if e.results[k + TEXT] != 0 && e.results[k + TEXT] != al.results[k] { return Some(format!("when all threads are done, \"{}\" gives something else than before", a.put())); }
            k += 1;
        }
    }
    None
}

// ---------------------------------------------------------------- exploration

#[derive(Default, Clone, Copy)]
struct Sums { execs: u64, steps: u64, states: u64, max_steps: u64, freed: u64, long: u64, capped: u64, races: u64 }

/// what a step accesses
fn what(x: u64) -> u64 { x >> 16 & ((1 << 47) - 1) }
/// Is each step an access that conflicts with a later one of another thread? (A switch there reverses them.)
fn races(trace: &[u64]) -> Vec<bool> {
    // address -> threads that read, threads that write it later
    let mut later: Map<u64, (u32, u32)> = Map::default();
    let mut r = vec![false; trace.len()];
    for (i, &x) in trace.iter().enumerate().rev() {
        if what(x) == 0 { continue; }
        let (me, w) = (1u32 << (x & 0xf), x >> 63 == 1);
        let l = later.entry(what(x)).or_default();
        r[i] = (if w { l.0 | l.1 } else { l.1 }) & !me != 0;
        if w { l.1 |= me } else { l.0 |= me }
    }
    r
}

/// Every schedule with at most `bound` preemptions anywhere, and `deep` altogether, where those beyond `bound` are at accesses that
/// conflict with later ones of another thread
fn explore(t: &Test, scs: &[Scenario], sums: &mut Sums, deadline: Instant) -> Option<(Vec<(u32, u32)>, String)> {
    let al = match alone(t, scs) { Ok(a) => a, Err(m) => return Some((vec![], m)) };
    let mut states = Set::default();
    let mut execs = 0;
    // breadth first: the fewest preemptions first
    let mut todo: std::collections::VecDeque<(Vec<(u32, u32)>, u32, u32)> = [(vec![], 0, 0)].into();
    while let Some((s, anywhere, deep)) = todo.pop_front() {
        // (should there be so much to explore, everything gets its share)
        if execs >= if Instant::now() < deadline { t.limit } else { 300 } { sums.capped += 1; break; }
        execs += 1;
        let e = execute(t, scs, &s, None, false);
        sums.execs += 1;
        sums.steps += e.trace.len() as u64;
        sums.max_steps = sums.max_steps.max(e.trace.len() as u64);
        if e.how & 0x100 != 0 { sums.freed += 1 }
        if let Some(m) = judge(t, &e, &al) { return Some((s, m)); }
        if e.trace.len() >= sched::MAX_STEPS { sums.long += 1; continue; }
        let races = races(&e.trace);
        sums.races += races.iter().filter(|x| **x).count() as u64;
        let mut pos = [0u32; 8];
        let from = s.last().map_or(0, |x| x.0 + 1);
        for (i, x) in e.trace.iter().enumerate() {
            let (me, ready, why) = ((x & 0xf) as u32, (x >> 4 & 0xff) as u32, (x >> 12 & 0xf) as u32);
            pos[me as usize & 7] += 1;
            let mut h = Fnv::default();
            (pos, ready).hash(&mut h);
            states.insert(h.finish());
            if (i as u32) < from { continue; }
            let took = e.trace.get(i + 1).map_or(0, |y| (y & 0xf) as u32);
            let (ca, cd) = if matches!(why, sched::START | sched::BLOCKED | sched::DONE) { (0, 0) } else if races[i] || why == sched::WAKE { (0, 1) } else { (1, 1) };
            if anywhere + ca > t.bound || deep + cd > t.deep { continue; }
            for to in 1..=t.threads.len() as u32 {
                // (yielding to oneself is no progress)
                if ready >> to & 1 == 0 || to == took || (why == sched::YIELD && to == me) { continue; }
                let mut n = s.clone();
                n.push((i as u32, to));
                todo.push_back((n, anywhere + ca, deep + cd));
            }
        }
    }
    sums.states += states.len() as u64;
    None
}

/// fewer switches, as long as it fails
fn minimise(t: &Test, scs: &[Scenario], mut s: Vec<(u32, u32)>, mut msg: String) -> (Vec<(u32, u32)>, String) {
    let Ok(al) = alone(t, scs) else { return (s, msg) };
    let mut i = 0;
    while i < s.len() {
        let mut n = s.clone();
        n.remove(i);
        if let Some(m) = judge(t, &execute(t, scs, &n, None, false), &al) { s = n; msg = m } else { i += 1 }
    }
    (s, msg)
}

fn root() -> std::path::PathBuf { std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into()) }
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(), c => o.push(c) } }
    o + "\""
}

/// to one processor: only one thread of an execution runs at a time
fn pin(w: usize) {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 { return; }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &all)).collect();
        if cpus.is_empty() { return; }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

/// between the workers
#[repr(C)]
struct Common { next: std::sync::atomic::AtomicU64, stop: std::sync::atomic::AtomicU64, sums: [std::sync::atomic::AtomicU64; 8], by_bound: [std::sync::atomic::AtomicU64; 16] }

fn check(tier: &str) -> i32 {
    let start = Instant::now();
    let scs = scenarios();
    let tests = tests(tier == "thorough");
    let common: &Common = unsafe { &*(libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *const Common) };
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 32);
    let dir = root().join("target/sched-found");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("a directory for what is found");
    let deadline = start + Duration::from_secs(if tier == "thorough" { 600 } else { 240 });
    let mut pids = vec![];
    for w in 0..cores {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            sched::map();
            pin(w);
            let mut sums = Sums::default();
            loop {
                let i = common.next.fetch_add(1, SeqCst) as usize;
                if i >= tests.len() || common.stop.load(SeqCst) >= 3 { break; }
                let t0 = (Instant::now(), sums);
                if let Some((s, m)) = explore(&tests[i], &scs, &mut sums, deadline) {
                    common.stop.fetch_add(1, SeqCst);
                    let (s, m) = minimise(&tests[i], &scs, s, m);
                    let text = format!("sched\n# {}\n{}schedule{}\n", m, tests[i].put(), s.iter().map(|x| format!(" {}:{}", x.0, x.1)).collect::<String>());
                    std::fs::write(dir.join(format!("{:06}", i)), text).expect("writing what is found");
                }
                common.by_bound[(tests[i].bound.min(7) + if tests[i].fine { 8 } else { 0 }) as usize].fetch_add(sums.execs - t0.1.execs, SeqCst);
                if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("{} {}: {} schedules, {} steps, {:.2} s", w, tests[i].put().replace('\n', " "), sums.execs - t0.1.execs, (sums.steps - t0.1.steps) / (sums.execs - t0.1.execs).max(1), t0.0.elapsed().as_secs_f64()) }
            }
            for (i, x) in [sums.execs, sums.steps, sums.states, sums.freed, sums.long, sums.capped, sums.races].into_iter().enumerate() { common.sums[i].fetch_add(x, SeqCst); }
            common.sums[7].fetch_max(sums.max_steps, SeqCst);
            unsafe { libc::_exit(0) }
        }
        assert!(pid > 0);
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids { let mut st = 0; unsafe { libc::waitpid(p, &mut st, 0); } bad |= st != 0 }
    if bad { eprintln!("a worker of the explorer failed"); return 3; }
    let sum = |i: usize| common.sums[i].load(SeqCst);
    let mut found: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|f| f.unwrap().path()).collect();
    found.sort();
    let mut lines = vec![];
    let _ = std::fs::create_dir_all(root().join("replay"));
    let shareable = Has::<Artifact>(std::marker::PhantomData).shareable();
    let mut texts: Vec<String> = found.iter().map(|f| std::fs::read_to_string(f).unwrap()).collect();
    if !shareable { texts.insert(0, "sched\n# artifacts cannot be shared between threads (Artifact is not Send and Sync)\n".into()) }
    for t in texts.iter().take(3) {
        let path = root().join("replay").join(format!("C09-{:016x}.txt", digest(t)));
        std::fs::write(&path, t).expect("writing the replay file");
        println!("C09: {}", t.lines().nth(1).unwrap_or("").trim_start_matches("# "));
        lines.push(format!("VIOLATION property=C09 replay={}", path.display()));
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let bounds = (0..16).filter(|&i| common.by_bound[i].load(SeqCst) > 0).map(|i| format!("{}: {}", json(&format!("at most {} preemptions, {}", i & 7, if i & 8 != 0 { "also at calls of functions" } else { "at synchronization, static memory, log messages and writes" })), common.by_bound[i].load(SeqCst))).collect::<Vec<_>>().join(", ");
    let samples = tests.iter().step_by((tests.len() / 5).max(1)).map(|t| json(&t.put())).collect::<Vec<_>>().join(", ");
    let ev = format!("{{\n \"property\": \"C09\", \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"tests\": {}, \"schedules\": {{{}}}, \"longest_schedule_steps\": {}, \"executions_out_of_control\": {}, \"executions_too_long\": {}, \"tests_cut_short\": {}, \"conflicting_accesses\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"sequential consistency\", \"threads that share memory synchronize by atomics, static memory or futexes\"],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        json(tier), seed, sum(2), sum(1), sum(0), tests.len(), bounds, sum(7), sum(3), sum(4), sum(5), sum(6), lines.is_empty() && sum(3) + sum(4) + sum(5) == 0, samples, start.elapsed().as_secs_f64(), lines.len());
    let _ = std::fs::create_dir_all(root().join("evidence"));
    if let Err(e) = std::fs::write(root().join("evidence/C09.json"), ev) { eprintln!("evidence: {}", e); return 3; }
    println!("C09 {}: {} tests, {} schedules, {} steps, {} states, longest {}, out of control {}, too long {}, cut short {}, conflicting accesses {}, {:.1} s", tier, tests.len(), sum(0), sum(1), sum(2), sum(7), sum(3), sum(4), sum(5), sum(6), start.elapsed().as_secs_f64());
    let _ = std::io::stdout().flush();
    for l in &lines { println!("{}", l) }
    if lines.is_empty() { 0 } else { 1 }
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("the replay file");
    if text.contains("not Send and Sync") { let s = Has::<Artifact>(std::marker::PhantomData).shareable(); println!("Send and Sync: {}", s); return if s { 0 } else { 1 }; }
    let (t, s) = Test::get(&text).expect("a test and its schedule");
    sched::map();
    let scs = scenarios();
    let al = match alone(&t, &scs) { Ok(a) => a, Err(m) => { println!("VIOLATION property=C09 replay={}\n{}", path, m); return 1 } };
    let e = execute(&t, &scs, &s, None, true);
    for (i, x) in e.trace.iter().enumerate() { if let Some(y) = s.iter().find(|y| y.0 == i as u32) { println!("step {}: thread {} at a point of kind {}; thread {} goes on", i, x & 0xf, sched::NAMES[(x >> 12 & 0xf) as usize % 10], y.1) } }
    match judge(&t, &e, &al) { Some(m) => { println!("{}\nVIOLATION property=C09 replay={}", m, path); 1 } None => { println!("{} steps, as alone", e.trace.len()); 0 } }
}

fn main() {
    // the same addresses each time, if we may; and no memory of one thread's that becomes another's
    if std::env::var_os("SCHED_AGAIN").is_none() {
        use std::os::unix::process::CommandExt;
        unsafe {
            let p = libc::personality(0xffff_ffff);
            if p >= 0 { libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong); }
        }
        let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SCHED_AGAIN", "1").env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0").exec();
    }
    std::panic::set_hook(Box::new(|_| {}));
    log::set_logger(&Listener).expect("no other logger");
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    std::process::exit(match a[1..] {
        ["check", "C09", "--tier", t] => check(t),
        ["replay", f] => replay(f),
        ["time", f] => { let (t, _) = Test::get(&std::fs::read_to_string(f).unwrap()).unwrap(); sched::map(); pin(0); let mut s = Sums::default(); let t0 = Instant::now(); explore(&t, &scenarios(), &mut s, Instant::now() + Duration::from_secs(600)); println!("{} schedules, {:.3} ms each", s.execs, t0.elapsed().as_secs_f64() * 1e3 / s.execs as f64); 0 }
        _ => { eprintln!("sched check C09 --tier TIER | replay FILE"); 2 }
    })
}
