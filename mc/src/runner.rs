//! Runs a check over its families: completely, on all cores, deterministically, and with replayable results.
use crate::families::Family;
use crate::types::*;
use crate::view::Viol;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
type Set = HashSet<u64, BuildHasherDefault<Ident>>;

/// deterministic hashing (FNV-1a with a final mix)
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { let x = (self.0 ^ (self.0 >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93); x ^ (x >> 32) }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3) } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0 ^ x).wrapping_mul(0x100_0000_01b3); self.0 ^= self.0 >> 29 }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fnv(0xcbf2_9ce4_8422_2325); t.hash(&mut h); h.finish() }

const CAP: usize = 6_000_000;
#[derive(Default)]
pub struct Stats {
    pub states: Set,
    pub outcomes: Set,
    pub transitions: u64,
    pub traces: u64,
    pub skips: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub seen: BTreeMap<String, u64>,
    pub capped: bool,
}
impl Stats {
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) { if self.states.len() < CAP { self.states.insert(hash(t)); } else { self.capped = true } }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) { if self.outcomes.len() < CAP { self.outcomes.insert(hash(t)); } else { self.capped = true } }
    pub fn skip(&mut self, why: &str) { self.n_skip(why, 1) }
    fn n_skip(&mut self, why: &str, n: u64) { if let Some(x) = self.skips.get_mut(why) { *x += n } else { self.skips.insert(why.into(), n); } }
    pub fn count(&mut self, what: &str) { self.add(what, 1) }
    pub fn add(&mut self, what: &str, n: u64) { if let Some(x) = self.counts.get_mut(what) { *x += n } else { self.counts.insert(what.into(), n); } }
    fn merge(&mut self, o: Stats) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.skips { self.n_skip(&k, v) }
        for (k, v) in o.counts { self.add(&k, v) }
        for (k, v) in o.seen { *self.seen.entry(k).or_default() += v }
        self.capped |= o.capped;
    }
}

pub type Found = Vec<(Option<Case>, Viol)>;
pub type CheckFn = fn(&Case, &mut Stats) -> Found;
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub families: Vec<Family>,
    pub check: CheckFn,
    pub assumptions: Vec<&'static str>,
    /// seconds one case may take
    pub patience: u64,
}

pub fn root() -> std::path::PathBuf { std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into()) }
fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) }

/// (key, text) of the findings listed for a property
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines().filter_map(|l| {
        let r = l.strip_prefix("known: ")?.strip_prefix(&format!("property={} ", id))?;
        let (k, t) = r.strip_prefix("key=[")?.split_once("] ")?;
        Some((k.to_string(), t.to_string()))
    }).collect()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}
fn json_map(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")) }

fn fingerprint(c: &Case) -> u64 { hash(&put_case(c)) }

pub fn write_replay(id: &str, c: &Case, v: &Viol) -> String {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.txt", id, fingerprint(c)));
    let mut t = format!("# property: {}\n# key: {}\n# {}\n# replay with: bash /verif/run.sh replay {}\n", id, v.key, v.msg.replace('\n', " "), path.display());
    t += &put_case(c);
    t += "\n# as Rust statements that only use faerie:\n";
    for l in rust_snippet(c).lines() { t += &format!("#   {}\n", l) }
    let _ = std::fs::write(&path, t);
    path.display().to_string()
}

/// shortest case with the same key that dropping calls leads to
fn minimise(check: CheckFn, c: Case, v: Viol) -> (Case, Viol) {
    let (mut c, mut v) = (c, v);
    let t = Instant::now();
    let fails = |c: &Case| -> Option<Viol> {
        crate::drive::guarded(|| check(c, &mut Stats::default())).ok()?.into_iter().find(|x| x.1.key == v.key).map(|x| x.1)
    };
    let mut step = (c.sc.ops.len() / 2).max(1);
    loop {
        let mut shorter = false;
        let mut i = c.sc.ops.len();
        while i > 0 {
            i = i.saturating_sub(step);
            if t.elapsed() > Duration::from_secs(20) || i >= c.sc.ops.len() { break; }
            let mut d = c.clone();
            d.sc.ops.drain(i..(i + step).min(c.sc.ops.len()));
            if let Some(w) = fails(&d) { c = d; v.msg = w.msg; shorter = true }
        }
        if t.elapsed() > Duration::from_secs(20) || (step == 1 && !shorter) { break; }
        if !shorter { step = (step / 2).max(1) }
    }
    (c, v)
}

pub struct Inflight(*mut u64);
unsafe impl Send for Inflight {}
unsafe impl Sync for Inflight {}
pub const SLOTS: usize = 16;
impl Inflight {
    pub fn open(path: Option<&str>) -> Inflight {
        unsafe {
            let (fd, flags) = match path {
                Some(p) => { let f = std::fs::OpenOptions::new().read(true).write(true).open(p).expect("in-flight file"); (std::os::fd::IntoRawFd::into_raw_fd(f), libc::MAP_SHARED) }
                None => (-1, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS),
            };
            let p = libc::mmap(std::ptr::null_mut(), SLOTS * 16, libc::PROT_READ | libc::PROT_WRITE, flags, fd, 0);
            assert!(p != libc::MAP_FAILED);
            Inflight(p as *mut u64)
        }
    }
    fn set(&self, t: usize, fam: u64, i: u64) { unsafe { self.0.add(2 * t).write_volatile(fam.wrapping_add(1)); self.0.add(2 * t + 1).write_volatile(i) } }
    fn get(&self, t: usize) -> (u64, u64) { unsafe { (self.0.add(2 * t).read_volatile(), self.0.add(2 * t + 1).read_volatile()) } }
}

pub fn in_flight(path: &str) -> BTreeSet<(usize, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks(16).filter(|c| c.len() == 16).filter_map(|c| {
        let (f, i) = (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()));
        if f == 0 { None } else { Some(((f - 1) as usize, i)) }
    }).collect()
}

fn sample(p: &Prop) -> Vec<String> {
    let mut o = vec![];
    for f in &p.families {
        // the first that there is, from one third and from the middle of the family
        for start in [f.len / 3, f.len / 2] {
            if let Some(c) = (start..f.len.min(start + 200)).find_map(|i| (f.gen)(i)) {
                let t = put_case(&c);
                o.push(if t.len() > 600 { format!("{}...", t.chars().take(600).collect::<String>()) } else { t });
            }
        }
    }
    o.truncate(12);
    o
}

pub fn evidence(p: &Prop, tier: &str, st: &Stats, fams: &str, evaluations: u64, wall: f64, violations: usize, known_hit: &[String], note: &str) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let samples = sample(p).iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    let more = if p.level == "fault_enumeration" {
        format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}", st.traces, st.outcomes.len(), json_str("every sequence of environment answers with at most the stated number of deviations from success; non-trivial: at least one answer deviates; distinct: by answers, artifact and file state"))
    } else {
        format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}", st.states.len(), st.transitions, st.traces)
    };
    let t = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  {},\n  \"cases_generated\": {}, \"distinct_outcomes\": {}, \"counters_capped\": {},\n  \"families\": [{}],\n  \"skipped\": {}, \"counts\": {}, \"known_findings_hit\": [{}], \"note\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        json_str(p.id), json_str(tier), seed, json_str(p.level), more, evaluations, st.outcomes.len(), st.capped, fams,
        json_map(&st.skips), json_map(&st.counts), known_hit.iter().map(|k| json_str(k)).collect::<Vec<_>>().join(", "), json_str(note),
        violations == 0, samples, p.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "), wall, violations);
    let path = dir.join(format!("{}.json", p.id));
    if let Err(e) = std::fs::write(&path, t) { eprintln!("{}: {}", path.display(), e); std::process::exit(3) }
}

/// exit code
pub fn run(p: &Prop, tier: &str, inflight: Option<&str>) -> i32 {
    let start = Instant::now();
    let known = known(p.id);
    let fl = Inflight::open(inflight);
    let n = threads().min(SLOTS);
    let mut total = Stats::default();
    let mut fams = vec![];
    let mut evaluations = 0;
    let mut found: Vec<(Case, Viol)> = vec![];
    let done = AtomicBool::new(false);
    let started: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(u64::MAX)).collect();
    std::thread::scope(|s| {
        // a case that doesn't end is a finding as well
        s.spawn(|| {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                for t in 0..n {
                    let b = started[t].load(SeqCst);
                    if b != u64::MAX && now.saturating_sub(b) > p.patience * 1000 {
                        let (f, i) = fl.get(t);
                        if f == 0 { continue; }
                        let Some(c) = (p.families[f as usize - 1].gen)(i) else { continue };
                        let v = Viol { key: "hang".into(), msg: format!("no end after {} s", p.patience) };
                        let path = write_replay(p.id, &c, &v);
                        println!("{}: {}", p.id, v.msg);
                        println!("VIOLATION property={} replay={}", p.id, path);
                        evidence(p, tier, &Stats { traces: 1, ..Stats::default() }, "", 1, start.elapsed().as_secs_f64(), 1, &[], "stopped by a case that does not end");
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            }
        });
        for (fi, fam) in p.families.iter().enumerate() {
            let t0 = Instant::now();
            let next = AtomicU64::new(0);
            let best = AtomicU64::new(u64::MAX);
            let out: Mutex<Vec<(u64, Case, Viol)>> = Mutex::new(vec![]);
            let chunk = (fam.len / (n as u64 * 32)).clamp(1, 512);
            let cases = AtomicU64::new(0);
            let stats: Vec<Stats> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n).map(|t| {
                    let (next, best, out, fl, started, known, cases) = (&next, &best, &out, &fl, &started, &known, &cases);
                    s.spawn(move || {
                        let mut st = Stats::default();
                        let mut ncases = 0;
                        loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= fam.len || a > best.load(SeqCst) { break; }
                            for i in a..(a + chunk).min(fam.len) {
                                if i > best.load(SeqCst) { break; }
                                let Some(c) = (fam.gen)(i) else { continue };
                                ncases += 1;
                                fl.set(t, fi as u64, i);
                                started[t].store(start.elapsed().as_millis() as u64, SeqCst);
                                let r = match crate::drive::guarded(|| (p.check)(&c, &mut st)) {
                                    Ok(r) => r,
                                    Err(m) => vec![(None, Viol { key: "panic".into(), msg: format!("panic: {}", m) })],
                                };
                                started[t].store(u64::MAX, SeqCst);
                                for (w, v) in r {
                                    if known.iter().any(|k| k.0 == v.key) { *st.seen.entry(v.key).or_default() += 1; continue; }
                                    best.fetch_min(i, SeqCst);
                                    let mut o = out.lock().unwrap();
                                    if o.len() < 64 { o.push((i, w.unwrap_or_else(|| c.clone()), v)) }
                                    break;
                                }
                            }
                        }
                        fl.set(t, u64::MAX, 0);
                        cases.fetch_add(ncases, SeqCst);
                        st
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| { eprintln!("a worker thread of the explorer panicked"); std::process::exit(3) })).collect()
            });
            for st in stats { total.merge(st) }
            let c = cases.load(SeqCst);
            evaluations += c;
            let mut o = out.into_inner().unwrap();
            let complete = o.is_empty();
            fams.push(format!("{{\"name\": {}, \"indexes\": {}, \"cases\": {}, \"complete\": {}, \"wall_s\": {:.2}}}", json_str(&fam.name), fam.len, c, complete, t0.elapsed().as_secs_f64()));
            if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("{} {}: {} cases, {:.2}s", p.id, fam.name, c, t0.elapsed().as_secs_f64()) }
            o.sort_by_key(|x| x.0);
            if let Some((_, c, v)) = o.into_iter().next() { found.push((c, v)) }
            if found.len() >= 3 { break; }
        }
        done.store(true, SeqCst);
    });
    let mut hit = vec![];
    for (k, t) in &known {
        if let Some(n) = total.seen.get(k) { println!("KNOWN-FINDING: property={} {} ({} cases)", p.id, t, n); hit.push(k.clone()) }
    }
    let mut lines = vec![];
    for (c, v) in found {
        let (c, v) = minimise(p.check, c, v);
        let path = write_replay(p.id, &c, &v);
        println!("{}: [{}] {}", p.id, v.key, v.msg);
        lines.push(format!("VIOLATION property={} replay={}", p.id, path));
    }
    evidence(p, tier, &total, &fams.join(",\n   "), evaluations, start.elapsed().as_secs_f64(), lines.len(), &hit, if lines.is_empty() { "" } else { "families with a violation were left at the first one" });
    println!("{} {}: {} cases, {} states, {} transitions, {} traces, {} distinct outcomes, skipped {:?}, {:?}, {:.1} s", p.id, tier, evaluations, total.states.len(), total.transitions, total.traces, total.outcomes.len(), total.skips, total.counts, start.elapsed().as_secs_f64());
    for l in &lines { println!("{}", l) }
    if lines.is_empty() { 0 } else { 1 }
}
