//! C08: every sequence of answers the operating system may give to the writes of an artifact,
//! up to a number of deviations from "all of it was written".
//!
//! `write` and its relatives are interposed (the definitions below win over libc's); what goes to
//! the file under test is answered according to a script, everything else is passed on.
use crate::drive;
use crate::emission;
use crate::families::*;
use crate::runner::{Found, Stats};
use crate::types::*;
use crate::view::*;
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Answer { All, One, Half, AllButOne, Intr, Again, NoSpace, Io, Zero, Error(i32), Part(usize) }
const ANSWERS: [Answer; 9] = [Answer::All, Answer::One, Answer::Half, Answer::AllButOne, Answer::Intr, Answer::Again, Answer::NoSpace, Answer::Io, Answer::Zero];
const ERRORS: usize = 133;
/// by their numbers: the ones above, all errors there are, and all numbers of bytes
fn ans(k: usize) -> Answer {
    if k < ANSWERS.len() { ANSWERS[k] } else if k < ANSWERS.len() + ERRORS { match (k - ANSWERS.len() + 1) as i32 { libc::EINTR => Answer::Intr, e => Answer::Error(e) } } else { Answer::Part(k - ANSWERS.len() - ERRORS + 1) }
}
fn err(e: i32) -> usize { ANSWERS.len() + e as usize - 1 }
fn part(n: usize) -> usize { ANSWERS.len() + ERRORS + n - 1 }

struct Script { ino: (u64, u64), devs: Vec<(usize, usize)>, taken: Vec<usize>, calls: usize, overrun: bool, horizon: usize }
thread_local! { static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) }; }

fn ino(fd: i32) -> Option<(u64, u64)> {
    unsafe { let mut s: libc::stat = std::mem::zeroed(); if libc::fstat(fd, &mut s) == 0 { Some((s.st_dev as u64, s.st_ino as u64)) } else { None } }
}
fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e } }
/// None: not the file under test
fn answer(fd: i32, n: usize) -> Option<Result<usize, i32>> {
    SCRIPT.try_with(|s| {
        let mut s = s.try_borrow_mut().ok()?;
        let s = s.as_mut()?;
        if ino(fd)? != s.ino { return None; }
        s.calls += 1;
        // a write of nothing is no place for a deviation
        if n == 0 { return Some(Ok(0)); }
        let at = s.taken.len();
        let k = s.devs.iter().find(|d| d.0 == at).map_or(0, |d| d.1);
        s.taken.push(k);
        if s.taken.len() > s.horizon { s.overrun = true; return Some(Err(libc::EIO)); }
        Some(match ans(k) {
            Answer::Error(e) => Err(e),
            Answer::Part(k) => Ok(k.min(n)),
            Answer::All => Ok(n),
            Answer::One => Ok(1),
            Answer::Half => Ok((n / 2).max(1)),
            Answer::AllButOne => Ok((n - 1).max(1)),
            Answer::Intr => Err(libc::EINTR),
            Answer::Again => Err(libc::EAGAIN),
            Answer::NoSpace => Err(libc::ENOSPC),
            Answer::Io => Err(libc::EIO),
            Answer::Zero => Ok(0),
        })
    }).ok().flatten()
}
unsafe fn raw_write(fd: i32, p: *const libc::c_void, n: usize) -> isize { libc::syscall(libc::SYS_write, fd, p, n) as isize }
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    match answer(fd, n) {
        None => raw_write(fd, p, n),
        Some(Err(e)) => { set_errno(e); -1 }
        Some(Ok(k)) => if k == 0 { 0 } else { raw_write(fd, p, k) },
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, c: i32) -> isize {
    let parts = std::slice::from_raw_parts(v, c.max(0) as usize);
    match answer(fd, parts.iter().map(|x| x.iov_len).sum()) {
        None => libc::syscall(libc::SYS_writev, fd, v, c) as isize,
        Some(Err(e)) => { set_errno(e); -1 }
        Some(Ok(mut k)) => {
            let mut done = 0;
            for x in parts {
                let n = x.iov_len.min(k);
                if n == 0 { continue; }
                let r = raw_write(fd, x.iov_base, n);
                if r < 0 { return if done > 0 { done } else { r }; }
                done += r;
                k -= n;
            }
            done
        }
    }
}
unsafe fn pw(fd: i32, p: *const libc::c_void, n: usize, o: i64) -> isize {
    match answer(fd, n) {
        None => libc::syscall(libc::SYS_pwrite64, fd, p, n, o) as isize,
        Some(Err(e)) => { set_errno(e); -1 }
        Some(Ok(k)) => if k == 0 { 0 } else { libc::syscall(libc::SYS_pwrite64, fd, p, k, o) as isize },
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const libc::c_void, n: usize, o: i64) -> isize { pw(fd, p, n, o) }
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, p: *const libc::c_void, n: usize, o: i64) -> isize { pw(fd, p, n, o) }

fn memfd() -> std::fs::File {
    unsafe { let fd = libc::memfd_create(b"f\0".as_ptr() as *const _, 0); assert!(fd >= 0, "memfd_create"); std::fs::File::from_raw_fd(fd) }
}

fn content(mut f: &std::fs::File) -> Vec<u8> {
    use std::os::unix::fs::FileExt;
    if !f.metadata().unwrap().is_file() {
        let mut v = vec![];
        let _ = f.read_to_end(&mut v);
        return v;
    }
    let n = f.metadata().unwrap().len() as usize;
    let mut v = vec![0; n];
    f.read_exact_at(&mut v, 0).unwrap();
    v
}

/// how the file looks before
fn prepare(k: &str) -> (std::fs::File, std::fs::File, Vec<u8>, u64) {
    // what has no position at all: what is in it is read from the other end
    if k == "pipe" {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_NONBLOCK) == 0);
            libc::fcntl(fds[1], libc::F_SETPIPE_SZ, 1 << 20);
            return (std::fs::File::from_raw_fd(fds[1]), std::fs::File::from_raw_fd(fds[0]), vec![], 0);
        }
    }
    let mut f = memfd();
    let old: Vec<u8> = match k { "old-end" | "old-middle" | "append" => (0..300u32).map(|x| (x % 251) as u8 + 1).collect(), _ => vec![] };
    f.write_all(&old).unwrap();
    let pos = match k { "old-middle" => 100, "append" => { f.seek(SeekFrom::Start(0)).unwrap(); unsafe { let fl = libc::fcntl(f.as_raw_fd(), libc::F_GETFL); libc::fcntl(f.as_raw_fd(), libc::F_SETFL, fl | libc::O_APPEND); } old.len() as u64 } _ => old.len() as u64 };
    if k == "old-middle" { f.seek(SeekFrom::Start(pos)).unwrap(); }
    let keep = f.try_clone().unwrap();
    (f, keep, old, pos)
}

pub fn check(c: &Case, st: &mut Stats) -> Found {
    let (m, a) = match emission::build(&c.sc, st) { Ok(x) => x, Err(e) => return e };
    let emittable = m.emit_errors("", true).is_empty();
    let fmt = drive::bf(c.fmt());
    let bytes = match drive::emit(&a, fmt) { drive::Out::Bytes(b) if emittable => b, drive::Out::Err(_) if !emittable => vec![], _ => { st.skip("another property's disagreement"); return vec![]; } };
    let bound: usize = c.param("bound").parse().unwrap_or(2);
    let own = c.param("call") == "write";
    // explore: one execution per sequence of answers
    // (a deviation is a position and another answer there)
    let fixed: Option<Vec<(usize, usize)>> = if c.param("answers") == "" { None } else { Some(c.param("answers").split('.').filter_map(|x| { let (p, k) = x.split_once(':')?; Some((p.parse().ok()?, k.parse().ok()?)) }).collect()) };
    // (by number of deviations, so that the bound that was completed is known should there be too many)
    let mut todo: std::collections::VecDeque<Vec<(usize, usize)>> = [fixed.clone().unwrap_or_default()].into();
    let mut calls = 0;
    let mut left = if bytes.len() > 100_000 { 1500 } else if bound > 4 { 400_000 } else { 20_000 };
    let mut writes = 0;
    // those with unusual answers come last, and don't count: there are few of each
    let mut unusual: std::collections::VecDeque<Vec<(usize, usize)>> = Default::default();
    let is_unusual = |devs: &[(usize, usize)]| devs.iter().any(|d| d.1 >= ANSWERS.len());
    let mut spent = false;
    let mut unusual_cost = 0;
    loop {
        let devs = match if spent { None } else { todo.pop_front() } { Some(d) => d, None => match unusual.pop_front() { Some(d) => d, None => break } };
        if !is_unusual(&devs) && (left == 0 || calls > (if bound > 4 { 5_000_000 } else { 300_000 }) && fixed.is_none()) { st.count(&format!("too many executions: complete only up to {} deviations", devs.len().saturating_sub(1))); spent = true; continue; }
        // (each execution costs its calls and its bytes; whoever writes in many small parts has to do without some)
        if is_unusual(&devs) && fixed.is_none() { if unusual_cost > 150_000_000 { st.count("too many executions: not all errors and numbers of bytes"); break; } } else { left -= 1 }
        let (f, keep, old, pos) = prepare(c.param("file"));
        let id = ino(f.as_raw_fd()).unwrap();
        // (whoever writes byte by byte is not stuck)
        let horizon = 1000 + 2 * bytes.len() + devs.len();
        SCRIPT.with(|s| *s.borrow_mut() = Some(Script { ino: id, devs: devs.clone(), taken: vec![], calls: 0, overrun: false, horizon }));
        let r = drive::guarded(|| if own { a.write(f) } else { a.write_as(f, fmt) });
        let s = SCRIPT.with(|s| s.borrow_mut().take()).unwrap();
        st.traces += 1;
        st.transitions += s.taken.len() as u64;
        if is_unusual(&devs) { unusual_cost += 300 * s.taken.len() + bytes.len() / 4 + 3000 } else { calls += s.taken.len() }
        writes = writes.max(s.taken.len());
        let now = content(&keep);
        st.state(&(c.param("file"), c.param("call"), bytes.len(), now.len(), s.calls));
        let fail = |key: &str, msg: String| {
            let mut d = c.clone();
            d.params.insert("answers".into(), if devs.is_empty() { "-".into() } else { devs.iter().map(|(p, k)| format!("{}:{}", p, k)).collect::<Vec<_>>().join(".") });
            vec![(Some(d), viol(key, format!("{} writes, answered in full except {:?}: {}", s.taken.len(), devs.iter().map(|&(p, k)| (p, ans(k))).collect::<Vec<_>>(), msg)))]
        };
        if devs.iter().any(|d| d.0 >= s.taken.len()) && fixed.is_none() { return fail("divergence", "the replayed deviations were not reached: writing is not deterministic".into()); }
        // what must be there if everything was written
        let mut full = old.clone();
        full.truncate(pos as usize);
        full.extend(&bytes);
        if old.len() > full.len() { full.extend(&old[full.len()..]) }
        let written = |n: usize| { let mut v = old.clone(); let p = pos as usize; if v.len() < p + n { v.resize(p + n, 0) } v[p..p + n].copy_from_slice(&bytes[..n]); v };
        match &r {
            Err(p) => return fail("panic", format!("panic: {}", p)),
            Ok(Ok(())) => {
                if !emittable { return fail("accepted", "writing an artifact that cannot be emitted succeeds".into()); }
                if now != full { return fail("lost", format!("success, but the file has {} bytes that are not the {} old and {} emitted ones", now.len(), old.len(), bytes.len())); }
            }
            Ok(Err(_)) => {
                if s.overrun { return fail("livelock", format!("still writing after {} answers", s.taken.len())); }
                // interruptions and short writes are no errors
                if emittable && s.taken.iter().all(|&k| matches!(ans(k), Answer::All | Answer::One | Answer::Half | Answer::AllButOne | Answer::Intr | Answer::Part(_))) { return fail("spurious", "an error, although nothing worse than short writes and interruptions happened".into()); }
                // some prefix of the emitted bytes, and nothing else
                let n = if now.len() > old.len() { now.len() - pos as usize } else { (0..=bytes.len().min(now.len() - pos as usize)).find(|&n| written(n) == now).unwrap_or(usize::MAX) };
                if n > bytes.len() || written(n) != now { return fail("prefix", format!("an error, but the file has {} bytes that are not a prefix of what was emitted", now.len())); }
                if !emittable && now != old { return fail("refused-but-written", "emission is refused, but something was written".into()); }
            }
        }
        st.outcome(&(c.param("file"), bytes.len(), &devs, s.taken.len(), r.as_ref().map(|x| x.is_ok()).unwrap_or(false), now.len()));
        if s.taken.iter().any(|&k| k != 0) { st.count("executions with deviations") }
        if fixed.is_some() { break; }
        // alternatives at every later point
        if devs.len() < (if is_unusual(&devs) { 2 } else { bound }) {
            let n = s.taken.len();
            if n > 16 { st.count("executions with more than 16 writes: only the first and last eight vary") }
            for i in devs.last().map_or(0, |d| d.0 + 1)..n {
                if n > 16 && i >= 8 && i + 8 < n { continue; }
                let mut alts: Vec<usize> = if is_unusual(&devs) { vec![2, 4, 6] } else { (1..ANSWERS.len()).collect() };
                // the first or only deviation may be any error, and any number of bytes; the second one more errors than usual
                if devs.is_empty() {
                    alts.extend((1..=ERRORS as i32).map(err));
                    let b = if n > 4 { 0 } else { bytes.len() };
                    alts.extend((2..b.min(if b < 5000 { 1000 } else { 20 })).chain((10..24).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1])).chain((1..20).flat_map(|k| [8192 * k - 1, 8192 * k, 8192 * k + 1])).filter(|&n| n < b).map(part));
                }
                if devs.len() == 1 && !is_unusual(&devs) { alts.extend([libc::EPIPE, libc::EFBIG, libc::EDQUOT, libc::ENODEV, libc::ETIMEDOUT, libc::EBADF].map(err)) }
                for alt in alts {
                    // (what is beyond the budget need not be kept)
                    if alt < ANSWERS.len() && !is_unusual(&devs) && todo.len() > left { continue; }
                    let mut p = devs.clone();
                    p.push((i, alt));
                    if is_unusual(&p) { unusual.push_back(p) } else { todo.push_back(p) }
                }
            }
        }
    }
    // a file that cannot be written to at all
    if fixed.is_none() && emittable {
        let f = unsafe { let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDONLY); std::fs::File::from_raw_fd(fd) };
        let r = drive::guarded(|| a.write_as(f, fmt));
        if !matches!(r, Ok(Err(_))) { return vec![(None, viol("unwritable", "writing to a file opened for reading succeeds"))]; }
        let f = unsafe { let fd = libc::open(b"/dev/full\0".as_ptr() as *const _, libc::O_WRONLY); std::fs::File::from_raw_fd(fd) };
        let r = drive::guarded(|| a.write_as(f, fmt));
        if !matches!(r, Ok(Err(_))) { return vec![(None, viol("full", "writing to a full device succeeds"))]; }
        st.traces += 2;
    }
    st.add("write calls", writes as u64);
    vec![]
}

pub fn family_of(bound: usize, sizes: Vec<usize>) -> Family {
    let files = ["empty", "old-end", "old-middle", "append", "pipe"];
    let n = (sizes.len() + 1) * files.len() * 2 * 2;
    family(format!("answers with up to {} deviations, {} sizes, {} kinds of files", bound, sizes.len(), files.len()), n as u64, move |i| {
        let mut x = Ix(i);
        let (f, call, file, z) = ([Fmt::Elf, Fmt::Macho][x.n(2)], x.n(2), files[x.n(5)], x.n(sizes.len() + 1));
        // (what fits)
        if file == "pipe" && z < sizes.len() && sizes[z] > 9000 { return None; }
        let mut sc = Scenario::new(tgt(f)).declare("f", Decl::func().scope(Scope::Global)).import("i", Ik::Func);
        // the last one is not emittable
        if z < sizes.len() { sc = sc.define("f", Bytes::Pat(1, sizes[z])); if sizes[z] > 9 { sc = sc.link("f", "i", 1) } }
        Some(Case::new(sc).on(f).with("bound", bound).with("file", file).with("call", if call == 0 { "write_as" } else { "write" }))
    })
}
