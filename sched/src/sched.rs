//! The scheduler. faerie is compiled with the instrumentation of ThreadSanitizer, and these are the functions that it calls:
//! every atomic operation, every access to static memory, and every write to what the main thread has allocated of a controlled thread is a point at which the schedule decides
//! who goes on (and, in the fine grain, every call of a function). Blocking (futex), yielding and writing to files are points too.
//! Exactly one controlled thread runs at a time.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub const MAX_STEPS: usize = 1 << 17;
const PATIENCE: u32 = 50_000;

thread_local! { static TID: Cell<u32> = const { Cell::new(0) }; static SINCE: Cell<u32> = const { Cell::new(0) }; }

/// what parent and child share
#[repr(C)]
pub struct Shared {
    pub steps: AtomicU32,
    /// a step: who runs (from 1; 4 bits), who could (8 bits), why there is a choice (4 bits), what is about to be accessed (47 bits), to be written?
    pub trace: [AtomicU64; MAX_STEPS],
    pub end: AtomicU32,
    pub results: [AtomicU64; 64],
}
pub const ENDED: u32 = 1;
pub const DEADLOCK: u32 = 2;
pub const STUCK: u32 = 3;

/// why there is a choice at a step
pub const START: u32 = 0;
pub const ATOMIC: u32 = 1;
pub const STATIC: u32 = 2;
pub const CALL: u32 = 3;
pub const LOG: u32 = 4;
pub const BLOCKED: u32 = 5;
pub const DONE: u32 = 6;
pub const YIELD: u32 = 7;
pub const WRITE: u32 = 8;
pub const WAKE: u32 = 9;
pub const HEAPED: u32 = 10;
pub const NAMES: [&str; 11] = ["start", "atomic", "static", "call", "log", "blocked", "done", "yield", "write", "wake", "heap"];
/// at these the thread cannot, or does not want to, go on
pub fn forced(why: u32) -> bool { matches!(why, START | BLOCKED | DONE | YIELD) }

static SHARED: AtomicUsize = AtomicUsize::new(0);
static CUR: AtomicU32 = AtomicU32::new(0);
static READY: AtomicU32 = AtomicU32::new(0);
static LEFT: AtomicU32 = AtomicU32::new(0);
static FREE: AtomicBool = AtomicBool::new(false);
static FINE: AtomicBool = AtomicBool::new(false);
static WAITING: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// (step, thread)
static mut SCHEDULE: &[(u32, u32)] = &[];

pub fn shared() -> &'static Shared { unsafe { &*(SHARED.load(SeqCst) as *const Shared) } }
pub fn map() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        SHARED.store(p as usize, SeqCst);
    }
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) { *libc::__errno_location() = -r as i32; -1 } else { r }
}
fn wait(w: &AtomicU32, v: u32) { unsafe { raw(libc::SYS_futex, w.as_ptr() as usize, 128, v as usize, 0, 0, 0); } }
fn wake(w: &AtomicU32) { unsafe { raw(libc::SYS_futex, w.as_ptr() as usize, 129, i32::MAX as usize, 0, 0, 0); } }

fn end(how: u32) -> ! {
    shared().end.store(how, SeqCst);
    unsafe { libc::_exit(0) }
}

/// What to do at a step that is a choice
fn choose(me: u32, why: u32, what: u64) -> u32 {
    let ready = READY.load(SeqCst);
    let sh = shared();
    let s = sh.steps.fetch_add(1, SeqCst);
    if (s as usize) < MAX_STEPS { sh.trace[s as usize].store((me | ready << 4 | why << 12) as u64 | what << 16, SeqCst) }
    let mut to = if forced(why) {
        // the next one in turn
        let others = ready & !(1 << me);
        if others == 0 { if ready == 0 { 0 } else { me } } else { let above = others & !((2u32 << me) - 1); (if above != 0 { above } else { others }).trailing_zeros() }
    } else { me };
    let n = NEXT.load(SeqCst);
    let schedule = unsafe { SCHEDULE };
    if let Some(&(at, t)) = schedule.get(n) {
        if at == s { NEXT.store(n + 1, SeqCst); if ready >> t & 1 == 1 { to = t } }
    }
    to
}
fn go(me: u32, to: u32, stay: bool) {
    if to == me { return; }
    CUR.store(to, SeqCst);
    wake(&CUR);
    if stay { park(me) }
}
fn park(me: u32) {
    loop {
        if FREE.load(SeqCst) { return; }
        let c = CUR.load(SeqCst);
        if c == me { break; }
        wait(&CUR, c);
    }
    SINCE.set(0);
}
/// A point of the running thread
pub fn point(why: u32) { access(why, 0, false) }
#[inline(never)]
fn access(why: u32, a: usize, w: bool) {
    let me = TID.get();
    if me == 0 || FREE.load(SeqCst) { return; }
    let n = SINCE.get() + 1;
    SINCE.set(n);
    // somebody who waits in a loop
    let why = if n > PATIENCE { SINCE.set(0); YIELD } else { why };
    go(me, choose(me, why, (a as u64 & ((1 << 47) - 1)) | (w as u64) << 47), true)
}
/// is this a thread of ours, and under control?
fn controlled() -> u32 { let me = TID.get(); if FREE.load(SeqCst) { 0 } else { me } }

pub fn arm(schedule: Vec<(u32, u32)>, threads: u32, fine: bool) {
    unsafe { SCHEDULE = Box::leak(schedule.into_boxed_slice()) }
    FINE.store(fine, SeqCst);
    NEXT.store(0, SeqCst);
    let sh = shared();
    sh.steps.store(0, SeqCst);
    sh.end.store(0, SeqCst);
    unsafe { HEAP = (&raw const _end as usize, libc::sbrk(0) as usize) }
    READY.store(((1u32 << threads) - 1) << 1, SeqCst);
    LEFT.store(threads, SeqCst);
    CUR.store(0, SeqCst);
}
pub fn body<T>(me: u32, f: impl FnOnce() -> T) -> T {
    park(me);
    TID.set(me);
    let r = f();
    TID.set(0);
    READY.fetch_and(!(1 << me), SeqCst);
    let left = LEFT.fetch_sub(1, SeqCst) - 1;
    wake(&LEFT);
    if left > 0 && !FREE.load(SeqCst) {
        let to = choose(me, DONE, 0);
        if to == 0 { end(DEADLOCK) }
        go(me, to, false);
    }
    r
}
/// Let them run; returns when all are done
pub fn release() {
    let first = choose(0, START, 0);
    CUR.store(first, SeqCst);
    wake(&CUR);
    let (mut last, mut idle) = (0, 0);
    loop {
        let l = LEFT.load(SeqCst);
        if l == 0 { return; }
        let t = libc::timespec { tv_sec: 1, tv_nsec: 0 };
        let r = unsafe { raw(libc::SYS_futex, LEFT.as_ptr() as usize, 128, l as usize, &t as *const _ as usize, 0, 0) };
        if r == -(libc::ETIMEDOUT as isize) {
            let s = shared().steps.load(SeqCst);
            if s == last { idle += 1 } else { idle = 0; last = s }
            // waiting for somebody without telling: an execution that is not of the schedule
            if idle == 3 { FREE.store(true, SeqCst); wake(&CUR) }
            if idle == 15 { end(STUCK) }
        }
    }
}
pub fn freed() -> bool { FREE.load(SeqCst) }

// ---------------------------------------------------------------- what blocks

/// std's locks call this
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let me = if n == libc::SYS_futex { controlled() } else { 0 };
    if me != 0 {
        let op = b as i32 & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 { return ret(-(libc::EAGAIN as isize)); }
            if d != 0 { point(YIELD); return ret(-(libc::ETIMEDOUT as isize)); }
            WAITING[me as usize].store(a, SeqCst);
            READY.fetch_and(!(1 << me), SeqCst);
            let to = choose(me, BLOCKED, 0);
            if to == 0 { end(DEADLOCK) }
            go(me, to, true);
            return 0;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            let mut k = 0;
            for (t, w) in WAITING.iter().enumerate() {
                if k < c as u32 as usize && w.load(SeqCst) == a { w.store(0, SeqCst); READY.fetch_or(1 << t, SeqCst); k += 1 }
            }
            point(WAKE);
            return k as isize;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if controlled() != 0 { point(YIELD); return 0; }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if controlled() != 0 { point(YIELD); return 0; }
    ret(raw(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if controlled() != 0 { point(YIELD); return 0; }
    -raw(libc::SYS_clock_nanosleep, c as usize, fl as usize, a as usize, b as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    point(WRITE);
    ret(raw(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0))
}

// ---------------------------------------------------------------- what the instrumentation calls

extern "C" { static __data_start: u8; static _end: u8; }
#[inline(always)]
unsafe fn touched(a: usize, w: bool) {
    if a >= &raw const __data_start as usize && a < &raw const _end as usize { access(STATIC, a, w) }
    // what was there before the threads is not written to, unless it is shared
    else if w && a >= HEAP.0 && a < HEAP.1 { access(HEAPED, a, w) }
}
static mut HEAP: (usize, usize) = (0, 0);
macro_rules! plain { ($w:expr, $($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(a: usize) { touched(a, $w) })* } }
plain!(false,
    __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16 __tsan_unaligned_read1 __tsan_unaligned_read2 __tsan_unaligned_read4
    __tsan_unaligned_read8 __tsan_unaligned_read16 __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8
    __tsan_volatile_read16 __tsan_unaligned_volatile_read1 __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_read4
    __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_read16 __tsan_vptr_read);
plain!(true,
    __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16 __tsan_unaligned_write1 __tsan_unaligned_write2 __tsan_unaligned_write4
    __tsan_unaligned_write8 __tsan_unaligned_write16 __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8
    __tsan_volatile_write16 __tsan_unaligned_volatile_write1 __tsan_unaligned_volatile_write2 __tsan_unaligned_volatile_write4
    __tsan_unaligned_volatile_write8 __tsan_unaligned_volatile_write16 __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8
    __tsan_read_write16 __tsan_unaligned_read_write1 __tsan_unaligned_read_write2 __tsan_unaligned_read_write4 __tsan_unaligned_read_write8
    __tsan_unaligned_read_write16);
#[no_mangle] pub unsafe extern "C" fn __tsan_vptr_update(a: usize, _: usize) { touched(a, true) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_range(a: usize, _: usize) { touched(a, false) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write_range(a: usize, _: usize) { touched(a, true) }
#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_: usize) { if FINE.load(SeqCst) { point(CALL) } }
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle] pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { touched(d as usize, true); touched(s as usize, false); libc::memcpy(d as _, s as _, n) as _ }
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { touched(d as usize, true); touched(s as usize, false); libc::memmove(d as _, s as _, n) as _ }
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { touched(d as usize, true); libc::memset(d as _, c, n) as _ }
#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_: i32) { point(ATOMIC) }
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
macro_rules! atomics { ($($t:ty, $a:ident, $load:ident $store:ident $exchange:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $strong:ident $weak:ident;)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $load(a: *const std::sync::atomic::$a, _: i32) -> $t { access(ATOMIC, a as usize, false); (*a).load(SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $store(a: *const std::sync::atomic::$a, v: $t, _: i32) { access(ATOMIC, a as usize, true); (*a).store(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $exchange(a: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { access(ATOMIC, a as usize, true); (*a).swap(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $add(a: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { access(ATOMIC, a as usize, true); (*a).fetch_add(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sub(a: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { access(ATOMIC, a as usize, true); (*a).fetch_sub(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $and(a: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { access(ATOMIC, a as usize, true); (*a).fetch_and(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(a: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { access(ATOMIC, a as usize, true); (*a).fetch_or(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xor(a: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { access(ATOMIC, a as usize, true); (*a).fetch_xor(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $nand(a: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { access(ATOMIC, a as usize, true); (*a).fetch_nand(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cas(a: *const std::sync::atomic::$a, c: $t, v: $t, _: i32, _: i32) -> $t { access(ATOMIC, a as usize, true); match (*a).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x } }
    #[no_mangle] pub unsafe extern "C" fn $strong(a: *const std::sync::atomic::$a, c: *mut $t, v: $t, _: i32, _: i32) -> i32 { access(ATOMIC, a as usize, true); match (*a).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
    #[no_mangle] pub unsafe extern "C" fn $weak(a: *const std::sync::atomic::$a, c: *mut $t, v: $t, _: i32, _: i32) -> i32 { access(ATOMIC, a as usize, true); match (*a).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
)* } }
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak;
}
