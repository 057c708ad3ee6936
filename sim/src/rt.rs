//! The simulator's runtime: everything the library under test does that is not
//! pure computation passes through here.
//!
//! * every basic-block edge of giron (SanitizerCoverage callback): simulated
//!   time, path hash, coverage, preemption points, step limit;
//! * every heap allocation (global allocator): accounting, fill pattern, limit;
//! * libc calls (environment, clock, entropy, files, output, process end,
//!   threads, futex), interposed at link level.
//!
//! Exactly one thread runs at any time (see `sched`), so plain statics are used.
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

// exit statuses of simulated processes
pub const EX_STEPS: i32 = 90; // step limit reached
pub const EX_HEAP: i32 = 91; // heap limit reached
pub const EX_DEADLOCK: i32 = 92; // no runnable thread
pub const EX_EXIT: i32 = 93; // the library tried to end the process
pub const EX_ABORT: i32 = 94; // the library aborted the process
pub const EX_HARNESS: i32 = 99; // error of the harness itself

// ---------------------------------------------------------------- edges

pub static mut STEPS: u64 = 0;
pub static mut NEXT: u64 = u64::MAX;
pub static mut LIMIT: u64 = u64::MAX;
pub static mut HASH: u64 = 0;
pub static mut MINSP: usize = usize::MAX;
pub static mut IN_LIB: bool = false;
pub static mut SCHED_ON: bool = false;

static GUARDS: AtomicUsize = AtomicUsize::new(0);
pub const COV_MAX: usize = 1 << 17;
static mut COV_LOCAL: [u8; COV_MAX] = [0; COV_MAX];
/// points into shared memory once the orchestrator has set it up
pub static mut COV: *mut u8 = std::ptr::addr_of_mut!(COV_LOCAL) as *mut u8;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        let id = GUARDS.load(Relaxed) + 1;
        GUARDS.store(id, Relaxed);
        *p = if id < COV_MAX { id as u32 } else { 0 };
        p = p.add(1);
    }
}

static mut PCS: (*const [usize; 2], *const [usize; 2]) = (std::ptr::null(), std::ptr::null());

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const [usize; 2], stop: *const [usize; 2]) {
    PCS = (start, stop);
}

/// Address (relative to the image) of every edge, in the order of the guards.
pub fn edge_addresses() -> Vec<usize> {
    extern "C" {
        static __executable_start: u8;
    }
    unsafe {
        let base = std::ptr::addr_of!(__executable_start) as usize;
        let n = (PCS.1 as usize - PCS.0 as usize) / 16;
        (0..n).map(|i| (*PCS.0.add(i))[0].wrapping_sub(base)).collect()
    }
}

pub fn edges_total() -> usize {
    GUARDS.load(Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard;
    *COV.add(g as usize) = 1;
    HASH = (HASH ^ g as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    let sp: usize;
    asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
    if sp < MINSP {
        MINSP = sp;
    }
    STEPS += 1;
    if STEPS >= NEXT {
        slow_edge();
    }
}

/// Accesses of the library to writable static memory (state shared by all threads)
/// while threads are scheduled: further points at which the simulator may switch.
pub static mut SHARED_ACCESSES: u64 = 0;
static mut STATICS: (usize, usize) = (usize::MAX, 0);

/// Where the writable statics of the image lie.
pub fn find_statics() {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    unsafe {
        STATICS = (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize - std::ptr::addr_of!(__data_start) as usize);
    }
}

#[inline(always)]
unsafe fn touch(a: usize) {
    if a.wrapping_sub(STATICS.0) < STATICS.1 && SCHED_ON {
        shared_access();
    }
}

#[inline(never)]
unsafe fn shared_access() {
    SHARED_ACCESSES += 1;
    crate::sched::at_shared();
}

macro_rules! access_callbacks {
    ($($f:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(a: usize) {
            touch(a)
        }
    )*};
}
access_callbacks! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

#[inline(never)]
unsafe fn slow_edge() {
    if STEPS >= LIMIT {
        raw_exit(EX_STEPS);
    }
    if SCHED_ON {
        crate::sched::preempt();
    } else {
        NEXT = LIMIT;
    }
}

/// Starts a measured stretch: counters at zero, at most `limit` steps.
pub fn reset(limit: u64) {
    unsafe {
        STEPS = 0;
        HASH = 0;
        MINSP = usize::MAX;
        LIMIT = limit;
        NEXT = limit;
        COPIED = 0;
        SCANNED = 0;
        TOTAL.store(0, Relaxed);
        ALLOCS.store(0, Relaxed);
        PEAK.store(LIVE.load(Relaxed), Relaxed);
    }
}

pub fn steps() -> u64 {
    unsafe { STEPS }
}

// ---------------------------------------------------------------- heap

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static HEAP_LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
/// 0: leave fresh memory as it is; otherwise fill it with a pattern
pub static FILL: AtomicU64 = AtomicU64::new(0);
pub static mut COPIED: u64 = 0;
/// bytes that precompiled functions of core and libc looked at
pub static mut SCANNED: u64 = 0;

mod wraps {
    include!(concat!(env!("OUT_DIR"), "/wraps.rs"));
}

pub struct Heap;

#[inline]
unsafe fn grew(n: usize) {
    let live = LIVE.load(Relaxed) + n as i64;
    LIVE.store(live, Relaxed);
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
        if live > HEAP_LIMIT.load(Relaxed) {
            raw_exit(EX_HEAP);
        }
    }
    TOTAL.store(TOTAL.load(Relaxed) + n as u64, Relaxed);
    ALLOCS.store(ALLOCS.load(Relaxed) + 1, Relaxed);
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grew(l.size());
        let p = System.alloc(l);
        let fill = FILL.load(Relaxed);
        if fill != 0 && !p.is_null() {
            let mut x = fill;
            for i in 0..l.size() {
                *p.add(i) = x as u8;
                if fill & 1 == 1 {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407).rotate_left(7);
                }
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grew(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.store(LIVE.load(Relaxed) - l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.store(LIVE.load(Relaxed) - l.size() as i64, Relaxed);
        grew(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static HEAP: Heap = Heap;

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    COPIED += n as u64;
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _,
         options(nostack, preserves_flags));
    d
}

#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    COPIED += n as u64;
    if (d as usize) <= (s as usize) || (d as usize) >= (s as usize) + n {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _,
             options(nostack, preserves_flags));
    } else {
        asm!("std", "rep movsb", "cld", inout("rcx") n => _,
             inout("rdi") d.add(n).sub(1) => _, inout("rsi") s.add(n).sub(1) => _,
             options(nostack));
    }
    d
}

// ---------------------------------------------------------------- system calls

#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

pub fn raw_exit(code: i32) -> ! {
    unsafe {
        raw(231, code as i64, 0, 0, 0, 0, 0);
        loop {
            asm!("hlt");
        }
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

pub unsafe fn raw_write(fd: i32, mut p: *const u8, mut n: usize) {
    while n > 0 {
        let r = raw(1, fd as i64, p as i64, n as i64, 0, 0, 0);
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        p = p.add(r as usize);
        n -= r as usize;
    }
}

pub fn say(fd: i32, s: &str) {
    unsafe { raw_write(fd, s.as_ptr(), s.len()) }
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    // eight bytes at a time while they agree
    while i + 8 <= n && (a.add(i) as *const u64).read_unaligned() == (b.add(i) as *const u64).read_unaligned() {
        i += 8;
    }
    while i < n && a.add(i).read_volatile() == b.add(i).read_volatile() {
        i += 1;
    }
    SCANNED += i as u64;
    if i == n { 0 } else { *a.add(i) as i32 - *b.add(i) as i32 }
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}

// ---------------------------------------------------------------- ambient environment

/// Effects the library attempted while IN_LIB.
pub const EFFECTS: [&str; 13] = [
    "write", "open", "socket", "connect", "exit", "unlink", "mkdir", "rename", "exec", "thread", "stat", "read", "working directory",
];
pub static EFFECT_COUNT: [AtomicU64; 13] = [const { AtomicU64::new(0) }; 13];
/// Reads of the ambient environment: getenv, clock, entropy, pid, sleep
pub static AMBIENT_COUNT: [AtomicU64; 5] = [const { AtomicU64::new(0) }; 5];

#[inline]
unsafe fn effect(kind: usize) -> bool {
    if IN_LIB {
        EFFECT_COUNT[kind].store(EFFECT_COUNT[kind].load(Relaxed) + 1, Relaxed);
        true
    } else {
        false
    }
}

#[inline]
unsafe fn ambient(kind: usize) -> bool {
    if IN_LIB {
        AMBIENT_COUNT[kind].store(AMBIENT_COUNT[kind].load(Relaxed) + 1, Relaxed);
        ENV_ON
    } else {
        false
    }
}

/// The simulated environment (C07): active only while IN_LIB and ENV_ON.
pub static mut ENV_ON: bool = false;
/// 0 unset, 1 "1", 2 "", 3 "0", 4 long text, 5 hash of the name, 6 "true", 7 path
pub static mut ENV_MODE: u8 = 0;
/// 0 frozen, 1 ticking, 2 jumping, 3 backwards
pub static mut CLOCK_MODE: u8 = 0;
pub static mut CLOCK_NOW: u64 = 0;
pub static mut ENTROPY: u64 = 0;
pub static mut PID: i32 = 0;

static LONG: [u8; 5001] = {
    let mut a = [b'x'; 5001];
    a[5000] = 0;
    a
};
static DIGITS: [[u8; 3]; 10] =
    [*b"00\0", *b"17\0", *b"42\0", *b"-1\0", *b"99\0", *b"1 \0", *b"on\0", *b"no\0", *b"C \0", *b"de\0"];

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if ambient(0) {
        let mut h = 7u64;
        let mut i = 0;
        while *name.add(i) != 0 {
            h = crate::rng::mix(h ^ *name.add(i) as u64);
            i += 1;
        }
        return match ENV_MODE {
            0 => std::ptr::null(),
            1 => b"1\0".as_ptr(),
            2 => b"\0".as_ptr(),
            3 => b"0\0".as_ptr(),
            4 => LONG.as_ptr(),
            6 => b"true\0".as_ptr(),
            7 => b"/tmp\0".as_ptr(),
            _ => DIGITS[(h % 10) as usize].as_ptr(),
        };
    }
    getenv_real(name)
}

extern "C" {
    static environ: *const *const u8;
}

unsafe fn getenv_real(name: *const u8) -> *const u8 {
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let s = *e;
        let mut i = 0;
        while *name.add(i) != 0 && *s.add(i) == *name.add(i) {
            i += 1;
        }
        if *name.add(i) == 0 && *s.add(i) == b'=' {
            return s.add(i + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut i64) -> i32 {
    if ambient(1) {
        let step = match CLOCK_MODE {
            0 => 0,
            1 => 1_000_003,
            2 => (crate::rng::mix(CLOCK_NOW) % 1_000_000_000_000) as i64,
            _ => -((crate::rng::mix(CLOCK_NOW) % 1_000_000_000) as i64),
        };
        CLOCK_NOW = CLOCK_NOW.wrapping_add(step as u64) % 8_000_000_000_000_000_000;
        *t = (CLOCK_NOW / 1_000_000_000) as i64;
        *t.add(1) = (CLOCK_NOW % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(228, id as i64, t as i64, 0, 0, 0, 0)) as i32
}

unsafe fn entropy_fill(p: *mut u8, n: usize) {
    for i in 0..n {
        ENTROPY = crate::rng::mix(ENTROPY);
        *p.add(i) = ENTROPY as u8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if ambient(2) {
        entropy_fill(p, n);
        return n as isize;
    }
    ret(raw(318, p as i64, n as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if ambient(3) {
        return PID;
    }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const i64, b: *mut i64) -> i32 {
    if IN_LIB {
        ambient(4);
        // simulated time: sleeping costs nothing
        CLOCK_NOW = CLOCK_NOW.wrapping_add(*a as u64 * 1_000_000_000 + *a.add(1) as u64);
        if SCHED_ON {
            crate::sched::yield_now();
        }
        return 0;
    }
    ret(raw(35, a as i64, b as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, f: i32, a: *const i64, b: *mut i64) -> i32 {
    if IN_LIB {
        return nanosleep(a, b);
    }
    -(raw(230, id as i64, f as i64, a as i64, b as i64, 0, 0) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if SCHED_ON {
        crate::sched::yield_now();
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if effect(0) {
        return n as isize; // recorded, not performed
    }
    ret(raw(1, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if effect(0) {
        let mut t = 0;
        for i in 0..n as usize {
            t += (*v.add(i))[1];
        }
        return t as isize;
    }
    ret(raw(20, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, f: i32, m: i32) -> i32 {
    if effect(1) {
        *__errno_location() = 13;
        return -1;
    }
    ret(raw(2, p as i64, f as i64, m as i64, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const u8, f: i32, m: i32) -> i32 {
    if effect(1) {
        *__errno_location() = 13;
        return -1;
    }
    ret(raw(257, d as i64, p as i64, f as i64, m as i64, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn socket(a: i32, b: i32, c: i32) -> i32 {
    if effect(2) {
        *__errno_location() = 13;
        return -1;
    }
    ret(raw(41, a as i64, b as i64, c as i64, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn connect(a: i32, b: *const u8, c: u32) -> i32 {
    if effect(3) {
        *__errno_location() = 111;
        return -1;
    }
    ret(raw(42, a as i64, b as i64, c as i64, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    if effect(5) {
        *__errno_location() = 13;
        return -1;
    }
    ret(raw(87, p as i64, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, m: u32) -> i32 {
    if effect(6) {
        *__errno_location() = 13;
        return -1;
    }
    ret(raw(83, p as i64, m as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    if effect(7) {
        *__errno_location() = 13;
        return -1;
    }
    ret(raw(82, a as i64, b as i64, 0, 0, 0, 0)) as i32
}

unsafe fn denied(kind: usize) -> bool {
    if effect(kind) {
        *__errno_location() = 13;
        return true;
    }
    false
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const u8, f: i32, m: u32, b: *mut u8) -> i32 {
    if denied(10) {
        return -1;
    }
    ret(raw(332, d as i64, p as i64, f as i64, m as i64, b as i64, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const u8, b: *mut u8) -> i32 {
    if denied(10) {
        return -1;
    }
    ret(raw(4, p as i64, b as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const u8, b: *mut u8) -> i32 {
    if denied(10) {
        return -1;
    }
    ret(raw(6, p as i64, b as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn access(p: *const u8, m: i32) -> i32 {
    if denied(10) {
        return -1;
    }
    ret(raw(21, p as i64, m as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const u8, b: *mut u8, n: usize) -> isize {
    if denied(10) {
        return -1;
    }
    ret(raw(89, p as i64, b as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if denied(11) {
        return -1;
    }
    ret(raw(0, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if denied(12) {
        return std::ptr::null_mut();
    }
    let r = ret(raw(79, b as i64, n as i64, 0, 0, 0, 0));
    if r < 0 { std::ptr::null_mut() } else { b }
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if ambient(3) {
        return (crate::rng::mix(ENTROPY) & 1) as i32;
    }
    let mut t = [0u8; 64];
    (raw(16, fd as i64, 0x5401, t.as_mut_ptr() as i64, 0, 0, 0) == 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    if ambient(3) {
        return PID + 1;
    }
    raw(110, 0, 0, 0, 0, 0, 0) as i32
}

/// The argument vector of this process, as std sees it.
static mut ARGV: *mut *const u8 = std::ptr::null_mut();
static mut ARGC: i32 = 0;

extern "C" fn note_args(argc: i32, argv: *mut *const u8, _env: *mut *const u8) {
    unsafe {
        ARGC = argc;
        ARGV = argv;
    }
}

#[used]
#[link_section = ".init_array"]
static NOTE_ARGS: extern "C" fn(i32, *mut *const u8, *mut *const u8) = note_args;

/// Replaces the arguments of this process, as many as there are.
pub fn set_args(args: &[String]) {
    unsafe {
        for (i, a) in args.iter().take(ARGC.max(0) as usize).enumerate() {
            let mut s = a.clone().into_bytes();
            s.push(0);
            *ARGV.add(i) = Box::leak(s.into_boxed_slice()).as_ptr();
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    raw_exit(EX_ABORT)
}

extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if effect(4) {
        raw_exit(EX_EXIT);
    }
    let f = dlsym(-1isize as *mut u8, b"exit\0".as_ptr());
    let f: extern "C" fn(i32) -> ! = std::mem::transmute(f);
    f(code)
}

#[no_mangle]
pub unsafe extern "C" fn _exit(code: i32) -> ! {
    if effect(4) {
        raw_exit(EX_EXIT);
    }
    raw_exit(code)
}

/// std reaches futexes and getrandom through this function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && SCHED_ON {
        return ret(crate::sched::futex(a as *const u32, b as i32, c as u32, d));
    }
    if n == 318 && ambient(2) {
        entropy_fill(a as *mut u8, b as usize);
        return b;
    }
    ret(raw(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- stack

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, a: *mut [u8; 56]) -> i32;
    fn pthread_attr_getstack(a: *const [u8; 56], addr: *mut *mut u8, size: *mut usize) -> i32;
    fn pthread_attr_destroy(a: *mut [u8; 56]) -> i32;
}

/// Lowest address of the calling thread's stack.
pub fn stack_low() -> usize {
    unsafe {
        let mut a = [0u8; 56];
        let mut lo: *mut u8 = std::ptr::null_mut();
        let mut size = 0usize;
        pthread_getattr_np(pthread_self(), &mut a);
        pthread_attr_getstack(&a, &mut lo, &mut size);
        pthread_attr_destroy(&mut a);
        lo as usize
    }
}

pub const PAINT: u64 = 0xD5A1_C0DE_5EED_57AC;

/// Paints the unused stack below the caller, runs `f`, and returns how many
/// bytes of stack below the caller it used.
#[inline(never)]
pub fn stack_used<R>(max: usize, f: impl FnOnce() -> R) -> (R, usize) {
    let lo = stack_low();
    let sp: usize;
    unsafe { asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack)) };
    let top = (sp - 512) & !15;
    let bottom = (lo + 16384).max(top.saturating_sub(max));
    unsafe {
        let mut p = bottom;
        while p < top {
            (p as *mut u64).write_volatile(PAINT);
            p += 8;
        }
    }
    let r = f();
    let mut p = bottom;
    unsafe {
        while p < top && (p as *const u64).read_volatile() == PAINT {
            p += 8;
        }
    }
    (r, top - p)
}
