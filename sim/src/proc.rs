//! Simulated processes (forks), shared counters, crash attribution.
use crate::rt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

// ---------------------------------------------------------------- counters

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum Ct { $($n),* }
        pub const CT_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}

counters! {
    runs, calls, steps, chars, bytes_allocated, distinct, nontrivial, skipped, crashed_elsewhere,
    verdict_tree, verdict_error, verdict_panic, verdict_died, processes,
    // faults that fired, in the order of deliver::FAULTS
    f_truncate, f_truncate_token, f_block_lost, f_block_repeated, f_blocks_swapped, f_block_zeroed, f_block_stale,
    f_bit_flip, f_char_lost, f_char_repeated, f_char_inserted, f_char_replaced, f_token_lost, f_token_repeated,
    f_tokens_swapped, f_token_replaced, f_token_inserted, f_spliced, f_misdecoded, f_line_endings, f_head_lost,
    f_lines_reordered, f_run_inserted, f_digits_replaced, f_escape_inserted,
    f_layout_rewritten, f_payload_overwritten, f_node_overwritten, f_semicolon_lost, f_parentheses_put, f_run_delivered, f_host_throws, f_source_died, f_source_cancelled_in_history, f_rejected_in_history,
    growth_shapes, growth_pairs, growth_cut,
    sched_switches, sched_uniform, sched_pct, sched_burst, sched_pause, sched_shared, sched_follow_up, sched_shared_accesses, sched_shared_switches, sched_futex_waits, sched_futex_wakes,
    sched_schedules, shared_render, thread_died, thread_stalled,
    host_calls, history_calls, history_long, history_threads, history_max,
    env_env, env_clock, env_entropy, env_heap_fill, env_thread, env_layout, env_pid, env_locale, env_args,
    ambient_getenv, ambient_clock, ambient_entropy, ambient_pid, ambient_sleep, effects_attempted,
    cut_in_paren, cut_in_bracket, cut_in_brace, cut_in_string, cut_in_template, cut_in_regex, cut_in_comment, cut_line_rest,
    cut_after_operator, cut_in_pending, unbalanced_lost, unbalanced_repeated, unbalanced_reordered,
    packets, packets_lost, packets_repeated, packets_reordered, packets_cut, filler_lines,
    blame_damaged, blame_prefix, blame_lines, blame_accepted, 
    sink_short, sink_interrupted, sink_full, sink_error, sink_panic, sink_fmt_error, sink_transient, sink_flush, sink_bytes, sink_clean,
    layouts, layout_trees, semi_restored, semi_missed, semi_restricted, groups_redundant, groups_telling, markers, spans, splices, error_positions, payloads, payload_rejected, volume_repetitions, volume_unexplained,
    mem_calls, mem_suspects, stack_runs, max_permille_a, max_permille_b, max_permille_c, max_permille_d,
}

pub const NCT: usize = 192;
/// used by the orchestrator itself, not counted
pub const PARENT_SLOT: usize = WORKERS_MAX - 1;
pub const WORKERS_MAX: usize = 64;

#[repr(C)]
pub struct Slot {
    /// case being run (u64::MAX: none)
    pub cur: AtomicU64,
    /// progress inside the case
    pub aux: AtomicU64,
    pub ct: [AtomicU64; NCT],
}

const DISTINCT_BITS: usize = 1 << 27;

#[repr(C)]
pub struct Shared {
    pub min_viol: AtomicU64,
    pub slots: [Slot; WORKERS_MAX],
    pub cov: [u8; rt::COV_MAX],
    pub distinct: [AtomicU64; DISTINCT_BITS / 64],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut SLOT: usize = 0;

pub fn setup_shared() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        SHARED = p as *mut Shared;
        rt::COV = std::ptr::addr_of_mut!((*SHARED).cov) as *mut u8;
    }
    shared().min_viol.store(u64::MAX, Relaxed);
}

pub fn shared() -> &'static Shared {
    unsafe { &*SHARED }
}

pub fn set_slot(i: usize) {
    unsafe { SLOT = i }
}

pub fn slot() -> &'static Slot {
    unsafe { &shared().slots[SLOT] }
}

pub fn add(c: Ct, n: u64) {
    slot().ct[c as usize].fetch_add(n, Relaxed);
}

pub fn add_idx(c: usize, n: u64) {
    slot().ct[c].fetch_add(n, Relaxed);
}

pub fn max(c: Ct, n: u64) {
    slot().ct[c as usize].fetch_max(n, Relaxed);
}

pub fn total(c: Ct) -> u64 {
    total_idx(c as usize)
}

pub fn total_idx(c: usize) -> u64 {
    shared().slots[..PARENT_SLOT].iter().map(|s| s.ct[c].load(Relaxed)).sum()
}

pub fn total_max_idx(c: usize) -> u64 {
    shared().slots[..PARENT_SLOT].iter().map(|s| s.ct[c].load(Relaxed)).max().unwrap()
}


/// Marks a path hash; counts it if it was new (a lower bound on the number of
/// distinct hashes, exact up to collisions in 2^27 bits).
pub fn distinct(h: u64) -> bool {
    let b = (crate::rng::mix(h) as usize) % DISTINCT_BITS;
    let old = shared().distinct[b / 64].fetch_or(1 << (b % 64), Relaxed);
    let new = old & (1 << (b % 64)) == 0;
    if new {
        add(Ct::distinct, 1);
    }
    new
}

pub fn edges_covered() -> usize {
    shared().cov.iter().skip(1).filter(|b| **b != 0).count()
}

// ---------------------------------------------------------------- processes

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Value(String),
    Exit(i32),
    Signal(i32),
}

impl End {
    pub fn describe(&self) -> String {
        match self {
            End::Value(v) => format!("value {}", v),
            End::Exit(c) if *c == rt::EX_STEPS => "it did not return within the step limit".into(),
            End::Exit(c) if *c == rt::EX_HEAP => "it exceeded the heap limit".into(),
            End::Exit(c) if *c == rt::EX_DEADLOCK => "deadlock: no runnable thread".into(),
            End::Exit(c) if *c == rt::EX_EXIT => "it ended the process (exit)".into(),
            End::Exit(c) if *c == rt::EX_ABORT => "it aborted the process".into(),
            End::Exit(c) => format!("process exit status {}", c),
            End::Signal(11) => "killed by signal 11 (segmentation fault / stack overflow)".into(),
            End::Signal(6) => "killed by signal 6 (abort / stack overflow)".into(),
            End::Signal(14) => "it did not return (real-time limit)".into(),
            End::Signal(s) => format!("killed by signal {}", s),
        }
    }
    pub fn sig(&self) -> String {
        match self {
            End::Value(_) => "value".into(),
            End::Exit(c) => format!("exit{}", c),
            End::Signal(s) => format!("signal{}", s),
        }
    }
}

/// Runs `f` in a fresh process forked from this one and returns what it returned.
pub fn in_child(secs: u32, f: impl FnOnce() -> String) -> End {
    add(Ct::processes, 1);
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            rt::say(2, "gsim: pipe failed\n");
            rt::raw_exit(rt::EX_HARNESS);
        }
        let pid = fork();
        if pid < 0 {
            rt::say(2, "gsim: fork failed\n");
            rt::raw_exit(rt::EX_HARNESS);
        }
        if pid == 0 {
            close(fds[0]);
            alarm(secs);
            // no core files
            setrlimit(4, &[0, 0]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            match r {
                Ok(s) => {
                    rt::raw_write(fds[1], s.as_ptr(), s.len());
                    rt::raw_write(fds[1], b"\n.".as_ptr(), 2);
                    rt::raw_exit(0);
                }
                Err(_) => {
                    rt::say(2, &format!("gsim: harness panic: {}\n", crate::exec::last_panic()));
                    rt::raw_exit(rt::EX_HARNESS);
                }
            }
        }
        close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = rt::raw(0, fds[0] as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0);
            if n == -4 {
                continue;
            }
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if st & 0x7f != 0 {
            return End::Signal(st & 0x7f);
        }
        let code = (st >> 8) & 0xff;
        if code == 0 && out.ends_with(b"\n.") {
            out.truncate(out.len() - 2);
            return End::Value(String::from_utf8_lossy(&out).into_owned());
        }
        if code == rt::EX_HARNESS {
            rt::raw_exit(rt::EX_HARNESS);
        }
        End::Exit(code)
    }
}

/// Forks a worker process; returns its pid.
pub fn spawn(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = fork();
        if pid == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                rt::say(2, &format!("gsim: harness panic: {}\n", crate::exec::last_panic()));
                rt::raw_exit(rt::EX_HARNESS);
            }
            rt::raw_exit(0);
        }
        pid
    }
}

pub fn wait(pid: i32) -> i32 {
    unsafe {
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        st
    }
}

/// Runs `f` on a thread with a stack of `size` bytes.
pub fn on_stack<R: Send>(size: usize, f: impl FnOnce() -> R + Send) -> R {
    on_thread(None, size, f)
}

pub fn on_thread<R: Send>(name: Option<&str>, size: usize, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        let mut b = std::thread::Builder::new().stack_size(size);
        if let Some(n) = name {
            b = b.name(n.to_string());
        }
        let h = b.spawn_scoped(s, f).expect("thread");
        match h.join() {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    })
}
