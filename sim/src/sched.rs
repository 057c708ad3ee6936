//! Baton scheduler: the caller threads of a concurrent run are real threads, of
//! which exactly one is allowed to run at any time; this module decides which.
//! Control passes at basic-block edges of giron (preemption), at futex calls
//! (blocking and waking), at yields/sleeps, and when a thread finishes.
use crate::rng::Rng;
use crate::rt;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    /// run lengths geometric-ish with the given mean, next thread uniform
    Uniform { mean: u32, seed: u64 },
    /// PCT: highest priority runs; at each change point the running thread
    /// drops to the lowest priority
    Pct { seed: u64, points: Vec<u64> },
    /// at each access to writable static memory, with chance 1 in `one_in`, a
    /// switch to another thread; otherwise long uniform run lengths
    Shared { one_in: u32, mean: u32, seed: u64 },
    /// explicit (thread, steps) list; u32::MAX = until it blocks or finishes.
    /// Afterwards threads run to completion in order.
    Explicit(Vec<(u8, u32)>),
}

pub const MAXT: usize = 8;
const LOG_CAP: usize = 20_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked { addr: usize, timed: bool, timed_out: bool },
    Done,
}

pub struct Sched {
    n: usize,
    cur: usize,
    st: [St; MAXT],
    policy: Policy,
    rng: Rng,
    pos: usize,
    prio: [u64; MAXT],
    next_low: u64,
    run_from: u64,
    pub log: Vec<(u8, u32)>,
    pub log_full: bool,
    pub switches: u64,
    pub shared_switches: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    /// (thread that had to wait, number of threads already done)
    pub blocked: Vec<(u8, u8)>,
    /// hash over the sequence of (thread, run length)
    pub hash: u64,
    long: u64,
}

static mut S: Option<Sched> = None;
static GATE: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}

/// Prepares a run of `n` threads; `long` is the run length after which a thread
/// that never yields is preempted under every policy (spin loops).
pub fn begin(n: usize, policy: Policy, long: u64) {
    let seed = match &policy {
        Policy::Uniform { seed, .. } | Policy::Pct { seed, .. } | Policy::Shared { seed, .. } => *seed,
        _ => 0,
    };
    let mut rng = Rng::stream(seed, "sched", 0);
    let mut prio = [0u64; MAXT];
    for p in prio.iter_mut() {
        *p = 1_000_000 + rng.u64() % 1_000_000;
    }
    for g in GATE.iter() {
        g.store(0, SeqCst);
    }
    unsafe {
        S = Some(Sched {
            n,
            cur: usize::MAX,
            st: [St::Ready; MAXT],
            policy,
            rng,
            pos: 0,
            prio,
            next_low: 1_000_000,
            run_from: 0,
            log: Vec::with_capacity(LOG_CAP),
            log_full: false,
            switches: 0,
            shared_switches: 0,
            futex_waits: 0,
            futex_wakes: 0,
            blocked: Vec::with_capacity(64),
            hash: 0,
            long,
        });
    }
}

/// Called by the controlling thread once all threads wait at their gate.
pub fn start() {
    unsafe {
        rt::SHARED_ACCESSES = 0;
        rt::SCHED_ON = true;
    }
    let (t, len) = choose(None);
    dispatch(t, len);
    unsafe {
        gate_wait(MAXT);
        // all done: the threads now exit one after the other, unscheduled
        rt::SCHED_ON = false;
        rt::IN_LIB = false;
        rt::NEXT = u64::MAX;
    }
}

/// Lets the finished thread `i` exit; the caller then joins it (thread-local
/// destructors of different threads thus never overlap).
pub fn release(i: usize) {
    unsafe { gate_open(i) }
}

pub fn end() -> Sched {
    unsafe {
        rt::SCHED_ON = false;
        rt::NEXT = u64::MAX;
        #[allow(static_mut_refs)]
        S.take().unwrap()
    }
}

unsafe fn gate_wait(i: usize) {
    while GATE[i].load(SeqCst) == 0 {
        rt::raw(202, GATE[i].as_ptr() as i64, 128, 0, 0, 0, 0);
    }
    GATE[i].store(0, SeqCst);
}

unsafe fn gate_open(i: usize) {
    GATE[i].store(1, SeqCst);
    rt::raw(202, GATE[i].as_ptr() as i64, 129, 1, 0, 0, 0);
}

/// First thing a simulated thread does.
pub fn enter(i: usize) {
    unsafe {
        gate_open(MAXT);
        gate_wait(i)
    }
}

/// The controlling thread waits until the thread it has just spawned has
/// entered, so that thread start-up is not concurrent either.
pub fn await_entered() {
    unsafe { gate_wait(MAXT) }
}

/// Last thing a simulated thread does.
pub fn leave() {
    let me = s().cur;
    s().st[me] = St::Done;
    note(me, u32::MAX);
    match choose_next(me) {
        Some((t, len)) => dispatch(t, len),
        None => unsafe { gate_open(MAXT) },
    }
    unsafe { gate_wait(me) }
}

fn runnable() -> ([usize; MAXT], usize) {
    let mut r = [0; MAXT];
    let mut n = 0;
    for i in 0..s().n {
        if s().st[i] == St::Ready {
            r[n] = i;
            n += 1;
        }
    }
    (r, n)
}

fn note(t: usize, len: u32) {
    let s = s();
    let ran = unsafe { rt::STEPS } - s.run_from;
    s.hash = crate::rng::mix(s.hash ^ (t as u64) << 56 ^ ran);
    s.switches += 1;
    if s.log.len() < LOG_CAP {
        s.log.push((t as u8, if len == u32::MAX { len } else { ran as u32 }));
    } else {
        s.log_full = true;
    }
}

/// Policy decision among the runnable threads.
fn choose(cur: Option<usize>) -> (usize, u64) {
    let (r, n) = runnable();
    let s = s();
    debug_assert!(n > 0);
    match &mut s.policy {
        Policy::Uniform { mean, .. } | Policy::Shared { mean, .. } => {
            let len = 1 + s.rng.below(2 * (*mean as usize)) as u64;
            // sometimes a burst, so that one thread gets far ahead
            let len = if s.rng.chance(1, 16) { len * 64 } else { len };
            (r[s.rng.below(n)], len)
        }
        Policy::Pct { points, .. } => {
            let now = unsafe { rt::STEPS };
            let at_point = points.iter().any(|&p| p == now);
            if let Some(c) = cur {
                if at_point || now - s.run_from >= s.long {
                    s.next_low -= 1;
                    s.prio[c] = s.next_low;
                }
            }
            let mut best = r[0];
            for &t in &r[..n] {
                if s.prio[t] > s.prio[best] {
                    best = t;
                }
            }
            let next = points.iter().filter(|&&p| p > now).min();
            let len = next.map(|p| p - now).unwrap_or(s.long);
            (best, len.min(s.long))
        }
        Policy::Explicit(list) => {
            while s.pos < list.len() {
                let (t, len) = list[s.pos];
                s.pos += 1;
                if (t as usize) < s.n && s.st[t as usize] == St::Ready && len > 0 {
                    return (t as usize, len as u64);
                }
            }
            // to completion, in order; a spinning thread gives way
            let mut t = r[0];
            if let Some(c) = cur {
                if n > 1 && t == c {
                    t = r[1];
                }
            }
            (t, u32::MAX as u64)
        }
    }
}

fn choose_next(_me: usize) -> Option<(usize, u64)> {
    let (_, n) = runnable();
    if n > 0 {
        return Some(choose(None));
    }
    // nobody is runnable: a timed wait expires, or it is a deadlock
    let s = s();
    for i in 0..s.n {
        if let St::Blocked { timed: true, .. } = s.st[i] {
            s.st[i] = St::Blocked { addr: 0, timed: true, timed_out: true };
            return Some((i, 1000));
        }
    }
    if (0..s.n).all(|i| s.st[i] == St::Done) {
        return None;
    }
    rt::raw_exit(rt::EX_DEADLOCK)
}

fn dispatch(t: usize, len: u64) {
    let s = s();
    s.cur = t;
    unsafe {
        s.run_from = rt::STEPS;
        rt::NEXT = (rt::STEPS + len.min(s.long).max(1)).min(rt::LIMIT);
        gate_open(t);
    }
}

/// From the edge callback: the running thread's run length is over.
pub fn preempt() {
    let me = s().cur;
    let explicit = matches!(s().policy, Policy::Explicit(_));
    let (t, len) = if explicit && runnable().1 == 1 {
        (me, u32::MAX as u64)
    } else {
        choose(Some(me))
    };
    if t == me {
        unsafe {
            rt::NEXT = (rt::STEPS + len.min(s().long).max(1)).min(rt::LIMIT);
        }
        return;
    }
    note(me, 0);
    dispatch(t, len);
    unsafe { gate_wait(me) }
}

/// From the access callbacks: the running thread is about to touch static memory.
pub fn at_shared() {
    if let Policy::Shared { one_in, .. } = s().policy {
        if s().rng.chance(1, one_in.max(1) as usize) {
            s().shared_switches += 1;
            yield_now();
        }
    }
}

pub fn yield_now() {
    let me = s().cur;
    let (r, n) = runnable();
    if n < 2 {
        return;
    }
    let (mut t, len) = choose(Some(me));
    if t == me {
        t = *r[..n].iter().find(|&&x| x != me).unwrap();
    }
    note(me, u32::MAX);
    dispatch(t, len);
    unsafe { gate_wait(me) }
}

pub unsafe fn futex(addr: *const u32, op: i32, val: u32, timeout: i64) -> i64 {
    match op & 127 {
        0 | 9 => {
            if (addr as *const AtomicU32).as_ref().unwrap().load(SeqCst) != val {
                return -11;
            }
            let me = s().cur;
            s().futex_waits += 1;
            let done = (0..s().n).filter(|&i| s().st[i] == St::Done).count();
            if s().blocked.len() < 64 {
                s().blocked.push((me as u8, done as u8));
            }
            s().st[me] = St::Blocked { addr: addr as usize, timed: timeout != 0, timed_out: false };
            note(me, u32::MAX);
            match choose_next(me) {
                Some((t, len)) if t != me => {
                    dispatch(t, len);
                    gate_wait(me);
                }
                _ => {
                    rt::NEXT = (rt::STEPS + 1000).min(rt::LIMIT);
                    s().run_from = rt::STEPS;
                }
            }
            let timed_out = matches!(s().st[me], St::Blocked { timed_out: true, .. });
            s().st[me] = St::Ready;
            if timed_out {
                -110
            } else {
                0
            }
        }
        1 | 10 => {
            let mut woken = 0;
            let n = s().n;
            // the simulator, not the kernel, decides who wakes first
            let start = s().rng.below(n);
            for k in 0..n {
                let i = (start + k) % n;
                if woken < val as i64 {
                    if let St::Blocked { addr: a, .. } = s().st[i] {
                        if a == addr as usize {
                            s().st[i] = St::Ready;
                            woken += 1;
                        }
                    }
                }
            }
            s().futex_wakes += 1;
            woken
        }
        _ => rt::raw(202, addr as i64, op as i64, val as i64, timeout, 0, 0),
    }
}
