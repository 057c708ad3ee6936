//! C06: histories of calls in one process; C07: the ambient environment.
use crate::case::*;
use crate::exec::*;
use crate::p_conc::{alone, context, family, pool, value};
use crate::p_source::{clip, step_limit};
use crate::proc::*;
use crate::rng::Rng;
use crate::rt;
use std::sync::atomic::Ordering::Relaxed;

pub struct C06;

/// Runs the history in the current process; the first difference, if any.
fn history(calls: &[Call], order: &[u32], want: &[Canon], threads: bool) -> String {
    for (k, &i) in order.iter().enumerate() {
        slot().aux.store(k as u64, Relaxed);
        let c = &calls[i as usize];
        let lim = 4 * step_limit(c.text.chars().count());
        let one = || {
            rt::reset(lim);
            let r = call(c);
            // in the middle of a very long history most trees are not rendered
            let r = match r {
                Res::Ok(n) if order.len() > 20_000 && k % 16 != 0 && k + 700 < order.len() => {
                    gsim_render::drop_node(n);
                    want[i as usize].clone_if(Class::Ok)
                }
                r => canon(r),
            };
            add(Ct::steps, rt::steps());
            rt::reset(u64::MAX);
            r
        };
        let got = if threads { on_stack(8 << 20, one) } else { one() };
        if got != want[i as usize] {
            return serde_json::to_string(&(k, got)).unwrap();
        }
    }
    String::new()
}

fn call_text(c: &Call) -> String {
    format!("{:?} {:?} {:?}", c.goal, c.via, clip(&c.text))
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "histories of 2 to 65 700 calls in one process, drawn from pools of accepted, rejected, damaged and dying-source calls in both goals (mixed, one call repeated, pairs alternating; on one thread or a fresh thread per call); every outcome compared with the same call as first call of a fresh process; distinct_nontrivial counts distinct histories"
    }
    fn batch(&self) -> usize {
        40
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 800_000 } else { 24_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut pr = Rng::stream(cx.seed, "C06 pool", idx / 40);
        let related = pr.chance(1, 2);
        let mut pool = if related { family(&mut pr, cx, 16) } else { pool(&mut pr, cx, 24) };
        // dying sources and equal texts under the other goal
        for _ in 0..6 {
            let mut c = pr.pick(&pool).clone();
            if pr.chance(2, 3) {
                let n = c.text.chars().count();
                c.via = Via::Dies(pr.below(n + 1));
            } else {
                c.goal = if c.goal == Goal::Module { Goal::Script } else { Goal::Module };
            }
            pool.push(c);
        }
        let mut rng = Rng::stream(cx.seed, "C06", idx);
        if rng.chance(1, 800) {
            // more calls than 16 bits can count: one or two tiny ones, then all kinds
            let k = *rng.pick(&[1, 1, 2]);
            let mut calls: Vec<Call> = (0..k)
                .map(|_| {
                    let mut t = if rng.chance(2, 3) { context(&mut rng) } else { rng.pick(crate::corpus::SNIPS).to_string() };
                    if rng.chance(2, 3) {
                        // one statement of it
                        t = t.split_inclusive(';').next().unwrap_or("").to_string();
                    }
                    let text: String = t.chars().take(32).collect();
                    let via = if rng.chance(1, 8) { Via::Dies(rng.below(text.chars().count() + 1)) } else { Via::Text };
                    Call { goal: goal(&mut rng), via, text }
                })
                .collect();
            let n = 65_530 + rng.below(200);
            let mut order: Vec<u32> = (0..n).map(|i| (i % k) as u32).collect();
            let others = rng.range(10, 60);
            for _ in 0..others {
                let c = if rng.chance(1, 2) { rng.pick(&pool).clone() } else { Call { goal: goal(&mut rng), via: Via::Text, text: context(&mut rng) } };
                order.push(calls.len() as u32);
                calls.push(c);
            }
            for _ in 0..rng.below(100) {
                order.push(rng.below(calls.len()) as u32);
            }
            return Case::History { calls, order, threads: false };
        }
        let k = *rng.pick(&[1, 1, 2, 2, 3, 4, 6, 10]);
        let calls: Vec<Call> = (0..k).map(|_| rng.pick(&pool).clone()).collect();
        let len: usize = calls.iter().map(|c| c.text.chars().count() + 20).sum::<usize>() / k;
        let long = rng.chance(1, 12);
        let n = if long {
            let most = (400_000 / len).clamp(20, 6000);
            let n = size(&mut rng, &cx.mined, 20, most);
            n
        } else {
            rng.range(2, 14)
        };
        let order = match rng.below(3) {
            0 if k > 1 => {
                // one call many times, then the others
                let mut v = vec![0u32; n.saturating_sub(k - 1).max(1)];
                v.extend(1..k as u32);
                v
            }
            1 => (0..n as u32).map(|i| i % k as u32).collect(),
            _ => (0..n).map(|_| rng.below(k) as u32).collect(),
        };
        let threads = !long && rng.chance(1, 6);
        Case::History { calls, order, threads }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::History { calls, order, threads } = c else { return Ok(()) };
        let mut want = vec![];
        let mut keep = vec![];
        for c in calls {
            let e = alone(c).0;
            match value(&e) {
                Some(k) => {
                    if k.class == Class::Died {
                        add(Ct::f_source_cancelled_in_history, 1);
                    }
                    if k.class == Class::Err {
                        add(Ct::f_rejected_in_history, 1);
                    }
                    want.push(k);
                    keep.push(true);
                }
                None => {
                    want.push(Canon { class: Class::Died, text: String::new(), json: (0, 0), dbg: (0, 0) });
                    keep.push(false);
                }
            }
        }
        // calls that do not even return alone are left out
        let order: Vec<u32> = order.iter().copied().filter(|&i| keep[i as usize]).collect();
        if order.is_empty() {
            add(Ct::skipped, 1);
            return Ok(());
        }
        let hash = hash_str(&format!("{:?}", c));
        distinct(hash);
        add(Ct::history_calls, order.len() as u64);
        max(Ct::history_max, order.len() as u64);
        if order.len() > 100 {
            add(Ct::history_long, 1);
        }
        if *threads {
            add(Ct::history_threads, 1);
        }
        let r = in_child(200, || if *threads { history(calls, &order, &want, true) } else { on_stack(8 << 20, || history(calls, &order, &want, false)) });
        match r {
            End::Value(v) if v.is_empty() => Ok(()),
            End::Value(v) => {
                let (k, got): (usize, Canon) = serde_json::from_str(&v).unwrap();
                let i = order[k] as usize;
                fail("differs", format!("call {} of the history ({}) returns {}; as first call of a fresh process it returns {}", k + 1, call_text(&calls[i]), describe(&got), describe(&want[i])))
            }
            e => {
                let k = (slot().aux.load(Relaxed) as usize).min(order.len() - 1);
                let i = order[k] as usize;
                fail(&format!("ends {}", e.sig()), format!("call {} of the history ({}): {}; as first call of a fresh process it returns {}", k + 1, call_text(&calls[i]), e.describe(), describe(&want[i])))
            }
        }
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::History { calls, order, threads } = c else { return vec![] };
        let mut out = vec![];
        if *threads {
            out.push(Case::History { calls: calls.clone(), order: order.clone(), threads: false });
        }
        for o in shrink_list(order) {
            if !o.is_empty() {
                out.push(Case::History { calls: calls.clone(), order: o, threads: *threads });
            }
        }
        for (i, c) in calls.iter().enumerate() {
            if !order.contains(&(i as u32)) {
                continue;
            }
            if c.via == Via::Stream {
                let mut v = calls.clone();
                v[i].via = Via::Text;
                out.push(Case::History { calls: v, order: order.clone(), threads: *threads });
            }
            for t in shrink_text(&c.text) {
                let mut v = calls.clone();
                v[i].text = t;
                out.push(Case::History { calls: v, order: order.clone(), threads: *threads });
            }
        }
        out
    }
}

// ---------------------------------------------------------------- C07

pub struct C07;

const VAR_NAMES: &[&str] = &[
    "LANG", "LC_ALL", "LC_NUMERIC", "TZ", "HOME", "PATH", "RUST_LOG", "RUST_BACKTRACE", "RUST_MIN_STACK", "DEBUG", "NODE_ENV", "CI", "TERM", "USER", "NO_COLOR", "TMPDIR", "GIRON_DEBUG", "GIRON", "GIRON_STRICT", "GIRON_MODE", "GIRON_TRACE", "GIRON_LOG",
];
const VAR_VALUES: &[&str] = &["1", "0", "", "true", "C", "de_DE.UTF-8", "tr_TR.UTF-8", "debug", "trace", "/tmp", "full", "module", "script"];

extern "C" {
    fn setenv(n: *const u8, v: *const u8, o: i32) -> i32;
    fn unsetenv(n: *const u8) -> i32;
    fn setlocale(c: i32, l: *const u8) -> *const u8;
}

/// One call under the simulated environment `e`, in the current process.
fn under(c: &Call, e: &EnvCfg) -> String {
    for (n, v) in &e.vars {
        let n = format!("{}\0", n);
        let v2 = format!("{}\0", v);
        unsafe {
            if v == "\u{1}" {
                unsetenv(n.as_ptr());
            } else {
                setenv(n.as_ptr(), v2.as_ptr(), 1);
            }
        }
    }
    rt::set_args(&e.args);
    if e.env % 2 == 1 {
        unsafe { setlocale(6, b"C.UTF-8\0".as_ptr()) };
    }
    for k in 0..e.threads_before {
        on_stack(1 << 16, move || std::hint::black_box(vec![k; 100]));
    }
    // another address layout: junk blocks, some freed again, fresh memory filled
    let mut junk: Vec<Vec<u8>> = vec![];
    let mut r = Rng::new(e.fill ^ 77);
    for i in 0..e.junk {
        let n = r.log_range(1, 5000);
        junk.push(vec![i as u8 ^ 0xA5; n]);
        if r.chance(1, 2) {
            let k = r.below(junk.len());
            junk.swap_remove(k);
        }
    }
    let lim = 4 * step_limit(c.text.chars().count());
    let run = || {
        unsafe {
            rt::ENV_ON = true;
            rt::ENV_MODE = e.env;
            rt::CLOCK_MODE = e.clock;
            rt::CLOCK_NOW = e.clock_start;
            rt::ENTROPY = e.entropy;
            rt::PID = e.pid;
        }
        rt::FILL.store(e.fill, Relaxed);
        rt::reset(lim);
        let k = canon(call(c));
        let s = rt::steps();
        add(Ct::steps, s);
        rt::reset(u64::MAX);
        rt::FILL.store(0, Relaxed);
        unsafe { rt::ENV_ON = false };
        k
    };
    let k = on_thread(e.thread_name.as_deref(), if e.big_stack { 48 << 20 } else { 6 << 20 }, run);
    drop(junk);
    let eff: Vec<u64> = rt::EFFECT_COUNT.iter().map(|c| c.load(Relaxed)).collect();
    let amb: Vec<u64> = rt::AMBIENT_COUNT.iter().map(|c| c.load(Relaxed)).collect();
    serde_json::to_string(&(k, eff, amb)).unwrap()
}

/// A name the environment gives to something: a common one, one that occurs in the
/// program text of the parser, or one that occurs in the source.
fn given(rng: &mut Rng, cx: &Ctx, source: &str, common: &[&str]) -> String {
    let n = match rng.below(4) {
        0 | 1 => rng.pick(common).to_string(),
        2 => rng.pick(&cx.mined.words).clone(),
        _ => {
            let words: Vec<&str> = source.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '$').filter(|w| !w.is_empty()).take(200).collect();
            if words.is_empty() { "main".to_string() } else { rng.pick(&words).to_string() }
        }
    };
    if n.contains('\0') || n.starts_with('\u{1}') { "x".to_string() } else { n.chars().take(60).collect() }
}

fn plain() -> EnvCfg {
    EnvCfg { env: 0, clock: 0, clock_start: 1_700_000_000_000_000_000, entropy: 1, pid: 4242, fill: 0, threads_before: 0, junk: 0, big_stack: false, thread_name: None, args: vec![], vars: vec![] }
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "one call (as for C01) in 4 fresh simulated processes that differ in environment variables, clock behaviour, entropy, process id, thread, stack size, initial heap contents and heap layout; outcomes must be identical and no effect (write, open, socket, file change, exit) may be attempted; distinct_nontrivial counts distinct (call, environment) pairs"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 1_000_000 } else { 20_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C07", idx);
        let (mut call, _) = damaged_source(&mut rng, &cx.mined);
        if rng.chance(1, 10) {
            let n = call.text.chars().count();
            call.via = Via::Dies(rng.below(n + 1));
        }
        let mut envs = vec![plain()];
        for k in 0..3 {
            let mut e = EnvCfg {
                env: rng.below(8) as u8,
                clock: rng.below(4) as u8,
                clock_start: *rng.pick(&[0, 1_700_000_000_000_000_000, 4_102_444_800_000_000_000, 946_684_799_999_999_999, rng.clone().u64() % 4_000_000_000_000_000_000]),
                entropy: rng.u64(),
                pid: rng.range(1, 99_999) as i32,
                fill: rng.u64() | 1,
                threads_before: rng.below(4) as u8,
                junk: rng.below(60) as u32,
                big_stack: rng.chance(1, 3),
                thread_name: if rng.chance(1, 2) { Some(given(&mut rng, cx, &call.text, &["main", "worker", "tokio-runtime-worker"])) } else { None },
                args: vec![],
                vars: vec![],
            };
            if k == 2 {
                e.fill = *rng.pick(&[0xFF00, 0x5500, 0xAA00, 0x0000]) | 0xFE;
            }
            if rng.chance(1, 3) {
                for _ in 0..rng.range(1, 3) {
                    let a = given(&mut rng, cx, &call.text, &["node", "--strict", "--debug", "-v", "--module", "/usr/bin/eslint", ""]);
                    e.args.push(a);
                }
            }
            for _ in 0..rng.below(8) {
                let n = given(&mut rng, cx, &call.text, VAR_NAMES);
                if n.is_empty() || n.contains('=') || n.contains('\0') {
                    continue;
                }
                let v = match rng.below(6) {
                    0 => "\u{1}".to_string(),
                    1 => given(&mut rng, cx, &call.text, VAR_VALUES),
                    _ => rng.pick(VAR_VALUES).to_string(),
                };
                e.vars.push((n, v));
            }
            envs.push(e);
        }
        Case::Env { call, envs }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Env { call, envs } = c else { return Ok(()) };
        let mut first: Option<(End, Option<Canon>)> = None;
        for (i, e) in envs.iter().enumerate() {
            if i > 0 {
                add(Ct::env_env, 1);
                add(Ct::env_clock, (e.clock != 0) as u64);
                add(Ct::env_entropy, 1);
                add(Ct::env_pid, 1);
                add(Ct::env_heap_fill, (e.fill != 0) as u64);
                add(Ct::env_thread, (e.threads_before > 0 || e.thread_name.is_some()) as u64);
                add(Ct::env_layout, (e.junk > 0) as u64);
                add(Ct::env_locale, (e.env % 2 == 1) as u64);
                add(Ct::env_args, !e.args.is_empty() as u64);
                distinct(hash_str(&format!("{:?}{:?}", call, e)));
            }
            add(Ct::calls, 1);
            let r = in_child(60, || under(call, e));
            let show = || format!("{:?} {:?} {:?}", call.goal, call.via, clip(&call.text));
            match &r {
                End::Value(v) => {
                    let (k, eff, amb): (Canon, Vec<u64>, Vec<u64>) = serde_json::from_str(v).unwrap();
                    for (j, c) in [Ct::ambient_getenv, Ct::ambient_clock, Ct::ambient_entropy, Ct::ambient_pid, Ct::ambient_sleep].iter().enumerate() {
                        add(*c, amb[j]);
                    }
                    if let Some(j) = eff.iter().position(|&n| n != 0) {
                        add(Ct::effects_attempted, 1);
                        return fail("effect", format!("parsing or rendering to a string attempts an effect outside its arguments: {} ({} times); {}", rt::EFFECTS[j], eff[j], show()));
                    }
                    match &first {
                        None => first = Some((r.clone(), Some(k))),
                        Some((_, Some(want))) => {
                            if k != *want {
                                return fail("differs", format!("{} returns {} in the plain environment, {} in environment {:?}", show(), describe(want), describe(&k), e));
                            }
                        }
                        Some((end, None)) => {
                            return fail("differs", format!("{}: {} in the plain environment, {} in environment {:?}", show(), end.describe(), describe(&k), e));
                        }
                    }
                }
                End::Exit(x) if *x == rt::EX_EXIT => {
                    return fail("effect", format!("the call ends the process (exit); {}", show()));
                }
                _ => match &first {
                    None => first = Some((r.clone(), None)),
                    Some((end, None)) => {
                        if *end != r {
                            add(Ct::skipped, 1);
                        }
                    }
                    Some((_, Some(want))) => {
                        return fail("differs", format!("{} returns {} in the plain environment; {} in environment {:?}", show(), describe(want), r.describe(), e));
                    }
                },
            }
        }
        Ok(())
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Env { call, envs } = c else { return vec![] };
        let mut out = vec![];
        if envs.len() > 2 {
            for i in 1..envs.len() {
                out.push(Case::Env { call: call.clone(), envs: vec![envs[0].clone(), envs[i].clone()] });
            }
        }
        if envs.len() > 1 {
            out.push(Case::Env { call: call.clone(), envs: vec![envs[0].clone()] });
        }
        if envs.len() == 2 {
            let p = plain();
            let e = &envs[1];
            let mut push = |e: EnvCfg| {
                if e != envs[1] {
                    out.push(Case::Env { call: call.clone(), envs: vec![envs[0].clone(), e] })
                }
            };
            push(EnvCfg { env: p.env, ..e.clone() });
            push(EnvCfg { clock: p.clock, clock_start: p.clock_start, ..e.clone() });
            push(EnvCfg { entropy: p.entropy, ..e.clone() });
            push(EnvCfg { pid: p.pid, ..e.clone() });
            push(EnvCfg { fill: 0, ..e.clone() });
            push(EnvCfg { threads_before: 0, ..e.clone() });
            push(EnvCfg { junk: 0, ..e.clone() });
            push(EnvCfg { big_stack: false, ..e.clone() });
            push(EnvCfg { thread_name: None, ..e.clone() });
            push(EnvCfg { args: vec![], ..e.clone() });
            for v in shrink_list(&e.vars) {
                push(EnvCfg { vars: v, ..e.clone() });
            }
        }
        for t in shrink_text(&call.text) {
            out.push(Case::Env { call: Call { text: t, ..call.clone() }, envs: envs.clone() });
        }
        out
    }
}
