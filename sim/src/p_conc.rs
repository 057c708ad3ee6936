//! C05: concurrent parses on simulated schedules.
use crate::case::*;
use crate::exec::*;
use crate::p_source::{clip, step_limit};
use crate::proc::*;
use crate::rng::Rng;
use crate::rt;
use crate::sched::{self, Policy};
use std::cell::RefCell;
use std::collections::HashMap;

pub struct C05;

/// Further schedules of calls that were seen to have static memory in common.
const FOLLOW_UP: usize = 8;

thread_local! {
    static MEMO: RefCell<HashMap<Call, (End, u64)>> = RefCell::new(HashMap::new());
}

/// Outcome and step count of a call made alone in a fresh process.
pub fn alone(c: &Call) -> (End, u64) {
    if let Some(r) = MEMO.with(|m| m.borrow().get(c).cloned()) {
        return r;
    }
    let lim = 3 * step_limit(c.text.chars().count());
    let e = in_child(60, || {
        let out = on_stack(8 << 20, || {
            rt::reset(lim);
            let k = canon(call(c));
            let s = rt::steps();
            rt::reset(u64::MAX);
            (k, s)
        });
        serde_json::to_string(&out).unwrap()
    });
    add(Ct::calls, 1);
    let r = match e {
        End::Value(v) => {
            let (k, s): (Canon, u64) = serde_json::from_str(&v).unwrap();
            add(Ct::steps, s);
            match k.class {
                Class::Ok => add(Ct::verdict_tree, 1),
                Class::Err => add(Ct::verdict_error, 1),
                Class::Panic => add(Ct::verdict_panic, 1),
                Class::Died => add(Ct::verdict_died, 1),
            }
            (End::Value(serde_json::to_string(&k).unwrap()), s)
        }
        e => (e, 0),
    };
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 4000 {
            m.clear();
        }
        m.insert(c.clone(), r.clone());
    });
    r
}

pub fn value(e: &End) -> Option<Canon> {
    match e {
        End::Value(v) => serde_json::from_str(v).ok(),
        _ => None,
    }
}

#[derive(Clone, Copy)]
struct Ptr(*const giron::EstreeNode);
unsafe impl Send for Ptr {}
impl Ptr {
    fn get(&self) -> *const giron::EstreeNode {
        self.0
    }
}

struct Out {
    canons: Vec<Canon>,
    sched: sched::Sched,
}

/// Runs one job per thread under the policy, in the current process.
fn scheduled<F: FnOnce() -> Canon + Send>(jobs: Vec<F>, policy: Policy, long: u64, limit: u64) -> Out {
    let n = jobs.len();
    let mut canons: Vec<Option<Canon>> = vec![None; n];
    rt::reset(limit);
    sched::begin(n, policy, long);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for (i, (j, out)) in jobs.into_iter().zip(canons.iter_mut()).enumerate() {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        sched::enter(i);
                        unsafe { rt::IN_LIB = true };
                        *out = Some(j());
                        sched::leave();
                    })
                    .expect("thread"),
            );
            sched::await_entered();
        }
        sched::start();
        for (i, h) in hs.into_iter().enumerate() {
            sched::release(i);
            let _ = h.join();
        }
    });
    let sched = sched::end();
    unsafe { rt::IN_LIB = false };
    add(Ct::steps, rt::steps());
    rt::reset(u64::MAX);
    Out { canons: canons.into_iter().map(|c| c.unwrap_or(Canon { class: Class::Died, text: "thread died".into(), json: (0, 0), dbg: (0, 0) })).collect(), sched }
}

fn conc_in_child(calls: &[Call], policy: &Policy, shared: bool, solo: u64, warm: bool) -> End {
    let limit = (solo * 4 + 4_000_000) * 2;
    let long = solo * 4 + 100_000;
    let r = in_child(120, || {
        if warm {
            // what is set up once, by the first call of a process, is set up
            for c in calls {
                let _ = on_stack(8 << 20, || canon(call(c)));
            }
        }
        let out = if shared {
            // one finished tree, rendered by several threads
            let tree = match call(&calls[0]) {
                Res::Ok(n) => n,
                _ => return String::new(),
            };
            let p = Ptr(&tree);
            let jobs: Vec<_> = (0..calls.len())
                .map(|_| {
                    move || {
                        let node = unsafe { &*p.get() };
                        let out = guarded(|| (gsim_render::to_json(node), gsim_render::debug(node)));
                        match out {
                            Ok((Ok(j), d)) => Canon { class: Class::Ok, text: String::new(), json: (hash_str(&j), j.len()), dbg: (hash_str(&d), d.len()) },
                            Ok((Err(e), _)) => Canon { class: Class::Ok, text: format!("rendering fails: {}", e), json: (0, 0), dbg: (0, 0) },
                            Err(e) => Canon { class: Class::Panic, text: e, json: (0, 0), dbg: (0, 0) },
                        }
                    }
                })
                .collect();
            let o = scheduled(jobs, policy.clone(), long, limit);
            std::mem::forget(tree);
            o
        } else {
            let jobs: Vec<_> = calls.iter().map(|c| { let c = c.clone(); move || canon(call(&c)) }).collect();
            scheduled(jobs, policy.clone(), long, limit)
        };
        let s = &out.sched;
        add(Ct::sched_switches, s.switches);
        add(Ct::sched_shared_accesses, unsafe { rt::SHARED_ACCESSES });
        add(Ct::sched_shared_switches, s.shared_switches);
        add(Ct::sched_futex_waits, s.futex_waits);
        add(Ct::sched_futex_wakes, s.futex_wakes);
        if distinct(s.hash) {
            add(Ct::sched_schedules, 1);
        }
        serde_json::to_string(&(out.canons, &s.blocked, unsafe { rt::SHARED_ACCESSES })).unwrap()
    });
    r
}

/// A position of a call that is valid as a pause point.
fn frac(steps: u64, permille: u64) -> u32 {
    ((steps * permille / 1000).max(1)).min(u32::MAX as u64 - 1) as u32
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "2-4 calls (accepted, rejected, damaged, dying sources) or 2-4 renderings of one tree as simulated threads under a seeded schedule (uniform run lengths from 1 to 10000 basic blocks, switches at accesses to writable static memory, PCT with 1-4 change points, bursts, one thread stalled midway); every outcome compared with the same call made alone in a fresh process; distinct_nontrivial counts distinct schedules (sequences of thread and run length)"
    }
    fn batch(&self) -> usize {
        40
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 1_500_000 } else { 50_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        // a pool of calls per batch, so that most reference runs are shared
        let mut pool_rng = Rng::stream(cx.seed, "C05 pool", idx / 40);
        let related = pool_rng.chance(1, 2);
        let pool = if related { family(&mut pool_rng, cx, 14) } else { pool(&mut pool_rng, cx, 20) };
        let mut rng = Rng::stream(cx.seed, "C05", idx);
        let shared = !related && rng.chance(1, 5);
        let n = *rng.pick(&[2, 2, 2, 3, 3, 4]);
        let mut calls: Vec<Call> = (0..n).map(|_| rng.pick(&pool).clone()).collect();
        if rng.chance(1, 5) {
            // the same call several times
            let c = calls[0].clone();
            calls.iter_mut().for_each(|x| *x = c.clone());
        }
        if rng.chance(1, 6) {
            let i = rng.below(n);
            let len = calls[i].text.chars().count();
            calls[i].via = Via::Dies(rng.below(len + 1));
        }
        if shared {
            let c = rng.pick(&pool[..6]).clone();
            calls.iter_mut().for_each(|x| *x = Call { via: Via::Text, ..c.clone() });
        }
        let len: usize = calls.iter().map(|c| c.text.chars().count()).sum();
        let est = 60 * len as u64 + 500;
        let policy = match rng.below(10) {
            0 | 1 => {
                let mean = *rng.pick(&[50, 300, 1000, 3000, 30_000]);
                Policy::Shared { one_in: *rng.pick(&[1, 2, 3, 3, 8, 20]), mean, seed: rng.u64() }
            }
            2..=4 => {
                let mean = *rng.pick(&[1, 2, 5, 20, 50, 100, 300, 1000, 3000, 10_000]);
                Policy::Uniform { mean, seed: rng.u64() }
            }
            5 | 6 => {
                let d = rng.range(1, 4);
                let points = (0..d).map(|_| rng.u64() % est + 1).collect();
                Policy::Pct { seed: rng.u64(), points }
            }
            7 => {
                // bursts
                let k = rng.range(2, 40);
                let v = (0..k).map(|_| (rng.below(n) as u8, rng.log_range(1, est as usize) as u32)).collect();
                Policy::Explicit(v)
            }
            _ => {
                // one thread stalls midway, the others run to the end first
                let a = rng.below(n) as u8;
                let p = rng.log_range(1, (est as usize / n).max(2)) as u32;
                let mut v = vec![(a, p)];
                for b in 0..n as u8 {
                    if b != a {
                        v.push((b, u32::MAX));
                    }
                }
                Policy::Explicit(v)
            }
        };
        Case::Conc { calls, policy, shared }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Conc { calls, policy, shared } = c else { return Ok(()) };
        if calls.is_empty() {
            return Ok(());
        }
        match policy {
            Policy::Uniform { .. } => add(Ct::sched_uniform, 1),
            Policy::Shared { .. } => add(Ct::sched_shared, 1),
            Policy::Pct { .. } => add(Ct::sched_pct, 1),
            Policy::Explicit(v) => {
                if v.iter().any(|x| x.1 == u32::MAX) {
                    add(Ct::sched_pause, 1);
                    add(Ct::thread_stalled, 1);
                } else {
                    add(Ct::sched_burst, 1);
                }
            }
        }
        let refs: Vec<(End, u64)> = calls.iter().map(alone).collect();
        let mut want = vec![];
        for (e, _) in &refs {
            match value(e) {
                Some(k) => want.push(k),
                // a call that does not even return alone is no subject here
                None => {
                    add(Ct::skipped, 1);
                    return Ok(());
                }
            }
        }
        if *shared {
            if want[0].class != Class::Ok {
                add(Ct::skipped, 1);
                return Ok(());
            }
            add(Ct::shared_render, 1);
        }
        let solo: u64 = refs.iter().map(|r| r.1).sum();
        add(Ct::thread_died, want.iter().filter(|k| k.class == Class::Died).count() as u64);
        let what = |i: usize| format!("thread {} ({:?} {:?} {:?})", i, calls[i].goal, calls[i].via, clip(&calls[i].text));
        let r = conc_in_child(calls, policy, *shared, solo, false);
        let End::Value(v) = &r else {
            return fail(&format!("ends {}", r.sig()), format!("{} threads together: {}; alone each of them returns; {}", calls.len(), r.describe(), what(0)));
        };
        let (got, blocked, accesses): (Vec<Canon>, Vec<(u8, u8)>, u64) = serde_json::from_str(v).unwrap();
        let compare = |got: &[Canon]| -> Result<(), Fail> {
            for i in 0..want.len() {
                if got[i] != want[i] {
                    return fail("differs", format!("{} returns {} when run together with {} others, {} when run alone", what(i), describe(&got[i]), want.len() - 1, describe(&want[i])));
                }
            }
            Ok(())
        };
        compare(&got)?;
        if accesses > 0 {
            // there is state in common: more schedules that switch where it is used
            let mut rng = Rng::new(hash_str(&format!("{:?}", c)));
            for _ in 0..FOLLOW_UP {
                add(Ct::sched_follow_up, 1);
                let p = Policy::Shared { one_in: *rng.pick(&[1, 2, 3, 5, 9, 30]), mean: *rng.pick(&[300, 3000, 100_000]), seed: rng.u64() };
                let r = conc_in_child(calls, &p, *shared, solo, false);
                let End::Value(v) = &r else {
                    return fail(&format!("ends {}", r.sig()), format!("{} threads together: {}; alone each of them returns; {}", calls.len(), r.describe(), what(0)));
                };
                let (got, _, _): (Vec<Canon>, Vec<(u8, u8)>, u64) = serde_json::from_str(v).unwrap();
                compare(&got)?;
            }
        }
        // one thread paused midway must not keep another one from finishing
        if let Policy::Explicit(l) = policy {
            if l.first().map_or(false, |x| x.1 != u32::MAX) && l.len() == calls.len() && l[1..].iter().all(|x| x.1 == u32::MAX) && blocked.iter().any(|b| b.1 == 0) && !*shared {
                let a = l[0].0;
                let b = blocked[0].0;
                let sa = refs[a as usize].1;
                let mut stuck = 0;
                for pm in [250, 500, 750] {
                    let p = Policy::Explicit(vec![(a, frac(sa, pm)), (b, u32::MAX)]);
                    let r = conc_in_child(calls, &p, false, solo, true);
                    if let End::Value(v) = r {
                        let (_, bl, _): (Vec<Canon>, Vec<(u8, u8)>, u64) = serde_json::from_str(&v).unwrap();
                        if bl.iter().any(|x| x.0 == b && x.1 == 0) {
                            stuck += 1;
                        }
                    }
                }
                if stuck == 3 {
                    return fail("blocks", format!("{} cannot finish while {} is stalled (at 25, 50 and 75 % of its parse)", what(b as usize), what(a as usize)));
                }
            }
        }
        Ok(())
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Conc { calls, policy, shared } = c else { return vec![] };
        let mut out = vec![];
        // fewer threads
        if calls.len() > 2 {
            for i in 0..calls.len() {
                let mut v = calls.clone();
                v.remove(i);
                let p = match policy {
                    Policy::Explicit(l) => Policy::Explicit(l.iter().filter(|x| x.0 as usize != i).map(|x| (if x.0 as usize > i { x.0 - 1 } else { x.0 }, x.1)).collect()),
                    p => p.clone(),
                };
                out.push(Case::Conc { calls: v, policy: p, shared: *shared });
            }
        }
        match policy {
            Policy::Explicit(l) => {
                for v in shrink_list(l) {
                    out.push(Case::Conc { calls: calls.clone(), policy: Policy::Explicit(v), shared: *shared });
                }
                for i in 0..l.len() {
                    if l[i].1 != u32::MAX && l[i].1 > 1 {
                        let mut v = l.clone();
                        v[i].1 /= 2;
                        out.push(Case::Conc { calls: calls.clone(), policy: Policy::Explicit(v), shared: *shared });
                    }
                }
            }
            _ => {
                // simple explicit schedules first
                for a in 0..calls.len() as u8 {
                    for pm in [1u64, 100, 250, 500, 750, 900] {
                        let steps = 50 * calls[a as usize].text.chars().count() as u64;
                        let mut v = vec![(a, frac(steps.max(1000), pm))];
                        for b in 0..calls.len() as u8 {
                            if b != a {
                                v.push((b, u32::MAX));
                            }
                        }
                        out.push(Case::Conc { calls: calls.clone(), policy: Policy::Explicit(v), shared: *shared });
                    }
                }
            }
        }
        for (i, c) in calls.iter().enumerate() {
            if c.via == Via::Stream {
                let mut v = calls.clone();
                v[i].via = Via::Text;
                out.push(Case::Conc { calls: v, policy: policy.clone(), shared: *shared });
            }
            if *shared {
                if i == 0 {
                    for t in shrink_text(&c.text) {
                        let v = calls.iter().map(|c| Call { text: t.clone(), ..c.clone() }).collect();
                        out.push(Case::Conc { calls: v, policy: policy.clone(), shared: true });
                    }
                }
                continue;
            }
            for t in shrink_text(&c.text) {
                let mut v = calls.clone();
                v[i].text = t;
                out.push(Case::Conc { calls: v, policy: policy.clone(), shared: *shared });
            }
        }
        out
    }
}

/// Calls of all kinds; the first six are generated valid programs.
pub fn pool(rng: &mut Rng, cx: &Ctx, n: usize) -> Vec<Call> {
    let mut v = vec![];
    for i in 0..n {
        if i < 6 {
            let g = goal(rng);
            let k = rng.range(1, 4);
            let d = rng.range(2, 6);
            let t = program_text(rng, &cx.mined, g, k, d, true, true).join("\n");
            v.push(Call { goal: g, via: Via::Text, text: t });
            continue;
        }
        let (mut c, _) = damaged_source(rng, &cx.mined);
        if c.text.chars().count() > 3000 {
            c.text = c.text.chars().take(3000).collect();
        }
        if rng.chance(1, 10) {
            // same text, other goal
            let mut d = c.clone();
            d.goal = if c.goal == Goal::Module { Goal::Script } else { Goal::Module };
            v.push(d);
        }
        v.push(c);
    }
    v.truncate(n.max(6));
    v
}

/// Names that are treated differently from one another somewhere in the parser.
const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "if", "for", "in", "of", "yield", "await", "let", "static", "async", "get", "set", "new", "this", "null", "true",
    "eval", "arguments", "enum", "implements", "constructor", "prototype", "target", "default", "class", "function", "super", "typeof", "var",
    "import", "from", "as", "package", "undefined", "NaN", "\\u0061", "é", "a1", "do", "case", "else", "finally", "instanceof",
];

const STRINGS: &[&str] = &["\"use strict\"", "'use strict'", "\"a\"", "'use\\x20strict'", "\"use strict \"", "''", "\"use asm\""];
const NUMBERS: &[&str] = &["0", "1", "7", "010", "0x1F", "1.5", ".5", "1e3", "0b11", "9007199254740993"];
/// What may set a mode of the parser, and what such a mode decides.
const SETTERS: &[&str] = &[
    "\"use strict\";", "'use strict';", "'use strict'\n", "\"a\";", "'b'; \"use strict\";", "", "f();", "\"use strict\" + 1;", "(\"use strict\");", "import 'a';", "export {};",
];
const DECIDED: &[&str] = &[
    "with (a) b;", "var public;", "var yield = 1;", "yield = 1;", "await = 1;", "let = 1;", "010;", "'\\01';", "eval = 1;", "arguments++;", "delete a;", "static: a;",
    "if (a) function g() {}", "l: function g() {}", "implements;", "({ a: interface } = b);", "(package) => a;", "function g(a, a) {}", "function eval() {}", "try {} catch (eval) {}",
    "break;", "continue;", "return a;", "new.target;", "super.a;", "super();", "yield a;", "await a;", "for (let of a) b;", "for await (a of b) c;", "a ? b : c in d;", "for (a = b in c; ;) d;",
];
const SCOPES: &[(&str, &str)] = &[
    ("", ""), ("", ""), ("", ""), ("function f() {", "}"), ("function* f() {", "}"), ("(async function () {", "});"), ("(() => {", "});"), ("(async () => {", "});"),
    ("class A { constructor() {", "} }"), ("class A extends B { constructor() {", "} }"), ("({ *m() {", "} });"), ("({ get a() {", "} });"), ("while (a) {", "}"), ("l: {", "}"),
    ("switch (a) { case b:", "}"), ("try {", "} finally {}"), ("for (;;) {", "}"), ("if (a) {", "} else {}"),
];

/// A short program in which something sets a mode and something depends on one.
pub fn context(rng: &mut Rng) -> String {
    let mut t = String::new();
    for _ in 0..rng.range(1, 2) {
        let (a, b) = *rng.pick(SCOPES);
        t.push_str(a);
        t.push_str(rng.pick::<&str>(SETTERS));
        t.push(' ');
        for _ in 0..rng.range(1, 2) {
            let (c, d) = *rng.pick(SCOPES);
            t.push_str(c);
            if rng.chance(1, 4) {
                t.push_str(rng.pick::<&str>(SETTERS));
            }
            t.push_str(rng.pick::<&str>(DECIDED));
            t.push_str(d);
            t.push(' ');
        }
        t.push_str(b);
        t.push('\n');
    }
    t
}

/// Calls on a few short constructs that share most of their text: what one call
/// leaves behind, or reads too early, is most likely to matter to such another one.
pub fn family(rng: &mut Rng, cx: &Ctx, n: usize) -> Vec<Call> {
    let mined = &cx.mined;
    let gl = goal(rng);
    let k = *rng.pick(&[1, 1, 2, 2, 3]);
    let bases: Vec<String> = (0..k)
        .map(|_| {
            let mut t = match rng.below(10) {
                8 | 9 => context(rng),
                0..=4 => {
                    let g = crate::growth::random(rng, mined, 400);
                    let m = *rng.pick(&[1, 2, 3, 6]);
                    g.text(m)
                }
                5 => rng.pick(crate::corpus::SNIPS).to_string(),
                6 => {
                    let sh = rng.pick(crate::corpus::SHAPES);
                    let m = *rng.pick(&[1, 2, 3, 6]);
                    shape(sh, gl).text(m)
                }
                _ => program_text(rng, mined, gl, 1, 3, true, true).join("\n"),
            };
            if t.chars().count() > 300 {
                t = t.chars().take(300).collect();
            }
            t
        })
        .collect();
    let names: Vec<&str> = (0..rng.range(2, 5)).map(|_| *rng.pick(NAMES)).collect();
    let mut v: Vec<Call> = bases.iter().map(|b| Call { goal: gl, via: Via::Text, text: b.clone() }).collect();
    while v.len() < n {
        let mut t: Vec<char> = rng.pick(&bases).chars().collect();
        if rng.chance(1, 4) {
            let mut u: Vec<char> = vec!['\n'];
            u.extend(rng.pick(&bases).chars());
            t.extend(u);
        }
        if rng.chance(2, 3) {
            // other names in the same places
            let p = rng.range(1, 3);
            let pieces = crate::deliver::pieces(&t);
            for (a, b) in pieces.into_iter().rev() {
                if (t[a].is_alphabetic() || t[a] == '_' || t[a] == '$') && rng.chance(1, p + 1) {
                    let w: Vec<char> = rng.pick(&names).chars().collect();
                    t.splice(a..b, w);
                }
            }
        }
        if rng.chance(1, 3) {
            // other strings and numbers in the same places
            let pieces = crate::deliver::pieces(&t);
            for (a, b) in pieces.into_iter().rev() {
                let w = match t[a] {
                    '"' | '\'' => *rng.pick(STRINGS),
                    '0'..='9' => *rng.pick(NUMBERS),
                    _ => continue,
                };
                if rng.chance(1, 2) {
                    t.splice(a..b, w.chars());
                }
            }
        }
        let m = *rng.pick(&[0, 0, 1, 1, 2]);
        let other = t.clone();
        damage(rng, mined, &mut t, &other, m, true);
        if crate::deliver::nesting(&t) > MAX_NEST {
            continue;
        }
        let goal = if rng.chance(1, 5) { goal(rng) } else { gl };
        let len = t.len();
        let via = match rng.below(8) {
            0 => Via::Dies(rng.below(len + 1)),
            1 => Via::Stream,
            _ => Via::Text,
        };
        v.push(Call { goal, via, text: t.into_iter().collect() });
    }
    v
}
