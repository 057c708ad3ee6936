//! C16: the wasm package in a simulated JavaScript host.
use crate::case::*;
use crate::exec::*;
use crate::p_conc::{family, pool};
use crate::p_source::clip;
#[cfg(feature = "binding")]
use crate::p_source::step_limit;
use crate::proc::*;
use crate::rng::Rng;
use std::sync::atomic::Ordering::Relaxed;

pub struct C16;

pub const BUILT: bool = cfg!(feature = "binding");

/// What the host sees of a call.
#[derive(Clone, Debug, PartialEq)]
#[allow(dead_code)]
enum Seen {
    /// the value of JSON.parse of this text
    Object(String),
    Text(String),
    Other(String),
    /// the exception of the host came back to the host
    HostThrow,
    /// an exception with this value
    Thrown(String),
    /// wasm traps
    Trap(String),
}

impl Seen {
    fn show(&self) -> String {
        match self {
            Seen::Object(s) => format!("the value of {}", clip(s)),
            Seen::Text(s) => format!("the string {:?}", clip(s)),
            Seen::Other(s) => format!("the value {}", clip(s)),
            Seen::HostThrow => "the exception of the host".to_string(),
            Seen::Thrown(s) => format!("an exception with {}", clip(s)),
            Seen::Trap(s) => format!("a trap ({})", s),
        }
    }
}

#[cfg(feature = "binding")]
mod glue {
    use super::*;
    use crate::rt;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use wasm_bindgen::{host, HostThrow, HostValue, JsError, JsValue};

    fn seen(v: &JsValue) -> Seen {
        match v.held() {
            HostValue::Json(s) => Seen::Object(s.clone()),
            HostValue::String(s) => Seen::Text(s.clone()),
            v => Seen::Other(format!("{:?}", v)),
        }
    }

    /// What an exported function may return.
    pub trait Returned {
        fn seen(self) -> Seen;
    }
    impl Returned for JsValue {
        fn seen(self) -> Seen {
            seen(&self)
        }
    }
    impl Returned for String {
        fn seen(self) -> Seen {
            Seen::Text(self)
        }
    }
    impl Returned for JsError {
        fn seen(self) -> Seen {
            Seen::Other(format!("{:?}", self))
        }
    }
    impl<T: Returned, E: Returned> Returned for Result<T, E> {
        fn seen(self) -> Seen {
            match self {
                Ok(v) => v.seen(),
                Err(e) => Seen::Thrown(e.seen().show()),
            }
        }
    }
    impl<T: Returned> Returned for Option<T> {
        fn seen(self) -> Seen {
            self.map_or(Seen::Other("undefined".into()), |v| v.seen())
        }
    }

    /// An exported function, however it takes its string.
    pub trait Export<M> {
        fn go(&self, s: String) -> Seen;
    }
    impl<R: Returned, F: Fn(String) -> R> Export<(String, R)> for F {
        fn go(&self, s: String) -> Seen {
            self(s).seen()
        }
    }
    pub struct Borrowed;
    impl<R: Returned, F: Fn(&str) -> R> Export<(Borrowed, R)> for F {
        fn go(&self, s: String) -> Seen {
            self(&s).seen()
        }
    }
    fn export<M>(f: impl Export<M>, s: String) -> Seen {
        f.go(s)
    }

    /// One call by the host; `throw`: the host operation that fails. Also how many operations there were.
    pub fn call(goal: Goal, text: &str, throw: Option<u64>, limit: u64) -> (Seen, u64) {
        let s = text.to_string();
        host::arm(throw);
        rt::reset(limit);
        unsafe { rt::IN_LIB = true };
        let r = catch_unwind(AssertUnwindSafe(|| match goal {
            Goal::Module => export(giron_wasm::parse_module, s),
            Goal::Script => export(giron_wasm::parse_script, s),
        }));
        unsafe { rt::IN_LIB = rt::SCHED_ON };
        add(Ct::steps, rt::steps());
        rt::reset(u64::MAX);
        let ops = host::ops();
        host::arm(None);
        let seen = match r {
            Ok(s) => s,
            Err(p) if p.is::<HostThrow>() => Seen::HostThrow,
            Err(_) => Seen::Trap(last_panic()),
        };
        (seen, ops)
    }
}

/// What the library says: Ok(JSON of the tree), or the error's text. None: it dies (C01's business).
#[cfg(feature = "binding")]
fn library(c: &Call) -> Option<Seen> {
    crate::rt::reset(step_limit(c.text.chars().count()));
    let r = crate::exec::call(c);
    add(Ct::steps, crate::rt::steps());
    crate::rt::reset(u64::MAX);
    add(Ct::calls, 1);
    match r {
        Res::Ok(n) => {
            add(Ct::verdict_tree, 1);
            Some(Seen::Object(guarded(|| serde_json::to_string(&n)).ok()?.ok()?))
        }
        Res::Err(e) => {
            add(Ct::verdict_error, 1);
            Some(Seen::Text(guarded(|| format!("{:?}", e)).ok()?))
        }
        _ => None,
    }
}

#[cfg(feature = "binding")]
fn equal(a: &Seen, b: &Seen) -> bool {
    if a == b {
        return true;
    }
    // the order of the members does not matter
    match (a, b) {
        (Seen::Object(a), Seen::Object(b)) => {
            let v = |s: &str| serde_json::from_str::<serde_json::Value>(s).ok();
            matches!((v(a), v(b)), (Some(a), Some(b)) if a == b)
        }
        _ => false,
    }
}

#[cfg(feature = "binding")]
fn run(calls: &[Call], order: &[u32], throws: &[i32]) -> Result<(), Fail> {
    slot().aux.store(0, Relaxed);
    let want: Vec<Option<Seen>> = calls.iter().map(library).collect();
    slot().aux.store(1, Relaxed);
    distinct(hash_str(&format!("{:?} {:?} {:?}", calls, order, throws)));
    for (k, &i) in order.iter().enumerate() {
        let c = &calls[i as usize];
        let Some(w) = &want[i as usize] else { continue };
        let throw = throws.get(k).copied().filter(|&t| t >= 0).map(|t| t as u64);
        let (got, ops) = glue::call(c.goal, &c.text, throw, 3 * step_limit(c.text.chars().count()));
        add(Ct::host_calls, 1);
        let threw = throw.map_or(false, |t| ops > t);
        let show = || format!("call {} of {} in this host, parse{:?} of {:?}", k + 1, order.len(), c.goal, clip(&c.text));
        if threw {
            add(Ct::f_host_throws, 1);
            if !matches!(got, Seen::HostThrow | Seen::Thrown(_) | Seen::Trap(_)) {
                return fail("swallowed", format!("the host throws while it takes the result, but the call returns {}; {}", got.show(), show()));
            }
        } else if !equal(&got, w) {
            return fail("differs", format!("the host gets {}; the library's result is {}; {}", got.show(), w.show(), show()));
        }
    }
    Ok(())
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "histories of 1 to 40 calls of the exported functions in one simulated JavaScript host, with sources intact or damaged in transit, in both goals, in some of which the host throws while it takes the result; distinct_nontrivial counts distinct histories"
    }
    fn batch(&self) -> usize {
        40
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 1_500_000 } else { 40_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut pr = Rng::stream(cx.seed, "C16 pool", idx / 40);
        let mut pool = if pr.chance(1, 2) { family(&mut pr, cx, 16) } else { pool(&mut pr, cx, 24) };
        for c in &mut pool {
            c.via = Via::Text;
        }
        for _ in 0..4 {
            let mut c = pr.pick(&pool).clone();
            c.goal = if c.goal == Goal::Module { Goal::Script } else { Goal::Module };
            pool.push(c);
        }
        let mut rng = Rng::stream(cx.seed, "C16", idx);
        let k = *rng.pick(&[1, 1, 1, 2, 2, 3, 5]);
        let mut calls: Vec<Call> = (0..k).map(|_| rng.pick(&pool).clone()).collect();
        if rng.chance(1, 3) {
            let (c, _) = damaged_source(&mut rng, &cx.mined);
            calls[0] = Call { via: Via::Text, ..c };
        }
        if rng.chance(1, 300) {
            // a long one
            let sh = rng.pick(crate::corpus::SHAPES);
            let most = if cx.thorough { 400_000 } else { 150_000 };
            let m = size(&mut rng, &cx.mined, 1, most / (sh.unit.chars().count() + sh.sep.chars().count()));
            let g = shape(sh, goal(&mut rng));
            calls[0] = Call { goal: g.goal, via: Via::Text, text: g.text(m) };
            return Case::Host { calls, order: vec![0], throws: vec![] };
        }
        let n = if k == 1 && rng.chance(1, 2) { 1 } else { rng.log_range(k, 40) };
        let order: Vec<u32> = (0..n).map(|i| if i < k { i as u32 } else { rng.below(k) as u32 }).collect();
        let p = *rng.pick(&[0, 0, 1, 3]);
        let throws = (0..n).map(|_| if rng.chance(p, 6) { *rng.pick(&[0, 0, 0, 0, 1, 2]) } else { -1 }).collect();
        Case::Host { calls, order, throws }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Host { calls, order, throws } = c else { return Ok(()) };
        #[cfg(feature = "binding")]
        return run(calls, order, throws);
        #[cfg(not(feature = "binding"))]
        {
            let _ = (calls, order, throws);
            Ok(())
        }
    }
    fn crash(&self, _end: &End) -> bool {
        // the library alone is C01's business; here it has returned
        slot().aux.load(Relaxed) == 1
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Host { calls, order, throws } = c else { return vec![] };
        let mut out = vec![];
        let both: Vec<(u32, i32)> = order.iter().copied().zip(throws.iter().copied()).collect();
        for v in shrink_list(&both) {
            let (order, throws) = v.into_iter().unzip();
            out.push(Case::Host { calls: calls.clone(), order, throws });
        }
        for k in 0..throws.len() {
            if throws[k] >= 0 {
                let mut t = throws.clone();
                t[k] = -1;
                out.push(Case::Host { calls: calls.clone(), order: order.clone(), throws: t });
            }
        }
        // calls that are not made
        for i in 0..calls.len() {
            if calls.len() > 1 && !order.contains(&(i as u32)) {
                let mut c = calls.clone();
                c.remove(i);
                let order = order.iter().map(|&o| if o > i as u32 { o - 1 } else { o }).collect();
                out.push(Case::Host { calls: c, order, throws: throws.clone() });
                return out;
            }
        }
        for i in 0..calls.len() {
            for t in shrink_text(&calls[i].text) {
                let mut c = calls.clone();
                c[i].text = t;
                out.push(Case::Host { calls: c, order: order.clone(), throws: throws.clone() });
            }
        }
        out
    }
}
