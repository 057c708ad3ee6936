//! C01 (no panic, abort or process end) and C02 (bounded work).
use crate::case::*;
use crate::corpus;
use crate::exec::*;
use crate::growth;
use crate::proc::*;
use crate::rng::Rng;
use crate::rt;
use std::sync::atomic::Ordering::Relaxed;

/// Simulated steps a call may take before it counts as not returning.
pub fn step_limit(chars: usize) -> u64 {
    200_000 + 3_000 * chars as u64
}

pub struct Meas {
    pub steps: u64,
    pub alloc: u64,
    pub copied: u64,
    pub scanned: u64,
    pub peak: i64,
    pub hash: u64,
}

/// One measured call on the current thread (text already built).
pub fn measured(goal: Goal, via: Via, text: String, limit: u64) -> (Res, Meas) {
    let chars = text.chars().count();
    rt::HEAP_LIMIT.store(rt::live() + (256 << 20) + 20_000 * chars as i64, Relaxed);
    rt::reset(limit);
    let live0 = rt::live();
    let r = call_owned(goal, via, text);
    let m = Meas {
        steps: rt::steps(),
        alloc: rt::TOTAL.load(Relaxed),
        copied: unsafe { rt::COPIED },
        scanned: unsafe { rt::SCANNED },
        peak: rt::PEAK.load(Relaxed) - live0,
        hash: unsafe { rt::HASH },
    };
    rt::HEAP_LIMIT.store(i64::MAX, Relaxed);
    rt::reset(u64::MAX);
    add(Ct::calls, 1);
    add(Ct::steps, m.steps);
    add(Ct::chars, chars as u64);
    add(Ct::bytes_allocated, m.alloc);
    match &r {
        Res::Ok(_) => add(Ct::verdict_tree, 1),
        Res::Err(_) => add(Ct::verdict_error, 1),
        Res::Panic(_) => add(Ct::verdict_panic, 1),
        Res::Died => add(Ct::verdict_died, 1),
    }
    (r, m)
}

pub struct C01;

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "seeded base source (grammar-generated program, feature snippets, repository snippets, nested constructs up to 44 levels, word soup, long flat lists) delivered with 0-5 transport faults; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        200
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 12_000_000 } else { 500_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C01", idx);
        let (call, faults) = damaged_source(&mut rng, &cx.mined);
        Case::Source { call, faults }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Source { call, .. } = c else { return Ok(()) };
        let n = call.text.chars().count();
        let (r, m) = measured(call.goal, call.via, call.text.clone(), step_limit(n));
        distinct(m.hash);
        let show = || format!("{:?} source {:?}", call.goal, clip(&call.text));
        match r {
            Res::Panic(p) => fail("panic", format!("parsing panics: {} on {}", p, show())),
            Res::Died => Ok(()),
            Res::Ok(n) => {
                let g = guarded(|| {
                    let j = gsim_render::to_json(&n);
                    let d = gsim_render::debug(&n).len();
                    (j, d)
                });
                match g {
                    Err(p) => return fail("render panic", format!("rendering the tree panics: {} on {}", p, show())),
                    Ok((Err(e), _)) => return fail("render error", format!("rendering the tree fails: {} on {}", e, show())),
                    Ok(_) => {}
                }
                if let Err(p) = guarded(|| gsim_render::drop_node(n)) {
                    return fail("drop panic", format!("dropping the tree panics: {} on {}", p, show()));
                }
                Ok(())
            }
            Res::Err(e) => {
                if let Err(p) = guarded(|| {
                    let _ = gsim_render::error_text(&e);
                    let _ = gsim_render::error_debug(&e);
                }) {
                    return fail("display panic", format!("rendering the error panics: {} on {}", p, show()));
                }
                Ok(())
            }
        }
    }
    fn crash(&self, _end: &End) -> bool {
        true
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink_source(c)
    }
}

pub fn clip(s: &str) -> String {
    let n = s.chars().count();
    if n <= 300 {
        s.to_string()
    } else {
        let a: String = s.chars().take(150).collect();
        let b: String = s.chars().skip(n - 120).collect();
        format!("{}...[{} chars]...{}", a, n, b)
    }
}

pub fn shrink_source(c: &Case) -> Vec<Case> {
    let Case::Source { call, faults } = c else { return vec![] };
    let mut out = vec![];
    if call.via != Via::Text {
        out.push(Case::Source { call: Call { via: Via::Text, ..call.clone() }, faults: faults.clone() });
    }
    for t in shrink_text(&call.text) {
        out.push(Case::Source { call: Call { text: t, ..call.clone() }, faults: faults.clone() });
    }
    out
}

// ---------------------------------------------------------------- C02

/// Absolute bounds per character, several times above what the unchanged tree
/// needs in its worst case (see DESIGN.md).
pub const STEPS_PER_CHAR: u64 = 2800;
pub const ALLOC_PER_CHAR: u64 = 6_000;
pub const COPY_PER_CHAR: u64 = 15_000;
pub const SCAN_PER_CHAR: u64 = 1_000;

pub struct C02;

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "two kinds of case: damaged sources (as for C01) with absolute bounds on edges, allocated, copied and scanned bytes per character; growth cases: one repeated construct (fixed shapes and shapes derived from generated programs), intact or cut, at four sizes, whose marginal cost per repetition must not grow; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        10
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 2_000_000 } else { 40_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C02", idx);
        if idx < 2 * corpus::SHAPES.len() as u64 {
            // every fixed shape once at large sizes, once cut
            let sh = &corpus::SHAPES[idx as usize / 2];
            return Case::Growth(growth::large(&mut rng, sh, idx % 2 == 1, cx.thorough));
        }
        if rng.chance(1, 12) {
            return Case::Growth(growth::random(&mut rng, &cx.mined, if cx.thorough { 60_000 } else { 10_000 }));
        }
        let (call, faults) = damaged_source(&mut rng, &cx.mined);
        Case::Source { call, faults }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        match c {
            Case::Source { call, .. } => {
                let n = call.text.chars().count() as u64;
                let (r, m) = measured(call.goal, call.via, call.text.clone(), step_limit(n as usize));
                distinct(m.hash);
                let what = if matches!(r, Res::Ok(_)) { "tree" } else { "error" };
                drop(r);
                let d = n + 200;
                max(Ct::max_permille_a, m.steps * 1000 / d);
                max(Ct::max_permille_b, m.alloc * 1000 / d);
                max(Ct::max_permille_c, m.copied * 1000 / d);
                max(Ct::max_permille_d, m.scanned * 1000 / d);
                for (v, b, w) in [
                    (m.steps, STEPS_PER_CHAR, "basic-block steps"),
                    (m.alloc, ALLOC_PER_CHAR, "bytes allocated"),
                    (m.copied, COPY_PER_CHAR, "bytes copied"),
                    (m.scanned, SCAN_PER_CHAR, "bytes scanned"),
                ] {
                    if v > b * d {
                        return fail("too much work", format!(
                            "{} {} for {} characters ({}), bound {}: {:?} source {:?}", v, w, n, what, b * d, call.goal, clip(&call.text)));
                    }
                }
                Ok(())
            }
            Case::Growth(g) => growth::check_work(g),
            _ => Ok(()),
        }
    }
    fn crash(&self, end: &End) -> bool {
        matches!(end, End::Exit(c) if *c == rt::EX_STEPS) || *end == End::Signal(14)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        match c {
            Case::Growth(g) => growth::shrink(g).into_iter().map(Case::Growth).collect(),
            _ => shrink_source(c),
        }
    }
    fn stack(&self) -> usize {
        64 << 20
    }
    fn secs(&self) -> u32 {
        100
    }
}
