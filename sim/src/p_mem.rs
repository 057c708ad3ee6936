//! C03 (memory) and C04 (stack).
use crate::case::*;
use crate::corpus;
use crate::exec::*;
use crate::growth;
use crate::p_source::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::rt;

/// Live heap per character, several times above the worst case of the
/// unchanged tree (see DESIGN.md).
pub const PEAK_PER_CHAR: i64 = 3_000;

pub struct C03;

/// Runs the history once; how much is left allocated afterwards.
fn round(calls: &[Call], order: &[u32], k: usize, dirty: &mut [i64]) -> i64 {
    for &i in order {
        let c = &calls[i as usize];
        let text = corpus::unit(&c.text, k);
        let n = text.chars().count();
        let before = rt::live() - text.capacity() as i64;
        let text = String::from(text.as_str());
        let (r, _) = measured(c.goal, c.via, text, step_limit(n));
        match r {
            Res::Ok(n) => {
                let _ = guarded(|| {
                    let j = gsim_render::to_json(&n);
                    drop(j);
                    gsim_render::drop_node(n);
                });
            }
            Res::Err(e) => {
                let _ = guarded(|| {
                    let _ = gsim_render::error_text(&e);
                    gsim_render::drop_error(e);
                });
            }
            _ => {}
        }
        dirty[i as usize] += rt::live() - before;
        add(Ct::mem_calls, 1);
    }
    rt::live()
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "two kinds of case: histories of 1-8 calls (accepted, rejected, damaged, cut short by a dying source; names numbered per round) repeated 4 to 64 times, live heap compared between rounds; growth cases: peak live heap per repetition at two sizes, plus an absolute bound per character; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        20
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 800_000 } else { 25_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C03", idx);
        if idx < 2 * corpus::SHAPES.len() as u64 {
            let sh = &corpus::SHAPES[idx as usize / 2];
            let mut g = growth::large(&mut rng, sh, idx % 2 == 1, cx.thorough);
            return Case::Growth(g);
        }
        if rng.chance(1, 8) {
            return Case::Growth(growth::random(&mut rng, &cx.mined, if cx.thorough { 60_000 } else { 16_000 }));
        }
        if rng.chance(1, 3) {
            let (call, faults) = damaged_source(&mut rng, &cx.mined);
            return Case::Source { call, faults };
        }
        let k = if rng.chance(1, 3) { 1 } else { rng.range(1, 6) };
        let mut calls = vec![];
        for _ in 0..k {
            let (mut c, _) = damaged_source(&mut rng, &cx.mined);
            // a number that differs from round to round
            if rng.chance(2, 3) {
                if let Some(p) = c.text.find(|x: char| x.is_ascii_alphabetic()) {
                    if rng.chance(1, 2) {
                        c.text.insert_str(p + 1, "§");
                    } else {
                        c.text = format!("v§; {}", c.text);
                    }
                }
                if rng.chance(1, 4) {
                    c.text.push_str("\nx§ = 'str§' + `t§` + /r§/ + §;");
                }
            }
            if rng.chance(1, 6) {
                let n = c.text.chars().count();
                c.via = Via::Dies(rng.below(n + 1));
            }
            calls.push(c);
        }
        let m = rng.range(k, k + 4);
        let mut order: Vec<u32> = (0..k as u32).collect();
        while order.len() < m {
            order.push(rng.below(k) as u32);
        }
        Case::Memory { calls, order }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        match c {
            Case::Growth(g) => growth::check_peak(g),
            Case::Source { call, .. } => {
                let n = call.text.chars().count();
                let live0 = rt::live();
                let text = call.text.clone();
                let (r, m) = measured(call.goal, call.via, text, step_limit(n));
                distinct(m.hash);
                max(Ct::max_permille_a, m.peak.max(0) as u64 * 1000 / (n as u64 + 200));
                drop(r);
                let _ = live0;
                if m.peak > PEAK_PER_CHAR * (n as i64 + 200) {
                    return fail("peak", format!("{} bytes live for {} characters: {:?} source {:?}", m.peak, n, call.goal, clip(&call.text)));
                }
                Ok(())
            }
            Case::Memory { calls, order } => {
                let mut dirty = vec![0i64; calls.len()];
                let first = round(calls, order, 1000, &mut dirty);
                round(calls, order, 1001, &mut dirty);
                round(calls, order, 1002, &mut dirty);
                dirty.iter_mut().for_each(|d| *d = 0);
                let mut last = round(calls, order, 1003, &mut dirty);
                if last <= first {
                    return Ok(());
                }
                // something is kept: does it keep growing?
                add(Ct::mem_suspects, 1);
                let mut at = vec![(4, last)];
                let mut k = 4;
                for stop in [16, 32, 64] {
                    dirty.iter_mut().for_each(|d| *d = 0);
                    while k < stop {
                        last = round(calls, order, 1000 + k, &mut dirty);
                        k += 1;
                    }
                    at.push((k, last));
                }
                let grows = at.windows(2).all(|w| w[1].1 > w[0].1);
                if grows {
                    let worst = (0..calls.len()).max_by_key(|&i| dirty[i]).unwrap_or(0);
                    return fail("retained", format!(
                        "memory in use after repeating a history of {} calls: {} bytes after round 1, {} after round 16, {} after round 32, {} after round 64; most of it after {:?}",
                        order.len(), 0, at[1].1 - first, at[2].1 - first, at[3].1 - first, calls.get(worst).map(|c| (c.goal, c.via, clip(&c.text)))));
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    fn crash(&self, end: &End) -> bool {
        matches!(end, End::Exit(c) if *c == rt::EX_HEAP)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        match c {
            Case::Growth(g) => growth::shrink(g).into_iter().map(Case::Growth).collect(),
            Case::Memory { calls, order } => {
                let mut out: Vec<Case> = shrink_list(order).into_iter().filter(|o| !o.is_empty()).map(|order| Case::Memory { calls: calls.clone(), order }).collect();
                for (i, c) in calls.iter().enumerate() {
                    if !order.contains(&(i as u32)) {
                        continue;
                    }
                    if c.via != Via::Text {
                        let mut v = calls.clone();
                        v[i].via = Via::Text;
                        out.push(Case::Memory { calls: v, order: order.clone() });
                    }
                    for t in shrink_text(&c.text) {
                        let mut v = calls.clone();
                        v[i].text = t;
                        out.push(Case::Memory { calls: v, order: order.clone() });
                    }
                }
                out
            }
            _ => shrink_source(c),
        }
    }
    fn stack(&self) -> usize {
        64 << 20
    }
}

// ---------------------------------------------------------------- C04

pub struct C04;

const PAINT: usize = 1 << 20;

/// Stack used by the parse, the rendering and the drop of one text.
fn stack(g: &Growth, n: usize) -> (usize, usize, usize, u64) {
    let text = g.text(n);
    let chars = text.chars().count();
    rt::reset(step_limit(chars));
    let (r, parse) = rt::stack_used(PAINT, || call_owned(g.goal, g.via, text));
    let h = unsafe { rt::HASH };
    add(Ct::calls, 1);
    add(Ct::steps, rt::steps());
    rt::reset(u64::MAX);
    add(Ct::stack_runs, 1);
    match r {
        Res::Ok(node) => {
            add(Ct::verdict_tree, 1);
            let (_, render) = rt::stack_used(PAINT, || guarded(|| gsim_render::to_json(&node).map(|s| s.len())));
            let (_, dropped) = rt::stack_used(PAINT, || guarded(|| gsim_render::drop_node(node)));
            (parse, render, dropped, h)
        }
        Res::Err(e) => {
            add(Ct::verdict_error, 1);
            let (_, dropped) = rt::stack_used(PAINT, || guarded(|| gsim_render::drop_error(e)));
            (parse, 0, dropped, h)
        }
        Res::Panic(_) => {
            add(Ct::verdict_panic, 1);
            (0, 0, 0, h)
        }
        Res::Died => (0, 0, 0, h),
    }
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "one construct repeated flatly (fixed shapes, and statements, list elements, parameters, body statements, token contents and blanks derived from generated programs), intact, cut or with a wrong end, at a small and a 50-100 times larger count; stack bytes used by parse, JSON rendering and drop must not grow; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        20
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 150_000 } else { 5_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C04", idx);
        let k = corpus::SHAPES.len() as u64;
        if idx < 2 * k {
            let sh = &corpus::SHAPES[idx as usize / 2];
            let mut g = growth::large(&mut rng, sh, idx % 2 == 1, cx.thorough);
            g.n = vec![20, if cx.thorough { 20_000 } else { 2_000 }];
            return Case::Growth(g);
        }
        let mut g = growth::random(&mut rng, &cx.mined, 16_000);
        let u = g.unit.chars().count() + g.sep.chars().count();
        let hi = *rng.pick(&[400, 1000, 1000, 2000, 4000, 20_000]);
        let hi = hi.min(16_000 / u.max(1)).max(300);
        g.n = vec![10, hi];
        Case::Growth(g)
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Growth(g) = c else { return Ok(()) };
        if g.n.len() < 2 {
            return Ok(());
        }
        let (n1, n2) = (g.n[0], *g.n.last().unwrap());
        add(Ct::growth_pairs, 1);
        // the first call on a thread may touch more (lazy initialisation)
        let a0 = stack(g, n1);
        let a1 = stack(g, n1);
        let b = stack(g, n2);
        distinct(a0.3);
        distinct(b.3);
        for (name, x, x1, y) in [("parsing", a0.0, a1.0, b.0), ("rendering the tree as JSON", a0.1, a1.1, b.1), ("dropping the result", a0.2, a1.2, b.2)] {
            let x = x.max(x1);
            if x > 0 && y > x + 24_576 && y > x + x / 2 {
                return fail(&format!("stack {}", name), format!(
                    "{} uses {} bytes of stack with {} repetitions and {}{} with {}: {} ({:?} {:?}: {:?} + {:?} x n, separated by {:?}, + {:?})",
                    name, x, n1, if y >= PAINT - 40_000 { "at least " } else { "" }, y, n2, g.name, g.goal, g.via, clip(&g.pre), clip(&g.unit), g.sep, clip(&g.post)));
            }
        }
        Ok(())
    }
    fn crash(&self, end: &End) -> bool {
        matches!(end, End::Signal(11) | End::Signal(6) | End::Signal(7)) || matches!(end, End::Exit(c) if *c == rt::EX_ABORT)
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Growth(g) = c else { return vec![] };
        growth::shrink(g)
            .into_iter()
            .map(|mut s| {
                if s.n != g.n {
                    s.n = vec![g.n[0], (g.n[g.n.len() - 1] / 2).max(20)];
                }
                Case::Growth(s)
            })
            .collect()
    }
    fn stack(&self) -> usize {
        256 << 20
    }
}
