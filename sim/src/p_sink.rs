//! C11: rendering into writers that misbehave.
use crate::case::*;
use crate::exec::*;
use crate::p_source::{clip, measured, step_limit};
use crate::proc::*;
use crate::rng::Rng;
use std::io;

pub struct C11;

const PANIC: &str = "gsim: the sink panics";

/// A writer that follows its plan. Errors are sticky in the sense of "failed for good".
struct Sink<'a> {
    plan: &'a SinkPlan,
    pos: usize,
    bytes: Vec<u8>,
    failed: bool,
    panicked: bool,
    writes: u64,
    /// accepted something after it had failed
    after: bool,
    /// misbehaved at least once
    odd: bool,
    /// works again after the failure (what it takes then is not kept)
    back: bool,
}

impl<'a> Sink<'a> {
    fn new(plan: &'a SinkPlan) -> Sink<'a> {
        Sink { plan, pos: 0, bytes: vec![], failed: false, panicked: false, writes: 0, after: false, odd: false, back: plan.recovers }
    }
    fn step(&mut self) -> i32 {
        let s = &self.plan.script;
        if s.is_empty() {
            return -4;
        }
        let i = self.pos;
        self.pos += 1;
        if i < s.len() {
            s[i]
        } else if self.plan.cycle {
            s[i % s.len()]
        } else {
            -4
        }
    }
    fn die(&mut self) -> ! {
        self.failed = true;
        self.panicked = true;
        add(Ct::sink_panic, 1);
        std::panic::panic_any(PANIC)
    }
}

impl io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if self.writes > 50_000_000 {
            crate::rt::raw_exit(crate::rt::EX_STEPS);
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after = true;
            if self.back {
                return Ok(b.len());
            }
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "closed"));
        }
        let room = self.plan.capacity - self.bytes.len().min(self.plan.capacity);
        if room == 0 {
            match self.plan.at_end {
                0 => {
                    self.failed = true;
                    add(Ct::sink_full, 1);
                    return Ok(0);
                }
                1 => {
                    self.failed = true;
                    add(Ct::sink_error, 1);
                    return Err(io::Error::from_raw_os_error(28));
                }
                _ => self.die(),
            }
        }
        let n = match self.step() {
            0 => {
                self.failed = true;
                add(Ct::sink_full, 1);
                return Ok(0);
            }
            -1 => {
                add(Ct::sink_interrupted, 1);
                self.odd = true;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            -2 => {
                self.failed = true;
                add(Ct::sink_error, 1);
                return Err(io::Error::from_raw_os_error(5));
            }
            -3 => self.die(),
            -4 => b.len(),
            n => (n.max(1) as usize).min(b.len()),
        }
        .min(room);
        if n < b.len() {
            add(Ct::sink_short, 1);
            self.odd = true;
        }
        self.bytes.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        add(Ct::sink_flush, 1);
        Ok(())
    }
}

impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.writes += 1;
        if s.is_empty() {
            return Ok(());
        }
        if self.failed {
            self.after = true;
            if self.back {
                return Ok(());
            }
            return Err(std::fmt::Error);
        }
        let room = self.plan.capacity - self.bytes.len().min(self.plan.capacity);
        let st = self.step();
        if s.len() > room || st == -2 || st == 0 || st == -3 {
            // a fmt sink may have stored a part of the piece
            let mut k = room.min(s.len());
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            if st > -2 && st != 0 {
                self.bytes.extend_from_slice(&s.as_bytes()[..k]);
            }
            if st == -3 || self.plan.at_end == 2 {
                self.die();
            }
            self.failed = true;
            add(Ct::sink_fmt_error, 1);
            return Err(std::fmt::Error);
        }
        self.bytes.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

enum Doc {
    Tree(giron::EstreeNode),
    Error(giron::GironError),
}

/// Fault-free rendering.
fn clean(d: &Doc, mode: u8) -> Result<Vec<u8>, String> {
    let r = guarded(|| match (d, mode) {
        (Doc::Tree(n), 1) => {
            let mut v = vec![];
            gsim_render::to_writer_pretty(n, &mut v).map_err(|e| e.to_string())?;
            Ok(v)
        }
        (Doc::Tree(n), 2) => Ok(gsim_render::debug(n).into_bytes()),
        (Doc::Tree(n), _) => {
            let mut v = vec![];
            gsim_render::to_writer(n, &mut v).map_err(|e| e.to_string())?;
            Ok(v)
        }
        (Doc::Error(e), _) => Ok(gsim_render::error_text(e).into_bytes()),
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn shown(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    clip(&s)
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "a tree (as JSON, pretty JSON or Debug text) or an error (as text) rendered into a simulated writer with short writes, interruptions, zero-length writes, errors, panics or limited capacity at a seeded position; success must be reported exactly when the writer never failed, accepted bytes must be a prefix of the fault-free output (all of it on success), and a second fault-free rendering must be identical; distinct_nontrivial counts distinct (source, writer plan) pairs in which the writer misbehaved"
    }
    fn batch(&self) -> usize {
        200
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 6_000_000 } else { 200_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C11", idx);
        let (mut call, _) = damaged_source(&mut rng, &cx.mined);
        if rng.chance(1, 2) {
            // a valid program
            let g = goal(&mut rng);
            let k = rng.range(1, 3);
            let d = rng.range(1, 6);
            call = Call { goal: g, via: Via::Text, text: program_text(&mut rng, &cx.mined, g, k, d, true, true).join("\n") };
        }
        if call.text.chars().count() > 2000 {
            call.text = call.text.chars().take(2000).collect();
        }
        let mode = rng.below(5) as u8;
        let n = call.text.len() * if mode >= 3 { 1 } else { 12 } + 40;
        let mut script = vec![];
        let capacity = if rng.chance(1, 2) { rng.log_range(1, n) - 1 } else if rng.chance(1, 8) { size(&mut rng, &cx.mined, 1, n.max(2)) } else { usize::MAX };
        let fatal = rng.chance(1, 2);
        let k = rng.small(40);
        for _ in 0..k {
            script.push(match rng.below(6) {
                0 => -1,
                1 | 2 => *rng.pick(&[1, 1, 2, 3, 7, 16, 100]),
                _ => -4,
            });
        }
        let mut cycle = rng.chance(1, 2);
        if cycle && script.iter().all(|&s| s == -1) {
            script.push(1);
        }
        if fatal {
            // position of the failing call
            let at = rng.log_range(1, 4000) - 1;
            while script.len() <= at {
                script.push(-4);
            }
            script[at] = *rng.pick(&[0, -2, -2, -3]);
            script.truncate(at + 1);
            cycle = false;
        }
        let at_end = *rng.pick(&[0, 1, 1, 2]);
        let recovers = rng.chance(1, 2);
        Case::Sink { call, plan: SinkPlan { mode, script, capacity, at_end, cycle, recovers } }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Sink { call, plan } = c else { return Ok(()) };
        if plan.cycle && !plan.script.is_empty() && plan.script.iter().all(|&s| s == -1) {
            return Ok(());
        }
        let lim = 4 * step_limit(call.text.chars().count());
        let (r, _) = measured(call.goal, call.via, call.text.clone(), lim);
        let doc = match r {
            Res::Ok(n) => Doc::Tree(n),
            Res::Err(e) => Doc::Error(e),
            _ => {
                add(Ct::skipped, 1);
                return Ok(());
            }
        };
        let mode = match (&doc, plan.mode) {
            (Doc::Tree(_), m @ 0..=2) => m,
            (Doc::Tree(_), _) => 0,
            (Doc::Error(_), m @ 3..=4) => m,
            (Doc::Error(_), m) => 3 + m % 2,
        };
        let what = ["the tree as JSON", "the tree as pretty JSON", "the tree as Debug text", "the error as text", "the error as text"][mode as usize];
        let show = || format!("{:?} {:?}", call.goal, clip(&call.text));
        let want = match clean(&doc, mode) {
            Ok(w) => w,
            Err(e) => return fail("clean", format!("rendering {} into memory fails: {}; {}", what, e, show())),
        };
        let mut sink = Sink::new(plan);
        let res = guarded(|| match (&doc, mode) {
            (Doc::Tree(n), 1) => gsim_render::to_writer_pretty(n, &mut sink).map_err(|e| e.to_string()),
            (Doc::Tree(n), 2) => gsim_render::debug_into(n, &mut sink).map_err(|_| "fmt error".to_string()),
            (Doc::Tree(n), _) => gsim_render::to_writer(n, &mut sink).map_err(|e| e.to_string()),
            (Doc::Error(e), 3) => gsim_render::error_into(e, &mut sink).map_err(|_| "fmt error".to_string()),
            (Doc::Error(e), _) => gsim_render::error_write(e, &mut sink).map_err(|e| e.to_string()),
        });
        if sink.failed && plan.recovers {
            add(Ct::sink_transient, 1);
        }
        add(Ct::sink_bytes, sink.bytes.len() as u64);
        let bad = sink.failed || sink.odd;
        if bad {
            distinct(hash_str(&format!("{:?}", c)));
        } else {
            add(Ct::sink_clean, 1);
        }
        let state = || format!("writer accepted {} of {} bytes, {}", sink.bytes.len(), want.len(), if sink.panicked { "then panicked" } else if sink.failed { "then failed" } else { "never failed" });
        match &res {
            Ok(Ok(())) if sink.failed => return fail("silent", format!("rendering {} reports success: {}; {}", what, state(), show())),
            Err(p) if !sink.panicked => return fail("panic", format!("rendering {} panics: {}; {}; {}", what, p, state(), show())),
            Ok(Err(e)) if !sink.failed => return fail("spurious", format!("rendering {} fails with {:?}: {}; {}", what, e, state(), show())),
            _ => {}
        }
        if !want.starts_with(&sink.bytes) {
            let k = sink.bytes.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(want.len().min(sink.bytes.len()));
            return fail("corrupt", format!("rendering {}: the accepted bytes are no prefix of the fault-free output, first difference at byte {} ({:?} instead of {:?}); {}; {}",
                what, k, shown(&sink.bytes[k..]), shown(&want[k..]), state(), show()));
        }
        if matches!(res, Ok(Ok(()))) && sink.bytes != want {
            return fail("short", format!("rendering {} reports success but {}; {}", what, state(), show()));
        }
        match clean(&doc, mode) {
            Ok(again) if again == want => {}
            Ok(again) => return fail("again", format!("rendering {} again after a fault gives {:?}, {} bytes instead of {}; {}", what, shown(&again), again.len(), want.len(), show())),
            Err(e) => return fail("again", format!("rendering {} again after a fault fails: {}; {}", what, e, show())),
        }
        let _ = guarded(move || drop(doc));
        Ok(())
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Sink { call, plan } = c else { return vec![] };
        let mut out = vec![];
        let mk = |call: Call, plan: SinkPlan| Case::Sink { call, plan };
        for s in shrink_list(&plan.script) {
            out.push(mk(call.clone(), SinkPlan { script: s, ..plan.clone() }));
        }
        if plan.capacity != usize::MAX {
            out.push(mk(call.clone(), SinkPlan { capacity: usize::MAX, ..plan.clone() }));
            for k in [0, plan.capacity / 2, plan.capacity.saturating_sub(1)] {
                if k < plan.capacity {
                    out.push(mk(call.clone(), SinkPlan { capacity: k, ..plan.clone() }));
                }
            }
        }
        if plan.recovers {
            out.push(mk(call.clone(), SinkPlan { recovers: false, ..plan.clone() }));
        }
        if plan.cycle {
            out.push(mk(call.clone(), SinkPlan { cycle: false, ..plan.clone() }));
        }
        if call.via != Via::Text {
            out.push(mk(Call { via: Via::Text, ..call.clone() }, plan.clone()));
        }
        for t in shrink_text(&call.text) {
            out.push(mk(Call { text: t, ..call.clone() }, plan.clone()));
        }
        out
    }
}
