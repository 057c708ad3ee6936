//! Search, confirmation, minimisation, replay and evidence.
use crate::case::*;
use crate::proc::*;
use crate::rt;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

extern "C" {
    fn alarm(s: u32) -> u32;
}

pub struct Setup {
    pub base: PathBuf,
    pub workers: usize,
    pub tier: String,
}

/// Findings that are known and not repaired: (property, signature, part of the message).
fn known_list(base: &std::path::Path) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(base.join("known-findings.txt")) {
        for l in s.lines() {
            // finding: property=C01 sig=<signature> match=<part of the message>
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((id, r)) = r.split_once(" sig=") {
                    if let Some((sig, m)) = r.split_once(" match=") {
                        v.push((id.to_string(), sig.to_string(), m.to_string()));
                    }
                }
            }
        }
    }
    v
}

fn known_for(known: &[(String, String, String)], id: &str, f: &Fail) -> Option<usize> {
    known.iter().position(|k| k.0 == id && k.1 == f.sig && f.msg.contains(&k.2))
}

/// Runs cases one after the other in one fresh process; the first violation.
pub fn run_cases(prop: &dyn Prop, cx: &Ctx, cases: &[Case]) -> Option<Fail> {
    let secs = prop.secs();
    let end = in_child(0, || {
        on_stack(prop.stack(), || {
            for (k, c) in cases.iter().enumerate() {
                slot().cur.store(k as u64, Relaxed);
                unsafe { alarm(secs) };
                if let Err(f) = prop.run(cx, c) {
                    return serde_json::to_string(&(f.sig, f.msg)).unwrap();
                }
            }
            String::new()
        })
    });
    match end {
        End::Value(v) if v.is_empty() => None,
        End::Value(v) => {
            let (sig, msg): (String, String) = serde_json::from_str(&v).unwrap();
            Some(Fail { sig, msg })
        }
        e => {
            if !prop.crash(&e) {
                return None;
            }
            let k = (slot().cur.load(Relaxed) as usize).min(cases.len() - 1);
            Some(Fail { sig: e.sig(), msg: format!("{}; {}", e.describe(), brief(&cases[k])) })
        }
    }
}

pub fn brief(c: &Case) -> String {
    let s = serde_json::to_string(c).unwrap();
    let n = s.chars().count();
    if n <= 700 {
        s
    } else {
        let a: String = s.chars().take(500).collect();
        let b: String = s.chars().skip(n - 150).collect();
        format!("{} ... [{} chars] ... {}", a, n, b)
    }
}

fn worker(prop: &dyn Prop, cx: &Ctx, known: &[(String, String, String)], w: usize, workers: usize, from: u64, total: u64, skip: &[u64]) {
    set_slot(w);
    let b = prop.batch() as u64;
    let batches = (total + b - 1) / b;
    let mut batch = from / b;
    batch += (w as u64 + workers as u64 - batch % workers as u64) % workers as u64;
    while batch < batches {
        let mut idx = batch * b;
        let end = (idx + b).min(total);
        if idx > shared().min_viol.load(Relaxed) {
            break;
        }
        while idx < end {
            slot().cur.store(u64::MAX, Relaxed);
            let secs = prop.secs();
            let e = in_child(0, || {
                on_stack(prop.stack(), || {
                    for i in idx..end {
                        if skip.contains(&i) {
                            continue;
                        }
                        slot().cur.store(i, Relaxed);
                        unsafe { alarm(secs) };
                        let c = prop.gen(cx, i);
                        add(Ct::runs, 1);
                        if let Err(f) = prop.run(cx, &c) {
                            match known_for(known, prop.id(), &f) {
                                Some(k) => add_idx(NCT - 1 - k, 1),
                                None => return i.to_string(),
                            }
                        }
                    }
                    String::new()
                })
            });
            let at = slot().cur.load(Relaxed);
            match e {
                End::Value(v) if v.is_empty() => break,
                End::Value(v) => {
                    shared().min_viol.fetch_min(v.parse().unwrap(), Relaxed);
                    break;
                }
                e => {
                    if at == u64::MAX {
                        rt::say(2, &format!("gsim: batch process failed before its first case: {}\n", e.describe()));
                        rt::raw_exit(rt::EX_HARNESS);
                    }
                    if prop.crash(&e) {
                        let f = Fail { sig: e.sig(), msg: e.describe() };
                        if known_for(known, prop.id(), &f).is_none() {
                            shared().min_viol.fetch_min(at, Relaxed);
                            break;
                        }
                    } else {
                        add(Ct::crashed_elsewhere, 1);
                    }
                    idx = at + 1;
                }
            }
        }
        batch += workers as u64;
    }
}

fn search(prop: &dyn Prop, cx: &Ctx, known: &[(String, String, String)], st: &Setup, from: u64, total: u64, skip: &[u64]) -> u64 {
    shared().min_viol.store(u64::MAX, Relaxed);
    let pids: Vec<i32> = (0..st.workers).map(|w| spawn(|| worker(prop, cx, known, w, st.workers, from, total, skip))).collect();
    let mut bad = false;
    for p in pids {
        bad |= wait(p) != 0;
    }
    if bad {
        eprintln!("gsim: a worker failed (error of the harness)");
        std::process::exit(2);
    }
    shared().min_viol.load(Relaxed)
}

/// Smaller cases with the same kind of violation, greedily.
fn minimise(prop: &dyn Prop, cx: &Ctx, cases: Vec<Case>, f: Fail) -> (Vec<Case>, Fail, usize) {
    let t0 = Instant::now();
    let mut best = (cases, f);
    let mut evals = 0;
    let spent = |evals: usize| evals >= 3000 || t0.elapsed().as_secs() >= 45;
    // the sequence first
    loop {
        let mut better = None;
        if best.0.len() > 1 {
            for v in shrink_list(&best.0) {
                if v.is_empty() || spent(evals) {
                    continue;
                }
                evals += 1;
                if let Some(f) = run_cases(prop, cx, &v) {
                    if f.sig == best.1.sig {
                        better = Some((v, f));
                        break;
                    }
                }
            }
        }
        match better {
            Some(b) => best = b,
            None => break,
        }
    }
    // then every case of it
    for k in 0..best.0.len() {
        let mut progress = true;
        while progress && !spent(evals) {
            progress = false;
            for c in prop.shrink(&best.0[k]) {
                if spent(evals) {
                    break;
                }
                let mut v = best.0.clone();
                v[k] = c;
                evals += 1;
                if let Some(f) = run_cases(prop, cx, &v) {
                    if f.sig == best.1.sig {
                        best = (v, f);
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    (best.0, best.1, evals)
}

pub fn check(prop: &dyn Prop, cx: &Ctx, st: &Setup) -> i32 {
    let t0 = Instant::now();
    let known = known_list(&st.base);
    let total = prop.total(cx);
    let total = match std::env::var("GSIM_RUNS") {
        Ok(n) => n.parse().unwrap_or(total),
        _ => total,
    };
    let mut skip = vec![];
    let mut from = 0;
    let mut found = None;
    let mut unrepeated = 0;
    loop {
        let at = search(prop, cx, &known, st, from, total, &skip);
        if at == u64::MAX {
            break;
        }
        set_slot(PARENT_SLOT);
        // alone in a fresh process, else after the cases before it
        let case = prop.gen(cx, at);
        let mut got = None;
        for _ in 0..3 {
            if let Some(f) = run_cases(prop, cx, std::slice::from_ref(&case)) {
                got = Some((vec![case.clone()], f));
                break;
            }
        }
        if got.is_none() {
            let b = prop.batch() as u64;
            let seq: Vec<Case> = ((at / b) * b..=at).map(|i| prop.gen(cx, i)).collect();
            if let Some(f) = run_cases(prop, cx, &seq) {
                got = Some((seq, f));
            }
        }
        match got {
            Some((cases, f)) => {
                found = Some((at, cases, f));
                break;
            }
            None => {
                eprintln!("gsim: case {} did not fail again, ignored", at);
                unrepeated += 1;
                skip.push(at);
                from = at;
                if skip.len() >= 3 {
                    break;
                }
            }
        }
    }
    let searched = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some((at, cases, f)) = found {
        let raw: Vec<String> = cases.iter().map(brief).collect();
        let (cases, f, evals) = minimise(prop, cx, cases, f);
        let dir = st.base.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-case{}.json", prop.id(), cx.seed, at));
        let doc = json!({
            "property": prop.id(), "seed": cx.seed, "tier": st.tier, "case": at, "signature": f.sig, "violation": f.msg,
            "minimised_after": evals, "before_minimisation": raw.last(),
            "cases": cases,
        });
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) {
            eprintln!("gsim: cannot write {}: {}", path.display(), e);
        }
        println!("{}: seed {} case {}: [{}] {}", prop.id(), cx.seed, at, f.sig, f.msg);
        println!("VIOLATION property={} replay={}", prop.id(), path.display());
        code = 1;
    }
    for (k, f) in known.iter().enumerate() {
        if f.0 == prop.id() && total_idx(NCT - 1 - k) > 0 {
            println!("KNOWN-FINDING: property={} [{}] {} ({} cases)", f.0, f.1, f.2, total_idx(NCT - 1 - k));
        }
    }
    if let Ok(f) = std::env::var("GSIM_COVDUMP") {
        // development aid: which edges of the library the runs reached
        let cov = unsafe { std::slice::from_raw_parts(rt::COV, rt::edges_total() + 1) };
        let text: String = rt::edge_addresses().iter().enumerate().map(|(k, a)| format!("0x{:x} {}\n", a, (cov[k + 1] != 0) as u8)).collect();
        let _ = std::fs::write(f, text);
    }
    evidence(prop, cx, st, total, t0.elapsed().as_secs_f64(), searched, code, unrepeated);
    let runs = crate::proc::total(Ct::runs);
    println!(
        "{}: {} simulated runs, {} distinct, {:.1} s ({:.0} runs per hour), {} of {} edges",
        prop.id(), runs, crate::proc::total(Ct::distinct), searched, runs as f64 / searched * 3600.0, edges_covered(), rt::edges_total()
    );
    code
}

fn evidence(prop: &dyn Prop, cx: &Ctx, st: &Setup, total: u64, wall: f64, searched: f64, code: i32, unrepeated: u64) {
    let t = |c: Ct| crate::proc::total(c);
    let mut faults = serde_json::Map::new();
    let mut other = serde_json::Map::new();
    for (i, n) in CT_NAMES.iter().enumerate() {
        let v = if n.contains("max") { total_max_idx(i) } else { total_idx(i) };
        if v == 0 {
            continue;
        }
        let is_fault = ["f_", "sink_", "cut_", "unbalanced_", "packets_", "env_", "thread_", "sched_pause", "sched_burst"].iter().any(|p| n.starts_with(p)) && !matches!(*n, "sink_bytes" | "sink_clean" | "sink_flush");
        if is_fault {
            faults.insert(n.trim_start_matches("f_").to_string(), json!(v));
        } else if !matches!(*n, "runs" | "distinct" | "steps") {
            other.insert(n.to_string(), json!(v));
        }
    }
    set_slot(PARENT_SLOT);
    let samples: Vec<Value> = [total / 7, total / 3, total / 2, total - 1]
        .iter()
        .map(|&i| json!({"case": i, "input": brief(&prop.gen(cx, i))}))
        .collect();
    let runs = t(Ct::runs);
    let doc = json!({
        "property": prop.id(),
        "tier": st.tier,
        "seed": cx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": t(Ct::distinct),
            "rule": prop.rule(),
            "samples": samples,
            "planned_runs": total,
            "runs_per_hour": (runs as f64 / searched * 3600.0) as u64,
            "seeds": format!("one master seed ({}); every run draws from its own stream (seed, property, run number)", cx.seed),
            "simulated_time_basic_blocks": t(Ct::steps),
            "calls_of_the_library": t(Ct::calls),
            "processes_forked": t(Ct::processes),
            "faults_injected": faults,
            "counters": other,
            "edges_covered": edges_covered(),
            "edges_instrumented": rt::edges_total(),
            "distinctness_measure": "hash of the sequence of basic-block edges (or of the schedule, history, environment, writer plan, see rule), counted in a bitmap of 2^27 bits (a lower bound)",
            "not_repeated": unrepeated,
            "real_code": if prop.id() == "C16" {
                json!(["giron-wasm (lib.rs)", "giron (lexer, parser, error and tree types, serde implementations)", "serde, serde_json, std"])
            } else {
                json!(["giron (lexer, parser, error and tree types, serde implementations)", "serde, serde_json, std"])
            },
            "simulated": ["thread scheduling and futexes", "heap (accounting, fill pattern, limit)", "clock, entropy, process id, environment variables, sleep", "file, network, output and process-end calls (recorded, refused)", "source delivery", "writers", "JavaScript host and wasm-bindgen (C16)"],
            "stream_hook": !cfg!(feature = "nohook"),
        },
        "assumptions": [
            "x86-64 Linux; rustc stable with debug assertions and overflow checks on, opt-level 1",
            "threads are preempted at basic-block edges of giron and at futex calls; weak-memory reorderings are not simulated",
            "allocation failure is not injected (Rust aborts on it by design); a heap limit ends the run instead",
        ],
        "wall_s": wall,
        "violations": code,
    });
    let dir = st.base.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id())), serde_json::to_string_pretty(&doc).unwrap()) {
        eprintln!("gsim: cannot write evidence: {}", e);
        std::process::exit(2);
    }
}

pub fn replay(props: &[&dyn Prop], cx: &Ctx, path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("gsim: {}: {}", path, e);
            return 2;
        }
    };
    let v: Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("gsim: {}: {}", path, e);
            return 2;
        }
    };
    let Some(prop) = props.iter().find(|p| v["property"] == p.id()) else {
        eprintln!("gsim: unknown property {}", v["property"]);
        return 2;
    };
    let cases: Vec<Case> = match serde_json::from_value(v["cases"].clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("gsim: {}: {}", path, e);
            return 2;
        }
    };
    set_slot(PARENT_SLOT);
    match run_cases(*prop, cx, &cases) {
        Some(f) => {
            println!("{}: [{}] {}", prop.id(), f.sig, f.msg);
            println!("VIOLATION property={} replay={}", prop.id(), path);
            1
        }
        None => {
            println!("{}: the replayed run shows no violation", prop.id());
            0
        }
    }
}
