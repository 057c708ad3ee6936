//! Cases (explicit, serialisable, replayable) and the interface of a property.
use crate::corpus::{self, Mined};
use crate::deliver::{self, Fault, FAULTS};
use crate::exec::*;
use crate::gen::{self, Cfg, Gen};
use crate::proc::{add_idx, Ct, End};
use crate::rng::Rng;
use crate::sched::Policy;
use serde::{Deserialize, Serialize};

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub mined: Mined,
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// class of the violation: stable across minimisation
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Growth {
    pub name: String,
    pub goal: Goal,
    pub via: Via,
    pub pre: String,
    /// '§' stands for a running number
    pub unit: String,
    pub sep: String,
    pub post: String,
    /// repetitions of the four sizes compared (two small, two large)
    pub n: Vec<usize>,
}

impl Growth {
    pub fn text(&self, n: usize) -> String {
        let mut s = self.pre.clone();
        for i in 0..n {
            if i > 0 {
                s.push_str(&self.sep);
            }
            if self.unit.contains('§') {
                s.push_str(&corpus::unit(&self.unit, i));
            } else {
                s.push_str(&self.unit);
            }
        }
        s.push_str(&self.post);
        s
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EnvCfg {
    pub env: u8,
    pub clock: u8,
    pub clock_start: u64,
    pub entropy: u64,
    pub pid: i32,
    pub fill: u64,
    pub threads_before: u8,
    pub junk: u32,
    pub big_stack: bool,
    /// of the thread that calls, if it has one
    #[serde(default)]
    pub thread_name: Option<String>,
    /// the first arguments of the process
    #[serde(default)]
    pub args: Vec<String>,
    pub vars: Vec<(String, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SinkPlan {
    /// 0 io json, 1 io json pretty, 2 fmt (Debug of the tree), 3 fmt (Display of the error), 4 io Display
    pub mode: u8,
    /// what each write call does: n>0 accept at most n bytes, 0 accept zero,
    /// -1 interrupted, -2 error, -3 panic, -4 accept all
    pub script: Vec<i32>,
    /// total capacity in bytes (usize::MAX: unlimited); 0 is returned afterwards
    pub capacity: usize,
    /// what happens at the capacity: 0 Ok(0), 1 error, 2 panic
    pub at_end: u8,
    /// the script repeats
    pub cycle: bool,
    /// after its failure the writer works again
    #[serde(default)]
    pub recovers: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Source { call: Call, faults: Vec<String> },
    Growth(Growth),
    /// calls made in this order in one process; `thread`: each on a fresh thread
    History { calls: Vec<Call>, order: Vec<u32>, threads: bool },
    Memory { calls: Vec<Call>, order: Vec<u32> },
    Conc { calls: Vec<Call>, policy: Policy, shared: bool },
    Env { call: Call, envs: Vec<EnvCfg> },
    Torn { goal: Goal, via: Via, intact: Vec<String>, last: String, why: String },
    Packets { goal: Goal, via: Via, packets: Vec<String>, order: Vec<u32>, fill: Vec<String>, tail: String },
    Blame { goal: Goal, via: Via, prefix: Vec<String>, before: Vec<String>, damaged: String, after: Vec<String>, how: String },
    Sink { call: Call, plan: SinkPlan },
    /// one token sequence, two layouts (a separator in front of each token, one at the end)
    Layout { goal: Goal, via: Via, toks: Vec<String>, a: Vec<String>, b: Vec<String>, same_lines: bool },
    /// one program in two layouts; from the second one, the tokens `lost` are missing (`items`: tokens per item)
    Semi { goal: Goal, via: Via, toks: Vec<String>, items: Vec<u32>, a: Vec<String>, b: Vec<String>, lost: Vec<u32>, same: bool },
    /// a program; `pairs`: tokens around which parentheses are put; `whole`: they change nothing, else something
    Group { goal: Goal, via: Via, toks: Vec<String>, items: Vec<u32>, seps: Vec<String>, pairs: Vec<(u32, u32)>, whole: bool },
    /// a program cut at the places of one payload
    Payload { goal: Goal, via: Via, parts: Vec<String>, old: String, new: String },
    /// calls of the wasm package by one host; `throws`: the host operation of each call that fails (-1: none)
    Host { calls: Vec<Call>, order: Vec<u32>, throws: Vec<i32> },
    /// a program; nodes of its tree are overwritten (`pick`: the seed that chooses some, or all of them)
    Splice { goal: Goal, via: Via, toks: Vec<String>, seps: Vec<String>, pick: Option<u64> },
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    /// cases per simulated process
    fn batch(&self) -> usize;
    fn total(&self, cx: &Ctx) -> u64;
    fn gen(&self, cx: &Ctx, idx: u64) -> Case;
    fn run(&self, cx: &Ctx, c: &Case) -> Result<(), Fail>;
    /// does this end of the process violate the property?
    fn crash(&self, end: &End) -> bool;
    fn shrink(&self, c: &Case) -> Vec<Case>;
    fn stack(&self) -> usize {
        8 << 20
    }
    /// real-time limit per case, a backstop for work that is not instrumented
    fn secs(&self) -> u32 {
        300
    }
}

// ---------------------------------------------------------------- sources

pub fn goal(rng: &mut Rng) -> Goal {
    if rng.chance(1, 2) {
        Goal::Module
    } else {
        Goal::Script
    }
}

pub fn via(rng: &mut Rng) -> Via {
    if rng.chance(1, 5) {
        Via::Stream
    } else {
        Via::Text
    }
}

/// A size that is often just around a number that occurs in the source code.
pub fn size(rng: &mut Rng, mined: &Mined, lo: usize, hi: usize) -> usize {
    if rng.chance(1, 3) {
        for _ in 0..4 {
            let v = *rng.pick(&mined.numbers);
            let v = (v + rng.below(4)).saturating_sub(1);
            if v >= lo && v <= hi {
                return v;
            }
        }
    }
    if rng.chance(1, 4) {
        let v = 1usize << rng.below(20);
        let v = (v + rng.below(4)).saturating_sub(2);
        if v >= lo && v <= hi {
            return v;
        }
    }
    rng.log_range(lo, hi)
}

/// A generated valid program as text (one or more items).
pub fn program_text(rng: &mut Rng, mined: &Mined, g: Goal, items: usize, depth: usize, literals: bool, independent: bool) -> Vec<String> {
    let cfg = Cfg { goal: g, depth, literals, dict: true, independent };
    let mut ge = Gen::new(Rng::new(rng.u64()), cfg, &mined.words);
    let st = gen::style(rng);
    (0..items)
        .map(|_| {
            let it = ge.item();
            gen::render(rng, st, &it.toks).0
        })
        .collect()
}

fn closers(unit: &str) -> String {
    let mut st = vec![];
    let c: Vec<char> = unit.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '`' => {
                st.push("`");
            }
            '$' if c.get(i + 1) == Some(&'{') => {
                st.push("}");
                i += 1;
            }
            '(' => st.push(")"),
            '[' => st.push("]"),
            '{' => st.push("}"),
            ')' | ']' | '}' => {
                st.pop();
            }
            _ => {}
        }
        i += 1;
    }
    st.reverse();
    st.concat()
}

/// Nested constructs up to the depth the properties allow.
pub fn nested(rng: &mut Rng) -> String {
    let k = rng.range(1, 44);
    let mut s = String::new();
    let mut close = String::new();
    if rng.chance(1, 2) {
        let (pre, u, post) = *rng.pick(corpus::CHAINS);
        s.push_str(pre);
        for _ in 0..k {
            s.push_str(u);
            close.insert_str(0, &closers(u));
        }
        s.push_str(post);
        if rng.chance(3, 4) {
            s.push_str(&close);
        }
    } else {
        // mixed nesting of expressions
        const E: &[(&str, &str)] = &[
            ("(", ")"), ("[", "]"), ("f(", ")"), ("a[", "]"), ("({a: ", "})"), ("`${", "}`"), ("(a = ", ")"), ("(a, ", ")"),
            ("[a, ", ", b]"), ("function () { return ", "; }"), ("() => ", ""), ("(a, b) => (", ")"), ("async (a) => (", ")"),
            ("a ? ", " : b"), ("a ? b : ", ""), ("!", ""), ("typeof ", ""), ("new A(", ")"), ("x => {y(", ")}"), ("{a() { ", "}}"),
            ("({[", "]: 1})"), ("({m() { return ", "; }})"), ("class A { m() { x(", ") } }"), ("a + ", ""), ("a && (", ")"),
            ("a = ", ""), ("({a: [", "]} = b)"), ("([a = ", "] = b)"), ("(a, ", ") => c"), ("({a = ", "}) => c"), ("...", ""),
            ("{ ", " }"), ("if (", ") ;"), ("async (", ")"), ("async (a = ", ") => b"), ("([", "]) => a"), ("({a: ", "}) => a"),
            ("(...", ") => a"), ("new new ", "()()"), ("super(", ")"), ("yield ", ""), ("await ", ""), ("a`${", "}`"), ("delete ", ""),
        ];
        for _ in 0..k {
            let (a, b) = *rng.pick(E);
            s.push_str(a);
            close.insert_str(0, b);
        }
        s.push('z');
        if rng.chance(4, 5) {
            s.push_str(&close);
        }
        if rng.chance(1, 2) {
            s.insert_str(0, "x = ");
        }
        s.push(';');
    }
    s
}

/// Some source text, valid or close to it.
pub fn base_text(rng: &mut Rng, mined: &Mined, g: Goal) -> String {
    match rng.below(40) {
        0..=17 => {
            let n = rng.range(1, 4);
            let d = rng.range(2, 7);
            let sep = *rng.pick(&["\n", " ", "\n\n", "\r\n"]);
            program_text(rng, mined, g, n, d, true, false).join(sep)
        }
        18..=28 => {
            let n = rng.small(4);
            let mut v = vec![];
            for _ in 0..n {
                v.push(rng.pick(corpus::SNIPS).to_string());
            }
            v.join(if rng.chance(1, 2) { "\n" } else { " " })
        }
        29..=32 if !mined.files.is_empty() => {
            let s = &rng.pick(&mined.files).1;
            if s.len() > 1500 && rng.chance(2, 3) {
                let c: Vec<char> = s.chars().collect();
                let k = rng.below(c.len());
                c[k..(k + 1000).min(c.len())].iter().collect()
            } else {
                s.clone()
            }
        }
        33..=36 => nested(rng),
        37 => {
            // word soup
            let n = rng.log_range(1, 60);
            let mut s = String::new();
            for _ in 0..n {
                let w = if rng.chance(1, 3) { rng.pick(&mined.words).clone() } else { rng.pick(deliver::HOSTILE).to_string() };
                s.push_str(&w);
                if rng.chance(2, 3) {
                    s.push(' ');
                }
            }
            s
        }
        _ => {
            let sh = rng.pick(corpus::SHAPES);
            let n = size(rng, mined, 1, 1200 / (sh.unit.chars().count() + sh.sep.chars().count()));
            shape(sh, g).text(n)
        }
    }
}

pub fn shape(sh: &corpus::Shape, g: Goal) -> Growth {
    Growth {
        name: sh.name.to_string(),
        goal: if sh.module { Goal::Module } else { g },
        via: Via::Text,
        pre: sh.pre.to_string(),
        unit: sh.unit.to_string(),
        sep: sh.sep.to_string(),
        post: sh.post.to_string(),
        n: vec![],
    }
}

pub const MAX_NEST: usize = 48;

/// Faults on a text; the list of what was done.
pub fn damage(rng: &mut Rng, mined: &Mined, t: &mut Vec<char>, other: &[char], n: usize, count: bool) -> Vec<String> {
    let mut log = vec![];
    for _ in 0..n {
        let f: Fault = if rng.chance(1, 3) {
            *rng.pick(&[Fault::Truncate, Fault::TruncateToken, Fault::TokenLost, Fault::TokenReplaced, Fault::TokenInserted])
        } else {
            *rng.pick(&FAULTS)
        };
        let before = t.clone();
        if let Some(d) = deliver::apply(f, t, other, &mined.words, rng) {
            if deliver::nesting(t) > MAX_NEST {
                *t = before;
                continue;
            }
            if count {
                add_idx(Ct::f_truncate as usize + f as usize, 1);
            }
            log.push(d);
        }
    }
    log
}

pub fn damaged_source(rng: &mut Rng, mined: &Mined) -> (Call, Vec<String>) {
    let g = goal(rng);
    let base = base_text(rng, mined, g);
    let mut t: Vec<char> = base.chars().collect();
    if deliver::nesting(&t) > MAX_NEST {
        t.truncate(40);
    }
    let n = *rng.pick(&[0, 1, 1, 1, 1, 1, 2, 2, 3, 5]);
    let other: Vec<char> = if n > 0 && rng.chance(1, 3) { base_text(rng, mined, g).chars().collect() } else { t.clone() };
    let log = damage(rng, mined, &mut t, &other, n, true);
    let v = via(rng);
    (Call { goal: g, via: v, text: t.into_iter().collect() }, log)
}

// ---------------------------------------------------------------- shrinking

/// Candidates that are smaller texts (coarse to fine).
pub fn shrink_text(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let n = c.len();
    let mut out = vec![];
    if n == 0 {
        return out;
    }
    let mut k = n / 2;
    let mut budget = 400;
    while k >= 1 && budget > 0 {
        let mut i = 0;
        while i < n && budget > 0 {
            let j = (i + k).min(n);
            let mut v = c[..i].to_vec();
            v.extend_from_slice(&c[j..]);
            out.push(v.into_iter().collect());
            i += k;
            budget -= 1;
        }
        if k == 1 {
            break;
        }
        k /= 2;
    }
    // simpler characters
    if n <= 40 {
        for i in 0..n {
            if c[i].is_alphanumeric() && c[i] != 'a' || !c[i].is_ascii() {
                let mut v = c.clone();
                v[i] = 'a';
                out.push(v.into_iter().collect());
            }
        }
    }
    out
}

pub fn shrink_list<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let n = v.len();
    let mut out = vec![];
    let mut k = n / 2;
    if n == 1 {
        out.push(vec![]);
    }
    while k >= 1 && out.len() < 120 {
        let mut i = 0;
        while i < n && out.len() < 120 {
            let j = (i + k).min(n);
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[j..]);
            out.push(w);
            i += k;
        }
        if k == 1 {
            break;
        }
        k /= 2;
    }
    out
}
