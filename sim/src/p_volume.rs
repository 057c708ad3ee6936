//! C20: nothing is lost, repeated or changed in a long repetition.
use crate::case::*;
use crate::corpus;
use crate::exec::*;
use crate::growth;
use crate::p_source::{clip, measured, step_limit};
use crate::p_text::unplaced;
use crate::proc::*;
use crate::rng::Rng;

pub struct C20;

const BASE: usize = 100_000;

/// n repetitions; running numbers have six digits.
fn text(g: &Growth, n: usize) -> String {
    let mut s = g.pre.clone();
    for i in 0..n {
        if i > 0 {
            s.push_str(&g.sep);
        }
        if g.unit.contains('§') {
            s.push_str(&g.unit.replace('§', &(BASE + i).to_string()));
        } else {
            s.push_str(&g.unit);
        }
    }
    s.push_str(&g.post);
    s
}

/// The tree's JSON (None: rejected), or what else happened.
fn tree(g: &Growth, via: Via, n: usize) -> Result<Option<String>, String> {
    let t = text(g, n);
    let chars = t.chars().count();
    let (r, m) = measured(g.goal, via, t, 2 * step_limit(chars));
    distinct(m.hash);
    match r {
        Res::Ok(n) => match guarded(|| gsim_render::to_json(&n)) {
            Ok(Ok(j)) => Ok(Some(unplaced(&j))),
            Ok(Err(e)) => Err(e),
            Err(p) => Err(p),
        },
        Res::Err(_) => Ok(None),
        Res::Panic(p) => Err(p),
        Res::Died => Err("died".into()),
    }
}

/// P X² Q Y² S: what each further repetition adds to the tree, in at most two places.
struct Parts<'a> {
    p: &'a str,
    x: &'a str,
    q: &'a str,
    y: &'a str,
    s: &'a str,
}

impl Parts<'_> {
    /// The tree of n repetitions.
    fn predict(&self, n: usize) -> String {
        let mut out = String::with_capacity(self.p.len() + self.q.len() + self.s.len() + n * (self.x.len() + self.y.len()));
        let mark = (BASE + 2).to_string();
        let add = |out: &mut String, piece: &str| {
            if piece.is_empty() {
                return;
            }
            let numbered = piece.contains(&mark);
            for i in 2..n {
                if numbered {
                    out.push_str(&piece.replace(&mark, &(BASE + i).to_string()));
                } else {
                    out.push_str(piece);
                }
            }
        };
        out.push_str(self.p);
        add(&mut out, self.x);
        out.push_str(self.q);
        add(&mut out, self.y);
        out.push_str(self.s);
        out
    }
}

/// Explains how the trees of 2, 3, 4 and 5 repetitions follow from each other.
fn explain<'a>(j2: &'a str, j3: &'a str, j4: &str, j5: &str) -> Option<Parts<'a>> {
    if j3.len() < j2.len() {
        return None;
    }
    let floor = |s: &str, mut k: usize| {
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        k
    };
    let pre = floor(j2, j2.bytes().zip(j3.bytes()).take_while(|(a, b)| a == b).count());
    let mut suf = j2.bytes().rev().zip(j3.bytes().rev()).take_while(|(a, b)| a == b).count();
    while !j2.is_char_boundary(j2.len() - suf) || !j3.is_char_boundary(j3.len() - suf) {
        suf -= 1;
    }
    let suf = suf.min(j2.len() - pre);
    let (p, s) = (&j2[..pre], &j2[j2.len() - suf..]);
    let q = &j2[pre..j2.len() - suf];
    let m = &j3[pre..j3.len() - suf];
    // X Q Y is what stands in the middle of the tree of three
    if m.len() < q.len() {
        return None;
    }
    let mut tried = 0;
    let mut from = 0;
    while let Some(k) = m.get(from..).and_then(|r| r.find(q)).map(|k| k + from) {
        let parts = Parts { p, x: &m[..k], q, y: &m[k + q.len()..], s };
        if parts.predict(4) == j4 && parts.predict(5) == j5 {
            return Some(parts);
        }
        tried += 1;
        if tried > 400 || q.is_empty() {
            return None;
        }
        from = k + 1;
        while !m.is_char_boundary(from) {
            from += 1;
        }
    }
    None
}

/// The repetition makes a number longer: its value is not made of pieces.
fn in_number(g: &Growth) -> bool {
    let t = format!("{}{}{}", g.pre, g.unit, g.sep);
    let run: String = t.chars().rev().take_while(|c| c.is_alphanumeric() || *c == '.' || *c == '_').collect();
    g.sep.is_empty() && run.chars().last().map_or(false, |c| c.is_ascii_digit() || c == '.')
}

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "a source in which one construct (a statement, element, parameter, member, declarator, template piece, comment, blank line, or a piece of a token) is repeated n times, n to 120000 (thorough: 1000000) characters and often next to a size that occurs in the source code; the tree must be the one that the trees of 2 to 5 repetitions determine; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        40
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 120_000 } else { 10_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C20", idx);
        let most = match rng.below(150) {
            // more elements than a 16-bit number can count
            0 => 700_000,
            1..=50 => if cx.thorough { 1_000_000 } else { 120_000 },
            _ => 12_000,
        };
        let mut g = if rng.chance(1, 2) {
            shape(rng.pick(corpus::SHAPES), goal(&mut rng))
        } else {
            growth::random(&mut rng, &cx.mined, 16_000)
        };
        g.via = via(&mut rng);
        let u = (g.unit.chars().count() + g.sep.chars().count()).max(1);
        let lo = if most == 700_000 && most / u > 70_000 { 65_530 } else { 6 };
        g.n = vec![size(&mut rng, &cx.mined, lo, (most / u).max(8))];
        Case::Growth(g)
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Growth(g) = c else { return Ok(()) };
        let Some(&n) = g.n.first() else { return Ok(()) };
        add(Ct::growth_shapes, 1);
        if in_number(g) {
            add(Ct::skipped, 1);
            return Ok(());
        }
        let mut few = vec![];
        for k in 2..=5 {
            match tree(g, Via::Text, k) {
                Ok(j) => few.push(j),
                // C01's business
                Err(_) => {
                    add(Ct::skipped, 1);
                    return Ok(());
                }
            }
        }
        let show = || format!("{:?} {:?}, then {:?} {} times with {:?} in between, then {:?}", g.goal, clip(&g.pre), clip(&g.unit), n, g.sep, clip(&g.post));
        let (j2, j3, j4, j5) = match &few[..] {
            [Some(a), Some(b), Some(c), Some(d)] => (a, b, c, d),
            [None, None, None, None] => {
                return match tree(g, g.via, n) {
                    Ok(None) | Err(_) => Ok(()),
                    Ok(Some(_)) => fail("accepted", format!("rejected when repeated 2 to 5 times, accepted when repeated {} times; {}", n, show())),
                };
            }
            _ => {
                add(Ct::skipped, 1);
                return Ok(());
            }
        };
        let Some(parts) = explain(j2, j3, j4, j5) else {
            add(Ct::volume_unexplained, 1);
            return Ok(());
        };
        add(Ct::growth_pairs, 1);
        add(Ct::f_run_delivered, 1);
        add(Ct::volume_repetitions, n as u64);
        match tree(g, g.via, n) {
            Ok(Some(j)) => {
                let want = parts.predict(n);
                if j == want {
                    return Ok(());
                }
                let at = j.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(60).min(s.len())..(at + 120).min(s.len())]).to_string();
                fail("tree", format!(
                    "the tree of {} repetitions is not made of {} equal parts: {} bytes of JSON instead of {}, at byte {} ...{} instead of ...{}; {}",
                    n, n, j.len(), want.len(), at, cut(&j), cut(&want), show()))
            }
            Ok(None) => fail("rejected", format!("accepted when repeated 2 to 5 times, rejected when repeated {} times; {}", n, show())),
            Err(p) => fail("no verdict", format!("accepted when repeated 2 to 5 times, but with {} repetitions: {}; {}", n, p, show())),
        }
    }
    fn crash(&self, _end: &End) -> bool {
        true
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Growth(g) = c else { return vec![] };
        let n = g.n.first().copied().unwrap_or(6);
        let mut out = vec![];
        let mut k = n / 2;
        while k > 0 {
            if n - k >= 6 {
                out.push(Case::Growth(Growth { n: vec![n - k], ..g.clone() }));
            }
            k /= 2;
        }
        out.extend(growth::shrink(g).into_iter().map(Case::Growth));
        out
    }
}
