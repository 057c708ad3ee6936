//! C22: parentheses that arrive in addition, or are lost, change the tree exactly
//! if they are not redundant.
use crate::case::*;
use crate::exec::*;
use crate::gen::{Cfg, Gen, Tok};
use crate::p_layout::{json, kind, laid_out, parse, random_layout, TERMINATORS};
use crate::p_source::clip;
use crate::p_text::unplaced;
use crate::proc::*;
use crate::rng::Rng;

pub struct C22;

/// Sequences of one expression (parentheses) replaced by it.
pub fn bare(json: &str) -> String {
    const HEAD: &str = "{\"type\":\"SequenceExpression\",\"expressions\":[";
    let b = json.as_bytes();
    let mut out: Vec<u8> = Vec::with_capacity(b.len());
    // (place of the head in the output, depth, commas at that depth)
    let mut open: Vec<(usize, usize, usize)> = vec![];
    let mut depth = 0;
    let mut i = 0;
    while i < b.len() {
        if json.as_bytes()[i..].starts_with(HEAD.as_bytes()) {
            depth += 2;
            open.push((out.len(), depth, 0));
            out.extend_from_slice(HEAD.as_bytes());
            i += HEAD.len();
            continue;
        }
        match b[i] {
            b'"' => {
                let from = i;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i = (i + 1).min(b.len());
                out.extend_from_slice(&b[from..i]);
                continue;
            }
            b'{' | b'[' => depth += 1,
            b']' if open.last().map_or(false, |o| o.1 == depth) => {
                let (at, _, commas) = open.pop().unwrap();
                let empty = out.len() == at + HEAD.len();
                if commas == 0 && !empty && b.get(i + 1) == Some(&b'}') {
                    out.drain(at..at + HEAD.len());
                    depth -= 2;
                    i += 2;
                    continue;
                }
                depth -= 1;
            }
            b'}' | b']' => depth -= 1,
            b',' => {
                if let Some(o) = open.last_mut() {
                    if o.1 == depth {
                        o.2 += 1;
                    }
                }
            }
            _ => (),
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8(out).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
}

fn wrapped(toks: &[String], pairs: &[(u32, u32)]) -> Vec<String> {
    let mut out = toks.to_vec();
    for &(a, b) in pairs {
        out[a as usize].insert(0, '(');
        out[b as usize].push(')');
    }
    out
}

impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "a generated program delivered as it is and with up to 12 pairs of parentheses put around expressions of it (operands, results of operators as their precedence groups them, assignments, calls, member accesses): the trees must be equal, parentheses aside; or with one pair that groups operators otherwise: the trees must differ; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 4_000_000 } else { 80_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C22", idx);
        let rng = &mut rng;
        let g = goal(rng);
        let cfg = Cfg { goal: g, depth: rng.range(1, 6), literals: rng.chance(1, 2), dict: rng.chance(1, 3), independent: rng.chance(1, 3) };
        let mut ge = Gen::new(Rng::new(rng.u64()), cfg, &cx.mined.words);
        ge.groups = true;
        let mut toks: Vec<Tok> = vec![];
        let mut items = vec![];
        for _ in 0..rng.small(4).max(1) {
            let it = ge.item();
            items.push(it.toks.len() as u32);
            toks.extend(it.toks);
        }
        let mut span = vec![(u32::MAX, u32::MAX); ge.whole.len()];
        for (i, t) in toks.iter().enumerate() {
            for &k in &t.gs {
                span[k as usize].0 = i as u32;
            }
            for &k in &t.ge {
                span[k as usize].1 = i as u32;
            }
        }
        let telling: Vec<usize> = (0..span.len()).filter(|&k| !ge.whole[k]).collect();
        let redundant: Vec<usize> = (0..span.len()).filter(|&k| ge.whole[k]).collect();
        let whole = telling.is_empty() || rng.chance(3, 4);
        let mut pairs = vec![];
        if !whole {
            pairs.push(span[*rng.pick(&telling)]);
        } else if !redundant.is_empty() {
            for _ in 0..rng.small(12).max(1) {
                pairs.push(span[*rng.pick(&redundant)]);
            }
        }
        pairs.retain(|p| p.0 != u32::MAX && p.1 != u32::MAX && p.0 <= p.1);
        let seps = random_layout(rng, cx, &toks);
        Case::Group { goal: g, via: via(rng), toks: toks.into_iter().map(|t| t.s).collect(), items, seps, pairs, whole }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Group { goal, via, toks, seps, pairs, whole, .. } = c else { return Ok(()) };
        if pairs.is_empty() {
            return Ok(());
        }
        let ta = laid_out(toks, seps);
        let tb = laid_out(&wrapped(toks, pairs), seps);
        let ra = parse(*goal, *via, &ta);
        let rb = parse(*goal, *via, &tb);
        add(Ct::f_parentheses_put, pairs.len() as u64);
        if matches!(ra, Res::Panic(_) | Res::Died) || matches!(rb, Res::Panic(_) | Res::Died) {
            add(Ct::skipped, 1);
            return Ok(());
        }
        let place = || pairs.iter().take(3).map(|&(i, j)| format!("({})", toks[i as usize..=(j as usize).min(i as usize + 20)].join(" "))).collect::<Vec<_>>().join(" and ");
        if matches!(ra, Res::Ok(_)) != matches!(rb, Res::Ok(_)) {
            return fail("verdict", format!("the parentheses of {:?} turn {} into {}; {:?} {:?} against {:?}", place(), kind(&ra), kind(&rb), goal, clip(&ta), clip(&tb)));
        }
        let Res::Ok(_) = ra else { return Ok(()) };
        let (Some(ja), Some(jb)) = (json(&ra), json(&rb)) else { return fail("render", format!("a tree cannot be rendered; {:?} {:?}", goal, clip(&ta))) };
        let (ja, jb) = (bare(&unplaced(&ja)), bare(&unplaced(&jb)));
        if *whole {
            add(Ct::groups_redundant, 1);
            if ja != jb {
                let at = ja.bytes().zip(jb.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(60);
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 160).min(s.len())]).to_string();
                return fail("tree", format!("redundant parentheses {:?} change the tree: ...{} into ...{}; {:?} {:?} against {:?}", place(), cut(&ja), cut(&jb), goal, clip(&ta), clip(&tb)));
            }
        } else {
            add(Ct::groups_telling, 1);
            if ja == jb {
                return fail("ignored", format!("parentheses {:?} that group operators otherwise do not change the tree; {:?} {:?} against {:?}", place(), goal, clip(&ta), clip(&tb)));
            }
        }
        Ok(())
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Group { goal, via, toks, items, seps, pairs, whole } = c else { return vec![] };
        let mk = |via: Via, toks: Vec<String>, items: Vec<u32>, seps: Vec<String>, pairs: Vec<(u32, u32)>| Case::Group { goal: *goal, via, toks, items, seps, pairs, whole: *whole };
        let mut out = vec![];
        if *via != Via::Text {
            out.push(mk(Via::Text, toks.clone(), items.clone(), seps.clone(), pairs.clone()));
        }
        let mut at = 0;
        for k in 0..items.len() {
            let (i, j) = (at, at + items[k] as usize);
            at = j;
            if items.len() == 1 || pairs.iter().any(|p| (p.0 as usize) < j && p.1 as usize >= i) {
                continue;
            }
            let cut = |v: &[String]| [&v[..i], &v[j..]].concat();
            let d = (j - i) as u32;
            let ps = pairs.iter().map(|&(a, b)| if (a as usize) < i { (a, b) } else { (a - d, b - d) }).collect();
            let mut its = items.clone();
            its.remove(k);
            out.push(mk(*via, cut(toks), its, cut(seps), ps));
        }
        if pairs.len() > 1 {
            for p in shrink_list(pairs) {
                if !p.is_empty() {
                    out.push(mk(*via, toks.clone(), items.clone(), seps.clone(), p));
                }
            }
        }
        let calm = |s: &str| if s.is_empty() { String::new() } else if s.contains(TERMINATORS) { "\n".to_string() } else { " ".to_string() };
        let n = toks.len();
        let mut k = n + 1;
        while k >= 1 && out.len() < 300 {
            let mut i = 0;
            while i <= n {
                let mut s = seps.clone();
                for x in i..(i + k).min(n + 1) {
                    s[x] = calm(&s[x]);
                }
                if s != *seps {
                    out.push(mk(*via, toks.clone(), items.clone(), s, pairs.clone()));
                }
                i += k;
            }
            k /= 2;
        }
        out
    }
}
