//! C21: a semicolon lost in transit is restored where the language restores it,
//! and missed where it does not.
use crate::case::*;
use crate::exec::*;
use crate::gen::{Cfg, Gen, Tok, K};
use crate::p_layout::{json, kind, laid_out, lay, parse, sep, seps, TERMINATORS};
use crate::p_source::clip;
use crate::p_text::unplaced;
use crate::proc::*;
use crate::rng::Rng;

pub struct C21;

/// What becomes of the semicolon at `i` when it is lost.
#[derive(Clone, Copy, PartialEq)]
enum Fate {
    /// restored, whatever stands between its neighbours
    Free,
    /// restored if a line terminator does
    Line,
    /// like `Line`, otherwise missed
    Either,
    Unknown,
}

fn fate(toks: &[Tok], i: usize) -> Fate {
    if i == 0 || toks[i].term == 0 {
        return Fate::Unknown;
    }
    let prev = &toks[i - 1];
    let Some(next) = toks.get(i + 1) else { return Fate::Free };
    if next.s == ";" {
        // which would take its place
        return Fate::Unknown;
    }
    if next.k == K::P && next.s == "}" || toks[i].term == 2 {
        return Fate::Free;
    }
    if prev.s == "let" {
        return Fate::Unknown;
    }
    let eager = matches!(prev.s.as_str(), "return" | "break" | "continue" | "yield" | "await" | "async" | "throw" | "get" | "set" | "static" | "of" | "as" | "from");
    match next.k {
        K::Kw | K::Id if matches!(next.s.as_str(), "in" | "instanceof" | "of" | "as" | "from") => Fate::Unknown,
        K::P if matches!(next.s.as_str(), "++" | "--") => Fate::Line,
        K::P if !matches!(next.s.as_str(), "{" | "!" | "~") => Fate::Unknown,
        K::Kw | K::Id | K::Num | K::Str | K::P => if eager { Fate::Line } else { Fate::Either },
        K::Tmpl | K::Re => Fate::Unknown,
    }
}

/// May a line terminator in front of token `i` end a statement like a semicolon?
fn restricted(toks: &[Tok], i: usize) -> bool {
    i > 0
        && toks[i].no_nl
        && !matches!(toks[i].s.as_str(), ";" | "}")
        && (matches!(toks[i - 1].s.as_str(), "return" | "break" | "continue" | "throw" | "yield") && toks[i - 1].k == K::Kw
            || toks[i].k == K::P && matches!(toks[i].s.as_str(), "++" | "--" | "=>"))
}

impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "a generated program from which semicolons at the ends of statements are lost in transit (before a closing brace, the end, or a line terminator and a token that cannot continue the statement: verdict and tree must stay; without the line terminator: must be an error), or with a line terminator where a restricted production forbids one (must be like a semicolon there); random layouts; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 5_000_000 } else { 80_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C21", idx);
        let rng = &mut rng;
        let g = goal(rng);
        let cfg = Cfg { goal: g, depth: rng.range(1, 7), literals: rng.chance(1, 2), dict: rng.chance(1, 3), independent: rng.chance(1, 3) };
        let mut ge = Gen::new(Rng::new(rng.u64()), cfg, &cx.mined.words);
        ge.divide = false;
        let mut toks: Vec<Tok> = vec![];
        let mut items = vec![];
        for _ in 0..rng.small(4).max(1) {
            let it = ge.item();
            items.push(it.toks.len() as u32);
            toks.extend(it.toks);
        }
        let mut lost: Vec<u32> = vec![];
        let mut nl: Vec<Option<bool>> = vec![None; toks.len() + 2];
        let mut same = true;
        let spots: Vec<usize> = (0..toks.len()).filter(|&i| restricted(&toks, i)).collect();
        if !spots.is_empty() && rng.chance(1, 4) {
            // a semicolon that becomes a line terminator
            let i = *rng.pick(&spots);
            let semi = Tok { s: ";".into(), k: K::P, mc: false, open: 0, no_nl: false, term: 1, gs: vec![], ge: vec![] };
            toks[i].no_nl = false;
            toks.insert(i, semi);
            let mut at = 0;
            for n in items.iter_mut() {
                if i < at + *n as usize {
                    *n += 1;
                    break;
                }
                at += *n as usize;
            }
            lost.push(i as u32);
            nl[i] = Some(true);
            add(Ct::semi_restricted, 1);
        } else {
            let one_in = *rng.pick(&[1, 1, 2, 3, 8]);
            let fates: Vec<Fate> = (0..toks.len()).map(|i| fate(&toks, i)).collect();
            let missed: Vec<usize> = (0..toks.len()).filter(|&i| fates[i] == Fate::Either).collect();
            if !missed.is_empty() && rng.chance(1, 3) {
                let i = *rng.pick(&missed);
                lost.push(i as u32);
                nl[i] = Some(false);
                same = false;
            } else {
                for i in 0..toks.len() {
                    match fates[i] {
                        Fate::Free | Fate::Either | Fate::Line if rng.chance(1, one_in) => {
                            lost.push(i as u32);
                            if fates[i] != Fate::Free {
                                nl[i] = Some(true);
                            }
                        }
                        _ => (),
                    }
                }
            }
        }
        let none = vec![None; toks.len() + 1];
        let a = seps(rng, cx, &toks, &none);
        // a lost token leaves the gap between its neighbours
        let l = lay(rng);
        let is_lost = |i: usize| lost.contains(&(i as u32));
        let b = (0..=toks.len())
            .map(|i| {
                if i > 0 && is_lost(i - 1) {
                    return String::new();
                }
                let prev = i.checked_sub(1).map(|i| &toks[i]);
                let next = if i < toks.len() && is_lost(i) { i + 1 } else { i };
                let l = if rng.chance(1, 20) { lay(rng) } else { l };
                let s = sep(rng, cx, l, prev, toks.get(next), if is_lost(i) { nl[i] } else { None });
                if is_lost(i) && s.is_empty() && next < toks.len() && toks[next].s != "}" { " ".into() } else { s }
            })
            .collect::<Vec<_>>();
        let toks = toks.into_iter().map(|t| t.s).collect();
        Case::Semi { goal: g, via: via(rng), toks, items, a, b, lost, same }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Semi { goal, via, toks, a, b, lost, same, .. } = c else { return Ok(()) };
        let ta = laid_out(toks, a);
        let left: Vec<String> = toks.iter().enumerate().map(|(i, t)| if lost.contains(&(i as u32)) { String::new() } else { t.clone() }).collect();
        let tb = laid_out(&left, b);
        let place = || lost.iter().take(3).map(|&i| toks[(i as usize).saturating_sub(12)..toks.len().min(i as usize + 7)].join(" ")).collect::<Vec<_>>().join(" ... ");
        let ra = parse(*goal, *via, &ta);
        let rb = parse(*goal, *via, &tb);
        add(Ct::f_semicolon_lost, lost.len() as u64);
        if matches!(ra, Res::Panic(_) | Res::Died) || matches!(rb, Res::Panic(_) | Res::Died) {
            add(Ct::skipped, 1);
            return Ok(());
        }
        if !*same {
            if !matches!(ra, Res::Ok(_)) {
                add(Ct::skipped, 1);
                return Ok(());
            }
            add(Ct::semi_missed, 1);
            if matches!(rb, Res::Ok(_)) {
                return fail("accepted", format!("a semicolon was lost, no line terminator stands in its place, and the next token cannot go on: still a tree; around {:?}; {:?} {:?} (intact: {:?})", place(), goal, clip(&tb), clip(&ta)));
            }
            return Ok(());
        }
        if matches!(ra, Res::Ok(_)) != matches!(rb, Res::Ok(_)) {
            return fail("verdict", format!("lost semicolons turn {} into {}; around {:?}; {:?} {:?} (intact: {:?})", kind(&ra), kind(&rb), place(), goal, clip(&tb), clip(&ta)));
        }
        if let Res::Ok(_) = ra {
            add(Ct::semi_restored, 1);
            let (Some(ja), Some(jb)) = (json(&ra), json(&rb)) else { return fail("render", format!("a tree cannot be rendered; {:?} {:?}", goal, clip(&ta))) };
            let (ja, jb) = (unplaced(&ja), unplaced(&jb));
            if ja != jb {
                let at = ja.bytes().zip(jb.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(60);
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 160).min(s.len())]).to_string();
                return fail("tree", format!("lost semicolons change the tree: ...{} into ...{}; around {:?}; {:?} {:?} (intact: {:?})", cut(&ja), cut(&jb), place(), goal, clip(&tb), clip(&ta)));
            }
        }
        Ok(())
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Semi { goal, via, toks, items, a, b, lost, same } = c else { return vec![] };
        let mut out = vec![];
        let mk = |toks: &[String], items: &[u32], a: &[String], b: &[String], lost: &[u32], via: Via| Case::Semi {
            goal: *goal,
            via,
            toks: toks.to_vec(),
            items: items.to_vec(),
            a: a.to_vec(),
            b: b.to_vec(),
            lost: lost.to_vec(),
            same: *same,
        };
        if *via != Via::Text {
            out.push(mk(toks, items, a, b, lost, Via::Text));
        }
        // a whole item goes, if no lost semicolon is its own or the last of the item before
        let mut at = 0;
        for k in 0..items.len() {
            let (i, j) = (at, at + items[k] as usize);
            at = j;
            if items.len() == 1 || lost.iter().any(|&x| (x as usize) + 1 >= i && (x as usize) < j) {
                continue;
            }
            let cut = |v: &[String]| [&v[..i], &v[j..]].concat();
            let l: Vec<u32> = lost.iter().map(|&x| if (x as usize) < i { x } else { x - (j - i) as u32 }).collect();
            let mut its = items.clone();
            its.remove(k);
            out.push(mk(&cut(toks), &its, &cut(a), &cut(b), &l, Via::Text));
        }
        if *same {
            for k in 0..lost.len() {
                let mut l = lost.clone();
                l.remove(k);
                if !l.is_empty() {
                    out.push(mk(toks, items, a, b, &l, *via));
                }
            }
        }
        let calm = |s: &str| if s.is_empty() { String::new() } else if s.contains(TERMINATORS) { "\n".to_string() } else { " ".to_string() };
        let n = toks.len();
        let mut k = n + 1;
        while k >= 1 && out.len() < 300 {
            let mut i = 0;
            while i <= n {
                let j = (i + k).min(n + 1);
                for which in 0..2 {
                    let (mut sa, mut sb) = (a.clone(), b.clone());
                    for x in i..j {
                        if which == 0 {
                            sa[x] = calm(&sa[x]);
                        } else {
                            sb[x] = calm(&sb[x]);
                        }
                    }
                    if sa != *a || sb != *b {
                        out.push(mk(toks, items, &sa, &sb, lost, *via));
                    }
                }
                i += k;
            }
            k /= 2;
        }
        out
    }
}
