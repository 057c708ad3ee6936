//! C17 (layout), C18 (payload), C19 (positions follow the tokens).
use crate::case::*;
use crate::exec::*;
use crate::gen::{self, Cfg, Gen, Tok, K};
use crate::p_source::{clip, measured, step_limit};
use crate::p_text::{lines, unplaced};
use crate::proc::*;
use crate::rng::Rng;

pub fn parse(goal: Goal, via: Via, text: &str) -> Res {
    let (r, m) = measured(goal, via, text.to_string(), 2 * step_limit(text.chars().count()));
    distinct(m.hash);
    r
}

/// The separators and the tokens, one after the other.
pub fn laid_out(toks: &[String], seps: &[String]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        s.push_str(seps.get(i).map_or(" ", |x| x));
        s.push_str(t);
    }
    s.push_str(seps.get(toks.len()).map_or("", |x| x));
    s
}

pub const TERMINATORS: &[char] = &['\n', '\r', '\u{2028}', '\u{2029}'];

const BLANKS: &[&str] = &[
    " ", " ", "  ", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}",
    "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{202f}", "\u{205f}",
    "\u{3000}", "/**/", "/* c */", "/***/", "/*****/", "/*/*/", "/* // */", "/*'*/", "/*\"*/", "/*`${*/", "/*({[*/", "/* * / */", "/*é*/", "/*😀*/",
    "/* use strict */", "/*\\*/", "/*}*/", "/*=>*/", "/*;*/", "/* =/ */", "/**a**/", "/*\u{0}*/", "/*//*/",
];
const BREAKS: &[&str] = &[
    "\n", "\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "//\n", "// c\n", "// /*\n", "// */\n", "//'\n", "//`${\r\n", "// ({[\r", "// é😀\u{2028}",
    "//\\\n", "///\n", "//\u{2029}", "/*\n*/", "/*\r\n*/", "/*\r*/", "/*\u{2028}*/", "/* a\n * b\n **/", "/*\n\n\n*/", "// use strict\n", "\n\n", "\n\r",
    "\r\r\n", "\n \t ", "//c\r\n\r\n", "/*\\\n*/",
];

/// Two tokens that stay two tokens when nothing stands between them.
fn can_touch(a: &Tok, b: &Tok) -> bool {
    let word = |t: &Tok| matches!(t.k, K::Id | K::Kw | K::Num);
    if a.s.ends_with('/') || b.s.starts_with('/') || a.k == K::Re || b.k == K::Re {
        return false;
    }
    let bracket = |t: &Tok| t.k == K::P && matches!(t.s.as_str(), "(" | ")" | "[" | "]" | "{" | "}" | "," | ";");
    match (a.k, b.k) {
        (K::Num, _) if !bracket(b) => false,
        (_, K::Num) if !bracket(a) => b.s.starts_with(|c: char| c.is_ascii_digit()) && a.k == K::P && !a.s.ends_with('.') && !a.s.ends_with('?'),
        _ if word(a) && word(b) => false,
        (K::P, K::P) => bracket(a) || bracket(b),
        _ => true,
    }
}

fn plain(rng: &mut Rng, cx: &Ctx) -> String {
    let mut s = String::new();
    for _ in 0..rng.small(4) {
        s.push_str(*rng.pick(BLANKS));
    }
    if rng.chance(1, 400) {
        let b = *rng.pick(BLANKS);
        s.push_str(&b.repeat(size(rng, &cx.mined, 2, 70_000 / b.len())));
    }
    if rng.chance(1, 400) {
        s.push_str("/*");
        s.push_str(&rng.pick(&["x", "*", "é", " "]).repeat(size(rng, &cx.mined, 2, 70_000)));
        s.push_str("*/");
    }
    s
}

/// A number of repetitions at which a counter may wrap around.
pub fn wrap(rng: &mut Rng) -> usize {
    let n = 1usize << *rng.pick(&[8, 8, 8, 8, 8, 8, 8, 10, 12, 16]);
    n + rng.pick(&[0usize, 0, 0, 1, 2]) - rng.pick(&[0usize, 0, 0, 1])
}

fn broken(rng: &mut Rng, cx: &Ctx) -> String {
    if rng.chance(1, 120) {
        let b = *rng.pick(&["\n", "\n", "\r\n", "\r", "\u{2028}", "//\n"]);
        return b.repeat(wrap(rng));
    }
    let mut s = plain(rng, cx);
    for _ in 0..rng.range(1, 3) {
        s.push_str(*rng.pick(BREAKS));
        if rng.chance(1, 3) {
            s.push_str(*rng.pick(BLANKS));
        }
    }
    if rng.chance(1, 200) {
        let b = *rng.pick(BREAKS);
        s.push_str(&b.repeat(size(rng, &cx.mined, 2, 70_000 / b.len())));
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
pub enum Lay {
    Touch,
    Space,
    Line,
    Mixed,
    Heavy,
}

/// A separator; `nl`: Some(true) with a line terminator, Some(false) without.
pub fn sep(rng: &mut Rng, cx: &Ctx, lay: Lay, a: Option<&Tok>, b: Option<&Tok>, nl: Option<bool>) -> String {
    let forced = nl == Some(true);
    let allowed = forced || nl != Some(false) && !b.map_or(false, |b| b.no_nl);
    let touch = match (a, b) {
        (Some(a), Some(b)) => can_touch(a, b),
        _ => true,
    };
    let mut s = match lay {
        Lay::Touch if !forced => (if touch { "" } else { " " }).to_string(),
        Lay::Space if !forced => " ".to_string(),
        Lay::Touch | Lay::Space | Lay::Line if allowed => rng.pick(&["\n", "\n", "\r\n", "\r", "\u{2028}", "\u{2029}"]).to_string(),
        Lay::Line => " ".to_string(),
        Lay::Mixed if touch && !forced && rng.chance(1, 3) => String::new(),
        Lay::Mixed if !forced && (!allowed || rng.chance(2, 3)) => rng.pick(BLANKS).to_string(),
        Lay::Mixed => rng.pick(BREAKS).to_string(),
        _ if forced || allowed && rng.chance(1, 3) => broken(rng, cx),
        _ => plain(rng, cx),
    };
    // a punctuator at the very end is reported in its own way
    if s.is_empty() && (!touch || b.is_none() && nl.is_some()) {
        s.push(' ');
    }
    // the token before must not run into a comment, nor the one after out of it
    if a.map_or(false, |a| a.s.ends_with('/')) && s.starts_with('/') {
        s.insert(0, ' ');
    }
    s
}

pub fn lay(rng: &mut Rng) -> Lay {
    *rng.pick(&[Lay::Touch, Lay::Space, Lay::Line, Lay::Mixed, Lay::Mixed, Lay::Heavy, Lay::Heavy])
}

pub fn seps(rng: &mut Rng, cx: &Ctx, toks: &[Tok], nl: &[Option<bool>]) -> Vec<String> {
    let l = lay(rng);
    let mut out: Vec<String> = (0..=toks.len())
        .map(|i| {
            let l = if rng.chance(1, 20) { lay(rng) } else { l };
            sep(rng, cx, l, i.checked_sub(1).map(|i| &toks[i]), toks.get(i), nl[i])
        })
        .collect();
    // a carriage return directly followed by a line feed of the next separator cannot arise:
    // a token stands between; inside one separator it counts as one terminator for everybody
    if out.iter().map(|s| s.len()).sum::<usize>() > 250_000 {
        for s in out.iter_mut() {
            if s.len() > 2000 {
                *s = if s.contains(TERMINATORS) { "\n".into() } else { " ".into() };
            }
        }
    }
    out
}

/// Separators around these tokens, line terminators wherever they are allowed.
pub fn random_layout(rng: &mut Rng, cx: &Ctx, toks: &[Tok]) -> Vec<String> {
    let nl = vec![None; toks.len() + 1];
    let mut s = seps(rng, cx, toks, &nl);
    // the end of the source is not the end of a token
    if s[toks.len()].is_empty() {
        s[toks.len()] = " ".into();
    }
    s
}

const STRAY: &[&str] = &[
    "(", ")", "[", "]", "{", "}", ",", ";", ".", "...", "=>", "=", "+", "-", "++", "--", "!", "?", ":", "*", "**", "<", "==", "&&", "if", "else", "var", "let",
    "const", "function", "class", "return", "yield", "await", "async", "new", "this", "super", "in", "of", "for", "while", "do", "try", "catch", "import",
    "export", "default", "get", "set", "static", "extends", "typeof", "delete", "throw", "break", "continue", "case", "switch", "with", "null", "true", "0", "1",
    "a", "b", "eval", "arguments", "enum", "debugger", "finally", "void", "instanceof", "as", "from", "target", "meta", "public", "interface", "constructor",
];

fn stray(rng: &mut Rng) -> Tok {
    let s = *rng.pick(STRAY);
    let k = if s.starts_with(|c: char| c.is_ascii_digit()) {
        K::Num
    } else if s.starts_with(|c: char| c.is_ascii_alphabetic()) {
        K::Kw
    } else {
        K::P
    };
    Tok { s: s.to_string(), k, mc: false, open: 0, no_nl: false, term: 0, gs: vec![], ge: vec![] }
}

fn hurt(rng: &mut Rng, t: &mut Vec<Tok>) {
    for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
        if t.is_empty() {
            return;
        }
        let n = t.len();
        let i = rng.below(n);
        match rng.below(7) {
            0 => {
                t.remove(i);
                add(Ct::f_token_lost, 1);
            }
            1 => {
                let x = t[i].clone();
                t.insert(i, x);
                add(Ct::f_token_repeated, 1);
            }
            2 => {
                let j = if rng.chance(1, 2) { (i + 1) % n } else { rng.below(n) };
                t.swap(i, j);
                add(Ct::f_tokens_swapped, 1);
            }
            3 => {
                t[i] = stray(rng);
                add(Ct::f_token_replaced, 1);
            }
            4 => {
                t.insert(i, stray(rng));
                add(Ct::f_token_inserted, 1);
            }
            5 => {
                t.truncate(i);
                add(Ct::f_truncate_token, 1);
            }
            _ => {
                let k = (i + rng.log_range(1, 12)).min(n);
                t.drain(i..k);
                add(Ct::f_block_lost, 1);
            }
        }
    }
}

fn layout_case(rng: &mut Rng, cx: &Ctx) -> Case {
    let g = goal(rng);
    let same_lines = rng.chance(1, 2);
    let literals = !same_lines || rng.chance(1, 2);
    let cfg = Cfg { goal: g, depth: rng.range(1, 7), literals, dict: rng.chance(1, 2), independent: rng.chance(1, 3) };
    let mut ge = Gen::new(Rng::new(rng.u64()), cfg, &cx.mined.words);
    // a line terminator in front of a postfix operator would make it a regular expression
    ge.divide = !same_lines;
    let mut toks: Vec<Tok> = vec![];
    for _ in 0..rng.small(4) {
        toks.extend(ge.item().toks);
    }
    let safe = |t: &Tok| matches!(t.k, K::P | K::Kw | K::Id | K::Num) && !t.s.contains('/');
    if same_lines && rng.chance(3, 4) && toks.iter().all(safe) {
        hurt(rng, &mut toks);
    }
    let often = *rng.pick(&[2, 6, 6, 20]);
    let nl: Vec<Option<bool>> = (0..=toks.len())
        .map(|i| if !same_lines { None } else { Some(rng.chance(1, often)) })
        .collect();
    let a = seps(rng, cx, &toks, &nl);
    let b = seps(rng, cx, &toks, &nl);
    Case::Layout { goal: g, via: via(rng), toks: toks.into_iter().map(|t| t.s).collect(), a, b, same_lines }
}

fn shrink_layout(c: &Case) -> Vec<Case> {
    let Case::Layout { goal, via, toks, a, b, same_lines } = c else { return vec![] };
    let mk = |toks: Vec<String>, a: Vec<String>, b: Vec<String>, via: Via| Case::Layout { goal: *goal, via, toks, a, b, same_lines: *same_lines };
    let mut out = vec![];
    if *via != Via::Text {
        out.push(mk(toks.clone(), a.clone(), b.clone(), Via::Text));
    }
    let n = toks.len();
    // what a slash or a backtick is depends on the tokens before it
    if *same_lines && !toks.iter().any(|t| t.contains(['/', '`']) || t.contains("${")) {
        // tokens may go, with the separators in front of them
        let all: Vec<usize> = (0..n).collect();
        for keep in shrink_list(&all) {
            let mut sa: Vec<String> = keep.iter().map(|&i| a[i].clone()).collect();
            let mut sb: Vec<String> = keep.iter().map(|&i| b[i].clone()).collect();
            sa.push(a[n].clone());
            sb.push(b[n].clone());
            // neighbours that used to be apart stay apart
            for (j, w) in keep.windows(2).enumerate() {
                if w[1] != w[0] + 1 {
                    for s in [&mut sa, &mut sb] {
                        if s[j + 1].is_empty() {
                            s[j + 1].push(' ');
                        }
                    }
                }
            }
            out.push(mk(keep.iter().map(|&i| toks[i].clone()).collect(), sa, sb, *via));
        }
    }
    // calmer separators, whole ranges first
    let calm = |s: &str| if s.is_empty() { String::new() } else if s.contains(TERMINATORS) && *same_lines { "\n".to_string() } else { " ".to_string() };
    let mut k = n + 1;
    while k >= 1 && out.len() < 300 {
        let mut i = 0;
        while i <= n {
            let j = (i + k).min(n + 1);
            for which in 0..3 {
                let mut sa = a.clone();
                let mut sb = b.clone();
                for x in i..j {
                    match which {
                        0 => sb[x] = sa[x].clone(),
                        1 => sa[x] = calm(&sa[x]),
                        _ => sb[x] = calm(&sb[x]),
                    }
                }
                if sa != *a || sb != *b {
                    out.push(mk(toks.clone(), sa, sb, *via));
                }
            }
            i += k;
        }
        k /= 2;
    }
    out
}

pub fn kind(r: &Res) -> String {
    match r {
        Res::Ok(_) => "a tree".into(),
        Res::Err(e) => guarded(|| format!("error {:?}", e.errortype)).unwrap_or_else(|p| p),
        Res::Panic(p) => format!("panic {}", p),
        Res::Died => "nothing (source died)".into(),
    }
}

pub fn json(r: &Res) -> Option<String> {
    match r {
        Res::Ok(n) => guarded(|| gsim_render::to_json(n)).ok()?.ok(),
        _ => None,
    }
}

// ---------------------------------------------------------------- C17

pub struct C17;

impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "one generated token sequence, valid or with tokens lost, repeated, replaced, swapped or cut off, delivered in two layouts (blanks, comments and line terminators rewritten in transit); verdict, error kind and tree must agree; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 3_000_000 } else { 100_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        layout_case(&mut Rng::stream(cx.seed, "C17", idx), cx)
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Layout { goal, via, toks, a, b, same_lines } = c else { return Ok(()) };
        let (ta, tb) = (laid_out(toks, a), laid_out(toks, b));
        let ra = parse(*goal, *via, &ta);
        let rb = parse(*goal, *via, &tb);
        add(Ct::layouts, 1);
        add(Ct::f_layout_rewritten, 1);
        if matches!(ra, Res::Panic(_) | Res::Died) && matches!(rb, Res::Panic(_) | Res::Died) {
            add(Ct::skipped, 1);
            return Ok(());
        }
        let (ka, kb) = (kind(&ra), kind(&rb));
        let same = if *same_lines { ka == kb } else { matches!(ra, Res::Ok(_)) == matches!(rb, Res::Ok(_)) };
        if !same {
            return fail("verdict", format!("one token sequence in two layouts gives {} and {}; {:?} {:?} against {:?}", ka, kb, goal, clip(&ta), clip(&tb)));
        }
        if let Res::Ok(_) = ra {
            add(Ct::layout_trees, 1);
            let (Some(ja), Some(jb)) = (json(&ra), json(&rb)) else { return fail("render", format!("a tree cannot be rendered; {:?} {:?}", goal, clip(&ta))) };
            let (ja, jb) = (unplaced(&ja), unplaced(&jb));
            if ja != jb {
                let at = ja.bytes().zip(jb.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(60);
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 160).min(s.len())]).to_string();
                return fail("tree", format!("one token sequence in two layouts gives different trees: ...{} and ...{}; {:?} {:?} against {:?}", cut(&ja), cut(&jb), goal, clip(&ta), clip(&tb)));
            }
        }
        Ok(())
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink_layout(c)
    }
}

// ---------------------------------------------------------------- C19

pub struct C19;

/// Where the tokens of a text are.
pub struct Map {
    /// first character of each token, and the one after its last
    pub at: Vec<(usize, usize)>,
    /// line and column (from 1) of every character, and of the end
    pos: Vec<(usize, usize)>,
}

pub fn map(toks: &[String], seps: &[String]) -> Map {
    let text: Vec<char> = laid_out(toks, seps).chars().collect();
    let mut at = vec![];
    let mut k = 0;
    for (i, t) in toks.iter().enumerate() {
        k += seps.get(i).map_or(1, |s| s.chars().count());
        let n = t.chars().count();
        at.push((k, k + n));
        k += n;
    }
    let mut pos = Vec::with_capacity(text.len() + 1);
    let (mut line, mut col) = (1, 1);
    for (i, c) in text.iter().enumerate() {
        pos.push((line, col));
        let ends = match c {
            '\r' => text.get(i + 1) != Some(&'\n'),
            '\n' | '\u{2028}' | '\u{2029}' => true,
            _ => false,
        };
        if ends {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    pos.push((line, col));
    Map { at, pos }
}

impl Map {
    /// A position, told by the tokens.
    fn place(&self, end: bool, line: usize, col: usize, idx: usize) -> Result<String, String> {
        let odd = |why: String| Err(format!("position line {} column {} index {} {}", line, col, idx, why));
        let Some(&(l, c)) = self.pos.get(idx) else { return odd("is outside of the text".into()) };
        if (l, c) != (line, col) {
            return odd(format!("should be line {} column {}", l, c));
        }
        if self.at.is_empty() && idx + 1 == self.pos.len() {
            return Ok("<empty>".into());
        }
        // tokens that touch share a boundary: an end belongs to the left one
        let k = self.at.partition_point(|t| (if end { t.1 } else { t.0 }) < idx);
        match self.at.get(k) {
            Some(t) if end && t.1 == idx => Ok(format!("<to {}>", k)),
            Some(t) if !end && t.0 == idx => Ok(format!("<from {}>", k)),
            _ => odd(format!("is not the {} of a token", if end { "end" } else { "start" })),
        }
    }

    /// What an error may point at: tokens and places in them, None for a place that is not in the text.
    fn points(&self, line: usize, col: usize) -> Option<Vec<(usize, usize)>> {
        let idx = self.pos.partition_point(|&p| p < (line, col));
        if self.pos.get(idx) != Some(&(line, col)) {
            return None;
        }
        let mut out: Vec<(usize, usize)> = (0..self.at.len()).filter(|&k| self.at[k].0 <= idx && idx <= self.at[k].1).map(|k| (k, idx - self.at[k].0)).collect();
        if idx + 1 == self.pos.len() {
            out.push((self.at.len(), 0));
        }
        Some(out)
    }
}

/// The Debug form with every position told by the tokens; how many there were.
fn placed(debug: &str, m: &Map) -> Result<(String, u64), String> {
    let key = "Marker { line: ";
    let mut out = String::with_capacity(debug.len());
    let mut rest = debug;
    let mut n = 0;
    while let Some(k) = rest.find(key) {
        out.push_str(&rest[..k]);
        let r = &rest[k + key.len()..];
        let end = r.find('}').unwrap_or(r.len());
        let f: Vec<usize> = r[..end].split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect();
        match f[..] {
            [line, col, idx] => out.push_str(&m.place(out.ends_with("end: "), line, col, idx)?),
            _ => out.push_str(&rest[k..k + key.len() + end]),
        }
        n += 1;
        rest = &r[(end + 1).min(r.len())..];
    }
    out.push_str(rest);
    Ok((out, n))
}

impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "one generated token sequence, valid or damaged, delivered in two layouts; every position in the tree must be the start (end) of a token at exactly its line, column and index, and designate the same token in both; the position of an error must exist and be the same place of the same token in both; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 2_500_000 } else { 80_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut c = layout_case(&mut Rng::stream(cx.seed, "C19", idx), cx);
        // so that the end of the text is not the end of a token
        if let Case::Layout { toks, a, b, .. } = &mut c {
            for s in [a, b] {
                if s[toks.len()].is_empty() {
                    s[toks.len()] = " ".into();
                }
            }
        }
        c
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Layout { goal, via, toks, a, b, .. } = c else { return Ok(()) };
        let (ta, tb) = (laid_out(toks, a), laid_out(toks, b));
        let ra = parse(*goal, *via, &ta);
        let rb = parse(*goal, *via, &tb);
        let (ma, mb) = (map(toks, a), map(toks, b));
        add(Ct::layouts, 1);
        add(Ct::f_layout_rewritten, 1);
        match (&ra, &rb) {
            (Res::Ok(na), Res::Ok(nb)) => {
                add(Ct::layout_trees, 1);
                let (Ok(da), Ok(db)) = (guarded(|| gsim_render::debug(na)), guarded(|| gsim_render::debug(nb))) else {
                    return fail("render", format!("a tree cannot be rendered; {:?} {:?}", goal, clip(&ta)));
                };
                let (pa, pb) = match (placed(&da, &ma), placed(&db, &mb)) {
                    (Ok((pa, n)), Ok((pb, _))) => {
                        add(Ct::markers, n);
                        (pa, pb)
                    }
                    (Err(e), _) => return fail("boundary", format!("{}; {:?} {:?}", e, goal, clip(&ta))),
                    (_, Err(e)) => return fail("boundary", format!("{}; {:?} {:?}", e, goal, clip(&tb))),
                };
                if pa != pb {
                    let at = pa.bytes().zip(pb.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(100);
                    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 200).min(s.len())]).to_string();
                    return fail("position", format!(
                        "positions (token+offset, line error, column) differ between two layouts of one token sequence: ...{} and ...{}; {:?} {:?} against {:?}",
                        cut(&pa), cut(&pb), goal, clip(&ta), clip(&tb)));
                }
                Ok(())
            }
            (Res::Err(ea), Res::Err(eb)) => {
                let (la, ca, lb, cb) = (ea.line, ea.col, eb.line, eb.col);
                add(Ct::error_positions, 1);
                let (Some(xa), Some(xb)) = (ma.points(la, ca), mb.points(lb, cb)) else {
                    return fail("error outside", format!("an error is reported at line {} column {} in one layout, {} {} in the other, not both of which exist; {:?} {:?} against {:?}", la, ca, lb, cb, goal, clip(&ta), clip(&tb)));
                };
                if !xa.iter().any(|k| xb.contains(k)) {
                    return fail("error position", format!(
                        "the error is at line {} column {} in one layout (token and offset {:?}) and at line {} column {} in the other (token and offset {:?}); {:?} {:?} against {:?}",
                        la, ca, xa, lb, cb, xb, goal, clip(&ta), clip(&tb)));
                }
                Ok(())
            }
            _ => {
                add(Ct::skipped, 1);
                Ok(())
            }
        }
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        shrink_layout(c)
    }
}

// ---------------------------------------------------------------- C18

pub struct C18;

const MARK: &str = "qzq9payload7zqz";
const NUMBER: &str = "7391846205137";

/// Spellings that look like something else.
const LOOKALIKES: &[&str] = &[
    "var1", "If", "fortune", "newer", "classes", "returns", "inn", "ofs", "lett", "yieldx", "awaits", "asyncs", "trueness", "nullish", "thisx", "supers",
    "typeofs", "instanceofs", "deletes", "voids", "withs", "getx", "sety", "statics", "enums", "imports", "exports", "froms", "targets", "_", "$", "$$", "__proto",
    "NaN1", "Infinity1", "undefined1", "evals", "argumentss", "constructors", "prototype1", "toString", "hasOwnProperty", "a", "Z", "z9", "e1", "x0", "b1", "o7",
    "é", "ﬀ", "変数", "𠮷", "ñ", "Ω", "ａ", "Type", "type", "value", "kind", "name", "body", "null_", "string", "Literal", "Identifier", "Object", "TRUE", "elses",
];

const CONTENTS: &[&str] = &[
    "", " ", "a", "//", "/*", "*/", "use strict", "use strict ", "Use Strict", "${", "{", "}", ")", "(", "]", ";", "null", "true", "0", "1e3", "é", "日本",
    "😀", "\t", "\u{a0}", "#!", "<!--", "-->", "=>", "var", "function", "constructor", "__proto__", "prototype", "get", "\u{feff}", "\u{0}", "\u{7f}", "\u{ffff}",
    "\u{10ffff}", "%s", "%", "&amp;", "type", "value", "  a  b  ", "A\u{301}", "\u{202e}x",
];

#[derive(Clone, Copy, PartialEq)]
enum Leaf {
    Name,
    Text(char),
    Number,
    Pattern,
}

/// Could it stand between the slashes of a regular expression?
fn is_pattern(t: &str) -> bool {
    let (mut class, mut escaped) = (false, false);
    for c in t.chars() {
        if escaped {
            escaped = false;
        } else {
            match c {
                '\\' => escaped = true,
                '[' => class = true,
                ']' => class = false,
                '/' if !class => return false,
                _ => (),
            }
        }
    }
    !class && !escaped && !t.starts_with('*')
}

/// Characters that a name may hold but not begin with.
fn goes_on(c: char) -> bool {
    c.is_ascii_digit() || matches!(c, '\u{200c}' | '\u{200d}' | '\u{301}' | '·' | '٠' | '‿' | '፩')
}

fn word(rng: &mut Rng, n: usize) -> String {
    let c: Vec<char> = rng.pick(&["abcdefghijklmnopqrstuvwxyz", "aZ$_09", "aé変𠮷", "a", "𠮷", "aℼ℘℮ªßⅧ゛〇ᢅ𝒜ϳا", "a\u{200c}\u{200d}b", "a\u{301}·٠‿፩a", "a\u{200d}"]).chars().collect();
    (0..n)
        .map(|i| {
            let x = *rng.pick(&c);
            if i == 0 && goes_on(x) {
                'w'
            } else {
                x
            }
        })
        .collect()
}

/// Another payload of the same class.
fn other(rng: &mut Rng, cx: &Ctx, leaf: Leaf) -> String {
    match leaf {
        Leaf::Name => match rng.below(8) {
            6 | 7 => {
                // a reserved word, misspelt
                let mut w: Vec<char> = rng.pick(gen::RESERVED).chars().collect();
                let i = rng.below(w.len());
                match rng.below(5) {
                    0 => w[i] = (b'a' + rng.below(26) as u8) as char,
                    1 => w[i] = w[i].to_ascii_uppercase(),
                    2 => w.swap(i, 0),
                    3 => w.insert(i, *rng.pick(&['a', 'e', 'é', '_', '$', 'x'])),
                    _ => {
                        w.remove(i);
                    }
                }
                let s: String = w.into_iter().collect();
                if s.is_empty() || gen::is_reserved(&s) || matches!(s.as_str(), "do" | "as" | "is") {
                    "w".into()
                } else {
                    s
                }
            }
            0 => rng.pick(LOOKALIKES).to_string(),
            1 => {
                let d = rng.pick(&cx.mined.words).clone();
                if gen::is_plain_name(&d) {
                    d + *rng.pick(&["_", "1", "x", "$"])
                } else {
                    "w".into()
                }
            }
            2 => {
                let n = size(rng, &cx.mined, 1, 70_000);
                word(rng, n) + "_1"
            }
            _ => {
                let n = rng.log_range(1, 40);
                word(rng, n) + "_1"
            }
        },
        Leaf::Text(q) => {
            let mut s = String::new();
            if rng.chance(1, 4) {
                s.push_str(rng.pick(gen::RESERVED));
            } else if rng.chance(1, 8) {
                let p = *rng.pick(CONTENTS);
                let k = size(rng, &cx.mined, 1, 70_000 / p.len().max(1));
                s = p.repeat(k);
            } else {
                for _ in 0..rng.small(4) {
                    s.push_str(*rng.pick(CONTENTS));
                    if rng.chance(1, 10) {
                        if let Some(c) = char::from_u32(rng.below(0x11_0000) as u32) {
                            s.push(c);
                        }
                    }
                    if rng.chance(1, 6) {
                        s.push_str(rng.pick(&cx.mined.words));
                    }
                }
            }
            let mut t: String = s.chars().filter(|c| !matches!(c, '\'' | '"' | '`' | '\\') && !TERMINATORS.contains(c)).collect();
            if matches!(q, '"' | '\'') && rng.chance(1, 6) {
                // no line terminators to a string
                let k = rng.below(t.chars().count() + 1);
                let at = t.char_indices().nth(k).map_or(t.len(), |x| x.0);
                t.insert(at, *rng.pick(&['\u{2028}', '\u{2029}']));
            }
            if q == '`' {
                if rng.chance(1, 4) {
                    for _ in 0..rng.range(1, 3) {
                        let k = rng.below(t.chars().count() + 1);
                        let at = t.char_indices().nth(k).map_or(t.len(), |x| x.0);
                        t.insert(at, '\n');
                    }
                }
                t = t.replace("${", "$ {");
                while t.ends_with('$') {
                    t.pop();
                }
            }
            if matches!(t.as_str(), "use strict" | "use asm" | "constructor") {
                t.push('!');
            }
            t
        }
        Leaf::Pattern if rng.chance(1, 3) => {
            // with escapes and classes
            let mut t = String::new();
            for _ in 0..size(rng, &cx.mined, 1, 3_000).min(rng.log_range(1, 3_000)) {
                match rng.below(8) {
                    0 => t.push_str(*rng.pick(&["\\/", "\\\\", "\\[", "\\]", "\\d", "\\u{1f600}", "\\é", "\\ "])),
                    1 | 2 => {
                        t.push('[');
                        for _ in 0..rng.below(5) {
                            t.push_str(*rng.pick(&["/", "//", "/*", "[", "\\]", "\\\\", "^", "a-z", "\\/", "é", "`", "\"", " "]));
                        }
                        t.push(']');
                    }
                    3 => t.push(']'),
                    _ => t.push_str(*rng.pick(&["a", "(?:b)", "{1,2}", "}", "é", "😀", "\"", "'", "`", "$", "${", "=", " ", "*"])),
                }
            }
            if t.starts_with('*') { format!("r{}", t) } else { t }
        }
        Leaf::Pattern => {
            let t = other(rng, cx, Leaf::Text('/'));
            let t: String = t.chars().filter(|c| !matches!(c, '/' | '[' | ']' | '\\')).collect();
            let t = t.trim_start_matches('*').to_string();
            if t.is_empty() {
                "r".into()
            } else {
                t
            }
        }
        Leaf::Number => match rng.below(4) {
            0 => size(rng, &cx.mined, 1, 9_000_000).to_string(),
            1 => (rng.u64() >> 11).max(1).to_string(),
            2 => (1u64 << rng.below(53)).to_string(),
            _ => rng.range(1, 1_000_000).to_string(),
        },
    }
}

/// The payload as it stands in the tree's JSON.
fn escaped(s: &str) -> String {
    let j = serde_json::to_string(s).unwrap();
    j[1..j.len() - 1].to_string()
}

impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "a generated valid program in which one name, string, template chunk, pattern of a regular expression or number was overwritten in transit by another of its class (lookalikes, any length to 70000, any character), compared with the same program carrying a marker there: the trees must be equal but for that payload, which the tree must hold; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 2_500_000 } else { 80_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C18", idx);
        let g = goal(&mut rng);
        loop {
            let cfg = Cfg { goal: g, depth: rng.range(1, 6), literals: true, dict: rng.chance(1, 2), independent: rng.chance(1, 3) };
            let mut ge = Gen::new(Rng::new(rng.u64()), cfg, &cx.mined.words);
            let st = gen::style(&mut rng);
            let mut toks: Vec<Tok> = vec![];
            for _ in 0..rng.range(1, 3) {
                toks.extend(if rng.chance(1, 5) { ge.generator() } else { ge.item() }.toks);
            }
            let leaves: Vec<usize> = (0..toks.len()).filter(|&i| matches!(toks[i].k, K::Id | K::Num | K::Str | K::Tmpl | K::Re)).collect();
            if leaves.is_empty() {
                continue;
            }
            let mut i = *rng.pick(&leaves);
            for _ in 0..3 {
                if !matches!(toks[i].k, K::Str | K::Tmpl) {
                    i = *rng.pick(&leaves);
                }
            }
            let t = &toks[i];
            let (leaf, mark, open, close) = match t.k {
                K::Id => (Leaf::Name, MARK, "", ""),
                K::Num => (Leaf::Number, NUMBER, "", ""),
                K::Re => (Leaf::Pattern, MARK, "/", &t.s[t.s.rfind('/').unwrap()..]),
                K::Str if t.s.starts_with('"') => (Leaf::Text('"'), MARK, "\"", "\""),
                K::Str => (Leaf::Text('\''), MARK, "'", "'"),
                _ => (Leaf::Text('`'), MARK, if t.s.starts_with('}') { "}" } else { "`" }, if t.s.ends_with("${") { "${" } else { "`" }),
            };
            // every use of a name, or this one only
            let all = leaf == Leaf::Name && rng.chance(1, 2);
            let new = other(&mut rng, cx, leaf);
            let mut parts = vec![String::new()];
            for (j, x) in toks.iter().enumerate() {
                let now = parts.last_mut().unwrap();
                if j > 0 {
                    now.push_str(&gen::separator(&mut rng, st, &toks[j - 1], x));
                }
                if j == i || all && x.k == K::Id && x.s == t.s {
                    now.push_str(open);
                    parts.push(close.to_string());
                } else {
                    now.push_str(&x.s);
                }
            }
            return Case::Payload { goal: g, via: via(&mut rng), parts, old: mark.to_string(), new };
        }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Payload { goal, via, parts, old, new } = c else { return Ok(()) };
        let (ta, tb) = (parts.join(old), parts.join(new));
        let ra = parse(*goal, Via::Text, &ta);
        if !matches!(ra, Res::Ok(_)) {
            // not a program with the marker either (a label, a contextual keyword, ...)
            add(Ct::payload_rejected, 1);
            return Ok(());
        }
        let rb = parse(*goal, *via, &tb);
        add(Ct::payloads, 1);
        add(Ct::f_payload_overwritten, 1);
        let show = || format!("{:?} {:?}", goal, clip(&tb));
        if !matches!(rb, Res::Ok(_)) {
            return fail("verdict", format!("with {:?} in its place the program is accepted, with {:?} it gives {}; {}", old, clip(new), kind(&rb), show()));
        }
        let (Some(ja), Some(jb)) = (json(&ra), json(&rb)) else { return fail("render", format!("a tree cannot be rendered; {}", show())) };
        let (ja, jb) = (unplaced(&ja), unplaced(&jb));
        let found = ja.matches(old.as_str()).count();
        if found < parts.len() - 1 {
            return fail("lost", format!("the payload {:?} stands {} times in the program and {} times in the tree; {:?} {:?}", old, parts.len() - 1, found, goal, clip(&ta)));
        }
        let want = ja.replace(old.as_str(), &escaped(new));
        if want != jb {
            let at = want.bytes().zip(jb.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(80);
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 200).min(s.len())]).to_string();
            return fail("tree", format!("replacing the payload {:?} by {:?} changes more than that, or not to that: expected ...{} but got ...{}; {}", old, clip(new), cut(&want), cut(&jb), show()));
        }
        Ok(())
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Payload { goal, via, parts, old, new } = c else { return vec![] };
        let mk = |via: Via, new: String| Case::Payload { goal: *goal, via, parts: parts.clone(), old: old.clone(), new };
        let mut out = vec![];
        if *via != Via::Text {
            out.push(mk(Via::Text, new.clone()));
        }
        let number = old == NUMBER;
        let regex = parts[0].ends_with('/');
        for t in shrink_text(new) {
            if !t.is_empty() && (!regex || is_pattern(&t)) && !(number && (t.starts_with('0') || t.contains('a'))) && (number || !t.starts_with(goes_on)) && !gen::is_reserved(&t) {
                out.push(mk(*via, t));
            }
        }
        out
    }
}
