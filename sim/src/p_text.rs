//! C08 (torn sources), C09 (packets), C10 (error positions).
use crate::case::*;
use crate::exec::*;
use crate::gen::{self, Cfg, Gen, Item, Tok, K};
use crate::p_source::{clip, measured, step_limit};
use crate::proc::*;
use crate::rng::Rng;

fn parse(goal: Goal, via: Via, text: &str) -> Res {
    let (r, m) = measured(goal, via, text.to_string(), 2 * step_limit(text.chars().count()));
    distinct(m.hash);
    r
}

fn outcome(r: &Res) -> String {
    match r {
        Res::Ok(_) => "a tree".into(),
        Res::Err(e) => format!("error {}", guarded(|| gsim_render::error_debug(e)).unwrap_or_else(|p| p)),
        Res::Panic(p) => format!("panic {}", p),
        Res::Died => "nothing (source died)".into(),
    }
}

fn config(rng: &mut Rng, goal: Goal, literals: bool, independent: bool) -> Cfg {
    Cfg { goal, depth: rng.range(1, 7), literals, dict: rng.chance(1, 2), independent }
}

// ---------------------------------------------------------------- C08

pub struct C08;

/// Change of the number of open constructs caused by a token.
fn delta(t: &Tok) -> i32 {
    let d = match t.k {
        K::P => match t.s.as_str() {
            "(" | "[" | "{" => 1,
            ")" | "]" | "}" => -1,
            _ => 0,
        },
        K::Tmpl => (t.s.starts_with('`') && t.s.ends_with("${")) as i32 - (t.s.starts_with('}') && t.s.ends_with('`')) as i32,
        _ => 0,
    };
    d + t.open
}

fn balanced(toks: &[&Tok]) -> bool {
    let mut st = vec![];
    for t in toks {
        if t.k != K::P {
            continue;
        }
        match t.s.as_str() {
            "(" => st.push(")"),
            "[" => st.push("]"),
            "{" => st.push("}"),
            c @ (")" | "]" | "}") => {
                if st.pop() != Some(c) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}

fn innermost(toks: &[Tok]) -> &'static str {
    let mut st: Vec<&'static str> = vec![];
    for t in toks {
        match (t.k, t.s.as_str()) {
            (K::P, "(") => st.push("parenthesis"),
            (K::P, "[") => st.push("bracket"),
            (K::P, "{") => st.push("brace"),
            (K::P, ")" | "]" | "}") => {
                st.pop();
            }
            (K::Tmpl, s) => {
                if s.starts_with('}') {
                    st.pop();
                }
                if s.ends_with("${") {
                    st.push("template substitution");
                }
            }
            _ => {}
        }
    }
    st.last().copied().unwrap_or("conditional, do or try")
}

const COMMENT_PIECES: &[&str] = &["a", " ", "\n", "*", "**", "/", "* /", "//", "é", "/*", "'", "`", "\r\n", "\u{2028}", "*\n", "x y z", "😀"];

fn comment_cut(rng: &mut Rng) -> String {
    let mut s = String::from("/*");
    for _ in 0..rng.small(8) {
        s.push_str(*rng.pick(COMMENT_PIECES));
    }
    let mut s = s.replacen("/*/", "/* /", 1);
    while s.contains("*/") {
        s = s.replace("*/", "* ");
    }
    s
}

fn prefix_items(rng: &mut Rng, cx: &Ctx, goal: Goal, most: usize) -> Vec<String> {
    let n = rng.small(most);
    let d = rng.range(1, 5);
    program_text(rng, &cx.mined, goal, n, d, true, true)
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "a generated valid program cut inside an open bracket, brace, parenthesis, template, string, regular expression or block comment, or right after a token that cannot end a program; or a quote- and slash-free program whose brackets became unbalanced by tokens lost, repeated or reordered; anything but an error is a violation; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        200
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 12_000_000 } else { 400_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C08", idx);
        let g = goal(&mut rng);
        let v = via(&mut rng);
        let intact = if rng.chance(1, 2) { vec![] } else { prefix_items(&mut rng, cx, g, 3) };
        for _ in 0..50 {
            let kind = rng.below(12);
            let cfg = config(&mut rng, g, kind < 9, kind >= 9);
            let mut ge = Gen::new(Rng::new(rng.u64()), cfg, &cx.mined.words);
            let it = ge.item();
            let st = gen::style(&mut rng);
            let torn = match kind {
                0..=6 => cut(&mut rng, st, &it),
                7 | 8 => {
                    let (t, _) = gen::render(&mut rng, st, &it.toks);
                    // after, or in the middle of, a statement
                    let c = comment_cut(&mut rng);
                    let sep = *rng.pick(&["", " ", "\n", "  \n"]);
                    let k = rng.below(it.toks.len() + 1);
                    if k < it.toks.len() && rng.chance(1, 2) && !it.toks[k].no_nl {
                        let (h, _) = gen::render(&mut rng, st, &it.toks[..k]);
                        Some((format!("{} {}", h, c), "cut inside a block comment".to_string(), Ct::cut_in_comment))
                    } else {
                        let sep = if t.ends_with('/') { " " } else { sep };
                        Some((format!("{}{}{}", t, sep, c), "cut inside a block comment".to_string(), Ct::cut_in_comment))
                    }
                }
                _ => unbalance(&mut rng, &it),
            };
            if let Some((last, why, ct)) = torn {
                add(ct, 1);
                return Case::Torn { goal: g, via: v, intact, last, why };
            }
        }
        Case::Torn { goal: g, via: v, intact, last: "(".into(), why: "cut inside a parenthesis".into() }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Torn { goal, via, intact, last, why } = c else { return Ok(()) };
        let mut text = intact.join("\n");
        if !text.is_empty() {
            text.push('\n');
        }
        text.push_str(last);
        let r = parse(*goal, *via, &text);
        match &r {
            Res::Err(_) => Ok(()),
            Res::Ok(_) => fail("accepted", format!("torn program ({}) is accepted: {:?} {:?}", why, goal, clip(&text))),
            r => fail("no error", format!("torn program ({}) gives {} instead of an error: {:?} {:?}", why, outcome(r), goal, clip(&text))),
        }
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Torn { goal, via, intact, last, why } = c else { return vec![] };
        let mut out: Vec<Case> = shrink_list(intact)
            .into_iter()
            .map(|i| Case::Torn { goal: *goal, via: *via, intact: i, last: last.clone(), why: why.clone() })
            .collect();
        if *via != Via::Text {
            out.push(Case::Torn { goal: *goal, via: Via::Text, intact: intact.clone(), last: last.clone(), why: why.clone() });
        }
        out
    }
}

fn cut(rng: &mut Rng, st: gen::Style, it: &Item) -> Option<(String, String, Ct)> {
    let (text, at) = gen::render(rng, st, &it.toks);
    let c: Vec<char> = text.chars().collect();
    let n = it.toks.len();
    let take = |k: usize| c[..k].iter().collect::<String>();
    match rng.below(6) {
        0 => {
            // inside a literal
            let v: Vec<usize> = (0..n).filter(|&i| matches!(it.toks[i].k, K::Str | K::Tmpl | K::Re)).collect();
            if v.is_empty() {
                return None;
            }
            let i = *rng.pick(&v);
            let t: Vec<char> = it.toks[i].s.chars().collect();
            // before its last delimiter
            let (name, ct, end) = match it.toks[i].k {
                K::Str => ("string", Ct::cut_in_string, t.len() - 1),
                K::Tmpl => ("template", Ct::cut_in_template, t.len() - 1),
                _ => {
                    let e = t.iter().rposition(|&c| c == '/')?;
                    ("regular expression", Ct::cut_in_regex, e)
                }
            };
            if end < 1 {
                return None;
            }
            let k = if rng.chance(1, 2) { end - rng.below(end.min(3)) } else { rng.range(1, end) };
            let cut = at[i] + k;
            if ct != Ct::cut_in_template && rng.chance(1, 2) && (ct == Ct::cut_in_regex || !matches!(c[cut - 1], '\\' | '\r')) {
                // only the rest of the line is lost
                let ends = |x: char| matches!(x, '\n' | '\r') || ct == Ct::cut_in_regex && matches!(x, '\u{2028}' | '\u{2029}');
                let rest: String = match (cut..c.len()).find(|&j| ends(c[j])) {
                    Some(j) if rng.chance(3, 4) => c[j..].iter().collect(),
                    _ => {
                        let nl = *rng.pick(&["\n", "\r", "\r\n", "\n"]);
                        let j = at[i] + t.len();
                        let j = if rng.chance(1, 2) { j } else { rng.range(cut, c.len()) };
                        format!("{}{}", nl, c[j..].iter().collect::<String>())
                    }
                };
                return Some((take(cut) + &rest, format!("rest of a line lost inside a {}", name), Ct::cut_line_rest));
            }
            Some((take(cut), format!("cut inside a {}", name), ct))
        }
        1 | 2 => {
            // after a token that cannot end a program
            let v: Vec<usize> = (0..n).filter(|&i| it.toks[i].mc).collect();
            if v.is_empty() {
                return None;
            }
            let i = *rng.pick(&v);
            let mut s = take(at[i] + it.toks[i].s.chars().count());
            let end = *rng.pick(&["", "", " ", "\n", "\n\n", " // c", "/* c */", "\r\n", " \u{2028}"]);
            if !(end.starts_with('/') && it.toks[i].s.ends_with('/')) {
                s.push_str(end);
            }
            Some((s, format!("cut right after {:?}", it.toks[i].s), Ct::cut_after_operator))
        }
        _ => {
            // while something is open
            let mut d = 0;
            let mut v = vec![];
            for i in 0..n {
                d += delta(&it.toks[i]);
                if d > 0 {
                    v.push(i);
                }
            }
            if v.is_empty() {
                return None;
            }
            let i = *rng.pick(&v);
            let start = at[i] + it.toks[i].s.chars().count();
            let end = at.get(i + 1).copied().unwrap_or(start);
            // at the token's end, in the blanks after it, or inside the next token
            let next = it.toks.get(i + 1).map_or(0, |t| t.s.chars().count());
            let k = match rng.below(3) {
                0 => start,
                1 => rng.range(start, end),
                _ if next > 1 => end + rng.range(1, next - 1),
                _ => start,
            };
            let name = innermost(&it.toks[..=i]);
            let ct = match name {
                "parenthesis" => Ct::cut_in_paren,
                "bracket" => Ct::cut_in_bracket,
                "brace" => Ct::cut_in_brace,
                "template substitution" => Ct::cut_in_template,
                _ => Ct::cut_in_pending,
            };
            Some((take(k), format!("cut inside a {}", name), ct))
        }
    }
}

fn unbalance(rng: &mut Rng, it: &Item) -> Option<(String, String, Ct)> {
    let mut t: Vec<&Tok> = it.toks.iter().collect();
    if t.iter().any(|t| !matches!(t.k, K::P | K::Kw | K::Id | K::Num) || t.s.contains(['/', '\'', '"', '`'])) {
        return None;
    }
    let n = t.len();
    let brackets: Vec<usize> = (0..n).filter(|&i| t[i].k == K::P && "()[]{}".contains(&t[i].s)).collect();
    if brackets.is_empty() {
        return None;
    }
    let i = *rng.pick(&brackets);
    let (why, ct) = match rng.below(6) {
        0 => {
            t.remove(i);
            (format!("token {} lost", i), Ct::unbalanced_lost)
        }
        1 => {
            let x = t[i];
            let k = if rng.chance(1, 2) { i } else { rng.below(n + 1) };
            t.insert(k, x);
            (format!("token {} repeated at {}", i, k), Ct::unbalanced_repeated)
        }
        2 => {
            let j = *rng.pick(&brackets);
            t.swap(i, j);
            (format!("tokens {} and {} swapped", i, j), Ct::unbalanced_reordered)
        }
        3 => {
            let k = (i + rng.log_range(1, 20)).min(n);
            t.drain(i..k);
            (format!("tokens {}..{} lost", i, k), Ct::unbalanced_lost)
        }
        4 => {
            let k = (i + rng.log_range(1, 20)).min(n);
            let c: Vec<&Tok> = t[i..k].to_vec();
            t.splice(k..k, c);
            (format!("tokens {}..{} repeated", i, k), Ct::unbalanced_repeated)
        }
        _ => {
            let a = rng.below(n);
            let x = t.remove(i);
            let a = a.min(t.len());
            t.insert(a, x);
            (format!("token {} moved to {}", i, a), Ct::unbalanced_reordered)
        }
    };
    if balanced(&t) {
        return None;
    }
    let mut s = String::new();
    for (k, x) in t.iter().enumerate() {
        if k > 0 {
            s.push(if rng.chance(1, 12) { '\n' } else { ' ' });
        }
        s.push_str(&x.s);
    }
    Some((s, format!("brackets unbalanced: {}", why), ct))
}

// ---------------------------------------------------------------- C09

pub struct C09;

/// The elements of the program's body, as JSON text.
pub fn body(json: &str) -> Option<Vec<String>> {
    let b = json.as_bytes();
    let key = b"\"body\":[";
    let mut depth = 0;
    let mut i = 0;
    let mut from = None;
    let mut out = vec![];
    while i < b.len() {
        match b[i] {
            b'"' => {
                if from.is_none() && depth == 1 && b[i..].starts_with(key) {
                    depth += 1;
                    i += key.len();
                    from = Some(i);
                    continue;
                }
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
            }
            b'{' | b'[' => depth += 1,
            b'}' | b']' => {
                depth -= 1;
                if depth == 1 {
                    if let Some(f) = from {
                        if f < i {
                            out.push(json[f..i].to_string());
                        }
                        return Some(out);
                    }
                }
            }
            b',' if depth == 2 => {
                if let Some(f) = from {
                    out.push(json[f..i].to_string());
                    from = Some(i + 1);
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}

/// Source positions (which some nodes carry into the JSON) blanked out.
pub fn unplaced(json: &str) -> String {
    let key = "{\"type\":\"Marker\"";
    let mut out = String::with_capacity(json.len());
    let mut rest = json;
    while let Some(k) = rest.find(key) {
        let end = rest[k..].find('}').map_or(rest.len(), |e| k + e + 1);
        out.push_str(&rest[..k]);
        out.push_str("{}");
        rest = &rest[end..];
    }
    out.push_str(rest);
    out
}

const FILL: &[&str] = &[
    "\n", "\n", "\n", " ", "\n\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "// c\n", " /* c */ ", "\n// '\"`({[\n", "/* a\n * b\n */\n", "\t\n \n",
    "\n\n\n\n\n\n\n\n", "//\n//\n//\n", " // x\r\n", "/*\u{2028}*/", "\n/**/\n", "/* } */", "// */\n",
];

pub fn fill(rng: &mut Rng) -> String {
    let s = rng.pick(FILL).to_string();
    if rng.chance(1, 40) {
        let k = rng.log_range(2, 800);
        return s.repeat(k);
    }
    s
}

fn solo(goal: Goal, p: &str) -> Option<Vec<String>> {
    match parse(goal, Via::Text, p) {
        Res::Ok(n) => {
            let j = guarded(|| gsim_render::to_json(&n)).ok()?.ok()?;
            body(&unplaced(&j))
        }
        _ => None,
    }
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "a generated program of 1-12 independent complete statements delivered as packets: cut at a boundary, lost, repeated, reordered, with blank lines and comments in between; the body must be the concatenation of the bodies of the packets parsed alone, in delivery order; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 1_500_000 } else { 50_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C09", idx);
        let g = goal(&mut rng);
        let independent = rng.chance(2, 3);
        let mut cfg = config(&mut rng, g, true, independent);
        let n = if rng.chance(1, 30) { rng.log_range(12, 120) } else { rng.range(1, 12) };
        if n > 12 {
            cfg.depth = cfg.depth.min(3);
        }
        let mut ge = Gen::new(Rng::new(rng.u64()), cfg, &cx.mined.words);
        let st = gen::style(&mut rng);
        let mut packets = vec![];
        let mut rep = vec![];
        for _ in 0..n {
            let it = ge.item();
            packets.push(gen::render(&mut rng, st, &it.toks).0);
            rep.push(it.repeatable);
        }
        let mut order: Vec<u32> = (0..n as u32).collect();
        for _ in 0..rng.small(4) {
            if order.is_empty() {
                break;
            }
            match rng.below(4) {
                0 => {
                    let k = rng.below(order.len() + 1);
                    order.truncate(k);
                    add(Ct::packets_cut, 1);
                }
                1 => {
                    let k = rng.below(order.len());
                    order.remove(k);
                    add(Ct::packets_lost, 1);
                }
                2 => {
                    let k = rng.below(order.len());
                    if rep[order[k] as usize] {
                        let x = order[k];
                        let at = if rng.chance(1, 2) { k } else { rng.below(order.len() + 1) };
                        let times = *rng.pick(&[1, 1, 1, 2, 5, 30]);
                        for _ in 0..times {
                            order.insert(at, x);
                        }
                        add(Ct::packets_repeated, 1);
                    }
                }
                _ => {
                    let a = rng.below(order.len());
                    let x = order.remove(a);
                    let b = rng.below(order.len() + 1);
                    order.insert(b, x);
                    add(Ct::packets_reordered, 1);
                }
            }
        }
        let simple = rng.chance(1, 3);
        let fill: Vec<String> = (0..=order.len()).map(|i| if i == 0 && rng.chance(1, 2) { String::new() } else if simple { "\n".into() } else { fill(&mut rng) }).collect();
        let tail = if rng.chance(1, 6) { rng.pick(&["// end", "/* end */", "   ", "\n\n\n", "//", "\u{2029}"]).to_string() } else { String::new() };
        Case::Packets { goal: g, via: via(&mut rng), packets, order, fill, tail }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Packets { goal, via, packets, order, fill, tail } = c else { return Ok(()) };
        let mut want = vec![];
        let mut alone: Vec<Option<Vec<String>>> = vec![None; packets.len()];
        let mut text = String::new();
        text.push_str(fill.first().map_or("", |s| s));
        for (k, &i) in order.iter().enumerate() {
            let i = i as usize;
            if alone[i].is_none() {
                match solo(*goal, &packets[i]) {
                    Some(b) => alone[i] = Some(b),
                    None => {
                        // not accepted on its own: nothing to compare with
                        add(Ct::skipped, 1);
                        return Ok(());
                    }
                }
            }
            want.extend(alone[i].as_ref().unwrap().iter().cloned());
            text.push_str(&packets[i]);
            text.push_str(fill.get(k + 1).map_or("\n", |s| s));
        }
        text.push_str(tail);
        add(Ct::packets, order.len() as u64);
        add(Ct::filler_lines, fill.iter().map(|f| f.matches('\n').count() as u64).sum());
        let show = || format!("{:?} {:?}", goal, clip(&text));
        match parse(*goal, *via, &text) {
            Res::Ok(n) => {
                let j = match guarded(|| gsim_render::to_json(&n)) {
                    Ok(Ok(j)) => j,
                    _ => return fail("render", format!("the tree cannot be rendered; {}", show())),
                };
                let Some(got) = body(&unplaced(&j)) else { return fail("body", format!("the rendered program has no body; {}", show())) };
                if got == want {
                    return Ok(());
                }
                let k = (0..got.len().max(want.len())).find(|&k| got.get(k) != want.get(k)).unwrap();
                fail("body", format!(
                    "{} statements delivered, {} in the body; element {} is {} in the program and {} when delivered alone; {}",
                    want.len(), got.len(), k, got.get(k).map_or("missing".into(), |s| clip(s)), want.get(k).map_or("missing".into(), |s| clip(s)), show()))
            }
            r => fail("rejected", format!("{} complete statements, each accepted alone, together give {}; {}", order.len(), outcome(&r), show())),
        }
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Packets { goal, via, packets, order, fill, tail } = c else { return vec![] };
        let mut out = vec![];
        let mk = |order: Vec<u32>, fill: Vec<String>, tail: &str, via: Via| Case::Packets { goal: *goal, via, packets: packets.clone(), order, fill, tail: tail.to_string() };
        if *via != Via::Text {
            out.push(mk(order.clone(), fill.clone(), tail, Via::Text));
        }
        if !tail.is_empty() {
            out.push(mk(order.clone(), fill.clone(), "", *via));
        }
        // drop deliveries together with the filler after them
        let pairs: Vec<(u32, String)> = order.iter().enumerate().map(|(k, &i)| (i, fill.get(k + 1).cloned().unwrap_or("\n".into()))).collect();
        for v in shrink_list(&pairs) {
            let mut f = vec![fill.first().cloned().unwrap_or_default()];
            f.extend(v.iter().map(|x| x.1.clone()));
            out.push(mk(v.iter().map(|x| x.0).collect(), f, tail, *via));
        }
        for k in 0..fill.len() {
            if fill[k] != "\n" && !fill[k].is_empty() {
                let mut f = fill.clone();
                f[k] = if k == 0 { String::new() } else { "\n".into() };
                out.push(mk(order.clone(), f, tail, *via));
            }
        }
        out
    }
}

// ---------------------------------------------------------------- C10

pub struct C10;

/// "\u{1}N\u{1}text": text repeated N times
fn expand(p: &str) -> String {
    if let Some(r) = p.strip_prefix('\u{1}') {
        if let Some((n, t)) = r.split_once('\u{1}') {
            return t.repeat(n.parse().unwrap_or(1));
        }
    }
    p.to_string()
}

/// Number of line terminators (CRLF counts once).
pub fn lines(s: &str) -> usize {
    let c: Vec<char> = s.chars().collect();
    let mut n = 0;
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '\r' => {
                n += 1;
                if c.get(i + 1) == Some(&'\n') {
                    i += 1;
                }
            }
            '\n' | '\u{2028}' | '\u{2029}' => n += 1,
            _ => {}
        }
        i += 1;
    }
    n
}

const PREFIX: &[&str] = &[
    "a;\n", "\n", "// c\n", "/* c */\n", "/* a\n b\n c */\n", "x = `a\nb\n`;\n", "'a\\\nb';\n", "x = 'a\\\r\nb';\r\n", "\r\n", "\r", "\u{2028}", "\u{2029}",
    "// c\r", "// c\u{2028}", "f(\n1,\n2\n);\n", "var q =\n1;\n", "x = `\r\n${a\n}\r`;\n", "/*\r*/\n", "/*\r\n\u{2028}\u{2029}*/\n", "a; b; c;\n",
    "x = '\\u{41}';\n", "x = /a/;\n", "if (a)\n b;\n", "x = {\n a: 1,\n b() {\n }\n};\n", "x = function () {\n return 1;\n};\n", "    ;\n", "x = a\n/ b\n/ c;\n",
    "x = (a, b) => {\n};\n", "x = a ?\n b :\n c;\n", "x = `${`\n`}`;\n", "x = (\n(a,\nb) => a);\n", "x = [\n(a), {b}\n] = c;\n", "/* \\\n */\n", "x = async (\na\n) => b;\n",
    "x = \"\\\u{2028}\";\n", "x = tag`\n`;\n", "\t\n", "\u{c}\n", "/**/\n", "// é\n", "x = '😀';\n",
];

/// Statements, comments and blanks with a line terminator (¶) wherever one may stand.
const FRAMES: &[&str] = &[
    "x = `a¶b`;¶", "x = `\\¶`;¶", "x = `a\\¶b¶\\¶`;¶", "x = `a${b}¶c`;¶", "x = `a${b}\\¶c`;¶", "x = `${¶a¶}¶${b}\\¶`;¶", "x = tag`¶\\¶${b}¶`;¶",
    "x = 'a\\¶b';¶", "x = \"\\¶\\¶\";¶", "/*¶*/¶", "/* a ¶¶ b */ a;¶", "// c¶", "a;¶", "¶", "¶¶", "x¶=¶a¶;¶", "f(¶a,¶b¶)¶;¶", "x = {¶a¶:¶1¶,¶b¶(¶)¶{¶}¶}¶;¶",
    "x = [¶a¶,¶b¶]¶;¶", "x = (¶a¶,¶b¶)¶=> 1;¶", "x = function¶f¶(¶a¶)¶{¶return a¶;¶}¶;¶", "if¶(¶a¶)¶{¶b;¶}¶else¶{¶}¶;¶", "for¶(¶var¶a¶=¶1¶;¶a¶;¶)¶{¶}¶;¶",
    "while¶(¶a¶)¶b¶;¶", "do¶a;¶while¶(¶b¶)¶;¶", "switch¶(¶a¶)¶{¶case¶1¶:¶b;¶default¶:¶}¶;¶", "try¶{¶}¶catch¶(¶e¶)¶{¶}¶finally¶{¶}¶;¶", "x = a¶?¶b¶:¶c¶;¶",
    "x = a¶+¶b¶*¶c¶;¶", "x = a¶/¶b;¶", "x = a¶.¶b¶[¶c¶]¶(¶)¶;¶", "x = new¶A¶(¶)¶;¶", "x = (¶a¶)¶;¶", "x = (¶[a]¶)¶=> {¶};¶", "x = async (¶a¶)¶=> {¶};¶", "x = -¶a¶;¶",
    "var¶a¶=¶1¶,¶b¶;¶", "var¶{¶a¶,¶b¶:¶c¶=¶1¶}¶=¶d¶;¶", "var¶[¶a¶,¶b¶]¶=¶d¶;¶", "class¶A¶{¶m¶(¶)¶{¶}¶n¶(¶)¶{¶}¶}¶;¶", "class¶A¶extends¶B¶{¶}¶;¶",
    "x = /a/g¶;¶", "x = 1¶;¶", "x = 'a'¶;¶", "x = `a`¶;¶", "L¶:¶while (a) {¶}¶;¶", "{¶a¶;¶}¶;¶", "function¶*¶g¶(¶)¶{¶yield a¶;¶}¶;¶",
    "x = {¶get¶a¶(¶)¶{¶}¶,¶set¶b¶(¶c¶)¶{¶}¶}¶;¶", "x = typeof¶a¶instanceof¶b¶;¶", "({¶a¶}¶=¶b¶)¶;¶", "[¶a¶]¶=¶b¶;¶", "x = a ||¶// c¶/* d¶*/¶b;¶", "throw a¶;¶", "debugger¶;¶",
];

fn frame(rng: &mut Rng) -> String {
    const ENDS: &[&str] = &["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"];
    let f = *rng.pick(FRAMES);
    let one = if rng.chance(2, 3) { Some(*rng.pick(ENDS)) } else { None };
    let sparse = rng.chance(1, 2);
    let n = f.matches('¶').count();
    let keep = rng.below(n);
    let mut out = String::new();
    for (i, part) in f.split('¶').enumerate() {
        if i > 0 {
            let last = i == n;
            // a backslash needs its terminator
            if last || out.ends_with('\\') || !sparse || i - 1 == keep {
                out.push_str(one.unwrap_or_else(|| *rng.pick(ENDS)));
            } else {
                out.push(' ');
            }
        }
        out.push_str(part);
    }
    out
}

struct Found {
    line: usize,
    col: usize,
    kind: String,
}

fn error_of(goal: Goal, via: Via, text: &str) -> Result<Option<Found>, String> {
    match parse(goal, via, text) {
        Res::Ok(_) => Ok(None),
        Res::Err(e) => {
            let kind = guarded(|| format!("{:?}", e.errortype)).unwrap_or_else(|p| p);
            Ok(Some(Found { line: e.line as usize, col: e.col as usize, kind }))
        }
        r => Err(outcome(&r)),
    }
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "a generated program with one damaged statement; the reported line must lie between the first line of the damaged statement and the last line; then complete statements ending in ';', comments and blank lines (up to 200000 lines, all line terminators, multi-line literals) are prepended: the line must shift by exactly their line count, column and kind must not change; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 1_800_000 } else { 70_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C10", idx);
        let g = goal(&mut rng);
        let st = gen::style(&mut rng);
        let cfg = config(&mut rng, g, true, true);
        let mut ge = Gen::new(Rng::new(rng.u64()), cfg.clone(), &cx.mined.words);
        let mut before = vec![];
        if rng.chance(1, 2) {
            before.push(rng.pick(&["a;\n", "f();\n", "var x = 1;\n", "if (a) { b; }\n", ";\n", "{}\n"]).to_string());
            for _ in 0..rng.small(3) {
                let it = ge.item();
                let t = gen::render(&mut rng, st, &it.toks).0;
                before.push(format!("{}{}", t, rng.pick(&["\n", "\r\n", " // c\n", "\n\n", " "])));
            }
        }
        let it = ge.item();
        let (t, _) = gen::render(&mut rng, st, &it.toks);
        let mut d: Vec<char> = t.chars().collect();
        let n = *rng.pick(&[1, 1, 1, 2]);
        let other = d.clone();
        let how = damage(&mut rng, &cx.mined, &mut d, &other, n, true).join("; ");
        let damaged: String = d.into_iter().collect();
        if before.is_empty() && damaged.trim_start().starts_with(['\'', '"']) {
            before.push("a;\n".into());
        }
        let mut after = vec![];
        for _ in 0..rng.small(3) {
            let it = ge.item();
            let t = gen::render(&mut rng, st, &it.toks).0;
            after.push(format!("\n{}", t));
        }
        let mut prefix = vec![];
        for _ in 0..rng.range(1, 4) {
            match rng.below(8) {
                0 => {
                    let it = ge.item();
                    if it.semi {
                        prefix.push(format!("{}{}", gen::render(&mut rng, st, &it.toks).0, rng.pick(&["\n", "\r\n", "\r", "\n\n"])));
                    }
                }
                1 => {
                    let p = if rng.chance(1, 2) { rng.pick(PREFIX).to_string() } else { frame(&mut rng) };
                    let most = if rng.chance(1, 30) { 200_000 / p.len() } else { 600 };
                    let k = size(&mut rng, &cx.mined, 2, most.max(2));
                    prefix.push(format!("\u{1}{}\u{1}{}", k, p));
                }
                2..=4 => prefix.push(frame(&mut rng)),
                _ => prefix.push(rng.pick(PREFIX).to_string()),
            }
        }
        Case::Blame { goal: g, via: via(&mut rng), prefix, before, damaged, after, how }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Blame { goal, via, prefix, before, damaged, after, how } = c else { return Ok(()) };
        let head = before.concat();
        let text = format!("{}{}{}", head, damaged, after.concat());
        add(Ct::blame_damaged, 1);
        let e = match error_of(*goal, *via, &text) {
            Ok(Some(e)) => e,
            Ok(None) => {
                add(Ct::blame_accepted, 1);
                return Ok(());
            }
            // C01's business
            Err(_) => {
                add(Ct::skipped, 1);
                return Ok(());
            }
        };
        // the rest must be a valid program for the claim about the region
        let rest = format!("{}{}", head, after.concat());
        let valid = matches!(error_of(*goal, Via::Text, &rest), Ok(None));
        let first = 1 + lines(&head);
        let last = 1 + lines(&text);
        if valid && (e.line < first || e.line > last) {
            return fail("outside", format!(
                "error reported on line {} ({}), but the damaged statement starts on line {} and the text ends on line {}; damage: {}; {:?} {:?}",
                e.line, e.kind, first, last, how, goal, clip(&text)));
        }
        if e.line > last || e.line < 1 {
            return fail("outside", format!("error reported on line {} ({}) of a text of {} lines; {:?} {:?}", e.line, e.kind, last, goal, clip(&text)));
        }
        let pre: String = prefix.iter().map(|p| expand(p)).collect();
        if pre.is_empty() {
            return Ok(());
        }
        // a prologue would stop being one behind the prefix
        if text.trim_start().starts_with(['\'', '"']) {
            return Ok(());
        }
        // the prefix itself is a valid program
        if !matches!(error_of(*goal, Via::Text, &pre), Ok(None)) {
            add(Ct::skipped, 1);
            return Ok(());
        }
        let shift = lines(&format!("{}{}", pre, text)) - lines(&text);
        add(Ct::blame_prefix, 1);
        add(Ct::blame_lines, shift as u64);
        match error_of(*goal, *via, &format!("{}{}", pre, text)) {
            Ok(Some(f)) => {
                if f.line != e.line + shift || f.col != e.col || f.kind != e.kind {
                    return fail("shift", format!(
                        "error at line {} column {} ({}); with {} lines of complete statements, comments and blanks in front it is at line {} column {} ({}), expected line {}; damage: {}; prefix {:?}; {:?} {:?}",
                        e.line, e.col, e.kind, shift, f.line, f.col, f.kind, e.line + shift, how, clip(&pre), goal, clip(&text)));
                }
                Ok(())
            }
            Ok(None) => fail("shift", format!("error at line {} ({}); with {} lines in front there is no error; prefix {:?}; {:?} {:?}", e.line, e.kind, shift, clip(&pre), goal, clip(&text))),
            Err(p) => fail("shift", format!("error at line {} ({}); with {} lines in front: {}; prefix {:?}; {:?} {:?}", e.line, e.kind, shift, p, clip(&pre), goal, clip(&text))),
        }
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Blame { goal, via, prefix, before, damaged, after, how } = c else { return vec![] };
        let mut out = vec![];
        let mk = |prefix: Vec<String>, before: Vec<String>, damaged: String, after: Vec<String>, via: Via| Case::Blame { goal: *goal, via, prefix, before, damaged, after, how: how.clone() };
        if *via != Via::Text {
            out.push(mk(prefix.clone(), before.clone(), damaged.clone(), after.clone(), Via::Text));
        }
        for a in shrink_list(after) {
            out.push(mk(prefix.clone(), before.clone(), damaged.clone(), a, *via));
        }
        for b in shrink_list(before) {
            out.push(mk(prefix.clone(), b, damaged.clone(), after.clone(), *via));
        }
        for p in shrink_list(prefix) {
            out.push(mk(p, before.clone(), damaged.clone(), after.clone(), *via));
        }
        for (i, p) in prefix.iter().enumerate() {
            if let Some((n, t)) = p.strip_prefix('\u{1}').and_then(|r| r.split_once('\u{1}')) {
                let n: usize = n.parse().unwrap_or(1);
                for m in [1, n / 2, n * 3 / 4, n - 1] {
                    if m < n && m > 0 {
                        let mut v = prefix.clone();
                        v[i] = format!("\u{1}{}\u{1}{}", m, t);
                        out.push(mk(v, before.clone(), damaged.clone(), after.clone(), *via));
                    }
                }
            }
        }
        for t in shrink_text(damaged) {
            out.push(mk(prefix.clone(), before.clone(), t, after.clone(), *via));
        }
        out
    }
}
