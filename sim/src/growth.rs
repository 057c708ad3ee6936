//! Growth cases: one construct repeated more and more often. How work, memory
//! and stack grow with the number of repetitions.
use crate::case::*;
use crate::corpus::{self, Mined, Shape};
use crate::exec::*;
use crate::gen;
use crate::p_source::{clip, measured, step_limit, Meas};
use crate::proc::*;
use crate::rng::Rng;
use crate::rt;

fn sizes(g: &Growth, small: usize, large: usize) -> Vec<usize> {
    let u = (g.unit.chars().count() + g.sep.chars().count()).max(1);
    let m = (small / u).max(2);
    let l = (large / u).max(8 * m);
    vec![m, 2 * m, l, 2 * l]
}

/// A fixed shape at large sizes, intact or with its end missing.
pub fn large(rng: &mut Rng, sh: &Shape, cut: bool, thorough: bool) -> Growth {
    let mut g = shape(sh, goal(rng));
    if cut {
        g.post = rng.pick(&["", "", ")", "\n}", " @", "\n\"", "]", " a b"]).to_string();
        g.via = via(rng);
        g.n = sizes(&g, 600, 12_000);
    } else {
        let u = g.unit.chars().count() + g.sep.chars().count();
        g.n = sizes(&g, 600, if thorough { 200_000 } else { 24_000.min(u * 6_000) });
    }
    g
}

const ELEMENTS: &[(&str, &str, &str)] = &[
    ("f(", ", ", ");"),
    ("x = [", ",", "];"),
    ("new A(", ",\n", ");"),
    ("x = (", ", ", ");"),
    ("", ", ", ";"),
    ("x = `${", "}${", "}`;"),
    ("async(", ", ", ");"),
    ("x = [...", ", ...", "];"),
    ("f(...", ", ...", ");"),
    ("var a = ", ", b = ", ";"),
    ("x = {a: ", ", a: ", "};"),
    ("x = {[", "]: 1, [", "]: 2};"),
    ("switch (a) { case ", ": case ", ": }"),
    ("for (", ", ", ";;) ;"),
    ("function f() { return ", ", ", "; }"),
    ("x = a ? b : (", ", ", ");"),
    ("f(a, b)(", ", ", ")(c);"),
    ("({x: [", ", ", "]}).y;"),
    ("x = async () => [", ", ", "];"),
    ("function* g() { yield [", ", ", "]; }"),
];

const PARAMS: &[&str] = &["a§", "b§ = 1", "{c§}", "[d§]", "{e§: f§}", "{g§ = 1}", "[h§ = 2]", "{i§: [j§]}", "{k§, l§}", "[m§, n§]"];
const PARAM_WRAP: &[(&str, &str)] = &[
    ("function f(", ") {}"),
    ("x = function (", ") {};"),
    ("x = (", ") => 1;"),
    ("x = async (", ") => 1;"),
    ("class A { m(", ") {} }"),
    ("x = {m(", ") {}};"),
    ("async function f(", ") {}"),
    ("function* g(", ") {}"),
    ("var [", "] = x;"),
    ("class A { constructor(", ") {} }"),
];

const BODY_WRAP: &[(&str, &str)] = &[
    ("{", "}"),
    ("function f() {", "}"),
    ("x = () => {", "};"),
    ("x = {m() {", "}};"),
    ("class A { m() {", "} }"),
    ("if (a) {", "} else {}"),
    ("switch (a) { case 1:", "}"),
    ("switch (a) { default:", " case 1: }"),
    ("try {", "} catch (e) {}"),
    ("try {} catch (e) {", "}"),
    ("try {} finally {", "}"),
    ("for (;;) {", "}"),
    ("a: {", "}"),
    ("x = function* () {", "};"),
    ("x = async () => {", "};"),
    ("(function () {", "})();"),
    ("while (a) {", "}"),
    ("do {", "} while (a);"),
    ("x = {get a() {", "}};"),
    ("if (a) b; else {", "}"),
];

const STRETCH: &[(&str, &str, &[&str])] = &[
    ("x = '", "';", &["a", " ", "\\n", "\\'", "\\u0041", "\\u{41}", "\\x41", "\"", "é", "😀", "\\\\", "//", "\\\n", "ab", "`", "0", "\\0", "\u{2028}"]),
    ("x = \"", "\";", &["a", "\\t", "\\\"", "\\u0041", "'", "日", "\\\r\n", "use ", "/*"]),
    ("x = `", "`;", &["a", "\n", "\\`", "$", "\\u0041", "\r\n", "${a}", "é", "{", "}", "\\\n", "😀", "a${b}", "'", "\\${"]),
    ("x = tag`", "`;", &["a", "\\n", "${a}", "\n"]),
    ("x = /", "/g;", &["a", "[b]", "\\/", "(c)", "d*", "é", "[/]", "\\\\", "a|"]),
    ("x = /a/", ";", &["g", "i", "a"]),
    ("x = ", ";", &["a", "é", "𠮷", "1", "$", "\\u0061", "\\u{61}", "9"]),
    ("x = a", ";", &["b", "1", "_", "变"]),
    ("x = 0x", ";", &["f", "0", "1"]),
    ("x = 0b", ";", &["1", "0"]),
    ("x = 0o", ";", &["7", "0"]),
    ("x = 1.", ";", &["0", "5"]),
    ("x = 1e", "1;", &["0", "1"]),
    ("x = .", "5;", &["0", "3"]),
    ("var ", " = 1;", &["a", "é"]),
    ("x = a.", ";", &["b", "in", "é"]),
    ("x = {", ": 1};", &["b", "get", "é"]),
    ("L", ": a;", &["L"]),
];

const BLANKS: &[&str] = &[
    " ", "\n", "\t", "\r\n", "\r", "// c\n", "/* c */", "/*\n*/", "\u{2028}", "\u{a0}", "/**/", "//\n", "\n\n", "/* é */ ", "\u{c}",
    "// 'x' `y` /z/ (\n", "/***/", "\u{feff}", "\n// a\r\n", "/* \u{2029} */",
];

/// Repeating it does not nest: everything opened is closed.
fn flat(s: &str) -> bool {
    let n = |c: char| s.matches(c).count();
    n('(') == n(')') && n('[') == n(']') && n('{') == n('}') && n('`') % 2 == 0 && s.matches("/*").count() == s.matches("*/").count() && (s.ends_with(';') || s.ends_with('}'))
}

/// A growth case derived from generated programs.
pub fn random(rng: &mut Rng, mined: &Mined, max_chars: usize) -> Growth {
    let gl = goal(rng);
    let mut g = Growth {
        name: String::new(),
        goal: gl,
        via: via(rng),
        pre: String::new(),
        unit: String::new(),
        sep: String::new(),
        post: String::new(),
        n: vec![],
    };
    let depth = rng.range(1, 4);
    let expr = |rng: &mut Rng| -> String {
        if rng.chance(1, 4) {
            return rng
                .pick(&["a§", "1", "'x'", "a.b", "f(a)", "a => b", "(a, b)", "[a]", "{a}", "/x/", "`t`", "a = b", "(a)", "x ? y : z", "function () {}", "class {}", "-a", "async a => b", "async (a)", "(a, b) => c", "(a = 1) => c", "a + b * c", "\"s\"", "new A", "({a})", "a§b"])
                .to_string();
        }
        let cfg = gen::Cfg { goal: gl, depth, literals: true, dict: true, independent: true };
        let mut ge = gen::Gen::new(Rng::new(rng.u64()), cfg, &mined.words);
        ge.assign();
        let toks = std::mem::take(&mut ge.out);
        let st = gen::style(rng);
        gen::render(rng, st, &toks).0
    };
    let stmt = |rng: &mut Rng| -> String {
        if rng.chance(1, 4) {
            let s = rng.pick(corpus::SNIPS).to_string();
            if s.chars().count() < 120 && flat(&s) {
                return s;
            }
        }
        program_text(rng, mined, gl, 1, depth, true, true).pop().unwrap()
    };
    match rng.below(12) {
        0..=2 => {
            g.name = "statement".into();
            g.unit = stmt(rng);
            g.sep = rng.pick(&["\n", "\n", " ", "\n\n", ";", "// c\n", "\r\n"]).to_string();
        }
        3 | 4 => {
            let (a, s, b) = *rng.pick(ELEMENTS);
            g.name = "element".into();
            g.pre = a.into();
            g.sep = s.into();
            g.post = b.into();
            g.unit = expr(rng);
        }
        5 => {
            let (a, b) = *rng.pick(PARAM_WRAP);
            g.name = "parameter".into();
            g.pre = a.into();
            g.post = b.into();
            g.sep = rng.pick(&[", ", ",", ",\n"]).to_string();
            g.unit = rng.pick(PARAMS).to_string();
        }
        6 | 7 => {
            g.name = "body statement".into();
            let k = rng.range(1, 4);
            for _ in 0..k {
                let (a, b) = *rng.pick(BODY_WRAP);
                g.pre.push_str(a);
                g.post.insert_str(0, b);
            }
            g.unit = stmt(rng);
            g.sep = "\n".into();
        }
        8 | 9 => {
            let (a, b, u) = *rng.pick(STRETCH);
            g.name = "token".into();
            g.pre = a.into();
            g.post = b.into();
            g.unit = rng.pick(u).to_string();
        }
        _ => {
            // blanks between two tokens of a program
            g.name = "blanks".into();
            let cfg = gen::Cfg { goal: gl, depth: rng.range(2, 5), literals: true, dict: true, independent: true };
            let mut ge = gen::Gen::new(Rng::new(rng.u64()), cfg, &mined.words);
            let it = ge.item();
            let st = gen::style(rng);
            let (text, at) = gen::render(rng, st, &it.toks);
            let ok: Vec<usize> = (0..it.toks.len()).filter(|&i| !it.toks[i].no_nl).collect();
            let c: Vec<char> = text.chars().collect();
            let k = if ok.is_empty() || rng.chance(1, 8) { c.len() } else { at[*rng.pick(&ok)] };
            g.pre = c[..k].iter().collect();
            g.post = c[k..].iter().collect();
            if !g.pre.is_empty() {
                g.pre.push(' ');
            }
            g.unit = rng.pick(BLANKS).to_string();
        }
    }
    if g.name != "blanks" && rng.chance(1, 3) {
        // in the middle of a program
        let a = stmt(rng);
        let b = stmt(rng);
        g.pre = format!("{}\n{}", a, g.pre);
        g.post = format!("{}\n{}", g.post, b);
    }
    match rng.below(8) {
        0 => {
            // the end is missing
            g.name.push_str(", cut");
            add(Ct::growth_cut, 1);
            g.post.clear();
        }
        1 => {
            g.name.push_str(", wrong end");
            let w = if rng.chance(1, 2) { rng.pick(&mined.words).clone() } else { rng.pick(crate::deliver::HOSTILE).to_string() };
            if rng.chance(1, 2) {
                g.post = format!("{}{}", w, g.post);
            } else {
                g.post = format!("{} {}", g.post, w);
            }
        }
        _ => {}
    }
    let hi = rng.log_range(max_chars / 4, max_chars);
    g.n = sizes(&g, 500, hi);
    g
}

struct Point {
    n: usize,
    chars: usize,
    m: Meas,
    ok: bool,
}

fn point(g: &Growth, n: usize) -> Point {
    let text = g.text(n);
    let chars = text.chars().count();
    let (r, m) = measured(g.goal, g.via, text, step_limit(chars));
    Point { n, chars, m, ok: matches!(r, Res::Ok(_)) }
}

fn describe(g: &Growth) -> String {
    format!("{} ({:?} {:?} repeated: {:?} + {:?} x n, separated by {:?}, + {:?})", g.name, g.goal, g.via, clip(&g.pre), clip(&g.unit), g.sep, clip(&g.post))
}

pub fn check_work(g: &Growth) -> Result<(), Fail> {
    add(Ct::growth_shapes, 1);
    if g.n.len() < 4 {
        return Ok(());
    }
    // what is set up once, by the first call of a process, is no part of the growth
    point(g, g.n[0]);
    let p: Vec<Point> = g.n.iter().map(|&n| point(g, n)).collect();
    add(Ct::growth_pairs, 2);
    distinct(p[0].m.hash);
    let d1 = (p[1].n - p[0].n).max(1) as f64;
    let d2 = (p[3].n - p[2].n).max(1) as f64;
    let verdict = |q: &Point| if q.ok { "accepted" } else { "rejected" };
    for (name, f, slack) in [
        ("basic-block steps", (|m: &Meas| m.steps as f64) as fn(&Meas) -> f64, 200.0),
        ("bytes copied", |m: &Meas| m.copied as f64, 1500.0),
        ("bytes scanned", |m: &Meas| m.scanned as f64, 1500.0),
    ] {
        let s1 = ((f(&p[1].m) - f(&p[0].m)) / d1).max(0.0);
        let s2 = (f(&p[3].m) - f(&p[2].m)) / d2;
        if s2 > 3.0 * s1 + slack {
            return fail("superlinear", format!(
                "{} grow faster than linearly: {:.0} per repetition between n={} and n={}, {:.0} per repetition between n={} and n={} ({}); {}",
                name, s1, p[0].n, p[1].n, s2, p[2].n, p[3].n, verdict(&p[3]), describe(g)));
        }
    }
    let a1 = p[1].m.alloc as f64 / p[1].n as f64;
    let a2 = p[3].m.alloc as f64 / p[3].n as f64;
    if a2 > 3.0 * a1 + 200.0 {
        return fail("superlinear", format!(
            "bytes allocated grow faster than linearly: {:.0} per repetition at n={}, {:.0} per repetition at n={} ({}); {}",
            a1, p[1].n, a2, p[3].n, verdict(&p[3]), describe(g)));
    }
    Ok(())
}

/// Peak heap per repetition.
pub fn check_peak(g: &Growth) -> Result<(), Fail> {
    add(Ct::growth_shapes, 1);
    if g.n.len() < 4 {
        return Ok(());
    }
    let a = point(g, g.n[1]);
    let b = point(g, g.n[3]);
    add(Ct::growth_pairs, 1);
    distinct(a.m.hash);
    let p1 = a.m.peak as f64 / a.n as f64;
    let p2 = b.m.peak as f64 / b.n as f64;
    if p2 > 3.0 * p1 + 100.0 {
        return fail("peak", format!(
            "live memory grows faster than linearly: {:.0} bytes per repetition at n={} ({} chars), {:.0} at n={} ({} chars); {}",
            p1, a.n, a.chars, p2, b.n, b.chars, describe(g)));
    }
    Ok(())
}

pub fn shrink(g: &Growth) -> Vec<Growth> {
    let mut out = vec![];
    if g.via != Via::Text {
        out.push(Growth { via: Via::Text, ..g.clone() });
    }
    for t in shrink_text(&g.pre) {
        out.push(Growth { pre: t, ..g.clone() });
    }
    for t in shrink_text(&g.post) {
        out.push(Growth { post: t, ..g.clone() });
    }
    for t in shrink_text(&g.unit) {
        if !t.is_empty() || !g.sep.is_empty() {
            out.push(Growth { unit: t, ..g.clone() });
        }
    }
    if g.n.iter().max().copied().unwrap_or(0) > 200 {
        out.push(Growth { n: g.n.iter().map(|n| (n / 2).max(2)).collect(), ..g.clone() });
    }
    out
}
