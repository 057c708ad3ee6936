//! C15: every node's span is exactly its own text.
use crate::case::*;
use crate::exec::*;
use crate::gen::{Cfg, Gen, Tok};
use crate::p_layout::{laid_out, map, random_layout, Map};
use crate::p_source::{clip, measured, step_limit};
use crate::proc::*;
use crate::rng::Rng;

pub struct C15;

/// A tree, read from its Debug form. Wrappers around a single value are left out.
#[derive(Debug, Clone, PartialEq)]
pub enum V {
    St(String, Vec<(String, V)>),
    Tu(String, Vec<V>),
    Li(Vec<V>),
    At(String),
}

struct Rd<'a> {
    s: &'a str,
    i: usize,
}

impl Rd<'_> {
    fn peek(&self) -> u8 {
        *self.s.as_bytes().get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while self.peek() == b' ' {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        let yes = self.peek() == c;
        self.i += yes as usize;
        yes
    }
    fn list(&mut self, close: u8) -> Option<Vec<V>> {
        let mut out = vec![];
        while !self.eat(close) {
            out.push(self.value()?);
            self.eat(b',');
        }
        Some(out)
    }
    fn value(&mut self) -> Option<V> {
        self.ws();
        let from = self.i;
        match self.peek() {
            0 => return None,
            b'[' => {
                self.i += 1;
                return Some(V::Li(self.list(b']')?));
            }
            b'(' => {
                self.i += 1;
                return Some(V::Tu(String::new(), self.list(b')')?));
            }
            q @ (b'"' | b'\'') => {
                self.i += 1;
                while self.peek() != q {
                    if self.peek() == 0 {
                        return None;
                    }
                    self.i += if self.peek() == b'\\' { 2 } else { 1 };
                }
                self.i += 1;
                return Some(V::At(self.s[from..self.i].to_string()));
            }
            _ => {}
        }
        while !matches!(self.peek(), 0 | b' ' | b',' | b'(' | b')' | b'[' | b']' | b'{' | b'}' | b':') {
            self.i += 1;
        }
        if from == self.i {
            return None;
        }
        let name = self.s[from..self.i].to_string();
        if self.peek() == b'(' {
            self.i += 1;
            let mut v = self.list(b')')?;
            return Some(if v.len() == 1 { v.pop().unwrap() } else { V::Tu(name, v) });
        }
        let at = self.i;
        if self.eat(b'{') {
            let mut f = vec![];
            while !self.eat(b'}') {
                self.ws();
                let a = self.i;
                while self.peek() != b':' {
                    if self.peek() == 0 {
                        return None;
                    }
                    self.i += 1;
                }
                let key = self.s[a..self.i].to_string();
                self.i += 1;
                f.push((key, self.value()?));
                self.eat(b',');
            }
            return Some(V::St(name, f));
        }
        self.i = at;
        Some(V::At(name))
    }
}

pub fn read(debug: &str) -> Option<V> {
    let mut r = Rd { s: debug, i: 0 };
    let v = r.value()?;
    r.ws();
    if r.i == debug.len() {
        Some(v)
    } else {
        None
    }
}

impl V {
    fn get(&self, key: &str) -> Option<&V> {
        match self {
            V::St(_, f) => f.iter().find(|x| x.0 == key).map(|x| &x.1),
            _ => None,
        }
    }
    fn name(&self) -> &str {
        match self {
            V::St(n, _) | V::Tu(n, _) | V::At(n) => n,
            V::Li(_) => "",
        }
    }
    fn num(&self, key: &str) -> Option<usize> {
        match self.get(key) {
            Some(V::At(a)) => a.parse().ok(),
            _ => None,
        }
    }
    fn chars(&self) -> Option<(usize, usize)> {
        let s = self.get("span")?;
        Some((s.get("start")?.num("idx")?, s.get("end")?.num("idx")?))
    }
}

/// A node with a span, where it stands and its tokens: the first and the one after the last.
struct Spot<'a> {
    v: &'a V,
    parent: &'a V,
    field: &'a str,
    from: usize,
    to: usize,
    /// what `from` and `to` of the nearest node around it with a span are
    within: Option<(usize, usize)>,
}

fn spots<'a>(v: &'a V, parent: &'a V, field: &'a str, within: Option<(usize, usize)>, m: &Map, out: &mut Vec<Spot<'a>>) -> Result<(), String> {
    match v {
        V::At(_) => {}
        V::Li(l) | V::Tu(_, l) => {
            for x in l {
                spots(x, parent, field, within, m, out)?;
            }
        }
        V::St(n, f) => {
            let mut now = within;
            if let Some((a, b)) = v.chars() {
                if m.at.is_empty() {
                    return Ok(());
                }
                let from = m.at.partition_point(|t| t.0 < a);
                let last = m.at.partition_point(|t| t.1 < b);
                if m.at.get(from).map(|t| t.0) != Some(a) || m.at.get(last).map(|t| t.1) != Some(b) || last < from {
                    return Err(format!("the span of {} is {}..{}, which is not a run of tokens", n, a, b));
                }
                if let Some((c, d)) = within {
                    if from < c || last + 1 > d {
                        return Err(format!("the span of {} (tokens {}..={}) reaches out of the {} it is part of (tokens {}..{})", n, from, last, parent.name(), c, d));
                    }
                }
                out.push(Spot { v, parent, field, from, to: last + 1, within });
                now = Some((from, last + 1));
            }
            for (k, x) in f {
                if k != "span" {
                    spots(x, v, k, now, m, out)?;
                }
            }
        }
    }
    Ok(())
}

fn opens(t: &str) -> i32 {
    match t {
        "(" | "[" | "{" => 1,
        ")" | "]" | "}" => -1,
        _ if t.starts_with('`') && t.ends_with("${") => 1,
        _ if t.starts_with('}') && t.ends_with('`') => -1,
        _ => 0,
    }
}

/// What the first and last token of a node of this kind are.
fn edges(name: &str) -> (&'static [&'static str], &'static [&'static str]) {
    match name {
        "BlockStatement" | "ObjectExpression" | "ObjectPattern" | "ObjectAssignmentPattern" => (&["{"], &["}"]),
        "ArrayExpression" | "ArrayPattern" | "ArrayAssignmentPattern" => (&["["], &["]"]),
        "SpreadElement" | "RestElement" | "AssignmentRestElement" => (&["..."], &[]),
        "VariableDeclaration" => (&["var", "let", "const"], &[]),
        "ClassDeclaration" | "ClassExpression" => (&["class"], &["}"]),
        "FunctionDeclaration" => (&["function"], &["}"]),
        "FunctionExpression" => (&[], &["}"]),
        "AsyncFunctionExpression" => (&[], &["}"]),
        "AsyncArrowFunctionExpression" => (&["async"], &[]),
        "AwaitExpression" => (&["await"], &[]),
        "YieldExpression" => (&["yield"], &[]),
        "CallExpression" => (&[], &[")"]),
        "ComputedMemberExpression" => (&[], &["]"]),
        "NewExpression" | "MetaProperty" => (&["new", "import"], &[]),
        "ThisExpression" => (&["this"], &["this"]),
        "Super" => (&["super"], &["super"]),
        "IfStatement" => (&["if"], &[]),
        "ForStatement" | "ForInStatement" | "ForOfStatement" => (&["for"], &[]),
        "WhileStatement" => (&["while"], &[]),
        "DoWhileStatement" => (&["do"], &[]),
        "WithStatement" => (&["with"], &[]),
        "SwitchStatement" => (&["switch"], &["}"]),
        "TryStatement" => (&["try"], &["}"]),
        "ThrowStatement" => (&["throw"], &[]),
        "ReturnStatement" => (&["return"], &[]),
        "BreakStatement" => (&["break"], &[]),
        "ContinueStatement" => (&["continue"], &[]),
        "DebuggerStatement" => (&["debugger"], &[]),
        "EmptyStatement" => (&[";"], &[";"]),
        "ImportDeclaration" => (&["import"], &[]),
        "ExportAllDeclaration" | "ExportDefaultDeclaration" | "ExportNamedDeclaration" => (&["export"], &[]),
        _ => (&[], &[]),
    }
}

const STATEMENTS: &[&str] = &[
    "BlockStatement", "EmptyStatement", "ExpressionStatement", "IfStatement", "ForStatement", "ForInStatement", "ForOfStatement", "WhileStatement",
    "DoWhileStatement", "WithStatement", "SwitchStatement", "TryStatement", "ThrowStatement", "ReturnStatement", "BreakStatement", "ContinueStatement",
    "DebuggerStatement", "LabeledStatement", "VariableDeclaration", "FunctionDeclaration", "AsyncFunctionDeclaration", "ClassDeclaration",
];
/// Nodes that stand in an expression; a name may stand there instead.
const EXPRESSIONS: &[&str] = &[
    "ArrayExpression", "ArrowFunctionExpression", "AssignmentExpression", "AsyncArrowFunctionExpression", "AsyncFunctionExpression", "AwaitExpression",
    "BinaryExpression", "LogicalExpression", "CallExpression", "ClassExpression", "ClassDeclaration", "ComputedMemberExpression", "ConditionalExpression",
    "FunctionExpression", "Literal", "NewExpression", "ObjectExpression", "RegexLiteral", "SequenceExpression", "StaticMemberExpression",
    "TaggedTemplateExpression", "TemplateLiteral", "ThisExpression", "UnaryExpression", "UpdateExpression", "YieldExpression", "MetaProperty",
    "ArrayPattern", "ObjectPattern", "ArrayAssignmentPattern", "ObjectAssignmentPattern",
];

const NAME: &str = "qzq";

#[derive(Clone, Copy, PartialEq, Debug)]
enum By {
    /// a name in its place
    Name,
    /// the same node, renamed, and all that share its span
    Rename,
    Block,
    /// a shorthand property
    Property,
}

fn by(s: &Spot) -> Option<By> {
    let n = s.v.name();
    let p = s.parent.name();
    let export = p.starts_with("Export") && p.ends_with("Declaration");
    let body = match (p, s.field) {
        ("Program" | "Module" | "BlockStatement", "body") | ("SwitchCase", "consequent") | ("IfStatement", "consequent" | "alternate") => true,
        ("ForStatement" | "ForInStatement" | "ForOfStatement" | "WhileStatement" | "DoWhileStatement" | "WithStatement" | "LabeledStatement", "body") => true,
        _ => false,
    };
    if matches!(n, "Identifier" | "BindingIdentifier") {
        if p == "MetaProperty" || s.v.get("name") == Some(&V::At("\"constructor\"".into())) || s.field == "label" {
            return None;
        }
        if p == "UnaryExpression" && s.parent.get("operator").map(|o| o.name()) == Some("\"delete\"") {
            return None;
        }
        return Some(By::Rename);
    }
    if body {
        // not a directive: it decides over what follows
        let directive = n == "ExpressionStatement" && s.v.get("expression").map(|e| e.name()) == Some("Literal");
        return if STATEMENTS.contains(&n) && !directive { Some(By::Block) } else { None };
    }
    if n == "BlockStatement" && !export {
        return Some(By::Block);
    }
    if p == "ObjectExpression" && matches!(n, "Property" | "SpreadElement") {
        return Some(By::Property);
    }
    if n == "SpreadElement" {
        return Some(By::Name);
    }
    if !EXPRESSIONS.contains(&n) || export {
        return None;
    }
    match (p, s.field) {
        ("ImportDeclaration", _) | ("MetaProperty", _) | ("TaggedTemplateExpression", "quasi") | ("ForStatement", "init") => None,
        ("ExpressionStatement", _) if n == "Literal" => None,
        ("UnaryExpression", _) if s.parent.get("operator").map(|o| o.name()) == Some("\"delete\"") => None,
        // the value of a method is its parameters and body
        ("Property" | "MethodDefinition", "value") if matches!(n, "FunctionExpression" | "AsyncFunctionExpression") => {
            let kind = s.parent.get("kind").map(|k| k.name());
            let method = p == "MethodDefinition" || s.parent.get("method").map(|k| k.name()) == Some("true") || matches!(kind, Some("\"get\"" | "\"set\""));
            if method { None } else { Some(By::Name) }
        }
        _ => Some(By::Name),
    }
}

/// Whether the tree `b` is `a` with what was replaced replaced.
struct Same<'a> {
    name: &'a str,
    span: (usize, usize),
    by: By,
    key: bool,
    done: usize,
}

impl Same<'_> {
    fn differ(&mut self, a: &V, b: &V) -> Option<String> {
        let show = |v: &V| clip(&format!("{:?}", v)).to_string();
        let no = |a: &V, b: &V| Some(format!("{} became {}", brief(a), brief(b)));
        if a.chars() == Some(self.span) {
            let hit = match self.by {
                By::Rename => matches!(a.name(), "Identifier" | "BindingIdentifier"),
                _ => a.name() == self.name && self.done == 0,
            };
            if hit {
                self.done += 1;
                let ok = match self.by {
                    By::Block => b.name() == "BlockStatement" && b.get("body") == Some(&V::Li(vec![])),
                    By::Rename => a.name() == b.name() && b.get("name").map(|n| n.name()) == Some("\"qzq\""),
                    By::Property => {
                        let named = |v: Option<&V>| v.and_then(|v| v.get("name")).map(|n| n.name()) == Some("\"qzq\"");
                        b.name() == "Property" && named(b.get("key")) && (b.get("value") == Some(&V::At("None".into())) || named(b.get("value"))) && b.get("shorthand") == Some(&V::At("true".into()))
                    }
                    // a key in a pattern is always told as a literal
                    By::Name if self.key => matches!(b.name(), "Identifier" | "Literal") && format!("{:?}", b).contains(NAME),
                    By::Name => matches!(b.name(), "Identifier" | "BindingIdentifier") && b.get("name").map(|n| n.name()) == Some("\"qzq\""),
                };
                return if ok { None } else { no(a, b) };
            }
        }
        match (a, b) {
            (V::St(x, f), V::St(y, g)) if x == y => {
                let keep = |k: &&(String, V)| k.0 != "span" && k.0 != "assign_target_type";
                let (f, g): (Vec<_>, Vec<_>) = (f.iter().filter(keep).collect(), g.iter().filter(keep).collect());
                if f.len() != g.len() {
                    return no(a, b);
                }
                for (u, v) in f.iter().zip(&g) {
                    if u.0 != v.0 {
                        return no(a, b);
                    }
                    if let Some(d) = self.differ(&u.1, &v.1) {
                        return Some(d);
                    }
                }
                None
            }
            (V::Li(l), V::Li(r)) | (V::Tu(_, l), V::Tu(_, r)) => {
                if a.name() != b.name() {
                    return no(a, b);
                }
                for (u, v) in l.iter().zip(r) {
                    if let Some(d) = self.differ(u, v) {
                        return Some(d);
                    }
                }
                if l.len() != r.len() {
                    return Some(format!("a list of {} became one of {}: {} and {}", l.len(), r.len(), show(a), show(b)));
                }
                None
            }
            (V::At(x), V::At(y)) if x == y => None,
            _ => no(a, b),
        }
    }
}

fn brief(v: &V) -> String {
    match v {
        V::St(n, f) => match f.iter().find(|x| x.0 == "name") {
            Some((_, V::At(a))) => format!("{} {}", n, a),
            _ => n.clone(),
        },
        _ => clip(&format!("{:?}", v)).to_string(),
    }
}

fn tree(goal: Goal, via: Via, text: &str) -> (Res, Option<V>) {
    let (r, m) = measured(goal, via, text.to_string(), 2 * step_limit(text.chars().count()));
    distinct(m.hash);
    let v = match &r {
        Res::Ok(n) => guarded(|| gsim_render::debug(n)).ok().and_then(|d| read(&d)),
        _ => None,
    };
    (r, v)
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "a generated valid program in a random layout; every span of its tree must be a run of tokens with its brackets, inside of the span of the node around it, and begin and end with what such a node begins and ends with; then the tokens of a node are overwritten in transit by a name (an expression, pattern or identifier) or by an empty block (a statement or body), and the tree must be the former one with exactly that node replaced; distinct_nontrivial counts runs whose sequence of basic-block edges was new"
    }
    fn batch(&self) -> usize {
        100
    }
    fn total(&self, cx: &Ctx) -> u64 {
        if cx.thorough { 1_500_000 } else { 40_000 }
    }
    fn gen(&self, cx: &Ctx, idx: u64) -> Case {
        let mut rng = Rng::stream(cx.seed, "C15", idx);
        let g = goal(&mut rng);
        let cfg = Cfg { goal: g, depth: rng.range(1, 6), literals: true, dict: rng.chance(1, 2), independent: rng.chance(1, 3) };
        let mut ge = Gen::new(Rng::new(rng.u64()), cfg, &cx.mined.words);
        let mut toks: Vec<Tok> = vec![];
        for _ in 0..rng.small(3) {
            toks.extend(ge.item().toks);
        }
        let seps = random_layout(&mut rng, cx, &toks);
        Case::Splice { goal: g, via: via(&mut rng), toks: toks.into_iter().map(|t| t.s).collect(), seps, pick: Some(rng.u64()) }
    }
    fn run(&self, _cx: &Ctx, c: &Case) -> Result<(), Fail> {
        let Case::Splice { goal, via, toks, seps, pick } = c else { return Ok(()) };
        let text = laid_out(toks, seps);
        let (ra, va) = tree(*goal, *via, &text);
        let Res::Ok(_) = ra else {
            add(Ct::skipped, 1);
            return Ok(());
        };
        let Some(va) = va else { return fail("render", format!("a tree cannot be rendered; {:?} {:?}", goal, clip(&text))) };
        let m = map(toks, seps);
        let root = V::At("nothing".into());
        let mut all = vec![];
        let show = || format!("{:?} {:?}", goal, clip(&text));
        if let Err(e) = spots(&va, &root, "", None, &m, &mut all) {
            return fail("span", format!("{}; {}", e, show()));
        }
        add(Ct::spans, all.len() as u64);
        let own = |s: &Spot| clip(&laid_out(&toks[s.from..s.to], &[String::new()])).to_string();
        // runs of tokens with their brackets
        for s in &all {
            let mut d = 0;
            let mut low = 0;
            for t in &toks[s.from..s.to] {
                d += opens(t);
                low = low.min(d);
            }
            if d != 0 || low < 0 {
                return fail("brackets", format!("the span of {} is {:?}, with brackets that do not match; {}", s.v.name(), own(s), show()));
            }
            let (first, last) = edges(s.v.name());
            let (a, b) = (toks[s.from].as_str(), toks[s.to - 1].as_str());
            if !first.is_empty() && !first.contains(&a) || !last.is_empty() && !last.contains(&b) {
                return fail("edge", format!("the span of {} is {:?}; {}", s.v.name(), own(s), show()));
            }
            if s.within.is_none() && (s.from, s.to) != (0, toks.len()) {
                return fail("edge", format!("the span of {} is {:?}, not the whole source; {}", s.v.name(), own(s), show()));
            }
        }
        // one inside of the other, or apart
        let mut order: Vec<(usize, usize)> = all.iter().map(|s| (s.from, s.to)).collect();
        order.sort_by_key(|&(a, b)| (a, usize::MAX - b));
        let mut stack: Vec<(usize, usize)> = vec![];
        for (a, b) in order {
            while stack.last().map_or(false, |t| t.1 <= a) {
                stack.pop();
            }
            if let Some(&(_, d)) = stack.last() {
                if b > d {
                    return fail("overlap", format!("two spans overlap in part (tokens {}.. and ..{}); {}", a, d, show()));
                }
            }
            stack.push((a, b));
        }
        // overwritten
        let can: Vec<(&Spot, By)> = all.iter().filter_map(|s| by(s).map(|b| (s, b))).collect();
        if can.is_empty() {
            return Ok(());
        }
        let which: Vec<usize> = match pick {
            None => (0..can.len()).collect(),
            Some(p) => {
                let mut r = Rng::new(*p);
                (0..6).map(|_| r.below(can.len())).collect()
            }
        };
        for i in which {
            let (s, by) = can[i];
            let mut t2 = toks[..s.from].to_vec();
            t2.push(if by == By::Block { "{}".into() } else { format!(" {} ", NAME) });
            t2.extend_from_slice(&toks[s.to..]);
            let mut s2 = seps[..=s.from.min(seps.len() - 1)].to_vec();
            s2.extend(seps.iter().skip(s.to).cloned());
            let now = laid_out(&t2, &s2);
            let (rb, vb) = tree(*goal, *via, &now);
            add(Ct::splices, 1);
            add(Ct::f_node_overwritten, 1);
            let how = || format!("{:?} of {} in {} overwritten by {:?}: {:?} became {:?}", own(s), s.v.name(), s.parent.name(), t2[s.from], clip(&text), clip(&now));
            let Some(vb) = vb else {
                let why = match &rb {
                    Res::Err(e) => guarded(|| format!("error {:?}", e.errortype)).unwrap_or_else(|p| p),
                    Res::Panic(p) => format!("panic {}", p),
                    _ => "nothing".into(),
                };
                return fail("verdict", format!("the program is no longer one ({}); {:?} {}", why, goal, how()));
            };
            let mut same = Same { name: s.v.name(), span: s.v.chars().unwrap(), by, key: s.field == "key", done: 0 };
            if let Some(d) = same.differ(&va, &vb) {
                return fail("tree", format!("more or less than that node changed: {}; {:?} {}", d, goal, how()));
            }
        }
        Ok(())
    }
    fn crash(&self, _end: &End) -> bool {
        false
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let Case::Splice { goal, via, toks, seps, pick } = c else { return vec![] };
        let mk = |via: Via, toks: Vec<String>, seps: Vec<String>| Case::Splice { goal: *goal, via, toks, seps, pick: None };
        let mut out = vec![];
        if *via != Via::Text || pick.is_some() {
            out.push(mk(Via::Text, toks.clone(), seps.clone()));
        }
        let n = toks.len();
        if pick.is_none() {
            let ids: Vec<usize> = (0..n).collect();
            for keep in shrink_list(&ids) {
                let mut s: Vec<String> = keep.iter().map(|&i| if seps[i].is_empty() { " ".to_string() } else { seps[i].clone() }).collect();
                s.push(seps[n].clone());
                out.push(mk(*via, keep.iter().map(|&i| toks[i].clone()).collect(), s));
            }
        }
        let calm: Vec<String> = seps.iter().map(|s| if s.is_empty() { String::new() } else { " ".into() }).collect();
        if calm != *seps {
            out.push(mk(*via, toks.clone(), calm.clone()));
            for i in 0..=n {
                if calm[i] != seps[i] && out.len() < 300 {
                    let mut s = seps.clone();
                    s[i] = calm[i].clone();
                    out.push(mk(*via, toks.clone(), s));
                }
            }
        }
        out
    }
}
