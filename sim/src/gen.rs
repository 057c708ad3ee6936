//! Seeded generator of valid programs, as token lists that know which
//! constructs are open after every token and which tokens cannot end a program.
use crate::exec::Goal;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Kw,
    Id,
    Num,
    Str,
    Tmpl,
    Re,
    P,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub k: K,
    /// a program cannot end right after this token
    pub mc: bool,
    /// pseudo-brackets opened (+) / closed (-) with this token: `?`..`:`, do..while, try..catch
    pub open: i32,
    /// no line terminator may be put before this token
    pub no_nl: bool,
    /// 1: a semicolon that ends a statement, 2: that ends a do statement
    pub term: u8,
    /// groups that start with this token, and that end with it (only if asked for)
    pub gs: Vec<u32>,
    pub ge: Vec<u32>,
}

/// A complete top-level item.
#[derive(Clone, Debug, Default)]
pub struct Item {
    pub toks: Vec<Tok>,
    /// ESTree type expected in the program body
    pub node: &'static str,
    /// may appear twice in one program
    pub repeatable: bool,
    /// ends with ';'
    pub semi: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub goal: Goal,
    /// maximal syntactic depth
    pub depth: usize,
    /// strings, templates and regexps allowed (slash- and quote-free otherwise)
    pub literals: bool,
    /// names and words mined from the tree under test
    pub dict: bool,
    /// only items that may be repeated and reordered freely
    pub independent: bool,
}

pub struct Gen<'a> {
    pub rng: Rng,
    pub cfg: Cfg,
    pub out: Vec<Tok>,
    dict: &'a [String],
    uniq: usize,
    depth: usize,
    func: usize,
    asyn: bool,
    gener: bool,
    strict: bool,
    loops: usize,
    switches: usize,
    labels: Vec<String>,
    no_in: bool,
    class_body: bool,
    derived_ctor: bool,
    params: bool,
    no_arrow: bool,
    /// a division may come after any operand (not only names and numbers)
    pub divide: bool,
    /// groups are noted
    pub groups: bool,
    /// of each group: is it an expression on its own?
    pub whole: Vec<bool>,
    /// where the last `new` without arguments begins and ends
    bare: (usize, usize),
}

const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "z", "foo", "bar", "baz", "i", "j", "k", "n", "obj", "value", "result", "$", "_", "$1",
    "_private", "camelCase", "CONSTANT_NAME", "get", "set", "of", "from", "as", "constructor", "prototype",
    "undefined", "NaN", "window", "document", "Math", "JSON", "length", "é", "变量", "ñandú", "ключ", "𠮷", "a1b2c3",
    "aVeryLongIdentifierNameThatGoesOnAndOnForQuiteAWhileSoThatBuffersGrow", "target", "meta", "name", "key",
    "console", "log", "static1", "let1", "yield1", "await1", "async1", "implements1", "In", "IF", "newline",
    "thisArg", "superb", "nullable", "trueish", "falsey", "instanceofx", "typeofy", "dot", "classy", "Var",
];
const PROPS: &[&str] = &[
    "a", "b", "length", "x", "default", "if", "class", "function", "new", "return", "typeof", "this",
    "get", "set", "async", "await", "of", "in", "instanceof", "yield", "let", "static", "enum", "then", "catch",
    "finally", "prototype", "$", "_", "é", "delete", "import", "export", "super", "with", "void", "var", "const",
];
const STR_PIECES: &[&str] = &[
    "", "a", "hello", "use", " ", "\\n", "\\t", "\\\\", "\\'", "\\\"", "\\u0041", "\\u{1F600}", "\\x41", "\\0", "é",
    "日本", "😀", "\\\n", "//", "/*", "*/", "${", "`", "}", "{", ")", "(", "]", ";", "\\r\\n", "\\b", "\\v", "\\f",
    "#!", "<!--", "-->", "0123456789", "the quick brown fox", "\\a", "\\/", "\t", "\u{a0}", "\\\r\n",
];
const TPL_PIECES: &[&str] = &[
    "", "a", "hello", " ", "\\n", "\\\\", "\\`", "\\$", "$", "{", "}", "é", "日本", "😀", "'", "\"", "//", "/*", "\\u0041",
    "\\u{41}", "\\x41", "0123456789", "$$", "the quick brown fox", ")", "]", "(", "\\0",
];
const TPL_NL: &[&str] = &["\n", "\n\n", "\r\n", "\n  line\n", "\\\n", "\\\r\n", "\\\u{2028}", "\u{2028}", "\\\n\\\n", "\r\n\\\r\n"];
const RE_PIECES: &[&str] = &[
    "a", "b+", "c*", "\\d", "\\w+", "\\/", "[abc]", "[^/]", "[a-z0-9]", "(x|y)", "(?:z)", "^", "$", ".", "\\.", "\\\\",
    "{2,3}", "\\u0041", "é", "\\s", "\\b", "(?=q)", "[/\\\\]", "\\(", "\\[", "=?", "'", "\"", "`",
];
const NUMS: &[&str] = &[
    "0", "1", "2", "7", "10", "42", "255", "256", "65535", "65536", "3.14", "0.5", ".5", "1.", "1e3", "1E+3", "1e-3",
    "2.5e10", "0x0", "0xFF", "0Xdead", "0b101", "0B1", "0o17", "0O7", "9007199254740993", "1.7976931348623157e308",
    "5e-324", "123456789012345678901234567890", "0x7fffffffffffffff", "4294967296", "2147483648", "1e400", "00", "07",
    "0.1234567890123456789",
];
const BINOPS: &[&str] = &[
    "+", "-", "*", "%", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "|", "^", "&&", "||",
    "instanceof", "in", "**", "/",
];
const ASSIGN: &[&str] = &[
    "=", "=", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>>=", "&=", "|=", "^=", "**=",
];
pub const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum",
    "export", "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null",
    "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield",
    "let", "static", "implements", "interface", "package", "private", "protected", "public", "await", "async", "eval",
    "arguments", "get", "set", "of", "target", "meta", "as", "from", "constructor", "undefined",
];

pub fn is_reserved(s: &str) -> bool {
    RESERVED.contains(&s)
}

pub fn is_plain_name(s: &str) -> bool {
    !s.is_empty()
        && s.len() <= 40
        && !RESERVED.contains(&s)
        && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$')
        && !s.chars().next().unwrap().is_ascii_digit()
}

impl<'a> Gen<'a> {
    pub fn new(rng: Rng, cfg: Cfg, dict: &'a [String]) -> Gen<'a> {
        let strict = cfg.goal == Goal::Module;
        Gen {
            rng,
            cfg,
            out: vec![],
            dict,
            uniq: 0,
            depth: 0,
            func: 0,
            asyn: false,
            gener: false,
            strict,
            loops: 0,
            switches: 0,
            labels: vec![],
            no_in: false,
            class_body: false,
            derived_ctor: false,
            params: false,
            no_arrow: false,
            groups: false,
            whole: vec![],
            divide: true,
            bare: (0, 0),
        }
    }

    // ------------------------------------------------------------ tokens

    fn tok(&mut self, s: &str, k: K, mc: bool) -> &mut Tok {
        self.out.push(Tok { s: s.to_string(), k, mc, open: 0, no_nl: false, term: 0, gs: vec![], ge: vec![] });
        self.out.last_mut().unwrap()
    }
    fn p(&mut self, s: &str) {
        self.tok(s, K::P, false);
    }
    /// the semicolon at the end of a statement
    fn semi(&mut self) {
        self.tok(";", K::P, false).term = 1;
    }
    /// punctuator that must be followed by something
    fn pm(&mut self, s: &str) {
        self.tok(s, K::P, true);
    }
    fn kw(&mut self, s: &str) {
        self.tok(s, K::Kw, false);
    }
    fn km(&mut self, s: &str) {
        self.tok(s, K::Kw, true);
    }
    fn no_nl(&mut self) {
        // the next token pushed must stay on this line: marked on the last pushed one's successor
        self.pending_no_nl();
    }
    fn pending_no_nl(&mut self) {
        self.out.push(Tok { s: String::new(), k: K::P, mc: false, open: 0, no_nl: true, term: 0, gs: vec![], ge: vec![] });
    }
    fn id(&mut self, s: &str) {
        self.tok(s, K::Id, false);
    }
    fn mc(&mut self) {
        if let Some(t) = self.out.last_mut() {
            t.mc = true;
        }
    }
    fn open(&mut self, d: i32) {
        if let Some(t) = self.out.last_mut() {
            t.open += d;
        }
    }

    fn fresh(&mut self, p: &str) -> String {
        self.uniq += 1;
        format!("{}{}", p, self.uniq)
    }

    fn name(&mut self) -> String {
        if self.cfg.dict && self.rng.chance(1, 12) {
            for _ in 0..4 {
                let d = self.rng.pick(self.dict).clone();
                if is_plain_name(&d) {
                    return d;
                }
            }
        }
        match self.rng.below(20) {
            0 => {
                let n = self.rng.log_range(1, 300);
                let mut s = String::from("vq");
                for _ in 0..n {
                    s.push((b'a' + self.rng.below(26) as u8) as char);
                }
                s
            }
            1 => format!("n{}", self.rng.below(100_000)),
            _ => self.rng.pick(NAMES).to_string(),
        }
    }

    fn name_tok(&mut self) {
        let n = self.name();
        self.id(&n);
    }

    fn string_text(&mut self) -> String {
        let q = if self.rng.chance(1, 2) { '"' } else { '\'' };
        let mut s = String::new();
        s.push(q);
        let n = match self.rng.below(40) {
            0 => self.rng.log_range(10, 400),
            _ => self.rng.below(4),
        };
        for _ in 0..n {
            let p = if self.cfg.dict && self.rng.chance(1, 8) {
                let d = self.rng.pick(self.dict).clone();
                d.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').collect()
            } else {
                self.rng.pick(STR_PIECES).to_string()
            };
            // legacy octal escapes: \0 must not be followed by a digit
            if s.ends_with("\\0") && p.starts_with(|c: char| c.is_ascii_digit()) {
                continue;
            }
            // a raw quote of the same kind would end the literal
            if p.len() == 1 && p.starts_with(q) {
                continue;
            }
            s.push_str(&p);
        }
        if s == format!("{}use strict", q) || s == format!("{}use asm", q) {
            s.push('!');
        }
        s.push(q);
        s
    }

    fn regex_text(&mut self) -> String {
        let mut s = String::from("/");
        for _ in 0..self.rng.range(1, 5) {
            let p = *self.rng.pick(RE_PIECES);
            if s.len() == 1 && (p.starts_with('*') || p.starts_with('/')) {
                continue;
            }
            s.push_str(p);
        }
        if s.len() == 1 {
            s.push('r');
        }
        s.push('/');
        for f in ["g", "i", "m", "u", "y", "s"] {
            if self.rng.chance(1, 6) {
                s.push_str(f);
            }
        }
        s
    }

    fn tpl_chunk(&mut self, nl: bool) -> String {
        let mut s = String::new();
        for _ in 0..self.rng.below(4) {
            if nl && self.rng.chance(1, 8) {
                s.push_str(*self.rng.pick(TPL_NL));
            } else {
                s.push_str(*self.rng.pick(TPL_PIECES));
            }
            // no accidental substitution start or octal escape
            if s.ends_with("${") {
                s.pop();
            }
            if s.ends_with("\\0") {
                s.push('z');
            }
        }
        if s.ends_with('$') {
            s.push('.');
        }
        s.replace("${", "$ {")
    }

    /// `nl`: the first piece may contain a line terminator
    fn template(&mut self, nl: bool) {
        let subs = if self.deep() { 0 } else { *self.rng.pick(&[0, 0, 1, 1, 2, 3]) };
        if subs == 0 {
            let c = self.tpl_chunk(nl);
            self.tok(&format!("`{}`", c), K::Tmpl, false);
            return;
        }
        let c = self.tpl_chunk(nl);
        self.tok(&format!("`{}${{", c), K::Tmpl, true);
        for i in 0..subs {
            self.expr();
            let c = self.tpl_chunk(true);
            if i + 1 < subs {
                self.tok(&format!("}}{}${{", c), K::Tmpl, true);
            } else {
                self.tok(&format!("}}{}`", c), K::Tmpl, false);
            }
        }
    }

    // ------------------------------------------------------------ expressions

    fn deep(&self) -> bool {
        self.depth >= self.cfg.depth || self.out.len() > 6000
    }

    fn with_depth(&mut self, f: impl FnOnce(&mut Self)) {
        self.depth += 1;
        f(self);
        self.depth -= 1;
    }

    /// Expression with commas.
    pub fn expr(&mut self) {
        let at = self.out.len();
        self.expr_inner();
        self.group(at, self.out.len(), true);
    }

    /// The tokens from `at` to before `end` are an expression on their own
    /// (`whole`), or would be one in parentheses only.
    fn group(&mut self, at: usize, end: usize, whole: bool) {
        if !self.groups || at >= end {
            return;
        }
        let id = self.whole.len() as u32;
        self.whole.push(whole);
        self.out[at].gs.push(id);
        self.out[end - 1].ge.push(id);
    }

    fn expr_inner(&mut self) {
        let from = self.out.len();
        self.assign();
        if !self.deep() && self.rng.chance(1, 12) {
            let mut at = vec![from];
            for _ in 0..self.rng.small(3) {
                self.pm(",");
                at.push(self.out.len());
                self.assign();
            }
            // all but the first or the last of three
            if at.len() > 2 {
                self.group(at[1], self.out.len(), false);
                self.group(from, at[at.len() - 1] - 1, false);
            }
        }
    }

    /// AssignmentExpression
    pub fn assign(&mut self) {
        let at = self.out.len();
        self.assign_inner();
        self.group(at, self.out.len(), true);
    }

    fn assign_inner(&mut self) {
        if self.deep() {
            return self.leaf();
        }
        self.depth += 1;
        let often = self.gener && !self.params && self.rng.chance(1, 6);
        match if often { 6 } else { self.rng.below(24) } {
            0..=2 => {
                // simple assignment
                self.lhs();
                let op = *self.rng.pick(ASSIGN);
                if op.starts_with('/') && !self.slash_ok() {
                    self.pm("=");
                } else {
                    self.pm(op);
                }
                self.assign();
            }
            3 => {
                self.conditional();
            }
            4..=5 if !self.params && !self.no_arrow => self.arrow(),
            6 if self.gener && !self.params => {
                self.kw("yield");
                match self.rng.below(4) {
                    0 => {
                        self.no_nl();
                        self.pm("*");
                        self.assign();
                    }
                    1 => (),
                    _ => {
                        self.no_nl();
                        self.assign();
                    }
                }
            }
            7 => {
                // destructuring assignment, parenthesised
                self.destructuring_assign();
            }
            _ => {
                self.binary();
            }
        }
        self.depth -= 1;
    }

    fn conditional(&mut self) {
        let last = self.binary();
        self.pm("?");
        self.open(1);
        let no_in = std::mem::replace(&mut self.no_in, false);
        self.assign();
        self.no_in = no_in;
        self.pm(":");
        self.open(-1);
        self.assign();
        if let Some(at) = last {
            self.group(at, self.out.len(), false);
        }
    }

    fn slash_ok(&self) -> bool {
        self.divide || matches!(self.out.last().map(|t| t.k), Some(K::Id) | Some(K::Num))
    }

    /// Where the last of several operands begins
    fn binary(&mut self) -> Option<usize> {
        let n = if self.deep() { 1 } else { *self.rng.pick(&[1, 1, 1, 2, 2, 3, 5]) };
        // the operands' places and the operators between them
        let mut at = vec![];
        let mut ops: Vec<&'static str> = vec![];
        for i in 0..n {
            if i > 0 {
                let mut op = *self.rng.pick(BINOPS);
                if op == "in" && self.no_in {
                    op = "+";
                }
                if op == "/" && !self.slash_ok() {
                    op = "*";
                }
                if op == "**" {
                    let t: &Tok = &self.out[at.last().map_or(0, |a: &(usize, usize)| a.0)];
                    if prefix(t, true) {
                        op = "-";
                    }
                }
                if op.as_bytes()[0].is_ascii_alphabetic() {
                    self.km(op);
                } else {
                    self.pm(op);
                }
                ops.push(op);
            }
            let s = self.out.len();
            self.unary();
            at.push((s, self.out.len()));
        }
        if n == 1 && self.rng.chance(1, 30) && !self.deep() {
            // exponentiation with plain operands
            self.pm("+");
            let s = self.out.len();
            self.name_tok();
            at.push((s, self.out.len()));
            self.pm("**");
            let s = self.out.len();
            self.unary_leaf();
            at.push((s, self.out.len()));
            ops.extend(["+", "**"]);
        }
        if self.groups && at.len() > 1 {
            let mut nodes = vec![];
            climb(&ops, &mut 0, 0, &mut nodes);
            for &(i, j) in &nodes {
                self.group(at[i].0, at[j].1, true);
            }
            for i in 0..at.len() {
                // operators before the first operand
                let mut from = at[i].0;
                let mut signs = 0;
                while from + 1 < at[i].1 && prefix(&self.out[from], self.asyn) {
                    from += 1;
                    signs += 1;
                }
                for j in i + 1..at.len() {
                    if !nodes.contains(&(i, j)) {
                        self.group(at[i].0, at[j].1, false);
                    }
                    // (an operator before a base of `**` is an error)
                    if signs > 0 && ops.get(j) != Some(&"**") {
                        self.group(from, at[j].1, false);
                    }
                }
            }
        }
        (at.len() > 1).then(|| at[at.len() - 1].0)
    }

    fn unary_leaf(&mut self) {
        self.leaf()
    }

    fn unary(&mut self) {
        let at = self.out.len();
        self.unary_inner();
        self.group(at, self.out.len(), true);
    }

    fn unary_inner(&mut self) {
        if self.deep() {
            return self.leaf();
        }
        self.depth += 1;
        let often = self.asyn && !self.params && self.rng.chance(1, 8);
        match if often { 5 } else { self.rng.below(20) } {
            0 => {
                let op = *self.rng.pick(&["!", "-", "+", "~"]);
                self.pm(op);
                self.unary();
            }
            1 => {
                let op = *self.rng.pick(&["typeof", "void"]);
                self.km(op);
                self.unary();
            }
            2 => {
                self.km("delete");
                let at = self.out.len();
                self.name_tok();
                self.pm(".");
                self.prop_name();
                self.group(at, self.out.len(), true);
            }
            3 => {
                let op = *self.rng.pick(&["++", "--"]);
                self.pm(op);
                self.lhs();
            }
            4 => {
                self.lhs();
                self.no_nl();
                let op = *self.rng.pick(&["++", "--"]);
                self.p(op);
            }
            5 if self.asyn && !self.params => {
                self.km("await");
                self.unary();
            }
            _ => self.call_expr(),
        }
        self.depth -= 1;
    }

    fn prop_name(&mut self) {
        let n = if self.rng.chance(1, 2) { self.rng.pick(PROPS).to_string() } else { self.name() };
        self.id(&n);
    }

    /// Simple assignment target: name, member.
    fn lhs(&mut self) {
        let at = self.out.len();
        self.lhs_inner();
        self.group(at, self.out.len(), true);
    }

    fn lhs_inner(&mut self) {
        match self.rng.below(6) {
            0 => {
                self.name_tok();
                self.pm(".");
                self.prop_name();
            }
            1 if !self.deep() => {
                self.name_tok();
                self.pm("[");
                self.with_depth(|g| {
                    let no_in = std::mem::replace(&mut g.no_in, false);
                    g.expr();
                    g.no_in = no_in;
                });
                self.p("]");
            }
            2 => {
                self.kw("this");
                self.pm(".");
                self.prop_name();
            }
            _ => self.name_tok(),
        }
    }

    fn call_expr(&mut self) {
        let at = self.out.len();
        self.primary();
        // arguments that follow belong to a `new` without any
        if self.bare == (at, self.out.len()) {
            return;
        }
        let n = *self.rng.pick(&[0, 0, 0, 1, 1, 2, 3]);
        // object/function/class/number primaries get no tail that would change their meaning
        if matches!(self.out.last(), Some(t) if t.k == K::Num) {
            return;
        }
        for _ in 0..n {
            if self.deep() {
                return;
            }
            self.group(at, self.out.len(), true);
            self.tail();
        }
    }

    fn tail(&mut self) {
        match self.rng.below(7) {
            0..=1 => {
                self.pm(".");
                self.prop_name();
            }
            2 => {
                self.pm("[");
                self.with_depth(|g| {
                    let no_in = std::mem::replace(&mut g.no_in, false);
                    g.expr();
                    g.no_in = no_in;
                });
                self.p("]");
            }
            3..=5 => self.args(),
            _ => {
                if self.cfg.literals {
                    self.template(true);
                } else {
                    self.args()
                }
            }
        }
    }

    fn args(&mut self) {
        self.pm("(");
        self.depth += 1;
        let no_in = std::mem::replace(&mut self.no_in, false);
        let n = self.list_len();
        for i in 0..n {
            if self.rng.chance(1, 10) {
                self.pm("...");
            }
            self.assign();
            if i + 1 < n || self.rng.chance(1, 12) {
                self.pm(",");
            }
        }
        self.no_in = no_in;
        self.depth -= 1;
        self.p(")");
    }

    fn list_len(&mut self) -> usize {
        if self.deep() {
            return self.rng.below(2);
        }
        match self.rng.below(60) {
            0 => self.rng.log_range(5, 40),
            _ => *self.rng.pick(&[0, 1, 1, 2, 2, 3]),
        }
    }

    fn leaf(&mut self) {
        match self.rng.below(10) {
            0..=3 => self.name_tok(),
            4..=5 => {
                let n = self.num();
                self.tok(&n, K::Num, false);
            }
            6 if self.cfg.literals => {
                let s = self.string_text();
                self.tok(&s, K::Str, false);
            }
            7 => {
                let w = *self.rng.pick(&["null", "true", "false", "this"]);
                self.kw(w);
            }
            _ => self.name_tok(),
        }
    }

    fn num(&mut self) -> String {
        match self.rng.below(6) {
            0 => format!("{}", self.rng.below(1_000_000)),
            1 => format!("{}.{}", self.rng.below(1000), self.rng.below(1000)),
            _ => loop {
                let n = *self.rng.pick(NUMS);
                // legacy octal only in sloppy code
                if self.strict && n.len() > 1 && n.starts_with('0') && n.as_bytes()[1].is_ascii_digit() {
                    continue;
                }
                return n.to_string();
            },
        }
    }

    fn primary(&mut self) {
        if self.deep() {
            return self.leaf();
        }
        self.depth += 1;
        let no_in = std::mem::replace(&mut self.no_in, false);
        match self.rng.below(30) {
            0..=1 => self.array(),
            2..=3 => self.object(),
            4..=5 => {
                self.pm("(");
                self.expr();
                self.p(")");
            }
            6 => self.function_expr(),
            7 => self.class_expr(),
            8 if self.cfg.literals => self.template(true),
            9 if self.cfg.literals => {
                let s = self.regex_text();
                self.tok(&s, K::Re, false);
            }
            10 => {
                let at = self.out.len();
                if self.new_expr() {
                    self.bare = (at, self.out.len());
                }
            }
            11 if self.func > 0 && !self.params => {
                self.km("new");
                self.pm(".");
                self.id("target");
            }
            12 if self.derived_ctor && !self.params => {
                self.km("super");
                self.pm(".");
                self.prop_name();
            }
            _ => {
                self.no_in = no_in;
                self.leaf()
            }
        }
        self.no_in = no_in;
        self.depth -= 1;
    }

    /// `new` with a callee that has no call in it outside brackets
    fn new_expr(&mut self) -> bool {
        self.km("new");
        let at = self.out.len();
        let mut bare_new = false;
        match self.rng.below(8) {
            0 if !self.deep() => {
                self.depth += 1;
                bare_new = self.new_expr();
                self.depth -= 1;
            }
            1 if !self.deep() => {
                self.pm("(");
                self.with_depth(|g| g.expr());
                self.p(")");
            }
            2 => self.kw("this"),
            3 if !self.deep() => self.class_expr(),
            4 if !self.deep() => self.function_expr(),
            _ => self.name_tok(),
        }
        // arguments that follow belong to an inner `new` without any
        let n = if bare_new { 0 } else { *self.rng.pick(&[0, 0, 1, 1, 2]) };
        for _ in 0..n {
            self.group(at, self.out.len(), true);
            match self.rng.below(4) {
                0 if !self.deep() => {
                    self.pm("[");
                    self.with_depth(|g| g.expr());
                    self.p("]");
                }
                1 if self.cfg.literals => self.template(true),
                _ => {
                    self.pm(".");
                    self.prop_name();
                }
            }
        }
        if bare_new || self.rng.chance(1, 5) {
            self.group(at, self.out.len(), true);
            return true;
        }
        self.group(at, self.out.len(), true);
        self.args();
        self.group(at, self.out.len(), false);
        false
    }

    fn array(&mut self) {
        self.pm("[");
        let n = self.list_len();
        for i in 0..n {
            match self.rng.below(12) {
                0 => {} // hole
                1 => {
                    self.pm("...");
                    self.assign();
                }
                _ => self.assign(),
            }
            if i + 1 < n || self.rng.chance(1, 6) {
                self.pm(",");
            }
        }
        self.p("]");
    }

    fn object(&mut self) {
        self.pm("{");
        let n = self.list_len();
        for i in 0..n {
            self.property();
            if i + 1 < n || self.rng.chance(1, 6) {
                self.pm(",");
            }
        }
        self.p("}");
    }

    fn property_key(&mut self) {
        match self.rng.below(8) {
            0 if self.cfg.literals => {
                let s = self.string_text();
                self.tok(&s, K::Str, false);
            }
            1 => {
                let n = self.num();
                self.tok(&n, K::Num, false);
            }
            2 if !self.deep() => {
                self.pm("[");
                self.with_depth(|g| g.assign());
                self.p("]");
            }
            _ => {
                let n = loop {
                    let n = if self.rng.chance(1, 2) { self.rng.pick(PROPS).to_string() } else { self.name() };
                    // `get`, `set`, `async` and `static` start accessors
                    if !matches!(n.as_str(), "get" | "set" | "async" | "static" | "__proto__") {
                        break n;
                    }
                };
                self.id(&n);
            }
        }
    }

    fn property(&mut self) {
        match self.rng.below(12) {
            0..=2 => {
                // shorthand
                let n = loop {
                    let n = self.name();
                    if !matches!(n.as_str(), "get" | "set" | "async") {
                        break n;
                    }
                };
                self.id(&n);
            }
            3 if !self.deep() => {
                self.property_key();
                self.method_tail(false, false, 3);
            }
            4 if !self.deep() => {
                self.id("get");
                self.plain_key();
                self.method_tail(false, false, 0);
            }
            5 if !self.deep() => {
                self.id("set");
                self.plain_key();
                self.method_tail(false, false, 1);
            }
            6 if !self.deep() => {
                self.pm("...");
                self.assign();
            }
            7 if !self.deep() && self.rng.chance(1, 3) => {
                if self.rng.chance(1, 2) {
                    self.pm("*");
                    self.odd_key(true);
                    self.method_tail(false, true, 3);
                } else {
                    self.id("async");
                    self.mc();
                    self.no_nl();
                    self.odd_key(false);
                    self.method_tail(true, false, 3);
                }
            }
            _ => {
                self.property_key();
                self.pm(":");
                self.assign();
            }
        }
    }

    /// Key after a word or sign that says what the method is.
    fn odd_key(&mut self, computed: bool) {
        match self.rng.below(12) {
            0 => {
                let n = *self.rng.pick(&["get", "set", "async", "of", "if", "new", "class", "in"]);
                self.id(n);
            }
            1 if computed && !self.deep() => {
                self.pm("[");
                let no_in = std::mem::replace(&mut self.no_in, false);
                self.with_depth(|g| g.assign());
                self.no_in = no_in;
                self.pm("]");
            }
            _ => self.plain_key(),
        }
    }

    fn plain_key(&mut self) {
        if self.cfg.literals && self.rng.chance(1, 6) {
            if self.rng.chance(1, 2) {
                let n = self.rng.below(100_000).to_string();
                self.tok(&n, K::Num, false);
            } else {
                let n = format!("'{} {}'", self.name(), self.rng.below(1000));
                self.tok(&n, K::Str, false);
            }
            return;
        }
        let n = loop {
            let n = self.name();
            if !matches!(n.as_str(), "get" | "set" | "async" | "static" | "constructor" | "prototype") {
                break n;
            }
        };
        self.id(&n);
    }

    /// "(" params ")" "{" body "}"
    fn method_tail(&mut self, asyn: bool, gener: bool, max_params: usize) {
        let save = (self.func, self.asyn, self.gener, self.loops, self.switches, self.strict, self.no_in, self.no_arrow);
        let labels = std::mem::take(&mut self.labels);
        let derived = self.derived_ctor;
        let params = self.params;
        self.func += 1;
        self.asyn = asyn;
        self.gener = gener;
        self.loops = 0;
        self.switches = 0;
        self.no_in = false;
        self.no_arrow = false;
        self.params = true;
        self.pm("(");
        let n = match max_params {
            0 => 0,
            1 => 1,
            m => self.list_len().min(if self.rng.chance(1, 30) { 40 } else { m + 2 }),
        };
        let simple = self.param_list(n, max_params > 1);
        self.pm(")");
        self.params = false;
        self.pm("{");
        if simple && self.rng.chance(1, 12) {
            self.tok("\"use strict\"", K::Str, false);
            self.semi();
            self.strict = true;
            self.body();
            self.strict = save.5;
        } else {
            self.body();
        }
        self.p("}");
        (self.func, self.asyn, self.gener, self.loops, self.switches, self.strict, self.no_in, self.no_arrow) = save;
        self.labels = labels;
        self.derived_ctor = derived;
        self.params = params;
    }

    fn param_list(&mut self, n: usize, rest: bool) -> bool {
        let mut simple = true;
        for i in 0..n {
            let last = i + 1 == n;
            if rest && last && self.rng.chance(1, 8) {
                self.pm("...");
                let v = self.fresh("r");
                self.id(&v);
                simple = false;
                break;
            }
            match self.rng.below(8) {
                0 if !self.deep() => {
                    self.binding_pattern();
                    simple = false;
                    if self.rng.chance(1, 3) {
                        self.pm("=");
                        self.leaf();
                    }
                }
                1 => {
                    let v = self.fresh("p");
                    self.id(&v);
                    self.pm("=");
                    self.with_depth(|g| g.assign());
                    simple = false;
                }
                _ => {
                    let v = self.fresh("p");
                    self.id(&v);
                }
            }
            if !last {
                self.pm(",");
            }
        }
        simple
    }

    fn body(&mut self) {
        let n = if self.deep() { self.rng.below(2) } else { *self.rng.pick(&[0, 1, 1, 2, 3]) };
        self.depth += 1;
        for _ in 0..n {
            self.stmt(false);
        }
        self.depth -= 1;
    }

    fn function_expr(&mut self) {
        match self.rng.below(3) {
            0 => {
                self.kw("async");
                self.no_nl();
                self.km("function");
                if self.rng.chance(1, 2) {
                    let n = self.fresh("f");
                    self.id(&n);
                    self.mc();
                }
                // giron does not accept await in the body of an async function expression
                self.method_tail(false, false, 3);
            }
            _ => {
                self.km("function");
                if self.rng.chance(1, 2) {
                    let n = self.fresh("f");
                    self.id(&n);
                    self.mc();
                }
                self.method_tail(false, false, 3);
            }
        }
    }

    fn class_expr(&mut self) {
        self.km("class");
        let n = self.fresh("K");
        self.id(&n);
        self.mc();
        self.class_tail();
    }

    fn class_tail(&mut self) {
        let strict = std::mem::replace(&mut self.strict, true);
        let mut derived = false;
        if self.rng.chance(1, 3) {
            self.km("extends");
            match self.rng.below(4) {
                0 if !self.deep() => {
                    let at = self.out.len();
                    self.with_depth(|g| {
                        let no_in = std::mem::replace(&mut g.no_in, false);
                        g.name_tok();
                        for _ in 0..g.rng.range(1, 2) {
                            g.group(at, g.out.len(), true);
                            g.tail();
                        }
                        g.no_in = no_in;
                    });
                    self.group(at, self.out.len(), true);
                }
                1 if !self.deep() => {
                    self.pm("(");
                    self.with_depth(|g| {
                        let no_in = std::mem::replace(&mut g.no_in, false);
                        g.expr();
                        g.no_in = no_in;
                    });
                    self.p(")");
                }
                _ => self.name_tok(),
            }
            self.mc();
            derived = true;
        }
        self.pm("{");
        let save = std::mem::replace(&mut self.class_body, true);
        let n = if self.deep() { 0 } else { *self.rng.pick(&[0, 1, 2, 3]) };
        let mut ctor = false;
        self.depth += 1;
        for _ in 0..n {
            match self.rng.below(8) {
                0 if !ctor => {
                    ctor = true;
                    self.id("constructor");
                    let d = std::mem::replace(&mut self.derived_ctor, derived);
                    self.method_tail(false, false, 3);
                    self.derived_ctor = d;
                }
                1 => {
                    self.id("get");
                    self.odd_key(true);
                    self.method_tail(false, false, 0);
                }
                2 => {
                    self.id("set");
                    self.odd_key(true);
                    self.method_tail(false, false, 1);
                }
                3 => {
                    self.pm("*");
                    self.odd_key(true);
                    self.method_tail(false, true, 3);
                }
                4 if self.rng.chance(1, 2) => self.p(";"),
                _ => {
                    self.plain_key();
                    self.method_tail(false, false, 3);
                }
            }
        }
        self.depth -= 1;
        self.class_body = save;
        self.p("}");
        self.strict = strict;
    }

    fn arrow(&mut self) {
        let save = (self.func, self.asyn, self.gener, self.loops, self.switches, self.params);
        let labels = std::mem::take(&mut self.labels);
        let mut asyn = false;
        match self.rng.below(5) {
            0 => {
                let v = self.fresh("p");
                self.id(&v);
            }
            1 => {
                asyn = true;
                self.kw("async");
                self.no_nl();
                if self.rng.chance(1, 4) {
                    let v = self.fresh("p");
                    self.id(&v);
                    self.mc();
                } else {
                    self.pm("(");
                    self.arrow_params();
                    self.p(")");
                }
            }
            _ => {
                self.pm("(");
                let only = self.arrow_params();
                self.p(")");
                if only {
                    // no expression: the arrow must follow
                    self.mc();
                }
            }
        }
        self.no_nl();
        self.pm("=>");
        self.loops = 0;
        self.switches = 0;
        self.gener = false;
        self.asyn = asyn;
        if self.rng.chance(1, 2) {
            self.func += 1;
            self.pm("{");
            let no_in = std::mem::replace(&mut self.no_in, false);
            let na = std::mem::replace(&mut self.no_arrow, false);
            self.body();
            self.no_in = no_in;
            self.no_arrow = na;
            self.p("}");
        } else {
            let at = self.out.len();
            self.assign();
            if self.out[at].s == "{" {
                // an object literal body needs parentheses
                let t = Tok { s: "(".into(), k: K::P, mc: true, open: 0, no_nl: false, term: 0, gs: vec![], ge: vec![] };
                self.out.insert(at, t);
                self.p(")");
            }
        }
        (self.func, self.asyn, self.gener, self.loops, self.switches, self.params) = save;
        self.labels = labels;
    }

    /// Are they parameters only (not an expression in parentheses)?
    fn arrow_params(&mut self) -> bool {
        let n = *self.rng.pick(&[0, 1, 2, 2, 3]);
        for i in 0..n {
            let v = self.fresh("p");
            if i + 1 == n && self.rng.chance(1, 8) {
                self.pm("...");
                self.id(&v);
                return true;
            }
            match self.rng.below(8) {
                0 => {
                    self.id(&v);
                    self.pm("=");
                    self.leaf();
                }
                1 => {
                    self.pm("{");
                    let k = self.fresh("q");
                    self.id(&k);
                    self.p("}");
                }
                2 => {
                    self.pm("[");
                    self.id(&v);
                    self.p("]");
                }
                _ => self.id(&v),
            }
            if i + 1 < n {
                self.pm(",");
            }
        }
        n == 0
    }

    fn destructuring_assign(&mut self) {
        self.pm("(");
        if self.rng.chance(1, 2) {
            self.pm("[");
            let n = self.rng.range(1, 3);
            for i in 0..n {
                self.lhs();
                if i + 1 < n {
                    self.pm(",");
                }
            }
            self.p("]");
        } else {
            self.pm("{");
            let n = self.rng.range(1, 3);
            for i in 0..n {
                let v = self.fresh("q");
                self.id(&v);
                if self.rng.chance(1, 2) {
                    self.pm(":");
                    self.lhs();
                }
                if i + 1 < n {
                    self.pm(",");
                }
            }
            self.p("}");
        }
        self.pm("=");
        let no_in = std::mem::replace(&mut self.no_in, false);
        self.assign();
        self.no_in = no_in;
        self.p(")");
    }

    // ------------------------------------------------------------ bindings

    fn binding_pattern(&mut self) {
        self.depth += 1;
        if self.rng.chance(1, 2) {
            self.pm("[");
            let n = self.rng.range(1, 3);
            for i in 0..n {
                match self.rng.below(6) {
                    0 => {}
                    1 if i + 1 == n => {
                        self.pm("...");
                        let v = self.fresh("d");
                        self.id(&v);
                        break;
                    }
                    2 if !self.deep() => self.binding_pattern(),
                    _ => {
                        let v = self.fresh("d");
                        self.id(&v);
                        if self.rng.chance(1, 4) {
                            self.pm("=");
                            self.leaf();
                        }
                    }
                }
                if i + 1 < n {
                    self.pm(",");
                }
            }
            self.p("]");
        } else {
            self.pm("{");
            let n = self.rng.range(1, 3);
            for i in 0..n {
                match self.rng.below(6) {
                    0 if !self.deep() => {
                        self.plain_key();
                        self.pm(":");
                        self.binding_pattern();
                    }
                    1..=2 => {
                        self.plain_key();
                        self.pm(":");
                        let v = self.fresh("d");
                        self.id(&v);
                        if self.rng.chance(1, 4) {
                            self.pm("=");
                            self.leaf();
                        }
                    }
                    _ => {
                        let v = self.fresh("d");
                        self.id(&v);
                        if self.rng.chance(1, 4) {
                            self.pm("=");
                            self.leaf();
                        }
                    }
                }
                if i + 1 < n {
                    self.pm(",");
                }
            }
            self.p("}");
        }
        self.depth -= 1;
    }

    fn declarators(&mut self, pattern: bool, init: bool) {
        let n = match self.rng.below(40) {
            0 => self.rng.log_range(4, 30),
            _ => self.rng.small(3),
        };
        for i in 0..n {
            if pattern && self.rng.chance(1, 6) && !self.deep() {
                self.binding_pattern();
                self.pm("=");
                self.assign();
            } else {
                let v = self.fresh("v");
                self.id(&v);
                if init || self.rng.chance(2, 3) {
                    self.pm("=");
                    self.assign();
                }
            }
            if i + 1 < n {
                self.pm(",");
            }
        }
    }

    // ------------------------------------------------------------ statements

    fn block(&mut self) {
        self.pm("{");
        self.body();
        self.p("}");
    }

    /// a statement in single-statement position (loop body, if branch, label)
    fn sub_stmt(&mut self) {
        self.depth += 1;
        if self.deep() || self.rng.chance(1, 2) {
            self.block();
        } else {
            self.stmt(true);
        }
        self.depth -= 1;
    }

    fn loop_body(&mut self) {
        self.loops += 1;
        self.sub_stmt();
        self.loops -= 1;
    }

    /// Expression statement: must not start with a token that starts another statement.
    fn expr_stmt(&mut self) {
        let at = self.out.len();
        if self.cfg.literals && self.rng.chance(1, 16) {
            // a first token that the end of the statement before must not swallow
            if self.rng.chance(2, 3) {
                let s = self.regex_text();
                self.tok(&s, K::Re, false);
            } else {
                self.template(true);
            }
            if self.rng.chance(2, 3) {
                self.pm(".");
                self.prop_name();
                if self.rng.chance(1, 2) {
                    self.args();
                }
            }
        } else {
            self.expr();
        }
        let bad = {
            let t = &self.out[at];
            // a string alone would be a directive
            t.k == K::Str && (self.out.len() == at + 1 || self.rng.chance(1, 3)) || t.s == "{" || (t.k == K::Kw && matches!(t.s.as_str(), "function" | "class" | "async" | "let"))
        };
        if bad {
            let t = Tok { s: "(".into(), k: K::P, mc: true, open: 0, no_nl: false, term: 0, gs: vec![], ge: vec![] };
            self.out.insert(at, t);
            self.p(")");
        }
        self.semi();
    }

    pub fn stmt(&mut self, single: bool) {
        if self.deep() {
            self.leaf_stmt();
            return;
        }
        self.depth += 1;
        match self.rng.below(34) {
            0..=3 => {
                self.km("var");
                self.declarators(true, false);
                self.semi();
            }
            4..=5 if !single => {
                self.kw("let");
                self.declarators(true, false);
                self.semi();
            }
            6 if !single => {
                self.km("const");
                self.declarators(true, true);
                self.semi();
            }
            7..=8 => self.if_stmt(),
            9 => {
                self.km("while");
                self.paren_expr();
                self.mc();
                self.loop_body();
            }
            10 => {
                self.km("do");
                self.open(1);
                self.loop_body();
                self.km("while");
                self.paren_expr();
                self.open(-1);
                self.tok(";", K::P, false).term = 2;
            }
            11..=12 => self.for_stmt(),
            13 => self.for_in_of(),
            14 => self.switch_stmt(),
            15 => self.try_stmt(),
            16 => {
                self.km("throw");
                self.no_nl();
                self.expr();
                self.semi();
            }
            17..=18 if self.func > 0 => {
                self.kw("return");
                if self.rng.chance(3, 4) {
                    self.no_nl();
                    self.expr();
                }
                self.semi();
            }
            19 if self.loops > 0 => {
                self.kw("continue");
                self.semi();
            }
            20 if self.loops + self.switches > 0 => {
                self.kw("break");
                self.semi();
            }
            21 => {
                let l = self.fresh("L");
                self.id(&l);
                self.pm(":");
                self.labels.push(l.clone());
                self.depth += 1;
                self.km("while");
                self.paren_expr();
                self.mc();
                self.pm("{");
                self.loops += 1;
                if self.rng.chance(1, 2) {
                    let w = *self.rng.pick(&["break", "continue"]);
                    self.kw(w);
                    self.no_nl();
                    self.id(&l);
                    self.semi();
                } else {
                    self.body();
                }
                self.loops -= 1;
                self.p("}");
                self.depth -= 1;
                self.labels.pop();
            }
            22 if !single => {
                self.km("function");
                let n = self.fresh("f");
                self.id(&n);
                self.mc();
                self.method_tail(false, false, 3);
            }
            23 if !single => {
                self.km("function");
                self.pm("*");
                let n = self.fresh("g");
                self.id(&n);
                self.mc();
                self.method_tail(false, true, 3);
            }
            24 if !single => {
                self.km("class");
                let n = self.fresh("C");
                self.id(&n);
                self.mc();
                self.class_tail();
            }
            25 => self.block(),
            26 => self.p(";"),
            27 => {
                self.kw("debugger");
                self.semi();
            }
            28 if !self.strict => {
                self.km("with");
                self.paren_expr();
                self.mc();
                self.sub_stmt();
            }
            _ => self.expr_stmt(),
        }
        self.depth -= 1;
    }

    fn leaf_stmt(&mut self) {
        match self.rng.below(4) {
            0 => self.p(";"),
            1 => {
                self.km("var");
                let v = self.fresh("v");
                self.id(&v);
                self.semi();
            }
            _ => {
                self.name_tok();
                self.args_leaf();
                self.semi();
            }
        }
    }

    fn args_leaf(&mut self) {
        self.pm("(");
        if self.rng.chance(1, 2) {
            self.leaf();
        }
        self.p(")");
    }

    fn paren_expr(&mut self) {
        self.pm("(");
        self.with_depth(|g| {
            let no_in = std::mem::replace(&mut g.no_in, false);
            g.expr();
            g.no_in = no_in;
        });
        self.p(")");
    }

    fn if_stmt(&mut self) {
        self.km("if");
        self.paren_expr();
        self.mc();
        if self.rng.chance(1, 2) {
            // braces keep a following else attached to this if
            self.block();
            self.km("else");
            self.sub_stmt();
        } else {
            self.sub_stmt_block_if();
        }
    }

    fn sub_stmt_block_if(&mut self) {
        self.sub_stmt();
    }

    fn for_stmt(&mut self) {
        self.km("for");
        self.pm("(");
        let no_in = std::mem::replace(&mut self.no_in, true);
        match self.rng.below(4) {
            0 => {}
            1 => {
                self.km("var");
                self.simple_declarators();
            }
            2 => {
                self.kw("let");
                self.simple_declarators();
            }
            _ => {
                self.name_tok();
                self.pm("=");
                self.no_arrow = true;
                self.with_depth(|g| g.leaf());
                self.no_arrow = false;
            }
        }
        self.no_in = no_in;
        self.pm(";");
        if self.rng.chance(3, 4) {
            self.with_depth(|g| g.expr());
        }
        self.pm(";");
        if self.rng.chance(3, 4) {
            self.with_depth(|g| g.expr());
        }
        self.pm(")");
        self.loop_body();
    }

    fn simple_declarators(&mut self) {
        for i in 0..self.rng.small(3) {
            if i > 0 {
                self.pm(",");
            }
            let v = self.fresh("i");
            self.id(&v);
            self.pm("=");
            self.leaf();
        }
    }

    fn for_in_of(&mut self) {
        self.km("for");
        self.pm("(");
        match self.rng.below(4) {
            0 => {
                self.km("var");
                let v = self.fresh("i");
                self.id(&v);
                self.km("in");
            }
            1 => {
                self.kw("let");
                let v = self.fresh("i");
                self.id(&v);
                self.km("of");
            }
            2 => {
                self.km("const");
                let v = self.fresh("i");
                self.id(&v);
                let w = *self.rng.pick(&["in", "of"]);
                self.km(w);
            }
            _ => {
                self.name_tok();
                self.km("in");
            }
        }
        self.with_depth(|g| g.assign());
        self.pm(")");
        self.loop_body();
    }

    fn switch_stmt(&mut self) {
        self.km("switch");
        self.paren_expr();
        self.mc();
        self.pm("{");
        self.switches += 1;
        let n = self.rng.range(1, 3);
        let dflt = self.rng.below(5);
        self.depth += 1;
        for i in 0..n {
            if i == dflt {
                self.km("default");
            } else {
                self.km("case");
                self.expr();
            }
            self.pm(":");
            for _ in 0..self.rng.below(3) {
                self.stmt(true);
            }
        }
        self.depth -= 1;
        self.switches -= 1;
        self.p("}");
    }

    fn try_stmt(&mut self) {
        self.km("try");
        self.open(1);
        self.block();
        let c = self.rng.below(3);
        if c < 2 {
            self.km("catch");
            self.open(-1);
            if self.rng.chance(4, 5) {
                self.pm("(");
                let v = self.fresh("e");
                self.id(&v);
                self.pm(")");
            } else {
                self.mc();
            }
            self.block();
        }
        if c > 0 {
            self.km("finally");
            if c == 2 {
                self.open(-1);
            }
            self.block();
        }
    }

    // ------------------------------------------------------------ top level

    fn module_item(&mut self) -> &'static str {
        match self.rng.below(8) {
            0 => {
                self.km("import");
                let s = self.module_name();
                self.tok(&s, K::Str, false);
                self.semi();
                "ImportDeclaration"
            }
            1 => {
                self.km("import");
                let v = self.fresh("m");
                self.id(&v);
                self.mc();
                self.from();
                "ImportDeclaration"
            }
            2 => {
                self.km("import");
                self.pm("*");
                self.km("as");
                let v = self.fresh("m");
                self.id(&v);
                self.mc();
                self.from();
                "ImportDeclaration"
            }
            3 => {
                self.km("import");
                self.pm("{");
                let n = self.rng.below(4);
                for i in 0..n {
                    let v = self.fresh("m");
                    if self.rng.chance(1, 2) {
                        self.prop_name();
                        self.km("as");
                    }
                    self.id(&v);
                    if i + 1 < n || self.rng.chance(1, 8) {
                        self.pm(",");
                    }
                }
                self.pm("}");
                self.from();
                "ImportDeclaration"
            }
            4 => {
                self.km("export");
                self.km("default");
                self.pm("(");
                self.with_depth(|g| g.expr());
                self.p(")");
                self.semi();
                "ExportDefaultDeclaration"
            }
            5 => {
                self.km("export");
                let w = *self.rng.pick(&["var", "const"]);
                self.km(w);
                self.declarators(false, true);
                self.semi();
                "ExportNamedDeclaration"
            }
            6 => {
                self.km("export");
                self.km("function");
                let n = self.fresh("f");
                self.id(&n);
                self.mc();
                self.method_tail(false, false, 3);
                "ExportNamedDeclaration"
            }
            _ => {
                self.km("export");
                self.pm("*");
                self.from();
                "ExportAllDeclaration"
            }
        }
    }

    fn module_name(&mut self) -> String {
        format!("\"./{}\"", self.rng.pick(&["a", "b", "lib/x.js", "../y", "react"]))
    }

    fn from(&mut self) {
        self.km("from");
        let s = self.module_name();
        self.tok(&s, K::Str, false);
        self.semi();
    }

    /// One complete top-level item.
    pub fn item(&mut self) -> Item {
        self.out.clear();
        let module = self.cfg.goal == Goal::Module;
        if module && !self.cfg.independent && self.rng.chance(1, 5) {
            let node = self.module_item();
            return self.take_item(node, false);
        }
        self.stmt(self.cfg.independent);
        if !self.cfg.independent {
            let t = &self.out[0];
            let rep = !(t.k == K::Kw && matches!(t.s.as_str(), "let" | "const" | "class" | "function"));
            return self.take_item("", rep);
        }
        self.take_item("", true)
    }

    /// A generator function.
    pub fn generator(&mut self) -> Item {
        self.out.clear();
        self.km("function");
        self.pm("*");
        let n = self.fresh("g");
        self.id(&n);
        self.mc();
        self.method_tail(false, true, 3);
        self.take_item("", false)
    }

    fn take_item(&mut self, node: &'static str, repeatable: bool) -> Item {
        let toks = squash(std::mem::take(&mut self.out));
        let semi = toks.last().map_or(false, |t| t.s == ";");
        Item { toks, node, repeatable, semi }
    }
}

fn strength(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "|" => 3,
        "^" => 4,
        "&" => 5,
        "==" | "!=" | "===" | "!==" => 6,
        "<" | ">" | "<=" | ">=" | "in" | "instanceof" => 7,
        "<<" | ">>" | ">>>" => 8,
        "+" | "-" => 9,
        "*" | "/" | "%" => 10,
        _ => 11,
    }
}

fn prefix(t: &Tok, asyn: bool) -> bool {
    matches!(t.s.as_str(), "!" | "-" | "+" | "~" | "typeof" | "void" | "delete") || asyn && t.s == "await"
}

/// The nodes (first and last operand) of the tree of a chain of operators.
fn climb(ops: &[&str], pos: &mut usize, least: u8, nodes: &mut Vec<(usize, usize)>) -> (usize, usize) {
    let mut left = (*pos, *pos);
    nodes.push(left);
    while *pos < ops.len() && strength(ops[*pos]) >= least {
        let p = strength(ops[*pos]);
        *pos += 1;
        let right = climb(ops, pos, if p == 11 { p } else { p + 1 }, nodes);
        left = (left.0, right.1);
        nodes.push(left);
    }
    left
}

/// Folds the "no newline here" markers into the token that follows them.
fn squash(v: Vec<Tok>) -> Vec<Tok> {
    let mut out: Vec<Tok> = Vec::with_capacity(v.len());
    let mut no_nl = false;
    for mut t in v {
        if t.s.is_empty() {
            no_nl |= t.no_nl;
            continue;
        }
        t.no_nl |= no_nl;
        no_nl = false;
        debug_assert!(t.term == 0 || t.s == ";");
        out.push(t);
    }
    out
}

// ---------------------------------------------------------------- rendering

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Compact,
    Normal,
    Lines,
    Weird,
}

const BLANK: &[&str] = &[" ", "  ", "\t", " \t ", "\u{b}", "\u{c}", "\u{a0}", "\u{2003}", "/**/", "/* c */", " /* \"'`({[ */ "];
const NL: &[&str] = &["\n", "\r\n", "\r", "\n\n", "\n    ", "\u{2028}", "\u{2029}", "// c\n", "// c '\"`({[\n", "/* a\n b */", "/**\n * doc\n */\n", "//\n"];

fn can_glue(a: &Tok, b: &Tok) -> bool {
    if a.k == K::Tmpl || b.k == K::Tmpl || a.k == K::Re || b.k == K::Re || b.s.starts_with('/') || a.s.starts_with('/') {
        return false;
    }
    (a.k == K::P && matches!(a.s.as_str(), "(" | "[" | "{" | "," | ";"))
        || (b.k == K::P && matches!(b.s.as_str(), ")" | "]" | "," | ";" | "(" | "[" | "{" | "}"))
}

pub fn separator(rng: &mut Rng, style: Style, a: &Tok, b: &Tok) -> String {
    let glue = can_glue(a, b);
    match style {
        Style::Compact => (if glue { "" } else { " " }).to_string(),
        Style::Normal => {
            if glue && rng.chance(2, 3) {
                String::new()
            } else if !b.no_nl && rng.chance(1, 10) {
                "\n".to_string()
            } else {
                " ".to_string()
            }
        }
        Style::Lines => (if b.no_nl { " " } else { "\n" }).to_string(),
        Style::Weird => {
            if glue && rng.chance(1, 3) {
                return String::new();
            }
            let mut s = String::new();
            if a.s.ends_with('/') {
                s.push(' ');
            }
            for _ in 0..rng.small(3) {
                if b.no_nl || rng.chance(1, 2) {
                    s.push_str(*rng.pick(BLANK));
                } else {
                    s.push_str(*rng.pick(NL));
                }
            }
            s
        }
    }
}

/// Text of one item, plus the character offset at which each token starts.
pub fn render(rng: &mut Rng, style: Style, toks: &[Tok]) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut chars = 0;
    let mut at = Vec::with_capacity(toks.len());
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let sep = separator(rng, style, &toks[i - 1], t);
            chars += sep.chars().count();
            s.push_str(&sep);
        }
        at.push(chars);
        chars += t.s.chars().count();
        s.push_str(&t.s);
    }
    (s, at)
}

pub fn style(rng: &mut Rng) -> Style {
    *rng.pick(&[Style::Compact, Style::Normal, Style::Normal, Style::Lines, Style::Weird])
}

/// A rendered program that remembers its items.
pub struct Program {
    pub goal: Goal,
    pub items: Vec<Item>,
}

pub fn program(rng: &mut Rng, cfg: Cfg, dict: &[String], n: usize) -> Program {
    let goal = cfg.goal;
    let sub = Rng::new(rng.u64());
    let mut g = Gen::new(sub, cfg, dict);
    let items = (0..n).map(|_| g.item()).collect();
    Program { goal, items }
}
